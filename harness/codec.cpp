// C01 (CHECK=1) and C02 (CHECK=2): every type of a bounded grammar x every value of a bounded domain, and collection
// sizes across every width boundary of the count, against the reference encoder and canonical JSON of ref.hpp.
#include "vh.hpp"
#include "lib.hpp"
#include "ref.hpp"
#include "eosio/abieos.h"
using namespace lib;
using namespace ref;

struct Ctx {
   abieos_context* c = abieos_create();
   ~Ctx() { abieos_destroy(c); }
};
static std::string spaced(const std::string& js) { // the same document with white space between all tokens
   std::string r;
   bool        in = false;
   for (size_t i = 0; i < js.size(); ++i) {
      char c = js[i];
      if (in) {
         r += c;
         if (c == '\\')
            r += js[++i];
         else if (c == '"') {
            in = false;
            r += '\n';
         }
      } else if (c == '"') {
         in = true;
         (r += ' ') += c;
      } else if (strchr("{}[],:", c))
         ((r += "\t ") += c) += "\r\n";
      else
         r += c;
   }
   return r;
}
static void check_value(vh::T& t, abieos_context* c, const eosio::abi_type* at, const std::string& expr, const std::string& js,
                        const std::string& bin, bool heavy) {
   t.count("evaluations");
   auto key = [&] { return vh::cut(expr + " " + js, 200); };
#if CHECK == 1
   Res e = enc(at, js);
   if (!e.ok || e.v != bin) {
      t.fail("enc:" + key(), e.ok ? "got " + vh::hexs(e.v) + " want " + vh::hexs(bin) : "refused: " + e.err);
      return;
   }
   if (heavy) {
      Res s = enc(at, spaced(js));
      if (!s.ok || s.v != bin)
         t.fail("encws:" + key(), s.ok ? "got " + vh::hexs(s.v) : "refused: " + s.err);
      Res r = encr(at, js);
      if (!r.ok || r.v != bin)
         t.fail("encr:" + key(), r.ok ? "got " + vh::hexs(r.v) + " want " + vh::hexs(bin) : "refused: " + r.err);
      if (!abieos_json_to_bin(c, 1, expr.c_str(), js.c_str()))
         t.fail("capi:" + key(), abieos_get_error(c));
      else {
         std::string b(abieos_get_bin_data(c), abieos_get_bin_size(c));
         if (b != bin)
            t.fail("capi:" + key(), "got " + vh::hexs(b) + " want " + vh::hexs(bin));
      }
   }
#else
   Res d = dec(at, bin);
   if (!d.ok) {
      t.fail("dec:" + key(), "refused: " + d.err);
      return;
   }
   if (d.v != js) { // not the compact form: compare the documents
      auto a = parse(d.v), b = parse(js);
      if (!a)
         t.fail("decjson:" + key(), "not valid JSON: " + d.v);
      else if (!b)
         t.fail("harness", "reference JSON " + js);
      else if (!(*a == *b))
         t.fail("dec:" + key(), "got " + d.v + " want " + js);
   }
   if (heavy) {
      Res e = enc(at, d.v), r = encr(at, d.v);
      if (!e.ok || e.v != bin)
         t.fail("rt:" + key(), e.ok ? "got " + vh::hexs(e.v) : "refused: " + e.err);
      if (!r.ok || r.v != bin)
         t.fail("rtr:" + key(), r.ok ? "got " + vh::hexs(r.v) : "refused: " + r.err);
      const char* p = abieos_bin_to_json(c, 1, expr.c_str(), bin.data(), bin.size());
      if (!p || d.v != p)
         t.fail("capi:" + key(), p ? p : abieos_get_error(c));
      p = abieos_hex_to_json(c, 1, expr.c_str(), vh::hexs(bin).c_str());
      if (!p || d.v != p)
         t.fail("capihex:" + key(), p ? p : abieos_get_error(c));
   }
#endif
}
static void check_type(vh::T& t, const Ty* ty, size_t lim, bool heavy = true) {
   std::string aj = abi_json({ ty });
   t.desc(ty->expr + " in " + aj);
   Ctx  c;
   Abi  a;
   if (!a.load(aj) || !abieos_set_abi(c.c, 1, aj.c_str())) {
      t.fail("load:" + vh::cut(aj, 200), a.err);
      return;
   }
   const eosio::abi_type* at;
   try {
      at = a.type(ty->expr);
   } catch (std::exception& e) {
      t.fail("type:" + ty->expr + " " + vh::cut(aj, 200), e.what());
      return;
   }
   t.count("types");
   for (auto& v : values(ty, lim)) {
      std::string js = json(ty, v), bin = encode(ty, v);
      check_value(t, c.c, at, ty->expr, js, bin, heavy);
      t.distinct("nontrivial", vh::mix(vh::fnv(aj), vh::fnv(js)));
   }
}

static void run(vh::T& t) {
   // A. two leaves, all types up to the size bound
   Types ts;
   Enum  en{ ts };
   int   ms = t.thorough() ? 7 : 6;
   en.run({ "int8", "string" }, ms);
   for (int n = 1; n <= ms; ++n)
      for (auto ty : en.by[n])
         if (t.next()) {
            check_type(t, ty, n < 6 ? 60 : n == 6 ? (t.thorough() ? 60 : 16) : 8);
            if (n == 4 && t.cur % 997 == 0)
               t.sample(abi_json({ ty }) + " value " + (values(ty).empty() ? "-" : json(ty, values(ty).back())));
         }
   // B. all leaves, types up to size 3
   Types                    ts2;
   Enum                     e2{ ts2 };
   std::vector<std::string> all;
   for (auto& l : leaves()) all.push_back(l.name);
   e2.run(all, 3);
   for (int n = 1; n <= 3; ++n)
      for (auto ty : e2.by[n])
         if (t.next())
            check_type(t, ty, 40);
   // extended_asset is predefined
   if (t.next()) {
      Types ts3;
      Abi   a;
      Ctx   c;
      a.load(empty_abi);
      abieos_set_abi(c.c, 1, empty_abi);
      std::string ea = "{\"quantity\":\"1.2345 SYS\",\"contract\":\"b\"}", eb = unhex("39300000000000000453595300000000") + le(7ull << 59, 8);
      for (std::string x : { "extended_asset", "extended_asset?", "extended_asset[]", "extended_asset$" }) {
         std::string js = x.back() == ']' ? "[" + ea + "," + ea + "]" : ea, b = x.back() == ']' ? "\2" + eb + eb : x.back() == '?' ? "\1" + eb : eb;
         check_value(t, c.c, a.type(x), x, js, b, true);
      }
   }
   // C. wide structs, long inheritance chains and aliases with mixed member kinds
   for (int n = 3; n <= 9; ++n)
      for (int pat = 0; pat < 8; ++pat)
         if (t.next()) {
            Types      ts3;
            const Ty*  i8 = ts3.lf("int8");
            const Ty*  s  = ts3.lf("string");
            auto       kind = [&](int i) -> const Ty* {
               switch ((i + pat) % 8) {
                  case 0: return ts3.arr(i8);
                  case 1: return ts3.opt(s);
                  case 2: return ts3.var({ i8, s, ts3.arr(s) });
                  case 3: return ts3.arr(ts3.st({ ts3.arr(i8), s }));
                  case 4: return ts3.alias(ts3.arr(ts3.var({ s, ts3.st({ i8, ts3.arr(s) }) })));
                  case 5: return ts3.st({ ts3.opt(ts3.st({ ts3.arr(i8) })), i8 });
                  case 6: return ts3.alias(ts3.alias(s));
                  default: return i8;
               }
            };
            const Ty* chain = nullptr;
            for (int i = 0; i < n; ++i) {
               chain = ts3.st({ kind(i) }, chain);
               if (i % 3 == 2)
                  chain = ts3.alias(chain);
            }
            check_type(t, chain, 60);
            std::vector<const Ty*> f;
            for (int i = 0; i < n; ++i) f.push_back(kind(i));
            check_type(t, ts3.st(f), 60);
            check_type(t, ts3.arr(ts3.st(f)), 60);
            check_type(t, ts3.var(f), 60);
         }
   // D. variants with many cases: the index crosses one byte
   for (int n : { 2, 127, 128, 129, 130, 200, 300 })
      if (t.next()) {
         Types                  ts3;
         std::vector<const Ty*> cs;
         for (int i = 0; i < n; ++i) cs.push_back(i % 2 ? ts3.st({ ts3.lf("int8") }) : ts3.alias(ts3.lf("string")));
         auto        v = ts3.var(cs);
         Abi         a;
         Ctx         c;
         std::string aj = abi_json({ v });
         if (!a.load(aj) || !abieos_set_abi(c.c, 1, aj.c_str())) {
            t.fail("load:variant" + std::to_string(n), a.err);
            continue;
         }
         for (int i = 0; i < n; ++i)
            for (auto& x : values(cs[i])) {
               Val val{ i, true, { x } };
               check_value(t, c.c, a.type(v->expr), v->expr, json(v, val), encode(v, val), true);
               t.distinct("nontrivial", vh::mix(n, vh::fnv(json(v, val))));
            }
         auto        arr = ts3.arr(v);
         Val         av;
         for (int i = 0; i < n; ++i) av.kids.push_back(Val{ i, true, { values(cs[i])[0] } });
         check_value(t, c.c, a.type(arr->expr), arr->expr, json(arr, av), encode(arr, av), true);
      }
   // E. collection sizes: every count around the varuint width boundaries, alone, in front of and behind other arrays,
   //    and nested with a second boundary count
   std::vector<int> counts;
   for (int i = 0; i <= 300; ++i) counts.push_back(i);
   for (int b : { 511, 512, 1023, 1024, 4095, 4096, 16383, 16384, 16385, 32767, 32768, 65535, 65536 }) counts.push_back(b);
   if (t.thorough())
      for (int b = 16300; b <= 16500; ++b) counts.push_back(b);
   for (int n : counts)
      for (int shape = 0; shape < 6; ++shape)
         if (t.next()) {
            Types     ts3;
            const Ty *i8 = ts3.lf("int8"), *s = ts3.lf("string");
            Val       one{ 0 };
            Val       a;
            a.kids.assign(n, one);
            for (int i = 0; i < n; ++i) a.kids[i].idx = i % 3;
            const Ty* ty;
            Val       v;
            auto      ai = ts3.arr(i8);
            Val       e0, e2;
            e2.kids = { one, one };
            switch (shape) {
               case 0:
                  ty = ai;
                  v  = a;
                  break;
               case 1: // several arrays after each other
                  ty = ts3.st({ ai, ai, s, ts3.arr(s) });
                  v  = Val{ 0, true, { e2, a, one, a } };
                  break;
               case 2: { // array of structs containing arrays; the outer count is n
                  auto in = ts3.st({ ai, i8 });
                  ty      = ts3.arr(in);
                  for (int i = 0; i < n; ++i) v.kids.push_back(Val{ 0, true, { i % 2 ? e2 : e0, one } });
                  break;
               }
               case 3: { // the inner count is n, preceded and followed by other inner arrays
                  auto in = ts3.st({ ai });
                  ty      = ts3.arr(in);
                  v.kids  = { Val{ 0, true, { e2 } }, Val{ 0, true, { a } }, Val{ 0, true, { e0 } }, Val{ 0, true, { e2 } } };
                  break;
               }
               case 4: { // variant and optional in between
                  auto in = ts3.var({ s, ts3.st({ ts3.opt(ts3.st({ ai })), ai }) });
                  ty      = ts3.st({ ts3.arr(in), ai });
                  Val w{ 1, true, { Val{ 0, true, { Val{ 0, true, { Val{ 0, true, { a } } } }, e2 } } } };
                  v = Val{ 0, true, { Val{ 0, true, { w, Val{ 0, true, { one } }, w } }, a } };
                  break;
               }
               default: // string and bytes of this length
                  ty = nullptr;
            }
            Ctx c;
            Abi al;
            if (shape == 5) {
               std::string x(n, 'x'), y;
               for (int i = 0; i < n; ++i) x[i] = "abc"[i % 3], y += char(i * 7);
               al.load(empty_abi);
               abieos_set_abi(c.c, 1, empty_abi);
               check_value(t, c.c, al.type("string"), "string", quote(x), varuint(n) + x, true);
               std::string h;
               for (unsigned char ch : y) (h += "0123456789ABCDEF"[ch >> 4]) += "0123456789ABCDEF"[ch & 15];
               check_value(t, c.c, al.type("bytes"), "bytes", quote(h), varuint(n) + y, true);
               continue;
            }
            std::string aj = abi_json({ ty });
            if (!al.load(aj) || !abieos_set_abi(c.c, 1, aj.c_str())) {
               t.fail("load:" + vh::cut(aj, 100), al.err);
               continue;
            }
            t.desc("count " + std::to_string(n) + " shape " + std::to_string(shape));
            t.distinct("nontrivial", vh::mix(n, shape + 77));
            check_value(t, c.c, al.type(ty->expr), ty->expr, json(ty, v), encode(ty, v), true);
         }
   // G. many arrays in one document, at several depths, in patterns of empty and non-empty
   for (int n : { 1, 2, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 255, 256, 257, 300 })
      for (int depth = 0; depth <= 5; ++depth)
         for (int wrap = 0; wrap < 4; ++wrap)
            for (int pat = 0; pat < 5; ++pat)
               if (t.next()) {
                  if (!depth && wrap)
                     continue;
                  Types ts3;
                  auto  i8 = ts3.lf("int8"), ai = ts3.arr(i8);
                  auto  el = ts3.st({ i8, ai });
                  auto  cur = el;
                  for (int d = 0; d < depth; ++d)
                     switch (wrap == 3 ? d % 3 : wrap) {
                        case 0: cur = ts3.st({ cur }); break;
                        case 1: cur = ts3.var({ i8, ts3.alias(cur) }); break;
                        default: cur = ts3.st({ ts3.arr(cur), i8 });
                     }
                  auto ty = ts3.arr(cur);
                  Val  v;
                  for (int i = 0; i < n; ++i) {
                     bool empty = pat == 0 || (pat == 1 && i % 2) || (pat == 2 && i + 1 < n) || (pat == 3 && i) || (pat == 4 && i % 7 == 3);
                     Val  a;
                     if (!empty)
                        a.kids.assign(1 + i % 3, Val{ i % 3 });
                     Val x{ 0, true, { Val{ i % 3 }, a } };
                     for (int d = 0; d < depth; ++d)
                        switch (wrap == 3 ? d % 3 : wrap) {
                           case 0: x = Val{ 0, true, { x } }; break;
                           case 1: x = Val{ 1, true, { x } }; break;
                           default: {
                              Val s{ 0, true, { x } };
                              if (i % 5 == 4)
                                 s.kids.clear();
                              x = Val{ 0, true, { s, Val{ 1 } } };
                           }
                        }
                     v.kids.push_back(x);
                  }
                  Ctx         c;
                  Abi         al;
                  std::string aj = abi_json({ ty });
                  if (!al.load(aj) || !abieos_set_abi(c.c, 1, aj.c_str())) {
                     t.fail("load:" + vh::cut(aj, 100), al.err);
                     continue;
                  }
                  t.desc("wide " + std::to_string(n) + " depth " + std::to_string(depth) + " wrap " + std::to_string(wrap) + " pattern " + std::to_string(pat));
                  std::string js = json(ty, v);
                  t.distinct("nontrivial", vh::mix(vh::fnv(aj), vh::fnv(js)));
                  check_value(t, c.c, al.type(ty->expr), ty->expr, js, encode(ty, v), n < 70 || n > 250);
               }
   // F. two and three adjacent arrays with every pair of boundary counts
   std::vector<int> bc = { 0, 1, 2, 127, 128, 129, 255, 256 };
   if (t.thorough())
      bc.insert(bc.end(), { 16383, 16384 });
   for (int x : bc)
      for (int y : bc)
         for (int z : bc)
            if (t.next()) {
               Types     ts3;
               auto      ai = ts3.arr(ts3.lf("int8"));
               auto      ty = ts3.st({ ai, ts3.arr(ts3.st({ ai })), ai });
               auto      mk = [&](int n) {
                  Val v;
                  v.kids.assign(n, Val{ 1 });
                  return v;
               };
               Val v{ 0, true, { mk(x), Val{ 0, true, { Val{ 0, true, { mk(y) } }, Val{ 0, true, { mk(z) } } } }, mk(z) } };
               Ctx c;
               Abi al;
               std::string aj = abi_json({ ty });
               al.load(aj);
               abieos_set_abi(c.c, 1, aj.c_str());
               t.distinct("nontrivial", vh::mix(vh::mix(x, y), z));
               check_value(t, c.c, al.type(ty->expr), ty->expr, json(ty, v), encode(ty, v), x < 300);
            }
   if (t.thorough())
      for (int n : { (1 << 21) - 1, 1 << 21, (1 << 21) + 1 })
         if (t.next()) {
            Abi al;
            Ctx c;
            al.load(empty_abi);
            std::string js = "[";
            for (int i = 0; i < n; ++i) js += i ? ",1" : "1";
            js += "]";
            check_value(t, c.c, al.type("int8[]"), "int8[]", js, varuint(n) + std::string(n, '\1'), false);
         }
}
VH_MAIN(run)
