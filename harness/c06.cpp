// C06: every placement of extension members in nested structs up to a bound x every subset of omitted members, in JSON
// (both modes) and in binary, against the reference acceptors.
#include "vh.hpp"
#include "lib.hpp"
#include "accept.hpp"
#include "eosio/abieos.h"
using namespace lib;
using namespace ref;

// All ways to switch extension members of a value off.
static void count_ext(const Ty* t, Val& v, std::vector<Val*>& out) {
   switch (t->k) {
      case LEAF: return;
      case ALIAS: return count_ext(t->sub, v, out);
      case EXT: return count_ext(t->sub, v.kids[0], out);
      case OPT:
         if (v.present)
            count_ext(t->sub, v.kids[0], out);
         return;
      case ARR:
         for (auto& k : v.kids) count_ext(t->sub, k, out);
         return;
      case VARIANT: return count_ext(t->ft[v.idx], v.kids[0], out);
      case STRUCT: {
         auto f = all_fields(t);
         for (size_t i = 0; i < f.size(); ++i) {
            if (f[i].t->k == EXT)
               out.push_back(&v.kids[i]);
            count_ext(f[i].t, v.kids[i], out);
         }
      }
   }
}
static void bin_case(vh::T& t, abieos_context* c, const eosio::abi_type* at, const Ty* ty, const std::string& aj, const std::string& bin) {
   t.count("evaluations");
   Bin  b;
   bool ok = decode(ty, bin, b);
   Res  d  = dec(at, bin);
   auto key = [&] { return vh::cut(vh::hexs(bin) + " as " + ty->expr + " of " + aj, 290); };
   if (ok != d.ok) {
      t.fail("dec:" + key(), d.ok ? "accepted as " + d.v : "refused: " + d.err + "; want " + b.json);
      return;
   }
   const char* p = abieos_bin_to_json(c, 1, ty->expr.c_str(), bin.data(), bin.size());
   if (!!p != ok || (p && d.v != p))
      t.fail("capi:" + key(), p ? p : abieos_get_error(c));
   if (!ok)
      return;
   t.distinct("nontrivial", vh::mix(vh::fnv(aj), vh::fnv(bin)));
   if (!b.exact)
      return;
   auto j = parse(d.v), w = parse(b.json);
   if (!j || !w || !(*j == *w)) {
      t.fail("json:" + key(), "got " + d.v + " want " + b.json);
      return;
   }
   Res e = enc(at, d.v), r = encr(at, d.v);
   if (!e.ok || e.v != b.canon)
      t.fail("rt:" + key(), e.ok ? vh::hexs(e.v) : e.err + " for " + d.v);
   if (!r.ok || r.v != b.canon)
      t.fail("rtr:" + key(), r.ok ? vh::hexs(r.v) : r.err + " for " + d.v);
}
static void json_case(vh::T& t, const eosio::abi_type* at, const Ty* ty, const std::string& aj, const std::string& js) {
   for (int m = 0; m < 2; ++m) {
      t.count("evaluations");
      std::string want;
      Verdict     v = from_text(ty, js, m == 0, want);
      if (v == DONTCARE)
         continue;
      Res e = m ? encr(at, js) : enc(at, js);
      if (v == OK)
         t.distinct("nontrivial", vh::mix(vh::fnv(aj), vh::fnv(js)));
      if (v == OK ? (!e.ok || e.v != want) : e.ok)
         t.fail((m ? "reord:" : "inorder:") + vh::cut(aj + " " + js, 290),
                (e.ok ? "got " + vh::hexs(e.v) : "refused: " + e.err) + (v == OK ? " want " + vh::hexs(want) : " should be refused"));
   }
}
static void check_type(vh::T& t, const Ty* ty, size_t lim) {
   std::string     aj = abi_json({ ty });
   t.desc(ty->expr + " in " + aj);
   Abi             a;
   abieos_context* c = abieos_create();
   if (!a.load(aj) || !abieos_set_abi(c, 1, aj.c_str())) {
      t.fail("load:" + vh::cut(aj, 200), a.err);
      abieos_destroy(c);
      return;
   }
   auto at = a.type(ty->expr);
   std::set<std::string> js, bs;
   for (auto v : values(ty, lim)) {
      std::vector<Val*> ex;
      count_ext(ty, v, ex);
      size_t n = std::min<size_t>(ex.size(), 7);
      for (uint32_t m = 0; m < (1u << n); ++m) {
         for (size_t i = 0; i < n; ++i) ex[i]->present = m >> i & 1;
         js.insert(json(ty, v));
         bs.insert(encode(ty, v));
      }
      // omitting any one other member as well
   }
   std::set<std::string> more;
   for (auto& s : js) { // remove any single member of any object from the text, too
      auto j = parse(s);
      if (!j)
         continue;
      std::function<void(J&, const std::function<void()>&)> walk = [&](J& x, const std::function<void()>& emit) {
         for (size_t i = 0; i < x.o.size(); ++i) {
            auto keep = x.o[i];
            x.o.erase(x.o.begin() + i);
            emit();
            x.o.insert(x.o.begin() + i, keep);
            walk(x.o[i].second, emit);
         }
         for (auto& y : x.a) walk(y, emit);
      };
      std::function<std::string(const J&)> pr = [&](const J& x) -> std::string {
         std::string r;
         switch (x.k) {
            case J::Null: return "null";
            case J::Bool: return x.b ? "true" : "false";
            case J::Num: return x.s;
            case J::Str: return quote(x.s);
            case J::Arr:
               for (auto& y : x.a) r += (r.empty() ? "" : ",") + pr(y);
               return "[" + r + "]";
            default:
               for (auto& y : x.o) r += (r.empty() ? "" : ",") + quote(y.first) + ":" + pr(y.second);
               return "{" + r + "}";
         }
      };
      J top = *j;
      walk(top, [&] { more.insert(pr(top)); });
   }
   js.insert(more.begin(), more.end());
   for (auto& s : js) json_case(t, at, ty, aj, s);
   std::set<std::string> cuts;
   for (auto& b : bs)
      for (size_t i = 0; i <= b.size(); ++i) {
         cuts.insert(b.substr(0, i));
         if (i == b.size())
            cuts.insert(b + '\0'), cuts.insert(b + '\1');
      }
   for (auto& b : cuts) bin_case(t, c, at, ty, aj, b);
   abieos_destroy(c);
}
static void run(vh::T& t) {
   // A. structs of up to 4 members, each plain or extension, of member kinds leaf / optional / array / variant / struct with extension tail
   Types ts;
   auto  i8 = ts.lf("int8"), s = ts.lf("string");
   auto  in1 = ts.st({ i8, ts.ext(i8) });            // struct with extension tail
   auto  in2 = ts.st({ ts.ext(i8) });                // only an extension
   auto  in3 = ts.st({ ts.ext(s), i8 });             // extension in front of a required member
   auto  emp = ts.st({});                            // nothing at all
   auto  var = ts.var({ in1, i8 });
   std::vector<const Ty*> kinds = { i8, ts.ext(i8), in1, ts.ext(in1), ts.opt(in1), ts.ext(ts.opt(in1)), var, ts.ext(var), ts.arr(in1), ts.ext(ts.arr(in1)), in2, ts.ext(in2), in3, emp, ts.alias(in1), ts.ext(ts.alias(ts.opt(in2))), ts.var({ ts.ext(i8), in2 }), ts.var({ts.opt(in1), ts.alias(in2)}) };
   int K = kinds.size();
   for (int n = 1; n <= (t.thorough() ? 4 : 3); ++n) {
      uint64_t tot = 1;
      for (int i = 0; i < n; ++i) tot *= K;
      for (uint64_t k = 0; k < tot; ++k)
         if (t.next()) {
            std::vector<const Ty*> f;
            uint64_t               x = k;
            for (int i = 0; i < n; ++i) {
               f.push_back(kinds[x % K]);
               x /= K;
            }
            Types t2;
            t2.prefix = "o";
            auto st = t2.st(f);
            check_type(t, st, n < 3 ? 10 : n == 3 ? 4 : 3);
            if (n < 3) {
               check_type(t, t2.arr(st), 4);
               check_type(t, t2.opt(st), 6);
               check_type(t, t2.var({ st, i8 }), 6);
               check_type(t, t2.alias(st), 4);
               check_type(t, t2.ext(st), 4);
               check_type(t, t2.st({ st }), 6);
               check_type(t, t2.st({ st, t2.ext(i8) }), 6);
               check_type(t, t2.st({ t2.ext(i8) }, st), 6);
               check_type(t, t2.st({}, st), 6);
               check_type(t, t2.var({ t2.opt(t2.st({ t2.alias(st) })) }), 6);
            }
         }
   }
   // B. the general grammar with extensions anywhere
   Types tg;
   tg.prefix = "g";
   Enum  en{ tg };
   int   ms = t.thorough() ? 6 : 5;
   en.run({ "int8" }, ms);
   for (int n = 1; n <= ms; ++n)
      for (auto ty : en.by[n])
         if (t.next())
            check_type(t, ty, 6);
   // C. inheritance: extensions in the base followed by more extensions or by required members; long tails
   for (int nb = 0; nb <= 3; ++nb)
      for (int nd = 0; nd <= 3; ++nd)
         for (int m = 0; m < (1 << (nb + nd)); ++m)
            if (t.next()) {
               Types                  t2;
               t2.prefix = "o";
               auto                   l = t2.lf("uint16");
               std::vector<const Ty*> fb, fd;
               for (int i = 0; i < nb; ++i) fb.push_back(m >> i & 1 ? t2.ext(l) : l);
               for (int i = 0; i < nd; ++i) fd.push_back(m >> (nb + i) & 1 ? t2.ext(l) : l);
               check_type(t, t2.st(fd, t2.st(fb)), 2);
            }
   // D. long tails: e extension members after r required ones; the first k supplied, then one left out or one more supplied
   for (int r = 0; r <= 1; ++r)
      for (int e : { 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 130, 255, 256, 257, 300 })
         for (int wrap = 0; wrap < 3; ++wrap)
            if (t.next()) {
               Types                  t2;
               t2.prefix = "o";
               auto                   l = t2.lf("uint8");
               std::vector<const Ty*> f(r, l);
               for (int i = 0; i < e; ++i) f.push_back(t2.ext(l));
               auto            st = t2.st(f), ty = wrap == 0 ? st : wrap == 1 ? t2.st({ l, st }) : t2.var({ l, t2.opt(st) });
               std::string     aj = abi_json({ ty });
               Abi             a;
               abieos_context* c = abieos_create();
               t.desc(vh::cut(aj, 300));
               if (!a.load(aj) || !abieos_set_abi(c, 1, aj.c_str()))
                  t.fail("load:" + vh::cut(aj, 200), a.err);
               else {
                  auto at = a.type(ty->expr);
                  Val  v;
                  for (auto& x : values(ty, 6)) // one that holds the struct
                  {
                     std::vector<Val*> ex;
                     count_ext(ty, x, ex);
                     if (ex.size() == (size_t)e)
                        v = x;
                  }
                  std::vector<Val*> ex;
                  count_ext(ty, v, ex);
                  if (ex.size() != (size_t)e)
                     t.fail("enumeration " + vh::cut(aj, 200), "no value");
                  else
                     for (int k = 0; k <= e; ++k) {
                        if (e > 40 && k > 10 && k < e - 10 && k % 32 > 1)
                           continue;
                        for (int i = 0; i < e; ++i) ex[i]->present = i < k;
                        std::string bin = encode(ty, v);
                        bin_case(t, c, at, ty, aj, bin);
                        bin_case(t, c, at, ty, aj, bin + "\1");
                        json_case(t, at, ty, aj, json(ty, v));
                        if (k > 0)
                           for (int h : { 0, k / 2, k - 1 }) {
                              ex[h]->present = false;
                              json_case(t, at, ty, aj, json(ty, v));
                              ex[h]->present = true;
                           }
                        if (k + 1 < e) {
                           ex[e - 1]->present = true;
                           json_case(t, at, ty, aj, json(ty, v));
                           ex[e - 1]->present = false;
                        }
                     }
               }
               abieos_destroy(c);
            }
   t.sample("struct o0 {f0:t$; f1: struct{int8;int8$}} with every subset omitted");
}
VH_MAIN(run)
