// C03: every short byte string over structured alphabets, and every truncation / extension / byte change of valid
// encodings, for a family of types: accepted exactly when the reference decoder consumes it all; no read outside the
// buffer (AddressSanitizer, exact-size blocks); no allocation out of proportion to the data present.
#include "alloc.hpp"
#include "vh.hpp"
#include "lib.hpp"
#include "accept.hpp"
#include "eosio/abieos.h"
#include <deque>
#include <list>
#include <map>
#include <set>
using namespace lib;
using namespace ref;

// Room any decoder may take for n input bytes: generous constant per byte, far below any declared huge count.
static uint64_t room(size_t n) { return 4096 + 512 * n; }

struct Sub {
   Abi                    a;
   abieos_context*        c = nullptr;
   const eosio::abi_type* at;
   const Ty*              ty;
   std::string            name;
   bool                   rt = true; // the JSON can be converted back: case names are distinct
   static bool            distinct_cases(const Ty* y) {
      std::set<std::string> n;
      if (y->k == VARIANT)
         for (auto x : y->ft)
            if (!n.insert(x->expr).second)
               return false;
      for (auto x : y->ft)
         if (!distinct_cases(x))
            return false;
      return (!y->sub || distinct_cases(y->sub)) && (!y->base || distinct_cases(y->base));
   }
   Sub(vh::T& t, const Ty* y) : ty(y) {
      rt = distinct_cases(y);
      std::string aj = abi_json({ ty });
      name           = ty->k == LEAF || ty->k == OPT || ty->k == ARR ? ty->expr + (aj.size() > 90 ? " in " + aj : "") : aj;
      if (!a.load(aj)) {
         t.fail("load:" + vh::cut(aj, 200), a.err);
         at = nullptr;
         return;
      }
      at = a.type(ty->expr);
      c  = abieos_create();
      abieos_set_abi(c, 1, aj.c_str());
   }
   ~Sub() {
      if (c)
         abieos_destroy(c);
   }
};
static void one(vh::T& t, Sub& s, const std::string& bin, bool deep) {
   if (!s.at)
      return;
   t.count("evaluations");
   Bin  b;
   bool ok            = decode(s.ty, bin, b);
   vh_alloc::cap      = room(bin.size());
   vh_alloc::reset();
   uint64_t base      = vh_alloc::live_b;
   Res      d         = dec(s.at, bin);
   uint64_t peak      = vh_alloc::peak_b - base;
   uint64_t largest   = vh_alloc::largest;
   vh_alloc::cap      = ~uint64_t(0);
   auto key           = [&] { return vh::cut(vh::hexs(bin) + " as " + s.name, 290); };
   if (largest > room(bin.size()) || peak > 4 * room(bin.size()))
      t.fail("alloc:" + key(), "requested " + std::to_string(largest) + " peak " + std::to_string(peak));
   if (ok != d.ok) {
      t.fail("dec:" + key(), d.ok ? "accepted as " + d.v : "refused: " + d.err);
      return;
   }
   if (deep) {
      std::string h = HEX(bin);
      const char* p = abieos_bin_to_json(s.c, 1, s.ty->expr.c_str(), bin.data(), bin.size());
      if (!!p != ok || (p && d.v != p))
         t.fail("capi:" + key(), p ? p : abieos_get_error(s.c));
      p = abieos_hex_to_json(s.c, 1, s.ty->expr.c_str(), h.c_str());
      if (!!p != ok || (p && d.v != p))
         t.fail("hex:" + key(), p ? p : abieos_get_error(s.c));
   }
   if (!ok) {
      if (d.err.empty())
         t.fail("noerr:" + key(), "refused without an error text");
      return;
   }
   t.distinct("nontrivial", vh::mix(vh::fnv(s.name), vh::fnv(bin)));
   auto j = parse(d.v);
   if (!j) {
      // floats that are not numbers have no JSON form
      if (b.exact)
         t.fail("json:" + key(), d.v);
      return;
   }
   if (!b.exact)
      return;
   auto w = parse(b.json);
   if (!w || !(*j == *w))
      t.fail("json:" + key(), "got " + d.v + " want " + b.json);
   if (!s.rt)
      return;
   Res e = enc(s.at, d.v);
   if (!e.ok || e.v != b.canon)
      t.fail("rt:" + key(), (e.ok ? vh::hexs(e.v) : e.err) + " for " + d.v);
}
template <typename F>
static void strings(const std::string& al, int maxlen, F&& f) {
   std::string s;
   for (int n = 0; n <= maxlen; ++n) {
      std::vector<int> ix(n, 0);
      for (;;) {
         s.clear();
         for (int i : ix) s += al[i];
         f(s);
         int i = n - 1;
         while (i >= 0 && ++ix[i] == (int)al.size()) ix[i--] = 0;
         if (i < 0)
            break;
      }
   }
}
static const std::string AL("\0\1\2\3\x7f\x80\x81\xff", 8);

// ------------------------------------------------------------------------------------------------- native decoders
namespace native {
struct inner {
   std::string         s;
   std::vector<int8_t> v;
};
EOSIO_REFLECT(inner, s, v);
struct outer {
   std::optional<inner>             o;
   std::vector<inner>               l;
   std::variant<int8_t, std::string> x;
};
EOSIO_REFLECT(outer, o, l, x);
} // namespace native
template <typename N>
static void one_native(vh::T& t, const char* nm, const Ty* ty, const std::string& bin, bool exact_rt) {
   t.count("evaluations");
   Bin b;
   b.in         = bin;
   bool sk      = false;
   bool ok      = from_bin(ty, b, false, sk);
   size_t left  = b.in.size();
   std::unique_ptr<char[]> p(new char[bin.size() ? bin.size() : 1]);
   memcpy(p.get(), bin.data(), bin.size());
   N           v{};
   bool        got = false;
   std::string err;
   eosio::input_stream st(p.get(), bin.size());
   vh_alloc::cap = room(bin.size());
   vh_alloc::reset();
   try {
      eosio::from_bin(v, st);
      got = true;
   } catch (std::exception& e) { err = e.what(); }
   uint64_t largest = vh_alloc::largest;
   vh_alloc::cap    = ~uint64_t(0);
   auto key         = [&] { return vh::cut(vh::hexs(bin) + " as native " + nm, 250); };
   if (largest > room(bin.size()))
      t.fail("alloc:" + key(), "requested " + std::to_string(largest));
   if (st.pos < p.get() || st.pos > p.get() + bin.size())
      t.fail("pos:" + key(), "cursor left the buffer");
   if (ok != got) {
      t.fail("dec:" + key(), got ? "accepted" : "refused: " + err);
      return;
   }
   if (!ok)
      return;
   t.distinct("nontrivial", vh::mix(vh::fnv(nm), vh::fnv(bin)));
   if (st.remaining() != left)
      t.fail("used:" + key(), "left " + std::to_string(st.remaining()) + " want " + std::to_string(left));
   else if (exact_rt) {
      auto o = str(eosio::convert_to_bin(v));
      if (o != b.canon)
         t.fail("rt:" + key(), vh::hexs(o));
   }
}
static void natives(vh::T& t, int len) {
   Types ts;
   auto  i8 = ts.lf("int8"), s = ts.lf("string"), by = ts.lf("bytes"), u16 = ts.lf("uint16"), bo = ts.lf("bool");
   // inner.v has a 64-bit count: "bytes" has the same layout
   auto  inner = ts.st({ s, by });
   auto  outer = ts.st({ ts.opt(inner), ts.arr(inner), ts.var({ i8, s }) });
   auto  run   = [&](auto tag, const char* nm, const Ty* ty, bool rt) {
      using N = decltype(tag);
      auto go = [&](const std::string& b) { one_native<N>(t, nm, ty, b, rt); };
      for (char c : AL) // one case per first byte
         if (t.next()) {
            t.desc(std::string("native ") + nm);
            strings(AL, len - 1, [&](const std::string& b) { go(c + b); });
         }
      if (t.next()) {
         t.desc(std::string("native ") + nm);
         go("");
         std::set<std::string> seen;
         for (auto& v : values(ty, 30)) {
            std::string e = encode(ty, v);
            for (size_t i = 0; i <= e.size(); ++i) {
               go(e.substr(0, i));
               if (i < e.size())
                  for (int k = 0; k < 256; ++k) {
                     std::string m = e;
                     m[i]          = k;
                     if (seen.insert(m).second)
                        go(m);
                  }
            }
            for (int k = 0; k < 256; ++k) go(e + char(k));
         }
         for (int bits = 3; bits <= 64; ++bits)
            for (int d = -1; d <= 1; ++d)
               for (const char* tail : { "", "\1", "\1\1\1\1\1\1\1\1\1\1\1\1" }) {
                  uint64_t n = (bits == 64 ? 0 : 1ull << bits) + d;
                  go(varuint(n) + tail);
                  go("\1" + varuint(n) + tail);
                  go("\2" + varuint(n) + tail);
               }
      }
   };
   run(std::string(), "string", s, true);
   run(std::vector<std::string>(), "vector<string>", ts.arr(s), true);
   run(std::vector<char>(), "vector<char>", by, true);
   run(std::vector<uint8_t>(), "vector<uint8_t>", by, true);
   run(std::vector<std::vector<char>>(), "vector<vector<char>>", ts.arr(by), true);
   run(std::optional<std::string>(), "optional<string>", ts.opt(s), true);
   run(std::deque<std::string>(), "deque<string>", ts.arr(s), true);
   run(std::list<uint16_t>(), "list<uint16_t>", ts.arr(u16), true);
   run(std::set<std::string>(), "set<string>", ts.arr(s), false);
   run(std::set<int8_t>(), "set<int8_t>", ts.arr(i8), false);
   run(std::map<std::string, int8_t>(), "map<string,int8_t>", ts.arr(ts.st({ s, i8 })), false);
   run(std::pair<std::string, bool>(), "pair<string,bool>", ts.st({ s, bo }), true);
   run(std::tuple<bool, std::string, int8_t>(), "tuple", ts.st({ bo, s, i8 }), true);
   run(std::array<std::string, 2>(), "array<string,2>", ts.st({ s, s }), true);
   run(std::variant<int8_t, std::string>(), "variant<int8_t,string>", ts.var({ i8, s }), true);
   run(std::vector<std::optional<int8_t>>(), "vector<optional<int8_t>>", ts.arr(ts.st({ ts.opt(i8) })), true);
   run(native::inner(), "inner", inner, true);
   run(native::outer(), "outer", outer, true);
   run(std::vector<native::outer>(), "vector<outer>", ts.arr(outer), true);
   // string_view and nested streams borrow from the input
   for (char c : AL)
      if (t.next())
         strings(AL, len - 1, [&](const std::string& r) {
            std::string bin = c + r;
            for (int m = 0; m < 2; ++m) {
               t.count("evaluations");
               Bin  b;
               b.in    = bin;
               bool sk = false, ok = from_bin(m ? by : s, b, false, sk), got = false;
               std::unique_ptr<char[]> p(new char[bin.size()]);
               memcpy(p.get(), bin.data(), bin.size());
               eosio::input_stream st(p.get(), bin.size()), in;
               std::string_view    sv;
               try {
                  if (m) {
                     eosio::from_bin(in, st);
                     sv = { in.pos, in.remaining() };
                  } else
                     eosio::from_bin(sv, st);
                  got = true;
               } catch (std::exception&) {}
               std::string k = (m ? "input_stream " : "string_view ") + vh::hexs(bin);
               if (ok != got)
                  t.fail("dec:" + k, got ? "accepted" : "refused");
               else if (ok && (st.remaining() != b.in.size() || varuint(sv.size()) + std::string(sv) != b.canon))
                  t.fail("val:" + k, vh::hexs(std::string(sv)));
            }
         });
}

static void run(vh::T& t) {
   Types ts;
   std::vector<const Ty*> fam;
   auto i8 = ts.lf("int8"), s = ts.lf("string"), bo = ts.lf("bool"), vu = ts.lf("varuint32"), by = ts.lf("bytes"), vi = ts.lf("varint32"), u16 = ts.lf("uint16");
   auto in = ts.st({ i8, ts.ext(s) });
   for (auto& l : leaves()) fam.push_back(ts.lf(&l));
   size_t nleaf = fam.size();
   for (auto x : { i8, s, bo, vu, by, vi, u16 }) {
      fam.push_back(ts.opt(x));
      fam.push_back(ts.arr(x));
      fam.push_back(ts.var({ x, bo }));
      fam.push_back(ts.st({ x, s }));
      fam.push_back(ts.st({ ts.arr(x), ts.ext(ts.opt(x)) }));
   }
   fam.push_back(ts.arr(in));
   fam.push_back(ts.st({ bo }, in));
   fam.push_back(ts.var({ in, s, ts.arr(s), ts.opt(by) }));
   fam.push_back(ts.arr(ts.var({ in, s, i8 })));
   fam.push_back(ts.st({ vu, ts.ext(vu), ts.ext(vi) }));
   fam.push_back(ts.arr(ts.st({ ts.opt(vu), ts.arr(bo) })));
   fam.push_back(ts.opt(ts.var({ ts.opt(ts.st({ ts.ext(by) })) })));
   Types tg;
   tg.prefix = "g";
   Enum en{ tg };
   en.run({ "string" }, 4);
   for (int n = 2; n <= 4; ++n) fam.insert(fam.end(), en.by[n].begin(), en.by[n].end());

   // A. all strings over the structured alphabet
   int len = t.thorough() ? 6 : 5;
   for (size_t f = 0; f < fam.size(); ++f)
      for (int c = -1; c < (int)AL.size(); ++c)
         if (t.next()) {
            t.desc(fam[f]->expr + " in " + abi_json({ fam[f] }));
            Sub sb(t, fam[f]);
            if (c < 0)
               one(t, sb, "", true);
            else
               strings(AL, (f < nleaf ? len : len - 1) - 1, [&](const std::string& b) { one(t, sb, AL[c] + b, b.size() < 2); });
         }
   t.count("evals_A", t.counters["evaluations"]);
   // B. all strings of up to two arbitrary bytes
   const std::set<std::string> small = { "bool", "int8", "uint8", "int16", "uint16", "varuint32", "varint32", "string", "bytes" };
   for (size_t f = 0; f < fam.size(); ++f)
      if (f < nleaf + 42 || t.thorough())
         for (int part = 0; part < 4; ++part)
            if (t.next()) {
               t.desc(fam[f]->expr + " in " + abi_json({ fam[f] }));
               Sub sb(t, fam[f]);
               for (int a = part * 64; a < part * 64 + 64; ++a) {
                  one(t, sb, std::string(1, a), false);
                  for (int b = 0; b < 256; b += t.thorough() || (f < nleaf && (small.count(fam[f]->expr) || a < 4)) ? 1 : 5) one(t, sb, std::string(1, a) + char(b), false);
               }
            }
   t.count("evals_AB", t.counters["evaluations"]);
   // C. edits of valid encodings
   Types tg2;
   tg2.prefix = "h";
   Enum en2{ tg2 };
   int  sz = t.thorough() ? 5 : 4;
   en2.run(t.thorough() ? std::vector<std::string>{ "int8", "string", "varuint32" } : std::vector<std::string>{ "string", "varint32" }, sz);
   std::vector<const Ty*> fam2 = fam;
   for (int n = 2; n <= sz; ++n) fam2.insert(fam2.end(), en2.by[n].begin(), en2.by[n].end());
   for (auto& l : leaves())
      for (int w = 0; w < 4; ++w) {
         auto x = tg2.lf(&l);
         fam2.push_back(w == 0 ? tg2.opt(x) : w == 1 ? tg2.arr(x) : w == 2 ? tg2.var({ i8, x }) : tg2.st({ i8, x, tg2.ext(x) }));
      }
   for (auto ty : fam2)
      if (t.next()) {
         t.desc(ty->expr + " in " + abi_json({ ty }));
         Sub                   sb(t, ty);
         std::set<std::string> seen;
         auto                  go = [&](const std::string& b) {
            if (seen.insert(b).second)
               one(t, sb, b, b.size() < 8);
         };
         for (auto& v : values(ty, 8)) {
            std::string e = encode(ty, v);
            for (size_t i = 0; i <= e.size(); ++i) {
               go(e.substr(0, i));
               bool all = t.thorough() ? e.size() <= 8 || i < 3 : i < 2;
               for (int k = 0; k < 256; ++k) {
                  if (!all && k != 0 && k != 1 && k != 2 && k != 0x80 && k != 0xff && k != 0x7f)
                     continue;
                  if (i < e.size()) {
                     std::string m = e;
                     m[i]          = k;
                     go(m);
                  }
                  if (all || i == e.size()) {
                     std::string m = e;
                     m.insert(m.begin() + i, k);
                     go(m);
                  }
               }
            }
         }
      }
   t.count("evals_ABC", t.counters["evaluations"]);
   // D. huge declared sizes
   for (auto ty : fam2)
      if (t.next()) {
         t.desc(ty->expr + " in " + abi_json({ ty }));
         Sub sb(t, ty);
         for (int bits = 2; bits <= 64; ++bits)
            for (int d = -1; d <= 1; ++d) {
               std::string n = varuint((bits == 64 ? 0 : 1ull << bits) + d);
               for (std::string pre : { "", "\1", "\1\1", "\2" })
                  for (std::string tail : { std::string(), std::string("\1"), std::string(20, '\1'), std::string(20, '\0') }) one(t, sb, pre + n + tail, false);
            }
         // over-long forms of small numbers
         for (int k = 0; k < 3; ++k)
            for (int z = 1; z <= 11; ++z) {
               std::string n(1, char(k | 0x80));
               n += std::string(z - 1, '\x80');
               for (std::string last : { std::string(1, '\0'), std::string("\1"), std::string("\x0f"), std::string("\x10") })
                  for (std::string tail : { std::string(), std::string(k, '\1') }) one(t, sb, n + last + tail, false);
            }
      }
   t.count("evals_ABCD", t.counters["evaluations"]);
   // E. hex input of the C interface
   if (t.next()) {
      Sub sb(t, ts.lf("string"));
      strings(std::string("0129aAfFgG xX\0-", 15), 4, [&](const std::string& h) {
         t.count("evaluations");
         std::string z = h.substr(0, h.find('\0'));
         bool        ok = z.size() % 2 == 0 && z.find_first_not_of("0123456789abcdefABCDEF") == std::string::npos;
         Bin         b;
         std::string raw = ok ? unhex(z) : "";
         ok              = ok && decode(sb.ty, raw, b);
         const char* p   = abieos_hex_to_json(sb.c, 1, "string", h.c_str());
         if (!!p != ok)
            t.fail("hexin:" + z, p ? p : abieos_get_error(sb.c));
         else if (ok && b.exact && !(parse(p) && *parse(p) == *parse(b.json)))
            t.fail("hexin:" + z, p);
      });
   }
   // F. native decoders
   natives(t, t.thorough() ? 6 : 5);
   t.sample("0280 as string: refused");
   t.sample("ff ff ff ff 0f as int8[]: refused without a large allocation");
}
VH_MAIN(run)
