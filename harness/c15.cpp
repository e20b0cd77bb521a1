// C15: floating point.  Oracle: bit identity after a round trip through the printed text; the printed text must be
// in the JSON number grammar; reading decimal text must agree with glibc's correctly rounded strtod/strtof.
#include "vh.hpp"
#include "lib.hpp"
#include <cmath>
using namespace lib;

static bool json_num(std::string_view s) {
   size_t i   = 0;
   auto   dig = [&] { return i < s.size() && s[i] >= '0' && s[i] <= '9'; };
   if (i < s.size() && s[i] == '-')
      ++i;
   if (!dig())
      return false;
   if (s[i] == '0')
      ++i;
   else
      while (dig()) ++i;
   if (i < s.size() && s[i] == '.') {
      ++i;
      if (!dig())
         return false;
      while (dig()) ++i;
   }
   if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
      ++i;
      if (i < s.size() && (s[i] == '+' || s[i] == '-'))
         ++i;
      if (!dig())
         return false;
      while (dig()) ++i;
   }
   return i == s.size();
}
template <typename F, typename U>
static std::string name_of() {
   return sizeof(F) == 4 ? "float32" : "float64";
}
// native print + parse of one bit pattern
template <typename F, typename U>
static void one(vh::T& t, U bits) {
   F f;
   memcpy(&f, &bits, sizeof f);
   char                    buf[64];
   eosio::fixed_buf_stream fs(buf, sizeof buf);
   try {
      to_json(f, fs);
   } catch (std::exception& e) {
      t.fail(name_of<F, U>() + ":" + std::to_string(bits), std::string("printing: ") + e.what());
      return;
   }
   std::string s(buf, fs.pos - buf);
   if (std::isnan(f) || std::isinf(f)) {
      std::string want = std::isnan(f) ? "\"NaN\"" : f > 0 ? "\"Infinity\"" : "\"-Infinity\"";
      if (s != want) {
         t.fail(name_of<F, U>() + ":" + std::to_string(bits), "prints " + s);
         return;
      }
   } else if (!json_num(s)) {
      t.fail(name_of<F, U>() + ":" + std::to_string(bits), "not a JSON number: " + s);
      return;
   }
   char js[80];
   memcpy(js, s.data(), s.size());
   memset(js + s.size(), 0, 3);
   F back;
   try {
      eosio::json_token_stream st(js);
      from_json(back, st);
   } catch (std::exception& e) {
      t.fail(name_of<F, U>() + ":" + std::to_string(bits), "text " + s + " does not parse: " + e.what());
      return;
   }
   U bb;
   memcpy(&bb, &back, sizeof bb);
   if (std::isnan(f) ? !std::isnan(back) : bb != bits)
      t.fail(name_of<F, U>() + ":" + std::to_string(bits), "text " + s + " reads back as " + std::to_string(bb));
}
template <typename F, typename U>
static void abi_one(vh::T& t, const eosio::abi_type* at, U bits) {
   F f;
   memcpy(&f, &bits, sizeof f);
   std::string b((char*)&bits, sizeof bits);
   Res         d = dec(at, b);
   if (!d.ok) {
      t.fail("abi:" + name_of<F, U>() + ":" + std::to_string(bits), d.err);
      return;
   }
   Res e = enc(at, d.v), r = encr(at, d.v);
   if (!e.ok || !r.ok || (std::isnan(f) ? (e.v.size() != sizeof(F) || r.v.size() != sizeof(F)) : (e.v != b || r.v != b)))
      t.fail("abirt:" + name_of<F, U>() + ":" + std::to_string(bits), "text " + d.v);
}

static void run(vh::T& t) {
   Abi abi;
   abi.load(empty_abi);
   auto t32 = abi.type("float32"), t64 = abi.type("float64");
   // A. 32-bit: every value (thorough), or every exponent with every mantissa pattern of the low/high 12 bits (quick)
   if (t.thorough()) {
      const uint64_t step = 1 << 20;
      for (uint64_t b = 0; b < (1ull << 32); b += step) {
         if (!t.next())
            continue;
         t.count("evaluations", step);
         t.count("nontrivial", step);
         for (uint64_t x = b; x < b + step; ++x) one<float, uint32_t>(t, (uint32_t)x);
      }
   } else {
      for (uint32_t e = 0; e < 512; ++e) { // sign and exponent
         if (!t.next())
            continue;
         for (uint32_t m = 0; m < (1u << 11); ++m) {
            for (uint32_t mant : { m, m << 12, (m << 12) | 0xfff, 0x7fffff - m, 0x400000u ^ m }) {
               one<float, uint32_t>(t, e << 23 | (mant & 0x7fffff));
               t.count("evaluations");
               t.distinct("nontrivial", e << 23 | (mant & 0x7fffff));
            }
         }
      }
   }
   // B. 64-bit: every exponent x mantissas with up to three runs of bits at a stride, low and high neighbours
   int stride = t.thorough() ? 1 : 4;
   for (uint32_t e = 0; e < 4096; ++e) {
      if (!t.next())
         continue;
      std::set<uint64_t> ms;
      for (int i = 0; i <= 52; i += stride)
         for (int j = i; j <= 52; j += stride) {
            uint64_t m = 0;
            for (int k = i; k < j; ++k) m |= 1ull << k;
            ms.insert(m);
            ms.insert(~m & 0xfffffffffffffull);
            if (t.thorough())
               ms.insert(m ^ 0x5555555555555ull), ms.insert((m + 1) & 0xfffffffffffffull);
         }
      for (uint64_t k = 0; k < 24; ++k) {
         ms.insert(k);
         ms.insert(0xfffffffffffffull - k);
         ms.insert(0x8000000000000ull ^ k);
      }
      for (auto m : ms) {
         uint64_t bits = (uint64_t)e << 52 | m;
         one<double, uint64_t>(t, bits);
         t.count("evaluations");
         t.distinct("nontrivial", bits ^ 0x123456789ull << 20);
      }
   }
   // C. decimal-looking doubles: d * 10^k for small d and every k (shortest printing, exponent switch points)
   for (int k = -330; k <= 310; ++k) {
      if (!t.next())
         continue;
      for (int d = 0; d < (t.thorough() ? 10000 : 1200); ++d) {
         char s[40];
         snprintf(s, sizeof s, "%de%d", d, k);
         double   x = strtod(s, nullptr);
         uint64_t b;
         memcpy(&b, &x, 8);
         one<double, uint64_t>(t, b);
         float    y = strtof(s, nullptr);
         uint32_t c;
         memcpy(&c, &y, 4);
         one<float, uint32_t>(t, c);
         t.count("evaluations", 2);
      }
   }
   // D. ABI paths on a grid
   for (uint32_t e = 0; e < 512; e += 1) {
      if (!t.next())
         continue;
      for (uint32_t m : { 0u, 1u, 0x7fffffu, 0x400000u, 0x2aaaaau }) abi_one<float, uint32_t>(t, t32, e << 23 | m);
      for (uint64_t e2 = e * 8; e2 < e * 8 + 8; ++e2)
         for (uint64_t m : { 0ull, 1ull, 0xfffffffffffffull, 0x8000000000000ull, 0xaaaaaaaaaaaaaull })
            abi_one<double, uint64_t>(t, t64, e2 << 52 | m);
      t.count("evaluations", 45);
   }
   // E. reading: every text over an alphabet; a valid JSON number must be read with the correctly rounded value or
   // refused exactly when it is too large; text that is not entirely a number must be refused
   const std::string al = "019.-+eE";
   int               ml = t.thorough() ? 7 : 6;
   for (int len = 0; len <= ml; ++len) {
      uint64_t n = 1;
      for (int i = 0; i < len; ++i) n *= al.size();
      for (uint64_t b0 = 0; b0 < n; b0 += 4096) {
         if (!t.next())
            continue;
         for (uint64_t k = b0; k < std::min(n, b0 + 4096); ++k) {
            std::string s;
            uint64_t    x = k;
            for (int i = 0; i < len; ++i) {
               s += al[x % al.size()];
               x /= al.size();
            }
            bool valid = json_num(s);
            t.count("evaluations");
            for (int w = 0; w < 2; ++w) {
               // not entirely a number by C's own grammar: must be refused.  In between (".5", "1.") is not specified.
               char* e;
               double dv = strtod(s.c_str(), &e);
               bool   cnum = !s.empty() && *e == 0;
               float  fv   = strtof(s.c_str(), &e);
               Res    r    = w ? njson<double>(q(s)) : njson<float>(q(s));
               if (valid) {
                  bool        big = w ? std::isinf(dv) : std::isinf(fv);
                  std::string want((char*)(w ? (void*)&dv : (void*)&fv), w ? 8 : 4);
                  // zero from a non-zero text (underflow) may be refused or read as zero
                  bool tiny = (w ? dv == 0 : fv == 0) && s.find_first_of("19") < s.find_first_of("eE");
                  if (big ? r.ok : (tiny ? (r.ok && r.v != want) : (!r.ok || r.v != want)))
                     t.fail((w ? "text64:" : "text32:") + s, r.ok ? vh::hexs(r.v) : r.err);
               } else if (!cnum && r.ok)
                  t.fail((w ? "junk64:" : "junk32:") + s, "accepted as " + vh::hexs(r.v));
            }
         }
      }
   }
   // F. long and extreme texts
   if (t.next()) {
      std::vector<std::string> good, bad;
      for (int z : { 1, 10, 50, 300, 400, 1000 }) {
         good.push_back("0." + std::string(z, '0') + "1e" + std::to_string(z));
         good.push_back(std::string("1") + std::string(z, '0') + "e-" + std::to_string(z));
         good.push_back("1." + std::string(z, '3'));
         good.push_back("0." + std::string(z, '9'));
      }
      good.push_back("1.7976931348623157e308");
      good.push_back("2.2250738585072014e-308");
      good.push_back("2.2250738585072011e-308");
      good.push_back("4.9406564584124654e-324");
      good.push_back("9007199254740993");
      good.push_back("9007199254740992.9999999999999999999");
      good.push_back("3.4028234663852886e38");
      for (auto& s : good) {
         t.count("evaluations");
         double      d = strtod(s.c_str(), nullptr);
         float       f = strtof(s.c_str(), nullptr);
         std::string w((char*)&d, 8), w4((char*)&f, 4);
         for (auto& js : { s, q(s) }) {
            // an unquoted number with more than 300 digits is beyond the JSON tokenizer (third party)
            if (js[0] != '"' && s.size() > 300)
               continue;
            Res a = enc(t64, js), b = encr(t64, js);
            if (!a.ok || a.v != w || !b.ok || b.v != w)
               t.fail("ext64:" + vh::cut(s, 60), a.ok ? vh::hexs(a.v) : a.err);
            if (std::isinf(f) || (f == 0 && d != 0))
               continue;
            Res c = enc(t32, js), e = encr(t32, js);
            if (!c.ok || c.v != w4 || !e.ok || e.v != w4)
               t.fail("ext32:" + vh::cut(s, 60), c.ok ? vh::hexs(c.v) : c.err);
         }
      }
      for (std::string s : { "1.7976931348623159e308", "1e309", "-1e309", "1e400", "1e99999", "2e308" }) bad.push_back(s);
      for (std::string s : { "1x", "1 ", "1,0", "", "-", "+", ".", "e5", "1e", "1e+", "--1", "1.2.3", "abc", "Infinit", "NaNx1", "1\\u0000" }) bad.push_back(s);
      for (auto& s : bad) {
         t.count("evaluations");
         Res a = enc(t64, q(s)), b = encr(t64, q(s)), c = enc(t32, q(s));
         if (a.ok || b.ok || c.ok)
            t.fail("bad:" + s, "accepted");
      }
      for (std::string s : { "true", "null", "[]", "{}", "[1]" }) {
         Res a = enc(t64, s), b = encr(t64, s), c = enc(t32, s);
         if (a.ok || b.ok || c.ok)
            t.fail("kind:" + s, "accepted");
      }
      for (std::string s : { "3.5e38", "1e39", "-4e38" }) {
         Res c = enc(t32, s);
         if (c.ok)
            t.fail("big32:" + s, "accepted");
      }
      uint64_t inf = 0x7ff0000000000000ull, ninf = 0xfff0000000000000ull;
      Res      a = enc(t64, "\"Infinity\""), b = enc(t64, "\"-Infinity\""), c = enc(t64, "\"NaN\"");
      if (!a.ok || a.v != std::string((char*)&inf, 8) || !b.ok || b.v != std::string((char*)&ninf, 8) || !c.ok)
         t.fail("infnan", a.err + b.err + c.err);
   }
   t.sample("float32 bits 1 (subnormal), float64 2.2250738585072011e-308");
}
VH_MAIN(run)
