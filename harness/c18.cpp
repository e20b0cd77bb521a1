// C18: symbol codes, symbols and assets as text.
#include "lib.hpp"
#include "ref.hpp"
#include "vh.hpp"
#include <eosio/asset.hpp>
#include <eosio/from_string.hpp>
using namespace vh;
using std::string;
typedef __int128 i128;

enum V { BAD, OK, EITHER };
static bool code_ok(const string& c) {
   if (c.empty() || c.size() > 7)
      return false;
   for (char x : c)
      if (x < 'A' || x > 'Z')
         return false;
   return true;
}
static uint64_t code_v(const string& c) {
   uint64_t v = 0;
   for (size_t i = 0; i < c.size(); ++i) v |= (uint64_t)c[i] << 8 * i;
   return v;
}
static string trim(const string& s) {
   size_t i = 0;
   while (i < s.size() && s[i] == ' ') ++i;
   return s.substr(i);
}
// Verdicts.  Spaces before the code (and before an amount) and absent digits are tolerated by the code under test
// today; the property says nothing about them: accepted or not, but never with another value.
static V code(const string& s, uint64_t& v) {
   string c = trim(s);
   if (!code_ok(c))
      return BAD;
   v = code_v(c);
   return c == s ? OK : EITHER;
}
static V sym(const string& s, uint64_t& v) {
   size_t i = 0;
   i128   p = 0;
   while (i < s.size() && isdigit((unsigned char)s[i])) {
      p = std::min<i128>(p * 10 + (s[i] - '0'), 1000000);
      ++i;
   }
   if (!i || p > 255 || i >= s.size() || s[i] != ',')
      return BAD;
   V r = code(s.substr(i + 1), v);
   v   = v << 8 | (uint64_t)p;
   return r;
}
static V asst(const string& s0, int64_t& a, uint64_t& v) {
   string s = trim(s0);
   V      r = s == s0 ? OK : EITHER;
   size_t i = 0;
   bool   neg = false;
   if (i < s.size() && s[i] == '-')
      neg = true, ++i;
   i128 m = 0, cap = ((i128)1) << 100;
   int  nd = 0, nf = 0;
   auto dig = [&](int& n) {
      while (i < s.size() && isdigit((unsigned char)s[i])) {
         m = std::min(m * 10 + (s[i] - '0'), cap);
         ++i, ++n;
      }
   };
   dig(nd);
   if (i < s.size() && s[i] == '.') {
      ++i;
      dig(nf);
      if (!nf)
         r = EITHER;
   }
   if (!nd)
      r = EITHER;
   if (i < s.size() && s[i] != ' ')
      r = EITHER; // code without a space before it
   string rest = s.substr(i), c = trim(rest);
   if (rest.size() != c.size() + 1)
      r = EITHER;
   i128 val = neg ? -m : m;
   if (!code_ok(c) || nf > 255 || val > INT64_MAX || val < INT64_MIN)
      return BAD;
   a = (int64_t)val;
   v = code_v(c) << 8 | nf;
   return r;
}
static string digits(i128 m) {
   string s;
   do s += char('0' + int(m % 10)), m /= 10;
   while (m);
   std::reverse(s.begin(), s.end());
   return s;
}
static string asset_text(int64_t a, uint64_t v) {
   i128   m = a < 0 ? -(i128)a : (i128)a;
   string s = digits(m), c;
   int    p = v & 255;
   if ((int)s.size() < p + 1)
      s.insert(0, p + 1 - s.size(), '0');
   if (p)
      s.insert(s.size() - p, ".");
   for (v >>= 8; v; v >>= 8) c += char(v & 255);
   return (a < 0 ? "-" : "") + s + " " + c;
}
static lib::Abi& A() {
   static lib::Abi a;
   static bool     once = a.load(lib::empty_abi);
   return a;
}
static void judge(T& t, const char* what, const string& s, V v, const string& want, const lib::Res& r) {
   auto id = [&] { return string(what) + " '" + esc(s) + "'"; };
   if (v == BAD)
      t.ok(!r.ok, string("accepted:") + what, id() + " gives " + hexs(r.v));
   else {
      if (v == OK)
         t.ok(r.ok, string("refused:") + what, id() + " " + r.err);
      if (r.ok)
         t.ok(r.v == want, string("value:") + what, id() + " gives " + hexs(r.v) + " wanted " + hexs(want));
   }
}
static bool printable(const string& s) {
   for (unsigned char c : s)
      if (c < 32 || c > 126)
         return false;
   return true;
}
static void asset_text_case(T& t, const string& s, bool full = true) {
   t.count("evaluations");
   int64_t  a = 0;
   uint64_t v = 0;
   V        w = asst(s, a, v);
   string   b = ref::le(a, 8) + ref::le(v, 8);
   if (w != BAD)
      t.distinct("nontrivial", fnv(s, 1));
   if (printable(s)) {
      string q = ref::quote(s);
      judge(t, "asset-native", s, w, b, lib::njson<eosio::asset>(q));
      if (full) {
         judge(t, "asset-abi", s, w, b, lib::enc(A().type("asset"), q));
         judge(t, "asset-abi-reorder", s, w, b, lib::encr(A().type("asset"), q));
         judge(t, "extended-asset", s, w, b + ref::le(6ull << 59, 8), lib::enc(A().type("extended_asset"), "{\"quantity\":" + q + ",\"contract\":\"a\"}"));
         judge(t, "extended-asset-native", s, w, b + ref::le(6ull << 59, 8), lib::njson<eosio::extended_asset>("{\"quantity\":" + q + ",\"contract\":\"a\"}"));
      }
   }
   // the constructor's rules apply to from_string
   if (w == OK && (a > eosio::asset::max_amount || a < -eosio::asset::max_amount))
      w = BAD;
   judge(t, "asset-from-string", s, w, b, lib::attempt([&] {
            auto x = eosio::convert_from_string<eosio::asset>(s);
            return ref::le(x.amount, 8) + ref::le(x.symbol.value, 8);
         }));
   // a cursor in a longer text stops after the code
   if (w == OK && full) {
      string      l = s + "!x";
      const char* p = l.data();
      int64_t     a2;
      uint64_t    v2;
      bool        ok = eosio::string_to_asset(a2, v2, p, l.data() + l.size(), false);
      t.ok(ok && a2 == a && v2 == v && p == l.data() + s.size(), "asset-cursor", s);
      t.ok(!eosio::string_to_asset(a2, v2, l.data(), l.data() + l.size()), "asset-trailing", s);
   }
}
static void sym_text_case(T& t, const string& s) {
   t.count("evaluations");
   uint64_t v = 0, c = 0;
   V        w = sym(s, v), wc = code(s, c);
   if (w != BAD || wc != BAD)
      t.distinct("nontrivial", fnv(s, 2));
   if (printable(s)) {
      string q = ref::quote(s);
      judge(t, "symbol-native", s, w, ref::le(v, 8), lib::njson<eosio::symbol>(q));
      judge(t, "symbol-abi", s, w, ref::le(v, 8), lib::enc(A().type("symbol"), q));
      judge(t, "symbol-abi-reorder", s, w, ref::le(v, 8), lib::encr(A().type("symbol"), q));
      judge(t, "code-native", s, wc, ref::le(c, 8), lib::njson<eosio::symbol_code>(q));
      judge(t, "code-abi", s, wc, ref::le(c, 8), lib::enc(A().type("symbol_code"), q));
      judge(t, "extended-symbol", s, w, ref::le(v, 8) + ref::le(6ull << 59, 8), lib::njson<eosio::extended_symbol>("{\"sym\":" + q + ",\"contract\":\"a\"}"));
   }
   auto raw = [&](auto f) {
      return lib::attempt([&] {
         uint64_t x;
         if (!f(x))
            throw std::runtime_error("refused");
         return ref::le(x, 8);
      });
   };
   judge(t, "symbol-text", s, w, ref::le(v, 8), raw([&](uint64_t& x) { return eosio::string_to_symbol(x, s.data(), s.data() + s.size()); }));
   judge(t, "code-text", s, wc, ref::le(c, 8), raw([&](uint64_t& x) { return eosio::string_to_symbol_code(x, s.data(), s.data() + s.size()); }));
   // constructors take the code alone, and no leading spaces (an empty text is the empty code)
   if (!s.empty()) {
      V x = code_ok(s) ? OK : BAD;
      judge(t, "code-ctor", s, x, ref::le(code_v(s), 8), lib::attempt([&] { return ref::le(eosio::symbol_code(std::string_view(s)).raw(), 8); }));
      if (x == OK)
         for (int p : { 0, 1, 4, 18, 127, 128, 255 })
            judge(t, "symbol-ctor", s, x, ref::le(code_v(s) << 8 | p, 8), lib::attempt([&] { return ref::le(eosio::symbol(std::string_view(s), p).raw(), 8); }));
   }
}
static void value_case(T& t, int64_t a, int p, const string& c, bool full = true) {
   t.count("evaluations");
   uint64_t v = code_v(c) << 8 | p;
   string   w = asset_text(a, v), b = ref::le(a, 8) + ref::le(v, 8), q = "\"" + w + "\"";
   t.distinct("nontrivial", mix(a, v));
   eosio::asset x;
   x.amount = a;
   x.symbol = eosio::symbol(v);
   t.ok(x.to_string() == w, "asset-print", w + " prints as " + x.to_string());
   auto d = lib::dec(A().type("asset"), b);
   t.ok(d.ok && d.v == q, "asset-abi-print", w + " " + d.v + d.err);
   auto e = lib::enc(A().type("asset"), q);
   t.ok(e.ok && e.v == b, "asset-back", w + " " + hexs(e.v) + e.err);
   if (full) {
      auto n = lib::attempt([&] { return eosio::convert_to_json(x); });
      t.ok(n.ok && n.v == q, "asset-native-print", w + " " + n.v);
      auto m = lib::njson<eosio::asset>(q);
      t.ok(m.ok && m.v == b, "asset-native-back", w + " " + m.err);
      eosio::extended_asset y;
      y.quantity = x;
      y.contract = eosio::name(std::string_view("eosio.token"));
      auto z     = lib::attempt([&] { return eosio::convert_to_json(y); });
      t.ok(z.ok && z.v == "{\"quantity\":" + q + ",\"contract\":\"eosio.token\"}", "extended-print", w + " " + z.v);
      t.ok(y.to_string() == w + "@eosio.token", "extended-to-string", w + " " + y.to_string());
   }
}
static void sym_value(T& t, uint64_t v, const string& c, int p) {
   t.count("evaluations");
   eosio::symbol s(v);
   string        w = std::to_string(p) + "," + c;
   t.ok(s.to_string() == w && s.precision() == p && s.code().raw() == code_v(c) && s.code().to_string() == c && s.code().length() == c.size() && s.raw() == v, "symbol-parts", w + " is " + s.to_string());
   t.ok(s.is_valid() && s.code().is_valid(), "symbol-valid", w);
   t.ok(eosio::symbol(s.code(), p).raw() == v, "symbol-rebuild", w);
   auto d = lib::dec(A().type("symbol"), ref::le(v, 8));
   t.ok(d.ok && d.v == "\"" + w + "\"", "symbol-print", w + " " + d.v);
   auto e = lib::enc(A().type("symbol"), d.v);
   t.ok(e.ok && e.v == ref::le(v, 8), "symbol-back", w + " " + e.err);
   d = lib::dec(A().type("symbol_code"), ref::le(code_v(c), 8));
   t.ok(d.ok && d.v == "\"" + c + "\"", "code-print", w + " " + d.v);
   e = lib::enc(A().type("symbol_code"), d.v);
   t.ok(e.ok && e.v == ref::le(code_v(c), 8), "code-back", w + " " + e.err);
}

static void run(T& t) {
   bool   deep = t.thorough();
   string al   = "019-. ,AZa";
   int    L    = deep ? 7 : 6;
   // all texts over an alphabet
   for (char a : al)
      for (char b : al) {
         if (!t.next())
            continue;
         t.desc(string("texts ") + a + b);
         asset_text_case(t, string(1, a));
         sym_text_case(t, string(1, a));
         std::function<void(string)> go = [&](string s) {
            bool cap = s.find('A') != string::npos || s.find('Z') != string::npos;
            if (s.size() <= 5 || cap)
               asset_text_case(t, s, s.size() <= 5);
            if (s.size() <= 5 || (cap && s.find(',') != string::npos))
               sym_text_case(t, s);
            if ((int)s.size() < L)
               for (char c : al) go(s + c);
         };
         go(string{ a, b });
      }
   // codes of every length with any byte at any position
   for (int len = 0; len <= 10; ++len)
      for (int p = 0; p < std::max(1, len); ++p) {
         if (!t.next())
            continue;
         t.desc("code " + std::to_string(len) + " at " + std::to_string(p));
         for (int c = 0; c < 256; ++c) {
            string s(len, 'Q');
            if (len)
               s[p] = c;
            sym_text_case(t, s);
            sym_text_case(t, "4," + s);
            asset_text_case(t, "1.23 " + s);
            asset_text_case(t, "-0.1 " + s);
         }
      }
   // long codes, precisions and amounts: lengths that agree with a valid one modulo a power of two
   {
      std::vector<int> lens;
      for (int n = 8; n <= 1100; ++n) lens.push_back(n);
      for (int m = 2048; m <= 1 << 17; m *= 2)
         for (int d = -1; d <= 8; ++d) lens.push_back(m + d);
      for (size_t i = 0; i < lens.size(); i += 20) {
         if (!t.next())
            continue;
         t.desc("long " + std::to_string(lens[i]));
         for (size_t k = i; k < std::min(lens.size(), i + 20); ++k) {
            int n = lens[k];
            for (string head : { "", "SYS", "ABCDEFG" }) {
               string s = head;
               s.resize(n, 'A');
               sym_text_case(t, s);
               sym_text_case(t, "4," + s);
               asset_text_case(t, "1.00 " + s);
               s = head;
               s.resize(n, ' ');
               sym_text_case(t, s + "X");
               sym_text_case(t, "4," + s);
               asset_text_case(t, "1.00 " + s);
            }
            for (char d : { '0', '1', '9' }) {
               sym_text_case(t, string(n, d) + ",SYS");
               sym_text_case(t, string(n, d) + "4,SYS");
               asset_text_case(t, string(n, d) + "1.0000 SYS");
               asset_text_case(t, "-" + string(n, d) + " SYS");
            }
         }
      }
   }
   // precisions
   for (int blk = 0; blk < 70; ++blk) {
      if (!t.next())
         continue;
      t.desc("precision " + std::to_string(blk));
      for (int p = blk * 1000; p < blk * 1000 + 1000; ++p) sym_text_case(t, std::to_string(p) + ",SYS");
      if (blk < 10)
         for (int p = 0; p < 600; ++p)
            for (string z : { "0", "00", "0000000000000" }) sym_text_case(t, z.substr(blk % z.size()) + std::to_string(p + blk * 25) + ",A");
   }
   if (t.next())
      for (int sh = 8; sh < 70; ++sh)
         for (int d = -3; d <= 300; ++d) sym_text_case(t, digits(((i128)1 << sh) + d) + ",SYS");
   // number of decimals
   for (int p = 0; p <= 300; ++p) {
      if (!t.next())
         continue;
      t.desc("decimals " + std::to_string(p));
      for (string lead : { "0", "", "-0", "00", "1", "92233720368547758" })
         for (string tail : { "", "1", "9223372036854775807", "9223372036854775808", "99" }) {
            if ((int)tail.size() > p)
               continue;
            asset_text_case(t, lead + "." + string(p - tail.size(), '0') + tail + " SYS");
         }
      for (int d : { 512, 1024, 65536 }) asset_text_case(t, "0." + string(p + d, '0') + " SYS");
   }
   // amounts around every power of two and ten and around multiples of 2^63 and 2^64, with every position of the point
   std::vector<i128> am;
   int               W = deep ? 40 : 6;
   for (int i = 0; i <= 70; ++i)
      for (int d = -W; d <= W; ++d) am.push_back(((i128)1 << i) + d);
   i128 ten = 1;
   for (int i = 0; i <= 24; ++i, ten *= 10)
      for (int d = -W; d <= W; ++d) am.push_back(ten + d), am.push_back(ten * 9 + d), am.push_back(ten * 5 + d);
   for (int m = 1; m <= 24; ++m)
      for (int d = -W; d <= W; ++d) am.push_back(((i128)m << 63) + d), am.push_back(((i128)m << 64) + d * 1000003);
   std::sort(am.begin(), am.end());
   am.erase(std::unique(am.begin(), am.end()), am.end());
   for (size_t blk = 0; blk < am.size(); blk += 8) {
      if (!t.next())
         continue;
      t.desc("amounts " + digits(am[blk] < 0 ? 0 : am[blk]));
      for (size_t i = blk; i < std::min(am.size(), blk + 8); ++i) {
         i128 m = am[i];
         if (m < 0)
            continue;
         string s = digits(m);
         for (string sg : { "", "-" }) {
            for (size_t p = 0; p < s.size() + 3; ++p) {
               string z = s;
               if (z.size() < p + 1)
                  z.insert(0, p + 1 - z.size(), '0');
               if (p)
                  z.insert(z.size() - p, ".");
               asset_text_case(t, sg + z + " SYS", p < 3);
               if (p == 4)
                  asset_text_case(t, sg + "000" + z + " ABCDEFG"), asset_text_case(t, sg + z + " ABCDEFGH"), asset_text_case(t, sg + z + "1 SYS"), asset_text_case(t, sg + z + " SYS "), asset_text_case(t, sg + z + "SYS"), asset_text_case(t, " " + sg + z + "  SYS");
            }
            i128 v = sg.empty() ? m : -m;
            if (v >= INT64_MIN && v <= INT64_MAX)
               for (int p = 0; p < 256; p += p < 24 || deep ? 1 : 21) value_case(t, (int64_t)v, p, p % 3 ? "SYS" : p % 2 ? "Z" : "ABCDEFG", p < 4);
         }
      }
   }
   // short amounts with every precision
   for (int p = 0; p < 256; ++p) {
      if (!t.next())
         continue;
      t.desc("values " + std::to_string(p));
      for (int a = -1200; a <= 1200; a += deep ? 1 : 7) value_case(t, a, p, "EOS", false);
      for (int len = 1; len <= 7; ++len)
         for (char c : { 'A', 'B', 'M', 'Y', 'Z' })
            for (int at = 0; at < len; ++at) {
               string s(len, 'Q');
               s[at] = c;
               value_case(t, 12345, p, s, false);
               value_case(t, INT64_MIN, p, s, false);
               sym_value(t, code_v(s) << 8 | p, s, p);
            }
   }
   // validity of raw codes: every mask of bytes, with letters or not
   for (int m = 0; m < 256; ++m) {
      if (!t.next())
         continue;
      t.desc("valid " + std::to_string(m));
      for (int x : std::initializer_list<int>{ 'A', 'Z', 0x40, 0x5b, 'a', 1, 0xff, 0xc1 })
         for (int at = -1; at < 8; ++at) {
            uint64_t v = 0;
            for (int i = 0; i < 8; ++i)
               if (m >> i & 1)
                  v |= (uint64_t)(i == at ? x : 'K') << 8 * i;
            string c;
            for (uint64_t y = v; y; y >>= 8) c += char(y & 255);
            bool want = code_ok(c);
            t.count("evaluations");
            t.ok(eosio::symbol_code(v).is_valid() == want, "code-valid", hexs(&v, 8));
            if (m < 128) {
               t.ok(eosio::symbol(v << 8 | 4).is_valid() == want, "symbol-valid-raw", hexs(&v, 8));
               auto r = lib::attempt([&] {
                  eosio::asset a(1, eosio::symbol(v << 8 | 4));
                  return string(a.is_valid() ? "v" : "n");
               });
               t.ok(r.ok == want && (!want || r.v == "v"), "asset-ctor", hexs(&v, 8) + r.err);
            }
            uint32_t n = 0;
            while (n < 8 && (v >> 8 * n & 255)) ++n;
            t.ok(eosio::symbol_code(v).length() == n, "code-length", hexs(&v, 8));
         }
   }
   t.sample(asset_text(-12345, code_v("SYS") << 8 | 4));
}
VH_MAIN(run)
