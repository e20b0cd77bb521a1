// C29: byte-array arithmetic used without native 128-bit integers, against reference arithmetic.
#include "vh.hpp"
#include "lib.hpp"
#include <array>
#include <eosio/abieos_numeric.hpp>
#include <functional>
#include <set>
using std::string;
typedef unsigned __int128 u128;

// decimal strings
static string sdec(u128 v) {
   string s;
   do s.insert(s.begin(), (char)('0' + (int)(v % 10)));
   while (v /= 10);
   return s;
}
static string add_small(string s, int d) { // s + d, d in -9..9, result not negative
   int i = (int)s.size() - 1, c = d;
   for (; c; --i) {
      if (i < 0) {
         s.insert(s.begin(), '0');
         i = 0;
      }
      int x = s[i] - '0' + c;
      c     = x < 0 ? -1 : x / 10;
      s[i]  = (char)('0' + (x + 10) % 10);
   }
   size_t z = s.find_first_not_of('0');
   return z == string::npos ? "0" : s.substr(z);
}
static string twice(const string& s, int plus = 0) {
   string r;
   int    c = plus;
   for (int i = (int)s.size() - 1; i >= 0; --i) {
      int x = (s[i] - '0') * 2 + c;
      r.insert(r.begin(), (char)('0' + x % 10));
      c = x / 10;
   }
   if (c)
      r.insert(r.begin(), (char)('0' + c));
   size_t z = r.find_first_not_of('0');
   return z == string::npos ? "0" : r.substr(z);
}
static int cmp(const string& a, const string& b) { return a.size() != b.size() ? (a.size() < b.size() ? -1 : 1) : a.compare(b); }
template <size_t N>
string big_dec(const std::array<uint8_t, N>& a) { // most significant bit first
   string s = "0";
   for (int i = (int)N * 8 - 1; i >= 0; --i) s = twice(s, a[i / 8] >> (i % 8) & 1);
   return s;
}
template <size_t N>
string max_dec() {
   std::array<uint8_t, N> a;
   a.fill(0xff);
   return big_dec(a);
}
template <size_t N>
std::array<uint8_t, N> arr(u128 v) {
   std::array<uint8_t, N> a;
   for (size_t i = 0; i < N; ++i) a[i] = i < 16 ? (uint8_t)(v >> (8 * i)) : 0;
   return a;
}
template <size_t N>
void text_case(vh::T& t, const string& s) {
   bool digits = !s.empty();
   for (char c : s) digits &= c >= '0' && c <= '9';
   size_t z    = s.find_first_not_of('0');
   string core = digits ? (z == string::npos ? "0" : s.substr(z)) : "";
   static const string mx = max_dec<N>();
   bool                ok = digits && cmp(core, mx) <= 0;
   t.count("evaluations");
   t.distinct("nontrivial", vh::fnv(s, N));
   std::array<uint8_t, N> a;
   a.fill(0xa5);
   std::unique_ptr<char[]> p(new char[s.size()]);
   memcpy(p.get(), s.data(), s.size());
   auto   r = lib::attempt([&] {
      abieos::decimal_to_binary(a, std::string_view(p.get(), s.size()));
      return string();
   });
   string k = "text:" + std::to_string(N * 8) + ":" + s;
   t.ok(r.ok == ok, k, "'" + s + "' as " + std::to_string(N * 8) + " bits is " + (r.ok ? "accepted" : "refused"));
   if (ok && r.ok) {
      t.ok(big_dec(a) == core, k, "'" + s + "' as " + std::to_string(N * 8) + " bits reads as " + big_dec(a));
      string d = abieos::binary_to_decimal(a);
      t.ok(d == core, k, "'" + s + "' as " + std::to_string(N * 8) + " bits prints as " + d);
   }
}
template <size_t N>
void value_case(vh::T& t, const std::array<uint8_t, N>& a) {
   t.count("evaluations");
   t.distinct("nontrivial", vh::fnv(string(a.begin(), a.end()), N + 100));
   string k = "value:" + vh::hexs(string(a.begin(), a.end()));
   string d = abieos::binary_to_decimal(a);
   t.ok(d == big_dec(a), k, vh::hexs(string(a.begin(), a.end())) + " prints as " + d);
   std::array<uint8_t, N> b;
   b.fill(0x5a);
   auto r = lib::attempt([&] {
      abieos::decimal_to_binary(b, d);
      return string();
   });
   t.ok(r.ok && b == a, k, d + " reads back as " + vh::hexs(string(b.begin(), b.end())) + r.err);
   t.ok(abieos::is_negative(a) == (a[N - 1] >= 128), k, "sign of " + vh::hexs(string(a.begin(), a.end())));
   // negation: the sum with the original is zero
   b = a;
   abieos::negate(b);
   int  c  = 0;
   bool z = true;
   for (size_t i = 0; i < N; ++i) {
      int x = a[i] + b[i] + c;
      c     = x >> 8;
      z &= (x & 255) == 0;
   }
   t.ok(z, k, "negation of " + vh::hexs(string(a.begin(), a.end())) + " gives " + vh::hexs(string(b.begin(), b.end())));
   abieos::negate(b);
   t.ok(b == a, k, "double negation of " + vh::hexs(string(a.begin(), a.end())));
}
template <size_t N>
void width(vh::T& t) {
   string w = std::to_string(N * 8);
   if constexpr (N == 1)
      for (int i = 0; i < 256; ++i) {
         if (t.next())
            value_case<1>(t, arr<1>(i));
      }
   if constexpr (N == 2)
      for (int i = 0; i < 256; ++i)
         if (t.next())
            for (int j = 0; j < 256; ++j) value_case<2>(t, arr<2>(i * 256 + j));
   if constexpr (N <= 2)
      for (int i = 0; i < 100; ++i)
         if (t.next())
            for (int j = 0; j < 1000; ++j) text_case<N>(t, std::to_string(i * 1000 + j));
   // byte patterns: every byte at every position over four backgrounds, and pairs of bytes
   for (int bg : { 0, 0xff, 0x80, 0x7f, 0x55 })
      for (size_t i = 0; i < N; ++i)
         if (t.next()) {
            t.desc("width " + w);
            for (int c = 0; c < 256; ++c) {
               std::array<uint8_t, N> a;
               a.fill(bg);
               a[i] = c;
               value_case<N>(t, a);
               if (N > 2 && c % (t.thorough() ? 4 : 16) == 0)
                  for (size_t j = i + 1; j < N; ++j)
                     for (int d : { 0, 1, 0x7f, 0x80, 0xff }) {
                        auto b = a;
                        b[j]   = d;
                        value_case<N>(t, b);
                     }
            }
         }
   // around every power of two and ten
   std::vector<string> centres;
   string              p = "1";
   for (size_t i = 0; i <= N * 8 + 2; ++i) {
      centres.push_back(p);
      p = twice(p);
   }
   p = "1";
   while (p.size() <= max_dec<N>().size() + 2) {
      centres.push_back(p);
      p += "0";
   }
   // multiples of the full range: wrap-around candidates
   string m = "1";
   for (size_t i = 0; i < N * 8; ++i) m = twice(m);
   for (int k = 0; k < 12; ++k) {
      centres.push_back(m);
      m = k % 2 ? twice(m) : m + "0";
   }
   // each digit of the limit changed
   string mx = max_dec<N>();
   for (size_t i = 0; i < mx.size(); ++i)
      for (char c = '0'; c <= '9'; ++c) {
         string e = mx;
         e[i]     = c;
         centres.push_back(e);
      }
   for (auto& c : centres)
      if (t.next()) {
         t.desc("width " + w + " around " + c);
         string lo = c;
         for (int k = 0; k < 3 && cmp(lo, "10") > 0; ++k) lo = add_small(lo, -9);
         for (int k = 0; k < 56; ++k) {
            text_case<N>(t, lo);
            if (k % 8 == 0) {
               text_case<N>(t, "0" + lo);
               text_case<N>(t, string(60, '0') + lo);
               for (const char* bad : { "-", "+", " ", ".", "a", "\xff" }) {
                  text_case<N>(t, bad + lo);
                  text_case<N>(t, lo + bad);
                  text_case<N>(t, lo.substr(0, lo.size() / 2) + bad + lo.substr(lo.size() / 2));
               }
               text_case<N>(t, lo + string(1, '\0'));
            }
            lo = add_small(lo, 1);
         }
      }
   // short texts
   const string al("0129-+ .a\0/:\xb0", 13);
   size_t       L = t.thorough() ? 5 : 4;
   for (size_t n = 0; n <= L; ++n)
      if (t.next()) {
         t.desc("width " + w + " texts of length " + std::to_string(n));
         std::vector<size_t> ix(n, 0);
         for (;;) {
            string s;
            for (auto i : ix) s += al[i];
            text_case<N>(t, s);
            size_t i = 0;
            while (i < n && ++ix[i] == al.size()) ix[i++] = 0;
            if (i == n)
               break;
         }
      }
}

// ---- the replacement of the 128-bit types --------------------------------------------------------------------------------------------
#if MODE == 1
#ifndef ABIEOS_NO_INT128
#error
#endif
static lib::Abi A;
static void     int_text(vh::T& t, const string& s, bool sgn) {
   bool   neg = sgn && !s.empty() && s[0] == '-';
   string b   = neg ? s.substr(1) : s;
   bool   ok  = !b.empty();
   for (char c : b) ok &= c >= '0' && c <= '9';
   size_t z    = b.find_first_not_of('0');
   string core = z == string::npos ? "0" : b.substr(z);
   string lim  = !sgn ? sdec(~(u128)0) : sdec((((u128)1) << 127) - (neg ? 0 : 1));
   ok          = ok && cmp(core, lim) <= 0;
   u128 v      = 0;
   if (ok)
      for (char c : core) v = v * 10 + (c - '0');
   if (neg)
      v = -v;
   string bin;
   for (int i = 0; i < 16; ++i) bin += (char)(v >> (8 * i));
   string out = ok ? lib::q((neg && v ? "-" : "") + core) : "";
   t.count("evaluations");
   t.distinct("nontrivial", vh::fnv(s, 7 + sgn));
   const char* name = sgn ? "int128" : "uint128";
   string      k = string(name) + ":" + s;
   for (char c : s)
      if ((unsigned char)c < 32 || c == '"' || c == '\\' || (unsigned char)c >= 127)
         return;
   string txt = lib::q(s);
   auto   chk = [&](const char* how, const lib::Res& r) {
      t.ok(r.ok == ok && (!ok || r.v == bin), k, string(how) + " " + txt + " as " + name + (r.ok ? " gives " + vh::hexs(r.v) : " refused: " + r.err));
   };
   chk("native", sgn ? lib::njson<abieos::int128>(txt) : lib::njson<abieos::uint128>(txt));
   chk("ABI", lib::enc(A.type(name), txt));
   chk("ABI (reorderable)", lib::encr(A.type(name), txt));
   if (ok) {
      auto d = lib::dec(A.type(name), bin);
      t.ok(d.ok && d.v == out, k, vh::hexs(bin) + " as " + name + " prints " + d.v + d.err);
      auto n = lib::attempt([&] {
         std::vector<char> x(bin.begin(), bin.end());
         return sgn ? eosio::convert_to_json(eosio::convert_from_bin<abieos::int128>(x)) : eosio::convert_to_json(eosio::convert_from_bin<abieos::uint128>(x));
      });
      t.ok(n.ok && n.v == out, k, vh::hexs(bin) + " natively prints " + n.v + n.err);
      for (size_t i = 0; i < 16; ++i) t.ok(!lib::dec(A.type(name), bin.substr(0, i)).ok, k + " short", "truncated " + string(name) + " accepted");
   }
}
static void run(vh::T& t) {
   A.load(lib::empty_abi);
   std::vector<string> centres;
   string              p = "1";
   for (int i = 0; i <= 131; ++i) {
      centres.push_back(p);
      p = twice(p);
   }
   p = "1";
   for (int i = 0; i < 42; ++i) {
      centres.push_back(p);
      p += "0";
   }
   for (const string& mx : { sdec(~(u128)0), sdec((u128)1 << 127) })
      for (size_t i = 0; i < mx.size(); ++i)
         for (char c = '0'; c <= '9'; ++c) {
            string e = mx;
            e[i]     = c;
            centres.push_back(e);
         }
   for (auto& c : centres)
      if (t.next()) {
         t.desc("around " + c);
         string lo = c;
         for (int k = 0; k < 3 && cmp(lo, "10") > 0; ++k) lo = add_small(lo, -9);
         for (int k = 0; k < 56; ++k) {
            for (bool sgn : { false, true })
               for (const char* pre : { "", "-", "0", "-0", "+", "--" }) int_text(t, pre + lo, sgn);
            lo = add_small(lo, 1);
         }
      }
   const string al("0189-+ .a/:", 11);
   for (size_t n = 0; n <= (t.thorough() ? 5 : 4); ++n)
      if (t.next()) {
         t.desc("texts of length " + std::to_string(n));
         std::vector<size_t> ix(n, 0);
         for (;;) {
            string s;
            for (auto i : ix) s += al[i];
            int_text(t, s, false);
            int_text(t, s, true);
            size_t i = 0;
            while (i < n && ++ix[i] == al.size()) ix[i++] = 0;
            if (i == n)
               break;
         }
      }
}
#else
static void run(vh::T& t) {
   width<1>(t);
   width<2>(t);
   width<3>(t);
   width<4>(t);
   width<8>(t);
   width<16>(t);
   width<32>(t);
}
#endif
VH_MAIN(run)
