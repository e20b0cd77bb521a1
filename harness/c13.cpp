// C13: integers.  Reference: decimal text -> 128-bit magnitude with explicit overflow, written from scratch.
#include "vh.hpp"
#include "lib.hpp"
using namespace lib;
typedef unsigned __int128 u128;

struct Ty {
   const char* name;
   int         bits;
   bool        sgn;
};
static const Ty types[] = { { "int8", 8, true },     { "uint8", 8, false },   { "int16", 16, true },   { "uint16", 16, false },
                            { "int32", 32, true },   { "uint32", 32, false }, { "int64", 64, true },   { "uint64", 64, false },
                            { "int128", 128, true }, { "uint128", 128, false }, { "varuint32", 32, false }, { "varint32", 32, true } };

static u128 maxmag(const Ty& t, bool neg) {
   if (t.sgn)
      return neg ? (u128)1 << (t.bits - 1) : ((u128)1 << (t.bits - 1)) - 1;
   if (neg)
      return 0;
   return t.bits == 128 ? ~(u128)0 : ((u128)1 << t.bits) - 1;
}
static std::string dec_of(u128 v) {
   std::string s;
   do {
      s += char('0' + (int)(v % 10));
      v /= 10;
   } while (v);
   std::reverse(s.begin(), s.end());
   return s;
}
// 1 = must accept (value in out), 0 = must refuse, -1 = not specified
static int ref_parse(const Ty& t, std::string_view s, u128& out) {
   bool neg = false;
   if (!s.empty() && s[0] == '-') {
      neg = true;
      s.remove_prefix(1);
   }
   if (s.empty())
      return 0;
   for (char c : s)
      if (c < '0' || c > '9')
         return 0;
   while (s.size() > 1 && s[0] == '0') s.remove_prefix(1);
   u128 lim = maxmag(t, neg);
   u128 m   = 0;
   if (s.size() > 39)
      return 0;
   for (char c : s) {
      int d = c - '0';
      if (m > (~(u128)0 - d) / 10)
         return 0;
      m = m * 10 + d;
   }
   if (neg && !t.sgn)
      return m == 0 ? -1 : 0; // "-0" for an unsigned type
   if (m > lim)
      return 0;
   out = neg ? -m : m;
   return 1;
}
static std::string le(const Ty& t, u128 v) {
   std::string r;
   if (!strcmp(t.name, "varuint32") || !strcmp(t.name, "varint32")) {
      uint32_t x = (uint32_t)v;
      if (t.sgn)
         x = (int32_t)x < 0 ? 2 * (uint32_t)(-(int64_t)(int32_t)x) - 1 : 2 * x;
      do {
         r += char((x & 127) | (x > 127 ? 128 : 0));
         x >>= 7;
      } while (x);
      return r;
   }
   for (int i = 0; i < t.bits / 8; ++i) r += char((unsigned char)(v >> (8 * i)));
   return r;
}
static std::string canon(const Ty& t, u128 v) {
   bool        neg = t.sgn && (v >> (t.bits == 128 ? 127 : 127)) != 0;
   std::string s   = neg ? "-" + dec_of(-v) : dec_of(v);
   return t.bits > 32 ? q(s) : s;
}

static Abi abi;

// checks one text given to one type in all modes
static void check_text(vh::T& t, const Ty& ty, const eosio::abi_type* at, std::string_view s, bool raw_ok) {
   u128 v    = 0;
   int  want = ref_parse(ty, s, v);
   if (want < 0)
      return;
   t.count("evaluations");
   std::string bytes = want ? le(ty, v) : "";
   for (int raw = 0; raw < (raw_ok ? 2 : 1); ++raw) {
      std::string js = raw ? std::string(s) : q(s);
      Res         a = enc(at, js), b = encr(at, js);
      if (a.ok != (want == 1) || (want && a.v != bytes))
         t.fail(std::string("enc:") + ty.name + ":" + js, "in-order: expected " + (want ? vh::hexs(bytes) : "refusal") + " got " + (a.ok ? vh::hexs(a.v) : a.err));
      if (b.ok != (want == 1) || (want && b.v != bytes))
         t.fail(std::string("encr:") + ty.name + ":" + js, "reorderable: expected " + (want ? vh::hexs(bytes) : "refusal") + " got " + (b.ok ? vh::hexs(b.v) : b.err));
      if (!a.ok && a.err.empty())
         t.fail("emptyerr", js);
   }
   t.distinct("nontrivial", vh::fnv(std::string(ty.name) + (want ? "+" : "-") + bytes, want ? 1 : vh::fnv(s)));
   if (want) {
      Res d = dec(at, bytes);
      auto c = canon(ty, v);
      if (!d.ok || d.v != c)
         t.fail(std::string("dec:") + ty.name + ":" + vh::hexs(bytes), "expected " + c + " got " + (d.ok ? d.v : d.err));
      Res r = enc(at, c);
      if (!r.ok || r.v != bytes)
         t.fail(std::string("rt:") + ty.name + ":" + c, "canonical text does not convert back");
   }
}
template <typename N>
static void native(vh::T& t, const Ty& ty, const char* s) {
   u128 v    = 0;
   int  want = ref_parse(ty, s, v);
   if (want < 0)
      return;
   Res r = njson<N>(q(s));
   if (r.ok != (want == 1) || (want && r.v != le(ty, v)))
      t.fail(std::string("native:") + ty.name + ":" + s, r.ok ? vh::hexs(r.v) : r.err);
}
static bool json_number(std::string_view s) {
   if (!s.empty() && s[0] == '-')
      s.remove_prefix(1);
   if (s.empty() || (s[0] == '0' && s.size() > 1))
      return false;
   for (char c : s)
      if (c < '0' || c > '9')
         return false;
   return true;
}

static void run(vh::T& t) {
   abi.load(empty_abi);
   // A. all texts over an alphabet up to a length
   const std::string al     = "0129-+. e";
   int               maxlen = t.thorough() ? 6 : 5;
   for (auto& ty : types) {
      auto at = abi.type(ty.name);
      for (int len = 0; len <= maxlen; ++len) {
         uint64_t n = 1;
         for (int i = 0; i < len; ++i) n *= al.size();
         uint64_t block = 4096;
         for (uint64_t b0 = 0; b0 < n; b0 += block) {
            if (!t.next())
               continue;
            for (uint64_t k = b0; k < std::min(n, b0 + block); ++k) {
               std::string s;
               uint64_t    x = k;
               for (int i = 0; i < len; ++i) {
                  s += al[x % al.size()];
                  x /= al.size();
               }
               check_text(t, ty, at, s, json_number(s));
            }
         }
      }
   }
   // B. every value of the small types and every short number around them
   for (auto& ty : types) {
      if (ty.bits > 16)
         continue;
      auto at = abi.type(ty.name);
      int  R  = ty.bits == 8 ? 3000 : 200000;
      for (int b0 = -R; b0 <= R; b0 += 5000) {
         if (!t.next())
            continue;
         for (int k = b0; k < std::min(R + 1, b0 + 5000); ++k) check_text(t, ty, at, std::to_string(k), true);
      }
   }
   // C. neighbourhoods of every boundary: powers of two and ten, multiples of the modulus, limits with digits
   // appended/replaced, leading zeros
   for (auto& ty : types) {
      auto at = abi.type(ty.name);
      std::vector<u128> centers;
      for (int i = 0; i < 128; ++i) centers.push_back((u128)1 << i);
      u128 p = 1;
      for (int i = 0; i < 39; ++i) {
         centers.push_back(p);
         p *= 10;
      }
      centers.push_back(~(u128)0);
      for (int m = 2; m < 40; ++m)
         if (ty.bits < 122)
            centers.push_back(((u128)1 << ty.bits) * m);
      for (auto c : centers) {
         if (!t.next())
            continue;
         int W = t.thorough() ? 300 : 40;
         for (int d = -W; d <= W; ++d) {
            if (d < 0 && c < (u128)-d)
               continue;
            if (d > 0 && c + d < c)
               continue;
            u128        v = c + d;
            std::string s = dec_of(v);
            check_text(t, ty, at, s, true);
            check_text(t, ty, at, "-" + s, true);
            check_text(t, ty, at, "000" + s, false);
         }
      }
      // digit strings: limit with a digit appended, replaced at each position, and repeated digits of every length
      for (int neg = 0; neg < 2; ++neg) {
         if (!t.next())
            continue;
         std::string m = dec_of(maxmag(ty, neg && ty.sgn)), sg = neg ? "-" : "";
         for (size_t i = 0; i <= m.size(); ++i)
            for (char d = '0'; d <= '9'; ++d) {
               std::string s = m;
               s.insert(i, 1, d);
               check_text(t, ty, at, sg + s, json_number(sg + s));
               if (i < m.size()) {
                  s    = m;
                  s[i] = d;
                  check_text(t, ty, at, sg + s, json_number(sg + s));
                  s[i] = ' ';
                  check_text(t, ty, at, sg + s, false);
                  s[i] = '/';
                  check_text(t, ty, at, sg + s, false);
                  s[i] = ':';
                  check_text(t, ty, at, sg + s, false);
               }
            }
         for (int len = 1; len <= 60; ++len)
            for (char d = '0'; d <= '9'; ++d)
               for (char e = '0'; e <= '9'; ++e) {
                  std::string s(len, d);
                  s.back() = e;
                  check_text(t, ty, at, sg + s, json_number(sg + s));
               }
      }
   }
   // D. binary -> text -> binary for every bit pattern with at most two runs of ones, and single bytes
   for (auto& ty : types) {
      if (ty.name[0] == 'v')
         continue;
      auto at = abi.type(ty.name);
      if (!t.next())
         continue;
      int n = ty.bits;
      for (int i = 0; i <= n; ++i)
         for (int j = i; j <= n; ++j) {
            u128 v = 0;
            for (int k = i; k < j; ++k) v |= (u128)1 << k;
            for (int inv = 0; inv < 2; ++inv) {
               u128 w = inv ? ~v : v;
               if (n < 128)
                  w &= ((u128)1 << n) - 1;
               if (ty.sgn && n < 128 && (w >> (n - 1)))
                  w |= ~(u128)0 << n;
               t.count("evaluations");
               std::string bytes = le(ty, w);
               Res         d     = dec(at, bytes);
               if (!d.ok || d.v != canon(ty, w))
                  t.fail(std::string("bits:") + ty.name + ":" + vh::hexs(bytes), "expected " + canon(ty, w) + " got " + (d.ok ? d.v : d.err));
               Res e = encr(at, canon(ty, w));
               if (!e.ok || e.v != bytes)
                  t.fail(std::string("bitsrt:") + ty.name + ":" + vh::hexs(bytes), e.ok ? vh::hexs(e.v) : e.err);
            }
         }
   }
   // E. other JSON values for integer types, and booleans
   {
      const char* other[] = { "true", "false", "null", "[]", "{}", "[1]", "{\"a\":1}", "1.0", "1e1", "0.5", "1E2", "-1.5", "\"1\\u0030\"", "\"\\u0031\"", "\"1\\n\"", "\" 1\"", "\"1 \"", "\"+1\"", "\"0x1\"", "\"1,0\"", "\"\"", "\"--1\"", "\"1-\"", "\"\\u00001\"", "\"1\\u0000\"" };
      int         want[]  = { 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 10, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0 };
      for (auto& ty : types) {
         if (!t.next())
            continue;
         auto at = abi.type(ty.name);
         for (size_t i = 0; i < sizeof(other) / sizeof(*other); ++i) {
            t.count("evaluations");
            Res a = enc(at, other[i]), b = encr(at, other[i]);
            bool w = want[i] != 0;
            if (a.ok != w || b.ok != w || (w && (a.v != le(ty, want[i]) || b.v != a.v)))
               t.fail(std::string("other:") + ty.name + ":" + other[i], "in-order " + std::string(a.ok ? "accepted" : "refused") + ", reorderable " + (b.ok ? "accepted" : "refused"));
         }
      }
      if (t.next()) {
         auto        bt   = abi.type("bool");
         const char* bs[] = { "true", "false", "0", "1", "null", "\"true\"", "\"false\"", "[]", "{}", "2", "\"\"", "True", "tru", "truee" };
         for (size_t i = 0; i < sizeof(bs) / sizeof(*bs); ++i) {
            t.count("evaluations");
            Res a = enc(bt, bs[i]), b = encr(bt, bs[i]);
            bool w = i < 2;
            if (a.ok != w || b.ok != w || (w && (a.v != std::string(1, i == 0 ? 1 : 0) || b.v != a.v)))
               t.fail(std::string("bool:") + bs[i], "wrong decision or bytes");
         }
         Res d0 = dec(bt, std::string(1, 0)), d1 = dec(bt, std::string(1, 1));
         if (!d0.ok || d0.v != "false" || !d1.ok || d1.v != "true")
            t.fail("booldec", d0.v + d1.v);
      }
   }
   // F. native interface on the limits
   if (t.next()) {
      for (auto& ty : types)
         for (int k = -3; k <= 3; ++k)
            for (int neg = 0; neg < 2; ++neg) {
               u128 m = maxmag(ty, neg && ty.sgn) + k;
               if (k < 0 && maxmag(ty, neg && ty.sgn) < (u128)-k)
                  continue;
               std::string s = (neg ? "-" : "") + dec_of(m);
               t.count("evaluations");
               auto c = s.c_str();
               if (!strcmp(ty.name, "int8")) native<int8_t>(t, ty, c);
               if (!strcmp(ty.name, "uint8")) native<uint8_t>(t, ty, c);
               if (!strcmp(ty.name, "int16")) native<int16_t>(t, ty, c);
               if (!strcmp(ty.name, "uint16")) native<uint16_t>(t, ty, c);
               if (!strcmp(ty.name, "int32")) native<int32_t>(t, ty, c);
               if (!strcmp(ty.name, "uint32")) native<uint32_t>(t, ty, c);
               if (!strcmp(ty.name, "int64")) native<int64_t>(t, ty, c);
               if (!strcmp(ty.name, "uint64")) native<uint64_t>(t, ty, c);
               if (!strcmp(ty.name, "int128")) native<__int128>(t, ty, c);
               if (!strcmp(ty.name, "uint128")) native<unsigned __int128>(t, ty, c);
               if (!strcmp(ty.name, "varuint32")) native<eosio::varuint32>(t, ty, c);
               if (!strcmp(ty.name, "varint32")) native<eosio::varint32>(t, ty, c);
            }
   }
   t.sample("int128 \"-170141183460469231731687303715884105728\"");
   t.sample("uint64 \"18446744073709551616\" (refused)");
}
VH_MAIN(run)
