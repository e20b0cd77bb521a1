// C17: names.
#include "lib.hpp"
#include "ref.hpp"
#include "vh.hpp"
#include "eosio/abieos.h"
using namespace vh;
using std::string;

static int val(unsigned char c) { return c == '.' ? 0 : c >= '1' && c <= '5' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 6 : -1; }
static bool valid(const string& s) {
   if (s.size() > 13)
      return false;
   for (size_t i = 0; i < s.size(); ++i)
      if (val(s[i]) < 0 || (i == 12 && val(s[i]) > 15))
         return false;
   return true;
}
// Packed value of the first 13 characters; characters outside the alphabet count as '.', the 13th keeps four bits.
static uint64_t pack(const string& s) {
   unsigned __int128 v = 0;
   for (int i = 0; i < 13; ++i) {
      int d = i < (int)s.size() ? std::max(0, val(s[i])) : 0;
      v     = i < 12 ? v * 32 + d : v * 16 + (d & 15);
   }
   return (uint64_t)v;
}
static string text(uint64_t v) {
   static const char* al = ".12345abcdefghijklmnopqrstuvwxyz";
   int                d[13];
   d[12] = v % 16;
   v /= 16;
   for (int i = 11; i >= 0; --i) d[i] = v % 32, v /= 32;
   string s;
   for (int x : d) s += al[x];
   while (!s.empty() && s.back() == '.') s.pop_back();
   return s;
}
// Established 64-bit hash for texts that are not names (reproduces the recorded values, including its treatment of
// full blocks: the first byte is shifted out, and a byte of 128 or more sets every higher bit).
static uint64_t hash(const string& s) {
   const uint64_t mul = 0xc6a4a7935bd1e995ull;
   auto           mixs = [](uint64_t v) { return v ^ (v >> 47); };
   uint64_t       h   = 0xbadd00d00ull ^ (s.size() * mul);
   size_t         i   = 0;
   for (; i + 8 <= s.size(); i += 8) {
      uint64_t r = 0;
      for (int k = 0; k < 8; ++k) {
         r |= (uint64_t)(int64_t)(signed char)s[i + k];
         r <<= 8;
      }
      h = (h ^ mixs(r * mul) * mul) * mul;
   }
   if (i < s.size()) {
      uint64_t r = 0;
      for (size_t k = s.size(); k-- > i;) r = r << 8 | (unsigned char)s[k];
      h = (h ^ r) * mul;
   }
   return mixs(mixs(h) * mul);
}
static const eosio::abi_type* nt() {
   static lib::Abi a;
   static bool     once = a.load(lib::empty_abi);
   return a.type("name");
}
static string h16(uint64_t v) {
   char b[24];
   snprintf(b, sizeof b, "%016" PRIx64, v);
   return b;
}
static abieos_context* ac() {
   static abieos_context* c = abieos_create();
   return c;
}

static void text_case(T& t, const string& s) {
   t.count("evaluations");
   bool     ok = valid(s);
   uint64_t w  = pack(s);
   t.distinct("nontrivial", fnv(s, ok));
   auto id = [&] { return "'" + esc(s) + "'"; };
   auto r  = eosio::try_string_to_name_strict(s);
   t.ok(bool(r) == ok, ok ? "strict-refused" : "strict-accepted", id());
   if (ok && r)
      t.ok(r.value() == w, "strict-value", id() + " gives " + h16(r.value()) + " wanted " + h16(w));
   auto f = lib::attempt([&] { return h16(eosio::name(std::string_view(s)).value); });
   t.ok(f.ok == ok && (!ok || f.v == h16(w)), "name-ctor", id() + " " + f.v + f.err);
   auto f2 = lib::attempt([&] { return h16(eosio::string_to_name_strict(s)); });
   t.ok(f2.ok == ok && (!ok || f2.v == h16(w)), "strict-fn", id() + " " + f2.v + f2.err);
   // lenient
   t.ok(eosio::string_to_name(s) == w, "lenient", id() + " gives " + h16(eosio::string_to_name(s)) + " wanted " + h16(w));
   t.ok(eosio::string_to_name(std::string_view(s)) == w, "lenient-sv", id());
   t.ok(eosio::string_to_name(s.data(), s.size()) == w, "lenient-ptr", id());
   if (s.find('\0') == string::npos) {
      t.ok(eosio::string_to_name(s.c_str()) == w, "lenient-cstr", id());
      t.ok(abieos_string_to_name(ac(), s.c_str()) == w, "capi", id());
   }
   uint64_t hw = ok ? w : hash(s);
   t.ok(eosio::hash_name(s) == hw, "hash_name", id() + " gives " + h16(eosio::hash_name(s)) + " wanted " + h16(hw));
   if (!ok) {
      // depends on nothing beyond its bytes
      string padded = "zz" + s + "yy";
      t.ok(eosio::hash_name(std::string_view(padded).substr(2, s.size())) == hw, "hash-surroundings", id());
   }
   if (s.find('\0') == string::npos) {
      bool good = true;
      for (size_t i = 0; i < s.size() && good;) {
         int n = ref::utf8_len((const unsigned char*)s.data() + i, s.size() - i);
         good  = n && (unsigned char)s[i] >= 0x20;
         i += n;
      }
      if (good) {
         string q = ref::quote(s);
         auto   e = lib::enc(nt(), q);
         t.ok(e.ok && e.v == ref::le(hw, 8), "json", id() + " " + hexs(e.v) + e.err);
         e = lib::encr(nt(), q);
         t.ok(e.ok && e.v == ref::le(hw, 8), "json-reorder", id() + " " + hexs(e.v) + e.err);
         e = lib::njson<eosio::name>(q);
         t.ok(e.ok && e.v == ref::le(hw, 8), "json-native", id() + " " + hexs(e.v) + e.err);
      }
   }
   if (ok) {
      string u = s;
      while (!u.empty() && u.back() == '.') u.pop_back();
      t.ok(eosio::name_to_string(w) == u, "text-back", id() + " prints as " + eosio::name_to_string(w));
   }
}
static void value_case(T& t, uint64_t v) {
   t.count("evaluations");
   t.distinct("nontrivial", mix(v, 77));
   string u = text(v);
   auto   id = [&] { return h16(v) + " '" + u + "'"; };
   eosio::name n(v);
   string      p = eosio::name_to_string(v);
   t.ok(p == u, "print", id() + " prints as '" + p + "'");
   t.ok(n.to_string() == u && std::string(n) == u, "to_string", id());
   const char* c = abieos_name_to_string(ac(), v);
   t.ok(c && u == c, "capi-print", id());
   auto r = eosio::try_string_to_name_strict(u);
   t.ok(bool(r) && r.value() == v, "print-back", id());
   t.ok(eosio::string_to_name(u) == v, "print-back-lenient", id());
   auto j = lib::attempt([&] { return eosio::convert_to_json(n); });
   t.ok(j.ok && j.v == "\"" + u + "\"", "json-print", id() + j.v);
   auto d = lib::dec(nt(), ref::le(v, 8));
   t.ok(d.ok && d.v == j.v, "abi-print", id() + d.v + d.err);
   t.ok(n.length() == u.size(), "length", id() + " " + std::to_string(n.length()));
   t.ok(bool(n) == (v != 0), "bool", id());
   auto dot = u.rfind('.');
   string suf = dot == string::npos ? u : u.substr(dot + 1), pre = dot == string::npos ? u : u.substr(0, dot);
   t.ok(n.suffix().value == pack(suf), "suffix", id() + " gives '" + text(n.suffix().value) + "' wanted '" + suf + "'");
   t.ok(n.prefix().value == pack(pre), "prefix", id() + " gives '" + text(n.prefix().value) + "' wanted '" + pre + "'");
}
template <typename F>
static void order(T& t, std::vector<uint64_t> v, F key) {
   // the numeric order of names is the order of their texts ('.' lowest, digits next, then letters)
   std::sort(v.begin(), v.end());
   for (size_t i = 0; i < v.size(); ++i)
      for (size_t k = 0; k < v.size(); ++k) {
         t.count("pairs");
         eosio::name a(v[i]), b(v[k]);
         string      x = key(v[i]), y = key(v[k]);
         int         c = x < y ? -1 : x > y;
         bool        good = (a < b) == (c < 0) && (a > b) == (c > 0) && (a <= b) == (c <= 0) && (a >= b) == (c >= 0) && (a == b) == (c == 0) && (a != b) == (c != 0);
         t.ok(good, "order", h16(v[i]) + " " + x + " against " + h16(v[k]) + " " + y);
      }
}

struct Lit {
   uint64_t    v;
   const char* s;
};
#define L(x) { x##_n.value, x }
static void literals(T& t) {
   using namespace eosio;
   static const Lit lits[] = { L(""), L("."), L("a"), L("z"), L("1"), L("5"), L("ab"), L("a.b"), L("..a"), L("abc"), L("abcd"), L("abcde"), L("abcdef"), L("zzzzzz"), L("eosio"), L("eosio.token"),
      L("abcdefg"), L("abcdefgh"), L("hijklmnop"), L("qrstuvwxyz"), L("12345abcdef"), L("zzzzzzzzzzzz"), L("zzzzzzzzzzzzj"), L("zzzzzzzzzzzz."), L("zzzzzzzzzzzz1"), L("zzzzzzzzzzzza"), L("zzzzzzzzzzzz5"), L("............j"),
      L("............1"), L("............."), L("a..........."), L("a............"), L("a...........a"), L(".1.2.3.4.5.a"), L("111111111111a"), L("ghijklmnopqr"), L("stuvwxyz.123"), L("jjjjjjjjjjjjj"), L("abcdefghijkli"), L("kkkkkkkkkkkkh") };
   for (auto& x : lits) {
      t.count("evaluations");
      t.ok(x.v == pack(x.s), "literal", string(x.s) + " gives " + h16(x.v));
   }
}

static void run(T& t) {
   bool deep = t.thorough();
   if (t.next())
      literals(t);
   if (t.next())
      for (int c = 0; c < 256; ++c) {
         int got = -1;
         try {
            got = eosio::name::char_to_value(char(c));
         } catch (std::exception&) {}
         t.count("evaluations");
         t.ok(got == val(c), "char:" + std::to_string(c), "the value of character " + std::to_string(c) + " is " + std::to_string(got));
      }
   // texts: everything of up to two bytes; then alphabet sequences
   for (int a = -1; a < 256; ++a) {
      if (!t.next())
         continue;
      t.desc("bytes " + std::to_string(a));
      if (a < 0)
         text_case(t, "");
      else {
         text_case(t, string(1, a));
         for (int b = 0; b < 256; ++b) text_case(t, string{ char(a), char(b) });
      }
   }
   string al = ".12345abcdefghijklmnopqrstuvwxyz06A-_ ";
   for (char a : al)
      for (char b : al) {
         if (!t.next())
            continue;
         t.desc(string("texts ") + a + b);
         for (char c : al) {
            text_case(t, string{ a, b, c });
            if (deep || (a != b))
               for (char d : al)
                  if (deep || (d != c && (val(d) < 4 || val(d) > 29)))
                     text_case(t, string{ a, b, c, d });
         }
      }
   // every character at every position (one and two changes) of texts of every length
   std::vector<string> base = { "aaaaaaaaaaaaa", "zzzzzzzzzzzzj", ".............", "abcdefghijkli", "1.2.3.4.5.a.b", "eosio.token.a" };
   for (auto& b0 : base)
      for (int len = 0; len <= 15; ++len) {
         string b = b0;
         while ((int)b.size() < len) b += b0[b.size() - 13];
         b.resize(len);
         for (int p = 0; p < std::max(1, len); ++p) {
            if (!t.next())
               continue;
            t.desc("edit " + b + " at " + std::to_string(p));
            text_case(t, b);
            if (!len)
               continue;
            for (int c = 0; c < 256; ++c) {
               string s = b;
               s[p]     = c;
               text_case(t, s);
            }
            for (int q = p + 1; q < len; ++q)
               for (char c : al)
                  for (char d : al) {
                     if (!deep && val(c) >= 0 && val(d) >= 0 && (val(c) % 5 || val(d) % 5) && len < 11)
                        continue;
                     string s = b;
                     s[p] = c, s[q] = d;
                     text_case(t, s);
                  }
         }
      }
   // long texts: lengths that agree with a short one modulo a power of two must not be taken for it
   {
      std::vector<int> lens;
      for (int n = 14; n <= 1100; ++n) lens.push_back(n);
      for (int m = 2048; m <= 1 << 17; m *= 2)
         for (int d = -14; d <= 14; ++d) lens.push_back(m + d);
      for (size_t i = 0; i < lens.size(); i += 20) {
         if (!t.next())
            continue;
         t.desc("long " + std::to_string(lens[i]));
         for (size_t k = i; k < std::min(lens.size(), i + 20); ++k)
            for (string head : { "", "a", "eosio.token", "zzzzzzzzzzzzj" })
               for (char fill : { 'a', '.', '5', 'j', 'Z', '\0' })
                  if ((int)head.size() <= lens[k] && lens[k] - head.size() > 0) {
                     string s = head;
                     s.resize(lens[k], fill);
                     if (lens[k] < 1200)
                        text_case(t, s);
                     else { // without messages of this size
                        t.count("evaluations");
                        string id = head + " and so on with '" + esc(string(1, fill)) + "', " + std::to_string(lens[k]) + " characters";
                        t.ok(!eosio::try_string_to_name_strict(s), "strict-accepted", id);
                        t.ok(eosio::string_to_name(s) == pack(s) && eosio::string_to_name(s.data(), s.size()) == pack(s), "lenient", id);
                        t.ok(eosio::hash_name(s) == hash(s), "hash_name", id);
                     }
                  }
      }
   }
   // hashed texts of every length up to 40, one byte changed
   for (int len = 0; len <= 40; ++len) {
      if (!t.next())
         continue;
      t.desc("hash " + std::to_string(len));
      string b;
      for (int i = 0; i < len; ++i) b += char('A' + i * 7 % 26);
      text_case(t, b);
      for (int p = 0; p < len; ++p)
         for (int c = 1; c < 256; c += deep ? 1 : 3) {
            string s = b;
            s[p]     = c;
            text_case(t, s);
         }
   }
   // values: one, two (three) non-zero digits; run-length bit patterns; boundary neighbourhoods
   auto put = [](int pos, uint64_t d) -> uint64_t { return pos < 12 ? d << (59 - 5 * pos) : (d & 15); };
   std::vector<uint64_t> dg = { 0, 1, 2, 5, 6, 7, 15, 16, 17, 30, 31 };
   for (int p = 0; p < 13; ++p) {
      if (!t.next())
         continue;
      t.desc("digits " + std::to_string(p));
      for (uint64_t d = 0; d < 32; ++d)
         for (int q = p; q < 13; ++q)
            for (uint64_t e = 0; e < 32; ++e) {
               value_case(t, put(p, d) | put(q, e));
               value_case(t, ~(put(p, d) | put(q, e)));
               if (deep || d % 5 == 0)
                  for (int r = q + 1; r < 13; ++r)
                     for (auto f : dg) value_case(t, put(p, d) | put(q, e) | put(r, f));
            }
   }
   for (int i = 0; i <= 64; ++i) {
      if (!t.next())
         continue;
      t.desc("runs " + std::to_string(i));
      auto m = [](int b) { return b >= 64 ? ~0ull : (1ull << b) - 1; };
      for (int k = i; k <= 64; ++k)
         for (int l = k; l <= 64; ++l) {
            uint64_t v = m(i) ^ m(k) ^ m(l);
            value_case(t, v);
            value_case(t, ~v);
            if (deep)
               for (int n = l; n <= 64; ++n) value_case(t, v ^ m(n));
         }
      for (int d = -40; d <= 40; ++d) value_case(t, m(i) + d), value_case(t, m(i) / 3 + d), value_case(t, m(i) / 5 * 3 + d);
   }
   // all placements of dots
   for (int hi = 0; hi < 32; ++hi) {
      if (!t.next())
         continue;
      t.desc("dots " + std::to_string(hi));
      for (int lo = 0; lo < 256; ++lo)
         for (int f : { 1, 6, 15, 16, 31 }) {
            uint64_t v = 0;
            for (int i = 0; i < 13; ++i)
               if (((hi << 8 | lo) >> i) & 1)
                  v |= put(i, i == 12 && !(f & 15) ? 1 : f);
            value_case(t, v);
         }
   }
   // order
   for (int p = 0; p < 13; ++p) {
      if (!t.next())
         continue;
      t.desc("order " + std::to_string(p));
      std::vector<uint64_t> v;
      for (auto d : dg)
         for (auto e : dg)
            for (int q = 0; q < 13; q += deep ? 1 : 3) v.push_back(put(p, d) ^ put(q, e));
      for (int i = 0; i < 64; ++i) v.push_back(1ull << i), v.push_back(~0ull << i);
      std::sort(v.begin(), v.end());
      v.erase(std::unique(v.begin(), v.end()), v.end());
      order(t, v, [](uint64_t x) {
         string s = text(x);
         s.resize(13, '.');
         return s;
      });
   }
   t.sample("'eosio.token' = " + h16(pack("eosio.token")));
}
VH_MAIN(run)
