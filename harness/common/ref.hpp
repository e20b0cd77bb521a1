// Reference model, written from the format descriptions and independent of the code under test: a strict JSON reader,
// ABI types as syntax trees, values, the wire encoding, canonical JSON, and enumeration of types and values.
#pragma once
#include <cstdint>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <vector>

namespace ref {

inline std::string varuint(uint64_t v) {
   std::string r;
   do {
      uint8_t b = v & 0x7f;
      v >>= 7;
      r += char(b | (v ? 0x80 : 0));
   } while (v);
   return r;
}
inline std::string le(unsigned __int128 v, int n) {
   std::string r;
   for (int i = 0; i < n; ++i) {
      r += char(v & 0xff);
      v >>= 8;
   }
   return r;
}
inline std::string unhex(std::string_view h) {
   std::string r;
   auto        d = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
   for (size_t i = 0; i + 1 < h.size(); i += 2) r += char(d(h[i]) << 4 | d(h[i + 1]));
   return r;
}

// ---------------------------------------------------------------------------------------------------- strict JSON
struct J {
   enum K { Null, Bool, Num, Str, Arr, Obj } k = Null;
   bool                                   b = false;
   std::string                            s;
   std::vector<J>                         a;
   std::vector<std::pair<std::string, J>> o;
   bool operator==(const J& y) const { return k == y.k && b == y.b && s == y.s && a == y.a && o == y.o; }
};
inline void put_utf8(std::string& r, uint32_t c) {
   if (c < 0x80)
      r += char(c);
   else if (c < 0x800) {
      r += char(0xc0 | c >> 6);
      r += char(0x80 | (c & 63));
   } else if (c < 0x10000) {
      r += char(0xe0 | c >> 12);
      r += char(0x80 | (c >> 6 & 63));
      r += char(0x80 | (c & 63));
   } else {
      r += char(0xf0 | c >> 18);
      r += char(0x80 | (c >> 12 & 63));
      r += char(0x80 | (c >> 6 & 63));
      r += char(0x80 | (c & 63));
   }
}
// Length of the valid UTF-8 sequence at p (0 if none), by the table of the Unicode standard (table 3-7).
inline int utf8_len(const unsigned char* p, size_t n) {
   if (!n)
      return 0;
   unsigned c = p[0];
   if (c < 0x80)
      return 1;
   auto cont = [&](size_t i, unsigned lo = 0x80, unsigned hi = 0xbf) { return i < n && p[i] >= lo && p[i] <= hi; };
   if (c >= 0xc2 && c <= 0xdf)
      return cont(1) ? 2 : 0;
   if (c == 0xe0)
      return cont(1, 0xa0) && cont(2) ? 3 : 0;
   if (c >= 0xe1 && c <= 0xef)
      return cont(1, 0x80, c == 0xed ? 0x9f : 0xbf) && cont(2) ? 3 : 0;
   if (c == 0xf0)
      return cont(1, 0x90) && cont(2) && cont(3) ? 4 : 0;
   if (c >= 0xf1 && c <= 0xf3)
      return cont(1) && cont(2) && cont(3) ? 4 : 0;
   if (c == 0xf4)
      return cont(1, 0x80, 0x8f) && cont(2) && cont(3) ? 4 : 0;
   return 0;
}
class Parser {
   std::string_view s;
   size_t           p = 0;
   void             ws() {
      while (p < s.size() && (s[p] == ' ' || s[p] == '\t' || s[p] == '\n' || s[p] == '\r')) ++p;
   }
   bool lit(std::string_view l) {
      if (s.substr(p, l.size()) != l)
         return false;
      p += l.size();
      return true;
   }
   bool hex4(uint32_t& v) {
      v = 0;
      for (int i = 0; i < 4; ++i, ++p) {
         if (p >= s.size())
            return false;
         char c = s[p];
         int  d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
         if (d < 0)
            return false;
         v = v * 16 + d;
      }
      return true;
   }
   bool str(std::string& r) {
      if (p >= s.size() || s[p] != '"')
         return false;
      ++p;
      while (p < s.size()) {
         unsigned char c = s[p];
         if (c == '"') {
            ++p;
            return true;
         }
         if (c < 0x20)
            return false;
         if (c == '\\') {
            ++p;
            if (p >= s.size())
               return false;
            switch (s[p++]) {
               case '"': r += '"'; break;
               case '\\': r += '\\'; break;
               case '/': r += '/'; break;
               case 'b': r += '\b'; break;
               case 'f': r += '\f'; break;
               case 'n': r += '\n'; break;
               case 'r': r += '\r'; break;
               case 't': r += '\t'; break;
               case 'u': {
                  uint32_t v;
                  if (!hex4(v))
                     return false;
                  if (v >= 0xdc00 && v <= 0xdfff)
                     return false;
                  if (v >= 0xd800 && v <= 0xdbff) {
                     uint32_t w;
                     if (!lit("\\u") || !hex4(w) || w < 0xdc00 || w > 0xdfff)
                        return false;
                     v = 0x10000 + ((v & 0x3ff) << 10) + (w & 0x3ff);
                  }
                  put_utf8(r, v);
                  break;
               }
               default: return false;
            }
            continue;
         }
         int n = utf8_len((const unsigned char*)s.data() + p, s.size() - p);
         if (!n)
            return false;
         r.append(s.data() + p, n);
         p += n;
      }
      return false;
   }
   bool num(std::string& r) {
      size_t b   = p;
      auto   dig = [&] { return p < s.size() && s[p] >= '0' && s[p] <= '9'; };
      if (p < s.size() && s[p] == '-')
         ++p;
      if (!dig())
         return false;
      if (s[p] == '0')
         ++p;
      else
         while (dig()) ++p;
      if (p < s.size() && s[p] == '.') {
         ++p;
         if (!dig())
            return false;
         while (dig()) ++p;
      }
      if (p < s.size() && (s[p] == 'e' || s[p] == 'E')) {
         ++p;
         if (p < s.size() && (s[p] == '+' || s[p] == '-'))
            ++p;
         if (!dig())
            return false;
         while (dig()) ++p;
      }
      r = std::string(s.substr(b, p - b));
      return true;
   }
   bool val(J& j, int depth) {
      if (depth > 2000)
         return false;
      ws();
      if (p >= s.size())
         return false;
      char c = s[p];
      if (c == 'n')
         return lit("null");
      if (c == 't' || c == 'f') {
         j.k = J::Bool;
         j.b = c == 't';
         return lit(j.b ? "true" : "false");
      }
      if (c == '"') {
         j.k = J::Str;
         return str(j.s);
      }
      if (c == '[') {
         j.k = J::Arr;
         ++p;
         ws();
         if (p < s.size() && s[p] == ']') {
            ++p;
            return true;
         }
         for (;;) {
            j.a.emplace_back();
            if (!val(j.a.back(), depth + 1))
               return false;
            ws();
            if (p >= s.size())
               return false;
            if (s[p] == ']') {
               ++p;
               return true;
            }
            if (s[p] != ',')
               return false;
            ++p;
         }
      }
      if (c == '{') {
         j.k = J::Obj;
         ++p;
         ws();
         if (p < s.size() && s[p] == '}') {
            ++p;
            return true;
         }
         for (;;) {
            ws();
            j.o.emplace_back();
            if (!str(j.o.back().first))
               return false;
            ws();
            if (p >= s.size() || s[p] != ':')
               return false;
            ++p;
            if (!val(j.o.back().second, depth + 1))
               return false;
            ws();
            if (p >= s.size())
               return false;
            if (s[p] == '}') {
               ++p;
               return true;
            }
            if (s[p] != ',')
               return false;
            ++p;
         }
      }
      j.k = J::Num;
      return num(j.s);
   }

 public:
   explicit Parser(std::string_view t) : s(t) {}
   bool parse(J& j) {
      if (!val(j, 0))
         return false;
      ws();
      return p == s.size();
   }
};
inline std::optional<J> parse(std::string_view s) {
   J j;
   if (!Parser(s).parse(j))
      return {};
   return j;
}
inline std::string quote(std::string_view s) { // minimal escaping
   std::string r = "\"";
   char        b[8];
   for (unsigned char c : s) {
      if (c == '"' || c == '\\')
         (r += '\\') += c;
      else if (c < 32) {
         snprintf(b, sizeof b, "\\u%04x", c);
         r += b;
      } else
         r += c;
   }
   return r + "\"";
}

// ---------------------------------------------------------------------------------------------------- types, values
struct Sample {
   std::string json, bin;
};
struct Leaf {
   std::string         name;
   std::vector<Sample> v;
};
inline const std::vector<Leaf>& leaves() {
   static const std::vector<Leaf> l = [] {
      auto s = [](std::string x) { return ref::varuint(x.size()) + x; };
      std::string k1("\0\x02", 2);
      k1 += unhex("a5d2400af24411f64c29da2fe893ff2b6681a3b6ffbe980b2ee42ad10cc2e994");
      return std::vector<Leaf>{
         { "bool", { { "true", le(1, 1) }, { "false", le(0, 1) } } },
         { "int8", { { "-1", le(255, 1) }, { "127", le(127, 1) }, { "0", le(0, 1) } } },
         { "uint8", { { "255", le(255, 1) }, { "1", le(1, 1) } } },
         { "int16", { { "-2", le(65534, 2) }, { "32767", le(32767, 2) } } },
         { "uint16", { { "65535", le(65535, 2) }, { "258", le(258, 2) } } },
         { "int32", { { "-3", le(0xfffffffd, 4) }, { "16909060", le(0x01020304, 4) } } },
         { "uint32", { { "4294967295", le(0xffffffff, 4) }, { "16909060", le(0x01020304, 4) } } },
         { "int64", { { "\"-4\"", le((unsigned __int128)-4, 8) }, { "\"72623859790382856\"", le(0x0102030405060708ull, 8) } } },
         { "uint64", { { "\"18446744073709551615\"", le(~0ull, 8) }, { "\"72623859790382856\"", le(0x0102030405060708ull, 8) } } },
         { "int128", { { "\"-5\"", le((unsigned __int128)-5, 16) }, { "\"18446744073709551616\"", le((unsigned __int128)1 << 64, 16) } } },
         { "uint128", { { "\"340282366920938463463374607431768211455\"", le(~(unsigned __int128)0, 16) }, { "\"1\"", le(1, 16) } } },
         { "varuint32", { { "128", varuint(128) }, { "4294967295", varuint(4294967295u) }, { "0", varuint(0) } } },
         { "varint32", { { "-1", varuint(1) }, { "64", varuint(128) }, { "-2147483648", varuint(4294967295u) } } },
         { "float32", { { "1.5", le(0x3fc00000, 4) }, { "-0", le(0x80000000, 4) } } },
         { "float64", { { "-2.25", le(0xc002000000000000ull, 8) }, { "0", le(0, 8) } } },
         { "float128", { { "\"000102030405060708090A0B0C0D0E0F\"", unhex("000102030405060708090a0b0c0d0e0f") } } },
         { "time_point", { { "\"2018-06-15T19:17:47.999\"", le(1529090267999000ull, 8) }, { "\"1970-01-01T00:00:00.000\"", le(0, 8) } } },
         { "time_point_sec", { { "\"2018-06-15T19:17:47.000\"", le(1529090267, 4) } } },
         { "block_timestamp_type", { { "\"2018-06-15T19:17:47.500\"", le((1529090267ull - 946684800) * 2 + 1, 4) } } },
         { "name", { { "\"b\"", le(7ull << 59, 8) }, { "\"\"", le(0, 8) } } },
         { "bytes", { { "\"AABB01\"", unhex("03aabb01") }, { "\"\"", unhex("00") } } },
         { "string", { { "\"z\\\"y\"", s("z\"y") }, { "\"\"", s("") }, { "\"\xc3\xa9\"", s("\xc3\xa9") } } },
         { "checksum160", { { "\"000102030405060708090A0B0C0D0E0F10111213\"", unhex("000102030405060708090a0b0c0d0e0f10111213") } } },
         { "checksum256", { { "\"000102030405060708090A0B0C0D0E0F101112131415161718191A1B1C1D1E1F\"",
                              unhex("000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f") } } },
         { "checksum512",
           { { "\"000102030405060708090A0B0C0D0E0F101112131415161718191A1B1C1D1E1F202122232425262728292A2B2C2D2E2F303132333435363738393A3B3C3D3E3F\"",
               unhex("000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f202122232425262728292a2b2c2d2e2f303132333435363738393a3b3c3d3e3f") } } },
         { "public_key", { { "\"PUB_K1_69X3383RzBZj41k73CSjUNXM5MYGpnDxyPnWUKPEtYQmVzqTY7\"", k1 },
                           { "\"PUB_R1_1111111111111111111111111111111116amPNj\"", "\1" + std::string(33, '\0') } } },
         { "private_key", { { "\"PVT_R1_PtoxLPzJZURZmPS4e26pjBiAn41mkkLPrET5qHnwDvbvqFEL6\"",
                              unhex("0133fb621e78d5dc78f0029b6fd714bfe3b42fe4b72bc109051591e71f204d2813") } } },
         { "signature", { { "\"SIG_K1_Kg2UKjXTX48gw2wWH4zmsZmWu3yarcfC21Bd9JPj7QoDURqiAacCHmtExPk3syPb2tFLsp1R4ttXLXgr7FYgDvKPC5RCkx\"",
                            unhex("002056355ed1079822d2728886b449f0f4a2bbf48bf38698c0ebe8c7079768882b1c64ac07d7a4bd85cf96b8a74fdcafef1a4805f946177c609fdf31abe2463038e5") } } },
         { "symbol", { { "\"4,SYS\"", unhex("0453595300000000") }, { "\"0,A\"", unhex("0041000000000000") } } },
         { "symbol_code", { { "\"SYS\"", unhex("5359530000000000") } } },
         { "asset", { { "\"1.2345 SYS\"", unhex("39300000000000000453595300000000") }, { "\"-3 A\"", le((unsigned __int128)-3, 8) + unhex("0041000000000000") } } },
      };
   }();
   return l;
}
inline const Leaf* leaf(const std::string& n) {
   for (auto& l : leaves())
      if (l.name == n)
         return &l;
   return nullptr;
}

// Names that resemble built-in ones without being one, and long names.
inline std::vector<std::string> lookalikes() {
   std::vector<std::string> n;
   for (auto& l : leaves()) n.push_back(l.name);
   n.push_back("extended_asset");
   std::set<std::string> no(n.begin(), n.end()), seen;
   std::vector<std::string> r;
   auto                     put = [&](const std::string& s) {
      if (!s.empty() && !no.count(s) && seen.insert(s).second)
         r.push_back(s);
   };
   for (auto& s : n) {
      for (size_t i = 1; i < s.size(); ++i) put(s.substr(0, i));          // prefixes
      for (size_t i = 1; i < s.size(); ++i) put(s.substr(i));             // endings
      for (std::string x : { "x", "_", "1", "s", "_t", " ", "[", "]" }) put(s + x);
      for (std::string x : { "x", "_", "u", " " }) put(x + s);
      std::string u = s;
      for (auto& c : u) c = toupper(c);
      put(u);
      u    = s;
      u[0] = toupper(u[0]);
      put(u);
      for (size_t i = 0; i < s.size(); ++i) {
         put(s.substr(0, i) + s.substr(i + 1));
         put(s.substr(0, i) + "x" + s.substr(i + 1));
      }
      put(s + s);
      put(s + std::string(1, '\0')), put(s + std::string("\0x", 2)), put(std::string(1, '\0') + s);
   }
   put(std::string(1, '\0')), put(std::string("\0\0", 2));
   for (int k : { 15, 16, 17, 63, 64, 127, 128, 200, 255, 256, 257, 300 }) put(std::string(k, 'n')), put(std::string(k, 'n') + "m");
   return r;
}

enum Kind { LEAF, STRUCT, VARIANT, OPT, ARR, ALIAS, EXT };
struct Ty {
   Kind                     k;
   std::string              expr; // how other types refer to it
   const Leaf*              leaf = nullptr;
   const Ty*                sub  = nullptr; // OPT ARR ALIAS EXT
   const Ty*                base = nullptr; // STRUCT (as written: struct or alias of struct)
   std::vector<std::string> fn;             // own fields, or nothing for variants
   std::vector<const Ty*>   ft;             // own fields, or variant cases
   int                      size = 1;
};
inline const Ty* resolved(const Ty* t) {
   while (t->k == ALIAS) t = t->sub;
   return t;
}
struct Field {
   std::string name;
   const Ty*   t;
};
inline void all_fields(const Ty* t, std::vector<Field>& out) {
   t = resolved(t);
   if (t->base)
      all_fields(t->base, out);
   for (size_t i = 0; i < t->ft.size(); ++i) out.push_back({ t->fn[i], t->ft[i] });
}
inline std::vector<Field> all_fields(const Ty* t) {
   std::vector<Field> r;
   all_fields(t, r);
   return r;
}
class Types { // arena
   std::deque<Ty> d;
   int            n = 0;
   Ty*            add(Ty t) {
      d.push_back(std::move(t));
      return &d.back();
   }

 public:
   std::string prefix = "t";
   std::string fresh() { return prefix + std::to_string(n++); }
   const Ty*   lf(const std::string& name) { return lf(ref::leaf(name)); }
   const Ty*   lf(const Leaf* l) {
      Ty t{ LEAF, l->name, l };
      return add(t);
   }
   static bool oae(const Ty* t) {
      auto k = resolved(t)->k;
      return k == OPT || k == ARR || k == EXT;
   }
   const Ty* opt(const Ty* s) {
      if (oae(s))
         return nullptr;
      Ty t{ OPT, s->expr + "?" };
      t.sub  = s;
      t.size = s->size + 1;
      return add(t);
   }
   const Ty* arr(const Ty* s) {
      if (oae(s))
         return nullptr;
      Ty t{ ARR, s->expr + "[]" };
      t.sub  = s;
      t.size = s->size + 1;
      return add(t);
   }
   const Ty* ext(const Ty* s) {
      if (resolved(s)->k == EXT)
         return nullptr;
      Ty t{ EXT, s->expr + "$" };
      t.sub  = s;
      t.size = s->size + 1;
      return add(t);
   }
   const Ty* alias(const Ty* s) {
      if (resolved(s)->k == EXT)
         return nullptr;
      Ty t{ ALIAS, fresh() };
      t.sub  = s;
      t.size = s->size + 1;
      return add(t);
   }
   const Ty* st(std::vector<const Ty*> f, const Ty* base = nullptr, std::vector<std::string> names = {}) {
      if (base && resolved(base)->k != STRUCT)
         return nullptr;
      Ty t{ STRUCT, fresh() };
      t.base = base;
      t.ft   = f;
      t.size = 1 + (base ? base->size : 0);
      for (auto x : f) t.size += x->size;
      size_t nb = base ? all_fields(base).size() : 0;
      for (size_t i = 0; i < f.size(); ++i)
         t.fn.push_back(names.size() > i ? names[i] : "f" + std::to_string(nb + i));
      return add(t);
   }
   const Ty* var(std::vector<const Ty*> c) {
      Ty t{ VARIANT, fresh() };
      t.ft   = c;
      t.size = 1;
      for (auto x : c) t.size += x->size;
      return add(t);
   }
};

inline void collect(const Ty* t, std::vector<const Ty*>& out, std::set<const Ty*>& seen) {
   if (!seen.insert(t).second)
      return;
   if (t->sub)
      collect(t->sub, out, seen);
   if (t->base)
      collect(t->base, out, seen);
   for (auto x : t->ft) collect(x, out, seen);
   if (t->k == STRUCT || t->k == VARIANT || t->k == ALIAS)
      out.push_back(t);
}
// ABI JSON text defining everything `t` needs.
inline std::string abi_json(const std::vector<const Ty*>& roots, bool reverse = false) {
   std::vector<const Ty*> named;
   std::set<const Ty*>    seen;
   for (auto t : roots) collect(t, named, seen);
   if (reverse)
      named = { named.rbegin(), named.rend() };
   std::string ty, st, va;
   for (auto x : named) {
      if (x->k == ALIAS)
         ty += (ty.empty() ? "" : ",") + ("{\"new_type_name\":\"" + x->expr) + "\",\"type\":\"" + x->sub->expr + "\"}";
      else if (x->k == STRUCT) {
         st += (st.empty() ? "" : ",") + ("{\"name\":\"" + x->expr) + "\",\"base\":\"" + (x->base ? x->base->expr : "") + "\",\"fields\":[";
         for (size_t i = 0; i < x->ft.size(); ++i)
            st += (i ? "," : "") + ("{\"name\":" + quote(x->fn[i])) + ",\"type\":\"" + x->ft[i]->expr + "\"}";
         st += "]}";
      } else {
         va += (va.empty() ? "" : ",") + ("{\"name\":\"" + x->expr) + "\",\"types\":[";
         for (size_t i = 0; i < x->ft.size(); ++i) va += (i ? ",\"" : "\"") + x->ft[i]->expr + "\"";
         va += "]}";
      }
   }
   return "{\"version\":\"eosio::abi/1.1\",\"types\":[" + ty + "],\"structs\":[" + st + "],\"variants\":[" + va + "]}";
}

struct Val {
   int              idx     = 0;    // leaf sample, variant case
   bool             present = true; // OPT; EXT member
   std::vector<Val> kids;           // struct members (all, inherited first), variant value, optional value, elements
};
inline void encode(const Ty* t, const Val& v, std::string& out) {
   switch (t->k) {
      case LEAF: out += t->leaf->v[v.idx].bin; break;
      case ALIAS: encode(t->sub, v, out); break;
      case EXT:
         if (v.present)
            encode(t->sub, v.kids[0], out);
         break;
      case OPT:
         out += char(v.present ? 1 : 0);
         if (v.present)
            encode(t->sub, v.kids[0], out);
         break;
      case ARR:
         out += varuint(v.kids.size());
         for (auto& k : v.kids) encode(t->sub, k, out);
         break;
      case VARIANT:
         out += varuint(v.idx);
         encode(t->ft[v.idx], v.kids[0], out);
         break;
      case STRUCT: {
         auto f = all_fields(t);
         for (size_t i = 0; i < f.size(); ++i) encode(f[i].t, v.kids[i], out);
      }
   }
}
inline std::string encode(const Ty* t, const Val& v) {
   std::string r;
   encode(t, v, r);
   return r;
}
// `perm` (optional): chooses the order in which the members of an object are written
using Perm = std::function<void(std::vector<int>&)>;
inline void json(const Ty* t, const Val& v, std::string& out, const Perm& perm = {}) {
   switch (t->k) {
      case LEAF: out += t->leaf->v[v.idx].json; break;
      case ALIAS: json(t->sub, v, out, perm); break;
      case EXT: json(t->sub, v.kids[0], out, perm); break;
      case OPT:
         if (v.present)
            json(t->sub, v.kids[0], out, perm);
         else
            out += "null";
         break;
      case ARR:
         out += '[';
         for (size_t i = 0; i < v.kids.size(); ++i) {
            if (i)
               out += ',';
            json(t->sub, v.kids[i], out, perm);
         }
         out += ']';
         break;
      case VARIANT:
         out += "[" + quote(t->ft[v.idx]->expr) + ",";
         json(t->ft[v.idx], v.kids[0], out, perm);
         out += ']';
         break;
      case STRUCT: {
         auto             f = all_fields(t);
         std::vector<int> ord;
         for (size_t i = 0; i < f.size(); ++i)
            if (f[i].t->k != EXT || v.kids[i].present)
               ord.push_back(i);
         if (perm)
            perm(ord);
         out += '{';
         bool first = true;
         for (int i : ord) {
            if (!first)
               out += ',';
            first = false;
            out += quote(f[i].name) + ":";
            json(f[i].t, v.kids[i], out, perm);
         }
         out += '}';
      }
   }
}
inline std::string json(const Ty* t, const Val& v, const Perm& perm = {}) {
   std::string r;
   json(t, v, r, perm);
   return r;
}

// Bounded value domain of a type, simplest first.  Sequences: empty, singletons, ordered pairs of neighbouring values
// (all pairs for up to 3 values) and one triple.  Structs: the full product up to `lim`, beyond that every value of
// each member against the first values of the others plus the diagonal.
inline std::vector<Val> values(const Ty* t, size_t lim = 24) {
   std::vector<Val> r;
   auto             put = [&](Val v) {
      if (r.size() < lim)
         r.push_back(std::move(v));
   };
   switch (t->k) {
      case LEAF:
         for (size_t i = 0; i < t->leaf->v.size(); ++i) put(Val{ (int)i });
         break;
      case ALIAS: return values(t->sub, lim);
      case EXT:
         for (auto& x : values(t->sub, lim)) put(Val{ 0, true, { x } });
         break;
      case OPT:
         put(Val{ 0, false });
         for (auto& x : values(t->sub, lim)) put(Val{ 0, true, { x } });
         break;
      case ARR: {
         put(Val{});
         auto s = values(t->sub, std::max<size_t>(lim / 2, 3));
         for (auto& x : s) put(Val{ 0, true, { x } });
         for (size_t i = 0; i < s.size(); ++i)
            for (size_t j = 0; j < s.size(); ++j)
               if (s.size() <= 3 || j == i + 1 || (i == j + 1) || (i == j && i < 2))
                  put(Val{ 0, true, { s[i], s[j] } });
         if (!s.empty())
            put(Val{ 0, true, { s.back(), s.front(), s.back() } });
         break;
      }
      case VARIANT: {
         std::vector<std::vector<Val>> c;
         size_t                        mx = 0;
         std::set<std::string>         names;
         for (auto x : t->ft) {
            c.push_back(names.insert(x->expr).second ? values(x, lim) : std::vector<Val>{});
            mx = std::max(mx, c.back().size());
         }
         for (size_t i = 0; i < mx; ++i)
            for (size_t j = 0; j < c.size(); ++j)
               if (i < c[j].size())
                  put(Val{ (int)j, true, { c[j][i] } });
         break;
      }
      case STRUCT: {
         auto                          f = all_fields(t);
         std::vector<std::vector<Val>> c;
         size_t                        prod = 1, mx = 0;
         for (auto& x : f) {
            c.push_back(values(x.t, lim));
            prod = std::min<size_t>(prod * c.back().size(), 1 << 20);
            mx   = std::max(mx, c.back().size());
         }
         if (prod <= lim) {
            for (size_t k = 0; k < prod; ++k) {
               Val    v;
               size_t x = k;
               for (auto& d : c) {
                  v.kids.push_back(d[x % d.size()]);
                  x /= d.size();
               }
               put(std::move(v));
            }
         } else if (prod) {
            std::vector<Val> all;
            for (size_t k = 0; k < mx; ++k) { // diagonal and anti-diagonal
               Val v, w;
               for (size_t i = 0; i < c.size(); ++i) {
                  v.kids.push_back(c[i][k % c[i].size()]);
                  w.kids.push_back(c[i][(i % 2 ? c[i].size() - 1 - k % c[i].size() : k) % c[i].size()]);
               }
               put(std::move(v));
               put(std::move(w));
            }
         }
      }
   }
   return r;
}

// All types of exactly / up to a size over a set of leaves.
struct Enum {
   Types&                              ts;
   std::vector<std::vector<const Ty*>> by; // by[size]
   void                                run(const std::vector<std::string>& lv, int maxsize, bool with_ext = true) {
      by.assign(maxsize + 1, {});
      for (auto& l : lv) by[1].push_back(ts.lf(l));
      for (int n = 2; n <= maxsize; ++n) {
         auto& o   = by[n];
         auto  put = [&](const Ty* t) {
            if (t)
               o.push_back(t);
         };
         for (auto s : by[n - 1]) {
            put(ts.opt(s));
            put(ts.arr(s));
            put(ts.alias(s));
            put(ts.st({ s }));
            put(ts.var({ s }));
            put(ts.st({}, s)); // derived without members of its own
            if (with_ext)
               put(ts.ext(s));
         }
         for (int a = 1; a + 1 < n; ++a)
            for (auto x : by[a])
               for (auto y : by[n - 1 - a]) {
                  put(ts.st({ x, y }));
                  put(ts.var({ x, y }));
                  put(ts.st({ y }, x));
               }
      }
   }
};
} // namespace ref
