// Reference acceptors on top of ref.hpp: which JSON documents and which byte strings are values of a type.
#pragma once
#include "ref.hpp"

namespace ref {
enum Verdict { OK, BAD, DONTCARE };

// Text of a JSON scalar -> encoding, for the leaf types used with arbitrary documents.
inline Verdict leaf_from_json(const std::string& name, const J& j, std::string& out) {
   if (name == "bool") {
      if (j.k != J::Bool)
         return BAD;
      out += char(j.b);
      return OK;
   }
   if (name == "string") {
      if (j.k == J::Num)
         return DONTCARE; // scalars may be spelled either way; not specified for strings
      if (j.k != J::Str)
         return BAD;
      out += varuint(j.s.size()) + j.s;
      return OK;
   }
   if (name == "bytes") {
      if (j.k == J::Num)
         return DONTCARE;
      if (j.k != J::Str || j.s.size() % 2 || j.s.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos)
         return BAD;
      out += varuint(j.s.size() / 2) + unhex(j.s);
      return OK;
   }
   bool is_signed = name.substr(0, 3) == "int";
   int  bits      = atoi(name.c_str() + (is_signed ? 3 : 4));
   if (name.substr(0, 3) != "int" && name.substr(0, 4) != "uint")
      abort();
   if (j.k != J::Num && j.k != J::Str)
      return BAD;
   std::string d   = j.s;
   bool        neg = is_signed && !d.empty() && d[0] == '-';
   if (neg)
      d = d.substr(1);
   if (d.empty() || d.find_first_not_of("0123456789") != std::string::npos) {
      if (!is_signed && j.s.substr(0, 1) == "-" && j.s.find_first_not_of("-0") == std::string::npos)
         return DONTCARE;
      return BAD;
   }
   unsigned __int128 v = 0, lim = ((unsigned __int128)1 << (is_signed ? bits - 1 : bits)) - (neg ? 0 : 1);
   if (bits == 128)
      abort();
   for (char c : d) {
      v = v * 10 + (c - '0');
      if (v > lim)
         return BAD;
   }
   out += le(neg ? -v : v, bits / 8);
   return OK;
}
// Document -> encoding.  `inorder`: members exactly in declaration order; otherwise in any order (documents with
// unknown or repeated members are then not specified).
inline Verdict from_doc(const Ty* t, const J& j, bool inorder, bool allow, bool& skipped, std::string& out) {
   switch (t->k) {
      case LEAF: return leaf_from_json(t->leaf->name, j, out);
      case ALIAS:
      case EXT: return from_doc(t->sub, j, inorder, allow, skipped, out);
      case OPT:
         if (j.k == J::Null) {
            out += '\0';
            return OK;
         }
         out += '\1';
         return from_doc(t->sub, j, inorder, allow, skipped, out);
      case ARR: {
         if (j.k != J::Arr)
            return BAD;
         out += varuint(j.a.size());
         Verdict r = OK;
         for (auto& x : j.a) {
            Verdict v = from_doc(t->sub, x, inorder, false, skipped, out);
            if (v == BAD)
               return BAD;
            r = std::max(r, v);
         }
         return r;
      }
      case VARIANT: {
         if (j.k != J::Arr || j.a.size() != 2)
            return BAD;
         if (j.a[0].k == J::Num)
            return DONTCARE;
         if (j.a[0].k != J::Str)
            return BAD;
         for (size_t i = 0; i < t->ft.size(); ++i)
            if (t->ft[i]->expr == j.a[0].s) {
               out += varuint(i);
               return from_doc(t->ft[i], j.a[1], inorder, allow, skipped, out);
            }
         return BAD;
      }
      case STRUCT: {
         if (j.k != J::Obj)
            return BAD;
         auto    f = all_fields(t);
         Verdict r = OK;
         if (inorder) {
            if (j.o.size() > f.size())
               return BAD;
            for (size_t i = 0; i < f.size(); ++i) {
               if (i < j.o.size()) {
                  if (j.o[i].first != f[i].name || skipped)
                     return BAD;
                  Verdict v = from_doc(f[i].t, j.o[i].second, inorder, allow && i + 1 == f.size(), skipped, out);
                  if (v == BAD)
                     return BAD;
                  r = std::max(r, v);
               } else {
                  if (f[i].t->k != EXT || !allow)
                     return BAD;
                  skipped = true;
               }
            }
         } else {
            std::map<std::string, const J*> m;
            for (auto& x : j.o) {
               bool known = false;
               for (auto& y : f) known |= y.name == x.first;
               if (!known || !m.insert({ x.first, &x.second }).second)
                  return DONTCARE;
            }
            for (size_t i = 0; i < f.size(); ++i) {
               auto it = m.find(f[i].name);
               if (it == m.end()) {
                  if (f[i].t->k != EXT || !allow)
                     return BAD;
                  skipped = true;
               } else {
                  if (skipped)
                     return BAD;
                  Verdict v = from_doc(f[i].t, *it->second, inorder, allow && i + 1 == f.size(), skipped, out);
                  if (v == BAD)
                     return BAD;
                  r = std::max(r, v);
               }
            }
         }
         return r;
      }
   }
   return BAD;
}
inline Verdict from_text(const Ty* t, std::string_view text, bool inorder, std::string& out) {
   auto j = parse(text);
   if (!j)
      return BAD;
   bool sk = false;
   // in any-order mode a DONTCARE found early could hide a definite refusal, never the other way round
   return from_doc(t, *j, inorder, true, sk, out);
}

// ---------------------------------------------------------------------------------------------------- binary
struct Bin {
   std::string_view in;
   bool             exact = true;  // json is specified
   bool             eof   = false;
   std::string      json, canon;   // canonical JSON and canonical encoding
   bool             take(size_t n, std::string_view& r) {
      if (n > in.size())
         return false;
      r = in.substr(0, n);
      in.remove_prefix(n);
      return true;
   }
   bool varu(uint64_t& v, int maxbytes, int bits) {
      v = 0;
      for (int i = 0; i < maxbytes; ++i) {
         std::string_view c;
         if (!take(1, c))
            return false;
         uint8_t b = c[0];
         if (7 * i < 64)
            v |= (uint64_t)(b & 0x7f) << (7 * i);
         if (!(b & 0x80)) {
            if (bits < 64)
               v &= ((uint64_t)1 << bits) - 1;
            return true;
         }
      }
      return false;
   }
};
inline std::string dec_s(__int128 v) {
   bool              neg = v < 0;
   unsigned __int128 u   = neg ? -(unsigned __int128)v : v;
   std::string       r;
   do {
      r.insert(r.begin(), char('0' + (int)(u % 10)));
      u /= 10;
   } while (u);
   return neg ? "-" + r : r;
}
inline std::string dec_u(unsigned __int128 u) {
   std::string r;
   do {
      r.insert(r.begin(), char('0' + (int)(u % 10)));
      u /= 10;
   } while (u);
   return r;
}
inline std::string HEX(std::string_view s) {
   std::string r;
   for (unsigned char c : s) (r += "0123456789ABCDEF"[c >> 4]) += "0123456789ABCDEF"[c & 15];
   return r;
}
inline bool valid_utf8(std::string_view s) {
   size_t i = 0;
   while (i < s.size()) {
      int n = utf8_len((const unsigned char*)s.data() + i, s.size() - i);
      if (!n)
         return false;
      i += n;
   }
   return true;
}
inline bool leaf_from_bin(const std::string& n, Bin& b) {
   std::string_view s;
   uint64_t         v;
   auto             fixed = [&](size_t k) {
      if (!b.take(k, s))
         return false;
      b.canon += s;
      return true;
   };
   if (n == "bool") {
      if (!fixed(1) || (uint8_t)s[0] > 1)
         return false;
      b.json += s[0] ? "true" : "false";
      return true;
   }
   bool sg = n.substr(0, 3) == "int", us = n.substr(0, 4) == "uint";
   if (sg || us) {
      int bits = atoi(n.c_str() + (sg ? 3 : 4));
      if (!fixed(bits / 8))
         return false;
      unsigned __int128 u = 0;
      for (int i = bits / 8; i--;) u = u << 8 | (uint8_t)s[i];
      std::string q = bits > 32 ? "\"" : "";
      if (sg) {
         __int128 x = (__int128)(u << (128 - bits)) >> (128 - bits);
         b.json += q + dec_s(x) + q;
      } else
         b.json += q + dec_u(u) + q;
      return true;
   }
   if (n == "varuint32" || n == "varint32") {
      if (!b.varu(v, 5, 32))
         return false;
      b.canon += varuint(v);
      b.json += n == "varuint32" ? std::to_string(v) : std::to_string((int32_t)((uint32_t)(v >> 1) ^ -(uint32_t)(v & 1)));
      return true;
   }
   if (n == "string" || n == "bytes") {
      if (!b.varu(v, n == "bytes" ? 10 : 5, n == "bytes" ? 64 : 32) || !b.take(v, s))
         return false;
      b.canon += varuint(v);
      b.canon += s;
      if (n == "bytes")
         b.json += "\"" + HEX(s) + "\"";
      else {
         if (!valid_utf8(s))
            b.exact = false;
         b.json += quote(s);
      }
      return true;
   }
   static const std::map<std::string, int> hexes = { { "float128", 16 }, { "checksum160", 20 }, { "checksum256", 32 }, { "checksum512", 64 } };
   auto                                    h     = hexes.find(n);
   if (h != hexes.end()) {
      if (!fixed(h->second))
         return false;
      b.json += "\"" + HEX(s) + "\"";
      return true;
   }
   static const std::map<std::string, int> sized = { { "float32", 4 }, { "float64", 8 }, { "time_point", 8 }, { "time_point_sec", 4 },
                                                     { "block_timestamp_type", 4 }, { "name", 8 }, { "symbol", 8 }, { "symbol_code", 8 }, { "asset", 16 } };
   auto z = sized.find(n);
   if (z != sized.end()) {
      b.exact = false;
      b.json += "0";
      return fixed(z->second);
   }
   if (n == "public_key" || n == "private_key" || n == "signature") { // kinds 0,1: fixed size; 2: see below
      b.exact = false;
      b.json += "0";
      uint64_t k;
      if (!b.varu(k, 5, 32))
         return false;
      b.canon += varuint(k);
      if (k > (n == "private_key" ? 1 : 2))
         return false;
      if (k < 2)
         return fixed(n == "public_key" ? 33 : n == "private_key" ? 32 : 65);
      if (n == "public_key") { // key, user presence, relying party id
         if (!fixed(33) || !fixed(1))
            return false;
         return leaf_from_bin("string", b);
      }
      return fixed(65) && leaf_from_bin("bytes", b) && leaf_from_bin("string", b);
   }
   abort();
}
inline bool from_bin(const Ty* t, Bin& b, bool allow, bool& skipped, int depth = 0) {
   if (depth > 120)
      return false;
   switch (t->k) {
      case LEAF: return leaf_from_bin(t->leaf->name, b);
      case ALIAS:
      case EXT: return from_bin(t->sub, b, allow, skipped, depth);
      case OPT: {
         std::string_view s;
         if (!b.take(1, s) || (uint8_t)s[0] > 1)
            return false;
         b.canon += s;
         if (s[0])
            return from_bin(t->sub, b, allow, skipped, depth);
         b.json += "null";
         return true;
      }
      case ARR: {
         uint64_t n;
         if (!b.varu(n, 5, 32))
            return false;
         b.canon += varuint(n);
         b.json += '[';
         for (uint64_t i = 0; i < n; ++i) {
            if (i)
               b.json += ',';
            if (!from_bin(t->sub, b, false, skipped, depth + 1))
               return false;
         }
         b.json += ']';
         return true;
      }
      case VARIANT: {
         uint64_t n;
         if (!b.varu(n, 5, 32) || n >= t->ft.size())
            return false;
         b.canon += varuint(n);
         b.json += "[" + quote(t->ft[n]->expr) + ",";
         if (!from_bin(t->ft[n], b, allow, skipped, depth + 1))
            return false;
         b.json += ']';
         return true;
      }
      case STRUCT: {
         auto f     = all_fields(t);
         bool first = true;
         b.json += '{';
         for (size_t i = 0; i < f.size(); ++i) {
            if (f[i].t->k == EXT && allow && b.in.empty()) {
               skipped = true;
               continue;
            }
            if (skipped)
               return false;
            if (!first)
               b.json += ',';
            first = false;
            b.json += quote(f[i].name) + ":";
            if (!from_bin(f[i].t, b, allow && i + 1 == f.size(), skipped, depth + 1))
               return false;
         }
         b.json += '}';
         return true;
      }
   }
   return false;
}
// Whole input is one value?
inline bool decode(const Ty* t, std::string_view in, Bin& b) {
   b.in    = in;
   bool sk = false;
   return from_bin(t, b, true, sk) && b.in.empty();
}
} // namespace ref
