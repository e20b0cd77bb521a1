// Reference digests, written from the published descriptions (RIPEMD-160: Dobbertin, Bosselaers, Preneel; SHA-256: FIPS 180).
#pragma once
#include <cstdint>
#include <string>
#include <string_view>

namespace ref {
inline std::string ripemd160(std::string_view m) {
   static const int R[80]  = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8, 3, 10, 14, 4, 9, 15, 8, 1, 2, 7, 0, 6, 13, 11, 5, 12,
      1, 9, 11, 10, 0, 8, 12, 4, 13, 3, 7, 15, 14, 5, 6, 2, 4, 0, 5, 9, 7, 12, 2, 10, 14, 1, 3, 8, 11, 6, 15, 13 };
   static const int RP[80] = { 5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12, 6, 11, 3, 7, 0, 13, 5, 10, 14, 15, 8, 12, 4, 9, 1, 2, 15, 5, 1, 3, 7, 14, 6, 9, 11, 8, 12, 2, 10, 0, 4, 13,
      8, 6, 4, 1, 3, 11, 15, 0, 5, 12, 2, 13, 9, 7, 10, 14, 12, 15, 10, 4, 1, 5, 8, 7, 6, 2, 13, 14, 0, 3, 9, 11 };
   static const int S[80]  = { 11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8, 7, 6, 8, 13, 11, 9, 7, 15, 7, 12, 15, 9, 11, 7, 13, 12, 11, 13, 6, 7, 14, 9, 13, 15, 14, 8, 13, 6, 5, 12, 7, 5,
      11, 12, 14, 15, 14, 15, 9, 8, 9, 14, 5, 6, 8, 6, 5, 12, 9, 15, 5, 11, 6, 8, 13, 12, 5, 12, 13, 14, 11, 8, 5, 6 };
   static const int SP[80] = { 8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6, 9, 13, 15, 7, 12, 8, 9, 11, 7, 7, 12, 7, 6, 15, 13, 11, 9, 7, 15, 11, 8, 6, 6, 14, 12, 13, 5, 14, 13, 13, 7, 5,
      15, 5, 8, 11, 14, 14, 6, 14, 6, 9, 12, 9, 12, 5, 15, 8, 8, 5, 12, 9, 12, 5, 14, 6, 8, 13, 6, 5, 15, 13, 11, 11 };
   static const uint32_t K[5] = { 0, 0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xA953FD4E }, KP[5] = { 0x50A28BE6, 0x5C4DD124, 0x6D703EF3, 0x7A6D76E9, 0 };
   auto rol = [](uint32_t x, int n) { return x << n | x >> (32 - n); };
   auto f   = [](int j, uint32_t x, uint32_t y, uint32_t z) {
      switch (j / 16) {
         case 0: return x ^ y ^ z;
         case 1: return (x & y) | (~x & z);
         case 2: return (x | ~y) ^ z;
         case 3: return (x & z) | (y & ~z);
         default: return x ^ (y | ~z);
      }
   };
   std::string s(m);
   s += '\x80';
   while (s.size() % 64 != 56) s += '\0';
   uint64_t bits = (uint64_t)m.size() * 8;
   for (int i = 0; i < 8; ++i) s += char(bits >> 8 * i);
   uint32_t h[5] = { 0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0 };
   for (size_t o = 0; o < s.size(); o += 64) {
      uint32_t x[16];
      for (int i = 0; i < 16; ++i) x[i] = (uint8_t)s[o + 4 * i] | (uint8_t)s[o + 4 * i + 1] << 8 | (uint8_t)s[o + 4 * i + 2] << 16 | (uint32_t)(uint8_t)s[o + 4 * i + 3] << 24;
      uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4], a2 = a, b2 = b, c2 = c, d2 = d, e2 = e;
      for (int j = 0; j < 80; ++j) {
         uint32_t t = rol(a + f(j, b, c, d) + x[R[j]] + K[j / 16], S[j]) + e;
         a = e, e = d, d = rol(c, 10), c = b, b = t;
         t  = rol(a2 + f(79 - j, b2, c2, d2) + x[RP[j]] + KP[j / 16], SP[j]) + e2;
         a2 = e2, e2 = d2, d2 = rol(c2, 10), c2 = b2, b2 = t;
      }
      uint32_t t = h[1] + c + d2;
      h[1] = h[2] + d + e2, h[2] = h[3] + e + a2, h[3] = h[4] + a + b2, h[4] = h[0] + b + c2, h[0] = t;
   }
   std::string r;
   for (auto v : h)
      for (int i = 0; i < 4; ++i) r += char(v >> 8 * i);
   return r;
}
inline std::string sha256(std::string_view m) {
   static const uint32_t k[64] = { 0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5, 0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174,
      0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da, 0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967,
      0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85, 0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070,
      0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3, 0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2 };
   auto ror = [](uint32_t x, int n) { return x >> n | x << (32 - n); };
   std::string s(m);
   s += '\x80';
   while (s.size() % 64 != 56) s += '\0';
   uint64_t bits = (uint64_t)m.size() * 8;
   for (int i = 7; i >= 0; --i) s += char(bits >> 8 * i);
   uint32_t h[8] = { 0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19 };
   for (size_t o = 0; o < s.size(); o += 64) {
      uint32_t w[64], v[8];
      for (int i = 0; i < 16; ++i) w[i] = (uint32_t)(uint8_t)s[o + 4 * i] << 24 | (uint8_t)s[o + 4 * i + 1] << 16 | (uint8_t)s[o + 4 * i + 2] << 8 | (uint8_t)s[o + 4 * i + 3];
      for (int i = 16; i < 64; ++i) w[i] = w[i - 16] + (ror(w[i - 15], 7) ^ ror(w[i - 15], 18) ^ w[i - 15] >> 3) + w[i - 7] + (ror(w[i - 2], 17) ^ ror(w[i - 2], 19) ^ w[i - 2] >> 10);
      for (int i = 0; i < 8; ++i) v[i] = h[i];
      for (int i = 0; i < 64; ++i) {
         uint32_t t1 = v[7] + (ror(v[4], 6) ^ ror(v[4], 11) ^ ror(v[4], 25)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + k[i] + w[i];
         uint32_t t2 = (ror(v[0], 2) ^ ror(v[0], 13) ^ ror(v[0], 22)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
         for (int j = 7; j > 0; --j) v[j] = v[j - 1];
         v[4] += t1;
         v[0] = t1 + t2;
      }
      for (int i = 0; i < 8; ++i) h[i] += v[i];
   }
   std::string r;
   for (auto x : h)
      for (int i = 3; i >= 0; --i) r += char(x >> 8 * i);
   return r;
}
// Base 58 by long division of the whole number.
inline const char* b58() { return "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"; }
inline std::string to_b58(std::string_view d) {
   std::string n(d), r;
   size_t      z = 0;
   while (z < n.size() && !n[z]) ++z;
   size_t i = z;
   while (i < n.size()) {
      int rem = 0;
      for (size_t k = i; k < n.size(); ++k) {
         int x = rem * 256 + (uint8_t)n[k];
         n[k]  = char(x / 58);
         rem   = x % 58;
      }
      r += b58()[rem];
      while (i < n.size() && !n[i]) ++i;
   }
   r.append(z, '1');
   return std::string(r.rbegin(), r.rend());
}
inline bool from_b58(std::string_view s, std::string& out) {
   std::string n; // digits
   for (char c : s) {
      const char* p = b58();
      while (*p && *p != c) ++p;
      if (!*p)
         return false;
      n += char(p - b58());
   }
   size_t z = 0;
   while (z < n.size() && !n[z]) ++z;
   std::string r;
   size_t      i = z;
   while (i < n.size()) {
      int rem = 0;
      for (size_t k = i; k < n.size(); ++k) {
         int x = rem * 58 + (uint8_t)n[k];
         n[k]  = char(x / 256);
         rem   = x % 256;
      }
      r += char(rem);
      while (i < n.size() && !n[i]) ++i;
   }
   r.append(z, '\0');
   out.assign(r.rbegin(), r.rend());
   return true;
}
} // namespace ref
