// C14: variable-length integers, every 32-bit value, every short byte string.
#include "vh.hpp"
#include "lib.hpp"
using namespace lib;

static int ref_put(uint64_t v, unsigned char* o) {
   int n = 0;
   while (v >= 128) {
      o[n++] = (unsigned char)(v % 128 + 128);
      v /= 128;
   }
   o[n++] = (unsigned char)v;
   return n;
}
// Decode: -1 refused, else bytes consumed.
static int ref_get(const unsigned char* p, int n, int maxbytes, uint64_t& v) {
   v = 0;
   for (int i = 0; i < n && i < maxbytes; ++i) {
      if (7 * i < 64)
         v |= uint64_t(p[i] & 127) << (7 * i);
      if (!(p[i] & 128))
         return i + 1;
   }
   return -1;
}

static void run(vh::T& t) {
   // A. every 32-bit value: writers agree with the reference, and decode back, unsigned and zig-zag
   const uint64_t step = 1 << 20;
   for (uint64_t b = 0; b < (1ull << 32); b += step) {
      if (!t.next())
         continue;
      t.count("evaluations", step);
      for (uint64_t x = b; x < b + step; ++x) {
         uint32_t      v = (uint32_t)x;
         unsigned char ref[8];
         int           n = ref_put(v, ref);
         char          buf[16];
         eosio::fixed_buf_stream fs(buf, sizeof buf);
         eosio::varuint32_to_bin(v, fs);
         eosio::size_stream ss;
         eosio::varuint32_to_bin(v, ss);
         if (fs.pos - buf != n || memcmp(buf, ref, n) || ss.size != (size_t)n) {
            t.fail("enc:" + std::to_string(v), "encoding " + vh::hexs(buf, fs.pos - buf) + " expected " + vh::hexs(ref, n));
            continue;
         }
         eosio::input_stream in(buf, n);
         uint32_t            back = ~v;
         eosio::varuint32_from_bin(back, in);
         if (back != v || in.remaining())
            t.fail("dec:" + std::to_string(v), "decodes to " + std::to_string(back));
         // signed: value i has code zz
         int32_t  i  = (int32_t)v;
         uint32_t zz = i >= 0 ? (uint32_t)i * 2 : (uint32_t)(-(int64_t)i * 2 - 1);
         int      m  = ref_put(zz, ref);
         eosio::fixed_buf_stream f2(buf, sizeof buf);
         to_bin(eosio::varint32(i), f2);
         if (f2.pos - buf != m || memcmp(buf, ref, m)) {
            t.fail("senc:" + std::to_string(i), "encoding " + vh::hexs(buf, f2.pos - buf) + " expected " + vh::hexs(ref, m));
            continue;
         }
         eosio::input_stream in2(buf, m);
         int32_t             sb = ~i;
         eosio::varint32_from_bin(sb, in2);
         if (sb != i || in2.remaining())
            t.fail("sdec:" + std::to_string(i), "decodes to " + std::to_string(sb));
      }
      t.count("nontrivial", step);
   }
   // B. other writers and the ABI path at every length boundary
   Abi abi;
   abi.load(empty_abi);
   auto                  tu = abi.type("varuint32"), ts = abi.type("varint32");
   std::vector<uint32_t> bd;
   for (int i = 0; i <= 32; ++i)
      for (int d = -130; d <= 130; ++d) bd.push_back((uint32_t)((1ull << i) + d));
   if (t.next()) {
      for (auto v : bd) {
         t.count("evaluations");
         unsigned char     ref[8];
         int               n = ref_put(v, ref);
         std::string       want((char*)ref, n);
         std::vector<char> o = { 'x', 'y' };
         eosio::push_varuint32(o, v);
         std::vector<char> o2;
         eosio::vector_stream vs(o2);
         eosio::varuint32_to_bin(v, vs);
         if (str(o) != "xy" + want || str(o2) != want || str(eosio::convert_to_bin(eosio::varuint32(v))) != want)
            t.fail("push:" + std::to_string(v), vh::hexs(o));
         Res a = enc(tu, std::to_string(v)), b = encr(tu, std::to_string(v)), d = dec(tu, want);
         if (!a.ok || a.v != want || !b.ok || b.v != want || !d.ok || d.v != std::to_string(v))
            t.fail("abi:" + std::to_string(v), a.ok ? vh::hexs(a.v) + " " + d.v : a.err);
         int32_t  i  = (int32_t)v;
         uint32_t zz = i >= 0 ? (uint32_t)i * 2 : (uint32_t)(-(int64_t)i * 2 - 1);
         n           = ref_put(zz, ref);
         want        = std::string((char*)ref, n);
         a = enc(ts, std::to_string(i)), b = encr(ts, std::to_string(i)), d = dec(ts, want);
         if (!a.ok || a.v != want || !b.ok || b.v != want || !d.ok || d.v != std::to_string(i))
            t.fail("abis:" + std::to_string(i), a.ok ? vh::hexs(a.v) + " " + d.v : a.err);
         if (str(eosio::convert_to_bin(eosio::varint32(i))) != want)
            t.fail("cbin:" + std::to_string(i), "");
      }
      // values above 32 bits cannot be written
      for (uint64_t v : { 1ull << 32, (1ull << 32) + 1, 1ull << 33, 1ull << 63, ~0ull, (1ull << 35) - 1, 0xffffffff00000000ull }) {
         bool threw = false;
         try {
            eosio::size_stream ss;
            eosio::varuint32_to_bin(v, ss);
         } catch (std::exception&) { threw = true; }
         t.ok(threw, "big:" + std::to_string(v), "value above 32 bits was written");
      }
   }
   // C. decoding every byte string: all of length 0..2 (3 thorough), then an alphabet up to length 11 for the tail
   auto one = [&](const unsigned char* p, int n) {
      t.count("evaluations");
      std::unique_ptr<char[]> buf(new char[n ? n : 1]);
      memcpy(buf.get(), p, n);
      for (int kind = 0; kind < 3; ++kind) {
         uint64_t want;
         int      used = ref_get(p, n, kind == 1 ? 10 : 5, want);
         eosio::input_stream in(buf.get(), n);
         bool                threw = false;
         uint64_t            got   = 0;
         try {
            if (kind == 0) {
               uint32_t x;
               eosio::varuint32_from_bin(x, in);
               got = x;
            } else if (kind == 1)
               eosio::varuint64_from_bin(got, in);
            else {
               int32_t x;
               eosio::varint32_from_bin(x, in);
               got = (uint32_t)x;
            }
         } catch (std::exception&) { threw = true; }
         if (kind != 1)
            want &= 0xffffffffu;
         if (kind == 2)
            want = (want & 1) ? (uint32_t)(-(int64_t)(want / 2) - 1) : want / 2;
         if (threw != (used < 0) || (!threw && (got != want || in.pos != buf.get() + used)))
            t.fail("bytes" + std::to_string(kind) + ":" + vh::hexs(p, n),
                   threw ? "refused" : "value " + std::to_string(got) + " after " + std::to_string(in.pos - buf.get()) + " bytes, expected " + std::to_string(used) + "/" + std::to_string(want));
      }
      t.distinct("nontrivial", vh::fnv(p, n));
   };
   unsigned char p[16];
   if (t.next()) {
      one(p, 0);
      for (int i = 0; i < 256; ++i) {
         p[0] = i;
         one(p, 1);
      }
   }
   for (int i = 0; i < 256; ++i) {
      if (!t.next())
         continue;
      for (int j = 0; j < 256; ++j) {
         p[0] = i, p[1] = j;
         one(p, 2);
         if (t.thorough())
            for (int k = 0; k < 256; ++k) {
               p[2] = k;
               one(p, 3);
            }
      }
   }
   // continuation prefixes of every length with every last byte and every kind of filler
   for (int len = 3; len <= 12; ++len) {
      const unsigned char fill[] = { 0x80, 0x81, 0xff, 0xfe, 0xaa };
      int                 combos = 1;
      int                 free_  = std::min(len - 1, t.thorough() ? 6 : 5);
      for (int i = 0; i < free_; ++i) combos *= 5;
      if (!t.next())
         continue;
      for (int c = 0; c < combos; ++c) {
         int x = c;
         for (int i = 0; i < len - 1; ++i) {
            p[i] = i < len - 1 - free_ ? 0xff : fill[x % 5];
            if (i >= len - 1 - free_)
               x /= 5;
         }
         for (int l : { 0x00, 0x01, 0x02, 0x03, 0x07, 0x08, 0x0f, 0x10, 0x1f, 0x3f, 0x40, 0x7f, 0x80, 0xff }) {
            p[len - 1] = l;
            one(p, len);
         }
      }
   }
   t.sample("value 268435456 -> 8080808001");
   t.sample("bytes ffffffffff (refused)");
}
VH_MAIN(run)
