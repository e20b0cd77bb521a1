// C22: fixed-size byte values: the same byte sequence in every representation.
#include "vh.hpp"
#include "lib.hpp"
#include <eosio/fixed_bytes.hpp>
#include <eosio/float.hpp>
#include <eosio/to_key.hpp>
#include <eosio/crypto.hpp>
using namespace lib;
using Bytes = std::vector<uint8_t>;

template <typename T>
static std::vector<T> ref_words(const Bytes& b) { // first byte in the most significant place
   size_t         w = sizeof(T), n = (b.size() + w - 1) / w;
   std::vector<T> r(n);
   for (size_t i = 0; i < n; ++i) {
      T x = 0;
      for (size_t j = 0; j < w; ++j) {
         uint8_t c = i * w + j < b.size() ? b[i * w + j] : 0;
         x         = (T)((unsigned __int128)x * 256 + c);
      }
      r[i] = x;
   }
   return r;
}
template <typename FB, size_t Size>
static std::string bytes_of(const FB& v) {
   auto a = v.extract_as_byte_array();
   return std::string((const char*)a.data(), a.size());
}

template <typename FB, size_t Size, typename T, size_t N>
static void from_words(vh::T& t, const Bytes& b, const std::string& key) {
   // first N words only; the remaining bytes are zero
   auto w = ref_words<T>(b);
   if (N > w.size())
      return;
   std::array<T, N> a;
   T                c[N];
   for (size_t i = 0; i < N; ++i) c[i] = a[i] = w[i];
   std::string want(b.begin(), b.end());
   for (size_t i = N * sizeof(T); i < Size; ++i) want[i] = 0;
   t.count("evaluations", 2);
   FB x(a), y(c);
   t.ok(bytes_of<FB, Size>(x) == want, "arr" + key, "from array of " + std::to_string(N) + " words of " + std::to_string(sizeof(T)) + ": " + vh::hexs(bytes_of<FB, Size>(x)) + " expected " + vh::hexs(want));
   t.ok(bytes_of<FB, Size>(y) == want, "carr" + key, "from C array of " + std::to_string(N) + " words of " + std::to_string(sizeof(T)) + ": " + vh::hexs(bytes_of<FB, Size>(y)) + " expected " + vh::hexs(want));
}
template <typename FB, size_t Size, typename T, size_t... I>
static FB make_seq(const std::vector<T>& w, std::index_sequence<I...>) {
   return FB::template make_from_word_sequence<T>(w[I]...);
}
template <typename FB, size_t Size, typename T>
static void with_word(vh::T& t, const Bytes& b, const FB& v, const std::string& key) {
   constexpr size_t n = (Size + sizeof(T) - 1) / sizeof(T);
   auto             w = ref_words<T>(b);
   auto             x = v.template extract_as_word_array<T>();
   t.count("evaluations", 2);
   bool same = x.size() == n;
   for (size_t i = 0; same && i < n; ++i) same = x[i] == w[i];
   t.ok(same, "extract" + key, "words of " + std::to_string(sizeof(T)) + " bytes of " + vh::hexs(std::string(b.begin(), b.end())));
   FB y(x);
   t.ok(y == v && bytes_of<FB, Size>(y) == std::string(b.begin(), b.end()), "rebuild" + key, "rebuilt from words of " + std::to_string(sizeof(T)));
   if (sizeof(T) <= 8) {
      FB z = make_seq<FB, Size, T>(w, std::make_index_sequence<n>());
      t.ok(z == v, "seq" + key, "from word sequence of width " + std::to_string(sizeof(T)));
   }
   from_words<FB, Size, T, n>(t, b, key);
   if constexpr (n > 1) {
      from_words<FB, Size, T, n - 1>(t, b, key);
      from_words<FB, Size, T, 1>(t, b, key);
      from_words<FB, Size, T, (n + 1) / 2>(t, b, key);
   }
}

template <size_t Size, typename W>
static void one(vh::T& t, const Bytes& b) {
   using FB = eosio::fixed_bytes<Size, W>;
   std::array<uint8_t, Size> a;
   std::copy(b.begin(), b.end(), a.begin());
   std::string raw(b.begin(), b.end());
   std::string key = ":" + std::to_string(Size) + "/" + std::to_string(sizeof(W)) + ":" + vh::hexs(raw);
   FB          v(a);
   t.ok(bytes_of<FB, Size>(v) == raw, "bytes" + key, "byte array gives " + vh::hexs(bytes_of<FB, Size>(v)));
   auto w = ref_words<W>(b);
   bool same = v.size() == w.size() && v.get_array().size() == w.size();
   for (size_t i = 0; same && i < w.size(); ++i) same = v.data()[i] == w[i] && v.get_array()[i] == w[i];
   t.ok(same, "data" + key, "stored words");
   t.ok(FB::num_words() == w.size() && FB::padded_bytes() == w.size() * sizeof(W) - Size, "sizes" + key, "num_words, padded_bytes");
   with_word<FB, Size, uint8_t>(t, b, v, key);
   with_word<FB, Size, uint16_t>(t, b, v, key);
   with_word<FB, Size, uint32_t>(t, b, v, key);
   with_word<FB, Size, uint64_t>(t, b, v, key);
   with_word<FB, Size, unsigned __int128>(t, b, v, key);
   t.count("evaluations", 4);
   // binary, key, JSON
   auto bin = eosio::convert_to_bin(v);
   t.ok(str(bin) == raw, "bin" + key, "binary " + vh::hexs(bin));
   t.ok(str(eosio::convert_to_key(v)) == raw, "key" + key, "sort key " + vh::hexs(eosio::convert_to_key(v)));
   auto r = attempt([&] { return str(eosio::convert_to_bin(eosio::convert_from_bin<FB>(bin))); });
   t.ok(r.ok && r.v == raw, "frombin" + key, "from binary " + vh::hexs(r.v));
   FB old; // assigned over another value
   memset(old.data(), 0x5a, sizeof(W) * old.size());
   {
      eosio::input_stream s(bin.data(), bin.size());
      from_bin(old, s);
      t.ok(old == v && s.remaining() == 0, "frombin2" + key, "decoded over another value");
   }
   auto js = eosio::convert_to_json(v);
   std::string H = vh::hexs(raw);
   std::string U = H;
   for (auto& c : U) c = toupper(c);
   t.ok(js.size() == H.size() + 2 && strcasecmp(js.c_str(), q(H).c_str()) == 0, "json" + key, "JSON " + js);
   for (auto& text : { q(H), q(U) }) {
      auto p = njson<FB>(text);
      t.ok(p.ok && p.v == raw, "parse" + key, "from " + text + ": " + vh::hexs(p.v) + p.err);
   }
   t.distinct("nontrivial", vh::fnv(raw, Size * 16 + sizeof(W)));
   if (t.samples.size() < 3)
      t.sample("fixed_bytes<" + std::to_string(Size) + "," + std::to_string(8 * sizeof(W)) + " bits> " + H);
}

template <size_t Size, typename W>
static void lists(vh::T& t) {
   using FB = eosio::fixed_bytes<Size, W>;
   auto chk = [&](const FB& v, std::initializer_list<uint8_t> il) {
      std::string want(Size, 0);
      size_t      i = 0;
      for (auto c : il) {
         if (i >= Size)
            break;
         want[i++] = c;
      }
      t.count("evaluations");
      t.ok(bytes_of<FB, Size>(v) == want, "list:" + std::to_string(Size) + "/" + std::to_string(sizeof(W)) + ":" + std::to_string(il.size()), "list of " + std::to_string(il.size()) + " bytes gives " + vh::hexs(bytes_of<FB, Size>(v)));
   };
#define L(...)                                                                                                        \
   if (std::initializer_list<uint8_t>{ __VA_ARGS__ }.size() <= Size)                                                  \
      chk(FB(std::initializer_list<uint8_t>{ __VA_ARGS__ }), { __VA_ARGS__ });
   L() L(1) L(255) L(1, 2) L(1, 2, 3) L(1, 2, 3, 4) L(1, 2, 3, 4, 5) L(1, 2, 3, 4, 5, 6) L(1, 2, 3, 4, 5, 6, 7) L(1, 2, 3, 4, 5, 6, 7, 8)
   L(9, 8, 7, 6, 5, 4, 3, 2, 1) L(200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215)
   L(200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216)
   L(200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219)
   L(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32)
   FB d;
   t.ok(bytes_of<FB, Size>(d) == std::string(Size, 0), "default:" + std::to_string(Size), "default value is not zero");
}

static int sgn(int x) { return x < 0 ? -1 : x > 0; }

template <size_t Size, typename W>
static void compare(vh::T& t, const std::vector<Bytes>& vals, size_t step) {
   using FB = eosio::fixed_bytes<Size, W>;
   std::vector<FB> fs;
   for (auto& b : vals) {
      std::array<uint8_t, Size> a;
      std::copy(b.begin(), b.end(), a.begin());
      fs.push_back(FB(a));
   }
   for (size_t i = 0; i < vals.size(); i += step)
      for (size_t j = 0; j < vals.size(); ++j) {
         int c = sgn(memcmp(vals[i].data(), vals[j].data(), Size));
         const FB &x = fs[i], &y = fs[j];
         int got = (x == y) | (x != y) << 1 | (x < y) << 2 | (x > y) << 3 | (x <= y) << 4 | (x >= y) << 5;
         int want = (c == 0) | (c != 0) << 1 | (c < 0) << 2 | (c > 0) << 3 | (c <= 0) << 4 | (c >= 0) << 5;
         t.count("evaluations");
         if (got != want)
            t.fail("cmp:" + std::to_string(Size) + "/" + std::to_string(sizeof(W)) + ":" + std::to_string(i) + "," + std::to_string(j),
                   "comparing " + vh::hexs(std::string(vals[i].begin(), vals[i].end())) + " and " + vh::hexs(std::string(vals[j].begin(), vals[j].end())) + " operators " + std::to_string(got) + " expected " + std::to_string(want));
      }
}

template <size_t Size>
static std::vector<Bytes> patterns(bool all, bool pairs) {
   std::vector<Bytes> r;
   Bytes              z(Size, 0), f(Size, 0xff), s(Size), u(Size);
   for (size_t i = 0; i < Size; ++i) {
      s[i] = i + 1;
      u[i] = 0xff - 7 * i;
   }
   r = { z, f, s, u };
   for (size_t i = 0; i < Size; ++i)
      for (int c = all ? 1 : 1; c < 256; c = all ? c + 1 : (c == 1 ? 0x10 : c == 0x10 ? 0x7f : c == 0x7f ? 0x80 : c == 0x80 ? 0xff : 256)) {
         for (auto base : { z, f, s }) {
            base[i] = c;
            r.push_back(base);
         }
      }
   if (pairs)
      for (size_t i = 0; i < Size; ++i)
         for (size_t j = i + 1; j < Size; ++j)
            for (int a : { 1, 0x80, 0xff })
               for (int b : { 1, 0x80, 0xff }) {
                  Bytes x = z;
                  x[i]    = a;
                  x[j]    = b;
                  r.push_back(x);
               }
   return r;
}

template <size_t Size, typename W>
static void all_for(vh::T& t) {
   std::string h = std::to_string(Size) + "/" + std::to_string(sizeof(W));
   auto        ps = patterns<Size>(true, true);
   for (size_t i = 0; i < ps.size(); i += 64)
      if (t.next()) {
         t.desc("values " + h);
         for (size_t j = i; j < std::min(i + 64, ps.size()); ++j) one<Size, W>(t, ps[j]);
      }
   if (t.next())
      lists<Size, W>(t);
   auto cs = patterns<Size>(false, t.thorough());
   size_t parts = t.thorough() ? 16 : 4;
   for (size_t i = 0; i < parts; ++i)
      if (t.next()) {
         t.desc("compare " + h);
         std::vector<Bytes> rot(cs.begin(), cs.end());
         std::rotate(rot.begin(), rot.begin() + i, rot.end());
         compare<Size, W>(t, rot, parts);
      }
}

// Hex texts, natively and through an ABI.
template <size_t Size, typename FB>
static void texts(vh::T& t, const char* abitype) {
   Abi a;
   a.load(empty_abi);
   auto ty  = a.type(abitype);
   auto one = [&](const std::string& s, const std::string& key) {
      std::string want, doc;
      auto        nib = [](char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; };
      bool        ok  = s.size() == 2 * Size;
      for (size_t i = 0; ok && i + 1 < s.size(); i += 2) {
         int h = nib(s[i]), l = nib(s[i + 1]);
         if (h < 0 || l < 0)
            ok = false;
         else
            want += char(h * 16 + l);
      }
      doc = "\"";
      bool utf = true;
      for (unsigned char c : s) {
         char buf[8];
         if (c >= 128)
            utf = false;
         if (c < 32 || c == '"' || c == '\\') {
            snprintf(buf, sizeof buf, "\\u%04x", c);
            doc += buf;
         } else
            doc += c;
      }
      doc += '"';
      if (!utf && ok)
         return;
      t.count("evaluations", 3);
      auto n = njson<FB>(doc), e = enc(ty, doc), r = encr(ty, doc);
      auto bad = [&](const char* how, const Res& x) {
         if (x.ok != ok || (ok && x.v != want))
            t.fail(std::string(how) + ":" + abitype + ":" + key, std::string(how) + " of " + vh::cut(doc) + (x.ok ? " accepted as " + vh::hexs(x.v) : " refused: " + x.err) + ", expected " + (ok ? vh::hexs(want) : "refusal"));
      };
      bad("native", n);
      bad("in-order", e);
      bad("reorderable", r);
      if (ok) {
         t.distinct("nontrivial", vh::fnv(s));
         auto d = dec(ty, want);
         std::string low = s;
         t.ok(d.ok && d.v.size() == s.size() + 2 && strcasecmp(d.v.c_str(), q(s).c_str()) == 0, std::string("decode:") + abitype + ":" + key, "decoded as " + d.v);
         t.ok(!dec(ty, want.substr(1)).ok && !dec(ty, want + "x").ok, std::string("length:") + abitype + ":" + key, "binary of another length accepted");
      }
   };
   std::string base;
   for (size_t i = 0; i < 2 * Size; ++i) base += "0123456789abcdefABCDEF"[(i * 7 + 3) % 22];
   for (size_t n = 0; n <= 4 * Size + 4; ++n)
      if (t.next()) {
         std::string s;
         while (s.size() < n) s += base;
         s.resize(n);
         one(s, "len" + std::to_string(n));
      }
   for (size_t i = 0; i < 2 * Size; ++i)
      if (t.next())
         for (int c = 0; c < 256; ++c) {
            auto s = base;
            s[i]   = c;
            one(s, "char" + std::to_string(i) + "," + std::to_string(c));
         }
   for (size_t i = 0; i <= 2 * Size; ++i)
      if (t.next())
         for (int c : { '0', 'a', 'x', ' ', '-', '+' }) {
            auto s = base;
            s.insert(i, 1, c);
            one(s, "ins" + std::to_string(i) + "," + std::to_string(c));
            if (i < base.size()) {
               s.erase(i + 1 < s.size() ? i + 1 : i, 1);
               one(s, "rep" + std::to_string(i) + "," + std::to_string(c));
               s.erase(i < s.size() ? i : 0, 1);
               one(s, "del" + std::to_string(i));
            }
         }
   for (std::string pre : { "0x", "0X", " ", "\t", "\\x" })
      if (t.next()) {
         one(pre + base, "pre" + pre);
         one(pre + base.substr(pre.size()), "pre2" + pre);
         one(base + pre, "post" + pre);
         one(base.substr(pre.size()) + pre, "post2" + pre);
      }
   for (std::string doc : { "0", "1234", "null", "true", "[]", "{}", "[0]", "" })
      if (t.next()) {
         t.count("evaluations", 3);
         t.ok(!njson<FB>(doc).ok && !enc(ty, doc).ok && !encr(ty, doc).ok, std::string("kind:") + abitype + doc, "not a string: " + doc);
      }
}

static void run(vh::T& t) {
#if PART == 0
   all_for<1, uint8_t>(t);
   all_for<4, uint64_t>(t);
   all_for<9, uint64_t>(t);
   all_for<16, unsigned __int128>(t);
   all_for<20, uint16_t>(t);
#endif
#if PART == 1
   all_for<1, uint64_t>(t);
   all_for<5, uint16_t>(t);
   all_for<13, uint32_t>(t);
   all_for<17, unsigned __int128>(t);
   all_for<32, uint64_t>(t);
#endif
#if PART == 2
   all_for<2, uint32_t>(t);
   all_for<7, uint32_t>(t);
   all_for<16, uint64_t>(t);
   all_for<20, uint32_t>(t);
   all_for<32, uint32_t>(t);
#endif
#if PART == 3
   all_for<3, uint16_t>(t);
   all_for<8, uint64_t>(t);
   all_for<16, uint8_t>(t);
   all_for<20, uint64_t>(t);
   all_for<64, uint64_t>(t);
#endif
#if PART == 4
   texts<16, eosio::float128>(t, "float128");
   texts<20, eosio::checksum160>(t, "checksum160");
   texts<32, eosio::checksum256>(t, "checksum256");
   texts<64, eosio::checksum512>(t, "checksum512");
#endif
#if PART == 5
   if (t.thorough()) {
      all_for<6, uint64_t>(t);
      all_for<10, uint64_t>(t);
      all_for<11, uint32_t>(t);
      all_for<15, uint64_t>(t);
      all_for<31, uint64_t>(t);
      all_for<32, uint8_t>(t);
      all_for<32, uint16_t>(t);
      all_for<32, unsigned __int128>(t);
      all_for<33, uint64_t>(t);
      all_for<64, uint32_t>(t);
   }
#endif
}
VH_MAIN(run)
