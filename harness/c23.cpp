// C23: sort keys.  For each type of a family generated by nesting containers, all values of a bounded domain are sorted by a reference
// order written here; neighbours in that order must have keys in strictly the same order, equal only for equal values, none a prefix of
// the next.  (Order, equality and prefix-freedom of all pairs follow, since all three relations carry over from neighbours.)
#include "vh.hpp"
#include "lib.hpp"
#include "dom.hpp"

// ---- the check --------------------------------------------------------------------------------------------------------------------
template <typename T>
void check_type(vh::T& t, const char* name) {
   if (!t.next())
      return;
   t.desc(name);
   std::vector<T> v = dom<T>();
   std::stable_sort(v.begin(), v.end(), Less<T>{});
   std::string prev;
   t.count("types");
   for (size_t i = 0; i < v.size(); ++i) {
      const T& x = v[i];
      t.count("evaluations");
      std::string       key = lib::str(eosio::convert_to_key(x));
      std::vector<char> more{ 'x', 'y', 'z' };
      eosio::convert_to_key(x, more);
      eosio::size_stream ss;
      to_key(x, ss);
      std::vector<char>    vs;
      eosio::vector_stream vst(vs);
      to_key(x, vst);
      std::string k = std::string(name) + ":" + std::to_string(i) + ":" + vh::cut(vh::hexs(key), 60);
      if (ss.size != key.size() || lib::str(vs) != key || lib::str(more) != "xyz" + key)
         t.fail("write:" + k, std::string(name) + ": size " + std::to_string(ss.size) + ", fixed buffer " + vh::hexs(key) + ", growing buffer " + vh::hexs(vs) + ", appended " + vh::hexs(more));
      if (i) {
         int c = cmp<T>(v[i - 1], x), d = prev.compare(key);
         d     = d < 0 ? -1 : d > 0;
         if (c != d)
            t.fail("order:" + k, std::string(name) + ": value comparison " + std::to_string(c) + " but keys " + vh::cut(vh::hexs(prev), 200) + " and " + vh::cut(vh::hexs(key), 200) + " compare " + std::to_string(d));
         else if (d && key.compare(0, prev.size(), prev) == 0)
            t.fail("prefix:" + k, std::string(name) + ": key " + vh::cut(vh::hexs(prev), 200) + " is a prefix of " + vh::cut(vh::hexs(key), 200));
         if (d)
            t.distinct("nontrivial", vh::fnv(key, vh::fnv(name)));
      }
      prev = key;
   }
   if (v.size() > 3)
      t.sample(std::string(name) + ": " + std::to_string(v.size()) + " values, key of the middle one " + vh::hexs(lib::str(eosio::convert_to_key<T>(v[v.size() / 2]))));
}
// Consecutive values of a 32-bit domain, in blocks.
template <typename T, typename F>
void consecutive(vh::T& t, const char* name, uint64_t lo, uint64_t hi, F make) {
   const uint64_t step = 1 << 18;
   for (uint64_t b = lo; b < hi; b += step) {
      if (!t.next())
         continue;
      t.desc(std::string(name) + " from " + std::to_string(b));
      char     bufs[2][32];
      size_t   n[2] = { 0, 0 };
      uint64_t e    = std::min(hi, b + step + 1);
      T        prev{};
      for (uint64_t x = b; x < e; ++x) {
         T                       v = make((uint32_t)x);
         int                     c = x & 1;
         eosio::fixed_buf_stream s(bufs[c], 32);
         to_key(v, s);
         n[c] = s.pos - bufs[c];
         if (x > b) {
            int want = cmp(prev, v);
            int got  = memcmp(bufs[!c], bufs[c], std::min(n[0], n[1]));
            if (!got)
               got = num(n[!c], n[c]);
            got      = got < 0 ? -1 : got > 0;
            bool pre = want && memcmp(bufs[0], bufs[1], std::min(n[0], n[1])) == 0;
            if (want != got || pre)
               t.fail(std::string("seq:") + name + ":" + std::to_string(x), std::string(name) + " number " + std::to_string(x) + " after " + vh::hexs(bufs[!c], n[!c]) + " has key " + vh::hexs(bufs[c], n[c]));
         }
         prev = v;
      }
      t.count("evaluations", e - b);
   }
}
template <typename T, size_t N, typename S = std::make_index_sequence<N>>
struct many_;
template <typename T, size_t N, size_t... I>
struct many_<T, N, std::index_sequence<I...>> {
   template <size_t>
   using one = T;
   using type = std::variant<one<I>...>;
};
// A variant of N alternatives of type T: the given values (ascending) in the given alternatives (ascending).
template <typename T, size_t N, size_t... I>
void wide_variant(vh::T& t, const char* name, const std::vector<T>& vals, std::index_sequence<I...>) {
   if (!t.next())
      return;
   t.desc(name);
   using V = typename many_<T, N>::type;
   std::vector<V>      v;
   std::vector<size_t> ix;
   auto                all = [&](auto i) {
      for (auto& x : vals) v.emplace_back(std::in_place_index<decltype(i)::value>, x), ix.push_back(decltype(i)::value);
   };
   (all(std::integral_constant<size_t, I>{}), ...);
   std::string prev;
   for (size_t i = 0; i < v.size(); ++i) {
      std::string        key = lib::str(eosio::convert_to_key(v[i])), elem = lib::str(eosio::convert_to_key(std::vector<V>{ v[i] }));
      std::string        k   = std::string(name) + ":" + std::to_string(ix[i]) + ":" + vh::hexs(key);
      eosio::size_stream ss;
      to_key(v[i], ss);
      t.count("evaluations");
      t.distinct("nontrivial", vh::fnv(key, vh::fnv(name)));
      if (ss.size != key.size() || elem.find(key) == std::string::npos)
         t.fail("write:" + k, "size " + std::to_string(ss.size) + ", in a vector " + vh::hexs(elem));
      if (i && !(prev < key))
         t.fail("order:" + k, "not after " + vh::hexs(prev));
      if (i && key.compare(0, prev.size(), prev) == 0)
         t.fail("prefix:" + k, "begins with " + vh::hexs(prev));
      prev = key;
   }
}
#define C(...) check_type<__VA_ARGS__>(t, #__VA_ARGS__)

template <template <typename> class W>
struct Each {};
#define UNARY(X)                                                                                                       \
   C(std::vector<X>);                                                                                                  \
   C(std::optional<X>);                                                                                                \
   C(std::list<X>);                                                                                                    \
   C(std::deque<X>);                                                                                                   \
   C(std::array<X, 2>);                                                                                                \
   C(std::set<X>);                                                                                                     \
   C(rec1<X>);                                                                                                         \
   C(std::variant<X>);                                                                                                 \
   C(std::tuple<X>);
#define UNARY2(X)                                                                                                      \
   C(std::vector<X>);                                                                                                  \
   C(std::optional<X>);                                                                                                \
   C(std::deque<X>);                                                                                                   \
   C(rec1<X>);                                                                                                         \
   C(std::set<X>);
#define BINARY(X, Y)                                                                                                   \
   C(std::pair<X, Y>);                                                                                                 \
   C(std::tuple<X, Y>);                                                                                                \
   C(std::variant<X, Y>);                                                                                              \
   C(rec2<X, Y>);                                                                                                      \
   C(derived<X, Y>);                                                                                                   \
   C(std::map<X, Y>);

using str = std::string;
static void run(vh::T& t) {
   if (t.thorough()) {
      size_t l[4] = { 300, 40, 12, 5 };
      std::copy(l, l + 4, g_level);
   }
#if PART == 0
   C(bool); C(int8_t); C(uint8_t); C(char); C(int16_t); C(uint16_t); C(int32_t); C(uint32_t); C(int64_t); C(uint64_t); C(__int128); C(unsigned __int128);
   C(float); C(double); C(str); C(eu8); C(es8); C(eu16); C(es16); C(es32); C(eu64); C(ebool); C(empty_t); C(member_fn); C(with_base);
   C(eosio::name); C(eosio::symbol_code); C(eosio::symbol); C(eosio::varuint32); C(eosio::time_point); C(eosio::microseconds); C(eosio::time_point_sec); C(eosio::block_timestamp);
   C(eosio::checksum160); C(eosio::checksum256); C(eosio::checksum512); C(eosio::float128); C(eosio::asset); C(eosio::extended_asset); C(eosio::extended_symbol); C(eosio::bytes);
   C(eosio::public_key); C(eosio::private_key); C(eosio::signature); C(eosio::webauthn_public_key); C(eosio::webauthn_signature);
   C(eosio::ecc_public_key); C(eosio::ecc_signature);
   C(std::vector<eosio::bytes>); C(std::vector<eosio::public_key>); C(std::optional<eosio::asset>); C(std::vector<eosio::checksum160>); C(std::vector<eosio::time_point_sec>); C(std::optional<eosio::varuint32>);
   C(std::vector<eosio::varuint32>); C(std::pair<eosio::varuint32, str>); C(std::vector<empty_t>); C(std::optional<empty_t>); C(std::vector<member_fn>); C(std::optional<with_base>);
   C(std::array<int, 0>); C(std::tuple<>); C(std::vector<std::tuple<>>); C(std::optional<std::array<int, 0>>); C(std::tuple<uint8_t, str, int16_t>); C(std::tuple<str, std::optional<bool>, str>);
   {
      // consecutive values of one-word types
      auto ranges = [&](auto f) {
         if (t.thorough())
            f(0, 1ull << 32);
         else {
            f(0, 1 << 22);
            for (int i = 22; i <= 32; ++i) f((1ull << i) - 70000, std::min<uint64_t>((1ull << i) + 70000, 1ull << 32));
         }
      };
      ranges([&](uint64_t a, uint64_t b) { consecutive<eosio::varuint32>(t, "varuint32", a, b, [](uint32_t x) { return eosio::varuint32(x); }); });
      ranges([&](uint64_t a, uint64_t b) { consecutive<int32_t>(t, "int32", a, b, [](uint32_t x) { return (int32_t)(x ^ 0x80000000u); }); });
      ranges([&](uint64_t a, uint64_t b) { consecutive<uint32_t>(t, "uint32", a, b, [](uint32_t x) { return x; }); });
      // floats in ascending order: negative patterns reversed
      ranges([&](uint64_t a, uint64_t b) {
         consecutive<float>(t, "float32", a, b, [](uint32_t x) {
            uint32_t u = x < 0x80000000u ? ~x : x - 0x80000000u;
            if ((u & 0x7f800000) == 0x7f800000 && (u & 0x7fffff))
               u &= 0xff800000;
            float f;
            memcpy(&f, &u, 4);
            return f;
         });
      });
      consecutive<double>(t, "float64 high bits", 0, t.thorough() ? 1 << 30 : 1 << 22, [&](uint32_t x) {
         uint64_t u = (uint64_t)x << (t.thorough() ? 34 : 42);
         u          = u < (1ull << 63) ? ~u : u - (1ull << 63);
         if ((u & 0x7ff0000000000000ull) == 0x7ff0000000000000ull)
            u &= 0xfff0000000000000ull;
         double f;
         memcpy(&f, &u, 8);
         return f;
      });
   }
#elif PART == 1
   UNARY(bool) UNARY(int8_t) UNARY(uint8_t) UNARY(char)
#elif PART == 2
   UNARY(uint16_t) UNARY(int64_t) UNARY(double) UNARY(str) UNARY(float)
#elif PART == 3
   UNARY(eu8) UNARY(es8) UNARY(es16) UNARY(ebool) UNARY(eosio::name) UNARY(__int128) UNARY(eosio::time_point)
#elif PART == 4
   UNARY2(std::vector<bool>) UNARY2(std::vector<uint8_t>) UNARY2(std::vector<int8_t>) UNARY2(std::vector<str>) UNARY2(std::vector<double>) UNARY2(std::vector<uint16_t>)
   UNARY2(std::set<uint8_t>) UNARY2(std::deque<bool>) UNARY2(std::list<es8>)
#elif PART == 5
   UNARY2(std::optional<bool>) UNARY2(std::optional<uint8_t>) UNARY2(std::optional<int8_t>) UNARY2(std::optional<str>) UNARY2(std::optional<int32_t>) UNARY2(std::optional<float>) UNARY2(std::optional<empty_t>)
   UNARY2(rec1<bool>) UNARY2(rec1<uint8_t>) UNARY2(rec1<str>)
#elif PART == 6
   BINARY(bool, uint8_t) BINARY(uint8_t, str) BINARY(str, uint8_t) BINARY(str, str) BINARY(int16_t, double) BINARY(double, bool)
#elif PART == 7
   BINARY(std::vector<uint8_t>, bool) BINARY(std::optional<bool>, str) BINARY(str, std::vector<str>) BINARY(std::vector<bool>, std::vector<int8_t>)
   BINARY(std::optional<uint8_t>, std::optional<uint8_t>) C(std::map<uint8_t, std::map<uint8_t, bool>>); C(std::vector<std::map<str, uint8_t>>);
   C(std::optional<std::optional<std::optional<bool>>>); C(std::vector<std::vector<std::vector<uint8_t>>>); C(std::vector<std::optional<std::vector<bool>>>);
   C(std::variant<bool, uint8_t, str, std::vector<uint8_t>, std::optional<int8_t>>); C(std::vector<std::variant<bool, str>>); C(std::optional<std::variant<uint8_t, str>>);
   C(std::vector<std::pair<uint8_t, uint8_t>>); C(std::vector<std::tuple<bool, str>>); C(std::vector<rec2<uint8_t, std::vector<bool>>>); C(std::vector<std::array<uint8_t, 2>>);
#elif PART == 8
   wide_variant<uint8_t, 300>(t, "variant of 300 uint8", std::vector<uint8_t>{ 0, 1, 127, 128, 255 }, std::index_sequence<0, 1, 2, 62, 63, 64, 126, 127, 128, 129, 254, 255, 256, 257, 298, 299>{});
#endif
}
VH_MAIN(run)
