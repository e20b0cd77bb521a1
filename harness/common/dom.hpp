// Bounded value domains and reference order of a family of C++ types built by nesting containers.
#pragma once
#include <deque>
#include <eosio/to_key.hpp>
#include <eosio/asset.hpp>
#include <eosio/bytes.hpp>
#include <eosio/crypto.hpp>
#include <eosio/fixed_bytes.hpp>
#include <eosio/float.hpp>
#include <eosio/name.hpp>
#include <eosio/symbol.hpp>
#include <eosio/time.hpp>
#include <eosio/varint.hpp>
#include <list>
#include <map>
#include <optional>
#include <set>
#include <tuple>
#include <variant>

enum class eu8 : uint8_t { a, b };
enum class es8 : int8_t { a, b };
enum class eu16 : uint16_t { a };
enum class es16 : int16_t { a };
enum class es32 : int32_t { a };
enum class eu64 : uint64_t { a };
enum class ebool : bool { a, b };
struct empty_t {};
EOSIO_REFLECT(empty_t);
template <typename A>
struct rec1 {
   A x{};
};
template <typename A, typename B>
struct rec2 {
   A x{};
   B y{};
};
template <typename A, typename B>
struct derived : rec1<A> {
   B y{};
};
template <typename A, typename F>
constexpr void eosio_for_each_field(rec1<A>*, F f) {
   f("x", [](auto p) -> decltype(&std::decay_t<decltype(*p)>::x) { return &std::decay_t<decltype(*p)>::x; });
}
template <typename A, typename B, typename F>
constexpr void eosio_for_each_field(rec2<A, B>*, F f) {
   f("x", [](auto p) -> decltype(&std::decay_t<decltype(*p)>::x) { return &std::decay_t<decltype(*p)>::x; });
   f("y", [](auto p) -> decltype(&std::decay_t<decltype(*p)>::y) { return &std::decay_t<decltype(*p)>::y; });
}
template <typename A, typename B, typename F>
constexpr void eosio_for_each_field(derived<A, B>*, F f) {
   eosio_for_each_field((rec1<A>*)nullptr, f);
   f("y", [](auto p) -> decltype(&std::decay_t<decltype(*p)>::y) { return &std::decay_t<decltype(*p)>::y; });
}
struct member_fn { // reflected member functions have no key
   uint8_t a = 0;
   int     f(int) { return 0; }
   int8_t  b = 0;
};
EOSIO_REFLECT(member_fn, a, f, b);
struct with_base : member_fn {
   std::string c;
};
EOSIO_REFLECT(with_base, base member_fn, c);

// ---- reference order --------------------------------------------------------------------------------------------------------------
template <typename T>
int num(T a, T b) {
   return a < b ? -1 : a > b;
}
template <typename T>
struct Ord;
template <typename T>
int cmp(const T& a, const T& b) {
   return Ord<T>::cmp(a, b);
}
template <typename C>
int lex(const C& a, const C& b) {
   auto i = a.begin(), j = b.begin();
   for (; i != a.end() && j != b.end(); ++i, ++j) {
      using E = std::decay_t<decltype(*i)>;
      if (int c = cmp<E>(*i, *j))
         return c;
   }
   return i == a.end() ? (j == b.end() ? 0 : -1) : 1;
}
template <typename T>
struct Less {
   bool operator()(const T& a, const T& b) const { return cmp(a, b) < 0; }
};
template <typename T>
struct Ord {
   static int cmp(const T& a, const T& b) {
      if constexpr (std::is_enum_v<T>)
         return num((std::underlying_type_t<T>)a, (std::underlying_type_t<T>)b);
      else
         return num(a, b);
   }
};
template <>
struct Ord<std::string> {
   static int cmp(const std::string& a, const std::string& b) {
      for (size_t i = 0; i < a.size() && i < b.size(); ++i)
         if (a[i] != b[i])
            return num((unsigned char)a[i], (unsigned char)b[i]);
      return num(a.size(), b.size());
   }
};
#define BYFIELD(TYPE, EXPR)                                                                                            \
   template <>                                                                                                         \
   struct Ord<TYPE> {                                                                                                  \
      static int cmp(const TYPE& a, const TYPE& b) {                                                                   \
         auto g = [](const TYPE& v) { return EXPR; };                                                                  \
         return num(g(a), g(b));                                                                                       \
      }                                                                                                                \
   };
BYFIELD(eosio::name, (uint64_t)v.value)
BYFIELD(eosio::symbol_code, (uint64_t)v.value)
BYFIELD(eosio::symbol, (uint64_t)v.value)
BYFIELD(eosio::varuint32, (uint32_t)v.value)
BYFIELD(eosio::time_point, (int64_t)v.elapsed._count)
BYFIELD(eosio::microseconds, (int64_t)v._count)
BYFIELD(eosio::time_point_sec, (uint32_t)v.utc_seconds)
BYFIELD(eosio::block_timestamp, (uint32_t)v.slot)
BYFIELD(empty_t, 0)
template <size_t N, typename W>
struct Ord<eosio::fixed_bytes<N, W>> {
   static int cmp(const eosio::fixed_bytes<N, W>& a, const eosio::fixed_bytes<N, W>& b) {
      auto x = a.extract_as_byte_array(), y = b.extract_as_byte_array();
      int  c = memcmp(x.data(), y.data(), N);
      return c < 0 ? -1 : c > 0;
   }
};
template <>
struct Ord<eosio::asset> {
   static int cmp(const eosio::asset& a, const eosio::asset& b) {
      int c = num(a.amount, b.amount);
      return c ? c : ::cmp(a.symbol, b.symbol);
   }
};
template <>
struct Ord<eosio::extended_asset> {
   static int cmp(const eosio::extended_asset& a, const eosio::extended_asset& b) {
      int c = ::cmp(a.quantity, b.quantity);
      return c ? c : ::cmp(a.contract, b.contract);
   }
};
template <>
struct Ord<eosio::extended_symbol> {
   static int cmp(const eosio::extended_symbol& a, const eosio::extended_symbol& b) {
      int c = ::cmp(a.sym, b.sym);
      return c ? c : ::cmp(a.contract, b.contract);
   }
};
template <>
struct Ord<member_fn> {
   static int cmp(const member_fn& a, const member_fn& b) {
      int c = num(a.a, b.a);
      return c ? c : num(a.b, b.b);
   }
};
template <>
struct Ord<with_base> {
   static int cmp(const with_base& a, const with_base& b) {
      int c = Ord<member_fn>::cmp(a, b);
      return c ? c : ::cmp(a.c, b.c);
   }
};
template <typename T>
struct Ord<std::vector<T>> {
   static int cmp(const std::vector<T>& a, const std::vector<T>& b) { return lex(a, b); }
};
template <>
struct Ord<std::vector<bool>> {
   static int cmp(const std::vector<bool>& a, const std::vector<bool>& b) { return a < b ? -1 : b < a; }
};
template <>
struct Ord<eosio::bytes> {
   static int cmp(const eosio::bytes& a, const eosio::bytes& b) { return lex(a.data, b.data); }
};
template <typename T>
struct Ord<std::list<T>> {
   static int cmp(const std::list<T>& a, const std::list<T>& b) { return lex(a, b); }
};
template <typename T>
struct Ord<std::deque<T>> {
   static int cmp(const std::deque<T>& a, const std::deque<T>& b) { return lex(a, b); }
};
template <typename T, size_t N>
struct Ord<std::array<T, N>> {
   static int cmp(const std::array<T, N>& a, const std::array<T, N>& b) { return lex(a, b); }
};
template <typename T>
struct Ord<std::set<T>> {
   static int cmp(const std::set<T>& a, const std::set<T>& b) { return lex(a, b); }
};
template <typename K, typename V>
struct Ord<std::map<K, V>> {
   static int cmp(const std::map<K, V>& a, const std::map<K, V>& b) { return lex(a, b); }
};
template <typename K, typename V>
struct Ord<std::pair<K, V>> {
   static int cmp(const std::pair<K, V>& a, const std::pair<K, V>& b) {
      int c = ::cmp<std::decay_t<K>>(a.first, b.first);
      return c ? c : ::cmp(a.second, b.second);
   }
};
template <typename... Ts>
struct Ord<std::tuple<Ts...>> {
   template <size_t I>
   static int at(const std::tuple<Ts...>& a, const std::tuple<Ts...>& b) {
      if constexpr (I == sizeof...(Ts))
         return 0;
      else {
         int c = ::cmp(std::get<I>(a), std::get<I>(b));
         return c ? c : at<I + 1>(a, b);
      }
   }
   static int cmp(const std::tuple<Ts...>& a, const std::tuple<Ts...>& b) { return at<0>(a, b); }
};
template <typename T>
struct Ord<std::optional<T>> {
   static int cmp(const std::optional<T>& a, const std::optional<T>& b) {
      if (!a || !b)
         return num((bool)a, (bool)b);
      return ::cmp(*a, *b);
   }
};
template <typename... Ts>
struct Ord<std::variant<Ts...>> {
   template <size_t I>
   static int at(const std::variant<Ts...>& a, const std::variant<Ts...>& b) {
      if constexpr (I < sizeof...(Ts)) {
         if (a.index() == I)
            return ::cmp(std::get<I>(a), std::get<I>(b));
         return at<I + 1>(a, b);
      }
      return 0;
   }
   static int cmp(const std::variant<Ts...>& a, const std::variant<Ts...>& b) {
      return a.index() != b.index() ? num(a.index(), b.index()) : at<0>(a, b);
   }
};
template <typename A>
struct Ord<rec1<A>> {
   static int cmp(const rec1<A>& a, const rec1<A>& b) { return ::cmp(a.x, b.x); }
};
template <typename A, typename B>
struct Ord<rec2<A, B>> {
   static int cmp(const rec2<A, B>& a, const rec2<A, B>& b) {
      int c = ::cmp(a.x, b.x);
      return c ? c : ::cmp(a.y, b.y);
   }
};
template <typename A, typename B>
struct Ord<derived<A, B>> {
   static int cmp(const derived<A, B>& a, const derived<A, B>& b) {
      int c = ::cmp(a.x, b.x);
      return c ? c : ::cmp(a.y, b.y);
   }
};
template <>
struct Ord<eosio::webauthn_public_key> {
   static int cmp(const eosio::webauthn_public_key& a, const eosio::webauthn_public_key& b) {
      if (int c = lex(a.key, b.key))
         return c;
      if (int c = num((int)a.user_presence, (int)b.user_presence))
         return c;
      return ::cmp(a.rpid, b.rpid);
   }
};
template <>
struct Ord<eosio::webauthn_signature> {
   static int cmp(const eosio::webauthn_signature& a, const eosio::webauthn_signature& b) {
      if (int c = lex(a.compact_signature, b.compact_signature))
         return c;
      if (int c = lex(a.auth_data, b.auth_data))
         return c;
      return ::cmp(a.client_json, b.client_json);
   }
};

// operators needed by std::set and std::map of library types without a global operator<
template <typename A>
bool operator<(const rec1<A>& a, const rec1<A>& b) {
   return cmp(a, b) < 0;
}
template <typename A, typename B>
bool operator<(const rec2<A, B>& a, const rec2<A, B>& b) {
   return cmp(a, b) < 0;
}
inline bool operator<(const empty_t&, const empty_t&) { return false; }

// ---- value domains ----------------------------------------------------------------------------------------------------------------
inline size_t g_level[4] = { 100, 16, 5, 3 }; // elements used in sequences of length 1-4
inline size_t g_pair = 30, g_single = 300;
template <typename T>
std::vector<T> spread(const std::vector<T>& v, size_t m) {
   if (v.size() <= m)
      return v;
   std::vector<T> r;
   for (size_t i = 0; i < m; ++i) r.push_back(v[i * (v.size() - 1) / (m - 1 ? m - 1 : 1)]);
   return r;
}
template <typename T, typename = void>
struct Dom;
template <typename T>
const std::vector<T>& dom() {
   static const std::vector<T> v = Dom<T>::get();
   return v;
}
template <typename T>
std::vector<T> small(size_t m) {
   return spread<T>(dom<T>(), m);
}
template <typename T>
std::vector<T> int_dom() {
   std::vector<T> r;
   constexpr int  bits = sizeof(T) * 8;
   using U             = std::make_unsigned_t<T>;
   if (bits <= 8) {
      for (int i = 0; i < 256; ++i) r.push_back((T)(U)i);
      return r;
   }
   std::set<U> s;
   for (int i = 0; i < bits; ++i)
      for (int d = -2; d <= 2; ++d) {
         s.insert((U)(((U)1 << i) + (U)d));
         s.insert((U)(~((U)1 << i) + (U)d));
      }
   for (int i = 0; i + 8 <= bits; i += 8)
      for (int c : { 1, 0x7f, 0x80, 0xff }) {
         s.insert((U)c << i);
         s.insert((U) ~((U)c << i));
         s.insert((U)((U)c << i | (U)1 << (bits - 1)));
      }
   for (auto x : s) r.push_back((T)x);
   return r;
}
template <typename T>
struct Dom<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>> {
   static std::vector<T> get() { return int_dom<T>(); }
};
template <>
struct Dom<bool> {
   static std::vector<bool> get() { return { false, true }; }
};
template <typename T>
struct Dom<T, std::enable_if_t<std::is_enum_v<T>>> {
   static std::vector<T> get() {
      std::vector<T> r;
      if constexpr (std::is_same_v<std::underlying_type_t<T>, bool>)
         r = { (T) false, (T) true };
      else
         for (auto x : int_dom<std::underlying_type_t<T>>()) r.push_back((T)x);
      return r;
   }
};
template <typename T>
struct Dom<T, std::enable_if_t<std::is_floating_point_v<T>>> {
   static std::vector<T> get() {
      using U = std::conditional_t<sizeof(T) == 4, uint32_t, uint64_t>;
      std::vector<T> r;
      for (auto u : int_dom<U>()) {
         T x;
         memcpy(&x, &u, sizeof x);
#ifdef DOM_TEXT
         if (x - x == 0)
#else
         if (x == x)
#endif
            r.push_back(x);
      }
      for (double d : { 0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1e-40, -1e-40, 3.0, 1e30, -1e30 }) r.push_back((T)d);
#ifndef DOM_TEXT
      r.push_back(std::numeric_limits<T>::infinity());
      r.push_back(-std::numeric_limits<T>::infinity());
#endif
      r.push_back(std::numeric_limits<T>::denorm_min());
      r.push_back(-std::numeric_limits<T>::denorm_min());
      return r;
   }
};
#ifdef DOM_TEXT // only values that have a text form that reads back
template <>
struct Dom<std::string> {
   static std::vector<std::string> get() {
      std::vector<std::string> al{ "\"", "\\", "/", std::string("\0", 1), "\n", "\x1f", "\x7f", "\xc3\xa9", "\xf0\x9f\x98\x80", "a", "1", "," }, r{ "", "null", "true", "{}", "[\"]", "\\u0041" };
      for (auto& x : al) {
         r.push_back(x);
         for (auto& y : al) r.push_back(x + y);
      }
      return r;
   }
};
#else
template <>
struct Dom<std::string> {
   static std::vector<std::string> get() {
      std::vector<std::string> r{ "" };
      std::string              al("\0\1\2\x7f\x80\xfe\xff" "a", 8);
      for (char a : al) {
         r.push_back(std::string(1, a));
         for (char b : al) {
            r.push_back(std::string{ a, b });
            for (char c : std::string("\0\1\xff", 3)) r.push_back(std::string{ a, b, c });
         }
      }
      return r;
   }
};
#endif
#define DOM64(TYPE, MAKE)                                                                                              \
   template <>                                                                                                         \
   struct Dom<TYPE> {                                                                                                  \
      static std::vector<TYPE> get() {                                                                                 \
         std::vector<TYPE> r;                                                                                          \
         for (auto x : int_dom<uint64_t>()) {                                                                          \
            TYPE v;                                                                                                    \
            MAKE;                                                                                                      \
            r.push_back(v);                                                                                            \
         }                                                                                                             \
         return r;                                                                                                     \
      }                                                                                                                \
   };
#ifdef DOM_TEXT
template <>
struct Dom<eosio::name> {
   static std::vector<eosio::name> get() {
      std::vector<eosio::name> r;
      for (const char* n : { "", "a", "z", "1", "5", "eosio", "eosio.token", "a.b", "zzzzzzzzzzzz", "zzzzzzzzzzzzj", "a...........j", "............1", "111111111111", "abcdefghijkl", "mnopqrstuvwx" }) r.push_back(eosio::name(n));
      return r;
   }
};
template <>
struct Dom<eosio::symbol_code> {
   static std::vector<eosio::symbol_code> get() {
      std::vector<eosio::symbol_code> r;
      for (const char* n : { "A", "Z", "SYS", "AZ", "ZA", "ABCDEFG", "ZZZZZZZ" }) {
         uint64_t x = 0;
         for (size_t i = 0; n[i]; ++i) x |= (uint64_t)n[i] << (8 * i);
         eosio::symbol_code c;
         c.value = x;
         r.push_back(c);
      }
      return r;
   }
};
template <>
struct Dom<eosio::symbol> {
   static std::vector<eosio::symbol> get() {
      std::vector<eosio::symbol> r;
      for (auto& c : dom<eosio::symbol_code>())
         for (int p : { 0, 1, 4, 18 }) {
            eosio::symbol x;
            x.value = c.value << 8 | p;
            r.push_back(x);
         }
      return r;
   }
};
template <>
struct Dom<eosio::time_point> {
   static std::vector<eosio::time_point> get() {
      std::vector<eosio::time_point> r;
      for (int64_t ms : { 0ll, 1ll, 999ll, 1000ll, 1583020799999ll, 1583020800000ll, 951868799500ll, 4107542400001ll, 253402300799999ll }) {
         eosio::time_point t;
         t.elapsed._count = ms * 1000;
         r.push_back(t);
      }
      return r;
   }
};
#else
DOM64(eosio::name, v.value = x)
DOM64(eosio::symbol_code, v.value = x)
DOM64(eosio::symbol, v.value = x)
DOM64(eosio::time_point, v.elapsed._count = x)
#endif
DOM64(eosio::microseconds, v._count = x)
#define DOM32(TYPE, MAKE)                                                                                              \
   template <>                                                                                                         \
   struct Dom<TYPE> {                                                                                                  \
      static std::vector<TYPE> get() {                                                                                 \
         std::vector<TYPE> r;                                                                                          \
         for (auto x : int_dom<uint32_t>()) {                                                                          \
            TYPE v;                                                                                                    \
            MAKE;                                                                                                      \
            r.push_back(v);                                                                                            \
         }                                                                                                             \
         return r;                                                                                                     \
      }                                                                                                                \
   };
DOM32(eosio::varuint32, v.value = x)
DOM32(eosio::time_point_sec, v.utc_seconds = x)
DOM32(eosio::block_timestamp, v.slot = x)
template <>
struct Dom<empty_t> {
   static std::vector<empty_t> get() { return { empty_t{} }; }
};
template <size_t N, typename W>
struct Dom<eosio::fixed_bytes<N, W>> {
   static std::vector<eosio::fixed_bytes<N, W>> get() {
      std::vector<eosio::fixed_bytes<N, W>> r;
      for (int bg : { 0, 0xff, 0x80 })
         for (size_t i = 0; i < N; ++i)
            for (int c : { 0, 1, 0x7f, 0x80, 0xff }) {
               std::array<uint8_t, N> a;
               a.fill(bg);
               a[i] = c;
               r.push_back(eosio::fixed_bytes<N, W>(a));
            }
      return r;
   }
};
template <>
struct Dom<eosio::asset> {
   static std::vector<eosio::asset> get() {
      std::vector<eosio::asset> r;
      for (auto x : int_dom<int64_t>())
#ifdef DOM_TEXT
         for (uint64_t s : { 0x4100ull, 0x4104ull, 0x53595304ull, 0x5a5a5a5a5a5a5a12ull }) {
#else
         for (uint64_t s : { 0ull, 1ull, 0x4104ull, 0x53595304ull, 0x8000000000000000ull, ~0ull }) {
#endif
            eosio::asset a;
            a.amount       = x;
            a.symbol.value = s;
            r.push_back(a);
         }
      return r;
   }
};
template <>
struct Dom<eosio::extended_asset> {
   static std::vector<eosio::extended_asset> get() {
      std::vector<eosio::extended_asset> r;
      for (auto& x : small<eosio::asset>(60))
         for (auto& n : small<eosio::name>(9)) {
            eosio::extended_asset a;
            a.quantity = x;
            a.contract = n;
            r.push_back(a);
         }
      return r;
   }
};
template <>
struct Dom<eosio::extended_symbol> {
   static std::vector<eosio::extended_symbol> get() {
      std::vector<eosio::extended_symbol> r;
      for (auto& x : small<eosio::symbol>(40))
         for (auto& n : small<eosio::name>(40)) {
            eosio::extended_symbol a;
            a.sym      = x;
            a.contract = n;
            r.push_back(a);
         }
      return r;
   }
};
template <>
struct Dom<member_fn> {
   static std::vector<member_fn> get() {
      std::vector<member_fn> r;
      for (int a : { 0, 1, 127, 128, 255 })
         for (int b : { -128, -1, 0, 1, 127 }) {
            member_fn m;
            m.a = a;
            m.b = b;
            r.push_back(m);
         }
      return r;
   }
};
template <>
struct Dom<with_base> {
   static std::vector<with_base> get() {
      std::vector<with_base> r;
      for (auto& m : dom<member_fn>())
         for (auto& s : small<std::string>(12)) {
            with_base w;
            (member_fn&)w = m;
            w.c           = s;
            r.push_back(w);
         }
      return r;
   }
};
template <typename C, typename E, typename Put>
std::vector<C> sequences(Put put) {
   std::vector<C> r;
   r.push_back(C{});
   auto level = [&](int len, size_t m) {
      std::vector<E>      v = small<E>(m);
      std::vector<size_t> ix(len, 0);
      for (;;) {
         C c{};
         for (int i = 0; i < len; ++i) put(c, v[ix[i]]);
         r.push_back(c);
         int i = len - 1;
         while (i >= 0 && ++ix[i] == v.size()) ix[i--] = 0;
         if (i < 0)
            break;
      }
   };
   level(1, g_level[0]);
   level(2, g_level[1]);
   level(3, g_level[2]);
   level(4, g_level[3]);
   return r;
}
#define SEQ(CONT)                                                                                                      \
   template <typename T>                                                                                               \
   struct Dom<CONT<T>> {                                                                                               \
      static std::vector<CONT<T>> get() {                                                                              \
         return sequences<CONT<T>, T>([](CONT<T>& c, const T& e) { c.insert(c.end(), e); });                           \
      }                                                                                                                \
   };
SEQ(std::vector)
SEQ(std::list)
SEQ(std::deque)
SEQ(std::set)
template <>
struct Dom<eosio::bytes> {
   static std::vector<eosio::bytes> get() {
      std::vector<eosio::bytes> r;
      for (auto& v : dom<std::vector<char>>()) {
         eosio::bytes b;
         b.data = v;
         r.push_back(b);
      }
      return r;
   }
};
template <typename K, typename V>
struct Dom<std::pair<K, V>> {
   static std::vector<std::pair<K, V>> get() {
      std::vector<std::pair<K, V>> r;
      for (const auto& a : small<K>(g_pair))
         for (const auto& b : small<V>(g_pair)) r.push_back({ a, b });
      return r;
   }
};
template <typename K, typename V>
struct Dom<std::map<K, V>> {
   static std::vector<std::map<K, V>> get() {
      return sequences<std::map<K, V>, std::pair<K, V>>([](std::map<K, V>& c, const std::pair<K, V>& e) { c[e.first] = e.second; });
   }
};
template <typename T>
struct Dom<std::optional<T>> {
   static std::vector<std::optional<T>> get() {
      std::vector<std::optional<T>> r{ std::nullopt };
      for (const auto& x : small<T>(g_single * 2)) r.push_back(std::optional<T>(x));
      return r;
   }
};
template <typename... Ts>
struct Dom<std::variant<Ts...>> {
   template <size_t I>
   static void add(std::vector<std::variant<Ts...>>& r) {
      if constexpr (I < sizeof...(Ts)) {
         for (const auto& x : small<std::variant_alternative_t<I, std::variant<Ts...>>>(g_single))
            r.push_back(std::variant<Ts...>(std::in_place_index<I>, x));
         add<I + 1>(r);
      }
   }
   static std::vector<std::variant<Ts...>> get() {
      std::vector<std::variant<Ts...>> r;
      add<0>(r);
      return r;
   }
};
template <typename... Ts>
struct Dom<std::tuple<Ts...>> {
   template <size_t I>
   static void add(std::vector<std::tuple<Ts...>>& r, std::tuple<Ts...>& cur) {
      if constexpr (I < sizeof...(Ts)) {
         for (const auto& x : small<std::tuple_element_t<I, std::tuple<Ts...>>>(sizeof...(Ts) > 2 ? 9 : g_pair)) {
            std::get<I>(cur) = x;
            add<I + 1>(r, cur);
         }
      } else
         r.push_back(cur);
   }
   static std::vector<std::tuple<Ts...>> get() {
      std::vector<std::tuple<Ts...>> r;
      std::tuple<Ts...>              c;
      add<0>(r, c);
      return r;
   }
};
template <typename T>
struct Dom<std::array<T, 0>> {
   static std::vector<std::array<T, 0>> get() { return { std::array<T, 0>{} }; }
};
template <typename T>
struct Dom<std::array<T, 2>> {
   static std::vector<std::array<T, 2>> get() {
      std::vector<std::array<T, 2>> r;
      for (const auto& a : small<T>(g_pair))
         for (const auto& b : small<T>(g_pair)) r.push_back({ a, b });
      return r;
   }
};
template <size_t N>
struct Dom<std::array<char, N>, std::enable_if_t<(N > 2)>> {
   static std::vector<std::array<char, N>> get() {
      std::vector<std::array<char, N>> r;
      for (int bg : { 0, 0xff, 0x80 })
         for (size_t i = 0; i < N; ++i)
            for (int c : { 0, 1, 0x7f, 0x80, 0xff }) {
               std::array<char, N> a;
               a.fill(bg);
               a[i] = c;
               r.push_back(a);
            }
      return r;
   }
};
template <typename A>
struct Dom<rec1<A>> {
   static std::vector<rec1<A>> get() {
      std::vector<rec1<A>> r;
      for (const auto& a : small<A>(g_single)) {
         rec1<A> v;
         v.x = a;
         r.push_back(v);
      }
      return r;
   }
};
template <typename R, typename A, typename B>
std::vector<R> recs() {
   std::vector<R> r;
   for (const auto& a : small<A>(g_pair))
      for (const auto& b : small<B>(g_pair)) {
         R v;
         v.x = a;
         v.y = b;
         r.push_back(v);
      }
   return r;
}
template <typename A, typename B>
struct Dom<rec2<A, B>> {
   static std::vector<rec2<A, B>> get() { return recs<rec2<A, B>, A, B>(); }
};
template <typename A, typename B>
struct Dom<derived<A, B>> {
   static std::vector<derived<A, B>> get() { return recs<derived<A, B>, A, B>(); }
};
template <>
struct Dom<eosio::webauthn_public_key> {
   static std::vector<eosio::webauthn_public_key> get() {
      std::vector<eosio::webauthn_public_key> r;
      for (auto& k : small<eosio::ecc_public_key>(25))
         for (int u = 0; u < 3; ++u)
            for (auto& s : small<std::string>(12)) {
               eosio::webauthn_public_key w;
               w.key           = k;
               w.user_presence = (eosio::webauthn_public_key::user_presence_t)u;
               w.rpid          = s;
               r.push_back(w);
            }
      return r;
   }
};
template <>
struct Dom<eosio::webauthn_signature> {
   static std::vector<eosio::webauthn_signature> get() {
      std::vector<eosio::webauthn_signature> r;
      for (auto& k : small<eosio::ecc_signature>(15))
         for (auto& d : small<std::vector<uint8_t>>(12))
            for (auto& s : small<std::string>(12)) {
               eosio::webauthn_signature w;
               w.compact_signature = k;
               w.auth_data         = d;
               w.client_json       = s;
               r.push_back(w);
            }
      return r;
   }
};

