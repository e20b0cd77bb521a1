// C24: native C++ serialization against a reference written from the wire format, and against the ABI generated from the same types.
#if PART < 5
#define DOM_TEXT
#endif
#include <eosio/types.hpp>
#include "vh.hpp"
#include "lib.hpp"
#include "dom.hpp"
#include <eosio/chain_conversions.hpp>
using eosio::get_type_name;

// ---- record types -----------------------------------------------------------------------------------------------------------------
#define M(NAME) f(#NAME, [](auto p) -> decltype(&std::decay_t<decltype(*p)>::NAME) { return &std::decay_t<decltype(*p)>::NAME; });
#define RECORD(TYPE, ...)                                                                                              \
   constexpr const char* get_type_name(TYPE*) { return #TYPE; }                                                       \
   template <typename F>                                                                                               \
   constexpr void eosio_for_each_field(TYPE*, F f) {                                                                   \
      __VA_ARGS__                                                                                                      \
   }
#define BASE(TYPE) eosio_for_each_field((TYPE*)nullptr, f);

struct P0 {};
RECORD(P0)
struct skip_rec {
   int32_t     n = 0;
   std::string s;
};
EOSIO_REFLECT(skip_rec, n, s);
struct P1 {
   int32_t     a = 0;
   std::string b;
   bool        c = false;
};
RECORD(P1, M(a) M(b) M(c))
struct P2 {
   P1                p;
   std::optional<P1> o;
   std::vector<P1>   v;
   uint8_t           z = 0;
};
RECORD(P2, M(p) M(o) M(v) M(z))
struct P3 : P1 {
   uint16_t d = 0;
};
RECORD(P3, BASE(P1) M(d))
struct P4 : P3 {
   std::vector<int64_t>       e;
   std::optional<std::string> f;
};
RECORD(P4, BASE(P3) M(e) M(f))
using V3 = std::variant<int32_t, std::string, P1>;
struct P5 {
   V3                v;
   std::vector<V3>   w;
   std::optional<V3> u;
};
RECORD(P5, M(v) M(w) M(u))
struct P6 {
   P0              e;
   uint8_t         x = 0;
   std::vector<P0> es;
   int8_t          y = 0;
};
RECORD(P6, M(e) M(x) M(es) M(y))
struct P7 {
   int8_t            i8  = 0;
   int16_t           i16 = 0;
   int32_t           i32 = 0;
   int64_t           i64 = 0;
   uint8_t           u8  = 0;
   uint16_t          u16 = 0;
   uint32_t          u32 = 0;
   uint64_t          u64 = 0;
   __int128          i128 = 0;
   unsigned __int128 u128 = 0;
   bool              b   = false;
   double            d   = 0;
   float             fl  = 0;
   std::string       s;
};
RECORD(P7, M(i8) M(i16) M(i32) M(i64) M(u8) M(u16) M(u32) M(u64) M(i128) M(u128) M(b) M(d) M(fl) M(s))
struct P8 {
   eosio::name            n;
   eosio::asset           a;
   eosio::symbol          s;
   eosio::symbol_code     c;
   eosio::time_point      t;
   eosio::time_point_sec  ts;
   eosio::block_timestamp bt;
   eosio::varuint32       vu;
   eosio::varint32        vi;
};
RECORD(P8, M(n) M(a) M(s) M(c) M(t) M(ts) M(bt) M(vu) M(vi))
struct P9 {
   std::vector<eosio::name>                       ns;
   std::optional<eosio::asset>                    oa;
   std::vector<eosio::time_point>                 ts;
   std::vector<std::optional<eosio::symbol>>      os;
   std::optional<std::vector<eosio::varuint32>>   vs;
};
RECORD(P9, M(ns) M(oa) M(ts) M(os) M(vs))
// decoded and encoded natively only
struct Q1 {
   std::map<std::string, uint16_t> m;
   std::set<int32_t>               s;
   std::list<std::string>          l;
   std::deque<uint8_t>             d;
   std::pair<uint8_t, std::string> p;
   std::tuple<bool, int16_t>       t;
   std::array<uint32_t, 2>         a;
   uint16_t                        c[3] = { 0, 0, 0 };
};
RECORD(Q1, M(m) M(s) M(l) M(d) M(p) M(t) M(a) M(c))
struct Q2 {
   eosio::checksum160 a;
   eosio::checksum256 b;
   eosio::checksum512 c;
   eosio::float128    d;
   eosio::public_key  k;
   eosio::signature   s;
   eosio::bytes       y;
   eosio::private_key r;
   std::vector<eosio::bytes> ys;
   std::optional<eosio::checksum160> o;
};
RECORD(Q2, M(a) M(b) M(c) M(d) M(k) M(s) M(y) M(r) M(ys) M(o))
struct Q3 {
   uint16_t                                 a = 0;
   eosio::might_not_exist<std::vector<P1>>  x;
   eosio::might_not_exist<std::string>      y;
};
RECORD(Q3, M(a) M(x) M(y))
struct with_fn { // member functions are reflected but carry no data
   uint8_t a = 0;
   int     g(int) { return 0; }
   uint8_t b = 0;
};
constexpr const char* get_type_name(with_fn*) { return "with_fn"; }
template <typename F>
constexpr void eosio_for_each_field(with_fn*, F f) {
   M(a) M(g) M(b)
}
// the same through the library's own macro
struct R1 {
   int32_t     a = 0;
   std::string b;
};
EOSIO_REFLECT(R1, a, b)
struct R2 : R1 {
   R1                         r;
   std::vector<std::string>   v;
   std::optional<uint64_t>    o;
   std::variant<bool, double> x;
};
EOSIO_REFLECT(R2, base R1, r, v, o, x)
// as many members as the macro allows in practice
struct R3 {
   uint8_t m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, n0 = 0, n1 = 0, n2 = 0, n3 = 0, n4 = 0, n5 = 0, n6 = 0, n7 = 0, n8 = 0, n9 = 0;
};
EOSIO_REFLECT(R3, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, n0, n1, n2, n3, n4, n5, n6, n7, n8, n9)

template <typename T, typename = void>
struct is_record : std::false_type {};
#define IS(TYPE)                                                                                                       \
   template <>                                                                                                         \
   struct is_record<TYPE> : std::true_type {};
IS(P0) IS(P1) IS(P2) IS(P3) IS(P4) IS(P5) IS(P6) IS(P7) IS(P8) IS(P9) IS(Q1) IS(Q2) IS(Q3) IS(with_fn) IS(R1) IS(R2) IS(R3)
template <typename T>
bool operator<(const eosio::might_not_exist<T>& a, const eosio::might_not_exist<T>& b) {
   return a.value < b.value;
}

// ---- reference encoding -----------------------------------------------------------------------------------------------------------
static void put_varuint(std::string& o, uint64_t v) {
   while (v >= 128) {
      o += (char)(v % 128 + 128);
      v /= 128;
   }
   o += (char)v;
}
template <typename T, typename = void>
struct RB;
template <typename T>
void refbin(std::string& o, const T& v) {
   RB<T>::put(o, v);
}
template <typename T>
struct RB<T, std::enable_if_t<std::is_integral_v<T> || std::is_enum_v<T>>> {
   static void put(std::string& o, T v) {
      unsigned __int128 u = (unsigned __int128)v;
      for (size_t i = 0; i < sizeof(T); ++i) o += (char)(u >> (8 * i));
   }
};
template <typename T>
struct RB<T, std::enable_if_t<std::is_floating_point_v<T>>> {
   static void put(std::string& o, T v) {
      std::conditional_t<sizeof(T) == 4, uint32_t, uint64_t> u;
      memcpy(&u, &v, sizeof v);
      refbin(o, u);
   }
};
template <>
struct RB<std::string> {
   static void put(std::string& o, const std::string& v) {
      put_varuint(o, v.size());
      o += v;
   }
};
#define RBF(TYPE, ...)                                                                                                 \
   template <>                                                                                                         \
   struct RB<TYPE> {                                                                                                   \
      static void put(std::string& o, const TYPE& v) { __VA_ARGS__; }                                                  \
   };
RBF(eosio::name, refbin<uint64_t>(o, v.value))
RBF(eosio::symbol, refbin<uint64_t>(o, v.value))
RBF(eosio::symbol_code, refbin<uint64_t>(o, v.value))
RBF(eosio::asset, refbin<int64_t>(o, v.amount); refbin<uint64_t>(o, v.symbol.value))
RBF(eosio::extended_asset, refbin(o, v.quantity); refbin(o, v.contract))
RBF(eosio::time_point, refbin<int64_t>(o, v.elapsed._count))
RBF(eosio::time_point_sec, refbin<uint32_t>(o, v.utc_seconds))
RBF(eosio::block_timestamp, refbin<uint32_t>(o, v.slot))
RBF(eosio::varuint32, put_varuint(o, v.value))
RBF(eosio::varint32, put_varuint(o, v.value >= 0 ? (uint64_t)v.value * 2 : (uint64_t)(-(int64_t)v.value) * 2 - 1))
RBF(eosio::bytes, put_varuint(o, v.data.size()); o += lib::str(v.data))
template <size_t N, typename W>
struct RB<eosio::fixed_bytes<N, W>> {
   static void put(std::string& o, const eosio::fixed_bytes<N, W>& v) {
      auto a = v.extract_as_byte_array();
      o.append((const char*)a.data(), N);
   }
};
template <typename C>
void put_range(std::string& o, const C& c) {
   put_varuint(o, c.size());
   for (auto& e : c) refbin<std::decay_t<decltype(e)>>(o, e);
}
#define RBC(CONT)                                                                                                      \
   template <typename T>                                                                                               \
   struct RB<CONT<T>> {                                                                                                \
      static void put(std::string& o, const CONT<T>& v) { put_range(o, v); }                                           \
   };
RBC(std::vector)
RBC(std::list)
RBC(std::deque)
RBC(std::set)
template <typename K, typename V>
struct RB<std::map<K, V>> {
   static void put(std::string& o, const std::map<K, V>& v) {
      put_varuint(o, v.size());
      for (auto& e : v) {
         refbin<K>(o, e.first);
         refbin<V>(o, e.second);
      }
   }
};
template <typename K, typename V>
struct RB<std::pair<K, V>> {
   static void put(std::string& o, const std::pair<K, V>& v) {
      refbin(o, v.first);
      refbin(o, v.second);
   }
};
template <typename... Ts>
struct RB<std::tuple<Ts...>> {
   template <size_t I>
   static void at(std::string& o, const std::tuple<Ts...>& v) {
      if constexpr (I < sizeof...(Ts)) {
         refbin(o, std::get<I>(v));
         at<I + 1>(o, v);
      }
   }
   static void put(std::string& o, const std::tuple<Ts...>& v) { at<0>(o, v); }
};
template <typename T, size_t N>
struct RB<std::array<T, N>> {
   static void put(std::string& o, const std::array<T, N>& v) {
      for (auto& e : v) refbin<T>(o, e);
   }
};
template <typename T, size_t N>
struct RB<T[N]> {
   static void put(std::string& o, const T (&v)[N]) {
      put_varuint(o, N);
      for (auto& e : v) refbin<T>(o, e);
   }
};
template <typename T>
struct RB<std::optional<T>> {
   static void put(std::string& o, const std::optional<T>& v) {
      o += (char)(v ? 1 : 0);
      if (v)
         refbin<T>(o, *v);
   }
};
template <typename... Ts>
struct RB<std::variant<Ts...>> {
   template <size_t I>
   static void at(std::string& o, const std::variant<Ts...>& v) {
      if constexpr (I < sizeof...(Ts)) {
         if (v.index() == I)
            refbin(o, std::get<I>(v));
         else
            at<I + 1>(o, v);
      }
   }
   static void put(std::string& o, const std::variant<Ts...>& v) {
      put_varuint(o, v.index());
      at<0>(o, v);
   }
};
template <typename T>
struct RB<eosio::might_not_exist<T>> {
   static void put(std::string& o, const eosio::might_not_exist<T>& v) { refbin(o, v.value); }
};
RBF(eosio::webauthn_public_key, refbin(o, v.key); o += (char)v.user_presence; refbin(o, v.rpid))
RBF(eosio::webauthn_signature, refbin(o, v.compact_signature); refbin(o, v.auth_data); refbin(o, v.client_json))
RBF(P0, (void)0)
RBF(P1, refbin(o, v.a); refbin(o, v.b); refbin(o, v.c))
RBF(P2, refbin(o, v.p); refbin(o, v.o); refbin(o, v.v); refbin(o, v.z))
RBF(P3, refbin<P1>(o, v); refbin(o, v.d))
RBF(P4, refbin<P3>(o, v); refbin(o, v.e); refbin(o, v.f))
RBF(P5, refbin(o, v.v); refbin(o, v.w); refbin(o, v.u))
RBF(P6, refbin(o, v.e); refbin(o, v.x); refbin(o, v.es); refbin(o, v.y))
RBF(P7, refbin(o, v.i8); refbin(o, v.i16); refbin(o, v.i32); refbin(o, v.i64); refbin(o, v.u8); refbin(o, v.u16); refbin(o, v.u32); refbin(o, v.u64); refbin(o, v.i128); refbin(o, v.u128);
    refbin(o, v.b); refbin(o, v.d); refbin(o, v.fl); refbin(o, v.s))
RBF(P8, refbin(o, v.n); refbin(o, v.a); refbin(o, v.s); refbin(o, v.c); refbin(o, v.t); refbin(o, v.ts); refbin(o, v.bt); refbin(o, v.vu); refbin(o, v.vi))
RBF(P9, refbin(o, v.ns); refbin(o, v.oa); refbin(o, v.ts); refbin(o, v.os); refbin(o, v.vs))
RBF(empty_t, (void)0)
RBF(member_fn, refbin(o, v.a); refbin(o, v.b))
RBF(with_base, refbin<member_fn>(o, v); refbin(o, v.c))
RBF(Q1, refbin(o, v.m); refbin(o, v.s); refbin(o, v.l); refbin(o, v.d); refbin(o, v.p); refbin(o, v.t); refbin(o, v.a); RB<uint16_t[3]>::put(o, v.c))
RBF(Q2, refbin(o, v.a); refbin(o, v.b); refbin(o, v.c); refbin(o, v.d); refbin(o, v.k); refbin(o, v.s); refbin(o, v.y); refbin(o, v.r); refbin(o, v.ys); refbin(o, v.o))
RBF(Q3, refbin(o, v.a); refbin(o, v.x); refbin(o, v.y))
RBF(with_fn, refbin(o, v.a); refbin(o, v.b))
RBF(R1, refbin(o, v.a); refbin(o, v.b))
RBF(R2, refbin<R1>(o, v); refbin(o, v.r); refbin(o, v.v); refbin(o, v.o); refbin(o, v.x))
RBF(R3, for (auto x : { v.m0, v.m1, v.m2, v.m3, v.m4, v.m5, v.m6, v.m7, v.m8, v.m9, v.n0, v.n1, v.n2, v.n3, v.n4, v.n5, v.n6, v.n7, v.n8, v.n9 }) refbin(o, x))

// ---- reference JSON ---------------------------------------------------------------------------------------------------------------
struct J {
   char                                   kind = 'l'; // leaf, array, object
   std::string                            leaf;
   std::vector<std::pair<std::string, J>> kids;
   std::string                            compact() const {
      if (kind == 'l')
         return leaf;
      std::string r(1, kind == 'a' ? '[' : '{');
      for (size_t i = 0; i < kids.size(); ++i) {
         if (i)
            r += ',';
         if (kind == 'o')
            r += '"' + kids[i].first + "\":";
         r += kids[i].second.compact();
      }
      return r + (kind == 'a' ? ']' : '}');
   }
   std::string pretty(int ind = 0) const {
      if (kind == 'l')
         return leaf;
      std::string r(1, kind == 'a' ? '[' : '{');
      for (size_t i = 0; i < kids.size(); ++i) {
         if (i)
            r += ',';
         r += "\n" + std::string(ind + 4, ' ');
         if (kind == 'o')
            r += '"' + kids[i].first + "\": ";
         r += kids[i].second.pretty(ind + 4);
      }
      if (kids.size())
         r += "\n" + std::string(ind, ' ');
      return r + (kind == 'a' ? ']' : '}');
   }
};
static J leaf(const std::string& s) {
   J j;
   j.leaf = s;
   return j;
}
template <typename T, typename = void>
struct RJ { // chain types are judged by the checks of their own properties
   static J get(const T& v) { return leaf(eosio::convert_to_json(v)); }
};
template <typename T>
J refjson(const T& v) {
   return RJ<T>::get(v);
}
template <typename T>
struct RJ<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>> {
   static J get(T v) {
      bool              neg = v < 0;
      unsigned __int128 u   = (unsigned __int128)v;
      if (neg)
         u = -u;
      std::string s;
      do s.insert(s.begin(), (char)('0' + (int)(u % 10)));
      while (u /= 10);
      if (neg)
         s = "-" + s;
      return leaf(sizeof(T) > 4 ? "\"" + s + "\"" : s);
   }
};
template <>
struct RJ<bool> {
   static J get(bool v) { return leaf(v ? "true" : "false"); }
};
template <typename T>
struct RJ<std::vector<T>> {
   static J get(const std::vector<T>& v) {
      J j;
      j.kind = 'a';
      for (auto& e : v) j.kids.push_back({ "", refjson(e) });
      return j;
   }
};
template <typename T>
struct RJ<std::optional<T>> {
   static J get(const std::optional<T>& v) { return v ? refjson(*v) : leaf("null"); }
};
template <typename T>
std::string tname() {
   return get_type_name((T*)nullptr);
}
template <typename... Ts>
struct RJ<std::variant<Ts...>> {
   template <size_t I>
   static void at(J& j, const std::variant<Ts...>& v) {
      if constexpr (I < sizeof...(Ts)) {
         if (v.index() == I) {
            using E = std::variant_alternative_t<I, std::variant<Ts...>>;
            std::string n;
            if constexpr (std::is_same_v<E, std::string>)
               n = "string";
            else if constexpr (std::is_same_v<E, int32_t>)
               n = "int32";
            else if constexpr (std::is_same_v<E, bool>)
               n = "bool";
            else if constexpr (std::is_same_v<E, double>)
               n = "float64";
            else if constexpr (std::is_same_v<E, P1>)
               n = "P1";
            else if constexpr (std::is_same_v<E, std::vector<P1>>)
               n = "P1[]";
            else if constexpr (std::is_same_v<E, std::optional<int32_t>>)
               n = "int32?";
            else if constexpr (std::is_same_v<E, uint8_t>)
               n = "uint8";
            j.kids.push_back({ "", leaf("\"" + n + "\"") });
            j.kids.push_back({ "", refjson(std::get<I>(v)) });
         } else
            at<I + 1>(j, v);
      }
   }
   static J get(const std::variant<Ts...>& v) {
      J j;
      j.kind = 'a';
      at<0>(j, v);
      return j;
   }
};
template <>
struct RJ<eosio::public_key> {
   static J get(const eosio::public_key& v) { return leaf(eosio::convert_to_json(v)); }
};
template <>
struct RJ<eosio::private_key> {
   static J get(const eosio::private_key& v) { return leaf(eosio::convert_to_json(v)); }
};
template <>
struct RJ<eosio::signature> {
   static J get(const eosio::signature& v) { return leaf(eosio::convert_to_json(v)); }
};
#define F(NAME) j.kids.push_back({ #NAME, refjson(v.NAME) });
#define RJF(TYPE, ...)                                                                                                 \
   template <>                                                                                                         \
   struct RJ<TYPE> {                                                                                                   \
      static void add(J& j, const TYPE& v) { __VA_ARGS__ }                                                             \
      static J    get(const TYPE& v) {                                                                                 \
         J j;                                                                                                          \
         j.kind = 'o';                                                                                                 \
         add(j, v);                                                                                                    \
         return j;                                                                                                     \
      }                                                                                                                \
   };
RJF(P0, )
RJF(P1, F(a) F(b) F(c))
RJF(P2, F(p) F(o) F(v) F(z))
RJF(P3, RJ<P1>::add(j, v); F(d))
RJF(P4, RJ<P3>::add(j, v); F(e) F(f))
RJF(P5, F(v) F(w) F(u))
RJF(P6, F(e) F(x) F(es) F(y))
RJF(P7, F(i8) F(i16) F(i32) F(i64) F(u8) F(u16) F(u32) F(u64) F(i128) F(u128) F(b) F(d) F(fl) F(s))
RJF(P8, F(n) F(a) F(s) F(c) F(t) F(ts) F(bt) F(vu) F(vi))
RJF(P9, F(ns) F(oa) F(ts) F(os) F(vs))
RJF(Q2, F(a) F(b) F(c) F(d) F(k) F(s) F(y) F(r) F(ys) F(o))
RJF(with_fn, F(a) F(b))
RJF(R1, F(a) F(b))
RJF(R2, RJ<R1>::add(j, v); F(r) F(v) F(o) F(x))
RJF(R3, F(m0) F(m1) F(m2) F(m3) F(m4) F(m5) F(m6) F(m7) F(m8) F(m9) F(n0) F(n1) F(n2) F(n3) F(n4) F(n5) F(n6) F(n7) F(n8) F(n9))

// ---- values -----------------------------------------------------------------------------------------------------------------------
static size_t g_each = 30, g_two = 4;
// All fields at a baseline, one field over its domain, two fields over three values each.
template <typename T>
std::vector<T> record_dom();
template <typename T>
struct Dom<T, std::enable_if_t<is_record<T>::value>> {
   static std::vector<T> get() { return record_dom<T>(); }
};
template <>
struct Dom<uint16_t[3]> {
   static std::vector<std::array<uint16_t, 3>> get() { return { { 1, 2, 3 }, { 0x8000, 0, 0xffff }, { 0, 256, 255 } }; }
};
template <typename T>
struct Dom<eosio::might_not_exist<T>> {
   static std::vector<eosio::might_not_exist<T>> get() {
      std::vector<eosio::might_not_exist<T>> r;
      for (auto& v : small<T>(20)) r.push_back({ v });
      return r;
   }
};
DOM32(eosio::varint32, v.value = (int32_t)x)
template <typename Fd>
void set_field(Fd& m, size_t k, size_t of) { // k-th of `of` representative values
   if constexpr (std::is_array_v<Fd>) {
      auto d = Dom<Fd>::get();
      auto a = d[k % d.size()];
      for (size_t i = 0; i < a.size(); ++i) m[i] = a[i];
   } else {
      auto d = small<Fd>(of);
      m      = d[k % d.size()];
   }
}
template <typename T>
std::vector<T> record_dom() {
   size_t nf = 0;
   T      zero{};
   eosio::for_each_field(zero, [&](auto& m) {
      ++nf;
      set_field(m, 0, 1);
   });
   T full{};
   eosio::for_each_field(full, [&](auto& m) { set_field(m, 2, 4); });
   std::vector<T> r{ zero, full };
   auto           with = [&](T v, size_t f, size_t k, size_t of) {
      size_t i = 0;
      eosio::for_each_field(v, [&](auto& m) {
         if (i++ == f)
            set_field(m, k, of);
      });
      return v;
   };
   for (auto& base : { zero, full })
      for (size_t f = 0; f < nf; ++f)
         for (size_t k = 0; k < g_each; ++k) r.push_back(with(base, f, k, g_each));
   for (size_t f = 0; f < nf; ++f)
      for (size_t g = f + 1; g < nf; ++g)
         for (size_t k = 0; k < g_two; ++k)
            for (size_t l = 0; l < g_two; ++l) r.push_back(with(with(zero, f, k, g_two), g, l, g_two));
   return r;
}

// Values of chain types whose text form cannot be read back (by design) are left out of JSON round trips.
template <typename T>
std::vector<T> values();

// ---- checks -----------------------------------------------------------------------------------------------------------------------
template <typename T>
std::string rb(const T& v) {
   std::string o;
   refbin(o, v);
   return o;
}
struct Opts {
   bool json = true, abi = true, trunc = true;
};
template <typename T>
lib::Res back(const std::string& bin, size_t& left) {
   return lib::attempt([&] {
      std::unique_ptr<char[]> p(new char[bin.size()]);
      memcpy(p.get(), bin.data(), bin.size());
      eosio::input_stream s(p.get(), bin.size());
      auto                v = std::make_unique<T>();
      from_bin(*v, s);
      left = s.remaining();
      return rb(*v);
   });
}
template <bool Json, bool Abi, typename T>
void check_value(vh::T& t, const char* name, const T& v, const eosio::abi_type* ty, const eosio::abi_type* ty2, size_t ix, bool truncs = true) {
   std::string bin = rb(v), k = std::string(":") + name + ":" + vh::cut(vh::hexs(bin), 80) + "/" + std::to_string(ix);
   auto        nm  = [&](const char* what) { return std::string(name) + " value " + vh::cut(vh::hexs(bin), 200) + ": " + what; };
   t.count("evaluations");
   if (t.distinct("nontrivial", vh::fnv(bin, vh::fnv(name))) == false && ix > 400)
      return;
   // writing
   auto got = lib::attempt([&] { return lib::str(eosio::convert_to_bin(v)); });
   t.ok(got.ok && got.v == bin, "bin" + k, nm("binary is ") + vh::cut(vh::hexs(got.v), 300) + got.err);
   std::vector<char> more{ 'p', 'q' };
   eosio::convert_to_bin(v, more);
   t.ok(lib::str(more) == "pq" + bin, "append" + k, nm("appended ") + vh::cut(vh::hexs(more), 300));
   eosio::size_stream ss;
   to_bin(v, ss);
   t.ok(ss.size == bin.size(), "size" + k, nm("counted size ") + std::to_string(ss.size));
   std::vector<char>    vs;
   eosio::vector_stream vst(vs);
   to_bin(v, vst);
   t.ok(lib::str(vs) == bin, "grow" + k, nm("growing buffer ") + vh::cut(vh::hexs(vs), 300));
   for (size_t sz = bin.size() > 24 ? bin.size() - 24 : 0; sz < bin.size(); ++sz) { // too small a buffer
      std::unique_ptr<char[]> p(new char[sz]);
      eosio::fixed_buf_stream fs(p.get(), sz);
      bool                    thrown = false;
      try {
         to_bin(v, fs);
      } catch (std::exception&) { thrown = true; }
      t.ok(thrown, "room" + k, nm("written into a buffer of ") + std::to_string(sz));
   }
   // reading
   size_t left = 99;
   auto   b    = back<T>(bin, left);
   t.ok(b.ok && b.v == bin && left == 0, "read" + k, nm("decodes to ") + vh::cut(vh::hexs(b.v), 300) + b.err + " with " + std::to_string(left) + " bytes left");
   if (truncs) {
      b = back<T>(bin + "\xff\x01\x80", left);
      t.ok(b.ok && b.v == bin && left == 3, "follow" + k, nm("followed by other data decodes to ") + vh::cut(vh::hexs(b.v), 300) + b.err + " with " + std::to_string(left) + " bytes left");
      for (size_t n = 0; n < bin.size(); ++n) {
         b = back<T>(bin.substr(0, n), left);
         t.count("truncations");
         t.ok(!b.ok, "trunc" + k + ":" + std::to_string(n), nm("its first ") + std::to_string(n) + " bytes decode to " + vh::cut(vh::hexs(b.v), 300));
      }
   }
   if constexpr (Json) {
      J           j    = refjson(v);
      std::string text = j.compact(), wide = j.pretty();
      auto        c = lib::attempt([&] { return eosio::convert_to_json(v); });
      t.ok(c.ok && c.v == text, "json" + k, nm("JSON ") + vh::cut(c.v + c.err) + " expected " + vh::cut(text));
      auto p = lib::attempt([&] { return eosio::format_json(v); });
      t.ok(p.ok && p.v == wide, "pretty" + k, nm("indented JSON ") + vh::cut(p.v + p.err) + " expected " + vh::cut(wide));
      auto parse = [&](const std::string& doc) {
         return lib::attempt([&] {
            std::string d = doc;
            d.append(3, '\0');
            eosio::json_token_stream st(d.data());
            auto                     x = std::make_unique<T>();
            from_json(*x, st);
            if (!st.complete())
               throw std::runtime_error("extra data");
            return rb(*x);
         });
      };
      for (auto& doc : { text, wide, " \t\r\n" + wide + "\n" }) {
         auto r = parse(doc);
         t.ok(r.ok && r.v == bin, "parse" + k, nm("parsing ") + vh::cut(doc) + " gives " + vh::cut(vh::hexs(r.v)) + r.err);
      }
      for (size_t n = text.size() > 40 ? text.size() - 40 : 0; n < text.size(); ++n) {
         if (j.kind == 'l' && text[0] != '"')
            break; // a shorter number is a number
         auto r = parse(text.substr(0, n));
         t.ok(!r.ok, "jtrunc" + k + ":" + std::to_string(n), nm("accepted ") + text.substr(0, n));
      }
      if (j.kind == 'o' && ix < 60) {
         // members in any order (nested ones reversed); unknown members anywhere
         std::vector<size_t> perm(j.kids.size());
         for (size_t i = 0; i < perm.size(); ++i) perm[i] = i;
         std::function<void(J&)> rev = [&](J& x) {
            for (auto& kd : x.kids) rev(kd.second);
            if (x.kind == 'o')
               std::reverse(x.kids.begin(), x.kids.end());
         };
         size_t np = 0;
         do {
            J x = j;
            x.kids.clear();
            for (auto i : perm) x.kids.push_back(j.kids[i]);
            if (np % 2)
               for (auto& kd : x.kids) rev(kd.second);
            auto r = parse(x.compact());
            t.ok(r.ok && r.v == bin, "order" + k + ":" + std::to_string(np), nm("parsing ") + vh::cut(x.compact()) + " gives " + vh::cut(vh::hexs(r.v)) + r.err);
         } while (++np < 130 && std::next_permutation(perm.begin(), perm.end()));
         for (size_t at = 0; at <= j.kids.size(); ++at)
            for (const char* val : { "1", "\"x\"", "null", "true", "[]", "{}", "[[{}],{\"a\":[1,{\"b\":2}]},3]", "{\"a\":1}" }) {
               J x = j;
               x.kids.insert(x.kids.begin() + at, { "zz", leaf(val) });
               auto r = parse(x.compact());
               t.ok(r.ok && r.v == bin, "unknown" + k + ":" + std::to_string(at) + val, nm("parsing ") + vh::cut(x.compact()) + " gives " + vh::cut(vh::hexs(r.v)) + r.err);
            }
      }
      if constexpr (Abi) {
         for (auto y : { ty, ty2 }) {
            std::string w = y == ty ? "generated ABI" : "generated ABI after conversion to a definition and back";
            auto        e = lib::enc(y, text), r = lib::encr(y, text), d = lib::dec(y, bin);
            t.ok(e.ok && e.v == bin, "abienc" + k + w, nm(w.c_str()) + " encodes " + vh::cut(text) + " as " + vh::cut(vh::hexs(e.v)) + e.err);
            t.ok(r.ok && r.v == bin, "abiencr" + k + w, nm(w.c_str()) + " encodes (reorderable) " + vh::cut(text) + " as " + vh::cut(vh::hexs(r.v)) + r.err);
            t.ok(d.ok && d.v == text, "abidec" + k + w, nm(w.c_str()) + " decodes to " + vh::cut(d.v) + d.err);
         }
      }
   }
   if (ix == 5)
      t.sample(std::string(name) + " " + vh::hexs(bin));
}
template <bool Json, bool Abi, typename T>
void check_type(vh::T& t, const char* name, std::vector<T> vals) {
   lib::Abi               a, b;
   const eosio::abi_type *ty = nullptr, *ty2 = nullptr;
   if constexpr (Abi) {
      a.load(lib::empty_abi);
      ty          = a.a->add_type<T>();
      auto again  = a.a->add_type<T>();
      eosio::abi_def def{};
      b.a = std::make_unique<eosio::abi>();
      auto r = lib::attempt([&] {
         eosio::convert(*a.a, def);
         eosio::convert(def, *b.a);
         ty2 = b.a->get_type(tname<T>());
         return std::string();
      });
      if (t.next())
         t.ok(r.ok && ty == again && ty->name == tname<T>(), std::string("gen:") + name, "generated ABI type: " + r.err + " name " + ty->name);
      if (!r.ok)
         return;
   }
   // reading into an object that already holds a value: every ordered pair of values
   if (t.next() && vals.size() > 1) {
      t.desc(std::string(name) + " read into used objects");
      std::vector<std::string> bins, texts;
      for (size_t i = 0, n = std::min<size_t>(vals.size(), t.thorough() ? 120 : 40); i < n; ++i) {
         T v = vals[i * vals.size() / n];
         bins.push_back(rb(v));
         if constexpr (Json)
            texts.push_back(refjson(v).compact());
      }
      for (size_t i = 0; i < bins.size(); ++i)
         for (size_t j = 0; j < bins.size(); ++j) {
            t.count("evaluations");
            auto r = lib::attempt([&] {
               auto x = std::make_unique<T>();
               for (size_t n : { i, j, j }) {
                  eosio::input_stream s(bins[n].data(), bins[n].size());
                  from_bin(*x, s);
               }
               return rb(*x);
            });
            std::string k = std::string(":") + name + ":" + std::to_string(i) + "," + std::to_string(j);
            t.ok(r.ok && r.v == bins[j], "reuse" + k, std::string(name) + " " + vh::cut(vh::hexs(bins[j]), 100) + " read into an object holding " + vh::cut(vh::hexs(bins[i]), 100) + " gives " + vh::cut(vh::hexs(r.v), 200) + r.err);
            if constexpr (Json) {
               auto q = lib::attempt([&] {
                  auto x = std::make_unique<T>();
                  for (size_t n : { i, j, j }) {
                     std::string d = texts[n];
                     d.append(3, '\0');
                     eosio::json_token_stream st(d.data());
                     from_json(*x, st);
                  }
                  return rb(*x);
               });
               t.ok(q.ok && q.v == bins[j], "reuse-json" + k, std::string(name) + " " + vh::cut(texts[j], 100) + " read into an object holding " + vh::cut(texts[i], 100) + " gives " + vh::cut(vh::hexs(q.v), 200) + q.err);
            }
         }
   }
   const size_t step = 25;
   for (size_t i = 0; i < vals.size(); i += step)
      if (t.next()) {
         t.desc(std::string(name) + " values from " + std::to_string(i));
         for (size_t j = i; j < std::min(vals.size(), i + step); ++j) check_value<Json, Abi, T>(t, name, vals[j], ty, ty2, j);
      }
}
template <typename T>
std::vector<T> vals(size_t m) {
   return small<T>(m);
}
// Only values that have a text form that can be read back.

#define JA(...) check_type<true, true, __VA_ARGS__>(t, #__VA_ARGS__, vals<__VA_ARGS__>(m))
#define JN(...) check_type<true, false, __VA_ARGS__>(t, #__VA_ARGS__, vals<__VA_ARGS__>(m))
#define BN(...) check_type<false, false, __VA_ARGS__>(t, #__VA_ARGS__, vals<__VA_ARGS__>(m))

static void run(vh::T& t) {
   size_t l[4] = { 30, 8, 4, 2 };
   if (t.thorough()) {
      size_t x[4] = { 100, 16, 5, 3 };
      std::copy(x, x + 4, l);
      g_each = 150;
      g_two  = 9;
   }
   std::copy(l, l + 4, g_level);
   g_pair   = 12;
   g_single = 60;
   size_t m = t.thorough() ? 20000 : 3000;
   using std::string;
#if PART == 0
   JA(bool); JA(int8_t); JA(uint8_t); JA(int16_t); JA(uint16_t); JA(int32_t); JA(uint32_t); JA(int64_t); JA(uint64_t); JA(__int128); JA(unsigned __int128); JA(double); JA(string);
   JA(std::vector<string>); JA(std::vector<int32_t>); JA(std::vector<uint8_t>); JA(std::optional<string>); JA(std::optional<bool>); JA(std::optional<uint64_t>);
   JA(std::vector<double>); JA(std::vector<__int128>); JA(std::vector<int16_t>);
#elif PART == 1
   JA(P0); JA(P1); JA(P2); JA(P3); JA(P4);
#elif PART == 2
   JA(P5); JA(P6); JA(P7); JA(V3); JA(std::vector<P1>); JA(std::vector<P0>); JA(std::optional<P1>);
#elif PART == 3
   JA(P8); JA(with_fn); JA(R1); JA(R2); JA(R3); JA(std::variant<std::optional<int32_t>, std::vector<P1>, bool>); JA(std::vector<V3>); JA(std::optional<V3>);
   // unknown members holding any value: every tree of up to a number of nodes, and every depth of nesting
   {
      static const char* leaves[] = { "null", "false", "-1.5e3", "\"x\"", "\"]}\\\"\\\\[{,:\"" };
      std::vector<std::vector<std::string>> tree(1); // by number of nodes
      const size_t                          nodes = t.thorough() ? 7 : 5;
      std::function<void(std::vector<std::string>&, size_t, char, std::string, size_t)> kids = [&](auto& out, size_t left, char k, std::string cur, size_t n) {
         if (!left) {
            out.push_back((k == 'a' ? "[" : "{") + cur + (k == 'a' ? "]" : "}"));
            return;
         }
         for (size_t take = 1; take <= left; ++take)
            for (auto& x : tree[take]) kids(out, left - take, k, cur + (n ? "," : "") + (k == 'a' ? "" : n % 2 ? "\"n\":" : "\"zz\":") + x, n + 1);
      };
      for (size_t n = 1; n <= nodes; ++n) {
         std::vector<std::string> out;
         if (n == 1)
            for (auto l : leaves) out.push_back(l);
         kids(out, n - 1, 'a', "", 0);
         kids(out, n - 1, 'o', "", 0);
         tree.push_back(std::move(out));
         if (n == 3) // keep the rest small: two leaves are enough below
            for (size_t i = 1; i < 2; ++i) tree[i] = { "1", leaves[4] };
      }
      // a record spelled with only some of its members, read into a container that holds a full one: what the text does not
      // give has its initial value
      if (t.next()) {
         t.desc("partial records in used containers");
         auto part = [&](auto x, auto get, const std::string& pre, const std::string& post, const char* what) {
            for (int m = 0; m < 4; ++m) {
               std::string doc = pre + "{" + (m & 1 ? "\"n\":5" : "") + (m == 3 ? "," : "") + (m & 2 ? "\"s\":\"w\"" : "") + "}" + post;
               std::string d   = doc;
               auto        y   = x;
               d.append(3, '\0');
               auto r = lib::attempt([&] {
                  eosio::json_token_stream st(d.data());
                  from_json(y, st);
                  const skip_rec& z = get(y);
                  return std::to_string(z.n) + "," + z.s;
               });
               std::string w = std::string(m & 1 ? "5" : "0") + "," + (m & 2 ? "w" : "");
               t.count("evaluations");
               t.ok(r.ok && r.v == w, "partial:" + std::string(what) + std::to_string(m), doc + " read into a used " + what + " gives " + r.v + r.err + " expected " + w);
            }
         };
         skip_rec full{};
         full.n = 9, full.s = "old";
         part(std::optional<skip_rec>(full), [](auto& x) -> skip_rec& { return x.value(); }, "", "", "optional");
         part(std::vector<skip_rec>(3, full), [](auto& x) -> skip_rec& { return x.at(0); }, "[", "]", "vector");
         part(std::variant<int32_t, skip_rec>(full), [](auto& x) -> skip_rec& { return std::get<1>(x); }, std::string("[\"") + get_type_name((skip_rec*)nullptr) + "\",", "]", "variant");
         part(std::optional<std::vector<skip_rec>>(std::vector<skip_rec>(1, full)), [](auto& x) -> skip_rec& { return x.value().at(0); }, "[", "]", "optional vector");
      }
      auto skip = [&](const std::string& val, const std::string& key) {
         for (int at = 0; at < 3; ++at) {
            std::string doc = at == 0 ? "{\"zz\":" + val + ",\"n\":7,\"s\":\"q\"}" : at == 1 ? "{\"n\":7,\"zz\":" + val + ",\"s\":\"q\"}" : "{\"n\":7,\"s\":\"q\",\"zz\":" + val + "}";
            t.count("evaluations");
            auto r = lib::attempt([&] {
               std::string d = "[" + doc + ",{\"n\":8}]";
               d.append(3, '\0');
               eosio::json_token_stream st(d.data());
               std::vector<skip_rec>    x;
               from_json(x, st);
               if (!st.complete())
                  throw std::runtime_error("extra data");
               return std::to_string(x.size()) + ":" + std::to_string(x.at(0).n) + x.at(0).s + std::to_string(x.at(1).n) + x.at(1).s;
            });
            t.ok(r.ok && r.v == "2:7q8", "skip:" + key + ":" + std::to_string(at), "record with an unknown member of value " + vh::cut(val) + " gives " + r.v + r.err);
         }
      };
      for (auto& l : tree)
         for (size_t i = 0; i < l.size(); i += 500)
            if (t.next()) {
               t.desc("skipped value " + vh::cut(l[i]));
               for (size_t j = i; j < std::min(l.size(), i + 500); ++j) {
                  t.distinct("nontrivial", std::hash<std::string>()(l[j]));
                  skip(l[j], l[j]);
               }
            }
      std::vector<size_t> depths;
      for (size_t d = 1; d <= (t.thorough() ? 5000 : 1100); ++d) depths.push_back(d);
      for (size_t d : { 32767, 32768, 32769, 65535, 65536, 65537 })
         if (t.thorough() || d == 65536)
            depths.push_back(d);
      for (size_t d : depths)
         if (t.next()) {
            t.desc("skipped value of depth " + std::to_string(d));
            for (int k = 0; k < 4; ++k) {
               std::string a, b, mid = k == 3 ? "[1,2,[]],3" : "";
               for (size_t i = 0; i < d; ++i) {
                  bool arr = k == 0 || k == 3 || (k == 2 && i % 2);
                  a += arr ? "[" : i + 1 == d ? "{" : "{\"n\":";
                  b += arr ? "]" : "}";
               }
               std::reverse(b.begin(), b.end());
               skip(a + mid + b, "depth " + std::to_string(d) + " kind " + std::to_string(k));
            }
         }
   }
#elif PART == 4
   JN(P9); JN(Q2); JN(std::vector<std::vector<uint8_t>>); JN(std::vector<std::optional<string>>); JN(std::optional<std::vector<P1>>); JN(std::vector<eosio::checksum256>);
   JN(std::vector<std::vector<std::vector<string>>>); JN(eosio::bytes); JN(std::vector<eosio::public_key>);
#elif PART == 5
   BN(Q1); BN(std::optional<std::optional<int32_t>>); BN(std::map<string, uint16_t>); BN(std::map<int32_t, std::map<string, bool>>); BN(std::set<string>); BN(std::set<std::vector<uint8_t>>); BN(std::list<std::deque<string>>); BN(std::deque<std::optional<bool>>);
   BN(std::vector<std::pair<string, uint8_t>>); BN(std::tuple<>); BN(std::tuple<string, bool, double>); BN(std::array<string, 2>); BN(std::vector<std::array<uint8_t, 2>>); BN(std::pair<string, std::pair<bool, string>>);
   BN(std::vector<std::tuple<string, bool>>); BN(eu8); BN(es16); BN(es32); BN(eu64); BN(std::vector<eu16>); BN(std::vector<es32>); BN(std::vector<char>); BN(std::vector<uint64_t>); BN(std::vector<float>); BN(std::optional<eu8>);
   BN(std::variant<eu8, string, std::map<string, bool>>); BN(float); BN(std::vector<unsigned __int128>); BN(std::array<int, 0>); BN(empty_t); BN(std::vector<empty_t>); BN(member_fn); BN(with_base);
   BN(eosio::webauthn_public_key); BN(eosio::webauthn_signature);
   // sizes across varuint boundaries
   for (size_t n : { 126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 1023, 1024, 4096, 16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 131071, 131072, 2097151, 2097152 })
      if (t.next()) {
         t.desc("size " + std::to_string(n));
         bool full = n < 200;
         check_value<false, false, std::vector<uint8_t>>(t, "vector<uint8>", std::vector<uint8_t>(n, 7), nullptr, nullptr, n, full);
         check_value<false, false, std::string>(t, "string", std::string(n, 'x'), nullptr, nullptr, n, full);
         if (n < 200000) {
            std::vector<std::string> strs;
            std::vector<uint32_t>    nums;
            std::string              js, jn;
            for (size_t i = 0; i < n; ++i) {
               strs.push_back(std::to_string(i)), nums.push_back(i * 77777u);
               js += (i ? ",\"" : "[\"") + strs.back() + "\"", jn += (i ? "," : "[") + std::to_string(nums.back());
            }
            js += "]", jn += "]";
            check_value<false, false, std::vector<std::string>>(t, "vector<string>", strs, nullptr, nullptr, n, full);
            check_value<false, false, std::vector<std::optional<uint32_t>>>(t, "vector<uint32?>", { nums.begin(), nums.end() }, nullptr, nullptr, n, full);
            check_value<false, false, std::list<std::string>>(t, "list<string>", { strs.begin(), strs.end() }, nullptr, nullptr, n, full);
            check_value<false, false, std::deque<std::string>>(t, "deque<string>", { strs.begin(), strs.end() }, nullptr, nullptr, n, full);
            check_value<false, false, std::set<std::string>>(t, "set<string>", { strs.begin(), strs.end() }, nullptr, nullptr, n, full);
            auto text = [&](auto v, const std::string& w, const char* what) {
               auto j = lib::attempt([&] { return eosio::convert_to_json(v); });
               t.ok(j.ok && j.v == w, "json-size:" + std::string(what) + std::to_string(n), std::to_string(n) + " " + what + " written as text of " + std::to_string(j.v.size()) + " characters" + j.err);
               std::string             copy = w;
               eosio::json_token_stream st{ copy.data() };
               decltype(v)             b;
               auto                    r = lib::attempt([&] { eosio::from_json(b, st); return 0; });
               t.ok(r.ok && b == v, "json-read:" + std::string(what) + std::to_string(n), std::to_string(n) + " " + what + " read back wrong " + r.err);
            };
            text(strs, js, "strings");
            text(nums, jn, "numbers");
            text(std::string(n, 'y'), '"' + std::string(n, 'y') + '"', "characters");
            check_value<false, false, std::vector<uint64_t>>(t, "vector<uint64>", std::vector<uint64_t>(n, ~0ull), nullptr, nullptr, n, full);
            check_value<false, false, std::list<uint16_t>>(t, "list<uint16>", std::list<uint16_t>(n, 258), nullptr, nullptr, n, full);
            check_value<false, false, std::deque<uint16_t>>(t, "deque<uint16>", std::deque<uint16_t>(n, 258), nullptr, nullptr, n, full);
            std::set<uint32_t>              s;
            std::map<uint32_t, std::string> mm;
            for (size_t i = 0; i < n; ++i) {
               s.insert(i * 3);
               mm[i] = "v";
            }
            check_value<false, false, std::set<uint32_t>>(t, "set<uint32>", s, nullptr, nullptr, n, full);
            check_value<false, false, std::map<uint32_t, std::string>>(t, "map<uint32,string>", mm, nullptr, nullptr, n, full);
         }
      }
   // tags: alternative numbers that do not exist, presence bytes other than 0 and 1, wrong counts of fixed arrays
   {
      std::string               rest(70000, '\1');
      std::vector<uint64_t>     nums;
      for (uint64_t n = 0; n <= 1100; ++n) nums.push_back(n);
      for (int b = 11; b <= 32; ++b)
         for (int d = -5; d <= 5; ++d) nums.push_back((1ull << b) + d);
      auto refused = [&](const char* what, uint64_t n, uint64_t limit, bool exact, auto read) {
         if (n > 0xffffffffull)
            return;
         bool good = exact ? n == limit : n < limit;
         for (int over = 0; over < 2; ++over) { // minimal, and with an unnecessary final group
            std::string b;
            put_varuint(b, n);
            if (over) {
               if (b.size() >= 5)
                  continue;
               b.back() |= 0x80;
               b += '\0';
            }
            if (over && good)
               continue; // accepted or not: not this property
            b += rest;
            t.count("evaluations");
            t.distinct("nontrivial", vh::fnv(b.substr(0, 8), vh::fnv(what)));
            eosio::input_stream s(b.data(), b.size());
            auto                r = lib::attempt([&] { return read(s); });
            t.ok(r.ok == good, std::string("tag:") + what + ":" + std::to_string(n), std::string(what) + " with number " + std::to_string(n) + (r.ok ? " decodes to " + vh::cut(r.v, 100) : " refused: " + r.err));
         }
      };
      auto var = [&](const char* what, auto v) {
         using V = decltype(v);
         for (size_t i = 0; i < nums.size(); i += 100)
            if (t.next()) {
               t.desc(std::string("tags of ") + what);
               for (size_t k = i; k < std::min(nums.size(), i + 100); ++k)
                  refused(what, nums[k], std::variant_size_v<V>, false, [&](auto& s) {
                     V x;
                     from_bin(x, s);
                     return "alternative " + std::to_string(x.index());
                  });
            }
      };
      var("variant<uint8>", std::variant<uint8_t>());
      var("variant<uint8,string>", std::variant<uint8_t, std::string>());
      var("variant<int32,string,P1>", std::variant<int32_t, std::string, P1>());
      var("variant of 9", std::variant<uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int64_t, bool>());
      var("public_key", eosio::public_key());
      var("private_key", eosio::private_key());
      var("signature", eosio::signature());
      auto arr = [&](const char* what, auto* p, size_t N) {
         for (size_t i = 0; i < nums.size(); i += 100)
            if (t.next()) {
               t.desc(std::string("counts of ") + what);
               for (size_t k = i; k < std::min(nums.size(), i + 100); ++k)
                  refused(what, nums[k], N, true, [&](auto& s) {
                     std::decay_t<decltype(*p)> x[300];
                     if (N == 1)
                        from_bin(*(std::decay_t<decltype(*p)>(*)[1])x, s);
                     else if (N == 3)
                        from_bin(*(std::decay_t<decltype(*p)>(*)[3])x, s);
                     else
                        from_bin(*(std::decay_t<decltype(*p)>(*)[300])x, s);
                     return std::string("an array");
                  });
            }
      };
      for (size_t n : { 1, 3, 300 }) {
         arr("uint16 array", (uint16_t*)nullptr, n);
         arr("uint8 array", (uint8_t*)nullptr, n);
         arr("bool array", (bool*)nullptr, n);
         arr("string array", (std::string*)nullptr, n);
      }
      if (t.next())
         for (int c = 0; c < 256; ++c) {
            std::string b(1, char(c));
            b += rest.substr(0, 100);
            auto one = [&](const char* what, auto x) {
               eosio::input_stream s(b.data(), b.size());
               auto                r = lib::attempt([&] { from_bin(x, s); return std::string("value"); });
               t.count("evaluations");
               t.ok(r.ok == (c < 2), std::string("flag:") + what + ":" + std::to_string(c), std::string(what) + " with byte " + std::to_string(c) + (r.ok ? " accepted" : " refused: " + r.err));
            };
            one("bool", false);
            one("uint8?", std::optional<uint8_t>());
            one("string?", std::optional<std::string>());
            one("P1?", std::optional<P1>());
            one("bool??", std::optional<std::optional<bool>>());
            one("bool[2]", std::array<bool, 2>());
            one("pair<bool,bool>", std::pair<bool, bool>());
         }
   }
   // optional trailing sections: every prefix that ends between members is a value with the rest defaulted
   {
      auto vs = vals<Q3>(m);
      for (size_t i = 0; i < vs.size(); ++i)
         if (t.next()) {
            auto& v = vs[i];
            t.desc("Q3 " + std::to_string(i));
            t.count("evaluations");
            std::string full = rb(v), p0, p1;
            refbin(p0, v.a);
            p1 = p0;
            refbin(p1, v.x);
            std::string k = "opt:" + std::to_string(i) + ":" + vh::cut(vh::hexs(full), 60);
            auto        w = lib::attempt([&] { return lib::str(eosio::convert_to_bin(v)); });
            t.ok(w.ok && w.v == full, k, "optional sections written as " + vh::hexs(w.v));
            for (size_t n = 0; n <= full.size(); ++n) {
               size_t left = 9;
               auto   b    = back<Q3>(full.substr(0, n), left);
               Q3     want;
               bool   ok = true;
               want.a    = v.a;
               if (n == full.size()) {
                  want = v;
               } else if (n == p1.size() && n != p0.size())
                  want.x = v.x;
               else if (n == p0.size())
                  ;
               else
                  ok = false;
               t.ok(b.ok == ok && (!ok || b.v == rb(want)), k + "@" + std::to_string(n), "first " + std::to_string(n) + " bytes of " + vh::hexs(full) + (b.ok ? " decode to " + vh::hexs(b.v) : " refused"));
            }
         }
   }
#endif
}
VH_MAIN(run)
