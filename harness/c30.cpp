// C30: structural conversion, deferred values, reflected comparison and field enumeration, on the real templates.
#include <eosio/types.hpp>
#include "vh.hpp"
#include "lib.hpp"
#include "dom.hpp"
#include <eosio/convert.hpp>
#include <eosio/opaque.hpp>
#include <eosio/operators.hpp>
#include <eosio/for_each_field.hpp>
#include <eosio/ship_protocol.hpp>
using eosio::get_type_name;
using namespace std::string_literals;

// ==== conversion ===================================================================================================================
namespace conv {
struct src1 { // the richest record
   uint8_t     x = 1;
   std::string s = "d";
   uint16_t    y = 2;
};
EOSIO_REFLECT(src1, x, s, y)
struct narrow2 { // two of the three, in another order
   uint16_t y = 0xaaaa;
   uint8_t  x = 0xaa;
};
EOSIO_REFLECT(narrow2, y, x)
struct narrow1 {
   std::string s = "preset";
};
EOSIO_REFLECT(narrow1, s)
struct narrow0 {};
EOSIO_REFLECT(narrow0)
struct same3 { // the same members in another order
   uint16_t    y = 0xbbbb;
   std::string s = "p";
   uint8_t     x = 0xbb;
};
EOSIO_REFLECT(same3, y, s, x)
struct wide5 { // members of its own before, between and after
   int32_t                a = -7;
   uint8_t                x = 0xcc;
   std::string            b = "own";
   std::string            s = "q";
   uint16_t               y = 0xcccc;
   std::optional<uint8_t> c = 9;
};
EOSIO_REFLECT(wide5, a, x, b, s, y, c)
struct der : src1 { // members inherited from a base
   uint8_t z = 3;
};
EOSIO_REFLECT(der, base src1, z)
struct flat4 {
   uint8_t     z = 0xdd;
   uint16_t    y = 0xdddd;
   std::string s = "f";
   uint8_t     x = 0xdd;
};
EOSIO_REFLECT(flat4, z, y, s, x)
// a pair that differ in both directions: choose_first and choose_second decide which members are visited
struct left2 {
   uint8_t  x = 1;
   uint16_t l = 11;
};
EOSIO_REFLECT(left2, x, l)
struct right2 {
   uint32_t r = 77;
   uint8_t  x = 2;
};
EOSIO_REFLECT(right2, r, x)

eosio::narrowing_conversion conversion_kind(src1, narrow2);
eosio::narrowing_conversion conversion_kind(src1, narrow1);
eosio::narrowing_conversion conversion_kind(src1, narrow0);
eosio::strict_conversion    conversion_kind(src1, same3);
eosio::widening_conversion  conversion_kind(src1, wide5);
eosio::narrowing_conversion conversion_kind(der, src1);
eosio::narrowing_conversion conversion_kind(der, narrow2);
eosio::strict_conversion    conversion_kind(der, flat4);
eosio::narrowing_conversion conversion_kind(flat4, narrow2);
eosio::narrowing_conversion conversion_kind(flat4, src1);
eosio::narrowing_conversion conversion_kind(left2, right2);

// nesting: every container, and records inside records
using var_src = std::variant<src1, der, flat4>;
struct nest_src {
   uint8_t                           k = 1;
   src1                              in;
   std::vector<src1>                 v;
   std::optional<src1>               o;
   var_src                           w;
   std::vector<std::vector<src1>>    vv;
   std::vector<std::optional<src1>>  vo;
   std::optional<std::vector<src1>>  ov;
   std::vector<var_src>              vw;
   std::vector<uint8_t>              raw;
   std::optional<std::string>        os;
};
EOSIO_REFLECT(nest_src, k, in, v, o, w, vv, vo, ov, vw, raw, os)
struct nest_dst { // narrows every member, other order, drops k
   std::optional<std::string>          os;
   std::vector<narrow2>                vw;
   std::optional<std::vector<narrow2>> ov;
   std::vector<std::optional<narrow2>> vo;
   std::vector<std::vector<narrow2>>   vv;
   narrow2                             w;
   std::optional<narrow2>              o;
   std::vector<narrow2>                v;
   narrow2                             in;
   std::vector<uint8_t>                raw;
};
EOSIO_REFLECT(nest_dst, os, vw, ov, vo, vv, w, o, v, in, raw)
eosio::narrowing_conversion conversion_kind(nest_src, nest_dst);
struct wnest_src {
   src1                in;
   std::vector<src1>   v;
   std::optional<src1> o;
};
EOSIO_REFLECT(wnest_src, in, v, o)
struct wnest_dst {
   uint8_t              extra = 5;
   std::optional<wide5> o;
   std::vector<wide5>   v;
   wide5                in;
   std::vector<uint8_t> extra2{ 1, 2 };
};
EOSIO_REFLECT(wnest_dst, extra, o, v, in, extra2)
eosio::widening_conversion conversion_kind(wnest_src, wnest_dst);
struct stream_src {
   uint8_t             x = 1;
   eosio::input_stream d;
};
EOSIO_REFLECT(stream_src, x, d)
struct stream_dst {
   std::vector<char> d{ 'p' };
   uint8_t           x = 2;
};
EOSIO_REFLECT(stream_dst, d, x)
eosio::strict_conversion conversion_kind(stream_src, stream_dst);

// the oracle: written member by member
inline std::string q(const std::string& s) { return "'" + vh::hexs(s) + "'"; }
inline std::string txt(const src1& a) { return "{" + std::to_string(a.x) + q(a.s) + std::to_string(a.y) + "}"; }
inline std::string txt(const narrow2& a) { return "{y" + std::to_string(a.y) + "x" + std::to_string(a.x) + "}"; }
inline std::string txt(const narrow1& a) { return "{s" + q(a.s) + "}"; }
inline std::string txt(const narrow0&) { return "{}"; }
inline std::string txt(const same3& a) { return "{y" + std::to_string(a.y) + q(a.s) + "x" + std::to_string(a.x) + "}"; }
inline std::string txt(const wide5& a) { return "{a" + std::to_string(a.a) + "x" + std::to_string(a.x) + q(a.b) + q(a.s) + "y" + std::to_string(a.y) + "c" + (a.c ? std::to_string(*a.c) : "-") + "}"; }
inline std::string txt(const der& a) { return "{" + txt((const src1&)a) + "z" + std::to_string(a.z) + "}"; }
inline std::string txt(const flat4& a) { return "{z" + std::to_string(a.z) + "y" + std::to_string(a.y) + q(a.s) + "x" + std::to_string(a.x) + "}"; }
inline std::string txt(const std::string& s) { return q(s); }
inline std::string txt(const left2& a) { return "{x" + std::to_string(a.x) + "l" + std::to_string(a.l) + "}"; }
inline std::string txt(const right2& a) { return "{r" + std::to_string(a.r) + "x" + std::to_string(a.x) + "}"; }
inline std::string txt(uint8_t v) { return std::to_string(v); }
template <typename T>
std::string txt(const std::vector<T>& v);
template <typename T>
std::string txt(const std::optional<T>& v) {
   return v ? "(" + txt(*v) + ")" : "-";
}
template <typename T>
std::string txt(const std::vector<T>& v) {
   std::string r = "[";
   for (auto& x : v) r += txt(x) + ",";
   return r + "]";
}
inline std::string txt(const var_src& v) { return std::to_string(v.index()) + std::visit([](auto& x) { return txt(x); }, v); }
inline std::string txt(const nest_src& a) { return "k" + txt(a.k) + txt(a.in) + txt(a.v) + txt(a.o) + txt(a.w) + txt(a.vv) + txt(a.vo) + txt(a.ov) + txt(a.vw) + txt(a.raw) + txt(a.os); }
inline std::string txt(const nest_dst& a) { return "in" + txt(a.in) + " v" + txt(a.v) + " o" + txt(a.o) + " w" + txt(a.w) + " vv" + txt(a.vv) + " vo" + txt(a.vo) + " ov" + txt(a.ov) + " vw" + txt(a.vw) + " raw" + txt(a.raw) + " os" + txt(a.os); }
inline std::string txt(const wnest_src& a) { return txt(a.in) + txt(a.v) + txt(a.o); }
inline std::string txt(const wnest_dst& a) { return "e" + txt(a.extra) + txt(a.extra2) + txt(a.in) + txt(a.v) + txt(a.o); }

// expected value of a target that held "d" before
inline narrow2 want(const src1& a, narrow2 d) { d.x = a.x; d.y = a.y; return d; }
inline narrow2 want(const flat4& a, narrow2 d) { d.x = a.x; d.y = a.y; return d; }
inline narrow1 want(const src1& a, narrow1 d) { d.s = a.s; return d; }
inline narrow0 want(const src1&, narrow0 d) { return d; }
inline same3   want(const src1& a, same3 d) { d.x = a.x; d.s = a.s; d.y = a.y; return d; }
inline src1    want(const same3& a, src1 d) { d.x = a.x; d.s = a.s; d.y = a.y; return d; }
inline wide5   want(const src1& a, wide5 d) { d.x = a.x; d.s = a.s; d.y = a.y; return d; }
inline src1    want(const wide5& a, src1 d) { d.x = a.x; d.s = a.s; d.y = a.y; return d; }
inline src1    want(const src1& a, src1) { return a; }
inline src1    want(const der& a, src1 d) { d = a; return d; }
inline der     want(const src1& a, der d) { d.x = a.x; d.s = a.s; d.y = a.y; return d; }
inline flat4   want(const der& a, flat4 d) { d.x = a.x; d.s = a.s; d.y = a.y; d.z = a.z; return d; }
inline der     want(const flat4& a, der d) { d.x = a.x; d.s = a.s; d.y = a.y; d.z = a.z; return d; }
inline src1    want(const flat4& a, src1 d) { d.x = a.x; d.s = a.s; d.y = a.y; return d; }
inline flat4   want(const src1& a, flat4 d) { d.x = a.x; d.s = a.s; d.y = a.y; return d; }
inline right2  want(const left2& a, right2 d) { d.x = a.x; return d; }
inline narrow2 want(const var_src& a, narrow2 d) {
   switch (a.index()) {
      case 0: return want(std::get<0>(a), d);
      case 1: return want((const src1&)std::get<1>(a), d);
      default: return want(std::get<2>(a), d);
   }
}
inline src1 want(const var_src& a, src1 d) {
   switch (a.index()) {
      case 0: return std::get<0>(a);
      case 1: return want(std::get<1>(a), d);
      default: return want(std::get<2>(a), d);
   }
}
template <typename U, typename T>
std::vector<U> want_v(const std::vector<T>& a) {
   std::vector<U> r;
   for (auto& x : a) r.push_back(want(x, U{}));
   return r;
}
template <typename U, typename T>
std::optional<U> want_o(const std::optional<T>& a) {
   if (!a)
      return {};
   return want(*a, U{});
}
inline nest_dst want(const nest_src& a, nest_dst d) {
   d.in = want(a.in, d.in);
   d.v  = want_v<narrow2>(a.v);
   d.o  = want_o<narrow2>(a.o);
   d.w  = want(a.w, d.w);
   d.vv.clear();
   for (auto& x : a.vv) d.vv.push_back(want_v<narrow2>(x));
   d.vo.clear();
   for (auto& x : a.vo) d.vo.push_back(want_o<narrow2>(x));
   d.ov.reset();
   if (a.ov)
      d.ov = want_v<narrow2>(*a.ov);
   d.vw  = want_v<narrow2>(a.vw);
   d.raw = a.raw;
   d.os  = a.os;
   return d;
}
inline wnest_dst want(const wnest_src& a, wnest_dst d) {
   d.in = want(a.in, d.in);
   d.v  = want_v<wide5>(a.v);
   d.o  = want_o<wide5>(a.o);
   return d;
}

template <typename U, typename T, typename F>
void one(vh::T& t, const T& src, const U& before, const char* what, F chooser) {
   if (!t.next())
      return;
   std::string in = txt(src);
   t.desc(std::string(what) + " " + in);
   U   got = before;
   eosio::convert(src, got, chooser);
   U exp = want(src, before);
   t.count("evaluations");
   t.distinct("nontrivial", vh::fnv(std::string(what) + in + txt(before)));
   t.ok(txt(got) == txt(exp), std::string("convert:") + what, std::string(what) + " of " + in + " into " + txt(before) + " gives " + txt(got) + ", expected " + txt(exp));
   t.ok(txt(src) == in, std::string("convert-src:") + what, std::string(what) + " changed its source " + in);
}
template <typename S>
struct vals;
template <>
struct vals<src1> {
   static std::vector<src1> get() {
      std::vector<src1> r;
      for (uint8_t x : { 0, 1, 200 })
         for (auto s : { ""s, "a"s, "long enough to live on the heap....."s, "\0z"s })
            for (uint16_t y : { 0, 0x102, 0xffff }) r.push_back({ x, s, y });
      return r;
   }
};
inline std::vector<der> ders() {
   std::vector<der> r;
   for (auto& b : vals<src1>::get())
      for (uint8_t z : { 0, 0xfe }) {
         der d;
         (src1&)d = b;
         d.z      = z;
         r.push_back(d);
      }
   return r;
}
inline std::vector<flat4> flats() {
   std::vector<flat4> r;
   for (auto& d : ders()) r.push_back({ d.z, d.y, d.s, d.x });
   return r;
}
// sequences of up to n of the given values
template <typename T>
std::vector<std::vector<T>> seqs(const std::vector<T>& al, int n) {
   std::vector<std::vector<T>> r{ {} };
   size_t                      b = 0;
   for (int l = 1; l <= n; ++l) {
      size_t e = r.size();
      for (; b < e; ++b)
         for (auto& x : al) {
            auto y = r[b];
            y.push_back(x);
            r.push_back(y);
         }
   }
   return r;
}
template <typename T>
std::vector<std::optional<T>> opts(const std::vector<T>& al) {
   std::vector<std::optional<T>> r{ std::nullopt };
   for (auto& x : al) r.push_back(x);
   return r;
}

inline void run(vh::T& t) {
   auto first = eosio::choose_first;
   auto second = eosio::choose_second;
   auto S = vals<src1>::get();
   std::vector<narrow2> n2{ {}, { 1, 2 } };
   for (auto& s : S) {
      for (auto& d : n2) {
         one(t, s, d, "drop-reorder/first", first);
         one(t, s, d, "drop-reorder/second", second);
      }
      one(t, s, narrow1{}, "drop-all-but-text/first", first);
      one(t, s, narrow1{}, "drop-all-but-text/second", second);
      one(t, s, narrow0{}, "drop-all/first", first);
      one(t, s, narrow0{}, "drop-all/second", second);
      one(t, s, same3{}, "strict-reorder/first", first);
      one(t, s, same3{}, "strict-reorder/second", second);
      one(t, same3{ s.y, s.s, s.x }, src1{}, "strict-reorder-back/first", first);
      one(t, same3{ s.y, s.s, s.x }, src1{}, "strict-reorder-back/second", second);
      one(t, s, wide5{}, "widen/first", first);
      one(t, s, der{}, "widen-derived/first", first);
      one(t, s, flat4{}, "widen-flat/first", first);
      one(t, s, src1{}, "same-type/first", first);
      one(t, s, src1{}, "same-type/second", second);
      wide5 w;
      w.a = 3;
      w.x = s.x;
      w.b = "b";
      w.s = s.s;
      w.y = s.y;
      w.c = 4;
      one(t, w, src1{}, "narrow-wide/first", first);
      one(t, w, src1{}, "narrow-wide/second", second);
      left2 l{ s.x, s.y };
      one(t, l, right2{}, "left-right/first", first);
   }
   for (auto& s : ders()) {
      one(t, s, src1{}, "derived-to-base/first", first);
      one(t, s, src1{}, "derived-to-base/second", second);
      one(t, (const der&)s, flat4{}, "derived-flat/first", first);
      one(t, (const der&)s, flat4{}, "derived-flat/second", second);
   }
   for (auto& s : flats()) {
      one(t, s, der{}, "flat-derived/first", first);
      one(t, s, der{}, "flat-derived/second", second);
      one(t, s, src1{}, "flat-drop/first", first);
      one(t, s, narrow2{}, "flat-drop2/second", second);
   }
   std::vector<var_src> W;
   for (auto& s : S) W.push_back(s);
   for (auto& s : ders()) W.push_back(s);
   for (auto& s : flats()) W.push_back(s);
   for (auto& w : W) {
      one(t, w, narrow2{}, "variant/first", first);
      one(t, w, narrow2{}, "variant/second", second);
      one(t, w, src1{}, "variant-src1/first", first);
      one(t, w, src1{}, "variant-src1/second", second);
   }
   // containers
   bool                            big = t.thorough();
   std::vector<src1>               al{ { 1, "", 0 }, { 255, "a text that needs an allocation of its own", 7 }, { 0, "b", 0xffff } };
   std::vector<var_src>            wal{ al[0], ders()[3], flats()[5], al[1] };
   auto                            sv = seqs(al, big ? 5 : 3);
   auto                            so = opts(al);
   auto                            vo = seqs(so, big ? 4 : 2);
   std::vector<std::vector<src1>>  inner{ {}, { al[0] }, { al[1], al[2] } };
   auto                            vv = seqs(inner, big ? 4 : 3);
   auto                            ov = opts(inner);
   auto                            vw = seqs(wal, big ? 4 : 2);
   std::vector<std::vector<uint8_t>> raws{ {}, { 1 }, { 0, 255, 3 } };
   std::vector<std::optional<std::string>> oss{ std::nullopt, ""s, "text"s };
   // targets that already hold something: sizes and emptiness must follow the source
   nest_dst fresh, used;
   used.os = "old";
   used.vw.resize(4);
   used.ov = std::vector<narrow2>(3);
   used.vo.assign(3, narrow2{});
   used.vv.assign(2, std::vector<narrow2>(2));
   used.o  = narrow2{};
   used.v.resize(5);
   used.raw = { 9, 9, 9, 9, 9 };
   used.w  = { 8, 9 };
   used.in = { 8, 9 };
   wnest_dst wfresh, wused; // wused: an optional record whose own members have other than their first values
   wused.o.emplace();
   wused.o->a = 42, wused.o->b = "mine", wused.o->c = std::nullopt, wused.o->s = "old";
   auto      both = [&](const nest_src& n, const char* a, const char* b) {
      for (auto* d : { &fresh, &used }) {
         one(t, n, *d, a, first);
         one(t, n, *d, b, second);
      }
   };
   nest_src base;
   base.in = al[2];
   base.w  = al[0];
   for (auto& v : sv) {
      auto n = base;
      n.v    = v;
      both(n, "nested-seq/first", "nested-seq/second");
      one(t, wnest_src{ al[1], v, {} }, wfresh, "widen-nested/first", first);
   }
   for (auto& o : so)
      for (auto& i : S) {
         auto n = base;
         n.o    = o;
         n.in   = i;
         both(n, "nested-optional/first", "nested-optional/second");
         one(t, wnest_src{ i, { i }, o }, wfresh, "widen-nested-optional/first", first);
         one(t, wnest_src{ i, { i }, o }, wused, "widen-nested-optional-used/first", first);
      }
   for (auto& w : W) {
      auto n = base;
      n.w    = w;
      both(n, "nested-variant/first", "nested-variant/second");
   }
   for (auto& x : vo)
      for (auto& y : raws) {
         auto n = base;
         n.vo   = x;
         n.raw  = y;
         both(n, "nested-seq-optional/first", "nested-seq-optional/second");
      }
   for (auto& x : vv)
      for (auto& y : ov) {
         auto n = base;
         n.vv   = x;
         n.ov   = y;
         both(n, "nested-seq-seq/first", "nested-seq-seq/second");
      }
   for (auto& x : vw)
      for (auto& y : oss) {
         auto n = base;
         n.vw   = x;
         n.os   = y;
         both(n, "nested-seq-variant/first", "nested-seq-variant/second");
      }
   // a stretch of input becomes bytes of its own
   for (auto& v : seqs(std::vector<char>{ 0, 'a', (char)0xff }, big ? 6 : 4)) {
      if (!t.next())
         continue;
      std::vector<char> mem = v;
      stream_src        s{ 7, { mem.data(), mem.data() + mem.size() } };
      stream_dst        d;
      t.count("evaluations");
      t.distinct("nontrivial", vh::fnv("stream" + vh::hexs(v)));
      eosio::convert(s, d, eosio::choose_second);
      t.ok(d.d == v && d.x == 7 && s.d.remaining() == v.size(), "convert:stream", "input_stream of " + vh::hexs(v) + " becomes " + vh::hexs(d.d));
      stream_dst d1;
      eosio::convert(s, d1, eosio::choose_first);
      mem.assign(mem.size(), 'Z'); // the bytes are a copy
      t.ok(d1.d == v && d1.x == 7, "convert:stream-first", "input_stream of " + vh::hexs(v) + " becomes " + vh::hexs(d1.d));
   }
}
} // namespace conv

// ==== deferred values ==============================================================================================================
namespace opq {
struct pt {
   uint8_t     a = 0;
   std::string b;
};
EOSIO_REFLECT(pt, a, b)
inline bool operator==(const pt& x, const pt& y) { return x.a == y.a && x.b == y.b; }

template <typename T>
struct enclosing {
   uint8_t          before = 0;
   eosio::opaque<T> mid;
   uint16_t         after = 0;
};
template <typename T, typename F>
constexpr void eosio_for_each_field(enclosing<T>*, F f) {
   f("before", [](auto p) -> decltype(&std::decay_t<decltype(*p)>::before) { return &std::decay_t<decltype(*p)>::before; });
   f("mid", [](auto p) -> decltype(&std::decay_t<decltype(*p)>::mid) { return &std::decay_t<decltype(*p)>::mid; });
   f("after", [](auto p) -> decltype(&std::decay_t<decltype(*p)>::after) { return &std::decay_t<decltype(*p)>::after; });
}

// reference decoders: position in the inner bytes, false = refused
struct in {
   const std::vector<char>& b;
   size_t                   p = 0;
   size_t                   left() const { return b.size() - p; }
   bool                     var(uint32_t& v) { // bits past the 32nd of a fifth byte are dropped, as documented for C14
      v = 0;
      for (int s = 0; s < 35; s += 7) {
         if (!left())
            return false;
         uint8_t c = b[p++];
         v |= (uint32_t)(c & 0x7f) << s;
         if (!(c & 0x80))
            return true;
      }
      return false;
   }
   bool var64(uint64_t& v) {
      v = 0;
      for (int s = 0; s < 70; s += 7) {
         if (!left())
            return false;
         uint8_t c = b[p++];
         v |= (uint64_t)(c & 0x7f) << s;
         if (!(c & 0x80))
            return true;
      }
      return false;
   }
};
inline bool get(in& i, uint8_t& v) {
   if (i.left() < 1)
      return false;
   v = i.b[i.p++];
   return true;
}
inline bool get(in& i, uint16_t& v) {
   if (i.left() < 2)
      return false;
   v = (uint8_t)i.b[i.p] | (uint8_t)i.b[i.p + 1] << 8;
   i.p += 2;
   return true;
}
inline bool get(in& i, eosio::varuint32& v) { return i.var(v.value); }
inline bool get(in& i, std::string& v) {
   uint32_t n;
   if (!i.var(n) || i.left() < n)
      return false;
   v.assign(i.b.data() + i.p, n);
   i.p += n;
   return true;
}
inline bool get(in& i, pt& v) { return get(i, v.a) && get(i, v.b); }
template <typename T>
bool get(in& i, std::optional<T>& v) {
   uint8_t f;
   if (!get(i, f) || f > 1)
      return false; // any flag above 1 is handled below
   if (!f)
      return true;
   v.emplace();
   return get(i, *v);
}
template <typename T>
bool get(in& i, std::vector<T>& v) {
   uint64_t n;
   if constexpr (std::is_integral_v<T>) { // the count of a block of integers may take up to ten bytes
      if (!i.var64(n))
         return false;
   } else {
      uint32_t m;
      if (!i.var(m))
         return false;
      n = m;
   }
   if (n > 100000)
      return false; // elements take at least one byte here
   for (uint64_t k = 0; k < n; ++k) {
      T x{};
      if (!get(i, x))
         return false;
      v.push_back(std::move(x));
   }
   return true;
}
template <typename T, typename U>
bool get(in& i, std::variant<T, U>& v) {
   uint32_t n;
   if (!i.var(n) || n > 1)
      return false;
   if (n == 0)
      return get(i, v.template emplace<0>());
   return get(i, v.template emplace<1>());
}
template <typename T>
bool same(const T& a, const T& b) {
   return a == b;
}
inline bool same(const eosio::varuint32& a, const eosio::varuint32& b) { return a.value == b.value; }
template <typename T>
bool same(const std::vector<T>& a, const std::vector<T>& b) {
   if (a.size() != b.size())
      return false;
   for (size_t i = 0; i < a.size(); ++i)
      if (!same(a[i], b[i]))
         return false;
   return true;
}

// enclosing bytes: 0x11, length, inner, 0x22 0x33; what follows is plausible data, so an over-read would succeed silently
inline std::vector<char> wrap(const std::vector<char>& inner) {
   std::vector<char> r{ 0x11 };
   uint32_t          n = inner.size();
   do {
      r.push_back((char)((n & 0x7f) | (n > 0x7f ? 0x80 : 0)));
      n >>= 7;
   } while (n);
   r.insert(r.end(), inner.begin(), inner.end());
   r.push_back(1);
   r.push_back(1);
   return r;
}
template <typename F>
bool tryit(F f, std::string* why = nullptr) {
   try {
      f();
      return true;
   } catch (std::exception& e) {
      if (why)
         *why = e.what();
      return false;
   }
}

template <typename T>
void whole(vh::T& t, const char* name, const std::vector<char>& inner) {
   t.count("evaluations");
   std::string tag = std::string(name) + ":" + vh::hexs(inner);
   t.distinct("nontrivial", vh::fnv(tag));
   auto                  bin = wrap(inner);
   eosio::input_stream   s(bin);
   enclosing<T>          e;
   std::string           why;
   if (!t.ok(tryit([&] { eosio::from_bin(e, s); }, &why), std::string("opaque-enclosing:") + name, tag + " refused inside its record: " + why))
      return;
   t.ok(e.before == 0x11 && e.after == 0x0101 && s.remaining() == 0, std::string("opaque-align:") + name, tag + " leaves the enclosing record misaligned");
   t.ok(e.mid.empty() == inner.empty(), std::string("opaque-empty:") + name, tag + " empty() is wrong");
   std::vector<char> again;
   if (t.ok(tryit([&] { again = eosio::convert_to_bin(e); }, &why), std::string("opaque-rewrite:") + name, tag + " cannot be written: " + why))
      t.ok(again == bin, std::string("opaque-rewrite:") + name, tag + " is written back as " + vh::hexs(again));
   in   r{ inner };
   T    exp{}, got{};
   bool ok = get(r, exp);
   bool lib = tryit([&] { e.mid.unpack(got); }, &why);
   t.ok(ok == lib, std::string("opaque-accept:") + name, tag + (ok ? " refused by unpack: " + why : " accepted by unpack"));
   if (ok && lib) {
      t.ok(same(exp, got), std::string("opaque-value:") + name, tag + " unpacks to another value");
      t.ok(e.mid.empty() == (r.left() == 0), std::string("opaque-rest:") + name, tag + " empty() after unpacking is wrong");
   }
   // the other constructors, and the variant returning a value
   std::vector<char>   prefixed(bin.begin() + 1, bin.end()), raw = inner;
   eosio::opaque<T>    a(raw), b{ eosio::input_stream(prefixed) };
   for (auto* o : { &a, &b }) {
      T    v{};
      bool l2 = tryit([&] { v = o->unpack(); }, &why);
      t.ok(l2 == ok, std::string("opaque-ctor:") + name, tag + " differs between constructors");
      if (l2 && ok)
         t.ok(same(exp, v) && o->empty() == (r.left() == 0), std::string("opaque-ctor-value:") + name, tag + " differs between constructors");
   }
   // a prefix that promises more than there is must be refused by the enclosing record
   for (size_t cutn = 1; cutn <= std::min<size_t>(3 + inner.size(), 4); ++cutn) {
      std::vector<char>   c(bin.begin(), bin.end() - cutn);
      eosio::input_stream cs(c);
      enclosing<T>        e2;
      t.ok(!tryit([&] { eosio::from_bin(e2, cs); }), std::string("opaque-truncated:") + name, tag + " cut by " + std::to_string(cutn) + " is accepted");
   }
}

// element by element: all call sequences
template <typename T>
void walk(vh::T& t, const char* name, const std::vector<char>& inner, int depth) {
   t.count("evaluations");
   std::string tag = std::string(name) + ":" + vh::hexs(inner);
   t.distinct("nontrivial", vh::fnv("walk" + tag));
   auto                bin = wrap(inner);
   eosio::input_stream s(bin);
   enclosing<std::vector<T>> e;
   std::string               why;
   if (!t.ok(tryit([&] { eosio::from_bin(e, s); }, &why), std::string("opaque-enclosing:") + name, tag + " refused inside its record: " + why))
      return;
   std::function<void(const eosio::opaque<std::vector<T>>&, size_t, const std::string&, int)> step =
         [&](const eosio::opaque<std::vector<T>>& at, size_t pos, const std::string& hist, int d) {
            t.count("call_sequences");
            t.ok(at.empty() == (pos == inner.size()), std::string("walk-empty:") + name, tag + " after" + hist + ": empty() is wrong");
            if (d == 0)
               return;
            for (int op = 0; op < 5; ++op) {
               auto        o = at; // the remaining history continues from a copy
               in          r{ inner, pos };
               bool        ok, lib;
               std::string h = hist;
               bool        eq = true;
               if (op == 0) {
                  uint32_t n;
                  size_t   got = 0;
                  ok           = r.var(n);
                  lib          = tryit([&] { got = o.unpack_size(); }, &why);
                  eq           = !ok || got == n;
                  h += " size";
               } else if (op == 1 || op == 2) {
                  T x{}, y{};
                  ok  = get(r, x);
                  lib = tryit([&] { op == 1 ? o.unpack_next(y) : (void)(y = o.unpack_next()); }, &why);
                  eq  = !ok || same(x, y);
                  h += op == 1 ? " next&" : " next";
               } else {
                  std::vector<T> x, y;
                  ok  = get(r, x);
                  lib = tryit([&] { op == 3 ? o.unpack(y) : (void)(y = o.unpack()); }, &why);
                  eq  = !ok || same(x, y);
                  h += op == 3 ? " whole&" : " whole";
               }
               t.ok(ok == lib, std::string("walk-accept:") + name, tag + " after" + h + (ok ? " refused: " + why : " accepted"));
               t.ok(!lib || eq, std::string("walk-value:") + name, tag + " after" + h + " gives another value");
               if (ok && lib && eq)
                  step(o, r.p, h, d - 1);
            }
         };
   step(e.mid, 0, "", depth);
   // the source is not consumed by what was done with its copies
   t.ok(eosio::convert_to_bin(e) == bin, std::string("walk-source:") + name, tag + " changed by reading from copies");
}

template <typename T>
void contents(vh::T& t, const char* name, const std::vector<std::vector<char>>& all) {
   for (auto& b : all) {
      if (!t.next())
         continue;
      t.desc(std::string(name) + " " + vh::hexs(b));
      whole<T>(t, name, b);
   }
}
template <typename T>
void walks(vh::T& t, const char* name, const std::vector<std::vector<char>>& all, int depth) {
   for (auto& b : all) {
      if (!t.next())
         continue;
      t.desc(std::string(name) + " " + vh::hexs(b));
      walk<T>(t, name, b, depth);
      whole<std::vector<T>>(t, name, b);
   }
}
// every encoded value of library types, whole
template <typename T>
void values(vh::T& t, const char* name) {
   for (auto& v : small<T>(40)) {
      if (!t.next())
         continue;
      t.desc(name);
      auto inner = eosio::convert_to_bin(v);
      t.count("evaluations");
      t.distinct("nontrivial", vh::fnv(std::string("v") + name + vh::hexs(inner)));
      auto                bin = wrap(inner);
      eosio::input_stream s(bin);
      enclosing<T>        e;
      std::string         why;
      if (!t.ok(tryit([&] { eosio::from_bin(e, s); }, &why), std::string("opaque-value-enclosing:") + name, std::string(name) + " " + vh::hexs(inner) + ": " + why))
         continue;
      t.ok(e.before == 0x11 && e.after == 0x0101 && !s.remaining(), std::string("opaque-value-align:") + name, std::string(name) + " " + vh::hexs(inner));
      t.ok(eosio::convert_to_bin(e) == bin, std::string("opaque-value-rewrite:") + name, std::string(name) + " " + vh::hexs(inner));
      T back{};
      if (t.ok(tryit([&] { back = e.mid.unpack(); }, &why), std::string("opaque-value-unpack:") + name, std::string(name) + " " + vh::hexs(inner) + ": " + why))
         t.ok(cmp(back, v) == 0 && e.mid.empty(), std::string("opaque-value-back:") + name, std::string(name) + " " + vh::hexs(inner) + " unpacks to another value");
      // a value that lacks its last byte must not borrow from the enclosing record
      if (inner.size() > 1 || (inner.size() == 1 && !std::is_same_v<T, std::string>)) {
         std::vector<char>   shorter(inner.begin(), inner.end() - 1);
         auto                sb = wrap(shorter);
         eosio::input_stream ss(sb);
         enclosing<T>        e2;
         if (t.ok(tryit([&] { eosio::from_bin(e2, ss); }, &why), std::string("opaque-short:") + name, std::string(name) + " " + vh::hexs(shorter)))
            t.ok(!tryit([&] { e2.mid.unpack(); }), std::string("opaque-borrow:") + name, std::string(name) + " " + vh::hexs(shorter) + " is accepted: bytes after the value were used");
      }
   }
}
inline void run(vh::T& t) {
   bool big = t.thorough();
   auto all = conv::seqs(std::vector<char>{ 0, 1, 2, 3, 'a', (char)0x80, (char)0xff }, big ? 6 : 5);
   contents<uint8_t>(t, "uint8", all);
   contents<uint16_t>(t, "uint16", all);
   contents<eosio::varuint32>(t, "varuint32", all);
   contents<std::string>(t, "string", all);
   contents<pt>(t, "record", all);
   contents<std::vector<uint16_t>>(t, "seq-uint16", all);
   contents<std::variant<uint16_t, std::string>>(t, "variant", all);
   contents<std::vector<std::vector<uint8_t>>>(t, "seq-seq", all);
   auto few = conv::seqs(std::vector<char>{ 0, 1, 2, 'a', (char)0x80, (char)0xff }, big ? 6 : 5);
   int  d   = big ? 5 : 4;
   walks<uint8_t>(t, "uint8", few, d);
   walks<uint16_t>(t, "uint16", few, d);
   walks<std::string>(t, "string", few, d);
   walks<eosio::varuint32>(t, "varuint32", few, d);
   walks<pt>(t, "record", few, d);
   walks<std::vector<uint8_t>>(t, "seq", few, d);
   walks<std::variant<uint16_t, std::string>>(t, "variant", few, d);
   // lengths around the limits of one, two and three length bytes
   for (size_t n : { 0, 1, 126, 127, 128, 129, 255, 256, 300, 263, 264, 265, 519, 520, 1032, 16382, 16383, 16384, 16385, 32776, 65535, 65536, 65537, 65543, 65544, 65545, 70000, 131080, 1048584, 16777224 }) {
      if (!t.next())
         continue;
      std::vector<char> b(n);
      for (size_t i = 0; i < n; ++i) b[i] = (char)(i * 31 + n);
      auto                bin = wrap(b);
      eosio::input_stream s(bin);
      enclosing<uint64_t> e;
      std::string         why;
      t.count("evaluations");
      t.distinct("nontrivial", vh::fnv("length" + std::to_string(n)));
      t.ok(tryit([&] { eosio::from_bin(e, s); }, &why) && e.after == 0x0101 && !s.remaining() && eosio::convert_to_bin(e) == bin, "opaque-length", std::to_string(n) + " bytes: " + why);
      if (n >= 8) {
         uint64_t v = 0, x = 0;
         memcpy(&x, b.data(), 8);
         t.ok(tryit([&] { v = e.mid.unpack(); }, &why) && v == x && e.mid.empty() == (n == 8), "opaque-length-value", std::to_string(n) + " bytes: " + why);
      }
   }
   values<uint64_t>(t, "uint64");
   values<int8_t>(t, "int8");
   values<double>(t, "double");
   values<eosio::name>(t, "name");
   values<eosio::asset>(t, "asset");
   values<eosio::time_point>(t, "time_point");
   values<eosio::checksum256>(t, "checksum256");
   values<eosio::bytes>(t, "bytes");
   values<eosio::varuint32>(t, "varuint32");
   values<std::optional<uint16_t>>(t, "optional");
   values<std::vector<std::string>>(t, "strings");
   values<std::map<uint8_t, std::string>>(t, "map");
   values<std::variant<uint8_t, std::string>>(t, "variant");
   values<rec2<uint16_t, std::string>>(t, "rec2");
   values<derived<uint16_t, std::vector<uint8_t>>>(t, "derived");
   if (t.next()) {
      t.count("evaluations");
      t.distinct("nontrivial", vh::fnv("names"));
      t.ok(get_type_name((eosio::opaque<uint8_t>*)nullptr) == "bytes"s && get_type_name((eosio::opaque<std::vector<pt>>*)nullptr) == "bytes"s, "opaque-type-name", "the schema type of a deferred value is not bytes");
      eosio::opaque<uint8_t> none;
      t.ok(none.empty() && !tryit([&] { none.unpack(); }), "opaque-default", "a default constructed deferred value is not empty");
   }
}
} // namespace opq

// ==== comparison ===================================================================================================================
namespace cmpn {
struct c3 {
   int8_t      a = 0;
   std::string b;
   uint64_t    c = 0;
   int         twice() const { return 2; }
};
EOSIO_REFLECT(c3, a, twice, b, c)
EOSIO_COMPARE(c3);
struct cd : c3 {
   bool d = false;
};
EOSIO_REFLECT(cd, base c3, d)
EOSIO_COMPARE(cd);
struct cn { // nested, with containers; declared order differs from reflected order
   std::vector<int8_t>   v;
   c3                    r;
   std::optional<int8_t> o;
};
EOSIO_REFLECT(cn, o, r, v)
EOSIO_COMPARE(cn);
struct cp {
   int8_t x = 0;
   int8_t hidden = 0; // not reflected: not compared
   uint16_t y = 0;
};
EOSIO_REFLECT(cp, y, x)
EOSIO_COMPARE(cp);
struct c0 {};
EOSIO_REFLECT(c0)
EOSIO_COMPARE(c0);
struct clt { // only has operator<
   int8_t v = 0;
};
inline bool operator<(const clt& a, const clt& b) { return a.v < b.v; }
inline bool operator==(const clt& a, const clt& b) { return a.v == b.v; }
struct cw {
   clt    a;
   int8_t b = 0;
};
EOSIO_REFLECT(cw, a, b)
EOSIO_COMPARE(cw);
} // namespace cmpn
using cmpn::c3;
template <>
struct Ord<cmpn::c3> {
   static int cmp(const c3& a, const c3& b) {
      if (int c = num(a.a, b.a))
         return c;
      if (int c = ::cmp(a.b, b.b))
         return c;
      return num(a.c, b.c);
   }
};
template <>
struct Ord<cmpn::cd> {
   static int cmp(const cmpn::cd& a, const cmpn::cd& b) {
      int c = Ord<c3>::cmp(a, b);
      return c ? c : num((int)a.d, (int)b.d);
   }
};
template <>
struct Ord<cmpn::cn> {
   static int cmp(const cmpn::cn& a, const cmpn::cn& b) {
      if (int c = ::cmp(a.o, b.o))
         return c;
      if (int c = ::cmp(a.r, b.r))
         return c;
      return ::cmp(a.v, b.v);
   }
};
template <>
struct Ord<cmpn::cp> {
   static int cmp(const cmpn::cp& a, const cmpn::cp& b) {
      int c = num(a.y, b.y);
      return c ? c : num(a.x, b.x);
   }
};
template <>
struct Ord<cmpn::c0> {
   static int cmp(const cmpn::c0&, const cmpn::c0&) { return 0; }
};
template <>
struct Ord<cmpn::cw> {
   static int cmp(const cmpn::cw& a, const cmpn::cw& b) {
      int c = num(a.a.v, b.a.v);
      return c ? c : num(a.b, b.b);
   }
};
template <>
struct Ord<eosio::ship_protocol::account_auth_sequence> {
   using T = eosio::ship_protocol::account_auth_sequence;
   static int cmp(const T& a, const T& b) {
      int c = ::cmp(a.account, b.account);
      return c ? c : num((uint64_t)a.sequence, (uint64_t)b.sequence);
   }
};
template <>
struct Ord<eosio::ship_protocol::account_delta> {
   using T = eosio::ship_protocol::account_delta;
   static int cmp(const T& a, const T& b) {
      int c = ::cmp(a.account, b.account);
      return c ? c : num((int64_t)a.delta, (int64_t)b.delta);
   }
};
namespace cmpn {
template <typename T>
void pairs(vh::T& t, const char* name, const std::vector<T>& d) {
   for (auto& a : d) {
      if (!t.next())
         continue;
      t.desc(name);
      for (size_t j = 0; j < d.size(); ++j) {
         auto& b   = d[j];
         T     b2  = b; // never the same object
         int   c   = ::cmp(a, b2);
         int   got = (a == b2) | (a != b2) << 1 | (a < b2) << 2 | (a > b2) << 3 | (a <= b2) << 4 | (a >= b2) << 5;
         int   exp = (c == 0) | (c != 0) << 1 | (c < 0) << 2 | (c > 0) << 3 | (c <= 0) << 4 | (c >= 0) << 5;
         t.count("evaluations");
         t.count("pairs");
         if (got != exp)
            t.fail(std::string("compare:") + name, std::string(name) + " values " + std::to_string(t.cur) + " and " + std::to_string(j) + ": operators (==,!=,<,>,<=,>= from the lowest bit) give " + std::to_string(got) + ", expected " + std::to_string(exp));
         int s = eosio_compare(a, b2);
         if ((s > 0) - (s < 0) != (c > 0) - (c < 0))
            t.fail(std::string("compare-sign:") + name, std::string(name) + " values " + std::to_string(t.cur) + " and " + std::to_string(j) + ": eosio_compare gives " + std::to_string(s) + ", expected sign of " + std::to_string(c));
      }
      t.distinct("nontrivial", vh::fnv(std::string("cmp") + name + std::to_string(t.cur)));
   }
}
template <typename T>
void lib(vh::T& t, const char* name, size_t quick, size_t thorough) {
   pairs<T>(t, name, small<T>(t.thorough() ? thorough : quick));
}
inline std::vector<c3> c3s(bool big) {
   std::vector<c3> r;
   for (int8_t a : { -128, -1, 0, 1, 127 })
      for (auto& b : small<std::string>(big ? 60 : 10))
         for (uint64_t c : { 0ull, 1ull, 1ull << 31, 1ull << 32, 1ull << 63, ~0ull }) {
            c3 x;
            x.a = a;
            x.b = b;
            x.c = c;
            r.push_back(x);
         }
   return r;
}
inline void run(vh::T& t) {
   bool big = t.thorough();
   auto A   = c3s(big);
   pairs(t, "record", A);
   std::vector<cd> D;
   for (auto& a : spread(A, big ? 900 : 200))
      for (bool d : { false, true }) {
         cd x;
         (c3&)x = a;
         x.d    = d;
         D.push_back(x);
      }
   pairs(t, "derived", D);
   std::vector<cn> N;
   for (auto& v : conv::seqs(std::vector<int8_t>{ -1, 0, 1 }, 2))
      for (auto& r : spread(A, big ? 30 : 8))
         for (auto o : std::vector<std::optional<int8_t>>{ std::nullopt, int8_t(-1), int8_t(0), int8_t(1) }) {
            cn x;
            x.v = v;
            x.r = r;
            x.o = o;
            N.push_back(x);
         }
   pairs(t, "nested", N);
   std::vector<cp> P;
   for (int8_t x : { -128, -1, 0, 1, 127 })
      for (int8_t h : { -1, 0, 1 })
         for (uint16_t y : { 0, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff }) P.push_back({ x, h, y });
   pairs(t, "partial", P);
   pairs(t, "empty", std::vector<c0>(3));
   std::vector<cw> W;
   for (int a : { -128, -1, 0, 1, 127 })
      for (int b : { -128, -1, 0, 1, 127 }) W.push_back({ { (int8_t)a }, (int8_t)b });
   pairs(t, "less-only", W);
   lib<eosio::microseconds>(t, "microseconds", 400, 2000);
   lib<eosio::time_point>(t, "time_point", 400, 2000);
   lib<eosio::symbol_code>(t, "symbol_code", 400, 2000);
   lib<eosio::symbol>(t, "symbol", 400, 2000);
   lib<eosio::extended_symbol>(t, "extended_symbol", 400, 2000);
   lib<eosio::checksum160>(t, "checksum160", 300, 1500);
   lib<eosio::checksum256>(t, "checksum256", 300, 1500);
   lib<eosio::checksum512>(t, "checksum512", 300, 1500);
   lib<eosio::float128>(t, "float128", 300, 1500);
   lib<eosio::bytes>(t, "bytes", 400, 2000);
   lib<eosio::name>(t, "name", 400, 2000);
   lib<eosio::webauthn_public_key>(t, "webauthn_public_key", 400, 2000);
   lib<eosio::webauthn_signature>(t, "webauthn_signature", 400, 2000);
   std::vector<eosio::ship_protocol::account_auth_sequence> Q;
   std::vector<eosio::ship_protocol::account_delta>         L;
   for (auto& n : small<eosio::name>(20))
      for (auto& v : small<uint64_t>(20)) {
         Q.push_back({ n, v });
         eosio::ship_protocol::account_delta d;
         d.account = n;
         d.delta   = (int64_t)v;
         L.push_back(d);
      }
   pairs(t, "account_auth_sequence", Q);
   pairs(t, "account_delta", L);
}
} // namespace cmpn

// ==== field enumeration ============================================================================================================
namespace fields {
struct m {
   int         a = 1;
   int         f(int x) { return x + a; }
   std::string b = "two";
   int         g(int x) { return x * 2; }
   uint8_t     c = 3;
};
EOSIO_REFLECT(m, a, f, b, g, c)
struct n : m {
   bool d = true;
   int  h(int x) { return -x; }
};
EOSIO_REFLECT(n, d, base m, h)
struct e {};
EOSIO_REFLECT(e)
inline std::string show(int v) { return std::to_string(v); }
inline std::string show(const std::string& s) { return s; }
template <typename R>
std::string names() {
   std::string s;
   eosio::for_each_field<R>([&](const char* n, auto) { s += n + ","s; });
   return s;
}
template <typename R>
std::string methods(R r) {
   std::string s;
   eosio::for_each_method<R>([&](const char* n, auto p) { s += n + "="s + std::to_string((r.*p)(5)) + ","; });
   return s;
}
template <typename R>
std::string values(R&& r) {
   std::string s;
   eosio::for_each_field(std::forward<R>(r), [&](auto& v) { s += show(v) + ","; });
   return s;
}
inline void run(vh::T& t) {
   auto is = [&](const std::string& got, const std::string& exp, const char* what) {
      if (!t.next())
         return;
      t.count("evaluations");
      t.distinct("nontrivial", vh::fnv(std::string("field") + what));
      t.ok(got == exp, std::string("fields:") + what, std::string(what) + " gives \"" + got + "\", expected \"" + exp + "\"");
   };
   is(names<m>(), "a,b,c,", "member names");
   is(names<n>(), "d,a,b,c,", "member names with a base in second place");
   is(names<e>(), "", "member names of an empty record");
   is(methods(m{}), "f=6,g=10,", "functions");
   is(methods(n{}), "f=6,g=10,h=-5,", "functions with a base");
   is(methods(e{}), "", "functions of an empty record");
   is(values(m{}), "1,two,3,", "members of a temporary");
   const n cn{};
   is(values(cn), "1,1,two,3,", "members of a constant");
   n x;
   eosio::for_each_field(x, [&](auto& v) {
      if constexpr (std::is_same_v<std::decay_t<decltype(v)>, std::string>)
         v = "changed";
      else
         v = 0;
   });
   is(values(x), "0,0,changed,0,", "members written through the references");
   n y;
   eosio::for_each_field<n>([&](const char* nm, auto mem) {
      if constexpr (std::is_same_v<std::decay_t<decltype(mem(&y))>, std::string>)
         mem(&y) = nm;
      else
         mem(&y) = nm[0] == 'd' ? 0 : 9;
   });
   is(values(y), "0,9,b,9,", "members written through the accessors");
}
} // namespace fields

void run(vh::T& t) {
   fields::run(t);
   conv::run(t);
   opq::run(t);
   cmpn::run(t);
}
VH_MAIN(run)
