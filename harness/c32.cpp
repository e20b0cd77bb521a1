// C32: value types compare and compute as the values they hold: all pairs over boundary domains, every block slot.
#include "vh.hpp"
#include "lib.hpp"
#include "ref.hpp"
#include <eosio/asset.hpp>
#include <eosio/bytes.hpp>
#include <eosio/crypto.hpp>
#include <eosio/ship_protocol.hpp>
#include <eosio/symbol.hpp>
#include <eosio/time.hpp>
#include <eosio/varint.hpp>
#include <set>
using i128 = __int128;
using std::string;

static string dig(i128 v) {
   bool n = v < 0;
   string s;
   do {
      s.insert(s.begin(), char('0' + int(n ? -(v % 10) : v % 10)));
      v /= 10;
   } while (v);
   return (n ? "-" : "") + s;
}
// ---- comparison
enum { EQ = 1, NE = 2, LT = 4, GT = 8, LE = 16, GE = 32 };
#define OP(NAME, OPER)                                                                                                 \
   template <typename A, typename B, typename = decltype(bool(std::declval<const A&>() OPER std::declval<const B&>()))> \
   int NAME(const A& a, const B& b, int bit, int, int& has) {                                                          \
      has |= bit;                                                                                                      \
      return a OPER b ? bit : 0;                                                                                       \
   }                                                                                                                   \
   template <typename A, typename B>                                                                                   \
   int NAME(const A&, const B&, int, long, int&) {                                                                     \
      return 0;                                                                                                        \
   }
OP(eq, ==)
OP(ne, !=)
OP(lt, <)
OP(gt, >)
OP(le, <=)
OP(ge, >=)
template <typename A, typename B>
int ops(const A& a, const B& b, int& has) {
   has = 0;
   return eq(a, b, EQ, 0, has) | ne(a, b, NE, 0, has) | lt(a, b, LT, 0, has) | gt(a, b, GT, 0, has) | le(a, b, LE, 0, has) | ge(a, b, GE, 0, has);
}
static int want_ops(int c) { return (c == 0 ? EQ | LE | GE : NE) | (c < 0 ? LT | LE : 0) | (c > 0 ? GT | GE : 0); }
// rank: position of every value in the order its contents prescribe
template <typename A, typename B>
void order(vh::T& t, const string& name, const std::vector<A>& as, const std::vector<B>& bs, const std::vector<i128>& ra, const std::vector<i128>& rb, int need) {
   for (size_t i = 0; i < as.size(); ++i)
      if (t.next()) {
         t.desc(name + " value " + std::to_string(i));
         for (size_t j = 0; j < bs.size(); ++j) {
            int has, got = ops(as[i], bs[j], has), w = want_ops(ra[i] < rb[j] ? -1 : ra[i] > rb[j]);
            t.count("evaluations");
            t.distinct("nontrivial", vh::mix(vh::mix(vh::fnv(name), i), j));
            if ((has & need) != need)
               t.fail("missing:" + name, "operators missing: " + std::to_string(need & ~has));
            if (got != (w & has))
               t.fail("cmp:" + name + ":" + dig(ra[i]) + "," + dig(rb[j]), "operators " + std::to_string(got) + " of " + std::to_string(has) + ", expected " + std::to_string(w & has));
         }
      }
}
// A total order that separates values with different encodings; which one is not prescribed.
template <typename A>
void some_order(vh::T& t, const string& name, std::vector<A> v) {
   if (!t.next())
      return;
   t.desc(name);
   auto bin = [](const A& a) { return lib::str(eosio::convert_to_bin(a)); };
   std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a < b; });
   std::vector<i128> r(v.size());
   for (size_t i = 1; i < v.size(); ++i) r[i] = r[i - 1] + (bin(v[i]) != bin(v[i - 1]));
   std::set<string> all;
   for (auto& x : v) all.insert(bin(x));
   t.ok(!v.size() || r.back() + 1 == i128(all.size()), "groups:" + name, "equal values are not neighbours after sorting");
   for (size_t i = 0; i < v.size(); ++i)
      for (size_t j = 0; j < v.size(); ++j) {
         int has, got = ops(v[i], v[j], has), w = want_ops(r[i] < r[j] ? -1 : r[i] > r[j]);
         t.count("evaluations");
         t.distinct("nontrivial", vh::mix(vh::mix(vh::fnv(name), i), j));
         if (has != 63 || got != w)
            t.fail("cmp:" + name, vh::hexs(bin(v[i])) + " and " + vh::hexs(bin(v[j])) + ": operators " + std::to_string(got) + " of " + std::to_string(has) + ", expected " + std::to_string(w));
      }
}
// ---- domains
static std::vector<i128> around(i128 lo, i128 hi, bool more) {
   std::set<i128> s;
   auto           put = [&](i128 v) {
      for (int d = -3; d <= 3; ++d)
         if (v + d >= lo && v + d <= hi)
            s.insert(v + d);
   };
   put(0);
   put(lo);
   put(hi);
   for (int b = 7; b < 65; b += more ? 1 : b % 8 == 7 ? 1 : b % 8 == 0 ? 7 : 1) {
      put(i128(1) << b);
      put(-(i128(1) << b));
   }
   for (i128 p = 10; p < i128(1) << 64; p *= 10) {
      put(p);
      put(-p);
   }
   for (i128 x : { i128(946684800), i128(946684800000), i128(946684800000000), i128(500), i128(500000), i128(1529090267), i128(1529090267999), i128(1529090267999999), i128(60), i128(3600), i128(86400), i128(4294967295) * 1000000, i128(9223372036854) }) {
      put(x);
      put(-x);
      if (more) {
         put(x / 2);
         put(x * 3);
      }
   }
   return { s.begin(), s.end() };
}
template <typename T>
bool fits(i128 v) {
   return v >= std::numeric_limits<T>::min() && v <= i128(std::numeric_limits<T>::max());
}
template <typename T, typename F>
std::vector<T> make(const std::vector<i128>& d, F f) {
   std::vector<T> r;
   for (auto x : d) r.push_back(f(x));
   return r;
}
template <typename F>
static string thrown(F&& f) {
   try {
      f();
      return "(none)";
   } catch (std::runtime_error& e) { return string("E:") + e.what(); } catch (...) {
      return "(other)";
   }
}
static const i128 EPOCH_MS = 946684800000;

static void slot_case(vh::T& t, uint32_t s) {
   using namespace eosio;
   block_timestamp b(s);
   time_point      p  = b;
   i128            us = (i128(s) * 500 + EPOCH_MS) * 1000;
   if (i128(p.elapsed.count()) != us || b.to_time_point().elapsed.count() != p.elapsed.count()) {
      t.fail("slot:" + std::to_string(s), "time point " + dig(p.elapsed.count()));
      return;
   }
   block_timestamp c(p), d, e(time_point(microseconds(int64_t(us + 499999))));
   d = p;
   if (c.slot != s || d.slot != s || e.slot != s)
      t.fail("slotback:" + std::to_string(s), "slots " + std::to_string(c.slot) + " " + std::to_string(d.slot) + " " + std::to_string(e.slot));
   if (s != 0xffffffff && (b.next().slot != s + 1 || b.slot != s))
      t.fail("next:" + std::to_string(s), std::to_string(b.next().slot));
}
static void run(vh::T& t) {
   using namespace eosio;
   bool more = t.thorough();
   auto u32 = around(0, 0xffffffffll, more), s32 = around(INT32_MIN, INT32_MAX, more), s64 = around(INT64_MIN, INT64_MAX, more), u64 = around(0, i128(UINT64_MAX), more);
   auto uints = make<uint32_t>(u32, [](i128 x) { return uint32_t(x); });
   auto ints  = make<int32_t>(s32, [](i128 x) { return int32_t(x); });
   // -- comparison
   {
      auto a = make<unsigned_int>(u32, [](i128 x) { return unsigned_int(uint32_t(x)); });
      order(t, "varuint32", a, a, u32, u32, EQ | NE | LT | GE);
      order(t, "varuint32/uint32", a, uints, u32, u32, EQ | NE | LT | GE);
      order(t, "uint32/varuint32", uints, a, u32, u32, EQ | NE | LT | GE);
      auto b = make<signed_int>(s32, [](i128 x) { return signed_int(int32_t(x)); });
      order(t, "varint32", b, b, s32, s32, EQ | NE | LT | GE);
      order(t, "varint32/int32", b, ints, s32, s32, EQ | NE | LT | GE);
      order(t, "int32/varint32", ints, b, s32, s32, EQ | NE | LT | GE);
   }
   auto mk64 = [](i128 x) { return uint64_t(x); };
   {
      auto a = make<symbol_code>(u64, [](i128 x) { return symbol_code(uint64_t(x)); });
      order(t, "symbol_code", a, a, u64, u64, 63);
      auto b = make<symbol>(u64, [](i128 x) { return symbol(uint64_t(x)); });
      order(t, "symbol", b, b, u64, u64, 63);
      auto c = make<name>(u64, [](i128 x) { return name(uint64_t(x)); });
      order(t, "name", c, c, u64, u64, 63);
      auto d = make<microseconds>(s64, [](i128 x) { return microseconds(int64_t(x)); });
      order(t, "microseconds", d, d, s64, s64, 63);
      auto e = make<time_point>(s64, [](i128 x) { return time_point(microseconds(int64_t(x))); });
      order(t, "time_point", e, e, s64, s64, 63);
      auto f = make<time_point_sec>(u32, [](i128 x) { return time_point_sec(uint32_t(x)); });
      order(t, "time_point_sec", f, f, u32, u32, 63);
      auto g = make<block_timestamp>(u32, [](i128 x) { return block_timestamp(uint32_t(x)); });
      order(t, "block_timestamp", g, g, u32, u32, 63);
      // pairs of members: the first decides
      std::vector<i128> small = { 0, 1, 255, 256, i128(1) << 32, i128(INT64_MAX), i128(INT64_MAX) + 1, i128(UINT64_MAX) }, rank, rank2;
      std::vector<extended_symbol>                       xs;
      std::vector<ship_protocol::account_auth_sequence>  as;
      std::vector<ship_protocol::account_delta>          ds;
      for (size_t i = 0; i < small.size(); ++i)
         for (size_t j = 0; j < small.size(); ++j) {
            rank.push_back(i * small.size() + j);
            xs.push_back(extended_symbol(symbol(mk64(small[i])), name(mk64(small[j]))));
            as.push_back({ name(mk64(small[i])), mk64(small[j]) });
            ds.push_back({ name(mk64(small[i])), int64_t(mk64(small[j])) });
            rank2.push_back(i128(i) * small.size() * 100 + (j < 6 ? i128(j) + 50 : i128(j))); // two of the deltas are negative
         }
      order(t, "extended_symbol", xs, xs, rank, rank, 63);
      order(t, "account_auth_sequence", as, as, rank, rank, 63);
      order(t, "account_delta", ds, ds, rank2, rank2, 63);
   }
   {
      std::vector<bytes> bs;
      std::vector<char>  al = { 0, 1, 'a', 127, char(128), char(255) };
      std::vector<std::vector<char>> seqs = { {} };
      for (size_t from = 0, n = 0; n < 3; ++n) {
         size_t end = seqs.size();
         for (; from < end; ++from)
            for (auto c : al) {
               auto x = seqs[from];
               x.push_back(c);
               seqs.push_back(x);
            }
      }
      for (auto& s : seqs) bs.push_back({ s });
      some_order(t, "bytes", bs);
      std::vector<public_key>         ks;
      std::vector<private_key>        ps;
      std::vector<signature>          ss;
      std::vector<webauthn_public_key> wk;
      std::vector<webauthn_signature>  ws;
      for (int p : { 0, 1, 15, 31, 32, 64 })
         for (auto c : al) {
            ecc_public_key  k{};
            ecc_private_key q{};
            ecc_signature   g{};
            if (p < 33) {
               k[p] = c;
               ks.push_back(public_key(std::in_place_index<0>, k));
               ks.push_back(public_key(std::in_place_index<1>, k));
               for (auto up : { 0, 1, 2 })
                  for (auto id : { "", "a", "b", "ab" }) {
                     webauthn_public_key w{ k, webauthn_public_key::user_presence_t(up), id };
                     wk.push_back(w);
                     ks.push_back(public_key(std::in_place_index<2>, w));
                  }
            }
            if (p < 32) {
               q[p] = c;
               ps.push_back(private_key(std::in_place_index<0>, q));
               ps.push_back(private_key(std::in_place_index<1>, q));
            }
            g[p] = c;
            ss.push_back(signature(std::in_place_index<0>, g));
            ss.push_back(signature(std::in_place_index<1>, g));
            for (auto& a : std::vector<std::vector<uint8_t>>{ {}, { 0 }, { 255 }, { 0, 0 } })
               for (auto id : { "", "{", "}" }) {
                  webauthn_signature w{ g, a, id };
                  ws.push_back(w);
                  ss.push_back(signature(std::in_place_index<2>, w));
               }
         }
      some_order(t, "webauthn_public_key", wk);
      some_order(t, "webauthn_signature", ws);
      some_order(t, "public_key", ks);
      some_order(t, "private_key", ps);
      some_order(t, "signature", ss);
   }
   // -- variable-length integers
   if (t.next()) {
      t.desc("varuint32 conversions");
      for (auto v : uints) {
         unsigned_int a(v), b, c(uint64_t{ v });
         b = v;
         t.ok(a.value == v && b.value == v && c.value == v, "vu:" + std::to_string(v), "constructed and assigned");
         t.ok(uint32_t(a) == v && uint64_t(a) == v && uint8_t(a) == uint8_t(v) && uint16_t(a) == uint16_t(v) && int64_t(a) == int64_t(v) && bool(a) == (v != 0), "vuc:" + std::to_string(v), "converted");
         t.count("evaluations");
      }
      for (auto v : ints) {
         signed_int a(v), b;
         b = v;
         t.ok(a.value == v && b.value == v && int32_t(a) == v, "vs:" + std::to_string(v), "constructed, assigned and converted");
         if (v != INT32_MAX) {
            signed_int p = a++;
            t.ok(p.value == v && a.value == v + 1, "vsi:" + std::to_string(v), "a++ gives " + std::to_string(p.value) + " and leaves " + std::to_string(a.value));
            signed_int& q = ++b;
            t.ok(&q == &b && b.value == v + 1, "vsp:" + std::to_string(v), "++a leaves " + std::to_string(b.value));
         }
         t.count("evaluations");
      }
      t.ok(unsigned_int().value == 0 && signed_int().value == 0, "default", "default of a variable-length integer is not 0");
   }
   // -- durations
   for (size_t i = 0; i < s64.size(); ++i)
      if (t.next()) {
         i128         x = s64[i];
         string       k = dig(x);
         microseconds m{ int64_t(x) };
         time_point   p{ m };
         t.desc("duration " + k);
         auto unit = [&](const char* n, i128 mul, auto f) {
            if (fits<int64_t>(x * mul)) {
               auto r = f(int64_t(x)).count();
               t.ok(r == x * mul, string(n) + ":" + k, dig(r));
            }
         };
         unit("milliseconds", 1000, [](int64_t v) { return eosio::milliseconds(v); });
         unit("seconds", 1000000, [](int64_t v) { return eosio::seconds(v); });
         unit("minutes", 60000000, [](int64_t v) { return eosio::minutes(v); });
         unit("hours", 3600000000ll, [](int64_t v) { return eosio::hours(v); });
         unit("days", 86400000000ll, [](int64_t v) { return eosio::days(v); });
         t.ok(m.count() == x && m.to_seconds() == x / 1000000, "seconds-of:" + k, dig(m.to_seconds()));
         t.ok(p.time_since_epoch().count() == x, "epoch:" + k, "");
         if (x >= 0 && fits<uint32_t>(x / 1000000)) {
            uint32_t       w = x / 1000000;
            time_point_sec s(p), s2(7);
            s2 = p;
            t.ok(p.sec_since_epoch() == w && s.utc_seconds == w && s2.utc_seconds == w && s.sec_since_epoch() == w, "to-sec:" + k, std::to_string(s.utc_seconds) + " " + std::to_string(s2.utc_seconds));
         }
         if (x >= EPOCH_MS * 1000 && (x / 1000 - EPOCH_MS) / 500 <= 0xffffffffll) {
            uint32_t        w = (x / 1000 - EPOCH_MS) / 500;
            block_timestamp b(p), c;
            c = p;
            t.ok(b.slot == w && c.slot == w, "to-slot:" + k, std::to_string(b.slot) + " " + std::to_string(c.slot));
         }
         for (auto y : s64) {
            microseconds n{ int64_t(y) };
            time_point   q{ n };
            string       k2 = k + "," + dig(y);
            if (fits<int64_t>(x + y)) {
               auto       a = m;
               auto       b = p;
               auto&      ra = a += n;
               auto&      rb = b += n;
               t.ok((m + n).count() == x + y && a.count() == x + y && &ra == &a, "add:" + k2, dig(a.count()));
               t.ok((p + n).elapsed.count() == x + y && (p + q).elapsed.count() == x + y && b.elapsed.count() == x + y && &rb == &b, "tp-add:" + k2, dig(b.elapsed.count()));
            }
            if (fits<int64_t>(x - y)) {
               auto       a = m;
               auto       b = p;
               auto&      ra = a -= n;
               auto&      rb = b -= n;
               t.ok((m - n).count() == x - y && a.count() == x - y && &ra == &a, "sub:" + k2, dig(a.count()));
               t.ok((p - n).elapsed.count() == x - y && (p - q).count() == x - y && b.elapsed.count() == x - y && &rb == &b, "tp-sub:" + k2, dig(b.elapsed.count()));
            }
            t.count("evaluations");
         }
      }
   // -- seconds
   for (size_t i = 0; i < u32.size(); ++i)
      if (t.next()) {
         i128           x = u32[i];
         string         k = dig(x);
         time_point_sec s{ uint32_t(x) };
         time_point     p = s;
         t.desc("seconds " + k);
         t.ok(p.elapsed.count() == x * 1000000, "sec-to-tp:" + k, dig(p.elapsed.count()));
         t.ok(time_point_sec(p).utc_seconds == x, "sec-back:" + k, "");
         if (x >= EPOCH_MS / 1000 && (x - EPOCH_MS / 1000) * 2 <= 0xffffffffll)
            t.ok(block_timestamp(s).slot == (x - EPOCH_MS / 1000) * 2, "sec-slot:" + k, std::to_string(block_timestamp(s).slot));
         for (auto y : u32) {
            string         k2 = k + "," + dig(y);
            time_point_sec o{ uint32_t(y) };
            auto           upd = [&](const char* n, i128 w, auto f) {
               auto  a = s;
               auto& r = f(a);
               t.ok(a.utc_seconds == w && &r == &a, n + (":" + k2), std::to_string(a.utc_seconds));
            };
            if (fits<uint32_t>(x + y)) {
               upd("sec+=int", x + y, [&](auto& a) -> auto& { return a += uint32_t(y); });
               upd("sec+=sec", x + y, [&](auto& a) -> auto& { return a += o; });
               t.ok((s + uint32_t(y)).utc_seconds == x + y, "sec+int:" + k2, "");
            }
            if (fits<uint32_t>(x - y)) {
               upd("sec-=int", x - y, [&](auto& a) -> auto& { return a -= uint32_t(y); });
               upd("sec-=sec", x - y, [&](auto& a) -> auto& { return a -= o; });
               t.ok((s - uint32_t(y)).utc_seconds == x - y, "sec-int:" + k2, "");
            }
            t.ok((s - o).count() == (x - y) * 1000000, "sec-sec:" + k2, dig((s - o).count()));
            t.ok((p - o).count() == (x - y) * 1000000, "tp-sec:" + k2, dig((p - o).count()));
            t.count("evaluations");
         }
         for (auto y : s64) {
            string       k2 = k + "," + dig(y);
            microseconds m{ int64_t(y) };
            i128         a = x + y / 1000000, b = x - y / 1000000;
            if (fits<uint32_t>(a)) {
               auto  c = s;
               auto& r = c += m;
               t.ok(c.utc_seconds == a && &r == &c, "sec+=us:" + k2, std::to_string(c.utc_seconds));
            }
            if (fits<uint32_t>(b)) {
               auto  c = s;
               auto& r = c -= m;
               t.ok(c.utc_seconds == b && &r == &c, "sec-=us:" + k2, std::to_string(c.utc_seconds));
            }
            if (fits<int64_t>(x * 1000000 + y))
               t.ok((s + m).elapsed.count() == x * 1000000 + y, "sec+us:" + k2, dig((s + m).elapsed.count()));
            if (fits<int64_t>(x * 1000000 - y))
               t.ok((s - m).elapsed.count() == x * 1000000 - y, "sec-us:" + k2, dig((s - m).elapsed.count()));
            t.count("evaluations");
         }
      }
   if (t.next()) {
      t.desc("limits");
      t.ok(microseconds().count() == 0 && time_point().elapsed.count() == 0 && time_point_sec().utc_seconds == 0 && block_timestamp().slot == 0, "zero", "defaults");
      t.ok(microseconds::maximum().count() == INT64_MAX && time_point::max().elapsed.count() == INT64_MAX, "max", "maximum");
      t.ok(time_point_sec::maximum().utc_seconds == UINT32_MAX && time_point_sec::min().utc_seconds == 0, "max-sec", "maximum and minimum of seconds");
      t.ok(block_timestamp::min().slot == 0, "min-slot", "minimum slot");
      t.ok(block_timestamp::maximum().slot == UINT32_MAX, "max-slot", "maximum slot is " + std::to_string(block_timestamp::maximum().slot));
      t.ok(thrown([] { block_timestamp(UINT32_MAX).next(); }).substr(0, 2) == "E:", "next-max", "the slot after the last one");
      t.count("evaluations", 5);
   }
   // -- slots
   const uint64_t blk = 1 << 22;
   for (uint64_t b = 0; b < (uint64_t(1) << 32); b += blk) {
      bool all = more || b == 0 || b + blk == (uint64_t(1) << 32) || (b & (b - 1)) == 0;
      if (t.next()) {
         t.desc("slots from " + std::to_string(b));
         uint64_t n = all ? blk : 4096;
         for (uint64_t s = b; s < b + n; ++s) slot_case(t, s);
         for (uint64_t s = b + blk - 4096; s < b + blk; ++s) slot_case(t, s);
         t.count("evaluations", n);
      }
   }
   // -- symbols: every string of byte classes as a code
   {
      const unsigned char cl[] = { 0, 'A', 'Z', '@', '[', 'a', 0xff };
      const int           nc = 7;
      for (int first = 0; first < nc * nc; ++first)
         if (t.next()) {
            t.desc("codes " + std::to_string(first));
            uint64_t n = 1;
            for (int i = 0; i < 6; ++i) n *= nc;
            for (uint64_t x = 0; x < n; ++x) {
               unsigned char b[8] = { cl[first % nc], cl[first / nc] };
               uint64_t      y    = x;
               for (int i = 2; i < 8; ++i, y /= nc) b[i] = cl[y % nc];
               uint64_t raw = 0;
               for (int i = 7; i >= 0; --i) raw = raw << 8 | b[i];
               int len = 0;
               while (len < 8 && b[len]) ++len;
               bool valid = len > 0 && len < 8;
               for (int i = 0; i < 8; ++i) valid &= i < len ? b[i] == 'A' || b[i] == 'Z' : b[i] == 0;
               symbol_code c(raw);
               symbol      s(raw);
               if (c.is_valid() != valid || c.length() != uint32_t(len) || c.raw() != raw || bool(c) != (raw != 0))
                  t.fail("code:" + vh::hexs(string((char*)b, 8)), std::string("valid ") + (c.is_valid() ? "yes" : "no") + " length " + std::to_string(c.length()));
               if (s.raw() != raw || s.precision() != b[0] || s.code().raw() != raw >> 8 || bool(s) != (raw != 0) || s.is_valid() != symbol_code(raw >> 8).is_valid())
                  t.fail("symbol:" + vh::hexs(string((char*)b, 8)), "parts");
               if (valid) {
                  string txt((char*)b, len);
                  if (symbol_code(txt).raw() != raw || symbol(txt, 200).raw() != (raw << 8 | 200) || symbol(c, 3).raw() != (raw << 8 | 3))
                     t.fail("text:" + txt, "construction from text");
               }
            }
            t.count("evaluations", n);
         }
   }
   // -- check()
   {
      std::vector<string> msgs = { "" };
      for (size_t from = 0, n = 0; n < 3; ++n) {
         size_t end = msgs.size();
         for (; from < end; ++from)
            for (char c : { 'a', ' ', '%', '\xff' }) msgs.push_back(msgs[from] + c);
      }
      msgs.push_back(string(100, 'x'));
      msgs.push_back(string(5000, 'y'));
      for (auto& m : msgs)
         if (t.next()) {
            t.desc("check " + vh::cut(m));
            string padded = m + "tail";
            t.distinct("nontrivial", vh::fnv(m));
            for (bool pred : { false, true }) {
               string w  = pred ? "(none)" : "E:" + m;
               auto   is = [&](const char* form, const string& got) {
                  t.count("evaluations");
                  t.ok(got == w, string("check:") + form + ":" + vh::cut(m), got);
               };
               is("chars", thrown([&] { check(pred, m.c_str()); }));
               is("string", thrown([&] { check(pred, m); }));
               is("moved", thrown([&] { check(pred, string(m)); }));
               is("view", thrown([&] { check(pred, std::string_view(padded.data(), m.size())); }));
               is("charsn", thrown([&] { check(pred, padded.c_str(), m.size()); }));
               is("stringn", thrown([&] { check(pred, padded, m.size()); }));
               is("stringn2", thrown([&] { check(pred, m, m.size() + 5); }));
            }
         }
      if (t.next())
         for (auto v : u64)
            for (bool pred : { false, true }) {
               t.count("evaluations");
               string g = thrown([&] { check(pred, uint64_t(v)); });
               t.ok(g == (pred ? "(none)" : "E:" + dig(v)), "check:code:" + dig(v), g);
            }
   }
}
VH_MAIN(run)
