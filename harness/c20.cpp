// C20: times.
#include "lib.hpp"
#include "ref.hpp"
#include "vh.hpp"
#include <eosio/time.hpp>
using namespace vh;
using std::string;
typedef __int128 i128;

// ---- a calendar counted day by day
static bool leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static int  mdays(int y, int m) {
   static const int d[] = { 0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
   return m < 1 || m > 12 ? 0 : d[m] + (m == 2 && leap(y));
}
struct Day {
   short y;
   char  m, d;
};
static std::vector<Day>     days;         // from 1970-01-01
static std::vector<int32_t> year_day;     // first day of each year (1970..10000), index y - 1970
static void                 calendar() {
   if (!days.empty())
      return;
   days.reserve(2940000);
   for (int y = 1970; y < 10000; ++y) {
      year_day.push_back(days.size());
      for (int m = 1; m <= 12; ++m)
         for (int d = 1; d <= mdays(y, m); ++d) days.push_back({ (short)y, (char)m, (char)d });
   }
}
static int64_t day_no(int y, int m, int d) { // -1 if there is no such day
   if (y < 1970 || y > 9999 || d < 1 || d > mdays(y, m))
      return -1;
   int64_t n = year_day[y - 1970];
   for (int k = 1; k < m; ++k) n += mdays(y, k);
   return n + d - 1;
}
static const int64_t EPOCH2000 = 946684800;
static string        text(int64_t us) {
   int64_t s = us / 1000000, dn = s / 86400;
   auto&   d = days[dn];
   char    b[64];
   snprintf(b, sizeof b, "%04d-%02d-%02dT%02d:%02d:%02d.%03d", d.y, d.m, d.d, int(s % 86400 / 3600), int(s % 3600 / 60), int(s % 60), int(us % 1000000 / 1000));
   return b;
}
enum V { BAD, OK, EITHER };
struct Parsed {
   V       tp = BAD, ts = BAD, bt = BAD;
   int64_t us = 0, sec = 0, slot = 0;
};
// Prescribed form: YYYY-MM-DDTHH:MM:SS with an optional fraction (up to six digits for a time point; digits beyond the
// resolution of the other types are dropped).  A point without digits, and superfluous digits, are not judged.
static Parsed parse(const string& s) {
   Parsed p;
   if (s.size() < 19)
      return p;
   static const char* f = "dddd-dd-ddTdd:dd:dd";
   for (int i = 0; i < 19; ++i)
      if (f[i] == 'd' ? !isdigit((unsigned char)s[i]) : s[i] != f[i])
         return p;
   auto n = [&](int at, int k) { return atoi(s.substr(at, k).c_str()); };
   int  h = n(11, 2), mi = n(14, 2), se = n(17, 2);
   if (h > 23 || mi > 59 || se > 59)
      return p;
   int y = n(0, 4), m = n(5, 2), d = n(8, 2);
   if (d < 1 || d > mdays(y, m))
      return p;
   bool frac = s.size() > 19, six = true, zeros = true;
   int64_t us = 0;
   int     nd = 0;
   if (frac) {
      if (s[19] != '.')
         return p;
      int64_t sc = 100000;
      for (size_t i = 20; i < s.size(); ++i) {
         if (!isdigit((unsigned char)s[i]))
            return p;
         us += (s[i] - '0') * sc;
         sc /= 10;
         if (++nd > 6 && s[i] != '0')
            zeros = false;
      }
      six = nd <= 6;
   }
   int64_t dn = day_no(y, m, d);
   if (dn < 0) { // a real date before 1970: a time point could hold it, but nothing prescribes that
      p.tp = EITHER;
      p.us = -1;
      return p;
   }
   p.sec = dn * 86400 + h * 3600 + mi * 60 + se;
   p.us  = p.sec * 1000000 + us;
   V loose = frac && nd == 0 ? EITHER : OK;
   p.tp    = loose;
   if (!six)
      p.tp = zeros ? EITHER : BAD;
   p.ts = p.sec <= 0xffffffffll ? loose : BAD;
   if (p.sec < EPOCH2000)
      p.bt = BAD;
   else {
      p.slot = (p.us / 1000 - EPOCH2000 * 1000) / 500;
      p.bt   = p.slot <= 0xffffffffll ? p.tp : BAD;
   }
   return p;
}
static lib::Abi& A() {
   static lib::Abi a;
   static bool     once = a.load(lib::empty_abi);
   return a;
}
static void judge(T& t, const char* what, const string& s, V v, const string& want, const lib::Res& r) {
   if (v == BAD)
      t.ok(!r.ok, string("accepted:") + what, "'" + esc(s) + "' gives " + hexs(r.v));
   else {
      if (v == OK)
         t.ok(r.ok, string("refused:") + what, "'" + esc(s) + "' " + r.err);
      if (r.ok)
         t.ok(r.v == want, string("value:") + what, "'" + esc(s) + "' gives " + hexs(r.v) + " wanted " + hexs(want));
   }
}
static void text_case(T& t, const string& s, bool full = true) {
   t.count("evaluations");
   auto p = parse(s);
   if (p.tp != BAD || p.ts != BAD)
      t.distinct("nontrivial", fnv(s));
   uint64_t us = 0;
   uint32_t se = 0;
   bool     a  = eosio::string_to_utc_microseconds(us, s.data(), s.data() + s.size());
   bool     b  = eosio::string_to_utc_seconds(se, s.data(), s.data() + s.size());
   if (p.us == -1 && p.sec == 0) // before 1970
      t.ok(!a || (int64_t)us < 0, "before-1970", s + " gives " + std::to_string(us));
   else {
      if (p.tp != EITHER)
         t.ok(a == (p.tp == OK), a ? "accepted:us" : "refused:us", "'" + esc(s) + "' gives " + std::to_string(us));
      t.ok(!a || p.tp == BAD || (int64_t)us == p.us, "value:us", s + " gives " + std::to_string(us) + " wanted " + std::to_string(p.us));
      if (p.ts != EITHER)
         t.ok(b == (p.ts == OK), b ? "accepted:sec" : "refused:sec", "'" + esc(s) + "' gives " + std::to_string(se));
      t.ok(!b || p.ts == BAD || se == p.sec, "value:sec", s + " gives " + std::to_string(se) + " wanted " + std::to_string(p.sec));
   }
   if (!full)
      return;
   for (unsigned char c : s)
      if (c < 32 || c > 126)
         return;
   string q = ref::quote(s);
   if (!(p.us == -1 && p.sec == 0)) {
      judge(t, "time_point", s, p.tp, ref::le(p.us, 8), lib::njson<eosio::time_point>(q));
      judge(t, "time_point-abi", s, p.tp, ref::le(p.us, 8), lib::enc(A().type("time_point"), q));
   }
   judge(t, "time_point_sec", s, p.ts, ref::le(p.sec, 4), lib::njson<eosio::time_point_sec>(q));
   judge(t, "time_point_sec-abi", s, p.ts, ref::le(p.sec, 4), lib::enc(A().type("time_point_sec"), q));
   judge(t, "block_timestamp", s, p.bt, ref::le(p.slot, 4), lib::njson<eosio::block_timestamp>(q));
   judge(t, "block_timestamp-abi", s, p.bt, ref::le(p.slot, 4), lib::encr(A().type("block_timestamp_type"), q));
}
static void us_case(T& t, int64_t us, bool full = true) { // an instant of 1970-9999
   t.count("evaluations");
   t.distinct("nontrivial", mix(us, 5));
   string w = text(us), q = "\"" + w + "\"", p = eosio::microseconds_to_str(us);
   if (!t.ok(p == w, "print", std::to_string(us) + " prints as " + p + " wanted " + w))
      return;
   uint64_t back = 0;
   bool     ok   = eosio::string_to_utc_microseconds(back, w.data(), w.data() + w.size());
   t.ok(ok && (int64_t)back == us / 1000 * 1000, "print-back", w + " gives " + std::to_string(back));
   if (!full)
      return;
   auto d = lib::dec(A().type("time_point"), ref::le(us, 8));
   t.ok(d.ok && d.v == q, "abi-print", w + " " + d.v + d.err);
   auto j = lib::attempt([&] { return eosio::convert_to_json(eosio::time_point(eosio::microseconds(us))); });
   t.ok(j.ok && j.v == q, "native-print", w + " " + j.v);
}
static void sec_case(T& t, uint32_t s) {
   t.count("evaluations");
   string w = text(s * 1000000ll), q = "\"" + w + "\"";
   auto   d = lib::dec(A().type("time_point_sec"), ref::le(s, 4));
   t.ok(d.ok && d.v == q, "sec-print", w + " " + d.v + d.err);
   auto e = lib::enc(A().type("time_point_sec"), q);
   t.ok(e.ok && e.v == ref::le(s, 4), "sec-back", w + " " + hexs(e.v) + e.err);
   // conversions
   eosio::time_point_sec x(s);
   eosio::time_point     y = x;
   t.ok(y.elapsed.count() == s * 1000000ll && x.sec_since_epoch() == s && y.sec_since_epoch() == s && eosio::time_point_sec(y).utc_seconds == s, "sec-convert", w);
   for (int u : { 0, 1, 499999, 500000, 999999 }) {
      eosio::time_point z(eosio::microseconds(s * 1000000ll + u));
      eosio::time_point_sec as(7);
      as = z;
      t.ok(eosio::time_point_sec(z).utc_seconds == s && as.utc_seconds == s && z.sec_since_epoch() == s, "sec-from-point", w + " + " + std::to_string(u));
      int64_t msec = (s * 1000000ll + u) / 1000;
      if (s >= EPOCH2000 && (msec - EPOCH2000 * 1000) / 500 <= 0xffffffffll) {
         int64_t slot = (msec - EPOCH2000 * 1000) / 500;
         eosio::block_timestamp b(z), b2;
         b2 = z;
         t.ok(b.slot == slot && b2.slot == slot, "slot-from-point", w + " + " + std::to_string(u) + " gives " + std::to_string(b.slot));
      }
   }
   if (s >= EPOCH2000 && (s - EPOCH2000) * 2 <= 0xffffffffll)
      t.ok(eosio::block_timestamp(x).slot == (s - EPOCH2000) * 2, "slot-from-sec", w);
}
static void slot_case(T& t, uint32_t n) {
   t.count("evaluations");
   int64_t us = EPOCH2000 * 1000000 + n * 500000ll;
   string  w = text(us), q = "\"" + w + "\"";
   auto    d = lib::dec(A().type("block_timestamp_type"), ref::le(n, 4));
   t.ok(d.ok && d.v == q, "slot-print", w + " " + d.v + d.err);
   auto e = lib::enc(A().type("block_timestamp_type"), q);
   t.ok(e.ok && e.v == ref::le(n, 4), "slot-back", w + " " + hexs(e.v) + e.err);
   auto e2 = lib::njson<eosio::block_timestamp>(q);
   t.ok(e2.ok && e2.v == ref::le(n, 4), "slot-back-native", w);
   eosio::block_timestamp b(n);
   eosio::time_point      y = b;
   t.ok(y.elapsed.count() == us && b.to_time_point().elapsed.count() == us && eosio::block_timestamp(y).slot == n, "slot-convert", w);
   bool ok = true;
   uint32_t nx = 0;
   try {
      nx = b.next().slot;
   } catch (std::exception&) { ok = false; }
   t.ok(n == 0xffffffff ? !ok : ok && nx == n + 1, "slot-next", w);
}
static void arith(T& t, int64_t a, int64_t b) { // operands small enough for every exact result
   using namespace eosio;
   t.count("evaluations");
   string id = std::to_string(a) + "," + std::to_string(b);
   eosio::microseconds x(a), y(b), z = x;
   time_point   p(x), q(y), r(x);
   t.ok((x + y).count() == a + b && (x - y).count() == a - b && (z += y).count() == a + b && (z -= y).count() == a && x.to_seconds() == a / 1000000, "microseconds", id);
   t.ok((p + y).elapsed.count() == a + b && (p + q).elapsed.count() == a + b && (p - y).elapsed.count() == a - b && (p - q).count() == a - b, "time_point", id);
   t.ok((r += y).elapsed.count() == a + b && (r -= y).elapsed.count() == a, "time_point-assign", id);
   auto six = [&](auto& l, auto& m) { return (l == m) == (a == b) && (l != m) == (a != b) && (l < m) == (a < b) && (l > m) == (a > b) && (l <= m) == (a <= b) && (l >= m) == (a >= b); };
   t.ok(six(x, y) && six(p, q), "compare", id);
   if (a >= 0 && b >= 0 && a <= 0xffffffff && b <= 0xffffffff) {
      time_point_sec s(a), u(b);
      block_timestamp k(a), l(b);
      t.ok(six(s, u) && six(k, l), "compare-sec", id);
      t.ok((s - u).count() == (a - b) * 1000000, "sec-diff", id);
      t.ok((s + y).elapsed.count() == a * 1000000 + b && (s - y).elapsed.count() == a * 1000000 - b && (p - u).count() == a - b * 1000000, "sec-mixed", id);
      if (a + b <= 0xffffffff) {
         time_point_sec v(a), w(a), m(a);
         t.ok((s + (uint32_t)b).utc_seconds == a + b && (v += (uint32_t)b).utc_seconds == a + b && (w += u).utc_seconds == a + b && (m += seconds(b)).utc_seconds == a + b, "sec-add", id);
         time_point_sec n(a);
         t.ok((n += eosio::microseconds(b * 1000000 + 999999)).utc_seconds == a + b, "sec-add-micro", id);
      }
      if (a >= b) {
         time_point_sec v(a), w(a), m(a);
         t.ok((s - (uint32_t)b).utc_seconds == a - b && (v -= (uint32_t)b).utc_seconds == a - b && (w -= u).utc_seconds == a - b && (m -= seconds(b)).utc_seconds == a - b, "sec-sub", id);
      }
   }
   if (b > -2000000 && b < 2000000)
      t.ok(seconds(b).count() == b * 1000000 && eosio::milliseconds(b).count() == b * 1000 && minutes(b).count() == b * 60000000 && hours(b).count() == b * 3600000000ll && eosio::days(b).count() == b * 86400000000ll, "units", id);
}

static void run(T& t) {
   bool deep = t.thorough();
   calendar();
   // every day of 1970-9999, at several moments
   for (int y = 1970; y < 10000; y += 5) {
      if (!t.next())
         continue;
      t.desc("years from " + std::to_string(y));
      for (int k = y; k < std::min(10000, y + 5); ++k) {
         int end = k == 9999 ? (int)days.size() : year_day[k - 1970 + 1];
         for (int n = year_day[k - 1970]; n < end; ++n) {
            int64_t b = n * 86400000000ll;
            bool    edge = n == year_day[k - 1970] || n == end - 1;
            for (int64_t o : { 0ll, 86399999999ll, 43200000000ll + n % 997 * 1000 }) us_case(t, b + o, edge);
            if (deep)
               for (int h = 1; h < 24; ++h) us_case(t, b + h * 3600000000ll - 1, false);
            string s = text(b + n * 7919ll % 86400 * 1000000);
            text_case(t, s, edge || n % 13 == 0);
         }
         // dates that are not on the calendar
         char c[64];
         for (int m = 0; m <= 13; ++m)
            for (int d : { 0, 1, 28, 29, 30, 31, 32 }) {
               snprintf(c, sizeof c, "%04d-%02d-%02dT12:34:56.789", k, m, d);
               text_case(t, c, k % 100 < 5);
            }
      }
   }
   for (int y = 0; y < 10000; y += 100) { // years before 1970 and all two-digit fields
      if (!t.next())
         continue;
      t.desc("century " + std::to_string(y));
      char c[64];
      for (int k = y; k < y + 100; ++k) {
         if (k < 1970)
            for (int m = 0; m <= 13; ++m)
               for (int d : { 0, 1, 28, 29, 31, 32 }) {
                  snprintf(c, sizeof c, "%04d-%02d-%02dT00:00:00", k, m, d);
                  text_case(t, c, k > 1960);
               }
      }
      for (int a = 0; a < 100; ++a)
         for (int b = 0; b < 100; ++b) {
            if (y < 1900 && y > 0 && y % 1000)
               continue;
            snprintf(c, sizeof c, "%04d-%02d-%02dT%02d:%02d:%02d", y + a % 10, a, b, a % 24, b % 60, 59);
            text_case(t, c, y == 2000);
            snprintf(c, sizeof c, "%04d-06-15T%02d:%02d:%02d.5", y + 20, a, b, b % 60);
            text_case(t, c, y == 2000);
            snprintf(c, sizeof c, "%04d-06-15T%02d:%02d:%02d", y + 20, b % 24, a, b);
            text_case(t, c, y == 2000);
         }
   }
   // all seconds of selected days
   for (auto [y, m, d] : { std::tuple{ 1970, 1, 1 }, { 2000, 2, 29 }, { 2038, 1, 19 }, { 2106, 2, 7 }, { 2068, 1, 19 }, { 9999, 12, 31 } })
      for (int h = 0; h < 24; ++h) {
         if (!t.next())
            continue;
         t.desc("seconds of " + std::to_string(y) + " hour " + std::to_string(h));
         int64_t b = (day_no(y, m, d) * 24 + h) * 3600;
         for (int s = 0; s < 3600; ++s) {
            us_case(t, (b + s) * 1000000 + s * 271 % 1000000, s % 60 == 59);
            if (b + s <= 0xffffffff)
               sec_case(t, b + s);
            int64_t sl = (b + s - EPOCH2000) * 2;
            if (sl >= 0 && sl < 0xffffffff)
               slot_case(t, sl), slot_case(t, sl + 1);
            string x = text((b + s) * 1000000 + 250000);
            text_case(t, x, s % 7 == 0);
         }
      }
   // fractions
   for (int base = 0; base < 8; ++base) {
      if (!t.next())
         continue;
      t.desc("fractions " + std::to_string(base));
      static const char* bs[] = { "1970-01-01T00:00:00", "2018-06-15T19:17:47", "2106-02-07T06:28:15", "2106-02-07T06:28:16", "1999-12-31T23:59:59", "2000-01-01T00:00:00", "2068-01-19T03:14:07", "2068-01-19T03:14:08" };
      string             b    = bs[base];
      text_case(t, b);
      for (int k = 0; k < 1000; ++k) {
         char c[16];
         snprintf(c, sizeof c, ".%03d", k);
         for (string tail : { "", "0", "9", "00", "99", "000", "999", "0000", "9999", "1", "0000000000000000000000" }) text_case(t, b + c + tail);
      }
      for (int k = 0; k < 100; ++k) {
         char c[16];
         snprintf(c, sizeof c, ".%02d", k);
         text_case(t, b + c);
         snprintf(c, sizeof c, ".%d", k % 10);
         text_case(t, b + c);
      }
      for (string x : { ".", "..", ".1.2", ".5Z", "Z", ".-1", ".+1", ". 5", " ", ".5 ", "+00:00", ",5", ".1e1" }) text_case(t, b + x);
   }
   for (int ms = 0; ms < 1000; ++ms) {
      if (!t.next())
         continue;
      for (int u = 0; u < 1000; u += deep ? 1 : 37)
         for (int64_t s : { 0ll, 951782399ll, 4294967295ll, 253402300799ll }) us_case(t, s * 1000000 + ms * 1000 + u, u == 0);
   }
   // every byte at every position; insertions and deletions
   for (string b : { "2018-06-15T19:17:47.123", "1970-01-01T00:00:00", "2000-02-29T23:59:59.999999" })
      for (size_t p = 0; p <= b.size(); ++p) {
         if (!t.next())
            continue;
         t.desc("edits " + b + " at " + std::to_string(p));
         text_case(t, b.substr(0, p));
         text_case(t, b.substr(p));
         for (int c = 0; c < 256; ++c) {
            string s = b;
            s.insert(p, 1, c);
            text_case(t, s);
            if (p < b.size()) {
               s    = b;
               s[p] = c;
               text_case(t, s);
               for (size_t q = p + 1; q < b.size(); ++q)
                  for (char d : { '0', '1', '2', '3', '6', '9', '-', ':', 'T', '.' })
                     if (c >= '0' && c <= '9') {
                        string u = s;
                        u[q]     = d;
                        text_case(t, u, false);
                     }
            }
         }
         if (p < b.size())
            text_case(t, string(b).erase(p, 1));
      }
   // second counts and slots around every power of two, the ends and strided over the whole range
   for (int i = 0; i < 64; ++i) {
      if (!t.next())
         continue;
      t.desc("counts " + std::to_string(i));
      for (int d = -300; d <= 300; ++d) {
         uint32_t n = (i < 32 ? (1u << i) : i < 48 ? (uint32_t)(EPOCH2000 + (1u << (i - 18))) : (uint32_t)(((uint64_t)i - 47) * 0x10000000)) + d;
         sec_case(t, n);
         slot_case(t, n);
      }
      uint64_t step = deep ? 1009 : 40009;
      for (uint64_t n = i * 0x4000000ull; n < (i + 1) * 0x4000000ull; n += step) sec_case(t, n), slot_case(t, n);
   }
   // arithmetic
   std::vector<int64_t> v;
   for (int i = 0; i <= 52; ++i)
      for (int d : { -1, 0, 1 }) v.push_back((1ll << i) + d), v.push_back(-(1ll << i) + d);
   for (int64_t k : { 500000ll, 999999ll, 1000000ll, 1000001ll, 86400000000ll, 946684800000000ll, 999ll, 1000ll }) v.push_back(k), v.push_back(-k);
   std::sort(v.begin(), v.end());
   v.erase(std::unique(v.begin(), v.end()), v.end());
   for (auto a : v) {
      if (!t.next())
         continue;
      t.desc("arithmetic " + std::to_string(a));
      for (auto b : v) arith(t, a, b);
   }
   t.sample(text(951782399123456));
}
VH_MAIN(run)
