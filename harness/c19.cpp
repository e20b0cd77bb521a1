// C19: asset arithmetic.
#include "lib.hpp"
#include "ref.hpp"
#include "vh.hpp"
#include <eosio/asset.hpp>
using namespace vh;
using std::string;
typedef __int128 i128;
static const i128 MAX = ((i128)1 << 62) - 1;

static string ds(i128 v) {
   string s;
   bool   n = v < 0;
   unsigned __int128 u = n ? -(unsigned __int128)v : v;
   do s += char('0' + int(u % 10)), u /= 10;
   while (u);
   if (n)
      s += '-';
   std::reverse(s.begin(), s.end());
   return s;
}
static eosio::asset mk(int64_t a, uint64_t sym) {
   eosio::asset x;
   x.amount = a, x.symbol = eosio::symbol(sym);
   return x;
}
static eosio::extended_asset mke(int64_t a, uint64_t sym, uint64_t con) {
   eosio::extended_asset x;
   x.quantity = mk(a, sym), x.contract = eosio::name(con);
   return x;
}
struct R {
   bool    ok = false;
   int64_t v  = 0;
};
template <typename F>
static R tryit(F f) {
   R r;
   try {
      r.v  = f();
      r.ok = true;
   } catch (std::exception&) {}
   return r;
}
static void want(T& t, const char* op, const string& id, const R& r, bool ok, i128 v) {
   t.ok(r.ok == ok && (!ok || r.v == v), op, id + (r.ok ? " gives " + ds(r.v) : " is refused") + (ok ? ", wanted " + ds(v) : ", wanted a refusal"));
}
static const uint64_t S1 = 0x00535953'04, S2 = 0x00534f45'04, S3 = 0x00535953'05;

static void pair_case(T& t, int64_t a, int64_t b) {
   t.count("evaluations");
   t.distinct("nontrivial", mix(a, b));
   auto id  = [&] { return ds(a) + ", " + ds(b); };
   auto in  = [](i128 v) { return v >= -MAX && v <= MAX; };
   auto x   = mk(a, S1), y = mk(b, S1);
   i128 sum = (i128)a + b, dif = (i128)a - b, pro = (i128)a * b;
   want(t, "add", id(), tryit([&] { return (x + y).amount; }), in(sum), sum);
   want(t, "sub", id(), tryit([&] { return (x - y).amount; }), in(dif), dif);
   want(t, "mul", id(), tryit([&] { return (x * b).amount; }), in(pro), pro);
   want(t, "mul-left", id(), tryit([&] { return (b * x).amount; }), in(pro), pro);
   want(t, "add-assign", id(), tryit([&] { auto z = x; return (z += y).amount; }), in(sum), sum);
   want(t, "sub-assign", id(), tryit([&] { auto z = x; return (z -= y).amount; }), in(dif), dif);
   want(t, "mul-assign", id(), tryit([&] { auto z = x; return (z *= b).amount; }), in(pro), pro);
   bool dv = b != 0;
   i128 q  = dv ? (i128)a / b : 0;
   want(t, "div", id(), tryit([&] { return (x / b).amount; }), dv && in(q), q);
   want(t, "div-assign", id(), tryit([&] { auto z = x; return (z /= b).amount; }), dv && in(q), q);
   want(t, "div-asset", id(), tryit([&] { return x / y; }), dv && q <= INT64_MAX, q);
   if (a == b) { // the same object on both sides
      auto z = x;
      want(t, "add-self", id(), tryit([&] { return (z += z).amount; }), in(sum), sum);
      z = x;
      want(t, "sub-self", id(), tryit([&] { return (z -= z).amount; }), in(dif), dif);
   }
   auto cmp = [&](auto& p, auto& r, const char* what, bool gt) {
      bool good = (p == r) == (a == b) && (p != r) == (a != b) && (p < r) == (a < b) && (p <= r) == (a <= b) && (p >= r) == (a >= b);
      t.ok(good, what, id());
      (void)gt;
   };
   cmp(x, y, "compare", true);
   t.ok((x > y) == (a > b), "compare-gt", id());
   // the symbol survives
   auto sy = tryit([&] { return (int64_t)(x + y).symbol.value; });
   t.ok(!sy.ok || sy.v == (int64_t)S1, "symbol-kept", id());
   sy = tryit([&] { return (int64_t)(b * x).symbol.value; });
   t.ok(!sy.ok || sy.v == (int64_t)S1, "symbol-kept-mul", id());
   if (in(a))
      t.ok((-x).amount == -a && (-x).symbol == x.symbol, "negate", id());
   // extended
   auto ex = mke(a, S1, 1), ey = mke(b, S1, 1);
   want(t, "ext-add", id(), tryit([&] { return (ex + ey).quantity.amount; }), in(sum), sum);
   want(t, "ext-sub", id(), tryit([&] { return (ex - ey).quantity.amount; }), in(dif), dif);
   want(t, "ext-add-assign", id(), tryit([&] { auto z = ex; return (z += ey).quantity.amount; }), in(sum), sum);
   want(t, "ext-sub-assign", id(), tryit([&] { auto z = ex; return (z -= ey).quantity.amount; }), in(dif), dif);
   cmp(ex, ey, "ext-compare", false);
   auto ec = tryit([&] { return (int64_t)((ex + ey).contract.value * 1000 + ((ex - ey).quantity.symbol.value == S1)); });
   t.ok(!ec.ok || ec.v == 1001, "ext-kept", id());
}
static void mixed(T& t, int64_t a, int64_t b) {
   // other symbols (a different code, a different precision) and other contracts are refused by every operation
   for (uint64_t s : { S2, S3 }) {
      auto   x = mk(a, S1), y = mk(b, s);
      string id = ds(a) + ", " + ds(b);
      t.count("evaluations");
      auto no = [&](const char* op, auto f) { want(t, op, id, tryit([&] { return (int64_t)f(); }), false, 0); };
      no("mix-add", [&] { return (x + y).amount; });
      no("mix-sub", [&] { return (x - y).amount; });
      no("mix-div", [&] { return x / y; });
      no("mix-eq", [&] { return x == y; });
      no("mix-ne", [&] { return x != y; });
      no("mix-lt", [&] { return x < y; });
      no("mix-le", [&] { return x <= y; });
      no("mix-gt", [&] { return x > y; });
      no("mix-ge", [&] { return x >= y; });
      auto ex = mke(a, S1, 1), ey = mke(b, s, 1);
      no("mix-ext-add", [&] { return (ex + ey).quantity.amount; });
      no("mix-ext-sub", [&] { return (ex - ey).quantity.amount; });
      no("mix-ext-lt", [&] { return ex < ey; });
      no("mix-ext-le", [&] { return ex <= ey; });
      no("mix-ext-ge", [&] { return ex >= ey; });
      auto z = x;
      no("mix-add-assign", [&] { return (z += y).amount; });
      no("mix-sub-assign", [&] { return (z -= y).amount; });
      t.ok(z.amount == a, "mix-unchanged", id);
   }
   string id = ds(a) + ", " + ds(b);
   auto   no = [&](const char* op, auto f) { want(t, op, id, tryit([&] { return (int64_t)f(); }), false, 0); };
   auto   ex = mke(a, S1, 1), ey = mke(b, S1, 2);
   no("con-add", [&] { return (ex + ey).quantity.amount; });
   no("con-sub", [&] { return (ex - ey).quantity.amount; });
   no("con-add-assign", [&] { auto z = ex; return (z += ey).quantity.amount; });
   no("con-sub-assign", [&] { auto z = ex; return (z -= ey).quantity.amount; });
   no("con-lt", [&] { return ex < ey; });
   no("con-le", [&] { return ex <= ey; });
   no("con-ge", [&] { return ex >= ey; });
   t.ok(!(ex == ey) && (ex != ey), "con-eq", id);
}
static void ctor(T& t, int64_t a) {
   t.count("evaluations");
   bool ok = a <= MAX && a >= -MAX;
   want(t, "ctor", ds(a), tryit([&] { return eosio::asset(a, eosio::symbol(S1)).amount; }), ok, a);
   want(t, "set", ds(a), tryit([&] { auto x = mk(5, S1); x.set_amount(a); return x.amount; }), ok, a);
   want(t, "ext-ctor", ds(a), tryit([&] { return eosio::extended_asset(a, eosio::extended_symbol(eosio::symbol(S1), eosio::name(7))).quantity.amount; }), ok, a);
   t.ok(mk(a, S1).is_amount_within_range() == ok && mk(a, S1).is_valid() == ok && !mk(a, 4).is_valid(), "valid", ds(a));
   for (uint64_t bad : { 0x04ull, 0x6104ull, 0x41004104ull, 0x005b04ull, 0x4104ull << 48 | 4 })
      want(t, "ctor-symbol", ds(a) + " " + hexs(&bad, 8), tryit([&] { return eosio::asset(a, eosio::symbol(bad)).amount; }), false, 0);
}
static void run(T& t) {
   bool                 deep = t.thorough();
   std::vector<int64_t> v;
   auto                 near = [&](i128 c, int w) {
      for (int d = -w; d <= w; ++d)
         for (int s : { 1, -1 }) {
            i128 x = s * (c + d);
            if (x >= INT64_MIN && x <= INT64_MAX)
               v.push_back((int64_t)x);
         }
   };
   near(0, deep ? 40 : 12);
   for (int i = 4; i <= 63; ++i) near((i128)1 << i, deep ? 2 : (i >= 60 || i == 31 || i == 32) ? 2 : 1);
   near((i128)3 << 61, 2);
   near(MAX / 2, 1), near(MAX / 3, 2), near(MAX / 7, 1), near(2147483648ll, 2), near(3037000500ll, 2), near(1518500249ll * 1, 2);
   i128 ten = 10;
   for (int i = 1; i < 19; ++i, ten *= 10) near(ten, 0);
   std::sort(v.begin(), v.end());
   v.erase(std::unique(v.begin(), v.end()), v.end());
   for (auto a : v) {
      if (!t.next())
         continue;
      t.desc("amount " + ds(a));
      ctor(t, a);
      for (auto b : v) pair_case(t, a, b);
      for (auto b : { (int64_t)0, (int64_t)1, a, (int64_t)-a, (int64_t)MAX }) mixed(t, a, b);
      // for every boundary amount a: the multipliers and divisors next to the exact limit
      if (a)
         for (i128 lim : { MAX, -MAX, MAX + 1, -MAX - 1 })
            for (int d = -2; d <= 2; ++d) {
               i128 b = lim / a + d, c = lim - a + d, e = a - lim + d;
               for (i128 z : { b, c, e })
                  if (z >= INT64_MIN && z <= INT64_MAX)
                     pair_case(t, a, (int64_t)z);
            }
   }
   // small ranges completely (signs, rounding of quotients)
   int N = deep ? 400 : 130;
   for (int a = -N; a <= N; ++a) {
      if (!t.next())
         continue;
      t.desc("small " + std::to_string(a));
      for (int b = -N; b <= N; ++b) pair_case(t, a, b);
   }
   // sequences of two and three operations: a failed one is refused wherever it stands
   std::vector<int64_t> w = { 0, 1, -1, 2, 3, (int64_t)MAX, (int64_t)-MAX, (int64_t)(MAX / 2), (int64_t)(MAX / 2 + 1), 1ll << 31, -(1ll << 31), 7 };
   for (auto a : w) {
      if (!t.next())
         continue;
      t.desc("sequences " + ds(a));
      for (int o = 0; o < 64; ++o)
         for (auto b : w)
            for (auto c : w)
               for (auto d : w) {
                  t.count("evaluations");
                  i128 r  = a;
                  bool ok = true;
                  int  k  = 0;
                  for (auto x : { b, c, d }) {
                     int op = o >> 2 * k++ & 3;
                     if (!ok)
                        break;
                     if (op == 3 && x == 0)
                        ok = false;
                     else
                        r = op == 0 ? r + x : op == 1 ? r - x : op == 2 ? r * x : r / x;
                     ok = ok && r >= -MAX && r <= MAX;
                  }
                  auto g = tryit([&] {
                     eosio::asset z(a, eosio::symbol(S1));
                     int          k = 0;
                     for (auto x : { b, c, d }) {
                        int op = o >> 2 * k++ & 3;
                        if (op == 0)
                           z += eosio::asset(x, eosio::symbol(S1));
                        else if (op == 1)
                           z -= eosio::asset(x, eosio::symbol(S1));
                        else if (op == 2)
                           z *= x;
                        else
                           z /= x;
                     }
                     return z.amount;
                  });
                  want(t, "sequence", ds(a) + " op " + std::to_string(o) + " " + ds(b) + "," + ds(c) + "," + ds(d), g, ok, r);
               }
   }
   t.sample("amounts: " + ds(v.front()) + " .. " + ds(v.back()));
}
VH_MAIN(run)
