// C11: fault enumeration: every allocation made during every call of the alphabet (from several states), one at a time;
// additionally all later ones too, and (thorough) every pair.  After the fault the context must answer everything as before.
#include "alloc.hpp"
#include <deque>
#include "vh.hpp"
#include "capi.hpp"

static const char* BIG =
    "{\"version\":\"eosio::abi/1.1\",\"types\":[{\"new_type_name\":\"a_rather_long_alias_name_for_an_account\",\"type\":\"name\"},{\"new_type_name\":\"list\",\"type\":\"node[]\"}],"
    "\"structs\":[{\"name\":\"node\",\"base\":\"node_base_with_a_long_name\",\"fields\":[{\"name\":\"children\",\"type\":\"list\"},{\"name\":\"maybe\",\"type\":\"node?\"},{\"name\":\"choice\",\"type\":\"v\"},{\"name\":\"tail_with_a_long_name_x\",\"type\":\"string$\"}]},"
    "{\"name\":\"node_base_with_a_long_name\",\"base\":\"\",\"fields\":[{\"name\":\"account\",\"type\":\"a_rather_long_alias_name_for_an_account\"},{\"name\":\"memo\",\"type\":\"string\"}]}],"
    "\"actions\":[{\"name\":\"act\",\"type\":\"node\",\"ricardian_contract\":\"some text that is long enough to be allocated\"}],"
    "\"tables\":[{\"name\":\"tab\",\"index_type\":\"i64\",\"key_names\":[\"a_key_name_that_is_allocated\"],\"key_types\":[\"uint64\"],\"type\":\"node\"}],"
    "\"ricardian_clauses\":[{\"id\":\"clause identifier longer than sso\",\"body\":\"body\"}],\"error_messages\":[{\"error_code\":7,\"error_msg\":\"message longer than sixteen\"}],"
    "\"variants\":[{\"name\":\"v\",\"types\":[\"int8\",\"node\",\"string\",\"list\",\"public_key\",\"asset\"]}]}";
static const char* NODE =
    "{\"account\":\"alice\",\"memo\":\"a memo that is longer than the small string buffer\",\"children\":[{\"account\":\"b\",\"memo\":\"\",\"children\":[],\"maybe\":null,\"choice\":[\"public_key\",\"PUB_K1_69X3383RzBZj41k73CSjUNXM5MYGpnDxyPnWUKPEtYQmVzqTY7\"],\"tail_with_a_long_name_x\":\"x\"}],"
    "\"maybe\":{\"account\":\"c\",\"memo\":\"\",\"children\":[],\"maybe\":null,\"choice\":[\"asset\",\"1.0000 SYS\"],\"tail_with_a_long_name_x\":\"another string that needs an allocation\"},\"choice\":[\"list\",[]]}";

struct Scenario {
   std::string       name;
   std::vector<Call> setup;
   Call              call;
};
static Call mk(Kind k, int con, const char* a, const char* b, int abi = 0) {
   Call x;
   x.k = k, x.con = con, x.a = a, x.b = b, x.abi = abi;
   return x;
}
static bool runs_into_fault(Run& r, const Call& x, Obs& o, uint64_t k, bool all_later, uint64_t second) {
   // arm inside the call only: the copies Run makes of the arguments are allocated there too, so build them first
   vh_alloc::failed = false;
   r.arm = [&] {
      vh_alloc::fail_at = k;
      vh_alloc::then    = all_later ? 1 : second;
   };
   r.disarm = [&] { vh_alloc::fail_at = vh_alloc::then = 0; };
   o        = r.call(x);
   r.arm = r.disarm = nullptr;
   return vh_alloc::failed;
}
static std::vector<Obs> probe(Run& r, const std::vector<Call>& q) {
   std::vector<Obs> v;
   for (auto& x : q) v.push_back(r.call(x));
   return v;
}
static std::string diff(const std::vector<Call>& q, const std::vector<Obs>& a, const std::vector<Obs>& b) {
   for (size_t i = 0; i < a.size(); ++i)
      if (a[i].ok != b[i].ok || a[i].v != b[i].v || a[i].err != b[i].err)
         return show(q, { (int)i }) + ": " + (b[i].ok ? b[i].v : "error " + b[i].err) + " instead of " + (a[i].ok ? a[i].v : "error " + a[i].err);
   return "";
}
static std::string binof(abieos_context* c) { return std::string(abieos_get_bin_size(c) ? abieos_get_bin_data(c) : "", abieos_get_bin_size(c)); }

static void check(vh::T& t, const Scenario& s, const std::vector<Call>& queries, bool pairs) {
   t.desc(s.name);
   // without a fault
   Obs              good;
   std::vector<Obs> before, after;
   {
      Run r;
      for (auto& x : s.setup) r.call(x);
      before = probe(r, queries);
   }
   {
      Run r;
      for (auto& x : s.setup) r.call(x);
      good  = r.call(s.call);
      after = probe(r, queries);
   }
   auto one = [&](uint64_t k, bool later, uint64_t second) {
      std::string where = s.name + " allocation " + std::to_string(k) + (later ? " and all later" : second ? " and +" + std::to_string(second) : "");
      t.desc(where);
      t.count("evaluations");
      uint64_t nv   = t.nviolations;
      int64_t  live = vh_alloc::live;
      bool    hit;
      {
         Run r;
         for (auto& x : s.setup) r.call(x);
         std::string prev = binof(r.c);
         Obs         o;
         hit = runs_into_fault(r, s.call, o, k, later, second);
         std::string now = binof(r.c);
         if (o.ok) {
            if (o.v != good.v || !good.ok)
               t.fail("result:" + where, "succeeded with " + o.v + ", without the fault " + (good.ok ? good.v : "fails"));
         } else {
            if (o.err.empty())
               t.fail("noerror:" + where, "failed without an error text");
            if (now != prev && !now.empty())
               t.fail("bin:" + where, "failed call left binary " + vh::hexs(now));
         }
         Obs again;
         if (s.call.k == HEX) // the queries below change the binary it shows
            again = r.call(s.call);
         // everything as before (after, if the call completed)
         bool loaded = s.call.k <= SETH && o.ok;
         auto d      = diff(queries, loaded ? after : before, probe(r, queries));
         if (!d.empty())
            t.fail("state:" + where, d);
         if (s.call.k != HEX)
            again = r.call(s.call);
         if (again.ok != good.ok || again.v != good.v || (!again.ok && again.err != good.err))
            t.fail("repeat:" + where, "repeating the call gives " + (again.ok ? again.v : "error " + again.err));
         d = diff(queries, after, probe(r, queries));
         if (!d.empty())
            t.fail("state2:" + where, d);
      }
      if (vh_alloc::live != live && t.nviolations == nv)
         t.fail("leak:" + where, std::to_string(vh_alloc::live - live) + " blocks not freed");
      if (hit)
         t.distinct("nontrivial", vh::fnv(where));
      return hit;
   };
   uint64_t n = 1;
   for (; one(n, false, 0); ++n)
      if (n > 100000) {
         t.fail("endless:" + s.name, "more than 100000 allocations");
         break;
      }
   t.count("allocation_points", n - 1);
   for (uint64_t k = 1; k < n; ++k) one(k, true, 0);
   if (pairs)
      for (uint64_t k = 1; k < n; ++k)
         for (uint64_t j = 1; j <= (t.thorough() ? 80 : 12); ++j) one(k, false, j + 1);
}

static void run(vh::T& t) {
   auto                           al = alphabet(2, true);
   std::vector<std::vector<Call>> setups;
   setups.push_back({});
   setups.push_back({ mk(SETJ, 0, "", A1, 1) });
   setups.push_back({ mk(SETJ, 0, "", A2, 2), mk(SETJ, 1, "", A1, 1), mk(J2B, 0, "s[]", "[{\"a\":1,\"b\":\"a string longer than the buffer\"}]") });
   if (t.thorough())
      setups.push_back({ mk(SETJ, 0, "", A1, 1), mk(SETJ, 1, "", A2, 2), mk(J2B, 0, "nope[]", "1"), mk(J2B, 1, "s?", "null") });
   std::vector<Call> queries;
   for (auto& x : al)
      if (x.k >= J2B && x.k != HEX)
         queries.push_back(x);
   for (size_t si = 0; si < setups.size(); ++si)
      for (size_t i = 0; i < al.size(); ++i)
         if (t.next())
            check(t, { "state " + std::to_string(si) + " " + show(al, { (int)i }), setups[si], al[i] }, queries, true);
   // larger documents: every code path of the converters that allocates
   static std::string bighex, bigbin, nodebin, nodehex, nodejson, reord, deep, longerr;
   {
      Run r;
      abieos_set_abi(r.c, 0, BIG);
      if (!abieos_json_to_bin(r.c, 0, "node", NODE)) {
         if (t.next())
            t.fail("setup", abieos_get_error(r.c));
         return;
      }
      nodebin = binof(r.c);
      nodehex = vh::hexs(nodebin);
      deep    = "{\"account\":\"alice\",\"memo\":\"a memo that is longer than the small string buffer\",\"children\":[1]}";
      longerr = "a_type_name_that_is_not_in_the_abi_and_is_long[]?";
   }
   auto setbig = std::vector<Call>{ mk(SETJ, 0, "", BIG, 1) };
   auto withbin = setbig;
   withbin.push_back(mk(J2B, 0, "node", NODE));
   Call b2j = mk(B2J, 0, "node", "");
   b2j.bin  = nodebin;
   Call b2jt = b2j, b2jx = b2j, b2jl = b2j;
   b2jt.bin = nodebin.substr(0, nodebin.size() - 3);
   b2jx.bin += "zz";
   b2jl.a   = "list";
   b2jl.bin = "\1" + nodebin;
   std::vector<Scenario> big = {
      { "load", {}, mk(SETJ, 0, "", BIG, 1) },
      { "reload", setbig, mk(SETJ, 0, "", BIG, 1) },
      { "replace", setbig, mk(SETJ, 0, "", A1, 1) },
      { "in order", setbig, mk(J2B, 0, "node", NODE) },
      { "in order again", withbin, mk(J2B, 0, "node", NODE) },
      { "reorderable", setbig, mk(J2BR, 0, "node", NODE) },
      { "reorderable again", withbin, mk(J2BR, 0, "node", NODE) },
      { "bad in order", withbin, mk(J2B, 0, "node", deep.c_str()) },
      { "bad reorderable", withbin, mk(J2BR, 0, "node", deep.c_str()) },
      { "unknown type", withbin, mk(J2B, 0, longerr.c_str(), "1") },
      { "new array type", setbig, mk(J2B, 0, "a_rather_long_alias_name_for_an_account[]", "[\"a\",\"b\"]") },
      { "new optional type", setbig, mk(J2B, 0, "a_rather_long_alias_name_for_an_account?", "null") },
      { "new extension type", setbig, mk(J2BR, 0, "node_base_with_a_long_name[]", "[{\"memo\":\"m\",\"account\":\"a\"}]") },
      { "decode", setbig, b2j },
      { "decode truncated", withbin, b2jt },
      { "decode left over", withbin, b2jx },
      { "decode list", withbin, b2jl },
      { "decode hex", withbin, mk(H2J, 0, "node", nodehex.c_str()) },
      { "hex", withbin, mk(HEX, 0, "", "") },
      { "action", setbig, mk(ACT, 0, "act", "") },
      { "table", setbig, mk(TAB, 0, "tab", "") },
      { "missing contract", withbin, mk(J2B, 1, "node", NODE) },
      { "missing contract 2", withbin, mk(B2J, 4, "node", NODE) },
      { "missing table", withbin, mk(TAB, 0, "eosio.token", NODE) },
   };
   std::vector<Call> q2 = { mk(J2B, 0, "node", NODE), mk(J2BR, 0, "node", NODE), b2j, b2jt, mk(ACT, 0, "act", ""), mk(TAB, 0, "tab", ""), mk(J2B, 0, "list", "[]"), mk(J2B, 0, "string[]", "[\"x\"]"),
                            mk(J2B, 0, "a_rather_long_alias_name_for_an_account?", "null"), mk(J2B, 0, "a_rather_long_alias_name_for_an_account[]", "[\"a\"]"), mk(J2B, 0, longerr.c_str(), "1"), mk(J2B, 0, "s", "{\"a\":1}"), mk(J2B, 1, "s", "{}") };
   for (auto& s : big)
      if (t.next())
         check(t, s, q2, true);
   // every base type, both directions, and the text producing calls
   const char* vals[][2] = {
      { "bool", "true" }, { "int8", "-1" }, { "uint64", "\"18446744073709551615\"" }, { "int128", "\"-170141183460469231731687303715884105728\"" }, { "uint128", "5" },
      { "varuint32", "300" }, { "varint32", "-300" }, { "float32", "1.5" }, { "float64", "-2.2250738585072014e-308" }, { "float128", "\"000102030405060708090A0B0C0D0E0F\"" },
      { "time_point", "\"2018-06-15T19:17:47.999\"" }, { "time_point_sec", "\"2018-06-15T19:17:47.000\"" }, { "block_timestamp_type", "\"2018-06-15T19:17:47.500\"" },
      { "name", "\"eosio.token\"" }, { "bytes", "\"000102030405060708090A0B0C0D0E0F101112131415161718\"" }, { "string", "\"a string longer than the small buffer \\u00e9\"" },
      { "checksum160", "\"000102030405060708090A0B0C0D0E0F10111213\"" }, { "checksum256", "\"000102030405060708090A0B0C0D0E0F101112131415161718191A1B1C1D1E1F\"" },
      { "public_key", "\"PUB_R1_1111111111111111111111111111111116amPNj\"" }, { "public_key", "\"EOS6MRyAjQq8ud7hVNYcfnVPJqcVpscN5So8BhtHuGYqET5GDW5CV\"" },
      { "private_key", "\"PVT_R1_PtoxLPzJZURZmPS4e26pjBiAn41mkkLPrET5qHnwDvbvqFEL6\"" },
      { "signature", "\"SIG_K1_Kg2UKjXTX48gw2wWH4zmsZmWu3yarcfC21Bd9JPj7QoDURqiAacCHmtExPk3syPb2tFLsp1R4ttXLXgr7FYgDvKPC5RCkx\"" },
      { "symbol", "\"4,SYS\"" }, { "symbol_code", "\"SYS\"" }, { "asset", "\"1.2345 SYS\"" }, { "extended_asset", "{\"quantity\":\"1.2345 SYS\",\"contract\":\"eosio.token\"}" },
      { "string", "1" }, { "public_key", "\"PUB_K1_bad\"" }, { "name", "\"a name that is not a valid name at all\"" }, { "asset", "\"1.2345 sys\"" }, { "bytes", "\"0\"" }, { "checksum256", "\"00\"" }, { "int8", "\"a number that is not a number\"" },
   };
   static std::deque<std::string> keep;
   for (auto& v : vals)
      for (int form = 0; form < 2; ++form)
         if (t.next()) {
            std::string ty = v[0], js = v[1];
            if (form)
               ty += "[]", js = "[" + js + "," + js + "]";
            keep.push_back(ty);
            const char* tp = keep.back().c_str();
            keep.push_back(js);
            const char*       jp = keep.back().c_str();
            std::vector<Call> su = { mk(SETJ, 0, "", A1, 1) };
            Run               r;
            abieos_set_abi(r.c, 0, A1);
            std::string bin;
            bool        ok = abieos_json_to_bin(r.c, 0, tp, jp);
            if (ok)
               bin = binof(r.c);
            std::vector<Call> q = { mk(J2B, 0, tp, jp), mk(J2BR, 0, tp, jp), mk(J2B, 0, "s", "{\"a\":1}"), mk(ACT, 0, "act", "") };
            check(t, { "in order " + ty + " " + js, su, q[0] }, q, t.thorough());
            check(t, { "reorderable " + ty + " " + js, su, q[1] }, q, t.thorough());
            if (ok) {
               Call d = mk(B2J, 0, tp, "");
               d.bin  = bin;
               q.push_back(d);
               check(t, { "decode " + ty + " " + js, su, d }, q, t.thorough());
               d.bin.pop_back();
               check(t, { "decode truncated " + ty + " " + js, su, d }, q, t.thorough());
            }
         }
   // creating a context
   if (t.next()) {
      t.count("evaluations");
      vh_alloc::fail_at = 1;
      auto c            = abieos_create();
      vh_alloc::fail_at = 0;
      if (c)
         t.fail("create", "returned a context although its allocation failed");
   }
   t.sample("allocation 17 of abieos_set_abi(A1) fails on a context that already holds A2; all queries repeated");
}
VH_MAIN(run)
