// C10: every sequence of C interface calls over an alphabet up to a depth, each executed on a fresh context, against a
// model {contract -> ABI, last binary, last text}.  The result of every call is compared with a hand-written table
// (what this call gives under the ABI currently loaded) and with the same call made on a context that has only that
// ABI loaded (so that error texts too cannot depend on the history).
#include "vh.hpp"
#include "capi.hpp"

static void exec(vh::T& t, const std::vector<Call>& al, const Fresh& fr, const std::vector<int>& seq) {
   Run                        r;
   std::map<int, int>         abi;  // contract index -> 1, 2
   std::string                bin;  // latest successful conversion
   struct Kept {
      const char* p;
      std::string was;
      int         con; // -1: until the next call returning text; else while that contract's ABI stays
   };
   std::vector<Kept> kept;
   t.count("traces");
   auto fail = [&](const char* what, size_t at, const std::string& msg) {
      t.fail(std::string(what) + ":" + show(al, std::vector<int>(seq.begin(), seq.begin() + at + 1)), msg);
   };
   if (abieos_get_bin_size(r.c) != 0 || abieos_get_error(r.c) == nullptr)
      t.fail("create", "a new context is not empty");
   for (size_t i = 0; i < seq.size(); ++i) {
      auto& x   = al[seq[i]];
      int   cur = abi.count(x.con) ? abi[x.con] : 0;
      Obs   o   = r.call(x);
      t.count("transitions");
      // expected
      bool        ok;
      std::string want;
      if (x.k <= SETH)
         ok = x.abi;
      else if (x.k == HEX)
         ok = true, want = bin;
      else if (x.k == N2S)
         ok = true, want = x.b;
      else if (x.k == S2N)
         ok = true, want = std::to_string(x.a ? name_v(x.a) : 0);
      else {
         want = cur == 0 ? "!" : cur == 1 ? x.r1 : x.r2;
         ok   = want != "!";
         if (!ok)
            want = "";
      }
      if (x.k == HEX && o.ok)
         for (auto& ch : o.v) ch = tolower(ch);
      if (o.ok != ok)
         return fail("result", i, o.ok ? "succeeded with " + o.v : "failed: " + o.err);
      if (ok && o.v != want)
         return fail("value", i, "got " + o.v + " want " + want);
      if (!ok) {
         if (o.err.empty())
            return fail("noerror", i, "failed without an error text");
         auto& f = fr.o[cur][seq[i]];
         if (o.err != f.err)
            return fail("history", i, "error \"" + o.err + "\", without the earlier calls \"" + f.err + "\"");
         bool goodhex = x.k != H2J || (x.b && strlen(x.b) % 2 == 0 && !strchr(x.b, 'g'));
         if (!cur && x.k >= J2B && x.a && goodhex && o.err.find(pn(contracts[x.con])) == std::string::npos)
            return fail("which", i, "error for a contract that is not loaded: " + o.err);
         if (cur && (x.k == ACT || x.k == TAB) && o.err.find(x.a) == std::string::npos)
            return fail("which", i, "error for an action or table that is not there: " + o.err);
      }
      // effects
      if (ok && x.k <= SETH)
         abi[x.con] = x.abi;
      bool conv = x.k == J2B || x.k == J2BR;
      if (conv && ok)
         bin = want;
      std::string now = vh::hexs(std::string(abieos_get_bin_data(r.c) ? abieos_get_bin_data(r.c) : "", abieos_get_bin_size(r.c)));
      if (conv && !ok && now.empty())
         bin = ""; // a failed conversion may drop the previous result
      if (now != bin)
         return fail("bin", i, "binary is " + now + ", latest conversion gave " + bin);
      // texts handed out earlier
      bool texty = x.k == B2J || x.k == H2J || x.k == HEX || x.k == N2S || x.k == ACT || x.k == TAB;
      std::vector<Kept> keep;
      for (auto& k : kept) {
         if (k.con < 0 ? texty : (ok && x.k <= SETH && x.con == k.con))
            continue;
         if (k.was != k.p)
            return fail("text", i, "text returned earlier changed from " + k.was + " to " + k.p);
         keep.push_back(k);
      }
      kept = keep;
      if (r.text)
         kept.push_back({ r.text, r.text, x.k == ACT || x.k == TAB ? x.con : -1 });
      uint64_t h = vh::fnv(bin);
      for (auto& [c, a] : abi) h = vh::mix(h, c * 3 + a);
      t.distinct("states", h);
   }
}
static void run(vh::T& t) {
   auto small = alphabet(2, false), mid = alphabet(2, true), wide = alphabet(5, false);
   static Fresh fs(small), fm(mid), fw(wide);
   // 1. every sequence of 3 (4) calls over the full alphabet
   auto sweep = [&](const std::vector<Call>& al, const Fresh& fr, int depth) {
      int n = al.size();
      for (int a = 0; a < n; ++a)
         for (int b = 0; b < n; ++b) {
            if (!t.next())
               continue;
            std::vector<int> seq = { a, b };
            t.desc(show(al, seq) + " ...");
            std::vector<int> rest(depth - 2, 0);
            for (;;) {
               seq.resize(2);
               seq.insert(seq.end(), rest.begin(), rest.end());
               exec(t, al, fr, seq);
               int k = depth - 3;
               while (k >= 0 && ++rest[k] == n) rest[k--] = 0;
               if (k < 0)
                  break;
            }
         }
   };
   sweep(mid, fm, t.thorough() ? 4 : 3);
   // 2. deeper over the reduced alphabet
   sweep(small, fs, t.thorough() ? 5 : 4);
   // 3. five contracts (identifiers that agree in 32 bits)
   sweep(wide, fw, 3);
   // 4. breadth-first over model states: from a shortest call sequence to every state, every pair of calls
   {
      std::vector<std::vector<int>>                       reach;
      std::set<std::pair<std::vector<int>, std::string>>  seen;
      std::vector<std::pair<std::vector<int>, std::string>> q = { { { 0, 0 }, "" } };
      std::vector<std::vector<int>>                       path = { {} };
      seen.insert(q[0]);
      for (size_t i = 0; i < q.size(); ++i) {
         reach.push_back(path[i]);
         for (size_t k = 0; k < mid.size(); ++k) {
            auto  s = q[i];
            auto& x = mid[k];
            if (x.k <= SETH && x.abi)
               s.first[x.con] = x.abi;
            else if (x.k == J2B || x.k == J2BR) {
               int         cur = s.first[x.con];
               std::string w   = cur == 0 ? "!" : cur == 1 ? x.r1 : x.r2;
               if (w != "!")
                  s.second = w;
            }
            if (seen.insert(s).second) {
               q.push_back(s);
               auto p = path[i];
               p.push_back(k);
               path.push_back(p);
            }
         }
      }
      for (auto& p : reach)
         if (t.next()) {
            t.desc("after " + show(mid, p));
            for (size_t a = 0; a < mid.size(); ++a)
               for (size_t b = 0; b < mid.size(); ++b) {
                  auto s = p;
                  s.push_back(a);
                  s.push_back(b);
                  exec(t, mid, fm, s);
               }
         }
   }
   // 5. null context and null destroy
   if (t.next()) {
      t.count("traces");
      bool bad = !abieos_get_error(nullptr) || !*abieos_get_error(nullptr) || abieos_get_bin_size(nullptr) || abieos_get_bin_data(nullptr) || abieos_get_bin_hex(nullptr) ||
                 abieos_name_to_string(nullptr, 5) || abieos_set_abi(nullptr, 1, A1) || abieos_set_abi_bin(nullptr, 1, "x", 1) || abieos_set_abi_hex(nullptr, 1, "00") ||
                 abieos_get_type_for_action(nullptr, 1, 1) || abieos_get_type_for_table(nullptr, 1, 1) || abieos_json_to_bin(nullptr, 1, "s", "1") ||
                 abieos_json_to_bin_reorderable(nullptr, 1, "s", "1") || abieos_bin_to_json(nullptr, 1, "s", "x", 1) || abieos_hex_to_json(nullptr, 1, "s", "00");
      abieos_string_to_name(nullptr, nullptr);
      abieos_destroy(nullptr);
      if (bad)
         t.fail("null", "a call without context succeeded");
   }
   // 6. repetition: the same call many times, and growing results
   if (t.next()) {
      Run r;
      abieos_set_abi(r.c, 0, A1);
      for (int n = 0; n < 2000; ++n) {
         std::string j = "[";
         for (int i = 0; i < n % 200; ++i) j += i ? ",{\"a\":1}" : "{\"a\":1}";
         t.count("traces");
         if (!abieos_json_to_bin(r.c, 0, "s[]", (j + "]").c_str()) || abieos_get_bin_size(r.c) != n % 200 + 1 + (n % 200 > 127))
            t.fail("repeat", "size after " + std::to_string(n) + " repetitions is " + std::to_string(abieos_get_bin_size(r.c)));
         if (strlen(abieos_get_bin_hex(r.c)) != 2 * abieos_get_bin_size(r.c))
            t.fail("repeat", "hex length");
      }
   }
   // 7. results handed back as arguments: the same history on two contexts, then a further call whose argument is the
   // very pointer the previous call returned (first context) or an exact copy of what it points at (second one)
   {
      std::vector<int> texts, convs;
      for (size_t i = 0; i < mid.size(); ++i) {
         auto& x = mid[i];
         if (x.k == B2J || x.k == H2J || x.k == HEX || x.k == N2S || x.k == ACT || x.k == TAB)
            texts.push_back(i);
         if (x.k == J2B || x.k == J2BR)
            convs.push_back(i);
      }
      // the texts of ABIs in hex, so that a returned text can be an ABI
      static const std::string hexabi[] = { "", "\"" + vh::hexs(bin1()) + "\"", "\"" + vh::hexs(bin2()) + "\"" };
      auto history = [&](Run& r, const std::vector<int>& p) {
         Obs o;
         for (int i : p) o = r.call(mid[i]);
         return o;
      };
      auto state = [](Run& r) {
         std::string s = vh::hexs(std::string(abieos_get_bin_data(r.c) ? abieos_get_bin_data(r.c) : "", abieos_get_bin_size(r.c)));
         for (int c = 0; c < 2; ++c) {
            for (auto* n : { "act", "gone", "tab" }) {
               auto *a = abieos_get_type_for_action(r.c, contracts[c], name_v(n));
               s += "|" + (a ? std::string(a) : "!" + std::string(abieos_get_error(r.c)));
               auto *b = abieos_get_type_for_table(r.c, contracts[c], name_v(n));
               s += "|" + (b ? std::string(b) : "!" + std::string(abieos_get_error(r.c)));
            }
            auto* h = abieos_hex_to_json(r.c, contracts[c], "s", "05");
            s += "|" + (h ? std::string(h) : "!" + std::string(abieos_get_error(r.c)));
         }
         return s;
      };
      // one consumer: what it returned, in one string
      enum { CONS = 22 };
      auto consume = [](abieos_context* c, int k, uint64_t con, const char* p, size_t n, bool type_name) -> std::string {
         auto st = [&](bool ok) { return ok ? "ok" : std::string("!") + abieos_get_error(c); };
         auto tx = [&](const char* q) { return q ? std::string(q) : std::string("!") + abieos_get_error(c); };
         static const char d5[] = { 5, 0 };
         switch (k) {
            case 0: return st(abieos_json_to_bin(c, con, "s", p));
            case 1: return st(abieos_json_to_bin_reorderable(c, con, "s", p));
            case 2: return st(abieos_json_to_bin(c, con, "al", p));
            case 3: return st(abieos_json_to_bin_reorderable(c, con, "al", p));
            case 4: return st(abieos_json_to_bin(c, con, "string", p));
            case 5: return st(abieos_json_to_bin_reorderable(c, con, "string[]", p));
            case 6: return st(abieos_json_to_bin(c, con, p, "{\"a\":5}"));
            case 7: return st(abieos_json_to_bin_reorderable(c, con, p, "{\"a\":5}"));
            case 8: return st(abieos_json_to_bin(c, con, p, "[\"int8\",7]"));
            case 9: return std::to_string(abieos_string_to_name(c, p));
            case 10: return st(abieos_set_abi(c, con, p));
            case 11: return st(abieos_set_abi_hex(c, con, p));
            case 12: return st(abieos_set_abi_bin(c, con, p, n));
            case 13: return st(abieos_json_to_bin(c, con, p, p));
            case 14: return st(abieos_json_to_bin_reorderable(c, con, p, p));
            // calls that return a text themselves, on a pointer that is not the text they replace
            case 15: return type_name ? tx(abieos_bin_to_json(c, con, p, d5, 1)) : "";
            case 16: return type_name ? tx(abieos_bin_to_json(c, con, p, d5, 2)) : "";
            case 17: return type_name ? tx(abieos_hex_to_json(c, con, p, "05")) : "";
            case 18: return type_name ? tx(abieos_hex_to_json(c, con, p, "0500")) : "";
            case 19: return type_name ? tx(abieos_hex_to_json(c, con, p, "0107")) : "";
            case 20: return type_name ? tx(abieos_hex_to_json(c, con, "s", p)) : "";
            case 21: return type_name ? tx(abieos_bin_to_json(c, con, "string", p, n)) : "";
         }
         return "";
      };
      static const char* cname[] = { "json_to_bin(s,.)", "reorderable(s,.)", "json_to_bin(al,.)", "reorderable(al,.)", "json_to_bin(string,.)", "reorderable(string[],.)", "json_to_bin(.,obj)",
                                     "reorderable(.,obj)", "json_to_bin(.,arr)", "string_to_name", "set_abi", "set_abi_hex", "set_abi_bin", "json_to_bin(.,.)", "reorderable(.,.)", "bin_to_json(.,1)",
                                     "bin_to_json(.,2)", "hex_to_json(.,05)", "hex_to_json(.,0500)", "hex_to_json(.,0107)", "hex_to_json(s,.)", "bin_to_json(string,.)" };
      auto compare = [&](const std::vector<int>& p, int k, int con, bool text) {
         Run         a, b;
         history(a, p), history(b, p);
         const char* pa = text ? a.text : abieos_get_bin_data(a.c);
         const char* pb = text ? b.text : abieos_get_bin_data(b.c);
         if (!pa || !pb)
            return;
         size_t n = text ? strlen(pa) : abieos_get_bin_size(a.c), m = text ? strlen(pb) : abieos_get_bin_size(b.c);
         if (n != m)
            return t.fail("handed-back:length:" + show(mid, p), "two equal histories differ");
         std::unique_ptr<char[]> copy(new char[n + text]);
         memcpy(copy.get(), pb, n + text);
         auto kind = mid[p.back()].k;
         bool own  = text && (kind == ACT || kind == TAB);
         t.count("traces"), t.count("transitions", 2 * (p.size() + 1));
         std::string ra, rb;
         if (text)
            ra = consume(a.c, k, contracts[con], pa, n, own), rb = consume(b.c, k, contracts[con], copy.get(), n, own);
         else if (k == 12 || k == 21)
            ra = consume(a.c, k, contracts[con], pa, n, true), rb = consume(b.c, k, contracts[con], copy.get(), n, true);
         else if (k < 2) { // the binary result as data
            auto *qa = abieos_bin_to_json(a.c, contracts[con], k ? "al" : "s", pa, n), *qb = abieos_bin_to_json(b.c, contracts[con], k ? "al" : "s", copy.get(), n);
            ra = qa ? qa : std::string("!") + abieos_get_error(a.c), rb = qb ? qb : std::string("!") + abieos_get_error(b.c);
         }
         std::string w = std::string(":") + cname[k] + " of contract " + std::to_string(con) + " after " + show(mid, p);
         if (ra != rb)
            t.fail("handed-back" + w, "with the returned pointer " + ra + ", with a copy " + rb);
         else {
            auto sa = state(a), sb = state(b);
            if (sa != sb)
               t.fail("handed-back:state" + w, "afterwards " + sa + ", with a copy " + sb);
         }
         t.distinct("states", vh::mix(vh::fnv(rb), k));
      };
      std::vector<std::vector<int>> starts = { {} };
      for (size_t i = 0; i < mid.size(); ++i) starts.push_back({ int(i) });
      std::vector<int> heads;
      for (size_t i = 0; i < mid.size(); ++i)
         if (mid[i].k <= SETH && mid[i].abi)
            heads.push_back(i);
      for (int h : heads)
         for (size_t i = 0; i < mid.size(); ++i)
            if (t.thorough() || mid[h].k == SETJ || mid[i].k <= SETH)
               starts.push_back({ h, int(i) });
      if (t.thorough())
         for (int h : { heads[0], heads[1] })
            for (size_t i = 0; i < mid.size(); ++i)
               for (size_t j = 0; j < mid.size(); ++j) starts.push_back({ h, int(i), int(j) });
      for (auto& st : starts)
         if (t.next()) {
            t.desc("handed back after " + show(mid, st));
            for (int q : texts) {
               auto p = st;
               p.push_back(q);
               for (int k = 0; k < CONS; ++k)
                  for (int con = 0; con < 2; ++con) compare(p, k, con, true);
            }
            for (int q : convs) {
               auto p = st;
               p.push_back(q);
               for (int k : { 0, 1, 12, 21 })
                  for (int con = 0; con < 2; ++con) compare(p, k, con, false);
            }
         }
      // returned values that are whole ABIs: hex texts (from get_bin_hex) and binaries, of every length class
      for (int which = 1; which <= 2; ++which)
         for (int before = 0; before <= 2; ++before)
            for (int con = 0; con < 2; ++con)
               if (t.next()) {
                  t.desc("an ABI handed back");
                  auto b = which == 1 ? bin1() : bin2();
                  for (int form = 0; form < 3; ++form) {
                     Run r;
                     if (before)
                        abieos_set_abi(r.c, contracts[con], before == 1 ? A1 : A2);
                     else
                        abieos_set_abi(r.c, contracts[con], "{\"version\":\"eosio::abi/1.0\"}");
                     t.count("traces");
                     // "bytes" puts its length in front of the ABI
                     size_t pre = b.size() < 128 ? 1 : 2;
                     bool ok = abieos_json_to_bin(r.c, contracts[con], "bytes", hexabi[which].c_str());
                     if (!ok || size_t(abieos_get_bin_size(r.c)) != b.size() + pre)
                        return t.fail("abi-back:bytes", ok ? "size" : abieos_get_error(r.c));
                     if (form == 0)
                        ok = abieos_set_abi_bin(r.c, contracts[con], abieos_get_bin_data(r.c) + pre, b.size());
                     else if (form == 1)
                        ok = abieos_set_abi_hex(r.c, contracts[con], abieos_get_bin_hex(r.c) + 2 * pre);
                     else { // the JSON form of a string holding the hex text, quotes and all: refused, and nothing changes
                        auto* q = abieos_bin_to_json(r.c, contracts[con], "bytes", abieos_get_bin_data(r.c), abieos_get_bin_size(r.c));
                        if (!q || abieos_set_abi_hex(r.c, contracts[con], q))
                           t.fail("abi-back:text", "accepted");
                        ok = abieos_set_abi_hex(r.c, contracts[con], abieos_get_bin_hex(r.c) + 2 * pre);
                     }
                     if (!ok)
                        t.fail("abi-back:refused", abieos_get_error(r.c));
                     auto* a = abieos_get_type_for_action(r.c, contracts[con], name_v("act"));
                     if (!a || std::string(a) != (which == 1 ? "s" : "act"))
                        t.fail("abi-back:loaded", a ? a : abieos_get_error(r.c));
                  }
               }
   }
   // 8. many contracts in one context, loaded and replaced in several orders: each answers with its own ABI
   for (int spread = 0; spread < 4; ++spread)
      for (int order = 0; order < 3; ++order)
         if (t.next()) {
            t.desc("many contracts");
            const int N = t.thorough() ? 3000 : 600;
            auto      id = [&](uint64_t i) { return spread == 0 ? i : spread == 1 ? i << 32 : spread == 2 ? ~i : i * 0x9e3779b97f4a7c15ull; };
            auto      nth = [&](int i) { return order == 0 ? i : order == 1 ? N - 1 - i : int((i * 7919ll) % N); };
            Run              r;
            std::vector<int> abi(N, 0);
            auto             look = [&](int i, const char* when) {
               auto* a = abieos_get_type_for_action(r.c, id(i), name_v("act"));
               t.count("transitions");
               std::string got = a ? a : "!", w = !abi[i] ? "!" : abi[i] == 1 ? "s" : "act";
               if (got != w)
                  t.fail(std::string("many:") + when, "contract " + std::to_string(id(i)) + " gives " + got + " instead of " + w);
               bool ok = abieos_json_to_bin(r.c, id(i), "s", abi[i] == 1 ? "{\"a\":5}" : "{\"a\":5,\"b\":\"x\"}");
               if (ok != !!abi[i] || (ok && abieos_get_bin_size(r.c) != (abi[i] == 1 ? 1 : 4)))
                  t.fail(std::string("many:conv:") + when, "contract " + std::to_string(id(i)));
            };
            t.count("traces");
            for (int k = 0; k < N; ++k) {
               int i = nth(k), which = 1 + (i % 3 == 1);
               bool ok = k % 2 ? abieos_set_abi(r.c, id(i), which == 1 ? A1 : A2) : abieos_set_abi_bin(r.c, id(i), which == 1 ? bin1().data() : bin2().data(), which == 1 ? bin1().size() : bin2().size());
               if (!ok)
                  t.fail("many:load", abieos_get_error(r.c));
               abi[i] = which;
               for (int j = 0; j < (k % 50 == 49 || k + 1 == N ? N : 3); ++j) look(nth(j), "loading");
            }
            for (int k = 0; k < N; k += 2) { // replace every other one
               int i = nth(k), which = 3 - abi[i];
               if (!abieos_set_abi(r.c, id(i), which == 1 ? A1 : A2))
                  t.fail("many:replace", abieos_get_error(r.c));
               if (abieos_set_abi(r.c, id(nth(k + 1)), BAD[0]))
                  t.fail("many:bad", "accepted");
               abi[i] = which;
            }
            for (int i = 0; i < N; ++i) look(i, "replaced");
            t.distinct("states", vh::mix(spread, order));
         }
   t.sample(show(mid, { 0, 6, 1, 6 }));
}
VH_MAIN(run)
