// C07: every nesting pattern (cyclic words over struct / derived struct / variant / array / optional / alias) up to a
// period x every depth through and far beyond the limits, in JSON (both modes) and binary; type-name suffix chains, alias
// and inheritance chains and cycles of every length up to a bound and very long ones, in every place a type is named.
#include "vh.hpp"
#include "lib.hpp"
#include "ref.hpp"
#include "eosio/abieos.h"
using namespace lib;

// One level pattern; letter i is the definition of type n<i>, whose inner type is n<i+1 mod p>.
//  S struct   D struct with a base   V variant [inner, int8]   A alias of inner[]   O alias of inner?   L alias of inner
//  T struct whose member is inner[]   P struct whose member is inner?   X struct whose last member is inner$
struct Pat {
   std::string w;
   std::string nm(size_t i) const { return "n" + std::to_string(i % w.size()); }
   std::string abi() const {
      std::string ty, st = "{\"name\":\"q\",\"base\":\"\",\"fields\":[{\"name\":\"g\",\"type\":\"int8\"}]}", va;
      for (size_t i = 0; i < w.size(); ++i) {
         char        c  = w[i];
         std::string in = nm(i + 1), q = "\"";
         if (strchr("AOL", c))
            ty += (ty.empty() ? "" : ",") + ("{\"new_type_name\":\"" + nm(i)) + "\",\"type\":\"" + in + (c == 'A' ? "[]" : c == 'O' ? "?" : "") + "\"}";
         else if (c == 'V')
            va += (va.empty() ? "" : ",") + ("{\"name\":\"" + nm(i)) + "\",\"types\":[\"" + in + "\",\"int8\"]}";
         else
            st += ",{\"name\":\"" + nm(i) + "\",\"base\":\"" + (c == 'D' ? "q" : "") + "\",\"fields\":[{\"name\":\"f\",\"type\":\"" + in +
                  (c == 'T' ? "[]" : c == 'P' ? "?" : c == 'X' ? "$" : "") + "\"}]}";
      }
      return "{\"version\":\"eosio::abi/1.1\",\"types\":[" + ty + "],\"structs\":[" + st + "],\"variants\":[" + va + "]}";
   }
   // 0: resolves.  Otherwise an alias cycle, or optional/array directly on an optional/array.
   char special(size_t i) const { // 'A'/'O' if n<i> is an array/optional, 'C' for a cycle, 0 otherwise
      for (size_t k = 0; k <= w.size(); ++k) {
         char c = w[(i + k) % w.size()];
         if (c == 'L')
            continue;
         if (c == 'A' || c == 'O')
            return c;
         return 0;
      }
      return 'C';
   }
   bool well_formed() const {
      bool any = false;
      for (char c : w) any |= !strchr("AOL", c);
      if (!any)
         return false; // aliases only: a cycle
      for (size_t i = 0; i < w.size(); ++i)
         if (strchr("AOTP", w[i]) && special(i + 1))
            return false;
      return true;
   }
   // The value of n0 with exactly d levels of objects, arrays and variants, if there is one.
   // `amb`: a present extension occupies no bytes, so the binary is also that of the value without it
   bool value(int d, std::string& js, std::string& bin, bool& amb) const {
      std::string tail;
      size_t      lastx = std::string::npos;
      js.clear();
      bin.clear();
      size_t       i    = 0;
      const size_t most = (size_t)(d + 1) * (w.size() + 1) * 2;
      for (size_t steps = 0;; ++steps) {
         if (steps > most)
            return false;
         char c = w[i % w.size()];
         if (c == 'L') {
            ++i;
            continue;
         }
         if (c == 'O') {
            if (d == 0) {
               js += "null";
               bin += '\0';
               break;
            }
            bin += '\1';
            ++i;
            continue;
         }
         if (d == 0)
            return false;
         --d;
         if (c == 'V') {
            if (d == 0) {
               js += "[\"int8\",7]";
               bin += "\1\7";
               break;
            }
            js += "[\"" + nm(i + 1) + "\",";
            tail += ']';
            bin += '\0';
         } else if (c == 'A') {
            if (d == 0) {
               js += "[]";
               bin += '\0';
               break;
            }
            js += '[';
            tail += ']';
            bin += '\1';
         } else {
            js += c == 'D' ? "{\"g\":5,\"f\":" : "{\"f\":";
            if (c == 'D')
               bin += '\5';
            tail += '}';
            if (c == 'X' && d == 0) { // omit the extension
               if (w.find_first_of("AT") < i || (i >= w.size() && w.find_first_of("AT") != std::string::npos))
                  return false; // not below an array element
               js.erase(js.size() - 4);
               break;
            }
            if (c == 'X')
               lastx = bin.size();
            if (c == 'P') {
               if (d == 0) {
                  js += "null";
                  bin += '\0';
                  break;
               }
               bin += '\1';
            }
            if (c == 'T') {
               if (d == 0)
                  return false;
               --d;
               if (d == 0) {
                  js += "[]";
                  bin += '\0';
                  break;
               }
               js += '[';
               tail += ']';
               bin += '\1';
            }
         }
         ++i;
      }
      js.append(tail.rbegin(), tail.rend());
      amb = lastx == bin.size();
      return true;
   }
};

static void words(int maxp, const std::string& al, std::vector<std::string>& out) {
   for (int n = 1; n <= maxp; ++n) {
      std::vector<int> ix(n, 0);
      for (;;) {
         std::string s;
         for (int i : ix) s += al[i];
         out.push_back(s);
         int i = n - 1;
         while (i >= 0 && ++ix[i] == (int)al.size()) ix[i--] = 0;
         if (i < 0)
            break;
      }
   }
}
static void judge(vh::T& t, const std::string& what, int d, const Res& r, const std::string& want, bool json) {
   t.count("evaluations");
   if (d <= 127) {
      if (!r.ok)
         t.fail(what, "refused at depth " + std::to_string(d) + ": " + r.err);
      else if (r.v != want)
         t.fail(what, "wrong result at depth " + std::to_string(d));
   } else if (d > 128) {
      if (r.ok)
         t.fail(what, "accepted at depth " + std::to_string(d));
      else if (r.err.empty())
         t.fail(what, "no error text");
   } else if (r.ok && r.v != want)
      t.fail(what, "wrong result at depth 128");
}
static void pattern(vh::T& t, const std::string& w) {
   Pat  p{ w };
   Abi  a;
   bool ok = a.load(p.abi());
   t.count("evaluations");
   if (ok != p.well_formed()) {
      t.fail("load " + w, ok ? "accepted" : a.err);
      return;
   }
   if (!ok)
      return;
   auto at = a.type("n0");
   abieos_context* c = abieos_create();
   if (!abieos_set_abi(c, 1, p.abi().c_str()))
      t.fail("capi load " + w, abieos_get_error(c));
   std::vector<int> ds;
   for (int d = 0; d <= 300; ++d) ds.push_back(d);
   for (int d : { 400, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 10000, 32768, 65535, 65536, 65537, 100000 }) ds.push_back(d);
   if (w.size() == 1)
      ds.push_back(1000000);
   bool any = false, again = false, deep = false;
   for (int d : ds) {
      std::string js, bin;
      bool        amb;
      if (!p.value(d, js, bin, amb)) {
         // no value of this depth: an unfinished one must be refused all the same
         continue;
      }
      any = true;
      again |= d > 10 && d < 30;
      deep |= d >= 286 && d <= 300;
      t.distinct("nontrivial", vh::mix(vh::fnv(w), d));
      std::string k = w + " depth " + std::to_string(d);
      judge(t, "json_to_bin " + k, d, enc(at, js), bin, true);
      judge(t, "json_to_bin_reorderable " + k, d, encr(at, js), bin, true);
      if (amb)
         continue;
      Res r = dec(at, bin);
      judge(t, "bin_to_json " + k, d, r, js, false);
      if (d < 140 || d == 1000) { // C interface agrees
         bool e = abieos_json_to_bin(c, 1, "n0", js.c_str());
         Res  x{ e, e ? std::string(abieos_get_bin_data(c), abieos_get_bin_size(c)) : "", e ? "" : abieos_get_error(c) };
         judge(t, "capi json_to_bin " + k, d, x, bin, true);
         const char* s = abieos_bin_to_json(c, 1, "n0", bin.data(), bin.size());
         Res         y{ !!s, s ? s : "", s ? "" : abieos_get_error(c) };
         judge(t, "capi bin_to_json " + k, d, y, js, false);
      }
   }
   if (again != deep) // the pattern repeats: guards against values being left out
      t.fail("enumeration " + w, "values of depth 10 to 30: " + std::to_string(again) + ", of 286 to 300: " + std::to_string(deep));
   if (again)
      t.count("deep_patterns");
   if (!any) { // a type without finite values: everything is refused
      for (int d : { 0, 1, 2, 100, 128, 129, 1000, 100000 }) {
         std::string js, bin;
         for (int i = 0; i < d; ++i) js += w.find('D') != std::string::npos ? "{\"g\":5,\"f\":" : "{\"f\":";
         bin = std::string(d, '\5');
         for (std::string end : { "", "null", "{}", "[]", "0" }) {
            std::string s = js + end;
            if (enc(at, s).ok || encr(at, s).ok)
               t.fail("infinite json " + w + " " + std::to_string(d), "accepted");
            s += std::string(d, '}');
            if (enc(at, s).ok || encr(at, s).ok)
               t.fail("infinite json " + w + " " + std::to_string(d), "accepted");
            t.count("evaluations", 4);
         }
         if (dec(at, bin).ok)
            t.fail("infinite bin " + w + " " + std::to_string(d), "accepted");
      }
   }
   // unfinished input of any depth
   for (int d : { 1, 127, 128, 129, 1000, 100000 })
      for (std::string unit : { "[", "{\"f\":", "[\"n1\",", "[\"n0\",", "[[", "{\"f\":[", "[{\"f\":", "{\"g\":5,\"f\":", "{\"x\":" }) {
         std::string s;
         for (int i = 0; i < d; ++i) s += unit;
         if (enc(at, s).ok || encr(at, s).ok)
            t.fail("unfinished " + w + " " + unit, "accepted");
         t.count("evaluations", 2);
      }
   for (int b = 0; b < 4; ++b)
      for (int d : { 128, 129, 1000, 200000 }) {
         Res r = dec(at, std::string(d, char(b)));
         t.count("evaluations");
         if (r.ok && !ref::parse(r.v))
            t.fail("bytes " + w, "bad JSON");
      }
   abieos_destroy(c);
}

static std::string abi_of(const std::string& types, const std::string& structs, const std::string& variants = "") {
   return "{\"version\":\"eosio::abi/1.1\",\"types\":[" + types + "],\"structs\":[" + structs + "],\"variants\":[" + variants + "]}";
}
static std::string num(int i) {
   char b[16];
   snprintf(b, sizeof b, "%07d", i);
   return b;
}
static void run(vh::T& t) {
   // A. nesting patterns
   std::vector<std::string> ws;
   words(t.thorough() ? 5 : 3, "SVAODLTPX", ws);
   for (auto& w : ws) {
      if (w.size() >= 4) { // of the long ones only those that load
         Pat p{ w };
         if (!p.well_formed())
            continue;
         if (w.size() == 5 && w.find_first_of("DLX") != std::string::npos)
            continue;
      }
      if (t.next()) {
         t.desc("pattern " + w);
         pattern(t, w);
      }
   }
   // B. suffix chains, wherever a type can be named
   std::vector<int> lens;
   for (int i = 0; i <= 70; ++i) lens.push_back(i);
   for (int i : { 100, 127, 128, 129, 255, 256, 1000, 5000, 20000, 65535, 65536, 100000, 1000000 }) lens.push_back(i);
   for (std::string root : { "int8", "zz", "", "s", "v", "al", "?", "[]", "$" })
      for (std::string suf : { "[]", "?", "$", "[]?", "?[]", "$[]", "[]$", "$?", "[", "]", "?$" })
         if (t.next()) {
            t.desc("suffixes " + root + " " + suf);
            const std::string st = "{\"name\":\"s\",\"base\":\"\",\"fields\":[{\"name\":\"f\",\"type\":\"int8\"}]}", va = "{\"name\":\"v\",\"types\":[\"int8\"]}",
                              al = "{\"new_type_name\":\"al\",\"type\":\"s\"}";
            for (int n : lens) {
               std::string name = root;
               for (int i = 0; i < n; ++i) name += suf;
               bool known = root == "int8" || root == "s" || root == "v" || root == "al";
               // accepted: no suffix; one of [] ? $; "[]$" or "?$" once
               bool good = known && (n == 0 || (n == 1 && (suf == "[]" || suf == "?" || suf == "$" || suf == "[]$" || suf == "?$")));
               bool isext = n && suf.back() == '$';
               bool plain = n == 0;
               for (int where = 0; where < 6; ++where) {
                  t.count("evaluations");
                  t.distinct("nontrivial", vh::mix(vh::fnv(root + suf), n * 8 + where));
                  bool        want = good, got = false;
                  std::string err;
                  if (where == 0) { // named by the caller
                     Abi a;
                     a.load(abi_of(al, st, va));
                     Res r = attempt([&] { return std::string(a.type(name) ? "y" : ""); });
                     got = r.ok && r.v == "y";
                     err = r.err;
                  } else {
                     std::string a2 = al, s2 = st, v2 = va;
                     if (where == 1) {
                        a2 += ",{\"new_type_name\":\"u\",\"type\":\"" + name + "\"}";
                        want = good && !isext;
                     } else if (where == 2) {
                        s2 += ",{\"name\":\"u\",\"base\":\"" + name + "\",\"fields\":[]}";
                        want = (known && plain && (root == "s" || root == "al")) || (name.empty());
                     } else if (where == 3)
                        s2 += ",{\"name\":\"u\",\"base\":\"\",\"fields\":[{\"name\":\"f\",\"type\":\"" + name + "\"}]}";
                     else if (where == 4)
                        v2 += ",{\"name\":\"u\",\"types\":[\"" + name + "\"]}";
                     else { // through the C interface
                        abieos_context* c = abieos_create();
                        abieos_set_abi(c, 1, abi_of(al, st, va).c_str());
                        got = !abieos_json_to_bin(c, 1, name.c_str(), "\"bad");
                        err = abieos_get_error(c);
                        bool w2 = err != "json parse error" && !err.empty();
                        if (!got || !w2)
                           t.fail("capi suffix " + root + " " + suf + " " + std::to_string(n), err);
                        abieos_destroy(c);
                        continue;
                     }
                     Abi a;
                     got = a.load(abi_of(a2, s2, v2));
                     err = a.err;
                  }
                  if (got != want)
                     t.fail("suffix " + root + " " + suf + "*" + std::to_string(n) + " at " + std::to_string(where), got ? "accepted" : err);
               }
            }
         }
   // C. alias, base and mixed chains and cycles; the names in ascending, descending and interleaved order
   std::vector<int> cl;
   for (int i = 1; i <= 70; ++i) cl.push_back(i);
   for (int i : { 100, 128, 200, 500, 1000, 3000 }) cl.push_back(i);
   if (t.thorough())
      cl.push_back(20000);
   for (int kind = 0; kind < 6; ++kind)
      for (int order = 0; order < 3; ++order)
         for (int n : cl)
            for (int cyc = 0; cyc < 2; ++cyc)
               if (t.next()) {
                  if (kind && n > 1000)
                     continue; // inherited members are copied at each level: quadratic
                  t.desc("chain kind " + std::to_string(kind) + " order " + std::to_string(order) + " length " + std::to_string(n) + (cyc ? " cyclic" : ""));
                  auto nm = [&](int i) {
                     if (cyc)
                        i %= n;
                     return (order == 0 ? "a" + num(i) : order == 1 ? "a" + num(9000000 - i) : (i & 1 ? "zz" : "A") + num(i));
                  };
                  std::string ty, st, va, want;
                  auto        al = [&](int i, const std::string& to) { ty += (ty.empty() ? "" : ",") + ("{\"new_type_name\":\"" + nm(i)) + "\",\"type\":\"" + to + "\"}"; };
                  auto        sc = [&](int i, const std::string& base, const std::string& fty) {
                     st += (st.empty() ? "" : ",") + ("{\"name\":\"" + nm(i)) + "\",\"base\":\"" + base + "\",\"fields\":[" +
                           (fty.empty() ? "" : "{\"name\":\"f" + std::to_string(i) + "\",\"type\":\"" + fty + "\"}") + "]}";
                  };
                  auto va1 = [&](int i, const std::string& c) { va += (va.empty() ? "" : ",") + ("{\"name\":\"" + nm(i)) + "\",\"types\":[\"" + c + "\"]}"; };
                  // number k is the deepest
                  std::string js, bin;
                  bool        wf = !cyc, finite = true;
                  for (int i = 0; i < n; ++i) {
                     bool last = i == n - 1 && !cyc;
                     switch (kind) {
                        case 0: al(i, last ? "int8" : nm(i + 1)); break;                                     // aliases
                        case 1: sc(i, last ? "" : nm(i + 1), "int8"); break;                                 // bases
                        case 2: i & 1 ? al(i, last ? "q" : nm(i + 1)) : sc(i, last ? "" : nm(i + 1), "int8"); break; // both by turns
                        case 3: i == 0 ? al(i, last ? "int8" : nm(i + 1) + "?") : al(i, last ? "int8" : nm(i + 1)); break; // an optional of a chain
                        case 4: sc(i, "", last ? "int8" : nm(i + 1)); break;                                 // members: no limit at loading
                        case 5: va1(i, last ? "int8" : nm(i + 1)); break;                                    // variant cases
                     }
                  }
                  if (kind == 2)
                     st += (st.empty() ? "" : ",") + std::string("{\"name\":\"q\",\"base\":\"\",\"fields\":[]}");
                  if (kind >= 4)
                     wf = true; // recursion through members is fine
                  Abi  a;
                  bool ok = a.load(abi_of(ty, st, va));
                  t.count("evaluations");
                  t.distinct("nontrivial", t.cur);
                  std::string k = "chain " + std::to_string(kind) + "/" + std::to_string(order) + " length " + std::to_string(n) + (cyc ? " cyclic" : "");
                  if (!wf && ok)
                     t.fail(k, "accepted");
                  if (wf && !ok && n <= 25)
                     t.fail(k, "refused: " + a.err);
                  if (wf && !ok && kind >= 4)
                     t.fail(k, "refused: " + a.err);
                  if (!ok || cyc)
                     continue;
                  // accepted: must then convert correctly
                  if (kind == 0 || (kind == 3))
                     js = "9", bin = kind == 3 && n > 1 ? "\1\11" : "\11";
                  else if (kind == 1 || kind == 2) {
                     for (int i = n - 1; i >= 0; --i)
                        if (kind == 1 || !(i & 1)) {
                           js += (js.empty() ? "" : ",") + ("\"f" + std::to_string(i)) + "\":" + std::to_string(i % 100);
                           bin += char(i % 100);
                        }
                     js = "{" + js + "}";
                  } else {
                     for (int i = 0; i < n; ++i) js += kind == 4 ? "{\"f" + std::to_string(i) + "\":" : "[\"" + (i == n - 1 ? std::string("int8") : nm(i + 1)) + "\",";
                     js += "9" + std::string(n, kind == 4 ? '}' : ']');
                     bin = (kind == 5 ? std::string(n, '\0') : std::string()) + "\11";
                  }
                  int  d  = kind >= 4 ? n : 1;
                  auto at = a.type(nm(0));
                  judge(t, "json " + k, d, enc(at, js), bin, true);
                  judge(t, "reord " + k, d, encr(at, js), bin, true);
                  judge(t, "bin " + k, d, dec(at, bin), js, false);
               }
   // D. ABI documents with deep content in unknown places
   for (int d : { 1, 100, 127, 128, 129, 1000, 100000, 1000000 })
      for (int k = 0; k < 4; ++k)
         if (t.next()) {
            t.desc("ABI document with deep member " + std::to_string(d));
            std::string o, c;
            for (int i = 0; i < d; ++i) {
               o += k & 1 ? "{\"x\":" : "[";
               c += k & 1 ? '}' : ']';
            }
            std::string s = "{\"version\":\"eosio::abi/1.1\",\"unknown\":" + o + "1" + (k & 2 ? "" : c) + ",\"structs\":[]}";
            Abi         a;
            bool        ok = a.load(s);
            t.count("evaluations");
            if ((k & 2) && ok)
               t.fail("deep abi", "unbalanced document accepted");
         }
   t.sample("S = struct s{f:s}: no finite value, all input refused");
   t.sample("T = struct s{f:s[]} at depths 0..300 and up to 1000000");
}
VH_MAIN(run)
