// C08: every ABI of up to three definitions over a small alphabet of names and type expressions, in all orders and under
// renamings that change how the names sort, against a reference statement of well-formedness; then every type expression
// a caller can name.
#include "vh.hpp"
#include "lib.hpp"
#include "ref.hpp"
#include "eosio/abieos.h"
using namespace lib;

struct Def {
   char                     k; // A alias, S struct, V variant
   std::string              name;
   std::string              target;     // alias target, struct base
   std::vector<std::string> refs;       // member types, case types
};
using AbiDef = std::vector<Def>;

// ------------------------------------------------------------------------------------------------- reference rules
struct Rules {
   std::map<std::string, const Def*> d;
   enum K { ERR, PLAIN, STRUCT_, OPT_, ARR_, EXT_ };
   static bool builtin(const std::string& n) {
      return ref::leaf(n) != nullptr;
   }
   bool ends(const std::string& s, const char* x) const {
      size_t n = strlen(x);
      return s.size() >= n && s.compare(s.size() - n, n, x) == 0;
   }
   K kind(const std::string& n, int depth = 0) const { // what a type expression denotes
      if (depth > 60)
         return ERR; // a cycle of aliases (the bounded family has no such chains otherwise)
      if (builtin(n))
         return PLAIN;
      if (n == "extended_asset")
         return STRUCT_;
      auto it = d.find(n);
      if (it != d.end()) {
         if (it->second->k == 'S')
            return STRUCT_;
         if (it->second->k == 'V')
            return PLAIN;
         K k = kind(it->second->target, depth + 1);
         return k == EXT_ ? ERR : k;
      }
      int which = ends(n, "?") ? 1 : ends(n, "[]") ? 2 : ends(n, "$") ? 3 : 0;
      if (!which)
         return ERR;
      K k = kind(n.substr(0, n.size() - (which == 2 ? 2 : 1)), depth + 1);
      if (k == ERR || k == EXT_)
         return ERR;
      if (which == 3)
         return EXT_;
      if (k == OPT_ || k == ARR_)
         return ERR;
      return which == 1 ? OPT_ : ARR_;
   }
   const Def* struct_of(const std::string& n, int depth = 0) const { // definition behind a base reference (0: built in)
      auto it = d.find(n);
      if (it == d.end())
         return nullptr;
      if (it->second->k == 'A')
         return struct_of(it->second->target, depth + 1);
      return it->second;
   }
   bool ok(const AbiDef& a) {
      d.clear();
      for (auto& x : a) {
         if (x.name.empty() || builtin(x.name) || x.name == "extended_asset")
            return false;
         if (!d.emplace(x.name, &x).second)
            return false;
      }
      for (auto& x : a) {
         if (x.k == 'A' && kind(x.name) == ERR)
            return false;
         if (x.k == 'S' && !x.target.empty()) {
            const Def* p = &x;
            int        n = 0;
            while (p && !p->target.empty()) {
               if (kind(p->target) != STRUCT_ || ++n > 50)
                  return false;
               p = struct_of(p->target);
            }
         }
         for (auto& r : x.refs)
            if (kind(r) == ERR)
               return false;
      }
      return true;
   }
};
static std::string text(const AbiDef& a, const char* version = "eosio::abi/1.1") {
   std::string ty, st, va;
   for (auto& x : a) {
      if (x.k == 'A')
         ty += (ty.empty() ? "" : ",") + ("{\"new_type_name\":" + ref::quote(x.name)) + ",\"type\":" + ref::quote(x.target) + "}";
      else if (x.k == 'S') {
         st += (st.empty() ? "" : ",") + ("{\"name\":" + ref::quote(x.name)) + ",\"base\":" + ref::quote(x.target) + ",\"fields\":[";
         for (size_t i = 0; i < x.refs.size(); ++i) st += (i ? ",{\"name\":\"f" : "{\"name\":\"f") + std::to_string(i) + "\",\"type\":" + ref::quote(x.refs[i]) + "}";
         st += "]}";
      } else {
         va += (va.empty() ? "" : ",") + ("{\"name\":" + ref::quote(x.name)) + ",\"types\":[";
         for (size_t i = 0; i < x.refs.size(); ++i) va += (i ? "," : "") + ref::quote(x.refs[i]);
         va += "]}";
      }
   }
   return std::string("{\"version\":\"") + version + "\",\"types\":[" + ty + "],\"structs\":[" + st + "],\"variants\":[" + va + "]}";
}
static std::string subst(const std::string& s, const std::map<char, std::string>& m) {
   std::string r;
   // only the one-letter names are replaced: an expression is a letter followed by suffixes
   if (!s.empty() && m.count(s[0]) && (s.size() == 1 || strchr("?[$", s[1])))
      return m.at(s[0]) + s.substr(1);
   return s;
}
static AbiDef rename(AbiDef a, const std::map<char, std::string>& m) {
   for (auto& x : a) {
      x.name   = subst(x.name, m);
      x.target = subst(x.target, m);
      for (auto& r : x.refs) r = subst(r, m);
   }
   return a;
}
static const std::vector<std::string> queries = { "int8", "a", "b", "c", "a?", "a[]", "a$", "b?", "b[]", "b$", "c$", "a[]?", "a?$", "a[]$", "a$$", "a$?", "b$[]", "z", "z?", "", "?", "[]", "$", "int8$", "int8[]$?", "extended_asset[]" };

static void judge(vh::T& t, const AbiDef& a, bool deep) {
   Rules r;
   bool  want = r.ok(a);
   auto  tx   = text(a);
   t.count("evaluations");
   Abi  l;
   bool got = l.load(tx);
   if (got != want) {
      t.fail(vh::cut(tx, 290), got ? "accepted" : "refused: " + l.err);
      return;
   }
   if (!got && l.err.empty())
      t.fail("noerr " + vh::cut(tx, 290), "refused without an error text");
   if (want)
      t.distinct("nontrivial", vh::fnv(tx));
   if (deep) {
      abieos_context* c = abieos_create();
      if (bool(abieos_set_abi(c, 1, tx.c_str())) != want)
         t.fail("capi " + vh::cut(tx, 280), want ? abieos_get_error(c) : "accepted");
      abieos_destroy(c);
   }
   if (!want)
      return;
   // everything a caller can name, twice (the second time anything created by the first is present)
   for (int k = 0; k < 2; ++k)
      for (auto& q : queries) {
         t.count("evaluations");
         bool w = r.kind(q) != Rules::ERR;
         Res  g = attempt([&] { return std::string(l.type(q) ? "y" : "n"); });
         if (w != g.ok || (w && g.v != "y"))
            t.fail("query " + q + " of " + vh::cut(tx, 250), g.ok ? "accepted" : g.err);
      }
}
static const std::vector<std::map<char, std::string>> renames = {
   {}, { { 'a', "c" }, { 'b', "b" }, { 'c', "a" } }, { { 'a', "zz" }, { 'b', "A" }, { 'c', "int9" } }, { { 'a', "A1" }, { 'b', "zz" }, { 'c', "int9" } }, { { 'a', "i" }, { 'b', "int8x" }, { 'c', "zz" } }
};
// All ABIs whose definitions are drawn from `pool` (already with names), n of them, as ordered selections.
static void run(vh::T& t) {
   auto mk = [](char k, const std::string& n, const std::string& tg, std::vector<std::string> r = {}) { return Def{ k, n, tg, r }; };
   // A. one definition: everything
   std::vector<std::string> E = { "int8", "string", "a", "a?", "a[]", "a$", "int8?", "int8[]", "int8$", "int8?$", "int8[]$", "int8$?", "int8[]?", "int8?[]", "int8[][]", "int8??", "int8$$", "int8$[]", "z", "z?", "", "?", "[]", "$", "extended_asset", "extended_asset?", "asset", "b" };
   std::vector<std::string> N = { "a", "", "int8", "extended_asset", "asset", "a?", "int8?", "int8[]", "b", "z", "?", "$" };
   std::vector<Def>         all;
   for (auto& n : N) {
      for (auto& e : E) {
         all.push_back(mk('A', n, e));
         all.push_back(mk('V', n, "", { e }));
         all.push_back(mk('S', n, "", { e }));
         all.push_back(mk('S', n, e));
         all.push_back(mk('S', n, "extended_asset", { e }));
      }
      all.push_back(mk('V', n, ""));
   }
   for (size_t i = 0; i < all.size(); ++i)
      if (t.next()) {
         t.desc(text({ all[i] }));
         judge(t, { all[i] }, true);
      }
   // and any two of them for the interesting names
   for (size_t i = 0; i < all.size(); ++i)
      if (t.next()) {
         t.desc("pairs with " + text({ all[i] }));
         for (size_t j = 0; j < all.size(); ++j)
            if (t.thorough() || (i * 31 + j) % 3 == 0)
               judge(t, { all[i], all[j] }, false);
      }
   // B. two definitions a, b: all, in both orders, under renaming
   std::vector<std::string> E2 = { "int8", "a", "b", "a?", "b[]", "b?", "a$", "b$", "int8?", "int8[]$", "z", "" };
   auto                     pool = [&](const std::string& n, const std::vector<std::string>& e, bool two) {
      std::vector<Def> p;
      for (auto& x : e) {
         p.push_back(mk('A', n, x));
         p.push_back(mk('V', n, "", { x }));
         p.push_back(mk('S', n, x));
         if (!x.empty())
            p.push_back(mk('S', n, "", { x }));
         if (two)
            for (auto& y : e) {
               p.push_back(mk('S', n, x, { y }));
               if (t.thorough()) {
                  p.push_back(mk('S', n, "", { x, y }));
                  p.push_back(mk('V', n, "", { x, y }));
               }
            }
      }
      return p;
   };
   {
      auto pa = pool("a", E2, true), pb = pool("b", E2, true);
      for (size_t i = 0; i < pa.size(); ++i)
         if (t.next()) {
            t.desc("two definitions with " + text({ pa[i] }));
            for (auto& y : pb) {
               judge(t, { pa[i], y }, false);
               if (pa[i].k == y.k)
                  judge(t, { y, pa[i] }, false);
               for (size_t m = 1; m < 3; ++m) judge(t, rename({ pa[i], y }, renames[m]), false);
            }
         }
   }
   // C. three definitions, all orders within the lists, under renaming
   std::vector<std::string> E3 = t.thorough() ? std::vector<std::string>{ "int8", "a", "b", "c", "a?", "b?", "b[]", "c?", "c[]", "c$", "b$", "z" }
                                              : std::vector<std::string>{ "int8", "a", "b", "c", "b?", "c[]", "c$", "a?" };
   auto                     pa = pool("a", E3, false), pb = pool("b", E3, false), pc = pool("c", E3, false);
   for (size_t i = 0; i < pa.size(); ++i)
      for (size_t j = 0; j < pb.size(); ++j)
         if (t.next()) {
            t.desc("three definitions with " + text({ pa[i], pb[j] }));
            for (size_t k = 0; k < pc.size(); ++k) {
               AbiDef a = { pa[i], pb[j], pc[k] };
               judge(t, a, false);
               // the other orders matter only where definitions share a list
               std::vector<int> ix = { 0, 1, 2 };
               std::set<std::string> seen = { text(a) };
               while (std::next_permutation(ix.begin(), ix.end())) {
                  AbiDef b = { a[ix[0]], a[ix[1]], a[ix[2]] };
                  auto   tx = text(b);
                  if (!seen.insert(tx).second)
                     continue;
                  Rules r;
                  bool  w = r.ok(b);
                  t.count("evaluations");
                  Abi l;
                  if (l.load(tx) != w)
                     t.fail(vh::cut(tx, 290), w ? "refused: " + l.err : "accepted");
               }
               for (size_t m = 1; m < renames.size(); ++m) {
                  if (!t.thorough() && (i + j + k + m) % 2)
                     continue;
                  auto  b  = rename(a, renames[m]);
                  auto  tx = text(b);
                  Rules r;
                  bool  w = r.ok(b);
                  t.count("evaluations");
                  Abi l;
                  if (l.load(tx) != w)
                     t.fail(vh::cut(tx, 290), w ? "refused: " + l.err : "accepted");
               }
            }
         }
   // D. chains of up to 25 links through aliases, bases and suffixes, in all placements of the long name order
   for (int n = 1; n <= 25; ++n)
      for (int kind = 0; kind < 5; ++kind)
         for (int ord = 0; ord < 3; ++ord)
            for (int end = 0; end < 6; ++end)
               if (t.next()) {
                  auto nm = [&](int i) {
                     char b[16];
                     snprintf(b, sizeof b, "%c%03d", ord == 2 && (i & 1) ? 'Z' : 'n', ord == 1 ? 900 - i : i);
                     return std::string(b);
                  };
                  AbiDef      a;
                  const char* ends[] = { "int8", "int8?", "int8[]", "zz", "int8$", "extended_asset" };
                  for (int i = 0; i < n; ++i) {
                     std::string to = i + 1 < n ? nm(i + 1) : ends[end];
                     if (kind == 0)
                        a.push_back(mk('A', nm(i), to));
                     else if (kind == 1)
                        a.push_back(mk('S', nm(i), i + 1 < n ? to : std::string(end == 5 ? "extended_asset" : ""), { ends[end] }));
                     else if (kind == 2)
                        a.push_back(i & 1 ? mk('A', nm(i), to) : mk('S', nm(i), "", { to + (i % 4 ? "?" : "") }));
                     else if (kind == 3)
                        a.push_back(i == 0 ? mk('A', nm(i), to + "?") : mk('A', nm(i), to));
                     else
                        a.push_back(i == 0 ? mk('V', nm(i), "", { to + "$", to + "[]" }) : mk('A', nm(i), to));
                  }
                  t.desc(text(a));
                  judge(t, a, true);
               }
   // G. names resembling built-in ones: unknown unless defined, and usable everywhere once they are
   for (auto& n : ref::lookalikes())
      if (t.next()) {
         t.desc("definitions named " + n);
         auto o = n + "o";
         for (auto e : { n, n + "?", n + "[]", n + "$" }) { // n itself is not defined
            judge(t, { mk('A', "a", e) }, false);
            judge(t, { mk('V', "a", "", { e }) }, false);
            judge(t, { mk('S', "a", "", { e }) }, false);
         }
         judge(t, { mk('S', "a", n) }, false);
         for (auto& d : { mk('A', n, "int8"), mk('A', n, "b"), mk('A', n, "int8?"), mk('A', n, "extended_asset"), mk('S', n, "", { "int8" }), mk('S', n, "extended_asset"), mk('V', n, "", { "int8", "string" }) })
            for (int k = 0; k < 8; ++k) {
               AbiDef x = { d, mk('S', "b", "", { "string" }) };
               if (k == 1)
                  x.push_back(mk('A', "a", n));
               if (k == 2)
                  x.push_back(mk('A', "a", n + "[]"));
               if (k == 3)
                  x.push_back(mk('S', "a", "", { "int8", n, n + "?" }));
               if (k == 4)
                  x.push_back(mk('S', "a", n, { "int8" }));
               if (k == 5)
                  x.push_back(mk('V', "a", "", { n, "int8" }));
               if (k == 6)
                  x.push_back(mk('S', o, n, { n + "$" }));
               if (k == 7)
                  x.push_back(mk('A', o, n));
               judge(t, x, k == 0);
               // and by name, this one and its neighbours
               Abi l;
               Rules r;
               if (!r.ok(x) || !l.load(text(x)))
                  continue;
               for (auto& q : { n, n + "?", n + "[]", n + "$", o, n.substr(0, n.size() - 1), n + "x" }) {
                  t.count("evaluations");
                  bool w = r.kind(q) != Rules::ERR;
                  Res  g = attempt([&] { return std::string(l.type(q) ? "y" : "n"); });
                  if (w != g.ok)
                     t.fail("query " + vh::cut(q, 60) + " of " + vh::cut(text(x), 220), g.ok ? "accepted" : g.err);
               }
            }
      }
   // E. versions
   std::string ver = "eosio::abi/1.";
   std::vector<std::string> vs = { "", "1.1", "eosio::abi/1", "eosio::abi/1.0", "eosio::abi/1.1", "eosio::abi/1.2", "eosio::abi/1.9", "eosio::abi/2.0", "eosio::abi/0.1", "eosio::abi/2.1", "eosio::abi/11", "eosio::abi/.1", " eosio::abi/1.1", "Eosio::abi/1.1", "eosio::abi/1,1", "eosio::abi", "eosio" };
   for (size_t i = 0; i <= ver.size(); ++i) {
      vs.push_back(ver.substr(0, i));
      if (i < ver.size()) {
         auto v = ver + "1";
         v[i] ^= 1;
         vs.push_back(v);
         vs.push_back(ver.substr(0, i) + ver.substr(i + 1) + "1");
         vs.push_back(ver.substr(0, i) + "x" + ver.substr(i) + "1");
      }
   }
   for (auto& v : vs)
      if (t.next()) {
         t.desc("version " + v);
         t.count("evaluations");
         bool w = v.size() > ver.size() && v.substr(0, ver.size()) == ver;
         if (v == ver)
            continue; // without a minor version: not judged
         std::string js = text({}, v.c_str());
         Abi         l;
         if (l.load(js) != w)
            t.fail("version " + v, w ? l.err : "accepted");
         abieos_context* c = abieos_create();
         if (bool(abieos_set_abi(c, 1, js.c_str())) != w)
            t.fail("capi version " + v, w ? abieos_get_error(c) : "accepted");
         abieos_destroy(c);
         t.distinct("nontrivial", vh::fnv(v));
      }
   // F. truncated and mistyped ABI documents
   {
      AbiDef      a  = { mk('A', "a", "b[]"), mk('S', "b", "c", { "int8", "v?" }), mk('S', "c", "", { "string" }), mk('V', "v", "", { "b", "int8" }) };
      std::string js = text(a);
      for (size_t i = 0; i < js.size(); ++i)
         if (t.next()) {
            t.desc("truncated ABI document");
            t.count("evaluations", 2);
            Abi l;
            if (l.load(js.substr(0, i)))
               t.fail("truncated " + std::to_string(i), "accepted");
            abieos_context* c = abieos_create();
            if (abieos_set_abi(c, 1, js.substr(0, i).c_str()))
               t.fail("capi truncated " + std::to_string(i), "accepted");
            abieos_destroy(c);
         }
      for (const char* key : { "types", "structs", "variants", "actions", "tables", "ricardian_clauses", "error_messages", "abi_extensions", "version" })
         for (const char* v : { "null", "{}", "\"x\"", "[1]", "[null]", "[\"x\"]", "true", "1", "[[]]", "[{\"name\":[]}]", "[{\"new_type_name\":{}}]", "[{\"fields\":null}]", "[{\"types\":[[]]}]" })
            if (t.next()) {
               t.desc(std::string("mistyped ABI document ") + key + v);
               t.count("evaluations");
               if (!strcmp(key, "version") && (!strcmp(v, "\"x\"") || !strcmp(v, "1")))
                  continue;
               // members an entry of the list does not have are ignored
               std::string k = key, s = v;
               bool skip = (s == "[{\"name\":[]}]" && k != "structs" && k != "variants" && k != "actions" && k != "tables") ||
                           (s == "[{\"new_type_name\":{}}]" && k != "types") || (s == "[{\"fields\":null}]" && k != "structs") || (s == "[{\"types\":[[]]}]" && k != "variants");
               if (skip)
                  continue;
               std::string doc = "{\"version\":\"eosio::abi/1.1\",\"" + k + "\":" + s + "}";
               Abi         l;
               if (l.load(doc))
                  t.fail("mistyped " + doc, "accepted");
            }
   }
   t.sample("types [a=b$], structs [b]: refused, an alias of an extension");
   t.sample("structs [a:b, b:a]: refused, a cycle of bases");
}
VH_MAIN(run)
