// C09: ABI definitions in JSON, binary and hex: every combination of up to two entries per section over a bounded domain;
// every ABI of a bounded grammar (well formed or not) loaded from all three forms and from the definition derived back
// from it, compared on every conversion of a bounded set.
#include "vh.hpp"
#include "lib.hpp"
#include "ref.hpp"
#include "eosio/abieos.h"
using namespace ref;
using std::string;
using std::vector;

// ------------------------------------------------------------------------------------------------------ reference definition
struct Def {
   string                                         version = "eosio::abi/1.1";
   vector<std::array<string, 2>>                  types;
   struct St {
      string                        name, base;
      vector<std::array<string, 2>> fields;
   };
   vector<St> structs;
   struct Ac {
      uint64_t name;
      string   type, ric;
   };
   vector<Ac> actions;
   struct Ta {
      uint64_t       name;
      string         index;
      vector<string> kn, kt;
      string         type;
   };
   vector<Ta>                                 tables;
   vector<std::array<string, 2>>              clauses;
   vector<std::pair<uint64_t, string>>        errors;
   vector<std::pair<uint16_t, string>>        ext;
   vector<std::pair<string, vector<string>>>  variants;
   bool                                       has_variants = true;
};
static string b_s(const string& s) { return varuint(s.size()) + s; }
static string b_n(uint64_t v) { return le(v, 8); }
template <typename V, typename F>
static string b_v(const V& v, F f) {
   string r = varuint(v.size());
   for (auto& x : v) r += f(x);
   return r;
}
static auto b_pair = [](const std::array<string, 2>& a) { return b_s(a[0]) + b_s(a[1]); };
static string bin(const Def& d) {
   string r = b_s(d.version);
   r += b_v(d.types, b_pair);
   r += b_v(d.structs, [](auto& s) { return b_s(s.name) + b_s(s.base) + b_v(s.fields, b_pair); });
   r += b_v(d.actions, [](auto& a) { return b_n(a.name) + b_s(a.type) + b_s(a.ric); });
   r += b_v(d.tables, [](auto& a) { return b_n(a.name) + b_s(a.index) + b_v(a.kn, b_s) + b_v(a.kt, b_s) + b_s(a.type); });
   r += b_v(d.clauses, b_pair);
   r += b_v(d.errors, [](auto& e) { return le(e.first, 8) + b_s(e.second); });
   r += b_v(d.ext, [](auto& e) { return le(e.first, 2) + b_s(e.second); });
   if (d.has_variants)
      r += b_v(d.variants, [](auto& v) { return b_s(v.first) + b_v(v.second, b_s); });
   return r;
}
static string nm(uint64_t v) {
   string s;
   for (int i = 0; i < 13; ++i) s += ".12345abcdefghijklmnopqrstuvwxyz"[i < 12 ? v >> (59 - 5 * i) & 31 : v & 15];
   while (!s.empty() && s.back() == '.') s.pop_back();
   return s;
}
template <typename V, typename F>
static string j_v(const V& v, F f) {
   string r = "[";
   for (auto& x : v) r += (r.size() > 1 ? "," : "") + f(x);
   return r + "]";
}
static string json(const Def& d) {
   auto q    = [](const string& s) { return quote(s); };
   auto pair = [&](const char* a, const char* b) { return [=](const std::array<string, 2>& x) { return string("{\"") + a + "\":" + quote(x[0]) + ",\"" + b + "\":" + quote(x[1]) + "}"; }; };
   string r  = "{\"version\":" + q(d.version);
   r += ",\"types\":" + j_v(d.types, pair("new_type_name", "type"));
   r += ",\"structs\":" + j_v(d.structs, [&](auto& s) { return "{\"name\":" + q(s.name) + ",\"base\":" + q(s.base) + ",\"fields\":" + j_v(s.fields, pair("name", "type")) + "}"; });
   r += ",\"actions\":" + j_v(d.actions, [&](auto& a) { return "{\"name\":" + q(nm(a.name)) + ",\"type\":" + q(a.type) + ",\"ricardian_contract\":" + q(a.ric) + "}"; });
   r += ",\"tables\":" + j_v(d.tables, [&](auto& a) {
      return "{\"name\":" + q(nm(a.name)) + ",\"index_type\":" + q(a.index) + ",\"key_names\":" + j_v(a.kn, q) + ",\"key_types\":" + j_v(a.kt, q) + ",\"type\":" + q(a.type) + "}";
   });
   r += ",\"ricardian_clauses\":" + j_v(d.clauses, pair("id", "body"));
   r += ",\"error_messages\":" + j_v(d.errors, [&](auto& e) { return "{\"error_code\":\"" + std::to_string(e.first) + "\",\"error_msg\":" + q(e.second) + "}"; });
   r += ",\"abi_extensions\":" + j_v(d.ext, [&](auto& e) { return "[" + std::to_string(e.first) + "," + q(vh::hexs(e.second)) + "]"; });
   if (d.has_variants)
      r += ",\"variants\":" + j_v(d.variants, [&](auto& v) { return "{\"name\":" + q(v.first) + ",\"types\":" + j_v(v.second, q) + "}"; });
   return r + "}";
}
static bool same(const Def& d, const eosio::abi_def& e) { // every part, one by one
   bool ok = d.version == e.version && d.types.size() == e.types.size() && d.structs.size() == e.structs.size() && d.actions.size() == e.actions.size() && d.tables.size() == e.tables.size() &&
             d.clauses.size() == e.ricardian_clauses.size() && d.errors.size() == e.error_messages.size() && d.ext.size() == e.abi_extensions.size() && d.variants.size() == e.variants.value.size();
   if (!ok)
      return false;
   for (size_t i = 0; i < d.types.size(); ++i) ok &= d.types[i][0] == e.types[i].new_type_name && d.types[i][1] == e.types[i].type;
   for (size_t i = 0; i < d.structs.size(); ++i) {
      auto &a = d.structs[i];
      auto& b = e.structs[i];
      ok &= a.name == b.name && a.base == b.base && a.fields.size() == b.fields.size();
      for (size_t k = 0; ok && k < a.fields.size(); ++k) ok &= a.fields[k][0] == b.fields[k].name && a.fields[k][1] == b.fields[k].type;
   }
   for (size_t i = 0; i < d.actions.size(); ++i) ok &= d.actions[i].name == e.actions[i].name.value && d.actions[i].type == e.actions[i].type && d.actions[i].ric == e.actions[i].ricardian_contract;
   for (size_t i = 0; i < d.tables.size(); ++i)
      ok &= d.tables[i].name == e.tables[i].name.value && d.tables[i].index == e.tables[i].index_type && d.tables[i].kn == e.tables[i].key_names && d.tables[i].kt == e.tables[i].key_types &&
            d.tables[i].type == e.tables[i].type;
   for (size_t i = 0; i < d.clauses.size(); ++i) ok &= d.clauses[i][0] == e.ricardian_clauses[i].id && d.clauses[i][1] == e.ricardian_clauses[i].body;
   for (size_t i = 0; i < d.errors.size(); ++i) ok &= d.errors[i].first == e.error_messages[i].error_code && d.errors[i].second == e.error_messages[i].error_msg;
   for (size_t i = 0; i < d.ext.size(); ++i) ok &= d.ext[i].first == e.abi_extensions[i].first && d.ext[i].second == lib::str(e.abi_extensions[i].second);
   for (size_t i = 0; i < d.variants.size(); ++i) ok &= d.variants[i].first == e.variants.value[i].name && d.variants[i].second == e.variants.value[i].types;
   return ok;
}
static void check_def(vh::T& t, const Def& d, bool trunc) {
   string b = bin(d), j = json(d);
   t.count("evaluations");
   t.distinct("nontrivial", vh::fnv(b));
   t.desc(vh::cut(j, 900));
   auto key = [&] { return vh::cut(j, 240); };
   auto load_bin = [&](const string& s, eosio::abi_def& out, string& err, bool* all) {
      std::unique_ptr<char[]> p(new char[s.size() ? s.size() : 1]);
      memcpy(p.get(), s.data(), s.size());
      eosio::input_stream st{ p.get(), s.size() };
      try {
         from_bin(out, st);
         *all = st.pos == st.end;
         return true;
      } catch (std::exception& e) {
         err = e.what();
         return false;
      }
   };
   eosio::abi_def a{};
   string         err;
   bool           all = false;
   if (!load_bin(b, a, err, &all))
      t.fail("frombin:" + key(), err);
   else {
      if (!all)
         t.fail("frombin:" + key(), "bytes left over");
      if (!same(d, a))
         t.fail("frombin:" + key(), "decoded definition differs");
      Def e          = d; // written back, the variants section is always there
      e.has_variants = true;
      auto r         = lib::attempt([&] { return lib::str(eosio::convert_to_bin(a)); });
      if (!r.ok || r.v != bin(e))
         t.fail("tobin:" + key(), r.ok ? "got " + vh::hexs(r.v) + " want " + vh::hexs(bin(e)) : r.err);
   }
   {
      eosio::abi_def c{};
      auto           r = lib::attempt([&] {
         string                  copy = j;
         eosio::json_token_stream st(copy.data());
         from_json(c, st);
         return string();
      });
      if (!d.ext.empty())
         ; // see run(): a single case stands for these
      else if (!r.ok)
         t.fail("fromjson:" + key(), r.err);
      else if (!same(d, c))
         t.fail("fromjson:" + key(), "parsed definition differs");
   }
   if (trunc) { // complete only at the end, or without the variants section
      Def e          = d;
      e.has_variants = false;
      size_t opt     = bin(e).size();
      for (size_t n = 0; n < b.size(); ++n) {
         eosio::abi_def c{};
         bool           x;
         t.count("evaluations");
         bool ok = load_bin(b.substr(0, n), c, err, &x);
         if (ok != (n == opt))
            t.fail("trunc:" + key(), "cut after " + std::to_string(n) + " of " + std::to_string(b.size()) + " bytes: " + (ok ? "accepted" : "refused: " + err));
      }
   }
}
// ------------------------------------------------------------------------------------------------- enumeration of the sections
static const vector<string>& strs() {
   static vector<string> s = { "", "a", "x\"\\/\n\xc3\xa9\x7f", string(127, 'y'), string(128, 'z'), "eosio::abi/1.1", string(300, 'q') };
   return s;
}
static const vector<uint64_t> names = { 0, 7ull << 59, ~0ull, 0x5530ea033482a600ull, 1, 1ull << 63 };
static const vector<uint64_t> codes = { 0, 1, 0xffffffff, 1ull << 32, ~0ull };
template <typename F>
static void each(vh::T& t, int n, F f) { // all lists of 0..2 of n entries, plus three equal ones and a long list
   auto go = [&](vector<int> l) {
      if (t.next()) {
         Def d;
         for (int i : l) f(d, i);
         check_def(t, d, l.size() < 3);
      }
   };
   go({});
   for (int i = 0; i < n; ++i) {
      go({ i });
      for (int k = 0; k < n; ++k) go({ i, k });
   }
   go({ 0, 0, 0 });
   vector<int> l;
   for (int i = 0; i < 130; ++i) l.push_back(i % n);
   go(l);
}
using Put = std::function<void(Def&, int)>;
static vector<std::pair<int, Put>> sections() {
   auto& S = strs();
   int   n = S.size();
   return {
      { n * n, [&S, n](Def& d, int i) { d.types.push_back({ S[i % n], S[i / n] }); } },
      { n * 5, [&S, n](Def& d, int i) {
          Def::St s{ S[i % n], S[i / n], {} };
          for (int k = 0; k < i % 4; ++k) s.fields.push_back({ S[(i + k) % n], S[(i + 2 * k + 1) % n] });
          d.structs.push_back(s);
       } },
      { 24, [&S, n](Def& d, int i) { d.actions.push_back({ names[i % names.size()], S[i % n], S[(i / 4 + 1) % n] }); } },
      { 24, [&S, n](Def& d, int i) {
          Def::Ta a{ names[i % names.size()], S[i % n], {}, {}, S[(i + 3) % n] };
          for (int k = 0; k < i % 4; ++k) a.kn.push_back(S[(i + k) % n]);
          for (int k = 0; k < i % 3; ++k) a.kt.push_back(S[(i + 2 * k + 1) % n]);
          d.tables.push_back(a);
       } },
      { n * n, [&S, n](Def& d, int i) { d.clauses.push_back({ S[i % n], S[i / n] }); } },
      { 20, [&S, n](Def& d, int i) { d.errors.push_back({ codes[i % codes.size()], S[i % n] }); } },
      { 16, [](Def& d, int i) { d.ext.push_back({ uint16_t(i == 1 ? 65535 : i * 300), string(i % 5 * (i % 3 ? 1 : 60), char(i * 17)) }); } },
      { 24, [&S, n](Def& d, int i) {
          std::pair<string, vector<string>> v{ S[i % n], {} };
          for (int k = 0; k < i % 4; ++k) v.second.push_back(S[(i + k) % n]);
          d.variants.push_back(v);
       } },
   };
}
// ------------------------------------------------------------------------------------------------------ loading equivalence
static Def def_of(const J& j) { // our own reading of an ABI document
   Def d;
   auto get = [](const J& o, const char* k) -> const J& {
      static J none;
      for (auto& [n, v] : o.o)
         if (n == k)
            return v;
      return none;
   };
   auto nv = [](const string& s) {
      uint64_t v = 0;
      for (int i = 0; i < 13; ++i) {
         int c = i < (int)s.size() ? (s[i] == '.' ? 0 : s[i] < 'a' ? s[i] - '0' : s[i] - 'a' + 6) : 0;
         v     = i < 12 ? v << 5 | c : v << 4 | c;
      }
      return v;
   };
   d.version = get(j, "version").s;
   for (auto& x : get(j, "types").a) d.types.push_back({ get(x, "new_type_name").s, get(x, "type").s });
   for (auto& x : get(j, "structs").a) {
      Def::St s{ get(x, "name").s, get(x, "base").s, {} };
      for (auto& f : get(x, "fields").a) s.fields.push_back({ get(f, "name").s, get(f, "type").s });
      d.structs.push_back(s);
   }
   for (auto& x : get(j, "actions").a) d.actions.push_back({ nv(get(x, "name").s), get(x, "type").s, "" });
   for (auto& x : get(j, "tables").a) d.tables.push_back({ nv(get(x, "name").s), "i64", {}, {}, get(x, "type").s });
   for (auto& x : get(j, "variants").a) {
      std::pair<string, vector<string>> v{ get(x, "name").s, {} };
      for (auto& c : get(x, "types").a) v.second.push_back(c.s);
      d.variants.push_back(v);
   }
   return d;
}
struct Loaded {
   abieos_context* c = abieos_create();
   bool            ok[5];
   ~Loaded() { abieos_destroy(c); }
};
// contract 0 JSON, 1 binary, 2 hex, 3 the derived definition, 4 derived twice
static bool load_all(vh::T& t, Loaded& l, const Def& d, const string& key) {
   string j = json(d), b = bin(d), h = vh::hexs(b);
   for (size_t i = 0; i < h.size(); i += 3) h[i] = toupper(h[i]);
   l.ok[0] = abieos_set_abi(l.c, 0, j.c_str());
   l.ok[1] = abieos_set_abi_bin(l.c, 1, b.data(), b.size());
   l.ok[2] = abieos_set_abi_hex(l.c, 2, h.c_str());
   if (l.ok[0] != l.ok[1] || l.ok[0] != l.ok[2]) {
      t.fail("accept:" + key, "JSON " + string(l.ok[0] ? "accepted" : "refused") + ", binary " + (l.ok[1] ? "accepted" : "refused") + ", hex " + (l.ok[2] ? "accepted" : "refused"));
      return false;
   }
   if (!l.ok[0])
      return false;
   lib::Abi a;
   if (!a.load(j)) {
      t.fail("load:" + key, a.err);
      return false;
   }
   auto r = lib::attempt([&] {
      eosio::abi_def x{};
      eosio::convert(*a.a, x);
      auto b3 = eosio::convert_to_bin(x);
      l.ok[3] = abieos_set_abi_bin(l.c, 3, b3.data(), b3.size());
      if (!l.ok[3])
         return string(abieos_get_error(l.c));
      eosio::abi y{};
      eosio::convert(x, y);
      eosio::abi_def z{};
      eosio::convert(y, z);
      auto b4 = eosio::convert_to_bin(z);
      l.ok[4] = abieos_set_abi_bin(l.c, 4, b4.data(), b4.size());
      if (!l.ok[4])
         return string(abieos_get_error(l.c));
      return string();
   });
   if (!r.ok || !r.v.empty()) {
      t.fail("derive:" + key, r.ok ? "derived definition refused: " + r.v : r.err);
      return false;
   }
   return true;
}
static const char* form[] = { "JSON", "binary", "hex", "derived", "derived twice" };
static void compare(vh::T& t, Loaded& l, const string& key, const string& type, const vector<string>& docs, const vector<string>& bins) {
   for (auto& js : docs)
      for (int re = 0; re < 2; ++re) {
         string first;
         for (int c = 0; c < 5; ++c) {
            bool   ok = (re ? abieos_json_to_bin_reorderable : abieos_json_to_bin)(l.c, c, type.c_str(), js.c_str());
            string r  = ok ? "ok " + vh::hexs(string(abieos_get_bin_data(l.c), abieos_get_bin_size(l.c))) : "refused";
            if (!c)
               first = r;
            else if (r != first)
               t.fail("enc:" + key + " " + type, js + ": " + form[0] + " " + first + ", " + form[c] + " " + r);
            t.count("evaluations");
         }
      }
   for (auto& b : bins) {
      string first;
      for (int c = 0; c < 5; ++c) {
         auto   p = abieos_bin_to_json(l.c, c, type.c_str(), b.data(), b.size());
         string r = p ? string("ok ") + p : "refused";
         if (!c)
            first = r;
         else if (r != first)
            t.fail("dec:" + key + " " + type, vh::hexs(b) + ": " + form[0] + " " + first + ", " + form[c] + " " + r);
         t.count("evaluations");
      }
   }
}
static void queries(vh::T& t, Loaded& l, const Def& d, const string& key) {
   vector<uint64_t> ask = names;
   for (auto& a : d.actions) ask.push_back(a.name);
   for (auto& a : d.tables) ask.push_back(a.name);
   for (uint64_t n : ask)
      for (int tab = 0; tab < 2; ++tab) {
         const string* want = nullptr; // the last entry of a name counts
         if (tab) {
            for (auto& a : d.tables)
               if (a.name == n)
                  want = &a.type;
         } else
            for (auto& a : d.actions)
               if (a.name == n)
                  want = &a.type;
         for (int c = 0; c < 3; ++c) {
            auto p = (tab ? abieos_get_type_for_table : abieos_get_type_for_action)(l.c, c, n);
            t.count("evaluations");
            if (!p != !want || (p && *want != p))
               t.fail("query:" + key, nm(n) + (tab ? " table" : " action") + " from " + form[c] + ": " + (p ? p : "refused"));
         }
      }
}
static void run(vh::T& t) {
   // 1. the definition itself
   auto sec = sections();
   for (auto& [n, put] : sec) {
      int m = t.thorough() ? n : std::min(n, 24);
      each(t, m, put);
   }
   for (size_t a = 0; a < sec.size(); ++a) // entries in every pair and triple of sections, and in all
      for (size_t b = a; b < sec.size(); ++b)
         for (size_t c = b; c < sec.size(); ++c)
            for (int k = 0; k < 6; ++k)
               if (t.next()) {
                  Def d;
                  for (size_t s : { a, b, c }) sec[s].second(d, (k * 7 + s) % sec[s].first);
                  d.version = k % 2 ? "eosio::abi/1.0" : strs()[k];
                  check_def(t, d, true);
               }
   for (int k = 0; k < (t.thorough() ? 2000 : 200); ++k)
      if (t.next()) {
         Def d;
         for (size_t s = 0; s < sec.size(); ++s)
            for (int i = 0; i < (k + (int)s) % 4; ++i) sec[s].second(d, (k * 5 + i * 11 + s) % sec[s].first);
         d.has_variants = d.variants.empty() ? k % 2 : true;
         check_def(t, d, true);
      }
   // ABI extensions in JSON (one case stands for the feature)
   if (t.next()) {
      Def d;
      d.ext.push_back({ 1, "\xab" });
      auto c  = abieos_create();
      auto b  = bin(d);
      bool bj = abieos_set_abi(c, 0, json(d).c_str()), bb = abieos_set_abi_bin(c, 1, b.data(), b.size());
      if (bj != bb)
         t.fail("ext-json", string("an ABI with a non-empty abi_extensions section: JSON ") + (bj ? "accepted" : "refused") + ", binary " + (bb ? "accepted" : "refused"));
      abieos_destroy(c);
   }
   // 2. versions
   for (string v : { "", "eosio::abi/", "eosio::abi/1", "eosio::abi/1.", "eosio::abi/1.0", "eosio::abi/1.1", "eosio::abi/1.2", "eosio::abi/1.999", "eosio::abi/2.0", "eosio::abi/0.9", "eosio::abi/10.0", "EOSIO::abi/1.0", " eosio::abi/1.0",
                      "eosio::abi/1.0 ", "eosio:abi/1.0" })
      if (t.next()) {
         Def d;
         d.version = v;
         Loaded l;
         load_all(t, l, d, "version " + v);
         if (l.ok[0] && l.ok[1] && v.compare(0, 13, "eosio::abi/1."))
            if (v != "eosio::abi/1")
               t.fail("version:" + v, "accepted");
      }
   // 3. actions and tables
   for (int k = 0; k < 400; ++k)
      if (t.next()) {
         Def d;
         for (int i = 0; i < k % 5; ++i) sec[2].second(d, (k / 5 + i * 7) % 24);
         for (int i = 0; i < k % 4; ++i) sec[3].second(d, (k / 4 + i * 5) % 24);
         Loaded l;
         t.desc(json(d));
         t.distinct("nontrivial", vh::fnv(json(d)));
         if (load_all(t, l, d, vh::cut(json(d), 200)))
            queries(t, l, d, vh::cut(json(d), 200));
         else
            t.fail("load:" + vh::cut(json(d), 200), "refused");
      }
   // 4. every type of the bounded grammar: all forms convert every value alike
   Types ts;
   Enum  en{ ts };
   int   ms = t.thorough() ? 6 : 5;
   en.run({ "int8", "string" }, ms);
   for (int n = 1; n <= ms; ++n)
      for (auto ty : en.by[n])
         if (t.next()) {
            string aj = abi_json({ ty });
            auto   j  = parse(aj);
            Def    d  = def_of(*j);
            t.desc(aj);
            t.distinct("nontrivial", vh::fnv(aj));
            Loaded l;
            if (!load_all(t, l, d, vh::cut(aj, 240))) {
               if (!l.ok[0])
                  t.fail("load:" + vh::cut(aj, 240), "refused");
               continue;
            }
            vector<string> docs, bins;
            for (auto& v : values(ty, n < 5 ? 10 : 5)) {
               docs.push_back(ref::json(ty, v));
               bins.push_back(encode(ty, v));
               bins.push_back(bins.back().substr(0, bins.back().size() / 2));
            }
            docs.push_back("[\"int8\",1]");
            compare(t, l, vh::cut(aj, 200), ty->expr, docs, bins);
            vector<std::pair<string, vector<string>>> more;
            for (auto& v : d.types) more.push_back({ v[0], {} });
            for (auto& v : d.structs) more.push_back({ v.name, {} });
            for (auto& v : d.variants) {
               more.push_back({ v.first, {} });
               for (auto& c : v.second) more.back().second.push_back("[" + quote(c) + ",1]");
               for (auto& c : v.second) more.back().second.push_back("[" + quote(c) + ",[]]");
            }
            for (auto& [name, dd] : more)
               for (string suffix : { "", "[]", "?", "$" }) compare(t, l, vh::cut(aj, 200), name + suffix, dd, { string("\1\1"), string("\0", 1), string("\0\0\0", 3) });
         }
   // 5. all ABIs of two definitions named a, b (well formed or not)
   vector<string> ex = { "a", "b", "a[]", "b?", "b[]", "int8", "a$", "int8$", "string", "b$", "c", "b?[]" };
   struct D1 {
      char   k;
      string x, y;
   };
   vector<D1> one;
   for (auto& e : ex) one.push_back({ 'A', e, "" }), one.push_back({ 'V', e, "" }), one.push_back({ 'S', "", e });
   for (auto& e : { "a", "b", "int8" }) one.push_back({ 'S', e, "string" });
   for (auto& e : { "a", "b?", "int8" }) one.push_back({ 'V', e, "b[]" });
   for (auto& e : { "", "a", "b" }) one.push_back({ 'S', e, "" }); // no members of its own
   one.push_back({ 'V', "", "" });                               // no alternatives
   vector<string> docs, bins = { "" };
   for (string s : { "1", "\"x\"", "[]", "[1]", "null", "{}", "{\"f\":1}", "{\"f\":null}", "{\"f\":[]}", "{\"f\":\"x\"}", "{\"f\":{\"f\":1}}", "[\"a\",1]", "[\"b\",1]", "[\"int8\",1]", "[\"b\",[\"int8\",1]]", "[\"b[]\",[]]",
                     "[{\"f\":1}]", "[\"a\",{\"f\":1}]", "[\"b\",{\"f\":1}]", "[\"b?\",null]", "[\"a[]\",[]]" })
      docs.push_back(s);
   for (int n = 0; n < 3; ++n)
      for (int k = 0, m = n == 0 ? 3 : n == 1 ? 9 : 27; k < m; ++k) {
         string s;
         for (int i = 0, x = k; i <= n; ++i, x /= 3) s += "\0\1\5"[x % 3];
         bins.push_back(s);
      }
   auto put = [](Def& d, const string& name, const D1& x) {
      if (x.k == 'A')
         d.types.push_back({ name, x.x });
      else if (x.k == 'S') {
         Def::St s{ name, x.x, {} };
         if (!x.y.empty())
            s.fields.push_back({ "f", x.y });
         d.structs.push_back(s);
      } else {
         d.variants.push_back({ name, {} });
         if (!x.x.empty())
            d.variants.back().second.push_back(x.x);
         if (!x.y.empty())
            d.variants.back().second.push_back(x.y);
      }
   };
   for (auto& x : one)
      for (auto& y : one)
         if (t.next()) {
            Def d;
            put(d, "a", x);
            put(d, "b", y);
            Loaded l;
            string key = json(d);
            t.desc(key);
            t.count("evaluations");
            key = vh::cut(key, 240);
            if (!load_all(t, l, d, key))
               continue;
            t.distinct("nontrivial", vh::fnv(json(d)));
            for (string n : { "a", "b", "a[]", "b?" }) compare(t, l, key, n, docs, bins);
         }
   // 6. definitions whose names resemble built-in ones, and what refers to them
   for (auto& n : lookalikes())
      for (int k = 0; k < 4; ++k)
         for (int u = 0; u < 6; ++u)
            if (t.next()) {
               Def d;
               if (k == 0)
                  d.structs.push_back({ n, "", { { "f", "int8" }, { "g", "string" } } });
               if (k == 1)
                  d.structs.push_back({ n, "extended_asset", { { "f", "int8" } } });
               if (k == 2)
                  d.types.push_back({ n, u % 2 ? "string" : "base" });
               if (k == 3)
                  d.variants.push_back({ n, { "int8", "string" } });
               d.structs.push_back({ "base", "", { { "z", "uint16" } } });
               string o = u ? "user" : "";
               if (u == 1)
                  d.structs.push_back({ o, "", { { "p", n }, { "q", n + "[]" } } });
               if (u == 2)
                  d.types.push_back({ o, n + "?" });
               if (u == 3)
                  d.variants.push_back({ o, { "string", n } });
               if (u == 4)
                  d.structs.push_back({ o, k == 2 || k == 3 ? "base" : n, { { "w", n } } });
               if (u == 5)
                  d.types.push_back({ o, n });
               string key = vh::cut(json(d), 240);
               t.desc(key);
               t.distinct("nontrivial", vh::fnv(json(d)));
               Loaded l;
               if (!load_all(t, l, d, key)) {
                  t.fail("load:" + key, "refused");
                  continue;
               }
               string         v = k == 3 ? "[\"int8\",7]" : k == 2 ? u % 2 ? "\"s\"" : "{\"z\":3}" : k == 1 ? "{\"quantity\":\"1.0 A\",\"contract\":\"eosio\",\"f\":5}" : "{\"f\":5,\"g\":\"s\"}";
               vector<string> docs = { v, "[" + v + "," + v + "]", "null", "1", "{}", "{\"p\":" + v + ",\"q\":[" + v + "]}", "[" + quote(n) + "," + v + "]" };
               if (u == 4)
                  docs.push_back(v[0] == '{' && k < 2 ? v.substr(0, v.size() - 1) + ",\"w\":" + v + "}" : "{\"z\":1,\"w\":" + v + "}");
               vector<string> bins = { "", string(1, 0), "\1a", string("\0\5", 2), string("\1\1b", 3), string("\5\1s\1\6\1t", 7), string(40, 1), string(40, 2) };
               compare(t, l, key, n, docs, bins);
               compare(t, l, key, n + "[]", docs, bins);
               if (u)
                  compare(t, l, key, o, docs, bins);
            }
   Def d;
   sec[2].second(d, 3);
   t.sample(json(d) + " = " + vh::hexs(bin(d)));
}
VH_MAIN(run)
