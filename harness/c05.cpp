// C05 (CHECK=5): the set of JSON texts accepted by both conversions against a reference acceptor: all token sequences
// up to a length bound, every truncation, every single-character and single-token edit of valid documents.
// CHECK=4: on the same texts, whatever the in-order conversion accepts the reorderable one accepts with equal bytes.
#include "vh.hpp"
#include "lib.hpp"
#include "accept.hpp"
#include "eosio/abieos.h"
using namespace lib;
using namespace ref;

struct Sub {
   const Ty*              ty;
   const eosio::abi_type* at;
   abieos_context*        c;
};
static void one(vh::T& t, const Sub& s, const std::string& text, bool capi) {
   t.count("evaluations");
   auto key = [&] { return vh::cut(s.ty->expr + " " + text, 200); };
#if CHECK == 4
   Res e = enc(s.at, text);
   if (!e.ok)
      return;
   Res r = encr(s.at, text);
   t.distinct("nontrivial", vh::mix(vh::fnv(s.ty->expr), vh::fnv(text)));
   if (!r.ok || r.v != e.v)
      t.fail("agree:" + key(), r.ok ? "in-order " + vh::hexs(e.v) + " reorderable " + vh::hexs(r.v) : "in-order accepts, reorderable refuses: " + r.err);
#else
   for (int mode = 0; mode < 2; ++mode) {
      std::string want;
      Verdict     v = from_text(s.ty, text, mode == 0, want);
      Res         e = mode == 0 ? enc(s.at, text) : encr(s.at, text);
      if (v == DONTCARE)
         continue;
      if (v == OK) {
         t.distinct("nontrivial", vh::mix(vh::fnv(s.ty->expr), vh::fnv(text)));
         if (!e.ok || e.v != want)
            t.fail(std::string(mode ? "reord:" : "inorder:") + key(), e.ok ? "got " + vh::hexs(e.v) + " want " + vh::hexs(want) : "valid, but refused: " + e.err);
      } else if (e.ok)
         t.fail(std::string(mode ? "reord:" : "inorder:") + key(), "invalid, but accepted as " + vh::hexs(e.v));
      if (capi && text.find('\0') == std::string::npos) {
         // result bytes after a refused conversion: none, or those of the previous success
         bool ok0 = abieos_json_to_bin(s.c, 1, "uint16", "513");
         bool ok  = (mode ? abieos_json_to_bin_reorderable : abieos_json_to_bin)(s.c, 1, s.ty->expr.c_str(), text.c_str());
         std::string b(abieos_get_bin_size(s.c) ? abieos_get_bin_data(s.c) : "", abieos_get_bin_size(s.c));
         if (!ok0 || ok != (v == OK) || (ok ? b != want : !(b.empty() || b == "\1\2")))
            t.fail(std::string(mode ? "creord:" : "cinorder:") + key(), (ok ? "ok " : "refused ") + vh::hexs(b));
         if (!ok && !*abieos_get_error(s.c))
            t.fail(std::string(mode ? "crerr:" : "cerr:") + key(), "empty error");
      }
   }
#endif
}
static void run(vh::T& t) {
   Types ts;
   auto  i8 = ts.lf("int8"), str = ts.lf("string"), bo = ts.lf("bool"), by = ts.lf("bytes");
   auto  s1 = ts.st({ i8 }, nullptr, { "a" });
   auto  s2 = ts.st({ i8, bo }, nullptr, { "a", "b" });
   auto  ai = ts.arr(i8);
   auto  v1 = ts.var({ i8, s1 });
   auto  op = ts.opt(s1);
   auto  so = ts.st({ ts.opt(i8), ai }, nullptr, { "a", "b" });
   auto  nest = ts.st({ s1, v1 }, nullptr, { "a", "b" });
   auto  se  = ts.st({ i8, ts.ext(bo) }, nullptr, { "a", "b" });
   auto  emp = ts.st({});
   auto  as  = ts.arr(s2);
   auto  al  = ts.alias(ts.opt(str));
   auto  der = ts.st({ ai }, s1, { "b" });
   auto  vv  = ts.var({ v1, ts.arr(v1), op });
   // members and values with NUL characters in them
   auto  nul = ts.st({ i8, i8, bo, str }, nullptr, { "a", std::string("a\0b", 3), std::string("a\0", 2), std::string("\0", 1) });
   static const Leaf zero{ "string", { { "\"a\\u0000b\"", std::string("\3a\0b", 4) }, { "\"\\u0000\"", std::string("\1\0", 2) }, { "\"a\\u0000\"", std::string("\2a\0", 3) } } };
   auto  nuls = ts.st({ ts.lf(&zero), ts.arr(ts.lf(&zero)), ts.opt(ts.lf(&zero)) }, nullptr, { "a", "b", "c" });
   std::vector<const Ty*>   tys = { i8, bo, str, ai, s1, s2, v1, op, so, nest, se, emp, as, al, der, vv, by, nul, nuls };
   Abi                      abi;
   abieos_context*          c = abieos_create();
   std::string              aj = abi_json(tys);
   if (!abi.load(aj) || !abieos_set_abi(c, 1, aj.c_str())) {
      if (t.next())
         t.fail("load", abi.err);
      return;
   }
   std::vector<Sub> subs;
   for (auto ty : tys) subs.push_back({ ty, abi.type(ty->expr), c });
   std::string vname = "\"" + s1->expr + "\"";
   std::vector<std::string> tok = { "{", "}", "[", "]", ",", ":", "\"a\"", "\"b\"", "1", "true", "null", "\"int8\"", vname };
   // A. all token sequences
   int L = t.thorough() ? 6 : 5;
   for (int len = 0; len <= L; ++len) {
      uint64_t n = 1, blk = 13 * 13 * 13;
      for (int i = 0; i < len; ++i) n *= tok.size();
      for (uint64_t b = 0; b < n; b += blk) {
         if (!t.next())
            continue;
         for (uint64_t k = b; k < std::min(n, b + blk); ++k) {
            std::string s;
            uint64_t    x = k;
            for (int i = 0; i < len; ++i) {
               s += tok[x % tok.size()];
               x /= tok.size();
            }
            for (auto& u : subs) one(t, u, s, false);
         }
      }
   }
   // B. valid documents: truncation at every character, every single-token edit (delete, replace, insert, swap of
   // neighbours, duplicate), every single-character edit; each with trailing material too
   static const std::string ch = std::string("{}[],:\"\\19-.eE+tfn ua\t\n\r/x\x01\x1f\x7f\x80\xc3", 31) + std::string(1, '\0');
   for (auto& u : subs)
      for (auto& v : values(u.ty, t.thorough() ? 16 : 8)) {
         std::string js = json(u.ty, v);
         if (js.size() > 400)
            continue;
         if (t.next()) {
            t.desc(u.ty->expr + " " + js);
            one(t, u, js, true);
            for (size_t i = 0; i < js.size(); ++i) one(t, u, js.substr(0, i), true);
            for (size_t i = 0; i <= js.size(); ++i)
               for (char x : ch) {
                  one(t, u, js.substr(0, i) + x + js.substr(i), false);
                  if (i < js.size())
                     one(t, u, js.substr(0, i) + x + js.substr(i + 1), false);
               }
            for (size_t i = 0; i < js.size(); ++i)
               for (size_t n = 1; n <= 3 && i + n <= js.size(); ++n) one(t, u, js.substr(0, i) + js.substr(i + n), false);
            // white space anywhere between tokens is insignificant; trailing documents are not
            for (std::string x : { " ", "\n", "\t\r\n ", ",", "1", "{}", "[]", "null", "\"\"", "}", "]", "//", "/**/", "#", "\v", "\f", "\xef\xbb\xbf", "\xc2\xa0" }) {
               one(t, u, js + x, true);
               one(t, u, x + js, true);
               one(t, u, js + " " + x, false);
            }
            one(t, u, js + std::string(1, '\0'), false);
            one(t, u, js + std::string("\0x", 2), false);
            one(t, u, js + std::string("\0", 1) + js, false);
            one(t, u, std::string("\0", 1) + js, false);
         }
         // tokens of the document
         std::vector<std::string> tk;
         for (size_t i = 0; i < js.size();) {
            size_t j = i + 1;
            if (js[i] == '"') {
               while (js[j] != '"') j += js[j] == '\\' ? 2 : 1;
               ++j;
            } else if (!strchr("{}[],:", js[i]))
               while (j < js.size() && !strchr("{}[],:\"", js[j])) ++j;
            tk.push_back(js.substr(i, j - i));
            i = j;
         }
         auto join = [&](const std::vector<std::string>& w) {
            std::string r;
            for (auto& x : w) r += x;
            return r;
         };
         std::vector<std::string> alt = tok;
         for (std::string x : { "\"\"", "-1", "1.0", "1e0", "false", "\"1\"", "\"true\"", "[]", "{}", "\"AA\"", "128", "\"c\":1,", ",\"a\":1", ",1", "01", "+1", ".5", "NaN", "Infinity", "'a'", "nul", "\"a", "True",
                              "\"a\\u0000\"", "\"b\\u0000a\"", "\"\\u0000\"", "\"\\u0000a\"", "\"int8\\u0000\"", "\"z\\u0000\\u0000y\"", "\"a\\u0000\":1,", ",\"a\\u0000\":1", "\"a\\u0000b\":2" })
            alt.push_back(x);
         if (t.next()) {
            t.desc("tokens " + js);
            for (size_t i = 0; i <= tk.size(); ++i) {
               for (auto& x : alt) {
                  auto w = tk;
                  w.insert(w.begin() + i, x);
                  one(t, u, join(w), false);
                  if (i < tk.size()) {
                     w    = tk;
                     w[i] = x;
                     one(t, u, join(w), false);
                  }
               }
               if (i < tk.size()) {
                  auto w = tk;
                  w.erase(w.begin() + i);
                  one(t, u, join(w), true);
                  w = tk;
                  w.insert(w.begin() + i, tk[i]);
                  one(t, u, join(w), true);
                  if (i + 1 < tk.size()) {
                     w = tk;
                     std::swap(w[i], w[i + 1]);
                     one(t, u, join(w), true);
                  }
               }
            }
            // any two structural edits of a short document
            if (tk.size() <= (t.thorough() ? 14 : 10)) {
               std::vector<std::string> a2 = { "{", "}", "[", "]", ",", ":", "\"a\"", "1", "null" };
               for (size_t i = 0; i < tk.size(); ++i)
                  for (size_t j = i + 1; j < tk.size(); ++j)
                     for (auto& x : a2)
                        for (auto& y : a2) {
                           auto w = tk;
                           w[i] = x;
                           w[j] = y;
                           one(t, u, join(w), false);
                        }
            }
         }
      }
   // C. each document of one type offered to every other type
   for (auto& u : subs)
      for (auto& v : values(u.ty, 10))
         if (t.next()) {
            std::string js = json(u.ty, v);
            for (auto& w : subs) one(t, w, js, true);
         }
   // D. every kind of JSON value offered to every base type (kind mismatch is refused)
   for (auto& l : leaves())
      if (t.next()) {
         auto at = abi.type(l.name);
         for (std::string js : { "null", "true", "false", "[]", "{}", "[1]", "{\"a\":1}", "[null]", "", " ", "\"", "[", "{" }) {
            if (l.name == "bool" && (js == "true" || js == "false"))
               continue;
            for (int m = 0; m < 2; ++m) {
               t.count("evaluations");
               Res r = m ? encr(at, js) : enc(at, js);
#if CHECK == 5
               if (r.ok)
                  t.fail("kind:" + l.name + " " + js, "accepted as " + vh::hexs(r.v));
#endif
            }
         }
      }
   t.sample("token sequence [ , ] for " + ai->expr);
   abieos_destroy(c);
}
VH_MAIN(run)
