// C04: every permutation of object members at every level (stateless exploration of the permutation choices) of every
// value of a bounded family of types: reorderable conversion gives the reference bytes; in-order conversion accepts
// exactly the identity.
#include "vh.hpp"
#include "lib.hpp"
#include "ref.hpp"
#include "eosio/abieos.h"
using namespace lib;
using namespace ref;

// The choice sequence of one execution: one permutation index per object with more than one member.
struct Chooser {
   std::vector<int> want, arity;
   size_t           pos = 0;
   bool             identity = true;
   void             operator()(std::vector<int>& ord) {
      if (ord.size() < 2)
         return;
      int f = 1;
      for (size_t i = 2; i <= ord.size(); ++i) f *= i;
      int c = pos < want.size() ? want[pos] : 0;
      if (pos >= want.size())
         want.push_back(0);
      if (arity.size() <= pos)
         arity.push_back(f);
      ++pos;
      if (c)
         identity = false;
      std::sort(ord.begin(), ord.end());
      for (int i = 0; i < c; ++i) std::next_permutation(ord.begin(), ord.end());
   }
};
static void explore(vh::T& t, abieos_context* c, const eosio::abi_type* at, const Ty* ty, const Val& v, uint64_t cap) {
   std::string      bin = encode(ty, v);
   std::vector<int> want;
   uint64_t         n = 0;
   for (;;) {
      Chooser ch;
      ch.want        = want;
      std::string js = json(ty, v, [&](std::vector<int>& o) { ch(o); });
      t.count("evaluations");
      t.distinct("nontrivial", vh::mix(vh::fnv(ty->expr), vh::fnv(js)));
      Res r = encr(at, js);
      if (!r.ok || r.v != bin)
         t.fail("reord:" + vh::cut(abi_json({ ty }) + js, 280), r.ok ? "got " + vh::hexs(r.v) + " want " + vh::hexs(bin) : "refused: " + r.err);
      Res e = enc(at, js);
      if (ch.identity ? (!e.ok || e.v != bin) : e.ok)
         t.fail("inorder:" + vh::cut(abi_json({ ty }) + js, 280), e.ok ? "accepted as " + vh::hexs(e.v) : "refused: " + e.err);
      if (n < 4) { // the same through the C interface
         if (!abieos_json_to_bin_reorderable(c, 1, ty->expr.c_str(), js.c_str()) || std::string(abieos_get_bin_data(c), abieos_get_bin_size(c)) != bin)
            t.fail("capi:" + vh::cut(abi_json({ ty }) + js, 280), abieos_get_error(c));
      }
      if (++n >= cap) {
         t.count("capped");
         return;
      }
      // next choice sequence
      want = ch.want;
      while (!want.empty() && want.back() + 1 >= ch.arity[want.size() - 1]) want.pop_back();
      if (want.empty())
         return;
      ++want.back();
   }
}
// Members the type does not have, at every position of every object in turn: the result is unaffected.
static void unknown(vh::T& t, const eosio::abi_type* at, const Ty* ty, const Val& v) {
   std::string js = json(ty, v), bin = encode(ty, v);
   static const std::string extra[] = { "\"~\":0", "\"~\":{\"f0\":[1,{}]}", "\"\":[[]]" };
   bool   in = false;
   std::vector<bool> obj; // open containers: is it an object
   std::vector<std::pair<size_t, int>> at_pos; // insertion point, form: 0 before first, 1 before a member, 2 at the end
   for (size_t i = 0; i < js.size(); ++i) {
      char c = js[i];
      if (in) {
         if (c == '\\')
            ++i;
         else if (c == '"')
            in = false;
         continue;
      }
      if (c == '"')
         in = true;
      else if (c == '{' || c == '[') {
         obj.push_back(c == '{');
         if (c == '{')
            at_pos.push_back({ i + 1, js[i + 1] == '}' ? 3 : 0 });
      } else if (c == '}' || c == ']') {
         if (c == '}' && js[i - 1] != '{')
            at_pos.push_back({ i, 2 });
         obj.pop_back();
      } else if (c == ',' && obj.back())
         at_pos.push_back({ i + 1, 1 });
   }
   int k = 0;
   for (auto& [pos, form] : at_pos)
      for (auto& x : extra) {
         if (&x == &extra[2] && js.find("\"\":") != std::string::npos)
            continue;
         if (k++ > 400)
            return;
         std::string m = js;
         m.insert(pos, form == 3 ? x : form == 2 ? "," + x : x + ",");
         t.count("evaluations");
         Res r = encr(at, m);
         if (!r.ok || r.v != bin)
            t.fail("unknown:" + vh::cut(abi_json({ ty }) + m, 280), r.ok ? "got " + vh::hexs(r.v) + " want " + vh::hexs(bin) : "refused: " + r.err);
         Res e = enc(at, m);
         if (e.ok)
            t.fail("unknown-inorder:" + vh::cut(abi_json({ ty }) + m, 280), "accepted as " + vh::hexs(e.v));
      }
}
static void check_type(vh::T& t, const Ty* ty, size_t lim, uint64_t cap) {
   std::string aj = abi_json({ ty });
   t.desc(ty->expr + " in " + aj);
   Abi             a;
   abieos_context* c = abieos_create();
   if (!a.load(aj) || !abieos_set_abi(c, 1, aj.c_str()))
      t.fail("load:" + vh::cut(aj, 200), a.err);
   else
      for (auto& v : values(ty, lim)) {
         explore(t, c, a.type(ty->expr), ty, v, cap);
         unknown(t, a.type(ty->expr), ty, v);
      }
   abieos_destroy(c);
}
static void run(vh::T& t) {
   Types ts;
   Enum  en{ ts };
   int   ms = t.thorough() ? 6 : 5;
   en.run({ "int8", "string" }, ms);
   for (int n = 1; n <= ms; ++n)
      for (auto ty : en.by[n])
         if (t.next())
            check_type(t, ty, n < 6 ? 40 : 12, 600);
   // all leaves next to each other
   Types     t2;
   const Ty* prev = nullptr;
   for (size_t i = 0; i < leaves().size(); ++i)
      for (size_t j = 0; j < leaves().size(); ++j)
         if (t.next()) {
            auto ty = t2.st({ t2.lf(&leaves()[i]), t2.arr(t2.lf(&leaves()[j])), t2.opt(t2.lf(&leaves()[i])) });
            check_type(t, ty, 12, 6);
         }
   (void)prev;
   // three to five members, names that sort differently from their order, inheritance, nesting below all containers
   std::vector<std::vector<std::string>> names = { { "c", "b", "a", "e", "d" }, { "b", "ab", "a", "", "ba" }, { "z", "aa", "Z", "_", "0" }, { "a\\", "a\"", "a", "\xc3\xa9", "e" },
                                                    { std::string("a\0b", 3), std::string("a\0", 2), "a", std::string("a\0a", 3), std::string("\0", 1) } };
   static const Leaf zero{ "string", { { "\"a\\u0000b\"", std::string("\3a\0b", 4) }, { "\"\\u0000\"", std::string("\1\0", 2) }, { "\"\"", std::string("\0", 1) } } };
   for (size_t nm = 0; nm < names.size(); ++nm)
      for (int n = 2; n <= (t.thorough() ? 6 : 5); ++n)
         for (int shape = 0; shape < 6; ++shape)
            if (t.next()) {
               Types                  t3;
               std::vector<const Ty*> f;
               auto                   i8 = t3.lf("int8"), s = t3.lf("string");
               std::vector<std::string> nn = names[nm];
               nn.push_back("zz");
               for (int i = 0; i < n; ++i) f.push_back(i % 3 == 0 ? i8 : i % 3 == 1 ? s : t3.arr(i8));
               auto      st = t3.st(f, nullptr, nn);
               const Ty* ty = st;
               if (shape == 1)
                  ty = t3.st({ i8 }, st, { "base_extra" });
               else if (shape == 2)
                  ty = t3.arr(st);
               else if (shape == 3)
                  ty = t3.st({ t3.opt(st), t3.alias(st) }, nullptr, { "y", "x" });
               else if (shape == 4)
                  ty = t3.var({ i8, t3.alias(t3.arr(st)) });
               else if (shape == 5)
                  ty = t3.st({ i8, t3.ext(t3.st({ i8, s }, nullptr, { "q", "p" })) }, st, { "y", "x" });
               check_type(t, ty, 8, t.thorough() ? 20000 : 3000);
            }
   // omitted extension tails commute with permutation
   for (int have = 0; have < 4; ++have)
      if (t.next()) {
         Types t3;
         auto  i8 = t3.lf("int8");
         auto  ty = t3.st({ i8, t3.lf("string"), t3.ext(i8), t3.ext(t3.arr(i8)), t3.ext(t3.st({ i8, i8 })) }, nullptr, { "e", "d", "c", "b", "a" });
         Abi   a;
         abieos_context* c = abieos_create();
         a.load(abi_json({ ty }));
         abieos_set_abi(c, 1, abi_json({ ty }).c_str());
         for (auto v : values(ty, 12)) {
            for (int i = 0; i < 3; ++i) v.kids[2 + i].present = i < have;
            explore(t, c, a.type(ty->expr), ty, v, 1000);
            unknown(t, a.type(ty->expr), ty, v);
         }
         abieos_destroy(c);
      }
   // omitted tails through nested last members
   for (int depth = 1; depth <= 4; ++depth)
      for (int wrap = 0; wrap < 3; ++wrap)
         if (t.next()) {
            Types t3;
            auto  i8 = t3.lf("int8");
            auto  ty = t3.st({ i8, t3.ext(i8), t3.ext(t3.lf("string")) }, nullptr, { "c", "b", "a" });
            for (int i = 0; i < depth; ++i) ty = t3.st({ i8, wrap == 0 ? ty : wrap == 1 ? t3.opt(ty) : t3.var({ t3.alias(ty) }) }, nullptr, { "y", "x" });
            Abi             a;
            abieos_context* c = abieos_create();
            a.load(abi_json({ ty }));
            abieos_set_abi(c, 1, abi_json({ ty }).c_str());
            for (auto v : values(ty, 8))
               for (int have = 0; have < 3; ++have) {
                  Val w = v, *p = &w;
                  for (int i = 0; i < depth && p; ++i) {
                     p = &p->kids[1];
                     if (wrap)
                        p = p->kids.empty() ? nullptr : &p->kids[0];
                  }
                  if (!p)
                     continue;
                  p->kids[1].present = have > 0;
                  p->kids[2].present = have > 1;
                  explore(t, c, a.type(ty->expr), ty, w, 1000);
                  unknown(t, a.type(ty->expr), ty, w);
               }
            abieos_destroy(c);
         }
   t.sample("{\"e\":..,\"d\":..} in all 120 orders of five members; nested pairs in all 2^k orders");
}
VH_MAIN(run)
