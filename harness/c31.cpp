// C31: a conversion given a callback can be abandoned at any of its calls: every type of a bounded grammar x every value
// of a bounded domain x the three conversions x every call.  At each call in turn the callback (a) throws, (b) runs
// other complete conversions of the same type before returning.  Also: how often the callback runs.
#include "alloc.hpp"
#include "vh.hpp"
#include "lib.hpp"
#include "ref.hpp"
using namespace lib;
using namespace ref;

struct stop { // not derived from std::exception
   int at, tag;
};
// Members, elements and chosen alternatives of a value: each one is a step of a conversion.
static void steps(const Ty* t, const Val& v, uint64_t& n, size_t& off, std::vector<size_t>& leaf_ends) {
   switch (t->k) {
      case LEAF:
         off += t->leaf->v[v.idx].bin.size();
         leaf_ends.push_back(off);
         break;
      case ALIAS: steps(t->sub, v, n, off, leaf_ends); break;
      case EXT:
         if (v.present)
            steps(t->sub, v.kids[0], n, off, leaf_ends);
         break;
      case OPT:
         ++off;
         if (v.present)
            steps(t->sub, v.kids[0], n, off, leaf_ends);
         break;
      case ARR:
         off += varuint(v.kids.size()).size();
         for (auto& k : v.kids) {
            ++n;
            steps(t->sub, k, n, off, leaf_ends);
         }
         break;
      case VARIANT:
         off += varuint(v.idx).size();
         ++n;
         steps(t->ft[v.idx], v.kids[0], n, off, leaf_ends);
         break;
      case STRUCT: {
         auto f = all_fields(t);
         for (size_t i = 0; i < f.size(); ++i)
            if (f[i].t->k != EXT || v.kids[i].present) {
               ++n;
               steps(f[i].t, v.kids[i], n, off, leaf_ends);
            }
      }
   }
}
enum Conv { BIN2JSON, JSON2BIN, REORDER, NCONV };
static const char* conv_name[] = { "bin_to_json", "json_to_bin", "json_to_bin_reorderable" };

struct In {
   std::string bin, js;
};
template <typename F>
static std::string convert(const eosio::abi_type* at, int c, const In& in, F&& f) { // f(position in the input)
   if (c == BIN2JSON) {
      eosio::input_stream s(in.bin.data(), in.bin.size());
      const char*         begin = s.pos;
      auto                r     = at->bin_to_json(s, [&] { f(size_t(s.pos - begin)); });
      return r + "|" + std::to_string(s.pos - begin);
   }
   auto g = [&] { f(size_t(0)); };
   return str(c == JSON2BIN ? at->json_to_bin(in.js, g) : at->json_to_bin_reorderable(in.js, g));
}
static std::string plain(const eosio::abi_type* at, int c, const In& in) {
   if (c == BIN2JSON) {
      eosio::input_stream s(in.bin.data(), in.bin.size());
      const char*         begin = s.pos;
      auto                r     = at->bin_to_json(s);
      return r + "|" + std::to_string(s.pos - begin);
   }
   return str(c == JSON2BIN ? at->json_to_bin(in.js) : at->json_to_bin_reorderable(in.js));
}
static bool same(const Res& a, const Res& b) { return a.ok == b.ok && a.v == b.v && a.err == b.err; }

// One conversion of one input, in which every call is made to fail and to run other conversions.
static void explore(vh::T& t, const eosio::abi_type* at, int c, const In& in, const std::string& what, const std::vector<In>& others, int64_t* min_calls,
                    const std::vector<size_t>* leaf_ends, uint64_t max_k) {
   std::string key = std::string(conv_name[c]) + ":" + what;
   Res         want = attempt([&] { return plain(at, c, in); });
   uint64_t    calls = 0;
   bool        over  = false, late = false, running = true;
   size_t      prev  = 0;
   Res         got   = attempt([&] {
      return convert(at, c, in, [&](size_t pos) {
         ++calls;
         if (!running)
            late = true;
         if (leaf_ends && c == BIN2JSON) {
            int n = 0;
            for (auto e : *leaf_ends) n += e > prev && e <= pos;
            over |= n > 1;
            prev = pos;
         }
      });
   });
   if (leaf_ends && c == BIN2JSON && got.ok) {
      int n = 0;
      for (auto e : *leaf_ends) n += e > prev;
      over |= n > 1;
   }
   running = false;
   
   for (uint64_t k = 0; k <= calls; ++k) t.distinct("nontrivial", vh::mix(vh::mix(vh::fnv(key), vh::fnv(in.bin + "/" + in.js)), k));
   t.ok(same(got, want), "quiet:" + key, "with a callback: " + got.v + got.err + ", without: " + want.v + want.err);
   if (min_calls)
      t.ok(int64_t(calls) >= *min_calls, "few:" + key, std::to_string(calls) + " calls for " + std::to_string(*min_calls) + " members and elements");
   t.ok(!over, "gap:" + key, "more than one value converted between two calls");
   t.ok(!late, "late:" + key, "called after the conversion ended");
   // every call throws in turn
   for (uint64_t k = 1; k <= std::min(calls, max_k); ++k) {
      int64_t live[2];
      for (int rep = 0; rep < 2; ++rep) {
         int64_t     before = vh_alloc::live;
         int         kind   = (k + rep) % 3;
         bool        right  = false;
         const char* how    = "returned normally";
         uint64_t    n      = 0;
         try {
            convert(at, c, in, [&](size_t) {
               if (++n == k) {
                  if (kind == 0)
                     throw stop{ int(k), 77 };
                  if (kind == 1)
                     throw int(k);
                  throw std::out_of_range("stop");
               }
            });
         } catch (stop& s) { right = kind == 0 && s.at == int(k) && s.tag == 77; } catch (int x) {
            right = kind == 1 && x == int(k);
         } catch (std::out_of_range& e) { right = kind == 2 && e.what() == std::string("stop"); } catch (std::exception& e) {
            how = "threw something else";
         } catch (...) { how = "threw something else"; }
         live[rep] = vh_alloc::live - before;
         
         t.count("evaluations");
         if (!right)
            t.fail("throw:" + key + "@" + std::to_string(k), std::string("the conversion ") + how);
         if (n != k)
            t.fail("again:" + key + "@" + std::to_string(k), "called " + std::to_string(n) + " times");
      }
      t.ok(live[1] <= 0 || live[0] < live[1], "leak:" + key + "@" + std::to_string(k), std::to_string(live[1]) + " allocations left");
      Res after = attempt([&] { return plain(at, c, in); });
      t.ok(same(after, want), "after:" + key + "@" + std::to_string(k), "afterwards gives " + after.v + after.err + " instead of " + want.v + want.err);
   }
   // every call runs other conversions, which succeed, fail or are abandoned
   for (uint64_t k = 1; k <= std::min(calls, max_k); ++k)
      for (int c2 = 0; c2 < NCONV; ++c2)
         for (size_t o = 0; o < others.size(); ++o) {
            Res      w2 = attempt([&] { return plain(at, c2, others[o]); }), g2, g3;
            uint64_t n  = 0;
            bool     stopped = false;
            Res      g  = attempt([&] {
               return convert(at, c, in, [&](size_t) {
                  if (++n != k)
                     return;
                  g2 = attempt([&] { return plain(at, c2, others[o]); });
                  uint64_t m = 0;
                  try {
                     convert(at, c2, others[o], [&](size_t) {
                        if (++m == 2)
                           throw stop{ 2, 0 };
                     });
                  } catch (stop&) { stopped = true; } catch (std::exception&) {}
               });
            });
            t.count("evaluations");
            
            if (!same(g, want) || !same(g2, w2))
               t.fail("nested:" + key + "@" + std::to_string(k) + ":" + conv_name[c2] + std::to_string(o),
                      "outer " + g.v + g.err + " wanted " + want.v + want.err + "; inner " + g2.v + g2.err + " wanted " + w2.v + w2.err);
         }
}
static void check_type(vh::T& t, const Ty* ty, size_t lim, uint64_t max_k, bool broken) {
   std::string aj = abi_json({ ty });
   t.desc(ty->expr + " in " + aj);
   Abi a;
   if (!a.load(aj)) {
      t.fail("load:" + vh::cut(aj, 200), a.err);
      return;
   }
   auto at = a.type(ty->expr);
   auto vs = values(ty, lim);
   if (vs.empty())
      return;
   std::vector<In> ins;
   for (auto& v : vs) ins.push_back({ encode(ty, v), json(ty, v) });
   std::vector<In> others = { ins.back(), ins[ins.size() / 2] };
   others[1].bin.resize(others[1].bin.size() / 2);
   others[1].js.resize(others[1].js.size() / 2);
   for (size_t i = 0; i < vs.size(); ++i) {
      uint64_t            n   = 0;
      size_t              off = 0;
      std::vector<size_t> ends;
      steps(ty, vs[i], n, off, ends);
      int64_t want = n;
      if (off != ins[i].bin.size())
         t.fail("harness", "steps of " + ins[i].js);
      for (int c = 0; c < NCONV; ++c) {
         explore(t, at, c, ins[i], vh::cut(aj, 300) + ":" + vh::cut(ins[i].js), others, &want, &ends, max_k);
         if (!broken)
            continue;
         if (c == BIN2JSON)
            for (size_t cut = 0; cut < ins[i].bin.size(); ++cut)
               explore(t, at, c, { ins[i].bin.substr(0, cut), "" }, vh::cut(aj, 300) + ":" + vh::hexs(ins[i].bin.substr(0, cut)), {}, nullptr, nullptr, max_k);
         else
            for (size_t cut = 0; cut < ins[i].js.size(); cut += 1 + cut / 8) {
               std::string x = ins[i].js;
               x.erase(cut, 1);
               explore(t, at, c, { "", x }, vh::cut(aj, 300) + ":" + vh::cut(x), {}, nullptr, nullptr, max_k);
            }
      }
   }
   if (t.cur % 499 == 0)
      t.sample(aj + " value " + ins.back().js);
}
static void run(vh::T& t) {
   Types ts;
   Enum  en{ ts };
   int   ms = t.thorough() ? 5 : 4;
   en.run({ "int8", "string" }, ms);
   for (int n = 1; n <= ms; ++n)
      for (auto ty : en.by[n])
         if (t.next())
            check_type(t, ty, t.thorough() ? (n < 4 ? 24 : n < 5 ? 12 : 3) : n < 4 ? 12 : 5, 1000, n < (t.thorough() ? 5 : 4));
   Types                    ts2;
   Enum                     e2{ ts2 };
   std::vector<std::string> all;
   for (auto& l : leaves()) all.push_back(l.name);
   e2.run(all, 2);
   for (int n = 1; n <= 2; ++n)
      for (auto ty : e2.by[n])
         if (t.next())
            check_type(t, ty, 6, 1000, true);
   // larger values: long arrays, deep nesting, wide structs, mixtures
   for (int n : { 1, 2, 3, 5, 17, 31, 32, 33, 40, 100, 127, 128, 129, 200, 300 })
      for (int shape = 0; shape < 8; ++shape)
         if (t.next()) {
            Types     ts3;
            auto      i8 = ts3.lf("int8"), s = ts3.lf("string");
            const Ty* ty;
            Val       v, one{ 0 };
            Val       e2{ 0, true, { one, one } };
            auto      ai = ts3.arr(i8);
            bool      nest = shape == 3 || shape == 4 || shape == 5;
            int       m    = nest ? std::min(n, 30) : n;
            switch (shape) {
               case 0:
                  ty = ai;
                  v.kids.assign(m, one);
                  break;
               case 1:
                  ty = ts3.arr(ts3.st({ i8, ai, ts3.opt(s) }));
                  for (int i = 0; i < m; ++i) v.kids.push_back(Val{ 0, true, { one, i % 2 ? e2 : Val{}, Val{ 0, i % 3 == 0, { one } } } });
                  break;
               case 2: {
                  std::vector<const Ty*> f;
                  for (int i = 0; i < m; ++i) {
                     f.push_back(i % 3 == 1 ? ai : i % 3 == 2 ? ts3.st({ s }) : i8);
                     v.kids.push_back(i % 3 == 1 ? e2 : i % 3 == 2 ? Val{ 0, true, { one } } : one);
                  }
                  ty = ts3.st(f);
                  break;
               }
               case 3:
                  ty = i8;
                  v  = one;
                  for (int i = 0; i < m; ++i) {
                     ty = ts3.st({ ty });
                     v  = Val{ 0, true, { v } };
                  }
                  break;
               case 4:
                  ty = i8;
                  v  = one;
                  for (int i = 0; i + 1 < m; i += 2) {
                     ty = ts3.var({ s, ts3.alias(ts3.arr(ty)) });
                     v  = Val{ 1, true, { Val{ 0, true, { v, v } } } };
                     if (i > 8)
                        v.kids[0].kids.pop_back();
                  }
                  break;
               case 5: {
                  ty = nullptr;
                  for (int i = 0; i < m; ++i) {
                     ty = ts3.st({ i % 2 ? ai : s }, ty);
                     v.kids.push_back(i % 2 ? e2 : one);
                  }
                  break;
               }
               case 6: {
                  auto el = ts3.var({ i8, s, ai });
                  ty      = ts3.arr(el);
                  for (int i = 0; i < m; ++i) v.kids.push_back(Val{ i % 3, true, { i % 3 == 2 ? e2 : one } });
                  break;
               }
               default: {
                  ty = ts3.st({ ts3.arr(ts3.st({ ai })), ts3.ext(ts3.st({ ai, i8 })), ts3.ext(s) });
                  Val a;
                  for (int i = 0; i < m; ++i) a.kids.push_back(Val{ 0, true, { i % 2 ? Val{} : e2 } });
                  v = Val{ 0, true, { a, Val{ 0, true, { Val{ 0, true, { e2, one } } } }, Val{ 0, true, { one } } } };
               }
            }
            std::string aj = abi_json({ ty });
            t.desc("size " + std::to_string(n) + " shape " + std::to_string(shape));
            Abi a;
            if (!a.load(aj)) {
               t.fail("load", a.err);
               continue;
            }
            auto                at  = a.type(ty->expr);
            uint64_t            cnt = 0;
            size_t              off = 0;
            std::vector<size_t> ends;
            steps(ty, v, cnt, off, ends);
            int64_t         want   = cnt;
            In              in     = { encode(ty, v), json(ty, v) };
            std::vector<In> others = { in };
            for (int c = 0; c < NCONV; ++c)
               explore(t, at, c, in, "size " + std::to_string(n) + " shape " + std::to_string(shape), others, &want, &ends, n < 50 ? 5000 : t.thorough() ? 400 : 60);
         }
}
VH_MAIN(run)
