// C12: all interleavings of two calls, on the real code under a controlled scheduler.  Compiled without instrumentation.
#include "vh.hpp"
#include "c12_prog.hpp"
#include "c12_rt.hpp"
#include <atomic>
#include <condition_variable>
#include <sys/mman.h>
#include <sys/wait.h>
#include <thread>
#ifndef MODE
#define MODE 0
#endif
static std::string label(int p, int v) { return std::string(prog_name(p)) + "#" + std::to_string(v); }

// two threads that live on: starting one for every schedule would cost more than the schedule
struct Pool {
   std::thread       th[2];
   int               prog[2], val[2];
   std::string       out[2];
   std::atomic<int>  gen{ 0 }, ended{ 0 };
   std::atomic<bool> stop{ false };
   static void       wait(std::atomic<int>& a, int not_this) {
      for (int i = 0; a.load(std::memory_order_acquire) == not_this; ++i) {
         timespec ts{ 0, 1000000 };
         syscall(SYS_futex_, (int*)&a, 128 /* wait, private */, not_this, &ts, nullptr, 0);
      }
   }
   static void wake(std::atomic<int>& a) { syscall(SYS_futex_, (int*)&a, 129, 16, nullptr, nullptr, 0); }
   static constexpr long SYS_futex_ = 202;
   void body(int t) {
      int g = 0;
      for (;;) {
         wait(gen, g);
         ++g;
         if (stop)
            return;
         rt::enter(t);
         out[t] = prog_run(prog[t], val[t]);
         rt::leave();
         ended.fetch_add(1, std::memory_order_acq_rel);
         wake(ended);
      }
   }
   Pool() {
      for (int t = 0; t < 2; ++t) th[t] = std::thread([this, t] { body(t); });
   }
   void run(int p0, int v0, int p1, int v1, const rt::Seg* s, int n, rt::Grain g) {
      prog[0] = p0;
      val[0]  = v0;
      prog[1] = p1;
      val[1]  = v1;
      ended.store(0);
      rt::begin(s, n, g);
      gen.fetch_add(1, std::memory_order_acq_rel);
      wake(gen);
      for (int e; (e = ended.load(std::memory_order_acquire)) < 2;) wait(ended, e);
   }
   ~Pool() {
      stop = true;
      gen.fetch_add(1);
      wake(gen);
      for (auto& t : th) t.join();
   }
};

// what each program gives alone, in a process in which nothing else ran
static std::vector<std::string> alone;
static bool                     solo_all(vh::T& t) {
   const size_t cap = 1 << 16;
   int          n   = prog_count();
   auto         mem = (char*)mmap(nullptr, cap * n * 2, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
   for (int i = 0; i < 2 * n; ++i) {
      pid_t p = fork();
      if (p == 0) {
         auto s = prog_run(i / 2, i % 2);
         snprintf(mem + cap * i, cap, "%c%s", '=', s.c_str());
         _exit(0);
      }
      int st;
      waitpid(p, &st, 0);
      alone.push_back(mem[cap * i] ? mem + cap * i + 1 : "");
      if (!mem[cap * i])
         t.fail("alone:" + label(i / 2, i % 2), label(i / 2, i % 2) + " does not survive running alone");
   }
   munmap(mem, cap * n * 2);
   return true;
}
static std::string diff(const std::string& a, const std::string& b) {
   size_t i = 0;
   while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
   i = i > 30 ? i - 30 : 0;
   return "\"" + vh::cut(vh::esc(b.substr(i)), 120) + "\" instead of \"" + vh::cut(vh::esc(a.substr(i)), 120) + "\"";
}

struct Who {
   int a, va, b, vb;
};
// Runs one schedule in this process; false if a result differs.
static bool judge(vh::T& t, Pool& p, const Who& w, const std::vector<rt::Seg>& s, rt::Grain g, const char* kind) {
   p.run(w.a, w.va, w.b, w.vb, s.data(), s.size(), g);
   t.count("transitions", p.ended >= 0 ? (uint64_t)(rt::steps(0) + rt::steps(1)) : 0);
   t.count("traces");
   t.count("preemptions", rt::switches());
   if (rt::freed())
      t.count("schedules_given_up");
   bool ok = true;
   for (int i = 0; i < 2; ++i) {
      int         me = i ? 2 * w.b + w.vb : 2 * w.a + w.va, other = i ? 2 * w.a + w.va : 2 * w.b + w.vb;
      const auto& e = alone[me];
      if (p.out[i] == e)
         continue;
      ok = false;
      std::string sch;
      for (auto& x : s) sch += (x.t ? " B:" : " A:") + (x.n < 0 ? std::string("end") : std::to_string(x.n));
      t.fail(std::string(kind) + ":" + label(me / 2, me % 2) + "/" + label(other / 2, other % 2),
             label(me / 2, me % 2) + " running with " + label(other / 2, other % 2) + " under schedule" + sch + " (" + kind + ") gives " + diff(e, p.out[i]));
   }
   return ok;
}

static void pairs(vh::T& t, rt::Grain g, int which, const char* kind, int64_t stride_limit) {
   // one preemption: A runs k steps, B runs to its end, A finishes; every k
   int                   n = prog_count();
   std::unique_ptr<Pool> pool;
   for (int a = 0; a < n; ++a)
      for (int b = 0; b < n; ++b) {
         if (which == 1 && a != b)
            continue;
         for (int v = 0; v < 2; ++v) {
            Who w{ a, v, b, !v };
            if (!t.next())
               continue;
            if (!pool)
               pool = std::make_unique<Pool>();
            t.desc(std::string(kind) + " " + label(a, v) + " preempted by " + label(b, !v));
            std::vector<rt::Seg> s{ { 0, 1ll << 60 }, { 1, -1 }, { 0, -1 } };
            if (!judge(t, *pool, w, s, g, "serial"))
               continue;
            int64_t steps = rt::steps(0);
            t.count("steps", steps);
            t.distinct("states", vh::fnv(label(a, v) + label(b, !v)));
            for (int64_t k = 1; k <= steps; ++k) {
               s[0].n = k;
               t.distinct("states", vh::mix(vh::fnv(label(a, v) + "|" + label(b, !v)), k));
               if (!judge(t, *pool, w, s, g, kind))
                  break;
            }
         }
      }
}
static void bound2(vh::T& t, rt::Grain g, bool all, const char* kind, int64_t limit) {
   // two preemptions: A runs k steps, B m, A to its end, B finishes
   int                   n = prog_count();
   std::unique_ptr<Pool> pool;
   for (int a = 0; a < n; ++a)
      for (int b = 0; b < n; ++b) {
         if (!all && a != b)
            continue;
         if (!t.next())
            continue;
         if (!pool)
            pool = std::make_unique<Pool>();
         Who w{ a, 0, b, 1 };
         t.desc(std::string(kind) + " " + label(a, 0) + " and " + label(b, 1));
         std::vector<rt::Seg> s{ { 0, 1ll << 60 }, { 1, 1ll << 60 }, { 0, -1 }, { 1, -1 } };
         if (!judge(t, *pool, w, s, g, "serial"))
            continue;
         int64_t na = rt::steps(0), nb = rt::steps(1);
         if (na * nb > limit) { // bounded by the product of the lengths
            t.count("pairs_beyond_bound2");
            na = std::min(na, limit / std::max<int64_t>(1, std::min(nb, (int64_t)1000)));
            nb = std::min(nb, limit / std::max<int64_t>(1, na));
         }
         bool ok = true;
         for (int64_t k = 1; k <= na && ok; ++k)
            for (int64_t m = 1; m <= nb && ok; ++m) {
               s[0].n = k;
               s[1].n = m;
               t.distinct("states", vh::mix(vh::mix(vh::fnv(label(a, 0) + "&" + label(b, 1)), k), m));
               ok = judge(t, *pool, w, s, g, kind);
            }
      }
}
// the first use in a process: every schedule in a process of its own
static void cold(vh::T& t, rt::Grain g, bool all, const char* kind, int64_t limit) {
   int   n   = prog_count();
   char* msg = (char*)mmap(nullptr, 1 << 16, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
   for (int a = 0; a < n; ++a)
      for (int b = 0; b < n; ++b) {
         if (!all && a != b)
            continue;
         if (!t.next())
            continue;
         Who w{ a, 0, b, 1 };
         t.desc(std::string(kind) + " " + label(a, 0) + " preempted by " + label(b, 1));
         int64_t steps = 1;
         for (int64_t i = 0; i <= steps; ++i) {
            // i = 0 measures; if there are more steps than the bound allows they are taken evenly, ends included
            memset(msg, 0, 64);
            int64_t total = *(int64_t*)(msg + 4096);
            int64_t k     = i == 0 ? 1ll << 60 : steps <= 1 ? 1 : 1 + (i - 1) * (total - 1) / (steps - 1);
            pid_t   p     = fork();
            if (p == 0) {
               Pool                 pool;
               std::vector<rt::Seg> s{ { 0, k }, { 1, -1 }, { 0, -1 } };
               vh::T                sub;
               bool                 ok = judge(sub, pool, w, s, g, kind);
               if (i == 0)
                  *(int64_t*)(msg + 4096) = rt::steps(0);
               *(int64_t*)(msg + 4104) = rt::steps(0) + rt::steps(1);
               if (!ok)
                  snprintf(msg + 64, 4000, "%s\n%s", sub.violations[0].key.c_str(), sub.violations[0].msg.c_str());
               msg[0] = ok ? 1 : 2;
               _exit(0);
            }
            int st;
            waitpid(p, &st, 0);
            t.count("traces");
            t.count("transitions", *(int64_t*)(msg + 4104));
            t.distinct("states", vh::mix(vh::fnv("cold" + label(a, 0) + "|" + label(b, 1)), k));
            if (msg[0] != 1) {
               std::string m = msg[0] == 2 ? msg + 64 : "";
               size_t      nl = m.find('\n');
               if (msg[0] == 2)
                  t.fail(m.substr(0, nl), m.substr(nl + 1));
               else
                  t.fail(std::string(kind) + "-crash:" + label(a, 0) + "/" + label(b, 1),
                         label(a, 0) + " preempted after " + std::to_string(k) + " steps by " + label(b, 1) + ", first use in the process: the process died");
               break;
            }
            if (i == 0) {
               int64_t full = *(int64_t*)(msg + 4096);
               steps        = std::min(full, limit);
               if (full > limit)
                  t.count("cold_pairs_thinned");
            }
         }
      }
   munmap(msg, 1 << 16);
}
void run(vh::T& t) {
   solo_all(t);
   auto timed = [&](const char* what, auto f) {
      auto t0 = vh::now_ns();
      f();
      if (getenv("VH_TIMES"))
         fprintf(stderr, "%s: %.1f s, %llu traces so far\n", what, (vh::now_ns() - t0) / 1e9, (unsigned long long)t.counters["traces"]);
   };
   bool big = t.thorough();
   // the forked first-use schedules come first: this process has not run any program yet
   timed("first-use", [&] { cold(t, rt::SHARED, true, "first-use", big ? 400 : 40); });
   timed("first-use-calls", [&] { cold(t, rt::CALLS, true, "first-use-calls", big ? 400 : 20); });
   timed("first-use-blocks", [&] { cold(t, rt::EVERY, false, "first-use-blocks", big ? 1000000 : 600); });
   timed("shared", [&] { pairs(t, rt::SHARED, 0, "one-preemption-shared", 0); });
   timed("every", [&] { pairs(t, rt::EVERY, big ? 0 : 1, "one-preemption", 0); });
   if (!big)
      timed("calls", [&] { pairs(t, rt::CALLS, 0, "one-preemption-calls", 0); });
   timed("two-shared", [&] { bound2(t, rt::SHARED, true, "two-preemptions-shared", big ? 100000 : 2000); });
   if (big)
      timed("two", [&] { bound2(t, rt::CALLS, false, "two-preemptions", 400000); });
   if (t.next())
      for (int i = 0; i < prog_count() * 2; ++i) t.sample(label(i / 2, i % 2) + ": " + vh::cut(alone[i], 100));
}
VH_MAIN(run)
