// C12: happens-before analysis.  Two programs run one after the other in threads of their own with nothing ordering them, so
// any two conflicting accesses are a race whatever the timing; without one, all their interleavings are equivalent.
#include "vh.hpp"
#include "c12_prog.hpp"
#include <atomic>
#include <sys/wait.h>
#include <thread>
static std::string label(int p, int v) { return std::string(prog_name(p)) + "#" + std::to_string(v); }
static std::atomic<int> turn{ 0 };
static void             wait_for(int t) {
   while (turn.load(std::memory_order_relaxed) != t) { // relaxed: orders nothing
      timespec ts{ 0, 20000 };
      nanosleep(&ts, nullptr);
   }
}
static void race(int a, int b, int rounds, const std::string& ea, const std::string& eb, const char* file) {
   std::string              out[8];
   std::vector<std::thread> th;
   for (int i = 0; i < 2 * rounds; ++i)
      th.emplace_back([&, i] {
         wait_for(i + 1);
         out[i] = prog_run(i % 2 ? b : a, i % 2);
         turn.store(i + 2, std::memory_order_relaxed);
      });
   turn.store(1, std::memory_order_relaxed);
   for (auto& x : th) x.join();
   for (int i = 0; i < 2 * rounds; ++i)
      if (out[i] != (i % 2 ? eb : ea)) {
         FILE* f = fopen(file, "a");
         fprintf(f, "RESULT %s gives \"%s\" instead of \"%s\"\n", label(i % 2 ? b : a, i % 2).c_str(), vh::cut(vh::esc(out[i]), 150).c_str(), vh::cut(vh::esc(i % 2 ? eb : ea), 150).c_str());
         fclose(f);
         _exit(3);
      }
}
static std::string slurp(const std::string& f) {
   std::ifstream     i(f);
   std::stringstream s;
   s << i.rdbuf();
   return s.str();
}
template <typename F>
static int child(const std::string& file, F f) {
   unlink(file.c_str());
   pid_t p = fork();
   if (p == 0) {
      int fd = open(file.c_str(), O_CREAT | O_WRONLY | O_APPEND, 0600);
      dup2(fd, 2);
      f();
      _exit(0);
   }
   int st;
   waitpid(p, &st, 0);
   return st;
}
void run(vh::T& t) {
   int                      n    = prog_count();
   std::string              file = "race_" + std::to_string(getpid()) + ".txt";
   std::vector<std::string> alone(2 * n);
   std::vector<bool>        have(2 * n);
   auto                     solo = [&](int p, int v) -> const std::string& {
      int i = 2 * p + v;
      if (!have[i]) {
         std::string f2 = file + "s";
         child(f2, [&] {
            auto s = prog_run(p, v);
            if (write(2, s.data(), s.size()) < 0)
               _exit(1);
         });
         alone[i] = slurp(f2);
         unlink(f2.c_str());
         have[i] = true;
      }
      return alone[i];
   };
   for (int a = 0; a < n; ++a)
      for (int b = 0; b < n; ++b) {
         if (!t.next())
            continue;
         auto &ea = solo(a, 0), &eb = solo(b, 1);
         t.desc("race " + label(a, 0) + " and " + label(b, 1));
         int         st  = child(file, [&] { race(a, b, t.thorough() ? 4 : 2, ea, eb, file.c_str()); });
         std::string log = slurp(file);
         t.count("traces");
         t.count("pairs_analysed");
         t.count("transitions", t.thorough() ? 8 : 4);
         t.distinct("states", vh::fnv("race" + label(a, 0) + label(b, 1)));
         if (st == 0)
            continue;
         size_t r = log.find("RESULT ");
         if (r != std::string::npos) {
            t.fail("after-other:" + label(a, 0) + "/" + label(b, 1), log.substr(r, log.find('\n', r) - r));
            continue;
         }
         std::string where;
         for (size_t p = 0, k = 0; k < 2 && (p = log.find("    #", p)) != std::string::npos; ++p)
            if (log.compare(p, 7, "    #0 ") == 0) {
               where += " " + log.substr(p + 7, log.find('\n', p) - p - 7);
               ++k;
            }
         if (log.find("data race") != std::string::npos)
            t.fail("race:" + label(a, 0) + "/" + label(b, 1), label(a, 0) + " and " + label(b, 1) + " touch the same memory with nothing ordering them:" + where);
         else
            t.fail("crash:" + label(a, 0) + "/" + label(b, 1), label(a, 0) + " and " + label(b, 1) + " end with status " + std::to_string(st) + " " + vh::cut(log));
      }
   unlink(file.c_str());
}
VH_MAIN(run)
