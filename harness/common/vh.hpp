// Bounded exhaustive exploration framework: deterministic case numbering, sharding over forked workers,
// crash/hang attribution, replay of single cases.  Nothing here is random.
#pragma once
#include <algorithm>
#include <atomic>
#include <cinttypes>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

#ifdef VH_COV // line coverage of the explored code (tools/cover.py)
extern "C" void __gcov_dump();
#endif
namespace vh {

inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
   auto b = (const unsigned char*)p;
   for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 1099511628211ull;
   return h ^ (h >> 29);
}
inline uint64_t fnv(std::string_view s, uint64_t h = 1469598103934665603ull) { return fnv(s.data(), s.size(), h); }
inline uint64_t mix(uint64_t a, uint64_t b) {
   uint64_t z = (a ^ (b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2))) * 0xbf58476d1ce4e5b9ull;
   return z ^ (z >> 31);
}

inline std::string esc(std::string_view s) {
   std::string r;
   char        b[8];
   for (unsigned char c : s) {
      if (c == '"' || c == '\\') {
         r += '\\';
         r += c;
      } else if (c < 32 || c >= 127) {
         snprintf(b, sizeof b, "\\u%04x", c);
         r += b;
      } else
         r += c;
   }
   return r;
}
inline std::string hexs(const void* p, size_t n) {
   std::string r;
   auto        b = (const unsigned char*)p;
   for (size_t i = 0; i < n; ++i) {
      r += "0123456789abcdef"[b[i] >> 4];
      r += "0123456789abcdef"[b[i] & 15];
   }
   return r;
}
inline std::string hexs(std::string_view v) { return hexs(v.data(), v.size()); }
inline std::string hexs(const std::vector<char>& v) { return hexs(v.data(), v.size()); }
inline std::string cut(std::string s, size_t n = 300) {
   if (s.size() > n)
      s = s.substr(0, n) + "...(" + std::to_string(s.size()) + ")";
   return s;
}

struct Slot {
   std::atomic<int64_t> case_no;
   std::atomic<int64_t> start_ns;
   std::atomic<int>     done;
   char                 desc[1000];
};

struct Violation {
   int64_t     case_no;
   std::string key, msg;
};

inline int64_t now_ns() {
   timespec ts;
   clock_gettime(CLOCK_MONOTONIC_COARSE, &ts);
   return ts.tv_sec * 1000000000ll + ts.tv_nsec;
}

class T {
 public:
   int     tier    = 0; // 0 quick, 1 thorough
   int     shard   = 0;
   int     nshards = 1;
   int64_t only    = -1;
   int64_t from    = 0;  // skip cases below this one
   int64_t until   = -1; // stop executing after this one
   int64_t cur     = -1;
   bool    active  = false;
   bool    verbose = false;
   Slot*   slot    = nullptr;

   std::map<std::string, uint64_t>                     counters;
   std::map<std::string, std::unordered_set<uint64_t>> dist;
   std::vector<std::string>                            samples;
   std::vector<Violation>                              violations;
   std::set<std::string>                               keys;
   uint64_t                                            nviolations = 0;

   bool thorough() const { return tier == 1; }

   // Announces the next case.  True if this worker is to execute it.
   bool next() {
      ++cur;
      if (only >= 0)
         active = cur == only;
      else
         active = cur % nshards == shard && cur >= from && (until < 0 || cur <= until);
      if (active && slot) {
         slot->case_no.store(cur, std::memory_order_relaxed);
         slot->start_ns.store(now_ns(), std::memory_order_relaxed);
         slot->desc[0] = 0;
      }
      if (active)
         ++counters["cases"];
      return active;
   }
   // Optional: what is being executed, for reports of a crash.
   void desc(std::string_view s) {
      if (slot) {
         size_t n = std::min(s.size(), sizeof(slot->desc) - 1);
         memcpy(slot->desc, s.data(), n);
         slot->desc[n] = 0;
      }
      if (verbose)
         fprintf(stderr, "case %lld: %.*s\n", (long long)cur, (int)s.size(), s.data());
   }
   void fail(const std::string& key, const std::string& msg) {
      ++nviolations;
      if (verbose)
         fprintf(stderr, "FAIL case %lld key=%s\n  %s\n", (long long)cur, key.c_str(), msg.c_str());
      if (keys.size() >= 100 || !keys.insert(key).second)
         return;
      violations.push_back({ cur, key, msg });
   }
   bool ok(bool cond, const std::string& key, const std::string& msg) {
      if (!cond)
         fail(key, msg);
      return cond;
   }
   void count(const char* name, uint64_t n = 1) { counters[name] += n; }
   bool distinct(const char* name, uint64_t h) { return dist[name].insert(h).second; }
   void sample(const std::string& s, size_t max = 6) {
      if (samples.size() < max)
         samples.push_back(cut(s, 400));
   }
};

namespace detail {
   inline void put_str(FILE* f, const std::string& s) {
      uint32_t n = s.size();
      fwrite(&n, 4, 1, f);
      fwrite(s.data(), 1, n, f);
   }
   inline bool get_str(FILE* f, std::string& s) {
      uint32_t n;
      if (fread(&n, 4, 1, f) != 1)
         return false;
      s.resize(n);
      return n == 0 || fread(s.data(), 1, n, f) == n;
   }
   inline void save(const T& t, const std::string& path) {
      FILE* f = fopen(path.c_str(), "wb");
      if (!f)
         _exit(97);
      uint64_t n = t.counters.size();
      fwrite(&n, 8, 1, f);
      for (auto& [k, v] : t.counters) {
         put_str(f, k);
         fwrite(&v, 8, 1, f);
      }
      n = t.dist.size();
      fwrite(&n, 8, 1, f);
      for (auto& [k, v] : t.dist) {
         put_str(f, k);
         uint64_t m = v.size();
         fwrite(&m, 8, 1, f);
         for (auto h : v) fwrite(&h, 8, 1, f);
      }
      n = t.samples.size();
      fwrite(&n, 8, 1, f);
      for (auto& s : t.samples) put_str(f, s);
      n = t.violations.size();
      fwrite(&n, 8, 1, f);
      for (auto& v : t.violations) {
         fwrite(&v.case_no, 8, 1, f);
         put_str(f, v.key);
         put_str(f, v.msg);
      }
      fwrite(&t.nviolations, 8, 1, f);
      fwrite(&t.cur, 8, 1, f);
      fclose(f);
   }
   inline bool load(T& t, const std::string& path) {
      FILE* f = fopen(path.c_str(), "rb");
      if (!f)
         return false;
      auto u64 = [&] {
         uint64_t x = 0;
         if (fread(&x, 8, 1, f) != 1)
            exit(96);
         return x;
      };
      std::string s;
      for (uint64_t n = u64(); n--;) {
         get_str(f, s);
         t.counters[s] += u64();
      }
      for (uint64_t n = u64(); n--;) {
         get_str(f, s);
         auto& d = t.dist[s];
         for (uint64_t m = u64(); m--;) d.insert(u64());
      }
      for (uint64_t n = u64(); n--;) {
         get_str(f, s);
         t.samples.push_back(s);
      }
      for (uint64_t n = u64(); n--;) {
         Violation v;
         v.case_no = u64();
         get_str(f, v.key);
         get_str(f, v.msg);
         t.violations.push_back(v);
      }
      t.nviolations += u64();
      t.cur = u64();
      fclose(f);
      return true;
   }
} // namespace detail

// Runs `body` over all cases in forked shards, merges, writes the result JSON.
inline int main_impl(int argc, char** argv, const std::function<void(T&)>& body) {
   setvbuf(stdout, nullptr, _IOLBF, 0);
   std::string out, work = ".";
   int         nshards = 8, tier = 0;
   int64_t     only = -1;
   double      limit_s = 60, alone_s = 180;
   bool        verbose = false;
   for (int i = 1; i < argc; ++i) {
      std::string a = argv[i];
      if (a == "--out")
         out = argv[++i];
      else if (a == "--work")
         work = argv[++i];
      else if (a == "--shards")
         nshards = atoi(argv[++i]);
      else if (a == "--tier")
         tier = std::string(argv[++i]) == "thorough";
      else if (a == "--only")
         only = atoll(argv[++i]);
      else if (a == "-v")
         verbose = true;
      else if (a == "--case-limit")
         limit_s = atof(argv[++i]);
   }
   auto slots = (Slot*)mmap(nullptr, sizeof(Slot) * (nshards + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS,
                            -1, 0);
   struct Outcome {
      int         kind; // 0 ok, 1 crash, 2 hang, 3 killed
      int64_t     case_no;
      std::string desc;
      int         status;
   };
   auto spawn = [&](int shard, int n, int64_t only_, int64_t from, int64_t until, Slot* slot,
                    const std::string& path) -> pid_t {
      slot->case_no = -1;
      slot->done    = 0;
      slot->desc[0] = 0;
      slot->start_ns = now_ns();
      unlink(path.c_str());
      pid_t p = fork();
      if (p == 0) {
         T t;
         t.tier    = tier;
         t.shard   = shard;
         t.nshards = n;
         t.only    = only_;
         t.from    = from;
         t.until   = until;
         t.slot    = slot;
         t.verbose = verbose;
         body(t);
         detail::save(t, path);
         slot->done = 1;
#ifdef VH_COV
         __gcov_dump();
#endif
         _exit(0);
      }
      return p;
   };
   auto run_one = [&](int shard, int n, int64_t only_, int64_t until, const std::string& path, T* res) -> Outcome {
      Slot* sl = &slots[nshards];
      pid_t p  = spawn(shard, n, only_, 0, until, sl, path);
      int   st;
      for (;;) {
         pid_t r = waitpid(p, &st, WNOHANG);
         if (r == p)
            break;
         if (now_ns() - sl->start_ns > (only_ >= 0 ? alone_s : std::max(alone_s, limit_s)) * 1e9) {
            kill(p, SIGKILL);
            waitpid(p, &st, 0);
            return { 2, sl->case_no, sl->desc, st };
         }
         usleep(2000);
      }
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sl->done) {
         if (res)
            detail::load(*res, path);
         return { 0, -1, "", 0 };
      }
      if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)
         return { 3, sl->case_no, sl->desc, st };
      return { 1, sl->case_no, sl->desc, st };
   };

   if (only >= 0) { // replay of one case
      T    res;
      auto o = run_one(0, 1, only, -1, work + "/only.bin", &res);
      if (o.kind == 0) {
         for (auto& v : res.violations) printf("REPLAY-VIOLATION case=%lld key=%s : %s\n", (long long)v.case_no, v.key.c_str(), v.msg.c_str());
         if (res.violations.empty())
            printf("REPLAY-OK case=%lld\n", (long long)only);
         return res.violations.empty() ? 0 : 1;
      }
      printf("REPLAY-%s case=%lld desc=%s\n", o.kind == 2 ? "HANG" : "CRASH", (long long)o.case_no, o.desc.c_str());
      return 1;
   }

   T                       total;
   std::vector<pid_t>      pids(nshards);
   std::vector<int>        gen(nshards, 0);
   std::vector<std::string> parts;
   std::vector<Violation>  hard; // crashes and hangs
   bool                    error = false;
   int                     live  = 0, crashes = 0;
   auto                    part  = [&](int i) { return work + "/s" + std::to_string(i) + "_" + std::to_string(gen[i]) + ".bin"; };
   for (int i = 0; i < nshards; ++i) {
      pids[i] = spawn(i, nshards, -1, 0, -1, &slots[i], part(i));
      ++live;
   }
   int64_t ncases = -1;
   while (live) {
      bool progress = false;
      for (int i = 0; i < nshards; ++i) {
         if (pids[i] <= 0)
            continue;
         int   st;
         pid_t r    = waitpid(pids[i], &st, WNOHANG);
         bool  hang = false;
         if (r == 0) {
            if (now_ns() - slots[i].start_ns > (slots[i].case_no >= 0 ? limit_s : std::max(limit_s, 120.)) * 1e9) {
               kill(pids[i], SIGKILL);
               waitpid(pids[i], &st, 0);
               hang = true;
            } else
               continue;
         }
         progress = true;
         if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 0 && slots[i].done) {
            T    tmp;
            if (!detail::load(tmp, part(i)))
               error = true;
            ncases = std::max(ncases, tmp.cur + 1);
            detail::load(total, part(i));
            unlink(part(i).c_str());
            pids[i] = 0;
            --live;
            continue;
         }
         // abnormal end: re-run the case alone
         int64_t c = slots[i].case_no;
         ++crashes;
         if (c < 0) { // before the first case: preparing the cases already calls the code under test
            fprintf(stderr, "worker %d ended abnormally before its first case (status %x)\n", i, st);
            auto o = run_one(0, 1, 0, -1, work + "/alone.bin", nullptr);
            if (o.kind != 0 && o.case_no < 0) {
               hard.push_back({ 0, "crash:preparation", "process ended abnormally before the first case, status=" + std::to_string(o.status) });
               for (int j = 0; j < nshards; ++j)
                  if (pids[j] > 0 && j != i) {
                     kill(pids[j], SIGKILL);
                     waitpid(pids[j], &st, 0);
                  }
               live = 0;
               break;
            }
            error   = true;
            pids[i] = 0;
            --live;
            continue;
         }
         auto o = run_one(0, 1, c, -1, work + "/alone.bin", nullptr);
         bool confirmed = o.kind == 1 || o.kind == 2;
         bool killed    = o.kind == 3 && o.case_no == c; // ended from outside twice in this very case, the second time alone: memory
         confirmed |= killed;
         if (!confirmed && !hang && !(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)) {
            // depends on earlier cases of the worker: reproduce the whole prefix
            auto o2   = run_one(i, nshards, -1, c, work + "/alone.bin", nullptr);
            confirmed = o2.kind == 1;
            if (confirmed)
               o = o2;
         }
         if (confirmed) {
            std::string k = (o.kind == 2 ? "hang:" : killed ? "memory:" : "crash:") + (o.desc.empty() ? "case" + std::to_string(c) : o.desc);
            hard.push_back({ c, cut(k, 300),
                             (o.kind == 2 ? std::string("does not terminate") : killed ? std::string("killed twice, the second time running alone (out of memory?)") : std::string("process ended abnormally")) +
                                   " status=" + std::to_string(o.status) + " in case " + std::to_string(c) + " " + o.desc });
         } else
            fprintf(stderr, "worker %d ended abnormally in case %lld, not reproduced (status %x)\n", i, (long long)c, st);
         if (hard.size() >= 12 || crashes > 30 || (confirmed && (o.kind == 2 || killed))) { // enough: stop (other workers are likely to hang too)
            for (int j = 0; j < nshards; ++j)
               if (pids[j] > 0 && j != i) {
                  kill(pids[j], SIGKILL);
                  waitpid(pids[j], &st, 0);
               }
            if (hard.empty())
               error = true;
            live = 0;
            break;
         }
         ++gen[i];
         pids[i] = spawn(i, nshards, -1, confirmed ? c + 1 : c, -1, &slots[i], part(i));
      }
      if (!progress)
         usleep(3000);
   }
   // confirm ordinary violations by re-running the case alone
   std::vector<Violation> conf;
   std::set<std::string>  seen;
   std::stable_sort(total.violations.begin(), total.violations.end(),
                    [](auto& a, auto& b) { return a.case_no < b.case_no; });
   size_t tried = 0;
   for (auto& v : total.violations) {
      if (!seen.insert(v.key).second)
         continue;
      if (tried++ >= 300)
         break;
      if (tried > 40) { // many distinct keys: the first ones were replayed, keep the rest as recorded
         conf.push_back(v);
         continue;
      }
      T    res;
      auto o = run_one(0, 1, v.case_no, -1, work + "/alone.bin", &res);
      bool again = o.kind == 1;
      for (auto& w : res.violations) again |= w.key == v.key;
      if (!again) {
         T    res2;
         auto o2 = run_one(v.case_no % nshards, nshards, -1, v.case_no, work + "/alone.bin", &res2);
         again   = o2.kind == 1;
         for (auto& w : res2.violations) again |= w.key == v.key;
      }
      if (again)
         conf.push_back(v);
      else {
         fprintf(stderr, "NOT REPRODUCED: case %lld key=%s %s\n", (long long)v.case_no, v.key.c_str(), v.msg.c_str());
         error = true;
      }
   }
   for (auto& h : hard) conf.push_back(h);

   FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
   if (!f)
      return 2;
   fprintf(f, "{\"ncases\":%lld,\"error\":%s,\"nviolations\":%llu,\"counters\":{", (long long)ncases, error ? "true" : "false",
           (unsigned long long)(total.nviolations + hard.size()));
   bool first = true;
   for (auto& [k, v] : total.counters) {
      fprintf(f, "%s\"%s\":%llu", first ? "" : ",", k.c_str(), (unsigned long long)v);
      first = false;
   }
   fprintf(f, "},\"distinct\":{");
   first = true;
   for (auto& [k, v] : total.dist) {
      fprintf(f, "%s\"%s\":%llu", first ? "" : ",", k.c_str(), (unsigned long long)v.size());
      first = false;
   }
   fprintf(f, "},\"samples\":[");
   first = true;
   size_t ns = 0;
   for (auto& s : total.samples) {
      if (ns++ >= 12)
         break;
      fprintf(f, "%s\"%s\"", first ? "" : ",", esc(s).c_str());
      first = false;
   }
   fprintf(f, "],\"violations\":[");
   first = true;
   for (auto& v : conf) {
      fprintf(f, "%s{\"case\":%lld,\"key\":\"%s\",\"msg\":\"%s\"}", first ? "" : ",", (long long)v.case_no, esc(v.key).c_str(),
              esc(cut(v.msg, 1500)).c_str());
      first = false;
   }
   fprintf(f, "]}\n");
   if (f != stdout)
      fclose(f);
   return conf.empty() ? (error ? 2 : 0) : 1;
}
} // namespace vh

#define VH_MAIN(fn)                                                                                                   \
   int main(int argc, char** argv) { return vh::main_impl(argc, argv, fn); }
