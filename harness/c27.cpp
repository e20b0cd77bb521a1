// C27: RIPEMD-160 against a reference for every length, split and operation history; the 64-bit name hash against its established values.
#include <cstring>
#include <type_traits>
#include "vh.hpp"
#include "hash.hpp"
#include <eosio/abieos_ripemd160.hpp>
#include <eosio/murmur.hpp>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
using std::string;
namespace rm = abieos_ripemd160;

static string content(size_t n, int kind) {
   string s(n, '\0');
   for (size_t i = 0; i < n; ++i)
      switch (kind) {
         case 0: s[i] = (char)(i * 167 + 13 + (i >> 6) * 31); break;
         case 1: s[i] = '\0'; break;
         case 2: s[i] = '\xff'; break;
         default: s[i] = (char)("abcdefghijklmnopqrstuvwxyz0123456789"[i % 36]); break;
      }
   return s;
}
static const string& want(size_t n, int kind) {
   static std::map<std::pair<size_t, int>, string> m;
   auto&                                           e = m[{ n, kind }];
   if (e.empty())
      e = ref::ripemd160(content(n, kind));
   return e;
}
struct Hash {
   std::unique_ptr<rm::ripemd160_state> s{ new rm::ripemd160_state };
   Hash() { rm::ripemd160_init(s.get()); }
   void add(const char* p, size_t n) { // exact-size block, so that reading past the end is noticed
      std::unique_ptr<char[]> b(new char[n]);
      memcpy(b.get(), p, n);
      rm::ripemd160_update(s.get(), (const char*)b.get(), (int)n);
   }
   string digest() {
      std::unique_ptr<unsigned char[]> o(new unsigned char[20]);
      int                              r = rm::ripemd160_digest(s.get(), o.get());
      return r == 1 ? string((char*)o.get(), 20) : "status " + std::to_string(r);
   }
};
static void splits(vh::T& t) {
   const size_t N1 = t.thorough() ? 6000 : 1500, N2 = t.thorough() ? 600 : 270, N3 = t.thorough() ? 270 : 150;
   for (size_t n = 0; n <= N1; ++n)
      if (t.next()) {
         t.desc("length " + std::to_string(n));
         for (int kind = 0; kind < 4; ++kind) {
            t.count("evaluations");
            string m = content(n, kind);
            t.distinct("nontrivial", vh::fnv(m));
            Hash h;
            h.add(m.data(), n);
            string d = h.digest();
            t.ok(d == want(n, kind), "len:" + std::to_string(n) + ":" + std::to_string(kind), "message of " + std::to_string(n) + " bytes gives " + vh::hexs(d) + " wanted " + vh::hexs(want(n, kind)));
            // other byte types, one byte at a time
            rm::ripemd160_state s2;
            rm::ripemd160_init(&s2);
            for (size_t i = 0; i < n; ++i) {
               unsigned char     u = m[i];
               signed char       c = m[i];
               const std::byte   b = (std::byte)m[i];
               if (i % 3 == 0)
                  rm::ripemd160_update(&s2, &u, 1);
               else if (i % 3 == 1)
                  rm::ripemd160_update(&s2, &c, 1);
               else
                  rm::ripemd160_update(&s2, &b, 1);
            }
            unsigned char o[20];
            int           r = rm::ripemd160_digest(&s2, o);
            t.ok(r == 1 && string((char*)o, 20) == want(n, kind), "bytewise:" + std::to_string(n) + ":" + std::to_string(kind), "message of " + std::to_string(n) + " bytes, one at a time");
         }
      }
   for (size_t n = 0; n <= N2; ++n)
      if (t.next()) {
         t.desc("two-way splits of " + std::to_string(n));
         string m = content(n, 0);
         for (size_t i = 0; i <= n; ++i) {
            t.count("evaluations");
            t.distinct("nontrivial", vh::fnv(std::to_string(n) + "," + std::to_string(i)));
            Hash h;
            h.add(m.data(), i);
            string d1 = h.digest(); // looking at the digest in between changes nothing
            h.add(m.data() + i, n - i);
            string d2 = h.digest(), d3 = h.digest();
            t.ok(d1 == want(i, 0) && d2 == want(n, 0) && d3 == d2, "split2:" + std::to_string(n) + ":" + std::to_string(i), std::to_string(i) + "+" + std::to_string(n - i) + " bytes");
         }
      }
   for (size_t n = 0; n <= N3; ++n)
      if (t.next()) {
         t.desc("three-way splits of " + std::to_string(n));
         string m = content(n, 0);
         for (size_t i = 0; i <= n; ++i)
            for (size_t j = i; j <= n; ++j) {
               t.count("evaluations");
               rm::ripemd160_state s;
               rm::ripemd160_init(&s);
               rm::ripemd160_update(&s, m.data(), (int)i);
               rm::ripemd160_update(&s, m.data() + i, (int)(j - i));
               rm::ripemd160_update(&s, m.data() + j, (int)(n - j));
               unsigned char o[20];
               int           r = rm::ripemd160_digest(&s, o);
               if (!(r == 1 && !memcmp(o, want(n, 0).data(), 20)))
                  t.fail("split3:" + std::to_string(n) + ":" + std::to_string(i) + ":" + std::to_string(j), std::to_string(i) + "+" + std::to_string(j - i) + "+" + std::to_string(n - j) + " bytes");
            }
      }
   // a message whose length in bits needs more than 32 bits
   for (size_t extra : { 1, 0, 64 })
      if ((t.thorough() || extra == 1) && t.next()) {
         t.desc("message of 2^32 bits and more");
         size_t total = (1ull << 29) + extra;
         string m(total, 'z');
         for (size_t i = 0; i < total; i += 4096) m[i] = (char)(i >> 12);
         Hash   h;
         size_t at = 0;
         for (size_t step : { (size_t)100, (size_t)(1 << 28), (size_t)(1 << 28) - 100, extra }) {
            rm::ripemd160_update(h.s.get(), m.data() + at, (int)step);
            at += step;
         }
         string d = h.digest(), w = ref::ripemd160(m);
         t.count("evaluations");
         t.ok(at == total && d == w, "huge:" + std::to_string(extra), "message of 2^29+" + std::to_string(extra) + " bytes gives " + vh::hexs(d) + " wanted " + vh::hexs(w));
      }
   // published digests
   static const char* kat[][2] = { { "", "9c1185a5c5e9fc54612808977ee8f548b2258d31" }, { "a", "0bdc9d2d256b3ee9daae347be6f4dc835a467ffe" }, { "abc", "8eb208f7e05d987a9b044a8e98c6b087f15a0bfc" },
      { "message digest", "5d0689ef49d2fae572b881b123a85ffa21595f36" }, { "abcdefghijklmnopqrstuvwxyz", "f71c27109c692c1b56bbdceb5b9d2865b3708dbc" },
      { "abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq", "12a053384a9c0c88e405a06c27dcf49ada62eb2b" },
      { "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789", "b0e20b6e3116640286ed3a87a5713079b21f5189" } };
   if (t.next())
      for (auto& k : kat) {
         Hash h;
         h.add(k[0], strlen(k[0]));
         t.count("evaluations");
         t.ok(vh::hexs(h.digest()) == k[1] && vh::hexs(ref::ripemd160(k[0])) == k[1], string("kat:") + k[0], string("published digest of \"") + k[0] + "\"");
      }
}

// Operation histories over two hash objects: each object is either unusable or holds a message.
struct M {
   bool   ok = false;
   size_t n  = 0; // length of the message fed (always a prefix of the same content... see feed)
   string fed;
};
static void histories(vh::T& t) {
   const std::vector<int> sizes{ 0, 1, 55, 56, 63, 64, 65, 129 };
   const int              nops  = 2 * (1 + (int)sizes.size() + 1 + 1 + 1 + 2); // per object: init, updates, digest, wipe, copy to the other, null, negative
   const int              per   = nops / 2;
#ifdef NDEBUG
   int depth = t.thorough() ? 6 : 5;
#else
   int depth = t.thorough() ? 5 : 4;
#endif
   string                 src   = content(700, 0);
   static std::map<string, string> memo;
   auto                            dig = [&](const string& m) -> const string& {
      auto& e = memo[m];
      if (e.empty())
         e = ref::ripemd160(m);
      return e;
   };
   auto forked = [&](auto f) { // with assertions on, misuse ends the process: that is a refusal too
#ifdef NDEBUG
      return f();
#else
      pid_t p = fork();
      if (!p) {
         close(2);
         signal(SIGABRT, SIG_DFL);
         _exit(f() ? 0 : 1);
      }
      int st = 0;
      waitpid(p, &st, 0);
      return WIFEXITED(st) ? WEXITSTATUS(st) == 0 : WTERMSIG(st) == SIGABRT;
#endif
   };
   std::vector<int>                                                                    path;
   std::function<void(rm::ripemd160_state*, M*)> go;
   auto name = [&] {
      string s;
      for (int o : path) s += (s.empty() ? "" : ",") + std::to_string(o);
      return s;
   };
   go = [&](rm::ripemd160_state* st, M* md) {
      for (int o = 0; o < nops; ++o) {
         rm::ripemd160_state s[2] = { st[0], st[1] };
         M                   m[2] = { md[0], md[1] };
         int                 w = o / per, k = o % per;
         path.push_back(o);
         if ((int)path.size() == 2 && !t.next()) {
            path.pop_back();
            continue;
         }
         t.count("transitions");
         t.desc("history " + name());
         bool cont = true;
         if (k == 0) {
            rm::ripemd160_init(&s[w]);
            m[w] = M{ true };
         } else if (k <= (int)sizes.size()) {
            int  n   = sizes[k - 1];
            auto put = [&] { rm::ripemd160_update(&s[w], src.data() + 17 * w, n); };
            if (m[w].ok) {
               put();
               m[w].fed += src.substr(17 * w, n);
            } else {
               bool r = forked([&] {
                  put();
                  return s[w].magic != rm::ripemd160_magic;
               });
               t.ok(r, "wrong:" + name(), "an unusable hash object accepts data");
#ifndef NDEBUG
               cont = false;
#endif
            }
         } else if (k == (int)sizes.size() + 1) {
            unsigned char out[20];
            memset(out, 0xa5, 20);
            if (m[w].ok) {
               int r = rm::ripemd160_digest(&s[w], out);
               t.ok(r == 1 && string((char*)out, 20) == dig(m[w].fed), "digest:" + name(), "digest of " + std::to_string(m[w].fed.size()) + " bytes wrong, status " + std::to_string(r));
               t.ok(!memcmp(&s[w], &st[w], offsetof(rm::ripemd160_state, bufpos)) && s[w].bufpos == st[w].bufpos, "digest-const:" + name(), "digest changes the hash object");
            } else {
               t.ok(forked([&] { return rm::ripemd160_digest(&s[w], out) == 0; }), "wrongd:" + name(), "an unusable hash object gives a digest");
#ifndef NDEBUG
               cont = false;
#endif
            }
         } else if (k == (int)sizes.size() + 2) {
            rm::ripemd160_wipe(&s[w]);
            m[w] = M{};
         } else if (k == (int)sizes.size() + 3) {
            rm::ripemd160_copy(&s[w], &s[1 - w]);
            m[1 - w] = m[w];
         } else {
            bool null = k == (int)sizes.size() + 4;
            if (m[w].ok) {
               bool r = forked([&] {
                  if (null)
                     rm::ripemd160_update(&s[w], (const char*)nullptr, 3);
                  else
                     rm::ripemd160_update(&s[w], src.data(), -1);
                  unsigned char out[20];
                  return s[w].magic != rm::ripemd160_magic && rm::ripemd160_digest(&s[w], out) == 0;
               });
               t.ok(r, "misuse:" + name(), null ? "a null message is accepted" : "a negative length is accepted");
               t.ok(forked([&] { return rm::ripemd160_digest(&st[w], (unsigned char*)nullptr) == 0; }), "nullout:" + name(), "a digest into nothing succeeds");
               m[w] = M{};
            }
#ifndef NDEBUG
            cont = false;
#endif
         }
         if (path.size() >= 2) {
            t.count("evaluations");
            // state: what each object holds
            uint64_t h = vh::fnv(m[0].ok ? m[0].fed : string("-"), 1);
            h          = vh::fnv(m[1].ok ? m[1].fed : string("-"), h);
            t.distinct("nontrivial", h);
         }
         if (cont && (int)path.size() < depth)
            go(s, m);
         path.pop_back();
      }
   };
   rm::ripemd160_state s[2];
   memset(s, 0x5a, sizeof s);
   M m[2];
   go(s, m);
}

// ---- 64-bit hash -------------------------------------------------------------------------------------------------------------------
static uint64_t established(const string& s, uint64_t seed) {
   const uint64_t mul  = 0xc6a4a7935bd1e995ull;
   auto           mixs = [](uint64_t v) { return v ^ (v >> 47); };
   uint64_t       h    = seed ^ (s.size() * mul);
   size_t         i    = 0;
   for (; i + 8 <= s.size(); i += 8) {
      uint64_t r = 0;
      for (int k = 0; k < 8; ++k) {
         r |= (uint64_t)(int64_t)(signed char)s[i + k];
         r <<= 8;
      }
      h = (h ^ mixs(r * mul) * mul) * mul;
   }
   if (i < s.size()) {
      uint64_t r = 0;
      for (size_t k = s.size(); k-- > i;) r = r << 8 | (unsigned char)s[k];
      h = (h ^ r) * mul;
   }
   return mixs(mixs(h) * mul);
}
// Keys of two and four gigabytes: one megabyte mapped again and again, hashed by the library and by the reference.
static void giant(vh::T& t) {
   std::vector<uint64_t> lens{ (1ull << 31) + 3, (1ull << 32) + 5 };
   if (t.thorough())
      for (uint64_t l : { (1ull << 31) - 1, 1ull << 31, (1ull << 32) - 8, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 8, (1ull << 32) + 4096 + 7, (3ull << 31) + 6 }) lens.push_back(l);
   for (uint64_t n : lens)
      if (t.next()) {
         t.desc("hash of a key of " + std::to_string(n) + " bytes");
         const size_t M  = 1 << 20;
         int          fd = memfd_create("key", 0);
         string       b(M, 0);
         for (size_t i = 0; i < M; ++i) b[i] = "0123456789abcdefghijklmnopqrstuvwxyz_."[(i * 31 + (i >> 5) + (i >> 11)) % 38];
         if (fd < 0 || write(fd, b.data(), M) != (ssize_t)M) {
            t.fail("setup", "no memory file");
            continue;
         }
         size_t total = (n + M - 1) / M * M;
         char*  at    = (char*)mmap(nullptr, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
         bool   ok    = at != MAP_FAILED;
         for (size_t o = 0; ok && o < total; o += M) ok = mmap(at + o, M, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) != MAP_FAILED;
         if (!ok)
            t.fail("setup", "no address space");
         else {
            for (uint64_t seed : { 0xbadd00d00ull, ~0ull }) {
               if (seed != 0xbadd00d00ull && !t.thorough())
                  continue;
               const uint64_t mul  = 0xc6a4a7935bd1e995ull;
               auto           mixs = [](uint64_t v) { return v ^ (v >> 47); };
               uint64_t       h    = seed ^ (n * mul);
               uint64_t       i    = 0;
               for (; i + 8 <= n; i += 8) {
                  const char* q = b.data() + (i & (M - 1));
                  uint64_t    r = 0;
                  for (int k = 0; k < 8; ++k) r = (r | (unsigned char)q[k]) << 8;
                  h = (h ^ mixs(r * mul) * mul) * mul;
               }
               uint64_t r = 0;
               for (uint64_t k = n; k-- > i;) r = r << 8 | (unsigned char)b[k & (M - 1)];
               if (n > i)
                  h = (h ^ r) * mul;
               h = mixs(mixs(h) * mul);
               uint64_t got = seed == 0xbadd00d00ull ? eosio::murmur64(at, n) : eosio::murmur64(at, n, seed);
               t.count("evaluations");
               t.distinct("nontrivial", n ^ seed);
               t.ok(got == h, "giant:" + std::to_string(n), "hash of " + std::to_string(n) + " bytes is " + std::to_string(got) + " established " + std::to_string(h));
            }
            munmap(at, total);
         }
         close(fd);
      }
}
static uint64_t lib_hash(const string& s, int how, uint64_t seed) {
   std::unique_ptr<char[]> b(new char[s.size()]);
   memcpy(b.get(), s.data(), s.size());
   return how ? eosio::murmur64(b.get(), s.size(), seed) : eosio::murmur64(b.get(), s.size());
}
static void hashes(vh::T& t) {
   const size_t N = t.thorough() ? 66 : 34;
   for (size_t n = 0; n <= N; ++n)
      for (int bg = 0; bg < 4; ++bg)
         if (t.next()) {
            t.desc("hash of length " + std::to_string(n));
            string base = content(n, bg);
            for (size_t p = 0; p < std::max<size_t>(n, 1); ++p) {
               std::map<uint64_t, int> seen;
               for (int c = 0; c < 256; ++c) {
                  string s = base;
                  if (n)
                     s[p] = (char)c;
                  t.count("evaluations");
                  t.distinct("nontrivial", vh::fnv(s));
                  uint64_t h = lib_hash(s, 0, 0), w = established(s, 0xbadd00d00ull);
                  t.ok(h == w, "value:" + vh::hexs(s), "hash of " + vh::hexs(s) + " is " + std::to_string(h) + " established " + std::to_string(w));
                  for (uint64_t seed : { 0ull, 1ull, ~0ull, 0x8000000000000000ull })
                     t.ok(lib_hash(s, 1, seed) == established(s, seed), "seed:" + vh::hexs(s) + std::to_string(seed), "hash of " + vh::hexs(s) + " with seed " + std::to_string(seed));
                  if (!n)
                     break;
                  auto it = seen.find(h);
                  if (it != seen.end()) {
                     string o = base;
                     o[p]     = (char)it->second;
                     bool full = p < n / 8 * 8, high = false;
                     for (size_t q = p + 1; full && q % 8 != 0; ++q) high |= (unsigned char)s[q] >= 128;
                     string what = vh::hexs(s) + " and " + vh::hexs(o) + " have the same hash";
                     if (h == w && established(o, 0xbadd00d00ull) == w && full && p % 8 == 0)
                        t.fail("murmur-lead-byte", what);
                     else if (h == w && established(o, 0xbadd00d00ull) == w && full && high)
                        t.fail("murmur-high-byte", what);
                     else
                        t.fail("same:" + vh::hexs(s), what);
                  }
                  seen[h] = c;
               }
            }
         }
   // texts over a small alphabet: distinct texts without the two recorded weaknesses differ
   if (t.next()) {
      std::map<uint64_t, string> seen;
      const string               al("\0\1a.zA", 6);
      size_t                     L = t.thorough() ? 7 : 6;
      for (size_t n = 0; n <= L; ++n) {
         std::vector<size_t> ix(n, 0);
         for (;;) {
            string s;
            for (auto i : ix) s += al[i];
            uint64_t h = lib_hash(s, 0, 0);
            t.count("evaluations");
            auto r = seen.emplace(h, s);
            t.ok(h == established(s, 0xbadd00d00ull), "value:" + vh::hexs(s), "hash of " + vh::hexs(s));
            t.ok(r.second, "same:" + vh::hexs(s), vh::hexs(s) + " and " + vh::hexs(r.first->second) + " have the same hash");
            size_t i = 0;
            while (i < n && ++ix[i] == al.size()) ix[i++] = 0;
            if (i == n)
               break;
         }
      }
   }
   constexpr uint64_t c1 = eosio::murmur64("hello world, this is it", 23);
   if (t.next())
      t.ok(c1 == established("hello world, this is it", 0xbadd00d00ull), "constexpr", "hash at compile time");
}
static void run(vh::T& t) {
#if MODE == 0
   splits(t);
   hashes(t);
#elif MODE == 2
   giant(t);
#else
   histories(t);
#endif
}
VH_MAIN(run)
