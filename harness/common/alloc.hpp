// Replaces the global allocation functions: live/peak accounting, a cap on the size of a single request, and
// failure of the n-th allocation.  Include in exactly one translation unit (the harness).
#pragma once
#include <cstdint>
#include <cstdlib>
#include <malloc.h>
#include <new>

namespace vh_alloc {
inline uint64_t count     = 0;             // allocations so far
inline int64_t  live      = 0;             // live allocations (blocks)
inline uint64_t live_b    = 0;             // live bytes (requested sizes are not known on free: usable size)
inline uint64_t peak_b    = 0;             // highest live_b since reset
inline uint64_t largest   = 0;             // largest request since reset
inline uint64_t cap       = ~uint64_t(0);  // larger requests throw bad_alloc
inline uint64_t fail_at   = 0;             // countdown: 1 fails the next one; 0 is off
inline uint64_t then      = 0;             // countdown armed after a failure: 1 fails all later ones
inline bool     failed    = false;
inline void     reset() {
   peak_b  = live_b;
   largest = 0;
   count   = 0;
   failed  = false;
}
inline void* get(size_t n) {
   ++count;
   if (n > largest)
      largest = n;
   if (fail_at && --fail_at == 0) {
      failed = true;
      fail_at = then;
      if (then != 1)
         then = 0;
      throw std::bad_alloc();
   }
   if (n > cap)
      throw std::bad_alloc();
   void* p = malloc(n ? n : 1);
   if (!p)
      throw std::bad_alloc();
   ++live;
   live_b += malloc_usable_size(p);
   if (live_b > peak_b)
      peak_b = live_b;
   return p;
}
inline void put(void* p) {
   if (!p)
      return;
   --live;
   live_b -= malloc_usable_size(p);
   free(p);
}
} // namespace vh_alloc

void* operator new(size_t n) { return vh_alloc::get(n); }
void* operator new[](size_t n) { return vh_alloc::get(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept {
   try {
      return vh_alloc::get(n);
   } catch (...) { return nullptr; }
}
void* operator new[](size_t n, const std::nothrow_t&) noexcept {
   try {
      return vh_alloc::get(n);
   } catch (...) { return nullptr; }
}
void operator delete(void* p) noexcept { vh_alloc::put(p); }
void operator delete[](void* p) noexcept { vh_alloc::put(p); }
void operator delete(void* p, size_t) noexcept { vh_alloc::put(p); }
void operator delete[](void* p, size_t) noexcept { vh_alloc::put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { vh_alloc::put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { vh_alloc::put(p); }
