// Compiled without instrumentation.  Stands in for the sanitizer runtimes the instrumented code calls into.
#include "c12_rt.hpp"
#include <atomic>
#include <linux/futex.h>
#include <sched.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
extern "C" char __data_start, _end;
namespace rt {
static const Seg*           segs;
static int                  nsegs, at;
static Grain                grain;
static std::atomic<int>     turn{ -1 };
static std::atomic<int>     done[2];
static std::atomic<int>     open_{ 0 }; // schedule given up: both run
static std::atomic<int64_t> beat{ 0 };
static int64_t              count[2];
static int64_t              left_;
static int64_t              nswitch;
static thread_local int     self = -1;

static void wait_turn(int t) {
   int64_t last  = beat.load(std::memory_order_relaxed);
   int     stuck = 0;
   for (;;) {
      int c = turn.load(std::memory_order_acquire);
      if (c == t || open_.load(std::memory_order_acquire))
         return;
      timespec ts{ 0, 100000000 };
      syscall(SYS_futex, (int*)&turn, FUTEX_WAIT_PRIVATE, c, &ts, nullptr, 0);
      int64_t b = beat.load(std::memory_order_relaxed);
      if (turn.load(std::memory_order_acquire) == t)
         return;
      if (b != last) {
         last  = b;
         stuck = 0;
      } else if (++stuck >= 5 && c >= 0 && !done[t].load())
         open_.store(1, std::memory_order_release); // the other one is blocked, presumably on something this one holds
   }
}
static void give(int t) {
   turn.store(t, std::memory_order_release);
   syscall(SYS_futex, (int*)&turn, FUTEX_WAKE_PRIVATE, 2, nullptr, nullptr, 0);
}
void begin(const Seg* s, int n, Grain g) {
   segs  = s;
   nsegs = n;
   at    = 0;
   grain = g;
   done[0].store(0);
   done[1].store(0);
   open_.store(0);
   count[0] = count[1] = 0;
   nswitch  = 0;
   left_    = s[0].n;
   turn.store(s[0].t, std::memory_order_release);
}
static void next_seg(bool ended) {
   // called by the running thread when its segment is over
   int me = self;
   do {
      ++at;
      if (at >= nsegs) {
         left_ = -1;
         if (!ended)
            return; // no further switch: runs on
         if (!done[!me].load())
            give(!me);
         return;
      }
      left_ = segs[at].n;
   } while (done[segs[at].t].load());
   if (segs[at].t == me && !ended)
      return;
   if (!ended)
      ++nswitch;
   give(segs[at].t);
   if (!ended)
      wait_turn(me);
}
static inline void step() {
   int t = self;
   ++count[t];
   if ((count[t] & 63) == 0)
      beat.store(beat.load(std::memory_order_relaxed) + 1, std::memory_order_relaxed);
   if (open_.load(std::memory_order_relaxed))
      return;
   if (left_ > 0 && --left_ == 0)
      next_seg(false);
}
void enter(int t) {
   wait_turn(t);
   self = t;
   if (left_ == 0)
      next_seg(false);
}
void leave() {
   int me = self;
   self   = -1;
   done[me].store(1);
   if (open_.load())
      return;
   self = me;
   next_seg(true);
   self = -1;
}
// The running thread cannot go on before the other one has: let it run.  False if there is nobody to run.
static bool blocked() {
   int me = self;
   if (me < 0 || open_.load() || done[!me].load()) {
      sched_yield();
      return false;
   }
   ++nswitch;
   left_ = -1;
   give(!me);
   wait_turn(me);
   return true;
}
int64_t steps(int t) { return count[t]; }
int64_t switches() { return nswitch; }
bool    freed() { return open_.load(); }
static inline void block() {
   if (self >= 0 && grain == EVERY)
      step();
}
static inline void call() {
   if (self >= 0 && grain <= CALLS)
      step();
}
static inline void touch(void* p) {
   if (self >= 0 && (char*)p >= &__data_start && (char*)p < &_end)
      step();
}
} // namespace rt

extern "C" {
void __sanitizer_cov_trace_pc() { rt::block(); }
void __tsan_init() {}
void __tsan_func_entry(void*) { rt::call(); }
void __tsan_func_exit(void*) {}
#define RW(n)                                                                                                          \
   void __tsan_read##n(void* p) { rt::touch(p); }                                                                      \
   void __tsan_write##n(void* p) { rt::touch(p); }                                                                     \
   void __tsan_unaligned_read##n(void* p) { rt::touch(p); }                                                            \
   void __tsan_unaligned_write##n(void* p) { rt::touch(p); }                                                           \
   void __tsan_volatile_read##n(void* p) { rt::touch(p); }                                                             \
   void __tsan_volatile_write##n(void* p) { rt::touch(p); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long) { rt::touch(p); }
void __tsan_write_range(void* p, unsigned long) { rt::touch(p); }
void __tsan_vptr_update(void** p, void*) { rt::touch(p); }
void __tsan_vptr_read(void** p) { rt::touch(p); }
#define AT(n, T)                                                                                                       \
   T __tsan_atomic##n##_load(const volatile T* p, int) {                                                               \
      rt::touch((void*)p);                                                                                             \
      return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                                     \
   }                                                                                                                   \
   void __tsan_atomic##n##_store(volatile T* p, T v, int) {                                                            \
      rt::touch((void*)p);                                                                                             \
      __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                                        \
   }                                                                                                                   \
   T __tsan_atomic##n##_exchange(volatile T* p, T v, int) {                                                            \
      rt::touch((void*)p);                                                                                             \
      return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                                              \
   }                                                                                                                   \
   T __tsan_atomic##n##_fetch_add(volatile T* p, T v, int) {                                                           \
      rt::touch((void*)p);                                                                                             \
      return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST);                                                               \
   }                                                                                                                   \
   T __tsan_atomic##n##_fetch_sub(volatile T* p, T v, int) {                                                           \
      rt::touch((void*)p);                                                                                             \
      return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST);                                                               \
   }                                                                                                                   \
   T __tsan_atomic##n##_fetch_and(volatile T* p, T v, int) {                                                           \
      rt::touch((void*)p);                                                                                             \
      return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST);                                                               \
   }                                                                                                                   \
   T __tsan_atomic##n##_fetch_or(volatile T* p, T v, int) {                                                            \
      rt::touch((void*)p);                                                                                             \
      return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST);                                                                \
   }                                                                                                                   \
   T __tsan_atomic##n##_fetch_xor(volatile T* p, T v, int) {                                                           \
      rt::touch((void*)p);                                                                                             \
      return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST);                                                               \
   }                                                                                                                   \
   T __tsan_atomic##n##_fetch_nand(volatile T* p, T v, int) {                                                          \
      rt::touch((void*)p);                                                                                             \
      return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST);                                                              \
   }                                                                                                                   \
   int __tsan_atomic##n##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) {                                \
      rt::touch((void*)p);                                                                                             \
      return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                          \
   }                                                                                                                   \
   int __tsan_atomic##n##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) {                                  \
      rt::touch((void*)p);                                                                                             \
      return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                          \
   }                                                                                                                   \
   T __tsan_atomic##n##_compare_exchange_val(volatile T* p, T e, T v, int, int) {                                      \
      rt::touch((void*)p);                                                                                             \
      __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                \
      return e;                                                                                                        \
   }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}

// Waiting for a lock or for an initialisation in progress is a switch to the thread that holds it.
#include <cerrno>
#include <pthread.h>
extern "C" {
int __cxa_guard_acquire(uint64_t* g) {
   auto b = (std::atomic<uint8_t>*)g;
   for (;;) {
      if (b[0].load(std::memory_order_acquire))
         return 0;
      uint8_t no = 0;
      if (b[1].compare_exchange_strong(no, 1))
         return 1;
      rt::blocked();
   }
}
void __cxa_guard_release(uint64_t* g) {
   auto b = (std::atomic<uint8_t>*)g;
   b[0].store(1, std::memory_order_release);
   b[1].store(0);
}
void __cxa_guard_abort(uint64_t* g) {
   auto b = (std::atomic<uint8_t>*)g;
   b[1].store(0);
}
int pthread_once(pthread_once_t* o, void (*f)()) {
   auto s = (std::atomic<int>*)o;
   for (;;) {
      int v = 0;
      if (s->load(std::memory_order_acquire) == 2)
         return 0;
      if (s->compare_exchange_strong(v, 1)) {
         try {
            f();
         } catch (...) {
            s->store(0);
            throw;
         }
         s->store(2, std::memory_order_release);
         return 0;
      }
      rt::blocked();
   }
}
int pthread_mutex_lock(pthread_mutex_t* m) {
   for (;;) {
      int r = pthread_mutex_trylock(m);
      if (r != EBUSY)
         return r;
      rt::blocked();
   }
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
   for (;;) {
      int r = pthread_rwlock_tryrdlock(m);
      if (r != EBUSY)
         return r;
      rt::blocked();
   }
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
   for (;;) {
      int r = pthread_rwlock_trywrlock(m);
      if (r != EBUSY)
         return r;
      rt::blocked();
   }
}
}
