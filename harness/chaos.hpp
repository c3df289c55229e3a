// Injected scheduling noise: the linker redirects the code's mutex and condition-variable
// operations here (ld --wrap), so delays fall exactly between its critical sections, with no
// change to the code under test.
#pragma once
#include <atomic>
#include <condition_variable>
#include <cstdint>
#include <mutex>
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>

namespace chaos {
inline std::atomic<unsigned> level{0};          // 0: off, n: a delay at about n of 256 points
inline std::atomic<std::uint64_t> base{1};
inline std::atomic<std::uint64_t> points{0}, delays{0};
inline thread_local std::uint64_t st = 0;
inline std::atomic<std::uint64_t> tid{1};
inline thread_local std::uint64_t seen_base = 0;
inline std::uint64_t rnd()
{
    auto b = base.load(std::memory_order_relaxed);
    if (st == 0 || seen_base != b) { seen_base = b; st = b * 0x9e3779b97f4a7c15ull + tid.fetch_add(1, std::memory_order_relaxed) * 0xbf58476d1ce4e5b9ull | 1; }
    st ^= st << 13; st ^= st >> 7; st ^= st << 17; return st;
}
__attribute__((noinline)) inline void point()
{
    auto l = level.load(std::memory_order_relaxed);
    if (!l) return;
    points.fetch_add(1, std::memory_order_relaxed);
    auto r = rnd();
    if ((r & 255) >= l) return;
    delays.fetch_add(1, std::memory_order_relaxed);
    switch ((r >> 8) & 7) {
    case 0: case 1: case 2: case 3: sched_yield(); break;
    case 4: case 5: for (volatile int i = 0; i < int((r >> 16) & 1023); i = i + 1) {} break;
    default: { timespec t{0, long((r >> 16) % 80000)}; ::nanosleep(&t, nullptr); }
    }
}
inline void reset(std::uint64_t seed, unsigned lvl)
{ base.store(seed | 1, std::memory_order_relaxed); level.store(lvl, std::memory_order_relaxed); }
}

#ifdef CHAOS_WRAP
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
inline __attribute__((used)) int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { chaos::point(); return __real_pthread_mutex_lock(m); }
inline __attribute__((used)) int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { int r = __real_pthread_mutex_unlock(m); chaos::point(); return r; }
// std::condition_variable::notify_one / notify_all
void __real__ZNSt18condition_variable10notify_oneEv(std::condition_variable*);
void __real__ZNSt18condition_variable10notify_allEv(std::condition_variable*);
inline __attribute__((used)) void __wrap__ZNSt18condition_variable10notify_oneEv(std::condition_variable* c) { chaos::point(); __real__ZNSt18condition_variable10notify_oneEv(c); chaos::point(); }
inline __attribute__((used)) void __wrap__ZNSt18condition_variable10notify_allEv(std::condition_variable* c) { chaos::point(); __real__ZNSt18condition_variable10notify_allEv(c); chaos::point(); }
}
#endif
