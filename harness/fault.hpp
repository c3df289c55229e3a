// Injected faults of file input: open and read of the standard library's file streams come here first.
// The real calls are the next ones in link order, so the sanitizers still see them.
#pragma once
#include <atomic>
#include <cerrno>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <string>
#include <dlfcn.h>
#include <sys/stat.h>
#include <unistd.h>

namespace fault {
inline std::atomic<bool> on{false}, gentle{false};
inline std::atomic<long> open_in{0}, read_in{0};          // the n-th call from now fails, 0: none
inline std::atomic<std::uint64_t> state{1}, gentle_hits{0};
inline std::atomic<int> hits{0};
inline std::string root;                                     // only files below it
inline void arm(const std::string& dir, std::uint64_t seed, bool soft, long nth_open, long nth_read)
{
    root = dir;
    state = seed | 1; gentle = soft; open_in = nth_open; read_in = nth_read; hits = 0; on = true;
}
inline bool disarm() { on = false; return hits.load() != 0; }
inline std::uint64_t rnd() { auto x = state.fetch_add(0x9e3779b97f4a7c15ull); x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 27; x *= 0x94d049bb133111ebull; return x ^ x >> 31; }
inline bool due(std::atomic<long>& n) { if (n.load() <= 0) return false; if (n.fetch_sub(1) != 1) return false; hits.fetch_add(1); return true; }
template <class F> F next(std::atomic<F>& f, const char* name) { auto p = f.load(); if (!p) { p = (F)::dlsym(RTLD_NEXT, name); f = p; } return p; }
}
extern "C" {
__attribute__((used, visibility("default"))) ssize_t fault_read(int fd, void* to, size_t n) __asm__("read");
ssize_t fault_read(int fd, void* to, size_t n)
{
    using F = ssize_t (*)(int, void*, size_t); static std::atomic<F> f{nullptr}; auto real = fault::next(f, "read");
    struct stat st;
    if (fault::on.load(std::memory_order_relaxed) && n && ::fstat(fd, &st) == 0 && S_ISREG(st.st_mode)) {
        if (fault::due(fault::read_in)) { errno = EIO; return -1; }
        if (fault::gentle.load()) {
            auto x = fault::rnd();
            if (x % 8 == 0) { fault::gentle_hits.fetch_add(1); errno = EINTR; return -1; }
            if (x % 8 < 3 && n > 1) { fault::gentle_hits.fetch_add(1); n = 1 + (x >> 8) % (n - 1); }
        }
    }
    return real(fd, to, n);
}
__attribute__((used, visibility("default"))) FILE* fault_fopen(const char* path, const char* mode) __asm__("fopen");
FILE* fault_fopen(const char* path, const char* mode)
{
    using F = FILE* (*)(const char*, const char*); static std::atomic<F> f{nullptr}; auto real = fault::next(f, "fopen");
    if (fault::on.load() && mode[0] == 'r' && !std::strncmp(path, fault::root.c_str(), fault::root.size()) && fault::due(fault::open_in)) { errno = EACCES; return nullptr; }
    return real(path, mode);
}
__attribute__((used, visibility("default"))) FILE* fault_fopen64(const char* path, const char* mode) __asm__("fopen64");
FILE* fault_fopen64(const char* path, const char* mode)
{
    using F = FILE* (*)(const char*, const char*); static std::atomic<F> f{nullptr}; auto real = fault::next(f, "fopen64");
    if (fault::on.load() && mode[0] == 'r' && !std::strncmp(path, fault::root.c_str(), fault::root.size()) && fault::due(fault::open_in)) { errno = EACCES; return nullptr; }
    return real(path, mode);
}
}
