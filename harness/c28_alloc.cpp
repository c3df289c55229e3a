// Aligned allocator: alignment, usable size, overflow refusal; the standard containers over it.
#include "vh.hpp"
#include <stdexcept>
#include <dottorrent/aligned_allocator.hpp>
#include <dottorrent/data_chunk.hpp>
#include <list>
#include <deque>
#include <malloc.h>
namespace dt = dottorrent;

template <std::size_t N> struct Blob { unsigned char b[N]; bool operator==(const Blob&) const = default; };

template <class T, std::size_t A> static void blocks(vh::Ctx& c, std::size_t rounds)
{
    dt::aligned_allocator<T, A> al;
    std::string ty = vh::cat("element ", sizeof(T), " alignment ", A);
    struct Blk { T* p; std::size_t n; unsigned char fill; };
    std::vector<Blk> held;
    for (std::size_t i = 0; i < rounds; ++i) {
        if (held.size() < 24 && c.rng.chance(3, 5)) {
            std::size_t n = c.rng.chance(1, 10) ? 1 + c.rng.below(20000) : 1 + c.rng.below(130);
            c.at("allocate", vh::cat(ty, " count ", n));
            T* p = c.rng.chance(1, 4) ? al.allocate(n, (const T*)nullptr) : al.allocate(n);
            c.eval(); c.count("allocations"); c.distinct(vh::cat(ty, " ", n));
            c.check(p != nullptr && reinterpret_cast<std::uintptr_t>(p) % A == 0, "allocation-misaligned", [&] { return vh::cat(ty, " count ", n, " -> ", (void*)p); });
            c.check(malloc_usable_size(p) >= n * sizeof(T), "allocation-too-small", [&] { return vh::cat(ty, " count ", n, " -> ", malloc_usable_size(p), " bytes"); });
            auto f = (unsigned char)c.rng();
            std::memset((void*)p, f, n * sizeof(T));                   // all of it is usable
            for (auto& h : held)
                c.check((char*)p + n * sizeof(T) <= (char*)h.p || (char*)h.p + h.n * sizeof(T) <= (char*)p, "allocation-overlap", ty);
            held.push_back({p, n, f});
        } else if (!held.empty()) {
            auto k = c.rng.below(held.size()); auto h = held[k]; held.erase(held.begin() + k);
            bool ok = true;
            for (std::size_t j = 0; j < h.n * sizeof(T); ++j) ok = ok && ((unsigned char*)h.p)[j] == h.fill;
            c.check(ok, "allocation-overlap", ty);
            c.at("deallocate", ty);
            al.deallocate(h.p, h.n);
        }
    }
    for (auto& h : held) al.deallocate(h.p, h.n);
    // requests that cannot be represented or served are refused
    const std::size_t M = ~std::size_t(0);
    std::vector<std::size_t> big{M, M - 1, M / 2 + 1, M / sizeof(T), M / sizeof(T) + 1, M / sizeof(T) - A, M / sizeof(T) - 1, M / sizeof(T) / 2 + 3};
    for (std::size_t k = 1; k < 64; ++k) { big.push_back((M - k) / sizeof(T)); if (sizeof(T) > 1) big.push_back(M / sizeof(T) + k); }
    for (auto n : big) {
        if (n < (std::size_t(1) << 50)) continue;
        c.at("allocate-huge", vh::cat(ty, " count ", n));
        c.eval(); c.count("impossible-requests"); c.distinct(vh::cat(ty, " ", n));
        T* p = nullptr;
        auto e = vh::Ctx::throws([&] { p = al.allocate(n); });
        c.check(e.has_value(), "allocation-overflow", [&] { return vh::cat(ty, " count ", n, " returned ", (void*)p); });
        if (!e && p) al.deallocate(p, n);
    }
    c.check(al.max_size() <= M / sizeof(T), "max-size", ty);
    dt::aligned_allocator<T, A> b; dt::aligned_allocator<char, A> other; dt::aligned_allocator<T, A> conv(other);
    c.check(al == b && !(al != b) && conv == al, "allocators-differ", ty);
    T* p = al.allocate(0); al.deallocate(p, 0);
}

template <class T, std::size_t A> static void vectors(vh::Ctx& c, std::size_t rounds, auto make)
{
    std::vector<T, dt::aligned_allocator<T, A>> v, w; std::vector<T> mv, mw;
    std::string trace;
    for (std::size_t i = 0; i < rounds; ++i) {
        c.eval();
        switch (c.rng.below(12)) {
        case 0: case 1: case 2: { auto t = make(); v.push_back(t); mv.push_back(t); break; }
        case 3: { auto n = c.rng.below(500); auto t = make(); v.resize(n, t); mv.resize(n, t); break; }
        case 4: { auto n = c.rng.below(1200); v.reserve(n); mv.reserve(n); break; }
        case 5: v.shrink_to_fit(); mv.shrink_to_fit(); break;
        case 6: w = v; mw = mv; break;
        case 7: std::swap(v, w); std::swap(mv, mw); break;
        case 8: v = std::move(w); mv = std::move(mw); w.clear(); mw.clear(); break;
        case 9: { auto x = v; c.check(std::equal(x.begin(), x.end(), mv.begin(), mv.end()), "vector-content", "copy"); break; }
        case 10: if (!mv.empty()) { auto k = c.rng.below(mv.size()); v.erase(v.begin() + k); mv.erase(mv.begin() + k); } break;
        case 11: { auto k = c.rng.below(mv.size() + 1); auto t = make(); v.insert(v.begin() + k, t); mv.insert(mv.begin() + k, t); break; }
        }
        c.check(std::equal(v.begin(), v.end(), mv.begin(), mv.end()) && std::equal(w.begin(), w.end(), mw.begin(), mw.end()), "vector-content", vh::cat("element ", sizeof(T), " alignment ", A));
        c.check(v.empty() || reinterpret_cast<std::uintptr_t>(v.data()) % A == 0, "vector-misaligned", vh::cat("element ", sizeof(T), " alignment ", A));
        c.count("vector-steps");
    }
}
int main(int argc, char** argv)
{
    vh::Ctx c(argc, argv);
    auto n = c.n(3200, 80000);
    blocks<std::byte, 64>(c, n); blocks<char, 16>(c, n); blocks<char, 4096>(c, n / 4); blocks<std::uint32_t, 32>(c, n); blocks<double, 64>(c, n);
    blocks<Blob<3>, 64>(c, n); blocks<Blob<24>, 128>(c, n); blocks<Blob<65>, 64>(c, n); blocks<Blob<1000>, 256>(c, n / 4); blocks<std::uint64_t, 8>(c, n);
    auto m = c.n(4000, 100000);
    vectors<std::byte, 64>(c, m, [&] { return std::byte(c.rng()); });
    vectors<std::uint64_t, 128>(c, m, [&] { return c.rng(); });
    vectors<std::string, 64>(c, m, [&] { return c.rng.str(c.rng.below(40), "abcdef"); });
    vectors<Blob<3>, 32>(c, m, [&] { Blob<3> b; for (auto& x : b.b) x = (unsigned char)c.rng(); return b; });
    // chunks of file data, as used by the readers
    for (std::size_t i = 0, k = c.n(400, 4000); i < k; ++i) {
        auto s = 1 + c.rng.below(70000);
        auto d = std::make_shared<dt::data_chunk::data_type>(s);
        c.check(reinterpret_cast<std::uintptr_t>(d->data()) % 64 == 0 && d->size() == s, "chunk-misaligned", std::to_string(s));
        std::memset(d->data(), 1, s); c.count("chunks"); c.eval();
    }
    std::list<int, dt::aligned_allocator<int, 64>> l; for (int i = 0; i < 200; ++i) l.push_back(i);
    int j = 0; for (int x : l) c.check(x == j++, "list-content", "");
    return c.finish();
}
