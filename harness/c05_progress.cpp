// Bounded queue, progress: balanced workloads must finish. The verdict is a quiescence
// monitor (every thread of the run asleep in an untimed wait, no context switches), not a
// stopwatch; delays are injected around the queue's lock and notify operations.
#include "vh.hpp"
#define CHAOS_WRAP
#include "chaos.hpp"
#include <dottorrent/concurrent_queue.hpp>
namespace dt = dottorrent;

static void start_together(std::atomic<int>& ready, int n) { ready.fetch_add(1); while (ready.load() < n) sched_yield(); }

// producers/consumers; some use only the non-blocking operations
static void balanced(vh::Ctx& c, std::uint64_t seed)
{
    vh::Rng r(seed);
    std::size_t cap = 1 + r.below(r.chance(2, 3) ? 2 : 8), np = 1 + r.below(5), nc = 1 + r.below(5);
    std::size_t total = np * nc * (2 + r.below(20));
    unsigned pmode = (unsigned)r.below(3), cmode = (unsigned)r.below(3); // 0 blocking, 1 non-blocking, 2 mixed
    c.at("queue-progress-balanced", vh::cat("np ", np, " nc ", nc, " cap ", cap, " total ", total, " modes ", pmode, cmode, " seed ", seed));
    dt::concurrent_queue<std::uint64_t> q(cap);
    std::atomic<int> ready{0}; std::atomic<std::uint64_t> sum{0}, blocked{0};
    chaos::reset(seed, (unsigned)r.below(140));
    std::vector<std::thread> ts;
    for (std::size_t p = 0; p < np; ++p) ts.emplace_back([&, p] {
        start_together(ready, (int)(np + nc));
        for (std::size_t i = 0; i < total / np; ++i) {
            std::uint64_t v = p * 1000000 + i + 1;
            if (pmode == 0 || (pmode == 2 && (i & 1))) { if (i & 2) q.push(v); else q.push(std::move(v)); }
            else for (auto w = v; !q.try_push(std::move(w)); w = v) { blocked.fetch_add(1, std::memory_order_relaxed); sched_yield(); }
        }
    });
    for (std::size_t k = 0; k < nc; ++k) ts.emplace_back([&, k] {
        start_together(ready, (int)(np + nc));
        for (std::size_t i = 0; i < total / nc; ++i) {
            std::uint64_t v = 0;
            if (cmode == 0 || (cmode == 2 && (i & 1))) q.pop(v);
            else while (!q.try_pop(v)) { sched_yield(); }
            sum.fetch_add(v, std::memory_order_relaxed);
        }
    });
    for (auto& t : ts) t.join();
    chaos::reset(1, 0);
    std::uint64_t want = 0;
    for (std::size_t p = 0; p < np; ++p) for (std::size_t i = 0; i < total / np; ++i) want += p * 1000000 + i + 1;
    c.check(sum.load() == want && q.size() == 0, "queue-progress-wrong-total", [&] { return vh::cat("seed ", seed); });
    c.eval(); c.count("balanced-runs"); c.count("operations", 2 * total);
    c.distinct(vh::cat("b", np, nc, cap, pmode, cmode, total));
    if (seed % 61 == 0) c.sample(vh::cat("producers ", np, " consumers ", nc, " capacity ", cap, " items ", total, " modes ", pmode, cmode));
}

// all consumers blocked first, then a burst; and all producers blocked first, then a burst of pops
static void bursts(vh::Ctx& c, std::uint64_t seed)
{
    vh::Rng r(seed);
    std::size_t n = 2 + r.below(6), cap = 1 + r.below(n);
    bool consumers = r.chance(1, 2), nonblock = r.chance(1, 2);
    c.at("queue-progress-burst", vh::cat("n ", n, " cap ", cap, " consumers ", consumers, " nonblocking ", nonblock, " seed ", seed));
    dt::concurrent_queue<int> q(cap);
    std::atomic<int> ready{0};
    std::vector<std::thread> ts;
    if (!consumers) for (std::size_t i = 0; i < cap; ++i) q.push(1);
    chaos::reset(seed, (unsigned)r.below(140));
    for (std::size_t i = 0; i < n; ++i) ts.emplace_back([&] { ready.fetch_add(1); int v = 0; if (consumers) q.pop(v); else q.push(7); });
    while (ready.load() < (int)n) sched_yield();
    ::usleep(r.below(400));
    for (std::size_t i = 0; i < n; ++i) {
        int v = 0;
        if (consumers) { if (nonblock) { while (!q.try_push(3)) sched_yield(); } else q.push(3); }
        else { if (nonblock) { while (!q.try_pop(v)) sched_yield(); } else q.pop(v); }
    }
    for (auto& t : ts) t.join();
    chaos::reset(1, 0);
    c.eval(); c.count("burst-runs"); c.count("operations", 2 * n); c.distinct(vh::cat("u", n, cap, consumers, nonblock));
}

// producers blocked on a full queue; growing the capacity must let them go on
static void grow(vh::Ctx& c, std::uint64_t seed)
{
    vh::Rng r(seed);
    std::size_t cap = r.below(3), n = 1 + r.below(5);
    c.at("queue-progress-grow", vh::cat("cap ", cap, " producers ", n, " seed ", seed));
    dt::concurrent_queue<int> q(cap);
    for (std::size_t i = 0; i < cap; ++i) q.push(1);
    std::atomic<int> ready{0};
    std::vector<std::thread> ts;
    chaos::reset(seed, (unsigned)r.below(100));
    for (std::size_t i = 0; i < n; ++i) ts.emplace_back([&] { ready.fetch_add(1); q.push(2); });
    while (ready.load() < (int)n) sched_yield();
    ::usleep(r.below(600));
    if (r.chance(1, 2)) q.set_capacity(cap + n);
    else for (std::size_t i = 1; i <= n; ++i) { q.set_capacity(cap + i); if (r.chance(1, 2)) sched_yield(); }
    for (auto& t : ts) t.join();
    chaos::reset(1, 0);
    c.check(q.size() == cap + n, "queue-progress-grow-size", [&] { return vh::cat("size ", q.size(), " seed ", seed); });
    c.eval(); c.count("grow-runs"); c.distinct(vh::cat("g", cap, n));
}

int main(int argc, char** argv)
{
    vh::Ctx c(argc, argv);
    auto batches = [&](const char* label, std::size_t total, std::size_t per, auto fn) {
        for (std::size_t i = 0; i < total; i += per) {
            auto s0 = c.rng();
            c.isolated(label, vh::cat(label, " batch seed ", s0), [&](vh::Ctx& k) {
                for (std::size_t j = 0; j < per && i + j < total; ++j) fn(k, (s0 + j * 7919) | 1);
                k.count("chaos-points", chaos::points.load()); k.count("chaos-delays", chaos::delays.load());
            }, 100);
            if (c.violation_count() > 3) return;
        }
    };
    batches("queue-grow", c.n(800, 10000), 200, grow);
    batches("queue-burst", c.n(6000, 100000), 500, bursts);
    batches("queue-balanced", c.n(3000, 60000), 250, balanced);
    return c.finish();
}
