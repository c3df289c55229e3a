// Object pool: exclusive hand-out, capacity, recycling before reuse, lifetime after the pool.
#include <functional>
#include "vh.hpp"
#define CHAOS_WRAP
#include "chaos.hpp"
#include <deque>
#include <condition_variable>
#include <dottorrent/object_pool.hpp>
#include <dottorrent/data_chunk.hpp>
namespace dt = dottorrent;

static std::atomic<int> live{0}, made{0}, recycled{0}, destroyed{0};
static std::atomic<long> bad_destroy{0};
struct Tracked {
    std::atomic<bool> in_use{false};
    std::atomic<int> holders{0};
    std::string payload = "clean";       // deliberately not atomic: handed over by the pool
    Tracked() { ++live; ++made; }
    ~Tracked() { if (in_use.load()) ++bad_destroy; --live; ++destroyed; }
};
struct Policy {
    static auto construct() -> std::shared_ptr<Tracked> { return std::make_shared<Tracked>(); }
    static void recycle(std::shared_ptr<Tracked>& p) { ++recycled; p->payload = "clean"; }
};
using pool_t = dt::pool::object_pool<Tracked, Policy>;
using ptr = std::shared_ptr<Tracked>;

// a handle that tells the monitor when the last user is done
static void take(ptr& p) { ++p->holders; }
static void drop(ptr& p)
{
    if (p->holders.fetch_sub(1) == 1) p->in_use = false;
    p.reset();
}
static bool got(vh::Ctx& c, ptr& p, const std::string& what)
{
    if (!c.check(p != nullptr, "pool-null", what)) return false;
    bool was = p->in_use.exchange(true);
    c.check(!was, "pool-shared-object", what + ": object handed out while still in use");
    c.check(p->payload == "clean", "pool-not-recycled", what + ": object handed out again without having been recycled");
    p->holders = 1;
    p->payload = "dirty";
    return true;
}
static void reset() { live = made = recycled = destroyed = 0; bad_destroy = 0; }

static void sequential(vh::Ctx& c, std::uint64_t seed)
{
    vh::Rng r(seed); reset();
    int cap = 1 + r.below(6), init = r.chance(1, 2) ? 0 : r.below(cap + 1);
    std::string trace = vh::cat("capacity ", cap, " initial ", init, ": ");
    c.at("pool-sequential", trace + vh::cat("seed ", seed));
    std::optional<pool_t> pool;
    if (init || r.chance(1, 2)) pool.emplace(cap, init); else pool.emplace(cap);
    c.check(made == init, "pool-prefill", trace);
    std::vector<ptr> held; int idle = init, returned = 0;
    for (int i = 0; i < 60; ++i) {
        c.eval();
        switch (r.below(7)) {
        case 0: case 1: case 2:
            if (pool && (idle > 0 || made < cap)) {
                int m0 = made;
                auto p = pool->get(); trace += "g";
                if (!got(c, p, trace)) return;
                for (auto& h : held) c.check(h.get() != p.get() , "pool-shared-object", trace + " same object twice");
                if (idle > 0) { --idle; c.check(made == m0, "pool-constructs-needlessly", trace); } 
                held.push_back(p); p.reset();
            } break;
        case 3: case 4:
            if (!held.empty()) {
                auto k = r.below(held.size()); ptr p = std::move(held[k]); held.erase(held.begin() + k); trace += "r";
                if (r.chance(1, 3)) { ptr q = p; take(q); drop(p); int rc = recycled; c.check(rc == returned, "pool-early-return", trace + " returned while a copy is alive"); trace += "c"; drop(q); }
                else drop(p);
                if (pool) { ++idle; ++returned; }
            } break;
        case 5: if (pool && r.chance(1, 3)) { pool_t other = std::move(*pool); pool.emplace(std::move(other)); trace += "m"; } break;
        case 6: if (pool && r.chance(1, 12)) { pool.reset(); trace += "D"; idle = 0; } break;
        }
        if (pool) c.check((int)pool->size() == idle, "pool-size", [&] { return vh::cat(trace, ": size() ", pool->size(), " expected ", idle); });
        c.check(made <= cap, "pool-over-capacity", [&] { return vh::cat(trace, ": ", made.load(), " objects made"); });
        c.check(recycled == returned, "pool-recycle-count", [&] { return vh::cat(trace, ": recycled ", recycled.load(), " returned ", returned); });
        c.check(live == (pool ? idle : 0) + (int)held.size(), "pool-live-count", [&] { return vh::cat(trace, ": live ", live.load(), " idle ", idle, " held ", held.size()); });
    }
    for (auto& h : held) drop(h);
    pool.reset();
    c.check(live == 0 && bad_destroy == 0, "pool-lifetime", [&] { return vh::cat(trace, ": ", live.load(), " objects left, ", bad_destroy.load(), " destroyed in use"); });
    c.count("sequential-programs"); c.distinct(trace); c.sample(trace);
}

template <class T> struct Channel {
    std::mutex m; std::condition_variable cv; std::deque<T> q; bool closed = false;
    void push(T t) { { std::lock_guard g(m); q.push_back(std::move(t)); } cv.notify_one(); }
    void close() { { std::lock_guard g(m); closed = true; } cv.notify_all(); }
    bool pop(T& t) { std::unique_lock g(m); cv.wait(g, [&] { return closed || !q.empty(); }); if (q.empty()) return false; t = std::move(q.front()); q.pop_front(); return true; }
};

// one thread gets (the documented use), others hold, copy, forward and release; the pool may die first
static void concurrent(vh::Ctx& c, std::uint64_t seed, int gets)
{
    vh::Rng r(seed); reset();
    int cap = 1 + r.below(5), init = r.below(cap + 1), workers = 1 + r.below(4);
    bool pool_dies_first = r.chance(1, 3);
    std::string what = vh::cat("capacity ", cap, " initial ", init, " workers ", workers, " gets ", gets, pool_dies_first ? " pool dies first" : "", " seed ", seed);
    chaos::reset(seed, 10 + (seed >> 9) % 60);
    std::optional<pool_t> pool; pool.emplace(cap, init);
    std::vector<Channel<ptr>> ch(workers);
    std::atomic<int> released{0};
    std::vector<std::thread> ts;
    std::atomic<std::uint64_t> order{1469598103934665603ull};
    for (int w = 0; w < workers; ++w) ts.emplace_back([&, w] {
        vh::Rng wr(seed * 31 + w); ptr p;
        while (ch[w].pop(p)) {
            if (p->payload != "dirty") c.violation("pool-disturbed", what + ": payload of an object in use changed to " + p->payload);
            if (wr.chance(1, 3)) ::usleep(wr.below(60));
            if (wr.chance(1, 4)) { ptr q = p; take(q); drop(p); if (wr.chance(1, 2)) std::this_thread::yield();
                if (q->payload != "dirty") c.violation("pool-disturbed", what + ": object recycled while a copy is alive");
                p = std::move(q); }
            auto o = order.load(); order = (o ^ (w + 1)) * 1099511628211ull;
            ++released; drop(p);
        }
    });
    for (int i = 0; i < gets; ++i) {
        ptr p = pool->get();
        if (!got(c, p, what)) break;
        c.check(made <= cap, "pool-over-capacity", [&] { return vh::cat(what, ": ", made.load(), " objects"); });
        c.check((int)pool->size() <= cap, "pool-size", what);
        if (r.chance(1, 8)) { ptr q = p; take(q); ch[r.below(workers)].push(std::move(q)); }
        ch[r.below(workers)].push(std::move(p));
        c.count("gets");
    }
    if (pool_dies_first) { pool.reset(); c.count("pool-died-with-objects-out"); }
    for (auto& k : ch) k.close();
    for (auto& t : ts) t.join();
    if (pool) {
        c.check((int)pool->size() == made.load(), "pool-idle-count", [&] { return vh::cat(what, ": ", pool->size(), " idle of ", made.load()); });
        c.check(recycled == gets, "pool-recycle-count", [&] { return vh::cat(what, ": recycled ", recycled.load(), " of ", gets); });
        c.check(destroyed == 0, "pool-destroys", what);
    }
    pool.reset();
    c.check(live == 0 && bad_destroy == 0, "pool-lifetime", [&] { return vh::cat(what, ": ", live.load(), " objects left, ", bad_destroy.load(), " destroyed in use"); });
    c.eval(); c.count("concurrent-runs"); c.distinct(order.load());
    c.sample(what);
}

// value types that know their own shared_ptr must not keep themselves alive
struct Selfish : std::enable_shared_from_this<Selfish> { static inline std::atomic<int> live{0}; Selfish() { ++live; } ~Selfish() { --live; } };
static void selfish(vh::Ctx& c)
{
    for (int order = 0; order < 2; ++order) {
        {
            dt::pool::object_pool<Selfish> pool(3);
            auto a = pool.get(), b = pool.get();
            std::weak_ptr<Selfish> w = a->weak_from_this();
            a.reset(); auto d = pool.get(); c.check(Selfish::live == 2, "pool-live-count", "enable_shared_from_this");
            if (order) b.reset();
        }
        c.check(Selfish::live == 0, "pool-lifetime", "enable_shared_from_this object leaked"); c.eval();
    }
}

int main(int argc, char** argv)
{
    vh::Ctx c(argc, argv);
    auto batches = [&](const char* label, std::size_t total, std::size_t per, auto fn) {
        for (std::size_t i = 0; i < total; i += per) {
            auto s0 = c.rng();
            c.isolated(label, vh::cat(label, " batch seed ", s0), [&](vh::Ctx& k) {
                for (std::size_t j = 0; j < per && i + j < total; ++j) fn(k, (s0 + j * 7919) | 1);
                k.count("chaos-delays", chaos::delays.load());
            }, 100);
        }
    };
    if (c.mode != "tsan") {
        batches("pool-sequential", c.n(4000, 100000), 1000, [](vh::Ctx& k, std::uint64_t s) { sequential(k, s); });
        c.isolated("pool-selfish", "", [](vh::Ctx& k) { selfish(k); });
        batches("pool-concurrent", c.n(1200, 30000), 100, [](vh::Ctx& k, std::uint64_t s) { concurrent(k, s, 150); });
    } else
        batches("pool-race", c.n(200, 4000), 25, [](vh::Ctx& k, std::uint64_t s) { concurrent(k, s, 100); });
    return c.finish();
}
