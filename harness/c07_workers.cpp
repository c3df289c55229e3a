// Worker pool (concurrent_queue_processor): exactly-once processing, drain on stop, release on cancel.
#include <functional>
#include "vh.hpp"
#define CHAOS_WRAP
#include "chaos.hpp"
#include <dottorrent/concurrent_queue_processor.hpp>
namespace dt = dottorrent;

struct Item { int id = -1; std::shared_ptr<std::atomic<int>> alive; };
using pool_t = dt::concurrent_queue_processor<Item>;

enum class End { wait_stop, stop_wait, stop_destroy, destroy, cancel_wait, cancel_destroy, never_started };
static const char* end_name[] = {"wait+stop", "stop+wait", "stop+destroy", "destroy", "cancel+wait", "cancel+destroy", "never started"};

static void one(vh::Ctx& c, std::uint64_t seed)
{
    vh::Rng r(seed);
    static const std::size_t caps[] = {1, 2, 3, 5, 8, (std::size_t)-1};
    auto cap = caps[r.below(6)];
    int cores = std::max(1u, std::thread::hardware_concurrency());
    bool all = r.chance(1, 10); int threads = all ? cores : 1 + r.below(5), producers = 1 + r.below(3), n = r.chance(1, 8) ? 0 : 1 + r.below(50);
    auto end = (End)r.below(7);
    bool prequeue = r.chance(1, 4) && cap > 100;
    int slow = r.below(4);
    if (end == End::never_started && cap < 100) n = 0;
    bool cancel = end == End::cancel_wait || end == End::cancel_destroy;
    auto what = vh::cat("capacity ", (long)cap, " threads ", threads, " producers ", producers, " items ", n, " ", end_name[(int)end],
                        prequeue ? " prequeued" : "", " slowness ", slow, " seed ", seed);
    c.at("workers", what);
    chaos::reset(seed, r.below(60));
    std::vector<std::atomic<int>> seen(n);
    std::atomic<int> in_flight{0}, peak{0}, total{0}; std::atomic<bool> over{false};
    auto alive = std::make_shared<std::atomic<int>>(0);
    std::vector<int> order; std::mutex om;
    auto work = [&](Item&& it) {
        if (over.load()) c.violation("work-after-end", what);
        int f = ++in_flight; int p = peak.load(); while (f > p && !peak.compare_exchange_weak(p, f)) {}
        if (it.id < 0 || it.id >= n) c.violation("bogus-item", vh::cat(what, ": item ", it.id));
        else if (++seen[it.id] > 1) c.violation("processed-twice", vh::cat(what, ": item ", it.id));
        { std::lock_guard g(om); order.push_back(it.id); }
        if (slow) { vh::Rng w(seed ^ (it.id * 977)); if (w.chance(slow, 6)) ::usleep(w.below(300)); else if (w.chance(1, 3)) std::this_thread::yield(); }
        ++total; --in_flight;
    };
    std::vector<int> accepted(n, 0); bool order_known = producers == 1 || prequeue;
    {
        pool_t pool(cap);
        if (r.chance(1, 2)) { pool.set_work_function(work); if (all && r.chance(1, 2)) pool.set_max_concurrency(); else pool.set_max_concurrency(all ? 0 : threads); }
        else { if (all && r.chance(1, 2)) pool.set_max_concurrency(); else pool.set_max_concurrency(all ? 0 : threads); pool.set_work_function(work); }
        auto q = pool.get_queue();
        c.check(!pool.started() && !pool.cancelled() && !pool.running() && !pool.done(), "state-before-start", what);
        auto mk = [&](int i) { return std::optional<Item>(Item{i, alive}); };
        if (prequeue || end == End::never_started) for (int i = 0; i < n; ++i) { q->push(mk(i)); accepted[i] = 1; }
        if (end == End::never_started) {
            if (r.chance(1, 2)) pool.wait();
        } else {
            pool.start();
            c.check(pool.started() && pool.running() && !pool.cancelled(), "state-after-start", what);
            std::vector<std::thread> ps; std::atomic<bool> quit{false};
            std::thread waiter;
            if (end == End::wait_stop) { waiter = std::thread([&] { pool.wait(); over = true; }); if (r.chance(2, 3)) ::usleep(r.below(3000)); }
            if (!prequeue) for (int p = 0; p < producers; ++p) ps.emplace_back([&, p] {
                for (int i = p; i < n; i += producers) {
                    auto it = mk(i);
                    if (!cancel) { q->push(std::move(it)); accepted[i] = 1; }
                    else while (!quit.load()) if (q->try_push(std::move(it))) { accepted[i] = 1; break; } else { if (!it) it = mk(i); std::this_thread::yield(); }
                }
            });
            if (cancel) {
                if (r.chance(3, 4)) ::usleep(r.below(600));
                if (r.chance(1, 2)) { quit = true; for (auto& t : ps) t.join(); ps.clear(); }
                pool.request_cancellation();
                c.check(pool.cancelled() && pool.done() && !pool.running(), "state-after-cancel", what);
                quit = true; for (auto& t : ps) t.join();
                if (r.chance(1, 3)) ::usleep(r.below(300));
                if (end == End::cancel_wait) { pool.wait(); over = true; }
            } else {
                for (auto& t : ps) t.join();
                if (r.chance(1, 2)) c.check(!pool.done(), "done-too-early", what);
                if (end != End::destroy) pool.request_stop();
                if (end == End::wait_stop) waiter.join();
                if (r.chance(1, 3)) ::usleep(r.below(400));
                if (end == End::stop_wait || end == End::wait_stop) {
                    if (end == End::stop_wait) pool.wait();
                    over = true;
                    c.check(pool.done(), "not-done-after-wait", what);
                    c.check(total == n, "lost-items", [&] { return vh::cat(what, ": ", total.load(), " processed when wait returned"); });
                }
            }
        }
    }
    over = true;
    int expect = end == End::never_started ? 0 : n;
    if (!cancel) c.check(total == expect, "lost-items", [&] { return vh::cat(what, ": processed ", total.load(), " of ", expect); });
    for (int i = 0; i < n; ++i) if (seen[i] > accepted[i]) c.violation("bogus-item", vh::cat(what, ": item ", i, " processed but refused"));
    c.check(peak <= threads, "too-many-workers", [&] { return vh::cat(what, ": ", peak.load(), " at once"); });
    if (threads == 1 && order_known) c.check(std::is_sorted(order.begin(), order.end()), "order", what);
    c.check(alive.use_count() == 1, "items-kept", [&] { return vh::cat(what, ": ", alive.use_count() - 1, " items still referenced"); });
    c.eval(); c.count("runs"); if (all) c.count("all-cores"); c.count(vh::cat("end:", end_name[(int)end])); c.count("items-processed", total.load());
    if (total.load() < n && cancel) c.count("cancelled-with-work-left");
    if (peak > 1) c.count("parallel-runs");
    std::string sig; for (int o : order) sig += char(o);
    c.distinct(vh::cat(sig, "|", (int)end, "|", threads, "|", (long)cap)); c.sample(what);
}

int main(int argc, char** argv)
{
    vh::Ctx c(argc, argv);
    bool tsan = c.mode == "tsan";
    std::size_t total = tsan ? c.n(800, 10000) : c.n(8000, 150000), per = tsan ? 50 : 100;
    for (std::size_t i = 0; i < total; i += per) {
        auto s0 = c.rng();
        c.isolated("workers", vh::cat("batch seed ", s0), [&](vh::Ctx& k) {
            for (std::size_t j = 0; j < per && i + j < total; ++j) one(k, (s0 + j * 7919) | 1);
            k.count("chaos-delays", chaos::delays.load());
        }, 100);
    }
    return c.finish();
}
