// Bounded queue, safety: histories recorded at the callers' boundary.
//  small histories: complete linearizability search against a sequential bounded queue
//  large histories: exactly-once, real-time FIFO order, capacity bound, item lifetime
#include "vh.hpp"
#define CHAOS_WRAP
#include "chaos.hpp"
#include <dottorrent/concurrent_queue.hpp>
#include <deque>
namespace dt = dottorrent;

struct Token {
    static inline std::atomic<long> live{0};
    std::uint64_t id;
    explicit Token(std::uint64_t i) : id(i) { live.fetch_add(1, std::memory_order_relaxed); }
    ~Token() { live.fetch_sub(1, std::memory_order_relaxed); }
};

enum Op { PUSH, PUSHC, TRY_PUSH, POP, TRY_POP, SIZE, CAP };
static const char* names[] = {"push", "push_copy", "try_push", "pop", "try_pop", "size", "set_capacity"};
struct Ev { int thread; Op op; std::uint64_t arg; bool ok; std::uint64_t res; std::uint64_t t0, t1; };

static std::string show(const std::vector<Ev>& h)
{
    std::ostringstream o;
    for (auto& e : h) o << "t" << e.thread << " [" << e.t0 << "," << e.t1 << "] " << names[e.op] << "(" << e.arg << ") -> " << e.ok << "," << e.res << "\n";
    return o.str();
}

// Wing & Gong search with memo over (linearised set, queue contents, capacity)
struct Lin {
    const std::vector<Ev>& h; std::set<std::string> seen; std::uint64_t steps = 0;
    bool go(std::uint64_t done, std::deque<std::uint64_t>& q, std::size_t cap)
    {
        if (done == (h.size() == 64 ? ~0ull : (1ull << h.size()) - 1)) return true;
        std::string key((char*)&done, 8); key.append((char*)&cap, 8);
        for (auto v : q) key.append((char*)&v, 8);
        if (!seen.insert(key).second) return false;
        if (++steps > 2000000) throw std::runtime_error("search limit");
        std::uint64_t min_ret = ~0ull;
        for (std::size_t i = 0; i < h.size(); ++i) if (!(done >> i & 1)) min_ret = std::min(min_ret, h[i].t1);
        for (std::size_t i = 0; i < h.size(); ++i) {
            if (done >> i & 1) continue;
            auto& e = h[i];
            if (e.t0 > min_ret) continue;
            auto d2 = done | 1ull << i;
            switch (e.op) {
            case PUSH: case PUSHC: if (q.size() < cap) { q.push_back(e.arg); if (go(d2, q, cap)) return true; q.pop_back(); } break;
            case TRY_PUSH:
                if (e.ok) { if (q.size() < cap) { q.push_back(e.arg); if (go(d2, q, cap)) return true; q.pop_back(); } }
                else if (q.size() >= cap && go(d2, q, cap)) return true;
                break;
            case POP: case TRY_POP:
                if (!e.ok) { if (q.empty() && go(d2, q, cap)) return true; }
                else if (!q.empty() && q.front() == e.res) { auto v = q.front(); q.pop_front(); if (go(d2, q, cap)) return true; q.push_front(v); }
                break;
            case SIZE: if (q.size() == e.res && go(d2, q, cap)) return true; break;
            case CAP: if (go(d2, q, e.arg)) return true; break;
            }
        }
        return false;
    }
};

// One small concurrent program; T is either copyable id or move-only token
static void small(vh::Ctx& c, std::uint64_t seed)
{
    vh::Rng r(seed);
    std::size_t cap0 = 1 + r.below(3), nthreads = 2 + r.below(3);
    bool with_cap = r.chance(1, 4);
    dt::concurrent_queue<std::uint64_t> q(cap0);
    std::atomic<std::uint64_t> clock{1};
    std::vector<std::vector<std::pair<Op, std::uint64_t>>> prog(nthreads);
    std::uint64_t id = 1; std::size_t total = 0;
    for (auto& p : prog)
        for (std::size_t i = 0, n = 2 + r.below(3); i < n && total < 14; ++i, ++total) {
            auto x = r.below(with_cap ? 22 : 20);
            Op op = x < 4 ? PUSH : x < 6 ? PUSHC : x < 10 ? TRY_PUSH : x < 14 ? POP : x < 17 ? TRY_POP : x < 20 ? SIZE : CAP;
            p.emplace_back(op, op == CAP ? 1 + r.below(4) : op <= TRY_PUSH ? id++ : 0);
        }
    std::vector<std::vector<Ev>> log(nthreads + 1);
    std::atomic<int> ready{0}; std::atomic<std::size_t> finished{0};
    chaos::reset(seed, r.chance(1, 3) ? 0 : (unsigned)r.below(160));
    std::vector<std::thread> ts;
    for (std::size_t t = 0; t < nthreads; ++t)
        ts.emplace_back([&, t] {
            ready.fetch_add(1); while (ready.load() < (int)nthreads) sched_yield();
            for (auto [op, arg] : prog[t]) {
                Ev e{(int)t, op, arg, true, 0, clock.fetch_add(1), 0};
                std::uint64_t v = 0;
                switch (op) {
                case PUSH: { auto a = arg; q.push(std::move(a)); break; }
                case PUSHC: q.push(arg); break;
                case TRY_PUSH: { auto a = arg; e.ok = q.try_push(std::move(a)); break; }
                case POP: q.pop(v); e.res = v; break;
                case TRY_POP: e.ok = q.try_pop(v); e.res = e.ok ? v : 0; break;
                case SIZE: e.res = q.size(); break;
                case CAP: q.set_capacity(arg); break;
                }
                e.t1 = clock.fetch_add(1);
                log[t].push_back(e);
            }
            finished.fetch_add(1);
        });
    // rescuer: lets threads blocked on a full/empty queue go on; successful operations are part of the history
    std::uint64_t rescue = 1000; std::size_t spins = 0, rescues = 0;
    while (finished.load() < nthreads) {
        if (++spins < 40) { ::usleep(50); continue; }
        ::usleep(300);
        if (rescues > 30) break;
        std::uint64_t v = 0;
        Ev e{(int)nthreads, TRY_POP, 0, true, 0, clock.fetch_add(1), 0};
        if (r.chance(1, 2)) { if (!q.try_pop(v)) continue; e.res = v; }
        else { auto a = rescue; if (!q.try_push(std::move(a))) continue; e.op = TRY_PUSH; e.arg = rescue++; }
        e.t1 = clock.fetch_add(1);
        log[nthreads].push_back(e); ++rescues;
    }
    for (auto& t : ts) t.join();
    chaos::reset(1, 0);
    std::vector<Ev> h;
    for (auto& l : log) h.insert(h.end(), l.begin(), l.end());
    // drain sequentially, in the history
    for (;;) { std::uint64_t v = 0; Ev e{(int)nthreads, TRY_POP, 0, true, 0, clock.fetch_add(1), 0}; e.ok = q.try_pop(v); e.res = e.ok ? v : 0; e.t1 = clock.fetch_add(1); h.push_back(e); if (!e.ok) break; }
    c.eval(); c.count("small-histories"); c.count("operations", h.size());
    if (h.size() > 60) { c.count("small-histories-too-long"); return; }
    auto order = h; std::sort(order.begin(), order.end(), [](auto& a, auto& b) { return a.t1 < b.t1; });
    std::string fp; for (auto& e : order) { fp.push_back((char)('a' + e.thread)); fp.push_back((char)('0' + e.op)); fp.push_back(e.ok ? '+' : '-'); }
    c.distinct(fp);
    Lin l{h, {}, 0};
    std::deque<std::uint64_t> st;
    try {
        bool ok = l.go(0, st, cap0);
        c.count("search-steps", l.steps);
        c.check(ok, "queue-not-linearizable", [&] { return vh::cat("capacity ", cap0, " seed ", seed, "\n", show(order)); });
    } catch (const std::exception&) { c.count("search-limit"); }
    if (seed % 997 == 0) c.sample(vh::cat("capacity ", cap0, "\n", show(order)));
}

// Larger run with move-only items
static void large(vh::Ctx& c, std::uint64_t seed, bool stamps)
{
    vh::Rng r(seed);
    std::size_t cap = 1 + r.below(r.chance(1, 2) ? 3 : 40), np = 1 + r.below(4), nc = 1 + r.below(4), per = 60 + r.below(240);
    bool trypush = r.chance(1, 3), trypop = r.chance(1, 3);
    std::vector<std::vector<Ev>> plog(np), clog(nc);
    std::atomic<std::uint64_t> clock{1};
    auto now = [&]() -> std::uint64_t { return stamps ? clock.fetch_add(1) : 0; };
    std::vector<std::uint64_t> order;
    long live0 = Token::live.load();
    std::size_t left_over = r.below(std::min<std::size_t>(cap, np * per) + 1);
    std::size_t max_size = 0;
    {
        dt::concurrent_queue<std::unique_ptr<Token>> q(cap);
        chaos::reset(seed, (unsigned)r.below(100));
        std::atomic<long> to_pop{(long)(np * per - left_over)};
        std::atomic<bool> stop{false};
        std::vector<std::thread> ts;
        for (std::size_t p = 0; p < np; ++p)
            ts.emplace_back([&, p] {
                for (std::size_t i = 0; i < per; ++i) {
                    auto idv = (p + 1) << 32 | i;
                    auto item = std::make_unique<Token>(idv);
                    Ev e{(int)p, PUSH, idv, true, 0, now(), 0};
                    if (trypush && (i & 1)) {
                        while (!q.try_push(std::move(item))) {
                            if (!item || item->id != idv) { c.violation("queue-refused-item-lost", vh::cat("try_push returned false but took the item; seed ", seed)); return; }
                            sched_yield(); e.t0 = now();
                        }
                        e.op = TRY_PUSH;
                    } else q.push(std::move(item));
                    e.t1 = now(); plog[p].push_back(e);
                }
            });
        for (std::size_t k = 0; k < nc; ++k)
            ts.emplace_back([&, k] {
                while (to_pop.fetch_sub(1, std::memory_order_relaxed) > 0) {
                    std::unique_ptr<Token> item;
                    Ev e{(int)(np + k), POP, 0, true, 0, now(), 0};
                    if (trypop && (clog[k].size() & 1)) { while (!q.try_pop(item)) { sched_yield(); e.t0 = now(); } e.op = TRY_POP; }
                    else q.pop(item);
                    e.t1 = now(); e.res = item ? item->id : 0; clog[k].push_back(e);
                }
            });
        std::thread watch([&] { while (!stop.load()) { max_size = std::max(max_size, q.size()); sched_yield(); } });
        for (auto& t : ts) t.join();
        stop = true; watch.join();
        chaos::reset(1, 0);
        auto sz = q.size();
        c.check(sz == left_over, "queue-conservation", [&] { return vh::cat("size ", sz, " expected ", left_over, " seed ", seed); });
        if (stamps && r.chance(1, 2)) { // drain
            std::unique_ptr<Token> item;
            for (;;) { Ev e{99, TRY_POP, 0, true, 0, now(), 0}; if (!q.try_pop(item)) break; e.t1 = now(); e.res = item->id; clog[0].push_back(e); left_over--; }
        }
    }
    std::map<std::uint64_t, Ev> pushed, popped;
    for (auto& l : plog) for (auto& e : l) pushed.emplace(e.arg, e);
    bool dup = false;
    for (auto& l : clog) for (auto& e : l) if (!popped.emplace(e.res, e).second) dup = true;
    c.eval(); c.count("large-histories"); c.count("operations", pushed.size() + popped.size());
    auto where = vh::cat("producers ", np, " consumers ", nc, " capacity ", cap, " items/producer ", per, " try_push ", trypush, " try_pop ", trypop, " seed ", seed);
    c.check(!dup, "queue-duplicate", [&] { return where; });
    for (auto& [v, e] : popped) c.check(pushed.count(v), "queue-invented", [&] { return vh::cat(where, " item ", v); });
    c.check(popped.size() + left_over == pushed.size(), "queue-lost", [&] { return vh::cat(where, " popped ", popped.size(), " left ", left_over, " pushed ", pushed.size()); });
    c.check(max_size <= cap, "queue-over-capacity", [&] { return vh::cat(where, " size() reported ", max_size); });
    c.check(Token::live.load() == live0, "queue-item-lifetime", [&] { return vh::cat(where, " live items after destruction: ", Token::live.load() - live0); });
    // per consumer, the items of one producer come in order
    for (auto& l : clog) {
        std::map<std::uint64_t, std::uint64_t> last;
        for (auto& e : l) {
            auto p = e.res >> 32; auto it = last.find(p);
            if (it != last.end()) c.check(it->second < e.res, "queue-fifo-per-producer", [&] { return vh::cat(where, " ", it->second, " then ", e.res); });
            last[p] = e.res;
        }
    }
    if (stamps) {
        // real-time FIFO: push(a) returned before push(b) began, b popped (returned) before pop(a) began => violation
        std::vector<std::pair<Ev, Ev>> pp;
        for (auto& [v, e] : pushed) { auto it = popped.find(v); pp.emplace_back(e, it == popped.end() ? Ev{-1, POP, 0, true, v, ~0ull, ~0ull} : it->second); }
        std::sort(pp.begin(), pp.end(), [](auto& a, auto& b) { return a.first.t1 < b.first.t1; });
        // sweep b by push begin; maintain the latest pop-begin over all a with push-return < b.push-begin
        std::vector<std::size_t> byb(pp.size()); for (std::size_t i = 0; i < byb.size(); ++i) byb[i] = i;
        std::sort(byb.begin(), byb.end(), [&](auto a, auto b) { return pp[a].first.t0 < pp[b].first.t0; });
        std::size_t ai = 0; std::uint64_t latest = 0; std::uint64_t wa = 0;
        for (auto bi : byb) {
            auto& b = pp[bi];
            while (ai < pp.size() && pp[ai].first.t1 < b.first.t0) { if (pp[ai].second.t0 > latest) { latest = pp[ai].second.t0; wa = pp[ai].first.arg; } ++ai; }
            c.check(!(b.second.t1 < latest), "queue-fifo-realtime", [&] { return vh::cat(where, " item ", b.first.arg, " overtook ", wa); });
        }
        // capacity: completed pushes minus begun pops is a lower bound of the size
        std::vector<std::pair<std::uint64_t, int>> ev;
        for (auto& [v, e] : pushed) ev.emplace_back(e.t1, +1);
        for (auto& [v, e] : popped) ev.emplace_back(e.t0, -1);
        std::sort(ev.begin(), ev.end());
        long n = 0, mx = 0; for (auto& [t, d] : ev) { n += d; mx = std::max(mx, n); }
        c.check(mx <= (long)cap, "queue-over-capacity", [&] { return vh::cat(where, " at least ", mx, " items held"); });
        c.count("max-observed-fill-reached-capacity", max_size == cap);
    }
    std::string fp = where.substr(0, where.find(" seed"));
    for (auto& l : clog) for (std::size_t i = 0; i < l.size() && i < 24; ++i) fp += std::to_string(l[i].res >> 32);
    c.distinct(fp);
}

// shrinking and growing the capacity, sequentially, against a model
static void sequential(vh::Ctx& c, std::uint64_t seed)
{
    vh::Rng r(seed);
    std::size_t cap = r.below(5);
    dt::concurrent_queue<std::string> q(cap); std::deque<std::string> m;
    std::string trace = vh::cat("cap ", cap, ": ");
    for (int i = 0; i < 60; ++i) {
        c.eval();
        switch (r.below(6)) {
        case 0: if (m.size() < cap) { auto s = r.str(20, "abc"); q.push(s); m.push_back(s); trace += "P"; } break;
        case 1: if (m.size() < cap) { auto s = r.str(20, "abc"); m.push_back(s); q.push(std::move(s)); trace += "p"; } break;
        case 2: { auto s = r.str(20, "abc"); auto keep = s; bool ok = q.try_push(std::move(s)); trace += ok ? "T" : "t";
            c.check(ok == (m.size() < cap), "queue-try-push-capacity", [&] { return vh::cat(trace, " held ", m.size(), " capacity ", cap, " accepted ", ok); });
            if (ok) m.push_back(keep); else c.check(s == keep, "queue-refused-item-lost", [&] { return trace; });
            break; }
        case 3: if (!m.empty()) { std::string s; q.pop(s); trace += "O"; c.check(s == m.front(), "queue-order", [&] { return trace; }); m.pop_front(); } break;
        case 4: { std::string s = "unchanged"; bool ok = q.try_pop(s); trace += ok ? "o" : "_";
            c.check(ok == !m.empty() && (ok ? s == m.front() : s == "unchanged"), "queue-try-pop", [&] { return trace; });
            if (ok && !m.empty()) m.pop_front(); break; }
        case 5: cap = r.below(6); q.set_capacity(cap); trace += vh::cat("C", cap); break;
        }
        c.check(q.size() == m.size(), "queue-size", [&] { return trace; });
    }
    c.count("sequential-programs"); c.distinct(trace);
}

int main(int argc, char** argv)
{
    vh::Ctx c(argc, argv);
    bool tsan = c.mode == "tsan";
    auto batches = [&](const char* label, std::size_t total, std::size_t per, auto fn) {
        for (std::size_t i = 0; i < total; i += per) {
            auto s0 = c.rng();
            c.isolated(label, vh::cat(label, " batch seed ", s0), [&](vh::Ctx& k) {
                for (std::size_t j = 0; j < per && i + j < total; ++j) fn(k, (s0 + j * 7919) | 1);
                k.count("chaos-points", chaos::points.load()); k.count("chaos-delays", chaos::delays.load());
            }, 100);
        }
    };
    if (tsan) {
        batches("queue-race", c.n(240, 4000), 30, [](vh::Ctx& k, std::uint64_t s) { large(k, s, false); });
    } else {
        batches("queue-sequential", c.n(2000, 20000), 1000, [](vh::Ctx& k, std::uint64_t s) { sequential(k, s); });
        batches("queue-small", c.n(6000, 120000), 500, [](vh::Ctx& k, std::uint64_t s) { small(k, s); });
        batches("queue-large", c.n(600, 12000), 50, [](vh::Ctx& k, std::uint64_t s) { large(k, s, true); });
    }
    return c.finish();
}
