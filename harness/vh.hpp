// Common part of the harnesses: seeded randomness, event/violation recording, case
// markers for crash attribution, forked execution of hazardous cases with a
// quiescence (deadlock) monitor.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <mutex>
#include <optional>
#include <set>
#include <span>
#include <sstream>
#include <string>
#include <string_view>
#include <sys/mman.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <unordered_set>
#include <vector>
#include <dirent.h>

namespace vh {

namespace fs = std::filesystem;
using bytes = std::vector<std::byte>;

inline std::uint64_t splitmix(std::uint64_t& s)
{
    std::uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

struct Rng {
    using result_type = std::uint64_t;
    std::uint64_t s;
    explicit Rng(std::uint64_t seed) : s(seed) { for (int i = 0; i < 4; ++i) splitmix(s); }
    static constexpr result_type min() { return 0; }
    static constexpr result_type max() { return ~0ull; }
    std::uint64_t operator()() { return splitmix(s); }
    std::uint64_t below(std::uint64_t n) { return n ? (*this)() % n : 0; }
    std::int64_t range(std::int64_t lo, std::int64_t hi) { return lo + (std::int64_t)below((std::uint64_t)(hi - lo + 1)); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    template <class C> auto& pick(C& c) { return c[below(c.size())]; }
    template <class C> const auto& pick(const C& c) { return c[below(c.size())]; }
    std::string str(std::size_t n, std::string_view alphabet)
    { std::string r; for (std::size_t i = 0; i < n; ++i) r.push_back(alphabet[below(alphabet.size())]); return r; }
    std::string raw(std::size_t n)
    { std::string r(n, '\0'); for (auto& c : r) c = (char)(*this)(); return r; }
    bytes data(std::size_t n)
    {
        bytes b(n); std::size_t i = 0;
        for (; i + 8 <= n; i += 8) { auto v = (*this)(); std::memcpy(b.data() + i, &v, 8); }
        for (; i < n; ++i) b[i] = std::byte((*this)());
        return b;
    }
    template <class C> void shuffle(C& c) { for (std::size_t i = c.size(); i > 1; --i) std::swap(c[i - 1], c[below(i)]); }
};

inline std::uint64_t hash64(std::string_view s, std::uint64_t h = 1469598103934665603ull)
{ for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }

inline std::string show(std::string_view s, std::size_t max = 160)
{
    std::string r = "\"";
    for (unsigned char c : s.substr(0, max)) {
        if (c >= 0x20 && c < 0x7f && c != '"' && c != '\\') r.push_back((char)c);
        else { char b[8]; std::snprintf(b, sizeof b, "\\x%02x", c); r += b; }
    }
    r += "\"";
    if (s.size() > max) r += "...(" + std::to_string(s.size()) + " bytes)";
    return r;
}
inline std::string hexs(std::span<const std::byte> b)
{
    static const char* d = "0123456789abcdef"; std::string r;
    for (auto x : b) { r.push_back(d[(unsigned)x >> 4]); r.push_back(d[(unsigned)x & 15]); }
    return r;
}

template <class... A> std::string cat(A&&... a) { std::ostringstream o; (o << ... << a); return o.str(); }

class Ctx {
public:
    std::uint64_t seed = 1;
    int shard = 0, shards = 1;
    bool thorough = false;
    std::string mode;            // variant specific argument
    fs::path scratch = "/tmp";
    Rng rng{1};

    Ctx(int argc, char** argv)
    {
        for (int i = 1; i + 1 < argc; i += 2) {
            std::string a = argv[i], v = argv[i + 1];
            if (a == "--seed") seed = std::stoull(v);
            else if (a == "--shard") shard = std::stoi(v);
            else if (a == "--shards") shards = std::stoi(v);
            else if (a == "--tier") thorough = v == "thorough";
            else if (a == "--report") report_ = v;
            else if (a == "--scratch") scratch = v;
            else if (a == "--mode") mode = v;
            else if (a == "--known") { std::istringstream k(v); std::string x; while (std::getline(k, x, ',')) known_.insert(x); }
            else if (a == "--marker") {
                int fd = ::open(v.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
                if (fd >= 0 && ::ftruncate(fd, marker_size) == 0)
                    marker_ = (char*)::mmap(nullptr, marker_size, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
                if (marker_ == MAP_FAILED) marker_ = nullptr;
                if (fd >= 0) ::close(fd);
            }
        }
        rng = Rng(seed * 1000003ull + (std::uint64_t)shard * 7919ull + 17);
        ::signal(SIGPIPE, SIG_IGN);
    }

    // scale a case count by tier and split it over the shards
    std::size_t n(std::size_t quick, std::size_t thorough_n) const
    {
        std::size_t t = thorough ? thorough_n : quick;
        return t / shards + ((std::size_t)shard < t % shards ? 1 : 0);
    }
    bool mine(std::size_t i) const { return (int)(i % shards) == shard; }

    // current case, for attribution of crashes. label: stable id; detail: the input
    void at(std::string_view label, std::string_view detail = {})
    {
        if (!marker_) return;
        std::size_t l = std::min<std::size_t>(label.size(), 120);
        std::memcpy(marker_, label.data(), l); marker_[l] = '\n';
        std::size_t d = std::min<std::size_t>(detail.size(), marker_size - l - 2);
        if (d) std::memcpy(marker_ + l + 1, detail.data(), d);
        marker_[l + 1 + d] = 0;
    }
    void eval(std::uint64_t k = 1) { std::lock_guard g(m_); evals_ += k; }
    void distinct(std::uint64_t h) { std::lock_guard g(m_); if (hashes_.size() < 400000) hashes_.insert(h); }
    void distinct(std::string_view s) { distinct(hash64(s)); }
    void sample(std::string s) { std::lock_guard g(m_); if (samples_.size() < 6) samples_.push_back(std::move(s)); }
    void count(const std::string& name, std::uint64_t k = 1) { std::lock_guard g(m_); counters_[name] += k; }
    void violation(std::string key, std::string detail)
    {
        std::lock_guard g(m_);
        if (!known_.count(key) && fresh_++ == 0) first_fresh_ = std::chrono::steady_clock::now();
        if (++per_key_[key] > 3) return;
        violations_.emplace_back(std::move(key), std::move(detail));
    }
    template <class D> bool check(bool ok, std::string_view key, D&& detail)
    {
        if (!ok) {
            if constexpr (std::is_invocable_v<D>) violation(std::string(key), detail());
            else violation(std::string(key), std::string(detail));
        }
        return ok;
    }
    void inconclusive(std::string what) { std::lock_guard g(m_); inconclusive_.push_back(std::move(what)); }
    std::size_t violation_count() const { return violations_.size(); }
    // a violation is in hand (not a listed finding): no need to go on for long
    bool enough() const
    { return fresh_ >= 6 || (fresh_ > 0 && std::chrono::steady_clock::now() - first_fresh_ > std::chrono::seconds(20)); }

    // run f and tell whether it threw (any std::exception)
    template <class F> static std::optional<std::string> throws(F&& f)
    {
        try { f(); return std::nullopt; }
        catch (const std::exception& e) { return std::string("x:") + e.what(); }
        catch (...) { return std::string("x:non-std"); }
    }

    // Run f in a forked child. Abnormal ends (signal, sanitizer report, terminate) become
    // violations "crash:<label>"; if every thread of the child sleeps without making
    // progress the child is deadlocked: "deadlock:<label>". A child that stays in one case for
    // stuck_s seconds hardly using the processor (threads that only wake up to sleep again), or
    // burns spin_s seconds of processor time in one case, hangs: "hang:<label>". Both are
    // independent of the load of the machine; limit_s of wall time only makes it inconclusive.
    // Returns true when the child ended normally.
    bool isolated(const std::string& label, const std::string& detail, const std::function<void(Ctx&)>& f,
                  int limit_s = 120)
    {
        if (enough()) return false;
        return isolated_once(label, detail, f, std::max(limit_s, 400)) == 0;
    }
    static constexpr int stuck_s = 45, spin_s = 240;
    bool has_violation() const { return fresh_ > 0; }

    int finish()
    {
        if (report_.empty()) { dump(std::cout); }
        else { std::ofstream o(report_, std::ios::binary); dump(o); o << "COMPLETE\n"; }
        at("done");
        return 0;
    }

private:
    static constexpr std::size_t marker_size = 65536;
    static std::string esc(std::string_view s)
    {
        std::string r;
        for (unsigned char c : s) {
            if (c == '\\') r += "\\\\"; else if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t";
            else if (c < 0x20 || c >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\x%02x", c); r += b; }
            else r.push_back((char)c);
        }
        return r;
    }
    static std::string unesc(std::string_view s)
    {
        std::string r;
        for (std::size_t i = 0; i < s.size(); ++i) {
            if (s[i] != '\\') { r.push_back(s[i]); continue; }
            ++i;
            if (s[i] == 'n') r.push_back('\n'); else if (s[i] == 't') r.push_back('\t');
            else if (s[i] == 'x') { r.push_back((char)std::stoi(std::string(s.substr(i + 1, 2)), nullptr, 16)); i += 2; }
            else r.push_back(s[i]);
        }
        return r;
    }
    void dump(std::ostream& o)
    {
        std::lock_guard g(m_);
        o << "E\t" << evals_ << "\n";
        for (auto h : hashes_) o << "H\t" << std::hex << h << std::dec << "\n";
        for (auto& s : samples_) o << "S\t" << esc(s) << "\n";
        for (auto& [k, v] : counters_) o << "C\t" << esc(k) << "\t" << v << "\n";
        for (auto& [k, d] : violations_) o << "V\t" << esc(k) << "\t" << esc(d.substr(0, 20000)) << "\n";
        for (auto& s : inconclusive_) o << "I\t" << esc(s) << "\n";
    }
    void merge(std::istream& in)
    {
        std::string line;
        while (std::getline(in, line)) {
            if (line.size() < 2 || line[1] != '\t') continue;
            auto rest = line.substr(2);
            auto tab = rest.find('\t');
            switch (line[0]) {
            case 'E': eval(std::stoull(rest)); break;
            case 'H': distinct(std::stoull(rest, nullptr, 16)); break;
            case 'S': sample(unesc(rest)); break;
            case 'C': count(unesc(rest.substr(0, tab)), std::stoull(rest.substr(tab + 1))); break;
            case 'V': violation(unesc(rest.substr(0, tab)), unesc(rest.substr(tab + 1))); break;
            case 'I': inconclusive(unesc(rest)); break;
            }
        }
    }
    static std::string slurp(const fs::path& p)
    { std::ifstream i(p, std::ios::binary); return std::string(std::istreambuf_iterator<char>(i), {}); }

    // One line per blocked thread (context-switch counts); empty if some thread can still run.
    // A thread inside a timed sleep (the sanitizers' background thread) is left out, so it
    // neither hides nor causes a deadlock: the others must all be in untimed waits.
    static std::string quiescent_snapshot(pid_t pid)
    {
        std::string r;
        auto dir = cat("/proc/", pid, "/task");
        DIR* d = ::opendir(dir.c_str());
        if (!d) return {};
        while (auto* e = ::readdir(d)) {
            if (e->d_name[0] == '.') continue;
            std::ifstream in(dir + "/" + e->d_name + "/status");
            std::string l, sw; bool sleeping = false;
            while (std::getline(in, l)) {
                if (l.rfind("State:", 0) == 0) sleeping = l.find("S (sleeping)") != std::string::npos;
                if (l.rfind("voluntary_ctxt", 0) == 0 || l.rfind("nonvoluntary", 0) == 0) sw += l + ";";
            }
            if (!sleeping) { ::closedir(d); return {}; }
            std::ifstream sc(dir + "/" + e->d_name + "/syscall");
            std::string nr, a1, a2, a3, a4;
            if (sc >> nr >> a1 >> a2 >> a3 >> a4) {
                if (nr == "35" || nr == "230") continue;             // (clock_)nanosleep
                if (nr == "202" && a4 != "0x0") { ::closedir(d); return {}; } // timed futex wait
            }
            r += std::string(e->d_name) + ":" + sw + "\n";
        }
        ::closedir(d);
        return r;
    }

    // processor time of a process in seconds; -1 if some thread waits for the disk
    static double cpu_time(pid_t pid)
    {
        auto dir = cat("/proc/", pid, "/task");
        DIR* d = ::opendir(dir.c_str());
        if (!d) return 0;
        bool disk = false;
        while (auto* e = ::readdir(d)) {
            if (e->d_name[0] == '.') continue;
            std::ifstream in(dir + "/" + e->d_name + "/stat"); std::string l; std::getline(in, l);
            auto p = l.rfind(')'); if (p != std::string::npos && p + 2 < l.size() && l[p + 2] == 'D') disk = true;
        }
        ::closedir(d);
        if (disk) return -1;
        std::ifstream in(cat("/proc/", pid, "/stat")); std::string l; std::getline(in, l);
        auto p = l.rfind(')'); if (p == std::string::npos) return 0;
        std::istringstream f(l.substr(p + 2)); std::string x; double u = 0, s = 0;
        for (int i = 0; i < 11; ++i) f >> x;
        f >> u >> s; return (u + s) / (double)::sysconf(_SC_CLK_TCK);
    }

    int isolated_once(const std::string& label, const std::string& detail0, const std::function<void(Ctx&)>& f,
                      int limit_s)
    {
        static int serial = 0;
        auto base = scratch / cat("iso-", ::getpid(), "-", serial++);
        auto rep = base.string() + ".rep", err = base.string() + ".err";
        at(label, detail0);
        std::fflush(nullptr);
        pid_t pid = ::fork();
        if (pid < 0) { inconclusive("fork failed"); return 1; }
        if (pid == 0) {
            int fd = ::open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
            if (fd >= 0) { ::dup2(fd, 2); ::dup2(fd, 1); }
            evals_ = 0; hashes_.clear(); samples_.clear(); counters_.clear(); violations_.clear(); per_key_.clear(); inconclusive_.clear();
            f(*this);
            { std::ofstream o(rep, std::ios::binary); dump(o); o << "COMPLETE\n"; }
            std::fflush(nullptr);
            ::_exit(0);
        }
        auto t0 = std::chrono::steady_clock::now();
        std::string last_snap; int same = 0; int status = 0; bool dead = false, hung = false, slow = false;
        std::uint64_t mark = 0; auto win_at = t0; double mark_cpu = 0, win_cpu = 0; // since when, and with how much processor time, the case is the same
        auto sleep_us = 200;
        auto next_probe = t0 + std::chrono::seconds(2);
        for (;;) {
            pid_t w = ::waitpid(pid, &status, WNOHANG);
            if (w == pid) break;
            ::usleep(sleep_us);
            sleep_us = std::min(sleep_us * 2, 20000);
            auto now = std::chrono::steady_clock::now();
            if (now >= next_probe) {
                next_probe = now + std::chrono::seconds(1);
                auto s = quiescent_snapshot(pid);
                if (!s.empty() && s == last_snap) ++same; else same = 0;
                last_snap = s;
                if (same >= 8) dead = true;
                auto mk = marker_ ? hash64(std::string_view(marker_, ::strnlen(marker_, marker_size))) : 0;
                auto cpu = cpu_time(pid);
                if (mk != mark || cpu < 0) { mark = mk; win_at = now; mark_cpu = win_cpu = std::max(cpu, 0.0); }
                else {
                    auto wall = std::chrono::duration<double>(now - win_at).count();
                    if (cpu - mark_cpu > spin_s) hung = true;
                    if (wall > stuck_s) { hung |= cpu - win_cpu < 0.04 * wall; win_at = now; win_cpu = cpu; }
                }
            }
            if (now - t0 > std::chrono::seconds(limit_s)) slow = true;
            if (dead || hung || slow) {
                ::kill(pid, SIGKILL); ::waitpid(pid, &status, 0);
                break;
            }
        }
        auto errtext = slurp(err);
        auto reptext = slurp(rep);
        std::error_code ec; fs::remove(rep, ec); fs::remove(err, ec);
        bool complete = reptext.size() >= 9 && reptext.compare(reptext.size() - 9, 9, "COMPLETE\n") == 0;
        if (complete && !dead && !hung && !slow && WIFEXITED(status) && WEXITSTATUS(status) == 0) {
            std::istringstream in(reptext); merge(in);
            // reports that do not end the process (thread sanitizer without halt_on_error)
            if (errtext.find("WARNING: ThreadSanitizer") != std::string::npos)
                violation("race:" + label, detail0 + "\n" + errtext.substr(0, 8000));
            return 0;
        }
        std::string detail = detail0;
        if (marker_) { std::string_view mk(marker_, ::strnlen(marker_, marker_size)); detail += "\nat " + std::string(mk.substr(0, 6000)); }
        if (dead) { violation("deadlock:" + label, detail + "\nall threads asleep, no context switch for 8 s\n" + last_snap + errtext.substr(0, 4000)); return 1; }
        if (hung) { violation("hang:" + label, cat(detail, "\nno progress in this case\n", errtext.substr(0, 4000))); return 1; }
        if (slow) { inconclusive(cat(label, ": no end within ", limit_s, " s")); return 1; }
        if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL) { inconclusive("child killed: " + label); return 1; }
        std::string kind = "crash:";
        if (errtext.find("ThreadSanitizer: data race") != std::string::npos) kind = "race:";
        violation(kind + label, cat(detail, "\nstatus ", WIFSIGNALED(status) ? "signal " : "exit ",
                                       WIFSIGNALED(status) ? WTERMSIG(status) : WEXITSTATUS(status), "\n", errtext.substr(0, 8000)));
        return 1;
    }

    std::mutex m_;
    std::string report_;
    std::set<std::string> known_;
    std::size_t fresh_ = 0;
    std::chrono::steady_clock::time_point first_fresh_{};
    char* marker_ = nullptr;
    std::uint64_t evals_ = 0;
    std::unordered_set<std::uint64_t> hashes_;
    std::vector<std::string> samples_;
    std::map<std::string, std::uint64_t> counters_;
    std::map<std::string, int> per_key_;
    std::vector<std::pair<std::string, std::string>> violations_;
    std::vector<std::string> inconclusive_;
};

} // namespace vh
