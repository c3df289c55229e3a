// Hashing and verification of whole content trees, by mode.
#include "vh.hpp"
#include <sys/stat.h>
#define CHAOS_WRAP
#include "chaos.hpp"
#include "ref.hpp"
#include "fault.hpp"
#include <dottorrent/storage_hasher.hpp>
#include <dottorrent/storage_verifier.hpp>
namespace dt = dottorrent;
namespace fs = std::filesystem;
using ref::bytes;

struct Dir { // scratch tree, removed at the end of the case
    fs::path p;
    explicit Dir(vh::Ctx& c) { static int n = 0; p = c.scratch / vh::cat("t-", ::getpid(), "-", n++); fs::create_directories(p); }
    ~Dir() { std::error_code ec; fs::remove_all(p, ec); }
};
static std::string pick_name(vh::Rng& r, dt::protocol p) { return p == dt::protocol::v1 ? "v1" : p == dt::protocol::v2 ? "v2" : "hybrid"; }

template <class O> static std::string options(vh::Rng& r, O& o, std::size_t piece, bool odd_blocks)
{
    o.threads = r.chance(1, 25) ? 9 + r.below(24) : 1 + r.below(r.chance(1, 4) ? 8 : 4);
    switch (r.below(odd_blocks ? 5 : 4)) {
    case 0: break;
    case 1: o.min_io_block_size = piece; break;
    case 2: o.min_io_block_size = piece * (1 + r.below(4)); break;
    case 3: o.min_io_block_size = 1 + r.below(piece); break;
    case 4: o.min_io_block_size = 1 + r.below(300000); break;
    }
    if (r.chance(1, 2)) o.max_memory = 1 + r.below(3000000);
    return vh::cat("threads ", o.threads, " io ", o.min_io_block_size ? std::to_string(*o.min_io_block_size) : "default", " mem ",
                   o.max_memory ? std::to_string(*o.max_memory) : "default");
}
static const std::pair<dt::hash_function, const char*> sums[] = {
    {dt::hash_function::md5, "MD5"}, {dt::hash_function::sha1, "SHA1"}, {dt::hash_function::sha256, "SHA256"},
    {dt::hash_function::sha512, "SHA512"}, {dt::hash_function::blake2b_512, "BLAKE2b512"}, {dt::hash_function::sha3_256, "SHA3-256"},
    {dt::hash_function::sha224, "SHA224"}, {dt::hash_function::sha384, "SHA384"}, {dt::hash_function::sha3_512, "SHA3-512"}, {dt::hash_function::blake2s_256, "BLAKE2s256"}};
constexpr int n_sums = sizeof sums / sizeof *sums;

// expected v1 stream of a hybrid torrent: every file but the last padded to the piece boundary
static bytes hybrid_stream(const ref::Content& k)
{
    bytes s;
    for (std::size_t i = 0; i < k.files.size(); ++i) {
        s.insert(s.end(), k.files[i].data.begin(), k.files[i].data.end());
        if (i + 1 < k.files.size() && s.size() % k.piece_size) s.resize((s.size() / k.piece_size + 1) * k.piece_size);
    }
    return s;
}

static void expect_v1(vh::Ctx& c, const dt::file_storage& st, const bytes& stream, std::size_t ps, const std::string& what)
{
    auto want = ref::v1(stream, ps); auto got = st.pieces();
    if (!c.check(got.size() == want.size(), "v1-piece-count", [&] { return vh::cat(what, ": ", got.size(), " pieces, expected ", want.size()); })) return;
    for (std::size_t i = 0; i < want.size(); ++i)
        c.check(ref::hstr(got[i]) == ref::str(want[i]), "v1-piece-hash", [&] { return vh::cat(what, ": piece ", i, " of ", want.size()); });
    c.count("v1-pieces-compared", want.size());
}
static void expect_v2(vh::Ctx& c, const dt::file_storage& st, const ref::Content& k, const std::string& what)
{
    std::size_t i = 0;
    for (auto& e : st) {
        if (e.is_padding_file()) continue;
        while (i < k.files.size() && k.files[i].padding) ++i;
        if (!c.check(i < k.files.size(), "v2-file-list", what)) return;
        auto& f = k.files[i++];
        if (!c.check(e.path() == fs::path(f.path) && e.file_size() == f.data.size(), "v2-file-list", [&] { return vh::cat(what, ": entry ", e.path(), " expected ", f.path); })) return;
        if (f.data.empty()) continue;
        if (!c.check(e.has_v2_data(), "v2-missing-root", [&] { return vh::cat(what, ": ", f.path); })) continue;
        auto want = ref::v2(f.data, k.piece_size);
        c.check(ref::hstr(e.pieces_root()) == ref::str(want.root), "v2-root", [&] { return vh::cat(what, ": root of ", f.path, " size ", f.data.size()); });
        auto l = e.piece_layer();
        if (c.check(l.size() == want.layer.size(), "v2-layer-size", [&] { return vh::cat(what, ": ", f.path, " layer ", l.size(), " expected ", want.layer.size()); }))
            for (std::size_t j = 0; j < l.size(); ++j) c.check(ref::hstr(l[j]) == ref::str(want.layer[j]), "v2-layer", [&] { return vh::cat(what, ": ", f.path, " layer entry ", j); });
        c.count("v2-roots-compared"); if (!l.empty()) c.count("v2-layers-compared");
    }
    while (i < k.files.size() && k.files[i].padding) ++i;
    c.check(i == k.files.size(), "v2-file-list", [&] { return what + ": files lost"; });
}
static void expect_sums(vh::Ctx& c, const dt::file_storage& st, const ref::Content& k, const std::vector<int>& which, const std::string& what)
{
    std::map<std::string, const ref::File*> by; for (auto& f : k.files) if (!f.padding && f.link.empty()) by[f.path] = &f;
    for (auto& e : st) {
        auto it = by.find(e.path().generic_string()); if (it == by.end()) continue;
        for (int w : which) {
            auto* s = e.get_checksum(sums[w].first);
            if (!c.check(s != nullptr, "checksum-missing", [&] { return vh::cat(what, ": no ", sums[w].second, " for ", it->first); })) continue;
            auto want = ref::digest(EVP_get_digestbyname(sums[w].second), it->second->data);
            auto v = s->value();
            c.check(v.size() == want.size() && std::equal(v.begin(), v.end(), want.begin()), "checksum-value", [&] { return vh::cat(what, ": ", sums[w].second, " of ", it->first); });
            c.count("checksums-compared");
        }
    }
}

static void hash_case(vh::Ctx& c, std::uint64_t seed, dt::protocol proto, bool checksums)
{
    vh::Rng r(seed);
    ref::Gen g; g.links = r.chance(1, 3); g.padding = proto == dt::protocol::v1 && r.chance(1, 3); g.big = r.chance(1, 10);
    bool choose = r.chance(1, 12); if (choose) g.piece_size = 32768; // the hasher chooses the piece size itself
    if (r.chance(1, 30)) { g.max_files = 40; g.max_size = 40000; }
    auto k = ref::make(r, g);
    dt::storage_hasher_options o; o.protocol_version = proto;
    auto os = options(r, o, k.piece_size, true);
    std::vector<int> which;
    if (checksums) { for (int i = 0; i < n_sums; ++i) if (r.chance(1, 4)) which.push_back(i); if (which.empty()) which.push_back(r.below(n_sums)); for (int w : which) o.checksums.insert(sums[w].first); }
    auto label = pick_name(r, proto);
    auto what = vh::cat(label, " ", k.describe(), " ", os, " checksums ", which.size(), " seed ", seed);
    c.at("hash-" + label, what);
    chaos::reset(seed, r.below(30));
    Dir d(c); ref::materialise(k, d.p);
    dt::file_storage st; ref::fill(st, k, d.p, !choose);
    bool padded = false;
    if (!g.padding && !choose && r.chance(1, 10)) { // hashed as another kind before
        auto other = proto == dt::protocol::v1 ? (r.chance(1, 2) ? dt::protocol::v2 : dt::protocol::hybrid) : proto == dt::protocol::v2 ? (r.chance(1, 2) ? dt::protocol::v1 : dt::protocol::hybrid) : (r.chance(1, 2) ? dt::protocol::v1 : dt::protocol::v2);
        dt::storage_hasher_options o2; o2.protocol_version = other; what += " before as " + pick_name(r, other) + " " + options(r, o2, k.piece_size, true); c.at("hash-" + label, what);
        dt::storage_hasher h(st, o2); h.start(); h.wait(); padded = other == dt::protocol::hybrid; c.count("hashed-as-another-kind-before");
    }
    for (int round = 0; round < (seed % 7 == 3 ? 2 : 1); ++round) {
        if (round == 1) { // again, with changed content and other options: nothing of the first run may remain
            for (auto& f : k.files) if (!f.padding && f.link.empty() && !f.data.empty() && r.chance(1, 2)) { f.data[r.below(f.data.size())] ^= std::byte(8); ref::write_file(d.p / f.path, f.data); }
            what += " again " + options(r, o, k.piece_size, true); c.at("hash-" + label, what); c.count("hashed-again");
            if (proto == dt::protocol::hybrid && r.chance(1, 2)) { st = dt::file_storage(); ref::fill(st, k, d.p); }
        }
        dt::storage_hasher h(st, o);
        c.check(&h.storage() == &st && &std::as_const(h).storage() == &st && h.protocol() == proto, "accessors", what);
        if (r.chance(1, 4)) fault::arm(d.p.string(), seed, true, 0, 0);
        h.start(); h.wait(); fault::disarm();
        c.check(h.done() && !h.cancelled() && !h.running(), "state-after-wait", what);
    }
    if (proto == dt::protocol::v1) {
        expect_v1(c, st, padded ? hybrid_stream(k) : k.stream(), k.piece_size, what);
        c.check(padded || st.file_count() == k.files.size(), "file-list", what);
    } else expect_v2(c, st, k, what);
    if (proto == dt::protocol::hybrid) {
        expect_v1(c, st, hybrid_stream(k), k.piece_size, what);
        c.check(dt::is_piece_aligned(st), "hybrid-alignment", what);
    }
    if (k.total()) c.check((st.protocol() & proto) == proto, "protocol", what);
    if (checksums) expect_sums(c, st, k, which, what);
    // content is only read
    for (auto& f : k.files) if (!f.padding && f.link.empty()) c.check(ref::read_file(d.p / f.path) == f.data, "content-changed", what);
    std::size_t on_disk = 0; for (auto& e : fs::recursive_directory_iterator(d.p)) on_disk += !e.is_directory() || e.is_symlink();
    c.check(on_disk == (std::size_t)std::count_if(k.files.begin(), k.files.end(), [](auto& f) { return !f.padding; }), "content-changed", what);
    if (choose && k.total()) c.check(st.piece_size() == k.piece_size, "chosen-piece-size", what);
    c.eval(); c.count("hash-runs"); c.distinct(what); if (seed % 5 == 0) c.sample(what);
}

// ---------------------------------------------------------------- verification
// What is on disk after damage; absent[i] marks bytes of file f the disk does not have.
struct Damaged { std::vector<bytes> data; std::vector<std::size_t> have; std::vector<bool> gone; };

static void set_hashes(dt::file_storage& st, const ref::Content& k, dt::protocol p)
{
    if ((p & dt::protocol::v1) == dt::protocol::v1) {
        st.allocate_pieces();
        auto h = ref::v1(k.stream(), k.piece_size);
        for (std::size_t i = 0; i < h.size(); ++i) { dt::sha1_hash x; std::memcpy(x.data(), h[i].data(), 20); st.set_piece_hash(i, x); }
    }
    if ((p & dt::protocol::v2) == dt::protocol::v2)
        for (std::size_t i = 0; i < k.files.size(); ++i) {
            if (k.files[i].padding || k.files[i].data.empty()) continue;
            auto w = ref::v2(k.files[i].data, k.piece_size);
            dt::sha256_hash x; std::memcpy(x.data(), w.root.data(), 32); st[i].set_pieces_root(x);
            std::vector<dt::sha256_hash> l; for (auto& e : w.layer) { std::memcpy(x.data(), e.data(), 32); l.push_back(x); }
            if (!l.empty() || i % 2) st[i].set_piece_layer(l);
        }
}
// a hybrid content list: every regular file but the last followed by padding
static ref::Content aligned(const ref::Content& k)
{
    ref::Content r; r.piece_size = k.piece_size;
    for (std::size_t i = 0; i < k.files.size(); ++i) {
        r.files.push_back(k.files[i]);
        auto over = k.files[i].data.size() % k.piece_size;
        if (i + 1 < k.files.size() && over) { ref::File p; p.padding = true; p.data = bytes(k.piece_size - over); p.path = vh::cat(".pad/", p.data.size()); r.files.push_back(p); }
    }
    return r;
}
static Damaged damage(vh::Rng& r, const ref::Content& k, const fs::path& root, std::string& what)
{
    Damaged d;
    for (auto& f : k.files) { d.data.push_back(f.data); d.have.push_back(f.data.size()); d.gone.push_back(false); }
    int n = r.chance(1, 8) ? 0 : 1 + r.below(4);
    for (int j = 0; j < n; ++j) {
        auto i = r.below(k.files.size()); auto& f = k.files[i];
        if (f.padding || !f.link.empty() || d.gone[i]) continue;
        auto p = root / f.path; auto kind = r.below(17); if (kind < 16) kind /= 2; else kind = 8;
        if (kind <= 3 && d.have[i]) { // flip a byte, often at a boundary
            std::size_t at = r.below(d.have[i]);
            if (r.chance(1, 2)) { auto b = k.piece_size * r.below(d.have[i] / k.piece_size + 1); at = std::min<std::size_t>(d.have[i] - 1, b > 0 && r.chance(1, 2) ? b - 1 : b); }
            if (r.chance(1, 6)) at = d.have[i] - 1;
            d.data[i][at] ^= std::byte(1u << r.below(8));
            std::fstream o(p, std::ios::binary | std::ios::in | std::ios::out); o.seekp(at); o.write((const char*)&d.data[i][at], 1);
            what += vh::cat(" flip ", i, "@", at);
        } else if (kind == 4 && d.have[i]) {
            d.have[i] = r.chance(1, 3) ? 0 : r.below(d.have[i]); if (r.chance(1, 3)) d.have[i] = d.have[i] / k.piece_size * k.piece_size;
            fs::resize_file(p, d.have[i]); what += vh::cat(" cut ", i, " to ", d.have[i]);
        } else if (kind == 5) {
            if (fs::file_size(p) != f.data.size()) continue;
            std::ofstream o(p, std::ios::binary | std::ios::app); auto x = r.data(1 + r.below(2 * k.piece_size)); o.write((const char*)x.data(), x.size());
            what += vh::cat(" grow ", i, " by ", x.size());
        } else if (kind == 8 && f.data.size()) { // something else in its place
            fs::remove(p); d.gone[i] = true; d.have[i] = 0;
            switch (r.below(3)) { case 0: fs::create_directory(p); break; case 1: fs::create_symlink("nowhere to be found", p); break; default: if (::mkfifo(p.c_str(), 0600)) throw std::runtime_error("mkfifo"); }
            what += vh::cat(" replace ", i);
        } else if (kind == 6 && f.data.size()) {
            fs::remove(p); d.gone[i] = true; d.have[i] = 0; what += vh::cat(" remove ", i);
        } else if (kind == 7 && d.have[i] >= 2 && f.data.size() >= 2) { // swap two stretches
            auto a = r.below(d.have[i] / 2), b = d.have[i] / 2 + r.below(d.have[i] / 2); std::swap(d.data[i][a], d.data[i][b]);
            std::ofstream o(p, std::ios::binary | std::ios::trunc); o.write((const char*)d.data[i].data(), d.have[i]);
            what += vh::cat(" swap ", i, "@", a, "/", b);
        }
    }
    return d;
}
enum class Flag { bad, good, any };
// any: data is absent where zeros are expected and everything else matches
static Flag judge(std::span<const std::byte> want, std::span<const std::byte> got, std::span<const char> have)
{
    bool absent = false;
    for (std::size_t i = 0; i < want.size(); ++i) {
        if (have[i]) { if (want[i] != got[i]) return Flag::bad; }
        else { absent = true; if (want[i] != std::byte(0)) return Flag::bad; }
    }
    return absent ? Flag::any : Flag::good;
}

static void verify_case(vh::Ctx& c, std::uint64_t seed, bool v1)
{
    vh::Rng r(seed);
    ref::Gen g; g.links = r.chance(1, 4); g.big = r.chance(1, 10);
    if (r.chance(1, 30)) { g.max_files = 30; g.max_size = 40000; }
    auto kind = v1 ? (r.chance(1, 4) ? dt::protocol::hybrid : dt::protocol::v1) : (r.chance(1, 2) ? dt::protocol::hybrid : dt::protocol::v2);
    g.padding = kind == dt::protocol::v1 && r.chance(1, 4);
    auto k = ref::make(r, g);
    if (kind == dt::protocol::hybrid) k = aligned(k);
    dt::storage_verifier_options o;
    if (v1 && kind == dt::protocol::hybrid) o.protocol_version = dt::protocol::v1;
    else if (!v1 && kind == dt::protocol::hybrid && r.chance(1, 3)) o.protocol_version = dt::protocol::v2;
    else if (r.chance(1, 2)) o.protocol_version = kind;
    // without any content to hash the kind cannot be told from the storage
    if (std::all_of(k.files.begin(), k.files.end(), [](auto& f) { return f.padding || f.data.empty(); })) o.protocol_version = v1 ? dt::protocol::v1 : dt::protocol::v2;
    auto os = options(r, o, k.piece_size, true);
    auto what = vh::cat(v1 ? "v1" : "v2", " verification of ", pick_name(r, kind), " ", k.describe(), " ", os, " seed ", seed);
    Dir dir(c); ref::materialise(k, dir.p);
    dt::file_storage st; ref::fill(st, k, dir.p); set_hashes(st, k, kind);
    auto d = damage(r, k, dir.p, what);
    c.at(v1 ? "verify-v1" : "verify-v2", what);
    chaos::reset(seed, r.below(30));

    dt::storage_verifier v(st, o);
    c.check(&v.storage() == &st && &std::as_const(v).storage() == &st && v.protocol() == (o.protocol_version == dt::protocol::none ? kind : o.protocol_version), "accessors", what);
    if (r.chance(1, 4)) fault::arm(dir.p.string(), seed, true, 0, 0);
    v.start(); v.wait(); fault::disarm();
    c.check(vh::Ctx::throws([&] { v.percentage(dt::file_entry("no such file in here", 3)); }).has_value(), "percentage-of-unknown-entry", what);
    c.check(v.done() && !v.running() && !v.cancelled(), "state-after-wait", what);
    auto& res = v.result();
    std::vector<Flag> want; std::vector<std::pair<std::size_t, std::size_t>> span(k.files.size());
    if (v1) {
        bytes exp, got; std::vector<char> have; std::size_t off = 0;
        for (std::size_t i = 0; i < k.files.size(); ++i) {
            auto& f = k.files[i];
            exp.insert(exp.end(), f.data.begin(), f.data.end());
            got.insert(got.end(), d.data[i].begin(), d.data[i].end());
            for (std::size_t j = 0; j < f.data.size(); ++j) have.push_back(j < d.have[i]);
            span[i] = {off / k.piece_size, f.data.empty() ? off / k.piece_size : (off + f.data.size() + k.piece_size - 1) / k.piece_size};
            off += f.data.size();
        }
        for (std::size_t p = 0; p < exp.size(); p += k.piece_size) {
            auto n = std::min(k.piece_size, exp.size() - p);
            want.push_back(judge(std::span(exp).subspan(p, n), std::span(got).subspan(p, n), std::span(have).subspan(p, n)));
        }
    } else {
        for (std::size_t i = 0; i < k.files.size(); ++i) {
            auto& f = k.files[i];
            if (f.padding) { span[i] = {want.size(), want.size()}; continue; }
            std::vector<char> have; for (std::size_t j = 0; j < f.data.size(); ++j) have.push_back(j < d.have[i]);
            span[i].first = want.size();
            if (f.data.empty()) want.push_back(f.link.empty() ? Flag::good : Flag::any);
            for (std::size_t p = 0; p < f.data.size(); p += k.piece_size) {
                auto n = std::min(k.piece_size, f.data.size() - p);
                want.push_back(judge(std::span(f.data).subspan(p, n), std::span(d.data[i]).subspan(p, n), std::span(have).subspan(p, n)));
            }
            span[i].second = want.size();
            if (f.data.empty()) span[i].first = span[i].second;
        }
    }
    if (c.check(res.size() == want.size(), "result-size", [&] { return vh::cat(what, ": ", res.size(), " flags, expected ", want.size()); })) {
        for (std::size_t i = 0; i < want.size(); ++i) {
            if (want[i] == Flag::any) { c.count("unspecified"); continue; }
            c.check((res[i] != 0) == (want[i] == Flag::good), want[i] == Flag::good ? "good-flagged-bad" : "bad-flagged-good",
                    [&] { return vh::cat(what, ": piece ", i, " of ", want.size()); });
            c.count(want[i] == Flag::good ? "good-pieces" : "bad-pieces");
        }
        for (std::size_t i = 0; i < k.files.size(); ++i) {
            auto [a, b] = span[i]; std::size_t good = 0;
            for (auto j = a; j < b; ++j) good += res[j] != 0;
            double w = a == b ? 100 : 100.0 * good / (b - a), p = v.percentage(i);
            if (v1 && k.files[i].padding) continue;
            c.check(std::abs(w - p) < 1e-6, "percentage", [&] { return vh::cat(what, ": file ", i, " is ", p, "% expected ", w); });
            if (!k.files[i].padding) { double q = v.percentage(st[i]); c.check(std::abs(q - p) < 1e-9, "percentage-by-entry", [&] { return vh::cat(what, ": file ", i, " is ", q, "% by entry, ", p, "% by index"); }); }
            c.count("percentages");
        }
    }
    // verification does not change the recorded hashes
    if ((kind & dt::protocol::v1) == dt::protocol::v1) expect_v1(c, st, k.stream(), k.piece_size, what + " (recorded hashes)");
    if ((kind & dt::protocol::v2) == dt::protocol::v2) expect_v2(c, st, k, what + " (recorded hashes)");
    c.eval(); c.count("verify-runs"); c.distinct(what); if (seed % 5 == 0) c.sample(what);
}

// ---------------------------------------------------------------- progress and cancellation
#ifdef __SANITIZE_THREAD__
constexpr bool tsan = true; // starts a thread of its own
#else
constexpr bool tsan = false;
#endif
static int thread_count()
{
    int n = 0;
    for (auto& e : fs::directory_iterator("/proc/self/task")) { (void)e; ++n; }
    return n;
}
// polls the counters of a hasher or verifier and judges what it sees
template <class H> struct Watch {
    vh::Ctx& c; const H& h; const dt::file_storage& st; std::size_t total, regular; bool v1; const std::string& what;
    std::size_t done = 0, read = 0, hashed = 0, index = 0, samples = 0, partial = 0;
    std::vector<std::size_t> before;
    Watch(vh::Ctx& c, const H& h, const dt::file_storage& st, bool v1, const std::string& what) : c(c), h(h), st(st), v1(v1), what(what)
    {
        total = regular = 0; std::size_t run = 0;
        for (auto& e : st) { before.push_back(run); total += e.file_size(); if (!e.is_padding_file()) regular += e.file_size(); if (v1 || !e.is_padding_file()) run += e.file_size(); }
    }
    std::size_t goal() const { return v1 ? total : regular; }
    void poll()
    {
        auto d0 = h.bytes_done(); auto f = h.current_file_progress(); auto d1 = h.bytes_done(); auto r = h.bytes_read(); auto hs = h.bytes_hashed();
        c.check(d0 >= done && d1 >= d0 && d1 <= goal(), "bytes-done", [&] { return vh::cat(what, ": bytes_done ", done, " -> ", d0, " -> ", d1, " of ", goal()); });
        c.check(r >= read && r <= total, "bytes-read", [&] { return vh::cat(what, ": bytes_read ", read, " -> ", r, " of ", total); });
        c.check(hs >= hashed, "bytes-hashed", [&] { return vh::cat(what, ": bytes_hashed ", hashed, " -> ", hs); });
        if (c.check(f.file_index < before.size(), "current-file", [&] { return vh::cat(what, ": file ", f.file_index, " of ", before.size(), " at ", d0); })) {
            auto size = st[f.file_index].file_size();
            auto pos = before[f.file_index] + f.bytes_hashed;
            c.check(f.bytes_hashed <= size && pos >= d0 && pos <= d1 && f.file_index >= index, "current-file",
                    [&] { return vh::cat(what, ": file ", f.file_index, " size ", size, " progress ", f.bytes_hashed, " between ", d0, " and ", d1); });
            index = f.file_index;
        }
        if (d0 > 0 && d0 < goal()) ++partial;
        done = d1; read = r; hashed = hs; ++samples;
    }
    void end(bool damaged)
    {
        poll();
        c.check(done == goal(), "final-bytes-done", [&] { return vh::cat(what, ": ", done, " of ", goal()); });
        if (!damaged) c.check(read >= regular && read <= total, "final-bytes-read", [&] { return vh::cat(what, ": ", read, " of ", regular, "/", total); });
        c.count("progress-samples", samples); c.count("progress-partial-samples", partial);
    }
};
static ref::Gen small_gen(vh::Rng& r)
{
    ref::Gen g; g.links = r.chance(1, 4); g.big = r.chance(1, 3);
    if (r.chance(1, 10)) { g.max_files = 30; g.max_size = 60000; }
    return g;
}
static dt::protocol some_protocol(vh::Rng& r) { auto x = r.below(3); return x == 0 ? dt::protocol::v1 : x == 1 ? dt::protocol::v2 : dt::protocol::hybrid; }

template <class H> static void run_watched(vh::Ctx& c, vh::Rng& r, H& h, const dt::file_storage& st, bool v1, bool damaged, const std::string& what)
{
    Watch<H> w(c, h, st, v1, what);
    w.poll(); c.check(w.done == 0 && w.read == 0 && w.hashed == 0, "progress-before-start", what);
    c.check(!h.started() && !h.running() && !h.done() && !h.cancelled(), "state-before-start", what);
    h.start();
    c.check(h.started() && h.running() && !h.done() && !h.cancelled(), "state-after-start", what);
    if (r.chance(1, 2)) {
        std::atomic<bool> over{false};
        std::thread t([&] { while (!over.load()) { w.poll(); if (r.chance(1, 3)) std::this_thread::yield(); } });
        h.wait(); over = true; t.join();
    } else {
        for (int i = 0; i < 200000 && h.bytes_done() < w.goal(); ++i) { w.poll(); if (i > 1000) ::usleep(20); }
        h.wait();
    }
    c.check(h.done() && !h.running() && !h.cancelled(), "state-after-wait", what);
    w.end(damaged);
    c.check(vh::Ctx::throws([&] { h.start(); }) && vh::Ctx::throws([&] { h.wait(); }) && vh::Ctx::throws([&] { h.cancel(); }), "reuse-accepted", what);
}
static void progress_case(vh::Ctx& c, std::uint64_t seed)
{
    vh::Rng r(seed);
    auto proto = some_protocol(r); auto g = small_gen(r); bool verify = r.chance(1, 2);
    auto k = ref::make(r, g);
    if (verify && proto == dt::protocol::hybrid) k = aligned(k);
    Dir dir(c); ref::materialise(k, dir.p);
    dt::file_storage st; ref::fill(st, k, dir.p);
    auto what = vh::cat(verify ? "verify " : "hash ", pick_name(r, proto), " ", k.describe(), " seed ", seed);
    if (verify) {
        set_hashes(st, k, proto);
        bool dmg = r.chance(1, 2); if (dmg) damage(r, k, dir.p, what);
        dt::storage_verifier_options o; o.protocol_version = proto; what += " " + options(r, o, k.piece_size, true);
        c.at("progress-verify", what); chaos::reset(seed, r.below(30));
        dt::storage_verifier v(st, o);
        run_watched(c, r, v, st, proto == dt::protocol::v1, dmg, what);
    } else {
        dt::storage_hasher_options o; o.protocol_version = proto; what += " " + options(r, o, k.piece_size, true);
        if (r.chance(1, 3)) o.checksums.insert(dt::hash_function::md5);
        c.at("progress-hash", what); chaos::reset(seed, r.below(30));
        dt::storage_hasher h(st, o);
        run_watched(c, r, h, st, proto == dt::protocol::v1, false, what);
    }
    c.eval(); c.count(verify ? "verify-runs" : "hash-runs"); c.distinct(what); if (seed % 5 == 0) c.sample(what);
}

template <class H> static void run_cancelled(vh::Ctx& c, vh::Rng& r, H& h, int when, std::size_t total, const std::string& what)
{
    int threads = thread_count();
    if (when == 0) { // never started
        c.count("cancelled-before-start"); h.cancel();
        c.check(h.cancelled() && h.done() && !h.running(), "state-after-cancel", what);
    } else if (when == 1) { c.count("never-used"); return; }
    else {
        h.start();
        if (when == 2) { if (r.chance(1, 2)) ::usleep(r.below(3000)); }
        else if (when == 3) { auto goal = total ? r.below(total) : 0; for (int i = 0; i < 100000 && h.bytes_done() < goal; ++i) std::this_thread::yield(); }
        else if (when == 4) ::usleep(20000 + r.below(30000));
        auto d = h.bytes_done();
        h.cancel();
        c.check(h.cancelled() && h.done() && !h.running(), "state-after-cancel", what);
        // a joined thread can stay visible in /proc for a moment
        for (int i = 0; i < 5000 && !tsan && thread_count() != threads; ++i) ::usleep(1000);
        c.check(tsan || thread_count() == threads, "threads-left-after-cancel", [&] { return vh::cat(what, ": ", thread_count(), " threads, ", threads, " before"); });
        c.count(d == 0 ? "cancelled-at-start" : d < total ? "cancelled-midway" : "cancelled-at-end");
        auto a = h.bytes_done(), b = h.bytes_read(); ::usleep(50);
        c.check(h.bytes_done() == a && h.bytes_read() == b && a >= d, "progress-after-cancel", what);
    }
    c.check(vh::Ctx::throws([&] { h.start(); }) && vh::Ctx::throws([&] { h.wait(); }) && vh::Ctx::throws([&] { h.cancel(); }), "reuse-accepted", what);
}
// whatever a run that did not complete has recorded is right
static void expect_partial(vh::Ctx& c, const dt::file_storage& st, const ref::Content& k, dt::protocol proto, const std::string& what)
{
    if ((proto & dt::protocol::v1) == dt::protocol::v1) {
        auto stream = proto == dt::protocol::hybrid ? hybrid_stream(k) : k.stream(); auto want = ref::v1(stream, k.piece_size); auto got = st.pieces();
        std::string zero(20, '\0');
        for (std::size_t i = 0; i < got.size(); ++i) {
            auto gs = ref::hstr(got[i]);
            c.check(gs == zero || (i < want.size() && gs == ref::str(want[i])), "wrong-hash-after-cancel", [&] { return vh::cat(what, ": piece ", i); });
            c.count(gs == zero ? "pieces-not-hashed" : "pieces-hashed");
        }
    }
    std::map<std::string, const ref::File*> by; for (auto& f : k.files) if (f.link.empty()) by[f.path] = &f;
    for (auto& e : st) {
        auto it = by.find(e.path().generic_string()); if (it == by.end() || e.is_padding_file()) continue;
        if (e.has_v2_data() && e.file_size()) c.check(ref::hstr(e.pieces_root()) == ref::str(ref::v2(it->second->data, k.piece_size).root), "wrong-root-after-cancel", [&] { return vh::cat(what, ": ", it->first); });
        if (e.has_v2_data() && e.piece_layer().size()) { auto l = ref::v2(it->second->data, k.piece_size).layer; auto g2 = e.piece_layer(); bool same = l.size() == g2.size(); for (std::size_t j = 0; same && j < l.size(); ++j) same = ref::hstr(g2[j]) == ref::str(l[j]); c.check(same, "wrong-layer-after-cancel", [&] { return vh::cat(what, ": ", it->first); }); }
        for (auto& [f, name] : sums) if (auto* s = e.get_checksum(f)) {
            auto want = ref::digest(EVP_get_digestbyname(name), it->second->data); auto v = s->value();
            c.check(v.size() == want.size() && std::equal(v.begin(), v.end(), want.begin()), "wrong-checksum-after-cancel", [&] { return vh::cat(what, ": ", it->first); });
        }
    }
}
static void cancel_case(vh::Ctx& c, std::uint64_t seed)
{
    vh::Rng r(seed);
    auto proto = some_protocol(r); auto g = small_gen(r); bool verify = r.chance(1, 2); if (r.chance(1, 2)) g.big = true;
    auto k = ref::make(r, g);
    if (g.big) { auto& f = k.files[r.below(k.files.size())]; if (f.link.empty() && !f.padding) f.data = r.data(k.piece_size * (6 + r.below(80)) + r.below(5000)); }
    if (verify && proto == dt::protocol::hybrid) k = aligned(k);
    auto total = k.total();
    Dir dir(c); ref::materialise(k, dir.p);
    dt::file_storage st; ref::fill(st, k, dir.p);
    int when = r.chance(1, 12) ? r.below(2) : 2 + r.below(3); if (when == 4 && !r.chance(1, 4)) when = 2;
    auto what = vh::cat("cancel ", when, verify ? " verify " : " hash ", pick_name(r, proto), " ", k.describe(), " seed ", seed);
    if (verify) {
        set_hashes(st, k, proto);
        if (r.chance(1, 2)) damage(r, k, dir.p, what);
        dt::storage_verifier_options o; o.protocol_version = proto; what += " " + options(r, o, k.piece_size, true);
        if (r.chance(2, 3)) { o.min_io_block_size = k.piece_size; o.max_memory = 1; }
        c.at("cancel-verify", what); chaos::reset(seed, r.below(40));
        { dt::storage_verifier v(st, o); run_cancelled(c, r, v, when, total, what); }
        if ((proto & dt::protocol::v1) == dt::protocol::v1) expect_v1(c, st, k.stream(), k.piece_size, what + " (recorded hashes)");
    } else {
        dt::storage_hasher_options o; o.protocol_version = proto; what += " " + options(r, o, k.piece_size, true);
        if (r.chance(2, 3)) { o.min_io_block_size = k.piece_size; o.max_memory = 1; }
        for (auto& s : sums) if (r.chance(1, 8)) o.checksums.insert(s.first);
        c.at("cancel-hash", what); chaos::reset(seed, r.below(40));
        { dt::storage_hasher h(st, o); run_cancelled(c, r, h, when, total, what); }
        expect_partial(c, st, k, proto, what);
        // and the storage can be hashed again
        if (r.chance(1, 2)) {
            dt::storage_hasher_options o2; o2.protocol_version = proto;
            if (proto == dt::protocol::hybrid) { st = dt::file_storage(); ref::fill(st, k, dir.p); }
            dt::storage_hasher h(st, o2); h.start(); h.wait();
            if (proto == dt::protocol::v1) expect_v1(c, st, k.stream(), k.piece_size, what + " (again)"); else expect_v2(c, st, k, what + " (again)");
        }
    }
    c.eval(); c.count(verify ? "verify-runs" : "hash-runs"); c.distinct(what); if (seed % 5 == 0) c.sample(what);
}

// ---------------------------------------------------------------- content that cannot be read
static void fault_case(vh::Ctx& c, std::uint64_t seed)
{
    vh::Rng r(seed);
    auto proto = some_protocol(r); auto g = small_gen(r); bool verify = r.chance(1, 3); g.padding = proto == dt::protocol::v1 && r.chance(1, 2);
    auto k = ref::make(r, g);
    if (verify && proto == dt::protocol::hybrid) k = aligned(k);
    Dir dir(c); ref::materialise(k, dir.p);
    dt::file_storage st; ref::fill(st, k, dir.p);
    if (verify) set_hashes(st, k, proto);
    std::vector<std::size_t> regular; std::size_t entries = 0;
    for (std::size_t i = 0; i < k.files.size(); ++i) { if (!k.files[i].padding && k.files[i].link.empty()) regular.push_back(i); entries += !k.files[i].padding; }
    if (regular.empty()) return;
    auto victim = r.pick(regular); auto& f = k.files[victim]; auto p = dir.p / f.path;
    auto what = vh::cat(verify ? "verify " : "hash ", pick_name(r, proto), " ", k.describe());
    // what goes wrong; the first four only matter to a hasher
    int kind = verify ? 4 + r.below(3) : r.below(7); bool certain = kind < 4;
    switch (kind) {
    case 0: fs::remove(p); what += vh::cat(" removed ", victim); break;
    case 1: case 2: {
        if (f.data.empty()) return;
        auto n = kind == 2 ? f.data.size() - 1 : r.chance(1, 3) ? 0 : r.chance(1, 3) ? f.data.size() / k.piece_size * k.piece_size : r.below(f.data.size());
        if (n == f.data.size()) n = 0;
        fs::resize_file(p, n); what += vh::cat(" cut ", victim, " to ", n); break; }
    case 3: fs::remove(p); switch (r.below(3)) { case 0: fs::create_directory(p); break; case 1: fs::create_symlink("nowhere to be found", p); break; default: if (::mkfifo(p.c_str(), 0600)) throw std::runtime_error("mkfifo"); } what += vh::cat(" replaced ", victim); break;
    default: break;
    }
    std::size_t nth = 0;
    if (kind == 4) { nth = 1 + r.below(entries); what += vh::cat(" open ", nth, " fails"); }
    if (kind == 5) { nth = 1 + r.below(std::max<std::size_t>(2, r.chance(1, 2) ? entries : k.total() / k.piece_size + entries)); what += vh::cat(" read ", nth, " fails"); }
    bool gentle = kind == 6 || r.chance(1, 3); if (gentle) what += " interrupted reads";
    what += vh::cat(" seed ", seed);
    auto run = [&](auto& h) {
        int threads = thread_count();
        std::optional<std::string> e;
        fault::arm(dir.p.string(), seed, gentle, kind == 4 ? nth : 0, kind == 5 ? nth : 0);
        e = vh::Ctx::throws([&] { h.start(); h.wait(); });
        bool hit = fault::disarm() || certain;
        c.check(!(e && *e == "x:non-std"), "odd-exception", what);
        c.check(!hit || e, "unreadable-content-accepted", what);
        c.check(hit || !e, "readable-content-refused", [&] { return vh::cat(what, ": ", *e); });
        c.check(h.done() && !h.running() && !h.cancelled(), "state-after-error", what);
        for (int i = 0; i < 5000 && !tsan && thread_count() != threads; ++i) ::usleep(1000);
        c.check(tsan || thread_count() == threads, "threads-left-after-error", [&] { return vh::cat(what, ": ", thread_count(), " threads, ", threads, " before"); });
        c.check(vh::Ctx::throws([&] { h.start(); }) && vh::Ctx::throws([&] { h.wait(); }) && vh::Ctx::throws([&] { h.cancel(); }), "reuse-accepted", what);
        c.count(!hit ? "nothing-went-wrong" : certain ? "content-faults" : kind == 4 ? "open-faults" : "read-faults");
        return hit;
    };
    auto all = [&](const std::string& w) {
        if (proto == dt::protocol::v1) expect_v1(c, st, k.stream(), k.piece_size, w); else expect_v2(c, st, k, w);
        if (proto == dt::protocol::hybrid) expect_v1(c, st, verify ? k.stream() : hybrid_stream(k), k.piece_size, w);
    };
    chaos::reset(seed, r.below(30));
    if (verify) {
        dt::storage_verifier_options o; o.protocol_version = proto == dt::protocol::hybrid && r.chance(1, 2) ? dt::protocol::v1 : proto; what += vh::cat(" as ", (int)o.protocol_version, " ", options(r, o, k.piece_size, true)); c.at("fault-verify", what);
        bool hit;
        auto whole = [&](dt::storage_verifier& v, const std::string& w) { for (std::size_t i = 0; i < k.files.size(); ++i) if (k.files[i].link.empty() && !k.files[i].padding) c.check(v.percentage(i) == 100, "intact-content-flagged", [&] { return vh::cat(w, ": file ", i, " is ", v.percentage(i), "%"); }); };
        { dt::storage_verifier v(st, o); hit = run(v); if (!hit) whole(v, what); }
        all(what + " (recorded hashes)");
        if (hit) { dt::storage_verifier v(st, o); v.start(); v.wait(); whole(v, what + " (again)"); }
    } else {
        dt::storage_hasher_options o; o.protocol_version = proto; what += " " + options(r, o, k.piece_size, true); c.at("fault-hash", what);
        for (auto& s : sums) if (r.chance(1, 8)) o.checksums.insert(s.first);
        bool hit; { dt::storage_hasher h(st, o); hit = run(h); }
        if (!hit) all(what);
        else {
            expect_partial(c, st, k, proto, what);
            // the content is back, and can be hashed
            std::error_code ec; if (certain) { fs::remove_all(p, ec); ref::write_file(p, f.data); }
            dt::storage_hasher h(st, o); h.start(); h.wait(); all(what + " (again)"); c.count("hashed-after-error");
        }
    }
    c.eval(); c.count(verify ? "verify-runs" : "hash-runs"); c.distinct(what); if (seed % 5 == 0) c.sample(what);
}

// ---------------------------------------------------------------- what a run leaves alone
static void frame_case(vh::Ctx& c, std::uint64_t seed)
{
    vh::Rng r(seed);
    auto proto = some_protocol(r); auto g = small_gen(r); bool verify = r.chance(1, 3); g.links = r.chance(1, 3); g.padding = proto == dt::protocol::v1 && r.chance(1, 3);
    auto k = ref::make(r, g);
    if (verify && proto == dt::protocol::hybrid) k = aligned(k);
    Dir dir(c); ref::materialise(k, dir.p);
    auto what = vh::cat(verify ? "verify " : "hash ", pick_name(r, proto), " ", k.describe(), " seed ", seed);
    dt::file_storage st; ref::fill(st, k, dir.p); if (verify) set_hashes(st, k, proto);
    using time = fs::file_time_type; auto some_time = [&] { return time::clock::from_sys(std::chrono::sys_seconds(std::chrono::seconds((std::int64_t)r.below(1ull << 31)))); };
    if (r.chance(1, 2)) st.set_file_mode(r.chance(1, 2) ? dt::file_mode::single : dt::file_mode::multi);
    std::set<dt::hash_function> asked; if (!verify) for (auto& s : sums) if (r.chance(1, 6)) asked.insert(s.first);
    std::map<std::string, time> disk;
    for (std::size_t i = 0; i < k.files.size(); ++i) {
        auto& f = k.files[i]; if (f.padding) continue;
        if (f.link.empty()) { auto p = dir.p / f.path; fs::permissions(p, (fs::perms)(r.chance(1, 2) ? 0644 : r.chance(1, 2) ? 0755 : 0400)); }
        if (r.chance(1, 3)) st[i].set_last_modified_time(some_time());
        for (auto& s : sums) if (r.chance(1, 8)) { auto n = EVP_MD_get_size(EVP_get_digestbyname(s.second)); auto raw = r.raw(n); st[i].add_checksum(dt::make_checksum(dt::to_string(s.first), std::string_view(raw))); }
    }
    if (verify) for (std::size_t i = 0; i < k.files.size(); ++i) if (auto& f = k.files[i]; f.link.empty() && !f.padding && !f.data.empty() && r.chance(1, 6)) { auto p = dir.p / f.path; if (r.chance(1, 2)) fs::remove(p); else fs::resize_file(p, r.below(f.data.size())); }
    for (auto& f : k.files) if (f.link.empty() && !f.padding && fs::exists(dir.p / f.path)) { auto t = some_time(); fs::last_write_time(dir.p / f.path, t); disk[f.path] = fs::last_write_time(dir.p / f.path); }
    // everything but results; padding is listed only where it may not be added
    bool pads = verify || proto != dt::protocol::hybrid;
    auto look = [&](bool sums_too) {
        std::ostringstream o; o << st.root_directory() << " " << st.piece_size() << " "; if (pads) o << (int)st.file_mode(); o << "\n";
        for (auto& e : st) { if (e.is_padding_file() && !pads) continue; o << e.path() << " " << e.file_size() << " " << (e.attributes() ? (int)*e.attributes() : -1) << " " << (e.symlink_path() ? e.symlink_path()->string() : "-");
            if (sums_too) for (auto& [a, v] : e.checksums()) { bool mine = false; for (auto& s : asked) mine |= dt::to_string(s) == a; if (!mine) o << " " << a << "=" << v->hex_string(); }
            if (verify && e.has_v2_data()) { o << " root " << ref::hstr(e.pieces_root()); for (auto& l : e.piece_layer()) o << ref::hstr(l); }
            o << "\n"; }
        if (verify) for (auto& p : st.pieces()) o << ref::hstr(p);
        return o.str();
    };
    auto before = look(true); std::vector<std::optional<time>> times; for (auto& e : st) if (!e.is_padding_file()) times.push_back(e.last_modified_time());
    if (verify) { dt::storage_verifier_options o; o.protocol_version = proto; what += " " + options(r, o, k.piece_size, true); c.at("frame-verify", what); chaos::reset(seed, r.below(20)); dt::storage_verifier v(st, o); v.start(); v.wait(); }
    else { dt::storage_hasher_options o; o.protocol_version = proto; o.checksums.insert(asked.begin(), asked.end()); what += " " + options(r, o, k.piece_size, true); c.at("frame-hash", what); chaos::reset(seed, r.below(20)); dt::storage_hasher h(st, o); h.start(); h.wait(); }
    auto after = look(true); c.check(before == after, "changed-by-run", [&] { return vh::cat(what, "\nbefore ", vh::show(before, 3000), "\nafter ", vh::show(after, 3000)); });
    std::size_t i = 0;
    for (auto& e : st) {
        if (e.is_padding_file()) { c.check(!e.last_modified_time(), "padding-with-time", [&] { return vh::cat(what, ": ", e.path()); }); continue; }
        if (i >= times.size()) break;
        auto t = e.last_modified_time(); auto was = times[i++]; if (e.is_symlink()) continue;
        auto d = disk.find(e.path().string());
        if (d != disk.end()) { c.check(t && *t == d->second, "modification-time", [&] { return vh::cat(what, ": ", e.path(), t ? " has another" : " has none"); }); c.count("times-compared"); }
        else { c.check(t == was, "time-of-missing-file", [&] { return vh::cat(what, ": ", e.path()); }); c.count("missing-files"); }
        if (!verify) for (auto& s : asked) c.check(e.get_checksum(s) != nullptr, "checksum-missing", [&] { return vh::cat(what, ": ", e.path()); });
    }
    if (!verify && proto == dt::protocol::v1) for (auto& e : st) c.check(!e.has_v2_data(), "v2-data-of-v1", what);
    if (!verify && proto == dt::protocol::v2) c.check(st.pieces().empty(), "pieces-of-v2", what);
    for (auto& [p, t] : disk) c.check(fs::exists(dir.p / p) && fs::last_write_time(dir.p / p) == t, "disk-changed", [&] { return vh::cat(what, ": ", p); });
    c.eval(); c.count(verify ? "verify-runs" : "hash-runs"); c.distinct(what); if (seed % 5 == 0) c.sample(what);
}

// ---------------------------------------------------------------- memory for file data
#ifdef __SANITIZE_ADDRESS__
extern "C" { int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, std::size_t), void (*)(const volatile void*)); std::size_t __sanitizer_get_allocated_size(const volatile void*); }
namespace mem {   // live bytes of allocations of at least `least` bytes, seen by the allocator's own hooks
static std::atomic<std::size_t> least{~std::size_t(0)}; static std::atomic<long long> live{0}, peak{0}; static std::atomic<std::size_t> blocks{0};
static void on_malloc(const volatile void*, std::size_t n) { if (n < least.load(std::memory_order_relaxed)) return; blocks.fetch_add(1); auto v = live.fetch_add(n) + (long long)n; auto p = peak.load(); while (p < v && !peak.compare_exchange_weak(p, v)) {} }
static void on_free(const volatile void* p) { if (!p || least.load(std::memory_order_relaxed) == ~std::size_t(0)) return; auto n = __sanitizer_get_allocated_size(p); if (n >= least.load(std::memory_order_relaxed)) live.fetch_sub(n); }
static void arm(std::size_t n) { static bool once = __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free) != 0; if (!once) throw std::runtime_error("no allocator hooks"); live = 0; peak = 0; blocks = 0; least = n; }
static void disarm() { least = ~std::size_t(0); }
}
static void memory_case(vh::Ctx& c, std::uint64_t seed)
{
    vh::Rng r(seed);
    auto proto = some_protocol(r); bool verify = r.chance(1, 3);
    std::size_t ps = std::size_t(16384) << r.below(4);
    std::size_t io = r.chance(1, 8) ? 0 : r.chance(1, 3) ? ps : r.chance(1, 2) ? ps * (1 + r.below(4)) : 1 + r.below(200000);
    std::size_t threads = 1 + r.below(4), memory = r.chance(1, 4) ? 0 : r.chance(1, 3) ? 1 + r.below(100000) : 1 + r.below(2000000);
    std::size_t block = std::max(ps, io ? io : std::size_t(1) << 20); block = (block + ps - 1) / ps * ps;
    std::size_t limit = memory ? std::max(memory, 4 * block) : std::max<std::size_t>(4, 4 * threads) * block;
    auto total = limit * 2 + r.below(4 * block); if (total > (24u << 20)) { threads = 1; memory = 1; limit = 4 * block; total = 3 * limit; }
    Dir dir(c); dt::file_storage st; st.set_root_directory(dir.p); std::size_t sofar = 0, largest = 0; int n = 0;
    std::string text(1 << 16, 'x'); for (auto& ch : text) ch = (char)r();
    while (sofar < total) {
        std::size_t size = n >= 12 ? total - sofar : r.chance(1, 3) ? r.below(3 * ps) : r.chance(1, 2) ? total - sofar : ps * (1 + r.below(8));
        auto name = vh::cat("f", n++); std::ofstream o(dir.p / name, std::ios::binary); for (std::size_t left = size; left;) { auto k = std::min(left, text.size()); o.write(text.data(), k); left -= k; } o.close();
        st.add_file(dt::file_entry(name, size)); sofar += size; largest = std::max(largest, size);
    }
    st.set_piece_size(ps);
    auto what = vh::cat(verify ? "verify " : "hash ", pick_name(r, proto), " ", n, " files, ", sofar, " bytes, piece size ", ps, " threads ", threads, " io ", io, " memory ", memory, " limit ", limit, " seed ", seed);
    c.at("memory", what);
    auto judge = [&](auto& h, auto&& drop) {
        h.start(); 
        if (r.chance(1, 5)) { ::usleep(r.below(3000)); h.cancel(); c.count("cancelled"); } else h.wait();
        auto peak = mem::peak.load();
        // besides the file data: the zero padding of hybrid torrents, at most a piece, doubled and copied while it grows
        std::size_t slack = proto == dt::protocol::hybrid ? 3 * ps : 0;
        // and whatever else can be as large as a block: file lists, piece hashes and merkle trees
        auto other = [&](std::size_t bytes) { if (bytes >= block / 4 * 3) slack += 3 * bytes; };
        other(std::bit_ceil(2u * n) * sizeof(dt::file_entry)); other(64 * (sofar / ps + 2 * n)); other(128 * std::bit_ceil(largest / 16384 + 1));
        c.check(peak <= (long long)(limit + slack), "memory-limit", [&] { return vh::cat(what, ": ", peak, " bytes of file data in memory"); });
        if (peak + (long long)block > (long long)limit) c.count("limit-reached");
        c.count("blocks-seen", mem::blocks.load());
        drop();
        auto left = mem::live.load(); mem::disarm();
        c.check(left <= (long long)slack, "memory-kept", [&] { return vh::cat(what, ": ", left, " bytes still in memory afterwards"); });
    };
    chaos::reset(seed, r.below(60));
    if (verify) {
        { dt::storage_hasher_options o; o.protocol_version = proto; dt::storage_hasher h(st, o); h.start(); h.wait(); }
        dt::storage_verifier_options o; o.protocol_version = proto; o.threads = threads; if (io) o.min_io_block_size = io; if (memory) o.max_memory = memory;
        mem::arm(block / 4 * 3); auto v = std::make_unique<dt::storage_verifier>(st, o); judge(*v, [&] { v.reset(); });
    } else {
        dt::storage_hasher_options o; o.protocol_version = proto; o.threads = threads; if (io) o.min_io_block_size = io; if (memory) o.max_memory = memory;
        for (auto& s : sums) if (r.chance(1, 6)) o.checksums.insert(s.first);
        mem::arm(block / 4 * 3); auto h = std::make_unique<dt::storage_hasher>(st, o); judge(*h, [&] { h.reset(); });
    }
    c.eval(); c.count(verify ? "verify-runs" : "hash-runs"); c.distinct(what); if (seed % 5 == 0) c.sample(what);
}
#else
static void memory_case(vh::Ctx&, std::uint64_t) { throw std::runtime_error("needs the address sanitizer"); }
#endif

// ---------------------------------------------------------------- content beyond 4 GiB
// A sparse file a little over 4 GiB with a few marked bytes between two ordinary files.
static void huge_case(vh::Ctx& c, dt::protocol proto, bool verify, std::size_t ps, bool sum)
{
    const std::size_t big = (std::size_t(4) << 30) + 3 * ps + 54321;
    vh::Rng r(c.seed * 31 + 7);
    auto what = vh::cat(verify ? "verify " : "hash ", pick_name(r, proto), " of a file of ", big, " bytes, piece size ", ps);
    c.at("huge", what); chaos::reset(1, 0);
    Dir d(c);
    std::vector<std::size_t> sizes{70001, big, 90002};
    std::vector<std::map<std::size_t, std::byte>> marks(3);
    for (int i : {0, 2}) for (std::size_t j = 0; j < sizes[i]; ++j) marks[i][j] = std::byte(r() | 1);
    for (std::size_t o : {std::size_t(0), std::size_t(1) << 31, (std::size_t(1) << 32) - 1, std::size_t(1) << 32, (std::size_t(1) << 32) + ps, big - 1}) marks[1][o] = std::byte(r() | 1);
    const char* names[] = {"a", "b", "c"};
    for (int i = 0; i < 3; ++i) {
        std::ofstream f(d.p / names[i], std::ios::binary); f.close(); fs::resize_file(d.p / names[i], sizes[i]);
        std::fstream o(d.p / names[i], std::ios::binary | std::ios::in | std::ios::out);
        for (auto& [p, b] : marks[i]) { o.seekp(p); o.write((const char*)&b, 1); }
    }
    bool v1 = proto != dt::protocol::v2, v2 = proto != dt::protocol::v1;
    // references, piece by piece; pieces without a mark are all alike
    std::vector<bytes> want1; std::vector<ref::V2> want2;
    if (v1) {
        std::vector<std::size_t> at; std::size_t pos = 0;
        for (int i = 0; i < 3; ++i) { at.push_back(pos); pos += sizes[i]; if (v2 && i < 2) pos = (pos + ps - 1) / ps * ps; }
        auto zero = ref::sha1(bytes(ps));
        for (std::size_t p = 0; p < pos; p += ps) {
            bytes x(std::min(ps, pos - p)); bool any = false;
            for (int i = 0; i < 3; ++i) for (auto m = marks[i].lower_bound(p > at[i] ? p - at[i] : 0); m != marks[i].end() && at[i] + m->first < p + x.size(); ++m) { x[at[i] + m->first - p] = m->second; any = true; }
            want1.push_back(!any && x.size() == ps ? zero : ref::sha1(x));
        }
    }
    if (v2) {
        auto tree = [&](const bytes& x) { std::vector<bytes> l; for (std::size_t o = 0; o < x.size(); o += ref::block) l.push_back(ref::sha256(std::span(x).subspan(o, std::min(ref::block, x.size() - o)))); l.resize(ps / ref::block, bytes(32)); return ref::fold(l, bytes(32)); };
        auto zero = tree(bytes(ps));
        for (int i = 0; i < 3; ++i) {
            bytes x; ref::V2 w;
            if (sizes[i] <= ps) { x.resize(sizes[i]); for (auto& [o, b] : marks[i]) x[o] = b; w = ref::v2(x, ps); }
            else {
                for (std::size_t p = 0; p < sizes[i]; p += ps) {
                    x.assign(std::min(ps, sizes[i] - p), std::byte(0)); bool any = false;
                    for (auto m = marks[i].lower_bound(p); m != marks[i].end() && m->first < p + x.size(); ++m) { x[m->first - p] = m->second; any = true; }
                    w.layer.push_back(!any && x.size() == ps ? zero : tree(x));
                }
                w.root = ref::fold(w.layer, ref::fold(std::vector<bytes>(ps / ref::block, bytes(32)), bytes(32)));
            }
            want2.push_back(w);
        }
    }
    dt::file_storage st; st.set_root_directory(d.p);
    for (int i = 0; i < 3; ++i) st.add_file(dt::file_entry(names[i], sizes[i]));
    st.set_piece_size(ps);
    auto same = [&] {
        if (v1) { auto g = st.pieces(); bool ok = g.size() == want1.size(); for (std::size_t i = 0; ok && i < g.size(); ++i) if (ref::hstr(g[i]) != ref::str(want1[i])) { ok = false; c.violation("huge-piece-hash", vh::cat(what, ": piece ", i)); } c.check(g.size() == want1.size(), "huge-piece-count", what); }
        std::size_t i = 0;
        if (v2) for (auto& e : st) {
            if (e.is_padding_file()) continue;
            auto& w = want2[i++]; bool ok = e.has_v2_data() && ref::hstr(e.pieces_root()) == ref::str(w.root) && e.piece_layer().size() == w.layer.size();
            for (std::size_t j = 0; ok && j < w.layer.size(); ++j) ok = ref::hstr(e.piece_layer()[j]) == ref::str(w.layer[j]);
            c.check(ok, "huge-tree", [&] { return vh::cat(what, ": ", e.path()); });
        }
    };
    if (!verify) {
        dt::storage_hasher_options o; o.protocol_version = proto; o.threads = 4; if (sum) o.checksums.insert(dt::hash_function::sha1);
        dt::storage_hasher h(st, o); Watch<dt::storage_hasher> w(c, h, st, proto == dt::protocol::v1, what); w.poll(); h.start();
        std::atomic<bool> over{false}; std::thread t([&] { while (!over.load()) { w.poll(); ::usleep(2000); } });
        h.wait(); over = true; t.join(); w.end(false);
        same(); c.count("huge-hashed");
        if (sum) for (auto& e : st) if (!e.is_padding_file()) {
            auto* x = EVP_MD_CTX_new(); EVP_DigestInit_ex(x, EVP_sha1(), nullptr); std::ifstream f(d.p / e.path(), std::ios::binary); std::vector<char> buf(1 << 20);
            while (f.read(buf.data(), buf.size()), f.gcount()) EVP_DigestUpdate(x, buf.data(), f.gcount());
            std::string w(20, 0); EVP_DigestFinal_ex(x, (unsigned char*)w.data(), nullptr); EVP_MD_CTX_free(x);
            auto* k = e.get_checksum(dt::hash_function::sha1);
            c.check(k && ref::hstr(k->value()) == w, "huge-checksum", [&] { return vh::cat(what, ": ", e.path()); });
        }
    } else {
        if (v2 && v1) dt::optimize_alignment(st);
        if (v1) { st.allocate_pieces(); for (std::size_t i = 0; i < want1.size(); ++i) { dt::sha1_hash x; std::memcpy(x.data(), want1[i].data(), 20); st.set_piece_hash(i, x); } }
        std::size_t i = 0;
        if (v2) for (auto& e : st) {
            if (e.is_padding_file()) continue;
            auto& w = want2[i++]; dt::sha256_hash x; std::memcpy(x.data(), w.root.data(), 32); e.set_pieces_root(x);
            std::vector<dt::sha256_hash> l; for (auto& q : w.layer) { std::memcpy(x.data(), q.data(), 32); l.push_back(x); } e.set_piece_layer(l);
        }
        // one flipped byte beyond 4 GiB
        std::size_t at = (std::size_t(1) << 32) + ps + ps / 2;
        { std::fstream o(d.p / "b", std::ios::binary | std::ios::in | std::ios::out); char x = 7; o.seekp(at); o.write(&x, 1); }
        dt::storage_verifier_options o; o.protocol_version = proto; o.threads = 4;
        dt::storage_verifier v(st, o); Watch<dt::storage_verifier> w(c, v, st, proto == dt::protocol::v1, what); w.poll(); v.start();
        std::atomic<bool> over{false}; std::thread t([&] { while (!over.load()) { w.poll(); ::usleep(2000); } });
        v.wait(); over = true; t.join(); w.end(true);
        auto flags = [&](int i) { return std::max<std::size_t>(1, want2[i].layer.size()); };
        std::size_t bad = proto == dt::protocol::v1 ? (sizes[0] + at) / ps : flags(0) + at / ps;
        std::size_t n = proto == dt::protocol::v1 ? want1.size() : flags(0) + flags(1) + flags(2);
        if (c.check(v.result().size() == n, "huge-result-size", [&] { return vh::cat(what, ": ", v.result().size(), " flags, expected ", n); }))
            for (std::size_t j = 0; j < n; ++j) c.check((v.result()[j] != 0) == (j != bad), "huge-flag", [&] { return vh::cat(what, ": piece ", j, " (damaged: ", bad, ")"); });
        double share = proto == dt::protocol::v1 ? 0 : 100.0 * (want2[1].layer.size() - 1) / want2[1].layer.size();
        std::size_t fi = proto == dt::protocol::hybrid ? 2 : 1; // after the padding of the first file
        if (proto != dt::protocol::v1) c.check(std::abs(v.percentage(fi) - share) < 1e-6, "huge-percentage", [&] { return vh::cat(what, ": ", v.percentage(fi)); });
        same(); c.count("huge-verified");
    }
    c.eval(); c.distinct(what);
}

// ---------------------------------------------------------------- more files than fit in 16 bits
static void crowd_case(vh::Ctx& c, dt::protocol proto, bool verify, bool sum)
{
    vh::Rng r(c.seed * 37 + (int)proto);
    ref::Content k; k.piece_size = 16384;
    for (int i = 0, n = 66000 + r.below(500); i < n; ++i) {
        ref::File f; f.path = vh::cat(i / 4000, "/", i);
        if (i > 65500 || r.chance(1, 60)) f.data = r.data(r.chance(1, 20) ? r.below(40000) : 1 + r.below(30));
        k.files.push_back(std::move(f));
    }
    auto what = vh::cat(verify ? "verify " : "hash ", pick_name(r, proto), " of ", k.files.size(), " files");
    c.at("crowd", what); chaos::reset(1, 0);
    Dir d(c); ref::materialise(k, d.p);
    auto orig = k; if (verify && proto == dt::protocol::hybrid) k = aligned(k);
    dt::file_storage st; ref::fill(st, k, d.p);
    if (!verify) {
        dt::storage_hasher_options o; o.protocol_version = proto; o.threads = 3; o.min_io_block_size = k.piece_size; if (sum) o.checksums.insert(dt::hash_function::md5);
        dt::storage_hasher h(st, o); Watch<dt::storage_hasher> w(c, h, st, proto == dt::protocol::v1, what); h.start(); h.wait(); w.end(false);
        if (proto == dt::protocol::v1) expect_v1(c, st, k.stream(), k.piece_size, what); else expect_v2(c, st, k, what);
        if (proto == dt::protocol::hybrid) expect_v1(c, st, hybrid_stream(k), k.piece_size, what);
        if (sum) expect_sums(c, st, k, {0}, what);
        c.count("crowd-hashed");
    } else {
        set_hashes(st, k, proto);
        std::set<std::size_t> hurt; for (int i = 0; i < 5; ++i) { auto j = i < 3 ? k.files.size() - 1 - r.below(300) : r.below(k.files.size()); if (k.files[j].padding || k.files[j].data.empty() || !hurt.insert(j).second) continue; auto x = k.files[j].data; x[r.below(x.size())] ^= std::byte(4); ref::write_file(d.p / k.files[j].path, x); what += vh::cat(" hurt ", j); }
        for (int gone = 0, i = 0; gone < 2 && i < 2000; ++i) { // and two are missing
            auto j = k.files.size() - 1 - r.below(400); auto& x = k.files[j].data;
            if (k.files[j].padding || x.empty() || std::count(x.begin(), x.end(), std::byte(0)) || !hurt.insert(j).second) continue;
            if (gone++) fs::resize_file(d.p / k.files[j].path, 0); else fs::remove(d.p / k.files[j].path);
            what += vh::cat(" missing ", j);
        }
        auto on_disk = [&](const ref::File& f) { auto x = fs::exists(d.p / f.path) ? ref::read_file(d.p / f.path) : bytes(); x.resize(f.data.size()); return x; };
        dt::storage_verifier_options o; o.protocol_version = proto; o.threads = 3; o.min_io_block_size = k.piece_size;
        dt::storage_verifier v(st, o); Watch<dt::storage_verifier> w(c, v, st, proto == dt::protocol::v1, what); v.start(); v.wait(); w.end(true);
        auto& res = v.result(); std::vector<char> want;
        if (proto == dt::protocol::v1) {
            want.assign((k.total() + k.piece_size - 1) / k.piece_size, 1); std::size_t at = 0; bytes got = k.stream(), now;
            for (auto& f : k.files) { auto x = on_disk(f); now.insert(now.end(), x.begin(), x.end()); }
            for (std::size_t p = 0; p < want.size(); ++p) want[p] = std::equal(got.begin() + p * k.piece_size, got.begin() + std::min(got.size(), (p + 1) * k.piece_size), now.begin() + p * k.piece_size); (void)at;
        } else for (std::size_t i = 0; i < k.files.size(); ++i) { auto& f = k.files[i]; if (f.padding) continue; if (f.data.empty()) { want.push_back(1); continue; }
            auto x = on_disk(f); for (std::size_t p = 0; p < x.size(); p += k.piece_size) want.push_back(std::equal(x.begin() + p, x.begin() + std::min(x.size(), p + k.piece_size), f.data.begin() + p)); }
        if (c.check(res.size() == want.size(), "crowd-result-size", what)) for (std::size_t i = 0; i < want.size(); ++i) c.check((res[i] != 0) == (want[i] != 0), "crowd-flag", [&] { return vh::cat(what, ": flag ", i, " is ", (int)res[i]); });
        if (proto != dt::protocol::v1) for (auto j : hurt) c.check(v.percentage(j) < 100, "crowd-percentage", [&] { return vh::cat(what, ": file ", j); });
        c.count("crowd-verified");
    }
    c.eval(); c.distinct(what);
}

static void batches(vh::Ctx& c, const std::string& label, std::size_t total, std::size_t per, const std::function<void(vh::Ctx&, std::uint64_t)>& fn)
{
    for (std::size_t i = 0; i < total; i += per) {
        auto s0 = c.rng();
        c.isolated(label, vh::cat(label, " batch seed ", s0), [&](vh::Ctx& k) {
            for (std::size_t j = 0; j < per && i + j < total; ++j) fn(k, (s0 + j * 7919) | 1);
            k.count("chaos-delays", chaos::delays.load()); k.count("injected-short-or-interrupted-reads", fault::gentle_hits.load());
        }, 150);
    }
}

int main(int argc, char** argv)
{
    vh::Ctx c(argc, argv);
    auto m = c.mode;
    constexpr std::size_t small = 16384, large = 16u << 20;
    auto huge = [&](int shard, dt::protocol p, bool verify, std::size_t ps, bool sum = false) { if (c.shard == shard) c.isolated("huge", "content beyond 4 GiB", [=](vh::Ctx& k) { huge_case(k, p, verify, ps, sum); }, 300); };
    auto crowd = [&](int shard, dt::protocol p, bool verify, bool sum = false) { if (c.shard == shard) c.isolated("crowd", "more than 65536 files", [=](vh::Ctx& k) { crowd_case(k, p, verify, sum); }, 300); };
    using P = dt::protocol;
    if (m == "v1") { huge(0, P::v1, false, small); crowd(1, P::v1, false); }
    if (m == "v2") { huge(0, P::v2, false, large); crowd(1, P::v2, false); }
    if (m == "hybrid") { huge(0, P::hybrid, false, small); crowd(1, P::hybrid, false); }
    if (m == "sums") { huge(0, P::v1, false, large, true); huge(1, P::v2, false, large, true); crowd(2, P::v1, false, true); crowd(3, P::v2, false, true); }
    if (m == "verify1") { huge(0, P::v1, true, small); crowd(1, P::v1, true); }
    if (m == "verify2") { huge(0, P::v2, true, small); huge(1, P::hybrid, true, large); crowd(2, P::v2, true); crowd(3, P::hybrid, true); }
    if (m == "progress") { huge(0, P::v1, false, large); huge(1, P::v2, true, large); }
    if (m == "v1") batches(c, "hash-v1", c.n(2400, 40000), 20, [](vh::Ctx& k, std::uint64_t s) { hash_case(k, s, dt::protocol::v1, false); });
    if (m == "v2") batches(c, "hash-v2", c.n(2400, 40000), 20, [](vh::Ctx& k, std::uint64_t s) { hash_case(k, s, dt::protocol::v2, false); });
    if (m == "hybrid") batches(c, "hash-hybrid", c.n(2400, 40000), 20, [](vh::Ctx& k, std::uint64_t s) { hash_case(k, s, dt::protocol::hybrid, false); });
    if (m == "sums") batches(c, "hash-checksums", c.n(2400, 40000), 20, [](vh::Ctx& k, std::uint64_t s) { hash_case(k, s, s % 3 == 0 ? dt::protocol::v1 : s % 3 == 1 ? dt::protocol::v2 : dt::protocol::hybrid, true); });
    if (m == "verify1") batches(c, "verify-v1", c.n(1600, 40000), 20, [](vh::Ctx& k, std::uint64_t s) { verify_case(k, s, true); });
    if (m == "verify2") batches(c, "verify-v2", c.n(1600, 40000), 20, [](vh::Ctx& k, std::uint64_t s) { verify_case(k, s, false); });
    if (m == "progress") batches(c, "progress", c.n(3000, 60000), 20, progress_case);
    if (m == "cancel") batches(c, "cancel", c.n(1600, 40000), 20, cancel_case);
    if (m == "memory") batches(c, "memory", c.n(800, 12000), 20, memory_case);
    if (m == "frame") batches(c, "frame", c.n(2000, 30000), 20, frame_case);
    if (m == "fault") batches(c, "fault", c.n(2400, 40000), 20, fault_case);
    if (m == "tsan") batches(c, "pipeline", c.n(1500, 20000), 10, [](vh::Ctx& k, std::uint64_t s) {
        switch (s / 2 % 7) {
        case 0: return hash_case(k, s, dt::protocol::v1, s % 4 == 1);
        case 1: return hash_case(k, s, dt::protocol::v2, s % 4 == 1);
        case 2: return hash_case(k, s, dt::protocol::hybrid, s % 4 == 1);
        case 3: return verify_case(k, s, s % 4 == 1);
        case 4: return progress_case(k, s);
        case 5: return fault_case(k, s);
        default: return cancel_case(k, s);
        }
    });
    return c.finish();
}
