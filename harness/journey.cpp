// A torrent from making to checking: scan, hash, write, load elsewhere, verify intact and damaged content.
#include "spec.hpp"
#define CHAOS_WRAP
#include "chaos.hpp"
#include <dottorrent/storage_hasher.hpp>
#include <dottorrent/storage_verifier.hpp>
using ref::bytes;

template <class O> static void options(vh::Rng& r, O& o, std::size_t piece)
{
    o.threads = 1 + r.below(4);
    if (r.chance(1, 2)) o.min_io_block_size = r.chance(1, 2) ? piece * (1 + r.below(3)) : 1 + r.below(300000);
    if (r.chance(1, 3)) o.max_memory = 1 + r.below(2000000);
}
static void journey(vh::Ctx& c, std::uint64_t seed)
{
    vh::Rng r(seed); auto kind = 1 + r.below(3);
    ref::Gen g; g.links = r.chance(1, 4); if (r.chance(1, 25)) { g.max_files = 40; g.max_size = 40000; } else g.max_size = 300000;
    bool single = r.chance(1, 6); if (single) { g.max_files = 1; g.links = false; }
    auto k = ref::make(r, g);
    if (!k.total()) return;
    auto what = cat("kind ", kind, " ", k.describe(), " seed ", seed); c.at("journey", what);
    static int serial = 0;
    auto base = c.scratch / cat("j-", ::getpid(), "-", serial++), here = base / "here", there = base / "the re";
    struct Clean { fs::path p; ~Clean() { std::error_code ec; fs::remove_all(p, ec); } } clean{base};
    ref::materialise(k, here);
    for (auto& f : k.files) if (f.link.empty() && r.chance(1, 4)) fs::permissions(here / f.path, fs::perms(0755));
    // made
    dt::metafile m; auto& st = m.storage(); st.set_root_directory(here);
    auto order = k.files; r.shuffle(order);
    bool keep = g.links || r.chance(1, 2);
    for (auto& f : order) st.add_file(r.chance(1, 2) ? here / f.path : here / "." / f.path, keep ? dt::file_options::copy_symlinks : r.chance(1, 2) ? dt::file_options::add_attributes : dt::file_options::none);
    std::size_t piece = k.piece_size;
    if (r.chance(1, 10)) piece = dt::choose_piece_size(st); else st.set_piece_size(piece);
    if (single) st.set_file_mode(dt::file_mode::single);
    auto name = single ? fs::path(k.files[0].path).string() : component(r); m.set_name(name);
    if (single && name.find('/') != std::string::npos) return;
    for (int n = r.below(4); n--;) m.add_tracker(url(r), r.below(m.trackers().tier_count() + 1));
    if (r.chance(1, 2)) m.add_web_seed(url(r));
    if (r.chance(1, 2)) m.set_private(true);
    if (r.chance(1, 2)) m.set_comment(text(r));
    dt::storage_hasher_options ho; ho.protocol_version = proto(kind); options(r, ho, piece);
    bool sums = r.chance(1, 3); if (sums) { ho.checksums.insert(dt::hash_function::md5); ho.checksums.insert(dt::hash_function::sha1); }
    chaos::reset(seed, r.below(20));
    { dt::storage_hasher h(st, ho); h.start(); h.wait(); }
    if (r.chance(1, 4)) m.set_creation_date((std::time_t)(1 + r.below(1ull << 33)));
    int as = kind == 3 && r.chance(1, 3) ? 1 + r.below(2) : kind;
    what += cat(" as ", as); c.at("journey-write", what);
    auto file = base / "a.torrent";
    dt::save_metafile(file, m, proto(as));
    // taken elsewhere
    fs::rename(here, there);
    for (auto& f : k.files) if (!f.link.empty()) { fs::remove(there / f.path); fs::create_symlink(there / f.link, there / f.path); }
    auto l = dt::load_metafile(file); auto& ls = l.storage();
    c.check(l.name() == name && ls.piece_size() == piece && l.is_private() == m.is_private() && l.comment() == m.comment() && l.trackers() == m.trackers(), "fields", what);
    if (as == kind || kind != 3) {
        if (as & 1) c.check(dt::info_hash_v1(l) == dt::info_hash_v1(m), "info-hash", what);
        if (as & 2) c.check(dt::info_hash_v2(l) == dt::info_hash_v2(m), "info-hash", what);
        c.check(dt::encode_magnet_uri(dt::make_magnet_uri(l, proto(as))) == dt::encode_magnet_uri(dt::make_magnet_uri(m, proto(as))), "magnet", what);
    }
    std::map<std::string, const ref::File*> by; for (auto& f : k.files) by[f.path] = &f;
    std::size_t found = 0; bool right = true;
    for (auto& e : ls) if (!e.is_padding_file()) {
        auto it = by.find(e.path().string()); if (it == by.end()) { right = false; continue; }
        ++found; auto& f = *it->second; right &= e.file_size() == f.data.size() && e.is_symlink() == !f.link.empty();
        if (!f.link.empty()) right &= e.symlink_path() && *e.symlink_path() == fs::path(f.link).lexically_normal();
        else if (sums) for (auto [alg, md] : {std::pair(dt::hash_function::md5, EVP_md5()), std::pair(dt::hash_function::sha1, EVP_sha1())}) { auto* s = e.get_checksum(alg); c.check(s && s->hex_string() == vh::hexs(ref::digest(md, f.data)), "checksum", [&] { return cat(what, ": ", f.path); }); }
    }
    if (!c.check(right && found == k.files.size(), "file-list", [&] { std::string s; for (auto& e : ls) s += cat(" ", e.path(), ":", e.file_size()); return cat(what, "\nloaded", s); })) return;
    // checked
    ls.set_root_directory(there);
    auto check = [&](const ref::File* bad, std::size_t at, const std::string& how) {
        dt::storage_verifier_options vo; options(r, vo, piece); if (r.chance(1, 2)) vo.protocol_version = proto(as == 3 ? 1 + r.below(3) : as);
        bool v1 = as == 1 || vo.protocol_version == dt::protocol::v1; auto w = cat(what, " ", how, v1 ? " by v1" : " by v2"); c.at("journey-verify", w);
        dt::storage_verifier v(ls, vo); v.start(); v.wait();
        std::vector<int> want; std::vector<double> share; std::size_t off = 0, bad_piece = ~std::size_t(0), i = 0;
        if (v1) { for (auto& e : ls) { if (bad && !e.is_padding_file() && e.path() == bad->path) bad_piece = (off + at) / piece; off += e.file_size(); } want.assign((off + piece - 1) / piece, 1); if (bad) want[bad_piece] = 0; }
        else for (auto& e : ls) if (!e.is_padding_file()) {
            if (bad && e.path() == bad->path) bad_piece = want.size() + at / piece;
            auto n = (e.file_size() + piece - 1) / piece; want.insert(want.end(), std::max<std::size_t>(n, 1), e.is_symlink() ? -1 : 1);
            if (bad_piece < want.size()) want[bad_piece] = 0;
        }
        auto& got = v.result(); bool ok = got.size() == want.size(); std::size_t first = 0;
        for (; ok && first < want.size(); ++first) if (want[first] >= 0 && (got[first] != 0) != (want[first] != 0)) { ok = false; break; }
        c.check(ok, bad ? "damage-judged-wrong" : "intact-content-refused", [&] { return cat(w, ": ", got.size(), " flags, expected ", want.size(), ", first difference at ", first); });
        off = 0;
        for (auto& e : ls) {
            auto a = off / piece, b = (off + e.file_size() + piece - 1) / piece; off += e.file_size();
            if (!e.is_symlink() && !e.is_padding_file()) {
                bool mine = bad && e.path() == bad->path; double p = v.percentage(i), n = !e.file_size() ? 0 : v1 ? double(b - a) : double((e.file_size() + piece - 1) / piece);
                bool hit = n && (v1 ? bad_piece >= a && bad_piece < b : mine);
                c.check(std::abs(p - (hit ? 100.0 * (n - 1) / n : 100.0)) < 1e-6, "percentage", [&] { return cat(w, ": ", e.path(), " ", p); });
            }
            ++i;
        }
        c.count(bad ? "damaged-verified" : "intact-verified");
    };
    check(nullptr, 0, "intact");
    for (int n = 1 + r.below(2); n--;) {
        std::vector<const ref::File*> v; for (auto& f : k.files) if (!f.data.empty()) v.push_back(&f);
        auto* f = r.pick(v); auto at = r.chance(1, 3) ? f->data.size() - 1 : r.chance(1, 3) ? f->data.size() / piece * piece : r.below(f->data.size()); at = std::min(at, f->data.size() - 1);
        auto d = f->data; d[at] ^= std::byte(1 << r.below(8)); ref::write_file(there / f->path, d);
        check(f, at, cat("changed ", f->path, "@", at));
        ref::write_file(there / f->path, f->data);
    }
    if (r.chance(1, 3)) check(nullptr, 0, "restored");
    // and the loaded description, written again, is the same file
    std::ifstream in(file, std::ios::binary); std::string bytes(std::istreambuf_iterator<char>(in), {});
    c.check(normal(decode(dt::write_metafile(l, proto(as)))).enc() == normal(decode(bytes)).enc(), "written-again", what);
    c.eval(); c.count("journeys"); c.count(cat("journeys-", kind, "-as-", as)); c.distinct(what); if (seed % 5 == 0) c.sample(what);
}
int main(int argc, char** argv)
{
    vh::Ctx c(argc, argv); auto total = c.n(2400, 40000);
    for (std::size_t i = 0; i < total && !c.enough(); i += 20) {
        auto s0 = c.rng();
        c.isolated("journey", cat("journeys seed ", s0), [&](vh::Ctx& x) { for (std::size_t j = 0; j < 20 && i + j < total; ++j) journey(x, (s0 + j * 7919) | 1); }, 150);
    }
    return c.finish();
}
