// Torrent descriptions: generator, observation as text, independent bencoding, building through the API.
#pragma once
#include "ref.hpp"
#include <dottorrent/magnet_uri.hpp>
#include <dottorrent/metafile.hpp>
#include <dottorrent/metafile_parsing.hpp>
#include <dottorrent/metafile_serialization.hpp>
namespace dt = dottorrent;
namespace fs = std::filesystem;
using vh::cat;

// ------------------------------------------------------------ own bencode
struct B {
    char t = 0; std::int64_t i = 0; std::string s; std::vector<B> l; std::map<std::string, B> d;
    std::size_t from = 0, to = 0;   // slice of the decoded text
    B() = default;
    B(int v) : t('i'), i(v) {}
    B(std::int64_t v) : t('i'), i(v) {}
    B(std::uint64_t v) : t('i'), i((std::int64_t)v) {}
    B(const char* v) : t('s'), s(v) {}
    B(std::string v) : t('s'), s(std::move(v)) {}
    static B list() { B b; b.t = 'l'; return b; }
    static B dict() { B b; b.t = 'd'; return b; }
    B& operator[](const std::string& k) { return d[k]; }
    std::string enc() const
    {
        switch (t) {
        case 'i': return cat("i", i, "e");
        case 's': return cat(s.size(), ":", s);
        case 'l': { std::string r = "l"; for (auto& e : l) r += e.enc(); return r + "e"; }
        case 'd': { std::string r = "d"; for (auto& [k, e] : d) r += cat(k.size(), ":", k) + e.enc(); return r + "e"; }
        }
        return "?";
    }
};
[[maybe_unused]] static B dec(std::string_view s, std::size_t& p)
{
    B b; b.from = p;
    auto num = [&](char end) { bool neg = s.at(p) == '-'; if (neg) ++p; std::uint64_t v = 0; if (s.at(p) == end) throw std::runtime_error("num");
                               while (s.at(p) != end) { if (s[p] < '0' || s[p] > '9') throw std::runtime_error("digit"); v = v * 10 + (s[p] - '0'); ++p; } ++p; return (std::int64_t)(neg ? 0 - v : v); };
    char c = s.at(p);
    if (c == 'i') { ++p; b.t = 'i'; b.i = num('e'); }
    else if (c == 'l') { ++p; b.t = 'l'; while (s.at(p) != 'e') b.l.push_back(dec(s, p)); ++p; }
    else if (c == 'd') {
        ++p; b.t = 'd'; std::string last; bool first = true;
        while (s.at(p) != 'e') { auto k = dec(s, p); if (k.t != 's') throw std::runtime_error("key"); if (!first && !(last < k.s)) throw std::runtime_error("dict keys not sorted"); first = false; last = k.s; b.d[k.s] = dec(s, p); }
        ++p;
    }
    else { b.t = 's'; auto n = (std::size_t)num(':'); if (n > s.size() - p) throw std::runtime_error("len"); b.s = s.substr(p, n); p += n; }
    b.to = p;
    return b;
}
[[maybe_unused]] static B decode(std::string_view s) { std::size_t p = 0; auto b = dec(s, p); if (p != s.size()) throw std::runtime_error("trailing data"); return b; }

// ------------------------------------------------------------ torrent descriptions
struct SFile {
    std::vector<std::string> path; std::uint64_t size = 0; std::optional<int> attr; std::optional<std::vector<std::string>> link;
    std::map<std::string, std::string> sums; bool pad = false; std::string root; std::vector<std::string> layer;
    bool v2() const { return !pad && !link && size > 0; }
};
struct Spec {
    int kind = 1;  // 1 v1, 2 v2, 3 hybrid
    bool single = false; std::string name; std::uint64_t piece = 16384; std::vector<SFile> files; std::vector<std::string> pieces;
    std::vector<std::vector<std::string>> tiers; std::string comment, creator, source; std::int64_t date = 0; bool priv = false;
    std::set<std::string> collections, similar; std::vector<std::string> http, web; std::vector<std::pair<std::string, int>> nodes; std::map<std::string, B> other;
};
static const std::vector<std::pair<std::string, std::size_t>> ALGOS = {{"md5", 16}, {"sha1", 20}, {"sha256", 32}, {"sha512", 64}, {"sha384", 48}, {"sha224", 28},
    {"md4", 16}, {"blake2b_512", 64}, {"blake2s_256", 32}, {"sha3_224", 28}, {"sha3_256", 32}, {"sha3_384", 48}, {"sha3_512", 64}, {"shake128", 16}, {"shake256", 32}, {"ripemd160", 20}, {"whirlpool", 64}};
[[maybe_unused]] static std::string text(vh::Rng& r, int max = 12)
{
    switch (r.below(5)) {
    case 0: return r.str(1 + r.below(max), "abcdefghijklmnopqrstuvwxyz0123456789");
    case 1: return r.str(1 + r.below(max), "aB0 .,-_:;!?%&=+#\\\"'<>|*~");
    case 2: return "\xc3\xa9\xe6\xbc\xa2" + r.str(r.below(5), "xyz");
    case 3: { auto s = r.raw(1 + r.below(max)); for (auto& c : s) if (c == '/' || c == 0) c = '_'; return s; }
    default: return r.str(1 + r.below(3), "ab");
    }
}
[[maybe_unused]] static std::string component(vh::Rng& r) { auto s = r.chance(1, 40) ? r.str(200 + r.below(40), "abc xyz") : text(r); if (s == "." || s == "..") s += "x"; return s; }
[[maybe_unused]] static std::string url(vh::Rng& r) { return cat(r.chance(1, 2) ? "http://" : "udp://", r.str(1 + r.below(6), "abc.xyz"), r.chance(1, 3) ? ":8080/announce" : "", r.below(50)); }
[[maybe_unused]] static std::string mask_text(int m) { std::string s; if (m & 2) s += 'x'; if (m & 1) s += 'l'; if (m & 4) s += 'h'; if (m & 8) s += 'p'; return s; }
[[maybe_unused]] static B any_value(vh::Rng& r, int depth = 0)
{
    switch (r.below(depth > 2 ? 2 : 4)) {
    case 0: return B((std::int64_t)r() >> r.below(64));
    case 1: return B(r.raw(r.below(12)));
    case 2: { auto b = B::list(); for (int n = r.below(4); n--;) b.l.push_back(any_value(r, depth + 1)); return b; }
    default: { auto b = B::dict(); for (int n = r.below(4); n--;) b.d[text(r)] = any_value(r, depth + 1); return b; }
    }
}
[[maybe_unused]] static std::uint64_t some_length(vh::Rng& r, std::uint64_t piece)
{
    switch (r.below(7)) {
    case 0: return 0;
    case 1: return 1 + r.below(100);
    case 2: return piece;
    case 3: return piece + r.range(-1, 1);
    case 4: return piece * (1 + r.below(4));
    case 5: return piece * (1 + r.below(4)) + r.range(-1, 1);
    default: return 1 + r.below(5 * piece);
    }
}
static int crowd = 0;   // protocol of a torrent with very many of everything
[[maybe_unused]] static Spec make_spec(vh::Rng& r, int kind)
{
    if (crowd) kind = crowd;
    Spec s; s.kind = kind; s.single = !crowd && r.chance(1, 4);
    s.piece = crowd ? 16384 : r.chance(1, 20) ? 16384ull << (10 + r.below(30)) : 16384ull << r.below(5);
    s.name = component(r);
    int n = crowd ? (kind == 3 ? 700 : 65600) + r.below(100) : s.single ? 1 : r.chance(1, 25) ? 7 + r.below(40) : 1 + r.below(6);
    for (int i = 0; i < n; ++i) {
        SFile f;
        if (s.single) f.path = {s.name};
        else { if (r.chance(1, 2)) f.path.push_back(cat("d", r.below(3))); if (r.chance(1, 30)) { bool far = r.chance(1, 4), chain = r.chance(1, 2); for (int k = 1 + r.below(far ? 250 : 12); k--;) f.path.push_back(cat("e", chain ? 0 : r.below(2))); } if (r.chance(1, 4)) f.path.push_back("s" + component(r)); f.path.push_back(component(r) + "#" + std::to_string(i)); }
        f.size = some_length(r, std::min<std::uint64_t>(s.piece, 1 << 19));
        if (i == 0 && f.size == 0) f.size = 1 + r.below(70000);
        if (r.chance(1, 40)) f.size = std::min<std::uint64_t>(s.piece * 3, 1ull << 40) + r.below(100000);
        if (f.size / s.piece > 3000) f.size = s.piece * 7;
        if (crowd) { if (i) f.size %= 40000; else f.size = (65600 + r.below(100)) * s.piece + 5; if (i > 50 && n > 60000) f.path = {cat("x", i % 7), cat("f", i)}; }
        if (r.chance(1, 3)) f.attr = (r.chance(1, 2) ? 2 : 0) | (r.chance(1, 3) ? 4 : 0);
        if (i > 0 && r.chance(1, 6)) { f.size = 0; f.attr = f.attr.value_or(0) | 1; std::vector<std::string> t; for (int k = 1 + r.below(3); k--;) t.push_back(r.chance(1, 8) ? ".." : component(r)); f.link = t; }
        if (!f.link && r.chance(1, 4)) for (auto& [a, len] : ALGOS) if (r.chance(1, 5)) f.sums[a] = r.raw(len);
        if (kind != 1 && f.v2()) {
            f.root = r.raw(32);
            if (f.size > s.piece) for (std::uint64_t k = 0; k < (f.size + s.piece - 1) / s.piece; ++k) f.layer.push_back(r.raw(32));
            if (r.chance(1, 10)) for (auto& g : s.files) if (g.size == f.size && g.v2()) { f.root = g.root; f.layer = g.layer; }
        }
        s.files.push_back(f);
        if (i + 1 < n && (kind == 3 ? f.size % s.piece != 0 : kind == 1 && r.chance(1, 8)) && s.piece < (1 << 24)) {
            SFile p; p.pad = true; p.attr = 8; p.size = kind == 3 ? s.piece - f.size % s.piece : 1 + r.below(1000); p.path = {".pad", std::to_string(p.size)};
            s.files.push_back(p);
        }
    }
    if (kind == 2) std::sort(s.files.begin(), s.files.end(), [](auto& a, auto& b) { return a.path < b.path; });
    std::uint64_t total = 0; for (auto& f : s.files) total += f.size;
    if (kind != 2) for (std::uint64_t k = 0; k < (total + s.piece - 1) / s.piece; ++k) s.pieces.push_back(r.raw(20));
    std::set<std::string> urls;
    for (int t = crowd ? 280 + r.below(20) : r.chance(1, 25) ? 9 + r.below(20) : r.below(4); t--;) { std::vector<std::string> tier; for (int k = crowd && t == 3 ? 300 : 1 + r.below(3); k--;) { auto u = url(r); if (urls.insert(u).second) tier.push_back(u); } if (!tier.empty()) s.tiers.push_back(tier); }
    int few = crowd ? 300 : 3;
    if (r.chance(1, 2)) s.comment = crowd ? r.raw(70000) : text(r, 40);
    if (r.chance(1, 2)) s.creator = text(r, 20);
    if (r.chance(1, 3)) s.source = text(r, 10);
    if (r.chance(1, 2)) s.date = 1 + r.below(1ull << (1 + r.below(40)));
    s.priv = r.chance(1, 3);
    if (r.chance(1, 3)) for (int k = 1 + r.below(few); k--;) s.collections.insert(text(r));
    if (r.chance(1, 3)) for (int k = 1 + r.below(few); k--;) s.similar.insert(r.raw(r.chance(1, 2) ? 20 : 32));
    auto uniq = [&](std::vector<std::string>& v) { std::set<std::string> seen; for (int k = 1 + r.below(few); k--;) { auto u = url(r); if (seen.insert(u).second) v.push_back(u); } };
    if (r.chance(1, 3)) uniq(s.http);
    if (r.chance(1, 3)) uniq(s.web);
    if (r.chance(1, 3)) { std::set<std::pair<std::string, int>> seen; for (int k = 1 + r.below(few); k--;) { std::pair<std::string, int> d{r.str(1 + r.below(8), "ab.1:"), (int)(r.chance(1, 3) ? (r.chance(1, 2) ? 65535 : 0) : r.below(65536))}; if (seen.insert(d).second) s.nodes.push_back(d); } }
    if (r.chance(1, 3)) for (int k = 1 + r.below(few); k--;) s.other["x-" + text(r)] = any_value(r);
    return s;
}
[[maybe_unused]] static std::string hx(const std::string& s) { return vh::hexs({(const std::byte*)s.data(), s.size()}); }
[[maybe_unused]] static std::string join_path(const std::vector<std::string>& v) { fs::path p; for (auto& c : v) p /= c; return p.string(); }

// what a user sees, one fact per line
[[maybe_unused]] static std::string obs(const Spec& s)
{
    std::ostringstream o;
    auto tiers = s.tiers; int t = 0;
    for (auto& x : tiers) { std::sort(x.begin(), x.end()); for (auto& u : x) o << "tracker " << t << " " << hx(u) << "\n"; ++t; }
    for (auto& u : s.http) o << "http " << u << "\n";
    for (auto& u : s.web) o << "web " << u << "\n";
    for (auto& [h, p] : s.nodes) o << "node " << h << " " << p << "\n";
    o << "name " << hx(s.name) << "\ncomment " << hx(s.comment) << "\ncreator " << hx(s.creator) << "\nsource " << hx(s.source) << "\ndate " << s.date << "\nprivate " << s.priv << "\n";
    for (auto& c : s.collections) o << "collection " << hx(c) << "\n";
    std::set<std::string> sim; for (auto& c : s.similar) sim.insert(cat(c.size() == 20 ? "v1 " : c.size() == 32 ? "v2 " : "both ", hx(c)));
    for (auto& c : sim) o << "similar " << c << "\n";
    for (auto& [k, v] : s.other) if (k != "collections" && k != "similar") o << "other " << hx(k) << " " << hx(v.enc()) << "\n";
    std::uint64_t total = 0, regular = 0; std::size_t count = 0;
    for (auto& f : s.files) { total += f.size; if (!f.pad) { regular += f.size; ++count; } }
    o << "protocol " << s.kind << "\nmode " << (s.files.empty() ? "empty" : s.single ? "single" : "multi") << "\npiece size " << s.piece << " count " << (total + s.piece - 1) / s.piece
      << "\ntotal " << total << " " << regular << "\nfiles " << s.files.size() << " " << count << "\npieces";
    for (auto& p : s.pieces) o << " " << hx(p);
    o << "\n";
    for (auto& f : s.files) {
        o << "file " << hx(join_path(f.path)) << " size " << f.size << " attr " << (f.attr ? cat(*f.attr) : "none") << " link " << (f.link ? hx(join_path(*f.link)) : "none");
        for (auto& [a, v] : f.sums) o << " " << a << "=" << hx(v);
        if (s.kind != 1 && f.v2()) { o << " root " << hx(f.root) << " layer"; for (auto& l : f.layer) o << " " << hx(l); }
        o << "\n";
    }
    return o.str();
}
[[maybe_unused]] static std::string obs(const dt::metafile& m)
{
    std::ostringstream o;
    for (auto& a : m.trackers()) o << "tracker " << a.tier << " " << hx(a.url) << "\n";
    for (auto& u : m.http_seeds()) o << "http " << u << "\n";
    for (auto& u : m.web_seeds()) o << "web " << u << "\n";
    for (auto& d : m.dht_nodes()) o << "node " << d.url << " " << d.port << "\n";
    o << "name " << hx(m.name()) << "\ncomment " << hx(m.comment()) << "\ncreator " << hx(m.created_by()) << "\nsource " << hx(m.source()) << "\ndate " << m.creation_date().count() << "\nprivate " << m.is_private() << "\n";
    for (auto& c : std::set<std::string>(m.collections().begin(), m.collections().end())) o << "collection " << hx(c) << "\n";
    std::set<std::string> sim;
    for (auto& h : m.similar_torrents()) sim.insert(h.version() == dt::protocol::v1 ? "v1 " + hx(ref::hstr(h.v1())) : h.version() == dt::protocol::v2 ? "v2 " + hx(ref::hstr(h.v2())) : "both " + hx(ref::hstr(h.v1()) + ref::hstr(h.v2())));
    for (auto& c : sim) o << "similar " << c << "\n";
    for (auto& [k, v] : m.other_info_fields()) if (k != "collections" && k != "similar") o << "other " << hx(k) << " " << hx(bencode::encode(v)) << "\n";
    const auto& st = m.storage();
    o << "protocol " << (int)st.protocol() << "\nmode " << (st.file_mode() == dt::file_mode::empty ? "empty" : st.file_mode() == dt::file_mode::single ? "single" : "multi")
      << "\npiece size " << m.piece_size() << " count " << m.piece_count() << "\ntotal " << m.total_file_size() << " " << m.total_regular_file_size() << "\nfiles " << st.file_count() << " " << st.regular_file_count() << "\npieces";
    for (auto& p : st.pieces()) o << " " << hx(ref::hstr(p));
    o << "\n";
    for (auto& f : st) {
        o << "file " << hx(f.path().string()) << " size " << f.file_size() << " attr " << (f.attributes() ? cat((int)*f.attributes()) : "none") << " link " << (f.symlink_path() ? hx(f.symlink_path()->string()) : "none");
        for (auto& [a, v] : f.checksums()) o << " " << a << "=" << vh::hexs(v->value());
        if (f.has_v2_data()) { o << " root " << hx(ref::hstr(f.pieces_root())) << " layer"; for (auto& l : f.piece_layer()) o << " " << hx(ref::hstr(l)); }
        o << "\n";
    }
    return o.str();
}
[[maybe_unused]] static std::string diff(const std::string& want, const std::string& got)
{
    std::istringstream a(want), b(got); std::string x, y, r; int n = 0;
    while (n < 6) { bool p = !!std::getline(a, x), q = !!std::getline(b, y); if (!p) x = "(nothing)"; if (!q) y = "(nothing)"; if (!p && !q) break; if (x != y) { r += "expected " + x.substr(0, 300) + "\n     got " + y.substr(0, 300) + "\n"; ++n; } }
    return r;
}

// ------------------------------------------------------------ bencoded form, per the BEPs
struct Style { bool plain_url_list = false, announce_only = false, no_announce = false, info_extra = false, attr_shuffle = false, private_zero = false, tree_sums = false; };
[[maybe_unused]] static B list_of(const std::vector<std::string>& v) { auto b = B::list(); for (auto& x : v) b.l.emplace_back(x); return b; }
[[maybe_unused]] static void file_fields(B& d, const SFile& f, bool sums)
{
    d["length"] = B(f.size);
    if (f.attr) d["attr"] = B(mask_text(*f.attr));
    if (f.link) d["symlink path"] = list_of(*f.link);
    if (sums) for (auto& [a, v] : f.sums) d[a] = B(v);
}
// hybrid torrents (20 + 32 bytes) are listed by both hashes
[[maybe_unused]] static std::set<std::string> separate(const std::set<std::string>& v) { std::set<std::string> o; for (auto& h : v) if (h.size() == 52) { o.insert(h.substr(0, 20)); o.insert(h.substr(20)); } else o.insert(h); return o; }
[[maybe_unused]] static B to_b(const Spec& s, const Style& st = {})
{
    auto top = B::dict(), info = B::dict();
    if (!s.tiers.empty()) {
        auto tiers = s.tiers; for (auto& t : tiers) std::sort(t.begin(), t.end());
        if (!st.no_announce) top["announce"] = B(tiers[0][0]);
        if (!st.announce_only) { auto l = B::list(); for (auto& t : tiers) l.l.push_back(list_of(t)); top["announce-list"] = l; }
    }
    if (!s.comment.empty()) top["comment"] = B(s.comment);
    if (!s.creator.empty()) top["created by"] = B(s.creator);
    if (s.date) top["creation date"] = B(s.date);
    auto setl = [](const std::set<std::string>& v) { auto b = B::list(); for (auto& x : v) b.l.emplace_back(x); return b; };
    if (!s.collections.empty()) top["collections"] = setl(s.collections);
    if (!s.similar.empty()) top["similar"] = setl(separate(s.similar));
    if (!s.http.empty()) top["httpseeds"] = list_of(s.http);
    if (!s.web.empty()) top["url-list"] = st.plain_url_list && s.web.size() == 1 ? B(s.web[0]) : list_of(s.web);
    if (!s.nodes.empty()) { auto l = B::list(); for (auto& [h, p] : s.nodes) { auto n = B::list(); n.l.emplace_back(h); n.l.emplace_back(p); l.l.push_back(n); } top["nodes"] = l; }
    info["name"] = B(s.name);
    info["piece length"] = B(s.piece);
    if (s.priv) info["private"] = B(1); else if (st.private_zero) info["private"] = B(0);
    if (!s.source.empty()) info["source"] = B(s.source);
    for (auto& [k, v] : s.other) info[k] = v;
    if (s.kind & 1) {
        std::string p; for (auto& x : s.pieces) p += x;
        info["pieces"] = B(p);
        if (s.single) file_fields(info, s.files[0], true);
        else { auto l = B::list(); for (auto& f : s.files) { auto d = B::dict(); file_fields(d, f, true); d["path"] = list_of(f.path); l.l.push_back(d); } info["files"] = l; }
    }
    if (s.kind & 2) {
        info["meta version"] = B(2);
        auto tree = B::dict(), layers = B::dict();
        for (auto& f : s.files) {
            if (f.pad) continue;
            B* at = &tree;
            for (auto& c : f.path) { at = &(*at)[c]; at->t = 'd'; }
            auto d = B::dict(); file_fields(d, f, s.kind == 2 || st.tree_sums);
            if (f.v2()) d["pieces root"] = B(f.root);
            (*at)[""] = d;
            if (!f.layer.empty()) { std::string l; for (auto& x : f.layer) l += x; layers[f.root] = B(l); }
        }
        info["file tree"] = tree; top["piece layers"] = layers;
    }
    top["info"] = info;
    return top;
}
// order of sets is free, and checksums may or may not be repeated in the file tree of a hybrid torrent
[[maybe_unused]] static void drop_tree_sums(B& b) { for (auto& [k, v] : b.d) { if (k.empty()) { for (auto& [a, n] : ALGOS) v.d.erase(a); } else drop_tree_sums(v); } }
[[maybe_unused]] static B normal(B b)
{
    for (auto k : {"collections", "similar"}) if (b.d.count(k)) std::sort(b.d[k].l.begin(), b.d[k].l.end(), [](auto& x, auto& y) { return x.s < y.s; });
    if (b.d.count("info")) { auto& i = b.d["info"]; if (i.d.count("pieces") && i.d.count("file tree")) drop_tree_sums(i.d["file tree"]); }
    return b;
}

[[maybe_unused]] static dt::metafile build(vh::Rng& r, const Spec& s)
{
    dt::metafile m; auto& st = m.storage();
    m.set_name(s.name); m.set_comment(s.comment); m.set_created_by(s.creator); m.set_source(s.source); m.set_private(s.priv);
    if (s.date) { if (r.chance(1, 2)) m.set_creation_date((std::time_t)s.date); else m.set_creation_date(std::chrono::time_point<std::chrono::system_clock, std::chrono::seconds>(std::chrono::seconds(s.date))); }
    for (std::size_t t = 0; t < s.tiers.size(); ++t) for (auto& u : s.tiers[t]) { if (r.chance(1, 2)) m.add_tracker(u, t); else m.add_tracker(dt::announce_url(u, t)); }
    for (auto& u : s.http) m.add_http_seed(u);
    for (auto& u : s.web) m.add_web_seed(u);
    for (auto& [h, p] : s.nodes) m.add_dht_node(h, p);
    for (auto& c : s.collections) m.add_collection(c);
    for (auto& h : s.similar) if (h.size() == 52) { auto a = dt::sha1_hash(std::string_view(h).substr(0, 20)); auto b = dt::sha256_hash(std::string_view(h).substr(20)); if (r.chance(1, 2)) m.add_similar_torrent(dt::info_hash(a, b)); else m.add_similar_torrent(dt::info_hash::from_hex(hx(h.substr(0, 20)), hx(h.substr(20)))); }
        else m.add_similar_torrent(dt::info_hash(h.size() == 20 ? dt::protocol::v1 : dt::protocol::v2, h));
    for (auto& [k, v] : s.other) m.other_info_fields()[k] = bencode::decode_value(v.enc());
    for (auto& f : s.files) {
        std::optional<dt::file_attributes> a; if (f.attr) a = (dt::file_attributes)*f.attr;
        std::optional<fs::path> l; if (f.link) l = join_path(*f.link);
        st.add_file(dt::file_entry(join_path(f.path), f.size, a, l));
    }
    st.set_piece_size(s.piece);
    for (std::size_t i = 0; i < s.files.size(); ++i) {
        auto& f = s.files[i]; auto& e = st[i];
        for (auto& [k, v] : f.sums) e.add_checksum(dt::make_checksum(k, std::string_view(v)));
        if (s.kind != 1 && f.v2()) {
            e.set_pieces_root(dt::sha256_hash(std::string_view(f.root)));
            std::vector<dt::sha256_hash> layer; for (auto& x : f.layer) layer.emplace_back(std::string_view(x));
            e.set_piece_layer(std::span<const dt::sha256_hash>(layer));
        }
    }
    if (s.kind & 1) { st.allocate_pieces(); for (std::size_t i = 0; i < s.pieces.size(); ++i) st.set_piece_hash(i, dt::sha1_hash(std::string_view(s.pieces[i]))); }
    if (s.single || r.chance(1, 2)) st.set_file_mode(s.single ? dt::file_mode::single : dt::file_mode::multi);
    return m;
}
[[maybe_unused]] static dt::protocol proto(int k) { return (dt::protocol)k; }
[[maybe_unused]] static std::string label(const Spec& s) { return cat("kind ", s.kind, s.single ? " single" : " multi", " piece ", s.piece, " files ", s.files.size()); }
