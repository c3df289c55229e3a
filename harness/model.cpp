// C22 magnet links, C23 tracker lists, C24 storage accounting, C25 copies, C27 scanning files, C29 directories.
#include "spec.hpp"
#include <sys/stat.h>

// ------------------------------------------------------------ C22
static std::string anything(vh::Rng& r, std::size_t max = 12)
{
    switch (r.below(5)) {
    case 0: return r.raw(1 + r.below(max));
    case 1: return r.str(1 + r.below(max), "abcXYZ019-._~");
    case 2: return r.str(1 + r.below(max), "%&=+?# /:2b26B3dD");
    case 3: return url(r);
    default: return r.str(1 + r.below(3), "+% &=a");
    }
}
static std::string escape(std::string_view s, vh::Rng* r = nullptr)
{
    std::string o; static const char* U = "0123456789ABCDEF"; static const char* L = "0123456789abcdef";
    for (unsigned char c : s) {
        bool plain = (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '-' || c == '.' || c == '_' || c == '~';
        if (r && plain && r->chance(1, 8)) plain = false;
        if (r && !plain && (c == ':' || c == '/' || c == '?' || c == '=' || c == '!') && r->chance(1, 2)) plain = true;
        if (plain) o.push_back((char)c);
        else { auto* d = r && r->chance(1, 2) ? L : U; o += '%'; o += d[c >> 4]; o += d[c & 15]; }
    }
    return o;
}
struct Mag {
    std::vector<std::string> topics, trackers, web, sources, peers; std::string name, xs, manifest; std::size_t size = 0; std::set<std::string> words;
    bool operator==(const Mag&) const = default;
};
static std::string show(const Mag& m)
{
    std::string s = cat("name ", vh::show(m.name), " size ", m.size, " xs ", vh::show(m.xs), " mt ", vh::show(m.manifest));
    auto add = [&](const char* n, auto& v) { s += cat(" ", n); for (auto& x : v) s += " " + vh::show(x); };
    add("xt", m.topics); add("tr", m.trackers); add("ws", m.web); add("as", m.sources); add("pe", m.peers); add("kt", m.words);
    return s;
}
static Mag seen(const dt::magnet_uri& u)
{ return {u.topics(), u.trackers(), u.web_seeds(), u.acceptable_sources(), u.peer_adresses(), u.display_name(), u.exact_source(), u.manifest(), u.size(), {u.keywords().begin(), u.keywords().end()}}; }
static void magnet(vh::Ctx& x)
{
    auto& r = x.rng; Mag m;
    auto some = [&](std::vector<std::string>& v) { for (int k = crowd ? 260 + r.below(60) : r.chance(1, 2) ? r.below(4) : 0; k--;) v.push_back(anything(r)); };
    for (int k = crowd ? 300 : r.below(3); k--;) m.topics.push_back(cat(r.chance(1, 2) ? "urn:btih:" : "urn:btmh:1220", r.str(40, "0123456789abcdef")));
    some(m.trackers); some(m.web); some(m.sources); some(m.peers);
    if (r.chance(2, 3)) m.name = crowd ? r.raw(70000) : anything(r);
    if (r.chance(1, 3)) m.xs = anything(r);
    if (r.chance(1, 3)) m.manifest = anything(r);
    if (r.chance(1, 2)) m.size = r() >> r.below(64);
    if (r.chance(1, 2)) for (int k = crowd ? 400 : r.below(4); k--;) m.words.insert(anything(r));
    dt::magnet_uri u;
    x.at("magnet", show(m)); x.eval(); x.count("magnets"); x.distinct(vh::hash64(show(m)));
    x.check(seen(u) == Mag{}, "fresh", [&] { return show(seen(u)); });
    for (auto& t : m.topics) { if (r.chance(1, 2)) u.add_topic(t); else u.add_topic(std::string(t)); }
    for (auto& t : m.trackers) { if (r.chance(1, 2)) u.add_tracker(std::string_view(t)); else u.add_tracker(std::string(t)); }
    for (auto& t : m.web) { if (r.chance(1, 2)) u.add_web_seed(std::string_view(t)); else u.add_web_seed(std::string(t)); }
    for (auto& t : m.sources) { if (r.chance(1, 2)) u.add_acceptable_source(std::string_view(t)); else u.add_acceptable_source(std::string(t)); }
    for (auto& t : m.peers) { if (r.chance(1, 2)) u.add_peer_adress(t); else u.add_peer_address(std::string(t)); }
    for (auto& t : m.words) { if (r.chance(1, 2)) u.add_keyword(std::string_view(t)); else u.add_keyword(std::string(t)); }
    if (!m.name.empty()) u.set_display_name(std::string_view(m.name));
    if (!m.xs.empty()) u.set_exact_source(m.xs);
    if (!m.manifest.empty()) u.set_manifest(std::string_view(m.manifest));
    if (m.size) u.set_size(m.size);
    x.check(seen(u) == m, "built", [&] { return show(m) + "\n" + show(seen(u)); });
    auto text = dt::encode_magnet_uri(u);
    // the text is magnet:? and key=value parts, each value escaped
    std::multiset<std::string> want, got;
    for (auto& t : m.topics) want.insert("xt=" + t);
    for (auto& t : m.trackers) want.insert("tr=" + escape(t));
    for (auto& t : m.web) want.insert("ws=" + escape(t));
    for (auto& t : m.sources) want.insert("as=" + escape(t));
    for (auto& t : m.peers) want.insert("x.pe=" + escape(t));
    if (!m.name.empty()) want.insert("dn=" + escape(m.name));
    if (!m.xs.empty()) want.insert("xs=" + escape(m.xs));
    if (!m.manifest.empty()) want.insert("mt=" + escape(m.manifest));
    if (m.size) want.insert(cat("xl=", m.size));
    bool shape = text.rfind("magnet:?", 0) == 0; std::string kt;
    if (shape) { std::string q = text.substr(8), part; std::size_t p = 0;
        while (p <= q.size() && !q.empty()) { auto e = q.find('&', p); if (e == std::string::npos) e = q.size(); part = q.substr(p, e - p); if (part.rfind("kt=", 0) == 0) { if (!kt.empty()) shape = false; kt = part.substr(3); std::multiset<std::string> w, g; for (auto& k : m.words) w.insert(escape(k)); std::size_t a = 0; while (a <= kt.size()) { auto b = kt.find('+', a); if (b == std::string::npos) b = kt.size(); g.insert(kt.substr(a, b - a)); a = b + 1; } shape &= w == g; } else got.insert(part); p = e + 1; }
        shape &= kt.empty() == m.words.empty(); }
    x.check(shape && got == want, "text", [&] { return show(m) + "\n" + text; });
    // through other output iterators
    std::vector<char> buf(text.size() + 8, '#');
    dt::encode_magnet_uri(u, buf.data() + 4);
    x.check(std::string(buf.data() + 4, text.size()) == text && std::string(buf.data(), 4) == "####" && std::string(buf.data() + 4 + text.size(), 4) == "####", "pointer-output", [&] { return text; });
    std::ostringstream os; dt::encode_magnet_uri(u, std::ostreambuf_iterator<char>(os)); x.check(os.str() == text, "stream-output", [&] { return text; });
    std::string pre(text.size(), '?'); dt::encode_magnet_uri(u, pre.begin()); x.check(pre == text, "iterator-output", [&] { return text; });
    // and back
    try { auto v = dt::make_magnet_uri(std::string_view(text)); x.check(seen(v) == m, "round-trip", [&] { return text + "\n" + show(m) + "\n" + show(seen(v)); }); }
    catch (const std::exception& e) { x.violation("round-trip-refused", cat(text, " ", e.what())); }
    // the same link as other programs write it: any order, other escapes, unknown keys
    std::vector<std::string> parts;
    auto all = [&](const char* k, auto& v) { for (auto& t : v) parts.push_back(cat(k, "=", escape(t, &r))); };
    all("xt", m.topics); all("tr", m.trackers); all("ws", m.web); all("as", m.sources); all("x.pe", m.peers);
    // '+' separates keywords, so it is always escaped inside one
    if (!m.words.empty()) { std::string k; for (auto& w : m.words) k += (k.empty() ? "" : "+") + escape(w); parts.push_back("kt=" + k); }
    if (!m.name.empty()) parts.push_back("dn=" + escape(m.name, &r));
    if (!m.xs.empty()) parts.push_back("xs=" + escape(m.xs, &r));
    if (!m.manifest.empty()) parts.push_back("mt=" + escape(m.manifest, &r));
    if (m.size) parts.push_back(cat("xl=", m.size));
    // order among repeated keys is kept, keys mix freely
    std::stable_sort(parts.begin(), parts.end(), [salt = r()](auto& a, auto& b) { auto h = [&](auto& s) { return vh::hash64(s.substr(0, s.find('=')), salt); }; return h(a) < h(b); });
    if (r.chance(1, 3)) parts.insert(parts.begin() + r.below(parts.size() + 1), r.pick(std::vector<std::string>{"so=0-3", "x.foo=bar", "t=", "xll=5", "d=x", "="}));
    std::string t2 = "magnet:?"; for (std::size_t i = 0; i < parts.size(); ++i) t2 += (i ? "&" : "") + parts[i];
    try { x.at("magnet-parse", t2); auto v = dt::make_magnet_uri(std::string_view(t2)); x.check(seen(v) == m, "parse", [&] { return t2 + "\n" + show(m) + "\n" + show(seen(v)); }); x.count("parsed"); }
    catch (const std::exception& e) { x.violation("valid-refused", cat(t2, " ", e.what())); }
    // broken links
    auto refuse = [&](const std::string& t, const char* why) { x.at("magnet-refuse", t); x.check(vh::Ctx::throws([&] { dt::make_magnet_uri(std::string_view(t)); }).has_value(), cat("accepted:", why), [&] { return vh::show(t); }); x.count("refused"); };
    refuse(text.substr(0, r.below(8)), "prefix"); refuse(r.pick(std::vector<std::string>{"magnet:", "magnet;?", "Xagnet:?", "http:?", " magnet:?"}) + text.substr(8), "prefix");
    for (auto bad : {"xl=x", "xl=", "xl=-1", "xl=12a", "xl=99999999999999999999999", "novalue", "xl= 5", "xl=0x10", "xl=18446744073709551616"}) if (r.chance(1, 3)) refuse(text + (text.size() > 8 ? "&" : "") + bad, "field");
    // any text at all
    auto h = text; for (int k = 1 + r.below(4); k-- && !h.empty();) switch (r.below(4)) { case 0: h.resize(r.below(h.size() + 1)); break; case 1: h[r.below(h.size())] = (char)r(); break; case 2: h.insert(r.below(h.size() + 1), r.str(1 + r.below(4), "&=%+x:?")); break; default: h += r.str(r.below(10), "&=%kt+xl0"); }
    x.at("magnet-any", h); auto e = vh::Ctx::throws([&] { auto v = dt::make_magnet_uri(std::string_view(h)); dt::encode_magnet_uri(v); }); x.check(!e || *e != "x:non-std", "odd-exception", vh::show(h)); x.count("any-text");
}
static void magnet_of_torrent(vh::Ctx& x)
{
    auto& r = x.rng; auto s = make_spec(r, 1 + r.below(3)); auto m = build(r, s);
    x.at("magnet-of", label(s)); x.eval(); x.count("of-torrents");
    for (int p = 1; p <= 3; ++p) {
        auto u = dt::make_magnet_uri(m, proto(p));
        std::vector<std::string> topics;
        int k = s.kind == 3 ? p : s.kind;
        if (k & 1) topics.push_back("urn:btih:" + hx(ref::hstr(dt::info_hash_v1(m))));
        if (k & 2) topics.push_back("urn:btmh:1220" + hx(ref::hstr(dt::info_hash_v2(m))));
        Mag want; want.topics = topics; want.name = s.name; want.web = s.web;
        auto tiers = s.tiers; for (auto& t : tiers) { std::sort(t.begin(), t.end()); for (auto& a : t) want.trackers.push_back(a); }
        for (auto& [h, port] : s.nodes) want.peers.push_back(cat(h, ":", port));
        auto got = seen(u); want.size = got.size;   // the length may or may not be given
        x.check(got.size == 0 || got.size == m.total_file_size() || got.size == m.total_regular_file_size(), "of-torrent-size", [&] { return label(s); });
        x.check(got == want, "of-torrent", [&] { return cat(label(s), " as ", p, "\n", show(want), "\n", show(got)); });
        auto back = dt::make_magnet_uri(std::string_view(dt::encode_magnet_uri(u)));
        x.check(seen(back) == got, "of-torrent-round-trip", [&] { return label(s); });
    }
    dt::metafile none; none.storage().add_file(dt::file_entry("f", 5)); none.storage().set_piece_size(16384);
    x.check(vh::Ctx::throws([&] { dt::make_magnet_uri(none); }).has_value(), "of-unhashed", "");
}

// ------------------------------------------------------------ C23
using Tiers = std::vector<std::vector<std::string>>;
static std::string show(const Tiers& t) { std::string s; for (auto& v : t) { s += "["; for (auto& u : v) s += vh::show(u) + " "; s += "]"; } return s; }
static void tier_insert(Tiers& t, const std::string& u, std::size_t at) { if (at == t.size()) t.emplace_back(); auto& v = t[at]; v.insert(std::upper_bound(v.begin(), v.end(), u), u); }
static bool tier_erase(Tiers& t, const std::string& u, std::size_t at)
{ if (at >= t.size()) return false; auto& v = t[at]; auto i = std::find(v.begin(), v.end(), u); if (i == v.end()) return false; v.erase(i); if (v.empty()) t.erase(t.begin() + at); return true; }
static std::string small_url(vh::Rng& r) { return r.chance(1, 12) ? (r.chance(1, 2) ? "" : r.raw(3)) : r.str(1 + r.below(2), "abcd"); }
template <class L> static void judge_list(vh::Ctx& x, L& l, const Tiers& t, const std::string& log)
{
    std::vector<std::pair<std::string, std::size_t>> flat, got; for (std::size_t k = 0; k < t.size(); ++k) for (auto& u : t[k]) flat.emplace_back(u, k);
    for (auto& a : l) got.emplace_back(a.url, a.tier);
    auto bad = [&] { std::string g; for (auto& [u, k] : got) g += cat(k, ":", vh::show(u), " "); return log + "\nexpected " + show(t) + "\ngot " + g; };
    if (!x.check(got == flat, "content", bad)) return;
    x.check(l.size() == flat.size() && l.empty() == flat.empty() && l.tier_count() == t.size(), "sizes", bad);
    x.check(dt::as_nested_vector(l) == t, "nested", bad);
    for (std::size_t k = 0; k < t.size() + 2; ++k) {
        auto [b, e] = l.get_tier(k); std::vector<std::string> v; for (auto i = b; i != e; ++i) v.push_back(i->url);
        x.check(v == (k < t.size() ? t[k] : std::vector<std::string>{}) && l.tier_size(k) == v.size() && l.get_tier_begin(k) == b && l.get_tier_end(k) == e, "tier", bad);
    }
    if (!flat.empty()) x.check(l.front().url == flat.front().first && l.back().url == flat.back().first && l.at(0).url == flat[0].first && l[flat.size() - 1].url == flat.back().first && l.data()->url == flat[0].first, "access", bad);
    x.check(vh::Ctx::throws([&] { l.at(flat.size()); }).has_value(), "at-range", bad);
    for (std::string u : {"a", "b", "ab", "cd", "", "zz", "d"}) {
        bool in = false; std::size_t first = 0; for (auto& [v, k] : flat) if (v == u && !in) { in = true; first = k; }
        auto i = l.find(std::string_view(u));
        x.check(l.contains(std::string_view(u)) == in && (i != l.end()) == in && (!in || (i->url == u && i->tier == first)), "find", [&] { return u + "\n" + bad(); });
        for (std::size_t k = 0; k < t.size() + 2; ++k) {
            bool at = k < t.size() && std::count(t[k].begin(), t[k].end(), u); dt::announce_url a(u, k);
            auto j = l.find(a); x.check(l.contains(a) == at && (j != l.end()) == at && (!at || (j->url == u && j->tier == k)), "find-in-tier", [&] { return cat(u, " ", k, "\n", bad()); });
        }
    }
}
static void trackers(vh::Ctx& x)
{
    auto& r = x.rng; dt::announce_url_list l; Tiers t; std::string log; x.count("lists");
    std::vector<std::pair<dt::announce_url_list, Tiers>> kept;
    for (int step = 0, n = 1 + r.below(40); step < n; ++step) {
        auto u = small_url(r); auto k = r.below(t.size() + 1); x.eval(); x.count("list-steps");
        int op = r.below(10);
        log += cat(op, ":", vh::show(u), "@", k, " "); x.at("trackers", log);
        auto good = [&](auto it) { x.check(it != l.end() && it->url == u && it->tier == k && it - l.begin() >= 0 && (std::size_t)(it - l.begin()) < l.size(), "returned-iterator", log); };
        switch (op) {
        case 0: { dt::announce_url a(u, k); auto it = l.insert(a); tier_insert(t, u, k); good(it); break; }
        case 1: { auto it = l.insert(dt::announce_url(u, k)); tier_insert(t, u, k); good(it); break; }
        case 2: case 3: { auto it = l.emplace(u, k); tier_insert(t, u, k); good(it); break; }
        case 4: case 5: if (l.size()) { std::vector<std::pair<std::string, std::size_t>> flat; for (std::size_t q = 0; q < t.size(); ++q) for (auto& w : t[q]) flat.emplace_back(w, q);
            auto i = r.below(flat.size()); auto next = l.erase(l.begin() + i); tier_erase(t, flat[i].first, flat[i].second);
            x.check((std::size_t)(next - l.begin()) == i, "erase-returns-next", log); } break;
        case 6: { bool had = tier_erase(t, u, k); auto before = l.size(); l.erase(dt::announce_url(u, k)); x.check(l.size() == before - had, "erase-value", log); break; }
        case 7: x.check(l.erase(l.end()) == l.end(), "erase-end", log); break;
        case 8: if (r.chance(1, 6)) { l.clear(); t.clear(); } else { dt::announce_url_list c(l); auto d = std::move(c); l = d; if (r.chance(1, 2)) l = std::move(d); } break;
        default: kept.emplace_back(l, t); break;
        }
        judge_list(x, l, t, log); { const auto& cl = l; judge_list(x, cl, t, log); }
        if (x.enough()) return;
    }
    for (auto& [kl, kt] : kept) {   // copies are equal and independent, ordering is consistent
        judge_list(x, kl, kt, log + " copy");
        bool same = kt == t; x.check((kl == l) == same, "equality", log);
        auto c = kl <=> l, d = l <=> kl; std::vector<std::pair<std::size_t, std::string>> a, b;
        for (std::size_t q = 0; q < kt.size(); ++q) for (auto& w : kt[q]) a.emplace_back(q, w);
        for (std::size_t q = 0; q < t.size(); ++q) for (auto& w : t[q]) b.emplace_back(q, w);
        x.check((c == 0) == same && (c < 0) == (d > 0) && (c < 0) == (a < b), "ordering", log);
        if (same) x.check(std::hash<dt::announce_url_list>{}(kl) == std::hash<dt::announce_url_list>{}(l), "hash", log);
    }
    x.distinct(vh::hash64(log));
    // written out as literals
    auto sorted = [](Tiers v) { Tiers o; for (auto& q : v) if (!q.empty()) { std::sort(q.begin(), q.end()); o.push_back(q); } return o; };
    auto a = small_url(r), b = small_url(r), c = small_url(r), d = small_url(r); x.at("trackers-list", cat(a, b, c, d));
    { dt::announce_url_list il{{a, b}, {c}, {d}}; judge_list(x, il, sorted({{a, b}, {c}, {d}}), "literal"); }
    { dt::announce_url_list il{{a}, {}, {b, c, d}}; judge_list(x, il, sorted({{a}, {}, {b, c, d}}), "literal with empty tier"); }
    { dt::announce_url_list il{{d, c, b, a}}; judge_list(x, il, sorted({{d, c, b, a}}), "literal one tier"); }
}
// more tiers, and more trackers of a tier, than 8 bits can number
static void many_trackers(vh::Ctx& x)
{
    auto& r = x.rng; dt::announce_url_list l; Tiers t; std::string log = "very many trackers"; x.at("many-trackers", log); x.eval();
    auto n = 270 + r.below(300);
    auto put = [&](const std::string& u, std::size_t k) { auto it = l.insert(dt::announce_url(u, k)); tier_insert(t, u, k); x.check(it != l.end() && it->url == u && it->tier == k, "returned-iterator", [&] { return cat(log, ": ", u, " in tier ", k); }); };
    for (std::size_t k = 0; k < n; ++k) put(cat("u", r.below(1000), "-", k), k);
    for (int i = 0; i < 300; ++i) put(cat("w", r.below(1000), "-", i), 261);
    for (int i = 0; i < 100; ++i) put(small_url(r), r.below(t.size()));
    judge_list(x, l, t, log);
    dt::metafile m; for (std::size_t k = 0; k < t.size(); ++k) for (auto& u : t[k]) m.add_tracker(cat(u, "@", k), k);
    for (int i = 0; i < 40; ++i) {
        auto k = i == 0 ? 255 : i == 1 ? 256 : r.below(t.size()); auto u = r.pick(t[k]); l.erase(dt::announce_url(u, k)); tier_erase(t, u, k);
        if (i % 8 == 0) judge_list(x, l, t, log + ", fewer");
    }
    Tiers mt = dt::as_nested_vector(m.trackers()); x.check(mt.size() == n && mt.back().size() >= 1, "metafile-tiers", [&] { return cat(log, " ", mt.size(), " of ", n); });
    for (std::size_t k : {(std::size_t)255, (std::size_t)256, (std::size_t)257, n - 1}) { m.add_tracker("moved", k); tier_insert(mt, "moved", k); x.check(dt::as_nested_vector(m.trackers()) == mt, "metafile-trackers", [&] { return cat(log, " tier ", k); }); m.remove_tracker("moved"); tier_erase(mt, "moved", k); x.check(dt::as_nested_vector(m.trackers()) == mt, "metafile-trackers", [&] { return cat(log, " tier ", k); }); }
    x.count("many-trackers");
}
static void metafile_lists(vh::Ctx& x)
{
    auto& r = x.rng; dt::metafile m; Tiers t; std::string log; x.count("metafile-lists");
    std::vector<std::string> http, web; std::vector<std::pair<std::string, int>> nodes; std::set<std::string> coll; std::set<std::string> sim;
    auto find = [&](const std::string& u) -> std::optional<std::size_t> { for (std::size_t k = 0; k < t.size(); ++k) if (std::count(t[k].begin(), t[k].end(), u)) return k; return {}; };
    for (int step = 0, n = 1 + r.below(40); step < n; ++step) {
        auto u = small_url(r); auto k = r.below(t.size() + 1); int op = r.below(14); x.eval(); x.count("metafile-steps");
        log += cat(op, ":", vh::show(u), "@", k, " "); x.at("metafile-lists", log);
        auto put = [&](std::size_t at) { auto had = find(u); if (had && *had == at) return; tier_insert(t, u, at); if (had) tier_erase(t, u, *had); };
        auto port = (std::uint16_t)(r.below(3));
        switch (op) {
        case 0: m.add_tracker(u); put(t.size()); break;
        case 1: m.add_tracker(u, k); put(k); break;
        case 2: m.add_tracker(dt::announce_url(u, k)); put(k); break;
        case 3: m.remove_tracker(u); if (auto h = find(u)) tier_erase(t, u, *h); break;
        case 4: m.remove_tracker(u, k); tier_erase(t, u, k); break;
        case 5: m.remove_tracker(dt::announce_url(u, k)); tier_erase(t, u, k); break;
        case 6: if (r.chance(1, 8)) { m.clear_trackers(); t.clear(); } break;
        case 7: m.add_http_seed(u); if (!std::count(http.begin(), http.end(), u)) http.push_back(u); break;
        case 8: m.remove_http_seed(u); std::erase(http, u); if (r.chance(1, 20)) { m.clear_http_seeds(); http.clear(); } break;
        case 9: m.add_web_seed(u); if (!std::count(web.begin(), web.end(), u)) web.push_back(u); break;
        case 10: m.remove_web_seed(u); std::erase(web, u); if (r.chance(1, 20)) { m.clear_web_seeds(); web.clear(); } break;
        case 11: { std::pair<std::string, int> v(u, port); int how = r.below(3); if (how == 0) m.add_dht_node(u, port); else if (how == 1) { dt::dht_node d(u, port); m.add_dht_node(d); } else m.add_dht_node(dt::dht_node(u, port)); if (!std::count(nodes.begin(), nodes.end(), v)) nodes.push_back(v); break; }
        case 12: m.remove_dht_node(u, port); std::erase(nodes, std::pair<std::string, int>(u, port)); if (r.chance(1, 20)) { m.clear_dht_nodes(); nodes.clear(); } break;
        default: {
            if (r.chance(1, 2)) { m.add_collection(u); coll.insert(u); } else { m.remove_collection(u); coll.erase(u); }
            auto h = std::string(r.chance(1, 2) ? 20 : 32, (char)('a' + r.below(3))); dt::info_hash ih(h.size() == 20 ? dt::protocol::v1 : dt::protocol::v2, h);
            if (r.chance(2, 3)) { m.add_similar_torrent(ih); sim.insert(h); } else { m.remove_similar_torrent(ih); sim.erase(h); }
            if (r.chance(1, 20)) { m.clear_collections(); coll.clear(); m.clear_similar_torrents(); sim.clear(); }
        } }
        const auto& cm = m;
        x.check(dt::as_nested_vector(cm.trackers()) == t, "metafile-trackers", [&] { return log + "\nexpected " + show(t) + "\ngot " + show(dt::as_nested_vector(cm.trackers())); });
        x.check(cm.http_seeds() == http && cm.web_seeds() == web, "metafile-seeds", log);
        std::vector<std::pair<std::string, int>> gn; for (auto& d : cm.dht_nodes()) gn.emplace_back(d.url, d.port);
        x.check(gn == nodes, "metafile-nodes", log);
        x.check(std::set<std::string>(cm.collections().begin(), cm.collections().end()) == coll && cm.collections().size() == coll.size(), "metafile-collections", log);
        std::set<std::string> gs; for (auto& h : cm.similar_torrents()) gs.insert(h.version() == dt::protocol::v1 ? ref::hstr(h.v1()) : ref::hstr(h.v2()));
        x.check(gs == sim && cm.similar_torrents().size() == sim.size(), "metafile-similar", log);
        if (x.enough()) return;
    }
    x.distinct(vh::hash64(log));
}

// ------------------------------------------------------------ C24
struct MFile { std::string path; std::uint64_t size; bool pad; };
static void judge_storage(vh::Ctx& x, dt::file_storage& st, const std::vector<MFile>& f, std::size_t piece, const std::string& log)
{
    const std::size_t stride = 1 + f.size() / 200;   // files whose pieces are looked at
    const auto& cs = st; std::uint64_t total = 0, regular = 0; std::size_t nreg = 0;
    std::vector<std::size_t> ex, in1, in2; std::uint64_t r2 = 0;
    for (auto& q : f) { ex.push_back(total); total += q.size; if (!q.pad) { regular += q.size; ++nreg; r2 += q.size; } in1.push_back(total); in2.push_back(r2); }
    auto bad = [&] { std::string g; for (auto& q : cs) g += cat(vh::show(q.path().string()), ":", q.file_size(), q.is_padding_file() ? "p " : " "); return cat(log, "\ntotal ", cs.total_file_size(), " expected ", total, " regular ", cs.total_regular_file_size(), " expected ", regular, "\n", g); };
    bool same = cs.size() == f.size(); for (std::size_t i = 0; same && i < f.size(); ++i) same = cs[i].path() == f[i].path && cs[i].file_size() == f[i].size && cs[i].is_padding_file() == f[i].pad;
    if (!x.check(same, "files", bad)) return;
    x.check(cs.total_file_size() == total && cs.total_regular_file_size() == regular && cs.file_count() == f.size() && cs.regular_file_count() == nreg, "totals", bad);
    x.check(cs.piece_size() == piece && cs.piece_count() == (piece ? total / piece + (total % piece != 0) : 0), "piece-count", bad);
    x.check(dt::exclusive_file_size_scan(cs) == ex && dt::inclusive_file_size_scan_v1(cs) == in1 && dt::inclusive_file_size_scan_v2(cs) == in2, "scans", bad);
    x.check((std::size_t)std::distance(cs.begin(), cs.end()) == f.size() && (std::size_t)std::distance(cs.rbegin(), cs.rend()) == f.size() && (f.empty() || (cs.front().path() == f.front().path && st.back().path() == f.back().path && cs.rbegin()->path() == f.back().path && &cs.at(0) == &*cs.begin() && &st.at(f.size() - 1) == &st.back())), "access", bad);
    std::vector<std::string> fwd, rev; for (auto& q : f) fwd.push_back(q.path); rev.assign(fwd.rbegin(), fwd.rend());
    auto walk = [](auto b, auto e) { std::vector<std::string> v; for (; b != e; ++b) v.push_back(b->path().string()); return v; };
    x.check(walk(st.begin(), st.end()) == fwd && walk(cs.cbegin(), cs.cend()) == fwd && walk(st.rbegin(), st.rend()) == rev && walk(cs.rbegin(), cs.rend()) == rev && walk(cs.crbegin(), cs.crend()) == rev, "iteration", bad);
    x.check(vh::Ctx::throws([&] { cs.at(f.size()); }).has_value(), "at-range", bad);
    if (piece) {
        bool aligned = true; std::uint64_t at = 0;
        for (std::size_t i = 0; i < f.size(); ++i) {
            auto [a, b] = i % stride ? std::pair<std::size_t, std::size_t>() : std::pair<std::size_t, std::size_t>(cs.get_pieces_offsets(i));
            if (i % stride) ; else if (f[i].size) x.check(a == at / piece && b == (at + f[i].size - 1) / piece + 1, "piece-range", [&] { return cat("file ", i, " ", a, "-", b, " ", bad()); });
            else x.check(a == b && a <= cs.piece_count(), "piece-range-empty", [&] { return cat("file ", i, " ", bad()); });
            if (!f[i].pad) aligned &= at % piece == 0;
            at += f[i].size;
        }
        x.check(dt::is_piece_aligned(cs) == aligned, "aligned", bad);
    }
}
static void accounting(vh::Ctx& x)
{
    auto& r = x.rng; dt::file_storage st; std::vector<MFile> f; std::size_t piece = 0; std::string log; x.count("storages");
    int serial = 0;
    auto size = [&]() -> std::uint64_t { auto p = piece ? piece : 16384; switch (r.below(9)) { case 0: return 0; case 1: return 1 + r.below(100); case 2: return p * (1 + r.below(4)); case 3: return p * (1 + r.below(4)) + r.range(-1, 1); case 4: return r() >> (26 + r.below(30)); case 5: return p - 1; default: return r.below(6 * p); } };
    for (int step = 0, n = 1 + r.below(25); step < n; ++step) {
        int op = r.below(12); log += cat(op, " "); x.at("storage", log); x.eval(); x.count("storage-steps");
        switch (op) {
        case 0: case 1: case 2: case 3: { MFile q{cat(r.chance(1, 2) ? "d/" : "", "f", serial++), size(), r.chance(1, 8)}; log += cat("+", q.size, q.pad ? "p " : " ");
            dt::file_entry e(q.path, q.size, q.pad ? std::optional(dt::file_attributes::padding_file) : r.chance(1, 4) ? std::optional(dt::file_attributes::executable) : std::nullopt);
            if (r.chance(1, 2)) st.add_file(e); else st.add_file(std::move(e)); f.push_back(q); break; }
        case 4: { std::vector<dt::file_entry> v; for (int k = r.below(4); k--;) { MFile q{cat("v", serial++), size(), false}; log += cat("+", q.size, " "); v.emplace_back(q.path, q.size); f.push_back(q); } st.add_files(v.begin(), v.end()); break; }
        case 5: case 6: if (!f.empty() && r.chance(3, 4)) { auto i = r.below(f.size()); auto p = f[i].path; i = std::find_if(f.begin(), f.end(), [&](auto& q) { return q.path == p; }) - f.begin(); log += cat("-", i, " "); auto e = st[i]; st.remove_file(e); f.erase(f.begin() + i); } else st.remove_file(dt::file_entry("not there", 5)); break;
        case 7: if (r.chance(1, 4)) { st.clear(); f.clear(); x.check(st.pieces().empty(), "clear-keeps-pieces", log); x.check(st.piece_size() == piece, "clear-piece-size", log); } break;
        case 8: piece = 16384ull << r.below(14); st.set_piece_size(piece); log += cat(piece, " "); x.check(st.pieces().empty(), "resize-keeps-pieces", log); for (auto& e : st) if (e.has_v2_data()) x.check(e.piece_layer().empty(), "resize-keeps-layers", log); break;
        case 9: { auto p = dt::choose_piece_size(st); std::uint64_t t = 0; for (auto& q : f) t += q.size; piece = p; x.count("chosen");
            bool pow2 = p && !(p & (p - 1)); x.check(pow2 && p >= 32768 && p <= 16777216 && st.piece_size() == p, "chosen-piece-size", [&] { return cat(log, " ", p); });
            if (p > 32768) x.check(t / p >= 512, "chosen-too-large", [&] { return cat(t, " ", p); }); if (p < 16777216) x.check((t + p - 1) / p <= 1024, "chosen-too-small", [&] { return cat(t, " ", p); }); break; }
        case 10: if (piece) {
            std::vector<MFile> want; std::uint64_t at = 0;
            for (auto& q : f) if (!q.pad) { if (at % piece) { auto s = piece - at % piece; want.push_back({cat(".pad/", s), s, true}); at += s; } want.push_back(q); at += q.size; }
            dt::optimize_alignment(st); f = want; x.check(dt::is_piece_aligned(st), "not-aligned", log); x.count("alignments");
            judge_storage(x, st, f, piece, log + " aligned"); if (r.chance(1, 2)) dt::optimize_alignment(st); } break;
        default: if (piece && st.piece_count() < 3000) {
            st.allocate_pieces(); x.check(st.pieces().size() == st.piece_count(), "allocated", log); x.count("piece-tables");
            std::vector<std::string> want; bool zero = true; for (auto& h : st.pieces()) zero &= ref::hstr(h) == std::string(20, 0); x.check(zero, "stale-pieces", log);
            for (std::size_t i = 0; i < st.piece_count(); ++i) want.push_back(r.raw(20));
            std::vector<std::size_t> order(want.size()); std::iota(order.begin(), order.end(), 0); r.shuffle(order);
            for (auto i : order) st.set_piece_hash(i, dt::sha1_hash(std::string_view(want[i])));
            std::string all; bool same = true; for (std::size_t i = 0; i < want.size(); ++i) { all += want[i]; same &= ref::hstr(st.get_piece_hash(i)) == want[i] && ref::hstr(st.pieces()[i]) == want[i]; }
            x.check(same && dt::make_v1_pieces_string(st) == all, "piece-hashes", log);
            for (std::size_t i = 0; i < f.size(); ++i) { auto [a, b] = st.get_pieces_offsets(i); auto sp = st.get_pieces_span(i); bool ok = sp.size() == b - a; for (std::size_t k = 0; ok && k < sp.size(); ++k) ok = ref::hstr(sp[k]) == want[a + k]; x.check(ok, "pieces-of-file", log); }
            for (auto& e : st) if (!e.is_padding_file() && e.file_size() && r.chance(1, 3)) { std::vector<dt::sha256_hash> l; std::string s; for (int k = r.below(4); k--;) { auto h = r.raw(32); s += h; l.emplace_back(std::string_view(h)); } auto root = r.raw(32); e.set_pieces_root(dt::sha256_hash(std::string_view(root))); e.set_piece_layer(std::span<const dt::sha256_hash>(l)); x.check(dt::make_v2_piece_layers_string(e) == s && ref::hstr(e.pieces_root()) == root, "layer-text", log); }
        } }
        judge_storage(x, st, f, piece, log);
        if (x.enough()) return;
    }
    x.check(st.file_mode() == (f.empty() ? dt::file_mode::empty : dt::file_mode::multi), "file-mode", log);
    for (auto m : {dt::file_mode::single, dt::file_mode::multi}) { st.set_file_mode(m); x.check(st.file_mode() == (f.empty() ? dt::file_mode::empty : f.size() == 1 ? m : dt::file_mode::multi), "file-mode", log); }
    x.distinct(vh::hash64(log));
}
// more files, and more pieces, than 16 bits can number
static void many_files(vh::Ctx& x)
{
    auto& r = x.rng; dt::file_storage st; std::vector<MFile> f; std::size_t piece = 16384; std::string log = "very many files"; x.at("many-files", log); x.eval();
    std::vector<dt::file_entry> v; auto n = 65600 + r.below(3000);
    for (std::size_t i = 0; i < n; ++i) { MFile q{cat("d", i % 11, "/f", i), i == 70 ? piece * (66000 + r.below(1000)) : r.below(3) ? r.below(100) : r.below(40000), r.chance(1, 50)}; v.emplace_back(q.path, q.size, q.pad ? std::optional(dt::file_attributes::padding_file) : std::nullopt); f.push_back(q); }
    st.add_files(v.begin(), v.end()); st.set_piece_size(piece); judge_storage(x, st, f, piece, log);
    for (auto i : {f.size() - 1, (std::size_t)65537, (std::size_t)r.below(f.size())}) { st.remove_file(dt::file_entry(st[i])); f.erase(f.begin() + i); } judge_storage(x, st, f, piece, log + ", fewer");
    st.allocate_pieces(); x.check(st.pieces().size() == st.piece_count(), "allocated", log); std::string all;
    for (std::size_t i = 0; i < st.piece_count(); ++i) { auto h = r.raw(20); all += h; st.set_piece_hash(i, dt::sha1_hash(std::string_view(h))); }
    x.check(dt::make_v1_pieces_string(st) == all, "piece-hashes", log);
    for (std::size_t i = 0; i < st.piece_count(); ++i) if (ref::hstr(st.get_piece_hash(i)) != all.substr(20 * i, 20)) { x.violation("piece-hashes", cat(log, ": piece ", i)); break; }
    for (std::size_t i = f.size() - 20; i < f.size(); ++i) { auto [a, b] = st.get_pieces_offsets(i); auto sp = st.get_pieces_span(i); bool ok = sp.size() == b - a; for (std::size_t k = 0; ok && k < sp.size(); ++k) ok = ref::hstr(sp[k]) == all.substr(20 * (a + k), 20); x.check(ok, "pieces-of-file", log); }
    std::vector<MFile> want; std::uint64_t at = 0;
    for (auto& q : f) if (!q.pad) { if (at % piece) { auto s = piece - at % piece; want.push_back({cat(".pad/", s), s, true}); at += s; } want.push_back(q); at += q.size; }
    dt::optimize_alignment(st); x.check(dt::is_piece_aligned(st), "not-aligned", log); judge_storage(x, st, want, piece, log + ", aligned"); x.count("many-files");
}

// ------------------------------------------------------------ C25
static std::string obs(const dt::file_entry& f)
{
    std::ostringstream o;
    o << f.path() << " " << f.file_size() << " " << (f.attributes() ? (int)*f.attributes() : -1) << " " << (f.symlink_path() ? f.symlink_path()->string() : "-") << " " << (f.last_modified_time() ? f.last_modified_time()->time_since_epoch().count() : -1) << " v2 " << f.has_v2_data();
    for (auto& [a, v] : f.checksums()) o << " " << a << "/" << v->name() << "=" << vh::hexs(v->value());
    if (f.has_v2_data()) { o << " root " << hx(ref::hstr(f.pieces_root())); for (auto& l : f.piece_layer()) o << " " << hx(ref::hstr(l)); }
    else o << (vh::Ctx::throws([&] { f.pieces_root(); }) && vh::Ctx::throws([&] { f.piece_layer(); }) ? "" : " NOT-REFUSED");
    o << f.is_symlink() << f.is_executable() << f.is_hidden() << f.is_padding_file();
    return o.str();
}
static std::string obs(const dt::file_storage& s)
{
    std::ostringstream o; o << s.root_directory() << " " << (int)s.file_mode() << " " << (int)s.protocol() << " " << s.piece_size() << " " << s.piece_count() << " " << s.total_file_size() << " " << s.total_regular_file_size() << "\n";
    for (auto& f : s) o << obs(f) << "\n";
    for (auto& p : s.pieces()) o << hx(ref::hstr(p)) << "\n";
    return o.str();
}
static dt::file_entry entry(vh::Rng& r)
{
    auto p = fs::path(component(r)); if (r.chance(1, 2)) p = fs::path(component(r)) / p;
    int kind = r.below(5);
    dt::file_entry e = kind == 0 ? dt::file_entry(p, 0, dt::file_attributes::symlink, fs::path(component(r))) : kind == 1 ? dt::file_entry(p, 1 + r.below(5000), dt::file_attributes::padding_file) : dt::file_entry(p, r.below(100000), r.chance(1, 2) ? std::optional((dt::file_attributes)(r.below(4) * 2)) : std::nullopt);
    if (r.chance(1, 2)) for (auto& [a, n] : ALGOS) if (r.chance(1, 2)) e.add_checksum(dt::make_checksum(a, std::string_view(r.raw(n))));
    if (r.chance(1, 2)) { if (r.chance(3, 4)) e.set_pieces_root(dt::sha256_hash(std::string_view(r.raw(32)))); std::vector<dt::sha256_hash> l; for (int k = r.below(4); k--;) l.emplace_back(std::string_view(r.raw(32))); e.set_piece_layer(std::span<const dt::sha256_hash>(l)); }
    if (r.chance(1, 3)) e.set_last_modified_time(fs::file_time_type(fs::file_time_type::duration(r.below(1ull << 40))));
    return e;
}
static void alter(vh::Rng& r, dt::file_entry& e)
{
    switch (r.below(4)) {
    case 0: e.add_checksum(dt::make_checksum("md5", std::string_view(r.raw(16)))); break;
    case 1: e.set_pieces_root(dt::sha256_hash(std::string_view(r.raw(32)))); break;
    case 2: { std::vector<dt::sha256_hash> l; for (int k = 1 + r.below(4); k--;) l.emplace_back(std::string_view(r.raw(32))); e.set_piece_layer(std::span<const dt::sha256_hash>(l)); break; }
    default: e.set_last_modified_time(fs::file_time_type(fs::file_time_type::duration((std::int64_t)(r.below(1ull << 40) + (1ull << 41))))); break;
    }
}
static void copies(vh::Ctx& x)
{
    auto& r = x.rng; x.eval(); x.count("entries");
    auto a = entry(r), b = entry(r); auto oa = obs(a), ob = obs(b); x.at("entry", oa + "\n" + ob); x.distinct(vh::hash64(oa + ob));
    auto same = [&](const auto& v, const std::string& w, const char* key) { x.check(obs(v) == w, key, [&] { return diff(w, obs(v)); }); };
    dt::file_entry c(a); same(c, oa, "entry-copy"); x.check(c == a && (a == b) == (a.path() == b.path()) && (a < b) == (a.path() < b.path()), "entry-compare", oa);
    alter(r, c); same(a, oa, "entry-copy-shared"); x.check(obs(c) != oa, "entry-alter", oa);
    dt::file_entry d(std::move(c)); auto od = obs(d); (void)od;
    c = b; same(c, ob, "entry-assign"); c = std::move(d); same(c, od, "entry-move-assign"); { auto& self = c; c = self; } same(c, od, "entry-self-assign");
    d = a; same(d, oa, "entry-assign"); std::swap(c, d); same(c, oa, "entry-swap"); same(d, od, "entry-swap");
    for (auto* e : {&a, &b}) if (!e->has_v2_data()) x.check(obs(*e).find("NOT-REFUSED") == std::string::npos, "entry-v2-data", obs(*e));
    // checksums
    { dt::file_entry e("p", 1); std::map<std::string, std::string> want; x.count("checksum-maps");
      for (int k = r.below(12); k--;) { auto& [alg, n] = r.pick(ALGOS); auto v = r.raw(n);
        if (r.chance(2, 3)) { if (r.chance(1, 2)) e.add_checksum(dt::make_checksum(alg, std::string_view(v))); else e.add_checksum(dt::make_checksum_from_hex(alg, hx(v))); want[alg] = v; }
        else { if (r.chance(1, 2)) e.remove_checksum(alg); else e.remove_checksum(std::string_view(alg)); want.erase(alg); }
        bool ok = e.checksums().size() == want.size();
        for (auto& [al, len] : ALGOS) { auto* p = e.get_checksum(al); auto* q = e.get_checksum(*dt::make_hash_function(al)); bool in = want.count(al); ok &= (p != nullptr) == in && p == q && (!in || (p->hex_string() == hx(want[al]) && p->name() == al)); }
        x.check(ok, "checksum-map", alg); } }
    // a fresh object does not depend on what was in its memory before
    auto fresh = [&]<class T>(const T& usual, const char* key) {
        alignas(T) unsigned char one[sizeof(T)], two[sizeof(T)]; std::memset(one, 0, sizeof(T)); std::memset(two, r.chance(1, 2) ? 0xff : (int)(r() & 0xff), sizeof(T));
        T* a = new (one) T; T* b = new (two) T; T c;
        x.check(*a == *b && *a == usual && *b == c, key, ""); if constexpr (requires { obs(*a); }) x.check(obs(*a) == obs(*b), key, "");
        if (r.chance(1, 2)) { *b = *a; x.check(*a == *b, key, ""); }
        a->~T(); b->~T(); x.count("fresh-objects");
    };
    fresh(dt::metafile(), "fresh-metafile"); fresh(dt::file_storage(), "fresh-storage"); fresh(dt::announce_url_list(), "fresh-trackers");
    // storages
    dt::file_storage s; if (r.chance(1, 2)) s.set_root_directory(r.chance(1, 2) ? "/" : x.scratch); std::vector<std::string> paths;
    for (int k = r.below(5); k--;) { auto e = entry(r); s.add_file(e); }
    if (r.chance(3, 4)) { std::vector<std::pair<std::string, std::vector<dt::sha256_hash>>> keep; s.set_piece_size(16384 << r.below(3)); for (auto& e : s) if (r.chance(1, 2)) alter(r, e); }
    if (s.piece_size() && r.chance(1, 2)) { s.allocate_pieces(); for (std::size_t i = 0; i < s.piece_count(); ++i) s.set_piece_hash(i, dt::sha1_hash(std::string_view(r.raw(20)))); }
    if (r.chance(1, 2)) s.set_file_mode(r.chance(1, 2) ? dt::file_mode::single : dt::file_mode::multi);
    if (r.chance(1, 2)) s.directory_contents("");
    auto os = obs(s); x.at("storage-copy", os); x.count("storages");
    dt::file_storage t(s); same(t, os, "storage-copy"); x.check(t == s, "storage-equal", os);
    auto inside = [&](const dt::file_storage& q, const char* key) { auto v = q.directory_contents(""); bool ok = v.size() == q.size(); for (auto* p : v) ok &= p >= &*q.begin() && p < &*q.begin() + q.size(); x.check(ok, key, os); };
    if (s.size()) { inside(t, "storage-copy-index"); inside(s, "storage-index"); }
    t.add_file(dt::file_entry("one more", 77)); if (s.size()) alter(r, t[0]); t.set_piece_size(1 << 20); same(s, os, "storage-copy-shared"); x.check(!(t == s), "storage-unequal", os);
    dt::file_storage u; for (int k = r.below(4); k--;) u.add_file(entry(r)); if (r.chance(1, 2)) u.directory_contents("");
    u = s; same(u, os, "storage-assign"); if (s.size()) inside(u, "storage-assign-index");
    { auto& self = u; u = self; } same(u, os, "storage-self-assign");
    auto ot = obs(t); dt::file_storage v(std::move(t)); same(v, ot, "storage-move"); inside(v, "storage-move-index"); u = std::move(v); same(u, ot, "storage-move-assign"); inside(u, "storage-move-assign-index"); same(s, os, "storage-source");
    // metafiles
    auto spec = make_spec(r, 1 + r.below(3)); auto m = build(r, spec); auto om = obs(spec); x.at("metafile-copy", om); x.count("metafiles");
    if (r.chance(1, 5)) m.enable_cross_seeding();
    dt::metafile n(m); same(n, om, "metafile-copy"); x.check(n == m && n.is_cross_seeding_enabled() == m.is_cross_seeding_enabled(), "metafile-equal", om);
    auto p = proto(spec.kind); auto bytes = dt::write_metafile(m, p);
    x.check(dt::write_metafile(n, p) == bytes, "metafile-copy-bytes", om);
    bool differs = true; int how = r.below(10);
    switch (how) {
    case 0: n.add_tracker("http://new/"); break;
    case 1: n.set_comment(n.comment() + "z"); break;
    case 2: n.set_name(n.name() + "z"); break;
    case 3: n.set_private(!n.is_private()); break;
    case 4: n.other_info_fields()["zz"] = bencode::decode_value("i1e"); break;
    case 5: n.add_collection("zzz"); n.add_similar_torrent(dt::info_hash(dt::protocol::v1, std::string(20, 'q'))); break;
    case 6: n.add_http_seed("zz"); n.add_web_seed("zz"); break;
    case 7: n.storage().add_file(dt::file_entry("zz", 1)); break;
    case 8: n.set_source(n.source() + "z"); break;
    default: alter(r, n.storage()[0]); differs = false; break;
    }
    same(m, om, "metafile-copy-shared"); if (differs) x.check(!(n == m), "metafile-unequal", [&] { return cat(how, " ", om); });
    auto on = obs(n); dt::metafile q(std::move(n)); same(q, on, "metafile-move"); dt::metafile w; w = m; same(w, om, "metafile-assign"); w = std::move(q); same(w, on, "metafile-move-assign");
    n = m; same(n, om, "metafile-reuse"); x.check(dt::write_metafile(n, p) == bytes, "metafile-reuse-bytes", om);
}

// ------------------------------------------------------------ C27
struct Item { std::string path; char kind; std::uint64_t size; bool exec; std::string target; bool absolute; };   // kind f, l (link to file), d (link to dir), b (broken), D, F (fifo)
static void scan(vh::Ctx& x)
{
    auto& r = x.rng; x.eval(); x.count("trees");
    auto base = x.scratch / cat("scan", x.shard); std::error_code ec; fs::remove_all(base, ec);
    auto root = base / (r.chance(1, 4) ? "ro ot" : "root"); fs::create_directories(root); fs::create_directories(base / "root2");
    std::vector<std::string> dirs{""}; for (int k = r.below(4); k--;) { auto d = r.pick(dirs) + r.pick(std::vector<std::string>{"d", "..e", "...", "a b", ".h", "root"}) + "/"; fs::create_directories(root / d); dirs.push_back(d); }
    std::vector<Item> items; std::set<std::string> used; std::string desc;
    for (int k = 1 + r.below(8); k--;) {
        Item i; i.path = r.pick(dirs) + r.pick(std::vector<std::string>{"f", "..foo", "..", "...", ".x", "a b", "name"}) + std::to_string(items.size()); if (r.chance(1, 6)) i.path = r.pick(dirs) + "..foo"; if (!used.insert(i.path).second || fs::exists(root / i.path)) continue;
        i.kind = "ffffllbdF"[r.below(9)]; i.size = r.chance(1, 5) ? 0 : r.below(3000); i.exec = false; i.absolute = false;
        if (i.kind == 'l') { std::vector<Item> reg; for (auto& q : items) if (q.kind == 'f') reg.push_back(q); if (reg.empty()) i.kind = 'f'; else { auto& q = r.pick(reg); i.target = q.path; i.size = q.size; i.exec = q.exec; } }
        if (i.kind == 'd') { if (dirs.size() < 2) i.kind = 'f'; else { i.target = dirs[1 + r.below(dirs.size() - 1)]; i.target.pop_back(); } }
        if (i.kind == 'b') i.target = r.pick(dirs) + "gone";
        auto p = root / i.path;
        if (i.kind == 'f') { ref::write_file(p, r.data(i.size)); i.exec = r.chance(1, 3); fs::permissions(p, i.exec ? (fs::perms)(r.chance(1, 3) ? 0610 : r.chance(1, 2) ? 0601 : 0755) : (fs::perms)0644); }
        else if (i.kind == 'F') ::mkfifo(p.c_str(), 0600);
        else { i.absolute = r.chance(1, 2); fs::create_symlink(i.absolute ? root / i.target : (root / i.target).lexically_relative(p.parent_path()), p); }
        desc += cat(i.kind, ":", i.path, ":", i.size, i.exec ? "x" : "", " -> ", i.target, " "); items.push_back(i);
    }
    x.at("scan", desc); x.distinct(vh::hash64(desc));
    auto given_root = r.chance(1, 3) ? fs::path(root.string() + "/") : r.chance(1, 3) ? root.parent_path() / "root2" / ".." / root.filename() / "." : root;
    dt::file_storage st; st.set_root_directory(given_root);
    x.check(st.root_directory() == root && st.has_root_directory() && st.root_directory().filename() == root.filename(), "root", [&] { return cat(given_root, " -> ", st.root_directory()); });
    std::vector<fs::path> accepted; std::vector<Item> acc;
    for (auto opt : {dt::file_options::none, dt::file_options::add_attributes, dt::file_options::copy_symlinks}) {
        bool attrs = opt != dt::file_options::none, keep = opt == dt::file_options::copy_symlinks;
        for (auto& i : items) {
            auto p = root / i.path; if (r.chance(1, 4)) p = root / "d" / ".." / i.path; else if (r.chance(1, 4)) p = root / "." / i.path;
            bool link = i.kind == 'l' || i.kind == 'd' || i.kind == 'b', kept = link && keep; bool ok = i.kind == 'f' || i.kind == 'l' || kept;
            x.at("scan-entry", cat(desc, "\n", i.path, " options ", (int)opt)); x.count(cat("scanned-", i.kind)); x.count("scanned");
            std::optional<dt::file_entry> e; auto why = vh::Ctx::throws([&] { e = dt::make_file_entry(p, st.root_directory(), opt); });
            auto what = [&] { return cat(desc, "\n", i.path, " options ", (int)opt, " ", why.value_or(e ? obs(*e) : "")); };
            x.check(e.has_value() == ok, ok ? "refused" : "accepted", what);
            if (!e || !ok) continue;
            x.check(e->path().string() == i.path && e->file_size() == (kept ? 0 : i.size), "path-or-size", what);
            x.check(e->attributes().has_value() == attrs && e->is_symlink() == kept && e->symlink_path().has_value() == kept && !e->is_padding_file() && !e->is_hidden(), "attributes", what);
            if (!kept) x.check(e->is_executable() == (attrs && i.exec), "executable", what);
            else x.check(e->symlink_path()->string() == i.target, "symlink-target", what);
            if (opt == dt::file_options::add_attributes && i.kind == 'f') { accepted.push_back(p); acc.push_back(i); }
        }
    }
    // lists of files keep their order and sizes
    std::uint64_t total = 0; for (auto& i : acc) total += i.size;
    if (r.chance(1, 2)) st.add_files(accepted.begin(), accepted.end(), dt::file_options::add_attributes);
    else { std::vector<fs::directory_entry> de; for (auto& p : accepted) de.emplace_back(p); st.add_files(de.begin(), de.end(), dt::file_options::add_attributes); }
    bool same = st.size() == acc.size(); for (std::size_t k = 0; same && k < acc.size(); ++k) same = st[k].path() == acc[k].path && st[k].file_size() == acc[k].size && st[k].is_executable() == acc[k].exec;
    x.check(same && st.total_file_size() == total, "added", desc);
    if (same) { auto abs = dt::absolute_file_paths(st); bool ok = abs.size() == acc.size(); for (std::size_t k = 0; ok && k < abs.size(); ++k) ok = abs[k] == fs::weakly_canonical(root / acc[k].path); x.check(ok, "absolute", desc); }
    // outside the root, directories, nothing there
    ref::write_file(base / "outside", r.data(5)); ref::write_file(base / "root2" / "f", r.data(5)); ref::write_file(base / (root.filename().string() + "x") / "f", r.data(5));
    for (auto& p : {base / "outside", base / "root2" / "f", base / (root.filename().string() + "x") / "f", root / ".." / "outside", root / "d" / ".." / ".." / "outside", root, root / dirs.back(), root / "nothing"})
        for (auto opt : {dt::file_options::none, dt::file_options::copy_symlinks}) {
            x.at("scan-refuse", p.string()); auto e = vh::Ctx::throws([&] { dt::make_file_entry(p, st.root_directory(), opt); }); x.check(e.has_value() && *e != "x:non-std", "accepted-outside", [&] { return p.string(); }); x.count("refused");
            auto before = st.size(); vh::Ctx::throws([&] { st.add_file(p, opt); }); x.check(st.size() == before && st.total_file_size() == total, "refused-but-added", [&] { return p.string(); });
        }
    fs::remove_all(base, ec);
}

// ------------------------------------------------------------ C29
static void directories(vh::Ctx& x)
{
    auto& r = x.rng; x.eval(); x.count("storages"); dt::file_storage st; std::vector<std::pair<fs::path, bool>> f; std::set<std::string> used; std::string desc;
    static const std::vector<std::string> N{"a", "ab", "a.b", "a b", "b", "A", "aa", "a-", ".pad", "z"};
    std::set<std::string> alldirs;
    auto add = [&] {
        fs::path p; std::string s; for (int k = r.below(4); k--;) { p /= r.pick(N); alldirs.insert(p.string()); }
        bool pad = r.chance(1, 5); p /= cat("f", r.pick(N), r.below(3)); if (pad && r.chance(1, 2)) p = fs::path(".pad") / std::to_string(r.below(50));
        if (!used.insert(p.string()).second) return; desc += p.string() + (pad ? "(p) " : " ");
        st.add_file(dt::file_entry(p, pad ? 5 : r.below(3), pad ? std::optional(dt::file_attributes::padding_file) : std::nullopt)); f.emplace_back(p, pad);
    };
    for (int k = crowd ? 1200 + r.below(400) : r.below(12); k--;) add();
    auto under = [](const fs::path& d, const fs::path& p) { auto i = p.begin(); for (auto& c : d) { if (i == p.end() || *i != c) return false; ++i; } return i != p.end(); };
    for (int round = 0; round < 2; ++round) {
        x.at("dirs", desc);
        std::set<std::string> dirs{"", "a", "a.b", "ab", "nothing", ".pad", "z"}; for (auto& [p, pad] : f) for (fs::path d = p.parent_path(); !d.empty(); d = d.parent_path()) dirs.insert(d.string());
        for (auto& d : dirs) {
            if (crowd && !d.empty() && !r.chance(1, 60)) continue;
            std::set<fs::path> want; bool allpad = true; std::set<std::string> sub, padsub;
            for (auto& [p, pad] : f) if (under(d, p)) { want.insert(p); allpad &= pad; for (fs::path q = p.parent_path(); !q.empty(); q = q.parent_path()) sub.insert(q.string()); }
            padsub = sub; for (auto& [p, pad] : f) if (!pad) for (fs::path q = p.parent_path(); !q.empty(); q = q.parent_path()) padsub.erase(q.string());
            for (auto form : {d, d + "/"}) { if (d.empty() && form != d) continue;
                auto got = st.directory_contents(form); std::vector<fs::path> gp; bool own = true; for (auto* e : got) { gp.push_back(e->path()); own &= e >= &*st.begin() && e < &*st.begin() + st.size(); }
                auto what = [&] { std::string g; for (auto& p : gp) g += p.string() + " "; return cat(desc, "\ndirectory ", vh::show(form), " gives ", g); };
                x.check(own && gp == std::vector<fs::path>(want.begin(), want.end()), "contents", what); x.count("queries");
                if (!want.empty()) x.check(dt::is_padding_directory(st, form) == allpad, "padding-directory", what);
                x.check(dt::directory_count(st, form) == sub.size(), "directory-count", [&] { return cat(what(), " counts ", dt::directory_count(st, form), " expected ", sub.size()); });
                x.check(dt::directory_count(st, form, false) == sub.size() - padsub.size(), "directory-count-without-padding", [&] { return cat(what(), " counts ", dt::directory_count(st, form, false), " expected ", sub.size() - padsub.size()); });
            }
        }
        // the answer follows later changes
        if (r.chance(1, 2) && !f.empty()) { auto i = r.below(f.size()); auto e = st[i]; st.remove_file(e); used.erase(f[i].first.string()); f.erase(f.begin() + i); desc += cat("-", i, " "); }
        if (r.chance(1, 2)) add();
        if (r.chance(1, 10)) { st.clear(); f.clear(); used.clear(); desc += "clear "; }
    }
    x.distinct(vh::hash64(desc));
}

int main(int argc, char** argv)
{
    vh::Ctx x(argc, argv);
    auto run = [&](std::size_t n, auto f) { for (std::size_t i = 0; i < n && !x.enough(); ++i) { try { f(x); } catch (const std::exception& e) { x.violation("exception", e.what()); } } };
    auto once = [&](auto f) { if (x.shard < 3) { crowd = 1 + x.shard; try { f(x); x.count("crowds"); } catch (const std::exception& e) { x.violation("exception", e.what()); } crowd = 0; } };
    if (x.mode == "magnet") { once(magnet); once(magnet_of_torrent); }
    if (x.mode == "trackers") once(many_trackers);
    if (x.mode == "storage") once(many_files);
    if (x.mode == "copies") once(copies);
    if (x.mode == "dirs") once(directories);
    if (x.mode == "magnet") { run(x.n(20000, 600000), magnet); run(x.n(2000, 40000), magnet_of_torrent); }
    else if (x.mode == "trackers") { run(x.n(3000, 80000), trackers); run(x.n(3000, 80000), metafile_lists); }
    else if (x.mode == "storage") run(x.n(8000, 200000), accounting);
    else if (x.mode == "copies") run(x.n(8000, 150000), copies);
    else if (x.mode == "scan") run(x.n(3000, 40000), scan);
    else if (x.mode == "dirs") run(x.n(6000, 150000), directories);
    return x.finish();
}
