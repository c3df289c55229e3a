// Metafiles: C18 writing and round trips, C19 info hashes, C20 hostile input, C21 reading.
#include "spec.hpp"

// ------------------------------------------------------------ C18
static dt::metafile read_somehow(vh::Ctx& x, const std::string& bytes)
{
    switch (x.rng.below(4)) {
    case 0: return dt::read_metafile(std::string_view(bytes));
    case 1: return dt::read_metafile(std::as_bytes(std::span(bytes)));
    case 2: { std::istringstream is(bytes); return dt::read_metafile(is); }
    default: { auto p = x.scratch / "in.torrent"; { std::ofstream o(p, std::ios::binary); o << bytes; } return dt::load_metafile(p); }
    }
}
static void round_trip(vh::Ctx& x)
{
    auto s = make_spec(x.rng, 1 + x.rng.below(3));
    if (x.rng.chance(1, 8)) { s.similar.insert(x.rng.raw(52)); x.count("hybrid-similar"); }
    x.at("write", label(s)); x.distinct(vh::hash64(to_b(s).enc()));
    auto m = build(x.rng, s);
    x.check(obs(m) == obs(s), "built-differs", [&] { return label(s) + "\n" + diff(obs(s), obs(m)); });
    // any form the storage allows
    auto t = s; int as = s.kind;
    if (s.kind == 3 && x.rng.chance(1, 3)) {
        as = 1 + x.rng.below(2); t.kind = as;
        if (as == 2) { t.pieces.clear(); std::erase_if(t.files, [](auto& f) { return f.pad; }); std::sort(t.files.begin(), t.files.end(), [](auto& a, auto& b) { return a.path < b.path; }); }
        x.count("written-from-hybrid");
    }
    std::string bytes = dt::write_metafile(m, proto(as));
    x.eval(); x.count("written"); x.count(cat("written-kind-", as, s.single ? "-single" : "-multi"));
    std::ostringstream os; dt::write_metafile_to(os, m, proto(as));
    x.check(os.str() == bytes, "stream-differs", [&] { return label(s); });
    std::string it; dt::write_metafile_to(std::back_inserter(it), m, proto(as));
    x.check(it == bytes, "iterator-differs", [&] { return label(s); });
    if (x.rng.chance(1, 3)) {
        auto p = x.scratch / "out.torrent";
        if (x.rng.chance(1, 2)) { std::ofstream o(p, std::ios::binary); o << std::string(bytes.size() + 5, 'x'); }
        dt::save_metafile(p, m, proto(as));
        std::ifstream i(p, std::ios::binary); std::string got(std::istreambuf_iterator<char>(i), {});
        x.check(got == bytes, "file-differs", [&] { return label(s); });
        x.count("saved");
    }
    B got;
    try { got = decode(bytes); } catch (const std::exception& e) { x.violation("not-bencode", cat(label(s), " ", e.what(), " ", vh::show(bytes, 2000))); return; }
    auto want = normal(to_b(t)).enc(); auto have = normal(got).enc();
    x.check(want == have, "written-differs", [&] { return label(t) + "\nexpected " + vh::show(want, 3000) + "\ngot " + vh::show(have, 3000); });
    dt::metafile m2 = read_somehow(x, bytes); t.similar = separate(t.similar);
    x.check(obs(m2) == obs(t), "read-back-differs", [&] { return label(t) + "\n" + diff(obs(t), obs(m2)); });
    auto again = dt::write_metafile(m2, proto(as));
    x.check(normal(decode(again)).enc() == have, "rewritten-differs", [&] { return label(t) + "\n" + vh::show(again, 2000); });
    x.count("read-back");
    // json form is the same data
    if (x.rng.chance(1, 4)) {
        std::ostringstream js; bencode::events::encode_json_to jc(js); bencode::connect(jc, bencode::decode_value(bytes));
        std::ostringstream out; dt::serialize_json_to(out, m, proto(as));
        x.check(out.str() == js.str() && dt::serialize_json(m, proto(as)) == js.str(), "json-differs", [&] { return label(s) + " " + vh::show(out.str(), 500); });
        x.count("json");
    }
}
static void special_writes(vh::Ctx& x)
{
    auto s = make_spec(x.rng, 1 + x.rng.below(3));
    auto m = build(x.rng, s);
    // a failed save is reported
    for (auto p : {fs::path("/dev/full"), x.scratch / "no" / "such" / "dir" / "f.torrent"}) {
        x.at("save-fails", p.string());
        auto e = vh::Ctx::throws([&] { dt::save_metafile(p, m, proto(s.kind)); });
        x.check(e.has_value(), "save-failure-silent", p.string()); x.count("failed-saves");
    }
    x.check(vh::Ctx::throws([&] { dt::load_metafile(x.scratch / "missing.torrent"); }).has_value(), "load-missing-silent", "");
    x.check(vh::Ctx::throws([&] { dt::write_metafile(m, dt::protocol::none); }).has_value(), "protocol-none-written", "");
    // cross seeding: a value that depends on the trackers only
    auto plain = decode(dt::write_metafile(m, proto(s.kind)));
    m.enable_cross_seeding();
    auto a = decode(dt::write_metafile(m, proto(s.kind)));
    auto& ai = a.d["info"].d;
    if (x.check(ai.count("cross_seed_entry") && ai["cross_seed_entry"].s.size() == 32, "cross-seed-missing", label(s))) {
        auto val = ai["cross_seed_entry"].s;
        ai.erase("cross_seed_entry");
        x.check(a.enc() == plain.enc(), "cross-seed-changes-more", label(s));
        auto m3 = m; m3.set_comment("other"); m3.set_private(!m3.is_private());
        x.check(decode(dt::write_metafile(m3, proto(s.kind))).d["info"].d["cross_seed_entry"].s == val, "cross-seed-unstable", label(s));
        m3.add_tracker(cat("http://new-tracker/", x.rng()));
        x.check(decode(dt::write_metafile(m3, proto(s.kind))).d["info"].d["cross_seed_entry"].s != val, "cross-seed-same-for-other-trackers", label(s));
        auto m4 = dt::read_metafile(dt::write_metafile(m, proto(s.kind)));
        x.check(decode(dt::write_metafile(m4, proto(s.kind))).d["info"].d["cross_seed_entry"].s == val, "cross-seed-lost", label(s));
        x.count("cross-seed");
    }
    // the name of a single file is the name of the torrent
    if (s.single) {
        dt::metafile n = build(x.rng, s); n.set_name(x.rng.chance(1, 2) ? "" : "another");
        if (x.rng.chance(1, 2)) { auto dir = x.scratch / "holder"; fs::create_directories(dir); n.storage().set_root_directory(dir); }
        auto w = decode(dt::write_metafile(n, proto(s.kind)));
        x.check(w.d["info"].d["name"].s == s.name, "single-name", [&] { return cat(label(s), " ", vh::show(w.d["info"].d["name"].s)); }); x.count("single-names");
    }
    // name from the root directory if none is set
    if (!s.single) {
        auto dir = x.scratch / "root name"; fs::create_directories(dir);
        dt::metafile n = build(x.rng, s); n.set_name(""); n.storage().set_root_directory(x.rng.chance(1, 2) ? dir : fs::path(dir.string() + "/"));
        auto w = decode(dt::write_metafile(n, proto(s.kind)));
        x.check(w.d["info"].d["name"].s == "root name", "root-name", vh::show(w.d["info"].d["name"].s)); x.count("root-names");
    }
    x.eval();
}

// ------------------------------------------------------------ C19
static void judge_hashes(vh::Ctx& x, const dt::metafile& m, const std::string& bytes, int kind, const std::string& what)
{
    auto b = decode(bytes); auto& i = b.d["info"]; auto raw = bytes.substr(i.from, i.to - i.from);
    auto sp = std::as_bytes(std::span(raw));
    auto h1 = ref::str(ref::sha1(sp)), h2 = ref::str(ref::sha256(sp));
    if (kind & 1) x.check(ref::hstr(dt::info_hash_v1(m)) == h1, "v1-hash", [&] { return cat(what, " expected ", hx(h1), " got ", hx(ref::hstr(dt::info_hash_v1(m)))); });
    if (kind & 2) {
        auto v2 = dt::info_hash_v2(m);
        x.check(ref::hstr(v2) == h2, "v2-hash", [&] { return cat(what, " expected ", hx(h2), " got ", hx(ref::hstr(v2))); });
        x.check(ref::hstr(dt::truncate_v2_hash(v2)) == h2.substr(0, 20), "truncated-hash", [&] { return what; });
    }
    for (auto p : {dt::protocol::v1, dt::protocol::v2, dt::protocol::hybrid}) {
        std::vector<std::string> want;
        if (kind != 3 ? kind == 1 : ((int)p & 1) != 0) want.push_back("urn:btih:" + hx(h1));
        if (kind != 3 ? kind == 2 : ((int)p & 2) != 0) want.push_back("urn:btmh:1220" + hx(h2));
        auto mg = dt::make_magnet_uri(m, p);
        x.check(mg.topics() == want, "magnet-topics", [&] { return cat(what, " protocol ", (int)p); });
        x.check(mg.display_name() == m.name(), "magnet-name", [&] { return what; });
    }
    x.count("hashes"); x.eval();
}
static void info_hashes(vh::Ctx& x)
{
    auto s = make_spec(x.rng, 1 + x.rng.below(3)); auto what = label(s);
    x.at("hash", what);
    auto m = build(x.rng, s); if (x.rng.chance(1, 5)) m.enable_cross_seeding();
    auto bytes = dt::write_metafile(m, proto(s.kind));
    x.distinct(vh::hash64(bytes));
    judge_hashes(x, m, bytes, s.kind, "own " + what);
    judge_hashes(x, read_somehow(x, bytes), bytes, s.kind, "read back " + what);
    // torrents of other programs
    auto foreign = to_b(s);
    if (x.rng.chance(1, 3)) foreign["info"]["collections"] = list_of({text(x.rng)});
    if (x.rng.chance(1, 3)) foreign["info"]["similar"] = list_of({x.rng.raw(20)});
    auto fb = foreign.enc();
    judge_hashes(x, read_somehow(x, fb), fb, s.kind, "foreign " + what);
    // outer fields do not matter, info fields do; also for what was read
    if (x.rng.chance(1, 2)) { m = read_somehow(x, x.rng.chance(1, 2) ? bytes : fb); x.count("changed-after-reading"); }
    auto h = [&](const dt::metafile& y) { return s.kind & 1 ? ref::hstr(dt::info_hash_v1(y)) : ref::hstr(dt::info_hash_v2(y)); };
    auto base = h(m);
    if (!m.is_cross_seeding_enabled()) { auto y = m; y.add_tracker("http://t/x"); y.set_comment("c" + y.comment()); y.set_created_by("someone"); y.set_creation_date((std::time_t)77); y.add_web_seed("http://w/"); y.add_http_seed("http://h/"); y.add_dht_node("n", 1); y.add_collection("cc"); y.add_similar_torrent(dt::info_hash(dt::protocol::v1, std::string(20, 'a')));
        x.check(h(y) == base, "outer-field-changes-hash", [&] { return what; }); x.count("outer-changes"); }
    std::set<std::string> seen{base};
    auto differs = [&](const char* f, auto&& change) { auto y = m; change(y); x.check(seen.insert(h(y)).second, cat("no-effect:", f), [&] { return what; }); x.count("info-changes"); };
    differs("source", [&](auto& y) { y.set_source(y.source() + "z"); });
    differs("private", [&](auto& y) { y.set_private(!y.is_private()); });
    differs("other", [&](auto& y) { y.other_info_fields()["zz"] = bencode::decode_value("i1e"); });
    for (std::size_t i = 0; i < s.files.size(); ++i) if (!s.files[i].link && !s.files[i].pad && x.rng.chance(1, 3)) { differs("checksum", [&](auto& y) { y.storage()[i].add_checksum(dt::make_checksum("sha1", std::string_view(x.rng.raw(20)))); }); break; }
    if (!s.single) differs("name", [&](auto& y) { y.set_name(y.name() + "z"); });
    if (s.kind & 1) differs("piece", [&](auto& y) { auto i = x.rng.below(s.pieces.size()); auto p = s.pieces[i]; p[x.rng.below(20)] ^= 1; y.storage().set_piece_hash(i, dt::sha1_hash(std::string_view(p))); });
    if (s.kind & 2) for (std::size_t i = 0; i < s.files.size(); ++i) if (s.files[i].v2()) { differs("root", [&](auto& y) { auto p = s.files[i].root; p[x.rng.below(32)] ^= 1; y.storage()[i].set_pieces_root(dt::sha256_hash(std::string_view(p))); }); break; }
}

// ------------------------------------------------------------ C21
static void conform(vh::Ctx& x)
{
    auto& r = x.rng;
    auto s = make_spec(r, 1 + r.below(3)); Style st;
    st.plain_url_list = r.chance(1, 2); st.no_announce = r.chance(1, 4); st.private_zero = r.chance(1, 2); st.tree_sums = r.chance(1, 2);
    auto want = s; auto b = to_b(s, st);
    if (s.tiers.empty() && r.chance(1, 2)) { b["announce"] = B("http://only/"); want.tiers = {{"http://only/"}}; x.count("announce-only"); }
    else if (!s.tiers.empty() && r.chance(1, 4)) { b["announce"] = B("http://first/ann"); want.tiers.insert(want.tiers.begin(), {"http://first/ann"}); x.count("announce-first"); }
    if (!s.tiers.empty()) {
        auto& l = b["announce-list"].l;
        for (auto& t : l) r.shuffle(t.l);
        if (r.chance(1, 4)) { l.insert(l.begin() + r.below(l.size() + 1), B::list()); x.count("empty-tiers"); }
        if (r.chance(1, 4)) {   // a repeated url keeps its first place
            auto u = s.tiers[r.below(s.tiers.size())][0];
            if (r.chance(1, 2)) l.push_back(list_of({u, "http://late/"})), want.tiers.push_back({"http://late/"}); else l.push_back(list_of({u}));
            x.count("repeated-urls");
        }
    }
    if (r.chance(1, 3)) { auto c = text(r); b["info"]["collections"] = list_of({c}); want.collections.insert(c); x.count("info-collections"); }
    if (r.chance(1, 3)) { auto h = r.raw(r.chance(1, 2) ? 20 : 32); b["info"]["similar"] = list_of({h}); want.similar.insert(h); }
    for (auto k : {"httpseeds", "url-list"}) if (b.d.count(k) && b[k].t == 'l' && r.chance(1, 3)) b[k].l.push_back(b[k].l[0]);
    if (r.chance(1, 3)) b["x-unknown"] = any_value(r);
    // a layer nobody asked for changes nothing: files of one piece or less have none
    if (s.kind & 2) for (auto& f : s.files) if (f.v2() && f.layer.empty() && r.chance(1, 3)) { bool shared = false; for (auto& g : s.files) shared |= g.root == f.root && !g.layer.empty(); if (!shared) { b["piece layers"][f.root] = B(r.chance(1, 2) ? f.root : r.raw(32)); x.count("needless-layers"); } }
    if (s.kind == 1 && r.chance(1, 6)) { b["info"]["meta version"] = B(1); }
    if (r.chance(1, 5)) b["encoding"] = B("UTF-8");
    if ((s.kind & 1) && !s.single && r.chance(1, 3)) for (auto& f : b["info"]["files"].l) { if (r.chance(1, 2)) f["mtime"] = B(5); if (f.d.count("attr")) { auto& a = f["attr"].s; r.shuffle(a); } }
    auto bytes = b.enc();
    x.at("read", label(s) + "\n" + vh::show(bytes, 4000)); x.distinct(vh::hash64(bytes));
    try {
        auto m = read_somehow(x, bytes);
        x.check(obs(m) == obs(want), "read-differs", [&] { return label(s) + "\n" + diff(obs(want), obs(m)) + vh::show(bytes, 3000); });
    } catch (const std::exception& e) { x.violation("valid-refused", cat(label(s), " ", e.what(), "\n", vh::show(bytes, 3000))); }
    x.eval(); x.count("read"); x.count(cat("read-kind-", s.kind, s.single ? "-single" : "-multi"));
    // required fields
    auto bad = b; std::string what;
    auto& i = bad["info"];
    auto leaf = [&](const SFile& f) -> B& { B* at = &i["file tree"]; for (auto& c : f.path) at = &(*at)[c]; return (*at)[""]; };
    auto entry = [&](std::size_t k) -> B& { return s.single ? i : i["files"].l[k]; };
    switch (r.below(22)) {
    case 13: { if (!(s.kind & 2)) return; std::vector<const SFile*> v; for (auto& f : s.files) if (f.v2()) v.push_back(&f); if (v.empty()) return; auto& f = *r.pick(v); what = "no pieces root"; leaf(f).d.erase("pieces root");
        // whatever the size
        if (s.kind == 2 && r.chance(1, 2)) leaf(f)["length"] = B((std::int64_t)(1 + (r.chance(1, 2) ? 0 : r.below(3)))); break; }
    case 14: { if (!(s.kind & 2)) return; what = "no length in the file tree"; std::vector<const SFile*> v; for (auto& f : s.files) if (!f.pad) v.push_back(&f); leaf(*r.pick(v)).d.erase("length"); break; }
    case 15: if (!(s.kind & 1)) return; what = "no length"; entry(r.below(s.files.size())).d.erase("length"); break;
    case 16: if (!(s.kind & 1)) return; if (s.single) { what = "no name"; i.d.erase("name"); } else { what = "no path"; entry(r.below(s.files.size())).d.erase("path"); } break;
    case 17: if (s.kind == 1) { what = "no pieces"; i.d.erase("pieces"); } else { what = "no piece layers"; bad.d.erase("piece layers"); } break;
    case 18: if (s.kind == 1) { what = "no files"; i.d.erase(s.single ? "length" : "files"); } else { what = "no file tree"; i.d.erase("file tree"); } break;
    case 19: { std::vector<const SFile*> v; for (auto& f : s.files) if (f.link) v.push_back(&f); if (v.empty()) return; auto& f = *r.pick(v); what = "symlink"; auto k = &f - s.files.data(); bool drop = r.chance(1, 2);
        if (s.kind & 1) { if (drop) entry(k).d.erase("symlink path"); else entry(k)["length"] = B(1); } if (s.kind & 2) { if (drop) leaf(f).d.erase("symlink path"); else { leaf(f)["length"] = B(1); leaf(f)["pieces root"] = B(r.raw(32)); } } if (s.kind != 2 && !drop) return; break; }
    case 20: case 21: {   // a value of another type
        std::vector<std::pair<std::string, B*>> v;
        for (auto k : {"announce", "announce-list", "comment", "created by", "creation date", "collections", "similar", "httpseeds", "nodes", "piece layers", "info", "url-list"}) if (bad.d.count(k)) v.emplace_back(k, &bad[k]);
        for (auto k : {"name", "piece length", "private", "source", "pieces", "files", "file tree", "meta version"}) if (i.d.count(k)) v.emplace_back(k, &i[k]);
        auto file = [&](B& f) { for (auto k : {"length", "path", "attr", "symlink path", "pieces root", "md5", "sha1", "sha512"}) if (f.d.count(k)) v.emplace_back(k, &f[k]); };
        if (s.kind & 1) file(entry(r.below(s.files.size())));
        if (s.kind & 2) for (auto& f : s.files) if (!f.pad && r.chance(1, 2)) file(leaf(f));
        for (auto k : {"announce-list", "collections", "similar", "httpseeds", "url-list", "nodes"}) if (bad.d.count(k) && bad[k].t == 'l' && !bad[k].l.empty()) v.emplace_back(cat("in ", k), &bad[k].l[r.below(bad[k].l.size())]);
        auto& [k, at] = v[r.below(v.size())]; what = "type of " + k; char was = at->t;
        B other = r.pick(std::vector<B>{B(5), B("xy"), B::list(), B::dict()}); if (other.t == was || (k == "url-list" && other.t != 'i' && other.t != 'd')) return; *at = other; break; }
    case 0: what = "no info"; bad.d.erase("info"); break;
    case 1: what = "no piece length"; i.d.erase("piece length"); break;
    case 2: if (!(s.kind & 1)) return; what = "short pieces"; if (s.kind == 3 && s.pieces.size() == 1) return; i["pieces"].s.resize(i["pieces"].s.size() - (r.chance(1, 2) ? 20 : 1)); break;
    case 3: if (!(s.kind & 1)) return; what = "long pieces"; i["pieces"].s += r.raw(r.chance(1, 2) ? 20 : 1 + r.below(40)); break;
    case 4: what = "piece length"; i["piece length"] = B(r.chance(1, 2) ? (std::int64_t)s.piece + 1 : (std::int64_t)(r.chance(1, 2) ? 8192 : -16384)); break;
    case 5: what = "private"; i["private"] = B(r.chance(1, 2) ? 2 : -1); break;
    case 6: what = "negative length"; if (s.kind == 1 && s.single) i["length"] = B(-1); else if (s.kind == 1) i["files"].l[0]["length"] = B(-(std::int64_t)(1 + r.below(1000))); else return; break;
    case 7: what = "path type"; if ((s.kind & 1) && !s.single) i["files"].l[0]["path"] = B("a"); else return; break;
    case 8: what = "escape"; if ((s.kind & 1) && !s.single) i["files"].l[0]["path"] = list_of(r.chance(1, 2) ? std::vector<std::string>{"..", "x"} : std::vector<std::string>{"a", "..", "..", "x"}); else return; break;
    case 9: what = "absolute"; if ((s.kind & 1) && !s.single) i["files"].l[0]["path"] = list_of({"a", "/etc/x"}); else return; break;
    case 10: what = "root size"; if (s.kind == 2 && !s.files.empty()) { B* at = &i["file tree"]; const SFile* f = nullptr; for (auto& g : s.files) if (g.v2()) f = &g; if (!f) return; for (auto& c : f->path) at = &(*at)[c]; (*at)[""]["pieces root"].s.resize(r.below(32)); } else return; break;
    case 11: what = "similar size"; bad["similar"] = list_of({r.raw(r.chance(1, 2) ? 19 : 33)}); break;
    default: what = "port"; { auto n = B::list(); n.l = {B("h"), B(r.chance(1, 2) ? 65536 : -1)}; auto l = B::list(); l.l = {n}; bad["nodes"] = l; } break;
    }
    auto bb = bad.enc();
    x.at("refuse " + what, vh::show(bb, 4000));
    auto e = vh::Ctx::throws([&] { read_somehow(x, bb); });
    x.check(e.has_value(), "accepted:" + what, [&] { return vh::show(bb, 3000); });
    x.count("refused"); x.eval();
}

// ------------------------------------------------------------ C20
static void collect(B& b, std::vector<B*>& out) { out.push_back(&b); for (auto& e : b.l) collect(e, out); for (auto& [k, e] : b.d) collect(e, out); }
static void mutate(vh::Rng& r, B& top)
{
    static const std::vector<std::string> KEYS = {"announce", "announce-list", "comment", "created by", "creation date", "collections", "similar", "httpseeds", "url-list", "nodes", "info", "piece layers",
        "name", "piece length", "private", "source", "pieces", "length", "files", "path", "file tree", "meta version", "attr", "symlink path", "symlink", "pieces root", "md5", "sha1", "sha256", "", "cross_seed_entry"};
    static const std::vector<std::int64_t> INTS = {0, 1, -1, 2, 3, 16383, 16384, 16385, 32768, 65535, 65536, 1ll << 31, (1ll << 32) - 1, 1ll << 40, 1ll << 62, INT64_MAX, INT64_MIN, -16384, 1ll << 53, 15728640};
    std::vector<B*> all; collect(top, all); auto& b = *all[r.below(all.size())];
    auto value = [&]() -> B {
        switch (r.below(8)) {
        case 0: case 1: return B(r.pick(INTS));
        case 2: return B(r.raw(r.pick(std::vector<int>{0, 1, 19, 20, 21, 31, 32, 33, 40, 64})));
        case 3: return B(std::string(r.pick(std::vector<std::string>{"", ".", "..", "/", "/etc/passwd", "a/b", "../x", "l", "p", "xlhp", "q", "http://x/"})));
        case 4: return B::list();
        case 5: return B::dict();
        case 6: { auto l = B::list(); for (int k = r.below(4); k--;) l.l.push_back(any_value(r)); return l; }
        default: return *all[r.below(all.size())];
        }
    };
    switch (r.below(7)) {
    case 0: b = value(); break;
    case 1: if (b.t == 'd' && !b.d.empty()) b.d.erase(std::next(b.d.begin(), r.below(b.d.size()))); else if (b.t == 'l' && !b.l.empty()) b.l.erase(b.l.begin() + r.below(b.l.size())); else b = value(); break;
    case 2: if (b.t == 'd') { auto v = value(); b.d[r.pick(KEYS)] = v; } else if (b.t == 'l') { auto v = value(); b.l.insert(b.l.begin() + r.below(b.l.size() + 1), v); } else b = value(); break;
    case 3: if (b.t == 's') { if (b.s.empty() || r.chance(1, 2)) b.s += r.raw(1 + r.below(25)); else if (r.chance(1, 2)) b.s.resize(r.below(b.s.size())); else b.s[r.below(b.s.size())] ^= 1 << r.below(8); } else if (b.t == 'i') b.i = r.chance(1, 2) ? r.pick(INTS) : (std::int64_t)((std::uint64_t)b.i + (std::uint64_t)r.range(-2, 2)); else b = value(); break;
    case 4: if (b.t == 'l' && !b.l.empty()) { auto v = b.l[r.below(b.l.size())]; b.l.push_back(v); } else b = value(); break;
    case 5: if (b.t == 'd' && !b.d.empty()) { auto it = std::next(b.d.begin(), r.below(b.d.size())); auto v = it->second; b.d.erase(it); b.d[r.chance(1, 2) ? r.pick(KEYS) : text(r)] = v; } else b = value(); break;
    default: b = B(r.pick(INTS)); break;
    }
}
static void hostile(vh::Ctx& x)
{
    auto& r = x.rng;
    auto b = to_b(make_spec(r, 1 + r.below(3)));
    for (int k = r.below(4); k-- > 0;) mutate(r, b);
    // lengths whose sum wraps around to the right total
    if (auto& i = b["info"]; r.chance(1, 30) && i.t == 'd' && i.d.count("files") && i.d["files"].t == 'l' && !i.d.count("file tree")) {
        std::uint64_t left = 0 - (std::uint64_t)(r.chance(1, 2) ? 0 : 16384 << r.below(4));
        auto add = [&](std::uint64_t n) { auto f = B::dict(); f["length"] = B(n); f["path"] = list_of({cat("wrap", i.d["files"].l.size())}); i.d["files"].l.push_back(f); };
        int k = 2 + r.below(3); auto each = (std::uint64_t)INT64_MAX - r.below(1 << 20);
        std::uint64_t used = 0; while (k-- > 0) { add(each); used += each; }
        while ((left - used) >> 63) { add(INT64_MAX); used += INT64_MAX; }
        if (left != used) add(left - used);
        x.count("wrapping-totals");
    }
    // trees far deeper than any directory, at any place of the tree
    if (auto& i = b["info"]; r.chance(1, 60) && i.t == 'd' && i.d.count("file tree") && i.d["file tree"].t == 'd') {
        B* at = &i.d["file tree"]; while (r.chance(1, 3) && !at->d.empty() && std::prev(at->d.end())->second.t == 'd') at = &std::prev(at->d.end())->second;
        for (int k = 1 + r.below(r.chance(1, 2) ? 1000 : 60); k--;) { auto& nx = (*at)[cat("n", r.below(2))]; if (!nx.t) nx = B::dict(); if (nx.t != 'd') break; at = &nx; }
        if (at->t == 'd') { auto f = B::dict(); f["length"] = B(r.chance(1, 2) ? 0 : 5); f["pieces root"] = B(r.raw(32)); (*at)[""] = f; }
        x.count("deep-trees");
    }
    auto bytes = b.enc();
    if (bytes.size() > 200000) return;
    int how = r.below(8);
    if (how == 0) { for (int k = 1 + r.below(4); k--;) bytes[r.below(bytes.size())] = (char)r(); }
    else if (how == 1) bytes.resize(r.below(bytes.size()));
    else if (how == 2) bytes = r.str(r.below(40), "dilse:0123456789-4:info");
    else if (how == 3 && r.chance(1, 10)) { int n = 50 + r.below(1500); bytes = std::string(n, r.chance(1, 2) ? 'l' : 'd') + std::string(n, 'e'); }
    else if (how == 4) { auto p = r.below(bytes.size()); bytes.insert(p, r.str(1 + r.below(6), "dile0123456789:-")); }
    x.at("hostile", vh::show(bytes, 30000)); x.distinct(vh::hash64(bytes)); x.eval();
    std::optional<dt::metafile> m;
    auto e1 = vh::Ctx::throws([&] { m = dt::read_metafile(std::string_view(bytes)); });
    std::optional<dt::metafile> m2;
    auto e2 = vh::Ctx::throws([&] { std::istringstream is(bytes); m2 = dt::read_metafile(is); });
    x.check(!(e1 && *e1 == "x:non-std") && !(e2 && *e2 == "x:non-std"), "odd-exception", vh::show(bytes, 2000));
    x.check(e1.has_value() == e2.has_value(), "readers-disagree", [&] { return cat(e1.value_or("read"), " / ", e2.value_or("read"), "\n", vh::show(bytes, 3000)); });
    if (!m || !m2) { x.count("refused"); return; }
    x.count("accepted");
    auto o1 = obs(*m), o2 = obs(*m2);
    x.check(o1 == o2, "readers-differ", [&] { return diff(o1, o2) + vh::show(bytes, 3000); });
    const auto& st = m->storage(); unsigned __int128 total = 0;
    for (auto& f : st) {
        total += f.file_size();
        bool up = false; for (auto& c : f.path()) up |= c == "..";
        x.check(!f.path().is_absolute() && !up && !f.path().empty(), "path-escapes", [&] { return f.path().string() + "\n" + vh::show(bytes, 3000); });
        if (f.is_symlink()) x.check(f.symlink_path().has_value() && f.file_size() == 0, "symlink", [&] { return vh::show(bytes, 3000); });
    }
    x.check(total == st.total_file_size(), "total", [&] { return vh::show(bytes, 3000); });
    x.check(st.pieces().empty() || st.pieces().size() == st.piece_count(), "pieces-count", [&] { return vh::show(bytes, 3000); });
    std::size_t tier = 0; for (auto& a : m->trackers()) { x.check(a.tier == tier || a.tier == tier + 1, "tiers", [&] { return vh::show(bytes, 3000); }); tier = a.tier; }
    // what was read can be written, hashed and read again
    auto p = st.protocol();
    x.at("hostile-write", vh::show(bytes, 30000));
    if (p != dt::protocol::none) {
        std::string out;
        auto w = vh::Ctx::throws([&] { out = dt::write_metafile(*m, p); if ((int)p & 1) dt::info_hash_v1(*m); if ((int)p & 2) dt::info_hash_v2(*m); dt::make_magnet_uri(*m); });
        if (!w) { x.count("rewritten"); auto again = vh::Ctx::throws([&] { dt::read_metafile(std::string_view(out)); }); x.count(again ? "reread-refused" : "reread"); }
    }
}
static void parser_parts(vh::Ctx& x)
{   // metafile fields through their own entry points
    auto s = make_spec(x.rng, 1 + x.rng.below(3)); auto b = to_b(s).enc();
    for (std::size_t cut : {(std::size_t)0, b.size() / 3, b.size() - 1}) {
        auto t = b.substr(0, cut); x.at("prefix", vh::show(t, 3000));
        x.check(vh::Ctx::throws([&] { dt::read_metafile(std::string_view(t)); }).has_value(), "prefix-accepted", vh::show(t, 2000)); x.count("prefixes"); x.eval();
    }
}
int main(int argc, char** argv)
{
    vh::Ctx x(argc, argv);
    auto run = [&](std::size_t n, auto f) { for (std::size_t i = 0; i < n && !x.enough(); ++i) { try { f(x); } catch (const std::exception& e) { x.violation(cat("exception"), cat(e.what())); } } };
    auto many = [&](auto f) { if (x.shard < 3) { crowd = 1 + x.shard; try { f(x); x.count("crowds"); } catch (const std::exception& e) { x.violation("exception", e.what()); } crowd = 0; } };
    if (x.mode == "write") many(round_trip);
    if (x.mode == "hash") many(info_hashes);
    if (x.mode == "read") many(conform);
    if (x.mode == "write") { run(x.n(12000, 200000), round_trip); run(x.n(600, 6000), special_writes); }
    else if (x.mode == "hash") {
        run(x.n(6000, 100000), info_hashes);
        const char* repo = std::getenv("VERIF_REPO"); auto dir = fs::path(repo ? repo : "/repo") / "tests" / "resources"; std::error_code ec;
        for (auto& e : fs::directory_iterator(dir, ec)) if (e.path().extension() == ".torrent") {
            std::ifstream i(e.path(), std::ios::binary); std::string bytes(std::istreambuf_iterator<char>(i), {}); x.at("resource", e.path().string());
            try { auto m = dt::load_metafile(e.path()); judge_hashes(x, m, bytes, (int)m.storage().protocol(), e.path().filename().string()); x.count("real-torrents"); }
            catch (const std::exception& ex) { x.count("unreadable-resource"); x.sample(cat(e.path().filename().string(), ": ", ex.what())); }
        }
    }
    else if (x.mode == "hostile") { run(x.n(80000, 1500000), hostile); run(x.n(400, 4000), parser_parts); }
    else if (x.mode == "read") run(x.n(16000, 300000), conform);
    return x.finish();
}
