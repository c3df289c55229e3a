// Merkle trees against an independent fold, with concurrent leaf setting; piece layer verification.
#include "vh.hpp"
#define CHAOS_WRAP
#include "chaos.hpp"
#include "ref.hpp"
#include <dottorrent/merkle_tree.hpp>
namespace dt = dottorrent;
using ref::bytes;

template <dt::hash_function F> const EVP_MD* md();
template <> const EVP_MD* md<dt::hash_function::sha1>() { return EVP_sha1(); }
template <> const EVP_MD* md<dt::hash_function::sha256>() { return EVP_sha256(); }
template <> const EVP_MD* md<dt::hash_function::sha512>() { return EVP_sha512(); }

template <class H> H to_hash(const bytes& b) { H h; std::memcpy(h.data(), b.data(), b.size()); return h; }

template <dt::hash_function F> static std::vector<std::vector<bytes>> layers_of(std::vector<bytes> leaves)
{
    std::vector<std::vector<bytes>> up{leaves};
    while (up.back().size() > 1) {
        std::vector<bytes> n; auto& l = up.back();
        for (std::size_t i = 0; i < l.size(); i += 2) { bytes j = l[i]; j.insert(j.end(), l[i + 1].begin(), l[i + 1].end()); n.push_back(ref::digest(md<F>(), j)); }
        up.push_back(n);
    }
    std::reverse(up.begin(), up.end());
    return up;
}

template <dt::hash_function F> static void same(vh::Ctx& c, dt::merkle_tree<F>& t, const std::vector<std::vector<bytes>>& want, const std::string& what)
{
    if (!c.check(t.tree_height() == want.size() - 1 && t.leaf_count() == want.back().size() && t.node_count() == 2 * want.back().size() - 1, "shape",
                 [&] { return vh::cat(what, ": height ", t.tree_height(), " leaves ", t.leaf_count(), " nodes ", t.node_count(), " expected height ", want.size() - 1); })) return;
    c.check(ref::hstr(t.root()) == ref::str(want[0][0]), "root", what);
    for (std::size_t d = 0; d < want.size(); ++d) {
        auto l = t.get_layer(d);
        if (!c.check(l.size() == want[d].size(), "layer-size", what)) return;
        for (std::size_t i = 0; i < l.size(); ++i) {
            c.check(ref::hstr(l[i]) == ref::str(want[d][i]), "layer", [&] { return vh::cat(what, ": layer ", d, " node ", i); });
            c.check(t.get_node(d, i) == l[i], "get-node", what);
        }
        if (l.size() > 2) {
            auto a = l.size() / 3, b = l.size(); auto rg = t.get_node_range(d, a, b);
            c.check(rg.size() == b - a && rg.data() == l.data() + a, "node-range", what);
        }
    }
    for (std::size_t i = 0; i < want.back().size(); ++i) c.check(ref::hstr(t.get_leaf(i)) == ref::str(want.back()[i]), "get-leaf", what);
    c.check(t.data().size() == t.node_count() && t.data()[0] == t.root(), "data", what);
    c.count("nodes-compared", t.node_count());
}

template <dt::hash_function F> static void tree_case(vh::Ctx& c, std::uint64_t seed, std::size_t n)
{
    using tree = dt::merkle_tree<F>; using hash = typename tree::value_type;
    vh::Rng r(seed);
    std::size_t sz = hash::size(); bool filled = r.chance(1, 2); int threads = r.chance(1, 3) ? 2 + r.below(3) : 1;
    auto what = vh::cat("tree of ", n, " leaves, digest size ", sz, filled ? " with filler" : "", " threads ", threads, " seed ", seed);
    c.at("tree", what); chaos::reset(seed, r.below(20));
    bytes filler = filled ? r.data(sz) : bytes(sz);
    std::vector<bytes> leaves; for (std::size_t i = 0; i < n; ++i) leaves.push_back(r.data(sz));
    std::size_t w = 1; while (w < n) w *= 2;
    auto padded = leaves; padded.resize(w, filler);
    std::vector<std::size_t> skipped; // leaves left at the filler
    for (std::size_t i = 0; i < n; ++i) if (r.chance(1, 10)) { skipped.push_back(i); padded[i] = filler; }
    tree t = r.chance(1, 2) ? tree(r.chance(1, 2) ? n + 3 : 1) : tree();
    if (filled) t.set_leaf_nodes(n, to_hash<hash>(filler)); else t.set_leaf_nodes(n);
    if (r.chance(1, 3)) { if (filled) { tree u(n, to_hash<hash>(filler)); t = u; } else { tree u(n); t = std::move(u); } c.count("assigned"); }
    std::vector<std::size_t> order; for (std::size_t i = 0; i < n; ++i) if (!std::binary_search(skipped.begin(), skipped.end(), i)) order.push_back(i);
    r.shuffle(order);
    if (!filled) c.check(!t.has_root(), "root-before-update", what);
    if (threads == 1) for (auto i : order) t.set_leaf(i, to_hash<hash>(leaves[i]));
    else {
        std::vector<std::thread> ts; std::atomic<int> go{0};
        for (int k = 0; k < threads; ++k) ts.emplace_back([&, k] {
            ++go; while (go < threads) {}
            for (std::size_t j = k; j < order.size(); j += threads) {
                t.set_leaf(order[j], to_hash<hash>(leaves[order[j]]));
                if (!(t.get_leaf(order[j]) == to_hash<hash>(leaves[order[j]]))) c.violation("leaf-lost", what);
                if (t.leaf_count() != w) c.violation("leaf-count", what);
            }
        });
        for (auto& x : ts) x.join();
        c.count("concurrent-fills");
    }
    if (r.chance(1, 2)) t.update(); else { auto h = dt::make_hasher(F); t.update(*h); if (r.chance(1, 3)) t.update(*h); }
    auto want = layers_of<F>(padded);
    same(c, t, want, what);
    c.check(t.has_root(), "root-after-update", what);
    if (r.chance(1, 2)) { // copies are equal and independent
        tree u(t), v; v = t;
        auto i = r.below(n); auto other = r.data(sz);
        u.set_leaf(i, to_hash<hash>(other)); u.update();
        same(c, t, want, what + " (after changing a copy)"); same(c, v, want, what + " (assigned copy)");
        auto p2 = padded; p2[i] = other; same(c, u, layers_of<F>(p2), what + " (changed copy)");
        tree m(std::move(v)); same(c, m, want, what + " (moved)");
        c.count("copies");
    }
    c.eval(); c.count("trees"); c.distinct(vh::cat(n, " ", sz, " ", seed)); if (seed % 50 == 0) c.sample(what);
}

// piece layers: valid ones accepted, any change refused
static void layers_case(vh::Ctx& c, std::uint64_t seed)
{
    vh::Rng r(seed);
    ref::Gen g; g.max_size = 900000; auto k = ref::make(r, g);
    dt::file_storage st;
    struct E { bool good; std::string why; };
    std::vector<E> want;
    st.set_piece_size(k.piece_size);
    for (auto& f : k.files) {
        if (r.chance(1, 8)) { st.add_file(dt::make_padding_file_entry(1 + r.below(k.piece_size))); want.push_back({true, "padding"}); }
        dt::file_entry e(f.path, f.data.size());
        if (f.data.empty()) { st.add_file(e); want.push_back({true, "empty"}); continue; }
        auto v = ref::v2(f.data, k.piece_size); E w{true, "intact"};
        e.set_pieces_root(to_hash<dt::sha256_hash>(v.root));
        if (!v.layer.empty()) {
            auto kind = r.below(5);
            if (kind == 1) { auto i = r.below(v.layer.size()); v.layer[i][r.below(32)] ^= std::byte(1 << r.below(8)); w = {false, "changed entry"}; }
            if (kind == 2 && v.layer.size() > 1) { auto i = r.below(v.layer.size() - 1); if (v.layer[i] != v.layer[i + 1]) { std::swap(v.layer[i], v.layer[i + 1]); w = {false, "swapped entries"}; } }
            if (kind == 3) { auto b = v.root; b[r.below(32)] ^= std::byte(1 << r.below(8)); e.set_pieces_root(to_hash<dt::sha256_hash>(b)); w = {false, "changed root"}; }
            std::vector<dt::sha256_hash> l; for (auto& x : v.layer) l.push_back(to_hash<dt::sha256_hash>(x));
            e.set_piece_layer(l);
        } else w.why = "single piece";
        st.add_file(e); want.push_back(w);
    }
    auto what = vh::cat("piece layers of ", k.describe(), " seed ", seed);
    c.at("verify-layers", what);
    std::vector<bool> got; dt::verify_piece_layers(st, std::back_inserter(got));
    if (c.check(got.size() == want.size(), "layers-result-size", what))
        for (std::size_t i = 0; i < want.size(); ++i) {
            c.check(got[i] == want[i].good, "layers-verdict", [&] { return vh::cat(what, ": file ", i, " ", want[i].why, " judged ", got[i]); });
            c.count(want[i].good ? "layers-accepted" : "layers-refused");
        }
    c.eval(); c.count("layer-runs"); c.distinct(what);
}

int main(int argc, char** argv)
{
    vh::Ctx c(argc, argv);
    std::size_t lim = c.mode == "tsan" ? 60 : 260;
    auto any = [](vh::Ctx& k, std::uint64_t s, std::size_t n) {
        switch (s % 4) { case 0: tree_case<dt::hash_function::sha1>(k, s, n); break; case 1: tree_case<dt::hash_function::sha512>(k, s, n); break; default: tree_case<dt::hash_function::sha256>(k, s, n); }
    };
    for (std::size_t n = 1; n < lim && !c.enough(); ++n) if (c.mine(n)) {
        auto s0 = c.rng();
        c.isolated("trees", vh::cat("trees of ", n, " leaves, seed ", s0), [&](vh::Ctx& k) { for (int j = 0; j < (k.thorough ? 60 : 6); ++j) any(k, s0 + j, n); });
    }
    // trees of more leaves than 16 bits can number
    if (c.mode != "tsan" && c.shard < 4) { auto s0 = c.rng() / 4 * 4 + c.shard, n = 65530 + c.rng.below(20000); c.isolated("trees", vh::cat("tree of ", n, " leaves, seed ", s0), [&](vh::Ctx& k) { any(k, s0, n); k.count("large-trees"); }, 300); }
    for (std::size_t i = 0; i < c.n(40, 600) && !c.enough(); ++i) {
        auto s0 = c.rng();
        c.isolated("trees", vh::cat("trees, seed ", s0), [&](vh::Ctx& k) { vh::Rng r(s0); for (int j = 0; j < 20; ++j) any(k, s0 + j, 1 + r.below(r.chance(1, 6) ? 3000 : 70)); });
    }
    if (c.mode != "tsan")
        for (std::size_t i = 0; i < c.n(60, 1500) && !c.enough(); ++i) {
            auto s0 = c.rng();
            c.isolated("verify-layers", vh::cat("layers, seed ", s0), [&](vh::Ctx& k) { for (int j = 0; j < 20; ++j) layers_case(k, s0 + j); });
        }
    return c.finish();
}
