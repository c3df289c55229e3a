// Value types: digests, checksums, info hashes, hash function names, dht nodes, announce urls, flags.
#include "vh.hpp"
#include <fmt/format.h>
#include <dottorrent/general.hpp>
#include <dottorrent/hash.hpp>
#include <dottorrent/checksum.hpp>
#include <dottorrent/hash_function_traits.hpp>
#include <dottorrent/info_hash.hpp>
#include <dottorrent/dht_node.hpp>
#include <dottorrent/announce_url.hpp>
#include <dottorrent/utils.hpp>
#include <dottorrent/literals.hpp>
namespace dt = dottorrent;
using hf = dt::hash_function;

static std::string flip_case(vh::Rng& r, std::string s) { for (auto& c : s) if (r.chance(1, 2)) c = (char)std::toupper((unsigned char)c); return s; }
static std::span<const std::byte> sb(std::string_view s) { return std::as_bytes(std::span(s)); }
static int sgn(std::strong_ordering o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }
static int lex(std::string_view a, std::string_view b)
{ for (std::size_t i = 0; i < std::min(a.size(), b.size()); ++i) if (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1; return a.size() < b.size() ? -1 : a.size() > b.size() ? 1 : 0; }

template <class H> static void hashes(vh::Ctx& c, hf f, std::size_t size, const char* name, std::size_t rounds)
{
    c.at(vh::cat("hash:", name));
    c.check(H::size_bytes == size && H::size_hex == 2 * size && H::size_bits == 8 * size && H::size() == size && sizeof(std::string_view(H{})) && std::string_view(H{}).size() == size, vh::cat("hash-size:", name), std::to_string(H::size_bytes));
    c.check(H::algorithm == f, "hash-algorithm", name);
    for (std::size_t i = 0; i < rounds; ++i) {
        auto& r = c.rng; c.eval(); c.count("hash-values");
        auto raw = r.raw(size), raw2 = r.chance(1, 2) ? r.raw(size) : raw;
        if (r.chance(1, 2)) raw2[r.below(size)] = (char)r();
        c.distinct(raw);
        H a{std::string_view(raw)}, b(sb(raw2));
        auto hex = vh::hexs(sb(raw));
        c.at(vh::cat("hash:", name), hex);
        c.check(a.hex_string() == hex, "hash-hex", [&] { return hex + " -> " + a.hex_string(); });
        c.check(dt::make_hash_from_hex<H>(flip_case(r, hex)) == a, "hash-from-hex", hex);
        c.check(std::string_view(a) == raw && std::equal(a.begin(), a.end(), sb(raw).begin()) , "hash-bytes", hex);
        c.check((a == b) == (raw == raw2) && (a != b) == (raw != raw2), "hash-equality", hex);
        c.check(sgn(a <=> b) == lex(raw, raw2), "hash-ordering", [&] { return hex + " vs " + vh::hexs(sb(raw2)); });
        if (a == b) c.check(std::hash<H>{}(a) == std::hash<H>{}(b), "hash-of-hash", hex);
        H copy = a; copy = b; c.check(copy == b, "hash-copy", hex);
        // wrong sizes and bad digits are refused
        auto n = r.below(2 * size + 3); if (n == size) n = size + 1;
        auto other = r.raw(n);
        c.check(vh::Ctx::throws([&] { H x{std::string_view(other)}; }).has_value() && vh::Ctx::throws([&] { H x(sb(other)); }).has_value(), "hash-wrong-size-accepted", [&] { return vh::cat(name, " from ", n, " bytes"); });
        auto bad = hex; auto k = r.below(4);
        if (k == 0) bad.pop_back(); else if (k == 1) bad.push_back('0'); else { char ch; do ch = (char)r(); while (std::isxdigit((unsigned char)ch)); bad[r.below(bad.size())] = ch; }
        c.check(vh::Ctx::throws([&] { dt::make_hash_from_hex<H>(bad); }).has_value(), "hash-bad-hex-accepted", vh::show(bad));
        if (i == 0) c.sample(vh::cat(name, " ", hex));
    }
}
template <hf F> static void sums(vh::Ctx& c, std::size_t size, const char* name, std::size_t rounds)
{
    using T = dt::hash_function_traits<F>;
    using C = typename T::checksum_type;
    c.check(T::digest_size_bytes == size && T::digest_size_bits == 8 * size, vh::cat("traits:", name), name);
    hashes<typename T::hash_type>(c, F, size, name, rounds);
    for (std::size_t i = 0; i < rounds; ++i) {
        auto& r = c.rng; auto raw = r.raw(size); auto hex = vh::hexs(sb(raw)); c.eval(); c.count("checksums");
        c.at(vh::cat("checksum:", name), hex);
        std::unique_ptr<dt::checksum> v[] = {dt::make_checksum(name, raw), dt::make_checksum(F, raw), dt::make_checksum(name, sb(raw)), dt::make_checksum(F, sb(raw)),
            dt::make_checksum_from_hex(name, flip_case(r, hex)), dt::make_checksum_from_hex(F, hex), std::make_unique<C>(std::string_view(raw)), std::make_unique<C>(typename T::hash_type{std::string_view(raw)}),
            dt::make_checksum(name), dt::make_checksum(F), std::make_unique<C>()};
        for (std::size_t k = 8; k < 11; ++k) {
            c.check(v[k]->value().size() == size && std::all_of(v[k]->value().begin(), v[k]->value().end(), [](std::byte b) { return b == std::byte{}; }), "checksum-empty", name);
            std::memcpy(v[k]->value().data(), raw.data(), size);
        }
        for (auto& p : v) {
            const dt::checksum& q = *p;
            c.check(q.algorithm() == F && q.name() == name && q.size() == size && q.hex_string() == hex && vh::hexs(q.value()) == hex, "checksum-value", [&] { return vh::cat(name, " ", hex, " -> ", q.name(), " ", q.hex_string()); });
            c.check(q == *v[0] && (q <=> *v[0]) == 0, "checksum-equality", name);
        }
        auto raw2 = raw; raw2[r.below(size)] = (char)r();
        auto o = dt::make_checksum(F, raw2);
        c.check((*o == *v[0]) == (raw2 == raw), "checksum-equality", name);
        auto cmp = *v[0] <=> *o; int l = lex(raw, raw2);
        c.check(l < 0 ? cmp < 0 : l > 0 ? cmp > 0 : cmp == 0, "checksum-ordering", name);
        auto n = r.below(2 * size + 2); if (n == size) ++n;
        auto w = r.raw(n);
        c.check(vh::Ctx::throws([&] { dt::make_checksum(name, w); }).has_value() && vh::Ctx::throws([&] { dt::make_checksum(F, w); }).has_value(), "checksum-wrong-size-accepted", [&] { return vh::cat(name, " ", n); });
        auto bad = hex; if (r.chance(1, 2)) bad.pop_back(); else bad[r.below(bad.size())] = "gG-z /"[r.below(6)];
        c.check(vh::Ctx::throws([&] { dt::make_checksum_from_hex(name, bad); }).has_value() && vh::Ctx::throws([&] { dt::make_checksum_from_hex(F, bad); }).has_value(), "checksum-bad-hex-accepted", bad);
    }
}
static void generic(vh::Ctx& c)
{
    auto& r = c.rng; c.eval(); c.count("generic-checksums");
    auto key = r.str(1 + r.below(12), "abcdefgh_-0123 "); auto raw = r.raw(r.below(90)), raw2 = r.raw(r.below(90));
    if (dt::is_hash_function_name(key)) return;
    c.at("generic-checksum", key);
    auto a = dt::make_checksum(key, raw); 
    dt::generic_checksum b(key, std::span<const char>(raw.data(), raw.size())), e(key);
    for (const dt::checksum* p : {(const dt::checksum*)a.get(), (const dt::checksum*)&b})
        c.check(p->name() == key && p->size() == raw.size() && p->hex_string() == vh::hexs(sb(raw)), "generic-checksum-value", [&] { return vh::cat(key, " ", vh::hexs(sb(raw)), " -> ", p->hex_string()); });
    c.check(e.size() == 0 && *a == b, "generic-checksum-value", key);
    auto made = dt::make_checksum(key); const dt::generic_checksum& cb = b;
    c.check(made->name() == key && made->size() == 0 && made->value().empty() && vh::hexs(cb.value()) == vh::hexs(sb(raw)) && vh::hexs(b.value()) == vh::hexs(sb(raw)) && vh::hexs(std::as_const(*a).value()) == vh::hexs(sb(raw)) && !(int)cb.algorithm(), "generic-checksum-value", key);
    auto hexed = dt::make_checksum_from_hex(key, flip_case(r, vh::hexs(sb(raw)))); c.check(*hexed == *a, "generic-checksum-value", key);
    if (!raw.empty()) { auto bad = vh::hexs(sb(raw)); bad[r.below(bad.size())] = "gG-z /"[r.below(6)]; c.check(vh::Ctx::throws([&] { dt::make_checksum_from_hex(key, bad); }).has_value(), "checksum-bad-hex-accepted", bad); }
    auto d = dt::make_checksum(key, raw2);
    c.check((*a == *d) == (raw == raw2), "checksum-equality", key);
    auto cmp = *a <=> *d; int l = lex(raw, raw2);
    c.check(l < 0 ? cmp < 0 : l > 0 ? cmp > 0 : cmp == 0, "checksum-ordering", key);
    auto other = dt::make_checksum(key + "x", raw);
    c.check(!(*a == *other), "checksum-equality", "different names");
}
static void names(vh::Ctx& c)
{
    auto& r = c.rng; c.eval(); c.count("names");
    static const std::vector<std::string> all{"md4", "md5", "blake2b_512", "blake2s_256", "sha1", "sha224", "sha256", "sha384", "sha512", "sha3_224", "sha3_256", "sha3_384", "sha3_512", "shake128", "shake256", "ripemd160", "whirlpool"};
    std::string s = r.pick(all);
    switch (r.below(5)) { case 0: s.pop_back(); break; case 1: s.push_back("0_ a1"[r.below(5)]); break; case 2: s[r.below(s.size())] ^= 0x20; break; case 3: s = r.raw(r.below(8)); break; default: break; }
    bool ok = std::find(all.begin(), all.end(), s) != all.end();
    c.distinct(s);
    c.at("name", vh::show(s));
    auto f = dt::make_hash_function(s);
    c.check(f.has_value() == ok && dt::is_hash_function_name(s) == ok && (!ok || dt::to_string(*f) == s), "function-name", vh::show(s));
}
static void infohash(vh::Ctx& c)
{
    auto& r = c.rng; c.eval(); c.count("info-hashes");
    auto gen = [&](std::string& a, std::string& b, int& kind) {
        static std::vector<std::string> pool1, pool2;
        if (pool1.size() < 4) { pool1.push_back(r.raw(20)); pool2.push_back(r.raw(32)); }
        a = r.chance(1, 2) ? r.pick(pool1) : r.raw(20); b = r.chance(1, 2) ? r.pick(pool2) : r.raw(32); kind = 1 + r.below(3);
        auto ha = vh::hexs(sb(a)), hb = vh::hexs(sb(b));
        dt::sha1_hash x{std::string_view(a)}; dt::sha256_hash y{std::string_view(b)};
        switch (r.below(3)) {
        case 0: return kind == 1 ? dt::info_hash(x) : kind == 2 ? dt::info_hash(y) : dt::info_hash(x, y);
        case 1: return kind == 1 ? dt::info_hash(dt::protocol::v1, a) : kind == 2 ? dt::info_hash(dt::protocol::v2, b) : dt::info_hash(a, b);
        default: return kind == 1 ? dt::info_hash::from_hex(dt::protocol::v1, ha) : kind == 2 ? dt::info_hash::from_hex(dt::protocol::v2, hb) : dt::info_hash::from_hex(ha, hb);
        }
    };
    std::string a[3], b[3]; int k[3];
    dt::info_hash h[3] = {gen(a[0], b[0], k[0]), gen(a[1], b[1], k[1]), gen(a[2], b[2], k[2])};
    for (int i = 0; i < 3; ++i) {
        c.at("info-hash", vh::cat(k[i]));
        c.check((int)h[i].version() == k[i], "info-hash-version", "");
        if (k[i] & 1) c.check(h[i].get_binary(dt::protocol::v1) == a[i] && std::string_view(h[i].v1()) == a[i] && h[i].get_hex(dt::protocol::v1) == vh::hexs(sb(a[i])), "info-hash-v1", vh::hexs(sb(a[i])));
        if (k[i] & 2) c.check(h[i].get_binary(dt::protocol::v2) == b[i] && std::string_view(h[i].v2()) == b[i] && h[i].get_hex(dt::protocol::v2) == vh::hexs(sb(b[i])) && std::string_view(h[i].truncated_v2()) == b[i].substr(0, 20), "info-hash-v2", vh::hexs(sb(b[i])));
    }
    auto same = [&](int i, int j) { return k[i] == k[j] && (!(k[i] & 1) || a[i] == a[j]) && (!(k[i] & 2) || b[i] == b[j]); };
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
        auto o = h[i] <=> h[j], p = h[j] <=> h[i];
        c.check((h[i] == h[j]) == same(i, j), "info-hash-equality", [&] { return vh::cat(k[i], k[j]); });
        c.check((o == 0) == same(i, j) && sgn(o) == -sgn(p), "info-hash-ordering-vs-equality", [&] { return vh::cat("kinds ", k[i], " ", k[j], " ", sgn(o), " ", sgn(p)); });
        if (h[i] == h[j]) c.check(std::hash<dt::info_hash>{}(h[i]) == std::hash<dt::info_hash>{}(h[j]), "info-hash-hash", "");
        for (int l = 0; l < 3; ++l) if (h[i] < h[j] && h[j] < h[l]) c.check(h[i] < h[l], "info-hash-ordering-transitive", "");
    }
    auto n = r.below(70); auto raw = r.raw(n);
    c.check((n == 20) == !vh::Ctx::throws([&] { dt::info_hash x(dt::protocol::v1, raw); }) && (n == 32) == !vh::Ctx::throws([&] { dt::info_hash x(dt::protocol::v2, raw); }), "info-hash-wrong-size-accepted", std::to_string(n));
    c.check((n == 20) == !vh::Ctx::throws([&] { dt::info_hash x(raw, std::string(32, 'x')); }) && (n == 32) == !vh::Ctx::throws([&] { dt::info_hash x(std::string(20, 'x'), raw); }), "info-hash-wrong-size-accepted", std::to_string(n));
    c.check(vh::Ctx::throws([&] { dt::info_hash x(dt::protocol::hybrid, raw); }) && vh::Ctx::throws([&] { dt::info_hash x(dt::protocol::none, raw); }), "info-hash-protocol-accepted", "");
    c.check(vh::Ctx::throws([&] { dt::info_hash::from_hex(dt::protocol::none, vh::hexs(sb(a[0]))); }) && vh::Ctx::throws([&] { h[0].get_binary(dt::protocol::none); }) && vh::Ctx::throws([&] { h[0].get_hex(dt::protocol::none); }), "info-hash-protocol-accepted", "");
}
static void nodes(vh::Ctx& c)
{
    auto& r = c.rng; c.eval(); c.count("nodes");
    auto g = [&] { return std::pair<std::string, std::uint16_t>(r.str(r.below(4), "ab.\xff"), r.chance(1, 2) ? r.below(3) : r.below(65536)); };
    auto p = g(), q = g();
    dt::dht_node a(p.first, p.second), b(q.first, q.second);
    c.check(std::string(a) == p.first + ":" + std::to_string(p.second), "node-text", vh::show(p.first));
    c.check((a == b) == (p == q) && sgn(a <=> b) == (p < q ? -1 : q < p ? 1 : 0), "node-ordering", [&] { return vh::cat(vh::show(p.first), p.second, vh::show(q.first), q.second); });
    c.check(dt::get<0>(a) == p.first && dt::get<1>(a) == p.second, "node-binding", "");
    dt::dht_node m = a; m = b; c.check(m == b && m.url == q.first && m.port == q.second && b.url == q.first, "node-copy", ""); m = a; m = std::move(b); c.check(m.url == q.first && m.port == q.second, "node-move", "");
    dt::announce_url u(p.first, p.second), v(q.first, q.second);
    c.check((u == v) == (p == q), "url-equality", "");
    auto x = std::pair(p.second, p.first), y = std::pair(q.second, q.first);
    c.check(sgn(u <=> v) == (x < y ? -1 : y < x ? 1 : 0), "url-ordering", [&] { return vh::cat(vh::show(p.first), p.second, vh::show(q.first), q.second); });
    c.check(dt::get<0>(u) == p.first && dt::get<1>(u) == p.second && std::string_view(u) == p.first, "url-binding", "");
    if (u == v) c.check(std::hash<dt::announce_url>{}(u) == std::hash<dt::announce_url>{}(v), "url-hash", "");
}
static void flags(vh::Ctx& c)
{
    using fa = dt::file_attributes;
    for (int i = 0; i < 16; ++i) for (int j = 0; j < 16; ++j) {
        auto a = fa(i), b = fa(j), t = a; c.eval(); c.count("flags");
        c.check((a | b) == fa(i | j) && (a & b) == fa(i & j) && (a ^ b) == fa(i ^ j) && (~a & fa(15)) == fa(~i & 15), "flag-operators", vh::cat(i, j));
        t |= b; c.check(t == fa(i | j), "flag-operators", ""); t = a; t &= b; c.check(t == fa(i & j), "flag-operators", ""); t = a; t ^= b; c.check(t == fa(i ^ j), "flag-operators", "");
    }
    // attribute text: all strings over the letters up to length 5 plus foreign characters
    const std::string letters = "lxhpq";
    std::vector<std::string> todo{""};
    for (std::size_t k = 0; k < todo.size(); ++k) {
        auto s = todo[k]; c.eval(); c.count("attribute-texts"); c.distinct("attr" + s);
        bool bad = s.find('q') != std::string::npos; int want = 0;
        for (char ch : s) want |= ch == 'l' ? 1 : ch == 'x' ? 2 : ch == 'h' ? 4 : ch == 'p' ? 8 : 0;
        fa got{}; auto e = vh::Ctx::throws([&] { got = dt::make_file_attributes(s); });
        c.check(e.has_value() == bad && (bad || (int)got == want), "attribute-text", s);
        if (!bad) { auto t = dt::to_string(got); c.check((int)dt::make_file_attributes(t) == want && t.size() == (std::size_t)__builtin_popcount(want), "attribute-roundtrip", s + " -> " + t); }
        if (s.size() < 5) for (char ch : letters) todo.push_back(s + ch);
    }
    for (int ch = 0; ch < 256; ++ch) if (!std::strchr("lxhp", ch) || !ch) c.check(vh::Ctx::throws([&] { dt::make_file_attributes(std::string(1, (char)ch)); }).has_value(), "attribute-text", std::to_string(ch));
    using namespace dt::literals;
    c.check(3_KiB == 3072 && 3_KB == 3000 && 5_MiB == 5242880 && 5_MB == 5000000 && 7_GiB == 7516192768ull && 7_GB == 7000000000ull && 2_TiB == 2199023255552ull && 2_TB == 2000000000000ull && 256_bits == 32, "literals", "");
    auto& r = c.rng;
    for (int i = 0; i < 4000; ++i) {
        auto x = r() >> r.below(64), y = (r() >> r.below(64)) | 1; c.eval(); c.count("integer-helpers");
        c.check(dt::detail::div_ceil(x, y) == (std::uint64_t)(((unsigned __int128)x + y - 1) / y), "div-ceil", vh::cat(x, "/", y));
        if (x) { unsigned f = 0; while (f < 63 && (std::uint64_t(2) << f) <= x && f < 62) ++f; if (x >> 63) f = 63; 
            c.check(dt::detail::log2_floor(x) == f, "log2", vh::cat(x, " -> ", dt::detail::log2_floor(x))); }
        if (x && x < (1ull << 62)) { unsigned g = 0; while ((std::uint64_t(1) << g) < x) ++g; c.check(dt::detail::log2_ceil(x) == g, "log2-ceil", std::to_string(x)); }
    }
}
int main(int argc, char** argv)
{
    vh::Ctx c(argc, argv);
    auto n = c.n(400, 20000);
#define S(f, k) sums<hf::f>(c, k, #f, n);
    S(md4, 16) S(md5, 16) S(blake2b_512, 64) S(blake2s_256, 32) S(sha1, 20) S(sha224, 28) S(sha256, 32) S(sha384, 48) S(sha512, 64) S(sha3_224, 28)
    S(sha3_256, 32) S(sha3_384, 48) S(sha3_512, 64) S(shake128, 16) S(shake256, 32) S(ripemd160, 20) S(whirlpool, 64)
#undef S
    c.check(vh::Ctx::throws([] { dt::make_checksum(hf::none); }) && vh::Ctx::throws([] { dt::make_checksum(hf::md2, std::string_view("x")); }) && vh::Ctx::throws([] { dt::to_string(hf::none); }), "none-accepted", "");
    for (std::size_t i = 0, k = c.n(8000, 400000); i < k; ++i) { generic(c); names(c); infohash(c); nodes(c); }
    flags(c);
    return c.finish();
}
