// Streaming digests: every algorithm, chunking and reuse pattern against one-shot digests
// fetched from the crypto library by their standard names, plus published known answers.
#include "vh.hpp"
#include <openssl/evp.h>
#include <dottorrent/hasher/factory.hpp>
#include <dottorrent/hasher/openssl_hasher.hpp>
#include <dottorrent/hasher/backends/openssl.hpp>
#if defined(__SANITIZE_ADDRESS__)
extern "C" std::size_t __sanitizer_get_current_allocated_bytes();
#define ALLOCATED() __sanitizer_get_current_allocated_bytes()
#else
#define ALLOCATED() std::size_t(0)
#endif
namespace dt = dottorrent;
using hf = dt::hash_function;
using md = openssl::message_digest_algorithm;

struct Alg { const char* name; const char* std_name; std::size_t size; std::optional<hf> h; md m; const char* abc; };
static const Alg algs[] = {
    {"md4", "MD4", 16, hf::md4, md::md4, "a448017aaf21d8525fc10ae87aa6729d"},
    {"md5", "MD5", 16, hf::md5, md::md5, "900150983cd24fb0d6963f7d28e17f72"},
    {"blake2b_512", "BLAKE2B-512", 64, hf::blake2b_512, md::blake2b512, "ba80a53f981c4d0d6a2797b69f12f6e94c212f14685ac4b74b12bb6fdbffa2d17d87c5392aab792dc252d5de4533cc9518d38aa8dbf1925ab92386edd4009923"},
    {"blake2s_256", "BLAKE2S-256", 32, hf::blake2s_256, md::blake2s256, "508c5e8c327c14e2e1a72ba34eeb452f37458b209ed63a294d999b4c86675982"},
    {"sha1", "SHA1", 20, hf::sha1, md::sha1, "a9993e364706816aba3e25717850c26c9cd0d89d"},
    {"sha224", "SHA2-224", 28, hf::sha224, md::sha224, "23097d223405d8228642a477bda255b32aadbce4bda0b3f7e36c9da7"},
    {"sha256", "SHA2-256", 32, hf::sha256, md::sha256, "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad"},
    {"sha384", "SHA2-384", 48, hf::sha384, md::sha384, "cb00753f45a35e8bb5a03d699ac65007272c32ab0eded1631a8b605a43ff5bed8086072ba1e7cc2358baeca134c825a7"},
    {"sha512", "SHA2-512", 64, hf::sha512, md::sha512, "ddaf35a193617abacc417349ae20413112e6fa4e89a97ea20a9eeee64b55d39a2192992a274fc1a836ba3c23a3feebbd454d4423643ce80e2a9ac94fa54ca49f"},
    {"sha3_224", "SHA3-224", 28, hf::sha3_224, md::sha3_224, "e642824c3f8cf24ad09234ee7d3c766fc9a3a5168d0c94ad73b46fdf"},
    {"sha3_256", "SHA3-256", 32, hf::sha3_256, md::sha3_256, "3a985da74fe225b2045c172d6bd390bd855f086e3e9d525b46bfe24511431532"},
    {"sha3_384", "SHA3-384", 48, hf::sha3_384, md::sha3_384, "ec01498288516fc926459f58e2c6ad8df9b473cb0fc08c2596da7cf0e49be4b298d88cea927ac7f539f1edf228376d25"},
    {"sha3_512", "SHA3-512", 64, hf::sha3_512, md::sha3_512, "b751850b1a57168a5693cd924b6b096e08f621827444f70d884f5d0240d2712e10e116e9192af3c91a7ec57647e3934057340b4cf408d5a56592f8274eec53f0"},
    {"shake128", "SHAKE-128", 16, hf::shake128, md::shake128, "5881092dd818bf5cf8a3ddb793fbcba7"},
    {"shake256", "SHAKE-256", 32, hf::shake256, md::shake256, "483366601360a8771c6863080cc4114d8db44530f8f1e1ee4f94ea37e78b5739"},
    {"ripemd160", "RIPEMD160", 20, hf::ripemd160, md::ripemd160, "8eb208f7e05d987a9b044a8e98c6b087f15a0bfc"},
    {"whirlpool", "WHIRLPOOL", 64, hf::whirlpool, md::whirlpool, nullptr},
    {"md2", "MD2", 16, std::nullopt, md::md2, nullptr},
    {"md5_sha1", "MD5-SHA1", 36, std::nullopt, md::md5_sha1, "900150983cd24fb0d6963f7d28e17f72a9993e364706816aba3e25717850c26c9cd0d89d"},
    {"sha512_224", "SHA2-512/224", 28, std::nullopt, md::sha512_224, "4634270f707b6a54daae7530460842e20e37ed265ceee9a43e8924aa"},
    {"sha512_256", "SHA2-512/256", 32, std::nullopt, md::sha512_256, "53048e2681941ef99b2e29b76b4c7dabe4c2d0c634fc6d46e0e2f13107e7af23"},
    {"mdc2", "MDC2", 16, std::nullopt, md::mdc2, nullptr},
    {"sm3", "SM3", 32, std::nullopt, md::sm3, "66c7f0f462eeedd9d1f2d46bdc10e4e24167c4875cf2f7a2297da02b8f4ba8e0"},
};

static std::string ref(const Alg& a, std::span<const std::byte> data)
{
    static std::map<std::string, EVP_MD*> cache;
    static std::mutex m;
    EVP_MD* e;
    { std::lock_guard g(m); auto [it, fresh] = cache.emplace(a.std_name, nullptr); if (fresh) it->second = EVP_MD_fetch(nullptr, a.std_name, nullptr); e = it->second; }
    if (!e) return {};
    unsigned char out[EVP_MAX_MD_SIZE]; unsigned n = 0;
    static const std::byte none{};
    if (EVP_Digest(data.empty() ? &none : data.data(), data.size(), out, &n, e, nullptr) != 1) return {};
    return vh::hexs(std::as_bytes(std::span(out, n)));
}
// data in a heap block of exactly its size, so that reads outside it are caught
struct Exact {
    std::unique_ptr<std::byte[]> p; std::size_t n;
    explicit Exact(std::span<const std::byte> s) : p(new std::byte[s.size()]), n(s.size()) { if (n) std::memcpy(p.get(), s.data(), n); }
    std::span<const std::byte> span() const { return {p.get(), n}; }
};
template <class H> static void feed(vh::Rng& r, H& h, std::span<const std::byte> data, std::string& how)
{
    std::size_t i = 0; unsigned style = r.below(5);
    how = vh::cat("style ", style, ": ");
    while (i < data.size() || r.chance(1, 4)) {
        std::size_t left = data.size() - i, k;
        switch (style) {
        case 0: k = left; break;
        case 1: k = std::min<std::size_t>(left, 1 + r.below(3)); break;
        case 2: k = std::min<std::size_t>(left, 64); break;
        case 3: k = r.below(left + 1); break;
        default: { static const std::size_t s[] = {0, 1, 63, 64, 65, 127, 128, 129, 135, 136, 137, 4096}; k = std::min(left, s[r.below(std::size(s))]); }
        }
        if (how.size() < 200) how += std::to_string(k) + ",";
        Exact e(data.subspan(i, k));
        if constexpr (requires { h.update(std::string_view{}); }) {
            if (r.chance(1, 3)) h.update(std::string_view((const char*)e.p.get(), e.n));
            else if (k == 0 && r.chance(1, 2)) h.update(std::span<const std::byte>{});
            else h.update(e.span());
        } else h.update(e.span());
        i += k;
        if (i == data.size() && r.chance(1, 2)) break;
    }
}
static std::string fin(auto& h, std::size_t n, std::size_t slack, vh::Ctx& c, const Alg& a)
{
    std::unique_ptr<std::byte[]> out(new std::byte[n + slack]);
    std::memset(out.get(), 0xA5, n + slack);
    h.finalize_to(std::span<std::byte>(out.get(), n + slack));
    for (std::size_t i = 0; i < slack; ++i)
        c.check(out[n + i] == std::byte(0xA5), std::string("digest-writes-past-digest:") + a.name, a.name);
    return vh::hexs(std::span<const std::byte>(out.get(), n));
}

template <hf F> static std::string one_shot(std::span<const std::byte> d)
{
    auto h = dt::make_hash<F>(d);
    return vh::hexs(std::span<const std::byte>(h.data(), h.size()));
}
static std::string one_shot(hf f, std::span<const std::byte> d)
{
    switch (f) {
#define X(n) case hf::n: return one_shot<hf::n>(d);
    X(md4) X(md5) X(blake2b_512) X(blake2s_256) X(sha1) X(sha224) X(sha256) X(sha384) X(sha512) X(sha3_224) X(sha3_256) X(sha3_384)
    X(sha3_512) X(shake128) X(shake256) X(ripemd160) X(whirlpool)
#undef X
    default: return "?";
    }
}

static void sequence(vh::Ctx& c, const Alg& a, std::uint64_t seed)
{
    vh::Rng r(seed);
    bool raw = !a.h || r.chance(1, 3);
    c.at(vh::cat("digest:", a.name), vh::cat("seed ", seed));
    std::unique_ptr<dt::single_buffer_hasher> h; std::unique_ptr<openssl::message_digest> m;
    if (raw) m = std::make_unique<openssl::message_digest>(a.m);
    else h = r.chance(1, 2) ? dt::make_hasher(*a.h) : std::make_unique<dt::openssl_hasher>(*a.h);
    int messages = 1 + r.below(4);
    for (int k = 0; k < messages; ++k) {
        std::size_t n = r.chance(1, 40) ? r.below(300000) : r.chance(1, 4) ? 64 * r.below(12) + r.below(3) : r.below(600);
        auto data = r.data(n); std::string how, got;
        auto want = ref(a, data);
        if (raw) {
            if (r.chance(1, 4)) { std::string junk; feed(r, *m, r.data(r.below(200)), junk); m->reset(); }   // discarded
            feed(r, *m, data, how);
            got = fin(*m, a.size, 0, c, a); m->reset();
        } else { feed(r, *h, data, how); got = fin(*h, a.size, 0, c, a); }
        c.eval(); c.count(raw ? "raw-digests" : "hasher-digests"); c.distinct(vh::hash64(got, vh::hash64(a.name)));
        if (k) c.count("reuses");
        c.check(got == want, vh::cat("digest-wrong:", a.name), [&] { return vh::cat(a.name, " message ", k, " of the same object, ", n, " bytes fed as ", how, " -> ", got, " expected ", want, " data ", vh::hexs(data).substr(0, 400)); });
        if (k == 0) c.sample(vh::cat(a.name, " ", n, " bytes ", how, " -> ", got));
        if (a.h && r.chance(1, 4)) {
            Exact e(data);
            auto g = one_shot(*a.h, e.span());
            c.count("one-shot");
            c.check(g == want, vh::cat("make_hash-wrong:", a.name), [&] { return vh::cat(a.name, " ", n, " bytes -> ", g, " expected ", want); });
        }
    }
}

int main(int argc, char** argv)
{
    vh::Ctx c(argc, argv);
    std::vector<const Alg*> live;
    for (auto& a : algs) {
        c.at(vh::cat("construct:", a.name), a.name);
        auto why = vh::Ctx::throws([&] { openssl::message_digest m(a.m); });
        bool can = ref(a, {}).size() > 0;
        c.eval();
        // an algorithm the crypto library offers is offered by the wrapper; one it does not offer is refused with an exception
        c.check(!why == can, vh::cat("construct:", a.name), [&] { return vh::cat(a.name, can ? " refused: " : " accepted although unavailable ", why.value_or("")); });
        if (a.h) {
            auto why2 = vh::Ctx::throws([&] { auto h = dt::make_hasher(*a.h); });
            c.check(!why2 == can, vh::cat("make_hasher:", a.name), [&] { return vh::cat(a.name, why2.value_or(" accepted")); });
            c.check(dt::hasher_supported_algorithms().count(*a.h) == 1, "supported-list", a.name);
            c.check(dt::to_string(*a.h) == a.name && dt::make_hash_function(a.name) == a.h && dt::is_hash_function_name(a.name), "function-name", a.name);
        }
        if (can && !why) live.push_back(&a);
        c.count("algorithms-available", can);
        // known answers
        if (can && a.abc) {
            openssl::message_digest m(a.m); std::string_view s = "abc";
            m.update(std::as_bytes(std::span(s)));
            auto g = fin(m, a.size, 0, c, a);
            c.check(g == a.abc, vh::cat("known-answer:", a.name), [&] { return vh::cat(a.name, "(\"abc\") = ", g); });
        }
        // a failing construction must not leak
        if (!can) {
            auto before = ALLOCATED();
            for (int i = 0; i < 4000; ++i) {
                if (i == 1000) before = ALLOCATED();
                vh::Ctx::throws([&] { openssl::message_digest m(a.m); });
            }
            auto grown = (std::int64_t)(ALLOCATED() - before);
            c.check(grown < 3000 * 16, "construct-leak", [&] { return vh::cat(a.name, ": ", grown, " bytes leaked by 3000 failed constructions"); });
            c.count("failed-constructions", 4000);
        }
    }
    c.check(vh::Ctx::throws([] { dt::make_hasher(hf::none); }).has_value(), "none-accepted", "");
    c.check(vh::Ctx::throws([] { dt::make_hasher(hf::md2); }).has_value(), "md2-accepted", "");
    // copies, if the type offers any, are independent
    [&]<class D>(std::type_identity<D>) {
        if constexpr (std::is_copy_constructible_v<D>) {
            c.at("digest-copy", "copy");
            for (auto* a : live) {
                D x(a->m); std::string_view s = "ab", t = "c", u = "z";
                x.update(std::as_bytes(std::span(s)));
                D y = x; y.update(std::as_bytes(std::span(u))); x.update(std::as_bytes(std::span(t)));
                c.check(!a->abc || fin(x, a->size, 0, c, *a) == a->abc, "digest-copy", a->name);
            }
        }
    }(std::type_identity<openssl::message_digest>{});
    // every length up to a few blocks, in one piece and byte by byte
    for (auto* a : live) for (std::size_t n = 0; n < 300; ++n) {
        if (!c.mine(n)) continue;
        auto data = c.rng.data(n);
        c.at(vh::cat("digest:", a->name), vh::cat("length ", n));
        openssl::message_digest m(a->m);
        for (auto b : data) m.update(std::span(&b, 1));
        auto g = fin(m, a->size, n % 7 ? 0 : 16, c, *a), w = ref(*a, data);
        c.eval(); c.count("lengths"); c.distinct(vh::hash64(g, vh::hash64(a->name)));
        c.check(g == w, vh::cat("digest-wrong:", a->name), [&] { return vh::cat(a->name, " ", n, " bytes one by one -> ", g); });
    }
    for (std::size_t i = 0, k = c.n(6000, 200000); i < k; ++i) sequence(c, *live[i % live.size()], c.rng());
    // objects used side by side on several threads do not influence each other
    for (std::size_t round = 0, k = c.n(8, 200); round < k; ++round) {
        c.at("digest-threads", "");
        std::vector<std::thread> ts; std::vector<std::uint64_t> seeds;
        for (int t = 0; t < 6; ++t) seeds.push_back(c.rng());
        for (int t = 0; t < 6; ++t) ts.emplace_back([&, t] {
            vh::Rng r(seeds[t]);
            auto& a = *live[r.below(live.size())]; auto& b = *live[r.below(live.size())];
            openssl::message_digest x(a.m), y(b.m);
            auto dx = r.data(20000), dy = r.data(20000);
            for (std::size_t i = 0; i < dx.size(); i += 500) { x.update(std::span(dx).subspan(i, 500)); y.update(std::span(dy).subspan(i, 500)); }
            auto gx = fin(x, a.size, 0, c, a), gy = fin(y, b.size, 0, c, b);
            c.check(gx == ref(a, dx) && gy == ref(b, dy), "digest-interference", [&] { return vh::cat(a.name, " ", b.name); });
            c.count("side-by-side"); c.eval();
        });
        for (auto& t : ts) t.join();
    }
    // more than 4 GiB in one update
    if (c.shard == 0 && c.mode != "nohuge") {
        std::size_t n = (std::size_t(4) << 30) + 4097;
        void* p = ::mmap(nullptr, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p != MAP_FAILED) {
            for (const char* name : {"sha1", "sha256"}) {
                auto& a = *std::find_if(std::begin(algs), std::end(algs), [&](auto& x) { return std::string_view(x.name) == name; });
                if (name[3] == '2' && !c.thorough) continue;
                c.at(vh::cat("digest-huge:", name), "4 GiB + 4097 zero bytes in one update");
                auto h = dt::make_hasher(*a.h);
                h->update(std::span<const std::byte>((const std::byte*)p, n));
                auto g = fin(*h, a.size, 0, c, a);
                auto w = ref(a, std::span<const std::byte>((const std::byte*)p, n));
                c.eval(); c.count("huge-updates");
                c.check(g == w, vh::cat("digest-huge:", name), [&] { return vh::cat(g, " expected ", w); });
            }
            ::munmap(p, n);
        }
    }
    return c.finish();
}
