// Hexadecimal codec: both directions against an independent reference, on exact-size heap
// buffers (so that address sanitizer sees any read past the text).
#include "vh.hpp"
#include <dottorrent/hex.hpp>
#include <dottorrent/hash.hpp>
#include <dottorrent/checksum.hpp>
#include <list>
namespace dt = dottorrent;
using vh::bytes;

static std::string ref_encode(std::span<const std::byte> b)
{
    std::string r; char t[3];
    for (auto x : b) { std::snprintf(t, 3, "%02x", (unsigned)x); r += t; }
    return r;
}
static int ref_digit(unsigned char c)
{
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    return -1;
}
static std::optional<bytes> ref_decode(std::string_view s)
{
    if (s.size() % 2) return std::nullopt;
    bytes r;
    for (std::size_t i = 0; i < s.size(); i += 2) {
        int a = ref_digit((unsigned char)s[i]), b = ref_digit((unsigned char)s[i + 1]);
        if (a < 0 || b < 0) return std::nullopt;
        r.push_back(std::byte(a * 16 + b));
    }
    return r;
}

// heap copy with no slack
struct Exact {
    std::unique_ptr<char[]> p; std::size_t n;
    explicit Exact(std::string_view s) : p(new char[s.size()]), n(s.size()) { std::memcpy(p.get(), s.data(), n); }
    std::string_view view() const { return {p.get(), n}; }
};

template <std::size_t N> void fixed(vh::Ctx& c, std::string_view text)
{
    Exact e(text);
    auto want = ref_decode(text);
    if (want && want->size() != N) want.reset();
    c.at("hex-decode-fixed", vh::cat("N=", N, " text=", vh::show(text)));
    auto got = dt::from_hexadecimal_string<N>(e.view());
    c.eval(); c.count("fixed-decodes");
    if (!want) c.count("malformed-seen");
    c.check(got.has_value() == want.has_value(), want ? "hex-decode-fixed-rejects-valid" : "hex-decode-fixed-accepts-malformed",
            [&] { return vh::cat("N=", N, " text=", vh::show(text)); });
    if (got && want)
        c.check(std::equal(got->begin(), got->end(), want->begin(), want->end()), "hex-decode-fixed-wrong-bytes",
                [&] { return vh::cat("N=", N, " text=", vh::show(text), " got ", ref_encode(*got)); });
}

static void stream(vh::Ctx& c, std::string_view text)
{
    Exact e(text);
    auto want = ref_decode(text);
    c.eval(); c.count("stream-decodes");
    c.at("hex-decode-stream", vh::show(text));
    bytes out;
    auto x = vh::Ctx::throws([&] { dt::from_hexadecimal_string(std::back_inserter(out), e.view()); });
    c.check(!x == want.has_value(), want ? "hex-decode-stream-rejects-valid" : "hex-decode-stream-accepts-malformed",
            [&] { return vh::cat("text=", vh::show(text), " produced ", ref_encode(out), " ", x.value_or("")); });
    if (!x && want) c.check(out == *want, "hex-decode-stream-wrong-bytes", [&] { return vh::cat("text=", vh::show(text), " got ", ref_encode(out)); });
    if (want) { // other kinds of output iterator
        c.at("hex-decode-stream-ptr", vh::show(text));
        std::unique_ptr<std::byte[]> raw(new std::byte[want->size() + 1]);
        raw[want->size()] = std::byte{0x5a};
        std::fill_n(raw.get(), want->size(), std::byte{0xcd});
        auto x2 = vh::Ctx::throws([&] { dt::from_hexadecimal_string(raw.get(), e.view()); });
        c.check(!x2, "hex-decode-stream-rejects-valid", [&] { return "pointer output, text=" + vh::show(text); });
        if (!x2) c.check(std::equal(want->begin(), want->end(), raw.get()) && raw[want->size()] == std::byte{0x5a},
                "hex-decode-stream-pointer-wrong", [&] { return "text=" + vh::show(text); });
    }
}

template <class T> void digest(vh::Ctx& c, std::string_view text)
{
    Exact e(text);
    auto want = ref_decode(text);
    if (want && want->size() != T::size_bytes) want.reset();
    c.at("hex-digest", vh::cat(dt::to_string(T::algorithm), " ", vh::show(text)));
    std::optional<T> got;
    auto x = vh::Ctx::throws([&] { got = dt::make_hash_from_hex<T>(e.view()); });
    c.eval(); c.count("digest-decodes");
    c.check(!x == want.has_value(), "hex-digest-accepts-or-rejects-wrongly", [&] { return vh::cat(dt::to_string(T::algorithm), " text=", vh::show(text)); });
    if (got && want) {
        c.check(std::equal(want->begin(), want->end(), got->begin(), got->end()), "hex-digest-wrong-bytes", [&] { return vh::show(text); });
        c.check(got->hex_string() == ref_encode(*want), "hex-digest-string", [&] { return vh::show(text); });
    }
    // checksum from hex: same text, by name and by enumerator
    for (int k = 0; k < 2; ++k) {
        std::unique_ptr<dt::checksum> p;
        auto y = vh::Ctx::throws([&] {
            p = k ? dt::make_checksum_from_hex(T::algorithm, e.view()) : dt::make_checksum_from_hex(dt::to_string(T::algorithm), e.view());
        });
        c.eval();
        c.check(!y == want.has_value(), "hex-checksum-accepts-or-rejects-wrongly", [&] { return vh::cat(dt::to_string(T::algorithm), " text=", vh::show(text), " ", y.value_or("no exception")); });
        if (p && want) {
            c.check(std::ranges::equal(p->value(), *want), "hex-checksum-wrong-bytes", [&] { return vh::show(text); });
            c.check(p->hex_string() == ref_encode(*want), "hex-checksum-string", [&] { return vh::show(text); });
        }
    }
}

static std::string randcase(vh::Rng& r, std::string s)
{ int m = (int)r.below(3); for (auto& ch : s) if (m == 1 || (m == 2 && r.chance(1, 2))) ch = (char)std::toupper((unsigned char)ch); return s; }

static std::string mutate(vh::Rng& r, std::string s)
{
    static const std::string near = "/:@G`g\x7f\x80\xff %xX+-\t\n\0";
    switch (r.below(7)) {
    case 0: if (!s.empty()) s[r.below(s.size())] = (char)r(); break;
    case 1: if (!s.empty()) s[r.below(s.size())] = near[r.below(near.size())]; break;
    case 2: s.push_back("0123456789abcdefg"[r.below(17)]); break;
    case 3: if (!s.empty()) s.pop_back(); break;
    case 4: if (!s.empty()) s.erase(r.below(s.size()), 1); break;
    case 5: s.insert(r.below(s.size() + 1), 1, (char)r()); break;
    case 6: break;
    }
    return s;
}

template <std::size_t N> void fixed_family(vh::Ctx& c, std::size_t k)
{
    for (std::size_t i = 0; i < k; ++i) {
        auto b = c.rng.data(N);
        auto t = randcase(c.rng, ref_encode(b));
        if (c.rng.chance(2, 3)) t = mutate(c.rng, t);
        c.distinct(t);
        fixed<N>(c, t);
        if (i < 1) c.sample(vh::cat("fixed N=", N, " ", vh::show(t)));
    }
}

int main(int argc, char** argv)
{
    vh::Ctx c(argc, argv);
    // exhaustive: every pair of characters, in both decoders
    for (int a = 0; a < 256; ++a) {
        if (!c.mine(a)) continue;
        for (int b = 0; b < 256; ++b) {
            std::string t{(char)a, (char)b};
            fixed<1>(c, t); stream(c, t);
            c.distinct(t);
            c.at("hex-pair", vh::show(t));
            std::byte o{0x77};
            bool ok = dt::detail::hex_to_byte((char)a, (char)b, o);
            auto w = ref_decode(t);
            c.check(ok == w.has_value() && (!ok || o == (*w)[0]), "hex-pair-wrong", [&] { return vh::show(t); });
            std::array<std::byte, 2> d{std::byte(a), std::byte(b)};
            c.at("hex-encode", t);
            auto s = dt::to_hexadecimal_string(d);
            c.eval(); c.count("encodes");
            c.check(s == ref_encode(d), "hex-encode-wrong", [&] { return ref_encode(d) + " -> " + s; });
        }
        // every character in every position of a 4 byte text, both decoders
        for (int pos = 0; pos < 8; ++pos) {
            std::string t = "0aF19bC3"; t[pos] = (char)a;
            fixed<4>(c, t); stream(c, t);
        }
    }
    // upper case byte writer (used by percent encoding)
    for (int a = 0; a < 256; ++a) {
        char o[3] = {'?', '?', '!'}, u[3] = {'?', '?', '!'}, w[3], W[3];
        dt::detail::byte_to_hex(std::byte(a), o); dt::detail::byte_to_hex_uppercase(std::byte(a), u);
        std::snprintf(w, 3, "%02x", a); std::snprintf(W, 3, "%02X", a);
        c.check(o[0] == w[0] && o[1] == w[1] && o[2] == '!' && u[0] == W[0] && u[1] == W[1] && u[2] == '!', "hex-byte-writer", [&] { return std::to_string(a); });
        c.eval();
    }
    // encode: random lengths, round trip
    for (std::size_t i = 0, k = c.n(4000, 60000); i < k; ++i) {
        auto n = c.rng.chance(1, 8) ? c.rng.below(5000) : c.rng.below(80);
        auto b = c.rng.data(n);
        c.at("hex-encode", vh::cat("length ", n));
        std::unique_ptr<std::byte[]> ex(new std::byte[n]); std::copy(b.begin(), b.end(), ex.get());
        auto s = dt::to_hexadecimal_string(std::span<const std::byte>(ex.get(), n));
        c.eval(); c.count("encodes");
        c.check(s == ref_encode(b), "hex-encode-wrong", [&] { return "length " + std::to_string(n); });
        std::string s2; auto it = std::back_inserter(s2); dt::to_hexadecimal_string(it, std::span<const std::byte>(ex.get(), n));
        c.check(s2 == s, "hex-encode-iterator-wrong", [&] { return "length " + std::to_string(n); });
        std::string s3(2 * n + 1, '!'); dt::to_hexadecimal_string(s3.data(), std::span<const std::byte>(ex.get(), n));
        c.check(s3 == s + "!", "hex-encode-pointer-wrong", [&] { return "length " + std::to_string(n); });
        stream(c, s);
        auto t = mutate(c.rng, randcase(c.rng, s));
        c.distinct(t);
        stream(c, t);
        if (i < 3) c.sample(vh::cat("stream ", vh::show(t)));
    }
    auto k = c.n(2400, 40000);
    fixed_family<1>(c, k); fixed_family<2>(c, k); fixed_family<3>(c, k); fixed_family<5>(c, k); fixed_family<16>(c, k);
    fixed_family<20>(c, k); fixed_family<32>(c, k); fixed_family<64>(c, k);
    for (std::string t : {"", "0", "00", "g", "0g", "\xff"}) { fixed<0>(c, t); stream(c, t); }
    // digests and checksums from hex
    std::apply([&](auto... h) {
        (([&] {
            using T = decltype(h);
            for (std::size_t i = 0, m = c.n(240, 4000); i < m; ++i) {
                auto t = randcase(c.rng, ref_encode(c.rng.data(T::size_bytes)));
                if (c.rng.chance(1, 2)) t = mutate(c.rng, t);
                c.distinct(t);
                digest<T>(c, t);
            }
        }()), ...);
    }, dt::hash_types{});
    return c.finish();
}
