// Percent encoding: encoder and decoder against an independent RFC 3986 reference.
#include "vh.hpp"
#include <dottorrent/percent_encoding.hpp>
#include <list>
namespace d = dottorrent::detail;

static bool unres(unsigned char ch)
{ return (ch >= '0' && ch <= '9') || (ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z') || ch == '-' || ch == '.' || ch == '_' || ch == '~'; }
static std::string ref_encode(std::string_view s)
{
    std::string r; char t[4];
    for (unsigned char ch : s) { if (unres(ch)) r.push_back((char)ch); else { std::snprintf(t, 4, "%%%02X", ch); r += t; } }
    return r;
}
static int dig(unsigned char ch) { return ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'f' ? ch - 'a' + 10 : ch >= 'A' && ch <= 'F' ? ch - 'A' + 10 : -1; }
// decoded text, and whether the input was well formed (otherwise: the part before the bad escape)
static std::pair<std::string, bool> ref_decode(std::string_view s)
{
    std::string r;
    for (std::size_t i = 0; i < s.size(); ++i) {
        if (s[i] != '%') { r.push_back(s[i]); continue; }
        if (i + 2 >= s.size()) return {r, false};
        int a = dig((unsigned char)s[i + 1]), b = dig((unsigned char)s[i + 2]);
        if (a < 0 || b < 0) return {r, false};
        r.push_back((char)(a * 16 + b)); i += 2;
    }
    return {r, true};
}
struct Exact {
    std::unique_ptr<char[]> p; std::size_t n;
    explicit Exact(std::string_view s) : p(new char[s.size()]), n(s.size()) { std::memcpy(p.get(), s.data(), n); }
    std::string_view view() const { return {p.get(), n}; }
};

static void enc(vh::Ctx& c, std::string_view s)
{
    Exact e(s);
    auto w = ref_encode(s);
    c.at("percent-encode", vh::show(s));
    auto g = d::percent_encode(e.view());
    c.eval(); c.count("encodes"); c.distinct(s);
    c.check(g == w, "percent-encode-wrong", [&] { return vh::cat(vh::show(s), " -> ", vh::show(g)); });
    std::list<char> in(s.begin(), s.end()); std::string o2;
    d::percent_encode(in.begin(), in.end(), std::back_inserter(o2));
    c.check(o2 == w, "percent-encode-iterator-wrong", [&] { return vh::cat(vh::show(s), " -> ", vh::show(o2)); });
    std::string buf(w.size() + 1, '!');
    d::percent_encode(s.begin(), s.end(), buf.data());
    c.check(std::string_view(buf).substr(0, w.size()) == w && buf.back() == '!', "percent-encode-pointer-wrong", [&] { return vh::cat(vh::show(s), " -> ", vh::show(buf)); });
    c.at("percent-roundtrip", vh::show(s));
    auto back = d::percent_decode(g);
    c.check(back == s, "percent-roundtrip", [&] { return vh::cat(vh::show(s), " -> ", vh::show(g), " -> ", vh::show(back)); });
}
static void dec(vh::Ctx& c, std::string_view s)
{
    Exact e(s);
    auto [w, ok] = ref_decode(s);
    c.at("percent-decode", vh::show(s));
    c.eval(); c.count("decodes"); c.count(ok ? "wellformed" : "malformed"); c.distinct(s);
    std::string o;
    auto st = d::percent_decode(e.view().begin(), e.view().end(), std::back_inserter(o));
    bool good = st == d::percent_decode_status::success;
    c.check(good == ok, ok ? "percent-decode-rejects-wellformed" : "percent-decode-accepts-malformed", [&, &w = w] { return vh::cat(vh::show(s), " -> ", vh::show(o), " status ", (int)st); });
    if (ok) c.check(o == w, "percent-decode-wrong", [&, &w = w] { return vh::cat(vh::show(s), " -> ", vh::show(o)); });
    else c.check(std::string_view(w).starts_with(o), "percent-decode-invents-bytes", [&] { return vh::cat(vh::show(s), " -> ", vh::show(o)); });
    if (ok) {
        std::list<char> in(s.begin(), s.end()); std::string buf(w.size() + 1, '!');
        auto st2 = d::percent_decode(in.begin(), in.end(), buf.data());
        c.check(st2 == d::percent_decode_status::success && std::string_view(buf).substr(0, w.size()) == w && buf.back() == '!', "percent-decode-pointer-wrong", [&] { return vh::show(s); });
        auto g = d::percent_decode(e.view());
        c.check(g == w, "percent-decode-string-wrong", [&] { return vh::cat(vh::show(s), " -> ", vh::show(g)); });
    }
}
int main(int argc, char** argv)
{
    vh::Ctx c(argc, argv);
    for (int a = 0; a < 256; ++a) {
        c.at("char-class", std::to_string(a));
        char ch = (char)a;
        bool res = a && std::strchr("!#$&'()*+,/:;=?@[]", a);
        c.check(d::is_unreserved(ch) == unres((unsigned char)a) && d::is_reserved_character(ch) == res &&
                d::is_numeric(ch) == (a >= '0' && a <= '9') && d::is_alpha(ch) == ((a >= 'a' && a <= 'z') || (a >= 'A' && a <= 'Z')) &&
                d::is_alphanumerical(ch) == ((a >= '0' && a <= '9') || (a >= 'a' && a <= 'z') || (a >= 'A' && a <= 'Z')),
                "percent-char-class", [&] { return std::to_string(a); });
        c.eval();
        if (!c.mine(a)) continue;
        enc(c, std::string(1, ch)); dec(c, std::string(1, ch));
        for (int b = 0; b < 256; ++b) {
            enc(c, std::string{ch, (char)b});
            dec(c, std::string{'%', ch, (char)b});
            dec(c, std::string{ch, '%', (char)b});
            dec(c, std::string{'%', ch, (char)b, 'z'});
        }
    }
    static const std::string pieces[] = {"%", "%%", "%4", "%41", "%zz", "%4z", "%z4", "%e2%82%ac", "%E2", "a", "Z9", "-._~", " ", "+", "/", "%0", "%00", "%ff", "%FF", "%fF", "\xff", "\x80", "%\x80", "%1\xff", "%-1", "%+1", "% 1", "%0x", "%1%", "%%41"};
    for (std::size_t i = 0, k = c.n(40000, 800000); i < k; ++i) {
        std::string s;
        for (std::size_t j = c.rng.below(7); j-- > 0;) s += pieces[c.rng.below(std::size(pieces))];
        if (c.rng.chance(1, 4) && !s.empty()) s.resize(c.rng.below(s.size() + 1));
        dec(c, s);
        if (i < 4) c.sample("decode " + vh::show(s));
    }
    for (std::size_t i = 0, k = c.n(20000, 400000); i < k; ++i) {
        auto s = c.rng.raw(c.rng.chance(1, 20) ? c.rng.below(3000) : c.rng.below(24));
        enc(c, s);
        auto t = ref_encode(s);
        if (c.rng.chance(1, 2)) for (auto& ch : t) if (c.rng.chance(1, 3)) ch = (char)std::tolower((unsigned char)ch);
        if (c.rng.chance(1, 2) && !t.empty()) t[c.rng.below(t.size())] = (char)c.rng();
        if (c.rng.chance(1, 4) && !t.empty()) t.resize(c.rng.below(t.size()));
        dec(c, t);
        if (i < 2) c.sample("encode " + vh::show(s));
    }
    return c.finish();
}
