// Independent references for torrent hashing, and scratch content trees.
#pragma once
#include "vh.hpp"
#include <openssl/evp.h>
#include <dottorrent/file_storage.hpp>
namespace ref {
namespace fs = std::filesystem;
using vh::bytes;
inline bytes digest(const EVP_MD* md, std::span<const std::byte> d)
{
    bytes r(EVP_MD_size(md)); unsigned n = 0;
    EVP_Digest(d.empty() ? (const void*)"" : (const void*)d.data(), d.size(), (unsigned char*)r.data(), &n, md, nullptr);
    return r;
}
inline bytes sha1(std::span<const std::byte> d) { return digest(EVP_sha1(), d); }
inline bytes sha256(std::span<const std::byte> d) { return digest(EVP_sha256(), d); }
inline std::string str(const bytes& b) { return std::string((const char*)b.data(), b.size()); }
template <class H> std::string hstr(const H& h) { return std::string((const char*)h.data(), h.size()); }

constexpr std::size_t block = 16384;
// BEP 52
inline bytes join(const bytes& a, const bytes& b) { bytes c = a; c.insert(c.end(), b.begin(), b.end()); return sha256(c); }
inline bytes fold(std::vector<bytes> l, bytes pad)
{
    if (l.empty()) return pad;
    while (l.size() > 1) {
        if (l.size() % 2) l.push_back(pad);
        std::vector<bytes> up;
        for (std::size_t i = 0; i < l.size(); i += 2) up.push_back(join(l[i], l[i + 1]));
        pad = join(pad, pad); l = std::move(up);
    }
    return l[0];
}
struct V2 { bytes root; std::vector<bytes> layer; };
inline V2 v2(std::span<const std::byte> d, std::size_t piece_size)
{
    V2 r; std::vector<bytes> leaves; bytes zero(32);
    for (std::size_t o = 0; o < d.size(); o += block) leaves.push_back(sha256(d.subspan(o, std::min(block, d.size() - o))));
    if (d.size() <= piece_size) { r.root = fold(leaves, zero); return r; }
    std::size_t per = piece_size / block;
    for (std::size_t i = 0; i < leaves.size(); i += per) {
        std::vector<bytes> s(leaves.begin() + i, leaves.begin() + std::min(leaves.size(), i + per));
        s.resize(per, zero);
        r.layer.push_back(fold(s, zero));
    }
    r.root = fold(r.layer, fold(std::vector<bytes>(per, zero), zero));
    return r;
}
inline std::vector<bytes> v1(std::span<const std::byte> d, std::size_t piece_size)
{
    std::vector<bytes> r;
    for (std::size_t o = 0; o < d.size(); o += piece_size) r.push_back(sha1(d.subspan(o, std::min(piece_size, d.size() - o))));
    return r;
}

struct File { std::string path; bytes data; bool padding = false; std::string link; int attr = -1; };
struct Content {
    std::size_t piece_size = 16384;
    std::vector<File> files;
    std::string describe() const
    {
        auto s = vh::cat("piece size ", piece_size, " files");
        for (auto& f : files) s += vh::cat(" ", f.path, ":", f.data.size(), f.padding ? "p" : "", f.link.empty() ? "" : "l");
        return s;
    }
    bytes stream() const { bytes r; for (auto& f : files) r.insert(r.end(), f.data.begin(), f.data.end()); return r; }
    std::size_t total() const { std::size_t t = 0; for (auto& f : files) t += f.data.size(); return t; }
};
inline void write_file(const fs::path& p, std::span<const std::byte> d)
{
    fs::create_directories(p.parent_path());
    std::ofstream o(p, std::ios::binary | std::ios::trunc); o.write((const char*)d.data(), d.size());
    if (!o) throw std::runtime_error("scratch write failed");
}
inline bytes read_file(const fs::path& p)
{
    std::ifstream i(p, std::ios::binary); std::string s((std::istreambuf_iterator<char>(i)), {});
    return bytes((const std::byte*)s.data(), (const std::byte*)s.data() + s.size());
}
inline std::size_t some_size(vh::Rng& r, std::size_t piece, std::size_t max)
{
    std::size_t s;
    switch (r.below(9)) {
    case 0: s = 0; break;
    case 1: s = 1 + r.below(40); break;
    case 2: s = piece * r.below(6); break;
    case 3: s = piece * (1 + r.below(5)) + r.range(-2, 2); break;
    case 4: s = block * (1 + r.below(12)) + r.range(-1, 1); break;
    case 5: s = piece / 2 + r.range(-1, 1); break;
    default: s = r.below(6 * piece); break;
    }
    return std::min(s, max);
}
struct Gen { bool links = false, padding = false; int max_files = 6; std::size_t max_size = 400000; bool big = false; std::size_t piece_size = 0; };
inline Content make(vh::Rng& r, const Gen& g)
{
    Content c; static const std::size_t ps[] = {16384, 16384, 32768, 32768, 65536, 131072};
    c.piece_size = r.chance(1, 50) ? std::size_t(1) << (18 + r.below(5)) : ps[r.below(6)];
    if (g.piece_size) c.piece_size = g.piece_size;
    int n = 1 + r.below(g.max_files); auto max_size = g.max_size;
    if (c.piece_size > 131072 && r.chance(1, 2)) { n = 1 + r.below(3); max_size = 3 * c.piece_size; }
    for (int i = 0; i < n; ++i) {
        File f;
        f.path = vh::cat(r.chance(1, 3) ? "d" + std::to_string(r.below(3)) + "/" : "", r.chance(1, 4) ? "sub/" : "", r.str(1 + r.below(6), "abcxyz .-_"), i);
        if (r.chance(1, 40)) f.path = vh::cat(".pad/x", i); // an ordinary file all the same
        if (r.chance(1, 5)) f.attr = r.below(4) * 2;
        f.data = r.chance(1, 12) ? bytes(some_size(r, c.piece_size, max_size)) : r.data(some_size(r, c.piece_size, max_size));
        c.files.push_back(std::move(f));
        if (g.padding && r.chance(1, 5)) { File p; std::size_t s = some_size(r, c.piece_size, 3 * c.piece_size); p.padding = true; p.data = bytes(s); p.path = vh::cat(r.chance(1, 4) ? "pad" : ".pad/", s, "-", i); c.files.push_back(p); }
        if (g.links && r.chance(1, 6)) { File l; l.path = vh::cat("link", i); l.link = r.chance(1, 4) ? "no such file" : r.chance(1, 4) ? "" : c.files[r.below(c.files.size())].path; if (l.link.empty()) l.link = "."; if (!c.files.back().padding) c.files.push_back(l); }
    }
    if (g.big && r.chance(1, 4)) c.files[r.below(c.files.size())].data = r.data((1 << 20) * (1 + r.below(3)) + r.range(-1, 1) * (std::int64_t)r.below(40000));
    switch (r.below(14)) {
    case 0: case 1: { // the same bytes in every piece of the stream: left-over data goes unnoticed by nobody
        auto p = r.data(c.piece_size); std::size_t o = 0;
        for (auto& f : c.files) if (f.link.empty()) for (auto& b : f.data) { b = p[o % p.size()]; ++o; }
        break; }
    case 2: { // the same, counted from the start of each file
        auto p = r.data(c.piece_size);
        for (auto& f : c.files) for (std::size_t o = 0; o < f.data.size(); ++o) f.data[o] = p[o % p.size()];
        break; }
    case 3: for (auto& f : c.files) if (r.chance(1, 2)) { f.data = c.files[r.below(c.files.size())].data; if (r.chance(1, 4) && !f.data.empty()) f.data.back() ^= std::byte(1); } break;
    case 4: for (auto& f : c.files) if (auto n = f.data.size()) std::fill(f.data.begin() + r.below(n), f.data.end(), std::byte(0)); break;
    case 5: for (auto& f : c.files) if (auto n = f.data.size()) std::fill(f.data.begin(), f.data.begin() + r.below(n), std::byte(0)); break;
    default: break;
    }
    for (auto& f : c.files) { if (!f.link.empty()) f.data.clear(); else if (f.padding) std::fill(f.data.begin(), f.data.end(), std::byte(0)); }
    return c;
}
inline void materialise(const Content& c, const fs::path& root)
{
    fs::create_directories(root);
    for (auto& f : c.files) {
        if (f.padding) continue;
        if (!f.link.empty()) { fs::create_directories((root / f.path).parent_path()); fs::create_symlink(root / f.link, root / f.path); }
        else write_file(root / f.path, f.data);
    }
}
inline void fill(dottorrent::file_storage& st, const Content& c, const fs::path& root, bool set_piece_size = true)
{
    namespace dt = dottorrent;
    switch (c.files.size() % 7) { // the root directory in several spellings
    case 2: st.set_root_directory(root / ""); break;
    case 3: st.set_root_directory(root / "." / ".." / root.filename()); break;
    case 4: st.set_root_directory(fs::relative(root)); break;
    default: st.set_root_directory(root); break;
    }
    for (auto& f : c.files) {
        if (f.padding) st.add_file(dt::file_entry(f.path, f.data.size(), dt::file_attributes::padding_file));
        else if (!f.link.empty()) st.add_file(dt::file_entry(f.path, 0, dt::file_attributes::symlink, fs::path(f.link)));
        else st.add_file(f.attr < 0 ? dt::file_entry(f.path, f.data.size()) : dt::file_entry(f.path, f.data.size(), (dt::file_attributes)f.attr));
    }
    if (set_piece_size) st.set_piece_size(c.piece_size);
}
} // namespace ref
