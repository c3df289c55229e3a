// Stand-in for the parts of the fbdtemme/bencode library dottorrent uses (the library
// is not available offline). Values, views, encoder, decoder, event connector.
#pragma once
#include <algorithm>
#include <array>
#include <charconv>
#include <concepts>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <deque>
#include <filesystem>
#include <functional>
#include <istream>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <ostream>
#include <set>
#include <span>
#include <stdexcept>
#include <string>
#include <string_view>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>

namespace bencode {

enum class btype { uninitialized, integer, string, list, dict };
enum class bencode_type { uninitialized, integer, string, list, dict };

class bencode_error : public std::runtime_error { using std::runtime_error::runtime_error; };
class exception_base : public bencode_error { using bencode_error::bencode_error; };
class bad_access : public bencode_error { using bencode_error::bencode_error; };
class bad_conversion : public bencode_error { using bencode_error::bencode_error; };
class decoding_error : public bencode_error { using bencode_error::bencode_error; };
class encoding_error : public bencode_error { using bencode_error::bencode_error; };
using parsing_error = decoding_error;

template <class T> struct customization_point_type {};
template <class T> struct serializes_to : std::false_type {};

#define BENCODE_SERIALIZES_TO_LIST(...)    namespace bencode { template <> struct serializes_to<__VA_ARGS__> : std::true_type { static constexpr btype type = btype::list; }; }
#define BENCODE_SERIALIZES_TO_STRING(...)  namespace bencode { template <> struct serializes_to<__VA_ARGS__> : std::true_type { static constexpr btype type = btype::string; }; }
#define BENCODE_SERIALIZES_TO_DICT(...)    namespace bencode { template <> struct serializes_to<__VA_ARGS__> : std::true_type { static constexpr btype type = btype::dict; }; }
#define BENCODE_SERIALIZES_TO_INTEGER(...) namespace bencode { template <> struct serializes_to<__VA_ARGS__> : std::true_type { static constexpr btype type = btype::integer; }; }

template <class EC>
concept event_consumer = requires(EC& c, std::string_view s, std::int64_t i) {
    c.integer(i); c.string(s);
    c.list_begin(); c.list_item(); c.list_end();
    c.dict_begin(); c.dict_key(); c.dict_value(); c.dict_end();
};

class bvalue;
class bview;
using bvalue_list = std::vector<bvalue>;
using bvalue_dict = std::map<std::string, bvalue, std::less<>>;

template <class T> concept bvalue_like = std::same_as<std::remove_cvref_t<T>, bvalue>;
template <class T> concept bview_like = std::same_as<std::remove_cvref_t<T>, bview>;
template <class T> concept bvalue_or_bview = bvalue_like<T> || bview_like<T>;

// ---------------------------------------------------------------- bview
class bview {
public:
    using list_type = std::vector<bview>;
    using dict_type = std::map<std::string_view, bview, std::less<>>;
    struct node {
        btype type = btype::uninitialized;
        std::int64_t integer = 0;
        std::string_view string;
        list_type list;
        dict_type dict;
    };
    bview() = default;
    explicit bview(const node* n) : n_(n) {}
    btype type() const noexcept { return n_ ? n_->type : btype::uninitialized; }
    const node* raw() const noexcept { return n_; }
private:
    const node* n_ = nullptr;
};

inline bool holds_dict(const bview& v) noexcept { return v.type() == btype::dict; }
inline bool holds_list(const bview& v) noexcept { return v.type() == btype::list; }
inline bool holds_string(const bview& v) noexcept { return v.type() == btype::string; }
inline bool holds_integer(const bview& v) noexcept { return v.type() == btype::integer; }
inline const bview::dict_type& get_dict(const bview& v) { if (!holds_dict(v)) throw bad_access("bview: not a dict"); return v.raw()->dict; }
inline const bview::list_type& get_list(const bview& v) { if (!holds_list(v)) throw bad_access("bview: not a list"); return v.raw()->list; }
inline const std::string_view& get_string(const bview& v) { if (!holds_string(v)) throw bad_access("bview: not a string"); return v.raw()->string; }
inline std::int64_t get_integer(const bview& v) { if (!holds_integer(v)) throw bad_access("bview: not an integer"); return v.raw()->integer; }

class descriptor_table {
public:
    descriptor_table() : nodes_(std::make_unique<std::deque<bview::node>>()) {}
    bview get_root() const { return root_; }
    bview::node& make() { return nodes_->emplace_back(); }
    void set_root(bview r) { root_ = r; }
private:
    std::unique_ptr<std::deque<bview::node>> nodes_;
    bview root_;
};

// ---------------------------------------------------------------- bvalue
class bvalue_builder;
template <class T> void connect_impl(bvalue_builder& c, const T& v);

namespace detail {
template <class T> concept is_string_like = std::convertible_to<const T&, std::string_view> || std::same_as<T, std::string>;
template <class T> concept is_byte_range = requires(const T& t) { std::size(t); std::data(t); } &&
        std::same_as<std::remove_cv_t<typename T::value_type>, std::byte>;
template <class T> concept is_plain_range = requires(const T& t) { std::begin(t); std::end(t); typename T::value_type; };
template <class T> concept is_user = serializes_to<T>::value;
}

class bvalue {
public:
    using list_type = bvalue_list;
    using dict_type = bvalue_dict;

    bvalue() = default;
    bvalue(const bvalue&) = default;
    bvalue(bvalue&&) = default;
    bvalue& operator=(const bvalue&) = default;
    bvalue& operator=(bvalue&&) = default;

    bvalue(btype t)
    {
        switch (t) {
        case btype::integer: v_ = std::int64_t{0}; break;
        case btype::string: v_ = std::string{}; break;
        case btype::list: v_ = list_type{}; break;
        case btype::dict: v_ = dict_type{}; break;
        default: break;
        }
    }
    template <class T>
        requires (std::integral<std::remove_cvref_t<T>>)
    bvalue(T i) : v_(static_cast<std::int64_t>(i)) {}
    bvalue(const char* s) : v_(std::string(s)) {}
    bvalue(std::string s) : v_(std::move(s)) {}
    bvalue(std::string_view s) : v_(std::string(s)) {}
    bvalue(list_type l) : v_(std::move(l)) {}
    bvalue(dict_type d) : v_(std::move(d)) {}
    bvalue(const bview& v) { *this = from_view(v); }
    template <class T>
        requires (!bvalue_or_bview<T> && !std::integral<std::remove_cvref_t<T>> &&
                  !std::same_as<std::remove_cvref_t<T>, btype> &&
                  !std::same_as<std::remove_cvref_t<T>, bvalue_list> &&
                  !std::same_as<std::remove_cvref_t<T>, bvalue_dict> &&
                  !std::same_as<std::remove_cvref_t<T>, std::string> &&
                  !std::same_as<std::remove_cvref_t<T>, std::string_view> &&
                  !std::is_array_v<std::remove_cvref_t<T>> && !std::is_pointer_v<std::decay_t<T>> &&
                  (detail::is_user<std::remove_cvref_t<T>> || detail::is_byte_range<std::remove_cvref_t<T>>
                   || detail::is_plain_range<std::remove_cvref_t<T>>))
    bvalue(T&& v) { *this = from_any(v); }

    btype type() const noexcept
    {
        switch (v_.index()) {
        case 1: return btype::integer; case 2: return btype::string;
        case 3: return btype::list; case 4: return btype::dict; default: return btype::uninitialized;
        }
    }
    bvalue& operator[](std::string_view key)
    {
        if (v_.index() == 0) v_ = dict_type{};
        auto& d = std::get<4>(v_);
        if (auto it = d.find(key); it != d.end()) return it->second;
        return d.emplace(std::string(key), bvalue{}).first->second;
    }
    const bvalue& at(std::string_view key) const;
    bvalue& at(std::string_view key);
    const bvalue& at(std::size_t i) const { return std::get<3>(v_).at(i); }
    bvalue& at(std::size_t i) { return std::get<3>(v_).at(i); }
    friend bool operator==(const bvalue& a, const bvalue& b) { return a.v_ == b.v_; }
    friend auto& raw(bvalue& v) { return v.v_; }
    friend const auto& raw(const bvalue& v) { return v.v_; }

private:
    static bvalue from_view(const bview& v);
    template <class T> static bvalue from_any(const T& v);
    std::variant<std::monostate, std::int64_t, std::string, list_type, dict_type> v_;
};
inline const bvalue& bvalue::at(std::string_view key) const
{ auto& d = std::get<4>(v_); auto it = d.find(key); if (it == d.end()) throw std::out_of_range("bvalue::at"); return it->second; }
inline bvalue& bvalue::at(std::string_view key)
{ auto& d = std::get<4>(v_); auto it = d.find(key); if (it == d.end()) throw std::out_of_range("bvalue::at"); return it->second; }
using basic_bvalue = bvalue;

inline bool holds_integer(const bvalue& v) noexcept { return v.type() == btype::integer; }
inline bool holds_string(const bvalue& v) noexcept { return v.type() == btype::string; }
inline bool holds_list(const bvalue& v) noexcept { return v.type() == btype::list; }
inline bool holds_dict(const bvalue& v) noexcept { return v.type() == btype::dict; }
inline const bvalue::dict_type& get_dict(const bvalue& v) { if (!holds_dict(v)) throw bad_access("bvalue: not a dict"); return std::get<4>(raw(v)); }
inline bvalue::dict_type& get_dict(bvalue& v) { if (!holds_dict(v)) throw bad_access("bvalue: not a dict"); return std::get<4>(raw(v)); }
inline const bvalue::list_type& get_list(const bvalue& v) { if (!holds_list(v)) throw bad_access("bvalue: not a list"); return std::get<3>(raw(v)); }
inline bvalue::list_type& get_list(bvalue& v) { if (!holds_list(v)) throw bad_access("bvalue: not a list"); return std::get<3>(raw(v)); }
inline const std::string& get_string(const bvalue& v) { if (!holds_string(v)) throw bad_access("bvalue: not a string"); return std::get<2>(raw(v)); }
inline std::string& get_string(bvalue& v) { if (!holds_string(v)) throw bad_access("bvalue: not a string"); return std::get<2>(raw(v)); }
inline const std::int64_t& get_integer(const bvalue& v) { if (!holds_integer(v)) throw bad_access("bvalue: not an integer"); return std::get<1>(raw(v)); }

template <class T, bvalue_or_bview V> T get_as(const V& v)
{
    if constexpr (std::integral<T>) return static_cast<T>(get_integer(v));
    else return T(std::string_view(get_string(v)));
}

// ---------------------------------------------------------------- connect
template <event_consumer EC, class T> void connect(EC& consumer, const T& value);

template <event_consumer EC, class T>
    requires (detail::is_string_like<T> && !detail::is_user<T>)
void bencode_connect(customization_point_type<T>, EC& c, const T& v) { c.string(std::string_view(v)); }
template <event_consumer EC, class T>
    requires (std::integral<T>)
void bencode_connect(customization_point_type<T>, EC& c, const T& v) { c.integer(static_cast<std::int64_t>(v)); }
template <event_consumer EC, class T>
    requires (detail::is_byte_range<T> && !detail::is_user<T>)
void bencode_connect(customization_point_type<T>, EC& c, const T& v)
{ c.string(std::string_view(reinterpret_cast<const char*>(std::data(v)), std::size(v))); }
template <event_consumer EC, class T>
    requires (detail::is_plain_range<T> && !detail::is_byte_range<T> && !detail::is_user<T> && !detail::is_string_like<T>)
void bencode_connect(customization_point_type<T>, EC& c, const T& v)
{
    c.list_begin();
    for (const auto& e : v) { connect(c, e); c.list_item(); }
    c.list_end();
}
template <event_consumer EC, bvalue_or_bview T>
void bencode_connect(customization_point_type<T>, EC& c, const T& v)
{
    switch (v.type()) {
    case btype::integer: c.integer(get_integer(v)); break;
    case btype::string: c.string(std::string_view(get_string(v))); break;
    case btype::list:
        c.list_begin();
        for (const auto& e : get_list(v)) { connect(c, e); c.list_item(); }
        c.list_end();
        break;
    case btype::dict:
        c.dict_begin();
        for (const auto& [k, e] : get_dict(v)) { c.string(std::string_view(k)); c.dict_key(); connect(c, e); c.dict_value(); }
        c.dict_end();
        break;
    default: throw encoding_error("uninitialized value");
    }
}
template <event_consumer EC, class T> void connect(EC& consumer, const T& value)
{ bencode_connect(customization_point_type<T>{}, consumer, value); }

class bvalue_builder {
public:
    void integer(std::int64_t i) { stack_.emplace_back(i); }
    void string(std::string_view s) { stack_.emplace_back(s); }
    void list_begin() { stack_.emplace_back(btype::list); }
    void list_item() { auto v = std::move(stack_.back()); stack_.pop_back(); get_list(stack_.back()).push_back(std::move(v)); }
    void list_end() {}
    void dict_begin() { stack_.emplace_back(btype::dict); }
    void dict_key() {}
    void dict_value()
    {
        auto v = std::move(stack_.back()); stack_.pop_back();
        auto k = std::move(stack_.back()); stack_.pop_back();
        get_dict(stack_.back()).insert_or_assign(get_string(k), std::move(v));
    }
    void dict_end() {}
    bvalue take() { if (stack_.size() != 1) throw encoding_error("unbalanced events"); return std::move(stack_.back()); }
private:
    std::vector<bvalue> stack_;
};

template <class T> bvalue bvalue::from_any(const T& v) { bvalue_builder b; connect(b, v); return b.take(); }
inline bvalue bvalue::from_view(const bview& v)
{
    switch (v.type()) {
    case btype::integer: return bvalue(get_integer(v));
    case btype::string: return bvalue(get_string(v));
    case btype::list: { list_type l; for (const auto& e : get_list(v)) l.push_back(from_view(e)); return bvalue(std::move(l)); }
    case btype::dict: { dict_type d; for (const auto& [k, e] : get_dict(v)) d.emplace(std::string(k), from_view(e)); return bvalue(std::move(d)); }
    default: return bvalue{};
    }
}

// ---------------------------------------------------------------- encode
template <class OutputIt> class encode_to_consumer {
public:
    explicit encode_to_consumer(OutputIt out) : out_(out) {}
    void put(std::string_view s) { for (char c : s) *out_++ = c; }
    void integer(std::int64_t i) { put("i"); put(std::to_string(i)); put("e"); }
    void string(std::string_view s) { put(std::to_string(s.size())); put(":"); put(s); }
    void list_begin() { put("l"); }
    void list_item() {}
    void list_end() { put("e"); }
    void dict_begin() { put("d"); }
    void dict_key() {}
    void dict_value() {}
    void dict_end() { put("e"); }
    OutputIt out() { return out_; }
private:
    OutputIt out_;
};
template <class OutputIt, class T>
    requires (!std::derived_from<OutputIt, std::ostream>)
OutputIt encode_to(OutputIt out, const T& v) { encode_to_consumer<OutputIt> c(out); connect(c, v); return c.out(); }
template <class T> std::ostream& encode_to(std::ostream& os, const T& v) { encode_to(std::ostreambuf_iterator<char>(os), v); return os; }
template <class T> std::string encode(const T& v) { std::string s; encode_to(std::back_inserter(s), v); return s; }

// ---------------------------------------------------------------- decode
namespace detail {
inline constexpr int recursion_limit = 1024;
struct reader {
    std::string_view s; std::size_t pos = 0;
    char peek() const { if (pos >= s.size()) throw decoding_error("unexpected end of input"); return s[pos]; }
    std::int64_t read_integer()
    {
        ++pos;
        auto e = s.find('e', pos);
        if (e == std::string_view::npos) throw decoding_error("unterminated integer");
        auto t = s.substr(pos, e - pos);
        auto d = t;
        if (!d.empty() && d[0] == '-') d.remove_prefix(1);
        if (d.empty() || (d.size() > 1 && d[0] == '0') || (t[0] == '-' && d == "0")) throw decoding_error("invalid integer");
        std::int64_t v{};
        auto [p, ec] = std::from_chars(t.data(), t.data() + t.size(), v);
        if (ec != std::errc{} || p != t.data() + t.size()) throw decoding_error("invalid integer");
        pos = e + 1;
        return v;
    }
    std::string_view read_string()
    {
        auto e = s.find(':', pos);
        if (e == std::string_view::npos) throw decoding_error("invalid string length");
        auto t = s.substr(pos, e - pos);
        std::uint64_t n{};
        auto [p, ec] = std::from_chars(t.data(), t.data() + t.size(), n);
        if (t.empty() || ec != std::errc{} || p != t.data() + t.size() || (t.size() > 1 && t[0] == '0')) throw decoding_error("invalid string length");
        if (n > s.size() - (e + 1)) throw decoding_error("string past end of input");
        pos = e + 1 + n;
        return s.substr(e + 1, n);
    }
};
inline bview decode_node(reader& r, descriptor_table& t, int depth)
{
    if (depth > recursion_limit) throw decoding_error("nesting too deep");
    auto& n = t.make();
    char c = r.peek();
    if (c == 'i') { n.type = btype::integer; n.integer = r.read_integer(); }
    else if (c >= '0' && c <= '9') { n.type = btype::string; n.string = r.read_string(); }
    else if (c == 'l') {
        ++r.pos; n.type = btype::list;
        while (r.peek() != 'e') n.list.push_back(decode_node(r, t, depth + 1));
        ++r.pos;
    }
    else if (c == 'd') {
        ++r.pos; n.type = btype::dict;
        while (r.peek() != 'e') {
            if (r.peek() < '0' || r.peek() > '9') throw decoding_error("dict key must be a string");
            auto k = r.read_string();
            if (r.peek() == 'e') throw decoding_error("missing dict value");
            n.dict.insert_or_assign(k, decode_node(r, t, depth + 1));
        }
        ++r.pos;
    }
    else throw decoding_error("invalid token");
    return bview(&n);
}
}
inline descriptor_table decode_view(std::string_view s)
{
    descriptor_table t; detail::reader r{s};
    auto root = detail::decode_node(r, t, 0);
    if (r.pos != s.size()) throw decoding_error("trailing data");
    t.set_root(root);
    return t;
}
inline bvalue decode_value(std::string_view s) { auto t = decode_view(s); return bvalue(t.get_root()); }
inline bvalue decode_value(std::istream& is)
{
    std::string s(std::istreambuf_iterator<char>(is), {});
    return decode_value(std::string_view(s));
}

// ---------------------------------------------------------------- json
namespace events {
class encode_json_to {
public:
    explicit encode_json_to(std::ostream& os) : os_(&os) {}
    void integer(std::int64_t i) { sep(); *os_ << i; }
    void string(std::string_view s)
    {
        sep(); *os_ << '"';
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') *os_ << '\\' << char(c);
            else if (c < 0x20) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); *os_ << b; }
            else *os_ << char(c);
        }
        *os_ << '"';
    }
    void list_begin() { sep(); *os_ << '['; comma_ = false; }
    void list_item() { comma_ = true; }
    void list_end() { *os_ << ']'; comma_ = false; }
    void dict_begin() { sep(); *os_ << '{'; comma_ = false; }
    void dict_key() { *os_ << ':'; comma_ = false; }
    void dict_value() { comma_ = true; }
    void dict_end() { *os_ << '}'; comma_ = false; }
private:
    void sep() { if (comma_) { *os_ << ','; comma_ = false; } }
    std::ostream* os_;
    bool comma_ = false;
};
}

} // namespace bencode
