// Minimal stand-in for expected-lite (not available offline).
#pragma once
#include <exception>
#include <utility>
#include <variant>
#include <stdexcept>
namespace nonstd {
template <class E> class unexpected_type {
public:
    explicit constexpr unexpected_type(E e) : e_(std::move(e)) {}
    constexpr const E& value() const& { return e_; }
    constexpr E& value() & { return e_; }
private:
    E e_;
};
template <class E> constexpr unexpected_type<std::decay_t<E>> make_unexpected(E&& e)
{ return unexpected_type<std::decay_t<E>>(std::forward<E>(e)); }
template <class E> struct bad_expected_access : std::exception {
    explicit bad_expected_access(E e) : error(std::move(e)) {}
    const char* what() const noexcept override { return "bad_expected_access"; }
    E error;
};
template <class T, class E> class expected {
public:
    using value_type = T; using error_type = E;
    constexpr expected(T v) : v_(std::in_place_index<0>, std::move(v)) {}
    template <class G> constexpr expected(unexpected_type<G> u) : v_(std::in_place_index<1>, E(u.value())) {}
    constexpr bool has_value() const noexcept { return v_.index() == 0; }
    constexpr explicit operator bool() const noexcept { return has_value(); }
    constexpr const T& value() const& { if (!has_value()) throw bad_expected_access<E>(std::get<1>(v_)); return std::get<0>(v_); }
    constexpr T& value() & { if (!has_value()) throw bad_expected_access<E>(std::get<1>(v_)); return std::get<0>(v_); }
    constexpr const T& operator*() const& { return std::get<0>(v_); }
    constexpr T& operator*() & { return std::get<0>(v_); }
    constexpr const T* operator->() const { return &std::get<0>(v_); }
    constexpr const E& error() const { return std::get<1>(v_); }
    template <class U> constexpr T value_or(U&& u) const& { return has_value() ? std::get<0>(v_) : static_cast<T>(std::forward<U>(u)); }
private:
    std::variant<T, E> v_;
};
}
