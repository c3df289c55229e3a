// Stand-in for gsl-lite (not available offline). Contract checks are fatal, as with
// gsl-lite's default configuration (gsl_CONFIG_CONTRACT_VIOLATION_TERMINATES), and
// additionally say where.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstddef>
#include <exception>
#include <stdexcept>
#include <type_traits>
#include <utility>
#include <span>
#include <string_view>

namespace gsl_shim {
[[noreturn]] inline void fail(const char* kind, const char* expr, const char* file, int line)
{
    const char* base = file;
    for (const char* p = file; *p; ++p) if (*p == '/') base = p + 1;
    std::fprintf(stderr, "CONTRACT-VIOLATION %s(%s) at %s:%d\n", kind, expr, base, line);
    std::fflush(stderr);
    std::terminate();
}
}

#ifndef Expects
#define Expects(x)      ((x) ? static_cast<void>(0) : ::gsl_shim::fail("Expects", #x, __FILE__, __LINE__))
#endif
#ifndef Ensures
#define Ensures(x)      ((x) ? static_cast<void>(0) : ::gsl_shim::fail("Ensures", #x, __FILE__, __LINE__))
#endif
#define ExpectsDebug(x) Expects(x)
#define EnsuresDebug(x) Ensures(x)
#define ExpectsAudit(x) static_cast<void>(0)
#define EnsuresAudit(x) static_cast<void>(0)
#define gsl_Expects(x)  Expects(x)
#define gsl_Ensures(x)  Ensures(x)
#define gsl_ExpectsDebug(x) Expects(x)
#define gsl_EnsuresDebug(x) Ensures(x)
#define gsl_Assert(x)   ((x) ? static_cast<void>(0) : ::gsl_shim::fail("Assert", #x, __FILE__, __LINE__))
#define gsl_FailFast()  ::gsl_shim::fail("FailFast", "", __FILE__, __LINE__)

namespace gsl_lite {
using index = std::ptrdiff_t;
using diff = std::ptrdiff_t;
using dim = std::ptrdiff_t;
struct narrowing_error : std::exception {};
template <class T, class U> constexpr T narrow_cast(U&& u) noexcept { return static_cast<T>(std::forward<U>(u)); }
template <class T, class U> constexpr T narrow(U u)
{
    T t = static_cast<T>(u);
    if (static_cast<U>(t) != u || ((t < T{}) != (u < U{}))) throw narrowing_error{};
    return t;
}
template <class T, class U> constexpr T narrow_failfast(U u) noexcept
{
    T t = static_cast<T>(u);
    if (static_cast<U>(t) != u || ((t < T{}) != (u < U{}))) std::terminate();
    return t;
}
template <class C> constexpr auto at(C& c, index i) -> decltype(c[0])
{
    if (i < 0 || static_cast<std::size_t>(i) >= c.size()) std::terminate();
    return c[static_cast<std::size_t>(i)];
}
template <class F> class final_action {
public:
    explicit final_action(F f) : f_(std::move(f)) {}
    final_action(final_action&& o) noexcept : f_(std::move(o.f_)), on_(std::exchange(o.on_, false)) {}
    final_action(const final_action&) = delete;
    ~final_action() { if (on_) f_(); }
    void dismiss() noexcept { on_ = false; }
private:
    F f_; bool on_ = true;
};
template <class F> final_action<std::decay_t<F>> finally(F&& f) { return final_action<std::decay_t<F>>(std::forward<F>(f)); }
template <class T> using owner = T;
template <class T> class not_null {
public:
    constexpr not_null(T p) : p_(std::move(p)) { Expects(p_ != nullptr); }
    constexpr const T& get() const { return p_; }
    constexpr operator T() const { return p_; }
    constexpr decltype(auto) operator*() const { return *p_; }
    constexpr const T& operator->() const { return p_; }
private:
    T p_;
};
template <class T> using span = std::span<T>;
using czstring = const char*;
using zstring = char*;
} // namespace gsl_lite
namespace gsl = gsl_lite;
