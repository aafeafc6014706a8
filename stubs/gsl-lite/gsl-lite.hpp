// Analysis model of gsl-lite (absent from the sandbox). Declarations only; never linked or run.
#pragma once
#include <cstddef>
#include <cstdint>
#include <exception>
#include <memory>
#include <stdexcept>
#include <type_traits>
#include <utility>
#include <string>
#include <string_view>
#include <cstring>
#include <functional>
#include <iterator>
#include <algorithm>
#include <array>
#include <iosfwd>

namespace gsl_lite {
using std::byte;
using index = std::ptrdiff_t;
using dim = std::ptrdiff_t;
struct fail_fast : std::logic_error { using std::logic_error::logic_error; };
struct narrowing_error : std::exception {};
[[noreturn]] void fail_fast_terminate();
template <class T> using owner = T;
template <class T>
class not_null {
public:
    constexpr not_null(T p) : p_(std::move(p)) {}
    template <class U> requires std::is_convertible_v<U, T>
    constexpr not_null(not_null<U> o) : p_(o.get()) {}
    constexpr T const& get() const { return p_; }
    constexpr operator T() const { return p_; }
    constexpr T const& operator->() const { return p_; }
    constexpr decltype(auto) operator*() const { return *p_; }
private:
    T p_;
};
template <class T, class U> constexpr T narrow_cast(U u) noexcept { return static_cast<T>(u); }
template <class T, class U> constexpr T narrow(U u) {
    T t = static_cast<T>(u);
    if (static_cast<U>(t) != u) throw narrowing_error();
    return t;
}
template <class F> struct final_action { F f; ~final_action() { f(); } };
template <class F> final_action<F> finally(F f) { return {std::move(f)}; }
}
namespace gsl = gsl_lite;
#define gsl_Expects(x) (static_cast<bool>(x) ? static_cast<void>(0) : ::gsl_lite::fail_fast_terminate())
#define gsl_Ensures(x) (static_cast<bool>(x) ? static_cast<void>(0) : ::gsl_lite::fail_fast_terminate())
#define Expects(x) gsl_Expects(x)
#define Ensures(x) gsl_Ensures(x)
