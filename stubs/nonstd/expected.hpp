// Analysis model of nonstd::expected (absent from the sandbox). Declarations only.
#pragma once
#include <utility>
#include <exception>
#include <optional>
#include <type_traits>
namespace nonstd {
struct unexpect_t {}; inline constexpr unexpect_t unexpect{};
template <class E> class unexpected_type {
public:
    template <class U = E> constexpr explicit unexpected_type(U&& e);
    constexpr const E& value() const; constexpr E& value(); constexpr const E& error() const;
};
template <class E> using unexpected = unexpected_type<E>;
template <class E> constexpr unexpected_type<std::decay_t<E>> make_unexpected(E&& e);
template <class E> class bad_expected_access : public std::exception {
public: const E& error() const; const char* what() const noexcept override; };
template <class T, class E = std::exception_ptr> class expected {
public:
    using value_type = T; using error_type = E;
    constexpr expected();
    constexpr expected(const expected&); constexpr expected(expected&&);
    template <class U = T> requires std::is_constructible_v<T, U&&>
    constexpr expected(U&& v);
    template <class G> constexpr expected(const unexpected_type<G>& e);
    template <class G> constexpr expected(unexpected_type<G>&& e);
    template <class... A> constexpr explicit expected(unexpect_t, A&&...);
    expected& operator=(const expected&); expected& operator=(expected&&);
    template <class U = T> requires std::is_constructible_v<T, U&&> expected& operator=(U&& v);
    template <class G> expected& operator=(unexpected_type<G> e);
    ~expected();
    constexpr bool has_value() const noexcept; constexpr explicit operator bool() const noexcept;
    constexpr const T& value() const&; constexpr T& value() &; constexpr T&& value() &&;
    constexpr const E& error() const&; constexpr E& error() &;
    constexpr const T* operator->() const; constexpr T* operator->();
    constexpr const T& operator*() const&; constexpr T& operator*() &; constexpr T&& operator*() &&;
    template <class U> constexpr T value_or(U&& u) const;
};
template <class E> class expected<void, E> {
public:
    using value_type = void; using error_type = E;
    constexpr expected();
    template <class G> constexpr expected(unexpected_type<G> e);
    constexpr bool has_value() const noexcept; constexpr explicit operator bool() const noexcept;
    constexpr void value() const; constexpr const E& error() const&; constexpr E& error() &;
};
}
