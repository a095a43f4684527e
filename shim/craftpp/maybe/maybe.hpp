// Stand-in for the external craftpp library (not available offline).
#pragma once
#include <cstdlib>
#include <functional>
#include <optional>
#include <type_traits>
#include <utility>
#include "craftpp/result/result.hpp"

namespace craftpp::maybe {

struct None {
    constexpr bool operator==(const None&) const noexcept = default;
};
constexpr None none() noexcept { return None{}; }

template<typename T> class Maybe;

namespace details {
template<typename T> struct is_maybe : std::false_type {};
template<typename T> struct is_maybe<Maybe<T>> : std::true_type {};
template<typename T> inline constexpr bool is_maybe_v = is_maybe<std::remove_cvref_t<T>>::value;
}

template<typename T>
class Maybe {
public:
    using Value = T;

    Maybe() noexcept = default;
    Maybe(None) noexcept {}
    Maybe(const Maybe&) = default;
    Maybe(Maybe&&) = default;
    Maybe& operator=(const Maybe&) = default;
    Maybe& operator=(Maybe&&) = default;
    template<typename U>
        requires (!details::is_maybe_v<U>
                  && !std::is_same_v<std::remove_cvref_t<U>, None>
                  && std::is_convertible_v<U&&, T>)
    Maybe(U&& u) : m_v(std::forward<U>(u)) {}

    static Maybe none() noexcept { return Maybe{}; }
    static Maybe move_from(T&& t) { return Maybe(std::move(t)); }
    static Maybe copy_from(const T& t) { return Maybe(t); }

    bool is_some() const noexcept { return m_v.has_value(); }
    bool is_none() const noexcept { return !m_v.has_value(); }
    bool has_value() const noexcept { return m_v.has_value(); }
    explicit operator bool() const noexcept { return m_v.has_value(); }

    T& unwrap() & { check(); return *m_v; }
    const T& unwrap() const& { check(); return *m_v; }
    T&& unwrap() && { check(); return std::move(*m_v); }
    T& value() & { check(); return *m_v; }
    const T& value() const& { check(); return *m_v; }
    T&& value() && { check(); return std::move(*m_v); }

    template<typename U> T value_or(U&& u) const& { if (m_v) return *m_v; return static_cast<T>(std::forward<U>(u)); }
    template<typename U> T value_or(U&& u) && { if (m_v) return std::move(*m_v); return static_cast<T>(std::forward<U>(u)); }
    template<typename U> T unwrap_or(U&& u) const& { if (m_v) return *m_v; return static_cast<T>(std::forward<U>(u)); }
    template<typename U> T unwrap_or(U&& u) && { if (m_v) return std::move(*m_v); return static_cast<T>(std::forward<U>(u)); }
    template<typename F> T value_or_call(F&& f) const& { if (m_v) return *m_v; return std::invoke(std::forward<F>(f)); }
    template<typename F> T value_or_call(F&& f) && { if (m_v) return std::move(*m_v); return std::invoke(std::forward<F>(f)); }

    template<typename F> auto fmap(F&& f) & { return do_fmap(*this, std::forward<F>(f)); }
    template<typename F> auto fmap(F&& f) const& { return do_fmap(*this, std::forward<F>(f)); }
    template<typename F> auto fmap(F&& f) && { return do_fmap(std::move(*this), std::forward<F>(f)); }

    template<typename F> auto bind(F&& f) & { return do_bind(*this, std::forward<F>(f)); }
    template<typename F> auto bind(F&& f) const& { return do_bind(*this, std::forward<F>(f)); }
    template<typename F> auto bind(F&& f) && { return do_bind(std::move(*this), std::forward<F>(f)); }

    template<typename F> void with_inner(F&& f) & { if (m_v) std::invoke(std::forward<F>(f), *m_v); }
    template<typename F> void with_inner(F&& f) const& { if (m_v) std::invoke(std::forward<F>(f), *m_v); }
    template<typename F> void with_inner(F&& f) && { if (m_v) std::invoke(std::forward<F>(f), std::move(*m_v)); }

    result::Result<T> require() const& {
        if (m_v) return result::Result<T>(*m_v);
        return result::Result<T>(error::make_error_code(error::Code::value_required_in_maybe));
    }
    result::Result<T> require() && {
        if (m_v) return result::Result<T>(std::move(*m_v));
        return result::Result<T>(error::make_error_code(error::Code::value_required_in_maybe));
    }

    friend bool operator==(const Maybe& a, const Maybe& b) { return a.m_v == b.m_v; }
    friend bool operator==(const Maybe& a, None) noexcept { return !a.m_v.has_value(); }

private:
    void check() const { if (!m_v) std::abort(); }

    template<typename Self, typename F>
    static auto do_fmap(Self&& self, F&& f) {
        using U = std::remove_cvref_t<decltype(result::details::call(std::forward<F>(f), *std::forward<Self>(self).m_v))>;
        using R = Maybe<std::decay_t<U>>;
        if (!self.m_v) return R{};
        return R(result::details::call(std::forward<F>(f), *std::forward<Self>(self).m_v));
    }
    template<typename Self, typename F>
    static auto do_bind(Self&& self, F&& f) {
        using R = std::remove_cvref_t<decltype(result::details::call(std::forward<F>(f), *std::forward<Self>(self).m_v))>;
        static_assert(details::is_maybe_v<R>, "bind() takes a function that returns Maybe");
        if (!self.m_v) return R{};
        return R(result::details::call(std::forward<F>(f), *std::forward<Self>(self).m_v));
    }
    std::optional<T> m_v;
};

}
