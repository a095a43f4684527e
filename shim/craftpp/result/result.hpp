// Stand-in for the external craftpp library (not available offline).
// Result<T>: either a value or an Error.
#pragma once
#include <cstdlib>
#include <functional>
#include <string_view>
#include <type_traits>
#include <utility>
#include <variant>
#include "craftpp/error/error.hpp"
#include "craftpp/types/unit.hpp"

namespace craftpp::result {

using error::Error;
template<typename T> class Result;

namespace details {
template<typename T> struct strip { using type = T; static constexpr bool is_result = false; };
template<typename T> struct strip<Result<T>> { using type = T; static constexpr bool is_result = true; };
template<typename T> using strip_t = typename strip<std::remove_cvref_t<T>>::type;
template<typename T> inline constexpr bool is_result_v = strip<std::remove_cvref_t<T>>::is_result;

// Callbacks get the value with the value category of the Result; a callback
// that only takes an lvalue gets an lvalue.
template<typename F, typename V>
decltype(auto) call(F&& f, V&& v) {
    if constexpr (std::is_invocable_v<F, V&&>) {
        return std::invoke(std::forward<F>(f), std::forward<V>(v));
    } else {
        return std::invoke(std::forward<F>(f), static_cast<std::remove_reference_t<V>&>(v));
    }
}

// The same for several arguments: all with their own category, or else with
// one of them (or all) as an lvalue.
template<typename V, bool LVALUE>
using as_t = std::conditional_t<LVALUE, std::remove_reference_t<V>&, V&&>;

template<int MASK, typename F, typename... Vs, size_t... Is>
constexpr bool invocable_mask(std::index_sequence<Is...>) {
    return std::is_invocable_v<F, as_t<Vs, MASK == -2 || MASK == (int)Is>...>;
}
template<int MASK, typename F, typename... Vs>
constexpr int find_mask() {
    using Seq = std::make_index_sequence<sizeof...(Vs)>;
    if constexpr (invocable_mask<MASK, F, Vs...>(Seq{})) {
        return MASK;
    } else if constexpr (MASK + 1 < (int)sizeof...(Vs)) {
        return find_mask<MASK + 1, F, Vs...>();
    } else {
        return -2;
    }
}
template<int MASK, size_t... Is, typename F, typename... Vs>
decltype(auto) call_mask(std::index_sequence<Is...>, F&& f, Vs&&... vs) {
    return std::invoke(std::forward<F>(f), static_cast<as_t<Vs, MASK == -2 || MASK == (int)Is>>(vs)...);
}
template<typename F, typename... Vs>
decltype(auto) call_all(F&& f, Vs&&... vs) {
    return call_mask<find_mask<-1, F, Vs...>()>(std::make_index_sequence<sizeof...(Vs)>{}, std::forward<F>(f), std::forward<Vs>(vs)...);
}
}

template<typename T>
class [[nodiscard]] Result {
public:
    using Value = T;

    Result(const Result&) = default;
    Result(Result&&) = default;
    Result& operator=(const Result&) = default;
    Result& operator=(Result&&) = default;

    Result(const Error& e) : m_v(std::in_place_index<1>, e) {}
    Result(Error&& e) : m_v(std::in_place_index<1>, std::move(e)) {}
    Result(const std::error_code& e) : m_v(std::in_place_index<1>, Error(e)) {}
    template<typename U>
        requires (!details::is_result_v<U>
                  && !std::is_same_v<std::remove_cvref_t<U>, Error>
                  && !std::is_same_v<std::remove_cvref_t<U>, std::error_code>
                  && std::is_convertible_v<U&&, T>)
    Result(U&& u) : m_v(std::in_place_index<0>, std::forward<U>(u)) {}

    bool is_ok() const noexcept { return m_v.index() == 0; }
    bool is_err() const noexcept { return m_v.index() != 0; }
    explicit operator bool() const noexcept { return is_ok(); }

    T& unwrap() & { return *value_ptr(); }
    const T& unwrap() const& { return *value_ptr(); }
    T&& unwrap() && { return std::move(*value_ptr()); }

    Error& unwrap_err() & { return *error_ptr(); }
    const Error& unwrap_err() const& { return *error_ptr(); }
    Error&& unwrap_err() && { return std::move(*error_ptr()); }

    template<typename U> T value_or(U&& u) const& { return is_ok() ? unwrap() : static_cast<T>(std::forward<U>(u)); }
    template<typename U> T value_or(U&& u) && { return is_ok() ? std::move(*value_ptr()) : static_cast<T>(std::forward<U>(u)); }
    template<typename U> T unwrap_or(U&& u) const& { return is_ok() ? unwrap() : static_cast<T>(std::forward<U>(u)); }
    template<typename U> T unwrap_or(U&& u) && { return is_ok() ? std::move(*value_ptr()) : static_cast<T>(std::forward<U>(u)); }
    template<typename F> T value_or_call(F&& f) const& { if (is_ok()) return unwrap(); return std::invoke(std::forward<F>(f)); }
    template<typename F> T value_or_call(F&& f) && { if (is_ok()) return std::move(*value_ptr()); return std::invoke(std::forward<F>(f)); }

    template<typename F> auto fmap(F&& f) & { return do_fmap(*this, std::forward<F>(f)); }
    template<typename F> auto fmap(F&& f) const& { return do_fmap(*this, std::forward<F>(f)); }
    template<typename F> auto fmap(F&& f) && { return do_fmap(std::move(*this), std::forward<F>(f)); }

    template<typename F> auto bind(F&& f) & { return do_bind(*this, std::forward<F>(f)); }
    template<typename F> auto bind(F&& f) const& { return do_bind(*this, std::forward<F>(f)); }
    template<typename F> auto bind(F&& f) && { return do_bind(std::move(*this), std::forward<F>(f)); }

    template<typename F> Result bind_err(F&& f) & { if (is_ok()) return *this; return Result(std::invoke(std::forward<F>(f), *error_ptr())); }
    template<typename F> Result bind_err(F&& f) const& { if (is_ok()) return *this; return Result(std::invoke(std::forward<F>(f), *error_ptr())); }
    template<typename F> Result bind_err(F&& f) && { if (is_ok()) return std::move(*this); return Result(std::invoke(std::forward<F>(f), std::move(*error_ptr()))); }

    template<typename F> Result fmap_err(F&& f) const& { if (is_ok()) return *this; return Result(std::invoke(std::forward<F>(f), *error_ptr())); }
    template<typename F> Result fmap_err(F&& f) && { if (is_ok()) return std::move(*this); return Result(std::invoke(std::forward<F>(f), std::move(*error_ptr()))); }

    template<typename F> void with_inner(F&& f) & { if (is_ok()) std::invoke(std::forward<F>(f), *value_ptr()); }
    template<typename F> void with_inner(F&& f) const& { if (is_ok()) std::invoke(std::forward<F>(f), *value_ptr()); }
    template<typename F> void with_inner(F&& f) && { if (is_ok()) std::invoke(std::forward<F>(f), std::move(*value_ptr())); }

    template<typename... Args> Result& add_context(Args&&... args) & {
        if (is_err()) error_ptr()->add_context(std::forward<Args>(args)...);
        return *this;
    }
    template<typename... Args> Result&& add_context(Args&&... args) && {
        if (is_err()) error_ptr()->add_context(std::forward<Args>(args)...);
        return std::move(*this);
    }

private:
    T* value_ptr() { auto p = std::get_if<0>(&m_v); if (p == nullptr) std::abort(); return p; }
    const T* value_ptr() const { auto p = std::get_if<0>(&m_v); if (p == nullptr) std::abort(); return p; }
    Error* error_ptr() { auto p = std::get_if<1>(&m_v); if (p == nullptr) std::abort(); return p; }
    const Error* error_ptr() const { auto p = std::get_if<1>(&m_v); if (p == nullptr) std::abort(); return p; }

    template<typename Self, typename F>
    static auto do_fmap(Self&& self, F&& f) {
        using U = std::remove_cvref_t<decltype(details::call(std::forward<F>(f), std::forward<Self>(self).unwrap()))>;
        if constexpr (std::is_void_v<U>) {
            using R = Result<types::Unit>;
            if (self.is_err()) return R(std::forward<Self>(self).unwrap_err());
            details::call(std::forward<F>(f), std::forward<Self>(self).unwrap());
            return R(types::Unit::create());
        } else {
            using R = Result<std::decay_t<U>>;
            if (self.is_err()) return R(std::forward<Self>(self).unwrap_err());
            return R(details::call(std::forward<F>(f), std::forward<Self>(self).unwrap()));
        }
    }
    template<typename Self, typename F>
    static auto do_bind(Self&& self, F&& f) {
        using R = std::remove_cvref_t<decltype(details::call(std::forward<F>(f), std::forward<Self>(self).unwrap()))>;
        static_assert(details::is_result_v<R>, "bind() takes a function that returns Result");
        if (self.is_err()) return R(std::forward<Self>(self).unwrap_err());
        return R(details::call(std::forward<F>(f), std::forward<Self>(self).unwrap()));
    }
    std::variant<T, Error> m_v;
};

using MaybeError = Result<types::Unit>;

inline MaybeError success() { return MaybeError(types::Unit::create()); }
template<typename T> Result<std::decay_t<T>> success(T&& t) { return Result<std::decay_t<T>>(std::forward<T>(t)); }
template<typename T> Result<std::decay_t<T>> return_value(T&& t) { return Result<std::decay_t<T>>(std::forward<T>(t)); }

// First error among the arguments (success if there is none).
inline MaybeError any_is_err() { return success(); }
template<typename R, typename... Rs>
MaybeError any_is_err(const R& r, const Rs&... rs) {
    if (r.is_err()) return MaybeError(r.unwrap_err());
    return any_is_err(rs...);
}

// Applies f to the values if none of the arguments is an error; otherwise
// returns the first error in argument order.
template<typename F, typename... Rs>
    requires (details::is_result_v<Rs> && ...)
auto combine(F&& f, Rs&&... rs) {
    using U = std::remove_cvref_t<decltype(details::call_all(std::forward<F>(f), std::forward<Rs>(rs).unwrap()...))>;
    using R = Result<details::strip_t<U>>;
    if (auto e = any_is_err(rs...); e.is_err()) {
        return R(e.unwrap_err());
    }
    return R(details::call_all(std::forward<F>(f), std::forward<Rs>(rs).unwrap()...));
}

}
