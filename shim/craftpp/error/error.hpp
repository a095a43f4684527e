// Stand-in for the external craftpp library (not available offline).
// Error: a std::error_code plus a stack of textual contexts.
// With CRAFTPP_NO_CONTEXT the context text is dropped (formatting only; no
// part of the repository's behaviour depends on it except message text).
#pragma once
#include <string>
#include <string_view>
#include <system_error>
#include <type_traits>
#include <utility>
#include <vector>

namespace craftpp::error {

class Error {
public:
    Error(const std::error_code& ec) : m_code(ec) {}
    template<typename E>
        requires (std::is_error_code_enum<E>::value)
    Error(E e) : m_code(std::error_code(e)) {}

    const std::error_code& code() const noexcept { return m_code; }
    const std::error_category& category() const noexcept { return m_code.category(); }
    int value() const noexcept { return m_code.value(); }

#ifdef CRAFTPP_NO_CONTEXT
    std::string message() const { return std::string(); }
    template<typename... Args> Error& add_context(Args&&...) & { return *this; }
    template<typename... Args> Error&& add_context(Args&&...) && { return std::move(*this); }
    template<typename... Args> Error add_context(Args&&...) const& { return *this; }
#else
    std::string message() const {
        std::string r;
        for (auto it = m_context.rbegin(); it != m_context.rend(); ++it) {
            r += *it;
            r += ": ";
        }
        return r + m_code.message();
    }
    template<typename... Args> Error& add_context(Args&&... args) & {
        std::string s;
        ((s += (s.empty() ? "" : " "), s += std::string(std::string_view(args))), ...);
        m_context.emplace_back(std::move(s));
        return *this;
    }
    template<typename... Args> Error&& add_context(Args&&... args) && {
        static_cast<Error&>(*this).add_context(std::forward<Args>(args)...);
        return std::move(*this);
    }
    template<typename... Args> Error add_context(Args&&... args) const& {
        Error e(*this);
        e.add_context(std::forward<Args>(args)...);
        return e;
    }
#endif
    friend bool operator==(const Error& a, const Error& b) noexcept { return a.m_code == b.m_code; }
    friend bool operator==(const Error& a, const std::error_code& b) noexcept { return a.m_code == b; }

private:
    std::error_code m_code;
#ifndef CRAFTPP_NO_CONTEXT
    std::vector<std::string> m_context;
#endif
};

// Errors of craftpp itself.
enum class Code { ok = 0, value_required_in_maybe = 1 };

class Category : public std::error_category {
public:
    const char *name() const noexcept override { return "craftpp"; }
    std::string message(int code) const override {
        return code == 0 ? "success" : code == 1 ? "value required" : "unknown craftpp error";
    }
};

inline const std::error_category& category() noexcept {
    static const Category cat;
    return cat;
}

inline std::error_code make_error_code(Code c) noexcept {
    return std::error_code((int)c, category());
}

}
