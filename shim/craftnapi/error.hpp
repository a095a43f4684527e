// Stand-in for the external craftnapi library (not available offline).
#pragma once
#include <string>
#include <system_error>

namespace craftnapi {

enum class Error { ok = 0, wrong_type, missing_argument, not_wrapped };

class ErrorCategory : public std::error_category {
public:
    const char* name() const noexcept override { return "napi"; }
    std::string message(int) const override { return "napi error"; }
};
inline const ErrorCategory& error_category() { static const ErrorCategory c; return c; }
inline std::error_code make_error_code(Error e) { return std::error_code((int)e, error_category()); }

}
