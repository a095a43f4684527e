// Stand-in for the external craftpp library (not available offline).
#pragma once
#include <iterator>
#include "craftpp/result/result.hpp"

namespace craftpp::result {

// Apply f to every element; stop at the first error.
template<typename It, typename F>
MaybeError reduce(It begin, It end, F&& f) {
    for (; begin != end; ++begin) {
        auto r = f(std::move(*begin));
        if (r.is_err()) {
            return r.unwrap_err();
        }
    }
    return success();
}

// Fold with an accumulator; stop at the first error.
template<typename It, typename T, typename F>
Result<std::remove_cvref_t<T>> reduce(It begin, It end, T&& init, F&& f) {
    using R = Result<std::remove_cvref_t<T>>;
    R acc(std::forward<T>(init));
    for (; begin != end; ++begin) {
        acc = R(f(std::move(acc.unwrap()), *begin));
        if (acc.is_err()) {
            return acc;
        }
    }
    return acc;
}

}
