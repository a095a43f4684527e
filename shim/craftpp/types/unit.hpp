// Stand-in for the external craftpp library (not available offline).
#pragma once
namespace craftpp::types {
struct Unit {
    static constexpr Unit create() noexcept { return Unit{}; }
    constexpr bool operator==(const Unit&) const noexcept = default;
};
}
