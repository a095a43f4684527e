// Stand-in for the external craftpp library (not available offline).
#pragma once
#include <bit>
#include <cstdint>

namespace craftpp::binary {

namespace details {
constexpr uint16_t swap16(uint16_t v) noexcept { return __builtin_bswap16(v); }
constexpr uint32_t swap32(uint32_t v) noexcept { return __builtin_bswap32(v); }
constexpr uint64_t swap64(uint64_t v) noexcept { return __builtin_bswap64(v); }
inline constexpr bool little = std::endian::native == std::endian::little;
}

constexpr uint16_t network_to_host_u16(uint16_t v) noexcept { return details::little ? details::swap16(v) : v; }
constexpr uint32_t network_to_host_u32(uint32_t v) noexcept { return details::little ? details::swap32(v) : v; }
constexpr uint64_t network_to_host_u64(uint64_t v) noexcept { return details::little ? details::swap64(v) : v; }
constexpr uint16_t host_to_network_u16(uint16_t v) noexcept { return network_to_host_u16(v); }
constexpr uint32_t host_to_network_u32(uint32_t v) noexcept { return network_to_host_u32(v); }
constexpr uint64_t host_to_network_u64(uint64_t v) noexcept { return network_to_host_u64(v); }

}
