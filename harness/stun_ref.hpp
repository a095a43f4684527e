// Reference reading of a STUN message, written from RFC 5389 (and RFC 3489 for
// requests without a cookie), used as the oracle by the STUN harnesses.
#pragma once
#include "sym.hpp"
#include <array>
#include <memory>
#include <string>
#include <vector>
#include "stun/stun_message.hpp"
#include "stun/stun_error.hpp"
#include "net/net_error.hpp"
#include "stun/details/stun_fingerprint.hpp"
#include "util/util_binary_view.hpp"
namespace ref {
using namespace freewebrtc;
using View = util::ConstBinaryView;
using PE = stun::ParseError;
enum : uint16_t { MAPPED = 1, USERNAME = 6, INTEGRITY = 8, ERRCODE = 9, UNKNOWN_ATTRS = 0xa, REALM = 0x14, NONCE = 0x15, XMAPPED = 0x20,
    PRIO = 0x24, USECAND = 0x25, SOFTWARE = 0x8022, ALTSERVER = 0x8023, FINGERPRINT = 0x8028, CONTROLLED = 0x8029, CONTROLLING = 0x802a };
constexpr uint16_t KNOWN[] = {MAPPED, USERNAME, INTEGRITY, ERRCODE, UNKNOWN_ATTRS, XMAPPED, PRIO, USECAND, SOFTWARE, ALTSERVER, FINGERPRINT, CONTROLLED, CONTROLLING};
inline unsigned be16(const uint8_t *p) { return p[0] << 8 | p[1]; }
inline uint32_t be32(const uint8_t *p) { return (uint32_t)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; }
inline uint64_t be64(const uint8_t *p) { return (uint64_t)be32(p) << 32 | be32(p + 4); }
inline void put16(uint8_t *p, unsigned v) { p[0] = v >> 8; p[1] = v; }
inline void put32(uint8_t *p, uint32_t v) { put16(p, v >> 16); put16(p + 2, v); }
constexpr uint32_t COOKIE = 0x2112A442;

// CRC-32/ISO-HDLC, byte table derived from the reflected polynomial
struct CrcTable { uint32_t t[256]; constexpr CrcTable() : t() {
    for (uint32_t i = 0; i < 256; ++i) { uint32_t c = i; for (int k = 0; k < 8; ++k) c = c & 1 ? 0xEDB88320u ^ (c >> 1) : c >> 1; t[i] = c; } } };
constexpr CrcTable CRCT;
inline uint32_t crc32(const uint8_t *p, size_t n, uint32_t c = 0xffffffffu) { for (size_t i = 0; i < n; ++i) c = CRCT.t[(c ^ p[i]) & 255] ^ (c >> 8); return c; }
inline uint32_t fingerprint(const uint8_t *p, size_t n) { return ~crc32(p, n) ^ 0x5354554eu; }

// The 14-bit message type split by RFC 5389 figure 3.
inline unsigned cls(unsigned t) { return (t >> 7 & 2) | (t >> 4 & 1); }
inline unsigned method(unsigned t) { return (t & 0xf) | (t >> 1 & 0x70) | (t >> 2 & 0xf80); }
inline unsigned msg_type(unsigned c, unsigned m) { return (m & 0xf) | (m & 0x70) << 1 | (m & 0xf80) << 2 | (c & 1) << 4 | (c & 2) << 7; }

struct Attr { uint16_t type; size_t off, len; };   // off: of the value
struct Walk { bool overrun = false, fpNotLast = false; std::vector<Attr> attrs; size_t miOff = 0, fpOff = 0; };
inline size_t padded(size_t n) { return (n + 3) & ~(size_t)3; }
// one path per value where the code under test forks too
inline uint16_t pin_type(unsigned t) { for (uint16_t k : KNOWN) if (t == k) return k; return (uint16_t)t; }
inline bool is_known(unsigned t) { for (uint16_t k : KNOWN) if (t == k) return true; return false; }
inline Walk walk(const uint8_t *b, size_t n) {
    Walk w;
    size_t at = 20;
    while (at < n) {
        if (n - at < 4) { w.overrun = true; return w; }
        unsigned len = be16(b + at + 2);
        if (len > n - at - 4) { w.overrun = true; return w; }
        size_t l = sym_concretize(len);
        uint16_t t = pin_type(be16(b + at));
        bool take = true;
        if (t == FINGERPRINT) { if (at + 4 + padded(l) < n) { w.fpNotLast = true; } w.fpOff = at; }
        else if (t == INTEGRITY) { if (w.miOff) take = false; else w.miOff = at; }
        else if (w.miOff) take = false;
        if (take) w.attrs.push_back({t, at + 4, l});
        at += 4 + padded(l);
    }
    return w;
}
inline bool one_of(const std::error_code& e, std::initializer_list<PE> l) { for (PE p : l) if (e == stun::make_error_code(p)) return true; return false; }
// 0: acceptable; 1: too short or excluded size/family
inline bool value_bad(const uint8_t *b, const Attr& a) {
    const uint8_t *v = b + a.off;
    switch (a.type) {
    case MAPPED: case XMAPPED: case ALTSERVER:
        if (a.len < 4) return true;
        if (v[1] == 1) return a.len != 8;
        if (v[1] == 2) return a.len != 20;
        return true;
    case INTEGRITY: return a.len != 20;
    case FINGERPRINT: case PRIO: case ERRCODE: return a.len < 4;
    case CONTROLLED: case CONTROLLING: return a.len < 8;
    case USECAND: return a.len != 0;
    case UNKNOWN_ATTRS: return a.len % 2 != 0;
    default: return false;
    }
}
inline bool value_error(const uint8_t *b, const Attr& a, const std::error_code& e) {
    const uint8_t *v = b + a.off;
    bool size = one_of(e, {PE::invalid_ipv4_address_size, PE::invalid_ipv6_address_size}) || e == net::make_error_code(net::Error::invalid_address_size);
    switch (a.type) {
    case MAPPED: case ALTSERVER: if (a.len < 4) return one_of(e, {PE::invalid_mapped_addr}); if (v[1] == 1 || v[1] == 2) return size; return one_of(e, {PE::unknown_addr_family});
    case XMAPPED: if (a.len < 4) return one_of(e, {PE::invalid_xor_mapped_addr}); if (v[1] == 1 || v[1] == 2) return size; return one_of(e, {PE::unknown_addr_family});
    case INTEGRITY: return one_of(e, {PE::integrity_digest_size});
    case FINGERPRINT: return one_of(e, {PE::fingerprint_crc_size});
    case PRIO: return one_of(e, {PE::priority_attribute_size});
    case ERRCODE: return one_of(e, {PE::error_code_attribute_size});
    case CONTROLLED: return one_of(e, {PE::ice_controlled_size});
    case CONTROLLING: return one_of(e, {PE::ice_controlling_size});
    case USECAND: return one_of(e, {PE::use_candidate_size});
    case UNKNOWN_ATTRS: return one_of(e, {PE::unknown_attributes_attribute_size});
    default: return false;
    }
}
}
