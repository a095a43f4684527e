// STUN class/method codec (C10), attribute types and registries (C40), ABNF character classes (C41).
// @job C10 quick,thorough h_type_encode 0..3
// @job C10 quick,thorough h_type_decode
// @job C10 quick,thorough h_class_factories
// @job C40 quick,thorough h_attr_type
// @job C40 quick,thorough h_registry
// @job C41 quick,thorough h_abnf_classes
// @job C41 quick h_eq_string 0..6 0..6 | 7 7 | 8 7..9 | 9 9 | 15 15..16 | 16 16 | 17 17 | 32 32..33 | 257 0..1 | 300 44 | 65536 0
// @job C41 quick,thorough h_eq_string_long 31..33,63..66,127..129,255..258,300
// @job C41 thorough h_eq_string 0..12 0..12
// @job C41 quick,thorough h_eq_string_substring
// @bound C10: all 4 classes x 4096 methods, all 2^14 message types; C40: all 65536 attribute types; C41: all 256 characters, string pairs of lengths 0..6 (quick) / 0..12 (thorough) and selected lengths up to 33, and of up to 300 characters with any two bytes at any one place
#include "sym.hpp"
#include <functional>
#include <string>
#include <memory>
#include "stun/stun_class.hpp"
#include "stun/stun_method.hpp"
#include "stun/stun_attribute_type.hpp"
#include "stun/details/stun_attr_registry.hpp"
#include "stun/details/stun_method_registry.hpp"
#include "stun/details/stun_constants.hpp"
#include "abnf/abnf.hpp"
#include "ice/ice_abnf.hpp"
using namespace freewebrtc;
// RFC 5389 figure 3
static uint16_t layout(unsigned m, unsigned c) {
    uint16_t r = 0;
    static const int mpos[12] = {0, 1, 2, 3, 5, 6, 7, 9, 10, 11, 12, 13};
    for (int i = 0; i < 12; ++i) r |= ((m >> i) & 1) << mpos[i];
    return r | (c & 1) << 4 | ((c >> 1) & 1) << 8;
}
static stun::Class cls(unsigned c) { return c == 0 ? stun::Class::request() : c == 1 ? stun::Class::indication() : c == 2 ? stun::Class::success_response() : stun::Class::error_response(); }
HARNESS(h_type_encode) {
    unsigned c = sym_param(0);
    uint16_t m = sym_u16("m"); sym_assume(m < 4096);
    auto method = stun::Method::from_msg_type(layout(m, 0));
    sym_assert(method.to_msg_type() == layout(m, 0), "method keeps its code");
    for (int x = 0; x < 4; ++x) sym_assert(stun::Method::from_msg_type(layout(m, x)) == method, "the class bits do not affect the method");
    auto k = cls(c);
    uint16_t t = k.to_msg_type() | method.to_msg_type();
    sym_assert(t == layout(m, c), "message type has the RFC 5389 bit layout");
    sym_assert((k.to_msg_type() & method.to_msg_type()) == 0, "class and method bits are disjoint");
    sym_assert((t & 0xC000) == 0, "top two bits are zero");
    sym_assert(stun::Class::from_msg_type(t) == k, "class decodes back");
    sym_assert(stun::Method::from_msg_type(t) == method, "method decodes back");
    sym_cover("encode"); sym_observe(t);
}
HARNESS(h_type_decode) {
    uint16_t t = sym_u16("t"), u = sym_u16("u"); sym_assume(t < 0x4000 && u < 0x4000);
    auto c = stun::Class::from_msg_type(t); auto m = stun::Method::from_msg_type(t);
    auto d = stun::Class::from_msg_type(u); auto n = stun::Method::from_msg_type(u);
    sym_assert((unsigned)c.value() <= 3 && (m.to_msg_type() & ~0x3eef) == 0, "a 14-bit type decodes to a class and a 12-bit method");
    sym_assert((c.to_msg_type() | m.to_msg_type()) == t, "encoding the decoded type gives it back");
    unsigned cv = ((t >> 4) & 1) | ((t >> 8) & 1) << 1;
    sym_assert((unsigned)c.value() == cv, "class bits");
    sym_assert((c == d) == (((t ^ u) & 0x110) == 0), "classes are equal exactly when their bits are");
    sym_assert((m == n) == (((t ^ u) & ~0x110 & 0x3fff) == 0), "methods are equal exactly when their bits are");
    sym_assert((m != n) == !(m == n), "inequality of methods");
    sym_assert((c != d) == !(c == d), "inequality of classes");
    sym_cover("decode");
}
HARNESS(h_class_factories) {
    using C = stun::Class;
    sym_assert(C::request().value() == C::REQUEST && C::indication().value() == C::INDICATION && C::success_response().value() == C::SUCCESS_RESPONSE && C::error_response().value() == C::ERROR_RESPONSE, "factories give their class");
    sym_assert(C::request().to_msg_type() == 0 && C::indication().to_msg_type() == 0x10 && C::success_response().to_msg_type() == 0x100 && C::error_response().to_msg_type() == 0x110, "class codes");
    sym_assert(stun::Method::binding() == stun::Method::from_msg_type(0x111) && stun::Method::binding().to_msg_type() == 1, "binding method");
    unsigned a = sym_choice("a", 4), b = sym_choice("b", 4);
    sym_assert((cls(a) == cls(b)) == (a == b), "the four classes are distinct");
}
HARNESS(h_attr_type) {
    uint16_t v = sym_u16("v"), w = sym_u16("w");
    auto a = stun::AttributeType::from_uint16(v), b = stun::AttributeType::from_uint16(w);
    sym_assert(a.value() == v, "attribute type keeps its value");
    sym_assert(a.is_comprehension_required() == (v < 0x8000), "comprehension-required below 0x8000");
    sym_assert((a == b) == (v == w), "attribute types compare by value");
    sym_assert(!(a == b) || std::hash<stun::AttributeType>()(a) == std::hash<stun::AttributeType>()(b), "equal attribute types hash equally");
    sym_cover("attr");
}
HARNESS(h_registry) {
    using namespace stun::attr_registry;
    static const struct { uint16_t got, want; } t[] = {
        {MAPPED_ADDRESS, 0x0001}, {USERNAME, 0x0006}, {MESSAGE_INTEGRITY, 0x0008}, {ERROR_CODE, 0x0009}, {UNKNOWN_ATTRIBUTES, 0x000A}, {REALM, 0x0014}, {NONCE, 0x0015},
        {XOR_MAPPED_ADDRESS, 0x0020}, {PRIORITY, 0x0024}, {USE_CANDIDATE, 0x0025}, {SOFTWARE, 0x8022}, {ALTERNATE_SERVER, 0x8023}, {FINGERPRINT, 0x8028}, {ICE_CONTROLLED, 0x8029}, {ICE_CONTROLLING, 0x802A}};
    const unsigned n = sizeof t / sizeof t[0];
    unsigned i = sym_u8("i"), j = sym_u8("j"); sym_assume(i < n && j < n);
    sym_assert(t[i].got == t[j].got ? i == j : i != j, "registry values are pairwise distinct");
    for (auto& x : t) sym_assert(x.got == x.want, "attribute code assigned by the registry");
    sym_assert(FAMILY_IPV4 == 1 && FAMILY_IPV6 == 2, "address family codes");
    sym_assert(stun::method_registry::BINDING == 1, "binding method code");
    sym_assert(stun::details::MAGIC_COOKIE == 0x2112A442, "magic cookie");
    sym_assert(stun::details::TRANSACTION_ID_SIZE == 12 && stun::details::TRANSACTION_ID_SIZE_RFC3489 == 16, "transaction id sizes");
    sym_assert(stun::details::STUN_HEADER_SIZE == 20 && stun::details::HEADER_SIZE == 20 && stun::details::STUN_ATTR_HEADER_SIZE == 4 && stun::details::FINGERPRINT_CRC_SIZE == 4, "protocol sizes");
    sym_assert(COMPREHANENSION_OPTIONAL == 0x8000, "comprehension-optional bit");
    sym_cover("registry");
}
HARNESS(h_abnf_classes) {
    uint8_t c = sym_u8("c"); char ch = (char)c;
    bool alpha = (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'), digit = c >= '0' && c <= '9';
    sym_assert(abnf::is_ALPHA(ch) == alpha, "ALPHA");
    sym_assert(abnf::is_DIGIT(ch) == digit, "DIGIT");
    sym_assert(ice::abnf::is_ice_char(ch) == (alpha || digit || c == '+' || c == '/'), "ice-char");
    sym_cover("abnf"); sym_observe(alpha * 2 + digit);
}
static uint8_t low(uint8_t c) { return c + 32 * (c >= 'A' && c <= 'Z'); }
HARNESS(h_eq_string) {
    size_t n = sym_param(0), m = sym_param(1);
    std::unique_ptr<char[]> a(new char[n]), b(new char[m]);
    sym_bytes(a.get(), n, "a"); sym_bytes(b.get(), m, "b");
    bool eq = abnf::eq_string({a.get(), n}, {b.get(), m});
    bool want = n == m;
    if (want) { uint8_t d = 0; for (size_t i = 0; i < n; ++i) d |= low(a[i]) ^ low(b[i]); want = d == 0; }
    sym_assert(eq == want, "case-insensitive equality of ASCII letters");
    if (eq) sym_cover("equal"); else sym_cover("different");
}
// long texts, equal but for case, with any two bytes at any one place
HARNESS(h_eq_string_long) {
    size_t n = sym_param(0);
    std::unique_ptr<char[]> a(new char[n]), b(new char[n]);
    for (size_t i = 0; i < n; ++i) { a[i] = (i % 3 ? 'a' : 'A') + i % 26; b[i] = (i % 5 ? 'a' : 'A') + i % 26; }
    size_t at = sym_choice("at", n);
    a[at] = (char)sym_u8("x"); b[at] = (char)sym_u8("y");
    bool eq = abnf::eq_string({a.get(), n}, {b.get(), n});
    sym_assert(eq == (low(a[at]) == low(b[at])), "case-insensitive equality of long texts");
    if (eq) sym_cover("equal"); else sym_cover("different");
}
// views into larger buffers: neighbours must not matter
HARNESS(h_eq_string_substring) {
    char buf[8]; sym_bytes(buf, 8, "buf");
    bool eq = abnf::eq_string({buf + 1, 2}, {buf + 5, 2});
    sym_assert(eq == (low(buf[1]) == low(buf[5]) && low(buf[2]) == low(buf[6])), "comparison of parts of a buffer");
}
