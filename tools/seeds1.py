RTPERR = "src/rtp/rtp_packet.cpp src/rtp/rtp_payload_map.cpp src/rtp/rtp_error.cpp"
RTPPRE = r'''
#include <vector>
#include "rtp/rtp_packet.hpp"
#include "rtp/rtp_payload_map.hpp"
using namespace freewebrtc;
using B = std::vector<uint8_t>;
static rtp::PayloadMap pm() { return rtp::PayloadMap({{rtp::PayloadType::from_uint8(96).unwrap(), {rtp::ClockRate(90000)}}}); }
static B pkt(uint8_t b0) { return B{b0, 96, 0, 1, 0, 0, 0, 2, 0, 0, 0, 3}; }
'''
bug("timepoint-half-range", "C01", [("src/clock/clock_timepoint.hpp", "return other.m_value.count() - m_value.count() > std::numeric_limits<Base>::max() / 2;", "return other.m_value.count() - m_value.count() >= std::numeric_limits<Base>::max() / 2;")], r'''
#include "clock/clock_timepoint.hpp"
using namespace freewebrtc::clock;
int main() {
    auto a = Timepoint::epoch(), b = a.advance(std::chrono::microseconds(INT64_MAX));
    REQUIRE(b.is_after(a) && !b.is_before(a));
    REQUIRE(a.is_before(b) && !a.is_after(b));
    auto c = b.advance(std::chrono::microseconds(INT64_MAX - 1));
    REQUIRE(c.is_after(b) && !b.is_after(c));
}''', "two time points exactly 2^63-1 microseconds apart", "the earlier one is reported both before and after the later one", "")
bug("chrono-converter-short-readings", "C03", [("src/clock/clock_std.hpp", "    m_reminder += (now - m_prev);\n    m_prev = now;\n", "    m_reminder += (now - m_prev);\n    if (m_reminder < Timepoint::Duration{1}) {\n        return m_now; // nothing to advance yet\n    }\n    m_prev = now;\n")], r'''
#include "clock/clock_std.hpp"
using namespace freewebrtc::clock;
struct Clock { using duration = std::chrono::nanoseconds; using rep = duration::rep; using period = duration::period; using time_point = std::chrono::time_point<Clock>; static constexpr bool is_steady = true;
  static inline int64_t t = 0; static time_point now() { return time_point{duration{t}}; } };
int main() {
    Clock::t = 10000; ChronoClockConverter<Clock> c;
    auto a = c.now();
    Clock::t += 400; c.now(); Clock::t += 400; c.now(); Clock::t += 400;
    REQUIRE((c.now() - a).count() == 1);
    Clock::t += 1000000;
    REQUIRE((c.now() - a).count() == 1001);
}''', "two readings of the clock less than a microsecond apart with a non-zero remainder", "time since the previous reading is counted twice, so the converted clock drifts ahead", "")
bug("rtp-extension-length-wrap", "C05", [("src/rtp/rtp_packet.cpp", "ext_size = (ext_length + 1) * sizeof(uint32_t);", "const uint16_t ext_bytes = ext_length * sizeof(uint32_t);\n                ext_size = ext_bytes + sizeof(uint32_t);")], RTPPRE + r'''
int main() {
    auto p = pkt(0x90); p.insert(p.end(), {0xBE, 0xDE, 0x40, 0x00, 1, 2});
    rtp::ParseStat st; auto m = pm();
    REQUIRE(rtp::Packet::parse(util::ConstBinaryView(p), m, st).is_err());
    auto q = pkt(0x90); q.insert(q.end(), {0xBE, 0xDE, 0x00, 0x01, 1, 2, 3, 4});
    REQUIRE(rtp::Packet::parse(util::ConstBinaryView(q), m, st).is_ok());
}''', "an extension that claims 0x4000 or more words", "an incomplete extension is accepted, as if it were empty", RTPERR)
bug("rtp-success-counted-early", "C06", [("src/rtp/rtp_packet.cpp", "    size_t padding_size = 0;\n", "    if (!has_extension || ext_size > 0) {\n        stat.success.inc();\n    }\n    size_t padding_size = 0;\n"), ("src/rtp/rtp_packet.cpp", "    const size_t payload_size = payload_with_padding_size - padding_size;\n    stat.success.inc();\n", "    const size_t payload_size = payload_with_padding_size - padding_size;\n")], RTPPRE + r'''
int main() {
    auto p = pkt(0xA0); p.push_back(9);
    rtp::ParseStat st; auto m = pm();
    REQUIRE(rtp::Packet::parse(util::ConstBinaryView(p), m, st).is_err());
    REQUIRE(st.success.count() == 0 && st.error.count() == 1);
    p.back() = 1;
    REQUIRE(rtp::Packet::parse(util::ConstBinaryView(p), m, st).is_ok());
    REQUIRE(st.success.count() == 1 && st.error.count() == 1);
}''', "a packet whose padding is wrong", "the packet is counted as a success and as an error", RTPERR)
bug("rtp-extension-with-csrc", "C04", [("src/rtp/rtp_packet.cpp", "if (!vv.contains(ext_interval)) {", "if (vv.size() < RTP_FIXED_HEADER_LEN + ext_size) {")], RTPPRE + r'''
int main() {
    auto p = pkt(0x91); p.insert(p.end(), {0, 0, 0, 7, 0xBE, 0xDE, 0, 1, 9, 9});
    rtp::ParseStat st; auto m = pm();
    // four announced extension bytes, two present
    auto* heap = new uint8_t[p.size()]; memcpy(heap, p.data(), p.size());
    auto r = rtp::Packet::parse(util::ConstBinaryView(heap, p.size()), m, st);
    REQUIRE(r.is_err());
}''', "a CSRC together with an extension that is cut short", "the extension range lies outside the packet and the payload size wraps", RTPERR, "-DNDEBUG -include cstring")
bug("stun-cookie-indication", "C09", [("src/stun/stun_message.cpp", "cls.value() == Class::REQUEST && magic_cookie", "cls.value() <= Class::INDICATION && magic_cookie")], r'''
#include <vector>
#include "stun/stun_message.hpp"
using namespace freewebrtc;
int main() {
    std::vector<uint8_t> p = {0x00, 0x11, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16};
    stun::ParseStat st;
    REQUIRE(stun::Message::parse(util::ConstBinaryView(p), st).is_err());
    p[1] = 1;
    auto r = stun::Message::parse(util::ConstBinaryView(p), st);
    REQUIRE(r.is_ok() && r.unwrap().is_rfc3489);
}''', "an indication without the magic cookie", "it is accepted as an RFC 3489 message", "ALL")
bug("fingerprint-skipped-rfc3489", "C13", [("src/stun/stun_message.cpp", "            // check fingerprint if among attributes\n", "            // check fingerprint if among attributes (not defined for RFC3489)\n            if (is_rfc3489) {\n                return success();\n            }\n")], r'''
#include <vector>
#include "stun/stun_message.hpp"
using namespace freewebrtc;
int main() {
    std::vector<uint8_t> p = {0x00, 0x01, 0, 8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 0x80, 0x28, 0, 4, 1, 2, 3, 4};
    stun::ParseStat st;
    REQUIRE(stun::Message::parse(util::ConstBinaryView(p), st).is_err());
    REQUIRE(st.invalid_fingerprint.count() == 1);
}''', "a request without magic cookie that carries FINGERPRINT", "a wrong FINGERPRINT is accepted", "ALL")
bug("crc-table-entry", "C14", [("src/stun/details/stun_fingerprint.cpp", "0xcad7", "0xcad7")] if False else [("src/stun/details/stun_fingerprint.cpp", "0x5d681b02", "0x5d681b82")], r'''
#include <vector>
#include <cstdint>
#include "stun/details/stun_fingerprint.hpp"
using namespace freewebrtc;
static uint32_t crcref(const std::vector<uint8_t>& v) { uint32_t c = ~0u; for (auto b : v) { c ^= b; for (int i = 0; i < 8; ++i) c = c & 1 ? (c >> 1) ^ 0xEDB88320u : c >> 1; } return ~c; }
int main() { for (int a = 0; a < 256; ++a) { std::vector<uint8_t> v{(uint8_t)a, 1, 2}; REQUIRE(stun::crc32(util::ConstBinaryView(v)) == crcref(v)); } }
''', "a message in which one particular table index occurs", "the checksum is not the standard CRC-32", "src/stun/details/stun_fingerprint.cpp")
KEYS = r'''
#include <vector>
#include <cstring>
#include "stun/stun_message.hpp"
#include "stun/stun_password.hpp"
#include "crypto/openssl/openssl_hash.hpp"
#include <openssl/hmac.h>
using namespace freewebrtc;
static std::vector<uint8_t> hm(const std::string& key, const std::vector<uint8_t>& d) { unsigned n = 0; std::vector<uint8_t> o(20); HMAC(EVP_sha1(), key.data(), key.size(), d.data(), d.size(), o.data(), &n); return o; }
'''
bug("integrity-length-high-byte", "C18", [("src/stun/stun_message.cpp", "            std::array<uint8_t, 4> header = {\n                data.data()[0],\n                data.data()[1],\n                uint8_t((d.integrity_message_len >> 8) & 0xFF),", "            std::array<uint8_t, 4> header = {\n                data.data()[0],\n                data.data()[1],\n                data.data()[2],")], KEYS + r'''
int main() {
    // 228 bytes of SOFTWARE, MESSAGE-INTEGRITY ending at 252 + 4..., FINGERPRINT moves the length over 255
    for (unsigned n : {212u, 216u, 220u, 224u, 228u, 232u, 400u}) {
        auto pw = stun::Password::short_term(precis::OpaqueString{"pass"}, crypto::openssl::sha1).unwrap();
        stun::IntegrityData id{pw, crypto::openssl::sha1};
        uint8_t tid[12] = {1, 2, 3};
        stun::AttributeSet as; as.emplace(stun::Attribute::create(stun::SoftwareAttribute{std::string(n, 'a')})); as.emplace(stun::Attribute::create(stun::FingerprintAttribute{0}));
        stun::Message m{stun::Header{stun::Class::request(), stun::Method::binding(), stun::TransactionId(util::ConstBinaryView(tid, 12))}, std::move(as), stun::IsRFC3489{false}, none()};
        auto bytes = m.build(id).unwrap();
        stun::ParseStat st; auto p = stun::Message::parse(util::ConstBinaryView(bytes), st); REQUIRE(p.is_ok());
        auto v = p.unwrap().is_valid(util::ConstBinaryView(bytes), id); REQUIRE(v.is_ok() && v.unwrap().is_some() && v.unwrap().unwrap());
    }
}''', "FINGERPRINT after MESSAGE-INTEGRITY takes the message length across a multiple of 256", "a correctly signed message does not validate", "ALL")
bug("hmac-64-byte-key", "C19", [("src/crypto/crypto_hmac.hpp", "    if (view.size() > B) {", "    if (view.size() >= B) {")], KEYS + r'''
int main() {
    for (unsigned n : {1u, 20u, 63u, 64u, 65u, 100u}) {
        std::string k(n, 'k'); std::vector<uint8_t> d{1, 2, 3};
        auto kv = util::ConstBinaryView(k.data(), k.size());
        auto o = crypto::hmac::OPadKey::from_key(kv, crypto::openssl::sha1).unwrap(); auto i = crypto::hmac::IPadKey::from_key(kv, crypto::openssl::sha1).unwrap();
        auto r = crypto::hmac::digest({util::ConstBinaryView(d)}, o, i, crypto::SHA1Hash::Func(crypto::openssl::sha1)).unwrap();
        auto e = hm(k, d); auto v = r.value.view(); REQUIRE(v.size() == 20 && memcmp(v.data(), e.data(), 20) == 0);
    }
}''', "a key of exactly one hash block (64 bytes)", "the key is hashed although it must be used as it is", "ALL")
bug("openssl-final-unchecked", "C20", [("src/crypto/openssl/openssl_hash.cpp", "if (EVP_DigestFinal_ex(m_ctx.get(), v.data(), NULL) != 1) {", "if (EVP_DigestFinal_ex(m_ctx.get(), v.data(), NULL) < 0) {")], r'''
#include <vector>
#include "crypto/openssl/openssl_hash.hpp"
#include <openssl/evp.h>
static bool fail = false;
extern "C" int EVP_DigestFinal_ex(EVP_MD_CTX* c, unsigned char* md, unsigned int* s) { return fail ? 0 : EVP_DigestFinal(c, md, s); }
using namespace freewebrtc;
int main() { std::vector<uint8_t> d{1}; REQUIRE(crypto::openssl::sha1({util::ConstBinaryView(d)}).is_ok()); fail = true; REQUIRE(crypto::openssl::sha1({util::ConstBinaryView(d)}).is_err()); }
''', "the last step of the crypto library fails", "an unspecified value is returned as the digest", "src/crypto/openssl/openssl_hash.cpp src/crypto/openssl/openssl_error.cpp")
bug("xor-v6-last-byte", "C21", [("src/stun/stun_address.cpp", "                    for (size_t i = 0; i < tidv.size() && i < vv.size() - 4; ++i) {\n                        holder[i + 4]", "                    for (size_t i = 0; i < tidv.size() && i + 5 < vv.size(); ++i) {\n                        holder[i + 4]"), ("src/stun/stun_address.cpp", "                for (size_t i = 0; i < tidv.size() && i < vv.size() - 4; ++i) {\n                    vv[i + 4]", "                for (size_t i = 0; i < tidv.size() && i + 5 < vv.size(); ++i) {\n                    vv[i + 4]")], r'''
#include <vector>
#include <cstring>
#include "stun/stun_address.hpp"
#include "stun/stun_transaction_id.hpp"
using namespace freewebrtc;
int main() {
    uint8_t tid[12]; for (int i = 0; i < 12; ++i) tid[i] = 0xF0 + i;
    uint8_t a[16]; for (int i = 0; i < 16; ++i) a[i] = i;
    stun::TransactionId t(util::ConstBinaryView(tid, 12));
    auto addr = net::ip::Address::move_from_v6(net::ip::AddressV6::from_view(util::ConstBinaryView(a, 16)).unwrap());
    auto x = stun::XoredAddress::from_address(addr, t);
    auto v = x.view(); for (int i = 4; i < 16; ++i) REQUIRE(v.data()[i] == (a[i] ^ tid[i - 4]));
    REQUIRE(x.to_address(t) == addr);
}''', "an IPv6 address; encoder and decoder leave out the same byte", "the last byte is not XORed with the transaction id, other implementations decode another address", "ALL")
bug("unknown-attributes-count-byte", "C12", [("src/stun/stun_attribute.cpp", "    unsigned num = vv.size() / 2;", "    const uint8_t num = vv.size() / 2;"), ("src/stun/stun_attribute.cpp", "    for (unsigned i = 0; i < num; ++i) {\n        attr.types", "    for (uint8_t i = 0; i < num; ++i) {\n        attr.types")], r'''
#include <vector>
#include "stun/stun_attribute.hpp"
#include "stun/stun_parse_stat.hpp"
using namespace freewebrtc;
int main() {
    for (unsigned n : {0u, 1u, 255u, 256u, 300u}) { std::vector<uint8_t> v(2 * n, 0x7f); stun::ParseStat st;
      auto r = stun::UnknownAttributesAttribute::parse(util::ConstBinaryView(v.data(), v.size()), st); REQUIRE(r.is_ok() && r.unwrap().types.size() == n); }
}''', "a list of 256 or more types", "the list of types is cut", "ALL")
bug("error-code-number-mask", "C12", [("src/stun/stun_attribute.cpp", "100 + (first_word & 0xFF)", "100 + (first_word & 0x7F)")], r'''
#include <vector>
#include "stun/stun_attribute.hpp"
#include "stun/stun_parse_stat.hpp"
using namespace freewebrtc;
int main() { std::vector<uint8_t> v{0, 0, 4, 200}; stun::ParseStat st; auto r = stun::ErrorCodeAttribute::parse(util::ConstBinaryView(v), st); REQUIRE(r.is_ok() && r.unwrap().code == 600); }
''', "a number field above 127", "the code reported is not class*100 + number", "ALL")
bug("unknown-attr-padding", "C17", [("src/stun/stun_attribute_set.cpp", "            if ((view.size() & 0x3) != 0) {\n                const size_t padding_size = 4 - (view.size() % 4);", "            if (const size_t padding_size = (~view.size() + 1) & 0x3; padding_size != 0 && view.size() < 764) {")], r'''
#include <vector>
#include "stun/stun_message.hpp"
using namespace freewebrtc;
int main() {
    for (unsigned n : {0u, 1u, 3u, 4u, 5u, 763u, 765u, 1001u}) {
        uint8_t tid[12] = {1, 2, 3}; stun::AttributeSet as; as.emplace(stun::Attribute::create(stun::SoftwareAttribute{std::string(n, 'a')}));
        stun::Message m{stun::Header{stun::Class::request(), stun::Method::binding(), stun::TransactionId(util::ConstBinaryView(tid, 12))}, std::move(as), stun::IsRFC3489{false}, none()};
        auto b = m.build(none()).unwrap(); REQUIRE(b.size() % 4 == 0);
        stun::ParseStat st; REQUIRE(stun::Message::parse(util::ConstBinaryView(b), st).is_ok());
    }
}''', "an attribute of more than 763 bytes whose size is no multiple of 4", "no padding is added and the message cannot be parsed", "ALL")
bug("use-candidate-first-tie-breaker", "C43", [("src/stun/stun_attribute_set.cpp", "AttributeType::from_uint16(attr_registry::ICE_CONTROLLED)); it != m_map.end()) {\n        return some_ref(it->second.as<IceControlledAttribute>()->tiebreaker);", "AttributeType::from_uint16(attr_registry::ICE_CONTROLLED)); it != m_map.end() && !ice_controlling().is_some()) {\n        return some_ref(it->second.as<IceControlledAttribute>()->tiebreaker);")], r'''
#include "stun/stun_attribute_set.hpp"
using namespace freewebrtc;
int main() { stun::AttributeSet s; s.emplace(stun::Attribute::create(stun::IceControlledAttribute{5})); REQUIRE(s.ice_controlled().is_some()); s.emplace(stun::Attribute::create(stun::IceControllingAttribute{6})); REQUIRE(s.ice_controlled().is_some() && s.ice_controlled().unwrap().get() == 5); }
''', "both ICE role attributes in one set", "an attribute that is present is not reported", "ALL")
