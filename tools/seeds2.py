C = "src/stun/stun_client_udp.cpp"; R = "src/stun/details/stun_client_udp_rto.cpp"; S = "src/stun/stun_server_stateless.cpp"; M = "src/stun/stun_message.cpp"; A = "src/stun/stun_attribute.cpp"; L = "src/util/util_intrusive_list.hpp"
MSG = r'''
#include <vector>
#include "stun/stun_message.hpp"
#include "stun/stun_attribute.hpp"
#include "stun/details/stun_fingerprint.hpp"
#include "crypto/openssl/openssl_hash.hpp"
using namespace freewebrtc;
using namespace freewebrtc::stun;
using B = std::vector<uint8_t>;
using View = util::ConstBinaryView;
static B header(uint16_t type, size_t len) { B b{uint8_t(type >> 8), uint8_t(type), uint8_t(len >> 8), uint8_t(len), 0x21, 0x12, 0xA4, 0x42, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}; return b; }
static void add(B& b, B x) { b.insert(b.end(), x.begin(), x.end()); }
static void put_len(B& b, size_t n) { b[2] = n >> 8; b[3] = n; }
static void fingerprint(B& b, size_t extra = 0) { put_len(b, b.size() - 20 + 8 + extra); uint32_t c = stun::crc32(View(b)) ^ 0x5354554e; add(b, {0x80, 0x28, 0, 4, uint8_t(c >> 24), uint8_t(c >> 16), uint8_t(c >> 8), uint8_t(c)}); }
static ParseStat st;
'''
bug("fingerprint-before-empty-attribute", "C11", [(M, "if (attr_offset + raw_attr.aligned_length() < vv.size()) {", "if (attr_offset + raw_attr.aligned_length() + details::STUN_ATTR_HEADER_SIZE < vv.size()) {")], MSG + r'''
int main() {
    B m = header(1, 0); fingerprint(m); REQUIRE(Message::parse(View(m), st).is_ok());
    B n = header(1, 0); fingerprint(n, 4); add(n, {0x80, 0x77, 0, 0});
    REQUIRE(Message::parse(View(n), st).is_err());
}''', "an attribute without value after FINGERPRINT", "FINGERPRINT is accepted although it is not the last attribute")
bug("software-after-integrity", "C11", [(M, "            if (!maybe_integrity_interval.is_some()) {\n                // RFC5389:", "            if (!maybe_integrity_interval.is_some() || raw_attr.type() == attr_registry::SOFTWARE) {\n                // RFC5389:")], MSG + r'''
int main() {
    B m = header(1, 24 + 8); add(m, {0, 8, 0, 20}); add(m, B(20, 7)); add(m, {0x80, 0x22, 0, 4, 'a', 'b', 'c', 'd'});
    auto r = Message::parse(View(m), st);
    REQUIRE(r.is_ok() && r.unwrap().attribute_set.software().is_none());
}''', "a SOFTWARE attribute behind MESSAGE-INTEGRITY", "an attribute that is not covered by the digest is reported")
bug("second-integrity-counts", "C18", [(M, "            if (!maybe_integrity_interval.is_some()) {\n                raw_attrs.emplace_back(raw_attr);\n                maybe_integrity_interval = util::ConstBinaryView::Interval{0, attr_offset};\n            }\n", "            if (!maybe_integrity_interval.is_some()) {\n                raw_attrs.emplace_back(raw_attr);\n            }\n            maybe_integrity_interval = util::ConstBinaryView::Interval{0, attr_offset};\n")], MSG + r'''
int main() {
    auto key = Password::short_term(precis::OpaqueString{std::string("pw")}, crypto::openssl::sha1).unwrap();
    Message q{Header{Class::request(), Method::binding(), TransactionId(View(B(12, 5)))}, AttributeSet::create({}), IsRFC3489{false}, none()};
    auto w = q.build(IntegrityData{key, crypto::openssl::sha1}).unwrap();
    B m(w.begin(), w.end()); add(m, {0, 8, 0, 20}); add(m, B(20, 7)); put_len(m, m.size() - 20);
    auto r = Message::parse(View(m), st);
    REQUIRE(r.is_ok());
    auto v = r.unwrap().is_valid(View(m), IntegrityData{key, crypto::openssl::sha1});
    REQUIRE(v.is_ok() && v.unwrap().is_some() && v.unwrap().unwrap());
}''', "a second MESSAGE-INTEGRITY attribute in a message", "the digest of the first one is checked against the bytes before the second one, so an authentic message is refused")
CL = MSG + r'''
#include "stun/stun_client_udp.hpp"
using Client = ClientUDP;
using Time = freewebrtc::clock::Timepoint; using us = std::chrono::microseconds;
struct Rnd { uint32_t v = 1; uint32_t operator()() { return v++; } };
static net::ip::Address ip(uint8_t n) { uint8_t b[4] = {10, 0, 0, n}; return net::ip::Address::move_from_v4(net::ip::AddressV4::from_view(View(b, 4)).unwrap()); }
static Client::Request req(uint8_t to, bool auth = false) {
    Client::Request q{net::Path{ip(1), ip(to)}, {}, {}, none()};
    if (auth) q.maybe_auth = Client::Auth{precis::OpaqueString{std::string("u")}, IntegrityData{Password::short_term(precis::OpaqueString{std::string("pw")}, crypto::openssl::sha1).unwrap(), crypto::openssl::sha1}};
    return q;
}
static TransactionId id_of(const Client::SendData& s) { return TransactionId(View(s.message_view.begin() + 8, 12)); }
static Message answer(const TransactionId& id, Class c, AttributeSet::AttrVec&& v) { return Message{Header{c, Method::binding(), id}, AttributeSet::create(std::move(v)), IsRFC3489{false}, none()}; }
static Message good(const TransactionId& id) { AttributeSet::AttrVec v; v.emplace_back(XorMappedAddressAttribute{XoredAddress::from_address(ip(9), id), net::Port::from_uint16(99)}); return answer(id, Class::success_response(), std::move(v)); }
static Message bad(const TransactionId& id, unsigned code) { AttributeSet::AttrVec v; v.emplace_back(ErrorCodeAttribute{code, none()}); return answer(id, Class::error_response(), std::move(v)); }
template <typename T> static T take(Client::Effect e) { REQUIRE(std::holds_alternative<T>(e)); return std::get<T>(e); }
'''
bug("rtt-of-resent-signed-request", "C26", [(C, "    if (t.rtx_count == 0) {\n", "    if (t.rtx_count == 0 || (t.maybe_auth.is_some() && t.rtx_count == 1)) {\n")], CL + r'''
int main() {
    Client::Settings s; Client c(s); Rnd r; Time now = Time::epoch();
    (void)c.create(r, now, req(2, true)).unwrap();
    auto d = take<Client::SendData>(c.next(now));
    auto z = take<Client::Sleep>(c.next(now)); now = now.advance(z.sleep);
    take<Client::SendData>(c.next(now));
    auto w = good(id_of(d)).build(IntegrityData{Password::short_term(precis::OpaqueString{std::string("pw")}, crypto::openssl::sha1).unwrap(), crypto::openssl::sha1}).unwrap();
    REQUIRE(c.response(now, View(w)).is_ok());
    REQUIRE(take<Client::TransactionOk>(c.next(now)).round_trip.is_none());
}''', "a request with credentials that was retransmitted before its answer", "the outcome reports a round-trip time that nobody can know")
bug("backoff-of-current-timeout", "C28", [(C, "m_rto_calc->backoff(now, t.path, t.rtx_algo->last_timeout());", "m_rto_calc->backoff(now, t.path, m_rto_calc->rto(t.path) * 2);")], CL + r'''
int main() {
    Client::Settings s; Client c(s); Rnd r; Time now = Time::epoch();
    (void)c.create(r, now, req(2)).unwrap();
    auto d = take<Client::SendData>(c.next(now));
    us last{0};
    for (int i = 0; i < 3; ++i) { auto z = take<Client::Sleep>(c.next(now)); last = std::chrono::duration_cast<us>(z.sleep); now = now.advance(z.sleep); take<Client::SendData>(c.next(now)); }
    auto w = good(id_of(d)).build(none()).unwrap();
    REQUIRE(c.response(now, View(w)).is_ok());
    take<Client::TransactionOk>(c.next(now));
    (void)c.create(r, now, req(2)).unwrap();
    take<Client::SendData>(c.next(now));
    auto z = take<Client::Sleep>(c.next(now));
    // the next exchange starts with the backed-off timeout that was in use
    REQUIRE(std::chrono::duration_cast<us>(z.sleep) == last * 2);
}''', "an exchange answered after at least two retransmissions, then another one on the path", "the next exchange starts with a too short timeout")
bug("request-count-includes-5xx", "C27", [(C, "    if (m_rtx_count + 1 >= m_settings.request_count + m_5xx_count) {", "    if (m_rtx_count + 1 >= m_settings.request_count + (m_5xx_count > 1 ? 1 : 0)) {")], CL + r'''
static int sends_after(unsigned errors) {
    using namespace std::chrono_literals;
    Client::Settings s; Client::Settings::RetransmitDefault rd; rd.request_count = 3; rd.server_error_timeout = 1s; s.retransmit = rd;
    Client c(s); Rnd r; Time now = Time::epoch();
    (void)c.create(r, now, req(2)).unwrap();
    auto d = take<Client::SendData>(c.next(now)); int sends = 1;
    for (int i = 0; i < 40; ++i) {
        if (errors) { auto w = bad(id_of(d), 500).build(none()).unwrap(); REQUIRE(c.response(now, View(w)).is_ok()); --errors; }
        auto e = c.next(now);
        if (auto* z = std::get_if<Client::Sleep>(&e)) { now = now.advance(z->sleep); }
        else if (std::holds_alternative<Client::SendData>(e)) ++sends;
        else { REQUIRE(std::holds_alternative<Client::TransactionFailed>(e)); break; }
    }
    return sends;
}
int main() {
    REQUIRE(sends_after(0) == 3);
    REQUIRE(sends_after(1) == 4);       // the resend on 5xx does not count
    REQUIRE(sends_after(2) == 5);
}''', "two 5xx answers, then silence", "the request is given up before it was sent the configured number of times")
bug("alternate-for-any-error", "C25", [(C, "if (!m_settings.allow_unauthenticated_alternate || !msg.is_alternate_server()) {", "if (!m_settings.allow_unauthenticated_alternate || msg.header.cls != Class::error_response()) {")], CL + r'''
int main() {
    Client::Settings s; s.allow_unauthenticated_alternate = true; Client c(s); Rnd r; Time now = Time::epoch();
    (void)c.create(r, now, req(2, true)).unwrap();
    auto d = take<Client::SendData>(c.next(now));
    auto w = bad(id_of(d), 400).build(none()).unwrap();
    (void)c.response(now, View(w));
    take<Client::Sleep>(c.next(now));       // still pending
}''', "unsigned 300 responses allowed, and an unsigned error response with another code", "an attacker without the password ends a transaction with credentials")
bug("rto-history-not-renewed", "C29", [(R, "    data.last_update = now;\n    m_timeline.push_back(data);\n    data.backoff = backoff;", "    data.last_update = now;\n    if (!data.link.in_list()) {\n        m_timeline.push_back(data);\n    }\n    data.backoff = backoff;")], r'''
#include "stun/details/stun_client_udp_rto.hpp"
using namespace freewebrtc; using namespace freewebrtc::stun;
using Time = freewebrtc::clock::Timepoint; using namespace std::chrono_literals;
static net::ip::Address ip(uint8_t n) { uint8_t b[4] = {10, 0, 0, n}; return net::ip::Address::move_from_v4(net::ip::AddressV4::from_view(util::ConstBinaryView(b, 4)).unwrap()); }
int main() {
    client_udp::Settings::RtoCalculatorSettings s; s.initial_rto = 500ms; s.history_duration = 10s;
    details::ClientUDPRtoCalculator r(s);
    net::Path a{ip(1), ip(2)}, b{ip(1), ip(3)}, c{ip(1), ip(4)};
    auto at = [](auto d) { return Time::epoch().advance(d); };
    r.backoff(at(0s), a, 2s);
    r.new_rtt(at(1s), b, 700ms);
    r.backoff(at(9s), a, 4s);
    r.new_rtt(at(12s), c, 1s);
    // b was last updated 11 s ago and is forgotten; a 3 s ago
    REQUIRE(r.rto(b) == 500ms);
    REQUIRE(r.rto(a) == 4s);
}''', "a path whose timeout is backed off twice, with another path updated in between", "histories that have expired are kept while an older but renewed one is in front of them")
bug("list-assign-from-empty", "C36", [(L, "    clear();\n    if (other.empty()) {\n        return *this;\n    }\n    do_move(other);", "    if (other.empty()) {\n        return *this;\n    }\n    clear();\n    do_move(other);")], r'''
#include "util/util_intrusive_list.hpp"
using namespace freewebrtc::util;
struct Item { int v; IntrusiveList<Item>::Link link; explicit Item(int i) : v(i), link(*this) {} };
int main() {
    Item a(1), b(2);
    IntrusiveList<Item> x(&Item::link), y(&Item::link);
    x.push_back(a); x.push_back(b);
    x = std::move(y);
    REQUIRE(x.empty() && !a.link.in_list() && !b.link.in_list());
}''', "move assignment from an empty list", "the target keeps its elements", "")
bug("marker-with-15-csrc", "C05", [("src/rtp/rtp_packet.cpp", "const MarkerBit marker(second_byte & RTP_MARKER_MASK);", "const MarkerBit marker((second_byte & RTP_MARKER_MASK) && num_cc < RTP_CC_MASK);")], r'''
#include <vector>
#include "rtp/rtp_packet.hpp"
#include "rtp/rtp_payload_map.hpp"
using namespace freewebrtc;
int main() {
    rtp::PayloadMap pm({{rtp::PayloadType::from_uint8(96).unwrap(), {rtp::ClockRate(90000)}}});
    for (int cc = 0; cc < 16; ++cc) {
        std::vector<uint8_t> p{uint8_t(0x80 | cc), 0x80 | 96, 0, 1, 0, 0, 0, 2, 0, 0, 0, 3}; p.resize(12 + 4 * cc);
        rtp::ParseStat st;
        auto r = rtp::Packet::parse(util::ConstBinaryView(p), pm, st);
        REQUIRE(r.is_ok() && r.unwrap().header.marker == rtp::MarkerBit(true));
    }
}''', "a packet with the maximum of 15 contributing sources", "its marker bit is lost", "src/rtp/rtp_packet.cpp src/rtp/rtp_payload_map.cpp src/rtp/rtp_error.cpp")
bug("method-high-bits", "C10", [("src/stun/stun_method.hpp", "const auto m7_11 = (v >> 9);", "const auto m7_11 = (v >> 9) & 0xF;")], MSG + r'''
int main() {
    B m = header(0x2001, 0); auto r = Message::parse(View(m), st);
    REQUIRE(r.is_err() || !(r.unwrap().header.method == Method::binding()));
    if (r.is_ok()) { auto w = r.unwrap().build(none()); REQUIRE(w.is_ok() && w.unwrap()[0] == 0x20 && w.unwrap()[1] == 1); }
}''', "a method with its highest bit set", "the message is taken for one of another method")
bug("username-without-integrity-served", "C22", [(S, "if (maybe_username.is_some() != maybe_integrity.is_some()) {", "if (maybe_username.is_some() < maybe_integrity.is_some()) {")], MSG + r'''
#include "stun/stun_server_stateless.hpp"
int main() {
    server::Stateless s(crypto::openssl::sha1);
    s.add_user(precis::OpaqueString{std::string("user")}, Password::short_term(precis::OpaqueString{std::string("pw")}, crypto::openssl::sha1).unwrap());
    B m = header(1, 8); add(m, {0, 6, 0, 4, 'u', 's', 'e', 'r'});
    uint8_t ip[4] = {10, 0, 0, 1};
    auto r = s.process(net::UdpEndpoint{net::ip::Address::move_from_v4(net::ip::AddressV4::from_view(View(ip, 4)).unwrap()), net::Port::from_uint16(5)}, View(m));
    auto* p = std::get_if<server::Stateless::Respond>(&r);
    REQUIRE(p && p->response.header.cls == Class::error_response());
}''', "a request with USERNAME but no MESSAGE-INTEGRITY", "it is answered with success instead of 400")
bug("xor-address-counted-twice", "C15", [(A, "            stat.error.inc();\n            stat.invalid_ip_address.inc();\n            return err;\n        });\n    return\n        combine([&](XoredAddress&& xaddr,", "            stat.error.inc();\n            stat.invalid_ip_address.inc();\n            stat.invalid_xor_mapped_address.inc();\n            return err;\n        });\n    return\n        combine([&](XoredAddress&& xaddr,")], MSG + r'''
int main() {
    B m = header(0x101, 4 + 12); add(m, {0, 0x20, 0, 12, 0, 1, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8});
    ParseStat s; auto r = Message::parse(View(m), s);
    REQUIRE(r.is_err());
    REQUIRE(s.error.count() == 1 && s.invalid_xor_mapped_address.count() + s.invalid_ip_address.count() == 1);
}''', "an XOR-MAPPED-ADDRESS with more bytes than its family has", "one malformed attribute increments two reason counters")
bug("hash-tail-of-five", "C38", [("src/util/util_hash_murmur.cpp", "case 5: h ^= uint64_t(data2[4]) << 32;", "case 5: h ^= uint64_t(data2[4] & 0x7f) << 32;")], r'''
#include <vector>
#include <set>
#include "util/util_hash_murmur.hpp"
using namespace freewebrtc::util;
int main() {
    // MurmurHash64A of these bytes, seed 0
    const uint8_t a[5] = {1, 2, 3, 4, 0x85}, b[5] = {1, 2, 3, 4, 5};
    REQUIRE(hash::murmur(ConstBinaryView(a, 5), 0) != hash::murmur(ConstBinaryView(b, 5), 0));
}''', "a key whose length modulo 8 is at least 5, with the top bit of that byte set", "the hash is not MurmurHash64A and different keys collide", "src/util/util_hash_murmur.cpp")
bug("label-hyphen-end", "C34", [("src/net/net_fqdn.cpp", "        if (is_letter(c) || is_digit(c)) {\n            last_let_dig = pos;", "        if (is_letter(c) || is_digit(c) || (c == '-' && pos + 1 < v.size() && v[pos + 1] == '.')) {\n            last_let_dig = pos;")], r'''
#include "net/net_fqdn.hpp"
using namespace freewebrtc;
int main() {
    REQUIRE(net::Fqdn::from_string("a-b.example").is_ok());
    REQUIRE(net::Fqdn::from_string("ab-.example").is_err());
}''', "a label that ends with a hyphen, followed by another label", "a name with such a label is accepted", "ALL")
bug("extension-named-rport", "C32", [("src/ice/candidate/ice_candidate_sdp.cpp", 'if (att_name == "raddr") {', 'if (att_name == "raddr" && maybe_rport.is_none()) {')], r'''
#include "ice/candidate/ice_candidate_sdp.hpp"
using namespace freewebrtc;
int main() {
    auto r = ice::candidate::parse_sdp_attr("candidate:1 1 UDP 1 10.0.0.1 5 typ host rport 7 raddr 10.0.0.2");
    REQUIRE(r.is_ok());
    auto* s = std::get_if<ice::candidate::Supported>(&r.unwrap());
    REQUIRE(s && s->candidate.maybe_related_address.is_some() && s->extensions.empty());
}''', "a candidate whose related port precedes the related address", "the related address is taken for an extension", "ALL")
bug("priority-eleven-digits", "C31", [("src/ice/candidate/ice_candidate_priority.cpp", "uint64_t result = 0;", "uint32_t result = 0;")], r'''
#include "ice/candidate/ice_candidate_priority.hpp"
using namespace freewebrtc::ice::candidate;
int main() {
    REQUIRE(Priority::from_string("4294967295").is_ok());
    REQUIRE(Priority::from_string("4294967297").is_err());
    REQUIRE(Priority::from_string("9999999999").is_err());
}''', "a priority of ten digits above 2^32", "it wraps and is accepted with another value", "ALL")
