C = "src/stun/stun_client_udp.cpp"; R = "src/stun/details/stun_client_udp_rto.cpp"; S = "src/stun/stun_server_stateless.cpp"; M = "src/stun/stun_message.cpp"; A = "src/stun/stun_attribute.cpp"; L = "src/util/util_intrusive_list.hpp"
MSG = r'''
#include <vector>
#include "stun/stun_message.hpp"
#include "stun/stun_attribute.hpp"
#include "stun/details/stun_fingerprint.hpp"
#include "crypto/openssl/openssl_hash.hpp"
using namespace freewebrtc;
using namespace freewebrtc::stun;
using B = std::vector<uint8_t>;
using View = util::ConstBinaryView;
static B header(uint16_t type, size_t len) { B b{uint8_t(type >> 8), uint8_t(type), uint8_t(len >> 8), uint8_t(len), 0x21, 0x12, 0xA4, 0x42, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}; return b; }
static void add(B& b, B x) { b.insert(b.end(), x.begin(), x.end()); }
static void put_len(B& b, size_t n) { b[2] = n >> 8; b[3] = n; }
static void fingerprint(B& b, size_t extra = 0) { put_len(b, b.size() - 20 + 8 + extra); uint32_t c = stun::crc32(View(b)) ^ 0x5354554e; add(b, {0x80, 0x28, 0, 4, uint8_t(c >> 24), uint8_t(c >> 16), uint8_t(c >> 8), uint8_t(c)}); }
static ParseStat st;
'''
CL = MSG + r'''
#include "stun/stun_client_udp.hpp"
using Client = ClientUDP;
using Time = freewebrtc::clock::Timepoint; using us = std::chrono::microseconds;
struct Rnd { uint32_t v = 1; uint32_t operator()() { return v++; } };
static net::ip::Address ip(uint8_t n) { uint8_t b[4] = {10, 0, 0, n}; return net::ip::Address::move_from_v4(net::ip::AddressV4::from_view(View(b, 4)).unwrap()); }
static Client::Request req(uint8_t to, bool auth = false) {
    Client::Request q{net::Path{ip(1), ip(to)}, {}, {}, none()};
    if (auth) q.maybe_auth = Client::Auth{precis::OpaqueString{std::string("u")}, IntegrityData{Password::short_term(precis::OpaqueString{std::string("pw")}, crypto::openssl::sha1).unwrap(), crypto::openssl::sha1}};
    return q;
}
static TransactionId id_of(const Client::SendData& s) { return TransactionId(View(s.message_view.begin() + 8, 12)); }
static Message answer(const TransactionId& id, Class c, AttributeSet::AttrVec&& v) { return Message{Header{c, Method::binding(), id}, AttributeSet::create(std::move(v)), IsRFC3489{false}, none()}; }
static Message good(const TransactionId& id) { AttributeSet::AttrVec v; v.emplace_back(XorMappedAddressAttribute{XoredAddress::from_address(ip(9), id), net::Port::from_uint16(99)}); return answer(id, Class::success_response(), std::move(v)); }
static Message bad(const TransactionId& id, unsigned code) { AttributeSet::AttrVec v; v.emplace_back(ErrorCodeAttribute{code, none()}); return answer(id, Class::error_response(), std::move(v)); }
template <typename T> static T take(Client::Effect e) { REQUIRE(std::holds_alternative<T>(e)); return std::get<T>(e); }
'''

bug("mapped-address-of-another-request", "C26", [(C, "xor_mapped.addr.to_address(msg.header.transaction_id)", "xor_mapped.addr.to_address(m_tmap.begin()->second.tid)")], CL + r'''
static net::ip::Address ip6() { uint8_t b[16] = {0x20, 1, 0xd, 0xb8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 7}; return net::ip::Address::move_from_v6(net::ip::AddressV6::from_view(View(b, 16)).unwrap()); }
int main() {
    for (int first = 0; first < 2; ++first) {
        Client::Settings s; Client c(s); Rnd r; Time now = Time::epoch();
        (void)c.create(r, now, req(2)).unwrap(); (void)c.create(r, now, req(3)).unwrap();
        auto a = id_of(take<Client::SendData>(c.next(now))), b = id_of(take<Client::SendData>(c.next(now)));
        auto id = first ? a : b;
        AttributeSet::AttrVec v; v.emplace_back(XorMappedAddressAttribute{XoredAddress::from_address(ip6(), id), net::Port::from_uint16(99)});
        auto w = answer(id, Class::success_response(), std::move(v)).build(none()).unwrap();
        REQUIRE(c.response(now, View(w)).is_ok());
        auto ok = take<Client::TransactionOk>(c.next(now)); REQUIRE(ok.result.address == ip6());
    }
}''', "two requests pending, one answered with an IPv6 address", "the address is decoded with the transaction id of another request")
bug("third-server-error-late", "C27", [(C, "            m_maybe_next = now.advance(timeout);", "            m_maybe_next = now.advance(m_5xx_count > 2 ? timeout * 2 : timeout);")], CL + r'''
int main() {
    Client::Settings s; auto& d = std::get<Client::Settings::RetransmitDefault>(s.retransmit); d.server_error_max_retransmits = 5; d.server_error_timeout = us(1000000);
    Client c(s); Rnd r; Time now = Time::epoch();
    (void)c.create(r, now, req(2)).unwrap();
    auto id = id_of(take<Client::SendData>(c.next(now)));
    for (int i = 0; i < 4; ++i) {
        auto w = bad(id, 500).build(none()).unwrap();
        REQUIRE(c.response(now, View(w)).is_ok());
        now = now.advance(us(1000000));
        take<Client::SendData>(c.next(now));
    }
}''', "a third 5xx answer to one request", "the request is sent again later than configured")
bug("wrongly-signed-alternate", "C25", [(C, "                            if (!is_valid) {", "                            if (!is_valid && !msg.is_alternate_server()) {")], CL + r'''
int main() {
    Client::Settings s; Client c(s); Rnd r; Time now = Time::epoch();
    (void)c.create(r, now, req(2, true)).unwrap();
    auto id = id_of(take<Client::SendData>(c.next(now)));
    AttributeSet::AttrVec v; v.emplace_back(ErrorCodeAttribute{300, none()}); v.emplace_back(AlternateServerAttribute{ip(9), net::Port::from_uint16(99)});
    auto w = answer(id, Class::error_response(), std::move(v)).build(IntegrityData{Password::short_term(precis::OpaqueString{std::string("other")}, crypto::openssl::sha1).unwrap(), crypto::openssl::sha1}).unwrap();
    (void)c.response(now, View(w));
    take<Client::Sleep>(c.next(now));
}''', "a 300 answer with MESSAGE-INTEGRITY under other credentials", "anyone can redirect a client that uses credentials")
bug("label-over-64", "C34", [("src/net/net_fqdn.cpp", "    while (pos < v.size()) {", "    while (pos < v.size() && pos < 64) {")], r'''
#include <string>
#include "net/net_fqdn.hpp"
using namespace freewebrtc;
int main() {
    for (size_t n = 1; n < 100; ++n) { std::string t = "a." + std::string(n, 'x') + ".b"; REQUIRE(net::Fqdn::from_string(t).is_ok()); REQUIRE(net::Fqdn::parse(t).unwrap().rest.empty()); }
}''', "a label longer than 64 characters", "the name is cut in the middle of the label")
bug("address-with-space-after", "C35", [("src/net/ip/ip_address.cpp", "    std::string copy(v.begin(), v.end());", "    std::string copy(v.begin(), v.end());\n    if (copy.size() > 45 && copy.back() == ' ') {\n        copy.pop_back();\n    }")], r'''
#include <string>
#include "net/ip/ip_address.hpp"
using namespace freewebrtc;
int main() {
    for (std::string t : {"ffff:ffff:ffff:ffff:ffff:ffff:255.255.255.255", "::1", "1.2.3.4", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff"}) {
        REQUIRE(net::ip::Address::from_string(t).is_ok());
        REQUIRE(net::ip::Address::from_string(t + " ").is_err());
    }
}''', "an address of the greatest length followed by a space", "text that is not an address is accepted")
bug("no-users-bad-request", "C22", [(S, "            return R{Respond{create_error(msg, ErrorCodeAttribute::Code::Unauthorized), std::move(msg), none()}};\n        }\n        // Using", "            return R{Respond{create_error(msg, m_users.empty() ? ErrorCodeAttribute::Code::BadRequest : ErrorCodeAttribute::Code::Unauthorized), std::move(msg), none()}};\n        }\n        // Using")], CL + r'''
#include "stun/stun_server_stateless.hpp"
int main() {
    for (int users = 0; users < 2; ++users) {
        server::Stateless s(crypto::openssl::sha1, none());
        if (users) s.add_user(precis::OpaqueString{std::string("other")}, Password::short_term(precis::OpaqueString{std::string("pw")}, crypto::openssl::sha1).unwrap());
        AttributeSet::AttrVec v; v.emplace_back(UsernameAttribute{precis::OpaqueString{std::string("u")}});
        B id{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12};
        auto w = answer(TransactionId(View(id)), Class::request(), std::move(v)).build(IntegrityData{Password::short_term(precis::OpaqueString{std::string("pw")}, crypto::openssl::sha1).unwrap(), crypto::openssl::sha1}).unwrap();
        auto e = s.process(net::UdpEndpoint{ip(1), net::Port::from_uint16(5)}, View(w));
        REQUIRE(std::holds_alternative<server::Stateless::Respond>(e));
        REQUIRE(std::get<server::Stateless::Respond>(e).response.attribute_set.error_code().unwrap().get().code == 401);
    }
}''', "a server without users", "a request with credentials is answered 400 instead of 401")
