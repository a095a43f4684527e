exec(open("/verif/tools/seeds3.py").read().split('bug("mapped-address-of-another-request"')[0])
AS = "src/stun/stun_attribute_set.cpp"; SD = "src/ice/candidate/ice_candidate_sdp.cpp"; RTO = R
bug("history-age-from-request", "C29", [(C, "m_rto_calc->new_rtt(now, t.path, rtt);", "m_rto_calc->new_rtt(t.create_time, t.path, rtt);")], CL + r'''
int main() {
    Client::Settings s; s.rto_settings.history_duration = us(1000000);
    Client c(s); Rnd r; Time now = Time::epoch();
    (void)c.create(r, now, req(2)).unwrap();
    auto a = id_of(take<Client::SendData>(c.next(now)));
    now = now.advance(us(400000));
    auto w = good(a).build(none()).unwrap();
    REQUIRE(c.response(now, View(w)).is_ok());
    take<Client::TransactionOk>(c.next(now));
    now = now.advance(us(700000));
    (void)c.create(r, now, req(3)).unwrap();                  // another path
    auto b = id_of(take<Client::SendData>(c.next(now)));
    now = now.advance(us(100000));
    w = good(b).build(none()).unwrap();
    REQUIRE(c.response(now, View(w)).is_ok());
    take<Client::TransactionOk>(c.next(now));
    (void)c.create(r, now, req(2)).unwrap();                  // the first path, 0.8 s after it was heard from
    take<Client::SendData>(c.next(now));
    REQUIRE(take<Client::Sleep>(c.next(now)).sleep == us(1200000));
}''', "a path whose answer took long, and another path heard from later", "what is known of a path is dropped too early")
bug("unknown-attributes-list-of-64", "C12", [(A, "    for (unsigned i = 0; i < num; ++i) {\n        attr.types", "    for (unsigned i = 0; i < num && i < 64; ++i) {\n        attr.types")], MSG + r'''
int main() {
    for (unsigned n : {1u, 64u, 65u, 100u}) {
        B b = header(0x0111, 4 + n * 2 + n % 2 * 2); add(b, {0, 0x0a, uint8_t(n * 2 >> 8), uint8_t(n * 2)});
        for (unsigned i = 0; i < n; ++i) add(b, {0, uint8_t(0x40 + i)});
        if (n % 2) add(b, {0, 0});
        auto m = Message::parse(View(b), st); REQUIRE(m.is_ok());
        auto t = m.unwrap().attribute_set.unknown_attributes().unwrap().get().types;
        REQUIRE(t.size() == n); for (unsigned i = 0; i < n; ++i) REQUIRE(t[i].value() == 0x40 + i);
    }
}''', "an UNKNOWN-ATTRIBUTES attribute with more than 64 types", "the types after the 64th are lost")
bug("second-family-byte", "C13", [("src/stun/details/stun_attr_xor_mapped_addr.cpp", "@", "@")], "", "", "") if 0 else None
bug("extension-values-share", "C32", [(SD, "                .fmap([&](auto&& att_value) {\n                    extensions", "                .fmap([&](auto&& att_value) {\n                    if (!extensions.empty() && extensions.back().att_name == att_name) { return Unit::create(); }\n                    extensions")], r'''
#include "ice/candidate/ice_candidate_sdp.hpp"
using namespace freewebrtc;
int main() {
    auto r = ice::candidate::parse_sdp_attr("candidate:1 1 UDP 2130706431 10.0.1.1 8998 typ host a 1 b 2 a 3 a 4");
    REQUIRE(r.is_ok());
    auto& e = std::get<ice::candidate::Supported>(r.unwrap()).extensions;
    REQUIRE(e.size() == 4 && e[2].att_value == "3" && e[3].att_name == "a" && e[3].att_value == "4");
}''', "the same extension name twice in a row", "the second extension is lost")
bug("build-sorts-unknown", "C17", [(AS, "    for (const auto& unknown: m_unknown) {\n        add_attr", "    for (const auto& unknown: m_unknown) {\n        if (&unknown != &m_unknown.front() && unknown.type == m_unknown.front().type && unknown.data.size() == m_unknown.front().data.size() && unknown.data == m_unknown.front().data) { continue; }\n        add_attr")], MSG + r'''
int main() {
    std::vector<UnknownAttribute> u; B d{1, 2};
    for (int i = 0; i < 3; ++i) u.emplace_back(AttributeType::from_uint16(0x7001), View(d));
    B id{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12};
    Message m{Header{Class::request(), Method::binding(), TransactionId(View(id))}, AttributeSet::create({}, std::move(u)), IsRFC3489{false}, none()};
    auto w = m.build(none()).unwrap();
    REQUIRE(w.size() == 20 + 3 * 8);
}''', "an unknown attribute repeated with the same value", "the repeated attribute is not written")
bug("timer-of-finished-neighbour", "C24", [(C, "        m_tid_to_handle.erase(tid);\n", "        m_tid_to_handle.erase(tid);\n        if (m_tid_timeline.size() > 8) m_tid_timeline.pop();\n")], CL + r'''
int main() {
    Client::Settings s; Client c(s); Rnd r; Time now = Time::epoch();
    TransactionId *ids[12]; 
    for (int i = 0; i < 12; ++i) { (void)c.create(r, now, req(2 + i)).unwrap(); if (!i) now = now.advance(us(1000)); }
    for (int i = 0; i < 12; ++i) ids[i] = new TransactionId(id_of(take<Client::SendData>(c.next(now))));
    for (int i = 1; i < 12; ++i) { auto w = good(*ids[i]).build(none()).unwrap(); REQUIRE(c.response(now, View(w)).is_ok()); take<Client::TransactionOk>(c.next(now)); }
    bool failed = false;
    for (int i = 0; i < 100 && !failed; ++i) { auto e = c.next(now); if (auto *z = std::get_if<Client::Sleep>(&e)) now = now.advance(z->sleep); failed = std::holds_alternative<Client::TransactionFailed>(e); REQUIRE(!std::holds_alternative<Client::Idle>(e)); }
    REQUIRE(failed);
}''', "more than eight timers pending when a transaction finishes", "a transaction is never finished")
bug("user-after-eight", "C22", [(S, "    m_users.emplace(name, password);", "    if (m_users.size() < 8) {\n        m_users.emplace(name, password);\n    }")], CL + r'''
#include "stun/stun_server_stateless.hpp"
int main() {
    server::Stateless s(crypto::openssl::sha1, none());
    auto pw = [](int i) { return Password::short_term(precis::OpaqueString{"pw" + std::to_string(i)}, crypto::openssl::sha1).unwrap(); };
    for (int i = 0; i < 20; ++i) s.add_user(precis::OpaqueString{"u" + std::to_string(i)}, pw(i));
    for (int i = 0; i < 20; ++i) {
        AttributeSet::AttrVec v; v.emplace_back(UsernameAttribute{precis::OpaqueString{"u" + std::to_string(i)}});
        B id{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12};
        auto w = answer(TransactionId(View(id)), Class::request(), std::move(v)).build(IntegrityData{pw(i), crypto::openssl::sha1}).unwrap();
        auto e = s.process(net::UdpEndpoint{ip(1), net::Port::from_uint16(5)}, View(w));
        REQUIRE(std::holds_alternative<server::Stateless::Respond>(e));
        REQUIRE(std::get<server::Stateless::Respond>(e).response.header.cls == Class::success_response());
    }
}''', "more than eight users", "the ninth user is refused")
bug("many-views-digest", "C20", [("src/crypto/openssl/openssl_hash.cpp", "return util::reduce(input.begin(), input.end(), [&]", "return util::reduce(input.begin(), input.size() > 32 ? input.begin() + 32 : input.end(), [&]")], MSG + r'''
int main() {
    B b; for (int i = 0; i < 80; ++i) b.push_back(i);
    auto want = crypto::openssl::sha1({View(b)}).unwrap();
    B x(b);
    auto v = [&](size_t i) { return View(x.data() + i, 1); };
    crypto::SHA1Hash::Input in{v(0),v(1),v(2),v(3),v(4),v(5),v(6),v(7),v(8),v(9),v(10),v(11),v(12),v(13),v(14),v(15),v(16),v(17),v(18),v(19),v(20),v(21),v(22),v(23),v(24),v(25),v(26),v(27),v(28),v(29),v(30),v(31),v(32),View(x.data() + 33, 47)};
    auto got = crypto::openssl::sha1(in).unwrap();
    REQUIRE(got.value() == want.value());
}''', "a digest over more than 32 pieces", "the pieces after the 32nd are left out")
