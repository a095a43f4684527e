// The stateless STUN server: C22 (credentials), C23 (responses).
// @job C22 quick h_server 0..2 0..1 0..1 0..1 0
// @job C22 quick h_server 1..3 1 0..2 2 0
// @job C22 quick h_server 64,65,255,256,300,513 1 0..1 0..1 0 | 0,2 0..1 5,17,40 0..1 0
// @job C22 quick h_server 0..2 0..1 0..1 4 0 | 1000 0..1 0 0,4 0
// @job C22 quick,thorough h_server_order 0..7
// @job C22 thorough h_server 0..5 0..1 0..3 0..3 0
// @job C22 quick,thorough h_server_fault 0..3
// @job C22 quick,thorough h_server_raw 24,28
// @job C22 quick,thorough h_server_history 0..6 0..7
// @job C22 quick,thorough h_server_users 9,17,40
// @job C23 quick h_server 0..2 0..1 0..1 0..1 1
// @job C23 quick h_server 64,65,255,256,300,513 1 0..1 0..1 1 | 0,2 0..1 5,17,40 0..1 1
// @job C23 thorough h_server 0..5 0..1 0..3 0..3 1
// @job C23 quick h_server_raw 0..28/4 | 1,19,21
// @job C23 thorough h_server_raw 0..32 time=2400
// @bound C22, C23: every request with any class, method, transaction id and protocol flavour, with or without USERNAME (up to 3 bytes, and 64, 65, 255, 256, 300, 513 bytes, any content), MESSAGE-INTEGRITY (any digest), up to 2 (also 5, 17, 40) further attributes of any unknown type and FINGERPRINT; two registered users with any names and passwords, or none, or 9, 17, 40; empty names; USERNAME, MESSAGE-INTEGRITY and other attributes repeated or after MESSAGE-INTEGRITY in eight arrangements; any source endpoint; all settings; hash an arbitrary function that may fail at each call. For every pair of messages out of 7 kinds (any ids, digests and endpoints) the second, or the first again, is answered as by a server that never saw the first, also when a user is added in between. Also every byte sequence of up to 28 (quick) / 32 (thorough) bytes
#include "stun_wire.hpp"
#include "stun/stun_server_stateless.hpp"
using namespace freewebrtc;
using namespace ref;
using View = util::ConstBinaryView;
using Server = stun::server::Stateless;

struct User { std::string name, pw; };
struct Scene {
    AnySha1 h;
    crypto::SHA1Hash::Func f = h;
    std::vector<User> users;
    bool fp_setting = true, v6 = false; uint8_t raw[16]; uint16_t port = 0;
    Server server;
    net::Endpoint ep;
    static Maybe<Server::Settings> settings(int mode, bool& fp) { if (mode == 2) { fp = true; return none(); } Server::Settings s; s.use_fingerprint = fp = mode; return s; }
    static net::Endpoint endpoint(bool v6, uint8_t *raw, uint16_t& port, bool tcp) {
        auto a = any_addr(v6, raw, "source"); port = sym_u16("port");
        if (tcp) return net::TcpEndpoint{a, net::Port::from_uint16(port)};
        return net::UdpEndpoint{a, net::Port::from_uint16(port)};
    }
    Scene(int mode, bool v6_) : v6(v6_), server(f, settings(mode, fp_setting)), ep(endpoint(v6_, raw, port, v6_)) {}
    void add(std::string n, std::string pw) {
        server.add_user(precis::OpaqueString{n}, stun::Password::short_term(precis::OpaqueString{pw}, f).unwrap());
        users.push_back({n, pw});
    }
};
static bool has_code(const stun::Message& m, unsigned c) { return m.attribute_set.error_code().is_some() && m.attribute_set.error_code().unwrap().get().code == c; }
// checks that hold of every response
static void check_response(Scene& s, const Server::Respond& r, const Built& q, const AnySha1 *sign, const std::string& pw, const std::vector<uint16_t>& unknown) {
    bool ok = r.response.header.cls == stun::Class::success_response();
    sym_assert(ok || r.response.header.cls == stun::Class::error_response(), "a response class");
    sym_assert(r.response.header.method == q.header().method, "the request's method");
    sym_assert(bytes_of(r.response.header.transaction_id.view()) == Bytes(q.tid, q.tid + q.tidn), "the request's transaction id");
    sym_assert((bool)r.response.is_rfc3489 == q.old, "the request's protocol flavour");
    sym_assert(bytes_of(r.request.header.transaction_id.view()) == Bytes(q.tid, q.tid + q.tidn) && r.request.header.cls == stun::Class::request(), "the request is handed back");
    Built b; b.cls = ok ? 2 : 3; b.method = q.method; b.old = q.old; b.tidn = q.tidn; for (int i = 0; i < 16; ++i) b.tid[i] = q.tid[i];
    Bytes raw(s.raw, s.raw + (s.v6 ? 16 : 4));
    if (ok) {
        Bytes pad = cat({num(COOKIE, 4), Bytes(q.tid, q.tid + 12)});
        Bytes x = raw; for (size_t i = 0; i < x.size(); ++i) x[i] ^= pad[i];
        if (q.old) b.want.push_back({MAPPED, cat({num(s.v6 ? 2 : 1, 2), num(s.port, 2), raw})});
        else b.want.push_back({XMAPPED, cat({num(s.v6 ? 2 : 1, 2), num(s.port ^ (COOKIE >> 16), 2), x})});
        b.fp = s.fp_setting && !q.old;
        sym_assert(r.response.attribute_set.has_fingerprint() == b.fp, "FINGERPRINT exactly when configured and not RFC 3489");
    } else {
        b.fp = r.response.attribute_set.has_fingerprint();
        sym_assert(r.response.attribute_set.error_code().is_some(), "an error response has an ERROR-CODE");
        if (r.response.attribute_set.error_code().is_none()) return;
        const auto& e = r.response.attribute_set.error_code().unwrap().get();
        unsigned c = sym_concretize(e.code);
        std::string reason = e.reason_phrase.value_or(std::string());
        b.want.push_back({ERRCODE, cat({num((c / 100) << 8 | c % 100, 4), Bytes(reason.begin(), reason.end())})});
        if (c == 420) { Bytes l; for (uint16_t t : unknown) { l.push_back(t >> 8); l.push_back(t); } b.want.push_back({UNKNOWN_ATTRS, l}); }
        sym_assert(r.response.attribute_set.xor_mapped().is_none() && r.response.attribute_set.mapped().is_none(), "no address in an error response");
    }
    auto w = r.response.build(r.maybe_integrity);
    sym_assert(w.is_ok(), "the response can be built");
    if (w.is_err()) return;
    check_wire(b, w.unwrap(), sign, Bytes(pw.begin(), pw.end()));
    if (!q.old) {
        stun::ParseStat st;
        sym_assert(stun::Message::parse(View(w.unwrap()), st).is_ok(), "a STUN parser accepts the response");
    }
}
HARNESS(h_server) {
    size_t ulen = sym_param(0); bool user = ulen != 0; if (ulen == 1000) ulen = 0; bool mi = sym_param(1); size_t nunk = sym_param(2); unsigned flags = sym_param(3); bool full = sym_param(4);
    bool fpreq = flags & 1;
    Scene s((flags ^ nunk) % 3, flags & 1);
    if (full) { s.add(any_string(ulen > 60 ? ulen : 2, "user"), ulen > 60 ? any_string(ulen, "pw") : "pw"); }
    else if (!(flags & 4)) { s.add(any_string(ulen || user ? ulen : 1, "user"), any_string(ulen > 60 ? ulen : 2, "pw")); s.add(any_string(2, "user2"), any_string(2, "pw2")); }
    if (s.users.size() > 1) sym_assume(!(s.users[0].name == s.users[1].name));
    Built q;
    q.cls = sym_choice("class", 4); q.method = sym_u16("method"); sym_assume(q.method < 4096);
    q.old = sym_bool("rfc3489"); if (q.old) sym_assume(q.cls == 0);
    q.tidn = q.old ? 16 : 12; sym_bytes(q.tid, 16, "tid");
    if (q.old) sym_assume(be32(q.tid) != COOKIE);
    // the request on the wire
    std::string name = any_string(ulen, "username");
    Bytes body; std::vector<uint16_t> required;
    auto attr = [&](uint16_t t, const Bytes& v) { Bytes x = cat({num(t, 2), num(v.size(), 2), v}); x.resize(padded(x.size())); body.insert(body.end(), x.begin(), x.end()); };
    if (user) attr(USERNAME, Bytes(name.begin(), name.end()));
    for (size_t i = 0; i < nunk; ++i) { uint16_t t = nunk > 4 && i > 0 && i + 1 < nunk ? (i % 3 ? 0x0031 : 0x8031) + i : sym_u16("unknown"); sym_assume(!is_known(t)); if (t < 0x8000) required.push_back(t); attr(t, any_bytes(i, "udata")); }
    Bytes msg = cat({num(msg_type(q.cls, q.method), 2), num(0, 2), q.old ? Bytes() : num(COOKIE, 4), Bytes(q.tid, q.tid + q.tidn), body});
    size_t mi_at = msg.size();
    Bytes digest = any_bytes(20, "digest");
    if (mi) { Bytes x = cat({num(INTEGRITY, 2), num(20, 2), digest}); msg.insert(msg.end(), x.begin(), x.end()); }
    size_t fp_at = msg.size();
    if (fpreq) msg.resize(fp_at + 8);
    put16(msg.data() + 2, msg.size() - 20);
    if (fpreq) { put16(msg.data() + fp_at, FINGERPRINT); put16(msg.data() + fp_at + 2, 4); put32(msg.data() + fp_at + 4, fingerprint(msg.data(), fp_at)); }
    s.h.log->made = 0;
    s.h.log->fail_mask = full ? 0 : (unsigned)sym_choice("fail", 4);
    auto r = s.server.process(s.ep, View(msg));
    if (q.cls != 0 || q.method != 1) {
        sym_assert(std::holds_alternative<Server::Ignore>(r), "only binding requests are answered");
        if (auto *g = std::get_if<Server::Ignore>(&r)) sym_assert(g->message.is_some() && bytes_of(g->message.unwrap().header.transaction_id.view()) == Bytes(q.tid, q.tid + q.tidn), "the ignored message is handed back");
        sym_cover("ignored"); return;
    }
    sym_assert(!std::holds_alternative<Server::Ignore>(r), "a binding request is answered");
    if (s.h.log->failed) { sym_assert(std::holds_alternative<Server::Error>(r), "a hash failure gives an error result"); sym_cover("hash failed"); return; }
    sym_assert(std::holds_alternative<Server::Respond>(r), "a binding request is answered");
    if (!std::holds_alternative<Server::Respond>(r)) return;
    const auto& a = std::get<Server::Respond>(r);
    bool ok = a.response.header.cls == stun::Class::success_response();
    bool bad = user != mi, unk = !required.empty(), unauthorized = false;
    std::string pw;
    if (user && mi) {
        const User *u = nullptr;
        for (auto& x : s.users) if (x.name == name) u = &x;
        if (!u) { unauthorized = true; }
        else {
            pw = u->pw;
            Bytes data(msg.begin(), msg.begin() + mi_at); put16(data.data() + 2, mi_at + 24 - 20);
            Bytes key(pw.begin(), pw.end());
            unauthorized = hmac(s.h, key, data) != digest;
        }
    }
    if (unk || bad || unauthorized) {
        sym_assert(!ok, "no success without valid credentials, nor with unknown attributes");
        if (ok) return;
        sym_assert((bad && has_code(a.response, 400)) || (unauthorized && has_code(a.response, 401)) || (unk && has_code(a.response, 420)), "the error response names a reason that applies");
        if (has_code(a.response, 420)) {
            const auto u = a.response.attribute_set.unknown_attributes();
            sym_assert(u.is_some() && u.unwrap().get().types.size() == required.size(), "UNKNOWN-ATTRIBUTES lists the unknown types");
            if (u.is_some()) for (size_t i = 0; i < required.size() && i < u.unwrap().get().types.size(); ++i) sym_assert(u.unwrap().get().types[i].value() == required[i], "UNKNOWN-ATTRIBUTES lists exactly them");
            sym_cover("420");
        } else if (has_code(a.response, 400)) sym_cover("400"); else sym_cover("401");
        sym_assert(a.maybe_integrity.is_none() , "an error response is not signed");
        if (full) check_response(s, a, q, nullptr, pw, required);
        return;
    }
    sym_assert(ok, "a request with valid credentials, or none, succeeds");
    sym_assert(a.maybe_integrity.is_some() == mi, "signed exactly when the request was");
    sym_cover(mi ? "signed success" : "success");
    if (mi && a.maybe_integrity.is_some()) {
        Bytes key(pw.begin(), pw.end());
        const auto& p = a.maybe_integrity.unwrap().password;
        sym_assert(bytes_of(p.ipad().view()) == pad_key(s.h, key, 0x36) && bytes_of(p.opad().view()) == pad_key(s.h, key, 0x5c), "signed with the same credentials");
    }
    if (full) check_response(s, a, q, mi ? &s.h : nullptr, pw, required);
}
// hash failing on credentialed requests, all patterns
HARNESS(h_server_fault) {
    size_t ulen = 1 + sym_param(0);
    Scene s(2, false);
    std::string name = any_string(ulen, "user");
    s.add(name, "secret");
    Bytes body = cat({num(USERNAME, 2), num(ulen, 2), Bytes(name.begin(), name.end())}); body.resize(padded(body.size()));
    Bytes tid = any_bytes(12, "tid");
    Bytes msg = cat({num(1, 2), num(body.size() + 24, 2), num(COOKIE, 4), tid, body});
    Bytes key{'s', 'e', 'c', 'r', 'e', 't'};
    Bytes good = hmac(s.h, key, msg);
    bool valid = sym_bool("valid");
    Bytes digest = good; if (!valid) { digest[sym_choice("byte", 20)] ^= (uint8_t)(1u << sym_choice("bit", 8)); }
    msg = cat({msg, num(INTEGRITY, 2), num(20, 2), digest});
    s.h.log->made = 0; s.h.log->fail_mask = (unsigned)sym_choice("fail", 4);
    auto r = s.server.process(s.ep, View(msg));
    if (s.h.log->fail_mask) { sym_assert(std::holds_alternative<Server::Error>(r), "a hash failure is never taken for a verdict"); sym_cover("failed"); return; }
    auto *a = std::get_if<Server::Respond>(&r);
    sym_assert(a && (a->response.header.cls == stun::Class::success_response()) == valid, "success exactly for the valid digest");
    if (a && !valid) sym_assert(has_code(a->response, 401), "401 for a digest that is wrong in one bit");
    sym_cover(valid ? "valid" : "one bit wrong");
}
// repeated attributes and attributes in unusual places
HARNESS(h_server_order) {
    int k = sym_param(0);
    Scene s(2, false);
    std::string a = any_string(2, "user"), b = any_string(3, "user2"), pa = any_string(2, "pw"), pb = any_string(3, "pw2");
    s.add(a, pa); s.add(b, pb);
    auto str = [](const std::string& x) { return Bytes(x.begin(), x.end()); };
    Bytes m = cat({num(1, 2), num(0, 2), num(COOKIE, 4), any_bytes(12, "tid")});
    auto attr = [&](uint16_t t, const Bytes& v) { m = cat({m, num(t, 2), num(v.size(), 2), v}); m.resize(padded(m.size())); };
    auto sign = [&](const std::string& pw) { Bytes d = m; put16(d.data() + 2, m.size() + 24 - 20); attr(INTEGRITY, hmac(s.h, str(pw), d)); };
    unsigned code = 0;
    switch (k) {
    case 0: attr(USERNAME, str(a)); attr(USERNAME, str(b)); sign(pa); break;
    case 1: attr(USERNAME, str(a)); attr(USERNAME, str(b)); sign(pb); code = 401; break;
    case 2: sign(pa); attr(USERNAME, str(a)); code = 400; break;
    case 3: attr(USERNAME, str(a)); sign(pa); attr(0x7777, any_bytes(3, "udata")); break;
    case 4: attr(USERNAME, str(a)); sign(pa); attr(INTEGRITY, any_bytes(20, "digest")); break;
    case 5: attr(SOFTWARE, any_bytes(5, "text")); attr(0x0024, any_bytes(4, "priority")); attr(USERNAME, str(b)); attr(0x8029, any_bytes(8, "controlled")); sign(pb); break;
    case 6: attr(USERNAME, str(a)); attr(INTEGRITY, any_bytes(20, "digest")); sign(pa); code = 401; break;
    default: attr(USERNAME, str(a)); sign(pa); attr(USERNAME, str(b)); break;
    }
    put16(m.data() + 2, m.size() - 20);
    if (code == 401) {          // the digest that counts is not that of the user that counts
        size_t first = 20 + 8 + (k == 1 ? 8 : 0);
        Bytes d(m.begin(), m.begin() + first), got(m.begin() + first + 4, m.begin() + first + 24);
        put16(d.data() + 2, first + 24 - 20);
        sym_assume(hmac(s.h, str(pa), d) != got);
    }
    auto r = s.server.process(s.ep, View(m));
    auto *w = std::get_if<Server::Respond>(&r);
    sym_assert(w, "a binding request is answered"); if (!w) return;
    bool ok = w->response.header.cls == stun::Class::success_response();
    sym_assert(ok == !code, "the first attributes count, and none after MESSAGE-INTEGRITY");
    if (code) sym_assert(has_code(w->response, code), "the error response names a reason that applies");
    sym_cover(code ? "refused" : "granted");
}
HARNESS(h_server_raw) {
    size_t n = sym_param(0);
    Scene s(2, false);
    Bytes b = any_bytes(n, "msg");
    auto r = s.server.process(s.ep, View(b));
    stun::ParseStat st;
    auto m = stun::Message::parse(View(b), st);
    if (m.is_err()) {
        auto *g = std::get_if<Server::Ignore>(&r);
        sym_assert(g && g->message.is_none(), "what does not parse is ignored");
        sym_cover("not STUN"); return;
    }
    bool answer = be16(b.data()) == 1;
    sym_assert(!std::holds_alternative<Server::Ignore>(r) == answer, "exactly binding requests are answered");
    if (auto *a = std::get_if<Server::Respond>(&r)) {
        bool fail = m.unwrap().attribute_set.username().is_some() || m.unwrap().attribute_set.integrity().is_some() || !m.unwrap().attribute_set.unknown_comprehension_required().empty();
        sym_assert((a->response.header.cls == stun::Class::success_response()) == !fail, "success exactly without credentials and unknown attributes");
        sym_cover(fail ? "error" : "success");
    } else { sym_assert(!std::holds_alternative<Server::Error>(r), "no error without credentials"); sym_cover("ignored"); }
}

// what was processed before does not matter
static Bytes of_kind(int k, Scene& s) {
    Bytes tid = any_bytes(12, "tid"), body;
    auto attr = [&](uint16_t t, const Bytes& v) { Bytes x = cat({num(t, 2), num(v.size(), 2), v}); x.resize(padded(x.size())); body.insert(body.end(), x.begin(), x.end()); };
    auto str = [](const std::string& x) { return Bytes(x.begin(), x.end()); };
    unsigned type = 1;
    const User *name = nullptr, *key = nullptr;
    bool any = false;
    switch (k) {
    case 0: break;
    case 1: name = key = &s.users[0]; break;
    case 2: name = key = &s.users[1]; break;
    case 3: name = &s.users[0]; key = &s.users[1]; break;
    case 4: name = &s.users[0]; any = true; break;
    case 5: attr(0x7777, any_bytes(3, "udata")); break;
    default: type = 0x0101; break;
    }
    if (name) attr(USERNAME, str(name->name));
    Bytes m = cat({num(type, 2), num(body.size() + (key || any ? 24 : 0), 2), num(COOKIE, 4), tid, body});
    if (key) m = cat({m, num(INTEGRITY, 2), num(20, 2), hmac(s.h, str(key->pw), m)});
    if (any) m = cat({m, num(INTEGRITY, 2), num(20, 2), any_bytes(20, "digest")});
    return m;
}
static void same_result(const Server::ProcessResult& a, const Server::ProcessResult& b) {
    sym_assert(a.index() == b.index(), "the same kind of result as without history");
    auto *x = std::get_if<Server::Respond>(&a), *y = std::get_if<Server::Respond>(&b);
    if (!x || !y) return;
    sym_assert(x->maybe_integrity.is_some() == y->maybe_integrity.is_some(), "signed as without history");
    auto w = x->response.build(x->maybe_integrity), v = y->response.build(y->maybe_integrity);
    sym_assert(w.is_ok() && v.is_ok() && w.unwrap() == v.unwrap(), "the same response as without history");
}
HARNESS(h_server_history) {
    int k1 = sym_param(0), k2 = sym_param(1);
    Scene s(2, false);
    std::string u1 = any_string(2, "user"), u2 = any_string(2, "user2"), p1 = any_string(2, "pw"), p2 = any_string(2, "pw2");
    sym_assume(!(u1 == u2));
    s.users = {{u1, p1}, {u2, p2}};
    auto reg = [&](Server& v, int i) { v.add_user(precis::OpaqueString{s.users[i].name}, stun::Password::short_term(precis::OpaqueString{s.users[i].pw}, s.f).unwrap()); };
    reg(s.server, 0);
    Bytes a = of_kind(k1, s), b = k2 == 7 ? a : of_kind(k2, s);
    s.h.log->fail_mask = 0;
    bool late = sym_bool("late");     // the second user is registered between the two messages
    if (!late) reg(s.server, 1);
    (void)s.server.process(s.ep, View(a));
    if (late) reg(s.server, 1);
    uint8_t raw[16]; uint16_t port;
    auto ep2 = Scene::endpoint(true, raw, port, true);
    auto r = s.server.process(ep2, View(b));
    Server fresh(s.f, none());
    reg(fresh, 0); reg(fresh, 1);
    auto q = fresh.process(ep2, View(b));
    same_result(r, q);
    sym_cover(late ? "registered in between" : "registered before");
}
// many users: each one's requests are judged by that user's password
HARNESS(h_server_users) {
    size_t n = sym_param(0);
    Scene s(1, false);
    for (size_t i = 0; i < n; ++i) s.add("user" + std::to_string(i * 7), any_string(2, "pw"));
    size_t who = sym_concretize(sym_choice("who", n + 1));
    std::string name = who < n ? s.users[who].name : std::string("user1");
    Bytes digest = any_bytes(20, "digest"), pad(padded(name.size()) - name.size());
    Bytes msg = cat({num(1, 2), num(4 + padded(name.size()) + 24, 2), num(COOKIE, 4), any_bytes(12, "tid"), num(USERNAME, 2), num(name.size(), 2), Bytes(name.begin(), name.end()), pad});
    size_t at = msg.size();
    Bytes x = cat({num(INTEGRITY, 2), num(20, 2), digest});
    Bytes all = cat({msg, x});
    s.h.log->fail_mask = 0;
    auto r = s.server.process(s.ep, View(all));
    sym_assert(std::holds_alternative<Server::Respond>(r), "a binding request is answered");
    if (!std::holds_alternative<Server::Respond>(r)) return;
    const auto& a = std::get<Server::Respond>(r);
    bool valid = false;
    if (who < n) { Bytes key(s.users[who].pw.begin(), s.users[who].pw.end()); valid = hmac(s.h, key, Bytes(msg.begin(), msg.begin() + at)) == digest; }
    bool ok = a.response.header.cls == stun::Class::success_response();
    sym_assert(ok == valid, "success exactly when the digest is of the user's password");
    if (!ok) sym_assert(has_code(a.response, 401), "401 otherwise");
    sym_cover(ok ? "valid" : who < n ? "wrong digest" : "unknown user");
}
