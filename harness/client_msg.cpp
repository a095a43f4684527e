// STUN client and messages: C25 (trust), C26 (outcomes), C30 (requests).
// @job C25 quick h_trust 0..1 0..1 0,1,2,3,4,5,6,18,22,34,40 0
// @job C25 quick h_trust 1 0..1 4,6 1
// @job C25 thorough h_trust 0..1 0..1 0..63 0..1 time=1200
// @job C25 quick h_trust_raw 0..1 20,24,28
// @job C25 thorough h_trust_raw 0..1 19..32 time=1200
// @job C26 quick,thorough h_success 0..15 0 0,2 | 1,4,5 1..2 0 | 1,2 0..2 1
// @job C26 quick,thorough h_error 0..31 4 0 | 1,3,17 1,63,127,255,256,300,763 0 | 1,3,5,9,17 4 1
// @job C26 quick,thorough h_many_types 3,9,33,70,260 0..2
// @job C30 quick h_request 0..3 0,1,8,513,547 1 0..3 | 0..3 0 0..3 0..3
// @job C30 quick h_request 0..3 2,8,12,130 1 60..66,126,254..256,400,1000
// @job C30 thorough h_request 0..3 0..1023 1..2 0..3 time=1200
// @job C30 quick,thorough h_ids 0..3
// @job C30 quick,thorough h_random
// @bound C25: two pending transactions, one with or without credentials; every message of any 14-bit type, magic cookie and transaction id with a layout of up to five attributes chosen by 6 bits (XOR-MAPPED-ADDRESS, ERROR-CODE with any code, MESSAGE-INTEGRITY with any digest, FINGERPRINT, ALTERNATE-SERVER, an unknown attribute of any type), parsed by the client or by the caller; the hash an arbitrary function that may fail at each call. Also every byte sequence of 20, 24 and 28 (quick) / 19..32 (thorough) bytes
// @bound C26: success responses with XOR-MAPPED-ADDRESS and MAPPED-ADDRESS present or not, IPv4 or IPv6, any address and port, up to two unknown attributes of any type, after 0..2 retransmissions and any time up to 2^40 ns, alone or between two other transactions, with or without credentials; error responses with any code representable on the wire or none, with or without ALTERNATE-SERVER, UNKNOWN-ATTRIBUTES (two any types) and an unknown attribute, reason phrases of up to 763 bytes, with and without 5xx retries; 3 to 260 reported types or attributes of unknown type
// @bound C30: caller's attributes chosen by 6 (quick) / 10 (thorough) bits with symbolic values, up to two unknown attributes, with or without credentials (any username of 3, 60..66, 126, 254..256, 400, 1000 bytes and password of 3 bytes) and FINGERPRINT, any random words; two to three transactions with any random words and up to two collisions of the drawn ids
// @assume C25, C30: the caller's attributes do not repeat those the client adds (USERNAME, MESSAGE-INTEGRITY, FINGERPRINT); the transaction id hash is constant
#include "client_util.hpp"
static Bytes wire(uint16_t type, const Bytes& cookie, const Bytes& tid, const Bytes& body) {
    return cat({num(type, 2), num(body.size(), 2), cookie, tid, body});
}
static void attr(Bytes& b, uint16_t t, const Bytes& v) { Bytes x = cat({num(t, 2), num(v.size(), 2), v}); x.resize(padded(x.size())); b.insert(b.end(), x.begin(), x.end()); }
static Client::Request request(uint8_t k, const AnySha1 *h) {
    Client::Request q{path(k), {}, {}, none()};
    if (h) q.maybe_auth = Client::Auth{precis::OpaqueString{std::string("u")}, integrity(*h, "pw").unwrap()};
    return q;
}
// two transactions pending, all of their first sends taken
struct Scene {
    AnySha1 h; Sim m; Dur rest{0};
    Scene(const Client::Settings& s, bool auth) : m(s) {
        for (unsigned k = 0; k < 2; ++k) {
            Counter r{1000 + 16 * k}, r2{1000 + 16 * k};
            auto x = m.c.create(r, m.now, request(k, auth && k == 0 ? &h : nullptr));
            sym_assert(x.is_ok(), "a transaction can be started");
            m.tx.push_back(Tx{x.unwrap(), stun::TransactionId::generate(r2), {}, View(&m.seed, 0)});
        }
        m.next(); m.next();
        sym_assert(m.tx[0].seen && m.tx[1].seen, "both requests are sent");
        m.now = m.now.advance(Dur(100));
        m.next(); rest = m.last_sleep;
    }
    // nothing happened: the timers stand, requests go out again when due, and a proper response still counts
    void untouched(unsigned k, bool timers) {
        if (timers) {
            sym_assert(!m.next() && !m.idle && m.last_sleep == rest, "the timers stand");
            m.now = m.now.advance(rest);
            sym_assert(m.next() && m.next() && m.tx[0].sends == 2 && m.tx[1].sends == 2, "requests are repeated when due");
        }
        if (k == 0) return;
        sym_assert(m.c.response(m.now, View(&m.seed, 0), ok_response(m.tx[1].id, v4(9), 5)).is_ok() && m.next() && m.tx[1].ended, "a proper response still ends the other transaction");
        if (!timers) return;
        m.start(0); m.next();
        sym_assert(!m.next() && m.last_sleep == Dur(1000), "the retransmission timeout of the path stands");
    }
};
static void trust(Scene& s, const Bytes& msg, bool auth, bool allow, bool given, unsigned fail) {
    stun::ParseStat st;
    auto parsed = stun::Message::parse(View(msg), st);
    bool good = parsed.is_ok(), unsigned_ok = true;
    unsigned k = 2;
    if (good) {
        const auto& p = parsed.unwrap();
        unsigned c = cls(be16(msg.data()) & 0x3fff);
        for (unsigned i = 0; i < 2; ++i) if (bytes_of(p.header.transaction_id.view()) == bytes_of(s.m.tx[i].id.view())) k = i;
        good = k < 2 && (c == 2 || c == 3) && p.header.method == stun::Method::binding();
        if (good && k == 0 && auth) {
            const auto d = p.attribute_set.integrity();
            if (d.is_some()) {
                Walk w = walk(msg.data(), msg.size());
                Bytes data(msg.begin(), msg.begin() + w.miOff); put16(data.data() + 2, w.miOff + 24 - 20);
                bool same = sym_eq_bytes(hmac(s.h, Bytes{'p', 'w'}, data).data(), msg.data() + w.miOff + 4, 20);
                good = same;
                s.h.log->fail_mask = fail; s.h.log->made = 0; s.h.log->failed = 0;
            } else {
                const auto e = p.attribute_set.error_code();
                good = allow && c == 3 && e.is_some() && e.unwrap().get().code == 300;
                unsigned_ok = false;
            }
        }
    }
    MaybeError r = given && parsed.is_ok()
        ? s.m.c.response(s.m.now, View(msg), Maybe<stun::Message>(stun::Message(parsed.unwrap())))
        : s.m.c.response(s.m.now, View(msg));
    if (s.h.log->failed) good = false;
    s.h.log->fail_mask = 0;
    if (!good) {
        bool ignored = parsed.is_ok() && cls(be16(msg.data()) & 0x3fff) < 2;
        sym_assert(r.is_err() || ignored, "what is not trusted is reported, or no response");
        s.untouched(1, true);
        sym_assert(!s.m.tx[0].ended, "nothing else happened");
        sym_cover(s.h.log->failed ? "hash failed" : "refused");
        return;
    }
    sym_assert(r.is_ok(), "a trusted response is accepted");
    bool any = s.m.next();
    sym_assert(any ? s.m.tx[k].ended && !s.m.tx[1 - k].ended : true, "only its own transaction ends");
    if (any) sym_cover(!unsigned_ok ? "unsigned alternate" : k == 0 && auth ? "signed" : "accepted");
    if (any) s.m.next();
    else sym_cover("unexpected code");
    sym_assert(s.m.last_sleep == s.rest, "the other timer stands");
    s.m.now = s.m.now.advance(s.rest);
    s.m.next(); if (!any) s.m.next();
    sym_assert(s.m.tx[1 - k].sends == 2, "the other request is repeated when due");
}
HARNESS(h_trust) {
    bool auth = sym_param(0), allow = sym_param(1); unsigned lay = sym_param(2); bool given = sym_param(3);
    auto s0 = settings(4, 2); s0.rto_settings.initial_rto = Dur(1000); s0.allow_unauthenticated_alternate = allow;
    Scene s(s0, auth);
    uint16_t type = sym_u16("type"); sym_assume(type < 0x4000);
    Bytes body;
    if (lay & 1) attr(body, XMAPPED, cat({num(1, 2), any_bytes(6, "address")}));
    if (lay & 2) { Bytes v = any_bytes(2, "code"); attr(body, ERRCODE, cat({num(0, 2), v})); }
    if (lay & 16) attr(body, ALTSERVER, cat({num(1, 2), any_bytes(6, "server")}));
    if (lay & 32) { uint16_t t = sym_u16("unknown"); sym_assume(!is_known(t)); attr(body, t, any_bytes(3, "data")); }
    if (lay & 4) attr(body, INTEGRITY, any_bytes(20, "digest"));
    Bytes msg = wire(type, any_bytes(4, "cookie"), any_bytes(12, "tid"), body);
    if (lay & 8) {
        size_t at = msg.size(); msg.resize(at + 8); put16(msg.data() + 2, msg.size() - 20);
        put16(msg.data() + at, FINGERPRINT); put16(msg.data() + at + 2, 4); put32(msg.data() + at + 4, fingerprint(msg.data(), at));
    }
    trust(s, msg, auth, allow, given, (auth && (lay & 4)) ? (unsigned)sym_choice("fail", 4) : 0);
}
HARNESS(h_trust_raw) {
    bool auth = sym_param(0); size_t n = sym_param(1);
    auto s0 = settings(4, 2); s0.rto_settings.initial_rto = Dur(1000);
    Scene s(s0, auth);
    trust(s, any_bytes(n, "msg"), auth, false, false, 0);
}
// ---- C26 ---------------------------------------------------------------------
static void start(Sim& c, const AnySha1& h, bool auth) {
    if (!auth) { c.start(); return; }
    Counter r{1000}, r2{1000};
    auto x = c.c.create(r, c.now, request(0, &h));
    sym_assert(x.is_ok(), "a transaction can be started");
    c.tx.push_back(Tx{x.unwrap(), stun::TransactionId::generate(r2), {}, View(&c.seed, 0)});
}
static Bytes sign(const AnySha1& h, bool auth, Bytes msg) {
    if (!auth) return msg;
    put16(msg.data() + 2, msg.size() + 4);
    return cat({msg, num(INTEGRITY, 2), num(20, 2), hmac(h, Bytes{'p', 'w'}, msg)});
}
static bool same_address(const net::ip::Address& a, bool v6, const Bytes& raw) { return a.view().size() == (v6 ? 16u : 4u) && bytes_of(a.view()) == raw; }
HARNESS(h_success) {
    unsigned lay = sym_param(0), resends = sym_param(1); bool auth = sym_param(2) & 1, others = sym_param(2) & 2; AnySha1 h;
    bool x = lay & 1, m = lay & 2, v6 = lay & 4, m6 = lay & 8;
    auto s0 = settings(4, 2);
    s0.rto_settings.initial_rto = Dur(1000);
    Sim c(s0);
    c.now = c.now.advance(dur("start", 0, 1ull << 40));
    auto t0 = c.now;
    if (others) { c.seed = 0x5a5a5a5a; c.start(1); c.seed = 7; }
    start(c, h, auth);
    if (others) { std::swap(c.tx[0], c.tx[1]); c.seed = 0xa5a5a5a5; c.start(2); c.next(); c.next(); }
    c.next();
    for (unsigned i = 0; i < resends; ++i) { c.next(); c.now = c.now.advance(c.last_sleep); c.next(); }
    sym_assert(c.tx[0].sends == 1 + resends, "resent");
    c.next();
    if (resends == 0) c.now = c.now.advance(dur("rtt", 0, 1ull << 40));
    Bytes tid = bytes_of(c.tx[0].id.view()), body, xa = any_bytes(v6 ? 16 : 4, "x"), ma = any_bytes(m6 ? 16 : 4, "m");
    uint16_t xp = sym_u16("xport"), mp = sym_u16("mport");
    std::vector<uint16_t> bad; unsigned nu = sym_choice("unknowns", 3);
    auto unk = [&] { uint16_t t = sym_u16("type"); sym_assume(!is_known(t)); if (t < 0x8000) bad.push_back(t); attr(body, t, any_bytes(2, "udata")); };
    if (nu > 1) unk();
    if (m) attr(body, MAPPED, cat({num(m6 ? 2 : 1, 2), num(mp, 2), ma}));
    if (x) {
        Bytes pad = cat({num(COOKIE, 4), tid}), v = xa; for (size_t i = 0; i < v.size(); ++i) v[i] ^= pad[i];
        attr(body, XMAPPED, cat({num(v6 ? 2 : 1, 2), num(xp ^ (COOKIE >> 16), 2), v}));
    }
    if (nu > 0) unk();
    Bytes msg = sign(h, auth, wire(0x0101, num(COOKIE, 4), tid, body));
    sym_assert(c.c.response(c.now, View(msg)).is_ok(), "taken");
    auto e = c.c.next(c.now);
    if (!bad.empty() || (!x && !m)) {
        auto *f = std::get_if<Client::TransactionFailed>(&e);
        sym_assert(f && f->handle == c.tx[0].h, "failed"); if (!f) return;
        if (!bad.empty()) {
            auto *u = std::get_if<Client::TransactionFailed::UnknownComprehensionRequiredAttribute>(&f->reason);
            sym_assert(u && u->attrs.size() == bad.size(), "unknown comprehension-required attributes"); if (!u) return;
            for (size_t i = 0; i < bad.size() && i < u->attrs.size(); ++i) sym_assert(u->attrs[i].value() == bad[i], "their types");
            sym_cover("unknown"); return;
        }
        auto *q = std::get_if<Client::TransactionFailed::Error>(&f->reason);
        sym_assert(q && q->code.code() == stun::make_error_code(stun::ClientError::no_address_in_response), "no address in response");
        sym_cover("no address"); return;
    }
    auto *ok = std::get_if<Client::TransactionOk>(&e);
    sym_assert(ok && ok->handle == c.tx[0].h, "success"); if (!ok) return;
    sym_assert(x ? same_address(ok->result.address, v6, xa) && ok->result.port.value() == xp : same_address(ok->result.address, m6, ma) && ok->result.port.value() == mp, "the mapped address, XOR form preferred");
    sym_assert(bytes_of(ok->response.header.transaction_id.view()) == tid && ok->response.header.cls == stun::Class::success_response(), "the response is handed over");
    sym_assert(ok->response.attribute_set.xor_mapped().is_some() == x && ok->response.attribute_set.mapped().is_some() == m, "with its attributes");
    sym_assert(ok->round_trip.is_some() == (resends == 0), "round trip exactly when nothing was retransmitted");
    if (resends == 0 && ok->round_trip.is_some()) sym_assert(ok->round_trip.unwrap() == c.now - t0, "the round trip");
    sym_cover("success");
}
HARNESS(h_error) {
    unsigned lay = sym_param(0); bool auth = sym_param(2); AnySha1 h;
    bool has = lay & 1, alt = lay & 2, ua = lay & 4, unk = lay & 8, retry = lay & 16;
    auto s0 = settings(4, 2);
    s0.rto_settings.initial_rto = Dur(1000);
    if (retry) { rtx(s0).server_error_timeout = Dur(700); rtx(s0).server_error_max_retransmits = 1; }
    Sim c(s0);
    start(c, h, auth); c.next();
    c.now = c.now.advance(Dur(100));
    Bytes tid = bytes_of(c.tx[0].id.view()), body, sa = any_bytes(4, "server");
    uint16_t sp = sym_u16("port"), ut = sym_u16("type"), r1 = sym_u16("reported"), r2 = sym_u16("reported");
    uint8_t cl = sym_u8("class"), nr = sym_u8("number"); std::string reason = any_string(sym_param(1), "reason");
    sym_assume(cl < 8);
    unsigned code = cl * 100 + nr;
    if (has) attr(body, ERRCODE, cat({num(cl, 3), num(nr, 1), Bytes(reason.begin(), reason.end())}));
    if (alt) attr(body, ALTSERVER, cat({num(1, 2), num(sp, 2), sa}));
    if (ua) attr(body, UNKNOWN_ATTRS, cat({num(r1, 2), num(r2, 2)}));
    if (unk) { sym_assume(!is_known(ut)); attr(body, ut, any_bytes(1, "udata")); }
    Bytes msg = sign(h, auth, wire(0x0111, num(COOKIE, 4), tid, body));
    bool taken = c.c.response(c.now, View(msg)).is_ok();
    sym_assert(taken, "taken");
    auto e = c.c.next(c.now);
    auto *f = std::get_if<Client::TransactionFailed>(&e);
    if (!(unk && ut < 0x8000) && has && (code < 300 || code >= 600)) {
        sym_assert(std::holds_alternative<Client::Sleep>(e) || f, "an unexpected code is ignored or fails the transaction");
        sym_cover("unexpected"); return;
    }
    if (!(unk && ut < 0x8000) && has && code >= 500 && retry) {
        auto *p = std::get_if<Client::Sleep>(&e);
        sym_assert(p && p->sleep == Dur(700), "resent after the configured time"); if (!p) return;
        c.now = c.now.advance(Dur(700));
        sym_assert(c.next() && c.tx[0].sends == 2, "resent");
        taken = c.c.response(c.now, View(msg)).is_ok();
        e = c.c.next(c.now); f = std::get_if<Client::TransactionFailed>(&e);
        sym_assert(taken && f, "failed when no retry is left");
        sym_cover("resent");
    }
    sym_assert(f && f->handle == c.tx[0].h, "failed"); if (!f) return;
    if (unk && ut < 0x8000) {
        auto *u = std::get_if<Client::TransactionFailed::UnknownComprehensionRequiredAttribute>(&f->reason);
        sym_assert(u && u->attrs.size() == 1 && u->attrs[0].value() == ut, "unknown comprehension-required attribute");
        sym_cover("unknown"); return;
    }
    auto *q = std::get_if<Client::TransactionFailed::Error>(&f->reason);
    if (!has) { sym_assert(q && q->code.code() == stun::make_error_code(stun::ClientError::no_error_code_in_response), "no error code"); sym_cover("no code"); return; }
    if (code == 300) {
        if (!alt) { sym_assert(q && q->code.code() == stun::make_error_code(stun::ClientError::no_alternate_server_in_response), "no alternate server"); sym_cover("300 without server"); return; }
        auto *a = std::get_if<Client::TransactionFailed::AlternateServer>(&f->reason);
        sym_assert(a && same_address(a->server.address, false, sa) && a->server.port.value() == sp, "the alternate server");
        sym_cover("alternate server"); return;
    }
    if (code == 420 && ua) {
        auto *u = std::get_if<Client::TransactionFailed::UnknownAttributeReported>(&f->reason);
        sym_assert(u && u->attrs.size() == 2 && u->attrs[0].value() == r1 && u->attrs[1].value() == r2, "the reported types");
        sym_cover("420"); return;
    }
    auto *k = std::get_if<Client::TransactionFailed::ErrorCode>(&f->reason);
    sym_assert(k && k->attr.code == code && k->attr.reason_phrase.is_some() && k->attr.reason_phrase.unwrap() == reason, "the error code and reason");
    sym_cover(code < 400 ? "3xx" : code < 500 ? "4xx" : "5xx");
}
// many reported or unknown types: all of them are handed over
HARNESS(h_many_types) {
    unsigned n = sym_param(0), mode = sym_param(1);
    auto s0 = settings(4, 2);
    s0.rto_settings.initial_rto = Dur(1000);
    Sim c(s0);
    c.start(); c.next();
    Bytes tid = bytes_of(c.tx[0].id.view()), body; std::vector<uint16_t> want;
    if (mode == 0) {                        // 420 with n reported types
        attr(body, ERRCODE, cat({num(4, 3), num(20, 1)}));
        Bytes l; for (unsigned i = 0; i < n; ++i) { uint16_t t = sym_u16("type"); want.push_back(t); l.push_back(t >> 8); l.push_back(t); }
        attr(body, UNKNOWN_ATTRS, l);
    } else {                                // n attributes of unknown type in a success (1) or error (2) response
        if (mode == 1) attr(body, MAPPED, cat({num(1, 2), num(5, 2), num(0x01020304, 4)})); else attr(body, ERRCODE, cat({num(3, 3), num(0, 1)}));
        for (unsigned i = 0; i < n; ++i) {
            uint16_t t = i == n / 2 ? sym_u16("type") : (i % 3 ? 0x0031 : 0x8031) + i;
            sym_assume(!is_known(t)); if (t < 0x8000) want.push_back(t);
            attr(body, t, any_bytes(i % 4, "udata"));
        }
    }
    sym_assert(c.c.response(c.now, View(wire(mode == 1 ? 0x0101 : 0x0111, num(COOKIE, 4), tid, body))).is_ok(), "taken");
    auto e = c.c.next(c.now);
    auto *f = std::get_if<Client::TransactionFailed>(&e);
    sym_assert(f && f->handle == c.tx[0].h, "failed"); if (!f) return;
    const std::vector<AttributeType> *got = nullptr;
    if (mode == 0) { auto *u = std::get_if<Client::TransactionFailed::UnknownAttributeReported>(&f->reason); if (u) got = &u->attrs; }
    else { auto *u = std::get_if<Client::TransactionFailed::UnknownComprehensionRequiredAttribute>(&f->reason); if (u) got = &u->attrs; }
    sym_assert(got && got->size() == want.size(), "every type"); if (!got) return;
    for (size_t i = 0; i < want.size() && i < got->size(); ++i) sym_assert((*got)[i].value() == want[i], "the types in order");
    sym_cover("all");
}
// ---- C30 ---------------------------------------------------------------------
struct Words { std::vector<uint32_t> w; unsigned used = 0; uint32_t operator()() { w.push_back(sym_u32("random")); ++used; return w.back(); } };
HARNESS(h_request) {
    unsigned flags = sym_param(0), mask = sym_param(1); size_t nu = sym_param(2); unsigned v = sym_param(3);
    bool auth = flags & 1, fp = flags & 2;
    auto s0 = settings(4, 2); s0.rto_settings.initial_rto = Dur(1000);
    s0.use_fingerprint = Client::Settings::UseFingerprint{fp};
    Client c(s0);
    Time now = Time::epoch();
    AnySha1 h;
    std::string pw = any_string(v > 3 ? v : 3, "password"), name = any_string(v > 3 ? v : 3, "name");
    Built b; b.cls = 0; b.method = 1; b.old = false; b.tidn = 12;
    sym_bytes(b.tid, 16, "tid");
    // mask: the attributes KNOWN[i] but USERNAME, MESSAGE-INTEGRITY and FINGERPRINT
    static const uint8_t bit[10] = {0, 3, 4, 5, 6, 7, 8, 9, 11, 12};
    unsigned set = 0; for (int i = 0; i < 10; ++i) if (mask >> i & 1) set |= 1u << bit[i];
    AttributeSet::AttrVec av; AttributeSet::UnknownAttrVec uv;
    stun::TransactionId id(View(b.tid, 12));
    for (size_t k = 0; k < 13; ++k) if (set >> k & 1) any_attr(k, 1 + v, id, av, b.want, v & 1);
    for (size_t i = 0; i < nu; ++i) { uint16_t t = sym_u16("unknown"); sym_assume(!is_known(t)); Bytes d = any_bytes((v + 2 * i) % 5, "udata"); uv.emplace_back(AttributeType::from_uint16(t), View(d)); b.want.push_back({t, d}); }
    Client::Request q{path(0), std::move(av), std::move(uv), none()};
    if (auth) { q.maybe_auth = Client::Auth{precis::OpaqueString{name}, integrity(h, pw).unwrap()}; b.want.push_back({USERNAME, Bytes(name.begin(), name.end())}); }
    b.fp = fp;
    Words rng;
    auto r = c.create(rng, now, std::move(q));
    sym_assert(r.is_ok(), "started"); if (r.is_err()) return;
    auto e = c.next(now);
    auto *d = std::get_if<Client::SendData>(&e);
    sym_assert(d && d->handle == r.unwrap(), "the request is sent at once"); if (!d) return;
    Bytes w = bytes_of(d->message_view);
    sym_assert(w.size() >= 20, "a header"); if (w.size() < 20) return;
    for (int i = 0; i < 12; ++i) b.tid[i] = w[8 + i];
    check_wire(b, w, auth ? &h : nullptr, Bytes(pw.begin(), pw.end()));
    auto sl = c.next(now);
    auto *p = std::get_if<Client::Sleep>(&sl);
    sym_assert(p, "pending"); if (!p) return;
    auto e2 = c.next(now.advance(p->sleep));
    auto *d2 = std::get_if<Client::SendData>(&e2);
    sym_assert(d2 && same(bytes_of(d2->message_view), w), "a retransmission repeats the same bytes");
    sym_cover("sent");
}
// every random bit reaches the id: two clients send the same id only if they drew the same words
HARNESS(h_random) {
    auto s0 = settings(4, 2); s0.rto_settings.initial_rto = Dur(1000);
    Words a, b; Bytes id[2];
    for (int i = 0; i < 2; ++i) {
        Client c(s0);
        sym_assert(c.create(i ? b : a, Time::epoch(), Client::Request{path(0), {}, {}, none()}).is_ok(), "started");
        auto e = c.next(Time::epoch());
        auto *d = std::get_if<Client::SendData>(&e);
        sym_assert(d && d->message_view.size() >= 20, "sent"); if (!d) return;
        id[i] = Bytes(d->message_view.begin() + 8, d->message_view.begin() + 20);
    }
    sym_assert(a.used * sizeof(uint32_t) >= 12 && a.used == b.used, "96 random bits are drawn");
    uint32_t diff = 0; for (unsigned i = 0; i < a.used && i < b.used; ++i) diff |= a.w[i] ^ b.w[i];
    sym_assert(same(id[0], id[1]) == (diff == 0), "every random bit reaches the id");
    sym_cover("drawn");
}
// ids: two to three pending transactions, drawn ids may repeat
HARNESS(h_ids) {
    unsigned mode = sym_param(0); unsigned n = mode & 1 ? 3 : 2; bool finish = mode & 2;
    auto s0 = settings(4, 2); s0.rto_settings.initial_rto = Dur(1000);
    Client c(s0);
    Time now = Time::epoch();
    struct T { Client::Handle h; Bytes tid; std::vector<uint32_t> w; };
    std::vector<T> t;
    struct Limited { std::vector<uint32_t> w; unsigned max; uint32_t operator()() { sym_assume(w.size() < max); w.push_back(sym_u32("random")); return w.back(); } };
    for (unsigned k = 0; k < n; ++k) {
        Limited rng{{}, 6};
        auto r = c.create(rng, now, Client::Request{path(k), {}, {}, none()});
        sym_assert(r.is_ok(), "started"); if (r.is_err()) return;
        auto e = c.next(now);
        auto *d = std::get_if<Client::SendData>(&e);
        sym_assert(d && d->handle == r.unwrap() && d->message_view.size() >= 20, "sent"); if (!d) return;
        Bytes id(12); for (int i = 0; i < 12; ++i) id[i] = d->message_view.data()[8 + i];
        for (auto& o : t) {
            sym_assert(!(o.h == r.unwrap()), "another handle");
            sym_assert(!same(o.tid, id), "another transaction id");
        }
        if (rng.w.size() > 3) sym_cover("collision");
        t.push_back({r.unwrap(), id, rng.w});
        if (finish && k == 0) {      // the first one ends; its id may be drawn again
            c.response(now, View(id), ok_response(stun::TransactionId(View(id)), v4(9), 5));
            auto x = c.next(now);
            sym_assert(std::holds_alternative<Client::TransactionOk>(x), "ended");
            t.pop_back();
        }
    }
    sym_cover("started");
}
