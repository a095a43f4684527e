// Building STUN messages: C14 (CRC-32), C16 (round trip), C17 (wire form),
// C18 (integrity), C21 (XOR addresses), C43 (attribute sets).
// @job C14 quick,thorough h_crc 0..16 | 20,28,36,64,100,255..258,511..513,1023..1026,4096,8200
// @job C14 thorough h_crc 17..300 | 20000
// @job C14 quick h_crc_pieces 0..4 0..4 0..4 | 0,20,300 8,257 0,5,260
// @job C14 thorough h_crc_pieces 0..12 0..12 0..4
// @job C21 quick,thorough h_xor 0..1
// @job C21 quick,thorough h_xor_view 0..1 0..20
// @job C16 quick h_build_one 0..12 0..9 0..3 | 1,3,4,8 255,257,511,513,765,1021 0..3 | 1,3,8 4099,32769,65400 0,2
// @job C16 thorough h_build_one 0..12 0..40 0..3 | 1,3,4,8 250..260,509..515,763..769,1021..1026,4099,32769 0..3
// @job C16 quick h_build_set 0..63
// @job C16 thorough h_build_set 0..1023 time=900
// @job C17 quick h_wire_one 0..12 0..9 0..3 | 1,3,4,8 255,257,511,513,765,1021 0..3 | 1,3,8 4099,32769,65400 0,2
// @job C17 thorough h_wire_one 0..12 0..40 0..3 | 1,3,4,8 250..260,509..515,763..769,1021..1026,4099,32769 0..3
// @job C17 quick,thorough h_wire_repeat 2..3 0..5
// @job C16 quick,thorough h_build_repeat 2..3 0..5
// @job C17 quick h_wire_set 0..63 0..3
// @job C17 thorough h_wire_set 0..1023 0..3 time=900
// @job C16 quick,thorough h_build_many 5,9,33,70,260
// @job C17 quick,thorough h_wire_many 5,9,33,70,260
// @job C18 quick h_valid 0..12/4,208..260/4,484..516/4 0..2 | 0..12/4 3..6 | 1024,4096,32740..32772/4,65480 0,1
// @job C18 thorough h_valid 0..40/4,208..516/4 0..6 | 1024,4096,32740..32772/4,65480 0..3
// @job C18 quick,thorough h_valid_unsigned 0..12/4,232..236/4,252..260/4,1024,4096,32768,65500
// @job C18 quick,thorough h_sign 0..5,190,191,203..206,227,228,229,255,256,447..450,510,1000,4000 0..1
// @job C18 quick,thorough h_sign_fault 0..5,256,1000
// @job C43 quick h_set 1..3
// @job C43 thorough h_set 1..4 time=1200
// @job C43 quick,thorough h_set_unknown 0..5 | 17,40,70,260
// @job C43 quick,thorough h_alternate
// @bound C14: every content of 0..16, 20, 28, 36, 64, 100 and selected lengths up to 8200 (quick) / 0..300 and 20000 (thorough) bytes (four bytes reach every state, so five bytes cover every table step from every state), and splits into three pieces of up to 4 / 12 bytes, and of up to 300 bytes
// @bound C16, C17: every value of each supported attribute (strings and lists of 0..9 (quick) / 0..40 (thorough) bytes, and of lengths around 256, 512, 768, 1024, 4096, 32768 and 65400), every class, method and transaction id (96 and 128 bit), with up to 3 unknown attributes (equal ones included), and with 5 to 260 of them; sets of attributes chosen by 6 (quick) / 10 (thorough) bits with symbolic values
// @bound C18: messages with up to 12 (quick) / 40 (thorough) bytes of attributes before MESSAGE-INTEGRITY, and lengths around 232, 256, 512, 1024, 4096, 32768 and 65500, and up to 3 attributes after it (also a second MESSAGE-INTEGRITY), RFC 5389 and RFC 3489 requests; any key, hash an arbitrary collision-free or arbitrary function; each hash call may fail
// @bound C21: every address, port, transaction id of both kinds
// @bound C43: every sequence of up to 3 (quick) / 4 (thorough) insertions of any kind with symbolic values, up to 5 (also 17, 40, 70, 260) unknown attributes of any type
#include "stun_wire.hpp"
using namespace freewebrtc;
using namespace ref;
using View = util::ConstBinaryView;

HARNESS(h_crc) {
    size_t n = sym_param(0);
    Bytes b = any_bytes(n, "data");
    sym_assert(stun::crc32(View(b)) == (uint32_t)~ref::crc32(b.data(), n), "CRC-32 of the bytes");
    sym_assert(stun::crc32(std::vector<View>{View(b)}) == (uint32_t)~ref::crc32(b.data(), n), "CRC-32 of one piece");
    sym_cover("checked");
}
HARNESS(h_crc_pieces) {
    size_t i = sym_param(0), j = sym_param(1), k = sym_param(2);
    Bytes a = any_bytes(i, "a"), b = any_bytes(j, "b"), c = any_bytes(k, "c");
    Bytes all = cat({a, b, c});
    uint32_t want = ~ref::crc32(all.data(), all.size());
    sym_assert(stun::crc32(std::vector<View>{View(a), View(b), View(c)}) == want, "CRC-32 of the pieces in order");
    sym_assert(stun::crc32(View(all)) == want, "CRC-32 of the whole");
    sym_cover("checked");
}
HARNESS(h_xor) {
    bool v6 = sym_param(0);
    size_t n = v6 ? 16 : 4;
    uint8_t raw[16], tid[16], pad[16];
    auto a = any_addr(v6, raw, "addr");
    bool old = sym_bool("rfc3489");
    sym_bytes(tid, 16, "tid");
    stun::TransactionId id(View(tid, old ? 16 : 12));
    put32(pad, COOKIE); for (int i = 0; i < 12; ++i) pad[4 + i] = tid[i];
    auto x = stun::XoredAddress::from_address(a, id);
    sym_assert(x.view().size() == n && x.family().to_uint8() == (v6 ? 2 : 1), "family and size");
    uint8_t d = 0; for (size_t i = 0; i < n; ++i) d |= x.view().data()[i] ^ raw[i] ^ pad[i];
    sym_assert(d == 0, "the address XOR magic cookie and transaction id");
    auto back = x.to_address(id);
    sym_assert(back == a && back.view().size() == n && sym_eq_bytes(back.view().data(), raw, n), "decoding gives the address back");
    uint8_t tid2[12]; sym_bytes(tid2, 12, "tid2");
    auto other = x.to_address(stun::TransactionId(View(tid2, 12)));
    bool same_tid = sym_eq_bytes(tid, tid2, 12);
    sym_assert(sym_eq_bytes(other.view().data(), raw, n) == (!v6 || same_tid), "another transaction id gives another IPv6 address");
    auto y = x; sym_assert(y == x, "copies are equal");
    sym_cover(v6 ? "IPv6" : "IPv4");
}
HARNESS(h_xor_view) {
    bool v6 = sym_param(0);
    size_t n = sym_param(1);
    Bytes b = any_bytes(n, "view");
    auto r = stun::XoredAddress::from_view(v6 ? stun::Family::ipv6() : stun::Family::ipv4(), View(b));
    if (n != (v6 ? 16u : 4u)) { sym_assert(r.is_err() && one_of(r.unwrap_err().code(), {v6 ? PE::invalid_ipv6_address_size : PE::invalid_ipv4_address_size}), "another size is rejected"); sym_cover("rejected"); return; }
    sym_assert(r.is_ok() && bytes_of(r.unwrap().view()) == b, "the bytes are kept");
    auto f = stun::Family::from_uint8(sym_u8("family"));
    uint8_t q = sym_u8("family2"); auto g = stun::Family::from_uint8(q);
    sym_assert(g.is_ok() == (q == 1 || q == 2), "family numbers");
    if (g.is_ok()) sym_assert(g.unwrap().to_uint8() == q && (g.unwrap().type() == r.unwrap().family().type()) == (q == (v6 ? 2 : 1)), "family kept");
    sym_cover("accepted");
}

static void wire(Built& b, bool sign) {
    AnySha1 h;
    std::string pw = any_string(3, "password"); Bytes key(pw.begin(), pw.end());
    stun::MaybeIntegrity mi = none();
    if (sign) mi = integrity(h, pw);
    auto r = b.message().build(mi);
    sym_assert(r.is_ok(), "the message is built");
    if (r.is_err()) return;
    check_wire(b, r.unwrap(), sign ? &h : nullptr, key);
    sym_cover(sign ? "signed" : "unsigned");
}
HARNESS(h_wire_one) {
    size_t k = sym_param(0), len = sym_param(1), f = sym_param(2);
    Built b; any_header(b);
    any_set(b, 1u << k | (f & 1) << 10, len, k % 3, f & 2);
    wire(b, f & 2);
}
// bits of the parameter choose among pairs of attributes
static unsigned mask_of(unsigned x) {
    static const uint16_t bit[10] = {1 << 0 | 1 << 9, 1 << 1 | 1 << 2, 1 << 3, 1 << 4 | 1 << 7, 1 << 5, 1 << 10, 1 << 6, 1 << 8, 1 << 11, 1 << 12};
    unsigned m = 0; for (int i = 0; i < 10; ++i) if (x >> i & 1) m |= bit[i];
    return m;
}
HARNESS(h_wire_set) {
    unsigned x = sym_param(0), f = sym_param(1);
    Built b; any_header(b);
    any_set(b, mask_of(x), 1 + x % 4, x % 3, f & 2);
    wire(b, f & 1);
}
// ---- C16 -----------------------------------------------------------------
static bool value_equal(const stun::Message& m, const Want& w) {
    const auto& s = m.attribute_set;
    const Bytes& v = w.value;
    auto str = [&](const std::string& x) { return x.size() == v.size() && sym_eq_bytes(x.data(), v.data(), v.size()); };
    auto adr = [&](const net::ip::Address& a, size_t off) { return a.view().size() == v.size() - off && sym_eq_bytes(a.view().data(), v.data() + off, v.size() - off); };
    switch (w.type) {
    case MAPPED: return s.mapped().is_some() && adr(s.mapped().unwrap().get().addr, 4) && s.mapped().unwrap().get().port.value() == be16(v.data() + 2);
    case ALTSERVER: return s.alternate_server().is_some() && adr(s.alternate_server().unwrap().get().addr, 4) && s.alternate_server().unwrap().get().port.value() == be16(v.data() + 2);
    case XMAPPED: return s.xor_mapped().is_some() && bytes_of(s.xor_mapped().unwrap().get().addr.view()) == Bytes(v.begin() + 4, v.end()) && s.xor_mapped().unwrap().get().port.value() == (be16(v.data() + 2) ^ (COOKIE >> 16));
    case USERNAME: return s.username().is_some() && str(s.username().unwrap().get().value);
    case SOFTWARE: return s.software().is_some() && str(s.software().unwrap().get());
    case PRIO: return s.priority().is_some() && s.priority().unwrap().get() == be32(v.data());
    case CONTROLLED: return s.ice_controlled().is_some() && s.ice_controlled().unwrap().get() == be64(v.data());
    case CONTROLLING: return s.ice_controlling().is_some() && s.ice_controlling().unwrap().get() == be64(v.data());
    case USECAND: return s.has_use_candidate();
    case UNKNOWN_ATTRS: {
        if (s.unknown_attributes().is_none()) return false;
        const auto& t = s.unknown_attributes().unwrap().get().types;
        if (t.size() != v.size() / 2) return false;
        bool ok = true; for (size_t i = 0; i < t.size(); ++i) ok &= t[i].value() == be16(v.data() + 2 * i);
        return ok; }
    case ERRCODE: {
        if (s.error_code().is_none()) return false;
        const auto& e = s.error_code().unwrap().get();
        if (e.code != v[2] * 100u + v[3]) return false;
        return v.size() == 4 ? e.reason_phrase.value_or(std::string()).empty() : e.reason_phrase.is_some() && e.reason_phrase.unwrap() == std::string(v.begin() + 4, v.end()); }
    default: return true;
    }
}
static void roundtrip(Built& b) {
    sym_assume(!(b.old && b.cls != 0));     // RFC 3489 form exists for requests only
    auto r = b.message().build(none());
    sym_assert(r.is_ok(), "the message is built");
    if (r.is_err()) return;
    stun::ParseStat st;
    auto q = stun::Message::parse(View(r.unwrap()), st);
    sym_assert(q.is_ok(), "a built message parses");
    if (q.is_err()) return;
    const auto& m = q.unwrap();
    if (!b.old) sym_assert(!m.is_rfc3489, "flavour");
    if (b.old && !(b.tid[0] == 0x21 && b.tid[1] == 0x12 && b.tid[2] == 0xa4 && b.tid[3] == 0x42)) sym_assert((bool)m.is_rfc3489 && bytes_of(m.header.transaction_id.view()) == Bytes(b.tid, b.tid + 16), "RFC 3489 flavour and transaction id");
    if (!b.old) sym_assert(bytes_of(m.header.transaction_id.view()) == Bytes(b.tid, b.tid + 12), "transaction id");
    sym_assert(m.header.cls == b.header().cls && m.header.method == b.header().method, "class and method");
    for (auto& w : b.want) sym_assert(value_equal(m, w), "each attribute has the value put in");
    sym_assert(m.attribute_set.has_fingerprint() == b.fp, "FINGERPRINT");
    sym_assert(m.attribute_set.integrity().is_none(), "no MESSAGE-INTEGRITY unless asked for");
    unsigned mask = 0; for (auto& w : b.want) for (int k = 0; k < 13; ++k) if (KNOWN[k] == w.type) mask |= 1u << k;
    const auto& s = m.attribute_set;
    sym_assert(s.mapped().is_some() == (mask >> 0 & 1) && s.username().is_some() == (mask >> 1 & 1) && s.error_code().is_some() == (mask >> 3 & 1) && s.unknown_attributes().is_some() == (mask >> 4 & 1)
        && s.xor_mapped().is_some() == (mask >> 5 & 1) && s.priority().is_some() == (mask >> 6 & 1) && s.has_use_candidate() == (mask >> 7 & 1) && s.software().is_some() == (mask >> 8 & 1)
        && s.alternate_server().is_some() == (mask >> 9 & 1) && s.ice_controlled().is_some() == (mask >> 11 & 1) && s.ice_controlling().is_some() == (mask >> 12 & 1), "nothing else appears");
    // unknown attributes: compare through building again
    auto again = stun::Message{b.header(), s, stun::IsRFC3489{b.old}, none()}.build(none());
    sym_assert(again.is_ok() && again.unwrap().size() == r.unwrap().size(), "nothing is lost");
    std::vector<AttributeType> req = s.unknown_comprehension_required();
    size_t i = 0;
    for (auto& w : b.want) if (!is_known(w.type) && w.type < 0x8000) { sym_assert(i < req.size() && req[i].value() == w.type, "unknown comprehension-required types in order"); ++i; }
    sym_assert(i == req.size(), "no other unknown type");
    check_wire(b, again.unwrap(), nullptr, {});
    sym_cover("round trip");
}
HARNESS(h_build_one) {
    size_t k = sym_param(0), len = sym_param(1), f = sym_param(2);
    Built b; any_header(b);
    any_set(b, 1u << k | (f & 1) << 10, len, k % 3, f & 2);
    roundtrip(b);
}
// many unknown attributes beside three known ones
static void many(Built& b) {
    any_set(b, 1u << 6 | 1u << 8 | 1u << 10, 3, 0, false);
    size_t n = sym_param(0);
    for (size_t i = 0; i < n; ++i) {
        uint16_t t = i + 1 == n ? sym_u16("type") : (i % 3 ? 0x0031 : 0x8031) + i;
        sym_assume(!is_known(t));
        Bytes d = any_bytes(i % 5, "udata");
        b.set.emplace(stun::UnknownAttribute(AttributeType::from_uint16(t), View(d))); b.want.push_back({t, d});
    }
}
HARNESS(h_build_many) { Built b; any_header(b); many(b); roundtrip(b); }
HARNESS(h_wire_many) { Built b; any_header(b); many(b); wire(b, sym_bool("sign")); }
// unknown attributes of one length, any types and contents: equal ones included
static void repeat(Built& b) {
    any_set(b, 1u << 8, 3, 0, false);
    for (size_t i = 0; i < sym_param(0); ++i) {
        uint16_t t = sym_u16("type");
        sym_assume(!is_known(t));
        Bytes d = any_bytes(sym_param(1), "udata");
        b.set.emplace(stun::UnknownAttribute(AttributeType::from_uint16(t), View(d))); b.want.push_back({t, d});
    }
}
HARNESS(h_build_repeat) { Built b; any_header(b); repeat(b); roundtrip(b); }
HARNESS(h_wire_repeat) { Built b; any_header(b); repeat(b); wire(b, false); }
HARNESS(h_build_set) {
    unsigned x = sym_param(0);
    Built b; any_header(b);
    any_set(b, mask_of(x), 1 + x % 4, x % 3, x & 1);
    roundtrip(b);
}
// ---- C18 -----------------------------------------------------------------
// message with `pre` bytes of attributes (one unknown), MESSAGE-INTEGRITY, then `post` attributes (unknown ones, then FINGERPRINT for post 2)
HARNESS(h_valid) {
    size_t pre = sym_param(0), post = sym_param(1);
    size_t mi = 20 + pre, n = mi + 24 + (post == 1 ? 8 : post == 2 ? 8 : post == 3 ? 12 : post == 4 ? 24 : post == 5 ? 32 : post == 6 ? 16 : 0);
    Bytes b(n);
    size_t cl = sym_choice("class", 5);            // 4: a request of RFC 3489
    put16(b.data(), msg_type(cl & 3, 1)); put16(b.data() + 2, n - 20); put32(b.data() + 4, COOKIE); sym_bytes(b.data() + (cl == 4 ? 4 : 8), cl == 4 ? 16 : 12, "tid");
    if (pre) { put16(b.data() + 20, SOFTWARE); put16(b.data() + 22, pre - 4); sym_bytes(b.data() + 24, pre - 4, "pre"); }
    put16(b.data() + mi, INTEGRITY); put16(b.data() + mi + 2, 20); sym_bytes(b.data() + mi + 4, 20, "digest");
    if (post == 1 || post == 3) { put16(b.data() + mi + 24, 0x8077); put16(b.data() + mi + 26, n - mi - 28); sym_bytes(b.data() + mi + 28, n - mi - 28, "post"); }
    if (post == 4 || post == 5) { put16(b.data() + mi + 24, INTEGRITY); put16(b.data() + mi + 26, 20); sym_bytes(b.data() + mi + 28, 20, "digest2"); }
    if (post == 6) { put16(b.data() + mi + 24, USERNAME); put16(b.data() + mi + 26, 4); sym_bytes(b.data() + mi + 28, 4, "post"); }
    if (post >= 5) { put16(b.data() + n - 8, FINGERPRINT); put16(b.data() + n - 6, 4); put32(b.data() + n - 4, fingerprint(b.data(), n - 8)); }
    if (post == 2) { put16(b.data() + mi + 24, FINGERPRINT); put16(b.data() + mi + 26, 4); put32(b.data() + mi + 28, fingerprint(b.data(), mi + 24)); }
    AnySha1 h;
    crypto::SHA1Hash::Func f = h;
    std::string pw = any_string(4, "password"); Bytes key(pw.begin(), pw.end());
    auto password = stun::Password::short_term(precis::OpaqueString{pw}, f).unwrap();
    stun::ParseStat st;
    auto r = stun::Message::parse(View(b), st);
    sym_assert(r.is_ok(), "the message parses");
    if (r.is_err()) return;
    const auto& m = r.unwrap();
    sym_assert(m.integrity_interval.is_some(), "integrity interval");
    h.log->fail_mask = (unsigned)sym_choice("fail", 4);
    h.log->made = 0;
    auto v = m.is_valid(View(b), stun::IntegrityData{password, f});
    if (h.log->failed) { sym_assert(v.is_err(), "a hash failure is an error, not a verdict"); sym_cover("hash failed"); return; }
    sym_assert(v.is_ok() && v.unwrap().is_some(), "a signed message gets a verdict");
    if (v.is_err() || v.unwrap().is_none()) return;
    Bytes data(b.begin(), b.begin() + mi); put16(data.data() + 2, mi + 24 - 20);
    bool good = sym_eq_bytes(hmac(h, key, data).data(), b.data() + mi + 4, 20);
    sym_assert(v.unwrap().unwrap() == good, "valid exactly when the digest is the HMAC of the bytes before it");
    sym_cover(v.unwrap().unwrap() ? "valid" : "not valid");
}
HARNESS(h_valid_unsigned) {
    size_t pre = sym_param(0), n = 20 + pre;
    Bytes b(n);
    put16(b.data(), msg_type(sym_choice("class", 4), 1)); put16(b.data() + 2, n - 20); put32(b.data() + 4, COOKIE); sym_bytes(b.data() + 8, 12, "tid");
    if (pre) { put16(b.data() + 20, SOFTWARE); put16(b.data() + 22, pre - 4); sym_bytes(b.data() + 24, pre - 4, "pre"); }
    AnySha1 h;
    crypto::SHA1Hash::Func f = h;
    h.log->fail_mask = (unsigned)sym_choice("fail", 4);
    auto password = stun::Password::short_term(precis::OpaqueString{any_string(4, "password")}, f).unwrap();
    stun::ParseStat st;
    auto r = stun::Message::parse(View(b), st);
    sym_assert(r.is_ok(), "the message parses");
    if (r.is_err()) return;
    auto v = r.unwrap().is_valid(View(b), stun::IntegrityData{password, f});
    sym_assert(v.is_ok() && v.unwrap().is_none(), "no MESSAGE-INTEGRITY: not signed");
    sym_cover("not signed");
}
// a message the library signs is valid under the same password, and under another one only if the HMACs agree
HARNESS(h_sign) {
    size_t len = sym_param(0); bool fp = sym_param(1);
    Built b; b.cls = sym_choice("class", 4); b.method = 1; b.old = false; b.tidn = 12; sym_bytes(b.tid, 16, "tid");
    any_set(b, (1u << 1) | (unsigned)fp << 10, len, len % 2, false);
    AnySha1 h; h.log->no_collision = true;
    std::string pw = any_string(4, "password"), pw2 = any_string(4, "password2");
    auto mi = integrity(h, pw), mi2 = integrity(h, pw2);
    auto r = b.message().build(mi);
    sym_assert(r.is_ok(), "the message is built");
    if (r.is_err()) return;
    Bytes key(pw.begin(), pw.end());
    check_wire(b, r.unwrap(), &h, key);
    stun::ParseStat st;
    auto m = stun::Message::parse(View(r.unwrap()), st);
    sym_assert(m.is_ok(), "a signed message parses");
    if (m.is_err()) return;
    auto v = m.unwrap().is_valid(View(r.unwrap()), mi.unwrap());
    sym_assert(v.is_ok() && v.unwrap().is_some() && v.unwrap().unwrap(), "a message signed by the library is valid");
    auto v2 = m.unwrap().is_valid(View(r.unwrap()), mi2.unwrap());
    sym_assert(v2.is_ok() && v2.unwrap().is_some() && v2.unwrap().unwrap() == (pw == pw2), "valid under no other password (without hash collisions)");
    sym_cover(pw == pw2 ? "same password" : "other password");
}
HARNESS(h_sign_fault) {
    size_t len = sym_param(0);
    Built b; b.cls = 0; b.method = 1; b.old = false; b.tidn = 12; sym_bytes(b.tid, 16, "tid");
    any_set(b, (1u << 1) | 1u << 10, len, len % 2, false);
    AnySha1 h;
    auto mi = integrity(h, "pass");
    h.log->fail_mask = (unsigned)sym_choice("fail", 4);
    auto r = b.message().build(mi);
    sym_assert(r.is_err() == (h.log->failed != 0), "building fails exactly when the hash does");
    sym_cover(r.is_err() ? "failed" : "built");
}
// ---- C43 -----------------------------------------------------------------
HARNESS(h_set) {
    size_t n = sym_param(0);
    Built b; b.cls = 0; b.method = 1; b.old = false; b.tidn = 12; sym_bytes(b.tid, 16, "tid");
    stun::TransactionId id(View(b.tid, 12));
    AttributeSet s;
    std::vector<Want> first; unsigned mask = 0;
    stun::MessageIntegityAttribute::Digest *dg = nullptr; Bytes digest;
    for (size_t i = 0; i < n; ++i) {
        size_t k = sym_choice("kind", 13);
        AttributeSet::AttrVec v; std::vector<Want> w;
        any_attr(k, i + 1, id, v, w, i & 1);
        if (KNOWN[k] == INTEGRITY && !(mask >> k & 1)) digest = bytes_of(std::get<stun::MessageIntegityAttribute>(v[0]).digest.value.value());
        s.emplace(Attribute::create(std::move(v[0])));
        if (!(mask >> k & 1)) for (auto& x : w) first.push_back(x);
        mask |= 1u << k;
    }
    (void)dg;
    stun::Message m{b.header(), s, stun::IsRFC3489{false}, none()};
    for (auto& w : first) sym_assert(value_equal(m, w), "the accessor gives the first inserted attribute of its kind");
    if (mask >> 2 & 1) sym_assert(s.integrity().is_some() && bytes_of(s.integrity().unwrap().get().value.value()) == digest, "digest");
    sym_assert(s.mapped().is_some() == (mask >> 0 & 1) && s.username().is_some() == (mask >> 1 & 1) && s.integrity().is_some() == (mask >> 2 & 1) && s.error_code().is_some() == (mask >> 3 & 1) && s.unknown_attributes().is_some() == (mask >> 4 & 1)
        && s.xor_mapped().is_some() == (mask >> 5 & 1) && s.priority().is_some() == (mask >> 6 & 1) && s.has_use_candidate() == (mask >> 7 & 1) && s.software().is_some() == (mask >> 8 & 1)
        && s.alternate_server().is_some() == (mask >> 9 & 1) && s.has_fingerprint() == (mask >> 10 & 1) && s.ice_controlled().is_some() == (mask >> 11 & 1) && s.ice_controlling().is_some() == (mask >> 12 & 1), "accessors give nothing for kinds not inserted");
    sym_assert(s.unknown_comprehension_required().empty(), "no unknown attribute");
    AttributeSet c = s;
    stun::Message mc{b.header(), c, stun::IsRFC3489{false}, none()};
    for (auto& w : first) sym_assert(value_equal(mc, w), "copies hold the same");
    sym_cover("checked");
}
HARNESS(h_set_unknown) {
    size_t n = sym_param(0);
    AttributeSet s; std::vector<uint16_t> req;
    for (size_t i = 0; i < n; ++i) {
        uint16_t t = n < 6 || i + 1 == n ? sym_u16("type") : (i % 3 ? 0x0031 : 0x8031) + i;
        Bytes d = any_bytes(i % 6, "data");
        s.emplace(stun::UnknownAttribute(AttributeType::from_uint16(t), View(d)));
        if (t < 0x8000) req.push_back(t);
    }
    auto u = s.unknown_comprehension_required();
    sym_assert(u.size() == req.size(), "as many as inserted below 0x8000");
    for (size_t i = 0; i < u.size() && i < req.size(); ++i) sym_assert(u[i].value() == req[i], "the inserted types, in order");
    sym_assert(s.username().is_none() && s.mapped().is_none() && !s.has_fingerprint() && !s.has_use_candidate(), "unknown attributes are no known ones");
    sym_cover("checked");
}
HARNESS(h_alternate) {
    Built b; any_header(b);
    bool has = sym_bool("has error code"); unsigned code = sym_u32("code");
    bool other = sym_bool("alternate server");
    if (has) b.set.emplace(Attribute::create(stun::ErrorCodeAttribute{code, none()}));
    uint8_t raw[16];
    if (other) b.set.emplace(Attribute::create(stun::AlternateServerAttribute{any_addr(false, raw, "addr"), net::Port::from_uint16(80)}));
    sym_assert(b.message().is_alternate_server() == (b.cls == 3 && has && code == 300), "an error response with code 300");
    sym_cover("checked");
}
