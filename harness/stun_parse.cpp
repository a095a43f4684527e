// STUN message parsing: C08 (memory), C09 (header), C11 (attribute walk),
// C12 (attribute values), C13 (fingerprint), C15 (statistics).
// @job C08 quick h_stun_memory 0..28/4 | 1,19,21,22,23,27
// @job C08 thorough h_stun_memory 0..32 time=3000
// @job C08 quick h_stun_memory_attr 0..14 0..28/3 | 0,1,3,4,8,9,13 255,256,300,511,600,1026,4099 | 1,13 32770
// @job C08 thorough h_stun_memory_attr 0..14 0..64
// @job C08 quick,thorough h_stun_far 0..4
// @job C09 quick h_stun_header 0..28
// @job C09 thorough h_stun_header 0..80
// @job C11 quick h_stun_walk 4..8/4
// @job C11 thorough h_stun_walk 4..12/4 time=3000
// @job C11 quick h_stun_layout 0..11,20..23
// @job C11 thorough h_stun_layout 0..24 time=1200
// @job C11 quick,thorough h_stun_pair 0..14 0..3
// @job C11 quick h_stun_triple 1,2,10
// @job C11 thorough h_stun_triple 0..14 time=1800
// @job C11 quick,thorough h_stun_unknown 0..9 | 255,256,257,510,765,1026,4098,32769,65500
// @job C11 quick,thorough h_stun_repeat 2..3 0..5
// @job C11 quick h_stun_many 5,17,40,65,130
// @job C11 thorough h_stun_many 4..40,60..70,127..130,250..260
// @job C11 quick,thorough h_stun_far 0..4
// @job C12 quick h_stun_attr 0..14 0..24 | 1,3,4,8,13 255,256,511,512,600,1026,4098,32769,65500
// @job C12 thorough h_stun_attr 0..14 0..40
// @job C13 quick h_stun_fingerprint 0..8 0..4 | 60..66,128 0..1
// @job C13 thorough h_stun_fingerprint 0..24 0..8
// @job C13 quick h_stun_fp_corrupt 0..3
// @job C13 thorough h_stun_fp_corrupt 0..12 time=1200
// @job C15 quick h_stun_stat 0..28/4 | 1,19,21,22,23
// @job C15 thorough h_stun_stat 0..32 time=1800
// @job C15 quick h_stun_stat_attr 0..14 0..21 0..1 | 1,3,4,8,13 255,256,513,1026 0..1
// @job C15 quick,thorough h_stun_stat_pair 0..14 0..3
// @job C15 thorough h_stun_stat_attr 0..14 0..24 0..1
// @bound C08, C15: every message of the listed lengths (quick up to 28 bytes, thorough every length up to 32), every content; and messages with one attribute of each known type or an unknown one, value lengths up to 28 (quick) / 64 (thorough) bytes and selected lengths up to 32770, followed by up to one more attribute; five layouts of messages of up to 65552 bytes, types symbolic; C15 also with the pairs of attribute types of C11
// @bound C09: every message of 0..28 (quick) / 0..80 (thorough) bytes whose attribute area, if any, is one empty unknown attribute sequence
// @bound C11: every attribute area of 4..8 (quick) / 4..12 (thorough) bytes, fixed length layouts of up to 5 attributes with symbolic types (of 7) and contents, every ordered pair of the 15 types with the second value of its usual length, empty, one byte or 4 bytes longer, up to 130 (260) unknown attributes before and between known ones, 2 or 3 unknown attributes of any types and equal length, equal ones included, layouts of up to 65552 bytes, and every triple starting with USERNAME, MESSAGE-INTEGRITY or FINGERPRINT (thorough: any type)
// @bound C12: each of the 13 known types and 2 unknown ones, every value of each length 0..24 (quick) / 0..40 (thorough) and of lengths around 256, 512, 1024, 4096, 32768 and 65500
// @bound C13: fingerprinted messages with up to 8x4, 60x4..66x4, 128x4 (quick) / 24x4 (thorough) bytes of preceding attributes; corruptions: any change within 32 consecutive bits, messages with up to 3 (quick) / 12 (thorough) words of attributes
#include "stun_wire.hpp"
using namespace freewebrtc;
using namespace ref;
static bool has(const stun::Message& m, uint16_t t) {
    const auto& s = m.attribute_set;
    switch (t) {
    case MAPPED: return s.mapped().is_some();
    case USERNAME: return s.username().is_some();
    case INTEGRITY: return s.integrity().is_some();
    case ERRCODE: return s.error_code().is_some();
    case UNKNOWN_ATTRS: return s.unknown_attributes().is_some();
    case XMAPPED: return s.xor_mapped().is_some();
    case PRIO: return s.priority().is_some();
    case USECAND: return s.has_use_candidate();
    case SOFTWARE: return s.software().is_some();
    case ALTSERVER: return s.alternate_server().is_some();
    case FINGERPRINT: return s.has_fingerprint();
    case CONTROLLED: return s.ice_controlled().is_some();
    case CONTROLLING: return s.ice_controlling().is_some();
    }
    return false;
}
static bool addr_is(const net::ip::Address& a, const uint8_t *p, size_t n) {
    auto v = a.view();
    return v.size() == n && (n == 4) == (a.value().index() == 0) && sym_eq_bytes(v.data(), p, n);
}
static bool bytes_are(const std::string& s, const uint8_t *p, size_t n) { return s.size() == n && sym_eq_bytes(s.data(), p, n); }
// the value reported for the first occurrence equals what its bytes encode
static bool value_is(const stun::Message& m, const uint8_t *b, const Attr& a) {
    const auto& s = m.attribute_set;
    const uint8_t *v = b + a.off;
    if (!has(m, a.type)) return false;
    switch (a.type) {
    case MAPPED: { const auto& x = s.mapped().unwrap().get(); return addr_is(x.addr, v + 4, a.len - 4) & (x.port.value() == be16(v + 2)); }
    case ALTSERVER: { const auto& x = s.alternate_server().unwrap().get(); return addr_is(x.addr, v + 4, a.len - 4) & (x.port.value() == be16(v + 2)); }
    case XMAPPED: {
        const auto& x = s.xor_mapped().unwrap().get();
        uint8_t e[16];
        for (size_t i = 0; i < a.len - 4 && i < 16; ++i) e[i] = v[4 + i] ^ b[4 + i];   // cookie, then transaction id, as on the wire
        put32(e, be32(v + 4) ^ COOKIE);
        return addr_is(x.addr.to_address(m.header.transaction_id), e, a.len - 4) & (x.port.value() == (be16(v + 2) ^ (COOKIE >> 16)))
            & (x.addr.view().size() == a.len - 4) & sym_eq_bytes(x.addr.view().data(), v + 4, a.len - 4) & (x.addr.family().to_uint8() == v[1]);
    }
    case USERNAME: return bytes_are(s.username().unwrap().get().value, v, a.len);
    case SOFTWARE: return bytes_are(s.software().unwrap().get(), v, a.len);
    case INTEGRITY: return sym_eq_bytes(s.integrity().unwrap().get().value.value().data(), v, 20);
    case PRIO: return s.priority().unwrap().get() == be32(v);
    case CONTROLLED: return s.ice_controlled().unwrap().get() == be64(v);
    case CONTROLLING: return s.ice_controlling().unwrap().get() == be64(v);
    case ERRCODE: {
        const auto& x = s.error_code().unwrap().get();
        const auto& r = x.reason_phrase;
        bool text = r.is_some() ? bytes_are(r.unwrap(), v + 4, a.len - 4) : a.len == 4;
        return text & (x.code == (unsigned)(v[2] & 7) * 100 + v[3]);
    }
    case UNKNOWN_ATTRS: {
        const auto& t = s.unknown_attributes().unwrap().get().types;
        if (t.size() != a.len / 2) return false;
        bool ok = true;
        for (size_t i = 0; i < t.size(); ++i) ok &= t[i].value() == be16(v + 2 * i);
        return ok;
    }
    default: return true;
    }
}
static void touch(const stun::Message& m, const uint8_t *b, size_t n) {
    for (uint16_t t : KNOWN) (void)has(m, t);
    (void)m.is_alternate_server();
    if (m.attribute_set.xor_mapped().is_some()) (void)m.attribute_set.xor_mapped().unwrap().get().addr.to_address(m.header.transaction_id);
    sym_assert(m.header.transaction_id.view().size() == 12 || m.header.transaction_id.view().size() == 16, "transaction id has 96 or 128 bits");
    if (m.integrity_interval.is_some()) sym_assert(m.integrity_interval.unwrap().offset + m.integrity_interval.unwrap().count <= n, "integrity interval lies in the message");
}
HARNESS(h_stun_memory) {
    size_t n = sym_param(0);
    std::unique_ptr<uint8_t[]> b(new uint8_t[n]);
    sym_bytes(b.get(), n, "msg");
    stun::ParseStat st;
    auto r = stun::Message::parse(View(b.get(), n), st);
    if (r.is_err()) { sym_cover("rejected"); return; }
    touch(r.unwrap(), b.get(), n);
    sym_cover("accepted");
}
// a binding request/response header with symbolic class and transaction id
static void put_header(uint8_t *b, size_t n, bool fork_class = false) {
    put16(b, msg_type(fork_class ? sym_choice("class", 4) : sym_u8("class") & 3, 1)); put16(b + 2, n - 20); put32(b + 4, COOKIE);
    sym_bytes(b + 8, 12, "tid");
}
static uint16_t type_of(size_t k) { return k < 13 ? KNOWN[k] : k == 13 ? 0x0014 : 0x8099; }
HARNESS(h_stun_memory_attr) {
    size_t k = sym_param(0), len = sym_param(1);
    size_t n = 20 + 4 + padded(len) + 4;
    std::unique_ptr<uint8_t[]> b(new uint8_t[n]);
    put_header(b.get(), n);
    put16(b.get() + 20, type_of(k));
    unsigned l = sym_u16("len");                       // claims any length, also beyond the message
    sym_assume(l >= len && (l <= padded(len) || l >= padded(len) + 5));
    put16(b.get() + 22, l);
    sym_bytes(b.get() + 24, n - 24, "value");
    stun::ParseStat st;
    auto r = stun::Message::parse(View(b.get(), n), st);
    if (r.is_err()) { sym_cover("rejected"); return; }
    touch(r.unwrap(), b.get(), n);
    sym_cover("accepted");
}
static bool cls_is(const stun::Class& c, unsigned k) {
    switch (k) { case 0: return c == stun::Class::request(); case 1: return c == stun::Class::indication(); case 2: return c == stun::Class::success_response(); default: return c == stun::Class::error_response(); }
}
HARNESS(h_stun_header) {
    size_t n = sym_param(0);
    std::unique_ptr<uint8_t[]> own(new uint8_t[n]);
    uint8_t *b = own.get();
    sym_bytes(b, n, "msg");
    for (size_t at = 20; at + 4 <= n; at += 4) { put16(b + at, 0x8099); put16(b + at + 2, 0); }
    stun::ParseStat st;
    auto r = stun::Message::parse(View(b, n), st);
    if (n < 20) {
        sym_assert(r.is_err() && r.unwrap_err().code() == make_error_code(PE::invalid_message_size), "a message shorter than the header is rejected");
        sym_cover("short"); return;
    }
    unsigned t = be16(b), len = be16(b + 2), cookie = be32(b + 4);
    bool top = (t >> 14) != 0, pad = (len & 3) != 0, size = len != n - 20, ck = cookie != COOKIE && cls(t) != 0;
    if (top || pad || size || ck) {
        sym_assert(r.is_err(), "a header RFC 5389 excludes is rejected");
        if (r.is_ok()) return;
        auto e = r.unwrap_err().code();
        if (pad && !top && !ck) sym_assert(one_of(e, {PE::not_padded_attributes, PE::invalid_message_len}) , "length error");
        if (size && !pad && !top && !ck) sym_assert(one_of(e, {PE::invalid_message_len}), "length field differs from the message size");
        if (ck && !pad && !size && !top) sym_assert(one_of(e, {PE::invalid_magic_cookie}), "magic cookie error");
        sym_cover("rejected"); return;
    }
    sym_assert(n % 4 == 0 && r.is_ok(), "a header RFC 5389 allows is accepted");
    if (r.is_err()) return;
    const auto& m = r.unwrap();
    bool old = cookie != COOKIE;
    sym_assert((bool)m.is_rfc3489 == old, "flagged RFC 3489 exactly when a request lacks the cookie");
    sym_assert(cls_is(m.header.cls, cls(t)), "class");
    sym_assert((m.header.cls.to_msg_type() | m.header.method.to_msg_type()) == t && m.header.method == stun::Method::from_msg_type(msg_type(0, method(t))), "method");
    auto id = m.header.transaction_id.view();
    if (old) { sym_assert(id.size() == 16 && sym_eq_bytes(id.data(), b + 4, 16), "128-bit transaction id"); sym_cover("rfc3489"); }
    else { sym_assert(id.size() == 12 && sym_eq_bytes(id.data(), b + 8, 12), "96-bit transaction id"); sym_cover("rfc5389"); }
    sym_assert(m.integrity_interval.is_none(), "no integrity interval without MESSAGE-INTEGRITY");
}
// result of parsing agrees with the reference walk
static void check_message(const uint8_t *b, size_t n) {
    stun::ParseStat st;
    auto r = stun::Message::parse(View(b, n), st);
    Walk w = walk(b, n);
    if (w.overrun || w.fpNotLast) {
        sym_assert(r.is_err(), "an attribute overrunning the message, or after FINGERPRINT, makes the message invalid");
        if (r.is_ok()) return;
        auto e = r.unwrap_err().code();
        if (w.overrun && !w.fpNotLast) { sym_assert(one_of(e, {PE::invalid_attr_size}), "overrun: error"); sym_cover("overrun"); }
        if (w.fpNotLast && !w.overrun) { bool known = one_of(e, {PE::fingerprint_is_not_last}); for (auto& a : w.attrs) known |= value_bad(b, a) && value_error(b, a, e); sym_assert(known, "FINGERPRINT not last: error"); sym_cover("fingerprint not last"); }
        return;
    }
    bool bad = false;
    for (auto& a : w.attrs) bad |= value_bad(b, a);
    if (bad) {
        sym_assert(r.is_err(), "a value of a size or family its type excludes makes parsing fail");
        if (r.is_ok()) return;
        auto e = r.unwrap_err().code();
        bool known = false;
        for (auto& a : w.attrs) if (value_bad(b, a)) known |= value_error(b, a, e);
        sym_assert(known, "the error is the one for the offending attribute");
        sym_cover("bad value");
        return;
    }
    if (w.fpOff && be32(b + w.fpOff + 4) != fingerprint(b, w.fpOff)) {
        sym_assert(r.is_err(), "wrong fingerprint is rejected");
        if (r.is_ok()) return;
        sym_assert(one_of(r.unwrap_err().code(), {PE::fingerprint_not_valid}), "wrong fingerprint: error");
        sym_cover("wrong fingerprint");
        return;
    }
    sym_assert(r.is_ok(), "a well-formed message is accepted");
    if (r.is_err()) return;
    const auto& m = r.unwrap();
    bool ok = true;
    std::vector<uint16_t> req;
    for (size_t i = 0; i < w.attrs.size(); ++i) {
        const auto& a = w.attrs[i];
        bool first = true;
        for (size_t j = 0; j < i; ++j) first &= w.attrs[j].type != a.type;
        if (is_known(a.type)) { if (first) sym_assert(value_is(m, b, a), "the first occurrence of each known attribute is reported with its value"); }
        else if (a.type < 0x8000) req.push_back(a.type);
    }
    for (uint16_t t : KNOWN) {
        bool present = false;
        for (auto& a : w.attrs) present |= a.type == t;
        if (!present) ok &= !has(m, t);
    }
    sym_assert(ok, "an attribute that does not occur (or is to be ignored) is not reported");
    auto unk = m.attribute_set.unknown_comprehension_required();
    sym_assert(unk.size() == req.size(), "number of unknown comprehension-required attributes");
    for (size_t i = 0; i < req.size() && i < unk.size(); ++i) sym_assert(unk[i].value() == req[i], "unknown comprehension-required types in order");
    sym_assert(m.integrity_interval.is_some() == (w.miOff != 0), "an integrity interval exactly when MESSAGE-INTEGRITY is present");
    if (w.miOff && m.integrity_interval.is_some()) sym_assert(m.integrity_interval.unwrap().offset == 0 && m.integrity_interval.unwrap().count == w.miOff, "the integrity interval ends where MESSAGE-INTEGRITY starts");
    sym_cover("accepted");
    sym_observe(w.attrs.size()); sym_observe(req.size());
}
HARNESS(h_stun_walk) {
    size_t n = 20 + sym_param(0);
    std::unique_ptr<uint8_t[]> b(new uint8_t[n]);
    put_header(b.get(), n);
    sym_bytes(b.get() + 20, n - 20, "attrs");
    check_message(b.get(), n);
}
// value lengths of consecutive attributes; types symbolic among a few, contents symbolic
static const std::vector<std::vector<unsigned>> LAYOUT = {
    {4, 4}, {20, 4}, {20, 20}, {0, 20, 4}, {20, 4, 4}, {1, 2, 3}, {20, 20, 4}, {8, 8}, {20, 0, 4}, {4, 20, 20}, {5, 6, 7}, {8, 20, 4},
    {20, 4, 20, 4}, {1, 20, 8, 4}, {8, 8, 4, 4}, {20, 20, 20, 4}, {0, 0, 0, 20, 4}, {8, 4, 20, 8, 4}, {33, 20, 4}, {64, 20, 4},
    {256, 4}, {257, 20, 4}, {300, 20, 4}, {20, 258, 4}, {513, 4}, {20, 700, 4}};
HARNESS(h_stun_layout) {
    const auto& L = LAYOUT[sym_param(0)];
    size_t n = 20;
    for (unsigned l : L) n += 4 + padded(l);
    std::unique_ptr<uint8_t[]> own(new uint8_t[n]);
    uint8_t *b = own.get();
    put_header(b, n);
    size_t at = 20;
    static const uint16_t T[] = {INTEGRITY, FINGERPRINT, PRIO, USERNAME, XMAPPED, 0x0015, 0x8099};
    for (unsigned l : L) {
        put16(b + at, T[sym_choice("type", 7)]); put16(b + at + 2, l);
        sym_bytes(b + at + 4, padded(l), "value");
        at += 4 + padded(l);
    }
    check_message(b, n);
}
// every ordered pair (triple) of attribute types, contents symbolic
static unsigned usual(size_t k) { static const unsigned L[] = {8, 5, 20, 6, 4, 20, 4, 0, 3, 20, 4, 8, 8, 0, 1}; return L[k]; }
static std::vector<uint8_t> attr_seq(const std::vector<std::pair<size_t, unsigned>>& l) {
    size_t n = 20;
    for (auto& a : l) n += 4 + padded(a.second);
    std::vector<uint8_t> v(n);
    put_header(v.data(), n);
    size_t at = 20;
    for (auto& a : l) {
        put16(&v[at], type_of(a.first)); put16(&v[at + 2], a.second);
        if (a.second) sym_bytes(&v[at + 4], padded(a.second), "value");
        at += 4 + padded(a.second);
    }
    return v;
}
static std::vector<uint8_t> attr_pair() {
    size_t k1 = sym_param(0), mode = sym_param(1), k2 = sym_choice("type", 15);
    return attr_seq({{k1, usual(k1)}, {k2, mode == 0 ? usual(k2) : mode == 1 ? 0 : mode == 2 ? 1 : usual(k2) + 4}});
}
HARNESS(h_stun_pair) {
    auto v = attr_pair();
    check_message(v.data(), v.size());
}
HARNESS(h_stun_triple) {
    size_t k1 = sym_param(0), k2 = sym_choice("type", 15), k3 = sym_choice("type", 15);
    auto v = attr_seq({{k1, usual(k1)}, {k2, usual(k2)}, {k3, usual(k3)}});
    check_message(v.data(), v.size());
}
// n unknown attributes, then some known ones
HARNESS(h_stun_many) {
    size_t n = sym_param(0);
    std::vector<std::pair<uint16_t, Bytes>> l;
    unsigned which = sym_choice("which", 2);
    for (size_t i = 0; i < n; ++i) {
        uint16_t t = i + 1 == n || (which && i == n / 2) ? sym_u16("type") : (i % 3 ? 0x0031 : 0x8031) + i;
        sym_assume(!is_known(t)); l.push_back({t, any_bytes(i % 5, "udata")});
    }
    l.push_back({PRIO, any_bytes(4, "prio")}); l.push_back({SOFTWARE, any_bytes(3, "software")});
    if (which) { l.push_back({INTEGRITY, any_bytes(20, "digest")}); l.push_back({USERNAME, any_bytes(2, "ignored")}); }
    else { l.push_back({PRIO, any_bytes(4, "prio2")}); l.push_back({USERNAME, any_bytes(2, "name")}); l.push_back({CONTROLLING, any_bytes(8, "tie")}); }
    Bytes v(20);
    for (auto& a : l) { Bytes x = cat({num(a.first, 2), num(a.second.size(), 2), a.second}); x.resize(padded(x.size())); v.insert(v.end(), x.begin(), x.end()); }
    put_header(v.data(), v.size());
    check_message(v.data(), v.size());
}
// messages of the largest sizes: attributes near offset 65535
HARNESS(h_stun_far) {
    static const std::vector<unsigned> FAR[5] = {{65500, 4, 12}, {65524, 0}, {32764, 32752, 4}, {65500, 0, 0, 16}, {65520, 4}};
    static const uint16_t T[] = {PRIO, USERNAME, INTEGRITY, 0x0015, 0x8099};
    size_t n = 20;
    const auto& L = FAR[sym_param(0)];
    for (unsigned l : L) n += 4 + padded(l);
    Bytes b(n);
    put_header(b.data(), n);
    size_t at = 20;
    for (unsigned l : L) {
        put16(&b[at], l > 1000 ? (at > 20 ? (uint16_t)SOFTWARE : (uint16_t)0x8044) : T[sym_choice("type", 5)]); put16(&b[at + 2], l);
        if (l) sym_bytes(&b[at + 4], l > 64 ? 64 : padded(l), "value");
        at += 4 + padded(l);
    }
    if (sym_bool("overrun")) put16(&b[n - 2 - padded(L.back())], L.back() + 1 + 3 * padded(L.back()));
    check_message(b.data(), n);
}
// an unknown attribute is kept with its exact type and bytes: it reappears when the message is built again
// unknown attributes of one length, any types and contents: equal ones included
HARNESS(h_stun_repeat) {
    size_t k = sym_param(0), len = sym_param(1), n = 20 + k * (4 + padded(len));
    Bytes b(n);
    put_header(b.data(), n);
    std::vector<uint16_t> need;
    for (size_t i = 0, at = 20; i < k; ++i, at += 4 + padded(len)) {
        uint16_t t = sym_u16("type"); sym_assume(!is_known(t));
        put16(b.data() + at, t); put16(b.data() + at + 2, len); sym_bytes(b.data() + at + 4, len, "value");
        if (t < 0x8000) need.push_back(t);
    }
    stun::ParseStat st;
    auto r = stun::Message::parse(View(b), st);
    sym_assert(r.is_ok(), "unknown attributes are accepted");
    if (r.is_err()) return;
    auto u = r.unwrap().attribute_set.unknown_comprehension_required();
    sym_assert(u.size() == need.size(), "every comprehension-required one is reported");
    for (size_t i = 0; i < need.size() && i < u.size(); ++i) sym_assert(u[i].value() == need[i], "in order");
    auto o = r.unwrap().build();
    sym_assert(o.is_ok() && same(o.unwrap(), b), "each is kept as often as it occurs");
    sym_cover("repeated");
}
HARNESS(h_stun_unknown) {
    size_t len = sym_param(0), n = 20 + 4 + padded(len) + 4;
    std::unique_ptr<uint8_t[]> own(new uint8_t[n]);
    uint8_t *b = own.get();
    put_header(b, n);
    unsigned t = sym_u16("type"), u = sym_u16("type2");
    sym_assume(!is_known(t) && !is_known(u));
    put16(b + 20, t); put16(b + 22, len); sym_bytes(b + 24, padded(len), "value");
    put16(b + n - 4, u); put16(b + n - 2, 0);
    stun::ParseStat st;
    auto r = stun::Message::parse(View(b, n), st);
    sym_assert(r.is_ok(), "unknown attributes are accepted");
    if (r.is_err()) return;
    auto o = r.unwrap().build();
    sym_assert(o.is_ok() && o.unwrap().size() == n, "the rebuilt message has both unknown attributes");
    if (o.is_err() || o.unwrap().size() != n) return;
    const uint8_t *p = o.unwrap().data();
    sym_assert(sym_eq_bytes(p, b, 24 + len) && sym_eq_bytes(p + n - 4, b + n - 4, 4), "type, length and bytes of unknown attributes are kept, in order");
    sym_cover("unknown");
}
HARNESS(h_stun_attr) {
    size_t k = sym_param(0), len = sym_param(1), n = 20 + 4 + padded(len);
    std::unique_ptr<uint8_t[]> own(new uint8_t[n]);
    uint8_t *b = own.get();
    put_header(b, n);
    put16(b + 20, type_of(k)); put16(b + 22, len);
    sym_bytes(b + 24, padded(len), "value");
    check_message(b, n);
}
HARNESS(h_stun_fingerprint) {
    size_t before = 4 * sym_param(0), fplen = 4 + sym_param(1) * 0, pre = sym_param(1), n = 20 + (before ? 4 + before : 0) + 4 * pre + 8;
    std::unique_ptr<uint8_t[]> own(new uint8_t[n]);
    uint8_t *b = own.get();
    sym_bytes(b, n, "msg");
    bool old = sym_bool("rfc3489");
    b[0] &= 0x3f;
    put16(b + 2, n - 20);
    if (!old) put32(b + 4, COOKIE); else { b[0] &= 0x3e; b[1] &= 0xef; }
    size_t at = 20;
    if (before) { put16(b + at, USERNAME); put16(b + at + 2, before - sym_choice("pad", 4)); at += 4 + before; }
    for (size_t i = 0; i < pre; ++i) { put16(b + at, 0x80aa); put16(b + at + 2, 0); at += 4; }
    put16(b + at, FINGERPRINT); put16(b + at + 2, fplen);
    uint32_t fp = be32(b + at + 4);
    stun::ParseStat st;
    auto r = stun::Message::parse(View(b, n), st);
    bool right = fp == fingerprint(b, at);
    sym_assert(r.is_ok() == right, "accepted exactly when the fingerprint is the CRC-32 of the preceding bytes XOR 0x5354554e");
    if (r.is_err()) { sym_assert(one_of(r.unwrap_err().code(), {PE::fingerprint_not_valid}) && st.invalid_fingerprint.count() == 1, "reported as a wrong fingerprint"); sym_cover("wrong"); return; }
    sym_assert(r.unwrap().attribute_set.has_fingerprint(), "the fingerprint is reported");
    sym_cover("right");
}
// no change confined to 32 consecutive bits of a correctly fingerprinted message is accepted
HARNESS(h_stun_fp_corrupt) {
    size_t body = 4 * sym_param(0), n = 20 + (body ? 4 + body : 0) + 8;
    std::unique_ptr<uint8_t[]> own(new uint8_t[n]);
    uint8_t *b = own.get();
    put_header(b, n, true);
    if (body) { put16(b + 20, SOFTWARE); put16(b + 22, body); sym_bytes(b + 24, body, "text"); }
    put16(b + n - 8, FINGERPRINT); put16(b + n - 6, 4);
    put32(b + n - 4, fingerprint(b, n - 8));
    size_t at = sym_choice("where", n - 3);
    uint32_t e = sym_u32("error");
    sym_assume(e != 0);
    put32(b + at, be32(b + at) ^ e);
    // the fingerprint attribute's own header, or the one before it, must still announce it
    sym_assume(be16(b + n - 8) == FINGERPRINT && be16(b + n - 6) == 4);
    if (body) sym_assume(be16(b + 20) == SOFTWARE && be16(b + 22) == body);
    stun::ParseStat st;
    auto r = stun::Message::parse(View(b, n), st);
    sym_assert(r.is_err(), "a corrupted message is not accepted");
    sym_cover("corrupted");
}
// counters, C15
static unsigned counter_of(const stun::ParseStat& s, const std::error_code& e) {
    if (e == net::make_error_code(net::Error::invalid_address_size)) return s.invalid_ip_address.count();
    if (e.category() != stun::stun_parse_error_category()) return 99;
    switch ((PE)e.value()) {
    case PE::invalid_message_size: return s.invalid_size.count();
    case PE::not_padded_attributes: return s.not_padded.count();
    case PE::invalid_message_len: return s.message_length_error.count();
    case PE::invalid_magic_cookie: return s.magic_cookie_error.count();
    case PE::invalid_attr_size: return s.invalid_attr_size.count();
    case PE::invalid_mapped_addr: return s.invalid_mapped_address.count();
    case PE::invalid_xor_mapped_addr: return s.invalid_xor_mapped_address.count();
    case PE::invalid_ipv4_address_size: case PE::invalid_ipv6_address_size: case PE::unknown_addr_family: return s.invalid_ip_address.count();
    case PE::integrity_digest_size: return s.invalid_message_integrity.count();
    case PE::fingerprint_crc_size: return s.invalid_fingerprint_size.count();
    case PE::fingerprint_is_not_last: return s.fingerprint_not_last.count();
    case PE::fingerprint_not_valid: return s.invalid_fingerprint.count();
    case PE::priority_attribute_size: return s.invalid_priority_size.count();
    case PE::ice_controlled_size: return s.invalid_ice_controlled_size.count();
    case PE::ice_controlling_size: return s.invalid_ice_controlling_size.count();
    case PE::use_candidate_size: return s.invalid_use_candidate_size.count();
    case PE::error_code_attribute_size: return s.invalid_error_code_size.count();
    case PE::unknown_attributes_attribute_size: return s.invalid_unknown_attributes_attr_size.count();
    case PE::invalid_message_type: return s.invalid_message_type.count();
    default: return 98;
    }
}
static unsigned sum(const stun::ParseStat& s) {     // all counters: the structure holds nothing else
    static_assert(sizeof(stun::ParseStat) % sizeof(stat::Counter) == 0);
    const stat::Counter *c = reinterpret_cast<const stat::Counter *>(&s);
    unsigned t = 0;
    for (size_t i = 0; i < sizeof s / sizeof *c; ++i) t += c[i].count();
    return t;
}
static void check_stat(const uint8_t *b, size_t n) {
    stun::ParseStat st;
    auto r = stun::Message::parse(View(b, n), st);
    if (r.is_ok()) {
        sym_assert(st.success.count() == 1 && st.error.count() == 0, "an accepted message counts as one success");
        sym_assert(sum(st) == 1, "an accepted message increments no reason");
        sym_cover("accepted");
    } else {
        sym_assert(st.success.count() == 0 && st.error.count() == 1, "a rejected message counts as one error");
        sym_assert(counter_of(st, r.unwrap_err().code()) == 1, "the counter of the reported reason is incremented");
        sym_assert(sum(st) == 2, "no other counter changes");
        sym_cover("rejected");
    }
    // a second parse adds the same again
    auto r2 = stun::Message::parse(View(b, n), st);
    sym_assert(st.success.count() == (r.is_ok() ? 2u : 0u) && st.error.count() == (r.is_ok() ? 0u : 2u) && sum(st) == (r.is_ok() ? 2u : 4u), "counters accumulate over messages");
}
HARNESS(h_stun_stat) {
    size_t n = sym_param(0);
    std::unique_ptr<uint8_t[]> b(new uint8_t[n]);
    sym_bytes(b.get(), n, "msg");
    check_stat(b.get(), n);
}
HARNESS(h_stun_stat_attr) {
    size_t k = sym_param(0), len = sym_param(1), twice = sym_param(2), one = 4 + padded(len), n = 20 + one * (1 + twice);
    std::unique_ptr<uint8_t[]> b(new uint8_t[n]);
    put_header(b.get(), n);
    for (size_t i = 0, at = 20; i <= twice; ++i, at += one) {
        put16(b.get() + at, type_of(i ? (k + 5) % 15 : k)); put16(b.get() + at + 2, len);
        sym_bytes(b.get() + at + 4, padded(len), "value");
    }
    check_stat(b.get(), n);
}
HARNESS(h_stun_stat_pair) {
    auto v = attr_pair();
    check_stat(v.data(), v.size());
}
