// Messages to be built, with the wire form expected of them (RFC 5389).
#pragma once
#include "stun_ref.hpp"
#include "hash_ref.hpp"
#include "stun/stun_integrity.hpp"
namespace ref {
using stun::Attribute; using stun::AttributeSet; using stun::AttributeType;
inline net::ip::Address any_addr(bool v6, uint8_t *raw, const char *name) {
    sym_bytes(raw, v6 ? 16 : 4, name);
    if (v6) return net::ip::Address::move_from_v6(net::ip::AddressV6::from_view(View(raw, 16)).unwrap());
    return net::ip::Address::move_from_v4(net::ip::AddressV4::from_view(View(raw, 4)).unwrap());
}
// ---- expected wire form of an attribute list -----------------------------
struct Want { uint16_t type; Bytes value; };
inline Bytes num(uint64_t v, int n) { Bytes b; for (int i = n - 1; i >= 0; --i) b.push_back(v >> 8 * i); return b; }
// an attribute of kind k (index in KNOWN) with symbolic value of size about len
inline void any_attr(size_t k, size_t len, const stun::TransactionId& id, AttributeSet::AttrVec& out, std::vector<Want>& want, bool v6) {
    uint16_t t = KNOWN[k];
    auto mk = [&](Attribute::Value&& v, Bytes w) { out.emplace_back(std::move(v)); want.push_back({t, std::move(w)}); };
    uint8_t raw[16];
    switch (t) {
    case MAPPED: case ALTSERVER: case XMAPPED: {
        auto a = any_addr(v6, raw, "addr"); size_t n = v6 ? 16 : 4; uint16_t port = sym_u16("port");
        auto p = net::Port::from_uint16(port);
        if (t == XMAPPED) {
            Bytes pad = cat({num(COOKIE, 4), bytes_of(id.view())});
            Bytes w = cat({num(v6 ? 2 : 1, 2), num(port ^ (COOKIE >> 16), 2)});
            for (size_t i = 0; i < n; ++i) w.push_back(raw[i] ^ pad[i]);
            mk(stun::XorMappedAddressAttribute{stun::XoredAddress::from_address(a, id), p}, w);
        } else {
            Bytes w = cat({num(v6 ? 2 : 1, 2), num(port, 2), Bytes(raw, raw + n)});
            if (t == MAPPED) mk(stun::MappedAddressAttribute{a, p}, w); else mk(stun::AlternateServerAttribute{a, p}, w);
        }
        break; }
    case USERNAME: { std::string s = any_string(len, "username"); mk(stun::UsernameAttribute{precis::OpaqueString{s}}, Bytes(s.begin(), s.end())); break; }
    case SOFTWARE: { std::string s = any_string(len, "software"); mk(stun::SoftwareAttribute{s}, Bytes(s.begin(), s.end())); break; }
    case PRIO: { uint32_t v = sym_u32("priority"); mk(stun::PriorityAttribute{v}, num(v, 4)); break; }
    case CONTROLLED: { uint64_t v = sym_u64("tie"); mk(stun::IceControlledAttribute{v}, num(v, 8)); break; }
    case CONTROLLING: { uint64_t v = sym_u64("tie"); mk(stun::IceControllingAttribute{v}, num(v, 8)); break; }
    case USECAND: mk(stun::UseCandidateAttribute{}, {}); break;
    case UNKNOWN_ATTRS: {
        stun::UnknownAttributesAttribute a; Bytes w;
        for (size_t i = 0; i < len; ++i) { uint16_t x = sym_u16("utype"); a.types.push_back(AttributeType::from_uint16(x)); w.push_back(x >> 8); w.push_back(x); }
        mk(std::move(a), w); break; }
    case ERRCODE: {
        unsigned c = sym_u32("code"); sym_assume(c < 800);
        stun::ErrorCodeAttribute a{c, none()}; Bytes w = num((c / 100) << 8 | c % 100, 4);
        if (len) { std::string s = any_string(len, "reason"); a.reason_phrase = s; w.insert(w.end(), s.begin(), s.end()); }
        mk(std::move(a), w); break; }
    case FINGERPRINT: out.emplace_back(stun::FingerprintAttribute{sym_u32("ignored")}); break;
    case INTEGRITY: { crypto::SHA1Hash::Value v; sym_bytes(v.data(), 20, "ignored"); out.emplace_back(stun::MessageIntegityAttribute{stun::MessageIntegityAttribute::Digest{crypto::SHA1Hash(std::move(v))}}); break; }
    }
}
struct Built {
    unsigned cls, method; bool old; uint8_t tid[16]; size_t tidn;
    AttributeSet set; std::vector<Want> want; bool fp = false;
    stun::Header header() const {
        auto c = cls == 0 ? stun::Class::request() : cls == 1 ? stun::Class::indication() : cls == 2 ? stun::Class::success_response() : stun::Class::error_response();
        return stun::Header{c, stun::Method::from_msg_type(msg_type(0, method)), stun::TransactionId(View(tid, tidn))};
    }
    stun::Message message() const { return stun::Message{header(), set, stun::IsRFC3489{old}, none()}; }
};
inline void any_header(Built& b) {
    b.cls = sym_choice("class", 4);
    b.method = sym_u16("method"); sym_assume(b.method < 4096);
    b.old = sym_bool("rfc3489");
    b.tidn = b.old ? 16 : 12;
    sym_bytes(b.tid, 16, "tid");
}
// mask: bit i set: attribute KNOWN[i] present; nu unknown attributes
inline void any_set(Built& b, unsigned mask, size_t len, size_t nu, bool v6) {
    AttributeSet::AttrVec v; std::vector<stun::UnknownAttribute> u;
    stun::TransactionId id(View(b.tid, b.tidn));
    for (size_t k = 0; k < 13; ++k) if (mask >> k & 1) any_attr(k, len, id, v, b.want, v6);
    for (size_t i = 0; i < nu; ++i) {
        uint16_t t = sym_u16("unknown");
        sym_assume(!is_known(t));
        Bytes d = any_bytes((len + 2 * i + 1) % 7, "udata");
        u.emplace_back(AttributeType::from_uint16(t), View(d));
        b.want.push_back({t, d});
    }
    b.fp = mask >> 10 & 1;
    b.set = AttributeSet::create(std::move(v), std::move(u));
}
static_assert(KNOWN[10] == FINGERPRINT && KNOWN[2] == INTEGRITY);
// the message on the wire, with what follows the attributes
inline void check_wire(const Built& b, const Bytes& w, const AnySha1 *h, const Bytes& key) {
    size_t n = w.size();
    sym_assert(n >= 20 && n % 4 == 0, "whole words");
    if (n < 20 || n % 4) return;
    const uint8_t *p = w.data();
    sym_assert(be16(p) == msg_type(b.cls, b.method), "message type");
    sym_assert(be16(p + 2) == n - 20, "the length field is what follows the header");
    if (b.old) sym_assert(sym_eq_bytes(p + 4, b.tid, 16), "128-bit transaction id");
    else { sym_assert(be32(p + 4) == COOKIE, "magic cookie"); sym_assert(sym_eq_bytes(p + 8, b.tid, 12), "transaction id"); }
    std::vector<bool> seen(b.want.size());
    size_t at = 20, found = 0;
    bool mi = false, fp = false;
    while (at < n) {
        sym_assert(n - at >= 4, "attribute header fits");
        if (n - at < 4) return;
        unsigned t = be16(p + at); size_t len = sym_concretize(be16(p + at + 2));
        sym_assert(at + 4 + padded(len) <= n, "attribute fits");
        if (at + 4 + padded(len) > n) return;
        sym_assert(!fp, "nothing after FINGERPRINT");
        if (t == FINGERPRINT) {
            sym_assert(b.fp && len == 4, "FINGERPRINT only when requested");
            if (len != 4) return;
            sym_assert(be32(p + at + 4) == fingerprint(p, at), "FINGERPRINT is the CRC of all before it");
            fp = true;
        } else if (t == INTEGRITY) {
            sym_assert(h && !mi && len == 20, "one MESSAGE-INTEGRITY, only when requested");
            if (!h || len != 20) return;
            mi = true;
            Bytes data(p, p + at); put16(data.data() + 2, at + 24 - 20);
            sym_assert(sym_eq_bytes(hmac(*h, key, data).data(), p + at + 4, 20), "MESSAGE-INTEGRITY is the HMAC of all before it");
        } else {
            sym_assert(!mi, "only FINGERPRINT after MESSAGE-INTEGRITY");
            bool ok = false;                 // the next expected attribute equal to it, unknown ones in order
            for (size_t i = 0; i < b.want.size() && !ok; ++i) {
                const auto& x = b.want[i];
                if (seen[i] || x.value.size() != len) continue;
                if (x.type == t && sym_eq_bytes(x.value.data(), p + at + 4, len)) { seen[i] = true; ++found; ok = true; }
            }
            sym_assert(ok, "each attribute is one that was put in, with its exact bytes");
        }
        at += 4 + padded(len);
    }
    sym_assert(found == b.want.size(), "every attribute is on the wire once");
    sym_assert(mi == (h != nullptr), "MESSAGE-INTEGRITY exactly when requested");
    sym_assert(fp == b.fp, "FINGERPRINT exactly when requested");
}
inline stun::MaybeIntegrity integrity(const AnySha1& h, const std::string& pw) {
    crypto::SHA1Hash::Func f = h;
    return stun::IntegrityData{stun::Password::short_term(precis::OpaqueString{pw}, f).unwrap(), f};
}
}
