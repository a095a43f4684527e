// RTP: packet parsing (C04, C05), statistics (C06), value types and payload map (C07).
// @job C04 quick h_rtp_memory 0..36 | 71,72,73,75,76,77,80,84,136,255,256,257,300,1500,65560
// @job C04 thorough h_rtp_memory 0..120
// @job C05 quick h_rtp_fields 0..36 | 71,72,73,75,76,77,80,84,136,255,256,257,300,1500,65560
// @job C05 thorough h_rtp_fields 0..120
// @job C05 quick,thorough h_rtp_big_extension
// @job C05 quick,thorough h_rtp_big_padding 0..1
// @job C06 quick h_rtp_stat 0..30 | 71,72,75,76,77,80,136,256,300,1500
// @job C06 thorough h_rtp_stat 0..100
// @job C06 quick,thorough h_rtp_stat_two 12..13 12..13
// @job C07 quick,thorough h_rtp_payload_type
// @job C07 quick,thorough h_rtp_values
// @job C07 quick h_rtp_map 0..2
// @job C07 thorough h_rtp_map 0..3 time=1200
// @job C07 quick,thorough h_rtp_map_large
// @job C07 quick,thorough h_rtp_map_duplicate
// @bound C04-C06: every packet of each length 0..36 bytes (quick) / 0..120 (thorough) and of the lengths 71..77, 80, 84, 136, 255..257, 300, 1500 and 65560 (C06: up to 1500), every content; C05 also packets with a 65535-word extension and 255 bytes of padding
// @bound C07: every value of each type's width; payload maps of up to 2 (quick) / 3 (thorough) symbolic entries, and one of 16 given types with symbolic rates and query
// @assume C04-C06: the payload map holds types 0, 8, 96, 111 and 127 (every other type is unknown)
#include "sym.hpp"
#include <cstdlib>
#include <memory>
#include <functional>
#include "rtp/rtp_packet.hpp"
#include "rtp/rtp_payload_map.hpp"
#include "rtp/rtp_error.hpp"
#include "rtp/rtp_timestamp.hpp"
using namespace freewebrtc;
static rtp::PayloadType pt(uint8_t v) { return rtp::PayloadType::from_uint8(v).unwrap(); }
static const uint8_t TYPES[5] = {0, 8, 96, 111, 127};
static const unsigned RATES[5] = {8000, 8001, 90000, 48000, 16000};
static rtp::PayloadMap map5() {
    return rtp::PayloadMap{{pt(0), {rtp::ClockRate(8000)}}, {pt(8), {rtp::ClockRate(8001)}}, {pt(96), {rtp::ClockRate(90000)}}, {pt(111), {rtp::ClockRate(48000)}}, {pt(127), {rtp::ClockRate(16000)}}};
}
struct Buf { uint8_t *p; size_t n; Buf(size_t n) : p((uint8_t *)std::malloc(n ? n : 1)), n(n) {} ~Buf() { std::free(p); } };

HARNESS(h_rtp_memory) {
    size_t n = sym_param(0);
    std::unique_ptr<uint8_t[]> own(new uint8_t[n]);
    sym_bytes(own.get(), n, "packet");
    auto m = map5();
    rtp::ParseStat st;
    auto r = rtp::Packet::parse(util::ConstBinaryView(own.get(), n), m, st);
    if (r.is_err()) { sym_cover("rejected"); return; }
    const auto& p = r.unwrap();
    sym_assert(p.payload.offset <= n && p.payload.count <= n - p.payload.offset, "payload range lies in the packet");
    sym_assert(p.payload.offset >= 12, "payload range does not overlap the fixed header");
    if (p.header.maybe_extension.is_some()) {
        auto e = p.header.maybe_extension.unwrap().data;
        sym_assert(e.offset <= n && e.count <= n - e.offset, "extension range lies in the packet");
        sym_assert(e.offset + e.count <= p.payload.offset, "extension does not overlap the payload");
        sym_cover("with extension");
    }
    sym_cover("accepted");
    sym_observe(p.payload.offset); sym_observe(p.payload.count);
}

static unsigned be16(const uint8_t *p) { return p[0] << 8 | p[1]; }
static uint32_t be32(const uint8_t *p) { return (uint32_t)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; }
enum class Want { ok, size, version, csrc, ext, clock, padding };
struct Ref { Want want; unsigned cc; bool x; size_t extOff, extLen, payOff, payLen; int known; };
// RFC 3550 section 5.1 / 5.3.1
static Ref reference(const uint8_t *b, size_t n) {
    Ref r{};
    r.known = -1;
    if (n < 12) { r.want = Want::size; return r; }
    if ((b[0] >> 6) != 2) { r.want = Want::version; return r; }
    r.cc = b[0] & 15; r.x = (b[0] >> 4) & 1;
    size_t at = 12 + 4 * (size_t)r.cc;
    if (at > n) { r.want = Want::csrc; return r; }
    for (int i = 0; i < 5; ++i) if ((b[1] & 127) == TYPES[i]) r.known = i;
    if (r.known < 0) { r.want = Want::clock; return r; }
    if (r.x) {
        if (at + 4 > n) { r.want = Want::ext; return r; }
        r.extOff = at + 4; r.extLen = 4 * (size_t)be16(b + at + 2);
        if (r.extOff + r.extLen > n) { r.want = Want::ext; return r; }
        at = r.extOff + r.extLen;
    }
    r.payOff = at; r.payLen = n - at;
    if ((b[0] >> 5) & 1) {
        if (r.payLen == 0 || b[n - 1] == 0 || b[n - 1] > r.payLen) { r.want = Want::padding; return r; }
        r.payLen -= b[n - 1];
    }
    r.want = Want::ok;
    return r;
}
static void check_fields(const uint8_t *b, size_t n) {
    auto m = map5();
    rtp::ParseStat st;
    auto res = rtp::Packet::parse(util::ConstBinaryView(b, n), m, st);
    Ref w = reference(b, n);
    if (w.want != Want::ok) {
        sym_assert(res.is_err(), "a packet RFC 3550 excludes is rejected");
        if (!res.is_err()) return;
        std::error_code ec = res.unwrap_err().code();
        switch (w.want) {
        case Want::size: sym_assert(ec == rtp::make_error_code(rtp::Error::packet_is_too_short), "short packet: error"); sym_cover("too short"); break;
        case Want::version: sym_assert(ec == rtp::make_error_code(rtp::Error::unknown_packet_version), "version: error"); sym_cover("version"); break;
        case Want::csrc: sym_cover("csrc"); break;
        case Want::clock: sym_assert(ec == rtp::make_error_code(rtp::Error::unknown_rtp_clock), "unknown payload type: error"); sym_cover("clock"); break;
        case Want::ext: sym_assert(ec == rtp::make_error_code(rtp::Error::invalid_extension_length), "extension: error"); sym_cover("extension error"); break;
        default: sym_assert(ec == rtp::make_error_code(rtp::Error::invalid_packet_padding), "padding: error"); sym_cover("padding error"); break;
        }
        return;
    }
    sym_assert(res.is_ok(), "a packet RFC 3550 allows is accepted");
    if (!res.is_ok()) return;
    const auto& p = res.unwrap(); const auto& h = p.header;
    sym_assert((bool)h.marker == ((b[1] >> 7) != 0), "marker bit");
    sym_assert(h.payload_type.value() == (b[1] & 127), "payload type");
    sym_assert(h.sequence.value() == be16(b + 2), "sequence number");
    sym_assert(h.timestamp.value() == be32(b + 4), "timestamp");
    auto expect = rtp::Timestamp::from_uint32(be32(b + 4), rtp::ClockRate(RATES[w.known]));
    sym_assert(sym_eq_bytes(&h.timestamp, &expect, sizeof expect), "timestamp carries the clock rate of its payload type");
    sym_assert(h.ssrc.value() == be32(b + 8), "SSRC");
    sym_assert(h.csrcs.size() == w.cc, "CSRC count");
    for (size_t i = 0; i < h.csrcs.size() && i < w.cc; ++i) sym_assert(h.csrcs[i].value() == be32(b + 12 + 4 * i), "CSRC value");
    sym_assert(h.maybe_extension.is_some() == w.x, "extension present exactly when the X bit is set");
    if (h.maybe_extension.is_some() && w.x) {
        const auto& e = h.maybe_extension.unwrap();
        sym_assert(e.profile_defined == be16(b + w.extOff - 4), "extension profile field");
        sym_assert(e.data.offset == w.extOff && e.data.count == w.extLen, "extension data range");
        sym_cover("extension");
    }
    sym_assert(p.payload.offset == w.payOff && p.payload.count == w.payLen, "payload range");
    sym_observe(w.payOff); sym_observe(w.payLen);
    sym_cover("accepted");
}
HARNESS(h_rtp_fields) {
    size_t n = sym_param(0);
    std::unique_ptr<uint8_t[]> b(new uint8_t[n]);
    sym_bytes(b.get(), n, "packet");
    check_fields(b.get(), n);
}
HARNESS(h_rtp_big_extension) {
    const size_t n = 12 + 4 + 65535 * 4 + 3;
    std::vector<uint8_t> b(n, 0);
    b[0] = 0x90 | (sym_u8("p") & 0x20); b[1] = 96;
    b[12] = sym_u8("x0"); b[13] = sym_u8("x1"); b[14] = sym_u8("len0") | 0xfe; b[15] = sym_u8("len1");
    b[n - 1] = sym_u8("last");
    check_fields(b.data(), n);
}
HARNESS(h_rtp_big_padding) {
    const size_t n = sym_param(0) ? 12 + 256 : 12 + 8 + 255;
    std::vector<uint8_t> b(n, 0);
    b[0] = 0xa0 | (sym_u8("cc") & 0x2); b[1] = 96; b[n - 1] = sym_u8("last");
    check_fields(b.data(), n);
}

struct Counts { unsigned v[9]; };
static Counts counts(const rtp::ParseStat& s) { return {{s.success.count(), s.error.count(), s.invalid_size.count(), s.invalid_version.count(), s.invalid_csrc.count(), s.invalid_payload_type.count(), s.unknown_rtp_clock.count(), s.invalid_extension.count(), s.invalid_padding.count()}}; }
static void check_stat(const Counts& a, const Counts& z, bool ok, std::error_code ec) {
    unsigned reasons = 0;
    for (int i = 2; i < 9; ++i) { sym_assert(z.v[i] == a.v[i] || z.v[i] == a.v[i] + 1, "a reason counter moves by at most one"); reasons += z.v[i] - a.v[i]; }
    sym_assert(z.v[0] == a.v[0] + (ok ? 1 : 0), "success counter counts accepted packets");
    sym_assert(z.v[1] == a.v[1] + (ok ? 0 : 1), "error counter counts rejected packets");
    sym_assert(reasons == (ok ? 0u : 1u), "exactly one reason counter for a rejected packet, none otherwise");
    if (ok) { sym_cover("success"); return; }
    struct { rtp::Error e; int i; } t[] = {{rtp::Error::packet_is_too_short, 2}, {rtp::Error::unknown_packet_version, 3}, {rtp::Error::invalid_payload_type, 5}, {rtp::Error::unknown_rtp_clock, 6}, {rtp::Error::invalid_extension_length, 7}, {rtp::Error::invalid_packet_padding, 8}};
    bool any = false;
    for (auto& x : t) if (ec == rtp::make_error_code(x.e)) { sym_assert(z.v[x.i] == a.v[x.i] + 1, "the reason counter matches the reported error"); any = true; sym_cover("reason"); }
    if (!any) sym_assert(z.v[4] == a.v[4] + 1, "an error of another kind is a CSRC error");
}
HARNESS(h_rtp_stat) {
    size_t n = sym_param(0);
    std::unique_ptr<uint8_t[]> b(new uint8_t[n]);
    sym_bytes(b.get(), n, "packet");
    auto m = map5();
    rtp::ParseStat st;
    auto a = counts(st);
    auto r = rtp::Packet::parse(util::ConstBinaryView(b.get(), n), m, st);
    std::error_code ec{}; if (r.is_err()) ec = r.unwrap_err().code();
    check_stat(a, counts(st), r.is_ok(), ec);
}
HARNESS(h_rtp_stat_two) {
    auto m = map5();
    rtp::ParseStat st;
    for (int k = 0; k < 2; ++k) {
        size_t n = sym_param(k);
        std::unique_ptr<uint8_t[]> b(new uint8_t[n]);
        sym_bytes(b.get(), n, k ? "packet2" : "packet1");
        auto a = counts(st);
        auto r = rtp::Packet::parse(util::ConstBinaryView(b.get(), n), m, st);
        std::error_code ec{}; if (r.is_err()) ec = r.unwrap_err().code();
        check_stat(a, counts(st), r.is_ok(), ec);
    }
}

HARNESS(h_rtp_payload_type) {
    uint8_t v = sym_u8("v"), w = sym_u8("w");
    auto a = rtp::PayloadType::from_uint8(v), b = rtp::PayloadType::from_uint8(w);
    sym_assert(a.is_some() == (v <= 127), "payload types are 0..127");
    if (a.is_some()) { sym_assert(a.unwrap().value() == v, "payload type keeps its value"); sym_cover("valid"); }
    if (a.is_some() && b.is_some()) {
        sym_assert((a.unwrap() == b.unwrap()) == (v == w), "payload types compare by value");
        if (v == w) sym_assert(std::hash<rtp::PayloadType>()(a.unwrap()) == std::hash<rtp::PayloadType>()(b.unwrap()), "equal payload types hash equally");
    }
}
HARNESS(h_rtp_values) {
    uint16_t s = sym_u16("seq"); uint32_t t = sym_u32("ts"), ss = sym_u32("ssrc"), s2 = sym_u32("ssrc2"), c = sym_u32("clock");
    sym_assert(rtp::SequenceNumber::from_uint16(s).value() == s, "sequence number keeps its value");
    sym_assert(rtp::Timestamp::from_uint32(t, rtp::ClockRate(c)).value() == t, "timestamp keeps its value");
    auto ts = rtp::Timestamp::from_uint32(t, rtp::ClockRate(c)); auto ts2 = ts; auto ts3 = rtp::Timestamp::from_uint32(0, rtp::ClockRate(1)); ts3 = ts2;
    sym_assert(ts3.value() == t, "a copied timestamp keeps its value");
    sym_assert(rtp::SSRC::from_uint32(ss).value() == ss, "SSRC keeps its value");
    sym_assert((rtp::SSRC::from_uint32(ss) == rtp::SSRC::from_uint32(s2)) == (ss == s2), "SSRCs compare by value");
    sym_assert(rtp::ClockRate(c).count() == c, "clock rate keeps its value");
    bool m = sym_bool("m");
    sym_assert((bool)rtp::MarkerBit(m) == m, "marker keeps its value");
    sym_cover("values");
}
HARNESS(h_rtp_map) {
    int n = sym_param(0);
    uint8_t t[4]; uint32_t c[4];
    static const char *tn[4] = {"t0", "t1", "t2", "t3"}, *cn[4] = {"c0", "c1", "c2", "c3"};
    for (int i = 0; i < 4; ++i) { t[i] = 0; c[i] = 0; }
    for (int i = 0; i < n; ++i) { t[i] = sym_u8(tn[i]); sym_assume(t[i] <= 127); c[i] = sym_u32(cn[i]); for (int j = 0; j < i; ++j) sym_assume(t[i] != t[j]); }
    auto item = [&](int i) { return rtp::PayloadMap::InitPair{pt(t[i]), rtp::PayloadMapItem{rtp::ClockRate(c[i])}}; };
    rtp::PayloadMap m = n == 0 ? rtp::PayloadMap({}) : n == 1 ? rtp::PayloadMap({item(0)}) : n == 2 ? rtp::PayloadMap({item(0), item(1)}) : n == 3 ? rtp::PayloadMap({item(0), item(1), item(2)}) : rtp::PayloadMap({item(0), item(1), item(2), item(3)});
    uint8_t q = sym_u8("q"); sym_assume(q <= 127);
    auto r = m.rtp_clock_rate(pt(q));
    bool known = false; uint32_t want = 0;
    for (int i = 0; i < n; ++i) if (t[i] == q) { known = true; want = c[i]; }
    sym_assert(r.is_some() == known, "a clock rate is found exactly for mapped payload types");
    if (r.is_some() && known) { sym_assert(r.unwrap().count() == want, "the clock rate found is the one given"); sym_cover("found"); }
    else sym_cover("not found");
}
HARNESS(h_rtp_map_large) {
    uint32_t c[16];
    sym_bytes(c, sizeof c, "c");
    auto it = [&](int i) { return rtp::PayloadMap::InitPair{pt(uint8_t(i * 9)), rtp::PayloadMapItem{rtp::ClockRate(c[i])}}; };
    rtp::PayloadMap m{it(0), it(1), it(2), it(3), it(4), it(5), it(6), it(7), it(8), it(9), it(10), it(11), it(12), it(13), it(14), rtp::PayloadMap::InitPair{pt(127), rtp::PayloadMapItem{rtp::ClockRate(c[15])}}};
    uint8_t q = sym_u8("q"); sym_assume(q <= 127);
    auto r = m.rtp_clock_rate(pt(q));
    bool known = false; uint32_t want = 0;
    for (int i = 0; i < 15; ++i) if (i * 9 == q) { known = true; want = c[i]; }
    if (q == 127) { known = true; want = c[15]; }
    sym_assert(r.is_some() == known, "large map: found exactly for mapped types");
    if (r.is_some() && known) { sym_assert(r.unwrap().count() == want, "large map: the rate given"); sym_cover("found"); }
    else sym_cover("not found");
}
HARNESS(h_rtp_map_duplicate) {
    uint8_t t = sym_u8("t"); sym_assume(t <= 127); uint32_t a = sym_u32("a"), b = sym_u32("b");
    rtp::PayloadMap m{{pt(t), {rtp::ClockRate(a)}}, {pt(t), {rtp::ClockRate(b)}}};
    auto r = m.rtp_clock_rate(pt(t));
    sym_assert(r.is_some() && (r.unwrap().count() == a || r.unwrap().count() == b), "a type mapped twice has one of its rates");
}
