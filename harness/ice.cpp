// ICE candidates: C31 (fields), C32 (attribute line), C33 (priority formula).
// @job C31 quick h_foundation 0..34
// @job C31 thorough h_foundation 0..64
// @job C31 quick,thorough h_component 0..5
// @job C31 quick,thorough h_priority 0..12
// @job C31 quick,thorough h_port 0..7
// @job C31 quick,thorough h_kind 0..8
// @job C31 quick,thorough h_numbers
// @job C33 quick,thorough h_formula
// @job C33 quick,thorough h_formula_id
// @job C32 quick h_sdp_field 0..7 0..4 0..2
// @job C32 thorough h_sdp_field 0..7 0..7 0..3 time=1400
// @job C32 quick h_sdp_tail 0..3 0..2
// @job C32 thorough h_sdp_tail 0..5 0..3 time=1400
// @job C32 quick h_sdp_pairs 1..4
// @job C32 thorough h_sdp_pairs 1..6 time=1400
// @job C32 quick,thorough h_sdp_many 5,9,17,40
// @job C32 quick,thorough h_sdp_cut 0..12
// @job C32 quick h_sdp_bad 0..255/5
// @job C32 thorough h_sdp_bad 0..255
// @job C32 quick h_sdp_raw 0..6
// @job C32 thorough h_sdp_raw 0..11 time=1400
// @bound C31: every text of up to 5 bytes, and of up to 34 / 64 bytes with any two bytes at any places (foundation), every text of up to 5 (component id), 12 (priority), 7 (port) and 8 (type, transport) bytes, every 32-bit number
// @bound C32: a full line in which any one field is any bytes (spaces included) of up to 4 (quick) / 7 (thorough) bytes, with 0..2 further tokens; up to 3 / 5 trailing tokens each a known name or any bytes of up to 2 / 3 bytes; up to 4 / 6 pairs of related addresses, related ports and extensions in any order; 5 to 40 extension pairs; lines cut after any token; lines with any set of fields replaced by bad ones; every line of up to 6 / 11 bytes after the prefix, and prefixes with any byte wrong
// @bound C33: every type preference, local preference, component preference and component id
#include "sym.hpp"
#include <string>
#include <vector>
#include "hash_ref.hpp"
#include "ice/candidate/ice_candidate_sdp.hpp"
#include "ice/candidate/ice_candidate_error.hpp"
#include "ice/candidate/ice_candidate_preference.hpp"
#include "net/net_error.hpp"
#include "util/util_token_stream.hpp"
using namespace freewebrtc;
using namespace ref;
using namespace ice::candidate;
using SV = std::string_view;
static bool digit(char c) { return c >= '0' && c <= '9'; }
static bool alpha(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static bool all_digits(const std::string& s) { unsigned bad = 0; for (char c : s) bad |= !digit(c); return !bad; }
static uint64_t number(const std::string& s) { uint64_t v = 0; for (char c : s) v = v * 10 + (uint64_t)(c - '0'); return v; }
HARNESS(h_foundation) {
    size_t n = sym_param(0);
    std::string s = any_string(n < 6 ? n : 0, "text");
    if (n >= 6) { s.assign(n, '/'); for (int i = 0; i < 2; ++i) { size_t at = sym_choice("at", n); s[at] = (char)sym_u8("char"); } }
    auto r = Foundation::from_string(s);
    bool ok = !s.empty() && s.size() <= 32;
    unsigned bad = 0; for (char c : s) bad |= !(alpha(c) | digit(c) | (c == '+') | (c == '/'));
    sym_assert(r.is_ok() == (ok && !bad), "1 to 32 ice-chars");
    if (r.is_ok()) { sym_assert(r.unwrap().to_string() == s, "the text is kept"); sym_cover("accepted"); } else sym_cover("rejected");
}
HARNESS(h_component) {
    std::string s = any_string(sym_param(0), "text");
    auto r = ComponentId::from_string(s);
    bool ok = !s.empty() && s.size() <= 3 && all_digits(s) && number(s) <= 256;
    sym_assert(r.is_ok() == ok, "one to three digits of at most 256");
    if (r.is_ok()) { sym_assert(r.unwrap().value() == number(s), "the number is kept"); sym_cover("accepted"); } else sym_cover("rejected");
}
HARNESS(h_priority) {
    std::string s = any_string(sym_param(0), "text");
    auto r = Priority::from_string(s);
    bool ok = !s.empty() && s.size() <= 10 && all_digits(s);
    uint64_t n = ok ? number(s) : 0;
    sym_assert(r.is_ok() == (ok && n >= 1 && n < 1ull << 32), "one to ten digits, 1 to 2^32-1");
    if (r.is_ok()) {
        sym_assert(r.unwrap() == Priority::from_uint32((uint32_t)n).unwrap(), "the number is kept");
        uint32_t o = sym_u32("other"); sym_assume(o != 0);
        sym_assert((r.unwrap() == Priority::from_uint32(o).unwrap()) == (o == n), "no other number is equal to it");
        sym_cover("accepted");
    } else sym_cover("rejected");
}
HARNESS(h_port) {
    std::string s = any_string(sym_param(0), "text");
    auto r = net::Port::from_string(s);
    bool ok = !s.empty() && s.size() <= 5 && all_digits(s) && number(s) <= 65535;
    sym_assert(r.is_ok() == ok, "one to five digits, 0 to 65535");
    if (r.is_ok()) { sym_assert(r.unwrap().value() == number(s), "the number is kept"); sym_cover("accepted"); } else sym_cover("rejected");
}
static bool is_word(const std::string& s, SV w) {
    if (s.size() != w.size()) return false;
    unsigned bad = 0; for (size_t i = 0; i < s.size(); ++i) bad |= !((s[i] == w[i]) | (s[i] == w[i] - 32));
    return !bad;
}
HARNESS(h_kind) {
    std::string s = any_string(sym_param(0), "text");
    auto t = TransportType::from_string(s);
    sym_assert(t.is_ok() == is_word(s, "udp"), "udp in any case");
    if (t.is_ok()) { sym_assert(t.unwrap() == TransportType::udp() && t.unwrap().to_string() == "udp", "udp"); sym_cover("udp"); }
    auto k = Type::from_string(s);
    static const SV names[] = {"host", "srflx", "prflx", "relay"};
    static const Type types[] = {Type::host(), Type::server_reflexive(), Type::peer_reflexive(), Type::relayed()};
    for (int i = 0; i < 4; ++i) if (is_word(s, names[i])) {
        sym_assert(k.is_ok() && k.unwrap() == types[i] && k.unwrap().to_string() == names[i], "the named type");
        sym_cover("type"); return;
    }
    sym_assert(k.is_err(), "no other type");
    sym_cover("other");
}
HARNESS(h_numbers) {
    unsigned v = sym_u32("value");
    auto c = ComponentId::from_unsigned(v);
    sym_assert(c.is_ok() == (v >= 1 && v <= 256) && (c.is_err() || c.unwrap().value() == v), "component id 1 to 256");
    auto p = Priority::from_uint32(v);
    sym_assert(p.is_ok() == (v != 0), "priority is not 0");
    auto t = TypePreference::from_unsigned(v);
    sym_assert(t.is_ok() == (v <= 126) && (t.is_err() || t.unwrap().value() == v), "type preference 0 to 126");
    auto l = LocalPreference::from_unsigned(v);
    sym_assert(l.is_ok() == (v <= 65535) && (l.is_err() || l.unwrap().value() == v), "local preference 0 to 65535");
    auto k = ComponentPreference::from_unsigned(v);
    sym_assert(k.is_ok() == (v <= 255) && (k.is_err() || k.unwrap().value() == v), "component preference 0 to 255");
    auto q = net::Port::from_uint16((uint16_t)v);
    sym_assert(q.value() == (uint16_t)v, "a port keeps its number");
    sym_cover("checked");
}
// ---- C33 ---------------------------------------------------------------------
static void formula(TypePreference t, LocalPreference l, ComponentPreference c, unsigned comp) {
    uint64_t want = (1ull << 24) * t.value() + (1ull << 8) * l.value() + (256 - comp);
    auto r = Preference{t, l, c}.to_priority();
    sym_assert(r.is_ok() == (want != 0), "a priority, or an error for 0");
    if (r.is_err()) { sym_cover("error"); return; }
    sym_assert(want >= 1 && want <= 0x7fffffff, "1 to 2^31-1");
    sym_assert(r.unwrap() == Priority::from_uint32((uint32_t)want).unwrap(), "2^24*type + 2^8*local + (256 - component)");
    sym_cover("priority");
}
static uint32_t below(const char *n, uint32_t top) { uint32_t v = sym_u32(n); sym_assume(v <= top); return v; }
HARNESS(h_formula) {
    unsigned c = below("component", 255);
    sym_assert(TypePreference::from_unsigned(127 + below("above", 1u << 30)).is_err() && LocalPreference::from_unsigned(65536 + below("above2", 1u << 30)).is_err() && ComponentPreference::from_unsigned(256 + below("above3", 1u << 30)).is_err(), "no preference above 126, 65535 or 255");
    formula(TypePreference::from_unsigned(below("type", 126)).unwrap(), LocalPreference::from_unsigned(below("local", 65535)).unwrap(), ComponentPreference::from_unsigned(c).unwrap(), 256 - c);
}
HARNESS(h_formula_id) {
    unsigned id = below("id", 256); sym_assume(id >= 1);
    static const Type types[] = {Type::host(), Type::server_reflexive(), Type::peer_reflexive(), Type::relayed()};
    static const unsigned prefs[] = {126, 100, 110, 0};
    unsigned k = sym_choice("type", 4);
    auto t = TypePreference::recommended_for(types[k]);
    sym_assert(t.value() == prefs[k], "the recommended type preference");
    auto c = ComponentPreference::recommended_for(ComponentId::from_unsigned(id).unwrap());
    sym_assert(c.value() == 256 - id, "256 - component id");
    formula(t, LocalPreference::from_unsigned(below("local", 65535)).unwrap(), c, id);
}
// ---- C32 ---------------------------------------------------------------------
static bool same_address(const Address& a, const Address& b) {
    if (a.as_ip_address().is_some() != b.as_ip_address().is_some()) return false;
    if (a.as_ip_address().is_some()) return a.as_ip_address().unwrap().get() == b.as_ip_address().unwrap().get();
    return a.as_fqdn().unwrap().get() == b.as_fqdn().unwrap().get();
}
static void check_line(const std::string& line) {
    auto r = parse_sdp_attr(line);
    SV v(line);
    if (v.size() < 10 || v.substr(0, 10) != "candidate:") { sym_assert(r.is_err(), "another attribute is an error"); sym_cover("no candidate"); return; }
    v = v.substr(10);
    std::vector<SV> t;
    for (size_t at = 0; at < v.size();) {
        size_t e = at; while (e < v.size() && v[e] != ' ') ++e;
        t.push_back(v.substr(at, e - at)); at = e + 1;
    }
    size_t n = t.size();
    bool bad = n < 8, unsupported = false;
    if (n > 0 && Foundation::from_string(t[0]).is_err()) bad = true;
    if (n > 1 && ComponentId::from_string(t[1]).is_err()) bad = true;
    if (n > 2 && TransportType::from_string(t[2]).is_err()) unsupported = true;
    if (n > 3 && Priority::from_string(t[3]).is_err()) bad = true;
    if (n > 4 && Address::from_string(t[4]).is_err()) unsupported = true;
    if (n > 5 && net::Port::from_string(t[5]).is_err()) bad = true;
    if (n > 6 && t[6] != "typ") bad = true;
    if (n > 7 && Type::from_string(t[7]).is_err()) unsupported = true;
    std::vector<std::pair<SV, SV>> ext;
    SV ra, rp; bool has_ra = false, has_rp = false;
    for (size_t i = 8; i < n; i += 2) {
        if (i + 1 == n) { bad = true; break; }
        if (t[i] == "raddr") { ra = t[i + 1]; has_ra = true; }
        else if (t[i] == "rport") { rp = t[i + 1]; has_rp = true; }
        else ext.push_back({t[i], t[i + 1]});
    }
    if (has_ra && Address::from_string(ra).is_err()) bad = true;
    if (has_rp && net::Port::from_string(rp).is_err()) bad = true;
    if (bad && unsupported) { sym_assert(r.is_err() || std::holds_alternative<Unsupported>(r.unwrap()), "not accepted"); sym_cover("bad and unsupported"); return; }
    if (bad && n < 5) { sym_assert(r.is_err() || std::holds_alternative<Unsupported>(r.unwrap()), "not accepted"); sym_cover("no address"); return; }
    if (bad) { sym_assert(r.is_err(), "not a candidate"); sym_cover("bad"); return; }
    sym_assert(r.is_ok(), "a candidate"); if (r.is_err()) return;
    if (unsupported) { sym_assert(std::holds_alternative<Unsupported>(r.unwrap()), "reported as unsupported"); sym_cover("unsupported"); return; }
    const auto *s = std::get_if<Supported>(&r.unwrap());
    sym_assert(s, "supported"); if (!s) return;
    const auto& c = s->candidate;
    sym_assert(c.foundation.to_string() == t[0], "foundation");
    sym_assert(c.component == ComponentId::from_string(t[1]).unwrap(), "component");
    sym_assert(c.transport_type == TransportType::udp(), "transport");
    sym_assert(c.priority == Priority::from_string(t[3]).unwrap(), "priority");
    sym_assert(same_address(c.address, Address::from_string(t[4]).unwrap()), "address");
    sym_assert(c.port == net::Port::from_string(t[5]).unwrap(), "port");
    sym_assert(c.type == Type::from_string(t[7]).unwrap(), "type");
    sym_assert(c.maybe_related_address.is_some() == has_ra && c.maybe_related_port.is_some() == has_rp, "related address and port when given");
    if (has_ra) sym_assert(same_address(c.maybe_related_address.unwrap(), Address::from_string(ra).unwrap()), "related address");
    if (has_rp) sym_assert(c.maybe_related_port.unwrap() == net::Port::from_string(rp).unwrap(), "related port");
    sym_assert(s->extensions.size() == ext.size(), "every extension");
    for (size_t i = 0; i < ext.size() && i < s->extensions.size(); ++i) sym_assert(s->extensions[i].att_name == ext[i].first && s->extensions[i].att_value == ext[i].second, "extensions in order");
    sym_cover(has_ra || has_rp ? "with related address or port" : ext.empty() ? "supported" : "with extensions");
}
static const char *const FIELD[8] = {"f1", "2", "UDP", "2130706431", "10.0.1.2", "8998", "typ", "host"};
static const char *const TAIL[6] = {"raddr", "1.2.3.4", "rport", "77", "generation", "0"};
static std::string join(const std::vector<std::string>& t) { std::string s = "candidate:"; for (size_t i = 0; i < t.size(); ++i) { if (i) s += ' '; s += t[i]; } return s; }
static std::vector<std::string> fields() { return {FIELD, FIELD + 8}; }
HARNESS(h_sdp_field) {
    auto t = fields();
    t[sym_param(0)] = any_string(sym_param(1), "field");
    for (int i = 0; i < sym_param(2); ++i) { t.push_back(TAIL[2 * i]); t.push_back(TAIL[2 * i + 1]); }
    check_line(join(t));
}
HARNESS(h_sdp_tail) {
    auto t = fields();
    for (int i = 0; i < sym_param(0); ++i) {
        unsigned k = sym_choice("token", 7);
        t.push_back(k < 6 ? std::string(TAIL[k]) : any_string(sym_param(1), "tail"));
    }
    check_line(join(t));
}
// pairs of related address, related port and extensions in any order
HARNESS(h_sdp_pairs) {
    static const char *const NAME[5] = {"raddr", "rport", "generation", "radd", "rportx"};
    static const char *const VALUE[4] = {"1.2.3.4", "77", "::2", "rport"};
    auto t = fields();
    bool few = sym_param(0) > 3;
    for (int i = 0; i < sym_param(0); ++i) { t.push_back(NAME[sym_choice("name", few ? 3 : 5)]); t.push_back(VALUE[sym_choice("value", few ? 2 : 4)]); }
    check_line(join(t));
}
// many extensions, with related address and port in the middle and any bytes at one place
HARNESS(h_sdp_many) {
    auto t = fields(); size_t n = sym_param(0);
    for (size_t i = 0; i < n; ++i) {
        if (i == n / 2) { t.push_back("raddr"); t.push_back("1.2.3.4"); }
        t.push_back("ext" + std::to_string(i)); t.push_back("v" + std::to_string(i * i));
        if (i + 2 == n) { t.push_back("rport"); t.push_back("9"); }
    }
    size_t at = sym_choice("at", 4);
    t[8 + (at < 2 ? at : t.size() - 8 - 4 + at)] = any_string(2, "token");
    check_line(join(t));
}
HARNESS(h_sdp_cut) {
    auto t = fields();
    for (auto x : TAIL) t.push_back(x);
    t.resize(sym_param(0));
    std::string s = join(t);
    if (sym_bool("space")) s += ' ';
    check_line(s);
}
HARNESS(h_sdp_bad) {
    static const char *const BAD[8] = {"?", "999", "TCP", "0", "..", "66666", "type", "none"};
    auto t = fields();
    for (int i = 0; i < 8; ++i) if (sym_param(0) >> i & 1) t[i] = BAD[i];
    unsigned k = sym_choice("tail", 4);
    if (k & 1) { t.push_back("raddr"); t.push_back("-"); }
    if (k & 2) t.push_back("rport");
    check_line(join(t));
}
HARNESS(h_sdp_raw) {
    size_t n = sym_param(0);
    check_line("candidate:" + any_string(n, "line"));
    std::string p = "candidate:" ; size_t at = sym_choice("at", 10);
    p[at] = (char)sym_u8("byte");
    check_line(p);
    check_line(std::string("candidate:").substr(0, at));
}
