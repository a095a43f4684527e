// Names and addresses: C34 (domain names), C35 (IP addresses).
// @job C34 quick h_fqdn 0..7
// @job C34 thorough h_fqdn 0..10 time=1400
// @job C34 quick h_fqdn_long 0..2 0..40/3
// @job C34 quick h_fqdn_label 1 60..66,127..129,252..257 | 2 60..66
// @job C34 thorough h_fqdn_label 2 1..140,250..260,1024 time=1400
// @job C34 thorough h_fqdn_long 0..3 0..80 time=1400
// @job C34 quick,thorough h_fqdn_many 12,40,64,127,130 0..1
// @job C35 quick h_ip_view 0..20
// @job C35 thorough h_ip_view 0..40
// @job C35 quick,thorough h_ip_equal 0..3
// @job C35 quick h_ip_text 0..6
// @job C35 thorough h_ip_text 0..8 time=1400
// @job C35 quick h_ip_text4 1..3 1..3 1..3 1,3 0 | 1 1 1 1 1
// @job C35 thorough h_ip_text4 1..4 1..4 1..4 1..4 0..1 time=1400
// @job C35 quick h_ip_text6 0..8 0..8 1,4 0
// @job C35 thorough h_ip_text6 0..9 0..9 1..5 0..1 time=1400
// @job C35 quick h_ip_max 0..3 0..4
// @job C35 thorough h_ip_max 0..3 0..6 time=1400
// @job C35 quick,thorough h_ip_nul
// @job C35 quick,thorough h_ip_print4
// @job C35 quick h_ip_print6 0..7
// @job C35 thorough h_ip_print6 0..255 time=1400
// @job C35 quick h_candidate_address 0..5
// @job C35 thorough h_candidate_address 0..7 time=1400
// @bound C34: every text of up to 7 (quick) / 10 (thorough) bytes; texts of up to 40 / 80 bytes with any byte at up to two / three places; labels of 60..66, 127..129 and 252..257 bytes (1..140, 250..260, 1024) with any byte at one (two) places; 12 to 130 labels of 1..3 letters, any byte at any one place
// @bound C35: byte views of 0..20 / 40 bytes; every pair of addresses; every text of up to 6 / 8 bytes; texts of four groups of 1..3 / 4 bytes, one of them any bytes, joined by dots; texts of up to 8 / 9 groups of hexadecimal digits with :: at any or no place, one group any bytes; the longest texts of four forms with any byte in one place or any one or two bytes added; texts followed by NUL and any byte; printing and reading back every IPv4 address, and IPv6 addresses in which any pattern of groups is zero or two hexadecimal digits are any. Candidate addresses: every text of up to 5 / 7 bytes
// @assume C35: inet_pton and inet_ntop behave as glibc's (harness/runtime.cpp ports their algorithm; every witness is replayed against the real ones)
#include "sym.hpp"
#include <arpa/inet.h>
#include <string>
#include "hash_ref.hpp"
#include "net/net_fqdn.hpp"
#include "net/net_error.hpp"
#include "net/ip/ip_address.hpp"
#include "ice/candidate/ice_candidate_address.hpp"
using namespace freewebrtc;
using namespace ref;
using View = util::ConstBinaryView;
using net::ip::Address;
// ---- C34 ---------------------------------------------------------------------
static bool let_dig(char c) { return ((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | (c == '_'); }
// length of the longest prefix label *("." label) ["."], 0: none
static size_t name_prefix(const std::string& s) {
    size_t best = 0, at = 0;
    while (true) {
        if (at >= s.size() || !let_dig(s[at])) return best;
        size_t end = at + 1, p = at + 1;
        while (p < s.size()) { if (let_dig(s[p])) end = ++p; else if (s[p] == '-') ++p; else break; }
        best = end;
        if (end >= s.size() || s[end] != '.') return best;
        best = at = end + 1;
    }
}
static void check_name(const std::string& s) {
    size_t n = name_prefix(s);
    auto p = net::Fqdn::parse(s);
    sym_assert(p.is_ok() == (n > 0), "a name is found exactly when there is one");
    if (p.is_ok()) {
        const auto& v = p.unwrap();
        sym_assert(v.value.to_string() == s.substr(0, n), "the longest name");
        sym_assert(v.rest.data() == s.data() + n && v.rest.size() == s.size() - n, "the exact rest");
    }
    auto f = net::Fqdn::from_string(s);
    sym_assert(f.is_ok() == (n > 0 && n == s.size()), "accepted exactly when the whole text is a name");
    if (f.is_ok()) { sym_assert(f.unwrap().to_string() == s, "the name is kept"); sym_cover("name"); }
    else sym_cover(n ? "prefix" : "no name");
}
HARNESS(h_fqdn) { check_name(any_string(sym_param(0), "text")); }
HARNESS(h_fqdn_long) {
    size_t n = sym_param(1); std::string s(n, 'x');
    for (size_t i = 5; i < n; i += 6) s[i] = '.';
    if (n) for (int i = 0; i <= sym_param(0) && i < 4; ++i) { size_t at = i == 2 ? n / 2 : sym_choice("at", n); s[at] = (char)sym_u8("char"); }
    check_name(s);
}
// one long label between two short ones, any byte at any place(s)
HARNESS(h_fqdn_label) {
    std::string s = "a." + std::string(sym_param(1), 'y') + ".b";
    for (int i = 0; i < sym_param(0); ++i) { size_t at = sym_choice("at", s.size()); s[at] = (char)sym_u8("char"); }
    check_name(s);
}
// n labels of one to three letters, any byte at one place
HARNESS(h_fqdn_many) {
    std::string s; for (int i = 0; i < sym_param(0); ++i) { s += std::string(1 + i % 3, 'a' + i % 26); s += i + 1 < sym_param(0) || sym_param(1) ? "." : ""; }
    s[sym_choice("at", s.size())] = (char)sym_u8("char");
    check_name(s);
}
// ---- C35 ---------------------------------------------------------------------
struct Ref { int kind = 0; Bytes b; };
static Ref read(const std::string& s) {
    Ref r;
    if (s.find('\0') != std::string::npos) return r;
    uint8_t b[16];
    if (inet_pton(AF_INET, s.c_str(), b) == 1) { r.kind = 4; r.b.assign(b, b + 4); }
    else if (inet_pton(AF_INET6, s.c_str(), b) == 1) { r.kind = 16; r.b.assign(b, b + 16); }
    return r;
}
static void check_text(const std::string& s) {
    Ref w = read(s);
    auto r = Address::from_string(s);
    sym_assert(r.is_ok() == (w.kind != 0), "accepted exactly when the whole text is an address");
    if (r.is_err()) { sym_cover("no address"); return; }
    if (!w.kind) return;
    sym_assert(bytes_of(r.unwrap().view()) == w.b, "its bytes");
    sym_assert((r.unwrap().value().index() == 0) == (w.kind == 4), "its family");
    sym_cover(w.kind == 4 ? "IPv4" : "IPv6");
}
HARNESS(h_ip_view) {
    Bytes b = any_bytes(sym_param(0), "bytes");
    auto a = net::ip::AddressV4::from_view(View(b)); auto c = net::ip::AddressV6::from_view(View(b));
    sym_assert(a.is_ok() == (b.size() == 4) && c.is_ok() == (b.size() == 16), "4 or 16 bytes");
    if (a.is_ok()) { sym_assert(bytes_of(a.unwrap().view()) == b && bytes_of(Address::copy_from_v4(a.unwrap()).view()) == b, "the bytes"); sym_cover("IPv4"); }
    if (c.is_ok()) { sym_assert(bytes_of(c.unwrap().view()) == b && bytes_of(Address::copy_from_v6(c.unwrap()).view()) == b, "the bytes"); sym_cover("IPv6"); }
    sym_cover("viewed");
}
static Address make(const Bytes& b) { return b.size() == 4 ? Address::move_from_v4(net::ip::AddressV4::from_view(View(b)).unwrap()) : Address::move_from_v6(net::ip::AddressV6::from_view(View(b)).unwrap()); }
HARNESS(h_ip_equal) {
    Bytes a = any_bytes(sym_param(0) & 1 ? 16 : 4, "a"), b = any_bytes(sym_param(0) & 2 ? 16 : 4, "b");
    bool eq = make(a) == make(b);
    sym_assert(eq == (a.size() == b.size() && sym_eq_bytes(a.data(), b.data(), a.size())), "equal exactly when family and bytes are");
    sym_cover(eq ? "equal" : "different");
}
HARNESS(h_ip_text) { check_text(any_string(sym_param(0), "text")); }
HARNESS(h_ip_text4) {
    std::string s;
    unsigned at = sym_choice("group", 4);
    static const char *const GROUP[4] = {"9", "25", "255", "1000"};
    for (unsigned i = 0; i < 4; ++i) {
        if (i) s += '.';
        size_t n = sym_param(i);
        s += i == at ? any_string(n, "octet") : n == 3 && i == 1 ? std::string("049") : std::string(GROUP[n - 1]);
    }
    if (sym_param(4)) s += (char)sym_u8("more");
    check_text(s);
}
HARNESS(h_ip_text6) {
    size_t n = sym_param(0), gap = sym_param(1); std::string s;    // gap > n: none
    unsigned at = n ? sym_choice("group", n) : 0;
    for (size_t i = 0; i < n; ++i) {
        if (i == gap) s += "::"; else if (i) s += ':';
        s += i == at ? any_string(sym_param(2), "group") : i == 2 ? std::string("FeD0") : std::string(1, (char)('1' + i));
    }
    if (gap == n) s += "::";
    if (sym_param(3)) s += (char)sym_u8("more");
    check_text(s);
}
// the longest texts, with any bytes before, after or in place of one
HARNESS(h_ip_max) {
    static const char *const T[] = {"ffff:ffff:ffff:ffff:ffff:ffff:255.255.255.255", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "255.255.255.255", "::ffff:255.255.255.255"};
    std::string s = T[sym_param(0)];
    int k = sym_param(1);
    if (k == 0) s += any_string(1, "after");
    else if (k == 1) s = any_string(1, "before") + s;
    else if (k == 2) s[sym_choice("at", s.size())] = (char)sym_u8("char");
    else if (k == 3) s += any_string(2, "after");
    else if (k == 4) s.resize(s.size() - 1);
    else if (k == 5) { s = any_string(1, "before") + s + any_string(1, "after"); }
    else { s[sym_choice("at", s.size())] = (char)sym_u8("char"); s += any_string(1, "after"); }
    check_text(s);
}
HARNESS(h_ip_nul) {
    static const char *const T[] = {"1.2.3.4", "::1", "1::", "", "1.2"};
    std::string s = T[sym_choice("text", 5)];
    s += (char)sym_u8("next"); if (sym_bool("more")) s += (char)sym_u8("last");
    check_text(s);
}
static void back(const Bytes& b) {
    auto a = make(b);
    auto t = a.to_string();
    sym_assert(t.is_ok(), "printed"); if (t.is_err()) return;
    auto r = Address::from_string(t.unwrap());
    sym_assert(r.is_ok() && r.unwrap() == a, "the printed text gives the address back");
    sym_cover("read back");
}
HARNESS(h_ip_print4) { back(any_bytes(4, "addr")); }
// mask: groups that are not zero
HARNESS(h_ip_print6) {
    unsigned m = sym_param(0); Bytes b(16);
    static const unsigned QUICK[8] = {0xff, 0, 0xc3, 0x99, 0x03, 0xe0, 0x01, 0x55};
    unsigned mask = m < 8 ? QUICK[m] : m;
    for (int i = 0; i < 8; ++i) if (mask >> i & 1) { b[2 * i] = i; b[2 * i + 1] = 0x40 + i; }
    unsigned at = sym_choice("at", 16); b[at] = sym_u8("byte");
    back(b);
}
HARNESS(h_candidate_address) {
    std::string s = any_string(sym_param(0), "text");
    Ref w = read(s);
    size_t n = name_prefix(s);
    auto r = ice::candidate::Address::from_string(s);
    bool name = n > 0 && n == s.size();
    sym_assert(r.is_ok() == (w.kind || name), "an address or a name");
    if (r.is_err()) { sym_cover("neither"); return; }
    const auto& a = r.unwrap();
    sym_assert(a.as_ip_address().is_some() == (w.kind != 0) && a.as_fqdn().is_some() == (w.kind == 0), "a name only when it is no address");
    if (w.kind && a.as_ip_address().is_some()) { sym_assert(bytes_of(a.as_ip_address().unwrap().get().view()) == w.b, "the address"); sym_cover("address"); }
    if (!w.kind && a.as_fqdn().is_some()) { sym_assert(a.as_fqdn().unwrap().get().to_string() == s && a.to_string().is_ok() && a.to_string().unwrap() == s, "the name"); sym_cover("name"); }
}
