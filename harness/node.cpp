// The Node.js bindings (C44), over a stand-in for the N-API (shim/craftnapi).
// @job C44 quick h_node_parse 0..31 0..3 | 32..63/5 5,17
// @job C44 thorough h_node_parse 0..127 0..5 | 0..127/7 17,40,256
// @job C44 quick h_node_parse_raw 0..28/4 | 19,21
// @job C44 thorough h_node_parse_raw 0..32
// @job C44 quick,thorough h_node_args 0..8
// @job C44 quick h_node_server 0..3 0..3
// @job C44 quick h_node_server 17,40,70 1
// @job C44 thorough h_node_server 0..5 0..3 | 64,65,100 0..3
// @job C44 quick,thorough h_node_rinfo 0..5
// @job C44 quick h_node_rinfo_text 0..4
// @job C44 thorough h_node_rinfo_text 0..8
// @job C44 quick h_node_client 0..7 0..4 2 | 6 5 2 | 4 0 0..3 | 4 0 17,40,70
// @job C44 thorough h_node_client 0..7 0..5 2 | 4..7 0 0..5 | 4 0 17,40,70,130
// @job C44 quick,thorough h_node_create 0..11
// @job C44 quick,thorough h_node_effect 0..7
// @job C44 quick h_node_candidate 0..8 0..2
// @job C44 thorough h_node_candidate 0..8 0..5
// @job C44 quick h_node_candidate_num 1 1..3 | 5 5 | 11 5
// @job C44 thorough h_node_candidate_num 1,5,11 1..7
// @job C44 quick,thorough h_node_candidate_many 0,1,5,17,33
// @bound C44: messages of any class, method, id and flavour with any subset of the attributes shown to JavaScript, any values, texts of up to 3 (also 5, 17) (quick) / 40, 256 (thorough) bytes, duplicates and unknown attributes; any message of up to 28 / 32 bytes; every kind of JavaScript value in every argument place; any 32-bit port number; addresses of any text of up to 4 / 8 bytes; server and client sessions compared step by step with the C++ ones; user names and passwords of up to 40 and 70 / 130 bytes; candidates with any one field any text of up to 2 / 5 bytes, any component, port and related port, and up to 33 extensions
// @assume C44: the N-API layer (craftnapi) behaves as its stand-in in shim/craftnapi; JavaScript numbers passed to it are 32-bit integers
#include "stun_wire.hpp"
#include "evp_stub.hpp"
#include "craftnapi/env.hpp"
#include "node/node_stun/node_stun_message.hpp"
#include "node/node_stun/node_stun_client_udp.hpp"
#include "node/node_stun/node_stun_client_udp_effects.hpp"
#include "node/node_stun/node_stun_server_stateless.hpp"
#include "node/node_ice/node_ice_candidate.hpp"
#include "node/openssl/node_openssl_hash.hpp"
#include "stun/stun_client_udp.hpp"
#include "stun/stun_server_stateless.hpp"
#include "ice/candidate/ice_candidate_sdp.hpp"
#include "clock/clock_std.hpp"
#include <random>
#include <stdlib.h>
using namespace freewebrtc;
using namespace ref;
using View = util::ConstBinaryView;
namespace js = craftnapi;
using js::Kind; using js::NodePtr;
using Client = stun::ClientUDP;
using Server = stun::server::Stateless;

static int64_t steady_reading;
static uint32_t random_next;
namespace std::chrono { inline namespace _V2 { steady_clock::time_point steady_clock::now() noexcept { return time_point{duration{steady_reading}}; } } }
extern "C" long random() noexcept { return random_next++; }
void std::random_device::_M_init(const std::string&) {}
void std::random_device::_M_fini() {}
std::random_device::result_type std::random_device::_M_getval() { return random_next++; }
struct SameRandom { uint32_t v; uint32_t operator()() { return v++; } };

// ---- JavaScript values --------------------------------------------------------
static js::Value undefined() { return js::Value(std::make_shared<js::Node>()); }
static js::Value make(Kind k) { auto v = undefined(); v.node()->kind = k; return v; }
static js::Value js_number(int64_t n) { auto v = make(Kind::number); v.node()->number = n; return v; }
static js::Value js_bool(bool b) { auto v = make(Kind::boolean); v.node()->number = b; return v; }
static js::Value js_string(std::string s) { auto v = make(Kind::string); v.node()->text = std::move(s); return v; }
static js::Value js_buffer(Bytes b) { auto v = make(Kind::buffer); v.node()->bytes = std::move(b); return v; }
static js::Value js_object(std::vector<std::pair<std::string, js::Value>> ps) { auto v = make(Kind::object); for (auto& p : ps) v.node()->props.emplace_back(p.first, p.second.node()); return v; }
// a value of any kind; 9 kinds
static js::Value of_kind(unsigned k) {
    switch (k) {
    case 0: return undefined();
    case 1: return make(Kind::null);
    case 2: return js_bool(sym_bool("bool"));
    case 3: return js_number((int32_t)sym_u32("number"));
    case 4: { auto v = make(Kind::bigint); v.node()->bigint = sym_u64("bigint"); return v; }
    case 5: return js_string(any_string(1, "string"));
    case 6: return js_buffer(any_bytes(4, "buffer"));
    case 7: return js_object({{"x", js_number(1)}});
    default: return make(Kind::array);
    }
}
static NodePtr get(const NodePtr& n, std::string_view name) {
    NodePtr r;
    unsigned found = 0;
    if (n) for (auto& p : n->props) if (p.first == name) { ++found; r = p.second; }
    sym_assert(found <= 1, "a property is set once");
    return r;
}
static bool absent(const NodePtr& n) { return !n || n->kind == Kind::undefined; }
static bool is_string(const NodePtr& n, const std::string& s) { return n && n->kind == Kind::string && n->text.size() == s.size() && sym_eq_bytes(n->text.data(), s.data(), s.size()); }
static bool is_number(const NodePtr& n, int64_t v) { return n && n->kind == Kind::number && n->number == v; }
static bool is_bigint(const NodePtr& n, uint64_t v) { return n && n->kind == Kind::bigint && n->bigint == v; }
static bool is_buffer(const NodePtr& n, const Bytes& b) { return n && n->kind == Kind::buffer && same(n->bytes, b); }
static bool is_object(const NodePtr& n) { return n && n->kind == Kind::object; }
static const NodePtr& node(const js::Value& v) { return v.node(); }
static const NodePtr& node(const js::Object& v) { return v.node(); }

static js::Env env;
static js::Result<js::Value> call(js::Function f, const js::Value& self, std::vector<js::Value> args) { return f(env, js::CallbackInfo{self, std::move(args)}); }
static js::Function method(const js::Value& c, std::string_view name) { for (auto& m : c.node()->methods) if (m.first == name) return m.second; return nullptr; }

// ---- messages ------------------------------------------------------------------
static const char *const CLASS[4] = {"request", "indication", "success_response", "error_response"};
// what JavaScript must be shown of a message whose header and attributes were written as given
struct Shown {
    unsigned cls; bool old; Bytes tid;
    Maybe<std::string> username, software, addr, reason;
    Maybe<uint32_t> priority, code, port;
    Maybe<uint64_t> controlling, controlled;
    bool use_candidate = false;
};
template <typename T, typename F> static void shown(const Maybe<T>& m, const NodePtr& n, F eq, const char *what) { if (m.is_some()) sym_assert(eq(n, m.unwrap()), what); else sym_assert(absent(n), what); }
static void check_message(const NodePtr& m, const Shown& s) {
    sym_assert(is_object(m), "an object"); if (!is_object(m)) return;
    auto h = get(m, "header");
    sym_assert(is_object(h) && is_string(get(h, "class"), CLASS[s.cls]), "the class by its name");
    sym_assert(is_string(get(h, "method"), "binding"), "the method by its name");
    sym_assert(is_buffer(get(h, "transaction"), s.tid), "the transaction id");
    auto o = get(m, "is_rfc3489");
    sym_assert(o && o->kind == Kind::boolean && (o->number != 0) == s.old, "the protocol flavour");
    auto a = get(m, "attributes");
    sym_assert(is_object(a), "attributes");
    shown(s.username, get(a, "username"), is_string, "username");
    shown(s.software, get(a, "software"), is_string, "software");
    shown(s.priority, get(a, "priority"), is_number, "priority");
    shown(s.controlling, get(a, "ice-controlling"), is_bigint, "ice-controlling");
    shown(s.controlled, get(a, "ice-controlled"), is_bigint, "ice-controlled");
    auto x = get(a, "xor_mapped");
    sym_assert(s.addr.is_some() ? is_object(x) : absent(x), "xor_mapped");
    shown(s.addr, get(x, "addr"), is_string, "the address without the mask");
    shown(s.port, get(x, "port"), is_number, "the port without the mask");
    auto e = get(a, "error_code");
    sym_assert(s.code.is_some() ? is_object(e) : absent(e), "error_code");
    shown(s.code, get(e, "code"), is_number, "the error code");
    shown(s.reason, get(e, "reason"), is_string, "the reason");
    auto u = get(a, "use-candidate");
    sym_assert(s.use_candidate ? u && u->kind == Kind::boolean && u->number == 1 : absent(u) || (u->kind == Kind::boolean && u->number == 0), "use-candidate");
}
static std::string text_of(const Bytes& raw) {
    if (raw.size() == 4) return net::ip::Address::move_from_v4(net::ip::AddressV4::from_view(View(raw)).unwrap()).to_string().unwrap();
    return net::ip::Address::move_from_v6(net::ip::AddressV6::from_view(View(raw)).unwrap()).to_string().unwrap();
}
// mask: 1 username, 2 software, 4 xor-mapped, 8 error-code, 16 numbers and use-candidate, 32 unknown attribute, 64 everything repeated
static Bytes any_message(unsigned mask, size_t len, Shown& s) {
    Bytes body;
    s.cls = sym_choice("class", 4);
    s.old = s.cls == 0 && sym_bool("rfc3489");
    Bytes head = any_bytes(s.old ? 16 : 12, "tid");
    if (s.old) sym_assume(be32(head.data()) != COOKIE);
    s.tid = head;
    bool old = s.old;
    auto attr = [&](uint16_t t, const Bytes& v) { Bytes x = cat({num(t, 2), num(v.size(), 2), v}); x.resize(padded(x.size())); body.insert(body.end(), x.begin(), x.end()); };
    if (mask & 32) { uint16_t t = sym_u16("unknown"); sym_assume(!is_known(t)); attr(t, any_bytes(len, "udata")); }
    for (unsigned round = 0; round < (mask & 64 ? 2 : 1); ++round) {
        auto first = [&](auto& m, auto v) { if (m.is_none()) m = v; };
        if (mask & 1) { auto t = any_string(len, "username"); attr(USERNAME, Bytes(t.begin(), t.end())); first(s.username, t); }
        if (mask & 2) { auto t = any_string(len, "software"); attr(SOFTWARE, Bytes(t.begin(), t.end())); first(s.software, t); }
        if (mask & 4) {
            // few addresses: the text of an address is another property; the mask and port are any
            bool v6 = len & 1;
            Bytes raw = v6 ? Bytes{0x20, 1, 0xd, 0xb8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1} : Bytes{192, 0, 2, 1};
            raw.back() = (uint8_t)sym_choice("addr", 12);
            uint16_t port = sym_u16("port");
            Bytes pad = cat({num(COOKIE, 4), s.tid}), w = cat({num(v6 ? 2 : 1, 2), num(port ^ (COOKIE >> 16), 2)});
            if (old) pad = cat({num(COOKIE, 4), Bytes(s.tid.begin(), s.tid.begin() + 12)});
            for (size_t i = 0; i < raw.size(); ++i) w.push_back(raw[i] ^ pad[i]);
            attr(XMAPPED, w);
            first(s.addr, text_of(raw)); first(s.port, (uint32_t)port);
        }
        if (mask & 8) {
            unsigned h = sym_u8("hundreds"), n = sym_u8("number"); sym_assume(h >= 3 && h <= 6 && n < 100);
            auto t = any_string(len, "reason");
            attr(ERRCODE, cat({num(h << 8 | n, 4), Bytes(t.begin(), t.end())}));
            first(s.code, (uint32_t)(h * 100 + n)); first(s.reason, t);
        }
        if (mask & 16) {
            uint32_t p = sym_u32("priority"); attr(PRIO, num(p, 4)); first(s.priority, p);
            uint64_t a = sym_u64("tie"), b = sym_u64("tie");
            attr(CONTROLLING, num(a, 8)); first(s.controlling, a);
            attr(CONTROLLED, num(b, 8)); first(s.controlled, b);
            attr(USECAND, {}); s.use_candidate = true;
        }
    }
    return cat({num(msg_type(s.cls, 1), 2), num(body.size(), 2), old ? Bytes() : num(COOKIE, 4), head, body});
}
HARNESS(h_node_parse) {
    Shown s;
    Bytes msg = any_message(sym_param(0), sym_param(1), s);
    auto r = call(node_stun::message_parse, undefined(), {js_buffer(msg)});
    sym_assert(r.is_ok(), "a STUN message is shown");
    if (r.is_ok()) check_message(node(r.unwrap()), s);
    sym_cover("shown");
}
HARNESS(h_node_parse_raw) {
    Bytes b = any_bytes(sym_param(0), "msg");
    auto r = call(node_stun::message_parse, undefined(), {js_buffer(b)});
    stun::ParseStat st;
    auto m = stun::Message::parse(View(b), st);
    if (m.is_err()) { sym_assert(r.is_err(), "what does not parse is an error"); sym_cover("error"); return; }
    if (!(m.unwrap().header.method == stun::Method::binding())) { sym_assert(r.is_err(), "a method without a name is an error"); sym_cover("other method"); return; }
    sym_assert(r.is_ok(), "a binding message is shown");
    if (r.is_err()) return;
    auto h = get(node(r.unwrap()), "header");
    sym_assert(is_buffer(get(h, "transaction"), bytes_of(m.unwrap().header.transaction_id.view())), "the transaction id");
    sym_cover("shown");
}
// every kind of value, and none, in place of each argument
static js::Value new_server() {
    auto c = node_stun::server_stateless_class(env, "StatelessServer");
    sym_assert(c.is_ok(), "the class is made");
    auto self = make(Kind::object);
    auto r = call(c.unwrap().node()->ctor, self, {});
    sym_assert(r.is_ok(), "a server is made");
    self.node()->methods = c.unwrap().node()->methods;
    return self;
}
static js::Value rinfo(js::Value addr, js::Value port) { return js_object({{"address", std::move(addr)}, {"family", js_string("IPv4")}, {"port", std::move(port)}}); }
static Bytes binding_request() { return cat({num(1, 2), num(0, 2), num(COOKIE, 4), Bytes{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}}); }
HARNESS(h_node_args) {
    unsigned what = sym_param(0), k = sym_choice("kind", 10);
    bool none = k == 9;
    auto bad = none ? undefined() : of_kind(k);
    auto args = [&](std::vector<js::Value> before, std::vector<js::Value> after) { if (!none) { before.push_back(bad); for (auto& v : after) before.push_back(v); } return before; };
    switch (what) {
    case 0: { auto r = call(node_stun::message_parse, undefined(), args({}, {})); if (k != 6) sym_assert(r.is_err(), "only buffers are parsed"); else sym_assert(r.is_err(), "4 bytes are no message"); break; }
    case 1: { auto r = call(node_ice::ice_candidate_parse, undefined(), args({}, {})); sym_assert(r.is_err(), "only candidate text is parsed"); break; }
    case 2: { auto s = new_server(); auto r = call(method(s, "process"), s, args({}, {rinfo(js_string("10.0.0.1"), js_number(5))})); if (k != 6) sym_assert(r.is_err(), "only buffers are processed"); else sym_assert(r.is_ok() && is_string(get(node(r.unwrap()), "result"), "ignore"), "what is no STUN is ignored"); break; }
    case 3: { auto s = new_server(); auto r = call(method(s, "process"), s, args({js_buffer(binding_request())}, {})); sym_assert(r.is_err(), "a request without source is an error"); break; }
    case 4: { auto s = new_server(); auto r = call(method(s, "addUser"), s, args({}, {js_string("p")})); sym_assert(r.is_ok() == (k == 5), "a user name is a string"); break; }
    case 5: { auto s = new_server(); auto r = call(method(s, "addUser"), s, args({js_string("u")}, {})); sym_assert(r.is_ok() == (k == 5), "a password is a string"); break; }
    case 6: { auto s = new_server(); auto r = call(method(s, "process"), bad, {js_buffer(binding_request()), rinfo(js_string("10.0.0.1"), js_number(5))}); sym_assert(r.is_err(), "not a server"); break; }
    case 7: { auto s = new_server(); auto r = call(method(s, "addUser"), bad, {js_string("u"), js_string("p")}); sym_assert(r.is_err(), "not a server"); break; }
    default: {
        auto c = node_stun::client_udp_class(env, "ClientUDP");
        auto self = make(Kind::object);
        auto r = call(c.unwrap().node()->ctor, self, args({}, {}));
        sym_assert(r.is_ok() == (k >= 7 && k <= 8), "settings are an object");
        sym_assert(call(method(c.unwrap(), "next"), bad, {}).is_err(), "not a client");
        sym_assert(call(method(c.unwrap(), "response"), bad, {js_buffer(binding_request())}).is_err(), "not a client");
        sym_assert(call(method(c.unwrap(), "create"), bad, {js_object({{"source", js_string("10.0.0.1")}, {"target", js_string("10.0.0.2")}})}).is_err(), "not a client");
        if (r.is_ok()) sym_assert(call(method(c.unwrap(), "response"), self, args({}, {})).is_ok() == (k == 6), "a response is a buffer");
        break; }
    }
    sym_cover(none ? "missing" : "given");
}

// ---- server --------------------------------------------------------------------
// param 0: length of user name and password; param 1: 0 no credentials, 1 valid digest of either user, 2 any digest, 3 unknown attribute or not a request
HARNESS(h_node_server) {
    size_t len = sym_param(0); unsigned mode = sym_param(1);
    lib = Lib();
    auto self = new_server();
    Server ref(crypto::node_openssl::sha1);
    std::string u1 = any_string(len, "user"), p1 = any_string(len, "pw"), u2 = any_string(2, "user2"), p2 = "x";
    sym_assume(!(u1 == u2));
    auto add = [&](const std::string& u, const std::string& p) {
        auto r = call(method(self, "addUser"), self, {js_string(u), js_string(p)});
        sym_assert(r.is_ok() && absent(node(r.unwrap())), "a user is added");
        ref.add_user(precis::OpaqueString{u}, stun::Password::short_term(precis::OpaqueString{p}, crypto::node_openssl::sha1).unwrap());
    };
    add(u1, p1); add(u2, p2);
    Bytes tid = any_bytes(12, "tid"), body;
    auto attr = [&](uint16_t t, const Bytes& v) { Bytes x = cat({num(t, 2), num(v.size(), 2), v}); x.resize(padded(x.size())); body.insert(body.end(), x.begin(), x.end()); };
    auto str = [](const std::string& x) { return Bytes(x.begin(), x.end()); };
    unsigned cls = 0;
    if (mode == 1 || mode == 2) attr(USERNAME, str(mode == 1 && sym_bool("second") ? u2 : u1));
    if (mode == 3) { if (sym_bool("indication")) cls = 1; else attr(0x7777, any_bytes(3, "udata")); }
    Bytes m = cat({num(msg_type(cls, 1), 2), num(body.size() + (mode == 1 || mode == 2 ? 24 : 0), 2), num(COOKIE, 4), tid, body});
    if (mode == 1) m = cat({m, num(INTEGRITY, 2), num(20, 2), hmac(lib.sha1, str(p1), m)});
    if (mode == 2) m = cat({m, num(INTEGRITY, 2), num(20, 2), any_bytes(20, "digest")});
    uint16_t port = sym_u16("port");
    auto r = call(method(self, "process"), self, {js_buffer(m), rinfo(js_string("192.0.2.77"), js_number(port))});
    Bytes raw{192, 0, 2, 77};
    auto want = ref.process(net::UdpEndpoint{net::ip::Address::move_from_v4(net::ip::AddressV4::from_view(View(raw)).unwrap()), net::Port::from_uint16(port)}, View(m));
    sym_assert(r.is_ok(), "the request is processed");
    if (r.is_err()) return;
    auto n = node(r.unwrap());
    if (auto *a = std::get_if<Server::Respond>(&want)) {
        sym_assert(is_string(get(n, "result"), "respond"), "to be answered");
        auto w = a->response.build(a->maybe_integrity);
        sym_assert(w.is_ok() && is_buffer(get(n, "data"), w.unwrap()), "the answer's bytes");
        sym_cover(a->response.header.cls == stun::Class::success_response() ? a->maybe_integrity.is_some() ? "signed success" : "success" : "error response");
    } else {
        sym_assert(std::holds_alternative<Server::Ignore>(want), "no error");
        sym_assert(is_string(get(n, "result"), "ignore") && absent(get(n, "data")), "to be ignored");
        Shown s; s.cls = cls; s.old = false; s.tid = tid;
        check_message(get(n, "message"), s);
        sym_cover("ignored");
    }
}
// where a request came from
static js::Result<js::Value> process_from(js::Value ri) { auto s = new_server(); return call(method(s, "process"), s, {js_buffer(binding_request()), std::move(ri)}); }
static void came_from(const js::Result<js::Value>& r, const Bytes& raw, uint16_t port) {
    sym_assert(r.is_ok() && is_string(get(node(r.unwrap()), "result"), "respond"), "the request is answered");
    if (r.is_err()) return;
    auto d = get(node(r.unwrap()), "data");
    sym_assert(d && d->kind == Kind::buffer, "the answer's bytes");
    if (!d) return;
    stun::ParseStat st;
    auto m = stun::Message::parse(View(d->bytes), st);
    sym_assert(m.is_ok() && m.unwrap().attribute_set.xor_mapped().is_some(), "a success response");
    if (m.is_err() || m.unwrap().attribute_set.xor_mapped().is_none()) return;
    const auto& x = m.unwrap().attribute_set.xor_mapped().unwrap().get();
    sym_assert(x.port.value() == port, "the source's port");
    sym_assert(bytes_of(x.addr.to_address(m.unwrap().header.transaction_id).view()) == raw, "the source's address");
}
HARNESS(h_node_rinfo) {
    unsigned what = sym_param(0);
    lib = Lib();
    auto addr = [] { return js_string("10.1.2.3"); };
    if (what == 0) {       // any 32-bit number as port
        int32_t port = (int32_t)sym_u32("port");
        auto r = process_from(rinfo(addr(), js_number(port)));
        if (port < 0 || port > 65535) { sym_assert(r.is_err(), "no port"); sym_cover("out of range"); return; }
        came_from(r, Bytes{10, 1, 2, 3}, (uint16_t)port);
        sym_cover("port"); return;
    }
    unsigned k = sym_choice("kind", 9);
    if (what == 1) { auto r = process_from(rinfo(addr(), of_kind(k))); if (k != 3) { sym_assert(r.is_err(), "a port is a number"); sym_cover("bad port"); } return; }
    if (what == 2) { auto r = process_from(rinfo(of_kind(k), js_number(5))); sym_assert(r.is_err(), "an address is a string of one"); sym_cover("bad address"); return; }
    if (what == 3) { sym_assert(process_from(js_object({{"address", addr()}})).is_err() && process_from(js_object({{"port", js_number(5)}})).is_err(), "both are needed"); sym_cover("missing"); return; }
    uint16_t port = sym_u16("port");
    if (what == 4) { came_from(process_from(rinfo(js_string("::1"), js_number(port))), Bytes{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1}, port); sym_cover("v6"); return; }
    came_from(process_from(rinfo(js_string("2001:db8::ff"), js_number(port))), Bytes{0x20, 1, 0xd, 0xb8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff}, port); sym_cover("v6");
}
HARNESS(h_node_rinfo_text) {
    lib = Lib();
    std::string s = any_string(sym_param(0), "address");
    auto a = net::ip::Address::from_string(s);
    auto r = process_from(rinfo(js_string(s), js_number(9)));
    if (a.is_err()) { sym_assert(r.is_err(), "no address"); sym_cover("bad"); return; }
    came_from(r, bytes_of(a.unwrap().view()), 9);
    sym_cover("address");
}

// ---- client --------------------------------------------------------------------
static void check_effect(const NodePtr& n, const Client::Effect& e) {
    sym_assert(is_object(n), "an effect is an object"); if (!is_object(n)) return;
    auto type = get(n, "type");
    if (auto *d = std::get_if<Client::SendData>(&e)) {
        sym_assert(is_string(type, "send_data") && is_buffer(get(n, "message"), bytes_of(d->message_view)), "bytes to send");
        sym_cover("send_data");
    } else if (auto *t = std::get_if<Client::TransactionOk>(&e)) {
        sym_assert(is_string(type, "transaction_ok"), "success");
        auto r = get(n, "result");
        sym_assert(is_string(get(r, "addr"), t->result.address.to_string().unwrap()) && is_number(get(r, "port"), t->result.port.value()), "the address and port");
        auto h = get(get(n, "response"), "header");
        sym_assert(is_buffer(get(h, "transaction"), bytes_of(t->response.header.transaction_id.view())), "the response");
        if (t->round_trip.is_some()) sym_assert(is_number(get(n, "rtt_us"), std::chrono::duration_cast<std::chrono::microseconds>(t->round_trip.unwrap()).count()), "the round-trip time");
        else sym_assert(absent(get(n, "rtt_us")), "no round-trip time");
        sym_cover("transaction_ok");
    } else if (auto *f = std::get_if<Client::TransactionFailed>(&e)) {
        sym_assert(is_string(type, "transaction_fail") && is_number(get(get(n, "handle"), "value"), f->handle.value), "failure of the transaction");
        auto r = get(n, "reason");
        sym_assert(r && r->kind == Kind::string && !r->text.empty(), "a reason"); if (!r) return;
        using F = Client::TransactionFailed;
        std::string_view t = r->text;
        bool timeout = t.find("timeout") != t.npos, alternate = t.find("alternate") != t.npos, unknown = t.find("unknown") != t.npos;
        if (auto *c = std::get_if<F::ErrorCode>(&f->reason)) sym_assert(t.find(std::to_string(c->attr.code)) != t.npos && t.find(c->attr.reason_phrase.value_or("")) != t.npos, "the error code and reason");
        else if (auto *c = std::get_if<F::Error>(&f->reason)) sym_assert(t.find(c->code.message()) != t.npos, "the error");
        else sym_assert(timeout == std::holds_alternative<F::Timeout>(f->reason) && alternate == std::holds_alternative<F::AlternateServer>(f->reason)
            && unknown == (std::holds_alternative<F::UnknownComprehensionRequiredAttribute>(f->reason) || std::holds_alternative<F::UnknownAttributeReported>(f->reason)), "the kind of failure");
        sym_cover("transaction_fail");
    } else if (auto *s = std::get_if<Client::Sleep>(&e)) {
        auto ms = get(n, "timeout_ms");
        sym_assert(is_string(type, "sleep") && ms && ms->kind == Kind::number, "a sleep"); if (!ms) return;
        int64_t us = std::chrono::duration_cast<std::chrono::microseconds>(s->sleep).count();
        sym_assert(ms->number * 1000 >= us && ms->number * 1000 < us + 1000, "rounded up to whole milliseconds");
        sym_cover("sleep");
    } else { sym_assert(is_string(type, "idle"), "idle"); sym_cover("idle"); }
}
struct Pair {      // a client seen from JavaScript, and one used from C++
    js::Value self = make(Kind::object), cls = undefined();
    Client ref;
    static Client::Settings settings(int fp) { Client::Settings s; if (fp >= 0) s.use_fingerprint = Client::Settings::UseFingerprint{fp != 0}; return s; }
    explicit Pair(int fp) : ref(settings(fp)) {
        steady_reading = 0; random_next = 1000;
        (void)clock::steady_clock_now();
        auto c = node_stun::client_udp_class(env, "ClientUDP");
        sym_assert(c.is_ok(), "the class is made");
        cls = c.unwrap();
        auto r = call(cls.node()->ctor, self, {fp < 0 ? js_object({}) : js_object({{"use_fingerprint", js_bool(fp)}})});
        sym_assert(r.is_ok(), "a client is made");
    }
    clock::Timepoint now() { return clock::steady_clock_now(); }
    js::Result<js::Value> create(js::Value req) { return call(method(cls, "create"), self, {std::move(req)}); }
    void both_next() {
        auto r = call(method(cls, "next"), self, {});
        auto e = ref.next(now());
        sym_assert(r.is_ok(), "an effect"); if (r.is_ok()) check_effect(node(r.unwrap()), e);
        if (auto *s = std::get_if<Client::Sleep>(&e)) sleep = std::chrono::duration_cast<std::chrono::microseconds>(s->sleep).count();
    }
    void both_response(const Bytes& m) {
        auto r = call(method(cls, "response"), self, {js_buffer(m)});
        sym_assert(r.is_ok() && absent(node(r.unwrap())), "a response is taken");
        (void)ref.response(now(), View(m));
    }
    int64_t sleep = 0;
};
static std::string js_user, js_pw;
static Client::Request request(bool auth) {
    Client::Request q{net::Path{net::ip::Address::from_string("10.0.0.1").unwrap(), net::ip::Address::from_string("10.0.0.2").unwrap()}, {}, {}, none()};
    if (auth) q.maybe_auth = Client::Auth{precis::OpaqueString{js_user}, stun::IntegrityData{stun::Password::short_term(precis::OpaqueString{js_pw}, crypto::node_openssl::sha1).unwrap(), crypto::node_openssl::sha1}};
    return q;
}
static js::Value js_request(bool auth) {
    auto o = js_object({{"source", js_string("10.0.0.1")}, {"target", js_string("10.0.0.2")}});
    if (auth) o.node()->props.emplace_back("auth", js_object({{"username", js_string(js_user)}, {"password", js_string(js_pw)}}).node());
    return o;
}
// param 0: bits: fingerprint setting given, its value, credentials; param 1: 0 success, 1 success after a resend, 2 error response, 3 bad response, 4 no answer, 5 two transactions
HARNESS(h_node_client) {
    unsigned f = sym_param(0), what = sym_param(1); bool auth = f & 4;
    lib = Lib();
    js_user = any_string(sym_param(2), "user"); js_pw = any_string(sym_param(2), "pw");
    Pair p(f & 1 ? (f >> 1 & 1) : -1);
    SameRandom rnd{random_next};
    auto start = [&] {
        auto r = p.create(js_request(auth));
        auto h = p.ref.create(rnd, p.now(), request(auth));
        sym_assert(h.is_ok() && r.is_ok(), "a transaction is started");
        if (r.is_ok()) sym_assert(is_number(get(node(r.unwrap()), "value"), h.unwrap().value), "its handle");
    };
    uint32_t first = random_next;
    start(); if (what == 5) start();
    SameRandom again{first};
    auto id = stun::TransactionId::generate(again);
    p.both_next(); p.both_next();
    if (what == 5) p.both_next();
    // any time before the answer; running to the end only needs a few
    uint64_t d = what == 4 ? 1000 * sym_choice("later", 3) : what == 5 ? 777 * (sym_u32("later") & 0x1ff) : sym_u32("later"); sym_assume(d < 600000);
    steady_reading += (int64_t)d * 1000;
    if (what == 1 || what == 4 || what == 5) { p.both_next(); p.both_next(); }
    if (what == 4) { for (int i = 0; i < 20; ++i) { steady_reading += p.sleep * 1000; p.both_next(); } sym_cover("to the end"); return; }
    Bytes body;
    auto attr = [&](uint16_t t, const Bytes& v) { Bytes x = cat({num(t, 2), num(v.size(), 2), v}); x.resize(padded(x.size())); body.insert(body.end(), x.begin(), x.end()); };
    if (what == 2) { unsigned code = (unsigned)sym_choice("code", 4); static const unsigned C[4] = {300, 400, 420, 500}; attr(ERRCODE, cat({num((C[code] / 100) << 8 | C[code] % 100, 4), any_bytes(2, "reason")})); }
    else attr(XMAPPED, cat({num(1, 2), any_bytes(2, "port"), num(COOKIE ^ 0x0a00002a, 4)}));
    Bytes m = cat({num(msg_type(what == 2 ? 3 : 2, 1), 2), num(body.size() + (auth ? 24 : 0), 2), num(COOKIE, 4), bytes_of(id.view()), body});
    if (auth) { Bytes key(js_pw.begin(), js_pw.end()); m = cat({m, num(INTEGRITY, 2), num(20, 2), what == 3 ? any_bytes(20, "digest") : hmac(lib.sha1, key, m)}); }
    else if (what == 3) { m[sym_choice("at", 4) * 5] ^= 0x10; }  // type, cookie, id
    p.both_response(m);
    p.both_next(); p.both_next();
    if (what == 5) { p.both_next(); steady_reading += p.sleep * 1000; p.both_next(); p.both_next(); }
    sym_cover("ran");
}
HARNESS(h_node_create) {
    unsigned what = sym_param(0);
    lib = Lib();
    unsigned k = sym_choice("kind", 9);
    auto bad = of_kind(k);
    bool absent_ok = false;
    auto addr = [](const char *s) { return js_string(s); };
    if (what < 2) {      // settings
        auto c = node_stun::client_udp_class(env, "ClientUDP");
        auto r = call(c.unwrap().node()->ctor, make(Kind::object), {js_object({{what ? "unrelated" : "use_fingerprint", bad}})});
        sym_assert(r.is_ok() == (what == 1 || k == 2), "a setting is a boolean");
        sym_cover(r.is_ok() ? "made" : "refused"); return;
    }
    Pair p(-1);
    auto req = js_object({{"source", addr("10.0.0.1")}, {"target", addr("10.0.0.2")}});
    auto& props = req.node()->props;
    bool want = false;
    switch (what) {
    case 2: props[0].second = bad.node(); break;
    case 3: props[1].second = bad.node(); break;
    case 4: props.pop_back(); break;
    case 5: props.erase(props.begin()); break;
    case 6: props.emplace_back("auth", bad.node()); break;
    case 7: props.emplace_back("auth", js_object({{"username", bad}, {"password", js_string("p")}}).node()); want = k == 5; break;
    case 8: props.emplace_back("auth", js_object({{"username", js_string("u")}, {"password", bad}}).node()); want = k == 5; break;
    case 9: props.emplace_back("auth", js_object({{"username", js_string("u")}}).node()); break;
    case 10: req = bad; break;
    default: props.emplace_back("other", bad.node()); want = true; break;
    }
    auto r = p.create(req);
    sym_assert(r.is_ok() == want, "a request has a source, a target and maybe credentials");
    auto e = call(method(p.cls, "next"), p.self, {});
    sym_assert(e.is_ok() && is_string(get(node(e.unwrap()), "type"), want ? "send_data" : "idle"), "nothing is started by a bad request");
    sym_cover(want ? "started" : "refused");
    (void)absent_ok;
}
HARNESS(h_node_effect) {
    unsigned what = sym_param(0);
    uint32_t hv = sym_u32("handle"); sym_assume(hv < 0x80000000u);
    Client::Handle h{hv};
    using F = Client::TransactionFailed;
    auto types = [] { std::vector<stun::AttributeType> v; v.push_back(stun::AttributeType::from_uint16(sym_u16("type"))); return v; };
    auto check = [&](Client::Effect e) { auto r = node_stun::client_udp_effect_to_craftnapi(env, e); sym_assert(r.is_ok(), "an effect"); if (r.is_ok()) check_effect(node(r.unwrap()), e); };
    auto fail = [&](F::Reason r) { check(F{h, std::move(r)}); };
    Bytes raw{10, 0, 0, 1};
    auto a = net::ip::Address::move_from_v4(net::ip::AddressV4::from_view(View(raw)).unwrap());
    switch (what) {
    case 0: { uint64_t us = sym_u64("sleep"); sym_assume(us <= 1ull << 40); check(Client::Sleep{clock::NativeDuration((int64_t)us)}); break; }
    case 1: fail(F::UnknownComprehensionRequiredAttribute{types()}); break;
    case 2: fail(F::UnknownAttributeReported{types()}); break;
    case 3: fail(F::AlternateServer{net::UdpEndpoint{a, net::Port::from_uint16(sym_u16("port"))}}); break;
    case 4: { unsigned c = 300 + (unsigned)sym_choice("code", 400); stun::ErrorCodeAttribute e{c, none()}; if (sym_bool("reason")) e.reason_phrase = std::string("why"); fail(F::ErrorCode{e}); break; }
    case 5: fail(F::Error{::freewebrtc::Error(make_error_code(stun::ParseError::invalid_message_size))}); break;
    case 6: fail(F::Timeout{}); break;
    default: {
        AttributeSet::AttrVec v;
        Bytes tid = any_bytes(12, "tid");
        stun::Message m{stun::Header{stun::Class::success_response(), stun::Method::binding(), stun::TransactionId(View(tid))}, AttributeSet::create(std::move(v)), stun::IsRFC3489{false}, none()};
        Client::TransactionOk ok{h, net::UdpEndpoint{a, net::Port::from_uint16(sym_u16("port"))}, m, none()};
        if (sym_bool("rtt")) { uint32_t us = sym_u32("rtt"); sym_assume(us < 0x80000000u); ok.round_trip = clock::NativeDuration((int64_t)us); }
        check(ok); break; }
    }
}

// ---- candidates ----------------------------------------------------------------
static void check_candidate(const std::string& line) {
    auto r = call(node_ice::ice_candidate_parse, undefined(), {js_string(line)});
    auto p = ice::candidate::parse_sdp_attr(line);
    if (p.is_err()) { sym_assert(r.is_err(), "what does not parse is an error"); sym_cover("error"); return; }
    sym_assert(r.is_ok(), "a result"); if (r.is_err()) return;
    auto o = node(r.unwrap()), res = get(o, "result"), err = get(o, "error");
    if (auto *u = std::get_if<ice::candidate::Unsupported>(&p.unwrap())) {
        sym_assert(res && res->kind == Kind::null && is_string(err, u->value), "what is not supported is named");
        sym_cover("unsupported"); return;
    }
    const auto& s = std::get<ice::candidate::Supported>(p.unwrap());
    const auto& c = s.candidate;
    sym_assert(is_object(res) && err && err->kind == Kind::null, "a candidate and no error"); if (!is_object(res)) return;
    sym_assert(is_string(get(res, "host"), c.address.to_string().unwrap()) && is_number(get(res, "port"), c.port.value()), "address and port");
    sym_assert(is_string(get(res, "type"), std::string(c.type.to_string())) && is_string(get(res, "transport"), std::string(c.transport_type.to_string())), "type and transport");
    sym_assert(is_string(get(res, "foundation"), std::string(c.foundation.to_string())) && is_number(get(res, "component"), c.component.value()), "foundation and component");
    if (c.maybe_related_address.is_some()) sym_assert(is_string(get(res, "raddr"), c.maybe_related_address.unwrap().to_string().unwrap()), "related address"); else sym_assert(absent(get(res, "raddr")), "no related address");
    if (c.maybe_related_port.is_some()) sym_assert(is_number(get(res, "rport"), c.maybe_related_port.unwrap().value()), "related port"); else sym_assert(absent(get(res, "rport")), "no related port");
    auto x = get(res, "extensions");
    sym_assert(x && x->kind == Kind::array && x->props.size() == s.extensions.size(), "every extension"); if (!x) return;
    for (size_t i = 0; i < x->props.size() && i < s.extensions.size(); ++i)
        sym_assert(is_string(get(x->props[i].second, "name"), s.extensions[i].att_name) && is_string(get(x->props[i].second, "value"), s.extensions[i].att_value), "extensions in order");
    sym_cover(c.maybe_related_address.is_some() ? "with related address" : "plain");
}
HARNESS(h_node_candidate) {
    unsigned field = sym_param(0); size_t len = sym_param(1);
    static const char *const F[] = {"f1", "2", "UDP", "2130706431", "10.0.1.2", "8998", "typ", "srflx", "raddr", "1.2.3.4", "rport", "77", "generation", "0", "ufrag", "ab"};
    std::string line = "candidate:";
    size_t n = field == 8 ? 8 : 16;
    for (size_t i = 0; i < n; ++i) { if (i) line += ' '; if (i == field) line += any_string(len, "text"); else line += F[i]; }
    check_candidate(line);
}
// a number of any digits in place of the component, port or related port
HARNESS(h_node_candidate_num) {
    unsigned field = sym_param(0);
    std::string d = any_string(sym_param(1), "digits");
    for (char c : d) sym_assume(c >= '0' && c <= '9');
    std::string f[3] = {"2", "8998", "77"};
    f[field / 5] = d;
    check_candidate("candidate:f1 " + f[0] + " UDP 2130706431 10.0.1.2 " + f[1] + " typ srflx raddr 1.2.3.4 rport " + f[2]);
}
HARNESS(h_node_candidate_many) {
    std::string line = "candidate:f1 2 UDP 2130706431 10.0.1.2 8998 typ host";
    for (size_t i = 0; i < sym_param(0); ++i) line += " x" + std::to_string(i) + " v" + std::to_string(i * 3);
    check_candidate(line);
}
