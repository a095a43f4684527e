// Small value wrappers (C45), transaction ids (C42).
// @job C45 quick,thorough h_tagged
// @job C45 quick,thorough h_tagged_string 0..3 0..3
// @job C45 quick,thorough h_typed_bool
// @job C45 quick,thorough h_counter
// @job C45 quick,thorough h_port_endpoint 0..1
// @job C45 quick h_password 0..4 0..4
// @job C45 thorough h_password 0..64/4 0..64/4
// @job C45 quick,thorough h_overloaded 0..2
// @job C45 quick,thorough h_digest 0..70
// @job C42 quick,thorough h_tid_generate 12,16
// @job C42 quick,thorough h_tid_value 12,16 12,16
// @bound C45: every value of the wrapped integers, strings of 0..3 characters, passwords of 0..4 (quick) / 0..64 (thorough) bytes, digests of the three sizes from views of up to 70 bytes; C42: every output of the random source, every id
#include "sym.hpp"
#include <memory>
#include <string>
#include <variant>
#include "util/util_tagged_type.hpp"
#include "util/util_typed_bool.hpp"
#include "util/util_variant_overloaded.hpp"
#include "stat/stat_counter.hpp"
#include "net/net_endpoint.hpp"
#include "precis/precis_opaque_string.hpp"
#include "stun/stun_password.hpp"
#include "crypto/crypto_hash.hpp"
#include "stun/stun_transaction_id.hpp"
#include "stun/stun_transaction_id_hash.hpp"
using namespace freewebrtc;
using View = util::ConstBinaryView;
struct T1; struct T2;
template <typename H>
static void digest_of(size_t n, const uint8_t *b) {
    auto h = H::from_view(View(b, n));
    sym_assert(h.is_some() == (n == H::size), "a digest exactly from a view of its size");
    if (h.is_none()) return;
    H d = h.unwrap();
    sym_assert(d.view().size() == n && sym_eq_bytes(d.view().data(), b, n) && sym_eq_bytes(d.value().data(), b, n), "the digest keeps its bytes");
    typename H::Value o; sym_bytes(o.data(), n, "other");
    bool same = sym_eq_bytes(o.data(), b, n);
    H e = H::move_from(typename H::Value(o)), f(typename H::Value{o});
    sym_assert((d == e) == same && (f == d) == same, "digests are equal exactly when their bytes are");
    sym_assert(e == f && sym_eq_bytes(e.view().data(), o.data(), n), "two ways to make a digest");
    H c(e); e = d; sym_assert(c == f && e == d, "copied and assigned");
    sym_cover(same ? "equal" : "different");
}
HARNESS(h_digest) {
    size_t n = sym_param(0); std::unique_ptr<uint8_t[]> b(new uint8_t[n]); sym_bytes(b.get(), n, "bytes");
    digest_of<crypto::MD5Hash>(n, b.get()); digest_of<crypto::SHA1Hash>(n, b.get()); digest_of<crypto::SHA256Hash>(n, b.get());
    sym_cover("viewed");
}
HARNESS(h_tagged) {
    using I = util::TaggedType<uint32_t, T1>;
    uint32_t a = sym_u32("a"), b = sym_u32("b");
    I x{a}, y{b};
    sym_assert(x.value == a, "tagged value returns what was stored");
    sym_assert((x == y) == (a == b) && (x != y) == (a != b), "tagged values compare by content");
    I c = x; sym_assert(c == x && c.value == a, "copy");
    I m = std::move(c); sym_assert(m.value == a, "move");
    y = x; sym_assert(y.value == a && x.value == a, "assignment");
    sym_assert(I::copy_from(a).value == a && I::move_from(uint32_t(a)).value == a, "factories");
    sym_cover("tagged");
}
HARNESS(h_tagged_string) {
    size_t n = sym_param(0), m = sym_param(1);
    char p[4], q[4]; sym_bytes(p, n, "p"); sym_bytes(q, m, "q");
    std::string s(p, n), t(q, m);
    precis::OpaqueString a{s}, b{std::string(t)};
    bool same = n == m && sym_eq_bytes(p, q, n < m ? n : m);
    sym_assert(a.value == s && b.value == t, "opaque string keeps its text");
    sym_assert((a == b) == same, "opaque strings compare by content");
    auto c = a; sym_assert(c == a, "copy is equal");
    auto d = std::move(c); sym_assert(d.value == s, "moved value is unchanged");
    b = a; sym_assert(b.value == s && a.value == s, "assignment copies");
    auto e = precis::OpaqueString::move_from(std::string(s)); sym_assert(e == a && precis::OpaqueString::copy_from(s) == a, "factories keep the text");
    sym_cover("opaque");
}
HARNESS(h_typed_bool) {
    using B = util::TypedBool<T1>;
    bool v = sym_bool("v"), w = sym_bool("w");
    B a(v), b(w);
    sym_assert((bool)a == v && (bool)b == w, "typed boolean keeps its value");
    B c = a; sym_assert((bool)c == v, "copy"); b = a; sym_assert((bool)b == v, "assignment");
    sym_assert((a ? 1 : 2) == (v ? 1 : 2) && !a == !v, "usable as a condition");
    sym_cover("bool");
}
HARNESS(h_counter) {
    stat::Counter c;
    sym_assert(c.count() == 0, "a counter starts at zero");
    stat::Counter d;
    uint64_t start = sym_u64("start");
    if (sizeof c <= sizeof start) std::memcpy((void *)&c, &start, sizeof c);   // any reachable count
    uint32_t before = c.count();
    c.inc();
    sym_assert(c.count() == before + 1u, "an increment adds exactly one");
    stat::Counter e = c; e.inc(); c.inc(); c.inc();
    sym_assert(e.count() == before + 2u && c.count() == before + 3u, "copies count separately");
    sym_assert(d.count() == 0, "other counters are untouched");
    sym_cover("counter");
}
HARNESS(h_port_endpoint) {
    bool v6 = sym_param(0);
    uint16_t p = sym_u16("p"), q = sym_u16("q");
    net::Port a(p), b = net::Port::from_uint16(q);
    sym_assert(a.value() == p && b.value() == q, "port keeps its value");
    sym_assert((a == b) == (p == q), "ports compare by value");
    uint8_t by[16]; sym_bytes(by, 16, "addr");
    auto mk = [&]() -> net::ip::Address { if (v6) { std::array<uint8_t, 16> x; for (int i = 0; i < 16; ++i) x[i] = by[i]; return net::ip::AddressV6(std::move(x)); } std::array<uint8_t, 4> x; for (int i = 0; i < 4; ++i) x[i] = by[i]; return net::ip::AddressV4(std::move(x)); };
    net::UdpEndpoint u{mk(), a}; net::TcpEndpoint t{mk(), b};
    net::Endpoint e1(u), e2(t), e3{net::UdpEndpoint{mk(), b}}, e4{net::TcpEndpoint{mk(), a}};
    sym_assert(e1.is_udp() && !e2.is_udp() && e3.is_udp() && !e4.is_udp(), "an endpoint knows its transport");
    sym_assert(e1.port() == a && e2.port() == b && e3.port() == b && e4.port() == a, "an endpoint returns its port");
    sym_assert(e1.address() == mk() && e2.address() == mk() && e3.address() == mk() && e4.address() == mk(), "an endpoint returns its address");
    auto c = e1; sym_assert(c.is_udp() && c.port() == a && c.address() == mk(), "an endpoint copy is unchanged");
    c = e2; sym_assert(!c.is_udp() && c.port() == b, "assignment replaces the endpoint");
    auto m = std::move(c); sym_assert(!m.is_udp() && m.port() == b && m.address() == mk(), "a moved endpoint is unchanged");
    sym_assert(sym_eq_bytes(e1.address().view().data(), by, v6 ? 16 : 4) && e1.address().view().size() == (v6 ? 16u : 4u), "address bytes");
    sym_cover("endpoint");
}
HARNESS(h_password) {
    size_t n = sym_param(0), m = sym_param(1);
    std::unique_ptr<char[]> p(new char[n]), q(new char[m]);
    sym_bytes(p.get(), n, "p"); sym_bytes(q.get(), m, "q");
    crypto::SHA1Hash::Func none = [](auto&&) -> Result<crypto::SHA1Hash> { sym_assert(false, "a key of at most one block is not hashed"); return crypto::SHA1Hash{typename crypto::SHA1Hash::Value{}}; };
    auto a = stun::Password::short_term(precis::OpaqueString{std::string(p.get(), n)}, none);
    auto b = stun::Password::short_term(precis::OpaqueString{std::string(q.get(), m)}, none);
    sym_assert(a.is_ok() && b.is_ok(), "a password is accepted");
    bool same = true;   // HMAC pads keys with zeros
    for (size_t i = 0; i < (n > m ? n : m); ++i) same &= (i < n ? p[i] : 0) == (i < m ? q[i] : 0);
    sym_assert((a.unwrap() == b.unwrap()) == same, "passwords compare by the key they stand for");
    auto c = a.unwrap(); sym_assert(c == a.unwrap(), "copy is equal");
    auto d = std::move(c); sym_assert(d == a.unwrap(), "moved password is unchanged");
    d = b.unwrap(); sym_assert(d == b.unwrap(), "assignment");
    sym_cover("password");
}
HARNESS(h_overloaded) {
    std::variant<uint8_t, uint16_t, uint32_t> v;
    uint32_t x = sym_u32("x");
    switch (sym_param(0)) { case 0: v = (uint8_t)x; break; case 1: v = (uint16_t)x; break; default: v = x; }
    auto r = std::visit(util::overloaded{[](uint8_t a) { return std::make_pair(0, (uint32_t)a); }, [](uint16_t a) { return std::make_pair(1, (uint32_t)a); }, [](uint32_t a) { return std::make_pair(2, a); }}, v);
    sym_assert(r.first == sym_param(0), "the overload of the held type is called");
    sym_assert(r.second == (sym_param(0) == 0 ? (uint8_t)x : sym_param(0) == 1 ? (uint16_t)x : x), "with the held value");
    sym_cover("visit");
}

static const char *dn[16] = {"d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10", "d11", "d12", "d13", "d14", "d15"};
static const char *en[16] = {"e0", "e1", "e2", "e3", "e4", "e5", "e6", "e7", "e8", "e9", "e10", "e11", "e12", "e13", "e14", "e15"};
struct Gen {
    using result_type = uint32_t;
    static constexpr uint32_t min() { return 0; }
    static constexpr uint32_t max() { return UINT32_MAX; }
    const char **names; uint32_t v[16]; unsigned n = 0;
    explicit Gen(const char **names) : names(names) {}
    uint32_t operator()() { sym_assert(n < 16, "a bounded number of draws"); uint32_t x = sym_u32(names[n]); v[n++] = x; return x; }
};
HARNESS(h_tid_generate) {
    size_t n = sym_param(0);
    Gen g(dn), k(en);
    auto a = n == 12 ? stun::TransactionId::generate(g) : stun::TransactionId::generate_rfc3489(g);
    auto b = n == 12 ? stun::TransactionId::generate(k) : stun::TransactionId::generate_rfc3489(k);
    sym_assert(a.view().size() == n, "id size");
    sym_assert(g.n == k.n && g.n * 4 >= n, "enough random bits are drawn");
    bool sameDraws = true, sameBytes = sym_eq_bytes(a.view().data(), b.view().data(), n);
    for (unsigned i = 0; i < g.n; ++i) sameDraws &= g.v[i] == k.v[i];
    if (g.n * 4 == n) sym_assert(sameBytes == sameDraws, "different random outputs give different ids, so every bit is random");
    else sym_assert(!sameDraws || sameBytes, "the id is a function of the random output");
    sym_assert((a == b) == sameBytes, "ids compare by bytes");
    sym_cover("generate");
}
HARNESS(h_tid_value) {
    size_t n = sym_param(0), m = sym_param(1);
    std::unique_ptr<uint8_t[]> p(new uint8_t[n]), q(new uint8_t[m]);
    sym_bytes(p.get(), n, "p"); sym_bytes(q.get(), m, "q");
    stun::TransactionId a{View(p.get(), n)}, b{View(q.get(), m)};
    sym_assert(a.view().size() == n && sym_eq_bytes(a.view().data(), p.get(), n), "an id keeps all its bytes");
    bool same = n == m && sym_eq_bytes(p.get(), q.get(), n < m ? n : m);
    sym_assert((a == b) == same && (a != b) == !same, "ids compare by content");
    auto c = a; sym_assert(c == a, "copy is equal");
    auto d = std::move(c); sym_assert(d == a, "moved id is unchanged");
    b = a; sym_assert(b == a && b.view().size() == n, "assignment");
    sym_assert(b.view().data() != a.view().data(), "ids own their bytes");
    auto h = stun::MurmurTransactionIdHash<>::create();
    sym_assert(h(d) == h(a), "ids hash by content");
    sym_cover("tid");
}
