// Hashing (C38).
// @job C38 quick h_murmur 0..33 0..1 | 34..72,127,128,255..257,264 0 | 7..17 2..7
// @job C38 thorough h_murmur 0..100,127,128,255..258,511,512,1000 0..7
// @job C38 quick,thorough h_address_hash 0..1
// @job C38 quick,thorough h_path_hash 0..3
// @job C38 quick,thorough h_tid_hash 12,16
// @job C38 quick,thorough h_handle_hash
// @job C38 quick h_opaque_hash 0..4
// @job C38 thorough h_opaque_hash 0..40
// @job C38 quick,thorough h_dynamic
// @job C38 quick,thorough h_std_hashes
// @job C38 quick h_murmur_views 0..9/3 0..9/4
// @job C38 thorough h_murmur_views 0..20 0..9
// @bound byte strings of 0..72, 127, 128, 255..257, 264 (quick) / 0..100 and selected lengths up to 1000 (thorough) bytes at buffer offsets 0..7, every content and 64-bit seed; strings of 0..4 / 0..40 characters
// @assume the standard library's own byte hash (std::hash<std::string>) is modelled as a function of the length only
#include "sym.hpp"
#include <memory>
#include "util/util_hash_murmur.hpp"
#include "util/util_hash_dynamic.hpp"
#include "net/net_path_hash.hpp"
#include "net/ip/ip_address_hash.hpp"
#include "stun/stun_transaction_id_hash.hpp"
#include "stun/stun_client_udp_handle.hpp"
#include "precis/precis_opaque_string_hash.hpp"
#include "stun/stun_attribute_type.hpp"
#include "rtp/rtp_payload_type.hpp"
using namespace freewebrtc;
using View = util::ConstBinaryView;
// MurmurHash64A, after A. Appleby's published text, little-endian words
static uint64_t ref64(const uint8_t *p, size_t len, uint64_t seed) {
    const uint64_t m = 0xc6a4a7935bd1e995ull; const int r = 47;
    uint64_t h = seed ^ (len * m);
    size_t i = 0;
    for (; i + 8 <= len; i += 8) {
        uint64_t k = 0;
        for (int b = 0; b < 8; ++b) k |= (uint64_t)p[i + b] << (8 * b);
        k *= m; k ^= k >> r; k *= m;
        h ^= k; h *= m;
    }
    if (i < len) {
        for (size_t b = len - i; b-- > 0;) h ^= (uint64_t)p[i + b] << (8 * b);
        h *= m;
    }
    h ^= h >> r; h *= m; h ^= h >> r;
    return h;
}
HARNESS(h_murmur) {
    size_t n = sym_param(0), off = sym_param(1);
    std::unique_ptr<uint8_t[]> b(new uint8_t[n + off]);
    sym_bytes(b.get(), n + off, "b");
    uint64_t seed = sym_u64("seed");
    uint64_t h = util::hash::murmur(View(b.get() + off, n), seed);
    sym_assert(h == ref64(b.get() + off, n, seed), "the hash is MurmurHash64A");
    sym_cover("murmur"); sym_observe(h);
}
HARNESS(h_murmur_views) {
    size_t n = sym_param(0), m = sym_param(1);
    std::unique_ptr<uint8_t[]> a(new uint8_t[n]), b(new uint8_t[m]), c(new uint8_t[n]), d(new uint8_t[m]);
    sym_bytes(a.get(), n, "a"); sym_bytes(b.get(), m, "b");
    for (size_t i = 0; i < n; ++i) c[i] = a[i];
    for (size_t i = 0; i < m; ++i) d[i] = b[i];
    uint64_t seed = sym_u64("seed");
    std::array<View, 2> x{View(a.get(), n), View(b.get(), m)}, y{View(c.get(), n), View(d.get(), m)};
    sym_assert(util::hash::murmur<2>(x, seed) == util::hash::murmur<2>(y, seed), "equal sequences of views hash equally");
    sym_cover("views");
}
static net::ip::Address addr(bool v6, const uint8_t *p) {
    if (v6) { std::array<uint8_t, 16> a; for (int i = 0; i < 16; ++i) a[i] = p[i]; return net::ip::AddressV6(std::move(a)); }
    std::array<uint8_t, 4> a; for (int i = 0; i < 4; ++i) a[i] = p[i]; return net::ip::AddressV4(std::move(a));
}
// equality decides: values compare equal, then the hashes must be equal. The two
// values are built separately from bytes that are assumed equal only through ==.
HARNESS(h_address_hash) {
    bool v6 = sym_param(0);
    uint8_t a[16], b[16]; sym_bytes(a, 16, "a"); sym_bytes(b, 16, "b");
    auto x = addr(v6, a);
    net::ip::AddressHash h;
    if (sym_bool("same")) {
        auto y = addr(v6, a);
        sym_assert(x == y, "addresses with equal bytes are equal");
        sym_assert(h(x) == h(y), "equal addresses hash equally");
        auto z = x; sym_assert(h(z) == h(x), "a copy hashes equally"); sym_cover("same");
        net::ip::AddressHash h2; sym_assert(h2(x) == h(x) && h(x) == h(x), "hashing has no state");
    } else {
        auto y = addr(v6, b);
        size_t n = v6 ? 16 : 4;
        sym_assert((x == y) == sym_eq_bytes(a, b, n), "addresses compare by bytes");
        auto w = addr(!v6, b);
        sym_assert(!(x == w), "addresses of different families differ"); sym_cover("other");
    }
}
HARNESS(h_path_hash) {
    bool s6 = sym_param(0) & 1, t6 = sym_param(0) & 2;
    uint8_t a[16], b[16]; sym_bytes(a, 16, "a"); sym_bytes(b, 16, "b");
    net::Path p{addr(s6, a), addr(t6, b)}, q{addr(s6, a), addr(t6, b)};
    net::PathHash h, h2;
    sym_assert(p == q && h(p) == h2(q), "equal paths hash equally");
    sym_assert(h(p) == h(q), "hashing has no state");
    uint8_t c[16]; sym_bytes(c, 16, "c");
    net::Path r{addr(s6, a), addr(t6, c)}; net::Path u{addr(s6, c), addr(t6, b)};
    sym_assert((p == r) == sym_eq_bytes(b, c, t6 ? 16 : 4), "paths compare by target");
    sym_assert((p == u) == sym_eq_bytes(a, c, s6 ? 16 : 4), "paths compare by source");
    sym_cover("path");
}
static unsigned seeds;
struct Seeded { size_t operator()() { ++seeds; return sym_u64("seed"); } };
static size_t known_seed;
struct Known { size_t operator()() { return known_seed; } };
HARNESS(h_tid_hash) {
    size_t n = sym_param(0);
    std::unique_ptr<uint8_t[]> a(new uint8_t[n]), b(new uint8_t[n]);
    sym_bytes(a.get(), n, "a");
    for (size_t i = 0; i < n; ++i) b[i] = a[i];
    stun::TransactionId x{View(a.get(), n)}, y{View(b.get(), n)};
    sym_assert(x == y, "ids with equal bytes are equal");
    auto h = stun::MurmurTransactionIdHash<>::create();
    sym_assert(h(x) == h(y), "equal ids hash equally");
    auto h2 = stun::MurmurTransactionIdHash<>::create();
    sym_assert(h2(x) == h(y), "the same algorithm gives the same hash");
    sym_assert(h(x) == ref64(a.get(), n, 0), "the hash is MurmurHash64A of the id with the seed");
    auto g = stun::MurmurTransactionIdHash<Seeded>::create(); auto g2 = g;
    sym_assert(g(x) == g2(y), "equal ids hash equally under a random seed");
    known_seed = (size_t)sym_u64("known");
    auto k = stun::MurmurTransactionIdHash<Known>::create();
    size_t was = k(x), wanted = ref64(a.get(), n, known_seed);
    sym_assert(was == wanted, "the hash is MurmurHash64A of the id with the random seed");
    sym_thread([&] {
        auto t = stun::MurmurTransactionIdHash<Seeded>::create(); auto o = stun::MurmurTransactionIdHash<>::create();
        sym_assert(t(y) == g(x) && g(y) == g(x) && o(y) == h(x), "equal ids hash equally in every thread");
    });
    auto g3 = stun::MurmurTransactionIdHash<Seeded>::create();
    sym_assert(g3(x) == g(x), "equal ids hash equally under a hash made later");
    sym_cover("tid");
}
HARNESS(h_handle_hash) {
    stun::client_udp::Handle a{sym_u32("a")}, b{sym_u32("b")};
    stun::client_udp::HandleHash h;
    sym_assert((a == b) == (a.value == b.value), "handles compare by value");
    sym_assert(!(a == b) || h(a) == h(b), "equal handles hash equally");
    sym_cover("handle");
}
// the other hashes the library gives its hash tables
HARNESS(h_std_hashes) {
    uint16_t v = sym_u16("v"), w = sym_u16("w");
    auto a = stun::AttributeType::from_uint16(v), b = stun::AttributeType::from_uint16(w);
    std::hash<stun::AttributeType> h, h2;
    sym_assert((a == b) == (v == w), "attribute types compare by value");
    sym_assert(!(a == b) || h(a) == h2(b), "equal attribute types hash equally");
    uint8_t p = sym_u8("p"), q = sym_u8("q");
    auto x = rtp::PayloadType::from_uint8(p), y = rtp::PayloadType::from_uint8(q);
    if (x.is_some() && y.is_some()) {
        std::hash<rtp::PayloadType> g, g2;
        sym_assert(!(x.unwrap() == y.unwrap()) || g(x.unwrap()) == g2(y.unwrap()), "equal payload types hash equally");
        sym_cover("payload types");
    }
    sym_cover("types");
}
HARNESS(h_opaque_hash) {
    size_t n = sym_param(0);
    std::unique_ptr<char[]> a(new char[n]);
    sym_bytes(a.get(), n, "a");
    precis::OpaqueString x{std::string(a.get(), n)}, y{std::string(a.get(), n)};
    precis::OpaqueStringHash h;
    sym_assert(x == y && h(x) == h(y), "equal strings hash equally");
    sym_cover("opaque");
}
using Algo = util::hash::dynamic::Algorithm<int>;
struct A1 : Algo { size_t hash(const int& v) const noexcept override { return (size_t)v * 3 + 1; } };
struct A2 : Algo { size_t hash(const int& v) const noexcept override { return (size_t)v ^ 0x55; } };
HARNESS(h_dynamic) {
    using H = util::hash::dynamic::Hash<int>;
    using S1 = util::hash::dynamic::AlgorithmSingleton<int, A1>;
    using S2 = util::hash::dynamic::AlgorithmSingleton<int, A2>;
    int v = (int)sym_u32("v");
    auto h1 = H::create<S1>(), h2 = H::create<S2>();
    sym_assert(h1(v) == (size_t)v * 3 + 1, "the chosen algorithm is applied");
    sym_assert(h2(v) == ((size_t)v ^ 0x55), "the other algorithm is applied");
    auto h3 = h1; auto h4 = std::move(h2);
    sym_assert(h3(v) == (size_t)v * 3 + 1 && h4(v) == ((size_t)v ^ 0x55), "a copied or moved hash applies the same algorithm");
    sym_assert(H::create<S1>()(v) == h1(v), "an algorithm created again is the same");
    sym_thread([&] { auto o = H::create<S1>(); sym_assert(o(v) == h1(v) && h1(v) == (size_t)v * 3 + 1, "the same in every thread"); });
    sym_cover("dynamic");
}
