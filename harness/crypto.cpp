// HMAC (C19) and the OpenSSL hash functions (C20).
// @job C19 quick h_hmac 0..8,19,20,21,32,63..66,80,128,129,255..257,1000 0..2 0..1 | 20,64,100 3..6 0..1 | 20,65 12,33,70 0..1
// @job C19 thorough h_hmac 0..140,255..257,512,1000,70000 0..8 0..1
// @job C19 quick,thorough h_hmac_fault 20,64,65,90
// @job C19 quick,thorough h_password 0,1,20,63..66,100,128,256,1000
// @job C20 quick h_ossl 0..3 0..3 0..2 | 0..3 4..8 0..3 | 0..3 1..4 63,64,100,255,256,1024,65536
// @job C20 quick,thorough h_ossl 0..3 17,33,65 3
// @job C20 thorough h_ossl 0..3 0..16 0..9,20,63..65,255,256,1024,65536
// @job C20 quick,thorough h_ossl_fault 0..3 0..6
// @bound C19: every key of 0..8, 19..21, 32, 63..66, 80, 128, 129, 255..257, 1000 bytes (quick) / 0..140, 255..257, 512, 1000, 70000 bytes (thorough); passwords of up to 1000 bytes; data in up to 8 (also 12, 33, 70) pieces of symbolic contents, the hash an arbitrary function (uninterpreted, 160-bit or 128-bit output); each hash call may fail
// @bound C20: up to 8 (also 17, 33, 65) (quick) / 16 (thorough) views of up to 9 bytes, or up to 4 views of up to 65536 bytes, of any content; every single library call and every combination of library calls failing
// @assume C20: the library records a non-zero reason for each call that fails, as its documentation says
#include "hash_ref.hpp"
#include "crypto/openssl/openssl_hash.hpp"
#include "node/openssl/node_openssl_hash.hpp"
#include "stun/stun_password.hpp"
#include "evp_stub.hpp"
using namespace freewebrtc;
using namespace ref;
using View = util::ConstBinaryView;
using namespace crypto::hmac;

// data in pieces: piece i has (3 i + 2) % 5 bytes (0 for some)
static std::vector<Bytes> pieces(size_t n) { std::vector<Bytes> r; for (size_t i = 0; i < n; ++i) r.push_back(any_bytes((3 * i + 2) % 5, "data")); return r; }
template <typename H> static void check_hmac(size_t klen, size_t np) {
    AnyHash<H> h;
    typename H::Func f = h;
    Bytes key = any_bytes(klen, "key");
    auto data = pieces(np);
    Bytes all; std::vector<View> views;
    for (auto& d : data) { all.insert(all.end(), d.begin(), d.end()); views.push_back(View(d)); }
    auto ip = IPadKey::from_key(View(key), f);
    auto op = OPadKey::from_key(View(key), f);
    sym_assert(ip.is_ok() && op.is_ok(), "pads are made for every key");
    sym_assert(bytes_of(ip.unwrap().view()) == pad_key(h, key, 0x36), "inner pad");
    sym_assert(bytes_of(op.unwrap().view()) == pad_key(h, key, 0x5c), "outer pad");
    auto r = digest(views, op.unwrap(), ip.unwrap(), f);
    sym_assert(r.is_ok(), "a digest is made");
    Bytes want = hmac(h, key, all);
    sym_assert(bytes_of(r.unwrap().value.view()) == want, "the digest is the RFC 2104 HMAC");
    sym_cover(klen > 64 ? "long key" : "short key");
}
HARNESS(h_hmac) { if (sym_param(2)) check_hmac<crypto::MD5Hash>(sym_param(0), sym_param(1)); else check_hmac<crypto::SHA1Hash>(sym_param(0), sym_param(1)); }
HARNESS(h_hmac_fault) {
    size_t klen = sym_param(0);
    AnySha1 h;
    h.log->fail_mask = (unsigned)sym_choice("fail", 16);
    crypto::SHA1Hash::Func f = h;
    Bytes key = any_bytes(klen, "key");
    Bytes d = any_bytes(3, "data");
    auto ip = IPadKey::from_key(View(key), f);
    bool fi = h.log->failed != 0;
    sym_assert(ip.is_err() == fi, "inner pad fails exactly when the hash does");
    auto op = OPadKey::from_key(View(key), f);
    sym_assert(op.is_err() == (h.log->failed > fi), "outer pad fails exactly when the hash does");
    if (ip.is_err() || op.is_err()) { sym_cover("pad failed"); return; }
    unsigned before = h.log->failed;
    auto r = digest({View(d)}, op.unwrap(), ip.unwrap(), f);
    sym_assert(r.is_err() == (h.log->failed > before), "the digest is an error exactly when a hash call failed");
    if (r.is_ok()) { sym_assert(bytes_of(r.unwrap().value.view()) == hmac(h, key, d), "the digest is the RFC 2104 HMAC"); sym_cover("digest"); }
    else { sym_assert(r.unwrap_err().code() == std::make_error_code(std::errc::io_error), "the hash error is passed on"); sym_cover("digest failed"); }
}
HARNESS(h_password) {
    size_t klen = sym_param(0);
    AnySha1 h;
    crypto::SHA1Hash::Func f = h;
    bool fail = sym_bool("fail");
    if (fail) h.log->fail_mask = 3;
    std::string pw = any_string(klen, "password");
    auto p = stun::Password::short_term(precis::OpaqueString{pw}, f);
    if (fail && klen > 64) { sym_assert(p.is_err(), "no password without a hash of a long key"); sym_cover("failed"); return; }
    sym_assert(p.is_ok(), "a password is made");
    Bytes key(pw.begin(), pw.end());
    sym_assert(bytes_of(p.unwrap().ipad().view()) == pad_key(h, key, 0x36) && bytes_of(p.unwrap().opad().view()) == pad_key(h, key, 0x5c), "the short-term key is the password");
    auto q = p.unwrap();
    sym_assert(q == p.unwrap(), "copies are equal");
    sym_cover("made");
}

template <typename H, typename F> static void ossl(F fn, AnyHash<H>& oracle, size_t n, size_t len) {
    std::vector<Bytes> parts; std::vector<View> views; Bytes all;
    for (size_t i = 0; i < n; ++i) parts.push_back(any_bytes((len + i) % (len + 2), "in"));
    for (auto& p : parts) { views.push_back(View(p)); all.insert(all.end(), p.begin(), p.end()); }
    auto r = fn(views);
    sym_assert(!lib.misuse, "the library is used in the documented order");
    sym_assert(lib.live == 0 && lib.created == lib.freed, "the context is released exactly once");
    if (lib.failures) {
        sym_assert(r.is_err(), "a failing library call gives an error");
        if (r.is_err()) sym_assert((bool)r.unwrap_err().code(), "the error carries a failure code");
        sym_cover("failed");
    } else {
        sym_assert(r.is_ok() && bytes_of(r.unwrap().value()) == oracle.value(all), "the digest is that of the concatenation");
        sym_cover("digest");
    }
}
// param 0: bit 0 = MD5, bit 1 = the copy used with Node.js
static void ossl_any(size_t kind, size_t n, size_t len) {
    using namespace crypto;
    if (kind == 0) ossl<SHA1Hash>(openssl::sha1, lib.sha1, n, len);
    else if (kind == 1) ossl<MD5Hash>(openssl::md5, lib.md5, n, len);
    else if (kind == 2) ossl<SHA1Hash>(node_openssl::sha1, lib.sha1, n, len);
    else ossl<MD5Hash>(node_openssl::md5, lib.md5, n, len);
}
HARNESS(h_ossl) { lib = Lib(); ossl_any(sym_param(0), sym_param(1), sym_param(2)); }
HARNESS(h_ossl_fault) {
    lib = Lib();
    size_t n = sym_param(1);
    lib.fail_mask = (unsigned)sym_choice("fail", 1u << (n + 3));
    ossl_any(sym_param(0), n, 2);
}
