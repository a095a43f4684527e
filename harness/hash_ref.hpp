// A hash about which nothing is known but that it is a function: every call
// with new bytes gives fresh symbolic output, every call with bytes seen before
// gives the output of that call. Calls may be made to fail.
#pragma once
#include "sym.hpp"
#include <array>
#include <memory>
#include <string>
#include <vector>
#include "crypto/crypto_hash.hpp"
#include "crypto/crypto_hmac.hpp"
#include "util/util_binary_view.hpp"
#include <system_error>
namespace ref {
using namespace freewebrtc;
using Bytes = std::vector<uint8_t>;
inline bool same(const Bytes& a, const Bytes& b) { return a.size() == b.size() && sym_eq_bytes(a.data(), b.data(), a.size()); }
inline Bytes cat(std::initializer_list<Bytes> l) { Bytes r; for (auto& x : l) r.insert(r.end(), x.begin(), x.end()); return r; }
template <typename Hash> class AnyHash {
public:
    struct Call { Bytes in; Bytes out; };
    struct Log { std::vector<Call> calls; unsigned made = 0, failed = 0; unsigned fail_mask = 0; bool no_collision = false; };
    std::shared_ptr<Log> log = std::make_shared<Log>();
    // the function itself, used by the oracle
    Bytes value(const Bytes& in) const {
        for (auto& c : log->calls) if (c.in == in) return c.out;
        Bytes out(Hash::size);
        sym_bytes(out.data(), out.size(), "hash");
        if (log->no_collision) for (auto& c : log->calls) sym_assume(!sym_eq_bytes(c.out.data(), out.data(), out.size()));
        log->calls.push_back({in, out});
        return out;
    }
    typename Hash::Result operator()(const typename Hash::Input& views) const {
        unsigned k = log->made++;
        Bytes in;
        for (auto& v : views) in.insert(in.end(), v.begin(), v.end());
        if (k < 32 && (log->fail_mask >> k & 1)) { ++log->failed; return std::make_error_code(std::errc::io_error); }
        Bytes o = value(in);
        typename Hash::Value v;
        std::copy(o.begin(), o.end(), v.begin());
        return Hash::move_from(std::move(v));
    }
};
using AnySha1 = AnyHash<crypto::SHA1Hash>;
// RFC 2104 over H
template <typename A> Bytes pad_key(const A& h, const Bytes& key, uint8_t x) {
    Bytes k = key.size() > 64 ? h.value(key) : key;
    k.resize(64, 0);
    for (auto& b : k) b ^= x;
    return k;
}
template <typename A> Bytes hmac(const A& h, const Bytes& key, const Bytes& data) {
    return h.value(cat({pad_key(h, key, 0x5c), h.value(cat({pad_key(h, key, 0x36), data}))}));
}
inline Bytes bytes_of(const util::ConstBinaryView& v) { return Bytes(v.begin(), v.end()); }
template <size_t N> Bytes bytes_of(const std::array<uint8_t, N>& v) { return Bytes(v.begin(), v.end()); }
inline Bytes any_bytes(size_t n, const char *name) { Bytes b(n); sym_bytes(b.data(), n, name); return b; }
inline std::string any_string(size_t n, const char *name) { std::string s(n, '\0'); sym_bytes(s.data(), n, name); return s; }
}
