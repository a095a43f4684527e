// The hash part of libcrypto, for harnesses: the hash is an arbitrary function and each call may fail.
#pragma once
#include "hash_ref.hpp"
#include <openssl/evp.h>
#include <openssl/err.h>
using ref::Bytes; using ref::AnyHash;
namespace crypto = freewebrtc::crypto;
namespace {
struct Lib {
    bool on = false;
    unsigned live = 0, created = 0, freed = 0, failures = 0, calls = 0, fail_mask = 0;
    int state = 0;               // 0 fresh, 1 initialised, 2 finalised
    bool misuse = false;
    const EVP_MD *md = nullptr;
    Bytes in;
    unsigned long err = 0;
    AnyHash<crypto::SHA1Hash> sha1; AnyHash<crypto::MD5Hash> md5;
    bool fails() { bool f = calls < 32 && (fail_mask >> calls & 1); ++calls; if (f) { ++failures; err = 0x03000000u + calls; } return f; }
} lib;
char ctx_cell, md_sha1, md_md5;
}
extern "C" {
EVP_MD_CTX *EVP_MD_CTX_new() { if (lib.fails()) return nullptr; ++lib.created; ++lib.live; lib.state = 0; return (EVP_MD_CTX *)new char(ctx_cell); }
void EVP_MD_CTX_free(EVP_MD_CTX *c) { if (!c) return; ++lib.freed; --lib.live; delete (char *)c; }
const EVP_MD *EVP_sha1() { return (const EVP_MD *)&md_sha1; }
const EVP_MD *EVP_md5() { return (const EVP_MD *)&md_md5; }
int EVP_DigestInit_ex(EVP_MD_CTX *c, const EVP_MD *m, ENGINE *e) { if (!c || e || !m) lib.misuse = true; if (lib.fails()) return 0; lib.state = 1; lib.md = m; lib.in.clear(); return 1; }
int EVP_DigestUpdate(EVP_MD_CTX *c, const void *p, size_t n) {
    if (!c || lib.state != 1) lib.misuse = true;
    if (lib.fails()) return 0;
    lib.in.insert(lib.in.end(), (const uint8_t *)p, (const uint8_t *)p + n);
    return 1;
}
int EVP_DigestFinal_ex(EVP_MD_CTX *c, unsigned char *md, unsigned *n) {
    if (!c || lib.state != 1) lib.misuse = true;
    if (lib.fails()) return 0;
    lib.state = 2;
    Bytes o = lib.md == EVP_sha1() ? lib.sha1.value(lib.in) : lib.md5.value(lib.in);
    for (size_t i = 0; i < o.size(); ++i) md[i] = o[i];
    if (n) *n = o.size();
    return 1;
}
int EVP_DigestInit(EVP_MD_CTX *c, const EVP_MD *m) { return EVP_DigestInit_ex(c, m, nullptr); }
int EVP_DigestFinal(EVP_MD_CTX *c, unsigned char *md, unsigned *n) { return EVP_DigestFinal_ex(c, md, n); }
unsigned long ERR_peek_error() { return lib.err; }
unsigned long ERR_peek_last_error() { return lib.err; }
void ERR_clear_error() { lib.err = 0; }
unsigned long ERR_get_error() { unsigned long e = lib.err; lib.err = 0; return e; }
}
