// Models of the C/C++ runtime functions that have no body in headers. Linked
// into the symbolic bitcode only; native replays use the real libraries.
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <string>
#include <system_error>
#include <unordered_map>
#include <arpa/inet.h>
#include <cerrno>

extern "C" {
static int g_errno;
int *__errno_location() noexcept { return &g_errno; }
size_t strlen(const char *s) noexcept { size_t n = 0; while (s[n]) ++n; return n; }
int strcmp(const char *a, const char *b) noexcept { while (*a && *a == *b) { ++a; ++b; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) noexcept { while (n && *a && *a == *b) { ++a; ++b; --n; } return n ? (unsigned char)*a - (unsigned char)*b : 0; }
int tolower(int c) noexcept { return (unsigned)c - 'A' < 26u ? c + 32 : c; }
int toupper(int c) noexcept { return (unsigned)c - 'a' < 26u ? c - 32 : c; }
int isdigit(int c) noexcept { return (unsigned)c - '0' < 10u; }
int isalpha(int c) noexcept { return ((unsigned)c | 32) - 'a' < 26u; }
int isalnum(int c) noexcept { return isdigit(c) || isalpha(c); }
int isspace(int c) noexcept { return c == ' ' || (unsigned)c - '\t' < 5u; }
int isupper(int c) noexcept { return (unsigned)c - 'A' < 26u; }
int islower(int c) noexcept { return (unsigned)c - 'a' < 26u; }
int isxdigit(int c) noexcept { return isdigit(c) || ((unsigned)c | 32) - 'a' < 6u; }
int ispunct(int c) noexcept { return c > 32 && c < 127 && !isalnum(c); }
int isprint(int c) noexcept { return c >= 32 && c < 127; }
static unsigned long long conv(const char *s, char **end, int base, bool sgn, unsigned long long lim, bool *neg_out, bool *ovf) {
    const char *p = s;
    while (isspace((unsigned char)*p)) ++p;
    bool neg = false;
    if (*p == '+' || *p == '-') { neg = *p == '-'; ++p; }
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { p += 2; base = 16; }
    else if (base == 0) base = *p == '0' ? 8 : 10;
    unsigned long long v = 0; bool any = false, of = false;
    for (;; ++p) {
        unsigned char c = *p; int d;
        if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'z') d = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10; else break;
        if (d >= base) break;
        any = true;
        if (v > (~0ull - d) / base) of = true; else v = v * base + d;
    }
    if (end) *end = const_cast<char *>(any ? p : s);
    *neg_out = neg; *ovf = of;
    return v;
}
long __isoc23_strtol(const char *s, char **e, int b) noexcept {
    bool n, o; unsigned long long v = conv(s, e, b, true, 0, &n, &o);
    if (o || v > (n ? 0x8000000000000000ull : 0x7fffffffffffffffull)) { g_errno = ERANGE; return n ? INT64_MIN : INT64_MAX; }
    return n ? (long)(0 - v) : (long)v;
}
unsigned long __isoc23_strtoul(const char *s, char **e, int b) noexcept {
    bool n, o; unsigned long long v = conv(s, e, b, false, 0, &n, &o);
    if (o) { g_errno = ERANGE; return ~0ul; }
    return n ? 0 - v : v;
}
long long __isoc23_strtoll(const char *s, char **e, int b) noexcept { return __isoc23_strtol(s, e, b); }
unsigned long long __isoc23_strtoull(const char *s, char **e, int b) noexcept { return __isoc23_strtoul(s, e, b); }
long strtol(const char *s, char **e, int b) noexcept;
}
extern "C" const void *rt_memchr(const void *p, int c, size_t n) asm("memchr");
extern "C" const void *rt_memchr(const void *p, int c, size_t n) { const unsigned char *q = (const unsigned char *)p; for (size_t i = 0; i < n; ++i) if (q[i] == (unsigned char)c) return q + i; return nullptr; }

// ---- inet_pton / inet_ntop: ports of the C library's algorithms
static int pton4(const char *src, const char *end, unsigned char *dst) {
    int saw = 0, octets = 0; unsigned char tmp[4]; unsigned char *tp = tmp; *tp = 0;
    while (src < end) {
        int ch = (unsigned char)*src++;
        if (ch >= '0' && ch <= '9') {
            unsigned nv = *tp * 10u + (ch - '0');
            if (saw && *tp == 0) return 0;
            if (nv > 255) return 0;
            *tp = (unsigned char)nv;
            if (!saw) { if (++octets > 4) return 0; saw = 1; }
        } else if (ch == '.' && saw) { if (octets == 4) return 0; *++tp = 0; saw = 0; }
        else return 0;
    }
    if (octets < 4) return 0;
    for (int i = 0; i < 4; ++i) dst[i] = tmp[i];
    return 1;
}
static int hexd(int ch) { if (ch >= '0' && ch <= '9') return ch - '0'; if (ch >= 'a' && ch <= 'f') return ch - 'a' + 10; if (ch >= 'A' && ch <= 'F') return ch - 'A' + 10; return -1; }
static int pton6(const char *src, const char *send, unsigned char *dst) {
    unsigned char tmp[16]; unsigned char *tp = tmp, *endp = tmp + 16, *colonp = nullptr;
    for (auto &b : tmp) b = 0;
    if (src == send) return 0;
    if (*src == ':') { ++src; if (src == send || *src != ':') return 0; }
    const char *curtok = src; size_t xd = 0; unsigned val = 0;
    while (src < send) {
        int ch = (unsigned char)*src++;
        int d = hexd(ch);
        if (d >= 0) { if (xd == 4) return 0; val = (val << 4) | d; if (val > 0xffff) return 0; ++xd; continue; }
        if (ch == ':') {
            curtok = src;
            if (xd == 0) { if (colonp) return 0; colonp = tp; continue; }
            else if (src == send) return 0;
            if (tp + 2 > endp) return 0;
            *tp++ = val >> 8; *tp++ = val; xd = 0; val = 0; continue;
        }
        if (ch == '.' && tp + 4 <= endp && pton4(curtok, send, tp) > 0) { tp += 4; xd = 0; break; }
        return 0;
    }
    if (xd > 0) { if (tp + 2 > endp) return 0; *tp++ = val >> 8; *tp++ = val; }
    if (colonp) {
        if (tp == endp) return 0;
        size_t n = tp - colonp;
        for (size_t i = 1; i <= n; ++i) { endp[-(long)i] = colonp[n - i]; colonp[n - i] = 0; }
        tp = endp;
    }
    if (tp != endp) return 0;
    for (int i = 0; i < 16; ++i) dst[i] = tmp[i];
    return 1;
}
extern "C" int inet_pton(int af, const char *src, void *dst) noexcept {
    if (af == AF_INET) return pton4(src, src + strlen(src), (unsigned char *)dst);
    if (af == AF_INET6) return pton6(src, src + strlen(src), (unsigned char *)dst);
    g_errno = EAFNOSUPPORT; return -1;
}
static char *putDec(char *p, unsigned v) { if (v >= 100) { *p++ = '0' + v / 100; v %= 100; *p++ = '0' + v / 10; *p++ = '0' + v % 10; } else { if (v >= 10) *p++ = '0' + v / 10; *p++ = '0' + v % 10; } return p; }
extern "C" const char *inet_ntop(int af, const void *src, char *dst, socklen_t size) noexcept {
    char tmp[48]; char *tp = tmp;
    const unsigned char *s = (const unsigned char *)src;
    if (af == AF_INET) { for (int i = 0; i < 4; ++i) { if (i) *tp++ = '.'; tp = putDec(tp, s[i]); } }
    else if (af == AF_INET6) {
        unsigned words[8]; for (int i = 0; i < 8; ++i) words[i] = (s[2 * i] << 8) | s[2 * i + 1];
        int bb = -1, bl = 0, cb = -1, cl = 0;
        for (int i = 0; i < 8; ++i) {
            if (words[i] == 0) { if (cb == -1) { cb = i; cl = 1; } else cl++; }
            else if (cb != -1) { if (bb == -1 || cl > bl) { bb = cb; bl = cl; } cb = -1; }
        }
        if (cb != -1) { if (bb == -1 || cl > bl) { bb = cb; bl = cl; } }
        if (bb != -1 && bl < 2) bb = -1;
        for (int i = 0; i < 8; ++i) {
            if (bb != -1 && i >= bb && i < bb + bl) { if (i == bb) *tp++ = ':'; continue; }
            if (i) *tp++ = ':';
            if (i == 6 && bb == 0 && (bl == 6 || (bl == 5 && words[5] == 0xffff))) { for (int k = 0; k < 4; ++k) { if (k) *tp++ = '.'; tp = putDec(tp, s[12 + k]); } break; }
            unsigned w = words[i]; bool st = false;
            for (int sh = 12; sh >= 0; sh -= 4) { unsigned d = (w >> sh) & 15; if (d || st || sh == 0) { *tp++ = "0123456789abcdef"[d]; st = true; } }
        }
        if (bb != -1 && bb + bl == 8) *tp++ = ':';
    } else { g_errno = EAFNOSUPPORT; return nullptr; }
    *tp++ = 0;
    if ((size_t)(tp - tmp) > size) { g_errno = ENOSPC; return nullptr; }
    for (char *q = tmp; q < tp; ++q) *dst++ = *q;
    return dst - (tp - tmp);
}

// ---- libstdc++ out-of-line pieces
namespace std {
size_t _Hash_bytes(const void *, size_t len, size_t seed);
// Any function of the bytes is a legal hash: length-only, so that keys of one length share a bucket
size_t _Hash_bytes(const void *, size_t len, size_t seed) { return len * 0x9E3779B97F4A7C15ull + seed; }
namespace __detail {
static const unsigned long primes[] = {2,3,5,7,11,13,17,19,23,29,31,37,41,43,47,53,59,61,67,71,73,79,83,89,97,103,109,113,127,137,139,149,157,167,179,193,199,211,227,241,257,277,293,313,337,359,383,409,439,467,503,541,577,619,661,709,761,823,887,953,1031,1109,1193,1289,1381,1493,1613,1741,1879,2029,2179,2357,2549,2753,2971,3209,3469,3739,4027,4349,4703,5087,5503,5953,6427,6949,7517,8123,8783,9497,10273,11113,12011,12983,14033,15173,16411,17749,19183,20753,22447,24281,26267,28411,30727,33223,35933,38873,42043,45481,49201,53201,57557,62233,67307,72817};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
    static const unsigned char fast[] = {2, 2, 2, 3, 5, 5, 7, 7, 11, 11, 11, 11, 13, 13};
    size_t r;
    if (n < sizeof(fast)) { if (n == 0) return 1; r = fast[n]; }
    else { size_t i = 5; while (i + 1 < sizeof(primes) / sizeof(primes[0]) && primes[i] < n) ++i; r = primes[i]; }
    _M_next_resize = (size_t)((double)r * (double)_M_max_load_factor);
    return r;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t n_bkt, size_t n_elt, size_t n_ins) const {
    if (n_elt + n_ins > _M_next_resize) {
        size_t want = n_elt + n_ins;
        if (_M_next_resize == 0 && want < 11) want = 11;
        double min_bkts = (double)want / (double)_M_max_load_factor;
        if (min_bkts >= n_bkt) { size_t a = (size_t)min_bkts + 1, b = n_bkt * 2; return {true, _M_next_bkt(a > b ? a : b)}; }
        _M_next_resize = (size_t)((double)n_bkt * (double)_M_max_load_factor);
        return {false, 0};
    }
    return {false, 0};
}
}
namespace _V2 {
error_category::~error_category() = default;
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition &c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code &c, int i) const noexcept { return *this == c.category() && c.value() == i; }
__cow_string error_category::_M_message(int) const { __builtin_abort(); }
namespace {
struct Gen final : error_category { const char *name() const noexcept override { return "generic"; } std::string message(int) const override { return "generic"; } };
struct Sys final : error_category { const char *name() const noexcept override { return "system"; } std::string message(int) const override { return "system"; } };
}
const error_category &generic_category() noexcept { static const Gen g{}; return g; }
const error_category &system_category() noexcept { static const Sys g{}; return g; }
}
void ios_base_library_init() {}
}
// red-black tree support (libstdc++ tree.cc)
#include <bits/stl_tree.h>
namespace std {
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
    else { auto *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
    return x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
    else if (x->_M_left) { auto *y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
    else { auto *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
    return x;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
static void rotL(_Rb_tree_node_base *x, _Rb_tree_node_base *&root) {
    auto *y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent;
    if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y;
    y->_M_left = x; x->_M_parent = y;
}
static void rotR(_Rb_tree_node_base *x, _Rb_tree_node_base *&root) {
    auto *y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent;
    if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y;
    y->_M_right = x; x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
    auto *&root = h._M_parent;
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
    while (x != root && x->_M_parent->_M_color == _S_red) {
        auto *const xpp = x->_M_parent->_M_parent;
        if (x->_M_parent == xpp->_M_left) {
            auto *const y = xpp->_M_right;
            if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
            else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotL(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotR(xpp, root); }
        } else {
            auto *const y = xpp->_M_left;
            if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
            else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotR(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotL(xpp, root); }
        }
    }
    root->_M_color = _S_black;
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
    auto *&root = h._M_parent; auto *&leftmost = h._M_left; auto *&rightmost = h._M_right;
    auto *y = z; _Rb_tree_node_base *x = 0, *xp = 0;
    if (y->_M_left == 0) x = y->_M_right;
    else if (y->_M_right == 0) x = y->_M_left;
    else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
    if (y != z) {
        z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
        if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
        else xp = y;
        if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
        y->_M_parent = z->_M_parent; std::swap(y->_M_color, z->_M_color); y = z;
    } else {
        xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
        if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
        if (leftmost == z) { if (z->_M_right == 0) leftmost = z->_M_parent; else { auto *q = x; while (q->_M_left) q = q->_M_left; leftmost = q; } }
        if (rightmost == z) { if (z->_M_left == 0) rightmost = z->_M_parent; else { auto *q = x; while (q->_M_right) q = q->_M_right; rightmost = q; } }
    }
    if (y->_M_color != _S_red) {
        while (x != root && (x == 0 || x->_M_color == _S_black))
            if (x == xp->_M_left) {
                auto *w = xp->_M_right;
                if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotL(xp, root); w = xp->_M_right; }
                if ((w->_M_left == 0 || w->_M_left->_M_color == _S_black) && (w->_M_right == 0 || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
                else {
                    if (w->_M_right == 0 || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotR(w, root); w = xp->_M_right; }
                    w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotL(xp, root); break;
                }
            } else {
                auto *w = xp->_M_left;
                if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotR(xp, root); w = xp->_M_left; }
                if ((w->_M_right == 0 || w->_M_right->_M_color == _S_black) && (w->_M_left == 0 || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
                else {
                    if (w->_M_left == 0 || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotL(w, root); w = xp->_M_left; }
                    w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotR(xp, root); break;
                }
            }
        if (x) x->_M_color = _S_black;
    }
    return y;
}
}
// instantiate string members that -fno-implicit paths leave to the library
template class std::basic_string<char>;
// ---- OpenSSL error text
extern "C" void ERR_error_string_n(unsigned long e, char *buf, size_t len) {
    if (len == 0) return;
    char t[32]; const char *p = "error:"; size_t n = 0;
    while (*p) t[n++] = *p++;
    for (int s = 60; s >= 0; s -= 4) { unsigned d = (e >> s) & 15; t[n++] = "0123456789ABCDEF"[d]; }
    size_t k = n < len - 1 ? n : len - 1;
    for (size_t i = 0; i < k; ++i) buf[i] = t[i];
    buf[k] = 0;
}

// ---- string streams: the library's own headers, without locales
#include <sstream>
#include <bits/ostream.tcc>
namespace std {
locale::locale() noexcept {}
locale::~locale() noexcept {}
ios_base::ios_base() noexcept : _M_precision(6), _M_width(0), _M_flags(skipws | dec), _M_exception(goodbit), _M_streambuf_state(goodbit), _M_callbacks(nullptr), _M_word_size(0), _M_word(nullptr) {}
ios_base::~ios_base() {}
template class basic_ios<char>;
template class basic_streambuf<char>;
template class basic_stringbuf<char>;
template class basic_ostream<char>;
template class basic_ostringstream<char>;
template ostream& __ostream_insert(ostream&, const char *, streamsize);
template ostream& operator<<(ostream&, const char *);
template ostream& operator<<(ostream&, char);
template ostream& operator<<(ostream&, const string&);
}

// ---- threads, run one at a time: a thread has its own thread-local objects,
// destroyed at its end in reverse order of construction
extern "C" {
void sym_thread_switch(bool);
static struct { void (*f)(void *); void *o; } rt_dtors[64];
static unsigned rt_ndtors; static bool rt_thread;
int __cxa_thread_atexit(void (*f)(void *), void *o, void *) noexcept { if (rt_thread) { if (rt_ndtors == 64) __builtin_trap(); rt_dtors[rt_ndtors++] = {f, o}; } return 0; }
void sym_run_thread(void (*fn)(void *), void *arg) {
    if (rt_thread) __builtin_trap();
    sym_thread_switch(true); rt_thread = true;
    fn(arg);
    while (rt_ndtors) { --rt_ndtors; rt_dtors[rt_ndtors].f(rt_dtors[rt_ndtors].o); }
    rt_thread = false; sym_thread_switch(false);
}
}
