// Time points: order (C01), arithmetic (C02), clock conversion (C03).
// @job C01 quick,thorough h_order_pair
// @job C01 quick,thorough h_order_advance 0..3
// @job C01 quick,thorough h_order_triple
// @job C02 quick,thorough h_advance_exact 0..8
// @job C02 quick,thorough h_advance_compose 0..2
// @job C02 quick,thorough h_difference
// @job C02 quick,thorough h_advance_from 0..9
// @job C02 quick,thorough h_advance_from_twice 0..4
// @job C03 quick h_convert 0..8 2..3
// @job C03 quick h_steady 1..3
// @job C03 thorough h_steady 1..6
// @job C03 thorough h_convert 0..8 2..6
// @bound C01/C02: every 64-bit time point and every duration whose microsecond value fits 63 bits (no other bound)
// @bound C03: up to 3 (quick) / 6 (thorough) readings after construction; readings non-negative, at most 2^61 ticks; clock units ns, 100 ns, us, ms, s, 1/90000 s, 1/48000 s, 1/3 us, 1/1024 s; std::chrono::steady_clock with arbitrary non-decreasing readings
#include "sym.hpp"
#include "clock/clock_timepoint.hpp"
#include "clock/clock_std.hpp"
using namespace freewebrtc;
using clock_tp = freewebrtc::clock::Timepoint;
using us_t = std::chrono::microseconds;
static clock_tp at(uint64_t v) { return clock_tp::epoch().advance(us_t{(int64_t)v}); }
static uint64_t rd(clock_tp t) { return (uint64_t)(t - clock_tp::epoch()).count(); }
static const uint64_t HALF = 1ull << 63;

HARNESS(h_order_pair) {
    uint64_t x = sym_u64("x"), y = sym_u64("y");
    auto a = at(x), b = at(y);
    uint64_t d = x - y;
    sym_assume(d != HALF);
    bool af = a.is_after(b), be = a.is_before(b), eq = a == b;
    sym_assert((af + be + eq) == 1, "exactly one of before/after/equal");
    sym_assert(af == b.is_before(a) && be == b.is_after(a), "before and after are mirror images");
    sym_assert(eq == (x == y), "equality is identity of the instant");
    sym_assert((a != b) == !eq, "inequality negates equality");
    sym_assert(af == (d != 0 && d < HALF), "after means ahead by less than half the range");
    sym_cover("pair");
    sym_observe(af * 4 + be * 2 + eq);
}
template <typename D> static void advance_order(int64_t unit_us) {
    uint64_t x = sym_u64("x");
    int64_t n = (int64_t)sym_u64("n");
    sym_assume(n <= INT64_MAX / unit_us && n >= -(INT64_MAX / unit_us));
    auto a = at(x);
    auto b = a.advance(D{n});
    if (n > 0) { sym_assert(b.is_after(a) && a.is_before(b) && !b.is_before(a) && !(a == b), "advanced forward is after"); sym_cover("forward"); }
    else if (n < 0) { sym_assert(b.is_before(a) && a.is_after(b) && !b.is_after(a) && !(a == b), "advanced backward is before"); sym_cover("backward"); }
    else { sym_assert(a == b && !a.is_before(b) && !a.is_after(b), "advance by zero is identity"); sym_cover("zero"); }
}
HARNESS(h_order_advance) {
    switch (sym_param(0)) {
    case 0: advance_order<std::chrono::microseconds>(1); break;
    case 1: advance_order<std::chrono::milliseconds>(1000); break;
    case 2: advance_order<std::chrono::seconds>(1000000); break;
    default: advance_order<std::chrono::minutes>(60000000); break;
    }
}
HARNESS(h_order_triple) {
    uint64_t x = sym_u64("x"); uint64_t d1 = sym_u64("d1"), d2 = sym_u64("d2");
    sym_assume(d1 < HALF && d2 < HALF && d1 + d2 < HALF);
    auto a = at(x), b = at(x + d1), c = at(x + d1 + d2);
    if (a.is_before(b) && b.is_before(c)) { sym_assert(a.is_before(c) && c.is_after(a), "before is transitive"); sym_cover("transitive"); }
    // any three points within half the range of each other
    auto p = at(sym_u64("p")), q = at(sym_u64("q")), r = at(sym_u64("r"));
    uint64_t pv = sym_u64("p0"), qv = sym_u64("q0"), rv = sym_u64("r0");
    uint64_t lo = sym_u64("lo");
    sym_assume(pv < HALF && qv < HALF && rv < HALF);
    p = at(lo + pv); q = at(lo + qv); r = at(lo + rv);
    bool pq = p.is_after(q), qr = q.is_after(r), pr = p.is_after(r);
    sym_assert(!(pq && qr) || pr, "after is transitive within half the range");
}

template <typename D> static void advance_exact(int64_t unit_us) {
    uint64_t x = sym_u64("x");
    int64_t n = (int64_t)sym_u64("n");
    sym_assume(n <= INT64_MAX / unit_us && n >= -(INT64_MAX / unit_us));
    using R = typename D::rep;
    if (sizeof(R) < 8) sym_assume((R)n == n && n > -(1ll << 31));
    auto a = at(x);
    auto b = a.advance(D{(R)n});
    sym_assert((b - a).count() == n * unit_us, "advance then subtract gives the duration");
    sym_assert((a - b).count() == -n * unit_us, "and the negated duration the other way");
    sym_assert(b.advance(D{(R)-n}) == a, "advancing back returns");
    sym_cover("exact");
    sym_observe((b - a).count());
}
HARNESS(h_advance_exact) {
    switch (sym_param(0)) {
    case 0: advance_exact<std::chrono::microseconds>(1); break;
    case 1: advance_exact<std::chrono::milliseconds>(1000); break;
    case 2: advance_exact<std::chrono::seconds>(1000000); break;
    case 3: advance_exact<std::chrono::duration<int64_t, std::ratio<60>>>(60000000); break;
    case 4: advance_exact<std::chrono::duration<int64_t, std::ratio<3600>>>(3600000000ll); break;
    case 5: advance_exact<std::chrono::days>(86400000000ll); break;
    case 6: advance_exact<std::chrono::duration<int64_t, std::ratio<1, 100>>>(10000); break;
    case 7: advance_exact<std::chrono::duration<int32_t, std::milli>>(1000); break;
    default: advance_exact<std::chrono::duration<int64_t, std::ratio<1, 64>>>(15625); break;
    }
}
HARNESS(h_advance_compose) {
    uint64_t x = sym_u64("x");
    auto a = at(x);
    sym_assert(rd(a) == x || x == HALF, "distance from the epoch is the advance");
    if (sym_param(0) == 0) {
        int64_t m = (int64_t)sym_u64("m"), n = (int64_t)sym_u64("n");
        sym_assume(m > -(1ll << 62) && m < (1ll << 62) && n > -(1ll << 62) && n < (1ll << 62));
        sym_assert(a.advance(us_t{m}).advance(us_t{n}) == a.advance(us_t{m + n}), "advances compose");
    } else if (sym_param(0) == 1) {
        int32_t m = (int32_t)sym_u32("m"); int32_t n = (int32_t)sym_u32("n");
        sym_assert(a.advance(std::chrono::milliseconds{m}).advance(us_t{n}) == a.advance(us_t{m * 1000ll + n}), "mixed units compose");
    } else {
        int32_t m = (int32_t)sym_u32("m");
        sym_assert(a.advance(std::chrono::seconds{m}) == a.advance(std::chrono::milliseconds{m * 1000ll}), "seconds are thousand milliseconds");
        sym_assert(a.advance(std::chrono::milliseconds{m}) == a.advance(us_t{m * 1000ll}), "milliseconds are thousand microseconds");
    }
    sym_cover("compose");
}
HARNESS(h_difference) {
    uint64_t x = sym_u64("x"), y = sym_u64("y"), z = sym_u64("z");
    auto a = at(x), b = at(y), c = at(z);
    int64_t xy = (int64_t)(x - y), yz = (int64_t)(y - z);
    sym_assume(x - y != HALF && y - z != HALF && x - z != HALF);
    sym_assert((a - b).count() == xy, "difference is the signed distance");
    sym_assert((a - b).count() == -(b - a).count(), "difference is antisymmetric");
    sym_assert(((a - b).count() > 0) == a.is_after(b), "positive difference means after");
    int64_t s;
    if (!__builtin_add_overflow(xy, yz, &s) && s == (int64_t)(x - z)) sym_assert((a - b) + (b - c) == (a - c), "differences add");
    sym_assert(b.advance(a - b) == a, "advancing by the difference closes the gap");
    sym_cover("difference");
    sym_observe((a - b).count());
}
template <typename D> static void advance_from(int64_t per_us, bool neg) {
    uint64_t x = sym_u64("x");
    int64_t n = (int64_t)sym_u64("n");
    if (!neg) sym_assume(n >= 0);
    using R = typename D::rep;
    if (sizeof(R) < 8) sym_assume((R)n == n);
    auto a = at(x);
    D acc{(R)n};
    auto b = a.advance_from(acc);
    int64_t whole = (b - a).count(), rem = (int64_t)acc.count();
    if (n >= 0) {
        sym_assert(rem == n % per_us, "the sub-microsecond remainder stays in the accumulator");
        sym_assert(whole == n / per_us, "the time point moves by the whole microseconds");
        sym_cover("nonnegative");
    } else {   // rounding towards zero or down: either keeps the sum and leaves less than a microsecond
        sym_assert((whole == n / per_us && rem == n % per_us) || (n % per_us != 0 && whole == n / per_us - 1 && rem == n % per_us + per_us), "the sum is unchanged and less than a microsecond is left");
        sym_cover("negative");
    }
    sym_observe(whole); sym_observe(rem);
}
HARNESS(h_advance_from) {
    switch (sym_param(0)) {
    case 0: advance_from<std::chrono::nanoseconds>(1000, false); break;
    case 1: advance_from<std::chrono::nanoseconds>(1000, true); break;
    case 2: advance_from<std::chrono::duration<int64_t, std::ratio<1, 10000000>>>(10, true); break;
    case 3: advance_from<std::chrono::duration<int64_t, std::pico>>(1000000, true); break;
    case 4: advance_from<std::chrono::microseconds>(1, true); break;
    case 5: advance_from<std::chrono::duration<int64_t, std::ratio<1, 3000000>>>(3, true); break;
    case 6: advance_from<std::chrono::duration<int32_t, std::nano>>(1000, true); break;
    case 7: advance_from<std::chrono::duration<uint32_t, std::nano>>(1000, false); break;
    case 8: advance_from<std::chrono::duration<uint64_t, std::nano>>(1000, false); break;
    default: advance_from<std::chrono::duration<int64_t, std::femto>>(1000000000, true); break;
    }
}
template <typename D> static void twice(int64_t per_us) {
    uint64_t x = sym_u64("x");
    int64_t m = (int64_t)sym_u64("m"), n = (int64_t)sym_u64("n");
    sym_assume(m >= 0 && n >= 0 && m < (1ll << 62) && n < (1ll << 62));
    auto a = at(x);
    D acc{m};
    auto b = a.advance_from(acc);
    acc += D{n};
    auto c = b.advance_from(acc);
    D all{m + n};
    auto e = a.advance_from(all);
    sym_assert(c == e && acc == all, "advancing in two portions equals advancing at once");
    sym_cover("twice");
}
HARNESS(h_advance_from_twice) {
    switch (sym_param(0)) {
    case 0: twice<std::chrono::nanoseconds>(1000); break;
    case 1: twice<std::chrono::duration<int64_t, std::ratio<1, 10000000>>>(10); break;
    case 2: twice<std::chrono::microseconds>(1); break;
    case 3: twice<std::chrono::duration<int64_t, std::pico>>(1000000); break;
    default: twice<std::chrono::duration<int64_t, std::ratio<1, 7000000>>>(7); break;
    }
}

template <typename P> struct MockClock {
    using rep = int64_t; using period = P; using duration = std::chrono::duration<rep, period>; using time_point = std::chrono::time_point<MockClock>;
    static int64_t reading;
    static time_point now() noexcept { return time_point{duration{reading}}; }
};
template <typename P> int64_t MockClock<P>::reading;
template <typename P> static void convert(int64_t num, int64_t den) {   // one tick = num/den microseconds
    using C = MockClock<P>;
    C::reading = (int64_t)sym_u64("t");
    sym_assume(C::reading >= 0 && C::reading <= (1ll << 61) / num);
    clock::ChronoClockConverter<C> conv;
    clock_tp prev = clock_tp::epoch();
    for (int i = 0, k = (int)sym_param(1); i < k; ++i) {
        int64_t t = (int64_t)sym_u64("t");
        sym_assume(t >= C::reading && t <= (1ll << 61) / num);
        C::reading = t;
        auto n = conv.now();
        sym_assert((n - clock_tp::epoch()).count() == t * num / den, "converted time is the reading truncated to microseconds");
        sym_assert(i == 0 || !n.is_before(prev), "converted time never goes backwards");
        prev = n;
        sym_observe((n - clock_tp::epoch()).count());
    }
    sym_cover("converted");
}
HARNESS(h_convert) {
    switch (sym_param(0)) {
    case 0: convert<std::nano>(1, 1000); break;
    case 1: convert<std::ratio<1, 10000000>>(1, 10); break;
    case 2: convert<std::micro>(1, 1); break;
    case 3: convert<std::milli>(1000, 1); break;
    case 4: convert<std::ratio<1>>(1000000, 1); break;
    case 5: convert<std::ratio<1, 90000>>(100, 9); break;
    case 6: convert<std::ratio<1, 48000>>(125, 6); break;
    case 7: convert<std::ratio<1, 3000000>>(1, 3); break;
    default: convert<std::ratio<1, 1024>>(15625, 16); break;
    }
}

// the steady clock of the standard library, giving any non-decreasing readings
static int64_t steady_reading;
static unsigned steady_calls;
namespace std::chrono { inline namespace _V2 { steady_clock::time_point steady_clock::now() noexcept { ++steady_calls; return time_point{duration{steady_reading}}; } } }
HARNESS(h_steady) {
    steady_reading = 0; steady_calls = 0;
    clock_tp prev = clock_tp::epoch();
    for (int i = 0, k = (int)sym_param(0); i < k; ++i) {
        int64_t t = (int64_t)sym_u64("t");
        sym_assume(t >= steady_reading && t <= (1ll << 61));
        steady_reading = t;
        unsigned before = steady_calls;
        auto n = clock::steady_clock_now();
        sym_assert(steady_calls > before, "the clock is read");
        sym_assert((n - clock_tp::epoch()).count() == t / 1000, "the steady clock's time in microseconds");
        sym_assert(i == 0 || !n.is_before(prev), "never backwards");
        prev = n;
        sym_observe((n - clock_tp::epoch()).count());
    }
    sym_thread([&] { sym_assert((clock::steady_clock_now() - clock_tp::epoch()).count() == steady_reading / 1000, "threads agree on the time"); });
    sym_cover("steady");
}
