// The retransmission timeout per path: C28 (RFC 6298 and Karn), C29 (history).
// @job C28 quick h_rto 1..4
// @job C28 thorough h_rto 1..6 time=1400
// @job C28 quick,thorough h_rto_client 0..4 0..1 0..1
// @job C28 quick h_paths 12 0..1 | 40 1
// @job C28 thorough h_paths 4..40 0..1 time=1400
// @job C29 quick h_paths 12 0..1 | 40 1
// @job C29 thorough h_paths 4..40 0..1 time=1400
// @job C29 quick,thorough h_history_client 0..1 0..1
// @job C29 quick h_history 1..4 0
// @job C29 thorough h_history 1..6 0 time=1400
// @job C29 quick h_history 3..4 1
// @job C29 thorough h_history 3..8 1 time=1400
// @bound C28: every sequence of up to 4 (quick) / 6 (thorough) measurements and backed-off timeouts, any values up to 2^40 ns, on three paths, all timeouts read after each; results may differ from the recurrences by up to 16 ns of rounding. Through the client: two exchanges on one path, the first answered after any time or after up to four retransmissions, with or without a configured maximum, each exchange alone or with another one pending on the path; 12 and 40 paths updated at even intervals, one of them dropping the older half
// @bound C29: every sequence of up to 4 (quick) / 6 (thorough) updates on three paths at any times up to 2^40 ns apart, any history duration up to 2^40 ns, all timeouts read after each; on one path up to 4 / 8 updates; 12 and 40 paths at even intervals; through the client: exchanges on two paths at any times, the first resent or not, and the next one's timeout
// @assume C28, C29: time does not run backwards; the addresses of the paths are fixed
#include "client_util.hpp"
#include "stun/details/stun_client_udp_rto.hpp"
using Rto = stun::details::ClientUDPRtoCalculator;
static constexpr uint64_t MAX = 1ull << 40;
struct Model {
    struct P { bool known = false, smooth = false, backed = false; Dur srtt{0}, rttvar{0}, back{0}, last{0}; } p[3];
    Dur initial{0};
    void rtt(unsigned k, Dur r) {
        P& x = p[k]; x.known = true; x.backed = false;
        if (!x.smooth) { x.smooth = true; x.srtt = r; x.rttvar = r / 2; return; }
        Dur d = x.srtt - r; if (d.count() < 0) d = -d;
        x.rttvar = (3 * x.rttvar + d) / 4; x.srtt = (7 * x.srtt + r) / 8;
    }
    void backoff(unsigned k, Dur b) { P& x = p[k]; x.known = x.backed = true; x.back = b; }
    Dur rto(unsigned k) const { const P& x = p[k]; return x.backed ? x.back : x.smooth ? x.srtt + 4 * x.rttvar : initial; }
    void forget(Dur now, Dur history) { for (auto& x : p) if (x.known && now - x.last > history) x = P{}; }
};
static net::Path a_path(unsigned k) { return k == 2 ? net::Path{v4(3), v4(2)} : path(k); }   // 1 and 2 share an address with 0
static void same_rto(const Rto& r, const Model& m, const char *what) {
    for (unsigned k = 0; k < 3; ++k) {
        int64_t d = r.rto(a_path(k)).count() - m.rto(k).count();
        sym_assert(d >= -16 && d <= 16, what);
    }
}
HARNESS(h_rto) {
    unsigned n = sym_param(0);
    Rto::Settings s; s.initial_rto = dur("initial", 1, MAX);
    Rto r(s); Model m; m.initial = s.initial_rto;
    same_rto(r, m, "the initial timeout before any measurement");
    Time now = Time::epoch();
    for (unsigned i = 0; i < n; ++i) {
        unsigned a = sym_choice("update", 6);
        Dur v = dur("value", 0, MAX);
        now = now.advance(dur("later", 0, MAX >> 10));
        if (a < 3) { r.new_rtt(now, a_path(a), v); m.rtt(a, v); sym_cover("measured"); }
        else { r.backoff(now, a_path(a - 3), v); m.backoff(a - 3, v); sym_cover("backed off"); }
        same_rto(r, m, "the timeout of each path follows its own measurements");
    }
}
// wired into the client: resent 0/1; the second exchange on the same path (0) or another one (1)
HARNESS(h_rto_client) {
    unsigned resent = sym_param(0); bool other = sym_param(1), both = sym_param(2);
    auto s = settings(7, 16);
    s.rto_settings.initial_rto = dur("initial", 1, MAX);
    s.rto_settings.history_duration = Dur(MAX) * 1024;
    bool capped = sym_bool("capped");
    Dur cap = dur("cap", 1, MAX << 8);
    if (capped) rtx(s).max_rto = cap;
    auto limit = [&](Dur d) { return capped && d > cap ? cap : d; };
    Sim c(s);
    c.start(); c.next();
    Dur later = dur("rtt", 0, MAX);
    Model m; m.initial = s.rto_settings.initial_rto;
    Dur first = m.initial;
    for (unsigned i = 0; i < resent; ++i) { c.next(); c.now = c.now.advance(c.last_sleep); c.next(); }
    sym_assert(c.tx[0].sends == 1 + resent, "resent");
    if (both) { c.start(); c.next(); }     // a second exchange, whose timeout is still the initial one
    if (resent) m.backoff(0, limit(first * (1 << resent)));
    else {
        sym_assume(later < limit(first));
        c.now = c.now.advance(later); m.rtt(0, later);
    }
    c.respond(c.tx[0], 0); c.next();
    sym_assert(c.tx[0].ended, "answered");
    if (both) {                             // its answer is a measurement
        Dur more = dur("rtt2", 0, MAX); sym_assume(more + (resent ? Dur(0) : later) < limit(first));
        c.now = c.now.advance(more); c.respond(c.tx[1], 0); c.next();
        sym_assert(c.tx[1].ended, "answered");
        m.rtt(0, resent ? more : later + more);
    }
    c.start(other); c.next();
    Dur want = limit(m.rto(other));
    auto e = c.c.next(c.now);
    auto *p = std::get_if<Client::Sleep>(&e);
    if (!p) { sym_assert(want.count() <= 16, "no wait only with no timeout"); return; }
    int64_t d = (p->sleep - want).count();
    sym_assert(d >= -16 && d <= 16, "the next exchange on the path starts with its timeout");
    sym_cover("started");
}
HARNESS(h_history) {
    unsigned n = sym_param(0); bool one = sym_param(1);
    Rto::Settings s; s.initial_rto = dur("initial", 1, MAX); s.history_duration = dur("history", 0, MAX);
    Rto r(s); Model m; m.initial = s.initial_rto;
    Time now = Time::epoch();
    for (unsigned i = 0; i < n; ++i) {
        unsigned a = sym_choice("update", one ? 2 : 6); if (one && a) a = 3;
        Dur v = dur("value", 0, MAX);
        now = now.advance(dur("later", 0, MAX));
        Dur t = now - Time::epoch();
        m.forget(t, s.history_duration);
        if (a < 3) { r.new_rtt(now, a_path(a), v); m.rtt(a, v); m.p[a].last = t; }
        else { r.backoff(now, a_path(a - 3), v); m.backoff(a - 3, v); m.p[a - 3].last = t; }
        same_rto(r, m, "history is kept for the configured time and then dropped");
    }
    sym_cover("read");
}
// n paths updated one after another, some of them again; much later one update drops those that are too old
HARNESS(h_paths) {
    unsigned n = sym_param(0); bool again = sym_param(1);
    Rto::Settings s; s.initial_rto = dur("initial", 1, MAX);
    Dur step = dur("step", 0, MAX >> 10);
    s.history_duration = step * (2 * n) + dur("history", 1, MAX);
    Rto r(s);
    Time now = Time::epoch();
    std::vector<Dur> v; std::vector<bool> back;
    auto p = [&](unsigned k) { return net::Path{v4(k % 5), v4(10 + k)}; };
    auto update = [&](unsigned k) {
        now = now.advance(step);
        v[k] = dur("value", 0, MAX); back[k] = k & 1;
        if (back[k]) r.backoff(now, p(k), v[k]); else r.new_rtt(now, p(k), v[k]);
    };
    auto want = [&](unsigned k) { return back[k] ? v[k] : v[k] + 4 * (v[k] / 2); };
    auto is = [&](unsigned k, Dur d) { int64_t x = (r.rto(p(k)) - d).count(); return x >= -16 && x <= 16; };
    for (unsigned k = 0; k < n; ++k) { v.push_back(Dur{0}); back.push_back(false); update(k); }
    if (again) for (unsigned k = 1; k < n; k += 6) update(k);           // backed off once more
    for (unsigned k = 0; k < n; ++k) sym_assert(is(k, want(k)), "the timeout of each path follows its own measurements");
    sym_assert(is(n, s.initial_rto), "the initial timeout of another path");
    Dur last = now - Time::epoch();
    now = now.advance(s.history_duration - (step * (n / 2)));             // those updated more than n/2 steps ago go
    r.new_rtt(now, p(n), Dur{0});
    for (unsigned k = 0; k < n; ++k) {
        Dur at = step * (k + 1);
        if (again && k % 6 == 1) at = step * (n + k / 6 + 1);
        bool old = (now - Time::epoch()) - at > s.history_duration;
        sym_assert(is(k, old ? s.initial_rto : want(k)), "only paths not updated for the configured time are dropped");
        if (old) sym_cover("dropped"); else sym_cover("kept");
    }
    (void)last;
}
// through the client: the age of a path's history counts from the answer
HARNESS(h_history_client) {
    bool resent = sym_param(0), third = sym_param(1);
    auto s = settings(7, 16);
    Dur first = dur("initial", 1, MAX);
    s.rto_settings.initial_rto = first;
    Dur history = dur("history", 1, MAX << 4); s.rto_settings.history_duration = history;
    Sim c(s);
    c.start(0); c.next();
    Model m; m.initial = first;
    if (resent) { c.next(); c.now = c.now.advance(c.last_sleep); c.next(); }
    Dur later = dur("rtt", 0, MAX); sym_assume(later < first);
    c.now = c.now.advance(later);
    c.respond(c.tx[0], 0); c.next();
    sym_assert(c.tx[0].ended, "answered");
    Dur at = c.now - Time::epoch();
    if (resent) m.backoff(0, first * 2); else m.rtt(0, later);
    m.p[0].last = at;
    c.now = c.now.advance(dur("pause", 0, MAX << 4));
    c.start(1); c.next();
    Dur rtt = dur("rtt2", 0, MAX); sym_assume(rtt < first);
    c.now = c.now.advance(rtt);
    Dur t = c.now - Time::epoch();
    m.forget(t, history);
    c.respond(c.tx[1], 0); c.next();
    sym_assert(c.tx[1].ended, "answered");
    m.rtt(1, rtt); m.p[1].last = t;
    if (third) c.now = c.now.advance(dur("pause2", 0, MAX));              // no update: nothing is forgotten
    c.start(0); c.next();
    Dur want = m.rto(0);
    auto e = c.c.next(c.now);
    auto *p = std::get_if<Client::Sleep>(&e);
    if (!p) { sym_assert(want.count() <= 16, "no wait only with no timeout"); return; }
    int64_t d = (p->sleep - want).count();
    sym_assert(d >= -16 && d <= 16, "history is kept for the configured time after the answer and then dropped");
    sym_cover(m.p[0].known ? "kept" : "dropped");
}
