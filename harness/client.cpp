// The STUN client over UDP: C24 (one outcome), C27 (schedule).
// @job C24 quick h_client_one 1..3 0..1 4
// @job C24 quick h_client_two 1 0 0..2 4 | 2 0 1 4 | 1..2 1 0..2 3
// @job C24 quick h_client_kind 1..2 0..1 3..12 4
// @job C24 quick h_client_many 1 3,5 | 2 3
// @job C24 quick h_client_crowd 1..2 12 | 3 20
// @job C24 thorough h_client_crowd 1..4 8..24 time=1400
// @job C24 thorough h_client_many 1..3 3..6 time=1400
// @job C24 thorough h_client_kind 1..3 0..1 3..12 6 time=1400
// @job C24 thorough h_client_one 1..3 0..1 6 time=1400
// @job C24 thorough h_client_two 1..2 0..1 0..3 5 time=1400
// @job C27 quick h_schedule 1..4 1,2,16 0 0 | 1..3 1,2,16 1 0 | 7 16 0 0
// @job C27 quick h_schedule 1..2 2 2,6,7 1,2,3,5 | 2 2 10 3,5 | 3 2 6,7 1,2,4
// @job C27 quick h_schedule 1..2 2 270,274,275 7,15,31 | 1..2 16 282 127,119,93
// @job C27 quick h_schedule 20 16 256,257 0 | 2 2 318 32767
// @job C27 quick h_schedule_two 1..2 0..1 2
// @job C27 thorough h_schedule_two 1..3 0..1 3 time=1400
// @job C27 thorough h_schedule 1..8 0,1,2,3,16 0..1 0 | 1..4 2,16 2,6,7,10,11 1..15 time=1400
// @bound C24: one transaction with Rc 1..3, any initial RTO up to 2^20 ns, with and without 5xx retries, any history of 4 (quick) / 6 (thorough) steps of polling, waiting any time up to 2^24 ns, and responses (success, 400, 500 in all histories; each of success without address or with an unknown attribute, errors with an unknown attribute, without code, 300 with and without alternate server, 399, 420, 699, and indications in histories with success and 500), then polled until it rests; two transactions, the second started at step 0..2 (0..3), histories of 3..4 (5) steps; 3 to 5 (6) transactions started together, any one answered after any number of polls, one more started then; 12 and 20 (8..24) transactions, most of them answered in three orders, one more started between
// @bound C27: Rc 1..4, 7 and 20 (1..8), Rm 1, 2, 16 (0, 1, 2, 3, 16), any RTO up to 2^32 ns, any or no maximum, any start time, every poll at any time up to 2^40 ns after the one before, up to two accepted 5xx answers at any time, three to fifteen in a row when each comes at once and each poll when due (any pattern of 4 answers at any time thorough); two transactions started any time apart, polled at any 2 (3) times
// @assume C24, C27: Rc is at least 1; the transaction id hash is constant (every hash table lookup then meets every collision); responses are handed in parsed
#include "client_util.hpp"
HARNESS(h_client_one) {
    auto s = settings(sym_param(0), 2);
    s.rto_settings.initial_rto = dur("rto", 1, 1u << 20);
    if (sym_param(1)) { rtx(s).server_error_timeout = dur("delay", 1, 1u << 20); rtx(s).server_error_max_retransmits = 1; }
    Sim m(s);
    m.start();
    for (int i = 0; i < sym_param(2); ++i) {
        switch (sym_choice("act", 6)) {
        case 0: m.next(); break;
        case 1: m.now = m.now.advance(dur("wait", 0, 1u << 24)); m.next(); break;
        case 2: m.respond(m.tx[0], 0); break;
        case 3: m.respond(m.tx[0], 1); break;
        case 4: m.respond(m.tx[0], 2); break;
        case 5: m.respond(m.tx[0], 3); break;
        }
    }
    m.drain(16);
}
// every other kind of response, in any order with time and a first kind
HARNESS(h_client_kind) {
    auto s = settings(sym_param(0), 2);
    s.rto_settings.initial_rto = dur("rto", 1, 1u << 20);
    if (sym_param(1)) { rtx(s).server_error_timeout = dur("delay", 1, 1u << 20); rtx(s).server_error_max_retransmits = 1; }
    Sim m(s);
    m.start();
    for (int i = 0; i < sym_param(3); ++i) {
        switch (sym_choice("act", 5)) {
        case 0: m.next(); break;
        case 1: m.now = m.now.advance(dur("wait", 0, 1u << 24)); m.next(); break;
        case 2: m.respond(m.tx[0], sym_param(2)); break;
        case 3: m.respond(m.tx[0], 1); break;
        case 4: m.respond(m.tx[0], 0); break;
        }
    }
    m.drain(16);
}
HARNESS(h_client_two) {
    auto s = settings(sym_param(0), 2);
    s.rto_settings.initial_rto = dur("rto", 1, 1u << 20);
    if (sym_param(1)) { rtx(s).server_error_timeout = dur("delay", 1, 1u << 20); rtx(s).server_error_max_retransmits = 1; }
    Sim m(s);
    m.start();
    int steps = sym_param(3), at = sym_param(2);
    for (int i = 0; i < steps; ++i) {
        if (i == at) { m.start(1); }
        unsigned n = m.tx.size();
        unsigned a = sym_choice("act", 2 + 3 * n);
        if (a == 0) m.next();
        else if (a == 1) { m.now = m.now.advance(dur("wait", 0, 1u << 24)); m.next(); }
        else m.respond(m.tx[(a - 2) / 3], (a - 2) % 3);
    }
    m.drain(24);
}
// several transactions at once
HARNESS(h_client_many) {
    auto s = settings(sym_param(0), 2);
    s.rto_settings.initial_rto = dur("rto", 1, 1u << 20);
    Sim m(s);
    unsigned n = sym_param(1);
    for (unsigned i = 0; i < n; ++i) m.start(i % 3);
    for (unsigned p = sym_choice("polls", n + 2); p > 0; --p) m.next();
    m.respond(m.tx[sym_choice("which", n)], sym_choice("kind", 3));
    if (sym_choice("poll", 2)) m.next();
    m.start(0);
    m.now = m.now.advance(dur("wait", 0, 1u << 24));
    m.drain(8 * (n + 1));
    for (size_t i = 0; i < m.tx.size(); ++i) for (size_t j = 0; j < i; ++j) sym_assert(!(m.tx[i].h == m.tx[j].h), "every transaction has its own handle");
}
// a crowd: all sent, most of them answered in turn, a second crowd follows
HARNESS(h_client_crowd) {
    auto s = settings(sym_param(0), 2);
    s.rto_settings.initial_rto = dur("rto", 1, 1u << 20);
    Sim m(s);
    unsigned n = sym_param(1), k0 = sym_choice("kind", 3), order = sym_choice("order", 3);
    for (unsigned i = 0; i < n; ++i) m.start(i % 3);
    if (sym_choice("poll", 2)) for (unsigned i = 0; i < n; ++i) { sym_assert(m.next(), "each request is sent"); sym_assert(m.tx[i].sends == 1, "in order"); }
    for (unsigned i = 0; i < n; ++i) {
        unsigned j = order == 0 ? i : order == 1 ? n - 1 - i : (i * 5 + 3) % n;
        if (j % 4 == 1) continue;                                          // never answered
        m.respond(m.tx[j], (k0 + i) % 3);
        if (i % 3 == 2) m.next();
        if (i == n / 2) { m.start(0); m.now = m.now.advance(dur("wait", 0, 1u << 24)); }
    }
    m.drain(8 * (n + 1) * sym_param(0));
    for (size_t i = 0; i < m.tx.size(); ++i) for (size_t j = 0; j < i; ++j) sym_assert(!(m.tx[i].h == m.tx[j].h), "every transaction has its own handle");
}
// ---- schedule ---------------------------------------------------------------
// answers: bit i set: a 5xx answer after the i-th poll
HARNESS(h_schedule) {
    unsigned rc = sym_param(0), rm = sym_param(1); unsigned flags = sym_param(2), answers = sym_param(3);
    auto s = settings(rc, rm);
    Dur rto = dur("rto", 1, 1ull << 32), most{0}, delay{0};
    s.rto_settings.initial_rto = rto;
    bool limited = flags & 1, retry = flags & 2, exact = flags & 256; unsigned retries = flags >> 2 & 15;   // exact: answers at once, polls when due
    if (limited) { most = dur("max", 1, 1ull << 36); rtx(s).max_rto = most; }
    if (retry) { delay = dur("delay", 0, 1ull << 32); rtx(s).server_error_timeout = delay; rtx(s).server_error_max_retransmits = retries; }
    auto lim = [&](Dur d) { return limited && d > most ? most : d; };
    Sim m(s);
    m.now = m.now.advance(dur("start", 0, 1ull << 40));
    m.start();
    unsigned k = 1, n5 = 0;                         // sends, 5xx answers accepted
    Dur wait = rc == 1 ? lim(rto * rm) : lim(rto);
    Dur due = (m.now - Time::epoch()) + wait;
    bool over = false;
    sym_assert(m.next() && m.tx[0].sends == 1, "the request is sent at once");
    for (unsigned i = 0; i < rc + retries + 3 && !over; ++i) {
        Dur t = m.now - Time::epoch();
        // rest until the next poll
        sym_assert(!m.next() && !m.idle, "nothing else is due");
        sym_assert(m.last_sleep.count() > 0 && m.last_sleep <= due - t, "a sleep never extends past the next due time");
        if (answers >> i & 1) {
            Dur later = exact ? Dur{0} : dur("answer", 0, 1ull << 40);
            m.now = m.now.advance(later); t = m.now - Time::epoch();
            m.respond(m.tx[0], 1);
            if (retry && n5 < retries) { ++n5; due = t + delay; sym_cover("postponed"); }
            else { sym_assert(m.next() && m.tx[0].ended && m.tx[0].sends == k, "a 5xx answer fails the transaction when no retry is left"); sym_cover("failed"); return; }
        }
        m.now = m.now.advance(exact ? due - t : dur("poll", 0, 1ull << 40)); t = m.now - Time::epoch();
        if (t < due) {
            sym_assert(!m.next() && !m.idle, "never sent before it is due");
            sym_assert(m.last_sleep.count() > 0 && m.last_sleep <= due - t, "a sleep never extends past the next due time");
            m.now = m.now.advance(due - t); t = due;
            sym_cover("early poll");
        }
        bool any = m.next();
        sym_assert(any, "what is due happens");
        if (!any) return;
        if (k == rc + n5) { sym_assert(m.tx[0].ended && m.tx[0].sends == k && m.timeout, "timeout after the last wait"); over = true; }
        else {
            ++k;
            sym_assert(!m.tx[0].ended && m.tx[0].sends == k, "one send when due");
            wait = lim(k == rc + n5 ? rto * rm : wait * 2);
            due = t + wait;
        }
    }
    sym_assert(over && m.tx[0].sends == rc + n5, "sent exactly as often as configured");
    sym_cover("timeout");
}
// two transactions keep their own schedules
HARNESS(h_schedule_two) {
    unsigned rc = sym_param(0); bool same_path = sym_param(1); int polls = sym_param(2);
    auto s = settings(rc, 3);
    Dur rto = dur("rto", 1, 1ull << 32);
    s.rto_settings.initial_rto = rto;
    Sim m(s);
    struct Due { Dur at, wait; unsigned k = 1; bool over = false; };
    std::vector<Due> d;
    auto start = [&](uint8_t p) {
        m.start(p);
        Dur w = rc == 1 ? rto * 3 : rto;
        d.push_back(Due{(m.now - Time::epoch()) + w, w});
    };
    auto check = [&] {
        Dur t = m.now - Time::epoch();
        for (int i = 0; i < 6 && m.next(); ++i) {}
        bool pending = false; Dur first{0};
        for (size_t i = 0; i < d.size(); ++i) {
            if (!d[i].over && d[i].at <= t) {
                if (d[i].k == rc) d[i].over = true;
                else { ++d[i].k; d[i].wait = d[i].k == rc ? rto * 3 : d[i].wait * 2; d[i].at = t + d[i].wait; }
            }
            sym_assert(m.tx[i].sends == d[i].k && m.tx[i].ended == d[i].over, "sent and ended as scheduled");
            if (!d[i].over && (!pending || d[i].at < first)) { first = d[i].at; pending = true; }
        }
        if (pending) sym_assert(!m.idle && m.last_sleep.count() > 0 && m.last_sleep <= first - t, "a sleep never extends past the next due time");
        else { sym_assert(m.idle, "at rest"); sym_cover("over"); }
    };
    start(0); if (sym_choice("poll_first", 2)) check();
    m.now = m.now.advance(dur("apart", 0, 1ull << 34));
    start(same_path ? 0 : 1); check();
    for (int i = 0; i < polls; ++i) { m.now = m.now.advance(dur("poll", 0, 1ull << 36)); check(); }
}
