// A simulated user of the STUN client over UDP.
#pragma once
#include "stun_wire.hpp"
#include "stun/stun_client_udp.hpp"
#include "stun/stun_error.hpp"
using namespace freewebrtc;
using namespace ref;
using View = util::ConstBinaryView;
using Client = stun::ClientUDP;
using Time = clock::Timepoint;
using Dur = clock::NativeDuration;

struct FlatHash : util::hash::dynamic::Algorithm<stun::TransactionId> { std::size_t hash(const stun::TransactionId&) const noexcept override { return 0; } };
inline stun::TransactionIdHash flat() { return stun::TransactionIdHash::create<util::hash::dynamic::AlgorithmSingleton<stun::TransactionId, FlatHash>>(); }
struct Counter { uint32_t v; uint32_t operator()() { return v++; } };
inline Client::Settings settings(unsigned rc, unsigned rm) {
    Client::Settings s{.maybe_tid_hash = flat()};
    s.use_fingerprint = Client::Settings::UseFingerprint{false};
    Client::Settings::RetransmitDefault r; r.request_count = rc; r.retransmission_multiplier = rm;
    s.retransmit = r;
    return s;
}
inline Client::Settings::RetransmitDefault& rtx(Client::Settings& s) { return std::get<Client::Settings::RetransmitDefault>(s.retransmit); }
inline net::ip::Address v4(uint8_t last) { uint8_t b[4] = {10, 0, 0, last}; return net::ip::Address::move_from_v4(net::ip::AddressV4::from_view(View(b, 4)).unwrap()); }
inline net::Path path(uint8_t k = 0) { return net::Path{v4(1), v4(2 + k)}; }
inline Dur dur(const char *name, uint64_t lo, uint64_t hi) { uint64_t v = sym_u64(name); sym_assume(v >= lo && v <= hi); return Dur{(int64_t)v}; }
inline stun::Message response(const stun::TransactionId& id, stun::Class c, AttributeSet::AttrVec&& v) {
    return stun::Message{stun::Header{c, stun::Method::binding(), id}, AttributeSet::create(std::move(v)), stun::IsRFC3489{false}, none()};
}
inline stun::Message ok_response(const stun::TransactionId& id, const net::ip::Address& a, uint16_t port) {
    AttributeSet::AttrVec v;
    v.emplace_back(stun::XorMappedAddressAttribute{stun::XoredAddress::from_address(a, id), net::Port::from_uint16(port)});
    return response(id, stun::Class::success_response(), std::move(v));
}
inline stun::Message error_response(const stun::TransactionId& id, unsigned code) {
    AttributeSet::AttrVec v; v.emplace_back(stun::ErrorCodeAttribute{code, none()});
    return response(id, stun::Class::error_response(), std::move(v));
}
struct Tx { Client::Handle h; stun::TransactionId id; Bytes sent; View view; bool seen = false, ended = false; unsigned sends = 0; };
struct Sim {
    Client c; Time now = Time::epoch(); std::vector<Tx> tx; uint32_t seed = 100;
    explicit Sim(const Client::Settings& s) : c(s) {}
    void start(uint8_t k = 0) {
        Counter r{seed}, r2{seed}; seed += 8;
        auto h = c.create(r, now, Client::Request{path(k), {}, {}, none()});
        sym_assert(h.is_ok(), "a transaction can be started");
        tx.push_back(Tx{h.unwrap(), stun::TransactionId::generate(r2), {}, View(&seed, 0)});
    }
    Tx *find(Client::Handle h) { for (auto& t : tx) if (t.h == h) return &t; return nullptr; }
    // one step of the client; true: something happened
    bool next() {
        for (auto& t : tx) if (t.seen && !t.ended) {
            sym_valid_range(t.view.begin(), t.view.size());
            sym_assert(sym_eq_bytes(t.view.begin(), t.sent.data(), t.sent.size()), "data to send stays as it was while the transaction is pending");
        }
        auto e = c.next(now);
        if (auto *s = std::get_if<Client::SendData>(&e)) {
            Tx *t = find(s->handle);
            sym_assert(t, "a known transaction"); if (!t) return false;
            sym_assert(!t->ended, "nothing is sent after the outcome");
            sym_valid_range(s->message_view.begin(), s->message_view.size());
            Bytes b = bytes_of(s->message_view);
            if (t->seen) sym_assert(same(b, t->sent), "a retransmission repeats the same bytes");
            else { sym_assert(b.size() >= 20 && sym_eq_bytes(b.data() + 8, t->id.view().begin(), 12), "the request carries the transaction's id"); t->sent = b; }
            t->seen = true; t->view = s->message_view; ++t->sends;
            return true;
        }
        Tx *t = nullptr;
        if (auto *o = std::get_if<Client::TransactionOk>(&e)) t = find(o->handle);
        else if (auto *f = std::get_if<Client::TransactionFailed>(&e)) { t = find(f->handle); timeout = std::holds_alternative<Client::TransactionFailed::Timeout>(f->reason); }
        else if (auto *p = std::get_if<Client::Sleep>(&e)) {
            sym_assert(p->sleep.count() > 0, "a sleep is not empty");
            sym_assert(pending(), "no timer with nothing pending");
            last_sleep = p->sleep; idle = false; return false;
        } else {
            sym_assert(!pending(), "idle only with nothing pending");
            idle = true; return false;
        }
        sym_assert(t, "a known transaction"); if (!t) return false;
        sym_assert(!t->ended, "one outcome only");
        sym_assert(t->sends > 0, "the request was sent before the outcome");
        t->ended = true;
        return true;
    }
    bool pending() { for (auto& t : tx) if (!t.ended) return true; return false; }
    void drain(unsigned limit) {
        for (unsigned i = 0; i < limit; ++i) {
            if (next()) continue;
            if (idle) { for (auto& t : tx) sym_assert(t.ended, "every transaction has an outcome"); sym_cover("drained"); return; }
            now = now.advance(last_sleep);
        }
        sym_assert(false, "the client comes to rest");
    }
    void respond(Tx& t, unsigned kind) {
        switch (kind) {
        case 0: c.response(now, View(&seed, 0), ok_response(t.id, v4(9), 5)); break;
        case 1: c.response(now, View(&seed, 0), error_response(t.id, 500)); break;
        case 2: c.response(now, View(&seed, 0), error_response(t.id, 400)); break;
        case 3: c.response(now, View(&seed, 0), response(t.id, stun::Class::success_response(), {})); break;
        case 4: c.response(now, View(&seed, 0), response(t.id, stun::Class::indication(), {})); break;
        case 5: { auto m = ok_response(t.id, v4(9), 5); m.attribute_set.emplace(unknown()); c.response(now, View(&seed, 0), std::move(m)); break; }
        case 6: { auto m = error_response(t.id, 500); m.attribute_set.emplace(unknown()); c.response(now, View(&seed, 0), std::move(m)); break; }
        case 7: c.response(now, View(&seed, 0), response(t.id, stun::Class::error_response(), {})); break;
        case 8: c.response(now, View(&seed, 0), error_response(t.id, 300)); break;
        case 9: { auto m = error_response(t.id, 300); m.attribute_set.emplace(stun::Attribute::create(stun::AlternateServerAttribute{v4(7), net::Port::from_uint16(9)})); c.response(now, View(&seed, 0), std::move(m)); break; }
        case 10: { auto m = error_response(t.id, 420); m.attribute_set.emplace(stun::Attribute::create(stun::UnknownAttributesAttribute{{stun::AttributeType::from_uint16(0x7777)}})); c.response(now, View(&seed, 0), std::move(m)); break; }
        case 11: c.response(now, View(&seed, 0), error_response(t.id, 399)); break;
        default: c.response(now, View(&seed, 0), error_response(t.id, 699)); break;
        }
    }
    static stun::UnknownAttribute unknown() { static const uint8_t b[2] = {1, 2}; return stun::UnknownAttribute(stun::AttributeType::from_uint16(0x7777), View(b, 2)); }
    Dur last_sleep{0}; bool idle = false, timeout = false;
};
