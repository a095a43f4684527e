// Stand-in for the external craftpp library (not available offline).
// ConstView: a non-owning view of bytes. read_*/subview are checked and give
// none() out of range; assured_* have the precondition that the range lies in
// the view and are not checked (the memory model of the executor does that).
#pragma once
#include <algorithm>
#include <array>
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <initializer_list>
#include <string>
#include <string_view>
#include <vector>
#include "craftpp/binary/endian.hpp"
#include "craftpp/maybe/maybe.hpp"

namespace craftpp::binary {

class ConstView {
public:
    using ByteVec = std::vector<uint8_t>;
    struct Interval {
        size_t offset;
        size_t count;
    };

    explicit ConstView(const ByteVec& v) noexcept : m_begin(v.data()), m_size(v.size()) {}
    template<size_t N>
    explicit ConstView(const std::array<uint8_t, N>& v) noexcept : m_begin(v.data()), m_size(N) {}
    ConstView(const void *data, size_t size) noexcept : m_begin((const uint8_t *)data), m_size(size) {}
    ConstView(const ConstView&) = default;
    ConstView& operator=(const ConstView&) = default;

    size_t size() const noexcept { return m_size; }
    bool empty() const noexcept { return m_size == 0; }
    const uint8_t *data() const noexcept { return m_begin; }
    const uint8_t *begin() const noexcept { return m_begin; }
    const uint8_t *end() const noexcept { return m_begin + m_size; }

    bool contains(const Interval& i) const noexcept { return i.offset <= m_size && i.count <= m_size - i.offset; }

    bool operator==(const ConstView& o) const noexcept { return std::equal(begin(), end(), o.begin(), o.end()); }

    maybe::Maybe<uint8_t> read_u8(size_t off) const noexcept {
        if (!contains(Interval{off, 1})) return maybe::none();
        return assured_read_u8(off);
    }
    maybe::Maybe<uint16_t> read_u16be(size_t off) const noexcept {
        if (!contains(Interval{off, 2})) return maybe::none();
        return assured_read_u16be(off);
    }
    maybe::Maybe<uint32_t> read_u32be(size_t off) const noexcept {
        if (!contains(Interval{off, 4})) return maybe::none();
        return assured_read_u32be(off);
    }
    maybe::Maybe<uint64_t> read_u64be(size_t off) const noexcept {
        if (!contains(Interval{off, 8})) return maybe::none();
        return assured_read_u64be(off);
    }
    uint8_t assured_read_u8(size_t off) const noexcept { return m_begin[off]; }
    uint16_t assured_read_u16be(size_t off) const noexcept { uint16_t v; std::memcpy(&v, m_begin + off, sizeof v); return network_to_host_u16(v); }
    uint32_t assured_read_u32be(size_t off) const noexcept { uint32_t v; std::memcpy(&v, m_begin + off, sizeof v); return network_to_host_u32(v); }
    uint64_t assured_read_u64be(size_t off) const noexcept { uint64_t v; std::memcpy(&v, m_begin + off, sizeof v); return network_to_host_u64(v); }

    maybe::Maybe<ConstView> subview(size_t off) const noexcept {
        if (off > m_size) return maybe::none();
        return ConstView(m_begin + off, m_size - off);
    }
    maybe::Maybe<ConstView> subview(size_t off, size_t count) const noexcept { return subview(Interval{off, count}); }
    maybe::Maybe<ConstView> subview(const Interval& i) const noexcept {
        if (!contains(i)) return maybe::none();
        return ConstView(m_begin + i.offset, i.count);
    }
    ConstView assured_subview(size_t off) const noexcept { return ConstView(m_begin + off, m_size - off); }
    ConstView assured_subview(size_t off, size_t count) const noexcept { return ConstView(m_begin + off, count); }
    ConstView assured_subview(const Interval& i) const noexcept { return ConstView(m_begin + i.offset, i.count); }

    static ByteVec concat(const std::vector<ConstView>& views) { return do_concat(views); }
    static ByteVec concat(std::initializer_list<ConstView> views) { return do_concat(views); }

private:
    template<typename C> static ByteVec do_concat(const C& views) {
        size_t n = 0;
        for (const auto& v : views) n += v.size();
        ByteVec r(n);
        size_t at = 0;
        for (const auto& v : views) {
            if (v.size() != 0) std::memcpy(r.data() + at, v.data(), v.size());
            at += v.size();
        }
        return r;
    }
    const uint8_t *m_begin;
    size_t m_size;
};

}
