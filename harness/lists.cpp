// Utilities: C36 (intrusive list), C37 (splitting, token streams).
// @job C36 quick h_list 0..3 2 0..1 | 3 1 2..3
// @job C36 thorough h_list 0..4 2 0..3 time=1400
// @job C36 quick h_list_empty 2 3 0..1
// @job C36 thorough h_list_empty 2 4 0..1 | 3 3 0..1 time=1400
// @job C37 quick h_split 0..6
// @job C37 thorough h_split 0..9 time=1400
// @job C37 quick,thorough h_remove 0..8
// @job C37 quick,thorough h_tokens 0..4 0..3
// @job C37 quick h_join 0..3 0..3 0..1
// @job C37 thorough h_join 0..6 0..5 0..1
// @job C37 quick,thorough h_split_many 20,65,140,300 1,2,3
// @job C37 quick h_split_long 0,7,20,63..65,255..257,300 0..1
// @job C37 thorough h_split_long 0..80,127..129,250..260,511..513,1023..1025,4096 0..1
// @bound C36: two lists with up to 3 (quick) / 4 (thorough) elements in any arrangement, then any two operations (push and pop at either end, remove, move or destroy an element, move-construct, move-assign, self-assign and clear lists), then both lists taken apart from either end; every sequence of 3 / 4 operations from the empty lists with two elements
// @bound C37: every text of up to 6 (quick) / 9 (thorough) bytes and every separator, texts of up to 300 / 4096 bytes with separators at any two places; texts of up to 300 bytes cut at every, every second or third byte, any byte at one of six places; joining up to 3 / 6 pieces; every prefix length (64 bit); every list of up to 4 tokens of up to 3 bytes and every history of 6 requests of the four kinds
#include "sym.hpp"
#include <memory>
#include <string>
#include <vector>
#include "hash_ref.hpp"
#include "util/util_intrusive_list.hpp"
#include "util/util_string_view.hpp"
#include "util/util_token_stream.hpp"
using namespace freewebrtc;
using namespace ref;
struct Item {
    unsigned id; util::IntrusiveList<Item>::Link link;
    explicit Item(unsigned i) : id(i), link(*this) {}
    Item(Item&& o) : id(o.id), link(*this, std::move(o.link)) {}
    Item& operator=(Item&& o) { link = std::move(o.link); id = o.id; return *this; }
};
using List = util::IntrusiveList<Item>;
struct World {
    std::vector<std::unique_ptr<Item>> item; std::unique_ptr<List> l[2]; std::vector<unsigned> m[2];
    explicit World(unsigned n) { for (auto& x : l) x = std::make_unique<List>(&Item::link); for (unsigned i = 0; i < n; ++i) item.push_back(std::make_unique<Item>(i)); }
    void out(unsigned i) { for (auto& v : m) for (size_t k = 0; k < v.size(); ++k) if (v[k] == i) { v.erase(v.begin() + k); return; } }
    bool in(unsigned i) { for (auto& v : m) for (unsigned x : v) if (x == i) return true; return false; }
    void check() {
        for (int k = 0; k < 2; ++k) {
            sym_assert(l[k]->empty() == m[k].empty(), "emptiness");
            auto f = l[k]->front(), b = l[k]->back();
            sym_assert(f.is_some() == !m[k].empty() && b.is_some() == !m[k].empty(), "front and back exist exactly in a list that is not empty");
            if (m[k].empty() || f.is_none() || b.is_none()) continue;
            sym_assert(&f.unwrap().get() == item[m[k].front()].get() && f.unwrap().get().id == m[k].front(), "the first element");
            sym_assert(&b.unwrap().get() == item[m[k].back()].get() && b.unwrap().get().id == m[k].back(), "the last element");
        }
        for (size_t i = 0; i < item.size(); ++i) if (item[i]) sym_assert(item[i]->link.in_list() == in(i), "an element knows whether it is in a list");
    }
    unsigned ops() const { return 4 * item.size() + 4 * item.size() + item.size() * (item.size() - 1) + 4 + 8; }
    bool op(unsigned o) {
        unsigned n = item.size();
        if (o < 4 * n) {
            unsigned i = o % n, k = o / n & 1; if (!item[i]) item[i] = std::make_unique<Item>(i);
            out(i);
            if (o / n < 2) { l[k]->push_back(*item[i]); m[k].push_back(i); } else { l[k]->push_front(*item[i]); m[k].insert(m[k].begin(), i); }
            return true;
        }
        o -= 4 * n;
        if (o < 4 * n) {
            unsigned i = o % n; if (!item[i]) return false;
            if (o / n == 0) { item[i]->link.remove(); out(i); }
            else if (o / n == 1) { auto p = std::make_unique<Item>(std::move(*item[i])); item[i] = std::move(p); }   // keeps its place
            else if (o / n == 2) { item[i].reset(); out(i); }
            else { Item& self = *item[i]; *item[i] = std::move(self); }       // stays where it is
            return true;
        }
        o -= 4 * n;
        if (n > 1 && o < n * (n - 1)) {                // move-assign element i to j: j leaves, takes i's place
            unsigned i = o / (n - 1), j = o % (n - 1); if (j >= i) ++j;
            if (!item[i] || !item[j]) return false;
            *item[j] = std::move(*item[i]);
            out(j); std::swap(item[i], item[j]);        // the object now named i sits in i's place, the other is in no list
            item[j]->id = j;
            return true;
        }
        if (n > 1) o -= n * (n - 1);
        if (o < 4) {
            unsigned k = o & 1; if (m[k].empty()) return false;
            if (o < 2) { l[k]->pop_front(); m[k].erase(m[k].begin()); } else { l[k]->pop_back(); m[k].pop_back(); }
            return true;
        }
        o -= 4;
        unsigned k = o & 1;
        switch (o / 2) {
        case 0: { auto p = std::make_unique<List>(std::move(*l[k])); sym_assert(l[k]->empty(), "a list is empty after it is moved"); l[k] = std::move(p); break; }
        case 1: *l[k] = std::move(*l[1 - k]); m[k] = m[1 - k]; m[1 - k].clear(); break;
        case 2: { List& s = *l[k]; *l[k] = std::move(s); break; }
        case 3: l[k]->clear(); m[k].clear(); break;
        }
        return true;
    }
    void apart(bool back) {
        for (int k = 0; k < 2; ++k) while (!m[k].empty()) {
            if (back) { l[k]->pop_back(); out(m[k].back()); } else { l[k]->pop_front(); out(m[k].front()); }
            check();
        }
    }
    void end(unsigned mode) {
        check();
        if (mode < 2) { apart(mode); sym_cover("taken apart"); }
        else if (mode == 2) { for (auto& x : item) x.reset(); for (auto& v : m) v.clear(); check(); sym_cover("elements destroyed first"); }
        else { for (auto& x : l) x.reset(); for (auto& x : item) if (x) sym_assert(!x->link.in_list(), "no element is in a destroyed list"); sym_cover("lists destroyed first"); }
    }
};
// any arrangement of n elements, p operations
HARNESS(h_list) {
    unsigned n = sym_param(0), p = sym_param(1);
    World w(n ? n : 1);
    std::vector<unsigned> left; for (unsigned i = 0; i < n; ++i) left.push_back(i);
    while (!left.empty()) {
        unsigned c = sym_choice("arrange", 2 * left.size() + 1);
        if (c == 2 * left.size()) break;
        unsigned i = left[c / 2]; left.erase(left.begin() + c / 2);
        if ((c & 1) == 0 && !w.m[1].empty()) return;      // list 0 is filled first: each arrangement once
        w.l[c & 1]->push_back(*w.item[i]); w.m[c & 1].push_back(i);
    }
    w.check();
    for (unsigned k = 0; k < p; ++k) { if (!w.op(sym_choice("op", w.ops()))) return; w.check(); }
    w.end(sym_param(2));
}
HARNESS(h_list_empty) {
    World w(sym_param(0));
    for (int k = 0; k < sym_param(1); ++k) { if (!w.op(sym_choice("op", w.ops()))) return; w.check(); }
    w.end(sym_param(2));
}
// ---- C37 ---------------------------------------------------------------------
using SV = std::string_view;
HARNESS(h_split) {
    std::string s = any_string(sym_param(0), "text"); char sep = (char)sym_u8("sep");
    auto r = util::string_view::split(s, sep);
    size_t at = 0; while (at < s.size() && s[at] != sep) ++at;
    sym_assert(r.is_some() == (at < s.size()), "split exactly when the separator is there");
    if (r.is_some()) {
        auto& p = r.unwrap();
        sym_assert(p.first.data() == s.data() && p.first.size() == at, "all before the first separator");
        sym_assert(p.second.data() == s.data() + at + 1 && p.second.size() == s.size() - at - 1, "all after it");
        sym_cover("split");
    }
    auto v = util::string_view::split_all(s, sep);
    size_t pos = 0;
    for (size_t i = 0; i < v.size(); ++i) {
        sym_assert(pos <= s.size() && v[i].data() == s.data() + pos && v[i].size() <= s.size() - pos, "the parts are views into the text, in order");
        if (!(pos <= s.size() && v[i].size() <= s.size() - pos)) return;
        bool has = false; for (char c : v[i]) has |= c == sep;
        sym_assert(!has, "no part contains the separator");
        pos += v[i].size();
        if (pos < s.size()) sym_assert(s[pos] == sep, "parts are cut at separators only");
        ++pos;
    }
    sym_assert(s.empty() ? v.empty() : pos == s.size() || pos == s.size() + 1, "the parts cover the text up to one separator at its end");
    sym_cover("all");
}
// n parts of up to 2 (from the fourth on 1) bytes joined by a separator of m bytes; k 1: as strings
HARNESS(h_join) {
    size_t n = sym_param(0); std::string sep = any_string(sym_param(1), "sep");
    std::vector<std::string> part; std::vector<SV> view; std::string want;
    for (size_t i = 0; i < n; ++i) part.push_back(any_string(sym_choice("length", i < 3 ? 3 : 2), "part"));
    for (size_t i = 0; i < n; ++i) { view.push_back(part[i]); if (i) want += sep; want += part[i]; }
    std::string r = sym_param(2) ? util::string_view::join(part, sep) : util::string_view::join(view, sep);
    sym_assert(r.size() == want.size() && sym_eq_bytes(r.data(), want.data(), want.size()), "the parts with the separator between them");
    sym_cover("joined");
    if (sep.size() != 1) return;
    for (auto& x : part) for (char c : x) if (c == sep[0]) return;
    auto v = util::string_view::split_all(r, sep[0]);
    size_t keep = n && part[n - 1].empty() ? n - 1 : n;
    sym_assert(v.size() == keep, "as many parts as were joined, up to an empty last one");
    for (size_t i = 0; i < v.size() && i < n; ++i) sym_assert(v[i].size() == part[i].size() && sym_eq_bytes(v[i].data(), part[i].data(), v[i].size()), "splitting gives the joined parts back");
    sym_cover("split again");
}
// a long text whose separators stand at two arbitrary places near its ends
HARNESS(h_split_long) {
    size_t n = sym_param(0); std::string s(n, 'a');
    for (size_t i = 0; i < n; ++i) { s[i] = (char)sym_u8("text"); sym_assume(s[i] != ' '); }
    std::vector<size_t> at;
    auto place = [&](const char *name) { size_t k = sym_choice(name, 8); return k < 4 ? k : n - 1 - (7 - k); };
    if (n >= 8) { size_t a = place("first"), b = sym_param(1) ? place("second") : a; if (a > b) std::swap(a, b); at.push_back(a); if (b != a) at.push_back(b); }
    for (size_t i : at) s[i] = ' ';
    auto v = util::string_view::split_all(s, ' ');
    std::vector<std::pair<size_t, size_t>> want; size_t from = 0;
    for (size_t i : at) { want.push_back({from, i - from}); from = i + 1; }
    if (from < n) want.push_back({from, n - from});
    sym_assert(v.size() == want.size(), "one part before each separator, and the rest if any");
    for (size_t i = 0; i < v.size() && i < want.size(); ++i) sym_assert(v[i].data() == s.data() + want[i].first && v[i].size() == want[i].second, "the parts in order, views into the text");
    sym_cover("split");
}
// a text cut at every k-th byte, any byte at one place; many parts joined
HARNESS(h_split_many) {
    size_t n = sym_param(0), k = sym_param(1); std::string s(n, 'a');
    for (size_t i = k - 1; i < n; i += k) s[i] = ',';
    size_t at = sym_choice("at", 6); at = at < 3 ? at : at == 3 ? n / 2 : n - 1 - (at - 4);
    s[at] = (char)sym_u8("char");
    std::vector<std::string> want; std::string cur; bool open = false;
    for (char c : s) { open = true; if (c == ',') { want.push_back(cur); cur.clear(); open = false; } else cur += c; }
    if (open) want.push_back(cur);
    auto v = util::string_view::split_all(s, ',');
    sym_assert(v.size() == want.size(), "one part before each separator, and the rest if any");
    size_t pos = 0;
    for (size_t i = 0; i < v.size() && i < want.size(); ++i) { sym_assert(v[i].data() == s.data() + pos && v[i] == want[i], "the parts in order, views into the text"); pos += want[i].size() + 1; }
    std::string back = util::string_view::join(v, ",");
    sym_assert(back == (s[n - 1] == ',' ? s.substr(0, n - 1) : s), "joined parts give the text back up to one separator at its end");
    auto t = util::TokenStream{v};
    for (size_t i = 0; i < v.size(); ++i) {
        if (i % 3 == 2) { auto r = t.optional(); sym_assert(r.is_some() && r.unwrap().data() == v[i].data() && r.unwrap().size() == v[i].size(), "the tokens in order"); }
        else if (i % 3) { auto r = t.required(); sym_assert(r.is_ok() && r.unwrap().data() == v[i].data() && r.unwrap().size() == v[i].size(), "the tokens in order"); }
        else sym_assert(t.required(want[i]).is_ok(), "the tokens in order");
    }
    sym_assert(t.optional().is_none() && t.required().is_err(), "then none");
    sym_cover("split");
}
HARNESS(h_remove) {
    std::string s = any_string(sym_param(0), "text"); uint64_t n = sym_u64("n");
    auto r = util::string_view::remove_prefix(s, n);
    sym_assert(r.is_some() == (n <= s.size()), "nothing when the text is shorter");
    if (r.is_some()) { sym_assert(r.unwrap().data() == s.data() + n && r.unwrap().size() == s.size() - n, "the exact rest"); sym_cover("rest"); } else sym_cover("nothing");
}
HARNESS(h_tokens) {
    std::vector<std::string> text; std::vector<SV> t;
    size_t len = sym_param(1);
    for (int i = 0; i < sym_param(0); ++i) text.push_back(any_string(len, "token"));
    for (auto& x : text) t.push_back(x);
    std::unique_ptr<util::TokenStream> s;
    if (sym_bool("move")) { auto c = t; s = std::make_unique<util::TokenStream>(std::move(c)); } else s = std::make_unique<util::TokenStream>(t);
    size_t at = 0;
    std::string other = any_string(len, "expected");
    for (int i = 0; i < 6; ++i) {
        bool more = at < t.size();
        switch (sym_choice("ask", 5)) {
        case 0: { auto r = s->optional(); sym_assert(r.is_some() == more && (!more || (r.unwrap().data() == t[at].data() && r.unwrap().size() == len)), "the next token or none"); at += more; break; }
        case 1: { auto r = s->required(); sym_assert(r.is_ok() == more && (!more || (r.unwrap().data() == t[at].data() && r.unwrap().size() == len)), "the next token or an error"); at += more; break; }
        case 2: { auto r = s->required(other); sym_assert(r.is_ok() == (more && sym_eq_bytes(t[at].data(), other.data(), len)), "the expected token exactly"); at += more; break; }
        case 3: { bool fail = i & 1; auto r = s->required_bind([&](const SV& v) -> Result<size_t> { sym_assert(more && v.data() == t[at].data(), "the function gets the next token"); if (fail) return std::make_error_code(std::errc::io_error); return v.size() + 1; });
            sym_assert(r.is_ok() == (more && !fail) && (r.is_err() || r.unwrap() == len + 1), "the function's result"); at += more; break; }
        case 4: { auto c = std::make_unique<util::TokenStream>(*s); c.swap(s); c.reset(); sym_cover("copied"); break; }   // goes on with a copy
        }
    }
    sym_cover(at == t.size() ? "at the end" : "not at the end");
}
