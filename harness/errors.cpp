// Error codes (C39).
// @job C39 quick,thorough h_err_rtp
// @job C39 quick,thorough h_err_net
// @job C39 quick,thorough h_err_util
// @job C39 quick,thorough h_err_token
// @job C39 quick,thorough h_err_ice
// @job C39 quick,thorough h_err_stun_parse
// @job C39 quick,thorough h_err_stun_client
// @job C39 quick,thorough h_err_node_stun
// @job C39 quick,thorough h_err_openssl 0..1
// @job C39 quick,thorough h_err_distinct
// @bound every declared value of each module pairwise, every other 32-bit integer
// @assume OpenSSL's own error text is modelled as "error:" and the code in hex, NUL-terminated within the given size
#include "sym.hpp"
#include <string>
#include "rtp/rtp_error.hpp"
#include "net/net_error.hpp"
#include "util/util_error_code.hpp"
#include "util/util_token_stream.hpp"
#include "ice/candidate/ice_candidate_error.hpp"
#include "stun/stun_error.hpp"
#include "node/node_stun/node_stun_error.hpp"
#include "crypto/openssl/openssl_error.hpp"
#include "node/openssl/node_openssl_error.hpp"
using namespace freewebrtc;
template <typename E, typename F> static void module(F mk, unsigned count, const std::error_category *cat) {
    unsigned i = sym_u32("i"), j = sym_u32("j");
    sym_assume(i < count && j < count);
    std::error_code a = mk((E)i), b = mk((E)j);
    sym_assert(a.value() == (int)i, "the code carries the error value");
    sym_assert(a.category() == b.category() && &a.category() == &b.category(), "one category per module");
    if (cat) sym_assert(&a.category() == cat, "the code has the module's category");
    sym_assert((bool)a == (i != 0), "falsy exactly for ok");
    sym_assert((a == b) == (i == j), "codes are equal exactly when their values are");
    sym_assert(a.category().name() && *a.category().name(), "the category has a name");
    std::string m = a.message(), n = b.message();
    sym_assert(!m.empty(), "non-empty message");
    sym_assert((m == n) == (i == j), "messages of different values differ");
    sym_assert(a.message() == m && b.message() == n, "asking again gives the same message");
    sym_thread([&] { sym_assert(mk((E)i) == a && &mk((E)j).category() == &a.category() && b.message() == n, "the same code in every thread"); });
    if (i == j) sym_cover("same"); else sym_cover("different");
    sym_observe(m.size());
}
template <typename E, typename F> static void other(F mk, unsigned count) {
    int v = (int)sym_u32("v");
    sym_assume(v < 0 || v >= (int)count);
    // an integer outside the declared values, through the category interface
    std::error_code ok = mk((E)0);
    std::error_code c(v, ok.category());
    sym_assert(c.value() == v && (bool)c, "an undeclared value is kept and is an error");
    std::string t = c.message();
    sym_assert(!t.empty(), "an undeclared value still has some text");
    sym_assert(c.message() == t, "asking again gives the same text");
    unsigned d = sym_u32("d"); sym_assume(d < count);
    sym_assert(mk((E)d).message() != t, "the text of an undeclared value is no declared value's message");
    sym_cover("undeclared");
}
#define MODULE(fn, E, mk, last, cat) HARNESS(fn) { auto f = [](E e) { return mk(e); }; if (sym_bool("undeclared")) other<E>(f, (unsigned)last + 1); else module<E>(f, (unsigned)last + 1, cat); }
MODULE(h_err_rtp, rtp::Error, rtp::make_error_code, rtp::Error::invalid_packet_padding, &rtp::rtp_error_category())
MODULE(h_err_net, net::Error, net::make_error_code, net::Error::invalid_port_value, &net::net_error_category())
MODULE(h_err_util, util::ErrorCode, util::make_error_code, util::ErrorCode::value_required_in_maybe, &util::util_error_category())
MODULE(h_err_ice, ice::candidate::Error, ice::candidate::make_error_code, ice::candidate::Error::invalid_local_preference_value, &ice::candidate::ice_error_category())
MODULE(h_err_stun_parse, stun::ParseError, stun::make_error_code, stun::ParseError::invalid_message_type, &stun::stun_parse_error_category())
MODULE(h_err_stun_client, stun::ClientError, stun::make_error_code, stun::ClientError::no_alternate_server_in_response, &stun::stun_client_error_category())
MODULE(h_err_node_stun, node_stun::Error, node_stun::make_error_code, node_stun::Error::invalid_port_number, nullptr)

HARNESS(h_err_openssl) {
    auto mk = sym_param(0) ? crypto::node_openssl::make_error_code : crypto::openssl::make_error_code;
    int v = (int)sym_u32("v"), w = (int)sym_u32("w");
    auto a = mk(v), b = mk(w);
    sym_assert(a.value() == v, "the code carries the OpenSSL error value");
    sym_assert(&a.category() == &b.category(), "one category");
    sym_assert((bool)a == (v != 0), "falsy exactly for zero");
    sym_assert((a == b) == (v == w), "equal exactly when the values are");
    sym_assert(a.category().name() && *a.category().name(), "the category has a name");
    std::string m = a.message();
    sym_assert(!m.empty(), "non-empty message");
    sym_assert((m == b.message()) == (v == w), "messages of different values differ");
    sym_thread([&] { sym_assert(mk(v) == a && a.message() == m, "the same code in every thread"); });
    sym_cover("openssl");
}
HARNESS(h_err_distinct) {
    int v = (int)sym_u32("v"), w = (int)sym_u32("w");
    const std::error_category *c[9] = {
        &rtp::make_error_code(rtp::Error::ok).category(), &net::make_error_code(net::Error::ok).category(), &ice::candidate::make_error_code(ice::candidate::Error::ok).category(),
        &stun::make_error_code(stun::ParseError::ok).category(), &stun::make_error_code(stun::ClientError::ok).category(), &node_stun::make_error_code(node_stun::Error::ok).category(),
        &crypto::openssl::make_error_code(0).category(), &crypto::node_openssl::make_error_code(0).category(), &util::make_error_code(util::ErrorCode::ok).category()};
    for (int i = 0; i < 9; ++i)
        for (int j = 0; j < i; ++j)
            sym_assert(!(std::error_code(v, *c[i]) == std::error_code(w, *c[j])), "codes of different modules never compare equal");
    sym_cover("distinct");
}

HARNESS(h_err_token) {
    char c = (char)sym_u8("c"), d = (char)sym_u8("d");
    sym_assume(c != d);
    std::string_view tok(&c, 1), other(&d, 1);
    util::TokenStream empty{util::TokenStream::Container{}}, one{util::TokenStream::Container{tok}};
    auto r = empty.required(); auto q = one.required(other);
    sym_assert(r.is_err() && q.is_err(), "a missing and an unexpected token are errors");
    std::error_code a = r.unwrap_err().code(), b = q.unwrap_err().code();
    sym_assert((bool)a && (bool)b && a != b, "the two errors are errors, and distinct");
    sym_assert(&a.category() == &b.category(), "one category");
    std::string m = a.message(), n = b.message();
    sym_assert(!m.empty() && !n.empty() && m != n, "distinct non-empty messages");
    int v = (int)sym_u32("v");
    sym_assume(v < 0 || v > 2);
    sym_assert(!std::error_code(v, a.category()).message().empty(), "any other integer has some text");
    sym_assert(std::error_code(0, a.category()).message() != m && !std::error_code(0, a.category()).message().empty(), "ok has its own text");
    sym_assert(a.category() != net::net_error_category() && a.category() != stun::stun_parse_error_category() && a.category() != rtp::rtp_error_category() && a.category() != ice::candidate::ice_error_category() && a.category() != util::util_error_category(), "its own category");
    auto e2 = empty.required(other);
    sym_assert(e2.is_err() && e2.unwrap_err().code() == a, "no token where one is expected");
    sym_cover("token");
}
