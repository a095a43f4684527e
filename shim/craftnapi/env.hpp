// Stand-in for the external craftnapi library (not available offline): the
// part of its interface that node/ uses, over a plain tree of JavaScript
// values instead of a JavaScript engine.
//
// Numbers are integers of at most 2^53; as_int32() keeps the low 32 bits, as
// napi_get_value_int32 does. A missing property reads as undefined.
#pragma once
#include <cstdint>
#include <functional>
#include <initializer_list>
#include <memory>
#include <string>
#include <string_view>
#include <utility>
#include <vector>
#include "craftpp/result/result.hpp"
#include "craftpp/maybe/maybe.hpp"
#include "craftpp/binary/const_view.hpp"
#include "craftnapi/error.hpp"

namespace craftnapi {

template<typename T> using Result = craftpp::result::Result<T>;
template<typename T> using Maybe = craftpp::maybe::Maybe<T>;

class Env;
class Object;
class Value;
struct CallbackInfo;
using Function = Result<Value> (*)(Env&, const CallbackInfo&);

enum class Kind { undefined, null, boolean, number, bigint, string, buffer, object, array, klass };

struct Node {
    Kind kind = Kind::undefined;
    int64_t number = 0;                 // boolean, number
    uint64_t bigint = 0;
    std::string text;                   // string, name of a class
    std::vector<uint8_t> bytes;         // buffer
    std::vector<std::pair<std::string, std::shared_ptr<Node>>> props;   // object, array (in order)
    std::shared_ptr<void> wrapped;
    const void *wrapped_type = nullptr;
    Function ctor = nullptr;
    std::vector<std::pair<std::string, Function>> methods;
};
using NodePtr = std::shared_ptr<Node>;
template<typename T> inline char type_tag;

class Value {
public:
    explicit Value(NodePtr n) : m_n(std::move(n)) {}
    Kind kind() const { return m_n->kind; }
    const NodePtr& node() const { return m_n; }

    Result<bool> as_boolean() const { if (kind() != Kind::boolean) return make_error_code(Error::wrong_type); return m_n->number != 0; }
    Result<int32_t> as_int32() const { if (kind() != Kind::number) return make_error_code(Error::wrong_type); return (int32_t)(uint32_t)(uint64_t)m_n->number; }
    Result<uint32_t> as_uint32() const { if (kind() != Kind::number) return make_error_code(Error::wrong_type); return (uint32_t)(uint64_t)m_n->number; }
    Result<int64_t> as_int64() const { if (kind() != Kind::number) return make_error_code(Error::wrong_type); return m_n->number; }
    Result<std::string> as_string() const { if (kind() != Kind::string) return make_error_code(Error::wrong_type); return m_n->text; }
    Result<craftpp::binary::ConstView> as_buffer() const { if (kind() != Kind::buffer) return make_error_code(Error::wrong_type); return craftpp::binary::ConstView(m_n->bytes.data(), m_n->bytes.size()); }
    inline Result<Object> as_object() const;
    template<typename T> Result<std::reference_wrapper<T>> unwrap() const {
        if (!m_n->wrapped || m_n->wrapped_type != &type_tag<T>) return make_error_code(Error::not_wrapped);
        return std::ref(*static_cast<T*>(m_n->wrapped.get()));
    }
    static inline Result<Object> to_object(const Value&);
    static Result<std::string> to_string(const Value& v) { return v.as_string(); }
    static Result<craftpp::binary::ConstView> to_buffer(const Value& v) { return v.as_buffer(); }
    static Result<bool> to_boolean(const Value& v) { return v.as_boolean(); }
    static Result<int32_t> to_int32(const Value& v) { return v.as_int32(); }
private:
    NodePtr m_n;
};

class Object {
public:
    explicit Object(NodePtr n) : m_n(std::move(n)) {}
    const NodePtr& node() const { return m_n; }
    Value to_value() const { return Value(m_n); }
    static Value fmap_to_value(const Object& o) { return o.to_value(); }
    Result<Value> named_property(std::string_view name) const {
        for (auto& p : m_n->props) if (p.first == name) return Value(p.second);
        return Value(std::make_shared<Node>());
    }
    Result<Maybe<Value>> maybe_named_property(std::string_view name) const {
        for (auto& p : m_n->props) if (p.first == name) return Maybe<Value>(Value(p.second));
        return Maybe<Value>(craftpp::maybe::none());
    }
    template<typename T> Result<Value> wrap(std::unique_ptr<T>&& p) const {
        m_n->wrapped = std::shared_ptr<T>(std::move(p));
        m_n->wrapped_type = &type_tag<T>;
        return to_value();
    }
    template<typename T> Result<std::reference_wrapper<T>> unwrap() const { return to_value().unwrap<T>(); }
private:
    NodePtr m_n;
};

inline Result<Object> Value::as_object() const {
    if (kind() != Kind::object && kind() != Kind::array) return make_error_code(Error::wrong_type);
    return Object(m_n);
}
inline Result<Object> Value::to_object(const Value& v) { return v.as_object(); }

struct CallbackInfo {
    Value this_arg;
    std::vector<Value> args;
    size_t argc() const { return args.size(); }
    Result<Value> operator[](size_t i) const {
        if (i >= args.size()) return make_error_code(Error::missing_argument);
        return args[i];
    }
};

class Env {
public:
    // a property given as a value, an object, or maybe one of them (omitted if none)
    class Property {
    public:
        Property(Value v) : m_v(Maybe<Result<Value>>(Result<Value>(std::move(v)))) {}
        Property(Object o) : m_v(Maybe<Result<Value>>(Result<Value>(o.to_value()))) {}
        Property(Result<Value> r) : m_v(Maybe<Result<Value>>(std::move(r))) {}
        Property(Result<Object> r) : m_v(Maybe<Result<Value>>(conv(r))) {}
        Property(Maybe<Result<Value>> m) : m_v(std::move(m)) {}
        Property(Maybe<Result<Object>> m) : m_v(craftpp::maybe::none()) { if (m.is_some()) m_v = Maybe<Result<Value>>(conv(m.unwrap())); }
        const Maybe<Result<Value>>& get() const { return m_v; }
    private:
        static Result<Value> conv(const Result<Object>& r) { if (r.is_err()) return r.unwrap_err(); return r.unwrap().to_value(); }
        Maybe<Result<Value>> m_v;
    };
    using Properties = std::initializer_list<std::pair<std::string_view, Property>>;
    using Methods = std::initializer_list<std::pair<std::string_view, Function>>;

    Result<Value> create_undefined() const { return make(Kind::undefined); }
    Result<Value> create_null() const { return make(Kind::null); }
    Result<Value> create_boolean(bool v) const { auto n = make(Kind::boolean); n.node()->number = v; return n; }
    Result<Value> create_int32(int32_t v) const { auto n = make(Kind::number); n.node()->number = v; return n; }
    Result<Value> create_uint32(uint32_t v) const { auto n = make(Kind::number); n.node()->number = v; return n; }
    Result<Value> create_int64(int64_t v) const { auto n = make(Kind::number); n.node()->number = v; return n; }
    Result<Value> create_bigint_uint64(uint64_t v) const { auto n = make(Kind::bigint); n.node()->bigint = v; return n; }
    Result<Value> create_string(std::string_view v) const { auto n = make(Kind::string); n.node()->text = std::string(v); return n; }
    Result<Value> create_buffer(const craftpp::binary::ConstView& v) const { auto n = make(Kind::buffer); n.node()->bytes.assign(v.begin(), v.end()); return n; }
    Result<Object> create_object(Properties ps) const {
        auto n = make(Kind::object);
        for (auto& p : ps) {
            if (p.second.get().is_none()) continue;
            const auto& r = p.second.get().unwrap();
            if (r.is_err()) return r.unwrap_err();
            n.node()->props.emplace_back(std::string(p.first), r.unwrap().node());
        }
        return Object(n.node());
    }
    template<typename C, typename F> Result<Value> create_array(const C& c, F&& f) const {
        auto n = make(Kind::array);
        for (const auto& x : c) {
            Result<Value> r = f(x);
            if (r.is_err()) return r.unwrap_err();
            n.node()->props.emplace_back(std::string(), r.unwrap().node());
        }
        return n;
    }
    Result<Value> create_class(std::string_view name, Function ctor, Methods ms) const {
        auto n = make(Kind::klass);
        n.node()->text = std::string(name);
        n.node()->ctor = ctor;
        for (auto& m : ms) n.node()->methods.emplace_back(std::string(m.first), m.second);
        return n;
    }
private:
    static Value make(Kind k) { auto n = std::make_shared<Node>(); n->kind = k; return Value(std::move(n)); }
};

}
