// Executes calls of the programming interface on a store of named objects; see Store.tla for the meaning of the calls.
#include "mj.hpp"

#include <deque>
#include <list>
#include <unordered_map>

using namespace mj;

struct Slot
{
    char kind = 'V';
    std::unique_ptr<json::value> v;
    std::unique_ptr<json::array> a;
    std::unique_ptr<json::object> o;
};
#ifndef MJ_STORE
#define MJ_STORE static
#endif
MJ_STORE std::vector<Slot> S;

static void load(const Node& st)
{
    S.clear();
    for (auto& n : st.a) {
        Slot s;
        s.kind = n[0].s[0];
        json::value v = build(n[1]);
        if (s.kind == 'V') {
            s.v = std::make_unique<json::value>(std::move(v));
        }
        else if (s.kind == 'A') {
            s.a = std::make_unique<json::array>(std::as_const(v).as_array());
        }
        else {
            s.o = std::make_unique<json::object>(std::as_const(v).as_object());
        }
        S.push_back(std::move(s));
    }
}
static std::string store_json()
{
    std::string r = "[";
    for (auto& s : S) {
        r += r.size() > 1 ? "," : "";
        r += s.kind == 'V' ? "[\"V\"," + value_json(*s.v) + "]" : s.kind == 'A' ? "[\"A\"," + array_json(*s.a) + "]" : "[\"O\"," + object_json(*s.o) + "]";
    }
    return r + "]";
}

// ---- handles ----
struct Handle
{
    json::value* v = nullptr; // a value (a slot of kind V, or a part of any slot)
    json::array* a = nullptr; // an array slot
    json::object* o = nullptr;
    bool is_array() const { return a || (v && v->is_array()); }
    bool is_object() const { return o || (v && v->is_object()); }
    // references to containers are obtained without a mutable access that could convert
    json::array& arr() const { return a ? *a : v->as_array(); }
    json::object& obj() const { return o ? *o : v->as_object(); }
    bool ok() const { return v || a || o; }
};
static Handle step(const Handle& h, const Node& e)
{
    Handle r;
    if (e[0].s == "k") {
        if (h.is_object()) {
            json::object& o = h.obj();
            const std::string k = e[1].bytes();
            for (auto& [name, val] : o) {
                if (name == k) {
                    r.v = &val;
                }
            }
        }
    }
    else if (h.is_array() && e[1].i >= 0 && static_cast<size_t>(e[1].i) < h.arr().size()) {
        r.v = &*(h.arr().begin() + e[1].i);
    }
    return r;
}
static Handle root(const Node& h)
{
    Slot& s = S.at(static_cast<size_t>(h[0].i) - 1);
    Handle r;
    r.v = s.v.get();
    r.a = s.a.get();
    r.o = s.o.get();
    return r;
}
static Handle H(const Node& h)
{
    Handle r = root(h);
    for (auto& e : h[1].a) {
        if (!r.ok()) {
            break;
        }
        r = step(r, e);
    }
    if (!r.ok()) {
        throw Unreal { "a part of the store is missing" };
    }
    return r;
}

static std::string val(const json::value& v) { return "[\"v\"," + value_json(v) + "]"; }
static std::string boolean(bool b) { return b ? "[\"b\",true]" : "[\"b\",false]"; }
static const std::string OK = "[\"ok\"]";

static void assign_literal(json::value& v, const Node& n)
{
    switch (n[0].s[0]) {
    case 'z':
        v = nullptr;
        break;
    case 'b':
        v = n[1].b;
        break;
    case 'n': {
        const std::string t = n[1].bytes();
        const int i = atoi(t.c_str());
        if (std::to_string(i) == t) {
            v = i;
        }
        else {
            v = build(n);
        }
        break;
    }
    case 's': {
        const std::string t = n[1].bytes();
        if (t.find('\0') == std::string::npos && t.size() % 2) {
            v = t.c_str();
        }
        else {
            v = t;
        }
        break;
    }
    case 'a': {
        json::array x;
        for (auto& e : n[1].a) {
            x.push_back(build(e));
        }
        if (x.size() % 2) {
            v = x;
        }
        else {
            v = std::move(x);
        }
        break;
    }
    default: {
        json::object x;
        for (auto& m : n[1].a) {
            x.insert(m[0].bytes(), build(m[1]));
        }
        if (x.size() % 2) {
            v = x;
        }
        else {
            v = std::move(x);
        }
    }
    }
}

static std::string scalar(const json::value& v, const std::string& t)
{
    if (t == "boolean") {
        return val(json::value(v.as_boolean()));
    }
    if (t == "string") {
        return val(json::value(v.as_string()));
    }
    if (t == "string_view") {
        return val(json::value(std::string(v.as_string_view())));
    }
    if (t == "op_string") {
        return val(json::value(static_cast<std::string>(v)));
    }
    if (t == "integer") {
        return val(json::value(v.as_integer()));
    }
    if (t == "op_int") {
        return val(json::value(static_cast<int>(v)));
    }
    if (t == "long_long") {
        return val(json::value(v.as_long_long()));
    }
    if (t == "double") {
        (void)v.as_double();
        return OK;
    }
    if (t == "null") {
        (void)static_cast<std::nullptr_t>(v);
        return OK;
    }
    (void)static_cast<std::monostate>(v);
    return OK;
}

// ---- lookups ----
template <typename F>
static auto with_default(const std::string& t, const Node& d, F&& f)
{
    if (t == "v") {
        return val(f(build(d)));
    }
    if (t == "b") {
        return val(json::value(f(d[1].b)));
    }
    if (t == "i") {
        return val(json::value(f(atoi(d[1].bytes().c_str()))));
    }
    if (t == "l") {
        return val(json::value(f(atoll(d[1].bytes().c_str()))));
    }
    if (t == "s") {
        return d[1].size() % 2 ? val(json::value(f(d[1].bytes()))) : val(json::value(f(d[1].bytes().c_str())));
    }
    if (t == "a") {
        const json::value x = build(d);
        return val(json::value(f(x.as_array())));
    }
    if (t == "o") {
        const json::value x = build(d);
        return val(json::value(f(x.as_object())));
    }
    std::vector<int> l;
    for (auto& e : d[1].a) {
        l.push_back(atoi(e[1].bytes().c_str()));
    }
    return val(json::value(f(l)));
}
// Positions from a million on stand for ones far outside of every array: 1000000 * m + k.
static constexpr long long FAR_ = 1000000;
static size_t position(long long i)
{
    const size_t k = static_cast<size_t>(i % FAR_);
    switch (i < 0 ? 0 : i / FAR_) {
    case 1: return (size_t(1) << 32) + k;
    case 2: return (size_t(1) << 31) + k;
    case 3: return (size_t(1) << 63) + k;
    case 4: return size_t(0) - 1 - k;
    case 5: return (size_t(1) << 48) + k;
    default: return static_cast<size_t>(i);
    }
}
template <typename C>
static std::string get_chain(const C& c, const Node& chain, const std::string& t, const Node& d)
{
    constexpr bool is_a = std::is_same_v<C, json::array>;
    constexpr bool is_o = std::is_same_v<C, json::object>;
    const size_t n = chain.size();
    auto isk = [&](size_t i) { return chain[i][0].s == "k"; };
    auto k = [&](size_t i) { return chain[i][1].bytes(); };
    auto p = [&](size_t i) { return position(chain[i][1].i); };
    auto ip = [&](size_t i) { return chain[i][1].i < FAR_ ? static_cast<int>(chain[i][1].i) : -1 - static_cast<int>(chain[i][1].i % FAR_); };
    // how the first key is passed depends on the receiver; the rest may be anything
    auto rest = [&](auto first) {
        if (n == 1) {
            return with_default(t, d, [&](auto&& def) { return c.get(first, def); });
        }
        if (n == 2) {
            if (isk(1) && k(1).find('\0') != std::string::npos) { // a C string ends at the NUL
                return with_default(t, d, [&](auto&& def) { return c.get(first, k(1), def); });
            }
            return isk(1) ? with_default(t, d, [&](auto&& def) { return c.get(first, k(1).c_str(), def); })
                          : with_default(t, d, [&](auto&& def) { return c.get(first, ip(1), def); });
        }
        if (isk(1)) {
            return isk(2) ? with_default(t, d, [&](auto&& def) { return c.get(first, k(1), k(2), def); })
                          : with_default(t, d, [&](auto&& def) { return c.get(first, k(1), p(2), def); });
        }
        return isk(2) ? with_default(t, d, [&](auto&& def) { return c.get(first, p(1), k(2), def); })
                      : with_default(t, d, [&](auto&& def) { return c.get(first, p(1), p(2), def); });
    };
    if (isk(0)) {
        if constexpr (!is_a) {
            return rest(k(0));
        }
    }
    else {
        if constexpr (!is_o) {
            return rest(p(0));
        }
    }
    throw Unreal { "a value has another type than it was given" };
}
template <typename T, typename C, typename K>
static std::string find_as(const C& c, const K& k)
{
    auto r = c.template find<T>(k);
    return r ? val(json::value(*r)) : std::string("[\"none\"]");
}
template <typename C, typename K>
static std::string find_t(const C& c, const K& k, const std::string& t)
{
    if (t == "v") {
        auto r = c.find(k);
        return r ? val(*r) : std::string("[\"none\"]");
    }
    return t == "b"   ? find_as<bool>(c, k)
           : t == "i" ? find_as<int>(c, k)
           : t == "l" ? find_as<long long>(c, k)
           : t == "u" ? find_as<unsigned>(c, k)
           : t == "s" ? find_as<std::string>(c, k)
           : t == "a" ? find_as<json::array>(c, k)
           : t == "o" ? find_as<json::object>(c, k)
                      : find_as<std::vector<int>>(c, k);
}
template <typename C, typename K>
static std::string fv(const C& c, const K& k, const json::value* want)
{
    const json::value* p = c.find_value(k);
    return !p ? "[\"none\"]" : p == want ? val(*p) : std::string("[\"copy\"]");
}
template <typename C, typename K>
static std::string has(const C& c, const K& k)
{
    return c.contains(k) == c.exists(k) ? boolean(c.contains(k)) : std::string("[\"bad\"]");
}
template <typename C>
static std::string lookup(const C& c, const Handle& h, const Node& a)
{
    constexpr bool is_a = std::is_same_v<C, json::array>;
    constexpr bool is_o = std::is_same_v<C, json::object>;
    const std::string& n = a[0].s;
    if (n == "l.get") {
        return get_chain(c, a[2], a[3].s, a[4]);
    }
    const Node& e = a[2];
    if (e[0].s == "k") {
        if constexpr (!is_a) {
            const std::string k = e[1].bytes();
            return n == "l.find" ? find_t(c, k, a[3].s) : n == "l.fv" ? fv(c, k, step(h, e).v) : has(c, k);
        }
    }
    else {
        if constexpr (!is_o) {
            const size_t p = position(e[1].i);
            return n == "l.find" ? find_t(c, p, a[3].s) : n == "l.fv" ? fv(c, p, step(h, e).v) : has(c, p);
        }
    }
    throw Unreal { "a value has another type than it was given" };
}

static std::string array_info(json::array& a)
{
    const json::array& c = a;
    const std::string fwd = array_json(a);
    auto list = [](auto b, auto e) {
        std::string r = "[\"a\",[";
        for (bool first = true; b != e; ++b, first = false) {
            r += (first ? "" : ",") + value_json(*b);
        }
        return r + "]]";
    };
    std::string rev = list(c.rbegin(), c.rend());
    bool ok = list(a.begin(), a.end()) == fwd && list(c.begin(), c.end()) == fwd && list(c.cbegin(), c.cend()) == fwd && list(a.rbegin(), a.rend()) == rev
              && list(c.crbegin(), c.crend()) == rev && static_cast<size_t>(a.end() - a.begin()) == a.size();
    for (size_t i = 0; i < a.size(); ++i) {
        ok = ok && c.contains(i) && c.exists(i) && &c[i] == &*(c.begin() + static_cast<long>(i)) && &a[i] == &c[i] && &c.at(i) == &c[i];
    }
    ok = ok && !c.contains(a.size()) && !c.exists(a.size()) && !c.contains(static_cast<size_t>(-1));
    return ok ? "[\"i\"," + std::to_string(c.size()) + (c.empty() ? ",true," : ",false,") + fwd + "," + rev + "]" : "[\"bad\"]";
}
static std::string object_info(json::object& o)
{
    const json::object& c = o;
    std::string keys = "[", fwd = object_json(o), k2 = "[", k3 = "[";
    bool ok = true;
    size_t n = 0;
    for (auto it = c.begin(); it != c.end(); ++it, ++n) {
        keys += (n ? "," : "") + bytes_json(it->first);
        ok = ok && c.contains(it->first) && c.exists(it->first) && &c.at(it->first) == &it->second && c.find_value(it->first) == &it->second;
    }
    for (auto it = c.cbegin(); it != c.cend(); ++it) {
        k2 += (k2.size() > 1 ? "," : "") + bytes_json(it->first);
    }
    for (auto& m : o) {
        k3 += (k3.size() > 1 ? "," : "") + bytes_json(m.first);
    }
    ok = ok && keys == k2 && keys == k3 && n == c.size();
    return ok ? "[\"i\"," + std::to_string(c.size()) + (c.empty() ? ",true," : ",false,") + keys + "]," + fwd + "]" : "[\"bad\"]";
}

// what a value says about itself
static std::string kind(const json::value& v)
{
    using T = json::value::value_type;
    const int flags[] = { v.is_null(), v.is_boolean(), v.is_string(), v.is_number(), v.is_array(), v.is_object() };
    const T types[] = { T::null, T::boolean, T::string, T::number, T::array, T::object };
    int n = 0, which = 0;
    for (int i = 0; i < 6; ++i) {
        n += flags[i];
        which = flags[i] ? i : which;
    }
    bool ok = n == 1 && v.valid() && v.type() == types[which];
    const std::string info = v.value_info();
    const bool empty = v.empty();
    // the container itself, reached through the value, is described in the same way
    if (v.is_array()) {
        ok = ok && v.as_array().empty() == empty && json::value(v.as_array()).value_info() == info;
    }
    if (v.is_object()) {
        ok = ok && v.as_object().empty() == empty && json::value(v.as_object()).value_info() == info;
    }
    ok = ok && v.is<json::array>() == v.is_array() && v.is<json::object>() == v.is_object() && v.is<std::string>() == v.is_string() && v.is<bool>() == v.is_boolean()
         && v.is<std::nullptr_t>() == v.is_null() && v.is<json::value>();
    ok = ok && v.value_info() == info && v.type() == types[which];
    return ok ? "[\"k\"," + bytes_json(v.type_name()) + (empty ? ",true," : ",false,") + bytes_json(info) + "]" : "[\"bad\"]";
}

static std::string use(json::value& v)
{
    const std::string d = v.to_string();
    json::value c(v);
    bool ok = c == v && !(c != v) && v.dumps() == d && v.valid() && v.format() == c.format();
    std::ostringstream s;
    s << v;
    ok = ok && s.str() == v.format();
    v = json::value("something else");
    ok = ok && v.is_string();
    v = c;
    ok = ok && v == c;
    v.clear();
    ok = ok && v.is_null();
    v["member"] = 1;
    ok = ok && v.is_object();
    v = std::move(c);
    return "[\"u\"," + bytes_json(d) + (ok ? ",true]" : ",false]");
}

template <typename T>
static json::value binary_plus(T& x, json::array& y, const std::string& m)
{
    const T& cx = x;
    const json::array& cy = y;
    if (m == "cc") {
        return json::value(cx + cy);
    }
    if (m == "cm") {
        return json::value(cx + std::move(y));
    }
    if (m == "mc") {
        return json::value(std::move(x) + cy);
    }
    return json::value(std::move(x) + std::move(y));
}
template <typename T>
static json::value binary_or(T& x, json::object& y, const std::string& m)
{
    const T& cx = x;
    const json::object& cy = y;
    if (m == "cc") {
        return json::value(cx | cy);
    }
    if (m == "cm") {
        return json::value(cx | std::move(y));
    }
    if (m == "mc") {
        return json::value(std::move(x) | cy);
    }
    return json::value(std::move(x) | std::move(y));
}
template <typename T>
static json::value& subscript(T& x, const Node& a, size_t at)
{
    std::string k = a[at].bytes();
    const std::string& mode = a[a.size() - 1].t == Node::Str ? a[a.size() - 1].s : std::string("l");
    if (mode == "r") {
        return x[std::move(k)];
    }
    if (mode == "p" && k.find('\0') == std::string::npos) {
        return x[k.c_str()];
    }
    return x[k];
}
template <typename T, typename V>
static std::string emplaced(T& x, const Node& a, V&& v)
{
    std::string k = a[2].bytes();
    const std::string& mode = a[a.size() - 1].t == Node::Str ? a[a.size() - 1].s : std::string("l");
    auto r = mode == "r" ? x.emplace(std::move(k), std::forward<V>(v)) : x.emplace(k, std::forward<V>(v));
    if (r.first->first != a[2].bytes()) {
        return "[\"badkey\"]";
    }
    return "[\"e\"," + value_json(r.first->second) + (r.second ? ",true]" : ",false]");
}
template <typename V>
static std::string inserted(json::object& x, const Node& a, V&& v)
{
    const std::string& mode = a[a.size() - 1].t == Node::Str ? a[a.size() - 1].s : std::string("l");
    if (mode != "i") {
        return emplaced(x, a, std::forward<V>(v));
    }
    auto r = x.insert(a[2].bytes(), std::forward<V>(v));
    return "[\"e\"," + value_json(r.first->second) + (r.second ? ",true]" : ",false]");
}
template <typename V>
static std::string pushed(json::array& x, const Node& a, V&& v)
{
    const std::string& mode = a[a.size() - 1].t == Node::Str ? a[a.size() - 1].s : std::string("e");
    json::value& r = mode == "p" ? x.push_back(std::forward<V>(v)) : x.emplace_back(std::forward<V>(v));
    return &r == &*(x.end() - 1) ? val(r) : std::string("[\"badref\"]");
}

static json::array list_array(const Node& l)
{
    const size_t n = l.size();
    auto b = [&](size_t i) { return build(l[i]); };
    switch (n) {
    case 0: return json::array {};
    case 1: return json::array { b(0) };
    case 2: return json::array { b(0), b(1) };
    case 3: return json::array { b(0), b(1), b(2) };
    case 4: return json::array { b(0), b(1), b(2), b(3) };
    case 5: return json::array { b(0), b(1), b(2), b(3), b(4) };
    case 6: return json::array { b(0), b(1), b(2), b(3), b(4), b(5) };
    case 7: return json::array { b(0), b(1), b(2), b(3), b(4), b(5), b(6) };
    case 8: return json::array { b(0), b(1), b(2), b(3), b(4), b(5), b(6), b(7) };
    default: throw Unreal { "longer than the longest list in the harness" };
    }
}
template <typename T>
static T list_object(const Node& l)
{
    using P = json::object::value_type;
    auto m = [&](size_t i) { return P(l[i][0].bytes(), build(l[i][1])); };
    switch (l.size()) {
    case 0: return T(std::initializer_list<P> {});
    case 1: return T { m(0) };
    case 2: return T { m(0), m(1) };
    case 3: return T { m(0), m(1), m(2) };
    case 4: return T { m(0), m(1), m(2), m(3) };
    case 5: return T { m(0), m(1), m(2), m(3), m(4) };
    case 6: return T { m(0), m(1), m(2), m(3), m(4), m(5) };
    case 7: return T { m(0), m(1), m(2), m(3), m(4), m(5), m(6) };
    case 8: return T { m(0), m(1), m(2), m(3), m(4), m(5), m(6), m(7) };
    default: throw Unreal { "longer than the longest list in the harness" };
    }
}
template <typename C>
static json::array seq_array(const Node& l, bool move)
{
    C c;
    for (auto& e : l.a) {
        c.push_back(build(e));
    }
    return move ? json::array(std::move(c)) : json::array(c);
}
template <typename C>
static json::object map_object(const Node& l, bool move)
{
    C c;
    for (auto& e : l.a) {
        c.emplace(e[0].bytes(), build(e[1]));
    }
    return move ? json::object(std::move(c)) : json::object(c);
}

// three times, so that both ways of calling it take part
template <typename T>
static void swapped(T& x, T& y)
{
    using std::swap;
    std::swap(x, y);
    swap(x, y);
    std::swap(x, y);
}

static std::string exec(const Node& a)
{
    const std::string& n = a[0].s;
    auto I = [&](size_t i) { return position(a[i].i); };
    if (n[0] == 'n') {
        Slot& k = S.at(static_cast<size_t>(a[1].i) - 1);
        if (n == "n.copyV") {
            const json::value& s = *H(a[2]).v;
            k.v = std::make_unique<json::value>(s);
        }
        else if (n == "n.moveV") {
            k.v = std::make_unique<json::value>(std::move(*H(a[2]).v));
        }
        else if (n == "n.copyA") {
            const json::array& s = H(a[2]).arr();
            k.a = std::make_unique<json::array>(s);
        }
        else if (n == "n.moveA") {
            k.a = std::make_unique<json::array>(std::move(H(a[2]).arr()));
        }
        else if (n == "n.copyO") {
            const json::object& s = H(a[2]).obj();
            k.o = std::make_unique<json::object>(s);
        }
        else if (n == "n.moveO") {
            k.o = std::make_unique<json::object>(std::move(H(a[2]).obj()));
        }
        else if (n == "n.fromA") {
            json::array& s = H(a[2]).arr();
            k.v = a[3].s == "m" ? std::make_unique<json::value>(std::move(s)) : std::make_unique<json::value>(std::as_const(s));
        }
        else if (n == "n.fromO") {
            json::object& s = H(a[2]).obj();
            k.v = a[3].s == "m" ? std::make_unique<json::value>(std::move(s)) : std::make_unique<json::value>(std::as_const(s));
        }
        else if (n == "n.sized") {
            k.a = std::make_unique<json::array>(I(2));
        }
        else if (n == "n.listA") {
            *k.a = list_array(a[2]);
        }
        else if (n == "n.seqA") {
            const std::string& m = a[3].s;
            *k.a = m == "vc"   ? seq_array<std::vector<json::value>>(a[2], false)
                   : m == "vm" ? seq_array<std::vector<json::value>>(a[2], true)
                   : m == "lc" ? seq_array<std::list<json::value>>(a[2], false)
                               : seq_array<std::deque<json::value>>(a[2], true);
        }
        else if (n == "n.listO") {
            *k.o = list_object<json::object>(a[2]);
        }
        else if (n == "n.listV") {
            *k.v = list_object<json::value>(a[2]);
        }
        else {
            const std::string& m = a[3].s;
            *k.o = m == "mc"   ? map_object<std::map<std::string, json::value>>(a[2], false)
                   : m == "mm" ? map_object<std::map<std::string, json::value>>(a[2], true)
                   : m == "uc" ? map_object<std::unordered_map<std::string, json::value>>(a[2], false)
                               : map_object<std::unordered_map<std::string, json::value>>(a[2], true);
        }
        return OK;
    }
    Handle h = H(a[1]);
    if (n[0] == 'l') {
        // through the most specific C++ type when the handle is a slot of that type, or on request
        if (h.a || (h.v && a[a.size() - 1].t == Node::Str && a[a.size() - 1].s == "A")) {
            const json::array& c = h.arr();
            return lookup(c, h, a);
        }
        if (h.o || (h.v && a[a.size() - 1].t == Node::Str && a[a.size() - 1].s == "O")) {
            const json::object& c = h.obj();
            return lookup(c, h, a);
        }
        return lookup(std::as_const(*h.v), h, a);
    }
    if (n[0] == 'v') {
        json::value& v = *h.v;
        const json::value& c = v;
        if (n == "v.copy") {
            const json::value& s = *H(a[2]).v;
            json::value& r = (v = s);
            return &r == &v ? OK : "[\"badref\"]";
        }
        if (n == "v.move") {
            json::value& s = *H(a[2]).v;
            json::value& r = (v = std::move(s));
            return &r == &v ? OK : "[\"badref\"]";
        }
        if (n == "v.swap") {
            swapped(v, *H(a[2]).v);
            return OK;
        }
        if (n == "v.lit") {
            assign_literal(v, a[2]);
            return OK;
        }
        if (n == "v.clear") {
            v.clear();
            return OK;
        }
        if (n == "v.fromA") {
            json::array& s = H(a[2]).arr();
            if (a[3].s == "c") {
                v = std::as_const(s);
            }
            else {
                v = std::move(s);
            }
            return OK;
        }
        if (n == "v.fromO") {
            json::object& s = H(a[2]).obj();
            if (a[3].s == "c") {
                v = std::as_const(s);
            }
            else {
                v = std::move(s);
            }
            return OK;
        }
        if (n == "v.asA") {
            return "[\"v\"," + array_json(v.as_array()) + "]";
        }
        if (n == "v.asO") {
            return "[\"v\"," + object_json(v.as_object()) + "]";
        }
        if (n == "v.casA") {
            return "[\"v\"," + array_json(c.as_array()) + "]";
        }
        if (n == "v.casO") {
            return "[\"v\"," + object_json(c.as_object()) + "]";
        }
        if (n == "v.toA") {
            return "[\"v\"," + array_json(static_cast<json::array>(c)) + "]";
        }
        if (n == "v.toO") {
            return "[\"v\"," + object_json(static_cast<json::object>(c)) + "]";
        }
        if (n == "v.scalar") {
            return scalar(c, a[2].s);
        }
        if (n == "v.kidx") {
            return val(subscript(v, a, 2));
        }
        if (n == "v.kset") {
            return val(subscript(v, a, 2) = build(a[3]));
        }
        if (n == "v.kcopy") {
            const json::value& s = *H(a[3]).v;
            return val(subscript(v, a, 2) = s);
        }
        if (n == "v.kmove") {
            json::value& s = *H(a[3]).v;
            return val(subscript(v, a, 2) = std::move(s));
        }
        if (n == "v.iidx") {
            return val(v[I(2)]);
        }
        if (n == "v.ciidx") {
            return val(c[I(2)]);
        }
        if (n == "v.iset") {
            return val(v[I(2)] = build(a[3]));
        }
        if (n == "v.icopy") {
            const json::value& s = *H(a[3]).v;
            return val(v[I(2)] = s);
        }
        if (n == "v.at") {
            return val(c.at(a[2].bytes()));
        }
        if (n == "v.ati") {
            return val(c.at(I(2)));
        }
        if (n == "v.delk") {
            return boolean(v.erase(a[2].bytes()));
        }
        if (n == "v.deli") {
            return boolean(v.erase(I(2)));
        }
        if (n == "v.empA") {
            return val(v.emplace(build(a[2])));
        }
        if (n == "v.empAc") {
            const json::value& s = *H(a[2]).v;
            return val(v.emplace(s));
        }
        if (n == "v.empO") {
            return emplaced(v, a, build(a[3]));
        }
        if (n == "v.empOc") {
            const json::value& s = *H(a[3]).v;
            return emplaced(v, a, s);
        }
        if (n == "v.plus") {
            return val(binary_plus(v, H(a[2]).arr(), a[3].s));
        }
        if (n == "v.or") {
            return val(binary_or(v, H(a[2]).obj(), a[3].s));
        }
        if (n == "v.pluseq") {
            json::array& s = H(a[2]).arr();
            json::value& r = a[3].s == "m" ? (v += std::move(s)) : (v += std::as_const(s));
            return &r == &v ? OK : "[\"badref\"]";
        }
        if (n == "v.oreq") {
            json::object& s = H(a[2]).obj();
            json::value& r = a[3].s == "m" ? (v |= std::move(s)) : (v |= std::as_const(s));
            return &r == &v ? OK : "[\"badref\"]";
        }
        if (n == "v.use") {
            return use(v);
        }
    }
    if (n == "k.kind") {
        return kind(*h.v);
    }
    if (n[0] == 'a') {
        json::array& x = h.arr();
        const json::array& c = x;
        if (n == "a.push") {
            return pushed(x, a, build(a[2]));
        }
        if (n == "a.pushc") {
            const json::value& s = *H(a[2]).v;
            return pushed(x, a, s);
        }
        if (n == "a.pushm") {
            return pushed(x, a, std::move(*H(a[2]).v));
        }
        if (n == "a.pushA") {
            json::array& s = H(a[2]).arr();
            return a[3].s == "m" ? val(x.push_back(std::move(s))) : val(x.push_back(std::as_const(s)));
        }
        if (n == "a.pushO") {
            json::object& s = H(a[2]).obj();
            return a[3].s == "m" ? val(x.push_back(std::move(s))) : val(x.push_back(std::as_const(s)));
        }
        if (n == "a.deli") {
            return boolean(x.erase(I(2)));
        }
        if (n == "a.delit") {
            return boolean(x.erase(x.begin() + a[2].i));
        }
        if (n == "a.clear") {
            x.clear();
            return OK;
        }
        if (n == "a.at") {
            return val(c.at(I(2)));
        }
        if (n == "a.idx") {
            return &x[I(2)] == &c[I(2)] ? val(c[I(2)]) : "[\"badref\"]";
        }
        if (n == "a.iset") {
            return val(x[I(2)] = build(a[3]));
        }
        if (n == "a.itset") {
            if (a[4].s == "f") {
                return val(*(x.begin() + a[2].i) = build(a[3]));
            }
            return val(*(x.rbegin() + (static_cast<long long>(x.size()) - 1 - a[2].i)) = build(a[3]));
        }
        if (n == "a.icopy") {
            const json::value& s = *H(a[3]).v;
            return val(x[I(2)] = s);
        }
        if (n == "a.info") {
            return array_info(x);
        }
        if (n == "a.plus") {
            return val(binary_plus(x, H(a[2]).arr(), a[3].s));
        }
        json::array& y = H(a[2]).arr();
        if (n == "a.pluseq") {
            json::array& r = a[3].s == "m" ? (x += std::move(y)) : (x += std::as_const(y));
            return &r == &x ? OK : "[\"badref\"]";
        }
        if (n == "a.copy") {
            x = std::as_const(y);
            return OK;
        }
        if (n == "a.move") {
            x = std::move(y);
            return OK;
        }
        if (n == "a.swap") {
            swapped(x, y);
            return OK;
        }
    }
    if (n[0] == 'o') {
        json::object& x = h.obj();
        const json::object& c = x;
        if (n == "o.emp") {
            return inserted(x, a, build(a[3]));
        }
        if (n == "o.empc") {
            const json::value& s = *H(a[3]).v;
            return inserted(x, a, s);
        }
        if (n == "o.empm") {
            return inserted(x, a, std::move(*H(a[3]).v));
        }
        if (n == "o.kidx") {
            return val(subscript(x, a, 2));
        }
        if (n == "o.kset") {
            return val(subscript(x, a, 2) = build(a[3]));
        }
        if (n == "o.kcopy") {
            const json::value& s = *H(a[3]).v;
            return val(subscript(x, a, 2) = s);
        }
        if (n == "o.kmove") {
            json::value& s = *H(a[3]).v;
            return val(subscript(x, a, 2) = std::move(s));
        }
        if (n == "o.delk") {
            return boolean(x.erase(a[2].bytes()));
        }
        if (n == "o.delit") {
            auto it = x.begin();
            const std::string k = a[2].bytes();
            while (it != x.end() && it->first != k) {
                ++it;
            }
            return boolean(x.erase(it));
        }
        if (n == "o.clear") {
            x.clear();
            return OK;
        }
        if (n == "o.at") {
            return val(c.at(a[2].bytes()));
        }
        if (n == "o.itset") {
            const std::string k = a[2].bytes();
            for (auto& [name, v] : x) {
                if (name == k) {
                    return val(v = build(a[3]));
                }
            }
            return "[\"badkey\"]";
        }
        if (n == "o.info") {
            return object_info(x);
        }
        if (n == "o.or") {
            return val(binary_or(x, H(a[2]).obj(), a[3].s));
        }
        json::object& y = H(a[2]).obj();
        if (n == "o.oreq") {
            json::object& r = a[3].s == "m" ? (x |= std::move(y)) : (x |= std::as_const(y));
            return &r == &x ? OK : "[\"badref\"]";
        }
        if (n == "o.copy") {
            x = std::as_const(y);
            return OK;
        }
        if (n == "o.move") {
            x = std::move(y);
            return OK;
        }
        if (n == "o.swap") {
            swapped(x, y);
            return OK;
        }
    }
    fprintf(stderr, "harness: unknown call %s\n", n.c_str());
    exit(99);
}
static std::string run(const Node& a) { return guarded([&] { return exec(a); }); }

// ---- sessions: the arguments are chosen relative to the current contents, and logged as chosen ----
static std::string to_text(const Node& n)
{
    switch (n.t) {
    case Node::Bool: return n.b ? "true" : "false";
    case Node::Int: return std::to_string(n.i);
    case Node::Str: return "\"" + n.s + "\"";
    case Node::Arr: {
        std::string r = "[";
        for (auto& x : n.a) {
            r += (r.size() > 1 ? "," : "") + to_text(x);
        }
        return r + "]";
    }
    default: return "null";
    }
}
static Node str_node(const std::string& s)
{
    Node n;
    n.t = Node::Str;
    n.s = s;
    return n;
}
static Node int_node(long long i)
{
    Node n;
    n.t = Node::Int;
    n.i = i;
    return n;
}
static Node arr_node(std::vector<Node> a)
{
    Node n;
    n.t = Node::Arr;
    n.a = std::move(a);
    return n;
}
static Node bytes_node(const std::string& s)
{
    Node n;
    n.t = Node::Arr;
    for (char c : s) {
        n.a.push_back(int_node(static_cast<unsigned char>(c)));
    }
    return n;
}
// [slot, [n1, n2, ..]] -> [slot, path]; `kind` says what the handle has to denote: 'r' any value, 'A', 'O', 'h' anything.
static bool harden_handle(const Node& soft, char kind, Node& out)
{
    const size_t slot = static_cast<size_t>(soft[0].i) % S.size();
    Node hh = arr_node({ int_node(static_cast<long long>(slot) + 1), arr_node({}) });
    Handle h = root(hh);
    auto fits = [&](const Handle& x) { return kind == 'r' ? x.v != nullptr : kind == 'A' ? x.is_array() : kind == 'O' ? x.is_object() : true; };
    std::vector<Node> path, best;
    bool found = fits(h);
    for (auto& c : soft[1].a) {
        Node e;
        if (h.is_array() && h.arr().size()) {
            e = arr_node({ str_node("i"), int_node(c.i % static_cast<long long>(h.arr().size())) });
        }
        else if (h.is_object() && h.obj().size()) {
            auto it = h.obj().begin();
            std::advance(it, c.i % static_cast<long long>(h.obj().size()));
            e = arr_node({ str_node("k"), bytes_node(it->first) });
        }
        else {
            break;
        }
        path.push_back(e);
        h = step(h, e);
        if (fits(h)) {
            found = true;
            best = path;
        }
    }
    out = arr_node({ hh.a[0], arr_node(best) });
    return found;
}
static bool contains(const Node& h, const Node& g)
{
    const std::string x = to_text(h[1]), y = to_text(g[1]);
    if (h[0].i != g[0].i || h[1].size() > g[1].size()) {
        return false;
    }
    for (size_t i = 0; i < h[1].size(); ++i) {
        if (to_text(h[1][i]) != to_text(g[1][i])) {
            return false;
        }
    }
    return true;
}
static bool within(const Node& h, const Node& g) { return contains(h, g) && h[1].size() != g[1].size(); }

// Fills in the arguments and leaves out calls that the specification says nothing about (Enabled in Store.tla; the judge checks).
static bool harden(const Node& s, Node& a)
{
    a = s;
    const std::string& n = s[0].s;
    static const std::map<std::string, std::string> sig = {
        { "v.copy", "rr" }, { "v.move", "rr" }, { "v.swap", "rr" }, { "v.lit", "r" }, { "v.clear", "r" }, { "v.fromA", "rA" }, { "v.fromO", "rO" },
        { "v.asA", "r" }, { "v.asO", "r" }, { "v.casA", "r" }, { "v.casO", "r" }, { "v.toA", "r" }, { "v.toO", "r" }, { "v.scalar", "r" },
        { "v.kidx", "rK" }, { "v.kset", "rK" }, { "v.kcopy", "rKr" }, { "v.kmove", "rKr" }, { "v.iidx", "rJ" }, { "v.ciidx", "rJ" }, { "v.iset", "rJ" },
        { "v.icopy", "rJr" }, { "v.at", "rK" }, { "v.ati", "rI" }, { "v.delk", "rK" }, { "v.deli", "rI" }, { "v.empA", "r" }, { "v.empAc", "rr" },
        { "v.empO", "rK" }, { "v.empOc", "rKr" }, { "v.plus", "rA" }, { "v.or", "rO" }, { "v.pluseq", "rA" }, { "v.oreq", "rO" }, { "v.use", "r" },
        { "a.push", "A" }, { "a.pushc", "Ar" }, { "a.pushm", "Ar" }, { "a.pushA", "AA" }, { "a.pushO", "AO" }, { "a.deli", "AI" }, { "a.delit", "AE" },
        { "a.clear", "A" }, { "a.at", "AI" }, { "a.idx", "AJ" }, { "a.iset", "AJ" }, { "a.itset", "AJ" }, { "a.icopy", "AJr" }, { "a.info", "A" },
        { "a.plus", "AA" }, { "a.pluseq", "AA" }, { "a.copy", "AA" }, { "a.move", "AA" }, { "a.swap", "AA" },
        { "o.emp", "OK" }, { "o.empc", "OKr" }, { "o.empm", "OKr" }, { "o.kidx", "OK" }, { "o.kset", "OK" }, { "o.kcopy", "OKr" }, { "o.kmove", "OKr" },
        { "o.delk", "OK" }, { "o.delit", "OK" }, { "o.clear", "O" }, { "o.at", "OK" }, { "o.itset", "OM" }, { "o.info", "O" }, { "o.or", "OO" },
        { "o.oreq", "OO" }, { "o.copy", "OO" }, { "o.move", "OO" }, { "o.swap", "OO" },
        { "n.copyV", "Vr" }, { "n.moveV", "Vr" }, { "n.copyA", "XA" }, { "n.moveA", "XA" }, { "n.copyO", "YO" }, { "n.moveO", "YO" }, { "n.fromA", "VA" },
        { "n.fromO", "VO" }, { "n.sized", "X" }, { "n.listA", "X" }, { "n.seqA", "X" }, { "n.listO", "Y" }, { "n.mapO", "Y" }, { "n.listV", "V" },
        { "k.kind", "r" }, { "l.get", "hC" }, { "l.find", "he" }, { "l.fv", "he" }, { "l.has", "he" },
    };
    auto it = sig.find(n);
    if (it == sig.end()) {
        fprintf(stderr, "harness: no signature for %s\n", n.c_str());
        exit(99);
    }
    auto key = [&](const Node& k, const Handle& h, Node& out) { // a position among the existing names, or a literal name
        if (k.t == Node::Arr) {
            out = k;
            return;
        }
        if (h.is_object() && h.obj().size()) {
            auto p = h.obj().begin();
            std::advance(p, k.i % static_cast<long long>(h.obj().size()));
            out = bytes_node(p->first);
        }
        else {
            out = bytes_node("a");
        }
    };
    auto chain_step = [&](const Node& e, const Handle& h, Node& out) { // a number: an existing child; otherwise a literal step
        if (e.t == Node::Arr) {
            out = e;
        }
        else if (h.is_array() && h.arr().size()) {
            out = arr_node({ str_node("i"), int_node(e.i % static_cast<long long>(h.arr().size())) });
        }
        else if (h.is_object() && h.obj().size()) {
            Node k;
            key(e, h, k);
            out = arr_node({ str_node("k"), k });
        }
        else {
            out = arr_node({ str_node("k"), bytes_node("a") });
        }
    };
    const std::string& g = it->second;
    for (size_t i = 0; i < g.size(); ++i) {
        Node& arg = a.a[i + 1];
        const Node soft = arg;
        switch (g[i]) {
        case 'r':
        case 'A':
        case 'O':
        case 'h':
            if (!harden_handle(soft, g[i], arg)) {
                return false;
            }
            break;
        case 'V':
        case 'X':
        case 'Y': {
            const char kind = g[i] == 'V' ? 'V' : g[i] == 'X' ? 'A' : 'O';
            size_t k = static_cast<size_t>(soft.i) % S.size(), tries = 0;
            while (S[k].kind != kind && tries++ < S.size()) {
                k = (k + 1) % S.size();
            }
            if (S[k].kind != kind) {
                return false;
            }
            arg = int_node(static_cast<long long>(k) + 1);
            break;
        }
        case 'K':
            key(soft, H(a[1]), arg);
            break;
        case 'M': {
            Handle h = H(a[1]);
            if (!h.obj().size()) {
                return false;
            }
            key(int_node(soft.t == Node::Int ? soft.i : 0), h, arg);
            break;
        }
        case 'I':
            if (soft.i >= 0 && H(a[1]).is_array() && soft.i % 4) {
                arg = int_node(soft.i % static_cast<long long>(H(a[1]).arr().size() + 1));
            }
            break;
        case 'E':
            arg = int_node(soft.i % static_cast<long long>(H(a[1]).arr().size() + 1));
            break;
        case 'J': {
            Handle h = H(a[1]);
            if (h.is_array()) {
                if (!h.arr().size()) {
                    return false;
                }
                arg = int_node(soft.i % static_cast<long long>(h.arr().size()));
            }
            else if (n != "v.ciidx" && h.v->empty()) {
                return false;
            }
            break;
        }
        case 'C': {
            Handle h = H(a[1]);
            for (auto& e : arg.a) {
                Node o;
                chain_step(e, h, o);
                e = o;
                h = h.ok() ? step(h, e) : h;
            }
            break;
        }
        case 'e':
            chain_step(soft, H(a[1]), arg);
            break;
        }
    }
    // calls the specification says nothing about
    auto empty_other = [&](char kind) {
        Handle h = H(a[1]);
        return h.v && h.v->empty() && !(kind == 'a' ? h.v->is_array() : h.v->is_object());
    };
    if (n[0] == 'l') {
        Handle h = H(a[1]);
        const Node& e = n == "l.get" ? a[2][0] : a[2];
        if ((h.a && e[0].s == "k") || (h.o && e[0].s == "i")) {
            return false;
        }
    }
    if (n == "v.move" || n == "a.move" || n == "o.move") {
        return !within(a[2], a[1]);
    }
    if (n == "v.swap" || n == "a.swap" || n == "o.swap") {
        return !within(a[2], a[1]) && !within(a[1], a[2]);
    }
    if (n == "v.fromA" || n == "v.fromO") {
        return a[3].s != "m" || !within(a[2], a[1]);
    }
    if (n == "v.kmove" || n == "o.empm" || n == "o.kmove") {
        return !contains(a[3], a[1]);
    }
    if (n == "a.pushm") {
        return !contains(a[2], a[1]);
    }
    if (n == "a.pushA" || n == "a.pushO") {
        return a[3].s != "m" || !contains(a[2], a[1]);
    }
    if (n == "v.empAc") {
        return !(contains(a[2], a[1]) && empty_other('a'));
    }
    if (n == "v.empOc") {
        return !(contains(a[3], a[1]) && empty_other('o'));
    }
    if (n == "v.plus" || n == "a.plus" || n == "v.or" || n == "o.or") {
        const bool lm = a[3].s[0] == 'm', rm = a[3].s[1] == 'm', lin = within(a[2], a[1]);
        return !((lm || rm) && lin);
    }
    if (n == "v.pluseq" || n == "a.pluseq") {
        return !within(a[2], a[1]);
    }
    if (n == "v.oreq" || n == "o.oreq") {
        return !within(a[2], a[1]) || a[3].s == "c";
    }
    return true;
}

#ifndef NO_MAIN
int main(int argc, char** argv)
{
    return serve(argc, argv, [](const Node& q) -> std::string {
        load(q["st"]);
        if (q["op"].s == "one") {
            const std::string r = run(q["a"]);
            return "{\"r\":" + r + ",\"st\":" + store_json() + "}";
        }
        std::string out = "{\"steps\":[";
        bool first = true;
        for (auto& s : q["ops"].a) {
            Node a;
            if (!harden(s, a)) {
                continue;
            }
            const std::string txt = to_text(a);
            const std::string r = run(a);
            const std::string now = store_json();
            out += (first ? "" : ",") + ("{\"a\":" + txt) + ",\"r\":" + r + ",\"st\":" + now + "}";
            first = false;
            if (now.size() > (q.has("max") ? static_cast<size_t>(q["max"].i) : 16000)) { // grown enough: the history ends here
                break;
            }
        }
        return out + "]}";
    });
}
#endif
