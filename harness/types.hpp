// Conversions between C++ values and JSON, generically over C++ types. A C++ value is made from, and shown as, its abstract
// form in Types.tla. Which operations are compiled is chosen by TY_JSON (C++ -> JSON -> C++), TY_CONV (JSON -> C++) and
// TY_REC (check_json / from_json of reflected structs).
#pragma once
#include <algorithm>
#include <array>
#include <deque>
#include <filesystem>
#include <forward_list>
#include <list>
#include <map>
#include <memory>
#include <memory_resource>
#include <optional>
#include <set>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>

#include "mj.hpp"
#ifdef TY_FAULT
#include "oom.hpp"
#endif

namespace ty
{
template <typename A, typename B>
struct UPair;
}
template <typename A, typename B>
struct std::tuple_size<ty::UPair<A, B>> : std::integral_constant<size_t, 2>
{
};
template <size_t I, typename A, typename B>
struct std::tuple_element<I, ty::UPair<A, B>> : std::tuple_element<I, std::pair<A, B>>
{
};

namespace ty
{
using mj::Node;

// specialised for the reflected structs: fields() gives a tuple of references
template <typename T>
struct Rec
{
    static constexpr bool value = false;
};
// specialised for the types with json::ext::jsonization: held() gives the value inside
template <typename T>
struct Ext
{
    static constexpr bool value = false;
};

// ---- types of a user's own with the interface of the standard ones ----
template <typename T>
struct UVec : std::vector<T>
{
    using std::vector<T>::vector;
};
// neither size() nor reserve(); elements go in with emplace_back, or with emplace
template <typename T, bool Back>
struct UBagBase
{
    using value_type = T;
    std::list<T> held;
    auto begin() { return held.begin(); }
    auto end() { return held.end(); }
    auto begin() const { return held.begin(); }
    auto end() const { return held.end(); }
    void push_back(T x) { held.push_back(std::move(x)); }
};
template <typename T>
struct UBag : UBagBase<T, true>
{
    template <typename... A>
    void emplace_back(A&&... a) { this->held.emplace_back(std::forward<A>(a)...); }
};
template <typename T>
struct USink : UBagBase<T, false>
{
    template <typename... A>
    void emplace(A&&... a) { this->held.emplace_back(std::forward<A>(a)...); }
};
template <typename T, size_t N>
struct UArr : std::array<T, N>
{
};
template <typename T>
struct UMap
{
    using map_t = std::map<std::string, T, std::greater<>>;
    using key_type = std::string;
    using mapped_type = T;
    using value_type = typename map_t::value_type;
    map_t held;
    auto begin() { return held.begin(); }
    auto end() { return held.end(); }
    auto begin() const { return held.begin(); }
    auto end() const { return held.end(); }
    template <typename... A>
    auto emplace(A&&... a) { return held.emplace(std::forward<A>(a)...); }
};
template <typename A, typename B>
struct UPair
{
    A first {};
    B second {};
};
template <size_t I, typename A, typename B>
auto& get(UPair<A, B>& p)
{
    if constexpr (I == 0) { return p.first; } else { return p.second; }
}
template <size_t I, typename A, typename B>
const auto& get(const UPair<A, B>& p)
{
    if constexpr (I == 0) { return p.first; } else { return p.second; }
}
// a handle whose copies share what they refer to
template <typename T>
struct Handle
{
    using element_type = T;
    std::shared_ptr<T> held;
    Handle() = default;
    Handle(std::nullptr_t) {}
    explicit Handle(T* p) : held(p) {}
    explicit operator bool() const { return held != nullptr; }
    T& operator*() const { return *held; }
};
template <typename T>
struct Del
{
    void operator()(T* p) const { delete p; }
};

template <typename T, template <typename...> typename C>
struct is_inst : std::false_type
{
};
template <template <typename...> typename C, typename... A>
struct is_inst<C<A...>, C> : std::true_type
{
};
template <typename T>
struct is_std_array : std::false_type
{
};
template <typename T, size_t N>
struct is_std_array<std::array<T, N>> : std::true_type
{
};
template <typename T, size_t N>
struct is_std_array<UArr<T, N>> : std::true_type
{
};
template <typename T>
constexpr bool is_seq = is_inst<T, std::vector>::value || is_inst<T, std::list>::value || is_inst<T, std::deque>::value
                        || is_inst<T, std::forward_list>::value || is_inst<T, UVec>::value || is_inst<T, UBag>::value || is_inst<T, USink>::value;
template <typename T>
constexpr bool is_set = is_inst<T, std::set>::value || is_inst<T, std::multiset>::value || is_inst<T, std::unordered_set>::value
                        || is_inst<T, std::unordered_multiset>::value;
template <typename T>
constexpr bool is_strmap = is_inst<T, std::map>::value || is_inst<T, UMap>::value || is_inst<T, std::unordered_map>::value;
template <typename T>
constexpr bool is_ptr = is_inst<T, std::shared_ptr>::value || is_inst<T, std::unique_ptr>::value || is_inst<T, Handle>::value;

[[noreturn]] inline void bad(const char* what)
{
    fprintf(stderr, "harness: %s\n", what);
    exit(99);
}

// ---- the C++ value that an abstract value stands for ----
template <typename T>
T make(const Node& n);

template <typename V, size_t... I>
V make_alt(const Node& n, std::index_sequence<I...>)
{
    std::optional<V> r;
    ((static_cast<long long>(I) == n[1].i ? (r.emplace(std::in_place_index<I>, make<std::variant_alternative_t<I, V>>(n[2])), 0) : 0), ...);
    return std::move(*r);
}
template <typename T, size_t... I>
T make_tuple_like(const Node& n, std::index_sequence<I...>)
{
    return T { make<std::tuple_element_t<I, T>>(n[1][I])... };
}
template <typename T, size_t... I>
void make_fields(T& t, const Node& n, std::index_sequence<I...>)
{
    auto f = Rec<T>::fields(t);
    ((std::get<I>(f) = make<std::decay_t<std::tuple_element_t<I, decltype(f)>>>(n[1][I])), ...);
}

template <typename T>
T make(const Node& n)
{
    if constexpr (std::is_same_v<T, bool>) {
        return n[1].b;
    }
    else if constexpr (std::is_enum_v<T>) {
        using U = std::underlying_type_t<T>;
        if constexpr (std::is_signed_v<U>) {
            return static_cast<T>(static_cast<U>(strtoll(n[1].bytes().c_str(), nullptr, 10)));
        }
        else {
            return static_cast<T>(static_cast<U>(strtoull(n[1].bytes().c_str(), nullptr, 10)));
        }
    }
    else if constexpr (std::is_integral_v<T>) {
        if constexpr (std::is_signed_v<T>) {
            return static_cast<T>(strtoll(n[1].bytes().c_str(), nullptr, 10));
        }
        else {
            return static_cast<T>(strtoull(n[1].bytes().c_str(), nullptr, 10));
        }
    }
    else if constexpr (std::is_floating_point_v<T>) {
        // without a decimal point, so that it is read the same in every locale
        std::string s = (n[1].b ? "-" : "") + n[2].bytes() + "e" + std::to_string(n[3].i);
        if constexpr (std::is_same_v<T, float>) {
            return strtof(s.c_str(), nullptr);
        }
        else if constexpr (std::is_same_v<T, double>) {
            return strtod(s.c_str(), nullptr);
        }
        else {
            return strtold(s.c_str(), nullptr);
        }
    }
    else if constexpr (std::is_same_v<T, std::string>) {
        return n[1].bytes();
    }
    else if constexpr (std::is_same_v<T, std::filesystem::path>) {
        return std::filesystem::path(n[1].bytes());
    }
    else if constexpr (std::is_same_v<T, json::value>) {
        return mj::build(n);
    }
    else if constexpr (std::is_same_v<T, json::array>) {
        return json::array(mj::build(n).as_array());
    }
    else if constexpr (std::is_same_v<T, json::object>) {
        return json::object(mj::build(n).as_object());
    }
    else if constexpr (std::is_same_v<T, std::monostate> || std::is_same_v<T, std::nullptr_t>) {
        return T {};
    }
    else if constexpr (is_inst<T, std::optional>::value) {
        if (n[0].s == "none") {
            return std::nullopt;
        }
        return T(std::in_place, make<typename T::value_type>(n[1]));
    }
    else if constexpr (is_ptr<T>) {
        if (n[0].s == "none") {
            return nullptr;
        }
        return T(new typename T::element_type(make<typename T::element_type>(n[1])));
    }
    else if constexpr (is_seq<T>) {
        T r {};
        if constexpr (is_inst<T, std::forward_list>::value) {
            for (size_t i = n[1].size(); i > 0; --i) {
                r.push_front(make<typename T::value_type>(n[1][i - 1]));
            }
        }
        else {
            for (auto& x : n[1].a) {
                r.push_back(make<typename T::value_type>(x));
            }
        }
        return r;
    }
    else if constexpr (is_set<T>) {
        T r {};
        for (auto& x : n[1].a) {
            r.insert(make<typename T::value_type>(x));
        }
        return r;
    }
    else if constexpr (is_strmap<T>) {
        T r {};
        for (auto& m : n[1].a) {
            r.emplace(m[0].bytes(), make<typename T::mapped_type>(m[1]));
        }
        return r;
    }
    else if constexpr (is_std_array<T>::value) {
        T r {};
        for (size_t i = 0; i < r.size(); ++i) {
            r[i] = make<typename T::value_type>(n[1][i]);
        }
        return r;
    }
    else if constexpr (is_inst<T, std::tuple>::value || is_inst<T, std::pair>::value || is_inst<T, UPair>::value) {
        return make_tuple_like<T>(n, std::make_index_sequence<std::tuple_size_v<T>> {});
    }
    else if constexpr (is_inst<T, std::variant>::value) {
        return make_alt<T>(n, std::make_index_sequence<std::variant_size_v<T>> {});
    }
    else if constexpr (Rec<T>::value) {
        T r {};
        make_fields(r, n, std::make_index_sequence<std::tuple_size_v<decltype(Rec<T>::fields(r))>> {});
        return r;
    }
    else if constexpr (Ext<T>::value) {
        T r {};
        Ext<T>::held(r) = make<std::decay_t<decltype(Ext<T>::held(r))>>(n);
        return r;
    }
    else {
        static_assert(!sizeof(T), "unknown type");
    }
}

// ---- the abstract value of a C++ value ----
template <typename T>
void show(std::string& out, const T& x);

template <typename F>
void put_float(std::string& out, F x)
{
    // at most as many digits as the type is certain to keep
    char buf[80];
    snprintf(buf, sizeof buf, "%.*Le", std::numeric_limits<F>::digits10 - 1, static_cast<long double>(x));
    std::string s = buf;
    bool neg = s[0] == '-';
    if (neg) {
        s.erase(0, 1);
    }
    auto e = s.find('e');
    if (e == std::string::npos) {
        out += "[\"notfinite\"]";
        return;
    }
    std::string ds;
    for (char c : s.substr(0, e)) { // whatever the decimal point is
        if (c >= '0' && c <= '9') {
            ds.push_back(c);
        }
    }
    long ex = strtol(s.c_str() + e + 1, nullptr, 10);
    ex -= static_cast<long>(ds.size()) - 1;
    while (ds.size() > 1 && ds.back() == '0') {
        ds.pop_back();
        ++ex;
    }
    if (ds == "0") {
        ex = 0;
    }
    out += neg ? "[\"f\",true," : "[\"f\",false,";
    mj::put_bytes(out, ds);
    out += "," + std::to_string(ex) + "]";
}

template <typename C>
void show_list(std::string& out, const C& c)
{
    out += "[\"l\",[";
    bool first = true;
    for (const auto& x : c) {
        if (!first) {
            out.push_back(',');
        }
        first = false;
        show<std::decay_t<decltype(x)>>(out, x);
    }
    out += "]]";
}
template <typename T, size_t... I>
void show_tuple(std::string& out, const T& t, std::index_sequence<I...>)
{
    out += "[\"l\",[";
    using std::get;
    ((out += I ? "," : "", show<std::decay_t<decltype(get<I>(t))>>(out, get<I>(t))), ...);
    out += "]]";
}

template <typename T>
void show(std::string& out, const T& x)
{
    if constexpr (std::is_same_v<T, bool>) {
        out += x ? "[\"b\",true]" : "[\"b\",false]";
    }
    else if constexpr (std::is_enum_v<T>) {
        out += "[\"e\",";
        mj::put_bytes(out, std::to_string(+static_cast<std::underlying_type_t<T>>(x)));
        out += "]";
    }
    else if constexpr (std::is_integral_v<T>) {
        out += "[\"n\",";
        mj::put_bytes(out, std::to_string(+x));
        out += "]";
    }
    else if constexpr (std::is_floating_point_v<T>) {
        put_float(out, x);
    }
    else if constexpr (std::is_same_v<T, std::string>) {
        out += "[\"s\",";
        mj::put_bytes(out, x);
        out += "]";
    }
    else if constexpr (std::is_same_v<T, std::filesystem::path>) {
        out += "[\"s\",";
        mj::put_bytes(out, x.native());
        out += "]";
    }
    else if constexpr (std::is_same_v<T, json::value>) {
        mj::put_value(out, x);
    }
    else if constexpr (std::is_same_v<T, json::array>) {
        out += mj::array_json(x);
    }
    else if constexpr (std::is_same_v<T, json::object>) {
        out += mj::object_json(x);
    }
    else if constexpr (std::is_same_v<T, std::monostate> || std::is_same_v<T, std::nullptr_t>) {
        out += "[\"z\"]";
    }
    else if constexpr (is_inst<T, std::optional>::value || is_ptr<T>) {
        if (!x) {
            out += "[\"none\"]";
        }
        else {
            out += "[\"some\",";
            show<std::decay_t<decltype(*x)>>(out, *x);
            out += "]";
        }
    }
    else if constexpr (is_inst<T, std::unordered_set>::value) {
        show_list(out, std::set<typename T::value_type>(x.begin(), x.end()));
    }
    else if constexpr (is_inst<T, std::unordered_multiset>::value) {
        show_list(out, std::multiset<typename T::value_type>(x.begin(), x.end()));
    }
    else if constexpr (is_seq<T> || is_set<T> || is_std_array<T>::value) {
        show_list(out, x);
    }
    else if constexpr (is_strmap<T>) {
        std::vector<const typename T::value_type*> ms;
        for (auto& m : x) {
            ms.push_back(&m);
        }
        std::sort(ms.begin(), ms.end(), [](auto* a, auto* b) { return a->first < b->first; });
        out += "[\"m\",[";
        for (size_t i = 0; i < ms.size(); ++i) {
            out += i ? ",[" : "[";
            mj::put_bytes(out, ms[i]->first);
            out += ",";
            show<typename T::mapped_type>(out, ms[i]->second);
            out += "]";
        }
        out += "]]";
    }
    else if constexpr (is_inst<T, std::tuple>::value || is_inst<T, std::pair>::value || is_inst<T, UPair>::value) {
        show_tuple(out, x, std::make_index_sequence<std::tuple_size_v<T>> {});
    }
    else if constexpr (is_inst<T, std::variant>::value) {
        out += "[\"alt\"," + std::to_string(static_cast<long long>(x.index())) + ",";
        std::visit([&](const auto& y) { show<std::decay_t<decltype(y)>>(out, y); }, x);
        out += "]";
    }
    else if constexpr (Rec<T>::value) {
        auto f = Rec<T>::fields(const_cast<T&>(x));
        show_tuple(out, f, std::make_index_sequence<std::tuple_size_v<decltype(f)>> {});
    }
    else if constexpr (Ext<T>::value) {
        show<std::decay_t<decltype(Ext<T>::held(const_cast<T&>(x)))>>(out, Ext<T>::held(const_cast<T&>(x)));
    }
    else {
        static_assert(!sizeof(T), "unknown type");
    }
}
template <typename T>
std::string shown(const T& x)
{
    std::string r;
    show<T>(r, x);
    return r;
}

// distinct outcomes, each with the first way that led to it
#ifdef TY_FAULT
inline bool g_checks = false; // is<T>(), which is noexcept, runs code of T or of json::ext::jsonization
#endif
struct Outcomes
{
    std::vector<std::pair<std::string, const char*>> l;
    void add(std::string s, const char* how)
    {
        for (auto& x : l) {
            if (x.first == s) {
                return;
            }
        }
        l.emplace_back(std::move(s), how);
    }
    template <typename F>
    void run(const char* how, F&& f)
    {
#ifdef TY_FAULT
        oom::g_count = 0;
        add(mj::guarded(f), how);
        // What is moved from once is not there for another attempt; is<T>() cannot report anything.
        const std::string way(how);
        auto in = [&](const char* s) { return way.find(s) != way.npos; };
        if (in("moved, ") || in("(moved") || (g_checks && (way == "is" || in("is of") || in("find") || in("key") || in("position") || in("all")))) {
            return;
        }
        oom::each(
            oom::g_count, 16, [] {}, f, [](std::string r) { return r; },
            [&](std::string o, bool lost) {
                if (lost) {
                    add("[\"lost\"]", how);
                }
                else if (o != "[\"bad\"]") {
                    add(o, how);
                }
            });
#else
        add(mj::guarded(std::forward<F>(f)), how);
#endif
    }
    std::string json() const
    {
        std::string r = "[";
        for (size_t i = 0; i < l.size(); ++i) {
            r += (i ? ",[" : "[") + l[i].first + ",\"" + l[i].second + "\"]";
        }
        return r + "]";
    }
};
inline std::string ok(std::string s)
{
    return "[\"ok\"," + std::move(s) + "]";
}
inline std::string yes(bool b)
{
    return b ? "[\"b\",true]" : "[\"b\",false]";
}

// static_cast<T>(value) of these may pick a converting constructor of T, which is nothing the library decides
template <typename T>
struct self_converting : std::bool_constant<is_inst<T, std::optional>::value || is_inst<T, std::variant>::value || is_inst<T, std::tuple>::value || is_inst<T, UPair>::value || is_inst<T, UVec>::value>
{
};
template <typename T>
T cast(const json::value& v)
{
    if constexpr (self_converting<T>::value) {
        return v.operator T();
    }
    else {
        return static_cast<T>(v);
    }
}
template <typename T>
T cast(json::value&& v)
{
    if constexpr (self_converting<T>::value) {
        return std::move(v).operator T();
    }
    else {
        return static_cast<T>(std::move(v));
    }
}

// the accessor that is named after the type, for the types that have one
template <typename T>
constexpr bool has_accessor = std::is_same_v<T, bool> || std::is_same_v<T, int> || std::is_same_v<T, unsigned> || std::is_same_v<T, long>
                              || std::is_same_v<T, unsigned long> || std::is_same_v<T, long long> || std::is_same_v<T, unsigned long long>
                              || std::is_floating_point_v<T> || std::is_same_v<T, std::string> || std::is_same_v<T, json::array>
                              || std::is_same_v<T, json::object>;
template <typename T>
T accessor(const json::value& v)
{
    if constexpr (std::is_same_v<T, bool>) { return v.as_boolean(); }
    else if constexpr (std::is_same_v<T, int>) { return v.as_integer(); }
    else if constexpr (std::is_same_v<T, unsigned>) { return v.as_unsigned(); }
    else if constexpr (std::is_same_v<T, long>) { return v.as_long(); }
    else if constexpr (std::is_same_v<T, unsigned long>) { return v.as_unsigned_long(); }
    else if constexpr (std::is_same_v<T, long long>) { return v.as_long_long(); }
    else if constexpr (std::is_same_v<T, unsigned long long>) { return v.as_unsigned_long_long(); }
    else if constexpr (std::is_same_v<T, float>) { return v.as_float(); }
    else if constexpr (std::is_same_v<T, double>) { return v.as_double(); }
    else if constexpr (std::is_same_v<T, long double>) { return v.as_long_double(); }
    else if constexpr (std::is_same_v<T, std::string>) { return v.as_string(); }
    else if constexpr (std::is_same_v<T, json::array>) { return v.as_array(); }
    else if constexpr (std::is_same_v<T, json::object>) { return v.as_object(); }
}

// Copy: T can be copied; Rv, ConstRv: it can be converted from an rvalue, a const rvalue; Rd: it can be read back; K: 'a', 'o' or 0 for types that can
// also be handed to json::array / json::object directly
template <typename T, bool Copy, bool Rv, bool ConstRv, bool Rd, char K>
struct Ops
{
    static std::string val(const json::value& v) { return ok(mj::value_json(v)); }

#ifdef TY_JSON
    static std::string tojson(const Node& q)
    {
        const Node& x = q["x"];
        Outcomes vs, src, back;
        auto fresh = [&] { return make<T>(x); };
        {
            const T s = fresh();
            vs.run("const lvalue", [&] { json::value v(s); return val(v); });
            src.add(shown(s), "const lvalue");
            vs.run("assigned const lvalue", [&] { json::value v; v = s; return val(v); });
            src.add(shown(s), "assigned const lvalue");
            vs.run("array.emplace_back(const lvalue)", [&] { json::array a; a.emplace_back(s); return val(a.at(0)); });
            vs.run("object.emplace(const lvalue)", [&] { json::object o; o.emplace("k", s); return val(o.at("k")); });
            src.add(shown(s), "inserted const lvalue");
        }
        {
            T s = fresh();
            vs.run("lvalue", [&] { json::value v(s); return val(v); });
            src.add(shown(s), "lvalue");
            vs.run("assigned lvalue", [&] { json::value v("before"); v = s; return val(v); });
            src.add(shown(s), "assigned lvalue");
            vs.run("array.emplace_back(lvalue)", [&] { json::array a; a.emplace_back(s); return val(a.at(0)); });
            vs.run("array.push_back(lvalue)", [&] { json::array a; a.push_back(s); return val(a.at(0)); });
            vs.run("value.emplace(lvalue)", [&] { json::value a = json::array { 1 }; a.emplace(s); return val(a.at(1)); });
            vs.run("array element", [&] { json::array a { 1 }; a[0] = s; return val(a.at(0)); });
            src.add(shown(s), "lvalue into array");
            vs.run("object.emplace(lvalue)", [&] { json::object o; o.emplace("k", s); return val(o.at("k")); });
            vs.run("value.emplace(key, lvalue)", [&] { json::value o = json::object {}; o.emplace("k", s); return val(o.at("k")); });
            vs.run("object subscript", [&] { json::object o; o["k"] = s; return val(o.at("k")); });
            vs.run("object list", [&] { json::object o { { "k", s } }; return val(o.at("k")); });
            vs.run("value list", [&] { json::value o { { "k", s }, { "j", 1 } }; return val(o.at("k")); });
            src.add(shown(s), "lvalue into object");
        }
        if constexpr (Rv) {
            vs.run("rvalue", [&] { json::value v(fresh()); return val(v); });
            vs.run("moved", [&] { T s = fresh(); json::value v(std::move(s)); return val(v); });
            vs.run("assigned rvalue", [&] { json::value v(1); v = fresh(); return val(v); });
            vs.run("array.emplace_back(rvalue)", [&] { json::array a; a.emplace_back(fresh()); return val(a.at(0)); });
            vs.run("object.emplace(rvalue)", [&] { json::object o; o.emplace("k", fresh()); return val(o.at("k")); });
            vs.run("object subscript rvalue", [&] { json::object o; o["k"] = fresh(); return val(o.at("k")); });
            if constexpr (Copy) {
                T s = fresh();
                T keep = s;
                vs.run("moved, shared", [&] { json::value v(std::move(s)); return val(v); });
                src.add(shown(keep), "what shares with the moved one");
                if constexpr (ConstRv) {
                    const T cs = keep;
                    vs.run("const rvalue", [&] { json::value v(std::move(cs)); return val(v); });
                    src.add(shown(cs), "const rvalue");
                }
                T s2 = keep;
                vs.run("assigned moved, shared", [&] { json::value v; v = std::move(s2); return val(v); });
                T s3 = keep;
                vs.run("array.emplace_back(moved, shared)", [&] { json::array a; a.emplace_back(std::move(s3)); return val(a.at(0)); });
                T s4 = keep;
                vs.run("object.emplace(moved, shared)", [&] { json::object o; o.emplace("k", std::move(s4)); return val(o.at("k")); });
                src.add(shown(keep), "what shares with the inserted one");
            }
        }
        if constexpr (K == 'a') {
            const T s = fresh();
            vs.run("array(const lvalue)", [&] { json::array a(s); return ok(mj::array_json(a)); });
            src.add(shown(s), "array(const lvalue)");
            T l = fresh();
            vs.run("array(lvalue)", [&] { json::array a(l); return ok(mj::array_json(a)); });
            src.add(shown(l), "array(lvalue)");
            if constexpr (Copy && Rv) {
                vs.run("array = lvalue", [&] { json::array a { 1, 2 }; a = l; return ok(mj::array_json(a)); });
                src.add(shown(l), "array = lvalue");
            }
            if constexpr (Rv) {
                vs.run("array(rvalue)", [&] { json::array a(fresh()); return ok(mj::array_json(a)); });
                vs.run("array = rvalue", [&] { json::array a { 1, 2 }; a = fresh(); return ok(mj::array_json(a)); });
                if constexpr (Copy) {
                    T keep = l;
                    vs.run("array(moved, shared)", [&] { json::array a(std::move(l)); return ok(mj::array_json(a)); });
                    src.add(shown(keep), "what shares with array(moved)");
                }
            }
        }
        if constexpr (K == 'o') {
            const T s = fresh();
            vs.run("object(const lvalue)", [&] { json::object o(s); return ok(mj::object_json(o)); });
            src.add(shown(s), "object(const lvalue)");
            T l = fresh();
            vs.run("object(lvalue)", [&] { json::object o(l); return ok(mj::object_json(o)); });
            src.add(shown(l), "object(lvalue)");
            if constexpr (Copy && Rv) {
                vs.run("object = lvalue", [&] { json::object o { { "k", 1 } }; o = l; return ok(mj::object_json(o)); });
                src.add(shown(l), "object = lvalue");
            }
            if constexpr (Rv) {
                vs.run("object(rvalue)", [&] { json::object o(fresh()); return ok(mj::object_json(o)); });
                vs.run("object = rvalue", [&] { json::object o { { "k", 1 } }; o = fresh(); return ok(mj::object_json(o)); });
                if constexpr (Copy) {
                    T keep = l;
                    vs.run("object(moved, shared)", [&] { json::object o(std::move(l)); return ok(mj::object_json(o)); });
                    src.add(shown(keep), "what shares with object(moved)");
                }
            }
        }
        if constexpr (Rd) {
            std::optional<json::value> made;
            try {
                const T s = fresh();
                made.emplace(s);
            }
            catch (const json::exception&) {
            }
            if (made) {
                read_back(*made, back);
            }
        }
        return "{\"v\":" + vs.json() + ",\"src\":" + src.json() + ",\"back\":" + back.json() + "}";
    }
    static void read_back(const json::value& v, Outcomes& back)
    {
        const std::string before = mj::value_json(v);
        back.run("as", [&] { return ok(shown(v.template as<T>())); });
        back.run("rvalue as", [&] { json::value c(v); return ok(shown(std::move(c).template as<T>())); });
        back.run("cast", [&] { return ok(shown(cast<T>(v))); });
        back.run("rvalue cast", [&] { json::value c(v); return ok(shown(cast<T>(std::move(c)))); });
        if constexpr (has_accessor<T>) {
            back.run("accessor", [&] { return ok(shown(accessor<T>(v))); });
        }
        back.run("assigned", [&] { T t {}; t = v.template as<T>(); return ok(shown(t)); });
        back.run("parsed", [&] {
            auto p = json::parse("[" + v.dumps() + "]");
            return p ? ok(shown(p->as_array().at(0).template as<T>())) : std::string("[\"rej\"]");
        });
        back.run("parsed pretty", [&] {
            auto p = json::parse("{\"k\":" + v.format(3) + "}");
            return p ? ok(shown(p->at("k").template as<T>())) : std::string("[\"rej\"]");
        });
        back.run("find", [&] {
            json::array a { json::value(v) };
            auto f = a.template find<T>(0);
            return f ? ok(shown(*f)) : std::string("[\"none\"]");
        });
        if constexpr (K == 'a') {
            back.run("array.as", [&] { return ok(shown(v.as_array().template as<T>())); });
            back.run("array cast", [&] { return ok(shown(static_cast<T>(v.as_array()))); });
            back.run("rvalue array.as", [&] { json::array a(v.as_array()); return ok(shown(std::move(a).template as<T>())); });
            back.run("rvalue array cast", [&] { json::array a(v.as_array()); return ok(shown(static_cast<T>(std::move(a)))); });
        }
        if constexpr (K == 'o') {
            back.run("object.as", [&] { return ok(shown(v.as_object().template as<T>())); });
            back.run("object cast", [&] { return ok(shown(static_cast<T>(v.as_object()))); });
            back.run("rvalue object.as", [&] { json::object a(v.as_object()); return ok(shown(std::move(a).template as<T>())); });
            back.run("rvalue object cast", [&] { json::object a(v.as_object()); return ok(shown(static_cast<T>(std::move(a)))); });
        }
        if (mj::value_json(v) != before) {
            back.add("[\"changed\"]", "the JSON value");
        }
    }
#endif

#ifdef TY_CONV
    static std::string conv(const Node& q)
    {
        if constexpr (!Rd) {
            bad("type cannot be read");
        }
        else {
            const json::value v = mj::build(q["v"]);
            const std::string before = mj::value_json(v);
            Outcomes is, as, mv, find, all;
            is.run("is", [&] { return yes(v.template is<T>()); });
            is.run("is of a copy", [&] { json::value c(v); return yes(c.template is<T>()); });
            as.run("as", [&] { return ok(shown(v.template as<T>())); });
            as.run("rvalue as", [&] { json::value c(v); return ok(shown(std::move(c).template as<T>())); });
            as.run("lvalue as", [&] { json::value c(v); std::string r = ok(shown(c.template as<T>())); return mj::value_json(c) == before ? r : "[\"changed\"]"; });
            as.run("cast", [&] { return ok(shown(cast<T>(v))); });
            if constexpr (has_accessor<T>) {
                as.run("accessor", [&] { return ok(shown(accessor<T>(v))); });
            }
            as.run("explicit", [&] { T t(cast<T>(v)); return ok(shown(t)); });
            mv.run("rvalue cast", [&] { json::value c(v); return ok(shown(cast<T>(std::move(c)))); });
            auto f = [&](const char* how, auto&& g) {
                find.run(how, [&] { std::optional<T> o = g(); return o ? ok(shown(*o)) : std::string("[\"none\"]"); });
            };
            const json::value arr = json::array { json::value("x"), json::value(v), json::value(1) };
            const json::value obj = json::object { { "j", json::value() }, { "k", json::value(v) }, { "l", json::value(1) } };
            f("value.find position", [&] { return arr.template find<T>(1); });
            f("array.find", [&] { return arr.as_array().template find<T>(1); });
            f("value.find key", [&] { return obj.template find<T>("k"); });
            f("object.find", [&] { return obj.as_object().template find<T>("k"); });
            Outcomes missing, get;
            if constexpr (Copy && !std::is_same_v<T, std::nullptr_t> && !std::is_same_v<T, std::filesystem::path>) {
                const T dflt {};
                auto h = [&](const char* how, auto&& r) { get.add(ok(shown(r)), how); };
                try {
                    h("value.get position", arr.get(1, dflt));
                    h("array.get", arr.as_array().get(1, dflt));
                    h("value.get key", obj.get("k", dflt));
                    h("object.get", obj.as_object().get(std::string("k"), dflt));
                }
                catch (const std::exception&) {
                    get.add("[\"exc\"]", "get");
                }
            }
            auto g = [&](const char* how, auto&& h) {
                missing.run(how, [&] { std::optional<T> o = h(); return o ? ok(shown(*o)) : std::string("[\"none\"]"); });
            };
            g("position", [&] { return arr.template find<T>(3); });
            g("array position", [&] { return arr.as_array().template find<T>(3); });
            g("key", [&] { return obj.template find<T>("kk"); });
            g("object key", [&] { return obj.as_object().template find<T>(""); });
            g("key of an array", [&] { return arr.template find<T>("k"); });
            g("position in an object", [&] { return obj.template find<T>(1); });
            all.run("all", [&] { return yes(v.template all<T>()); });
            if (v.is_array()) {
                all.run("array.all", [&] { return yes(v.as_array().template all<T>()); });
            }
            if (v.is_object()) {
                all.run("object.all", [&] { return yes(v.as_object().template all<T>()); });
            }
            if (mj::value_json(v) != before) {
                as.add("[\"changed\"]", "the JSON value");
            }
            return "{\"is\":" + is.json() + ",\"as\":" + as.json() + ",\"mv\":" + mv.json() + ",\"find\":" + find.json() + ",\"get\":" + get.json() + ",\"miss\":" + missing.json()
                   + ",\"all\":" + all.json() + "}";
        }
    }
#endif

#ifdef TY_FLAT
    // reflected structs only, a few ways
    static std::string flat(const Node& q)
    {
        const Node& x = q["x"];
        Outcomes vs, src, back;
        const T s = make<T>(x);
        vs.run("to_json", [&] { return val(s.to_json()); });
        vs.run("value", [&] { json::value v(s); return val(v); });
        vs.run("value(rvalue)", [&] { json::value v(make<T>(x)); return val(v); });
        src.add(shown(s), "const lvalue");
        std::optional<json::value> v;
        try {
            v.emplace(s.to_json());
        }
        catch (const json::exception&) {
        }
        if (v) {
            back.run("as", [&] { return ok(shown(v->template as<T>())); });
            back.run("from_json", [&] { T t {}; return t.from_json(*v) ? ok(shown(t)) : std::string("[\"rej\"]"); });
            back.run("parsed", [&] {
                auto p = json::parse(v->dumps());
                return p ? ok(shown(static_cast<T>(*p))) : std::string("[\"rej\"]");
            });
        }
        return "{\"v\":" + vs.json() + ",\"src\":" + src.json() + ",\"back\":" + back.json() + "}";
    }
#endif

#ifdef TY_REC
    static std::string key(const std::string& s) { return mj::bytes_json(s); }
    static std::string rec(const Node& q)
    {
        const json::value v = mj::build(q["v"]);
        const std::string before = mj::value_json(v);
        Outcomes chk, from, simple;
        const T x0 = make<T>(q["x"]);
        chk.run("check_json", [&] {
            std::string ek = "unset";
            bool r = x0.check_json(v, ek);
            return r ? std::string("[\"b\",true]") : "[\"no\"," + key(ek) + "]";
        });
        from.run("from_json", [&] {
            T x = make<T>(q["x"]);
            std::string ek = "unset";
            bool r = x.from_json(v, ek);
            return (r ? std::string("[\"ok\",") : "[\"no\"," + key(ek) + ",") + shown(x) + "]";
        });
        simple.run("check_json", [&] { return yes(x0.check_json(v)); });
        simple.run("from_json", [&] { T x = make<T>(q["x"]); return yes(x.from_json(v)); });
        simple.run("is", [&] { return yes(v.template is<T>()); });
        Outcomes as;
        as.run("as", [&] { return ok(shown(v.template as<T>())); });
        as.run("rvalue as", [&] { json::value c(v); return ok(shown(std::move(c).template as<T>())); });
        as.run("cast", [&] { return ok(shown(cast<T>(v))); });
        as.run("default from_json", [&] { T x {}; return x.from_json(v) ? ok(shown(x)) : std::string("[\"jexc\"]"); });
        if (v.is_object()) {
            as.run("object cast", [&] { return ok(shown(static_cast<T>(v.as_object()))); });
        }
        if (mj::value_json(v) != before) {
            as.add("[\"changed\"]", "the JSON value");
        }
        return "{\"chk\":" + chk.json() + ",\"from\":" + from.json() + ",\"simple\":" + simple.json() + ",\"as\":" + as.json() + "}";
    }
#endif

    static std::string handle(const Node& q)
    {
        const std::string& op = q["op"].s;
#ifdef TY_FAULT
        g_checks = q.has("chk");
#endif
#ifdef TY_JSON
        if (op == "tojson") {
            return tojson(q);
        }
#endif
#ifdef TY_FLAT
        if constexpr (Rec<T>::value) {
            if (op == "tojson") {
                return flat(q);
            }
        }
#endif
#ifdef TY_CONV
        if (op == "conv") {
            return conv(q);
        }
#endif
#ifdef TY_REC
        if constexpr (Rec<T>::value) {
            if (op == "rec") {
                return rec(q);
            }
        }
#endif
        bad("unknown operation");
    }
};

using Handler = std::string (*)(const Node&);
std::vector<Handler>& table();
struct Register
{
    Register(size_t i, Handler h)
    {
        auto& t = table();
        if (t.size() <= i) {
            t.resize(i + 1);
        }
        t[i] = h;
    }
};
} // namespace ty
