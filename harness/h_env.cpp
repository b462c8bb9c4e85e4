// Histories of calls between which the environment changes: errno, the C locale, the global C++ locale.
#define TY_JSON
#include "types.hpp"
#include <charconv>
#include <map>
#include <optional>
#include <vector>

std::vector<ty::Handler>& ty::table()
{
    static std::vector<ty::Handler> t;
    return t;
}

namespace
{
using mj::Node;

// digits * 10^exp as a floating-point value, whatever the locale
template <typename F>
F exact(const Node& d)
{
    std::string s = (d[1].b ? "-" : "") + d[2].bytes() + "e" + std::to_string(d[3].i);
    F x {};
    auto r = std::from_chars(s.data(), s.data() + s.size(), x);
    if (r.ec != std::errc() || r.ptr != s.data() + s.size()) {
        ty::bad("no such number");
    }
    return x;
}

std::string texts(const json::value& v, const json::value& in_array, const json::value& in_object)
{
    ty::Outcomes w;
    auto one = [&](const char* how, auto&& f) { w.run(how, [&] { return ty::ok(mj::bytes_json(f())); }); };
    auto inner = [](const std::string& s, size_t a, size_t b) { return s.size() >= a + b ? s.substr(a, s.size() - a - b) : s; };
    one("to_string", [&] { return v.to_string(); });
    one("dumps", [&] { return v.dumps(); });
    one("dumps 2", [&] { return v.dumps(2); });
    one("format", [&] { return v.format(); });
    one("<<", [&] { std::ostringstream s; s << v; return s.str(); });
    one("<< array", [&] { std::ostringstream s; s << in_array.as_array(); return inner(s.str(), 6, 2); });
    one("array", [&] { return inner(in_array.to_string(), 1, 1); });
    one("array format", [&] { return inner(in_array.format(1), 3, 2); });
    one("object", [&] { return inner(in_object.dumps(), 5, 1); });
    one("parsed", [&] { return json::parse(in_array.to_string()).value().at(0).to_string(); });
    one("parsed with comments", [&] { return json::parsec(in_object.format()).value().at("k").to_string(); });
    return w.json();
}

template <typename T>
std::string shown(const T& x)
{
    std::string s;
    ty::show(s, x);
    return ty::ok(s);
}

template <typename T>
std::string readings(const json::value& v)
{
    ty::Outcomes w;
    const json::value a = json::array { v };
    const json::value o = json::object { { "k", v } };
    auto no = [] { return std::string("[\"jexc\"]"); };
    w.run("as", [&] { return shown(v.as<T>()); });
    w.run("accessor", [&] { return shown(ty::accessor<T>(v)); });
    w.run("cast", [&] { return shown(static_cast<T>(v)); });
    w.run("is", [&] { return v.is<T>() ? shown(v.as<T>()) : no(); });
    w.run("find", [&] { auto f = a.find<T>(0); return f ? shown(*f) : no(); });
    w.run("find key", [&] { auto f = o.find<T>("k"); return f ? shown(*f) : no(); });
    w.run("all", [&] { return a.all<T>() ? shown(a.at(0).as<T>()) : no(); });
    w.run("vector", [&] { return shown(a.as<std::vector<T>>().at(0)); });
    w.run("map", [&] { return shown(o.as<std::map<std::string, T>>().at("k")); });
    w.run("optional", [&] { return shown(*v.as<std::optional<T>>()); });
    w.run("parsed", [&] { return shown(json::parse(a.to_string()).value().at(0).as<T>()); });
    return w.json();
}

struct History
{
    json::value last = 0;

    template <typename T>
    std::string write(const T& x)
    {
        last = json::value(x);
        return texts(last, json::array { x }, json::object { { "k", x } });
    }

    std::string step(const Node& s)
    {
        const std::string& n = s[0].s;
        if (n == "c" || n == "cpp" || n == "err") {
            n == "c" ? mj::set_c_locale(s[1].s.c_str()) : n == "cpp" ? mj::set_cpp_locale(s[1].s) : mj::set_errno(s[1].s[0] - 48);
            return "[]";
        }
        if (n == "dump") { // what was written before, perhaps in another environment
            return texts(last, json::array { last }, json::object { { "k", last } });
        }
        const std::string& k = s[1].s;
        if (n == "w") {
            return k == "f32" ? write(exact<float>(s[2])) : k == "f64" ? write(exact<double>(s[2])) : write(exact<long double>(s[2]));
        }
        if (n == "wi") {
            const std::string t = s[2].bytes();
            return k == "i32"   ? write(static_cast<int>(strtoll(t.c_str(), nullptr, 10)))
                   : k == "i64" ? write(strtoll(t.c_str(), nullptr, 10))
                                : write(strtoull(t.c_str(), nullptr, 10));
        }
        if (n == "t") {
            auto v = json::parse("[" + s[1].bytes() + "]");
            last = v ? v->at(0) : json::value();
            return texts(last, json::array { last }, json::object { { "k", last } });
        }
        if (n == "r") {
            const json::value v = last;
            return k == "f32"   ? readings<float>(v)
                   : k == "f64" ? readings<double>(v)
                   : k == "f80" ? readings<long double>(v)
                   : k == "i32" ? readings<int>(v)
                   : k == "i64" ? readings<long long>(v)
                                : readings<unsigned long long>(v);
        }
        ty::bad("no such step");
    }
};
} // namespace

int main(int argc, char** argv)
{
    return mj::serve(argc, argv, [](const Node& q) {
        History h;
        std::string out = "[";
        for (size_t i = 0; i < q["h"].size(); ++i) {
            out += (i ? "," : "") + h.step(q["h"][i]);
        }
        mj::set_cpp_locale("classic");
        mj::set_c_locale("C");
        return out + "]";
    });
}
