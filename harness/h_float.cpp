// Writes floating-point values given as bits in every way and reads them back in every way.
#define TY_JSON
#include "types.hpp"
#include <cstring>
#include <map>
#include <optional>
#include <vector>

#ifndef MJ_REGISTER
std::vector<ty::Handler>& ty::table()
{
    static std::vector<ty::Handler> t;
    return t;
}
#endif

namespace
{
using mj::Node;

template <typename F>
std::string bits_of(F x)
{
    unsigned char b[sizeof(F)] = {};
    memcpy(b, &x, sizeof(F));
    size_t n = sizeof(F) == 16 ? 10 : sizeof(F); // long double: ten bytes are the value
    std::string r = "\"";
    char buf[4];
    for (size_t i = n; i > 0; --i) {
        snprintf(buf, sizeof buf, "%02x", b[i - 1]);
        r += buf;
    }
    return r + "\"";
}

unsigned long long mantissa(const Node& m, int n)
{
    const unsigned long long all = n == 64 ? ~0ull : (1ull << n) - 1;
    if (m[0].s == "raw") {
        return strtoull(m[1].bytes().c_str(), nullptr, 16) & all;
    }
    int i = static_cast<int>(m[1].i);
    const std::string& p = m[0].s;
    if (p == "none") { return 0; }
    if (p == "even") { return 0x5555555555555555ull & all; }
    if (p == "odd") { return 0xaaaaaaaaaaaaaaaaull & all; }
    if (p == "one") { return 1ull << i; }
    if (p == "allbut") { return all & ~(1ull << i); }
    if (p == "low") { return i == 63 ? all : ((1ull << (i + 1)) - 1) & all; }
    if (p == "high") { return all & ~((1ull << i) - 1); }
    ty::bad("no such mantissa");
}

template <typename F>
F number(const Node& q)
{
    unsigned long long e = static_cast<unsigned long long>(q["e"].i), s = q["s"].b ? 1 : 0;
    F x {};
    if constexpr (sizeof(F) == 4) {
        uint32_t w = static_cast<uint32_t>(s << 31 | e << 23 | mantissa(q["m"], 23));
        memcpy(&x, &w, 4);
    }
    else if constexpr (sizeof(F) == 8) {
        uint64_t w = s << 63 | e << 52 | mantissa(q["m"], 52);
        memcpy(&x, &w, 8);
    }
    else {
        uint64_t w = (e ? 1ull << 63 : 0) | mantissa(q["m"], 63); // the leading bit is explicit
        uint16_t h = static_cast<uint16_t>(s << 15 | e);
        memcpy(&x, &w, 8);
        memcpy(reinterpret_cast<char*>(&x) + 8, &h, 2);
    }
    return x;
}

std::string token(const json::value& v)
{
    if (!v.is_number()) {
        return "[\"not a number\"]";
    }
    return "[\"ok\"," + mj::bytes_json(v.to_string()) + "]";
}

template <typename F>
std::string run(const Node& q)
{
    const F x = number<F>(q);
    F l = x;
    ty::Outcomes w, back;
    auto read = [&](const json::value& v) {
        back.run("as", [&] { return ty::ok(bits_of(v.as<F>())); });
        back.run("accessor", [&] { return ty::ok(bits_of(ty::accessor<F>(v))); });
        back.run("cast", [&] { return ty::ok(bits_of(static_cast<F>(v))); });
        back.run("is", [&] { return v.is<F>() ? ty::ok(bits_of(x)) : std::string("[\"no\"]"); });
    };
    auto way = [&](const char* how, auto&& f) {
        w.run(how, [&] {
            json::value v = f();
            read(v);
            return token(v);
        });
    };
    way("value", [&] { return json::value(x); });
    way("value(lvalue)", [&] { return json::value(l); });
    way("value(rvalue)", [&] { return json::value(number<F>(q)); });
    way("assigned", [&] { json::value v("s"); v = x; return v; });
    way("element", [&] { return json::array { 1, x }.at(1); });
    way("push_back", [&] { json::array a; a.push_back(x); return a.at(0); });
    way("emplace_back", [&] { json::array a; a.emplace_back(l); return a.at(0); });
    way("member", [&] { return json::object { { "k", x } }.at("k"); });
    way("emplace", [&] { json::object o; o.emplace("k", x); return o.at("k"); });
    way("subscript", [&] { json::value v; v["k"] = 1; v["k"] = x; return v.at("k"); });
    way("vector", [&] { return json::value(std::vector<F> { x, x }).at(1); });
    way("map", [&] { return json::value(std::map<std::string, F> { { "k", x } }).at("k"); });
    way("optional", [&] { return json::value(std::optional<F>(x)); });
    way("array", [&] { return json::value(std::array<F, 1> { x }).at(0); });
    way("pair", [&] { return json::value(std::make_pair(x, 1)).at(0); });
    const json::value root = json::object { { "k", json::array { x, "s" } } };
    way("dumped and parsed", [&] {
        auto p = json::parse(root.dumps());
        return p ? p->at("k").at(0) : json::value();
    });
    way("formatted and parsed", [&] {
        auto p = json::parse(root.format());
        return p ? p->at("k").at(0) : json::value();
    });
    way("dumped and parsed twice", [&] {
        auto p = json::parse(json::parse(root.dumps(2)).value().to_string());
        return p ? p->at("k").at(0) : json::value();
    });
    back.run("find", [&] { return ty::ok(bits_of(*root.at("k").template find<F>(0))); });
    back.run("get", [&] { return ty::ok(bits_of(root.get("k", 0, F(1)))); });
    back.run("vector", [&] { return ty::ok(bits_of(json::value(std::vector<F> { x }).template as<std::vector<F>>().at(0))); });
    back.run("optional", [&] { return ty::ok(bits_of(*json::value(x).template as<std::optional<F>>())); });
    back.run("rvalue as", [&] { return ty::ok(bits_of(json::value(x).template as<F>())); });
    std::string d;
    ty::put_float(d, x);
    return "{\"bits\":" + bits_of(x) + ",\"x\":" + d + ",\"w\":" + w.json() + ",\"back\":" + back.json() + "}";
}
} // namespace

int main(int argc, char** argv)
{
    return mj::serve(argc, argv, [](const Node& q) {
        const std::string& k = q["k"].s;
        return k == "f32" ? run<float>(q) : k == "f64" ? run<double>(q) : run<long double>(q);
    });
}
