// Compares pairs of values, each built in several ways, in every direction and through every type.
#include "mj.hpp"
#include <deque>
using namespace mj;

static json::value lit(const Node& n)
{
    json::value v("previous content");
    switch (n[0].s[0]) {
    case 'z': v = nullptr; break;
    case 'b': v = n[1].b; break;
    case 'n': {
        const std::string t = n[1].bytes();
        const long long i = atoll(t.c_str());
        if (std::to_string(i) == t) {
            v = i;
        }
        else {
            v = build(n);
        }
        break;
    }
    case 's': {
        const std::string t = n[1].bytes();
        if (t.find('\0') == std::string::npos) {
            v = t.c_str();
        }
        else {
            v = std::string_view(t);
        }
        break;
    }
    case 'a': {
        v.clear();
        (void)v.as_array();
        for (auto& e : n[1].a) {
            v.emplace(lit(e));
        }
        break;
    }
    default:
        v.clear();
        (void)v.as_object();
        for (auto it = n[1].a.rbegin(); it != n[1].a.rend(); ++it) {
            v[(*it)[0].bytes()] = lit((*it)[1]);
        }
    }
    return v;
}
// members and elements come and go
static json::value churn(const Node& n)
{
    if (n[0].s == "a") {
        json::array a;
        a.push_back("first");
        for (auto& e : n[1].a) {
            a.push_back("gone");
            a.push_back(churn(e));
            a.erase(a.size() - 2);
        }
        a.erase(0);
        return a;
    }
    if (n[0].s == "o") {
        json::object o;
        for (int i = 0; i < 20; ++i) {
            o.emplace("extra" + std::to_string(i), i);
        }
        for (auto it = n[1].a.rbegin(); it != n[1].a.rend(); ++it) {
            o.emplace((*it)[0].bytes(), "other");
            o.insert((*it)[0].bytes(), churn((*it)[1]));
        }
        for (int i = 0; i < 20; ++i) {
            o.erase("extra" + std::to_string(i));
        }
        return o;
    }
    json::value v = build(n);
    json::value w = json::array { 1, 2 };
    w = v;
    return w;
}
static json::value way(const Node& n, int k)
{
    switch (k) {
    case 0:
        return build(n);
    case 1: {
        auto p = json::parse(json::array { build(n), 1 }.to_string());
        if (!p) {
            return json::value(json::value::value_type::invalid, std::string());
        }
        return json::value(std::as_const(*p)[0]);
    }
    case 2: {
        json::value x = build(n);
        json::value y(x);
        json::value z;
        z = y;
        return z;
    }
    case 3:
        return lit(n);
    case 4:
        return churn(n);
    case 5: {
        json::value x = build(n), y = json::object { { "a", 1 } };
        y = std::move(x);
        json::value z(std::move(y));
        std::swap(x, z);
        return x;
    }
    default: { // parsed from the pretty text, taken out of an object
        json::object o;
        o["k"] = build(n);
        auto p = json::parse(o.format(3));
        if (!p) {
            return json::value(json::value::value_type::invalid, std::string());
        }
        return std::move((*p)["k"]);
    }
    }
}
constexpr int Made = 7, Ways = Made + 2;
static void all_ways(std::deque<json::value>& out, const Node& n)
{
    for (int k = 0; k < Made; ++k) {
        out.push_back(way(n, k));
    }
    for (int how : { 1, 2 }) {
        out.emplace_back();
        change_in_place(out.back(), n, how);
    }
}

int main(int argc, char** argv)
{
    return serve(argc, argv, [](const Node& q) -> std::string {
        std::deque<json::value> vs;
        all_ways(vs, q["v"]);
        std::string r = "[";
        for (auto& wn : q["ws"].a) {
            std::deque<json::value> ws;
            all_ways(ws, wn);
            int yes = 0, no = 0;
            auto see = [&](bool eq, bool ne) {
                (eq ? yes : no)++;
                (ne ? no : yes)++;
            };
            std::string one = guarded([&]() -> std::string {
                for (int i = 0; i < Ways; ++i) {
                    for (int j = 0; j < Ways; ++j) {
                        const json::value &x = vs[i], &y = ws[j];
                        see(x == y, x != y);
                        see(y == x, y != x);
                        if (x.is_array() && y.is_array()) {
                            see(x.as_array() == y.as_array(), x.as_array() != y.as_array());
                        }
                        if (x.is_object() && y.is_object()) {
                            see(x.as_object() == y.as_object(), x.as_object() != y.as_object());
                        }
                    }
                }
                return yes && no ? "\"mixed\"" : yes ? "true" : "false";
            });
            r += (r.size() > 1 ? "," : "") + one;
        }
        return r + "]";
    });
}
