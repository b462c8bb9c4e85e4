// Shared by the harnesses: a small JSON reader for requests (independent of the library under test), and the
// projection of a json::value onto the abstract state of the specification (JsonValue.tla), through the public API only.
#pragma once
#include <cerrno>
#include <clocale>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <locale>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <sys/time.h>
#include <vector>

#include "json.hpp"

namespace mj
{
struct Node
{
    enum T { Nul, Bool, Int, Str, Arr, Obj } t = Nul;
    bool b = false;
    long long i = 0;
    std::string s;
    std::vector<Node> a;
    std::vector<std::string> ks; // members: names and values
    std::vector<Node> vs;

    template <typename I, std::enable_if_t<std::is_integral_v<I>, bool> = true>
    const Node& operator[](I n) const
    {
        return a.at(static_cast<size_t>(n));
    }
    const Node& operator[](const char* k) const
    {
        for (size_t j = 0; j < ks.size(); ++j) {
            if (ks[j] == k) {
                return vs[j];
            }
        }
        fprintf(stderr, "harness: request lacks %s\n", k);
        exit(99);
    }
    bool has(const char* k) const
    {
        for (auto& m : ks) {
            if (m == k) {
                return true;
            }
        }
        return false;
    }
    // a sequence of byte numbers, as text
    std::string bytes() const
    {
        std::string r;
        r.reserve(a.size());
        for (auto& x : a) {
            r.push_back(static_cast<char>(static_cast<unsigned char>(x.i)));
        }
        return r;
    }
    size_t size() const { return a.size(); }
};

struct Reader
{
    const char* p;
    const char* e;
    [[noreturn]] void fail()
    {
        fprintf(stderr, "harness: malformed request near: %.60s\n", p);
        exit(99);
    }
    void ws()
    {
        while (p != e && (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r')) {
            ++p;
        }
    }
    std::string str()
    {
        std::string r;
        ++p;
        while (p != e && *p != '"') {
            if (*p == '\\') {
                ++p;
                switch (*p) {
                case 'n': r.push_back('\n'); break;
                case 't': r.push_back('\t'); break;
                default: r.push_back(*p);
                }
                ++p;
            }
            else {
                r.push_back(*p++);
            }
        }
        if (p == e) {
            fail();
        }
        ++p;
        return r;
    }
    Node read()
    {
        ws();
        Node n;
        if (p == e) {
            fail();
        }
        switch (*p) {
        case '[':
            n.t = Node::Arr;
            ++p;
            ws();
            if (*p == ']') {
                ++p;
                return n;
            }
            while (true) {
                n.a.push_back(read());
                ws();
                if (*p == ',') {
                    ++p;
                }
                else if (*p == ']') {
                    ++p;
                    return n;
                }
                else {
                    fail();
                }
            }
        case '{':
            n.t = Node::Obj;
            ++p;
            ws();
            if (*p == '}') {
                ++p;
                return n;
            }
            while (true) {
                ws();
                auto k = str();
                ws();
                if (*p++ != ':') {
                    fail();
                }
                n.ks.push_back(std::move(k));
                n.vs.push_back(read());
                ws();
                if (*p == ',') {
                    ++p;
                }
                else if (*p == '}') {
                    ++p;
                    return n;
                }
                else {
                    fail();
                }
            }
        case '"':
            n.t = Node::Str;
            n.s = str();
            return n;
        case 't':
            n.t = Node::Bool;
            n.b = true;
            p += 4;
            return n;
        case 'f':
            n.t = Node::Bool;
            p += 5;
            return n;
        case 'n':
            p += 4;
            return n;
        default: {
            n.t = Node::Int;
            char* q = nullptr;
            n.i = strtoll(p, &q, 10);
            if (q == p) {
                fail();
            }
            p = q;
            return n;
        }
        }
    }
};

inline Node read_line(const std::string& line)
{
    Reader r { line.data(), line.data() + line.size() };
    return r.read();
}

// ---- output ----
inline void put_bytes(std::string& out, const char* p, size_t n)
{
    out.push_back('[');
    char buf[8];
    for (size_t i = 0; i < n; ++i) {
        if (i) {
            out.push_back(',');
        }
        unsigned v = static_cast<unsigned char>(p[i]);
        int k = 0;
        if (v >= 100) {
            buf[k++] = static_cast<char>('0' + v / 100);
        }
        if (v >= 10) {
            buf[k++] = static_cast<char>('0' + v / 10 % 10);
        }
        buf[k++] = static_cast<char>('0' + v % 10);
        out.append(buf, k);
    }
    out.push_back(']');
}
inline void put_bytes(std::string& out, const std::string& s) { put_bytes(out, s.data(), s.size()); }
inline std::string bytes_json(const std::string& s)
{
    std::string r;
    put_bytes(r, s);
    return r;
}

// ---- projection of a value onto the abstract state ----
inline void put_value(std::string& out, const json::value& v)
{
    const int flags = v.is_null() + v.is_boolean() * 2 + v.is_number() * 4 + v.is_string() * 8 + v.is_array() * 16 + v.is_object() * 32;
    using T = json::value::value_type;
    switch (v.type()) {
    case T::null:
        out += flags == 1 && v.valid() && v.empty() ? "[\"z\"]" : "[\"bad\"]";
        break;
    case T::boolean:
        out += flags == 2 && v.valid() && !v.empty() ? (v.as_boolean() ? "[\"b\",true]" : "[\"b\",false]") : "[\"bad\"]";
        break;
    case T::number:
        if (flags != 4 || !v.valid() || v.empty()) {
            out += "[\"bad\"]";
            break;
        }
        out += "[\"n\",";
        put_bytes(out, v.to_string());
        out += "]";
        break;
    case T::string: {
        std::string s = v.as_string();
        if (flags != 8 || !v.valid() || v.empty() != s.empty() || v.as_string_view() != s) {
            out += "[\"bad\"]";
            break;
        }
        out += "[\"s\",";
        put_bytes(out, s);
        out += "]";
        break;
    }
    case T::array: {
        const json::array& a = v.as_array();
        if (flags != 16 || !v.valid() || v.empty() != (a.size() == 0)) {
            out += "[\"bad\"]";
            break;
        }
        out += "[\"a\",[";
        bool first = true;
        for (const auto& x : a) {
            if (!first) {
                out.push_back(',');
            }
            first = false;
            put_value(out, x);
        }
        out += "]]";
        break;
    }
    case T::object: {
        const json::object& o = v.as_object();
        if (flags != 32 || !v.valid() || v.empty() != (o.size() == 0)) {
            out += "[\"bad\"]";
            break;
        }
        out += "[\"o\",[";
        bool first = true;
        for (const auto& [k, x] : o) {
            if (!first) {
                out.push_back(',');
            }
            first = false;
            out += "[";
            put_bytes(out, k);
            out += ",";
            put_value(out, x);
            out += "]";
        }
        out += "]]";
        break;
    }
    default:
        out += "[\"inv\"]";
    }
}
inline std::string value_json(const json::value& v)
{
    std::string r;
    put_value(r, v);
    return r;
}
inline std::string array_json(const json::array& a)
{
    std::string out = "[\"a\",[";
    bool first = true;
    for (const auto& x : a) {
        if (!first) {
            out.push_back(',');
        }
        first = false;
        put_value(out, x);
    }
    return out + "]]";
}
inline std::string object_json(const json::object& o)
{
    std::string out = "[\"o\",[";
    bool first = true;
    for (const auto& [k, x] : o) {
        if (!first) {
            out.push_back(',');
        }
        first = false;
        out += "[";
        put_bytes(out, k);
        out += ",";
        put_value(out, x);
        out += "]";
    }
    return out + "]]";
}

// ---- construction of a value from its abstract state ----
inline json::value build(const Node& n)
{
    const std::string& t = n[0].s;
    switch (t[0]) {
    case 'z':
        return json::value();
    case 'b':
        return json::value(n[1].b);
    case 'n':
        return json::value(json::value::value_type::number, n[1].bytes());
    case 's':
        return json::value(n[1].bytes());
    case 'a': {
        json::array a;
        for (auto& x : n[1].a) {
            a.emplace_back(build(x));
        }
        return json::value(std::move(a));
    }
    case 'o': {
        json::object o;
        for (auto& m : n[1].a) {
            o.emplace(m[0].bytes(), build(m[1]));
        }
        return json::value(std::move(o));
    }
    default:
        fprintf(stderr, "harness: bad value tag %s\n", t.c_str());
        exit(99);
    }
}

// ---- the same state reached by changing another one in place, part by part, with everything read in between ----
inline json::value other_state(const Node& n, int how)
{
    const std::string& t = n[0].s;
    if (t[0] == 'a') {
        json::array a;
        for (auto& x : n[1].a) {
            a.emplace_back(other_state(x, how));
        }
        if (how & 1) {
            a.emplace_back("one more");
        }
        return json::value(std::move(a));
    }
    if (t[0] == 'o') {
        json::object o;
        for (auto& m : n[1].a) {
            o.emplace(m[0].bytes(), other_state(m[1], how));
        }
        if (how & 1) {
            o.emplace("one more", true);
        }
        return json::value(std::move(o));
    }
    switch (how % 3) {
    case 0:
        return json::value(7);
    case 1:
        return json::value("other");
    default:
        return json::value(json::array { 1, json::object { { "x", 2 } } });
    }
}
inline size_t read_all(const json::value& v)
{
    const json::value copy(v);
    std::ostringstream s;
    s << v;
    size_t r = v.to_string().size() + v.format(2).size() + v.dumps().size() + s.str().size() + (v == copy) + v.empty() + v.value_info().size();
    if (v.is_array()) {
        r += v.as_array().size() + v.as_array().to_string().size();
        for (size_t i = 0; i < v.as_array().size(); ++i) {
            r += v[i].is_null() + v.at(i).valid();
        }
    }
    if (v.is_object()) {
        r += v.as_object().size() + v.as_object().to_string().size();
        for (auto& [k, x] : v.as_object()) {
            r += v.contains(k) + v.at(k).valid() + (v.as_object().find_value(k) == &x);
        }
    }
    return r;
}
inline void become(json::value& v, const Node& n, int how)
{
    const std::string& t = n[0].s;
    if (t[0] == 'a') {
        size_t i = 0;
        if (how >= 2) {
            for (auto& x : v.as_array()) {
                if (i < n[1].size()) {
                    become(x, n[1][i++], how);
                }
            }
        }
        else {
            for (auto& x : n[1].a) {
                become(v[i++], x, how);
            }
        }
        if (how & 1) {
            read_all(v);
            v.as_array().erase(v.as_array().size() - 1);
        }
    }
    else if (t[0] == 'o') {
        bool extra = (how & 1) != 0;
        for (auto& m : n[1].a) {
            extra = extra && m[0].bytes() != "one more";
        }
        if (how >= 2) {
            std::map<std::string, const Node*> to;
            for (auto& m : n[1].a) {
                to[m[0].bytes()] = &m[1];
            }
            for (auto& [k, x] : v.as_object()) {
                if (to.count(k)) {
                    become(x, *to[k], how);
                }
            }
        }
        else {
            for (auto& m : n[1].a) {
                become(v[m[0].bytes()], m[1], how);
            }
        }
        if (extra) {
            read_all(v);
            v.as_object().erase("one more");
        }
    }
    else {
        v = build(n);
    }
}
inline void change_in_place(json::value& v, const Node& n, int how)
{
    v = other_state(n, how);
    read_all(v);
    const json::value held(v);
    become(v, n, how);
}

// The implementation did not build what the request says: what has to be there is not.
struct Unreal
{
    const char* what;
};

// ---- what results must not depend on: errno, the C locale, the global C++ locale ----
struct OddPunct : std::numpunct<char>
{
    char do_decimal_point() const override { return '#'; }
    char do_thousands_sep() const override { return '\''; }
    std::string do_grouping() const override { return "\1"; }
    std::string do_truename() const override { return "vrai"; }
    std::string do_falsename() const override { return "faux"; }
};
struct OddCtype : std::ctype<char>
{
    OddCtype() : std::ctype<char>(odd_table()) {}
    char do_toupper(char c) const override { return c == 'z' ? 'A' : static_cast<char>(c + 1); }
    char do_tolower(char c) const override { return c == 'Z' ? 'a' : static_cast<char>(c - 1); }
    const char* do_toupper(char* b, const char* e) const override { for (; b != e; ++b) { *b = do_toupper(*b); } return e; }
    const char* do_tolower(char* b, const char* e) const override { for (; b != e; ++b) { *b = do_tolower(*b); } return e; }
    static const mask* odd_table()
    {
        static mask t[table_size];
        for (size_t i = 0; i < table_size; ++i) {
            t[i] = i % 3 == 0 ? space : i % 3 == 1 ? static_cast<mask>(digit | xdigit) : static_cast<mask>(cntrl | alpha);
        }
        return t;
    }
};
inline void set_c_locale(const char* name)
{
    if (!setlocale(LC_ALL, name)) {
        fprintf(stderr, "harness: no locale %s\n", name);
        exit(99);
    }
}
inline void set_cpp_locale(const std::string& kind)
{
    static const std::locale punct(std::locale::classic(), new OddPunct), both(punct, new OddCtype);
    std::string c = setlocale(LC_ALL, nullptr);
    std::locale::global(kind == "punct" ? punct : kind == "both" ? both : std::locale::classic());
    set_c_locale(c.c_str()); // only the C++ locale
}
inline void set_errno(int k)
{
    static const int e[] = { 0, ERANGE, EDOM, EINVAL, -1 };
    errno = e[k % 5];
}
// A different environment for every request; the locales only where MJ_LOCALES names them.
inline void vary_environment(long n)
{
    static const std::vector<std::string> names = [] {
        std::vector<std::string> r;
        std::istringstream in(getenv("MJ_LOCALES") ? getenv("MJ_LOCALES") : "");
        for (std::string w; std::getline(in, w, ',');) {
            r.push_back(w);
        }
        return r;
    }();
    if (!names.empty()) {
        static const char* kinds[] = { "punct", "classic", "both" };
        set_cpp_locale(kinds[n / names.size() % 3]);
        set_c_locale(names[n % names.size()].c_str());
    }
    set_errno(static_cast<int>(n % 5));
}

// Reads requests (one per line) from argv[1], writes one response line each to argv[2], from request argv[3] on. A request must
// not use more than a minute of processor time (they take milliseconds).
using Handler = std::function<std::string(const Node&)>;
inline int serve_requests(int argc, char** argv, const Handler& handle)
{
    if (argc < 3) {
        return 99;
    }
    std::ifstream in(argv[1]);
    FILE* out = fopen(argv[2], "a");
    long from = argc > 3 ? atol(argv[3]) : 0;
    if (!in || !out) {
        return 99;
    }
    std::string line;
    for (long n = 0; std::getline(in, line); ++n) {
        if (n < from || line.empty()) {
            continue;
        }
        Node req = read_line(line);
        itimerval tv {};
        tv.it_value.tv_sec = 60;
        setitimer(ITIMER_PROF, &tv, nullptr);
        std::string r;
        vary_environment(n);
        try {
            r = handle(req);
        }
        catch (const Unreal& u) {
            r = std::string("{\"crash\":\"") + u.what + "\"}";
        }
        r.push_back('\n');
        fwrite(r.data(), 1, r.size(), out);
        fflush(out);
    }
    fclose(out);
    return 0;
}
#ifdef MJ_REGISTER
// Several harnesses in one program: each only makes its handler known.
inline Handler& registered()
{
    static Handler h;
    return h;
}
inline int serve(int, char**, const Handler& handle)
{
    registered() = handle;
    return 0;
}
#else
inline int serve(int argc, char** argv, const Handler& handle) { return serve_requests(argc, argv, handle); }
#endif

// what a call throws, as a tag
template <typename F>
inline std::string guarded(F&& f)
{
    try {
        return f();
    }
    catch (const Unreal&) {
        throw;
    }
    catch (const json::exception&) {
        return "[\"jexc\"]";
    }
    catch (const std::exception&) {
        return "[\"sexc\"]";
    }
    catch (...) {
        return "[\"oexc\"]";
    }
}
} // namespace mj
