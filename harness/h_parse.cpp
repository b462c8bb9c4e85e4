// Parses and serialises on request; reports what the public API returned, in the terms of the specification.
#include "mj.hpp"

#include <deque>
#include <thread>
#include <unistd.h>

using namespace mj;

static uint64_t fnv(const std::string& s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) {
        h = (h ^ c) * 1099511628211ull;
    }
    return h;
}
static std::string digest(const std::string& s)
{
    char b[64];
    snprintf(b, sizeof b, "%016llx.%zu", static_cast<unsigned long long>(fnv(s)), s.size());
    return b;
}

// ["acc", value] / ["rej"] / exception tags
template <typename F>
static std::string outcome(F&& f)
{
    return guarded([&] {
        std::optional<json::value> r = f();
        return r ? "[\"acc\"," + value_json(*r) + "]" : std::string("[\"rej\"]");
    });
}
template <typename F>
static std::string guarded_s(F&& f)
{
    std::string r = guarded(f);
    return r[0] == '[' ? "\"exc\"" : r;
}
// the same, with the value abbreviated by a digest of its projection: "acc:..." / "rej" / exception tags
template <typename F>
static std::string short_outcome(F&& f)
{
    return guarded_s([&] {
        std::optional<json::value> r = f();
        return r ? "\"acc:" + digest(value_json(*r)) + "\"" : std::string("\"rej\"");
    });
}

// The same with the value as a flat list of events in document order, for deeply nested documents.
static void put_flat(std::string& out, const json::value& v)
{
    if (out.size() > 1) {
        out.push_back(',');
    }
    if (v.is_array()) {
        out += "[\"a\"," + std::to_string(v.as_array().size()) + "]";
        for (const auto& x : v.as_array()) {
            put_flat(out, x);
        }
    }
    else if (v.is_object()) {
        out += "[\"o\"," + std::to_string(v.as_object().size()) + "]";
        for (const auto& [k, x] : v.as_object()) {
            out += ",[\"k\"," + bytes_json(k) + "]";
            put_flat(out, x);
        }
    }
    else {
        put_value(out, v);
    }
}
template <typename F>
static std::string flat_outcome(F&& f)
{
    return guarded([&] {
        std::optional<json::value> r = f();
        if (!r) {
            return std::string("[\"rej\"]");
        }
        std::string o = "[";
        put_flat(o, *r);
        return "[\"acc\"," + o + "]]";
    });
}

template <typename C>
static std::optional<json::value> run(const C& c, bool jc)
{
#ifdef ACCEL // the parser with the given scanning primitives
    return jc ? json::parser<true, C, ACCEL>::parse(c) : json::parser<false, C, ACCEL>::parse(c);
#else
    return jc ? json::parsec(c) : json::parse(c);
#endif
}

// A view of exactly the document on the heap, at the given offset from a 64-byte boundary, with its own guard zone when built
// with AddressSanitizer.
struct Exact
{
    std::unique_ptr<char[]> mem;
    std::string_view v;
    Exact(const std::string& d)
    {
        mem.reset(new char[d.size()]);
        memcpy(mem.get(), d.data(), d.size());
        v = std::string_view(mem.get(), d.size());
    }
};
struct Embedded
{
    std::string mem;
    std::string_view v;
    Embedded(const std::string& d, size_t off, const std::string& before, const std::string& after)
    {
        mem.assign(256, ' ');
        for (size_t i = 0; i < mem.size(); ++i) {
            mem[i] = before[i % before.size()];
        }
        size_t base = (64 - reinterpret_cast<uintptr_t>(mem.data()) % 64) % 64;
        mem.reserve(d.size() + 512);
        base = (64 - reinterpret_cast<uintptr_t>(mem.data()) % 64) % 64;
        mem.resize(base + off);
        mem += d;
        for (size_t i = 0; i < 128; ++i) {
            mem.push_back(after[i % after.size()]);
        }
        v = std::string_view(mem).substr(base + off, d.size());
    }
};

static std::string do_parse(const Node& q)
{
    const std::string d = q["doc"].bytes();
    Exact x(d);
    if (q.has("flat")) {
        return "{\"s\":" + flat_outcome([&] { return run(x.v, false); }) + ",\"c\":" + flat_outcome([&] { return run(x.v, true); }) + "}";
    }
    if (q.has("both")) {
        return "{\"s\":" + outcome([&] { return run(x.v, false); }) + ",\"c\":" + outcome([&] { return run(x.v, true); }) + "}";
    }
    return outcome([&] { return run(x.v, q["jc"].b); });
}

// Every way of presenting the same bytes. Reports [[outcome, how], ...], one entry for each distinct outcome.
static std::string do_variants(const Node& q)
{
    const std::string d = q["doc"].bytes();
    const size_t off = static_cast<size_t>(q["off"].i);
    std::string res;
    for (int jc = 0; jc < 2; ++jc) {
        std::vector<std::pair<std::string, std::string>> seen;
        auto add = [&](const char* how, std::string o) {
            for (auto& s : seen) {
                if (s.first == o) {
                    return;
                }
            }
            seen.emplace_back(std::move(o), how);
        };
        add("string", short_outcome([&] { return run(d, jc); }));
        add("exact", short_outcome([&] { Exact x(d); return run(x.v, jc); }));
        add("embedded-quotes", short_outcome([&] { Embedded e(d, off, "\"\\", "\"]}\\\""); return run(e.v, jc); }));
        add("embedded-nul", short_outcome([&] { Embedded e(d, off, std::string(1, '\0'), std::string(1, '\0')); return run(e.v, jc); }));
        add("embedded-high", short_outcome([&] { Embedded e(d, (off + 7) % 64, "\xff\x80", "\xff\x80\x01"); return run(e.v, jc); }));
        add("embedded-text", short_outcome([&] { Embedded e(d, (off + 13) % 64, "[1,", "abc,2]*/\n"); return run(e.v, jc); }));
        add("vector<char>", short_outcome([&] { std::vector<char> v(d.begin(), d.end()); v.shrink_to_fit(); return run(v, jc); }));
        add("vector<unsigned char>", short_outcome([&] { std::vector<unsigned char> v(d.begin(), d.end()); return run(v, jc); }));
        add("vector<signed char>", short_outcome([&] { std::vector<signed char> v(d.begin(), d.end()); return run(v, jc); }));
        add("deque<char>", short_outcome([&] { std::deque<char> v(d.begin(), d.end()); return run(v, jc); }));
        add("deque<unsigned char>", short_outcome([&] { std::deque<unsigned char> v(d.begin(), d.end()); return run(v, jc); }));
        add("again", short_outcome([&] { return run(d, jc); }));
        // the same buffer at the same address held another text of the same length before
        for (int where = 0; where < 5 && !d.empty(); ++where) {
            std::string o = d;
            if (where < 3) {
                // a neighbour of the text: one letter or digit replaced (the first, the middle, the last), most often still valid
                std::vector<size_t> at;
                for (size_t i = 0; i < d.size(); ++i) {
                    const unsigned char c = static_cast<unsigned char>(d[i]);
                    if ((c >= '0' && c <= '9') || (c >= 'a' && c <= 'z')) {
                        at.push_back(i);
                    }
                }
                if (at.empty()) {
                    break;
                }
                char& c = o[at[where == 0 ? 0 : where == 1 ? at.size() / 2 : at.size() - 1]];
                c = c == '9' || c == 'z' ? static_cast<char>(c - 1) : static_cast<char>(c + 1);
            }
            else if (where == 3) {
                // the same bytes in another order: the last two different digits, or letters, change places
                for (size_t i = d.size(); i-- > 1;) {
                    auto kind = [](unsigned char c) { return c >= '1' && c <= '9' ? 1 : c >= 'a' && c <= 'z' ? 2 : 0; };
                    if (d[i] != d[i - 1] && kind(static_cast<unsigned char>(d[i])) && kind(static_cast<unsigned char>(d[i])) == kind(static_cast<unsigned char>(d[i - 1]))) {
                        std::swap(o[i], o[i - 1]);
                        break;
                    }
                }
            }
            else {
                o.assign(d.size(), ' ');
                o.back() = '0';
            }
            std::string buf = o;
            (void)short_outcome([&] { return run(buf, jc); });
            (void)short_outcome([&] { return run(std::string_view(buf), jc); });
            std::copy(d.begin(), d.end(), buf.begin());
            add("same buffer, another text before", short_outcome([&] { return run(buf, jc); }));
            std::copy(o.begin(), o.end(), buf.begin());
            (void)short_outcome([&] { return run(std::string_view(buf), jc); });
            std::copy(d.begin(), d.end(), buf.begin());
            add("same view, another text before", short_outcome([&] { return run(std::string_view(buf), jc); }));
        }
        res += jc ? ",\"c\":[" : "{\"s\":[";
        for (size_t i = 0; i < seen.size(); ++i) {
            res += (i ? ",[" : "[") + seen[i].first + ",\"" + seen[i].second + "\"]";
        }
        res += "]";
    }
    if (q.has("full")) {
        res += ",\"full\":{\"s\":" + outcome([&] { return run(d, false); }) + ",\"c\":" + outcome([&] { return run(d, true); }) + "}";
    }
    return res + "}";
}

// Entry points. Reports the base results of parsing from memory (the whole text, the text without its first three bytes, the
// text up to the first NUL; strict and with comments), and what each entry point returned.
static std::string do_entries(const Node& q)
{
    std::string d = q["doc"].bytes();
    if (q.has("fill")) { // a long document: the text, then filler, then the tail
        d += std::string(static_cast<size_t>(q["fill"].i), static_cast<char>(q["with"].i)) + q["tail"].bytes();
    }
    const std::string file = q["dir"].s + "/doc-" + std::to_string(getpid()) + "-" + std::to_string(std::hash<std::thread::id>()(std::this_thread::get_id())) + ".json";
    {
        std::ofstream f(file, std::ios::binary | std::ios::trunc);
        f.write(d.data(), static_cast<std::streamsize>(d.size()));
    }
    std::string out = "{\"head\":" + bytes_json(d.substr(0, 4)) + ",\"base\":{";
    const std::string nobom = d.size() >= 3 ? d.substr(3) : std::string();
    const std::string cstr(d.c_str());
    bool first = true;
    auto base = [&](const char* name, const std::string& t) {
        for (int jc = 0; jc < 2; ++jc) {
            std::string kind = "\"rej\"";
            std::string o = guarded_s([&] {
                auto r = run(t, jc);
                if (!r) {
                    return std::string("\"rej\"");
                }
                kind = r->is_array() ? "\"a\"" : r->is_object() ? "\"o\"" : "\"?\"";
                return "\"acc:" + digest(value_json(*r)) + "\"";
            });
            out += std::string(first ? "" : ",") + "\"" + name + (jc ? "_c" : "_s") + "\":{\"r\":" + o + ",\"k\":" + kind + "}";
            first = false;
        }
    };
    base("full", d);
    base("nobom", nobom);
    base("cstr", cstr);
    out += "},\"nul\":\"acc:" + digest("[\"z\"]") + "\",\"ea\":\"acc:" + digest("[\"a\",[]]") + "\",\"eo\":\"acc:" + digest("[\"o\",[]]")
           + "\",\"got\":[";
    first = true;
    auto add = [&](const char* entry, bool bom, bool jc, std::string o) {
        out += std::string(first ? "" : ",") + "{\"e\":\"" + entry + "\",\"bom\":" + (bom ? "true" : "false") + ",\"jc\":" + (jc ? "true" : "false")
               + ",\"r\":" + o + "}";
        first = false;
    };
    auto lit = [&](auto&& f) { return guarded_s([&] { return "\"acc:" + digest(f()) + "\""; }); };
    for (int bom = 0; bom < 2; ++bom) {
        for (int jc = 0; jc < 2; ++jc) {
            add("stream", bom, jc, short_outcome([&] { std::istringstream s(d); return json::parse(s, bom, jc); }));
            add("stream", bom, jc, short_outcome([&] {
                    std::istringstream s(d);
                    s.seekg(static_cast<std::streamoff>(d.size() / 2)); // the read position does not matter
                    return json::parse(s, bom, jc);
                }));
            add("stream", bom, jc, short_outcome([&] {
                    std::istringstream s(d);
                    (void)json::parse(s, !bom, !jc); // neither does an earlier read
                    s.clear();
                    return json::parse(s, bom, jc);
                }));
            add("stream", bom, jc, short_outcome([&] { std::stringstream s; s << d; return json::parse(s, bom, jc); }));
            add("stream", bom, jc, short_outcome([&] { std::ifstream s(file, std::ios::binary); return json::parse(s, bom, jc); }));
            add("open", bom, jc, short_outcome([&] { return json::open(file, bom, jc); }));
            add("open", bom, jc, short_outcome([&] { return json::open(file.c_str(), bom, jc); }));
            add("open", bom, jc, short_outcome([&] { return json::open(std::filesystem::path(file), bom, jc); }));
        }
    }
    add("open", false, false, short_outcome([&] { return json::open(file); }));
    add("open", true, false, short_outcome([&] { return json::open(file, true); }));
    add("cstr", false, false, short_outcome([&] { return json::parse(d.c_str()); }));
    add("cstr", false, true, short_outcome([&] { return json::parsec(d.c_str()); }));
    using namespace json::literals;
    add("jvalue", false, false, lit([&] { return value_json(operator""_jvalue(d.data(), d.size())); }));
    add("jvalue", false, false, lit([&] { return value_json(operator""_json(d.data(), d.size())); }));
    add("jarray", false, false, lit([&] { return array_json(operator""_jarray(d.data(), d.size())); }));
    add("jobject", false, false, lit([&] { return object_json(operator""_jobject(d.data(), d.size())); }));
    // the characters may be followed by anything, or by nothing
    const std::string more = d + "]}\",1";
    const std::vector<char> exact(d.begin(), d.end());
    for (const char* s : { more.data(), exact.data() }) {
        if (!s) {
            continue;
        }
        add("jvalue", false, false, lit([&] { return value_json(operator""_jvalue(s, d.size())); }));
        add("jvalue", false, false, lit([&] { return value_json(operator""_json(s, d.size())); }));
        add("jarray", false, false, lit([&] { return array_json(operator""_jarray(s, d.size())); }));
        add("jobject", false, false, lit([&] { return object_json(operator""_jobject(s, d.size())); }));
    }
    add("missing", false, false, short_outcome([&] { return json::open(file + ".none"); }));
    add("missing", true, true, short_outcome([&] { return json::open(q["dir"].s, true, true); }));
    add("missing", false, false, short_outcome([&] { return json::open(q["dir"].s); }));
    std::filesystem::remove(file);
    return out + "]}";
}

// A buffer that gives out a few characters at a time, and can be positioned.
struct Chunked : std::streambuf
{
    std::string d;
    size_t size, at = 0; // the chunk begins at `at`
    Chunked(std::string t, size_t n) : d(std::move(t)), size(n) { place(0); }
    void place(size_t p)
    {
        at = p;
        setg(d.data() + p, d.data() + p, d.data() + std::min(p + size, d.size()));
    }
    int_type underflow() override
    {
        const size_t p = static_cast<size_t>(gptr() - d.data());
        if (p >= d.size()) {
            return traits_type::eof();
        }
        place(p);
        return traits_type::to_int_type(*gptr());
    }
    pos_type seekoff(off_type o, std::ios_base::seekdir w, std::ios_base::openmode) override
    {
        const off_type from = w == std::ios_base::beg ? 0 : w == std::ios_base::end ? static_cast<off_type>(d.size()) : static_cast<off_type>(gptr() - d.data());
        return seekpos(from + o, std::ios_base::in);
    }
    pos_type seekpos(pos_type p, std::ios_base::openmode) override
    {
        if (p < 0 || static_cast<size_t>(p) > d.size()) {
            return pos_type(off_type(-1));
        }
        place(static_cast<size_t>(p));
        return p;
    }
};

// All kinds of streams over the same content
template <typename F>
static void with_streams(const std::string& d, const std::string& file, F&& f)
{
    {
        std::ofstream o(file, std::ios::binary | std::ios::trunc);
        o.write(d.data(), static_cast<std::streamsize>(d.size()));
    }
    {
        std::istringstream s(d);
        f(static_cast<std::istream&>(s));
    }
    {
        std::stringstream s;
        s << d;
        f(static_cast<std::istream&>(s));
    }
    {
        std::ifstream s(file, std::ios::binary);
        f(static_cast<std::istream&>(s));
    }
    {
        std::fstream s(file, std::ios::in | std::ios::out);
        f(static_cast<std::istream&>(s));
    }
    for (size_t n : { 1, 7 }) {
        Chunked b(d, n);
        std::istream s(&b);
        f(s);
    }
    std::filesystem::remove(file);
}
struct Distinct
{
    std::vector<std::string> seen;
    void add(std::string o)
    {
        for (auto& s : seen) {
            if (s == o) {
                return;
            }
        }
        seen.push_back(std::move(o));
    }
    std::string text() const // the outcome, or all of them
    {
        if (seen.size() == 1) {
            return seen[0];
        }
        std::string r = "[\"differ\"";
        for (auto& s : seen) {
            r += "," + s;
        }
        return r + "]";
    }
};
static std::string scratch_file(const Node& q)
{
    return q["dir"].s + "/doc-" + std::to_string(getpid()) + "-" + std::to_string(std::hash<std::thread::id>()(std::this_thread::get_id())) + ".json";
}

// What every way into the parser gives (MC_Entry).
static std::string do_every_entry(const Node& q)
{
    const std::string d = q["doc"].bytes(), file = scratch_file(q);
    Distinct m[2], s[4], z[2], l[3];
    for (int jc = 0; jc < 2; ++jc) {
        m[jc].add(outcome([&] { return run(d, jc); }));
        m[jc].add(outcome([&] { return run(std::string_view(d), jc); }));
        m[jc].add(outcome([&] { return run(std::vector<char>(d.begin(), d.end()), jc); }));
        z[jc].add(outcome([&] { return jc ? json::parsec(d.c_str()) : json::parse(d.c_str()); }));
    }
    with_streams(d, file, [&](std::istream& is) {
        for (int k = 0; k < 4; ++k) {
            s[k].add(outcome([&] { return json::parse(is, k / 2 != 0, k % 2 != 0); }));
            is.clear();
        }
        if (dynamic_cast<std::fstream*>(&is)) { // the file is there
            for (int k = 0; k < 4; ++k) {
                s[k].add(outcome([&] { return json::open(file, k / 2 != 0, k % 2 != 0); }));
                s[k].add(outcome([&] { return json::open(file.c_str(), k / 2 != 0, k % 2 != 0); }));
                s[k].add(outcome([&] { return json::open(std::filesystem::path(file), k / 2 != 0, k % 2 != 0); }));
            }
            s[0].add(outcome([&] { return json::open(file); }));
            s[2].add(outcome([&] { return json::open(file, true); }));
            s[0].add(outcome([&] { return json::parse(is, false); }));
            is.clear();
            s[2].add(outcome([&] { return json::parse(is, true); }));
        }
    });
    using namespace json::literals;
    l[0].add(guarded([&] { return value_json(operator""_jvalue(d.data(), d.size())); }));
    l[0].add(guarded([&] { return value_json(operator""_json(d.data(), d.size())); }));
    l[1].add(guarded([&] { return array_json(operator""_jarray(d.data(), d.size())); }));
    l[2].add(guarded([&] { return object_json(operator""_jobject(d.data(), d.size())); }));
    auto list = [](auto& a) {
        std::string r = "[";
        for (auto& x : a) {
            r += (r.size() > 1 ? "," : "") + x.text();
        }
        return r + "]";
    };
    return "{\"m\":" + list(m) + ",\"s\":" + list(s) + ",\"z\":" + list(z) + ",\"l\":" + list(l) + "}";
}

// A history of one stream (MC_Entry).
static std::string do_stream_history(const Node& q)
{
    Distinct all;
    with_streams(q["doc"].bytes(), scratch_file(q), [&](std::istream& is) {
        std::string r = "[";
        for (auto& a : q["acts"].a) {
            std::string o = "[\"ok\"]";
            if (a[0].s == "p") {
                o = outcome([&] { return json::parse(is, a[1].b, a[2].b); });
                is.clear();
            }
            else if (a[0].s == "s") {
                is.seekg(static_cast<std::streamoff>(a[1].i));
            }
            else if (a[0].s == "r") {
                std::string t(static_cast<size_t>(a[1].i), ' ');
                is.read(t.data(), static_cast<std::streamsize>(t.size()));
                o = "[\"s\"," + bytes_json(t) + "]";
            }
            else {
                is.peek();
            }
            r += (r.size() > 1 ? "," : "") + o;
        }
        all.add(r + "]");
    });
    return all.text();
}

// ---- serialisation ----
// The same value built in different ways.
static json::value build_reversed(const Node& n)
{
    if (n[0].s == "o") {
        json::value v = json::object();
        for (size_t i = n[1].size(); i-- > 0;) {
            v[n[1][i][0].bytes()] = build_reversed(n[1][i][1]);
        }
        return v;
    }
    if (n[0].s == "a") {
        json::value v = json::array(n[1].size());
        for (size_t i = n[1].size(); i-- > 0;) {
            v[i] = build_reversed(n[1][i]);
        }
        return v;
    }
    return build(n);
}
static json::value build_raw(const Node& n)
{
    if (n[0].s == "o") {
        std::map<std::string, json::value> m;
        for (auto& x : n[1].a) {
            m.emplace(x[0].bytes(), build_raw(x[1]));
        }
        return json::value(m);
    }
    if (n[0].s == "a") {
        std::vector<json::value> l;
        for (auto& x : n[1].a) {
            l.push_back(build_raw(x));
        }
        return json::value(l);
    }
    return build(n);
}

// a value given as a flat list
static json::value build_flat(const Node& l, size_t& i, int how)
{
    const Node& p = l[i++];
    if (p[0].s == "a") {
        json::array a;
        for (long long n = p[1].i; n > 0; --n) {
            if (how == 0) {
                a.push_back(build_flat(l, i, how));
            }
            else {
                json::value x = build_flat(l, i, how);
                a.emplace_back(x);
            }
        }
        return a;
    }
    if (p[0].s == "o") {
        json::object o;
        for (long long n = p[1].i; n > 0; --n) {
            const std::string k = l[i++][1].bytes();
            if (how == 0) {
                o.emplace(k, build_flat(l, i, how));
            }
            else {
                json::value x = build_flat(l, i, how);
                o[k] = x;
            }
        }
        return o;
    }
    return build(p);
}

static std::string do_dump(const Node& q)
{
    std::deque<json::value> vs;
    const bool flat = q.has("flat");
    if (flat) {
        for (int how = 0; how < 2; ++how) {
            size_t i = 0;
            vs.push_back(build_flat(q["v"], i, how));
        }
    }
    else {
        vs.push_back(build(q["v"]));
        vs.push_back(build_reversed(q["v"]));
        vs.push_back(build_raw(q["v"]));
        for (int how = 0; how < 4; ++how) {
            vs.emplace_back();
            change_in_place(vs.back(), q["v"], how);
        }
    }
    vs.push_back(vs[0]);
    auto value_json = [&](const json::value& v) {
        if (!flat) {
            return mj::value_json(v);
        }
        std::string o = "[";
        put_flat(o, v);
        return o + "]";
    };
    auto outcome = [&](auto&& f) { return flat ? ::flat_outcome(f) : ::outcome(f); };
    const json::value& v = vs[0];
    const std::string before = value_json(v);
    auto distinct = [&](auto&& f) {
        std::vector<std::string> seen;
        auto add = [&](std::string o) {
            for (auto& s : seen) {
                if (s == o) {
                    return;
                }
            }
            seen.push_back(std::move(o));
        };
        f(add);
        std::string r = "[";
        for (size_t i = 0; i < seen.size(); ++i) {
            r += (i ? "," : "") + seen[i];
        }
        return r + "]";
    };
    auto txt = [&](auto&& f) { return guarded([&] { return bytes_json(f()); }); };
    // the state the stream was left in is no part of the text (padding to a width is taken off again)
    auto streamed = [&](const auto& x, auto& add) {
        add(txt([&] { std::ostringstream s; s << x; return s.str(); }));
        for (int w : { 1, 2, 3, 7 }) {
            add(txt([&] {
                std::ostringstream s;
                s << std::setw(w) << std::setfill('*') << (w & 1 ? std::left : std::right) << x;
                std::string r = s.str();
                while (r.size() && r.back() == '*') {
                    r.pop_back();
                }
                return r.substr(std::min(r.size(), r.find_first_not_of('*')));
            }));
        }
        add(txt([&] {
            std::stringstream s("left over");
            s << std::hex << std::showbase << std::uppercase << std::boolalpha << std::setprecision(2) << std::fixed << std::showpos << std::unitbuf;
            s.exceptions(std::ios::badbit | std::ios::failbit);
            s.seekp(0);
            s << "ab" << x << x;
            std::string r = s.str();
            r = r.substr(2, static_cast<size_t>(s.tellp()) - 2);
            return r.substr(0, r.size() / 2) == r.substr(r.size() / 2) && s.width() == 0 ? r.substr(0, r.size() / 2) : "not twice the same: " + r;
        }));
    };
    const bool full = q.has("full");
    std::string out = "{\"c\":" + distinct([&](auto& add) {
                          for (auto& x : vs) {
                              add(txt([&] { return x.to_string(); }));
                          }
                          add(txt([&] { return v.dumps(); }));
                          add(txt([&] { return v.dumps(std::nullopt); }));
                          add(txt([&] { return v.to_string(); }));
                          if (v.is_array()) {
                              add(txt([&] { return v.as_array().to_string(); }));
                              add(txt([&] { return v.as_array().dumps(); }));
                          }
                          if (v.is_object()) {
                              add(txt([&] { return v.as_object().to_string(); }));
                              add(txt([&] { return v.as_object().dumps(); }));
                          }
                      });
    if (q.has("ws")) {
        out += ",\"f\":[";
        for (size_t i = 0; i < q["ws"].size(); ++i) {
            const size_t w = static_cast<size_t>(q["ws"][i].i);
            out += std::string(i ? "," : "") + "[" + std::to_string(w) + "," + distinct([&](auto& add) {
                       for (auto& x : vs) {
                           add(txt([&] { return x.format(w); }));
                       }
                       add(txt([&] { return v.dumps(w); }));
                       if (w == 4) {
                           add(txt([&] { return v.format(); }));
                           streamed(v, add);
                       }
                       if (v.is_array()) {
                           add(txt([&] { return v.as_array().format(w); }));
                           add(txt([&] { return v.as_array().dumps(w); }));
                           if (w == 4) {
                               add(txt([&] { return v.as_array().format(); }));
                               streamed(v.as_array(), add);
                           }
                       }
                       if (v.is_object()) {
                           add(txt([&] { return v.as_object().format(w); }));
                           add(txt([&] { return v.as_object().dumps(w); }));
                           if (w == 4) {
                               add(txt([&] { return v.as_object().format(); }));
                               streamed(v.as_object(), add);
                           }
                       }
                   }) + ","
                   + outcome([&] { return json::parse(v.format(w)); }) + "]";
        }
        out += "]";
    }
    if (full) {
        std::string eq = "[\"none\"]";
        out += ",\"p\":" + outcome([&] {
                   auto r = json::parse(v.to_string());
                   if (r) {
                       eq = (*r == v && v == *r && !(*r != v)) ? "[\"eq\"]" : "[\"ne\"]";
                   }
                   return r;
               });
        out += ",\"eq\":" + eq;
    }
    out += std::string(",\"same\":") + (before == value_json(v) ? "true" : "false") + "}";
    return out;
}

int main(int argc, char** argv)
{
    return serve(argc, argv, [](const Node& q) -> std::string {
        const std::string& op = q["op"].s;
        if (op == "p") {
            return do_parse(q);
        }
        if (op == "pv") {
            return do_variants(q);
        }
        if (op == "e") {
            return do_entries(q);
        }
        if (op == "en") {
            return do_every_entry(q);
        }
        if (op == "eh") {
            return do_stream_history(q);
        }
        if (op == "d") {
            return do_dump(q);
        }
        return "[\"badop\"]";
    });
}
