// Allocation failures: every call is repeated with the n-th allocation failing, for every n, once alone and once with every
// allocation after it failing too. What is reported is how the call ended, the store afterwards, and whether memory was lost.
#define NO_MAIN
#include "h_store.cpp"
#define OOM_MAIN
#include "oom.hpp"

struct Outcomes
{
    std::vector<std::string> seen;
    void add(std::string o)
    {
        for (auto& s : seen) {
            if (s == o) {
                return;
            }
        }
        seen.push_back(std::move(o));
    }
    std::string json() const
    {
        std::string r = "[";
        for (auto& s : seen) {
            r += (r.size() > 1 ? "," : "") + s;
        }
        return r + "]";
    }
};

// The call a in the store st, with failures: [[result, store, lost], ...], each distinct one once
static std::string faults(const Node& st, const Node& a)
{
    Outcomes out;
    load(st);
    oom::g_count = 0;
    (void)run(a);
    const long k = oom::g_count;
    S.clear();
    oom::each(
        k, 40, [&] { load(st); }, [&] { return exec(a); },
        [&](std::string r) {
            if (!r.empty()) {
                return "[" + r + "," + store_json() + ",";
            }
            S.clear();
            S.shrink_to_fit();
            return r;
        },
        [&](std::string o, bool lost) { out.add(o + (lost ? "true]" : "false]")); });
    return out.json();
}

// reading and writing texts: [[result, lost], ...]; f() has no state
template <typename F>
static std::string pure(F&& f)
{
    Outcomes out;
    oom::g_count = 0;
    out.add("[" + std::string(guarded(f)) + ",false]");
    oom::each(
        oom::g_count, 40, [] {}, f, [](std::string r) { return r; }, [&](std::string o, bool lost) { out.add("[" + o + (lost ? ",true]" : ",false]")); });
    return out.json();
}

int main(int argc, char** argv)
{
    return serve(argc, argv, [](const Node& q) -> std::string {
        const std::string op = q["op"].s;
        if (op == "fp") { // parsing, also from a stream
            const std::string d = q["doc"].bytes();
            std::string out;
            for (int jc = 0; jc < 2; ++jc) {
                out += (jc ? ",\"tc\":" : "{\"ts\":") + pure([&]() -> std::string {
                    std::istringstream in(d);
                    auto v = json::parse(in, false, jc == 1);
                    oom::disarm();
                    return v ? "[\"acc\"," + value_json(*v) + "]" : "[\"rej\"]";
                });
                out += (jc ? ",\"c\":" : ",\"s\":") + pure([&]() -> std::string {
                    auto v = jc ? json::parsec(d) : json::parse(d);
                    oom::disarm();
                    return v ? "[\"acc\"," + value_json(*v) + "]" : "[\"rej\"]";
                });
            }
            return out + "}";
        }
        if (op == "fd") { // serialisation; the value stays as it is
            const json::value v = build(q["v"]);
            std::string out = "{\"c\":" + pure([&]() -> std::string { auto s = v.to_string(); oom::disarm(); return "[\"text\"," + bytes_json(s) + "]"; });
            out += ",\"f\":" + pure([&]() -> std::string { auto s = v.format(2); oom::disarm(); return "[\"text\"," + bytes_json(s) + "]"; });
            out += ",\"x\":" + pure([&]() -> std::string { json::value c(v); oom::disarm(); return "[\"v\"," + value_json(c) + "]"; });
            return out + ",\"v\":" + value_json(v) + "}";
        }
        std::string out = "{\"steps\":[";
        bool first = true;
        load(q["st"]);
        std::string now = store_json();
        for (auto& s : q["ops"].a) {
            Node a;
            if (op == "f1") { // a call of the model
                a = s;
            }
            else if (!harden(s, a)) {
                continue;
            }
            const std::string txt = to_text(a);
            const Node st = read_line(now);
            const std::string f = faults(st, a);
            load(st);
            const std::string r = run(a);
            now = store_json();
            out += (first ? "" : ",") + ("{\"a\":" + txt) + ",\"r\":" + r + ",\"st\":" + now + ",\"f\":" + f + "}";
            first = false;
            if (now.size() > (q.has("max") ? static_cast<size_t>(q["max"].i) : 6000)) {
                break;
            }
        }
        return out + "]}";
    });
}
