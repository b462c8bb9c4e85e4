// Runs the requests of several threads at the same time; see MC_Conc.tla. "par": every thread has requests of the other harnesses,
// which work on values of their own. "sh": the threads share a constant value (slot 1) and own one each (slot 2, or the
// one that the thread names).
#define MJ_REGISTER
#define MJ_STORE static thread_local
#define main main_store
#include "h_store.cpp"
#undef main

#include <atomic>
#include <csignal>
#include <thread>

int main_parse(int, char**);
int main_eq(int, char**);
int main_types(int, char**);
int main_float(int, char**);

static Handler handler(int (*m)(int, char**))
{
    m(0, nullptr);
    return std::move(registered());
}

// All threads start together; nothing orders them afterwards.
static std::vector<std::string> together(size_t n, const std::function<std::string(size_t)>& f)
{
    std::vector<std::string> r(n);
    std::atomic<size_t> waiting { n };
    std::vector<std::thread> ts;
    for (size_t t = 0; t < n; ++t) {
        ts.emplace_back([&, t] {
            --waiting;
            while (waiting.load() != 0) {
                std::this_thread::yield();
            }
            r[t] = f(t);
        });
    }
    for (auto& t : ts) {
        t.join();
    }
    return r;
}
static std::string joined(const std::vector<std::string>& l)
{
    std::string r = "[";
    for (auto& x : l) {
        r += (r.size() > 1 ? "," : "") + x;
    }
    return r + "]";
}

// ---- the shared value ----
static const json::value* SHARED = nullptr;

static const json::value* const_step(const json::value& v, const Node& e)
{
    if (e[0].s == "k") {
        if (v.is_object()) {
            const std::string k = e[1].bytes();
            for (auto& [name, x] : v.as_object()) {
                if (name == k) {
                    return &x;
                }
            }
        }
    }
    else if (v.is_array() && e[1].i >= 0 && static_cast<size_t>(e[1].i) < v.as_array().size()) {
        return &*(v.as_array().begin() + e[1].i);
    }
    return nullptr;
}
static bool is_shared(const Node& h) { return h.t == Node::Arr && h.size() == 2 && h[0].t == Node::Int && h[0].i == 1 && h[1].t == Node::Arr; }
static const json::value& C(const Node& h)
{
    const json::value* p = is_shared(h) ? SHARED : &std::as_const(*H(h).v);
    if (is_shared(h)) {
        for (auto& e : h[1].a) {
            p = p ? const_step(*p, e) : nullptr;
        }
    }
    if (!p) {
        throw Unreal { "a part of the value is missing" };
    }
    return *p;
}
static json::value& own(const Node& h) { return *H(h).v; }

static std::string const_use(const json::value& v)
{
    const std::string d = v.dumps();
    json::value c(v), e;
    e = v;
    std::ostringstream s, s2;
    s << v;
    bool ok = v.valid() && c == v && v == e && !(v != c) && v.to_string() == d && c.dumps() == d && s.str() == v.format() && v.format(2) == c.format(2)
              && v.dumps(3) == e.dumps(3) && v.type() == c.type();
    ok = ok && 1 == v.is_null() + v.is_boolean() + v.is_number() + v.is_string() + v.is_array() + v.is_object();
    if (v.is_array()) {
        const json::array& a = v.as_array();
        json::array b(a);
        s2 << a;
        ok = ok && a.to_string() == d && a.dumps() == d && a.format(2) == c.format(2) && s2.str() == s.str() && a == b && !(a != b) && a.size() == b.size();
        ok = ok && json::value(a) == v && v.all<json::value>();
        v.is<std::vector<int>>();
        v.is<std::vector<std::string>>();
        v.is<std::pair<std::string, bool>>();
        v.is<std::optional<std::vector<std::optional<double>>>>();
    }
    else if (v.is_object()) {
        const json::object& o = v.as_object();
        json::object b(o);
        s2 << o;
        ok = ok && o.to_string() == d && o.dumps() == d && o.format(2) == c.format(2) && s2.str() == s.str() && o == b && !(o != b) && o.size() == b.size();
        ok = ok && json::value(o) == v && o.all<json::value>();
        v.is<std::map<std::string, int>>();
        v.is<std::unordered_map<std::string, json::value>>();
    }
    else {
        guarded([&] { return std::to_string(v.as_integer() + v.as_long() + v.as_long_long()); });
        guarded([&] { return std::to_string(v.as_float() + v.as_double() + v.as_long_double()); });
        guarded([&] { return std::to_string(v.as_unsigned() + v.as_unsigned_long() + v.as_unsigned_long_long()); });
        guarded([&] { return v.as_string(); });
        guarded([&] { return v.as<bool>() ? "" : "-"; });
        guarded([&] { return v.as<std::variant<int, std::string, json::value>>().index() ? "" : "-"; });
    }
    return "[\"u\"," + bytes_json(d) + (ok ? ",true]" : ",false]");
}
static std::string const_info(const json::value& v)
{
    std::string r, s;
    if (v.is_array()) {
        const json::array& a = v.as_array();
        for (auto it = a.rbegin(); it != a.rend(); ++it) {
            s += (s.empty() ? "" : ",") + value_json(*it);
        }
        bool ok = true;
        for (size_t i = 0; i < a.size(); ++i) {
            ok = ok && a.contains(i) && &a[i] == &v[i] && &a.at(i) == &v.at(i) && &a[i] == &*(a.cbegin() + static_cast<long>(i));
        }
        return ok ? "[\"i\"," + std::to_string(a.size()) + (a.empty() ? ",true," : ",false,") + array_json(a) + ",[\"a\",[" + s + "]]]" : "[\"bad\"]";
    }
    const json::object& o = v.as_object();
    bool ok = true;
    for (auto& [k, x] : o) {
        s += (s.empty() ? "" : ",") + bytes_json(k);
        ok = ok && o.contains(k) && &o.at(k) == &v.at(k) && o.find_value(k) == &x;
    }
    return ok ? "[\"i\"," + std::to_string(o.size()) + (o.empty() ? ",true,[" : ",false,[") + s + "]," + object_json(o) + "]" : "[\"bad\"]";
}
static std::string const_lookup(const json::value& v, const Node& a)
{
    auto go = [&](auto& c) -> std::string {
        if (a[0].s != "l.fv") {
            return lookup(c, Handle {}, a);
        }
        const json::value* want = const_step(v, a[2]);
        using R = std::decay_t<decltype(c)>;
        if (a[2][0].s == "k") {
            if constexpr (!std::is_same_v<R, json::array>) {
                return fv(c, a[2][1].bytes(), want);
            }
        }
        else if constexpr (!std::is_same_v<R, json::object>) {
            return fv(c, position(a[2][1].i), want);
        }
        return "[\"badkey\"]";
    };
    const Node& first = a[0].s == "l.get" ? a[2][0] : a[2];
    if (v.is_array() && first[0].s == "i" && a.size() % 2) {
        return go(v.as_array());
    }
    if (v.is_object() && first[0].s == "k" && a.size() % 2) {
        return go(v.as_object());
    }
    return go(v);
}
static std::string shared_call(const Node& a)
{
    const std::string& n = a[0].s;
    auto I = [&](size_t i) { return position(a[i].i); };
    if (n == "c.eq") {
        const json::value &x = C(a[1]), &y = C(a[2]);
        return (x == y) != (x != y) ? boolean(x == y) : "[\"bad\"]";
    }
    if (n == "n.copyV") {
        S.at(static_cast<size_t>(a[1].i) - 1).v = std::make_unique<json::value>(C(a[2]));
        return OK;
    }
    if (is_shared(a[1])) {
        const json::value& v = C(a[1]);
        if (n == "c.use") {
            return const_use(v);
        }
        if (n == "c.info") {
            return const_info(v);
        }
        if (n == "v.casA") {
            return "[\"v\"," + array_json(v.as_array()) + "]";
        }
        if (n == "v.casO") {
            return "[\"v\"," + object_json(v.as_object()) + "]";
        }
        if (n == "v.toA") {
            return "[\"v\"," + array_json(static_cast<json::array>(v)) + "]";
        }
        if (n == "v.toO") {
            return "[\"v\"," + object_json(static_cast<json::object>(v)) + "]";
        }
        if (n == "v.scalar") {
            return scalar(v, a[2].s);
        }
        if (n == "v.ciidx") {
            return val(v[I(2)]);
        }
        if (n == "v.at") {
            return val(v.at(a[2].bytes()));
        }
        if (n == "v.ati") {
            return val(v.at(I(2)));
        }
        if (n[0] == 'l') {
            return const_lookup(v, a);
        }
        if (n == "v.plus") {
            return val(v + C(a[2]).as_array());
        }
        if (n == "v.or") {
            return val(v | C(a[2]).as_object());
        }
    }
    else {
        if (n == "v.copy") {
            own(a[1]) = C(a[2]);
            return OK;
        }
        if (n == "v.fromA") {
            own(a[1]) = C(a[2]).as_array();
            return OK;
        }
        if (n == "v.fromO") {
            own(a[1]) = C(a[2]).as_object();
            return OK;
        }
        if (n == "v.empAc") {
            return val(own(a[1]).emplace(C(a[2])));
        }
        if (n == "v.empOc") {
            return emplaced(own(a[1]), a, C(a[3]));
        }
        if (n == "v.kcopy") {
            return val(subscript(own(a[1]), a, 2) = C(a[3]));
        }
        if (n == "v.pluseq") {
            own(a[1]) += C(a[2]).as_array();
            return OK;
        }
        if (n == "v.oreq") {
            own(a[1]) |= C(a[2]).as_object();
            return OK;
        }
        if (n == "v.plus") {
            const json::array& y = C(a[2]).as_array();
            return val(a[3].s == "mc" ? std::move(own(a[1])) + y : std::as_const(own(a[1])) + y);
        }
        if (n == "v.or") {
            const json::object& y = C(a[2]).as_object();
            return val(a[3].s == "mc" ? std::move(own(a[1])) | y : std::as_const(own(a[1])) | y);
        }
    }
    fprintf(stderr, "harness: unknown call %s on a shared value\n", n.c_str());
    exit(99);
}
static std::string on_shared(const Node& th)
{
    S.clear();
    const size_t slot = th.has("slot") ? static_cast<size_t>(th["slot"].i) : 2;
    S.resize(slot);
    std::unique_ptr<json::value>& mine = S[slot - 1].v;
    mine = std::make_unique<json::value>(build(th["own"]));
    std::vector<std::string> steps;
    for (auto& a : th["ops"].a) {
        if (a[0].s == "own") { // a new own value
            mine = std::make_unique<json::value>(build(a[1]));
            continue;
        }
        bool sh = a[0].s[0] == 'c' || a[0].s == "n.copyV";
        for (auto& x : a.a) {
            sh = sh || is_shared(x);
        }
        const std::string txt = to_text(a);
        const std::string r = sh ? guarded([&] { return shared_call(a); }) : run(a);
        steps.push_back("{\"a\":" + txt + ",\"r\":" + r + ",\"st\":[[\"V\"," + value_json(*SHARED) + "],[\"V\"," + value_json(*mine) + "]]}");
    }
    S.clear();
    return "{\"steps\":" + joined(steps) + "}";
}

int main(int argc, char** argv)
{
    std::map<std::string, Handler> hs;
    hs["store"] = handler(main_store);
    hs["parse"] = handler(main_parse);
    hs["eq"] = handler(main_eq);
    hs["types"] = handler(main_types);
    hs["float"] = handler(main_float);
    return serve_requests(argc, argv, [&](const Node& q) -> std::string {
        alarm(300);
        const auto& ths = q["th"].a;
        if (q["op"].s == "par") {
            return joined(together(ths.size(), [&](size_t t) {
                std::vector<std::string> rs;
                for (auto& x : ths[t].a) {
                    rs.push_back(hs.at(x["h"].s)(x["q"]));
                }
                return joined(rs);
            }));
        }
        const json::value shared = build(q["sh"]);
        SHARED = &shared;
        return joined(together(ths.size(), [&](size_t t) { return on_shared(ths[t]); }));
    });
}
