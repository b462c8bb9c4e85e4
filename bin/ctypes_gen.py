"""C++ types for the conversion checks: descriptors for Types.tla, the C++ units that compile the operations on them, and random
values of them."""
import json
import gen

INTS = {'i32': 'int', 'u32': 'unsigned', 'i64': 'long', 'u64': 'unsigned long', 'ill': 'long long', 'ull': 'unsigned long long'}
NARROW = {'i8': 'signed char', 'u8': 'unsigned char', 'i16': 'short', 'u16': 'unsigned short'}
KIND = {'ill': 'i64', 'ull': 'u64'}
FLTS = {'f32': 'float', 'f64': 'double', 'f80': 'long double'}
FDIG = {'f32': 6, 'f64': 15, 'f80': 18}
RANGE = {'i8': (-128, 127), 'u8': (0, 255), 'i16': (-32768, 32767), 'u16': (0, 65535), 'i32': (-2 ** 31, 2 ** 31 - 1), 'u32': (0, 2 ** 32 - 1),
         'i64': (-2 ** 63, 2 ** 63 - 1), 'u64': (0, 2 ** 64 - 1)}
b = gen.b


class T:
    """d: descriptor, cpp: spelling, and what can be done with it."""

    def __init__(self, d, cpp, copy=True, rv=True, rd=True, k='0', order=False, hash=False, decl=(), size=1):
        self.d, self.cpp, self.copy, self.rv, self.rd, self.k, self.order, self.hash, self.size = d, cpp, copy, rv, rd, k, order, hash, size
        self.decl = list(decl)       # declarations it needs, in order: (name, text)
        self.heads = 0


def decls(*ts):
    out = []
    for t in ts:
        for d in t.decl:
            if d not in out:
                out.append(d)
    return out


def scalar(n):
    if n in INTS:
        return T(['int', KIND.get(n, n)], INTS[n], order=True, hash=True)
    if n in NARROW:
        return T(['int', n], NARROW[n], rd=False, order=True)
    if n in FLTS:
        return T(['flt', n], FLTS[n])
    return {'bool': T(['bool'], 'bool', order=True, hash=True), 'str': T(['str'], 'std::string', order=True, hash=True),
            'path': T(['path'], 'std::filesystem::path'), 'mono': T(['mono'], 'std::monostate'), 'null': T(['mono'], 'std::nullptr_t'),
            'json': T(['json'], 'json::value'), 'jarr': T(['jarr'], 'json::array', k='a'), 'jobj': T(['jobj'], 'json::object', k='o')}[n]


def nul(kind, t):
    return T(['nul', t.d], {'opt': 'std::optional<%s>', 'shared': 'std::shared_ptr<%s>', 'uniq': 'std::unique_ptr<%s>', 'handle': 'ty::Handle<%s>',
                            'del': 'std::unique_ptr<%s, ty::Del<%s>>'}[kind].replace('%s', t.cpp),
             copy=kind in ('shared', 'handle') or (kind == 'opt' and t.copy), rv=t.rv, rd=t.rd and kind not in ('handle', 'del'), order=kind == 'opt' and t.order, decl=decls(t), size=t.size + 1)


def seq(kind, t):
    return T(['seq', t.d], ('ty::' if kind[0] == 'U' else 'std::') + '%s<%s>' % (kind, t.cpp), copy=t.copy, rv=t.rv and not (kind == 'vector' and t.cpp == 'bool'),
             rd=t.rd and kind != 'forward_list', k='a', order=t.order and kind != 'forward_list' and kind[0] not in 'Up' and t.cpp != 'bool', decl=decls(t), size=t.size + 1)


def set_(kind, t):
    tag = {'set': 'set', 'multiset': 'mset', 'unordered_set': 'uset', 'unordered_multiset': 'umset'}[kind]
    return T([tag, t.d], 'std::%s<%s>' % (kind, t.cpp), copy=t.copy, rv=t.rv, rd=t.rd, k='a', order=kind in ('set', 'multiset'), decl=decls(t), size=t.size + 1)


def fix(n, t, user=False):
    return T(['fix', n, t.d], '%s<%s,%d>' % ('ty::UArr' if user else 'std::array', t.cpp, n), copy=t.copy, rv=t.rv, rd=t.rd, k='a', order=t.order, decl=decls(t), size=t.size + 1)


def tup(ts, pair=False):
    return T(['tup', [t.d for t in ts]], '%s::%s<%s>' % ('ty' if isinstance(pair, str) else 'std', pair if isinstance(pair, str) else 'pair' if pair else 'tuple', ','.join(t.cpp for t in ts)), copy=all(t.copy for t in ts),
             rv=all(t.rv for t in ts), rd=all(t.rd for t in ts), k='a', order=all(t.order for t in ts) and len(ts) > 0 and not isinstance(pair, str), decl=decls(*ts),
             size=1 + sum(t.size for t in ts))


def map_(kind, t):
    name = {'UMap': 'ty::UMap<%s>', 'greater': 'std::map<std::string,%s,std::greater<>>', 'pmr': 'std::pmr::map<std::string,%s>'}.get(kind, 'std::' + kind + '<std::string,%s>')
    return T(['map', t.d], name.replace('%s', t.cpp), copy=t.copy, rv=t.rv, rd=t.rd, k='o', decl=decls(t), size=t.size + 1)


def var(ts):
    return T(['var', [t.d for t in ts]], 'std::variant<%s>' % ','.join(t.cpp for t in ts), copy=all(t.copy for t in ts), rv=all(t.rv for t in ts),
             rd=all(t.rd for t in ts), decl=decls(*ts), size=1 + sum(t.size for t in ts))


# ---------------------------------------------------------------- enums
UNDER = {'int': 'i32', 'unsigned': 'u32', 'long': 'i64', 'unsigned long': 'u64', 'long long': 'i64', 'unsigned long long': 'u64',
         'signed char': 'i8', 'unsigned char': 'u8', 'short': 'i16', 'unsigned short': 'u16'}


ENUM_RANGE = (-128, 128)                      # the range the library is told to reflect (MEOJSON_ENUM_REFLECTION_MIN_ENUMS, ..MAX_ENUMS)


def enum(name, items, under='int', scoped=True, rng=None, ns='', typed=True):
    """items: (enumerator, number); rng: reflected range (min and max must be enumerators). Enumerators outside are not reflected."""
    lo, hi = rng or ENUM_RANGE
    body = ', '.join('%s = %d' % (n, v) for n, v in items)
    if rng:
        byv = {v: n for n, v in items}
        body += ', MEOJSON_ENUM_RANGE(%s, %s)' % (byv[lo], byv[hi])
    full = (ns + '::' if ns else '') + name
    text = 'enum %s%s%s { %s };' % ('class ' if scoped else '', name, ' : ' + under if typed else '', body)
    if ns and ns[0] == '+':                   # nested in a class
        full = ns[1:] + '::' + name
        text = 'struct %s { %s };' % (ns[1:], text)
    elif ns:
        text = 'namespace %s { %s }' % (ns, text)
    kind = UNDER[under]
    return T(['enum', kind, [[b(str(v)), b(n)] for n, v in items if lo <= v <= hi]], full, order=True, hash=True, rd=kind not in NARROW, decl=[(full, text)])


# ---------------------------------------------------------------- reflected structs
def lit(s):
    """a C++ string literal for the bytes s"""
    return '"' + ''.join(chr(x) if 32 <= x < 127 and chr(x) not in '"\\?' else '\\%03o' % x for x in s) + '"'


# what else a class of a user's own may be, before and around its description: (parameters, base, members, arguments, what follows)
GUISE = {
    None: ('', '', '', '', ''),
    'list': ('', ' : std::vector<int>', '', '', ''),
    'map': ('', ' : std::map<std::string, int>', '', '', ''),
    'nul': ('', '', 'explicit operator bool() const { return false; } const int& operator*() const { static int seven = 7; return seven; } ', '', ''),
    'arr': ('template <typename GT, size_t GN> ', ' : std::array<GT, GN>', '', '<int, 2>', ''),
    'tup': ('template <typename GA, typename GB> ', '', '', '<int, bool>',
            'template <typename A, typename B> struct std::tuple_size<%(n)s<A, B>> : std::integral_constant<size_t, 2> {};\n'
            'template <size_t I, typename A, typename B> struct std::tuple_element<I, %(n)s<A, B>> : std::tuple_element<I, std::pair<A, B>> {};\n'),
}


def rec(name, fields, tag_order=None, guise=None, split=False):
    """fields: (C++ name, T, optional, key bytes or None, initial x or None)"""
    params, base, extra, targs, after = GUISE[guise]
    args, mem, refs, dd = [], [], [], []
    for n, t, opt, key, init in fields:
        a = n
        tags = []
        if opt:
            tags.append('MEO_OPT ')
        if key is not None:
            tags.append('MEO_KEY(%s) ' % lit(key))
        if tag_order and len(tags) == 2 and tag_order.random() < 0.5:
            tags.reverse()
        args.append(''.join(tags) + n)
        mem.append('%s %s %s;' % (t.cpp, n, '{}' if init is None else '= ' + cpp_lit(t, init)))
        refs.append('x.' + n)
        dd.append([key if key is not None else b(n), t.d, bool(opt), init if init is not None else default(t.d), b(n)])
    macros = ['TOJSON', 'CHECKJSON', 'FROMJSON'] if split else ['JSONIZATION']
    text = '%sstruct %s%s { %s%s %s };\n' % (params, name, base, extra, ' '.join(mem), ' '.join('MEO_%s(%s)' % (m, ', '.join(args)) for m in macros))
    text += after % {'n': name} if after else ''
    name += targs
    text += 'namespace ty { template <> struct Rec<%s> { static constexpr bool value = true; static auto fields(%s& x) { return std::tie(%s); } }; }' \
            % (name, name, ', '.join(refs))
    ts = [f[1] for f in fields]
    return T(['rec', dd], name, copy=all(t.copy for t in ts), rd=all(t.rd for t in ts), decl=decls(*ts) + [(name, text)], size=1 + sum(t.size for t in ts))


def cpp_lit(t, x):
    if x[0] == 'b':
        return 'true' if x[1] else 'false'
    if x[0] == 'n':
        s = bytes(x[1]).decode()
        return 'static_cast<%s>(%s)' % (t.cpp, s)
    if x[0] == 's':
        return 'std::string(%s, %d)' % (lit(x[1]), len(x[1]))
    raise ValueError(x)


def ext(name, t, moves=False, guise=None):
    params, base, extra, targs, after = GUISE[guise]
    text = '%sstruct %s%s { %s%s held {}; };\n' % (params, name, base, extra, t.cpp)
    text += after % {'n': name} if after else ''
    name += targs
    text += 'namespace ty { template <> struct Ext<%s> { static constexpr bool value = true; static %s& held(%s& x) { return x.held; } }; }\n' % (name, t.cpp, name)
    text += 'namespace json::ext { template <> class jsonization<%s> { public:\n' % name
    text += '  json::value to_json(const %s& x) const { return json::value(x.held); }\n' % name
    text += '  bool check_json(const json::value& v) const { return v.is<%s>(); }\n' % t.cpp
    text += '  bool from_json(const json::value& v, %s& x) const { if (!v.is<%s>()) { return false; } x.held = v.as<%s>(); return true; }\n' % (name, t.cpp, t.cpp)
    if moves:
        text += '  json::value move_to_json(%s&& x) const { return json::value(std::move(x.held)); }\n' % name
        text += '  bool move_from_json(json::value&& v, %s& x) const { if (!v.is<%s>()) { return false; } x.held = std::move(v).as<%s>(); return true; }\n' % (name, t.cpp, t.cpp)
    text += '}; }'
    return T(['ext', t.d], name, copy=t.copy, rv=t.rv, rd=t.rd, decl=decls(t) + [(name, text)], size=t.size + 1)


# ---------------------------------------------------------------- abstract values (mirrors Default and Enc of Types.tla)
def default(d):
    k = d[0]
    if k == 'bool':
        return ['b', False]
    if k == 'int':
        return ['n', [48]]
    if k == 'flt':
        return ['f', False, [48], 0]
    if k in ('str', 'path'):
        return ['s', []]
    if k in ('mono', 'json'):
        return ['z']
    if k == 'jarr':
        return ['a', []]
    if k == 'jobj':
        return ['o', []]
    if k == 'nul':
        return ['none']
    if k in ('seq', 'set', 'mset', 'uset', 'umset'):
        return ['l', []]
    if k == 'fix':
        return ['l', [default(d[2]) for _ in range(d[1])]]
    if k == 'tup':
        return ['l', [default(x) for x in d[1]]]
    if k == 'map':
        return ['m', []]
    if k == 'var':
        return ['alt', 0, default(d[1][0])]
    if k == 'enum':
        return ['e', [48]]
    if k == 'rec':
        return ['l', [f[3] for f in d[1]]]
    if k == 'ext':
        return default(d[1])
    raise ValueError(d)


def key_of(x):
    """the order of C++ values"""
    if x[0] == 'b':
        return x[1]
    if x[0] in 'ne' and x[0] != 'none':
        return int(bytes(x[1]))
    if x[0] == 's':
        return tuple(x[1])
    if x[0] == 'none':
        return ()
    if x[0] == 'some':
        return (key_of(x[1]),)
    if x[0] == 'l':
        return tuple(key_of(y) for y in x[1])
    raise ValueError(x)


def distinct(xs):
    out = {}
    for x in xs:
        out.setdefault(repr(x), x)
    return sorted(out.values(), key=key_of)


def rand_int(r, k):
    lo, hi = RANGE[k]
    c = r.random()
    if c < 0.2:
        return r.choice([lo, lo + 1, hi, hi - 1, 0, min(hi, 1), max(lo, -1)])
    if c < 0.5:
        return max(lo, min(hi, r.randint(-200, 200)))
    n = r.randint(0, hi) >> r.randrange(hi.bit_length())
    return -n if lo < 0 and r.random() < 0.5 else n


def rand_dec(r, k):
    n = FDIG[k]
    ds = str(r.randrange(10 ** r.randint(1, n))).strip('0') or '0'
    if ds == '0':
        return ['f', r.random() < 0.3, [48], 0]
    e = r.choice([0, 0, -1, -2, -len(ds), r.randint(-25, 25), r.randint(-290, 290) if k != 'f32' else r.randint(-30, 25)])
    return ['f', r.random() < 0.4, b(ds), e]


def rand_x(r, d, depth=0):
    k = d[0]
    n = lambda: 0 if r.random() < 0.15 else r.choice([1, 1, 2, 2, 3, 5] if depth < 2 else [1, 1, 2]) if r.random() < 0.95 else r.randint(6, 20) if depth or r.random() < 0.7 else r.choice([40, 64, 65, 100, 128, 129, 200, 257, 300])
    if k == 'bool':
        return ['b', r.random() < 0.5]
    if k == 'int':
        return ['n', b(str(rand_int(r, d[1])))]
    if k == 'flt':
        return rand_dec(r, d[1])
    if k == 'str':
        return ['s', gen.text(r, r.choice([3, 20, 70]))]
    if k == 'path':
        if r.random() < 0.5:
            return ['s', b('/'.join(r.choice(['', '', '.', '..', 'a', 'b c', 'C:', 'x.', '\\']) for _ in range(r.randint(1, 6))))]
        return ['s', [x for x in gen.text(r, r.choice([3, 20, 70])) if x != 0]]
    if k == 'mono':
        return ['z']
    if k == 'json':
        return gen.value(r, r.choice([0, 1, 2]), 3, 20)
    if k == 'jarr':
        return ['a', [gen.value(r, r.choice([0, 1, 2]), 3, 20) for _ in range(n())]]
    if k == 'jobj':
        v = ['z']
        while v[0] != 'o':
            v = gen.root(r, 2, 3, 20)
        return v
    if k == 'nul':
        return ['none'] if r.random() < 0.25 else ['some', rand_x(r, d[1], depth + 1)]
    if k == 'seq':
        return ['l', [rand_x(r, d[1], depth + 1) for _ in range(n())]]
    if k in ('set', 'uset'):
        return ['l', distinct([rand_x(r, d[1], depth + 1) for _ in range(n())])]
    if k in ('mset', 'umset'):
        xs = [rand_x(r, d[1], depth + 1) for _ in range(n())]
        if xs and r.random() < 0.5:
            xs.append(r.choice(xs))
        return ['l', sorted(xs, key=key_of)]
    if k == 'fix':
        return ['l', [rand_x(r, d[2], depth + 1) for _ in range(d[1])]]
    if k == 'tup':
        return ['l', [rand_x(r, x, depth + 1) for x in d[1]]]
    if k == 'map':
        ks = sorted({tuple(gen.text(r, r.choice([1, 3, 30]))) for _ in range(n())})
        return ['m', [[list(x), rand_x(r, d[1], depth + 1)] for x in ks]]
    if k == 'var':
        i = r.randrange(len(d[1]))
        return ['alt', i, rand_x(r, d[1][i], depth + 1)]
    if k == 'enum':
        if r.random() < 0.97 and d[2]:
            return ['e', r.choice(d[2])[0]]
        return ['e', b(str(rand_int(r, d[1])))]
    if k == 'rec':
        return ['l', [rand_x(r, f[1], depth + 1) for f in d[1]]]
    if k == 'ext':
        return rand_x(r, d[1], depth)
    raise ValueError(d)


def enc(d, x):
    k = d[0]
    if k == 'flt':
        return ['n', ([45] if x[1] else []) + x[2] + ([] if x[3] == 0 else b('e%d' % x[3]))]
    if k == 'enum':
        for num, name in d[2]:
            if num == x[1]:
                return ['s', name]
        return ['n', x[1]]
    if k == 'nul':
        return ['z'] if x[0] == 'none' else enc(d[1], x[1])
    if k in ('seq', 'set', 'mset', 'uset', 'umset'):
        return ['a', [enc(d[1], y) for y in x[1]]]
    if k == 'fix':
        return ['a', [enc(d[2], y) for y in x[1]]]
    if k == 'tup':
        return ['a', [enc(t, y) for t, y in zip(d[1], x[1])]]
    if k == 'map':
        return ['o', [[m[0], enc(d[1], m[1])] for m in x[1]]]
    if k == 'var':
        return enc(d[1][x[1]], x[2])
    if k == 'rec':
        return ['o', sorted([[f[0], enc(f[1], y)] for f, y in zip(d[1], x[1])])]
    if k == 'ext':
        return enc(d[1], x)
    return x


NUMS = ['0', '-0', '1', '-1', '1.0', '1e0', '10E1', '0.5', '127', '128', '-129', '256', '65536', '2147483647', '2147483648', '-2147483648', '-2147483649',
        '4294967295', '4294967296', '9223372036854775807', '9223372036854775808', '-9223372036854775808', '-9223372036854775809', '18446744073709551615',
        '18446744073709551616', '100000000000000000000', '1e400', '-1e-400', '1e38', '1e39', '1e308', '1e309', '3.5', '1e5', '123456', '1e-46', '1e-45']


def rand_json(r, depth=0):
    return gen.value(r, r.choice([0, 0, 1]), 2, 8)


def mutate(r, v):
    """one change somewhere in v"""
    if v[0] == 'a' and v[1] and r.random() < 0.8:
        c = r.random()
        i = r.randrange(len(v[1]))
        es = list(v[1])
        if c < 0.6:
            es[i] = mutate(r, es[i])
        elif c < 0.7:
            del es[i]
        elif c < 0.8:
            es.insert(i, es[i])
        elif c < 0.9:
            es.insert(r.choice([0, len(es)]), leaf(r))
        else:
            j = r.randrange(len(es))
            es[i], es[j] = es[j], es[i]
        return ['a', es]
    if v == ['a', []] and r.random() < 0.5:
        return ['a', [r.choice([['s', []], ['s', [49]], ['n', b('1')], ['b', True], ['z'], ['a', []], ['o', []], leaf(r)]) for _ in range(r.choice([1, 1, 2]))]]
    if v == ['o', []] and r.random() < 0.5:
        return ['o', [[gen.text(r, 4), r.choice([['s', []], ['n', b('1')], ['z'], leaf(r)])]]]
    if v[0] == 'o' and v[1] and r.random() < 0.8:
        c = r.random()
        ms = dict((tuple(k), x) for k, x in v[1])
        k = r.choice(list(ms))
        if c < 0.6:
            ms[k] = mutate(r, ms[k])
        elif c < 0.75:
            del ms[k]
        elif c < 0.9:
            x = ms.pop(k)
            ms[r.choice([k + (95,), tuple(y ^ 32 if 65 <= (y & ~32) <= 90 else y for y in k), k[:-1], k + (0,)])] = x
        else:
            ms[tuple(gen.text(r, 4))] = leaf(r)
        return ['o', [[list(k), ms[k]] for k in sorted(ms)]]
    if v[0] == 's' and r.random() < 0.4:
        s = list(v[1])
        c = r.random()
        if s and c < 0.4:
            i = r.randrange(len(s))
            s[i] = s[i] ^ 32 if c < 0.3 else r.randrange(256)
        elif s and c < 0.6:
            s.pop(r.randrange(len(s)))
        elif c < 0.8:
            s = [x ^ 32 if 65 <= (x & ~32) <= 90 else x for x in s]
        else:
            s.insert(r.randint(0, len(s)), r.choice([0, 32, 65, 95, 48]))
        return ['s', s]
    if v[0] == 'n' and r.random() < 0.5:
        return ['n', b(r.choice(NUMS))]
    return leaf(r)


def misnamed(r, d, v):
    """v, which is written for the reflected struct d, with members under names that are nearly those of fields"""
    if v[0] != 'o':
        return v
    keys = [tuple(f[0]) for f in d[1]]
    ms = dict((tuple(k), x) for k, x in v[1])
    for key, t, opt, init, plain in d[1]:
        name = r.choice([tuple(plain), tuple(plain), tuple(key) + (0,), tuple(y ^ 32 if 65 <= (y & ~32) <= 90 else y for y in key)])
        if name in keys or r.random() < 0.3:
            continue
        ms[name] = leaf(r) if r.random() < 0.2 else enc(t, rand_x(r, t))
        if r.random() < (0.5 if opt else 0.1):
            ms.pop(tuple(key), None)
    return ['o', [[list(k), ms[k]] for k in sorted(ms)]]


def leaf(r):
    c = r.random()
    if c < 0.35:
        return ['n', b(r.choice(NUMS))]
    if c < 0.75:
        return r.choice([['z'], ['b', True], ['b', False], ['s', []], ['s', [49]], ['s', b('true')], ['a', []], ['o', []], ['a', [['z']]], ['o', [[[97], ['z']]]]])
    return rand_json(r)


def neg_zero_free(v):
    """reading -0 as unsigned is left open"""
    if v == ['n', [45, 48]]:
        return ['n', [48]]
    if v[0] == 'a':
        return ['a', [neg_zero_free(x) for x in v[1]]]
    if v[0] == 'o':
        return ['o', [[k, neg_zero_free(x)] for k, x in v[1]]]
    return v


def has_unsigned(d):
    s = json.dumps(d)
    return any('"%s"' % k in s for k in ('u8', 'u16', 'u32', 'u64'))


# ---------------------------------------------------------------- random types
WORDS = ['name', 'id', 'count', 'size', 'kind', 'data', 'items', 'value', 'key', 'in', 'result', 'error_key', 'var', 'rest', 'state', 'in_', 'val', 'temp', 'dst',
         'obj', 'arr', 'opts', 'x', 'y', 'z1', 'camelCase', 'snake_case', '_lead', 'UPPER', 'a1b2', 'object', 'array', 'str', 'pred', 'N']


class Maker:
    """Random types. Names of declared types are numbered."""

    def __init__(self, r, prefix='Q'):
        self.r, self.n, self.prefix = r, 0, prefix

    def name(self, kind):
        self.n += 1
        return '%s%s%d' % (self.prefix, kind, self.n)

    def enum(self):
        r = self.r
        under = r.choice(['int', 'int', 'unsigned', 'long', 'unsigned long', 'long long'])
        lo, hi, rng = -128, 128, None
        if r.random() < 0.5:
            lo = r.randint(-40, 300) if UNDER[under][0] == 'i' else r.randint(0, 300)
            hi = lo + r.randint(0, 60)
        if UNDER[under][0] == 'u':
            lo = max(lo, 0)
        nums = sorted(r.sample(range(lo, hi + 1), min(hi - lo + 1, r.randint(1, 9))))
        if (lo, hi) != (-128, 128) and not (lo == 0 and hi == 128):
            rng = (nums[1], nums[-2]) if len(nums) > 3 and r.random() < 0.3 else (nums[0], nums[-1])
        elif UNDER[under][0] == 'u':
            rng = (nums[0], nums[-1])
        names = []
        for v in nums:
            base = r.choice(['Red', 'GREEN', 'blue', 'Foo_Bar', 'x', 'Xy', 'Z9', '_u', 'aLongerEnumeratorNameThanUsual', 'E'])
            while base.lower() in [x.lower() for x in names]:
                base += r.choice('abcXYZ_0123456789')
            names.append(base)
        items = list(zip(names, nums))
        r.shuffle(items)
        scoped = r.random() < 0.7
        # unscoped enumerators need a scope of their own
        where = '' if scoped and r.random() < 0.6 else self.name('ns') if r.random() < 0.5 else '+' + self.name('H')
        return enum(self.name('E'), items, under, scoped, rng, where)

    def scalar(self, ordered=False):
        r = self.r
        c = ['bool', 'i32', 'i32', 'u32', 'i64', 'u64', 'ill', 'ull', 'str', 'str', 'str']
        if not ordered:
            c += ['f32', 'f64', 'f64', 'f80', 'path', 'json', 'jarr', 'jobj', 'enum', 'enum']
        n = r.choice(c)
        return self.enum() if n == 'enum' else scalar(n)

    def ordered(self, depth):
        r = self.r
        if depth == 0 or r.random() < 0.5:
            return scalar('i32') if r.random() < 0.2 else self.enum() if r.random() < 0.2 else self.scalar(True)
        c = r.choice(['pair', 'vec', 'opt', 'set', 'tup', 'fix'])
        t = self.ordered(depth - 1)
        if c == 'vec':
            t = seq(r.choice(['vector', 'list', 'deque']), scalar('str') if t.cpp == 'bool' else t)
        elif c == 'opt':
            t = nul('opt', t)
        elif c == 'set':
            t = set_('set', t)
        elif c == 'fix':
            t = fix(r.randint(1, 3), t)
        else:
            t = tup([t, self.ordered(depth - 1)], c == 'pair')
        return t

    def type(self, depth):
        r = self.r
        if depth == 0:
            return self.scalar()
        c = r.choice(['nul', 'nul', 'seq', 'seq', 'seq', 'set', 'uset', 'mset', 'fix', 'tup', 'pair', 'map', 'map', 'var', 'rec', 'rec', 'ext', 'enum'])
        sub = lambda: self.type(r.randint(0, depth - 1))
        if c == 'nul':
            t = sub()
            while t.d[0] == 'mono':
                t = sub()
            return nul(r.choice(['opt', 'opt', 'shared', 'uniq']), t)
        if c == 'seq':
            return seq(r.choice(['vector', 'vector', 'list', 'deque']), sub())
        if c == 'set':
            return set_('set', self.ordered(depth - 1))
        if c == 'mset':
            return set_('multiset', self.ordered(depth - 1))
        if c == 'uset':
            t = self.scalar(True)
            return set_('unordered_set', self.enum() if r.random() < 0.2 else t)
        if c == 'fix':
            t = sub()
            return fix(r.choice([0, 1, 2, 3, 5]), t)
        if c == 'tup':
            ts = [sub() for _ in range(r.choice([2, 2, 3, 4]))]
            return tup(ts)
        if c == 'pair':
            return tup([sub(), sub()], True)
        if c == 'map':
            return map_(r.choice(['map', 'unordered_map']), sub())
        if c == 'var':
            ts = []
            if r.random() < 0.3:
                ts.append(scalar('mono'))
            for _ in range(r.choice([1, 2, 3])):
                t = sub()
                if t.cpp not in [x.cpp for x in ts] and t.d[0] != 'var':
                    ts.append(t)
            return var(ts) if ts else seq('vector', scalar('i32'))
        if c == 'rec':
            return self.rec(r.choice([1, 2, 3, 4, 6]), depth - 1)
        if c == 'ext':
            return ext(self.name('X'), sub(), r.random() < 0.5)
        return self.enum()

    def rec(self, n, depth, tags=None, all_opt=False):
        """tags: how many MEO_OPT / MEO_KEY to place; None: at random"""
        r = self.r
        names = []
        while len(names) < n:
            w = r.choice(WORDS)
            if w in names:
                w = '%s%d' % (w, len(names))
            if w not in names:
                names.append(w)
        if tags is None:
            tags = r.randint(0, n)
        slots = [(i, k) for i in range(n) for k in 'ok']
        chosen = set(r.sample(slots, min(tags, len(slots))))
        if all_opt:
            chosen |= {(i, 'o') for i in range(n)}
        elif all((i, 'o') in chosen for i in range(n)):
            chosen.discard((r.randrange(n), 'o'))
        fields, keys = [], set()
        for i, nm in enumerate(names):
            t = self.type(r.randint(0, depth)) if depth >= 0 else scalar(r.choice(['i32', 'str', 'bool', 'i32']))
            key = None
            if (i, 'k') in chosen:
                key = tuple(r.choice([gen.text(r, 6), b('kebab-case'), b('with space'), b(nm.upper()), [], b('"quoted"'), [195, 169]]))
                key = list(x for x in key if x != 0)
            if tuple(key if key is not None else b(nm)) in keys or (key is not None and bytes(key).decode('latin-1') in names):
                key = b('key-%d' % i)
            keys.add(tuple(key if key is not None else b(nm)))
            init = None
            if t.d[0] in ('int', 'bool', 'str') and t.cpp != 'bool_' and r.random() < 0.3:
                init = rand_x(r, t.d)
                if init[0] == 'n' and int(bytes(init[1])) not in range(-2 ** 31 + 1, 2 ** 31):
                    init = ['n', b('42')]
            fields.append((nm, t, (i, 'o') in chosen, key, init))
        return rec(self.name('R'), fields, r, split=r.random() < 0.3)


# ---------------------------------------------------------------- C++ units
def units(types, n):
    """Sources of about n types each; registers the types under their position (from 0)."""
    out = []
    for k in range(0, len(types), n):
        part = list(enumerate(types))[k:k + n]
        text = '#include "types.hpp"\n'
        seen = set()
        for _, t in part:
            for name, d in t.decl:
                if name not in seen:
                    seen.add(name)
                    text += d + '\n'
        for i, t in part:
            text += 'using T%d = %s;\nstatic ty::Register reg%d(%d, &ty::Ops<T%d, %s, %s, %s, %s, %s>::handle);\n' % (
                i, t.cpp, i, i, i, *('true' if x else 'false' for x in (t.copy, t.rv, not any('move_to_json' in d[1] for d in t.decl), t.rd)), "'%s'" % t.k)
        out.append(text)
    return out


# ---------------------------------------------------------------- the types that are always there
def fixed_enums():
    return [
        enum('Color', [('Red', -1), ('Green', 0), ('Blue', 5), ('deep_Violet', 128), ('Lowest', -128)]),
        enum('Level', [('low', 1), ('Mid', 2), ('HIGH', 40)], 'unsigned', False, (1, 40)),
        enum('Far', [('Zero', 0), ('Below', -7), ('Above', 290), ('Huge', 5000000000)], 'long', True, (-7, 290), 'deep::er'),
        enum('Only', [('Only', 7)], 'int', True, (7, 7)),
        enum('Negative', [('a', -300), ('B', -299), ('c_', -200)], 'int', True, (-300, -200), '+Holder'),
        enum('Outside', [('In', 3), ('Over', 129), ('Under', -129), ('Way', 70000), ('Top', 300), ('Bottom', -130), ('Past', 301), ('Edge', 127), ('_Edge2', -127)], 'int', True),
        enum('Wide', [('w0', 0), ('w1', 1), ('w2', 4294967296), ('w3', 18446744073709551615), ('w4', 2147483648)], 'unsigned long long', True, (0, 1)),
        enum('Flags', [('None', 0), ('A', 1), ('AB', 2), ('ABC', 4), ('Ab_c', 8), ('A_', 16), ('_', 32), ('a1', 64), ('zZ9', 128)], 'int', False),
        enum('Tiny', [('N', -1), ('Z', 0), ('P', 1)], 'signed char', True, (-1, 1)),
        enum('Byte', [('Lo', 0), ('Hi', 255)], 'unsigned char', True, (0, 255)),
        enum('Small', [('S', -5), ('L', 300)], 'short', True, (-5, 300)),
        enum('LL', [('first', -9223372036854775807), ('mid', -128), ('last', 9223372036854775807)], 'long long', True),
    ]


def record_types():
    S = scalar
    color = fixed_enums()[0]
    point = rec('Point', [('x', S('i32'), False, None, None), ('y', S('i32'), False, None, None)])
    person = rec('Person', [('name', S('str'), False, None, None), ('age', S('i32'), True, None, ['n', [52, 50]]), ('at', point, False, b('position'), None),
                            ('tags', seq('vector', S('str')), True, b('the tags'), None), ('likes', map_('map', seq('vector', point)), True, None, None),
                            ('mood', nul('opt', color), False, None, None)])
    swapped = rec('Swapped', [('a', S('i32'), False, b('b'), None), ('b', S('str'), False, b('a'), None), ('c', S('bool'), True, b('A'), ['b', True])])
    team = rec('Team', [('lead', person, False, None, None), ('rest', seq('vector', person), True, None, None), ('by', map_('unordered_map', person), True, b('by-name'), None),
                        ('pick', var([point, S('str')]), False, None, None), ('result', nul('shared', point), False, None, None)])
    return [point, person, swapped, team]


def fixed_types():
    S = scalar
    out = [S(n) for n in ('bool', 'i32', 'u32', 'i64', 'u64', 'ill', 'ull', 'f32', 'f64', 'f80', 'str', 'path', 'mono', 'null', 'json', 'jarr', 'jobj')]
    out += [S(n) for n in NARROW]
    color, level, far = fixed_enums()[:3]
    out += [color, level, far]
    out += [nul('opt', S('i32')), nul('shared', S('str')), nul('uniq', S('str')), nul('opt', seq('vector', S('str'))), nul('shared', map_('map', S('str')))]
    out += [seq('vector', S('bool')), seq('vector', S('str')), seq('list', S('i32')), seq('deque', seq('vector', S('f64'))), seq('forward_list', S('str')),
            seq('vector', S('json')), seq('vector', nul('shared', S('str'))), seq('vector', nul('uniq', S('str'))), seq('vector', color), seq('vector', S('i16'))]
    out += [set_('set', S('str')), set_('set', S('i32')), set_('multiset', S('i32')), set_('unordered_set', S('str')), set_('unordered_set', level),
            set_('set', tup([S('str'), S('i32')], True))]
    out += [fix(0, S('str')), fix(3, S('i32')), fix(2, nul('opt', S('str')))]
    out += [tup([S('str'), S('i32')], True), tup([S('i32'), S('str'), nul('opt', S('bool'))]), tup([S('u64')]), tup([seq('vector', S('str')), S('json')], True), tup([])]
    out += [map_('map', S('i32')), map_('unordered_map', S('str')), map_('map', seq('vector', nul('opt', S('i32')))), map_('map', S('json')), map_('unordered_map', S('bool')),
            map_('map', nul('shared', seq('vector', S('str'))))]
    out += [var([S('i32'), S('str')]), var([S('mono'), S('bool'), S('i64'), S('f64'), S('str')]), var([seq('vector', S('i32')), seq('vector', S('str'))]),
            var([S('str'), map_('map', S('i32')), seq('vector', S('str'))]), seq('vector', var([S('i32'), S('str')])), var([color, S('str')]),
            var([S('i32'), S('bool'), S('str'), nul('opt', S('f64'))]), var([seq('vector', S('i32')), S('bool'), S('u32'), S('str'), nul('shared', S('i64'))])]
    out += [seq('UVec', S('str')), seq('UBag', S('str')), seq('USink', S('i32')), seq('pmr::vector', S('str')), fix(2, S('str'), True), map_('UMap', S('i32')),
            map_('greater', S('str')), map_('pmr', S('i32')), tup([S('str'), S('i32')], 'UPair'), nul('handle', S('str')), nul('handle', seq('vector', S('str'))), nul('del', S('str'))]
    out += record_types()[:2]
    celsius = ext('Celsius', S('f64'))
    blob = ext('Blob', seq('vector', S('str')), True)
    # classes that look like something the library knows as well, and that say themselves what they are in JSON
    for i, g in enumerate(['list', 'map', 'nul', 'arr', 'tup']):
        fields = [('a', S('i32'), False, None, None), ('b', S('str'), i % 2 == 0, b('the b') if i % 2 else None, None)]
        out += [rec('Guise' + g, fields, guise=g, split=i % 2 == 1), ext('Like' + g, seq('vector', S('str')), i % 2 == 0, guise=g)]
    out += [celsius, blob, seq('vector', celsius), map_('map', blob), nul('shared', blob), nul('opt', nul('opt', S('i32')))]
    return out
