"""Generators of requests: documents and values. Everything is a function of the random generator it is given."""
import random

SPECIAL = [0x22, 0x5c, 0x2f, 0x2a, 0x0a, 0x0d, 0x09, 0x20, 0x00, 0x1f, 0x01, 0x7f, 0x80, 0xff, 0x5b, 0x5d, 0x7b, 0x7d, 0x2c, 0x3a, 0x30, 0x31, 0x39,
           0x2d, 0x2b, 0x2e, 0x65, 0x45, 0x75, 0x74, 0x66, 0x6e, 0x61, 0xef, 0xbb, 0xbf, 0x08, 0x0c, 0x0b, 0xa0]

WORDS = [  # sequences of bytes that mean something somewhere (MC_Words)
    b'\xef\xbb\xbf',
    b'\xef\xbb',
    b'\xbb\xbf',
    b'\xe2\x80\xa8',
    b'\xe2\x80\xa9',
    b'\xef\xbf\xbd',
    b'\xef\xbf\xbe',
    b'\xef\xbf\xbf',
    b'\xc2\xa0',
    b'\xc2\x85',
    b'\xc2\xad',
    b'\xe2\x80\x8b',
    b'\xe2\x80\x8d',
    b'\xe3\x80\x80',
    b'\xc0\x80',
    b'\xc1\xbf',
    b'\xe0\x80\x80',
    b'\xe0\x9f\xbf',
    b'\xf0\x80\x80\x80',
    b'\xed\xa0\x80',
    b'\xed\xbf\xbf',
    b'\xed\xa0\xbd\xed\xb8\x80',
    b'\xf0\x9f\x98\x80',
    b'\xf4\x8f\xbf\xbf',
    b'\xf4\x90\x80\x80',
    b'\xf8\x88\x80\x80\x80',
    b'\xfe\xff',
    b'\xff\xfe',
    b'\xc3',
    b'\xe4\xb8',
    b'\xe4\xb8\xad',
    b'e\xcc\x81',
    b'\xc3\xa9',
    b'\xc7\x85',
    b'\xef\xac\x81',
    b'\x7f',
    b'</script>',
    b'<!--',
    b'-->',
    b']]>',
    b'<&>',
    b'&amp;',
    b'//',
    b'/*',
    b'*/',
    b'#',
    b'null',
    b'true',
    b'false',
    b'NaN',
    b'Infinity',
    b'-1',
    b'0x10',
    b'1e5',
    b'%s',
    b'%n',
    b'${a}',
    b'{{',
    b'}}',
    b'[]',
    b'{}',
    b'":',
    b'","',
    b'\\u0000',
    b'\\u2028',
    b'\\ufeff',
    b'\\x41',
    b'\\\\',
    b'\\/',
    b'\r\n',
    b'\n',
    b'\t',
    b'\x00',
    b'\x1b[0m',
    b"'",
    b'`',
    b'__proto__',
    b'$ref',
    b'.',
    b'..',
    b' ',
    b'  ',
    b'a',
    b'A',
]


def b(s):
    return list(s.encode('utf-8') if isinstance(s, str) else s)


# ---- values (abstract) ----
def number(r):
    k = r.randrange(9)
    if k == 0:
        return r.choice(['0', '-0', '1', '-1', '10', '123', '-45', '2147483647', '-2147483648', '4294967295', '9223372036854775807',
                         '18446744073709551615', '18446744073709551616'])
    s = r.choice(['', '-']) + r.choice(['0', str(r.randrange(1, 10)), str(r.randrange(1, 10 ** r.randrange(1, 25)))])
    if k >= 4:
        s += '.' + ''.join(r.choice('0123456789') for _ in range(r.randrange(1, 8)))
    if k >= 6:
        s += r.choice('eE') + r.choice(['', '+', '-']) + ''.join(r.choice('0123456789') for _ in range(r.randrange(1, 4)))
    return s


def text(r, maxlen=40):
    k = r.randrange(8)
    n = r.choice([0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65]) if r.random() < 0.3 else r.randrange(maxlen + 1)
    n = min(n, max(maxlen, 1) * 2)
    if k < 3:
        return [r.choice(b('abcdefghij KLMNOP.0123')) for _ in range(n)]
    if k < 5:
        t = [r.choice(b('abcdefghij')) for _ in range(n)]
        for _ in range(r.randrange(1, 4)):
            if t:
                t[r.randrange(len(t))] = r.choice(SPECIAL)
        return t
    if k < 6:
        if r.random() < 0.5:
            t = [x for _ in range(r.randrange(1, 5)) for x in (r.choice(WORDS) if r.random() < 0.7 else b'abcdefghijklmnop'[:r.randrange(17)])]
            return t[:2 * maxlen + 8]
        return [r.randrange(256) for _ in range(n)]
    if k < 7:
        return b(''.join(chr(r.choice([0x41, 0xe9, 0x4e2d, 0x1f600, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0x7f, 0x80])) for _ in range(n // 3 + 1)))
    return [r.choice(SPECIAL) for _ in range(n)]


def value(r, depth=3, width=4, maxlen=24):
    k = r.randrange(10 if depth > 0 else 6)
    if k == 0:
        return ['z']
    if k == 1:
        return ['b', r.random() < 0.5]
    if k <= 3:
        return ['n', b(number(r))]
    if k <= 5:
        return ['s', text(r, maxlen)]
    n = r.randrange(width + 1)
    if k <= 7:
        return ['a', [value(r, depth - 1, width, maxlen) for _ in range(n)]]
    return ['o', obj(r, n, lambda: value(r, depth - 1, width, maxlen), maxlen)]


def obj(r, n, mk, maxlen=12):
    keys = {}
    for _ in range(n):
        k = r.choice([b(x) for x in ('', 'a', 'b', 'aa', 'ab', 'A', 'key', 'k1', 'k10', 'k2', 'name')]) if r.random() < 0.6 else text(r, maxlen)
        keys[tuple(k)] = mk()
    return [[list(k), keys[k]] for k in sorted(keys)]


def root(r, depth=4, width=5, maxlen=24):
    while True:
        v = value(r, depth, width, maxlen)
        if v[0] in 'ao':
            return v


# ---- values of unusual magnitude ----
def big_text(r, n):
    k = r.randrange(4)
    t = [r.choice(b('abcdefghij KLMNOP.0123'))] * n if k == 0 else [97 + i % 26 for i in range(n)]
    for _ in range([0, 1, 3, n // 10][k]):
        t[r.choice([0, n - 1, r.randrange(n)])] = r.choice(SPECIAL)
    return t


def flat_leaf(r, i):
    return r.choice([['n', b(str(i))], ['s', b('text %d' % i)], ['z'], ['b', True], ['a', []], ['o', []], ['a', [['n', b(str(i))]]]])


def big_container(r, n, kind=None):
    if (kind or r.choice('ao')) == 'a':
        return ['a', [flat_leaf(r, i) for i in range(n)]]
    ks = sorted({tuple(b(r.choice(['n%d', '%d', 'a name that is long enough to live elsewhere %d']) % i)) for i in range(n)})
    return ['o', [[list(k), flat_leaf(r, i)] for i, k in enumerate(ks)]]


NUMS_ALIKE = ['-0', '0.0', '1.0', '1e2', '1E2', '-1.50', '2147483648', '-2147483649', '4294967296', '9223372036854775808', '18446744073709551615', '18446744073709551616', '1' * 30]


def alike(r, n):
    """n parts that could be taken for uniform, of which at most two are not"""
    k = r.randrange(8)
    mk = [lambda i: ['n', b(str(i))], lambda i: ['n', b(str(r.randrange(-9, 10 ** r.randrange(1, 18))))], lambda i: ['b', r.random() < 0.5], lambda i: ['s', b('text %d' % i)],
          lambda i: ['s', big_text(r, 20)], lambda i: ['o', [[b('x'), ['n', b(str(i))]], [b('y'), ['s', b('t')]]]], lambda i: ['a', [['n', b(str(i))], ['n', b('0.5')]]], lambda i: ['z']][k]
    l = [mk(i) for i in range(n)]
    for _ in range(r.choice([0, 1, 1, 1, 2])):
        odd = r.choice([['n', b(r.choice(NUMS_ALIKE))], ['n', b(r.choice(NUMS_ALIKE))], ['s', b('12')], ['s', []], ['s', [r.choice(SPECIAL)]], ['z'], ['b', True], ['a', []], ['o', []],
                        ['o', [[b('x'), ['n', b('1')]]]], ['o', [[b('x'), ['s', b('1')]], [b('y'), ['n', b('2')]]]], ['a', [['n', b('1')]]]])
        l[r.choice([0, n - 1, n // 2, r.randrange(n), r.randrange(n)])] = odd
    if r.random() < 0.3:
        ks = sorted({tuple(b('n%d' % i)) for i in range(n)})
        return ['o', [[list(q), x] for q, x in zip(ks, l)]]
    return ['a', l]


def one_odd_byte(r, n):
    """long texts with a single byte that is not like the others; every control character gets its turn"""
    for x in list(range(32)) + [0x22, 0x5c, 0x2f, 0x7f, 0x80, 0xe2, 0xff]:
        t = [97] * (n + r.randrange(40))
        t[r.choice([0, len(t) - 1, r.randrange(len(t)), r.randrange(len(t))])] = x
        yield t


def one_odd_number(r, n):
    """many integers and one number that is written in another way, or reaches further"""
    for x in NUMS_ALIKE:
        l = [['n', b(str(r.randrange(-9, 10 ** r.choice([1, 3, 8]))))] for _ in range(n + r.randrange(20))]
        l[r.choice([r.randrange(1, len(l) - 1), r.randrange(len(l))])] = ['n', b(x)]
        yield ['a', l] if r.random() < 0.8 else ['o', [[list(k), y] for k, y in zip(sorted({tuple(b('n%d' % i)) for i in range(len(l))}), l)]]


def chain(r, n, inner=None):
    """n containers inside each other, with something beside the path now and then"""
    v = r.choice([['z'], ['n', [49]], ['s', b('x')], ['a', []], ['o', []]]) if inner is None else inner
    kinds = r.choice(['a', 'o', 'ao', 'ao'])
    for _ in range(n):
        k = r.choice(kinds)
        side = r.random()
        if k == 'a':
            v = ['a', [v] if side < 0.6 else [v, ['z']] if side < 0.8 else [['n', [48]], v]]
        else:
            v = ['o', [[b('k'), v]] if side < 0.6 else sorted([[b('k'), v], [r.choice([b('a'), b('z')]), ['b', False]]])]
    return v


def magnitudes(r, count=1, sizes=(64, 65, 100, 128, 129, 255, 256, 257, 300, 511, 513, 1000, 1025)):
    """large flat containers, long strings and names, long chains"""
    for _ in range(count):
        for n in sizes:
            yield big_container(r, n)
            yield ['a', [['s', big_text(r, n)], ['o', [[big_text(r, n), ['z']]]]]]
        for n in (16, 31, 32, 33, 50, 64, 65, 70):
            yield chain(r, n)


def flatten(v, out=None):
    out = [] if out is None else out
    todo = [v]
    while todo:
        x = todo.pop()
        if x[0] == 'k':
            out.append(x)
        elif x[0] == 'a':
            out.append(['a', len(x[1])])
            todo += reversed(x[1])
        elif x[0] == 'o':
            out.append(['o', len(x[1])])
            for k, y in reversed(x[1]):
                todo += [y, ['k', k]]
        else:
            out.append(x)
    return out


# ---- documents ----
def enc_text(r, t, style):
    """One of the many spellings of a string. style 0: minimal escapes, 1: random escapes."""
    out = [0x22]
    i = 0
    # decode runs of valid UTF-8 only when spelling with \\u
    while i < len(t):
        c = t[i]
        must = c in (0x22, 0x5c) or c < 0x20
        if must or (style and r.random() < 0.25):
            short = {0x22: '"', 0x5c: '\\', 0x2f: '/', 8: 'b', 12: 'f', 10: 'n', 13: 'r', 9: 't'}
            if c in short and r.random() < 0.6:
                out += b('\\' + short[c])
                i += 1
                continue
            if c < 0x80:
                out += b('\\u' + ''.join(r.choice([x.upper(), x.lower()]) for x in '%04x' % c))
                i += 1
                continue
            done = False
            for n in (2, 3, 4):
                try:
                    ch = bytes(t[i:i + n]).decode('utf-8')
                except UnicodeDecodeError:
                    continue
                if len(ch) != 1:
                    continue
                cp = ord(ch)
                units = [cp] if cp < 0x10000 else [0xd800 + ((cp - 0x10000) >> 10), 0xdc00 + ((cp - 0x10000) & 0x3ff)]
                for u in units:
                    out += b('\\u' + ''.join(r.choice([x.upper(), x.lower()]) for x in '%04x' % u))
                i += n
                done = True
                break
            if done:
                continue
        out.append(c)
        i += 1
    return out + [0x22]


def comment(r):
    body = [r.choice(SPECIAL + b('abc "*/')) for _ in range(r.randrange(8))]
    if r.random() < 0.5:
        return b('//') + [x for x in body if x != 10] + [10]
    out = b('/*')
    for x in body:
        if x == 0x2f and out[-1] == 0x2a and len(out) > 2:
            continue
        out.append(x)
    if out[-1] == 0x2a and len(out) > 2 and False:
        out.append(0x20)
    return out + b('*/')


def gap(r, style, jc):
    out = []
    if style and r.random() < 0.3:
        out += [r.choice([32, 9, 10, 13]) for _ in range(r.randrange(4))]
    if jc and r.random() < 0.25:
        out += comment(r) + [r.choice([32, 10]) for _ in range(r.randrange(2))]
        if r.random() < 0.3:
            out += comment(r)
    return out


def doc(r, v, style=1, jc=False):
    g = lambda: gap(r, style, jc)
    def go(v):
        t = v[0]
        if t == 'z':
            return b('null')
        if t == 'b':
            return b('true' if v[1] else 'false')
        if t == 'n':
            return list(v[1])
        if t == 's':
            return enc_text(r, v[1], style)
        if t == 'a':
            out = [0x5b] + g()
            for i, x in enumerate(v[1]):
                if i:
                    out += [0x2c] + g()
                out += go(x) + g()
            if jc and v[1] and r.random() < 0.3:
                out += [0x2c] + g()
            return out + [0x5d]
        out = [0x7b] + g()
        ms = list(v[1])
        r.shuffle(ms)
        for i, (k, x) in enumerate(ms):
            if i:
                out += [0x2c] + g()
            out += enc_text(r, k, style) + g() + [0x3a] + g() + go(x) + g()
        if jc and ms and r.random() < 0.3:
            out += [0x2c] + g()
        return out + [0x7d]
    out = g() + go(v) + g()
    if jc and r.random() < 0.2:
        out += r.choice([b('// end'), b('//'), b('/**/'), b('/***/'), b('//*/'), b('/* */ //\n')])
    return out


def mutate(r, d):
    d = list(d)
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        k = r.randrange(7)
        p = r.randrange(len(d) + 1)
        if k == 0 and d:
            del d[min(p, len(d) - 1)]
        elif k == 1:
            d.insert(p, r.choice(SPECIAL))
        elif k == 2 and d:
            d[min(p, len(d) - 1)] = r.choice(SPECIAL)
        elif k == 3 and d:
            d = d[:p]
        elif k == 4 and d:
            q = r.randrange(len(d) + 1)
            d = d[:p] + d[min(p, q):max(p, q)] + d[p:]
        elif k == 5:
            d = d[:p] + b(r.choice(['/**/', '//', '/*', '*/', ',', ',]', '\\u', '\\ud800', '\\udc00', '[]', '{}', 'null', '00', '"a":', '\n', '//x\n']))+ d[p:]
        else:
            d.append(r.choice(SPECIAL))
    return d


def string_sweep(r, lengths, tails=(0, 20), per=8):
    """Strings in which something special stands at a given offset, so that it meets the vector paths in every lane."""
    specials = [b('\\n'), b('\\"'), b('\\\\'), b('\\u00e9'), b('\\ud83d\\ude00'), b('\\uD800'), b('\\udc00'), b('\\ud800\\u0041'), b('\\ud83dx'),
                [0x1f], [0x00], [0x0a], [0x09], [0x20], [0x7f], [0x80], [0xff], [0xa2], [0xdc], b('\\'), b('\\x'), b('"'), b('\\u12'), b('\\/'), b('/*x*/'), b('//')]
    for n in lengths:
        for off in range(n + 1):
            for sp in (specials if per is None else r.sample(specials, per)):
                filler = r.choice([[0x61], [0x21], [0x23], [0x5b], [0x5d], [0x7e], [0xa3], [0x20], [0x80], [0xff], list(range(0x23, 0x5c)), list(range(0x5d, 0x100))])
                s = [filler[i % len(filler)] for i in range(n)]
                s = s[:off] + sp + s[off:]
                tail = [0x20] * r.choice(tails)
                if r.random() < 0.3:
                    yield b('{"') + s + b('":1') + tail + b('}')
                else:
                    yield b('["') + s + b('"') + tail + b(r.choice([']', ',"z"]', ',"' + 'q' * 20 + '"]']))


def numbers_sweep(maxlen):
    import itertools
    for n in range(1, maxlen + 1):
        for t in itertools.product(b('-019.eE+'), repeat=n):
            yield [0x5b] + list(t) + [0x5d]


def trailing_sweep():
    roots = [b('[]'), b('{}'), b('[1]'), b('{"a":[]}'), b(' [ ] ')]
    tails = ['', ' ', '\n', '/', '//', '// x', '/*', '/**', '/* */', '/**/ ', '/ /', '/x', ' /', ' //', '[]', '{}', ',', ']', '}', '1', '"', 'null', '\0', '\0\0',
             ' \0', '\0x', ' /* */ x', '// x\n', '// x\ny', '// \n/', '/**//', '/**//**/', '//\n//', '*', '/*/', '/*/*/', '/* *\0/', '/*\0*/', '//\0', '\r', '\t', '\x0b',
             '\x0c', '\x85', '\x1f', '\xa0']
    for d in roots:
        for t in tails:
            yield d + list(t.encode('latin-1'))
            yield list(t.encode('latin-1')) + d
        for c in range(256):
            yield d + [c]
            yield d + [32, c]
            yield d + [c, 32]
            yield [c] + d
            yield d + [c] + d


def dup_keys(r, n):
    for _ in range(n):
        k = text(r, 10)
        other = [text(r, 10) for _ in range(r.randrange(6))]
        keys = [k] + other + ([k] if r.random() < 0.6 else [k + [0x61]])
        r.shuffle(keys)
        out = [0x7b]
        for i, x in enumerate(keys):
            out += ([0x2c] if i else []) + enc_text(r, x, 1) + b(':') + b(r.choice(['1', '{}', '[]', '"v"']))
        yield out + [0x7d]


def unicode_sweep(step, r):
    """Every code unit (in blocks of an array of strings), surrogate pairs, and lone surrogates one by one."""
    cps = [c for c in range(0, 0x10000) if not 0xd800 <= c <= 0xdfff]
    if step > 1:
        edge = {c + d for c in (0, 0x20, 0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x100, 0x10, 0x1f) for d in (-1, 0, 1)}
        cps = [c for c in cps if c in edge or r.randrange(step) == 0]
    for i in range(0, len(cps), 64):
        out = [0x5b]
        for j, c in enumerate(cps[i:i + 64]):
            h = ('%04x' if j % 2 else '%04X') % c
            out += b((',' if j else '') + '"' + r.choice(['', 'x']) + '\\u' + h + r.choice(['', 'y']) + '"')
        yield out + [0x5d]
    his = list(range(0xd800, 0xdc00)) if step == 1 else [0xd800, 0xd801, 0xd83d, 0xdbfe, 0xdbff] + [r.randrange(0xd800, 0xdc00) for _ in range(20)]
    los = [0xdc00, 0xdc01, 0xde00, 0xdffe, 0xdfff] + [r.randrange(0xdc00, 0xe000) for _ in range(5)]
    for h in his:
        yield b('[' + ','.join('"\\u%04x\\u%04X"' % (h, l) for l in los) + ']')
    nonlow = [0xd7ff, 0xe000, 0xd800, 0xdbff, 0x41, 0, 0xffff, 0x10]
    for h in r.sample(his, min(len(his), 40)):
        for l in nonlow:
            yield b('["\\u%04x\\u%04X"]' % (h, l))
        for t in ['', 'a', '\\n', ' ', 'aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa', 'a\\udc00', '\\u', '\\ud', '\\\\udc00', '\\u00e9', '\\u0041\\udc00', '\\ud800\\udc00', '\xe9']:
            yield b('["\\u%04x%s"]' % (h, t))
            yield b('["\\u%04x%s", "%s"]' % (h, t, 'z' * 40))
    for l in los:
        for t in ['', 'a', '\\ud800', 'b' * 40]:
            yield b('["%s\\u%04x"]' % (t, l))
            yield b('["\\u%04x%s"]' % (l, t))
            yield b('["\\ud83d\\ude00\\u%04x%s"]' % (l, t))


def big_docs(r, scale=1):
    n = 40
    yield b('[' * n + ']' * n)
    yield b('{"k":' * n + '1' + '}' * n)
    yield b('[' * n + ']' * (n - 1))
    yield b('[' * n + ']' * (n + 1))
    yield b('[' + ','.join(str(i) for i in range(600 * scale)) + ']')
    ks = ['k%d' % i for i in range(150 * scale)]
    r.shuffle(ks)
    yield b('{' + ','.join('"%s":%d' % (k, i) for i, k in enumerate(ks)) + '}')
    yield b('{' + ','.join('"%s":%d' % (k, i) for i, k in enumerate(ks + [ks[len(ks) // 2]])) + '}')
    for m in (1000, 4095, 4096, 4097, 8192 * scale):
        yield b('["' + 'x' * m + '"]')
        yield b('["' + 'x' * m + '\\n' + 'y' * 50 + '"]')
        yield b('["' + 'x' * m)
    yield b('[' + '1' * (500 * scale) + ']')
    yield b('[0.' + '1' * (500 * scale) + 'e' + '9' * 50 + ']')
    yield b('[' + ' ' * 3000 + '1' + '\n' * 3000 + ']')
    yield b('[' + '/* ' + '*' * 500 + ' x */' + '1' + '//' + 'z' * 500 + '\n]')


def huge_docs(r):
    """around 2^16: lengths, counts, positions"""
    n = r.choice([65533, 65534, 65535, 65536, 65537, 66000])
    yield b('["' + 'x' * n + '",1]')
    yield b('["a' + 'y' * n + '\\u00e9' + 'z' * 40 + '"]')
    yield b('{"' + 'k' * n + '":1,"' + 'k' * n + '":2}')
    yield b('{"' + 'k' * 1000 + 'a":1,"' + 'k' * 1000 + 'b":2}')
    yield b('{"' + 'k' * n + '":1,"j' + 'k' * n + '":2}')
    yield b('[' + ' ' * n + '1,' + '\n' * n + '2' + '\t' * n + ']')
    yield b('[' + '1' * n + ',-0.' + '5' * n + 'e7]')
    yield b('[' + '1' * n + '.]')
    yield b('[/*' + 'x' * n + '*/1//' + 'y' * n + '\n]')
    yield b('[' + '1,' * n + '2]')
    yield b('[' + '[],' * (n // 2) + '2' + ',{}' * (n // 2) + ',]')
    yield b('[' + '"' + '\\n' * 33000 + '"' + ']')


def runs(r, sizes, bodies=('null', 'true', '0', '""', '[]', '{}', '"a"', '[null]', '{"":0}', '-0.0e0')):
    """The same thing many times over."""
    for n in sizes:
        for x in bodies:
            y = r.choice(bodies)
            k = r.randrange(n + 1)
            yield b('[' + ','.join([x] * n) + ']')
            yield b('[' + ','.join([x] * k + [y] + [x] * (n - k)) + ']')
        x, y = r.sample(bodies, 2)
        yield b('{' + ','.join('"%d":%s' % (i, x) for i in range(n)) + '}')
        yield b('{' + ','.join('"%d":%s' % (i if i != n // 2 else 0, x) for i in range(n)) + '}')
        yield b('[' + ','.join(r.choice((x, y)) for _ in range(n)) + ']')


def deep_docs(r, n):
    yield b('[' * n + ']' * n)
    yield b('{"k":' * n + '1' + '}' * n)
    yield b('[' * n + ']' * (n - 1))
    yield b('[' * n + ']' * (n + 1))
    yield b('[1,' * n + 'null' + ',"x"]' * n)
    yield b('[{"k":' * (n // 2) + '1' + '}, // x\n]' * (n // 2))
    yield b('[{"k":' * (n // 2) + '1' + ',"j":2}]' * (n // 2) + 'x')


def whitespace_sweep(r, lengths, per=4):
    """Runs of whitespace with something at a given offset, in every kind of gap."""
    frames = [('', '[]'), ('[', ']'), ('[', '1]'), ('[1', ']'), ('[1', ',2]'), ('[1,', '2]'), ('{', '}'), ('{', '"a":1}'), ('{"a"', ':1}'), ('{"a":', '1}'),
              ('{"a":1', '}'), ('{"a":1,', '"b":2}'), ('[]', ''), ('["a"', ']'), ('[[]', ',[]]')]
    odd = [[], [], [0x0b], [0x0c], [0xa0], [0x00], [0x1f], [0x21], b('/'), b('//\n'), b('/**/'), b('//'), [0x89], [0x8a], [0x8d], b('x'), [0x2c], [0xff], [0x80], [0x09], [0x0d], [0x0a]]
    for n in lengths:
        for f in r.sample(frames, per):
            run = [r.choice([0x20] * 4 + [0x09, 0x0a, 0x0d]) for _ in range(n)]
            off = r.randrange(n + 1)
            yield b(f[0]) + run[:off] + r.choice(odd) + run[off:] + b(f[1])


def comment_sweep(r, lengths, per=4):
    for n in lengths:
        for _ in range(per):
            body = [r.choice(b('abc*/ "\\[{') + [0x0d, 0x00, 0xff, 0x80]) for _ in range(n)]
            line = [x for x in body if x != 10]
            block = bytes(body).replace(b'*/', b'**')
            for f in (('[', '1]'), ('[1', ']'), ('', '{}'), ('{}', '')):
                yield b(f[0]) + b('//') + line + b('\n') + b(f[1])
                yield b(f[0]) + b('/*') + list(block) + b('*/') + b(f[1])
                yield b(f[0]) + b('/*') + list(block) + b('*') + b(f[1])


def entry_docs(r, n):
    """Documents for the entry points: with and without (partial) byte order marks, NULs, trailing bytes, comments."""
    boms = [[], [0xef, 0xbb, 0xbf], [0xef, 0xbb, 0xbf], [0xef], [0xef, 0xbb], [0xef, 0xbb, 0xbe], [0xef, 0xbb, 0xbf] * 2, [0xfe, 0xff], [0xff, 0xfe], [0xbb, 0xbf], [0xef, 0xbf, 0xbb]]
    small = [[], b('[]'), b('{}'), b('['), b('1'), b('null'), b('"a"'), b('[1,]'), b('{"a":1,}'), b('// x\n[]'), b('[]//'), b('[]\n'), b('[]\0'), b('[1]\0\0'), b('[]\0x'), [0],
             b('\0[]'), b('[\0]'), b('["\0"]'), b('{"a":null}'), b(' '), b('\n'), b('[]\r\n'), b('["\xe9"]'), b('[') + [0xef, 0xbb, 0xbf] + b(']'), b('[1,2,3]'), b('{"a":[{}]}'), b('[]\x1a'),
             b('["\r\n"]'), b('[1,\r\n2]'), b('["a\\r\\nb"]')]
    for d in small:
        for m in boms:
            yield m + d
    for _ in range(n):
        d = doc(r, root(r, r.choice([1, 2, 3]), 4, 20), 1, r.random() < 0.4)
        if r.random() < 0.4:
            d = mutate(r, d)
        yield r.choice(boms) + d


def long_entry_docs(r):
    for size in (100, 4095, 4096, 4097, 8191, 8192, 16384, 65535, 65536, 65537, 300000, 1048577, 2100000, 4200000, 16800000):
        for head, fill, tail in (('[1,', ' ', '2]'), ('{', '\n', '}')) if size > 1048577 else (('["', 'x', '"]'), ('[1,', ' ', '2]'), ('["', 'x', ''), ('{"a":', '1', '}'), ('["', '\n', '"]'), ('[1', ' ', '\n]//')):
            f = max(0, size - len(head) - len(tail) + r.randrange(-1, 2))
            for m in ([], [0xef, 0xbb, 0xbf]):
                yield dict(doc=m + b(head), fill=f, **{'with': ord(fill)}, tail=b(tail))


# ---- histories of the programming interface (Store.tla); arguments are relative to the contents at the time of the call ----
SIG = {
    'v.copy': 'rr', 'v.move': 'rr', 'v.swap': 'rr', 'v.lit': 'rx', 'v.clear': 'r', 'v.fromA': 'rA*c', 'v.fromO': 'rO*c', 'v.asA': 'r', 'v.asO': 'r',
    'v.casA': 'r', 'v.casO': 'r', 'v.toA': 'r', 'v.toO': 'r', 'v.scalar': 'rS', 'v.kidx': 'rK*k', 'v.kset': 'rKx*k', 'v.kcopy': 'rKr*k', 'v.kmove': 'rKr*k',
    'v.iidx': 'rI', 'v.ciidx': 'rI', 'v.iset': 'rIx', 'v.icopy': 'rIr', 'v.at': 'rK', 'v.ati': 'rI', 'v.delk': 'rK', 'v.deli': 'rI', 'v.empA': 'rx',
    'v.empAc': 'rr', 'v.empO': 'rKx*e', 'v.empOc': 'rKr*e', 'v.plus': 'rA*b', 'v.or': 'rO*b', 'v.pluseq': 'rA*c', 'v.oreq': 'rO*c', 'v.use': 'r',
    'a.push': 'Ax*p', 'a.pushc': 'Ar*p', 'a.pushm': 'Ar*p', 'a.pushA': 'AA*c', 'a.pushO': 'AO*c', 'a.deli': 'AI', 'a.delit': 'AI', 'a.clear': 'A',
    'a.at': 'AI', 'a.idx': 'AI', 'a.iset': 'AIx', 'a.itset': 'AIx*f', 'a.icopy': 'AIr', 'a.info': 'A', 'a.plus': 'AA*b', 'a.pluseq': 'AA*c', 'a.copy': 'AA',
    'a.move': 'AA', 'a.swap': 'AA',
    'o.emp': 'OKx*i', 'o.empc': 'OKr*i', 'o.empm': 'OKr*i', 'o.kidx': 'OK*k', 'o.kset': 'OKx*k', 'o.kcopy': 'OKr*k', 'o.kmove': 'OKr*k', 'o.delk': 'OK',
    'o.delit': 'OK', 'o.clear': 'O', 'o.at': 'OK', 'o.itset': 'OKx', 'o.info': 'O', 'o.or': 'OO*b', 'o.oreq': 'OO*c', 'o.copy': 'OO', 'o.move': 'OO',
    'o.swap': 'OO',
    'n.copyV': 'Vr', 'n.moveV': 'Vr', 'n.copyA': 'VA', 'n.moveA': 'VA', 'n.copyO': 'VO', 'n.moveO': 'VO', 'n.fromA': 'VA*c', 'n.fromO': 'VO*c',
    'n.sized': 'V#', 'n.listA': 'VL', 'n.seqA': 'VL*s', 'n.listO': 'VM', 'n.mapO': 'VM*m', 'n.listV': 'VN',
    'k.kind': 'r', 'l.get': 'hCD', 'l.find': 'heT', 'l.fv': 'he', 'l.has': 'he',
}
MODES = {'c': ['c', 'm'], 'k': ['l', 'r', 'p'], 'e': ['l', 'r'], 'b': ['cc', 'cm', 'mc', 'mm'], 'p': ['e', 'p'], 'f': ['f', 'r'], 'i': ['l', 'r', 'i'],
         's': ['vc', 'vm', 'lc', 'dm'], 'm': ['mc', 'mm', 'uc', 'um']}
FAMILY = {  # the calls that each property owns (Owned in Store.tla decides; this is only for the mix of calls)
    'C09': 'v.copy v.fromA v.fromO a.copy o.copy n.copyV n.copyA n.copyO n.fromA n.fromO v.kcopy v.icopy a.icopy o.kcopy a.pushc o.empc v.empAc v.empOc a.pushA a.pushO',
    'C10': 'v.move v.swap a.move a.swap o.move o.swap n.moveV n.moveA n.moveO n.fromA n.fromO v.fromA v.fromO v.kmove o.kmove a.pushm o.empm a.pushA a.pushO '
           'v.use v.clear v.lit v.plus a.plus v.or o.or v.pluseq a.pluseq v.oreq o.oreq',
    'C11': 'a.push a.pushc a.pushm a.pushA a.pushO a.deli a.delit a.clear a.at a.idx a.iset a.icopy a.itset a.info a.plus a.pluseq v.plus v.pluseq v.empA v.empAc '
           'v.iset v.icopy v.deli n.sized n.listA n.seqA',
    'C12': 'o.emp o.empc o.empm o.kidx o.kset o.kcopy o.kmove o.delk o.delit o.clear o.at o.itset o.info o.or o.oreq v.or v.oreq v.empO v.empOc v.kidx v.kset v.kcopy '
           'v.kmove v.delk n.listO n.listV n.mapO',
    'C13': 'v.asA v.asO v.casA v.casO v.toA v.toO v.scalar v.kidx v.kset v.iidx v.ciidx v.iset v.at v.ati v.delk v.deli v.empA v.empO v.plus v.pluseq v.or v.oreq a.at o.at',
    'C14': 'l.get l.get l.find l.fv l.has',
    'C26': 'k.kind',
}
FAMILY = {k: v.split() for k, v in FAMILY.items()}
FAMILY['C23'] = list(SIG)
FAMILY['C27'] = list(SIG)
KEYPOOL = [b(x) for x in ('', 'a', 'b', 'aa', 'B', 'key', 'a longer name that does not fit inside a small string')] + [b('long ' * 60)] + [[97, 0, 98], [255], [195, 169], [0]]
CLEARS = ['v.clear', 'a.clear', 'o.clear', 'v.lit', 'n.listA', 'n.listO']


def literal(r, depth=2):
    k = r.randrange(12 if depth else 8)
    if k <= 1:
        return r.choice([['z'], ['s', []], ['a', []], ['o', []]])
    if k == 2:
        return ['b', r.random() < 0.5]
    if k <= 5:
        return ['n', b(r.choice(['0', '1', '-7', '42', '2147483647', '-2147483648', '2147483648', '9223372036854775807', '4294967295', '1.5', '-0', '1e3', '18446744073709551615']))]
    if k <= 7:
        return ['s', r.choice([b('x'), b('yes'), b('a string that is longer than the small string buffer'), [0], [97, 0], b('12'), [255, 34, 92]])]
    n = r.randrange(4)
    if k <= 9:
        return ['a', [literal(r, depth - 1) for _ in range(n)]]
    m = {}
    for _ in range(n):
        m[tuple(r.choice(KEYPOOL))] = literal(r, depth - 1)
    return ['o', [[list(k), m[k]] for k in sorted(m)]]


def leaf(r, i):
    return r.choice([['n', b(str(i))], ['n', b(str(i))], ['s', b('text %d' % i)], ['s', b('a string that does not fit in place %d' % i)], ['a', [['n', b(str(i))]]], ['o', [[b('at'), ['n', b(str(i))]]]]])


def wide_size(r):
    return r.choice([r.randrange(4), r.randrange(8), r.randrange(16), r.randrange(16), r.randrange(40)])


def wide_names(r):
    """Distinct names, close to each other in the order; which ones differs from call to call."""
    pool = [b(x) for x in ('a', 'aa', 'ab', 'b', 'ba', 'bb', 'c', 'd', 'e', 'k1', 'k10', 'k2', 'k3', 'k9', 'A', 'B', 'Z', 'a b', 'key', 'keys')] + KEYPOOL
    n = wide_size(r)
    if n > len(pool) // 2:
        pool += [b('n%d' % i) for i in range(50)]
    lo = r.randrange(len(pool))
    near = sorted(pool)[lo:lo + n] if r.random() < 0.5 else []
    return [list(k) for k in sorted({tuple(k) for k in (near or r.sample(pool, min(n, len(pool))))})]


def wide(r, kind):
    """Larger flat containers whose elements can be told apart."""
    base = r.randrange(3) * 100
    if kind == 'o':
        return ['o', [[k, leaf(r, base + i)] for i, k in enumerate(wide_names(r))]]
    return ['a', [leaf(r, base + i) for i in range(wide_size(r))]]


WANTED = [('v', lambda r: literal(r, 1)), ('b', lambda r: ['b', r.random() < 0.5]), ('i', lambda r: ['n', b(str(r.choice([0, -7, 2147483647])))]),
          ('l', lambda r: ['n', b(str(r.choice([0, -7, 9223372036854775807])))]), ('s', lambda r: ['s', r.choice([b('de'), b('default'), []])]),
          ('a', lambda r: ['a', [literal(r, 0) for _ in range(r.randrange(3))]]), ('o', lambda r: ['o', [[b('d'), literal(r, 0)]]]),
          ('vi', lambda r: ['a', [['n', b(str(r.randrange(-9, 9)))] for _ in range(r.randrange(3))]])]


def far(r):
    """a position that is outside of small arrays, or (from a million on) stands for one that is outside of every array"""
    return r.choice([256, 65536, 1000000, 2000000, 3000000, 4000000, 5000000]) + r.randrange(4)


def call(r, n, reach=(0, 0, 1, 1, 2, 3), focus=None):
    out = [n]
    s = SIG[n]
    i = 0

    def step():
        if focus and r.random() < 0.8:
            return r.choice([['k', focus[0]], ['i', focus[1]]])
        if r.random() < 0.7:
            return r.randrange(50)
        return ['k', r.choice(KEYPOOL)] if r.random() < 0.5 else ['i', r.choice([r.randrange(6), far(r)])]
    while i < len(s):
        ch = s[i]
        i += 1
        if ch in 'rAOh':
            out.append([r.randrange(50), [r.randrange(50) for _ in range(r.choice(reach))]])
        elif ch == 'V':
            out.append(r.randrange(50))
        elif ch in 'KI' and focus and r.random() < 0.8:
            out.append(focus['KI'.index(ch)])
        elif ch == 'K':
            out.append(r.randrange(50) if r.random() < 0.5 else r.choice(KEYPOOL))
        elif ch == 'I':
            out.append(r.choice([r.randrange(50), r.randrange(8), 0, far(r)]))
        elif ch == 'x':
            out.append(literal(r))
        elif ch == '#':
            out.append(r.randrange(6) if r.random() < 0.8 else r.choice([16, 17, 64, 65, 100, 255, 256, 1000, 1025]))
        elif ch == 'L':
            k = r.randrange(5)
            l = [literal(r, 1) for _ in range(k)] if r.random() < 0.7 else wide(r, 'a')[1]
            if n == 'n.listA':                     # the harness writes out initializer lists of up to eight elements
                l = l[:8]
            k = len(l)
            while n == 'n.listA' and k == 1 and l[0][0] == 'a':
                l = [literal(r, 0)]
            out.append(l)
        elif ch in 'MN':
            m = [[r.choice(KEYPOOL[:6]), literal(r, 1)] for _ in range(r.randrange(1 if ch == 'N' else 0, 5))]
            if r.random() < 0.3:
                m = wide(r, 'o')[1] or m
                r.shuffle(m)
                if ch == 'N' and r.random() < 0.5:
                    m += [[k, leaf(r, 500 + i)] for i, (k, _) in enumerate(r.sample(m, r.randrange(len(m) + 1)))]
            if n in ('n.listO', 'n.listV') and len(m) > 8:
                m = m[:r.randrange(1, 5)] + m[len(m) - 4:]
            out.append(m)
        elif ch == 'S':
            out.append(r.choice(['boolean', 'string', 'string_view', 'op_string', 'integer', 'op_int', 'long_long', 'double', 'null', 'monostate']))
        elif ch == 'T':
            out.append(r.choice(['v', 'b', 'i', 'l', 'u', 's', 'a', 'o', 'vi']))
        elif ch == 'e':
            out.append(step())
        elif ch == 'C':
            out.append([step() for _ in range(r.choice([1, 1, 2, 2, 3]))])
        elif ch == 'D':
            t, mk = r.choice(WANTED)
            out += [t, mk(r)]
        elif ch == '*':
            out.append(r.choice(MODES[s[i]]))
            i += 1
    return out


def session(r, prop, length):
    kinds = ['V', 'V', 'A', 'O'] + [r.choice('VAO')]
    r.shuffle(kinds)
    st = []
    flat = r.random() < 0.5
    for k in kinds:
        v = literal(r, 2)
        if flat and (k != 'V' or r.random() < 0.8):
            v = wide(r, {'A': 'a', 'O': 'o'}.get(k, r.choice('ao')))
        while (k == 'A' and v[0] != 'a') or (k == 'O' and v[0] != 'o'):
            v = literal(r, 2)
        st.append([k, v])
    own, every = FAMILY[prop], list(SIG)
    ops = []
    for _ in range(length):
        x = r.random()
        ops.append(call(r, r.choice(own if x < 0.65 else CLEARS if x < (0.68 if flat else 0.74) else every), (0, 0, 0, 0, 0, 1) if flat else (0, 0, 1, 1, 2, 3)))
    return dict(op='sess', st=st, ops=ops)


READS = 'l.fv l.fv l.find l.get l.has v.at v.ati o.at a.at v.use v.casA v.casO o.info a.info k.kind'.split()
CHANGES = 'v.kset v.iset o.kset a.iset o.itset a.itset o.kcopy v.icopy a.icopy v.empO o.emp v.delk o.delk o.delit v.deli a.deli'.split()
WHOLE = 'v.copy v.move v.swap o.copy o.move o.swap a.copy a.move a.swap n.copyV n.moveV n.copyA n.copyO n.moveO n.moveA n.fromO n.fromA v.fromO v.fromA v.asA v.asO'.split()


def focus_session(r, prop):
    """Reading, changing and reading again the same part of containers of the same names, with whole containers copied and moved in between."""
    kind = r.choice('ao')
    n = r.choice([2, 5, 9, 12, 17, 20, 33])
    names = sorted({tuple(x) for x in r.sample([b('n%d' % i) for i in range(40)] + KEYPOOL, n)})
    st = []
    for j in range(r.choice([2, 3])):
        st.append(['V' if r.random() < 0.5 else kind.upper(),
                   [kind, [[list(k), leaf(r, 100 * j + i)] for i, k in enumerate(names)] if kind == 'o' else [leaf(r, 100 * j + i) for i in range(n)]]])
    focus = (list(r.choice(names)), r.randrange(n))
    fit = [x for x in SIG if x[0] in ('vlnk' + kind)]
    reads, changes, whole = ([x for x in g if x in fit] for g in (READS, CHANGES, WHOLE))
    ops = []
    for _ in range(r.choice([8, 16, 30])):
        g = r.choice([reads, reads, changes, changes, whole, FAMILY[prop]])
        ops.append(call(r, r.choice(g), (0, 0, 0, 0, 0, 1), focus))
    return dict(op='sess', st=st, ops=ops, max=60000)


def related_session(r, prop):
    """Merges, concatenations, copies, moves and swaps of containers of up to 90 parts whose names are related: apart, touching, interleaved, contained."""
    whole = prop == 'C09' or (prop == 'C10' and r.random() < 0.6)
    if prop == 'C11' or (prop in ('C09', 'C10') and r.random() < 0.5):
        st = [[k, ['a', [literal(r, 1) for _ in range(r.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 60, 64, 65, 90]))]]] for k in (r.choice('VA'), 'A')]
        ops = ['a.plus', 'a.pluseq', 'v.plus', 'v.pluseq'] if not whole else ['a.copy', 'a.move', 'a.swap', 'v.fromA', 'n.fromA', 'v.copy', 'v.move', 'v.swap', 'n.copyA', 'n.moveA']
    else:
        names = sorted({bytes(r.choice(b'ab\xc3\xa9') for _ in range(r.choice([1, 2, 3]))) for _ in range(28)})

        def some(i, j):
            return [n for n in names[i:j] if r.random() < d]
        i, j = sorted(r.sample(range(len(names) + 1), 2))
        d = r.choice([1, 1, 0.8, 0.5])
        left = some(i, j)
        x = r.randrange(5)
        right = names[max(j - 1, 0):] if x == 0 else names[j:] if x == 1 else names[:i + 1] if x == 2 else some(*sorted(r.sample(range(len(names) + 1), 2))) if x == 3 \
            else [n for n in names if n not in left] if r.random() < 0.5 else list(left)
        st = [[r.choice('VO'), ['o', [[b(n), ['n', b(str(k))]] for k, n in enumerate(left)]]], ['O', ['o', [[b(n), ['s', b(str(k))]] for k, n in enumerate(right)]]]]
        ops = ['o.or', 'o.oreq', 'v.or', 'v.oreq'] if not whole else ['o.copy', 'o.move', 'o.swap', 'v.fromO', 'n.fromO', 'v.copy', 'v.move', 'v.swap', 'n.copyO', 'n.moveO']
    return dict(op='sess', st=st, ops=[call(r, r.choice([o for o in ops if o in FAMILY[prop]]), (0,)) for _ in range(3)], max=20000)


def nested_session(r, prop):
    """Calls on two places in one value whose containers have parts of one kind each."""
    def container(depth):
        n = r.choice([0, 1, 2, 2, 3, 3, 4, 6])
        kind = r.randrange(6)

        def part(i):
            if depth and (kind >= 4 or r.random() < 0.3):
                return container(depth - 1)
            return [['s', b('abcdef'[i])], ['n', b(str(i))], ['z'], ['s', b('a string that does not fit in place %d' % i)], ['b', i % 2 == 0], r.choice([['a', []], ['o', []]])][kind]
        if r.random() < 0.6:
            return ['a', [part(i) for i in range(n)]]
        return ['o', [[b('abcdef'[i]), part(i)] for i in range(n)]]
    x = container(3)
    ops = [n for n in FAMILY[prop] if sum(SIG[n].count(ch) for ch in 'rAOh') >= 2] or FAMILY[prop]
    return dict(op='sess', st=[[r.choice(['V', x[0].upper()]), x]], ops=[call(r, r.choice(ops), (0, 1, 1, 2)) for _ in range(r.choice([1, 2]))], max=20000)


def big_session(r, prop):
    """A few calls on one large or deep value and a small one."""
    big = chain(r, r.choice([20, 33, 50, 64])) if r.random() < 0.25 else (alike if r.random() < 0.3 else big_container)(r, r.choice([60, 64, 65, 100, 127, 128, 129, 200, 256, 257, 300]))
    small = r.choice([wide(r, r.choice('ao')), literal(r, 1), [big[0], big[1][:2]]])
    st = [['V' if r.random() < 0.5 else big[0].upper(), big], ['V' if small[0] not in 'ao' or r.random() < 0.5 else small[0].upper(), small]]
    ops = []
    for _ in range(r.choice([3, 5, 8])):
        o = call(r, r.choice(FAMILY[prop] if r.random() < 0.8 else [x for x in SIG if x not in CLEARS]), (0, 0, 0, 0, 0, 1) if len(big[1]) > 2 else (0, 1, 5, 20, 40))
        ops.append(o)
    return dict(op='sess', st=st, ops=ops, max=200000)


def huge_session(r, prop):
    """Two calls on a container of about a thousand (members) or four thousand (elements) parts of little text."""
    def leaf(i):
        return ['n', b(str(i))]
    if prop != 'C12' and (prop == 'C11' or r.random() < 0.6):
        n = r.choice([511, 512, 513, 1000, 1023, 1024, 1025, 1024, 2048, 2049, 4095, 4096, 4097])
        if r.random() < 0.08:
            n = r.choice([32767, 32768, 65535, 65536, 65537])
        big = ['a', [leaf(i) if n < 10000 else ['z'] for i in range(n)]]
    else:
        n = r.choice([400, 511, 512, 513, 700])
        big = ['o', [[list(k), leaf(i)] for i, k in enumerate(sorted(tuple(b('%d' % i)) for i in range(n)))]]
    for _ in range(3):
        i = r.choice([0, n - 1, r.randrange(n)])
        x = literal(r, 1)
        if big[0] == 'a':
            big[1][i] = x
        else:
            big[1][i][1] = x
    other = r.choice([literal(r, 1), ['a', [leaf(0)]], ['o', [[b('5'), ['z']]]], big, [big[0], big[1][:r.choice([2, n // 2, n - 1])]], [big[0], big[1][1:]]])
    st = [['V' if r.random() < 0.5 else x[0].upper() if x[0] in 'ao' else 'V', x] for x in (big, other)]
    ops = []
    for _ in range(2):
        ops.append(call(r, r.choice(FAMILY[prop]), (0, 0, 0, 0, 0, 0, 1)))
    return dict(op='sess', st=st, ops=ops, max=1000000)


def sized_sessions(r, prop, count):
    """Containers of every size, described: what is there and how much of it."""
    sizes = [n for k in range(6, 13) for n in (2 ** k - 1, 2 ** k, 2 ** k + 1)] + [999, 1000, 1234, 10000, 12345]
    for n in r.sample(range(71), min(count, 71)) + r.sample(sizes, min(count, len(sizes))) + [r.randrange(71, 9000) for _ in range(count)]:
        if prop == 'C11':
            yield dict(op='sess', st=[['A', ['a', [['n', b('7')]]]], ['V', ['z']]], ops=[['n.sized', 0, n], r.choice([['a.info', [0, []]], ['a.at', [0, []], n - 1], ['a.at', [0, []], n], ['a.pluseq', [0, []], [0, []], 'c']])], max=1000000)
        else:
            x = ['a', [['n', b(str(i % 10))] for i in range(n)]] if r.random() < 0.6 else ['o', [[list(k), ['z']] for k in sorted(tuple(b('%d' % i)) for i in range(n))]]
            yield dict(op='sess', st=[[r.choice(['V', x[0].upper()]), x]], ops=[['k.kind', [0, []]]], max=1000000)


# ---- calls on a constant value (slot 1) and an own one (slot 2) ----
def paths(v, limit=40):
    out, todo = [], [(v, [])]
    while todo and len(out) < limit:
        x, p = todo.pop(0)
        out.append((p, x))
        if x[0] == 'a':
            todo += [(y, p + [['i', i]]) for i, y in enumerate(x[1])]
        elif x[0] == 'o':
            todo += [(y, p + [['k', k]]) for k, y in x[1]]
    return out


def shared_calls(r, v, n):
    ps = paths(v)
    out = []
    types = ['v', 'b', 'i', 'l', 'u', 's', 'a', 'o', 'vi']

    def some():
        p, x = r.choice(ps)
        return [1, p], x

    def step(x):
        y = r.random()
        if x[0] == 'a' and y < 0.8:
            return ['i', r.choice([r.randrange(len(x[1]) + 2), far(r)])]
        if x[0] == 'o' and y < 0.8:
            return ['k', r.choice([k for k, _ in x[1]] + [b('nothing')])]
        return r.choice([['i', 0], ['k', b('a')]])
    for _ in range(n):
        h, x = some()
        g, y = some()
        k = r.randrange(16)
        if k <= 2:
            out.append(['c.use', h])
        elif k == 3:
            out.append(['c.info', h] if x[0] in 'ao' else ['c.eq', h, g])
        elif k == 4:
            out.append(['c.eq', r.choice([h, [2, []]]), r.choice([h, g])])
        elif k == 5:
            out.append([r.choice(['v.casA', 'v.casO', 'v.toA', 'v.toO']), h])
        elif k == 6:
            out.append(['v.scalar', h, r.choice(['boolean', 'string', 'string_view', 'op_string', 'integer', 'op_int', 'long_long', 'double', 'null', 'monostate'])])
        elif k == 7 and x[0] in 'ao':
            e = step(x)
            out.append(['v.at', h, e[1]] if e[0] == 'k' else ['v.ati', h, e[1]])
        elif k == 8:
            e = step(x)
            t, mk = r.choice(WANTED)
            out.append(['l.get', h, [e] + [r.choice([['i', 0], ['k', b('a')], ['i', 1]]) for _ in range(r.randrange(3))], t, mk(r)])
        elif k == 9:
            out.append(['l.find', h, step(x), r.choice(types)])
        elif k == 10:
            out.append([r.choice(['l.fv', 'l.has']), h, step(x)])
        elif k == 11:
            out.append(['v.plus', h, g, 'cc'] if y[0] == 'a' else ['v.or', h, g, 'cc'] if y[0] == 'o' else ['c.use', g])
        elif k == 12:
            out.append(r.choice([['v.copy', [2, []], h], ['n.copyV', 2, h]]))
        elif k == 13:
            out.append(['v.fromA', [2, []], h, 'c'] if x[0] == 'a' else ['v.fromO', [2, []], h, 'c'] if x[0] == 'o' else ['v.empAc', [2, []], h])
        elif k == 14:
            out.append(r.choice([['v.kcopy', [2, []], r.choice(KEYPOOL), h, 'l'], ['v.empOc', [2, []], r.choice(KEYPOOL), h, 'l'], ['v.empAc', [2, []], h]]))
        else:
            out.append(r.choice([['v.clear', [2, []]], ['v.lit', [2, []], literal(r, 1)], ['v.kset', [2, []], r.choice(KEYPOOL), literal(r, 1), 'l'], ['v.use', [2, []]]]))
        if r.random() < 0.1:
            out.append(['v.clear', [2, []]])
    return out


# ---- values that differ in one place ----
def one_off(r, n, k):
    """something of n parts and the same with one of them changed, at k places"""
    kind = r.choice('ssnkaaom')
    text = [r.choice(b'abcdefghijklmnopqrstuvwxyz') for _ in range(n)]
    nums = [r.choice(b'123456789') for _ in range(n)]

    def make(i):
        t, m = list(text), list(nums)
        if i is not None:
            t[i] ^= r.choice([1, 2, 4, 8, 16, 32, 128])
            m[i] = m[i] ^ 1 if m[i] not in b'19' else 53
        if kind == 's':
            return ['s', t]
        if kind == 'n':
            return ['n', m]
        if kind == 'k':
            return ['o', [[t, ['n', b('1')]]]]
        parts = [['s', [x]] for x in t] if kind != 'm' else [['n', [x]] for x in m]
        if kind in 'am':
            return ['a', parts]
        names = sorted(tuple(b('%d' % j)) for j in range(n))
        if i is not None and r.random() < 0.5:
            return ['o', sorted([[list(q) + ([32] if j == i else []), ['s', [x]]] for j, (q, x) in enumerate(zip(names, text))])]
        return ['o', [[list(q), x] for q, x in zip(names, parts)]]
    at = list(range(n)) if n <= k else sorted({r.randrange(n) for _ in range(k - 3)} | {0, n // 2, n - 1})
    same = make(None)
    return dict(op='eq', v=same, ws=[same] + [make(i) for i in at])


def change_end(r, v, last=True):
    """a change in the last (or first) part of the last (or first) part of ..."""
    if v[0] in 'ao' and v[1]:
        i = len(v[1]) - 1 if last else 0
        l = list(v[1])
        if v[0] == 'a':
            if len(l) == 2 and l[1 - i][0] in 'ao':      # along a chain
                i = 1 - i
            l[i] = change_end(r, l[i], last)
        else:
            if len(l) == 2 and l[1 - i][1][0] in 'ao':
                i = 1 - i
            l[i] = [l[i][0], change_end(r, l[i][1], last)]
        return [v[0], l]
    while True:
        w = nearby(r, v)
        if w != v:
            return w


def nearby(r, v):
    if v[0] == 'a' and v[1] and r.random() < 0.75:
        l = list(v[1])
        i = r.randrange(len(l))
        k = r.randrange(6)
        if k <= 2:
            l[i] = nearby(r, l[i])
        elif k == 3:
            del l[i]
        elif k == 4:
            l.insert(i, l[r.randrange(len(l))])
        else:
            j = r.randrange(len(l))
            l[i], l[j] = l[j], l[i]
        return ['a', l]
    if v[0] == 'o' and v[1] and r.random() < 0.75:
        m = {tuple(k): x for k, x in v[1]}
        key = r.choice(list(m))
        k = r.randrange(6)
        if k <= 2:
            m[key] = nearby(r, m[key])
        elif k == 3:
            del m[key]
        elif k == 4:
            m[(key + (r.choice([0, 97]),)) if r.random() < 0.5 else tuple(x ^ 0x20 for x in key[:1]) + key[1:]] = m.pop(key)
        else:
            other = r.choice(list(m))
            m[key], m[other] = m[other], m[key]
        return ['o', [[list(k), m[k]] for k in sorted(m)]]
    if v[0] in 'sn' and v[1] and r.random() < 0.7:
        t = list(v[1])
        i = r.randrange(len(t))
        k = r.randrange(4)
        if v[0] == 'n':
            return ['n', b(number(r))] if k else ['s', t]
        if k == 0:
            t[i] ^= 1 << r.randrange(8)
        elif k == 1:
            del t[i]
        elif k == 2:
            t.insert(i, 0)
        else:
            t[-1] ^= 0x20
        return ['s', t]
    return r.choice([['z'], ['b', True], ['b', False], ['n', [48]], ['s', []], ['s', b('true')], ['a', []], ['o', []]])
