"""One function per property: what is explored, generated, replayed and validated."""
import hashlib, heapq, json, os, random, re, subprocess
import ctypes_gen
import gen
from lib import HARNESS, REPO, CheckError, Violation, matches

CHECKS = {}


def check(prop):
    def deco(fn):
        CHECKS[prop] = fn
        return fn
    return deco


def with_obs(reqs, resp):
    return [{**q, 'obs': r} for q, r in zip(reqs, resp) if r is not None]


def dedup(docs):
    seen = set()
    for d in docs:
        t = bytes(d)
        if t not in seen:
            seen.add(t)
            yield list(d)


# ---------------------------------------------------------------- parsing
def random_docs(c, r, n, jc=0.5):
    for _ in range(n):
        v = gen.root(r, r.choice([1, 2, 3, 4]), r.choice([2, 4, 6]), r.choice([4, 20, 60]))
        d = gen.doc(r, v, r.choice([0, 1, 1]), r.random() < jc)
        yield d
        if r.random() < 0.7:
            yield gen.mutate(r, d)


def parse_vectors(c, jcs, depth):
    vecs = []
    for jc in jcs:
        vecs += c.model_check('MC_Parser', dict(MaxDepth=depth, JC='TRUE' if jc else 'FALSE'))
    c.exhaustive.append('every byte after every control state of the parser machine with at most %d open containers' % depth)
    return vecs


def run_vectors(c, r, limit):
    k = dict(Lengths='0..80') if c.thorough else {}
    vecs, total = sampled(c, r, 'MC_Lanes', k, limit, heap='8g')
    c.exhaustive.append('every odd byte at every offset of runs of %s bytes in 13 places of a document: %d documents, of which %d were replayed'
                        % (k.get('Lengths', 'block-boundary lengths up to 65'), total, len(vecs)))
    return vecs


def word_vectors(c, r, limit, values=False):
    vecs, total = sampled(c, r, 'MC_Words', dict(Values='TRUE') if values else {}, limit)
    c.exhaustive.append('sequences of bytes that mean something somewhere, alone in %s places behind 12 paddings and in pairs: %d %s, of which %d were used'
                        % ('2' if values else '10', total, 'values' if values else 'documents', len(vecs)))
    return vecs


def parse_docs(c, r):
    t = c.thorough
    docs = []
    docs += gen.trailing_sweep()
    docs += gen.string_sweep(r, range(0, 140) if t else [0, 1, 7, 8, 15, 16, 17, 24, 31, 32, 33, 40, 48, 64, 65], per=6 if t else 3)
    docs += gen.numbers_sweep(5 if t else 3)
    docs += r.sample(list(gen.numbers_sweep(5)), 20000 if t else 2500)
    docs += gen.unicode_sweep(1 if t else 40, r)
    docs += gen.dup_keys(r, 2000 if t else 250)
    docs += gen.big_docs(r, 4 if t else 1)
    docs += gen.runs(r, [63, 65, 127, 129, 255, 258, 300, 511, 514, 1000, 1022, 1026, 2050, 4099] if t else [r.choice([65, 129, 258, 514]), r.randrange(1026, 1060)])
    docs += [gen.doc(r, gen.alike(r, r.choice([9, 17, 33, 40, 65, 101, 130, 257, 300])), r.choice([0, 1])) for _ in range(400 if t else 80)]
    docs += [gen.doc(r, v, 0) for n in (34, r.choice([70, 130, 260])) for v in gen.one_odd_number(r, n)]
    docs += [gen.b('["') + x + gen.b('"]') for n in ((40, 300, 1030, 4100) if t else (r.choice([40, 60]), r.choice([270, 520]), r.choice([1030, 4100]))) for x in gen.one_odd_byte(r, n)]
    docs += random_docs(c, r, 20000 if t else 1800)
    return list(dedup(docs))


def parse_trace(c, r, hb):
    docs = parse_docs(c, r) + list(gen.huge_docs(r))
    reqs = [dict(op='p', both=1, doc=d) for d in docs] + [dict(op='p', flat=1, doc=d) for d in gen.deep_docs(r, 4000 if c.thorough else 1500)]
    resp = c.run_harness(hb, reqs)
    c.no_crash(reqs, resp, 'parse')
    for k in r.sample(range(len(reqs)), 3):
        c.sample(dict(doc=bytes(reqs[k]['doc']).decode('latin-1'), obs=resp[k]))
    c.judge('Judge', with_obs(reqs, resp), label='parse')


def parse_check(c, jcs, project):
    r = random.Random(c.seed * 1000 + int(c.prop[1:]))
    hb = c.build_async('h_parse', ['h_parse.cpp'])
    vecs = parse_vectors(c, jcs, 4 if c.thorough else 2)
    hb = hb.result()
    resp = c.run_harness(hb, [{k: v[k] for k in ('op', 'jc', 'doc')} for v in vecs])
    vs, rs = [], []
    for v, o in zip(vecs, resp):
        if v['exp'][0] == 'unspec':
            v['exp'] = ['alt', ['acc', ['?']], ['rej']]
        v, o = project(v, o)
        vs.append(v), rs.append(o)
    c.sample(dict(vector=vs[len(vs) // 2]))
    c.compare(vs, rs, 'parser model')
    runs = run_vectors(c, r, 10 ** 9 if c.thorough else 25000) + word_vectors(c, r, 10 ** 9 if c.thorough else 15000)
    resp = c.run_harness(hb, [{k: v[k] for k in ('op', 'both', 'doc')} for v in runs], shards=6)
    vs, rs = [], []
    for v, o in zip(runs, resp):
        for m in ('c' if c.prop == 'C03' else 's' if c.prop == 'C01' else 'sc'):
            x, y = project({**v, 'mode': m, 'exp': v['exp'][m]}, o[m] if isinstance(o, dict) and m in o else o)
            if x['exp'][0] == 'unspec':
                x['exp'] = ['alt', ['acc', ['?']], ['rej']]
            vs.append(x), rs.append(y)
    c.crashes = {}
    c.compare(vs, rs, 'run model')
    parse_trace(c, r, hb)


def verdict_only(v, o):
    e = v['exp']
    if e[0] == 'acc':
        v = {**v, 'exp': ['acc', ['?']]}
    if isinstance(o, list) and o[0] == 'acc':
        o = ['acc', 0]
    return v, o


def value_only(v, o):
    if v['exp'][0] != 'acc' or (isinstance(o, list) and o[0] != 'acc'):
        return {**v, 'exp': ['?']}, ([] if isinstance(o, list) else o)
    return v, o


@check('C01')
def c01(c):
    parse_check(c, [False], verdict_only)


@check('C02')
def c02(c):
    parse_check(c, [False, True], value_only)


@check('C03')
def c03(c):
    parse_check(c, [True], lambda v, o: (v, o))


# ---------------------------------------------------------------- presentation of the bytes, entry points
def variant_docs(c, r):
    t = c.thorough
    docs = []
    docs += gen.string_sweep(r, range(0, 200) if t else [0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32, 33, 40, 47, 48, 49, 63, 64, 65, 66, 100], per=8 if t else 2)
    docs += gen.whitespace_sweep(r, list(range(0, 140)) * (8 if t else 1), per=6)
    docs += gen.comment_sweep(r, range(0, 70, 1 if t else 6), per=2)
    docs += r.sample(list(gen.numbers_sweep(5)), 3000 if t else 300)
    docs += gen.unicode_sweep(20 if t else 400, r)
    docs += gen.dup_keys(r, 500 if t else 100)
    docs += gen.big_docs(r)
    docs += gen.trailing_sweep() if t else r.sample(list(gen.trailing_sweep()), 600)
    docs += random_docs(c, r, 12000 if t else 900)
    return list(dedup(docs))


BUILDS = [  # name, flags, options: every way the library chooses between instruction sets and fallbacks
    ('sse2', [], {}),
    ('avx2', ['-mavx2'], {}),
    ('sse41', ['-msse4.1'], {}),
    ('word', ['-DMEOJSON_DISABLE_PACKED_BYTES'], {}),
    ('clang-avx2-O2', ['-mavx2', '-mbmi', '-mbmi2', '-mlzcnt'], dict(cxx='clang++', san=False, opt='-O2')),
    ('uchar-O0', ['-funsigned-char'], dict(san=False, opt='-O0')),
    ('uchar-word-O2', ['-funsigned-char', '-DMEOJSON_DISABLE_PACKED_BYTES'], dict(san=False, opt='-O2')),
    ('ndebug-O3', ['-DNDEBUG', '-march=native'], dict(san=False, opt='-O3')),
    ('c++20-avx2-O2', ['-std=c++20', '-mavx2'], dict(cxx='clang++', san=False, opt='-O2')),
    ('c++20-word', ['-std=c++20', '-DMEOJSON_DISABLE_PACKED_BYTES'], dict(san=False, opt='-O1')),
]
NEON = ['-U__SSE2__', '-DMEOJSON_ENABLE_NEON', '-I' + os.path.join(HARNESS, 'foreign', 'neon')]
FOREIGN = [  # code for other machines, reached through template parameters and a stand-in for their intrinsics; left out if that fails
    ('word32', ['-DACCEL=json::_packed_bytes::packed_bytes_trait_uint32'], {}),
    ('neon64', NEON + ['-D_M_ARM64'], dict(cxx='clang++')),
    ('neon32', NEON + ['-D_M_ARM'], dict(cxx='clang++', san=False)),
]


TARGETS = [['--target=aarch64-linux-gnu'], ['--target=aarch64_be-linux-gnu'], ['--target=armv7a-linux-gnueabihf', '-mfpu=neon']]


def foreign_syntax(c):
    """The NEON code against clang's own header. Only errors in the library's files count: the C library's are this machine's."""
    inc = os.path.join(REPO, 'include')
    cxx = [l.strip() for l in subprocess.run(['g++', '-v', '-E', '-x', 'c++', os.devnull], capture_output=True, text=True).stderr.split('\n') if l.startswith(' /')]
    for t in TARGETS:
        cmd = ['clang++', *t, '-std=c++17', '-fsyntax-only', '-ferror-limit=0', '-w', '-DMEOJSON_ENABLE_NEON', '-I' + inc,
               '-isystem', os.path.join(HARNESS, 'foreign')]
        for d in cxx:
            if '/gcc/' not in d:
                cmd += ['-isystem', d]
        e = subprocess.run(cmd + [os.path.join(HARNESS, 'foreign', 'use.cpp')], capture_output=True, text=True)
        bad = [l for l in e.stderr.split('\n') if re.match(re.escape(inc) + r'/[^:]*:\d+:\d+: (fatal )?error: ', l)]
        if bad:
            raise Violation('the parser does not compile for ' + t[0], dict(kind='program', command=cmd, stderr='\n'.join(bad)[:3000]))
    c.notes.append('compiles with the real NEON intrinsics for: ' + ', '.join(t[0][9:] for t in TARGETS))


@check('C04')
def c04(c):
    foreign_syntax(c)
    r = random.Random(c.seed * 1000 + 4)
    flags = set(open('/proc/cpuinfo').read().split())
    builds = [x for x in BUILDS if not ('-mavx2' in x[1] and not {'avx2', 'bmi1', 'bmi2'} <= flags) and not ('-msse4.1' in x[1] and 'sse4_1' not in flags)]
    c.notes.append('builds: ' + ', '.join(x[0] for x in builds))
    futs = [(n, c.build_async('h_parse_' + n, ['h_parse.cpp'], f, **k)) for n, f, k in builds]
    foreign = [(n, c.build_async('h_parse_' + n, ['h_parse.cpp'], f, **k)) for n, f, k in FOREIGN]
    rc, out, st, tr = c.tlc('MC_Scan', dict(MaxLen=12, MaxWidth=5) if c.thorough else {})
    if rc != 0:
        raise CheckError('TLC on MC_Scan ended with %d:\n%s' % (rc, '\n'.join(out[-30:])))
    c.exhaustive.append('block-wise scanning against byte-wise scanning: widths 1..%d, texts of up to %d bytes; packed comparisons of all words of three 4-bit lanes'
                        % ((5, 12) if c.thorough else (4, 10)))
    docs = variant_docs(c, r)
    reqs = [dict(op='pv', doc=d, off=r.randrange(64)) for d in docs]
    runs = run_vectors(c, r, 60000 if c.thorough else 4000) + word_vectors(c, r, 10 ** 9 if c.thorough else 1500)
    reqs += [dict(op='pv', doc=v['doc'], off=r.randrange(64), full=1) for v in runs]
    want = [None] * len(docs) + [v['exp'] for v in runs]
    for w in want[len(docs):]:
        for m in 'sc':
            if w[m][0] == 'unspec':
                w[m] = ['alt', ['acc', ['?']], ['rej']]
    merged = [dict(s=[], c=[]) for _ in reqs]
    for n, f in foreign:
        try:
            f.result()
            futs.append((n, f))
        except (Violation, CheckError):
            c.notes.append('the build ' + n + ' was not possible and is left out')
    for n, f in futs:
        order = list(range(len(reqs)))
        r.shuffle(order)                       # what was parsed before differs from build to build
        resp = c.run_harness(f.result(), [reqs[i] for i in order], shards=6)
        c.no_crash([reqs[i] for i in order], resp, 'variants in the build ' + n)
        for i, o in zip(order, resp):
            if o is None:
                continue
            if want[i] is not None and not matches(want[i], o['full']):
                raise Violation('a run is not parsed as specified in the build ' + n, dict(kind='run model', build=n, request=reqs[i], expected=want[i], observed=o))
            for m in 'sc':
                for out, how in o[m]:
                    merged[i][m].append([out, n + ':' + how])
        c.log('build', n, 'done')
    # entries that agree are folded, for the size of the trace; every distinct outcome stays
    for o in merged:
        for m in 'sc':
            seen = {}
            for out, how in o[m]:
                seen.setdefault(out, [out, how])
            o[m] = list(seen.values())
    for k in r.sample(range(len(reqs)), 3):
        c.sample(dict(doc=bytes(reqs[k]["doc"]).decode("latin-1"), obs=merged[k]))
    c.validated += len(runs)
    c.judge('Judge', with_obs(reqs, merged), label='variants')


def open_ended(e):
    """what the specification leaves open may be anything"""
    if isinstance(e, list):
        return ['?'] if e == ['unspec'] else [open_ended(x) for x in e]
    return {k: open_ended(x) for k, x in e.items()} if isinstance(e, dict) else e


@check('C05')
def c05(c):
    r = random.Random(c.seed * 1000 + 5)
    t = c.thorough
    hb = c.build_async('h_parse', ['h_parse.cpp'])
    vecs, total = sampled(c, r, 'MC_Entry', dict(MaxToks=4, MaxActs=4) if t else {}, 200000 if t else 12000, kind=lambda l: l[:20], heap='8g')
    c.exhaustive.append('contents of up to %d tokens behind every (partial) byte order mark through every way in; histories of up to %d calls on a stream: %d, of which %d were replayed'
                        % (4 if t else 3, 4 if t else 3, total, len(vecs)))
    hb = hb.result()
    for v in vecs:
        v['exp'] = open_ended(v['exp'])
    resp = c.run_harness(hb, [{**{k: v[k] for k in ('op', 'doc', 'acts') if k in v}, 'dir': c.dir} for v in vecs], shards=8)
    c.sample(dict(vector=vecs[0]))
    c.compare(vecs, resp, 'entry model')
    reqs = [dict(op='e', doc=d, dir=c.dir) for d in dedup(gen.entry_docs(r, 20000 if c.thorough else 2000))]
    reqs += [dict(op='e', dir=c.dir, **d) for d in gen.long_entry_docs(r)]
    resp = c.run_harness(hb, reqs, shards=6)
    c.no_crash(reqs, resp, 'entry points')
    for k in r.sample(range(len(reqs)), 2):
        c.sample(dict(doc=bytes(reqs[k]['doc']).decode('latin-1'), obs=resp[k]), 900)
    c.judge('Judge', with_obs(reqs, resp), label='entry points')


# ---------------------------------------------------------------- serialisation
def dump_check(c, project):
    r = random.Random(c.seed * 1000 + int(c.prop[1:]))
    hb = c.build_async('h_parse', ['h_parse.cpp'])
    vecs = c.model_check('MC_Text', dict(MaxNodes=4 if c.thorough else 3), workers=8)
    c.exhaustive.append('every value of up to %d parts over the scalars and names of MC_Text; every byte and every pair of special bytes as a string and as a name'
                        % (4 if c.thorough else 3))
    vecs += word_vectors(c, r, 10 ** 9 if c.thorough else 8000, values=True)
    hb = hb.result()
    resp = c.run_harness(hb, [{k: v[k] for k in ('op', 'full', 'v', 'ws')} for v in vecs])
    vs, rs = [], []
    for v, o in zip(vecs, resp):
        if isinstance(o, dict) and 'c' in o:
            v, o = {**v, 'exp': project(v['v'], v['exp'])}, project(v['v'], o)
        vs.append(v), rs.append(o)
    c.sample(dict(vector=vs[len(vs) // 2]))
    c.compare(vs, rs, 'text model')
    vals = [gen.value(r, r.choice([0, 1, 2, 3, 4, 5]), r.choice([1, 3, 6]), r.choice([4, 16, 80])) for _ in range(15000 if c.thorough else 1500)]
    vals += [['a', [['s', [x]] for x in range(256)]], ['o', [[[x], ['s', [x, 34, x]]] for x in range(256)]], ['s', list(range(256)) * 3]]
    vals += [['s', [r.choice(gen.SPECIAL) for _ in range(n)]] for n in range(0, 200, 1 if c.thorough else 7)]
    vals += [['a', [['n', gen.b(x)]]] for x in ('0', '-0', '1e5', '1E+5', '-1.50', '1' * 50)]
    deep = ['z']
    for k in range(60):
        deep = ['a', [deep, ['n', [49]]]] if k % 2 else ['o', [[[107], deep]]]
    vals.append(deep)
    big = list(gen.magnitudes(r, 3 if c.thorough else 1, (127, 128, 129, 255, 256, 257, 300, 512, 1025)))
    vals += big
    vals += [['a', [['s', gen.big_text(r, n)]]] for n in (4095, 4096, 4097, 5000, 20000)]
    vals += [['a', [['s', x]]] if k % 2 else ['o', [[x, ['z']]]] for n in (40, 270, 1030) for k, x in enumerate(gen.one_odd_byte(r, n))]
    vals += [v for n in (33, 70, 260) for v in gen.one_odd_number(r, n)]
    vals += [gen.alike(r, r.choice([9, 17, 33, 40, 65, 101, 130, 257, 300])) for _ in range(400 if c.thorough else 120)]
    reqs = [dict(op='d', full=1, v=v, ws=sorted(r.sample([0, 1, 2, 3, 4, 5, 8, 13], 3))) for v in vals]
    reqs[0]['ws'] = [0, 4, 40]
    # columns far to the right: wide indents, and deep values
    for w in (17, 64, 100, 255, 256, 257, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192) + ((16384, 65535, 65536, 65537) if c.thorough else (r.choice([16384, 30000, 65536]),)):
        for _ in range(2):
            x = gen.chain(r, r.choice([1, 2, 3, 5])) if w < 3000 else r.choice([['a', [['z']]], ['o', [[[97], ['a', [['b', True]]]]]], ['a', [['o', [[[97], ['s', [98]]]]]]]])
            reqs.append(dict(op='d', full=1, v=x, ws=[w]))
    for n in ([150, 300, 400, 600] if c.thorough else [150, 300]):
        reqs += [dict(op='d', full=1, flat=1, v=gen.flatten(gen.chain(r, n)), ws=[r.choice([0, 1, 2])]) for _ in range(2)]
    resp = c.run_harness(hb, reqs)
    c.no_crash(reqs, resp, 'serialisation')
    c.judge('Judge', with_obs(reqs, resp), workers=8, label='serialisation')


def is_root(v):
    return v[0] in ('a', 'o')


@check('C06')
def c06(c):
    dump_check(c, lambda v, o: dict(c=o['c'], same=o['same'], **(dict(p=o['p'], eq=o['eq']) if is_root(v) else {})))


@check('C07')
def c07(c):
    dump_check(c, lambda v, o: dict(same=o['same'], f=o['f'] if is_root(v) else [x[:2] for x in o['f']]))


@check('C08')
def c08(c):
    dump_check(c, lambda v, o: dict(c=o['c'], f=[x[:2] for x in o['f']]))


# ---------------------------------------------------------------- the programming interface as a store machine
def sampled(c, r, module, consts, limit, kind=lambda l: 0, **k):
    """Explores the model; keeps at most `limit` of the emitted transitions of each kind, chosen at random."""
    kept, seen = {}, {}
    salt = b'%d' % r.getrandbits(32)

    def keep(l):                                  # the choice does not depend on the order in which TLC's workers get there
        q = kind(l)
        seen[q] = seen.get(q, 0) + 1
        ls = kept.setdefault(q, [])
        x = (-int.from_bytes(hashlib.blake2b(l.encode(), digest_size=8, key=salt).digest(), 'big'), l)
        if len(ls) < limit:
            heapq.heappush(ls, x)
        elif x > ls[0]:
            heapq.heapreplace(ls, x)
    rc, out, st, tr = c.tlc(module, consts, on_line=keep, workers=8, **k)
    if rc != 0:
        raise CheckError('TLC on %s ended with %d:\n%s' % (module, rc, '\n'.join(x[:600] for x in out[-40:])))
    lines = sorted(l for ls in kept.values() for _, l in ls)
    total = sum(seen.values())
    c.log('%s %s: %d states, %d transitions, %d vectors, %d kept' % (module, consts, st, tr, total, len(lines)))
    return [json.loads(json.loads(l)) for l in lines], total


def store_check(c):
    r = random.Random(c.seed * 1000 + int(c.prop[1:]))
    hb = c.build_async('h_store', ['h_store.cpp'])
    t = c.thorough
    vecs, total = sampled(c, r, 'MC_Store', dict(Fam='"%s"' % c.prop, MaxNodes=3 if c.prop == 'C26' else 4, Rich='FALSE'), 10 ** 9 if t else 100000)
    batches = [(vecs, total)]
    c.exhaustive.append('every call of the family in every store of up to %d parts: %d transitions, of which %d were replayed' % (3 if c.prop == 'C26' else 4, total, len(vecs)))
    hb = hb.result()

    def replay(vecs, label):
        resp = c.run_harness(hb, [{k: v[k] for k in ('op', 'st', 'a')} for v in vecs], shards=8)
        c.compare(vecs, resp, label)
    c.sample(dict(transition=vecs[len(vecs) // 2]))
    replay(vecs, 'store model')
    if c.prop in ('C09', 'C10', 'C11', 'C12', 'C14'):
        vecs, total = sampled(c, r, 'MC_Pairs', dict(Fam='"%s"' % c.prop, MaxLen=17 if c.prop == 'C11' else 9), 10 ** 9 if t else 50000)
        c.exhaustive.append('binary calls on every two sets out of five names and on arrays of every two lengths up to %d, other calls on each of them: %d calls, of which %d were replayed'
                            % (17 if c.prop == 'C11' else 9, total, len(vecs)))
        replay(vecs, 'pair model')
    if c.prop in ('C09', 'C10', 'C11', 'C12'):
        n = 4 if t else 3
        vecs, total = sampled(c, r, 'MC_Nest', dict(Fam='"%s"' % c.prop, MaxLen=n), 50000 if t else 3000, kind=lambda l: re.search(r'\[\\*"([a-z]\.[a-zA-Z]+)\\*"', l).group(1))
        c.exhaustive.append('calls on two places of which one is in the other, in containers of up to %d parts with a container of up to %d parts: %d calls, of which %d were replayed'
                            % (n, n, total, len(vecs)))
        replay(vecs, 'nest model')
    if t:
        for consts in (dict(Fam='"%s"' % c.prop, MaxNodes=4, Rich='TRUE'), dict(Fam='"%s"' % c.prop, MaxNodes=5, Rich='FALSE')):
            if c.prop == 'C26':
                continue
            vecs, total = sampled(c, r, 'MC_Store', consts, 500000, heap='8g')
            c.exhaustive.append('model only: %s, %d transitions, of which %d were replayed' % (consts, total, len(vecs)))
            replay(vecs, 'store model %s' % consts)
    reqs = [gen.session(r, c.prop, r.choice([10, 30, 60])) for _ in range(6000 if t else 450)]
    reqs += [gen.focus_session(r, c.prop) for _ in range(1500 if t else 120)]
    reqs += [gen.big_session(r, c.prop) for _ in range(800 if t else 60)]
    reqs += [gen.huge_session(r, c.prop) for _ in range(200 if t else 24)]
    if c.prop in ('C11', 'C26'):
        reqs += [*gen.sized_sessions(r, c.prop, 70 if t else 20)]
    if c.prop in ('C09', 'C10', 'C11', 'C12'):
        reqs += [gen.related_session(r, c.prop) for _ in range(3000 if t else 200)]
    if c.prop in ('C09', 'C10', 'C11', 'C12', 'C13'):
        reqs += [gen.nested_session(r, c.prop) for _ in range(20000 if t else 1200)]
    resp = c.run_harness(hb, reqs, shards=8)
    c.no_crash(reqs, resp, 'histories')
    lines = [dict(st=q['st'], steps=o['steps']) for q, o in zip(reqs, resp) if o is not None]
    c.sample(dict(history=[s['a'] for s in lines[0]['steps'][:6]]), 900)
    c.judge('JudgeStore', lines, workers=8, label='histories', parts=sum(len(l['steps']) for l in lines))


for _p in ('C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C26'):
    check(_p)(store_check)


@check('C27')
def c27(c):
    r = random.Random(c.seed * 1000 + 27)
    t = c.thorough
    hb = c.build_async('h_fault', ['h_fault.cpp'], flags=['-D_GLIBCXX_ASSERTIONS'])
    # libstdc++ 13 itself runs into a __builtin_unreachable when copying a variant runs out of memory
    ts = TypeSet(c, 'types', [x for x in ctypes_gen.fixed_types() + made_types(r, 80 if t else 8) if '"var"' not in json.dumps(x.d)], ['TY_JSON', 'TY_CONV', 'TY_FAULT'])
    vecs, total = sampled(c, r, 'MC_Fault', dict(MaxNodes=4 if t else 3), 120000 if t else 12000, heap='8g')
    c.exhaustive.append('every call of the interface in every store of up to %d parts: what a failing one may leave was checked for %d calls, of which %d were made with every allocation failing in turn'
                        % (4 if t else 3, total, len(vecs)))
    c.sample(dict(call=vecs[len(vecs) // 2]), 900)
    hb = hb.result()
    reqs = [dict(op='f1', st=v['st'], ops=[v['a']]) for v in vecs]
    n = len(reqs)
    for _ in range(6000 if t else 400):
        reqs.append({**gen.session(r, 'C27', r.choice([8, 16])), 'op': 'fault'})
    for _ in range(600 if t else 40):
        reqs.append({**gen.big_session(r, 'C27'), 'op': 'fault', 'max': 20000})
    resp = c.run_harness(hb, reqs, shards=8)
    c.no_crash(reqs, resp, 'failing calls')
    lines = [dict(st=q['st'], steps=o['steps']) for q, o in zip(reqs, resp) if o is not None]
    c.sample(dict(history=[dict(a=s['a'], ends=len(s['f'])) for s in lines[-1]['steps'][:6]]), 900)
    if sum(len(l['steps']) for l in lines[:n]) < 0.95 * n:
        raise CheckError('the calls of the model were not made')
    c.judge('JudgeFault', lines, workers=8, label='failing calls', parts=sum(len(s['f']) for l in lines for s in l['steps']))
    docs = random_docs(c, r, 4000 if t else 500)
    reqs = [dict(op='fp', doc=d) for d in docs] + [dict(op='fd', v=gen.value(r, 3, 4, 40)) for _ in range(4000 if t else 500)]
    resp = c.run_harness(hb, reqs, shards=8)
    c.no_crash(reqs, resp, 'failing parses and dumps')
    c.judge('JudgeFault', with_obs(reqs, resp), workers=8, label='failing parses and dumps')
    def marked(reqs):
        for q in reqs:
            d = json.dumps(ts.types[q['t'] - 1].d)
            if '"rec"' in d or '"ext"' in d:
                q['chk'] = 1
        return reqs
    vecs = typed_vectors(c, r, 'MC_Types', ts, dict(MaxEdits=2, MaxChanges=1), dict(tojson=300 if t else 12, conv=300 if t else 20))
    run_types(c, ts, marked(readable(ts, vecs)), 'failing conversions of the type model')
    run_types(c, ts, marked(random_xs(r, ts, 100 if t else 6) + random_vs(r, ts, 100 if t else 8)), 'failing conversions')


# ---------------------------------------------------------------- equality
@check('C15')
def c15(c):
    r = random.Random(c.seed * 1000 + 15)
    hb = c.build_async('h_eq', ['h_eq.cpp'])
    vecs, total = sampled(c, r, 'MC_Eq', dict(MaxNodes=5 if c.thorough else 4), 200000 if c.thorough else 13000, heap='8g')
    c.exhaustive.append('every pair of values of up to 2 parts; every value of up to %d parts with its neighbours: %d values, of which %d were replayed'
                        % (5 if c.thorough else 4, total, len(vecs)))
    hb = hb.result()
    resp = c.run_harness(hb, [{k: v[k] for k in ('op', 'v', 'ws')} for v in vecs], shards=8)
    c.sample(dict(vector=vecs[len(vecs) // 2]))
    c.compare(vecs, resp, 'equality model')
    reqs = []
    for _ in range(6000 if c.thorough else 800):
        v = gen.value(r, r.choice([1, 2, 4]), r.choice([2, 5, 9]), r.choice([8, 40, 100]))
        reqs.append(dict(op='eq', v=v, ws=[v] + [gen.nearby(r, v) for _ in range(12)]))
    for v in gen.magnitudes(r, 10 if c.thorough else 1):
        reqs.append(dict(op='eq', v=v, ws=[v, gen.change_end(r, v), gen.change_end(r, v, False)] + [gen.nearby(r, v) for _ in range(3)]))
    for _ in range(600 if c.thorough else 100):
        v = gen.alike(r, r.choice([9, 17, 33, 40, 65, 101, 130, 257]))
        reqs.append(dict(op='eq', v=v, ws=[v, gen.change_end(r, v)] + [gen.nearby(r, v) for _ in range(4)]))
    for _ in range(20 if c.thorough else 3):
        reqs += [gen.one_off(r, n, 40) for n in (5, 16, 24, 33, 40, 65, 100, 130, 257, 300, 520, 600, 1030, 1500, 2060)]
    resp = c.run_harness(hb, reqs, shards=8)
    c.no_crash(reqs, resp, 'equality')
    c.judge('Judge', with_obs(reqs, resp), label='comparisons')


# ---------------------------------------------------------------- conversions between C++ types and JSON
class TypeSet:
    """Types, their descriptors in a file, and a harness that knows them."""

    def __init__(self, c, name, types, ops, per=8, flags=(), cxx='clang++', defs=None):
        self.types = types
        self.file = c.path(name + '.types')
        with open(self.file, 'w') as f:
            for t in types:
                f.write(json.dumps(t.d) + '\n')
        srcs = ['h_types.cpp']
        for i, u in enumerate(ctypes_gen.units(types, per)):
            p = c.path('%s_u%d.cpp' % (name, i))
            with open(p, 'w') as f:
                f.write(u)
            srcs.append(p)
        self.bin = c.build_async(name, srcs, ['-D' + o for o in ops] + list(flags), opt='-O0', cxx=cxx, defs=defs)
        self.env = {'TYPES': self.file}
        c.notes.append('%d types, among them: %s' % (len(types), '; '.join(t.cpp for t in types[-6:])))


def typed_vectors(c, r, module, ts, consts, caps, workers=8):
    """Requests emitted by a model over types; of each operation at most caps[op] per type, chosen at random."""
    n = len(ts.types)
    kept, seen = {}, {}
    total = [0]

    def keep(l):
        p = l.index('\\"op\\":\\"') + 9
        op = l[p:l.index('\\"', p)]
        q = l.index('\\"t\\":') + 6
        e = q
        while l[e].isdigit():
            e += 1
        k = (op, int(l[q:e]))
        if op not in caps:
            return
        total[0] += 1
        seen[k] = seen.get(k, 0) + 1
        ls = kept.setdefault(k, [])
        if len(ls) < caps[op]:
            ls.append(l)
        else:
            j = r.randrange(seen[k])
            if j < caps[op]:
                ls[j] = l
    rc, out, st, tr = c.tlc(module, consts, env=ts.env, on_line=keep, workers=workers, heap='8g')
    if rc != 0:
        raise CheckError('TLC on %s ended with %d:\n%s' % (module, rc, '\n'.join(x[:600] for x in out[-40:])))
    vecs = [json.loads(json.loads(l)) for k in sorted(kept) for l in sorted(kept[k])]
    c.log('%s %s: %d states of %d types, %d of %d vectors kept' % (module, consts, st, n, len(vecs), total[0]))
    c.exhaustive.append('%s %s: %d types, %d states explored, %d of %d vectors replayed' % (module, consts, n, st, len(vecs), total[0]))
    return vecs


def readable(ts, vecs):
    return [q for q in vecs if q['op'] == 'tojson' or ts.types[q['t'] - 1].rd]


def run_types(c, ts, reqs, label, consts=None):
    resp = c.run_harness(ts.bin.result() if hasattr(ts.bin, 'result') else ts.bin, reqs, shards=8)
    c.no_crash(reqs, resp, label)
    lines = with_obs(reqs, resp)
    c.sample(dict(vector=reqs[len(reqs) // 2]))
    c.judge('JudgeTypes', lines, workers=8, env=ts.env, label=label, consts=consts)


def flt_free(d):
    return '"flt"' not in json.dumps(d)


def random_xs(r, ts, per):
    return [dict(op='tojson', t=i + 1, x=ctypes_gen.rand_x(r, t.d)) for i, t in enumerate(ts.types) for _ in range(per)]


def random_vs(r, ts, per, op='conv'):
    out = []
    for i, t in enumerate(ts.types):
        if not t.rd:
            continue
        uns = ctypes_gen.has_unsigned(t.d)
        for _ in range(per):
            v = ctypes_gen.enc(t.d, ctypes_gen.rand_x(r, t.d))
            for _ in range(0 if op == 'strange' else r.choice([0, 0, 1, 1, 1, 2, 3])):
                v = ctypes_gen.mutate(r, v)
            if t.d[0] == 'rec' and (op == 'strange' or r.random() < 0.2):
                v = ctypes_gen.misnamed(r, t.d, v)
            out.append(dict(op='rec' if op == 'strange' else op, t=i + 1, v=ctypes_gen.neg_zero_free(v) if uns else v))
    return out


def made_types(r, n, depth=3, prefix='Q'):
    m = ctypes_gen.Maker(r, prefix)
    return [m.type(r.choice([1, 2, 2, depth])) for _ in range(n)]


@check('C16')
def c16(c):
    r = random.Random(c.seed * 1000 + 16)
    ts = TypeSet(c, 'types', [t for t in ctypes_gen.fixed_types() + made_types(r, 160 if c.thorough else 24) if t.rd], ['TY_CONV'])
    vecs = typed_vectors(c, r, 'MC_Types', ts, dict(MaxEdits=2, MaxChanges=1), dict(conv=1500 if c.thorough else 150))
    run_types(c, ts, vecs, 'type model')
    run_types(c, ts, random_vs(r, ts, 300 if c.thorough else 30), 'conversions')


def tojson_check(c):
    r = random.Random(c.seed * 1000 + int(c.prop[1:]))
    ts = TypeSet(c, 'types', ctypes_gen.fixed_types() + made_types(r, 120 if c.thorough else 24), ['TY_JSON'])
    vecs = typed_vectors(c, r, 'MC_Types', ts, dict(MaxEdits=3, MaxChanges=0), dict(tojson=600 if c.thorough else 60))
    run_types(c, ts, vecs, 'type model')
    run_types(c, ts, random_xs(r, ts, 200 if c.thorough else 25), 'values')


check('C17')(tojson_check)
check('C19')(tojson_check)


@check('C18')
def c18(c):
    r = random.Random(c.seed * 1000 + 18)
    S = ctypes_gen.scalar
    ints = [S(n) for n in list(ctypes_gen.INTS) + list(ctypes_gen.NARROW)]
    rd = [t for t in ints if t.rd]
    comp = [ctypes_gen.seq('vector', t) for t in rd] + [ctypes_gen.map_('map', t) for t in rd[:3]] + [ctypes_gen.nul('opt', t) for t in rd[3:]] \
        + [ctypes_gen.var(rd[:4]), ctypes_gen.var([S('ull'), S('ill'), S('str')]), ctypes_gen.fix(3, S('i64')), ctypes_gen.tup(rd)]
    ts = TypeSet(c, 'types', ints + comp, ['TY_JSON', 'TY_CONV'])
    one = TypeSet.__new__(TypeSet)
    one.types, one.bin = ints, ts.bin
    one.file = c.path('ints.types')
    with open(one.file, 'w') as f:
        f.write(''.join(json.dumps(t.d) + '\n' for t in ints))
    one.env = {'TYPES': one.file}
    vecs = typed_vectors(c, r, 'MC_Int', one, dict(MaxEdits=3 if c.thorough else 2), dict(conv=40000 if c.thorough else 2500, tojson=20000 if c.thorough else 1000))
    run_types(c, one, readable(one, vecs), 'integer model')
    toks = [b for b in int_tokens(r, 4000 if c.thorough else 500)]
    reqs = []
    for tk in toks:
        for i in r.sample(range(len(ints)), 2):
            if ints[i].rd and not (tk == '-0' and ctypes_gen.has_unsigned(ints[i].d)):
                reqs.append(dict(op='conv', t=i + 1, v=['n', gen.b(tk)]))
    reqs += random_xs(r, ts, 100 if c.thorough else 25) + random_vs(r, ts, 400 if c.thorough else 60)
    run_types(c, ts, reqs, 'integers')


def int_tokens(r, n):
    for _ in range(n):
        k = r.choice([1, 3, 8, 9, 10, 11, 18, 19, 20, 21, 30, 100, 1000])
        t = str(r.randrange(10 ** (k - 1) if k > 1 else 0, 10 ** k))
        c = r.random()
        if c < 0.2:
            t += r.choice(['.0', '.5', 'e0', 'E+1', 'e-1', '.000000000000000000000000000001', 'e999', '.' + '0' * 300, 'e' + '0' * 50])
        yield ('-' if r.random() < 0.4 else '') + t


@check('C20')
def c20(c):
    r = random.Random(c.seed * 1000 + 20)
    m = ctypes_gen.Maker(r)
    enums = ctypes_gen.fixed_enums() + [m.enum() for _ in range(30 if c.thorough else 8)]
    S = ctypes_gen.scalar
    rd = [e for e in enums if e.rd]
    comp = [ctypes_gen.seq('vector', rd[0]), ctypes_gen.map_('map', rd[1]), ctypes_gen.nul('opt', rd[2]), ctypes_gen.set_('set', rd[3]), ctypes_gen.var([rd[4], S('str')]),
            ctypes_gen.var([S('i32'), rd[0], rd[5]]), ctypes_gen.tup([rd[5], rd[0]], True), ctypes_gen.fix(2, rd[1]), ctypes_gen.ext('XEnum', rd[2]),
            ctypes_gen.rec('REnum', [('a', rd[0], False, None, None), ('b', rd[1], True, None, None)])]
    modes = [('names', 'clang++', [], 'FALSE'), ('numbers', 'clang++', ['-DMEOJSON_ENUM_AS_NUMBER'], 'TRUE'), ('names_gcc', 'g++', [], 'FALSE')]
    sets = [TypeSet(c, n, enums + comp, ['TY_JSON', 'TY_CONV'], flags=fl, cxx=cxx) for n, cxx, fl, _ in modes]
    # a range of the user's own for every enum that has none
    ctypes_gen.ENUM_RANGE = (-130, 300)
    wide = ctypes_gen.fixed_enums() + [ctypes_gen.seq('vector', ctypes_gen.fixed_enums()[5])]
    ctypes_gen.ENUM_RANGE = (-128, 128)
    ws = TypeSet(c, 'wide', wide, ['TY_JSON', 'TY_CONV'], flags=['-DMEOJSON_ENUM_REFLECTION_MIN_ENUMS=-130', '-DMEOJSON_ENUM_REFLECTION_MAX_ENUMS=300'])
    k = dict(EnumAsNumber='FALSE')
    run_types(c, ws, random_xs(r, ws, 100 if c.thorough else 20) + random_vs(r, ws, 400 if c.thorough else 60), 'enums, a wider range for all', k)
    for ts, (n, cxx, fl, num) in zip(sets, modes):
        one = TypeSet.__new__(TypeSet)
        one.types, one.bin, one.file = enums, ts.bin, c.path(n + '.enums')
        with open(one.file, 'w') as f:
            f.write(''.join(json.dumps(t.d) + '\n' for t in enums))
        one.env = {'TYPES': one.file}
        k = dict(EnumAsNumber=num)
        if n != 'names_gcc' or c.thorough:
            vecs = typed_vectors(c, r, 'MC_Enum', one, dict(MaxEdits=2 if c.thorough else 1, **k), dict(conv=5000 if c.thorough else 700, tojson=3000 if c.thorough else 500))
        run_types(c, one, readable(one, vecs), 'enum model, ' + n, k)
        if num == 'FALSE':
            run_types(c, ts, random_xs(r, ts, 100 if c.thorough else 20) + random_vs(r, ts, 400 if c.thorough else 40), 'enums, ' + n, k)


def structs(r, c):
    """Reflected structs of every number of macro arguments, with the modifiers anywhere."""
    m = ctypes_gen.Maker(r, 'S')
    out = []
    for n in range(1, 65):
        out.append(m.rec(n, -1, 0))
        if n > 1:                                  # a modifier is an argument of its own
            k = r.randint(1, n - -(-n // 3))
            out.append(m.rec(n - k, -1, min(k, 2 * (n - k) - 1)))
    return out


@check('C21')
def c21(c):
    r = random.Random(c.seed * 1000 + 21)
    m = ctypes_gen.Maker(r, 'D')
    nested = [m.rec(r.choice([1, 2, 3, 4, 6, 9]), 2) for _ in range(60 if c.thorough else 14)] + ctypes_gen.record_types()
    wrapped = []
    for t in nested[:10]:
        wrapped.append(r.choice([lambda t: ctypes_gen.seq('vector', t), lambda t: ctypes_gen.map_('map', t), lambda t: ctypes_gen.nul('shared', t), lambda t: ctypes_gen.tup([t, t], True),
                                 lambda t: ctypes_gen.fix(2, t), lambda t: ctypes_gen.nul('opt', t)])(t))
    flat = structs(r, c)
    ts = TypeSet(c, 'types', nested + wrapped, ['TY_JSON'])
    fs = TypeSet(c, 'flat', flat, ['TY_REC', 'TY_FLAT'], per=12)
    vecs = typed_vectors(c, r, 'MC_Types', ts, dict(MaxEdits=2, MaxChanges=0), dict(tojson=400 if c.thorough else 60))
    run_types(c, ts, vecs, 'struct model')
    run_types(c, ts, random_xs(r, ts, 200 if c.thorough else 20), 'structs')
    run_types(c, fs, [q for q in random_xs(r, fs, 60 if c.thorough else 12)], 'structs of every size')
    run_types(c, fs, prior(r, random_vs(r, fs, 60 if c.thorough else 8, 'strange'), fs), 'members of no field')


def prior(r, qs, s):
    return [dict(q, x=ctypes_gen.rand_x(r, s.types[q['t'] - 1].d)) for q in qs]


@check('C22')
def c22(c):
    r = random.Random(c.seed * 1000 + 22)
    m = ctypes_gen.Maker(r, 'D')
    small = [m.rec(n, 1) for n in [1, 2, 3, 4, 5, 6] * (6 if c.thorough else 2)] + [m.rec(n, -1) for n in [2, 3, 4, 5] * (6 if c.thorough else 2)] + [t for t in ctypes_gen.record_types() if t.rd]
    flat = structs(r, c)
    ts = TypeSet(c, 'types', [t for t in small if t.rd], ['TY_REC'])
    fs = TypeSet(c, 'flat', flat, ['TY_REC'], per=12)
    vecs = typed_vectors(c, r, 'MC_Rec', ts, dict(MaxOdd=3 if c.thorough else 2), dict(rec=3000 if c.thorough else 300))
    run_types(c, ts, prior(r, vecs, ts), 'struct model')
    run_types(c, ts, prior(r, random_vs(r, ts, 300 if c.thorough else 40, 'rec'), ts), 'structs')
    run_types(c, fs, prior(r, random_vs(r, fs, 60 if c.thorough else 12, 'rec'), fs), 'structs of every size')


@check('C24')
def c24(c):
    r = random.Random(c.seed * 1000 + 24)
    hb = c.build_async('h_float', ['h_float.cpp'])
    vecs, total = sampled(c, r, 'MC_Float', dict(Step=1 if c.thorough else 6), 250000 if c.thorough else 9000, kind=lambda l: 'f32' if 'f32' in l else 'f80' if 'f80' in l else 'f64', heap='8g')
    c.exhaustive.append('every exponent of float and double, of both signs, with %d mantissa patterns: %d values, of which %d were replayed' % (total // 4600, total, len(vecs)))
    for _ in range(100000 if c.thorough else 6000):
        k, top, mb = r.choice([('f32', 254, 23), ('f64', 2046, 52), ('f64', 2046, 52), ('f80', 32766, 63)])
        e = r.choice([0, 1, top, top // 2, r.randint(0, top), r.randint(0, top), r.randint(0, top)])
        vecs.append(dict(op='fl', k=k, s=r.random() < 0.5, e=e, m=['raw', gen.b('%x' % r.getrandbits(mb))]))
    for k, top, mb in (('f32', 254, 23), ('f64', 2046, 52), ('f80', 32766, 63)):       # zeros, ends of the range, integers of every size
        for e in [0, 1, 2, top - 1, top] + list(range(top // 2 - 3, top // 2 + mb + 3)):
            for m in (0, 1, 1 << (mb - 1), (1 << mb) - 1):
                vecs += [dict(op='fl', k=k, s=s, e=e, m=['raw', gen.b('%x' % m)]) for s in (False, True)]
    hb = hb.result()
    c.sample(dict(vector=vecs[1]))
    for i in range(0, len(vecs), 100000):
        part = vecs[i:i + 100000]
        resp = c.run_harness(hb, part, shards=8)
        c.no_crash(part, resp, 'floating point')
        c.judge('JudgeFloat', [dict(k=q['k'], obs=o, q=[q['s'], q['e'], q['m']]) for q, o in zip(part, resp) if o is not None], workers=8, label='floating point')


# ---------------------------------------------------------------- the environment
LOCALES = [('de_DE', 'UTF-8'), ('ps_AF', 'UTF-8'), ('tr_TR', 'ISO-8859-9'), ('ar_SA', 'ISO-8859-6')]


def make_locales(c):
    """Compiles C locales that differ from "C" in punctuation, case and character classes; returns the names of those that work."""
    d = c.path('locales')
    os.makedirs(d, exist_ok=True)
    names = []
    for l, ch in LOCALES:
        n = '%s.%s' % (l, ch)
        try:
            subprocess.run(['localedef', '-i', l, '-f', ch, os.path.join(d, n)], capture_output=True, timeout=120)
        except OSError:
            pass
        p = subprocess.run(['python3', '-c', 'import locale,sys; locale.setlocale(locale.LC_ALL, sys.argv[1])', n], capture_output=True, env={**os.environ, 'LOCPATH': d})
        if p.returncode == 0:
            names.append(n)
    c.runenv['LOCPATH'] = d
    c.notes.append('C locales: ' + (', '.join(names) or 'none could be made; only C++ locales are varied'))
    return names


@check('C25')
def c25(c):
    r = random.Random(c.seed * 1000 + 25)
    t = c.thorough
    keep = ['-DMEOJSON_FS_PATH_EXTENSION', '-DMEOJSON_KEEP_FLOATING_PRECISION']
    env = [(n, c.build_async('h_env_' + n, ['h_env.cpp'], cxx=x, opt='-O0', defs=d))
           for n, x, d in (('precise', 'clang++', keep), ('default', 'clang++', keep[:1])) + ((('precise-gcc', 'g++', keep), ('default-gcc', 'g++', keep[:1])) if t else ())]
    hp, hf, hs = [c.build_async(h, [h + '.cpp'], cxx='clang++', opt='-O0') for h in ('h_parse', 'h_float', 'h_store')]
    enums = [e for e in ctypes_gen.fixed_enums() if e.rd][:6]
    types = enums + ctypes_gen.record_types() + r.sample(ctypes_gen.fixed_types(), 60 if t else 12) + [ctypes_gen.scalar(n) for n in list(ctypes_gen.INTS)[:4] + ['f32', 'f64', 'f80']]
    ts = TypeSet(c, 'types', types, ['TY_JSON', 'TY_CONV'])
    plain = [x for x in types if flt_free(x.d)]
    td = TypeSet(c, 'types_default', plain, ['TY_JSON', 'TY_CONV'], defs=keep[:1]) if t else None
    names = make_locales(c)
    every = '{%s}' % ', '.join('"%s"' % n for n in ['C'] + names)

    # histories of the model
    vecs, total = sampled(c, r, 'MC_Env', dict(MaxSteps=4, CLocales=every) if t else dict(CLocales=every), 150000 if t else 6000, heap='8g')
    c.exhaustive.append('every history of up to %d steps that writes, shows and reads numbers and changes the C locale, the C++ locale and errno: %d, of which %d were replayed'
                        % (4 if t else 3, total, len(vecs)))
    deep = []
    rc, out, st, tr = c.tlc('MC_Env', dict(MaxSteps=14, MaxChanges=7, CLocales=every), on_line=lambda l: deep.append(json.loads(json.loads(l))), workers=8,
                            simulate='num=%d' % (1500 if t else 30), extra=['-depth', '15', '-seed', str(c.seed)])
    if rc != 0:
        raise CheckError('TLC simulation ended with %d:\n%s' % (rc, '\n'.join(out[-30:])))
    deep = sorted((v for v in deep if len(v['h']) > 12), key=json.dumps)
    vecs += r.sample(deep, min(len(deep), 20000 if t else 800))
    c.sample(dict(history=vecs[-1]['h']), 900)
    for n, b in env:
        resp = c.run_harness(b.result(), vecs, shards=8)
        c.no_crash(vecs, resp, 'histories of the environment, ' + n)
        c.judge('JudgeEnv', [dict(h=v['h'], obs=o) for v, o in zip(vecs, resp) if o is not None], workers=8, label='histories of the environment, ' + n, parts=sum(len(v['h']) for v in vecs))

    # everything else, in another environment for every call
    c.runenv['MJ_LOCALES'] = ','.join(['C'] + names)
    runs = c.model_check('MC_Text', dict(MaxNodes=2), workers=8)
    runs = r.sample(runs, min(len(runs), 20000 if t else 2500))
    hp = hp.result()
    resp = c.run_harness(hp, [{k: v[k] for k in ('op', 'full', 'v', 'ws')} for v in runs], shards=8)
    c.compare(runs, resp, 'text model in other environments')
    docs = list(gen.numbers_sweep(3)) + r.sample(list(gen.numbers_sweep(5)), 8000 if t else 1200) + [[91] + x + [93] for x in ([y] for y in range(256))]
    docs += [[91, 34] + [x] + [34, 93] for x in range(256)] + [[91, 34, 92] + [x] + [34, 93] for x in range(256)] + [[x] + [91, 93] + [y] for x in range(1, 256) for y in r.sample(range(256), 2)]
    docs += [*gen.unicode_sweep(20 if t else 200, r), *gen.dup_keys(r, 200 if t else 40), *random_docs(c, r, 4000 if t else 300)]
    reqs = [dict(op='p', both=1, doc=d) for d in dedup(docs)]
    r.shuffle(reqs)
    resp = c.run_harness(hp, reqs, shards=8)
    c.no_crash(reqs, resp, 'parse in other environments')
    c.judge('Judge', with_obs(reqs, resp), workers=8, label='parse in other environments')
    ent = [dict(op='e', doc=d, dir=c.dir) for d in r.sample(list(dedup(gen.entry_docs(r, 600))), 1500 if t else 200)]
    resp = c.run_harness(hp, ent, shards=8)
    c.no_crash(ent, resp, 'entry points in other environments')
    c.judge('Judge', with_obs(ent, resp), workers=8, label='entry points in other environments')
    fl = []
    for _ in range(40000 if t else 2500):
        k, top, mb = r.choice([('f32', 254, 23), ('f64', 2046, 52), ('f64', 2046, 52), ('f80', 32766, 63)])
        fl.append(dict(op='fl', k=k, s=r.random() < 0.5, e=r.choice([0, 1, top, top // 2, r.randint(0, top), r.randint(top // 2 - 30, top // 2 + 60)]), m=['raw', gen.b('%x' % r.getrandbits(mb))]))
    resp = c.run_harness(hf.result(), fl, shards=8)
    c.no_crash(fl, resp, 'floating point in other environments')
    c.judge('JudgeFloat', [dict(k=q['k'], obs=o, q=[q['s'], q['e'], q['m']]) for q, o in zip(fl, resp) if o is not None], workers=8, label='floating point in other environments')
    for s in [ts] + ([td] if td else []):
        run_types(c, s, random_xs(r, s, 60 if t else 25) + random_vs(r, s, 150 if t else 40), 'conversions in other environments')
    one = TypeSet.__new__(TypeSet)
    one.types, one.bin, one.file = enums, ts.bin, c.path('enums.types')
    with open(one.file, 'w') as f:
        f.write(''.join(json.dumps(x.d) + '\n' for x in enums))
    one.env = {'TYPES': one.file}
    vecs = typed_vectors(c, r, 'MC_Enum', one, dict(MaxEdits=1, EnumAsNumber='FALSE'), dict(conv=2000 if t else 300, tojson=1000 if t else 200))
    run_types(c, one, vecs, 'enum model in other environments')
    reqs = [gen.session(r, r.choice(['C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C26']), 20) for _ in range(600 if t else 60)] + [*gen.sized_sessions(r, 'C26', 40 if t else 10)]
    resp = c.run_harness(hs.result(), reqs, shards=8)
    c.no_crash(reqs, resp, 'histories in other environments')
    lines = [dict(st=q['st'], steps=o['steps']) for q, o in zip(reqs, resp) if o is not None]
    c.judge('JudgeStore', lines, workers=8, label='histories in other environments', parts=sum(len(l['steps']) for l in lines))


# ---------------------------------------------------------------- threads
def conc_build(c, name, types, cxx, san, opt):
    f = c.path(name + '.types')
    with open(f, 'w') as o:
        o.write(''.join(json.dumps(t.d) + '\n' for t in types))
    ty = ['-DTY_JSON', '-DTY_CONV', '-DTY_REC', '-DMJ_REGISTER']
    srcs = ['h_conc.cpp'] + [('h_%s.cpp' % h, ['-Dmain=main_' + h, '-DMJ_REGISTER']) for h in ('parse', 'eq', 'float')] + [('h_types.cpp', ['-Dmain=main_types'] + ty)]
    for i, u in enumerate(ctypes_gen.units(types, 6)):
        p = c.path('%s_u%d.cpp' % (name, i))
        with open(p, 'w') as o:
            o.write(u)
        srcs.append((p, ty + ['-O0']))
    return c.build_async(name, srcs, san, cxx=cxx, san=False, opt=opt), {'TYPES': f}


@check('C23')
def c23(c):
    r = random.Random(c.seed * 1000 + 23)
    t = c.thorough
    types = [x for x in ctypes_gen.fixed_enums() if x.rd][:4] + [x for x in ctypes_gen.record_types() if x.rd][:2] + [x for x in ctypes_gen.fixed_types() if x.rd and flt_free(x.d)]
    types = types[:6] + r.sample(types[6:], 24 if t else 10)
    hb, env = conc_build(c, 'h_conc', types, 'g++', ['-g1', '-fsanitize=thread'], '-O1')
    more = [conc_build(c, 'h_conc_' + n, types, x, s, o)[0] for n, x, s, o in
            [('clang', 'clang++', ['-g1', '-fsanitize=thread'], '-O2'), ('fast', 'g++', [], '-O2')]] if t else []

    # programs from the model
    vecs, total = sampled(c, r, 'MC_Conc', dict(MaxNodes=4 if t else 3, MaxCalls=1, N=2, Emit='"alone"'), 400000 if t else 30000, heap='8g')
    c.exhaustive.append('two threads, one call each, over every shared value of up to %d parts: every interleaving in the model; %d programs, of which %d were replayed'
                        % (4 if t else 3, total, len(vecs)))
    by = {}
    for v in vecs:
        by.setdefault(json.dumps(v['sh']), []).append(v['th'][0])
    reqs, exps = [], []
    for sh, ps in by.items():
        for i in range(0, len(ps), 60):
            part = ps[i:i + 60]
            orders = [r.sample(part, len(part)) for _ in range(4)]
            reqs.append(dict(op='sh', sh=json.loads(sh), th=[dict(own=['z'], ops=[x for p in o for x in [['own', p['own']]] + [h[0] for h in p['h']]]) for o in orders]))
            exps.append([[(h[1], h[2]) for p in o for h in p['h']] for o in orders])
    deep = []
    rc, out, st, tr = c.tlc('MC_Conc', dict(MaxNodes=4, MaxCalls=4, N=3, Emit='"all"'), on_line=lambda l: deep.append(json.loads(json.loads(l))), workers=8, heap='8g',
                            simulate='num=%d' % (40000 if t else 150), extra=['-depth', '30', '-seed', str(c.seed)])
    if rc != 0:
        raise CheckError('TLC simulation ended with %d:\n%s' % (rc, '\n'.join(out[-30:])))
    c.log('MC_Conc simulated: %d behaviours of three threads with four calls each' % len(deep))
    for v in sorted(deep, key=json.dumps):
        reqs.append(dict(op='sh', sh=v['sh'], th=[dict(own=p['own'], slot=i + 2, ops=[h[0] for h in p['h']]) for i, p in enumerate(v['th'])]))
        exps.append([[(h[1], h[2]) for h in p['h']] for p in v['th']])
    c.sample(dict(programs=reqs[-1]), 800)

    # recorded histories: own objects, one shared value
    own = [dict(op='par', th=[[dict(h='store', q=gen.session(r, 'C23', r.choice([10, 20])))] for _ in range(4)]) for _ in range(600 if t else 60)]
    shared = []
    for _ in range(1500 if t else 150):
        v = gen.literal(r, r.choice([1, 2, 3, 3])) if r.random() < 0.6 else gen.value(r, 2, 4, 20)
        shared.append(dict(op='sh', sh=v, th=[dict(own=gen.literal(r, 1), ops=gen.shared_calls(r, v, 12)) for _ in range(r.choice([2, 3, 4]))]))

    # the rest of the interface on values of one's own
    docs = [d for d in dedup(list(random_docs(c, r, 4000 if t else 300)) + list(variant_docs(c, r))[::(4 if t else 40)]) if len(d) < 4000]
    pool = {'parse': [dict(op='p', both=1, doc=d) for d in docs], 'float': [], 'eq': []}
    pool['parse'] += [dict(op='d', full=1, v=gen.value(r, r.choice([1, 2, 3]), 4, 40), ws=[2, 4]) for _ in range(3000 if t else 300)]
    pool['parse'] += [dict(op='pv', doc=d, off=r.randrange(64)) for d in r.sample(docs, min(len(docs), 1000 if t else 100))]
    pool['parse'] += [dict(op='e', doc=d, dir=c.dir) for d in list(dedup(gen.entry_docs(r, 400 if t else 60)))]
    for _ in range(3000 if t else 300):
        k, top, mb = r.choice([('f32', 254, 23), ('f64', 2046, 52), ('f80', 32766, 63)])
        pool['float'].append(dict(op='fl', k=k, s=r.random() < 0.5, e=r.randint(0, top), m=['raw', gen.b('%x' % r.getrandbits(mb))]))
    for _ in range(1000 if t else 80):
        v = gen.value(r, 2, 4, 20)
        pool['eq'].append(dict(op='eq', v=v, ws=[v] + [gen.nearby(r, v) for _ in range(4)]))

    class Ts:
        pass
    ts = Ts()
    ts.types = types
    pool['types'] = [q for op in ('conv', 'rec') for q in random_vs(r, ts, 40 if t else 8, op) if op == 'conv' or types[q['t'] - 1].d[0] == 'rec']
    for q in pool['types']:
        if q['op'] == 'rec':
            q['x'] = ctypes_gen.rand_x(r, types[q['t'] - 1].d)
    pool['types'] += random_xs(r, ts, 40 if t else 8)
    mixed = [dict(h=h, q=q) for h in pool for q in pool[h]]
    r.shuffle(mixed)
    # the first conversions of a type in a process are made by all threads at once
    first = [dict(h='types', q=q) for i in range(len(types)) for q in random_xs(r, ts, 1) if q['t'] == i + 1]
    par = [dict(op='par', th=[r.sample(first, len(first)) for _ in range(4)]) for _ in range(8)]
    par += [dict(op='par', th=[mixed[i + k:i + 32:4] for k in range(4)]) for i in range(0, len(mixed), 32)]
    par += [dict(op='par', th=[[x] * 2 for _ in range(4)]) for x in r.sample(mixed, min(len(mixed), 1500 if t else 200))]

    for n, b in enumerate([hb] + more):
        b = b.result()
        label = ('ThreadSanitizer', 'clang ThreadSanitizer', 'optimised')[n]
        resp = c.run_harness(b, par, shards=8)
        c.no_crash(par, resp, 'concurrent use of distinct values, ' + label)
        flat = {}
        for q, o in zip(par, resp):
            if o is not None:
                for th, rs in zip(q['th'], o):
                    for x, y in zip(th, rs):
                        flat.setdefault(x['h'], []).append((x['q'], y))
        resp = c.run_harness(b, own + shared, shards=8)
        c.no_crash(own + shared, resp, 'concurrent histories, ' + label)
        lines = []
        for q, o in zip(own + shared, resp):
            if o is None:
                continue
            for th, y in zip(q['th'], o):
                if q['op'] == 'par':
                    lines.append(dict(st=th[0]['q']['st'], steps=y[0]['steps']))
                else:
                    lines.append(dict(st=[['V', q['sh']], ['V', th['own']]], steps=y['steps']))
        got = c.run_harness(b, reqs, shards=8)
        c.no_crash(reqs, got, 'concurrent programs of the model, ' + label)
        for q, e, o in zip(reqs, exps, got):
            if o is None:
                continue
            for th, es, y in zip(q['th'], e, o):
                for (res, after), s in zip(es, y['steps']):
                    if not matches(res, s['r']) or not matches(after, s['st'][1]) or s['st'][0] != ['V', q['sh']]:
                        raise Violation('a thread does not get what its calls give without the other threads (%s)' % label,
                                        dict(kind='programs of the model', request=q, thread=th, step=s, expected=[res, after]))
        c.validated += sum(len(e) for e in exps)
        c.log('%s: %d programs of the model run by threads' % (label, len(reqs)))
        c.judge('JudgeStore', lines, workers=8, label='histories, ' + label, parts=sum(len(l['steps']) for l in lines))
        for h, mod in (('parse', 'Judge'), ('eq', 'Judge'), ('float', 'JudgeFloat'), ('types', 'JudgeTypes')):
            seen, ls = set(), []
            for q, o in flat.get(h, []):
                l = dict(k=q['k'], obs=o, q=[q['s'], q['e'], q['m']]) if h == 'float' else with_obs([q], [o])[0]
                s = json.dumps(l)
                if s not in seen:
                    seen.add(s)
                    ls.append(l)
            c.judge(mod, ls, workers=8, env=env, label='%s by threads, %s' % (h, label))
