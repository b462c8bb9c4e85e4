"""Machinery shared by the checks: building harnesses from /repo's working tree, running them, running TLC."""
import concurrent.futures as cf, glob, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SAN = ['-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined']
DEFS = ['-DMEOJSON_FS_PATH_EXTENSION', '-DMEOJSON_KEEP_FLOATING_PRECISION']
RUNENV = {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0',
          'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=77', 'TSAN_OPTIONS': 'exitcode=66:halt_on_error=1:report_thread_leaks=0',
          'LC_ALL': 'C'}


class CheckError(Exception):
    """The check could not be carried out (not a statement about the property)."""


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.thorough = self.tier == 'thorough'
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix='verif-%s-' % prop, dir=os.environ.get('VERIF_TMP', '/tmp'))
        self.pool = cf.ThreadPoolExecutor(16)
        self.states = self.transitions = self.validated = 0
        self.samples, self.notes, self.ncfg = [], [], 0
        self.exhaustive = []
        self.crashes, self.runenv = {}, {}

    def path(self, name):
        return os.path.join(self.dir, name)

    def log(self, *a):
        print('[%s %6.1fs]' % (self.prop, time.time() - self.t0), *a, flush=True)

    # ---- building ----
    def build(self, name, srcs, flags=(), cxx='g++', san=True, opt='-O1', defs=None):
        """Compiles a harness against /repo's current working tree. Returns its path."""
        out = self.path(name)
        objs, futs = [], []
        base = [cxx, '-std=c++17', opt, '-w', '-I' + os.path.join(REPO, 'include'), '-I' + HARNESS] + (DEFS if defs is None else defs) \
            + (SAN if san else []) + list(flags)

        def run(cmd):
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode and re.search(r'(?m)^[^ ]+: (fatal )?error: ', r.stderr) and not re.search('Killed|terminated|No space|bad_alloc|cannot allocate|out of memory', r.stderr):
                # a program that uses nothing but the public interface
                raise Violation('a program over the public interface does not compile', dict(kind='program', command=cmd, stderr=r.stderr[:4000]))
            if r.returncode:
                raise CheckError('cannot build %s: %s\n%s' % (name, ' '.join(cmd), r.stderr[:4000]))
        for s in srcs:
            extra = []
            if isinstance(s, tuple):
                s, extra = s[0], list(s[1])
            o = '%s.%d.o' % (out, len(objs))
            objs.append(o)
            futs.append(self.pool.submit(run, base + extra + ['-c', os.path.join(HARNESS, s), '-o', o]))
        for f in futs:
            f.result()
        run(base + objs + ['-o', out, '-pthread'])
        return out

    def build_async(self, *a, **k):
        # a separate thread, so that nested submissions to the pool cannot starve each other
        ex = cf.ThreadPoolExecutor(1)
        return ex.submit(self.build, *a, **k)

    # ---- running the implementation ----
    def run_harness(self, binary, reqs, shards=4, args=(), what=None):
        """Feeds requests to the harness; returns the parsed responses. A crash or hang is the response {'crash': ...}."""
        n = len(reqs)
        if n == 0:
            return []
        shards = max(1, min(shards, n))
        res = [None] * n

        def work(k):
            idx = list(range(k, n, shards))
            tag = '%s.%d.%d' % (os.path.basename(binary), k, self._uid())
            fin, fout = self.path(tag + '.in'), self.path(tag + '.out')
            with open(fin, 'w') as f:
                for i in idx:
                    f.write(json.dumps(reqs[i], separators=(',', ':')) + '\n')
            open(fout, 'w').close()
            start, ncrash = 0, 0
            while start < len(idx):
                p = subprocess.run([binary, fin, fout, str(start)] + list(args), capture_output=True, text=True, errors='replace',
                                   env={**os.environ, **RUNENV, **self.runenv})
                with open(fout) as f:
                    lines = f.read().split('\n')
                done = len(lines) - 1
                if p.returncode == 99:
                    raise CheckError('harness refused a request: %s' % p.stderr[-2000:])
                if p.returncode == 0:
                    break
                # the request number `done` did not come back
                if done >= len(idx):
                    if p.returncode in (66, 77):
                        raise Violation('a sanitizer reported an error after the last response',
                                        dict(kind=what or 'end of the harness', request=reqs[idx[-1]], stderr=p.stderr[-6000:]))
                    raise CheckError('harness ended with %d after its last response: %s' % (p.returncode, p.stderr[-2000:]))
                with open(fout, 'w') as f:
                    f.write('\n'.join(lines[:done] + [json.dumps({'crash': p.returncode})]) + '\n')
                self.crashes[idx[done]] = p.stderr[-6000:]
                ncrash += 1
                start = done + 1
                if ncrash >= 5:
                    lines2 = lines[:done] + [json.dumps({'crash': p.returncode})] + ['null'] * (len(idx) - start)
                    with open(fout, 'w') as f:
                        f.write('\n'.join(lines2) + '\n')
                    break
            with open(fout) as f:
                out = [json.loads(l) for l in f.read().split('\n')[:-1]]
            if len(out) != len(idx):
                raise CheckError('%s: %d responses to %d requests; exit %s %s' % (binary, len(out), len(idx), p.returncode, p.stderr[-2000:]))
            for i, o in zip(idx, out):
                res[i] = o
            os.unlink(fin), os.unlink(fout)
        for f in [self.pool.submit(work, k) for k in range(shards)]:
            f.result()
        return res

    _n = 0

    def _uid(self):
        Ctx._n += 1
        return Ctx._n

    # ---- TLC ----
    def tlc(self, module, consts=None, cfg=None, env=None, workers=4, extra=(), heap='4g', timeout=None, on_line=None, simulate=None):
        """Runs TLC on spec/<module>.tla. Returns (returncode, output lines without emitted vectors). Emitted lines go to on_line."""
        uid = self._uid()
        if cfg is None:
            cfg = os.path.join(SPEC, module + '.cfg')
        text = open(cfg).read() if os.path.exists(cfg) else cfg
        for k, v in (consts or {}).items():
            text, m = re.subn(r'(?m)^(\s*%s\s*=\s*).*$' % re.escape(k), lambda mo: mo.group(1) + str(v), text)
            if m != 1:
                raise CheckError('no constant %s in the configuration of %s' % (k, module))
        cf_ = self.path('%s.%d.cfg' % (module, uid))
        with open(cf_, 'w') as f:
            f.write(text)
        md = self.path('md%d' % uid)
        cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=%d' % max(2, workers), '-Xss512m', '-Xmx' + heap, '-Djava.io.tmpdir=' + self.dir,
               '-cp', CP, 'tlc2.TLC', '-noGenerateSpecTE', '-workers', str(workers), '-metadir', md, '-config', cf_] + list(extra)
        if simulate:
            cmd += ['-simulate', simulate]
        cmd.append(os.path.join(SPEC, module + '.tla'))
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', cwd=SPEC,
                             env={**os.environ, **(env or {})})
        lines = []
        for l in p.stdout:
            if on_line and l.startswith('"'):
                on_line(l)
            else:
                lines.append(l.rstrip('\n'))
        rc = p.wait()
        shutil.rmtree(md, ignore_errors=True)
        txt = '\n'.join(lines)
        st = tr = 0
        m = re.findall(r'(\d+) states generated(?:.*?), (\d+) distinct states found', txt)
        if m:
            tr, st = int(m[-1][0]), int(m[-1][1])
        m = re.findall(r'The number of states generated: (\d+)', txt)
        if m:
            tr = st = int(m[-1])
        self.states += st
        self.transitions += tr
        return rc, lines, st, tr

    def model_check(self, module, consts=None, env=None, workers=4, collect=True, heap='4g', cfg=None, extra=(), simulate=None):
        """Explores the model; every violated invariant of the specification is an error of the check, not of the code.
        Returns the emitted vectors."""
        vecs = []
        rc, lines, st, tr = self.tlc(module, consts, cfg=cfg, env=env, workers=workers, heap=heap, extra=extra, simulate=simulate,
                                     on_line=vecs.append if collect else None)
        if rc != 0:
            raise CheckError('TLC on %s ended with %d:\n%s' % (module, rc, '\n'.join(x[:600] for x in lines[-40:])))
        self.log('%s: %d states, %d transitions, %d vectors' % (module, st, tr, len(vecs)))
        return [json.loads(json.loads(l)) for l in sorted(vecs)]

    def judge(self, module, lines, workers=4, env=None, heap='6g', label='trace', parts=None, consts=None):
        """Validates recorded lines against the specification. Raises Violation for the first rejected line."""
        bad = self.rejected(module, lines, workers, env, heap, consts)
        self.validated += len(lines) if bad is None else bad
        if bad is not None:
            one = lines[bad]
            again = self.rejected(module, [one], 1, env, heap, consts)
            if again is None:
                raise CheckError('line %d rejected in the batch and accepted alone' % bad)
            if 'steps' in one:                     # only the step that was not accepted, with the store before it
                k = self.lastk
                one = dict(st=one['steps'][k - 2]['st'] if k > 1 else one['st'], steps=[one['steps'][k - 1]])
                if self.rejected(module, [one], 1, env, heap, consts) is None:
                    raise CheckError('step %d rejected in the history and accepted alone' % k)
            raise Violation('%s line %d is not a behaviour of the specification' % (label, bad), dict(kind=label, module=module, line=one))
        self.log('%s: %d lines%s validated by %s' % (label, len(lines), '' if parts is None else ' (%d calls)' % parts, module))

    def rejected(self, module, lines, workers, env, heap, consts=None):
        f = self.path('trace%d.ndjson' % self._uid())
        with open(f, 'w') as o:
            for l in lines:
                o.write(json.dumps(l, separators=(',', ':')) + '\n')
        rc, out, st, tr = self.tlc(module, consts, env={'TRACE': f, 'PROP': self.prop, **(env or {})}, workers=workers, heap=heap)
        os.unlink(f)
        txt = '\n'.join(out)
        if rc == 0:
            if 'No error has been found' not in txt:
                raise CheckError('TLC: ' + txt[-3000:])
            return None
        m = re.findall(r'(?m)^/\\ (?:i|tr) = (\d+)', txt)
        ks = re.findall(r'(?m)^/\\ k = (\d+)', txt)
        self.lastk = int(ks[-1]) if ks else None
        if rc == 12 and 'Invariant Accepted is violated' in txt and m:
            return int(m[-1]) - 1
        # An observation of a shape that no behaviour has (an exception where a truth value belongs, a missing part):
        # the specification cannot even compare it with what it allows.
        if m and re.search(r'Attempted to (check equality|compare|select nonexistent field|access index|apply|enumerate|check if)', txt):
            self.log('%s cannot interpret the observation of line %s' % (module, m[-1]))
            return int(m[-1]) - 1
        raise CheckError('TLC on %s ended with %d:\n%s' % (module, rc, '\n'.join(x[:600] for x in out[-40:])))

    # ---- comparing emitted vectors ----
    def compare(self, vecs, resp, label):
        """Each vector's expected response against what the implementation answered. ["?"] in the expectation matches anything,
        ["alt", x, y..] any of the alternatives."""
        for k, (v, r) in enumerate(zip(vecs, resp)):
            if r is None:
                continue
            if isinstance(r, dict) and 'crash' in r:
                raise Violation('the implementation crashed or hung (%s)' % r['crash'],
                                dict(kind=label, request=v, stderr=self.crashes.get(k, '')))
            if not matches(v['exp'], r):
                raise Violation('%s vector %d: the implementation does not do what the specification says' % (label, k),
                                dict(kind=label, request=v, observed=r))
        self.validated += len(vecs)
        self.log('%s: %d vectors replayed' % (label, len(vecs)))

    def no_crash(self, reqs, resp, label):
        for k, (q, r) in enumerate(zip(reqs, resp)):
            if isinstance(r, dict) and 'crash' in r:
                raise Violation('the implementation crashed or hung (%s)' % r['crash'], dict(kind=label, request=q, stderr=self.crashes.get(k, '')))

    def sample(self, x, limit=400):
        s = json.dumps(x)
        if len(self.samples) < 8:
            self.samples.append(s if len(s) <= limit else s[:limit] + '...')

    # ---- end ----
    def finish(self, violation=None, level='model_checking', assumptions=()):
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.validated,
                   samples=self.samples or ['none'], exhaustive_parts=self.exhaustive, notes=self.notes)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov, assumptions=list(assumptions),
                  wall_s=round(time.time() - self.t0, 2), violations=1 if violation else 0)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)

    def cleanup(self):
        self.pool.shutdown(wait=False)
        shutil.rmtree(self.dir, ignore_errors=True)


def matches(exp, got):
    if isinstance(exp, list):
        if len(exp) == 1 and exp[0] == '?':
            return not has_bad(got)
        if len(exp) == 2 and exp[0] == '?':          # any array / any object
            return isinstance(got, list) and len(got) == 2 and got[0] == exp[1] and not has_bad(got)
        if exp == ['exc']:                           # any exception derived from std::exception
            return got in (['jexc'], ['sexc'])
        if exp and exp[0] == 'alt':
            return any(matches(e, got) for e in exp[1:])
        return isinstance(got, list) and len(exp) == len(got) and all(matches(e, g) for e, g in zip(exp, got))
    if isinstance(exp, dict):
        return isinstance(got, dict) and set(exp) == set(got) and all(matches(exp[k], got[k]) for k in exp)
    return type(exp) is type(got) and exp == got


def has_bad(v):
    if isinstance(v, list):
        return v in (['bad'], ['inv']) or any(has_bad(x) for x in v)
    return False


def run_check(prop, fn):
    c = Ctx(prop)
    rc = 2
    try:
        try:
            fn(c)
            c.finish()
            c.log('held on everything explored: %d states, %d transitions, %d traces against the implementation' % (c.states, c.transitions, c.validated))
            rc = 0
        except Violation as v:
            os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
            path = os.path.join(VERIF, 'replays', '%s-%d.json' % (prop, os.getpid()))
            with open(path, 'w') as f:
                json.dump(dict(property=prop, what=v.what, **v.replay), f, indent=1)
            c.finish(violation=v)
            print(v.what)
            print(json.dumps(v.replay)[:3000])
            print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
            rc = 1
        except CheckError as e:
            print('CHECK-ERROR', prop, e, flush=True)
            rc = 2
    finally:
        c.cleanup()
    return rc
