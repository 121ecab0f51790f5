"""Common machinery of the checks: builds of /repo, process running, verdicts, evidence.

Verdicts are three-valued.  A check exits 0 (held on everything explored), 1 (a VIOLATION line was
printed), or 2 (harness error / not enough observed: neither held nor violated).
"""
import os, sys, json, time, random, shutil, signal, subprocess, tempfile, hashlib, resource, traceback, re, struct, selectors, pickle

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
NPROC = min(8, os.cpu_count() or 4)
KNOWN = os.path.join(VERIF, 'known-findings.jsonl')


class HarnessError(Exception):
    pass


def known_findings(pid):
    out = []
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            ln = ln.strip()
            if not ln:
                continue
            e = json.loads(ln)
            if e.get('property') == pid:
                out.append(e)
    return out


class R:
    __slots__ = ('rc', 'out', 'err', 'to', 'sig')

    def __init__(s, rc, out, err, to):
        s.rc, s.out, s.err, s.to = rc, out, err, to
        s.sig = -rc if rc is not None and rc < 0 else 0

    def __repr__(s):
        return f'R(rc={s.rc},to={s.to},out={s.out[-200:]!r},err={s.err[-400:]!r})'


def _limits(mem, fsize, core=0, cpu=None):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        if fsize:
            resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 1))
    return f


def run(cmd, timeout=20, cwd=None, env=None, stdin=None, mem=None, fsize=256 << 20, binary=False, cpu=None, maxout=64 << 20):
    """Run cmd in its own process group; on timeout kill the group."""
    if env is not None:
        e = dict(os.environ)
        for k, v in env.items():
            if v is None:
                e.pop(k, None)
            else:
                e[k] = v
        env = e
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True,
                         preexec_fn=_limits(mem, fsize, cpu=cpu))
    to = False
    try:
        out, err = p.communicate(stdin, timeout=timeout)
    except subprocess.TimeoutExpired:
        to = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
    rc = p.returncode
    if not binary:
        out = out.decode('utf-8', 'replace')
        err = err.decode('utf-8', 'replace')
    return R(rc, out, err, to)


SRC = ['alloc', 'codegen', 'hashmap', 'main', 'parse', 'platform', 'preprocess', 'strings', 'tokenize', 'type', 'unicode']

FLAVORS = {
    'plain': ('gcc', [], []),
    'fast': ('gcc', ['-O2'], []),
    'clang': ('clang', ['-O2'], []),
    # unsanitised arithmetic kept: address + the undefined checks that are about memory/pointers/shape
    'asan': ('gcc', ['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
                     '-fno-sanitize=alignment', '-fno-sanitize-recover=all'], ['-fsanitize=address,undefined']),
}
SAN_ENV = {'ASAN_OPTIONS': 'abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1',
           'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=99'}


def sources():
    out = list(SRC)
    # tolerate new translation units added by refactorings
    for f in sorted(os.listdir(REPO)):
        if f.endswith('.c') and f[:-2] not in out:
            out.append(f[:-2])
    return out


class Ctx:
    def __init__(self, pid, level='exploration'):
        self.pid = pid
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.level = level
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix=f'verif-{pid}-', dir='/tmp')
        os.chmod(self.work, 0o755)
        self.builds = {}
        self.viol = []
        self.known_hits = []
        self.events = 0
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.counts = {}
        self.inconclusive = 0
        self.genfail = 0
        self.genfail_msgs = []
        self.assumptions = []
        self.rule = ''
        self.parent = os.getpid()
        self.scale = float(os.environ.get('VERIF_SCALE', '1'))

    def n(self, quick, thorough=None):
        v = quick if self.tier == 'quick' else (thorough if thorough is not None else quick * 12)
        return max(1, int(v * self.scale))

    # ---- builds
    def build(self, flavor='plain', extra=()):
        key = (flavor, tuple(extra))
        if key in self.builds:
            return self.builds[key]
        name = 'b-' + flavor + (('-' + hashlib.md5(repr(extra).encode()).hexdigest()[:6]) if extra else '')
        d = os.path.join(self.work, name)
        copy_sources(d)
        if flavor == 'stage2' or flavor == 'stage3':
            base = self.build('plain' if flavor == 'stage2' else 'stage2')
            cc, cf, lf = base, [], []
        else:
            cc, cf, lf = FLAVORS[flavor]
        srcs = [s for s in sources() if os.path.exists(os.path.join(d, s + '.c'))]
        procs = [(s, subprocess.Popen([cc, *cf, *extra, '-c', '-o', s + '.o', s + '.c'], cwd=d,
                                      stdout=subprocess.PIPE, stderr=subprocess.STDOUT)) for s in srcs]
        bad = []
        for s, p in procs:
            o = p.communicate()[0].decode('utf-8', 'replace')
            if p.returncode:
                bad.append((s, p.returncode, o[-1500:]))
        if bad:
            raise BuildError(flavor, bad)
        r = run([cc, *cf, *lf, '-o', 'slimcc', *[s + '.o' for s in srcs]], timeout=120, cwd=d)
        if r.rc:
            raise BuildError(flavor, [('link', r.rc, r.err[-1500:])])
        self.builds[key] = os.path.join(d, 'slimcc')
        return self.builds[key]

    def rng(self, *k):
        return random.Random(f'{self.seed}/{self.pid}/' + '/'.join(map(str, k)))

    def dir(self, name):
        d = os.path.join(self.work, name)
        os.makedirs(d, exist_ok=True)
        return d

    # ---- parallel execution
    def pmap(self, fn, items, stop_after=6, procs=None):
        """fn(item) -> Res.  Runs in forked workers; merges results; stops early after enough violations."""
        # Workers are forked from this (single-threaded) process and take items by reading from one shared file
        # offset, so that no lock can be left held by a worker that ends early (as happens with multiprocessing.Pool).
        items = list(items)
        work = tempfile.TemporaryFile(dir=self.work)
        work.write(b''.join(struct.pack('<I', i) for i in range(len(items))))
        work.flush()
        os.lseek(work.fileno(), 0, os.SEEK_SET)
        sel = selectors.DefaultSelector()
        live = {}          # fd -> [pid, buffer, item in progress]
        redo = {}

        def spawn():
            r, w = os.pipe()
            sys.stdout.flush(); sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    for fd in live: os.close(fd)
                    while True:
                        x = os.read(work.fileno(), 4)
                        if len(x) < 4: break
                        i = struct.unpack('<I', x)[0]
                        _send(w, ('start', i))
                        try:
                            res = fn(items[i])
                        except Exception:
                            res = 'worker failed on %r: %s' % (items[i], traceback.format_exc())
                        _send(w, ('done', res))
                    _send(w, ('end', None))
                    code = 0
                finally:
                    sys.stdout.flush(); sys.stderr.flush()
                    os._exit(code)
            os.close(w)
            live[r] = [pid, b'', None, False]
            sel.register(r, selectors.EVENT_READ)

        for _ in range(min(procs or NPROC, max(1, len(items)))): spawn()
        stopping = None
        try:
            while live:
                evs = sel.select(5)
                if stopping and time.time() > stopping: break
                for k, _ in evs:
                    fd = k.fd
                    st = live[fd]
                    c = os.read(fd, 1 << 20)
                    if c:
                        st[1] += c
                        while len(st[1]) >= 8:
                            n = struct.unpack('<Q', st[1][:8])[0]
                            if len(st[1]) < 8 + n: break
                            kind, v = pickle.loads(st[1][8:8 + n])
                            st[1] = st[1][8 + n:]
                            if kind == 'start': st[2] = v
                            elif kind == 'end': st[3] = True
                            else:
                                st[2] = None
                                if stopping is None: self.merge(v)
                        if stopping is None and len(self.viol) >= stop_after:
                            os.ftruncate(work.fileno(), 0)   # workers stop after their current item
                            stopping = time.time() + 60
                        continue
                    sel.unregister(fd)
                    os.close(fd)
                    del live[fd]
                    os.waitpid(st[0], 0)
                    if not st[3] and stopping is None:
                        i = st[2]
                        if i is None or redo.get(i): raise HarnessError(f'a worker process died twice on item {i}')
                        # it was ended from outside (out of memory): try once more
                        redo[i] = 1
                        print(f'note: worker process ended on item {i}; trying again', flush=True)
                        res = fn(items[i])
                        self.merge(res)
                        spawn()
        finally:
            for fd, st in live.items():
                try:
                    os.kill(st[0], signal.SIGKILL)
                    os.waitpid(st[0], 0)
                except OSError:
                    pass
                os.close(fd)
            sel.close()
            work.close()

    def merge(self, res):
        if isinstance(res, str):
            raise HarnessError(res)
        self.events += res.events
        self.evals += res.evals
        self.distinct |= res.distinct
        self.inconclusive += res.inconclusive
        self.genfail += res.genfail
        self.genfail_msgs += res.genfail_msgs[:3]
        for k, v in res.counts.items():
            self.counts[k] = self.counts.get(k, 0) + v
        if res.sample and len(self.samples) < 4:
            self.samples.append(res.sample)
        for v in res.viol:
            self.report(v)

    def report(self, v):
        """v: dict(key, msg, files={name:content}, cmd)"""
        for e in known_findings(self.pid):
            if e.get('status') == 'known' and e.get('key') == v['key']:
                self.known_hits.append(v['key'])
                return
        if any(x['key'] == v['key'] for x in self.viol):
            return
        d = os.path.join(VERIF, 'replays', self.pid, f"{len(self.viol)}-" + hashlib.md5(v['key'].encode()).hexdigest()[:8])
        try:
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            for n, c in v.get('files', {}).items():
                p = os.path.normpath(os.path.join(d, n))
                if not p.startswith(d + '/'): p = os.path.join(d, os.path.basename(n))
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, 'wb') as f:
                    f.write(c if isinstance(c, bytes) else c.encode('utf-8', 'surrogateescape'))
            with open(os.path.join(d, 'README'), 'w') as f:
                f.write(f"property {self.pid} seed {self.seed} tier {self.tier}\nkey: {v['key']}\n{v['msg']}\n\nreproduce: {v.get('cmd','')}\n")
        except OSError as e:
            print('note: cannot save replay:', e)
        v['path'] = d
        self.viol.append(v)
        print(f"--- {self.pid}: {v['msg'][:1500]}")
        print(f'VIOLATION property={self.pid} replay={d}', flush=True)

    # ---- end
    def finish(self, min_events=1, min_distinct=2, max_genfail_frac=0.05):
        for e in known_findings(self.pid):
            if e.get('status') == 'known':
                print(f"KNOWN-FINDING: property={self.pid} {e['what']}")
        cov = dict(evaluations=self.evals, distinct_nontrivial=len(self.distinct), rule=self.rule,
                   samples=self.samples or ['(none)'], events_observed=self.events,
                   inconclusive=self.inconclusive, generator_rejects=self.genfail, counts=self.counts)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.viol))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        p = os.path.join(VERIF, 'evidence', self.pid + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(p + '.tmp', p)
        print(f"{self.pid}: {self.tier} seed={self.seed} evaluations={self.evals} events={self.events} distinct={len(self.distinct)} "
              f"inconclusive={self.inconclusive} genfail={self.genfail} violations={len(self.viol)} wall={ev['wall_s']}s")
        if self.counts:
            print('   counts:', json.dumps(self.counts, sort_keys=True)[:1500])
        if self.genfail_msgs:
            print('   generator rejects:', self.genfail_msgs[:2])
        if self.viol:
            return 1
        if self.events < min_events or len(self.distinct) < min_distinct:
            print(f'INCONCLUSIVE: observed too little (events={self.events} < {min_events} or distinct={len(self.distinct)} < {min_distinct})')
            return 2
        if self.genfail > max(3, max_genfail_frac * (self.evals + self.genfail)):
            print('INCONCLUSIVE: reference compilers rejected too many generated cases')
            return 2
        return 0


class BuildError(Exception):
    def __init__(self, flavor, bad):
        self.flavor, self.bad = flavor, bad
        super().__init__(f'build {flavor} failed: {bad[:2]}')


def copy_sources(d):
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(REPO):
        p = os.path.join(REPO, f)
        if f.endswith(('.c', '.h')) and os.path.isfile(p) and f != 'platform.c':
            shutil.copyfile(p, os.path.join(d, f))
    shutil.copyfile(os.path.join(REPO, 'platform', 'linux-glibc-generic.c'), os.path.join(d, 'platform.c'))
    shutil.copytree(os.path.join(REPO, 'include'), os.path.join(d, 'include'), dirs_exist_ok=True)


def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack('<Q', len(b)) + b
    while b:
        b = b[os.write(fd, b):]


class Res:
    def __init__(self):
        self.events = 0
        self.evals = 0
        self.distinct = set()
        self.inconclusive = 0
        self.genfail = 0
        self.genfail_msgs = []
        self.counts = {}
        self.viol = []
        self.sample = None

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def violation(self, key, msg, files=None, cmd=''):
        self.viol.append(dict(key=key, msg=msg, files=files or {}, cmd=cmd))


def probe(ctx, slim, key, src, opts=('-std=c23',), ref=('gcc', '-std=gnu2x', '-w'), msg='', libs=()):
    """A fixed program; differing from gcc is a violation with the stable key 'probe:<key>' (may be a listed known finding)."""
    d = ctx.dir('probe-' + key)
    open(os.path.join(d, 't.c'), 'w').write(src)
    a = run([*ref, '-o', 'r', 't.c', *libs], cwd=d)
    if a.rc: raise HarnessError(f'probe {key}: {a.err}')
    w = run(['./r'], cwd=d)
    b = run([slim, *opts, '-w', '-o', 's', 't.c', *libs], cwd=d)
    g = run(['./s'], cwd=d) if b.rc == 0 else None
    ctx.evals += 1
    ctx.events += 1
    if g is None or (g.rc, g.out) != (w.rc, w.out):
        ctx.report(dict(key='probe:' + key, msg=f'{msg}: expected {w.out!r}, got {(g.rc, g.out) if g else b.err[:400]!r}', files={'t.c': src}, cmd='slimcc t.c'))


def h(s):
    if isinstance(s, str):
        s = s.encode('utf-8', 'surrogateescape')
    return hashlib.md5(s).hexdigest()[:12]


def main(pid, fn, **finish_kw):
    """Entry point of every check: fn(ctx)."""
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'          # sets of strings iterate in a fixed order: a seed fixes the workload
        os.execv(sys.executable, [sys.executable, *sys.argv])
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(3))
    for k in ('CPATH', 'C_INCLUDE_PATH', 'LIBRARY_PATH', 'CFLAGS', 'LDFLAGS', 'MAKEFLAGS', 'ASAN_OPTIONS', 'UBSAN_OPTIONS',
              'LD_PRELOAD', 'MALLOC_PERTURB_'):
        os.environ.pop(k, None)
    os.environ['LC_ALL'] = 'C.UTF-8'
    os.environ['TZ'] = 'UTC'
    ctx = Ctx(pid)
    rc = 2
    try:
        try:
            fn(ctx)
            rc = ctx.finish(**finish_kw)
        except BuildError as e:
            # gcc cannot build the tree: not a verdict about the property; the tree built by itself failing is
            if e.flavor in ('stage2', 'stage3'):
                ctx.report(dict(key=f'selfbuild:{e.bad[0][0]}', msg=f'slimcc cannot compile its own source: {e.bad[:2]}', files={}))
                ctx.finish()
                rc = 1
            else:
                print('HARNESS ERROR:', e)
        except HarnessError as e:
            print('HARNESS ERROR:', e)
            if ctx.viol:
                ctx.finish()
                rc = 1
    finally:
        if os.getpid() == ctx.parent:
            shutil.rmtree(ctx.work, ignore_errors=True)
    sys.exit(rc)
