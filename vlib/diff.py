"""Differential execution: event logs of programs built by slimcc against logs of programs built by reference compilers.

Every generated program prints one event per line, "<id> <value...>".  A line is a violation only if
 * slimcc's program printed something different from gcc -O0's, and
 * clang -O0 and gcc -O2 print the same thing as gcc -O0 for that line (so the value is not unspecified), and
 * an ASan+UBSan build of the program (clang) is free of reports (so the program is well defined).
Anything else that differs is counted as ambiguous, never as a violation.
"""
import os, shutil, sys
from .core import run, Res, h

RUN_TO = 20
CC_TO = 60


def dbg(*a):
    if os.environ.get('VERIF_DEBUG'):
        print('DEBUG', *a, file=sys.stderr, flush=True)


def compile_c(cc, opts, srcs, out, cwd, timeout=CC_TO, env=None):
    return run([cc, *opts, '-o', out, *srcs], timeout=timeout, cwd=cwd, env=env)


def lines(s):
    return s.split('\n')


def obs(r):
    """Observable result of a program run as list of lines (last line: exit)."""
    o = r.out.split('\n')
    if o and o[-1] == '':
        o.pop()
    o.append(f'exit {r.rc}')
    return o


def diff_lines(a, b, limit=50):
    """Lines that differ, paired by id (first word) when possible."""
    if a == b:
        return []
    out = []
    da, db = {}, {}
    for ln in a:
        da.setdefault(ln.split(' ', 1)[0], []).append(ln)
    for ln in b:
        db.setdefault(ln.split(' ', 1)[0], []).append(ln)
    for k in da:
        if db.get(k) != da[k]:
            out.append((k, '\n'.join(da[k]), '\n'.join(db.get(k, ['<missing>']))))
    for k in db:
        if k not in da:
            out.append((k, '<missing>', '\n'.join(db[k])))
    if not out:
        out.append(('order', '\n'.join(a), '\n'.join(b)))
    return out[:limit]


class Diff:
    def __init__(self, ctx, slimcc, common=('-w',), ref_common=('-w',), libs=(), std_ref=('-std=gnu2x',), run_to=RUN_TO,
                 san=True, ub_flags='address,undefined,float-cast-overflow', clang=True):
        self.ctx, self.slimcc = ctx, slimcc
        self.common, self.ref_common, self.libs, self.std_ref = list(common), list(ref_common), list(libs), list(std_ref)
        self.run_to = run_to
        self.san = san
        self.ub_flags = ub_flags
        self.clang = clang

    def build_run(self, cc, opts, files, d, exe, args=()):
        c = compile_c(cc, opts, files, exe, d)
        if c.rc != 0:
            return c, None
        r = run([os.path.join(d, exe), *args], timeout=self.run_to, cwd=d)
        return c, r

    def ref(self, cc, opt, files, d, exe, more=()):
        return self.build_run(cc, [*opt, *self.std_ref, *self.ref_common, '-fno-strict-aliasing', '-fno-builtin', '-ffp-contract=off', *more],
                              [*files, *self.libs], d, exe)

    def go(self, res, name, sources, variants, desc=None, expected=None, key=None, describe=None, count_lines=True, classify=None,
           order_matters=True, fields=None):
        self.fields = fields
        """sources: {filename: text}; variants: list of slimcc option lists.
        expected: optional list of lines from a model (then gcc must agree with it, or the case is ambiguous)."""
        d = os.path.join(self.ctx.work, f'w{os.getpid()}')
        os.makedirs(d, exist_ok=True)
        files = []
        for f, t in sources.items():
            with open(os.path.join(d, f), 'wb') as fh:
                fh.write(t if isinstance(t, bytes) else t.encode('utf-8', 'surrogateescape'))
            if f.endswith('.c'):
                files.append(f)
        if expected is None:
            c, r = self.ref('gcc', ['-O0'], files, d, 'ref')
            if c.rc != 0 or r is None:
                res.genfail += 1
                res.genfail_msgs.append(f'{name}: gcc: {c.err[:600]}')
                return None
            if r.to or r.sig:
                res.genfail += 1
                res.genfail_msgs.append(f'{name}: reference program died/timeout rc={r.rc}')
                return None
            want = obs(r)
        else:
            want = expected
        res.evals += 1
        res.events += len(want)
        res.distinct.add(h('\n'.join(want)))
        self.last = None
        for vi, v in enumerate(variants):
            c = compile_c(self.slimcc, [*self.common, *v], [*files, *self.libs], 'slim', d)
            if c.to:
                c = compile_c(self.slimcc, [*self.common, *v], [*files, *self.libs], 'slim', d, timeout=CC_TO * 4)
                if c.to:
                    self._report(res, name, sources, v, 'compile-hang', 'compiler did not terminate', key)
                    return want
            if c.rc != 0:
                if not self._clang_accepts(files, d):
                    res.count('ambiguous-reject')
                    dbg('ambiguous-reject', name, c.err[:500], '|| clang:', self.last_clang_err[:500])
                    return want
                self._report(res, name, sources, v, 'reject', f'slimcc rejects a valid program (rc={c.rc}): {c.err[:800]}', key)
                return want
            r = run([os.path.join(d, 'slim')], timeout=self.run_to, cwd=d)
            if r.to:
                r = run([os.path.join(d, 'slim')], timeout=self.run_to * 4, cwd=d)
            self.last = r
            got = obs(r) if not r.to else obs(r)[:-1] + ['exit timeout']
            res.count('runs')
            if got != want:
                self._confirm(res, name, sources, files, d, v, want, got, key, describe)
                if res.viol:
                    return want
        return want

    def _clang_accepts(self, files, d):
        c, r = self.ref('clang', ['-O0'], files, d, 'refc') if self.clang else self.ref('gcc', ['-O0'], files, d, 'refc')
        self.last_clang_err = c.err
        return c.rc == 0

    def _confirm(self, res, name, sources, files, d, v, want, got, key, describe):
        diffs = diff_lines(want, got)
        c1, r1 = self.ref('clang', ['-O0'], files, d, 'refc') if self.clang else self.ref('gcc', ['-O1'], files, d, 'refc')
        c2, r2 = self.ref('gcc', ['-O2'], files, d, 'refo')
        c0, r0 = self.ref('gcc', ['-O0'], files, d, 'ref0')
        others = []
        for c, r in ((c0, r0), (c1, r1), (c2, r2)):
            if c.rc != 0 or r is None or r.to:
                res.count('ambiguous-ref')
                dbg('ambiguous-ref', name, c.err[:600], 'diff:', diffs[:2])
                return
            others.append(obs(r))
        if self.san and self.clang:
            c3, r3 = self.ref('clang', ['-O1', f'-fsanitize={self.ub_flags}', '-fno-sanitize=alignment,function', '-fno-sanitize-recover=all'], files, d, 'refs')
            if c3.rc == 0 and (r3.rc != (r1.rc) or 'runtime error' in r3.err or 'AddressSanitizer' in r3.err):
                res.count('ambiguous-ub')
                res.genfail_msgs.append(f'{name}: UB? {r3.err[:300]}')
                res.inconclusive += 1
                return
        bad = []
        for o in others:
            pass
        ow = {}
        ok_keys = None
        for o in others:
            dk = {k for k, _, _ in diff_lines(want, o, 10 ** 9)}
            ok_keys = dk if ok_keys is None else ok_keys | dk
        real = [x for x in diffs if x[0] not in ok_keys]
        if not real:
            res.count('ambiguous-line')
            dbg('ambiguous-line', name, diffs[:3], [describe(x[0]) for x in diffs[:1]] if describe else '')
            res.inconclusive += 1
            return
        k, a, b = real[0]
        if getattr(self, 'fields', None):
            for x, y in zip(a.split('\n'), b.split('\n')):
                if x != y:
                    fx, fy = x.split(' ')[1:], y.split(' ')[1:]
                    df = [f'{n}: {u} vs {v}' for n, u, v in zip(self.fields, fx, fy) if u != v]
                    a, b = '; '.join(df)[:300], y[:60]
                    break
        msg = f'event {k}: reference says {a[:300]!r}, slimcc program says {b[:300]!r} (options {" ".join(v)}); {len(real)} differing events'
        if describe:
            try:
                msg += '\n' + describe(k)
            except Exception as e:
                msg += f'\n(describe failed {e})'
        kk = key(k) if key else None
        self._report(res, name, sources, v, kk or 'value', msg, None)

    def _report(self, res, name, sources, v, kind, msg, key):
        fs = dict(sources)
        text = h(repr(sorted((k, x if isinstance(x, str) else x.hex()) for k, x in sources.items())))
        res.violation(f'{kind}:{name}:{text}' if not callable(key) else f'{kind}:{name}:{text}', msg, fs,
                      f'slimcc {" ".join([*self.common, *v])} {" ".join(k for k in sources if k.endswith(".c"))} {" ".join(self.libs)}; compare with gcc {" ".join(self.std_ref)} -w -fno-strict-aliasing')
