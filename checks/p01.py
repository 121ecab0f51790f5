"""P01: macro expansion.  Random macro sets, define/undef histories and invocations; the monitor compares the pp-token sequence the compiler
emits (-E) and the strings its compiled programs contain with those of gcc and clang, which have to agree with each other."""
import os, sys, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib.pptok import toks, strip_markers

PL = ['a', 'b', 'x', 'y1', '_z', 'foo', 'if', 'int', 'B0', 'u8', 'L', 'EOF']
NUM = ['0', '1', '42', '0x1f', '1.5', '.5e', '1e', '12ab', '0x', '3.4.5', "1'000", '7u', '1e+', '0xe+1']
STR = ['"s"', '""', '"a b"', '"q\\"q"', '"\\\\"', '"\\n"', 'L"w"', "'c'", "'\\''", "'\"'", '"//"', '"/* */"', 'u8"x"', "'\\\\'", '"%d\\0"']
PUN = ['+', '-', '*', '/', '<', '>', '.', ';', ':', '=', '&', '|', '!', '~', '^', '%', '->', '++', '--', '<<', '>>=', '==', '&&', '...', '?', '[', ']', '{', '}', '@', '::', '<=', '!=', '+=']
WS = ['', ' ', ' ', ' ', ' ', '  ', '\t', ' /* c */ ', '/**/', ' \\\n ']


class Gen:
    def __init__(s, r):
        s.r = r
        s.m = {}          # name -> None (objlike) or (nparams, variadic kind)
        s.names = [f'M{i}' for i in range(r.randint(3, 7))] + [f'F{i}' for i in range(r.randint(3, 7))]
        s.depthcap = 2
        s.style = r.choice(('mixed', 'paste', 'recur', 'va', 'plain'))

    def ws(s, need=False):
        w = s.r.choice(WS)
        return w or (' ' if need else '')

    def plain(s):
        r = s.r; k = r.random()
        if k < .45: return r.choice(PL)
        if k < .65: return r.choice(NUM)
        if k < .78: return r.choice(STR)
        return r.choice(PUN)

    def join(s, ts):
        """Join tokens with random white space; a space only where the tokens need one (or at random)."""
        out = ''
        for t in ts:
            if not t: continue
            w = s.ws()
            if out and not w:
                g = toks(out[-12:] + t)
                if not (len(g) and g[-1] == t.split(' ')[0] or t in '(),'): w = ' '
                if toks(out + t) != toks(out + ' ' + t): w = ' '
            out += w + t
        return out

    def arg(s, d, params=()):
        r = s.r; k = r.random()
        if k < .12: return []
        n = r.choice((1, 1, 1, 2, 3))
        ts = []
        for _ in range(n):
            ts += s.item(d, params, in_arg=True)
        return ts

    def item(s, d, params=(), in_arg=False):
        """a list of tokens, parens balanced"""
        r = s.r; k = r.random()
        if params and k < .35: return [r.choice(params)]
        if k < .55 and d > 0: return s.use(d, params)
        if k < .65 and d > 0: return ['(', *sum((s.item(d - 1, params) for _ in range(r.randint(0, 2))), []), *([','] + s.item(d - 1, params) if r.random() < .3 else []), ')']
        if k < .7: return [r.choice(s.names)]
        if k < .73 and not in_arg: return [',']
        if k < .75: return [r.choice(('__LINE__', '__FILE__', '__STDC__'))] if not params and s.r.random() < .4 else ['x']
        return [s.plain()]

    def use(s, d, params=()):
        r = s.r
        n = r.choice(s.names)
        if n[0] == 'M' and r.random() < .8: return [n]
        if r.random() < .08: return [n]
        np = s.m.get(n) or (r.randint(0, 3), None)
        cnt = np[0] + (r.choice((0, 1, 1, 2, 3)) if np[1] else 0)
        if r.random() < .04 and np[1]: cnt = max(np[0], 1)
        out = [n, '(']
        for i in range(cnt):
            if i: out.append(',')
            out += s.arg(d - 1, params)
        out.append(')')
        return out

    def body(s, n, params, va):
        r = s.r
        L = []
        ids = list(params)
        vname = None
        if va == 'std': vname = '__VA_ARGS__'
        elif va == 'gnu': vname = params[-1]
        if va == 'std': ids = list(params) + ['__VA_ARGS__']
        fl = params is not None
        for _ in range(r.choice((0, 1, 2, 3, 4, 6))):
            k = r.random()
            pp = ids if fl else []
            if pp and k < .12: L += ['#', r.choice(pp)]
            elif k < (.4 if s.style == 'paste' else .2):
                a = r.choice([r.choice(pp)] * 3 + ['a']) if pp else r.choice(('a', 'F', 'M', 'x1'))
                b = r.choice([r.choice(pp)] * 2 + ['b', '0', '1', '2']) if pp else r.choice(('b', '0', '1', '2'))
                L += [a, '##', b]
                if r.random() < .2: L += ['##', r.choice([*pp, '1', 'c'])]
            elif va and k < .45:
                kk = r.random()
                if kk < .4: L += [',', '##', vname]
                elif kk < .8 and va == 'std':
                    L += ['__VA_OPT__', '(', *sum((s.item(1, tuple(ids)) for _ in range(r.randint(0, 3))), []), ')']
                    if r.random() < .2: L += ['##', r.choice(ids)]
                elif kk < .85 and va == 'std': L += ['#', '__VA_OPT__', '(', *s.item(1, tuple(ids)), ')']
                else: L += [vname]
            else:
                L += [t for t in s.item(2, tuple(pp)) if fl or t != '#']
        # function-like: '#' must precede a parameter
        return L

    def define(s, n):
        r = s.r
        if n[0] == 'M':
            s.m[n] = None
            b = s.body(n, [], None)
            if r.random() < .1: b = [r.choice(('#', '##x' if 0 else '# x'))] + b
            txt = s.join(b)
            return f'#{r.choice(("", " "))}define {n}{" " if txt and txt[0] not in " \t" else ""}{txt}'
        va = r.choice((None, 'std', 'gnu')) if s.style == 'va' or r.random() < .3 else None
        k = r.randint(0, 3)
        params = [f'p{i}' for i in range(k)]
        if r.random() < .15 and k: params[0] = r.choice(('foo', 'M0', 'F0', 'x'))
        ps = list(params)
        if va == 'gnu': params.append('rest'); ps.append('rest...')
        elif va == 'std': ps.append('...')
        s.m[n] = (k, va)
        txt = s.join(s.body(n, params, va))
        if va is None and ('__VA' in txt): va = 'std'
        return f'#define {n}({s.r.choice((",", ", ", " , ")).join(ps)}){" " + txt if txt else ""}'


def case(r, multi):
    g = Gen(r)
    L = []
    for n in g.names: L.append(g.define(n))
    q = 0
    for _ in range(r.randint(6, 16)):
        k = r.random()
        if k < .1:
            n = r.choice(g.names); L.append(f'#undef {n}')
            if r.random() < .8: L.append(g.define(n))
        elif k < .14: L.append(f'#if defined {r.choice(g.names)} || defined({r.choice(g.names)})\nyes{q}\n#else\nno{q}\n#endif')
        else:
            ts = []
            for _ in range(r.randint(1, 3)): ts += g.item(3)
            if r.random() < .25: ts = g.use(3) + ['('] + g.arg(2) + [')'] + (['(', *g.arg(2), ')'] if r.random() < .5 else [])
            if r.random() < .2: ts = ['XS', '(', *ts, ')'] if bal(ts) else ts
            elif r.random() < .15: ts = ['S', '(', *ts, ')'] if bal(ts) else ts
            t = g.join(ts)
            if r.random() < .25 and multi:
                # break the invocation over lines, possibly with a directive between
                p = [m.start() for m in re.finditer(' ', t) if not inq(t, m.start())]
                if p:
                    i = r.choice(p)
                    nn = r.choice(g.names)
                    mid = r.choice(('\n', '\n', '\n\n', '\n// c\n', f'\n#undef {nn}\n{g.define(nn)}\n' if r.random() < .5 else f'\n#undef {nn}\n', f'\n#ifdef {r.choice(g.names)}\n 1 \n#else\n 2\n#endif\n'))
                    t = t[:i] + mid + t[i:]
            L.append(f'@{q}@ {t} ;;')
        q += 1
    return '#define XS(...) S(__VA_ARGS__)\n#define S(...) #__VA_ARGS__\n' + '\n'.join(L) + '\n'


def inq(t, i):
    for m in re.finditer(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|/\*.*?\*/', t, re.S):
        if m.start() <= i < m.end(): return True
    return '\\\n' in t[max(0, i - 2):i + 3]


def bal(ts):
    d = 0
    for t in ts:
        d += t == '('; d -= t == ')'
        if d < 0: return False
    return d == 0


def split(s):
    """sections by @q@"""
    t = toks(strip_markers(s), True)
    return t


def norm(ts, sp):
    if sp: return [t for t, _ in ts]
    return [re.sub(r'\s+', '', t) if t.startswith('"') else t for t, _ in ts]


def secs(ts):
    d, k = {'pre': []}, 'pre'
    i = 0
    while i < len(ts):
        if ts[i][0] == '@' and i + 2 < len(ts) and ts[i + 1][0].isdigit() and ts[i + 2][0] == '@':
            k = ts[i + 1][0]; d.setdefault(k, []); i += 3; continue
        d[k].append(ts[i]); i += 1
    return d


def work(ctx, slim, cid, multi):
    r = ctx.rng('p', cid)
    res = Res()
    std, sstd = (('-std=gnu17', []), ('-std=c2x', ['-std=c23']))[cid % 2]
    cid //= 2
    d = ctx.dir(f'w{os.getpid()}')
    src = case(r, multi)
    if std == '-std=gnu17': src = src.replace("1'000", '1000')
    for att in range(8):
        open(os.path.join(d, 't.c'), 'w').write(src)
        outs, bad, drop = [], 0, set()
        for cc in ('gcc', 'clang'):
            o = run([cc, std, '-E', '-P', '-w', 't.c'], cwd=d, timeout=10, mem=2 << 30)
            if o.to or len(o.out) > 300000: res.count('discard-huge'); return res
            bad |= o.rc
            if o.rc: drop |= {int(x) for x in re.findall(r't\.c:(\d+):', o.err)}
            outs.append(split(o.out))
        if not bad: break
        # invalid pastes etc. make the program ill-formed: drop the invocations involved
        L = src.split('\n')
        n = [i for i in drop if i <= len(L) and L[i - 1].startswith('@')]
        if not n: n = [i for i in drop if i <= len(L) and L[i - 1].startswith('#define') and i > 2]
        if not n: break
        for i in n: L[i - 1] = '' if not L[i - 1].endswith('\\') else '#undef q \\'
        src = '\n'.join(L)
    if bad: res.count('discard-ill-formed'); return res
    direct = set(re.findall(r'@(\d+)@\s*(?:/\*.*?\*/|\s)*S\b', src))
    g, c = secs(outs[0]), secs(outs[1])
    o = run([slim, *sstd, '-E', '-P', 't.c'], cwd=d, timeout=30, mem=4 << 30)
    res.evals += 1
    if not o.to and "pasting forms '," in o.err: res.count('discard-comma-paste'); return res
    if o.to or o.rc:
        res.violation('reject', f'gcc and clang preprocess this, slimcc {"does not terminate" if o.to else o.err[:300]}', {'t.c': src}, 'slimcc -std=c23 -E -P t.c')
        return res
    s = secs(split(o.out))
    for k in g:
        gg, cc, ss = g[k], c.get(k, []), s.get(k, [])
        if norm(gg, 0) != norm(cc, 0): res.count('oracle-disagree'); continue
        # white space is prescribed only for operands of # that are not themselves results of expansion
        exact = k in direct and norm(gg, 1) == norm(cc, 1)
        res.events += len(gg); res.count('sections')
        res.distinct.add(h(' '.join(norm(gg, 0))))
        if norm(ss, 0) != norm(gg, 0) or exact and norm(ss, 1) != norm(gg, 1):
            sp = norm(ss, 0) == norm(gg, 0)
            res.violation(f'{"space" if sp else "tokens"}:{h(src)}', f'section @{k}@: gcc and clang say\n  {" ".join(norm(gg, 1))[:500]}\nslimcc says\n  {" ".join(norm(ss, 1))[:500]}', {'t.c': src}, f'slimcc {" ".join(sstd)} -E -P t.c; gcc {std} -E -P t.c')
            return res
    if not res.sample: res.sample = dict(case=cid, last=src.split('\n')[-2][:80], expands=' '.join(norm(gg, 1))[:100])
    # compiled route: the same invocations stringised into a program's data
    if cid % 3 == 0:
        L = []
        ok = []
        src2 = re.sub(r'^yes\d+$|^no\d+$', '', src, flags=re.M)
        for k in g:
            if k != 'pre' and norm(g[k], 1) == norm(c.get(k, []), 1): ok.append(k)
        parts = re.split(r'@(\d+)@', src2)
        txt = parts[0] + '\n#define RAWSTR(...) #__VA_ARGS__\n'
        # keep directives, turn sections into string objects when the expansion is a balanced list on one line
        for k, b in zip(parts[1::2], parts[2::2]):
            inv, _, rest = b.partition(';;')
            if '\n#' in inv: return res
            ws = lambda t: re.sub(r' (?=[^# \n])', lambda m: r.choice((' ', ' ', ' ', '\n', '\n  ', ' /* c */ ', '/**/ ', '\t', ' \\\n', '\n\n', ' // x\n')), t) if '"' not in t and "'" not in t and '\\' not in t else t
            txt += f'\nconst char s{k}[] = "{k}" XS({ws(inv.rstrip())}) "";{rest}'
            txt += f'\nconst char r{k}[] = "r{k}" RAWSTR({ws(inv.rstrip())}) "";\n'
        open(os.path.join(d, 'p.c'), 'w').write(txt)
        gi = run(['gcc', std, '-w', '-c', '-o', 'g.o', 'p.c'], cwd=d)
        ci = run(['clang', std, '-w', '-c', '-o', 'c.o', 'p.c'], cwd=d)
        if gi.rc or ci.rc: res.count('discard-string-route'); return res
        si = run([slim, *sstd, '-w', '-c', '-o', 's.o', 'p.c'], cwd=d)
        if si.rc:
            res.violation(f'strreject:{h(txt)}', f'slimcc rejects: {si.err[:400]}', {'t.c': txt}, 'slimcc -std=c23 -c t.c')
            return res
        imgs = []
        for f in ('g.o', 'c.o', 's.o'): imgs.append(strs(os.path.join(d, f)))
        for k in imgs[0]:
            if imgs[0][k] != imgs[1].get(k): res.count('oracle-disagree-str'); continue
            sq = (lambda v: v) if k[0] == 'r' else (lambda v: re.sub(rb'[ \t\n]', b'', v))
            res.events += 1; res.count('raw-strings' if k[0] == 'r' else 'strings')
            if sq(imgs[2].get(k, b'')) != sq(imgs[0][k]):
                res.violation(f'string:{h(txt)}', f'{k}: expected {imgs[0][k][:300]!r}, slimcc object has {imgs[2].get(k)!r}', {'t.c': txt}, 'slimcc -std=c23 -c t.c; objdump -s')
                return res
    return res


def strs(p):
    """symbol -> bytes of every sN object, read from the ELF file"""
    import struct
    b = open(p, 'rb').read()
    shoff, = struct.unpack_from('<Q', b, 40)
    num, = struct.unpack_from('<H', b, 60)
    sh = [struct.unpack_from('<IIQQQQIIQQ', b, shoff + 64 * i) for i in range(num)]
    out = {}
    for s in sh:
        if s[1] != 2: continue
        st = sh[s[6]]
        for o in range(s[4], s[4] + s[5], 24):
            n, info, oth, shn, val, sz = struct.unpack_from('<IBBHQQ', b, o)
            nm = b[st[4] + n:b.index(b'\0', st[4] + n)].decode('latin1')
            if re.fullmatch(r'[sr]\d+', nm) and 0 < shn < num: out[nm] = b[sh[shn][4] + val:sh[shn][4] + val + sz]
    return out


def check(ctx):
    slim = ctx.build('plain')
    ctx.rule = 'distinct = distinct expanded token sequences on which gcc and clang agree'
    ctx.assumptions = ['gcc and clang preprocessors agreeing is the oracle; white space inside stringised text is compared exactly only where they agree on it']
    ctx.pmap(lambda c: work(ctx, slim, c, c % 4 < 2), range(ctx.n(3000, 30000)))


if __name__ == '__main__':
    main('P01', check, min_events=5000, min_distinct=2000)
