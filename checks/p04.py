"""P04: reported source positions.  The generator writes source files token by token and knows the physical and presumed line of every marker; the monitor reads
back __LINE__/__FILE__ (from -E and from running programs), -E line markers, .loc records of the assembled object and diagnostics."""
import os, sys, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib.pptok import toks


class File:
    """A source file under construction.  phys = current physical line; delta/disp = effect of #line."""
    def __init__(s, g, name, path):
        s.g, s.name, s.path = g, name, path
        s.buf, s.phys, s.delta, s.disp = [], 1, 0, path
        s.eol = g.r.choice(('\n', '\n', '\n', '\r\n', 'mix', '\r'))

    def nl(s):
        e = s.eol
        if e == 'mix': e = s.g.r.choice(('\n', '\r\n'))
        s.buf.append(e); s.phys += 1

    def w(s, t):
        """write text; '\n' in it are physical newlines"""
        for i, p in enumerate(t.split('\n')):
            if i: s.nl()
            s.buf.append(p)

    def pos(s): return (s.phys + s.delta, s.disp, s.phys, s.path)


class G:
    def __init__(s, r, cr=True):
        s.r = r
        s.k = 0
        s.marks = {}     # k -> (line, file, physline, physfile)
        s.files = {}
        s.nf = 0
        s.depth = 0
        s.err = None
        s.alt, s.altloc = {}, {}    # other acceptable lines
        s.sp = 0
        s.nolines = r.random() < .3

    def splice(s, f):
        f.w('\\\n')
        s.sp += 1

    def ws(s, f):
        r = s.r; k = r.random()
        if k < .5: return
        if k < .6: f.w(' ')
        elif k < .68: s.splice(f)
        elif k < .72: f.w(' /* c */ ')
        elif k < .76: f.w('/* a\n b\n\n*/')
        elif k < .8: f.w('\n')
        elif k < .83: f.w('// x \\\n y\n' if r.random() < .5 else '// foo\n')
        elif k < .85: f.w('/* \\\n */')
        elif k < .86: f.w('\f \v')
        else: f.w(' ')

    def filler(s, f):
        r = s.r; k = r.random()
        if k < .25: f.w('\n' * r.choice((1, 1, 2, 5, 12)))
        elif k < .35: f.w('// comment "unclosed /* \n')
        elif k < .42: f.w('/* multi\n // line " \' \n# not a directive\n*/\n')
        elif k < .5: f.w('#if 0\n' + r.choice(("it's skipped\n", '#line 7\n', '" \n', '#error x\n', '/* \n\n */\n', '#if 1\n\n#endif\n')) + '#else\n#endif\n')
        elif k < .56: f.w('#define D%d \\\n a \\\n b\n' % r.randrange(10**6))
        elif k < .6: f.w('#pragma foo \\\n bar\n')
        elif k < .66: f.w('static const char *q%d = "str\\\n ing /* " \\\n "// x";\n' % r.randrange(10**9)) if s.depth == 0 and not s.infn else f.w('"str \\\n ing"; \n')
        elif k < .72: f.w('#\n')
        elif k < .78: f.w('#define E%d(a,\\\n b) a /* \n */ b\n' % r.randrange(10**6))
        else: f.w('\n')

    def line_directive(s, f):
        r = s.r
        n = r.choice((1, 2, 100, 5000, 2147483, r.randint(1, 10000)))
        form = r.random()
        nm = r.choice((None, None, 'other.c', 'di r/x.h', 'q"uote\\.c', f.path))
        q = '' if nm is None else ' "' + nm.replace('\\', '\\\\').replace('"', '\\"') + '"'
        cont = r.random() < .15 and q
        if form < .6: f.w(f'#line {n}' + (' \\\n' if cont else '') + q + '\n')
        elif form < .75: f.w(f'# {n}{q or chr(32) + chr(34) + "mk.c" + chr(34)}{r.choice(("", " 1", " 2 3")) if q else ""}\n'); nm = nm or 'mk.c'
        elif form < .9 and not q: f.w(f'#define LN{n} {n}\n#line LN{n}\n')
        else: f.w(f'  #  line  {n}{q} /* c */\n')
        f.delta = n - f.phys
        if nm is not None: f.disp = nm
        s.nl_ = 1

    def mark(s, f, form=None):
        """one marker statement"""
        r = s.r
        k = s.k; s.k += 1
        form = form or r.choice(('direct', 'direct', 'direct', 'obj', 'fn', 'fnml', 'nest', 'arg', 'spl', 'same'))
        e = s.errat == k

        def stmt(line=None, file=None):
            return f'call_{k}({line or "__LINE__"}, {file or "__FILE__"});'
        if e:
            f.w(' '); s.err = f.pos(); f.w(f'{s.errtok} ;')
            s.marks[k] = None
            return
        if form == 'direct':
            s.marks[k] = f.pos(); f.w(stmt())
        elif form == 'same':
            f.w('/* x */ ; '); s.marks[k] = f.pos(); f.w(stmt())
        elif form == 'obj':
            f.w(f'#define OBJ{k} \\\n \\\n call_{k}( \\\n__LINE__, __FILE__); \n')
            s.ws(f); s.marks[k] = f.pos(); f.w(f'OBJ{k}')
        elif form == 'fn':
            f.w(f'#define FN{k}(a) a \\\n call_{k}(__LINE__, \\\n __FILE__); \n\n')
            s.marks[k] = f.pos(); f.w(f'FN{k}(;)')
        elif form == 'fnml':
            f.w(f'#define FN{k}(a, b) a call_{k}(__LINE__, __FILE__); b \n')
            s.marks[k] = f.pos(); f.w(f'FN{k}'); s.ws(f); f.w('(;'); s.ws(f); f.w(','); s.ws(f); s.ws(f); f.w(')')
        elif form == 'nest':
            f.w(f'#define IN{k}(a) call_{k}(__LINE__, __FILE__); a\n#define OUT{k}(x) x\n')
            s.marks[k] = f.pos(); f.w(f'OUT{k}('); f.w('\n' * r.randint(0, 3)); s.alt[k] = {s.marks[k][0], f.pos()[0]}; f.w(f'IN{k}(\n;\n)\n)')
        elif form == 'arg':
            f.w(f'#define ID{k}(...) __VA_ARGS__\n')
            # __LINE__ inside an argument: the outermost invocation
            s.marks[k] = f.pos(); f.w(f'ID{k}(call_{k}(ID{k}(__LINE__), __FILE__);)')
        elif form == 'spl':
            s.marks[k] = f.pos(); f.w(f'call_\\\n{k}('); s.marks[k] = s.marks[k]; f.w('0 + '); q = f.pos(); f.w(f'__LI\\\nNE__, __FILE__);')
            s.marks[k] = (*s.marks[k], q[0]); s.altloc[k] = {s.marks[k][0], q[0], f.pos()[0]}
        s.ws(f)

    def body(s, f, n, depth):
        r = s.r
        for _ in range(n):
            k = r.random()
            if k < .3: f.w('\n'); s.filler(f)
            elif k < .42 and not s.nolines: f.w('\n'); s.line_directive(f)
            elif k < .54 and depth < 3 and s.nf < 6:
                s.nf += 1
                nm = r.choice(('h%d.h', 'sub dir/h%d.h', "q'%d.h", 'h%d.inc')) % s.nf
                g = File(s, nm, os.path.join(os.path.dirname(f.path), nm) if os.path.dirname(f.path) else nm)
                s.body(g, r.randint(1, 6), depth + 1)
                if r.random() < .7: g.w('\n')
                elif r.random() < .3: g.w('\\\n')
                s.files[g.path] = ''.join(g.buf)
                f.w('\n'); f.w(f'{r.choice(("", " ", "/* */"))}#{r.choice(("", " "))}include {r.choice(("", chr(92) + chr(10)))}"{nm}" {r.choice(("", "// c", "/* */"))}\n')
            else:
                if r.random() < .8: f.w('\n')
                elif r.random() < .5: s.splice(f)
                s.mark(f) if f.buf and f.buf[-1] in ('\n', '\r\n', '\r') or r.random() < 0 else (f.w('\n'), s.mark(f))

    def build(s, errat=None, errtok=None):
        s.errat, s.errtok = errat, errtok
        s.infn = True
        f = File(s, 't.c', 't.c')
        if s.r.random() < .1: f.buf.append('\ufeff')
        f.w('extern int printf(const char *, ...);\n')
        f.w('#include "decl.h"\n')
        f.w('int main(void) {')
        s.body(f, s.r.randint(6, 16), 0)
        f.w('\nreturn 0; }\n')
        s.files['t.c'] = ''.join(f.buf)
        s.files['decl.h'] = '\n'.join(f'static __attribute__((noinline)) void call_{k}(int l, const char *f) {{ printf("{k} %d %s\\n", l, f); }}' for k in range(s.k)) + '\n'


def norm(p): return os.path.normpath(p)


def emarks(E):
    """(name, presumed line, file) of every call_k token according to the line markers of a -E output"""
    line, fn, out = 0, '', []
    for l in E.split('\n'):
        m = re.match(r'#\s*(?:line\s*)?(\d+)(?:\s+"((?:\\.|[^"\\])*)")?.*$', l)
        if m:
            line = int(m.group(1)) - 1
            if m.group(2) is not None: fn = re.sub(r'\\(.)', r'\1', m.group(2))
            line += 1; continue
        for t in re.findall(r'\bcall_(\d+)\b', l): out.append((int(t), line, fn))
        line += 1
    return out


def work(ctx, slim, cid):
    r = ctx.rng('p', cid)
    res = Res()
    d = os.path.join(ctx.work, f'w{os.getpid()}')
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    g = G(r)
    seed = r.random()
    kind = cid % 3
    g.r = random.Random(seed)
    g.build()
    if kind == 2:
        n = g.k
        if not n: return res
        at = r.randrange(n)
        tok = r.choice(('undefined_name_x', '_Static_assert(0, "x")', '(1 = 2)', 'goto nowhere', '5()', '\n#error planted', '\n#error', '*1', '}', 'break', '"abc" + "def"', '@', "'a", '"abc', 'return (struct nope){0}', '1 +', 'x.y.z', '_Static_assert(sizeof(int) == 5)', 'case 1', '\n#if 1 +\n#endif', '\n#include "no such file.h"', '\n#line x', '\n#define 3', '\n#elif 1', '\n#endif', '\n#foo', '\n#undef', 'int q[-1]', 'int a_x = {1,2', '__builtin_va_arg(1)'))
        g2 = G(r); g2.r = random.Random(seed); g2.nolines = g.nolines
        g2.r = random.Random(seed)
        g2.build(at, tok)
        if g2.k < g.k: g2.files['decl.h'] = g.files['decl.h']
        g = g2
    src = dict(g.files)
    for p, t in src.items():
        q = os.path.join(d, p)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        open(q, 'wb').write(t.encode())
    S = [slim, '-std=c23', '-w'] if r.random() < .5 else [slim, '-w']
    res.evals += 1
    res.distinct.add(h(repr(src)))

    def viol(what, msg): res.violation(f'{what}:{h(repr(src))}', f'{what}: {msg}', {p.replace('/', '_'): t for p, t in src.items()}, ' '.join(S[1:]) + ' t.c'); return res
    if kind == 2:
        if g.err is None: return res
        x = run([*S, '-S', '-o', 'o.s', 't.c'], cwd=d, timeout=30)
        if x.rc == 0: return viol('accepted', f'planted error {tok!r} was accepted')
        pl, pf = g.err[2] + tok.count('\n', 0, len(tok) - len(tok.lstrip('\n'))), g.err[3]
        ms = re.findall(r'^(.*?):(\d+): $', x.err, re.M)
        res.events += 1; res.count('diagnostics')
        # errors noticed only at the following token
        late = tok.lstrip('\n') in ("1 +", '}', 'goto nowhere', 'int a_x = {1,2', '#if 1 +\n#endif', 'case 1')
        if not ms: return viol('no-position', f'{tok!r}: diagnostic has no position: {x.err[:300]}')
        if not late and (norm(ms[0][0]), int(ms[0][1])) != (norm(pf), pl):
            return viol('diagnostic', f'{tok!r} is at {pf}:{pl}, reported at {ms[0]}: {x.err[:300]}')
        ok = {norm(p) for p in src}
        if norm(ms[0][0]) not in ok: return viol('diagnostic-file', f'{tok!r}: file {ms[0][0]!r} is not a source file')
        if os.path.exists(os.path.join(d, 'o.s')): return viol('output-left', 'output file exists after an error')
        return res
    want = {k: v for k, v in g.marks.items()}
    # 1. values in the running program
    x = run([*S, '-o', 't', 't.c'], cwd=d, timeout=30)
    if x.rc: return viol('reject', x.err[:500])
    o = run(['./t'], cwd=d)
    seen = 0
    for l in o.out.split('\n'):
        if not l: continue
        k, n, f = l.split(' ', 2)
        w = want[int(k)]
        wl = w[4] if len(w) > 4 else w[0]
        seen += 1
        if int(n) not in g.alt.get(int(k), (wl,)) or norm(f) != norm(w[1]): return viol('value', f'call_{k}: __LINE__/__FILE__ are {wl} {w[1]!r}, program printed {n} {f!r}')
    if seen != len(want): return viol('events', f'{len(want)} marker statements, {seen} executed')
    res.events += seen; res.count('values', seen)
    # 2. -E positions
    x = run([*S, '-E', 't.c'], cwd=d, timeout=30)
    em = [e for e in emarks(x.out) if norm(e[2]) != 'decl.h' or want[e[0]][1] == 'decl.h']
    if len(em) != len(want): return viol('E-events', f'{len(want)} markers, {len(em)} in the -E output')
    for k, n, f in em:
        w = want[k]
        res.events += 1; res.count('E-positions')
        if n not in g.alt.get(k, (w[0],)) or norm(f) != norm(w[1]): return viol('E-marker', f'call_{k} is at {w[1]!r}:{w[0]}, the line markers say {f!r}:{n}')
    # 3. debug line records
    x = run([*S, '-g', '-S', '-o', 'g.s', 't.c'], cwd=d, timeout=30)
    names, cur = {}, None
    for l in open(os.path.join(d, 'g.s'), encoding='utf-8', errors='replace'):
        m = re.match(r'\s*\.file (\d+) "((?:\\.|[^"\\])*)"', l)
        if m: names[m.group(1)] = re.sub(r'\\(.)', r'\1', m.group(2)); continue
        m = re.match(r'\s*\.loc (\d+) (\d+)', l)
        if m: cur = (names.get(m.group(1)), int(m.group(2))); continue
        m = re.match(r'\s*call\s+"?call_(\d+)"?', l)
        if m:
            k = int(m.group(1)); w = want[k]
            res.events += 1; res.count('loc')
            if cur is None or cur[1] not in g.altloc.get(k, g.alt.get(k, (w[0],))) or norm(cur[0]) != norm(w[1]): return viol('loc', f'call_{m.group(1)} is at {w[1]!r}:{w[0]}, the line record in effect says {cur}')
    x = run([*S, '-g', '-c', '-o', 'g.o', 't.c'], cwd=d, timeout=30)
    if x.rc: return viol('g-assemble', x.err[:300])
    if cid % 9 == 0:
        x = run(['objdump', '--dwarf=decodedline', 'g.o'], cwd=d)
        ls = {int(m) for m in re.findall(r'^\S.*?\s+(\d+)\s+0x[0-9a-f]+|^\S.*?\s+(\d+)\s+0\s', x.out, re.M) for m in m if m}
        miss = {w[0] for w in want.values()} - ls
        res.count('decoded-lines', len(ls))
        if miss and x.rc == 0: return viol('line-table', f'lines {sorted(miss)[:5]} are missing from the line table of the object')
    if not res.sample: res.sample = dict(marks={k: v[:2] for k, v in list(want.items())[:5]}, files=len(src))
    return res


def check(ctx):
    slim = ctx.build('plain')
    ctx.rule = 'distinct = distinct source trees'
    ctx.assumptions = ['positions known to the generator are the oracle; for expanded tokens the position of the outermost macro name, as the property states']
    ctx.pmap(lambda c: work(ctx, slim, c), range(ctx.n(4000, 30000)))


if __name__ == '__main__':
    main('P04', check, min_events=10000, min_distinct=500)
