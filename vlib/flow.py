"""Random structured and unstructured control flow.  Every executed statement calls T(id); conditions draw from a seeded stream.
Constructs gcc 13 lacks (labelled break/continue, declarations in conditions) have a gcc spelling under #ifndef SLIM."""
import re
from .cint import *

FLOW_PRE = r'''
extern int printf(const char *, ...);
extern void exit(int);
typedef unsigned long long u64;
static u64 st; static int fuel, pos; static char buf[65536]; static const char *cur_name;
static void put(const char *s) { while (*s) buf[pos++] = *s++; }
static void num(long v) { char t[24]; int i = 0; if (v < 0) { buf[pos++] = '-'; v = -v; } do t[i++] = '0' + v % 10; while (v /= 10); while (i) buf[pos++] = t[--i]; }
static void flush(void) { buf[pos] = 0; printf("%s\n", buf); pos = 0; }
#define OUT_OF_FUEL() __builtin_longjmp_()
extern int _setjmp(void *); extern void longjmp(void *, int);
static long jb[64];
static int T(int id) { if (--fuel < 0) { put(" FUEL"); longjmp(jb, 1); } buf[pos++] = ' '; num(id); return id; }
static unsigned R(void) { st = st * 6364136223846793005ull + 1442695040888963407ull; return st >> 33; }
static int C(int id) { T(id); return R() % 5 < 2; }
static int CI(int id, int n) { T(id); return R() % n; }
static u64 CL(int id) { T(id); static const u64 v[] = { 0, 0x100000000ull, 0x8000000000000000ull, 1, 0xffffffffull, 0 }; return v[R() % 6]; }
static double CD(int id) { T(id); static const double v[] = { 0, -0.0, 1e-300, 0.5, -2 }; return v[R() % 5]; }
static float CF(int id) { T(id); static const float v[] = { 0, -0.0f, 1e-30f, 0.5f }; return v[R() % 4]; }
static long double CQ(int id) { T(id); static const long double v[] = { 0, -0.0L, 1e-4000L, 0.5L }; return v[R() % 4]; }
static void *CP(int id) { T(id); return R() % 2 ? (void *)buf : 0; }
static signed char CC(int id) { T(id); static const signed char v[] = { 0, -128, 1, 0 }; return v[R() % 4]; }
static _Bool CB(int id) { T(id); return R() % 2; }
static struct { unsigned a : 3, b : 5; int c : 9; } bf;
#define CBF(id) (T(id), bf.b = R() % 3 * 8, bf.b)
struct cs { _Bool b; int i : 3; unsigned u : 1; signed char c; unsigned short w; };
static _Bool gb, ga[4]; static int gi; static unsigned gu; static signed char gc; static unsigned short gw; static long gl; static float gf; static double gd; static long double gq; static void *gp; static struct cs gs;
#define LOCALS _Bool lb = x & 1, *pb = &lb; int li = x - 1, *pi = &li; unsigned lu = x; signed char lc = -x; unsigned short lw = x * 21845; long ll = (long)x << 32; float lf = x; double ld = -x; long double lq = x / 2; void *lp = x ? buf : 0; struct cs ls = { x, x, x, x, x }, *ps = &ls; enum { EA, EB = 5 } le = x;
#define CST(id) ({ int q_ = C(id); T(id); q_; })
'''


VARS = ['gb', 'ga[x & 3]', 'gi', 'gu', 'gc', 'gw', 'gl', 'gf', 'gd', 'gq', 'gs.b', 'gs.i', 'gs.u', 'gs.c', 'gs.w', 'lb', '*pb', 'li', '*pi', 'lu', 'lc', 'lw', 'll', 'lf', 'ld', 'lq', 'ls.b', 'ls.i', 'ls.u', 'ps->b', 'ps->i', 'ps->c', 'ps->w', 'le',
        'lb', 'lb', 'gb', 'li', 'li', 'ls.b']
PVARS = ['gp', 'lp', 'pb']


class Flow:
    def __init__(self, r, uid, maxdepth=5, budget=45):
        self.r, self.uid = r, uid
        self.n = 0
        self.lab = 0
        self.budget = budget
        self.maxdepth = maxdepth
        self.loops = []       # stack of ('loop'|'switch', label or None)
        self.labels = []      # user labels defined so far / reserved
        self.pending = []     # labels to place
        self.nvar = 0
        self.insx = 0
        self.hoist = []
        self.outer = []       # labels outside the enclosing statement expression

    def id(self):
        self.n += 1
        return self.n

    def var(self):
        return self.r.choice(VARS)

    def varcond(self):
        r = self.r
        k = r.random()
        if k < .5: return self.var() if r.random() < .9 else r.choice(PVARS)
        if k < .6: return f'!{self.var()}'
        if k < .7: return f'({self.var()} {r.choice(CMP)} {self.var()})'
        if k < .8: return f'({self.var()} {r.choice(CMP)} {r.choice(("0", "1", "-1", "0u", "1L << 33", "0.5", "(char)-1", "5"))})'
        if k < .84: return f'({r.choice(PVARS)} {r.choice(("==", "!="))} 0)'
        if k < .88: return f'({self.var()} = CI({self.id()}, 3) - 1)'
        if k < .92: return f'((int){self.var()} & {r.choice((1, 2, 256))})'
        if k < .95: return f'(long)({self.var()})'
        return f'({self.var()}, {self.var()})'

    def mut(self):
        r = self.r
        k = r.random()
        v = self.var()
        if k < .5: return f'{v} = CI({self.id()}, 7) - 3'
        if k < .6: return f'{r.choice(("gp", "lp"))} = CP({self.id()})'
        if k < .75: return f'{v} = ' + r.choice((f'(int)({self.var()})', f'!!{self.wrap(self.varcond())}', f'{self.varcond()} || 0', f'({self.varcond()} && 1)'))
        if k < .85: return f'{v} = CI({self.id()}, 3)'
        if k < .93: return f'{r.choice(("li", "lc", "gu", "gw", "lu", "gs.u"))}{r.choice(("++", "--"))}'
        return f'T({self.id()})'

    def cond(self, d=0):
        r = self.r
        if r.random() < .3: return self.varcond()
        k = r.random()
        if d > 3 or k < .4:
            f = r.choice(('C', 'C', 'C', 'C', 'CL', 'CD', 'CF', 'CQ', 'CP', 'CC', 'CB', 'CBF', 'CST'))
            s = f'{f}({self.id()})'
            if r.random() < .12 and f not in ('CP',):
                s = f'({s} {r.choice(("==", "!=", ">", "<="))} {r.choice(("0", "1"))})'
            return s
        if k < .55: return f'!{self.wrap(self.cond(d + 1))}'
        if k < .68: return f'({self.cond(d + 1)} && {self.cond(d + 1)})'
        if k < .81: return f'({self.cond(d + 1)} || {self.cond(d + 1)})'
        if k < .87: return f'({self.cond(d + 1)} ? {self.b(d + 1)} : {self.b(d + 1)})'
        if k < .9: return f'({self.b(d + 1)} ?: {self.b(d + 1)})'
        if k < .93: return f'(T({self.id()}), {self.cond(d + 1)})'
        if k < .95: return r.choice(('0', '1', '!0', '(1 && 1)', '(0 || 0)', '0.0', '1.5', '(x, 1)', '"s"', '(char)256', '0x100000000'))
        if k < .97: return f'(CI({self.id()}, 7) {r.choice(CMP)} {r.randrange(7)})'
        return f'(_Bool)({self.cond(d + 1)})'

    def b(self, d):
        c = self.cond(d)
        return f'!!{self.wrap(c)}'

    def wrap(self, s):
        return s if s.startswith('(') and s.endswith(')') and not s.startswith('(_Bool)') else f'({s})'

    def chk(self):
        return f'T({self.id()});'

    def exprstmt(self):
        r = self.r
        k = r.random()
        if k < .2: return f'T({self.id()});'
        if k < .28: return f'{self.mut()};'
        if k < .34: return f'{self.varcond()} {r.choice(("&&", "||"))} ({self.mut()});'
        if k < .37: return f'(void)({self.varcond()} {r.choice(("&&", "||"))} {self.wrap(self.cond())} {r.choice(("&&", "||"))} T({self.id()}));'
        if k < .4: return f'{self.varcond()} ? ({self.mut()}, T({self.id()})) : T({self.id()});'
        if k < .55: return f'{self.cond()};'
        if k < .7: return f'x = {self.cond()} ? T({self.id()}) : T({self.id()});'
        if k < .8: return f'(void)({self.cond()} && T({self.id()}));'
        if k < .88: return f'x += {self.b(1)} * 2;'
        if k < .94: return f'{self.cond()} ? (void)T({self.id()}) : (void)T({self.id()});'
        return f'{{ x = ({{ T({self.id()}); int y = CI({self.id()}, 4); y + x; }}); T(x & 15); }}'

    def block(self, d, n=None):
        r = self.r
        n = n or r.randrange(1, 4)
        return '{ ' + '\n'.join(self.stmt(d + 1) for _ in range(n)) + ' }'

    def body(self, d):
        """secondary block, braces or a single statement"""
        r = self.r
        if r.random() < .25:
            return self.exprstmt()
        return self.block(d)

    def newlabel(self):
        self.lab += 1
        return f'L{self.uid}_{self.lab}'

    def stmt(self, d=0):
        r = self.r
        self.budget -= 1
        if self.budget < 0 or d > self.maxdepth:
            return self.exprstmt()
        # place pending forward labels now and then
        pre = ''
        if self.pending and r.random() < .35:
            l = self.pending.pop(r.randrange(len(self.pending)))
            self.labels.append(l)
            pre = f'{l}: T({self.id()});\n'
        elif r.random() < .06:
            l = self.newlabel(); self.labels.append(l)
            pre = f'{l}: {self.chk()}\n'
        return pre + self.stmt2(d)

    def loopctx(self, d, gen, kind='loop', labelled=None):
        pass

    def jump(self):
        r = self.r
        k = r.random()
        opts = []
        if self.loops: opts += ['break'] * 3
        if any(k == 'loop' for k, _, _ in self.loops): opts += ['continue'] * 3
        if any(l for _, l, _ in self.loops): opts += ['lbreak'] * 3
        if any(l and k == 'loop' for k, l, _ in self.loops): opts += ['lcontinue'] * 2
        opts += ['goto', 'goto', 'return']
        if not self.insx: opts.append('cgoto')
        o = r.choice(opts)
        if o == 'break': return 'break;'
        if o == 'continue': return 'continue;'
        if o in ('lbreak', 'lcontinue'):
            c = [x for x in self.loops if x[1] and (o == 'lbreak' or x[0] == 'loop')]
            _, l, u = r.choice(c)
            u.add(o)
            return f'BRK({l});' if o == 'lbreak' else f'CONT({l});'
        if o == 'return': return f'return x + {r.randrange(5)};'
        if o == 'goto':
            av = self.labels + self.outer
            if av and r.random() < .5: return f'goto {r.choice(av)};'
            l = self.newlabel(); self.pending.append(l)
            return f'goto {l};'
        ls = []
        for _ in range(r.randrange(1, 4)):
            if self.labels and r.random() < .6: ls.append(r.choice(self.labels))
            else:
                l = self.newlabel(); self.pending.append(l); ls.append(l)
        self.nvar += 1
        v = f'jt{self.nvar}'
        q = r.choice(('static ', 'const '))
        return f'{{ {q}void *{v}[] = {{ {", ".join("&&" + l for l in ls)} }}; goto *{v}[CI({self.id()}, {len(ls)})]; }}'

    def stmt2(self, d):
        r = self.r
        k = r.random()
        if k < .16: return self.exprstmt()
        if k < .34:
            s = f'if ({self.cond()}) {self.body(d)}'
            while r.random() < .25: s += f' else if ({self.cond()}) {self.body(d)}'
            if r.random() < .5: s += f' else {self.body(d)}'
            elif s.rstrip().endswith('}') and r.random() < .2:
                s = 'if (%s) { %s }' % (self.cond(), s)
            return s
        if k < .37:
            v = f'd{self.uid}_{self.n}'
            i1 = self.id()
            c = r.choice((f'{v} > 1', f'{v} & 1', f'!{v}', v))
            decl = f'int {v} = CI({i1}, 4)'
            b, e = self.block(d), self.block(d)
            form = f'if ({decl}; {c})' if r.random() < .6 else None
            if form is None: form, c = f'if ({decl})', v
            return f'{{\n#ifdef SLIM\n {form}\n#else\n {decl}; if ({c})\n#endif\n {{ T({v} + 100); {b} }} else {{ T({v} + 200); {e} }} }}'
        if k < .45 and (d or r.random() < .5):
            return f'if ({self.cond()}) {self.jump()}'
        if k < .6:
            return self.loop(d)
        if k < .76:
            return self.switch(d)
        if k < .82:
            # statement expression containing control flow
            i = self.id()
            sl, sp, so = self.labels, self.pending, self.outer
            self.outer = so + sl
            self.labels, self.pending = [], []
            self.insx += 1
            b = '\n'.join(self.stmt(d + 2) for _ in range(r.randrange(1, 3)))
            b += ''.join(f'\n{l}: T({self.id()});' for l in self.pending)
            self.labels, self.pending, self.outer = sl, sp, so
            self.insx -= 1
            c = r.randrange(3)
            if c == 0: return f'x = ({{ {b}\n T({i}); }}) + 1;'
            if c == 1: return f'{{ int q{i} = ({{ {b}\n x & 1; }}); x += q{i}; }}'
            return f'if (({{ {b}\n {self.cond()}; }})) {self.body(d)}'
        if k < .86:
            return self.block(d)
        if k < .9:
            return self.duff(d)
        if k < .92:
            l = self.newlabel(); self.labels.append(l)
            self.nvar += 1
            return f'{l}: {self.chk()} if (CI({self.id()}, 3)) goto {l};'
        if k < .95:
            return f'for (int i{d} = 0, n{d} = CI({self.id()}, 4); i{d} < n{d}; i{d}++) T(i{d} + 50);'
        return self.exprstmt()

    def loop(self, d):
        r = self.r
        label = self.newlabel() if r.random() < .4 else None
        used = set()
        i = f'i{self.uid}_{self.id()}'
        self.loops.append(('loop', label, used))
        b = self.block(d)
        self.loops.pop()
        tail = f' {self.chk()} {label}_c:;' if 'lcontinue' in used else f' {self.chk()}'
        b = '{ ' + b + tail + ' }'
        lim = r.randrange(1, 5)
        k = r.random()
        pre = f'{label}: ' if label else ''
        ty = 'int '
        if re.search(r'\bL\d+_\d+: ', b):       # may be jumped into: the counter must be initialised
            ty = ''
            self.hoist.append(i)
        if k < .25: s = f'for ({ty}{i} = 0; {i} < {lim}; {i}++) {b}'
        elif k < .35: s = f'for ({ty}{i} = CI({self.id()}, 3); {self.cond()} && {i} < 6; T({self.id()}), {i} += 1) {b}'
        elif k < .42: s = f'{{ {ty}{i} = {lim}; for (;;) {{ if (--{i} < 0) break; {b} }} }}' if not label else f'for ({ty}{i} = {lim}; ; {i}--) {{ if ({i} < 0) break; {b} }}'
        elif k < .65:
            s = f'while ({self.cond()} && CI({self.id()}, 3)) {b}'
        elif k < .72:
            v = f'w{self.uid}_{self.n}'
            i1 = self.id()
            s = None
            if not label:
                s = f'{{\n#ifdef SLIM\n while (int {v} = CI({i1}, 4))\n#else\n for (int {v}; ({v} = CI({i1}, 4));)\n#endif\n {{ T({v} + 300); {b} }} }}'
            if s is None: s = f'while (CI({i1}, 4)) {b}'
        else: s = f'do {b} while ({self.cond()} && CI({self.id()}, 2));'
        s = pre + s
        if 'lbreak' in used:
            s += f'\n {label}_b:;'
        return s if not label else '{ ' + s + ' }'

    SWT = [(CHAR, 'char'), (SCHAR, 'signed char'), (UCHAR, 'unsigned char'), (SHORT, 'short'), (USHORT, 'unsigned short'), (INT, 'int'), (INT, 'int'), (UINT, 'unsigned'),
           (LONG, 'long'), (ULONG, 'unsigned long'), (LL, 'long long'), (ULL, 'u64'), (BOOL, '_Bool')]

    def switch(self, d):
        r = self.r
        t, tn = r.choice(self.SWT)
        pt = promote(t)
        label = self.newlabel() if r.random() < .25 else None
        used = set()
        self.loops.append(('switch', label, used))
        # candidate values and disjoint labels
        base = r.choice((0, 0, 0, rval(r, t), t.lo, t.hi - 8, -3, 1 << 31, (1 << 32) + 5, -(1 << 40)))
        cands, cases = [], []
        for _ in range(r.randrange(1, 7)):
            k = r.random()
            lo = base + r.randrange(0, 12) if k < .6 else rval(r, t) if k < .9 else rval(r, ULL)
            hi = lo
            if r.random() < .25: hi = lo + r.choice((1, 2, 5, 100, 1 << 20))
            # converted to the promoted type of the controlling expression
            lo, hi = conv(lo, pt), conv(hi, pt)
            if lo > hi: hi = lo
            if any(not (hi < a or lo > b) for a, b in cases): continue
            cases.append((lo, hi))
            for v in (lo, hi, lo - 1, hi + 1, (lo + hi) // 2):
                cands.append(v)
        cands.append(base)
        cands = [conv(c, t) for c in cands][:16]
        parts = []
        items = [('case', c) for c in cases]
        if r.random() < .7: items.append(('default', None))
        r.shuffle(items)
        txt = ''
        dlabel = ''
        for kind, c in items:
            if kind == 'default': txt += 'default: '
            else:
                lo, hi = c
                f = lambda v: self.caselit(v, pt)
                txt += f'case {f(lo)}: ' if lo == hi else f'case {f(lo)} ... {f(hi)}: '
            if r.random() < .25: continue       # several labels on one statement
            txt += self.chk() + '\n'
            if r.random() < .6: txt += self.stmt(d + 2) + '\n'
            if r.random() < .5: txt += r.choice(('break;', 'break;', f'if ({self.cond()}) break;')) + '\n'
        txt += ' ;' if txt.rstrip().endswith(':') else ''
        self.loops.pop()
        n = len(cands)
        vals = ', '.join(self.caselit(c, pt) if t.rank >= 3 else f'({tn}){self.caselit(c, INT)}' for c in cands)
        arr = f'sv{self.uid}_{self.id()}'
        i1 = self.id()
        ctl = f'{arr}[CI({i1}, {n})]'
        k = r.random()
        if k < .12: ctl = f'({ctl}, {ctl})'
        elif k < .2: ctl = f'({tn})({ctl} + 0)'
        elif k < .3 and pt is INT: ctl = f'+{ctl}'
        s = f'switch ({ctl}) {{ {txt} }}'
        if r.random() < .12: s = f'switch ({ctl}) {{ int unused; {self.exprstmt()} {txt} }}'
        if label: s = f'{label}: {s}'
        if 'lbreak' in used: s += f'\n {label}_b:;'
        return f'{{ static const {tn} {arr}[] = {{ {vals} }}; {s} {self.chk()} }}'

    def caselit(self, v, t):
        s = {INT: '', UINT: 'u', LONG: 'l', ULONG: 'ul', LL: 'll', ULL: 'ull'}[t]
        if v < 0:
            return f'(-{-(v + 1)}{s} - 1)'
        return f'{v}{s}'

    def duff(self, d):
        r = self.r
        i = f'u{self.uid}_{self.id()}'
        m = r.randrange(2, 5)
        cs = ''.join(f'case {j}: T({self.id()});\n' for j in range(m - 1, 0, -1))
        return (f'{{ int {i} = CI({self.id()}, {3 * m}) + 1, {i}k = ({i} + {m - 1}) / {m}; switch ({i} % {m}) {{ case 0: do {{ T({self.id()});\n {cs} '
                f'}} while (--{i}k > 0); }} }}')

    def function(self):
        b = '\n'.join(self.stmt(0) for _ in range(self.r.randrange(3, 8)))
        tail = ''
        for l in self.pending:
            tail += f'{l}: T({self.id()});\n'
        self.pending = []
        return ''.join(f'int {i} = 0; ' for i in self.hoist) + '\n' + b + '\n' + tail + f'T({self.id()}); return x;'


BRK = '''
#ifdef SLIM
#define BRK(l) break l
#define CONT(l) continue l
#else
#define BRK(l) goto l##_b
#define CONT(l) goto l##_c
#endif
'''


def flow_program(r, nf, seeds=8, fuel=220, **kw):
    parts = [FLOW_PRE, BRK]
    main = []
    for u in range(nf):
        f = Flow(r, u, **kw)
        parts.append(f'static int f{u}(int x) {{ LOCALS\n{f.function()}\n}}')
        main.append(f'  for (volatile int s = 0; s < {seeds}; s++) {{ pos = 0; put("f{u}."); num(s); st = s * 7919u + {r.getrandbits(24)}u; R(); fuel = {fuel};'
                    f' if (!_setjmp(jb)) {{ int v = f{u}(s & 3); put(" ret"); num(v); }} flush(); }}')
    return '\n'.join(parts) + '\nint main(void) {\n' + '\n'.join(main) + '\nreturn 0; }\n'
