"""C07: initialisers (dumps of every leaf of static/auto/compound-literal objects vs gcc/clang)."""
import os, sys, copy
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib.cint import *
from vlib.cfp import FPRELUDE, EMIT, F, flit, frand
from vlib.agg import *
from vlib.diff import Diff

PRE = FPRELUDE + AGG_PRE + r'''
extern void *memset(void *, int, unsigned long);
static int one = 1, zero = 0, two = 2;
static int cnt[4096];
static int cc(int id, int v) { cnt[id]++; return v; }
static double cd(int id, double v) { cnt[id]++; return v; }
char pad0[64]; struct GO { int a; short b[5]; struct { char c, d[7]; } e; } gobj[4]; char pad1[64]; int garr[16]; extern int fn0(void), fn1(void); int fn0(void) { return 0; } int fn1(void) { return 1; }
static void P(const char *id, const void *p_) {
  const char *p = p_;
  if ((unsigned long)p < 0x10000) printf("%s num %lu\n", id, (unsigned long)p);
  else if (p >= (char *)gobj && p <= (char *)(gobj + 4)) printf("%s gobj+%ld\n", id, (long)(p - (char *)gobj));
  else if (p >= (char *)garr && p <= (char *)(garr + 16)) printf("%s garr+%ld\n", id, (long)(p - (char *)garr));
  else if (p_ == (void *)fn0) printf("%s fn0\n", id); else if (p_ == (void *)fn1) printf("%s fn1\n", id);
  else printf("%s str %s\n", id, p);
}
static void Z(const char *id, unsigned long a) { printf("%s size %lu\n", id, a); }
__attribute__((noinline)) static void dirty(void) { volatile unsigned char b[6000]; for (int i = 0; i < 6000; i++) b[i] = 0xd7; }
'''
CH = {INTS[1].c, INTS[2].c, INTS[3].c}


class N:
    """value tree: what the generator knows to be initialised"""
    def __init__(s, t): s.t, s.kids, s.active, s.cnt, s.ever, s.set = t, {}, None, 0, set(), False
    def reset(s):
        # /repo/test/initializer.c pins that a list for an already initialised aggregate keeps the parts it does not
        # mention (GCC and Clang zero them), so the generator stays away from such overriding
        if s.kids or s.set: raise Skip()
        s.set = True


class Skip(Exception):
    pass


def mems(t):
    return [m for m in t.mems if m.name is not None or m.width is None]


def sub(t, i):
    return t.e if isinstance(t, Arr) else mems(t)[i].ty


def dirty(p, i):
    e = p.kids.get(i)
    return e is not None and (e.kids or e.set)


def kid(n, i):
    t = n.t
    if isinstance(t, Ag) and t.kind == 'union' and n.active != i:
        if i in n.ever and not isinstance(sub(t, i), Sc): raise Skip()
        n.ever.add(i)
        n.kids = {}
        n.active = i
    if i not in n.kids: n.kids[i] = N(sub(t, i))
    n.cnt = max(n.cnt, i + 1)
    return n.kids[i]


def is_flexm(t, i): return isinstance(t, Ag) and isinstance(mems(t)[i].ty, Arr) and mems(t)[i].ty.n is not None and mems(t)[i].ty.n < 0


def npos(t):
    if isinstance(t, Arr): return t.n if t.n is not None else 9
    m = mems(t)
    if t.kind == 'union': return 1
    return len(m) - (1 if is_flexm(t, len(m) - 1) else 0)


class G:
    def __init__(s, r, static, name, side=False, svars=None, over=.3):
        s.r, s.static, s.name, s.side, s.svars, s.over = r, static, name, side, svars or {}, over
        s.ids = []
        s.budget = 60

    def leaf(s, t, width=None):
        r = s.r
        s.budget -= 1
        if t.enum: return value(r, t)
        if t.k == 'ptr':
            if t.c == 'fnp_t': return r.choice(('fn0', '&fn1', '0', '(fnp_t)0', 'fn1', '*fn0'))
            return r.choice(('0', '(void *)0', '(void *)%d' % r.randrange(1, 60000), '&gobj[2]', 'gobj', '&gobj[1].b[3]', 'gobj[3].e.d', 'garr + 3', '&garr[15]', '2 + garr', '(char *)garr + 7',
                             '&(gobj + 1)->e.c', '&gobj[1].b[2] + 1', '(char *)&gobj[3] - 5', '"str%d"' % r.randrange(9), '"a" "bc"', '&"hello"[2]', '"xyzw" + 1', 'fn0', '(void *)&gobj[0].e', '(int *)(gobj + 1) + 1',
                             '&*garr', 'zz_' if False else '&garr[sizeof(int)]', '1 ? garr : 0', 'gobj->b', '(*(gobj + 1)).b + 2' , '&((garr + 2)[3])', '(long)0 + (char *)garr'))
        if s.side and r.random() < .4:
            i = len(G.glob); G.glob.append(1)
            s.ids.append(i)
            if isinstance(t.k, F): return f'cd({i}, {r.randrange(-50, 50)}.5)'
            return f'cc({i}, {r.randrange(0, 2 if t.k is BOOL else 100)})'
        if not s.static and r.random() < .25:
            if isinstance(t.k, F): return r.choice(('one', 'two * 1.5', 'zero', '(float)two'))
            return r.choice(('one', 'zero', 'one + two', 'two * 3', 'garr[zero]'))
        if isinstance(t.k, F):
            if r.random() < .2: return str(r.randrange(-100, 100))
            return value(r, t)
        if r.random() < .07 and t.k is not BOOL: return r.choice(('1.75', '2.9f', '3.0L', "'x'", 'sizeof(int)', 'EU7', '!0', '5 > 3', '10 ? 20 : 30', '(char)300', '-1'))
        if r.random() < .06 and t.size == 8 and width is None and s.static: return r.choice(('(long)&garr[1] - (long)garr' if False else '123456789', '0x7fffffffffffffff', '-1'))
        return value(r, t) if width is None else lit(r, rval(r, t.k), t.k)

    def string(s, t, brace_ok=True):
        """initialiser text for array of character type, or None"""
        r = s.r
        if not isinstance(t.e, Sc) or not isinstance(t.e.k, T) or s.nostr: return None
        n = t.n if t.n is not None and t.n >= 0 else r.randrange(1, 9)
        k = r.randrange(0, n + 1) if r.random() < .8 else n
        c = t.e.c
        txt = ''.join(r.choice('abcdefgh 01~') if r.random() < .85 else r.choice(('\\n', '\\x41', '\\101', '\\\\', '\\"')) for _ in range(k))
        if r.random() < .2 and k >= 2: txt = txt[:len(txt)]; txt2 = r.choice(('', 'é' if k >= 3 and n - k >= 2 else ''))
        if t.e.size == 1 and t.e.k is not BOOL: pre = r.choice(('', '', 'u8'))
        elif c == 'unsigned short': pre = 'u'
        elif c == 'int': pre = 'L'
        elif c == 'unsigned int' or c == 'unsigned': pre = 'U'
        else: return None
        q = f'{pre}"{txt}"'
        if r.random() < .2 and pre != 'u8': q += r.choice((' ""', ' ""' if not pre else f' {pre}""'))
        if r.random() < .15: q = f'({q})' if r.random() < 0 else q
        if r.random() < .25 and brace_ok: q = '{' + q + r.choice(('', ',')) + '}'
        ln = k + 1
        return q, ln

    def value_at(s, n, brace_ok=True):
        """initialiser for the whole of n (no elision)"""
        r, t = s.r, n.t
        if isinstance(t, Sc):
            v = s.leaf(t, getattr(n, 'width', None))
            return '{' + v + r.choice(('', ',')) + '}' if r.random() < .06 and brace_ok else v
        if isinstance(t, Arr) and (r.random() < .6 or not brace_ok):
            q = s.string(t, brace_ok)
            if q:
                n.reset()
                if t.n is None or t.n < 0: n.cnt = q[1]
                return q[0]
        if isinstance(t, Ag) and brace_ok and not s.static and r.random() < .3 and t.c in s.svars and not getattr(t, 'anonymous', False) and union_free(t):
            n.reset()
            return r.choice((s.svars[t.c], f'*&{s.svars[t.c]}', f'one ? {s.svars[t.c]} : {s.svars[t.c]}', f'({s.svars[t.c]})'))
        return s.braced(n)

    def chain(s, n):
        """designator chain starting at braced object n: returns text, stack [(node, idx)], parallel nodes for a range"""
        r = s.r
        txt, stack, par = '', [], None
        while True:
            t = n.t
            if isinstance(t, Arr):
                cap = t.n if t.n is not None and t.n >= 0 else 8
                i = r.randrange(cap)
                if par is None and r.random() < .25:
                    j = r.randrange(i, cap)
                    i, par = j, [(n, x) for x in range(i, j)]
                    txt += f'[{par[0][1] if par else j} ... {j}]'
                    prefix = len(stack)
                    s_par = (n, [x for _, x in par], prefix)
                    par = s_par
                else: txt += r.choice((f'[{i}]', f'[{i}]', f'[{i} + 0]', f'[{i}u]'))
            else:
                ms = mems(t)
                i = r.randrange(len(ms))
                if is_flexm(t, i) and not s.static_flex: 
                    if i == 0: i = 0
                    else: i -= 1
                m = ms[i]
                if m.name is not None: txt += '.' + m.name
                else:           # anonymous: must go deeper by name
                    stack.append((n, i))
                    n = kid(n, i)
                    continue
            stack.append((n, i))
            c = sub(t, i)
            if isinstance(c, (Arr, Ag)) and not (isinstance(c, Arr) and c.n is not None and c.n < 0) and r.random() < .4:
                n = kid(n, i)
                continue
            return txt, stack, par

    static_flex = nostr = False

    def braced(s, n):
        r = s.r
        n.reset()
        t = n.t
        if r.random() < .05 or s.budget < 0: return '{}' if not (isinstance(t, Arr) and t.n is None) else '{0}' if setattr(n, 'cnt', 1) is None else ''
        pd = r.choice((0, 0, .2, .5, .9))
        pe = r.choice((0, .3, .8))
        out = []
        stack = [(n, -1)]
        deep = False
        steps = r.choice((1, 2, 3, 4, 6, 9, 14, 30))
        first = True
        while steps > 0:
            steps -= 1
            des = ''
            par = None
            if r.random() < pd:
                des, stack, par = s.chain(n)
                stack = list(stack)
                deep = True
            else:
                # advance
                while stack:
                    p, i = stack[-1]
                    lim = npos(p.t)
                    if isinstance(p.t, Ag) and p.t.kind == 'union' and i >= 0: lim = 0      # a union takes one
                    if i + 1 < lim:
                        stack[-1] = (p, i + 1)
                        break
                    stack.pop()
                if not stack: break
            p, i = stack[-1]
            c = sub(p.t, i)
            w = mems(p.t)[i].width if isinstance(p.t, Ag) else None
            if des and not isinstance(c, Sc):     # not over something initialised before
                for q in [(p, i)] if not par else [(rr, ii) for rr, ii in par_targets(stack, par)]:
                    e = q[0].kids.get(q[1]) if q[0] is not None else None
                    if e and (e.kids or e.set): raise Skip()
            if isinstance(c, Arr) and c.n is not None and c.n < 0:
                k = kid(p, i)
                out.append(f'{des} = {s.value_at(k)}' if des else s.value_at(k))
                continue
            # elision
            elided = False
            # GCC and Clang misplace a string that positionally follows a designator reaching into the same array
            s.nostr = deep and not des
            while isinstance(c, (Arr, Ag)) and not des and (elided or r.random() < pe or dirty(p, i)):
                if isinstance(c, Arr) and s.string(c) and r.random() < .4 and not dirty(p, i): break
                k = kid(p, i)
                elided = True
                stack.append((k, 0))
                p, i = k, 0
                if isinstance(p.t, Ag) and not mems(p.t): break
                c = sub(p.t, 0)
                w = mems(p.t)[0].width if isinstance(p.t, Ag) else None
            anon = isinstance(p.t, Ag) and mems(p.t)[i].name is None
            k = kid(p, i)
            k.width = w
            if par:
                save, s.side = s.side, False
            v = s.value_at(k, not elided)
            s.nostr = False
            if par:
                s.side = save
                rn, idxs, pre = par
                for x in idxs:
                    cur = kid(rn, x)
                    for (_, ii) in stack[pre + 1:]:
                        cur = kid(cur, ii)
                    cur.__dict__.update(copy.deepcopy({a: b for a, b in k.__dict__.items() if a not in ('t',)}, memo_t(k)))
                kid(rn, stack[pre][1])
            out.append(f'{des} = {v}' if des else v)
        if not out:
            if isinstance(t, Arr) and t.n is None: n.cnt = 1; return '{0}'
            return '{}'
        return '{' + ', '.join(out) + r.choice(('', '', ',')) + '}'


def par_targets(stack, par):
    rn, idxs, pre = par
    out = []
    for x in idxs:
        cur, path = rn, [x] + [ii for _, ii in stack[pre + 1:]]
        for y in path[:-1]:
            cur = cur.kids.get(y) if cur is not None else None
        out.append((cur, path[-1]))
    return out + [(stack[-1][0], stack[-1][1])]


def memo_t(n):
    """share type objects in deep copies"""
    m = {}
    def w(x):
        m[id(x.t)] = x.t
        for y in x.kids.values(): w(y)
    w(n)
    return m


def union_free(t):
    if isinstance(t, Arr): return union_free(t.e)
    if isinstance(t, Ag): return t.kind == 'struct' and all(union_free(m.ty) for m in t.mems)
    return True


def dump(n, path):
    """(path, Sc, width) of the observable leaves"""
    t = n.t
    if isinstance(t, Sc): return [(path, t, getattr(n, 'width', None))]
    out = []
    if isinstance(t, Arr):
        cnt = t.n if t.n is not None and t.n >= 0 else n.cnt
        for i in range(cnt):
            out += dump(n.kids.get(i) or N(t.e), f'{path}[{i}]')
        return out
    ms = mems(t)
    idx = range(len(ms)) if t.kind == 'struct' else [n.active if n.active is not None else 0]
    for i in idx:
        m = ms[i]
        k = n.kids.get(i)
        if k is None: k = N(m.ty)
        k.width = m.width
        out += dump(k, path + ('.' + m.name if m.name else ''))
    return out


def show(lv, ident, base):
    out = []
    for p, t, w in lv:
        x = base + p
        if t.k == 'ptr': out.append(f'P("{ident}{p}", (void *){x});')
        elif isinstance(t.k, F): out.append(f'{EMIT[t.k]}("{ident}{p}", {x});')
        else: out.append(f'E("{ident}{p}", {x});')
    return ' '.join(out)


EMITPRE = '''
static void E(const char *id, unsigned long long v) { printf("%s %llx\\n", id, v); }
static void Ef(const char *id, float f) { unsigned u; __builtin_memcpy(&u, &f, 4); printf("%s f%x\\n", id, u); }
static void Ed(const char *id, double f) { unsigned long long u; __builtin_memcpy(&u, &f, 8); printf("%s d%llx\\n", id, u); }
static void El(const char *id, long double f) { unsigned long long u; unsigned short s; __builtin_memcpy(&u, &f, 8); __builtin_memcpy(&s, (char *)&f + 8, 2); printf("%s l%x:%llx\\n", id, s, u); }
'''


def program(r, nobj):
    G.glob = []
    glob, main, desc, dyn = [], [], {}, []
    EM = EMITPRE.replace('__builtin_memcpy', 'memcpy')
    parts = ['extern int printf(const char *, ...); extern void *memcpy(void *, const void *, unsigned long);\n', PRE_NOE, EM]
    for u in range(nobj):
        g = AggGen(r, f'S{u}_', packed=.04, aligned=.06, bitf=r.choice((.05, .3, .5)), flex=.12, unions=r.choice((.1, .3, .6)), maxmem=5, anon=.15)
        k = r.random()
        a = g.agg(r.choice((0, 1, 1, 2)))
        parts += g.defs
        pool = [a]
        if k < .5 or a.flex: t = a
        elif k < .75: t = Arr(a, r.choice((1, 2, 3, None, None)))
        elif k < .9:
            e = g.scalar()
            if r.random() < .4: e = r.choice([INTS[1], INTS[2], INTS[3], INTS[4], INTS[5], INTS[6], INTS[7]])
            t = Arr(e, r.choice((1, 3, 5, 8, None, None)))
            if r.random() < .3: t = Arr(Arr(t.e, r.choice((2, 3, 4))), r.choice((1, 2, 3, None)))
        else: t = g.scalar()

        def spell(name):
            x, suf = t, ''
            while isinstance(x, Arr):
                suf += f'[{x.n if x.n is not None else ""}]'; x = x.e
            return f'{x.c} {name}{suf}'

        def tname():
            x, suf = t, ''
            while isinstance(x, Arr):
                suf += f'[{x.n if x.n is not None else ""}]'; x = x.e
            return f'{x.c}{suf}'
        nlv = sum(1 for _ in all_leaves(t if not isinstance(t, Arr) or t.n is not None else t.e)) if not isinstance(t, Sc) else 1
        if nlv > 120: continue
        # static forms
        def gen(mk):
            for _ in range(40):
                G_ = mk(); n = N(t)
                mark = len(G.glob)
                try: return G_, n, (G_.value_at(n) if not isinstance(t, Sc) else G_.leaf(t))
                except Skip: del G.glob[mark:]
            return None, None, None

        def mk():
            st = G(r, True, f'g{u}')
            if isinstance(t, Ag) and t.flex: st.static_flex = True
            return st
        st, n, txt = gen(mk)
        if st is None: continue
        if isinstance(t, Arr) and t.n is None and not txt.startswith(('{', '"', 'u', 'L', 'U')): continue
        lv = dump(n, '')
        desc[u] = txt
        q = r.choice(('', 'static ', 'const ', 'static const '))
        glob.append(f'{q}{spell(f"g{u}")} = {txt};')
        sz = lambda nm: '' if isinstance(t, Ag) and t.flex else f'Z("{u}", sizeof {nm});'
        body = [show(lv, f'{u}.g', f'g{u}'), sz(f'g{u}')]
        flexy = isinstance(t, Ag) and t.flex
        if not flexy:
            # the initialised type used as automatic, static local, compound literals
            if r.random() < .5: body.append(f'{{ static {spell("x")} = {txt}; {show(lv, f"{u}.s", "x")} {sz("x")} }}')
            body.append(f'for (int it = 0; it < 2; it++) {{ {spell("x")} = {txt}; {show(lv, f"{u}.a", "x")} {sz("x")} memset({"&" if not isinstance(t, Arr) else ""}x, 0xee, sizeof x); }}')
            if r.random() < .6:
                if isinstance(t, Sc): body.append(f'{{ {t.c} x = ({tname()}){{ {txt} }}; {show(lv, f"{u}.c", "x")} }}')
                elif txt.startswith('{'):
                    if isinstance(t, Arr): body.append(f'{{ {t_elem(t)} = ({tname()}){txt}; {show(lv, f"{u}.c", "x")} Z("{u}.cz", sizeof(({tname()}){txt})); }}')
                    else: body.append(f'{{ {t.c} *x = &({tname()}){txt}; {show(lv, f"{u}.c", "(*x)")} }}')
            if r.random() < .35 and txt.startswith('{') and not isinstance(t, Sc):
                glob.append((f'{t_elem(t, "h%d" % u)} = ({tname()}){txt};' if isinstance(t, Arr) else f'{t.c} *h{u} = &({tname()}){txt};'))
                body.append(show(lv, f'{u}.h', f'h{u}' if isinstance(t, Arr) else f'(*h{u})'))
        # dynamic forms
        if not flexy and r.random() < .8:
            sv = {}
            pre = ''
            if r.random() < .5 and union_free(a) and not a.flex:
                sv[a.c] = 'sv'
                g2 = G(r, True, 'sv')
                try: pre = f'{a.c} sv = {g2.value_at(N(a))};'
                except Skip: sv, pre = {}, ''
            side = r.random() < .5
            dg, n2, tx = gen(lambda: G(r, False, f'd{u}', side=side, svars=sv))
            if dg and not (isinstance(t, Arr) and t.n is None and not tx.startswith(('{', '"', 'u', 'L', 'U'))):
                lv2 = dump(n2, '')
                desc[u] += '   ///  ' + pre + tx
                s = f'{spell("x")} = {tx};'
                body.append(f'{{ {pre} {s} {show(lv2, f"{u}.d", "x")} {sz("x").replace(chr(34) + str(u), chr(34) + str(u) + ".d")} }}')
                if tx.startswith('{') and isinstance(t, Ag) and r.random() < .5 and not dg.ids:
                    body.append(f'{{ {pre} {t.c} x; memset(&x, 0x55, sizeof x); x = ({t.c}){tx}; {show(lv2, f"{u}.e", "x")} }}')
                if dg.ids and overlap_free(tx):
                    body.append(' '.join(f'E("{u}.n{i}", cnt[{i}]);' for i in dg.ids))
        main.append('\n  '.join(x for x in body if x))
    fns = '\n'.join(f'static void t{i}(void) {{\n  {b}\n}}' for i, b in enumerate(main))
    src = '\n'.join(parts) + '\n' + '\n'.join(glob) + '\n' + fns + '\nint main(void) {\n' + ' '.join(f'dirty(); t{i}();' for i in range(len(main))) + '\nreturn 0; }\n'
    return src, desc


def overlap_free(tx):
    """no designators -> nothing can be overridden"""
    import re
    return not re.search(r'[\]\w] = ', tx)


def t_elem(t, nm='x'):
    """declarator of a pointer to the elements of array t"""
    x, suf = t.e, ''
    while isinstance(x, Arr):
        suf += f'[{x.n}]'; x = x.e
    return f'{x.c} (*{nm}){suf}' if suf else f'{x.c} *{nm}'


PRE_NOE = PRE[len(FPRELUDE):]


def check(ctx):
    ctx.rule = ('random object types (scalars, arrays incl. unknown length, structs, unions, bit-fields, anonymous members, flexible arrays) with random initialisers (nested/elided braces, positional and designated, ranges, nested designators, overriding '
                'entries, strings, address constants, struct values, calls with counted side effects) as global, static local, automatic on a dirtied stack (re-entered twice), and compound literals; each leaf printed; non-trivial: distinct event logs')
    slim = ctx.build('plain')
    D = Diff(ctx, slim, common=('-w', '-std=c23'), std_ref=('-std=gnu2x',))

    def one(idx):
        res = Res()
        r = ctx.rng(idx)
        src, desc = program(r, 12)
        vs = [[[], ['-O0']], [['-O1', '-fPIC']], [['-O1', '-fdata-sections', '-fno-common']], [['-O0', '-fno-reuse-stack']]][idx % 4] if False else [[[]], [['-O0']], [['-fPIC']], [['-O1', '-g']]][idx % 4]
        D.go(res, f'i{idx}', {'t.c': src}, vs, describe=lambda k: desc.get(int(k.split('.')[0]) if k.split('.')[0].isdigit() else -1, ''))
        if idx == 0: res.sample = {'initialiser': desc.get(0, '')[:300]}
        return res
    ctx.pmap(one, range(ctx.n(1100, 5000)))
    probe(ctx, slim, 'range-side-effect', 'extern int printf(const char *, ...); int n; int f(void) { return ++n; } int main(void) { int a[4] = { [0 ... 2] = f(), 9 }; printf("%d %d %d %d %d\\n", n, a[0], a[1], a[2], a[3]); return 0; }',
          msg='a call initialising a designated range is evaluated once per element')


if __name__ == '__main__':
    main('C07', check, min_events=10000, min_distinct=100)
