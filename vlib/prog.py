"""Program builder for expression tests: variables in every kind of storage, with known values."""
from .cint import *

PRELUDE = r'''
extern int printf(const char *, ...);
typedef unsigned long long u64;
static void E(int id, u64 v) { printf("%d %llx\n", id, v); }
'''
PROTO = '''extern int printf(const char *, ...);
typedef unsigned long long u64;
void E(int id, u64 v);
'''


class FnBuilder:
    """One test function.  Collects file-scope text, parameters, locals, and leaf variables."""
    def __init__(self, r, uid, types=ALL, storages=None):
        self.r, self.uid, self.types = r, uid, types
        self.glob, self.params, self.args, self.decls = [], [], [], []
        self.leaves = []
        self.cleaves = []
        self.nv = 0
        self.storages = storages

    def name(self, p='v'):
        self.nv += 1
        return f'{p}{self.uid}_{self.nv}'

    STOR = ['local'] * 4 + ['param'] * 3 + ['global', 'sglobal', 'slocal', 'deref', 'index', 'cindex', 'member', 'pmember', 'nested',
            'bitfield', 'bitfield', 'union', 'arrmember', 'call', 'callarg', 'sconst', 'lconst', 'complit', 'stmtexpr', 'volatile', 'tls',
            'gindex', 'enum', 'ptrptr', 'vla', 'reg', 'bfptr', 'gmember', 'comma', 'cond', 'negidx', 'autot']

    def add(self, t=None, stor=None):
        r = self.r
        t = t or r.choice(self.types)
        stor = stor or r.choice(self.storages or self.STOR)
        v = rval(r, t)
        n = self.name()
        L = lit(r, v, t)
        D, G = self.decls, self.glob
        tn = t.name
        pad1, pad2 = rval(r, LONG), rval(r, INT)
        if stor == 'local':
            D.append(f'{tn} {n} = {L};'); x = N(n, t, v)
        elif stor == 'reg':
            D.append(f'register {tn} {n} = {L};'); x = N(n, t, v)
        elif stor == 'volatile':
            D.append(f'volatile {tn} {n} = {L};'); x = N(n, t, v)
        elif stor == 'param':
            self.params.append(f'{tn} {n}'); self.args.append(L); x = N(n, t, v)
        elif stor == 'global':
            G.append(f'{tn} {n} = {L};'); x = N(n, t, v)
        elif stor == 'sglobal':
            G.append(f'static {tn} {n} = {L};'); x = N(n, t, v)
        elif stor == 'tls':
            G.append(f'{r.choice(("static ", ""))}_Thread_local {tn} {n} = {L};'); x = N(n, t, v)
        elif stor == 'slocal':
            D.append(f'static {tn} {n} = {L};'); x = N(n, t, v)
        elif stor == 'sconst':
            if r.random() < .5: G.append(f'static const {tn} {n} = {L};')
            else: D.append(f'static const {tn} {n} = {L};')
            x = N(n, t, v)
        elif stor == 'lconst':
            D.append(f'const {tn} {n} = {L};'); x = N(n, t, v)
        elif stor == 'autot':
            D.append(f'__auto_type {n} = {L if t.rank >= 3 else "(" + tn + ")" + L};'); x = N(n, t, v)
        elif stor == 'deref':
            D.append(f'{tn} {n}_ = {L}, *{n} = &{n}_;'); x = N(f'*{n}' if r.random() < .5 else f'{n}[0]', t, v); x.s = f'({x.s})'
        elif stor == 'ptrptr':
            D.append(f'{tn} {n}_ = {L}, *{n}__ = &{n}_, **{n} = &{n}__;'); x = N(f'(**{n})', t, v)
        elif stor in ('index', 'cindex', 'gindex', 'negidx', 'vla'):
            k = r.randrange(1, 9); i = r.randrange(k)
            it = r.choice([INT, LONG, UCHAR, SHORT, ULONG, SCHAR, UINT])
            if stor == 'gindex': G.append(f'{tn} {n}[{k}] = {{[{i}] = {L}}};')
            elif stor == 'vla': D.append(f'int {n}k = {k}; {tn} {n}[{n}k]; {n}[{i}] = {L};')
            else: D.append(f'{tn} {n}[{k}] = {{[{i}] = {L}}};')
            if stor == 'cindex' or r.random() < .3: x = N(f'{n}[{i}]', t, v)
            elif stor == 'negidx':
                D.append(f'{tn} *{n}p = {n} + {k}; {r.choice(["int","long"])} {n}i = {i - k};'); x = N(f'{n}p[{n}i]', t, v)
            else:
                D.append(f'{it.name} {n}i = {i};'); x = N(f'{n}[{n}i]' if r.random() < .7 else f'(*({n} + {n}i))', t, v)
        elif stor in ('member', 'pmember', 'gmember'):
            pt = r.choice(ALL).name
            dec = f'struct {{ {pt} a; {tn} m; {r.choice(ALL).name} z; }}'
            if stor == 'gmember': G.append(f'{dec} {n} = {{.m = {L}}};'); x = N(f'{n}.m', t, v)
            elif stor == 'member': D.append(f'{dec} {n} = {{.m = {L}}};'); x = N(f'{n}.m', t, v)
            else: D.append(f'{dec} {n}_ = {{.m = {L}}}, *{n} = &{n}_;'); x = N(f'{n}->m', t, v)
        elif stor == 'nested':
            D.append(f'struct {{ char c; struct {{ short s; {tn} m[3]; }} in; union {{ {tn} u; long l; }}; }} {n} = {{.in.m[1] = {L}}};'); x = N(f'{n}.in.m[1]', t, v)
        elif stor == 'union':
            D.append(f'union {{ {tn} m; u64 z; }} {n} = {{ .z = {hex(rval(r, ULL))}ull }}; {n}.m = {L};'); x = N(f'{n}.m', t, v)
        elif stor == 'arrmember':
            k = r.randrange(1, 5); i = r.randrange(k)
            D.append(f'struct {{ int a; {tn} m; }} {n}[{k}] = {{[{i}].m = {L}}}; int {n}i = {i};'); x = N(f'{n}[{n}i].m', t, v)
        elif stor in ('bitfield', 'bfptr'):
            bt = r.choice([INT, UINT, UCHAR, SHORT, USHORT, LONG, ULONG, BOOL, SCHAR])
            w = 1 if bt.bool else r.randrange(1, bt.bits + 1)
            vv = rval(r, bt)
            if bt.bool: pass
            else:
                vv &= (1 << w) - 1
                if bt.signed and vv >> (w - 1): vv -= 1 << w
            w0 = r.randrange(1, 33)
            Lb = lit(r, vv, bt)
            p = r.choice(('', ' __attribute__((packed))'))
            zt, zw = r.choice(["int", "unsigned", "long"]), r.randrange(1, 32)
            zs = 64 if zt == 'long' else 32
            if w0 % bt.bits + w > bt.bits or (w0 + w) % zs + zw > zs:
                p = ''      # packed bit-fields that straddle their declared unit: known finding of C05
            D.append(f'struct{p} {{ unsigned a : {w0}; {bt.name} m : {w}; {zt} z : {zw}; }} {n}_ = {{ .a = -1, .z = -1 }}, *{n} = &{n}_; {n}->m = {Lb};')
            ref = f'{n}_.m' if stor == 'bitfield' else f'{n}->m'
            if w > 32: x = N(f'(({bt.name}){ref})', bt, vv)
            elif w < 32: x = N(ref, INT, vv)
            elif bt.signed: x = N(ref, INT, vv)
            else: x = N(ref, UINT, vv)
            t = x.t
            v = vv
        elif stor == 'call':
            G.append(f'static {tn} f{n}(void) {{ return {L}; }}'); x = N(f'f{n}()', t, v)
        elif stor == 'callarg':
            G.append(f'static {tn} f{n}({tn} a, {r.choice(ALL).name} b) {{ return a; }}'); D.append(f'{tn} {n} = {L};')
            x = N(f'f{n}({n}, {lit(r, pad2, INT)})', t, v)
        elif stor == 'complit':
            x = N(f'({tn}){{{L}}}', t, v)
        elif stor == 'stmtexpr':
            D.append(f'{tn} {n} = {L};'); x = N(f'({{ {tn} q = {n}; q; }})', t, v)
        elif stor == 'comma':
            D.append(f'{tn} {n} = {L}; volatile int {n}w = 0;'); x = N(f'({n}w++, {n})', t, v)
        elif stor == 'cond':
            D.append(f'{tn} {n} = {L}; volatile int {n}w = {r.randrange(2)};'); x = N(f'({n}w ? {n} : {n})', promote(t), v)
        elif stor == 'enum':
            if not inrange(v, INT): v = conv(v, INT)
            t = INT
            (G if r.random() < .5 else D).append(f'enum {{ {n} = {lit(r, v, INT)} }};'); x = N(n, t, v)
        else:
            raise ValueError(stor)
        self.leaves.append(x)
        return x

    def assign_leaf(self, g):
        """An expression with a side effect on a variable of its own."""
        r = self.r
        t = r.choice(self.types)
        n = self.name()
        k = r.random()
        stor = r.choice(('local', 'global', 'deref', 'member'))
        v0 = rval(r, t)
        if stor == 'local': self.decls.append(f'{t.name} {n} = {lit(r, v0, t)};'); ref = n
        elif stor == 'global': self.glob.append(f'static {t.name} {n} = {lit(r, v0, t)};'); ref = n
        elif stor == 'deref': self.decls.append(f'{t.name} {n}_ = {lit(r, v0, t)}, *{n} = &{n}_;'); ref = f'*{n}'
        else: self.decls.append(f'struct {{ char c; {t.name} m; }} {n}_ = {{0, {lit(r, v0, t)}}}, *{n} = &{n}_;'); ref = f'{n}->m'
        if k < .35:
            e = g.expr(r.randrange(0, 3))
            return N(f'({ref} = {e.s})', t, conv(e.v, t))
        if k < .65:
            op = r.choice(('+', '-', '*', '&', '|', '^', '>>', '/', '%', '<<'))
            e = g.leaf() if r.random() < .6 else g.const_leaf()
            x = binop(op, N('', t, v0), e)
            if x is None:
                op = '|'
                x = binop(op, N('', t, v0), e)
            return N(f'({ref} {op}= {e.s})', t, conv(x[1], t))
        # increments
        op = r.choice(('++', '--'))
        d = 1 if op == '++' else -1
        nv = conv(v0 + d, t) if not t.bool else (1 if op == '++' else 1 - v0)
        if t.signed and t.rank >= 3 and not inrange(v0 + d, t):
            return N(f'({ref})', t, v0)
        if r.random() < .5:
            return N(f'({op}{ref})' if ref[0] not in '+-' else f'({op} {ref})', t, nv)
        return N(f'({ref}{op})' if '*' not in ref else f'(({ref}){op})', t, v0)


def leaf_picker(fb, r):
    def leaf():
        if r.random() < .25 or not fb.leaves:
            return fb.add()
        return r.choice(fb.leaves)
    return leaf
