"""C17: names resolve to the innermost visible declaration.  Random histories of scopes opening, declaring, shadowing and closing over a small pool of names shared by every name space; a scope model
written from the C rules says which declaration every use must see, and every declaration carries a unique value, size or type that the use reports at run time."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib.diff import Diff

PRE = '''extern int printf(const char *, ...);
#define P(id, e) printf("%d %lld\\n", id, (long long)(e))
#define KIND(e) _Generic((e), char: 1, signed char: 2, short: 3, int: 4, long: 5, float: 6, double: 7, char *: 8, int *: 9, unsigned: 10, unsigned long: 11, default: 12)
'''
KN = dict([('char', 1), ('signed char', 2), ('short', 3), ('int', 4), ('long', 5), ('float', 6), ('double', 7)])


class Ent:
    """kind: var / arr / enum / typedef / tint (typedef of an arithmetic type) / fn / ptag"""
    def __init__(s, kind, val, **k): s.kind, s.val = kind, val; s.__dict__.update(k)


class G:
    def __init__(s, r, names):
        s.r, s.names = r, names
        s.sc = [dict(o={}, t={}, k='file')]
        s.out = []; s.exp = []; s.id = 0; s.uid = 0; s.fns = []; s.labels = None; s.ind = 0; s.budget = 0; s.desc = {}; s.tail = []
        s.ext = {}                     # file-scope objects with external linkage

    def u(s): s.uid += 1; return s.uid
    def w(s, t): s.out.append('  ' * s.ind + t)

    def look(s, ns, n):
        for x in reversed(s.sc):
            if n in x[ns]: return x[ns][n]

    def vis(s, ns, *kinds):
        return [n for n in s.names if (e := s.look(ns, n)) and (not kinds or e.kind in kinds)]

    def free(s, ns='o'):
        c = [n for n in s.names if n not in s.sc[-1][ns]]
        return s.r.choice(c) if c else None

    def probe_expr(s, n):
        """-> (expression, expected)"""
        e = s.look('o', n); r = s.r
        if e.kind == 'var': return r.choice((n, n, f'({n})', f'+{n}', f'*&{n}')), e.val
        if e.kind == 'enum': return r.choice((n, f'({n})', f'{n} + 0')), e.val
        if e.kind == 'arr': return r.choice((f'sizeof({n})', f'sizeof {n}', f'sizeof({n}) + 0')), e.val
        if e.kind == 'typedef': return f'sizeof({n})', e.val
        if e.kind == 'tint': return r.choice((f'KIND(({n})1)', f'KIND(*({n} *)0)', f'KIND(({n})(1))')), e.val
        if e.kind == 'fn': return r.choice((f'{n}()', f'({n})()', f'(*{n})()')), e.val

    def tag_expr(s, n):
        e = s.look('t', n)
        if e.kind == 'struct': return s.r.choice((f'sizeof({e.kw} {n})', f'sizeof({e.kw} {n}[2]) / 2')), e.val
        if e.kind == 'enumtag': return f'KIND((enum {n})1 * 1L)', 5

    def emit(s, expr, val, what=''):
        s.id += 1
        s.w(f'P({s.id}, {expr});')
        s.exp.append(f'{s.id} {val}')
        s.desc[s.id] = expr + ' ' + what

    def probes(s, k=None):
        for _ in range(k or s.r.randint(1, 4)):
            n = s.r.choice(s.names)
            if s.look('o', n): s.emit(*s.probe_expr(n))
            e = s.look('t', n)
            if e and s.r.random() < .5 and e.kind != 'inc': s.emit(*s.tag_expr(n))

    # ---- declarations
    def fields(s):
        """members that carry the names of everything else"""
        r = s.r
        ms = r.sample(s.names, r.randint(0, min(3, len(s.names))))
        return ms

    def decl(s, file=False, only=None):
        r = s.r; n = s.free()
        if n is None: return
        k = only or r.choice(('var', 'var', 'var', 'arr', 'enum', 'enum', 'typedef', 'tint', 'struct', 'struct', 'union', 'enumtag', 'proto', 'extern', 'self', 'static', 'multi', 'redecl', 'tagvar', 'anon', 'shadowtag', 'enumchain', 'typeof', 'usetypedef', 'samename', 'leak'))
        S = s.sc[-1]; v = s.u()
        st = r.choice(('', '', 'static ')) if not file else 'static '
        if k == 'var': s.w(f'{r.choice(("int", "long", "short", "const int", "unsigned"))} {n} = {v};' if not file else f'static int {n} = {v};'); S['o'][n] = Ent('var', v)
        elif k == 'static': s.w(f'static int {n} = {v};'); S['o'][n] = Ent('var', v)
        elif k == 'arr': s.w(f'{st}char {n}[{v}];'); S['o'][n] = Ent('arr', v)
        elif k == 'enum':
            c = [x for x in s.names if x not in S['o'] and x != n][:2] if r.random() < .4 else []
            s.w(f'enum {{ {n} = {v}' + ''.join(f', {x}' for x in c) + ' };'); S['o'][n] = Ent('enum', v)
            for i, x in enumerate(c): S['o'][x] = Ent('enum', v + i + 1)
        elif k == 'enumchain':
            # the enumerator is not in scope in its own value
            o = s.look('o', n)
            if o and o.kind == 'enum': s.w(f'enum {{ {n} = {n} + 1000 }};'); S['o'][n] = Ent('enum', o.val + 1000)
            elif o and o.kind in ('arr', 'typedef'): s.w(f'enum {{ {n} = sizeof({n}) + 2000 }};'); S['o'][n] = Ent('enum', o.val + 2000)
            else: s.w(f'enum {{ {n} = {v} }};'); S['o'][n] = Ent('enum', v)
        elif k == 'typedef': s.w(f'typedef char {n}[{v}];'); S['o'][n] = Ent('typedef', v)
        elif k == 'tint': t = r.choice(list(KN)); s.w(f'typedef {t} {n};' if r.random() < .7 else f'{t} typedef {n};'); S['o'][n] = Ent('tint', KN[t])
        elif k in ('struct', 'union', 'shadowtag'):
            tn = s.free('t')
            if tn is None: return
            kw = r.choice(('struct', 'union'))
            ms = s.fields(); o = s.look('t', tn)
            if k == 'shadowtag' and o and o.kind == 'struct' and kw == 'struct' and not file and r.random() < .5:
                # an inner forward declaration hides the outer tag; a pointer to it is not a pointer to the outer type
                s.w(f'struct {tn};'); a = s.u(); s.w(f'struct {tn} {{ char q[{a}]; }};'); S['t'][tn] = Ent('struct', a, kw='struct'); return
            body = ''
            if kw == 'struct':
                a = v + 3
                body = f'char q_[{a - len(ms)}]; ' + ''.join(f'char {m}; ' for m in ms) if a > len(ms) else f'char q_[{a}]; '
            else: a = v + 3; body = f'char q_[{a}]; ' + ''.join(f'char {m}; ' for m in ms)
            selfp = ''
            inner = None
            if r.random() < .25:
                # a tag declared in the member list belongs to the enclosing scope
                it = [x for x in s.names if x not in S['t'] and x != tn]
                if it:
                    it = r.choice(it); b = s.u(); inner = (it, b); body = f'struct {it} {{ char z[{b}]; }} in_; ' + body; a = a + b if kw == 'struct' else max(a, b)
            var = None
            if r.random() < .4 and not file:
                vn = s.free()
                if vn: var = vn
            td = None
            if var is None and r.random() < .3: td = s.free()
            s.w(('typedef ' if td else '') + f'{kw} {tn} {{ {body}}}' + (f' {var}' if var else f' {td}' if td else '') + ';')
            S['t'][tn] = Ent('struct', a, kw=kw)
            if inner: S['t'][inner[0]] = Ent('struct', inner[1], kw='struct')
            if var: S['o'][var] = Ent('arr', a)
            if td: S['o'][td] = Ent('typedef', a)
            if ms and a > len(ms) and not file:
                m = r.choice(ms); b = r.randint(1, 99); x = f'obj{s.u()}'
                s.w(f'{kw} {tn} {x} = {{ .{m} = {b} }};'); s.emit(r.choice((f'{x}.{m}', f'(&{x})->{m}')), b, 'member')
        elif k == 'enumtag':
            tn = s.free('t')
            if tn is None: return
            s.w(f'enum {tn} {{ {n} = {v} }};'); S['t'][tn] = Ent('enumtag', 0); S['o'][n] = Ent('enum', v)
        elif k == 'proto':
            # names in a prototype are visible only there; a tag or enumerator declared in it too
            o1, o2 = r.choice(s.names), r.choice(s.names)
            f = f'proto{s.u()}'
            s.w(r.choice((f'void {f}(int {o1}, char (*{o2}_)[sizeof({o1})]);', f'int {f}(int {o1}, int {o2 if o2 != o1 else "z_"});', f'int {f}(struct {o1} {{ char a[{v}]; }} *, int (*)(struct {o2} *));' if o1 != o2 and (not s.look('t', o2) or getattr(s.look('t', o2), 'kw', '') == 'struct') else f'int {f}(void);', f'int {f}(enum {{ {o1} = {v} }} x_, char (*y_)[{o1}]);', f'void {f}(int (*{o1})(int {o2}));')))
        elif k == 'extern':
            c = [x for x in s.ext if x not in S['o']]
            if file or not c: return
            n = r.choice(c); e = s.ext[n]
            if e.kind == 'fn': s.w(f'{r.choice(("extern ", ""))}int {n}(void);')
            else: s.w(f'extern int {n};')
            S['o'][n] = e
        elif k == 'self':
            # in scope from the end of its declarator: visible in its own initialiser, not in its own declarator
            o = s.look('o', n)
            if o and o.kind in ('arr', 'typedef') and r.random() < .6: s.w(f'{st}char {n}[sizeof({n}) + 1];'); S['o'][n] = Ent('arr', o.val + 1)
            elif o and o.kind == 'enum' and r.random() < .6 and o.val < 5000: s.w(f'{st}char {n}[{n} + 1];'); S['o'][n] = Ent('arr', o.val + 1)
            elif r.random() < .5: s.w(f'{st}int {n} = sizeof({n});'); S['o'][n] = Ent('var', 4)
            else: s.w(f'{st}long {n} = sizeof {n} * 3;'); S['o'][n] = Ent('var', 24)
        elif k == 'multi':
            m = s.free()
            m = r.choice([x for x in s.names if x not in S['o'] and x != n] or [None])
            if m is None or file: return
            # the second declarator sees the first
            s.w(f'int {n} = {v}, {m} = {n} + 7;'); S['o'][n] = Ent('var', v); S['o'][m] = Ent('var', v + 7)
        elif k == 'redecl':
            c = [x for x in S['o'] if S['o'][x].kind == 'tint' and x in s.names]
            if c and r.random() < .7:
                x = r.choice(c); s.w(f'typedef {x} {x};') if 0 else s.w(f'typedef __typeof__(({x})1) {x};')
            c = [x for x in S['t'] if S['t'][x].kind == 'struct']
            if c: x = r.choice(c); s.w(f'{S["t"][x].kw} {x};')
        elif k == 'tagvar':
            # variable named like the tag it has
            c = [x for x in s.vis('t', 'struct') if x not in S['o']]
            if c and not file: x = r.choice(c); e = s.look('t', x); s.w(f'{e.kw} {x} {x};'); S['o'][x] = Ent('arr', e.val)
        elif k == 'anon':
            # an enumerator declared inside a type name or a member declaration enters the enclosing block
            if file: s.w(f'static struct {{ enum {{ {n} = {v} }} e; }} an{s.u()};')
            else: s.w(r.choice((f'(void)sizeof(enum {{ {n} = {v} }});', f'(void)(enum {{ {n} = {v} }})1;', f'struct {{ enum {{ {n} = {v} }} e; }} an{s.u()};', f'int an{s.u()}[sizeof(enum {{ {n} = {v} }})];', f'enum {{ {n} = {v} }} an{s.u()} = {n};')))
            S['o'][n] = Ent('enum', v)
        elif k == 'typeof':
            c = s.vis('o', 'tint', 'typedef')
            if c and not file:
                x = r.choice(c); e = s.look('o', x)
                if n != x or 1:
                    s.w(f'typedef __typeof__({"(" + x + ")1" if e.kind == "tint" else x}) {n};'); S['o'][n] = Ent(e.kind, e.val)
        elif k == 'usetypedef':
            c = s.vis('o', 'typedef')
            if c and not file:
                x = r.choice(c); e = s.look('o', x)
                y = x if x not in S['o'] and r.random() < .6 else n
                s.w(r.choice((f'{x} {y};', f'{x} ({y});', f'{x} const *{y}_p, {y};', f'static {x} {y};'))); S['o'][y] = Ent('arr', e.val)
        elif k == 'samename':
            # with other type specifiers present a typedef name is the declarator
            c = [x for x in s.vis('o', 'tint', 'typedef') if x not in S['o']]
            if c and not file: x = r.choice(c); s.w(r.choice((f'unsigned {x} = {v};', f'int {x} = {v};', f'long const {x} = {v};', f'int ({x}) = {v};', f'short {x} = {v};'))); S['o'][x] = Ent('var', v)
        elif k == 'leak':
            tn = s.free('t')
            if tn and not file:
                s.w(r.choice((f'(void)sizeof(struct {tn} {{ char a[{v}]; }});', f'struct {tn} {{ char a[{v}]; }} *lk{s.u()} = 0;', f'(void)(struct {tn} {{ char a[{v}]; }} *)0;'))); S['t'][tn] = Ent('struct', v, kw='struct')

    # ---- statements
    def push(s, k): s.sc.append(dict(o={}, t={}, k=k))
    def pop(s): s.sc.pop()

    def ambiguous(s):
        """the same tokens are a declaration or an expression depending on what the name is"""
        r = s.r; c = s.vis('o')
        if not c: return
        n = r.choice(c); e = s.look('o', n); m = s.free(); S = s.sc[-1]
        if e.kind == 'var':
            x = f'zz{s.u()}'; s.w(f'{{ int {x} = 3; P({s.id + 1}, sizeof({n} * {x})); }}') if 0 else None
            s.emit(r.choice((f'({n}) + 1', f'({n}) - (-1)', f'1 + ({n})')), e.val + 1)
            s.emit(f'({n}) * 2', e.val * 2)
        elif e.kind == 'tint' and m:
            v = s.u() % 90 + 1
            k = r.random()
            if k < .4: s.w(f'{n} ({m}) = {v};'); S['o'][m] = Ent('var', v)
            elif k < .7:
                s.w(f'{n} * {m};'); S['o'][m] = Ent('arr', 8)
            else: s.emit(f'({n}) + 5', 5); s.emit(f'({n}) - 5', -5); s.emit(f'({n}) (7)', 7)
        elif e.kind == 'typedef' and m:
            if r.random() < .5: s.w(f'{n} * {m};'); S['o'][m] = Ent('arr', 8)
            else: s.w(f'{n} ({m});'); S['o'][m] = Ent('arr', e.val)
        elif e.kind == 'fn': s.emit(f'({n}) ()', e.val)
        elif e.kind == 'enum': s.emit(f'({n}) - 1', e.val - 1); s.emit(f'({n}) * 3', e.val * 3)

    def block(s, depth):
        r = s.r
        for _ in range(r.randint(1, 5)):
            if s.budget <= 0: break
            s.budget -= 1
            k = r.random()
            if k < .45: s.decl()
            elif k < .6: s.probes()
            elif k < .66: s.ambiguous()
            elif k < .7 and s.labels is not None:
                n = r.choice([x for x in s.names if x not in s.labels] or [None])
                if n:
                    s.labels.add(n); s.w(f'goto {n};'); s.w('P(-1, 0);'); s.w(f'{n}:;')
                    if r.random() < .3: s.probes(1)
            elif depth > 0: s.stmt(depth - 1)
        s.probes(r.randint(1, 3))

    def stmt(s, depth):
        r = s.r; k = r.choice(('block', 'block', 'for', 'for', 'if', 'switch', 'while', 'do', 'stmtexpr', 'forenum', 'ifenum', 'compound', 'emptyfor', 'dotag'))
        if k == 'block':
            s.w('{'); s.push('b'); s.ind += 1; s.block(depth); s.ind -= 1; s.pop(); s.w('}')
        elif k == 'for':
            n = r.choice(s.names); v = s.u(); s.push('for')
            n2 = r.choice([x for x in s.names if x != n])
            s.w(f'for (int {n} = {v}, once_ = 1; once_ && {n} == {v}; once_--) {{' if r.random() < .7 else f'for (int {n} = {v}, once_ = 1; once_ && sizeof(enum {{ {n2} = {v + 1} }}); once_--) {{')
            if 'enum' in s.out[-1]: s.sc[-1]['o'][n2] = Ent('enum', v + 1)
            s.sc[-1]['o'][n] = Ent('var', v)
            s.push('b'); s.ind += 1
            if r.random() < .7:
                if r.random() < .5 : s.emit(*s.probe_expr(n))
                w_ = s.u(); s.w(f'int {n} = {w_};'); s.sc[-1]['o'][n] = Ent('var', w_)
            s.block(depth); s.ind -= 1; s.pop(); s.pop(); s.w('}')
        elif k == 'emptyfor':
            n = r.choice(s.names); v = s.u()
            s.w(f'for (int {n} = {v}; {n} < {v}; {n}++);')
        elif k in ('if', 'ifenum'):
            n = r.choice(s.names); v = s.u(); s.push('if')
            if k == 'ifenum':
                s.w(f'if (sizeof(enum {{ {n} = {v} }}) == 4) {{'); s.sc[-1]['o'][n] = Ent('enum', v)
            else: s.w('if (1) {')
            s.push('b'); s.ind += 1; s.block(depth); s.ind -= 1; s.pop(); s.w('}')
            if k == 'ifenum' and r.random() < .5: s.w(f'else P(-1, {n});')
            s.pop()
        elif k == 'switch':
            n = r.choice(s.names); v = s.u(); s.push('sw')
            s.w(f'switch ((int)sizeof(enum {{ {n} = {v} }}) + {v} - 4) {{'); s.sc[-1]['o'][n] = Ent('enum', v)
            s.push('b'); s.ind += 1; s.w(f'case {n}:;'); s.block(depth); s.w('break; default: P(-1, 1);'); s.ind -= 1; s.pop(); s.pop(); s.w('}')
        elif k == 'while':
            x = f'wl{s.u()}'; s.w(f'int {x} = 1; while ({x}--) {{'); s.push('b'); s.ind += 1; s.block(depth); s.ind -= 1; s.pop(); s.w('}')
        elif k in ('do', 'dotag'):
            s.w('do {'); s.push('b'); s.ind += 1; s.block(depth); s.ind -= 1; s.pop()
            s.w('} while (0);')
        elif k == 'stmtexpr':
            v = s.u()
            s.w('(void)({'); s.push('b'); s.ind += 1; s.block(depth); n = s.free()
            if n: s.w(f'int {n} = {v};'); s.sc[-1]['o'][n] = Ent('var', v); s.w(f'{n};')
            else: s.w('0;')
            s.ind -= 1; s.pop(); s.w('});')
        elif k == 'compound':
            # a type declared in a compound literal's type name
            tn = s.free('t'); v = s.u()
            if tn: s.emit(f'sizeof((struct {tn} {{ char a[{v}]; }}){{ {{ 0 }} }})', v); 
            if tn: s.sc[-1]['t'][tn] = Ent('struct', v, kw='struct')

    def function(s, i):
        r = s.r
        s.labels = set()
        ps = r.sample(s.names, r.randint(0, min(4, len(s.names) - 1)))
        s.push('fn'); args = []; pl = []
        style = r.choice(('proto', 'proto', 'proto', 'knr'))
        if any((e := s.look('o', p)) and e.kind in ('tint', 'typedef') for p in ps): style = 'proto'
        outer = None
        S = s.sc[-1]
        kn = []
        for j, p in enumerate(ps):
            v = s.u(); k = r.random()
            if style == 'knr': pl.append(p); kn.append(f'{r.choice(("int", "long", "unsigned"))} {p};'); args.append(f'({kn[-1].rsplit(" ", 1)[0]}){v}'); S['o'][p] = Ent('var', v); continue
            if k < .5: pl.append(f'int {p}'); args.append(str(v)); S['o'][p] = Ent('var', v)
            elif k < .65 and j and S['o'][ps[j - 1]].kind == 'var' and S['o'][ps[j - 1]].val < 1000: pl.append(f'char (*{p})[{ps[j - 1]}]'); args.append('0'); S['o'][p] = Ent('arr', 8)     # refers to an earlier parameter
            elif k < .75:
                n2 = [x for x in s.names if x not in ps and x not in S['o']]
                if n2: n2 = n2[0]; pl.append(f'enum {{ {n2} = {v} }} {p}'); S['o'][n2] = Ent('enum', v); args.append(str(v)); S['o'][p] = Ent('var', v)
                else: pl.append(f'int {p}'); args.append(str(v)); S['o'][p] = Ent('var', v)
            elif k < .85 and p not in S['t']: pl.append(f'struct {p} {{ char a[{v}]; }} *{p}'); S['t'][p] = Ent('struct', v, kw='struct'); args.append('0'); S['o'][p] = Ent('arr', 8)
            else: pl.append(f'int {p}[3]'); args.append('0'); S['o'][p] = Ent('arr', 8)
        if style == 'knr': s.w(f'static int fun{i}({", ".join(pl)}) {" ".join(kn)} {{')
        else: s.w(f'static int fun{i}({", ".join(pl) or "void"}) {{')
        s.fns.append(f'fun{i}({", ".join(args)});')
        s.ind += 1; s.budget = r.choice((15, 30, 50)); s.block(r.choice((2, 3, 4, 5))); s.w('return 0;'); s.ind -= 1
        s.pop(); s.w('}'); s.labels = None

    def file_items(s, k):
        r = s.r
        for _ in range(k):
            q = r.random(); n = s.free()
            if n is None: return
            v = s.u()
            if q < .25: s.w(f'int {n} = {v};'); s.ext[n] = s.sc[0]['o'][n] = Ent('var', v)
            elif q < .4: s.w(f'int {n}(void) {{ return {v}; }}'); s.ext[n] = s.sc[0]['o'][n] = Ent('fn', v)
            elif q < .5:
                # one array, declared several times: any declaration with a size completes it, none loses it
                v = min(v, 4000) or 1; full = False; init = False
                for _ in range(r.randint(2, 5)):
                    f = r.choice(('e[]', 'e[]', '[]', '[]', 'e[n]', '[n]', '[n]', 'i', 'i[]'))
                    if f[0] == 'i' and init: f = '[]'
                    if f == 'e[]': s.w(f'extern char {n}[];')
                    elif f == '[]': s.w(f'char {n}[];')
                    elif f == 'e[n]': s.w(f'extern char {n}[{v}];'); full = True
                    elif f == '[n]': s.w(f'char {n}[{v}];'); full = True
                    elif f == 'i': s.w(f'char {n}[{v}] = {{ 1 }};'); full = init = True
                    else: s.w(f'char {n}[] = {{ [{v - 1}] = 1 }};'); full = init = True
                    if full and r.random() < .6: s.w(f'_Static_assert(sizeof({n}) == {v}, "");')
                if not full or r.random() < .4: s.w(f'char {n}[{v}];')
                s.sc[0]['o'][n] = Ent('arr', v)
            else: s.decl(file=True, only=r.choice(('var', 'arr', 'enum', 'typedef', 'tint', 'struct', 'enumtag', 'proto', 'anon', 'self', 'enumchain', 'redecl', 'enum')))


POOLS = [['a', 'b', 'c', 'd', 'e'], ['x', 'xx', 'xxx', 'xxxx', 'xxxxx', 'xxxxxx'], ['foo', 'fo', 'f', 'foo1', 'foo2', 'foo10'], ['_', '__x', '_a_', 'A', 'a', 'aA'], ['T', 'U', 'V', 'W', 'S', 'E', 'N', 'M'],
         ['very_long_identifier_sharing_its_prefix_' * 3 + c for c in 'abcde'], ['n$1', 'n$', '$n', 'é', 'ée'], ['ab', 'ba', 'aB', 'Ab', 'abab', 'baba', 'aabb']]


def many(r):
    """thousands of names: tables grow, blocks insert and delete, prefixes are shared"""
    n = r.choice((300, 1500, 4000)); pre = r.choice(('v', 'name_', 'x_x_', 'a' * 40))
    out = [PRE]; exp = []; i = 0
    names = [pre + (str(j) if r.random() < .7 else hex(j)[2:] + 'h') for j in range(n)]
    names = list(dict.fromkeys(names))
    val = {}
    for j, nm in enumerate(names):
        k = j % 4
        val[nm] = j + 1
        out.append([f'int {nm} = {j + 1};', f'enum {{ {nm} = {j + 1} }};', f'static int {nm} = {j + 1};', f'enum E{nm} {{ {nm} = {j + 1} }}; struct {nm} {{ char a[{j + 1}]; }};'][k])
    calls = []
    for f in range(6):
        out.append(f'static void fun{f}(void) {{'); sc = [dict(val)]

        def probe(m):
            nonlocal i
            for nm in r.sample(names, m):
                i += 1; out.append(f'P({i}, {nm});'); exp.append(f'{i} {sc[-1][nm]}')
        for _ in range(r.randint(3, 12)):
            k = r.random()
            if k < .4 and len(sc) < 8:
                out.append('{'); sc.append(dict(sc[-1]))
                for nm in r.sample(names, r.choice((1, 20, min(300, len(names))))): v = r.randint(10000, 99999); out.append(r.choice((f'int {nm} = {v};', f'enum {{ {nm} = {v} }};'))); sc[-1][nm] = v
            elif k < .6 and len(sc) > 1: out.append('}'); sc.pop()
            probe(r.choice((2, 10)))
        probe(5)
        while len(sc) > 1: out.append('}'); sc.pop(); probe(3)
        out.append('}'); calls.append(f'fun{f}();')
    out.append('int main(void) { ' + ' '.join(calls) + ' return 0; }')
    return '\n'.join(out) + '\n', exp + ['exit 0'], {}


def program(r):
    if r.random() < .03: return many(r)
    g = G(r, list(r.choice(POOLS)))
    g.file_items(r.randint(1, 4))
    for i in range(6):
        g.function(i)
        g.file_items(r.randint(0, 1))
    g.w('int main(void) {'); g.labels = None; g.ind = 1
    for f in g.fns: g.w(f)
    g.probes(3); g.w('return 0;'); g.w('}')
    return PRE + '\n'.join(g.out) + '\n', g.exp + ['exit 0'], g.desc


VARIANTS = [[], ['-O0'], ['-fno-pic', '-no-pie'], ['-g', '-fstack-reuse=none']]


def check(ctx):
    ctx.rule = 'distinct = distinct programs (histories of scopes); events = uses whose declaration was reported at run time'
    ctx.assumptions = ['the scope model is written from C11 6.2.1-6.2.3; gcc and clang have to agree with it for a difference to count']
    slim = ctx.build('plain')
    D = Diff(ctx, slim, std_ref=('-std=gnu17',))

    def one(idx):
        res = Res(); r = ctx.rng(idx)
        src, exp, desc = program(r)
        D.go(res, 'scope', {'t.c': src}, [r.choice(VARIANTS)], expected=exp, describe=lambda k: 'use: ' + desc.get(int(k), '?'))
        res.distinct = {h(src)}
        if idx == 0: res.sample = dict(source=src[:600])
        return res
    ctx.pmap(one, range(ctx.n(4000, 30000)))


if __name__ == '__main__':
    main('C17', check, min_events=10000, min_distinct=500)
