"""C11: literals (byte dumps and type codes of every literal, compared with gcc and clang)."""
import os, sys, struct
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib.diff import Diff

PRE = r'''
extern int printf(const char *, ...);
static void dump(const char *id, const char *ty, const void *p, unsigned long n) { const unsigned char *c = p; printf("%s %s %lu ", id, ty, n); for (unsigned long i = 0; i < n; i++) printf("%02x", c[i]); printf("\n"); }
#define TY(e) _Generic((e), _Bool: "bool", char: "char", signed char: "schar", unsigned char: "uchar", short: "short", unsigned short: "ushort", int: "int", unsigned: "uint", long: "long", unsigned long: "ulong", long long: "llong", unsigned long long: "ullong", float: "float", double: "double", long double: "ldouble", \
  char *: "char*", const char *: "cchar*", unsigned char *: "uchar*", int *: "int*", unsigned short *: "ushort*", unsigned *: "uint*", default: "?")
#define I(id, e) do { static const unsigned long long s_ = (e); unsigned long long v_ = (e); __typeof__(e) w_ = (e); printf(id " %s %d %llx %llx %d %llx\n", TY(e), (int)sizeof(e), s_, v_, (e) < 0, (unsigned long long)w_); } while (0)
#define FF(id, e) do { static const float s_ = (e); float v_ = (e); dump(id, TY(e), &s_, 4); dump(id "r", TY(e), &v_, 4); printf(id "z %d\n", (int)sizeof(e)); } while (0)
#define FD(id, e) do { static const double s_ = (e); double v_ = (e); dump(id, TY(e), &s_, 8); dump(id "r", TY(e), &v_, 8); printf(id "z %d\n", (int)sizeof(e)); } while (0)
#define FL(id, e) do { static const long double s_ = (e); long double v_ = (e); dump(id, TY(e), &s_, 10); dump(id "r", TY(e), &v_, 10); printf(id "z %d\n", (int)sizeof(e)); } while (0)
#define S(id, e) do { dump(id, TY(e), e, sizeof(e)); printf(id "n %d %d\n", (int)(sizeof(e) / sizeof((e)[0])), (int)sizeof((e)[0])); } while (0)
#define SA(id, t, e) do { static t a_[] = e; t b_[] = e; static t c_[sizeof(e) / sizeof((e)[0]) - 1] = e; static t d_[sizeof(e) / sizeof((e)[0]) + 3] = e; static const t *p_ = e; dump(id, "a", a_, sizeof a_); dump(id "b", "b", b_, sizeof b_); dump(id "c", "c", c_, sizeof c_); dump(id "d", "d", d_, sizeof d_); dump(id "p", "p", p_, sizeof(e)); } while (0)
'''

BND = [0, 1, 7, 8, 9, 10, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 0x7ffffffe, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff, 0x100000000, 0x7ffffffffffffffe, 0x7fffffffffffffff, 0x8000000000000000, 0x8000000000000001, 0xfffffffffffffffe, 0xffffffffffffffff]


def sep(r, d, on):
    if not on or len(d) < 2 or r.random() < .5: return d
    out = d[0]
    for c in d[1:]:
        if r.random() < .3: out += "'"
        out += c
    return out


def rc(r, s): return ''.join(c.upper() if r.random() < .5 else c.lower() for c in s)


def integer(r, c23):
    v = r.choice(BND) if r.random() < .5 else r.getrandbits(r.randint(1, 64))
    if r.random() < .15: v = max(0, min(2 ** 64 - 1, r.choice(BND) + r.randint(-3, 3)))
    base = r.choice((10, 16, 8, 2))
    suf = r.choice(('', '', '', 'u', 'l', 'ul', 'lu', 'll', 'ull', 'llu'))
    if suf:
        out = ''
        for ch in suf.replace('ll', 'W'):
            out += r.choice(('ll', 'LL')) if ch == 'W' else r.choice((ch, ch.upper()))
        suf = out
    if base == 10:
        if v >= 2 ** 63 and 'u' not in suf.lower(): v >>= 1   # no type in standard C
        t = sep(r, str(v), c23)
    elif base == 16: t = r.choice(('0x', '0X')) + sep(r, '0' * r.choice((0, 0, 0, 3)) + rc(r, f'{v:x}'), c23)
    elif base == 8: t = '0' + ("'" if c23 and r.random() < .1 else '') + sep(r, f'{v:o}', c23) if v else r.choice(('0', '00', '000'))
    else: t = r.choice(('0b', '0B')) + sep(r, f'{v:b}', c23)
    return t + suf


def digits(r, n): return ''.join(r.choice('0123456789') for _ in range(n))


def floating(r, c23):
    kind = r.choice(('f', 'd', 'd', 'l'))
    suf = {'f': r.choice('fF'), 'd': '', 'l': r.choice('lL')}[kind]
    maxe, mine = {'f': (37, -46), 'd': (307, -325), 'l': (4930, -4952)}[kind]
    k = r.random()
    if k < .3:
        # halfway between neighbours, and just around it, printed exactly
        mb, eb = {'f': (24, 40), 'd': (53, 60), 'l': (64, 40)}[kind]
        m = r.getrandbits(mb) | (1 << (mb - 1))
        e = r.randint(-eb, eb)
        n = 2 * m + 1
        e -= 1
        num = n * 2 ** e if e >= 0 else None
        if num is not None: t = str(num) + '.'
        else:
            q = n * 10 ** (-e) >> (-e) if False else n * 5 ** (-e)
            s = str(q).rjust(-e + 1, '0')
            t = s[:len(s) + e] + '.' + s[len(s) + e:]
        if r.random() < .5:
            t += '0' * r.randint(0, 20) + r.choice('123')
        if len(t) > 200: t = t[:200]
        return t + suf, kind
    if k < .55:
        t = r.choice(('0x', '0X'))
        a, b = rc(r, f'{r.getrandbits(r.choice((4, 8, 32, 64, 80))):x}'), rc(r, f'{r.getrandbits(r.choice((4, 16, 60, 70, 120))):x}')
        if kind == 'f' and r.random() < .5: a, b = '1', f'{r.getrandbits(24):06x}' + r.choice(('80000000', '8', '7fffffffffff', '80000000000001', '8000000000000000000001'))
        if kind == 'd' and r.random() < .5: a, b = '1', f'{r.getrandbits(52):013x}' + r.choice(('8', '80', '7fffffff', '8000000000001', '80000000000000000000000001'))
        sh = r.random()
        m = a if sh < .2 else a + '.' if sh < .3 else '.' + b if sh < .4 else a + '.' + b
        if sh < .3 and c23: m = sep(r, a, True) + m[len(a):]
        e = r.randint({'f': -150, 'd': -1075, 'l': -16440}[kind], {'f': 60, 'd': 700, 'l': 16000}[kind]) if r.random() < .5 else r.randint(-20, 20)
        return t + m + r.choice('pP') + r.choice(('', '+') if e >= 0 else ('',)) + str(e) + suf, kind
    a, b = digits(r, r.choice((1, 1, 2, 5, 15, 17, 20, 40))), digits(r, r.choice((0, 1, 3, 8, 17, 25, 60)))
    sh = r.random()
    e = ''
    if r.random() < .6 or sh < .2:
        lo, hi = mine - len(a), maxe - len(a)
        x = r.randint(lo, hi) if r.random() < .5 else r.randint(-20, 20)
        x = min(x, hi)
        e = r.choice('eE') + r.choice(('', '+') if x >= 0 else ('',)) + str(x)
    if sh < .2: t = a
    elif sh < .4: t = a + '.'
    elif sh < .55 and b: t = '.' + b
    else: t = sep(r, a, c23) + '.' + sep(r, b, c23)
    return t + e + suf, kind


UCN = True
SPECIAL = ['é', 'ß', 'λ', 'Ж', '中', '文', '한', '€', '‰', '\u07ff', '\u0800', '\ud7ff', '\ue000', '\ufffd', '\uffff', '\U00010000', '😀', '𝄞', '\U0010ffff', '\u00a0', '\u0080', '\u202e', '\ufeff', 'İ', 'ǆ', '\u0300']


def piece(r, pfx, c23):
    """one source piece of a string literal body; values valid for the prefix"""
    k = r.random()
    if k < .25: return r.choice('abcxyzABC0123456789 !#$%&()*+,-./:;<=>@[]^_`{|}~')
    if k < .33: return r.choice("?'")
    if k < .45: return '\\' + r.choice('abtnvfr\\\'"?')
    if k < .48: return '\\e'
    if k < .58:
        n = r.randint(1, 3)
        v = r.randint(0, {1: 7, 2: 63, 3: 255}[n])
        return '\\' + format(v, 'o').rjust(n, '0') + r.choice('@8z ' if n < 3 else '@')[:1 if n < 3 else r.randrange(2)]
    if k < .68:
        m = {'': 255, 'u8': 255, 'u': 65535, 'U': 2 ** 32 - 1, 'L': 2 ** 32 - 1}[pfx]
        v = r.choice((0, 1, 0x7f, 0x80, 0xff, m, m >> 1, (m >> 1) + 1, r.randint(0, m), r.randint(0, 255)))
        return '\\x' + '0' * r.choice((0, 0, 1, 4)) + rc(r, f'{min(v, m):x}') + '@G'[r.randrange(2)]
    if k < (.8 if UCN else .93):
        c = r.choice(SPECIAL)
        return c
    if k < .93:
        c = ord(r.choice(SPECIAL)) if r.random() < .6 else r.choice((r.randint(0xa0, 0xd7ff), r.randint(0xe000, 0xffff), r.randint(0x10000, 0x10ffff), 0x24, 0x40, 0x60))
        if c < 0xa0 and c not in (0x24, 0x40, 0x60): c = 0xa1
        if c < 0x10000 and r.random() < .6: return '\\u' + rc(r, f'{c:04x}')
        return '\\U' + rc(r, f'{c:08x}')
    if k < .96: return '\\\\' + r.choice((() if not UCN else ('\\u00e9', '\\\\u00e9')) + ('u00e9', 'U0001F600', 'n', 'x41', '0', 'uZZ'))
    if k < .98: return '\\\n'
    return r.choice(('/*', '//', '\t', '%s', '??/', '??=', '#', '\\"\\"'))


def string(r, pfx, c23):
    n = r.choice((0, 1, 2, 3, 5, 8, 20))
    if r.random() < .03: n = r.choice((200, 1000))
    return ''.join(piece(r, pfx, c23) for _ in range(n)).replace('\\x', '\\x')


def strlit(r, c23):
    """one or more adjacent literals; returns (text, element type name)"""
    pfx = r.choice(('', '', 'L', 'u', 'U', 'u8' if not c23 else ''))
    n = r.choice((1, 1, 1, 2, 2, 3, 4))
    parts, cand = [], []
    for i in range(n):
        p = r.choice((pfx, pfx, ''))
        if i == n - 1 and pfx and pfx not in cand: p = pfx
        cand.append(p)
        if p == '' and pfx:
            # escapes of an unprefixed piece keep their value in the wide type; stay inside char range
            parts.append('"' + string(r, '', c23) + '"')
        else: parts.append(p + '"' + string(r, p, c23) + '"')
    return r.choice((' ', '', '\n', ' /* c */ ', '\\\n')).join(parts), {'': 'char', 'u8': 'char', 'L': 'int', 'u': 'unsigned short', 'U': 'unsigned'}[pfx], pfx


def charlit(r):
    pfx = r.choice(('', '', 'L', 'u', 'U'))
    while True:
        p = piece(r, pfx, False)
        if p.startswith('\\x'): p = p[:-1]
        if p[0] == '\\' and p[1].isdigit(): p = p.rstrip('@8z ')
        if '\\\n' in p or p.startswith('\\\\u') or p.startswith('\\\\U') or len(p) > 1 and p[0] != '\\' or (p.startswith('\\\\') and p != '\\\\') or p in ('\\"\\"',): continue
        if p == "'" : p = "\\'"
        if p[0] == '\\' and p[1] in 'uU':
            c = int(p[2:], 16)
        else: c = ord(p) if len(p) == 1 else 0
        if pfx == '' and c > 127: continue
        if pfx == 'u' and c > 65535: continue
        return pfx + "'" + p + "'"


def program(r, n, c23):
    body, desc = [], {}
    for i in range(n):
        k = r.random()
        if k < .3:
            x = integer(r, c23)
            body.append(f'I("{i}", {x});')
            if r.random() < .3:
                body.append(f'#if {x} > 0x7fffffff && {x} != {integer(r, c23)}\n printf("{i}p 1\\n");\n#else\n printf("{i}p 0\\n");\n#endif')
        elif k < .5:
            x, kd = floating(r, c23)
            body.append(f'{dict(f="FF", d="FD", l="FL")[kd]}("{i}", {x});')
        elif k < .85:
            x, ty, pfx = strlit(r, c23)
            body.append(f'S("{i}", {x});')
            if r.random() < .4: body.append(f'SA("{i}q", {ty}, {x});')
            if r.random() < .2: body.append(f'{{ static {ty} z_[2][sizeof({x}) / sizeof({ty}) + 1] = {{ {x}, {{ {x} }} }}; dump("{i}y", "2", z_, sizeof z_); }}')
            if r.random() < .15 and not x.startswith('"'): body.append(f'printf("{i}e %lld\\n", (long long)(({x})[0] < 0) * 2 + (({x})[sizeof({x}) / sizeof({ty}) - 1] == 0));')
        else:
            x = charlit(r)
            body.append(f'I("{i}", {x});')
            if r.random() < .3: body.append(f'#if {x} < 0 || {x} == 65\n printf("{i}p 1\\n");\n#else\n printf("{i}p 0\\n");\n#endif')
        desc[i] = x
    out = [PRE]
    # extended identifiers: UTF-8 spelling and universal character names denote the same name
    ids = []
    for j in range(4):
        c = r.choice('éßλЖ中文한')
        ids.append((f'v{c}{j}', f'v{c}{j}' if not UCN else f'v\\u{ord(c):04x}{j}' if r.random() < .6 else f'v\\U{ord(c):08x}{j}'))
    for a, b in ids: out.append(f'static int {r.choice((a, b))} = {r.randint(1, 99)};')
    body.append('printf("ids' + ' %d' * 4 + '\\n", ' + ', '.join(r.choice(p) for p in ids) + ');')
    k = max(1, len(body) // 3)
    fns = []
    for j in range(0, len(body), k):
        out.append(f'static void t{j}(void) {{\n' + '\n'.join(body[j:j + k]) + '\n}')
        fns.append(f't{j}();')
    out.append('int main(void) { ' + ' '.join(fns) + ' return 0; }')
    src = '\n'.join(out) + '\n'
    if r.random() < .2: src = src.replace('\n', '\r\n')
    if r.random() < .1: src = '\ufeff' + src
    return src.encode('utf-8', 'surrogatepass'), desc


def check(ctx):
    ctx.rule = ('random integer, floating, character and string literals (all bases, suffixes, separators, halfway floating values, escapes, universal characters (with -fenable-universal-char), raw UTF-8 of every length, prefixes, mixed concatenation, continuation lines, CRLF, BOM); '
                'type, size and every byte (static and run-time copies, array initialisers) logged; gcc and clang must agree; non-trivial: distinct logs')
    slim = ctx.build('plain')
    A = Diff(ctx, slim, common=('-w', '-std=c23'), std_ref=('-std=gnu2x',), san=False)
    B = Diff(ctx, slim, common=('-w', '-std=c17'), std_ref=('-std=gnu17',), san=False)

    def one(idx):
        res = Res()
        r = ctx.rng(idx)
        global UCN
        c23 = bool(idx % 2)
        UCN = idx % 3 > 0
        src, desc = program(r, 60, c23)

        def describe(k):
            m = re.match(r'\d+', k)
            return desc[int(m.group())] if m else ''
        (A if c23 else B).go(res, f't{idx}', {'t.c': src}, [([], ['-O0'])[idx % 4 // 2] + (['-fenable-universal-char'] if UCN else [])], describe=describe)
        if idx == 0: res.sample = {'literals': [desc[i] for i in range(8)]}
        return res
    ctx.pmap(one, range(ctx.n(900, 5000)))


if __name__ == '__main__':
    main('C11', check, min_events=10000, min_distinct=100)
