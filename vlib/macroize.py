"""Rewrites a C source into one with the same preprocessed token sequence but a very different preprocessing route."""
import re
from .pptok import RX

IDR = re.compile(r'[A-Za-z_][A-Za-z0-9_]*$')


# names a system header can define as macros: a half of a split identifier must not be one
MACROISH = re.compile(r'([A-Z_0-9]+|linux|unix|i386|stdin|stdout|stderr|errno|assert|alloca|bool|true|false|complex|isnan|isinf|signbit|offsetof|va_\w*|and|or|not|xor|compl|static_assert|thread_local|noreturn|alignas|alignof|defer)$')


def lines(text):
    """[(is_directive, logical line)] with continuation lines joined to their directive"""
    out, cur = [], None
    for l in text.split('\n'):
        if cur is not None:
            cur += '\n' + l
            if not l.endswith('\\'): out.append((True, cur)); cur = None
            continue
        if l.lstrip().startswith('#'):
            if l.endswith('\\'): cur = l
            else: out.append((True, l))
        else: out.append((False, l))
    if cur is not None: out.append((True, cur))
    return out


def macroize(r, text, rate=.25, pragmas=False, keep=()):
    """Requires: no string/char literal or comment spanning physical lines outside directives."""
    defs = ['#define ID(x) x', '#define ID2(...) __VA_ARGS__', '#define SEQ(a, b) a b', '#define CAT_(a, b) a##b', '#define CAT(a, b) CAT_(a, b)', '#define NIL', '#define NILF()', '#define SEQ2(a, b) ID(a)ID(b)',
                  '#define APP(f, ...) f(__VA_ARGS__)', '#define OPT(a, ...) a __VA_OPT__(__VA_ARGS__)', '#define GNU_(a, b...) a, ##b']
    tab = {}
    depth = 0
    body = []
    fnlike = set(re.findall(r'#\s*define\s+(\w+)\(', text)) | {'__VA_ARGS__', '_Pragma', 'defined', '__has_include'}

    # object-like macros that expand to a comma or a call do not survive being a macro argument
    objs = dict(re.findall(r'^[ \t]*#[ \t]*define[ \t]+(\w+)[ \t]+(.*)$', text.replace('\\\n', ' '), re.M))
    hot = {n for n, b in objs.items() if re.search(r'[,()]', b)}
    while True:
        more = {n for n, b in objs.items() if n not in hot and hot & set(re.findall(r'\w+', b))}
        if not more: break
        hot |= more
    fnlike |= hot

    if '#include' in text: fnlike |= set(re.findall(r'([A-Za-z_]\w*)\s*\(', text))

    def mac(t):
        if t not in tab:
            n = f'T{len(tab)}_'
            tab[t] = n
            k = r.random()
            if k < .6: defs.append(f'#define {n} {t}')
            elif k < .8: defs.append(f'#define {n}a {t}\n#define {n} ID({n}a)')
            elif IDR.match(t) and len(t) > 2:
                i = r.randrange(1, len(t))
                if IDR.match(t[:i]) and re.match(r'\w+$', t[i:]): defs.append(f'#define {n} CAT_({t[:i]}, {t[i:]})')
                else: defs.append(f'#define {n} {t}')
            else: defs.append(f'#define {n} NIL {t} /* */ NIL')
        return tab[t]

    for isd, l in lines(text):
        if isd: body.append(l); continue
        ts = [(m.lastgroup, m.group()) for m in RX.finditer(l) if m.lastgroup not in ('ws', 'cm')]
        out = []
        i = 0
        while i < len(ts):
            g, t = ts[i]
            k = r.random()
            simple = t not in ('(', ')', ',', '#') and t not in fnlike and t not in keep
            if k > rate or t in fnlike: out.append(t); i += 1; continue
            k /= rate
            if not simple: out.append(t + r.choice(('', ' NIL', '\n', ' /* c */', '\\\n')))
            elif k < .3: out.append(mac(t))
            elif k < .45: out.append(f'ID({t})')
            elif k < .6 and i + 1 < len(ts) and ts[i + 1][1] not in ('(', ')', ',', '#') and ts[i + 1][1] not in fnlike and ts[i + 1][1] not in keep:
                out.append(r.choice(('SEQ({},{})', 'SEQ2({},{})', 'SEQ( {}\n, {} )', 'ID2({} {})', 'ID({}\n{})', 'ID(ID({}) {})', 'OPT({}, {})')).format(t, ts[i + 1][1])); i += 1
            elif k < .7 and g == 'id' and len(t) > 2 and IDR.match(t) and '$' not in t:
                j = r.randrange(1, len(t))
                a, b = t[:j], t[j:]
                out.append(f'CAT({a},{b})' if a not in tab.values() and not a in ('u8', 'T') and a not in fnlike and b not in fnlike and IDR.match(a) and re.match(r'\w+$', b) and not re.match(r'[0-9]+$', a) and not MACROISH.match(a) and not MACROISH.match(b) else t)
            elif k < .78: out.append(t + r.choice(('\n', ' NIL', ' NILF()', ' /* c\n */', ' // c\n', '\\\n', '\n\n\n')))
            elif k < .84 and g in ('id', 'num', 'str') and len(t) > 1 and '\\' not in t:
                j = r.randrange(1, len(t)); out.append(t[:j] + '\\\n' + t[j:])
            elif k < .9: out.append('ID2(' + t + ')')
            else: out.append('NIL ' + t)
            i += 1
        s = ''
        for o in out:
            if s and glue(s, o): s += ' '
            elif s and r.random() < .3: s += ' '
            s += o
        # a line must not start with '#'
        body.append(s)
    # definitions first, in random order among themselves (order is irrelevant)
    r.shuffle(defs)
    return '\n'.join(defs) + '\n' + '\n'.join(body) + '\n'


def glue(s, o):
    while s.endswith('\\\n'): s = s[:-2]
    while o.startswith('\\\n'): o = o[2:]
    if not s or not o: return False
    a, b = s[-1], o[0]
    if a == '\n': return False
    if (a.isalnum() or a in '_$"\'\\' or ord(a) > 127) and (b.isalnum() or b in '_$."\'\\' or ord(b) > 127): return True
    if a == '.' and (b.isdigit() or b == '.'): return True
    if a in '+-' and len(s) > 1 and s[-2] in 'eEpP': return True
    if a.isalnum() and b in '+-' and a in 'eEpP': return True
    return a in '+-*/%&|^<>=!.#:?~' and b in '+-*/%&|^<>=.#:'
