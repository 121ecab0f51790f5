"""R01: no input makes the compiler misbehave.  Valid programs of every generator, the ill-formed fragments of R03, macro cases, the repository's own test sources and hand-written
hostile shapes (deep nesting, long tokens and lists, huge expansions, odd bytes) are cut, spliced, repeated, truncated and mutated token- and byte-wise and fed to the
address+undefined-behaviour sanitised compiler (freed tokens and recycled arenas are really freed in that build) and to a plain build under memory and time limits."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
from vlib import corpus

TOK = re.compile(r'[ \t]*(?:\n[ \t]*)*(?:"(?:\\.|[^"\n\\])*"|\'(?:\\.|[^\'\n\\])*\'|[A-Za-z_]\w*|\.?\d(?:[eEpP][+-]|[\w.])*|<<=|>>=|\.\.\.|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%&|^]=|##|/\*.*?\*/|//[^\n]*|.)', re.S)
# text handed to the assembler as it is
DANGER = re.compile(r'\b__?asm(?:__)?\b|\basm\b')
NUM = ['0', '1', '2', '3', '7', '8', '31', '32', '33', '63', '64', '65', '100', '127', '128', '255', '256', '4095', '65535', '65536', '2147483647', '2147483648', '4294967295', '4294967296', '9223372036854775807',
       '9223372036854775808u', '18446744073709551615u', '99999999999999999999999', '0x', '0b', '0b2', '08', '1e', '1e+', '0x1p', '0x1p9999', '1e400', '1e-400', '1.f', '.5L', '0x.8p1', '1u1', '1wb', "1'2", "1''2", '-1', '(-1)', '1ull', '1.0i', '0f', '1.2.3']
WORD = '''auto break case char const continue default do double else enum extern float for goto if inline int long register restrict return short signed sizeof static struct switch typedef union unsigned void
volatile while _Alignas _Alignof _Atomic _Bool _Complex _Decimal64 _Generic _Imaginary _Noreturn _Static_assert _Thread_local alignas alignof bool constexpr false nullptr static_assert thread_local true typeof
typeof_unqual _Defer defer __attribute__ __typeof__ __auto_type __builtin_va_list __builtin_va_start __builtin_va_arg __builtin_va_end __builtin_va_copy __builtin_alloca __builtin_constant_p
__builtin_types_compatible_p __builtin_offsetof __builtin_expect __builtin_compare_and_swap __builtin_atomic_exchange __builtin_frame_address __builtin_reg_class __extension__ __func__ __FUNCTION__ __real__
__label__ __int128 __VA_ARGS__ __VA_OPT__ __LINE__ __FILE__ __COUNTER__ __INCLUDE_LEVEL__ __has_include __has_embed __has_attribute __has_c_attribute __has_builtin defined _Pragma __DATE__ __BASE_FILE__
_Float16 _BitInt __thread __inline __const__ __volatile__ __alignof__ __restrict __signed__ main x y a b s p f i n st arr fp S T E'''.split()
PUN = list('{}()[];,.<>?:=+-*/%&|^~!#\\"\'@$`') + ['->', '++', '--', '<<', '>>', '<=', '>=', '==', '!=', '&&', '||', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>=', '...', '##', '::', '[[', ']]']
PHRASE = ['__attribute__((packed))', '__attribute__((aligned(8)))', '__attribute__((aligned(0)))', '__attribute__((aligned(3)))', '__attribute__((cleanup(f)))', '__attribute__((mode(DI)))', '__attribute__((vector_size(16)))', '__attribute__((alias("main")))',
          '__attribute__((constructor(101)))', '__attribute__((section("x")))', '__attribute__((weak))', '__attribute__((', '[[gnu::packed]]', '[[noreturn]]', '[[a::b(c[d{e}])]]', 'struct { int a : 3; int : 0; long b : 40; }', 'struct S { struct S *s; int f[]; }',
          'union { int a; float b; }', 'enum { A, B = 3 }', 'enum E : char { C }', 'enum E : S', 'typeof(x)', 'typeof(int[n])', 'int (*)(int, ...)', 'int [n]', 'int [static 3]', 'int [*]', '(int[]){ 1, 2 }', '(struct S){ .a = 1 }', '{ [0 ... 3] = 1 }', '{ [2].a.b[1] = 3 }', '({ 1; })',
          '({ int q = 1; if (q) q = 2; })', '({ struct S { int b : 3; } z; z; }).b', '({ ; })', '({})', '_Generic(x, int: 1, default: 2)', '_Generic(0, default: _Generic(1, int: 2))', 'sizeof(int[n++])', '&&lab', 'goto *p;', 'goto lab;', 'lab:', 'case 1:', 'case 1 ... 5:', 'default:', 'switch (x) {', 'for (;;)', 'do', 'while (0)',
          'if (0)', 'else', 'return;', 'return x;', 'defer x++;', '_Static_assert(1, "a");', 'static_assert(0);', 'typedef int T;', 'T T;', 'int T;', 'extern int x;', 'static int x;', 'x()', 'x[0]', 'x->a', 'x.a', '*x', '&x', '!x', '~x', '-x', '(int)x', '(void)x', '(struct S)x', '(T)', '?:', '? 1 : 2', '= {}', '= {0}', '= { .a = 1, 2 }', '= "abc"', '= L"ab"', 'u8"\\u00e9"', '"\\x"', '"\\777"', '"\\u12"', '"\\U00110000"', "'ab'", "L'\\xffffffff'", "''", '"unterminated',
          '\n#define x y\n', '\n#define f(a, b...) a##b #a __VA_OPT__(x)\n', '\n#define f(a) f(a) a\n', '\n#undef x\n', '\n#if x\n', '\n#if 1 / 0\n', '\n#if 1 ? 2 : (3, 4)\n', '\n#elif 0\n', '\n#else\n', '\n#endif\n', '\n#ifdef\n', '\n#ifndef x\n', '\n#include "t.c"\n', '\n#include "nosuch.h"\n', '\n#include <stddef.h>\n', '\n#include x\n', '\n#include_next <stdarg.h>\n', '\n#embed "t.c"\n',
          '\n#embed "t.c" limit(2) prefix(1,) suffix(,3) if_empty(4)\n', '\n#embed __FILE__ limit(\n', '\n#line 5 "z"\n', '\n#line x\n', '\n# 33 "q" 3\n', '\n#pragma once\n', '\n#pragma pack(push, 1)\n', '\n#pragma push_macro("x")\n', '\n#pragma pop_macro("x")\n', '\n#error\n', '\n#warning w\n', '\n#\n', '\n#nosuch\n', '_Pragma("once")', '_Pragma(L"x")', '_Pragma(', 'x ## y', '__VA_OPT__(', 'defined(x)', 'defined', '__has_include("t.c")', '__has_include(', '__has_embed("t.c" limit(1))',
          'f(', 'f(x', 'f()', 'f(,)', 'f(f)(f)', '/*', '*/', '//', '\\\n', '??/\n', 'va_arg(x, int)', '__builtin_va_arg(x, struct S)', '__builtin_offsetof(struct S, a[1].b)', '__builtin_types_compatible_p(int, T)', '__builtin_constant_p(x)', '__builtin_alloca(x)', '__builtin_atomic_exchange(x, 1)', '__builtin_compare_and_swap(x, y, 1)', '__func__', 'constexpr int z = 3;', 'auto q = x;', '__auto_type q = &x;',
          'thread_local static int q;', 'alignas(16)', '_Alignas(int)', 'alignas(0)', '_Atomic(int)', '_Atomic int', 'long double', 'unsigned long long', 'short', 'float', '_Bool', 'void', 'register', 'inline', 'const', 'volatile', 'restrict', 'int : 3', 'int a : 65;', 'int (a)', 'int *(*(*a)[3])(void)', 'a, b', '(a, b) int a; double b; {', '(void)', '(...)', '(int, ...)', '(int a[n], int n)', 'K(a) struct S a; { }']


def words_of_source():
    """every identifier-like string the compiler itself compares against"""
    out = set()
    for f in os.listdir(REPO):
        if f.endswith(('.c', '.h')): out |= set(re.findall(r'"([A-Za-z_][A-Za-z_0-9]{1,30})"', open(os.path.join(REPO, f), errors='replace').read()))
    return sorted(out)


def toks(t): return TOK.findall(t)


def mutate(r, t, other, words):
    """token-level mutation"""
    T = toks(t)
    if not T: return t
    for _ in range(r.choice((1, 1, 1, 2, 3, 5, 9))):
        n = len(T); i = r.randrange(n) if n else 0
        k = r.randrange(15)
        if k == 0: del T[i:i + r.choice((1, 1, 2, 5))]
        elif k == 1: T.insert(i, T[r.randrange(n)] if n else ';')
        elif k == 2 and n > 1: j = r.randrange(n); T[i:i + 1], T[j:j + 1] = T[j:j + 1], T[i:i + 1]
        elif k == 3: T.insert(i, ' ' + r.choice(WORD))
        elif k == 4: T.insert(i, ' ' + r.choice(PUN))
        elif k in (5, 6, 7): T.insert(i, ' ' + r.choice(PHRASE) + ' ')
        elif k == 8:
            c = [j for j in range(n) if re.match(r'\s*\.?\d', T[j])]
            if c: T[r.choice(c)] = ' ' + r.choice(NUM)
        elif k == 9:
            c = [j for j in range(n) if re.match(r'\s*[A-Za-z_]', T[j])]
            if c: T[r.choice(c)] = ' ' + r.choice((r.choice(WORD), r.choice(words), T[r.choice(c)].strip()))
        elif k == 10:
            c = [j for j in range(n) if re.match(r'\s*[^\w\s"\']', T[j])]
            if c: T[r.choice(c)] = r.choice(PUN)
        elif k == 11:
            O = toks(other)
            if O: j = r.randrange(len(O)); T[i:i + r.choice((0, 0, 1, 3))] = O[j:j + r.choice((1, 3, 8, 30, 100))]
        elif k == 12: j = min(n, i + r.choice((2, 5, 20))); T[i:i] = T[i:j] * r.choice((1, 1, 2, 20))
        elif k == 13: T[i:] = [] if r.random() < .4 else T[i:]
        else: T.insert(i, '(' + r.choice(('int', 'char', 'struct S', 'float', 'void', 'long double', '_Bool', 'T', 'int *', 'typeof(x)')) + ')')
        if not T: T = [';']
    return ''.join(T)


def bytemut(r, b):
    b = bytearray(b)
    for _ in range(r.choice((1, 1, 2, 4, 10))):
        i = r.randrange(len(b) + 1)
        k = r.randrange(8)
        if k == 0 and i < len(b): b[i] ^= 1 << r.randrange(8)
        elif k == 1: b[i:i] = bytes(r.choice((b'\0', b'\xff', b'\x80', b'\xc3', b'\xe2\x80', b'\xf0\x9f\x98\x80', b'\xef\xbb\xbf', b'\r', b'\r\n', b'\f', b'\v', b'\x1b', b'\\', b'\\\n', b'"', b"'", b'\\u', b'\\U', b'\xc0\x80', b'\xed\xa0\x80')))
        elif k == 2: del b[i:i + r.choice((1, 2, 8, 40))]
        elif k == 3: b[i:i] = b[i:i + r.choice((4, 30))] * r.choice((1, 3, 40))
        elif k == 4 and i < len(b): b[i] = r.randrange(256)
        elif k == 5: del b[i:]
        elif k == 6: b[i:i] = bytes([r.randrange(256)])
        else: b[i:i] = b'\n'
    return bytes(b)


def hostile(r):
    """big, deep or odd, but with an expansion proportional to the size"""
    n = r.choice((3, 20, 100, 300, 1000))
    w = r.choice((10, 255, 256, 4000, 4064, 4080, 5000, 20000))
    ds = [
        lambda: 'int x = ' + '(' * n + '1' + ')' * n + ';', lambda: 'int f(void) { return ' + '-' * n + '1; }'.replace('--', '- -'), lambda: 'int f(int x) { ' + '{' * n + 'x++;' + '}' * n + ' return x; }',
        lambda: 'int f(int x) { ' + 'if (x) ' * n + 'x++; return x; }', lambda: 'int f(int x) { ' + 'for (;x;) ' * n + 'x++; return x; }', lambda: 'int ' + '*' * n + 'p;', lambda: 'int a' + '[1]' * n + ';', lambda: 'int (' * n + 'p' + ')' * n + ';',
        lambda: 'struct S { ' * min(n, 200) + 'int a;' + ' } s;' * min(n, 200), lambda: 'int f(int x) { return ' + 'x ? ' * n + '1' + ' : 2' * n + '; }', lambda: 'int f(int x) { return ' + 'x + (' * n + '1' + ')' * n + '; }', lambda: 'int f(int x) { return f(' * 1 + 'f(' * n + '1' + ')' * n + '); }',
        lambda: 'int ' + 'x' * w + ';', lambda: 'char s[] = "' + 'x' * w + '";', lambda: 'char s[] = ' + '"ab" ' * n + ';', lambda: 'char *s = L"' + '\\u00e9' * (w // 6) + '";', lambda: '#define ' + 'M' * w + ' 1\nint a = ' + 'M' * w + ';', lambda: '/*' + '*' * w + '*/ int a;', lambda: '//' + ' \\\n' * n + 'x\nint a;',
        lambda: 'int a = 0x' + 'f' * w + ';', lambda: 'double a = 1' + '0' * w + '.0;', lambda: 'double a = 0.' + '0' * w + '1;', lambda: 'long double a = 0x1.' + '8' * w + 'p3L;', lambda: 'int a = ' + "'" + 'a' * w + "'" + ';', lambda: 'int f(' + ', '.join(f'int a{i}' for i in range(n)) + ') { return a0; }',
        lambda: '#define M(' + ', '.join(f'a{i}' for i in range(n)) + f') a{n - 1} + a0\nint x = M(' + ', '.join('1' for i in range(n)) + ');', lambda: ''.join(f'#define M{i} M{i + 1} + 1\n' for i in range(n)) + f'#define M{n} 0\nint x = M0;', lambda: ''.join('#if 1\n' for i in range(n)) + 'int x;\n' + '#endif\n' * n,
        lambda: 'int g(); int f(void) { return g(' + ', '.join('1' for i in range(n)) + '); }', lambda: 'struct B { char c[%d]; }; int g(struct B, ...); int f(struct B *p) { return g(*p, *p, *p); }' % w, lambda: 'enum { ' + ', '.join(f'E{i}' for i in range(n)) + ' }; int x[E%d];' % (n - 1), lambda: 'int x[] = { ' + '1, ' * w + '};',
        lambda: 'int x[] = { ' + ', '.join(f'[{r.randrange(w)}] = {i}' for i in range(n)) + ' };', lambda: 'struct S { ' + ' '.join(f'int a{i};' for i in range(n)) + ' } s = { .a%d = 1, 2 };' % (n - 1), lambda: 'void f(int x) { switch (x) { ' + ' '.join(f'case {i}: x++;' for i in range(n)) + ' } }', lambda: 'void f(int x) { ' + ' '.join(f'l{i}: x++; goto l{n - 1 - i};' for i in range(n)) + ' }',
        lambda: 'void f(void) { ' + ' '.join(f'void *p{i} = &&l{i};' for i in range(min(n, 300))) + ' '.join(f' l{i}: ;' for i in range(min(n, 300))) + ' }', lambda: 'int f(int x) { return ' + 'x + ' * n + '1; }', lambda: 'int f(int x) { return ' + 'x == 1 || ' * n + '1; }', lambda: 'int f(int x) { return ' + ', '.join(['x'] * n) + '; }',
        lambda: 'int f(int x) { ' + 'x = ' * n + '1; return x; }', lambda: 'int f(int **x) { return ' + '*&' * n + '**x; }', lambda: 'int f(int x) { ' + 'int v%d[x]; ' * 1 % 0 + ''.join(f'{{ int v{i}[x + 1]; v{i}[0] = 1; ' for i in range(1, min(n, 200))) + '}' * (min(n, 200) - 1) + ' return v0[0]; }', lambda: 'int f(int x) { return ' + '({ ' * min(n, 100) + 'x' + '; })' * min(n, 100) + '; }',
        lambda: 'int f(int x) { return ' + '_Generic(x, default: ' * min(n, 100) + 'x' + ')' * min(n, 100) + '; }', lambda: '#define F(x) x\nint a = ' + 'F(' * n + '1' + ')' * n + ';', lambda: '#define F(x, ...) #x __VA_OPT__(#__VA_ARGS__)\nchar *a = F(' + 'a ' * w + ', b);', lambda: '#define C(a, b) a##b\nint C(' + 'x' * w + ', y);', lambda: '#define f(x) x f\nint a = f(1)' + '(+1)' * n + ';\n',
        lambda: 'typedef int T0; ' + ''.join(f'typedef T{i} T{i + 1};' for i in range(n)) + f' T{n} x;', lambda: 'int x; ' + ''.join(f'typeof(x) x{i};' for i in range(n)), lambda: 'int x = sizeof(' + 'typeof(' * n + 'int' + ')' * n + ');', lambda: 'long double f(long double x) { return ' + '(' * n + 'x' + ' * x)' * n + '; }', lambda: 'double f(double x) { return ' + 'x * (' * n + 'x' + ')' * n + '; }',
        lambda: '#if ' + '(' * n + '1' + ')' * n + '\nint x;\n#endif', lambda: '#if ' + '1 + ' * n + '1\nint x;\n#endif', lambda: '#if ' + '!' * n + '1\nint x;\n#endif', lambda: '#if ' + '1 ? ' * n + '1' + ' : 0' * n + '\nint x;\n#endif', lambda: '\n' * w + 'int x;', lambda: ' ' * w + 'int x;' + '\\\n' * n, lambda: 'int x;' * n, lambda: ';' * w,
        lambda: '__attribute__((' + 'packed, ' * n + ')) struct { int a; } x;', lambda: '[[' * 1 + 'a, ' * n + 'b]] int x;', lambda: 'struct S { struct S *n; } *p; int f(void) { return p' + '->n' * n + ' == 0; }', lambda: 'int a[2]; int f(int i) { return a' + '[a' * n + '[i]' + ']' * n + '; }', lambda: 'void f(void) { ' + 'defer { ' * min(n, 100) + ';' + '}' * min(n, 100) + ' }',
        lambda: 'void f(int n) { ' + ' '.join(f'defer n += {i};' for i in range(min(n, 300))) + ' if (n) return; n = 3; }', lambda: 'int f(int x) { ' + 'do ' * n + 'x++;' + ' while (x < 3);' * n + ' return x; }', lambda: 'int f() { return "' + 'a' * w + '"[0]; }', lambda: '#define S(x) #x\nchar *p = S("' + '\\"' * w + '");', lambda: 'char *p = "' + '\\n\\x41\\101' * (w // 8) + '";',
        lambda: '#include "t.c"\n', lambda: '#ifndef A\n#define A\n#include "t.c"\nint x;\n#endif\n', lambda: '#if __INCLUDE_LEVEL__ < 20\n#include __FILE__\nint x%d;\n#endif' % 1, lambda: '#embed "t.c"\n', lambda: 'char x[] = {\n' + '#embed "t.c" limit(3)\n' * 1 + '};', lambda: '_Pragma("' + 'x' * w + '") int x;', lambda: '#line %d "%s"\nint x = y;' % (w, 'f' * w),
    ]
    return r.choice(ds)() + '\n'


OPTS = [[], [], [], ['-g'], ['-fPIC'], ['-fno-pic'], ['-O0'], ['-O1'], ['-fcommon'], ['-ffunction-sections', '-fdata-sections'], ['-fdefer-ts'], ['-std=c99'], ['-std=c11'], ['-std=c23'], ['-std=c23'], ['-std=c89'], ['-w'], ['-Wall'], ['-Dx=y', '-Uf'], ['-DS(a)=a a'], ['-mcmodel=large'], ['-fsigned-char'], ['-funsigned-char'], ['-fms-anon-struct'], ['-DT=', '-DE=('], ['-include', 'stddef.h']]


def files():
    d = os.path.join(REPO, 'test')
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith('.c')]


# program shapes whose cost must not explode with the size
SHAPES = {
    'add':lambda n:'int x = 0'+' + 1'*n+';',
    'addl':lambda n:'long x = 0'+' + 1L'*n+';',
    'or':lambda n:'int x = 0'+' || 0'*n+';',
    'loc':lambda n:'int f(int a){ return a'+' + 1'*n+';}',
    'cond':lambda n:'int x = '+'1 ? '*n+'1'+' : 0'*n+';',
    'condloc':lambda n:'int f(int a){return '+'a ? '*n+'1'+' : 0'*n+';}',
    'condloc2':lambda n:'int f(int a){return '+'a ? 0 : '*n+'1'+';}',
    'not':lambda n:'int f(long a){return '+'!'*n+'a;}',
    'notc':lambda n:'int x='+'!'*n+'1L;',
    'neg':lambda n:'int f(long a){return '+'- '*n+'a;}',
    'castl':lambda n:'int x = '+'(int)(long)'*n+'1;',
    'castlv':lambda n:'int f(int a){return '+'(int)(long)'*n+'a;}',
    'ptr':lambda n:'int g; long x = '+'(long)(char*)'*n+'&g;',
    'fp':lambda n:'double x = 0'+' + 1.0'*n+';',
    'comma':lambda n:'int f(){return (0'+', 1'*n+');}',
    'paren':lambda n:'int x='+'('*n+'1'+')'*n+';',
    'init':lambda n:'struct S'+'{struct '*n+'{int a;}b;'+'}b;'*n if 0 else 'int a'+'[1]'*min(n,60)+' = '+'{'*min(n,60)+'1'+'}'*min(n,60)+';',
    'clit':lambda n:'int f(){return '+'(int){'*n+'1'+'}'*n+';}',
    'clits':lambda n:'struct S{int a,b;}; int f(){return '+'(struct S){'*n+'1'+'}.a'*n+';}',
    'clitg':lambda n:'int *p = &(int){'+'(int){'*n+'1'+'}'*n+'};',
    'stexpr':lambda n:'int f(){return '+'({ '*n+'1'+'; })'*n+';}',
    'generic':lambda n:'int x='+'_Generic(0, default: '*n+'1'+')'*n+';',
    'genctl':lambda n:'int x='+'_Generic('*n+'1'+', default: 1)'*n+';',
    'sizeof':lambda n:'int x='+'sizeof('*n+'1'+')'*n+';',
    'typeof':lambda n:''+'typeof('*n+'1'+')'*n+' x;',
    'unbr':lambda n:'struct A{int a;};struct S{struct A a;int b;}; int f(struct A q){struct S s = {'+'({struct S z={'*n+'q'+'}; z.a;})'*n+'};return 0;}',
    'assign':lambda n:'int f(int a){return '+'a = '*n+'1;}',
    'opassign':lambda n:'int f(int a){return '+'a += '*n+'1;}',
    'call':lambda n:'int f(int a){return '+'f('*n+'1'+')'*n+';}',
    'idx':lambda n:'int a[2]; int f(){return '+'a['*n+'1'+']'*n+';}',
    'logand':lambda n:'int f(int a){return '+'a && '*n+'1;}',
    'cmp':lambda n:'int f(int a){return '+'a == '*n+'1;}',
    'strc':lambda n:'char *s='+'"a" '*n+';',
    'ppif':lambda n:'#if '+'1 + '*n+'1\n#endif\n',
    'ppcond':lambda n:'#if '+'1 ? '*n+'1'+' : 0'*n+'\n#endif\n',
    'mac':lambda n:''.join(f'#define M{i} M{i+1} + 1\n' for i in range(n))+f'#define M{n} 0\nint x = M0;',
    'fmac':lambda n:'#define F(x) x\nint x='+'F('*n+'1'+')'*n+';',
    'fmac2':lambda n:''.join(f'#define M{i}(x) M{i+1}(x)\n' for i in range(n))+f'#define M{n}(x) x\nint x = M0(1);',
    'ternp':lambda n:'int *f(int*a){return '+'a ? a : '*n+'0;}',
    'elvis':lambda n:'int f(int a){return '+'a ?: '*n+'0;}',
    'bf':lambda n:'struct{int b:3;}s; int f(){return '+'s.b = '*n+'1;}',
    'bfop':lambda n:'struct{int b:3;}s; int f(){return '+'s.b += '*n+'1;}',
    'atom':lambda n:'_Atomic int a; int f(){return '+'a += '*n+'1;}',
    'decl':lambda n:'int '+'('*n+'x'+')'*n+';',
    'declf':lambda n:'int x'+'(int (*)'*0+'('+'int('*n+')'*n+');',
    'proto':lambda n:'int f('+'int (*)('*n+'void'+')'*n+');',
    'ifelse':lambda n:'void f(int a){'+'if(a);else '*n+';}',
    'nestblk':lambda n:'void f(int a){'+'{int b;'*n+'}'*n+'}',
    'ld':lambda n:'long double f(long double a){return '+'a + ('*n+'a'+')'*n+';}',
    'dbl':lambda n:'double f(double a){return '+'a + ('*n+'a'+')'*n+';}',
    'str init':lambda n:'struct S{int a[4];} s[] = {'+'1,2,3,4,'*n+'};',
    'enum':lambda n:'enum{'+','.join(f'A{i}=A{i-1}+1' if i else 'A0' for i in range(n))+'};',
    'switch':lambda n:'void f(int a){switch(a){'+''.join(f'case {i}:;' for i in range(n))+'}}',
    'goto':lambda n:'void f(){'+''.join(f'l{i}: goto l{(i*7)%n};' for i in range(n))+'}',
    'vlaidx':lambda n:'int f(int n){int v[n]; return '+'v['*n+'0'+']'*n+';}',
    'vlasz':lambda n:'int f(int n){return '+'sizeof(int['*n+'n'+'])'*n+';}',
    'defer':lambda n:'void f(int n){'+'defer n++; if(n) return;'*n+'}',
    'cleanup':lambda n:'void c(int*);void f(int n){'+''.join(f'__attribute__((cleanup(c))) int v{i}; if(n) return;' for i in range(n))+'}',
    'memb':lambda n:'struct S{'+''.join(f'int a{i};' for i in range(n))+'}s; int f(){return '+'+'.join(f's.a{i}' for i in range(n))+';}',
    'anon':lambda n:'struct{'*1+'struct{'*n+'int a;'+'};'*n+'}s; int f(){return s.a;}',
    'designest':lambda n:'struct S{int a;} s[%d]={'%n+','.join(f'[{i}].a={i}' for i in range(n))+'};',
    'desrange':lambda n:'int s[%d]={'%n+','.join(f'[{i} ... {n-1}]={i}' for i in range(n))+'};',
    'atomfetch':lambda n:'int f(int a){return '+'__builtin_constant_p('*n+'a'+')'*n+';}',
    'constp':lambda n:'int x='+'__builtin_constant_p('*n+'1'+')'*n+';',
    'offs':lambda n:'struct S{int a;};int x='+'__builtin_offsetof(struct S,a)+'*n+'1;',
    'sizeofx':lambda n:'int f(int a){return '+'sizeof '*n+'a;}',
    'derefaddr':lambda n:'int f(int a){return '+'*&'*n+'a;}',
    'incl':lambda n:'\n'.join('#include <stddef.h>' for i in range(n)),
    'boolc':lambda n:'int f(int*p){return '+'(_Bool)'*n+'p;}',
    'boolg':lambda n:'int g;_Bool b='+'(_Bool)(long)'*n+'&g;',
    'ptrbool':lambda n:'int g;_Bool b='+'(_Bool)'*n+'&g;',
    'stov':lambda n:'struct S{struct S*p;int a;}s;int f(){return s'+'.p->p[0]'*n+'.a;}',
    'unbraced':lambda n:''.join(f'struct S{i}{{struct S{i-1} a; int b;}};' if i else 'struct S0{int a;};' for i in range(min(n,40)))+'struct S%d x = {1};'%(min(n,40)-1)+'void f(){struct S%d y = {1};}'%(min(n,40)-1),
    'unbracedcall':lambda n:''.join(f'struct S{i}{{struct S{i-1} a; int b;}};' if i else 'struct S0{int a;};' for i in range(min(n,40)))+'int g();void f(){struct S%d y = {g()};}'%(min(n,40)-1),
    'elided-struct':lambda n:'struct S{struct {struct {int a;} b;} c;};int f(){struct S y = '+'{(struct S){'*n+'1'+'}.c.b.a}'*n+';}',
    'unsized-array-literal':lambda n:'int f(){return '+'(int[]){'*n+'1'+'}[0]'*n+';}',
}


class Gen:
    def __init__(s, ctx):
        s.r03 = corpus.mod('r03'); s.p01 = corpus.mod('p01'); s.words = words_of_source(); s.files = files()
        s.frag = [(lv, x) for lv, T in (('E', s.r03.EXPR), ('D', s.r03.DECL), ('F', s.r03.FILE), ('S', s.r03.STMT), ('P', s.r03.PP)) for e in T for x in (e[1], e[2])]

    def base(s, r):
        k = r.random()
        if k < .3:
            lv, x = r.choice(s.frag)
            out = [s.r03.PRE]
            for i in range(r.choice((1, 1, 2, 3))):
                lv, x = r.choice(s.frag)
                x = x.replace('@', str(i))
                if lv == 'E': x = s.r03.expr_stmt(r, s.r03.nest_expr(r, x, r.choice((0, 1, 2)))).replace('@', f'{i}q')
                if lv in 'ES' or lv == 'D' and r.random() < .6: x = f'void F{i}(int pa, ...) {{ {s.r03.nest_stmt(r, x, r.choice((0, 0, 1, 2)), i)} }}'
                out.append(x)
            return 'frag', '\n'.join(out) + '\n'
        if k < .42: return 'macro', s.p01.case(r, True)
        if k < .6 and s.files:
            L = open(r.choice(s.files), encoding='latin-1').read().split('\n')
            i = r.randrange(len(L)); n = r.choice((10, 30, 80, 200))
            return 'repo', '#include "test.h"\n' * r.choice((0, 1)) + '\n'.join(L[i:i + n]) + '\n'
        if k < .7: return 'hostile', hostile(r)
        if k < .74: return 'phrases', ' '.join(r.choice(PHRASE) for _ in range(r.choice((2, 4, 10, 40)))) + '\n'
        k, src, opts, _ = corpus.program(r, r.choice(corpus.KINDS), small=True)
        return k, src

    def case(s, r):
        kind, t = s.base(r)
        q = r.random()
        if kind == 'hostile' and q < .7: return kind, t.encode('utf-8', 'surrogateescape'), False
        if q < .06: return kind, t.encode('utf-8', 'surrogateescape'), False
        if q < .14: return kind, bytemut(r, t.encode('utf-8', 'surrogateescape')), True
        other = s.base(r)[1]
        return kind, mutate(r, t, other, s.words).encode('utf-8', 'replace'), True


BADMSG = re.compile(r'internal error|Assertion|AddressSanitizer|runtime error:|Sanitizer', re.I)


def too_big(t):
    """array bounds and fills that merely need memory or time in proportion to a number written in the source"""
    return re.search(rb'\[[^\]\n]*(?:\d{7,}|0x[0-9a-fA-F]{6,}|<<|e\d|\*\s*\d{4,})', t) is not None or re.search(rb'\bsizeof|~|-\s*1\s*\]|\[\s*-', t) and False


def check(ctx):
    ctx.rule = ('programs of every generator, fragments of R03, macro cases, slices of the repository\'s tests and hostile shapes, mutated by token and byte; the sanitised build (address, undefined; recycled memory really freed) must exit 0 or 1 without a report, '
                'with a diagnostic when 1, in bounded time; on a sample the plain build must agree and stay within a memory limit, and what it writes must assemble if gcc accepts the source. events: runs judged; non-trivial: distinct inputs')
    asan = ctx.build('asan'); plain = ctx.build('fast')
    g = Gen(ctx)
    per = 25
    big = ['prlimit', '--stack=1073741824']   # sanitised frames are large; the plain build has to do with the usual 8 MB

    def one(idx):
        res = Res()
        d = os.path.join(ctx.work, f'w{os.getpid()}')
        os.makedirs(d, exist_ok=True)
        for j in range(per):
            r = ctx.rng(idx, j)
            kind, t, mut = g.case(r)
            if too_big(t): res.count('skipped-size'); continue
            for f in os.listdir(d):
                p = os.path.join(d, f); os.unlink(p) if not os.path.isdir(p) else shutil.rmtree(p)
            open(os.path.join(d, 't.c'), 'wb').write(t)
            if b'test.h' in t: shutil.copy(os.path.join(REPO, 'test', 'test.h'), d)
            opts = sum(([x for x in r.choice(OPTS)] for _ in range(r.choice((1, 1, 2)))), [])
            act = r.choice((['-S'], ['-S'], ['-S'], ['-S'], ['-E'], ['-S', '-MD'], ['-M'], ['-E', '-dM'], ['-fsyntax-only'][:0] + ['-S']))
            cmd = [asan, *act, *opts, '-o', 'o.s', 't.c']
            x = run(big + cmd, cwd=d, timeout=60, env={**os.environ, **SAN_ENV, 'TMPDIR': d}, binary=True)
            res.evals += 1; res.count('kind-' + kind); res.count('rc%d' % x.rc if x.rc in (0, 1) else 'rc-other')
            err = x.err.decode('utf-8', 'replace')
            msg = None
            if x.to:
                y = run(big + cmd, cwd=d, timeout=200, env={**os.environ, **SAN_ENV, 'TMPDIR': d}, binary=True)
                if y.to: msg = 'does not terminate within 200 s'
                else: x = y; err = x.err.decode('utf-8', 'replace')
            if not msg:
                if x.rc not in (0, 1): msg = f'exit status {x.rc}: {summ(err)}'
                elif BADMSG.search(err) and BADMSG.search(re.sub(r'\n.*\n *\^.*', '', err)) and x.rc and b'internal error' not in t: msg = f'{summ(err)}'
                elif x.rc == 1 and not err.strip(): msg = 'exit status 1 without a diagnostic'
                elif x.rc == 0 and not os.path.exists(os.path.join(d, 'o.s')) and '-M' not in act: msg = 'exit status 0 without output'
            if not msg and (kind == 'hostile' or r.random() < .25):
                y = run([plain, '-c', *opts, '-o', 'o.o', 't.c'], cwd=d, timeout=60, mem=2 << 30, binary=True, env={**os.environ, 'TMPDIR': d})
                e2 = y.err.decode('utf-8', 'replace')
                res.evals += 1; res.count('plain-runs')
                if y.to or y.rc not in (0, 1): msg = f'plain build: {"timeout" if y.to else "exit status %d" % y.rc}: {e2[-300:]}'
                elif '-S' in act and x.rc == 1 and y.rc == 0: msg = f'the plain build accepts what the sanitised one rejects: {err[:300]}'
                elif y.rc == 1 and not e2.strip(): msg = 'plain build: exit status 1 without a diagnostic'
                elif '-S' in act and x.rc == 0 and y.rc and re.search(r'Assembler messages|\.s:\d+: Error', e2):
                    res.count('assembler-rejects')
                    if not DANGER.search(t.decode('latin-1')):
                        z = run(['gcc', '-std=gnu2x' if '-std=c23' in opts else '-std=gnu17', '-w', *[o for o in opts if o[0] != '-' or o[:2] in ('-D', '-U', '-i', '-f') and o not in ('-fdefer-ts',)], '-c', '-o', 'g.o', 't.c'], cwd=d, timeout=60)
                        if z.rc == 0: msg = f'output of a valid program rejected by the assembler: {e2[-400:]}'
            res.events += 1; res.distinct.add(h(t))
            if msg:
                res.violation(re.sub(r'0x[0-9a-f]+|==\d+==|\d\d+', '#', f'{msg}')[:90], f'[{kind}] {" ".join(act + opts)}: {msg}'[:900], {'t.c': t.decode('latin-1')}, cmd=' '.join(['slimcc', *act, *opts, '-o', 'o.s', 't.c']))
                return res
            if not res.sample and r.random() < .02: res.sample = {'kind': kind, 'rc': x.rc, 'text': t[:400].decode('latin-1'), 'err': err[:200]}
        return res

    def shape(it):
        res = Res(); k, o = it
        d = os.path.join(ctx.work, f'w{os.getpid()}'); os.makedirs(d, exist_ok=True)
        for n in (10, 40, 150, 600):
            open(os.path.join(d, 'p.c'), 'w').write(SHAPES[k](n) + '\n')
            x = run([plain, '-S', '-std=c23', '-fdefer-ts', *o, '-o', 'o.s', 'p.c'], cwd=d, timeout=40, mem=4 << 30)
            res.evals += 1; res.events += 1; res.distinct.add(k + str(n) + str(o)); res.count('shapes')
            if x.to or x.rc not in (0, 1) or 'internal error' in x.err:
                res.violation('shape:' + k, f'shape {k} x {n} {o}: {"not finished after 40 s" if x.to else f"exit status {x.rc}"} {x.err[-200:]}', {'t.c': SHAPES[k](n)}, cmd='slimcc -S -std=c23 ' + ' '.join(o) + ' t.c')
                return res
        return res

    ctx.pmap(shape, [(k, o) for k in SHAPES for o in (['-O0'], ['-O1'])], stop_after=99)
    ctx.pmap(one, range(ctx.n(560, 20000)), stop_after=int(os.environ.get("R01_STOP", "6")))


def summ(e):
    m = re.search(r'(ERROR: AddressSanitizer: [^\n]*|[^\n]*runtime error: [^\n]*|[^\n]*internal error[^\n]*)', e)
    fr = re.findall(r'#\d+ 0x\w+ in (\w+) ', e)
    return (m.group(1) if m else e[-200:]) + ' at ' + ' < '.join([f for f in fr if not f.startswith(('__', '_start'))][:5])


if __name__ == '__main__':
    main('R01', check, min_events=3000, min_distinct=2000)
