"""R03: ill-formed programs are rejected with a located diagnostic and no output; their corrected twins are accepted."""
import os, sys, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *

PRE = '''struct St { int a; double d; int bf : 3; struct { int in; }; int ar[4]; };
union Un { int i; float f; };
enum En { EA, EB = 5 };
typedef int Tint; typedef struct St Tst;
int iv, iw, *ip, arr[5]; unsigned uv; double dv; void *vp; struct St sv, *sp; union Un uu; enum En ev; const char *cs; _Bool bv; long lv; char cv;
struct Inc; extern struct Inc inc, *incp;
int f2(int, int); int f0(void); int fv(int, ...); void vf(void); struct St fs(void); int (*fp)(int);
'''

# (name, bad, good): int-valued expressions
EXPR = [
    ('undeclared', 'nosuch@ + 1', 'iv + 1'), ('undeclared2', 'iv + nosuch@', 'iv + iw'), ('undeclared-arg', 'f2(nosuch@, 1)', 'f2(iw, 1)'), ('undeclared-idx', 'arr[nosuch@]', 'arr[iw]'),
    ('implicit-fn', 'nofn@(1)', 'fp(1)'), ('implicit-fn2', 'f2(nofn@(), 2)', 'f2(f0(), 2)'),
    ('no-member', 'sv.nosuch', 'sv.a'), ('no-member-ptr', 'sp->nosuch', 'sp->a'), ('no-member-un', 'uu.a', 'uu.i'), ('member-of-int', 'iv.a', 'sv.a'), ('arrow-on-int', 'iv->a', 'sp->a'), ('arrow-on-struct', 'sv->a', 'sv.a'), ('dot-on-ptr', 'sp.a', 'sp->a'),
    ('arrow-on-intptr', 'ip->a', 'sp->a'), ('member-kw', 'sv.if', 'sv.in'), ('member-num', 'sv.1', 'sv.a'), ('member-enum', 'sv.EA', 'sv.in'),
    ('deref-int', '*iv', '*ip'), ('deref-double', '*dv == 1', '*ip == 1'), ('deref-struct', '(*sv).a', '(*sp).a'), ('index-int', 'iv[iw]', 'ip[iw]'), ('index-dbl', 'arr[dv]', 'arr[iv]'), ('index-struct', 'sv[0]', 'arr[0]'), ('index-ptrptr', 'arr[ip]', 'arr[iv]'),
    ('few-args', 'f2(1)', 'f2(1, 2)'), ('many-args', 'f2(1, 2, 3)', 'f2(1, 2)'), ('many-args0', 'f0(1)', 'f0()'), ('few-args-va', 'fv()', 'fv(1)'), ('few-args-fp', 'fp()', 'fp(1)'), ('many-args-fp', 'fp(1, 2)', 'fp(1)'),
    ('call-int', 'iv(1)', 'fp(1)'), ('call-lit', '3(1)', 'f2(3, 1)'), ('call-struct', 'sv(1)', 'fp(1)'), ('call-ptr', 'ip(1)', 'fp(1)'), ('call-void-result', 'vf()()', 'fp(0)'),
    ('assign-num', '3 = iv', 'iw = iv'), ('assign-call', 'f0() = 3', 'iv = 3'), ('assign-sum', '(iv + 1) = 2', '(iv) = 2'), ('assign-cast', '(int)iv = 2', 'iv = (int)2'), ('assign-enum', 'EA = 3', 'iv = EA'), ('assign-postinc', 'iv++ = 2', 'iv = 2'), ('assign-neg', '-iv = 2', 'iv = -2'),
    ('assign-cmp', '(iv < 2) = 1', '(iv) = 1'), ('assign-addr', '&iv = 0', 'iv = 0'), ('assign-sizeof', 'sizeof iv = 3', 'iv = sizeof iv'), ('assign-not', '!iv = 1', 'iv = !1'), ('compound-num', '3 += iv', 'iw += iv'), ('compound-call', 'f0() -= 3', 'iv -= 3'), ('compound-sum', '(iv | 1) <<= 2', '(iv) <<= 2'),
    ('inc-num', '3++', 'iv++'), ('inc-call', '++f0()', '++iv'), ('dec-sum', '--(iv * 2)', '--(iv)'), ('inc-inc', 'iv++ ++', 'iv++'), ('inc-struct', 'sv++, 1', 'sv.a++, 1'), ('inc-cast', '((long)iv)++', '(iv)++'), ('inc-enum', 'EB++', 'ev++'), ('inc-neg', '++-iv', '++iv'),
    ('addr-num', '&3 != 0', '&iv != 0'), ('addr-call', '&f0() != 0', '&f0 != 0'), ('addr-sum', '&(iv + 1) == 0', '&(iv) == 0'), ('addr-bf', '&sv.bf != 0', '&sv.a != 0'), ('addr-bf2', '(&sp->bf, 1)', '(&sp->a, 1)'), ('addr-enum', '&EA == 0', '&ev == 0'), ('addr-addr', '&&iv == 0', '&iv == 0') if 0 else ('addr-cond', '&(iv ? 1 : 2) == 0', '(iv ? &iv : &iw) == 0'), ('addr-postinc', '&iv++ == 0', '&iv == 0'), ('addr-cast', '&(int)iv == 0', '&iv == 0'),
    ('neg-struct', '-sv, 1', '-sv.a, 1'), ('neg-ptr', '(-ip, 1)', '(-iv, 1)'), ('not-struct', '!sv', '!sv.a'), ('compl-dbl', '~dv, 1', '~iv, 1'), ('compl-ptr', '(~ip, 1)', '(~iv, 1)'), ('plus-struct', '(+sv, 1)', '(+sv.a, 1)'),
    ('add-struct', 'sv + 1', 'sv.a + 1'), ('add-ptr-ptr', '(ip + ip, 1)', '(ip - ip, 1)'), ('sub-int-ptr', '(1 - ip, 1)', '(ip - 1, 1)'), ('mul-ptr', 'ip * 2', '*ip * 2'), ('mul-struct', 'iv * sv', 'iv * sv.a'), ('div-ptr', '(8 / ip)', '(8 / iv)'), ('mod-dbl', 'iv % dv', 'iv % iw'), ('mod-dbl2', '(int)(dv % 2)', '(int)(dv / 2)'), ('shl-dbl', 'iv << dv', 'iv << iw'), ('shr-dbl', '((int)dv, dv >> 1)', '((int)dv >> 1)'), ('and-dbl', 'iv & dv', 'iv & iw'), ('or-ptr', '(ip | 1, 1)', '(*ip | 1, 1)'), ('xor-struct', 'sv ^ 1', 'sv.a ^ 1'),
    ('add-void', 'iv + vf()', 'iv + f0()'), ('mul-void', 'vf() * 2', 'f0() * 2'), ('lt-struct', 'sv < sv', 'sv.a < sv.a'), ('eq-struct', 'sv == sv', 'sv.a == sv.a'), ('and-struct', 'sv && 1', 'sv.a && 1'), ('or-void', 'vf() || 1', 'f0() || 1'), ('ptr-add-dbl', '*(ip + dv)', '*(ip + iv)'), ('cond-struct', 'sv ? 1 : 2', 'sv.a ? 1 : 2'), ('cond-void', 'vf() ? 1 : 2', 'f0() ? 1 : 2'), ('cond-mismatch', '(iv ? sv : 1, 1)', '(iv ? sv.a : 1, 1)'),
    ('cond-nocolon', 'iv ? 1', 'iv ? 1 : 2'), ('cond-nothing', 'iv ? 1 :', 'iv ? 1 : 2'), ('cast-struct', '(struct St)iv, 1', '(int)iv, 1'), ('cast-from-struct', '(int)sv', '(int)sv.a'), ('cast-dbl-ptr', '((int *)dv, 1)', '((int *)lv, 1)'), ('cast-ptr-dbl', '((double)(long)ip, (float)ip, 1)', '((double)(long)ip, 1)'), ('cast-void-val', '(int)vf()', '(int)f0()'), ('cast-union-ptr', '(union Un *)uu == 0', '(union Un *)&uu == 0'),
    ('use-void', '(iv = vf(), 1)', '(iv = f0(), 1)'), ('assign-struct-int', '(sv = 1, 1)', '(sv.a = 1, 1)'), ('assign-int-struct', '(iv = sv, 1)', '(iv = sv.a, 1)'), ('assign-struct-struct', '(sv = uu, 1)', '(sv = *sp, 1)'), ('arg-struct', 'f2(sv, 1)', 'f2(sv.a, 1)'), ('arg-void', 'f2(vf(), 1)', 'f2(f0(), 1)'),
    ('assign-array', '(arr = 0, 1)', '(arr[0] = 0, 1)'), ('assign-fn', '(f0 = 0, 1)', '(fp = 0, 1)'), ('inc-arr', 'arr++ != 0', 'ip++ != 0'), ('assign-str', '("abc" = 0, 1)', '(cs = "abc", 1)'), ('assign-rec', '(fs() = sv, 1)', '(sv = fs(), 1)'),
    ('sizeof-inc', 'sizeof(struct Inc)', 'sizeof(struct St)'), ('sizeof-inc2', 'sizeof inc', 'sizeof incp'), ('sizeof-inc3', 'sizeof *incp', 'sizeof incp'), ('alignof-inc', '_Alignof(struct Inc)', '_Alignof(struct St)'), ('sizeof-undecl', 'sizeof(struct Undecl@)', 'sizeof(struct St)'), ('sizeof-empty', 'sizeof', 'sizeof iv'), ('sizeof-empty2', 'sizeof()', 'sizeof(int)'), ('deref-inc', '(*incp, 1)', '(incp, 1)') if 0 else ('member-inc', 'incp->a', 'sp->a'), ('ptr-inc-arith', '(incp + 1, 1)', '(sp + 1, 1)'), ('idx-inc', '(&incp[1], 1)', '(&sp[1], 1)'),
    ('deref-void', '(*vp + 1)', '(*ip + 1)'), ('bitfield-sizeof', 'sizeof sv.bf', 'sizeof sv.a'), ('generic-nomatch', '_Generic(iv, double: 1, char: 2)', '_Generic(iv, double: 1, int: 2)'), ('generic-dup', '_Generic(iv, int: 1, Tint: 2)', '_Generic(iv, int: 1, long: 2)'), ('generic-dupdef', '_Generic(iv, default: 1, default: 2)', '_Generic(iv, default: 1, int: 2)'), ('generic-syntax', '_Generic(iv, int 1)', '_Generic(iv, int: 1)'), ('generic-fn', '_Generic(iv, int(void): 1, default: 2)', '_Generic(iv, int(*)(void): 1, default: 2)'),
    ('paren', '(iv + 1', '(iv + 1)'), ('paren2', 'iv + 1)', '(iv + 1)'), ('bracket', 'arr[1', 'arr[1]'), ('op-missing', 'iv iw', 'iv + iw'), ('operand-missing', 'iv +', 'iv + 1'), ('operand-missing2', '* / iv', 'iv'), ('empty-paren', '()', '(1)'), ('comma-end', 'f2(1, )', 'f2(1, 2)'), ('comma-start', 'f2(, 1)', 'f2(2, 1)'), ('dots', 'sv..a', 'sv.a'), ('kw-operand', 'return + 1', 'iv + 1'), ('type-operand', 'int + 1', '(int)+1'), ('type-operand2', 'iv * Tint', 'iv * (Tint)2'), ('stray-at', 'iv @ 1', 'iv + 1'), ('stray-bq', 'iv ` 1', 'iv + 1'), ('stray-bs', 'iv \\ 1', 'iv + 1'),
    ('num-suffix', '12abc', '12'), ('num-dots', '1.2.3 > 0', '1.23 > 0'), ('oct-digit', '0189', '0177'), ('hex-empty', '0x', '0x1'), ('hex-exp', '0x1.8 > 0', '0x1.8p0 > 0'), ('bin-digit', '0b12', '0b11'), ('exp-empty', '1e > 0', '1e1 > 0'), ('suffix-llu', '1lul', '1ul'), ('suffix-fl', '1.0fl > 0', '1.0f > 0'), ('suffix-int-f', '10f > 0', '10.f > 0'),
    ('char-empty', "''", "'a'"), ('hex-escape-empty', "'\\x'", "'\\x1'"), ('str-hex-escape', '"\\xg"[0]', '"\\xa"[0]'), ('str-mixed-prefix', 'sizeof(L"a" u"b")', 'sizeof(L"a" L"b")'), ('str-mixed2', 'sizeof(u8"a" U"b")', 'sizeof(U"a" U"b")'),
    ('complit-designator', '(struct St){ .nosuch = 1 }.a', '(struct St){ .a = 1 }.a'), ('complit-idx', '((int[2]){ [2] = 1 })[0]', '((int[2]){ [1] = 1 })[0]'), ('complit-void', '((void){ 1 }, 1)', '((int){ 1 }, 1)'), ('complit-fn', '((int(void)){ 0 }, 1)', '((int(*)(void)){ 0 }, 1)'), ('complit-inc', '((struct Inc){ 0 }, 1)', '((struct St){ 0 }, 1)'), ('complit-brace', '(struct St){ 1', '(struct St){ 1 }.a'),
    ('vaarg-nonva', '__builtin_va_arg(iv, int)', '__builtin_abs(iv)') if 0 else ('offsetof-nosuch', '__builtin_offsetof(struct St, nosuch)', '__builtin_offsetof(struct St, a)'), ('offsetof-int', '__builtin_offsetof(int, a)', '__builtin_offsetof(struct St, d)'), ('offsetof-inc', '__builtin_offsetof(struct Inc, a)', '__builtin_offsetof(struct St, ar[1])'), ('offsetof-bf', '__builtin_offsetof(struct St, bf)', '__builtin_offsetof(struct St, in)'),
    ('addr-label-undef', '(&&nolab@, 1)', '(&iv, 1)'), ('stmtexpr-unclosed', '({ iv;', '({ iv; })'), ('nested-deep-undecl', '((((((((nosuch@))))))))', '((((((((iv))))))))'),
]

# (name, bad, good) declarations, valid at file scope and in blocks
DECL = [
    ('void-var', 'void a@;', 'void *a@;'), ('void-arr', 'void a@[3];', 'void *a@[3];'), ('inc-var', 'struct Und@ a@ = { 0 };', 'struct St a@ = { 0 };'), ('inc-arr', 'struct Inc a@[2];', 'struct Inc *a@[2];'), ('fn-arr', 'int a@[2](void);', 'int (*a@[2])(void);'), ('fn-ret-fn', 'int a@(void)(void);', 'int (*a@(void))(void);'), ('fn-ret-arr', 'int a@(void)[3];', 'int (*a@(void))[3];'), ('fn-member', 'struct a@ { int f(void); };', 'struct a@ { int (*f)(void); };'), ('inc-member', 'struct a@ { struct Inc m; };', 'struct a@ { struct Inc *m; };'), ('void-member', 'struct a@ { void m; };', 'struct a@ { void *m; };'), ('self-member', 'struct a@ { struct a@ m; };', 'struct a@ { struct a@ *m; };'), ('void-param', 'int a@(void, int);', 'int a@(int, int);'), ('void-param2', 'int a@(int, void);', 'int a@(int, void *);'), ('void-param3', 'int a@(void x);', 'int a@(void *x);'),
    ('neg-arr', 'int a@[-1];', 'int a@[1];'), ('arr-dbl', 'int a@[2.5];', 'int a@[2];'), ('arr-ptr', 'int a@[(char *)3];', 'int a@[(int)3];'), ('arr-str', 'int a@["3"];', 'int a@[3];'), ('arr-struct-sz', 'int a@[sizeof(struct Inc)];', 'int a@[sizeof(struct St)];'), ('incomplete-arr', 'int a@[3][];', 'int a@[][3] = { 0 };'),
    ('bf-neg', 'struct a@ { int b : -1; };', 'struct a@ { int b : 1; };'), ('bf-wide', 'struct a@ { int b : 33; };', 'struct a@ { int b : 32; };'), ('bf-zero-named', 'struct a@ { int b : 0; };', 'struct a@ { int b : 1; int : 0; };'), ('bf-dbl', 'struct a@ { double b : 3; };', 'struct a@ { int b : 3; };'), ('bf-nonconst', 'struct a@ { int b : iv; };', 'struct a@ { int b : EB; };'), ('bf-ptr', 'struct a@ { int *b : 3; };', 'struct a@ { int b : 3; };'), ('bf-arr', 'struct a@ { int b[2] : 3; };', 'struct a@ { int b[2]; };'), ('bf-width-dbl', 'struct a@ { int b : 2.0; };', 'struct a@ { int b : 2; };'),
    ('dup-member', 'struct a@ { int x; int x; };', 'struct a@ { int x; int y; };'), ('dup-member-anon', 'struct a@ { int x; struct { int x; }; };', 'struct a@ { int x; struct { int y; }; };'), ('redef-struct', 'struct a@ { int x; }; struct a@ { long y; };', 'struct a@ { int x; }; struct b@ { long y; };'), ('redef-enum', 'enum a@ { A1@ }; enum a@ { B1@ };', 'enum a@ { A1@ }; enum b@ { B1@ };'), ('redef-union', 'union a@ { int x; }; union a@ { int x[2]; };', 'union a@ { int x; }; union b@ { int x[2]; };'), ('tag-kind', 'struct a@ { int x; }; union a@ *p@;', 'struct a@ { int x; }; struct a@ *p@;'), ('tag-kind-enum', 'struct a@ { int x; }; enum a@ p@;', 'struct a@ { int x; }; struct a@ p@;'), ('enum-tag-struct', 'enum a@ { A@ }; struct a@ p@;', 'enum a@ { A@ }; enum a@ p@;'), ('struct-empty-member', 'struct a@ { int x };', 'struct a@ { int x; };'), ('struct-nomember-name', 'struct a@ { int; int *; };', 'struct a@ { int; int *p; };'),
    ('flex-first', 'struct a@ { int x[]; int y; };', 'struct a@ { int y; int x[]; };'), ('flex-union', 'union a@ { int x; int y[]; };', 'union a@ { int x; int y[1]; };') if 0 else ('flex-mid', 'struct a@ { int y; int x[]; int z; };', 'struct a@ { int y; int z; int x[]; };'),
    ('enum-noname', 'enum { };', 'enum { A@ };'), ('enum-num', 'enum { 1 };', 'enum { A@ = 1 };'), ('enum-dbl', 'enum { A@ = 1.5 };', 'enum { A@ = 1 };'), ('enum-nonconst', 'enum { A@ = iv };', 'enum { A@ = EB };'), ('enum-undecl', 'enum { A@ = nosuch@ };', 'enum { A@ = EB + 1 };'), ('enum-dup', 'enum { A@, A@ };', 'enum { A@, B@ };'), ('enum-incomplete', 'enum Und@ a@;', 'enum En a@;'), ('enum-fixed-range', 'enum a@ : unsigned char { A@ = 256 };', 'enum a@ : unsigned char { A@ = 255 };'), ('enum-fixed-neg', 'enum a@ : unsigned { A@ = -1 };', 'enum a@ : int { A@ = -1 };'), ('enum-fixed-dbl', 'enum a@ : double { A@ };', 'enum a@ : long { A@ };'), ('enum-fixed-overflow', 'enum a@ : signed char { A@ = 127, B@ };', 'enum a@ : signed char { A@ = 126, B@ };'), ('enum-fixed-redecl', 'enum a@ : char; enum a@ : long;', 'enum a@ : char; enum a@ : char;'), ('enum-comma', 'enum { A@,, B@ };', 'enum { A@, B@, };'),
    ('types-conflict', 'int long short a@;', 'int long a@;'), ('types-conflict2', 'signed unsigned a@;', 'signed char a@;'), ('types-conflict3', 'double int a@;', 'double a@;'), ('types-conflict4', 'long char a@;', 'long int a@;'), ('types-conflict5', 'struct St int a@;', 'struct St a@;'), ('types-conflict6', 'float double a@;', 'float a@;'), ('types-conflict7', 'long long long a@;', 'long long a@;'), ('types-conflict8', 'int int a@;', 'int a@;'), ('types-conflict9', 'Tint long a@;', 'Tint a@;'), ('types-conflict10', 'unsigned _Bool a@;', '_Bool a@;'), ('types-conflict11', 'void int a@;', 'void *a@;'), ('types-conflict12', 'unsigned float a@;', 'unsigned a@;'), ('types-conflict13', 'short double a@;', 'long double a@;'),
    ('storage-conflict', 'typedef static int a@;', 'typedef int a@;'), ('storage-conflict2', 'extern typedef int a@;', 'extern int a@;'), ('storage-conflict3', 'static extern int a@;', 'static int a@;'), ('storage-member', 'struct a@ { static int x; };', 'struct a@ { int x; };'), ('storage-param', 'int a@(static int x);', 'int a@(int x);'), ('storage-param-td', 'int a@(typedef int x);', 'int a@(int x);'), ('storage-cast', 'int a@ = sizeof(static int);', 'int a@ = sizeof(int);'), ('inline-var', 'inline int a@;', 'inline int a@(void);') if 0 else ('typedef-init', 'typedef int a@ = 3;', 'typedef int a@;'), ('typedef-noname', 'typedef int *;', 'typedef int *a@;') if 0 else ('alignas-typedef', 'typedef _Alignas(8) int a@;', 'typedef int a@;') , ('alignas-param', 'int a@(_Alignas(8) int x);', 'int a@(int x);'),
    ('var-noname', 'int *;', 'int *a@;'), ('var-noname2', 'int [3];', 'int a@[3];'), ('fn-noname', 'int (void);', 'int a@(void);') if 0 else ('var-kw', 'int for;', 'int for@;'), ('var-num', 'int 3a;', 'int a3@;'), ('comma-decl', 'int a@, ;', 'int a@, b@;'), ('comma-decl2', 'int a@ b@;', 'int a@, b@;'), ('semicolon', 'int a@ = 3 int b@;', 'int a@ = 3; int b@;'), ('no-type', 'const struct;', 'const struct St a@;'), ('undecl-type', 'Nosuch@ a@;', 'Tint a@;'), ('undecl-type2', 'const Nosuch@ a@;', 'const Tint a@;') if 0 else ('undecl-type-par', 'int a@(Nosuch@ x);', 'int a@(Tint x);'), ('paren-decl', 'int (a@;', 'int (a@);'), ('bracket-decl', 'int a@[3;', 'int a@[3];'), ('ptr-after', 'int a@ *;', 'int *a@;'), ('dots-first', 'int a@(int, ..., int);', 'int a@(int, int, ...);'), ('param-comma', 'int a@(int, );', 'int a@(int);'), ('param-semi', 'int a@(int; int);', 'int a@(int, int);'), ('unnamed-struct', 'struct;', 'struct St;'),
    ('init-too-nested', 'int a@ = { { { nosuch@ } } };', 'int a@ = { 3 };'), ('init-arr-scalar', 'int a@[3] = 4;', 'int a@[3] = { 4 };'), ('init-arr-arr', 'int a@[2] = arr;', 'int a@[2] = { 0 };'), ('init-chr-int', 'char a@[3] = 5;', 'char a@[3] = "5";'), ('init-wstr', 'char a@[3] = L"5";', 'char a@[3] = "5";'), ('init-int-str', 'int a@[3] = "ab";', 'int a@[3] = L"ab";'), ('init-desig-oob', 'int a@[3] = { [3] = 1 };', 'int a@[3] = { [2] = 1 };'), ('init-desig-neg', 'int a@[3] = { [-1] = 1 };', 'int a@[3] = { [0] = 1 };'), ('init-desig-nonarr', 'struct St a@ = { [0] = 1 };', 'struct St a@ = { .a = 1 };'), ('init-desig-nosuch', 'struct St a@ = { .nosuch = 1 };', 'struct St a@ = { .in = 1 };'), ('init-desig-arr', 'int a@[3] = { .x = 1 };', 'int a@[3] = { [1] = 1 };'), ('init-desig-dbl', 'int a@[3] = { [1.0] = 1 };', 'int a@[3] = { [1] = 1 };'), ('init-desig-nonconst', 'int a@[3] = { [iv] = 1 };', 'int a@[3] = { [EA] = 1 };'), ('init-range-empty', 'int a@[9] = { [5 ... 3] = 1 };', 'int a@[9] = { [3 ... 5] = 1 };'), ('init-range-oob', 'int a@[4] = { [2 ... 4] = 1 };', 'int a@[4] = { [2 ... 3] = 1 };'), ('init-desig-scalar', 'int a@ = { .a = 1 };', 'int a@ = { 1 };'), ('init-desig-scalar2', 'int a@ = { [0] = 1 };', 'int a@ = { 1 };'), ('init-unclosed', 'int a@[2] = { 1, 2;', 'int a@[2] = { 1, 2 };'), ('init-nested-unclosed', 'int a@[2][1] = { { 1, { 2 } };', 'int a@[2][1] = { { 1 }, { 2 } };'), ('init-noval', 'int a@ = ;', 'int a@ = 1;'), ('init-commas', 'int a@[3] = { 1,, 2 };', 'int a@[3] = { 1, 2, };'), ('init-struct-scalar', 'static struct St a@ = 4;', 'static struct St a@ = { 4 };'), ('init-desig-eq', 'int a@[2] = { [1] };', 'int a@[2] = { [1] = 1 };'), ('init-desig-dot', 'struct St a@ = { .a.b = 1 };', 'struct St a@ = { .ar[1] = 1 };'), ('init-desig-dot2', 'struct St a@ = { . = 1 };', 'struct St a@ = { .a = 1 };'), ('init-desig-chain', 'struct St a@ = { .a[0] = 1 };', 'struct St a@ = { .ar[0] = 1 };'), ('init-undecl', 'int a@ = nosuch@;', 'int a@ = EA;'), ('init-self-arr', 'int a@[] ;int b@ = sizeof a@;', 'int a@[2]; int b@ = sizeof a@;'), ('init-ext-block', 'static int a@[2] = { 1, 2, [5] = 3 };', 'static int a@[6] = { 1, 2, [5] = 3 };'),
    ('static-nonconst', 'static int a@ = iv;', 'static int a@ = EB;'), ('static-call', 'static int a@ = f0();', 'static int a@ = sizeof(f0());'), ('static-addr-sum', 'static long a@ = (long)&iv + iw;', 'static long a@ = (long)&iv + 2;'), ('static-mul-addr', 'static long a@ = 2 * (long)&iv;', 'static long a@ = (long)&iv;'), ('static-deref', 'static int a@ = *&iv;', 'static int *a@ = &*&iv;'), ('static-two-addr', 'static long a@ = (long)&iv + (long)&iw;', 'static long a@ = (long)&iv + 1;'), ('static-comma', 'static int a@ = (iv++, 3);', 'static int a@ = 3;'), ('static-assign', 'static int a@ = (iw = 3);', 'static int a@ = 3;'), ('static-narrow-addr', 'static char a@ = (char)(long)&iv;', 'static long a@ = (long)&iv;'), ('static-inner', 'static struct St a@ = { 1, dv };', 'static struct St a@ = { 1, 2.5 };'), ('static-cond', 'static int a@ = iv ? 1 : 2;', 'static int a@ = EB ? 1 : 2;'), ('static-not-addr-arr', 'static int a@ = arr[1];', 'static int *a@ = &arr[1];'), ('static-member', 'static int a@ = sp->a;', 'static int *a@ = &sv.a;'), ('static-idx', 'static int *a@ = &arr[iv];', 'static int *a@ = &arr[3];'), ('static-div0', 'static int a@ = 1 / 0;', 'static int a@ = 1 / 1;'),
    ('sa-false', '_Static_assert(0, "x");', '_Static_assert(1, "x");'), ('sa-false2', '_Static_assert(sizeof(int) == 8);', '_Static_assert(sizeof(int) == 4);'), ('sa-nonconst', '_Static_assert(iv, "x");', '_Static_assert(EB, "x");'), ('sa-dbl', '_Static_assert(1.0, "x");', '_Static_assert(1, "x");'), ('sa-msg', '_Static_assert(1, 3);', '_Static_assert(1, "3");'), ('sa-empty', '_Static_assert();', '_Static_assert(1);'), ('sa-semi', '_Static_assert(1, "x")\nint a@;', '_Static_assert(1, "x");\nint a@;'), ('sa-unsigned', '_Static_assert(-1 < 0u, "x");', '_Static_assert(-1 < 0, "x");'), ('sa-div', '_Static_assert(1 / 0 || 1, "x");', '_Static_assert(1 || 1 / 0, "x");'), ('sa-enum', '_Static_assert(EB == 4, "x");', '_Static_assert(EB == 5, "x");'), ('sa-offset', '_Static_assert(__builtin_offsetof(struct St, d) == 4, "");', '_Static_assert(__builtin_offsetof(struct St, d) == 8, "");'),
    ('alignas-3', '_Alignas(3) int a@;', '_Alignas(4) int a@;'), ('alignas-nonconst', '_Alignas(iv) int a@;', '_Alignas(8) int a@;'), ('alignas-unclosed', '_Alignas(8 int a@;', '_Alignas(8) int a@;'), ('typeof-undecl', '__typeof__(nosuch@) a@;', '__typeof__(iv) a@;'), ('typeof-empty', '__typeof__() a@;', '__typeof__(int) a@;'), ('typeof-unclosed', '__typeof__(iv a@;', '__typeof__(iv) a@;'), ('attr-unclosed', 'int a@ __attribute__((unused);', 'int a@ __attribute__((unused));'), ('attr-cleanup-nosuch', 'int a@ __attribute__((aligned(nosuch@)));', 'int a@ __attribute__((aligned(8)));'),
    ('thread-auto', '_Thread_local;', '_Thread_local static int a@;'), ('auto-noinit', '__auto_type a@;', 'int a@;'), ('constexpr-noinit', 'constexpr int a@;', 'constexpr int a@ = 1;'), ('constexpr-nonconst', 'constexpr int a@ = iv;', 'constexpr int a@ = EB;'), ('constexpr-range', 'constexpr unsigned char a@ = 256;', 'constexpr unsigned char a@ = 255;'), ('constexpr-neg', 'constexpr unsigned a@ = -1;', 'constexpr int a@ = -1;'), ('constexpr-flt', 'constexpr int a@ = 1.5;', 'constexpr int a@ = 1;'), ('constexpr-ptr', 'constexpr int *a@ = &iv;', 'constexpr int *a@ = 0;'), ('constexpr-fltprec', 'constexpr float a@ = 0.1;', 'constexpr float a@ = 0.5;'), ('constexpr-extern', 'extern constexpr int a@ = 1;', 'static constexpr int a@ = 1;'), ('constexpr-typedef', 'constexpr typedef int a@;', 'typedef int a@;'), ('constexpr-member', 'struct a@ { constexpr int x; };', 'struct a@ { int x; };'), ('constexpr-arr', 'constexpr int a@[2] = { 1, iv };', 'constexpr int a@[2] = { 1, EB };'),
]

FILE = [
    ('redef-var', 'int a@ = 1; int a@ = 2;', 'int a@ = 1; int b@ = 2;'), ('redef-fn', 'int a@(void) { return 1; } int a@(void) { return 2; }', 'int a@(void) { return 1; } int b@(void) { return 2; }'), ('conflict-fn', 'int a@(int); int a@(int, int);', 'int a@(int); int b@(int, int);'), ('conflict-fn-ret', 'int a@(int); double a@(int);', 'int a@(int); int a@(int);'), ('conflict-var', 'int a@; double a@;', 'int a@; int a@;'), ('var-fn', 'int a@; int a@(void);', 'int a@; int b@(void);'), ('static-after', 'int a@(void); static int a@(void) { return 1; }', 'static int a@(void); static int a@(void) { return 1; }'), ('static-var-after', 'int a@; static int a@;', 'static int a@; static int b@;'), ('typedef-redef', 'typedef int a@; typedef long a@;', 'typedef int a@; typedef int a@;'), ('typedef-var', 'typedef int a@; int a@;', 'typedef int a@; int b@;'), ('enum-var', 'enum { a@ }; int a@;', 'enum { a@ }; int b@;'),
    ('fn-nobody', 'int a@(void) return 1;', 'int a@(void) { return 1; }'), ('fn-noparen', 'int a@ { return 1; }', 'int a@(void) { return 1; }'), ('fn-unclosed-param', 'int a@(int x { return 1; }', 'int a@(int x) { return 1; }'), ('fn-in-list', 'int b@, a@(void) { return 1; }', 'int b@; int a@(void) { return 1; }'), ('fn-noname-param', 'int a@(int x, int x) { return x; }', 'int a@(int x, int y) { return x; }'), ('fn-inc-param', 'int a@(struct Inc x) { return 1; }', 'int a@(struct Inc *x) { return 1; }'), ('fn-inc-ret', 'struct Inc a@(void) { }', 'struct Inc *a@(void) { return 0; }'), ('fn-ret-arr-def', 'int a@(void)[2] { }', 'int (*a@(void))[2] { return 0; }'), ('vla-file', 'int a@[iv];', 'int a@[EB];'), ('vla-file2', 'extern int a@[f0()];', 'extern int a@[EB];'), ('vla-td', 'typedef int a@[iv];', 'typedef int a@[EB];'), ('vla-member', 'struct a@ { int x[iv]; };', 'struct a@ { int x[EB]; };'), ('stmt-expr-file', 'int a@ = ({ 1; });', 'int a@ = (1);'), ('stmt-file', 'iv = 3;', 'int a@ = 3;'), ('stmt-file2', 'if (1) { }', 'void a@(void) { if (1) { } }'), ('stmt-file3', 'return 0;', 'int a@(void) { return 0; }'), ('expr-file', '3 + 4;', 'int a@ = 3 + 4;'), ('brace-file', '}', ';') , ('brace-open', '{ int x; }', 'struct a@ { int x; };'), ('kr-extra', 'int a@(x) int y; { return 1; }', 'int a@(x) int x; { return 1; }'), ('param-undecl-use', 'int a@(int x) { return y@; }', 'int a@(int x) { return x; }'), ('param-scope', 'int a@(int p@) { return p@; } int b@ = sizeof p@;', 'int a@(int p@) { return p@; } int b@ = sizeof(int);'), ('local-scope', 'int a@(void) { int l@ = 0; return l@; } int *b@ = &l@;', 'int l@; int a@(void) { int l@ = 0; return l@; } int *b@ = &l@;'), ('tag-scope', 'int a@(void) { struct t@ { int q; } x = { 1 }; return x.q; } struct t@ b@ = { 1 };', 'int a@(void) { struct t@ { int q; } x = { 1 }; return x.q; } struct St b@ = { 1 };'), ('auto-file', 'auto int a@;', 'int a@;'), ('register-file', 'register int a@;', 'int a@;'), ('asm-noparen', 'asm "nop";', 'asm("nop");'), ('asm-nostr', 'asm(3);', 'asm("");'), ('fn-call-scope', 'int a@(void) { { int z@ = 1; } return z@; }', 'int a@(void) { int z@ = 2; { int z@ = 1; } return z@; }'), ('for-scope', 'int a@(void) { for (int z@ = 0; z@ < 2; z@++) ; return z@; }', 'int a@(void) { int z@; for (z@ = 0; z@ < 2; z@++) ; return z@; }'), ('lbl-fn', 'int a@(void) { l@: return 0; } int b@(void) { goto l@; }', 'int a@(void) { l@: return 0; } int b@(void) { goto l@; l@: return 0; }'),
    ('unclosed-fn', 'int a@(void) { if (1) { return 1; }', 'int a@(void) { if (1) { return 1; } }'), ('fn-redef-kr', 'int a@() { return 1; } int a@() { return 2; }', 'int a@() { return 1; } int b@() { return 2; }'), ('ret-void-val', 'struct St a@(void) { return 3; }', 'struct St a@(void) { return sv; }'), ('ret-struct-int', 'int a@(void) { return sv; }', 'int a@(void) { return sv.a; }'), ('void-ret-undecl', 'void a@(void) { return nosuch@; }', 'void a@(void) { return; }'),
    ('proto-more', 'int a@(void); int a@(int x) { return x; }', 'int a@(int); int a@(int x) { return x; }'), ('init-extern-fn', 'int a@(void) = 3;', 'int a@ = 3;'),
]

STMT = [
    ('no-semi', 'iv = 1 iw = 2;', 'iv = 1; iw = 2;'), ('no-semi2', 'iv = f0() }', 'iv = f0(); {}'), ('if-noparen', 'if iv ;', 'if (iv) ;'), ('if-empty', 'if () ;', 'if (1) ;'), ('if-unclosed', 'if (iv ;', 'if (iv) ;'), ('else-alone', 'iv = 1; else iv = 2;', 'if (iv) iv = 1; else iv = 2;'), ('else-twice', 'if (iv) ; else ; else ;', 'if (iv) ; else ;'), ('while-empty', 'while () ;', 'while (0) ;'), ('while-noparen', 'while iv ;', 'while (0) ;'), ('do-nowhile', 'do iv = 1; (0);', 'do iv = 1; while (0);'), ('do-nosemi', 'do ; while (0) iv = 1;', 'do ; while (0); iv = 1;'), ('for-two', 'for (iv = 0; iv < 1) ;', 'for (iv = 0; iv < 1; iv++) ;'), ('for-four', 'for (;;;) break;', 'for (;;) break;'), ('for-noparen', 'for iv = 0; ;', 'for (iv = 0; 0; ) ;'), ('for-decl-scope', 'for (int z@ = 0; z@ < 1; z@++) ; z@ = 2;', 'int z@; for (z@ = 0; z@ < 1; z@++) ; z@ = 2;'), ('switch-dbl', 'switch (dv) { }', 'switch (iv) { }'), ('switch-ptr', 'switch (ip) { }', 'switch (*ip) { }'), ('switch-struct', 'switch (sv) { }', 'switch (sv.a) { }'), ('switch-empty', 'switch () { }', 'switch (1) { }'), ('if-struct', 'if (sv) ;', 'if (sv.a) ;'), ('while-struct', 'while (sv) ;', 'while (0) ;'), ('for-struct', 'for (; sv; ) ;', 'for (; 0; ) ;'), ('do-struct', 'do ; while (sv);', 'do ; while (0);'), ('if-void', 'if (vf()) ;', 'if (f0()) ;'),
    ('case-alone', 'case 1: ;', 'switch (iv) { case 1: ; }'), ('default-alone', 'default: ;', 'switch (iv) { default: ; }'), ('dup-case', 'switch (iv) { case 1: ; case 1: ; }', 'switch (iv) { case 1: ; case 2: ; }'), ('dup-case-conv', 'switch (cv + 0) { case 4294967297: ; case 1: ; }', 'switch (cv + 0) { case 2: ; case 1: ; }') if 0 else ('dup-case2', 'switch (iv) { case EB: ; case 4 + 1: ; }', 'switch (iv) { case EB: ; case 4 + 2: ; }'), ('dup-case-nest', "switch (iv) { case 'a': { if (iv) { case 97: ; } } }", "switch (iv) { case 'a': { if (iv) { case 98: ; } } }"), ('dup-default', 'switch (iv) { default: ; default: ; }', 'switch (iv) { default: ; case 1: ; }'), ('case-nonconst', 'switch (iv) { case iw: ; }', 'switch (iv) { case EB: ; }'), ('case-dbl', 'switch (iv) { case 1.0: ; }', 'switch (iv) { case 1: ; }'), ('case-range-dup', 'switch (iv) { case 1 ... 5: ; case 3: ; }', 'switch (iv) { case 1 ... 5: ; case 6: ; }'), ('case-range-overlap', 'switch (iv) { case 1 ... 5: ; case 5 ... 9: ; }', 'switch (iv) { case 1 ... 5: ; case 6 ... 9: ; }'), ('case-range-contain', 'switch (iv) { case 4: ; case 1 ... 9: ; }', 'switch (iv) { case 4: ; case 5 ... 9: ; }'), ('case-range-empty', 'switch (iv) { case 5 ... 3: ; }', 'switch (iv) { case 3 ... 5: ; }') if 0 else ('case-nocolon', 'switch (iv) { case 1 ; }', 'switch (iv) { case 1: ; }'), ('case-neg-dup', 'switch (lv) { case -1: ; case 0xffffffffffffffff: ; }', 'switch (lv) { case -1: ; case 0xffffffff: ; }'), ('case-u-dup', 'switch (uv) { case -1: ; case 0xffffffff: ; }', 'switch (uv) { case -1: ; case 0x7fffffff: ; }'),
    ('break-alone', 'break;', 'while (1) break;'), ('continue-alone', 'continue;', 'while (0) continue;'), ('continue-switch', 'switch (iv) { case 1: continue; }', 'while (0) switch (iv) { case 1: continue; }'), ('break-if', 'if (iv) break;', 'while (1) if (iv) break; else break;'), ('break-nosemi', 'while (1) break }', 'while (1) break; {}'), ('goto-undef', 'goto nolab@;', 'goto lab@; lab@: ;'), ('goto-num', 'goto 3;', 'goto lab@; lab@: ;'), ('goto-nosemi', 'goto lab@ lab@: ;', 'goto lab@; lab@: ;'), ('dup-label', 'lab@: ; lab@: ;', 'lab@: ; labb@: ;'), ('dup-label-nest', 'lab@: ; { if (iv) { lab@: ; } }', 'lab@: ; { if (iv) { labb@: ; } }'), ('goto-var', 'goto iv;', 'goto *({ lab@: &&lab@; });') if 0 else ('goto-expr', 'goto (1);', 'goto lab@; lab@: ;'), ('goto-into-vla', 'goto lab@; { int v@[iv + 1]; lab@: ; }', 'goto lab@; { int v@[3]; lab@: ; }'), ('goto-into-vla2', '{ int v@[f0()]; lab@: ; } goto lab@;', '{ int v@[3]; lab@: ; } goto lab@;'), ('switch-into-vla', 'switch (iv) { int v@[f0()]; case 1: ; }', 'switch (iv) { int v@[3]; case 1: ; }'), ('switch-into-vla2', 'switch (iv) { case 0: ; int v@[f0()]; case 1: ; }', 'switch (iv) { case 0: ; { int v@[f0()]; } case 1: ; }'), ('goto-stmtexpr', 'goto lab@; iv = ({ lab@: 1; });', 'goto lab@; iv = ({ 1; }); lab@: ;'),
    ('return-nosemi', 'return 0 }', 'return; {}'), ('unbalanced-brace', '{ iv = 1;', '{ iv = 1; }'), ('unbalanced-paren', 'f2((1, 2);', 'f2((1), 2);'), ('vla-static', 'static int v@[f0()];', 'static int v@[3];'), ('vla-extern', 'extern int v@[f0()];', 'extern int v@[3];'), ('vla-init', 'int v@[f0()] = { 1, 2 };', 'int v@[3] = { 1, 2 };'), ('vla-init-str', 'char v@[f0()] = "a";', 'char v@[3] = "a";'), ('vla-member', 'struct a@ { int x[iv]; } y@;', 'struct a@ { int x[3]; } y@;'), ('vla-complit', '(int[iv]){ 1 };', '(int[3]){ 1 };'), ('redef-local', 'int a@; int a@;', 'int a@; { int a@; }'), ('redef-local2', 'int a@ = 1; double a@ = 2;', 'int a@ = 1; double b@ = 2;'), ('redef-local-td', 'typedef int a@; int a@ = 1;', 'typedef int a@; { int a@ = 1; }'), ('redef-local-enum', 'enum { a@ }; int a@ = 2;', 'enum { a@ }; int b@ = 2;'), ('use-before', 'b@ = 1; int b@;', 'int b@; b@ = 1;'), ('nested-fn', 'int n@(void) { return 1; }', 'int n@(void);'), ('cleanup-nosuch', 'int a@ __attribute__((cleanup(nosuch@)));', 'int a@;'), ('extern-init', 'extern int a@ = 3;', 'static int a@ = 3;'), ('thread-local-auto', '_Thread_local int a@;', 'static _Thread_local int a@;'), ('label-end', 'goto ;', ';'), ('asm-syntax', 'asm volatile("nop" : "=r");', 'asm volatile("nop" : "=r"(iv));'), ('asm-unclosed', 'asm("nop" ;', 'asm("nop");'), ('asm-notlv', 'asm("" : "=r"(3));', 'asm("" : "=r"(iv));'), ('asm-name', 'asm("" : [x] "=r"(iv) : "[y]"(2));', 'asm("" : [x] "=r"(iv) : "[x]"(2));'), ('asm-noconstraint', 'asm("" :: (iv));', 'asm("" :: "r"(iv));'), ('va-start-nonva', '__builtin_va_list ap@; nosuch@(ap@);', '__builtin_va_list ap@; (void)ap@;'), ('static-assert-fn', 'static_assert(sizeof(int) == 2);', '_Static_assert(sizeof(int) == 4, "");'), ('stmt-kw', 'else;', ';'), ('stmt-type', 'int;;; double +;', 'int;;;'), ('struct-noend', 'struct q@ { int x; } ; struct q@ y@ = { .y = 1 };', 'struct q@ { int x; } ; struct q@ y@ = { .x = 1 };'), ('stmt-rbr', 'iv = 1; )', 'iv = 1;'), ('stmt-rbk', ']', ';'), ('stmt-colon', 'iv : = 3;', 'iv = 3;'), ('if-decl', 'if (int x) ;', 'int x@ = 1; if (x@) ;') if 0 else ('do-scope', 'do int a@; while (0);', 'do { int a@; } while (0);'),
]

# whole lines
PP = [
    ('error', '#error some text', '#ifdef NOSUCH@\n#error some text\n#endif'), ('error-taken', '#if 1\n#error\n#endif', '#if 0\n#error\n#endif'), ('error-else', '#if 0\n#else\n#error x\n#endif', '#if 1\n#else\n#error x\n#endif'), ('error-elif', '#if 0\n#elif 2 > 1\n# error "q"\n#endif', '#if 0\n#elif 2 < 1\n# error "q"\n#endif'), ('if-unterminated', '#if 1', '#if 1\n#endif'), ('ifdef-unterminated', '#ifndef NOSUCH@', '#ifndef NOSUCH@\n#endif'), ('stray-endif', '#endif', '#if 0\n#endif'), ('stray-else', '#else', '#if 1\n#else\n#endif'), ('stray-elif', '#elif 1', '#if 0\n#elif 1\n#endif'), ('stray-elifdef', '#elifdef X', '#if 0\n#elifdef X\n#endif'), ('stray-elifndef', '#elifndef X', '#if 1\n#elifndef X\n#endif'), ('else-else', '#if 0\n#else\n#else\n#endif', '#if 0\n#else\n#endif'), ('else-elif', '#if 0\n#else\n#elif 1\n#endif', '#if 0\n#elif 1\n#else\n#endif'), ('else-else2', '#if 1\n#else\n#else\n#endif', '#if 1\n#else\n#endif'), ('else-elifdef', '#if 1\n#else\n#elifdef A\n#endif', '#if 1\n#elifdef A\n#else\n#endif'),
    ('if-empty', '#if\n#endif', '#if 1\n#endif'), ('if-syntax', '#if 1 +\n#endif', '#if 1 + 1\n#endif'), ('if-paren', '#if (1\n#endif', '#if (1)\n#endif'), ('if-str', '#if "a"\n#endif', "#if 'a'\n#endif"), ('if-float', '#if 1.0\n#endif', '#if 1\n#endif'), ('if-assign', '#define AA@ 1\n#if AA@ = 1\n#endif', '#define AA@ 1\n#if AA@ == 1\n#endif'), ('if-extra', '#if 1 2\n#endif', '#if 1 + 2\n#endif'), ('if-div0', '#if 1 / 0\n#endif', '#if 1 / 1\n#endif'), ('if-mod0', '#if 1 % 0\n#endif', '#if 0 && 1 % 0\n#endif'), ('if-defined', '#if defined\n#endif', '#if defined X\n#endif'), ('if-defined2', '#if defined(X\n#endif', '#if defined(X)\n#endif'), ('if-defined3', '#if defined()\n#endif', '#if defined(A)\n#endif'), ('if-defined-num', '#if defined 3\n#endif', '#if defined A3\n#endif'), ('elif-syntax', '#if 0\n#elif 1 ==\n#endif', '#if 0\n#elif 1 == 1\n#endif'), ('elif-empty', '#if 0\n#elif\n#endif', '#if 0\n#elif 1\n#endif'), ('if-cond', '#if 1 ? 2\n#endif', '#if 1 ? 2 : 3\n#endif'), ('if-call', '#if FOO@(1)\n#endif', '#define FOO@(x) x\n#if FOO@(1)\n#endif'), ('if-cast', '#if (int)1.0\n#endif', '#if (1)\n#endif'), ('if-hasinc', '#if __has_include\n#endif', '#if __has_include("x.h")\n#endif'), ('if-hasinc2', '#if __has_include(3)\n#endif', '#if __has_include(<x>)\n#endif'), ('ifdef-noname', '#ifdef\n#endif', '#ifdef X\n#endif'), ('ifndef-num', '#ifndef 3\n#endif', '#ifndef X3\n#endif'),
    ('define-noname', '#define', '#define D@'), ('define-num', '#define 3 4', '#define D3@ 4'), ('define-str', '#define "x" 4', '#define D@ "x" 4'), ('define-unclosed', '#define D@(a, b', '#define D@(a, b)'), ('define-param-num', '#define D@(1) x', '#define D@(a) x'), ('define-param-comma', '#define D@(a,) x', '#define D@(a,b) x'), ('define-param-dup', '#define D@(a, a) x', '#define D@(a, b) x'), ('define-after-dots', '#define D@(..., a) x', '#define D@(a, ...) x'), ('hash-nonparam', '#define D@(a) #b\nconst char *s@ = D@(1);', '#define D@(a) #a\nconst char *s@ = D@(1);'), ('hash-end', '#define D@(a) a #\nint s@ = D@(1);', '#define D@(a) a\nint s@ = D@(1);'), ('paste-start', '#define D@(a) ## a\nint s@ = D@(1);', '#define D@(a) a ## a\nint s@ = D@(1);'), ('paste-end', '#define D@ 1 ##\nint s@ = D@;', '#define D@ 1 ## 2\nint s@ = D@;'), ('paste-end-fn', '#define D@(x) x ##\nint s@ = D@(1);', '#define D@(x) x ## x\nint s@ = D@(1);'), ('paste-start-obj', '#define D@ ## 1\nint s@ = D@;', '#define D@ 1\nint s@ = D@;'), ('paste-bad', '#define D@(a, b) a ## b\nint v@ = 1 D@(+, /) 2;', '#define D@(a, b) a b\nint v@ = 1 D@(+, +) 2;'), ('paste-bad2', '#define D@ . ## .\nint v@ = D@;', '#define D@ 1 ## 1\nint v@ = D@;'), ('undef-noname', '#undef', '#undef X'), ('undef-num', '#undef 3', '#undef X3'), ('redefine', '#define D@ 1\n#define D@ 2', '#define D@ 1\n#define D@ 1'),
    ('args-few', '#define D@(a, b) 1\nint v@ = D@(1);', '#define D@(a, b) 1\nint v@ = D@(1, 2);'), ('args-many', '#define D@(a) 1\nint v@ = D@(1, 2);', '#define D@(a) 1\nint v@ = D@((1, 2));'), ('args-zero', '#define D@() 1\nint v@ = D@(1);', '#define D@() 1\nint v@ = D@();'), ('args-unterminated', '#define D@(a) 1\nint v@ = D@(1', '#define D@(a) 1\nint v@ = D@(1);'), ('args-unterminated2', '#define D@(a, b) 1\nint v@ = D@((1, 2);', '#define D@(a, b) 1\nint v@ = D@((1), 2);'),
    ('include-missing', '#include "nosuch@.h"', '#if 0\n#include "nosuch@.h"\n#endif'), ('include-missing2', '#include <nosuch@.h>', '#if 0\n#include <nosuch@.h>\n#endif'), ('include-empty', '#include', ';'), ('include-num', '#include 3', ';'), ('include-unclosed', '#include <stddef.h', '#include <stddef.h>'), ('include-macro', '#define H@ 3\n#include H@', '#define H@ <stddef.h>\n#include H@'), ('include-unclosed2', '#include "x.h', ';'), ('embed-missing', 'int v@ = {\n#embed "nosuch@.bin"\n};', 'int v@ = {\n1\n};'), ('embed-param', 'int v@[] = {\n#embed "t.c" nosuch(1)\n};', 'int v@[] = {\n1\n};'), ('directive', '#nosuch', '#pragma nosuch'), ('directive2', '#includ <stddef.h>', '#include <stddef.h>'), ('line-num', '#line', ';'), ('line-str', '#line "x"', ';'), ('line-bad', '#line abc', ';'),
    ('str-unclosed', 'const char *s@ = "abc;', 'const char *s@ = "abc";'), ('str-unclosed2', "const char *s@ = \"abc\\\";", 'const char *s@ = "abc\\"";'), ('chr-unclosed', "int s@ = 'a;", "int s@ = 'a';"), ('str-newline', 'const char *s@ = "a\nb";', 'const char *s@ = "a\\nb";'), ('va-opt-outside', '#define D@(a) __VA_OPT__(a)\nint v@ = D@(1);', '#define D@(a, ...) __VA_OPT__(a) 1\nint v@ = D@(1);'), ('va-args-outside', '#define D@(a) __VA_ARGS__\nint v@ = D@(1);', '#define D@(...) __VA_ARGS__\nint v@ = D@(1);'), ('pragma-unclosed', '_Pragma("x"', '_Pragma("x")'), ('pragma-nostr', '_Pragma(3)', '_Pragma("3")'), ('comment-unclosed', 'int v@; /* abc', 'int v@; /* abc */'),
]
TAIL = {'if-unterminated', 'ifdef-unterminated', 'args-unterminated', 'args-unterminated2', 'comment-unclosed', 'unclosed-fn', 'pragma-unclosed'}

# Constraints this compiler does not enforce (documented in DESIGN.md): nothing is asked of these.
LAX = set('''E:assign-cast E:addr-cast E:cast-struct E:cast-dbl-ptr E:assign-struct-int E:assign-struct-struct E:assign-fn E:inc-arr E:alignof-inc E:ptr-inc-arith E:idx-inc E:bitfield-sizeof E:generic-dup E:generic-dupdef E:suffix-int-f E:complit-void E:complit-fn E:complit-inc E:offsetof-bf
D:void-arr D:fn-member D:inc-member D:void-member D:self-member D:void-param D:void-param2 D:bf-wide D:bf-zero-named D:bf-dbl D:bf-ptr D:bf-arr D:dup-member D:dup-member-anon D:redef-struct D:redef-union D:tag-kind D:enum-tag-struct D:struct-nomember-name D:flex-first D:flex-mid D:enum-dup D:enum-fixed-dbl D:enum-fixed-redecl D:storage-conflict D:storage-conflict2 D:storage-conflict3 D:storage-member D:alignas-typedef D:param-comma D:init-wstr D:init-int-str D:alignas-3 D:constexpr-range D:constexpr-neg D:constexpr-flt D:constexpr-fltprec D:constexpr-extern D:constexpr-typedef D:constexpr-member
F:conflict-fn F:conflict-fn-ret F:conflict-var F:var-fn F:static-var-after F:typedef-redef F:typedef-var F:enum-var F:fn-noname-param F:fn-inc-param F:fn-inc-ret F:kr-extra F:tag-scope F:auto-file F:register-file F:ret-void-val
S:dup-label S:dup-label-nest S:goto-stmtexpr S:vla-extern S:redef-local S:redef-local2 S:redef-local-td S:redef-local-enum S:extern-init S:thread-local-auto P:define-param-dup P:redefine'''.split())
# not enforced at file scope
# the missing token is reported where another one was found
NEXT = {'no-semi', 'no-semi2', 'define-noname', 'undef-noname', 'include-empty', 'line-num'}
LAXFILE = {'inc-var', 'inc-arr', 'neg-arr', 'incomplete-arr', 'enum-incomplete'}
ASMKW = re.compile(r'\basm\b')


def nest_expr(r, x, n):
    """the expression inside a larger, evaluated one"""
    for _ in range(n):
        x = r.choice(('f2(%s, 1)', 'f2(1, %s)', '(%s) + 1', '(iv ? %s : 1)', 'arr[(%s)]', '(1, %s)', '!(%s)', '(int)(%s)', '({ %s; })', 'sv.ar[%s]', '(iv && (%s))', '((%s) == 3)', '(int[2]){ 1, %s }[1]', '-(int)(%s)', 'fp(%s)', '({ int q = %s; q; })', 'fv(1, 2, %s)', '(iw |= %s)', 'f2((struct St){ .in = %s }.in, 1)', '*(ip + (%s))')).replace('%s', x)
    return x


def expr_stmt(r, x):
    return r.choice(('iv = %s;', 'if (%s) iv = 2;', 'while (%s) break;', 'do ; while (%s);', 'switch (%s) { case 1: ; }', 'for (; %s; ) break;', 'int q@ = %s;', 'int q@[3] = { 1, [2] = %s };', 'struct St q@ = { .ar = { [1] = %s } };', 'iv += %s;', 'arr[%s] = 3;', 'f2(1, %s);', 'int q@ = 1, w@ = %s;', 'ip = &arr[%s];', 'dv = 2.5 * (%s);', 'sp->bf = %s;')).replace('%s', x)


def nest_stmt(r, x, n, k):
    for i in range(n):
        u = f'{k}_{i}'
        x = r.choice(('{ int n#; X }', 'if (iv) { X } else { iw++; }', 'if (iv) iw = 1; else { X }', 'if (0) { X }', 'switch (iv) { case 1234: { X } break; default: ; }', 'iv = ({ X 1; });', 'lb#: { X }', '{ iw++; return; X }', '{ iv++; { X } iw--; }', '{ typedef long t#; t# u# = 2; X }', '{ struct { int a, b; } s# = { 1, 2 }; (void)s#; X }', '{ int c# = ({ int z# = 1; z#; }); X }', 'if (iv == 2) { if (iw) { X } }', '{ enum { n# = 3 }; X }', '{ static int n#; n#++; X }', '{ extern int n#; X }')
                     ).replace('#', u).replace('X', x)
    return x


NOISE = ['int nz@(int x) { return x ? x * nz0(x - 1) : 1; }', 'static const char *ns@[] = { "a", "b\\n", u8"c" };', 'enum { NE@ = 3, NF@ };', 'typedef struct NS@ { int a; struct NS@ *n; } NS@;', '#define NM@(a, ...) a __VA_ARGS__', '/* comment " \' */', '// line', '', 'static inline long ni@(NT0 *p) { for (int i = 0; i < 3; i++) if (*p > i) continue; else break; return *p; }', 'union { int a; float f; } nu@;', '#if 0\n#error no\n"\n#endif', 'int na@[][2] = { { 1, 2 }, { 3 } };', 'void nv@(int n) { int v[n]; v[0] = 1; switch (n) { case 1 ... 3: v[0]++; default:; } }', '_Static_assert(sizeof(int) == 4, "");', 'static int nst@ = sizeof(struct St);']


def balanced(t):
    st = []
    for ch in re.sub(r'"(?:\\.|[^"\n])*"|\'(?:\\.|[^\'\n])*\'', '', t):
        if ch in '([{': st.append(ch)
        elif ch in ')]}':
            if not st or '([{'.index(st.pop()) != ')]}'.index(ch): return False
    return not st


def make(r, lv, ent, k):
    """-> {variant: files}, first/last line and file of the construct, per variant"""
    name, bad, good = ent
    seed = r.getrandbits(40)
    out = {}
    for which, x in (('bad', bad), ('good', good)):
        q = __import__('random').Random(seed)
        x = x.replace('@', str(k))
        if lv == 'E':
            x = expr_stmt(q, nest_expr(q, x, q.choice((0, 0, 1, 1, 2, 3)))).replace('@', f'{k}q')
        infn = lv in 'ES' or (lv == 'D' and q.random() < (.9 if name in LAXFILE else .5)) or (lv == 'D' and name in LAXFILE)
        nbefore, nafter = q.randrange(4), q.randrange(3)
        if name in TAIL: nafter = 0
        noise = [q.choice(NOISE).replace('@', f'{k}n{i}') for i in range(nbefore + nafter)]
        form = q.choice(('main', 'main', 'hdr', 'arg', 'body'))
        tail = name in TAIL
        okm = balanced(bad) and balanced(good) and '#' not in bad + good and '\n' not in bad + good and lv != 'P' and '__VA' not in bad and name not in ('chr-empty', 'stray-bs') and "'" not in bad + good and '"' not in bad + good and ',' not in ''
        if form in ('arg', 'body') and (not okm or tail): form = 'main'
        if infn:
            x = nest_stmt(q, x, q.choice((0, 1, 1, 2, 3)), k)
            if q.random() < .5: x = re.sub(r'([;{}]) ', lambda mm: mm.group(1) + (q.choice(('\n', ' ', '\n\n')) if '"' not in x and form != 'body' else ' '), x)
        pre_x = []
        if form == 'arg': pre_x, x2 = [f'#define ID{k}(...) __VA_ARGS__'], f'ID{k}({x})'
        elif form == 'body': pre_x, x2 = [f'#define BD{k} {x}'], f'BD{k}'
        else: x2 = x
        head = q.choice(('static inline void F(void) {', 'void F(int pa, ...) {', 'void F(void) {', 'void F(a, b) int a; double b; {', 'static void F(void)\n{'))
        blk = head + '\n' + x2 + '\n}' if infn else x2
        L = PRE.rstrip('\n').split('\n') + ['typedef int NT0; int nz0(int);']
        H = []
        tgt = H if form == 'hdr' else L
        tgt += [y for z in noise[:nbefore] for y in z.split('\n')]
        tgt += pre_x
        first = len(tgt) if form == 'body' else len(tgt) + 1
        tgt += blk.split('\n')
        last = len(tgt)
        post = [y for z in noise[nbefore:] for y in z.split('\n')]
        files = {}
        if form == 'hdr':
            files['h.h'] = '\n'.join(H + post) + '\n'
            L.append('#include "h.h"')
            if not tail: L.append(f'int end{k};')
        else:
            L += post
            if not tail: L.append(f'int end{k};')
        files['t.c'] = '\n'.join(L) + '\n'
        # a missing token is reported at the next token, however far away; an unclosed construct anywhere after its start
        nl = len(H if form == 'hdr' else L)
        loose = not balanced(bad) or tail or name in NEXT
        out[which] = (files, 'h.h' if form == 'hdr' else 't.c', first, nl + 1 if loose else last + 1, form, loose)
    return out


def check(ctx):
    ctx.rule = ('%d kinds of ill-formed expression, declaration, statement, definition and directive that the compiler enforces, each with a corrected twin, placed in random evaluated contexts (nested expressions and statements, headers, macro arguments and bodies, unused and unreachable code); '
                'gcc must reject the one and accept the other. slimcc must exit with status 1, name a file and line inside the construct, and create no file for the bad one, and compile the good one. events: diagnostics with a position judged + accepted twins; non-trivial: distinct bad programs')
    slim = ctx.build('plain')
    ents = [(lv, e) for lv, T in (('E', EXPR), ('D', DECL), ('F', FILE), ('S', STMT), ('P', PP)) for e in T if f'{lv}:{e[0]}' not in LAX and not ASMKW.search(e[2])]
    ctx.rule = ctx.rule % len(ents)

    def one(idx):
        res = Res()
        r = ctx.rng(idx)
        lv, e = ents[idx % len(ents)]
        v = make(r, lv, e, r.randrange(1, 99))
        d = os.path.join(ctx.work, f'w{os.getpid()}')
        mode = r.choice((['-c', '-o', 'o.out'], ['-S', '-o', 'o.out'], ['-c', '-o', 'o.out'], ['-o', 'o.out', '-shared', '-fPIC']))
        opts = r.choice(([], ['-O1'], ['-w'], ['-g'], ['-fPIC']))
        for which in ('good', 'bad'):
            files, fn, first, last, form, loose = v[which]
            os.makedirs(d, exist_ok=True)
            for f in os.listdir(d): os.unlink(os.path.join(d, f))
            for f, t in files.items(): open(os.path.join(d, f), 'w').write(t)
            g = run(['gcc', '-std=gnu2x', '-w', '-fsyntax-only', '-Werror=implicit-function-declaration', '-Werror=implicit-int', '-fmax-errors=1', 't.c'], cwd=d, timeout=60)
            if (g.rc == 0) != (which == 'good'):
                res.genfail += 1
                res.genfail_msgs.append(f'{lv}:{e[0]} {which} {form}: gcc rc={g.rc} {g.err[:300]}')
                return res
            s = run([slim, '-std=c23', *opts, *mode, 't.c'], cwd=d, timeout=60)
            if s.to: s = run([slim, '-std=c23', *opts, *mode, 't.c'], cwd=d, timeout=240)
            res.evals += 1
            new = sorted(set(os.listdir(d)) - set(files))
            msg = None
            if which == 'good':
                if s.rc != 0: msg = f'valid program rejected (rc={s.rc}): {s.err[:300]}'
                elif new != ['o.out']: msg = f'exit status 0 but files created: {new}'
                else: res.events += 1; res.count('accepted-twins')
            else:
                pos = [(os.path.basename(a), int(b)) for a, b in re.findall(r'^(\S+?):(\d+):', s.err, re.M)]
                if s.rc == 0: msg = 'ill-formed program compiled silently' if not s.err.strip() else f'ill-formed program compiled, exit status 0: {s.err[:200]}'
                elif s.rc != 1 or s.sig or 'internal error' in s.err: msg = f'abnormal end (rc={s.rc}): {s.err[:200]}'
                elif new: msg = f'rejected, but files created: {new}'
                elif not pos: msg = f'diagnostic names no file and line: {s.err[:200]!r}'
                elif not any(f == fn and first <= l <= last for f, l in pos) and not (form == 'hdr' and loose): msg = f'diagnostic names {pos[:3]}, the construct is in {fn} lines {first}..{last}: {s.err[:200]!r}'
                else:
                    res.events += 1; res.count('diagnosed')
                    res.distinct.add(h(files[fn]))
                    res.count('class-' + lv)
            if msg:
                res.violation(f'{lv}:{e[0]}:{which}', f'[{lv}:{e[0]}, {which}, {form}] {msg}', files, f'slimcc -std=c23 {" ".join(opts + mode)} t.c')
                return res
        if idx == 3: res.sample = {'bad': v['bad'][0]['t.c'][-400:], 'position': list(v['bad'][1:4])}
        return res
    ctx.pmap(one, range(ctx.n(len(ents) * 12, len(ents) * 200)))


if __name__ == '__main__':
    main('R03', check, min_events=2000, min_distinct=800)
