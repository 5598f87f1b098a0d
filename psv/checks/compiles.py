"""C29: the source emitted for a description that is accepted is accepted by the Rust compiler.

The compiler of descriptions is interpreted (from the text of the description to the emitted token stream, which is fully known for
a given description), the token stream is written out and type checked by rustc, up to borrow checking. Nothing is executed.
"""
import itertools
import re
from ..sem import Sem, Undecided
from ..concrete import source
from .. import typecheck

INTS = ['u8', 'i8', 'u16', 'i16', 'u32', 'i32', 'u64', 'i64', 'u128', 'i128']

DECL = {
    'E': 'type E = enum u8 { one = 1, two };',
    'G': 'type G = enum i16 { one = 1, other = default };',
    'B': 'type B = bitfield u16 { fa = 1, fb };',
    'S': 'type S = container { sa: u8, sb: u16 };',
    'V': 'type V = container { };',
    'W': 'type W = container { wa: u32[..] };',
    'U': 'type U = container +tagged_enum { One: u8 {false}, Two: container { ta: u8 } };',
    'P': 'type P(x: u8) = container { pa: u8[x] };',
    'A': 'type A = u16;',
    'L': 'type L = u8[4];',
    'Rec': 'type Rec = container { ra: u8, rb: Rec[ra] };',
}
FFI = {'utf8': 'type', 'utf16': 'type', 'gzip': 'transform', 'base64': 'transform', 'v8': 'type', 'v16': 'type', 'v32': 'type', 'v64': 'type', 'v128': 'type',
       'sum': 'function', 'pad': 'function', 'bits': 'function'}

# name -> (type text, declarations it needs); `n` is a field in scope
KINDS = {x: (x, '') for x in INTS + ['u16le', 'i64le', 'u128le', 'f32', 'f64', 'bool', 'v8', 'v16', 'v32', 'v64', 'v128']}
KINDS.update({
    'text': ('utf8', ''), 'text(n)': ('utf8(n)', ''), 'text16(n)': ('utf16(n)', ''),
    'enum': ('E', 'E'), 'open enum': ('G', 'G'), 'bitfield': ('B', 'B'), 'struct': ('S', 'S'), 'empty': ('V', 'V'), 'tagged': ('U', 'U'),
    'with argument': ('P(n)', 'P'), 'alias': ('A', 'A'), 'alias array': ('L', 'L'), 'recursive': ('Rec', 'Rec'),
    'array': ('u8[4]', ''), 'array of arrays': ('u16[4][n]', ''), 'bytes': ('u8[n]', ''), 'wide array': ('u32[n]', ''), 'open array': ('u16[..]', ''), 'open bytes': ('u8[..]', ''),
    'terminated': ('u8[.."end"]', ''), 'structs': ('S[n]', 'S'), 'open structs': ('S[..]', 'S'), 'enums': ('E[n]', 'E'), 'texts': ('utf8[n]', ''),
    'floats': ('f32[n]', ''), 'bools': ('bool[n]', ''), 'varints': ('v32[n]', ''), 'bitfields': ('B[2]', 'B'),
    'part': ('container { ia: u8, ib: u16 {ia == 1} }', ''), 'sized part': ('container [n] { ic: u8[..] }', ''),
    'variants': ('container +tagged_enum { Vone: u8 {n == 1}, Vtwo: u16 {n == 2} }', ''),
})

# name -> description around `@`, with `n: u8` in scope in front of it
PLACES = {
    'field': 'type T = container { n: u8, x: @, z: u8 };',
    'last field': 'type T = container { n: u8, x: @ };',
    'optional': 'type T = container { n: u8, x: @ {n == 1}, z: u8 };',
    'in part': 'type T = container { n: u8, p: container { x: @ }, z: u8 };',
    'in optional part': 'type T = container { n: u8, p: container { x: @, y: u8 } {n == 1} };',
    'optional in optional part': 'type T = container { n: u8, p: container { x: @ {n == 2}, y: u8 } {n == 1} };',
    'in sized part': 'type T = container { n: u8, p: container [8] { x: @ } };',
    'variant': 'type Q(n: u8) = container +tagged_enum { One: @ {n == 1}, Two: u8 {n == 2} }; type T = container { n: u8, q: Q(n) };',
    'variant field': 'type Q(n: u8) = container +tagged_enum { One: container { x: @, y: u8 } {n == 1}, Two: u8 {n == 2} }; type T = container { n: u8, q: Q(n) };',
    'elements': 'type T = container { n: u8, x: @[3], y: u8 };',
    'open elements': 'type T = container { n: u8, x: @[..] };',
    'transformed': 'type T = container { n: u8, x: @ -> gzip, z: u8 };',
    'conditionally transformed': 'type T = container { n: u8, x: @ -> gzip {n == 1}, z: u8 };',
    'transformed twice': 'type T = container { n: u8, x: @ -> gzip -> gzip, z: u8 };',
    'conditionally transformed twice': 'type T = container { n: u8, x: @ -> gzip {n == 1} -> gzip {n == 2}, z: u8 };',
    'in transformed part': 'type T = container { n: u8, p: container { x: @, y: u8 } -> gzip, z: u8 };',
    'alias': 'type Q(n: u8) = @; type T = container { n: u8, q: Q(n) };',
    'measured': 'type T = container { n: u8, l: u8 = blen(p) :> u8, p: container [4] { x: @ } };',
    'behind padding': 'type T = container { n: u8, .pad: 3, x: @, .pad: n };',
}

OTHER = {}


def other(name, text):
    OTHER[name] = text


for _k in INTS + ['f32', 'f64', 'bool']:
    other('type:' + _k, 'type T = %s;' % _k)
    other('const:' + _k, 'const c: %s = %s;' % (_k, 'true' if _k == 'bool' else '1.5' if _k[0] == 'f' else '7'))
for _k in INTS:
    other('enum of ' + _k, 'type E = enum %s { a = 1, b, c = 9 };' % _k)
    other('open enum of ' + _k, 'type E = enum %s { a = 1, b, o = default };' % _k)
    other('bitfield of ' + _k, 'type E = bitfield %s { a = 1, b, c = 24 };' % _k)
for _k in ('E', 'G', 'B', 'S', 'U', 'P', 'A', 'L', 'Rec', 'V', 'W'):
    other('declared ' + _k, DECL[_k])
for _op in ('+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>', '>>>'):
    other('operator ' + _op, 'type T = container { a: i32, b: i32, x: u8[(a %s b) :> u8], };' % _op)
    other('literal operand ' + _op, 'type T = container { a: u32, x: u8[a %s 3], y: u8[3 %s a] };' % (_op, _op))
for _op in ('<', '<=', '>', '>=', '==', '!='):
    other('comparison ' + _op, 'type T = container { a: u8, b: u8, x: u8 {a %s b}, y: u8 {a %s 3} };' % (_op, _op))
for _op in ('&&', '||'):
    other('logic ' + _op, 'type T = container { a: u8, b: bool, x: u8 {a == 1 %s b}, y: u8 {!b %s b} };' % (_op, _op))
other('conditional', 'type T = container { a: u8, b: u8, x: u8[a == 1 ? b : 3], y: u8 {(a == 1 ? b : 3) == 2} };')
other('unary', 'type T = container { a: i8, b: bool, x: u8 {-a == 1}, y: u8 {!b} };')
for _a, _b in itertools.product(('u8', 'i16', 'u64', 'i128', 'f32', 'f64'), repeat=2):
    other('cast %s to %s' % (_a, _b), 'type T = container { a: %s, b: %s, x: u8 {(a :> %s) == b} };' % (_a, _b, _b))
for _a, _b in itertools.product(('bool', 'E', 'G', 'B', 'S', 'utf8', 'u8[4]', 'v16', 'A', 'u32'), ('u8', 'i64', 'f32', 'bool', 'v16', 'u8[4]', 'utf8', 'A', 'B')):
    if _a != _b:
        other('value of %s as %s' % (_a, _b), ''.join(DECL[x] for x in (_a, _b) if x in DECL) + 'type T = container { a: %s, b: %s, x: u8 {(a :> %s) == b} };' % (_a, _b, _b))
other('cast to enum', DECL['E'] + 'type T = container { a: u8, x: u8 {(a :> E) == E::one} };')
other('enum member', DECL['E'] + 'type T = container { e: E, x: u8 {e == E::one}, y: u8 {e != E::two} };')
other('enum value', DECL['E'] + 'type T = container { e: E, x: u8[e :> u8] };')
other('flag', DECL['B'] + 'type T = container { b: B, x: u8 {b.fa}, y: u8 {b.fb == false} };')
other('flag members', DECL['B'] + 'type T = container { b: B, x: u8 {(b & B::fa) == B::fa} };')
other('index', 'type T = container { n: u8, a: u8[4], x: u8[a[1] :> u8], y: u8 {a[n] == 2} };')
other('bits', 'type T = container { a: u8, x: u8[bits(a) :> u8] };')
other('constant used', 'const k: u8 = 3; const j: u16 = k + 1; type T = container { a: u8[k], x: u8 {a[0] == k} };')
other('field of a part', 'type T = container { p: container { a: u8 }, x: u8[p.a] };')
other('field of a struct', DECL['S'] + 'type T = container { s: S, x: u8[s.sa], y: u8 {s.sb == 2} };')
other('len', 'type T = container { a: u8 = len(b) :> u8, b: u8[a], };')
other('len of text', 'type T = container { a: u8 = len(b) :> u8, b: utf8(a) };')
other('blen', 'type T = container { a: u8 = blen(b) :> u8, b: container [a] { c: u8[..] } };')
other('two blen', 'type T = container { a: u8 = blen(c) :> u8, b: u8 = blen(d) :> u8, c: container [a] { e: u8[..] }, d: container [b] { f_: u8[..] } };')
other('sum', 'type T = container { a: u64 = sum(b), b: u8[..] };')
other('pad', 'type T = container { a: u8, .pad: pad(a, 4), b: u8 };')
other('arguments', 'type P(x: u8, y: u16, z: bool) = container { a: u8[x], b: u8[y], c: u8 {z} }; type T = container { n: u8, p: P(n, 3, n == 1) };')
other('argument passed on', 'type P(x: u8) = container { a: u8[x] }; type Q(x: u8) = container { p: P(x), }; type T = container { n: u8, q: Q(n) };')
other('default argument', 'type P(x: u8 ? 3) = container { a: u8[x] }; type T = container { p: P };')
other('enum argument', DECL['E'] + 'type P(x: E) = container { a: u8 {x == E::one} }; type T = container { e: E, p: P(e) };')
other('array argument', 'type P(x: u8[4]) = container { a: u8[x[0]] }; type T = container { e: u8[4], p: P(e) };')
other('text argument', 'type P(x: utf8) = container { a: u8 }; type T = container { e: utf8, p: P(e) };')
other('struct argument', DECL['S'] + 'type P(x: S) = container { a: u8[x.sa] }; type T = container { e: S, p: P(e) };')
other('mutual recursion', 'type A = container { b: u8, a: B {b == 1} }; type B = container { c: A[..] };')
other('recursive elements', 'type A = container { n: u8, a: A[n] };')
other('recursive variants', 'type A = container { n: u8, q: Q(n) }; type Q(n: u8) = container +tagged_enum { One: A {n == 1}, Two: u8 {n == 2} };')
other('keywords as names', 'type T = container { type_: u8, match: u8, fn: u16[match], self_: u8 };')
other('base64', 'type T = container { n: u8, x: u8[n] -> base64, y: u16[..] -> base64 };')
other('base64 of gzip', 'type T = container { n: u8, x: u8[n] -> base64 -> gzip };')
other('optional recursion', 'type T = container { ra: u8, rb: T {ra == 1} };')
other('alias used', DECL['A'] + 'type T = container { x: A, y: u8[x] };')
other('alias argument', DECL['A'] + 'type P(x: A) = container { y: u8 }; type T = container { x: A, p: P(x) };')
other('lower case names', 'type e_a = enum u8 { one = 1, two }; type b_a = bitfield u8 { fa = 1 }; type s_a(x: e_a, z: u8) = container { y: u8 {x == e_a::one}, z: u8[z] }; type u_a(v: u8) = container +tagged_enum { vone: u8 {v == 1}, vtwo: s_a(e_a::two, v) }; type t_a = container { e: e_a, b: b_a, s: s_a(e, 3), u: u_a(2), es: e_a[3], bs: b_a[2], us: u_a(3)[..], c: u8 {b.fa} };')
other('optional member used', 'type T = container { n: u8, b: u8 {n == 1}, c: u8 {b == 2} };')
other('type named as a parameter', 'type R = container { ra: u8 }; type T = container { x: R };')
other('two types', DECL['S'] + 'type T = container { a: S, b: S[2], c: S {a.sa == 1} };')
other('string constant', 'const s: utf8 = "a\\"b\\\\c";')


def describe(text):
    used = [w for w in FFI if re.search(r'(?<![\w.])%s\b' % w, text)]
    return ''.join('import_ffi %s as %s; ' % (w, FFI[w]) for w in used) + text


def descriptions(thorough):
    for (k, (ty, need)), (p, around) in itertools.product(KINDS.items(), PLACES.items()):
        yield '%s:%s' % (k, p), DECL.get(need, '') + ' ' + around.replace('@', ty)
    for k, t in OTHER.items():
        yield k, t


def one(c, sem, args, name, text, is_async):
    key = 'compiles:' + name + (':async' if is_async else '')
    try:
        r = source(sem, describe(text), is_async=is_async, derives=('Debug', 'Clone', 'PartialEq'))
    except Undecided as e:
        return c.undecided(key, e)
    if r[0] == 'err':
        c.ob('rejected description')
        return
    if r[0] != 'ok':
        return c.check('emission', r[0] != 'panic', key, 'the generator panics in %s for `%s`' % (r[1:], text)) if r[0] == 'panic' else c.undecided(key, r)
    es = typecheck.errors(args, r[1])
    c.check('type check', not es, key, '`%s` is accepted, but the emitted code is not: %s' % (text, '; '.join(es[:2])[:300]))


def some(c, sem, args, jobs):
    sem.c = c
    for name, text, a in jobs:
        c.part('compiles:' + name, one, c, sem, args, name, text, a)


def emitted(c):
    c.rule('for each description that the interpreted front end accepts, the token stream that the interpreted generator emits is accepted by rustc (parsing, resolution, types, borrows).')
    sem = Sem(c)
    args = typecheck.prepare()
    jobs = [(n, t, a) for n, t in descriptions(c.tier == 'thorough') for a in (False, True) if not (a and n.startswith('value of '))]
    n = 64
    c.parallel([('part %d' % i, some, sem, args, jobs[i::n]) for i in range(n)])
    c.floor('type check', 100)
