"""C17, C19, C20: the front end (`parse` then `Program::from_ast`) is interpreted on enumerated descriptions; the analysed program is
validated against typing and scoping rules that are stated here, not taken from the code."""
import itertools
from ..an import *
from ..sem import Sem, Node, Undecided

INTS = ['%s%d' % (s, w) for s in 'ui' for w in (8, 16, 32, 64, 128)]
CMP = {'Lt', 'Gt', 'Lte', 'Gte', 'Eq', 'Ne'}
LOGIC = {'Or', 'And'}


# ----------------------------------------------------------------- types as the reference sees them
def scalar(n):
    return ('int', int(n.kind[1:]), n.kind[0] == 'I')


def ty(t, depth=0):
    """the meaning of a type up to aliases; byte order is not part of a value"""
    if depth > 20:
        raise Undecided('alias')
    k = t.kind
    if k == 'Scalar':
        return scalar(t['0']['scalar'])
    if k in ('F32', 'F64'):
        return ('float', int(k[1:]))
    if k == 'Bool':
        return ('bool',)
    if k in ('Enum', 'Bitfield'):
        return (k.lower(), t['0']['name'], scalar(t['0']['rep']['scalar']))
    if k == 'Array':
        return ('array', ty(t['0']['element'], depth + 1))
    if k == 'Ref':
        return ty(t['0']['target']['type_'], depth + 1)
    if k == 'Foreign':
        return ('foreign', t['0']['name'])
    if k == 'Container':
        return ('container', tuple(t['0']['items']))
    raise Undecided('type ' + k)


VARS = {'v8': 8, 'v16': 16, 'v32': 32, 'v64': 64, 'v128': 128}


def plain(t):
    """variable-length integers are values of the integer type they encode"""
    if t[0] == 'foreign' and t[1] in VARS:
        return ('int', VARS[t[1]], True)
    return t


def rep(t):
    return t[2] if t[0] in ('enum', 'bitfield') else t


def widens(a, b):
    """every value of a is a value of b, both integers (or represented by integers)"""
    if (a, b) == (('float', 32), ('float', 64)):
        return True
    a, b = rep(a), rep(b)
    return a[0] == b[0] == 'int' and a[2] == b[2] and a[1] <= b[1]


def same(a, b):
    a, b = plain(a), plain(b)
    if a == b:
        return True
    if a[0] == b[0] == 'array':
        return same(a[1], b[1])
    # text is the array of its code units
    for x, y in ((a, b), (b, a)):
        if x == ('foreign', 'utf8') and y == ('array', ('int', 8, False)) or x == ('foreign', 'utf16') and y == ('array', ('int', 16, False)):
            return True
    return False


def assignable(a, b):
    """a value of type a stands where type b is expected, unchanged"""
    if same(a, b):
        return True
    return a[0] == b[0] == 'array' and assignable(a[1], b[1])


class Typing:
    """types of the expressions of an analysed program; records what is not well-typed"""

    def __init__(self, casts=()):
        self.bad, self.casts, self.n = [], casts, 0

    def err(self, key, msg):
        self.bad.append((key, msg))

    def of(self, e):
        self.n += 1
        k = e.kind
        x = e.get('0')
        if k in ('FieldRef', 'InputRef', 'ConstRef'):
            return ty(x['type_'])
        if k == 'Int':
            v = x['value']
            if isinstance(v, Node) and scalar(v) != scalar(x['type_']):
                self.err('literal', 'a literal of type %s holds a value of %s' % (x['type_'].kind, v.kind))
            return scalar(x['type_'])
        if k == 'Bool':
            return ('bool',)
        if k == 'Str':
            return ('array', ('int', 8, False))
        if k == 'Cast':
            a, b = self.of(x['inner']), ty(x['type_'])
            if not self.explicit(x) and not (widens(a, b) or same(a, b)):
                self.err('narrow:%s:%s' % (name(a), name(b)), 'a value of type %s is converted to %s without a cast in the description' % (name(a), name(b)))
            return b
        if k == 'Binary':
            a, b = self.of(x['left']), self.of(x['right'])
            op = x['op'].kind
            if op in LOGIC:
                for y in (a, b):
                    if y != ('bool',):
                        self.err('logic', 'an operand of %s has type %s' % (op, name(y)))
                return ('bool',)
            if not (assignable(a, b) or assignable(b, a)):
                self.err('operands:%s:%s' % (name(a), name(b)), 'the operands of %s have types %s and %s' % (op, name(a), name(b)))
            return ('bool',) if op in CMP else a
        if k == 'Unary':
            return self.of(x['inner'])
        if k == 'Ternary':
            if self.of(x['condition']) != ('bool',):
                self.err('condition', 'the condition of ?: is not bool')
            a, b = self.of(x['if_true']), self.of(x['if_false'])
            if not (assignable(a, b) or assignable(b, a)):
                self.err('branches:%s:%s' % (name(a), name(b)), 'the branches of ?: have types %s and %s' % (name(a), name(b)))
            return a
        if k == 'ArrayIndex':
            a, b = self.of(x['array']), self.of(x['index'])
            if not same(b, ('int', 64, False)):
                self.err('index', 'an index has type %s' % name(b))
            if a[0] == 'foreign':
                return ('int', 8, False)
            if a[0] != 'array':
                self.err('indexed', 'a value of type %s is indexed' % name(a))
                return a
            return a[1]
        if k == 'EnumAccess':
            return ty(x['enum_field']['type_'])
        if k == 'Member':
            self.of(x['target'])
            return ('bool',)
        if k == 'Call':
            for y in x['arguments']:
                self.of(y)
            n = x['function']['name']
            if n in ('len', 'blen', 'bits', 'sum'):
                return ('int', 64, False)
            return ('any',)
        raise Undecided('expression ' + k)

    def explicit(self, x):
        return x['span'] in self.casts

    def expect(self, e, want, what):
        a = self.of(e)
        if a == ('any',):
            return
        if not assignable(a, want):
            self.err('%s:%s:%s' % (what, name(a), name(want)), 'where %s is expected (%s), a value of type %s stands unconverted' % (name(want), what, name(a)))

    def type_(self, t):
        k = t.kind
        if k == 'Array':
            self.length(t['0']['length'])
            self.type_(t['0']['element'])
        elif k == 'Container':
            if t['0']['length'] is not None:
                self.expect(t['0']['length'], ('int', 64, False), 'container length')
            for f in t['0']['items'].values():
                self.field(f)
        elif k == 'Ref':
            for a, p in zip(t['0']['arguments'], t['0']['target']['arguments']):
                self.expect(a, ty(p['type_']), 'argument')
        elif k in ('Enum', 'Bitfield'):
            for v in t['0']['items'].values():
                if v.kind == 'Value':
                    v = v['0']
                if v.kind == 'Const' or 'value' in v:
                    self.expect(v['value'], scalar(t['0']['rep']['scalar']), 'member')

    def length(self, l):
        if l['value'] is not None:
            self.expect(l['value'], ('array', ('int', 8, False)) if l['expandable'] else ('int', 64, False), 'terminator' if l['expandable'] else 'array length')

    def field(self, f):
        self.type_(f['type_'])
        for a in f['arguments']:
            if a['default_value'] is not None:
                self.expect(a['default_value'], ty(a['type_']), 'default argument')
        if f['calculated'] is not None:
            self.expect(f['calculated'], ty(f['type_']), 'computed value')
        if f['condition'] is not None:
            self.expect(f['condition'], ('bool',), 'condition')
        for t in f['transforms']:
            if t['condition'] is not None:
                self.expect(t['condition'], ('bool',), 'condition')
            for a in t['arguments']:
                self.of(a)

    def program(self, p):
        for f in p['types'].values():
            self.field(f)
        for k in p['consts'].values():
            self.expect(k['value'], ty(k['type_']), 'constant')


def name(t):
    if t[0] == 'int':
        return '%s%d' % ('i' if t[2] else 'u', t[1])
    if t[0] == 'float':
        return 'f%d' % t[1]
    if t[0] in ('enum', 'bitfield'):
        return '%s %s' % (t[0], name(t[2]))
    if t[0] == 'array':
        return name(t[1]) + '[]'
    if t[0] == 'container':
        return 'container'
    return t[-1]


# ----------------------------------------------------------------- C17
DECLS = {'v32': 'import_ffi v32 as type;', 'v64': 'import_ffi v64 as type;', 'utf8': 'import_ffi utf8 as type;', 'e8': 'type e8 = enum u8 { m = 1, n = default };',
         'e32': 'type e32 = enum i32le { m = 1, };', 'e16': 'type e16 = enum u16 { m = 1, };', 'b16': 'type b16 = bitfield u16 { m = 1, };',
         'b8': 'type b8 = bitfield i8 { m = 1, };', 'c': 'type c = container { x: u8, };', 'a8': 'type a8 = u8;', 'aa8': 'type aa8 = a8; type a8 = u8;',
         'ae': 'type ae = e8; type e8 = enum u8 { m = 1, n = default };'}


def pre(*names):
    """the declarations behind some of the type names"""
    out = []
    for n in names:
        for d in DECLS.get(n, '').split('; '):
            d = d.rstrip(';')
            if d and d not in out:
                out.append(d)
    return ''.join(d + '; ' for d in out)


E8, E16, E32, B16, B8 = ('enum', 'e8', ('int', 8, False)), ('enum', 'e16', ('int', 16, False)), ('enum', 'e32', ('int', 32, True)), ('bitfield', 'b16', ('int', 16, False)), ('bitfield', 'b8', ('int', 8, True))
TYPES = dict([(n, ('int', int(n[1:]), n[0] == 'i')) for n in INTS] + [(n + 'le', ('int', int(n[1:]), n[0] == 'i')) for n in ('u16', 'u32', 'i32', 'u64')])
TYPES.update({'f32': ('float', 32), 'f64': ('float', 64), 'bool': ('bool',), 'e8': E8, 'e16': E16, 'e32': E32, 'b16': B16, 'b8': B8, 'u8[3]': ('array', ('int', 8, False)),
              'i8[..]': ('array', ('int', 8, True)), 'u16[2]': ('array', ('int', 16, False)), 'f32[2]': ('array', ('float', 32)), 'v32': ('foreign', 'v32'),
              'v64': ('foreign', 'v64'), 'utf8': ('foreign', 'utf8'), 'c': ('container', ('x',)), 'a8': ('int', 8, False), 'aa8': ('int', 8, False), 'ae': E8})

FEW = ['u8', 'u32le', 'u64', 'i16', 'i64', 'f64', 'bool', 'e8', 'b16', 'u8[3]', 'v32', 'ae']

# text with S (the type there is), T (the type expected), and the type that the context expects (None: T)
U64, BOOL = ('int', 64, False), ('bool',)
CONTEXTS = [
    ('computed value', 'type x = container { s: S, t: T = s };', None),
    ('argument', 'type p(q: T) = u8; type x = container { s: S, y: p(s) };', None),
    ('argument of an argument', 'type p(q: T) = u8; type x(s: S) = p(s);', None),
    ('default argument', 'type p(s: S, q: T ? s) = u8;', None),
    ('branch', 'type x = container { s: S, g: bool, h: T, t: T = g ? h : s };', None),
    ('branch', 'type x = container { s: S, g: bool, h: T, t: T = g ? s : h };', None),
]
ONE = [  # the context alone expects a type
    ('array length', 'type x = container { s: S, y: u8[s] };', U64),
    ('container length', 'type x = container { s: S, y: container [s] { z: u8 } };', U64),
    ('padding', 'type x = container { s: S, .pad: s };', U64),
    ('condition', 'type x = container { s: S, y: u8 { s } };', BOOL),
    ('condition of a transform', 'import_ffi gzip as transform; type x = container { s: S, y: u8[..] -> gzip { s } };', BOOL),
    ('index', 'type x = container { s: S, r: u8[4], y: u8 = r[s] };', U64),
    ('condition of ?:', 'type x = container { s: S, r: u8, y: u8 = s ? r : r };', BOOL),
    ('logic', 'type x = container { s: S, r: bool, y: bool = r && s };', BOOL),
    ('logic', 'type x = container { s: S, r: bool, y: bool = s || r };', BOOL),
    ('terminator', 'type x = container { s: S, y: u8[..s] };', ('array', ('int', 8, False))),
]
TWO = ['==', '!=', '<', '<=', '>', '>=', '+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>', '>>>']
CONSTS = [
    ('constant', 'const k: S = L; const l: T = k;', None),
    ('member', 'const k: S = L; type x = enum T { a = k, };', None),
    ('flag', 'const k: S = L; type x = bitfield T { a = k, };', None),
]


def put(text, s, t=None):
    return pre(s, t) + text.replace('S', s).replace('T', t or '')


def analyse(c, s, text, what, fn):
    try:
        return s.one(text)
    except (Undecided, KeyError, IndexError, TypeError, ValueError) as x:
        import os
        if os.environ.get('PSV_STRICT'):
            raise
        c.undecided('%s: `%s`' % (what, text), '%s %s' % (type(x).__name__, x))
        return 0


def typed(c, s, text, what, need=None, casts=False):
    """need: True when the description has to be accepted, False when it has to be rejected"""
    r = analyse(c, s, text, what, s.fn.name)
    if r == 0:
        return
    c.ob(what)
    if r is None:
        c.undecided('%s: `%s`' % (what, text), 'does not parse')
        return
    if r[0] == 'panic':
        c.undecided('%s: `%s`' % (what, text), 'panics in ' + r[1])
        return
    if r[0] == 'err':
        if need:
            c.violation('conv:rejected:%s' % what, '`%s` is rejected (%s)' % (text, r[1]), s.fn.name)
        return
    if need is False:
        c.violation('conv:accepted:%s' % what, '`%s` is accepted' % text, s.fn.name)
    t = Typing(cast_spans(s, text) if casts else ())
    try:
        t.program(r[1])
    except Undecided as x:
        c.undecided('%s: `%s`' % (what, text), x)
        return
    for key, msg in t.bad:
        c.violation('conv:' + key, 'in `%s`: %s' % (text, msg), s.fn.name)
        return
    c.ob('typed expression', t.n)


def cast_spans(s, text):
    """spans (first, last token) of the casts that the description writes"""
    out = set()

    def walk(x):
        if isinstance(x, dict):
            for v in x.values():
                walk(v)
        elif isinstance(x, (list, tuple)):
            if len(x) == 2 and x[0] == 'Cast' and isinstance(x[1], dict):
                out.add(x[1]['span'])
            for v in x:
                walk(v)
    from .parser import reference, lex
    walk(reference(lex(text)))
    return out


def implicit(a, b):
    a, b = plain(a), plain(b)
    return a == b and a[0] in ('int', 'float', 'bool', 'enum', 'bitfield') or a[0] == b[0] and a[0] in ('int', 'float') and widens(a, b)


def conversions_of(c, s, what, text, T, src):
    for S in src:
        a = TYPES[S]
        if T is None:
            typed(c, s, put(text, S), what)
        else:
            b = TYPES[T]
            typed(c, s, put(text, S, T), what, True if a[0] != 'foreign' and b[0] != 'foreign' and implicit(a, b) else None)


def single(c, s, what, text, want, src):
    for S in src:
        a = TYPES[S]
        ok = a[0] == want[0] == 'int' and widens(a, want) or a == want
        typed(c, s, put(text, S), what, True if ok else (False if a[0] == 'int' and want[0] in ('int', 'bool') or a == ('bool',) else None))


def operators(c, s, S, quick):
    a = TYPES[S]
    for i, (T, b) in enumerate(TYPES.items()):
        if b[0] in ('container',):
            continue
        for op in TWO if not quick or a[0] == b[0] == 'int' and (a[1], b[1]) in ((8, 8), (8, 16), (32, 64), (64, 32)) else ('==', '+', '<') if T in FEW else ():
            res = 'bool' if op[0] in '=!' or op in ('<', '<=', '>', '>=') else T
            typed(c, s, put('type x = container { s: S, t: T, y: %s = t %s s };' % (res, op), S, T), 'operands')


def casts(c, s, S, quick):
    """what converts without a cast converts with one"""
    a = TYPES[S]
    for T, b in TYPES.items():
        if '[' in T or 'utf' in T + S or 'le' in T or quick and (T not in FEW or S not in FEW) and a[0] != 'float' and b[0] != 'float':
            continue
        r1 = analyse(c, s, put('type x = container { s: S, t: T = s };', S, T), 'cast', '')
        r2 = analyse(c, s, put('type x = container { s: S, t: T = s :> T };', S, T), 'cast', '')
        if not r1 or not r2:
            continue
        c.ob('cast')
        if r1[0] == 'ok' and r2[0] == 'err':
            c.violation('conv:cast:%s:%s' % (name(a), name(b)), 'a value of type %s converts to %s implicitly but `:> %s` is rejected (%s)' % (S, T, T, r2[1]), s.fn.name)
        elif a[0] == b[0] == 'int' and r2[0] != 'ok':
            c.violation('conv:cast:%s:%s' % (name(a), name(b)), 'the cast from %s to %s is rejected (%s)' % (S, T, r2[1]), s.fn.name)
        typed(c, s, put('type x = container { s: S, t: T = s :> T };', S, T), 'cast', None, True)


def constants(c, s, what, text):
    for S in INTS:
        for T in INTS:
            a, b = TYPES[S], TYPES[T]
            typed(c, s, put(text.replace('L', '5'), S, T), what, a[2] == b[2] and a[1] <= b[1])


def conversions(c):
    c.rule('in every place where a description may use a value of one type where another is expected, for every pair of types, the analysed program '
           'is well-typed and converts implicitly only integers to integers that represent all of their values; such conversions are accepted')
    s = Sem(c)
    quick = c.tier != 'thorough'
    jobs = []
    names = list(TYPES)
    for what, text, want in CONTEXTS:
        for T in names if what == 'computed value' or not quick else FEW:
            jobs.append(('%s of type %s' % (what, T), conversions_of, s, what, text, T, names))
    for what, text, want in ONE:
        jobs.append((what, single, s, what, text, want, names))
    for what, text, want in CONSTS:
        jobs.append((what, constants, s, what, text))
    for S in names:
        jobs.append(('operators on ' + S, operators, s, S, quick))
        jobs.append(('casts of ' + S, casts, s, S, quick))
    c.parallel(jobs)
    c.floor('typed expression', 2000)
