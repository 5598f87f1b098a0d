"""C28: the emitted coders of a description as functions of bytes, composed with each other"""
import re
from .. import bitsem as B, concrete, items, rustmini, sem as S
from ..bitsem import Buf, Cell, Fut, Int, Opaque, Reader, Ref, Slice, Str, Struct, Unknown, Var, Writer, mk, named, unref
from ..world import World, WEv
from . import compiles


class Coders(World):
    """the emitted items of one description in one mode"""

    def __init__(self, its, is_async):
        World.__init__(self, its)
        self.is_async = is_async

    def ev(self, ty=None, env=None):
        e = REv(self, ty, env or {})
        e.is_async = self.is_async
        e.fuel = 4000
        return e


class Coded:
    """what a transform makes of bytes: one opaque unit of the stream, read back by the inverse transform only"""

    def __init__(self, kind, items):
        self.kind, self.items = kind, items


class TWriter(Writer):
    """the unit stands where the writer was opened: nothing else can be written there while the writer lives"""

    def __init__(self, kind, parent):
        Writer.__init__(self)
        u = Coded(kind, self.out)
        parent.out.append(u)


class TReader(Reader):
    def __init__(self, kind, parent):
        Reader.__init__(self, [])
        self.kind, self.up, self.opened = kind, parent, False

    def open(self):
        if not self.opened:
            self.opened = True
            if self.up.left():
                u = self.up.take1()
                if not isinstance(u, Coded) or u.kind != self.kind:
                    raise Mismatch('%s of bytes that were not written by it' % self.kind)
                self.src = list(u.items)
                p = self.up
                while p is not None:
                    p.ahead = self.kind
                    p = p.up if isinstance(p, TReader) else p.parent

    def left(self):
        self.open()
        return Reader.left(self)


class Mismatch(Exception):
    pass


KINDS = [('Gz', 'gzip'), ('Base64', 'base64'), ('base64', 'base64'), ('Deflate', 'deflate'), ('Zlib', 'zlib'), ('Brotli', 'brotli')]
FLOAT = {'f32': 4, 'f64': 8}


class REv(WEv):
    def call(self, n, args):
        m = n.replace(' ', '')
        g = re.search(r'size_of::<(\w+)>$', m)
        if g:
            ty = g.group(1)
            if ty in FLOAT or ty == 'bool' or ty in B.WID:
                return mk('usize', FLOAT.get(ty) or (1 if ty == 'bool' else B.WID[ty] // 8))
            raise Unknown('size of %s' % ty)
        p = re.sub(r'::<.*?>(?=::|$)', '', m)
        last, cls = p.split('::')[-1], (p.split('::') + [''])[-2 if '::' in p else -1]
        cls = p.split('::')[-2] if '::' in p else ''
        if cls in FLOAT and last in ('from_be_bytes', 'from_le_bytes'):
            xs = [self.typed(x, 'u8') for x in unref(args[0]).items]
            if len(xs) != FLOAT[cls]:
                raise Unknown('byte count')
            if last == 'from_be_bytes':
                xs = xs[::-1]
            return Float(cls, [b for x in xs for b in x.bits])
        if last in ('new', 'with_capacity') and cls == 'BufReader':
            r = unref(args[-1])
            if isinstance(r, Reader):
                r.chunk = (unref(args[0]).const() or 1) if last == 'with_capacity' else None
            return args[-1]
        if last in ('new',) and cls == 'Cursor':
            b = unref(args[0])
            if isinstance(b, (Buf, Slice)):
                return Cur(b)
        if last in ('new', 'with_quality', 'from') and re.search(r'(Encoder|Decoder)(Writer|Reader)?$', cls):
            kind = [k for w, k in KINDS if w in p]
            if kind:
                par = unref(args[0])
                enc = 'Encoder' in cls
                if enc and isinstance(par, Writer):
                    return TWriter(kind[0], par)
                if not enc and isinstance(par, Reader):
                    return TReader(kind[0], par)
        if re.search(r'(^|::)Compression::', p):
            return Opaque('level')
        if cls in ('Box', 'Pin') and last in ('new', 'pin'):
            return args[0]
        return WEv.call(self, n, args)

    def e_lit(self, e):
        t = e[1].strip()
        m = re.match(r'^b"(.*)"$', t, re.S)
        if m:
            return Buf([mk('u8', b) for b in m.group(1).encode('latin1').decode('unicode_escape').encode('latin1')], 'u8')
        return WEv.e_lit(self, e)

    def const(self, path):
        if re.match(r'base64::[A-Z_:]+$', self.norm(path)):
            return Opaque('alphabet')
        return WEv.const(self, path)

    def cast(self, v, ty):
        if 'dyn' in ty and isinstance(unref(v), (Reader, Writer)):
            return v
        if isinstance(v, Float) and ty == v.ty:
            return v
        return WEv.cast(self, v, ty)

    def e_struct(self, e):
        v = self.variant(self.norm(e[1]))
        if v and isinstance(v[2], dict) and isinstance(e[2], list):
            fs = {}
            for f in e[2]:
                if not (isinstance(f, tuple) and f[0] == 'fld'):
                    raise Unknown('struct literal')
                fs[str(f[1]).lstrip('#')] = self.ev(f[2])
            return Struct('%s::%s' % v[:2], fs)
        return WEv.e_struct(self, e)

    def tyof(self, v):
        t = WEv.tyof(self, v)
        return t.split('::')[0] if t else t

    def bindpat(self, pat, v):
        m = re.match(r'^&?\s*([A-Za-z_]\w*(?:\s*::\s*\w+)+)\s*\{(.*)\}\s*$', pat, re.S)
        if not m:
            return WEv.bindpat(self, pat, v)
        n = self.variant(self.norm(m.group(1)))
        u = unref(v)
        if not n or not isinstance(u, (Struct, Var)):
            raise Unknown('pattern %s' % pat)
        if u.name != '%s::%s' % n[:2]:
            return False
        for part in B.split_commas(m.group(2)):
            if not part.strip() or part.strip() == '..':
                continue
            k, _, sub = part.partition(':')
            k = k.strip().replace('r#', '').lstrip('#').strip()
            if not WEv.bindpat(self, sub.strip() or k, u.fields[k]):
                return False
        return True

    def var(self, u, n, args):
        if n == 'flatten' and u.name in ('Some', 'Ok', 'None', 'Err'):
            return unref(u.args[0]) if u.name in ('Some', 'Ok') else u
        return WEv.var(self, u, n, args)

    def iter(self, u, n, args, tf):
        if n == 'sum' and u.items and tf:
            ty = re.findall(r'\w+', tf)[-1]
            t = mk(ty, 0)
            for x in u.items:
                t = self.binop('+', t, unref(x))
            return t
        if n == 'collect' and u.items and all(isinstance(x, Var) and x.name in ('Ok', 'Err') for x in u.items):
            if 'Result' not in tf:
                raise Unknown('collect')
            for x in u.items:
                if x.name == 'Err':
                    return x
            return Var('Ok', [Buf([unref(x.args[0]) for x in u.items])])
        return WEv.iter(self, u, n, args, tf)

    def buf(self, u, n, args):
        if n in ('write_all', 'flush', 'shutdown') and isinstance(u, Buf):
            return self.writer(Sink(u), n, args, '')
        if n == 'starts_with':
            xs = unref(args[0]).items
            return len(u.items) >= len(xs) and all(self.compare('==', a, b) for a, b in zip(u.items, xs))
        return WEv.buf(self, u, n, args)

    def reader(self, u, n, args, tf):
        if n == 'position' and isinstance(u, Cur):
            return mk('u64', u.pos)
        if isinstance(u, Cur) and re.match(r'write|flush|shutdown', n):
            return self.writer(Sink(u.buf), n, args, tf)
        if n == 'fill_buf':
            if getattr(u, 'ahead', None):
                raise Ahead(u.ahead)
            k, r = u.left(), u
            c = None
            while r is not None:
                c = min(x for x in (c, getattr(r, 'chunk', None), k) if x is not None)
                r = r.parent
            return self.fut(Var('Ok', [Buf(u.peek(c), 'u8')]))
        if n == 'consume':
            for _ in range(unref(args[0]).const()):
                u.take1()
            return B.UNITS
        if getattr(u, 'ahead', None) and n != 'take':
            raise Ahead(u.ahead)
        return WEv.reader(self, u, n, args, tf)

    def method(self, r, n, args, e=None):
        u = unref(r)
        if isinstance(u, Float):
            if n in ('to_be_bytes', 'to_le_bytes'):
                xs = [Int('u8', u.bits[i:i + 8]) for i in range(0, len(u.bits), 8)]
                return Buf(xs if n == 'to_le_bytes' else xs[::-1], 'u8')
            if n in ('clone', 'to_owned'):
                return u
        return WEv.method(self, r, n, args, e)


class Float:
    def __init__(self, ty, bits):
        self.ty, self.bits = ty, list(bits)


class Sink(Writer):
    """a vector written to"""

    def __init__(self, buf):
        Writer.__init__(self)
        self.buf = buf
        self.out = buf.items


class Cur(Reader):
    """a cursor over a vector"""

    def __init__(self, buf):
        Reader.__init__(self, buf.items)
        self.buf = buf


class Ahead(Exception):
    pass


def value(v):
    """the value with references and cells removed, comparable"""
    v = unref(v)
    if isinstance(v, Fut):
        return value(v.v)
    if isinstance(v, Int):
        return ('int', v.ty, tuple(v.bits))
    if isinstance(v, Float):
        return ('float', v.ty, tuple(v.bits))
    if isinstance(v, bool):
        return ('bool', v)
    if isinstance(v, (Buf, Slice)):
        return ('list', tuple(value(x) for x in v.items))
    if isinstance(v, Str):
        return ('str', v.kind, tuple(value(x) for x in v.items))
    if isinstance(v, Struct):
        return ('struct', v.name, tuple((k, value(v.fields[k])) for k in sorted(v.fields, key=str)))
    if isinstance(v, tuple):
        return ('tuple',) + tuple(value(x) for x in v)
    if isinstance(v, Var):
        return ('var', v.name, tuple(value(x) for x in (v.args or ())))
    raise Unknown('value %s' % type(v).__name__)


def stream(spec):
    """'01 ?? "text" gzip(01 ??)': known bytes, unknown bytes, characters, transformed bytes"""
    stack, n = [[]], 0
    for m in re.finditer(r'\?\?|(\w+)\(|\)|[0-9a-f]{2}|"([^"]*)"|(\S)', spec):
        t = m.group(0)
        if m.group(3):
            raise ValueError(spec)
        if t == '??':
            stack[-1].append(named('u8', 'in%d' % n))
            n += 1
        elif t == ')':
            x = stack.pop()
            stack[-1].append(Coded(kinds.pop(), x))
        elif m.group(1):
            kinds = kinds if len(stack) > 1 else []
            kinds.append(m.group(1))
            stack.append([])
        elif t[0] == '"':
            stack[-1] += [mk('u8', ord(x)) for x in m.group(2)]
        else:
            stack[-1].append(mk('u8', int(t, 16)))
    return stack[0]


def wire(xs):
    return tuple((x.kind, wire(x.items)) if isinstance(x, Coded) else tuple(x.bits) for x in xs)


def result(how, v):
    """('ok', v) | ('err', why) | ('panic', why)"""
    if how == 'panic':
        return 'panic', v
    v = unref(v)
    if isinstance(v, Fut):
        v = unref(v.v)
    if isinstance(v, Var) and v.name == 'Ok':
        return 'ok', v.args[0]
    if isinstance(v, Var) and v.name == 'Err':
        return 'err', v.args[0]
    raise Unknown('result of a coder')


def decode(w, ty, data, args, mode, chunk=None):
    r = Reader(list(data))
    r.chunk = chunk
    f = w.lookup(ty, 'decode_' + mode)
    if f is None:
        raise Unknown('no decoder of %s' % ty)
    how, v = w.call(ty, f, [Ref(Cell(r))] + args)
    return result(how, v) + (r.left(),)


def encode(w, ty, val, args, mode):
    o = Writer()
    f = w.lookup(ty, 'encode_' + mode)
    if f is None:
        raise Unknown('no encoder of %s' % ty)
    how, v = w.call(ty, f, [Ref(Cell(val)), Ref(Cell(o))] + args)
    return result(how, v) + (o.out,)


def load(text, mode, sem, files=None):
    r = concrete.source(sem, text, files, is_async=mode == 'async')
    if r[0] != 'ok':
        return r
    return ('ok', Coders(items.items(rustmini.lex_text(r[1])), mode == 'async'))



def w_(n):
    return '?? ' * n


# kind of the description grid -> its bytes for n (greedy: the rest of its stream)
BYTES = {k: (lambda n, w=int(re.sub(r'\D', '', k)) // 8: w_(w)) for k in ('u8', 'i8', 'u16', 'i16', 'u32', 'i32', 'u64', 'i64', 'u128', 'i128', 'u16le', 'i64le', 'u128le', 'f32', 'f64')}
BYTES.update({
    'bool': lambda n: '01' if n == 1 else '00',
    'v8': lambda n: '05', 'v16': lambda n: '81 07', 'v32': lambda n: '81 07', 'v64': lambda n: '05', 'v128': lambda n: '81 82 03',
    'text': lambda n: '"ab" 00', 'text(n)': lambda n: '"xyz"'[:n + 1] + '"', 'text16(n)': lambda n: '00 41 ' * n,
    'enum': lambda n: '0%d' % n, 'open enum': lambda n: '00 01' if n == 1 else '00 27', 'bitfield': lambda n: '00 03', 'struct': lambda n: w_(3), 'empty': lambda n: '',
    'tagged': lambda n: '??', 'with argument': w_, 'alias': lambda n: w_(2), 'alias array': lambda n: w_(4), 'recursive': lambda n: '01 00',
    'array': lambda n: w_(4), 'array of arrays': lambda n: w_(8 * n), 'bytes': w_, 'wide array': lambda n: w_(4 * n),
    'terminated': lambda n: '"data" "end"', 'structs': lambda n: w_(3 * n), 'enums': lambda n: '01 02 '[:3 * n], 'texts': lambda n: '"ab" 00 ' * n,
    'floats': lambda n: w_(4 * n), 'bools': lambda n: '01 00 '[:3 * n], 'varints': lambda n: '05 ' * n, 'bitfields': lambda n: '00 01 00 02',
    'part': lambda n: '01 ?? ??' if n == 1 else '02', 'sized part': w_, 'variants': lambda n: w_(n),
})
GREEDY = {
    'open array': lambda n: w_(2 * n), 'open bytes': w_, 'open structs': lambda n: w_(3 * n),
}
BYTES.update(GREEDY)

# place of the description grid -> bytes around those of the kind; None: does not apply
ROOM = {
    'field': lambda n, x: '0%d %s ??' % (n, x),
    'last field': lambda n, x: '0%d %s' % (n, x),
    'optional': lambda n, x: '01 %s ??' % x if n == 1 else '02 ??',
    'in part': lambda n, x: '0%d %s ??' % (n, x),
    'in optional part': lambda n, x: '01 %s ??' % x if n == 1 else '02',
    'optional in optional part': lambda n, x: '01 ??' if n == 1 else '02',
    'variant': lambda n, x: '01 %s' % x if n == 1 else '02 ??',
    'variant field': lambda n, x: '01 %s ??' % x if n == 1 else '02 ??',
    'elements': lambda n, x: '0%d %s %s %s ??' % (n, x, x, x),
    'alias': lambda n, x: '0%d %s' % (n, x),
    'behind padding': lambda n, x: '0%d 00 00 00 %s %s' % (n, x, '00 ' * n),
}
LAST = {'last field', 'alias'}
# the same with transformed bytes; the part after them is dropped from the description
CODED = {
    'transformed': ('type T = container { n: u8, x: @ -> gzip };', lambda n, x: '0%d gzip(%s)' % (n, x)),
    'conditionally transformed': ('type T = container { n: u8, x: @ -> gzip {n == 1} };', lambda n, x: '01 gzip(%s)' % x if n == 1 else '02 ' + x),
    'transformed twice': ('type T = container { n: u8, x: @ -> gzip -> base64 };', lambda n, x: '0%d base64(gzip(%s))' % (n, x)),
    'in transformed part': ('type T = container { n: u8, p: container { y: u8, x: @ } -> gzip };', lambda n, x: '0%d gzip(?? %s)' % (n, x)),
}


def judge(c, w, key, text, ty, spec, mode, args=(), chunk=None):
    """decode the bytes, encode the value, decode again: the value has to come back, and every byte has to be read"""
    def bad(what):
        c.check('round trip', False, 'trip:%s:%s' % (key, mode), 'bytes %s of `%s` (%s): %s' % (' '.join(spec.split()), text, mode, what), '%s::decode_%s, encode_%s' % (ty, mode, mode))
    mk_args = lambda: [mk(t, n) for t, n in args]
    try:
        how, v, left = decode(w, ty, stream(spec), mk_args(), mode, chunk)
        if how != 'ok':
            return bad('consistent bytes are not decoded (%s: %s)' % (how, v))
        if left:
            return bad('%d of the bytes are not read' % left)
        before = value(v)
        how, e, out = encode(w, ty, v, mk_args(), mode)
        if how != 'ok':
            return bad('the decoded value is not encoded (%s: %s)' % (how, e))
        if wire(out) != wire(stream(spec)):
            return bad('encoding the decoded value gives other bytes: a value with the meaning of these bytes does not come back')
        how, v2, left = decode(w, ty, out, mk_args(), mode, chunk)
        if how != 'ok':
            return bad('the encoded bytes are not decoded (%s: %s)' % (how, v2))
        if left:
            return bad('%d encoded bytes are not read' % left)
        if value(v2) != before:
            return bad('the value changes')
        c.ob('round trip')
    except Ahead as x:
        bad('bytes behind those of %s are read from a stream which it may have read ahead' % x)
    except Mismatch as x:
        bad(str(x))
    except (Unknown, RecursionError) as x:
        c.undecided(key + ':' + mode, x)


# descriptions with their bytes: expressions that steer the coders, computed fields, arguments, nesting
MORE = {}


def more(key, text, *specs, ty='T'):
    MORE[key] = (text, ty, specs)


D = compiles.DECL
for _k in ('u8', 'i8', 'u16', 'i32', 'u64', 'i128'):
    _n = int(_k[1:]) // 8
    _z = '00 ' * (_n - 1)
    more('enum of ' + _k, 'type E = enum %s { a = 1, b, c = 9 }; type T = container { e: E, f: E[2] };' % _k, '%s01 %s02 %s09' % (_z, _z, _z))
    more('open enum of ' + _k, 'type E = enum %s { a = 1, b, o = default }; type T = container { e: E, f: E[2] };' % _k, '%s01 %s02 %s77' % (_z, _z, _z), '%s77 %s77 %s01' % (_z, _z, _z))
for _k, _n in (('u8', 1), ('u16', 2), ('u64', 8)):
    more('bitfield of ' + _k, 'type B = bitfield %s { a = 1, b, c = 24 }; type T = container { b: B, x: u8 {b.a}, y: u8 {b.c} };' % _k,
         '00 ' * (_n - 1) + '01 ??', '00 ' * (_n - 1) + '02', '00 ' * (_n - 1) + '19 ?? ??')
for _op, _v in (('+', 5), ('-', 1), ('*', 6), ('/', 1), ('%', 1), ('&', 2), ('|', 3), ('^', 1), ('<<', 12), ('>>', 0)):
    more('operator ' + _op, 'type T = container { a: u32, b: u32, x: u8[a %s b], z: u8 };' % _op, '00 00 00 03 00 00 00 02 ' + w_(_v) + '??')
for _op, _f in (('<', lambda a, b: a < b), ('<=', lambda a, b: a <= b), ('>', lambda a, b: a > b), ('>=', lambda a, b: a >= b), ('==', lambda a, b: a == b), ('!=', lambda a, b: a != b)):
    more('comparison ' + _op, 'type T = container { a: u8, b: u8, x: u8 {a %s b}, z: u16 };' % _op, *['0%d 0%d %s' % (a, b, w_(2 + _f(a, b))) for a, b in ((1, 2), (2, 1), (2, 2))])
more('logic &&', 'type T = container { a: bool, b: bool, x: u8 {a && b}, z: u16 };', *['%s %s %s' % (a, b, w_(2 + (a == b == '01'))) for a in ('00', '01') for b in ('00', '01')])
more('logic ||', 'type T = container { a: bool, b: bool, x: u8 {a || b}, z: u16 };', *['%s %s %s' % (a, b, w_(2 + ('01' in (a, b)))) for a in ('00', '01') for b in ('00', '01')])
more('not', 'type T = container { a: bool, x: u8 {!a}, z: u16 };', '00 ?? ?? ??', '01 ?? ??')
more('conditional', 'type T = container { a: u8, b: u8, x: u8[a == 1 ? b : 3], z: u8 };', '01 02 ?? ?? ??', '02 02 ?? ?? ?? ??')
more('enum member', D['E'] + 'type T = container { e: E, x: u8 {e == E::one}, y: u16 {e != E::one}, z: u8 };', '01 ?? ??', '02 ?? ?? ??')
more('enum value', D['E'] + 'type T = container { e: E, x: u8[e :> u8], z: u8 };', '01 ?? ??', '02 ?? ?? ??')
more('flag members', D['B'] + 'type T = container { b: B, x: u8 {(b & B::fa) == B::fa}, z: u8 };', '00 01 ?? ??', '00 02 ??')
more('index', 'type T = container { n: u8, a: u8[2], x: u8[a[1] :> u8], y: u8 {a[n] == 2} };', '00 02 01 ?? ??', '01 02 01 ??')
more('sum', 'type T = container { a: u64 = sum(b), b: u8[2], z: u8 };', '00 00 00 00 00 00 00 05 02 03 ??')
more('pad', 'type T = container { a: u8, .pad: pad(4, a), b: u8 };', '03 00 ??', '04 ??', '05 00 00 00 ??')
more('constant used', 'const k: u8 = 2; type T = container { a: u8[k], x: u8[k + 1], z: u8 };', w_(6))
more('len', 'type T = container { a: u8 = len(b) :> u8, b: u8[a], };', '02 ?? ??', '00')
more('len of text', 'type T = container { a: u8 = len(b) :> u8, b: utf8(a), z: u8 };', '02 "ab" ??')
more('wide len', 'type T = container { a: u16 = len(b) :> u16, b: u32[a], z: u8 };', '00 02 ' + w_(9))
more('len behind', 'type T = container { p: u8, a: u8 = len(b) :> u8, q: u16, b: u16[a], z: u8 };', '?? 02 ?? ?? ?? ?? ?? ?? ??')
more('two len', 'type T = container { a: u8 = len(c) :> u8, b: u8 = len(d) :> u8, c: u8[a], d: u16[b], z: u8 };', '01 02 ?? ?? ?? ?? ?? ??', '02 00 ?? ?? ??')
more('two len crossed', 'type T = container { a: u8 = len(d) :> u8, b: u8 = len(c) :> u8, c: u8[b], d: u16[a], z: u8 };', '01 02 ?? ?? ?? ?? ??')
more('blen', 'type T = container { a: u8 = blen(b) :> u8, b: container [a] { c: u8, d: u16, } };', '03 ?? ?? ??')
more('blen, open', 'type T = container { a: u8 = blen(b) :> u8, b: container [a] { c: u8[..] }, z: u8 };', '03 ?? ?? ?? ??', '00 ??')
more('two blen', 'type T = container { a: u8 = blen(c) :> u8, b: u8 = blen(d) :> u8, c: container [a] { e: u8[..] }, d: container [b] { f_: u8[..] }, z: u8 };', '02 01 ?? ?? ?? ??')
more('two blen crossed', 'type T = container { a: u8 = blen(d) :> u8, b: u8 = blen(c) :> u8, c: container [b] { e: u8[..] }, d: container [a] { f_: u8[..] }, z: u8 };', '02 01 ?? ?? ?? ??')
more('blen of text', 'type T = container { a: u16 = blen(b) :> u16, b: container [a] { c: utf8 }, z: u8 };', '00 03 "ab" 00 ??')
more('blen inside blen', 'type T = container { a: u8 = blen(b) :> u8, b: container [a] { c: u8 = blen(d) :> u8, d: container [c] { e: u8[..] }, f_: u8 }, z: u8 };', '04 02 ?? ?? ?? ??')
more('sized parts', 'type T = container { n: u8, p: container [n] { a: u8, q: container [2] { b: u8[..] }, c: u8[..] }, z: u8 };', '05 ?? ?? ?? ?? ?? ??', '03 ?? ?? ?? ??')
more('sized structs', D['S'] + 'type T = container { n: u8, p: container [n] { s: S[..] }, z: u8 };', '06 ' + w_(7), '00 ??')
more('arguments', 'type P(x: u8, y: u16, z: bool) = container { a: u8[x], b: u8[y], c: u8 {z} }; type T = container { n: u8, p: P(n, 2, n == 1), q: u8 };', '01 ?? ?? ?? ?? ??', '02 ?? ?? ?? ?? ??')
more('argument passed on', 'type P(x: u8) = container { a: u8[x] }; type Q(x: u8) = container { p: P(x), r: P(x) }; type T = container { n: u8, q: Q(n), z: u8 };', '02 ' + w_(5))
more('arguments swapped', 'type P(x: u8, y: u8) = container { a: u8[x], b: u16[y] }; type Q(x: u8, y: u8) = container { p: P(y, x) }; type T = container { n: u8, m: u8, q: Q(n, m), z: u8 };', '01 02 ' + w_(2 + 2 + 1))
more('enum argument', D['E'] + 'type P(x: E) = container { a: u8 {x == E::one}, b: u16 }; type T = container { e: E, p: P(e) };', '01 ?? ?? ??', '02 ?? ??')
more('mutual recursion', 'type A = container { b: u8, a: B {b == 1} }; type B = container { c: u8[2], d: A }; type T = container { t: A };', '01 ?? ?? 01 ?? ?? 00')
more('recursive elements', 'type A = container { n: u8, a: A[n] }; type T = container { t: A, z: u8 };', '02 01 00 00 ??')
more('tagged in tagged', 'type Q(n: u8, m: u8) = container +tagged_enum { One: container { x: u8, y: u16 } {n == 1}, Two: R(m) {n == 2}, Three: u32 {n == 3} }; '
     'type R(n: u8) = container +tagged_enum { Four: u8 {n == 1}, Five: container { v: u16, w: u8 {v == 3} } {n == 2} }; type T = container { n: u8, m: u8, q: Q(n, m), z: u8 };',
     '01 01 ?? ?? ?? ??', '02 01 ?? ??', '02 02 00 03 ?? ??', '02 02 00 04 ??', '03 01 ?? ?? ?? ?? ??')
more('first variant wins', 'type Q(n: u8) = container +tagged_enum { One: u8 {n < 3}, Two: u16 {n < 5}, Three: u32 {n >= 3} }; type T = container { n: u8, q: Q(n), z: u8 };', '02 ?? ??', '04 ?? ?? ??', '05 ?? ?? ?? ?? ??')
more('elements tagged', 'type Q(n: u8) = container +tagged_enum { One: u8 {n == 1}, Two: u16 {n == 2} }; type T = container { n: u8, q: Q(n)[2], z: u8 };', '01 ?? ?? ??', '02 ?? ?? ?? ?? ??')
more('nested options', 'type T = container { a: u8, p: container { b: u8, q: container { c: u8, d: u16 {c == 1} } {b == 1}, e: u8 } {a == 1}, z: u8 };',
     '00 ??', '01 00 ?? ??', '01 01 00 ?? ??', '01 01 01 ?? ?? ?? ??')
more('options in a row', 'type T = container { a: u8, b: u8 {a == 1}, c: u16 {a == 2}, d: u32 {a == 1}, z: u8 };', '00 ??', '01 ?? ?? ?? ?? ?? ??', '02 ?? ?? ??')
more('optional arrays', D['S'] + 'type T = container { a: u8, b: u16[a] {a < 3}, c: S[a] {a == 1}, d: utf8 {a == 2}, z: u8 };', '01 ' + w_(6), '02 ?? ?? ?? ?? "q" 00 ??', '03 ??')
more('optional transforms', 'type T = container { a: u8, b: u16[2] -> gzip {a == 1} -> base64 {a < 3} };', '01 base64(gzip(%s))' % w_(4), '02 base64(%s)' % w_(4), '03 ' + w_(4))
more('transform of a struct', D['S'] + 'type T = container { a: u8, b: S[..] -> gzip };', '?? gzip(%s)' % w_(6))
more('transform in a part', 'type T = container { n: u8, p: container [n] { a: u8, b: u16 -> gzip }, z: u8 };', )
more('multi-byte terminator', 'type T = container { a: u8[.."end"], z: u8 };', '"enen" "dd" "end" ??'.replace('dd', 'xd'), '"end" ??', '"eend" ??')
more('terminated structs', 'type S = container { sa: u8, sb: u16 }; type T = container { a: S[.."#"], z: u8 };', '"abcdef#" ??', '"#" ??')
more('terminated words', 'type T = container { a: u16[.."##"], z: u8 };', '"abcd##" ??', '"a##b##" ??')
more('varint count', 'type T = container { n: v32, a: u8[n :> u32], z: u8 };', '02 ?? ?? ??')
more('padding', 'type T = container { n: u8, .pad: 2, a: u16, .pad: n, b: u8 };', '01 00 00 ?? ?? 00 ??')
more('little endian', 'type T = container { a: u16le, b: u32le[2], c: i64le, n: u16le, d: u8[n] };', w_(2 + 8 + 8) + '02 00 ?? ??')
more('arrays of arrays', 'type T = container { n: u8, a: u16[2][n], b: u8[n][2], z: u8 };', '01 ' + w_(4 + 2 + 1), '03 ' + w_(12 + 6 + 1))
more('alias chain', 'type A = u16; type B = A; type C = B[2]; type T = container { a: B, c: C, z: u8 };', w_(7))
more('top level array', 'type T = u16[3];', w_(6))
more('top level text', 'type T = utf8;', '"abc" 00')
more('greedy text', 'type T = container { a: u8, t: utf16(a) };', '01 00 41')
more('same names', 'type S = container { a: u8, b: u16 }; type T = container { a: S, b: S, c: container { d: S }, r_0: u8, reader: u8, writer: u16, x: u8 };', w_(3 + 3 + 3 + 1 + 1 + 2 + 1))
more('names of locals', 'type T = container { raw: u8, size: u8[raw], buf: u16, t_count: u8, scratch: u8[t_count], value: u8 };', '01 ?? ?? ?? 02 ?? ?? ??')
more('keyword fields', 'type T = container { match: u8, fn: u8[match], self_: u8 };', '02 ?? ?? ??')
more('floats', 'type T = container { a: f32, b: f64, c: f32[2], d: f64[1] };', w_(4 + 8 + 8 + 8))


def cases():
    """(key, description, type, [bytes], size of the chunks the input arrives in)"""
    for k, (ty, need) in compiles.KINDS.items():
        f = BYTES.get(k)
        if f is None:
            continue
        for p, room in ROOM.items():
            if k in GREEDY and p not in LAST:
                continue
            yield '%s:%s' % (k, p), compiles.DECL.get(need, '') + ' ' + compiles.PLACES[p].replace('@', ty), 'T', [room(n, f(n)) for n in (1, 2)], (None, 1) if p == 'last field' else (None,)
        for p, (around, room) in CODED.items():
            if k == 'empty':
                continue    # whether the frame of a transform is read when nothing is asked of it is the library's choice
            yield '%s:%s' % (k, p), compiles.DECL.get(need, '') + ' ' + around.replace('@', ty), 'T', [room(n, f(n)) for n in (1, 2)], (None,)
    yield 'behind a transform', 'type T = container { n: u8, x: u8[2] -> gzip, z: u8 };', 'T', ['01 gzip(?? ??) ??'], (None,)
    for k, (text, ty, specs) in MORE.items():
        if specs:
            yield k, text, ty, specs, (None,)


def some(c, sem, jobs):
    sem.c = c
    for (key, text, ty, specs, chunks), mode in jobs:
        try:
            r = load(compiles.describe(text), mode, sem)
        except (S.Undecided, Unknown, rustmini.RErr) as x:
            c.undecided(key + ':' + mode, x)
            continue
        if r[0] != 'ok':
            c.ob('rejected description')
            c.rejected = getattr(c, 'rejected', []) + [key]
            c.sample('rejected ' + key)
            continue
        for spec in specs:
            for chunk in chunks:
                c.part(key, judge, c, r[1], key + (':chunks' if chunk else ''), text, ty, spec, mode, (), chunk)


def composed(c):
    c.rule('for each enumerated description and each enumerated pattern of bytes (control bytes known, data bytes free), the emitted decoder and encoder are '
           'evaluated in the bit-provenance domain: decode reads all bytes; encode succeeds on that value; decoding what encode produced yields the same value, bit by bit, and reads all of it; '
           'a transform is one opaque unit only its inverse reads.')
    sem = S.Sem(c)
    jobs = [(x, m) for x in cases() for m in ('sync', 'async')]
    n = 64
    c.parallel([('part %d' % i, some, sem, jobs[i::n]) for i in range(n)])
    c.floor('round trip', 400)
