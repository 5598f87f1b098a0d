"""C23: the items emitted for enums and bitfields, and the values the converter gives to their members."""
import re
from ..an import *
from .. import l1, items as IT, bitsem as B
from ..world import World

REPS = ('U8', 'U16', 'U32', 'U64', 'U128', 'I8', 'I16', 'I32', 'I64', 'I128')


def bounds(r):
    w = int(r[1:])
    return (0, (1 << w) - 1) if r[0] == 'U' else (-(1 << w - 1), (1 << w - 1) - 1)


class Gen:
    def __init__(self, c):
        self.c, self.m = c, c.mir
        self.b = l1.B(c)
        m = self.m
        self.ci = m.adt('const_int::ConstInt')
        self.cv = m.adt('compiler::expr::ConstValue')
        self.fe = m.fn('compiler::generate_enum')
        self.fb = m.fn('compiler::generate_bitfield')
        self.opt = m.adt('compiler::CompileOptions')

    def value(self, rep, v):
        b = self.b
        return ('v', self.cv, b.vidx(self.cv, 'Int'), (('v', self.ci, b.vidx(self.ci, rep), (I(v),)),))

    def hooks(self, rep):
        def ev(I_, st, args, info, rty, site):
            n = name_of(I_.resolve(st, args[0], 6))
            x = re.search(r'const:(-?\d+)', n)
            if not x:
                raise KeyError('constant %s' % n)
            return [(st, ('v', rty, 1, (self.value(rep, int(x.group(1))),)))]
        return {fnd(self.m, 'eval_const_expression').name: ev}

    def cons(self, v):
        return lambda ty: ('b', ('A', 'const:%d' % v, self.b.T[ty]['args'][0] if self.b.T[ty].get('args') else ty))

    def emit(self, fn, adt, rep, its, wrap, derives=()):
        b, m = self.b, self.m
        ty = m.adt(adt)
        o = b.struct(self.opt, enum_derives=b.vec([b.string(d) for d in derives]), struct_derives=b.vec([b.string(d) for d in derives]),
                     include_async=b.bool(0), use_anyhow=b.bool(0))
        ity = b.T[b.fty(ty, 'items')]['args'][1]
        v = b.struct(ty, name=b.string('Thing'), rep=lambda t: b.struct(t, scalar=b.enum(rep)),
                     items=lambda t: ('m', tuple(('1', ('v', None, 0, (b.string(n)(None), wrap(x)(ity)))) for n, x in its)))
        hk = self.hooks(rep)
        I_ = Interp(m, hk)
        outs = I_.run(fn, [K(S('Thing')), K(v), K(o)], State())
        note(self.c, I_)
        if len(outs) != 1 or outs[0][1][0] != 'T':
            raise B.Unknown('%d forms are emitted' % len(outs))
        return outs[0][1]

    def enum(self, rep, its, derives=()):
        wrap = lambda x: self.b.enum('Default') if x is None else self.b.enum('Value', self.cons(x))
        return World(IT.parse(self.emit(self.fe, 'asg::types::enum_::EnumType', rep, its, wrap, derives)))

    def bitfield(self, rep, its, derives=('PartialEq',)):
        return World(IT.parse(self.emit(self.fb, 'asg::types::bitfield::BitfieldType', rep, its, self.cons, derives)))


def cubes(ty, values):
    """cubes of bits that together are every representation value except `values`"""
    w = B.WID[ty]
    vs = [B.mk(ty, v).bits for v in values]
    out = []

    def go(fixed, live, i):
        if not live:
            out.append(B.Int(ty, [fixed.get(k, 'x.%d' % k) for k in range(w)]))
            return
        if i < 0:
            return
        for bit in (0, 1):
            go({**fixed, i: bit}, [v for v in live if v[i] == bit], i - 1)
    go({}, vs, w - 1)
    return out


def members(c):
    c.rule('for every representation, the items emitted for an enum or bitfield with given member values are parsed and evaluated '
           'bit by bit: the maps between representation and member are inverse to each other on all of the domain (split into cubes '
           'of values), everything else is an error or the default member, flags test and set exactly their bits; and the converter '
           'gives each member the written value or the one that follows from its predecessor')
    g = Gen(c)
    for rep in REPS:
        lo, hi = bounds(rep)
        shapes = [[('a', 5)], [('a', lo), ('b', hi)], [('a', 1), ('b', 0), ('c', 3)],
                  [('a', None)], [('a', 2), ('z', None)], [('a', hi), ('b', lo), ('z', None)]]
        if lo < 0:
            shapes.append([('a', -1), ('b', 1), ('c', -2)])
        for s in shapes:
            c.part('enum %s %s' % (rep, s), guarded, c, enum_case, g, rep, s)
        fl = [[('a', 1)], [('one', 1), ('two', 2), ('high', hi if lo < 0 else 1 << int(rep[1:]) - 1)], [('low', 3), ('mid', 6), ('four', 4)]]
        if lo < 0:
            fl.append([('a', 1), ('sign', lo)])
        for s in fl:
            c.part('bitfield %s %s' % (rep, s), guarded, c, bit_case, g, rep, s)
    c.part('member values', guarded, c, converted)
    c.floor('enum', 100)
    c.floor('bitfield', 100)


def guarded(c, f, *a):
    try:
        return f(c, *a)
    except B.Unknown as x:
        c.undecided(f.__name__ + ' ' + ' '.join(map(str, a[1:])), x)


def part(c, what, f):
    try:
        f()
    except B.Unknown as x:
        c.undecided(what, x)


def fn(w, ty, name):
    f = w.lookup(ty, name)
    if f is None:
        raise B.Unknown('%s::%s is not emitted' % (ty, name))
    return f


def ctor(v):
    """constructor and payload of a result"""
    v = B.unref(v)
    return (v.name, v.args) if isinstance(v, B.Var) else (None, ())


def enum_case(c, g, rep, its):
    w = g.enum(rep, its, ('Debug', 'PartialEq', 'Default') if its[0][1] is not None else ('Debug',))
    ty = rep.lower()
    T = 'Thing'
    key = 'generate_enum'
    dflt = [n for n, v in its if v is None]
    ex = [(n, v) for n, v in its if v is not None]
    d = '%s%s' % (rep.lower(), ' with default' if dflt else '')
    en = w.enums.get(T)
    if en is None:
        raise B.Unknown('no enum is emitted')
    c.check('enum', [v[0] for v in en.variants] == [n for n, _ in its] and all((v[1] or None) == (None if x is not None else [ty]) for v, (n, x) in zip(en.variants, its)),
            key + ':variants', 'the variants emitted for %s (%s) are %s' % (its, d, [v[:2] for v in en.variants]))
    fr, tr = fn(w, T, 'from_repr'), fn(w, T, 'to_repr')
    for f, want in ((tr, ty),):
        c.check('enum', (f.ret or '').replace(' ', '') == want, key + ':to_repr:type', 'to_repr of an enum over %s returns %s' % (ty, f.ret))

    def from_(x):
        how, v = w.call(T, fr, [x])
        return ('panic', v) if how == 'panic' else ctor(v)

    def val(n, x=None):
        return B.Var('%s::%s' % (T, n), [] if x is None else [x])

    def one(n, v):
        k, a = from_(B.mk(ty, v))
        c.check('enum', k == 'Ok' and B.unref(a[0]) == val(n), key + ':from_repr:member',
                'from_repr of the value of a member (%s, %s) is %s %s' % (d, v, k, list(a)))
        how, r = w.call(T, tr, [val(n)])
        c.check('enum', how == 'ok' and isinstance(B.unref(r), B.Int) and B.unref(r).const() == v, key + ':to_repr:member',
                'to_repr of the member with value %s of an enum over %s is %s' % (v, d, r))
        for e in ('be', 'le'):
            bts(c, w, T, 'to_%s_bytes' % e, val(n), B.mk(ty, v), e, key, d)

    for n, v in ex:
        part(c, 'enum %s member' % d, lambda: one(n, v))

    def rest(x):
        k, a = from_(x)
        if not dflt:
            c.check('enum', k == 'Err', key + ':from_repr:unknown', 'from_repr of a value that no member has gives %s %s (%s, %s)' % (k, list(a), d, x))
            return
        y = B.unref(a[0]) if k == 'Ok' else None
        ok = isinstance(y, B.Var) and y.name == '%s::%s' % (T, dflt[0]) and len(y.args) == 1 and B.unref(y.args[0]) == x
        c.check('enum', ok, key + ':from_repr:default', 'from_repr of a value that no member has gives %s %s, not the default member holding it (%s)' % (k, list(a), d))
        if ok:
            how, r = w.call(T, tr, [y])
            c.check('enum', how == 'ok' and B.unref(r) == x, key + ':to_repr:default', 'to_repr of the default member holding %s is %s' % (x, r))
            for e in ('be', 'le'):
                bts(c, w, T, 'to_%s_bytes' % e, y, x, e, key, d)
    cs = cubes(ty, [v for _, v in ex])
    if len(cs) > 12 and c.tier != 'thorough':
        cs = cs[:6] + cs[-6:]
    for x in cs:
        part(c, 'enum %s other values' % d, lambda: rest(x))
    c.check('enum', not w.problems, key + ':problems', 'the code of an enum over %s: %s' % (d, '; '.join(w.problems[:3])))

    df = w.fns.get((T, 'Default', 'default'))
    if df is not None and its[0][1] is not None:
        def dv():
            how, v = w.call(T, df, [])
            c.check('enum', how == 'ok' and B.unref(v) == val(its[0][0]), key + ':default', 'the default value is %s, not the first member' % (v,))
        part(c, 'enum default', dv)
    if not dflt and en.attrs:
        c.check('enum', 'repr(%s)' % ty in en.attrs, key + ':repr', 'an enum over %s without default is laid out as %s' % (ty, en.attrs))


def bts(c, w, T, name, self_, x, e, key, d):
    how, r = w.call(T, fn(w, T, name), [B.Ref(B.Cell(self_))])
    r = B.unref(r)
    n = len(x.bits) // 8
    want = [tuple(x.bits[8 * i:8 * i + 8]) for i in range(n)]
    if e == 'be':
        want = want[::-1]
    ok = how == 'ok' and isinstance(r, (B.Buf, B.Slice)) and [tuple(y.bits) for y in r.items] == want
    c.check(key.split('_')[1], ok, '%s:%s' % (key, name), '%s of %s (%s) is %s' % (name, x, d, r))


def bit_case(c, g, rep, its):
    w = g.bitfield(rep, its)
    ty, T, key = rep.lower(), 'Thing', 'generate_bitfield'
    width = B.WID[ty]
    d = rep.lower()
    st = w.structs.get(T)
    if st is None:
        raise B.Unknown('no struct is emitted')
    c.check('bitfield', len(st.fields) == 1 and st.fields[0][1].replace(' ', '') == ty, key + ':field', 'a bitfield over %s holds %s' % (ty, st.fields))
    fld = st.fields[0][0]
    mask = 0
    for _, v in its:
        mask |= v
    ev = w.ev(T)

    def wrap(x):
        return B.Struct(T, {fld: x})

    def raw(v):
        v = B.unref(v)
        return B.unref(v.fields[fld]) if isinstance(v, B.Struct) and fld in v.fields else None

    def konst(n):
        v = ev.const('Self::' + n)
        if v is None:
            raise B.Unknown('constant %s is not emitted' % n)
        return raw(v)

    def consts():
        for n, v in its:
            x = konst(n.upper())
            c.check('bitfield', x is not None and x == B.mk(ty, v), key + ':const', 'the constant of the flag with value %s (%s) is %s' % (v, d, x))
        c.check('bitfield', konst('ZERO') == B.mk(ty, 0), key + ':ZERO', 'ZERO is %s' % (konst('ZERO'),))
        c.check('bitfield', konst('ALL') == B.mk(ty, mask), key + ':ALL', 'ALL of flags %s (%s) is %s' % ([v for _, v in its], d, konst('ALL')))
    part(c, 'bitfield constants', consts)

    def sym(known=()):
        return B.named(ty, 'x', known)

    def bit(v, i):
        return (v >> i) & 1

    for n, v in its:
        bs = [i for i in range(width) if bit(v, i)]

        def get1():
            for i in bs[:2] + bs[-2:]:
                x = wrap(B.mk(ty, -(1 << i) if ty[0] == 'i' and i == width - 1 else 1 << i))
                how, r = w.call(T, fn(w, T, n), [B.Ref(B.Cell(x))])
                c.check('bitfield', how == 'ok' and r is True, key + ':getter:set', 'the value with only bit %d of a flag %s (%s) has getter %s' % (i, v, d, r))
        part(c, 'bitfield getter', get1)

        def get():
            how, r = w.call(T, fn(w, T, n), [B.Ref(B.Cell(wrap(sym([(i, 0) for i in bs]))))])
            c.check('bitfield', how == 'ok' and r is False, key + ':getter:clear', 'a value with no bit of a flag %s (%s) has getter %s' % (v, d, r))
            for i in bs[:2] + bs[-2:]:
                how, r = w.call(T, fn(w, T, n), [B.Ref(B.Cell(wrap(sym([(i, 1)]))))])
                c.check('bitfield', how == 'ok' and r is True, key + ':getter:set', 'a value with bit %d of a flag %s (%s) set has getter %s' % (i, v, d, r))
        part(c, 'bitfield getter', get)

        def set_():
            cell = B.Cell(wrap(sym()))
            how, r = w.call(T, fn(w, T, 'set_' + n), [B.Ref(cell)])
            want = sym([(i, 1) for i in bs])
            c.check('bitfield', how == 'ok' and raw(cell.v) == want, key + ':setter', 'setting the flag %s (%s) gives %s' % (v, d, raw(cell.v)))
        part(c, 'bitfield setter', set_)

    def reprs():
        f = fn(w, T, 'from_repr')
        inside = sym([(i, 0) for i in range(width) if not bit(mask, i)])
        how, r = w.call(T, f, [inside])
        k, a = ctor(r) if how == 'ok' else (how, ())
        c.check('bitfield', k == 'Ok' and raw(a[0]) == inside, key + ':from_repr:known', 'from_repr of a combination of flags (%s, mask %s) is %s %s' % (d, mask, k, list(a)))
        outside = [i for i in range(width) if not bit(mask, i)]
        for i in outside if c.tier == 'thorough' else outside[:3] + outside[-3:]:
            how, r = w.call(T, f, [sym([(i, 1)])])
            k, a = ctor(r) if how == 'ok' else (how, ())
            c.check('bitfield', k == 'Err', key + ':from_repr:unknown', 'from_repr of a value with bit %d, which no flag has, is %s (%s)' % (i, k, d))
    part(c, 'bitfield from_repr', reprs)
    for e in ('be', 'le'):
        part(c, 'bitfield bytes', lambda: bts(c, w, T, 'to_%s_bytes' % e, wrap(sym()), sym(), e, key, d))

    from ..world import OPS
    x, y = B.named(ty, 'x'), B.named(ty, 'y')
    for op, f in (('|', B.or_bit), ('&', B.and_bit), ('^', B.xor_bit)):
        def binary():
            want = B.Int(ty, [f(p, q) for p, q in zip(x.bits, y.bits)])
            tr, n = OPS[op]
            if (T, tr, n) in w.fns:
                r = ev.binop(op, wrap(x), wrap(y))
                c.check('bitfield', raw(r) == want, key + ':op:' + op, '%s of two bitfields over %s is %s' % (op, d, raw(r)))
            if (T, tr + 'Assign', n + '_assign') in w.fns:
                cell = B.Cell(wrap(x))
                w.call(T, w.fns[(T, tr + 'Assign', n + '_assign')], [B.Ref(cell), wrap(y)])
                c.check('bitfield', raw(cell.v) == want, key + ':op:%s=' % op, '%s= of two bitfields over %s gives %s' % (op, d, raw(cell.v)))
        part(c, 'bitfield operator', binary)

    def inv():
        f = w.fns.get((T, 'Not', 'not'))
        if f is not None:
            how, r = w.call(T, f, [wrap(x)])
            c.check('bitfield', how == 'ok' and raw(r) == B.Int(ty, [B.not_bit(p) for p in x.bits]), key + ':op:!', '! of a bitfield over %s is %s' % (d, raw(r)))
    part(c, 'bitfield operator', inv)
    c.check('bitfield', not w.problems, key + ':problems', '; '.join(w.problems[:3]))


def converted(c):
    g = Gen(c)
    for rep in REPS:
        for s in (['a='], ['a=', 'b'], ['a=', 'b', 'c'], ['a=', 'b', 'c=', 'd', 'e', 'f'], ['a=', 'b=', 'c']):
            for kind in ('enum', 'bitfield'):
                part(c, 'members of %s' % kind, lambda: conv_case(c, g, kind, rep, s))
        part(c, 'members of enum', lambda: conv_case(c, g, 'enum', rep, ['a=', 'b', 'z!']))
        part(c, 'members of enum', lambda: conv_case(c, g, 'enum', rep, ['z!']))
    c.floor('member value', 100)


def linear(e, kind):
    """(leaf, distance) of a member's expression"""
    if not isinstance(e, tuple):
        m = re.match(r'^conv\((\w+)\)$', str(e))
        if m:
            return m.group(1), 0
        raise B.Unknown('member expression %s' % (e,))
    if e[0] == 'ConstRef':
        c = e[1]
        if isinstance(c, tuple) and c[0] == '' and len(c) > 1:
            return linear(c[-1], kind)
        raise B.Unknown('reference %s' % str(c)[:80])
    if e[0] == 'Int':
        x = e[1]
        for y in x[1:]:
            if isinstance(y, tuple) and len(y) == 2 and re.match(r'^[IU]\d+$', y[0]) and isinstance(y[1], int):
                return None, y[1]
    if e[0] == 'Binary':
        x = e[1]
        ops = [y[0] for y in x[1:] if isinstance(y, tuple) and len(y) == 1 and y[0] in ('Add', 'Shl', 'Mul', 'Sub', 'BitOr', 'Or')]
        sub = [y for y in x[1:] if not (isinstance(y, tuple) and (len(y) == 1 or y[0] == '')) and not isinstance(y, str) or (isinstance(y, str) and y.startswith('conv('))]
        if len(ops) == 1 and len(sub) == 2:
            l, r = linear(sub[0], kind), linear(sub[1], kind)
            if ops[0] == 'Add':
                if l[0] and r[0]:
                    raise B.Unknown('sum of members')
                return (l[0] or r[0]), l[1] + r[1]
            if ops[0] == 'Sub' and r[0] is None:
                return l[0], l[1] - r[1]
            if kind == 'bitfield' and ops[0] == 'Shl' and r[0] is None:
                return ('shl', l[0] if not isinstance(l[0], tuple) else l[0][1]), (l[1] if isinstance(l[0], tuple) else 0) + r[1] if l[0] else None
            if kind == 'bitfield' and ops[0] == 'Mul' and r[0] is None and r[1] and r[1] & (r[1] - 1) == 0:
                return ('shl', l[0] if not isinstance(l[0], tuple) else l[0][1]), (l[1] if isinstance(l[0], tuple) else 0) + r[1].bit_length() - 1
            return ('other ' + ops[0], l, r), 0
    raise B.Unknown('member expression %s' % str(e)[:120])


def conv_case(c, g, kind, rep, s):
    m, b = c.mir, g.b
    f = [x for x in m.fns.values() if x.d.endswith('::convert_%s_type' % kind)][0]
    ast = m.adt('ast::types::enum_::Enum' if kind == 'enum' else 'ast::types::bitfield::Bitfield')

    def member(x):
        n = x.rstrip('=!')
        ident = lambda ty: b.struct(ty, name=b.string(n), span=b.atom(n + '.span'))
        if kind == 'enum':
            v = b.enum('Expression', b.boxed(b.atom(n))) if x.endswith('=') else b.enum('Default') if x.endswith('!') else b.enum('None')
        else:
            v = (lambda ty: ('v', ty, 1, (b.boxed(b.atom(n))(b.T[ty]['args'][0]),))) if x.endswith('=') else (lambda ty: ('v', ty, 0, ()))
        return lambda ty: (lambda t: ('v', ty, 0, (ident(t[0]), v(t[1]))))(tuple_tys(b, ty))
    t = b.struct(ast, rep=lambda ty: b.struct(ty, scalar=b.enum(rep)), items=b.vec([member(x) for x in s]))

    def conv(I_, st, args, info, rty, site):
        n = name_of(I_.resolve(st, args[1], 6))
        return [(st, ('v', rty, 0, (I_.atom('conv(%s)' % n.split('*')[-1].strip('&()'), b.T[rty]['args'][0]),)))]
    cf = [x for x in m.fns.values() if x.d.endswith('::convert_expr')][0]
    I_ = Interp(m, {cf.name: conv})
    pt = f.locals[3]
    pur = ('v', pt, b.vidx(pt, 'TypeDefinition'), (S('Thing'),))
    outs = I_.run(f, [I_.atom('scope', f.locals[1]), K(t), pur], State())
    note(c, I_)
    for st, v in outs:
        r = l1.plain(I_, st, v, 40)
        if r[0] != 'Ok':
            c.check('member value', False, 'convert_%s_type:rejected' % kind, 'a %s with members %s is rejected' % (kind, s))
            continue
        x = r[1][1]
        mp = [y['map'] for y in x[1:] if isinstance(y, dict) and 'map' in y]
        if len(mp) != 1 or '*' in mp[0]:
            raise B.Unknown('members are not explicit')
        got = [(k.strip('"'), v) for k, v in mp[0]]
        c.check('member value', [k for k, _ in got] == [y.rstrip('=!') for y in s], 'convert_%s_type:members' % kind,
                'a %s declared with %s gets the members %s' % (kind, s, [k for k, _ in got]))
        base, dist = None, 0
        for y, (k, v) in zip(s, got):
            n = y.rstrip('=!')
            if y.endswith('!'):
                c.check('member value', v[0] == 'Default', 'convert_enum_type:default', 'a default member becomes %s' % str(v)[:80])
                continue
            if y.endswith('='):
                base, dist = n, 0
            else:
                dist += 1
            cn = v
            if kind == 'enum':
                if v[0] != 'Value':
                    c.check('member value', False, 'convert_enum_type:value', 'a member with a value becomes %s' % str(v)[:80])
                    continue
                cn = v[1]
            lin = linear(cn[-1], kind)
            if kind == 'enum' or not dist:
                want = (base, dist)
            else:
                want = (('shl', base), dist)
            c.check('member value', lin == want, 'convert_%s_type:value:%s' % (kind, 'explicit' if not dist else 'implicit'),
                    'member %d places after the last written value gets %s' % (dist, lin))


def tuple_tys(b, ty):
    return b.T[ty]['e']


def texts():
    """(description, members with the values the description gives them, default member)"""
    ints = ('u8', 'i8', 'u16', 'i16', 'u32', 'i32', 'u64', 'i64', 'u128', 'i128')
    for r in ints:
        yield 'type X = enum %s { a = 1, b, c = 9, d, e, f = 40 };' % r, {'a': 1, 'b': 2, 'c': 9, 'd': 10, 'e': 11, 'f': 40}, None
        yield 'type X = enum %s { a = 4, b = 3, c, d = 2, e = 0, o = default };' % r, None, None
        yield 'type X = enum %s { a = 5, b, o = default };' % r, {'a': 5, 'b': 6}, 'o'
    yield 'const k: u8 = 7; type X = enum u8 { a = k, b, c = k + 5, d };', {'a': 7, 'b': 8, 'c': 12, 'd': 13}, None
    yield 'const k: u16 = 0x700; type X = enum u16 { a = k | 1, b, c = k << 1, o = default };', {'a': 0x701, 'b': 0x702, 'c': 0xe00}, 'o'
    # a default member that is not the last one
    yield 'type X = enum u8 { a = 1, o = default, c = 3 };', {'a': 1, 'c': 3}, 'o'
    yield 'type X = enum u8 { o = default, a = 1, c = 3 };', {'a': 1, 'c': 3}, 'o'


def flag_texts():
    for r in ('u8', 'u16', 'u32', 'u64', 'u128'):
        yield 'type X = bitfield %s { a = 1, b, c = 8, d, e };' % r, {'a': 1, 'b': 2, 'c': 8, 'd': 16, 'e': 32}
        yield 'type X = bitfield %s { a = 6, b = 1, c = 24, d };' % r, {'a': 6, 'b': 1, 'c': 24, 'd': 48}
    yield 'const k: u8 = 4; type X = bitfield u8 { a = k, b, c = k | 1 };', {'a': 4, 'b': 8, 'c': 5}


def rep_of(text):
    import re
    return re.search(r'(?:enum|bitfield) (\w+)', text).group(1)


def described_one(c, sem, kind, row):
    from . import roundtrip as R
    from ..bitsem import Cell, Ref, Struct, Var, mk, unref
    text, members = row[0], row[1]
    default = row[2] if kind == 'enum' else None
    if members is None:
        return
    r = R.load(text, 'sync', sem)
    if r[0] != 'ok':
        return c.ob('rejected description')
    w, rep = r[1], rep_of(text)

    def call(fn, *args):
        f = w.lookup('X', fn)
        if f is None:
            from ..bitsem import Unknown
            raise Unknown('no ' + fn)
        how, v = w.call('X', f, list(args))
        return how, unref(v)
    if kind == 'enum':
        for n, x in members.items():
            how, v = call('from_repr', mk(rep, x))
            got = unref(v.args[0]) if how == 'ok' and isinstance(v, Var) and v.name == 'Ok' else None
            c.check('described members', isinstance(got, Var) and got.name == 'X::' + n, 'described:from_repr:' + text, 'value %d of `%s` is read as %s, it is that of %s' % (x, text, got, n), 'X::from_repr')
            shape = w.ev().variant('X::' + n)
            if shape is None or shape[2]:
                continue
            how, v = call('to_repr', Var('X::' + n))
            c.check('described members', how == 'ok' and v.const() == x, 'described:to_repr:' + text, '%s of `%s` is written as %s, its value is %d' % (n, text, v, x), 'X::to_repr')
        for x in (0, 100, 77):
            if x in members.values():
                continue
            how, v = call('from_repr', mk(rep, x))
            got = unref(v.args[0]) if how == 'ok' and isinstance(v, Var) and v.name == 'Ok' else None
            good = (isinstance(got, Var) and got.name == 'X::' + default and unref(got.args[0]).const() == x) if default else (isinstance(v, Var) and v.name == 'Err')
            c.check('described members', good, 'described:others:' + text, 'value %d, that of no member of `%s`, is read as %s' % (x, text, got), 'X::from_repr')
            if default and good:
                how, v = call('to_repr', got)
                c.check('described members', how == 'ok' and v.const() == x, 'described:others:' + text, '%s(%d) of `%s` is written as %s' % (default, x, text, v), 'X::to_repr')
        return
    allbits = 0
    for x in members.values():
        allbits |= x
    for n, x in members.items():
        cell = Cell(Struct('X', {'0': mk(rep, 0)}))
        how, _ = call('set_' + n, Ref(cell))
        got = unref(unref(cell.v).fields['0'])
        c.check('described flags', how == 'ok' and got.const() == x, 'described:set:' + text, 'setting %s of `%s` gives %s, its bits are %d' % (n, text, got.const(), x), 'X::set_' + n)
        for m, y in members.items():
            how, v = call(n, Ref(Cell(Struct('X', {'0': mk(rep, y)}))))
            c.check('described flags', how == 'ok' and v == bool(x & y), 'described:get:' + text, 'flag %s of `%s` reads as %s where the bits are %d' % (n, text, v, y), 'X::' + n)
    for x in (allbits, allbits + 1 if not (allbits + 1) & allbits else allbits | 0x40, 1, 0x40):
        how, v = call('from_repr', mk(rep, x))
        c.check('described flags', isinstance(v, Var) and v.name == ('Err' if x & ~allbits else 'Ok'), 'described:repr:' + text, 'bits %d of `%s` are read as %s' % (x, text, getattr(v, 'name', v)), 'X::from_repr')


def described(c):
    """the members a description writes down against the conversions emitted for it"""
    from ..sem import Sem
    c.rule('for each enumerated description of an enum or bitfield that is accepted, the emitted conversions evaluated at the values of the text are the members of the text.')
    sem = Sem(c)
    rows = [('enum', x) for x in texts()] + [('bitfield', x) for x in flag_texts()]
    c.parallel([('described:' + x[0], described_one, sem, k, x) for k, x in rows])
