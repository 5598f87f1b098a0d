"""Instruction sequences: what the coder builders push for a symbolic field.

A field is built as a value of the compiler's own types whose *kind* (scalar, array, container, …),
condition, transforms and calculation are given by a shape, while everything below (names of types,
lengths, conditions, arguments, element types) stays symbolic.  The MIR of the builder is interpreted
abstractly on it; the resulting instruction list is decoded to nested tuples.
"""
from .an import *
from .interp import K


class B:
    """builds values of the crate's types by field name"""

    def __init__(self, c):
        self.c = c
        self.m = c.mir
        self.I = Interp(self.m, {})
        self.T = self.I.T
        self.field_ty = self.m.adt('asg::field::Field')
        self.uid = 0
        self.roots = {}
        self.arcs, self.scopes = {}, []     # the shared cells of the fields; names -> cells of the containers around

    def fty(self, ty, name, variant=0):
        for f in self.T[ty]['v'][variant]['f']:
            if f[0] == name:
                return f[1]
        raise KeyError('field %s of %s' % (name, self.T[ty]['n']))

    def vidx(self, ty, name):
        for i, v in enumerate(self.T[ty]['v']):
            if v['n'] == name:
                return i
        raise KeyError('variant %s of %s' % (name, self.T[ty]['n']))

    def struct(self, ty, **kw):
        fs = self.T[ty]['v'][0]['f']
        out = []
        for f in fs:
            out.append(kw[f[0]](f[1]) if f[0] in kw else self.I.atom('?' + f[0], f[1]))
        return ('v', ty, 0, tuple(out))

    def cell(self, inner):
        """RefCell / Cell of inner(elem type)"""
        return lambda ty: ('v', ty, 0, (inner(self.T[ty]['args'][0]),))

    def opt(self, name):
        """Some(atom name) / None"""
        def f(ty):
            if name is None:
                return ('v', ty, 0, ())
            return ('v', ty, 1, (self.I.atom(name, self.T[ty]['args'][0]),))
        return f

    def atom(self, name):
        return lambda ty: self.I.atom(name, ty)

    def vec(self, fs):
        return lambda ty: ('q', tuple(('1', f(self.T[ty]['args'][0])) for f in fs))

    def string(self, s):
        return lambda ty: ('s', (s,)) if s else ('s', ())

    def boxed(self, f):
        return lambda ty: ('b', f(self.T[ty]['args'][0]))

    def enum(self, vname, *fs):
        def g(ty):
            i = self.vidx(ty, vname)
            tys = [x[1] for x in self.T[ty]['v'][i]['f']]
            return ('v', ty, i, tuple(f(t) for f, t in zip(fs, tys)))
        return g

    def bool(self, b):
        return lambda ty: I(1 if b else 0)

    def calc(self, nm, c):
        def f(ty):
            if not c:
                return ('v', ty, 0, ())
            return ('v', ty, 1, (self.expr(nm + '.calc', c)(self.T[ty]['args'][0]),))
        return f

    def expr(self, nm, c):
        """1: a literal; ('blen', field): a cast size-of call; ('sum', a, b): both operands"""
        if c == 1:
            return self.enum('Int', self.atom(nm))
        if c[0] == 'blen':
            call = self.enum('Call', lambda ty: self.struct(
                ty, function=self.boxed(lambda t: self.struct(t, name=self.string('blen'))),
                arguments=self.vec([self.enum('FieldRef', lambda t: self.field_ref(c[1]))])))
            return self.enum('Cast', lambda ty: self.struct(ty, inner=self.boxed(call), type_=self.atom(nm + '.type'), span=self.atom('?')))
        if c[0] == 'sum':
            return self.enum('Binary', lambda ty: self.struct(ty, op=self.enum('Add'), left=self.boxed(self.expr(nm + '.l', c[1])), right=self.boxed(self.expr(nm + '.r', c[2]))))
        if c[0] == 'node':
            return self.node(nm, *c[1:])
        raise KeyError(c[0])

    def node(self, nm, kind, fname, *children):
        """an expression of the kind with the given subexpressions (in the order of its fields); everything else symbolic"""
        kids = iter(enumerate(children))

        def sub(t):
            i, x = next(kids)
            return self.expr('%s.%d' % (nm, i), x)(t)

        def part(t, name):
            ty = self.T[t]
            if t == self.expr_ty:
                return sub(t)
            if ty['k'] == 'adt' and ty['n'].startswith('std::boxed::Box<') and ty['args'][0] == self.expr_ty:
                return ('b', sub(ty['args'][0]))
            if ty['k'] == 'adt' and ty['n'].startswith('std::vec::Vec<') and ty['args'][0] == self.expr_ty:
                return ('q', tuple(('1', sub(ty['args'][0])) for _ in range(len(children))))
            if name == 'function':
                return ('b', self.struct(ty['args'][0], name=self.string(fname)))
            return self.I.atom('%s.%s' % (nm, name), t)

        def build(t):
            return ('v', t, 0, tuple(part(f[1], f[0]) for f in self.T[t]['v'][0]['f']))
        self.expr_ty = self.m.adt('asg::expression::Expression')
        return self.enum(kind, self.inner(build))

    def arities(self):
        """[(kind of expression, number of subexpressions)] of the kinds that have any, from the definition of the type"""
        e = self.m.adt('asg::expression::Expression')
        out = []

        def count(t, d):
            ty = self.T[t]
            if t == e:
                return 1
            if ty['k'] != 'adt':
                return 0
            if ty['n'].startswith('std::vec::Vec<'):
                return 2 if ty['args'][0] == e else 0
            if ty['n'].startswith('std::boxed::Box<'):
                return count(ty['args'][0], d)
            if d or ty['crate'] in ('std', 'alloc', 'core') or ty.get('ak') == 'Enum':
                return 0
            return sum(count(f[1], 1) for f in ty['v'][0]['f'])
        for v in self.T[e]['v']:
            n = sum(count(f[1], 0) for f in v['f'])
            if n:
                out.append((v['n'], n))
        return out

    # ------------------------------------------------------------- language values
    def transform(self, nm, cond, nargs):
        return lambda ty: self.struct(ty, transform=self.atom(nm + '.t'), condition=self.opt(nm + '.cond' if cond else None),
                                      arguments=self.vec([self.atom('%s.arg%d' % (nm, i)) for i in range(nargs)]))

    def type_(self, nm, k):
        """k: shape of a type"""
        kind = k[0]
        if kind in ('F32', 'F64', 'Bool'):
            return self.enum(kind)
        if kind == 'Scalar':
            return self.enum(kind, self.atom(nm + '.scalar'))
        if kind in ('Enum', 'Bitfield'):
            # name and representation are symbolic
            return self.enum(kind, self.atom(nm + '.' + kind.lower()))
        if kind == 'Foreign':
            return self.enum(kind, self.atom(nm + '.foreign'))
        if kind == 'Ref':      # ('Ref', target kind, nargs)
            return self.enum('Ref', self.inner(lambda ty: self.struct(
                ty, target=self.boxed(lambda t: self.struct(t, name=self.atom(nm + '.target.name'), type_=self.cell(self.type_(nm + '.target', k[1])), toplevel=self.bool(1))),
                arguments=self.vec([self.atom('%s.arg%d' % (nm, i)) for i in range(k[2])]))))
        if kind == 'Array':    # ('Array', element, expandable, has value)
            return self.enum('Array', self.inner(lambda ty: self.struct(
                ty, element=self.boxed(self.type_(nm + '.elem', k[1])) if k[1] else self.atom(nm + '.elem'),
                length=lambda t: self.struct(t, expandable=self.bool(k[2]), value=self.opt(nm + '.len' if k[3] else None)))))
        if kind == 'Container':  # ('Container', has length, is_enum, [(name, field shape)])
            def items(t):
                self.scopes.append({n: self.cell_id() for n, s in k[3]})
                r = tuple(('1', ('v', None, 0, (self.string(n)(None), self.arcfield(n, s, self.scopes[-1][n])))) for n, s in k[3])
                self.scopes.pop()
                return ('m', r)
            return self.enum('Container', self.inner(lambda ty: self.struct(
                ty, length=self.opt(nm + '.len' if k[1] else None), is_enum=self.cell(self.bool(k[2])), items=items)))
        raise KeyError(kind)

    def inner(self, f):
        """through a Box/Arc when the variant holds one"""
        def g(ty):
            t = self.T[ty]
            if t['k'] == 'adt' and t['crate'] in ('alloc', 'std', 'core') and t.get('args'):
                return ('b', g(t['args'][0]))
            return f(ty)
        return g

    def cell_id(self):
        self.uid += 1
        return self.uid

    def arcfield(self, nm, s, n=None):
        n = n or self.cell_id()
        self.arcs[n] = self.field(nm, s)(self.field_ty)
        return ('r', ('H', 'arc', n), ())

    def field_ref(self, nm):
        for sc in reversed(self.scopes):
            if nm in sc:
                return ('r', ('H', 'arc', sc[nm]), ())
        raise KeyError('no field ' + nm)

    def field(self, nm, s):
        """s: {'type': kind, 'cond': bool, 'calc': bool, 'tr': [(cond, nargs)], 'pad': bool, 'top': bool}"""
        name, nm = nm, s.get('lab', nm)    # a field may be called otherwise than its parts
        return lambda ty: self.struct(
            ty, name=self.string(name), type_=self.cell(self.type_(nm, s['type'])),
            calculated=self.cell(self.calc(nm, s.get('calc'))),
            condition=self.cell(self.opt(nm + '.cond' if s.get('cond') else None)),
            transforms=self.cell(self.vec([self.transform('%s.tr%d' % (nm, i), c, n) for i, (c, n) in enumerate(s.get('tr', ()))])),
            toplevel=self.bool(s.get('top')), is_pad=self.cell(self.bool(s.get('pad'))),
            is_maybe_cyclical=self.cell(self.bool(0)),
            arguments=self.cell(self.vec([])))


# ------------------------------------------------------------------------ results
def plain(I_, st, v, d=30):
    """value -> nested python value"""
    v = I_.resolve(st, v, 6)
    return plain0(I_, st, v, d)


def plain0(I_, st, v, d):
    if d == 0:
        return '…'
    k = v[0]
    if k == 'i':
        return v[1]
    if k == 's':
        return '"%s"' % ''.join(p if isinstance(p, str) else '{%s}' % name_of(p) for p in v[1])
    if k in ('b', 'K', 'k'):
        return plain0(I_, st, v[1], d)
    if k == 'q':
        return [plain0(I_, st, it[1], d - 1) if it[0] == '1' else ('*',) + tuple(it[1:2]) for it in v[1]]
    if k == 'm':
        return {'map': [(plain0(I_, st, it[1][3][0], d - 1), plain0(I_, st, it[1][3][1], d - 1)) if it[0] == '1' else '*' for it in v[1]]}
    if k == 'v':
        t = I_.T[v[1]] if v[1] is not None else None
        if t and t['k'] == 'adt' and len(t['v']) > v[2] and t.get('ak') == 'Enum':
            vn = t['v'][v[2]]['n']
            if t['d'].endswith('Option'):
                return None if vn == 'None' else ('Some', plain0(I_, st, v[3][0], d - 1))
            return (vn,) + tuple(plain0(I_, st, x, d - 1) for x in v[3])
        if t and t['k'] == 'adt' and t['d'].rsplit('::', 1)[-1] in ('RefCell', 'Cell', 'Arc', 'Box', 'Rc'):
            return plain0(I_, st, v[3][0], d)
        return ('',) + tuple(plain0(I_, st, x, d - 1) for x in v[3])
    if k == 'r':
        try:
            return plain0(I_, st, I_.resolve(st, I_.load(st, v), 6), d - 1)
        except Exception:
            return name_of(v)
    return name_of(v)


SIDE = {'d': 'coder::decode', 'e': 'coder::encode'}


class L1:
    def __init__(self, c):
        self.c = c
        self.b = B(c)

    def ctx(self, I_, side, regs=100):
        ty = self.c.mir.adt(SIDE[side] + '::Context')
        b = self.b
        kw = dict(register_count=lambda t: I(regs), instructions=lambda t: ('q', ()), name=b.string(''),
                  field_register_map=lambda t: ('m', ()), resolved_autos=lambda t: ('m', ()), pending_autos=lambda t: ('q', ()))
        kw = {k: v for k, v in kw.items() if k in {f[0] for f in b.T[ty]['v'][0]['f']}}
        return b.struct(ty, **kw)

    def run(self, side, fnname, mk_args, hooks=None, **kw):
        """[(state, instructions, return value, ctx)] of a builder method; mk_args(I_, fn) -> args after self"""
        m = self.c.mir
        fn = method(m, SIDE[side] + '::Context', fnname)
        hk = {}
        hk.update(hooks or {})
        I_ = Interp(m, hk)
        I_.part_limit = 4000
        I_.rec_ok = lambda fn, cnt, st, args: cnt < 8
        st = State()
        st.store[('H', 'ctx')] = self.ctx(I_, side, **kw)
        self.b.arcs = {}
        args = [('r', ('H', 'ctx'), ())] + mk_args(I_, fn)
        I_.shared, I_.narc = True, self.b.uid
        for n, v in self.b.arcs.items():
            st.store[('H', 'arc', n)] = v
        outs = I_.run(fn, args, st)
        note(self.c, I_)
        res = []
        for s, v in outs:
            ctx = s.store[('H', 'ctx')]
            d = plain(I_, s, ctx)
            names = [f[0] for f in self.b.T[ctx[1]]['v'][0]['f']]
            cd = dict(zip(names, d[1:]))
            res.append((s, cd['instructions'], plain(I_, s, v), cd))
        self.I_ = I_
        self.calcs = {}
        names = [f[0] for f in self.b.T[self.b.field_ty]['v'][0]['f']]
        for v in self.b.arcs.values():
            d = plain(I_, st, v[3][names.index('calculated')])
            if d is not None:
                self.calcs[plain(I_, st, v[3][names.index('name')]).strip('"')] = d[1] if d[0] == 'Some' else d
        return res

    def target(self, side, kind='Direct', reg=7):
        ty = self.c.mir.adt('coder::Target')
        b = self.b
        i = b.vidx(ty, kind)
        return ('v', ty, i, () if kind == 'Direct' else (I(reg),))

    def arc(self, I_, nm, shape):
        return K(self.b.arcfield(nm, shape))


def method(m, ty, name):
    """inherent method of a type, whatever module its impl block stands in"""
    mod = ty.rsplit('::', 1)[0]
    for f in m.fns.values():
        if f.local and f.d.rsplit('::', 1)[-1] == name and mod in f.name and (ty in f.name or '<impl' in f.d):
            return f
    raise KeyError('anchor method %s::%s: no match (%s)' % (ty, name, [f.name for f in m.fns.values() if f.local and f.d.endswith('::' + name)][:3]))
