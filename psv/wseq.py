"""Wire form of instruction sequences.

A decoder's and an encoder's instruction list (nested tuples from l1) are evaluated to the same kind
of tree: what stands on the wire, in order, where each value comes from or goes to, under which
conditions, transforms, limits and repetitions.  Registers disappear: a value is named by the member
of the type that it is read for or taken from.

items   ('prim', T, x) ('repr', T, x) ('primarr', T, n, x) ('reprarr', T, n, x) ('foreign', o, args, x)
        ('ref', name, args, x) ('skip', n) ('cond', c, items) ('case', c, variant, items)
        ('xform', c, t, args, items) ('sized', n, items) ('loop', how, n, items)
values  ('fld', name) ('some', v): inside an optional   ('each', v): an element   ('expr', e)
"""


class Bad(Exception):
    pass


def short(e):
    """expression values in short form"""
    if isinstance(e, tuple) and e:
        if e[0] == 'FieldRef' and len(e) == 2 and isinstance(e[1], tuple):
            return ('ref', e[1][1].strip('"'))
        if e[0] == 'Call' and len(e) == 2:
            f = e[1][1]
            return ('call', f[1].strip('"') if isinstance(f, tuple) and f[0] == '' else f, short(e[1][2]))
        if e[0] == 'Cast' and len(e) == 2:
            return ('cast', short(e[1][1]), short(e[1][2]))
        if e[0] == 'Binary' and len(e) == 2:
            return ('bin', e[1][1], short(e[1][2]), short(e[1][3]))
        return tuple(short(x) for x in e)
    if isinstance(e, list):
        return tuple(short(x) for x in e)
    return e


def prim(p):
    """primitive type, byte order kept when concrete"""
    if p[0] == 'Scalar':
        x = p[1]
        if isinstance(x, tuple) and x[0] == '':
            return ('Scalar',) + tuple(y[0] if isinstance(y, tuple) else y for y in x[1:])
        return ('Scalar', x)
    return (p[0],)


class Walk:
    def __init__(self):
        self.v = {}
        self.nodes = {('Direct',): []}
        self.evals = []      # (expression, {name: value})
        self.bad = []

    def val(self, r):
        return self.v.get(r, ('unset', r))

    def node(self, t):
        if t[0] in ('Stream', 'Buf'):
            t = (t[0], t[1])
        if t not in self.nodes:
            self.bad.append('%s is used before it is opened' % (t,))
            self.nodes[t] = []
        return self.nodes[t]

    def put(self, t, item):
        self.node(t).append(item)

    def nested(self, body, wrap):
        """items that a nested body adds to any stream are wrapped"""
        mark = {k: len(n) for k, n in self.nodes.items()}
        self.run(body)
        for k, n in self.nodes.items():
            if k in mark and len(n) > mark[k]:
                new = n[mark[k]:]
                del n[mark[k]:]
                n.append(wrap(tuple(new)))

    def run(self, ins):
        for i in ins:
            f = getattr(self, 'i_' + i[0], None)
            if f is None:
                raise Bad('unknown instruction %s' % (i[0],))
            f(*i[1:])


class Dec(Walk):
    """decoder instructions"""

    def __init__(self):
        super().__init__()
        self.k = 0
        self.label = {}
        self.names = []
        self.result = None
        self.returned = False

    def read(self, out):
        self.k += 1
        self.v[out] = ('rd', self.k)
        return ('rd', self.k)

    def unify(self, t, lab):
        if t[0] == 'rd':
            if self.label.get(t[1], lab) != lab:
                self.bad.append('one value is stored as %s and %s' % (self.label[t[1]], lab))
            self.label[t[1]] = lab
        elif t[0] == 'opt':
            self.unify(t[2], ('some', lab))
        elif t[0] == 'list':
            self.unify(t[1], ('each', lab))
        else:
            self.bad.append('%s is stored as %s' % (t, lab))

    def name(self, t):
        if t[0] == 'rd':
            return self.label.get(t[1], ('unstored', t[1]))
        if t[0] == 'opt':
            n = self.name(t[2])
            return n[1] if n[0] == 'some' else ('opt', n)
        if t[0] == 'list':
            n = self.name(t[1])
            return n[1] if n[0] == 'each' else ('list', n)
        return t

    def finish(self):
        def go(x):
            if isinstance(x, tuple):
                if len(x) == 2 and x[0] in ('rd',) or len(x) == 3 and x[0] == 'opt' or len(x) == 2 and x[0] == 'list':
                    return self.name(x)
                return tuple(go(y) for y in x)
            return x
        self.items = go(freeze(self.nodes[('Direct',)]))
        self.envs = [(e, {n: go(t) for n, t in env.items()}) for e, env in self.evals]
        self.names = [(n, go(t)) for n, t in self.names]

    # ------------------------------------------------------------ instructions
    def i_Eval(self, r, e, m):
        e = short(e)
        env = {n.strip('"'): self.val(x) for n, x in m['map'] if not isinstance(n, str) or n != '*'}
        self.evals.append((e, env))
        self.v[r] = ('expr', e)

    def i_DecodePrimitive(self, src, out, p):
        self.put(src, ('prim', prim(p), self.read(out)))

    def i_DecodeRepr(self, name, p, out, src):
        self.put(src, ('repr', name, prim(p), self.read(out)))

    def i_DecodePrimitiveArray(self, src, out, p, n):
        self.put(src, ('primarr', prim(p), self.val(n[1]) if n else None, self.read(out)))

    def i_DecodeReprArray(self, src, out, name, p, n):
        self.put(src, ('reprarr', name, prim(p), self.val(n[1]) if n else None, self.read(out)))

    def i_DecodeForeign(self, src, out, o, args):
        self.put(src, ('foreign', o, tuple(map(self.val, args)), self.read(out)))

    def i_DecodeRef(self, src, out, name, args):
        self.put(src, ('ref', name, tuple(map(self.val, args)), self.read(out)))

    def i_Skip(self, src, n):
        self.put(src, ('skip', self.val(n)))

    def i_Constrict(self, src, out, n):
        sub = []
        self.node(src).append(['sized', self.val(n), sub])
        self.nodes[('Stream', out)] = sub

    def i_WrapStream(self, src, out, t, args):
        sub = []
        self.node(src).append(['xform', None, t, tuple(map(self.val, args)), sub])
        self.nodes[('Stream', out)] = sub

    def i_ConditionalWrapStream(self, c, body, src, out, t, args):
        mark = {k: len(n) for k, n in self.nodes.items()}
        self.run(body)
        if any(len(n) > mark.get(k, 0) for k, n in self.nodes.items()):
            self.bad.append('the arguments of a transform read the stream')
        sub = []
        self.node(src).append(['xform', self.val(c), t, tuple(map(self.val, args)), sub])
        self.nodes[('Stream', out)] = sub

    def i_Loop(self, src, n, term, out, body):
        how = ('count', self.val(n[1])) if n else ('until', self.val(term[1])) if term else ('rest', None)
        if n and term:
            self.bad.append('a loop has a count and a terminator')
        mark = len(self.node(src))
        others = {k: len(x) for k, x in self.nodes.items() if x is not self.node(src)}
        save = self.v.get(out)
        self.v[out] = None
        self.loop_out = out
        self.run(body)
        if self.v.get(out) is None:
            self.bad.append('the elements of a loop are not collected')
            self.v[out] = ('list', ('none',))
        for k, x in self.nodes.items():
            if x is not self.node(src) and len(x) > others.get(k, len(x)):
                self.bad.append('a loop reads another stream')
        sub = self.node(src)[mark:]
        del self.node(src)[mark:]
        self.node(src).append(['loop', how[0], how[1], sub])

    def i_LoopOutput(self, out, item):
        if self.v.get(out) is not None:
            self.bad.append('an element is collected twice')
        self.v[out] = ('list', self.val(item))

    def i_Conditional(self, outs, inner, c, body):
        cv = self.val(c)
        self.nested(body, lambda items: ['cond', cv, list(items)])
        vs = [self.val(x) for x in inner]
        for o, x in zip(outs, vs):
            self.v[o] = ('opt', cv, x)
        if len(outs) != len(inner):
            self.bad.append('a conditional yields %d values for %d' % (len(inner), len(outs)))

    def i_Flatten(self, r):
        x = self.val(r)
        if x[0] == 'opt' and x[2][0] == 'opt':
            self.v[r] = ('opt', ('and', x[1], x[2][1]), x[2][2])
        else:
            self.bad.append('a value that is not an option of an option is flattened')

    def i_ConditionalPredicate(self, c, body):
        cv = self.val(c)
        save = dict(self.v)
        self.returned = False
        self.variant = None
        self.nested(body, lambda items: ['case', cv, None, list(items)])
        if not self.returned:
            self.bad.append('a case does not return its value')
        for n in self.nodes.values():
            if n and n[-1][0] == 'case' and n[-1][2] is None:
                n[-1][2] = self.variant
        self.returned = False

    def i_Construct(self, out, how):
        k = how[0]
        if k == 'Struct':
            self.built = ('struct', how[1])
            for _, n, r in how[2]:
                self.names.append((n.strip('"'), self.val(r)))
                self.unify(self.val(r), ('fld', n.strip('"')))
        elif k == 'TaggedTuple':
            for j, r in enumerate(how[2]):
                self.names.append((str(j), self.val(r)))
                self.unify(self.val(r), ('fld', str(j)))
            self.built = ('tuple', how[1])
        elif k == 'TaggedEnum':
            self.variant = how[2].strip('"')
            for j, r in enumerate(how[3]):
                self.unify(self.val(r), ('var', self.variant))
            self.built = ('enum', how[1])
        elif k == 'TaggedEnumStruct':
            self.variant = how[2].strip('"')
            for _, n, r in how[3]:
                self.names.append((n.strip('"'), self.val(r)))
                self.unify(self.val(r), ('fld', n.strip('"')))
            self.built = ('enum', how[1])
        else:
            self.built = (k,)
        self.v[out] = ('built', self.built)

    def i_Return(self, r):
        t = self.val(r)
        self.returned = True
        if t[0] in ('rd', 'opt', 'list'):
            self.unify(t, ('self',))
            t = ('self',)
        self.result = t

    def i_Error(self, msg):
        self.failed = True


class Enc(Walk):
    """encoder instructions"""

    def __init__(self):
        super().__init__()
        self.v = {0: ('self',)}
        self.refs = {}
        self.open = {}       # stream -> parent key
        self.sub = {}
        self.bufs = {}       # buffer -> 'open' | 'emitted'
        self.loops = []
        self.checked = set()
        self.broke = False
        self.variant = None

    def put(self, t, item):
        k = (t[0], t[1]) if t[0] in ('Stream', 'Buf') else t
        for s, p in self.open.items():
            if p == k:
                self.bad.append('bytes are written to a stream while a transform on it is unfinished')
        if k[0] == 'Buf' and self.bufs.get(k[1]) == 'emitted':
            self.bad.append('bytes are written to a buffer that was already emitted')
        if k[0] == 'Stream' and k[1] not in self.open:
            self.bad.append('bytes are written to a finished transform')
        self.node(t).append(item)

    def finish(self):
        for s in self.open:
            self.bad.append('a transform stream is never finished')
        for b, s in self.bufs.items():
            if s != 'emitted':
                self.bad.append('a buffer is never emitted')
        self.items = self.nodes[('Direct',)]
        self.envs = self.evals

    def snapshot(self):
        def cp(x):
            return [cp(y) for y in x] if isinstance(x, list) else x
        return cp

    # ------------------------------------------------------------ instructions
    def i_Eval(self, r, e):
        e = short(e)
        self.evals.append((e, dict(self.refs)))
        self.v[r] = ('expr', e, tuple(sorted((n, x) for n, x in self.refs.items() if x[0] == 'blen')))

    def i_GetField(self, out, src, ops):
        v = self.val(src)
        for o in ops:
            if o[0] == 'Ref':
                continue
            if o[0] == 'Name':
                v = ('fld', o[1].strip('"')) if v == ('self',) else ('member', v, o[1].strip('"'))
            elif o[0] == 'TupleAccess':
                v = ('fld', str(o[1])) if v == ('self',) else ('member', v, str(o[1]))
            elif o[0] == 'ArrayAccess':
                if not self.loops or self.loops[-1][0] != o[1]:
                    self.bad.append('an element is taken at a position that is not the loop counter')
                else:
                    self.loops[-1][1].append(v)
                v = ('each', v)
        self.v[out] = v

    def i_SetRef(self, name, r):
        self.refs[name.strip('"')] = self.val(r)

    def i_GetRef(self, r, name):
        self.v[r] = self.refs.get(name.strip('"'), ('unbound', name))

    def i_NullCheck(self, src, out, copy, msg):
        self.v[out] = ('some', self.val(src))

    def i_EncodePrimitive(self, t, src, p):
        self.put(t, ('prim', prim(p), self.val(src)))

    def i_EncodeEnum(self, t, src, p):
        self.put(t, ('repr', 'enum', prim(('Scalar', p)), self.val(src)))

    def i_EncodeBitfield(self, t, src, p):
        self.put(t, ('repr', 'bitfield', prim(('Scalar', p)), self.val(src)))

    def i_EncodePrimitiveArray(self, t, src, p, n):
        v = self.val(src)
        if v[0] == 'expr' and not n:
            nd = self.node(t)
            if nd and nd[-1][0] == 'loop' and nd[-1][1] == 'rest' and 'U8' in prim(p):
                nd[-1] = ['loop', 'until', v, nd[-1][3]]
                return
        self.put(t, ('primarr', prim(p), self.val(n[1]) if n else None, v))

    def i_EncodeReprArray(self, t, src, p, n):
        self.put(t, ('reprarr', prim(p), self.val(n[1]) if n else None, self.val(src)))

    def i_EncodeForeign(self, t, src, o, args):
        self.put(t, ('foreign', o, tuple(map(self.val, args)), self.val(src)))

    def i_EncodeRef(self, t, src, args):
        self.put(t, ('ref', tuple(map(self.val, args)), self.val(src)))

    def i_Pad(self, t, n):
        self.put(t, ('skip', self.val(n)))

    def i_WrapStream(self, t, out, tr, args, c=None):
        sub = []
        self.put(t, ['xform', c, tr, tuple(map(self.val, args)), sub])
        self.nodes[('Stream', out)] = sub
        self.open[out] = (t[0], t[1]) if len(t) > 1 else t

    def i_ConditionalWrapStream(self, c, body, t, out, owned, tr, args):
        mark = {k: len(n) for k, n in self.nodes.items()}
        self.run(body)
        if any(len(n) > mark.get(k, 0) for k, n in self.nodes.items()):
            self.bad.append('the arguments of a transform write to a stream')
        self.i_WrapStream(t, out, tr, args, self.val(c))
        self.owned = getattr(self, 'owned', {})
        self.owned[owned] = out

    def i_EndStream(self, r):
        if r not in self.open:
            self.bad.append('a stream is finished that is not open')
            return
        for s, p in self.open.items():
            if p == ('Stream', r):
                self.bad.append('a transform is finished before the transform inside it')
        self.open.pop(r)

    def i_Drop(self, r):
        o = getattr(self, 'owned', {})
        if r in o and o[r] in self.open:
            self.bad.append('a transform is closed before it is finished')
        o.pop(r, None)

    def i_AllocBuf(self, r, n):
        self.nodes[('Buf', r)] = []
        self.bufs[r] = 'open'

    def i_AllocDynBuf(self, r):
        self.i_AllocBuf(r, None)

    def i_EmitBuf(self, t, r):
        if self.bufs.get(r) != 'open':
            self.bad.append('a buffer is emitted %s' % ('twice' if self.bufs.get(r) else 'that was never opened'))
            return
        for s, p in self.open.items():
            if p == ('Buf', r):
                self.bad.append('a buffer is emitted while a transform on it is unfinished')
        items = self.nodes[('Buf', r)]
        for x in items:
            self.put(t, x)
        if ('len', r) in self.v and self.v[('len', r)] != freeze(items):
            self.bad.append('a buffer grows after its length was taken')
        self.bufs[r] = 'emitted'

    def i_GetLen(self, out, r, cast):
        if ('Buf', r) in self.nodes:
            self.v[out] = ('blen', freeze(self.nodes[('Buf', r)]))
            self.v[('len', r)] = freeze(self.nodes[('Buf', r)])
        else:
            self.v[out] = ('lenof', self.val(r))

    def i_CheckLen(self, n, src):
        self.checked.add((self.val(n), self.val(src)))

    def i_Loop(self, idx, n, body):
        self.loops.append((idx, []))
        nv = self.val(n)
        mark = {k: len(x) for k, x in self.nodes.items()}
        self.run(body)
        srcs = self.loops.pop()[1]
        over = set(srcs)
        if len(over) != 1:
            self.bad.append('a loop runs over %d lists' % len(over))
        for s in over:
            if nv[0] == 'expr' and (nv, s) not in self.checked:
                self.bad.append('elements are taken up to a length that is not compared with the length of the list')
            if nv[0] == 'lenof' and nv[1] != s:
                self.bad.append('elements are taken up to the length of another list')
        for k, x in self.nodes.items():
            if k in mark and len(x) > mark[k]:
                new = x[mark[k]:]
                del x[mark[k]:]
                x.append(['loop', 'rest' if nv[0] == 'lenof' else 'count', None if nv[0] == 'lenof' else nv, new])

    def i_Conditional(self, c, yes, no):
        cv = self.val(c)
        outer = self.broke, self.variant
        self.broke = False
        self.variant = None
        opened = set(self.open)
        self.nested(yes, lambda items: ['cond', cv, list(items)])
        if set(self.open) - opened:
            self.bad.append('a transform opened under a condition is not finished under it')
        self.last = (cv, self.broke, self.variant)
        if no:
            self.nested(no, lambda items: ['cond', ('not', cv), list(items)])
        self.broke, self.variant = outer

    def i_BreakBlock(self, body):
        rest = False                                 # within the case that needs no condition
        for i in body:
            mark = {k: len(n) for k, n in self.nodes.items()}
            self.last = None
            self.run([i])
            rest = rest or i[0].startswith('UnwrapEnum')
            if i[0] == 'Conditional' and not rest:
                cv, broke, variant = self.last
                if not broke:
                    self.bad.append('a case does not end the choice')
                for k, n in self.nodes.items():
                    for j in range(mark.get(k, 0), len(n)):
                        if n[j][0] == 'cond' and n[j][1] == cv:
                            n[j] = ['case', cv, variant, n[j][2]]

    def i_Break(self):
        self.broke = True

    def i_UnwrapEnum(self, name, variant, src, out, msg):
        self.variant = variant.strip('"')
        self.v[out] = ('var', self.variant)
        if self.val(src) != ('self',):
            self.bad.append('a case is taken from %s' % (self.val(src),))

    def i_UnwrapEnumStruct(self, name, variant, src, regs, msg):
        self.variant = variant.strip('"')
        for _, n, r, cp in regs:
            self.v[r] = ('fld', n.strip('"'))
        if self.val(src) != ('self',):
            self.bad.append('a case is taken from %s' % (self.val(src),))


def freeze(x):
    if isinstance(x, (list, tuple)):
        return tuple(freeze(y) for y in x)
    return x


# ------------------------------------------------------------------ what the shape prescribes
class Want:
    """reference wire form of a field shape (see l1.B)"""

    def __init__(self, side):
        self.side = side
        self.env = {}        # expression -> {name: value}
        self.scope = {}
        self.blen = {}

    def expr(self, e):
        self.env[e] = dict(self.scope)
        return ('expr', e)

    def prim(self, nm, k):
        return ('Scalar', nm + '.scalar') if k[0] == 'Scalar' else (k[0],)

    def type_(self, nm, k, x):
        t = k[0]
        if t in ('Scalar', 'F32', 'F64', 'Bool'):
            return [('prim', self.prim(nm, k), x)]
        if t in ('Enum', 'Bitfield'):
            return [('repr', '%s.%s.name' % (nm, t.lower()) if self.side == 'd' else t.lower(), ('Scalar', '%s.%s.rep' % (nm, t.lower())), x)]
        if t == 'Foreign':
            return [('foreign', nm + '.foreign', (), x)]
        if t == 'Ref':
            args = tuple(self.expr('%s.arg%d' % (nm, i)) for i in range(k[2]))
            if k[1][0] == 'Foreign':
                return [('foreign', nm + '.target.foreign', args, x)]
            return [('ref', nm + '.target.name', args, x) if self.side == 'd' else ('ref', args, x)]
        if t == 'Array':
            return self.array(nm, k, x)
        raise KeyError(t)

    def array(self, nm, k, x):
        _, el, exp, has = k
        n = self.expr(nm + '.len') if has else None
        how = 'count' if not exp else 'until' if has else 'rest'
        en, ek = nm + '.elem', el
        while ek[0] == 'Ref':
            en, ek = en + '.target', ek[1]
        if how != 'until':
            if ek[0] in ('Scalar', 'F32', 'F64', 'Bool'):
                return [('primarr', self.prim(en, ek), n, x)]
            if ek[0] in ('Enum', 'Bitfield'):
                nn = ('%s.%s.name' % (en, ek[0].lower()),) if self.side == 'd' else ()
                return [('reprarr',) + nn + (('Scalar', '%s.%s.rep' % (en, ek[0].lower())), n, x)]
        return [('loop', how, n, tuple(self.type_(nm + '.elem', el, ('each', x))))]

    def field(self, nm, s, wrap=lambda x: x, named=True):
        nm = s.get('lab', nm)
        c = self.expr(nm + '.cond') if s.get('cond') and named else None
        k = s['type']
        # an optional member of an optional part is one optional value
        w = (lambda x: ('some', x)) if c else wrap
        trs = []
        for i, (tc, na) in reversed(list(enumerate(s.get('tr', ())))):
            t = '%s.tr%d' % (nm, i)
            trs.append((self.expr(t + '.cond') if tc else None, t + '.t', tuple(self.expr('%s.arg%d' % (t, j)) for j in range(na))))
        if s.get('pad'):
            items = [('skip', self.expr(nm + '.len'))]
        elif k[0] == 'Container':
            items = self.container(nm, k, w)
        else:
            x = w(('fld', nm)) if named is True else named
            if s.get('calc'):
                x = ('fld', nm) if self.side == 'e' else x
            items = self.type_(nm, k, x)
        for tc, t, args in reversed(trs):
            items = [('xform', tc, t, args, tuple(items))]
        if c:
            items = [('cond', c, tuple(items))]
        return items

    def container(self, nm, k, wrap=lambda x: x):
        n = self.expr(nm + '.len') if k[1] else None
        items = []
        before = dict(self.scope)
        if k[2]:
            for fn_, s in k[3]:
                c = self.expr(fn_ + '.cond') if s.get('cond') else None
                if s['type'][0] == 'Container':
                    sub = self.field(fn_, dict(s, cond=0), named=True)
                else:
                    sub = self.field(fn_, dict(s, cond=0), named=('var', fn_))
                items += [('case', c, fn_, tuple(sub))] if c else sub
                self.scope = dict(before)
        else:
            for fn_, s in k[3]:
                items += self.field(fn_, s, wrap)
                if s['type'][0] != 'Container' and not s.get('pad'):
                    self.scope[fn_] = wrap(('fld', fn_))
            if wrap(('x',)) != ('x',):
                self.scope = before
        if k[1]:
            self.blen[id(k)] = freeze(items)
            return [('sized', n, tuple(items))]
        return items


def strip_env(x):
    """('expr', e, refs) -> ('expr', e)"""
    if isinstance(x, tuple):
        if len(x) == 3 and x[0] == 'expr':
            return ('expr', x[1])
        return tuple(strip_env(y) for y in x)
    return x


def splice_sized(x):
    """drop limits: an encoder writes the bytes of a limited part through a buffer"""
    if isinstance(x, tuple):
        out = []
        for y in x:
            y = splice_sized(y)
            if isinstance(y, tuple) and len(y) == 3 and y[0] == 'sized':
                out.extend(y[2])
            else:
                out.append(y)
        return tuple(out)
    return x
