"""Instruction sequences of the coder builders against the wire form that the shape of a field prescribes."""
import itertools
from ..an import *
from ..l1 import L1
from .. import wseq as Q

SC = {'type': ('Scalar',)}
LEAVES = [('Scalar',), ('F32',), ('F64',), ('Bool',), ('Enum',), ('Bitfield',), ('Foreign',),
          ('Ref', ('Foreign',), 0), ('Ref', ('Foreign',), 2), ('Ref', ('Container', 0, 0, ()), 0), ('Ref', ('Container', 0, 0, ()), 2),
          ('Ref', ('Scalar',), 1), ('Ref', ('Enum',), 0)]
ELEMS = LEAVES + [('Ref', ('Bitfield',), 0), ('Ref', ('Ref', ('F32',), 0), 0), ('Array', ('Scalar',), 0, 1), ('Array', ('Bool',), 1, 1), ('Array', ('Ref', ('Container', 0, 0, ()), 1), 0, 1)]
LENS = [(0, 1), (1, 1), (1, 0)]     # counted, terminated, to the end


def arrays(elems=ELEMS):
    return [('Array', e, x, v) for e in elems for x, v in LENS]


def cont(*fields, ln=0, enum=0):
    return {'type': ('Container', ln, enum, list(fields))}


def top(*fields, ln=0, enum=0):
    return dict(cont(*fields, ln=ln, enum=enum), top=1)


def shapes(kind, thorough, ar=()):
    """(label, side restriction, shape) per aspect"""
    out = []

    def add(lab, s, sides='de'):
        out.append((lab, sides, s))
    small = [('Scalar',), ('Foreign',), ('Ref', ('Container', 0, 0, ()), 1), ('Array', ('Scalar',), 0, 1), ('Array', ('Ref', ('Container', 0, 0, ()), 0), 1, 1)]
    trs = [[]] + [list(t) for n in (1, 2, 3) for t in itertools.product([(0, 0), (1, 1), (0, 2), (1, 0)] if n < 3 or thorough else [(0, 0), (1, 1)], repeat=n)]
    if kind == 'types':
        for t in LEAVES + arrays():
            add('top', {'type': t, 'top': 1})
            add('member', top(('fa', SC), ('fb', {'type': t}), ('fc', SC)))
            add('optional member', top(('fb', {'type': t, 'cond': 1}), ('fc', SC)))
            add('transformed member', top(('fb', {'type': t, 'tr': [(0, 0)]}), ('fc', SC)))
            add('inner member', top(('fi', cont(('fb', {'type': t}), ('ic', SC), ln=1)), ('fc', SC)))
            add('optional inner member', top(('fi', dict(cont(('fb', {'type': t}), ('ic', SC)), cond=1)), ('fc', SC)))
            add('choice', top(('v0', {'type': t, 'cond': 1}), ('v1', {'type': t}), enum=1))
            add('choice', top(('v0', dict(cont(('a', SC), ('fb', {'type': t})), cond=1)), ('v1', cont(('fb', {'type': t}))), enum=1))
    if kind == 'order':
        for n in (0, 1, 2, 3, 4) if not thorough else (0, 1, 2, 3, 4, 6):
            for ts in itertools.product(small[:3], repeat=n) if n < 4 else [small[:4] + [small[1]] * (n - 4)]:
                add('fields', top(*[('f%d' % i, {'type': t}) for i, t in enumerate(ts)]))
        pad = {'type': ('Array', ('Scalar',), 0, 1), 'pad': 1}
        for i in range(3):
            fs = [('fa', SC), ('fb', {'type': ('Ref', ('Container', 0, 0, ()), 0)})]
            fs.insert(i, ('.pad', pad))
            add('padding', top(*fs))
        for ln in (0, 1):
            for c in (0, 1):
                inner = dict(cont(('ia', SC), ('ib', {'type': ('Ref', ('Foreign',), 1)}), ln=ln), cond=c)
                for i in range(3):
                    fs = [('fa', SC), ('fb', SC)]
                    fs.insert(i, ('fi', inner))
                    add('nested', top(*fs))
                add('nested', top(('fi', dict(cont(('ia', SC), ('.pad', pad), ('ib', SC), ln=ln), cond=c)), ('fb', SC)))
                add('nested', top(('fi', dict(cont(('ia', SC), ('ij', cont(('ja', SC), ('jb', SC), ln=ln)), ('ib', SC)), cond=c)), ('fb', SC)))
                add('nested', top(('fi', dict(cont(('ij', dict(cont(('ja', SC), ('jb', SC), ln=ln))), ('ib', SC)), cond=c)), ('fj', cont(('ka', SC), ln=1)), ('fb', SC)))
        add('calculated', top(('fa', {'type': ('Scalar',), 'calc': 1}), ('fb', SC)))
        add('calculated', top(('fb', SC), ('fi', cont(('fa', {'type': ('Scalar',), 'calc': 1}), ('fc', SC))), ('fd', {'type': ('Scalar',), 'calc': 1})))
        for n in (1, 2, 3):
            for last in (0, 1):
                vs = [('v%d' % i, {'type': small[i % 3], 'cond': 0 if last and i == n - 1 else 1}) for i in range(n)]
                add('choice', top(*vs, enum=1))
                vs = [('v%d' % i, dict(cont(('a%d' % i, SC), ('b%d' % i, {'type': small[1]}), ln=i % 2), cond=0 if last and i == n - 1 else 1)) for i in range(n)]
                add('choice', top(*vs, enum=1))
        add('choice', top(('v0', {'type': ('Scalar',), 'cond': 1}), ('v1', dict(cont(('a', SC), ('.pad', pad), ('b', SC)), cond=1)), ln=1, enum=1))
        add('choice', top(('v0', dict(cont(('a', SC), ('i', cont(('ia', SC), ('ib', {'type': small[1]}))), ('b', SC)), cond=1)), ('v1', SC), enum=1))
        add('choice', top(('v0', dict(cont(('a', SC), ('i', dict(cont(('ia', SC), ('ib', {'type': small[1]}), ln=1), cond=1)), ('b', SC)), cond=1)), ('v1', SC), enum=1))
    if kind == 'optional':
        for t in LEAVES + arrays(LEAVES[:4] + LEAVES[8:10]):
            add('optional', top(('fa', SC), ('fb', {'type': t, 'cond': 1}), ('fc', SC)))
        for t in small:
            for u in small[:3]:
                add('optional', top(('fb', {'type': t, 'cond': 1}), ('fa', SC), ('fc', {'type': u, 'cond': 1})))
        for ln in (0, 1):
            add('optional part', top(('fa', SC), ('fi', dict(cont(*[('i%d' % i, {'type': t}) for i, t in enumerate(small)], ln=ln), cond=1)), ('fc', SC)))
            add('optional part', top(('fa', SC), ('fi', dict(cont(('ia', SC), ('ij', cont(('ja', SC), ('jb', {'type': small[1]}), ln=ln))), cond=1)), ('fc', SC)))
            add('optional in part', top(('fa', SC), ('fi', cont(('ia', SC), ('ib', {'type': small[2], 'cond': 1}), ln=ln)), ('fc', SC)))
            add('optional in optional part', top(('fa', SC), ('fi', dict(cont(('ia', SC), ('ib', {'type': small[2], 'cond': 1}), ('ic', SC), ln=ln), cond=1)), ('fc', SC)))
            add('optional parts', top(('fi', dict(cont(('ia', SC), ln=ln), cond=1)), ('fj', dict(cont(('ja', SC), ('jb', {'type': small[2], 'cond': 1})), cond=1)), ('fc', {'type': small[0], 'cond': 1})))
            add('optional part in optional part', top(('fi', dict(cont(('ia', SC), ('ij', dict(cont(('ja', SC), ('jb', SC), ln=ln), cond=1)), ('ib', SC)), cond=1)), ('fc', SC)))
            for last in (0, 1):
                add('choice', top(('v0', {'type': small[0], 'cond': 1}), ('v1', {'type': small[2], 'cond': last}), ln=ln, enum=1))
                add('choice', top(('v0', dict(cont(('a', SC), ('b', {'type': small[1], 'cond': 1}), ('c', SC)), cond=1)), ('v1', {'type': small[2], 'cond': last}), ln=ln, enum=1))
                add('choice', top(('v0', dict(cont(('a', SC), ('i', dict(cont(('ia', SC), ('ib', SC)), cond=1))), cond=1)), ('v1', dict(cont(('d', {'type': small[2], 'cond': 1})), cond=last)), ln=ln, enum=1))
            add('optional calculated', top(('fa', {'type': ('Scalar',), 'calc': 1, 'cond': 1}), ('fc', SC)), 'e')
    if kind == 'transforms':
        for tr in trs:
            add('chain', top(('fa', SC), ('fb', {'type': ('Scalar',), 'tr': tr}), ('fc', SC)))
            add('optional chain', top(('fa', SC), ('fb', {'type': small[2], 'tr': tr, 'cond': 1}), ('fc', SC)))
        for tr in trs[:12]:
            for ln in (0, 1):
                for c in (0, 1):
                    add('part', top(('fa', SC), ('fb', dict(cont(('ia', SC), ('ib', {'type': small[1], 'tr': [(0, 1)]}), ('ic', SC), ln=ln), tr=tr, cond=c)), ('fc', SC)))
            for t in small[1:] + [('Enum',), ('Array', ('Ref', ('Enum',), 0), 1, 0)]:
                add('typed chain', top(('fb', {'type': t, 'tr': tr}), ('fc', SC)))
            add('type', {'type': ('Scalar',), 'top': 1, 'tr': tr})
            add('choice', top(('v0', {'type': ('Scalar',), 'tr': tr, 'cond': 1}), ('v1', dict(cont(('a', SC)), tr=tr[:1])), enum=1))
            for ln in (0, 1):
                add('choice', top(('v0', dict(cont(('a', SC), ('b', {'type': small[2], 'tr': tr}), ln=ln), cond=1)), ('v1', {'type': small[2], 'tr': tr}), ln=ln, enum=1))
                add('nested', top(('fi', dict(cont(('ia', SC), ('ij', dict(cont(('ja', SC), ('jb', {'type': small[2], 'tr': [(0, 0)]}), ln=ln), tr=tr)), ('ib', SC)), tr=tr[:2])), ('fc', SC)))
            add('after', top(('fb', {'type': small[2], 'tr': tr}), ('fc', {'type': small[2], 'tr': tr[:2]}), ('fd', SC)))
    if kind == 'lengths':
        for t in arrays():
            add('array', top(('fa', SC), ('fb', {'type': t}), ('fc', SC)))
            add('optional array', top(('fa', SC), ('fb', {'type': t, 'cond': 1}), ('fc', SC)))
            add('limited array', top(('fa', SC), ('fi', cont(('ia', SC), ('fb', {'type': t}), ('ic', SC), ln=1)), ('fc', SC)))
            add('limited array', top(('fi', dict(cont(('fb', {'type': t}), ln=1), cond=1)), ('fc', SC)))
            add('transformed array', top(('fb', {'type': t, 'tr': [(0, 1), (1, 0)]}), ('fc', SC)))
            add('choice', top(('v0', {'type': t, 'cond': 1}), ('v1', dict(cont(('a', SC), ('fb', {'type': t}), ln=1), cond=1)), enum=1))
            add('limited choice', top(('v0', {'type': t, 'cond': 1}), ('v1', cont(('a', SC), ('fb', {'type': t}), ('b', SC))), ln=1, enum=1))
        for n in (1, 2):
            for tr in ([], [(0, 0)], [(1, 0)]):
                add('limited', top(('fb', dict(cont(*[('i%d' % i, SC) for i in range(n)], ln=1), tr=tr, cond=n - 1)), ('fc', SC)))
                add('limited', top(('fb', cont(('ia', dict(SC, tr=tr)), ('ib', SC), ln=1)), ('fc', SC)))
        for e in ELEMS[:8]:
            for x in LENS:
                for y in LENS:
                    add('nested array', top(('fb', {'type': ('Array', ('Array', e) + x) + y}), ('fc', SC)))
        for n in (1, 2, 3):
            add('limited', top(('fa', SC), ('fb', cont(*[('i%d' % i, SC) for i in range(n)], ln=1)), ('fc', SC)))
            add('limited', top(*[('i%d' % i, SC) for i in range(n)], ln=1))
            add('limited', top(('fb', cont(('ia', SC), ('ib', cont(*[('i%d' % i, SC) for i in range(n)], ln=1)), ('ic', SC), ln=1)), ('fc', SC)))
        add('padding', top(('fa', SC), ('.pad', {'type': ('Array', ('Scalar',), 0, 1), 'pad': 1}), ('fc', SC)))
        add('padding', top(('fb', cont(('fa', SC), ('.pad', {'type': ('Array', ('Scalar',), 0, 1), 'pad': 1}), ('fc', SC), ln=1))))
    if kind == 'computed':
        def L(*t):
            return {'type': ('Scalar',), 'calc': ('blen',) + t}
        body = cont(('xa', SC), ('xb', {'type': small[1]}), ln=1)
        body2 = cont(('ya', SC), ln=1)
        other = dict(body2, lab='fz')
        add('before', top(('la', L('fb')), ('fb', body), ('fc', SC)), 'de')
        add('before', top(('fa', SC), ('la', L('fb')), ('fb', body)), 'de')
        add('apart', top(('la', L('fb')), ('fa', SC), ('fd', SC), ('fb', body), ('fc', SC)), 'de')
        add('two', top(('la', L('fb')), ('lb', L('fd')), ('fb', body), ('fd', body2), ('fc', SC)), 'de')
        add('two crossed', top(('la', L('fd')), ('lb', L('fb')), ('fb', body), ('fa', SC), ('fd', body2), ('fc', SC)), 'de')
        add('two in turn', top(('la', L('fb')), ('fb', body), ('lb', L('fd')), ('fd', body2), ('fc', SC)), 'de')
        add('interleaved', top(('la', L('fd')), ('fa', SC), ('lb', L('fb')), ('fb', body), ('fx', SC), ('fd', body2), ('fc', SC)), 'de')
        add('same target', top(('la', L('fb')), ('lb', L('fb')), ('fb', body), ('fc', SC)), 'de')
        add('both', top(('la', {'type': ('Scalar',), 'calc': ('sum', ('blen', 'fb'), ('blen', 'fd'))}), ('fb', body), ('fd', body2), ('fc', SC)), 'de')
        add('both', top(('la', {'type': ('Scalar',), 'calc': ('sum', ('blen', 'fb'), 1)}), ('fa', {'type': ('Scalar',), 'calc': 1}), ('fb', body), ('fc', SC)), 'de')
        add('three', top(('la', L('fb')), ('lb', L('fd')), ('lc', L('fe')), ('fb', body), ('fd', body2), ('fe', cont(('za', SC), ln=1)), ('fc', SC)), 'de')
        add('inside', top(('fi', cont(('la', L('fb')), ('fb', body), ('ic', SC))), ('fc', SC)), 'de')
        add('inside', top(('fa', SC), ('fi', cont(('la', L('fb')), ('fb', body), ('ic', SC), ln=1)), ('fc', SC)), 'de')
        add('nested', top(('la', L('fi')), ('fi', cont(('lb', L('fb')), ('fb', body), ('ic', SC), ln=1)), ('fc', SC)), 'de')
        # parts of the same name in different parts around them
        add('same name', top(('fi', cont(('la', L('fb')), ('fb', body))), ('fj', cont(('lb', L('fb')), ('fb', other))), ('fc', SC)), 'de')
        add('same name', top(('la', L('fb')), ('fb', dict(cont(('lb', L('fb')), ('fb', body), ('ic', SC), ln=1), lab='fz')), ('fc', SC)), 'de')
        add('same name', top(('la', L('fb')), ('fb', dict(cont(('ia', SC), ('fb', body), ('ic', SC), ln=1), lab='fz')), ('fc', SC)), 'de')
        add('same name', top(('fi', cont(('fb', body))), ('la', L('fb')), ('fb', other), ('fc', SC)), 'de')
        add('same name', top(('la', L('fb')), ('fi', cont(('fb', body))), ('fb', other), ('fc', SC)), 'de')
        add('transformed', top(('la', L('fb')), ('fa', {'type': ('Scalar',), 'tr': [(0, 0)]}), ('fb', body), ('fc', SC)), 'de')
        add('optional', top(('la', L('fb')), ('fa', {'type': ('Scalar',), 'cond': 1}), ('fb', body), ('fc', SC)), 'de')
        for t in LEAVES + arrays():
            add('within', top(('la', L('fb')), ('fa', SC), ('fb', cont(('xa', {'type': t}), ln=1)), ('fc', SC)))
            add('between', top(('la', L('fb')), ('fa', {'type': t}), ('fb', body), ('fc', SC)))
        for tr in trs[1:]:
            add('transformed target', top(('la', L('fb')), ('fb', dict(body, tr=tr)), ('fc', SC)))
            add('between', top(('la', L('fb')), ('fa', dict(SC, tr=tr)), ('fb', body), ('fc', SC)))
            add('within', top(('la', L('fb')), ('fb', cont(('xa', dict(SC, tr=tr)), ln=1)), ('fc', SC)))
        add('optional target', top(('la', L('fb')), ('fb', dict(body, cond=1)), ('fc', SC)))
    if kind == 'positions':
        b = cont(('xa', SC), ln=1)
        one, two = ('blen', 'fb'), ('blen', 'fd')

        def calc(e):
            return top(('la', {'type': ('Scalar',), 'calc': e}), ('fb', b), ('fd', cont(('ya', SC), ln=1)), ('fc', SC))
        for k, n in ar:
            for f in ('sum', 'len', 'pad', 'bits', 'f') if k == 'Call' else ('f',):
                for i in range(n):
                    ks = [1] * n
                    ks[i] = one
                    add('a subexpression of %s' % k, calc(('node', k, f) + tuple(ks)))
                    for j in range(n):
                        if j != i:
                            ks[j] = two
                            add('two subexpressions of %s' % k, calc(('node', k, f) + tuple(ks)))
                            ks[j] = 1
                    for k2, n2 in ar:
                        for j in range(n2):
                            if f == 'f':
                                k2s = [1] * n2
                                k2s[j] = one
                                ks[i] = ('node', k2, 'f') + tuple(k2s)
                                add('a subexpression of %s in %s' % (k2, k), calc(('node', k, f) + tuple(ks)))
                                if thorough:
                                    for k3, n3 in ar:
                                        k3s = [1] * n3
                                        k3s[-1] = one
                                        k2s[j] = ('node', k3, 'f') + tuple(k3s)
                                        ks[i] = ('node', k2, 'f') + tuple(k2s)
                                        add('a subexpression of %s in %s in %s' % (k3, k2, k), calc(('node', k, f) + tuple(ks)))
    return out


def run_one(c, l, side, s):
    def mk(I_, fn):
        return [l.arc(I_, 'top', s)]
    nm = {'d': 'decode_field_top', 'e': 'encode_field_top'}[side]
    return l.run(side, nm, mk, regs=0)


def got_env(w, e):
    return [env for x, env in w.evals if x == e] if isinstance(w, Q.Enc) else [env for x, env in w.envs if x == e]


def calc_match(e, x, found):
    """is `x` the calculation `e` with some name in the place of each size-of call; found: [(name, target)]"""
    if isinstance(e, tuple) and len(e) == 3 and e[:2] == ('call', 'blen'):
        if isinstance(x, tuple) and len(x) == 2 and x[0] == 'ref':
            found.append((x[1], e[2][0][1]))
            return True
        return False
    if isinstance(e, tuple) and isinstance(x, tuple):
        return len(e) == len(x) and all(calc_match(p, q, found) for p, q in zip(e, x))
    return e == x


def calcs(s, out, scopes=()):
    """name -> (calculation, its targets: name -> the shape it is bound to)"""
    if s['type'][0] == 'Container':
        scopes = ({n: f['type'] for n, f in s['type'][3]},) + scopes
        for n, f in s['type'][3]:
            if f.get('calc'):
                out[n] = (f['calc'], {t: next(sc[t] for sc in scopes if t in sc) for t in blens(f['calc'])})
            calcs(f, out, scopes)
    return out


def blens(cc):
    if not isinstance(cc, tuple):
        return []
    return [cc[1]] if cc[0] == 'blen' else [t for x in cc[1:] for t in blens(x)]


def compare(c, l, kind, lab, side, s, key):
    """one shape on one side: list of problems"""
    res = run_one(c, l, side, s)
    text = describe(s)
    if not res:
        c.violation(key, '%s: no instructions are produced for %s' % (lab, text))
        return
    for st, ins, rv, cd in res:
        w = Q.Dec() if side == 'd' else Q.Enc()
        try:
            w.run(ins)
        except Q.Bad as ex:
            c.undecided('%s %s' % (lab, text), ex)
            continue
        w.finish()
        want = Q.Want(side)
        k = s['type'][0]
        if k == 'Container':
            items = want.field('top', dict(s, cond=0))
            nm = None
        elif k in ('Foreign',) and side == 'e':
            items = []
        elif k in ('Enum', 'Bitfield', 'Foreign'):
            items = want.field('top', s, named=('self',))
        else:
            items = want.field('top', s, named=('fld', '0'))
        exp = Q.freeze(items)
        got = Q.freeze(w.items)
        cs = calcs(s, {})
        if side == 'e':
            exp = Q.splice_sized(exp)
            got = settle_calcs(c, w, want, got, {n: (Q.short(l.calcs[n]), t) for n, (cc, t) in cs.items()}, w.bad)
        for b in w.bad:
            c.violation(key, '%s: %s for %s' % (lab, b, text))
        c.check('sequences compared', got == exp, key, '%s: the instructions for %s %s %s' % (
            lab, text, {'d': 'read', 'e': 'write'}[side], 'as %s, the description says %s' % Q_diff(got, exp)))
        if side == 'd' and k == 'Container' and not s['type'][2]:
            names = [n for n, f in members(s)]
            c.check('values stored', [n for n, v in w.names] == names and all(v == ('fld', n) for n, v in w.names), key,
                    '%s: the value built for %s has %s' % (lab, text, [(n, v) for n, v in w.names if v != ('fld', n)] or [n for n, v in w.names]))
            c.check('values stored', w.result and w.result[0] == 'built' and w.result[1][0] == 'struct', key, '%s: %s is returned for %s' % (lab, w.result, text))
        if side == 'd' and k == 'Container' and s['type'][2] and all(f.get('cond') for n, f in s['type'][3]):
            c.check('values stored', getattr(w, 'failed', False), key, '%s: no error when no case of %s applies' % (lab, text))
        elif side == 'd':
            c.check('values stored', w.result is not None, key, '%s: nothing is returned for %s' % (lab, text))
        for e, need in want.env.items():
            for env in got_env(w, e):
                for n, v in need.items():
                    x = env.get(n)
                    if n in cs and side == 'e' and x and x[0] == 'expr':
                        x = ('fld', n)
                    if x is None and n in cs:
                        continue
                    if n in optional_part(s):
                        continue
                    c.check('scope', x == v, key, '%s: in %s the expression %s sees %s as %s instead of %s' % (lab, text, e, n, x, v))
    c.sample('%s %s' % (lab, text))


def optional_part(s, inside=False, out=None):
    out = set() if out is None else out
    if s['type'][0] == 'Container':
        for n, f in s['type'][3]:
            if f['type'][0] == 'Container':
                optional_part(f, inside or f.get('cond'), out)
            elif inside:
                out.add(n)
    return out


def members(s):
    for n, f in s['type'][3]:
        if f['type'][0] == 'Container':
            yield from members(f)
        elif not f.get('pad'):
            yield n, f


def settle_calcs(c, w, want, got, cs, bad):
    """a value computed by the right expression is the field's value"""
    def go(x):
        if isinstance(x, tuple):
            if x and x[0] == 'expr' and len(x) == 3:
                for n, (cc, targets) in cs.items():
                    found = []
                    if not calc_match(cc, x[1], found):
                        continue
                    refs = dict(x[2])
                    for name, t in found:
                        v = refs.get(name)
                        wv = want.blen.get(id(targets[t]))
                        wv = Q.splice_sized(wv) if wv is not None else None
                        if v is None or v[0] != 'blen' or go(v[1]) != wv:
                            bad.append('%s is computed from %s instead of the bytes of %s' % (n, str(v)[:120], t))
                    return ('fld', n)
                return ('expr', x[1])
            return tuple(go(y) for y in x)
        return x
    return go(got)


def Q_diff(a, b):
    for x, y in itertools.zip_longest(a, b):
        if x != y:
            if x and y and x[0] == y[0] and len(x) == len(y):
                for p, q in zip(x, y):
                    if p != q and isinstance(p, tuple) and isinstance(q, tuple) and p and q and isinstance(p[0], tuple):
                        return Q_diff(p, q)
            return str(x)[:200], str(y)[:200]
    return '', ''


def describe(s, d=0):
    t = s['type']
    k = t[0]
    r = k
    if k == 'Container':
        r = ('choice' if t[2] else 'container') + ('[len]' if t[1] else '') + '{%s}' % ', '.join(n + ': ' + describe(f, d + 1) for n, f in t[3])
    elif k == 'Array':
        r = 'array[%s] of %s' % ({(0, 1): 'n', (1, 1): '..end', (1, 0): '..'}[tuple(t[2:4])], describe({'type': t[1]}))
    elif k == 'Ref':
        r = 'ref(%s)/%d' % (describe({'type': t[1]}), t[2])
    if s.get('pad'):
        r = 'pad'
    if s.get('calc'):
        r += ' = computed'
    if s.get('cond'):
        r += ' {cond}'
    for tc, n in s.get('tr', ()):
        r += ' -> t%s' % ('{cond}' if tc else '')
    return r


def aspect(kind):
    def f(c):
        c.rule('for every field shape of this aspect (%s) the instructions produced by the coder builders, evaluated to what stands on the '
               'wire in which order, for which member, under which condition, transform, limit and repetition, equal what the '
               'description prescribes; on both sides' % kind)
        l = L1(c)
        for lab, sides, s in shapes(kind, c.tier == 'thorough', l.b.arities() if kind == 'positions' else ()):
            for side in sides:
                key = 'sequence:%s:%s' % ({'d': 'decode', 'e': 'encode'}[side], lab)
                c.part('%s %s %s' % (side, lab, describe(s)), compare, c, l, kind, lab, side, s, key)
    return f


types = aspect('types')
order = aspect('order')
optional = aspect('optional')
transforms = aspect('transforms')
lengths = aspect('lengths')
computed = aspect('computed')
positions = aspect('positions')
