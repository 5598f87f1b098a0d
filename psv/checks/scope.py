"""C19: what each name of a description is bound to. The front end is interpreted on descriptions in which every subset of the scopes
declares the name; the binding found in the analysed program is compared with the scoping rules stated here."""
import itertools
from ..sem import Sem, Node, Undecided
from .front import analyse

REFS = ('FieldRef', 'InputRef', 'ConstRef')


def strings(x, depth=0, seen=()):
    """texts inside an error"""
    if isinstance(x, str):
        yield x
    elif isinstance(x, dict):
        if id(x) in seen or depth > 6:
            return
        for v in x.values():
            yield from strings(v, depth + 1, seen + (id(x),))
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from strings(v, depth + 1, seen)


def refs(x, seen=None, out=None):
    """(kind, target) of every reference below a field, type or expression; targets are not entered"""
    out, seen = [] if out is None else out, set() if seen is None else seen
    if isinstance(x, Node):
        if id(x) in seen:
            return out
        seen.add(id(x))
        if x.kind in REFS:
            out.append((x.kind, x['0']))
            return out
        if x.kind == 'Ref':
            out.append(('Type', x['0']['target']))
            for a in x['0']['arguments']:
                refs(a, seen, out)
            return out
        if x.kind == 'EnumAccess':
            out.append(('EnumAccess', x['0']))
            return out
        if x.kind == 'TypeTransform':
            out.append(('Transform', x['transform']))
            refs(x['condition'], seen, out)
            refs(x['arguments'], seen, out)
            return out
        if x.kind == 'CallExpression':
            out.append(('Call', x['function']))
            refs(x['arguments'], seen, out)
            return out
        if x.kind == 'MemberExpression':
            out.append(('Member', x['member']))
            refs(x['target'], seen, out)
            return out
        for v in x.values():
            refs(v, seen, out)
    elif isinstance(x, (list, tuple)):
        for v in x:
            refs(v, seen, out)
    elif isinstance(x, dict):
        for v in x.values():
            refs(v, seen, out)
    return out


def at(p, path):
    """the field at type.item.item"""
    n, *rest = path.split('.')
    f = p['types'][n]
    for r in rest:
        t = f['type_']
        while t.kind == 'Array':
            t = t['0']['element']
        f = t['0']['items'][r]
    return f


class Job:
    def __init__(self, c, s):
        self.c, self.s = c, s

    def run(self, what, text, files=None):
        s = self.s
        if files:
            class F:
                fn = s.fn
                one = staticmethod(lambda t: s.one(t, files))
            r = analyse(self.c, F, text, what, s.fn.name)
        else:
            r = analyse(self.c, s, text, what, s.fn.name)
        if r == 0:
            return None
        if r is None:
            self.c.undecided('%s: `%s`' % (what, text), 'does not parse')
            return None
        self.c.ob(what)
        return r

    def bad(self, key, text, msg, files=None):
        self.c.violation('scope:' + key, 'in `%s`%s: %s' % (text, ''.join(' (with %s: `%s`)' % f for f in (files or {}).items()), msg), self.s.fn.name)

    def rejected(self, what, text, name=None, files=None):
        r = self.run(what, text, files)
        if r is None:
            return
        if r[0] == 'ok':
            self.bad(what + ':accepted', text, 'this has to be an error' + (' naming %s' % name if name else ''), files)
        elif r[0] == 'panic':
            self.bad(what + ':panic', text, 'panics in %s instead of an error' % r[1], files)
        elif name is not None and not any(name in x for x in strings(r[2])):
            self.bad(what + ':unnamed', text, 'the error %s does not name %s' % (r[1], name), files)

    def accepted(self, what, text, fn=None, files=None):
        """fn(program) -> message when something is bound wrongly"""
        r = self.run(what, text, files)
        if r is None:
            return
        if r[0] != 'ok':
            self.bad(what + ':rejected', text, 'this is a valid description but is rejected (%s)' % r[1], files)
            return
        if fn is None:
            return
        try:
            m = fn(r[1])
        except (KeyError, IndexError, TypeError, AttributeError) as x:
            import os
            if os.environ.get('PSV_STRICT'):
                raise
            m = 'the analysed program lacks %s' % x
        if m:
            self.bad(what, text, m, files)


def show(r):
    return '%s %s' % (r[0], r[1].get('name') if isinstance(r[1], Node) else r[1])


def bound(place, slot, kind, target, name):
    """the one reference called name in slot of the field at place is the given one; target: function of the program, None for inputs"""
    def check(p):
        f = at(p, place)
        if slot == 'default':
            x = [a['default_value'] for a in f['arguments'] if a['default_value'] is not None]
        else:
            x = f[slot]
        rs = [r for r in refs(x) if r[0] in REFS and r[1]['name'] == name]
        if len(rs) != 1:
            return '%d references to %s are found where one is written' % (len(rs), name)
        k, t = rs[0]
        if k != kind:
            return '%s is bound to a %s instead of a %s' % (name, k, kind)
        want = target(p) if target else None
        if want is not None and t is not want:
            return '%s is bound to another %s of that name' % (name, k)
    return check


# ----------------------------------------------------------------- values
# text of the use, the item holding it and the slot
USES = [
    ('array length', 'y: u8[k]', 'y', 'type_'),
    ('container length', 'y: container [k] { z: u8 }', 'y', 'type_'),
    ('padding', '.pad: k', '_pad0', 'type_'),
    ('condition', 'y: u8 { k == 1 }', 'y', 'condition'),
    ('argument', 'y: p(k)', 'y', 'type_'),
    ('nested', 'y: container { w: u16, z: u8[k] }', 'y', 'type_'),
    ('operand', 'y: u8[3 + k]', 'y', 'type_'),
    ('branch', 'y: u8[true ? 2 : k]', 'y', 'type_'),
    ('array of arrays', 'y: u8[2][k]', 'y', 'type_'),
    ('cast', 'y: u8 { (k :> u8) == 1 }', 'y', 'condition'),
    ('call', 'y: u8[len(k)]', 'y', 'type_'),
    ('transform condition', 'y: u8[..] -> gzip { k == 1 }', 'y', 'transforms'),
    ('computed value', 'y: u64 = k', 'y', 'calculated'),
]


def values(j, use):
    what, u, item, slot = use
    computed = what == 'computed value'
    for C, I, O, N in itertools.product((0, 1), (0, 1), (None, 'before', 'after'), (None, 'before', 'after')):
        if computed and O == 'after' and N is None:
            continue
        text = 'import_ffi gzip as transform; type p(q: u64) = u8; %stype x%s = container { %sn: container { %s%s%s },%s };' % (
            'const k: u64 = 7; ' if C else '', '(k: u64)' if I else '', 'k: u64, ' if O == 'before' else '',
            'k: u64, ' if N == 'before' else '', u, ', k: u64' if N == 'after' else '', ' k: u64' if O == 'after' else '')
        w = 'name in ' + what
        if N == 'before' or N and computed:
            j.accepted(w, text, bound('x.n.' + item, slot, 'FieldRef', lambda p: at(p, 'x.n.k'), 'k'))
        elif O == 'before':
            j.accepted(w, text, bound('x.n.' + item, slot, 'FieldRef', lambda p: at(p, 'x.k'), 'k'))
        elif I:
            j.accepted(w, text, bound('x.n.' + item, slot, 'InputRef', None, 'k'))
        elif C:
            j.accepted(w, text, bound('x.n.' + item, slot, 'ConstRef', lambda p: p['consts']['k'], 'k'))
        else:
            j.rejected(w, text, 'k')


def places(j):
    """uses outside of containers, and scopes that are not visible"""
    for C in (0, 1):
        k = 'const k: u64 = 7; ' if C else ''
        con = ('ConstRef', (lambda p: p['consts']['k']))

        def either(what, text, place, slot, files=None):
            if C:
                j.accepted(what, text, bound(place, slot, con[0], con[1], 'k'), files)
            else:
                j.rejected(what, text, 'k', files)
        either('name in an alias', k + 'type x = u8[k];', 'x', 'type_')
        either('name in a default argument', k + 'type x(d: u64 ? k) = u8;', 'x', 'default')
        j.accepted('name in an alias', k + 'type x(k: u64) = u8[k];', bound('x', 'type_', 'InputRef', None, 'k'))
        j.accepted('name in a default argument', k + 'type x(k: u64, d: u64 ? k) = u8;', bound('x', 'default', 'InputRef', None, 'k'))
        either('name declared beside', k + 'type x = container { s: container { k: u64 }, y: u8[k] };', 'x.y', 'type_')
        either('name declared beside', k + 'type x = container { s: container { k: u64 }, t: container { y: u64 = k } };', 'x.t.y', 'calculated')
        either('name declared in another type', k + 'type w = container { k: u64 }; type x = container { s: w, y: u8[k] };', 'x.y', 'type_')
        either('argument of another type', k + 'type w(k: u64) = u8; type x = container { y: u8[k], };', 'x.y', 'type_')
        either('argument of another type', k + 'type x = container { y: u8[k], }; type w(k: u64) = container { k: u64 };', 'x.y', 'type_')
        either('name of a type', k + 'type k = u64; type x = container { y: u8[k], };', 'x.y', 'type_')
        either('name of a variant', k + 'type e = enum u64 { k = 1, }; type x = container { y: u8[k], };', 'x.y', 'type_')
        either('own name', k + 'type x = container { k: u8[k], };', 'x.k', 'type_')
        either('own name', k + 'type x = container { k: u64 { k == 1 }, };', 'x.k', 'condition')
    # constants, imported ones and values of members
    j.accepted('constant of a constant', 'const k: u8 = 1; const l: u8 = k;', lambda p: None if refs(p['consts']['l']['value']) == [('ConstRef', p['consts']['k'])] else 'k is bound elsewhere')
    j.rejected('constant of a constant', 'const l: u8 = k;', 'k')
    j.rejected('constant of a constant', 'const l: u8 = l;', 'l')
    for kind in ('enum', 'bitfield'):
        j.accepted('constant in a member', 'const k: u8 = 1; type e = %s u8 { a = k, };' % kind,
                   lambda p: None if [r for r in refs(at(p, 'e')['type_']) if r[0] == 'ConstRef'] == [('ConstRef', p['consts']['k'])] else 'k is bound elsewhere')
        j.rejected('constant in a member', 'type e = %s u8 { a = k, };' % kind, 'k')
        j.rejected('constant in a member', 'type e = %s u8 { k = 1, b = k };' % kind, 'k')
    f = {'f': 'const k: u64 = 3; const l: u64 = 4;'}
    j.accepted('imported constant', 'import k from "f"; type x = u8[k];', bound('x', 'type_', 'ConstRef', lambda p: p['consts']['k'], 'k'), f)

    def alias(p):
        r = refs(at(p, 'x')['type_'])
        return None if len(r) == 1 and r[0][0] == 'ConstRef' and r[0][1] is p['consts']['k'] and r[0][1]['name'] == 'l' else 'k is not the imported l'
    j.accepted('imported constant', 'import l as k from "f"; type x = u8[k];', alias, f)
    j.rejected('imported constant', 'import l as k from "f"; type x = u8[l];', 'l', f)
    j.rejected('imported constant', 'import l from "f"; type x = u8[k];', 'k', f)
    j.rejected('imported constant', 'import z from "f";', 'z', f)
    j.rejected('missing file', 'import k from "g";', 'g', f)
    j.rejected('redeclared import', 'import k from "f"; const k: u64 = 1;', 'k', f)
    j.rejected('redeclared import', 'import k, l as k from "f";', 'k', f)
    j.rejected('redeclared import', 'import l as k from "f"; const k: u64 = 1;', 'k', f)
    j.accepted('renamed import', 'import k as m from "f"; const k: u64 = 1; type x = u8[k]; type y = u8[m];',
               lambda p: None if refs(at(p, 'x')['type_'])[0][1] is p['consts']['k'] and refs(at(p, 'y')['type_'])[0][1] is p['consts']['m']
               and p['consts']['k'] is not p['consts']['m'] else 'k and m are mixed up', f)


# ----------------------------------------------------------------- types
OWN = [('own', 'type v32 = u16; ', 'Scalar'), ('own after', 'type v32 = u16; ', 'Scalar'), ('foreign', 'import_ffi v32 as type; ', 'Foreign'),
       ('import', 'import v32 from "f"; ', 'F32'), ('alias', 'import q as v32 from "f"; ', 'Bool'), ('enum', 'type v32 = enum u8 { a = 1, }; ', 'Enum')]
TUSES = [
    ('field type', 'type x = container { y: v32 };', 'x.y', 'type_'),
    ('element type', 'type x = container { y: v32[2] };', 'x.y', 'type_'),
    ('nested field type', 'type x = container { w: u8, y: container { z: v32, } };', 'x.y', 'type_'),
    ('aliased type', 'type x = v32;', 'x', 'type_'),
    ('argument type', 'type x(a: v32) = u8;', 'x', 'arguments'),
    ('cast type', 'type x = container { q: u8, y: u8 { (q :> v32) == (q :> v32) }, };', 'x.y', 'condition'),
]


def types(j, use):
    what, u, place, slot = use
    f = {'f': 'type v32 = f32; type q = bool;'}
    for n in (0, 1, 2):
        for pick in itertools.combinations(OWN, n):
            text = ''.join(d for k, d, t in pick if k != 'own after') + u + ''.join(' ' + d for k, d, t in pick if k == 'own after')
            if what == 'cast type' and n == 1 and pick[0][2] not in ('Scalar',):
                continue
            if n != 1:
                j.rejected(('redeclared ' if n else 'unknown ') + what, text, 'v32', f)
                continue

            def check(p):
                if slot == 'arguments':
                    ts = [r for r in refs([a['type_'] for a in at(p, place)['arguments']])]
                else:
                    ts = refs(at(p, place)[slot])
                ts = [t for k, t in ts if k == 'Type']
                if len(ts) != (2 if what == 'cast type' else 1):
                    return '%d references to types' % len(ts)
                for t in ts:
                    if t is not p['types']['v32'] or t['type_'].kind != pick[0][2]:
                        return 'v32 is bound to another type (%s)' % t['type_'].kind
            j.accepted(what, text, check, f)


def members(j):
    pre = 'type e = enum u8 { a = 1, b, d = default }; type g = enum u8 { a = 2, c = 3, }; type h = bitfield u8 { a = 1, f, }; '
    T = {'e': ('a', 'b'), 'g': ('a', 'c'), 'h': ('a', 'f')}
    for t, have in T.items():
        for m in ('a', 'b', 'c', 'd', 'f', 'z'):
            text = pre + 'type x = container { y: %s, k: u8 { y == %s::%s } };' % (t, t, m)

            def check(p):
                rs = [r[1] for r in refs(at(p, 'x.k')['condition']) if r[0] == 'EnumAccess']
                if len(rs) != 1 or rs[0]['enum_field'] is not p['types'][t]:
                    return 'the enum is bound elsewhere'
                v = p['types'][t]['type_']['0']['items'][m]
                v = v['0'] if v.kind == 'Value' else v
                if rs[0]['variant'] is not v or v['name'] != m:
                    return '%s::%s is bound to %s' % (t, m, rs[0]['variant'].get('name'))
            if m in have:
                j.accepted('member of a type', text, check)
            else:
                j.rejected('member of a type', text, m)
            text = pre + 'type x = container { y: %s, k: u8 { y.%s } };' % (t, m)

            def check2(p):
                rs = [r[1] for r in refs(at(p, 'x.k')['condition']) if r[0] == 'Member']
                if len(rs) != 1 or rs[0] is not p['types'][t]['type_']['0']['items'][m]:
                    return 'y.%s is bound elsewhere' % m
            if t == 'h' and m in have:
                j.accepted('flag of a value', text, check2)
            elif t == 'h':
                j.rejected('flag of a value', text, m)
            else:
                j.rejected('flag of a value that has none', text)
    j.rejected('member of an unknown type', pre + 'type x = container { k: u8 { 1 == i::a } };', 'i')
    j.rejected('member of a type without members', pre + 'type i = u8; type x = container { k: u8 { 1 == i::a } };')
    j.rejected('member of an alias or its members', pre + 'type i = container { a: u8 }; type x = container { k: u8 { 1 == i::a } };')


# ----------------------------------------------------------------- transforms and functions
def foreign(j):
    f = {'f': 'import_ffi gzip as transform; import_ffi base64 as transform;'}
    use = 'type x = container { y: u8[..] -> gzip };'

    def tr(name, n=1):
        def check(p):
            rs = [r[1] for r in refs(at(p, 'x.y')['transforms']) if r[0] == 'Transform']
            if len(rs) != n or rs[0]['name'] != name or rs[0] is not p['transforms']['gzip']:
                return 'the transform is bound to %s' % ', '.join(str(r.get('name')) for r in rs)
        return check
    j.rejected('unknown transform', use, 'gzip')
    j.rejected('unknown transform', 'type gzip = u8; const gzip: u8 = 1; ' + use, 'gzip')
    j.rejected('unknown transform', 'import_ffi base64 as transform; ' + use, 'gzip')
    for d in ('before', 'after'):
        for decl, name in (('import_ffi gzip as transform;', 'gzip'), ('import gzip from "f";', 'gzip'), ('import base64 as gzip from "f";', 'base64')):
            j.accepted('transform', decl + ' ' + use if d == 'before' else use + ' ' + decl, tr(name), f)
    for a, b in itertools.product(('import_ffi gzip as transform;', 'import gzip from "f";', 'import base64 as gzip from "f";'), repeat=2):
        j.rejected('redeclared transform', a + ' ' + b + ' ' + use, 'gzip', f)
    j.accepted('transforms in order', 'import_ffi gzip as transform; import_ffi base64 as transform; type x = container { y: u8[..] -> gzip -> base64 };',
               lambda p: None if [r[1] for r in refs(at(p, 'x.y')['transforms']) if r[0] == 'Transform'] == [p['transforms']['gzip'], p['transforms']['base64']] else 'the transforms are mixed up')
    for kind in ('type', 'transform', 'function'):
        for n in ('zzz', 'gzip', 'v32', 'blen'):
            if (kind, n) not in (('type', 'v32'), ('transform', 'gzip'), ('function', 'blen')):
                j.rejected('unknown foreign ' + kind, 'import_ffi %s as %s;' % (n, kind), n)
    for kind, n in (('type', 'v32'), ('type', 'utf8'), ('transform', 'gzip')):
        j.accepted('foreign ' + kind, 'import_ffi %s as %s;' % (n, kind), lambda p: None if p['types' if kind == 'type' else 'transforms'][n]['name'] == n else 'another one')
        j.rejected('redeclared foreign ' + kind, 'import_ffi %s as %s; import_ffi %s as %s;' % (n, kind, n, kind), n)
    for n in ('len', 'blen'):
        def fn(p):
            rs = [r[1] for r in refs(at(p, 'x.y')['calculated']) if r[0] == 'Call']
            if len(rs) != 1 or rs[0]['name'] != n or rs[0] is not p['functions'][n]:
                return 'the function is bound to %s' % ', '.join(str(r.get('name')) for r in rs)
        j.accepted('function', 'type x = container { y: u64 = %s(z), z: u8[..] };' % n, fn)
    for n in ('zen', 'gzip', 'v32', 'z'):
        j.rejected('unknown function', 'import_ffi gzip as transform; import_ffi v32 as type; type x = container { y: u64 = %s(z), z: u8[..] };' % n, n)


# ----------------------------------------------------------------- arguments
PT = ['u8', 'bool', 'u8[2]', 'e']
GOOD = {'u8': ['9', 'n'], 'bool': ['true', 'b'], 'u8[2]': ['"ab"', 'w'], 'e': ['e::m', 'v']}


def count(j, r, o, flip):
    """a type with r required and o optional arguments, used with every number of arguments"""
    ps = ['a%d: %s%s' % (i, PT[i], '' if (i < r) != flip else ' ? ' + GOOD[PT[i]][0]) for i in range(r + o)]
    decl = 'type p%s = u8; ' % ('(%s)' % ', '.join(ps) if ps else '')
    pre = 'type e = enum u8 { m = 1, }; '
    for n in range(r + o + 2):
        for k in (0, 1):
            args = ['u8', 'bool', 'u8[2]', 'e', 'u8']
            args = [GOOD[t][k] for t in args[:n]]
            app = 'p(%s)' % ', '.join(args) if n else 'p'
            uses = ['type x = container { n: u8, b: bool, w: u8[2], v: e, y: %s }; ' % app]
            if k == 0:
                uses.append('type x(y: %s) = u8; ' % app)
            for use, d in itertools.product(uses, ('before', 'after')):
                text = pre + (decl + use if d == 'before' else use + decl)
                # every parameter that is not given has a default
                given_all = all(i < n or ' ? ' in ps[i] for i in range(r + o)) and n <= r + o
                ordered = not (flip and r and o)
                what = 'number of arguments'
                if given_all and ordered:
                    def check(p):
                        t = at(p, 'x.y')['type_'] if '(y:' not in use else at(p, 'x')['arguments'][0]['type_']
                        if t.kind != 'Ref' or t['0']['target'] is not p['types']['p'] or len(t['0']['arguments']) != n:
                            return 'the arguments are lost'
                        for i, a in enumerate(t['0']['arguments']):
                            if k and [x[1] for x in refs(a)] != [at(p, 'x.' + args[i])]:
                                return 'argument %d is bound elsewhere' % i
                            if not k and a.kind != {'9': 'Int', 'true': 'Bool', '"ab"': 'Str', 'e::m': 'EnumAccess'}[args[i]]:
                                return 'argument %d is %s' % (i, a.kind)
                    j.accepted(what, text, check)
                elif given_all:
                    continue            # whether optional arguments may come first is not stated
                else:
                    j.rejected(what, text)


def wrong(j):
    pre = 'type e = enum u8 { m = 1, }; '
    for t in PT:
        for g in PT:
            for k in (0, 1):
                for d in ('before', 'after'):
                    decl, use = 'type p(q: u16, a: %s) = u8; ' % t, 'type x = container { n: u8, b: bool, w: u8[2], v: e, y: p(3, %s) }; ' % GOOD[g][k]
                    text = pre + (decl + use if d == 'before' else use + decl)
                    if t == g:
                        j.accepted('type of an argument', text)
                    elif {g, t} != {'e', 'u8'}:
                        j.rejected('type of an argument', text)
    j.rejected('type of a default argument', 'type p(q: bool ? 3) = u8;')
    j.rejected('type of a default argument', 'type p(q: u8 ? true) = u8;')
    j.rejected('argument of a type without arguments', 'type x = container { y: v32(3), }; import_ffi v32 as type;')
    # foreign types, transforms and functions take what they declare
    for n in ('utf8', 'utf16', 'v8'):
        r = j.run('foreign arguments', 'import_ffi %s as type;' % n)
        if r is None or r[0] != 'ok':
            continue
        ps = r[1]['types'][n]['arguments']
        need = sum(1 for p in ps if p['default_value'] is None)
        for k in range(len(ps) + 2):
            text = 'import_ffi %s as type; type x = container { y: %s%s, };' % (n, n, '(%s)' % ', '.join(['3'] * k) if k else '')
            (j.accepted if need <= k <= len(ps) else j.rejected)('arguments of a foreign type', text)
    r = j.run('foreign arguments', 'import_ffi gzip as transform; import_ffi base64 as transform;')
    if r and r[0] == 'ok':
        for n in ('gzip', 'base64'):
            ps = r[1]['transforms'][n]['arguments']
            need = sum(1 for p in ps if not p['optional'])
            for k in range(len(ps) + 2):
                text = 'import_ffi %s as transform; type x = container { y: u8[..] -> %s%s };' % (n, n, '(%s)' % ', '.join(['3'] * k) if k else '')
                (j.accepted if need <= k <= len(ps) else j.rejected)('arguments of a transform', text)
        for n, fn in r[1]['functions'].items():
            ps = fn['arguments']
            need = sum(1 for p in ps if not p['optional'])
            for k in range(len(ps) + 2):
                text = 'type x = container { z: u8[..], y: u64 = %s(%s) };' % (n, ', '.join(['z', '3', '3', '3'][:k]))
                if not need <= k <= len(ps):
                    j.rejected('arguments of a function', text)


# ----------------------------------------------------------------- redeclaration
def redeclared(j):
    for a, b in itertools.product(('type k = u8;', 'type k = container { a: u8 };', 'type k = enum u8 { a = 1, };', 'type k = bitfield u8 { a = 1, };', 'type k(x: u8) = u8;'), repeat=2):
        j.rejected('redeclared type', a + ' ' + b, 'k')
        j.accepted('types of different names', a + ' ' + b.replace('k', 'kk', 1), lambda p: None if p['types']['k'] is not p['types']['kk'] else 'k is kk')
    j.rejected('redeclared constant', 'const k: u8 = 1; const k: u16 = 2;', 'k')
    j.rejected('redeclared constant', 'const k: u8 = 1; type x = u8; const k: u8 = 1;', 'k')
    j.rejected('redeclared argument', 'type x(k: u8, k: u8) = u8;', 'k')
    j.rejected('redeclared argument', 'type x(k: u8, l: u8, k: bool ? true) = u8;', 'k')
    for kind in ('enum', 'bitfield'):
        j.rejected('redeclared member', 'type x = %s u8 { k = 1, k = 2 };' % kind, 'k')
        j.rejected('redeclared member', 'type x = %s u8 { k = 1, l, k };' % kind, 'k')
    j.rejected('redeclared member', 'type x = enum u8 { k = 1, k = default };', 'k')
    j.rejected('two default members', 'type x = enum u8 { k = 1, l = default, m = default };', 'm')
    fields = ['k: u8', 'k: bool { true }', 'k: u64 = 1', 'k: container { a: u8 }', 'k: u8[3]']
    for a, b in itertools.product(fields, repeat=2):
        for mid in ('', 'l: u8, '):
            j.rejected('redeclared field', 'type x = container { %s, %s%s };' % (a, mid, b), 'k')
            j.rejected('redeclared field', 'type x = container { y: container { %s, %s%s }, };' % (a, mid, b), 'k')

    def n(*names):
        return lambda p: None if list(at(p, names[0])['type_']['0']['items']) == list(names[1:]) else 'the fields are %s' % list(at(p, names[0])['type_']['0']['items'])
    j.accepted('fields of different containers', 'type x = container { k: u8, y: container { k: u16, l: u8 }, z: container { k: u32, }, };', n('x', 'k', 'y', 'z'))
    j.accepted('field and argument', 'type x(k: u8) = container { k: u16, };', n('x', 'k'))
    for m in range(3):
        items = ['a: u8', 'b: u8']
        for k in range(3):
            its = items[:k] + ['.pad: 4'] + items[k:]
            text = 'type x = container { %s };' % ', '.join(its + ['.pad: 2'] * m)

            def pads(p):
                got = at(p, 'x')['type_']['0']['items']
                want = [i[0] for i in its] + ['.'] * m
                have = ['.' if f['is_pad'] else nm for nm, f in got.items()]
                return None if have == want else 'the items are %s' % have
            j.accepted('padding beside fields', text, pads)
    # a field that is called like a padding
    for text in ('type x = container { _pad0: u8, .pad: 4, b: u8 };', 'type x = container { _pad0: u8, _pad1: u16, .pad: 4, .pad: 3, };',
                 'type x = container { .pad: 4, _pad0: u8, b: u8 };', 'type x = container { .pad: 4, _pad1: u8, .pad: 3, b: u8 };'):
        r = j.run('field named like padding', text)
        if r is not None and r[0] == 'ok':
            want = [('.' if i.strip().startswith('.') else i.split(':')[0].strip()) for i in text[text.index('{') + 1:text.index('}')].split(',') if i.strip()]
            have = ['.' if f['is_pad'] else nm for nm, f in at(r[1], 'x')['type_']['0']['items'].items()]
            if have != want:
                j.bad('field named like padding', text, 'the items of the container are %s' % have)


def part(c, fn, s, *args):
    fn(Job(c, s), *args)


def resolution(c):
    c.rule('for every kind of reference and every subset of the scopes that declare the name: the analysed program refers to the declaration in the innermost '
           'scope in which it is visible; without any, with two in one scope, or with arguments of the wrong number or type, the result is an error that names it')
    s = Sem(c)
    jobs = [('names in ' + u[0], part, values, s, u) for u in USES]
    jobs += [('names of types: ' + u[0], part, types, s, u) for u in TUSES]
    jobs += [('names outside of containers', part, places, s), ('members', part, members, s), ('transforms and functions', part, foreign, s), ('wrong arguments', part, wrong, s), ('redeclarations', part, redeclared, s)]
    for r in range(3):
        for o in range(3):
            if r + o <= 4:
                jobs.append(('%d required and %d optional arguments' % (r, o), part, count, s, r, o, False))
                if r and o:
                    jobs.append(('%d optional and %d required arguments' % (r, o), part, count, s, r, o, True))
    c.parallel(jobs)
    c.floor('padding beside fields', 9)
    c.floor('number of arguments', 100)
