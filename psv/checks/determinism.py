"""C32: what comes out depends on the description, its imports and the options alone.

Two sources of anything else: what the operating system says (time, environment, files, addresses, counters that survive a run), looked for
in everything that can be called from the entry points; and the order in which a hashed collection gives out its elements. For the latter
the front end and the generator are interpreted twice, with hashed collections that give out their elements in opposite orders."""
import re
from .. import std
from ..sem import Sem, Undecided, Node
from ..an import *
from .compiles import DECL, OTHER, PLACES, describe
from .options import DESC, emitted

HASHED = ('std::collections::HashMap', 'std::collections::HashSet', 'std::collections::hash_map', 'std::collections::hash_set', 'hashbrown::')

# collections sorted by address
ADDRESSED = re.compile(r'BTree(Map|Set)(::)?<\*(const|mut) ')


def type_name(I_, ty):
    t = I_.T[ty] if ty is not None else None
    return t['d'] if t and t['k'] == 'adt' else ''


class Opposite:
    """the model of the standard library, with hashed collections that give out first what came last"""

    def __getattr__(self, n):
        return getattr(std, n)

    def lookup(self, d, n, info):
        f = std.lookup(d, n, info)
        if f is None:
            return f
        last = d.rsplit('::', 1)[-1]
        head = n.split(' as ')[0]
        own = any(h in head for h in HASHED) or any(d.startswith(h) for h in HASHED) or bool(ADDRESSED.search(head))

        def g(I_, st, args, info, rty, site):
            if own and last == 'insert':
                before = self.place(I_, st, args[0])
                r = f(I_, st, args, info, rty, site)
                for s, _ in r or ():
                    p = self.place(I_, s, args[0])
                    if p and before and p[2][0] in 'qm' and len(p[2][1]) == len(before[2][1]) + 1:
                        I_.write(s, p[0], p[1], (p[2][0], p[2][1][-1:] + p[2][1][:-1]))
                return r
            if own and last == 'extend':
                before = self.place(I_, st, args[0])
                r = f(I_, st, args, info, rty, site)
                for s, _ in r or ():
                    p = self.place(I_, s, args[0])
                    if p and before and p[2][0] in 'qm':
                        k = len(before[2][1])
                        I_.write(s, p[0], p[1], (p[2][0], tuple(reversed(p[2][1][k:])) + p[2][1][:k]))
                return r
            r = f(I_, st, args, info, rty, site)
            if last in ('collect', 'from', 'into', 'from_iter') and any(type_name(I_, rty).startswith(h) for h in HASHED):
                r = [(s, (v[0], tuple(reversed(v[1]))) if v[0] in 'qm' else v) for s, v in r or ()]
            return r
        return g

    def place(self, I_, st, a):
        try:
            root, path, v = std.target(I_, st, a)
        except Exception:
            return None
        return (root, path, v) if v[0] in 'qm' else None


def plain(x, depth=0):
    if isinstance(x, Node):
        return (x.kind,) + tuple((k, plain(v, depth + 1)) for k, v in sorted(x.items())) if depth < 6 else '..'
    if isinstance(x, (list, tuple)):
        return tuple(plain(y, depth + 1) for y in x)
    if isinstance(x, dict):
        return tuple((k, plain(v, depth + 1)) for k, v in sorted(x.items(), key=str))
    return x


FAULTY = {
    'two unknown types': 'type T = container { a: Na, b: Nb };',
    'two unknown names': 'type T = container { a: u8[na], b: u8[nb] };',
    'three wrong types': 'type A = container { a: Na }; type B = container { a: Nb }; type C = container { a: Nc };',
    'constants': 'const a: u8 = na; const b: u8 = nb;',
    'enums': 'type E = enum u8 { a = na, b = nb }; type F = enum u8 { a = nc };',
    'bitfields': 'type E = bitfield u8 { a = na, b = nb };',
    'flags': 'type T = container { a: u8 +foo, b: u8 +bar };',
    'arguments': DECL['P'] + 'type T = container { a: P, b: P(1, 2), c: P("x") };',
    'conditions': 'type T = container { a: u8 {1}, b: u8 {"x"}, c: u8 {2} };',
    'transforms': 'type T = container { a: u8[..] -> na, b: u8[..] -> nb };',
    'twice': 'type T = u8; type T = u16; type S = u8; type S = u16;',
    'functions': 'type T = container { a: u8 = na(1), b: u8 = nb(2) };',
    'tagged': 'type U = container +tagged_enum { One: Na {true}, Two: Nb {true} };',
    'imports': 'import a from "f"; import b from "g"; type T = u8;',
}
MORE = {
    'many types': ' '.join('type T%d = container { a: u8, b: T%d[a] };' % (i, (i * 3 + 1) % 7) for i in range(7)),
    'many enums': ' '.join('type E%d = enum u8 { a = %d, b, o = default };' % (i, i) for i in range(5)) + ' type T = container { %s };' % ', '.join('f%d: E%d' % (i, (i * 2) % 5) for i in range(5)),
    'many fields': 'type T = container { %s };' % ', '.join('f%d: u8%s' % (i, ' {f%d == f%d}' % (i - 1, i // 2) if i else '') for i in range(8)),
    'computed': 'type T = container { a: u8 = blen(x) :> u8, b: u8 = blen(y) :> u8, c: u8 = blen(z) + blen(x) :> u8, x: container [4] { d: u8 }, y: container [5] { e: u8 }, z: container [6] { f: u8 } };',
    'constants': ' '.join('const c%d: u8 = %d;' % (i, i) for i in range(5)) + ' type T = container { a: u8[c4], b: u8[c1] };',
    'parameters': 'type P(a: u8, b: u16, c: u8 ? 3, d: u8 ? 4) = container { x: u8[a], y: u8[b], z: u8[c] }; type T = container { n: u8, p: P(n, 2), q: P(n, n, n, n) };',
    'bits': 'type B = bitfield u32 { %s }; type T = container { b: B, c: u8 {b.f3 && b.f1} };' % ', '.join('f%d = %d' % (i, 1 << i) for i in range(6)),
    'variants': 'type U(n: u8) = container +tagged_enum { %s };' % ', '.join('V%d: container { a%d: u8, b%d: u16 } {n == %d}' % (i, i, i, i) for i in range(5)),
    'foreign': 'type T = container { n: u8, a: utf8(n) -> gzip {n == 1} -> base64 {n == 2}, b: v32, c: utf16(n) };',
}


def outcome(sem, text, **o):
    r = emitted(sem, text, **o)
    if r is not None:
        return r
    r = sem.one(describe(text))
    return ('unparsed',) if r is None else ('err', r[1], plain(r[2])) if r[0] == 'err' else r[:1]


def one(c, sem, key, text, a):
    got = []
    for s in (None, Opposite()):
        sem.std = s
        try:
            got.append(outcome(sem, text, is_async=a, derives=('Debug', 'Clone', 'Default')))
        finally:
            sem.std = None
    x, y = got
    at = ''
    if x != y:
        p, q = str(x[-1]).split(' '), str(y[-1]).split(' ')
        i = next((i for i, (u, v) in enumerate(zip(p, q)) if u != v), 0)
        at = '`%s` or `%s`' % (' '.join(p[max(i - 3, 0):i + 5])[:90], ' '.join(q[max(i - 3, 0):i + 5])[:90])
    c.check('order', x == y, 'order:%s%s' % (key, ':async' if a else ''), 'the order of a hashed collection decides what comes out for `%s`: %s' % (text[:160], at))


def some(c, sem, jobs):
    sem.c = c
    for key, text, a in jobs:
        c.part('order:%s:%s' % (key, a), one, c, sem, key, text, a)


FORBIDDEN = (
    ('std::time::', 'the time'), ('std::env::', 'the environment'), ('std::fs::', 'a file'), ('std::net::', 'the network'), ('std::process::', 'a process'),
    ('std::thread::current', 'the thread'), ('rand::', 'a random number'), ('getrandom::', 'a random number'), ('uuid::', 'a random number'), ('fastrand::', 'a random number'),
    ('std::hash::RandomState', 'a random key'), ('std::collections::hash_map::RandomState', 'a random key'), ('std::hash::random::RandomState', 'a random key'),
)
COUNTERS = ('fetch_add', 'fetch_sub', 'fetch_or', 'fetch_and', 'fetch_max', 'fetch_min', 'fetch_xor', 'swap', 'compare_exchange', 'store', 'fetch_update')
ROOTS = ('tokenizer::tokenize', 'parser::parse', 'Program>::from_ast', 'compiler::compile_program')


def constants(x):
    """the functions that a piece of a body names"""
    if isinstance(x, dict):
        if isinstance(x.get('fn'), dict):
            yield x['fn']
        for v in x.values():
            yield from constants(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from constants(v)


def effects(c):
    c.rule('no function that can be called from the tokenizer, the parser, the analysis or the generator asks the operating system for anything or keeps state between runs.')
    m = c.mir
    roots = [f for f in m.fns.values() if f.local and any(f.d.endswith(r) or f.name.endswith(r) for r in ROOTS)]
    if len(roots) < 4:
        raise KeyError('anchor entry points')
    bykind = {}
    for f in m.fns.values():
        if f.local:
            bykind.setdefault(f.d.rsplit('::', 1)[-1], []).append(f)
    closures = [f for f in m.fns.values() if f.local and '{closure' in f.d]
    seen, todo = {}, [(f, None) for f in roots]
    while todo:
        f, via = todo.pop()
        if f.idx in seen:
            continue
        seen[f.idx] = (f, via)
        for g in closures:
            if g.d.startswith(f.d + '::{closure'):
                todo.append((g, f))
        for info in constants(f.blocks):
            g = m.fns.get(info.get('key'))
            if g is not None and g.local:
                todo.append((g, f))
            elif info.get('ik') == 'virtual' or g is None and info.get('crate', '').startswith('protospec'):
                todo += [(h, f) for h in bykind.get(info['d'].rsplit('::', 1)[-1], ())]
    for f, via in seen.values():
        c.ob('effects')
        for info in constants(f.blocks):
            d = info['d']
            why = next((w for p, w in FORBIDDEN if d.startswith(p)), None)
            if d.startswith(('std::sync::atomic::', 'core::sync::atomic::')) and d.rsplit('::', 1)[-1] in COUNTERS:
                why = 'a counter that outlives the run'
            if why:
                way, g = [f.name], via
                while g is not None and len(way) < 6:
                    way.append(g.name)
                    g = seen[g.idx][1]
                c.violation('effect:%s:%s' % (f.name, d), '%s asks for %s (%s), on the way from %s' % (f.name, why, d, way[-1]), f.name)
    c.floor('effects', 100)


def order(c):
    c.rule('for each description the interpreted front end and generator come to the same outcome whichever of two opposite orders hashed collections have.')
    sem = Sem(c)
    jobs = [(k, t, False) for k, t in FAULTY.items()] + [(k, t, a) for d in (MORE, DESC) for k, t in d.items() for a in (False, True)]
    jobs += [('place:' + k, 'type S = container { sa: u8, sb: u16 }; ' + t.replace('@', 'S'), False) for k, t in PLACES.items()]
    if c.tier == 'thorough':
        jobs += [('other:' + k, t, False) for k, t in OTHER.items()]
    n = min(len(jobs), 24)
    c.parallel([('part %d' % i, some, sem, jobs[i::n]) for i in range(n)])
    c.floor('order', 60)
