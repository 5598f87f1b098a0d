"""C20: compilation ends. Descriptions whose imports, aliases, elements, fields, arguments and values refer to each other in every
small graph are interpreted from parsing to emission; a recursion or loop of the interpretation that does not end is the violation."""
import itertools
from ..interp import Limit
from ..sem import Sem, Undecided
from .scope import strings


def outcome(c, s, text, files=None, emit=True):
    """('ok',) | ('err', variant, texts) | ('loop', where) | None"""
    try:
        r = s.one(text, files)
    except Limit as x:
        return ('loop', str(x))
    except (Undecided, KeyError, IndexError, TypeError, ValueError, AttributeError) as x:
        c.undecided('termination: `%s`' % text, '%s %s' % (type(x).__name__, x))
        return None
    if r is None:
        c.undecided('termination: `%s`' % text, 'does not parse')
        return None
    if r[0] == 'err':
        return ('err', r[1], list(strings(r[2])))
    if r[0] == 'panic':
        return ('panic', r[1])
    if emit:
        for a in (False, True):
            try:
                s.emit(text, files, a)
            except Limit as x:
                return ('loop', str(x))
            except (Undecided, KeyError, IndexError, TypeError, ValueError, AttributeError) as x:
                c.undecided('emission: `%s`' % text, '%s %s' % (type(x).__name__, x))
    return ('ok',)


def judge(c, s, what, text, want, files=None, emit=True):
    """want: 'err' (a cycle), 'ok' or None (either)"""
    r = outcome(c, s, text, files, emit)
    if r is None:
        return
    c.ob(what)
    where = '`%s`%s' % (text, ''.join(' (with %s: `%s`)' % f for f in (files or {}).items()))
    if r[0] == 'loop':
        c.violation('term:%s:endless' % what, 'compiling %s does not end: %s' % (where, r[1]), s.fn.name)
    elif r[0] == 'panic' and want is not None:
        c.violation('term:%s:panic' % what, 'compiling %s panics in %s' % (where, r[1]), s.fn.name)
    elif want == 'err' and r[0] != 'err':
        c.violation('term:%s:accepted' % what, 'the cycle in %s is not reported' % where, s.fn.name)
    elif want == 'ok' and r[0] == 'err':
        c.violation('term:%s:rejected' % what, '%s has no cycle but is rejected (%s)' % (where, r[1]), s.fn.name)


def cyclic(start, g):
    """a cycle is reachable"""
    done, path = set(), []

    def go(n):
        if n in path:
            return True
        if n in done:
            return False
        path.append(n)
        r = any(go(x) for x in g.get(n, ()))
        path.pop()
        done.add(n)
        return r
    return any(go(n) for n in start)


# ----------------------------------------------------------------- imports
def imports(c, s, graphs):
    for g in graphs:
        files = {}
        for n in 'abc':
            files[n] = ''.join('import %sk as %s%s from "%s"; ' % (x, x, n, x) for x in g[n]) + 'const %sk: u8 = 1;' % n
        text = 'import ak from "a"; type x = u8[2];'
        used = {}
        work = ['a']
        while work:
            n = work.pop()
            if n not in used:
                used[n] = files[n]
                work += list(g[n])
        judge(c, s, 'imports', text, 'err' if cyclic('a', g) else 'ok', used, emit=False)


def import_graphs():
    ns = 'abc'
    for bits in itertools.product((0, 1), repeat=9):
        g = {n: tuple(m for j, m in enumerate(ns) if bits[3 * i + j]) for i, n in enumerate(ns)}
        yield g


def import_chains(c, s):
    for n in (1, 2, 3, 5, 8):
        fs = {'f%d' % i: 'import k from "f%d"; ' % ((i + 1) % n) for i in range(n)}
        judge(c, s, 'imports', 'import k from "f0";', 'err', fs, False)
        fs = {'f%d' % i: 'import k from "f%d"; ' % (i + 1) for i in range(n)}
        fs['f%d' % n] = 'const k: u8 = 1;'
        judge(c, s, 'imports', 'import k from "f0"; type x = u8;', 'ok', fs, False)
    # the same file imported over and over by many
    fs = {'f%d' % i: 'import k from "f%d"; import k as l from "f%d"; import k as m from "f%d";' % (i + 1, i + 1, min(i + 2, 6)) for i in range(6)}
    fs['f6'] = 'const k: u8 = 1;'
    judge(c, s, 'imports', 'import k from "f0"; import k as l from "f1"; type x = u8;', 'ok', fs, False)


# ----------------------------------------------------------------- types
def bodies(n, rich):
    yield 'u8', None, ()
    for j in range(n):
        yield 't%d' % j, 'alias', (j,)
        yield 't%d[2]' % j, 'alias', (j,)
        yield 'container { f: t%d }' % j, 'field', (j,)
        yield 'container { f: t%d[..] }' % j, 'field', (j,)
        if rich:
            yield 'container { g: bool, f: t%d { g } }' % j, 'field', (j,)
            yield 'container +tagged_enum { f: t%d { true }, u: u8 }' % j, 'field', (j,)
            yield 'container { g: container { f: t%d[3] } }' % j, 'field', (j,)
            yield 't%d[..][2]' % j, 'alias', (j,)


def types(c, s, combos):
    for bs in combos:
        text = ' '.join('type t%d = %s;' % (i, b[0]) for i, b in enumerate(bs))
        g = {i: b[2] for i, b in enumerate(bs) if b[1] == 'alias'}
        judge(c, s, 'types', text, 'err' if cyclic(range(len(bs)), g) else None)


OTHERS = [
    ('arguments', ['type a(x: a) = u8;', 'type a(x: b) = u8; type b(x: a) = u8;', 'type a(x: u8) = a(x);', 'type a(x: u8) = container { f: a(x) };', 'type a(x: u8 ? 3) = container { f: a(x)[x] };',
                   'type a(x: u8 ? x) = u8;', 'type a(x: u8[2] ? "ab") = container { f: a { x[0] == 1 } };', 'type a(x: b ? 1) = u8; type b = a;', 'type a(x: b) = u8; type b(y: c) = u8; type c(z: a) = u8;',
                   'type a(x: a[2]) = u8;', 'type a(x: u8) = b(x); type b(x: u8) = a(x);', 'type a(x: u8) = b(x)[2]; type b(x: u8) = a(x)[2];']),
    ('values', ['const a: u8 = b; const b: u8 = a;', 'const a: u8 = a;', 'type e = enum u8 { a = e::a, };', 'type e = enum u8 { a = e::b, b = e::a };', 'type e = enum u8 { a = f::b, }; type f = enum u8 { b = e::a, };',
                'type e = bitfield u8 { a = e::a, };', 'const a: u8 = e::x :> u8; type e = enum u8 { x = a, };', 'type e = enum u8 { x = a, }; const a: u8 = e::x :> u8;',
                'const a: e = e::x; type e = enum u8 { x = 1, };', 'const a: u8 = 1; const b: u8 = a; const d: u8 = b + a; type e = enum u8 { x = d, y, z }; type f = bitfield u8 { p = b, q, r };']),
    ('fields', ['type x = container { a: u8 = b, b: u8 = a };', 'type x = container { a: u8 = a };', 'type x = container { a: u64 = blen(a) };', 'type x = container { a: u64 = blen(b), b: u64 = blen(a) };',
                'type x = container { a: u64 = blen(b), b: container [a] { c: u8[..] } };', 'type x = container { a: u64 = blen(b), b: container [a] { y: x { a > 1 } } };',
                'type x = container { a: u64 = blen(b), b: container [a] { c: u64 = blen(d), d: container [c] { e: x[..] } } };', 'type x = container { a: u64 = len(b), b: x[a] };',
                'type x = container { a: u8, b: u8[a] { a > b[0] } };', 'type x = container { a: u8 { a > 1 } };', 'type x = container { a: x { a == a } };', 'type x = container { a: container { b: container { c: x[..] } } };']),
    ('messages', ['type x = container { a: x, b: u8[a] };', 'type x = container { a: x[..], b: u8 { a } };', 'type x = container { a: y, b: u8 = a }; type y = container { a: x[..] };',
                  'type x = container { a: x, b: u8 { a == 1 } };', 'type p(q: x) = u8; type x = container { a: p(1) };', 'type p(q: x) = u8; type x = container { a: x[..], b: p(a) };',
                  'type x = container { a: x[..], b: x[..] = a };', 'type x = container { a: x[..], b: u8 { a[0] == a[1] } };', 'type x = container { a: x[..], b: u8 = a[0] };', 'type x = container { a: x[..], b: u8 { a.c } };',
                  'type x = container { a: y[..], b: bool = a[0] :> bool }; type y = container { z: x[..] };', 'type x = container { a: x[..], b: u8 = true ? a : a };', 'type x = container { a: y, b: u8 { -a } }; type y = x[2];']),
]


def others(c, s, what, texts):
    for t in texts:
        judge(c, s, what, t, None)


def deep(c, s):
    """nesting and length that the parser lets through"""
    for n in (4, 10, 14):
        judge(c, s, 'nesting', 'const a: u8 = %s1%s;' % ('(' * n, ')' * n), 'ok', emit=False)
        judge(c, s, 'nesting', 'type x = %su8%s;' % ('container { a: ' * n, ' }' * n), 'ok')
        judge(c, s, 'nesting', 'type x = u8%s;' % ('[2]' * n), 'ok')
        judge(c, s, 'nesting', 'const a: u8 = 1%s;' % (' + 1' * n), 'ok', emit=False)
        judge(c, s, 'nesting', 'const a: bool = true%s;' % (' && true' * n), 'ok', emit=False)
        judge(c, s, 'nesting', 'type x = container { k: u8, a: u8 = %sk };' % ('k + ' * n), 'ok')
        judge(c, s, 'nesting', 'const b: bool = true; const a: u8 = %s;' % ('b ? ' * n + '1' + ' : 2' * n), 'ok', emit=False)


def termination(c):
    c.rule('compiling every description whose files, types, arguments, fields and values refer to each other in a small graph ends; '
           'a cycle of imports, of aliases or of array elements ends in an error and nothing without a cycle does')
    s = Sem(c)
    quick = c.tier != 'thorough'
    gs = list(import_graphs())
    # graphs that differ only in parts that are not reached count once
    seen, keep = set(), []
    for g in gs:
        r, work = {}, ['a']
        while work:
            n = work.pop()
            if n not in r:
                r[n] = g[n]
                work += list(g[n])
        k = tuple(sorted(r.items()))
        if k not in seen:
            seen.add(k)
            keep.append(g)
    if quick:
        keep = keep[::3] + [g for g in keep if sum(map(len, g.values())) <= 3]
    jobs = [('import graphs %d' % i, imports, s, keep[i::24]) for i in range(24)]
    two = list(itertools.product(list(bodies(2, True)), repeat=2))
    three = list(itertools.product(list(bodies(3, False)), repeat=3))
    if quick:
        three = [b for i, b in enumerate(three) if b[0][1] and b[1][1] and b[2][1]][::11]
    combos = [[b] for b in bodies(1, True)] + two + three
    jobs += [('type graphs %d' % i, types, s, combos[i::48]) for i in range(48)]
    jobs += [('cycles of ' + w, others, s, w, ts) for w, ts in OTHERS]
    jobs += [('import chains', import_chains, s), ('nesting', deep, s)]
    c.parallel(jobs)
    c.floor('imports', 100)
    c.floor('types', 300)
    c.floor('nesting', 18)


# ----------------------------------------------------------------- C27: types that contain themselves
def contains(bs):
    """which types can contain themselves"""
    g = {i: b[2] for i, b in enumerate(bs)}
    out = set()
    for i in g:
        seen, work = set(), list(g[i])
        while work:
            n = work.pop()
            if n not in seen:
                seen.add(n)
                work += list(g[n])
        if i in seen:
            out.add(i)
    return out


def marks(c, s, text, want, files=None, emit=True):
    """want: names of the declared types that contain themselves"""
    from ..items import parse as parse_items
    where = '`%s`%s' % (text, ''.join(' (with %s: `%s`)' % f for f in (files or {}).items()))
    try:
        r = s.one(text, files)
        if r is None or r[0] != 'ok':
            if r is None or r[0] == 'panic':
                c.undecided('self-containing: ' + where, str(r)[:100])
            return
        c.ob('type graph')
        for n, f in r[1]['types'].items():
            if bool(f['is_maybe_cyclical']) != (n in want):
                c.violation('cycle:%s' % ('missed' if n in want else 'spurious'),
                            'in %s the type %s %s' % (where, n, 'contains itself but is not marked' if n in want else 'does not contain itself but is marked as if it did'), s.fn.name)
                return
        if not emit:
            return
        e = s.emit(text, files, True)
        if not e or e[0] != 'code':
            c.undecided('emission: ' + where, str(e)[:100])
            return
        mods = [i for i in parse_items(e[1]) if i['kind'] == 'mod']
        for i in mods[0]['its']:
            if i['kind'] != 'impl' or i.get('trait'):
                continue
            fns = {f['name']: f for f in i['its'] if f['kind'] == 'fn'}
            ty = ''.join(str(i.get('ty') or i.get('name') or i.get('self')).split())
            for n in ('encode_async', 'decode_async'):
                if n not in fns:
                    continue
                c.ob('async coder')
                boxed = any('async_recursion' in a for a in fns[n]['attrs'])
                if boxed != (ty in want):
                    c.violation('cycle:coder:%s' % ('unboxed' if ty in want else 'boxed'), 'in %s, %s of %s is emitted %s async_recursion' % (where, n, ty, 'without' if ty in want else 'with'), s.fn.name)
                    return
    except Limit as x:
        c.violation('cycle:endless', 'the search for self-containing types does not end on %s: %s' % (where, x), s.fn.name)
    except (Undecided, KeyError, IndexError, TypeError, ValueError, AttributeError) as x:
        import os
        if os.environ.get('PSV_STRICT'):
            raise
        c.undecided('self-containing: ' + where, '%s %s' % (type(x).__name__, x))


def graphs(c, s, combos):
    for bs in combos:
        text = ' '.join('type t%d = %s;' % (i, b[0]) for i, b in enumerate(bs))
        marks(c, s, text, {'t%d' % i for i in contains(bs)})


def named(c, s):
    """types of the same name from different files"""
    f = {'f': 'type a = container { z: u8 };', 'g': 'type a = container { y: b[..] }; type b = container { z: u8 };', 'h': 'type a = container { y: a[..] };'}
    for t, w in (
            ('import a as b from "f"; type a = container { z: b };', ''), ('import a as b from "f"; type a = container { z: a[..] };', 'a'),
            ('import a as b from "f"; type x = container { p: b, q: a }; type a = container { r: x[..] };', 'ax'),
            ('type x = container { q: a, p: b }; type a = container { r: x[..] }; import a as b from "f";', 'ax'),
            ('type x = container { p: b, q: a }; type a = container { r: x[..] }; import a as b from "g";', 'ax'),
            ('import a as b from "h"; type a = container { r: u8[2] };', 'b'), ('import a as b from "h"; type a = container { r: b[2] };', 'b'),
            ('import a from "h"; type x = container { r: a };', 'a'), ('import a from "g"; type b = container { r: a };', '')):
        marks(c, s, t, set(w), f, emit=False)


def self_containing(c):
    c.rule('in every small graph of types, exactly the types from which containment (alias, element, field, nested container) leads back to the type '
           'are marked, and exactly their async coders are emitted as boxed recursive functions')
    s = Sem(c)
    quick = c.tier != 'thorough'
    two = list(itertools.product(list(bodies(2, True)), repeat=2))
    three = list(itertools.product(list(bodies(3, False)), repeat=3))
    if quick:
        three = three[::9]
    combos = [[b] for b in bodies(1, True)] + two + three
    c.parallel([('type graphs %d' % i, graphs, s, combos[i::48]) for i in range(48)] + [('names', named, s)])
    c.floor('type graph', 300)
    c.floor('async coder', 300)
