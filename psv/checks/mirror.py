"""C33: the generated types mirror the description.

Front end and generator are interpreted on the text of a description; the items of the emitted token stream are compared with the types
that the analysed description declares: a public type for each, a public member for each part that carries data, with the type of the data,
and coders that take the declared parameters."""
from ..sem import Sem, Undecided, Node
from ..rustmini import lex_text
from .options import DESC, emitted, module, name, is_error, fns, fn_name, flat, item, split
from .compiles import DECL, OTHER, PLACES, KINDS, describe, descriptions

TEXTS = ('utf8', 'utf16')
VAR = {'v8': 'i8', 'v16': 'i16', 'v32': 'i32', 'v64': 'i64', 'v128': 'i128'}


def rust(t):
    """the type of the values of a declared type"""
    k = t.kind
    if k == 'Scalar':
        return t['0']['scalar'].kind.lower()
    if k in ('F32', 'F64', 'Bool'):
        return k.lower()
    if k == 'Array':
        return 'Vec<%s>' % rust(element(t['0']['element']))
    if k == 'Foreign':
        return foreign(t['0']['name'])
    if k == 'Ref':
        f = t['0']['target']
        return foreign(f['type_']['0']['name']) if f['type_'].kind == 'Foreign' else f['name']
    if k == 'Enum':
        return t['0']['name']
    raise Undecided('type ' + str(k))


def element(t):
    """elements that are another name of a number are numbers"""
    u = t
    while u.kind == 'Ref':
        f = u['0']['target']
        u = f['type_']
        if f['condition'] is not None:
            return t
    return u if u.kind in ('Scalar', 'F32', 'F64', 'Bool') else t


def foreign(n):
    if n in TEXTS:
        return 'String'
    if n in VAR:
        return VAR[n]
    raise Undecided('foreign type ' + n)


def members(items, optional=False):
    """(name, type) of the members of a container, in order; parts are spread"""
    for n, f in items.items():
        if f['is_pad']:
            continue
        o = optional or f['condition'] is not None
        if f['type_'].kind == 'Container':
            yield from members(f['type_']['0']['items'], o)
        else:
            r = rust(f['type_'])
            yield n, 'Option<%s>' % r if o else r


# --- the emitted side ---------------------------------------------------------------------------------------------------------------


def norm(toks):
    """text of a type without the path in front of its names"""
    out = []
    for t in toks:
        if t[0] == 'g':
            out.append(t[1] + norm(t[2]) + {'(': ')', '[': ']', '{': '}'}[t[1]])
        elif t[0] == 'p' and t[1] == '::':
            if out:
                out.pop()
        else:
            out.append(str(t[1]))
    s = ''.join(out)
    return s[:-1] if s.endswith(',') else s


def commas(toks):
    out, cur, d = [], [], 0
    for t in toks:
        if t[0] == 'p' and t[1] in ('<', '<<'):
            d += len(t[1])
        elif t[0] == 'p' and t[1] in ('>', '>>'):
            d -= len(t[1])
        if t[0] == 'p' and t[1] == ',' and d <= 0:
            out.append(cur)
            cur = []
        else:
            cur.append(t)
    return [x for x in out + [cur] if x]


def bare(toks):
    i = 0
    while i + 1 < len(toks) and toks[i][:2] == ('p', '#'):
        i += 2
    return toks[i:]


def declared(toks):
    """(public, name, type) of one member `pub name: type`"""
    toks = bare(toks)
    pub = toks[0][:2] == ('id', 'pub')
    toks = toks[1:] if pub else toks
    if pub and toks and toks[0][0] == 'g':
        pub, toks = False, toks[1:]
    i = next((i for i, t in enumerate(toks) if t[:2] == ('p', ':')), None)
    if i is None:
        raise Undecided('member ' + flat(toks)[:60])
    return pub, str(toks[i - 1][1]), norm(toks[i + 1:])


def plain_type(toks):
    toks = bare(toks)
    pub = bool(toks) and toks[0][:2] == ('id', 'pub')
    return pub, norm(toks[1:] if pub else toks)


def params(f):
    """(name, type) of the parameters of a function behind the first two"""
    g = next((t for t in f['toks'] if t[0] == 'g' and t[1] == '('), None)
    if g is None:
        raise Undecided('parameters')
    out = []
    for p in commas(g[2]):
        i = next((i for i, t in enumerate(p) if t[:2] == ('p', ':')), None)
        out.append((str(p[i - 1][1]), norm(p[i + 1:])) if i is not None else ('self', norm(p)))
    return out


def public(it):
    return it['toks'] and it['toks'][0][:2] == ('id', 'pub') and not (len(it['toks']) > 1 and it['toks'][1][0] == 'g')


def typed(c, key, desc, its, n, f):
    k = f['type_'].kind
    mine = [i for i in its if i['kw'] in ('struct', 'enum', 'type') and name(i) == n]
    c.check('type', len(mine) == 1, key + ':type:' + n, 'there are %d types %s in the code for `%s`' % (len(mine), n, desc))
    if len(mine) != 1:
        return
    it = mine[0]
    c.check('type', public(it), key + ':public:' + n, 'the type %s is not public, in the code for `%s`' % (n, desc))
    if k == 'Container' and not f['type_']['0']['is_enum']:
        want = list(members(f['type_']['0']['items']))
        got = [declared(m) for m in commas(it['body'] or [])]
        compare(c, key, desc, n, want, got, it['kw'] == 'struct')
    elif k == 'Container':
        c.check('member', it['kw'] == 'enum', key + ':kind:' + n, 'the tagged type %s is emitted as %s, for `%s`' % (n, it['kw'], desc))
        got = {}
        order = []
        for v in commas(it['body'] or []):
            v = bare(v)
            order.append(v[0][1])
            got[v[0][1]] = v[1] if len(v) > 1 and v[1][0] == 'g' else None
        want = f['type_']['0']['items']
        c.check('member', order == list(want), key + ':variants:' + n, '%s has the variants %s instead of %s, for `%s`' % (n, order, list(want), desc))
        for vn, vf in want.items():
            g = got.get(vn)
            if vn not in got:
                continue
            if vf['type_'].kind == 'Container':
                ms = [declared(m) for m in commas(g[2])] if g is not None and g[1] == '{' else None
                if ms is None:
                    c.check('member', False, '%s:variant:%s.%s' % (key, n, vn), 'variant %s of %s has no named members, for `%s`' % (vn, n, desc))
                else:
                    compare(c, key, desc, n + '::' + vn, list(members(vf['type_']['0']['items'])), ms, None)
            else:
                w = rust(vf['type_'])
                g = norm(g[2]) if g is not None and g[1] == '(' else None
                c.check('member', g == w, '%s:variant:%s.%s' % (key, n, vn), 'variant %s of %s holds %s instead of %s, for `%s`' % (vn, n, g, w, desc))
    elif k == 'Enum':
        c.check('member', it['kw'] == 'enum', key + ':kind:' + n, 'the enumeration %s is emitted as %s, for `%s`' % (n, it['kw'], desc))
        order = [bare(v)[0][1] for v in commas(it['body'] or [])]
        want = list(f['type_']['0']['items'])
        c.check('member', order == want, key + ':variants:' + n, '%s has the values %s instead of %s, for `%s`' % (n, order, want, desc))
    elif k != 'Bitfield':
        r = rust(f['type_'])
        r = 'Option<%s>' % r if f['condition'] is not None else r
        g = next((t for t in it['toks'] if t[0] == 'g' and t[1] == '('), None)
        got = [plain_type(x) for x in commas(g[2])] if g is not None else None
        c.check('member', got == [(True, r)], key + ':inner:' + n, '%s holds %s instead of a public %s, for `%s`' % (n, got, r, desc))


def compare(c, key, desc, n, want, got, pub):
    a, b = [x for x, _ in want], [x for _, x, _ in got]
    c.check('member', a == b, '%s:members:%s' % (key, n), '%s has the members %s instead of %s, for `%s`' % (n, b, a, desc))
    if a != b:
        return
    for (x, w), (p, _, g) in zip(want, got):
        c.check('member', w == g, '%s:member:%s.%s' % (key, n, x), 'member %s of %s is a %s instead of a %s, for `%s`' % (x, n, g, w, desc))
        if pub:
            c.check('member', p, '%s:public:%s.%s' % (key, n, x), 'member %s of %s is not public, for `%s`' % (x, n, desc))


def coded(c, key, desc, its, n, f, modes):
    want = []
    for a in f['arguments']:
        r = rust(a['type_'])
        want.append((a['name'], 'Option<%s>' % r if a['default_value'] is not None else r))
    fs = [g for i in its if i['kw'] == 'impl' and i['body'] is not None and [x[1] for x in lex_text(i['key']) if x[0] == 'id'] == ['impl', n] for g in fns(i)]
    for m in modes:
        for d in ('decode', 'encode'):
            mine = [g for g in fs if fn_name(g) == d + m]
            c.check('coder', len(mine) == 1, '%s:%s:%s%s' % (key, n, d, m), '%s has %d functions %s%s, for `%s`' % (n, len(mine), d, m, desc))
            if len(mine) != 1:
                continue
            g = mine[0]
            c.check('coder', public(g), '%s:%s:%s%s:public' % (key, n, d, m), '%s%s of %s is not public, for `%s`' % (d, m, n, desc))
            ps = params(g)
            first = ps[:1] if d == 'decode' else ps[:2]
            rest = ps[1:] if d == 'decode' else ps[2:]
            ok = len(first) == (1 if d == 'decode' else 2) and (d == 'decode' or first[0] == ('self', '&self'))
            c.check('coder', ok and rest == want, '%s:%s:%s%s:parameters' % (key, n, d, m), '%s%s of %s takes %s instead of %s, for `%s`' % (d, m, n, rest, want, desc))


def one(c, sem, key, text, a):
    r = sem.one(describe(text))
    if r is None or r[0] != 'ok':
        return c.ob('rejected description')
    e = emitted(sem, text, is_async=a, derives=('Debug', 'Clone'))
    if e is None or e[0] != 'ok':
        return c.undecided(key, 'no code')
    its = [i for i in module(e[1]) if not is_error(i)]
    types = r[1]['types']
    own = {n: f for n, f in types.items() if f['type_'].kind != 'Foreign'}
    for n, f in own.items():
        typed(c, key, text, its, n, f)
        coded(c, key, text, its, n, f, ('_sync', '_async') if a else ('_sync',))
    extra = [name(i) for i in its if i['kw'] in ('struct', 'enum') and name(i) not in own]
    c.check('type', not extra, key + ':extra', 'the code for `%s` has the types %s that are not declared' % (text, extra))


def some(c, sem, jobs):
    sem.c = c
    for key, text, a in jobs:
        c.part(key, one, c, sem, key, text, a)


ARGS = {
    'every parameter': 'type P(%s) = container { z: u8 };' % ', '.join('p%d: %s' % (i, t) for i, t in enumerate(['u8', 'i16', 'u32', 'i64le', 'bool', 'f32', 'u128', 'u8[4]'])),
    'defaults': 'type P(a: u8, b: u16 ? 3, c: i32 ? -1 :> i32, d: bool ? true) = container { z: u8[a] };',
    'default of scalar type': 'type P(a: u8, b: u16 ? 3) = u8[a];',
}


def mirror(c):
    c.rule('for each accepted description the items that the interpreted generator emits are the types that the analysed description declares: one public type each, '
           'one public member of the right type for each part with data, one encoder and one decoder with the declared parameters.')
    sem = Sem(c)
    jobs = [('mirror:' + k, t, k in DESC) for k, t in list(DESC.items()) + list(ARGS.items())]
    ds = list(descriptions(c.tier == 'thorough'))
    jobs += [('mirror:' + k, t, False) for i, (k, t) in enumerate(ds) if not k.startswith('value of ') and (c.tier == 'thorough' or len(ds) < 900 or i % 2 == 0)]
    n = min(len(jobs), 48)
    c.parallel([('part %d' % i, some, sem, jobs[i::n]) for i in range(n)])
    for k in ('type', 'member', 'coder'):
        c.floor(k, 100)
