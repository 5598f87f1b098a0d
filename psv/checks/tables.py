"""C16: built-in scalar tables, derived from the variant names alone."""
import re
from ..an import *


def scalar_variants(m):
    return [v['n'] for v in m.types[m.adt('ast::types::scalar::ScalarType')]['v']]


def width(n):
    return int(re.sub(r'\D', '', n))


def fmt_table(c, fn, name, ty):
    """Display of an enum: variant name -> set of printed texts"""
    st = State()
    st.store[('H', 'f')] = S()
    I_ = Interp(c.mir, {})
    I_.merge_returns = False
    outs = I_.run(fn, [I_.atom(name, fn.locals[1]), ('r', ('H', 'f'), ())], st)
    note(c, I_)
    res = {}
    for s, v in outs:
        p = s.store[('H', 'f')]
        for n in allowed_variants(I_, s, name, ty):
            res.setdefault(n, set()).add(name_of(('s', p[1]))[1:-1])
    return res


def enum_fn(c, fn, name, ty):
    """enum-valued argument -> {variant: set of canonical results}"""
    I_, outs = run(c, fn, [name])
    res = {}
    for s, v in outs:
        for n in allowed_variants(I_, s, name, ty):
            res.setdefault(n, set()).add(name_of(v))
    return res


def scalars(c):
    m = c.mir
    c.rule('For every integer type, each table entry (size, sign, printed name, byte-order flag, literal parser, '
           'keyword, emitted type name) must equal the one its type name states; tables are extracted by abstract '
           'interpretation partitioned over all variants.')
    st_ty = m.adt('ast::types::scalar::ScalarType')
    vs = scalar_variants(m)
    if {v.upper() for v in vs} != {s + str(w) for s in 'UI' for w in (8, 16, 32, 64, 128)}:
        c.violation('ScalarType:variants', 'the integer types are not the ten documented ones: %s' % vs)
        return
    size = enum_fn(c, m.fn('ScalarType::size'), 'a', st_ty)
    signed = enum_fn(c, m.fn('ScalarType::is_signed'), 'a', st_ty)
    disp = fmt_table(c, impl_method(m, 'Display', 'ScalarType', 'fmt'), 'a', st_ty)
    for v in vs:
        c.check('size', size.get(v) == {str(width(v) // 8)}, 'ScalarType::size/' + v,
                'size of %s is %s, not %d' % (v, size.get(v), width(v) // 8))
        c.check('sign', signed.get(v) == {'1' if v[0] == 'I' else '0'}, 'ScalarType::is_signed/' + v,
                'signedness of %s is %s' % (v, signed.get(v)))
        c.check('name', disp.get(v) == {v.lower()}, 'ScalarType::Display/' + v,
                '%s prints as %s' % (v, disp.get(v)))
        c.sample('%s: size %s signed %s prints %s' % (v, size.get(v), signed.get(v), disp.get(v)))
    en_ty = m.adt('ast::types::scalar::Endian')
    ed = fmt_table(c, impl_method(m, 'Display', 'Endian', 'fmt'), 'a', en_ty)
    c.check('endian name', ed == {'Big': {''}, 'Little': {'le'}}, 'Endian::Display', 'byte orders print as %s' % ed)
    # printed name of a type with byte order is the keyword: scalar then order suffix
    fn = impl_method(m, 'Display', 'EndianScalarType', 'fmt')
    st = State()
    st.store[('H', 'f')] = S()
    I_ = Interp(m, {})
    I_.merge_returns = False
    for s, v in I_.run(fn, [I_.atom('a', fn.locals[1]), ('r', ('H', 'f'), ())], st):
        got = name_of(('s', s.store[('H', 'f')][1]))[1:-1]
        sc = allowed_variants(I_, s, 'a.scalar', st_ty)
        en = allowed_variants(I_, s, 'a.endian', en_ty)
        for x in sc:
            for y in en:
                want = (x.lower(), '{a.scalar}'), ('le' if y == 'Little' else '', '{a.endian}')
                c.check('typed name', got in {p + q for p in want[0] for q in want[1]},
                        'EndianScalarType::Display/%s/%s' % (x, y), 'prints as %s' % got)
    note(c, I_)
    fn = m.fn('EndianScalarType::is_little_endian')
    I_, outs = run(c, fn, ['a'])
    t = {}
    for s, v in outs:
        for y in allowed_variants(I_, s, 'a.endian', en_ty):
            t.setdefault(y, set()).add(name_of(v))
    c.check('byte order flag', t == {'Big': {'0'}, 'Little': {'1'}}, 'EndianScalarType::is_little_endian',
            'byte order flag table is %s' % t)
    # conversions between the plain and the byte-ordered type
    for fn in [f for f in m.fns.values() if f.local and 'scalar::' in f.name and 'Into<' in f.name and f.name.endswith('>::into')
               or f.local and 'scalar::' in f.name and 'From<' in f.name and f.name.endswith('>::from') and 'ScalarType' in f.name]:
        I_, outs = run(c, fn, ['a'])
        for s, v in outs:
            got = name_of(v)
            src = fn.locals[1]
            plain = m.types[src]['n'].endswith('::ScalarType')
            c.check('conversion', got in (['v0[a,v0[]]'] if plain else ['a.scalar']), 'into/' + short(fn.name.split(' as ')[0]),
                    'conversion yields %s' % got)
    # keyword -> type
    fn = m.fn('parser::types::scalar::parse_scalar_type')
    tok_ty = m.adt('tokenizer::Token')
    table = token_table(c, fn, tok_ty, st_ty, en_ty)
    for v in vs:
        for y in ('Big', 'Little'):
            if v.endswith('8') and width(v) == 8 and y == 'Little':
                continue
            want = v.lower() + ('le' if y == 'Little' else '')
            toks = {k for k, r in table.items() if r == {(v, y)}}
            ks = token_texts(c, tok_ty)
            ok = len(toks) == 1 and {ks.get(k) for k in toks} == {want}
            c.check('keyword', ok, 'keyword/%s/%s' % (v, y), 'the type %s/%s is read from %s (printed %s)'
                    % (v, y, sorted(toks), [ks.get(k) for k in toks]))
    extra = {k: r for k, r in table.items() if len(r) != 1}
    c.check('keyword function', not extra, 'keyword/ambiguous', 'ambiguous keyword table: %s' % extra)
    # emitted type names
    fn = m.fn('compiler::emit_type_ref')
    I_, outs = run(c, fn, ['t'])
    ty_ty = m.adt('asg::types::Type')
    em = {}
    for s, v in outs:
        for n in allowed_variants(I_, s, 't', ty_ty):
            if n == 'Scalar':
                for x in allowed_variants(I_, s, 't@Scalar.0.scalar', st_ty):
                    em.setdefault(n + '/' + x, set()).add(tokstr(v))
            else:
                em.setdefault(n, set()).add(tokstr(v))
    for x in vs:
        c.check('emitted type', em.get('Scalar/' + x, set()) <= {'{t@Scalar.0.scalar}', x.lower()} and em.get('Scalar/' + x),
                'emit_type_ref/' + x, '%s is emitted as %s' % (x, em.get('Scalar/' + x)))
    for n, w in (('Bool', 'bool'), ('F32', 'f32'), ('F64', 'f64')):
        c.check('emitted type', em.get(n) == {w}, 'emit_type_ref/' + n, '%s is emitted as %s' % (n, em.get(n)))
    # literal parsing
    fn = m.fn('ConstInt::parse')
    I_, outs = run(c, fn, ['t', 'text', 'span'])
    ci_ty = m.adt('const_int::ConstInt')
    seen = {}
    for s, v in outs:
        if v[0] == 'v' and v[2] == 0:
            ts = allowed_variants(I_, s, 't', st_ty)
            x = v[3][0]
            if x[0] == 'v' and x[1] == ci_ty:
                var = I_.T[ci_ty]['v'][x[2]]['n']
                payload = name_of(x[3][0])
                hexa = any(k[:2] == ('op', 'pred') and 'starts_with' in str(k) and f == (True, frozenset([1]))
                           for k, f in s.facts.items() if isinstance(k, tuple))
                for t_ in ts:
                    seen.setdefault((t_, hexa), set()).add((var, payload))
                    c.check('literal', var == t_, 'ConstInt::parse/%s' % t_, 'a literal of type %s becomes %s' % (t_, var))
                    c.check('literal value', x[3][0][0] == 'A', 'ConstInt::parse/value/%s' % t_,
                            'a literal of type %s is altered after parsing: %s' % (t_, payload))
                    if hexa:
                        c.check('hex radix', ',16)' in payload.replace(' ', '') and 'text' in payload, 'ConstInt::parse/radix/' + t_,
                                'hexadecimal literal of type %s is parsed as %s' % (t_, payload))
            else:
                c.check('literal', False, 'ConstInt::parse/?', 'unrecognised literal result %s' % name_of(x)[:120])
    for v in vs:
        for hexa in (False, True):
            c.check('literal coverage', (v, hexa) in seen, 'ConstInt::parse/%s/%s' % (v, 'hex' if hexa else 'dec'),
                    'literals of type %s (%s) have no successful path' % (v, 'hex' if hexa else 'dec'))
    c.floor('size', 10)
    c.floor('keyword', 18)


_TT = {}


def token_texts(c, tok_ty):
    """token variant -> printed text (trimmed), for tokens without payload"""
    if id(c) not in _TT:
        fn = impl_method(c.mir, 'Display', 'Token', 'fmt')
        t = fmt_table(c, fn, 'tok', tok_ty)
        _TT[id(c)] = {k: next(iter(v)).strip() for k, v in t.items() if len(v) == 1}
    return _TT[id(c)]


def token_table(c, fn, tok_ty, st_ty, en_ty):
    """token -> set of (scalar, byte order) that the scalar parser yields for it"""
    from .grammar import TokHooks
    I_, outs = TokHooks(c).analyse(fn)
    res = {}
    for s, ev, v in outs:
        if v[0] != 'v' or v[2] != 1:
            continue
        toks = [e for e in ev if e[0] == 'tok']
        if len(toks) != 1:
            continue
        r = v[3][0]
        sc, en = r[3][0], r[3][1]
        scs = {I_.T[st_ty]['v'][sc[2]]['n']} if sc[0] == 'v' else None
        ens = {I_.T[en_ty]['v'][en[2]]['n']} if en[0] == 'v' else None
        for t in [toks[0][1]]:
            if scs is None or ens is None:
                res.setdefault(t, set()).add(('?' + name_of(r), '?'))
            else:
                for x in scs:
                    for y in ens:
                        res.setdefault(t, set()).add((x, y))
    return res
