"""C12: emitted expressions.  C13: constant evaluation."""
from ..an import *
from ..rustmini import parse_expr, strip, sx, prec, RErr

BIN = {'Lt': '<', 'Gt': '>', 'Lte': '<=', 'Gte': '>=', 'Eq': '==', 'Ne': '!=', 'Or': '||', 'And': '&&', 'BitOr': '|',
       'BitAnd': '&', 'BitXor': '^', 'Shr': '>>', 'Shl': '<<', 'ShrSigned': '>>', 'Add': '+', 'Sub': '-', 'Mul': '*',
       'Div': '/', 'Mod': '%'}
CASTX = (('1', ('id', ('x',))), ('1', ('id', ('as',))))
UN = {'Negate': '-', 'Not': '!', 'BitNot': '!'}


def E(n):
    return '{rec:emit_expression(%s,r)}' % n


def get_type_hook(c):
    m = c.mir
    fn = impl_method(m, 'AsgExpression', 'Expression', 'get_type')

    def h(I_, st, args, info, rty, site):
        return [(st, I_.atom('typeof(%s)' % name_of(I_.resolve(st, args[0], 3)), rty))]
    rs = m.fn('asg::types::Type::resolved')

    def r(I_, st, args, info, rty, site):
        n = name_of(I_.resolve(st, args[0], 3))
        return [(st, ('v', rty, 0, (('r', ('M', 'resolved(%s)' % n, m.adt('asg::types::Type')), ()),)))]
    return {fn.name: h, rs.name: r}


def resolved_rule(c):
    """Type::resolved is the identity except that references are followed"""
    m = c.mir
    fn = m.fn('asg::types::Type::resolved')
    ty = m.adt('asg::types::Type')
    I_, outs = run(c, fn, ['t'])
    for s, v in outs:
        for k in allowed_variants(I_, s, 't', ty):
            n = name_of(v)
            c.check('alias', v[0] == 'v' and (v[2] == 0 and n.startswith('v0[&(M t ') if k != 'Ref' else 'rec:resolved(t@Ref.0.target.type_)' in n),
                    'resolved/' + k, 'the type behind %s is computed as %s' % (k, n[:100]))


def emission(c):
    c.rule('for every expression form, operator and operand type the emitted Rust, parsed with Rust\'s own precedences, is the '
           'same operation on the same operands in the same order; and every operand position binds at least as loosely as '
           'every form that can stand in it')
    m = c.mir
    fn = fnd(m, 'expr::emit_expression')
    ex_ty = m.adt('asg::expression::Expression')
    bop, uop, sc = m.adt('ast::expression::binary::BinaryOp') , m.adt('ast::expression::unary::UnaryOp'), m.adt('ast::types::scalar::ScalarType')
    ty_ty = m.adt('asg::types::Type')
    resolved_rule(c)
    I_, outs = run(c, fn, ['e', 'r'], hooks=get_type_hook(c))
    got = {}
    forms = []
    for s, v in outs:
        for n in allowed_variants(I_, s, 'e', ex_ty):
            if v[0] == 'T':
                try:
                    e, holes = parse_expr(v[1])
                    t = sx(strip(e))
                except RErr as x:
                    t, e, holes = 'unparsable: ' + tokstr(v), None, []
            else:
                t, e, holes = name_of(v), None, []
            keys = [n]
            if n == 'Binary':
                keys = ['Binary/' + k for k in allowed_variants(I_, s, 'e@Binary.0.op', bop)]
            elif n == 'Unary':
                keys = ['Unary/' + k for k in allowed_variants(I_, s, 'e@Unary.0.op', uop)]
            elif n == 'Int':
                keys = ['Int/' + k for k in allowed_variants(I_, s, 'e@Int.0.value', m.adt('const_int::ConstInt'))]
            elif n == 'Cast':
                keys = ['Cast/' + cast_key(I_, s, ty_ty)]
            for k in keys:
                got.setdefault(k, set()).add(t)
                forms.append((k, e, holes))
    I2, o2 = run(c, m.fn('compiler::emit_type_ref'), ['e@Cast.0.type_'])
    targets = set()
    for s, v in o2:
        try:
            targets.add(sx(strip(parse_expr(CASTX + (tuple(v[1]) if v[0] == 'T' else (('1', ('tt', v)),)))[0]))[len('(as (path x) '):-1])
        except RErr:
            c.check('type reference', False, 'emit_type_ref/parse', 'a type is referred to as %s' % tokstr(v))
    want = {}
    for k, o in BIN.items():
        want['Binary/' + k] = '(bin %s %s %s)' % (o, E('e@Binary.0.left'), E('e@Binary.0.right'))
    want['Binary/Elvis'] = '(mcall %s unwrap_or [%s] )' % (E('e@Binary.0.left'), E('e@Binary.0.right'))
    for k, o in UN.items():
        want['Unary/' + k] = '(un %s %s)' % (o, E('e@Unary.0.inner'))
    want['Member'] = '(mcall %s {(to_snake e@Member.0.member.name)} [] )' % E('e@Member.0.target')
    want['Ternary'] = '(if %s [(expr %s)] [(expr %s)])' % tuple(E('e@Ternary.0.' + k) for k in ('condition', 'if_true', 'if_false'))
    want['Bool'] = '{e@Bool.0}'
    want['Str'] = '(lit (bytes e@Str.0.content))'
    want['InputRef'] = '(path {e@InputRef.0.name})'
    want['ConstRef'] = E('e@ConstRef.0.value')
    want['EnumAccess'] = '(path {e@EnumAccess.0.enum_field.name}::{e@EnumAccess.0.variant.name})'
    want['ArrayIndex'] = '(index %s (as %s usize))' % (E('e@ArrayIndex.0.array'), E('e@ArrayIndex.0.index'))
    for k in [v['n'] for v in m.types[bop]['v']]:
        if 'Binary/' + k not in want:
            c.check('operator known', False, 'operator/' + k, 'operator %s has no specified meaning' % k)
    flag = '(path {e@EnumAccess.0.enum_field.name}::{(to_uppercase "{(to_snake e@EnumAccess.0.variant.name)}")})'
    for k, w in sorted(want.items()):
        g = got.pop(k, set())
        if k == 'EnumAccess' and w in g:
            g = g - {flag}      # the constant of a flag
        c.check('form', g == {w}, 'emit/' + k, '%s is emitted as %s, meaning of the form is %s' % (k, sorted(g) or 'nothing', w))
    for k in [v['n'] for v in m.types[m.adt('const_int::ConstInt')]['v']]:
        g = got.pop('Int/' + k, set())
        c.check('form', len(g) == 1 and next(iter(g)).startswith('(num e@Int.0.value@%s.0 ' % k), 'emit/Int/' + k,
                'an integer literal of type %s is emitted as %s' % (k, sorted(g)))
    g = got.pop('FieldRef', set())
    c.check('form', len(g) == 1 and all('e@FieldRef.0' in x and x.startswith('indirect:') for x in g), 'emit/FieldRef',
            'a field reference is emitted as %s, not through the field resolver' % sorted(g))
    g = got.pop('Call', set())
    c.check('form', len(g) == 1 and all(call_ok(x) for x in g), 'emit/Call', 'a function call is emitted as %s' % sorted(g)[:2])
    for k in sorted(got):
        if k.startswith('Cast/'):
            for t in got[k]:
                c.check('cast', cast_ok(k[5:], t, targets), 'emit/' + k, 'a cast (%s) is emitted as %s' % (k[5:], t))
        else:
            c.check('form', False, 'emit/' + k, 'unspecified form %s emitted as %s' % (k, sorted(got[k])[:2]))
    c.floor('cast', 6)
    # grouping
    lo = {}
    for k, e, holes in forms:
        if e is not None and e[0] != 'hole':
            lo.setdefault(k, set()).add(prec(e))
    req = {}
    for k, e, holes in forms:
        for n, p, a in holes:
            if n.startswith('rec:emit_expression(') and p:
                req.setdefault((k, n), set()).add(p)
    for k, ps in sorted(lo.items()):
        for (pk, n), rs in sorted(req.items()):
            c.check('grouping', min(ps) >= max(rs), 'grouping/%s in %s' % (k, pk),
                    'an operand of the form %s regroups inside %s (%s)' % (k, pk, n))
    c.ob('grouping', len(forms))
    c.sample({'forms': sorted(want)[:6]})


def call_ok(t):
    return t.startswith('call(e@Call.0.function.inner,') and 'rec:emit_expression(e@Call.0.arguments[],r)' in t


def cast_key(I_, s, ty):
    k = {x if x in ('Enum', 'Bitfield') else 'plain' for x in allowed_variants(I_, s, 'resolved(typeof(e@Cast.0.inner)@Some.0)', ty)}
    return '|'.join(sorted(k))


def cast_ok(k, t, targets):
    inner = E('e@Cast.0.inner')
    for mode, x in (('plain', inner), ('Enum', '(mcall %s to_repr [] )' % inner), ('Bitfield', '(field %s 0)' % inner)):
        if t.startswith('(as %s ' % x):
            tgt = t[len('(as %s ' % x):-1]
            vec = tgt.startswith('Vec <') and 'e@Cast.0.type_@Array.0.element' in tgt and tgt.count('emit_type_ref') == 1
            return (tgt in targets or vec) and (k == mode or k == 'untyped' and mode == 'plain')
    return False


OPS = {'BitOr': 'BitOr', 'BitAnd': 'BitAnd', 'BitXor': 'BitXor', 'Shr': 'Shr', 'Shl': 'Shl', 'ShrSigned': 'Shr', 'Add': 'Add',
       'Sub': 'Sub', 'Mul': 'Mul', 'Div': 'Div', 'Mod': 'Rem'}
CHECKED = {'checked_add': 'Add', 'checked_sub': 'Sub', 'checked_mul': 'Mul', 'checked_div': 'Div', 'checked_rem': 'Rem',
           'checked_shl': 'Shl', 'checked_shr': 'Shr', 'checked_neg': 'Neg'}
COMM = ('Add', 'Mul', 'BitOr', 'BitAnd', 'BitXor', 'Eq')


def sym(v):
    """normal form of a scalar result: checked forms read as the operation, lossless conversions dropped"""
    if v[0] == 'i':
        return str(v[1])
    if v[0] == 'op':
        n = v[1]
        xs = [sym(x) if isinstance(x, tuple) else str(x) for x in v[2:]]
        if n == 'fld' and xs[1:] == ['Some', '0'] or n == 'fld' and xs[1:] == ['Ok', '0']:
            for k, o in CHECKED.items():
                if xs[0].startswith(k + '('):
                    return o + xs[0][len(k):]
            if xs[0].startswith('try_into(') or xs[0].startswith('try_from('):
                return xs[0][9:-1]
        return '%s(%s)' % (n, ','.join(xs))
    if v[0] == 'A':
        return symname(v[1])
    return name_of(v)


def symname(n):
    if isinstance(n, str):
        return n
    if isinstance(n, tuple):
        if n[0] == 'call':
            return '%s(%s)' % (short(n[1]), ','.join(sym(x) for x in n[2]))
        if n[0] == 'rec':
            return name_of(('A', n, None)).replace('rec:', '', 1)
        if n[0] == 'fld':
            b = symname(n[1]) if not (isinstance(n[1], tuple) and n[1] and n[1][0] in ('A', 'op', 'v', 'i')) else sym(n[1])
            tail = tuple(str(x).strip() for x in n[2:])
            if tail in (('Some', '0'), ('Ok', '0')):
                for k, o in CHECKED.items():
                    if b.startswith(k + '('):
                        return o + b[len(k):]
                if b.startswith('try_into(') or b.startswith('try_from('):
                    return b[9:-1]
            return '%s.%s' % (b, '.'.join(tail))
    return name_of(('A', n, None))


def evalref(n):
    return 'eval_const_expression(%s).Some.0' % n


def consteval(c):
    c.rule('the evaluator, inlined down to primitive integer operations, yields for every operator and integer type the operation '
           'the operator denotes on (left, right), in that type; values exist only when both operands have that type; no '
           'operation that can overflow, divide by zero or shift too far runs unchecked')
    m = c.mir
    fn = fnd(m, 'expr::eval_const_expression')
    ex = m.adt('asg::expression::Expression')
    bop, uop = m.adt('ast::expression::binary::BinaryOp'), m.adt('ast::expression::unary::UnaryOp')
    ci, cv, st_ty = m.adt('const_int::ConstInt'), m.adt('expr::ConstValue'), m.adt('ast::types::scalar::ScalarType')
    ints = [v['n'] for v in m.types[ci]['v']]
    I_, outs = run(c, fn, ['e'])
    res = {}
    for s, v in outs:
        for n in allowed_variants(I_, s, 'e', ex):
            ks = [n]
            if n == 'Binary':
                ks = ['Binary/' + x for x in allowed_variants(I_, s, 'e@Binary.0.op', bop)]
            elif n == 'Unary':
                ks = ['Unary/' + x for x in allowed_variants(I_, s, 'e@Unary.0.op', uop)]
            for k in ks:
                res.setdefault(k, []).append((s, v))

    def value(v):
        """('none',) | ('int', width, text) | ('bool', text) | ('other', text)"""
        if v[0] == 'v' and v[2] == 0 and I_.T[v[1]]['n'].startswith('std::option::Option'):
            return ('none',)
        if v[0] == 'v' and v[2] == 1:
            x = v[3][0]
            if x[0] == 'v' and x[1] == cv:
                k = I_.T[cv]['v'][x[2]]['n']
                y = x[3][0]
                if k == 'Int' and y[0] == 'v' and y[1] == ci:
                    return ('int', ints[y[2]], sym(y[3][0]))
                return (k.lower(), sym(y))
            return ('other', sym(x))
        return ('other', sym(v))
    L, R = evalref('e@Binary.0.left'), evalref('e@Binary.0.right')
    for k, o in sorted(OPS.items()):
        got = {}
        for s, v in res.get('Binary/' + k, []):
            x = value(v)
            if x[0] == 'int':
                got.setdefault(x[1], set()).add(x[2])
            elif x[0] != 'none':
                c.check('operation', False, 'eval/%s/other' % k, 'operator %s evaluates to %s' % (k, x))
        for w in ints:
            a, b = '%s.Int.0.%s.0' % (L, w), '%s.Int.0.%s.0' % (R, w)
            ok = {'%s(%s,%s)' % (o, a, b)}
            if o in COMM:
                ok.add('%s(%s,%s)' % (o, b, a))
            c.check('operation', bool(got.get(w)) and got[w] <= ok, 'eval/%s/%s' % (k, w),
                    'operator %s on %s evaluates to %s, expected %s' % (k, w, sorted(got.get(w, ['nothing'])), sorted(ok)[0]))
    cmp_ = {'Lt': 'Lt(%s,%s)' % (L, R), 'Gt': 'Lt(%s,%s)' % (R, L), 'Lte': 'Not(Lt(%s,%s))' % (R, L), 'Gte': 'Not(Lt(%s,%s))' % (L, R),
            'Eq': 'Eq(%s,%s)' % (L, R), 'Ne': 'Not(Eq(%s,%s))' % (L, R)}
    alt = {'Eq': 'Eq(%s,%s)' % (R, L), 'Ne': 'Not(Eq(%s,%s))' % (R, L)}
    for k, w in cmp_.items():
        got = {value(v) for s, v in res.get('Binary/' + k, [])} - {('none',)}
        c.check('comparison', len(got) == 1 and got <= {('bool', w), ('bool', alt.get(k))}, 'eval/' + k,
                'comparison %s evaluates to %s, expected %s' % (k, sorted(got), w))
    for k, dec in (('And', 0), ('Or', 1)):
        lb, rb = L + '.Bool.0', R + '.Bool.0'
        good = True
        got = set()
        for s, v in res.get('Binary/' + k, []):
            x = value(v)
            if x == ('none',):
                continue
            got.add(x)
            lf = bool_fact(I_, s, lb)
            if x == ('bool', str(dec)):
                good &= lf == dec
            elif x == ('bool', rb):
                good &= lf == 1 - dec
            else:
                good &= x[0] == 'bool' and x[1] in ('%s(%s,%s)' % ('BitAnd' if k == 'And' else 'BitOr', p, q) for p, q in ((lb, rb), (rb, lb)))
        c.check('logic', good and got, 'eval/' + k, 'operator %s evaluates to %s' % (k, sorted(got)))
    got = {value(v) for s, v in res.get('Binary/Elvis', [])}
    c.check('logic', got <= {('none',)}, 'eval/Elvis', 'operator ?: has a constant value %s' % sorted(got))
    # unary
    X = evalref('e@Unary.0.inner')
    for k, o in (('Negate', 'Neg'), ('BitNot', 'Not')):
        got = {}
        for s, v in res.get('Unary/' + k, []):
            x = value(v)
            if x[0] == 'int':
                got.setdefault(x[1], set()).add(x[2])
            elif x[0] != 'none':
                c.check('operation', False, 'eval/%s/other' % k, 'operator %s evaluates to %s' % (k, x))
        for w in ints:
            ok = '%s(%s.Int.0.%s.0)' % (o, X, w)
            g = got.get(w, set())
            if k == 'Negate' and w[0] == 'U' and not g:
                continue
            c.check('operation', g == {ok}, 'eval/%s/%s' % (k, w), 'operator %s on %s evaluates to %s' % (k, w, sorted(g)))
    got = {value(v) for s, v in res.get('Unary/Not', [])} - {('none',)}
    c.check('logic', got == {('bool', 'Not(%s.Bool.0)' % X)}, 'eval/Not', 'operator ! evaluates to %s' % sorted(got))
    # casts
    Y = evalref('e@Cast.0.inner')
    ty_ty = m.adt('asg::types::Type')
    seen = {}
    for s, v in res.get('Cast', []):
        x = value(v)
        if x[0] == 'int':
            for t in allowed_variants(I_, s, 'e@Cast.0.type_@Scalar.0.scalar', st_ty):
                seen.setdefault(t, set()).add((x[1], x[2], frozenset(ints[i] for i in intfact(s, Y + '.Int.0', sym))))
    for t in ints:
        g = seen.get(t, set())
        c.check('cast', {w for w, _, _ in g} == {t}, 'cast/' + t, 'a cast to %s yields %s' % (t, sorted({w for w, _, _ in g})))
        for f in ints:
            a = '%s.Int.0.%s.0' % (Y, f)
            forms = {tx for w, tx, fr in g if a in tx}
            ok = {'as(%s,%s)' % (a, t.lower()), a} if lossless(f, t) else {'as(%s,%s)' % (a, t.lower())}
            c.check('cast', forms and forms <= ok, 'cast/%s->%s' % (f, t), 'a cast from %s to %s computes %s' % (f, t, sorted(forms)))
    # leaves
    leaf = {'Bool': {('bool', 'e@Bool.0')}, 'Int': {('int*', 'e@Int.0.value')}, 'Str': {('string', 'e@Str.0.content')},
            'ConstRef': {('other', 'eval_const_expression(e@ConstRef.0.value)')},
            'EnumAccess': {('other', 'eval_const_expression(e@EnumAccess.0.variant.value)')}}
    for k, w in leaf.items():
        got = set()
        for s, v in res.get(k, []):
            x = value(v)
            got.add(('int*', x[1]) if x[0] == 'int' and len(x) == 2 else x)
        c.check('leaf', got == w, 'eval/' + k, 'constant %s evaluates to %s' % (k, sorted(map(str, got))))
    for s, v in res.get('Ternary', []):
        x = value(v)
        if x == ('none',):
            continue
        f = bool_fact(I_, s, evalref('e@Ternary.0.condition') + '.Bool.0')
        want = {1: evalref('e@Ternary.0.if_true'), 0: evalref('e@Ternary.0.if_false')}.get(f)
        c.check('choice', x == ('other', want), 'eval/Ternary', 'a conditional whose condition is %s evaluates to %s' % (f, x))
    c.floor('choice', 2)
    for k in ('InputRef', 'FieldRef', 'Call', 'ArrayIndex'):
        got = {value(v) for s, v in res.get(k, [])}
        c.check('leaf', got <= {('none',)}, 'eval/' + k, '%s has a constant value: %s' % (k, sorted(got)))
    for a in I_.asserts:
        c.check('unchecked arithmetic', False, 'assert/%s' % (a[0] if isinstance(a, tuple) else a,), 'unchecked operation in the evaluator: %s' % (str(a)[:200],))
    c.ob('unchecked arithmetic')
    # ordering of values
    po = impl_method(m, 'PartialOrd', 'ConstInt', 'partial_cmp')
    I2, o2 = run(c, po, ['a', 'b'])
    got = {}
    for s, v in o2:
        n = name_of(v)
        for w in ints:
            if 'a@%s.0' % w in n:
                got.setdefault(w, set()).add(n)
    for w in ints:
        g = got.get(w, set())
        c.check('ordering', g and all(n.index('a@%s.0' % w) < n.index('b@%s.0' % w) for n in g if 'b@%s.0' % w in n), 'order/' + w,
                'values of type %s are ordered by %s' % (w, sorted(g)[:3]))


def lossless(f, t):
    fw, tw = int(f[1:]), int(t[1:])
    return f == t or (f[0] == t[0] and tw >= fw) or (f[0] == 'U' and t[0] == 'I' and tw > fw)


def bool_fact(I_, s, name):
    for k, f in s.facts.items():
        n = None
        if isinstance(k, tuple) and k[0] == '?':
            n = k[1] if isinstance(k[1], str) else symname(k[1])
        elif isinstance(k, tuple):
            try:
                n = symname(k)
            except Exception:
                n = None
        if n == name and len(f[1]) == 1:
            x = next(iter(f[1]))
            return x if f[0] else 1 - x
    return None


def intfact(s, name, sym_):
    return []


# ------------------------------------------------------------------ panics inside expressions
ARITH = ('+', '-', '*', '/', '%', '<<', '>>')
PANICS = ('unwrap', 'expect', 'sum', 'product')


def expr_panics(c):
    """operations of emitted expressions that panic for some operand values (C09, C10)"""
    c.rule('no emitted expression form uses an operation that panics for some operand values')
    m = c.mir
    fn = fnd(m, 'expr::emit_expression')
    ex_ty = m.adt('asg::expression::Expression')
    I_, outs = run(c, fn, ['e', 'r'], hooks=get_type_hook(c))
    for s, v in outs:
        if v[0] != 'T':
            continue
        try:
            e, holes = parse_expr(v[1])
        except RErr as x:
            c.undecided('expression form', x)
            continue
        for n in allowed_variants(I_, s, 'e', ex_ty):
            c.ob('expression forms')
            for k in panicking(strip(e)):
                c.violation('expr:%s' % k, 'the form %s is emitted with `%s`, which panics for some operand values' % (n, k.split(':')[-1]))
    for f in m.fns.values():
        if f.local and f.d.endswith('ForeignFunction>::call'):
            I_, outs = run(c, f, ['self', 'args'])
            for s, v in outs:
                try:
                    e, holes = parse_expr(v[1] if v[0] == 'T' else (('1', ('tt', v)),))
                except RErr as x:
                    c.undecided(f.d, x)
                    continue
                c.ob('built-in functions')
                nm = f.d.split(' as ')[0].split('::')[-1]
                for k in panicking(strip(e)):
                    c.violation('fn:%s:%s' % (nm, k), 'the call of %s is emitted with `%s`, which panics for some argument values' % (nm, k.split(':')[-1]))


def panicking(e):
    """panicking operations of an expression tree"""
    if isinstance(e, tuple):
        if len(e) == 4 and e[0] == 'bin' and e[1] == '-' and remainder(e[2], e[3]):
            yield from panicking(e[3])
            return
        if len(e) == 4 and e[0] == 'bin' and e[1] in ARITH and not (nonzero(e[3]) and e[1] in '/%'):
            yield 'arith:' + e[1]
        elif len(e) == 3 and e[0] == 'un' and e[1] == '-' and not (e[2][0] in ('lit', 'num')):
            yield 'arith:neg'
        elif e and e[0] == 'index':
            yield 'index'
        elif e and e[0] == 'mcall' and e[2] in PANICS:
            yield 'call:' + e[2]
        elif e and e[0] == 'macro' and e[1] in ('panic', 'unreachable', 'todo', 'unimplemented', 'assert'):
            yield 'call:' + e[1]
        for x in e:
            yield from panicking(x)
    elif isinstance(e, list):
        for x in e:
            yield from panicking(x)


def nonzero(e):
    return e[0] == 'lit' and e[1] not in ('0',)


def remainder(a, b):
    """a - (x % a) never underflows"""
    while b[0] == 'paren':
        b = b[1]
    return b[0] == 'bin' and b[1] == '%' and b[3] == a
