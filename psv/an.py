"""Helpers shared by the checks: canonical rendering and fact queries."""
from .interp import Interp, State, I, S, K, UNIT, fact_meet
from . import hooks as H


def fact_allowed(st, key, universe):
    f = st.facts.get(key)
    if f is None:
        return set(universe)
    pos, vals = f
    return set(vals) & set(universe) if pos else set(universe) - set(vals)


def variants(I_, ty):
    """[(index, name)] of the enum type index `ty`"""
    return [(i, v['n']) for i, v in enumerate(I_.T[ty]['v'])]


def allowed_variants(I_, st, name, ty):
    vs = variants(I_, ty)
    f = st.facts.get(('?', name))
    idx = {i for i, _ in vs}
    if f is not None:
        pos, vals = f
        idx = (set(vals) & idx) if pos else (idx - set(vals))
    return {n for i, n in vs if i in idx}


def name_of(x):
    if x == ():
        return ""
    """canonical text of an atom name / symbolic value"""
    if isinstance(x, str):
        return x
    if isinstance(x, int):
        return str(x)
    if x is None:
        return ''
    if isinstance(x, tuple):
        if not x:
            return '()'
        k = x[0]
        if len(x) == 1:
            return name_of(k)
        if k == 'A':
            return name_of(x[1])
        if k == 'i':
            return str(x[1])
        if k == 's':
            return '"' + ''.join(p if isinstance(p, str) else '{' + name_of(p) + '}' for p in x[1]) + '"'
        if k in ('disp', 'dbg') and len(x) == 2:
            return name_of(x[1])
        if k == 'op':
            return '%s(%s)' % (x[1], ','.join(name_of(y) for y in x[2:] if not isinstance(y, int) and y is not None))
        if k == 'rec':
            return 'rec:%s(%s)' % (short(x[1]), ','.join(name_of(y) for y in x[2]))
        if k == 'call':
            return '%s(%s)' % (short(x[1]), ','.join(name_of(y) for y in x[2]))
        if k == 'x':
            return '⟨%s:%s⟩' % (x[1], name_of(x[2]))
        if k == 'b':
            return name_of(x[1])
        if k == 'r':
            if x[1][0] == 'K':
                return name_of(x[1][1])
            return '&' + '/'.join(name_of(y) for y in x[1:])
        if k == 'v':
            return 'v%s[%s]' % (x[2], ','.join(name_of(y) for y in x[3]))
        if k in ('q', 'T', 'm', 'it'):
            return '[' + ';'.join(name_of(y) for y in x[1]) + ']'
        if k == '1':
            return name_of(x[1])
        if k == '*':
            return '*%s{%s}' % (name_of(x[1]), '|'.join(sorted(';'.join(name_of(y) for y in ys) for g, ys in x[2])))
        return '(' + ' '.join(name_of(y) for y in x) + ')'
    if isinstance(x, frozenset):
        return '{' + ','.join(sorted(name_of(y) for y in x)) + '}'
    return str(x)


def short(n):
    """last meaningful path segments of a def path, generics dropped"""
    out, depth = [], 0
    i = 0
    while i < len(n):
        c = n[i]
        if c == '<':
            depth += 1
        elif c == '>' and (i == 0 or n[i - 1] != '-'):
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    s = ''.join(out).strip(':')
    return s.rsplit('::', 1)[-1] if s else n[-60:]


def rtok(items):
    """canonical list of token strings of a token stream; groups are nested lists [delim, [...]]"""
    out = []
    for it in items:
        if it[0] == '1':
            t = it[1]
            k = t[0]
            if k == 'id':
                out.append(''.join(p if isinstance(p, str) else '{' + name_of(p) + '}' for p in t[1]))
            elif k == 'p':
                out.append(t[1])
            elif k == 'g':
                out.append([t[1], rtok(t[2])])
            elif k == 'num':
                out.append('#' + name_of(t[1]))
            elif k == 'lit':
                out.append('lit:' + name_of(t[1]))
            elif k == 'tt':
                out.append('#' + name_of(t[1]))
            else:
                out.append('?' + name_of(t))
        elif it[0] == '*':
            out.append(['*', name_of(it[1]), sorted((rtok(ys) for g, ys in it[2]), key=repr)])
        elif it[0] == 'rec':
            out.append('rec:' + short(it[1]))
        else:
            out.append('?' + repr(it)[:80])
    return out


def flat(toks):
    """one string"""
    s = []
    for t in toks:
        if isinstance(t, str):
            s.append(t)
        elif t[0] == '*':
            s.append('*%s{%s}' % (t[1], ' | '.join(flat(x) for x in t[2])))
        else:
            cl = {'(': ')', '[': ']', '{': '}'}.get(t[0], '')
            s.append(t[0] + flat(t[1]) + cl)
    return ' '.join(s)


def tokstr(v):
    return flat(rtok(v[1])) if v[0] == 'T' else '#' + name_of(v)


def fns_def(m, suffix, local=True):
    """all local instances of the function with this def path suffix"""
    c = [f for f in m.fns.values() if f.d == suffix or f.d.endswith('::' + suffix)]
    if not c:
        raise KeyError('anchor function %r: no instance' % suffix)
    return c


def fnd(m, suffix):
    return sorted(fns_def(m, suffix), key=lambda f: f.name)[0]


def impl_method(m, trait, selfty, method):
    """the local method implementing `trait` for the type whose path ends with `selfty`"""
    r = []
    for f in m.fns.values():
        n = f.name
        if f.local and n.startswith('<') and n.endswith('>::' + method) and ' as ' in n:
            st, tr = n[1:-len('>::' + method)].split(' as ', 1)
            if (st == selfty or st.endswith('::' + selfty)) and tr.split('<')[0].endswith('::' + trait):
                r.append(f)
    if not r:
        raise KeyError('anchor impl %s for %s::%s: no match' % (trait, selfty, method))
    return r[0]


def args_of(I_, fn, names):
    return [I_.atom(n, fn.locals[i + 1]) for i, n in enumerate(names)]


def run(c, fn, names, hooks=None, merge=False, st=None, args=None, setup=None, rec=None):
    """analyse one function on symbolic arguments named `names` -> (I_, outcomes)"""
    m = c.mir
    hk = {m.fn('ContainerType::flatten_view').name: H.flatten_view}
    hk.update(hooks or {})
    I_ = Interp(m, hk)
    I_.merge_returns = merge
    if rec:
        I_.rec_hook = rec
    if setup:
        setup(I_)
    a = args if args is not None else args_of(I_, fn, names)
    outs = I_.run(fn, a, st or State())
    note(c, I_)
    return I_, outs


DIVERGE = ('panic', 'unwrap_failed', 'expect_failed', 'slice_error_fail')


def note(c, I_):
    for k in I_.analysed:
        f = I_.m.fns.get(k)
        if f is not None and f.local:
            c.analysed.add(f.name[:160])
    for n, k in I_.unknown.items():
        if not any(d in n for d in DIVERGE):
            c.unknown = getattr(c, 'unknown', {})
            c.unknown[n] = c.unknown.get(n, 0) + k
