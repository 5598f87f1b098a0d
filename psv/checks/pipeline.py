"""C21: every fallible step between a description and the written file is examined on every path that reports success, and a
failure of the import resolver, of an imported text or of the formatter reaches the caller."""
from ..an import *
from ..sem import Sem, Undecided

TRACE = ('H', 'trace')


def events(st):
    """[(function, returned value, args)] of the calls into the operating system and into the other stages, in order"""
    return [(lit(e[3][0]), e[3][1], e[3][2:]) for _, e in st.store.get(TRACE, ('q', ()))[1]]


def lit(v):
    return v[1][0] if v[0] == 's' and len(v[1]) == 1 and isinstance(v[1][0], str) else None


def outside(info):
    """belongs to the operating system interface: its outcome is not decided by the program"""
    d, n = info['d'], info.get('n', info['d'])
    if info.get('crate') == 'std':
        return not d.startswith(('std::collections', 'std::hash', 'std::path'))
    if d.startswith(('std::io::BufWriter', 'std::io::LineWriter')) or 'BufWriter<' in n.split(' as ')[0]:
        return True
    return d.startswith(('std::io::Write::', 'std::io::Read::', 'std::io::BufRead::')) and not n.startswith(('<std::vec::Vec', '<&mut std::vec::Vec'))


def trace(c, fn, names, stages):
    """paths of `fn`: outside calls and the functions of `stages` have unknown outcomes and are recorded"""
    I_ = Interp(c.mir, {})

    def on_call(I_, st, info, args, rty, site):
        g = I_.m.fns.get(info.get('key'))
        stage = g is not None and g.local and any(g.d.endswith(x) for x in stages) and g is not fn
        if not stage and not outside(info):
            return None
        n = info.get('n', info['d'])
        tr = st.store.get(TRACE, ('q', ()))[1]
        if len(tr) > 60:
            raise Undecided('too many steps')
        ra = tuple(I_.resolve(st, a, 4) for a in args)
        v = ('A', '%s#%d' % (g.d if stage else n, len(tr)), rty)
        st.store[TRACE] = ('q', tr + (('1', ('v', None, 0, (('s', (g.d if stage else info['d'],)), v) + ra)),))
        if rty is not None and I_.T[rty]['k'] == 'tuple' and not I_.T[rty].get('args', I_.T[rty].get('e')):
            return [(st, UNIT)]
        return [(st, v)]
    I_.on_call = on_call
    outs = I_.run(fn, args_of(I_, fn, names[:fn.argc]), State())
    note(c, I_)
    return I_, outs


def subvalues(v):
    yield v
    if isinstance(v, (tuple, frozenset)):
        for x in v:
            yield from subvalues(x)


def mentions(v, atom):
    n = atom[1]
    return any(isinstance(x, str) and (x == n or x.startswith((n + '@', n + '.', n + '['))) for x in subvalues(v))


def is_result(I_, ty):
    if ty is None:
        return False
    t = I_.T[ty]
    return t['k'] == 'adt' and [x['n'] for x in t['v']] == ['Ok', 'Err']


def err_of(I_, ty):
    a = I_.T[ty].get('args') or []
    return str(I_.T[a[1]].get('n') or I_.T[a[1]].get('s') or '') if len(a) > 1 else ''


def variant(I_, st, v):
    """names of the variants a value can have on the path"""
    if v[0] == 'v' and v[1] is not None and v[2] is not None:
        return {I_.T[v[1]]['v'][v[2]]['n']}
    if v[0] == 'A':
        return allowed_variants(I_, st, v[1], v[2])
    return {'?'}


def checked(c, key, fn, I_, outs):
    """no path returns Ok although a step on it failed or was not examined; no failing step panics"""
    oks = []
    for st, v in outs:
        vs = variant(I_, st, v)
        if vs == {'Err'}:
            c.ob('%s:failure' % key)
            continue
        if vs != {'Ok'}:
            # the result of a step is returned as it is: its failure is the caller's failure
            if v[0] == 'A' and any(v == r for _, r, _ in events(st)):
                oks.append((st, v))
            else:
                c.undecided('outcome of %s' % fn.name, name_of(v)[:120])
                continue
        else:
            oks.append((st, v))
        ev = events(st)
        ran = False
        for d, r, args in ev:
            if r == v and vs != {'Ok'}:
                continue
            short_d = d.split('::')[-2] + '::' + d.split('::')[-1] if '::' in d else d
            if is_result(I_, r[2]):
                c.ob('%s:%s' % (key, short_d))
                if variant(I_, st, r) != {'Ok'}:
                    c.violation('%s:%s:ignored' % (key, short_d), '%s reports success on a path where the outcome of %s is not examined or is a failure' % (short(fn), short_d), fn.name)
            if d.endswith(('Command::spawn', 'Command::output', 'Command::status')):
                ran = True
            if d.endswith(('Write::write', 'Read::read')):
                c.ob('%s:partial' % key)
                if not any(mentions(k, r) and k != ('?', r[1]) for k in st.facts):
                    c.violation('%s:%s:partial' % (key, short_d), '%s reports success although %s may have handled only part of the data' % (short(fn), short_d), fn.name)
        if ran:
            c.ob('%s:status' % key)
            if not any(good_status(st, d, r) for d, r, _ in ev):
                c.violation('%s:status' % key, '%s reports success on a path where the exit status of the formatter was not found to be a success' % short(fn), fn.name)
    for f, b, why, st in I_.panics:
        bad = [d for d, r, _ in events(st) if is_result(I_, r[2]) and variant(I_, st, r) == {'Err'} and 'fmt::Error' not in err_of(I_, r[2])]
        if bad:
            c.violation('%s:panic' % key, '%s panics when %s fails instead of returning the error' % (short(fn), bad[-1]), fn.name)
    return oks


def short(fn):
    return fn.name.split('::')[-1]


def good_status(st, d, r):
    if d.endswith('ExitStatus::success'):
        f = st.facts.get(('?', r[1])) or st.facts.get(('b', r[1]))
        for k, w in st.facts.items():
            if mentions(k, r):
                f = w
        return f is not None and f[0] and set(f[1]) == {1}
    if d.endswith('ExitStatus::code'):
        zero = lambda x: x == I(0) or x[0] == 'v' and x[2] == 1 and x[3] == (I(0),)
        for k, w in st.facts.items():
            if k[0] == 'op' and k[1] in ('Eq', 'Ne') and mentions(k, r):
                if any(zero(x) for x in k[2:4]) and w == (True, frozenset({int(k[1] == 'Eq')})):
                    return True
            elif k != ('?', r[1]) and mentions(k, r) and w[0] and set(w[1]) == {0}:
                return True
        return False
    return False


def pipeline(c):
    c.rule('on every path of the compile driver that reports success, each outcome of the operating system and of the stages called '
           'on that path was examined and good, and what is written is what the formatter returned')
    m = c.mir

    def find(d):
        r = [f for f in m.fns.values() if f.local and (f.d == d or f.d.split('::')[1:] == [d])]
        if not r:
            raise KeyError('anchor ' + d)
        return r[0]
    fmt, spec = find('rustfmt'), find('compile_spec')
    # the formatter
    I_, outs = trace(c, fmt, ['input'], ())
    oks = checked(c, 'format', fmt, I_, outs)
    for st, v in oks:
        ev = events(st)
        c.ob('format:text')
        out = [r for d, r, _ in ev if d.endswith(('Child::wait_with_output', 'Command::output'))]
        if any('lossy' in str(x) for x in subvalues(I_.resolve(st, v, 8)) if isinstance(x, str)):
            c.violation('format:lossy', 'rustfmt replaces bytes of the formatter that are no text instead of failing', fmt.name)
        elif out and not any(mentions(I_.resolve(st, v, 8), r) for r in out):
            c.violation('format:text', 'rustfmt returns a text that is not what the formatter printed', fmt.name)
        w = [a for d, r, a in ev if d.endswith('Write::write_all')]
        c.ob('format:input')
        if w and not any(mentions(a, ('A', 'input')) or mentions(a, 'input') or 'input' in str(a) for a in w):
            c.violation('format:input', 'rustfmt does not hand its input to the formatter', fmt.name)
    if not oks:
        c.violation('format:never', 'rustfmt never succeeds', fmt.name)
    # the whole
    I_, outs = trace(c, spec, ['name', 'spec', 'options'], ('parser::parse', 'Program>::from_ast', 'compiler::compile_program', fmt.d))
    oks = checked(c, 'compile', spec, I_, outs)
    for st, v in oks:
        ev = events(st)
        res = lambda suffix: [r for d, r, _ in ev if d.endswith(suffix)]
        for stage in ('parser::parse', 'from_ast', 'compile_program'):
            c.ob('compile:' + stage)
            if len(res(stage)) != 1:
                c.violation('compile:stage:' + stage, 'compile_spec reports success on a path that runs %s %d times' % (stage, len(res(stage))), spec.name)
        sinks = [(d, a) for d, r, a in ev if d.endswith('fs::write')] or [(d, a) for d, r, a in ev if d.endswith('Write::write_all')]
        c.ob('compile:written')
        if not sinks:
            c.violation('compile:unwritten', 'compile_spec reports success on a path that writes no output', spec.name)
            continue
        if any('BufWriter' in d or 'LineWriter' in d for d, _, _ in ev) and not any(d.endswith(('::flush', '::into_inner')) for d, _, _ in ev):
            c.violation('compile:buffered', 'compile_spec reports success on a path where the buffered output was never flushed', spec.name)
        data = I_.resolve(st, sinks[-1][1][1], 8)
        f = formats(I_, st)
        c.ob('compile:content')
        fr = [r for d, r, _ in ev if d == fmt.d]
        src = res('compile_program')
        if f is None:
            c.undecided('whether the output is formatted')
        elif f:
            if not fr or not mentions(data, fr[0]):
                c.violation('compile:unformatted', 'compile_spec reports success with formatting requested, but writes something other than the formatted text', spec.name)
            elif src and not any(mentions(I_.resolve(st, x, 8), src[0]) for d, r, a in ev if d == fmt.d for x in a):
                c.violation('compile:formats', 'compile_spec formats something other than the compiled text', spec.name)
        elif src and not mentions(data, src[0]):
            c.violation('compile:content', 'compile_spec reports success but writes something other than the compiled text', spec.name)
        if res('parse') and res('from_ast'):
            a = [a for d, r, a in ev if d.endswith('from_ast')][0]
            c.ob('compile:flow')
            if not any(mentions(I_.resolve(st, x, 8), res('parse')[0]) for x in a):
                c.violation('compile:flow', 'compile_spec resolves something other than what was parsed', spec.name)
            a = [a for d, r, a in ev if d.endswith('compile_program')]
            if a and not any(mentions(I_.resolve(st, x, 8), res('from_ast')[0]) for x in a[0]):
                c.violation('compile:flow', 'compile_spec compiles something other than what was resolved', spec.name)
    if not oks:
        c.violation('compile:never', 'compile_spec never succeeds', spec.name)


def formats(I_, st):
    for k, w in st.facts.items():
        if 'format_output' in name_of(k) and len(w[1]) == 1:
            t = set(w[1]) == {1}
            return t if w[0] else not t
    return None


METHODS = ('normalize_import', 'resolve_import', 'resolve_ffi_type', 'resolve_ffi_transform', 'resolve_ffi_function', 'prelude_ffi_functions')
BODY = ' type x = container { y: u8, };'
SITES = [
    ('import', 'import a from "f";' + BODY, {'f': 'type a = u8;'}),
    ('import used', 'import a from "f"; type x = container { y: a, };', {'f': 'type a = u8;'}),
    ('two imports', 'import a from "f"; import b from "g";' + BODY, {'f': 'type a = u8;', 'g': 'type b = u8;'}),
    ('same import twice', 'import a from "f"; import b from "f";' + BODY, {'f': 'type a = u8; type b = u8;'}),
    ('nested import', 'import a from "f";' + BODY, {'f': 'import b from "g"; type a = b;', 'g': 'type b = u8;'}),
    ('import of nothing used', 'type x = u8; import a from "f";', {'f': 'import b from "g"; type a = u8;', 'g': 'type b = u8;'}),
    ('foreign type', 'import_ffi unknown as type;' + BODY, {}),
    ('foreign transform', 'import_ffi unknown as transform;' + BODY, {}),
    ('foreign function', 'import_ffi unknown as function;' + BODY, {}),
    ('foreign names in an import', 'import a from "f";' + BODY, {'f': 'import_ffi unknown as type; import_ffi unknown2 as transform; import_ffi unknown3 as function; type a = u8;'}),
]
BROKEN = [('no declaration', 'type'), ('unfinished', 'type a = container {'), ('an unknown type', 'type a = nowhere;'), ('an unknown name', 'type a = u8; type z = u8[nowhere];'),
          ('a name twice', 'type a = u8; type a = u8;'), ('a missing import', 'import q from "nowhere"; type a = u8;'), ('a wrong constant', 'type a = u8; const k: nowhere = 1;'),
          ('an unknown foreign type', 'import_ffi nowhere as type; type a = u8;')]


def resolver(c):
    c.rule('each use of the import resolver that fails, and each imported text that cannot be used, makes the resolution of the '
           'importing description an error')
    s = Sem(c)
    m = c.mir
    impl = {n: [f for f in m.fns.values() if f.local and 'NullImportResolver as ' in f.name and f.d.endswith('::' + n)] for n in METHODS}

    def attempt(what, text, files, hooks):
        s.extra = hooks
        try:
            r = s.run(text, files)
        except (Undecided, KeyError, IndexError, TypeError, ValueError, AttributeError) as x:
            c.undecided('failure of %s' % what, '%s %s' % (type(x).__name__, x))
            return None
        finally:
            s.extra = {}
        if r is None:
            return 'unparsed'
        if not r:
            return 'panic'
        st, I_, v = r[0]
        return variant(I_, st, v) == {'Ok'} and 'Ok' or (variant(I_, st, v) == {'Err'} and 'Err' or '?')

    # the k-th use of the resolver fails
    for what, text, files in SITES:
        for n in METHODS:
            for f in impl[n]:
                k = 0
                while True:
                    seen = [0]

                    def fail(I_, st, args, info, rty, site, k=k, n=n, seen=seen, f=f):
                        seen[0] += 1
                        if seen[0] - 1 == k:
                            return [(st, ('v', rty, 1, (I_.atom('failure', I_.T[rty]['args'][1]),)))]
                        if n == 'resolve_import':
                            t = files.get(lit(I_.strip(st, args[1])))
                            ot = I_.T[rty]['args'][0]
                            return [(st, ('v', rty, 0, (('v', ot, 1, (('s', (t,)),)) if t is not None else ('v', ot, 0, ()),)))]
                        if n.startswith('resolve_ffi'):
                            return [(st, ('v', rty, 0, (('v', I_.T[rty]['args'][0], 0, ()),)))]
                        return None
                    r = attempt('%s in %s' % (n, what), text, files, {f.name: fail})
                    if r is None or seen[0] <= k:
                        break
                    c.ob('resolver:%s:%s' % (n, what))
                    if r == 'Ok':
                        c.violation('resolver:%s:%s' % (n, what), 'use %d of %s fails while `%s` (imports %s) is resolved, and the caller is told of success' % (k + 1, n, text, files), s.fn.name)
                    elif r == 'panic':
                        c.violation('resolver:%s:%s:panic' % (n, what), 'use %d of %s fails while `%s` is resolved: panic in %s' % (k + 1, n, text, s.panics[0][0] if s.panics else '?'), s.fn.name)
                    elif r != 'Err':
                        c.undecided('failure of %s in %s' % (n, what), r)
                    k += 1
    # a text that cannot be used, at every place of the import tree
    for why, bad in BROKEN:
        for where, text, files in [
                ('the only import', 'import a from "f";' + BODY, {'f': bad}),
                ('the second import', 'import b from "g"; import a from "f";' + BODY, {'f': bad, 'g': 'type b = u8;'}),
                ('the first import', 'import a from "f"; import b from "g";' + BODY, {'f': bad, 'g': 'type b = u8;'}),
                ('an import of an import', 'import b from "g";' + BODY, {'f': bad, 'g': 'import a from "f"; type b = u8;'}),
                ('an import whose names are not used', 'import b from "g";' + BODY, {'f': bad, 'g': 'type b = u8; import z from "f";'}),
                ('the description itself', bad + BODY, {})]:
            r = attempt('%s in %s' % (why, where), text, files, {})
            if r is None:
                continue
            c.ob('broken:%s' % where)
            if r == 'Ok':
                c.violation('broken:%s:%s' % (where, why), '%s with %s: `%s` is accepted (imports %s)' % (where, why, text, files), s.fn.name)
            elif r == 'panic':
                c.violation('broken:%s:%s:panic' % (where, why), '%s with %s: panic in %s' % (where, why, s.panics[0][0] if s.panics else '?'), s.fn.name)
    # a text the tokenizer rejects
    p = s.p
    I_ = Interp(m, {})
    I_.unroll = 3000
    I_.hooks[p.lexfn.name] = lambda I_, st, args, info, rty, site: [(st, ('v', rty, 1, (I_.atom('failure', I_.T[rty]['args'][1]),)))]
    for st, v in I_.run(p.fn, [K(('s', ('x',)))], State()):
        c.ob('tokens')
        if variant(I_, st, v) != {'Err'}:
            c.violation('tokens', 'a text the tokenizer rejects is parsed', p.fn.name)
    for f, b, why, st in I_.panics:
        c.violation('tokens:panic', 'a text the tokenizer rejects makes %s panic' % f.name, p.fn.name)
    note(c, I_)
