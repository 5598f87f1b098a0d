"""C31: every option of the compiler changes what it names and nothing else.

The compiler of descriptions is interpreted for the same description under different options, and the emitted token streams are compared
with one another (what the stream has to be is the matter of the other checks). `compile_spec` is interpreted with unknown options to see
which of them reaches which option of the generator."""
from ..sem import Sem, Undecided
from ..concrete import Render, quote
from ..rustmini import lex_text, text
from .. import typecheck
from ..an import *
from .compiles import DECL, describe
from .pipeline import trace, events, mentions

MARK = '{ ? }'


class Lenient(Render):
    """the text of a message of which parts are unknown"""

    def part(self, p):
        try:
            return super().part(p)
        except Undecided:
            return MARK


def emitted(sem, text_, **opts):
    r = sem.emit(describe(text_), **opts)
    if r is None:
        return None
    if r[0] != 'code':
        return r
    I_, st = sem.last
    if r[1][0] != 'T':
        raise Undecided('emitted value')
    return ('ok', Lenient(I_, st).text(r[1][1]))


def flat(toks):
    return text(toks)


def split(toks):
    """items: [(attributes, head text, key, tokens)]"""
    out, cur = [], []
    for t in toks:
        cur.append(t)
        words = [x[1] for x in cur if x[0] == 'id']
        use = bool(words) and (words[0] == 'use' or words[:2] == ['pub', 'use'])
        if t[0] == 'p' and t[1] == ';' or t[0] == 'g' and t[1] == '{' and not use:
            out.append(cur)
            cur = []
    if cur:
        out.append(cur)
    return [item(x) for x in out if not (len(x) == 1 and x[0][1] == ';')]


def item(toks):
    at, i = [], 0
    while i + 1 < len(toks) and toks[i][0] == 'p' and toks[i][1] == '#' and toks[i + 1][0] == 'g':
        at.append(toks[i + 1][2])
        i += 2
    head, body = [], None
    for t in toks[i:]:
        if t[0] == 'g' and t[1] == '{':
            body = t[2]
            break
        if t[0] == 'p' and t[1] in ('=', ':') and any(x[0] == 'id' and x[1] in ('const', 'type', 'static') for x in head):
            break
        if t[0] == 'g' and head and head[-1][0] == 'id':
            break
        head.append(t)
    ws = [x for x in head if not (x[0] == 'id' and x[1] in ('pub', 'async', 'unsafe'))]
    key = flat(ws)
    kw = ws[0][1] if ws else ''
    return dict(attrs=at, key=key, kw=kw, toks=toks[i:], body=body)


def name(it):
    """the type that an item defines"""
    ids = [x[1] for x in lex_text(it['key']) if x[0] == 'id']
    return ids[1] if len(ids) > 1 else it['key']


def module(src):
    """the items of the emitted code: those of the modules it nests, in order"""
    def go(toks):
        for it in split(toks):
            if it['kw'] == 'mod' and it['body'] is not None:
                yield from go(it['body'])
            else:
                yield it
    return list(go(lex_text(src)))


def derives(it):
    """the derived traits of an item"""
    out = []
    for a in it['attrs']:
        if a and a[0] == ('id', 'derive'):
            for g in a[1:]:
                if g[0] == 'g':
                    out += [x for x in flat(g[2]).replace(' ', '').split(',') if x]
    return out


def others(it):
    return [flat(a) for a in it['attrs'] if not (a and a[0] == ('id', 'derive'))]


def prints(toks):
    """the tokens without the statements that print"""
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t[0] == 'id' and t[1] in ('println', 'eprintln', 'print', 'eprint') and i + 2 < len(toks) and toks[i + 1][:2] == ('p', '!') and toks[i + 2][0] == 'g':
            i += 3
            if i < len(toks) and toks[i][:2] == ('p', ';'):
                i += 1
            continue
        out.append(('g', t[1], prints(t[2])) if t[0] == 'g' else t)
        i += 1
    return out


def count(toks):
    return sum(1 if t[0] == 'id' and t[1] in ('println', 'eprintln', 'print', 'eprint') else count(t[2]) if t[0] == 'g' else 0 for t in toks)


def words(toks):
    for t in toks:
        if t[0] == 'g':
            yield from words(t[2])
        elif t[0] == 'id':
            yield t[1]


ERRORS = ('Result', 'DecodeError', 'EncodeError', 'encode_error', 'decode_error', 'Error')


def is_error(it):
    ids = [x[1] for x in lex_text(it['key']) if x[0] == 'id']
    if it['kw'] == 'use':
        return 'error' in ids
    if it['kw'] == 'impl':
        return ids[-1:] and ids[-1] in ERRORS
    return it['kw'] in ('type', 'struct', 'fn', 'enum') and len(ids) > 1 and ids[1] in ERRORS


DESC = {
    'scalars': 'type T = container { a: u8, b: i16le, c: f32, d: bool };',
    'alias': 'type T = u16;',
    'alias array': 'type T = u8[4];',
    'alias text': 'type T = utf8;',
    'alias struct': DECL['S'] + 'type T = S;',
    'alias optional': 'type T = u16 { true };',
    'alias enum': DECL['E'] + 'type T = E;',
    'empty': 'type T = container { };',
    'enum': DECL['E'] + 'type T = container { e: E };',
    'open enum': DECL['G'] + 'type T = container { e: G };',
    'bitfield': DECL['B'] + 'type T = container { b: B };',
    'tagged': DECL['U'] + 'type T = container { u: U };',
    'tagged with parameter': 'type Q(n: u8) = container +tagged_enum { One: container { x: u8, .pad: 1 } {n == 1}, Two: u8 {n == 2} }; type T = container { n: u8, q: Q(n) };',
    'nested': 'type T = container { n: u8, p: container { x: u8, y: u16 {x == 1} } {n == 1} };',
    'sized': 'type T = container { n: u8, p: container [n] { x: u8[..] } };',
    'transform': 'type T = container { n: u8, x: u8[..] -> gzip {n == 1} };',
    'computed': 'type T = container { l: u8 = blen(p) :> u8, p: container [4] { x: u8 } };',
    'recursive': 'type T = container { n: u8, x: T[n] };',
    'recursive optional': 'type T = container { n: u8, x: T[1] {n == 1} };',
    'mutually recursive': 'type M = container { a: u8, t: T[a] }; type T = container { b: u8, r: M[b] };',
    'parameters': DECL['P'] + 'type T(k: u8 ? 3) = container { p: P(k) };',
    'text': 'type T = container { n: u8, s: utf8(n), v: v32 };',
    'array': 'type T = container { n: u8, a: u16[n], b: u32[..] };',
    'terminated': 'type T = container { a: u8[.."end"], b: u8 };',
    'all': DECL['E'] + DECL['B'] + DECL['S'] + DECL['U'] + 'type A = u8[4]; type T = container { e: E, b: B, s: S, u: U };',
}
# what each kind of type derives whatever is asked for
ALWAYS = {'Clone', 'Copy', 'Default'}


def body_of(its):
    """everything but the derived traits and the implementations of `Default`"""
    return [(it['key'], others(it), flat(it['toks'])) for it in its if not is_default(it)]


def is_default(it):
    return it['kw'] == 'impl' and it['key'].replace(' ', '').startswith('implDefaultfor')


def same(c, kind, key, a, b, what, desc):
    """two lists of items, compared in order"""
    ka, kb = [x[0] for x in a], [x[0] for x in b]
    if ka != kb:
        d = [x for x in kb if x not in ka] + [x for x in ka if x not in kb]
        return c.check(kind, False, key, '%s also changes which items are emitted for `%s`: %s' % (what, desc, ', '.join(d)[:160]))
    d = [(x, y) for x, y in zip(a, b) if x != y]
    at = ''
    if d:
        p, q = d[0][0][2].split(), d[0][1][2].split()
        i = next((i for i, (x, y) in enumerate(zip(p, q)) if x != y), min(len(p), len(q)))
        at = '%s: `%s` becomes `%s`' % (d[0][0][0], ' '.join(p[max(i - 3, 0):i + 6]), ' '.join(q[max(i - 3, 0):i + 6]))
    c.check(kind, not d, key, '%s also changes %s, for `%s`' % (what, at[:240], desc))


class Emit:
    def __init__(self, c, sem, key, desc):
        self.c, self.sem, self.key, self.desc = c, sem, key, desc
        self.got = {}

    def __call__(self, **o):
        k = tuple(sorted(o.items()))
        if k not in self.got:
            r = emitted(self.sem, self.desc, **o)
            if r is None:
                raise Undecided('the description is rejected')
            if r[0] != 'ok':
                if r[0] == 'panic':
                    self.c.check('emission', False, self.key + ':' + str(k), 'with %s the generator panics in %s for `%s`' % (o, r[1], self.desc))
                raise Undecided(str(r)[:100])
            self.got[k] = (module(r[1]), r[1])
        return self.got[k]


REQUESTS = [
    (('Debug',), ('Clone',)),
    (('Clone', 'PartialEq'), ('Debug', 'Eq')),
    (('Default',), ()),
    ((), ('Default',)),
    (('Zed', 'Alpha', 'Default', 'Zed'), ('Mid', 'Default', 'Beta', 'Mid')),
    (('Copy', 'Clone', 'Default'), ('Copy', 'Clone', 'Default')),
    (('Default', 'Debug'), ('Debug', 'Hash')),
    (('Debug', 'Hash'), ('Default', 'Debug')),
]


def kind_of(it):
    return 'enum' if it['kw'] == 'enum' else 'struct'


def derived(c, emit, key, desc):
    base = body_of(emit()[0])
    for st, en in REQUESTS:
        its = emit(derives=st, enums=en)[0]
        k = '%s:%s/%s' % (key, '+'.join(st), '+'.join(en))
        impl = {}
        for it in its:
            if is_default(it):
                n = [x[1] for x in lex_text(it['key']) if x[0] == 'id'][-1]
                impl[n] = impl.get(n, 0) + 1
        for it in its:
            if it['kw'] not in ('struct', 'enum') or is_error(it):
                continue
            n, d = name(it), derives(it)
            want = set(en if it['kw'] == 'enum' else st)
            has = set(d) | ({'Default'} if impl.get(n) else set())
            c.check('derive', not (want - has), k + ':missing:' + n, 'with the derives %s of %ss, %s of `%s` does not get %s' % (sorted(want), kind_of(it), n, desc, sorted(want - has)))
            more = has - want - (ALWAYS if it['kw'] == 'struct' else ALWAYS - {'Default'})
            c.check('derive', not more, k + ':extra:' + n, 'with the derives %s of %ss, %s of `%s` gets %s' % (sorted(want), kind_of(it), n, desc, sorted(more)))
            twice = len(d) + impl.get(n, 0) - len(has)
            c.check('derive', not twice, k + ':twice:' + n, 'with the derives %s of %ss, %s of `%s` gets a trait twice: %s' % (sorted(want), kind_of(it), n, desc, d))
        same(c, 'derive only', k, base, body_of(its), 'choosing derived traits', desc)


def fns(it):
    return split(it['body']) if it['body'] is not None else []


def fn_name(f):
    ids = [x[1] for x in lex_text(f['key']) if x[0] == 'id']
    return ids[1] if len(ids) > 1 else ''


def is_async(f):
    return 'async' in [x[1] for x in f['toks'][:4] if x[0] == 'id']


def asynchronous(c, emit, key, desc):
    off, on = emit(), emit(is_async=True)
    left = sorted(w for w in set(words(lex_text(off[1]))) if w in ('tokio', 'async', 'await', 'async_recursion', 'async_compression'))
    c.check('async off', not left, key + ':off', 'without asynchronous coders the code for `%s` still names %s' % (desc, left))
    ioff, ion = off[0], on[0]
    impls = [it for it in ion if it['kw'] == 'impl']
    coded = 0
    for it in impls:
        fs = fns(it)
        sync = {fn_name(f) for f in fs if not is_async(f) and fn_name(f).endswith('_sync')}
        a = {fn_name(f) for f in fs if is_async(f)}
        if not sync and not a:
            continue
        coded += 1
        want = {x[:-5] + '_async' for x in sync}
        c.check('async on', want == a, key + ':' + it['key'], 'with asynchronous coders `%s` has %s beside %s, for `%s`' % (it['key'], sorted(a), sorted(sync), desc))
    c.check('async on', coded > 0, key + ':none', 'with asynchronous coders no type of `%s` has any coder' % desc)

    def rest(its):
        out = []
        for it in its:
            if it['kw'] == 'impl' and it['body'] is not None and any(is_async(f) for f in fns(it)):
                out.append((it['key'], others(it), ' '.join(flat(f['toks']) for f in fns(it) if not is_async(f))))
            elif it['kw'] == 'impl' and it['body'] is not None and fns(it):
                out.append((it['key'], others(it), ' '.join(flat(f['toks']) for f in fns(it))))
            else:
                out.append((it['key'], others(it), flat(it['toks'])))
        return out
    same(c, 'async only', key + ':only', rest(ioff), rest(ion), 'asking for asynchronous coders', desc)
    same(c, 'async only', key + ':derives', [(i['key'], '', ','.join(derives(i))) for i in ioff], [(i['key'], '', ','.join(derives(i))) for i in ion], 'asking for asynchronous coders', desc)


def anyhow(c, emit, key, desc, a):
    off, on = emit(is_async=a), emit(is_async=a, anyhow=True)
    same(c, 'anyhow only', key + ':only', body_of([i for i in off[0] if not is_error(i)]), body_of([i for i in on[0] if not is_error(i)]), 'asking for anyhow', desc)
    r = [i for i in on[0] if i['kw'] == 'type' and name(i) == 'Result']
    c.check('anyhow on', len(r) == 1 and 'anyhow' in set(words(r[0]['toks'])), key + ':result', 'with anyhow the result of the coders of `%s` is %s' % (desc, [flat(x['toks']) for x in r]))
    c.check('anyhow off', 'anyhow' not in set(words(lex_text(off[1]))), key + ':off', 'without anyhow the code for `%s` names anyhow' % desc)
    r = [i for i in off[0] if i['kw'] == 'type' and name(i) == 'Result']
    c.check('anyhow off', len(r) == 1, key + ':box', 'without anyhow there are %d result types, for `%s`' % (len(r), desc))


def debugging(c, emit, key, desc, a):
    off, on = emit(is_async=a), emit(is_async=a, debug=True)
    c.check('debug off', count(lex_text(off[1])) == 0, key + ':off', 'without the debug mode the coders of `%s` print' % desc)
    # the printed texts must not ask for arguments that are not there
    c.check('debug on', count(lex_text(on[1])) > 0 or 'empty' in key, key + ':on', 'in debug mode the coders of `%s` print nothing' % desc)
    for it in on[0]:
        for f in fns(it) if it['kw'] == 'impl' else ():
            if fn_name(f).startswith('decode_') and f['body'] is not None and not is_error(it):
                c.check('debug on', count(f['body']) > 0, '%s:%s:%s' % (key, it['key'], fn_name(f)), 'in debug mode %s of `%s` prints nothing, for `%s`' % (fn_name(f), it['key'], desc))
    dry = [dict(i, toks=prints(i['toks'])) for i in on[0]]
    same(c, 'debug only', key + ':only', body_of(off[0]), body_of(dry), 'the debug mode', desc)


def checked(c, emit, args, key, desc):
    std = ('Debug', 'Clone', 'PartialEq')
    fine = {a: not typecheck.errors(args, emit(derives=std, is_async=a)[1]) for a in (False, True)}
    for o in (dict(anyhow=True, is_async=False), dict(anyhow=True, is_async=True), dict(debug=True, is_async=False), dict(debug=True, is_async=True)):
        o = dict(o, derives=std)
        if not fine[o['is_async']]:
            # not a matter of the options
            c.ob('not accepted with any option')
            continue
        src = emit(**o)[1]
        es = typecheck.errors(args, src)
        k = ':'.join(sorted(x for x in o if x != 'derives' and o[x]))
        c.check('type check', not es, '%s:%s' % (key, k), 'with %s the code emitted for `%s` is not accepted: %s' % (k, desc, '; '.join(es[:2])[:240]))


def one(c, sem, args, key, desc):
    emit = Emit(c, sem, 'options:' + key, desc)
    c.part('options:derive:' + key, derived, c, emit, 'options:derive:' + key, desc)
    c.part('options:async:' + key, asynchronous, c, emit, 'options:async:' + key, desc)
    for a in (False, True):
        s = ':async' if a else ''
        c.part('options:anyhow:' + key + s, anyhow, c, emit, 'options:anyhow:' + key + s, desc, a)
        c.part('options:debug:' + key + s, debugging, c, emit, 'options:debug:' + key + s, desc, a)
    c.part('options:types:' + key, checked, c, emit, args, 'options:types:' + key, desc)


def some(c, sem, args, jobs):
    sem.c = c
    for key, desc in jobs:
        one(c, sem, args, key, desc)


def passed(c):
    """`compile_spec`: each option of the caller reaches the option of the generator that has its name"""
    m = c.mir
    fs = [f for f in m.fns.values() if f.local and (f.d == 'compile_spec' or f.d.split('::')[1:] == ['compile_spec'])]
    if not fs:
        raise KeyError('anchor compile_spec')
    spec = fs[0]
    gen = [f for f in m.fns.values() if f.local and f.d.endswith('compiler::compile_program')][0]
    I_, outs = trace(c, spec, ['name', 'spec', 'options'], ('parser::parse', 'Program>::from_ast', 'compiler::compile_program', 'rustfmt'))
    oty = I_.T[gen.locals[2]]['e']
    names = [f[0] for f in I_.T[oty]['v'][0]['f']]
    n = 0
    for st, v in outs:
        for d, r, a in events(st):
            if not d.endswith('compile_program'):
                continue
            n += 1
            o = I_.resolve(st, a[1], 8)
            while o[0] in ('K', 'r', 'b'):
                o = I_.resolve(st, o[1], 8) if o[0] in ('K', 'b') else I_.resolve(st, I_.read(st, o[1], o[2]), 8)
            if o[0] != 'v':
                raise Undecided('options handed to the generator')
            for f, x in zip(names, o[3]):
                s = name_of(x)
                seen = [g for g in names if g in s]
                if seen and f not in seen or not seen:
                    c.check('passed', False, 'options:passed:' + f, 'compile_spec hands %s to the generator as %s' % (seen[0] if seen else s[:60], f))
                else:
                    c.check('passed', seen == [f], 'options:passed:' + f, 'compile_spec makes %s from %s' % (f, seen))
    if not n:
        raise Undecided('no path hands options to the generator')


def options(c):
    c.rule('for each description, the token streams that the interpreted generator emits under different options differ in what the option names, and in nothing else: '
           'the derived traits are the requested ones; asynchronous coders come beside unchanged synchronous ones; anyhow replaces the error type; the debug mode adds statements that print.')
    c.rule('on every path of compile_spec each field of the options the generator receives is made from the field of that name of the options of the caller.')
    sem = Sem(c)
    args = typecheck.prepare()
    c.part('options:passed', passed, c)
    jobs = list(DESC.items())
    n = min(len(jobs), 24)
    c.parallel([('part %d' % i, some, sem, args, jobs[i::n]) for i in range(n)])
    for k in ('derive', 'derive only', 'async on', 'async only', 'anyhow only', 'debug only', 'type check', 'passed'):
        c.floor(k, 5)
