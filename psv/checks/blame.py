"""C30: a description that is refused is refused at the construct that is at fault.

Descriptions carry marks: «...» around the construct at fault, ‹...› around the earlier declaration it collides with.  Each is
sent through the exact interpretation of the front end; the spans in the error are token ranges of the description."""
import re
from ..an import *
from .. import std
from ..sem import Sem, Undecided
from . import parser

# expressions with exactly one thing wrong, of a variable `a: u8` in scope and an enumeration `e` (u8), a bitfield `f` (u8)
WRONG = [
    ('unknown variable', '«nope»', 'UnresolvedVar'),
    ('unknown variable right', 'a + «nope»', 'UnresolvedVar'),
    ('unknown variable left', '«nope» + a', 'UnresolvedVar'),
    ('unknown variable deep', '(a + (a * («nope» - 1)))', 'UnresolvedVar'),
    ('unknown variable under cast', '«nope» :> u8', 'UnresolvedVar'),
    ('unknown variable under minus', '~«nope»', 'UnresolvedVar'),
    ('unknown variable in choice', 'a == 1 ? «nope» : a', 'UnresolvedVar'),
    ('unknown variable in alternative', 'a == 1 ? a : «nope»', 'UnresolvedVar'),
    ('unknown variable in test', '«nope» == 1u8 ? a : a', 'UnresolvedVar'),
    ('unknown function', '«nofn(a)»', 'UnresolvedFunction'),
    ('unknown function right', 'a + «nofn(a)»', 'UnresolvedFunction'),
    ('unknown variable in call', 'blen(«nope») :> u8', 'UnresolvedVar'),
    ('unknown variant', '«e::zz» :> u8', 'UnresolvedEnumVariant'),
    ('unknown enumeration', '«ee::x» :> u8', None),
    ('unknown member of a flag set', 'fl.«zz» ? a : a', None),
    ('unknown flag', 'f::«zz» :> u8', None),
    ('member of a number', '«a.zz» ? a : a', None),
    ('not a truth value', '«a» ? a : a', 'UnexpectedType'),
    ('number for a truth value', '(a == 1) && «a» ? a : a', 'UnexpectedType'),
    ('truth value for a number', 'a + «(a == 1)»', 'UnexpectedType'),
    ('truth value for a number, left', '«(a == 1)» + a', None),
    ('wider number', 'a + «w»', 'UnexpectedType'),
    ('too large', 'a + «256»', None),
    ('too large, suffix', 'a + «256u8»', None),
    ('cast of text', '«"x" :> u8»', None),
    ('arguments', '«blen(a, a)» :> u8', None),
    ('no arguments', '«blen()» :> u8', None),
]
HEAD = 'type e = enum u8 { x = 1, y = 2, }; type f = bitfield u8 { p = 1, q = 2, }; import_ffi gzip as transform; '
PLACES = [
    ('length', 'type T = container { a: u8, w: u32, fl: f, b: u8[%s], };'),
    ('condition', 'type T = container { a: u8, w: u32, fl: f, b: u8 { 1u8 == (%s) }, };'),
    ('computed', 'type T = container { a: u8, w: u32, fl: f, b: u8 = %s, };'),
    ('byte length', 'type T = container { a: u8, w: u32, fl: f, c: container [%s] { d: u8[..], }, };'),
    ('argument', 'type P(n: u8) = container { d: u8[n], }; type T = container { a: u8, w: u32, fl: f, c: P(%s), };'),
    ('transform condition', 'type T = container { a: u8, w: u32, fl: f, c: u8[..] -> gzip { 1u8 == (%s) }, };'),
    ('inner', 'type T = container { a: u8, w: u32, fl: f, c: container { k: u8, d: u8[%s], }, };'),
    ('tagged', 'type T(a: u8, w: u32, fl: f) = container +tagged_enum { A: u8 { 1u8 == (%s) }, B: u8, };'),
    ('element', 'type T = container { a: u8, w: u32, fl: f, b: u8[%s] -> gzip { a == 1 }, };'),
]
SINGLE = [
    ('unknown type', 'type T = container { a: u8, b: «w», };', 'UnresolvedType'),
    ('unknown type in an alias', 'type A = u8; type T = «w»;', 'UnresolvedType'),
    ('unknown type of an element', 'type T = container { a: u8, b: «w»[a], };', 'UnresolvedType'),
    ('unknown type with arguments', 'type T = container { a: u8, b: «w(a)», };', 'UnresolvedType'),
    ('unknown type of a parameter', 'type A = u8; type T(p: u8, q: «w») = container { a: u8, };', 'UnresolvedType'),
    ('unknown type of a constant', 'const A: u8 = 1; const B: «w» = 1;', 'UnresolvedType'),
    ('unknown type in a cast', 'type T = container { a: u8, b: u8 = a :> «w», };', 'UnresolvedType'),
    ('unknown type within', 'type T = container { a: u8, c: container { d: u8, b: «w», }, };', 'UnresolvedType'),
    ('type twice', '‹type T = container { a: u8, };› type U = u8; «type T = u8;»', 'TypeRedefinition'),
    ('type twice, after its use', 'type U = container { t: T, }; ‹type T = u16;› type V = T; «type T = u8;»', 'TypeRedefinition'),
    ('constant twice', '‹const A: u8 = 1;› const B: u8 = 2; «const A: u8 = 3;»', 'ConstRedefinition'),
    ('field twice', 'type T = container { ‹a: u8›, b: u8, «a: u16», c: u8, };', 'ContainerFieldRedefinition'),
    ('field twice within', 'type T = container { a: u8, c: container { ‹b: u8›, d: u8, «b: u8», }, };', 'ContainerFieldRedefinition'),
    ('parameter twice', 'type T(p: u8, q: u8, «p: u16») = container { a: u8, };', 'TypeArgumentRedefinition'),
    ('member twice', 'type e = enum u8 { a = 1, b = 2, «a = 3», c = 4, };', 'EnumVariantRedefinition'),
    ('default twice', 'type e = enum u8 { a = 1, b = default, «c = default», };', 'EnumDefaultRedefinition'),
    ('member after the default', 'type e = enum u8 { a = 1, b = default, «c = 2», };', None),
    ('flag twice', 'type f = bitfield u8 { ‹a = 1›, b = 2, «a = 4», };', 'BitfieldFlagRedefinition'),
    ('transform twice', '‹import_ffi gzip as transform;› type U = u8; «import_ffi gzip as transform;»', 'TransformRedefinition'),
    ('function of the prelude again', 'type U = u8; «import_ffi blen as function;»', 'FunctionRedefinition'),
    ('function twice', '‹import_ffi sum as function;› type U = u8; «import_ffi sum as function;»', 'FunctionRedefinition'),
    ('imported type twice', '‹import_ffi utf8 as type;› type U = u8; «import_ffi utf8 as type;»', 'TypeRedefinition'),
    ('imported type over a type', '«type utf8 = u8;» type U = u8; ‹import_ffi utf8 as type;›', 'TypeRedefinition'),
    ('type over an imported type', '‹import_ffi utf8 as type;› type U = u8; «type utf8 = u8;»', 'TypeRedefinition'),
    ('unknown built-in type', 'type U = u8; «import_ffi nosuch as type;»', 'FfiMissing'),
    ('unknown built-in function', 'import_ffi gzip as transform; «import_ffi nosuch as function;»', 'FfiMissing'),
    ('unknown built-in transform', 'type U = u8; «import_ffi nosuch as transform;» type V = u8;', 'FfiMissing'),
    ('unknown file', 'type U = u8; «import a from "nosuch";» type V = u8;', 'ImportMissing'),
    ('unknown transform', 'import_ffi gzip as transform; type T = container { a: u8[..] -> gzip -> «zip», };', 'UnresolvedTransform'),
    ('unknown transform first', 'import_ffi gzip as transform; type T = container { a: u8[..] -> «zip» -> gzip, };', 'UnresolvedTransform'),
    ('unknown transform with arguments', 'type T = container { k: u8, a: u8[..] -> «zip(k)», };', 'UnresolvedTransform'),
    ('too many transform arguments', 'import_ffi gzip as transform; type T = container { k: u8, a: u8[..] -> «gzip(k)», };', None),
    ('alias of itself', 'type U = u8; «type A = A;»', None),
    ('alias ring', '«type A = B; type B = A;»', None),
    ('constant of a complex type', 'type U = u8; «const A: container { a: u8, } = 1;»', None),
    ('cast to a complex type', 'type T = container { a: u8, b: u8 = «a :> u8[2]», };', None),
    ('enumeration within', 'type T = container { a: u8, b: «enum u8 { x = 1, }», };', 'MustBeToplevel'),
    ('flag set within', 'type T = container { a: u8, b: «bitfield u8 { x = 1, }», };', 'MustBeToplevel'),
    ('tagged within', 'type T = container { a: u8, b: «container +tagged_enum { A: u8 { a == 1 }, B: u8, }», };', 'MustBeToplevel'),
    ('repeated container', 'type T = container { a: u8, b: «container { c: u8, }[a»], };', 'InlineRepetition'),
    ('too few arguments', 'type P(x: u8, y: u8) = container { d: u8, }; type T = container { a: u8, b: «P(a)», };', 'InvalidTypeArgumentCount'),
    ('too many arguments', 'type P(x: u8) = container { d: u8, }; type T = container { a: u8, b: «P(a, a)», };', 'InvalidTypeArgumentCount'),
    ('no arguments', 'type P(x: u8) = container { d: u8, }; type T = container { a: u8, b: «P», };', 'InvalidTypeArgumentCount'),
    ('required after optional', 'type P(x: u8 ? 1, y: u8) = container { d: u8, }; type T = container { a: u8, b: «P(a, a)», };', 'InvalidTypeArgumentOrder'),
    ('argument of the wrong type', 'type P(x: u8, y: u8) = container { d: u8, }; type T = container { a: u8, w: u32, b: P(a, «w»), };', 'UnexpectedType'),
    ('default of the wrong type', 'type P(x: u8, y: u8 ? «true») = container { d: u8, };', None),
    ('constant of the wrong type', 'const A: u8 = 1; const B: u8 = «true»;', 'UnexpectedType'),
    ('constant of another name', 'const A: u8 = 1; const B: u8 = A + «C»;', 'UnresolvedVar'),
    ('constant too large', 'const A: u8 = 1; const B: u8 = «256»;', 'InvalidInt'),
    ('member too large', 'type e = enum u8 { a = 1, b = «256», };', 'InvalidInt'),
    ('flag too large', 'type f = bitfield u8 { a = 1, b = «256», };', 'InvalidInt'),
    ('member of the wrong type', 'type e = enum u8 { a = 1, b = «true», };', 'UnexpectedType'),
    ('member of an unknown name', 'type e = enum u8 { a = 1, b = «B», c = 3, };', 'UnresolvedVar'),
    ('flag of an unknown name', 'type f = bitfield u8 { a = 1, b = «B», c = 4, };', 'UnresolvedVar'),
    ('unknown field flag', 'type T = container { a: u8, b: u8 +«nosuch», };', 'InvalidFlag'),
    ('nothing after the unconditional', 'type T(k: u8) = container +tagged_enum { A: u8 { k == 1 }, B: u8, «C: u8», };', None),
    ('pad in a tagged container', 'type T(k: u8) = container +tagged_enum { A: u8 { k == 1 }, «.pad: 2», B: u8, };', None),
    ('default member used', 'type e = enum u8 { a = 1, o = default, }; type T = container { x: u8, k: e { x == («e::o» :> u8) }, };', None),
    ('computed text', 'type T = container { a: u8, «b: u8[2] = a», };', None),
]


F = {'f': 'type b = u8; type c = u8; const k: u8 = 1;', 'g': 'type b = ;', 'h': 'import z from "h"; type b = u8;'}
IMPORTS = [
    ('unknown name of a file', 'type U = u8; import b, «zz», c from "f"; type V = u8;', 'ImportUnresolved'),
    ('unknown name under another', 'type U = u8; import b as x, «zz» as y from "f"; type V = u8;', 'ImportUnresolved'),
    ('file that is none', 'type U = u8; «import b from "g";» type V = u8;', 'ImportParse'),
    ('second file unknown', 'import b from "f"; type U = u8; «import q from "nosuch";»', 'ImportMissing'),
    ('name imported twice', 'type U = u8; import b, «c as b» from "f"; type V = u8;', 'TypeRedefinition'),
    ('name imported by two', 'import b from "f"; type U = u8; import c, «k as b» from "f";', None),
    ('constant imported twice', 'type U = u8; import k, c, «k» from "f";', 'ConstRedefinition'),
]
NAMED = ('Unresolved', 'Missing', 'Redefinition')
MARK = re.compile('([«»‹›])')


def marks(text):
    """-> text without marks, (first, last) token of the fault, the same of the original or None"""
    n, at, out = 0, {}, []
    for piece in MARK.split(text):
        if piece in ('«', '‹'):
            at[piece] = n
        elif piece in ('»', '›'):
            at[piece] = n - 1
        else:
            n += len(parser.lex(piece))
            out.append(piece)
    return ''.join(out), (at['«'], at['»']), (at['‹'], at['›']) if '‹' in at else None


def spans(t):
    """token ranges directly in an error, in order"""
    r = []
    for k in sorted(t, key=str):
        v = t[k]
        if isinstance(v, tuple) and len(v) == 2 and all(isinstance(x, int) for x in v):
            r.append(v)
        elif isinstance(v, tuple) and v and v[0] == 'mixed':
            r.append(None)
    return r


def inside(s, r):
    return s is not None and r[0] <= s[0] <= s[1] <= r[1]


def cases():
    for n, t, k in SINGLE:
        yield n, t, k
    for n, t, k in IMPORTS:
        yield n, t, k
    for pn, p in PLACES:
        for n, e, k in WRONG:
            yield '%s in %s' % (n, pn), HEAD + p % e, k


def blame(c):
    c.rule('for every description with one marked fault: an error whose first span lies within the marked construct, or names a '
           'declaration that exists, and an error about two declarations carries the span of the later one and then that of the earlier')
    jobs = list(cases())
    s = Sem(c)
    n = 32
    c.parallel([('part %d' % i, some, s, jobs[i::n]) for i in range(n)])
    c.floor('blame', 200)


def some(c, s, jobs):
    s.c = c
    for j in jobs:
        c.part(j[0], one, c, s, *j)


def one(c, s, name, text, kind):
    plain, bad, orig = marks(text)
    try:
        r = s.one(plain, F)
    except (Undecided, KeyError, IndexError, TypeError, ValueError, AttributeError) as x:
        c.undecided('blame:' + name, '%s %s' % (type(x).__name__, str(x)[:100]))
        return
    words = MARK.sub(lambda m: {'«': '>>', '»': '<<'}.get(m.group(1), ''), text)
    words = words[len(HEAD):] if words.startswith(HEAD) else words
    if r is None or r[0] == 'ok':
        c.ob('accepted description')
        c.sample('accepted: ' + name)
        return
    if r[0] != 'err' or not isinstance(r[2], dict):
        c.undecided('blame:' + name, str(r)[:100])
        return
    c.ob('blame')
    k, sp = r[1], spans(r[2])
    if not sp:
        c.violation('blame:%s:nowhere' % name, '`%s` is refused with %s, which carries no place' % (words, k))
        return
    if kind and any(x in kind for x in NAMED) and k != kind:
        c.violation('blame:%s:kind' % name, '`%s` is refused with %s, not with %s' % (words, k, kind))
        return
    if not inside(sp[0], bad):
        c.violation('blame:%s:place' % name, '`%s`: %s points at %s instead of the marked construct' % (words, k, quoted(plain, sp[0])))
    if orig is not None and (len(sp) < 2 or not inside(sp[1], orig)):
        c.violation('blame:%s:original' % name, '`%s`: %s gives %s as the earlier declaration' % (words, k, quoted(plain, sp[1] if len(sp) > 1 else None)))


def quoted(plain, s):
    if s is None:
        return 'no place in the text'
    return 'tokens %d..%d (%s)' % (s[0], s[1], ' '.join(str(x[1] if x[1] is not None else x[0]) for x in parser.lex(plain)[s[0]:s[1] + 1][:12]))


def messages(c):
    """the text of each kind of error, its fields left symbolic"""
    c.rule('the text of every error shows every field of the error, its places in the order they are carried: the place of the fault '
           'first, "originally declared at" directly before the place of the earlier declaration, and nothing else after "@"')
    m = c.mir
    for ty, T in enumerate(m.types):
        if T['k'] != 'adt' or T['d'] not in ('protospec_build::semantics::error::AsgError', 'protospec_build::parser::error::ParseError'):
            continue
        short = T['d'].split('::')[-1]
        for i, var in enumerate(T['v']):
            c.part('%s::%s' % (short, var['n']), message, c, ty, i, short + '::' + var['n'])
    c.floor('message', 45)


def message(c, ty, i, name):
    I_ = Interp(c.mir, {})
    span = ['protospec_build::tokenizer::Span', 'protospec_build::tokenizer::SpannedToken']
    places = set()
    for f in c.mir.fns.values():
        for n in span:
            if f.local and f.name == '<%s as std::fmt::Display>::fmt' % n:
                def shown(I_, st, args, info, rty, site):
                    return std.append_str(I_, st, args[1], (('field', I_.resolve(st, I_.strip(st, args[0]), 3)),), rty)
                I_.hooks[f.name] = shown
    fs = c.mir.types[ty]['v'][i]['f']
    vals = []
    for k, f in enumerate(fs):
        vals.append(I_.atom('field%d' % k, f[1]))
        if c.mir.types[f[1]].get('d') in span:
            places.add(k)
    c.ob('message')
    fn = [f for f in c.mir.fns.values() if f.local and f.name == '<%s as std::fmt::Display>::fmt' % c.mir.types[ty]['d']]
    if not fn:
        raise KeyError('anchor Display of ' + name)
    st, root = State(), ('H', 'text')
    st.store[root] = ('s', ())
    outs = [(s, s.store[root][1]) for s, r in I_.run(fn[0], [K(('v', ty, i, tuple(vals))), ('r', root, ())], st)]
    note(c, I_)
    if len(outs) != 1:
        raise Undecided('%d texts' % len(outs))
    parts = outs[0][1]
    shape, order = '', []
    for p in parts:
        if isinstance(p, str):
            shape += p
            continue
        hit = [k for k in range(len(fs)) if mentions(p, 'field%d' % k)]
        if len(hit) != 1:
            raise Undecided('text %s' % str(p)[:80])
        order.append(hit[0])
        shape += '{%d}' % hit[0]
    c.sample('%s: %s' % (name, shape))
    for k in range(len(fs)):
        if k not in order and not name.endswith('::Unknown'):
            c.violation('message:%s:field%d' % (name, k), 'the text of %s, "%s", leaves out field %d' % (name, shape, k))
    first = list(dict.fromkeys(k for k in order if k in places))
    if first != sorted(places):
        c.violation('message:%s:order' % name, 'the text of %s, "%s", gives its places in another order than the error carries them' % (name, shape))
    for w, k in re.findall(r"(@|originally declared at|cycle through) '?\{(\d)\}", shape):
        if w == '@' and int(k) not in places or w.startswith('orig') and [int(k)] != sorted(places)[1:2]:
            c.violation('message:%s:at' % name, 'the text of %s, "%s", has something else where a place is announced' % (name, shape))
    for k in places:
        if not re.search(r"(@|at|token:|by) '?\{%d\}" % k, shape):
            c.violation('message:%s:unannounced' % name, 'the text of %s, "%s", shows a place that is not announced as one' % (name, shape))


def mentions(p, name):
    return name in (p if isinstance(p, str) else '') or isinstance(p, (tuple, list, frozenset)) and any(mentions(x, name) for x in p)
