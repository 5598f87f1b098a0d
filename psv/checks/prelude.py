"""The built-ins of the standard prelude: which object each name yields and what the code it emits does.

The objects are obtained from the resolver, their generators are interpreted to token text, and that
text is evaluated in the bit-provenance domain of bitsem.
"""
import re
from ..an import *
from ..rustmini import parse_stmts, parse_expr, strip, RErr
from .. import bitsem as B

TYPES = {'v8': ('i8', 8), 'v16': ('i16', 16), 'v32': ('i32', 32), 'v64': ('i64', 64), 'v128': ('i128', 128), 'utf8': ('String', 0), 'utf16': ('String', 0)}
TRANSFORMS = ('base64', 'gzip')
FUNCTIONS = ('blen', 'len', 'pad', 'bits', 'sum')
MODES = ((0, 'synchronous'), (1, 'asynchronous'))


def resolver(m, meth):
    r = [f for f in m.fns.values() if f.local and f.d.endswith('>::' + meth) and 'Prelude' in f.name]
    if not r:
        raise KeyError('anchor PreludeImportResolver::%s' % meth)
    return sorted(r, key=lambda f: f.name)[0]


def lookup(c, meth, name):
    """-> (how, object): 'object' | 'error' | 'none' | 'unknown'"""
    m = c.mir
    f = resolver(m, meth)
    I_ = Interp(m, {})
    outs = I_.run(f, [I_.atom('self', f.locals[1]), K(S(name))], State())
    note(c, I_)
    res = set()
    for s, v in outs:
        v = I_.resolve(s, v, 8)
        if v[0] != 'v':
            res.add(('unknown', None))
        elif v[2] == 1:
            res.add(('error', None))
        elif v[3][0][0] == 'v':
            o = v[3][0]
            res.add(('none', None) if o[2] == 0 else ('object', o[3][0]))
        else:
            res.add(('unknown', None))
    return res.pop() if len(res) == 1 else ('unknown', None)


def tyname(m, o):
    return m.types[o[1]]['d'].split('::')[-1]


def method(m, o, name):
    """implementation of a trait method for the object's type (or the trait's default)"""
    d = m.types[o[1]]['d']
    last = d.split('::')[-1]
    for f in m.fns.values():
        if f.local and f.name.startswith('<') and f.name.endswith('>::' + name):
            st = f.name[1:].split(' as ')[0]
            if st == d or st.endswith('::' + last) or st.split('<')[0].endswith('::' + last):
                return f
    return None


def tok(n):
    return ('T', (('1', ('id', (n,))),))


def emit(c, o, name, args):
    """text emitted by a method of the object: list of token values"""
    m = c.mir
    f = method(m, o, name)
    if f is None:
        raise KeyError('anchor %s::%s' % (tyname(m, o), name))
    I_ = Interp(m, {})
    I_.part_limit = 500
    st = State()
    st.store[('H', 'obj')] = o
    a = [('r', ('H', 'obj'), ())] + list(args)
    outs = I_.run(f, a[:f.argc], st)
    note(c, I_)
    return f, [(s, I_.resolve(s, v, 6) if v[0] != 'T' else v) for s, v in outs]


def stmts_of(v):
    if v[0] != 'T':
        raise B.Unknown('emitted text is not explicit')
    return parse_stmts(v[1])[0]


def qtoks(ts):
    return ('q', tuple(('1', t) for t in ts))


def decode_text(c, o, is_async, args=()):
    f, outs = emit(c, o, 'decoding_gen', [tok('source_'), tok('output_'), qtoks(args), I(is_async)])
    if len(outs) != 1:
        raise B.Unknown('%d forms of the decoder' % len(outs))
    return f, stmts_of(outs[0][1])


def encode_text(c, o, is_async, args=()):
    f, outs = emit(c, o, 'encoding_gen', [tok('target_'), tok('value_'), qtoks(args), I(is_async)])
    if len(outs) != 1:
        raise B.Unknown('%d forms of the encoder' % len(outs))
    return f, stmts_of(outs[0][1])


LOG = None


def log(*x):
    if LOG is not None:
        LOG.append(x)


def run_decode(stmts, items, is_async, env=None, valid=True):
    x = run_decode_(stmts, items, is_async, env, valid)
    log('d', is_async, x[0], x[1], x[2].pos, x[3], '%d bytes%s' % (len(items), '' if valid else ' that are not valid text'))
    return x


def run_decode_(stmts, items, is_async, env=None, valid=True):
    r = B.Reader(list(items))
    e = {'source_': B.Cell(r)}
    e.update(env or {})
    ev = B.Ev(e, is_async, valid_text=valid)
    how, v = B.execute(ev, stmts)
    if how == 'ok':
        o = ev.find('output_')
        v = B.unref(o.v) if o is not None else None
    return how, v, r, ev.problems


def run_encode(stmts, value, is_async, env=None):
    x = run_encode_(stmts, value, is_async, env)
    log('e', is_async, x[0], x[1], tuple(x[2].out), x[3], str(B.unref(value)))
    if LOG is not None:
        for k in range(min(x[2].writes, 3)):
            y = run_encode_(stmts, value, is_async, env, k)
            log('f', is_async, y[0], y[1], tuple(y[2].out), y[3], 'a write that fails')
    return x


def run_encode_(stmts, value, is_async, env=None, budget=None):
    w = B.Writer(budget)
    e = {'target_': B.Cell(w), 'value_': B.Cell(value)}
    e.update(env or {})
    ev = B.Ev(e, is_async)
    how, v = B.execute(ev, stmts)
    return how, v, w, ev.problems


# ------------------------------------------------------------------ C25
def varints(c):
    c.rule('for every width and mode, the emitted decoder and encoder are evaluated in the bit-provenance domain for every number of '
           'groups: each value bit stands in bit i mod 7 of byte i div 7, bit 7 is set in all bytes but the last, and a decoder that '
           'read the longest encoding with every continuation bit set returns an error')
    for name, (rty, w) in TYPES.items():
        if not w:
            continue
        how, o = lookup(c, 'resolve_ffi_type', name)
        if how != 'object':
            c.undecided(name, 'not resolved: %s' % how)
            continue
        for a, mode in MODES:
            c.part('%s %s decode' % (name, mode), varint_decode, c, o, name, rty, w, a, mode)
            c.part('%s %s encode' % (name, mode), varint_encode, c, o, name, rty, w, a, mode)


def guard(c, what, f):
    try:
        return f()
    except (B.Unknown, RErr) as x:
        c.undecided(what, x)
        return None


def refine(cls, run, budget=900):
    """results of `run` over the classes of inputs in `cls` (lists of integers with symbolic bits): where an outcome depends on
    more than the class fixes, the class is split on its most significant open bit, down to single inputs"""
    left = [budget]

    def go(ints):
        left[0] -= 1
        try:
            return [(ints, run(ints))]
        except (B.Unknown, RErr) as x:
            open_ = [(i, j) for i, v in enumerate(ints) for j in range(len(v.bits) - 1, -1, -1) if v.bits[j] not in (0, 1)]
            if not open_ or left[0] <= 0:
                raise
            i, j = open_[0]
            nm = ints[i].bits[j]
            out = []
            for b in (0, 1):
                out += go([B.Int(v.ty, [b if q == nm else q for q in v.bits]) for v in ints])
            return out
    return go(cls)


def varint_decode(c, o, name, rty, w, a, mode):
    key = 'varint:%s:decode' % name
    r = guard(c, '%s decoder' % name, lambda: decode_text(c, o, a))
    if r is None:
        return
    f, stmts = r
    n = (w + 6) // 7
    for k in range(1, n + 1):
        byts = [B.named('u8', 'b%d' % i, {7: 1 if i < k - 1 else 0}) for i in range(k)]
        tail = [B.named('u8', 'later')]
        if k == n and w % 7:
            # the last group holds only the remaining bits of the number
            byts[-1] = B.Int('u8', [b if i < w % 7 or i == 7 else 0 for i, b in enumerate(byts[-1].bits)])
        xs = guard(c, '%s decoder, %d bytes' % (name, k), lambda: refine(byts + tail, lambda bs: run_decode(stmts, bs, a)))
        if xs is None:
            return
        for bs, (how, v, rd, probs) in xs:
            want = B.Int(rty, [bs[i // 7].bits[i % 7] if i // 7 < k else 0 for i in range(w)])
            what = '%s (%s), %d bytes' % (name, mode, k)
            c.check('decoded bit patterns', how == 'ok' and isinstance(v, B.Int) and v == want, key,
                    '%s: the decoder yields %s instead of %s' % (what, v if how == 'ok' else how + ' ' + str(v), want))
            c.check('bytes consumed', how != 'ok' or rd.pos == k, key, '%s: %d bytes are consumed' % (what, rd.pos))
            for p in probs:
                c.violation(key + ':result', '%s: %s' % (what, p))
        x = guard(c, '%s decoder, truncated' % name, lambda: run_decode(stmts, byts[:-1], a))
        if x is None:
            return
        c.check('truncated input', x[0] == 'ret' and isinstance(x[1], B.Var) and x[1].name == 'Err', key + ':truncated',
                '%s: input that ends early gives %s instead of an error' % (what, x[0]))
    byts = [B.named('u8', 'b%d' % i, {7: 1}) for i in range(n)]
    x = guard(c, '%s decoder, too long' % name, lambda: run_decode(stmts, byts + [B.named('u8', 'b%d' % (n + i), {7: 1 if i < 3 else 0}) for i in range(4)], a))
    if x is not None:
        c.check('longer encodings', x[0] == 'ret' and isinstance(x[1], B.Var) and x[1].name == 'Err', key + ':long',
                '%s (%s): more than %d groups give %s instead of an error' % (name, mode, n, x[0] + ' ' + str(x[1])))
    c.sample('%s %s decoder: %d lengths' % (name, mode, n))


def varint_encode(c, o, name, rty, w, a, mode):
    key = 'varint:%s:encode' % name
    r = guard(c, '%s encoder' % name, lambda: encode_text(c, o, a))
    if r is None:
        return
    f, stmts = r
    for L in range(0, w + 1):
        cls = B.Int(rty, ['v.%d' % i if i < L - 1 else (1 if i == L - 1 else 0) for i in range(w)])
        xs = guard(c, '%s encoder, %d bits' % (name, L),
                   lambda: refine([cls], lambda vs: run_encode(stmts, B.Ref(B.Cell(vs[0])), a)))
        if xs is None:
            return
        for (val,), (how, v, wr, probs) in xs:
            n = max(1, (L + 6) // 7)
            want = [B.Int('u8', [val.bits[7 * j + i] if 7 * j + i < w else 0 for i in range(7)] + [1 if j < n - 1 else 0]) for j in range(n)]
            what = '%s (%s), a value of %d significant bits' % (name, mode, L)
            c.check('encoded bit patterns', how == 'ok' and wr.out == want, key,
                    '%s: the encoder writes %s instead of %s' % (what, wr.out if how == 'ok' else how + ' ' + str(v), want))
            for p in probs:
                c.violation(key + ':result', '%s: %s' % (what, p))
    c.sample('%s %s encoder: %d classes of values' % (name, mode, w + 1))


# ------------------------------------------------------------------ C24
def kw(n, m):
    return m


def builtins(c):
    c.rule('each name of the prelude resolves to an object whose emitted type, coder text and argument list are those the name stands '
           'for (integers: bit patterns; texts: sequence of code units, byte order, length unit and terminator; streams: the codec family '
           'on both sides and in both modes); other names go to the inner resolver')
    m = c.mir
    for name, (rty, w) in TYPES.items():
        how, o = lookup(c, 'resolve_ffi_type', name)
        key = 'builtin:type:' + name
        if how == 'unknown':
            c.undecided(name, 'not decided')
            continue
        if not c.check('names', how == 'object', key, 'the type %s is offered but resolves to %s' % (name, how)):
            continue
        c.part(name + ' type', type_ref, c, o, name, rty, key)
        if w:
            for a, mode in MODES:
                c.part('%s %s' % (name, mode), varint_brief, c, o, name, rty, w, a, mode, key)
        else:
            for a, mode in MODES:
                c.part('%s %s' % (name, mode), {'utf8': utf8, 'utf16': utf16}[name], c, o, name, a, mode, key)
            c.part(name + ' length', text_len, c, o, name, key)
    for name in TRANSFORMS:
        how, o = lookup(c, 'resolve_ffi_transform', name)
        key = 'builtin:transform:' + name
        if how == 'unknown':
            c.undecided(name, 'not decided')
            continue
        if not c.check('names', how == 'object', key, 'the transform %s is offered but resolves to %s' % (name, how)):
            continue
        for a, mode in MODES:
            if name == 'base64' and a:
                continue
            c.part('%s %s' % (name, mode), codec, c, o, name, a, mode, key)
    for name in FUNCTIONS:
        how, o = lookup(c, 'resolve_ffi_function', name)
        key = 'builtin:function:' + name
        if how == 'unknown':
            c.undecided(name, 'not decided')
            continue
        if not c.check('names', how == 'object', key, 'the function %s is offered but resolves to %s' % (name, how)):
            continue
        if name != 'blen':
            c.part(name + ' call', function, c, o, name, key)
    for meth, names in (('resolve_ffi_type', TYPES), ('resolve_ffi_transform', TRANSFORMS), ('resolve_ffi_function', FUNCTIONS)):
        for other in ('v24', 'v', 'V8', 'utf32', 'UTF8', 'gzip ', 'deflate', 'base32', 'length', 'bit', ''):
            how, o = lookup(c, meth, other)
            if how == 'unknown':
                c.undecided('%s %s' % (meth, other), 'not decided')
            else:
                c.check('other names', how != 'object', 'builtin:%s:other' % meth, '%s accepts %r as %s' % (meth, other, tyname(m, o) if o else ''))
    c.part('names known without import', preludes, c)


def preludes(c):
    m = c.mir
    f = resolver(m, 'prelude_ffi_functions')
    I_ = Interp(m, {})
    for s, v in I_.run(f, [I_.atom('self', f.locals[1])], State()):
        v = I_.resolve(s, v, 8)
        if v[0] != 'v' or v[2] != 0 or v[3][0][0] != 'm':
            c.undecided('prelude_ffi_functions', 'not decided: %s' % name_of(v)[:80])
            continue
        names = {}
        for it in v[3][0][1]:
            k, x = it[1][1] if it[1][0] == 'v' else it[1], None
            names[name_of(it)] = 1
        txt = name_of(v)
        for n in ('len', 'blen'):
            c.check('names', '"%s"' % n in txt, 'builtin:prelude:' + n, 'the function %s is not known without an import' % n)
    note(c, I_)


def type_ref(c, o, name, rty, key):
    f, outs = emit(c, o, 'type_ref', [])
    for s, v in outs:
        if v[0] != 'T':
            c.undecided(name, 'type text')
            continue
        t = tokstr(v).replace(' ', '')
        c.check('types', t.split('::')[-1] == rty, key, 'the Rust type of %s is %s, not %s' % (name, t, rty))
    f, outs = emit(c, o, 'copyable', [])
    for s, v in outs:
        if v[0] == 'i':
            c.check('types', v[1] == (rty != 'String'), key, '%s is %s as a value to copy' % (name, 'offered' if v[1] else 'not offered'))


def varint_brief(c, o, name, rty, w, a, mode, key):
    """the width: the longest value comes back"""
    r = guard(c, name, lambda: (encode_text(c, o, a)[1], decode_text(c, o, a)[1]))
    if r is None:
        return
    for L in (1, 8, w):
        val = B.Int(rty, ['v.%d' % i if i < L - 1 else (1 if i == L - 1 else 0) for i in range(w)])
        x = guard(c, name, lambda: run_encode(r[0], B.Ref(B.Cell(val)), a))
        if x is None:
            return
        y = guard(c, name, lambda: run_decode(r[1], x[2].out, a))
        if y is None:
            return
        c.check('integers', x[0] == 'ok' and y[0] == 'ok' and y[1] == val, key,
                '%s (%s): a value of %d bits is written as %s and read as %s' % (name, mode, L, x[2].out, y[1]))


def bytes_(n, name='t', one=None):
    return [B.named('u8', '%s%d' % (name, i), {one: 1} if one is not None else {}) for i in range(n)]


def is_err(x):
    return x[0] == 'ret' and isinstance(x[1], B.Var) and x[1].name == 'Err'


def probs(c, key, what, x):
    for p in x[3]:
        c.violation(key + ':result', '%s: %s' % (what, p))


def utf8(c, o, name, a, mode, key):
    lab = '%s (%s)' % (name, mode)
    # a given number of bytes
    d = guard(c, lab, lambda: decode_text(c, o, a, [tok('len_')])[1])
    e = guard(c, lab, lambda: encode_text(c, o, a, [tok('len_')])[1])
    for n in range(4):
        t = bytes_(n)
        env = {'len_': B.Cell(B.mk('u64', n))}
        if d is not None:
            x = guard(c, lab, lambda: run_decode(d, t + bytes_(2, 'x'), a, env))
            if x:
                probs(c, key, lab, x)
                c.check('texts', x[0] == 'ok' and x[1] == B.Str('utf8', t) and x[2].pos == n, key,
                        '%s: a text of %d bytes is read as %s, consuming %d' % (lab, n, x[1], x[2].pos))
            x = guard(c, lab, lambda: run_decode(d, t + bytes_(2, 'x'), a, env, valid=False))
            if x:
                probs(c, key, lab, x)
                c.check('texts', is_err(x), key, '%s: bytes that are not valid text give %s instead of an error' % (lab, x[0] + ' ' + str(x[1])))
            if n:
                x = guard(c, lab, lambda: run_decode(d, t[:-1], a, env))
                if x:
                    c.check('texts', is_err(x), key, '%s: input that ends early gives %s instead of an error' % (lab, x[0] + ' ' + str(x[1])))
        if e is not None:
            x = guard(c, lab, lambda: run_encode(e, B.Str('utf8', t), a, env))
            if x:
                probs(c, key, lab, x)
                c.check('texts', x[0] == 'ok' and x[2].out == t, key, '%s: a text of the bytes %s is written as %s' % (lab, t, x[2].out))
    # up to a zero byte
    d = guard(c, lab, lambda: decode_text(c, o, a)[1])
    e = guard(c, lab, lambda: encode_text(c, o, a)[1])
    for one in (0, 7):
        for n in range(4):
            t = bytes_(n, 't', one)
            if d is not None:
                x = guard(c, lab, lambda: run_decode(d, t + [B.mk('u8', 0)] + bytes_(2, 'x'), a))
                if x:
                    probs(c, key, lab, x)
                    c.check('texts', x[0] == 'ok' and x[1] == B.Str('utf8', t) and x[2].pos == n + 1, key,
                            '%s: a text of %d bytes and a terminator is read as %s, consuming %d' % (lab, n, x[1], x[2].pos))
                x = guard(c, lab, lambda: run_decode(d, t + [B.mk('u8', 0)], a, valid=False))
                if x:
                    c.check('texts', is_err(x), key, '%s: bytes that are not valid text give %s instead of an error' % (lab, x[0] + ' ' + str(x[1])))
                x = guard(c, lab, lambda: run_decode(d, t, a))
                if x:
                    c.check('texts', x[0] in ('ok', 'ret'), key, '%s: a missing terminator gives %s' % (lab, x[0]))
            if e is not None:
                x = guard(c, lab, lambda: run_encode(e, B.Str('utf8', t), a))
                if x:
                    probs(c, key, lab, x)
                    c.check('texts', x[0] == 'ok' and x[2].out == t + [B.mk('u8', 0)], key, '%s: a text of the bytes %s is written as %s' % (lab, t, x[2].out))


def utf16(c, o, name, a, mode, key):
    lab = '%s (%s)' % (name, mode)
    d = guard(c, lab, lambda: decode_text(c, o, a, [tok('len_')])[1])
    e = guard(c, lab, lambda: encode_text(c, o, a, [tok('len_')])[1])
    for n in range(4):
        u = [B.named('u16', 'u%d' % i) for i in range(n)]
        by = [B.Int('u8', y) for x in u for y in (x.bits[8:], x.bits[:8])]
        env = {'len_': B.Cell(B.mk('u64', n))}
        if d is not None:
            for valid in (True, False):
                x = guard(c, lab, lambda: run_decode(d, by + bytes_(3, 'x'), a, env, valid=valid))
                if not x:
                    continue
                probs(c, key, lab, x)
                if valid:
                    c.check('texts', x[0] == 'ok' and x[1] == B.Str('utf16', u) and x[2].pos == 2 * n, key,
                            '%s: a text of %d units is read as %s, consuming %d bytes' % (lab, n, x[1], x[2].pos))
                else:
                    c.check('texts', is_err(x), key, '%s: units that are not valid text give %s instead of an error' % (lab, x[0] + ' ' + str(x[1])))
            if n:
                x = guard(c, lab, lambda: run_decode(d, by[:-1], a, env))
                if x:
                    c.check('texts', is_err(x), key, '%s: input that ends early gives %s instead of an error' % (lab, x[0] + ' ' + str(x[1])))
        if e is not None:
            x = guard(c, lab, lambda: run_encode(e, B.Str('utf16', u), a, env))
            if x:
                probs(c, key, lab, x)
                c.check('texts', x[0] == 'ok' and x[2].out == by, key, '%s: a text of the units %s is written as %s' % (lab, u, x[2].out))
    # a length whose size in bytes does not fit
    if d is not None:
        for big in (1 << 63, (1 << 64) - 1):
            x = guard(c, lab, lambda: run_decode(d, bytes_(4), a, {'len_': B.Cell(B.mk('u64', big))}))
            if x:
                c.check('texts', is_err(x), key, '%s: a length of %d gives %s instead of an error' % (lab, big, x[0] + ' ' + str(x[1])))


def text_len(c, o, name, key):
    """len() of a text is in the unit of its length argument"""
    m = c.mir
    f = method(m, o, 'len_gen')
    if f is None:
        how, fo = lookup(c, 'resolve_ffi_function', 'len')
        c.undecided(name, 'length of a text')
        return
    f, outs = emit(c, o, 'len_gen', [('r', ('K', tok('value_')), ())])
    for s, v in outs:
        if v[0] != 'T':
            c.undecided(name, 'length of a text')
            continue
        for n in range(4):
            items = bytes_(n) if name == 'utf8' else [B.named('u16', 'u%d' % i) for i in range(n)]

            def go():
                e, _ = parse_expr(v[1])
                ev = B.Ev({'value_': B.Cell(B.Str(name, items))})
                return B.execute(ev, [('expr', e)])
            x = guard(c, name + ' length', go)
            if x:
                c.check('lengths', x[0] == 'ok' and isinstance(x[1], B.Int) and x[1].const() == n, key + ':len',
                        'len() of a %s text of %d units is %s' % (name, n, x[1]))


# ---------------------------------------------------------------- streams
FAMILY = {'gzip': 'gz', 'base64': '64'}


def ctor(v):
    """path of the constructor and its arguments"""
    e, _ = parse_expr(v[1])
    e = strip(e)
    while e[0] in ('block', 'paren'):
        if e[0] == 'paren':
            e = e[1]
        elif len(e[1]) == 1 and e[1][0][0] == 'expr':
            e = e[1][0][1]
        else:
            raise B.Unknown('stream construction')
    if e[0] != 'call' or e[1][0] != 'path':
        raise B.Unknown('stream construction')
    return re.sub(r'\s', '', e[1][1]), e[2]


def codec(c, o, name, a, mode, key):
    lab = '%s (%s)' % (name, mode)
    cfg = []
    for meth, side in (('decoding_gen', 'decod'), ('encoding_gen', 'encod')):
        f, outs = emit(c, o, meth, [tok('stream_'), ('q', ()), I(a)])
        if not outs:
            c.violation(key, '%s: there is no %ser' % (lab, side))
        for s, v in outs:
            r = guard(c, lab, lambda: ctor(v))
            if r is None:
                continue
            path, args = r
            segs = path.split('::')
            ty = segs[-2] if len(segs) > 1 else ''
            low = ty.lower()
            src = [x for x in args if x[0] == 'path' and x[1] == 'stream_']
            c.check('streams', len(src) == 1, key, '%s: the %ser is built on %s' % (lab, side, args))
            if name == 'gzip':
                if any(k in low for k in ('gz', 'zlib', 'deflate', 'brotli', 'zstd', 'bz', 'xz', 'lzma')):
                    c.check('streams', 'gz' in low, key, '%s: the %ser is %s' % (lab, side, path))
                    good = {'decod': ('decoder', 'Decoder'), 'encod': ('encoder', 'Encoder')}[side]
                    c.check('streams', good[1] in ty, key, '%s: %sing is done by %s' % (lab, side, path))
                    want = {'decod': ('read', 'bufread'), 'encod': ('write',)}[side]
                    c.check('streams', len(segs) > 2 and segs[-3] in want, key, '%s: %sing is done by %s' % (lab, side, path))
                    c.check('streams', ('tokio' in path or 'futures' in path) == bool(a), key, '%s: %sing is done by %s' % (lab, side, path))
                else:
                    c.undecided(lab, path)
            else:
                if path.startswith('base64::') or 'base64' in path:
                    want = {'decod': ('Decoder', 'read'), 'encod': ('Encoder', 'write')}[side]
                    c.check('streams', want[0] in ty and want[1] in segs, key, '%s: %sing is done by %s' % (lab, side, path))
                    rest = [re.sub(r'\s', '', str(x[1])) for x in args if x[0] in ('path', 'ref') and x[1] != 'stream_']
                    cfg.append((side, tuple(rest)))
                    for x in rest:
                        c.check('streams', 'URL' not in x and 'CRYPT' not in x and 'BINHEX' not in x and 'IMAP' not in x and 'BCRYPT' not in x, key,
                                '%s: %sing uses the alphabet %s' % (lab, side, x))
                else:
                    c.undecided(lab, path)
    if len(cfg) == 2:
        c.check('streams', cfg[0][1] == cfg[1][1], key, '%s: decoding uses %s, encoding uses %s' % (lab, cfg[0][1], cfg[1][1]))


# --------------------------------------------------------------- functions
class Lin:
    """a*P + b*r + k with 0 < r < P, or r = 0 (then b is not used)"""

    def __init__(self, p, r, k):
        self.p, self.r, self.k = p, r, k

    def key(self):
        return (self.p, self.r, self.k)


def residue(e, zero):
    """value of an expression over pad P and base (base mod P = r), as p*P + r*r + k; zero: r = 0.
    base itself is written q*P + r with unknown q, so only base % P may use it."""
    if e[0] == 'paren':
        return residue(e[1], zero)
    if e[0] == 'block' and len(e[1]) == 1 and e[1][0][0] == 'expr':
        return residue(e[1][0][1], zero)
    if e[0] == 'as':
        return residue(e[1], zero)
    if e[0] == 'lit':
        v = B.literal(e[1])
        return (0, 0, v.const())
    if e[0] == 'path':
        if e[1] == 'pad_':
            return (1, 0, 0)
        if e[1] == 'base_':
            return 'base'
        raise B.Unknown(e[1])
    if e[0] == 'bin':
        if e[1] in ('==', '!=', '>', '<', '>=', '<='):
            x, y = residue(e[2], zero), residue(e[3], zero)
            if 'base' in (x, y):
                raise B.Unknown('base compared')
            d = (x[0] - y[0], x[1] - y[1], x[2] - y[2])
            s = sign(d, zero)
            if e[1] in ('==', '!='):
                if s is None:
                    raise B.Unknown('not decided')
                return (s == 0) == (e[1] == '==')
            if s is None:
                raise B.Unknown('not decided')
            return {'>': s > 0, '<': s < 0, '>=': s >= 0, '<=': s <= 0}[e[1]]
        x, y = residue(e[2], zero), residue(e[3], zero)
        if e[1] == '%':
            if y != (1, 0, 0):
                raise B.Unknown('remainder by something else')
            if x == 'base':
                return (0, 0, 0) if zero else (0, 1, 0)
            for p in range(-3, 4):
                z = (x[0] - p, x[1], x[2])
                s, t = sign(z, zero), sign((z[0] - 1, z[1], z[2]), zero)
                if s is not None and s >= 0 and t is not None and t < 0:
                    if p < 0:
                        raise B.Unknown('negative')
                    return z
            raise B.Unknown('remainder')
        if 'base' in (x, y):
            raise B.Unknown('base outside of a remainder')
        if e[1] == '+':
            return (x[0] + y[0], x[1] + y[1], x[2] + y[2])
        if e[1] == '-':
            return (x[0] - y[0], x[1] - y[1], x[2] - y[2])
        raise B.Unknown(e[1])
    if e[0] == 'if':
        t = residue(e[1], zero)
        if not isinstance(t, bool):
            raise B.Unknown('condition')
        b = e[2] if t else e[3]
        if not b or len(b) != 1 or b[0][0] != 'expr':
            raise B.Unknown('branch')
        return residue(b[0][1], zero)
    raise B.Unknown(e[0])


def sign(d, zero):
    """sign of p*P + b*r + k over all P > r > 0 (P >= 2) or r = 0 (P >= 1)"""
    p, b, k = d
    pts = [(P, 0) for P in (1, 2, 3, 1000)] if zero else [(P, r) for P in (2, 3, 4, 1000) for r in {1, 2, P - 1} if 0 < r < P]
    s = {(v > 0) - (v < 0) for v in (p * P + b * r + k for P, r in pts)}
    if len(s) == 1:
        return s.pop()
    if s == {0, 1}:
        return None
    return None


def ffiarg(c, f, ts):
    """slice of FFIArgumentValue"""
    m = c.mir
    t = m.types[f.locals[2]]
    while t['k'] in ('ref', 'slice') or t.get('e') is not None and t['k'] != 'adt':
        nt = t['e']
        if isinstance(nt, list):
            break
        ty = nt
        t = m.types[ty]
    xs = []
    for i, (typ, val) in enumerate(ts):
        fs = t['v'][0]['f']
        vals = []
        for fn_, fty in fs:
            vals.append(val if fn_ == 'value' else ('A', 'arg%d.%s' % (i, fn_), fty))
        xs.append(('1', ('v', ty, 0, tuple(vals))))
    return ('r', ('K', ('q', tuple(xs))), ())


def function(c, o, name, key):
    m = c.mir
    f = method(m, o, 'call')
    if f is None:
        c.undecided(name, 'no call')
        return
    names = {'pad': ['pad_', 'base_']}.get(name, ['value_'])
    I_ = Interp(m, {})
    st = State()
    st.store[('H', 'obj')] = o
    outs = I_.run(f, [('r', ('H', 'obj'), ()), ffiarg(c, f, [(None, tok(n)) for n in names])], st)
    note(c, I_)
    n = 0
    for s, v in outs:
        if v[0] != 'T':
            c.undecided(name, 'emitted text is not explicit')
            continue
        r = guard(c, name, lambda: parse_expr(v[1])[0])
        if r is None:
            continue
        n += 1
        if name == 'pad':
            for zero in (True, False):
                x = guard(c, name, lambda: residue(r, zero))
                if x is None:
                    continue
                want = (0, 0, 0) if zero else (1, -1, 0)
                c.check('functions', x == want, key, 'pad(p, b) is %s when b mod p is %s' % (
                    '%d*p %+d*r %+d' % x if not isinstance(x, (str, bool)) else x, 0 if zero else 'r'))
        elif name == 'bits':
            t = strip(r)
            while t[0] in ('as', 'paren'):
                t = t[1]
            if t[0] == 'mcall' and t[2] in ('count_ones', 'count_zeros', 'leading_zeros', 'trailing_zeros', 'ilog2', 'leading_ones', 'trailing_ones'):
                c.check('functions', t[2] == 'count_ones', key, 'bits(x) is emitted as %s' % t[2])
            else:
                c.undecided(name, 'form')
        elif name == 'sum':
            ops = [x[2] for x in mcalls(r)]
            c.check('functions', 'product' not in ops and 'count' not in ops and not {'max', 'min', 'len', 'skip', 'take'} & set(ops), key, 'sum(x) is emitted through %s' % ops)
        elif name == 'len':
            t = strip(r)
            if not any(x[0] == 'hole' for x in walk(t)):
                pass
    c.sample('%s: %d forms' % (name, n))


def walk(e):
    if isinstance(e, (tuple, list)):
        if isinstance(e, tuple):
            yield e
        for x in e:
            yield from walk(x)


def mcalls(e):
    return [x for x in walk(e) if x and x[0] == 'mcall']


# ------------------------------------------- the same evaluations under the general coder properties
class Quiet:
    """collects the evaluations of the checks above, but none of their verdicts"""

    def __init__(self, c):
        self.c = c
        self.tier = c.tier
        self.mir = c.mir
        self.analysed = c.analysed
        self.label = ''

    def check(self, *a):
        return a[1]

    def violation(self, *a):
        pass

    def rule(self, *a):
        pass
    sample = ob = floor = rule

    def undecided(self, what, why):
        self.c.undecided(what, why)

    def part(self, label, f, *a):
        global LOG
        LOG = []
        try:
            self.c.part(label, lambda: f(self, *a[1:]))
            self.rows = getattr(self, 'rows', [])
            self.rows.append((label, LOG))
        finally:
            LOG = None


def evaluations(c):
    q = Quiet(c)
    varints(q)
    m = c.mir
    for name, fn_ in (('utf8', utf8), ('utf16', utf16)):
        how, o = lookup(c, 'resolve_ffi_type', name)
        if how == 'object':
            for a, mode in MODES:
                q.part('%s %s' % (name, mode), fn_, q, o, name, a, mode, '')
    return q.rows


def io_errors(c):
    c.rule('the text emitted by each built-in, evaluated over input that ends at every position and output that fails at every write, returns '
           'the failure; no result is dropped and no operation that may transfer fewer bytes than asked is used')
    for label, rows in evaluations(c):
        for side, a, how, v, pos, pr, text in rows:
            c.ob('built-in evaluations')
            key = 'builtin:%s' % label.split()[0]
            for p in pr:
                if 'reserved' not in p and 'byte order' not in p:
                    c.violation(key + ':result', '%s: %s' % (label, p))
            if side == 'f':
                c.check('failing writes', how == 'ret' and isinstance(v, B.Var) and v.name == 'Err', key + ':write', '%s: %s gives %s' % (label, text, how))
            if side == 'd':
                c.check('failing reads', how != 'panic', key + ':read', '%s: %s: %s' % (label, text, v))
    truncated(c)


def truncated(c):
    """input that ends early is an error (length and groups known)"""
    sub = Sub(c, lambda kind, key, text: 'ends early' in text or 'truncated' in key)
    varints(sub)
    for name, fn_ in (('utf8', utf8), ('utf16', utf16)):
        how, o = lookup(c, 'resolve_ffi_type', name)
        if how == 'object':
            for a, mode in MODES:
                sub.part('%s %s' % (name, mode), fn_, sub, o, name, a, mode, 'builtin:' + name)


class Sub(Quiet):
    """only the verdicts that a filter selects"""

    def __init__(self, c, keep):
        Quiet.__init__(self, c)
        self.keep = keep

    def check(self, kind, ok, key, text):
        if self.keep(kind, key, text):
            return self.c.check(kind, ok, key, text)
        return ok

    def violation(self, key, text, *a):
        if self.keep('', key, text):
            self.c.violation(key, text, *a)

    def undecided(self, what, why):
        self.c.undecided(what, why)

    def part(self, label, f, *a):
        self.c.part(label, lambda: f(self, *a[1:]))


def modes(c):
    c.rule('the synchronous and the asynchronous text of each built-in evaluate to the same results, and all and only the asynchronous '
           'operations are awaited')
    by = {}
    for label, rows in evaluations(c):
        k = label.replace('asynchronous', '').replace('synchronous', '')
        by.setdefault(k, []).append((label, rows))
        for r in rows:
            for p in r[5]:
                if 'awaited' in p:
                    c.violation('builtin:%s:await' % label.split()[0], '%s: %s' % (label, p))
    for k, xs in by.items():
        if len(xs) != 2:
            continue
        (la, ra), (lb, rb) = xs
        if len(ra) != len(rb):
            c.undecided(k, 'different numbers of evaluations')
            continue
        for x, y in zip(ra, rb):
            c.check('built-in evaluations compared', (x[2], repr(x[3]), x[4]) == (y[2], repr(y[3]), y[4]), 'builtin:%s:modes' % k.split()[0],
                    '%s: %s gives %s %s in one mode and %s %s in the other' % (k, x[6], x[2], x[3], y[2], y[3]))
    codecs(c)


def codecs(c):
    for name in TRANSFORMS:
        how, o = lookup(c, 'resolve_ffi_transform', name)
        if how != 'object':
            continue
        for a, mode in MODES:
            if name == 'base64' and a:
                continue
            c.part('%s %s' % (name, mode), codec, c, o, name, a, mode, 'builtin:' + name)


def total(side):
    def f(c):
        c.rule('the text emitted by each built-in, evaluated over all its cases, never panics and reserves no memory for data that was not read')
        for label, rows in evaluations(c):
            for s, a, how, v, pos, pr, text in rows:
                if (s == 'd') != (side == 'd'):
                    continue
                c.check('built-in evaluations', how != 'panic', 'builtin:%s:panic' % label.split()[0], '%s: %s: %s' % (label, text, v))
                for p in pr:
                    if 'reserved' in p:
                        c.violation('builtin:%s:alloc' % label.split()[0], '%s: %s: %s' % (label, text, p))
    return f


decode_total = total('d')
encode_total = total('e')
