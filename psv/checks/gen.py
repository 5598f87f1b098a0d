"""Properties of the emitted coder text that are decided per instruction template."""
from ..an import *
from . import wire
from .. import wiresem as W
from ..rustmini import RErr

D_VALUE = {'DecodePrimitive', 'DecodeRepr', 'DecodePrimitiveArray', 'DecodeReprArray'}
E_VALUE = {'EncodePrimitive', 'EncodeEnum', 'EncodeBitfield', 'EncodePrimitiveArray', 'EncodeReprArray'}
SIDEN = {'d': 'decode', 'e': 'encode'}
RULE = ('for every shape of the instruction the emitted text, evaluated symbolically to its sequence of stream, buffer and register '
        'effects, equals the effects of the reference text of that instruction')


def values(c):
    c.rule(RULE + ' (value instructions: width, number type, byte order)')
    wire.compare(c, {'d': D_VALUE, 'e': E_VALUE})


def structure(c):
    c.rule(RULE + ' (instructions that place, nest, skip and assemble values)')
    wire.compare(c, {'d': {'Construct', 'LoopOutput', 'Loop', 'Skip', 'DecodeRef', 'DecodeForeign', 'Return', 'Eval'},
                     'e': {'GetField', 'GetRef', 'SetRef', 'Pad', 'Loop', 'EncodeRef', 'EncodeForeign', 'UnwrapEnum', 'UnwrapEnumStruct', 'Eval'}})


def streams(c):
    c.rule(RULE + ' (instructions that open, finish and drop streams)')
    wire.compare(c, {'d': {'WrapStream', 'ConditionalWrapStream'}, 'e': {'WrapStream', 'ConditionalWrapStream', 'EndStream', 'Drop', 'EmitBuf'}})


def optional(c):
    c.rule(RULE + ' (instructions for optional parts)')
    wire.compare(c, {'d': {'Conditional', 'Flatten', 'ConditionalPredicate', 'ConditionalWrapStream', 'Error'},
                     'e': {'Conditional', 'ConditionalWrapStream', 'NullCheck', 'UnwrapEnum', 'UnwrapEnumStruct', 'BreakBlock', 'Break'}})


def lengths(c):
    c.rule(RULE + ' (instructions that count, limit, pad and terminate)')
    wire.compare(c, {'d': {'Loop', 'LoopOutput', 'Constrict', 'DecodePrimitiveArray', 'DecodeReprArray', 'Skip'},
                     'e': {'Loop', 'CheckLen', 'EncodePrimitiveArray', 'EncodeReprArray', 'Pad', 'GetLen', 'AllocBuf', 'AllocDynBuf', 'EmitBuf'}})


def computed(c):
    c.rule(RULE + ' (instructions for buffers and computed values)')
    wire.compare(c, {'e': {'AllocBuf', 'AllocDynBuf', 'EmitBuf', 'SetRef', 'GetRef', 'GetLen', 'Eval'}})


def guards(c):
    c.rule(RULE + ' (instructions that reject values)')
    wire.compare(c, {'e': {'CheckLen', 'NullCheck', 'UnwrapEnum', 'UnwrapEnumStruct', 'EncodePrimitiveArray', 'EncodeReprArray', 'Conditional'}})


def decode_guards(c):
    c.rule(RULE + ' (decoding instructions whose operation can fail on stream contents)')
    wire.compare(c, {'d': D_VALUE | {'Loop', 'Skip', 'Constrict', 'ConditionalPredicate', 'Error', 'DecodeRef'}})


# ---------------------------------------------------------------- every effect of every template
def each(c, sides='de'):
    for side in sides:
        for a in (0, 1):
            for n in (1, 2):
                I_, ts = wire.trees(c, side, a, n)
                for r, es in ts:
                    for e in es:
                        if isinstance(e, str):
                            c.undecided('%s %s' % (SIDEN[side], r.variant), e)
                            continue
                        yield side, a, r, e


def shape(r):
    return '%s(%s)' % (r.variant, ', '.join(l or '_' for l in r.labels))


FALLIBLE = ('decode_sync', 'decode_async', 'encode_sync', 'encode_async', 'from_repr', 'try_into', 'try_from')


def io_errors(c):
    c.rule('in the effects of every emitted template each fallible stream operation, nested coder call and conversion is followed by `?` '
           '(or returned): none is dropped, unwrapped or replaced; no operation that may transfer fewer bytes than asked is used')
    for side, a, r, e in each(c):
        c.ob('templates')
        key = 'template:%s:%s' % (SIDEN[side], r.variant)
        for x in W.walk(e):
            c.ob('effects')
            if x[0] == 'lost':
                c.violation(key + ':lost', '%s: the result of %s on %s is not returned' % (shape(r), x[1], W.fmt(x[2])))
            elif x[0] == 'partial':
                c.violation(key + ':partial', '%s: %s on %s may transfer fewer bytes than asked' % (shape(r), x[1], W.fmt(x[2])))
            elif x[0] == 'panic' and isinstance(x[-1], tuple) and x[-1] and x[-1][0] == 'io':
                c.violation(key + ':panic', '%s: a failing %s panics' % (shape(r), x[-1][1]))
            elif x[0] == 'do' and isinstance(x[1], tuple):
                n = str(x[1][1]).split('::')[-1] if x[1][0] in ('call', 'm') else ''
                n = n if n in FALLIBLE else (str(x[1][1][1]).split('::')[-1] if x[1][0] in ('await',) and isinstance(x[1][1], tuple) else '')
                if n in FALLIBLE:
                    c.violation(key + ':lost', '%s: the result of %s is not returned' % (shape(r), n))
    wire.compare(c, {'d': {'DecodeRef', 'DecodeForeign', 'DecodePrimitive', 'DecodeRepr', 'DecodePrimitiveArray', 'DecodeReprArray', 'Loop', 'Skip', 'Error', 'Return'},
                     'e': {'EncodeRef', 'EncodeForeign', 'EndStream', 'EmitBuf', 'EncodePrimitive', 'EncodeEnum', 'EncodeBitfield', 'EncodePrimitiveArray', 'EncodeReprArray', 'Pad', 'Loop'}})


def modes(c):
    c.rule('for every shape of every instruction the effects of the asynchronous text, with the awaits removed, equal those of the '
           'synchronous text; every asynchronous operation is awaited; nested instructions and nested coders are those of the same mode')
    for side in 'de':
        for n in ((1, 2, 3) if c.tier == 'thorough' else (1, 2)):
            I0, s0 = wire.trees(c, side, 0, n)
            I1, s1 = wire.trees(c, side, 1, n)
            by = {(r.variant, tuple(r.labels)): (r, es) for r, es in s0}
            for r, es in s1:
                key = 'template:%s:%s' % (SIDEN[side], r.variant)
                o = by.pop((r.variant, tuple(r.labels)), None)
                if o is None:
                    c.violation(key, '%s has no synchronous form' % shape(r))
                    continue
                if any(isinstance(x, str) for x in es + o[1]):
                    c.undecided(shape(r), 'unparsed')
                    continue
                bad = []
                x = {wire.norm(e, side, 1, bad) for e in es}
                y = {wire.norm(e, side, 0, bad) for e in o[1]}
                drop = lambda s: {tuple(z for z in t if z[0] not in ('lost', 'noawait', 'partial')) for t in s}
                fx, fy = drop(x), drop(y)
                if any(z[0] == 'unknown' for e in es + o[1] for z in W.walk(e)):
                    c.undecided(shape(r), 'unknown construct')
                    continue
                c.check('shapes compared', fx == fy, key, '%s: asynchronous code does %s where synchronous code does %s' % ((shape(r),) + (wire.diff(min(fx, key=repr), min(fy, key=repr)) if fx and fy else ('', ''))))
                for b in bad:
                    c.violation(key + ':mode', '%s: %s' % (shape(r), b))
                for e in es:
                    for z in W.walk(e):
                        if z[0] == 'noawait':
                            c.violation(key + ':await', '%s: %s on %s is not awaited' % (shape(r), z[1], W.fmt(z[2])))
                for e in o[1]:
                    if 'await' in repr(e):
                        c.violation(key + ':await', '%s: synchronous code awaits' % shape(r))
    c.floor('shapes compared', 500)


UNSAFE = {'unsafe', 'set_len', 'get_unchecked', 'get_unchecked_mut', 'from_utf8_unchecked', 'transmute', 'from_raw_parts', 'from_raw_parts_mut',
          'MaybeUninit', 'uninit', 'assume_init', 'zeroed', 'from_u32_unchecked', 'unwrap_unchecked', 'unreachable_unchecked', 'as_mut_ptr',
          'as_ptr', 'read_unaligned', 'read_volatile', 'extern', 'static_mut'}


def unsafety(c):
    c.rule('no string constant of any code-emitting function of the crate is a token (or contains a token, where it is parsed as tokens) that '
           'opens or needs an unsafe operation; no emitted template evaluates to an unsafe effect')
    import re
    m = c.mir
    for f in m.fns.values():
        if not f.local:
            continue
        emits = False
        toks = []
        for cs, kind in const_strings(f):
            toks.append(cs)
        if not toks:
            continue
        c.analysed.add(f.d)
        for t in toks:
            c.ob('string constants')
            words = re.findall(r'[A-Za-z_][A-Za-z0-9_]*', t)
            code = len(words) == 1 and t.strip() == words[0] or re.search(r'[{};()]', t)
            for w in words:
                if w in UNSAFE and code:
                    c.violation('unsafe:%s:%s' % (f.d.split('::{')[0], w), 'the token `%s` is emitted' % w, f.d)
    for side, a, r, e in each(c):
        c.ob('templates')
        for x in W.walk(e):
            if x[0] == 'unsafe':
                c.violation('template:%s:%s:unsafe' % (SIDEN[side], r.variant), '%s contains an unsafe block' % shape(r))
    c.floor('string constants', 300)


def const_strings(f):
    for b in f.blocks:
        yield from strs(b)


def strs(x):
    if isinstance(x, dict):
        for k, v in x.items():
            if k == 'str' and isinstance(v, str):
                yield v, 'str'
            else:
                yield from strs(v)
    elif isinstance(x, (list, tuple)):
        if len(x) == 2 and x[0] == 's' and isinstance(x[1], str):
            yield x[1], 's'
            return
        for y in x:
            yield from strs(y)


def terms(e):
    """every term below an effect"""
    if isinstance(e, tuple):
        yield e
        for x in e:
            yield from terms(x)


def panics(c, side):
    what = {'d': 'stream contents', 'e': 'the value being encoded'}[side]
    for sd, a, r, e in each(c, side):
        c.ob('templates')
        key = 'template:%s:%s' % (SIDEN[sd], r.variant)
        for x in W.walk(e):
            c.ob('effects')
            if x[0] == 'panic':
                t = x[2]
                if t is not None and infallible(r, t):
                    continue
                c.violation(key + ':panic', '%s: %s on %s can panic depending on %s' % (shape(r), x[1], W.fmt(t) if t else 'reach', what))
            elif x[0] == 'alloc' and side == 'd':
                t = x[1]
                if not bounded(t):
                    c.violation(key + ':alloc', '%s: memory for %s is reserved before that many bytes were read' % (shape(r), W.fmt(t)))
            elif x[0] == 'loop' and side == 'd':
                # an endless loop ends on every path that does not consume input
                if not any(y[0] in ('break', 'fail', 'err', 'ret') for y in W.walk(x[-1])):
                    c.violation(key + ':progress', '%s: endless loop' % shape(r))
                elif not advances(x[-1]):
                    c.violation(key + ':progress', '%s: an iteration may neither consume input nor end the loop' % shape(r))
            elif x[0] == 'while' and side == 'd' and not advances(x[-1]):
                c.violation(key + ':progress', '%s: an iteration may neither consume input nor end the loop' % shape(r))
        for t in terms(e):
            if not t or not isinstance(t[0], str):
                continue
            if t[0] == 'bin' and len(t) == 4 and t[1] in ('+', '-', '*', '/', '%', '<<', '>>'):
                if not safe_arith(t, e):
                    c.violation(key + ':arith', '%s: unchecked %s' % (shape(r), W.fmt(t)))
            elif t[0] in ('idx',) and len(t) == 3:
                if r.variant == 'GetField' and 'ArrayAccess' in t[2][1]:
                    # the register is the counter of a loop over the checked length (rule on instruction sequences)
                    continue
                if not safe_index(t, e):
                    c.violation(key + ':index', '%s: unchecked index %s' % (shape(r), W.fmt(t)))
            elif t[0] == 'slice' and len(t) == 4:
                c.violation(key + ':index', '%s: unchecked range %s' % (shape(r), W.fmt(t)))


def infallible(r, t):
    """conversions of a slice to an array of the same constant size; buffers just filled in"""
    if r.variant == 'ConditionalWrapStream' and t[0] == 'm' and t[1] == 'as_mut':
        return True
    if t and t[0] == 'v' and r.variant == 'ConditionalWrapStream':
        return True
    return t and t[0] in ('chunk',)


def bounded(t):
    return t[0] == 'n' or t[0] == 'len' or t[0] == 'sizeof' or t[0] == 'm' and t[1] == 'min'


def advances(body):
    """some progress test or consumption on every iteration"""
    for x in body:
        if x[0] == 'fail' and 'at' in repr(x[1]):
            return True
        if x[0] in ('read', 'consume') and x[2] != ('n', '0'):
            return True
    return False


def safe_arith(t, e):
    # checked_mul(..).ok_or_else(..)? leaves ('fail', ('overflow', op, a, b)) next to the product
    for x in W.walk(e):
        if x[0] == 'fail' and x[1] == ('overflow', t[1], t[2], t[3]):
            return True
    if t[2][0] == 'n' and t[3][0] == 'n':
        return True
    if t[1] in ('/', '%') and t[3][0] in ('n', 'sizeof') and t[3] != ('n', '0'):
        return True
    return False


def safe_index(t, e):
    # a byte of an exact read of constant size
    if t[1][0] == 'bytes' and t[2][0] == 'n':
        for x in W.walk(e):
            if x[0] == 'read' and x[3] == t[1][1] and x[2][0] == 'n':
                return int(t[2][1]) < int(x[2][1])
    if t[1][0] == 'bytes' and t[2][0] == 'each':
        return True
    if t[1][0] == 'chunk' and t[2] == ('n', '0'):
        return True
    return False


def decode_total(c):
    c.rule('no emitted decoding template contains a panicking call, unchecked arithmetic, indexing or slicing on stream data, reserves memory '
           'by an unverified length, or loops without consuming input or testing for progress')
    panics(c, 'd')
    decode_guards(c)


def encode_total(c):
    c.rule('no emitted encoding template contains a panicking call, unchecked arithmetic, indexing or slicing on the encoded value')
    panics(c, 'e')
    guards(c)
