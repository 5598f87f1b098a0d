"""Instruction templates: the Rust text emitted for one symbolic coder instruction."""
from .an import *
from .rustmini import parse_stmts, strip, sx, RErr

SIDES = {'d': ('decoder::prepare_decode', 'coder::decode::instruction::Instruction'),
         'e': ('EncoderContext::prepare_encode', 'coder::encode::instruction::Instruction')}


def gen_hooks(c):
    """built-in code generators are opaque here (they are analysed on their own)"""
    m = c.mir
    hk = {}
    return hk


def templates(c, side, is_async, opts_debug=0):
    """[(variant, state, token value)] for one symbolic instruction"""
    m = c.mir
    fs, isfx = SIDES[side]
    fn = fnd(m, fs)
    ity = m.adt(isfx)
    st = State()
    I_ = Interp(m, {})
    st.store[('H', 'ins')] = ('q', (('1', ('A', 'x', ity)),))
    ins = ('r', ('H', 'ins'), ())
    args = []
    nb = 0
    for i in range(fn.argc):
        t = I_.T[fn.locals[i + 1]]
        n = t['n']
        if 'Instruction' in n:
            args.append(ins)
        elif n == 'bool':
            # decoder: (is_async, is_root); encoder: (is_root)
            args.append(I(is_async if side == 'd' and nb == 0 else 0))
            nb += 1
        elif 'EncoderContext' in n:
            ety = t['e']
            fs_ = I_.T[ety]['v'][0]['f']
            st.store[('H', 'ectx')] = ('v', ety, 0, tuple(I(is_async) if f[0] == 'is_async' else I_.atom('refs', f[1]) for f in fs_))
            args.append(('r', ('H', 'ectx'), ()))
        elif 'CompileOptions' in n:
            ety = t['e']
            fs_ = I_.T[ety]['v'][0]['f']
            st.store[('H', 'opts')] = ('v', ety, 0, tuple(I(opts_debug) if f[0] == 'debug_mode' else I_.atom('options.' + f[0], f[1]) for f in fs_))
            args.append(('r', ('H', 'opts'), ()))
        elif 'Context' in n:
            st.store[('H', 'dctx')] = I_.atom('context', t['e'])
            args.append(('r', ('H', 'dctx'), ()))
        else:
            args.append(I_.atom('arg%d' % i, fn.locals[i + 1]))
    hk = gen_hooks(c)
    for f in m.fns.values():
        if f.local and (f.d.endswith('expr::emit_expression') or 'emit_expression' in f.name.split('::<')[0].split('::')[-1]):
            hk[f.name] = lambda I_, st, args, info, rty, site: [(st, I_.atom('expr(%s)' % name_of(I_.resolve(st, args[0], 3)), rty))]
    I_, outs = run(c, fn, [], hooks=hk, st=st, args=args, setup=lambda I2: setattr(I2, 'part_limit', 2000))
    res = []
    for s, v in outs:
        for n in sorted(allowed_variants(I_, s, 'x', ity)):
            res.append((n, s, v))
    return I_, res


# ------------------------------------------------------------------ concrete instruction shapes
import itertools


def shapes(I_, ty, name, n, depth=0):
    """values of a field type, enumerated: [(label, value)]"""
    t = I_.T[ty]
    k = t['k']
    if k == 'bool':
        return [('0', I(0)), ('1', I(1))]
    if k == 'tuple':
        parts = [shapes(I_, e, '%s.%d' % (name, i), n, depth + 1) for i, e in enumerate(t['e'])]
        return [(','.join(l for l, _ in xs if l), ('v', ty, 0, tuple(v for _, v in xs))) for xs in itertools.product(*parts)]
    if k == 'adt' and t['crate'] in ('alloc', 'std', 'core'):
        d = t['d'].split('::')[-1]
        if d == 'Vec':
            et = t['args'][0]
            if I_.T[et]['n'].endswith('Instruction'):
                return [('', I_.atom(name, ty))]
            per = [shapes(I_, et, '%s[%d]' % (name, i), n, depth + 1) for i in range(n)]
            out = []
            for xs in itertools.product(*per):
                out.append(('[%s]' % ';'.join(l for l, _ in xs) if any(l for l, _ in xs) else '', ('q', tuple(('1', v) for _, v in xs))))
            return out
        if d == 'Option':
            return [('None', ('v', ty, 0, ()))] + [('Some' + ('(%s)' % l if l else ''), ('v', ty, 1, (v,))) for l, v in shapes(I_, t['args'][0], name + '!', n, depth + 1)]
        return [('', I_.atom(name, ty))]
    if k == 'adt' and t['crate'] == 'protospec_build' and depth < 6:
        d = t['d'].split('::')[-1]
        if d in ('Target', 'PrimitiveType', 'Constructable', 'FieldRef', 'Endian', 'ScalarType', 'EndianScalarType'):
            out = []
            for vi, v in enumerate(t['v']):
                single = len(t['v']) == 1
                parts = [shapes(I_, f[1], name + ('.' + f[0] if single else '@%s.%s' % (v['n'], f[0])), n, depth + 1) for f in v['f']]
                for xs in itertools.product(*parts):
                    inner = ','.join(l for l, _ in xs if l)
                    lab = (inner if single else v['n'] + ('(%s)' % inner if inner else ''))
                    out.append((lab, ('v', ty, vi, tuple(v for _, v in xs))))
            return out
    return [('', I_.atom(name, ty))]


class Conc:
    """one concrete instruction and what is emitted for it"""
    __slots__ = ('side', 'variant', 'labels', 'outs', 'is_async', 'n')


def concrete(c, side, is_async, n=2, only=None, skip=()):
    m = c.mir
    fs, isfx = SIDES[side]
    fn = fnd(m, fs)
    ity = m.adt(isfx)
    res = []
    I0 = Interp(m, {})
    hk = {}
    for f in m.fns.values():
        if f.local and (f.d.endswith('expr::emit_expression') or 'emit_expression' in f.name.split('::<')[0].split('::')[-1]):
            hk[f.name] = lambda I_, st, args, info, rty, site: [(st, I_.atom('expr(%s)' % name_of(I_.resolve(st, args[0], 3)), rty))]
    hk2 = {m.fn('ContainerType::flatten_view').name: H.flatten_view}
    hk2.update(hk)
    I_ = Interp(m, hk2)
    I_.part_limit = 2000
    for vi, v in enumerate(I0.T[ity]['v']):
        if only is not None and v['n'] not in only or v['n'] in skip:
            continue
        parts = [shapes(I0, f[1], 'a%s' % f[0], n) for f in v['f']]
        for xs in itertools.product(*parts):
            st = State()
            st.store[('H', 'ins')] = ('q', (('1', ('v', ity, vi, tuple(x for _, x in xs))),))
            args = l2_args(I_, fn, st, side, is_async)
            r = Conc()
            r.side, r.variant, r.is_async, r.n = side, v['n'], is_async, n
            r.labels = [l for l, _ in xs]
            r.outs = I_.run(fn, args, st)
            res.append(r)
    note(c, I_)
    return I_, res


def l2_args(I_, fn, st, side, is_async):
    args, nb = [], 0
    for i in range(fn.argc):
        t = I_.T[fn.locals[i + 1]]
        n = t['n']
        if 'Instruction' in n:
            args.append(('r', ('H', 'ins'), ()))
        elif n == 'bool':
            args.append(I(is_async if side == 'd' and nb == 0 else 0))
            nb += 1
        elif 'EncoderContext' in n or 'CompileOptions' in n:
            ety = t['e']
            w = {'is_async': I(is_async), 'debug_mode': I(0)}
            pre = '' if 'EncoderContext' in n else 'options.'
            root = ('H', 'ectx' if pre == '' else 'opts')
            st.store[root] = ('v', ety, 0, tuple(w.get(f[0]) or I_.atom(pre + ('refs' if f[0] == 'resolved_refs' else f[0]), f[1]) for f in I_.T[ety]['v'][0]['f']))
            args.append(('r', root, ()))
        elif 'Context' in n:
            st.store[('H', 'dctx')] = I_.atom('context', t['e'])
            args.append(('r', ('H', 'dctx'), ()))
        else:
            args.append(I_.atom('arg%d' % i, fn.locals[i + 1]))
    return args
