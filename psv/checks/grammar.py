"""Grammar extraction: every parser function is summarised as the set of token sequences it
consumes together with the tree it builds (abstract interpretation of the parser with the token
cursor replaced by an event recorder)."""
import re
from ..an import *
from ..interp import deep_map

NT = {  # grammar symbol -> parser function
    'program': 'parse_program', 'declaration': 'parse_declaration', 'type_declaration': 'parse_type_declaration',
    'import_declaration': 'parse_import_declaration', 'ffi_declaration': 'parse_ffi_declaration',
    'const_declaration': 'parse_const_declaration', 'type': 'parse_type', 'container': 'parse_container',
    'enum': 'parse_enum', 'bitfield': 'parse_bitfield', 'length': 'parse_length_constraint', 'field': 'parse_field',
    'scalar': 'parse_scalar_type', 'arguments': 'parse_arguments', 'flags': 'parse_flags',
    'expression': 'parse_expression', 'or': 'parse_or_expression', 'and': 'parse_and_expression',
    'bit_or': 'parse_bit_or_expression', 'bit_xor': 'parse_bit_xor_expression', 'bit_and': 'parse_bit_and_expression',
    'eq': 'parse_eq_expression', 'rel': 'parse_rel_expression', 'shift': 'parse_shift_expression',
    'add': 'parse_add_expression', 'multiply': 'parse_multiply_expression', 'cast': 'parse_cast_expression',
    'unary': 'parse_unary_expression', 'index': 'parse_array_index_expression', 'primary': 'parse_primary_expression',
}
EV = ('H', 'events')


class TokHooks:
    def __init__(self, c, opaque=True):
        self.c = c
        m = self.m = c.mir
        self.tok_ty = m.adt('tokenizer::Token')
        self.tokens = [v['n'] for v in m.types[self.tok_ty]['v']]
        self.nts = {}
        self.I = None

    # -- building blocks
    def uid(self, site):
        return '%d.%d' % (self.I.stack[-1].id, site[1] if isinstance(site, tuple) and len(site) > 1 else 0)

    def ev(self, st, e):
        v = st.store.get(EV, ('q', ()))
        st.store[EV] = ('q', v[1] + (('1', ('ev',) + e),))
        return st

    def toklist(self, st, v):
        """concrete token values in a slice argument"""
        v = self.I.resolve(st, v, 6)
        while v[0] == 'r' and isinstance(v[1], tuple) and v[1] and v[1][0] == 'K':
            v = v[1][1]
        if v[0] == 'r':
            r = self.I.read_ref(st, v) if hasattr(self.I, 'read_ref') else None
            v = r or v
        if v[0] == 'v' and v[1] != self.tok_ty and (v[3] and all(x[0] in ('v', 'A') for x in v[3])):
            elems = v[3]                       # a slice of tokens
        elif v[0] == 'q':
            elems = [x[1] for x in v[1]]
        else:
            elems = [v]
        out = []
        for x in elems:
            if x[0] == 'v' and (x[1] == self.tok_ty or x[1] is None):
                out.append(('v', self.tok_ty) + x[2:])
            else:
                out.append(None)
        return out

    def payload(self, rty, variant=1):
        return self.I.T[rty]['v'][variant]['f'][0][1]

    def spanned(self, ty, tok, span):
        fs = [f[0] for f in self.I.T[ty]['v'][0]['f']]
        vals = {'token': tok, 'span': span}
        return ('v', ty, 0, tuple(vals[f] for f in fs))

    def span_atom(self, ty, name):
        for f in self.I.T[ty]['v'][0]['f']:
            if f[0] == 'span':
                return self.I.atom(name, f[1])
        return self.I.atom(name, None)

    def fork(self, st, uid, tag):
        s = st.copy()
        s.facts[('ev', uid)] = (True, frozenset([tag]))
        return s

    def result(self, rty, okv, is_option, failed):
        if is_option:
            return ('v', rty, 1, (okv,)) if not failed else ('v', rty, 0, ())
        if failed:
            return ('v', rty, 1, (('A', 'perr:' + failed, self.payload(rty, 1)),))
        return ('v', rty, 0, (okv,))

    # -- cursor operations
    def op_tokens(self, I_, st, args, rty, site, want, fallible):
        """consume one of the tokens `want` (values)"""
        uid = self.uid(site)
        opt = 'option::Option' in I_.T[rty]['n'].split('<')[0]
        res = []
        for tv in want:
            if tv is None:
                tv = ('A', 'tok?' + uid, self.tok_ty)
                nm = '?'
            else:
                nm = self.tokens[tv[2]]
            s = self.fork(st, uid, nm)
            self.ev(s, ('tok', nm, uid))
            pt = self.payload(rty, 1 if opt else 0)
            pn = I_.T[pt]
            if pn['k'] == 'adt' and pn['d'].endswith('SpannedToken'):
                v = self.spanned(pt, tv, self.span_atom(pt, 'sp:%s@%s' % (nm, uid)))
            else:
                v = I_.atom('sp:%s@%s' % (nm, uid), pt)
            res.append((s, self.result(rty, v, opt, False)))
        s = self.fork(st, uid, '-')
        res.append((s, self.result(rty, None, opt, uid)))
        return res

    def h_eat(self, I_, st, args, info, rty, site):
        return self.op_tokens(I_, st, args, rty, site, self.toklist(st, args[1]) or [None], True)

    def h_lit(self, kind):
        def h(I_, st, args, info, rty, site):
            uid = self.uid(site)
            s = self.fork(st, uid, kind)
            self.ev(s, (kind, kind, uid))
            pt = self.payload(rty, 0)
            r = [(s, self.result(rty, I_.atom('%s@%s' % (kind, uid), pt), False, False))]
            r.append((self.fork(st, uid, '-'), self.result(rty, None, False, uid)))
            return r
        return h

    def h_any(self, I_, st, args, info, rty, site):
        uid = self.uid(site)
        opt = 'option::Option' in I_.T[rty]['n'].split('<')[0]
        s = self.fork(st, uid, 'any')
        self.ev(s, ('any', uid, uid))
        pt = self.payload(rty, 1 if opt else 0)
        v = self.spanned(pt, I_.atom('any@' + uid, self.tok_ty), self.span_atom(pt, 'sp:any@' + uid))
        return [(s, self.result(rty, v, opt, False)), (self.fork(st, uid, '-'), self.result(rty, None, opt, uid))]

    def h_peek_token(self, I_, st, args, info, rty, site):
        uid = self.uid(site)
        tl = self.toklist(st, args[1])
        nm = self.tokens[tl[0][2]] if tl and tl[0] is not None else '?'
        res = []
        for b in (1, 0):
            s = self.fork(st, uid, 'peek%d' % b)
            self.ev(s, ('peek', nm, b, uid))
            res.append((s, ('v', rty, 0, (I(b),))))
        res.append((self.fork(st, uid, '-'), self.result(rty, None, False, uid)))
        return res

    def h_peek(self, I_, st, args, info, rty, site):
        uid = self.uid(site)
        s = self.fork(st, uid, 'peek')
        self.ev(s, ('peekany', uid, uid))
        pt = self.payload(rty, 0)
        return [(s, self.result(rty, ('r', ('M', 'peek@' + uid, self.tok_ty), ()), False, False)),
                (self.fork(st, uid, '-'), self.result(rty, None, False, uid))]

    def h_peek_span(self, I_, st, args, info, rty, site):
        uid = self.uid(site)
        pt = self.payload(rty, 0)
        return [(st.copy(), self.result(rty, I_.atom('peekspan@' + uid, pt), False, False)),
                (self.fork(st, uid, '-'), self.result(rty, None, False, uid))]

    def h_has_next(self, I_, st, args, info, rty, site):
        uid = self.uid(site)
        a, b = self.fork(st, uid, 'more'), self.fork(st, uid, 'end')
        self.ev(a, ('more', uid, uid))
        self.ev(b, ('end', uid, uid))
        return [(a, I(1)), (b, I(0))]

    def h_nt(self, sym):
        def h(I_, st, args, info, rty, site):
            if len(I_.stack) < 1:
                return None
            uid = self.uid(site)
            opt = 'option::Option' in I_.T[rty]['n'].split('<')[0]
            s = self.fork(st, uid, sym)
            self.ev(s, ('nt', sym, uid))
            pt = self.payload(rty, 1 if opt else 0)
            extra = ''
            for i, a in enumerate(args[1:]):
                if a[0] == 'r':  # &mut out parameters
                    fn = I_.m.fns.get(info.get('key'))
                    if fn is not None and I_.T[fn.locals[i + 2]].get('mut'):
                        root, path = I_.deref(s, a)
                        I_.write(s, root, path, I_.atom('out:%s@%s' % (sym, uid), I_.T[fn.locals[i + 2]]['e']))
            v = I_.atom('nt:%s@%s' % (sym, uid), pt)
            return [(s, self.result(rty, v, opt, False)), (self.fork(st, uid, '-'), self.result(rty, None, opt, uid))]
        return h

    def hooks(self, root):
        m = self.m
        hk = {}
        base = 'TokenIter::'
        for suffix, h in (('eat', self.h_eat), ('eat_any', self.h_eat), ('expect', self.h_eat), ('expect_oneof', self.h_eat),
                          ('expect_ident', self.h_lit('ident')), ('expect_string', self.h_lit('string')),
                          ('expect_any', self.h_any), ('peek_token', self.h_peek_token), ('peek', self.h_peek),
                          ('peek_span', self.h_peek_span), ('has_next', self.h_has_next)):
            try:
                hk[m.fn(base + suffix).name] = h
            except KeyError:
                pass
        for f in m.fns.values():
            if f.local and 'TokenIter as std::iter::Iterator>::next' in f.name:
                hk[f.name] = self.h_any
        for sym, fname in NT.items():
            for f in m.fns.values():
                if f.local and f.d.endswith('::' + fname) and f.d.startswith('protospec_build::parser') or f.local and f.name.endswith('parser::' + fname):
                    if f is not root:
                        hk[f.name] = self.h_nt(sym)
                        self.nts[sym] = f
                    else:
                        hk[f.name] = self.h_nt(sym)
        return hk

    def analyse(self, fn):
        """-> (I_, [(state, events, value)])"""
        hk = self.hooks(fn)
        I_ = Interp(self.m, hk)
        I_.merge_returns = False
        self.I = I_
        I_.coarse = True
        st = State()
        st.store[EV] = ('q', ())
        st.store[('H', 'iter')] = I_.atom('cursor', None)
        args = []
        for i in range(fn.argc):
            t = I_.T[fn.locals[i + 1]]
            if 'TokenIter' in t['n']:
                args.append(('r', ('H', 'iter'), ()))
            elif t['k'] == 'ref':
                st.store[('H', 'arg%d' % i)] = I_.atom('arg%d' % i, t['e'])
                args.append(('r', ('H', 'arg%d' % i), ()))
            else:
                args.append(I_.atom('arg%d' % i, fn.locals[i + 1]))
        outs = I_.run(fn, args, st)
        note(self.c, I_)
        return I_, [(s, [it[1][1:] if it[0] == '1' and it[1][0] == 'ev' else it for it in s.store[EV][1]], v) for s, v in outs]
