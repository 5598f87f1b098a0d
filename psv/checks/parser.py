"""C18: the parser as a function of its token sequence.  C15: it does not panic on any of them.  C22: the spans of its tree.

`parse` is interpreted on token sequences some of whose tokens are unknown (any token without payload); every outcome carries the
exact set of tokens that leads to it, and is compared with the tree that the documented grammar gives."""
import itertools
from ..an import *
from . import lexer

SCALARS = {k: (k[:-2] if k.endswith('le') else k) for k in lexer.KEYWORDS if k[0] in 'iu' and k[1:2].isdigit()}
SIMPLE = [x for x in lexer.OPERATORS + lexer.KEYWORDS]
BIN = [  # loosest first
    {'||': 'Or'}, {'&&': 'And'}, {'|': 'BitOr'}, {'^': 'BitXor'}, {'&': 'BitAnd'}, {'==': 'Eq', '!=': 'Ne'},
    {'<': 'Lt', '<=': 'Lte', '>': 'Gt', '>=': 'Gte'}, {'<<': 'Shl', '>>': 'Shr', '>>>': 'ShrSigned'}, {'+': 'Add', '-': 'Sub'},
    {'*': 'Mul', '/': 'Div', '%': 'Mod'}]
UN = {'-': 'Negate', '!': 'Not', '~': 'BitNot'}


class Reject(Exception):
    pass


class Ref:
    """the documented grammar, as a recursive descent over [(kind, payload)]; trees are ('Variant', …) and {field: …} with 'span': (first, last) token"""

    def __init__(self, toks):
        self.t, self.i = toks, 0

    def k(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def eat(self, *ks):
        if self.k() in ks and self.k() is not None:
            self.i += 1
            return self.i - 1
        return None

    def need(self, *ks):
        r = self.eat(*ks)
        if r is None:
            raise Reject()
        return r

    def last(self, a):
        return (a, self.i - 1)

    def ident(self):
        i = self.need('Ident')
        return {'name': self.t[i][1], 'span': (i, i)}

    def string(self):
        i = self.need('String')
        return {'content': self.t[i][1], 'span': (i, i)}

    # declarations
    def program(self):
        out = []
        while self.i < len(self.t):
            k = self.k()
            if k == 'type':
                d = ('Type', self.type_declaration())
            elif k == 'import':
                d = ('Import', self.import_declaration())
            elif k == 'import_ffi':
                d = ('Ffi', self.ffi_declaration())
            elif k == 'const':
                d = ('Const', self.const_declaration())
            else:
                raise Reject()
            self.need(';')
            out.append(d)
        return {'declarations': out}

    def type_declaration(self):
        a = self.need('type')
        name, args = self.ident(), []
        if self.eat('(') is not None:
            while self.eat(')') is None:
                b = self.i
                n = self.ident()
                self.need(':')
                t = self.type_()
                d = self.expression() if self.eat('?') is not None else None
                args.append({'name': n, 'type_': t, 'default_value': d, 'span': self.last(b)})
                if self.eat(',') is None:
                    self.need(')')
                    break
        self.need('=')
        v = self.field()
        return {'name': name, 'arguments': args, 'value': v, 'span': self.last(a)}

    def import_declaration(self):
        a, items = self.need('import'), []
        while True:
            b = self.i
            n = self.ident()
            al = self.ident() if self.eat('as') is not None else None
            items.append({'name': n, 'alias': al, 'span': self.last(b)})
            if self.eat(',') is None or self.k() == 'from':
                break
        self.need('from')
        s = self.string()
        return {'items': items, 'from': s, 'span': self.last(a)}

    def ffi_declaration(self):
        a = self.need('import_ffi')
        n = self.ident()
        self.need('as')
        k = self.need('transform', 'type', 'function')
        return {'name': n, 'ffi_type': (self.t[k][0].capitalize(),), 'span': self.last(a)}

    def const_declaration(self):
        a = self.need('const')
        n = self.ident()
        self.need(':')
        t = self.type_()
        self.need('=')
        v = self.expression()
        return {'name': n, 'type_': t, 'value': v, 'span': self.last(a)}

    # types
    def scalar(self):
        k = self.eat(*SCALARS)
        if k is None:
            return None
        w = self.t[k][0]
        return {'scalar': (SCALARS[w].upper(),), 'endian': ('Little' if w.endswith('le') else 'Big',)}

    def base_type(self):
        k, a = self.k(), self.i
        if k == 'container':
            return ('Container', self.container())
        if k == 'enum':
            return ('Enum', self.enum())
        if k == 'bitfield':
            return ('Bitfield', self.bitfield())
        s = self.scalar()
        if s:
            return ('Scalar', s)
        if k in ('f32', 'f64', 'bool'):
            self.i += 1
            return (k.capitalize(),)
        n = self.ident()
        args = self.arguments()
        return ('Ref', {'name': n, 'arguments': args, 'span': self.last(a)})

    def type_(self):
        a = self.i
        out = {'raw_type': self.base_type(), 'span': self.last(a)}
        while self.eat('[') is not None:
            b = self.i
            more = self.eat('..') is not None
            e = None
            if self.k() != ']':
                e = self.expression()
            elif not more:
                raise Reject()
            ln = {'expandable': int(more), 'inner': e, 'span': self.last(b)}
            self.need(']')
            out = {'raw_type': ('Array', {'interior_type': out, 'length': ln, 'span': self.last(a)}), 'span': self.last(a)}
        return out

    def arguments(self):
        out = []
        if self.eat('(') is not None:
            while self.eat(')') is None:
                out.append(self.expression())
                if self.eat(',') is None:
                    self.need(')')
                    break
        return out

    def flags(self):
        out = []
        while self.eat('+') is not None:
            out.append(self.ident())
        return out

    def clause(self):
        if self.eat('{') is None:
            return None
        e = self.expression()
        self.need('}')
        return e

    def field(self):
        a = self.i
        t = self.type_()
        calc = self.expression() if self.eat('=') is not None else None
        flags = self.flags()
        cond = self.clause()
        trs = []
        while self.eat('->') is not None:
            b = self.i
            n = self.ident()
            args = self.arguments()
            c = self.clause()
            trs.append({'name': n, 'arguments': args, 'conditional': c, 'span': self.last(b)})
        return {'type_': t, 'calculated': calc, 'flags': flags, 'condition': cond, 'transforms': trs, 'span': self.last(a)}

    def container(self):
        a, ln = self.need('container'), None
        if self.eat('[') is not None:
            ln = self.expression()
            self.need(']')
        flags, items = self.flags(), []
        self.need('{')
        while self.k() != '}':
            if self.eat('.') is not None:
                if self.ident()['name'] != 'pad':
                    raise Reject()
                self.need(':')
                items.append(('Pad', self.expression()))
            else:
                n = self.ident()
                self.need(':')
                items.append(('Field', n, self.field()))
            if self.eat(',') is None:
                break
        self.need('}')
        return {'length': ln, 'flags': flags, 'items': items, 'span': self.last(a)}

    def members(self, a, default):
        rep = self.scalar()
        if rep is None:
            raise Reject()
        self.need('{')
        items = []
        while True:
            n = self.ident()
            if self.k() != '=' and not items:
                raise Reject()
            if self.eat('=') is None:
                v = ('None',) if default else None
            elif default and self.eat('default') is not None:
                v = ('Default',)
            else:
                e = self.expression()
                v = ('Expression', e) if default else e
            items.append(('', n, v))
            if self.eat(',') is None or self.k() == '}':
                break
        self.need('}')
        return {'rep': rep, 'items': items, 'span': self.last(a)}

    def enum(self):
        return self.members(self.need('enum'), True)

    def bitfield(self):
        return self.members(self.need('bitfield'), False)

    # expressions: (variant, {…})
    def span(self, e):
        return e[1]['span']

    def join(self, x, y):
        return (min(x[0], y[0]), max(x[1], y[1]))

    def expression(self):
        e = self.binary(0)
        if self.eat('?') is None:
            return e
        x = self.expression()
        self.need(':')
        y = self.binary(0)
        return ('Ternary', {'condition': e, 'if_true': x, 'if_false': y, 'span': self.join(self.span(e), self.span(y))})

    def binary(self, lv):
        if lv == len(BIN):
            return self.cast()
        e = self.binary(lv + 1)
        while True:
            k = self.eat(*BIN[lv])
            if k is None:
                return e
            r = self.binary(lv + 1)
            e = ('Binary', {'op': (BIN[lv][self.t[k][0]],), 'left': e, 'right': r, 'span': self.join(self.span(e), self.span(r))})

    def cast(self):
        e = self.unary()
        while True:
            k = self.eat(':>', '?:')
            if k is None:
                return e
            if self.t[k][0] == ':>':
                t = self.type_()
                e = ('Cast', {'inner': e, 'type_': t, 'span': self.join(self.span(e), t['span'])})
            else:
                r = self.unary()
                e = ('Binary', {'op': ('Elvis',), 'left': e, 'right': r, 'span': self.join(self.span(e), self.span(r))})

    def unary(self):
        k = self.eat(*UN)
        if k is None:
            return self.index()
        e = self.unary()
        return ('Unary', {'op': (UN[self.t[k][0]],), 'inner': e, 'span': (k, self.span(e)[1])})

    def index(self):
        e = self.primary()
        while True:
            k = self.eat('[', '.')
            if k is None:
                return e
            if self.t[k][0] == '[':
                x = self.expression()
                z = self.need(']')
                e = ('ArrayIndex', {'array': e, 'index': x, 'span': (self.span(e)[0], z)})
            else:
                m = self.ident()
                e = ('Member', {'target': e, 'member': m, 'span': (self.span(e)[0], m['span'][1])})

    def primary(self):
        k, a = self.k(), self.i
        if k is None:
            raise Reject()
        self.i += 1
        if k == 'Int':
            s = self.scalar()
            return ('Int', {'value': self.t[a][1], 'type_': s and s['scalar'], 'span': self.last(a)})
        if k == 'String':
            return ('Str', {'content': self.t[a][1], 'span': (a, a)})
        if k in ('true', 'false'):
            return ('Bool', {'value': int(k == 'true'), 'span': (a, a)})
        if k == 'Ident':
            n = {'name': self.t[a][1], 'span': (a, a)}
            if self.eat('::') is not None:
                v = self.ident()
                return ('EnumAccess', {'name': n, 'variant': v, 'span': self.last(a)})
            if self.k() == '(':
                args = self.arguments()
                return ('Call', {'function': n, 'arguments': args, 'span': self.last(a)})
            return ('Ref', n)
        if k == '(':
            e = self.expression()
            self.need(')')
            return e
        self.i = a
        raise Reject()


def reference(toks):
    try:
        return Ref(toks).program()
    except Reject:
        return None


class Parse:
    def __init__(self, c):
        self.c, self.m = c, c.mir
        m = self.m
        self.tok = m.adt('tokenizer::Token')
        self.vs = m.types[self.tok]['v']
        lx = lexer.Lex(c)
        lx.display()
        self.by = {t.strip(): n for n, t in lx.text.items()}
        self.vi = {v['n']: i for i, v in enumerate(self.vs)}
        self.spanned, self.span = m.adt('tokenizer::SpannedToken'), m.adt('tokenizer::Span')
        self.spf = [f[0] for f in m.types[self.span]['v'][0]['f']]
        self.fn = self.find('parser::parse')
        self.lexfn = self.find('tokenizer::tokenize')
        for k in SIMPLE:
            if k not in self.by:
                raise KeyError('token %s' % k)
        self.panics = []

    def find(self, d):
        r = [f for f in self.m.fns.values() if f.local and f.d.endswith(d)]
        if not r:
            raise KeyError('anchor ' + d)
        return r[0]

    def tokval(self, I_=None, k=None, p=None):
        if k == 'String':
            return ('v', self.tok, self.vi[k], (('q', tuple(('1', I(x)) for x in p)),))
        if k in ('Ident', 'Int'):
            return ('v', self.tok, self.vi[k], (('s', (p,)),))
        return ('v', self.tok, self.vi[self.by[k]], ())

    def spanval(self, i):
        f = {'line_start': 2 * i + 1, 'line_stop': 2 * i + 2, 'col_start': 100 + i, 'col_stop': 300 - i}
        return ('v', self.span, 0, tuple(I(f[x]) for x in self.spf))

    def run(self, toks, sym, allowed=None):
        """toks with the tokens at the positions of sym unknown -> [(facts, value, I_, st)]"""
        I_ = Interp(self.m, {})
        I_.unroll, I_.max_outcomes = 3000, 20000
        st, vals = State(), []
        for i, (k, p) in enumerate(toks):
            if i in sym:
                v = I_.atom('t%d' % i, self.tok)
                al = frozenset(I_.vdisc(self.tok, self.vi[self.by[x]]) for x in (allowed or SIMPLE))
                I_.assume(st, I_.discr(st, v), True, al)
            else:
                v = self.tokval(I_, k, p)
            fs = {'token': v, 'span': self.spanval(i)}
            vals.append(('v', self.spanned, 0, tuple(fs[f[0]] for f in self.m.types[self.spanned]['v'][0]['f'])))
        I_.hooks[self.lexfn.name] = lambda I_, st, args, info, rty, site: [(st, ('v', rty, 0, (('q', tuple(('1', x) for x in vals)),)))]
        for f in self.m.fns.values():
            # the text of error messages is not looked at
            if f.local and f.d.endswith('::fmt') or 'as std::fmt::Display>::fmt' in f.name:
                I_.hooks[f.name] = lambda I_, st, args, info, rty, site: [(st, ('v', rty, 0, (UNIT,)))]
        outs = I_.run(self.fn, [K(('s', ('x',)))], st)
        note(self.c, I_)
        for f, b, why, s in list(I_.panics) + list(I_.asserts):
            self.panics.append((toks, sym, f, why, s.facts))
        return [(s.facts, v, I_, s) for s, v in outs]

    def tree(self, I_, st, v, env):
        v = I_.resolve(st, v, 3)
        k = v[0]
        if k == 'i':
            return v[1]
        if k in ('K', 'b'):
            return self.tree(I_, st, v[1], env)
        if k == 'r':
            return self.tree(I_, st, I_.load(st, v), env)
        if k == 's':
            if all(isinstance(p, str) for p in v[1]):
                return ''.join(v[1])
            raise KeyError('text')
        if k == 'q':
            if any(x[0] != '1' for x in v[1]):
                raise KeyError('sequence')
            xs = [self.tree(I_, st, x[1], env) for x in v[1]]
            return xs
        if k == 'op' and v[1] == 'Eq' and v[2][0] == 'op' and v[2][1] == 'discr' and v[3][0] == 'i':
            return int(env[v[2][2][1]] == v[3][1])
        if k == 'op' and v[1] == 'Not':
            return 1 - self.tree(I_, st, v[2], env)
        if k == 'v':
            if v[1] == self.span:
                f = dict(zip(self.spf, (self.tree(I_, st, x, env) for x in v[3])))
                a, b = (f['line_start'] - 1) // 2, (f['line_stop'] - 2) // 2
                if f['line_start'] != 2 * a + 1 or f['col_start'] != 100 + a or f['line_stop'] != 2 * b + 2 or f['col_stop'] != 300 - b:
                    return ('mixed',) + tuple(sorted(f.items()))
                return (a, b)
            t = self.m.types[v[1]] if v[1] is not None else None
            fs = [self.tree(I_, st, x, env) for x in v[3]]
            if t is not None and t['k'] == 'adt' and t['ak'] == 'Enum':
                n = t['v'][v[2]]['n']
                if t['d'].endswith('option::Option'):
                    return fs[0] if fs else None
                return (n,) + tuple(fs)
            if t is not None and t['k'] == 'adt' and t['v'][0]['f'] and not t['v'][0]['f'][0][0].isdigit():
                return {f[0]: x for f, x in zip(t['v'][0]['f'], fs)}
            return ('',) + tuple(fs)
        raise KeyError('value %s' % (v[:2],))


def diff(g, w, path=''):
    """first difference of two trees: (kind, path, got, wanted)"""
    if isinstance(w, dict):
        if not isinstance(g, dict) or set(g) != set(w):
            return ('shape' if isinstance(g, dict) else 'tree', path, g, w)
        for k in sorted(w, key=lambda k: k == 'span'):
            d = diff(g[k], w[k], path + '.' + k)
            if d:
                return d
        return None
    if isinstance(w, (list, tuple)) and not path.endswith('.span'):
        if isinstance(w, list) and isinstance(g, (list, tuple)) and len(g) == len(w) or isinstance(w, tuple) and isinstance(g, tuple) and len(g) == len(w):
            if isinstance(w, tuple) and g[0] != w[0] and isinstance(w[0], str):
                return ('tree', path, g, w)
            for i, (x, y) in enumerate(zip(g, w)):
                d = diff(x, y, path + ('[%d]' % i if isinstance(w, list) else '.%s' % w[0] if w[0] else ''))
                if d:
                    return d
            return None
        return ('tree', path, g, w)
    if isinstance(w, bytes):
        g = bytes(g) if isinstance(g, list) else g
    if g != w:
        return ('span' if path.endswith('.span') else 'tree', path, g, w)
    return None


def text(toks):
    return ' '.join(p if k in ('Ident', 'Int') else '"%s"' % p.decode('latin1') if k == 'String' else k for k, p in toks)


def strip_spans(t):
    if isinstance(t, dict):
        return {k: strip_spans(v) for k, v in t.items() if k != 'span'}
    if isinstance(t, (list, tuple)):
        return type(t)(strip_spans(x) for x in t)
    return t


def brief(x):
    s = str(x)
    return s if len(s) < 160 else s[:160] + '…'


def generic(path):
    import re
    return re.sub(r'\[\d+\]', '', path)


def compare(c, p, toks, sym, what, mode, allowed=None):
    """mode: 'tree' | 'span'"""
    outs = p.run(toks, sym, allowed)
    if mode == 'panic':
        c.ob(what, max(1, len(outs)))
        return [(text(x[0]), sorted(x[1]), x[2].name, str(x[3])[:80]) for x in p.panics]
    n = 0
    al = allowed or SIMPLE
    for combo in itertools.product(al, repeat=len(sym)):
        ts = list(toks)
        env = {}
        for i, k in zip(sym, combo):
            ts[i] = (k, None)
            env['t%d' % i] = None
        got = []
        for facts, v, I_, st in outs:
            e = {'t%d' % i: I_.vdisc(p.tok, p.vi[p.by[k]]) for i, k in zip(sym, combo)}
            if all((x in facts[('?', t)][1]) == facts[('?', t)][0] for t, x in e.items() if ('?', t) in facts):
                got.append((v, I_, st, e))
        n += 1
        if len(got) != 1:
            if got:
                c.undecided('%s: %s' % (what, text(ts)), '%d outcomes' % len(got))
                return
            continue                               # panics: C15
        v, I_, st, e = got[0]
        t = p.m.types[v[1]]
        accepted = t['v'][v[2]]['n'] == 'Ok'
        want = reference(ts)
        if mode == 'place':
            if want is None and not accepted:
                place(c, p, v[3][0], I_, st, e, ts, sym)
            continue
        if mode == 'tree' and accepted != (want is not None):
            c.violation('grammar:%s:%s' % ('rejects' if want is not None else 'accepts', context(ts, sym)),
                        'the description `%s` is %s' % (text(ts), 'rejected' if want is not None else 'accepted although the grammar does not allow it'), p.fn.name)
            continue
        if want is None or not accepted:
            continue
        try:
            g = p.tree(I_, st, v[3][0], e)
        except (KeyError, TypeError, ValueError, IndexError) as x:
            c.undecided('%s: %s' % (what, text(ts)), x)
            return
        if mode == 'tree':
            g, want = strip_spans(g), strip_spans(want)
            d = diff(g, want)
            if d and d[0] == 'shape':
                c.undecided('%s: %s' % (what, text(ts)), 'fields %s' % sorted(d[2]))
                return
            if d:
                c.violation('tree:' + generic(d[1]), 'in the tree of `%s`, %s is %s, the grammar gives %s' % (text(ts), d[1], brief(d[2]), brief(d[3])), p.fn.name)
        else:
            for path, a, b in spans(g, want):
                if a != b:
                    c.violation('span:' + generic(path), 'in the tree of `%s`, the span %s goes from token %s to %s; the construct stands from token %d to %d'
                                % ((text(ts), path) + (a if len(a) == 2 else (a, a)) + b), p.fn.name)
    c.ob(what, n or 1)


def places(p, I_, st, v, e):
    v = I_.resolve(st, v, 3)
    if v[0] in ('K', 'b'):
        return places(p, I_, st, v[1], e)
    if v[0] == 'r':
        return places(p, I_, st, I_.load(st, v), e)
    if v[0] != 'v':
        return []
    if v[1] == p.span:
        return [p.tree(I_, st, v, e)]
    return [y for x in v[3] for y in places(p, I_, st, x, e)]


def place(c, p, v, I_, st, e, ts, sym):
    """the error of a text that is not a description names the first token that no description continues with"""
    r = Ref(ts)
    try:
        r.program()
    except Reject:
        pass
    v = I_.resolve(st, v, 3)
    while v[0] in ('K', 'b', 'r'):
        v = I_.resolve(st, I_.load(st, v) if v[0] == 'r' else v[1], 3)
    if v[0] != 'v' or v[2] is None:
        c.undecided('error of `%s`' % text(ts), str(v)[:600])
        return
    kind = p.m.types[v[1]]['v'][v[2]]['n']
    got = places(p, I_, st, v, e)
    c.ob('syntax error')
    if r.i >= len(ts):
        if kind == 'UnexpectedEOF' and not got or 'Missing' in kind and got == [(len(ts) - 1, len(ts) - 1)]:
            return
        key, why = 'end', '%s at %s although the text only ends too early' % (kind, got)
    elif not got:
        key, why = 'nowhere', '%s without a place; token %d, %s, is the first that cannot stand' % (kind, r.i, text(ts[r.i:r.i + 1]))
    elif got[0] == (r.i, r.i) or kind != 'Unexpected' and len(got[0]) == 2 and got[0][0] in (r.i - 1, r.i) and got[0][1] in (r.i - 1, r.i):
        return                                     # "enum is missing …" may stand at the token that lacks something after it
    else:
        key, why = 'place', '%s at %s; token %d, %s, is the first that cannot stand' % (kind, got[0], r.i, text(ts[r.i:r.i + 1]))
    c.violation('syntax:%s:%s:%s' % (key, kind, context(ts[:r.i + 1], (r.i,)) if r.i < len(ts) else ''), '`%s`: %s' % (text(ts), why), p.fn.name)


def spans(g, w, path=''):
    if isinstance(w, dict) and isinstance(g, dict):
        for k in w:
            if k in g:
                if k == 'span':
                    yield path + '.span', g[k], w[k]
                else:
                    yield from spans(g[k], w[k], path + '.' + k)
    elif isinstance(w, (list, tuple)) and isinstance(g, (list, tuple)) and len(g) == len(w):
        for i, (x, y) in enumerate(zip(g, w)):
            yield from spans(x, y, path + ('[%d]' % i if isinstance(w, list) else '.%s' % w[0] if w[0] and isinstance(w[0], str) else ''))


def context(ts, sym):
    """what stands around the first unknown token"""
    i = sym[0] if sym else len(ts)
    return '%s_%s_%s' % (ts[i - 1][0] if i else '^', ts[i][0] if i < len(ts) else '$', ts[i + 1][0] if i + 1 < len(ts) else '$')


def lex(t):
    b, i, out = t.encode(), 0, []
    while i < len(b):
        k, p, n = lexer.reference(b[i:])
        if k == 'none':
            raise ValueError(t)
        if k != 'space':
            out.append((k, p))
        i += n
    return out


TEMPLATES = [
    'const a: u8 = b;', 'const a: u8 = 3 u16;', 'const a: bool = true;', 'const a: u8[3] = "xy";',
    'import_ffi a as type;', 'import a from "f";', 'import a as b, c, from "f";',
    'type a = u8;', 'type a = b;', 'type a = b(c, 1,);', 'type a = u8[..];', 'type a = u8[b][..c];',
    'type a(b: u8, c: u16 ? d,) = u8;', 'type a() = f32;',
    'type a = container { };', 'type a = container [b] +c { d: u8, };', 'type a = container { b: u8, c: f64 };',
    'type a = container { .pad: 3, b: u8 };',
    'type a = container { b: u8 = c + d +e +f { g } -> h -> i(j, k) { l } };',
    'type a = u8 -> h(j,) ;',
    'type a = enum u8 { b = 1, c, d = default, };', 'type a = enum i16le { b = default };',
    'type a = bitfield u8 { b = 1, c, d = e };',
    'const a: u8 = b ? c : d;', 'const a: u8 = b ? c ? d : e : f;', 'const a: u8 = b + c - d;', 'const a: u8 = -b[c];', 'const a: u8 = !~b . c;',
    'const a: u8 = b::c;', 'const a: u8 = b(c, d)[e].f;', 'const a: u8 = b :> u8[c] + d;', 'const a: u8 = b ?: c :> d;', 'const a: u8 = (b + c) * d;',
    'const a: u8 = b();', 'type a = u8; const b: u8 = a;',
]
ONLY_PLAIN = [
    'const a: u8 = b || c && d | e ^ f & g == h < i << j + k * l :> u8;', 'const a: u8 = b * c + d << e < f == g & h ^ i | j && k || l;',
    'const a: u8 = - ! ~ - b;', 'const a: u8 = ((b));', 'const a: u8 = b :> u8 :> u16le [3] :> c(d);',
    'type a = container { b: container { c: enum u8 { d = 1 }, e: bitfield u16 { f = 1 } }[g] };',
    'const a: u8 = b ? c : d ? e : f;', 'const a: u8 = b ? (c ? d : e) : (f ? g : h);', '', 'type a = u8 -> h { b } -> i { c };',
    'import a, b as c, d from "f"; import_ffi e as transform; import_ffi g as function;',
    'type a = u8[.."end"];', 'type a = u8[..]["x"];', 'type a(b: container { c: u8, }[d] ? e) = u8;', 'type a = u8 = b ? c : d { e ? f : g };',
    'const a: container { c: enum u8 { d = 1 } } = 1;', 'const a: f32 = 1 i128;', 'const a: u8 = (b ? c : d) :> e(f, g,)[..h];',
]


def jobs_for(p, mode, quick):
    out = []
    for t in TEMPLATES + ONLY_PLAIN:
        ts = lex(t)
        out.append(('`%s`' % t, compare, p, ts, (), 'description', mode))
    for t in TEMPLATES:
        ts = lex(t)
        for i in range(len(ts)):
            out.append(('`%s` with another token at %d' % (t, i), compare, p, ts, (i,), 'unknown token', mode))
        if mode == 'span':
            continue
        for i in range(len(ts)):
            if mode == 'place':
                if i:
                    out.append(('`%s` cut at %d' % (t, i), compare, p, ts[:i], (), 'prefix', mode))
                continue
            out.append(('`%s` cut at %d' % (t, i), compare, p, ts[:i], (), 'prefix', mode))
            out.append(('`%s` without token %d' % (t, i), compare, p, ts[:i] + ts[i + 1:], (), 'token left out', mode))
            for x in (('Ident', 'zz'), ('Int', '7'), ('String', b'zz')):
                if ts[i][0] != x[0]:
                    out.append(('`%s` with %s at %d' % (t, x[0], i), compare, p, ts[:i] + [x] + ts[i + 1:], (), 'literal in another place', mode))
            if not quick or i % 3 == 0:
                out.append(('`%s` with a token before %d' % (t, i), compare, p, ts[:i] + [('?', None)] + ts[i:], (i,), 'token put in', mode))
            out.append(('`%s` cut at %d with a token' % (t, i), compare, p, ts[:i] + [('?', None)], (i,), 'prefix and token', mode))
    if mode == 'place':
        return out
    ops = sorted(k for b in BIN for k in b) + ['?:']
    n = len(ops)
    for a in range(0, n, 3):
        out.append(('operator pairs', compare, p, lex('const a: u8 = b + c * d;'), (6, 8), 'operator pair', mode, ops[a:a + 3]) if False else
                   ('operator pairs', pairs, p, ops[a:a + 3], ops, mode))
    return out


def pairs(c, p, first, second, mode):
    for op in first:
        ts = lex('const a: u8 = b + c * d;')
        ts[6] = (op, None)
        compare(c, p, ts, (8,), 'operator pair', mode, second)
        if mode != 'panic':
            for u in ('-', '!', '~'):
                ts = lex('const a: u8 = - b + - c;')
                ts[5], ts[8], ts[7] = (u, None), (u, None), (op, None)
                compare(c, p, ts, (), 'operator and unary', mode)
    return [(text(x[0]), sorted(x[1]), x[2].name, str(x[3])[:80]) for x in p.panics]


# constructs of SPEC.md that the parser does not know
DOCUMENTED = [('parenthesised type', 'type a = (u8);'), ('variable-length scalar', 'type a = enum v32 { b = 1 };')]


def documented(c, p, key, t):
    outs = p.run(lex(t), ())
    ok = [p.m.types[v[1]]['v'][v[2]]['n'] for _, v, _, _ in outs if v[0] == 'v']
    if len(ok) != 1:
        c.undecided('`%s`' % t, '%d outcomes' % len(ok))
    else:
        c.check('documented construct', ok == ['Ok'], 'grammar:documented:' + key, 'SPEC.md documents the %s `%s`; the parser rejects it' % (key, t), p.fn.name)


def grammar(c):
    c.rule('for every description of the list, every description that differs from one of them in one token, every prefix, and every pair of operators, '
           'the parser gives the tree of the documented grammar, or rejects where the grammar does')
    p = Parse(c)
    jobs = jobs_for(p, 'tree', c.tier != 'thorough')
    jobs += [('`%s`' % t, documented, p, k, t) for k, t in DOCUMENTED]
    c.parallel(jobs)
    c.floor('description', 40)
    c.floor('unknown token', 10000)
    c.floor('operator pair', 250)


def tree_spans(c):
    c.rule('every node of the tree covers the tokens of its construct, from the first to the last')
    p = Parse(c)
    c.parallel(jobs_for(p, 'span', c.tier != 'thorough'))
    c.floor('description', 40)


def error_places(c):
    c.rule('a text that is not a description is refused at the first token with which no description continues, or at its end when it '
           'only lacks more')
    p = Parse(c)
    c.parallel(jobs_for(p, 'place', c.tier != 'thorough'))
    c.floor('syntax error', 1000)


# ------------------------------------------------------------------------ C15
def why_text(w):
    return str(w[0]) if isinstance(w, tuple) and w else str(w)


def record(c, fn, why, what, sure):
    w = str(why)
    kind = 'overflow' if 'verflow' in w else 'index' if 'ounds' in w else 'panic'
    if sure:
        c.violation('panic:%s:%s' % (fn, kind), 'on %s, %s panics (%s)' % (what, fn, w[:100]), fn)
    else:
        c.undecided('panic in %s on %s' % (fn, what), w[:100])


def lex_panics(c, lex, bs, what):
    n0 = len(lex.panics)
    outs = lex.gobble(bs) if not isinstance(lex, lexer.Files) else lex.run(bs, True)
    for b, fn, why, facts in lex.panics[n0:]:
        t = bytes(x if isinstance(x, int) else (sorted(facts[x][1])[0] if x in facts and facts[x][0] and facts[x][1] else 97) for x in b)
        record(c, fn, why, 'the input %r' % t, True)
    c.ob(what, max(1, len(outs)))


def parse_panics(c, p, toks, sym, what, mode, allowed=None):
    n0 = len(p.panics)
    outs = p.run(toks, sym, allowed)
    for ts, sm, fn, why, facts in p.panics[n0:]:
        ts = list(ts)
        for i in sm:
            f = facts.get(('?', 't%d' % i))
            ts[i] = next(((k, None) for k in SIMPLE if f is None or ((p.by and p.vi[p.by[k]]) in f[1]) == f[0]), ('?', None))
        record(c, fn.name, why, 'the description `%s`' % text(ts), True)
    c.ob(what, max(1, len(outs)))


def panics(c):
    c.rule('no text of the given shapes, and no token sequence that differs from a description of the list in one token, reaches an assertion, a failed '
           'unwrap, an out-of-range index or an overflow in the tokenizer or the parser; parsing does not recurse deeper with every nested construct')
    lx, fl, p = lexer.Lex(c), lexer.Files(c), Parse(c)
    lx.display()
    jobs = []
    for n in (1, 2, 3) + ((4,) if c.tier == 'thorough' else ()):
        jobs.append(('inputs of %d bytes' % n, lex_panics, lx, ['c%d' % i for i in range(n)], 'bytes of input'))
    for pre in (b'"', b'"a', b'"\\', b'"\\4', b'0x', b'0', b'12', b'//', b'/*', b'/* *', b'a1', b'>', b'.', b'"\xc3', b'a \n', b'"\n'):
        for n in (1, 2, 3) if pre[:1] == b'"' else (1, 2):
            jobs.append(('input %r…' % pre, lex_panics, lx, list(pre) + ['c%d' % i for i in range(n)], 'bytes of input'))
    for n in (1, 2):
        jobs.append(('texts of %d characters' % n, lex_panics, fl, ['c%d' % i for i in range(n)], 'characters of text'))
    for t in (b'a\n\x01\x01', b'"\n\x01', b'"\\\x01"', b'/*\x01*/\x01', b'//\x01\n\x01', b'"a"\x01', b'\n\n\x01'):
        i = iter(range(9))
        jobs.append(('text %r' % t, lex_panics, fl, [x if x != 1 else 'c%d' % next(i) for x in t], 'characters of text'))
    for j in jobs_for(p, 'panic', c.tier != 'thorough'):
        if j[1] is compare:
            jobs.append((j[0], parse_panics) + j[2:])
    c.parallel(jobs)
    nesting(c, p)
    c.floor('bytes of input', 100)
    c.floor('unknown token', 300)


def nesting(c, p):
    """every cycle of the parser's call graph passes a function that compares a depth with a bound"""
    m = c.mir
    scope = {f.idx: f for f in m.fns.values() if f.local and '::parser' in f.d}
    by_key = {f.key: i for i, f in scope.items()}
    types = m.types if isinstance(m.types, dict) else dict(enumerate(m.types))

    def fn_of(t):
        t = types.get(t) if not isinstance(t, dict) else t
        if not isinstance(t, dict):
            return None
        k = t.get('fn')
        k = k.get('key') if isinstance(k, dict) else k
        return by_key.get(k)
    local_keys = {f.key for f in m.fns.values() if f.local}
    calls, bounded = {}, set()
    for i, f in scope.items():
        out = set()
        for b in f.blocks:
            t = b['t']
            if t and t[0] == 'call' and t[1] and t[1][0] == 'k' and 'fn' in t[1][1]:
                info = t[1][1]['fn']
                k = by_key.get(info['key'])
                if k is not None:
                    out.add(k)
                if info['key'] not in local_keys:
                    out |= {fn_of(x) for x in info.get('ta', ())}
            for st in b['s']:
                if has_bound(st):
                    bounded.add(i)
        calls[i] = {x for x in out if x is not None}
    # a function compares a depth with a bound itself or through a function that calls no further parser function
    guarded = bounded | {i for i in scope if any(k in bounded and not calls[k] for k in calls[i])}
    # cycles that avoid every guard
    reach = {}

    def cyc(start):
        seen, work = set(), list(calls[start] - guarded)
        while work:
            x = work.pop()
            if x == start:
                return True
            if x in seen:
                continue
            seen.add(x)
            work += list(calls[x] - guarded)
        return False
    for i, f in sorted(scope.items()):
        if i in guarded:
            continue
        c.check('recursion of the parser', not cyc(i), 'recursion:%s' % f.name.rsplit('::', 1)[-1],
                '%s calls itself again for every nested construct, without a bound on the nesting: a deeply nested text overflows the stack' % f.name, f.name)


def has_bound(x):
    """a comparison with an integer constant of eight or more somewhere in a statement"""
    if isinstance(x, list):
        if len(x) == 4 and x[0] == 'bin' and x[1] in ('Lt', 'Le', 'Gt', 'Ge'):
            for o in x[2:]:
                if isinstance(o, list) and o and o[0] == 'k' and isinstance(o[-1], int) and o[-1] >= 8:
                    return True
        return any(has_bound(y) for y in x)
    return False
