"""the front end as a function of a description: tokens of the reference lexer, then `parse` and `Program::from_ast` interpreted exactly"""
from .an import *
from .checks import lexer, parser


class Node(dict):
    """a struct or variant of the analysed program: kind, fields, and the identity of the shared cell it lives in"""
    __slots__ = ('kind', 'ident')

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o


from .mir import Undecided


class Sem:
    def __init__(self, c):
        self.c, self.m = c, c.mir
        self.p = parser.Parse(c)
        self.fn = self.find('Program>::from_ast')
        self.impls = {}
        self.panics = []
        self.extra = {}
        self.std = None

    def find(self, d):
        r = [f for f in self.m.fns.values() if f.local and f.d.endswith(d)]
        if not r:
            raise KeyError('anchor ' + d)
        return r[0]

    def lex(self, text):
        return text if isinstance(text, list) else parser.lex(text)

    def spanned(self, toks):
        p, vals = self.p, []
        for i, (k, x) in enumerate(toks):
            fs = {'token': p.tokval(I_=None, k=k, p=x), 'span': p.spanval(i)}
            vals.append(('v', p.spanned, 0, tuple(fs[f[0]] for f in self.m.types[p.spanned]['v'][0]['f'])))
        return vals

    def run(self, text, files=None, limit=400):
        """-> [(state, interpreter, result)] of from_ast on the parsed text; None when the text does not parse"""
        files = files or {}
        I_ = Interp(self.m, {})
        I_.unroll, I_.max_outcomes, I_.shared = 3000, limit, True
        if self.std is not None:
            I_.std = self.std

        def tokenize(I_, st, args, info, rty, site):
            t = I_.strip(st, args[0])
            s = lit(t)
            if s is None:
                raise Undecided('text of an imported file')
            return [(st, ('v', rty, 0, (('q', tuple(('1', x) for x in self.spanned(self.lex(s)))),)))]
        I_.hooks[self.p.lexfn.name] = tokenize
        for f in self.m.fns.values():
            if f.local and f.d.endswith('::fmt') and 'tokenizer' in f.d:
                I_.hooks[f.name] = lambda I_, st, args, info, rty, site: [(st, ('v', rty, 0, (UNIT,)))]
            if f.local and 'NullImportResolver' in f.name and f.d.endswith('::resolve_import') and files is not None:
                def resolve(I_, st, args, info, rty, site):
                    n = lit(I_.strip(st, args[1]))
                    t = files.get(n) if n is not None else None
                    if n is None:
                        raise Undecided('name of an imported file: %s' % str(I_.resolve(st, args[1], 4))[:200])
                    ot = I_.T[rty]['args'][0]
                    return [(st, ('v', rty, 0, (('v', ot, 1, (('s', (t,)),)) if t is not None else ('v', ot, 0, ()),)))]
                I_.hooks[f.name] = resolve
            elif f.local and 'NullImportResolver as ' in f.name and '::resolve_ffi_' in f.d:
                # a resolver that knows no more names than the prelude
                I_.hooks[f.name] = lambda I_, st, args, info, rty, site: [(st, ('v', rty, 0, (('v', I_.T[rty]['args'][0], 0, ()),)))]
        st0 = State()
        I_.hooks.update(self.extra)
        outs = I_.run(self.p.fn, [K(('s', (text,)))], st0)
        if len(outs) != 1:
            raise Undecided('%d outcomes of the parser' % len(outs))
        st, v = outs[0]
        if self.m.types[v[1]]['v'][v[2]]['n'] != 'Ok':
            return None
        np = len(I_.panics)
        outs = I_.run(self.fn, [K(v[3][0]), K(('v', None, 0, ()))], st)
        note(self.c, I_)
        self.panics = [(f.name, why, s) for f, b, why, s in I_.panics[np:]]
        return [(s, I_, w) for s, w in outs]

    def emit(self, text, files=None, is_async=False, derives=(), enums=None, anyhow=False, debug=False):
        """token tree of the code emitted for a description | None when there is none"""
        outs = self.run(text, files)
        if not outs:
            return None
        st, I_, v = outs[0]
        if v[0] != 'v' or self.m.types[v[1]]['v'][v[2]]['n'] != 'Ok':
            return None
        fn = self.find('compiler::compile_program')
        oty = I_.T[fn.locals[2]]['e']

        def opt(n):
            if n == 'include_async':
                return I(1 if is_async else 0)
            if n.endswith('derives'):
                return ('q', tuple(('1', ('s', (d,))) for d in (derives if enums is None or 'enum' not in n else enums)))
            return I(1 if {'use_anyhow': anyhow, 'debug_mode': debug}.get(n) else 0)
        st.store[('H', 'opts')] = ('v', oty, 0, tuple(opt(f[0]) for f in I_.T[oty]['v'][0]['f']))
        np = len(I_.panics)
        I_.unroll = 20000
        outs = I_.run(fn, [K(v[3][0]), ('r', ('H', 'opts'), ())], st)
        self.panics = [(f.name, why, s) for f, b, why, s in I_.panics[np:]]
        if len(outs) != 1:
            return ('panic', self.panics[0][0], str(self.panics[0][1])[:80]) if self.panics and not outs else ('outcomes', len(outs))
        self.last = (I_, outs[0][0])
        return ('code', outs[0][1])

    def one(self, text, files=None):
        """('ok', program) | ('err', variant, fields) | ('panic', function) | None (does not parse)"""
        outs = self.run(text, files)
        if outs is None:
            return None
        if not outs:
            if self.panics:
                return ('panic', self.panics[0][0], str(self.panics[0][1])[:80])
            raise Undecided('no outcome')
        if len(outs) != 1:
            raise Undecided('%d outcomes' % len(outs))
        st, I_, v = outs[0]
        memo = {}
        if v[0] != 'v' or v[2] is None:
            raise Undecided('result')
        n = self.m.types[v[1]]['v'][v[2]]['n']
        t = self.tree(I_, st, v[3][0], memo)
        if n == 'Ok':
            return ('ok', t)
        return ('err', t.kind, t) if isinstance(t, Node) else ('err', '?', t)

    def tree(self, I_, st, v, memo, depth=0):
        if depth > 200:
            raise Undecided('depth')
        k = v[0]
        if k == 'i':
            return v[1]
        if k == 'b':
            return self.tree(I_, st, v[1], memo, depth + 1)
        if k == 'r':
            root, path = v[1], v[2]
            if root[0] == 'H' and root[1] == 'arc' and not path:
                if root in memo:
                    return memo[root]
                n = memo[root] = Node()
                n.kind, n.ident = None, root[2]
                x = self.tree(I_, st, I_.read(st, root, ()), memo, depth + 1)
                if isinstance(x, Node):
                    n.update(x)
                    n.kind = x.kind
                else:
                    n['value'] = x
                return n
            return self.tree(I_, st, I_.read(st, root, path), memo, depth + 1)
        if k == 'K':
            return self.tree(I_, st, v[1], memo, depth + 1)
        if k == 's':
            if all(isinstance(p, str) for p in v[1]):
                return ''.join(v[1])
            return '?text'
        if k in ('q', 'm'):
            out = []
            for x in v[1]:
                if x[0] != '1':
                    raise Undecided('sequence')
                out.append(self.tree(I_, st, x[1], memo, depth + 1))
            if k == 'm':
                return dict((a, b) for a, b in out)
            return out
        if k == 'v':
            if v[1] is None:
                return tuple(self.tree(I_, st, x, memo, depth + 1) for x in v[3])
            t = self.m.types[v[1]]
            if t['k'] == 'adt':
                last = t['d'].rsplit('::', 1)[-1]
                if last in ('RefCell', 'Cell'):
                    return self.tree(I_, st, v[3][0], memo, depth + 1)
                if last == 'Option':
                    return self.tree(I_, st, v[3][0], memo, depth + 1) if v[2] else None
                if v[1] == self.p.span:
                    return self.p.tree(I_, st, v, {})
                n = Node()
                va = t['v'][v[2] or 0]
                n.kind = va['n'] if t['ak'] == 'Enum' else last
                n.ident = None
                for f, x in zip(va['f'], v[3]):
                    n[f[0]] = self.tree(I_, st, x, memo, depth + 1)
                return n
            return tuple(self.tree(I_, st, x, memo, depth + 1) for x in v[3])
        if k == 'A':
            return ('?', v[1])
        if k == 'op':
            return ('?', str(v)[:60])
        raise Undecided('value %s' % (v[:1],))


def lit(v):
    if v[0] == 's' and all(isinstance(p, str) for p in v[1]):
        return ''.join(v[1])
    return None
