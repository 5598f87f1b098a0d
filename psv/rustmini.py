"""Parser for the Rust fragments that the generator emits, working on abstract token streams.

Tokens may be symbolic: identifiers containing atoms, expression holes (token streams of
subexpressions), star items (unbounded repetition) and recursion marks.  The result is an AST in
which grouping parentheses are represented explicitly, so that regrouping can be detected.
"""
import re

from .an import name_of, short


class RErr(Exception):
    pass


def lex(items):
    """abstract token items -> [(kind, data)]; kinds: id p lit num hole g star rec"""
    out = []
    for it in items:
        if it[0] == '1':
            t = it[1]
            k = t[0]
            if k == 'id':
                s = ''.join(p if isinstance(p, str) else '{' + name_of(p) + '}' for p in t[1])
                out.append(('lit', s) if s[:1].isdigit() else ('id', s))
            elif k == 'p':
                out.append(('p', t[1]))
            elif k == 'lt':
                out.append(('lifetime', name_of(t[1])))
            elif k == 'g':
                if t[1] == '':
                    out += lex(t[2])
                else:
                    out.append(('g', t[1], lex(t[2])))
            elif k == 'num':
                out.append(('num', name_of(t[1]), t[1]))
            elif k == 'lit':
                s = t[1]
                s = ''.join(p if isinstance(p, str) else '{' + name_of(p) + '}' for p in s) if isinstance(s, tuple) and s and s[0] not in ('bytes', 'string') else name_of(s)
                out.append(('lit', s))
            elif k == 'tt':
                out.append(('hole', unborrow(name_of(t[1])), t[1]))
            else:
                out.append(('hole', unborrow(name_of(t)), t))
        elif it[0] == '*':
            out.append(('star', it[1], [(g, lex(ys)) for g, ys in sorted(it[2], key=repr)]))
        elif it[0] == 'rec':
            out.append(('rec', it[1], it[2]))
        else:
            raise RErr('token item %r' % (it,))
    return glue(out)


MULTI = ['<<=', '>>=', '...', '..=', '::', '->', '=>', '==', '!=', '<=', '>=', '&&', '||', '+=', '-=', '*=', '/=', '%=', '^=', '&=', '|=', '<<', '>>', '..']


_BORROW = re.compile(r"\(\s*g\s*\(\s*\(\s*\(\s*p\s*&\s*\)\s*\(\s*id\s*mut\s*\)\s*(?:\(\s*p\s*\*\s*\)\s*)?(\(\s*id\s*(?:\([^()]*\)|\w+)\s*\))\s*\)\s*\)")


def unborrow(name):
    """a stream handed to a generator as `(&mut *x)`, `(&mut x)` or `x` is the same stream"""
    n = 1
    while n:
        name, n = _BORROW.subn(lambda m: m.group(1), name)
    return name


def glue(toks):
    """join adjacent single-character punctuation that was emitted piecewise"""
    return toks


BIN = {'*': 9, '/': 9, '%': 9, '+': 8, '-': 8, '<<': 7, '>>': 7, '&': 6, '^': 5, '|': 4,
       '==': 3, '!=': 3, '<': 3, '>': 3, '<=': 3, '>=': 3, '&&': 2, '||': 1, '..': 0.5, '..=': 0.5}
ASSIGN = {'=', '+=', '-=', '*=', '/=', '%=', '^=', '&=', '|=', '<<=', '>>='}
P_POST, P_UN, P_AS = 12, 11, 10


def bool_match(e, arms):
    """`match c { true => a, false => b }` is `if c { a } else { b }`"""
    if len(arms) == 2 and all(a[0] == 'arm' for a in arms):
        p, q = (a[1].strip() for a in arms)
        if p in ('true', 'false') and q in ('true', 'false', '_') and p != q:
            x, y = ([('expr', a[2])] if a[2][0] != 'block' else a[2][1] for a in arms)
            return ('if', e, x, y) if p == 'true' else ('if', e, y, x)
    return ('match', e, arms)


class P:
    def __init__(self, toks):
        self.t = toks
        self.i = 0
        self.holes = []     # (name, required precedence, atom)

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else ('eof',)

    def isp(self, s, k=0):
        t = self.peek(k)
        return t[0] == 'p' and t[1] == s

    def isid(self, s, k=0):
        t = self.peek(k)
        return t[0] == 'id' and t[1] == s

    def isg(self, d, k=0):
        t = self.peek(k)
        return t[0] == 'g' and t[1] == d

    def next(self):
        t = self.peek()
        self.i += 1
        return t

    def exp(self, s):
        t = self.next()
        if not (t[0] in ('p', 'id') and t[1] == s):
            raise RErr('expected %s, found %s' % (s, t[:2]))

    def eof(self):
        return self.i >= len(self.t)

    # ------------------------------------------------------------ types
    def type_(self, stop=(',', ';', '=', '>', '{', ')')):
        """consume a type, return its canonical text"""
        out, depth = [], 0
        while not self.eof():
            t = self.peek()
            if t[0] == 'p':
                if depth == 0 and t[1] in stop:
                    break
                if t[1] == '<':
                    depth += 1
                elif t[1] == '>':
                    depth -= 1
                elif t[1] == '>>':
                    depth -= 2
                out.append(t[1])
            elif t[0] == 'g':
                if depth == 0 and t[1] == '{':
                    break
                if depth == 0 and t[1] == '(' and out and out[-1] not in ('<', '&', ',', 'mut', 'dyn') and '(' in stop:
                    break
                out.append(t[1] + P(t[2]).alltext() + {'(': ')', '[': ']', '{': '}'}[t[1]])
            elif t[0] == 'id':
                if depth == 0 and out and out[-1] not in ('::', '<', '&', 'mut', 'dyn', 'impl', '+', ',') and not out[-1].startswith("'"):
                    break
                out.append(t[1])
            elif t[0] in ('lit', 'num', 'hole', 'lifetime'):
                out.append(t[1] if t[0] != 'hole' else '⟨' + t[1] + '⟩')
            else:
                break
            self.i += 1
        return ' '.join(out)

    def alltext(self):
        return text(self.t)

    # ------------------------------------------------------ expressions
    def expr(self, minp=0, struct=True):
        if self.isp('..') or self.isp('..='):
            op = self.next()[1]
            if self.eof() or self.isp(',') or self.isp(';'):
                return ('range', None, None)
            return ('range', None, self.expr(1, struct))
        l = self.unary(struct)
        return self.binary(l, minp, struct)

    def binary(self, l, minp, struct):
        while True:
            t = self.peek()
            if t[0] == 'id' and t[1] == 'as' and P_AS >= minp:
                self.require(l, P_AS)
                self.next()
                if self.isp('&'):
                    ty = self.type_(stop=(',', ';', '=', ')', '}'))
                    l = ('as', l, ty)
                    continue
                ty = self.type_(stop=(',', ';', '=', ')', '>', '+', '-', '*', '/', '%', '==', '!=', '<=', '>=', '&&', '||', '|', '&', '^', '..', '{', '.', '?', '<<', '>>', '=>'))
                l = ('as', l, ty)
                continue
            if t[0] == 'p' and t[1] in BIN and BIN[t[1]] >= minp:
                p = BIN[t[1]]
                self.next()
                if t[1] in ('..', '..='):
                    if self.eof() or self.isp(',') or self.isp(';') or (self.isg('{') and not struct):
                        l = ('range', l, None)
                        continue
                    r = self.expr(1, struct)
                    self.require(l, 1), self.require(r, 1)
                    l = ('range', l, r)
                    continue
                self.require(l, p if p != 3 else 3.5)
                r = self.expr(p + 0.5, struct)
                self.require(r, p + 0.5)
                l = ('bin', t[1], l, r)
                continue
            if t[0] == 'p' and t[1] in ASSIGN and minp <= 0:
                self.next()
                r = self.expr(0, struct)
                l = ('assign', t[1], l, r)
                continue
            return l

    def require(self, e, p):
        if e[0] == 'hole':
            self.holes.append((e[1], p, e[2]))

    def unary(self, struct):
        t = self.peek()
        if t[0] == 'p' and t[1] in ('!', '-', '*'):
            self.next()
            x = self.unary(struct)
            self.require(x, P_UN)
            return ('un', t[1], x)
        if t[0] == 'p' and t[1] in ('&', '&&'):
            self.next()
            mut = False
            if self.isid('mut'):
                self.next()
                mut = True
            x = self.unary(struct)
            self.require(x, P_UN)
            return ('ref', mut, x)
        return self.postfix(self.primary(struct), struct)

    def postfix(self, e, struct):
        while True:
            t = self.peek()
            if t[0] == 'p' and t[1] == '.':
                self.next()
                n = self.next()
                self.require(e, P_POST)
                if n[0] == 'id' and n[1] == 'await':
                    e = ('await', e)
                    continue
                if n[0] not in ('id', 'lit', 'num', 'hole'):
                    raise RErr('after ".": %s' % (n[:2],))
                nm = n[1]
                tf = ''
                if self.isp('::'):
                    self.next()
                    tf = self.generic()
                if self.isg('('):
                    g = self.next()
                    e = ('mcall', e, nm, self.sub(g[2]).args(), tf)
                else:
                    e = ('field', e, nm)
                continue
            if t[0] == 'p' and t[1] == '?':
                self.next()
                self.require(e, P_POST)
                e = ('try', e)
                continue
            if t[0] == 'g' and t[1] == '(' and e[0] in ('path', 'paren', 'field', 'hole', 'mcall', 'call'):
                self.next()
                self.require(e, P_POST)
                e = ('call', e, self.sub(t[2]).args())
                continue
            if t[0] == 'g' and t[1] == '[':
                self.next()
                self.require(e, P_POST)
                e = ('index', e, self.sub(t[2]).whole())
                continue
            return e

    def sub(self, toks):
        p = P(toks)
        p.holes = self.holes
        return p

    def whole(self):
        e = self.expr(0)
        if not self.eof():
            raise RErr('trailing tokens after expression: %s' % text(self.t[self.i:])[:80])
        self.require(e, 0)
        return e

    def args(self):
        out = []
        while not self.eof():
            t = self.peek()
            if t[0] == 'p' and t[1] == ',':
                self.next()
                continue
            if t[0] == 'star':
                self.next()
                out.append(('star', t[1], [(g, P(x).args()) for g, x in t[2]]))
                continue
            if t[0] == 'rec':
                self.next()
                out.append(('recmark', t[1], t[2]))
                continue
            if t[0] == 'p' and t[1] == ',':
                self.next()
                continue
            e = self.expr(0)
            self.require(e, 0)
            out.append(e)
            if self.isp(','):
                self.next()
            elif not self.eof() and self.peek()[0] not in ('star', 'rec'):
                raise RErr('argument list: %s' % text(self.t[self.i:])[:80])
        return out

    def generic(self):
        """< ... > -> text"""
        if not self.isp('<'):
            raise RErr('generic arguments expected')
        depth, out = 0, []
        while not self.eof():
            t = self.next()
            if t[0] == 'p' and t[1] == '<':
                depth += 1
            elif t[0] == 'p' and t[1] == '>':
                depth -= 1
            elif t[0] == 'p' and t[1] == '>>':
                depth -= 2
            out.append(text([t]))
            if depth == 0:
                return ' '.join(out)
        raise RErr('unclosed <')

    def primary(self, struct):
        t = self.next()
        k = t[0]
        if k == 'lit':
            return ('lit', t[1])
        if k == 'num':
            return ('num', t[1], t[2])
        if k == 'hole':
            e = ('hole', t[1], t[2])
            if self.isp('::'):
                return self.path(t[1])
            return e
        if k == 'rec':
            return ('recmark', t[1], t[2])
        if k == 'g':
            if t[1] == '(':
                a = self.sub(t[2])
                if not t[2]:
                    return ('tuple', [])
                if any(y[0] == 'star' and any(z[:2] == ('p', ',') for _, ys in y[2] for z in ys) for y in t[2]):
                    return ('tuple', a.args())
                x = a.expr(0)
                a.require(x, 0)
                if a.eof():
                    return ('paren', x)
                xs = [x]
                while not a.eof():
                    if a.isp(','):
                        a.next()
                        continue
                    y = a.expr(0)
                    a.require(y, 0)
                    xs.append(y)
                return ('tuple', xs)
            if t[1] == '[':
                a = self.sub(t[2])
                if not t[2]:
                    return ('array', [])
                x = a.expr(0)
                if a.isp(';'):
                    a.next()
                    return ('repeat', x, a.whole())
                a.i = 0
                return ('array', a.args())
            if t[1] == '{':
                return ('block', self.sub(t[2]).stmts())
        if k == 'lifetime' or (k == 'p' and t[1] == "'"):
            lab = t[1]
            if k == 'p':
                lab = "'" + self.next()[1]
            self.exp(':')
            e = self.primary(struct)
            return ('label', lab, e)
        if k == 'star':
            return ('star', t[1], [(g, P(x).stmts()) for g, x in t[2]])
        if k == 'p' and t[1] in ('|', '||'):
            params = []
            if t[1] == '|':
                d = []
                while not self.isp('|'):
                    if self.eof():
                        raise RErr('closure')
                    d.append(self.next())
                self.next()
                params = d
            return ('closure', text(params), self.expr(0, struct))
        if k == 'p' and t[1] == '<':
            self.i -= 1
            g = self.generic()
            return self.path(g)
        if k == 'p' and t[1] == '::':
            return self.path('')if False else self.path('::' + self.next()[1])
        if k != 'id':
            raise RErr('unexpected token %s' % (t[:2],))
        w = t[1]
        if w == 'if':
            return self.if_()
        if w == 'unsafe' and self.isg('{'):
            return ('unsafe', self.sub(self.next()[2]).stmts())
        if w == 'loop':
            return ('loop', self.block())
        if w == 'while':
            c = self.cond()
            return ('while', c, self.block())
        if w == 'for':
            pat = self.pattern(('in',))
            self.exp('in')
            e = self.expr(0, False)
            self.require(e, 0)
            return ('for', pat, e, self.block())
        if w == 'match':
            e = self.expr(0, False)
            g = self.next()
            return bool_match(e, self.sub(g[2]).arms())
        if w in ('break', 'continue', 'return'):
            lab = None
            if self.peek()[0] == 'lifetime':
                lab = self.next()[1]
            elif self.isp("'"):
                self.next()
                lab = "'" + self.next()[1]
            v = None
            if not (self.eof() or self.isp(';') or self.isp(',')):
                v = self.expr(0, struct)
                self.require(v, 0)
            return (w, lab, v)
        if w == 'move' or w == 'async':
            return ('prefix', w, self.expr(0, struct))
        return self.path(w, struct)

    @staticmethod
    def fieldlike(ts):
        # `x { name: …` is a literal wherever literals are allowed
        i = 1 if ts and ts[0][:2] == ('p', '#') else 0
        return len(ts) > i + 2 and ts[i][0] == 'id' and ts[i + 1][:2] == ('p', ':')

    def path(self, first, struct=True):
        segs = [first]
        while self.isp('::'):
            self.next()
            if self.isp('<'):
                segs.append(self.generic())
            else:
                n = self.next()
                segs.append(n[1] if n[0] != 'hole' else '⟨' + n[1] + '⟩')
        if self.isp('!') and self.peek(1)[0] == 'g':
            self.next()
            g = self.next()
            return ('macro', '::'.join(segs), g[1], self.macro_args(g[2]))
        if struct and self.isg('{') and (segs[-1][:1].isupper() or segs[-1][:1] == '{' or self.fieldlike(self.peek()[2])):
            g = self.next()
            return ('struct', '::'.join(segs), self.sub(g[2]).fields())
        return ('path', '::'.join(segs))

    def macro_args(self, toks):
        a = self.sub(toks)
        try:
            if not toks:
                return []
            x = a.expr(0)
            a.require(x, 0)
            if a.isp(';'):
                a.next()
                return [('repeat', x, a.whole())]
            a.i = 0
            return a.args()
        except RErr:
            return [('raw', text(toks))]

    def fields(self):
        out = []
        while not self.eof():
            t = self.next()
            if t[0] == 'p' and t[1] == ',':
                continue
            if t[0] == 'star':
                out.append(('star', t[1], [(g, P(x).fields()) for g, x in t[2]]))
                continue
            if t[0] == 'rec':
                out.append(('recmark', t[1], t[2]))
                continue
            if t[0] == 'p' and t[1] == '..':
                out.append(('rest', self.expr(0) if not self.eof() else None))
                continue
            n = t[1]
            if self.isp(':'):
                self.next()
                e = self.expr(0)
                self.require(e, 0)
            else:
                e = ('path', n)
            out.append(('fld', n, e))
        return out

    def block(self):
        g = self.next()
        if g[0] != 'g' or g[1] != '{':
            raise RErr('block expected, found %s' % (g[:2],))
        return self.sub(g[2]).stmts()

    def pattern(self, stops):
        out = []
        while not self.eof():
            t = self.peek()
            if t[0] in ('p', 'id') and t[1] in stops:
                break
            out.append(t)
            self.i += 1
        return text(out)

    def cond(self):
        if self.isid('let'):
            self.next()
            pat = self.pattern(('=',))
            self.exp('=')
            e = self.expr(2.5, False)
            self.require(e, 2.5)
            return ('let', pat, e)
        e = self.expr(0, False)
        self.require(e, 0)
        return e

    def if_(self):
        c = self.cond()
        a = self.block()
        b = None
        if self.isid('else'):
            self.next()
            if self.isid('if'):
                self.next()
                b = [('expr', self.if_())]
            else:
                b = self.block()
        return ('if', c, a, b)

    def arms(self):
        out = []
        while not self.eof():
            t = self.peek()
            if t[0] == 'star':
                self.next()
                out.append(('star', t[1], [(g, P(x).arms()) for g, x in t[2]]))
                continue
            if self.isp(','):
                self.next()
                continue
            pat = self.pattern(('=>',))
            self.exp('=>')
            e = self.expr(0)
            self.require(e, 0)
            out.append(('arm', pat, e))
        return out

    # -------------------------------------------------------- statements
    def stmts(self):
        out = []
        while not self.eof():
            t = self.peek()
            if t[0] == 'star' and any(z[:2] == ('p', ',') for _, ys in t[2] for z in ys):
                self.next()
                out.append(('expr', ('star', t[1], [(g, P(x).args()) for g, x in t[2]])))
                continue
            if t[0] == 'star':
                self.next()
                alts = []
                for g, x in t[2]:
                    p = P(x)
                    p.holes = self.holes
                    alts.append((g, p.stmts()))
                out.append(('star', t[1], alts))
                continue
            if t[0] == 'rec':
                self.next()
                out.append(('recmark', t[1], t[2]))
                continue
            if self.isp(';'):
                self.next()
                continue
            if self.isid('let'):
                self.next()
                mut = False
                if self.isid('mut'):
                    self.next()
                    mut = True
                pat = self.pattern((':', '=', ';'))
                ty = None
                if self.isp(':'):
                    self.next()
                    ty = self.type_(stop=('=', ';'))
                e = None
                if self.isp('='):
                    self.next()
                    e = self.expr(0)
                    self.require(e, 0)
                if not self.isp(';'):
                    raise RErr('missing ; after let %s: %s' % (pat, text(self.t[self.i:])[:60]))
                self.next()
                out.append(('let', pat, ty, e))
                continue
            if self.isid('use'):
                s = []
                while not self.isp(';'):
                    if self.eof():
                        raise RErr('use')
                    s.append(self.next())
                self.next()
                out.append(('use', text(s)))
                continue
            if t[0] == 'id' and t[1] in ('if', 'loop', 'while', 'for', 'match', 'unsafe') or t[0] == 'lifetime' \
                    or (t[0] == 'p' and t[1] == "'") or (t[0] == 'g' and t[1] == '{'):
                e = self.primary(True)
                if self.isp('.') or self.isp('?'):
                    e = self.postfix(e, True)
                    e = self.binary(e, 0, True)
                semi = False
                if self.isp(';'):
                    self.next()
                    semi = True
                out.append(('expr' if not semi else 'semi', e))
                continue
            e = self.expr(0)
            self.require(e, 0)
            if self.isp(';'):
                self.next()
                out.append(('semi', e))
            else:
                out.append(('expr', e))
        return out


def text(toks):
    out = []
    for t in toks:
        k = t[0]
        if k in ('id', 'p', 'lit', 'lifetime'):
            out.append(t[1])
        elif k == 'num':
            out.append('#' + t[1])
        elif k == 'hole':
            out.append('⟨' + t[1] + '⟩')
        elif k == 'g':
            out.append(t[1] + text(t[2]) + {'(': ')', '[': ']', '{': '}'}[t[1]])
        elif k == 'star':
            out.append('*%s{%s}' % (name_of(t[1]), '|'.join(text(x) for g, x in t[2])))
        elif k == 'rec':
            out.append('rec:' + short(t[1]))
    return ' '.join(out)


def parse_expr(items):
    p = P(lex(items))
    e = p.whole()
    return e, p.holes


def parse_stmts(items):
    p = P(lex(items))
    return p.stmts(), p.holes


def strip(e):
    """drop grouping parentheses"""
    if isinstance(e, tuple):
        if e and e[0] == 'paren':
            return strip(e[1])
        return tuple(strip(x) for x in e)
    if isinstance(e, list):
        return [strip(x) for x in e]
    return e


def prec(e):
    """binding strength of an expression as it stands in the emitted text"""
    k = e[0]
    if k == 'bin':
        return BIN[e[1]]
    if k in ('un', 'ref'):
        return P_UN
    if k == 'as':
        return P_AS
    if k in ('if', 'match', 'range', 'assign', 'closure', 'break', 'continue', 'return', 'prefix'):
        return 0
    return P_POST


def sx(e):
    """canonical one-line rendering of a syntax tree (holes by name)"""
    if isinstance(e, tuple):
        if e and e[0] == 'hole':
            return '{%s}' % e[1]
        if e and e[0] == 'rec' and len(e) > 1 and isinstance(e[1], str):
            return '{%s}' % e[1]
        return '(%s)' % ' '.join(sx(x) for x in e)
    if isinstance(e, list):
        return '[%s]' % ' '.join(sx(x) for x in e)
    return str(e)


def lex_text(src):
    """tokens of plain Rust text; `⟪name⟫` is an identifier, `⟦name⟧` an expression hole"""
    import re
    pat = re.compile(r"""\s+|(?P<str>b?"(?:\\.|[^"\\])*")|(?P<id>⟪[^⟫]*⟫|[A-Za-z_][A-Za-z_0-9]*)|(?P<hole>⟦[^⟧]*⟧)|(?P<lt>'[a-z_]+\b(?!'))|(?P<num>[0-9][0-9A-Za-z_]*)|(?P<p>%s|.)""" % '|'.join(re.escape(x) for x in MULTI))
    stack, cur = [], []
    for m in pat.finditer(src):
        k = m.lastgroup
        if k is None:
            continue
        x = m.group(k)
        if k == 'id':
            cur.append(('id', x.strip('⟪⟫')))
        elif k == 'hole':
            cur.append(('hole', unborrow(x.strip('⟦⟧')), None))
        elif k == 'lt':
            cur.append(('lifetime', x))
        elif k in ('num', 'str'):
            cur.append(('lit', x))
        elif x in '([{':
            stack.append((x, cur))
            cur = []
        elif x in ')]}':
            o, outer = stack.pop()
            outer.append(('g', o, cur))
            cur = outer
        else:
            cur.append(('p', x))
    return cur


def parse_text(src):
    return P(lex_text(src)).stmts()
