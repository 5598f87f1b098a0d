"""C14: the tokenizer as a function of its input bytes.  C15, C22: what it does on every short input.

`Token::gobble` and `tokenize` are interpreted on byte sequences of which some bytes are symbolic; every
outcome carries, per symbolic byte, the exact set of values that lead to it.
"""
import itertools
from ..an import *
from ..std import disp, units
from .. import l1

OPERATORS = ('=', ',', ';', '?', '?:', '[', ']', '{', '}', '(', ')', '+', '*', '%', '^', '~', '|', '||', '/', '&', '&&', '.', '..', ':', ':>', '::',
             '<', '<=', '<<', '>', '>=', '>>>', '>>', '-', '->', '!', '!=', '==')
KEYWORDS = ('type', 'as', 'import', 'import_ffi', 'from', 'transform', 'function', 'const', 'container', 'enum', 'bitfield', 'default', 'bool',
            'true', 'false', 'f32', 'f64', 'u8', 'u16', 'u32', 'u64', 'u128', 'i8', 'i16', 'i32', 'i64', 'i128',
            'u16le', 'u32le', 'u64le', 'u128le', 'i16le', 'i32le', 'i64le', 'i128le')
WS = b' \t\n\r\x0c'
ALPHA = set(range(65, 91)) | set(range(97, 123)) | {95}
DIGIT = set(range(48, 58))
HEX = DIGIT | set(range(65, 71)) | set(range(97, 103))


# ------------------------------------------------------------------------ reference
def reference(b):
    """(kind, payload, consumed); kind: 'end' | 'space' | 'none' | spelling | 'Ident' | 'Int' | 'String' | 'CommentLine' | 'CommentBlock' | 'open'"""
    if not b:
        return 'end', None, 0
    c = b[0]
    if c in WS:
        return 'space', None, 1
    if c in ALPHA:
        n = 1
        while n < len(b) and (b[n] in ALPHA or b[n] in DIGIT):
            n += 1
        t = b[:n].decode()
        return (t, None, n) if t in KEYWORDS else ('Ident', t, n)
    if c in DIGIT:
        n = 1
        if b[:2] == b'0x':
            n = 2
            while n < len(b) and b[n] in HEX:
                n += 1
        else:
            while n < len(b) and b[n] in DIGIT:
                n += 1
        return 'Int', b[:n].decode(), n
    if c == 34:
        out, i = [], 1
        while True:
            if i >= len(b):
                return 'none', None, 0
            if b[i] == 34:
                return 'String', bytes(out), i + 1
            if b[i] == 92 and i + 1 < len(b):
                if b[i + 1] in HEX:
                    k = 2 if i + 2 < len(b) and b[i + 2] in HEX else 1
                    out.append(int(b[i + 1:i + 1 + k], 16))
                    i += 1 + k
                else:
                    out.append(b[i + 1])
                    i += 2
                continue
            out.append(b[i])
            i += 1
    if b[:2] == b'//':
        e = b.find(b'\n')
        return ('CommentLine', b[2:], len(b)) if e < 0 else ('CommentLine', b[2:e], e + 1)
    if b[:2] == b'/*':
        e = b.find(b'*/', 2)
        return ('open', None, 0) if e < 0 else ('CommentBlock', b[2:e], e + 2)
    for n in (3, 2, 1):
        if len(b) >= n and b[:n].decode('latin1') in OPERATORS:
            return b[:n].decode(), None, n
    return 'none', None, 0


class Lex:
    def __init__(self, c):
        self.c, self.m = c, c.mir
        self.fn = [f for f in self.m.fns.values() if f.d.endswith('tokenizer::Token::gobble')]
        if not self.fn:
            raise KeyError('anchor Token::gobble')
        self.fn = self.fn[0]
        self.u8 = [i for i, t in enumerate(self.m.types) if t.get('n') == 'u8'][0]
        self.tok = self.m.adt('tokenizer::Token')
        self.text = {}
        self.panics = []

    def interp(self):
        I_ = Interp(self.m, {})
        I_.unroll = 3000
        return I_

    def display(self):
        """variant -> printed text, for the variants without payload"""
        I_ = self.interp()
        for i, v in enumerate(self.m.types[self.tok]['v']):
            if v['f']:
                continue
            o = disp(I_, State(), ('v', self.tok, i, ()), self.m.types[self.tok]['n'])
            ts = {''.join(p) for s, p in o if all(isinstance(x, str) for x in p)}
            if len(ts) != 1:
                raise KeyError('text of token %s' % v['n'])
            self.text[v['n']] = ts.pop()
        note(self.c, I_)

    def sym(self, I_, bs):
        return tuple(('1', I(x)) if isinstance(x, int) else ('1', I_.atom(x, self.u8)) for x in bs)

    def gobble(self, bs):
        """bs: ints and names of symbolic bytes -> [(facts, value, interp, state)]"""
        I_ = self.interp()
        outs = I_.run(self.fn, [K(('q', self.sym(I_, bs)))], State())
        note(self.c, I_)
        for f, b, why, s in list(I_.panics) + list(I_.asserts):
            self.panics.append((bs, f.name, why, {k: x for k, x in s.facts.items() if isinstance(k, str)}))
        return [(s.facts, I_.resolve(s, v, 8), I_, s) for s, v in outs]


def concretise(I_, st, v, env):
    """value with symbolic bytes replaced -> python value"""
    v = I_.resolve(st, v, 8)
    k = v[0]
    if k == 'i':
        return v[1]
    if k == 'A':
        if v[1] in env:
            return env[v[1]]
        raise KeyError('value %s' % (v[1],))
    if k in ('K', 'b'):
        return concretise(I_, st, v[1], env)
    if k == 'r':
        return concretise(I_, st, I_.load(st, v), env)
    if k == 's':
        out = b''
        for p in v[1]:
            if isinstance(p, str):
                out += p.encode()
            elif p[0] == 'byte':
                out += bytes([concretise(I_, st, p[1], env)])
            else:
                raise KeyError('text %s' % (p,))
        return out
    if k == 'q':
        if any(x[0] != '1' for x in v[1]):
            raise KeyError('sequence')
        xs = [concretise(I_, st, x[1], env) for x in v[1]]
        return bytes(xs) if all(isinstance(x, int) and 0 <= x < 256 for x in xs) else xs
    if k == 'v':
        t = I_.T[v[1]] if v[1] is not None else None
        fs = [concretise(I_, st, x, env) for x in v[3]]
        if t is not None and t['k'] == 'adt' and t.get('ak') == 'Enum':
            if t['d'].endswith('borrow::Cow'):
                return fs[0]
            return (t['v'][v[2]]['n'],) + tuple(fs)
        return ('',) + tuple(fs)
    if k == 'op' and v[1] == 'radix':
        return int(bytes(concretise(I_, st, v[2], env)), v[3][1])
    if k == 'op' and len(v) == 4:
        a, b = concretise(I_, st, v[2], env), concretise(I_, st, v[3], env)
        return {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mul': lambda: a * b, 'BitOr': lambda: a | b, 'Shl': lambda: a << b}[v[1]]()
    raise KeyError('value %s' % (v[:2],))


def admits(facts, env):
    for k, x in env.items():
        f = facts.get(k)
        if f is not None and (x in f[1]) != f[0]:
            return False
    return True


def classes(names, outs, fixed):
    """representatives of the byte values that neither the code nor the reference tells apart"""
    sets = set()
    for facts, *_ in outs:
        for n in names:
            f = facts.get(n)
            if f is not None:
                sets.add(frozenset(f[1]))
    keep = set(range(33, 48)) | set(range(58, 65)) | set(range(91, 97)) | set(range(123, 127)) | set(WS) | set(fixed)
    cl = {}
    for x in range(256):
        sig = (x if x in keep else None, x in HEX, x in DIGIT, x in ALPHA, x == 48, x in b'xX', x > 127, x < 32, tuple(x in s for s in sets))
        cl.setdefault(sig, x)
    return sorted(cl.values())


def norm(lex, v, n, total):
    """outcome of gobble -> (kind, payload, consumed)"""
    rest, t = v[1], v[2]
    used = total - len(rest)
    if t[0] == 'None':
        if total == 0:
            return 'end', None, 0
        return ('space' if used == 1 else 'none' if used == 0 else 'skip %d' % used), None, used
    t = t[1]
    if len(t) == 1:
        return lex.text.get(t[0], '?' + t[0]).strip(), None, used
    return t[0], t[1], used


def same(got, want, b):
    if want[0] == 'open':
        return True                     # an unterminated comment is not covered by the statement
    g, p, n = got
    if g in ('Ident', 'Int') and isinstance(p, bytes):
        p = p.decode('latin1')
    if g in ('String', 'CommentLine', 'CommentBlock') and isinstance(p, list) and not p:
        p = b''
    if g in ('CommentLine', 'CommentBlock'):
        p = want[1] if g == want[0] else p     # comments carry no meaning
    if got[0] == 'none' and want[0] == 'none':
        return True
    return (g, p, n) == want


def compare(c, lex, bs, what):
    names = [x for x in bs if not isinstance(x, int)]
    outs = lex.gobble(bs)
    reps = classes(names, outs, [x for x in bs if isinstance(x, int)]) if names else []
    n = 0
    for combo in itertools.product(reps, repeat=len(names)):
        env = dict(zip(names, combo))
        b = bytes(env[x] if not isinstance(x, int) else x for x in bs)
        want = reference(b)
        got, bad = set(), None
        for facts, v, I_, st in outs:
            if admits(facts, env):
                try:
                    r = norm(lex, concretise(I_, st, v, env), n, len(b))
                    got.add(r if not isinstance(r[1], list) else (r[0], bytes(r[1]), r[2]))
                except (KeyError, TypeError, ValueError) as x:
                    bad = x
        n += 1
        if bad or len(got) > 1:
            c.undecided('%s: token of %r' % (what, b), bad or got)
            return
        if not got:
            continue                     # diverges: reported by the panic check
        g = got.pop()
        if want[0] == 'open':
            continue
        key = 'token:%s' % (want[0] if want[0] not in ('none', 'space', 'end') else 'none')
        if not same(g, want, b):
            c.violation(key, 'the input %r is read as %s (%s, %d bytes), the language reads it as %s (%s, %d bytes)'
                        % ((b,) + tuple(map(str, g[:2])) + (g[2],) + tuple(map(str, want[:2])) + (want[2],)), lex.fn.name)
    c.ob(what, n or 1)


def tokens(c):
    c.rule('every spelling, followed by every byte, and every input of up to three bytes is read as the longest keyword or operator of the '
           'language that it starts with; printing a token gives its spelling; literals carry the bytes they spell')
    lex = Lex(c)
    lex.display()
    sp = {}
    for n, t in sorted(lex.text.items()):
        s = t.strip()
        c.check('printed spelling', s in OPERATORS or s in KEYWORDS, 'print:' + n, 'the token %s is printed as %r' % (n, t), 'Token::fmt')
        c.check('printed spelling', s not in sp, 'print:' + n, 'the tokens %s and %s are both printed as %r' % (n, sp.get(s), t), 'Token::fmt')
        sp[s] = n
    for s in OPERATORS + KEYWORDS:
        c.check('printed spelling', s in sp, 'print:missing:' + s, 'no token is printed as %r' % s, 'Token::fmt')
    jobs = []
    for s in OPERATORS + KEYWORDS:
        b = list(s.encode())
        if s in sp and lex.text[sp[s]] != s:
            compare(c, lex, list(lex.text[sp[s]].encode()), 'printed token')
        for tail in ([], ['c0'], ['c0', 'c1']) if s not in ('.',) else ([], ['c0'], ['c0', 'c1']):
            if len(tail) == 2 and c.tier != 'thorough' and s in KEYWORDS:
                continue
            jobs.append(('token ' + s, compare, lex, b + tail, 'spelling with follower'))
    for n in (0, 1, 2, 3):
        jobs.append(('inputs of %d bytes' % n, compare, lex, ['c%d' % i for i in range(n)], 'input of %d bytes' % n))
    for pre in (b'0', b'0x', b'0x1', b'17', b'9a', b'a', b'_', b'a1_', b'"', b'"ab', b'"\\', b'"\\4', b'"\\45', b'"a\\n'):
        for n in (1, 2) + ((3,) if c.tier == 'thorough' or pre[:1] == b'"' else ()):
            jobs.append(('literal %r' % pre, compare, lex, list(pre) + ['c%d' % i for i in range(n)], 'literal'))
    for pre, post in ((b'//', b'\nx'), (b'//a', b'x\n'), (b'/*', b'*/x'), (b'/* *', b'/ */'), (b'/*', b'\n*/')):
        jobs.append(('comment %r' % pre, compare, lex, list(pre) + ['c0'] + list(post), 'comment'))
    c.parallel(jobs)
    c.floor('printed spelling', 100)
    c.floor('spelling with follower', 2000)


# ------------------------------------------------------------------------ whole inputs
def ref_tokens(b, strip):
    """[(kind, payload, (line_start, col_start, line_stop, col_stop))] or None for an error"""
    out, i = [], 0

    def at(j):
        return b.count(b'\n', 0, j) + 1, j - (b.rfind(b'\n', 0, j) + 1) + 1
    while i < len(b):
        k, p, n = reference(b[i:])
        if k == 'none':
            return None
        if k == 'open':
            return 'open'
        if k != 'space' and not (strip and k in ('CommentLine', 'CommentBlock')):
            out.append((k, p, at(i) + at(i + n)))
        i += n
    return out


class Files(Lex):
    def __init__(self, c):
        Lex.__init__(self, c)
        self.display()
        self.tk = [f for f in self.m.fns.values() if f.d.endswith('tokenizer::tokenize')]
        if not self.tk:
            raise KeyError('anchor tokenize')
        self.tk = self.tk[0]
        self.span = self.m.types[self.m.adt('tokenizer::Span')]['v'][0]['f']
        self.order = [[f[0] for f in self.span].index(n) for n in ('line_start', 'col_start', 'line_stop', 'col_stop')]

    def run(self, bs, strip, alpha=range(128)):
        I_ = self.interp()
        I_.max_outcomes = 20000
        us = [I(x) if isinstance(x, int) else I_.atom(x, self.u8) for x in bs]
        out = []
        # a text: bytes outside ASCII do not stand alone
        st = State()
        for u in us:
            if u[0] == 'A':
                I_.assume(st, u, True, frozenset(alpha))
        outs = I_.run(self.tk, [K(('s', tuple(('byte', u) if u[0] == 'A' else chr(u[1]) for u in us))), I(1 if strip else 0)], st)
        note(self.c, I_)
        for f, b, why, s in list(I_.panics) + list(I_.asserts):
            self.panics.append((bs, f.name, why, {k: x for k, x in s.facts.items() if isinstance(k, str)}))
        return [(s.facts, I_.resolve(s, v, 8), I_, s) for s, v in outs]

    def tokens(self, I_, st, v, env):
        """None for an error"""
        t = I_.T[v[1]]
        if t['v'][v[2]]['n'] == 'Err':
            return None
        out = []
        seq = I_.resolve(st, I_.strip(st, v[3][0]), 8)
        if seq[0] != 'q' or any(x[0] != '1' for x in seq[1]):
            raise KeyError('token list')
        for x in seq[1]:
            x = I_.resolve(st, x[1], 8)
            fs = {f[0]: y for f, y in zip(I_.T[x[1]]['v'][0]['f'], x[3])}
            tok = concretise(I_, st, fs['token'], env)
            sp = concretise(I_, st, fs['span'], env)[1:]
            k = self.text.get(tok[0], tok[0]).strip() if len(tok) == 1 else tok[0]
            p = tok[1] if len(tok) > 1 else None
            if isinstance(p, list):
                p = bytes(p)
            out.append((k, p, tuple(sp[i] for i in self.order)))
        return out


def file_same(g, w):
    if len(g) != len(w):
        return 'there are %d tokens instead of %d' % (len(g), len(w))
    for (k, p, s), (k2, p2, s2) in zip(g, w):
        if isinstance(p, bytes) and k in ('Ident', 'Int'):
            p = p.decode('latin1')
        if k in ('CommentLine', 'CommentBlock'):
            p = p2
        if k != k2 or p != p2:
            return 'token', 'the token %s %s stands where %s %s is written' % (k, p, k2, p2)
        if s != s2:
            return 'span', 'the token %s from line %d column %d to line %d column %d is given the lines and columns %d:%d to %d:%d' % ((k2,) + s2 + s)
    return None


def file_cmp(c, lex, bs, strip, what, alpha=range(128)):
    names = [x for x in bs if not isinstance(x, int)]
    outs = lex.run(bs, strip, alpha)
    reps = [x for x in (alpha if len(alpha) < 128 else classes(names, outs, [x for x in bs if isinstance(x, int)])) if x < 128] if names else []
    n = 0
    for combo in itertools.product(reps, repeat=len(names)):
        env = dict(zip(names, combo))
        b = bytes(env[x] if not isinstance(x, int) else x for x in bs)
        want = ref_tokens(b, strip)
        if want == 'open':
            continue
        got = []
        for facts, v, I_, st in outs:
            if admits(facts, env):
                try:
                    got.append(lex.tokens(I_, st, v, env))
                except (KeyError, TypeError, ValueError) as x:
                    c.undecided('%s: tokens of %r' % (what, b), x)
                    return
        n += 1
        if len(got) != 1:
            if got:
                c.undecided('%s: tokens of %r' % (what, b), len(got))
                return
            continue
        g = got[0]
        if (g is None) != (want is None):
            c.violation('tokens:accepts', 'the input %r is %s' % (b, 'rejected' if g is None else 'accepted, but it is not a sequence of tokens'), lex.tk.name)
            continue
        if g is None:
            continue
        d = file_same(g, want)
        if d:
            c.violation('tokens:' + (d[0] if isinstance(d, tuple) else 'count'),
                        'on the input %r, %s' % (b, d[1] if isinstance(d, tuple) else d), lex.tk.name)
    c.ob(what, n or 1)


def positions(c):
    c.rule('over every text of the given shapes, the tokens are those of the language in order, and each carries the line and column of its first and '
           'last character')
    lex = Files(c)
    jobs = []
    for strip in (False, True):
        for n in (1, 2):
            jobs.append(('texts of %d characters' % n, file_cmp, lex, ['c%d' % i for i in range(n)], strip, 'text of %d characters' % n))
        for n in (3, 4, 5) if c.tier == 'thorough' else (3, 4):
            al = b'\n a+"\\/*0'[:9 if n < 5 else 7]
            for first in al:
                jobs.append(('texts of %d characters' % n, file_cmp, lex, [first] + ['c%d' % i for i in range(1, n)], strip, 'text of %d characters' % n, al))
        for t in (b'a\x01b', b'a\nb\x01c', b'\n\n a\x01\x01b', b'"a\x01b" \x01', b'//a\x01b\n\x01c', b'/*\x01*/\x01a', b'/*\n\x01*/ a\x01', b' \x01\x01a', b'ab\x01\n\x01', b'\r\n\x01a',
                  b'"\n\n"\x01b', b'a "\\\n" \x01b', b'12\x01\n 0x\x01'):
            i = iter(range(9))
            jobs.append(('text %r' % t, file_cmp, lex, [x if x != 1 else 'c%d' % next(i) for x in t], strip, 'text with free characters'))
    c.parallel(jobs)
    c.floor('text of 4 characters', 5000)
    c.floor('text with free characters', 5000)
