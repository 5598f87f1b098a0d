"""Rust source text of a token stream all of whose tokens are known."""
from .sem import Undecided
from .interp import K
from .an import name_of

INT = ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize')
CLOSE = {'(': ')', '[': ']', '{': '}', '': ''}


class Render:
    def __init__(self, I_, st):
        self.I_, self.st = I_, st
        self.memo = {}

    def part(self, p):
        if isinstance(p, str):
            return p
        if p[0] == 'disp':
            return self.part(p[1])
        v = self.I_.strip(self.st, p)
        if v[0] == 'i':
            return str(v[1])
        if v[0] == 's':
            return self.parts(v[1])
        raise Undecided('text %s' % name_of(p)[:60])

    def parts(self, ps):
        return ''.join(self.part(p) for p in ps)

    def local_tokens(self, v):
        """a value of a type of the crate that turns itself to tokens"""
        I_ = self.I_
        if v in self.memo:
            return self.memo[v]
        d = I_.T[v[1]]['n'] if v[0] == 'v' and v[1] is not None else None
        fn = None
        for f in (I_.m.fns if isinstance(I_.m.fns, list) else I_.m.fns.values()):
            if d and f.name.endswith('ToTokens>::to_tokens') and f.name.split(' as ')[0].endswith(d.split('::', 1)[-1]):
                fn = f
        if fn is None:
            raise Undecided('tokens of %s' % (d or v[:1],))
        st = self.st.copy() if hasattr(self.st, 'copy') else self.st
        root = ('H', 'concrete', len(self.memo))
        st.store[root] = ('T', ())
        outs = I_.run(fn, [K(v), ('r', root, ())], st)
        if len(outs) != 1:
            raise Undecided('tokens of %s' % d)
        s, _ = outs[0]
        r = self.memo[v] = self.text(s.store[root][1])
        return r

    def text(self, items):
        out = []
        for it in items:
            if it[0] != '1':
                raise Undecided('repetition')
            t = it[1]
            k = t[0]
            if k in ('id', 'lt'):
                out.append(self.parts(t[1]) if not isinstance(t[1], str) else t[1])
            elif k == 'p':
                out.append(t[1])
            elif k == 'g':
                out.append(t[1] + ' ' + self.text(t[2]) + ' ' + CLOSE[t[1]])
            elif k == 'num':
                v = self.I_.strip(self.st, t[1])
                if v[0] != 'i':
                    raise Undecided('number')
                sfx = t[2] if len(t) > 2 else None
                if sfx == 'bool':
                    out.append('true' if v[1] else 'false')
                else:
                    if v[1] < 0:
                        out.append('-')
                    out.append(str(abs(v[1])) + (sfx if sfx in INT else ''))
            elif k == 'lit':
                out.append(self.literal(t[1]))
            elif k == 'str':
                out.append(quote(self.parts(t[1])))
            elif k == 'tt':
                out.append(self.local_tokens(t[1]))
            else:
                raise Undecided('token %s' % k)
        return ' '.join(out)

    def literal(self, s):
        if s and s[0] == 'string':
            return quote(self.part(s[1]))
        if s and s[0] == 'bytes':
            return 'b' + quote(self.bytes(s[1]))
        return self.parts(s)

    def bytes(self, v):
        if v[0] == 'disp':
            v = v[1]
        v = self.I_.strip(self.st, v)
        if v[0] == 's' and all(isinstance(p, str) for p in v[1]):
            return ''.join(v[1])
        if v[0] == 'q':
            xs = [self.I_.strip(self.st, x[1]) if x[0] == '1' else ('?',) for x in v[1]]
            if all(x[0] == 'i' for x in xs):
                return ''.join(chr(x[1]) for x in xs)
        raise Undecided('bytes')


def quote(s):
    out = '"'
    for ch in s:
        n = ord(ch)
        if ch in '"\\':
            out += '\\' + ch
        elif n == 10:
            out += '\\n'
        elif n < 32 or n == 127:
            out += '\\x%02x' % n
        elif n < 127:
            out += ch
        else:
            out += '\\u{%x}' % n
    return out + '"'


def source(sem, text, files=None, **opts):
    """('ok', Rust text) | ('err',) rejected or not parsed | ('panic', where, why)"""
    r = sem.emit(text, files, **opts)
    if r is None:
        return ('err',)
    if r[0] != 'code':
        return r
    I_, st = sem.last
    v = r[1]
    if v[0] != 'T':
        raise Undecided('emitted value')
    return ('ok', Render(I_, st).text(v[1]))
