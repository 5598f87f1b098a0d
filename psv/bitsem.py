"""Abstract evaluation of emitted Rust fragments in a bit-provenance domain.

Every integer is a tuple of bits, lowest first; a bit is 0, 1 or a name (where it came from).  A
buffer is a sequence of such integers, an input stream a sequence of named bytes, an output stream
the list of bytes that were written.  Branches are only followed when the abstraction decides
them; everything else raises Unknown, which the callers report as undecided.
"""
import re
from .rustmini import RErr

UNITS = ()


class Unknown(Exception):
    pass


class Panic(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    def __init__(self, label, v):
        self.label, self.v = label, v


class Cont(Exception):
    def __init__(self, label):
        self.label = label


WID = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64,
       'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128, 'isize': 64}


class Int:
    __slots__ = ('ty', 'bits')

    def __init__(self, ty, bits):
        self.ty, self.bits = ty, tuple(bits)

    def const(self):
        """the value, if every bit is known"""
        if any(b not in (0, 1) or isinstance(b, str) for b in self.bits):
            return None
        v = sum(b << i for i, b in enumerate(self.bits))
        if self.ty and self.ty[0] == 'i' and self.bits and self.bits[-1] == 1:
            v -= 1 << len(self.bits)
        return v

    def key(self):
        return ('int', self.ty, self.bits)

    def __eq__(self, o):
        return isinstance(o, Int) and self.bits == o.bits and (self.ty == o.ty or not self.ty or not o.ty)

    def __hash__(self):
        return hash(self.bits)

    def __repr__(self):
        c = self.const()
        if c is not None:
            return '%d%s' % (c, self.ty or '')
        return '%s<%s>' % (self.ty, ' '.join(str(b) for b in reversed(self.bits)))


def mk(ty, v):
    """ty None: a literal whose type is not known yet"""
    n = WID.get(ty, 160)
    return Int(ty, [(v >> i) & 1 for i in range(n)])


def named(ty, name, known=()):
    k = dict(known)
    return Int(ty, [k.get(i, '%s.%d' % (name, i)) for i in range(WID[ty])])


def boolv(b):
    return bool(b)


class Buf:
    """a vector or array"""

    def __init__(self, items, ety=None):
        self.items, self.ety = list(items), ety

    def __repr__(self):
        return '[%s]' % ', '.join(map(repr, self.items))


class Slice:
    def __init__(self, buf, lo, hi):
        self.buf, self.lo, self.hi = buf, lo, hi

    @property
    def items(self):
        return self.buf.items[self.lo:self.hi]


class Cell:
    """a place"""

    def __init__(self, v, ty=None):
        self.v, self.ty = v, ty


class Ref:
    def __init__(self, cell):
        self.cell = cell


class Str:
    def __init__(self, kind, items):
        self.kind, self.items = kind, tuple(items)

    def __eq__(self, o):
        return isinstance(o, Str) and (self.kind, self.items) == (o.kind, o.items)

    def __repr__(self):
        return 'text(%s of %s)' % (self.kind, list(self.items))


class Var:
    """Some / None / Ok / Err and other enum values"""

    def __init__(self, name, args=()):
        self.name, self.args = name, tuple(args)

    def __eq__(self, o):
        return isinstance(o, Var) and (self.name, self.args) == (o.name, o.args)

    def __repr__(self):
        return '%s(%s)' % (self.name, ', '.join(map(repr, self.args)))


class Struct:
    def __init__(self, name, fields):
        self.name, self.fields = name, fields

    def __eq__(self, o):
        return isinstance(o, Struct) and (self.name, self.fields) == (o.name, o.fields)

    def __repr__(self):
        return '%s%r' % (self.name, self.fields)


class Fut:
    def __init__(self, v):
        self.v = v


class Rng:
    def __init__(self, lo, hi, incl=False):
        self.lo, self.hi, self.incl = lo, hi, incl


class Iter:
    def __init__(self, items):
        self.items = list(items)


class Opaque:
    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return '?' + self.why


class Reader:
    def __init__(self, items, parent=None, limit=None):
        self.src, self.pos, self.parent, self.limit = items, 0, parent, limit

    def left(self):
        if self.parent is not None:
            return min(self.limit, self.parent.left())
        return len(self.src) - self.pos

    def peek(self, k):
        if self.parent is not None:
            return self.parent.peek(min(k, self.limit))
        return self.src[self.pos:self.pos + k]

    def take1(self):
        if self.parent is not None:
            self.limit -= 1
            return self.parent.take1()
        self.pos += 1
        return self.src[self.pos - 1]


class Writer:
    def __init__(self, budget=None):
        self.out = []
        self.flushed = 0
        self.writes = 0
        self.budget = budget

    def fails(self):
        self.writes += 1
        return self.budget is not None and self.writes > self.budget


def unref(v):
    while isinstance(v, Ref):
        v = v.cell.v
    return v


def not_bit(b):
    return 1 - b if b in (0, 1) and not isinstance(b, str) else (b[1:] if b.startswith('!') else '!' + b)


def and_bit(a, b):
    if a == 0 or b == 0:
        return 0
    if a == 1:
        return b
    if b == 1:
        return a
    if a == b:
        return a
    if a == not_bit(b):
        return 0
    return '(%s&%s)' % tuple(sorted((a, b)))


def or_bit(a, b):
    if a == 1 or b == 1:
        return 1
    if a == 0:
        return b
    if b == 0:
        return a
    if a == b:
        return a
    if a == not_bit(b):
        return 1
    return '(%s|%s)' % tuple(sorted((a, b)))


def xor_bit(a, b):
    if a == 0:
        return b
    if b == 0:
        return a
    if a == 1:
        return not_bit(b)
    if b == 1:
        return not_bit(a)
    if a == b:
        return 0
    if a == not_bit(b):
        return 1
    return '(%s^%s)' % tuple(sorted((a, b)))


LIT = re.compile(r'^(0x[0-9a-fA-F_]+?|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize)?$')


def literal(t):
    t = t.strip().replace(' ', '')
    if t.startswith('"'):
        return Opaque('string')
    m = re.match(r"^b'(.)'$", t)
    if m:
        return mk('u8', ord(m.group(1)))
    m = LIT.match(t)
    if not m and t.startswith('0x'):
        m = re.match(r'^(0x[0-9a-fA-F_]+)()$', t)
    if not m:
        if t in ('true', 'false'):
            return t == 'true'
        raise Unknown('literal %s' % t)
    s = m.group(1).replace('_', '')
    v = int(s, 0) if s[:2] in ('0x', '0b', '0o') else int(s)
    return mk(m.group(2) or None, v)


class Ev:
    """evaluator; env maps names to Cells; consts maps paths to values; funcs maps paths to callables"""

    def __init__(self, env, is_async=False, funcs=None, methods=None, valid_text=True, fuel=4000):
        self.scopes = [dict(env)]
        self.is_async = is_async
        self.funcs = funcs or {}
        self.methods = methods or {}
        self.valid_text = valid_text
        self.fuel = fuel
        self.problems = []

    # ------------------------------------------------------------ scopes
    def find(self, n):
        for s in reversed(self.scopes):
            if n in s:
                return s[n]
        return None

    def bindpat(self, pat, v):
        """match a pattern; True when it matches (bindings added)"""
        toks = re.findall(r"#-?\d+|[A-Za-z_⟨{][\w⟩}{.@\[\]]*(?:\s*::\s*[A-Za-z_]\w*)*|\d\w*|[()|&,\[\]]|\.\.=?|\S", pat)
        pos = [0]

        def peek():
            return toks[pos[0]] if pos[0] < len(toks) else None

        def take():
            pos[0] += 1
            return toks[pos[0] - 1]

        def alt(v):
            saved = pos[0]
            # find alternatives at this level
            r = one(v)
            hit = r
            while peek() == '|':
                take()
                r = one(v) if not hit else (skip_one() or False)
                hit = hit or r
            return hit

        def skip_one():
            depth = 0
            while peek() is not None:
                t = peek()
                if depth == 0 and t in ('|', ',', ')', ']'):
                    return False
                depth += t in '(['
                depth -= t in ')]'
                take()
            return False

        def one(v):
            t = take()
            if t == '&':
                return one(unref(v))
            if t in ('mut', 'ref'):
                return one(v)
            if t == '_':
                return True
            if t == '(':
                u = unref(v)
                xs = u if isinstance(u, tuple) else (u,)
                i, ok = 0, True
                while peek() != ')':
                    if peek() == ',':
                        take()
                        continue
                    ok = alt(xs[i] if i < len(xs) else Opaque('pattern')) and ok
                    i += 1
                take()
                return ok
            if t == '[':
                u = unref(v)
                if not isinstance(u, (Buf, Slice)):
                    raise Unknown('slice pattern')
                xs = u.items
                i, ok = 0, True
                while peek() != ']':
                    if peek() == ',':
                        take()
                        continue
                    if i >= len(xs):
                        ok = False
                        skip_one()
                        continue
                    ok = alt(xs[i]) and ok
                    i += 1
                take()
                return ok and i == len(xs)
            if t[:1] == '#':
                u = unref(v)
                if not isinstance(u, Int) or peek() in ('..=', '..'):
                    raise Unknown('pattern %s' % pat)
                return self.truth(self.compare('==', u, mk(None, int(t[1:]))))
            if re.match(r'^\d', t):
                if peek() in ('..=', '..'):
                    raise Unknown('range pattern')
                u = unref(v)
                if not isinstance(u, Int):
                    raise Unknown('pattern %s' % pat)
                return self.truth(self.compare('==', u, literal(t)))
            if t in ('true', 'false'):
                return self.truth(v) == (t == 'true')
            t2 = re.sub(r'\s', '', t)
            if '::' in t2 or t2[:1].isupper() or peek() == '(':
                u = unref(v)
                last = t2.split('::')[-1]
                if last in ('Ok', 'Err', 'Some', 'None') or isinstance(u, Var):
                    if not isinstance(u, Var):
                        raise Unknown('pattern %s' % pat)
                    ok = u.name.split('::')[-1] == last
                    if peek() == '(':
                        take()
                        i = 0
                        while peek() != ')':
                            if peek() == ',':
                                take()
                                continue
                            if ok and i < len(u.args):
                                ok = alt(u.args[i]) and ok
                            else:
                                skip_one()
                            i += 1
                        take()
                    return ok
                c = self.const(t2)
                if c is None:
                    raise Unknown('pattern %s' % pat)
                return self.truth(self.compare('==', u, c))
            if peek() == '@':
                raise Unknown('binding pattern')
            self.scopes[-1][t2] = Cell(v)
            return True

        r = alt(v)
        if pos[0] != len(toks):
            if peek() == 'if':
                raise Unknown('guarded pattern')
            raise Unknown('pattern %s' % pat)
        return r

    def const(self, path):
        f = self.funcs.get('const ' + path)
        if f is not None:
            return f
        m = re.match(r'^(?:(?:std|core)::)?([ui](?:8|16|32|64|128|size))::(MAX|MIN|BITS)$', path)
        if m:
            ty, w = m.group(1), WID[m.group(1)]
            v = {'BITS': w, 'MAX': (1 << (w - (ty[0] == 'i'))) - 1, 'MIN': -(1 << w - 1) if ty[0] == 'i' else 0}[m.group(2)]
            return mk('u32' if m.group(2) == 'BITS' else ty, v)
        return None

    # -------------------------------------------------------- statements
    def block(self, stmts, binds=None):
        self.scopes.append(dict(binds or {}))
        try:
            v = UNITS
            for s in stmts:
                v = UNITS
                if s[0] == 'let':
                    self.let(s)
                elif s[0] == 'expr':
                    v = self.ev(s[1])
                elif s[0] == 'semi':
                    r = self.ev(s[1])
                    if isinstance(r, Fut):
                        self.problems.append('a stream operation is not awaited')
                    elif isinstance(r, Var) and r.name in ('Ok', 'Err'):
                        self.problems.append('a result is dropped')
                elif s[0] == 'use':
                    pass
                else:
                    raise Unknown('statement %s' % s[0])
            return v
        finally:
            self.scopes.pop()

    def run_open(self, stmts):
        """statements whose bindings stay visible"""
        v = UNITS
        for s in stmts:
            v = UNITS
            if s[0] == 'let':
                self.let(s)
            elif s[0] in ('expr', 'semi'):
                v = self.ev(s[1])
                if s[0] == 'semi' and isinstance(v, (Fut,)):
                    self.problems.append('a stream operation is not awaited')
                elif s[0] == 'semi' and isinstance(v, Var) and v.name in ('Ok', 'Err'):
                    self.problems.append('a result is dropped')
            elif s[0] != 'use':
                raise Unknown('statement %s' % s[0])
        return v

    def let(self, s):
        v = self.ev(s[3]) if s[3] is not None else None
        ty = s[2].replace(' ', '') if s[2] else None
        if v is not None:
            v = self.typed(v, ty)
        pat = s[1].strip()
        if re.match(r'^(mut )?[\w⟨⟩{}\[\].@]+$', pat):
            self.scopes[-1][pat.replace('mut ', '')] = Cell(v, ty)
        elif not self.bindpat(pat, v):
            raise Unknown('refutable let')

    def typed(self, v, ty):
        """a literal takes the declared type"""
        if isinstance(v, Int) and v.ty is None and ty in WID:
            n = WID[ty]
            c = v.const()
            return mk(ty, c if c is not None else 0) if c is not None else Int(ty, v.bits[:n])
        if isinstance(v, (Buf,)) and ty:
            m = re.match(r'^\[(\w+);', ty) or re.match(r'^Vec<(\w+)>$', ty)
            if m and m.group(1) in WID:
                v.ety = m.group(1)
                v.items = [self.typed(x, m.group(1)) for x in v.items]
        return v

    # ------------------------------------------------------- expressions
    def ev(self, e):
        self.fuel -= 1
        if self.fuel < 0:
            raise Unknown('too long')
        f = getattr(self, 'e_' + e[0], None)
        if f is None:
            raise Unknown('expression %s' % e[0])
        return f(e)

    def truth(self, v):
        v = unref(v)
        if isinstance(v, bool):
            return v
        raise Unknown('condition is not decided')

    def e_paren(self, e):
        return self.ev(e[1])

    def e_lit(self, e):
        return literal(e[1])

    def e_num(self, e):
        h = e[2]
        m = re.match(r'^-?\d+$', str(e[1]))
        if m:
            return mk(None, int(e[1]))
        c = self.find(e[1])
        if c is not None:
            return c.v
        raise Unknown('number %s' % e[1])

    def e_hole(self, e):
        c = self.find(e[1])
        if c is None:
            raise Unknown('hole %s' % e[1])
        return c.v

    def e_path(self, e):
        n = re.sub(r'\s', '', e[1])
        if n in ('true', 'false'):
            return n == 'true'
        c = self.find(n)
        if c is not None:
            if c.v is None:
                raise Unknown('uninitialised %s' % n)
            return c.v
        k = self.const(n)
        if k is not None:
            return k
        if re.search(r'(^|::)ErrorKind::', n):
            return Opaque('error')
        if n in ('None', 'Option::None'):
            return Var('None')
        if n in self.funcs or n.split('::')[-1] in ('Ok', 'Err', 'Some'):
            return lambda *a: self.call(n, list(a))
        raise Unknown('name %s' % n)

    def e_ref(self, e):
        x = e[2]
        v = self.ev(x)
        if isinstance(v, (Buf, Slice, Reader, Writer, Str, Ref)):
            return v
        if e[1] and x[0] == 'path':
            return Ref(self.find(x[1]))
        return Ref(Cell(v))

    def e_un(self, e):
        v = self.ev(e[2])
        if e[1] == '*':
            return unref(v) if isinstance(v, Ref) else v
        v = unref(v)
        if e[1] == '!':
            if isinstance(v, bool):
                return not v
            if isinstance(v, Int):
                return Int(v.ty, [not_bit(b) for b in v.bits])
        if e[1] == '-' and isinstance(v, Int):
            c = v.const()
            if c is not None:
                return mk(v.ty, -c)
        raise Unknown('operator ' + e[1])

    def e_as(self, e):
        v = unref(self.ev(e[1]))
        ty = e[2].replace(' ', '')
        return self.cast(v, ty)

    def cast(self, v, ty):
        if ty == '_':
            return v
        if isinstance(v, bool) and ty in WID:
            return mk(ty, int(v))
        if not isinstance(v, Int) or ty not in WID:
            raise Unknown('cast to %s' % ty)
        n = WID[ty]
        b = v.bits
        if v.ty is None:
            c = v.const()
            return mk(ty, c)
        if len(b) < n:
            fill = b[-1] if v.ty[0] == 'i' else 0
            b = b + (fill,) * (n - len(b))
        return Int(ty, b[:n])

    def unify(self, a, b):
        a, b = unref(a), unref(b)
        if isinstance(a, Int) and isinstance(b, Int):
            if a.ty is None and b.ty is not None:
                a = self.typed(a, b.ty)
            elif b.ty is None and a.ty is not None:
                b = self.typed(b, a.ty)
            if a.ty != b.ty:
                raise Unknown('operands of different types')
        return a, b

    def e_bin(self, e):
        op = e[1]
        if op in ('&&', '||'):
            a = self.truth(self.ev(e[2]))
            if op == '&&':
                return self.truth(self.ev(e[3])) if a else False
            return True if a else self.truth(self.ev(e[3]))
        a, b = self.ev(e[2]), self.ev(e[3])
        return self.binop(op, a, b)

    def binop(self, op, a, b):
        if op in ('==', '!=', '<', '<=', '>', '>='):
            return self.compare(op, a, b)
        if op in ('<<', '>>'):
            a, b = unref(a), unref(b)
            if not isinstance(a, Int) or not isinstance(b, Int):
                raise Unknown('shift')
            n = b.const()
            if n is None:
                raise Unknown('shift by an unknown amount')
            if a.ty and (n < 0 or n >= len(a.bits)):
                raise Panic('a shift by %d of a %s overflows' % (n, a.ty))
            w = len(a.bits)
            if op == '<<':
                return Int(a.ty, ((0,) * n + a.bits)[:w])
            fill = a.bits[-1] if a.ty and a.ty[0] == 'i' else 0
            return Int(a.ty, a.bits[n:] + (fill,) * min(n, w))
        a, b = self.unify(a, b)
        if isinstance(a, bool) and isinstance(b, bool):
            return {'&': a and b, '|': a or b, '^': a != b}[op]
        if not isinstance(a, Int) or not isinstance(b, Int):
            raise Unknown('operator %s' % op)
        if op in ('&', '|', '^'):
            f = {'&': and_bit, '|': or_bit, '^': xor_bit}[op]
            return Int(a.ty, [f(x, y) for x, y in zip(a.bits, b.bits)])
        x, y = a.const(), b.const()
        if x is None or y is None:
            if op == '+' and all(p == 0 or q == 0 for p, q in zip(a.bits, b.bits)):
                return Int(a.ty, [or_bit(p, q) for p, q in zip(a.bits, b.bits)])
            if op == '*' and (x is not None or y is not None):
                k, z = (x, b) if x is not None else (y, a)
                if k and k & (k - 1) == 0:
                    n = k.bit_length() - 1
                    if any(t != 0 for t in z.bits[len(z.bits) - n:]) and n:
                        raise Unknown('product may overflow')
                    return Int(z.ty, ((0,) * n + z.bits)[:len(z.bits)])
            if op in ('/', '%') and y and y & (y - 1) == 0 and not (a.ty and a.ty[0] == 'i'):
                n = y.bit_length() - 1
                if op == '/':
                    return Int(a.ty, a.bits[n:] + (0,) * n)
                return Int(a.ty, a.bits[:n] + (0,) * (len(a.bits) - n))
            if op == '-' and a.bits == b.bits:
                return mk(a.ty, 0)
            raise Unknown('operator %s on unknown values' % op)
        if op in ('/', '%') and y == 0:
            raise Panic('division by zero')
        v = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1),
             '%': lambda: abs(x) % abs(y) * (1 if x >= 0 else -1)}[op]()
        self.fits(a.ty, v, op)
        return mk(a.ty, v)

    def fits(self, ty, v, op):
        if ty is None:
            if v < 0:
                raise Unknown('negative literal')
            return
        w = WID[ty]
        lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if ty[0] == 'i' else (0, (1 << w) - 1)
        if not lo <= v <= hi:
            raise Panic('%s overflows %s' % (op, ty))

    def compare(self, op, a, b):
        a, b = self.unify(a, b)
        if isinstance(a, bool) and isinstance(b, bool):
            return {'==': a == b, '!=': a != b}[op]
        if isinstance(a, Var) and isinstance(b, Var) and op in ('==', '!='):
            if a.name != b.name or len(a.args) != len(b.args):
                return op == '!='
            return all(self.compare('==', unref(x), unref(y)) for x, y in zip(a.args, b.args)) == (op == '==')
        if isinstance(a, (Buf, Slice)) and isinstance(b, (Buf, Slice)) and op in ('==', '!='):
            if len(a.items) != len(b.items):
                return op == '!='
            r = all(self.compare('==', x, y) for x, y in zip(a.items, b.items))
            return r == (op == '==')
        if not isinstance(a, Int) or not isinstance(b, Int):
            raise Unknown('comparison')
        x, y = a.const(), b.const()
        if op in ('==', '!='):
            if a.bits == b.bits:
                return op == '=='
            if any(p in (0, 1) and q in (0, 1) and p != q and not isinstance(p, str) and not isinstance(q, str) for p, q in zip(a.bits, b.bits)) \
                    or any(p == not_bit(q) for p, q in zip(a.bits, b.bits)):
                return op == '!='
            raise Unknown('equality is not decided')
        if x is not None and y is not None:
            return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op]
        # bounds
        (al, ah), (bl, bh) = self.bounds(a), self.bounds(b)
        if op in ('>', '>='):
            al, ah, bl, bh = bl, bh, al, ah
            op = {'>': '<', '>=': '<='}[op]
        if op == '<':
            if ah < bl:
                return True
            if al >= bh:
                return False
        else:
            if ah <= bl:
                return True
            if al > bh:
                return False
        raise Unknown('order is not decided')

    def bounds(self, a):
        lo = hi = 0
        n = len(a.bits)
        for i, b in enumerate(a.bits):
            w = 1 << i
            if a.ty and a.ty[0] == 'i' and i == n - 1:
                w = -w
            if b == 1:
                lo += w
                hi += w
            elif b != 0:
                lo += min(w, 0)
                hi += max(w, 0)
        return lo, hi

    def e_tuple(self, e):
        return tuple(self.ev(x) for x in e[1])

    def e_array(self, e):
        return Buf([unref(self.ev(x)) for x in e[1]])

    def e_repeat(self, e):
        v = self.ev(e[1])
        n = unref(self.ev(e[2])).const()
        if n is None:
            raise Unknown('array length')
        if n > 4096:
            self.reserve(n)
            raise Panic('memory for %d elements is reserved' % n)
        return Buf([v] * n)

    def reserve(self, n):
        self.problems.append('memory for %d elements is reserved before they were read' % n)

    def e_range(self, e):
        lo = unref(self.ev(e[1])) if e[1] is not None else None
        hi = unref(self.ev(e[2])) if e[2] is not None else None
        return Rng(lo, hi)

    def e_struct(self, e):
        raise Unknown('struct')

    def e_block(self, e):
        return self.block(e[1])

    def bound(self, r, n):
        lo = r.lo.const() if r.lo is not None else 0
        hi = r.hi.const() if r.hi is not None else n
        if lo is None or hi is None:
            raise Unknown('range')
        return lo, hi + (1 if r.incl else 0)

    def e_index(self, e):
        b = unref(self.ev(e[1]))
        i = self.ev(e[2])
        if isinstance(b, (Buf, Slice)):
            n = len(b.items)
            if isinstance(i, Rng):
                lo, hi = self.bound(i, n)
                if lo > hi or hi > n:
                    raise Panic('slice index out of range')
                if isinstance(b, Slice):
                    return Slice(b.buf, b.lo + lo, b.lo + hi)
                return Slice(b, lo, hi)
            k = unref(i).const()
            if k is None:
                raise Unknown('index')
            if not 0 <= k < n:
                raise Panic('index out of range')
            v = b.items[k]
            if isinstance(v, Int) and v.ty is None and getattr(b, 'ety', None):
                v = self.typed(v, b.ety)
            return v
        raise Unknown('index')

    def e_field(self, e):
        v = unref(self.ev(e[1]))
        if isinstance(v, tuple) and str(e[2]).isdigit():
            return v[int(e[2])]
        if isinstance(v, Struct) and e[2] in v.fields:
            return v.fields[e[2]]
        if isinstance(v, Var) and str(e[2]).isdigit() and int(e[2]) < len(v.args):
            return v.args[int(e[2])]
        raise Unknown('field %s' % e[2])

    def e_await(self, e):
        v = self.ev(e[1])
        if isinstance(v, Fut):
            return v.v
        self.problems.append('something that is not asynchronous is awaited')
        return v

    def e_try(self, e):
        v = self.ev(e[1])
        if isinstance(v, Fut):
            self.problems.append('a stream operation is not awaited')
            v = v.v
        if isinstance(v, Var):
            if v.name in ('Ok', 'Some'):
                return v.args[0]
            if v.name in ('Err', 'None'):
                raise Ret(v)
        raise Unknown('? on %s' % type(v).__name__)

    def e_return(self, e):
        raise Ret(self.ev(e[2]) if e[2] is not None else UNITS)

    def e_break(self, e):
        raise Brk(e[1], self.ev(e[2]) if e[2] is not None else UNITS)

    def e_continue(self, e):
        raise Cont(e[1])

    def e_label(self, e):
        l = e[1]
        x = e[2]
        if x[0] in ('loop', 'while', 'for'):
            return getattr(self, 'e_' + x[0])(x, l)
        try:
            return self.ev(x)
        except Brk as b:
            if b.label == l:
                return b.v
            raise

    def iterate(self, body, label, binds=None):
        """one round; False when the loop ends"""
        try:
            self.block(body, binds)
        except Cont as c:
            if c.label not in (None, label):
                raise

    def e_loop(self, e, label=None):
        n = 0
        while True:
            n += 1
            if n > 600:
                raise Unknown('loop does not end')
            try:
                self.iterate(e[1], label)
            except Brk as b:
                if b.label in (None, label):
                    return b.v
                raise

    def cond(self, c):
        """(taken, bindings scope pushed)"""
        if c[0] == 'let':
            v = self.ev(c[2])
            return self.bindpat(c[1], v)
        return self.truth(self.ev(c))

    def e_while(self, e, label=None):
        n = 0
        while True:
            n += 1
            if n > 600:
                raise Unknown('loop does not end')
            self.scopes.append({})
            try:
                if not self.cond(e[1]):
                    return UNITS
                self.iterate(e[2], label)
            except Brk as b:
                if b.label in (None, label):
                    return UNITS
                raise
            finally:
                self.scopes.pop()

    def elems(self, v):
        v = unref(v)
        if isinstance(v, (Buf, Slice, Iter)):
            return list(v.items)
        if isinstance(v, Rng):
            lo, hi = self.bound(v, 0)
            if v.hi is None:
                hi = lo + 600
            ty = (v.hi.ty if v.hi is not None else None) or v.lo.ty
            return [mk(ty, i) for i in range(lo, hi)]
        if isinstance(v, Var) and v.name in ('Some', 'None'):
            return list(v.args)
        raise Unknown('iteration over %s' % type(v).__name__)

    def e_for(self, e, label=None):
        for x in self.elems(self.ev(e[2])):
            self.scopes.append({})
            try:
                if not self.bindpat(e[1], x):
                    raise Unknown('for pattern')
                self.iterate(e[3], label)
            except Brk as b:
                if b.label in (None, label):
                    return UNITS
                raise
            finally:
                self.scopes.pop()
        return UNITS

    def e_if(self, e):
        self.scopes.append({})
        try:
            if self.cond(e[1]):
                return self.block(e[2])
        finally:
            self.scopes.pop()
        return self.block(e[3]) if e[3] is not None else UNITS

    def e_match(self, e):
        v = self.ev(e[1])
        for a in e[2]:
            if a[0] != 'arm':
                raise Unknown('match arm')
            pat, guard = a[1], None
            m = re.match(r'^(.*?) if (.*)$', pat)
            if m:
                from .rustmini import parse_text
                pat, guard = m.group(1), parse_text(m.group(2))[0][1]
            self.scopes.append({})
            try:
                if self.bindpat(pat, v) and (guard is None or self.truth(self.ev(guard))):
                    return self.ev(a[2])
            finally:
                self.scopes.pop()
        raise Unknown('no match arm')

    def e_closure(self, e):
        env = self.scopes

        def f(*args):
            saved = self.scopes
            self.scopes = list(env) + [{}]
            try:
                pats = split_commas(re.sub(r'^move\s*', '', e[1]).strip('|').strip())
                for p, a in zip(pats, args):
                    p = p.split(':')[0] if '::' not in p else p
                    if not self.bindpat(p, a):
                        raise Unknown('closure pattern')
                return self.ev(e[2])
            finally:
                self.scopes = saved
        return f

    def e_assign(self, e):
        op = e[1]
        v = self.ev(e[3])
        t = e[2]
        if op != '=':
            v = self.binop(op[:-1], self.ev(t), v)
        self.store(t, v)
        return UNITS

    def store(self, t, v):
        if t[0] == 'paren':
            return self.store(t[1], v)
        if t[0] in ('path', 'hole'):
            c = self.find(t[1])
            if c is None:
                raise Unknown('assignment to %s' % t[1])
            old = c.v
            if isinstance(old, Int) and old.ty:
                v = self.typed(v, old.ty)
            elif isinstance(old, Int) and old.ty is None and isinstance(v, Int) and v.ty:
                pass
            elif c.ty:
                v = self.typed(v, c.ty)
            c.v = v
            return
        if t[0] == 'index':
            b = unref(self.ev(t[1]))
            i = unref(self.ev(t[2])).const()
            if isinstance(b, Slice) and i is not None:
                b, i = b.buf, b.lo + i
            if isinstance(b, Buf) and i is not None:
                if not 0 <= i < len(b.items):
                    raise Panic('index out of range')
                b.items[i] = self.typed(unref(v), b.ety)
                return
        if t[0] == 'un' and t[1] == '*':
            r = self.ev(t[2])
            if isinstance(r, Ref):
                r.cell.v = v
                return
        raise Unknown('assignment')

    def e_macro(self, e):
        n = e[1].split('::')[-1].strip()
        if n in ('panic', 'unreachable', 'todo', 'unimplemented'):
            raise Panic('%s!' % n)
        if n == 'vec':
            a = e[3]
            if isinstance(a, list):
                if len(a) == 1 and isinstance(a[0], tuple) and a[0][0] == 'repeat':
                    return self.e_repeat(a[0])
                return Buf([self.ev(x) for x in a])
        if n == 'format':
            return Opaque('format')
        raise Unknown('macro %s' % n)

    def fut(self, v):
        return Fut(v) if self.is_async else v

    # -------------------------------------------------------------- calls
    def e_call(self, e):
        f = e[1]
        args = [self.ev(x) for x in e[2]]
        if f[0] == 'path':
            return self.call(re.sub(r'\s', '', f[1]), args)
        g = self.ev(f)
        if callable(g):
            return g(*args)
        raise Unknown('call')

    def call(self, n, args):
        c = self.find(n)
        if c is not None and callable(c.v):
            return c.v(*args)
        if n in self.funcs:
            return self.funcs[n](*args)
        n = re.sub(r'::<.*?>(?=::|$)', '', n)
        n = re.sub(r'^<(.*)>::', r'\1::', n)
        last = n.split('::')[-1]
        if last in ('Ok', 'Err', 'Some') and len(args) == 1:
            return Var(last, args)
        if last == 'drop':
            return UNITS
        if n in ('Vec::new', 'Vec::with_capacity', 'std::vec::Vec::new', 'Vec::default', 'std::vec::Vec::with_capacity'):
            if args and isinstance(unref(args[0]), Int) and (unref(args[0]).const() or 0) > 4096:
                self.reserve(unref(args[0]).const())
            return Buf([])
        m = re.match(r'^(?:(?:std|core)::(?:primitive::)?)?([ui](?:8|16|32|64|128|size))::(\w+)$', n)
        if m:
            ty, f = m.groups()
            if f in ('from_be_bytes', 'from_le_bytes', 'from_ne_bytes'):
                xs = unref(args[0]).items
                if len(xs) * 8 != WID[ty]:
                    raise Unknown('byte count')
                if f == 'from_ne_bytes':
                    self.problems.append('native byte order is used')
                xs = [self.typed(x, 'u8') for x in xs]
                if f == 'from_be_bytes':
                    xs = xs[::-1]
                return Int(ty, [b for x in xs for b in x.bits])
            if f == 'from':
                v = unref(args[0])
                if isinstance(v, bool):
                    return mk(ty, int(v))
                return self.cast(v, ty)
            if f in ('try_from',):
                return self.try_int(unref(args[0]), ty)
            return self.method(args[0] if isinstance(args[0], Int) and args[0].ty else self.typed(unref(args[0]), ty), f, args[1:])
        if last in ('from_utf8', 'from_utf16', 'from_utf8_lossy', 'from_utf16_lossy', 'from_utf8_unchecked') and ('String' in n or 'str' in n):
            xs = unref(args[0]).items
            kind = 'utf16' if '16' in last else 'utf8'
            if 'lossy' in last:
                return Str(kind if self.valid_text else 'lossy ' + kind, xs)
            if 'unchecked' in last:
                if not self.valid_text:
                    self.problems.append('text is not validated')
                return Str(kind, xs)
            return Var('Ok', [Str(kind, xs)]) if self.valid_text else Var('Err', [Opaque('not valid text')])
        if re.search(r'(^|::)(io::Error|Error|ErrorKind|DecodeError|EncodeError)(::|$)', n) or last in ('decode_error', 'encode_error'):
            return Opaque('error')
        if last in ('min', 'max') and len(args) == 2:
            return self.method(args[0], last, args[1:])
        if last in ('to_string', 'to_owned', 'into', 'clone') and len(args) == 1:
            return args[0]
        # fully qualified method call
        for t in ('Read', 'Write', 'AsyncReadExt', 'AsyncWriteExt', 'BufRead', 'AsyncRead', 'AsyncWrite', 'AsyncBufReadExt', 'Iterator', 'Into', 'Clone', 'String', 'str', 'Vec', 'Option', 'Result'):
            if ('::' + n).endswith('::%s::%s' % (t, last)):
                return self.method(args[0], last, args[1:])
        raise Unknown('call of %s' % n)

    def try_int(self, v, ty):
        if not isinstance(v, Int):
            raise Unknown('conversion')
        lo, hi = self.bounds(v)
        w = WID[ty]
        a, b = (-(1 << w - 1), (1 << w - 1) - 1) if ty[0] == 'i' else (0, (1 << w) - 1)
        if a <= lo and hi <= b:
            return Var('Ok', [self.cast(v, ty)])
        if hi < a or lo > b:
            return Var('Err', [Opaque('out of range')])
        raise Unknown('conversion may fail')

    def e_mcall(self, e):
        r = self.ev(e[1])
        args = [self.ev(x) for x in e[3]]
        u = unref(r)
        n = e[2]
        h = self.methods.get(n)
        if h is not None:
            return h(r, *args)
        # in-place methods need the place
        return self.method(r, n, args, e)

    def method(self, r, n, args, e=None):
        u = unref(r)
        tf = (e[4] if e is not None and len(e) > 4 else '') or ''
        if n in ('clone', 'to_owned', 'into', 'by_ref', 'as_ref', 'as_mut', 'borrow', 'borrow_mut', 'into_iter', 'iter', 'iter_mut', 'as_slice', 'as_mut_slice', 'copied',
                 'cloned', 'to_vec', 'into_boxed_slice', 'as_str', 'to_string', 'into_bytes', 'as_bytes', 'deref', 'deref_mut', 'peekable'):
            if isinstance(u, Str):
                if n in ('as_bytes', 'into_bytes'):
                    return Buf(self.text_bytes(u), 'u8')
                return u
            if n in ('into_iter', 'iter', 'copied', 'cloned') and isinstance(u, (Buf, Slice, Iter, Rng)):
                return Iter(self.elems(u))
            if n in ('to_vec',) and isinstance(u, (Buf, Slice)):
                return Buf(u.items, 'u8')
            return r if n in ('by_ref',) else u
        if isinstance(u, Str):
            if n == 'encode_utf16':
                return Iter(u.items if u.kind == 'utf16' else [Opaque('unit')])
            if n == 'bytes':
                return Iter(self.text_bytes(u))
            if n == 'len':
                return mk('usize', len(self.text_bytes(u)))
            if n == 'is_empty':
                return not u.items
            raise Unknown('text method %s' % n)
        if isinstance(u, Int):
            return self.int_method(u, n, args)
        if isinstance(u, bool):
            if n in ('then', 'then_some'):
                return Var('Some', [args[0]() if n == 'then' else args[0]]) if u else Var('None')
            raise Unknown('method %s of bool' % n)
        if isinstance(u, Fut):
            raise Unknown('method %s of a future' % n)
        if isinstance(u, Reader):
            return self.reader(u, n, args, tf)
        if isinstance(u, Writer):
            return self.writer(u, n, args, tf)
        if isinstance(u, (Buf, Slice)):
            x = self.buf(u, n, args)
            if x is not None:
                return x
            u = Iter(u.items)
        if isinstance(u, Rng):
            u = Iter(self.elems(u))
        if isinstance(u, Iter):
            return self.iter(u, n, args, tf)
        if isinstance(u, Var):
            return self.var(u, n, args)
        if isinstance(u, Opaque):
            return Opaque(u.why)
        raise Unknown('method %s of %s' % (n, type(u).__name__))

    def text_bytes(self, s):
        if s.kind == 'utf8':
            return list(s.items)
        raise Unknown('bytes of a text given by its code units')

    def int_method(self, u, n, args):
        a = [unref(x) for x in args]
        w = len(u.bits)
        if n in ('to_be_bytes', 'to_le_bytes', 'to_ne_bytes'):
            if u.ty is None:
                raise Unknown('bytes of a literal')
            xs = [Int('u8', u.bits[i:i + 8]) for i in range(0, w, 8)]
            if n == 'to_ne_bytes' and w > 8:
                self.problems.append('native byte order is used')
            return Buf(xs[::-1] if n == 'to_be_bytes' else xs, 'u8')
        if n == 'swap_bytes':
            xs = [u.bits[i:i + 8] for i in range(0, w, 8)][::-1]
            return Int(u.ty, [b for x in xs for b in x])
        if n in ('to_be', 'to_le', 'from_be', 'from_le'):
            raise Unknown(n)
        if n in ('try_into',):
            raise Unknown('try_into')
        if n in ('wrapping_shl', 'wrapping_shr', 'checked_shl', 'checked_shr', 'overflowing_shl'):
            k = a[0].const()
            if k is None:
                raise Unknown(n)
            if n.startswith('checked'):
                if k >= w:
                    return Var('None')
                return Var('Some', [self.binop('<<' if n.endswith('l') else '>>', u, a[0])])
            return self.binop('<<' if n.endswith('l') else '>>', u, mk('u32', k % w))
        m = re.match(r'^(checked|wrapping|saturating)_(add|sub|mul|rem|div)$', n)
        if m:
            u, b = self.unify(u, a[0])
            x, y = u.const(), b.const()
            if x is None or y is None:
                raise Unknown(n)
            o = m.group(2)
            if o in ('rem', 'div') and y == 0:
                if m.group(1) == 'checked':
                    return Var('None')
                raise Panic('division by zero')
            v = {'add': x + y, 'sub': x - y, 'mul': x * y, 'rem': x % y if y else 0, 'div': x // y if y else 0}[o]
            lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if u.ty and u.ty[0] == 'i' else (0, (1 << w) - 1)
            if m.group(1) == 'checked':
                return Var('Some', [mk(u.ty, v)]) if lo <= v <= hi else Var('None')
            if m.group(1) == 'saturating':
                return mk(u.ty, max(lo, min(hi, v)))
            return mk(u.ty, v)
        if n in ('min', 'max'):
            u, b = self.unify(u, a[0])
            t = self.compare('<=', u, b)
            return (u if t else b) if n == 'min' else (b if t else u)
        if n == 'leading_zeros':
            k = 0
            for b in reversed(u.bits):
                if b == 1:
                    return mk('u32', k)
                if b != 0:
                    raise Unknown(n)
                k += 1
            return mk('u32', k)
        if n == 'trailing_zeros':
            k = 0
            for b in u.bits:
                if b == 1:
                    return mk('u32', k)
                if b != 0:
                    raise Unknown(n)
                k += 1
            return mk('u32', k)
        if n in ('is_negative',):
            if u.bits[-1] in (0, 1):
                return u.bits[-1] == 1
        if n in ('contains',):
            raise Unknown(n)
        raise Unknown('method %s of an integer' % n)

    def reader(self, u, n, args, tf):
        if n in ('read_exact',):
            b = unref(args[0])
            k = len(b.items)
            if u.left() < k:
                while u.left():
                    u.take1()
                return self.fut(Var('Err', [Opaque('end of stream')]))
            self.fill(b, [u.take1() for _ in range(k)])
            return self.fut(Var('Ok', [UNITS]))
        if n == 'read':
            b = unref(args[0])
            k = min(len(b.items), u.left())
            if k and len(b.items) > 1:
                self.problems.append('a read that may transfer fewer bytes than asked')
            if isinstance(b, Slice):
                b = Slice(b.buf, b.lo, b.lo + k)
            else:
                b = Slice(b, 0, k)
            self.fill(b, [u.take1() for _ in range(k)])
            return self.fut(Var('Ok', [mk('usize', k)]))
        if n == 'take':
            k = unref(args[0])
            lo, hi = self.bounds(k)
            c = k.const()
            if c is None:
                raise Unknown('limit')
            return Reader(None, u, c)
        if n == 'read_to_end':
            b = unref(args[0])
            k = u.left()
            b.items += [u.take1() for _ in range(k)]
            return self.fut(Var('Ok', [mk('usize', k)]))
        if n == 'read_until':
            b = unref(args[1])
            stop = self.typed(unref(args[0]), 'u8')
            k = 0
            while u.left():
                x = u.take1()
                b.items.append(x)
                k += 1
                if self.compare('==', x, stop):
                    break
            return self.fut(Var('Ok', [mk('usize', k)]))
        m = re.match(r'^read_([uif])(8|16|32|64|128)(_le)?$', n)
        if m and m.group(1) != 'f':
            ty = m.group(1) + m.group(2)
            k = WID[ty] // 8
            le = bool(m.group(3)) or 'LittleEndian' in tf
            if u.left() < k:
                return self.fut(Var('Err', [Opaque('end of stream')]))
            xs = [u.take1() for _ in range(k)]
            if not le:
                xs = xs[::-1]
            return self.fut(Var('Ok', [Int(ty, [b for x in xs for b in x.bits])]))
        if n == 'bytes':
            return Iter([Var('Ok', [x]) for x in [u.take1() for _ in range(0)]])
        raise Unknown('stream method %s' % n)

    def fill(self, b, xs):
        if isinstance(b, Slice):
            b.buf.items[b.lo:b.hi] = xs
        else:
            b.items[:] = xs

    def writer(self, u, n, args, tf):
        if re.match(r'^(write|flush|shutdown)', n) and u.fails():
            return self.fut(Var('Err', [Opaque('write failed')]))
        if n == 'write_all':
            for x in self.elems(args[0]):
                u.out.append(self.typed(unref(x), 'u8'))
            return self.fut(Var('Ok', [UNITS]))
        if n == 'write':
            self.problems.append('a write that may transfer fewer bytes than asked')
            xs = self.elems(args[0])
            for x in xs:
                u.out.append(self.typed(unref(x), 'u8'))
            return self.fut(Var('Ok', [mk('usize', len(xs))]))
        if n in ('flush', 'shutdown'):
            u.flushed = 1
            return self.fut(Var('Ok', [UNITS]))
        m = re.match(r'^write_([ui])(8|16|32|64|128)(_le)?$', n)
        if m:
            v = self.typed(unref(args[0]), m.group(1) + m.group(2))
            xs = [Int('u8', v.bits[i:i + 8]) for i in range(0, len(v.bits), 8)]
            le = bool(m.group(3)) or 'LittleEndian' in tf
            u.out += xs if le else xs[::-1]
            return self.fut(Var('Ok', [UNITS]))
        raise Unknown('stream method %s' % n)

    def buf(self, u, n, args):
        items = u.items
        if n == 'len':
            return mk('usize', len(items))
        if n == 'is_empty':
            return not items
        if n == 'contains':
            raise Unknown(n)
        if n == 'first' or n == 'last':
            return Var('Some', [items[0 if n == 'first' else -1]]) if items else Var('None')
        if n == 'get' and isinstance(unref(args[0]), Int):
            k = unref(args[0]).const()
            return Var('Some', [items[k]]) if k < len(items) else Var('None')
        if n in ('chunks_exact', 'chunks'):
            k = unref(args[0]).const()
            out = [Slice(Buf(items, 'u8'), i, min(i + k, len(items))) for i in range(0, len(items), k)]
            return Iter([s for s in out if n == 'chunks' or s.hi - s.lo == k])
        if n == 'windows':
            raise Unknown(n)
        if n in ('starts_with', 'ends_with', 'strip_suffix'):
            raise Unknown(n)
        if n == 'try_into':
            return Var('Ok', [Buf(items, 'u8')])
        if n == 'split_at':
            k = unref(args[0]).const()
            return (Slice(Buf(items), 0, k), Slice(Buf(items), k, len(items)))
        if n == 'copy_from_slice':
            self.fill(u, unref(args[0]).items)
            return UNITS
        if not isinstance(u, Buf):
            return None
        if n == 'push':
            u.items.append(self.typed(unref(args[0]), u.ety))
            return UNITS
        if n == 'pop':
            return Var('Some', [u.items.pop()]) if u.items else Var('None')
        if n == 'truncate':
            del u.items[unref(args[0]).const():]
            return UNITS
        if n == 'clear':
            u.items.clear()
            return UNITS
        if n in ('extend', 'extend_from_slice'):
            u.items += self.elems(args[0])
            return UNITS
        if n == 'resize':
            k = unref(args[0]).const()
            if k is None:
                raise Unknown(n)
            if k > 4096:
                self.reserve(k)
                raise Panic('memory for %d elements is reserved' % k)
            while len(u.items) < k:
                u.items.append(self.typed(unref(args[1]), u.ety))
            del u.items[k:]
            return UNITS
        if n == 'reverse':
            u.items.reverse()
            return UNITS
        if n in ('reserve', 'reserve_exact'):
            if (unref(args[0]).const() or 0) > 4096:
                self.reserve(unref(args[0]).const())
            return UNITS
        return None

    def iter(self, u, n, args, tf):
        xs = u.items
        if n == 'map':
            return Iter([args[0](x) for x in xs])
        if n == 'rev':
            return Iter(xs[::-1])
        if n == 'enumerate':
            return Iter([(mk('usize', i), x) for i, x in enumerate(xs)])
        if n == 'count':
            return mk('usize', len(xs))
        if n == 'zip':
            return Iter(list(zip(xs, self.elems(args[0]))))
        if n == 'chain':
            return Iter(xs + self.elems(args[0]))
        if n == 'take':
            return Iter(xs[:unref(args[0]).const()])
        if n == 'skip':
            return Iter(xs[unref(args[0]).const():])
        if n == 'step_by':
            return Iter(xs[::unref(args[0]).const()])
        if n in ('filter', 'take_while', 'skip_while'):
            out = []
            for i, x in enumerate(xs):
                t = self.truth(args[0](x))
                if n == 'filter' and t or n == 'take_while' and t:
                    out.append(x)
                elif n == 'take_while':
                    break
                elif n == 'skip_while' and not t:
                    return Iter(xs[i:])
            return Iter(out)
        if n == 'flat_map':
            return Iter([y for x in xs for y in self.elems(args[0](x))])
        if n == 'flatten':
            return Iter([y for x in xs for y in self.elems(x)])
        if n == 'fold':
            a = args[0]
            for x in xs:
                a = args[1](a, x)
            return a
        if n == 'next':
            if not xs:
                return Var('None')
            return Var('Some', [u.items.pop(0)])
        if n == 'for_each':
            for x in xs:
                args[0](x)
            return UNITS
        if n == 'collect':
            if xs and all(isinstance(x, Var) and x.name in ('Ok', 'Err') for x in xs):
                raise Unknown('collect')
            return Buf([unref(x) for x in xs])
        if n == 'sum':
            raise Unknown('sum')
        raise Unknown('iterator method %s' % n)

    def var(self, u, n, args):
        good = u.name in ('Ok', 'Some')
        if u.name not in ('Ok', 'Err', 'Some', 'None'):
            raise Unknown('method %s' % n)
        if n in ('unwrap', 'expect'):
            if good:
                return u.args[0]
            raise Panic('%s of %s' % (n, u.name))
        if n == 'map':
            return Var(u.name, [args[0](u.args[0])]) if good else u
        if n == 'map_err':
            return u if good else Var('Err', [Opaque('error')])
        if n in ('ok_or', 'ok_or_else'):
            return Var('Ok', u.args) if good else Var('Err', [Opaque('error')])
        if n == 'and_then':
            return args[0](u.args[0]) if good else u
        if n in ('unwrap_or', 'unwrap_or_else', 'unwrap_or_default'):
            if good:
                return u.args[0]
            if n == 'unwrap_or':
                return args[0]
            if n == 'unwrap_or_else':
                return args[0](*u.args) if u.name == 'Err' else args[0]()
            raise Unknown(n)
        if n in ('is_some', 'is_ok'):
            return good
        if n in ('is_none', 'is_err'):
            return not good
        if n == 'ok':
            return Var('Some', u.args) if good else Var('None')
        raise Unknown('method %s' % n)


def split_commas(s):
    out, d, cur = [], 0, ''
    for ch in s:
        d += ch in '([<'
        d -= ch in ')]>'
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def execute(ev, stmts):
    """-> ('ok', value) | ('ret', value) | ('panic', text); Unknown propagates"""
    try:
        return ('ok', ev.run_open(stmts))
    except Ret as r:
        return ('ret', r.v)
    except Panic as p:
        return ('panic', str(p))
    except (Brk, Cont):
        raise Unknown('break outside')
    except (KeyError, AttributeError, TypeError, IndexError, ValueError, RecursionError) as x:
        raise Unknown('%s: %s' % (type(x).__name__, x))
