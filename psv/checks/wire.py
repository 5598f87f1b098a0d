"""Instruction templates: what the emitted coder text does, against reference text.

Every shape of every coder instruction (all targets, all primitive types in both byte orders, present
and absent options, argument lists) is sent through the abstract interpretation of
`prepare_decode` / `prepare_encode`; the emitted token stream is parsed and evaluated to an effect
tree (wiresem).  The same evaluator turns the reference text below into the tree to compare with.
"""
import re
from ..an import *
from ..l2 import concrete, shapes, SIDES
from ..rustmini import parse_stmts, parse_text, RErr
from .. import wiresem as W

SIZES = {'Bool': 1, 'F32': 4, 'F64': 8}
RUST = {'Bool': 'bool', 'F32': 'f32', 'F64': 'f64'}
for _b in (8, 16, 32, 64, 128):
    for _s in 'UI':
        for _e in ('Big', 'Little'):
            SIZES['Scalar(%s%d,%s)' % (_s, _b, _e)] = SIZES['%s%d,%s' % (_s, _b, _e)] = _b // 8


def is_le(lab):
    return 'Little' in lab


def R(n):
    return '⟪r_{%s}⟫' % n


def H_(n):
    return '⟪{%s}⟫' % n


class Ref:
    """reference text of one instruction shape"""

    def __init__(self, r, prim):
        self.r = r
        self.L = r.labels
        self.n = r.n
        self.a = 1 if r.is_async else 0
        self.prim = prim

    def tgt(self, k):
        l = self.L[k]
        if l == 'Direct':
            return 'reader' if self.r.side == 'd' else 'writer'
        if l == 'Stream':
            return R('a%d@Stream.0' % k)
        return '(&mut %s)' % R('a%d@Buf.0' % k)

    def tgt_tok(self, k):
        l = self.L[k]
        if l == 'Direct':
            return '(id reader)' if self.r.side == 'd' else '(id writer)'
        if l == 'Stream':
            return '(id (r_ a%d@Stream.0))' % k
        return '(g ( ((p &) (id mut) (id (r_ a%d@Buf.0))))' % k

    def args(self, k):
        return ''.join(', ' + R('a%d[%d]' % (k, i)) for i in range(self.n))

    def args_tok(self, k):
        return '[%s]' % ';'.join('[(id (r_ a%d[%d]))]' % (k, i) for i in range(self.n))

    def rec(self, k):
        return '⟦rec:a%d⟧' % k

    def gen(self, what, obj, k, data, args):
        mid = '[(id (r_ a%d))],' % data if data is not None else ''
        return '⟦%s(%s,[%s],%s%s)⟧' % (what, obj, self.tgt_tok(k), mid, self.args_tok(args))

    def exact(self, t, n):
        return '{ let mut raw = Vec::new(); %s.take(%s).read_to_end(&mut raw)?; if raw.len() != %s { return Err(x); } raw }' % (t, n, n)

    def texts(self):
        return getattr(self, 'x_' + self.r.variant)()

    def prefix(self):
        """bindings of local names"""
        return ''

    # ------------------------------------------------------------- decode
    def x_Eval(self):
        return 'let %s = ⟦expr(a1)⟧;' % R('a0')

    def items(self, base, named):
        return ', '.join((H_('%s[%d].0' % (base, i)) + ': ' + R('%s[%d].1' % (base, i))) if named else R('%s[%d]' % (base, i)) for i in range(self.n))

    def x_Construct(self):
        k = self.L[1]
        p = 'a1@%s.' % k
        if k == 'Struct':
            v = '%s { %s }' % (H_(p + 'name'), self.items(p + 'items', True))
        elif k == 'Tuple':
            v = '(%s,)' % self.items(p + '0', False)
        elif k == 'TaggedTuple':
            v = '%s(%s)' % (H_(p + 'name'), self.items(p + 'items', False))
        elif k == 'TaggedEnum':
            v = '%s::%s(%s)' % (H_(p + 'name'), H_(p + 'discriminant'), self.items(p + 'values', False))
        else:
            v = '%s::%s { %s }' % (H_(p + 'name'), H_(p + 'discriminant'), self.items(p + 'values', True))
        return 'let %s = %s;' % (R('a0'), v)

    def x_Constrict(self):
        return 'let %s = %s.take(%s as u64);' % (R('a1'), self.tgt(0), R('a2'))

    def x_WrapStream(self):
        if self.r.side == 'd':
            return 'let %s = %s;' % (R('a1'), self.gen('decoding_gen', 'a2.inner', 0, None, 3))
        return 'let %s = %s;' % (R('a1'), self.gen('encoding_gen', 'a2.inner', 0, None, 3))

    def x_ConditionalWrapStream(self):
        if self.r.side == 'd':
            return 'let mut r_xform; let %s = if %s { %s r_xform = %s; &mut r_xform } else { %s };' % (
                R('a3'), R('a0'), self.rec(1), self.gen('decoding_gen', 'a4.inner', 2, None, 5), self.tgt(2))
        return 'let mut %s = None; let %s = if %s { %s %s = Some(%s); %s.as_mut().unwrap() } else { %s };' % (
            R('a4'), R('a3'), R('a0'), self.rec(1), R('a4'), self.gen('encoding_gen', 'a5.inner', 2, None, 6), R('a4'), self.tgt(2))

    def x_DecodeForeign(self):
        return self.gen('decoding_gen', 'a2.obj', 0, 1, 3)

    def x_DecodeRef(self):
        return 'let %s = %s::decode_X(%s%s)?;' % (R('a1'), H_('a2'), self.tgt(0), self.args(3))

    def dec(self, lab, ty, x):
        if lab == 'Bool':
            return '%s[0] != 0' % x
        return '%s::from_%s_bytes(%s.try_into()?)' % (ty, 'le' if is_le(lab) else 'be', x)

    def x_DecodeRepr(self):
        l = self.L[1]
        d = '⟪%s⟫::from_%s_bytes(s)' % (self.prim('a1', l), 'le' if is_le(l) else 'be')
        return 'let %s = { let s = %s; %s::from_repr(%s)? };' % (R('a2'), self.exact(self.tgt(3), SIZES[l]), H_('a0'), d)

    def x_DecodePrimitive(self):
        l = self.L[2]
        return 'let %s = { let s = %s; %s };' % (R('a1'), self.exact(self.tgt(0), SIZES[l]), self.dec(l, '⟪%s⟫' % self.prim('a2', l), 's'))

    def array(self, out, l, ty, ln, conv, coll):
        size = 'mem::size_of::<%s>()' % ty
        if ln is None:
            b = '{ let mut raw = vec![]; %s.read_to_end(&mut raw)?; raw }' % self.tgt(0)
        else:
            b = '{ let n = %s.checked_mul(%s).ok_or_else(|| x)?; %s }' % (ln, size, self.exact(self.tgt(0), 'n'))
        return 'let %s = { let raw = %s; raw.chunks_exact(%s).map(|x| %s).collect::<%s>()%s };' % (out, b, size, conv, coll, '?' if 'Result' in coll else '')

    def x_DecodePrimitiveArray(self):
        l = self.L[2]
        ty = '⟪%s⟫' % self.prim('a2', l)
        ln = None if self.L[3] == 'None' else R('a3!')
        return self.array(R('a1'), l, ty, ln, self.dec(l, ty, 'x').replace('?', '.unwrap()'), 'Vec<_>')

    def x_DecodeReprArray(self):
        l = self.L[3]
        ty = '⟪%s⟫' % self.prim('a3', l)
        ln = None if self.L[4] == 'None' else R('a4!')
        cv = '%s::from_repr(%s::from_%s_bytes(x.try_into().unwrap()))' % (H_('a2'), ty, 'le' if is_le(l) else 'be')
        return self.array(R('a1'), l, ty, ln, cv, 'Result<Vec<_>>')

    def x_Skip(self):
        return 'let s = %s;' % self.exact(self.tgt(0), R('a1'))

    def x_LoopOutput(self):
        return '%s.push(%s);' % (R('a0'), R('a1'))

    def x_Loop(self):
        if self.r.side == 'e':
            return 'for %s in 0..%s { %s }' % (R('a0'), R('a1'), self.rec(2))
        t = self.tgt(0)
        out = 'let mut %s = Vec::new();' % R('a3')
        if self.L[1] == 'Some':
            return out + 'for _ in 0..%s { %s }' % (R('a1!'), self.rec(4))
        if self.L[2] == 'Some':
            e = R('a2!')
            stop = 'if buf.starts_with(&%s[..]) { %s.consume(%s.len()); break; }' % (e, t, e)
            cut = 'if buf.len() < %s.len() && %s.starts_with(buf) { return Err(x); }' % (e, e)
            # the two cases exclude each other, in either order
            return [out + 'loop { let buf = %s.fill_buf()?; if buf.len() == 0 { break; } %s %s %s }' % (t, x, y, self.rec(4))
                    for x, y in ((cut, stop), (stop, cut))]
        return out + '''{ let mut r = vec![]; %s.read_to_end(&mut r)?; let n = r.len();
            { let mut %s = Cursor::new(r); while %s.position() < n { let s = %s.position(); %s
              if %s.position() == s { return Err(x); } } } }''' % (t, t, t, t, self.rec(4), t)

    def x_Conditional(self):
        if self.r.side == 'e':
            return 'if %s { %s } else { %s }' % (R('a0'), self.rec(1), self.rec(2))
        pat = ', '.join(R('a0[%d]' % i) for i in range(self.n))
        som = ', '.join('Some(%s)' % R('a1[%d]' % i) for i in range(self.n))
        non = ', '.join('None' for i in range(self.n))
        if self.n > 1:
            pat, som, non = '(%s)' % pat, '(%s)' % som, '(%s)' % non
        return 'let %s = if %s { %s; %s } else { %s };' % (pat, R('a2'), self.rec(3), som, non)

    def x_Flatten(self):
        return 'let %s = %s.flatten();' % (R('a0'), R('a0'))

    def x_ConditionalPredicate(self):
        return 'if %s { %s }' % (R('a0'), self.rec(1))

    def x_Return(self):
        return 'return Ok(%s);' % R('a0')

    def x_Error(self):
        return 'return Err(x);'

    # ------------------------------------------------------------- encode
    def x_GetField(self):
        s = R('a1')
        for i in range(self.n):
            l = self.L[2].strip('[]').split(';')[i]
            p = 'a2[%d]@%s.0' % (i, l)
            if l == 'Ref':
                s = '(&%s)' % s
            elif l == 'Name':
                s = '%s.%s' % (s, H_(p))
            elif l == 'ArrayAccess':
                s = '%s[%s as usize]' % (s, R(p))
            else:
                s = '%s.⟪%s⟫' % (s, p)
        return 'let %s = %s;' % (R('a0'), s)

    def x_GetRef(self):
        return 'let %s = %s;' % (R('a0'), R('refs{a1}'))

    def x_SetRef(self):
        return ''

    def x_AllocBuf(self):
        return 'let mut %s = Vec::new();' % R('a0')

    x_AllocDynBuf = x_AllocBuf

    def x_EndStream(self):
        return '%s.flush()?; drop(%s);' % (R('a0'), R('a0'))

    def x_EmitBuf(self):
        return '%s.write_all(&%s[..])?;' % (self.tgt(0), R('a1'))

    def x_EncodeForeign(self):
        return self.gen('encoding_gen', 'a2.obj', 0, 1, 3)

    def x_EncodeRef(self):
        return '%s.encode_X(%s%s)?;' % (R('a1'), self.tgt(0), self.args(2))

    def x_EncodeEnum(self):
        return '%s.write_all(&%s.to_repr().to_%s_bytes())?;' % (self.tgt(0), R('a1'), 'le' if is_le(self.L[2]) else 'be')

    def x_EncodeBitfield(self):
        return '%s.write_all(&%s.0.to_%s_bytes())?;' % (self.tgt(0), R('a1'), 'le' if is_le(self.L[2]) else 'be')

    def enc(self, l, x):
        if l == 'Bool':
            return '&[if %s { 1u8 } else { 0u8 }]' % x
        return '&%s.to_%s_bytes()' % (x, 'le' if is_le(l) else 'be')

    def x_EncodePrimitive(self):
        return '%s.write_all(%s)?;' % (self.tgt(0), self.enc(self.L[2], R('a1')))

    def x_EncodePrimitiveArray(self):
        l = self.L[2]
        d = R('a1')
        g = 'if %s as usize != %s.len() { return Err(x); }' % (R('a3!'), d) if self.L[3] != 'None' else ''
        t = [g + 'for x in %s.iter() { %s.write_all(%s)?; }' % (d, self.tgt(0), self.enc(l, 'x'))]
        if 'U8' in l:
            t.append(g + '%s.write_all(&%s[..])?;' % (self.tgt(0), d))
        return t

    def x_EncodeReprArray(self):
        return self.x_EncodePrimitiveArray()[0]

    def x_Pad(self):
        return 'for _ in 0..%s { %s.write_all(&[0u8])?; }' % (R('a1'), self.tgt(0))

    def x_CheckLen(self):
        return 'if %s as usize != %s.len() { return Err(x); }' % (R('a0'), R('a1'))

    def x_GetLen(self):
        c = '' if self.L[2] == 'None' else 'as ' + self.L[2][5:-1].lower()
        return 'let %s = %s.len() %s;' % (R('a0'), R('a1'), c)

    def x_Drop(self):
        return 'drop(%s);' % R('a0')

    def x_NullCheck(self):
        return 'let %s = if let Some(%s) = %s { %s } else { return Err(x) };' % (R('a1'), R('a1'), R('a0'), R('a1'))

    def x_UnwrapEnum(self):
        return 'let %s = if let %s::%s(%s) = &%s { %s } else { return Err(x) };' % (R('a3'), H_('a0'), H_('a1'), R('a3'), R('a2'), R('a3'))

    def x_UnwrapEnumStruct(self):
        regs = ['a3[%d].1' % i for i in range(self.n)]
        ns = ', '.join('%s: %s' % (H_('a3[%d].0' % i), R(x)) for i, x in enumerate(regs)) + ','
        rs = ', '.join(map(R, regs)) + ','
        return 'let (%s) = if let %s::%s { %s } = &%s { (%s) } else { return Err(x) };' % (rs, H_('a0'), H_('a1'), ns, R('a2'), rs)

    def x_BreakBlock(self):
        return "'bb: loop { %s break 'bb; }" % self.rec(0)

    def x_Break(self):
        return "break 'bb;"


# ------------------------------------------------------------------------------ normal form
REC = re.compile(r'^(?:rec:)?prepare_(decode|encode)\((.*),(a\d+),(?:(\d),)?(\d)\)$')


def norm(e, side, is_async, bad):
    """drop what differs between writings of one behaviour"""
    def name(s):
        m = REC.match(s)
        if m:
            if side == 'd' and m.group(4) != str(is_async):
                bad.append('nested instructions are emitted for the other mode')
            if side == 'e' and not m.group(2).startswith('v0[%d' % is_async) and not m.group(2).startswith('v0[rec:'):
                bad.append('nested instructions are emitted for the other mode')
            if m.group(5) != '0':
                bad.append('nested instructions are emitted as a root')
            return m.group(3)
        m = re.match(r'^(\w+coding_gen\(.*),([01])\)$', s)
        if m:
            if m.group(2) != str(is_async):
                bad.append('built-in code is generated for the other mode')
            return m.group(1) + ')'
        return s

    def go(x):
        if isinstance(x, str):
            return re.sub(r'\s+', '', name(x)).replace(',)', ')').replace(',}', '}').replace('(mut', '(')
        if not isinstance(x, tuple) or not x:
            return x
        k = x[0]
        if k == 'rec':
            return ('rec', name(x[1]).replace('rec:', ''))
        if k == 'fail':
            return ('fail', go(cond(x[1])))
        if k == 'err':
            return ('err',)
        if k == 'panic' and x[1] == 'unwrap':
            return None
        if k in ('alloc', 'pos'):
            return None
        if k == 'at':
            return x
        if k == 'try' and x[1] and x[1][0] == 'await':
            return ('try', go(x[1][1]))
        if k == 'm' and x[1] in ('encode_sync', 'encode_async'):
            if x[1] != ('encode_sync', 'encode_async')[is_async]:
                bad.append('%s is called in %s code' % (x[1], ('synchronous', 'asynchronous')[is_async]))
            x = ('m', 'encode_X') + x[2:]
        if k == 'call' and re.search(r'::decode_(sync|async)$', str(x[1])):
            if not str(x[1]).endswith(('decode_sync', 'decode_async')[is_async]):
                bad.append('%s is called in %s code' % (x[1], ('synchronous', 'asynchronous')[is_async]))
            x = ('call', re.sub(r'decode_a?sync', 'decode_X', x[1])) + x[2:]
        if k == 'as' and x[1] == 'u8' and x[2][0] not in ('n',):
            pass
        if k == 'for' and x[2][0] == 'range' and x[1] == '_' and x[2][1] == ('n', '0') and x[2][2] and x[2][2][0] == 'len':
            arr = x[2][2][1]
            x = ('for', '_', arr, replace(x[3], ('idx', arr, ('each', x[2])), ('each', arr)))
        out = tuple(y for y in (go(z) for z in x) if y is not None or None in x)
        return out

    def cond(c):
        return c
    seq = []
    for x in e:
        y = go(x)
        if y is not None and y != ():
            seq.append(y)
    return tuple(drop_overflow(seq))


def drop_overflow(seq):
    return [x for x in seq if not (x[0] == 'fail' and isinstance(x[1], tuple) and x[1][0] == 'overflow')]


def replace(x, a, b):
    if x == a:
        return b
    if isinstance(x, tuple):
        return tuple(replace(y, a, b) for y in x)
    return x


def unbool(e, is_bool):
    """`x as u8` of a bool is `if x { 1 } else { 0 }`"""
    if not is_bool:
        return e

    def go(x):
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] == 'as' and x[1] == 'u8':
                return ('ite', go(x[2]), ('n', '1'), ('n', '0'))
            if len(x) == 4 and x[0] == 'bin' and x[1] == '<' and x[2] == ('n', '0'):
                return ('bin', '!=', go(x[3]), ('n', '0'))
            if len(x) == 4 and x[0] == 'call' and x[1] == 'u8::from':
                return ('ite', go(x[2]), ('n', '1'), ('n', '0'))
            return tuple(go(y) for y in x)
        return x
    return go(e)


def sized(e, tyname, n):
    """size of the element type as a number"""
    def go(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'sizeof' and x[1] == tyname:
                return ('n', str(n))
            return tuple(go(y) for y in x)
        return x
    return go(e)


_cache = {}
VOID = {}


def empties(st):
    """nested instruction lists that are known to be empty on this path"""
    out = set()
    for k, f in st.facts.items():
        if isinstance(k, tuple) and k[:2] == ('op', 'len') and f == (True, frozenset([0])):
            s = name_of(k[2])
            m = REC.match(s)
            if m:
                out.add(m.group(3))
            elif re.match(r'a\d+$', s):
                out.add(s)
    return out


def without(x, names):
    if isinstance(x, tuple):
        return tuple(without(y, names) for y in x if not (isinstance(y, tuple) and len(y) == 2 and y[0] == 'rec' and y[1] in names))
    return x




def trees(c, side, is_async, n):
    """[(conc, effects or RErr text)] for every shape"""
    key = (id(c.mir), side, is_async, n)
    if key not in _cache:
        I_, rs = concrete(c, side, is_async, n, skip=() if n < 3 else ('GetField', 'UnwrapEnumStruct'))
        out = []
        for r in rs:
            es, void = [], []
            for s, v in r.outs:
                try:
                    st, holes = parse_stmts(v[1] if v[0] == 'T' else [('1', ('tt', v))])
                    es.append(W.effects(st, is_async))
                except RErr as ex:
                    es.append('unparsed: %s' % ex)
                void.append(empties(s))
            out.append((r, es))
            VOID[id(r)] = void
        _cache[key] = (I_, out)
    return _cache[key]


def prim_names(I_):
    """token-hole name of each primitive type value"""
    t = {}
    m = I_.m
    for suffix in ('coder::PrimitiveType', 'EndianScalarType', 'ScalarType'):
        for d, ty in ((d, m.adt(d)) for d in (suffix,)):
            for l, v in shapes(I_, ty, '?', 0):
                t.setdefault(name_of(v), set()).add(l)
    by = {}
    for nm, ls in t.items():
        for l in ls:
            by[l] = nm
    return by


SCALARS = ['U8', 'I8', 'U16', 'I16', 'U32', 'I32', 'U64', 'I64', 'U128', 'I128']


def compare(c, props_variants, modes=((0,), (1,)), sizes=None):
    """compare the trees of these variants with the reference"""
    sizes = sizes or ((1, 2, 3) if c.tier == 'thorough' else (1, 2))
    for side, variants in props_variants.items():
        for (is_async,) in modes:
            for n in sizes:
                I_, ts = trees(c, side, is_async, n)
                names = prim_names(I_)
                for r, es in ts:
                    if r.variant not in variants:
                        continue
                    if n == 1 and r.variant == 'Construct' and r.labels[1] == 'Tuple':
                        continue
                    one(c, r, es, names, side, is_async, n)


def one(c, r, es, names, side, is_async, n):
    key = 'template:%s:%s' % ({'d': 'decode', 'e': 'encode'}[side], r.variant)
    shape = '%s(%s)%s' % (r.variant, ', '.join(l or '_' for l in r.labels), ' async' if is_async else '')
    isb = 'Bool' in r.labels or 'Scalar(Bool)' in r.labels
    if ('Repr' in r.variant) and any(l in ('Bool', 'F32', 'F64') for l in r.labels):
        return
    if r.variant == 'Loop' and side == 'd' and (r.labels[1] == 'Some' and r.labels[2] == 'Some' or r.labels[0] == 'Buf'):
        return

    def prim(a, l):
        if l in names:
            return names[l]
        return '{%s}' % l
    if r.variant == 'GetLen' and r.labels[2] != 'None':
        prim = lambda a, l: '{%s}' % names[l]
    ref = Ref(r, prim)
    try:
        want = ref.texts()
    except (AttributeError, KeyError) as ex:
        c.undecided(shape, 'no reference: %s' % ex)
        return
    want = [want] if isinstance(want, str) else want
    wants, ignore = [], []
    lab = next((l for l in r.labels if l in SIZES), None)
    tyname = names.get(lab)
    for w in want:
        b = []
        t = norm(W.effects(parse_text(w)), side, is_async, ignore)
        wants.append(unbool(sized(t, tyname, SIZES.get(lab, 0)), isb))
    if not es:
        c.violation(key, 'nothing is emitted for %s' % shape)
    for e, void in zip(es, VOID[id(r)]):
        if isinstance(e, str):
            c.undecided(shape, e)
            continue
        if any(x[0] == 'unknown' for x in W.walk(e)):
            c.undecided(shape, [x for x in W.walk(e) if x[0] == 'unknown'][:1])
            continue
        bad = []
        got = unbool(sized(norm(e, side, is_async, bad), tyname, SIZES.get(lab, 0)), isb)
        got = tuple(x for x in got if x[0] not in ('lost', 'noawait', 'partial'))
        if void:
            got, wants_ = without(got, void), [without(w, void) for w in wants]
        else:
            wants_ = wants
        c.check('template shapes compared', got in wants_ and not bad, key,
                'the emitted code of %s %s' % (shape, bad[0] if bad and got in wants_ else
                'does %s instead of %s' % (diff(got, wants_[0]))))
        c.sample('%s => %s' % (shape, W.fmt(got)))


def diff(a, b):
    for x, y in zip(a, b):
        if x != y:
            if x[0] == y[0] and isinstance(x[-1], tuple) and x[:-1] == y[:-1] and x[0] in ('for', 'while', 'loop'):
                return diff(x[-1], y[-1])
            return W.fmt(x)[:160], W.fmt(y)[:160]
    return (W.fmt(a[len(b):])[:160] or 'nothing'), (W.fmt(b[len(a):])[:160] or 'nothing')
