"""Effect trees of emitted coder code.

The emitted text (a syntax tree of rustmini) is evaluated symbolically into a list of effects on
streams, buffers, registers and control flow.  Local names are inlined, borrows, grouping and
width-preserving casts erased, so that different spellings of one behaviour give one tree.  Anything
outside the known constructs becomes an ('unknown', …) effect; rules treat it as undecided.

terms    ('v', name)  ('n', text)  ('lit', text)  ('bytes', k)  ('buf', k, size)
         ('dec', end, ty, t)  ('enc', end, t)  ('len', t)  ('slice', t, lo, hi)  ('idx', t, i)
         ('fld', t, n)  ('bin', op, a, b)  ('un', op, a)  ('as', ty, t)  ('call', f, args)
         ('m', name, t, args)  ('ite', c, a, b)  ('some', t)  ('tup', …)  ('struct', n, …)
         ('map', bytes, size, term)  ('take', s, n)  ('cursor', t)
effects  ('read', s, n, k)     exactly n bytes or error      ('readall', s, k)  to the end
         ('write', s, t)  ('flush', s)  ('peek', s, k)  ('consume', s, n)  ('drop', t)
         ('fail', c)  ('ret', t)  ('bind', name, t)  ('set', place, t)  ('push', t, x)
         ('if', c, [..], [..])  ('for', var, t, [..])  ('while', c, [..])  ('loop', label, [..])
         ('break', label)  ('rec', name)  ('gen', name)  ('do', t)  ('panic', what, t)
         ('lost', effect)      a fallible operation whose failure is not returned
         ('noawait', effect)   an asynchronous operation that is never awaited
"""
import re

from .rustmini import strip, RErr

ERASE = {'clone', 'into', 'to_owned', 'as_slice', 'as_ref', 'as_mut', 'as_mut_slice', 'by_ref', 'iter', 'into_iter', 'copied', 'cloned', 'borrow', 'as_bytes', 'borrow_mut', 'iter_mut'}
IO = {'read_exact', 'read_to_end', 'write_all', 'flush', 'fill_buf', 'shutdown', 'write', 'read', 'read_buf', 'read_to_string', 'seek',
      'write_u8', 'read_u8', 'skip_until', 'read_until'}
NARROW = {'u8', 'i8', 'u16', 'i16', 'u32', 'i32', 'i64', 'i128', 'f32', 'f64', 'bool'}


class Sem:
    def __init__(self, is_async=False):
        self.env = {}
        self.eff = []
        self.k = 0
        self.io = {}
        self.is_async = is_async
        self.notes = []
        self.types = {}

    # ---------------------------------------------------------- plumbing
    def emit(self, *e):
        self.eff.append(e)

    def scope(self, f):
        saved, old = self.eff, dict(self.env)
        self.eff = []
        v = f()
        out = self.eff
        self.eff = saved
        for n in list(self.env):
            if n in old and self.env[n] != old[n] and n not in self.assigned:
                self.env[n] = old[n]
            elif n not in old:
                del self.env[n]
        return out, v

    assigned = ()

    def fresh(self):
        self.k += 1
        return self.k

    def note(self, *n):
        self.emit('unknown', *n)

    # -------------------------------------------------------- statements
    def block(self, stmts):
        val = None
        for i, s in enumerate(stmts):
            val = None
            if s[0] == 'let':
                self.let(s)
            elif s[0] in ('semi', 'expr'):
                v = self.ev(s[1])
                if s[0] == 'semi' or i + 1 < len(stmts):
                    self.done(v)
                else:
                    val = v
            elif s[0] == 'use':
                pass
            elif s[0] == 'recmark':
                self.emit('rec', s[1])
            elif s[0] == 'star':
                self.star(s)
            else:
                self.note('statement', s[0])
        return val

    def star(self, s):
        alts = []
        for g, x in s[2]:
            b, v = self.scope(lambda: self.block(x))
            alts.append((g, b))
        self.emit('many', s[1], alts)

    def done(self, v):
        """an expression statement whose value is dropped"""
        if v is None:
            return
        if v[0] == 'io':
            self.settle(v, 'lost')
        elif v[0] == 'hole':
            self.emit('gen', v[1])
        elif v[0] in ('call', 'm', 'callv'):
            self.emit('do', v)
        elif v[0] == 'try':
            self.emit('do', v)

    def settle(self, v, how):
        i = v[1]
        op = self.io.get(i)
        if op is None:
            return
        if how == 'lost':
            self.emit('lost', op['name'], op['on'])
        if how == 'panic':
            self.emit('panic', 'unwrap', ('io', op['name'], op['on']))
        if self.is_async and not op['await'] and not op.get('sync'):
            self.emit('noawait', op['name'], op['on'])
        op['settled'] = True

    def let(self, s):
        _, pat, ty, e = s
        pat = pat.strip()
        if pat.startswith('mut '):
            pat = pat[4:]
        if e is None:
            self.env[pat] = ('undef', pat)
            if ty:
                self.types[pat] = ty
            return
        v = self.ev(e)
        if v is None:
            v = ('unit',)
        if v[0] == 'io':
            self.settle(v, 'lost' if pat == '_' else 'lost')
            v = v[2]
        if pat == '_':
            if v[0] in ('hole', 'call', 'm', 'try'):
                self.done(v)
            return
        if ty:
            self.types[pat] = ty
        m = re.match(r'^\[\s*([\w\s,]+?),?\s*\]$', pat)
        if m:
            for i, n in enumerate(m.group(1).split(',')):
                self.env[n.strip()] = ('idx', v, ('n', str(i)))
            return
        if '{' in pat or pat.startswith('('):
            if v == ('v', pat):
                return
            if v[0] == 'hole':
                self.emit('bind', pat, ('gen', v[1]))
            else:
                self.emit('bind', pat, v)
            self.env.pop(pat, None)
            return
        self.env[pat] = v

    # ------------------------------------------------------- expressions
    def ev(self, e):
        f = getattr(self, 'e_' + e[0], None)
        if f is None:
            self.note('expression', e[0])
            return ('?', e[0])
        return f(e)

    def val(self, e):
        """a value that is used: an unsettled io result used as a plain value"""
        v = self.ev(e)
        if v is None:
            return ('unit',)
        return v

    def e_paren(self, e):
        return self.ev(e[1])

    def e_lit(self, e):
        t = e[1]
        for sfx in ('usize', 'u64', 'u32', 'u16', 'u8', 'i64', 'i32', 'i16', 'i8', 'u128', 'i128'):
            if t.endswith(sfx) and t[:1].isdigit():
                t = t[:-len(sfx)]
                break
        t = t.rstrip('_') if t[:1].isdigit() else t
        return ('n', t) if t[:1].isdigit() else ('lit', t)

    def e_num(self, e):
        x = e[2]
        return ('n', str(x[1])) if isinstance(x, tuple) and x[0] in ('i', 'I') else ('n', e[1])

    def e_hole(self, e):
        if e[1].startswith('rec:'):
            self.emit('rec', e[1][4:])
            return None
        return ('hole', e[1])

    def e_recmark(self, e):
        return ('recv', e[1])

    def e_path(self, e):
        n = e[1]
        if n in self.env:
            return self.env[n]
        if n == 'None':
            return ('none',)
        return ('v', n)

    def e_ref(self, e):
        return self.ev(e[2])

    def e_un(self, e):
        v = self.val(e[2])
        if e[1] == '*':
            return v
        return ('un', e[1], v)

    def e_as(self, e):
        v = self.val(e[1])
        t = e[2].replace(' ', '')
        if t in ('usize', 'u64') or t.startswith('&mutdyn') or 'dyn' in t:
            return v
        if v[0] == 'n':
            return v
        return ('as', t, v)

    def e_bin(self, e):
        a, b = self.val(e[2]), self.val(e[3])
        op = e[1]
        if op in ('>', '>='):
            a, b, op = b, a, {'>': '<', '>=': '<='}[op]
        if op in ('==', '!=') and repr(b) < repr(a):
            a, b = b, a
        if op in ('==', '!=') and a[0] == 'n' and b[0] != 'n':
            a, b = b, a
        return ('bin', op, a, b)

    def e_tuple(self, e):
        return ('tup',) + tuple(self.item(x) for x in e[1])

    def item(self, x):
        if x[0] == 'star':
            return ('many', x[1], tuple((g, tuple(self.item(y) for y in ys)) for g, ys in x[2]))
        if x[0] == 'fld':
            return ('fld', x[1], self.val(x[2]))
        if x[0] == 'recmark':
            return ('recv', x[1])
        if x[0] == 'rest':
            return ('rest',)
        return self.val(x)

    def e_star(self, e):
        return self.item(e)

    def e_array(self, e):
        return ('arr',) + tuple(self.item(x) for x in e[1])

    def e_repeat(self, e):
        n = self.val(e[2])
        x = self.val(e[1])
        return ('buf', self.fresh(), n) if x == ('n', '0') else ('rep', x, n)

    def e_struct(self, e):
        return ('struct', e[1]) + tuple(self.item(x) for x in e[2])

    def e_range(self, e):
        return ('range', self.val(e[1]) if e[1] else None, self.val(e[2]) if e[2] else None)

    def e_block(self, e):
        old = set(self.env)
        keep = dict(self.env)
        v = self.block(e[1])
        for n in list(self.env):
            if n not in old:
                del self.env[n]
        for n, x in keep.items():
            if n in self.shadow(e[1]):
                self.env[n] = x
        return v

    def shadow(self, stmts):
        return {s[1].replace('mut ', '').strip() for s in stmts if s[0] == 'let'}

    def e_unsafe(self, e):
        self.emit('unsafe')
        return self.e_block(e)

    def e_prefix(self, e):
        return self.ev(e[2])

    def e_index(self, e):
        a = self.val(e[1])
        i = self.val(e[2])
        if i[0] == 'range':
            lo, hi = i[1], i[2]
            if lo in (None, ('n', '0')) and hi is None:
                return a
            if lo in (None, ('n', '0')) and a[0] == 'buf' and hi == a[2]:
                return a
            return ('slice', a, lo or ('n', '0'), hi)
        return ('idx', a, i)

    def e_field(self, e):
        n = e[2]
        if n.startswith('{') and n.endswith('@TupleAccess.0}'):
            n = n[1:-1]     # the number of a component, written out
        return ('fld', self.val(e[1]), n)

    def e_try(self, e):
        v = self.ev(e[1])
        if v is None:
            return None
        if v[0] == 'io':
            self.settle(v, 'try')
            return v[2]
        if v[0] == 'okor':
            self.emit('fail', v[2])
            return v[1]
        if v[0] == 'conv':
            return v[1]
        return ('try', v)

    def e_await(self, e):
        v = self.ev(e[1])
        if v and v[0] == 'io':
            self.io[v[1]]['await'] = True
            return v
        if v and v[0] in ('call', 'm'):
            return ('await', v)
        return ('await', v)

    def io_op(self, name, on, value):
        i = self.fresh()
        self.io[i] = {'name': name, 'on': on, 'await': False}
        return ('io', i, value)

    def place(self, e):
        while e[0] in ('ref', 'paren', 'un'):
            e = e[2] if e[0] != 'paren' else e[1]
        if e[0] == 'index' and e[2][0] == 'range' and e[2][1] is None:
            if e[2][2] is None:
                return self.place(e[1])
        if e[0] == 'path':
            return e[1]
        if e[0] == 'mcall' and e[2] in ERASE:
            return self.place(e[1])
        if e[0] == 'index':
            return self.place(e[1])
        return None

    def e_mcall(self, e):
        _, r, name, args, tf = e
        if name in ERASE:
            return self.ev(r)
        if name in IO:
            return self.stream(r, name, args)
        if name == 'len' and not args:
            v = self.val(r)
            if v[0] == 'buf':
                return v[2]
            return ('len', v)
        if name == 'is_empty' and not args:
            return ('bin', '==', ('len', self.val(r)), ('n', '0'))
        if name == 'take' and len(args) == 1:
            return ('take', self.val(r), self.val(args[0]))
        if name == 'consume' and len(args) == 1:
            self.emit('consume', self.val(r), self.val(args[0]))
            return None
        if name in ('unwrap', 'expect'):
            v = self.ev(r)
            if v and v[0] == 'io':
                self.settle(v, 'panic')
                return v[2]
            if v and v[0] == 'conv':
                if v[2] and v[2][0] == 'chunk':
                    return v[1]
                self.emit('panic', name, v[1])
                return v[1]
            if v and v[0] == 'some':
                return v[1]
            self.emit('panic', name, v)
            return ('m', name, v)
        if name in ('ok', 'unwrap_or', 'unwrap_or_default', 'unwrap_or_else', 'is_ok', 'is_err', 'or_else'):
            v = self.ev(r)
            if v and v[0] == 'io':
                self.settle(v, 'lost')
                return ('m', name, v[2])
            return ('m', name, v) + tuple(self.val(a) for a in args)
        if name in ('map_err',):
            return self.ev(r)
        if name in ('ok_or_else', 'ok_or'):
            v = self.val(r)
            if v[0] == 'm' and v[1].startswith('checked_'):
                op = {'checked_mul': '*', 'checked_add': '+', 'checked_sub': '-', 'checked_div': '/'}.get(v[1])
                if op:
                    return ('okor', ('bin', op, v[2], v[3]), ('overflow', op, v[2], v[3]))
            return ('okor', ('m', 'some', v), ('isnone', v))
        if name == 'try_into' and not args:
            v = self.val(r)
            return ('conv', v, v)
        if name in ('chunks_exact', 'chunks') and len(args) == 1:
            return ('chunks', self.val(r), self.val(args[0]), name)
        if name == 'map' and len(args) == 1 and args[0][0] == 'closure':
            v = self.val(r)
            p = args[0][1].strip()
            saved = dict(self.env)
            if v[0] == 'chunks':
                self.env[p] = ('chunk', v[2])
            else:
                self.env[p] = ('each', v)
            saved_eff, self.eff = self.eff, []
            b = self.val(args[0][2])
            inner, self.eff = self.eff, saved_eff
            self.env = saved
            if inner:
                self.emit('mapped', tuple(inner))
            return ('map', v, b)
        if name == 'collect' and not args:
            v = self.val(r)
            t = tf.replace(' ', '')
            if v[0] == 'map' and 'Result' in t:
                return ('conv', v, None)
            return v
        if name in ('to_le_bytes', 'to_be_bytes', 'to_ne_bytes'):
            return ('enc', name[3:5], self.val(r))
        if name == 'push' and len(args) == 1:
            t = self.place(r)
            v = self.val(args[0])
            self.emit('push', self.env.get(t, ('v', t)) if t else self.val(r), v)
            return None
        if name in ('extend_from_slice', 'extend') and len(args) == 1:
            self.emit('write', self.val(r), self.val(args[0]))
            return None
        if name == 'position' and not args:
            v, k = self.val(r), self.fresh()
            self.emit('pos', v, k)
            return ('at', k)
        rv = self.val(r)
        return ('m', name, rv) + tuple(self.item(a) for a in args)

    def stream(self, r, name, args):
        s = self.val(r)
        if name == 'read_exact' and len(args) == 1:
            pl = self.place(args[0])
            b = self.val(args[0])
            k = self.fresh()
            n = None
            if b[0] == 'buf':
                n = b[2]
            elif b[0] == 'slice' and b[1][0] == 'buf':
                n = b[3] if b[2] == ('n', '0') else ('bin', '-', b[3], b[2])
            if n is None or pl is None:
                self.note('read into', b)
                n = ('?',)
            self.emit('read', s, n, k)
            if pl:
                self.env[pl] = ('bytes', k)
            return self.io_op(name, s, ('unit',))
        if name == 'read_to_end' and len(args) == 1:
            pl = self.place(args[0])
            b = self.val(args[0])
            k = self.fresh()
            if s[0] == 'take':
                self.emit('readupto', s[1], s[2], k)
            else:
                self.emit('readall', s, k)
            if pl:
                old = self.env.get(pl)
                self.env[pl] = ('bytes', k)
                if old != ('empty',):
                    self.note('read_to_end into', old)
            return self.io_op(name, s, ('len', ('bytes', k)))
        if name == 'write_all' and len(args) == 1:
            self.emit('write', s, self.val(args[0]))
            return self.io_op(name, s, ('unit',))
        if name == 'write_u8' and len(args) == 1:
            self.emit('write', s, ('arr', self.val(args[0])))
            return self.io_op(name, s, ('unit',))
        if name == 'flush':
            self.emit('flush', s)
            return self.io_op(name, s, ('unit',))
        if name == 'shutdown':
            self.emit('flush', s)
            return self.io_op(name, s, ('unit',))
        if name == 'fill_buf':
            k = self.fresh()
            self.emit('peek', s, k)
            return self.io_op(name, s, ('bytes', k))
        self.emit('partial', name, s)
        return self.io_op(name, s, ('unit',))

    def e_call(self, e):
        f, args = e[1], e[2]
        if f[0] == 'recmark' or f[0] == 'hole' and f[1].startswith('rec:'):
            # `rec (…)`: statements followed by a tuple
            self.emit('rec', f[1] if f[0] == 'recmark' else f[1][4:])
            return ('tup',) + tuple(self.item(x) for x in args)
        if f[0] != 'path':
            return ('callv', self.val(f)) + tuple(self.item(x) for x in args)
        p = f[1].replace(' ', '')
        last = p.split('::')[-1]
        if p.endswith('BufReader::with_capacity') and len(args) == 2 and self.val(args[0]) == ('n', '1'):
            return self.val(args[1])    # reads what is read through it and nothing ahead
        if p.startswith('mem::size_of::<') or p.startswith('std::mem::size_of::<'):
            return ('sizeof', p.split('<', 1)[1].rstrip('>').strip('⟨⟩'))
        if last in ('from_le_bytes', 'from_be_bytes', 'from_ne_bytes'):
            a = self.val(args[0])
            if a[0] == 'conv':
                a = a[1]
            return ('dec', last[5:7], p.rsplit('::', 1)[0].strip('⟨⟩'), a)
        if last == 'from_repr':
            return ('fromrepr', p.rsplit('::', 1)[0].strip('⟨⟩'), self.val(args[0]))
        if p == 'Some':
            return ('some', self.item(args[0]))
        if p in ('Ok', 'Err') and len(args) == 1:
            return (p.lower(), self.val(args[0]))
        if p in ('Vec::new', 'Vec::<u8>::new', 'Vec::default', 'Default::default', 'BytesMut::new', 'vec::Vec::new') and not args:
            return ('empty',)
        if last == 'with_capacity' and p.startswith('Vec'):
            c = self.val(args[0])
            if c[0] != 'n':
                self.emit('alloc', c)
            return ('empty',)
        if p == 'drop' and len(args) == 1:
            v = self.val(args[0])
            self.emit('drop', v)
            return None
        if last == 'new' and p.split('::')[-2:-1] == ['Cursor'] and len(args) == 1:
            return ('cursor', self.val(args[0]))
        return ('call', p) + tuple(self.item(x) for x in args)

    def e_macro(self, e):
        n = e[1]
        if n in ('vec', 'std::vec'):
            if not e[3]:
                return ('empty',)
            if e[3][0][0] == 'repeat':
                self.val(e[3][0][2])
                n = self.val(e[3][0][2])
                if n[0] != 'n':
                    self.emit('alloc', n)
                x = self.val(e[3][0][1])
                return ('buf', self.fresh(), n) if x == ('n', '0') else ('rep', x, n)
            return ('arr',) + tuple(self.item(x) for x in e[3])
        if n in ('panic', 'unreachable', 'todo', 'unimplemented', 'assert', 'assert_eq', 'assert_ne', 'debug_assert'):
            self.emit('panic', n, None)
            return None
        return ('macro', n) + tuple(self.item(x) if x[0] != 'raw' else x for x in e[3])

    def e_assign(self, e):
        pl = self.place(e[2])
        v = self.val(e[3])
        if e[1] != '=':
            v = ('bin', e[1][:-1], self.val(e[2]), v)
        if pl and e[2][0] == 'path' and '{' not in pl and pl in self.env:
            if v[0] == 'hole':
                v = ('gen', v[1])
            if self.env[pl][0] == 'undef':
                self.env[pl] = v
            self.emit('set', pl, v)
            return None
        if v[0] == 'hole':
            v = ('gen', v[1])
        self.emit('set', pl or self.val(e[2]), v)
        return None

    def cond(self, c):
        if c[0] == 'let':
            v = self.val(c[2])
            m = ONE.match(c[1].strip())
            if m:
                return ('is', m.group(1) + '(_)', v), {m.group(2): ('sub', v, m.group(1))}
            return ('is', c[1], v), {}
        return canon(self.val(c)), {}

    def branch(self, stmts, binds=()):
        saved = dict(self.env)
        if binds:
            self.env.update(binds)
        seff, self.eff = self.eff, []
        v = self.block(stmts)
        out, self.eff = self.eff, seff
        env = self.env
        self.env = saved
        return out, v, env

    def e_if(self, e):
        c, binds = self.cond(e[1])
        a, va, ea = self.branch(e[2], binds)
        b, vb, eb = self.branch(e[3]) if e[3] is not None else ([], None, self.env)
        if c[0] == 'un' and c[1] == '!' or c[0] == 'bin' and c[1] == '!=':
            c, a, va, b, vb = neg(c), b, vb, a, va
        if va is not None and va[0] == 'io' or vb is not None and vb[0] == 'io':
            for v, l in ((va, a), (vb, b)):
                if v is not None and v[0] == 'io':
                    seff, self.eff = self.eff, l
                    self.settle(v, 'lost')
                    self.eff = seff
        # a branch that only fails or returns is a guard on what follows
        if a and a[-1][0] == 'err' and len(a) == 1 and not b:
            self.emit('fail', c, a[0][1])
            return vb
        if b and b[-1][0] == 'err' and len(b) == 1 and not a:
            self.emit('fail', neg(c), b[0][1])
            return va
        # a branch that leaves needs no other branch beside it
        if vb is None and va is None and a and b:
            if leaves(a):
                self.emit('if', c, tuple(a), ())
                self.eff.extend(b)
                return None
            if leaves(b):
                self.emit('if', neg(c), tuple(b), ())
                self.eff.extend(a)
                return None
        if not a and b and va is None and vb is None:
            c, a, b = neg(c), b, a
        if not a and not b and va is None and vb is None:
            return None
        if not a and not b:
            return ('ite', c, va, vb)
        self.emit('if', c, tuple(a) + ((('val', va),) if va is not None else ()), tuple(b) + ((('val', vb),) if vb is not None else ()))
        if va is None and vb is None:
            return None
        return ('phi', c, va, vb)

    def e_return(self, e):
        v = self.val(e[2]) if e[2] else ('unit',)
        if v[0] == 'err':
            self.emit('err', v[1])
        elif v[0] == 'ok':
            self.emit('ret', v[1])
        elif v[0] == 'io':
            self.settle(v, 'try')
            self.emit('retio', v[2])
        else:
            self.emit('retv', v)
        return None

    def e_break(self, e):
        self.emit('break', e[1])
        return None

    def e_continue(self, e):
        self.emit('continue', e[1])
        return None

    def loop_body(self, stmts):
        # locals assigned in a loop are not constants: rename reads afterwards by marking
        out, v, env = self.branch(stmts)
        if v is not None:
            seff, self.eff = self.eff, out
            self.done(v)
            self.eff = seff
        return tuple(out)

    def e_loop(self, e):
        self.vary(e[1])
        self.emit('loop', None, self.loop_body(e[1]))
        return None

    def vary(self, *parts):
        """variables that a loop assigns have an unknown value in it"""
        names = set()

        def go(x):
            if isinstance(x, (tuple, list)):
                if isinstance(x, tuple) and len(x) == 4 and x[0] == 'assign' and isinstance(x[2], tuple) and x[2][0] == 'path':
                    n = self.place(x[2])
                    if n and '{' not in n and n in self.env:
                        names.add(n)
                for y in x:
                    go(y)
        go(parts)
        for n in sorted(names):
            self.emit('init', n, self.env[n])
            self.env[n] = ('v', 'var:' + n)

    def e_label(self, e):
        if e[2][0] == 'loop':
            self.vary(e[2][1])
            self.emit('loop', e[1], self.loop_body(e[2][1]))
            return None
        self.emit('label', e[1])
        return self.ev(e[2])

    def e_while(self, e):
        self.vary(e[1], e[2])
        saved, self.eff = self.eff, []
        c, _ = self.cond(e[1])
        pre, self.eff = self.eff, saved
        self.emit('while', c, tuple(pre) + self.loop_body(e[2]))
        return None

    def e_for(self, e):
        it = self.val(e[2])
        self.vary(e[3])
        pat = e[1].strip().lstrip('&').strip()
        saved = dict(self.env)
        self.env[pat] = ('each', it) if '{' not in pat else ('v', pat)
        if pat == '_':
            self.env.pop('_')
        b = self.loop_body(e[3])
        self.env = saved
        if it[0] == 'range' and it[1] is not None:
            it = ('range', it[1], it[2])
        self.emit('for', pat if '{' in pat else '_', it, b)
        return None

    def two_arms(self, e):
        """`match x { Some(y) => a, None => b }` is an `if let`"""
        if len(e[2]) == 2 and all(a[0] == 'arm' for a in e[2]):
            x, y = e[2]
            if x[1].strip() in ('None', '_'):
                x, y = (y, x) if x[1].strip() == 'None' else (x, y)
            if y[1].strip() in ('None', '_') and ONE.match(x[1].strip()):
                body = [a[2][1] if a[2][0] == 'block' else [('expr', a[2])] for a in (x, y)]
                return self.e_if(('if', ('let', x[1], e[1]), body[0], body[1]))
        return False

    def e_match(self, e):
        seff, self.eff = self.eff, []
        v = self.ev(e[1])
        pre, self.eff = self.eff, seff
        if not (v is not None and v[0] == 'io'):
            if not pre:
                r = self.two_arms(e)
                if r is not False:
                    return r
        self.eff.extend(pre)
        arms = {}
        for a in e[2]:
            if a[0] == 'arm':
                arms[a[1].replace(' ', '')] = a[2]
        if v and v[0] == 'io':
            # Ok(x) => x, Err(e) => return Err(e.into())
            oks = [k for k in arms if k.startswith('Ok(')]
            ers = [k for k in arms if k.startswith('Err(')]
            if len(arms) == 2 and oks and ers:
                out, ve, _ = self.branch([('expr', arms[ers[0]])])
                if out and out[-1][0] in ('err', 'fail'):
                    self.settle(v, 'try')
                    n = oks[0][3:-1]
                    saved = self.env.get(n)
                    self.env[n] = v[2]
                    r = self.ev(arms[oks[0]])
                    return r
            self.settle(v, 'lost')
        branches = []
        for a in e[2]:
            if a[0] == 'arm':
                out, va, _ = self.branch([('expr', a[2])])
                branches.append((a[1], tuple(out), va))
            else:
                self.note('match arm', a[0])
        if all(not o for _, o, _ in branches):
            return ('match', v) + tuple((p, va) for p, _, va in branches)
        self.emit('match', v, tuple(branches))
        return ('matchv', v)

    def e_closure(self, e):
        saved = self.eff
        self.eff = []
        b = self.ev(e[2])
        self.eff = saved
        return ('closure', e[1], b)


ONE = re.compile(r'^(.+?)\(\s*(?:ref |mut |& ?)*([^(),]+?),?\s*\)$', re.S)


def leaves(a):
    return bool(a) and a[-1][0] in ('break', 'continue', 'err', 'ret', 'retio', 'retv')


def canon(c):
    """one writing of a condition: `<`, `==`, `!=` and their negations, operands in a fixed order"""
    if c[0] == 'bin':
        op, x, y = c[1], c[2], c[3]
        if op in ('&&', '||'):
            x, y = canon(x), canon(y)
            return ('bin', op) + tuple(sorted((x, y), key=repr))
        if op == '>':
            return canon(('bin', '<', y, x))
        if op == '>=':
            return neg(canon(('bin', '<', x, y)))
        if op == '<=':
            return neg(canon(('bin', '<', y, x)))
        if op == '<' and x == ('n', '0') and y[0] == 'len':
            return ('bin', '!=', x, y)
        if op in ('==', '!='):
            return ('bin', op) + tuple(sorted((x, y), key=repr))
    if c[0] == 'un' and c[1] == '!':
        return neg(canon(c[2]))
    return c


def neg(c):
    if c[0] == 'un' and c[1] == '!':
        return c[2]
    if c[0] == 'bin' and c[1] in ('==', '!='):
        return ('bin', '!=' if c[1] == '==' else '==', c[2], c[3])
    return ('un', '!', c)


def tidy(effs):
    """read up to n bytes, fail unless n came  =>  exact read"""
    out = []
    i = 0
    effs = list(effs)
    while i < len(effs):
        e = effs[i]
        if e[0] == 'readupto':
            want = None
            for j in range(i + 1, min(i + 4, len(effs))):
                f = effs[j]
                if f[0] == 'fail' and f[1][0] == 'bin' and f[1][1] in ('!=', '<'):
                    p = {f[1][2], f[1][3]}
                    if p == {('len', ('bytes', e[3])), e[2]} or (f[1][1] == '<' and f[1][2] == ('len', ('bytes', e[3])) and f[1][3] == e[2]):
                        want = j
                        break
            if want is not None:
                out.append(('read', e[1], e[2], e[3]))
                del effs[want]
                i += 1
                continue
        if e[0] in ('for', 'while', 'loop'):
            e = shape_loop(e[:-1] + (tuple(tidy(e[-1])),), out)
        elif e[0] == 'if':
            e = ('if', e[1], tuple(tidy(e[2])), tuple(tidy(e[3])))
        out.append(e)
        i += 1
    return out


def subst(x, m):
    if x in m if isinstance(x, tuple) else False:
        return m[x]
    if isinstance(x, tuple):
        return tuple(subst(y, m) for y in x)
    return x


def shape_loop(e, before):
    """one writing of a loop: `loop { if c { break } .. }` is a `while`, a counted `while` is a `for`;
    a position asked for twice with nothing in between is asked for once"""
    body = list(e[-1])
    if e[0] == 'loop':
        for i, x in enumerate(body):
            if x[0] == 'pos':
                continue
            if x[0] == 'if' and x[2] in ((('break', None),), (('break', e[1]),)) and not x[3]:
                e = ('while', neg(x[1]), None)
                del body[i]
            break
    if e[0] == 'while':
        m, last = {}, {}
        new = []
        for x in body:
            x = subst(x, m)
            if x[0] == 'pos':
                if x[1] in last:
                    m[('at', x[2])] = ('at', last[x[1]])
                    continue
                last[x[1]] = x[2]
            elif x[0] not in ('fail', 'bind'):
                last = {}
            new.append(x)
        body = new
        e = ('while', subst(e[1], m), None)
        c = e[1]
        if c[0] == 'bin' and c[1] == '<' and c[2][0] == 'v' and c[2][1].startswith('var:') and body:
            n = c[2][1][4:]
            step = ('set', n, ('bin', '+', c[2], ('n', '1')))
            init = next((x for x in reversed(before) if x[0] == 'init' and x[1] == n), None)
            sets = [y for y in walk(body) if y[0] in ('set', 'init') and y[1] == n]
            if init and body[-1] == step and len(sets) == 1 and not any(y[0] == 'continue' for y in walk(body)) and 'var:' not in repr(c[3]):
                before.remove(init)
                rg = ('range', init[2], c[3])
                return ('for', '_', rg, subst(tuple(body[:-1]), {c[2]: ('each', rg)}))
    return e[:-1] + (tuple(body),)


def renumber(x, m=None):
    """canonical numbering of byte ids and buffers in order of appearance"""
    m = {} if m is None else m

    def go(y):
        if isinstance(y, tuple):
            if len(y) == 2 and y[0] == 'bytes':
                return ('bytes', m.setdefault(y[1], len(m) + 1))
            if y and y[0] == 'buf' and len(y) == 3:
                return ('zeros', go(y[2]))
            if y and y[0] in ('read', 'readupto') and len(y) == 4:
                return (y[0], go(y[1]), go(y[2]), m.setdefault(y[3], len(m) + 1))
            if len(y) == 2 and y[0] == 'at':
                return ('at', m.setdefault(y[1], len(m) + 1))
            if y and y[0] in ('readall', 'peek', 'pos') and len(y) == 3:
                return (y[0], go(y[1]), m.setdefault(y[2], len(m) + 1))
            return tuple(go(z) for z in y)
        if isinstance(y, list):
            return [go(z) for z in y]
        return y
    return go(x)


def effects(stmts, is_async=False, env=None):
    s = Sem(is_async)
    if env:
        s.env.update(env)
    v = s.block(strip(stmts))
    if v is not None:
        if v[0] == 'io':
            s.emit('val', v[2])
            s.emit('lost', s.io[v[1]]['name'], s.io[v[1]]['on'])
        elif v[0] == 'hole':
            s.emit('gen', v[1])
        else:
            s.emit('val', v)
    return renumber(tuple(tidy(s.eff)))


def walk(x):
    """every effect of the tree, outermost first"""
    for e in x:
        if not (isinstance(e, tuple) and e and isinstance(e[0], str)):
            continue
        yield e
        if e[0] in ('for', 'while', 'loop'):
            yield from walk(e[-1])
        elif e[0] == 'if':
            yield from walk(e[2])
            yield from walk(e[3])
        elif e[0] == 'match':
            for _, o, _ in e[2]:
                yield from walk(o)
        elif e[0] == 'many':
            for _, b in e[2]:
                yield from walk(b)
        elif e[0] == 'mapped':
            yield from walk(e[1])


def fmt(e):
    if isinstance(e, tuple):
        return '(%s)' % ' '.join(fmt(x) for x in e)
    if isinstance(e, frozenset):
        return '#'
    return str(e)
