"""Evaluation of emitted items: user types with inherent methods, associated constants and operator impls."""
import re
from . import bitsem as B
from .bitsem import Ev, Var, Struct, Cell, Ref, Unknown, Ret, Int, unref, mk, WID

OPS = {'|': ('BitOr', 'bitor'), '&': ('BitAnd', 'bitand'), '^': ('BitXor', 'bitxor'), '+': ('Add', 'add'), '-': ('Sub', 'sub')}
UNOPS = {'!': ('Not', 'not'), '-': ('Neg', 'neg')}


class World:
    def __init__(self, its):
        self.enums, self.structs, self.fns, self.consts, self.impls = {}, {}, {}, {}, {}
        self.free = {}
        for it in its:
            self.add(it)
        self.problems = []

    def add(self, it):
        k = it.kind
        if k == 'enum':
            self.enums[it.name] = it
        elif k == 'struct':
            self.structs[it.name] = it
        elif k == 'fn':
            self.free[it.name] = it
        elif k == 'impl':
            tr = it.trait.split('::')[-1] if it.trait else None
            self.impls.setdefault(it.name, set()).add(tr)
            for x in it.its:
                if x.kind == 'fn':
                    key = (it.name, tr, x.name)
                    if key in self.fns:
                        raise Unknown('%s::%s is defined twice' % (it.name, x.name))
                    self.fns[key] = x
                elif x.kind == 'const':
                    self.consts[(it.name, x.name)] = x
                elif x.kind not in ('type', 'use'):
                    raise Unknown('item %s in an impl' % x.kind)
        elif k == 'const':
            self.consts[(None, it.name)] = it
        elif k == 'mod':
            for x in it.its:
                self.add(x)
        elif k not in ('use', 'type', 'trait'):
            raise Unknown('item %s' % k)

    def derives(self, it):
        return {d for a in it.attrs for m in [re.match(r'derive\((.*)\)$', a)] if m for d in re.sub(r'\w+::', '', m.group(1)).split(',') if d}

    def lookup(self, ty, name):
        c = [f for (t, tr, n), f in self.fns.items() if t == ty and n == name]
        inh = self.fns.get((ty, None, name))
        if inh is not None:
            return inh
        return c[0] if len(c) == 1 else None

    def ev(self, ty=None, env=None):
        return WEv(self, ty, env or {})

    def call(self, ty, f, args):
        """args include self; -> ('ok', v) | ('panic', msg)"""
        if f.body is None:
            raise Unknown('body of %s' % f.name)
        env = {}
        names = []
        for p, a in zip(f.params, args):
            if p[0] == 'self':
                env['self'] = Cell(a)
            else:
                names.append((p, a))
        if len(f.params) != len(args):
            raise Unknown('%d arguments for %s' % (len(args), f.name))
        e = self.ev(ty, env)
        for (pat, pt), a in names:
            e.scopes[-1].setdefault('', Cell(None))
            if not e.bindpat(pat, e.typed(a, pt.replace(' ', ''))):
                raise Unknown('parameter pattern')
        how, v = B.execute(e, f.body)
        self.problems += e.problems
        if how == 'panic':
            return how, v
        r = (f.ret or '').replace(' ', '')
        if isinstance(v, Int) and v.ty is None and r in WID:
            v = e.typed(v, r)
        return 'ok', v

    def const(self, ty, name):
        k = self.consts.get((ty, name))
        if k is None:
            return None
        e = self.ev(ty)
        v = e.ev(k.e)
        return e.typed(v, (k.ty or '').replace(' ', '').replace('Self', ty or 'Self'))


class WEv(Ev):
    def __init__(self, w, ty, env):
        Ev.__init__(self, env)
        self.w, self.ty = w, ty

    def tyof(self, v):
        u = unref(v)
        if isinstance(u, Struct):
            return u.name
        if isinstance(u, Var) and '::' in u.name:
            return u.name.split('::')[0]
        return None

    def norm(self, path):
        path = re.sub(r'\s', '', path)
        path = re.sub(r'::<.*?>(?=::|$)', '', path)
        if path.split('::')[0] == 'Self' and self.ty:
            path = self.ty + path[4:]
        path = re.sub(r'^(crate|self|super)::', '', path)
        return path

    def variant(self, path):
        p = path.split('::')
        if len(p) >= 2 and p[-2] in self.w.enums:
            for n, pay, d in self.w.enums[p[-2]].variants:
                if n == p[-1]:
                    return p[-2], n, pay
        return None

    def const(self, path):
        path = self.norm(path)
        v = self.variant(path)
        if v and v[2] is None:
            return Var('%s::%s' % v[:2])
        p = path.split('::')
        k = self.w.const(p[-2] if len(p) > 1 else None, p[-1])
        if k is not None:
            return k
        return Ev.const(self, path)

    def e_path(self, e):
        n = self.norm(e[1])
        if self.find(n) is None:
            k = self.const(n)
            if k is not None:
                return k
            v = self.variant(n)
            if v or n in self.w.structs:
                return lambda *a: self.call(n, list(a))
        return Ev.e_path(self, e)

    def call(self, n, args):
        n = self.norm(n)
        v = self.variant(n)
        if v:
            t = [self.typed(unref(a), ty) for a, ty in zip(args, v[2] or [])]
            return Var('%s::%s' % v[:2], t)
        p = n.split('::')
        if p[-1] in self.w.structs and (len(p) == 1 or p[-2] not in self.w.structs):
            st = self.w.structs[p[-1]]
            return Struct(p[-1], {f[0]: self.typed(unref(a), f[1].replace(' ', '')) for f, a in zip(st.fields, args)})
        if len(p) > 1 and (p[-2] in self.w.enums or p[-2] in self.w.structs):
            f = self.w.lookup(p[-2], p[-1])
            if f is not None:
                return self.invoke(p[-2], f, args)
        if len(p) > 1 and args and self.tyof(args[0]):
            f = self.w.fns.get((self.tyof(args[0]), p[-2], p[-1]))
            if f is not None:
                return self.invoke(self.tyof(args[0]), f, args)
        if len(p) == 1 and n in self.w.free:
            return self.invoke(None, self.w.free[n], args)
        return Ev.call(self, n, args)

    def invoke(self, ty, f, args):
        args = [a if 'mut' in q[1] and q[0] == 'self' else unref(a) if q[0] == 'self' and '&' not in q[1] else a for q, a in zip(f.params, args)]
        if f.params and f.params[0][0] == 'self' and '&' in f.params[0][1] and not isinstance(args[0], Ref):
            args[0] = Ref(Cell(args[0]))
        how, v = self.w.call(ty, f, args)
        if how == 'panic':
            raise B.Panic(v)
        return v

    def e_struct(self, e):
        n = self.norm(e[1])
        n = n.split('::')[-1]
        if n in self.w.structs and isinstance(e[2], list):
            fs = {}
            for f in e[2]:
                if not (isinstance(f, tuple) and f[0] == 'fld'):
                    raise Unknown('struct literal')
                fs[str(f[1]).lstrip('#')] = self.ev(f[2])
            return Struct(n, fs)
        raise Unknown('struct literal')

    def e_mcall(self, e):
        # a user type's method on a place
        x = e[1]
        while x[0] == 'paren':
            x = x[1]
        place = None
        if x[0] == 'path' and self.find(x[1]) is not None:
            place = self.find(x[1])
            r = place.v
        else:
            r = self.ev(x)
        t = self.tyof(r)
        if t is not None:
            f = self.w.lookup(t, e[2])
            if f is not None:
                args = [self.ev(a) for a in e[3]]
                if f.params and f.params[0][0] == 'self' and '&' in f.params[0][1]:
                    r = r if isinstance(r, Ref) else Ref(place if place is not None else Cell(r))
                else:
                    r = unref(r)
                return self.invoke(t, f, [r] + args)
            if e[2] in ('clone', 'to_owned', 'borrow', 'as_ref', 'into'):
                return unref(r)
        if e[2] == 'into' and not isinstance(unref(r), Int):
            return unref(r)
        return self.method(r, e[2], [self.ev(a) for a in e[3]], e)

    def compare(self, op, a, b):
        ua, ub = unref(a), unref(b)
        if isinstance(ua, Struct) and isinstance(ub, Struct) and op in ('==', '!='):
            f = self.w.fns.get((ua.name, 'PartialEq', 'eq'))
            if f is not None:
                r = self.truth(self.invoke(ua.name, f, [Ref(Cell(ua)), Ref(Cell(ub))]))
            else:
                if ua.name != ub.name:
                    raise Unknown('comparison')
                r = all(self.compare('==', ua.fields[k], ub.fields[k]) for k in ua.fields)
            return r == (op == '==')
        return Ev.compare(self, op, a, b)

    def binop(self, op, a, b):
        t = self.tyof(a)
        if t and op in OPS:
            f = self.w.fns.get((t,) + OPS[op])
            if f is None:
                raise Unknown('%s has no operator %s' % (t, op))
            return self.invoke(t, f, [unref(a), unref(b)])
        return Ev.binop(self, op, a, b)

    def e_un(self, e):
        if e[1] in UNOPS:
            v = unref(self.ev(e[2]))
            t = self.tyof(v)
            if t:
                f = self.w.fns.get((t,) + UNOPS[e[1]])
                if f is None:
                    raise Unknown('%s has no operator %s' % (t, e[1]))
                return self.invoke(t, f, [v])
        return Ev.e_un(self, e)

    def e_assign(self, e):
        op = e[1]
        if op != '=' and op[:-1] in OPS:
            cur = unref(self.ev(e[2]))
            t = self.tyof(cur)
            if t:
                tr, n = OPS[op[:-1]]
                f = self.w.fns.get((t, tr + 'Assign', n + '_assign'))
                if f is None:
                    raise Unknown('%s has no operator %s' % (t, op))
                c = Cell(cur)
                self.invoke(t, f, [Ref(c), unref(self.ev(e[3]))])
                self.store(e[2], c.v)
                return B.UNITS
        return Ev.e_assign(self, e)

    def cast(self, v, ty):
        if isinstance(v, Var) and '::' in v.name and ty in WID:
            t, n = v.name.split('::')
            if any(p for _, p, d in self.w.enums[t].variants):
                raise Unknown('cast of an enum with fields')
            last = -1
            for vn, pay, d in self.w.enums[t].variants:
                if d is not None:
                    x = unref(self.ev(d))
                    if not isinstance(x, Int) or x.const() is None:
                        raise Unknown('discriminant')
                    last = x.const()
                else:
                    last += 1
                if vn == n:
                    rp = [a for a in self.w.enums[t].attrs if a.startswith('repr(')]
                    return Ev.cast(self, mk(rp[0][5:-1] if rp and rp[0][5:-1] in WID else 'i64', last), ty)
        return Ev.cast(self, v, ty)

    def e_macro(self, e):
        n = e[1].split('::')[-1].strip()
        if n in ('write', 'writeln', 'concat', 'stringify'):
            return B.Opaque(n)
        return Ev.e_macro(self, e)
