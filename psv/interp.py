"""Abstract interpreter over exported MIR.

Domain: symbolic access paths ("atoms"), constructed values, sequences with
star items for unbounded parts, and facts restricting the variants/values of
atoms.  Nothing is executed: each function is summarised for *all* inputs at
once, loops are solved by widening to star items, recursion is cut
coinductively.  Paths of the source are kept apart only as far as they have
different effects (trace partitioning).
"""
import sys
from .mir import op_places

sys.setrecursionlimit(100000)


class Limit(Exception):
    pass


class Coarse(Exception):
    pass


UNDEF = ("undef",)
UNIT = ("v", None, 0, ())


def I(n):
    return ("i", int(n))


def S(*parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            if p == "":
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
        out.append(p)
    return ("s", tuple(out))


def K(v):
    """reference to an immutable constant value"""
    return ("r", ("K", v), ())


def op(name, *args):
    return ("op", name) + args


def T_(*items):
    return ("T", tuple(items))


def is_int(v):
    return v[0] == "i"


class State:
    __slots__ = ("store", "facts")

    def __init__(self, store=None, facts=None):
        self.store = store if store is not None else {}
        self.facts = facts if facts is not None else {}

    def copy(self):
        return State(dict(self.store), dict(self.facts))


def fact_meet(a, b):
    """(polarity, set) lattice; None when contradictory"""
    if a is None:
        return b
    pa, sa = a
    pb, sb = b
    if pa and pb:
        s = sa & sb
        return (True, s) if s else None
    if pa and not pb:
        s = sa - sb
        return (True, s) if s else None
    if pb and not pa:
        s = sb - sa
        return (True, s) if s else None
    return (False, sa | sb)


def fact_join(a, b):
    pa, sa = a
    pb, sb = b
    if pa and pb:
        return (True, sa | sb)
    if not pa and not pb:
        s = sa & sb
        return (False, s) if s else None
    if pa:
        s = sb - sa
    else:
        s = sa - sb
    return (False, s) if s else None


def mentions(v, pred):
    """does any string inside the value satisfy pred"""
    if isinstance(v, str):
        return pred(v)
    if isinstance(v, (tuple, frozenset)):
        for x in v:
            if isinstance(x, (tuple, str, frozenset)) and mentions(x, pred):
                return True
    return False


def deep_map(v, f):
    r = f(v)
    if r is not None:
        return r
    if isinstance(v, tuple):
        new = tuple(deep_map(x, f) if isinstance(x, tuple) else x for x in v)
        return v if new == v else new
    return v


class Frame:
    __slots__ = ("fn", "id", "depth")


class Interp:
    def __init__(self, mir, hooks=None, cfg=None):
        self.m = mir
        self.T = mir.types
        self.hooks = hooks or {}
        self.stack = []
        self.frames = {}
        self.unknown = {}
        self.panics = []
        self.shared, self.narc = False, 0    # reference-counted pointers denote shared cells
        self.asserts = []
        self.analysed = {}
        self.steps = 0
        self.max_steps = 4_000_000
        self.max_outcomes = 3000
        self.max_depth = 70
        self.opaque = set()       # local fn names not inlined
        self.on_call = None
        self.rec_hook = None
        self.fresh = 0
        self.merge_returns = True
        self.part_limit = 40
        self.unroll = 0           # > 0: loops are followed iteration by iteration, at most this many
        self.coarse = False       # one abstract state per loop head
        self.folds = {}           # loop accumulator -> [initial value, {(guard, next value)}]
        self.debug = False
        self.derived = {"std::clone::Clone::clone", "std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne"}
        self.inline_filter = None
        from . import std, stdx, std2
        self.std = std
        self._fty = {}

    # ------------------------------------------------------------ types --
    def tn(self, t):
        return self.T[t]["n"] if t is not None else "?"

    def field_info(self, ty, variant, i):
        if ty is None:
            return ("%d" % i, None)
        t = self.T[ty]
        k = t["k"]
        if k == "adt":
            v = t["v"][variant] if t["v"] else None
            if v and i < len(v["f"]):
                return (v["f"][i][0], v["f"][i][1])
            return (str(i), None)
        if k == "tuple":
            return (str(i), t["e"][i])
        return (str(i), None)

    def is_ptr_adt(self, ty):
        if ty is None:
            return None
        t = self.T[ty]
        if t["k"] in ("ref", "ptr"):
            return t["e"]
        if t["k"] == "adt":
            if t["box"] or t["d"] in ("std::sync::Arc", "std::rc::Rc", "std::cell::Ref", "std::cell::RefMut", "alloc::sync::Arc"):
                if t["d"].endswith("Ref") or t["d"].endswith("RefMut"):
                    return t["args"][0]
                return t["args"][0]
        return None

    def atom(self, name, ty):
        # canonical values for types with one inhabitant
        if ty is not None:
            t = self.T[ty]
            if t["k"] == "tuple" and not t["e"]:
                return UNIT
            if t["k"] == "adt" and t.get("ak") == "Struct" and t["crate"] == "protospec_build" and not t["v"][0]["f"]:
                return ("v", ty, 0, ())
        return ("A", name, ty)

    # ------------------------------------------------------------ memory --
    def root_default(self, st, root):
        if root[0] == "M":
            return self.atom(root[1], root[2])
        if root[0] == "K":
            return root[1]
        return UNDEF

    def proj(self, st, v, e):
        """value of one projection step"""
        k = e[0]
        if k == "d":
            return v if v[0] != "A" else ("Ad", v, e[1])
        if k == "f":
            i = e[1]
            if v[0] == "v":
                return v[3][i] if i < len(v[3]) else UNDEF
            if v[0] == "Ad":
                a = v[1]
                n, ty = self.field_info(a[2], v[2], i)
                t = self.T[a[2]] if a[2] is not None else None
                vn = t["v"][v[2]]["n"] if t and t["k"] == "adt" and t["ak"] == "Enum" else str(v[2])
                return self.atom("%s@%s.%s" % (a[1], vn, n) if isinstance(a[1], str) else ("fld", a[1], vn, n), ty)
            if v[0] == "A":
                n, ty = self.field_info(v[2], 0, i)
                t = self.T[v[2]] if v[2] is not None else None
                if t and t["k"] == "adt" and t["d"].endswith("cell::RefCell") or t and t["k"] == "adt" and t["d"].endswith("cell::Cell"):
                    return self.atom(v[1], ty)
                return self.atom("%s.%s" % (v[1], n) if isinstance(v[1], str) else ("fld", v[1], "", n), ty)
            if v[0] == "op":
                return ("op", "fld", v, i)
            if v[0] == "b" or v[0] == "r":
                return v
            return UNDEF
        if k == "b":
            if v[0] == "b":
                return v[1]
            return v
        if k == "cell":
            if v[0] == "v" and len(v[3]) == 1:
                return v[3][0]
            if v[0] == "A":
                if v[2] is None or not self.T[v[2]].get("args"):
                    return ("A", v[1], None)
                t = self.T[v[2]]
                return self.atom(v[1], t["args"][0])
            return v
        if k == "x":  # constant index
            if v[0] == "v" and e[1] < len(v[3]):
                return v[3][e[1]]
            if v[0] in ("q", "T", "m"):
                if all(it[0] == "1" for it in v[1][:e[1] + 1]) and e[1] < len(v[1]):
                    return v[1][e[1]][1]
            if v[0] == "A":
                t = self.T[v[2]] if v[2] is not None else {}
                return self.atom("%s[%d]" % (v[1], e[1]), t.get("e") if isinstance(t.get("e"), int) else None)
            return ("op", "idx", v, I(e[1]))
        if k == "xs":  # symbolic index
            if v[0] == "A":
                t = self.T[v[2]] if v[2] is not None else {}
                ety = t.get("e") if isinstance(t.get("e"), int) else (t["args"][0] if t.get("args") else None)
                return ("A", ("idx", v[1], e[1]), ety)
            return ("op", "idx", v, e[1])
        if k in ("xe", "sub"):
            its = None
            if v[0] == "q" and all(it[0] == "1" for it in v[1]):
                its = [it[1] for it in v[1]]
            elif v[0] == "v" and (v[1] is None or self.T[v[1]]["k"] in ("array", "slice")):
                its = list(v[3])
            elif v[0] == "s":
                its = self.std.units(self, st, v)
            if k == "xe" and its is not None and e[1] <= len(its):
                return its[len(its) - e[1]]
            if k == "sub" and its is not None:
                its = its[e[1]:len(its) - e[2] if e[3] else e[2]]
                return self.std.text_of(its) if v[0] == "s" else ("q", tuple(("1", x) for x in its))
            if k == "sub":
                return ("op", "subslice", v, I(e[1]), I(e[2]), I(1 if e[3] else 0))
            return ("op", "idxend", v, I(e[1]))
        return UNDEF

    def read(self, st, root, path):
        v = st.store.get(root)
        if v is None:
            v = self.root_default(st, root)
        for e in path:
            v = self.proj(st, v, e)
        if v[0] == "Ad":
            v = v[1]
        return v

    def write(self, st, root, path, nv):
        if root[0] == "K":
            return False
        if not path:
            st.store[root] = nv
            return True
        v = st.store.get(root)
        if v is None:
            v = self.root_default(st, root)
        st.store[root] = self._upd(st, v, list(path), nv)
        return True

    def expand(self, v, variant=0):
        t = self.T[v[2]] if v[2] is not None else None
        if t is None:
            return None
        if t["k"] == "adt" and t["v"]:
            n = len(t["v"][variant]["f"])
        elif t["k"] == "tuple":
            n = len(t["e"])
        elif t["k"] == "array" and t.get("len") is not None:
            return ("v", v[2], 0, tuple(self.atom("%s[%d]" % (v[1], i), t["e"]) for i in range(t["len"])))
        else:
            return None
        base = ("Ad", v, variant) if t["k"] == "adt" and t["ak"] == "Enum" else v
        return ("v", v[2], variant, tuple(self.proj(None, base, ("f", i)) for i in range(n)))

    def _upd(self, st, v, path, nv):
        if not path:
            return nv
        e, rest = path[0], path[1:]
        k = e[0]
        if k == "d":
            if v[0] == "A":
                x = self.expand(v, e[1])
                if x is not None:
                    v = x
            return self._upd(st, v, rest, nv)
        if k == "f" or k == "cell" or k == "x":
            i = e[1] if k != "cell" else 0
            if v[0] == "A":
                t = self.T[v[2]] if v[2] is not None else None
                if t and t["k"] == "adt" and t["d"].split("::")[-1] in ("RefCell", "Cell"):
                    v = ("v", v[2], 0, (self.atom(v[1], t["args"][0]),))
                else:
                    x = self.expand(v)
                    if x is not None:
                        v = x
            if v[0] == "undef" or v[0] in ("A", "op"):
                v = ("v", None, 0, ())
            if v[0] == "v":
                fs = list(v[3])
                while len(fs) <= i:
                    fs.append(UNDEF)
                fs[i] = self._upd(st, fs[i], rest, nv)
                return ("v", v[1], v[2], tuple(fs))
            if v[0] in ("q", "m") and k == "x" and i < len(v[1]) and all(it[0] == "1" for it in v[1][:i + 1]):
                its = list(v[1])
                its[i] = ("1", self._upd(st, its[i][1], rest, nv))
                return (v[0], tuple(its))
            return ("op", "upd", v)
        if k == "b":
            if v[0] == "b":
                return ("b", self._upd(st, v[1], rest, nv))
            return ("b", self._upd(st, UNDEF, rest, nv))
        return ("op", "upd", v)

    def deref(self, st, v, ty=None):
        """value of a pointer -> (root, path) of the pointee"""
        if v[0] == "r":
            return v[1], v[2]
        if v[0] == "A":
            e = self.is_ptr_adt(v[2])
            if e is None:
                e = ty
            return ("M", v[1], e), ()
        if v[0] == "b":
            return ("K", v[1]), ()
        if v[0] == "op" or v[0] == "s":
            return ("M", v, ty), ()
        if v[0] == "v" and v[1] is not None and len(v[3]) >= 1 and v[3][0][0] in ("r", "A"):
            return self.deref(st, v[3][0], ty)
        return ("K", v), ()

    def load(self, st, ptr):
        """value behind a reference value"""
        root, path = self.deref(st, ptr)
        return self.read(st, root, path)

    def strip(self, st, v):
        """follow references/boxes to the value itself"""
        for _ in range(12):
            if v[0] == "r":
                v = self.read(st, v[1], v[2])
            elif v[0] == "b":
                v = v[1]
            elif v[0] == "A" and self.is_ptr_adt(v[2]) is not None:
                v = self.load(st, v)
            else:
                return v
        return v

    def resolve(self, st, v, depth=8):
        """replace pointers inside a value by the pointee (for reporting)"""
        if depth == 0:
            return v
        v = self.strip(st, v)
        if v[0] == "v":
            return ("v", v[1], v[2], tuple(self.resolve(st, x, depth - 1) for x in v[3]))
        if v[0] in ("q", "T"):
            return (v[0], tuple(self.resolve_item(st, it, depth - 1) for it in v[1]))
        if v[0] == "op":
            return v[:2] + tuple(self.resolve(st, x, depth - 1) if isinstance(x, tuple) else x for x in v[2:])
        return v

    def resolve_item(self, st, it, depth):
        if it[0] == "1":
            return ("1", self.resolve(st, it[1], depth))
        if it[0] == "*":
            return ("*", it[1], frozenset((g, tuple(self.resolve_item(st, x, depth) for x in xs)) for g, xs in it[2]))
        return it

    # ------------------------------------------------------------ places --
    def place(self, st, fr, p):
        root, path = ("L", fr.id, p[0]), ()
        pr = p[1]
        ty = fr.fn.locals[p[0]]
        for e in pr:
            if e == "*":
                v = self.read(st, root, path)
                root, path = self.deref(st, v, None)
                if root[0] == "M" and root[2] is None:
                    root = ("M", root[1], None)
            elif e[0] == "f":
                path = path + (("f", e[1]),)
            elif e[0] == "d":
                path = path + (("d", e[1]),)
            elif e[0] == "i":
                iv = self.read(st, ("L", fr.id, e[1]), ())
                iv = self.norm(st, iv)
                path = path + ((("x", iv[1]) if iv[0] == "i" else ("xs", iv)),)
            elif e[0] == "c":
                path = path + ((("xe", e[1]) if e[3] else ("x", e[1])),)
            else:
                path = path + (("sub", e[1], e[2], e[3]) if e[0] == "s" else ("f", 0),)
        return root, path

    def norm(self, st, v):
        """apply equality facts"""
        if v[0] in ("A", "op"):
            f = st.facts.get(v if v[0] == "op" else v[1])
            if f and f[0] and len(f[1]) == 1:
                (x,) = f[1]
                if isinstance(x, int) and self.intlike(v):
                    return I(x)
        return v

    def intlike(self, v):
        if v[0] == "op":
            return True
        if v[2] is None:
            return False
        return self.T[v[2]]["k"] in ("int", "uint", "bool", "char")

    def operand(self, st, fr, o):
        if o[0] in ("c", "m"):
            root, path = self.place(st, fr, o[1])
            v = self.read(st, root, path)
            if v[0] == "b" and o[0] == "c":
                return ("r", root, path + (("b",),))
            if v[0] in ("A", "op"):
                v = self.norm(st, v)
            return v
        if o[0] == "k":
            return self.const(o[1], o[2] if len(o) > 2 else None)
        return UNDEF

    def parts(self, ty, agg):
        """types of the fields of a constant of type `ty`"""
        n = len(agg[1])
        t = self.T[ty] if ty is not None else None
        if t and t["k"] == "tuple" and len(t["e"]) == n:
            return t["e"]
        if t and t["k"] == "adt" and agg[0] < len(t["v"]) and len(t["v"][agg[0]]["f"]) == n:
            return [f[1] for f in t["v"][agg[0]]["f"]]
        return [None] * n

    def const(self, c, ty):
        if "int" in c:
            return I(c["int"])
        if "str" in c:
            return K(("s", (c["str"],) if c["str"] else ()))
        if "ref" in c:
            return K(self.const(c["ref"], self.T[ty].get("e") if ty is not None and self.T[ty]["k"] in ("ref", "ptr") else None))
        if "bytes" in c:
            return K(("q", tuple(("1", I(x)) for x in c["bytes"])))
        if "arr" in c:
            e = self.T[ty].get("e") if ty is not None and self.T[ty]["k"] in ("array", "slice") else None
            return ("v", None, 0, tuple(self.const(x, e) for x in c["arr"]))
        if "agg" in c:
            return ("v", ty, c["agg"][0], tuple(self.const(x, e) for x, e in zip(c["agg"][1], self.parts(ty, c["agg"]))))
        if "zst" in c:
            if ty is not None:
                t = self.T[ty]
                if t["k"] == "fndef":
                    return ("fn", ty)
                if t["k"] in ("closure", "adt"):
                    return ("v", ty, 0, ())
            return UNIT
        if "fn" in c:
            return ("fn", self.fn_id(c["fn"]))
        if "fnkey" in c:
            return ("fn", ("k", c["fnkey"]))
        if str(c.get("opaque", "")).startswith("other:{closure"):
            if getattr(self.m, "_closures", None) is None:
                self.m._closures = {t["n"]: i for i, t in enumerate(self.T) if t["k"] == "closure"}
            i = self.m._closures.get(c["opaque"][6:])
            if i is not None:
                return ("v", i, 0, ())
        return ("A", "const:" + str(sorted(c.items()))[:60], ty)

    def fn_id(self, f):
        self._fnids = getattr(self, "_fnids", {})
        key = (f["d"], f.get("n"), f.get("key"), f.get("ik"), f.get("crate"))
        self._fnids[key] = f
        return key

    def fn_info(self, ident):
        if isinstance(ident, int):
            return self.T[ident]["fn"]
        if ident[0] == "k":
            f = self.m.fns.get(ident[1])
            return {"d": f.d if f else "?", "n": f.name if f else "?", "key": ident[1], "ik": "item", "crate": "", "ta": []}
        return self._fnids[ident]

    # ------------------------------------------------------------ rvalue --
    def rvalue(self, st, fr, r, dty):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k in ("ref", "addr", "reborrow"):
            root, path = self.place(st, fr, r[1])
            return ("r", root, path)
        if k == "agg":
            ops = tuple(self.operand(st, fr, o) for o in r[2])
            a = r[1]
            if a[0] == "adt":
                t = self.T[a[1]]
                if t["ak"] == "Union":
                    return ops[0]
                return ("v", a[1], a[2], ops)
            if a[0] == "tuple":
                return ("v", None, 0, ops)
            if a[0] == "array":
                return ("v", None, 0, ops)
            if a[0] == "closure":
                return ("v", dty, 0, ops)
            return ("v", dty, 0, ops)
        if k == "discr":
            root, path = self.place(st, fr, r[1])
            v = self.read(st, root, path)
            return self.discr(st, v)
        if k in ("bin", "cbin"):
            a = self.operand(st, fr, r[2])
            b = self.operand(st, fr, r[3])
            v = self.binop(st, r[1], a, b)
            if k == "cbin":
                return ("v", None, 0, (v, ("op", "ovf", r[1], a, b) if not (a[0] == "i" and b[0] == "i" and v[1] >= 0) else I(0)))
            return v
        if k == "un":
            a = self.operand(st, fr, r[2])
            if r[1] == "Not":
                if a[0] == "i":
                    return I(1 - a[1]) if a[1] in (0, 1) else ("op", "Not", a)
                if a[0] == "op" and a[1] == "Not":
                    return a[2]
                return ("op", "Not", a)
            if r[1] == "Neg":
                return I(-a[1]) if a[0] == "i" else ("op", "Neg", a)
            if r[1] == "PtrMetadata":
                return self.length(st, self.strip(st, a))
            return ("op", r[1], a)
        if k == "cast":
            a = self.operand(st, fr, r[2])
            if r[1] in ("IntToInt", "IntToFloat", "FloatToInt", "FloatToFloat"):
                if a[0] == "i" and r[1] == "IntToInt":
                    t = self.T[r[3]]
                    if t["k"] == "uint":
                        return I(a[1] & ((1 << t["bits"]) - 1))
                    return a
                src = self.opty(fr, r[2])
                if src is not None and self.T[src]["k"] == "uint" and self.T[r[3]]["k"] == "uint" and self.T[src]["bits"] <= self.T[r[3]]["bits"]:
                    return a
                return ("op", "as", a, self.tn(r[3]))
            if r[1] == "BoxDerefTransmute":
                p = r[2][1]
                root, path = self.place(st, fr, [p[0], p[1][:-1]])
                v = self.read(st, root, path)
                if v[0] == "b":
                    return ("r", root, path + (("b",),))
                if v[0] == "r":
                    return v
                root2, path2 = self.deref(st, v, None)
                return ("r", root2, path2)
            return a
        if k == "len":
            root, path = self.place(st, fr, r[1])
            return self.length(st, self.read(st, root, path))
        if k == "repeat":
            v = self.operand(st, fr, r[1])
            n = r[2]
            if n is not None and n <= 64:
                return ("v", None, 0, (v,) * n)
            return ("op", "repeat", v)
        return ("A", "rv:" + k, dty)

    def opty(self, fr, o):
        if o[0] in ("c", "m"):
            if not o[1][1]:
                return fr.fn.locals[o[1][0]]
            last = o[1][1][-1]
            if last != "*" and last[0] == "f":
                return last[2]
            return None
        return o[2] if len(o) > 2 else None

    def length(self, st, v):
        if v[0] in ("q", "T", "m"):
            n = 0
            extra = []
            for it in v[1]:
                if it[0] == "1":
                    n += 1
                else:
                    extra.append(it)
            if not extra:
                return I(n)
            return ("op", "len", v)
        if v[0] == "v":
            return I(len(v[3]))
        if v[0] == "s":
            if all(isinstance(p, str) for p in v[1]):
                return I(sum(len(p.encode()) for p in v[1]))
        return ("op", "len", v)

    def discr(self, st, v):
        if v[0] == "v":
            t = self.T[v[1]] if v[1] is not None else None
            if t and t["k"] == "adt":
                d = t["v"][v[2]]["d"]
                return I(d)
            return I(v[2])
        if v[0] == "A":
            f = st.facts.get(("?", v[1]))
            if f and f[0] and len(f[1]) == 1:
                (x,) = f[1]
                return I(self.vdisc(v[2], x))
            return ("op", "discr", v)
        if v[0] == "i":
            return v
        return ("op", "discr", v)

    def vdisc(self, ty, vi):
        t = self.T[ty]
        return t["v"][vi]["d"]

    CMP = {"Eq": lambda a, b: a == b, "Ne": lambda a, b: a != b, "Lt": lambda a, b: a < b,
           "Le": lambda a, b: a <= b, "Gt": lambda a, b: a > b, "Ge": lambda a, b: a >= b}

    def binop(self, st, o, a, b):
        base = o.replace("Unchecked", "").replace("WithOverflow", "")
        if a[0] == "i" and b[0] == "i":
            x, y = a[1], b[1]
            if base in self.CMP:
                return I(self.CMP[base](x, y))
            try:
                if base == "Add":
                    return I(x + y)
                if base == "Sub":
                    return I(x - y)
                if base == "Mul":
                    return I(x * y)
                if base == "BitAnd":
                    return I(x & y)
                if base == "BitOr":
                    return I(x | y)
                if base == "BitXor":
                    return I(x ^ y)
                if base == "Shl":
                    return I(x << y)
                if base == "Shr":
                    return I(x >> y)
                if base == "Div":
                    return I(x // y)
                if base == "Rem":
                    return I(x % y)
            except Exception:
                pass
        if base == "Eq" and a == b and a[0] in ("A", "op", "s"):
            return I(1)
        if base == "Ne" and a == b and a[0] in ("A", "op", "s"):
            return I(0)
        if base == "Add":
            if b == ("i", 0):
                return a
            if a == ("i", 0):
                return b
            if a[0] == "op" and a[1] == "Add" and a[3][0] == "i" and b[0] == "i":
                return ("op", "Add", a[2], I(a[3][1] + b[1]))
            if a[0] == "i" and b[0] != "i":
                a, b = b, a
        if base == "Sub" and b == ("i", 0):
            return a
        if base == "BitAnd" and (a == ("i", 0) or b == ("i", 0)):
            return I(0)
        if base in ("BitAnd",) and a == ("i", 1):
            return b
        if base == "Ne":
            return ("op", "Not", ("op", "Eq", a, b)) if True else None
        if base == "Gt":
            return ("op", "Lt", b, a)
        if base == "Ge":
            return ("op", "Not", ("op", "Lt", a, b))
        if base == "Le":
            return ("op", "Not", ("op", "Lt", b, a))
        return ("op", base, a, b)

    # ------------------------------------------------------------ facts --
    def assume(self, st, v, want_in, vals):
        """add fact (v in/not in vals of switch integers); returns False if contradictory"""
        while v[0] == "op" and v[1] == "Not":
            v = v[2]
            vals = frozenset(1 - x for x in vals)
        if v[0] == "i":
            return (v[1] in vals) == want_in
        if v[0] == "op" and v[1] == "and":
            if (1 in vals) == want_in:
                return self.assume(st, v[2], True, frozenset([1])) and self.assume(st, v[3], True, frozenset([1]))
            return True
        if v[0] == "op" and v[1] == "Lt" and (v[2][0], v[3][0]) in (("A", "i"), ("i", "A")):
            x, c = (v[2], v[3][1]) if v[2][0] == "A" else (v[3], v[2][1])
            if x[2] is not None and self.T[x[2]]["k"] == "uint" and self.T[x[2]].get("bits") == 8:
                truth = (1 in vals) == want_in
                cls = frozenset(range(0, c)) if v[2][0] == "A" else frozenset(range(c + 1, 256))
                return self.assume(st, x, truth, cls) if cls else not truth
        if v[0] == "op" and v[1] == "Eq" and v[3][0] == "i":
            # boolean on (x == c)
            truth = (1 in vals) == want_in
            x, c = v[2], v[3][1]
            if x[0] in ("A", "op"):
                return self.assume(st, x, truth, frozenset([c]))
        if v[0] == "op" and v[1] == "Eq" and v[2][0] == "i":
            truth = (1 in vals) == want_in
            x, c = v[3], v[2][1]
            if x[0] in ("A", "op"):
                return self.assume(st, x, truth, frozenset([c]))
        if v[0] == "op" and v[1] == "discr" and v[2][0] == "A":
            a = v[2]
            t = self.T[a[2]] if a[2] is not None else None
            key = ("?", a[1])
            if t and t["k"] == "adt" and t["ak"] == "Enum":
                allv = frozenset(range(len(t["v"])))
                vis = frozenset(i for i, x in enumerate(t["v"]) if x["d"] in vals)
                cur = st.facts.get(key) or (True, allv)
                new = fact_meet(cur, (want_in, vis))
                if new is None:
                    return False
                st.facts[key] = new
                return True
            vals = frozenset(vals)
            new = fact_meet(st.facts.get(key), (want_in, vals))
            if new is None:
                return False
            st.facts[key] = new
            return True
        key = v[1] if v[0] == "A" else v
        cur = st.facts.get(key)
        if cur is None and self.is_bool(v):
            cur = (True, frozenset([0, 1]))
        new = fact_meet(cur, (want_in, frozenset(vals)))
        if new is None:
            return False
        st.facts[key] = new
        return True

    BOOLOPS = {"Eq", "Lt", "contains", "contains_key", "any", "all", "is_empty", "ovf", "starts_with", "pred"}

    def is_bool(self, v):
        if v[0] == "A":
            return v[2] is not None and self.T[v[2]]["k"] == "bool"
        return v[0] == "op" and (v[1] in self.BOOLOPS)

    def variant_of(self, st, v):
        """set of possible variant indices"""
        if v[0] == "v":
            return frozenset([v[2]])
        if v[0] == "A" and v[2] is not None:
            t = self.T[v[2]]
            if t["k"] == "adt":
                f = st.facts.get(("?", v[1]))
                allv = frozenset(range(len(t["v"])))
                if f is None:
                    return allv
                return f[1] if f[0] else allv - f[1]
        return None

    def split_variant(self, st, v):
        """[(state, value-with-known-variant, idx)]"""
        if v[0] == "v":
            return [(st, v, v[2])]
        vs = self.variant_of(st, v)
        if vs is None:
            return None
        out = []
        for i in sorted(vs):
            s2 = st.copy() if len(vs) > 1 else st
            s2.facts[("?", v[1])] = (True, frozenset([i]))
            out.append((s2, self.expand(v, i), i))
        return out

    # ------------------------------------------------------------ running --
    def new_frame(self, fn, site):
        fr = Frame()
        fr.fn = fn
        parent = self.stack[-1].id if self.stack else 0
        key = (parent, site, fn.idx)
        if key not in self.frames:
            self.frames[key] = len(self.frames) + 1
        fr.id = self.frames[key]
        fr.depth = len(self.stack)
        return fr

    def run(self, fn, args, st=None):
        """analyse fn for the given abstract arguments -> [(state, value)]"""
        return self.call_fn(fn, args, st or State(), "entry")

    def call_fn(self, fn, args, st, site):
        fr = self.new_frame(fn, site)
        self.analysed[fn.key] = self.analysed.get(fn.key, 0) + 1
        if len(self.stack) > (600 if self.unroll else self.max_depth):
            raise Limit("inline depth in " + fn.name)
        for i, a in enumerate(args):
            st.store[("L", fr.id, i + 1)] = a
        self.stack.append(fr)
        try:
            outs = self.region(fr, 0, [st], None)
        finally:
            self.stack.pop()
        res = []
        for b, s in outs:
            v = s.store.get(("L", fr.id, 0), UNIT)
            dead = [k for k in s.store if k[0] == "L" and k[1] == fr.id]
            if v[0] == "r" and v[1][0] == "L" and v[1][1] == fr.id:
                v = K(self.read(s, v[1], v[2]))
            for k in dead:
                del s.store[k]
            res.append((s, v))
        mo = self.merge_outcomes(res)
        if self.debug:
            print("  " * len(self.stack) + fn.name.split("::")[-1], len(res), "->", len(mo), self.steps, flush=True)
        return mo

    def merge_outcomes(self, res):
        if len(res) < 2 or not self.merge_returns:
            return res
        if self.unroll:
            return self.merge_exact(res)
        out = []
        index = {}
        for s, v in res:
            key = (v, tuple(sorted(((k, x) for k, x in s.store.items()), key=lambda t: repr(t[0]))))
            try:
                h = hash(key)
            except TypeError:
                h = None
            if h is not None and key in index:
                t = index[key]
                self.join_facts(t, s)
            else:
                index[key] = s
                out.append((s, v))
        if len(out) > self.max_outcomes:
            raise Limit("too many outcomes in %s: %d" % (self.stack[-1].fn.name if self.stack else "?", len(out)))
        return out

    def merge_exact(self, res):
        """merges outcomes only where the union of their facts is exact (they differ in one key)"""
        groups, out = {}, []
        for s, v in res:
            key = (v, tuple(sorted(((k, x) for k, x in s.store.items()), key=lambda t: repr(t[0]))))
            try:
                hash(key)
            except TypeError:
                out.append((s, v))
                continue
            g = groups.setdefault(key, [])
            done = False
            for t in g:
                diff = [k for k in set(t.facts) | set(s.facts) if t.facts.get(k) != s.facts.get(k)]
                if len(diff) <= 1:
                    self.join_facts(t, s)
                    done = True
                    break
            if not done:
                g.append(s)
                out.append((s, v))
        if len(out) > self.max_outcomes:
            raise Limit("too many outcomes in %s: %d" % (self.stack[-1].fn.name if self.stack else "?", len(out)))
        return out

    def join_facts(self, a, b):
        new = {}
        for k, fa in a.facts.items():
            fb = b.facts.get(k)
            if fb is None:
                continue
            j = fact_join(fa, fb)
            if j is not None:
                new[k] = j
        a.facts = new

    def clean(self, fr, b, st):
        live = fr.fn.live_in()[b]
        dead = [k for k in st.store if k[0] == "L" and k[1] == fr.id and not (live >> k[2]) & 1]
        for k in dead:
            del st.store[k]

    def region(self, fr, start, states, inloop):
        """run from block `start`; inloop = (header, blocks) of the loop whose
        body is being run (back edges to header and exits end the region).
        Returns [(block, state)]: block None=return."""
        fn = fr.fn
        rpo = fn.rpo()
        loops = fn.loops()
        pend = {start: list(states)}
        outs = []
        first = True
        while pend:
            b = min(pend, key=lambda x: rpo[x])
            sts = pend.pop(b)
            if not (first and b == start):
                if inloop is not None and (b == inloop[0] or b not in inloop[1]):
                    outs.extend((b, s) for s in sts)
                    continue
            if len(sts) > 1:
                for s in sts:
                    self.clean(fr, b, s)
                sts = [s for s, _ in self.merge_outcomes([(s, UNIT) for s in sts])]
            is_header = b in loops and not (inloop is not None and b == inloop[0])
            first_here = first
            first = False
            for s in sts:
                if is_header:
                    for (nb, ns) in self.loop(fr, b, loops[b], s):
                        if nb is None:
                            outs.append((None, ns))
                        else:
                            pend.setdefault(nb, []).append(ns)
                else:
                    for (nb, ns) in self.block(fr, b, s):
                        if nb is None:
                            outs.append((None, ns))
                        else:
                            pend.setdefault(nb, []).append(ns)
        return outs

    # ---- loops ------------------------------------------------------------
    def shape_key(self, fr, st, loopid):
        k = []
        for (root, v) in st.store.items():
            if root[0] == "L" and root[1] == fr.id:
                self._itshape(v, k)
        fk = frozenset((a, b) for a, b in st.facts.items() if self.inv_fact(a))
        return (tuple(sorted(k, key=repr)), fk)

    def inv_fact(self, key):
        if isinstance(key, tuple) and len(key) == 2 and key[0] == "took":
            return False
        return not mentions(key if isinstance(key, tuple) else (key,), lambda s: "[]" in s or s.startswith("W:"))

    def _itshape(self, v, out):
        if v[0] == "it":
            out.append(("it", tuple(it if it[0] == "1" else it[:2] for it in v[1])))
        elif v[0] == "v":
            if v[1] is not None and len(v[3]) == 2 and v[3][0][0] == "i" and v[3][1][0] == "i" and \
                    self.T[v[1]]["k"] == "adt" and "ops::Range" in self.T[v[1]]["d"]:
                out.append(v)
            else:
                for x in v[3]:
                    self._itshape(x, out)

    def loop_unrolled(self, fr, header, body, st):
        exits, work, n = [], [st], 0
        while work:
            s = work.pop(0)
            n += 1
            if n > self.unroll:
                raise Limit("loop is not bounded in %s bb%d" % (fr.fn.name, header))
            self.clean(fr, header, s)
            for nb, ns in self.region(fr, header, [s], (header, body)):
                if nb == header:
                    work.append(ns)
                else:
                    exits.append((nb, ns))
            if len(work) > 1:
                for w in work:
                    self.clean(fr, header, w)
                work = [w for w, _ in self.merge_outcomes([(w, UNIT) for w in work])]
        return exits

    def loop(self, fr, header, body, st):
        if self.unroll:
            return self.loop_unrolled(fr, header, body, st.copy())
        try:
            return self.loop_(fr, header, body, st.copy(), self.coarse)
        except Coarse as e:
            if e.args != (fr.id, header):
                raise
            return self.loop_(fr, header, body, st, True)

    def loop_(self, fr, header, body, st, coarse):
        loopid = "%d:%d" % (fr.id, header)
        keyf = (lambda s: 0) if coarse else (lambda s: self.shape_key(fr, s, loopid))
        done = {}
        exits = []
        self.clean(fr, header, st)
        work = [st]
        nparts = 0
        while work:
            s0 = work.pop()
            key = keyf(s0)
            group = [s0]
            rest = []
            for w in work:
                (group if keyf(w) == key else rest).append(w)
            work = rest
            nparts += 1
            if nparts > self.part_limit:
                raise Coarse(fr.id, header)
            if key in done:
                # re-entering a partition already solved: its entry must be covered
                prev = done[key]
                group = [g for g in group if not self.covered(prev, g)]
                if not group:
                    continue
                raise Coarse(fr.id, header)
            cur = self.widen_entry(fr, header, group, loopid) if len(group) > 1 else group[0].copy()
            holes = {}
            for rnd in range(14):
                head = cur.copy()
                res = self.region(fr, header, [head], (header, body))
                same, other, ex = [], [], []
                for (nb, ns) in res:
                    if nb == header:
                        self.clean(fr, header, ns)
                        if keyf(ns) == key:
                            same.append(ns)
                        else:
                            other.append(ns)
                    else:
                        ex.append((nb, ns))
                if not same:
                    break
                new, holes = self.widen(cur, same, loopid, fr)
                if new.store == cur.store and new.facts == cur.facts:
                    break
                cur = new
            else:
                raise Limit("loop does not stabilise in %s bb%d" % (fr.fn.name, header))
            done[key] = cur
            fill = self.filler(holes, loopid)
            for nb, ns in ex:
                exits.append((nb, fill(ns)))
            for ns in other:
                work.append(fill(ns))
        return exits

    def covered(self, prev, g):
        if prev.store != g.store:
            return False
        for k, f in prev.facts.items():
            if g.facts.get(k) != f:
                return False
        return True

    def widen_entry(self, fr, header, group, loopid):
        base = group[0].copy()
        for g in group[1:]:
            self.join_facts(base, g)
            for r in list(base.store):
                a = base.store[r]
                b = g.store.get(r)
                if b is None:
                    del base.store[r]
                elif a != b:
                    base.store[r] = ("A", "W:%s:%s" % (loopid, self.rname(r)), None)
        return base

    def rname(self, r):
        return repr(r[1:]) if r[0] == "L" else repr(r[:2])

    def widen(self, cur, same, loopid, fr):
        holes = {}
        new = State({}, {})
        guards = []
        for s in same:
            g = frozenset((k, f) for k, f in s.facts.items() if cur.facts.get(k) != f)
            guards.append(g)
        for r, v0 in cur.store.items():
            vs = []
            gone = False
            for s in same:
                v = s.store.get(r)
                if v is None:
                    gone = True
                    break
                vs.append(v)
            if gone:
                continue
            new.store[r] = self.wval(v0, vs, guards, (r,), loopid, holes)
        # roots born in the loop (symbolic memory, heap): keep only if read-independent
        born = {}
        for s in same:
            for r, v in s.store.items():
                if r not in cur.store and r[0] in ("M", "H", "EV"):
                    born.setdefault(r, []).append(v)
        for r, vs in born.items():
            d = self.root_default(cur, r)
            if r[0] == "M" and isinstance(r[1], str) and "[]" in r[1]:
                continue
            new.store[r] = self.wval(d, vs, guards, (r,), loopid, holes)
        for k, f in cur.facts.items():
            j = f
            for s in same:
                fb = s.facts.get(k)
                j = fact_join(j, fb) if (fb is not None and j is not None) else None
            if j is not None:
                new.facts[k] = j
        return new, holes

    def wval(self, v0, vs, guards, path, loopid, holes):
        if all(v == v0 for v in vs):
            if v0[0] in ("q", "T", "s") and v0[1] and isinstance(v0[1][-1], tuple) and v0[1][-1][0] == "hole" and v0[1][-1][1] == loopid:
                hid = v0[1][-1]
                holes.setdefault(hid, set()).update((g, ()) for g in guards)
            return v0
        if v0[0] == "A" and isinstance(v0[1], str) and v0[1].startswith("W:" + loopid + ":"):
            if v0[1] in self.folds:
                self.folds[v0[1]][1] = set(zip(guards, vs))
            return v0
        if v0[0] in ("q", "T", "s", "m") and all(v[0] == v0[0] for v in vs):
            items = v0[1]
            hid = ("hole", loopid, path)
            n = len(items)
            ok = True
            deltas = []
            if v0[0] == "s":
                its = [v[1] for v in vs]
                for v in its:
                    if v[:n] == items:
                        deltas.append(v[n:])
                    elif n and len(v) >= n and isinstance(items[-1], str) and isinstance(v[n - 1], str) and v[:n - 1] == items[:-1] and v[n - 1].startswith(items[-1]):
                        deltas.append((v[n - 1][len(items[-1]):],) + v[n:])
                    else:
                        ok = False
            else:
                for v in vs:
                    if v[1][:n] == items:
                        deltas.append(v[1][n:])
                    else:
                        ok = False
            if ok:
                if not (items and items[-1] == hid):
                    items = items + (hid,)
                holes[hid] = set(zip(guards, deltas))
                return (v0[0], items)
            if loopid and v0[0] == "q" and not items:
                return ("q", (("*", "W:%s:%s" % (loopid, repr(path)), frozenset(zip(guards, [v[1] for v in vs]))),))
            # shrinking sequence (drain/pop) or other change
            return (v0[0], (("*", "W:%s:%s" % (loopid, repr(path)), frozenset()),))
        if v0[0] == "it" and all(v[0] == "it" for v in vs):
            names, vals = [], set()

            def coll(xs):
                for it in xs:
                    if it[0] == "1":
                        vals.add(it[1])
                    elif it[0] == "*":
                        if it[1] not in names and not str(it[1]).startswith("mix("):
                            names.append(it[1])
                        elif str(it[1]).startswith("mix("):
                            for n in it[1][4:-1].split("+"):
                                if n not in names:
                                    names.append(n)
                        for g, ys in it[2]:
                            coll(ys)
            for v in (v0,) + tuple(vs):
                coll(v[1])
            return ("it", (("*", "mix(%s)" % "+".join(sorted(map(str, names))), frozenset((frozenset(), (("1", x),)) for x in vals)),))
        if v0[0] == "v" and all(v[0] == "v" and v[1] == v0[1] and v[2] == v0[2] and len(v[3]) == len(v0[3]) for v in vs):
            return ("v", v0[1], v0[2], tuple(
                self.wval(x, [v[3][i] for v in vs], guards, path + (i,), loopid, holes) for i, x in enumerate(v0[3])))
        if v0[0] == "b" and all(v[0] == "b" for v in vs):
            return ("b", self.wval(v0[1], [v[1] for v in vs], guards, path + ("b",), loopid, holes))
        ty = None
        for v in (v0,) + tuple(vs):
            if v[0] == "A":
                ty = v[2]
            elif v[0] == "v" and v[1] is not None:
                ty = v[1]
        nm = "W:%s:%s" % (loopid, "/".join(str(p) if not isinstance(p, tuple) else self.rname(p) for p in path))
        self.folds[nm] = [v0, set()]
        return ("A", nm, ty)

    def filler(self, holes, loopid):
        rep = {}
        for hid, alts in holes.items():
            rep[hid] = ("*", loopid, frozenset(alts))

        def f(v):
            if v and v[0] == "hole" and v in rep:
                return rep[v]
            return None

        def fill(st):
            if rep:
                for r in list(st.store):
                    v = st.store[r]
                    nv = deep_map(v, f)
                    if nv is not v:
                        st.store[r] = nv
                nf = {}
                for k, x in st.facts.items():
                    nf[deep_map(k, f) if isinstance(k, tuple) else k] = x
                st.facts = nf
            for k in [k for k in st.facts if isinstance(k, tuple) and len(k) == 2 and k[0] == "took" and False]:
                del st.facts[k]
            return st
        return fill

    def kill(self, st, prefix):
        """forget facts (and symbolic memory) about names starting with prefix"""
        p = lambda s: s.startswith(prefix)
        for k in [k for k in st.facts if mentions(k if isinstance(k, tuple) else (k,), p)]:
            del st.facts[k]
        for r in [r for r in st.store if r[0] == "M" and mentions(r[:2], p)]:
            del st.store[r]

    # ---- blocks -------------------------------------------------------------
    def block(self, fr, b, st):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Limit("steps")
        blk = fr.fn.blocks[b]
        locals_ = fr.fn.locals
        store = st.store
        for s in blk["s"]:
            if s[0] == "=":
                p = s[1]
                dty = locals_[p[0]] if not p[1] else None
                v = self.rvalue(st, fr, s[2], dty)
                if not p[1]:
                    store[("L", fr.id, p[0])] = v
                else:
                    root, path = self.place(st, fr, p)
                    self.write(st, root, path, v)
            elif s[0] == "dead":
                store.pop(("L", fr.id, s[1]), None)
        t = blk["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "return":
            return [(None, st)]
        if k == "drop":
            return [(t[2], st)]
        if k == "switch":
            v = self.operand(st, fr, t[1])
            return self.switch(fr, st, v, t)
        if k == "assert":
            v = self.operand(st, fr, t[1])
            if t[3] and t[3][0] == "other":
                return [(t[4], st)]
            if v[0] == "i":
                if bool(v[1]) == t[2]:
                    return [(t[4], st)]
                self.panics.append((fr.fn, b, t[3], st))
                return []
            s2 = st.copy()
            if self.assume(s2, v, not t[2], frozenset([1])):
                self.asserts.append((fr.fn, b, t[3], s2))
            if v[0] == "op" and v[1] == "ovf":
                return [(t[4], st)]
            if not self.assume(st, v, t[2], frozenset([1])):
                return []
            return [(t[4], st)]
        if k == "call":
            return self.call(fr, b, st, t)
        return []

    def switch(self, fr, st, v, t):
        if v[0] == "i":
            for x, tgt in t[2]:
                if x == v[1]:
                    return [(tgt, st)]
            return [(t[3], st)]
        out = []
        # group by target
        groups = {}
        for x, tgt in t[2]:
            groups.setdefault(tgt, []).append(x)
        live = lambda blk: not (fr.fn.blocks[blk]["t"][0] == "unreachable" and not fr.fn.blocks[blk]["s"])
        for tgt, xs in groups.items():
            if not live(tgt):
                continue
            s2 = st.copy()
            if self.assume(s2, v, True, frozenset(xs)):
                out.append((tgt, s2))
        if live(t[3]):
            s2 = st.copy()
            if self.assume(s2, v, False, frozenset(x for x, _ in t[2])):
                out.append((t[3], s2))
        return out

    # ---- calls ----------------------------------------------------------------
    def call(self, fr, b, st, t):
        fo = t[1]
        args = [self.operand(st, fr, a) for a in t[2]]
        dest, target = t[3], t[4]
        site = (fr.fn.idx, b)
        if fo[0] == "k" and "fn" in fo[1]:
            info = fo[1]["fn"]
            outs = self.invoke(st, info, args, site, fr, dest)
        else:
            fv = self.operand(st, fr, fo)
            outs = self.call_value(st, fv, args, site)
        if target is None:
            if outs is None or True:
                self.panics.append((fr.fn, b, (fo[1]["fn"]["d"] if fo[0] == "k" and "fn" in fo[1] else "?",
                                               args), st))
            return []
        res = []
        for s, v in outs:
            root, path = self.place(s, fr, dest)
            if not self.write(s, root, path, v):
                pass
            res.append((target, s))
        return res

    def ret_ty(self, fr, dest):
        if not dest[1]:
            return fr.fn.locals[dest[0]]
        last = dest[1][-1]
        return last[2] if last != "*" and last[0] == "f" else None

    def invoke(self, st, info, args, site, fr=None, dest=None):
        d = info["d"]
        n = info.get("n", d)
        rty = self.ret_ty(fr, dest) if fr is not None and dest is not None else None
        if self.on_call:
            r = self.on_call(self, st, info, args, rty, site)
            if r is not None:
                return r
        h = self.hooks.get(n) or self.hooks.get(d)
        if h is not None:
            r = h(self, st, args, info, rty, site)
            if r is not None:
                return r
        fn = self.m.fns.get(info.get("key"))
        if info.get("ik") == "virtual":
            fn = self.devirt(st, info, args)
        s = self.std.lookup(d, n, info)
        if s is not None and (fn is None or not fn.local or self.std.norm(d) in self.derived):
            r = s(self, st, args, info, rty, site)
            if r is not None:
                return r
        if fn is not None and fn.name not in self.opaque and fn.d not in self.opaque:
            for f in self.stack:
                if f.fn is fn:
                    cnt = sum(1 for g in self.stack if g.fn is fn)
                    if self.unroll:
                        if cnt < 40:
                            break
                        raise Limit("recursion is not bounded in " + fn.name)
                    if not fn.local:
                        if cnt < 12:
                            break
                    elif self.rec_ok(fn, cnt, st, args):
                        break
                    return self.recursion(fn, st, args, info, rty, site)
            return self.enter(fn, args, st, site, info)
        return self.opaque_call(st, info, args, rty, site)

    def rec_ok(self, fn, cnt, st, args):
        return False

    def enter(self, fn, args, st, site, info):
        if fn.kind == "closure" or "{closure" in fn.d.rsplit("::", 1)[-1]:
            args = self.closure_args(fn, args, st)
        return self.call_fn(fn, args, st, site)

    def closure_args(self, fn, args, st):
        """adapt (closure, (tuple)) call args to the closure body's own signature"""
        env = args[0]
        rest = list(args[1:])
        if len(rest) == 1 and fn.argc != 2 or (len(rest) == 1 and fn.argc == 2 and rest[0][0] == "v" and rest[0][1] is None and fn.spread is None and len(rest[0][3]) == 1):
            t = rest[0]
            if t[0] == "v":
                rest = list(t[3])
        ety = self.T[fn.locals[1]]
        if ety["k"] == "ref" and env[0] not in ("r",):
            root = ("H", "env", fn.idx, len(self.stack))
            st.store[root] = env
            env = ("r", root, ())
        elif ety["k"] != "ref" and env[0] == "r":
            env = self.read(st, env[1], env[2])
        while ety["k"] == "ref" and env[0] == "r":
            inner = self.read(st, env[1], env[2])
            if inner[0] == "r":
                env = inner
            else:
                break
        return [env] + rest

    def call_value(self, st, fv, args, site):
        """call a function value with plain (untupled) args"""
        if fv[0] == "r" or fv[0] == "b":
            fv2 = self.strip(st, fv)
            if fv2[0] == "fn":
                fv = fv2
            elif fv2[0] == "v" and fv2[1] is not None and self.T[fv2[1]]["k"] == "closure":
                key = self.T[fv2[1]]["fn"]
                fn = self.m.fns.get(key)
                if fn is not None:
                    a = self.closure_args_plain(fn, fv, fv2, args, st)
                    return self.call_fn(fn, a, st, site)
        if fv[0] == "fn":
            info = self.fn_info(fv[1])
            return self.invoke(st, info, args, site)
        if fv[0] == "v" and fv[1] is not None and self.T[fv[1]]["k"] == "closure":
            fn = self.m.fns.get(self.T[fv[1]]["fn"])
            if fn is not None:
                a = self.closure_args_plain(fn, fv, fv, args, st)
                return self.call_fn(fn, a, st, site)
        return self.opaque_call(st, {"d": "indirect", "n": "indirect:" + repr(fv)[:80]}, args, None, site)

    def closure_args_plain(self, fn, fv, inner, args, st):
        ety = self.T[fn.locals[1]]
        env = fv
        if ety["k"] == "ref":
            if env[0] == "v":
                root = ("H", "env", fn.idx, len(self.stack))
                st.store[root] = env
                env = ("r", root, ())
            else:
                while env[0] == "r" and self.read(st, env[1], env[2])[0] == "r":
                    env = self.read(st, env[1], env[2])
        else:
            env = inner
        return [env] + list(args)

    def devirt(self, st, info, args):
        if not args:
            return None
        v = self.strip(st, args[0])
        if v[0] == "v" and v[1] is not None:
            meth = info["d"].rsplit("::", 1)[-1]
            trait = info["d"].rsplit("::", 1)[0]
            self_n = self.T[v[1]]["n"]
            for imp in self.m.impls:
                if imp["self"] == self_n and (imp["trait"] or "").split("::")[-1] == trait.split("::")[-1]:
                    for nm, key in imp["m"]:
                        if nm.rsplit("::", 1)[-1] == meth:
                            return self.m.fns.get(key)
        return None

    def opaque_call(self, st, info, args, rty, site):
        n = info.get("n", info["d"])
        self.unknown[n] = self.unknown.get(n, 0) + 1
        for a in args:
            self.havoc(st, a, n)
        ra = tuple(self.resolve(st, a, 4) for a in args)
        return [(st, self.result_atom(n, ra, rty))]

    def result_atom(self, n, ra, rty):
        return ("A", ("call", n, ra), rty)

    def havoc(self, st, a, why):
        pass

    def recursion(self, fn, st, args, info, rty, site):
        if self.rec_hook:
            r = self.rec_hook(self, fn, st, args, info, rty, site)
            if r is not None:
                return r
        ra = tuple(self.resolve(st, a, 3) for a in args)
        # coinductive effect: every sequence reachable through &mut arguments grows by one rec item
        for i, a in enumerate(args):
            if a[0] == "r" and a[1][0] != "K":
                lt = self.T[fn.locals[i + 1]]
                if lt["k"] == "ref" and lt.get("mut"):
                    v = self.read(st, a[1], a[2])
                    nv = self.rec_effect(v, fn, ra)
                    self.write(st, a[1], a[2], nv)
        return [(st, ("A", ("rec", fn.name, ra), rty if rty is not None else fn.locals[0]))]

    def rec_effect(self, v, fn, ra):
        if v[0] in ("q", "T", "m"):
            return (v[0], v[1] + (("rec", fn.name, ra),))
        if v[0] == "v":
            return ("v", v[1], v[2], tuple(self.rec_effect(x, fn, ra) for x in v[3]))
        if v[0] in ("i", "op") or v[0] == "A" and self.intlike(v):
            return ("A", ("rec", fn.name, ra, v), v[2] if v[0] == "A" else None)
        return v
