"""Loads the type-checked MIR exported by the driver and offers CFG facts
(reverse post-order, natural loops, liveness) about each function."""
import json


class Undecided(Exception):
    """the analysis cannot tell"""


class Fn:
    __slots__ = ("key", "name", "d", "parent", "local", "kind", "file", "line", "argc", "spread",
                 "locals", "names", "blocks", "_succ", "_rpo", "_loops", "_live", "safety", "_addr", "idx")

    def __init__(self, key, j):
        self.key = key
        self.name = j["name"]
        self.d = j["d"]
        self.parent = j.get("parent")
        self.local = j["local"]
        self.kind = j["kind"]
        self.safety = j.get("safety")
        self.file = j.get("file")
        self.line = j.get("line")
        self.argc = j["argc"]
        self.spread = j["spread"]
        self.locals = j["locals"]
        self.names = j["names"]
        self.blocks = j["blocks"]
        self._succ = self._rpo = self._loops = self._live = self._addr = None

    # -- control flow -----------------------------------------------------
    def succ(self, b):
        if self._succ is None:
            self._succ = [self._compute_succ(i) for i in range(len(self.blocks))]
        return self._succ[b]

    def _compute_succ(self, b):
        t = self.blocks[b]["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x[1] for x in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[4]]
        return []

    def rpo(self):
        if self._rpo is None:
            seen, order = set(), []
            stack = [(0, iter(self.succ(0)))]
            seen.add(0)
            while stack:
                b, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(self.succ(s))))
                        break
                else:
                    order.append(b)
                    stack.pop()
            order.reverse()
            self._rpo = {b: i for i, b in enumerate(order)}
        return self._rpo

    def loops(self):
        """header -> set of blocks of the natural loop"""
        if self._loops is None:
            rpo = self.rpo()
            order = sorted(rpo, key=rpo.get)
            preds = {b: [] for b in order}
            for b in order:
                for s in self.succ(b):
                    preds[s].append(b)
            # dominators (Cooper/Harvey/Kennedy)
            idom = {order[0]: order[0]}
            changed = True
            while changed:
                changed = False
                for b in order[1:]:
                    new = None
                    for p in preds[b]:
                        if p in idom:
                            if new is None:
                                new = p
                            else:
                                x, y = p, new
                                while x != y:
                                    while rpo[x] > rpo[y]:
                                        x = idom[x]
                                    while rpo[y] > rpo[x]:
                                        y = idom[y]
                                new = x
                    if new is not None and idom.get(b) != new:
                        idom[b] = new
                        changed = True

            def dom(a, b):
                while True:
                    if a == b:
                        return True
                    if idom[b] == b:
                        return False
                    b = idom[b]
            loops = {}
            for b in order:
                for s in self.succ(b):
                    if rpo[s] <= rpo[b] and dom(s, b):
                        body = loops.setdefault(s, {s})
                        work = [b]
                        while work:
                            x = work.pop()
                            if x not in body:
                                body.add(x)
                                work.extend(preds[x])
            self._loops = loops
        return self._loops

    # -- liveness ---------------------------------------------------------
    def addr_taken(self):
        if self._addr is None:
            s = set()
            for b in self.blocks:
                for st in b["s"]:
                    if st[0] == "=" and st[2][0] in ("ref", "addr", "reborrow"):
                        pl = st[2][1]
                        if "*" not in pl[1]:
                            s.add(pl[0])
            self._addr = s
        return self._addr

    def live_in(self):
        if self._live is None:
            n = len(self.blocks)
            gen = [0] * n
            kill = [0] * n
            allref = 0
            for a in self.addr_taken():
                allref |= 1 << a

            def usep(p, cur):
                m = 1 << p[0]
                for e in p[1]:
                    if e[0] == "i":
                        m |= 1 << e[1]
                return m

            for i, b in enumerate(self.blocks):
                g = k = 0
                for st in b["s"]:
                    if st[0] == "=":
                        u = 0
                        for p in rv_places(st[2]):
                            u |= usep(p, 0)
                        if st[1][1]:
                            u |= usep(st[1], 0)
                        g |= u & ~k
                        if not st[1][1]:
                            k |= 1 << st[1][0]
                    elif st[0] == "dead":
                        k |= 1 << st[1]
                    elif st[0] == "setd":
                        g |= (1 << st[1][0]) & ~k
                t = b["t"]
                u = 0
                for p in term_places(t):
                    u |= usep(p, 0)
                if t[0] == "return":
                    u |= 1
                g |= u & ~k
                gen[i], kill[i] = g, k
                if t[0] == "call" and not t[3][1]:
                    kill[i] |= 0  # dest defined at successor; conservative
            live = [0] * n
            order = sorted(self.rpo(), key=self.rpo().get, reverse=True)
            changed = True
            while changed:
                changed = False
                for b in order:
                    out = 0
                    for s in self.succ(b):
                        out |= live[s]
                    t = self.blocks[b]["t"]
                    if t[0] == "call" and not t[3][1]:
                        out &= ~(1 << t[3][0])
                    new = gen[b] | (out & ~kill[b])
                    if new != live[b]:
                        live[b] = new
                        changed = True
            self._live = ([x | allref for x in live])
        return self._live


def op_places(o):
    return [o[1]] if o[0] in ("c", "m") else []


def rv_places(r):
    k = r[0]
    if k in ("use", "repeat"):
        return op_places(r[1])
    if k in ("ref", "addr", "reborrow", "discr", "len"):
        return [r[1]]
    if k == "agg":
        out = []
        for o in r[2]:
            out += op_places(o)
        return out
    if k in ("bin", "cbin"):
        return op_places(r[2]) + op_places(r[3])
    if k in ("un", "cast"):
        return op_places(r[2])
    out = []
    for x in r[1:]:
        if isinstance(x, list) and x and x[0] in ("c", "m"):
            out += op_places(x)
    return out


def term_places(t):
    k = t[0]
    if k == "switch":
        return op_places(t[1])
    if k == "drop":
        return [t[1]]
    if k == "assert":
        return op_places(t[1])
    if k == "call":
        out = op_places(t[1])
        for a in t[2]:
            out += op_places(a)
        if t[3][1]:
            out.append(t[3])
        return out
    return []


class Mir:
    def __init__(self, path):
        j = json.load(open(path))
        self.types = j["types"]
        self.items = j["items"]
        self.generic = j["generic"]
        self.impls = j["impls"]
        self.fns = {k: Fn(k, f) for k, f in j["fns"].items()}
        for i, f in enumerate(self.fns.values()):
            f.idx = i
        self.by_index = list(self.fns.values())
        self.byname = {}
        for f in self.fns.values():
            self.byname.setdefault(f.name, f)
        self.bydef = {}
        for f in self.fns.values():
            self.bydef.setdefault(f.d, []).append(f)
        self.tyname = {}
        for i, t in enumerate(self.types):
            self.tyname.setdefault(t["n"], i)
        self.adts = {}
        for i, t in enumerate(self.types):
            if t["k"] == "adt":
                self.adts.setdefault(t["d"], []).append(i)

    def fn(self, name):
        """unique local function by (suffix of) its path"""
        if name in self.byname:
            return self.byname[name]
        c = [f for f in self.fns.values() if f.local and f.name.endswith(name)]
        if len(c) == 1:
            return c[0]
        c2 = [f for f in c if f.name.endswith("::" + name)]
        if len(c2) == 1:
            return c2[0]
        raise KeyError("anchor function %r: %d matches" % (name, len(c)))

    def ty(self, name):
        if name in self.tyname:
            return self.tyname[name]
        c = [i for i, t in enumerate(self.types) if t["k"] == "adt" and t["d"].endswith("::" + name) and not t["args"]]
        if len(c) == 1:
            return c[0]
        raise KeyError("anchor type %r: %d matches" % (name, len(c)))

    def adt(self, suffix, crate="protospec_build"):
        c = [i for i, t in enumerate(self.types) if t["k"] == "adt" and t["crate"] == crate
             and (t["d"] == suffix or t["d"].endswith("::" + suffix))]
        if len(c) != 1:
            raise KeyError("anchor type %r: %d matches" % (suffix, len(c)))
        return c[0]
