"""Summaries of library functions for the abstract interpreter."""
from .interp import I, S, K, UNIT, UNDEF, op, mentions, deep_map

TABLE = {}


def reg(*names):
    def deco(f):
        for n in names:
            TABLE[n] = f
        return f
    return deco


def lookup(d, n, info):
    f = TABLE.get(d)
    if f is None:
        # normalise crate aliases / generics in the path
        f = TABLE.get(norm(d))
    return f


_cache = {}


def norm(d):
    r = _cache.get(d)
    if r is None:
        x = d
        for a in ("protospec_build::quote::", ):
            if x.startswith(a):
                x = "quote::" + x[len(a):]
        out = []
        depth = 0
        i = 0
        # drop generic argument lists, keep <impl ..>
        while i < len(x):
            if x.startswith("::<", i) and not x.startswith("::<impl", i):
                j = i + 3
                depth = 1
                while depth:
                    if x[j] == "<":
                        depth += 1
                    elif x[j] == ">" and x[j - 1] != "-":
                        depth -= 1
                    j += 1
                i = j
                continue
            out.append(x[i])
            i += 1
        r = "".join(out)
        for a in ("alloc::", "core::"):
            if r.startswith(a) and not r.startswith("core::slice") and not r.startswith("core::str") and not r.startswith("core::num") and not r.startswith("core::fmt") and not r.startswith("core::panicking"):
                r = "std::" + r[len(a):]
        _cache[d] = r
    return r


def some(rty, v):
    return ("v", rty, 1, (v,))


def none(rty):
    return ("v", rty, 0, ())


def ok(rty, v):
    return ("v", rty, 0, (v,))


def err(rty, v):
    return ("v", rty, 1, (v,))


def elem_ty(I_, v):
    if v[2] is None:
        return None
    t = I_.T[v[2]]
    if t["k"] in ("slice", "array"):
        return t["e"]
    if t["k"] == "adt":
        last = t["d"].rsplit("::", 1)[-1]
        if last in ("Vec", "IndexSet", "HashSet", "VecDeque"):
            return t["args"][0]
        if last in ("Iter", "IntoIter", "Drain", "IterMut") and t["args"]:
            return t["args"][0]
    if t["k"] == "str":
        return None
    return None


def map_tys(I_, v):
    if v[0] == "A" and v[2] is not None:
        t = I_.T[v[2]]
        if t["k"] == "adt" and t["d"].rsplit("::", 1)[-1] in ("IndexMap", "HashMap", "BTreeMap"):
            return t["args"][0], t["args"][1]
    return None


EMPTY = frozenset()


def items_of(I_, st, v):
    """sequence items of a collection value"""
    if v[0] in ("q", "T", "it", "m"):
        return v[1]
    if v[0] == "v":
        if v[1] is not None and I_.T[v[1]]["k"] == "adt":
            d = I_.T[v[1]]["d"]
            if d.endswith("option::Option"):
                return (("1", v[3][0]),) if v[2] == 1 else ()
            if d.endswith("result::Result"):
                return (("1", v[3][0]),) if v[2] == 0 else ()
            if "ops::Range" in d:
                a, b = v[3][0], v[3][1]
                if a[0] == "i" and b[0] == "i" and b[1] - a[1] <= 40:
                    hi = b[1] + (1 if "Inclusive" in d else 0)
                    return tuple(("1", I(x)) for x in range(a[1], hi))
                nm = "range(%r)" % (v[3],)
                return (("*", nm, frozenset([(EMPTY, (("1", ("A", nm + "[]", None)),))])),)
            if len(v[3]) == 1:
                return items_of(I_, st, I_.strip(st, v[3][0]))
        return tuple(("1", x) for x in v[3])
    if v[0] == "A":
        mt = map_tys(I_, v)
        nm = v[1] if isinstance(v[1], str) else repr(v[1])
        if mt:
            pair = ("v", None, 0, (I_.atom(nm + "[].key", mt[0]), I_.atom(nm + "[].val", mt[1])))
            return (("*", nm, frozenset([(EMPTY, (("1", pair),))])),)
        if v[2] is not None and I_.T[v[2]]["k"] == "adt" and I_.T[v[2]]["d"].endswith("option::Option"):
            return (("*", nm, frozenset([(EMPTY, (("1", I_.atom(nm + "@Some.0", I_.T[v[2]]["args"][0])),))])),)
        return (("*", nm, frozenset([(EMPTY, (("1", I_.atom(nm + "[]", elem_ty(I_, v))),))])),)
    nm = repr(v)
    return (("*", nm, frozenset([(EMPTY, (("1", ("A", nm + "[]", None)),))])),)


def ref_to(v):
    if v[0] == "A" and isinstance(v[1], str) and v[2] is not None:
        return ("r", ("M", v[1], v[2]), ())
    return K(v)


def map_items(items, f):
    out = []
    for it in items:
        if it[0] == "1":
            out.append(("1", f(it[1])))
        elif it[0] == "*":
            out.append(("*", it[1], frozenset((g, map_items(xs, f)) for g, xs in it[2])))
        else:
            out.append(it)
    return tuple(out)


def pair_ref(v):
    if v[0] == "v" and len(v[3]) == 2:
        return ("v", None, 0, (ref_to(v[3][0]), ref_to(v[3][1])))
    return ref_to(v)


def elem_names(v, out):
    if isinstance(v, str):
        i = v.rfind("[]")
        if i >= 0:
            out.add(v[:i + 2])
    elif isinstance(v, (tuple, frozenset)):
        for x in v:
            if isinstance(x, (tuple, str, frozenset)):
                elem_names(x, out)


def it_next(I_, st, it):
    """-> [(state, value|None, rest-iterator)]"""
    items = it[1]
    out = []
    work = [(st, items, 0)]
    while work:
        s, xs, dep = work.pop()
        if dep > 4:
            continue
        if not xs:
            out.append((s, None, ("it", ())))
            continue
        h = xs[0]
        if h[0] == "1":
            out.append((s, h[1], ("it", xs[1:])))
        elif h[0] == "*":
            src = h[1]
            s0 = s.copy()
            names = set()
            elem_names(h[2], names)
            # exhausted
            s0.facts.pop(("took", src), None)
            for n in names:
                I_.kill(s0, n)
            work.append((s0, xs[1:], dep))
            for g, ys in sorted(h[2], key=repr):
                if not ys:
                    continue
                s1 = s.copy()
                for n in names:
                    I_.kill(s1, n)
                for k, f in g:
                    s1.facts[k] = f
                s1.facts[("took", src)] = (True, frozenset([1]))
                if ys[0][0] == "1":
                    out.append((s1, ys[0][1], ("it", ys[1:] + xs)))
                else:
                    work.append((s1, ys + xs, dep + 1))
        elif h[0] in ("hole", "rec"):
            s0 = s.copy()
            work.append((s0, xs[1:], dep))
            out.append((s.copy(), ("A", ("elem", h), None), ("it", xs)))
        else:
            raise RuntimeError("item " + repr(h)[:80])
    return out


def get_it(I_, st, a):
    """iterator argument (value or &mut) -> (itvalue, writer)"""
    v = I_.strip(st, a)
    if v[0] == "it":
        return v
    own = own_iter(I_, st, v, a)
    if own is not None:
        return own
    return ("it", items_of(I_, st, v))


def own_next(I_, v):
    """`next` of a type of the crate that is an iterator itself"""
    if v[0] != "v" or v[1] is None or I_.T[v[1]]["k"] != "adt":
        return None
    n = I_.T[v[1]]["n"]
    own = I_.m.__dict__.get("_own_next")
    if own is None:
        own = I_.m.__dict__["_own_next"] = {}
        for f in I_.m.fns.values():
            if f.local and f.d.startswith("<") and f.d.endswith(" as std::iter::Iterator>::next"):
                own[bare_type(f.d[1:].rsplit(" as std::iter", 1)[0])] = f
    return own.get(bare_type(n))


def bare_type(n):
    """a type's path without the crate's name and without its arguments"""
    n = n.split("<")[0]
    return n.split("::", 1)[1] if n.startswith("protospec_build::") else n


def own_iter(I_, st, v, a):
    """all elements of such an iterator, when every step has one outcome"""
    fn = own_next(I_, v)
    if fn is None or not I_.unroll:
        return None
    root, path = (a[1], a[2]) if a[0] == "r" and a[1][0] != "K" else (("H", "own", fn.idx, len(I_.stack)), ())
    if a[0] != "r":
        st.store[root] = v
    out = []
    for _ in range(200):
        r = I_.call_fn(fn, [("r", root, path)], st, (fn.idx, 0))
        if len(r) != 1:
            return None
        st.store, st.facts = r[0][0].store, r[0][0].facts
        sp = I_.split_variant(st, r[0][1])
        if sp is None or len(sp) != 1:
            return None
        if sp[0][2] == 0:
            return ("it", tuple(out))
        out.append(("1", sp[0][1][3][0]))
    return None


@reg("std::iter::Iterator::next", "std::iter::DoubleEndedIterator::next_back")
def next_(I_, st, args, info, rty, site):
    a = args[0]
    ptr = a
    # find the place that actually holds the iterator
    root, path = I_.deref(st, ptr)
    v = I_.read(st, root, path)
    while v[0] == "r":
        root, path = v[1], v[2]
        v = I_.read(st, root, path)
    if v[0] == "v" and v[1] is not None and I_.T[v[1]]["k"] == "adt" and "ops::Range" in I_.T[v[1]]["d"]:
        a0, b0 = v[3][0], v[3][1]
        incl = I_.T[v[1]]["d"].endswith("Inclusive")
        if a0[0] == "i" and b0[0] == "i" and (incl or info["d"].endswith("next_back")):
            done = incl and len(v[3]) > 2 and v[3][2] == I(1)
            if done or not (a0[1] <= b0[1] if incl else a0[1] < b0[1]):
                return [(st, none(rty))]
            last = a0[1] == b0[1]
            if info["d"].endswith("next_back"):
                x = b0 if incl else I(b0[1] - 1)
                nv = (a0, b0 if last else I(b0[1] - 1))
            else:
                x = a0
                nv = (a0 if last else I(a0[1] + 1), b0)
            I_.write(st, root, path, ("v", v[1], v[2], nv + ((I(1 if last else 0),) if incl else ())))
            return [(st, some(rty, x))]
        if a0[0] == "i" and b0[0] == "i":
            if a0[1] < b0[1]:
                I_.write(st, root, path, ("v", v[1], v[2], (I(a0[1] + 1), b0) + v[3][2:]))
                return [(st, some(rty, a0))]
            return [(st, none(rty))]
        s2 = st.copy()
        I_.write(s2, root, path, ("v", v[1], v[2], (I_.binop(st, "Add", a0, I(1)), b0) + v[3][2:]))
        c = ("op", "Lt", a0, b0)
        outs = []
        if I_.assume(s2, c, True, frozenset([1])):
            outs.append((s2, some(rty, a0)))
        if I_.assume(st, c, True, frozenset([0])):
            outs.append((st, none(rty)))
        return outs
    it = v if v[0] == "it" else ("it", items_of(I_, st, v))
    back = info["d"].endswith("next_back")
    if back:
        it = ("it", rev_items(it[1]))
    outs = []
    for s, x, rest in it_next(I_, st, it):
        if back:
            rest = ("it", rev_items(rest[1]))
        I_.write(s, root, path, rest)
        outs.append((s, none(rty) if x is None else some(rty, x)))
    return outs


def rev_items(items):
    out = []
    for it in reversed(items):
        if it[0] == "*":
            out.append(("*", rev_name(it[1]), frozenset((g, rev_items(xs)) for g, xs in it[2])))
        else:
            out.append(it)
    return tuple(out)


def rev_name(n):
    if isinstance(n, str) and n.startswith("rev(") and n.endswith(")"):
        return n[4:-1]
    return "rev(%s)" % (n,)


def places(I_, st, a):
    """references to the elements of a sequence whose elements are known one by one: what is written through them changes it"""
    if a[0] != "r":
        return None
    root, path, v = target(I_, st, a)
    if v[0] != "q" or root[0] == "K" or any(x[0] != "1" for x in v[1]):
        return None
    return tuple(("1", ("r", root, path + (("x", i),))) for i in range(len(v[1])))


@reg("std::iter::IntoIterator::into_iter", "std::iter::Iterator::by_ref", "std::iter::Iterator::fuse", "std::iter::Iterator::peekable")
def into_iter(I_, st, args, info, rty, site):
    a = args[0]
    if a[0] == "it":
        return [(st, a)]
    if a[0] == "v" and a[1] is not None and I_.T[a[1]]["k"] == "adt" and "ops::Range" in I_.T[a[1]]["d"]:
        return [(st, a)]
    if own_next(I_, I_.strip(st, a)) is not None:
        return [(st, a)]
    if a[0] == "r" and info.get("n", "").startswith("<&mut "):
        r = places(I_, st, a)
        if r is not None:
            return [(st, ("it", r))]
    if a[0] == "r" or (a[0] == "A" and I_.is_ptr_adt(a[2]) is not None and I_.T[a[2]]["k"] == "ref"):
        v = I_.strip(st, a)
        if v[0] == "it":
            return [(st, a)]
        items = items_of(I_, st, v)
        f = pair_ref if (v[0] == "m" or map_tys(I_, v)) else ref_to
        return [(st, ("it", map_items(items, f)))]
    v = I_.strip(st, a)
    return [(st, ("it", items_of(I_, st, v)))]


@reg("core::slice::<impl [T]>::iter", "indexmap::IndexMap::iter", "std::collections::HashMap::iter",
     "core::slice::<impl [T]>::iter_mut", "indexmap::IndexSet::iter", "std::collections::HashSet::iter",
     "std::option::Option::iter", "indexmap::IndexMap::iter_mut", "std::collections::VecDeque::iter")
def iter_(I_, st, args, info, rty, site):
    if info["d"].endswith("iter_mut"):
        r = places(I_, st, args[0])
        if r is not None:
            return [(st, ("it", r))]
    v = I_.strip(st, args[0])
    items = items_of(I_, st, v)
    f = pair_ref if (v[0] == "m" or map_tys(I_, v)) else ref_to
    return [(st, ("it", map_items(items, f)))]


@reg("indexmap::IndexMap::values", "std::collections::HashMap::values")
def values_(I_, st, args, info, rty, site):
    v = I_.strip(st, args[0])
    return [(st, ("it", map_items(items_of(I_, st, v), lambda p: ref_to(p[3][1]) if p[0] == "v" else p)))]


@reg("indexmap::IndexMap::keys", "std::collections::HashMap::keys")
def keys_(I_, st, args, info, rty, site):
    v = I_.strip(st, args[0])
    return [(st, ("it", map_items(items_of(I_, st, v), lambda p: ref_to(p[3][0]) if p[0] == "v" else p)))]


@reg("std::iter::Iterator::rev")
def rev_(I_, st, args, info, rty, site):
    it = get_it(I_, st, args[0])
    return [(st, ("it", rev_items(it[1])))]


@reg("std::iter::Iterator::enumerate")
def enumerate_(I_, st, args, info, rty, site):
    it = get_it(I_, st, args[0])
    out = []
    n = 0
    symb = False
    for x in it[1]:
        if x[0] == "1" and not symb:
            out.append(("1", ("v", None, 0, (I(n), x[1]))))
            n += 1
        elif x[0] == "1":
            out.append(("1", ("v", None, 0, (("A", "index", None), x[1]))))
        elif x[0] == "*":
            symb = True
            out.append(map_items((x,), lambda v, x=x: ("v", None, 0, (("A", "idx(%s)[]" % (x[1],), None), v)))[0])
        else:
            symb = True
            out.append(x)
    return [(st, ("it", tuple(out)))]


@reg("std::iter::Iterator::skip")
def skip_(I_, st, args, info, rty, site):
    it = get_it(I_, st, args[0])
    n = args[1]
    if n[0] == "i" and all(x[0] == "1" for x in it[1][:n[1]]):
        return [(st, ("it", it[1][n[1]:]))]
    return [(st, ("it", tuple(("*", "skip(%s)" % (x[1],), x[2]) if x[0] == "*" else x for x in it[1])))]


@reg("std::iter::Iterator::zip")
def zip_(I_, st, args, info, rty, site):
    a = get_it(I_, st, args[0])
    _, b0 = into_iter(I_, st, [args[1]], info, rty, site)[0]
    b = get_it(I_, st, b0)
    out = []
    for x, y in zip(a[1], b[1]):
        if x[0] == "1" and y[0] == "1":
            out.append(("1", ("v", None, 0, (x[1], y[1]))))
        elif x[0] == "*" and y[0] == "*":
            alts = set()
            for g1, xs in x[2]:
                for g2, ys in y[2]:
                    if len(xs) == 1 and len(ys) == 1 and xs[0][0] == "1" and ys[0][0] == "1":
                        alts.add((g1 | g2, (("1", ("v", None, 0, (xs[0][1], ys[0][1]))),)))
            out.append(("*", "zip(%s,%s)" % (x[1], y[1]), frozenset(alts)))
            break
        else:
            out.append(("*", "zip?", frozenset()))
            break
    return [(st, ("it", tuple(out)))]


@reg("std::iter::Iterator::chain")
def chain_(I_, st, args, info, rty, site):
    a = get_it(I_, st, args[0])
    _, b0 = into_iter(I_, st, [args[1]], info, rty, site)[0]
    b = get_it(I_, st, b0)
    return [(st, ("it", a[1] + b[1]))]


def apply_items(I_, st, items, fn):
    """fn(st, value) -> [(st, tuple-of-items)]; returns [(st, items)]"""
    outs = [(st, ())]
    for it in items:
        nouts = []
        for s, acc in outs:
            if it[0] == "1":
                for s2, ys in fn(s, it[1]):
                    nouts.append((s2, acc + ys))
            elif it[0] == "*":
                names = set()
                elem_names(it[2], names)
                alts = set()
                final = s
                base = dict(s.store)
                changed = {}
                ends = []
                for g, xs in sorted(it[2], key=repr):
                    s1 = s.copy()
                    for n in names:
                        I_.kill(s1, n)
                    for k, f in g:
                        s1.facts[k] = f
                    basef = dict(s1.facts)
                    for s2, ys in apply_items(I_, s1, xs, fn):
                        g2 = frozenset((k, f) for k, f in s2.facts.items() if basef.get(k) != f)
                        alts.add((g | g2, ys))
                        ends.append((g | g2, s2.store))
                        for r, v in s2.store.items():
                            if base.get(r) != v and r[0] != "M" and not (r[0] == "H" and r[1] in ("env", "fmt")):
                                changed[r] = True
                s3 = s.copy()
                for r in changed:
                    b = base.get(r)
                    vs = [(g, e.get(r)) for g, e in ends if e.get(r) is not None]
                    s3.store[r] = star_change(I_, b, vs, it[1])
                nouts.append((s3, acc + (("*", it[1], frozenset(alts)),)))
            else:
                nouts.append((s, acc + (it,)))
        outs = nouts
    return outs


def star_change(I_, b, vs, src):
    """what a place holds after a repetition; vs: [(guard, what one round leaves)]"""
    if b is None:
        return vs[0][1]
    if all(v == b for _, v in vs):
        return b
    if b[0] in ("q", "T", "s", "m") and all(v[0] == b[0] and v[1][:len(b[1])] == b[1] for _, v in vs):
        return (b[0], b[1] + (("*", src, frozenset((g, v[1][len(b[1]):]) for g, v in vs)),))
    if b[0] == "v" and all(v[0] == "v" and v[2] == b[2] and len(b[3]) == len(v[3]) for _, v in vs):
        return ("v", b[1], b[2], tuple(star_change(I_, x, [(g, v[3][i]) for g, v in vs], src) for i, x in enumerate(b[3])))
    if b[0] == "b" and all(v[0] == "b" for _, v in vs):
        return ("b", star_change(I_, b[1], [(g, v[1]) for g, v in vs], src))
    return ("A", "W:map:%s" % (src,), None)


@reg("std::iter::Iterator::map")
def map_(I_, st, args, info, rty, site):
    it = get_it(I_, st, args[0])
    f = args[1]
    return [(s, ("it", xs)) for s, xs in apply_items(
        I_, st, it[1], lambda s, v: [(s2, (("1", r),)) for s2, r in I_.call_value(s, f, [v], site)])]


def split_bool(I_, s, r):
    """[(state, bool)]"""
    r = I_.norm(s, r)
    if r[0] == "i":
        return [(s, bool(r[1]))]
    out = []
    s1 = s.copy()
    if I_.assume(s1, r, True, frozenset([1])):
        out.append((s1, True))
    if I_.assume(s, r, True, frozenset([0])):
        out.append((s, False))
    return out


@reg("std::iter::Iterator::filter")
def filter_(I_, st, args, info, rty, site):
    it = get_it(I_, st, args[0])
    f = args[1]

    def fn(s, v):
        out = []
        for s2, r in I_.call_value(s, f, [K(v)], site):
            for s3, b in split_bool(I_, s2, r):
                out.append((s3, (("1", v),) if b else ()))
        return out
    return [(s, ("it", xs)) for s, xs in apply_items(I_, st, it[1], fn)]


@reg("std::iter::Iterator::filter_map")
def filter_map_(I_, st, args, info, rty, site):
    it = get_it(I_, st, args[0])
    f = args[1]

    def fn(s, v):
        out = []
        for s2, r in I_.call_value(s, f, [v], site):
            sp = I_.split_variant(s2, r)
            if sp is None:
                out.append((s2, (("1", ("op", "unwrap", r)),)))
                continue
            for s3, rv, i in sp:
                out.append((s3, (("1", rv[3][0]),) if i == 1 else ()))
        return out
    return [(s, ("it", xs)) for s, xs in apply_items(I_, st, it[1], fn)]


@reg("std::iter::Iterator::flat_map")
def flat_map_(I_, st, args, info, rty, site):
    it = get_it(I_, st, args[0])
    f = args[1]

    def fn(s, v):
        out = []
        for s2, r in I_.call_value(s, f, [v], site):
            _, i2 = into_iter(I_, s2, [r], info, rty, site)[0]
            out.append((s2, i2[1] if i2[0] == "it" else items_of(I_, s2, i2)))
        return out
    return [(s, ("it", xs)) for s, xs in apply_items(I_, st, it[1], fn)]


@reg("std::iter::Iterator::copied", "std::iter::Iterator::cloned")
def copied_(I_, st, args, info, rty, site):
    it = get_it(I_, st, args[0])
    return [(st, ("it", map_items(it[1], lambda v: I_.load(st, v) if v[0] in ("r", "A") else v)))]


@reg("std::iter::Iterator::take", "std::iter::Iterator::take_while", "std::iter::Iterator::step_by",
     "std::iter::Iterator::skip_while")
def take_(I_, st, args, info, rty, site):
    it = get_it(I_, st, args[0])
    nm = info["d"].rsplit("::", 1)[-1]
    if I_.unroll and nm in ("take_while", "skip_while"):
        from .stdx import take_skip
        r = take_skip(I_, st, args, nm, site)
        if r is not None:
            return r
    n = args[1]
    if nm == "take" and n[0] == "i" and all(x[0] == "1" for x in it[1][:n[1]]) and len(it[1]) >= n[1]:
        return [(st, ("it", it[1][:n[1]]))]
    out = []
    for x in it[1]:
        if x[0] == "*":
            out.append(("*", "%s(%s)" % (nm, x[1]), x[2]))
        else:
            out.append(("*", nm, frozenset([(EMPTY, (x,))])))
    return [(st, ("it", tuple(out)))]


@reg("std::iter::Iterator::collect", "std::iter::FromIterator::from_iter")
def collect_(I_, st, args, info, rty, site):
    it = get_it(I_, st, args[0])
    t = I_.T[rty] if rty is not None else None
    nm = t["d"].rsplit("::", 1)[-1] if t and t["k"] == "adt" else ""
    if nm in ("Result", "Option"):
        # elements are Result values: success collects all payloads, failure returns some Err
        okv = 0 if nm == "Result" else 1
        outs = []

        def fn(s, v):
            v = I_.strip(s, v) if v[0] == "r" else v
            sp = I_.split_variant(s, v)
            if sp is None:
                return [(s, (("1", ("op", "unwrap", v)),))]
            r = []
            for s2, rv, i in sp:
                if i == okv:
                    r.append((s2, (("1", rv[3][0]),)))
                else:
                    s4 = s2.copy()
                    outs.append((s4, ("v", rty, i, rv[3])))
            return r
        for s, xs in apply_items(I_, st, it[1], fn):
            inner = t["args"][0]
            outs.append((s, ("v", rty, okv, (make_coll(I_, inner, xs),))))
        return outs
    if nm == "String":
        return [(st, make_coll(I_, rty, tuple(chars_as_text(I_, st, it[1]))))]
    return [(st, make_coll(I_, rty, it[1]))]


def make_coll(I_, ty, xs):
    t = I_.T[ty] if ty is not None else None
    nm = t["d"].rsplit("::", 1)[-1] if t and t["k"] == "adt" else ""
    if nm in ("IndexMap", "HashMap", "BTreeMap"):
        return ("m", xs)
    if nm == "TokenStream":
        return ("T", tuple(x for it in xs for x in flatten_ts(I_, it)))
    if nm == "String":
        return ("s", tuple(flat_str(xs)))
    if nm == "Box":
        return ("b", ("q", xs))
    return ("q", xs)


def chars_as_text(I_, st, xs):
    out = []
    for x in xs:
        if x[0] == "1":
            w = I_.strip(st, x[1])
            x = ("1", S(chr(w[1])) if w[0] == "i" else w if w[0] == "s" else x[1])
        elif x[0] == "*":
            x = ("*", x[1], frozenset((g, tuple(chars_as_text(I_, st, ys))) for g, ys in x[2]))
        out.append(x)
    return out


def flat_str(xs):
    out = []
    for it in xs:
        if it[0] == "1":
            v = it[1]
            if v[0] == "s":
                for p in v[1]:
                    if isinstance(p, str) and out and isinstance(out[-1], str):
                        out[-1] += p
                    else:
                        out.append(p)
            else:
                out.append(("disp", v))
        elif it[0] == "*":
            out.append(("*", it[1], frozenset((g, tuple(flat_str(y))) for g, y in it[2])))
        else:
            out.append(it)
    return out


def flatten_ts(I_, it):
    if it[0] == "1":
        v = it[1]
        if v[0] == "T":
            return v[1]
        return (("1", v),)
    if it[0] == "*":
        return (("*", it[1], frozenset((g, tuple(z for y in xs for z in flatten_ts(I_, y))) for g, xs in it[2])),)
    return (it,)


def quantifier(name):
    def q(I_, st, args, info, rty, site):
        it = get_it(I_, st, args[0])
        f = args[1]
        want = name == "any"
        symb = []
        cur = [st]
        outs = []
        for x in it[1]:
            nxt = []
            if x[0] == "1":
                for s in cur:
                    for s2, r in I_.call_value(s, f, [x[1]], site):
                        for s3, b in split_bool(I_, s2, r):
                            if b == want:
                                outs.append((s3, I(1 if want else 0)))
                            else:
                                nxt.append(s3)
                cur = nxt
            else:
                symb.append(x)
        if symb:
            # describe the predicate applied to the generic element
            desc = []
            for x in symb:
                if x[0] != "*":
                    desc.append(x)
                    continue
                for g, ys in sorted(x[2], key=repr):
                    for y in ys:
                        if y[0] != "1":
                            continue
                        for s in cur[:1]:
                            s1 = s.copy()
                            base = dict(s1.facts)
                            for k, fct in g:
                                s1.facts[k] = fct
                            for s2, r in I_.call_value(s1, f, [y[1]], site):
                                g2 = frozenset((k, fc) for k, fc in s2.facts.items() if base.get(k) != fc)
                                desc.append((x[1], g2, I_.resolve(s2, r, 3)))
            atom = ("op", name, tuple(sorted(set(desc), key=repr)))
            res = []
            for s in cur:
                res.append((s, atom))
            return outs + res
        return outs + [(s, I(0 if want else 1)) for s in cur]
    return q


TABLE["std::iter::Iterator::any"] = quantifier("any")
TABLE["std::iter::Iterator::all"] = quantifier("all")


@reg("std::iter::Iterator::find", "std::iter::Iterator::position", "std::iter::Iterator::find_map", "std::iter::Iterator::rposition")
def find_(I_, st, args, info, rty, site):
    nm = info["d"].rsplit("::", 1)[-1]
    it = get_it(I_, st, args[0])
    f = args[1]
    outs = []
    work = [(st, it[1], 0)]
    while work:
        s, xs, n = work.pop()
        if not xs:
            outs.append((s, none(rty)))
            continue
        x = xs[0]
        if x[0] == "1":
            vals = [(s, x[1], xs[1:], n + 1)]
        elif x[0] == "*":
            vals = []
            s0 = s.copy()
            work.append((s0, xs[1:], "?"))
            for g, ys in sorted(x[2], key=repr):
                s1 = s.copy()
                for k, fc in g:
                    s1.facts[k] = fc
                for y in ys:
                    if y[0] == "1":
                        vals.append((s1.copy(), y[1], None, "?"))
        else:
            vals = [(s, ("A", ("elem", x), None), None, "?")]
            work.append((s.copy(), xs[1:], "?"))
        for s1, v, rest, n1 in vals:
            a = K(v) if nm == "find" else v
            for s2, r in I_.call_value(s1, f, [a], site):
                if nm == "find_map":
                    sp = I_.split_variant(s2, r) or []
                    for s3, rv, i in sp:
                        if i == 1:
                            outs.append((s3, some(rty, rv[3][0])))
                        elif rest is not None:
                            work.append((s3, rest, n1))
                    continue
                for s3, b in split_bool(I_, s2, r):
                    if b:
                        val = v if nm == "find" else (I(n) if isinstance(n, int) else ("A", "pos(%r)" % (x[1] if len(x) > 1 else "",), None))
                        outs.append((s3, some(rty, val)))
                    elif rest is not None:
                        work.append((s3, rest, n1))
    return outs


@reg("std::iter::Iterator::count")
def count_(I_, st, args, info, rty, site):
    it = get_it(I_, st, args[0])
    if all(x[0] == "1" for x in it[1]):
        return [(st, I(len(it[1])))]
    return [(st, ("op", "count", ("q", it[1])))]


@reg("std::iter::Iterator::sum", "std::iter::Iterator::max", "std::iter::Iterator::min", "std::iter::Iterator::last", "std::iter::Iterator::product")
def sum_(I_, st, args, info, rty, site):
    it = get_it(I_, st, args[0])
    return [(st, ("A", ("call", info["d"], (("q", it[1]),)), rty))]


@reg("std::iter::Iterator::for_each")
def for_each_(I_, st, args, info, rty, site):
    it = get_it(I_, st, args[0])
    f = args[1]
    return [(s, UNIT) for s, xs in apply_items(
        I_, st, it[1], lambda s, v: [(s2, ()) for s2, r in I_.call_value(s, f, [v], site)])]


@reg("std::iter::Iterator::size_hint", "std::iter::ExactSizeIterator::len")
def itlen(I_, st, args, info, rty, site):
    it = get_it(I_, st, args[0])
    return [(st, I_.length(st, ("q", it[1])))]


# ------------------------------------------------------------------ Vec --
@reg("std::vec::Vec::new", "std::vec::Vec::with_capacity", "std::vec::Vec::default")
def vec_new(I_, st, args, info, rty, site):
    return [(st, ("q", ()))]


@reg("std::string::String::new", "std::string::String::with_capacity")
def string_new(I_, st, args, info, rty, site):
    return [(st, ("s", ()))]


@reg("indexmap::IndexMap::new", "std::collections::HashMap::new", "indexmap::IndexMap::with_capacity")
def map_new(I_, st, args, info, rty, site):
    return [(st, ("m", ()))]


@reg("indexmap::IndexSet::new", "std::collections::HashSet::new")
def set_new(I_, st, args, info, rty, site):
    return [(st, ("q", ()))]


def target(I_, st, a):
    """(root, path, value) of the collection behind a reference"""
    root, path = I_.deref(st, a)
    v = I_.read(st, root, path)
    while v[0] in ("r", "b") or (v[0] == "A" and I_.is_ptr_adt(v[2]) is not None):
        if v[0] == "b":
            path = path + (("b",),)
        else:
            root, path = I_.deref(st, v)
        v = I_.read(st, root, path)
    return root, path, v


@reg("std::vec::Vec::push", "std::collections::VecDeque::push_back")
def vec_push(I_, st, args, info, rty, site):
    root, path, v = target(I_, st, args[0])
    I_.write(st, root, path, ("q", items_of(I_, st, v) + (("1", args[1]),)))
    return [(st, UNIT)]


@reg("std::vec::Vec::insert")
def vec_insert(I_, st, args, info, rty, site):
    root, path, v = target(I_, st, args[0])
    its = items_of(I_, st, v)
    if args[1] == I(0):
        I_.write(st, root, path, ("q", (("1", args[2]),) + its))
    elif args[1][0] == "i" and all(x[0] == "1" for x in its[:args[1][1]]):
        n = args[1][1]
        I_.write(st, root, path, ("q", its[:n] + (("1", args[2]),) + its[n:]))
    else:
        I_.write(st, root, path, ("q", (("*", "insert", frozenset([(EMPTY, its + (("1", args[2]),))])),)))
    return [(st, UNIT)]


@reg("std::vec::Vec::extend_from_slice", "std::iter::Extend::extend", "std::vec::Vec::append")
def vec_extend(I_, st, args, info, rty, site):
    root, path, v = target(I_, st, args[0])
    if info["d"].endswith("Extend::extend"):
        _, b = into_iter(I_, st, [args[1]], info, rty, site)[0]
        xs = b[1] if b[0] == "it" else items_of(I_, st, b)
        if v[0] == "T":
            xs = tuple(x for it in xs for x in flatten_ts(I_, it))
        if v[0] == "s":
            I_.write(st, root, path, ("s", tuple(flat_str((("1", v),) + tuple(chars_as_text(I_, st, xs))))))
            return [(st, UNIT)]
    else:
        b = I_.strip(st, args[1])
        xs = items_of(I_, st, b)
        if info["d"].endswith("append"):
            r2, p2, _ = target(I_, st, args[1])
            I_.write(st, r2, p2, ("q", ()))
    tag = v[0] if v[0] in ("q", "T", "m") else "q"
    I_.write(st, root, path, (tag, items_of(I_, st, v) + xs))
    return [(st, UNIT)]


@reg("std::vec::Vec::pop")
def vec_pop(I_, st, args, info, rty, site):
    root, path, v = target(I_, st, args[0])
    outs = []
    for s, x, rest in it_next(I_, st, ("it", rev_items(items_of(I_, st, v)))):
        I_.write(s, root, path, ("q", rev_items(rest[1])))
        outs.append((s, none(rty) if x is None else some(rty, x)))
    return outs


@reg("std::vec::Vec::remove", "std::vec::Vec::swap_remove")
def vec_remove(I_, st, args, info, rty, site):
    root, path, v = target(I_, st, args[0])
    its = items_of(I_, st, v)
    if args[1][0] == "i" and all(x[0] == "1" for x in its[:args[1][1] + 1]) and len(its) > args[1][1]:
        n = args[1][1]
        I_.write(st, root, path, ("q", its[:n] + its[n + 1:]))
        return [(st, its[n][1])]
    I_.write(st, root, path, ("q", its))
    return [(st, ("A", ("call", "remove", (I_.resolve(st, args[1], 2),)), rty))]


@reg("std::vec::Vec::truncate", "std::vec::Vec::clear", "std::string::String::clear", "indexmap::IndexMap::clear")
def vec_clear(I_, st, args, info, rty, site):
    root, path, v = target(I_, st, args[0])
    if info["d"].endswith("clear"):
        I_.write(st, root, path, ({"s": "s", "m": "m"}.get(v[0], "q"), ()))
        return [(st, UNIT)]
    r = split_at(I_, items_of(I_, st, v), args[1])
    if r:
        I_.write(st, root, path, ("q", r[0]))
    else:
        I_.write(st, root, path, ("q", (("*", "truncate", frozenset()),)))
    return [(st, UNIT)]


def split_at(I_, items, n):
    """split a sequence at a (possibly symbolic) length"""
    if n[0] == "i":
        if all(x[0] == "1" for x in items[:n[1]]) and len(items) >= n[1]:
            return items[:n[1]], items[n[1]:]
        return None
    add = 0
    if n[0] == "op" and n[1] == "Add" and n[3][0] == "i":
        add = n[3][1]
        n = n[2]
    if n[0] == "op" and n[1] == "len" and n[2][0] in ("q", "T"):
        pre = n[2][1]
        k = len(pre)
        if items[:k] == pre:
            rest = items[k:]
            if add and all(x[0] == "1" for x in rest[:add]):
                return items[:k + add], rest[add:]
            if not add:
                return items[:k], rest
    if n[0] == "op" and n[1] == "len" and n[2][0] == "A":
        if items and items[0][0] == "*" and items[0][1] == n[2][1]:
            return items[:1], items[1:]
    return None


def range_bounds(I_, v):
    """(start, end) of a Range* value; None for open ends"""
    if v[0] != "v" or v[1] is None:
        if v[0] == "v":
            return None, None
        return ("?",)
    d = I_.T[v[1]]["d"].rsplit("::", 1)[-1]
    if d == "RangeFull":
        return None, None
    if d == "RangeFrom":
        return v[3][0], None
    if d == "RangeTo":
        return None, v[3][0]
    if d == "Range":
        return v[3][0], v[3][1]
    if d == "RangeInclusive":
        return v[3][0], I_.binop(None, "Add", v[3][1], I(1))
    if d == "RangeToInclusive":
        return None, I_.binop(None, "Add", v[3][0], I(1))
    return ("?",)


def subseq(I_, items, rng):
    rb = range_bounds(I_, rng)
    if len(rb) == 1:
        return None
    a, b = rb
    pre, post = (), ()
    cur = items
    if b is not None:
        r = split_at(I_, cur, b)
        if r is None:
            return None
        cur, post = r
    if a is not None:
        r = split_at(I_, cur, a)
        if r is None:
            return None
        pre, cur = r
    return pre, cur, post


@reg("std::vec::Vec::drain")
def vec_drain(I_, st, args, info, rty, site):
    root, path, v = target(I_, st, args[0])
    its = items_of(I_, st, v)
    r = subseq(I_, its, args[1])
    if r is None:
        I_.write(st, root, path, ("q", (("*", "drain-rest", frozenset([(EMPTY, its)])),)))
        return [(st, ("it", (("*", "drained?", frozenset([(EMPTY, its)])),)))]
    I_.write(st, root, path, ("q", r[0] + r[2]))
    return [(st, ("it", r[1]))]


@reg("std::vec::Vec::split_off")
def vec_split_off(I_, st, args, info, rty, site):
    root, path, v = target(I_, st, args[0])
    its = items_of(I_, st, v)
    r = split_at(I_, its, args[1])
    if r is None:
        return None
    I_.write(st, root, path, ("q", r[0]))
    return [(st, ("q", r[1]))]


@reg("std::mem::take", "std::mem::replace", "std::cell::RefCell::replace", "std::cell::RefCell::take", "std::cell::Cell::replace", "std::cell::Cell::take")
def mem_take(I_, st, args, info, rty, site):
    root, path, v = target0(I_, st, args[0])
    if "cell" in info["d"]:
        path = path + (("cell",),)
        v = I_.read(st, root, path)
    if info["d"].endswith("take"):
        nv = {"q": ("q", ()), "T": ("T", ()), "s": ("s", ()), "m": ("m", ()), "i": I(0)}.get(v[0])
        if nv is None:
            t = I_.T[rty] if rty is not None else None
            nm = t["d"].rsplit("::", 1)[-1] if t and t["k"] == "adt" else ""
            nv = {"Option": none(rty), "Vec": ("q", ()), "String": ("s", ()), "IndexMap": ("m", ()), "HashMap": ("m", ())}.get(nm, ("A", "default", rty))
    else:
        nv = args[1]
    I_.write(st, root, path, nv)
    return [(st, v)]


def target0(I_, st, a):
    root, path = I_.deref(st, a)
    return root, path, I_.read(st, root, path)


@reg("std::vec::Vec::len", "core::slice::<impl [T]>::len", "indexmap::IndexMap::len", "std::collections::HashMap::len",
     "indexmap::IndexSet::len", "std::string::String::len", "core::str::<impl str>::len", "std::collections::HashSet::len")
def len_(I_, st, args, info, rty, site):
    return [(st, I_.length(st, I_.strip(st, args[0])))]


@reg("std::vec::Vec::is_empty", "core::slice::<impl [T]>::is_empty", "indexmap::IndexMap::is_empty", "std::string::String::is_empty",
     "core::str::<impl str>::is_empty", "indexmap::IndexSet::is_empty", "std::collections::HashMap::is_empty", "std::collections::HashSet::is_empty",
     "proc_macro2::TokenStream::is_empty")
def is_empty_(I_, st, args, info, rty, site):
    v = I_.strip(st, args[0])
    if v[0] in ("q", "T", "m"):
        if not v[1]:
            return [(st, I(1))]
        if any(x[0] == "1" for x in v[1]):
            return [(st, I(0))]
    if v[0] == "s":
        if not v[1]:
            return [(st, I(1))]
        if any(isinstance(p, str) and p for p in v[1]):
            return [(st, I(0))]
    return [(st, ("op", "Eq", ("op", "len", v), I(0)))]


def first_last(I_, st, args, rty, last):
    v = I_.strip(st, args[0])
    items = items_of(I_, st, v)
    if last:
        items = rev_items(items)
    outs = []
    ismap = v[0] == "m" or map_tys(I_, v)
    for s, x, rest in it_next(I_, st, ("it", items)):
        s.facts.pop(("took", items[0][1] if items and items[0][0] == "*" else None), None)
        outs.append((s, none(rty) if x is None else some(rty, (pair_ref if ismap else ref_to)(x))))
    return outs


@reg("core::slice::<impl [T]>::first", "indexmap::IndexMap::first", "indexmap::IndexSet::first")
def first_(I_, st, args, info, rty, site):
    v = I_.strip(st, args[0])
    if v[0] == "A":
        return named_elem(I_, st, v, rty, "first")
    return first_last(I_, st, args, rty, False)


@reg("core::slice::<impl [T]>::last", "core::slice::<impl [T]>::last_mut", "core::slice::<impl [T]>::first_mut", "indexmap::IndexMap::last")
def last_(I_, st, args, info, rty, site):
    v = I_.strip(st, args[0])
    if v[0] == "A":
        return named_elem(I_, st, v, rty, "last")
    return first_last(I_, st, args, rty, True)


def named_elem(I_, st, v, rty, which):
    nm = v[1] if isinstance(v[1], str) else repr(v[1])
    mt = map_tys(I_, v)
    s2 = st.copy()
    outs = []
    c = ("op", "Eq", ("op", "len", v), I(0))
    if I_.assume(st, c, True, frozenset([0])):
        if mt:
            x = ("v", None, 0, (ref_to(I_.atom("%s#%s.key" % (nm, which), mt[0])), ref_to(I_.atom("%s#%s.val" % (nm, which), mt[1]))))
        else:
            x = ref_to(I_.atom("%s#%s" % (nm, which), elem_ty(I_, v)))
        outs.append((st, some(rty, x)))
    if I_.assume(s2, c, True, frozenset([1])):
        outs.append((s2, none(rty)))
    return outs


def opt_inner_pointee(I_, rty):
    if rty is None:
        return None
    t = I_.T[rty]
    if t["k"] == "adt" and t["args"]:
        a = t["args"][0]
        if I_.T[a]["k"] == "ref":
            return I_.T[a]["e"]
        return a
    return None


@reg("core::slice::<impl [T]>::get", "core::slice::<impl [T]>::get_mut")
def slice_get(I_, st, args, info, rty, site):
    v = I_.strip(st, args[0])
    i = I_.norm(st, args[1])
    items = items_of(I_, st, v)
    if i[0] == "i" and all(x[0] == "1" for x in items):
        if i[1] < len(items):
            return [(st, some(rty, ref_to(items[i[1]][1])))]
        return [(st, none(rty))]
    if i[0] == "v":
        r = subseq(I_, items, i)
        if r is not None:
            return [(st, some(rty, K(("q", r[1]))))]
    s2 = st.copy()
    nm = v[1] if v[0] == "A" and isinstance(v[1], str) else repr(v)
    x = I_.atom(nm + "[%s]" % (i[1] if i[0] == "i" else repr(i)), opt_inner_pointee(I_, rty))
    if all(y[0] == "1" for y in items) and len(items) <= 6 and items:
        outs = [(s2, none(rty))]
        for k, y in enumerate(items):
            s3 = st.copy()
            if I_.assume(s3, i, True, frozenset([k])):
                outs.append((s3, some(rty, ref_to(y[1]))))
        return outs
    c = ("op", "Lt", i, I_.length(st, v))
    outs = []
    if I_.assume(st, c, True, frozenset([1])):
        outs.append((st, some(rty, ref_to(x))))
    if I_.assume(s2, c, True, frozenset([0])):
        outs.append((s2, none(rty)))
    return outs


def out_of_range(I_, its, i):
    """a range of known ends lies outside a sequence of known length"""
    rb = range_bounds(I_, i)
    if len(rb) != 2 or not all(x[0] == "1" for x in its):
        return False
    a, b = [x[1] if x is not None and x[0] == "i" else x for x in rb]
    n = len(its)
    return (isinstance(a, int) and (a > n or isinstance(b, int) and a > b)) or (isinstance(b, int) and b > n)


@reg("std::ops::Index::index", "std::ops::IndexMut::index_mut")
def index_(I_, st, args, info, rty, site):
    v = I_.strip(st, args[0])
    i = I_.strip(st, args[1])
    i = I_.norm(st, i)
    if i[0] == "v" and (i[1] is None or "Range" in I_.T[i[1]]["n"]):
        if v[0] == "s":
            rb = range_bounds(I_, i)
            if len(rb) == 2 and rb == (None, None):
                return [(st, K(v))]
            return [(st, K(("op", "substr", v) + tuple(x or UNIT for x in rb)))]
        if v[0] in ("A", "op"):
            rb = range_bounds(I_, i)
            if rb == (None, None):
                return [(st, args[0])]
            return [(st, ref_to(("A", ("slice", v[1] if v[0] == "A" else v) + tuple(x or UNIT for x in rb), v[2] if v[0] == "A" else None)))]
        its = items_of(I_, st, v)
        if I_.unroll and out_of_range(I_, its, i):
            I_.panics.append((I_.m.by_index[site[0]], site[1], ("bounds", "slice"), st))
            return []
        r = subseq(I_, its, i)
        if r is not None:
            return [(st, K(("q", r[1])))]
        return [(st, K(("op", "slice", v, i)))]
    if I_.unroll and i[0] == "i" and v[0] == "q" and all(x[0] == "1" for x in v[1]) and i[1] >= len(v[1]):
        I_.panics.append((I_.m.by_index[site[0]], site[1], ("bounds", "index"), st))
        return []
    if v[0] == "m" or map_tys(I_, v):
        outs = []
        for s, x in map_lookup(I_, st, v, i, None):
            if x is not None:
                outs.append((s, x))
        return outs
    root, path, v = target(I_, st, args[0])
    return [(st, ("r", root, path + ((("x", i[1]) if i[0] == "i" else ("xs", i)),)))]


@reg("std::boxed::Box::new", "std::sync::Arc::new", "std::rc::Rc::new", "std::boxed::Box::pin")
def box_new(I_, st, args, info, rty, site):
    if I_.shared and not info["d"].startswith("std::boxed"):
        I_.narc += 1
        root = ("H", "arc", I_.narc)
        st.store[root] = args[0]
        return [(st, ("r", root, ()))]
    return [(st, ("b", args[0]))]


@reg("std::boxed::Box::new_uninit")
def box_uninit(I_, st, args, info, rty, site):
    return [(st, ("b", UNDEF))]


@reg("std::boxed::box_assume_init_into_vec_unsafe", "std::slice::<impl [T]>::into_vec", "std::boxed::Box::assume_init")
def box_into_vec(I_, st, args, info, rty, site):
    v = args[0]
    if v[0] == "b":
        v = v[1]
    while v[0] == "v" and v[1] is None and len(v[3]) >= 1 and v[3][-1][0] in ("v",) and any(x == UNDEF for x in v[3][:-1]) or \
            (v[0] == "v" and v[1] is None and len(v[3]) == 1 and v[3][0][0] == "v" and v[3][0][1] is None and v is not None and getattr(I_, "_never", False)):
        v = v[3][-1]
    if v[0] == "v" and v[1] is None and len(v[3]) == 1 and v[3][0][0] == "v" and v[3][0][1] is None:
        v = v[3][0]
    return [(st, ("q", items_of(I_, st, v)))]


@reg("std::ops::Deref::deref", "std::ops::DerefMut::deref_mut", "std::convert::AsRef::as_ref", "std::borrow::Borrow::borrow",
     "std::vec::Vec::as_slice", "std::string::String::as_str", "std::string::String::as_bytes", "std::vec::Vec::as_mut_slice",
     "std::convert::AsMut::as_mut", "std::boxed::Box::as_ref", "std::boxed::Box::as_mut", "core::str::<impl str>::as_bytes",
     "std::ops::Deref::deref", "core::str::<impl str>::as_str")
def deref_(I_, st, args, info, rty, site):
    a = args[0]
    if info["d"].endswith("as_bytes"):
        if a[0] == "r" and a[1][0] == "K" and not a[2]:
            us = units(I_, st, I_.strip(st, a))
            if us is not None:
                return [(st, K(("q", tuple(("1", u) for u in us))))]
        return [(st, a)]
    root, path = I_.deref(st, a)
    v = I_.read(st, root, path)
    if v[0] == "v" and v[1] is not None and I_.T[v[1]].get("d") == "std::borrow::Cow" and len(v[3]) == 1:
        if v[2] == 0:
            return [(st, v[3][0] if v[3][0][0] in ("r", "A") else ("r", root, path + (("d", 0), ("f", 0, None))))]
        return [(st, ("r", root, path + (("d", 1), ("f", 0, I_.T[v[1]]["v"][1]["f"][0][1]))))]
    if v[0] == "r":
        return [(st, v)]
    if v[0] == "b":
        return [(st, ("r", root, path + (("b",),)))]
    if v[0] == "A" and I_.is_ptr_adt(v[2]) is not None:
        r2, p2 = I_.deref(st, v)
        return [(st, ("r", r2, p2))]
    return [(st, ("r", root, path))]


@reg("std::cell::RefCell::new", "std::cell::Cell::new")
def cell_new(I_, st, args, info, rty, site):
    return [(st, ("v", rty, 0, (args[0],)))]


@reg("std::cell::RefCell::borrow", "std::cell::RefCell::borrow_mut", "std::cell::RefCell::get_mut", "std::cell::Cell::as_ptr")
def cell_borrow(I_, st, args, info, rty, site):
    root, path = I_.deref(st, args[0])
    v = I_.read(st, root, path)
    while v[0] in ("r", "b") or (v[0] == "A" and I_.is_ptr_adt(v[2]) is not None):
        if v[0] == "b":
            path = path + (("b",),)
        else:
            root, path = I_.deref(st, v)
        v = I_.read(st, root, path)
    return [(st, ("r", root, path + (("cell",),)))]


@reg("std::cell::Cell::get", "std::cell::RefCell::into_inner", "std::cell::Cell::into_inner")
def cell_get(I_, st, args, info, rty, site):
    a = args[0]
    if a[0] == "v":
        return [(st, a[3][0])]
    root, path = I_.deref(st, a)
    v = I_.read(st, root, path + (("cell",),))
    if v[0] == "A":
        v = I_.norm(st, v)
    return [(st, v)]


@reg("std::cell::Cell::set")
def cell_set(I_, st, args, info, rty, site):
    root, path = I_.deref(st, args[0])
    I_.write(st, root, path + (("cell",),), args[1])
    return [(st, UNIT)]


@reg("std::cell::Ref::map", "std::cell::RefMut::map")
def ref_map(I_, st, args, info, rty, site):
    return I_.call_value(st, args[1], [args[0]], site)


@reg("std::sync::Arc::try_unwrap", "std::rc::Rc::try_unwrap")
def try_unwrap(I_, st, args, info, rty, site):
    return [(st, ok(rty, I_.strip(st, args[0])))]


@reg("std::sync::Arc::ptr_eq")
def ptr_eq(I_, st, args, info, rty, site):
    if I_.shared:
        a, b = args
        while a[0] == "r" and not (a[1][0] == "H" and a[1][1] == "arc" and not a[2]):
            a = I_.read(st, a[1], a[2])
        while b[0] == "r" and not (b[1][0] == "H" and b[1][1] == "arc" and not b[2]):
            b = I_.read(st, b[1], b[2])
        if a[0] == b[0] == "r":
            return [(st, I(int(a == b)))]
    return [(st, ("op", "Eq", I_.resolve(st, args[0], 2), I_.resolve(st, args[1], 2)))]


@reg("std::sync::Arc::as_ptr")
def as_ptr(I_, st, args, info, rty, site):
    """the address of a shared cell: a number that tells it from the others"""
    if I_.shared:
        a = args[0]
        while a[0] == "r" and not (a[1][0] == "H" and a[1][1] == "arc" and not a[2]):
            a = I_.read(st, a[1], a[2])
        if a[0] == "r" and not a[2] and isinstance(a[1][2], int):
            return [(st, I(4096 + 64 * a[1][2]))]
    return None


@reg("std::clone::Clone::clone", "std::borrow::ToOwned::to_owned", "std::slice::<impl [T]>::to_vec", "std::string::String::from",
     "std::option::Option::cloned", "std::option::Option::copied")
def clone_(I_, st, args, info, rty, site):
    a = args[0]
    d = info["d"]
    if d.endswith("::cloned") or d.endswith("::copied"):
        return None
    if d.endswith("String::from"):
        v = I_.strip(st, a)
        return [(st, v)]
    v = I_.load(st, a)
    if d.endswith("to_vec"):
        return [(st, ("q", items_of(I_, st, I_.strip(st, v))))]
    if v[0] == "r" and rty is not None and I_.T[rty]["k"] == "adt" and I_.T[rty]["d"].endswith("string::String"):
        v = I_.strip(st, v)
    return [(st, v)]


@reg("std::convert::Into::into", "std::convert::From::from")
def into_(I_, st, args, info, rty, site):
    a = args[0]
    t = I_.T[rty] if rty is not None else None
    if t and t["k"] == "adt" and a[0] == "v" and a[1] == rty:
        return [(st, a)]
    if I_.shared and t:
        ta = info.get("ta") or []
        if not hasattr(I_.m, "from_impls"):
            I_.m.from_impls = {(f.locals[1], f.locals[0]): f for f in I_.m.fns.values() if f.local and f.argc == 1 and f.d.endswith("::from")}
        for src in ta:
            f = I_.m.from_impls.get((src, rty))
            if f is not None and f not in [x.fn for x in I_.stack]:
                return I_.enter(f, [a], st, site, info)
    if t and t["k"] == "adt":
        last = t["d"].rsplit("::", 1)[-1]
        if last == "String":
            return [(st, I_.strip(st, a))]
        if last in ("Arc", "Rc") and I_.shared:
            return box_new(I_, st, [a if a[0] != "b" else a[1]], {"d": "std::sync::Arc::new"}, rty, site)
        if last in ("Box", "Arc", "Rc"):
            v = I_.strip(st, a)
            return [(st, ("b", a if a[0] != "r" else v))]
        if last in ("RefCell", "Cell"):
            return [(st, ("v", rty, 0, (a,)))]
        if last == "Option":
            return [(st, some(rty, a))]
        if last in ("Vec", "PathBuf"):
            v = I_.strip(st, a)
            return [(st, v if v[0] == "A" else ("q", items_of(I_, st, v)))] if last == "Vec" else [(st, v)]
    if t and t["k"] in ("int", "uint"):
        return [(st, a)]
    return None


# ------------------------------------------------------------------ maps --
def keys_eq(I_, a, b):
    """True/False/None(unknown)"""
    if a == b:
        return True
    if a[0] == "s" and b[0] == "s" and all(isinstance(p, str) for p in a[1] + b[1]):
        return "".join(a[1]) == "".join(b[1])
    if a[0] == "i" and b[0] == "i":
        return a[1] == b[1]
    return None


def map_lookup(I_, st, v, key, rty):
    """-> [(state, ref|None)]"""
    key = I_.strip(st, key)
    key = deep_key(I_, st, key)
    if v[0] == "m":
        unknown = False
        for it in reversed(v[1]):
            if it[0] == "1" and it[1][0] == "v":
                e = keys_eq(I_, deep_key(I_, st, it[1][3][0]), key)
                if e is True:
                    return [(st, ref_to(it[1][3][1]))]
                if e is None:
                    unknown = True
            else:
                unknown = True
                if it[0] == "*":
                    for g, xs in it[2]:
                        for x in xs:
                            if x[0] == "1" and x[1][0] == "v" and keys_eq(I_, deep_key(I_, st, x[1][3][0]), key) is True:
                                pass
        if not unknown:
            return [(st, None)]
        nm = "map"
        name = "lookup(%s)" % (kname(key),)
    else:
        nm = v[1] if v[0] == "A" and isinstance(v[1], str) else repr(v)
        name = "%s{%s}" % (nm, kname(key))
    vt = None
    mt = map_tys(I_, v)
    if mt:
        vt = mt[1]
    elif rty is not None:
        vt = opt_inner_pointee(I_, rty)
    c = ("op", "contains_key", v if v[0] == "A" else ("A", nm, None), key)
    s2 = st.copy()
    outs = []
    if I_.assume(st, c, True, frozenset([1])):
        outs.append((st, ref_to(I_.atom(name, vt)) if vt is not None else K(("A", name, None))))
    if I_.assume(s2, c, True, frozenset([0])):
        outs.append((s2, None))
    return outs


def deep_key(I_, st, k):
    return I_.resolve(st, k, 3)


def kname(k):
    if k[0] == "A" and isinstance(k[1], str):
        return k[1]
    if k[0] == "s":
        return '"%s"' % "".join(p if isinstance(p, str) else kname(p[1]) if p[0] == "disp" else repr(p) for p in k[1])
    return repr(k)


@reg("indexmap::IndexMap::get", "std::collections::HashMap::get", "indexmap::IndexMap::get_mut", "std::collections::HashMap::get_mut")
def map_get(I_, st, args, info, rty, site):
    v = I_.strip(st, args[0])
    return [(s, none(rty) if x is None else some(rty, x)) for s, x in map_lookup(I_, st, v, args[1], rty)]


@reg("indexmap::IndexMap::contains_key", "std::collections::HashMap::contains_key")
def map_contains(I_, st, args, info, rty, site):
    v = I_.strip(st, args[0])
    return [(s, I(0 if x is None else 1)) for s, x in map_lookup(I_, st, v, args[1], None)]


@reg("indexmap::IndexMap::insert", "std::collections::HashMap::insert", "indexmap::IndexMap::insert_full")
def map_insert(I_, st, args, info, rty, site):
    root, path, v = target(I_, st, args[0])
    outs = []
    key = args[1]
    pair = ("v", None, 0, (key, args[2]))
    for s, x in map_lookup(I_, st, v, key, None):
        its = items_of(I_, s, v)
        if x is not None and v[0] == "m":
            # the entry keeps its place
            k2 = deep_key(I_, s, key)
            hit = [y[0] == "1" and y[1][0] == "v" and keys_eq(I_, deep_key(I_, s, y[1][3][0]), k2) is True for y in its]
            if any(hit):
                x = K(I_.load(s, x))
                its = tuple(("1", pair) if h else y for h, y in zip(hit, its))
                I_.write(s, root, path, ("m", its))
                outs.append((s, UNIT if rty is None or I_.T[rty]["k"] != "adt" else some(rty, I_.load(s, x))))
                continue
        I_.write(s, root, path, ("m", its + (("1", pair),)))
        if rty is None or I_.T[rty]["k"] != "adt":
            outs.append((s, UNIT))
        else:
            outs.append((s, none(rty) if x is None else some(rty, I_.load(s, x))))
    return outs


@reg("indexmap::IndexMap::remove", "std::collections::HashMap::remove", "indexmap::IndexMap::shift_remove", "indexmap::IndexMap::swap_remove")
def map_remove(I_, st, args, info, rty, site):
    root, path, v = target(I_, st, args[0])
    outs = []
    for s, x in map_lookup(I_, st, v, args[1], rty):
        if x is not None and v[0] == 'm':
            k2 = deep_key(I_, s, I_.strip(s, args[1]))
            x = I_.load(s, x)
            I_.write(s, root, path, ("m", tuple(y for y in items_of(I_, s, v) if not (y[0] == "1" and y[1][0] == "v" and keys_eq(I_, deep_key(I_, s, y[1][3][0]), k2) is True))))
            outs.append((s, some(rty, x)))
            continue
        outs.append((s, none(rty) if x is None else some(rty, I_.load(s, x))))
    return outs


@reg("indexmap::IndexSet::contains", "std::collections::HashSet::contains", "core::slice::<impl [T]>::contains")
def set_contains(I_, st, args, info, rty, site):
    v = I_.strip(st, args[0])
    key = deep_key(I_, st, I_.strip(st, args[1]))
    unknown = v[0] not in ("q", "v")
    for it in items_of(I_, st, v):
        if it[0] == "1":
            e = keys_eq(I_, deep_key(I_, st, it[1]), key)
            if e:
                return [(st, I(1))]
            if e is None:
                unknown = True
        else:
            unknown = True
    if not unknown:
        return [(st, I(0))]
    return [(st, ("op", "contains", I_.resolve(st, v, 2), key))]


@reg("indexmap::IndexSet::insert", "std::collections::HashSet::insert")
def set_insert(I_, st, args, info, rty, site):
    root, path, v = target(I_, st, args[0])
    outs = []
    for s, r in set_contains(I_, st, [args[0], K(args[1])], info, rty, site):
        for s2, b in split_bool(I_, s, r):
            if not b:
                I_.write(s2, root, path, ("q", items_of(I_, s2, v) + (("1", args[1]),)))
            outs.append((s2, I(0 if b else 1)))
    return outs


@reg("indexmap::IndexSet::remove", "std::collections::HashSet::remove", "indexmap::IndexSet::swap_remove", "indexmap::IndexSet::shift_remove")
def set_remove(I_, st, args, info, rty, site):
    root, path, v = target(I_, st, args[0])
    outs = []
    key = deep_key(I_, st, I_.strip(st, args[1]))
    for s, r in set_contains(I_, st, args, info, rty, site):
        for s2, b in split_bool(I_, s, r):
            if b and v[0] == 'q':
                I_.write(s2, root, path, ("q", tuple(y for y in items_of(I_, s2, v) if not (y[0] == "1" and keys_eq(I_, deep_key(I_, s2, y[1]), key) is True))))
            outs.append((s2, I(1 if b else 0)))
    return outs


# ------------------------------------------------------------------ slices --
@reg("core::slice::<impl [T]>::windows", "core::slice::<impl [T]>::chunks", "core::slice::<impl [T]>::chunks_exact")
def windows_(I_, st, args, info, rty, site):
    v = I_.strip(st, args[0])
    nm = info["d"].rsplit("::", 1)[-1]
    name = "%s(%s)" % (nm, v[1] if v[0] == "A" else repr(v))
    n = args[1]
    ety = None
    if v[0] == "q" and n[0] == "i" and n[1] > 0 and all(x[0] == "1" for x in v[1]):
        xs, k = v[1], n[1]
        if nm == "windows":
            parts = [xs[i:i + k] for i in range(len(xs) - k + 1)]
        else:
            parts = [xs[i:i + k] for i in range(0, len(xs), k) if nm == "chunks" or i + k <= len(xs)]
        return [(st, ("it", tuple(("1", K(("q", tuple(q)))) for q in parts)))]
    if v[0] == "A":
        ety = v[2]
    if n[0] == "i" and v[0] == "A":
        e = elem_ty(I_, v)
        el = K(("v", None, 0, tuple(I_.atom("%s[].%d" % (name, i), e) for i in range(n[1]))))
        return [(st, ("it", (("*", name, frozenset([(EMPTY, (("1", el),))])),)))]
    return [(st, ("it", (("*", name, frozenset([(EMPTY, (("1", ("A", name + "[]", ety)),))])),)))]


@reg("std::slice::<impl [T]>::sort", "std::vec::Vec::dedup", "core::slice::<impl [T]>::sort_unstable", "std::vec::Vec::retain", "core::slice::<impl [T]>::sort_by_key",
     "std::slice::<impl [T]>::sort_by_key")
def sort_(I_, st, args, info, rty, site):
    nm = info["d"].rsplit("::", 1)[-1]
    root, path, v = target(I_, st, args[0])
    its = items_of(I_, st, v)
    if its:
        its = tuple(("*", "%s(%s)" % (nm, x[1]), x[2]) if x[0] == "*" else x for x in its)
    I_.write(st, root, path, ("q", its))
    return [(st, UNIT)]


@reg("core::slice::<impl [T]>::reverse")
def reverse_(I_, st, args, info, rty, site):
    root, path, v = target(I_, st, args[0])
    I_.write(st, root, path, ("q", rev_items(items_of(I_, st, v))))
    return [(st, UNIT)]


@reg("std::slice::<impl [T]>::join", "std::slice::<impl [T]>::concat")
def join_(I_, st, args, info, rty, site):
    v = I_.strip(st, args[0])
    sep = I_.strip(st, args[1]) if len(args) > 1 else ("s", ())
    items = items_of(I_, st, v)
    if all(x[0] == "1" for x in items):
        parts = []
        for i, x in enumerate(items):
            if i:
                parts.extend(sep[1])
            parts.extend(to_parts(I_, st, x[1]))
        return [(st, S(*parts))]
    return [(st, ("s", (("join", sep, I_.resolve(st, ("q", items), 4)),)))]


# ------------------------------------------------------------------ strings --
def to_parts(I_, st, v):
    v = I_.strip(st, v)
    if v[0] == "s":
        return v[1]
    if v[0] == "id":
        return v[1]
    if v[0] == "i":
        return (str(v[1]),)
    if v[0] == "v" and len(v[3]) == 1:
        return to_parts(I_, st, v[3][0])
    return (("disp", v),)


def disp(I_, st, v, tyname=None, trait="Display"):
    """[(state, parts)] text of a value under Display/Debug"""
    v = I_.strip(st, v)
    if v[0] in ("s", "id"):
        if trait == "Debug":
            return [(st, ('"',) + v[1] + ('"',))] if all(isinstance(p, str) for p in v[1]) else [(st, (("dbg", v),))]
        return [(st, v[1])]
    if v[0] == "i":
        return [(st, (chr(v[1]) if tyname == "char" else str(v[1]),))]
    if v[0] in ("v", "A") and (v[0] != "v" or v[1] is not None):
        ty = v[1] if v[0] == "v" else v[2]
        n = I_.T[ty]["n"] if ty is not None else None
        if n is not None and I_.T[ty]["k"] == "adt":
            f = find_impl(I_, "std::fmt::" + trait, n)
            if f is None and v[0] == "v" and not v[3] and I_.T[ty].get("crate") == "protospec_build":
                f = local_fmt(I_, trait, n)
            if f is not None and trait == "Display" and not any(fr.fn is f for fr in I_.stack):
                root = ("H", "fmt", len(I_.stack))
                st.store[root] = ("s", ())
                outs = []
                for s, r in I_.call_fn(f, [K(v), ("r", root, ())], st, ("disp",)):
                    p = s.store.pop(root)
                    outs.append((s, p[1]))
                return outs
        if v[0] == "v" and len(v[3]) == 1 and n is not None and I_.T[ty].get("crate") != "protospec_build":
            return disp(I_, st, v[3][0], tyname, trait)
        if v[0] == "v" and n is not None and "IdentFragmentAdapter" in n:
            return disp(I_, st, v[3][0], tyname, trait)
    return [(st, (("disp" if trait == "Display" else "dbg", I_.resolve(st, v, 4)),))]


def local_fmt(I_, trait, n):
    key = ("fmt", trait, n)
    if key not in _cache:
        _cache[key] = None
        for f in I_.m.fns.values():
            if f.local and f.name.endswith("fmt::%s>::fmt" % trait) and f.name.split(" as ")[0].endswith(n.split("::")[-1]) \
                    and f.name.split(" as ")[0].split("::")[-1].lstrip("<") == n.split("::")[-1]:
                _cache[key] = f
    return _cache[key]


def find_impl(I_, trait, selfname):
    for imp in I_.m.impls:
        if imp["trait"] == trait and imp["self"] == selfname and imp["m"]:
            return I_.m.fns.get(imp["m"][0][1])
    return None


@reg("core::fmt::rt::Argument::new_display", "core::fmt::rt::Argument::new_debug", "core::fmt::rt::Argument::new_lower_hex",
     "core::fmt::rt::Argument::new_upper_hex")
def new_display(I_, st, args, info, rty, site):
    d = info["d"]
    tyn = None
    if info.get("ta"):
        tyn = I_.T[info["ta"][0]]["n"]
    if "hex" in d:
        v = I_.strip(st, args[0])
        return [(st, ("s", (("hex", v),)))]
    return [(s, ("s", p)) for s, p in disp(I_, st, args[0], tyn, "Debug" if d.endswith("debug") else "Display")]


@reg("std::fmt::Arguments::new", "std::fmt::Arguments::from_str", "std::fmt::Arguments::from_str_nonconst",
     "std::fmt::Arguments::new_const", "std::fmt::Arguments::new_v1")
def arguments_new(I_, st, args, info, rty, site):
    t = I_.strip(st, args[0])
    if t[0] == "s":
        return [(st, t)]
    if t[0] == "v":
        tmpl = [x[1] for x in t[3]]
    elif t[0] == "q":
        tmpl = [x[1][1] for x in t[1]]
    else:
        return [(st, ("s", (("fmt?", t),)))]
    av = I_.strip(st, args[1])
    avs = [x[1] for x in items_of(I_, st, av)] if len(args) > 1 else []
    parts = []
    i = 0
    nxt = 0
    while i < len(tmpl):
        n = tmpl[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            parts.append(bytes(tmpl[i:i + n]).decode("utf8", "replace"))
            i += n
        elif n == 0x80:
            ln = tmpl[i] | tmpl[i + 1] << 8
            i += 2
            parts.append(bytes(tmpl[i:i + ln]).decode("utf8", "replace"))
            i += ln
        else:
            spec = ""
            idx = nxt
            if n & 1:
                spec += "f%s" % tmpl[i:i + 4]
                i += 4
            if n & 2:
                spec += "w%s" % tmpl[i:i + 2]
                i += 2
            if n & 4:
                spec += "p%s" % tmpl[i:i + 2]
                i += 2
            if n & 8:
                idx = tmpl[i] | tmpl[i + 1] << 8
                i += 2
            nxt = idx + 1
            a = avs[idx] if idx < len(avs) else ("s", (("arg?", idx),))
            a = I_.strip(st, a)
            ap = a[1] if a[0] == "s" else (("disp", a),)
            if spec:
                parts.append(("spec", spec, ap))
            else:
                parts.extend(ap)
    return [(st, S(*parts))]


@reg("std::fmt::format", "std::hint::must_use", "std::fmt::Arguments::as_str")
def fmt_format(I_, st, args, info, rty, site):
    return [(st, args[0])]


def append_str(I_, st, f, parts, rty):
    root, path, v = target(I_, st, f)
    while v[0] == "v" and len(v[3]) and v[3][0][0] == "r":
        root, path, v = target(I_, st, v[3][0])
    cur = v[1] if v[0] == "s" else (("disp", v),)
    I_.write(st, root, path, S(*(cur + tuple(parts))))
    return [(st, ok(rty, UNIT))]


@reg("std::fmt::Formatter::write_str", "std::fmt::Write::write_str")
def write_str(I_, st, args, info, rty, site):
    return append_str(I_, st, args[0], to_parts(I_, st, args[1]), rty)


@reg("std::fmt::Formatter::write_fmt", "std::fmt::Write::write_fmt")
def write_fmt(I_, st, args, info, rty, site):
    return append_str(I_, st, args[0], to_parts(I_, st, args[1]), rty)


@reg("std::fmt::Formatter::write_char", "std::fmt::Write::write_char")
def write_char(I_, st, args, info, rty, site):
    c = args[1]
    return append_str(I_, st, args[0], (chr(c[1]),) if c[0] == "i" else (("char", c),), rty)


@reg("indenter::indented")
def indented_(I_, st, args, info, rty, site):
    return [(st, args[0])]


@reg("std::string::ToString::to_string")
def to_string(I_, st, args, info, rty, site):
    return [(s, S(*p)) for s, p in disp(I_, st, args[0])]


@reg("std::string::String::push_str", "std::string::String::push")
def push_str(I_, st, args, info, rty, site):
    root, path, v = target(I_, st, args[0])
    cur = v[1] if v[0] == "s" else (("disp", v),)
    c = args[1]
    if info["d"].endswith("::push"):
        p = (chr(c[1]),) if c[0] == "i" else (("char", c),)
    else:
        p = to_parts(I_, st, c)
    I_.write(st, root, path, S(*(cur + tuple(p))))
    return [(st, UNIT)]


@reg("std::str::<impl str>::to_uppercase", "std::str::<impl str>::to_lowercase", "case::CaseExt::to_snake", "case::CaseExt::to_camel",
     "std::str::<impl str>::to_ascii_lowercase", "core::str::<impl str>::trim")
def str_fn(I_, st, args, info, rty, site):
    v = I_.strip(st, args[0])
    nm = info["d"].rsplit("::", 1)[-1]
    if v[0] == "s" and all(isinstance(p, str) for p in v[1]):
        t = "".join(v[1])
        if nm == "to_uppercase":
            t = t.upper()
        elif nm == "to_lowercase":
            t = t.lower()
        elif nm == "trim":
            t = t.strip()
        elif nm == "to_ascii_lowercase":
            t = "".join(ch.lower() if ch.isascii() else ch for ch in t)
        elif nm == "to_snake" and t.isascii() and all(ch.islower() or ch.isdigit() or ch == "_" for ch in t):
            pass
        else:
            return [(st, S((nm, v)))]
        r = S(t)
        return [(st, r if nm != "trim" else K(r))]
    r = S((nm, v))
    return [(st, K(r) if nm == "trim" else r)]


def lit(I_, st, a):
    v = I_.strip(st, a)
    return "".join(v[1]) if v[0] == "s" and all(isinstance(p, str) for p in v[1]) else None


def int_of_text(rty, I_, txt, radix):
    t = I_.T[I_.T[rty]["args"][0]]
    if t["k"] not in ("int", "uint"):
        return None
    import re
    body = txt[1:] if txt[:1] == "+" or (txt[:1] == "-" and t["k"] == "int") else txt
    digits = "0123456789abcdefghijklmnopqrstuvwxyz"[:radix]
    if not body or any(ch not in digits for ch in body.lower()):
        return err(rty, ("A", "parse error", None))
    v = int(body, radix) * (-1 if txt[:1] == "-" else 1)
    w = t["bits"]
    lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if t["k"] == "int" else (0, (1 << w) - 1)
    return ok(rty, I(v)) if lo <= v <= hi else err(rty, ("A", "parse error", None))


@reg("core::str::<impl str>::parse", *["core::num::<impl %s%d>::from_str_radix" % (k, w) for k in "ui" for w in (8, 16, 32, 64, 128)])
def parse_(I_, st, args, info, rty, site):
    t = lit(I_, st, args[0])
    r = I(10) if len(args) < 2 else I_.resolve(st, args[1], 2)
    if t is None and r[0] == "i":
        us = units(I_, st, I_.strip(st, args[0]))
        ty = I_.T[I_.T[rty]["args"][0]]
        dig = frozenset(b"0123456789abcdefghijklmnopqrstuvwxyz"[:r[1]] + b"ABCDEFGHIJKLMNOPQRSTUVWXYZ"[:max(r[1] - 10, 0)])
        if us and ty["k"] == "uint" and r[1] ** len(us) <= 1 << ty["bits"] and \
                all(u[1] in dig if u[0] == "i" else byte_within(st, u, dig) for u in us):
            return [(st, ok(rty, ("op", "radix", ("q", tuple(("1", u) for u in us)), r)))]
    if t is None or r[0] != "i":
        return None
    v = int_of_text(rty, I_, t, r[1])
    return None if v is None else [(st, v)]


@reg("core::str::<impl str>::starts_with", "core::str::<impl str>::ends_with", "core::str::<impl str>::contains")
def starts_with(I_, st, args, info, rty, site):
    v = I_.strip(st, args[0])
    p = I_.strip(st, args[1])
    nm = info["d"].rsplit("::", 1)[-1]
    if v[0] == "s" and p[0] == "s" and all(isinstance(x, str) for x in v[1] + p[1]):
        a, b = "".join(v[1]), "".join(p[1])
        return [(st, I({"starts_with": a.startswith(b), "ends_with": a.endswith(b), "contains": b in a}[nm]))]
    return [(st, ("op", "pred", nm, v, p))]


# ------------------------------------------------------------------ equality --
def concrete(v):
    if v[0] in ("A", "op", "undef", "r", "hole"):
        return False
    if v[0] == "s":
        return all(isinstance(p, str) for p in v[1])
    if v[0] == "v":
        return all(concrete(x) for x in v[3])
    if v[0] == "q":
        return all(x[0] == "1" and concrete(x[1]) for x in v[1])
    if v[0] == "b":
        return concrete(v[1])
    return v[0] == "i"


def units(I_, st, v):
    """bytes of a text or byte sequence whose length is known"""
    if v[0] == "s":
        out = []
        for p in v[1]:
            if isinstance(p, str):
                out += [I(x) for x in p.encode()]
            elif p[0] == "byte":
                out.append(p[1])
            else:
                return None
        return out
    if v[0] == "q":
        out = []
        for it in v[1]:
            if it[0] != "1" or it[1][0] not in ("i", "A"):
                return None
            if it[1][0] == "A" and (it[1][2] is None or I_.T[it[1][2]]["k"] not in ("uint",)):
                return None
            out.append(it[1])
        return out
    return None


def text_of(us):
    out, cur = [], b""
    for u in us:
        if u[0] == "i":
            cur += bytes([u[1]])
        else:
            if cur:
                out.append(cur.decode("utf8"))
            cur = b""
            out.append(("byte", u))
    if cur:
        out.append(cur.decode("utf8"))
    return ("s", tuple(out))


@reg("std::string::String::from_utf8", "std::string::String::from_utf8_lossy", "std::str::from_utf8", "core::str::from_utf8", "core::str::converts::from_utf8",
     "std::str::converts::from_utf8")
def from_utf8_(I_, st, args, info, rty, site):
    us = units(I_, st, I_.resolve(st, I_.strip(st, args[0]), 5))
    nm = info["d"].rsplit("::", 1)[-1]
    if us is None:
        return None
    known = all(u[0] == "i" for u in us)
    ascii_ = all(u[1] < 128 if u[0] == "i" else byte_within(st, u, range(128)) for u in us)
    try:
        t = text_of(us)
    except UnicodeDecodeError:
        if not known:
            return None
        if nm == "from_utf8":
            return [(st, err(rty, ("A", "not utf8", None)))]
        t = S(bytes(u[1] for u in us).decode("utf8", "replace"))
    if not known and not ascii_:
        if nm == "from_utf8":
            s2 = st.copy()
            return [(st, ok(rty, t if "String" in info["d"] else K(t))), (s2, err(rty, ("A", "not utf8", None)))]
        return [(st, K(t))]
    if nm == "from_utf8":
        return [(st, ok(rty, t if "String" in info["d"] else K(t)))]
    return [(st, ("v", rty, 1, (t,)) if I_.T[rty].get("d") == "std::borrow::Cow" else K(t))]


def byte_within(st, u, r):
    f = st.facts.get(u[1])
    if f is None:
        return False
    al = f[1] if f[0] else set(range(256)) - f[1]
    return set(al) <= set(r)


ASCII = {
    "is_ascii_whitespace": b" \t\n\r\x0c", "is_ascii_digit": b"0123456789", "is_ascii_hexdigit": b"0123456789abcdefABCDEF",
    "is_ascii_alphabetic": bytes(range(65, 91)) + bytes(range(97, 123)), "is_ascii": bytes(range(128)),
    "is_ascii_alphanumeric": bytes(range(48, 58)) + bytes(range(65, 91)) + bytes(range(97, 123)),
    "is_ascii_uppercase": bytes(range(65, 91)), "is_ascii_lowercase": bytes(range(97, 123)), "is_ascii_graphic": bytes(range(33, 127)),
    "is_ascii_control": bytes(range(32)) + b"\x7f",
    "is_ascii_punctuation": bytes(x for x in range(33, 127) if not chr(x).isalnum()),
}


@reg(*["core::num::<impl u8>::" + k for k in ASCII], *["core::char::methods::<impl char>::" + k for k in ASCII], *["std::char::methods::<impl char>::" + k for k in ASCII])
def ascii_(I_, st, args, info, rty, site):
    v = I_.resolve(st, I_.strip(st, args[0]), 4)
    cls = frozenset(ASCII[info["d"].rsplit("::", 1)[-1]])
    if v[0] == "i":
        return [(st, I(1 if v[1] in cls else 0))]
    if v[0] == "A":
        outs = []
        for yes in (True, False):
            s2 = st.copy()
            if I_.assume(s2, v, yes, cls):
                if not yes or s2.facts.get(v[1], (True, {1}))[1]:
                    outs.append((s2, I(1 if yes else 0)))
        return outs
    return None


def eq_values(I_, st, a, b):
    """[(state, bool)] or symbolic op"""
    a = I_.resolve(st, a, 5)
    b = I_.resolve(st, b, 5)
    if a == b:
        return I(1)
    if concrete(a) and concrete(b):
        if "s" in (a[0], b[0]) and "q" in (a[0], b[0]):
            ua, ub = units(I_, st, a), units(I_, st, b)
            if ua is not None and ub is not None:
                return I(1 if ua == ub else 0)
        if a[0] == "q" or b[0] == "q":
            xa = [x[1] for x in items_of(I_, st, a)]
            xb = [x[1] for x in items_of(I_, st, b)]
            return I(1 if len(xa) == len(xb) and all(eq_values(I_, st, x, y) == I(1) for x, y in zip(xa, xb)) else 0)
        if a[0] == "v" and b[0] == "v":
            if a[2] != b[2] or len(a[3]) != len(b[3]):
                return I(0)
            rs = [eq_values(I_, st, x, y) for x, y in zip(a[3], b[3])]
            return I(1 if all(r == I(1) for r in rs) else 0)
        return I(0)
    ua, ub = units(I_, st, a), units(I_, st, b)
    if ua is not None and ub is not None:
        if len(ua) != len(ub):
            return I(0)
        res = I(1)
        for x, y in zip(ua, ub):
            if x == y:
                continue
            if x[0] == "i" and y[0] == "i":
                return I(0)
            r = ("op", "Eq", y, x) if x[0] == "i" else ("op", "Eq", x, y)
            res = r if res == I(1) else ("op", "and", res, r)
        return res
    if a[0] == "v" and b[0] == "A":
        a, b = b, a
    if a[0] == "A" and b[0] == "v" and not b[3] and a[2] is not None and I_.T[a[2]]["k"] == "adt" and I_.T[a[2]]["ak"] == "Enum":
        return ("op", "Eq", I_.discr(st, a), I(I_.vdisc(a[2], b[2])))
    if a[0] == "v" and b[0] == "v":
        if a[2] != b[2]:
            return I(0)
        # fieldwise
        res = I(1)
        for x, y in zip(a[3], b[3]):
            r = eq_values(I_, st, x, y)
            if r == I(0):
                return I(0)
            if r != I(1):
                res = r if res == I(1) else ("op", "and", res, r)
        return res
    if a[0] == "i":
        a, b = b, a
    return ("op", "Eq", a, b)


@reg("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne")
def eq_(I_, st, args, info, rty, site):
    r = eq_values(I_, st, args[0], args[1])
    if r[0] == "op" and r[1] == "Eq" and r[2][0] == "i" and r[3][0] == "i":
        r = I(r[2][1] == r[3][1])
    ne = info["d"].endswith("::ne")
    if I_.unroll and r[0] == "op" and r[1] == "and":
        return [(s, I(1 - x if ne else x)) for s, x in fork_and(I_, st, r)]
    if ne:
        r = I(1 - r[1]) if r[0] == "i" else ("op", "Not", r)
    return [(st, r)]


def fork_and(I_, st, r):
    """a conjunction decided conjunct by conjunct: [(state, 0 or 1)], the states exclude each other"""
    cs, work = [], [r]
    while work:
        x = work.pop()
        if x[0] == "op" and x[1] == "and":
            work += [x[3], x[2]]
        else:
            cs.append(x)
    outs = []
    for x in cs:
        s2 = st.copy()
        if I_.assume(s2, x, False, frozenset([1])):
            outs.append((s2, 0))
        if not I_.assume(st, x, True, frozenset([1])):
            return outs
    return outs + [(st, 1)]


@reg("std::cmp::PartialOrd::lt", "std::cmp::PartialOrd::le", "std::cmp::PartialOrd::gt", "std::cmp::PartialOrd::ge")
def cmp_(I_, st, args, info, rty, site):
    nm = {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[info["d"].rsplit("::", 1)[-1]]
    a, b = plain_key(I_, st, args[0]), plain_key(I_, st, args[1])
    if a is not None and b is not None and isinstance(a, tuple):
        return [(st, I(int({"Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}[nm])))]
    return [(st, I_.binop(st, nm, I_.strip(st, args[0]), I_.strip(st, args[1])))]


def plain_key(I_, st, v, depth=4):
    """a known integer, or tuple of them, as an ordered Python value"""
    v = I_.resolve(st, I_.strip(st, v), 4)
    if v[0] == "i":
        return v[1]
    if v[0] == "v" and depth and v[3] and (v[1] is None or I_.T[v[1]]["k"] == "tuple"):
        xs = tuple(plain_key(I_, st, x, depth - 1) for x in v[3])
        return None if any(x is None for x in xs) else xs
    return None


# ------------------------------------------------------------------ quote / proc_macro2 --
PUNCT = {"semi": ";", "dot": ".", "colon2": "::", "eq": "=", "and": "&", "comma": ",", "lt": "<", "gt": ">", "question": "?",
         "rarrow": "->", "star": "*", "bang": "!", "or": "|", "add": "+", "colon": ":", "dot2": "..", "dot3": "...", "shr": ">>",
         "shl": "<<", "fat_arrow": "=>", "caret": "^", "rem": "%", "and_and": "&&", "or_or": "||", "sub": "-", "eq_eq": "==",
         "ne": "!=", "pound": "#", "le": "<=", "ge": ">=", "div": "/", "underscore": "_", "or_eq": "|=", "add_eq": "+=",
         "shr_eq": ">>=", "shl_eq": "<<=", "at": "@", "dot_dot_eq": "..=", "dot_dot": "..", "and_eq": "&=", "sub_eq": "-=",
         "mul_eq": "*=", "div_eq": "/=", "rem_eq": "%=", "caret_eq": "^=", "larrow": "<-", "dollar": "$", "tilde": "~", "dot2_eq": "..="}


def ts_append(I_, st, a, items):
    root, path, v = target(I_, st, a)
    cur = v[1] if v[0] == "T" else (("1", ("tt", v)),)
    I_.write(st, root, path, ("T", cur + tuple(items)))


def push_punct(p):
    def f(I_, st, args, info, rty, site):
        ts_append(I_, st, args[0], (("1", ("p", p)),))
        return [(st, UNIT)]
    return f


for _k, _p in PUNCT.items():
    TABLE["quote::__private::push_" + _k] = push_punct(_p)


@reg("proc_macro2::TokenStream::new", "proc_macro2::TokenStream::default")
def ts_new(I_, st, args, info, rty, site):
    return [(st, ("T", ()))]


@reg("quote::__private::push_ident")
def push_ident(I_, st, args, info, rty, site):
    ts_append(I_, st, args[0], (("1", ("id", to_parts(I_, st, args[1]))),))
    return [(st, UNIT)]


@reg("quote::__private::push_lifetime")
def push_lifetime(I_, st, args, info, rty, site):
    ts_append(I_, st, args[0], (("1", ("lt", to_parts(I_, st, args[1]))),))
    return [(st, UNIT)]


@reg("quote::__private::parse")
def q_parse(I_, st, args, info, rty, site):
    ts_append(I_, st, args[0], (("1", ("lit", to_parts(I_, st, args[1]))),))
    return [(st, UNIT)]


@reg("quote::__private::push_group")
def push_group(I_, st, args, info, rty, site):
    d = args[1]
    dn = I_.T[d[1]]["v"][d[2]]["n"] if d[0] == "v" else "?"
    inner = I_.strip(st, args[2])
    ts_append(I_, st, args[0], (("1", ("g", {"Parenthesis": "(", "Brace": "{", "Bracket": "[", "None": ""}.get(dn, dn), items_of(I_, st, inner) if inner[0] == "T" else (("1", ("tt", inner)),))),))
    return [(st, UNIT)]


@reg("quote::ToTokens::to_tokens", "quote::TokenStreamExt::append")
def to_tokens(I_, st, args, info, rty, site):
    if info["d"].endswith("append"):
        tgt, src = args[0], args[1]
    else:
        src, tgt = args[0], args[1]
    sfx = int_type(I_, (info.get("ta") or (None,))[0])
    outs = []
    for s, items in tokens_of(I_, st, src):
        if sfx and len(items) == 1 and items[0][0] == "1" and items[0][1][0] == "num":
            items = (("1", ("num", items[0][1][1], sfx)),)
        ts_append(I_, s, tgt, items)
        outs.append((s, UNIT))
    return outs


def int_type(I_, ty):
    """name of the number type behind references"""
    for _ in range(4):
        t = I_.T[ty] if ty is not None else None
        if t is None:
            return None
        if t["k"] in ("ref", "ptr"):
            ty = t.get("t", t.get("e"))
        elif t["k"] in ("uint", "int", "bool"):
            return t.get("n") or t.get("d") or t["k"]
        else:
            return None


def tokens_of(I_, st, v, tyn=None):
    if v[0] in ("r", "A") and v[0] == "r":
        v = I_.read(st, v[1], v[2])
        return tokens_of(I_, st, v, tyn)
    if v[0] == "b":
        return tokens_of(I_, st, v[1])
    if v[0] == "T":
        return [(st, v[1])]
    if v[0] in ("id", "p", "g", "lit", "lt"):
        return [(st, (("1", v),))]
    if v[0] == "s":
        return [(st, (("1", ("str", v[1])),))]
    if v[0] == "i":
        return [(st, (("1", ("num", v)),))]
    if v[0] == "v" and v[1] is not None and I_.T[v[1]]["k"] == "adt":
        t = I_.T[v[1]]
        if t["d"].endswith("option::Option"):
            return tokens_of(I_, st, v[3][0]) if v[2] == 1 else [(st, ())]
        if len(v[3]) == 1 and t.get("ak") == "Struct":
            return tokens_of(I_, st, v[3][0])
    if v[0] == "A" and v[2] is not None:
        t = I_.T[v[2]]
        if I_.is_ptr_adt(v[2]) is not None:
            return tokens_of(I_, st, I_.load(st, v))
        if t["k"] == "adt" and t["d"].endswith("option::Option"):
            outs = []
            for s, rv, i in I_.split_variant(st, v):
                outs.extend(tokens_of(I_, s, rv[3][0]) if i == 1 else [(s, ())])
            return outs
        if t["k"] == "adt" and t["d"].endswith("string::String") or t["k"] == "str":
            return [(st, (("1", ("str", (("disp", v),))),))]
        if t["k"] in ("uint", "int"):
            return [(st, (("1", ("num", v)),))]
    return [(st, (("1", ("tt", I_.resolve(st, v, 4))),))]


@reg("quote::TokenStreamExt::append_all", "quote::TokenStreamExt::append_separated", "quote::TokenStreamExt::append_terminated")
def append_all(I_, st, args, info, rty, site):
    _, it = into_iter(I_, st, [args[1]], info, rty, site)[0]
    outs = []
    for s, xs in apply_items(I_, st, it[1], lambda s, v: tokens_of(I_, s, v)):
        ts_append(I_, s, args[0], xs)
        outs.append((s, UNIT))
    return outs


@reg("quote::__private::mk_ident", "proc_macro2::Ident::new", "proc_macro2::Ident::new_raw")
def mk_ident(I_, st, args, info, rty, site):
    p = to_parts(I_, st, args[0])
    if info["d"].endswith("new_raw"):
        p = ("r#",) + p
    return [(st, ("id", p))]


@reg("quote::__private::IdentFragmentAdapter::span", "proc_macro2::Span::call_site", "proc_macro2::Span::mixed_site")
def span_(I_, st, args, info, rty, site):
    t = I_.T[rty] if rty is not None else None
    if t and t["k"] == "adt" and t["d"].endswith("Option"):
        return [(st, none(rty))]
    return [(st, UNIT)]


@reg("proc_macro2::Literal::byte_string", "proc_macro2::Literal::string")
def lit_bytes(I_, st, args, info, rty, site):
    return [(st, ("lit", ("bytes" if "byte" in info["d"] else "string", ("disp", I_.resolve(st, args[0], 3)))))]


@reg("proc_macro2::Literal::u64_unsuffixed", "proc_macro2::Literal::usize_unsuffixed", "proc_macro2::Literal::u128_unsuffixed",
     "proc_macro2::Literal::i128_unsuffixed", "proc_macro2::Literal::u8_unsuffixed", "proc_macro2::Literal::i64_unsuffixed")
def lit_num(I_, st, args, info, rty, site):
    return [(st, ("lit", (("disp", args[0]),)))]


@reg("quote::__private::ext::RepIteratorExt::quote_into_iter", "quote::__private::ext::RepAsIteratorExt::quote_into_iter",
     "quote::__private::ext::RepToTokensExt::quote_into_iter")
def quote_into_iter(I_, st, args, info, rty, site):
    if "RepToTokens" in info["d"]:
        nm = "repeat"
        return [(st, ("v", None, 0, (("it", (("*", nm, frozenset([(EMPTY, (("1", args[0]),))])),)), UNIT)))]
    _, it = into_iter(I_, st, [args[0]], info, rty, site)[0]
    return [(st, ("v", None, 0, (it, UNIT)))]


@reg("quote::__private::ext::RepToTokensExt::next")
def rep_next(I_, st, args, info, rty, site):
    return [(st, some(rty, args[0]))]


@reg("std::mem::drop", "std::mem::forget")
def drop_(I_, st, args, info, rty, site):
    return [(st, UNIT)]


@reg("std::default::Default::default")
def default_(I_, st, args, info, rty, site):
    t = I_.T[rty] if rty is not None else None
    if t:
        if t["k"] in ("int", "uint", "bool"):
            return [(st, I(0))]
        if t["k"] == "adt":
            last = t["d"].rsplit("::", 1)[-1]
            if last == "Vec" or last in ("IndexSet", "HashSet"):
                return [(st, ("q", ()))]
            if last == "String":
                return [(st, ("s", ()))]
            if last in ("IndexMap", "HashMap"):
                return [(st, ("m", ()))]
            if last == "Option":
                return [(st, none(rty))]
            if last == "TokenStream":
                return [(st, ("T", ()))]
            if last in ("RefCell", "Cell"):
                return [(s, ("v", rty, 0, (v,))) for s, v in default_(I_, st, args, info, t["args"][0], site)]
    return None


@reg("std::fmt::Formatter::debug_struct", "std::fmt::Formatter::debug_tuple")
def dbg_(I_, st, args, info, rty, site):
    return [(st, UNIT)]


@reg("std::ops::Not::not")
def not_(I_, st, args, info, rty, site):
    a = I_.strip(st, args[0])
    return [(st, I(1 - a[1]) if a[0] == "i" and a[1] in (0, 1) else ("op", "Not", a))]


def _binop(nm):
    def f(I_, st, args, info, rty, site):
        a = I_.strip(st, args[0])
        b = I_.strip(st, args[1])
        if rty is not None and I_.T[rty]["k"] == "adt":
            return None
        return [(st, I_.binop(st, nm, a, b))]
    return f


for _n in ("Add", "Sub", "Mul", "Div", "Rem", "BitAnd", "BitOr", "BitXor", "Shl", "Shr"):
    TABLE["std::ops::%s::%s" % (_n, _n.lower())] = _binop(_n)


@reg("std::ops::Neg::neg")
def neg_(I_, st, args, info, rty, site):
    a = I_.strip(st, args[0])
    if rty is not None and I_.T[rty]["k"] == "adt":
        return None
    return [(st, I(-a[1]) if a[0] == "i" else ("op", "Neg", a))]


def _checked():
    bits = {"usize": 64, "isize": 64, "u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128,
            "i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128}
    ops = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b}
    for t, n in bits.items():
        lo, hi = (-(1 << n - 1), (1 << n - 1) - 1) if t[0] == "i" else (0, (1 << n) - 1)
        for nm, f in ops.items():
            def checked(I_, st, args, info, rty, site, f=f, lo=lo, hi=hi, t=t, nm=nm):
                a, b = I_.norm(st, args[0]), I_.norm(st, args[1])
                if a[0] == "i" and b[0] == "i":
                    v = f(a[1], b[1])
                    return [(st, some(rty, I(v)) if lo <= v <= hi else none(rty))]
                return [(st, ("A", ("call", "core::num::<impl %s>::checked_%s" % (t, nm), (a, b)), rty))]

            def saturating(I_, st, args, info, rty, site, f=f, lo=lo, hi=hi, t=t, nm=nm):
                a, b = I_.norm(st, args[0]), I_.norm(st, args[1])
                if a[0] == "i" and b[0] == "i":
                    return [(st, I(max(lo, min(hi, f(a[1], b[1])))))]
                return [(st, ("A", ("call", "core::num::<impl %s>::saturating_%s" % (t, nm), (a, b)), rty))]
            TABLE["core::num::<impl %s>::checked_%s" % (t, nm)] = checked
            TABLE["core::num::<impl %s>::saturating_%s" % (t, nm)] = saturating


_checked()
