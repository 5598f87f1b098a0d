"""More library functions: folds, sources of iteration, collections, texts and numbers whose contents are known one by one.

Every function answers None (the general treatment) when what it is given is not known precisely enough.
"""
from .std import (TABLE, reg, some, none, items_of, get_it, it_next, map_items, apply_items, into_iter, split_bool, target, target0, ref_to,
                  places, map_lookup, map_tys, deep_key, keys_eq, subseq, make_coll, rev_items, concrete, eq_values, text_of, ref_to, EMPTY)
from .stdx import seq_of, back, needle, same_units, pair
from .interp import I, S, K, UNIT, UNDEF
import itertools

ITER = "std::iter::Iterator::"
OPT = "std::option::Option::"


def bare(info):
    return info["d"].rsplit("::", 1)[-1]


def tname(I_, t):
    return I_.T[t]["d"].rsplit("::", 1)[-1] if t is not None and I_.T[t]["k"] == "adt" else ""


def exact(items):
    return all(x[0] == "1" for x in items)


def lst(I_, st, v):
    """values of a collection whose elements are known one by one"""
    v = I_.strip(st, v)
    if v[0] in ("q", "m", "it") or v[0] == "v":
        if v[0] == "v" and v[1] is not None and I_.T[v[1]]["k"] not in ("array", "slice", "tuple"):
            return None
        xs = items_of(I_, st, v)
        if exact(xs):
            return [x[1] for x in xs]
    return None


def q(xs):
    return ("q", tuple(("1", x) for x in xs))


def itv(xs):
    return ("it", tuple(("1", x) for x in xs))


def plainint(I_, st, v):
    v = I_.norm(st, I_.strip(st, v))
    return v[1] if v[0] == "i" else None


def rest_back(I_, st, a, rest):
    """write what is left of an iterator that was taken by reference"""
    if a[0] == "r":
        root, path = a[1], a[2]
        v = I_.read(st, root, path)
        while v[0] == "r":
            root, path = v[1], v[2]
            v = I_.read(st, root, path)
        I_.write(st, root, path, ("it", tuple(rest)))


# ------------------------------------------------------------------------------------------ sources
@reg("std::iter::once", "std::iter::repeat_n", "std::iter::empty", "std::iter::repeat", "std::iter::once_with")
def sources(I_, st, args, info, rty, site):
    n = bare(info)
    if n == "empty":
        return [(st, ("it", ()))]
    if n == "once":
        return [(st, itv([args[0]]))]
    if n == "once_with":
        return [(s, itv([r])) for s, r in I_.call_value(st, args[0], [], site)]
    if n == "repeat_n":
        k = plainint(I_, st, args[1])
        return None if k is None or k > 200 else [(st, itv([args[0]] * k))]
    return [(st, ("it", (("*", "repeat", frozenset([(EMPTY, (("1", args[0]),))])),)))]


@reg("std::iter::from_fn", "std::iter::successors")
def generators(I_, st, args, info, rty, site):
    succ = bare(info) == "successors"
    if not I_.unroll:
        return None
    outs, work = [], []
    if succ:
        sp = I_.split_variant(st, args[0])
        if sp is None:
            return None
        work = [(s, (), rv[3][0] if i == 1 else None) for s, rv, i in sp]
    else:
        work = [(st, (), 0)]
    while work:
        s, xs, cur = work.pop()
        if len(xs) > 200:
            return None
        if succ:
            if cur is None:
                outs.append((s, itv(xs)))
                continue
            calls = I_.call_value(s, args[1], [K(cur)], site)
            xs = xs + (cur,)
        else:
            calls = I_.call_value(s, args[0], [], site)
        for s2, r in calls:
            sp = I_.split_variant(s2, r)
            if sp is None:
                return None
            for s3, rv, i in sp:
                if succ:
                    work.append((s3, xs, rv[3][0] if i == 1 else None))
                elif i == 1:
                    work.append((s3, xs + (rv[3][0],), 0))
                else:
                    outs.append((s3, itv(xs)))
    return outs


# ------------------------------------------------------------------------------------------ folds
_fresh = itertools.count()


def folded(I_, st, items, init, step):
    """step(st, acc, v) -> [(st, acc)]; the accumulator lives in a cell, so that symbolic repetition summarises what happens to it"""
    root = ("H", "acc", len(I_.stack), next(_fresh))
    st.store[root] = init

    def fn(s, v):
        out = []
        for s2, r in step(s, s.store[root], v):
            s2.store[root] = r
            out.append((s2, ()))
        return out
    res = []
    for s, _ in apply_items(I_, st, items, fn):
        res.append((s, s.store.pop(root)))
    return res


@reg(ITER + "fold", "std::iter::DoubleEndedIterator::rfold")
def fold(I_, st, args, info, rty, site):
    it = get_it(I_, st, args[0])[1]
    if bare(info) == "rfold":
        it = rev_items(it)
    return folded(I_, st, it, args[1], lambda s, a, v: I_.call_value(s, args[2], [a, v], site))


@reg(ITER + "reduce", ITER + "max_by_key", ITER + "min_by_key", ITER + "max_by", ITER + "min_by", ITER + "max", ITER + "min")
def reduce_(I_, st, args, info, rty, site):
    it = get_it(I_, st, args[0])[1]
    n = bare(info)
    if not exact(it):
        return None
    if not it:
        return [(st, none(rty))]
    vs = [x[1] for x in it]
    if n == "reduce":
        return [(s, some(rty, r)) for s, r in folded(I_, st, it[1:], vs[0], lambda s, a, v: I_.call_value(s, args[1], [a, v], site))]
    if n in ("max_by", "min_by"):
        def step(s, a, v):
            out = []
            for s2, r in I_.call_value(s, args[1], [K(a), K(v)], site):
                d = ordering(I_, s2, r)
                if d is None:
                    return None
                keep = d > 0 if n == "max_by" else d <= 0
                out.append((s2, a if keep else v))
            return out
        cur = [(st, vs[0])]
        for v in vs[1:]:
            nxt = []
            for s, a in cur:
                r = step(s, a, v)
                if r is None:
                    return None
                nxt += r
            cur = nxt
        return [(s, some(rty, a)) for s, a in cur]
    keyed = [(st, ())]
    if n in ("max_by_key", "min_by_key"):
        for v in vs:
            keyed = [(s2, ks + (r,)) for s, ks in keyed for s2, r in I_.call_value(s, args[1], [K(v)], site)]
    else:
        keyed = [(st, tuple(vs))]
    outs = []
    for s, ks in keyed:
        best = 0
        for i in range(1, len(ks)):
            d = compare(I_, s, ks[i], ks[best])
            if d is None:
                return None
            if (d >= 0) if n.startswith("max") else d < 0:
                best = i
        outs.append((s, some(rty, vs[best])))
    return outs


TABLE_SUM = TABLE.get(ITER + "sum")


@reg(ITER + "sum", ITER + "product")
def sum_(I_, st, args, info, rty, site):
    it = get_it(I_, st, args[0])[1]
    mul = bare(info) == "product"
    if exact(it):
        vs = [I_.norm(st, I_.strip(st, x[1])) for x in it]
        if all(v[0] == "i" for v in vs):
            r = 1 if mul else 0
            for v in vs:
                r = r * v[1] if mul else r + v[1]
            return [(st, I(r))]
        if rty is not None and I_.T[rty]["k"] in ("uint", "int"):
            r = I(1 if mul else 0)
            for v in vs:
                r = I_.binop(st, "Mul" if mul else "Add", r, v)
            return [(st, r)]
    if exact(it) and tname(I_, rty) in ("Option", "Result"):
        okv = 1 if tname(I_, rty) == "Option" else 0
        outs, cur = [], [(st, I(1 if mul else 0))]
        for x in it:
            nxt = []
            for s, a in cur:
                sp = I_.split_variant(s, I_.strip(s, x[1]))
                if sp is None:
                    return TABLE_SUM(I_, st, args, info, rty, site)
                for s2, rv, i in sp:
                    if i == okv:
                        nxt.append((s2, I_.binop(s2, "Mul" if mul else "Add", a, rv[3][0])))
                    else:
                        outs.append((s2, ("v", rty, i, rv[3])))
            cur = nxt
        return outs + [(s, ("v", rty, okv, (a,))) for s, a in cur]
    return TABLE_SUM(I_, st, args, info, rty, site)


def okvariant(I_, rty, r):
    t = rty if rty is not None else (r[1] if r[0] == "v" else None)
    return 1 if tname(I_, t) == "Option" else 0


@reg(ITER + "try_fold", ITER + "try_for_each")
def try_fold(I_, st, args, info, rty, site):
    it = get_it(I_, st, args[0])[1]
    each = bare(info) == "try_for_each"
    f = args[-1]
    fails = []
    okty = [rty]
    bad = [False]

    def step(s, a, v):
        out = []
        for s2, r in I_.call_value(s, f, [v] if each else [a, v], site):
            sp = I_.split_variant(s2, r)
            if sp is None:
                bad[0] = True
                return []
            for s3, rv, i in sp:
                okv = okvariant(I_, rty, rv)
                okty[0] = rty if rty is not None else rv[1]
                if i == okv:
                    out.append((s3, rv[3][0]))
                else:
                    fails.append((s3.copy(), ("v", okty[0], i, rv[3])))
        return out
    outs = folded(I_, st.copy(), it, UNIT if each else args[1], step)
    if bad[0]:
        return None
    t = okty[0]
    res = [(s, ("v", t, 1 if tname(I_, t) == "Option" else 0, (a,))) for s, a in outs]
    for s, v in fails:
        for k in [k for k in s.store if k[0] == "H" and len(k) > 1 and k[1] == "acc"]:
            s.store.pop(k, None)
        res.append((s, v))
    return res


@reg(ITER + "partition", ITER + "unzip")
def partition(I_, st, args, info, rty, site):
    it = get_it(I_, st, args[0])[1]
    if not exact(it):
        return None
    tys = I_.T[rty].get("args") or I_.T[rty].get("e") or [None, None] if rty is not None else [None, None]
    if not isinstance(tys, list) or len(tys) < 2:
        tys = [None, None]
    mk = lambda s, a, b: (s, ("v", rty, 0, (make_coll(I_, tys[0], a), make_coll(I_, tys[1], b))))
    if bare(info) == "unzip":
        vs = [I_.strip(st, x[1]) for x in it]
        if not all(v[0] == "v" and len(v[3]) == 2 for v in vs):
            return None
        return [mk(st, tuple(("1", v[3][0]) for v in vs), tuple(("1", v[3][1]) for v in vs))]
    cur = [(st, (), ())]
    for x in it:
        nxt = []
        for s, a, b in cur:
            for s2, r in I_.call_value(s, args[1], [K(x[1])], site):
                for s3, y in split_bool(I_, s2, r):
                    nxt.append((s3, a + (x,), b) if y else (s3, a, b + (x,)))
        cur = nxt
    return [mk(*x) for x in cur]


@reg(ITER + "last", ITER + "nth", "std::iter::DoubleEndedIterator::nth_back")
def nth(I_, st, args, info, rty, site):
    it = get_it(I_, st, args[0])[1]
    n = bare(info)
    if n == "nth_back":
        it = rev_items(it)
    if n == "last":
        if it and it[-1][0] == "1":
            return [(st, some(rty, it[-1][1]))]
        if not it:
            return [(st, none(rty))]
        return None
    k = plainint(I_, st, args[1])
    if k is None or not exact(it[:k + 1]):
        return None
    if k >= len(it):
        rest_back(I_, st, args[0], ())
        return [(st, none(rty))]
    rest = it[k + 1:]
    rest_back(I_, st, args[0], rev_items(rest) if n == "nth_back" else rest)
    return [(st, some(rty, it[k][1]))]


@reg(ITER + "inspect")
def inspect(I_, st, args, info, rty, site):
    it = get_it(I_, st, args[0])[1]
    return [(s, ("it", xs)) for s, xs in apply_items(
        I_, st, it, lambda s, v: [(s2, (("1", v),)) for s2, r in I_.call_value(s, args[1], [K(v)], site)])]


@reg(ITER + "flatten")
def flatten(I_, st, args, info, rty, site):
    it = get_it(I_, st, args[0])[1]

    def fn(s, v):
        w = I_.strip(s, v)
        if w[0] == "v" and tname(I_, w[1]) in ("Option", "Result") or w[0] == "A" and tname(I_, w[2]) in ("Option", "Result"):
            sp = I_.split_variant(s, w)
            if sp is None:
                return [(s, (("*", "flatten", EMPTY),))]
            okv = 1 if tname(I_, w[1] if w[0] == "v" else w[2]) == "Option" else 0
            return [(s2, (("1", rv[3][0]),) if i == okv else ()) for s2, rv, i in sp]
        _, i2 = into_iter(I_, s, [v], {"n": ""}, None, site)[0]
        return [(s, i2[1] if i2[0] == "it" else items_of(I_, s, i2))]
    return [(s, ("it", xs)) for s, xs in apply_items(I_, st, it, fn)]


@reg(ITER + "map_while", ITER + "scan")
def map_while(I_, st, args, info, rty, site):
    it = get_it(I_, st, args[0])[1]
    if not exact(it):
        return None
    scan = bare(info) == "scan"
    root = ("H", "scan", len(I_.stack), next(_fresh))
    if scan:
        st.store[root] = args[1]
    cur, outs = [(st, ())], []
    for x in it:
        nxt = []
        for s, xs in cur:
            a = [("r", root, ()), x[1]] if scan else [x[1]]
            for s2, r in I_.call_value(s, args[-1], a, site):
                sp = I_.split_variant(s2, r)
                if sp is None:
                    return None
                for s3, rv, i in sp:
                    if i == 1:
                        nxt.append((s3, xs + (rv[3][0],)))
                    else:
                        outs.append((s3, itv(xs)))
        cur = nxt
    return outs + [(s, itv(xs)) for s, xs in cur]


OLD_TAKE = TABLE[ITER + "take"]


@reg(ITER + "take", ITER + "take_while", ITER + "step_by", ITER + "skip_while")
def take(I_, st, args, info, rty, site):
    it = get_it(I_, st, args[0])[1]
    n = bare(info)
    if n == "take":
        k = plainint(I_, st, args[1])
        if k is not None and k <= 200 and len(it) == 1 and it[0][0] == "*" and it[0][1] in ("repeat", "cycle"):
            xs = list(list(it[0][2])[0][1])
            return [(st, ("it", tuple((xs * k)[:k])))]
        if k is not None and exact(it):
            rest_back(I_, st, args[0], it[k:])
            return [(st, ("it", it[:k]))]
    if n == "step_by" and exact(it):
        k = plainint(I_, st, args[1])
        if k:
            return [(st, ("it", it[::k]))]
    if n == "take_while" and args[0][0] == "r" and exact(it):
        outs, work = [], [(st, 0)]
        while work:
            s, i = work.pop()
            if i == len(it):
                rest_back(I_, s, args[0], ())
                outs.append((s, ("it", it)))
                continue
            for s2, r in I_.call_value(s, args[1], [K(it[i][1])], site):
                for s3, b in split_bool(I_, s2, r):
                    if b:
                        work.append((s3, i + 1))
                    else:
                        rest_back(I_, s3, args[0], it[i + 1:])
                        outs.append((s3, ("it", it[:i])))
        return outs
    if n in ("take_while", "skip_while") and exact(it):
        from .stdx import take_skip
        return take_skip(I_, st, args, n, site)
    return OLD_TAKE(I_, st, args, info, rty, site)


@reg(ITER + "cycle")
def cycle(I_, st, args, info, rty, site):
    it = get_it(I_, st, args[0])[1]
    return [(st, ("it", (("*", "cycle", frozenset([(EMPTY, it)])),)))] if exact(it) else None


@reg(ITER + "eq", ITER + "ne", ITER + "lt", ITER + "le", ITER + "gt", ITER + "ge", ITER + "cmp", ITER + "partial_cmp", ITER + "is_sorted")
def iter_cmp(I_, st, args, info, rty, site):
    n = bare(info)
    a = get_it(I_, st, args[0])[1]
    if not exact(a):
        return None
    va = [x[1] for x in a]
    if n == "is_sorted":
        cs = [compare(I_, st, x, y) for x, y in zip(va, va[1:])]
        return None if None in cs else [(st, I(1 if all(x <= 0 for x in cs) else 0))]
    _, b0 = into_iter(I_, st, [args[1]], {"n": ""}, None, site)[0]
    b = get_it(I_, st, b0)[1]
    if not exact(b):
        return None
    return cmp_result(I_, st, q(va), q([x[1] for x in b]), n, rty)


@reg("std::iter::Peekable::peek", "std::iter::Peekable::next_if", "std::iter::Peekable::next_if_eq", "std::iter::Peekable::peek_mut")
def peek(I_, st, args, info, rty, site):
    root, path = I_.deref(st, args[0])
    v = I_.read(st, root, path)
    while v[0] == "r":
        root, path = v[1], v[2]
        v = I_.read(st, root, path)
    if v[0] != "it":
        return None
    outs = []
    n = bare(info)
    for s, x, rest in it_next(I_, st, v):
        if x is None:
            I_.write(s, root, path, ("it", ()))
            outs.append((s, none(rty)))
            continue
        whole = ("it", (("1", x),) + tuple(rest[1]))
        if n.startswith("peek"):
            I_.write(s, root, path, whole)
            outs.append((s, some(rty, K(x))))
            continue
        if n == "next_if_eq":
            cond = [(s, eq_values(I_, s, x, I_.strip(s, args[1])))]
        else:
            cond = I_.call_value(s, args[1], [K(x)], site)
        for s2, r in cond:
            for s3, b in split_bool(I_, s2, r):
                I_.write(s3, root, path, rest if b else whole)
                outs.append((s3, some(rty, x) if b else none(rty)))
    return outs


@reg("std::iter::DoubleEndedIterator::rfind")
def rfind(I_, st, args, info, rty, site):
    it = get_it(I_, st, args[0])[1]
    return TABLE[ITER + "find"](I_, st, [("it", rev_items(it)), args[1]], {"d": ITER + "find"}, rty, site)


@reg("std::iter::ExactSizeIterator::len")
def it_len(I_, st, args, info, rty, site):
    it = get_it(I_, st, args[0])[1]
    return [(st, I(len(it)) if exact(it) else I_.length(st, ("q", it)))]


# ------------------------------------------------------------------------------------------ order
def compare(I_, st, a, b):
    """-1, 0, 1 or None"""
    a, b = I_.resolve(st, a, 6), I_.resolve(st, b, 6)
    if a == b:
        return 0
    if a[0] == "i" and b[0] == "i":
        return -1 if a[1] < b[1] else 1
    sa, sb = seq_of(I_, st, a), seq_of(I_, st, b)
    if sa is not None and sb is not None:
        for x, y in zip(sa[1], sb[1]):
            d = compare(I_, st, x, y)
            if d is None or d:
                return d
        return (len(sa[1]) > len(sb[1])) - (len(sa[1]) < len(sb[1]))
    if a[0] == "v" and b[0] == "v":
        rev = tname(I_, a[1]) == "Reverse"
        if a[2] != b[2]:
            return -1 if a[2] < b[2] else 1
        for x, y in zip(a[3], b[3]):
            d = compare(I_, st, x, y)
            if d is None or d:
                return d if not rev or d is None else -d
        return 0
    return None


def ordering(I_, st, v):
    """-1, 0, 1 of an Ordering value"""
    v = I_.resolve(st, v, 3)
    if v[0] == "v":
        return v[2] - 1
    if v[0] == "i":
        x = v[1]
        return x - 256 if x > 127 else x
    if v[0] == "op" and v[1] == "Cmp" and v[2][0] == "i" and v[3][0] == "i":
        return (v[2][1] > v[3][1]) - (v[2][1] < v[3][1])
    return None


def cmp_result(I_, st, a, b, n, rty):
    d = compare(I_, st, a, b)
    if n in ("eq", "ne"):
        if d is None:
            return None
        return [(st, I(1 if (d == 0) == (n == "eq") else 0))]
    if d is None:
        return None
    if n == "cmp":
        return [(st, ("v", rty, d + 1, ()))]
    if n == "partial_cmp":
        t = I_.T[rty]["args"][0] if rty is not None else None
        return [(st, some(rty, ("v", t, d + 1, ())))]
    return [(st, I(1 if {"lt": d < 0, "le": d <= 0, "gt": d > 0, "ge": d >= 0}[n] else 0))]


def order_fn(n, old):
    def f(I_, st, args, info, rty, site):
        if len(args) == 2:
            a, b = I_.resolve(st, args[0], 6), I_.resolve(st, args[1], 6)
            if not (a[0] in ("A", "op") or b[0] in ("A", "op")):
                r = cmp_result(I_, st, a, b, n, rty)
                if r is not None:
                    return r
        return old(I_, st, args, info, rty, site) if old else None
    return f


for _n in ("lt", "le", "gt", "ge", "partial_cmp"):
    TABLE["std::cmp::PartialOrd::" + _n] = order_fn(_n, TABLE.get("std::cmp::PartialOrd::" + _n))
TABLE["std::cmp::Ord::cmp"] = order_fn("cmp", TABLE.get("std::cmp::Ord::cmp"))
TABLE["core::str::traits::<impl std::cmp::Ord for str>::cmp"] = TABLE["std::cmp::Ord::cmp"]


@reg("std::cmp::Ordering::reverse", "std::cmp::Ordering::then", "std::cmp::Ordering::then_with", "std::cmp::Ordering::is_lt",
     "std::cmp::Ordering::is_le", "std::cmp::Ordering::is_gt", "std::cmp::Ordering::is_ge", "std::cmp::Ordering::is_eq", "std::cmp::Ordering::is_ne")
def ordering_(I_, st, args, info, rty, site):
    n = bare(info)
    d = ordering(I_, st, args[0])
    if d is None:
        return None
    if n == "reverse":
        return [(st, ("v", rty, 1 - d, ()))]
    if n == "then":
        return [(st, ("v", rty, d + 1, ()) if d else args[1])]
    if n == "then_with":
        return [(st, ("v", rty, d + 1, ()))] if d else I_.call_value(st, args[1], [], site)
    r = {"is_lt": d < 0, "is_le": d <= 0, "is_gt": d > 0, "is_ge": d >= 0, "is_eq": d == 0, "is_ne": d != 0}[n]
    return [(st, I(1 if r else 0))]


@reg("std::intrinsics::integer_max", "std::intrinsics::integer_min", "std::cmp::Ord::max", "std::cmp::Ord::min", "std::cmp::max", "std::cmp::min")
def minmax(I_, st, args, info, rty, site):
    d = compare(I_, st, args[0], args[1])
    mx = bare(info).endswith("max")
    if d is not None:
        return [(st, (args[1] if d <= 0 else args[0]) if mx else (args[0] if d <= 0 else args[1]))]
    a, b = I_.norm(st, args[0]), I_.norm(st, args[1])
    if I_.intlike(a) or I_.intlike(b):
        outs, s2 = [], st.copy()
        c = ("op", "Lt", a, b)
        if I_.assume(s2, c, True, frozenset([1])):
            outs.append((s2, b if mx else a))
        if I_.assume(st, c, True, frozenset([0])):
            outs.append((st, a if mx else b))
        return outs
    return None


# ------------------------------------------------------------------------------------------ vectors
@reg("std::vec::from_elem", "std::slice::<impl [T]>::repeat", "core::slice::<impl [T]>::repeat")
def from_elem(I_, st, args, info, rty, site):
    k = plainint(I_, st, args[1])
    if k is None or k > 300:
        return None
    if bare(info) == "repeat":
        xs = lst(I_, st, args[0])
        return None if xs is None else [(st, q(xs * k))]
    return [(st, q([args[0]] * k))]


@reg("std::vec::Vec::resize", "core::slice::<impl [T]>::fill", "core::slice::<impl [T]>::swap", "core::slice::<impl [T]>::copy_from_slice",
     "core::slice::<impl [T]>::clone_from_slice", "core::slice::<impl [T]>::rotate_left", "core::slice::<impl [T]>::rotate_right",
     "std::collections::VecDeque::push_front", "std::collections::VecDeque::pop_front", "std::collections::VecDeque::pop_back",
     "std::vec::Vec::extend_from_within", "std::vec::Vec::reserve", "std::vec::Vec::shrink_to_fit")
def vec_ops(I_, st, args, info, rty, site):
    n = bare(info)
    if n in ("reserve", "shrink_to_fit"):
        return [(st, UNIT)]
    if n == "copy_from_slice" or n == "clone_from_slice":
        return copy_from(I_, st, args)
    root, path, v = target(I_, st, args[0])
    xs = lst(I_, st, v)
    if xs is None and not (n in ("push_front",)):
        return None
    def put(ys):
        if v[0] == "v":
            return I_.write(st, root, path, ("v", v[1], v[2], tuple(ys)))
        return I_.write(st, root, path, q(ys))
    if n == "push_front":
        I_.write(st, root, path, ("q", (("1", args[1]),) + items_of(I_, st, v)))
        return [(st, UNIT)]
    if n in ("pop_front", "pop_back"):
        if not xs:
            return [(st, none(rty))]
        put(xs[1:] if n == "pop_front" else xs[:-1])
        return [(st, some(rty, xs[0 if n == "pop_front" else -1]))]
    if n == "resize":
        k = plainint(I_, st, args[1])
        if k is None or k > 300:
            return None
        put((xs + [args[2]] * k)[:k])
    elif n == "fill":
        put([args[1]] * len(xs))
    elif n == "swap":
        i, j = plainint(I_, st, args[1]), plainint(I_, st, args[2])
        if i is None or j is None or max(i, j) >= len(xs):
            return None
        xs[i], xs[j] = xs[j], xs[i]
        put(xs)
    else:
        return None
    return [(st, UNIT)]


def copy_from(I_, st, args):
    return None


TABLE["std::collections::VecDeque::new"] = TABLE["std::vec::Vec::new"]
for _a, _b in (("len", "len"), ("is_empty", "is_empty"), ("clear", "clear"), ("extend", None), ("remove", None)):
    if _b:
        TABLE["std::collections::VecDeque::" + _a] = TABLE["std::vec::Vec::" + _b]
for _a in ("iter_mut",):
    TABLE["std::collections::VecDeque::" + _a] = TABLE["core::slice::<impl [T]>::" + _a]
for _a, _b in (("front", "first"), ("back", "last"), ("get", "get"), ("contains", "contains"), ("front_mut", "first_mut"), ("back_mut", "last_mut")):
    if "core::slice::<impl [T]>::" + _b in TABLE:
        TABLE["std::collections::VecDeque::" + _a] = TABLE["core::slice::<impl [T]>::" + _b]


@reg("std::vec::Vec::splice")
def splice(I_, st, args, info, rty, site):
    root, path, v = target(I_, st, args[0])
    r = subseq(I_, items_of(I_, st, v), args[1])
    if r is None:
        return None
    _, b0 = into_iter(I_, st, [args[2]], {"n": ""}, None, site)[0]
    I_.write(st, root, path, ("q", r[0] + get_it(I_, st, b0)[1] + r[2]))
    return [(st, ("it", r[1]))]


SORTS = ["std::slice::<impl [T]>::" + n for n in ("sort", "sort_by", "sort_by_key", "sort_by_cached_key")] + \
    ["core::slice::<impl [T]>::" + n for n in ("sort_unstable", "sort_unstable_by", "sort_unstable_by_key", "sort", "sort_by", "sort_by_key")]
OLDS = {n: TABLE.get(n) for n in SORTS}


@reg(*SORTS)
def sort(I_, st, args, info, rty, site):
    import functools
    root, path, v = target(I_, st, args[0])
    xs = lst(I_, st, v)
    old = OLDS.get(info["d"]) or OLDS.get("std::slice::<impl [T]>::" + bare(info))
    fb = (lambda: old(I_, st, args, info, rty, site)) if old else (lambda: None)
    if xs is None:
        return fb()
    n = bare(info)

    class Unknown(Exception):
        pass

    def one(s, f, a):
        r = I_.call_value(s, f, a, site)
        if len(r) != 1:
            raise Unknown
        return r[0][1]

    try:
        if n.endswith("_by"):
            def c(a, b):
                d = ordering(I_, st, one(st, args[1], [K(a), K(b)]))
                if d is None:
                    raise Unknown
                return d
        elif "_key" in n:
            keys = {}

            def key(a):
                if a not in keys:
                    keys[a] = one(st, args[1], [K(a)])
                return keys[a]

            def c(a, b):
                d = compare(I_, st, key(a), key(b))
                if d is None:
                    raise Unknown
                return d
        else:
            def c(a, b):
                d = compare(I_, st, a, b)
                if d is None:
                    raise Unknown
                return d
        ys = sorted(xs, key=functools.cmp_to_key(c))
    except Unknown:
        return fb()
    I_.write(st, root, path, ("v", v[1], v[2], tuple(ys)) if v[0] == "v" else q(ys))
    return [(st, UNIT)]


OLD_RETAIN = TABLE["std::vec::Vec::retain"]


@reg("std::vec::Vec::retain", "std::vec::Vec::retain_mut", "indexmap::IndexMap::retain", "std::collections::HashMap::retain", "indexmap::IndexSet::retain",
     "std::collections::HashSet::retain", "std::collections::VecDeque::retain")
def retain(I_, st, args, info, rty, site):
    root, path, v = target(I_, st, args[0])
    items = items_of(I_, st, v)
    ismap = v[0] == "m"
    if not exact(items):
        return OLD_RETAIN(I_, st, args, info, rty, site) if not ismap else None

    def fn(s, x):
        out = []
        a = [K(x[3][0]), K(x[3][1])] if ismap else [K(x)]
        for s2, r in I_.call_value(s, args[1], a, site):
            for s3, b in split_bool(I_, s2, r):
                out.append((s3, (("1", x),) if b else ()))
        return out
    outs = []
    for s, xs in apply_items(I_, st, items, fn):
        I_.write(s, root, path, (v[0] if ismap else "q", xs))
        outs.append((s, UNIT))
    return outs


OLD_DEDUP = TABLE["std::vec::Vec::dedup"]


@reg("std::vec::Vec::dedup")
def dedup(I_, st, args, info, rty, site):
    root, path, v = target(I_, st, args[0])
    xs = lst(I_, st, v)
    if xs is not None:
        ys = []
        for x in xs:
            e = eq_values(I_, st, ys[-1], x) if ys else I(0)
            if e[0] != "i":
                break
            if not e[1]:
                ys.append(x)
        else:
            I_.write(st, root, path, q(ys))
            return [(st, UNIT)]
    return OLD_DEDUP(I_, st, args, info, rty, site)


OLD_CONCAT = TABLE.get("std::slice::<impl [T]>::concat")


@reg("std::slice::<impl [T]>::concat")
def concat(I_, st, args, info, rty, site):
    xs = lst(I_, st, args[0])
    if xs is not None:
        ws = [I_.strip(st, x) for x in xs]
        if all(w[0] == "q" or w[0] == "v" and (w[1] is None or I_.T[w[1]]["k"] in ("array", "slice")) for w in ws):
            return [(st, ("q", tuple(y for w in ws for y in items_of(I_, st, w))))]
    return OLD_CONCAT(I_, st, args, info, rty, site)


@reg("std::vec::Vec::into_boxed_slice", "std::string::String::into_boxed_str", "std::borrow::Cow::to_mut",
     "std::string::String::into_bytes", "std::str::<impl str>::into_string", "std::str::<impl str>::into_boxed_bytes", "std::vec::Vec::leak")
def keep(I_, st, args, info, rty, site):
    v = args[0]
    n = bare(info)
    if n == "into_boxed_slice" or n == "into_boxed_str":
        return [(st, ("b", v))]
    if n == "into_bytes":
        s = seq_of(I_, st, v)
        return None if s is None else [(st, q(s[1]))]
    return [(st, I_.strip(st, v))]


@reg("core::slice::<impl [T]>::binary_search")
def bsearch(I_, st, args, info, rty, site):
    xs = lst(I_, st, args[0])
    if xs is None:
        return None
    for i, x in enumerate(xs):
        d = compare(I_, st, x, args[1])
        if d is None:
            return None
        if d == 0:
            return [(st, ("v", rty, 0, (I(i),)))]
        if d > 0:
            return [(st, ("v", rty, 1, (I(i),)))]
    return [(st, ("v", rty, 1, (I(len(xs)),)))]


@reg("core::slice::<impl [T]>::split", "core::slice::<impl [T]>::rsplit")
def slice_split(I_, st, args, info, rty, site):
    xs = lst(I_, st, args[0])
    if xs is None:
        return None
    cur = [(st, ((),))]
    for x in xs:
        nxt = []
        for s, parts in cur:
            for s2, r in I_.call_value(s, args[1], [K(x)], site):
                for s3, b in split_bool(I_, s2, r):
                    nxt.append((s3, parts + ((),) if b else parts[:-1] + (parts[-1] + (x,),)))
        cur = nxt
    return [(s, itv([K(q(p)) for p in (reversed(parts) if bare(info) == "rsplit" else parts)])) for s, parts in cur]


@reg("std::array::<impl [T; N]>::map")
def array_map(I_, st, args, info, rty, site):
    xs = lst(I_, st, args[0])
    if xs is None:
        return None
    cur = [(st, ())]
    for x in xs:
        cur = [(s2, ys + (r,)) for s, ys in cur for s2, r in I_.call_value(s, args[1], [x], site)]
    return [(s, ("v", rty, 0, ys)) for s, ys in cur]


# ------------------------------------------------------------------------------------------ maps
def key_index(I_, st, v, key):
    """position of a key in a map whose entries are known one by one; -1 absent, None unknown"""
    if v[0] != "m" or not exact(v[1]):
        return None
    key = deep_key(I_, st, I_.strip(st, key))
    for i, (_, p) in enumerate(v[1]):
        e = keys_eq(I_, deep_key(I_, st, p[3][0]), key)
        if e is None:
            return None
        if e:
            return i
    return -1


MAPS = ("std::collections::HashMap::", "indexmap::IndexMap::", "std::collections::BTreeMap::")
for _n in ("new", "get", "get_mut", "insert", "remove", "contains_key", "iter", "keys", "values", "len", "is_empty", "iter_mut", "clear"):
    for _m in MAPS:
        if _m + _n not in TABLE:
            for _o in MAPS:
                if _o + _n in TABLE:
                    TABLE[_m + _n] = TABLE[_o + _n]
                    break
SETS = ("std::collections::HashSet::", "indexmap::IndexSet::", "std::collections::BTreeSet::")
for _n in ("new", "insert", "remove", "contains", "iter", "len", "is_empty", "clear"):
    for _m in SETS:
        if _m + _n not in TABLE:
            for _o in SETS:
                if _o + _n in TABLE:
                    TABLE[_m + _n] = TABLE[_o + _n]
                    break
        if _m + "clear" not in TABLE:
            TABLE[_m + "clear"] = TABLE["std::vec::Vec::clear"]


def sorted_items(I_, st, items, ismap):
    import functools
    if not exact(items):
        return items
    bad = []

    def c(a, b):
        d = compare(I_, st, a[1][3][0] if ismap else a[1], b[1][3][0] if ismap else b[1])
        if d is None:
            bad.append(1)
            return 0
        return d
    r = sorted(items, key=functools.cmp_to_key(c))
    return items if bad else tuple(r)


def btree_insert(name, ismap):
    old = TABLE[name]

    def f(I_, st, args, info, rty, site):
        outs = old(I_, st, args, info, rty, site)
        for s, _ in outs:
            root, path, v = target(I_, s, args[0])
            I_.write(s, root, path, (v[0], sorted_items(I_, s, v[1], ismap)))
        return outs
    TABLE[name] = f


btree_insert("std::collections::BTreeMap::insert", True)
btree_insert("std::collections::BTreeSet::insert", False)

OLD_GET_MUT = TABLE["std::collections::HashMap::get_mut"]


@reg("std::collections::HashMap::get_mut", "indexmap::IndexMap::get_mut", "std::collections::BTreeMap::get_mut")
def get_mut(I_, st, args, info, rty, site):
    root, path, v = target(I_, st, args[0])
    i = key_index(I_, st, v, args[1])
    if i is None or root[0] == "K":
        return OLD_GET_MUT(I_, st, args, info, rty, site)
    if i < 0:
        return [(st, none(rty))]
    return [(st, some(rty, ("r", root, path + (("x", i), ("f", 1)))))]


OLD_ITER_MUT = {m: TABLE.get(m + "iter_mut") for m in MAPS}


@reg(*[m + n for m in MAPS for n in ("iter_mut", "values_mut")])
def map_iter_mut(I_, st, args, info, rty, site):
    root, path, v = target(I_, st, args[0])
    if v[0] == "m" and exact(v[1]) and root[0] != "K":
        refs = [("r", root, path + (("x", i),)) for i in range(len(v[1]))]
        if bare(info) == "values_mut":
            return [(st, itv([("r", r[1], r[2] + (("f", 1),)) for r in refs]))]
        return [(st, itv([("v", None, 0, (K(v[1][i][1][3][0]), ("r", r[1], r[2] + (("f", 1),)))) for i, r in enumerate(refs)]))]
    if bare(info) == "values_mut":
        return TABLE["indexmap::IndexMap::values"](I_, st, args, info, rty, site)
    return TABLE["indexmap::IndexMap::iter"](I_, st, args, dict(info, d=info["d"].replace("iter_mut", "iter")), rty, site)


@reg(*[m + n for m in MAPS for n in ("into_values", "into_keys")])
def into_values(I_, st, args, info, rty, site):
    v = I_.strip(st, args[0])
    k = 1 if bare(info) == "into_values" else 0
    return [(st, ("it", map_items(items_of(I_, st, v), lambda p: p[3][k] if p[0] == "v" else p)))]


@reg("indexmap::IndexMap::get_index", "indexmap::IndexMap::get_full", "indexmap::IndexMap::get_index_of", "indexmap::IndexMap::first", "indexmap::IndexMap::last",
     "indexmap::IndexMap::pop", "std::collections::BTreeMap::first_key_value", "std::collections::BTreeMap::last_key_value")
def imap_index(I_, st, args, info, rty, site):
    root, path, v = target(I_, st, args[0])
    n = bare(info)
    if v[0] != "m" or not exact(v[1]):
        return None
    t = I_.T[rty]["args"][0] if rty is not None else None
    if n in ("get_full", "get_index_of"):
        i = key_index(I_, st, v, args[1])
        if i is None:
            return None
        if i < 0:
            return [(st, none(rty))]
        p = v[1][i][1]
        return [(st, some(rty, I(i) if n == "get_index_of" else ("v", t, 0, (I(i), K(p[3][0]), K(p[3][1])))))]
    i = plainint(I_, st, args[1]) if n == "get_index" else (0 if n.startswith("first") else len(v[1]) - 1)
    if i is None:
        return None
    if not 0 <= i < len(v[1]):
        return [(st, none(rty))]
    p = v[1][i][1]
    if n == "pop":
        I_.write(st, root, path, ("m", v[1][:-1]))
        return [(st, some(rty, ("v", t, 0, p[3])))]
    return [(st, some(rty, ("v", t, 0, (K(p[3][0]), K(p[3][1])))))]


# the entry of a key: Occupied / Vacant hold (reference to the map, key, position)
ENT = ("std::collections::hash_map::", "indexmap::map::", "std::collections::btree_map::")


@reg(*[m + "entry" for m in MAPS])
def entry(I_, st, args, info, rty, site):
    root, path, v = target(I_, st, args[0])
    here = ("r", root, path)
    vt = [x["f"] for x in I_.T[rty]["v"]] if False and rty is not None else None
    i = key_index(I_, st, v, args[1])
    if i is not None:
        return [(st, ("v", rty, 0 if i >= 0 else 1, (("v", None, 0, (here, args[1], I(i))),)))]
    if v[0] == "m":
        # one outcome per possibility; a present key is looked up (not in place)
        outs = []
        for s, x in map_lookup(I_, st, v, args[1], None):
            outs.append((s, ("v", rty, 1 if x is None else 0, (("v", None, 0, (here, args[1], I(-1) if x is None else x)),))))
        return outs
    return None


def ent(I_, st, v):
    v = I_.strip(st, v)
    if v[0] == "v" and len(v[3]) == 1 and v[3][0][0] == "v" and len(v[3][0][3]) == 3:
        return v[2], v[3][0][3]
    if v[0] == "v" and v[1] is None and len(v[3]) == 3:
        return None, v[3]
    return None


def ent_put(I_, st, e, val):
    ref, key, _ = e
    v = I_.read(st, ref[1], ref[2])
    its = items_of(I_, st, v)
    I_.write(st, ref[1], ref[2], ("m", its + (("1", ("v", None, 0, (key, val))),)))
    return ("r", ref[1], ref[2] + (("x", len(its)), ("f", 1)))


def ent_ref(e):
    ref, key, i = e
    return ("r", ref[1], ref[2] + (("x", i[1]), ("f", 1))) if i[0] == "i" else i


@reg(*[m + "Entry::" + n for m in ENT for n in ("or_insert", "or_insert_with", "or_default", "and_modify", "key", "or_insert_with_key")])
def entry_or(I_, st, args, info, rty, site):
    e = ent(I_, st, args[0])
    if e is None or e[0] is None:
        return None
    n = bare(info)
    if n == "key":
        return [(st, K(e[1][1]))]
    if n == "and_modify":
        if e[0] == 1:
            return [(st, args[0])]
        return [(s, args[0]) for s, _ in I_.call_value(st, args[1], [ent_ref(e[1])], site)]
    if e[0] == 0:
        return [(st, ent_ref(e[1]))]
    if n == "or_insert":
        return [(st, ent_put(I_, st, e[1], args[1]))]
    if n == "or_insert_with":
        return [(s, ent_put(I_, s, e[1], r)) for s, r in I_.call_value(st, args[1], [], site)]
    if n == "or_insert_with_key":
        return [(s, ent_put(I_, s, e[1], r)) for s, r in I_.call_value(st, args[1], [K(e[1][1])], site)]
    t = None
    if rty is not None:
        t = I_.is_ptr_adt(rty)
    return [(st, ent_put(I_, st, e[1], default_of(I_, t)))]


def default_of(I_, t):
    if t is None:
        return ("A", "default", None)
    k = I_.T[t]["k"]
    if k in ("int", "uint", "bool"):
        return I(0)
    return {"Vec": ("q", ()), "String": ("s", ()), "HashMap": ("m", ()), "IndexMap": ("m", ()), "BTreeMap": ("m", ()), "HashSet": ("q", ()), "IndexSet": ("q", ()),
            "Option": ("v", t, 0, ()), "VecDeque": ("q", ()), "TokenStream": ("T", ())}.get(tname(I_, t), ("A", "default", t))


@reg(*[m + e + "::" + n for m in ENT for e in ("OccupiedEntry", "VacantEntry") for n in ("get", "get_mut", "into_mut", "insert", "key", "remove", "into_key")])
def entry_ops(I_, st, args, info, rty, site):
    e = ent(I_, st, args[0])
    if e is None:
        return None
    e = e[1]
    n = bare(info)
    if n == "key":
        return [(st, K(e[1]))]
    if n == "into_key":
        return [(st, e[1])]
    if "Vacant" in info["d"]:
        return [(st, ent_put(I_, st, e, args[1]))] if n == "insert" else None
    r = ent_ref(e)
    if n in ("get", "get_mut", "into_mut"):
        return [(st, r)]
    old = I_.load(st, r)
    if n == "insert":
        I_.write(st, r[1], r[2], args[1])
        return [(st, old)]
    if e[2][0] != "i":
        return None
    m = I_.read(st, e[0][1], e[0][2])
    I_.write(st, e[0][1], e[0][2], ("m", m[1][:e[2][1]] + m[1][e[2][1] + 1:]))
    return [(st, old)]


OLD_FROM = TABLE["std::convert::From::from"]
OLD_INTO = TABLE["std::convert::Into::into"]


def conv(old):
    def f(I_, st, args, info, rty, site):
        n = tname(I_, rty)
        if n in ("HashMap", "IndexMap", "BTreeMap", "HashSet", "IndexSet", "BTreeSet", "VecDeque", "Vec") and len(args) == 1:
            xs = lst(I_, st, args[0])
            if xs is not None:
                if "Map" in n:
                    xs = [I_.strip(st, x) for x in xs]
                    if all(x[0] == "v" and len(x[3]) == 2 for x in xs):
                        return [(st, ("m", tuple(("1", x) for x in xs)))]
                elif "Set" in n:
                    ys = []
                    for x in xs:
                        if x not in ys:
                            ys.append(x)
                    return [(st, q(ys))]
                else:
                    return [(st, q(xs))]
        if n == "Cow" and len(args) == 1:
            own = args[0][0] in ("s", "q")
            return [(st, ("v", rty, 1 if own else 0, (args[0],)))]
        return old(I_, st, args, info, rty, site)
    return f


TABLE["std::convert::From::from"] = conv(OLD_FROM)
TABLE["std::convert::Into::into"] = conv(OLD_INTO)


@reg("std::convert::TryFrom::try_from", "std::convert::TryInto::try_into")
def try_from(I_, st, args, info, rty, site):
    v = I_.norm(st, I_.strip(st, args[0]))
    t = I_.T[rty]["args"][0] if rty is not None and I_.T[rty].get("args") else None
    if t is None:
        return None
    k = I_.T[t]
    if k["k"] in ("array",):
        xs = lst(I_, st, v)
        n = k.get("len")
        if xs is None or not isinstance(n, int):
            return None
        return [(st, ("v", rty, 0, (("v", t, 0, tuple(xs)),)) if len(xs) == n else ("v", rty, 1, (("A", "TryFromSliceError", None),)))]
    if k["k"] in ("int", "uint") and v[0] == "i":
        lo, hi = limits(k["n"])
        return [(st, ("v", rty, 0, (v,)) if lo <= v[1] <= hi else ("v", rty, 1, (("A", "TryFromIntError", None),)))]
    return None


BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64}


def limits(t):
    n = BITS[t]
    return (-(1 << n - 1), (1 << n - 1) - 1) if t[0] == "i" else (0, (1 << n) - 1)


# ------------------------------------------------------------------------------------------ numbers
def wrap(t, x):
    n = BITS[t]
    x &= (1 << n) - 1
    return x - (1 << n) if t[0] == "i" and x >> n - 1 else x


def _numbers():
    two = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b}

    def mk(t, name):
        lo, hi = limits(t)
        n = BITS[t]

        def res(st, rty, v):
            return [(st, some(rty, I(v)) if v is not None and lo <= v <= hi else none(rty))]

        def f(I_, st, args, info, rty, site):
            a = plainint(I_, st, args[0])
            b = plainint(I_, st, args[1]) if len(args) > 1 else 0
            if a is None or b is None:
                return None
            if name.startswith("wrapping_"):
                o = name[9:]
                if o in two:
                    return [(st, I(wrap(t, two[o](a, b))))]
                if o == "neg":
                    return [(st, I(wrap(t, -a)))]
                if o in ("shl", "shr"):
                    return [(st, I(wrap(t, a << (b % n) if o == "shl" else a >> (b % n))))]
                return None
            if name.startswith("overflowing_"):
                x = two[name[12:]](a, b)
                return [(st, ("v", rty, 0, (I(wrap(t, x)), I(0 if lo <= x <= hi else 1))))]
            if name.startswith("checked_"):
                o = name[8:]
                if o == "neg":
                    return res(st, rty, -a)
                if o in ("shl", "shr"):
                    return res(st, rty, wrap(t, a << b if o == "shl" else a >> b) if 0 <= b < n else None)
                if o == "pow":
                    return res(st, rty, a ** b if b < 4096 else None)
                if o in ("div", "rem"):
                    if b == 0:
                        return res(st, rty, None)
                    qv = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                    return res(st, rty, qv if o == "div" else a - qv * b)
                return None
            if name == "pow":
                return [(st, I(a ** b))] if b < 4096 and lo <= a ** b <= hi else None
            if name == "abs":
                return [(st, I(abs(a)))]
            if name == "unsigned_abs":
                return [(st, I(abs(a)))]
            if name == "abs_diff":
                return [(st, I(abs(a - b)))]
            if name == "signum":
                return [(st, I((a > 0) - (a < 0)))]
            if name == "rem_euclid" and b:
                return [(st, I(a % abs(b)))]
            if name == "div_ceil" and b > 0:
                return [(st, I(-(-a // b)))]
            if name == "next_multiple_of" and b > 0:
                return [(st, I(-(-a // b) * b))]
            if name == "is_multiple_of":
                return [(st, I(1 if (a % b == 0 if b else a == 0) else 0))]
            u = a & (1 << n) - 1
            if name == "leading_zeros":
                return [(st, I(n - u.bit_length()))]
            if name == "trailing_zeros":
                return [(st, I((u & -u).bit_length() - 1 if u else n))]
            if name == "count_ones":
                return [(st, I(bin(u).count("1")))]
            if name == "swap_bytes":
                return [(st, I(wrap(t, int.from_bytes(u.to_bytes(n // 8, "big"), "little"))))]
            if name in ("rotate_left", "rotate_right"):
                b %= n
                b = b if name == "rotate_left" else n - b
                return [(st, I(wrap(t, (u << b | u >> n - b))))]
            if name == "is_power_of_two":
                return [(st, I(1 if u and u & u - 1 == 0 else 0))]
            if name == "next_power_of_two":
                return [(st, I(1 << (u - 1).bit_length() if u > 1 else 1))]
            if name == "is_negative":
                return [(st, I(1 if a < 0 else 0))]
            if name == "is_positive":
                return [(st, I(1 if a > 0 else 0))]
            if name in ("to_be_bytes", "to_le_bytes", "to_ne_bytes"):
                bs = u.to_bytes(n // 8, "big" if name == "to_be_bytes" else "little")
                return [(st, ("v", rty, 0, tuple(I(x) for x in bs)))]
            return None
        return f
    for t in BITS:
        for name in ["wrapping_" + o for o in ("add", "sub", "mul", "neg", "shl", "shr")] + ["overflowing_" + o for o in two] + \
                ["checked_" + o for o in ("neg", "shl", "shr", "pow", "div", "rem")] + \
                ["pow", "abs", "unsigned_abs", "abs_diff", "signum", "rem_euclid", "div_ceil", "next_multiple_of", "is_multiple_of", "leading_zeros", "trailing_zeros",
                 "count_ones", "swap_bytes", "rotate_left", "rotate_right", "is_power_of_two", "next_power_of_two", "is_negative", "is_positive",
                 "to_be_bytes", "to_le_bytes", "to_ne_bytes"]:
            k = "core::num::<impl %s>::%s" % (t, name)
            if k not in TABLE:
                TABLE[k] = mk(t, name)

        def frm(I_, st, args, info, rty, site, t=t):
            xs = lst(I_, st, args[0])
            if xs is None:
                return None
            bs = [plainint(I_, st, x) for x in xs]
            if None in bs:
                return None
            return [(st, I(wrap(t, int.from_bytes(bytes(bs), "big" if "be_bytes" in info["d"] else "little"))))]
        for name in ("from_be_bytes", "from_le_bytes", "from_ne_bytes"):
            TABLE.setdefault("core::num::<impl %s>::%s" % (t, name), frm)


_numbers()


# ------------------------------------------------------------------------------------------ characters
CH = ("core::char::methods::<impl char>::", "std::char::methods::<impl char>::", "core::num::<impl u8>::")


@reg(*[m + n for m in CH for n in ("is_alphabetic", "is_numeric", "is_alphanumeric", "is_whitespace", "is_uppercase", "is_lowercase", "is_control",
                                   "to_ascii_lowercase", "to_ascii_uppercase", "len_utf8", "to_uppercase", "to_lowercase", "eq_ignore_ascii_case", "is_digit")])
def chars(I_, st, args, info, rty, site):
    c = plainint(I_, st, args[0])
    if c is None:
        return None
    ch = chr(c)
    n = bare(info)
    if n == "len_utf8":
        return [(st, I(len(ch.encode())))]
    if n in ("to_ascii_lowercase", "to_ascii_uppercase"):
        if c < 128:
            c = ord(ch.lower() if n.endswith("lowercase") else ch.upper())
        return [(st, I(c))]
    if n in ("to_uppercase", "to_lowercase"):
        r = ch.upper() if n == "to_uppercase" else ch.lower()
        return [(st, itv([I(ord(x)) for x in r]))]
    if n == "eq_ignore_ascii_case":
        d = plainint(I_, st, args[1])
        return None if d is None else [(st, I(1 if ch.lower() == chr(d).lower() else 0))]
    if n == "is_digit":
        r = plainint(I_, st, args[1])
        return None if r is None else [(st, I(1 if ch.isascii() and ch.isalnum() and int(ch, 36) < r else 0))]
    if n == "is_numeric" and not ch.isascii():
        return None
    r = {"is_alphabetic": ch.isalpha(), "is_numeric": ch.isdigit(), "is_alphanumeric": ch.isalnum(), "is_whitespace": ch.isspace(), "is_uppercase": ch.isupper(),
         "is_lowercase": ch.islower(), "is_control": c < 32 or 127 <= c < 160}[n]
    return [(st, I(1 if r else 0))]


@reg("std::char::from_digit", "core::char::convert::from_digit", "std::char::from_u32", "core::char::methods::<impl char>::from_digit", "core::char::methods::<impl char>::from_u32",
     "std::char::methods::<impl char>::from_digit", "std::char::methods::<impl char>::from_u32")
def from_digit(I_, st, args, info, rty, site):
    a = plainint(I_, st, args[0])
    if a is None:
        return None
    if bare(info) == "from_u32":
        return [(st, some(rty, I(a)) if a < 0x110000 and not 0xd800 <= a < 0xe000 else none(rty))]
    r = plainint(I_, st, args[1])
    return None if r is None else [(st, some(rty, I(ord("0123456789abcdefghijklmnopqrstuvwxyz"[a]))) if a < r else none(rty))]


@reg("std::char::convert::<impl std::convert::From<u8> for char>::from", "core::char::convert::<impl std::convert::From<u8> for char>::from",
     "std::char::convert::<impl std::convert::From<char> for u32>::from")
def same(I_, st, args, info, rty, site):
    return [(st, args[0])]


# ------------------------------------------------------------------------------------------ texts
STR = ("core::str::<impl str>::", "std::str::<impl str>::")


def ascii_text(I_, st, v):
    """a text all of whose bytes are known"""
    s = seq_of(I_, st, v)
    if s is None:
        return None
    if any(x[0] != "i" for x in s[1]):
        return None
    try:
        return bytes(x[1] for x in s[1]).decode()
    except (ValueError, UnicodeDecodeError):
        return None


def pattern(I_, st, v, site):
    """a predicate-or-text pattern: text | callable(state, char) | None"""
    w = I_.resolve(st, I_.strip(st, v), 3)
    if w[0] == "i":
        return chr(w[1])
    if w[0] == "s":
        return ascii_text(I_, st, w)
    if w[0] == "v" and w[1] is not None and I_.T[w[1]]["k"] == "closure" or w[0] == "fn":
        def p(c):
            r = I_.call_value(st, v, [I(ord(c))], site)
            if len(r) != 1:
                return None
            x = I_.norm(r[0][0], r[0][1])
            return bool(x[1]) if x[0] == "i" else None
        return p
    xs = lst(I_, st, w)
    if xs is not None:
        cs = [plainint(I_, st, x) for x in xs]
        if None not in cs:
            return lambda c: ord(c) in cs
    return None


def matches(t, p):
    """[(start, end)] of non-overlapping matches"""
    if isinstance(p, str):
        out, i = [], 0
        while p:
            i = t.find(p, i)
            if i < 0:
                return out
            out.append((i, i + len(p)))
            i += len(p)
        return None
    out = []
    for i, c in enumerate(t):
        b = p(c)
        if b is None:
            return None
        if b:
            out.append((i, i + 1))
    return out


def strs(xs):
    return itv([S(x) for x in xs])


TXT = ("split", "rsplit", "split_once", "rsplit_once", "splitn", "rsplitn", "split_terminator", "lines", "replace", "repeat", "trim_start", "trim_end",
       "trim_start_matches", "trim_end_matches", "trim_matches", "split_whitespace", "to_ascii_uppercase", "to_ascii_lowercase", "eq_ignore_ascii_case", "matches",
       "is_char_boundary", "split_ascii_whitespace", "replacen", "char_indices", "contains", "find", "rfind", "get", "split_inclusive", "trim")
OLDT = {m + n: TABLE.get(m + n) for m in STR for n in TXT}


@reg(*[m + n for m in STR for n in TXT])
def texts(I_, st, args, info, rty, site):
    from .std import norm
    n = bare(info)
    old = OLDT.get(norm(info["d"]))
    fb = (lambda: old(I_, st, args, info, rty, site)) if old else (lambda: None)
    t = ascii_text(I_, st, args[0])
    if t is None or not t.isascii():
        return fb()
    if n == "char_indices":
        return [(st, itv([("v", None, 0, (I(i), I(ord(c)))) for i, c in enumerate(t)]))]
    if n in ("trim", "trim_start", "trim_end"):
        ws = " \t\n\r\x0b\x0c"
        return [(st, S({"trim": t.strip, "trim_start": t.lstrip, "trim_end": t.rstrip}[n](ws)))]
    if n == "lines":
        ls = t.split("\n")
        if ls and ls[-1] == "":
            ls.pop()
        return [(st, strs([x[:-1] if x.endswith("\r") else x for x in ls]))]
    if n in ("split_whitespace", "split_ascii_whitespace"):
        return [(st, strs(t.split()))]
    if n == "to_ascii_uppercase":
        return [(st, S(t.upper()))]
    if n == "to_ascii_lowercase":
        return [(st, S(t.lower()))]
    if n == "eq_ignore_ascii_case":
        u = ascii_text(I_, st, args[1])
        return fb() if u is None else [(st, I(1 if t.lower() == u.lower() else 0))]
    if n == "repeat":
        k = plainint(I_, st, args[1])
        return fb() if k is None or k > 1000 else [(st, S(t * k))]
    if n == "is_char_boundary":
        k = plainint(I_, st, args[1])
        return fb() if k is None else [(st, I(1 if 0 <= k <= len(t) else 0))]
    if n == "get":
        r = subseq(I_, tuple(("1", I(ord(c))) for c in t), I_.strip(st, args[1]))
        return fb() if r is None else [(st, some(rty, S("".join(chr(x[1][1]) for x in r[1]))))]
    ni = 2 if n in ("splitn", "rsplitn") else 1
    p = pattern(I_, st, args[ni], site)
    ms = None if p is None else matches(t, p)
    if ms is None:
        return fb()
    if n == "contains":
        return [(st, I(1 if ms else 0))]
    if n == "find":
        return [(st, some(rty, I(ms[0][0])) if ms else none(rty))]
    if n == "rfind":
        if isinstance(p, str):
            i = t.rfind(p)
            return [(st, some(rty, I(i)) if i >= 0 else none(rty))]
        return [(st, some(rty, I(ms[-1][0])) if ms else none(rty))]
    if n in ("split_once", "rsplit_once"):
        if not ms:
            return [(st, none(rty))]
        a, b = ms[0 if n == "split_once" else -1]
        tt = I_.T[rty]["args"][0] if rty is not None else None
        return [(st, some(rty, ("v", tt, 0, (S(t[:a]), S(t[b:])))))]
    if n == "matches":
        return [(st, strs([t[a:b] for a, b in ms]))]
    if n in ("replace", "replacen"):
        r = ascii_text(I_, st, args[2])
        if r is None:
            return fb()
        if n == "replacen":
            k = plainint(I_, st, args[3])
            if k is None:
                return fb()
            ms = ms[:k]
        out, e = "", 0
        for a, b in ms:
            out += t[e:a] + r
            e = b
        return [(st, S(out + t[e:]))]
    if n.startswith("trim_"):
        a, b = 0, len(t)
        if n in ("trim_start_matches", "trim_matches"):
            for x, y in ms:
                if x == a:
                    a = y
        if n in ("trim_end_matches", "trim_matches"):
            for x, y in reversed(ms):
                if y == b and x >= a:
                    b = x
        return [(st, S(t[a:b]))]
    if n in ("splitn", "rsplitn"):
        k = plainint(I_, st, args[1])
        if k is None:
            return fb()
        ms = ms[:max(k - 1, 0)] if n == "splitn" else ms[len(ms) - max(k - 1, 0):] if k - 1 < len(ms) else ms
    parts, e = [], 0
    for a, b in ms:
        parts.append(t[e:b] if n == "split_inclusive" else t[e:a])
        e = b
    parts.append(t[e:])
    if n in ("split_terminator", "split_inclusive") and parts[-1] == "":
        parts.pop()
    if n in ("rsplit", "rsplitn"):
        parts.reverse()
    return [(st, strs(parts))]


@reg("std::string::String::insert", "std::string::String::insert_str", "std::string::String::pop", "std::string::String::truncate", "std::string::String::remove",
     "std::string::String::split_off", "std::string::String::drain", "std::string::String::retain", "std::string::String::reserve")
def string_ops(I_, st, args, info, rty, site):
    n = bare(info)
    if n == "reserve":
        return [(st, UNIT)]
    root, path, v = target(I_, st, args[0])
    if n == "insert_str" or n == "insert":
        if plainint(I_, st, args[1]) == 0 and v[0] == "s":
            w = I_.resolve(st, I_.strip(st, args[2]), 3)
            parts = w[1] if w[0] == "s" else ((chr(w[1]),) if w[0] == "i" else (("disp", w),))
            I_.write(st, root, path, ("s", join_parts(parts + v[1])))
            return [(st, UNIT)]
    t = ascii_text(I_, st, v)
    if t is None or not t.isascii():
        return None
    if n in ("insert", "insert_str"):
        k, w = plainint(I_, st, args[1]), I_.resolve(st, I_.strip(st, args[2]), 3)
        x = chr(w[1]) if w[0] == "i" else ascii_text(I_, st, w)
        if k is None or x is None:
            return None
        I_.write(st, root, path, S(t[:k] + x + t[k:]))
        return [(st, UNIT)]
    if n == "pop":
        I_.write(st, root, path, S(t[:-1]))
        return [(st, some(rty, I(ord(t[-1]))) if t else none(rty))]
    if n in ("truncate", "split_off"):
        k = plainint(I_, st, args[1])
        if k is None:
            return None
        I_.write(st, root, path, S(t[:k]))
        return [(st, UNIT if n == "truncate" else S(t[k:]))]
    if n == "remove":
        k = plainint(I_, st, args[1])
        if k is None or k >= len(t):
            return None
        I_.write(st, root, path, S(t[:k] + t[k + 1:]))
        return [(st, I(ord(t[k])))]
    return None


def join_parts(ps):
    out = []
    for p in ps:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif p != "":
            out.append(p)
    return tuple(out)


OLD_ADD = TABLE["std::ops::Add::add"]


@reg("std::ops::Add::add")
def add(I_, st, args, info, rty, site):
    a, b = I_.strip(st, args[0]), I_.strip(st, args[1])
    if a[0] == "s" and b[0] == "s":
        return [(st, ("s", join_parts(a[1] + b[1])))]
    if a[0] == "s" and tname(I_, rty) == "String":
        return [(st, ("s", join_parts(a[1] + (("disp", b),))))]
    return OLD_ADD(I_, st, args, info, rty, site)


OLD_ADDA = TABLE.get("std::ops::AddAssign::add_assign")


@reg("std::ops::AddAssign::add_assign")
def add_assign(I_, st, args, info, rty, site):
    root, path, v = target(I_, st, args[0])
    if v[0] == "s":
        b = I_.strip(st, args[1])
        I_.write(st, root, path, ("s", join_parts(v[1] + (b[1] if b[0] == "s" else (("disp", b),)))))
        return [(st, UNIT)]
    return OLD_ADDA(I_, st, args, info, rty, site) if OLD_ADDA else None


@reg(*["%s<impl [%s]>::%s" % (m, t, n) for m in ("core::slice::", "std::slice::") for t in ("u8", "T") for n in ("to_ascii_uppercase", "to_ascii_lowercase", "eq_ignore_ascii_case")])
def bytes_case(I_, st, args, info, rty, site):
    s = seq_of(I_, st, args[0])
    if s is None or any(x[0] != "i" for x in s[1]):
        return None
    b = bytes(x[1] for x in s[1])
    n = bare(info)
    if n == "eq_ignore_ascii_case":
        o = seq_of(I_, st, args[1])
        if o is None or any(x[0] != "i" for x in o[1]):
            return None
        return [(st, I(1 if b.lower() == bytes(x[1] for x in o[1]).lower() else 0))]
    return [(st, q([I(x) for x in (b.upper() if "upper" in n else b.lower())]))]


OLD_LOSSY = TABLE["std::string::String::from_utf8_lossy"]


@reg("std::string::String::from_utf8_lossy")
def lossy(I_, st, args, info, rty, site):
    t = ascii_text(I_, st, args[0])
    if t is not None:
        return [(st, ("v", rty, 1, (S(t),)))]
    return OLD_LOSSY(I_, st, args, info, rty, site)


# ------------------------------------------------------------------------------------------ cells, pointers, calls
@reg("std::mem::swap", "std::cell::Cell::swap", "std::cell::RefCell::swap")
def swap(I_, st, args, info, rty, site):
    r1, p1, v1 = target0(I_, st, args[0])
    r2, p2, v2 = target0(I_, st, args[1])
    if "cell" in info["d"]:
        p1, p2 = p1 + (("cell",),), p2 + (("cell",),)
        v1, v2 = I_.read(st, r1, p1), I_.read(st, r2, p2)
    I_.write(st, r1, p1, v2)
    I_.write(st, r2, p2, v1)
    return [(st, UNIT)]


@reg("std::cell::OnceCell::new", "std::cell::LazyCell::new")
def once_new(I_, st, args, info, rty, site):
    return [(st, ("v", rty, 0, (("v", None, 0, ()),)))]


@reg("std::cell::OnceCell::get_or_init", "std::cell::OnceCell::get", "std::cell::OnceCell::set")
def once_get(I_, st, args, info, rty, site):
    root, path, v = target(I_, st, args[0])
    if v[0] != "v" or len(v[3]) != 1 or v[3][0][0] != "v":
        return None
    has = v[3][0][2] == 1
    here = ("r", root, path + (("f", 0), ("d", 1), ("f", 0)))
    n = bare(info)
    if n == "get":
        return [(st, some(rty, here) if has else none(rty))]
    if has:
        return [(st, here)] if n == "get_or_init" else [(st, ("v", rty, 1, (args[1],)))]
    if n == "set":
        I_.write(st, root, path + (("f", 0),), ("v", None, 1, (args[1],)))
        return [(st, ("v", rty, 0, (UNIT,)))]
    outs = []
    for s, r in I_.call_value(st, args[1], [], site):
        I_.write(s, root, path + (("f", 0),), ("v", None, 1, (r,)))
        outs.append((s, here))
    return outs


@reg("std::cell::RefCell::try_borrow", "std::cell::RefCell::try_borrow_mut")
def try_borrow(I_, st, args, info, rty, site):
    o = "std::cell::RefCell::" + bare(info)[4:]
    return [(s, ("v", rty, 0, (r,))) for s, r in TABLE[o](I_, st, args, dict(info, d=o), None, site)]


@reg("std::ops::Fn::call", "std::ops::FnMut::call_mut", "std::ops::FnOnce::call_once")
def call_dyn(I_, st, args, info, rty, site):
    f = args[0]
    v = I_.strip(st, f)
    if len(args) == 2 and args[1][0] == "v" and (v[0] == "fn" or v[0] == "v" and v[1] is not None and I_.T[v[1]]["k"] == "closure"):
        return I_.call_value(st, v if v[0] == "fn" or f[0] == "b" else f, list(args[1][3]), site)
    return None


@reg("std::sync::Arc::make_mut", "std::sync::Arc::get_mut", "std::rc::Rc::make_mut", "std::rc::Rc::get_mut")
def make_mut(I_, st, args, info, rty, site):
    root, path, v = target0(I_, st, args[0])
    while v[0] == "r" and I_.read(st, v[1], v[2])[0] == "r":
        root, path = v[1], v[2]
        v = I_.read(st, root, path)
    if v[0] == "b":
        r = ("r", root, path + (("b",),))
        return [(st, r if bare(info) == "make_mut" else some(rty, r))]
    return None


OT = OPT


@reg(OPT + "unzip", OPT + "transpose")
def opt_misc(I_, st, args, info, rty, site):
    v = args[0]
    sp = I_.split_variant(st, v)
    if sp is None:
        return None
    outs = []
    n = bare(info)
    ts = I_.T[rty].get("args") if rty is not None else None
    for s, rv, i in sp:
        if n == "unzip":
            if i == 1:
                a = rv[3][0]
                outs.append((s, ("v", rty, 0, (("v", None, 1, (a[3][0],)), ("v", None, 1, (a[3][1],))))))
            else:
                outs.append((s, ("v", rty, 0, (("v", None, 0, ()), ("v", None, 0, ())))))
        else:
            if i == 0:
                outs.append((s, ("v", rty, 0, (("v", ts[0] if ts else None, 0, ()),))))
                continue
            sp2 = I_.split_variant(s, rv[3][0])
            if sp2 is None:
                return None
            for s2, r2, j in sp2:
                outs.append((s2, ("v", rty, j, (("v", ts[0] if ts else None, 1, r2[3]),) if j == 0 else r2[3])))
    return outs


def in_place(n, old):
    """first_mut, last_mut, get_mut and indexing of a list whose elements are known one by one: a place inside it"""
    def f(I_, st, args, info, rty, site):
        r = places(I_, st, args[0])
        if r is not None:
            if n == "get_mut":
                i = plainint(I_, st, args[1]) if I_.strip(st, args[1])[0] == "i" else None
            else:
                i = 0 if n == "first_mut" else len(r) - 1
            if i is not None:
                return [(st, some(rty, r[i][1]) if 0 <= i < len(r) else none(rty))]
        return old(I_, st, args, info, rty, site) if old else None
    return f


for _n in ("first_mut", "last_mut", "get_mut"):
    _k = "core::slice::<impl [T]>::" + _n
    TABLE[_k] = in_place(_n, TABLE.get(_k))
    TABLE["std::collections::VecDeque::" + {"first_mut": "front_mut", "last_mut": "back_mut"}.get(_n, _n)] = TABLE[_k]


@reg("std::option::Option::Some", "std::result::Result::Ok", "std::result::Result::Err",
     "std::prelude::v1::Some", "std::prelude::v1::Ok", "std::prelude::v1::Err")
def ctor(I_, st, args, info, rty, site):
    import re
    if rty is None:
        m = re.search(r"(option::Option|result::Result)::<(.*)>::\w+$", info.get("n", ""))
        if m:
            nm = "std::%s<%s>" % (m.group(1), m.group(2))
            cache = I_.m.__dict__.setdefault("_bynames", {})
            if nm not in cache:
                cache[nm] = next((i for i, t in enumerate(I_.T) if t.get("n") == nm), None)
            rty = cache[nm]
    return [(st, ("v", rty, 1 if bare(info) in ("Some", "Err") else 0, (args[0],)))]


@reg("core::slice::<impl [T]>::is_sorted")
def sl_sorted(I_, st, args, info, rty, site):
    xs = lst(I_, st, args[0])
    if xs is None:
        return None
    cs = [compare(I_, st, x, y) for x, y in zip(xs, xs[1:])]
    return None if None in cs else [(st, I(1 if all(x <= 0 for x in cs) else 0))]
