"""byte sequences and texts of known length whose bytes may be symbolic (interpretation with I_.unroll)"""
from .std import reg, units, text_of, some, none, ok, err, fork_and, eq_values, get_it, split_bool, items_of, ASCII, TABLE
from .std import starts_with as PLAIN
from .interp import I, S, K, UNIT


def seq_of(I_, st, v):
    """(kind, units) of a text or sequence"""
    v = I_.resolve(st, I_.strip(st, v), 5)
    if v[0] == "s":
        u = units(I_, st, v)
        return None if u is None else ("s", u)
    if v[0] == "q" and all(x[0] == "1" for x in v[1]):
        return ("q", [x[1] for x in v[1]])
    if v[0] == "v" and (v[1] is not None and I_.T[v[1]]["k"] in ("array", "slice") or v[1] is None and v[2] == 0 and v[3] and all(x[0] == "i" for x in v[3])):
        return ("q", list(v[3]))
    return None


def back(kind, us):
    return text_of(us) if kind == "s" else ("q", tuple(("1", u) for u in us))


def same_units(I_, st, a, b):
    """[(state, 0/1)]: element-wise equality of lists of equal length"""
    r = None
    for x, y in zip(a, b):
        e = eq_values(I_, st, x, y)
        if e == I(1):
            continue
        if e == I(0):
            return [(st, 0)]
        if e[0] == "op" and e[1] == "Eq" and e[2][0] == "i" and e[3][0] == "i":
            if e[2][1] != e[3][1]:
                return [(st, 0)]
            continue
        r = e if r is None else ("op", "and", r, e)
    return [(st, 1)] if r is None else fork_and(I_, st, r)


def needle(I_, st, p):
    """units of a pattern argument: text, sequence or single char"""
    p0 = I_.resolve(st, I_.strip(st, p), 5)
    if p0[0] == "i":
        return [p0]
    s = seq_of(I_, st, p0)
    return None if s is None else s[1]


SL, SU, ST, SS = "core::slice::<impl [T]>::", "core::slice::<impl [u8]>::", "core::str::<impl str>::", "std::str::<impl str>::"


def names(*ns):
    return [p + n for n in ns for p in (SL, SU, ST, SS, "std::slice::<impl [T]>::", "std::slice::<impl [u8]>::")]


def pair(rty, a, b):
    return ("v", rty, 0, (a, b))


@reg(*names("split_at", "split_first", "split_last"))
def split_at(I_, st, args, info, rty, site):
    s = seq_of(I_, st, args[0])
    if s is None or not I_.unroll:
        return None
    k, us = s
    nm = info["d"].rsplit("::", 1)[-1]
    if nm == "split_at":
        n = I_.resolve(st, args[1], 3)
        if n[0] != "i":
            return None
        if n[1] > len(us):
            I_.panics.append((I_.m.by_index[site[0]], site[1], ("split_at", ()), st))
            return []
        return [(st, pair(rty, K(back(k, us[:n[1]])), K(back(k, us[n[1]:]))))]
    if not us:
        return [(st, none(rty))]
    tt = I_.T[rty]["args"][0]
    if nm == "split_first":
        return [(st, some(rty, pair(tt, K(us[0]), K(back(k, us[1:])))))]
    return [(st, some(rty, pair(tt, K(us[-1]), K(back(k, us[:-1])))))]


@reg(*names("starts_with", "ends_with", "strip_prefix", "strip_suffix"))
def affix(I_, st, args, info, rty, site):
    nm = info["d"].rsplit("::", 1)[-1]
    s = seq_of(I_, st, args[0])
    p = needle(I_, st, args[1])
    if s is None or p is None or not I_.unroll:
        return PLAIN(I_, st, args, info, rty, site) if nm in ("starts_with", "ends_with") else None
    k, us = s
    front = nm in ("starts_with", "strip_prefix")
    strip = nm.startswith("strip")
    if len(p) > len(us):
        return [(st, none(rty) if strip else I(0))]
    part = us[:len(p)] if front else us[len(us) - len(p):]
    rest = us[len(p):] if front else us[:len(us) - len(p)]
    out = []
    for s2, y in same_units(I_, st, part, p):
        out.append((s2, (some(rty, K(back(k, rest))) if y else none(rty)) if strip else I(y)))
    return out


@reg(*names("bytes", "chars", "char_indices"))
def chars(I_, st, args, info, rty, site):
    s = seq_of(I_, st, args[0])
    nm = info["d"].rsplit("::", 1)[-1]
    if s is None or s[0] != "s" or not I_.unroll:
        return None
    us = s[1]
    if nm != "bytes" and any(u[0] != "i" or u[1] > 127 for u in us):
        return None
    if nm == "char_indices":
        return None
    return [(st, ("it", tuple(("1", u) for u in us)))]


@reg(*names("find", "rfind"))
def find(I_, st, args, info, rty, site):
    s = seq_of(I_, st, args[0])
    p = needle(I_, st, args[1])
    if s is None or p is None or not I_.unroll:
        return None
    us = s[1]
    nm = info["d"].rsplit("::", 1)[-1]
    at = list(range(0, len(us) - len(p) + 1))
    if nm == "rfind":
        at.reverse()
    out = []
    for i in at:
        nxt = None
        for s2, y in same_units(I_, st, us[i:i + len(p)], p):
            if y:
                out.append((s2, some(rty, I(i))))
            else:
                nxt = s2 if nxt is None else "many"
        if nxt is None:
            return out
        if nxt == "many":
            return None
        st = nxt
    return out + [(st, none(rty))]


def take_skip(I_, st, args, nm, site):
    """take_while / skip_while / map_while on an explicit list"""
    it = get_it(I_, st, args[0])
    if any(x[0] != "1" for x in it[1]):
        return None
    outs, work = [], [(st, 0)]
    while work:
        s, i = work.pop()
        if i == len(it[1]):
            outs.append((s, ("it", it[1] if nm == "take_while" else ())))
            continue
        for s2, r in I_.call_value(s, args[1], [K(it[1][i][1])], site):
            for s3, b in split_bool(I_, s2, r):
                if b:
                    work.append((s3, i + 1))
                else:
                    outs.append((s3, ("it", it[1][:i] if nm == "take_while" else it[1][i:])))
    return outs


@reg("core::char::methods::<impl char>::to_digit", "std::char::methods::<impl char>::to_digit")
def to_digit(I_, st, args, info, rty, site):
    v = I_.resolve(st, I_.strip(st, args[0]), 4)
    b = I_.resolve(st, args[1], 3)
    if v[0] == "i" and b[0] == "i":
        try:
            return [(st, some(rty, I(int(chr(v[1]), b[1]))))]
        except ValueError:
            return [(st, none(rty))]
    return None
