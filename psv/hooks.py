"""Hooks naming collections/opaque queries for the code-generation analyses."""
from .interp import I, S, K, UNIT


def flatten_view(I_, st, args, info, rty, site):
    v = I_.strip(st, args[0])
    nm = v[1] if v[0] == "A" and isinstance(v[1], str) else repr(v)
    if v[0] == "A":
        # element type of `items`
        t = I_.T[v[2]]
        items = dict((f[0], f[1]) for f in t["v"][0]["f"])["items"]
        a = I_.T[items]["args"]
        pair = ("v", None, 0, (I_.atom(nm + ".flat[].key", a[0]), I_.atom(nm + ".flat[].val", a[1])))
        return [(st, ("it", (("*", nm + ".flat", frozenset([(frozenset(), (("1", pair),))])),)))]
    return None
