"""Items of emitted Rust (enum, struct, impl, const, fn, mod) from token streams."""
from .rustmini import P, lex, text, RErr


class Item(dict):
    __getattr__ = dict.get


def split(toks, sep=','):
    out, cur, depth = [], [], 0
    for t in toks:
        if t[0] == 'p' and t[1] == '<':
            depth += 1
        elif t[0] == 'p' and t[1] in ('>', '>>'):
            depth -= len(t[1])
        if t[0] == 'p' and t[1] == sep and depth <= 0:
            out.append(cur)
            cur = []
        else:
            cur.append(t)
    if cur:
        out.append(cur)
    return out


def attrs(p):
    out = []
    while p.isp('#'):
        p.next()
        if p.isp('!'):
            p.next()
        g = p.next()
        if g[0] != 'g':
            raise RErr('attribute')
        out.append(text(g[2]).replace(' ', ''))
    return out


def vis(p):
    v = False
    if p.isid('pub'):
        v = True
        p.next()
        if p.isg('('):
            p.next()
    return v


def generics(p):
    if not p.isp('<'):
        return ''
    depth, out = 0, []
    while True:
        t = p.next()
        if t[0] == 'eof':
            raise RErr('generics')
        if t[0] == 'p' and t[1] == '<':
            depth += 1
        elif t[0] == 'p' and t[1] in ('>', '>>'):
            depth -= len(t[1])
        out.append(t)
        if depth <= 0:
            return text(out)


def items(toks):
    p = P(toks)
    out = []
    while not p.eof():
        t = p.peek()
        if t[0] in ('star', 'rec', 'hole'):
            p.next()
            out.append(Item(kind=t[0], name=t[1], alts=[(g, items(x)) for g, x in t[2]] if t[0] == 'star' else None))
            continue
        at = attrs(p)
        if p.eof():
            raise RErr('attribute without item')
        pub = vis(p)
        is_async = unsafe = False
        const = False
        while p.isid('async') or p.isid('unsafe') or p.isid('extern') or (p.isid('const') and p.isid('fn', 1)):
            n = p.next()[1]
            is_async |= n == 'async'
            unsafe |= n == 'unsafe'
        t = p.next()
        if t[0] != 'id':
            if t[0] == 'p' and t[1] == ';':
                continue
            raise RErr('item starts with %s' % (t[:2],))
        k = t[1]
        if k == 'use':
            s = []
            while not p.isp(';'):
                if p.eof():
                    raise RErr('use')
                s.append(p.next())
            p.next()
            out.append(Item(kind='use', attrs=at, text=text(s)))
        elif k in ('const', 'static', 'type'):
            name = p.next()[1]
            g = generics(p)
            ty = None
            if p.isp(':'):
                p.next()
                ty = p.type_(stop=('=', ';'))
            e = None
            if p.isp('='):
                p.next()
                if k == 'type':
                    ty = p.type_(stop=(';',))
                else:
                    e = p.expr(0)
            if not p.isp(';'):
                raise RErr('%s without ;' % k)
            p.next()
            out.append(Item(kind=k, attrs=at, name=name, ty=ty, e=e, holes=p.holes))
            p.holes = []
        elif k == 'enum':
            name = p.next()[1]
            g = generics(p)
            body = p.next()
            if body[0] != 'g' or body[1] != '{':
                raise RErr('enum body')
            vs = []
            for part in split(body[2]):
                q = P(part)
                attrs(q)
                n = q.next()
                pay, disc = None, None
                if q.isg('('):
                    pay = [text(x).replace(' ', '') for x in split(q.next()[2])]
                elif q.isg('{'):
                    pay = {}
                    for x in split(q.next()[2]):
                        r = P(x)
                        attrs(r)
                        fn = r.next()[1]
                        if fn == '#':
                            fn = r.next()[1]
                        r.exp(':')
                        pay[fn] = text(r.t[r.i:])
                if q.isp('='):
                    q.next()
                    disc = q.whole()
                if not q.eof() or n[0] not in ('id', 'hole'):
                    raise RErr('variant')
                vs.append((n[1], pay, disc))
            out.append(Item(kind='enum', attrs=at, name=name, variants=vs, pub=pub))
        elif k == 'struct':
            name = p.next()[1]
            g = generics(p)
            b = p.next()
            fs = []
            if b[0] == 'g':
                for part in split(b[2]):
                    q = P(part)
                    fa = attrs(q)
                    v = vis(q)
                    if b[1] == '{':
                        n = q.next()[1]
                        q.exp(':')
                    else:
                        n = str(len(fs))
                    fs.append((n, text(q.t[q.i:]), v))
                if b[1] == '(':
                    if not p.isp(';'):
                        raise RErr('tuple struct without ;')
                    p.next()
            out.append(Item(kind='struct', attrs=at, name=name, fields=fs, tuple=b[0] == 'g' and b[1] == '(', pub=pub, toks=b[2] if b[0] == 'g' else []))
        elif k == 'impl':
            g = generics(p)
            s = []
            while not p.isg('{'):
                if p.eof():
                    raise RErr('impl')
                s.append(p.next())
            body = p.next()
            h = text(s).replace(' ', '') if not any(x[:2] == ('id', 'for') for x in s) else None
            tr = None
            if h is None:
                i = [x[:2] for x in s].index(('id', 'for'))
                tr, h = text(s[:i]).replace(' ', ''), text(s[i + 1:]).replace(' ', '')
            out.append(Item(kind='impl', attrs=at, name=h, trait=tr, its=items(body[2])))
        elif k == 'fn':
            name = p.next()[1]
            g = generics(p)
            a = p.next()
            if a[0] != 'g' or a[1] != '(':
                raise RErr('fn')
            params = []
            for part in split(a[2]):
                q = P(part)
                if any(x[:2] == ('id', 'self') for x in part) and not any(x[0] == 'p' and x[1] == ':' for x in part):
                    params.append(('self', text(part)))
                    continue
                pat = q.pattern((':',))
                q.exp(':')
                params.append((pat.strip(), text(q.t[q.i:])))
            ret = None
            if p.isp('->'):
                p.next()
                r = []
                while not p.isg('{') and not p.isp(';'):
                    if p.eof():
                        raise RErr('fn body')
                    r.append(p.next())
                ret = text(r)
            body = None
            bt = None
            if p.isg('{'):
                bt = p.next()[2]
                try:
                    body = P(bt).stmts()
                except RErr as x:
                    body = None
            else:
                p.next()
            out.append(Item(kind='fn', attrs=at, name=name, params=params, ret=ret, body=body, toks=bt, is_async=is_async, unsafe=unsafe, generics=g, pub=pub))
        elif k == 'mod':
            name = p.next()[1]
            b = p.next()
            out.append(Item(kind='mod', attrs=at, name=name, its=items(b[2]) if b[0] == 'g' else []))
        elif k == 'trait':
            name = p.next()[1]
            while not p.isg('{'):
                if p.eof():
                    raise RErr('trait')
                p.next()
            p.next()
            out.append(Item(kind='trait', attrs=at, name=name))
        else:
            raise RErr('item %s' % k)
    return out


def parse(v):
    """items of an emitted token value"""
    return items(lex(v[1]))
