"""Hash-consed terms: the value domain of the analysis.  Equality is identity."""


class T:
    __slots__ = ('t', 'a', 'n')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.n < o.n


_tab = {}


def mk(t, *a):
    k = (t, a)
    r = _tab.get(k)
    if r is None:
        r = T()
        r.t = t
        r.a = a
        r.n = len(_tab)
        _tab[k] = r
    return r


_uid = [0]


def fresh(name, *extra):
    _uid[0] += 1
    return mk('sym', name, _uid[0], *extra)


MOVED = mk('moved')
UNINIT = mk('uninit')
UNIT = mk('agg', 'tuple', None, None, ())


def I(n):
    return mk('i', int(n))


TRUE = I(1)
FALSE = I(0)


def show(x, d=0):
    if not isinstance(x, T):
        if isinstance(x, tuple):
            return '(' + ','.join(show(y, d + 1) for y in x) + ')'
        return str(x)
    if d > 8:
        return '..'
    t, a = x.t, x.a
    if t == 'i':
        return str(a[0])
    if t == 'sym':
        return '%s#%d' % (a[0], a[1])
    if t == 'fld':
        return '%s.%s%s' % (show(a[0], d + 1), (a[1] + '.') if a[1] else '', a[2])
    if t == 'lin':
        s = ''
        for atom, c in a[1]:
            s += ('%+d*' % c if abs(c) != 1 else ('+' if c > 0 else '-')) + show(atom, d + 1)
        if a[0] or not s:
            s += '%+d' % a[0]
        return '(' + s + ')'
    if t == 'agg':
        return '%s%s{%s%s}' % (a[0] if isinstance(a[0], str) else a[0][1], ('::' + a[1]) if a[1] else '',
                               ','.join('%s:%s' % (f, show(v, d + 1)) for f, v in a[3]),
                               (',..' + show(a[2], d + 1)) if a[2] else '')
    if t == 'ref':
        return '&' + show(a[0], d + 1) + ''.join('.' + str(s[1]) for s in a[1])
    return '%s(%s)' % (t, ','.join(show(y, d + 1) for y in a))


# ---------------------------------------------------------------- linear forms
def lin(v):
    """-> (const, {atom:coef})"""
    if v.t == 'i':
        return v.a[0], {}
    if v.t == 'lin':
        return v.a[0], dict(v.a[1])
    return 0, {v: 1}


def unlin(c, m):
    m = {k: x for k, x in m.items() if x}
    if not m:
        return I(c)
    if c == 0 and len(m) == 1:
        (k, x), = m.items()
        if x == 1:
            return k
    return mk('lin', c, tuple(sorted(m.items(), key=lambda kv: kv[0].n)))


def add(a, b, k=1):
    c1, m1 = lin(a)
    c2, m2 = lin(b)
    for x, y in m2.items():
        m1[x] = m1.get(x, 0) + k * y
    return unlin(c1 + k * c2, m1)


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    c, m = lin(a)
    return unlin(c * k, {x: y * k for x, y in m.items()})


# comparisons as canonical boolean terms: le0(L) means L <= 0 over the integers
def le0(L):
    c, m = lin(L)
    if not m:
        return TRUE if c <= 0 else FALSE
    return mk('le0', L)


def b_le(a, b):
    return le0(sub(a, b))


def b_lt(a, b):
    return le0(add(sub(a, b), I(1)))


def b_not(b):
    if b.t == 'i':
        return FALSE if b.a[0] else TRUE
    if b.t == 'not':
        return b.a[0]
    if b.t == 'le0':
        # not (L<=0)  <=> L>=1 <=> 1-L<=0
        return le0(sub(I(1), b.a[0]))
    return mk('not', b)


def b_eqn(a, b):
    d = sub(a, b)
    c, m = lin(d)
    if not m:
        return TRUE if c == 0 else FALSE
    first = min(m, key=lambda k: k.n)
    if m[first] < 0:
        d = scale(d, -1)
    return mk('eq0', d)


def subterms(x, acc=None):
    if acc is None:
        acc = set()
    if isinstance(x, T):
        if x in acc:
            return acc
        acc.add(x)
        for y in x.a:
            subterms(y, acc)
    elif isinstance(x, tuple):
        for y in x:
            subterms(y, acc)
    return acc


def rewrite(x, m, memo):
    """replace terms according to m (dict T->T), rebuilding and renormalising"""
    if isinstance(x, T):
        r = memo.get(x)
        if r is not None:
            return r
        if x in m:
            r = m[x]
        elif not x.a:
            r = x
        else:
            na = tuple(rewrite(y, m, memo) for y in x.a)
            if all(p is q for p, q in zip(na, x.a)):
                r = x
            elif x.t == 'lin':
                r = I(na[0])
                for atom, c in na[1]:
                    r = add(r, atom, c)
            elif x.t == 'le0':
                r = le0(na[0])
            elif x.t == 'eq0':
                r = b_eqn(na[0], I(0))
            elif x.t == 'not':
                r = b_not(na[0])
            else:
                r = mk(x.t, *na)
            if r in m and r is not x:
                r = m[r]
        memo[x] = r
        return r
    if isinstance(x, tuple):
        nx = tuple(rewrite(y, m, memo) for y in x)
        if all(p is q for p, q in zip(nx, x)):
            return x
        return nx
    return x


# ---------------------------------------------------------------- aggregates
def agg(kind, variant, fields, base=None):
    return mk('agg', kind, variant, base, tuple(sorted(fields.items())))


def tup(*vs):
    return agg('tuple', None, {str(i): v for i, v in enumerate(vs)})


OPT = 'core::option::Option'
RES = 'core::result::Result'


def some(v):
    return agg(OPT, 'Some', {'0': v})


NONE = agg(OPT, 'None', {})


def ok(v):
    return agg(RES, 'Ok', {'0': v})


def err(v):
    return agg(RES, 'Err', {'0': v})


def ref(root, path=()):
    return mk('ref', root, tuple(path))


def F(name, variant=None):
    return ('f', name, variant)


def fld(v, name, variant=None):
    """project a field out of a value"""
    if v.t == 'agg':
        for f, x in v.a[3]:
            if f == name:
                if v.a[1] is None or variant is None or v.a[1] == variant:
                    return x
        if v.a[2] is not None:
            return fld(v.a[2], name, variant)
        return mk('fld', v, variant, name)
    if v.t in ('moved', 'uninit'):
        return v
    if v.t == 'clo':
        for f, x in v.a[1]:
            if f == name:
                return x
    return mk('fld', v, variant, name)


def setfld(v, name, variant, x):
    if v.t == 'agg':
        d = dict(v.a[3])
        d[name] = x
        return mk('agg', v.a[0], v.a[1] if v.a[1] is not None else variant, v.a[2], tuple(sorted(d.items())))
    if v.t == 'clo':
        d = dict(v.a[1])
        d[name] = x
        return mk('clo', v.a[0], tuple(sorted(d.items(), key=lambda kv: int(kv[0]))), v.a[2])
    base = None if v.t in ('moved', 'uninit') else v
    return mk('agg', '?', variant, base, ((name, x),))
