"""Loads a MIR dump (see driver/) and answers structural questions about it."""
import json


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.raw_types = d['types']
        self._ty = {}
        self.fns = {}
        for f in d['fns']:
            fn = Fn(self, f)
            if fn.path in self.fns and fn.ext:
                continue
            self.fns[fn.path] = fn
        self.adts = {}
        for a in d['adts']:
            self.adts[a['n']] = Adt(self, a)
        self.impls = [Impl(self, i) for i in d['impls']]
        self.by_trait = {}
        for i in self.impls:
            self.by_trait.setdefault(i.trait, []).append(i)

    def local_fns(self):
        return [f for f in self.fns.values() if not f.ext]

    def ty(self, i):
        r = self._ty.get(i)
        if r is None:
            t = self.raw_types[i]
            k = t['k']
            self._ty[i] = ('rec', i)
            a = tuple(self.ty(x) for x in t.get('a', ()))
            if k == 'adt':
                r = ('adt', t['n'], a)
            elif k in ('ref', 'ptr'):
                r = (k, t['m'], a)
            elif k in ('tuple', 'slice', 'array'):
                r = (k, None, a)
            elif k in ('param', 'fndef', 'closure', 'coroutine', 'alias', 'prim'):
                r = (k, t['n'], a)
            else:
                r = (k, t['s'], ())
            self._ty[i] = r
        return r

    def find_impl(self, trait, selfty):
        """-> (impl, env) of the local impl of `trait` for `selfty`"""
        for im in self.by_trait.get(trait, ()):
            env = {}
            if unify(im.self_ty, selfty, env):
                return im, env
        return None, None


def unify(pat, t, env):
    if pat[0] == 'param':
        if pat[1] in env:
            return env[pat[1]] == t
        env[pat[1]] = t
        return True
    if pat[0] != t[0] or pat[1] != t[1] or len(pat[2]) != len(t[2]):
        return False
    return all(unify(x, y, env) for x, y in zip(pat[2], t[2]))


def tsubst(t, env, depth=0):
    if t[0] == 'param':
        return env.get(t[1], t)
    if not t[2] or depth > 12:
        return t
    a = tuple(tsubst(x, env, depth + 1) if len(x) == 3 else x for x in t[2])
    if all(p is q for p, q in zip(a, t[2])):
        return t
    return (t[0], t[1], a)


def tshow(t):
    if t[0] in ('ref', 'ptr'):
        return '&' + ('mut ' if t[1] else '') + tshow(t[2][0])
    if t[0] == 'tuple':
        return '(' + ','.join(map(tshow, t[2])) + ')'
    s = str(t[1])
    if len(t) > 2 and t[2]:
        s += '<' + ','.join(map(tshow, t[2])) + '>'
    return s


class Adt:
    def __init__(self, p, a):
        self.name = a['n']
        self.enum = a['enum']
        self.local = a['local']
        self.dtor = a['dtor']
        self.generics = [p.ty(x) for x in a['generics']]
        self.variants = []
        self.span = a['span']
        for v in a['vs']:
            self.variants.append((v['n'], v['d'], [(f[0], p.ty(f[1]) if f[1] is not None else None, f[2]) for f in v['f']]))
        self.by_discr = {v[1]: v[0] for v in self.variants}
        self.discr_of = {v[0]: v[1] for v in self.variants}

    def fields(self, variant=None):
        for n, d, fs in self.variants:
            if variant is None or n == variant:
                return fs
        return []


class Impl:
    def __init__(self, p, i):
        self.trait = i['trait']
        self.self_ty = p.ty(i['self'])
        self.unsafe = i['unsafe']
        self.derived = i['derived']
        self.methods = dict(i['methods'])
        self.span = i['span']


class Fn:
    def __init__(self, p, f):
        self.p = p
        self.path = f['path']
        self.name = f['name']
        self.kind = f['kind']
        self.span = f['span']
        self.end = f['end']
        self.argc = f['argc']
        self.vis = f['vis']
        self.coroutine = f['coroutine']
        self.ext = f.get('ext', False)
        self.impl_trait = f.get('impl_trait')
        self.impl_self = p.ty(f['impl_self']) if 'impl_self' in f else None
        self.generics = [p.ty(x) for x in f['generics']]
        self.captures = f.get('captures', [])
        self.locals = [(p.ty(t), n) for t, n in f['locals']]
        self.bbs = f['bbs']
        self._loops = None
        self._live = None

    def __repr__(self):
        return 'Fn(%s)' % self.path

    def file(self):
        return self.span[0]

    # ------------------------------------------------------------ CFG
    def succs(self, b, unwind=False):
        t = self.bbs[b]['t']
        k = t[0]
        if k == 'goto':
            r = [t[1]]
        elif k == 'switch':
            r = [x[1] for x in t[2]] + [t[3]]
        elif k == 'drop':
            r = [t[3]]
            if unwind and t[5] is not None:
                r.append(t[5])
        elif k == 'call':
            r = [] if t[4] is None else [t[4]]
            if unwind and t[6] is not None:
                r.append(t[6])
        elif k == 'assert':
            r = [t[3]]
        elif k == 'yield':
            r = [t[2]]
            if t[4] is not None:
                r.append(t[4])
        else:
            r = []
        return r

    def loops(self):
        """-> dict head -> set of blocks of the natural loop; and set of back edges"""
        if self._loops is None:
            n = len(self.bbs)
            # dominators (iterative)
            order = []
            seen = set()
            stack = [(0, iter(self.succs(0, True)))]
            seen.add(0)
            while stack:
                b, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(self.succs(s, True))))
                        break
                else:
                    order.append(b)
                    stack.pop()
            order.reverse()
            idx = {b: i for i, b in enumerate(order)}
            preds = {b: [] for b in order}
            for b in order:
                for s in self.succs(b, True):
                    preds[s].append(b)
            idom = {0: 0}
            ch = True
            while ch:
                ch = False
                for b in order[1:]:
                    new = None
                    for q in preds[b]:
                        if q in idom:
                            if new is None:
                                new = q
                            else:
                                x, y = q, new
                                while x != y:
                                    while idx[x] > idx[y]:
                                        x = idom[x]
                                    while idx[y] > idx[x]:
                                        y = idom[y]
                                new = x
                    if idom.get(b) != new:
                        idom[b] = new
                        ch = True

            def dom(a, b):
                while True:
                    if a == b:
                        return True
                    if b == 0:
                        return False
                    b = idom[b]
            heads = {}
            back = set()
            for b in order:
                for s in self.succs(b, True):
                    if dom(s, b):
                        back.add((b, s))
                        body = heads.setdefault(s, {s})
                        st = [b]
                        while st:
                            x = st.pop()
                            if x not in body:
                                body.add(x)
                                st.extend(preds[x])
            self._loops = (heads, back)
        return self._loops

    # ------------------------------------------------------------ liveness of locals
    def live_in(self, b):
        if self._live is None:
            self._compute_live()
        return self._live[b]

    def _compute_live(self):
        n = len(self.bbs)
        borrowed = set()

        def uses_place(p, acc):
            acc.add(p[0])
            for e in p[1:]:
                if e[0] == '[]':
                    acc.add(e[1])

        def uses_op(o, acc):
            if o[0] in ('copy', 'move'):
                uses_place(o[1], acc)

        def rv_uses(r, acc):
            k = r[0]
            if k in ('use', 'repeat'):
                uses_op(r[1], acc)
            elif k in ('ref', 'rawptr'):
                uses_place(r[2], acc)
                if len(r[2]) == 1 or r[2][1][0] not in ('*', '*raw'):
                    borrowed.add(r[2][0])
            elif k == 'cast':
                uses_op(r[2], acc)
            elif k == 'bin':
                uses_op(r[2], acc)
                uses_op(r[3], acc)
            elif k == 'un':
                uses_op(r[2], acc)
            elif k == 'discr':
                uses_place(r[1], acc)
            elif k == 'agg':
                for o in r[3]:
                    uses_op(o, acc)
        use = []
        for b in self.bbs:
            u, d = set(), set()

            def note(acc):
                for x in acc:
                    if x not in d:
                        u.add(x)
            for s in b['s']:
                if s[0] == '=':
                    acc = set()
                    rv_uses(s[2], acc)
                    if len(s[1]) > 1:
                        uses_place(s[1], acc)
                    note(acc)
                    if len(s[1]) == 1:
                        d.add(s[1][0])
                elif s[0] in ('dead', 'live'):
                    d.add(s[1])
            t = b['t']
            acc = set()
            if t[0] == 'switch':
                uses_op(t[1], acc)
            elif t[0] == 'drop':
                uses_place(t[1], acc)
            elif t[0] == 'call':
                uses_op(t[1], acc)
                for o in t[2]:
                    uses_op(o, acc)
                if len(t[3]) > 1:
                    uses_place(t[3], acc)
            elif t[0] == 'assert':
                uses_op(t[1], acc)
            elif t[0] == 'yield':
                uses_op(t[1], acc)
            elif t[0] == 'return':
                acc.add(0)
            note(acc)
            if t[0] == 'call' and len(t[3]) == 1:
                d.add(t[3][0])
            use.append((u, d))
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                out = set()
                for s in self.succs(b, True):
                    out |= live[s]
                u, d = use[b]
                new = u | (out - d)
                if new != live[b]:
                    live[b] = new
                    ch = True
        self._live = live
        self.borrowed = borrowed
