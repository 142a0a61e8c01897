"""Path-sensitive abstract interpreter over MIR.

Values are hash-consed terms; the state carries facts about terms (variants, comparisons), the locks held, and the
typestate of cache shards (shard.py).  Crate-local callees, closures and destructors are inlined.  Loops are iterated
to a fixpoint over canonicalised states: a state equal (up to renaming) to one already seen at the same loop head and
call stack is cut.  Nothing of the analysed program is executed and no solver is involved."""
import sys
import time
from terms import *
from mir import tsubst, tshow, unify

sys.setrecursionlimit(20000)


SHARD = 'shard::CacheShard'


class Restart(Exception):
    pass


class Limit(Exception):
    pass


class Stop(Exception):
    pass


class Frame:
    __slots__ = ('fn', 'bb', 'fid', 'env', 'ret', 'uw', 'loopver', 'span', 'callspan')

    def __init__(self, fn, fid, env, ret, uw, callspan=None):
        self.fn = fn
        self.bb = 0
        self.fid = fid
        self.env = env
        self.ret = ret
        self.uw = uw
        self.loopver = {}
        self.span = None
        self.callspan = callspan

    def copy(self):
        f = Frame(self.fn, self.fid, self.env, self.ret, self.uw, self.callspan)
        f.bb = self.bb
        f.loopver = self.loopver
        f.span = self.span
        return f


class State:
    __slots__ = ('frames', 'mem', 'vars', 'bools', 'les', 'locks', 'sh', 'auto', 'ev', 'ntag', 'shver', 'nfid', 'exitk', 'unwinding', 'note', 'sub')

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.vars = {}    # opaque enum term -> variant name
        self.bools = {}   # boolean term -> bool
        self.les = {}     # L -> 1, meaning L <= 0
        self.locks = ()
        self.sh = {}
        self.auto = {}
        self.ev = None
        self.ntag = {}
        self.shver = 0
        self.nfid = 0
        self.exitk = None
        self.unwinding = False
        self.note = None
        self.sub = {}

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.vars = dict(self.vars)
        s.bools = dict(self.bools)
        s.les = dict(self.les)
        s.locks = self.locks
        s.sh = {k: v.copy() for k, v in self.sh.items()}
        s.auto = dict(self.auto)
        s.ev = self.ev
        s.ntag = dict(self.ntag)
        s.shver = self.shver
        s.nfid = self.nfid
        s.exitk = self.exitk
        s.unwinding = self.unwinding
        s.note = self.note
        s.sub = self.sub
        return s

    def top(self):
        return self.frames[-1]

    def events(self):
        r = []
        e = self.ev
        while e is not None:
            r.append(e[0])
            e = e[1]
        r.reverse()
        return r


class Event:
    __slots__ = ('k', 'd', 'span', 'fn', 'locks', 'stack')

    def __init__(self, k, d, span, fn, locks, stack=()):
        self.k = k
        self.d = d
        self.span = span
        self.fn = fn
        self.locks = locks
        self.stack = stack

    def __repr__(self):
        return '%s%s @%s:%s' % (self.k, self.d, self.span[0] if self.span else '?', self.span[1] if self.span else '?')


def frozen_env(env):
    return tuple(sorted(env.items()))


FNTRAITS = ('core::ops::function::FnOnce', 'core::ops::function::FnMut', 'core::ops::function::Fn')


class Engine:
    # standard helpers small enough to be read like the crate's own code
    SMALL = ('core::option', 'core::result', 'core::bool', 'core::cmp::Ordering', 'core::ops::control_flow', 'core::task::poll')
    # foreign functions without effects on what is tracked: an arbitrary result is all there is to know about them
    HARMLESS = {'hashbrown::table::HashTable::<T>::with_capacity', 'std::thread::functions::available_parallelism',
                'std::thread::functions::panicking', 'std::thread::functions::yield_now', 'std::thread::functions::sleep',
                'core::hint::spin_loop', 'std::backtrace::Backtrace::status'} | \
        {'core::time::Duration::' + x for x in ('as_secs', 'as_millis', 'as_micros', 'subsec_millis', 'subsec_micros', 'subsec_nanos', 'as_secs_f64',
                                                'as_secs_f32', 'from_secs', 'from_millis', 'from_micros', 'from_secs_f64', 'from_secs_f32', 'mul_f64',
                                                'mul_f32', 'div_f64', 'div_f32', 'checked_mul', 'checked_div', 'saturating_mul', 'abs_diff')}
    MAX_PATHS = 200000
    MAX_HEAD = 4000

    def __init__(self, prog, monitors=(), opts=None):
        self.p = prog
        self.mon = list(monitors)
        self.opts = opts or {}
        self.loopinfo = {}
        self.deadline = None
        self.unknown = {}
        self.covered = set()
        self.stats = dict(paths=0, exits=0, panics=0, heads=0, cuts=0, steps=0)
        self.models = {}
        self.tymodels = []
        self.khandlers = {}
        import models, shard
        models.install(self)
        shard.install(self)

    # ------------------------------------------------------------------ events
    def emit(self, st, k, *d, span=None):
        fr = None
        for f in reversed(st.frames):
            if f.fn is not None:
                fr = f
                break
        e = Event(k, d, span or (fr.span if fr else None), fr.fn.path if fr else '?', st.locks,
                  tuple((f.fn.path, f.callspan) for f in st.frames if f.fn is not None))
        st.ev = (e, st.ev)
        for m in self.mon:
            m.on_event(self, st, e)

    # ------------------------------------------------------------------ facts
    def adt_of_term(self, v, adt):
        return self.p.adts.get(adt)

    def variant(self, st, v):
        if v.t == 'agg':
            if v.a[1] is not None:
                return v.a[1]
            if v.a[2] is not None:
                return self.variant(st, v.a[2])
            return None
        return st.vars.get(v)

    def assume_variant(self, st, v, name):
        cur = self.variant(st, v)
        if cur is not None:
            if isinstance(cur, tuple):
                if name in cur[1]:
                    return False
            else:
                return cur == name
        base = v
        while base.t == 'agg' and base.a[2] is not None:
            base = base.a[2]
        ex = st.vars.get(base)
        if isinstance(ex, tuple) and name in ex[1]:
            return False
        st.vars[base] = name
        for m in self.mon:
            m.on_variant(self, st, base, name)
        if base.t == 'ent' and name == 'Placeholder':
            return self.plh_hook(self, st, base)
        if base.t in ('sym', 'fld') and name == 'None' and self.head_hook is not None:
            return self.head_hook(self, st, base)
        return True

    def known_variant(self, st, v):
        c = self.variant(st, v)
        return c if isinstance(c, str) else None

    def split_variant(self, st, v, adt):
        """-> list of (state, variant name)"""
        c = self.known_variant(st, v)
        if c is not None:
            return [(st, c)]
        out = []
        names = [x[0] for x in adt.variants]
        ex = self.variant(st, v)
        for i, n in enumerate(names):
            if isinstance(ex, tuple) and n in ex[1]:
                continue
            s2 = st.copy()
            if self.assume_variant(s2, v, n):
                out.append((s2, n))
        return out

    def prove_le(self, st, L, depth=2):
        c, m = lin(L)
        if c <= 0 and all(x <= 0 for x in m.values()):
            return True
        if depth == 0:
            return False
        for f in st.les:
            fc, fm = lin(f)
            # only useful if it cancels one of the positive atoms
            if not any(m.get(a, 0) > 0 and x > 0 for a, x in fm.items()) and not (not any(x > 0 for x in m.values()) and fc > 0):
                continue
            if self.prove_le(st, sub(L, f), depth - 1):
                return True
        return False

    def decide(self, st, b):
        if b.t == 'i':
            return bool(b.a[0])
        if b in st.bools:
            return st.bools[b]
        if b.t == 'not':
            r = self.decide(st, b.a[0])
            return None if r is None else not r
        if b.t == 'le0':
            L = b.a[0]
            if self.prove_le(st, L):
                return True
            if self.prove_le(st, sub(I(1), L)):
                return False
            return None
        if b.t == 'eq0':
            d = b.a[0]
            c, m = lin(d)
            dis = [a for a in m if a.t == 'discr']
            if dis:
                d2 = d
                for a in dis:
                    v = self.known_variant(st, a.a[0])
                    adt = self.p.adts.get(a.a[1])
                    if v is not None and adt:
                        d2 = add(d2, sub(I(adt.discr_of[v]), a), m[a])
                    elif adt and len(m) == 1:
                        want = -c * m[a]
                        ex = self.variant(st, a.a[0])
                        if isinstance(ex, tuple) and adt.by_discr.get(want) in ex[1]:
                            return False
                if d2 is not d:
                    c, m = lin(d2)
                    if not m:
                        return c == 0
                return None
            if c == 0 and len(m) == 2 and sum(m.values()) == 0 and abs(next(iter(m.values()))) == 1:
                x, y = m
                r = st.bools.get(mk('eq', x, y))
                if r is None:
                    r = st.bools.get(mk('eq', y, x))
                if r is not None:
                    return r
            if self.prove_le(st, d) and self.prove_le(st, scale(d, -1)):
                return True
            if self.prove_le(st, add(d, I(1))) or self.prove_le(st, sub(I(1), d)):
                return False
            return None
        if b.t == 'eq':
            x, y = b.a
            if x is y:
                return True
            for h in self.distinct_hooks:
                if h(self, st, x, y):
                    return False
            if not self.opts.get('slab', True):
                z = b_eqn(x, y)
                if z.t == 'eq0' and z in st.bools:
                    return st.bools[z]
            return None
        if b.t == 'band':
            r = [self.decide(st, x) for x in b.a]
            if False in r:
                return False
            return True if all(r) else None
        if b.t == 'bor':
            r = [self.decide(st, x) for x in b.a]
            if True in r:
                return True
            return False if all(x is False for x in r) else None
        return None

    distinct_hooks = ()

    def assume(self, st, b, val):
        """add a fact; False if infeasible"""
        r = self.decide(st, b)
        if r is not None:
            return r == val
        if b.t == 'not':
            return self.assume(st, b.a[0], not val)
        if b.t == 'le0':
            L = b.a[0] if val else sub(I(1), b.a[0])
            st.les[L] = 1
            return True
        if b.t == 'eq0':
            d = b.a[0]
            c, m = lin(d)
            if len(m) == 1:
                (a, k), = m.items()
                if a.t == 'discr':
                    adt = self.p.adts.get(a.a[1])
                    want = adt.by_discr.get(-c * k) if adt else None
                    if val:
                        return want is not None and self.assume_variant(st, a.a[0], want)
                    if want is None:
                        return True
                    ex = st.vars.get(a.a[0])
                    ex = set(ex[1]) if isinstance(ex, tuple) else set()
                    ex.add(want)
                    rest = [n for n in adt.discr_of if n not in ex]
                    if len(rest) == 1:
                        return self.assume_variant(st, a.a[0], rest[0])
                    st.vars[a.a[0]] = ('not', tuple(sorted(ex)))
                    return bool(rest)
            st.bools[b] = val
            if val:
                if len(m) == 2 and c == 0 and sorted(m.values()) == [-1, 1]:
                    x, y = m.keys()
                    # prefer to keep hash terms
                    if self.rank(x) < self.rank(y):
                        x, y = y, x
                    return self.unify(st, y, x)
                st.les[d] = 1
                st.les[scale(d, -1)] = 1
            else:
                if all(x > 0 for x in m.values()) and c == 0:
                    st.les[sub(I(1), d)] = 1
                elif all(x < 0 for x in m.values()) and c == 0:
                    st.les[add(d, I(1))] = 1
                else:
                    # one-sided knowledge already present?
                    if self.prove_le(st, d):
                        st.les[add(d, I(1))] = 1
                    elif self.prove_le(st, scale(d, -1)):
                        st.les[sub(I(1), d)] = 1
            return True
        if b.t == 'eq':
            if val:
                x, y = b.a
                if self.rank(x) < self.rank(y):
                    x, y = y, x
                return self.unify(st, y, x)
            st.bools[b] = False
            return True
        if b.t == 'band' and val or b.t == 'bor' and not val:
            return all(self.assume(st, x, val) for x in b.a)
        st.bools[b] = val
        for m in self.mon:
            m.on_bool(self, st, b, val)
        if val and b.t == 'equiv':
            return self.equiv_hook(self, st, b) and self.on_equiv(st, b)
        return True

    def on_equiv(self, st, b):
        k1, k2 = b.a
        h1, h2 = self.H(k1), self.H(k2)
        if h1 is not h2:
            if self.rank(h1) < self.rank(h2):
                h1, h2 = h2, h1
            return self.unify(st, h2, h1)
        return True

    @staticmethod
    def rank(t):
        """which of two equal terms to keep"""
        if t.t == 'H':
            return 5 if not any(s.t in ('ent',) for s in subterms(t)) else 4
        if t.t in ('fld', 'W'):
            return 3
        if t.t == 'next':
            return 0
        if t.t == 'sym':
            return 1
        return 2

    @staticmethod
    def H(key):
        while key.t in ('clone', 'owned'):
            key = key.a[0]
        return mk('H', key)

    def unify(self, st, a, b):
        """rewrite a to b everywhere"""
        if a is b:
            return True
        if b.t == 'fld' and a in subterms(b):
            a, b = b, a
        m = {a: b}
        memo = {}
        rw = lambda x: rewrite(x, m, memo)
        again = []
        ns = {}
        for k, v in st.sub.items():
            v2 = rw(v)
            ns[k] = v2
            k2 = rw(k)
            if k2 is not k and k2 is not v2 and (k2 not in st.sub or rw(st.sub[k2]) is not v2):
                again.append((k2, v2))
        st.sub = ns
        st.sub[a] = b
        st.mem = {rw(k): rw(v) for k, v in st.mem.items()}
        v = st.mem.get(mk('D', b))
        if v is not None and v.t == 'agg' and v.a[1] is None:
            # what was known of the contents under the other name
            for f, x in v.a[3]:
                t = mk('fld', mk('deref', b), None, f)
                if t in st.sub and st.sub[t] is not x and x.t != 'agg':
                    again.append((st.sub[t], x))
        nv = {}
        for k, v in st.vars.items():
            k2 = rw(k)
            o = nv.get(k2)
            if o is not None and o != v:
                if isinstance(o, str) and isinstance(v, str):
                    return False
                if isinstance(o, str):
                    if o in v[1]:
                        return False
                    continue
                if isinstance(v, str) and v in o[1]:
                    return False
            if k2.t == 'agg' and k2.a[1] is not None:
                if isinstance(v, str) and v != k2.a[1]:
                    return False
                continue
            nv[k2] = v
        st.vars = nv
        nb = {}
        for k, v in st.bools.items():
            k2 = rw(k)
            if k2.t == 'i':
                if bool(k2.a[0]) != v:
                    return False
                continue
            if k2.t == 'eq' and k2.a[0] is k2.a[1]:
                if not v:
                    return False
                continue
            if nb.get(k2, v) != v:
                return False
            nb[k2] = v
        st.bools = nb
        nl = {}
        for L in st.les:
            L2 = rw(L)
            if L2.t == 'i':
                if L2.a[0] > 0:
                    return False
                continue
            nl[L2] = 1
        st.les = nl
        st.locks = rw(st.locks)
        st.auto = {k: rw(v) for k, v in st.auto.items()}
        st.ntag = {rw(k): rw(v) for k, v in st.ntag.items()}
        st.sh = {rw(k): v for k, v in st.sh.items()}
        for k in list(st.sh):
            if not st.sh[k].rewrite(rw):
                return False
        for f in st.frames:
            if f.ret is not None:
                f.ret = rw(f.ret)
        st.bools.setdefault(mk('unified', a, b), True)
        if st.ev is not None:
            # events keep terms; remember the renaming for the monitors
            st.ev = (Event('unify', (a, b), None, '?', st.locks), st.ev)
        for k2, v2 in again:
            k2, v2 = st.sub.get(k2, k2), st.sub.get(v2, v2)
            if k2 is v2:
                continue
            if k2.t in ('i', 'agg') and v2.t in ('i', 'agg'):
                if k2.t == 'i' and v2.t == 'i':
                    return False
                continue
            if self.rank(v2) < self.rank(k2) or k2.t in ('i', 'agg'):
                k2, v2 = v2, k2
            if not self.unify(st, k2, v2):
                return False
        return True

    def branch(self, st, b):
        """-> list of (state, bool)"""
        r = self.decide(st, b)
        if r is not None:
            return [(st, r)]
        if b.t == 'eq0':
            c, m = lin(b.a[0])
            dis = [a for a in m if a.t == 'discr' and self.known_variant(st, a.a[0]) is None]
            if dis and len(m) > 1:
                out = []
                for s2, _ in self.split_variant(st, dis[0].a[0], self.p.adts[dis[0].a[1]]):
                    out += self.branch(s2, b)
                return out
            known = [a for a in m if a.t == 'discr' and self.known_variant(st, a.a[0]) is not None]
            if known:
                d = b.a[0]
                for a in known:
                    adt = self.p.adts[a.a[1]]
                    d = add(d, sub(I(adt.discr_of[self.known_variant(st, a.a[0])]), a), m[a])
                return self.branch(st, b_eqn(d, I(0)))
        out = []
        for v in (True, False):
            s2 = st.copy()
            if self.assume(s2, b, v):
                out.append((s2, v))
        return out

    # ------------------------------------------------------------------ memory
    def init_root(self, st, root):
        if root.t == 'D':
            p = root.a[0]
            return mk('deref', p)
        if root.t == 'slot':
            return self.init_slot(self, st, root)
        return UNINIT

    def rd(self, st, root, path=()):
        v = st.mem.get(root)
        if v is None:
            v = self.init_root(st, root)
        for s in path:
            if s[0] == 'f':
                v = fld(v, s[1], s[2])
            else:
                v = self.elem(v, s[1])
            if st.sub:
                v = st.sub.get(v, v)
        if st.sub:
            v = st.sub.get(v, v)
        return v

    @staticmethod
    def elem(v, i):
        if v.t == 'arr':
            for k, x in v.a[1]:
                if k is i:
                    return x
            return mk('elem', v.a[0], i)
        return mk('elem', v, i)

    def wr(self, st, root, path, x):
        if not path:
            st.mem[root] = x
        else:
            v = st.mem.get(root)
            if v is None:
                v = self.init_root(st, root)
            st.mem[root] = self._set(v, path, 0, x)
        if root.t == 'slot' or root in self.shard_roots(st):
            st.shver += 1

    def shard_roots(self, st):
        return {k.a[0] for k in st.sh}

    def _set(self, v, path, i, x):
        if i == len(path):
            return x
        s = path[i]
        if s[0] == 'f':
            return setfld(v, s[1], s[2], self._set(fld(v, s[1], s[2]), path, i + 1, x))
        sub_ = self._set(self.elem(v, s[1]), path, i + 1, x)
        if v.t == 'arr':
            d = [(k, y) for k, y in v.a[1] if k is not s[1]]
            return mk('arr', v.a[0], tuple(d + [(s[1], sub_)]))
        return mk('arr', v, ((s[1], sub_),))

    def deref(self, st, v):
        """pointer value -> (root, path)"""
        if v.t == 'ref':
            return v.a[0], v.a[1]
        if v.t == 'agg' and v.a[0] in ('box', 'pin'):
            return self.deref(st, v.a[3][0][1])
        return mk('D', v), ()

    def load(self, st, v):
        """read through a pointer value"""
        r, p = self.deref(st, v)
        return self.rd(st, r, p)

    def deep(self, st, v, n=4):
        """strip references"""
        while v.t == 'ref' and n:
            v = self.rd(st, v.a[0], v.a[1])
            n -= 1
        if v.t == 'sym' and len(v.a) > 2 and v.a[2] == 'ptr':
            return mk('deref', v)
        return v

    def lroot(self, fr, l):
        return mk('L', fr.fid, l)

    def place(self, st, pl):
        fr = st.top()
        root, path = mk('L', fr.fid, pl[0]), ()
        ty = fr.fn.locals[pl[0]][0]
        for e in pl[1:]:
            k = e[0]
            if k == '.':
                if ty is not None and ty[0] == 'adt' and ty[1] == SHARD and root.t != 'L':
                    self.get_sh(st, mk('shk', root, path))
                path = path + (('f', e[1], e[2]),)
                ty = self.p.ty(e[3])
            elif k == 'as':
                pass
            elif k in ('*', '*raw'):
                v = self.rd(st, root, path)
                root, path = self.deref(st, v)
                ty = ty[2][0] if ty and ty[2] and (ty[0] in ('ref', 'ptr') or ty[0] == 'adt' and ty[1].endswith('Box')) else None
            elif k == '[]':
                path = path + (('i', self.rd(st, mk('L', fr.fid, e[1]))),)
                ty = ty[2][0] if ty and ty[0] in ('slice', 'array') else None
            elif k == '[c]':
                path = path + (('i', I(e[1])),)
                ty = ty[2][0] if ty and ty[0] in ('slice', 'array') else None
            else:
                path = path + (('f', '?', None),)
                ty = None
        return root, path, ty

    def norm(self, st, v, ty):
        """give opaque pointers their explicit reference form"""
        if ty is not None and ty[0] in ('ref', 'ptr') and v.t in ('sym', 'fld', 'deref', 'elem', 'call'):
            return ref(mk('D', v))
        return v

    def operand(self, st, o):
        k = o[0]
        if k in ('copy', 'move'):
            root, path, ty = self.place(st, o[1])
            v = self.rd(st, root, path)
            v = self.norm(st, v, ty)
            if k == 'move':
                if not (ty is not None and ty[0] in ('ref', 'ptr', 'prim', 'bool') and root.t != 'L'):
                    self.wr_move(st, root, path)
            return v
        if k == 'int':
            return I(o[2])
        if k == 'fn':
            return mk('fnv', self.callee_id(o[2]), frozen_env_id(st.top().env))
        ty = self.p.ty(o[1])
        if k == 'const':
            if ty[0] == 'tuple' and not ty[2]:
                return UNIT
            if ty[0] == 'closure':
                return mk('clo', ty[1], (), frozen_env_id(st.top().env))
            if ty[0] == 'adt' and ty[1] == 'core::option::Option' and ty[2] and ty[2][0][0] in ('ref', 'ptr') and str(o[2]).startswith('{transmute(0x0000000000000000)'):
                return NONE
            return mk('const', o[2], tshow(ty))
        if k == 'rtcheck':
            return FALSE
        return fresh('op')

    def wr_move(self, st, root, path):
        if root.t in ('L', 'H') or path:
            self.wr(st, root, path, MOVED)
        else:
            self.wr(st, root, path, MOVED)

    _callees = []
    _callee_ix = {}

    @staticmethod
    def envs(i):
        return ENVS[i]

    def callee_id(self, c):
        i = self._callee_ix.get(id(c))
        if i is None:
            i = len(self._callees)
            self._callees.append(c)
            self._callee_ix[id(c)] = i
        return i

    def discr(self, st, v, ty):
        if v.t == 'fld' or True:
            pass
        name = ty[1] if ty and ty[0] == 'adt' else None
        adt = self.p.adts.get(name) if name else None
        kv = self.known_variant(st, v)
        if kv is not None and adt:
            d = adt.discr_of.get(kv)
            if d is not None:
                return I(d)
        base = v
        while base.t == 'agg' and base.a[2] is not None:
            base = base.a[2]
        return mk('discr', base, name or '?')

    def rvalue(self, st, r):
        k = r[0]
        if k == 'use':
            return self.operand(st, r[1])
        if k == 'ref' or k == 'rawptr':
            root, path, ty = self.place(st, r[2])
            return ref(root, path)
        if k == 'bin':
            a = self.operand(st, r[2])
            b = self.operand(st, r[3])
            return self.binop(st, r[1], a, b, self.p.ty(r[4]))
        if k == 'un':
            a = self.operand(st, r[2])
            if r[1] == 'Not':
                return b_not(a) if self.is_boolish(a) else mk('un', 'Not', a)
            if r[1] == 'PtrMetadata':
                return mk('len', self.load(st, a))
            return mk('un', r[1], a)
        if k == 'cast':
            v = self.operand(st, r[2])
            to, frm = self.p.ty(r[3]), self.p.ty(r[4])
            return self.cast(st, v, frm, to, r[1])
        if k == 'discr':
            root, path, ty = self.place(st, r[1])
            return self.discr(st, self.rd(st, root, path), tsubst(self.p.ty(r[2]), st.top().env))
        if k == 'agg':
            kind, names, ops = r[1], r[2], r[3]
            vs = [self.operand(st, o) for o in ops]
            if kind[0] == 'tuple':
                return tup(*vs) if vs else UNIT
            if kind[0] == 'adt':
                ty = self.p.ty(kind[1])
                v = agg(ty[1], kind[2], dict(zip(names, vs)))
                self.emit_agg(st, v, tsubst(ty, st.top().env))
                return v
            if kind[0] in ('closure', 'coroutine', 'coroutineclosure'):
                return mk('clo', kind[1], tuple((str(i), x) for i, x in enumerate(vs)), frozen_env_id(st.top().env))
            if kind[0] == 'array':
                return mk('arr', mk('array', len(vs)), tuple((I(i), x) for i, x in enumerate(vs)))
            return fresh('agg')
        return fresh('rv')

    def emit_agg(self, st, v, ty):
        a = self.p.adts.get(ty[1])
        if a is not None and a.local:
            for m in self.mon:
                m.on_agg(self, st, v, ty)

    @staticmethod
    def is_boolish(a):
        return a.t in ('le0', 'eq0', 'eq', 'not', 'equiv', 'pin', 'band', 'bor', 'bool') or a.t == 'i' and a.a[0] in (0, 1) or True

    def cast(self, st, v, frm, to, kind):
        n = to[1] if to[0] == 'prim' else None
        if 'IntToInt' in kind:
            return v
        if 'Pointer' in kind or 'PtrToPtr' in kind or 'Transmute' in kind or 'Subtype' in kind:
            return v
        return mk('cast', n or tshow(to), v)

    def numeric(self, ty):
        return ty[0] == 'prim' and ty[1] not in ('f64', 'f32', 'str')

    def binop(self, st, op, a, b, ty):
        base = op
        for suf in ('WithOverflow', 'Unchecked'):
            if base.endswith(suf):
                base = base[:-len(suf)]
        r = None
        isnum = self.numeric(ty)
        isbool = ty[0] == 'bool'
        if isnum and base == 'Add':
            r = add(a, b)
        elif isnum and base == 'Sub':
            r = sub(a, b)
        elif isnum and base == 'Mul' and (a.t == 'i' or b.t == 'i'):
            r = scale(b, a.a[0]) if a.t == 'i' else scale(a, b.a[0])
        elif isnum and base in ('Lt', 'Le', 'Gt', 'Ge'):
            r = {'Lt': lambda: b_lt(a, b), 'Le': lambda: b_le(a, b), 'Gt': lambda: b_lt(b, a), 'Ge': lambda: b_le(b, a)}[base]()
        elif base in ('Eq', 'Ne'):
            if isnum:
                r = b_eqn(a, b)
            elif isbool:
                if b.t == 'i':
                    r = a if b.a[0] else b_not(a)
                elif a.t == 'i':
                    r = b if a.a[0] else b_not(b)
                else:
                    r = mk('eqb', *sorted((a, b), key=lambda t: t.n))
            else:
                r = self.eq_term(a, b)
            if base == 'Ne':
                r = b_not(r)
        elif isbool and base == 'BitAnd':
            r = FALSE if FALSE in (a, b) else b if a is TRUE else a if b is TRUE else mk('band', a, b)
        elif isbool and base == 'BitOr':
            r = TRUE if TRUE in (a, b) else b if a is FALSE else a if b is FALSE else mk('bor', a, b)
        else:
            if a.t == 'i' and b.t == 'i' and base in ('Mul', 'Div', 'Rem', 'BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr'):
                x, y = a.a[0], b.a[0]
                try:
                    r = I({'Mul': lambda: x * y, 'Div': lambda: x // y, 'Rem': lambda: x % y, 'BitAnd': lambda: x & y,
                           'BitOr': lambda: x | y, 'BitXor': lambda: x ^ y, 'Shl': lambda: x << y, 'Shr': lambda: x >> y}[base]())
                except ZeroDivisionError:
                    r = None
            if r is None:
                r = mk('op', base, a, b)
        if op.endswith('WithOverflow'):
            return tup(r, FALSE)
        return r

    def eq_term(self, a, b):
        if a is b:
            return TRUE
        x, y = sorted((a, b), key=lambda t: t.n)
        return mk('eq', x, y)

    def values_equal(self, st, a, b, ty=None):
        """structural equality of two values -> list of (state, bool)"""
        if a is b:
            return [(st, True)]
        if a.t in ('i', 'lin') or b.t in ('i', 'lin'):
            return self.branch(st, b_eqn(a, b))
        if a.t == 'ref' and b.t == 'ref':
            return self.values_equal(st, self.load(st, a), self.load(st, b))
        va, vb = self.known_variant(st, a), self.known_variant(st, b)
        isenum = a.t == 'agg' and a.a[1] is not None or b.t == 'agg' and b.a[1] is not None or va is not None or vb is not None
        if isenum:
            adt = None
            for x in (a, b):
                if x.t == 'agg' and x.a[0] in self.p.adts:
                    adt = self.p.adts[x.a[0]]
            if adt is None:
                adt = self.p.adts.get(OPT)
            if va is None and vb is None:
                return self.branch(st, self.eq_term(a, b))
            if va is None:
                return [r for s2, _ in self.split_variant(st, a, adt) for r in self.values_equal(s2, a, b)]
            if vb is None:
                return [r for s2, _ in self.split_variant(st, b, adt) for r in self.values_equal(s2, a, b)]
            if va != vb:
                return [(st, False)]
            fs = [f[0] for f in adt.fields(va)]
            work = [(st, True)]
            for f in fs:
                nxt = []
                for s2, r in work:
                    if not r:
                        nxt.append((s2, False))
                    else:
                        nxt += self.values_equal(s2, fld(self.reload(s2, a), f, va), fld(self.reload(s2, b), f, va))
                work = nxt
            return work
        if a.t == 'agg' and b.t == 'agg' and a.a[0] == 'tuple':
            work = [(st, True)]
            for f, _ in a.a[3]:
                nxt = []
                for s2, r in work:
                    if not r:
                        nxt.append((s2, False))
                    else:
                        nxt += self.values_equal(s2, fld(a, f), fld(b, f))
                work = nxt
            return work
        return self.branch(st, self.eq_term(a, b))

    def reload(self, st, v):
        return v

    # ------------------------------------------------------------------ running
    def push(self, st, fn, args, env, ret, uw=None):
        fid = st.nfid
        st.nfid += 1
        fr = Frame(fn, fid, env, ret, uw, st.frames[-1].span if st.frames and st.frames[-1].fn else None)
        st.frames.append(fr)
        if len(st.frames) > 60:
            raise Limit('call depth')
        self.covered.add(fn.path)
        for i, a in enumerate(args):
            st.mem[mk('L', fid, i + 1)] = self.norm(st, a, tsubst(fn.locals[i + 1][0], env) if i + 1 < len(fn.locals) else None)
        return fr

    def explore(self, st):
        """run all paths of st; exits are reported to the monitors"""
        self.seen = {}
        self.headcount = {}
        work = [st]
        while work:
            s = work.pop()
            r = self.run(s)
            if r:
                work.extend(r)
            self.stats['paths'] += 1
            if self.stats['paths'] > self.MAX_PATHS:
                raise Limit('path budget')
            if self.deadline and time.time() > self.deadline:
                raise Limit('time budget')

    def analyse(self, mkstate):
        """explore with restarts until the loop information is stable"""
        for attempt in range(30):
            for m in self.mon:
                m.begin_attempt(self)
            try:
                self.explore(mkstate())
                break
            except Restart:
                continue
        else:
            raise Limit('no fixpoint')
        for m in self.mon:
            m.end_entry(self)

    def run(self, st):
        """run st until it forks or ends; -> list of successor states"""
        while True:
            if not st.frames:
                return []
            fr = st.top()
            self.stats['steps'] += 1
            blk = fr.fn.bbs[fr.bb]
            for s in blk['s']:
                k = s[0]
                if k == '=':
                    fr.span = s[3]
                    v = self.rvalue(st, s[2])
                    root, path, ty = self.place(st, s[1])
                    self.store(st, root, path, v)
                elif k == 'dead':
                    st.mem.pop(mk('L', fr.fid, s[1]), None)
                elif k == 'setdiscr':
                    pass
            out = self.term(st, fr, blk['t'])
            if out is None:
                return []
            if len(out) == 1:
                st = out[0]
                if st.exitk:
                    return []
                continue
            return out

    def store(self, st, root, path, v):
        for m in self.mon:
            m.on_store(self, st, root, path, v)
        self.wr(st, root, path, v)

    def goto(self, st, bb):
        """-> state or None when cut"""
        fr = st.top()
        src = fr.bb
        fr.bb = bb
        heads, back = fr.fn.loops()
        if bb in heads:
            isback = (src, bb) in back
            return self.loop_head(st, fr, bb, isback)
        return st

    def gotos(self, st, bb):
        r = self.goto(st, bb)
        if r is None:
            return []
        return r if isinstance(r, list) else [r]

    def term(self, st, fr, t):
        k = t[0]
        if k == 'goto':
            return self.gotos(st, t[1])
        if k == 'switch':
            fr.span = t[5]
            v = self.operand(st, t[1])
            return self.switch(st, v, t[2], t[3], self.p.ty(t[4]))
        if k == 'call':
            fr.span = t[7]
            fnv = self.operand(st, t[1])
            args = [self.operand(st, a) for a in t[2]]
            root, path, ty = self.place(st, t[3])
            cx = ('cx', root, path, t[4], t[6], fr.fn.path)
            return self.call(st, fnv, args, cx, tsubst(self.p.ty(t[5]), fr.env))
        if k == 'drop':
            fr.span = t[6]
            root, path, ty = self.place(st, t[1])
            return self.drop(st, root, path, tsubst(self.p.ty(t[2]), fr.env), ('K', 'goto', (t[3],)))
        if k == 'return':
            return self.ret(st)
        if k == 'assert':
            # overflow / bounds assertions: the failing side panics and is not followed
            fr.span = t[5]
            c = self.operand(st, t[1])
            if t[4].startswith('index out of bounds') or 'BoundsCheck' in t[4]:
                return self.gotos(st, t[3])
            return self.gotos(st, t[3])
        if k == 'unreachable':
            return []
        if k == 'resume':
            return self.unwind_pop(st)
        if k == 'yield':
            fr.span = t[5]
            self.emit(st, 'yield')
            out = []
            if t[4] is not None and self.opts.get('cancel', True):
                s2 = st.copy()
                self.emit(s2, 'cancel')
                s2.auto['cancelled'] = True
                out += self.gotos(s2, t[4])
            root, path, ty = self.place(st, t[3])
            self.wr(st, root, path, fresh('resume'))
            out += self.gotos(st, t[2])
            return out
        if k == 'cordrop':
            return self.exit_frame(st, 'cancelled')
        return []

    def exit_frame(self, st, kind):
        # a coroutine that is dropped: everything above it ends too
        return self.leave(st, kind, None)

    def leave(self, st, kind, v):
        for s2 in self.settle_hook(self, st, True):
            s2.exitk = kind
            self.stats['exits'] += 1
            for m in self.mon:
                m.on_exit(self, s2, kind, v)
        return []

    def switch(self, st, v, targets, other, ty):
        if v.t == 'i':
            for val, bb in targets:
                if val == v.a[0]:
                    return self.gotos(st, bb)
            return self.gotos(st, other)
        out = []
        if v.t == 'discr':
            base, adtn = v.a
            adt = self.p.adts.get(adtn)
            kv = self.known_variant(st, base)
            if kv is not None and adt:
                return self.switch(st, I(adt.discr_of[kv]), targets, other, ty)
            if adt and adt.enum:
                tm = {x: b for x, b in targets}
                for s2, name in self.split_variant(st, base, adt):
                    out += self.gotos(s2, tm.get(adt.discr_of[name], other))
                return out
        if ty[0] == 'bool':
            tm = {x: b for x, b in targets}
            for s2, val in self.branch(st, v):
                out += self.gotos(s2, tm.get(int(val), other))
            return out
        rest = st
        for val, bb in targets:
            for s2, r in self.branch(rest, b_eqn(v, I(val))):
                if r:
                    out += self.gotos(s2, bb)
                else:
                    rest2 = s2
                    break
            else:
                return out
            rest = rest2
        out += self.gotos(rest, other)
        return out

    # ------------------------------------------------------------------ calls
    def finish(self, st, cx, v):
        """complete the call cx with value v; -> list of states"""
        _, root, path, target, uw, _fn = cx
        if target is None:
            return self.diverge(st)
        if isinstance(target, tuple):
            return self.resume(st, target[1], v)
        self.store(st, root, path, v)
        return self.gotos(st, target)

    def diverge(self, st):
        self.stats['panics'] += 1
        for m in self.mon:
            m.on_panic(self, st)
        return []

    def ret(self, st):
        fr = st.frames.pop()
        v = st.mem.get(mk('L', fr.fid, 0), UNINIT)
        if v.t == 'uninit':
            v = UNIT
        self.purge(st, fr)
        return self.resume(st, fr.ret, v)

    def purge(self, st, fr):
        fid = fr.fid
        for k in [k for k in st.mem if k.t == 'L' and k.a[0] == fid]:
            del st.mem[k]

    def resume(self, st, r, v):
        if r is None:
            return self.leave(st, 'return', v)
        if r[0] == 'cx':
            return self.finish(st, r, v)
        if r[0] == 'K':
            return self.khandlers[r[1]](self, st, r[2], v)
        raise Exception(r)

    def unwind_from(self, st, uw):
        """an unwind starts in the top frame whose current call has cleanup block uw"""
        st.unwinding = True
        if uw is not None:
            st.top().bb = uw
            return [st]
        return self.unwind_pop(st)

    def unwind_pop(self, st):
        fr = st.frames.pop()
        self.purge(st, fr)
        if fr.ret is None or not st.frames:
            return self.leave(st, 'unwind', None)
        uw = fr.uw
        return self.unwind_from(st, uw)

    def call(self, st, fnv, args, cx, dty):
        if fnv.t == 'clo':
            return self.call_value(st, fnv, args, cx)
        if fnv.t != 'fnv':
            # function pointer / opaque callee
            self.emit(st, 'usercall', 'indirect', fnv, tuple(args))
            return self.finish(st, cx, self.opaque_result(st, 'indirect', args, dty))
        c = self._callees[fnv.a[0]]
        env0 = dict(ENVS[fnv.a[1]])
        return self.call_callee(st, c, env0, args, cx, dty)

    def call_callee(self, st, c, env0, args, cx, dty):
        path = c['path']
        if 'ctor' in c:
            ty = tsubst(self.p.ty(c['ctor_ty']), env0)
            adt = self.p.adts.get(ty[1])
            v = agg(ty[1], c['ctor'] if adt and adt.enum else None, {str(i): a for i, a in enumerate(args)})
            self.emit_agg(st, v, ty)
            return self.finish(st, cx, v)
        selfty = tsubst(self.p.ty(c['self']), env0) if 'self' in c else None
        info = CallInfo(c, env0, selfty, dty)
        # models by exact path, then by trait+self type
        name = c.get('rpath') or path
        m = self.models.get(path) or self.models.get(name)
        if m is not None:
            r = m(self, st, args, cx, info)
            if r is not NotImplemented:
                return r
        for tm in self.tymodels:
            r = tm(self, st, args, cx, info)
            if r is not NotImplemented:
                return r
        # calls of closures and function values: the arguments come as a tuple
        if c.get('trait') in FNTRAITS:
            return self.call_trait(st, c, env0, selfty, args, cx, dty)
        # resolved locally
        if 'rpath' in c and self.inlinable(c['rpath']):
            fn = self.p.fns[c['rpath']]
            targs = [tsubst(self.p.ty(x), env0) for x in c['ra']]
            return self.inline(st, fn, targs, args, cx)
        if 'trait' in c:
            r = self.call_trait(st, c, env0, selfty, args, cx, dty)
            if r is not None:
                return r
        if self.inlinable(path) and 'trait' not in c:
            fn = self.p.fns[path]
            targs = [tsubst(self.p.ty(x), env0) for x in c['a']]
            return self.inline(st, fn, targs, args, cx)
        if 'trait' in c and self.inlinable(path) and selfty and selfty[0] != 'param':
            # provided trait method body
            fn = self.p.fns[path]
            targs = [tsubst(self.p.ty(x), env0) for x in c['a']]
            return self.inline(st, fn, targs, args, cx)
        return self.opaque(st, c, args, cx, dty, info)

    def inlinable(self, path):
        f = self.p.fns.get(path)
        return f is not None and (not f.ext or any(x in path for x in self.SMALL))

    def inline(self, st, fn, targs, args, cx):
        env = {}
        for g, a in zip(fn.generics, targs):
            if g[0] == 'param':
                env[g[1]] = a
        # recursion guard
        depth = sum(1 for f in st.frames if f.fn is fn)
        if depth >= 2:
            self.note_unknown('recursion:' + fn.path)
            return self.finish(st, cx, fresh('rec'))
        self.push(st, fn, args, env, cx, cx[4])
        return [st]

    def call_trait(self, st, c, env0, selfty, args, cx, dty):
        tr = c['trait']
        if tr in FNTRAITS:
            f = args[0]
            f2 = self.deep(st, f)
            tupv = args[1] if len(args) > 1 else UNIT
            cargs = [x for _, x in sorted(tupv.a[3], key=lambda kv: int(kv[0]))] if tupv.t == 'agg' else [tupv]
            if f2.t in ('clo', 'fnv'):
                return self.call_value(st, f2, cargs, cx, holder=f if f.t == 'ref' else None)
            self.emit(st, 'usercall', 'closure', f2, tuple(cargs))
            out = []
            if self.opts.get('unwind', True):
                s2 = st.copy()
                s2.auto['loader_panic'] = True
                out += self.unwind_from(s2, cx[4])
            out += self.finish(st, cx, self.opaque_result(st, 'userfn', [f2] + cargs, dty, unique=True))
            return out
        im, env = self.p.find_impl(tr, selfty)
        if im is not None and c['name'] in im.methods and im.methods[c['name']] in self.p.fns:
            fn = self.p.fns[im.methods[c['name']]]
            own = [g for g in fn.generics if g[0] == 'param' and g[1] not in env]
            targs = [tsubst(self.p.ty(x), env0) for x in c['a']]
            if own:
                for g, a in zip(own, targs[-len(own):]):
                    env[g[1]] = a
            depth = sum(1 for f in st.frames if f.fn is fn)
            if depth >= 2:
                st.auto['opq'] = 'recursion'
                return self.finish(st, cx, fresh('rec'))
            self.push(st, fn, args, env, cx, cx[4])
            return [st]
        return None

    def call_value(self, st, f, cargs, cx, holder=None):
        """call a closure or function item value with explicit arguments"""
        if f.t == 'fnv':
            c = self._callees[f.a[0]]
            return self.call_callee(st, c, dict(ENVS[f.a[1]]), cargs, cx, None)
        if f.t == 'clo':
            fn = self.p.fns.get(f.a[0])
            if fn is None:
                st.auto['opq'] = 'closure without body'
                return self.finish(st, cx, fresh('clo'))
            # closure self argument: by reference or by value according to the body
            selfty = fn.locals[1][0]
            if selfty[0] == 'ref':
                if holder is not None:
                    a0 = holder
                    while True:
                        v = self.load(st, a0)
                        if v.t != 'ref':
                            break
                        a0 = v
                else:
                    root = mk('H', 'clo', st.nfid)
                    st.mem[root] = f
                    a0 = ref(root)
            else:
                a0 = f
            depth = sum(1 for g in st.frames if g.fn is fn)
            if depth >= 2:
                st.auto['opq'] = 'recursion'
                return self.finish(st, cx, fresh('rec'))
            self.push(st, fn, [a0] + list(cargs), dict(ENVS[f.a[2]]), cx, cx[4] if cx[0] == 'cx' else None)
            return [st]
        self.emit(st, 'usercall', 'closure', f, tuple(cargs))
        out = []
        if self.opts.get('unwind', True) and cx[0] == 'cx':
            s2 = st.copy()
            s2.auto['loader_panic'] = True
            out += self.unwind_from(s2, cx[4])
        v = self.opaque_result(st, 'userfn', [f] + list(cargs), None, unique=True)
        out += self.resume(st, cx, v)
        return out

    def callk(self, st, f, cargs, kname, kargs, uw=None):
        """call a closure value and continue in handler kname(kargs, result)"""
        f = self.deep(st, f) if f.t == 'ref' and self.deep(st, f).t in ('clo', 'fnv') else f
        k = ('K', kname, kargs)
        holder = None
        if f.t == 'fnv':
            c = self._callees[f.a[0]]
            root = mk('H', 'kret', st.nfid)
            st.nfid += 1
            return self.call_callee_k(st, c, dict(ENVS[f.a[1]]), list(cargs), k)
        if f.t == 'clo':
            fn = self.p.fns.get(f.a[0])
            if fn is not None:
                selfty = fn.locals[1][0]
                if selfty[0] == 'ref':
                    root = mk('H', 'clo', st.nfid)
                    st.mem[root] = f
                    a0 = ref(root)
                else:
                    a0 = f
                if sum(1 for g in st.frames if g.fn is fn) >= 2:
                    st.auto['opq'] = 'recursion'
                    return self.resume(st, k, fresh('rec'))
                self.push(st, fn, [a0] + list(cargs), dict(ENVS[f.a[2]]), k, uw)
                return [st]
        self.emit(st, 'usercall', 'closure', f, tuple(cargs))
        return self.resume(st, k, self.opaque_result(st, 'userfn', [f] + list(cargs), None, unique=False))

    def call_callee_k(self, st, c, env0, args, k):
        # function item called from a model: give it a pseudo destination
        root = mk('H', 'kret', st.nfid)
        st.nfid += 1
        cx = ('kx', root, k)
        return self.call_callee(st, c, env0, args, ('cx', root, (), ('kdone', k), None, '?'), None)

    def opaque_result(self, st, path, args, dty, unique=False):
        if dty is not None:
            if dty[0] == 'tuple' and not dty[2]:
                return UNIT
            if dty[0] == 'never':
                return UNIT
        a = tuple(self.deep(st, x) if x.t == 'ref' else x for x in args)
        if unique:
            _uid[0] += 1
            return mk('call', path, a, _uid[0])
        return mk('call', path, a)

    def note_unknown(self, what):
        self.unknown[what] = self.unknown.get(what, 0) + 1

    def opaque(self, st, c, args, cx, dty, info):
        path = c.get('rpath') or c['path']
        if cx[3] is None:
            return self.diverge(st)
        self.note_unknown(path)
        self.emit(st, 'opaque', path, tuple(args))
        sig = None
        # anything reachable through a mutable reference may change
        unique = False
        if path not in self.HARMLESS:
            # nothing is concluded on a path that went through code the analysis does not model
            st.auto['opq'] = path
        r = self.opaque_result(st, path, args, dty, unique=True)
        return self.finish(st, cx, self.norm(st, r, dty))

    # ------------------------------------------------------------------ drop glue
    def interesting(self, ty, seen=None):
        """does dropping a value of this type run code we track?"""
        if ty is None:
            return False
        key = ty
        c = self._int_cache.get(key)
        if c is not None:
            return c
        self._int_cache[key] = False
        r = False
        if ty[0] == 'adt':
            a = self.p.adts.get(ty[1])
            if ty[1].endswith('Guard') and 'lock' in ty[1].lower():
                r = True
            elif a is not None and a.local:
                if a.dtor:
                    r = True
                else:
                    env = dict(zip([g[1] for g in a.generics if g[0] == 'param'], ty[2]))
                    for n, d, fs in a.variants:
                        for f, ft, _ in fs:
                            if ft is not None and self.interesting(tsubst(ft, env)):
                                r = True
            elif ty[1] in ('core::option::Option', 'core::result::Result', 'alloc::boxed::Box', 'core::pin::Pin', 'core::mem::manually_drop::ManuallyDrop',
                           'core::ops::control_flow::ControlFlow', 'core::task::poll::Poll'):
                if ty[1].endswith('ManuallyDrop'):
                    r = False
                else:
                    r = any(self.interesting(x) for x in ty[2])
        elif ty[0] in ('tuple', 'array', 'slice'):
            r = any(self.interesting(x) for x in ty[2])
        elif ty[0] in ('closure', 'coroutine'):
            r = True
        self._int_cache[key] = r
        return r

    _int_cache = {}

    def drop(self, st, root, path, ty, k):
        """drop the value at a place, then continue with continuation k"""
        v = self.rd(st, root, path)
        return self.drop_value(st, v, (root, path), ty, k)

    def drop_value(self, st, v, loc, ty, k):
        if v.t in ('moved', 'uninit', 'i', 'ref', 'fnv', 'lin', 'const'):
            if loc is not None and v.t not in ('moved', 'uninit'):
                pass
            return self.resume(st, k, UNIT)
        if v.t == 'guard':
            out = []
            for s2 in (self.settle_hook(self, st, True, v.a[3]) if v.a[1] == 'w' else [st]):
                self.release(s2, v)
                if loc:
                    self.wr(s2, loc[0], loc[1], MOVED)
                out += self.resume(s2, k, UNIT)
            return out
        if v.t == 'clo':
            return self.drop_fields(st, [(x, None, None) for _, x in v.a[1]], k)
        tyname = ty[1] if ty and ty[0] == 'adt' else None
        adt = self.p.adts.get(tyname) if tyname else None
        if adt is None and v.t == 'agg' and isinstance(v.a[0], str) and v.a[0] in self.p.adts:
            adt = self.p.adts[v.a[0]]
        if adt is not None and adt.local and adt.dtor and adt.dtor in self.p.fns:
            if loc is None:
                r = mk('H', 'drop', st.nfid)
                st.nfid += 1
                st.mem[r] = v
                loc = (r, ())
            fn = self.p.fns[adt.dtor]
            env = {}
            if ty and fn.impl_self is not None:
                unify(fn.impl_self, ty, env)
            self.emit(st, 'dtor', adt.name, v)
            if sum(1 for g in st.frames if g.fn is fn) >= 2:
                return self.resume(st, k, UNIT)
            self.push(st, fn, [ref(*loc)], env, ('K', 'dropfields', (loc[0], loc[1], adt.name, ty, k)), None)
            return [st]
        return self.drop_fields_of(st, v, loc, adt, ty, k)

    def drop_fields_of(self, st, v, loc, adt, ty, k):
        if v.t == 'agg':
            env = {}
            fts = {}
            if adt is not None:
                if ty and ty[0] == 'adt':
                    env = dict(zip([g[1] for g in adt.generics if g[0] == 'param'], ty[2]))
                fts = {f: (tsubst(ft, env) if ft is not None else None) for f, ft, _ in adt.fields(v.a[1])}
                if not adt.local and ty and ty[0] == 'adt' and ty[2]:
                    # Option/Result payload types
                    if adt.name == OPT:
                        fts = {'0': ty[2][0]}
                    elif adt.name == RES:
                        fts = {'0': ty[2][0] if v.a[1] == 'Ok' else ty[2][1]}
            elif ty and ty[0] == 'tuple':
                fts = {str(i): x for i, x in enumerate(ty[2])}
            if v.a[2] is not None and v.a[2].t not in ('i',):
                # partially overridden opaque value
                over = {f for f, _ in v.a[3]}
                kv = self.known_variant(st, v)
                names = list(fts) if fts else []
                items = [(fld(v, f, kv), fts.get(f), f) for f in (names or sorted(over))]
                if all(x[0].t not in ('moved',) for x in items) and not any(self.interesting(t) for _, t, _ in items):
                    self.emit(st, 'dropval', v)
                    return self.resume(st, k, UNIT)
                return self.drop_fields(st, [(x, t, None) for x, t, _ in items], k)
            items = [(x, fts.get(f), (loc[0], loc[1] + (('f', f, v.a[1]),)) if loc else None) for f, x in v.a[3]]
            return self.drop_fields(st, items, k)
        # opaque value
        if ty is not None and self.interesting(ty) and adt is not None and adt.enum and not (adt.local and adt.dtor):
            out = []
            for s2, name in self.split_variant(st, v, adt):
                v2 = v
                env = dict(zip([g[1] for g in adt.generics if g[0] == 'param'], ty[2]))
                items = []
                if adt.local:
                    fs = [(f, tsubst(ft, env)) for f, ft, _ in adt.fields(name)]
                elif adt.name == OPT:
                    fs = [('0', ty[2][0])] if name == 'Some' else []
                elif adt.name == RES:
                    fs = [('0', ty[2][0] if name == 'Ok' else ty[2][1])]
                else:
                    fs = [('0', ty[2][0])] if adt.fields(name) else []
                for f, ft in fs:
                    items.append((fld(v2, f, name), ft, (loc[0], loc[1] + (('f', f, name),)) if loc else None))
                out += self.drop_fields(s2, items, k)
            return out
        if ty is not None and self.interesting(ty) and (adt is not None and adt.local and not adt.enum or ty[0] == 'tuple'):
            if ty[0] == 'tuple':
                fs = [(str(i), x) for i, x in enumerate(ty[2])]
            else:
                env = dict(zip([g[1] for g in adt.generics if g[0] == 'param'], ty[2]))
                fs = [(f, tsubst(ft, env)) for f, ft, _ in adt.fields()]
            items = [(fld(v, f), ft, (loc[0], loc[1] + (('f', f, None),)) if loc else None) for f, ft in fs]
            return self.drop_fields(st, items, k)
        self.emit(st, 'dropval', v)
        return self.resume(st, k, UNIT)

    def drop_fields(self, st, items, k):
        items = [i for i in items if i[0].t not in ('moved', 'uninit', 'i', 'ref', 'fnv', 'lin', 'const')]
        if not items:
            return self.resume(st, k, UNIT)
        v, ty, loc = items[0]
        return self.drop_value(st, v, loc, ty, ('K', 'dropmore', (tuple(items[1:]), k)))

    # ------------------------------------------------------------------ locks
    def acquire(self, st, lockref, mode, cls):
        root, path = self.deref(st, lockref)
        lk = ref(root, path)
        self.emit(st, 'acquire', lk, mode, cls)
        st.nfid += 1
        data = mk('lkd', lk, cls, st.nfid)
        st.mem[data] = mk('locked', lk, st.nfid, cls)
        st.locks = st.locks + (mk('lock', lk, mode, cls, data),)
        g = mk('guard', lk, mode, cls, data)
        return g

    def release(self, st, g):
        for i, l in enumerate(st.locks):
            if l.a[0] is g.a[0] and l.a[3] is g.a[3]:
                break
        else:
            return
        for m in self.mon:
            m.before_release(self, st, g)
        l = [x for x in st.locks if not (x.a[0] is g.a[0] and x.a[3] is g.a[3])]
        self.emit(st, 'release', g.a[0], g.a[1], g.a[2])
        st.locks = tuple(l)
        for k in [k for k in st.sh if k.a[0] is g.a[3]]:
            del st.sh[k]

    # ------------------------------------------------------------------ loop heads
    def loop_head(self, st, fr, bb, isback):
        key0 = (fr.fn.path, bb)
        info = self.loopinfo.setdefault(key0, {'shard': False, 'num': set(), 'wide': set()})
        self.stats['heads'] += 1
        if self.deadline and time.time() > self.deadline:
            raise Limit('time budget')
        if isback:
            for m in self.mon:
                m.on_backedge(self, st, fr, bb)
            ver = fr.loopver.get(bb)
            if ver is not None and ver[0] != st.shver and not info['shard'] and any(s.writable for s in st.sh.values()):
                info['shard'] = True
                raise Restart()
            if ver is not None:
                for root, old in ver[1]:
                    new = st.mem.get(root)
                    if new is not None and new is not old and new.t == 'vec' and old.t == 'vec' and len(new.a[1]) > max(1, len(old.a[1])):
                        # a local vector filled by a loop is followed up to its first element
                        self.note_unknown('more than one element pushed by a loop')
                        return []
            # numeric loop-carried values are widened
            if ver is not None:
                m = {}
                olds = dict(ver[1])
                for (l, path) in info['num']:
                    root = mk('L', fr.fid, l)
                    if root in olds and root in st.mem:
                        o, n = self.sel(olds[root], path), self.sel(st.mem[root], path)
                        if n is not o and n.t != 'i':
                            m[n] = o
                memo = {}
                cand = []
                for root, old in ver[1]:
                    new = st.mem.get(root)
                    if new is None or new is old:
                        continue
                    if m:
                        new = rewrite(new, m, memo)
                    for path in self.numdiff(old, new):
                        k = (root.a[1], path)
                        if not path and fr.fn.locals[root.a[1]][0][0] == 'bool':
                            continue            # two values: followed exactly
                        if k not in info['num']:
                            cand.append((len(subterms(self.sel(new, path))), k))
                if cand:
                    lo = min(c[0] for c in cand)
                    info['num'] |= {k for n, k in cand if n == lo}
                    raise Restart()
        if info['shard'] and not isback:
            for m in self.mon:
                m.on_loop_entry(self, st, fr, bb)
        states = [st]
        if info['shard']:
            states = []
            for s2 in self.settle(st, final=False):
                states.append(s2)
        out = []
        for s2 in states:
            self.gc(s2)
            self.forget(s2)
            if info['shard']:
                self.havoc_counters(self, s2)
            fr2 = s2.top()
            live = fr2.fn.live_in(bb)
            wid = []
            for (l, path) in info['num']:
                root = mk('L', fr2.fid, l)
                if root in s2.mem:
                    v = self.rd(s2, root, path)
                    if v.t in ('i', 'lin', 'sym', 'fld', 'call', 'op') and not (v.t == 'i' and v.a[0] == 0):
                        wid.append((len(subterms(v)), l, path, root))
            for _, l, path, root in sorted(wid, key=lambda w: w[:2]):
                v = self.rd(s2, root, path)
                n = fresh('pow2' if self.is_pow2(s2, v) else 'num')
                if self.prove_le(s2, sub(I(1), v)):
                    s2.les[sub(I(1), n)] = 1
                if v.t == 'op' or v.t == 'sym':
                    m = {v: n}
                    memo = {}
                    s2.mem = {k: rewrite(x, m, memo) for k, x in s2.mem.items()}
                self.wr(s2, root, path, n)
            fr2.loopver = dict(fr2.loopver)
            fr2.loopver[bb] = (s2.shver, tuple((k, v) for k, v in s2.mem.items() if k.t == 'L' and k.a[0] == fr2.fid))
            ck = self.canon(s2, True)
            skey = (tuple((f.fn.path, f.bb) for f in s2.frames), ck)
            if skey in self.seen:
                self.stats['cuts'] += 1
                continue
            self.seen[skey] = 1
            hk = skey[0]
            self.headcount[hk] = self.headcount.get(hk, 0) + 1
            if self.headcount[hk] > self.opts.get('max_head', self.MAX_HEAD):
                raise Limit('loop states at %s' % (hk[-1],))
            out.append(s2)
        return out

    def is_pow2(self, st, v):
        if v.t == 'i':
            return v.a[0] > 0 and v.a[0] & (v.a[0] - 1) == 0
        if v.t == 'sym':
            return v.a[0] == 'pow2'
        if v.t == 'op' and v.a[0] == 'next_power_of_two':
            return True
        if v.t == 'op' and (v.a[0] == 'Div' and v.a[2] is I(2) or v.a[0] == 'Shr' and v.a[2] is I(1)):
            return self.is_pow2(st, v.a[1]) and self.prove_le(st, sub(I(2), v.a[1]))
        return False

    @staticmethod
    def sel(v, path):
        for s in path:
            v = fld(v, s[1], s[2])
        return v

    def numdiff(self, a, b, path=()):
        num = ('i', 'lin', 'op')
        if a is b:
            return []
        if (a.t in num or b.t in num) and a.t not in ('agg', 'moved', 'uninit', 'ref') and b.t not in ('agg', 'moved', 'uninit', 'ref'):
            return [path]
        if a.t == 'agg' and b.t == 'agg' and a.a[0] == b.a[0] and a.a[1] == b.a[1]:
            r = []
            da, db = dict(a.a[3]), dict(b.a[3])
            for f in da:
                if f in db:
                    r += self.numdiff(da[f], db[f], path + (('f', f, a.a[1]),))
            return r
        return []

    settle_hook = None
    head_hook = None

    def settle(self, st, final):
        if self.settle_hook is None:
            return [st]
        return self.settle_hook(self, st, final)

    def forget(self, st):
        """drop records of slots that were only looked at, and name chained successors afresh"""
        for key, sh in list(st.sh.items()):
            wit = {v[1] for v in sh.scn.values()}
            for t in [t for t, r in sh.recs.items() if not r.mod and r.acct is None and t not in wit]:
                r = sh.recs[t]
                if r.init is None:
                    continue
                s = mk('slot', key, t)
                if s in st.mem and st.mem[s] is not r.init:
                    continue
                sh.live.add(t)
                if isinstance(r.ring, str) and r.ring != 'init':
                    sh.tags[t] = r.ring
                del sh.recs[t]
                st.mem.pop(s, None)
            if sh.free is not None and not any(sh.free in subterms(v) for v in st.mem.values()):
                sh.free = None
        nx = set()
        vr = set()
        for k, v in st.mem.items():
            for t in subterms(v):
                if t.t == 'next':
                    nx.add(t)
                elif t.t == 'vrest':
                    vr.add(t)
        inner = {s for t in vr for s in subterms(t) if s is not t}
        for t in vr - inner:
            # what is left of a vector after some removals: the number of removals is forgotten
            b = t
            while b.t in ('vrest', 'vec') and (b.t != 'vec' or not b.a[1]):
                b = b.a[0]
            self.unify(st, t, mk('vrest', b, fresh('vr')))
        for t in sorted(nx, key=lambda t: -t.n):
            if any(t in subterms(v) for v in st.mem.values()):
                tag = None
                for sh in st.sh.values():
                    tag = tag or self.tok_ring(st, sh, t)
                self.unify(st, t, fresh('tok'))

    def reachable(self, st):
        """memory roots that later code can still reach, in a deterministic order"""
        queue = []

        def refs(x):
            for t in subterms(x):
                if t.t == 'ref':
                    queue.append(t.a[0])
                elif t.t == 'sym' and t.a[0] in ('arc', 'box'):
                    queue.append(mk('D', t))
        for i, f in enumerate(st.frames):
            if i == len(st.frames) - 1:
                live = f.fn.live_in(f.bb)
            else:
                r = st.frames[i + 1].ret
                tgt = r[3] if r and r[0] == 'cx' and isinstance(r[3], int) else None
                live = f.fn.live_in(tgt) if tgt is not None else range(len(f.fn.locals))
            for l in sorted(live):
                root = mk('L', f.fid, l)
                if root in st.mem:
                    queue.append(root)
            if f.ret is not None and f.ret[0] == 'K':
                refs(f.ret[2])
        for l in st.locks:
            queue.append(l.a[3])
        for k in sorted(st.sh, key=lambda k: k.n):
            queue.append(k.a[0])
            for idx in st.sh[k].recs:
                queue.append(mk('slot', k, idx))
        for k in st.mem:
            if k.t == 'D' and k.a[0].t == 'sym' and k.a[0].a[1] == 0:
                queue.append(k)
        done = set()
        out = []
        i = 0
        while i < len(queue):
            root = queue[i]
            i += 1
            if root in done:
                continue
            done.add(root)
            out.append(root)
            v = st.mem.get(root)
            if v is not None:
                refs(v)
        return out

    def gc(self, st):
        live = set(self.reachable(st))
        st.mem = {k: v for k, v in st.mem.items() if k in live or k.t not in ('H', 'L', 'D', 'slot')}

    def canon(self, st, prune=False):
        names = {}
        memo = {}

        def c(x):
            if isinstance(x, T):
                r = memo.get(x)
                if r is not None:
                    return r
                if x.t == 'sym':
                    r = ('s', x.a[0], names.setdefault(x, len(names)))
                elif x.t == 'L':
                    r = ('L', fids.get(x.a[0], -1), x.a[1])
                elif x.t in ('lkd', 'locked', 'H', 'next', 'nxo', 'call', 'be', 'slot', 'ent', 'free'):
                    # identity carrying uid components
                    r = (x.t, names.setdefault(x, len(names))) + tuple(c(y) for y in x.a if isinstance(y, (T, str)))
                elif x.t == 'lin':
                    r = ('lin', x.a[0], frozenset((c(k), v) for k, v in x.a[1]))
                elif x.t in ('eq', 'eqb', 'band', 'bor'):
                    r = (x.t, frozenset(c(y) for y in x.a))
                else:
                    r = (x.t,) + tuple(c(y) for y in x.a)
                memo[x] = r
                return r
            if isinstance(x, tuple):
                return tuple(c(y) for y in x)
            return x
        fids = {f.fid: i for i, f in enumerate(st.frames)}
        parts = []
        for f in st.frames:
            parts.append((f.fn.path, f.bb, c(f.ret) if f.ret is not None else None))
        for l in st.locks:
            parts.append(c(l))
        for k in sorted(st.sh, key=lambda k: k.n):
            parts.append(st.sh[k].canon(c))
        for root in self.reachable(st):
            v = st.mem.get(root)
            if v is not None:
                parts.append((c(root), c(v)))
        reach = set(memo)
        facts = []
        bases = {}
        for k, sh in st.sh.items():
            bases[sh.base] = (k, self.rd(st, k.a[0], k.a[1]))

        def vis(t):
            for x in subterms(t):
                if x.t == 'ent':
                    if x not in memo:
                        sh = st.sh.get(x.a[0])
                        if sh is None or x.a[2] != sh.ep.get(x.a[1], 0) or (x.a[1] not in sh.recs and x.a[1] not in memo):
                            return False
                elif x.t == 'fld' and x.a[0] in bases:
                    if x not in memo and fld(bases[x.a[0]][1], x.a[2], x.a[1]) is not x:
                        return False
                elif x.t in ('sym', 'call', 'nxo', 'next', 'locked') and x not in memo:
                    return False
            return True
        nv, nb, nl = {}, {}, {}
        for k, v in st.vars.items():
            if vis(k):
                facts.append(('v', c(k), v))
                nv[k] = v
        for k, v in st.bools.items():
            if k.t != 'unified' and vis(k):
                facts.append(('b', c(k), v))
                nb[k] = v
        for k in st.les:
            if vis(k):
                facts.append(('l', c(k)))
                nl[k] = 1
        for key, sh in st.sh.items():
            sh.tags = {t: v for t, v in sh.tags.items() if t in memo}
            sh.live = {t for t in sh.live if t in memo}
            for t, v in sh.tags.items():
                facts.append(('t', c(t), v))
            for t in sh.live:
                facts.append(('live', c(t)))
            sh.lost = {t: v for t, v in sh.lost.items() if t in memo}
            for t, v in sh.lost.items():
                facts.append(('lost', c(t), v))
        if prune:
            st.vars, st.bools, st.les = nv, nb, nl
            st.sub = {k: v for k, v in st.sub.items() if vis(k)}
        for k, v in st.ntag.items():
            if k in memo:
                facts.append(('n', c(k), c(v)))
        auto = tuple(sorted(((str(k), c(v)) for k, v in st.auto.items()), key=lambda kv: kv[0]))
        return (tuple(parts), frozenset(facts), auto, st.unwinding)


class CallInfo:
    __slots__ = ('c', 'env', 'selfty', 'dty')

    def __init__(self, c, env, selfty, dty):
        self.c = c
        self.env = env
        self.selfty = selfty
        self.dty = dty


ENVS = []
_envix = {}


def frozen_env_id(env):
    k = frozen_env(env)
    i = _envix.get(k)
    if i is None:
        i = len(ENVS)
        ENVS.append(k)
        _envix[k] = i
    return i


from terms import _uid  # noqa


class Monitor:
    """rules subscribe to the exploration through these callbacks"""
    def begin_attempt(self, eng): pass
    def end_entry(self, eng): pass
    def on_event(self, eng, st, e): pass
    def on_variant(self, eng, st, v, name): pass
    def on_bool(self, eng, st, b, val): pass
    def on_agg(self, eng, st, v, ty): pass
    def on_store(self, eng, st, root, path, v): pass
    def before_release(self, eng, st, g): pass
    def on_exit(self, eng, st, kind, v): pass
    def on_panic(self, eng, st): pass
    def on_loop_entry(self, e, st, fr, bb):
        pass

    def on_backedge(self, eng, st, fr, bb): pass
    def on_tx(self, eng, st, shk, tx): pass
    def on_idle(self, eng, st, shk, shard): pass      # a shard is given up with nothing changed since the last loop head
    def on_settle(self, eng, st, shk, tx): pass
