"""C28: the entry store, decided on the bodies of its own operations over a lazily materialised symbolic heap.

Cells are materialised as the code touches them; touching a cell first decides which of the cells touched before it is
(case split over aliasing).  Each operation starts from a well-formed store (assumed of the touched cells) and must end
with exactly the pointer changes its specification lists: everything else is the frame."""
from terms import *
from rules import Rule, rule, S
from engine import Engine, Monitor

SELF = mk('sym', 'self', 0)
D0 = mk('deref', SELF)
ENTS0 = fld(D0, 'entries')
FREE0 = fld(D0, 'next_free')
IDX = mk('sym', 'idx', 0)
HEAD = mk('sym', 'head', 0)
HD = fld(HEAD, '0', 'Some')


def ix(tok):
    return sub(tok, I(1))


def cell0(tok):
    return mk('elem', ENTS0, ix(tok))


@rule
class C28(Rule):
    pid = 'C28'
    cfgs = ('rel',)
    more_cfgs = ('rel', 'default')
    only = tuple('slab.' + k for k in ('with_capacity', 'insert', 'get', 'get_mut', 'get_unchecked', 'get_mut_unchecked', 'link',
                                       'unlink', 'remove', 'next_free', 'drain', 'iter'))
    rule = ('every operation of the entry store, started on a well-formed store, changes exactly the links its specification '
            'lists (both neighbours, the entry itself, the free list head), for every way the touched cells can coincide')

    def wants(self, entry):
        return entry.kind in self.only

    def known(self, e):
        a = e.p.adts.get('linked_slab::LinkedSlab')
        b = e.p.adts.get('linked_slab::Entry')
        if a is None or b is None:
            return False
        return {f for f, _, _ in a.fields()} == {'entries', 'next_free'} and {f for f, _, _ in b.fields()} == {'item', 'next', 'prev'}

    # ------------------------------------------------------------ what is assumed
    def setup(self, e, st):
        k = self.entry.kind[5:]
        self.ok = self.known(e)
        if not self.ok:
            return
        U = lambda a, b: e.unify(st, a, b)
        # the free list head designates a free cell or the end
        e.assume(st, b_le(I(1), FREE0), True)
        e.assume(st, b_le(ix(FREE0), mk('len', ENTS0)), True)
        if k == 'insert':
            e.assume_variant(st, fld(cell0(FREE0), 'item'), 'None')
        if k in ('get_unchecked', 'get_mut_unchecked', 'link', 'unlink', 'remove'):
            e.assume_variant(st, fld(cell0(IDX), 'item'), 'Some')
            e.assume(st, b_le(mk('len', ENTS0), ix(IDX)), False)
            e.assume(st, b_eqn(IDX, FREE0), False)
        if k == 'link':
            U(fld(cell0(IDX), 'next'), IDX)
            U(fld(cell0(IDX), 'prev'), IDX)
            e.assume(st, b_eqn(IDX, HD), False)
            p = fld(cell0(HD), 'prev')
            e.assume(st, b_eqn(IDX, p), False)
            e.assume_variant(st, fld(cell0(HD), 'item'), 'Some')
            e.assume_variant(st, fld(cell0(p), 'item'), 'Some')
            U(fld(cell0(p), 'next'), HD)
        if k in ('unlink', 'remove'):
            n, p = fld(cell0(IDX), 'next'), fld(cell0(IDX), 'prev')
            e.assume_variant(st, fld(cell0(n), 'item'), 'Some')
            e.assume_variant(st, fld(cell0(p), 'item'), 'Some')
            U(fld(cell0(n), 'prev'), IDX)
            U(fld(cell0(p), 'next'), IDX)

    # ------------------------------------------------------------ what must hold
    def on_exit(self, e, st, kind, v):
        if kind != 'return' or not self.ok:
            return
        k = self.entry.kind[5:]
        self.cov['exits'] += 1
        if k == 'with_capacity':
            if e.vempty(fld(v, 'entries')) is not TRUE or S(st, fld(v, 'next_free')) is not I(1):
                self.bad(e, st, 'new', 'a new store is not empty or does not start its free list at the first slot')
            return
        if k in ('unlink', 'remove', 'link'):
            # decide the aliasing the code may not have looked at
            if k == 'link':
                if e.known_variant(st, HEAD) is None:
                    self.bad(e, st, 'head', 'the ring to join is not taken into account')
                    return
                pairs = [(HD, fld(cell0(HD), 'prev'))] if e.known_variant(st, HEAD) == 'Some' else []
            else:
                n, p = fld(cell0(IDX), 'next'), fld(cell0(IDX), 'prev')
                pairs = [(IDX, n), (IDX, p), (n, p)]
            sts = [st.copy()]
            for a, b in pairs:
                nx = []
                for s in sts:
                    x, y = self.norm(s, a), self.norm(s, b)
                    nx += [s2 for s2, _ in e.branch(s, b_eqn(x, y))]
                sts = nx
            for s in sts:
                self.check(e, s, k, v)
            return
        self.check(e, st, k, v)

    def norm(self, st, x):
        for _ in range(6):
            y = rewrite(x, st.sub, {}) if st.sub else x
            if y is x:
                return x
            x = y
        return x

    def same(self, e, st, a, b):
        a, b = self.norm(st, a), self.norm(st, b)
        if a is b:
            return True
        if a.t in ('agg',) and b.t in ('agg',) and a.a[0] == b.a[0] and a.a[1] == b.a[1]:
            fs = {f for f, _ in a.a[3]} | {f for f, _ in b.a[3]}
            return all(self.same(e, st, fld(a, f, a.a[1]), fld(b, f, b.a[1])) for f in fs)
        va, vb = e.known_variant(st, a), e.known_variant(st, b)
        if va == 'None' and vb == 'None':
            return True
        if va == 'Some' and vb == 'Some':
            return self.same(e, st, fld(a, '0', 'Some'), fld(b, '0', 'Some'))
        if a.t in ('i', 'lin', 'fld', 'sym') and b.t in ('i', 'lin', 'fld', 'sym') and va is None and vb is None:
            return e.decide(st, b_eqn(a, b)) is True
        return False

    def check(self, e, st, k, v):
        n = self.norm
        if e.opts.get('debug28'):
            print(k, show(v), {show(a): show(b) for a, b in st.sub.items()})
        idx, hd = n(st, IDX), n(st, HD)
        nx0, pv0 = fld(cell0(IDX), 'next'), fld(cell0(IDX), 'prev')
        ents = e.rd(st, mk('D', SELF), (F('entries'),))
        free = e.rd(st, mk('D', SELF), (F('next_free'),))
        pushed = ()
        if ents.t == 'vec' and k in ('insert',):
            pushed = ents.a[1]
            ents = ents.a[0]
        if k == 'drain':
            if e.vempty(ents) is not TRUE or not self.same(e, st, free, I(1)):
                self.bad(e, st, 'drain', 'after drain the store is not empty or its free list does not start at the first slot')
            self.iterator(e, st, v)
            return
        cells = {}
        while ents is not None and ents.t == 'arr':
            for i, x in ents.a[1]:
                cells.setdefault(n(st, i), x)
            ents = ents.a[0]
        if ents is not ENTS0:
            self.bad(e, st, 'vector', '%s replaces the vector of entries' % k)
            return
        exp = {}     # (index, field) -> expected value
        free_exp = FREE0
        ret = None

        def put(tok, f, x):
            exp[(n(st, ix(tok)), f)] = x
        if k == 'insert':
            some_item = some(mk('sym', 'item', 0))
            inside = e.decide(st, b_le(mk('len', ENTS0), ix(FREE0)))
            ret = FREE0
            if inside is None:
                self.bad(e, st, 'where', 'insertion does not distinguish a free slot from the end of the store')
                return
            if inside is False:
                if pushed:
                    self.bad(e, st, 'grow', 'the store grows although there is a free slot')
                    return
                put(FREE0, 'item', some_item)
                put(FREE0, 'next', FREE0)
                put(FREE0, 'prev', FREE0)
                free_exp = fld(cell0(FREE0), 'next')
            else:
                if len(pushed) != 1:
                    self.bad(e, st, 'grow', 'the store does not grow by exactly one slot')
                    return
                x = pushed[0]
                for f, w in (('item', some_item), ('next', FREE0), ('prev', FREE0)):
                    if not self.same(e, st, fld(x, f), w):
                        self.bad(e, st, 'fresh:' + f, 'a fresh slot gets the wrong %s: %s' % (f, show(fld(x, f))[:80]))
                free_exp = add(FREE0, I(1))
        elif k == 'link':
            if e.known_variant(st, HEAD) == 'None':
                put(IDX, 'next', IDX)
                put(IDX, 'prev', IDX)
                ret = IDX
            else:
                p = fld(cell0(HD), 'prev')
                put(HD, 'prev', IDX)
                put(p, 'next', IDX)
                put(IDX, 'prev', p)
                put(IDX, 'next', HD)
                ret = HD
        elif k in ('unlink', 'remove'):
            alone = self.same(e, st, nx0, IDX)
            if alone != self.same(e, st, pv0, IDX):
                return      # not a ring
            if not alone:
                put(pv0, 'next', nx0)
                put(nx0, 'prev', pv0)
                put(IDX, 'next', IDX)
                put(IDX, 'prev', IDX)
            ret = agg('core::option::Option', 'None', {}) if alone else some(nx0)
            if k == 'remove':
                put(IDX, 'item', agg('core::option::Option', 'None', {}))
                put(IDX, 'next', FREE0)
                exp.pop((n(st, ix(IDX)), 'prev'), None)     # unused while the slot is free
                free_exp = IDX
                ret = some(tup(fld(fld(cell0(IDX), 'item'), '0', 'Some'), ret))
        elif k in ('get', 'get_mut', 'get_unchecked', 'get_mut_unchecked'):
            self.getter(e, st, k, v)
        elif k == 'next_free':
            ret = FREE0
        elif k == 'iter':
            self.iterator(e, st, v)
        skip = {(n(st, ix(IDX)), 'prev')} if k == 'remove' else set()
        for i in set(cells) | {i for i, _ in exp}:
            x = cells.get(i)
            for f in ('item', 'next', 'prev'):
                if (i, f) in skip:
                    continue
                init = fld(n(st, mk('elem', ENTS0, i)), f)
                got = fld(x, f) if x is not None else init
                want = exp.get((i, f), init)
                self.cov['cell fields compared'] += 1
                if not self.same(e, st, got, want):
                    who = 'the entry itself' if i is n(st, ix(IDX)) else 'a neighbour'
                    if (i, f) in exp:
                        self.bad(e, st, '%s:%s' % (f, who[-9:]), 'after %s, %s of %s is %s instead of %s' % (k, f, who, show(n(st, got))[:60], show(n(st, want))[:60]))
                    else:
                        self.bad(e, st, 'frame:' + f, '%s changes %s of a cell it has no business with' % (k, f))
        if not self.same(e, st, free, free_exp):
            self.bad(e, st, 'free', 'after %s the free list starts at %s instead of %s' % (k, show(n(st, free))[:60], show(n(st, free_exp))[:60]))
        if ret is not None and not self.same(e, st, v, ret):
            self.bad(e, st, 'result', '%s returns %s instead of %s' % (k, show(n(st, v))[:80], show(n(st, ret))[:80]))

    def getter(self, e, st, k, v):
        occ = e.known_variant(st, S(st, fld(cell0(IDX), 'item')))
        if 'unchecked' not in k:
            if st.auto.get('oob') or occ == 'None':
                if e.known_variant(st, v) != 'None':
                    self.bad(e, st, 'vacant', '%s returns something for a slot that is not occupied' % k)
                return
            if e.known_variant(st, v) != 'Some' or occ != 'Some':
                self.bad(e, st, 'occupied', '%s does not return the entry of an occupied slot' % k)
                return
            v = fld(v, '0', 'Some')
        elif occ != 'Some':
            return
        r = fld(v, '0')
        if r.t == 'ref':
            got = e.rd(st, r.a[0], r.a[1])
        else:
            got = r
        want = fld(fld(cell0(IDX), 'item'), '0')
        want2 = fld(fld(cell0(IDX), 'item'), '0', 'Some')
        if not (self.same(e, st, got, want) or self.same(e, st, got, want2)):
            self.bad(e, st, 'entry', '%s returns another entry than the one asked for: %s' % (k, show(got)[:80]))
        if not self.same(e, st, fld(v, '1'), fld(cell0(IDX), 'next')):
            self.bad(e, st, 'next', '%s does not return the next entry of the ring' % k)

    def iterator(self, e, st, v):
        k = self.entry.kind[5:]
        if v.t != 'it':
            return
        src, ads = v.a
        ok = src.a[0] == 'vec' and src.a[1] is ENTS0 or src.a[0] == 'slice' and src.a[1].t == 'ref' and e.rd(st, *src.a[1].a) is ENTS0
        FILT = ('map', 'filter', 'filter_map', 'flat_map', 'flatten', 'copied', 'cloned', 'inspect', 'rev', 'enumerate', 'by_ref')
        w = [a[0] for a in ads if a[0] not in FILT]
        if not ok or w:
            self.bad(e, st, 'partial', 'the iterator does not pass over every slot%s' % (' (%s)' % w[0] if w else ''))
            return
        me = self
        e2 = Engine(e.p, [], dict(e.opts))

        class M(Monitor):
            def on_event(self, e_, s, ev):
                if ev.k == 'elem':
                    x = ev.d[2]
                    s.auto['c28c'] = e_.rd(s, x.a[0], x.a[1]) if x.t == 'ref' else x
        e2.mon = [M()]

        def probe(s, src_, ads_, x, skipped):
            c = s.auto.get('c28c')
            if c is None:
                return
            n = e2.known_variant(s, S(s, fld(c, 'item')))
            me.cov['elements: %s %s' % (n, 'left out' if skipped or x is None else 'yielded')] += 1
            if skipped or x is None:
                if n != 'None':
                    me.bad(e, s, 'missing', 'an occupied slot is left out')
                return
            if n != 'Some':
                me.bad(e, s, 'extra', 'something is yielded for a vacant slot')
                return
            y = e2.rd(s, x.a[0], x.a[1]) if x.t == 'ref' else x
            it = fld(c, 'item')
            if not (me.same(e2, s, y, fld(it, '0', 'Some')) or me.same(e2, s, y, fld(it, '0'))):
                me.bad(e, s, 'content', 'the iterator yields %s instead of the entry' % show(y)[:80])
        e2.probe = probe
        s = st.copy()
        s.exitk = None
        s.unwinding = False
        work = e2.istep(e2, s, src, ads, ('probe', None, (None, None, None, None, None, None)))
        while work:
            r = e2.run(work.pop())
            if r:
                work.extend(r)


# ---------------------------------------------------------------------------------------------- C23: unsafe code
KNOWN_UNSAFE = ('core::slice::<impl [T]>::get_unchecked', 'core::slice::<impl [T]>::get_unchecked_mut',
                'core::option::Option::<T>::unwrap_unchecked', 'core::result::Result::<T, E>::unwrap_unchecked',
                'core::mem::maybe_uninit::MaybeUninit::<T>::assume_init', 'core::mem::maybe_uninit::MaybeUninit::<T>::assume_init_read',
                'core::hint::unreachable_unchecked')
ASYNC_UNSAFE = ('core::pin::Pin::<Ptr>::new_unchecked', 'core::future::get_context')


@rule
class C23(Rule):
    pid = 'C23'
    cfgs = ('rel',)
    more_cfgs = ('rel', 'default')
    rule = ('no path of any entry reaches an unreachable_unchecked, reads uninitialised memory or accesses a slot without '
            'checking that may be vacant; references to mutable items are only made for resident entries; references that '
            'went through raw pointers designate a live resident entry at the return; there is no other unsafe operation')

    def wants(self, entry):
        k = entry.kind
        if k.startswith('slab.'):
            return 'unchecked' in k
        return k not in ('clone',) and not k.startswith('opt.')

    def setup(self, e, st):
        if self.entry.kind.startswith('slab.'):
            e.assume_variant(st, fld(cell0(IDX), 'item'), 'Some')
            e.assume(st, b_le(mk('len', ENTS0), ix(IDX)), False)
            e.assume(st, b_le(I(1), IDX), True)

    def on_event(self, e, st, ev):
        if ev.k == 'ub':
            self.bad(e, st, 'ub:' + ev.d[0], 'a path %s' % ev.d[0], ev.span, ev.fn)
        elif ev.k == 'slab_unchecked':
            self.cov['unchecked slot accesses'] += 1
        elif ev.k == 'slice_unchecked':
            self.cov['unchecked slice accesses'] += 1
            r, p = e.deref(st, ev.d[0])
            v = e.rd(st, r, p)
            while v.t == 'arr':
                v = v.a[0]
            if e.decide(st, b_le(mk('len', v), ev.d[1])) is not False:
                self.bad(e, st, 'bounds', 'an unchecked index is not known to be in bounds: %s' % show(ev.d[1])[:80], ev.span, ev.fn)
        elif ev.k in ('slab_insert', 'slab_remove', 'slab_drain'):
            st.auto['c23m'] = 1
        elif ev.k == 'slab_get':
            st.auto.pop('c23m', None)

    def on_agg(self, e, st, v, ty):
        if ty[0] == 'adt' and ty[1] == 'shard::RefMut':
            cref, idx = fld(v, 'cache'), S(st, fld(v, 'idx'))
            if cref.t != 'ref':
                return
            r, p = e.deref(st, cref)
            sh = st.sh.get(mk('shk', r, p))
            if sh is None:
                return
            self.cov['mutable references made'] += 1
            n = e.known_variant(st, e.rd(st, e.slot(sh, idx)))
            if n != 'Resident':
                self.bad(e, st, 'refmut', 'a mutable reference is made for an entry that is not known to be resident')

    def on_exit(self, e, st, kind, v):
        self.cov['exits'] += 1
        if kind != 'return' or v is None:
            return
        for s in subterms(v):
            if s.t == 'ref' and s.a[0].t == 'slot' and s.a[0].a[0] in st.sh:
                self.cov['references returned'] += 1
                sh = st.sh[s.a[0].a[0]]
                r = sh.recs.get(S(st, s.a[0].a[1]))
                if r is not None and not r.occ:
                    self.bad(e, st, 'dangling', 'a reference into a slot that was vacated is returned')
                elif st.auto.get('c23m'):
                    self.bad(e, st, 'stale', 'a reference obtained before the store was changed is returned')
                elif s.a[1] and e.known_variant(st, e.rd(st, s.a[0])) not in ('Resident', None):
                    self.bad(e, st, 'kind', 'a reference into an entry of another kind is returned')

    @classmethod
    def conclude(cls, results, progs):
        out = []

        def bad(c, f, sp, code, msg):
            out.append({'code': code, 'entry': f.path if f is not None else 'crate', 'cfg': c, 'fn': f.path if f is not None else None,
                        'at': '%s:%s' % (sp[0], sp[1]) if sp else None, 'n': 1, 'trace': [], 'msg': msg})
        for c, p in progs.items():
            for f in p.local_fns():
                for b in f.bbs:
                    t = b['t']
                    if t[0] == 'call' and t[1][0] == 'fn':
                        cal = t[1][2]
                        n = cal.get('rpath') or cal['path']
                        if cal.get('unsafe'):
                            local = cal.get('local') or n.startswith('linked_slab::LinkedSlab')
                            if n in ASYNC_UNSAFE and f.coroutine:
                                continue
                            if n in KNOWN_UNSAFE or n.startswith('linked_slab::LinkedSlab') and n.endswith('unchecked'):
                                continue
                            bad(c, f, t[7], 'call:' + n, 'calls the unsafe function %s, whose precondition nothing establishes' % n)
                    for st in b['s']:
                        if st[0] != '=':
                            continue
                        if st[2][0] == 'cast' and 'Transmute' in st[2][1] and 'PtrTo' not in st[2][1]:
                            bad(c, f, st[3], 'transmute', 'transmutes a value')
                        for pl in places(st):
                            if any(x[0] == '*raw' for x in pl[1:]):
                                if not addressed(f, pl[0]):
                                    bad(c, f, st[3], 'raw', 'dereferences a raw pointer that was not made from a reference in the same function')
            for im in p.impls:
                if im.unsafe and not im.derived:
                    bad(c, None, im.span, 'impl:' + im.trait, 'unsafe impl of %s' % im.trait)
        return out


def places(x):
    """all places (with projections) mentioned in a statement"""
    if isinstance(x, list):
        if x and isinstance(x[0], int) and len(x) > 1 and all(isinstance(y, list) and y and isinstance(y[0], str) for y in x[1:]):
            yield x
        for y in x:
            yield from places(y)


def addressed(f, l, depth=0):
    """is every assignment of local l a pointer made from a place reached without raw pointers?"""
    n = 0
    if l <= f.argc or depth > 6:
        return False
    for b in f.bbs:
        for st in b['s']:
            if st[0] == '=' and st[1] == [l]:
                n += 1
                r = st[2]
                if r[0] in ('rawptr',):
                    if any(x[0] == '*raw' for x in r[2][1:]):
                        return False
                    continue
                if r[0] in ('use', 'cast'):
                    o = r[1] if r[0] == 'use' else r[2]
                    if o[0] in ('copy', 'move') and len(o[1]) == 1:
                        t = f.locals[o[1][0]][0]
                        if t[0] == 'ref' or addressed(f, o[1][0], depth + 1):
                            continue
                return False
        t = b['t']
        if t[0] == 'call' and t[3] == [l]:
            # a pointer obtained from a reference through core::ptr::from_ref and the like
            c = t[1][2] if t[1][0] == 'fn' else {}
            if (c.get('rpath') or c.get('path', '')) in ('core::ptr::from_ref', 'core::ptr::from_mut'):
                n += 1
                continue
            return False
    return n > 0
