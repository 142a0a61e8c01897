"""Typestate of a cache shard: which slots are occupied, indexed, linked, and what the counters should say.

A shard is identified by the place its struct lives in.  Slots are identified by token terms.  Only slots touched by
the path under analysis have records; everything else is covered by the shard invariant, which every transaction (the
span of one exclusive access) must re-establish: that is what `settle` checks."""
from terms import *
from mir import tsubst
from models import strip, VECNEW

CNT = ('num_hot', 'num_cold', 'weight_hot', 'weight_cold', 'num_non_resident')
HEADS = {'hot': 'hot_head', 'cold': 'cold_head', 'ghost': 'ghost_head'}
STATES = {'Hot': 'hot', 'Cold': 'cold'}
ENTRY = 'shard::Entry'
RSTATE = 'shard::ResidentState'


class Rec:
    __slots__ = ('tok', 'init', 'occ', 'inmap', 'ihash', 'ring', 'mod', 'acct', 'why', 'ring0', 'left')

    def __init__(self, tok, init):
        self.tok = tok
        self.init = init      # ent term when the slot was occupied at the start, None when it was free
        self.occ = init is not None
        self.inmap = init is not None
        self.ihash = None     # None: the hash of its own initial content
        self.ring = 'init' if init is not None else None
        self.mod = False
        self.acct = None
        self.why = None
        self.ring0 = '?' if init is not None else None   # list the entry was in at the start
        self.left = None      # when it last left a list

    def copy(self):
        r = Rec(self.tok, self.init)
        r.ring0, r.left = self.ring0, self.left
        r.occ, r.inmap, r.ihash, r.ring, r.mod, r.acct, r.why = self.occ, self.inmap, self.ihash, self.ring, self.mod, self.acct, self.why
        return r


class Sh:
    def __init__(self, key, base, writable):
        self.key = key
        self.base = base
        self.writable = writable
        self.recs = {}
        self.hreg = {}     # option term -> ring
        self.tags = {}     # token -> ring
        self.live = set()  # tokens known to designate occupied slots
        self.lost = {}     # token held by the program -> (list it was in, what may have become of its entry since)
        self.ep = {}
        self.free = None
        self.drained = False
        self.mapcleared = False
        self.c0 = {}
        self.h0 = {}
        self.dirty = set()   # rings structurally modified
        self.scn = {}
        self.nx = 0
        self.tokmeta = {}
        self.over = {}     # option token -> when it was read

    def copy(self):
        s = Sh(self.key, self.base, self.writable)
        s.recs = {k: r.copy() for k, r in self.recs.items()}
        s.hreg = dict(self.hreg)
        s.tags = dict(self.tags)
        s.live = set(self.live)
        s.lost = dict(self.lost)
        s.ep = dict(self.ep)
        s.free = self.free
        s.drained = self.drained
        s.mapcleared = self.mapcleared
        s.c0 = dict(self.c0)
        s.h0 = dict(self.h0)
        s.dirty = set(self.dirty)
        s.scn = dict(self.scn)
        s.nx = self.nx
        s.over = dict(self.over)
        return s

    def rewrite(self, rw):
        recs = {}
        for k, r in self.recs.items():
            r.tok = rw(r.tok)
            r.init = rw(r.init) if r.init is not None else None
            r.ihash = rw(r.ihash) if r.ihash is not None else None
            r.acct = rw(r.acct) if r.acct is not None else None
            if isinstance(r.ring, tuple):
                r.ring = rw(r.ring)
            if r.tok in recs:
                o = recs[r.tok]
                if o.mod and r.mod:
                    return False
                recs[r.tok] = r if r.mod else o
            else:
                recs[r.tok] = r
        self.recs = recs
        self.key = rw(self.key)
        self.base = rw(self.base)
        self.over = {rw(k): v for k, v in self.over.items()}
        self.hreg = {rw(k): (rw(v) if isinstance(v, tuple) else v) for k, v in self.hreg.items()}
        nt = {}
        for k, v in self.tags.items():
            k2 = rw(k)
            if nt.get(k2, v) != v:
                return False
            nt[k2] = v
        self.tags = nt
        self.live = {rw(k) for k in self.live}
        self.lost = {rw(k): v for k, v in self.lost.items()}
        self.ep = {rw(k): v for k, v in self.ep.items()}
        self.free = rw(self.free) if self.free is not None else None
        self.c0 = {k: rw(v) for k, v in self.c0.items()}
        self.h0 = {k: rw(v) for k, v in self.h0.items()}
        self.scn = {rw(k): (v[0], rw(v[1]) if v[1] is not None else None) for k, v in self.scn.items()}
        return True

    def canon(self, c):
        return ('sh', c(self.key), self.writable,
                frozenset((c(r.tok), r.occ, r.inmap, c(r.ihash) if r.ihash is not None else None,
                           c(r.ring) if isinstance(r.ring, tuple) else r.ring, r.mod, r.init is not None, c(r.acct) if r.acct is not None else None)
                          for r in self.recs.values()),
                frozenset((c(k), v[0], c(v[1]) if v[1] is not None else None) for k, v in self.scn.items()),
                self.drained, self.mapcleared, frozenset(self.dirty), c(self.free) if self.free is not None else None)


def field_ref(key, name):
    return key.a[0], key.a[1] + (F(name),)


def install(eng):
    M = eng.models
    K = eng.khandlers
    p = eng.p
    eng.entry_adt = p.adts.get(ENTRY)

    def get_sh(st, key):
        sh = st.sh.get(key)
        if sh is None:
            root, path = key.a
            wr = True
            for l in st.locks:
                if l.a[3] is root:
                    wr = l.a[1] == 'w'
            sh = Sh(key, eng.rd(st, root, path), wr)
            v = sh.base
            for n in CNT:
                sh.c0[n] = st.sub.get(fld(v, n), fld(v, n))
            st.les[sub(sh.c0['num_non_resident'], fld(v, 'capacity_non_resident'))] = 1
            for r, n in HEADS.items():
                h = st.sub.get(fld(v, n), fld(v, n))
                sh.h0[r] = h
                sh.hreg[h] = r
            st.sh[key] = sh
        return sh
    eng.get_sh = get_sh

    def slab_key(e, st, a):
        r, pth = e.deref(st, a)
        if not pth:
            return None
        return mk('shk', r, pth[:-1])

    def ent(sh, tok):
        return mk('ent', sh.key, tok, sh.ep.get(tok, 0))
    eng.ent = ent

    def slot(sh, tok):
        return mk('slot', sh.key, tok)
    eng.slot = slot

    def init_slot(e, st, root):
        sh = st.sh.get(root.a[0])
        return ent(sh, root.a[1]) if sh is not None else UNINIT
    eng.init_slot = init_slot

    # ------------------------------------------------------------ classification
    def rkey(content):
        return fld(fld(content, '0', 'Resident'), 'key')

    def rval(content):
        return fld(fld(content, '0', 'Resident'), 'value')

    def S(st, v):
        return st.sub.get(v, v)

    def Wc(st, content):
        w = eng.W(S(st, rkey(content)), S(st, rval(content)))
        return S(st, w)

    def split_class(e, st, content):
        """-> [(state, class)] with class in hot/cold/pend/ghost"""
        out = []
        for s2, n in e.split_variant(st, content, eng.entry_adt):
            if n == 'Resident':
                sv = S(s2, fld(fld(content, '0', 'Resident'), 'state'))
                for s3, m in e.split_variant(s2, sv, p.adts[RSTATE]):
                    out.append((s3, STATES[m]))
            elif n == 'Placeholder':
                out.append((s2, 'pend'))
            else:
                out.append((s2, 'ghost'))
        return out
    eng.split_class = split_class

    def own_hash(e, st, content, cls):
        if cls == 'ghost':
            return S(st, fld(content, '0', 'Ghost'))
        k = fld(fld(content, '0', 'Resident' if cls in ('hot', 'cold') else 'Placeholder'), 'key')
        return S(st, e.H(strip(S(st, k))))
    eng.own_hash = own_hash

    def tok_ring(st, sh, t):
        """ring a token is known to be in, if any"""
        r = sh.tags.get(t)
        if r is not None:
            return r
        if t.t == 'fld' and t.a[1] == 'Some' and t.a[2] == '0' and t.a[0] in sh.hreg:
            r = sh.hreg[t.a[0]]
            if isinstance(r, tuple):
                return None
            return r
        return None

    eng.tok_ring = tok_ring

    def tver(sh, t):
        """when a token was read out of a list"""
        if t.t == 'next':
            return t.a[2]
        if t.t == 'fld' and t.a[0] in sh.over:
            return sh.over[t.a[0]]
        return -1

    def distinct(e, st, x, y):
        if x.t == 'slot' or y.t == 'slot':
            return False
        for sh in st.sh.values():
            if x in sh.recs and y in sh.recs:
                return True
            rx, ry = sh.recs.get(x), sh.recs.get(y)
            tx, ty = tok_ring(st, sh, x), tok_ring(st, sh, y)
            if tx is not None and ty is not None and tx != ty:
                return True
            for a, ta, ra, b, rb in ((x, tx, rx, y, ry), (y, ty, ry, x, rx)):
                # ring members are occupied and linked
                if ta is not None and rb is not None and a not in sh.recs and rb.mod and rb.ring != ta and rb.ring != 'init':
                    if rb.ring0 != '?' and rb.ring0 != ta or rb.left is not None and rb.left <= tver(sh, a):
                        return True
                if rb is not None and not rb.occ and rb.init is None and (ta is not None or a in sh.live) and a not in sh.recs:
                    return True
                if rb is not None and rb.ring is None and not rb.mod and ta is not None:
                    return True
                # unlinked result: the successor is not the unlinked entry
                if a.t == 'fld' and a.a[0].t == 'nxo' and a.a[0].a[1] is b:
                    return True
                # class of the other entry excludes the ring
                if ta is not None and b not in sh.recs or (rb is not None and not rb.mod and ta is not None):
                    en = mk('ent', sh.key, b, sh.ep.get(b, 0))
                    v = e.known_variant(st, en)
                    if v == 'Placeholder' or v == 'Ghost' and ta != 'ghost' or v == 'Resident' and ta == 'ghost':
                        return True
                    if v == 'Resident':
                        sv = e.known_variant(st, S(st, fld(fld(en, '0', 'Resident'), 'state')))
                        if sv is not None and STATES[sv] != ta:
                            return True
                        w = Wc(st, en)
                        if e.decide(st, b_eqn(w, I(0))) is True:
                            return True
        return False
    eng.distinct_hooks = (distinct,)

    def assume_ring(e, st, sh, tok, ring):
        """facts about an untouched entry that is in `ring`"""
        en = ent(sh, tok)
        if ring == 'ghost':
            return e.assume_variant(st, en, 'Ghost')
        if not e.assume_variant(st, en, 'Resident'):
            return False
        sv = S(st, fld(fld(en, '0', 'Resident'), 'state'))
        if not e.assume_variant(st, sv, 'Hot' if ring == 'hot' else 'Cold'):
            return False
        w = Wc(st, en)
        if e.decide(st, b_eqn(w, I(0))) is True:
            return False
        return e.assume(st, b_eqn(w, I(0)), False)

    def rec_for(e, st, key, tok, live=None):
        """records for the slot designated by tok -> [(state, tok, rec or None when vacant)]"""
        sh = st.sh[key]
        tok = st.sub.get(tok, tok)
        if tok in sh.recs:
            r = sh.recs[tok]
            return [(st, tok, r if r.occ else None)]
        if tok in sh.lost:
            orig, cl = sh.lost[tok]
            out = []
            for c in ('same',) + tuple(sorted(cl)):
                s2 = st.copy()
                sh2 = s2.sh[key]
                del sh2.lost[tok]
                if c == 'free':
                    sh2.recs[tok] = Rec(tok, None)
                    out.append((s2, tok, None))
                    continue
                sh2.live.add(tok)
                if c == 'same':
                    if orig is not None:
                        sh2.tags[tok] = orig
                elif c in HEADS:
                    sh2.tags[tok] = c
                elif not e.assume_variant(s2, ent(sh2, tok), 'Resident'):
                    continue
                out += rec_for(e, s2, key, tok)
            return out
        ring = tok_ring(st, sh, tok)
        if ring is None and tok.t == 'next':
            # successor of an entry whose ring is not settled yet: resolve it
            base = tok.a[1]
            out = []
            for s2, r in ring_of(e, st, key, base):
                sh2 = s2.sh[key]
                if r is None:
                    if e.unify(s2, tok, base):
                        out += rec_for(e, s2, key, base)
                else:
                    sh2.tags[tok] = r
                    sh2.live.add(tok)
                    out += rec_for(e, s2, key, tok)
            return out
        out = []
        known = list(sh.recs)
        s0 = st.copy()
        for t2 in known:
            b = e.eq_term(tok, t2)
            d = e.decide(st, b)
            if d is False:
                continue
            s2 = st.copy()
            if e.unify(s2, tok, t2):
                sh2 = s2.sh[key]
                if ring is not None:
                    sh2.tags[t2] = ring
                    r2 = sh2.recs[t2]
                    if not r2.mod and not assume_ring(e, s2, sh2, t2, ring):
                        continue
                    if r2.mod and r2.ring != 'init' and r2.ring != ring:
                        continue
                out += rec_for(e, s2, key, t2)
        st = s0
        sh = st.sh[key]
        for t2 in known:
            b = e.eq_term(tok, t2)
            st.bools[b] = False
        must = live or ring is not None or tok in sh.live
        if not must:
            s2 = st.copy()
            sh2 = s2.sh[key]
            r = Rec(tok, None)
            sh2.recs[tok] = r
            out.append((s2, tok, None))
        r = Rec(tok, ent(sh, tok))
        sh.recs[tok] = r
        if ring is not None:
            if not assume_ring(e, st, sh, tok, ring):
                return out
            r.ring = r.ring0 = ring
        if sh.drained:
            return out
        out.append((st, tok, r))
        return out
    eng.rec_for = rec_for

    def ring_of(e, st, key, tok):
        """resolve the ring of an entry -> [(state, ring or None)]"""
        sh = st.sh[key]
        r = sh.recs.get(tok)
        if r is None:
            t = tok_ring(st, sh, tok)
            if t is not None:
                return [(st, t)]
            out = []
            for s2, t2, r2 in rec_for(e, st, key, tok):
                out += ring_of(e, s2, key, t2) if r2 is not None else [(s2, None)]
            return out
        if r.ring != 'init':
            return [(st, r.ring)]
        t = tok_ring(st, sh, tok)
        if t is not None:
            r.ring = r.ring0 = t
            return [(st, t)]
        out = []
        for s2, c in split_class(e, st, r.init):
            r2 = s2.sh[key].recs[tok]
            if c == 'pend':
                r2.ring = r2.ring0 = None
                out.append((s2, None))
            elif c == 'ghost':
                r2.ring = r2.ring0 = 'ghost'
                out.append((s2, 'ghost'))
            else:
                w = r2.acct if r2.acct is not None else Wc(s2, r2.init)
                for s3, z in e.branch(s2, b_eqn(w, I(0))):
                    r3 = s3.sh[key].recs[tok]
                    r3.ring = r3.ring0 = None if z else c
                    out.append((s3, r3.ring))
        return out
    eng.ring_of = ring_of

    # ------------------------------------------------------------ LinkedSlab operations
    def slabfn(path):
        i = path.find('LinkedSlab')
        if i < 0 or not path.startswith('linked_slab::LinkedSlab'):
            return None
        return path.rsplit('::', 1)[-1]

    def slab_ops(e, st, a, cx, info):
        if not e.opts.get('slab', True):
            return NotImplemented
        c = info.c
        path = c.get('rpath') or c['path']
        n = slabfn(path)
        if n is None or not a or a[0].t != 'ref' or 'trait' in c:
            return NotImplemented
        f = SLAB.get(n)
        if f is None:
            return NotImplemented
        key = slab_key(e, st, a[0])
        if key is None:
            return NotImplemented
        get_sh(st, key)
        return f(e, st, key, a, cx)
    eng.tymodels.insert(0, slab_ops)
    SLAB = {}

    def op(n):
        def d(f):
            SLAB[n] = f
            return f
        return d

    def nexttok(sh, tok):
        return mk('next', sh.key, tok, sh.nx)

    def getter(mut, checked):
        def f(e, st, key, a, cx):
            out = []
            if not checked:
                e.emit(st, 'slab_unchecked', key, a[1])
            for s2, t, r in rec_for(e, st, key, a[1]):
                sh = s2.sh[key]
                if r is None:
                    if checked:
                        e.emit(s2, 'slab_vacant', key, t)
                        out += e.finish(s2, cx, NONE)
                    else:
                        e.emit(s2, 'ub', 'unchecked access to a slot that may be vacant')
                    continue
                nt = nexttok(sh, t)
                e.emit(s2, 'slab_get', key, t, mut, nt)
                ring = r.ring if isinstance(r.ring, str) and r.ring != 'init' else (tok_ring(s2, sh, t) if r.ring == 'init' else None)
                if ring is not None:
                    sh.tags[nt] = ring
                    sh.live.add(nt)
                v = tup(ref(slot(sh, t)), nt)
                out += e.finish(s2, cx, some(v) if checked else v)
            return out
        return f
    SLAB['get'] = getter(False, True)
    SLAB['get_mut'] = getter(True, True)
    SLAB['get_unchecked'] = getter(False, False)
    SLAB['get_mut_unchecked'] = getter(True, False)

    @op('next_free')
    def _(e, st, key, a, cx):
        sh = st.sh[key]
        if sh.free is None:
            sh.free = fresh('tok')
        return e.finish(st, cx, sh.free)

    @op('insert')
    def _(e, st, key, a, cx):
        sh = st.sh[key]
        t = sh.free if sh.free is not None else fresh('tok')
        sh.free = None
        r = sh.recs.get(t)
        if r is None:
            for t2 in sh.recs:
                st.bools[e.eq_term(t, t2)] = False
            r = sh.recs[t] = Rec(t, None)
        r.occ = True
        r.mod = True
        r.ring = None
        st.mem[slot(sh, t)] = a[1]
        st.shver += 1
        e.emit(st, 'slab_insert', key, t, a[1])
        return e.finish(st, cx, t)

    def touch(st, sh, r):
        r.mod = True
        st.shver += 1

    def do_unlink(e, st, key, tok):
        """-> [(state, option next)]"""
        out = []
        for s2, ring in ring_of(e, st, key, tok):
            sh = s2.sh[key]
            r = sh.recs[tok]
            if ring is None:
                out.append((s2, NONE))
                continue
            touch(s2, sh, r)
            r.ring = None
            r.left = sh.nx + 1
            for n_ in [n_ for n_ in sh.tags if n_.t == 'next' and n_.a[1] is tok]:
                del sh.tags[n_]
            sh.nx += 1
            _ = fresh('nx')
            o = mk('nxo', sh.key, tok, _)
            sh.hreg[o] = ring
            sh.over[o] = sh.nx
            sh.dirty.add(ring)
            e.emit(s2, 'unlink', key, tok, ring)
            out.append((s2, o))
        return out

    @op('unlink')
    def _(e, st, key, a, cx):
        out = []
        for s2, t, r in rec_for(e, st, key, a[1]):
            if r is None:
                e.emit(s2, 'slab_misuse', key, 'unlinks a vacant slot', t)
                out += e.finish(s2, cx, NONE)
                continue
            for s3, o in do_unlink(e, s2, key, t):
                out += e.finish(s3, cx, o)
        return out

    @op('remove')
    def _(e, st, key, a, cx):
        out = []
        for s2, t, r in rec_for(e, st, key, a[1]):
            if r is None:
                out += e.finish(s2, cx, NONE)
                continue
            sh = s2.sh[key]
            if r.ring == 'init' and e.known_variant(s2, r.init) is None and not r.mod:
                # class not looked at yet: keep it lazy
                touch(s2, sh, r)
                r.ring = ('left', 'init')
                sh.nx += 1
                r.left = sh.nx
                o = mk('nxo', sh.key, t, fresh('nx'))
                sh.over[o] = sh.nx
                sh.hreg[o] = ('of', t)
                sh.dirty.add('?')
                alts = [(s2, o)]
            else:
                alts = do_unlink(e, s2, key, t)
            for s3, o in alts:
                sh3 = s3.sh[key]
                r3 = sh3.recs[t]
                touch(s3, sh3, r3)
                v = e.rd(s3, slot(sh3, t))
                r3.occ = False
                s3.mem[slot(sh3, t)] = MOVED
                sh3.free = t
                e.emit(s3, 'slab_remove', key, t, v)
                out += e.finish(s3, cx, some(tup(v, o)))
        return out

    @op('link')
    def _(e, st, key, a, cx):
        out = []
        for s2, t, r in rec_for(e, st, key, a[1]):
            if r is None:
                e.emit(s2, 'slab_misuse', key, 'links a vacant slot', t)
                continue
            for s3, cur in ring_of(e, s2, key, t):
                if cur is not None:
                    e.emit(s3, 'slab_misuse', key, 'links an entry that is already in the %s list' % (cur,), t)
                opt = a[2]
                for s4, nm in e.split_variant(s3, opt, p.adts[OPT]):
                    sh = s4.sh[key]
                    r4 = sh.recs[t]
                    touch(s4, sh, r4)
                    base = opt
                    while base.t == 'agg' and base.a[2] is not None:
                        base = base.a[2]
                    ring = sh.hreg.get(base)
                    if nm == 'None':
                        if ring is None or isinstance(ring, tuple):
                            ring = ('new', t)
                        r4.ring = ring
                        sh.dirty.add(ring if isinstance(ring, str) else '?')
                        e.emit(s4, 'link', key, t, ring, 'empty')
                        out += e.finish(s4, cx, t)
                    else:
                        h = S(s4, fld(opt, '0', 'Some'))
                        if h in sh.recs:
                            ring = sh.recs[h].ring
                            if ring == 'init':
                                ring = tok_ring(s4, sh, h)
                        else:
                            ring = tok_ring(s4, sh, h) or ring
                        if ring is None:
                            ring = ('unk', h)
                        r4.ring = ring
                        sh.dirty.add(ring if isinstance(ring, str) else '?')
                        e.emit(s4, 'link', key, t, ring, 'some')
                        out += e.finish(s4, cx, h)
        return out

    @op('drain')
    def _(e, st, key, a, cx):
        sh = st.sh[key]
        sh.drained = True
        st.shver += 1
        e.emit(st, 'slab_drain', key)
        for r in sh.recs.values():
            if r.occ:
                r.occ = False
                r.mod = True
                r.ring = None if r.ring != 'init' else ('left', 'init')
        return e.finish(st, cx, e.it(mk('isrc', 'slabdrain', key)))

    @op('iter')
    def _(e, st, key, a, cx):
        return e.finish(st, cx, e.it(mk('isrc', 'slabiter', key)))

    def src_slabdrain(e, st, src):
        s2 = st.copy()
        return [(st, None, src), (s2, mk('sym', 'drained', fresh('d').a[1]), src)]
    eng.isources['slabdrain'] = src_slabdrain

    def src_slabiter(e, st, src):
        key = src.a[1]
        s2 = st.copy()
        get_sh(s2, key)
        t = fresh('tok')
        return [(st, None, src)] + [(s3, ref(slot(s3.sh[key], t2)), src) for s3, t2, r in rec_for(e, s2, key, t, live=True) if r is not None]
    eng.isources['slabiter'] = src_slabiter

    # ------------------------------------------------------------ HashTable operations
    HT = 'hashbrown::table::HashTable::<'

    def table_ops(e, st, a, cx, info):
        path = info.c['path']
        if not path.startswith(HT) or 'trait' in info.c or not a or a[0].t != 'ref':
            return NotImplemented
        n = info.c['name']
        key = slab_key(e, st, a[0])
        if key is None:
            return NotImplemented
        get_sh(st, key)
        f = TABLE.get(n)
        if f is None:
            st.auto['taint'] = 'HashTable::' + n
            return NotImplemented
        return f(e, st, key, a, cx)
    eng.tymodels.insert(0, table_ops)
    TABLE = {}

    def top(*ns):
        def d(f):
            for n in ns:
                TABLE[n] = f
            return f
        return d

    def scenario(e, st, key, h):
        """case split on the status of the key whose hash is being looked up"""
        sh = st.sh[key]
        if h.t != 'H':
            return [st]
        k = strip(h.a[0])
        if k in sh.scn or sh.drained:
            return [st]
        if any(s.t == 'ent' for s in subterms(k)):
            return [st]
        out = []
        # a known slot already holding that key decides it
        for t, r in sh.recs.items():
            content = e.rd(st, slot(sh, t))
            v = e.known_variant(st, content)
            if r.inmap and r.occ and v in ('Resident', 'Placeholder'):
                kk = strip(S(st, fld(fld(content, '0', v), 'key')))
                if kk is k:
                    sh.scn[k] = ('R' if v == 'Resident' else 'P', t)
                    return [st]
        for status, var in (('A', None), ('R', 'Resident'), ('P', 'Placeholder')):
            s2 = st.copy()
            sh2 = s2.sh[key]
            if var is None:
                sh2.scn[k] = ('A', None)
                out.append(s2)
                continue
            w = fresh('tok')
            for s3, t, r in rec_for(e, s2, key, w, live=True):
                if r is None or r.mod:
                    # aliases a slot this path has already changed
                    if r is None:
                        continue
                    continue
                en = e.rd(s3, slot(s3.sh[key], t))
                if not e.assume_variant(s3, en, var):
                    continue
                kk = S(s3, fld(fld(en, '0', var), 'key'))
                if not e.assume(s3, e.equiv(k, kk), True):
                    continue
                s3.sh[key].scn[k] = (status, t)
                out.append(s3)
        return out

    def equiv_hook(e, st, b):
        """uniqueness of keys: only the witness slot holds an equivalent key"""
        k, kk = b.a
        for sh in st.sh.values():
            for x, y in ((k, kk), (kk, k)):
                if x in sh.scn:
                    status, w = sh.scn[x]
                    for s in subterms(y):
                        if s.t == 'ent' and s.a[0] is sh.key:
                            if status == 'A':
                                return False
                            if s.a[1] is not w and s.a[2] == sh.ep.get(s.a[1], 0):
                                return False
        return True
    eng.equiv_hook = equiv_hook

    def cell(st, tok):
        r = mk('H', 'cell', tok)
        st.mem[r] = tok
        return ref(r)

    def mapped_hash(e, st, key, tok):
        """hash a known slot is indexed under -> [(state, hash)]"""
        r = st.sh[key].recs[tok]
        if r.ihash is not None:
            return [(st, S(st, r.ihash))]
        out = []
        for s2, c in split_class(e, st, r.init):
            out.append((s2, own_hash(e, s2, r.init, c)))
        return out

    def plh_fields(e, st, content):
        """hash and token recorded in the shared part of a placeholder entry"""
        sv = S(st, fld(fld(content, '0', 'Placeholder'), 'shared'))
        while sv.t == 'clone':
            sv = S(st, sv.a[0])
        if sv.t == 'agg':
            return S(st, fld(sv, 'hash')), S(st, fld(sv, 'idx'))
        if mk('D', sv) in st.mem:
            v = e.rd(st, mk('D', sv))
            return S(st, fld(v, 'hash')), S(st, fld(v, 'idx'))
        for x in (mk('deref', sv), sv):
            h = S(st, fld(x, 'hash'))
            if h.t != 'fld':
                return h, S(st, fld(x, 'idx'))
        return None
    eng.plh_fields = plh_fields

    def plh_hook(e, st, en):
        """a stored placeholder's shared part records the slot it is in and the hash it is indexed under"""
        sh = st.sh.get(en.a[0])
        if sh is None or en.a[2] != 0:
            return True
        sv = S(st, fld(fld(en, '0', 'Placeholder'), 'shared'))
        own = own_hash(e, st, en, 'pend')
        tok = S(st, en.a[1])
        arc = sh.key.a[0].t == 'lkd'
        x = mk('deref', sv) if arc else sv
        v = e.rd(st, mk('D', sv)) if arc else sv
        for f, want in (('hash', own), ('idx', tok)):
            for t in {S(st, fld(v, f)), S(st, fld(x, f))}:
                want = S(st, want)
                if t is want or t.t == 'moved':
                    continue
                a, b = (t, want) if e.rank(t) >= e.rank(want) else (want, t)
                if f == 'idx':
                    a, b = (want, t) if t.t != 'sym' else (t, want)
                if not e.unify(st, b, a):
                    return False
        return True
    eng.plh_hook = plh_hook

    def same_hash(e, st, x, y):
        x, y = S(st, x), S(st, y)
        return x is y or e.decide(st, b_eqn(x, y)) is True
    eng.same_hash = same_hash

    def lookup(kind):
        def f(e, st, key, a, cx):
            h = S(st, a[1])
            out = []
            for st in scenario(e, st, key, h):
                h = S(st, a[1])
                sh = st.sh[key]
                e.emit(st, 'map_lookup', key, kind, h)
                cands = [t for t, r in sh.recs.items() if r.inmap]
                # found: one of the known slots, or another one
                if not sh.mapcleared:
                    for t in cands:
                        s2 = st.copy()
                        out += e.callk(s2, a[2], [cell(s2, t)], 'hfound', (kind, key, t, h, cx, True), uw=cx[4])
                    s2 = st.copy()
                    t = fresh('tok')
                    for t2 in sh.recs:
                        s2.bools[e.eq_term(t, t2)] = False
                    sh2 = s2.sh[key]
                    sh2.live.add(t)
                    r = sh2.recs[t] = Rec(t, ent(sh2, t))
                    out += e.callk(s2, a[2], [cell(s2, t)], 'hfound', (kind, key, t, h, cx, False), uw=cx[4])
                # not found: the predicate must reject every known slot indexed under that hash
                s2 = st.copy()
                if kind == 'find_entry':
                    # including live slots the path has not looked into
                    for t in sorted(sh.live - set(sh.recs), key=show):
                        if not any(e.decide(s2, e.eq_term(t, t2)) is True for t2 in s2.sh[key].recs):
                            s2.sh[key].recs[t] = Rec(t, ent(s2.sh[key], t))
                            rg = tok_ring(s2, s2.sh[key], t)
                            if rg is not None:
                                s2.sh[key].recs[t].ring = s2.sh[key].recs[t].ring0 = rg
                            cands.append(t)
                out += absent(e, s2, kind, key, a[2], h, cx, tuple(cands))
            return out
        return f

    def absent(e, st, kind, key, clo, h, cx, todo):
        if not todo:
            e.emit(st, 'map_miss', key, kind, h)
            v = {'find': NONE, 'find_mut': NONE, 'find_entry': err(mk('absent', h))}[kind]
            return e.finish(st, cx, v)
        t = todo[0]
        out = []
        r = st.sh[key].recs.get(t)
        if r is None:
            return absent(e, st, kind, key, clo, h, cx, todo[1:])
        for s2, mh in mapped_hash(e, st, key, t):
            if not same_hash(e, s2, mh, h):
                # the slot is indexed elsewhere as far as this path knows
                if e.opts.get('dbgabs'): print('ABS', show(mh), '|', show(S(s2, h)))
                out += absent(e, s2, kind, key, clo, h, cx, todo[1:])
            else:
                out += e.callk(s2, clo, [cell(s2, t)], 'habsent', (kind, key, clo, h, cx, todo), uw=cx[4])
        return out

    def k_habsent(e, st, ka, v):
        kind, key, clo, h, cx, todo = ka
        out = []
        for s2, r in e.branch(st, v):
            if not r:
                out += absent(e, s2, kind, key, clo, h, cx, todo[1:])
        return out
    K['habsent'] = k_habsent

    def k_hfound(e, st, ka, v):
        kind, key, t, h, cx, known = ka
        out = []
        for s2, r in e.branch(st, v):
            if not r:
                continue
            h2 = S(s2, h)
            t2 = S(s2, t)
            alts = [s2]
            if known:
                # a slot is found only under the hash it was indexed with
                alts = []
                for s3, mh in mapped_hash(e, s2, key, t2):
                    if same_hash(e, s3, mh, h2) or h2.t != 'H' or mh.t != 'H':
                        if not same_hash(e, s3, mh, h2):
                            if not e.assume(s3, b_eqn(mh, h2), True):
                                continue
                        alts.append(s3)
                    else:
                        # two unrelated hashes: they agree only by accident
                        e.emit(s3, 'hash_mismatch', key, t2, mh, h2)
            for s3 in alts:
                sh = s3.sh[key]
                if kind == 'find' or kind == 'find_mut':
                    val = some(cell(s3, S(s3, t2)))
                else:
                    val = ok(mk('hentry', key, S(s3, t2)))
                e.emit(s3, 'map_hit', key, kind, h2, S(s3, t2))
                out += e.finish(s3, cx, val)
        return out
    K['hfound'] = k_hfound
    TABLE['find'] = lookup('find')
    TABLE['find_mut'] = lookup('find_mut')
    TABLE['find_entry'] = lookup('find_entry')

    def entry_remove(e, st, a, cx, info):
        v = a[0]
        if v.t != 'hentry':
            return NotImplemented
        key, t = v.a
        sh = st.sh[key]
        r = sh.recs.get(t)
        if r is not None:
            r.inmap = False
            touch(st, sh, r)
        e.emit(st, 'map_remove', key, t)
        return e.finish(st, cx, tup(t, mk('vacant', key)))
    M["hashbrown::table::OccupiedEntry::<'a, T, A>::remove"] = entry_remove

    def entry_get(e, st, a, cx, info):
        v = e.load(st, a[0]) if a[0].t == 'ref' else a[0]
        if v.t != 'hentry':
            return NotImplemented
        return e.finish(st, cx, cell(st, v.a[1]))
    for nm in ('get', 'into_mut', 'get_mut'):
        M["hashbrown::table::OccupiedEntry::<'a, T, A>::" + nm] = entry_get

    def rehash(e, st, key, clo, uw):
        """the re-hash callback must give every entry the hash it is indexed under"""
        out = []
        for var in ('Resident', 'Placeholder', 'Ghost'):
            s2 = st.copy()
            sh = s2.sh[key]
            t = fresh('tok')
            for t2 in sh.recs:
                s2.bools[e.eq_term(t, t2)] = False
            sh.recs[t] = Rec(t, ent(sh, t))
            if e.assume_variant(s2, ent(sh, t), var):
                out += e.callk(s2, clo, [cell(s2, t)], 'rehash', (key, t, var), uw=uw)
        return out

    def k_rehash(e, st, ka, v):
        key, t, var = ka
        sh = st.sh[key]
        en = ent(sh, t)
        want = own_hash(e, st, en, {'Resident': 'hot', 'Placeholder': 'pend', 'Ghost': 'ghost'}[var])
        e.emit(st, 'rehash', key, var, v, want, v is want)
        return []
    K['rehash'] = k_rehash

    @top('insert_unique')
    def _(e, st, key, a, cx):
        out = rehash(e, st, key, a[3], cx[4])
        for s2, t, r in rec_for(e, st, key, a[2]):
            sh = s2.sh[key]
            if r is None:
                e.emit(s2, 'slab_misuse', key, 'indexes a vacant slot', t)
                r = sh.recs.get(t)
                if r is None:
                    continue
            h = S(s2, a[1])
            if r.inmap:
                e.emit(s2, 'slab_misuse', key, 'indexes a slot that is already indexed', t)
            for s3 in scenario_for_insert(e, s2, key, t, h):
                sh3 = s3.sh[key]
                r3 = sh3.recs[t]
                r3.inmap = True
                r3.ihash = S(s3, h)
                touch(s3, sh3, r3)
                e.emit(s3, 'map_insert', key, t, h)
                out += e.finish(s3, cx, mk('hentry', key, t))
        return out

    def scenario_for_insert(e, st, key, t, h):
        sh = st.sh[key]
        content = e.rd(st, slot(sh, t))
        v = e.known_variant(st, content)
        if v not in ('Resident', 'Placeholder'):
            return [st]
        k = strip(S(st, fld(fld(content, '0', v), 'key')))
        out = []
        for s2 in scenario(e, st, key, S(st, e.H(k))):
            sh2 = s2.sh[key]
            sc = sh2.scn.get(k)
            if sc and sc[0] in ('R', 'P') and sc[1] is not t:
                w = sh2.recs.get(sc[1])
                if (w is None or w.inmap and w.occ) and not sh2.mapcleared:
                    cw = e.rd(s2, slot(sh2, sc[1]))
                    if w is None or e.known_variant(s2, cw) in ('Resident', 'Placeholder'):
                        e.emit(s2, 'dup_key', key, k, sc[1], t)
            out.append(s2)
        return out

    @top('reserve', 'shrink_to')
    def _(e, st, key, a, cx):
        return rehash(e, st, key, a[2], cx[4]) + e.finish(st, cx, UNIT)

    @top('clear')
    def _(e, st, key, a, cx):
        sh = st.sh[key]
        sh.mapcleared = True
        for r in sh.recs.values():
            r.inmap = False
            r.mod = True
        st.shver += 1
        e.emit(st, 'map_clear', key)
        return e.finish(st, cx, UNIT)

    @top('iter_hash')
    def _(e, st, key, a, cx):
        out = []
        for s2 in scenario(e, st, key, S(st, a[1])):
            e.emit(s2, 'map_lookup', key, 'iter_hash', S(s2, a[1]))
            out += e.finish(s2, cx, e.it(mk('isrc', 'iterhash', key, S(s2, a[1]), ())))
        return out

    @top('iter')
    def _(e, st, key, a, cx):
        return e.finish(st, cx, e.it(mk('isrc', 'mapiter', key)))

    @top('len')
    def _(e, st, key, a, cx):
        return e.finish(st, cx, fresh('num'))

    @top('is_empty')
    def _(e, st, key, a, cx):
        return e.finish(st, cx, mk('bool', 'mapempty', fresh('m')))

    def src_iterhash(e, st, src):
        _, key, h, seen = src.a
        sh = st.sh[key]
        out = []
        if not sh.mapcleared:
            for t, r in sh.recs.items():
                if r.inmap and t not in seen:
                    s2 = st.copy()
                    out.append((s2, cell(s2, t), mk('isrc', 'iterhash', key, h, tuple(x for x in seen if x in wit(sh)) + (t,))))
            s2 = st.copy()
            t = fresh('tok')
            sh2 = s2.sh[key]
            for t2 in sh.recs:
                s2.bools[e.eq_term(t, t2)] = False
            sh2.live.add(t)
            sh2.recs[t] = Rec(t, ent(sh2, t))
            out.append((s2, cell(s2, t), mk('isrc', 'iterhash', key, h, tuple(x for x in seen if x in wit(sh)))))
        # the end: every known slot indexed under that hash has been produced
        work = [st]
        for t in list(sh.recs):
            if not sh.recs[t].inmap or t in seen:
                continue
            nw = []
            for s2 in work:
                if t not in s2.sh[key].recs:
                    nw.append(s2)
                    continue
                if t not in wit(sh):
                    nw.append(s2)   # an unrelated slot seen in an earlier round
                    continue
                for s3, mh in mapped_hash(e, s2, key, t):
                    if not same_hash(e, s3, mh, h):
                        nw.append(s3)
            work = nw
        for s2 in work:
            e.emit(s2, 'map_iterend', key, h)
            out.append((s2, None, src))
        return out
    eng.isources['iterhash'] = src_iterhash

    def wit(sh):
        return {v[1] for v in sh.scn.values() if v[1] is not None}

    def src_mapiter(e, st, src):
        key = src.a[1]
        s2 = st.copy()
        sh = get_sh(s2, key)
        out = [(st, None, src)]
        if sh.mapcleared:
            return out
        t = fresh('tok')
        sh.live.add(t)
        for s3, t2, r in rec_for(e, s2, key, t, live=True):
            if r is not None and r.inmap:
                out.append((s3, cell(s3, t2), src))
        return out
    eng.isources['mapiter'] = src_mapiter

    # ------------------------------------------------------------ settling
    def content_class(e, st, key, tok):
        sh = st.sh[key]
        r = sh.recs[tok]
        if not r.occ:
            return [(st, 'free')]
        return split_class(e, st, e.rd(st, slot(sh, tok)))

    def init_class(e, st, key, tok):
        r = st.sh[key].recs[tok]
        if r.init is None:
            return [(st, 'free')]
        return split_class(e, st, r.init)

    class Item:
        __slots__ = ('tok', 'ic', 'fc', 'iw', 'fw', 'icont', 'fcont', 'rec', 'prob', 'iring', 'fring')

    class Tx:
        pass
    eng.Tx = Tx

    def contrib(c, w):
        d = dict.fromkeys(CNT, I(0))
        if c == 'hot':
            d['num_hot'] = I(1)
            d['weight_hot'] = w
        elif c == 'cold':
            d['num_cold'] = I(1)
            d['weight_cold'] = w
        elif c == 'ghost':
            d['num_non_resident'] = I(1)
        return d

    def changed(e, st, sh):
        """has anything of the shard changed since the last settle?"""
        if any(r.mod for r in sh.recs.values()) or sh.drained or sh.mapcleared:
            return True
        for t in sh.recs:
            s = slot(sh, t)
            if s in st.mem and st.mem[s] is not sh.recs[t].init:
                return True
        root, path = sh.key.a
        v = e.rd(st, root, path)
        for n in CNT:
            if S(st, fld(v, n)) is not sh.c0[n]:
                return True
        for r, n in HEADS.items():
            if S(st, fld(v, n)) is not sh.h0[r]:
                return True
        return False
    eng.sh_changed = changed

    def held_tokens(st, cands):
        """those of the tokens that the program holds as such, not merely inside something read from their entry"""
        if not cands:
            return []
        seen, found = set(), set()

        def go(x):
            if isinstance(x, tuple):
                for y in x:
                    go(y)
                return
            if not isinstance(x, T) or x in seen:
                return
            seen.add(x)
            if x in cands:
                found.add(x)
                return
            if x.t != 'ent':
                for y in x.a:
                    go(y)
        for k, v in st.mem.items():
            if k.t != 'slot':
                go(v)
        return sorted(found, key=show)

    def settle_sh(e, st, key, final):
        sh = st.sh.get(key)
        if sh is None or st.auto.get('taint') or not changed(e, st, sh):
            if sh is not None and final and sh.writable and not st.auto.get('taint') and not sh.drained and not sh.mapcleared:
                v = e.rd(st, *key.a)
                for m in e.mon:
                    m.on_idle(e, st, key, v)
            return [st]
        # which slots changed
        for t, r in sh.recs.items():
            s = slot(sh, t)
            if s in st.mem and r.occ and st.mem[s] is not r.init:
                r.mod = True
        toks = [t for t, r in sh.recs.items() if r.mod and not (r.init is None and not r.occ and not r.inmap)]
        work = [(st, {})]
        for t in toks:
            nw = []
            for s2, d in work:
                if t not in s2.sh[key].recs:
                    nw.append((s2, d))
                    continue
                for s3, ic in init_class(e, s2, key, t):
                    for s4, fc in content_class(e, s3, key, t):
                        d2 = dict(d)
                        d2[t] = (ic, fc)
                        nw.append((s4, d2))
            work = nw
        # zero-weight case split where membership matters
        for t in toks:
            nw = []
            for s2, d in work:
                if t not in d:
                    nw.append((s2, d))
                    continue
                ic, fc = d[t]
                alts = [s2]
                r = s2.sh[key].recs[t]
                if ic in ('hot', 'cold'):
                    iw = r.acct if r.acct is not None else Wc(s2, r.init)
                    alts = [x for x, _ in e.branch(s2, b_eqn(S(s2, iw), I(0)))]
                for s3 in alts:
                    sh3 = s3.sh[key]
                    if fc in ('hot', 'cold'):
                        fw = Wc(s3, e.rd(s3, slot(sh3, t)))
                        for s4, _ in e.branch(s3, b_eqn(fw, I(0))):
                            nw.append((s4, d))
                    else:
                        nw.append((s3, d))
            work = nw
        out = []
        for s2, d in work:
            r = finish_settle(e, s2, key, d, final)
            if r is not None:
                out.append(r)
        return out

    def resolve_ring(st, sh, t, ic, iw_zero, ring):
        """current ring of a record as a plain name"""
        iring = {'ghost': 'ghost', 'hot': 'hot', 'cold': 'cold'}.get(ic) if not iw_zero else None
        if ic in ('pend', 'free'):
            iring = None
        if ring == 'init':
            return iring, iring
        if isinstance(ring, tuple) and ring[0] == 'left':
            return iring, None
        return iring, ring

    def finish_settle(e, st, key, d, final):
        sh = st.sh[key]
        root, path = key.a
        v = e.rd(st, root, path)
        tx = Tx()
        tx.key = key
        tx.final = final
        tx.items = []
        tx.shard = v
        tx.prob = []
        tx.drained = sh.drained
        tx.scn = dict(sh.scn)
        cur = {n: S(st, fld(v, n)) for n in CNT}
        heads = {r: S(st, fld(v, n)) for r, n in HEADS.items()}
        tx.c0 = dict(sh.c0)
        tx.cur = cur
        zero = lambda w: e.decide(st, b_eqn(w, I(0))) is True
        moved_out = {r: [] for r in HEADS}
        moved_in = {r: [] for r in HEADS}
        for t, (ic, fc) in d.items():
            r = sh.recs[t]
            it = Item()
            it.tok, it.ic, it.fc, it.rec = t, ic, fc, r
            it.icont = r.init
            it.fcont = e.rd(st, slot(sh, t)) if r.occ else None
            it.iw = (r.acct if r.acct is not None else Wc(st, r.init)) if ic in ('hot', 'cold') else I(0)
            it.iw = S(st, it.iw)
            it.fw = Wc(st, it.fcont) if fc in ('hot', 'cold') else I(0)
            it.prob = []
            iring, fring = resolve_ring(st, sh, t, ic, ic in ('hot', 'cold') and zero(it.iw), r.ring)
            tag = tok_ring(st, sh, t)
            h0tag = None
            for rr, h in sh.h0.items():
                if h.t != 'agg' and t is S(st, fld(h, '0', 'Some')) and e.known_variant(st, h) == 'Some':
                    h0tag = rr
            if iring is not None and e.known_variant(st, sh.h0[iring]) == 'None':
                return None   # a member of a list whose head says it is empty
            if h0tag is not None and r.init is not None and iring != h0tag:
                return None   # contradicts what the path knows about the head: infeasible
            if isinstance(fring, tuple) and fring[0] == 'new':
                # a singleton ring: whichever head designates it
                fr = None
                for rr, h in heads.items():
                    if e.known_variant(st, h) == 'Some' and S(st, fld(h, '0', 'Some')) is t:
                        fr = rr
                fring = fr if fr is not None else fring
            it.iring, it.fring = iring, fring
            if fring != iring:
                if iring is not None:
                    moved_out[iring].append(it)
                if fring in moved_in:
                    moved_in[fring].append(it)
            elif r.ring not in ('init',) and iring is not None and r.ring != ('left', 'init') and any(True for _ in ()):
                pass
            # well-formedness of the slot
            if r.occ and not r.inmap:
                it.prob.append(('unindexed', 'the %s entry is stored but no longer indexed' % fc))
            if not r.occ and r.inmap and not sh.mapcleared:
                it.prob.append(('dangling', 'the index still designates the vacated slot'))
            if r.occ and r.inmap:
                want = own_hash(e, st, it.fcont, fc)
                have = S(st, r.ihash) if r.ihash is not None else (own_hash(e, st, r.init, ic) if ic != 'free' else None)
                if have is not None and want is not have:
                    it.prob.append(('hash', 'the %s entry is indexed under %s but hashes to %s' % (fc, show(have), show(want))))
            want = None
            if fc == 'ghost':
                want = 'ghost'
            elif fc in ('hot', 'cold') and not zero(it.fw):
                want = fc
            if fring != want:
                if want is None:
                    it.prob.append(('linked', 'a %s entry%s is still in the %s list' % (fc, ' of zero weight' if fc in ('hot', 'cold') else '', fring)))
                elif fring is None:
                    it.prob.append(('unlinked', 'a weighted %s entry is in no list' % fc))
                else:
                    it.prob.append(('wronglist', 'a %s entry is in the %s list' % (fc, fring)))
            tx.items.append(it)
        # heads
        hp = []
        for rr, h in heads.items():
            h0 = sh.h0[rr]
            kv = e.known_variant(st, h)
            members = [it for it in tx.items if it.fring == rr]
            gone = [it for it in tx.items if it.iring == rr and it.fring != rr]
            if sh.drained:
                if kv != 'None':
                    hp.append((rr, 'the %s head survives the emptying of the store' % rr))
                continue
            if h is h0:
                for it in gone:
                    t0 = S(st, fld(h0, '0', 'Some'))
                    if st.bools.get(e.eq_term(t0, it.tok)) is not False and not (t0 in sh.recs and t0 is not it.tok):
                        hp.append((rr, 'the %s head may still designate an entry that left the list' % rr))
                for it in moved_in[rr]:
                    if kv == 'None' or kv is None:
                        hp.append((rr, 'the %s head was not updated when the list became non-empty' % rr))
                continue
            if kv == 'None':
                if members:
                    hp.append((rr, 'the %s head is empty although an entry is in the list' % rr))
                elif h.t == 'nxo' and sh.hreg.get(h) in (rr, ('of', h.a[1])):
                    pass
                elif h.t == 'agg' and e.known_variant(st, h0) == 'None' and not moved_in[rr]:
                    pass
                elif h.t == 'agg' and gone and any(e.known_variant(st, o) == 'None' for o, q in sh.hreg.items() if o.t == 'nxo' and (q == rr or q == ('of', o.a[1]))):
                    pass
                else:
                    hp.append((rr, 'the %s head is emptied although the list may have entries' % rr))
                continue
            # some token
            t = S(st, fld(h, '0', 'Some'))
            rec = sh.recs.get(t)
            if rec is not None:
                itm = [it for it in tx.items if it.tok is t]
                fr = itm[0].fring if itm else (tok_ring(st, sh, t) or rec.ring)
                if fr == 'init':
                    fr = rr  # untouched entry; membership follows from how it was reached
                if fr != rr:
                    hp.append((rr, 'the %s head designates an entry that is not in that list' % rr))
                continue
            tr = tok_ring(st, sh, t)
            if t.t == 'next' and any(it.tok is t.a[1] for it in gone) and st.bools.get(e.eq_term(t, t.a[1])) is not False:
                hp.append((rr, 'the %s head designates the successor of an entry that left the list, which may be that entry itself' % rr))
                continue
            if h.t == 'nxo':
                q = sh.hreg.get(h)
                if isinstance(q, tuple):
                    itm = [it for it in tx.items if it.tok is h.a[1]]
                    q = itm[0].iring if itm else rr
                if q is not None and q != rr:
                    hp.append((rr, 'the %s head designates an entry of the %s list' % (rr, q)))
                if q is None and kv is None:
                    pass
                # members linked while the remaining list is empty would be lost
                for it in members:
                    if it in moved_in[rr] and kv is None:
                        pass
                if kv is None and members and not any(it.iring == rr for it in members):
                    pass
                continue
            if tr is not None and tr != rr:
                hp.append((rr, 'the %s head designates an entry of the %s list' % (rr, tr)))
        # counters
        delta = dict.fromkeys(CNT, I(0))
        for it in tx.items:
            a, b = contrib(it.ic, it.iw), contrib(it.fc, it.fw)
            it_bad = bool(it.prob) and not final
            if it_bad:
                continue
            for n in CNT:
                delta[n] = add(delta[n], sub(b[n], a[n]))
        cp = []
        resid = {}
        for n in CNT:
            if sh.drained:
                r = cur[n]
            else:
                r = sub(sub(cur[n], sh.c0[n]), delta[n])
            r = normalise(e, st, r)
            resid[n] = r
            if not (r.t == 'i' and r.a[0] == 0):
                cp.append((n, r))
        tx.head_prob, tx.count_prob = hp, cp
        if sh.drained != sh.mapcleared:
            tx.prob.append('the store was emptied but not the index' if sh.drained else 'the index was emptied but not the store')
        for m in e.mon:
            m.on_tx(e, st, key, tx)
        if final:
            return st
        # a problem that is still there a whole round later is not going to be repaired by this loop
        sig = tuple(sorted([c for it in tx.items for c, _ in it.prob] + [r_ for r_, _ in hp]))
        if sig and st.frames and not st.unwinding:
            mark = ('unsettled', st.top().fn.path, st.top().bb, sig)
            if st.auto.get('unsettled') == mark:
                tx.final = True
                for m in e.mon:
                    m.on_tx(e, st, key, tx)
                return None
            st.auto['unsettled'] = mark
        # loop head: keep what is not settled, forget the rest
        if hp or tx.prob or sh.drained or sh.mapcleared:
            return st
        # an entry the program still has the token of may be one of those that changed
        held = held_tokens(st, (sh.live | set(sh.tags) | set(sh.lost)) - set(sh.recs))
        for it in tx.items:
            if it.prob or it.ic == it.fc or it.ic == 'free':
                continue
            for t in held:
                if distinct(e, st, t, it.tok) or e.decide(st, e.eq_term(t, it.tok)) is False:
                    continue
                c = it.fring if it.fring in HEADS else it.fc
                o, cl = sh.lost.get(t, (sh.tags.get(t), ()))
                sh.lost[t] = (o, tuple(sorted(set(cl) | {c})))
        for t in sh.lost:
            sh.live.discard(t)
            sh.tags.pop(t, None)
        for it in tx.items:
            if it.prob:
                continue
            t = it.tok
            r = sh.recs.pop(t)
            st.mem.pop(slot(sh, t), None)
            sh.ep[t] = sh.ep.get(t, 0) + 1
            sh.tags.pop(t, None)
            sh.live.discard(t)
            if r.occ:
                sh.live.add(t)
                if it.fring in HEADS:
                    sh.tags[t] = it.fring
            for k, (s_, w) in list(sh.scn.items()):
                if w is t:
                    if it.fc in ('hot', 'cold') and it.ic in ('hot', 'cold', 'pend', 'ghost') and False:
                        pass
                    del sh.scn[k]
        if tx.items:
            # absent keys may now be present
            for k in list(sh.scn):
                if sh.scn[k][0] == 'A' and any(it.fc in ('hot', 'cold', 'pend') and it.ic in ('free', 'ghost') for it in tx.items):
                    del sh.scn[k]
        for n in CNT:
            sh.c0[n] = sub(cur[n], resid[n])
        for rr in HEADS:
            sh.h0[rr] = heads[rr]
            sh.hreg[heads[rr]] = rr
        sh.dirty = set()
        return st

    def havoc_counters(e, st):
        """at the head of a loop that works on a shard, forget the values of counters and heads (their correctness has
        just been checked against the slots)"""
        for key, sh in st.sh.items():
            if not sh.writable or sh.drained or sh.mapcleared:
                continue
            # tokens read from a head keep their list membership when the head itself is forgotten
            for x in list(st.mem.values()):
                for t in subterms(x):
                    if t.t == 'fld' and t.a[1] == 'Some' and t not in sh.recs and isinstance(sh.hreg.get(t.a[0]), str):
                        sh.tags.setdefault(t, sh.hreg[t.a[0]])
                        sh.live.add(t)
            held = {S(st, x) for k, x in st.mem.items() if k.t == 'L' and k.a[0] == st.top().fid}
            root, path = key.a
            v = e.rd(st, root, path)
            ghost_ok = e.prove_le(st, sub(S(st, fld(v, 'num_non_resident')), S(st, fld(v, 'capacity_non_resident'))))
            for n in CNT:
                cur = S(st, fld(v, n))
                resid = sub(cur, sh.c0[n])
                x = fresh(n)
                e.wr(st, root, path + (F(n),), x)
                sh.c0[n] = sub(x, resid)
                if n == 'num_non_resident' and ghost_ok:
                    st.les[sub(x, S(st, fld(v, 'capacity_non_resident')))] = 1
            for rr, n in HEADS.items():
                h = S(st, fld(v, n))
                if h is not sh.h0[rr]:
                    continue
                if h.t in ('sym', 'fld') and fld(h, '0', 'Some') in held:
                    continue      # a sweep has just started at this head
                x = fresh('head_' + rr)
                e.wr(st, root, path + (F(n),), x)
                sh.h0[rr] = x
                sh.hreg[x] = rr
            sh.hreg = {k: r for k, r in sh.hreg.items() if k in sh.h0.values()}
    eng.havoc_counters = havoc_counters

    def head_none(e, st, h):
        """an empty list means that nothing in it is counted; False if that contradicts what is known"""
        for sh in st.sh.values():
            rr = sh.hreg.get(h)
            if not isinstance(rr, str) or sh.h0.get(rr) is not h or any(r.mod or r.acct is not None for r in sh.recs.values()):
                continue
            n = sh.c0['num_non_resident' if rr == 'ghost' else 'weight_' + rr]
            if n.t == 'i':
                continue
            if e.prove_le(st, sub(I(1), n), 3):
                return False
            st.les[n] = 1
        return True
    eng.head_hook = head_none

    def normalise(e, st, r):
        """use known zero weights and equalities"""
        c, m = lin(r)
        for a, k in list(m.items()):
            if e.decide(st, b_eqn(a, I(0))) is True:
                del m[a]
        return unlin(c, m)
    eng.normalise = normalise

    def settle(e, st, final, only=None):
        work = [st]
        for key in list(st.sh):
            if only is not None and key.a[0] is not only:
                continue
            nw = []
            for s2 in work:
                if key in s2.sh:
                    nw += settle_sh(e, s2, key, final)
                else:
                    nw.append(s2)
            work = nw
        return work
    eng.settle_hook = settle
