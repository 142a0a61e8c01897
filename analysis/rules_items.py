"""Rules about what happens to items: C03, C04, C06-C11, C29."""
from terms import *
from models import strip
from rules import (Rule, rule, S, rkey, rval, INSERTS, GUARDINS, LOADS)

KEYV = mk('sym', 'key', 0)
KEYR = mk('deref', KEYV)
VAL = mk('sym', 'value', 0)
INSLIKE = INSERTS + GUARDINS + LOADS
WITHLC = ('insert_with_lifecycle', 'replace_with_lifecycle', 'guard.insert_with_lifecycle', 'uguard.insert_with_lifecycle')
HITS = ('get', 'get_mut') + LOADS
KEYED = INSERTS + LOADS + ('get', 'get_mut', 'peek', 'peek_mut', 'contains_key', 'remove', 'join.poll')
READONLY = ('peek', 'peek_mut', 'contains_key', 'iter', 'len', 'weight', 'is_empty', 'capacity', 'refmut.drop', 'reserve',
            'hits', 'misses', 'shard_capacity', 'num_shards')
OPT = 'core::option::Option'


def unbe(v):
    n = 0
    while v.t == 'be':
        v = v.a[0]
        n += 1
    return v, n


def part(v):
    """(entry, variant, 'key'|'value') when v is part of a stored entry's content"""
    if v.t == 'fld' and v.a[2] in ('key', 'value'):
        b = v.a[0]
        if b.t == 'fld' and b.a[2] == '0' and b.a[0].t == 'ent':
            return b.a[0], b.a[1], v.a[2]
    return None


def loaded(v):
    """is v (part of) what a user-supplied loader produced?"""
    return any(s.t == 'call' and s.a[0] in ('userfn', 'userfut') for s in subterms(v))


def is_new(v):
    """is v the value this operation was given (or its loader produced)?"""
    v, _ = unbe(v)
    if v.t == 'clone':
        v = strip(v)
    return v is VAL or v.t != 'ent' and part(v) is None and loaded(v)


def key_terms(entry):
    if entry.kind in INSERTS:
        return KEYV
    if entry.kind == 'join.poll':
        return mk('deref', fld(mk('deref', mk('sym', 'self', 0)), 'key', 'Created'))
    return KEYR


def owns(e, st, kt, ent):
    """is the entry known to hold a key equivalent to the operation's key?"""
    for v in ('Resident', 'Placeholder'):
        k = strip(S(st, fld(fld(ent, '0', v), 'key')))
        if k is kt or st.bools.get(mk('equiv', kt, k)) is True or st.bools.get(mk('equiv', k, kt)) is True:
            return True
    sh = st.sh.get(ent.a[0])
    if sh is not None:
        s = sh.scn.get(kt)
        if s is not None and s[1] is ent.a[1]:
            return True
    return False


class ItemRule(Rule):
    """remembers, across loop heads, what the operation learned about its own key"""
    only = None

    def status(self, st):
        return st.auto.get('own')

    def see(self, st):
        kt = key_terms(self.entry)
        for sh in st.sh.values():
            s = sh.scn.get(kt)
            if s is not None:
                st.auto['own'] = s[0]

    def before_release(self, e, st, g):
        if g.a[2] and 'Shard' in str(g.a[2]):
            self.see(st)


# ---------------------------------------------------------------------------------------------- C03
@rule
class C03(ItemRule):
    pid = 'C03'
    only = KEYED
    rule = ('a value is handed out, and an entry removed, replaced or displaced by key, only on paths on which that very '
            'entry is resident and its key was found equivalent to the given one; a membership test answers true only on '
            'such paths; other entries change only as eviction victims')

    def on_event(self, e, st, ev):
        if ev.k == 'before_evict':
            pr = part(unbe(ev.d[2])[0])
            if pr is not None:
                st.auto['c03be'] = tuple(sorted(set(st.auto.get('c03be', ())) | {pr[0]}, key=lambda t: t.n))

    def on_tx(self, e, st, key, tx):
        self.see(st)
        be = st.auto.get('c03be', ())
        if st.unwinding:
            return
        kt = key_terms(self.entry)
        k = self.entry.kind
        for it in tx.items:
            own = it.icont is not None and it.ic != 'ghost' and owns(e, st, kt, it.icont)
            if it.fc in ('pend', 'hot', 'cold'):
                fk = fld(fld(it.fcont, '0', 'Placeholder' if it.fc == 'pend' else 'Resident'), 'key')
                if own or strip(S(st, fk)) is kt:
                    st.auto['c03own'] = it.tok
            if it.ic in ('free', 'ghost') or own:
                continue
            self.cov['foreign entries changed'] += 1
            if it.ic == 'pend':
                if st.auto.get('c03own') is it.tok or it.fc == 'pend' and self.entry.kind in LOADS:
                    continue
                if any(s.t in ('locked', 'lkd') for s in subterms(it.tok)) or k in LOADS + ('join.poll',):
                    continue      # the guard of this load: its identity is checked by C20
                self.bad(e, st, 'pend:' + it.fc, 'the pending load of another key is changed')
                continue
            if it.fc in ('hot', 'cold'):
                same = unbe(S(st, rval(it.fcont)))[0] is S(st, rval(it.icont)) and S(st, rkey(it.fcont)) is S(st, rkey(it.icont))
                if not same:
                    self.bad(e, st, 'overwrite', 'an item whose key was not found equivalent is overwritten')
                continue
            if it.icont not in be and k != 'retain':
                self.bad(e, st, 'displaced:' + it.fc, 'an item that is neither an eviction victim nor known to have an equivalent key is removed')
        if not tx.final:
            st.auto.pop('c03be', None)

    def slots(self, e, st, v):
        out = []
        for s in subterms(v):
            p = part(s)
            if p is not None and p[2] == 'value':
                out.append(p[0])
            elif s.t == 'ref' and s.a[0].t == 'slot':
                r = s.a[0]
                if r.a[0] in st.sh:
                    out.append(e.rd(st, r))
            elif s.t == 'agg' and s.a[0] == 'shard::RefMut':
                cref, idx = fld(s, 'cache'), S(st, fld(s, 'idx'))
                if cref.t == 'ref':
                    r, p_ = e.deref(st, cref)
                    sh = st.sh.get(mk('shk', r, p_))
                    if sh is not None:
                        out.append(e.rd(st, e.slot(sh, idx)))
        return out

    def on_exit(self, e, st, kind, v):
        if kind != 'return' or v is None:
            return
        self.see(st)
        kt = key_terms(self.entry)
        k = self.entry.kind
        if k == 'contains_key':
            self.cov['membership answers'] += 1
            d = e.decide(st, v)
            if d is True and st.auto.get('own') not in ('R', None):
                self.bad(e, st, 'contains', 'a membership test answers true for a key that is not resident')
            return
        for en in self.slots(e, st, v):
            self.cov['values handed out'] += 1
            if e.known_variant(st, en) not in ('Resident', None):
                self.bad(e, st, 'kind', 'returns part of an entry that is not resident')
            elif not self.mine(e, st, kt, en):
                self.bad(e, st, 'foreign', 'returns part of an entry whose key was not found equivalent to the given one (%s)' % show(en)[:160])

    def mine(self, e, st, kt, c):
        if c.t == 'ent':
            return st.auto.get('c03own') is S(st, c.a[1]) or owns(e, st, kt, c)
        k = strip(S(st, rkey(c)))
        q = part(k)
        if q is not None and self.mine(e, st, kt, q[0]):
            return True
        return k is kt or st.bools.get(mk('equiv', kt, k)) is True or st.bools.get(mk('equiv', k, kt)) is True or \
            self.entry.kind in LOADS and loaded(S(st, rval(c)))


# ---------------------------------------------------------------------------------------------- C04, C29: giving up
class Scan(ItemRule):
    """what the path knows about the eviction candidates: the sweep automaton shared by C04 and C29.

    Per list: 'clean' (a sweep that started at the head met only pinned entries so far; '.exp' is the entry it has to look
    at next), 'all' (such a sweep came back to the head, or the list was found empty), or nothing."""

    def g(self, st, n):
        return st.auto.get(self.pid + n)

    def s(self, st, n, v):
        if v is None:
            st.auto.pop(self.pid + n, None)
        else:
            st.auto[self.pid + n] = v

    def on_event(self, e, st, ev):
        k = ev.k
        if k == 'slab_get' and ev.d[2]:
            self.visit(e, st, ev)
        elif k in ('unify', 'end_request'):
            if self.g(st, 'vis') is not None:
                self.note_closed(e, st)
        elif k == 'link' and ev.d[2] in ('hot', 'cold'):
            self.note_closed(e, st)
            sh = st.sh.get(ev.d[0])
            own = sh is not None and is_new(S(st, rval(e.rd(st, e.slot(sh, ev.d[1])))))
            if not own:
                self.s(st, ev.d[2], None)
                self.s(st, ev.d[2] + '.exp', None)
        elif k in ('unlink', 'slab_remove'):
            self.note_closed(e, st)
            if k == 'slab_remove' or ev.d[2] in ('hot', 'cold'):
                for r in ('hot', 'cold'):
                    self.s(st, r, None)
                    self.s(st, r + '.exp', None)
                self.s(st, 'vis', None)

    def head(self, e, st, key, ring):
        root, path = key.a
        return S(st, fld(e.rd(st, root, path), ring + '_head'))

    def visit(self, e, st, ev):
        key, t, mut, nt = ev.d
        vs = self.g(st, 'vis')
        if vs is not None and S(st, vs[1]) is t:
            return
        self.note_closed(e, st)
        self.passed(e, st)
        sh = st.sh.get(key)
        if sh is None:
            return
        ring = None
        for r in ('hot', 'cold'):
            h = self.head(e, st, key, r)
            if e.known_variant(st, h) == 'Some' and S(st, fld(h, '0', 'Some')) is t:
                ring = r
                if self.g(st, r) == 'clean' and self.g(st, r + '.exp') is not None and S(st, self.g(st, r + '.exp')) is not t:
                    self.restarted(e, st, r)
                if self.g(st, r) != 'all':
                    self.s(st, r, 'clean')
        if ring is None:
            ring = e.tok_ring(st, sh, t)
            if ring in ('hot', 'cold'):
                x = self.g(st, ring + '.exp')
                if (x is None or S(st, x) is not t) and self.g(st, ring) == 'clean':
                    self.s(st, ring, None)
        if ring in ('hot', 'cold'):
            self.s(st, ring + '.exp', None)
            self.s(st, 'vis', (key, t, nt, ring))
            self.visited(e, st, sh, t)

    def visited(self, e, st, sh, t):
        pass

    def restarted(self, e, st, r):
        pass

    def entry_pin(self, e, st, key, t):
        sh = st.sh.get(key)
        if sh is None:
            return None
        c = e.rd(st, e.slot(sh, t))
        k, v = strip(S(st, rkey(c))), strip(S(st, rval(c)))
        return e.decide(st, mk('pin', k, v))

    def passed(self, e, st):
        """the sweep leaves the entry it is looking at"""
        vs = self.g(st, 'vis')
        if vs is None:
            return
        key, t, nt, ring = vs
        pin = self.entry_pin(e, st, key, t)
        if pin is not True and self.g(st, ring) == 'clean':
            self.s(st, ring, None)
        if self.g(st, ring) == 'clean':
            self.s(st, ring + '.exp', nt)
        self.s(st, 'vis', None)

    def on_backedge(self, e, st, fr, bb):
        self.note_closed(e, st)
        self.passed(e, st)

    def on_loop_entry(self, e, st, fr, bb):
        self.note_closed(e, st)

    def same(self, e, st, a, b):
        a, b = S(st, a), S(st, b)
        return a is b or e.decide(st, e.eq_term(a, b)) is True

    def closed(self, e, st, key, ring):
        """is it known that the list has no unpinned entry?"""
        if self.g(st, ring) == 'all':
            return True
        h = self.head(e, st, key, ring)
        kv = e.known_variant(st, h)
        if kv == 'None':
            return True
        if kv != 'Some' or self.g(st, ring) != 'clean':
            return False
        ht = S(st, fld(h, '0', 'Some'))
        x = self.g(st, ring + '.exp')
        if x is not None:
            return self.same(e, st, x, ht)
        vs = self.g(st, 'vis')
        if vs is None or vs[3] != ring:
            return False
        return self.entry_pin(e, st, key, vs[1]) is True and self.same(e, st, vs[2], ht)

    def note_closed(self, e, st):
        for key in st.sh:
            for r in ('hot', 'cold'):
                if self.g(st, r) != 'all' and self.closed(e, st, key, r):
                    self.s(st, r, 'all')
                    self.s(st, r + '.exp', None)
                    vs = self.g(st, 'vis')
                    if vs is not None and vs[3] == r:
                        self.s(st, 'vis', None)
                        self.s(st, 'ref', None)

    def gave_up(self, e, st, key):
        self.note_closed(e, st)
        return self.closed(e, st, key, 'hot') and self.closed(e, st, key, 'cold')

    def idle_fits(self, e, st, v):
        if not self.g(st, 'loop'):
            return 'unchanged'
        tot = add(S(st, fld(v, 'weight_hot')), S(st, fld(v, 'weight_cold')))
        if e.prove_le(st, sub(tot, S(st, fld(v, 'weight_capacity'))), 3):
            return 'within capacity'

    def fits(self, e, st, tx):
        """why the total weight is fine at the end of the transaction, if it is"""
        tot = add(tx.cur['weight_hot'], tx.cur['weight_cold'])
        cap = S(st, fld(tx.shard, 'weight_capacity'))
        if e.prove_le(st, sub(tot, cap), 3):
            return 'within capacity'
        tot0 = add(tx.c0['weight_hot'], tx.c0['weight_cold'])
        if not self.g(st, 'loop') and e.prove_le(st, e.normalise(e, st, sub(tot, tot0))):
            return 'not grown'


@rule
class C04(Scan):
    pid = 'C04'
    only = INSLIKE
    rule = ('when an insertion-like operation gives up its access to the shard, either weight_hot + weight_cold <= '
            'weight_capacity follows from the path, or the total has not grown, or the path has established that both '
            'candidate lists are empty or consist of pinned items; a value is stored only if its weight (after the hook) '
            'is known to be within weight_target_hot or it is known to be pinned')

    def on_bool(self, e, st, b, val):
        if b.t == 'pin' and val and is_new(b.a[1]):
            st.auto['newpin'] = 1

    def on_tx(self, e, st, key, tx):
        if st.unwinding or tx.drained:
            return
        for it in tx.items:
            if it.fc in ('hot', 'cold') and is_new(S(st, rval(it.fcont))):
                self.cov['admissions'] += 1
                v = S(st, rval(it.fcont))
                w = S(st, it.fw)
                lim = S(st, fld(tx.shard, 'weight_target_hot'))
                if e.prove_le(st, sub(w, lim)) or st.auto.get('newpin') or e.decide(st, mk('pin', strip(S(st, rkey(it.fcont))), strip(v))) is True:
                    pass
                else:
                    self.bad(e, st, 'admit', 'an item is stored although neither its weight is known to fit the hot budget nor it is known to be pinned')
        if not tx.final:
            self.s(st, 'loop', 1)
            return
        self.cov['final totals'] += 1
        f = self.fits(e, st, tx) or self.gave_up(e, st, key) and 'everything pinned'
        if f:
            self.cov[f] += 1
            return
        self.bad(e, st, 'over', 'the total weight may exceed the capacity although an unpinned item could still be evicted')


    def on_idle(self, e, st, key, v):
        if st.unwinding:
            return
        self.cov['final totals'] += 1
        f = self.idle_fits(e, st, v) or self.gave_up(e, st, key) and 'everything pinned'
        if f:
            self.cov[f] += 1
            return
        self.bad(e, st, 'over', 'the total weight may exceed the capacity although an unpinned item could still be evicted')


@rule
class C29(Scan):
    pid = 'C29'
    only = INSLIKE
    rule = ('each round of a loop that looks for something to evict either takes an entry off a candidate list, or passes '
            'a pinned entry while the sweep is not back at its start (or an unpinned one was seen), or passes an '
            'unpinned entry whose hotness it lowers; the search ends without a victim only when both lists are known to '
            'be empty or all pinned')

    def on_event(self, e, st, ev):
        Scan.on_event(self, e, st, ev)
        if ev.k == 'link' and ev.d[2] == 'cold' and self.g(st, 'from') is ev.d[1]:
            self.bad(e, st, 'demote', 'an entry moves back from the hot to the cold list')
        if ev.k in ('unlink', 'slab_remove', 'link'):
            self.s(st, 'unpinned', None)
            self.s(st, 'ref', None)
            self.s(st, 'from', ev.d[1] if ev.k == 'unlink' and ev.d[2] == 'hot' else None)

    def visited(self, e, st, sh, t):
        c = e.rd(st, e.slot(sh, t))
        self.s(st, 'ref', S(st, fld(fld(fld(c, '0', 'Resident'), 'referenced'), 'v')))

    def restarted(self, e, st, r):
        self.bad(e, st, 'restart', 'a sweep of the %s list starts over although nothing changed' % r)

    def passed(self, e, st):
        vs = self.g(st, 'vis')
        ref0 = self.g(st, 'ref')
        self.s(st, 'ref', None)
        if vs is None or ref0 is None or st.unwinding:
            return Scan.passed(self, e, st)
        key, t, nt, ring = vs
        sh = st.sh.get(key)
        if sh is None:
            return
        pin = self.entry_pin(e, st, key, t)
        h = self.head(e, st, key, ring)
        if e.known_variant(st, h) == 'None':
            return Scan.passed(self, e, st)
        ht = S(st, fld(h, '0', 'Some'))
        back = S(st, nt) is ht or e.decide(st, e.eq_term(S(st, nt), ht))
        self.cov['entries passed over'] += 1
        if pin is True:
            if back is not False and not self.g(st, 'unpinned') and self.inloop:
                self.bad(e, st, 'spin-pinned', 'a sweep of the %s list can pass pinned entries for ever: nothing stops it when it is back at its start' % ring)
        else:
            c = e.rd(st, e.slot(sh, t))
            ref1 = S(st, fld(fld(fld(c, '0', 'Resident'), 'referenced'), 'v'))
            if not self.lowered(e, st, S(st, ref0), ref1) and self.inloop:
                self.bad(e, st, 'spin', 'a sweep of the %s list can pass an entry for ever: its hotness does not go down' % ring)
            self.s(st, 'unpinned', 1)
        Scan.passed(self, e, st)

    inloop = False

    def on_backedge(self, e, st, fr, bb):
        self.inloop = True
        Scan.on_backedge(self, e, st, fr, bb)
        self.inloop = False

    def lowered(self, e, st, a, b):
        if e.decide(st, b_lt(b, a)) is True or e.prove_le(st, add(sub(b, a), I(1))):
            return True
        # min(x, M) - 1 with x != 0
        c, m = lin(b)
        if c < 0 and len(m) == 1:
            (x, k), = m.items()
            if k == 1 and x.t == 'op' and x.a[0] == 'min' and a in x.a[1:]:
                return True
        return False

    def on_idle(self, e, st, key, v):
        if st.unwinding or self.idle_fits(e, st, v):
            return
        self.cov['searches given up'] += 1
        if not self.gave_up(e, st, key):
            self.bad(e, st, 'early', 'the search for something to evict ends although an unpinned entry may be left')

    def on_tx(self, e, st, key, tx):
        self.s(st, 'from', None)
        if not tx.final:
            self.s(st, 'loop', 1)
            return
        if st.unwinding or tx.drained or self.fits(e, st, tx):
            return
        self.cov['searches given up'] += 1
        if not self.gave_up(e, st, key):
            self.bad(e, st, 'early', 'the search for something to evict ends although an unpinned entry may be left')


# ---------------------------------------------------------------------------------------------- C06
@rule
class C06(ItemRule):
    pid = 'C06'
    rule = ('the pre-eviction hook is applied to an item, and an item is handed to the eviction hook as a victim, only on '
            'paths on which the pin predicate was found false for that very item')

    def on_event(self, e, st, ev):
        if ev.k == 'before_evict':
            self.cov['pre-eviction hooks'] += 1
            k, old = strip(S(st, ev.d[1])), S(st, ev.d[2])
            if unbe(old)[1]:
                return
            if e.decide(st, mk('pin', k, strip(old))) is not False:
                self.bad(e, st, 'hook', 'the pre-eviction hook is applied to an item that may be pinned', ev.span, ev.fn)
        elif ev.k == 'on_evict':
            self.cov['eviction hooks'] += 1
            k, v = strip(S(st, ev.d[1])), S(st, ev.d[2])
            if unbe(v)[1]:
                return
            p = part(strip(v))
            if p is None:
                if is_new(v) and e.decide(st, mk('pin', k, strip(v))) is not False:
                    self.bad(e, st, 'refuse', 'a new item that may be pinned is refused', ev.span, ev.fn)
                return
            if owns(e, st, key_terms(self.entry), p[0]):
                return
            if e.decide(st, mk('pin', k, strip(v))) is not False:
                self.bad(e, st, 'victim', 'an item that may be pinned is evicted', ev.span, ev.fn)

    def on_tx(self, e, st, key, tx):
        # items leaving without being reported at all
        if st.unwinding or self.entry.kind not in INSLIKE:
            return
        for it in tx.items:
            if it.ic in ('hot', 'cold') and it.fc not in ('hot', 'cold'):
                self.cov['items leaving'] += 1
                v = S(st, rval(it.icont))
                k = strip(S(st, rkey(it.icont)))
                if owns(e, st, key_terms(self.entry), it.icont):
                    continue
                if e.decide(st, mk('pin', k, strip(v))) is True:
                    self.bad(e, st, 'leaves', 'a pinned item leaves the cache during an insertion')


# ---------------------------------------------------------------------------------------------- C07
@rule
class C07(ItemRule):
    pid = 'C07'
    only = INSLIKE + ('remove',)
    rule = ('on no completed path of an insertion-like operation or a removal is a key or value that was passed in or '
            'taken out of the store dropped, forgotten or overwritten inside the crate; the eviction hook gets key and '
            'value of one and the same item; removing a resident key returns that item')

    def cached(self, st, v):
        """the pieces of items v consists of"""
        out = []
        v = S(st, v)
        for s in self.pieces(v):
            u, _ = unbe(s)
            p = part(u)
            if p is not None and p[1] == 'Resident' or u is VAL or u is KEYV:
                out.append(s)
            elif u.t == 'ent' and st.vars.get(u) == 'Resident' or u.t == 'fld' and u.a[1] == 'Resident' and u.a[0].t == 'ent':
                out.append(s)
        return out

    def pieces(self, v):
        if v.t == 'agg':
            out = []
            for _, x in v.a[3]:
                out += self.pieces(x)
            if v.a[2] is not None:
                out.append(v.a[2])
            return out
        return [v]

    def on_event(self, e, st, ev):
        if ev.k in ('dropval', 'forget'):
            self.cov['drops examined'] += 1
            if st.unwinding:
                return
            for x in self.cached(st, ev.d[0]):
                if x is KEYV and self.entry.kind not in INSERTS or self.after_stop(st):
                    continue
                self.bad(e, st, 'lost', 'a key or value of the cache (%s) is dropped here instead of being stored, reported or returned' % show(x)[:80], ev.span, ev.fn)
        elif ev.k == 'on_evict':
            self.cov['eviction reports'] += 1
            k, v = S(st, ev.d[1]), unbe(S(st, ev.d[2]))[0]
            pk, pv = part(k), part(v)
            if pk is None and pv is None:
                return
            if pk is None or pv is None:
                a = self.entry.kind
                if pk is not None and v is VAL and pk[1] == 'Placeholder' or pk is not None and loaded(v):
                    return
                if pv is not None and a in INSERTS and k is KEYV or pk is not None and v is VAL:
                    self.bad(e, st, 'mixed', 'the eviction hook gets the key of one item and the value of another', ev.span, ev.fn)
                return
            if pk[0] is not pv[0]:
                self.bad(e, st, 'mixed', 'the eviction hook gets the key of one item and the value of another', ev.span, ev.fn)
            d = st.auto.get('c07seen', ())
            if pv[0] in d:
                self.bad(e, st, 'twice', 'the same item is reported to the eviction hook twice', ev.span, ev.fn)
            st.auto['c07seen'] = tuple(sorted(set(d) | {pv[0]}, key=lambda t: t.n))[-8:]

    def after_stop(self, st):
        return False

    def on_tx(self, e, st, key, tx):
        if not tx.final:
            st.auto.pop('c07seen', None)

    def on_exit(self, e, st, kind, v):
        if kind != 'return' or self.entry.kind != 'remove':
            return
        self.see(st)
        if v is None or v.t != 'agg' or v.a[0] != OPT:
            return
        own = st.auto.get('own')
        self.cov['removals'] += 1
        if v.a[1] == 'None':
            if own == 'R':
                self.bad(e, st, 'remove', 'removing a resident key returns nothing')
            return
        t = fld(v, '0', 'Some')
        pk, pv = part(S(st, fld(t, '0'))), part(S(st, fld(t, '1')))
        if pk is None or pv is None or pk[0] is not pv[0]:
            self.bad(e, st, 'remove', 'removal does not return the stored pair')


# ---------------------------------------------------------------------------------------------- C08
@rule
class C08(ItemRule):
    pid = 'C08'
    rule = ('an item reported to the eviction hook as victim or as refused carries exactly one application of the '
            'pre-eviction hook and is known to weigh something after it; one that is merely replaced or removed carries '
            'none; an item that stays although the hook was applied is known to weigh nothing, or to fit if it is new')

    def on_event(self, e, st, ev):
        if ev.k == 'before_evict':
            self.cov['pre-eviction hooks'] += 1
            if self.entry.kind not in INSLIKE:
                self.bad(e, st, 'where', 'the pre-eviction hook runs in %s' % self.entry.kind, ev.span, ev.fn)
            if unbe(S(st, ev.d[2]))[1]:
                self.bad(e, st, 'twice', 'the pre-eviction hook is applied a second time to the same item', ev.span, ev.fn)
            p = part(unbe(S(st, ev.d[2]))[0])
            if p is not None:
                if owns(e, st, key_terms(self.entry), p[0]):
                    self.bad(e, st, 'own', 'the pre-eviction hook is applied to the item that is merely replaced', ev.span, ev.fn)
                k, v = part(S(st, ev.d[1])), p
                if k is None or k[0] is not p[0]:
                    self.bad(e, st, 'mixed', 'the pre-eviction hook gets the key of one item and the value of another', ev.span, ev.fn)
        elif ev.k == 'on_evict':
            self.cov['eviction hooks'] += 1
            k, v = S(st, ev.d[1]), S(st, ev.d[2])
            raw, n = unbe(v)
            p = part(raw)
            own = p is not None and owns(e, st, key_terms(self.entry), p[0])
            if own:
                if n:
                    self.bad(e, st, 'own', 'the pre-eviction hook ran on an item that is merely replaced', ev.span, ev.fn)
                return
            if p is None and not is_new(raw):
                return
            if n == 0:
                self.bad(e, st, 'skipped', 'an item is evicted or refused without the pre-eviction hook', ev.span, ev.fn)
            elif n > 1:
                self.bad(e, st, 'twice', 'the pre-eviction hook was applied twice', ev.span, ev.fn)
            elif e.decide(st, b_eqn(S(st, e.W(strip(k), strip(v))), I(0))) is not False:
                self.bad(e, st, 'zero', 'an item is evicted although the hook may have left it with no weight', ev.span, ev.fn)

    def on_tx(self, e, st, key, tx):
        if st.unwinding:
            return
        for it in tx.items:
            if it.fc not in ('hot', 'cold'):
                continue
            v = S(st, rval(it.fcont))
            raw, n = unbe(v)
            if n > 1:
                self.bad(e, st, 'twice', 'the pre-eviction hook was applied twice to an item that stays')
            if n == 1 and part(raw) is not None:
                self.cov['spared items'] += 1
                if e.decide(st, b_eqn(S(st, it.fw), I(0))) is not True:
                    self.bad(e, st, 'spared', 'an item stays in the cache although it still weighs something after the pre-eviction hook')


# ---------------------------------------------------------------------------------------------- C09
@rule
class C09(ItemRule):
    pid = 'C09'
    only = INSLIKE
    rule = ('on every path of an insertion-like operation: one begin_request; every hook gets that state; end_request is '
            'called once, with that state, after the last hook and change, on success and never on failure; the variants '
            'that return the state never end it and return it')

    def on_event(self, e, st, ev):
        k = ev.k
        if k == 'begin_request':
            self.cov['requests begun'] += 1
            if 'lcs' in st.auto:
                self.bad(e, st, 'begin2', 'a second request is begun', ev.span, ev.fn)
            st.auto['lcs'] = ev.d[0]
            st.auto['ended'] = 0
        elif k in ('before_evict', 'on_evict'):
            self.cov['hooks'] += 1
            v = e.load(st, ev.d[0]) if ev.d[0].t == 'ref' else ev.d[0]
            for _ in range(3):
                if v.t == 'ref':
                    v = e.load(st, v)
            if v is not st.auto.get('lcs'):
                self.bad(e, st, 'state', 'a hook is given a request state other than the one of this request', ev.span, ev.fn)
            if st.auto.get('ended'):
                self.bad(e, st, 'late', 'a hook runs after the request has ended', ev.span, ev.fn)
        elif k == 'end_request':
            self.cov['requests ended'] += 1
            if ev.d[0] is not st.auto.get('lcs'):
                self.bad(e, st, 'end-state', 'ends a request state other than the one of this request', ev.span, ev.fn)
            st.auto['ended'] = min(2, st.auto.get('ended', 0) + 1)
            if st.auto['ended'] > 1:
                self.bad(e, st, 'end2', 'the request is ended twice', ev.span, ev.fn)
            if self.entry.kind in WITHLC:
                self.bad(e, st, 'end-lc', 'the variant that returns the request state ends it', ev.span, ev.fn)
        elif k in ('slab_insert', 'slab_remove', 'link', 'unlink', 'map_insert', 'map_remove'):
            if st.auto.get('ended'):
                self.bad(e, st, 'late', 'the cache is changed after the request has ended', ev.span, ev.fn)

    def on_tx(self, e, st, key, tx):
        for it in tx.items:
            if it.fc in ('hot', 'cold') and is_new(S(st, rval(it.fcont))) and not st.unwinding:
                st.auto['done'] = 1

    def on_exit(self, e, st, kind, v):
        if kind != 'return' or st.unwinding:
            return
        k = self.entry.kind
        n = st.auto.get('ended')
        fail = v is not None and v.t == 'agg' and v.a[0] == 'core::result::Result' and v.a[1] == 'Err'
        self.cov['exits'] += 1
        if k in LOADS:
            if n == 0 and st.auto.get('done'):
                self.bad(e, st, 'noend', 'a request that stored its value is not ended')
            return
        if 'lcs' not in st.auto:
            if st.auto.get('oob'):
                return
            self.bad(e, st, 'nobegin', 'no request is begun')
            return
        if k in WITHLC:
            if not fail and not any(s is st.auto['lcs'] for s in subterms(v)):
                self.bad(e, st, 'lcs', 'the request state is not returned')
        elif fail:
            if n:
                self.bad(e, st, 'endfail', 'a failed request is ended')
        elif n != 1:
            self.bad(e, st, 'noend', 'a successful request is not ended')


# ---------------------------------------------------------------------------------------------- C10
@rule
class C10(ItemRule):
    pid = 'C10'
    only = INSERTS
    rule = ('replace: Ok only if the value was stored in a slot that held a resident item with an equivalent key; Err '
            'returns the given key and value and nothing was stored; a resident key within budget is not refused. '
            'insert: the value is stored or reported to the eviction hook, and an item found under the key does not stay')

    def on_event(self, e, st, ev):
        if ev.k == 'on_evict' and is_new(S(st, ev.d[2])):
            st.auto['reported'] = 1
        elif ev.k == 'before_evict' and is_new(S(st, ev.d[2])):
            st.auto['heavy'] = 1

    def on_tx(self, e, st, key, tx):
        self.see(st)
        if st.unwinding:
            return
        kt = key_terms(self.entry)
        s = tx.scn.get(kt)
        for it in tx.items:
            if s is not None and s[0] == 'R' and s[1] is it.tok:
                same = it.fc in ('hot', 'cold') and unbe(S(st, rval(it.fcont)))[0] is S(st, rval(it.icont))
                if not same:
                    st.auto['oldgone'] = 1
            if it.fc in ('hot', 'cold') and is_new(S(st, rval(it.fcont))):
                st.auto['stored'] = it.ic
                if 'replace' in self.entry.kind and it.ic not in ('hot', 'cold'):
                    self.bad(e, st, 'adds', 'replace stores its value although the key was not resident')

    def on_exit(self, e, st, kind, v):
        if kind != 'return':
            return
        self.see(st)
        self.cov['exits'] += 1
        own = st.auto.get('own')
        a = st.auto
        fail = v is not None and v.t == 'agg' and v.a[0] == 'core::result::Result' and v.a[1] == 'Err'
        if 'replace' in self.entry.kind:
            if fail:
                t = fld(v, '0', 'Err')
                k, x = S(st, fld(t, '0')), unbe(S(st, fld(t, '1')))[0]
                if k is not KEYV or x is not VAL:
                    self.bad(e, st, 'back', 'a refused replace does not return the key and value it was given')
                if a.get('stored') or a.get('reported'):
                    self.bad(e, st, 'both', 'a refused replace also stored its value')
                if own == 'R' and not a.get('heavy'):
                    self.bad(e, st, 'refused', 'replace refuses a resident key although its value fits')
            else:
                if not a.get('stored'):
                    self.bad(e, st, 'notstored', 'replace reports success without storing its value')
            return
        if fail:
            self.bad(e, st, 'fails', 'insert reports failure')
        if not a.get('stored') and not a.get('reported'):
            self.bad(e, st, 'vanished', 'the inserted value is neither stored nor reported as evicted')
        if own == 'R' and not a.get('oldgone'):
            self.bad(e, st, 'stale', 'an older value for the key is left behind')


# ---------------------------------------------------------------------------------------------- C11
@rule
class C11(ItemRule):
    pid = 'C11'
    only = READONLY + ('get', 'get_mut', 'remove') + LOADS + INSERTS + ('join.poll',)
    rule = ('no path of a peek, membership test, iteration or size query, and no lookup that finds nothing, writes a '
            'reference counter; lookups write only the counter of the entry they found and do not lower it; a soft '
            'replacement carries the counter over, a hard one does not lower it')

    def on_store(self, e, st, root, path, v):
        if root.t != 'slot':
            return
        names = [p[1] for p in path if p[0] == 'f']
        if 'referenced' not in names:
            return
        if 'v' not in names:
            v = fld(v, 'v')
            path = path + (F('v'),)
        old = S(st, e.rd(st, root, path))
        v = S(st, v)
        k = self.entry.kind
        self.cov['counter writes'] += 1
        if k in READONLY or k == 'remove':
            if v is not old:
                self.bad(e, st, 'touched', '%s changes the hotness of an item' % k)
            return
        if k in INSERTS or st.auto.get('loaded'):
            return
        sh = st.sh.get(root.a[0])
        if sh is None:
            return
        if not owns(e, st, key_terms(self.entry), e.ent(sh, root.a[1])):
            self.bad(e, st, 'other', 'a lookup changes the hotness of an item it did not look up')
        elif not self.notless(e, st, old, v):
            self.bad(e, st, 'lowered', 'a hit lowers the hotness of the item')

    def on_event(self, e, st, ev):
        if ev.k == 'begin_request':
            st.auto['loaded'] = 1
        elif ev.k in ('link', 'unlink') and self.entry.kind in ('peek', 'contains_key', 'iter', 'len', 'weight', 'is_empty', 'get', 'get_mut', 'peek_mut'):
            self.bad(e, st, 'order', '%s changes the order of the eviction candidates' % self.entry.kind, ev.span, ev.fn)

    def notless(self, e, st, old, new):
        if e.prove_le(st, sub(old, new)):
            return True
        return self.capped(e, st, old, new)

    def capped(self, e, st, old, new, soft=None):
        """new is min(f(old), MAX) for a non-decreasing f"""
        if new.t == 'op' and new.a[0] == 'min':
            x = [a for a in new.a[1:] if isinstance(a, T)]
            for a in x:
                c, m = lin(a)
                if m == {old: 1} and c >= 0 or self.grows(a, old):
                    return True
        return self.grows(new, old)

    def grows(self, a, old):
        if a is old:
            return True
        c, m = lin(a)
        if m.get(old) == 1 and c >= 0 and all(x > 0 for x in m.values()):
            return True
        if a.t == 'op' and a.a[0] in ('saturating_add', 'max', 'sat_add'):
            return any(isinstance(x, T) and self.grows(x, old) for x in a.a[1:])
        return False

    def on_tx(self, e, st, key, tx):
        if self.entry.kind not in INSERTS or st.unwinding:
            return
        kt = key_terms(self.entry)
        for it in tx.items:
            if it.ic not in ('hot', 'cold') or it.fc not in ('hot', 'cold') or not is_new(S(st, rval(it.fcont))):
                continue
            if not owns(e, st, kt, it.icont):
                continue
            self.cov['replacements'] += 1
            r0 = S(st, fld(fld(fld(it.icont, '0', 'Resident'), 'referenced'), 'v'))
            r1 = S(st, fld(fld(fld(it.fcont, '0', 'Resident'), 'referenced'), 'v'))
            if it.ic != it.fc:
                self.bad(e, st, 'list', 'a replacement moves the item to the other list')
            sym = mk('sym', 'soft', 0)
            known = e.decide(st, sym) if 'replace' in self.entry.kind else False
            # a path that never asks which kind of replacement this is serves both kinds
            for soft in ((True, False) if known is None else (known,)):
                st2 = st.copy()
                if known is None and not e.assume(st2, sym, soft):
                    continue
                a, b = S(st2, r0), S(st2, r1)
                if soft:
                    ok = b is a or b.t == 'op' and b.a[0] == 'min' and a in b.a[1:] or e.decide(st2, b_eqn(a, b)) is True or self.mincase(e, st2, a, b)
                    if not ok:
                        self.bad(e, st, 'soft', 'a soft replacement changes the hotness from %s to %s' % (show(a)[:60], show(b)[:60]))
                elif not self.notless(e, st2, a, b) and not self.mincase(e, st2, a, b):
                    self.bad(e, st, 'hard', 'a replacement lowers the hotness from %s to %s' % (show(a)[:60], show(b)[:60]))

    def mincase(self, e, st, r0, r1):
        """min(r0, M) where the path knows which one it is: the cap itself"""
        return r1.t == 'i' and r1.a[0] >= 2
