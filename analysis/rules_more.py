"""Rules C31-C34: what is present is found, nothing missing makes an operation panic, single steps, second chances."""
from terms import *
from models import strip
from rules import Rule, rule, S, rval, INSERTS, GUARDINS, LOADS
from rules_items import ItemRule, key_terms, owns, part, unbe, is_new, INSLIKE
from rules_sync import issync, SHD, GUARD, UGUARD
from entries import field_of

LOOKUPS = ('get', 'peek', 'get_mut', 'peek_mut', 'contains_key', 'remove')


# ---------------------------------------------------------------------------------------------- C31
@rule
class C31(ItemRule):
    pid = 'C31'
    only = LOOKUPS + LOADS
    rule = ('no path on which the key is resident when the shard is looked at ends with "not found", "false" or a grant to '
            'load the key; no path ends that way without having looked the key up')

    def grants(self, e, st):
        self.cov['grants examined'] += 1
        self.see(st)
        if st.auto.get('own') == 'R':
            self.bad(e, st, 'load', 'a load is granted for a key that is resident')
        elif st.auto.get('own') is None and not st.auto.get('c31sh'):
            self.bad(e, st, 'unseen', 'a load is granted without looking the key up')

    def on_agg(self, e, st, v, ty):
        if ty[0] == 'adt' and ty[1] in (GUARD, UGUARD) and not st.unwinding:
            self.grants(e, st)

    def on_exit(self, e, st, kind, v):
        k = self.entry.kind
        if kind != 'return' or v is None or k not in LOOKUPS or st.auto.get('oob'):
            return
        self.see(st)
        if k == 'contains_key':
            neg = e.decide(st, v) is not True
        else:
            neg = e.known_variant(st, v) != 'Some'
        if not neg:
            return
        self.cov['negative answers'] += 1
        own = st.auto.get('own')
        if own == 'R':
            if k == 'contains_key' and e.decide(st, v) is None:
                return
            self.bad(e, st, 'missed', '%s does not find a key that is resident' % k)
        elif own is None and not self.counted(st):
            self.bad(e, st, 'unseen', '%s answers that the key is not there without looking it up' % k)

    def counted(self, st):
        """did the path ask how many items there are?"""
        for b in st.bools:
            for s in subterms(b):
                if s.t == 'fld' and s.a[2] in ('num_hot', 'num_cold') or s.t in ('tablen', 'slablen', 'call'):
                    return True
        return False


# ---------------------------------------------------------------------------------------------- C32
@rule
class C32(Rule):
    pid = 'C32'
    cfgs = ('default', 'rel')
    rule = ('no feasible path of an operation reaches a failing unwrap/expect or an explicit panic selected by the kind of '
            'an entry, list head or option')

    def wants(self, entry):
        return not entry.kind.startswith('slab.') and not entry.kind.startswith('opt') and entry.kind != 'refmut.use'

    def on_exit(self, e, st, kind, v):
        self.cov['paths'] += 1

    def on_panic(self, e, st):
        self.cov['panicking calls reached'] += 1
        if st.auto.get('oob'):
            return
        fr = [f for f in st.frames if f.fn is not None]
        loc = [f for f in fr if not f.fn.ext]
        if not fr or not loc:
            return
        f = loc[-1]
        if 'sync_placeholder' in f.fn.file() or 'options' in f.fn.file():
            return
        if fr[-1].fn is f.fn and not self.by_kind(f):
            return
        self.bad(e, st, 'panic:' + f.fn.path.split('::')[-1], 'the operation panics', f.span, f.fn.path)

    def by_kind(self, f):
        """is the panicking block selected by a discriminant (and not by a comparison)?"""
        fn, b, seen = f.fn, f.bb, set()
        while b not in seen:
            seen.add(b)
            ps = [p for p in range(len(fn.bbs)) if b in fn.succs(p)]
            if len(ps) != 1:
                return False
            t = fn.bbs[ps[0]]['t']
            if t[0] == 'switch':
                return fn.p.ty(t[4])[0] != 'bool'
            b = ps[0]
        return False


# ---------------------------------------------------------------------------------------------- C33
@rule
class C33(ItemRule):
    pid = 'C33'
    only = INSERTS + GUARDINS + ('remove', 'get', 'peek', 'contains_key')
    rule = ('on every path of a single-key operation of the concurrent cache all changes to the entries of a shard happen '
            'between one acquisition of its lock and the matching release')

    def wants(self, entry):
        return issync(entry) and entry.kind in self.only

    def on_event(self, e, st, ev):
        if ev.k == 'acquire' and ev.d[2] == SHD:
            st.auto['c33s'] = min(st.auto.get('c33s', 0) + 1, 9)
            self.cov['lock sessions'] += 1

    def on_tx(self, e, st, key, tx):
        s = st.auto.get('c33s', 0)
        ch = [it for it in tx.items if it.ic in ('hot', 'cold', 'pend') or it.fc in ('hot', 'cold', 'pend')]
        ch = [it for it in ch if it.ic != it.fc or it.icont is not it.fcont]
        if not ch:
            return
        self.cov['changing steps'] += 1
        if st.auto.get('c33c', s) != s:
            self.bad(e, st, 'split', '%s changes the cache in two separately locked steps' % self.entry.kind)
        st.auto['c33c'] = s


# ---------------------------------------------------------------------------------------------- C34
@rule
class C34(ItemRule):
    pid = 'C34'
    only = INSLIKE + ('get', 'get_mut')
    rule = ('the pre-eviction hook is applied to a stored item only if its counter was found to be zero when the item was '
            'considered; the counter of an item that was looked up or hard replaced is not zero afterwards; an entry made '
            'from a remembered key is hot, and a pending load started as hot is not stored as cold')

    # ---- considered
    def on_event(self, e, st, ev):
        if ev.k == 'slab_get' and ev.d[2]:
            key, t = ev.d[0], ev.d[1]
            vs = st.auto.get('c34v')
            if vs is not None and S(st, vs[0]) is t:
                return
            sh = st.sh.get(key)
            if sh is None:
                return
            st.auto['c34v'] = (t, self.refd(e, st, e.rd(st, e.slot(sh, t))))
        elif ev.k == 'before_evict':
            p = part(unbe(S(st, ev.d[2]))[0])
            if p is None or st.unwinding:
                return
            self.cov['victims'] += 1
            vs = st.auto.get('c34v')
            t = S(st, p[0].a[1])
            if vs is None or S(st, vs[0]) is not t:
                r = self.refd(e, st, p[0])
            else:
                r = S(st, vs[1])
            if e.decide(st, b_eqn(r, I(0))) is not True:
                self.bad(e, st, 'used', 'an item that may have been used since it was last considered is evicted', ev.span, ev.fn)

    def on_backedge(self, e, st, fr, bb):
        st.auto.pop('c34v', None)

    def refd(self, e, st, c):
        return S(st, fld(fld(fld(c, '0', 'Resident'), 'referenced'), 'v'))

    def nonzero(self, e, st, r):
        r = S(st, r)
        if r.t == 'i':
            return r.a[0] > 0
        if e.decide(st, b_eqn(r, I(0))) is False:
            return True
        if r.t == 'op' and r.a[0] == 'min':
            return all(self.nonzero(e, st, x) for x in r.a[1:] if isinstance(x, T))
        if r.t == 'op' and r.a[0] in ('max', 'sat_add', 'saturating_add'):
            return any(self.nonzero(e, st, x) for x in r.a[1:] if isinstance(x, T))
        c, m = lin(r)
        return c >= 1 and all(x > 0 for x in m.values())

    # ---- hits
    def mark(self, e, st):
        kt = key_terms(self.entry)
        for sh in st.sh.values():
            s = sh.scn.get(kt)
            if s is None or s[0] != 'R' or s[1] is None:
                continue
            c = e.rd(st, e.slot(sh, s[1]))
            st.auto['c34u'] = 1 if self.nonzero(e, st, self.refd(e, st, c)) else 0

    def before_release(self, e, st, g):
        ItemRule.before_release(self, e, st, g)
        if g.a[2] and 'Shard' in str(g.a[2]) and self.entry.kind not in INSERTS + GUARDINS and not st.auto.get('c34l'):
            self.mark(e, st)

    def on_agg(self, e, st, v, ty):
        if ty[0] == 'adt' and ty[1] in (GUARD, UGUARD):
            st.auto['c34l'] = 1

    def on_exit(self, e, st, kind, v):
        k = self.entry.kind
        if kind != 'return' or v is None or k in INSERTS + GUARDINS or st.auto.get('c34l'):
            return
        if not issync(self.entry):
            self.mark(e, st)
        self.see(st)
        if st.auto.get('own') != 'R' or k in ('get', 'get_mut') and e.known_variant(st, v) != 'Some':
            return
        self.cov['hits'] += 1
        if st.auto.get('c34u') == 0:
            self.bad(e, st, 'hit', 'a hit does not mark the item as used')

    # ---- coming back
    def on_tx(self, e, st, key, tx):
        if st.unwinding:
            return
        pf = field_of(e, 'shard::Placeholder', lambda t: t[0] == 'adt' and t[1] == 'shard::ResidentState', 'hot')
        for it in tx.items:
            if it.ic == 'ghost' and it.fc == 'cold':
                self.bad(e, st, 'cold', 'an item whose key is remembered as recently evicted enters as cold')
            elif it.ic == 'ghost' and it.fc == 'pend':
                self.cov['returning keys'] += 1
                h = S(st, fld(fld(it.fcont, '0', 'Placeholder'), pf))
                if e.known_variant(st, h) != 'Hot':
                    self.bad(e, st, 'pend', 'the load of a key that is remembered as recently evicted is not marked hot')
            elif it.ic == 'ghost' and it.fc == 'hot':
                self.cov['returning keys'] += 1
            elif it.ic == 'pend' and it.fc == 'cold' and it.icont.t == 'ent':
                self.cov['completed loads'] += 1
                h = S(st, fld(fld(it.icont, '0', 'Placeholder'), pf))
                s2 = st.copy()
                if e.known_variant(st, h) != 'Cold' and e.assume_variant(s2, h, 'Hot'):
                    self.bad(e, st, 'demoted', 'a load that was started as hot is stored as cold')
            elif it.ic in ('hot', 'cold') and it.fc in ('hot', 'cold') and self.entry.kind in INSERTS and is_new(S(st, rval(it.fcont))):
                if not owns(e, st, key_terms(self.entry), it.icont):
                    continue
                sym = mk('sym', 'soft', 0)
                s2 = st.copy()
                if 'replace' in self.entry.kind and not (e.decide(st, sym) is False or e.decide(st, sym) is None and e.assume(s2, sym, False)):
                    continue
                self.cov['hard replacements'] += 1
                if not self.nonzero(e, s2, self.refd(e, s2, it.fcont)):
                    self.bad(e, st, 'replaced', 'a hard replacement does not mark the item as used')
