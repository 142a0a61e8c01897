"""Rules: one class per property.  A rule watches the abstract exploration of every entry it cares about and records
violations.  Violations are keyed by entry and kind of problem, never by line number."""
import collections
import time
from terms import *
from engine import Monitor
from models import strip
from shard import CNT, HEADS

INSERTS = ('insert', 'insert_with_lifecycle', 'replace', 'replace_with_lifecycle')
GUARDINS = ('guard.insert', 'guard.insert_with_lifecycle', 'uguard.insert', 'uguard.insert_with_lifecycle')
LOADS = ('get_or_insert_with', 'get_mut_or_insert_with', 'get_or_insert_async', 'get_value_or_guard',
         'get_value_or_guard_async', 'get_ref_or_guard', 'get_mut_or_guard')
RULES = {}


def S(st, v):
    return st.sub.get(v, v)


def short(fn):
    return fn


class Rule(Monitor):
    pid = None
    cfgs = ('rel',)
    level = 'other'
    only = None            # entry kinds, None: all
    title = ''
    rule = ''
    stop = False           # end the exploration of an entry with the first violation

    def __init__(self):
        self.v = {}
        self.cov = collections.Counter()
        self.entry = None
        self.cfg = None
        self.facts = {}

    def wants(self, entry):
        if self.only is None:
            return not entry.kind.startswith('slab.') and entry.kind != 'refmut.use'
        return entry.kind in self.only

    def setup(self, e, st):
        pass

    def begin_attempt(self, e):
        if self.stop:
            e.deadline = self.deadline0
        self.v = {}
        self.cov = collections.Counter()
        self.facts = {}

    def bad(self, e, st, code, msg, span=None, fn=None):
        if st is not None and (st.auto.get('taint') or st.auto.get('opq')):
            self.cov['inconclusive: ' + str(st.auto.get('taint') or st.auto.get('opq'))] += 1
            return
        k = (self.entry.label, code)
        if k in self.v:
            self.v[k]['n'] += 1
            return
        tr = []
        if st is not None:
            for ev in st.events():
                if ev.k in ('unify', 'dropval', 'weigh') and len(tr) > 0:
                    continue
                tr.append('%s:%s %s: %s(%s)' % (ev.span[0] if ev.span else '?', ev.span[1] if ev.span else '?',
                                               (ev.fn or '?').split('::')[-1], ev.k,
                                               ', '.join(show(x)[:90] if isinstance(x, T) else str(x)[:60] for x in ev.d)))
            if fn is None or span is None:
                for f in reversed(st.frames):
                    if f.fn is not None:
                        fn = fn or f.fn.path
                        span = span or f.span
                        break
                else:
                    for ev in reversed(st.events()):
                        if ev.k not in ('unify',) and ev.span:
                            fn = fn or ev.fn
                            span = span or ev.span
                            break
        self.v[k] = {'code': code, 'msg': msg, 'entry': self.entry.label, 'cfg': self.cfg, 'fn': fn,
                     'at': '%s:%s' % (span[0], span[1]) if span else None, 'trace': tr[-80:], 'n': 1}
        if self.stop:
            # a violation of an attempt that is restarted does not count: give the attempt time to finish
            e.deadline = min(e.deadline, time.time() + 45)

    # results to merge in the parent
    def result(self):
        return {'v': list(self.v.values()), 'cov': dict(self.cov), 'facts': self.facts}

    @classmethod
    def conclude(cls, results, progs):
        """obligations over all entries -> list of violations"""
        return []


def rule(cls):
    RULES[cls.pid] = cls
    return cls


def rkey(c):
    return fld(fld(c, '0', 'Resident'), 'key')


def rval(c):
    return fld(fld(c, '0', 'Resident'), 'value')


MUTATORS = INSERTS + GUARDINS + LOADS + ('remove', 'retain', 'clear', 'drain', 'guard.drop', 'uguard.drop', 'join.poll',
                                        'join.drop', 'refmut.drop', 'get_mut', 'peek_mut', 'reserve', 'get', 'peek',
                                        'contains_key', 'iter', 'len', 'weight', 'is_empty')


# ---------------------------------------------------------------------------------------------- C01
@rule
class C01(Rule):
    pid = 'C01'
    rule = ('for every slot changed by a transaction on a shard, the change of num_hot/num_cold/weight_hot/weight_cold '
            'equals the change of what the slot contributes; the reported totals are the sums of those counters; a '
            'mutable reference remembers the weight its entry is accounted with')

    def on_tx(self, e, st, key, tx):
        self.cov['transactions'] += 1
        if not tx.final:
            return
        self.cov['final transactions'] += 1
        if st.unwinding:
            return
        for n, r in tx.count_prob:
            if n != 'num_non_resident':
                self.bad(e, st, 'count:' + n, '%s is off by %s when the operation ends' % (n, show(r)[:200]))

    def on_agg(self, e, st, v, ty):
        if ty[0] == 'adt' and ty[1] == 'shard::RefMut':
            c, idx, w = fld(v, 'cache'), S(st, fld(v, 'idx')), S(st, fld(v, 'old_weight'))
            if c.t != 'ref':
                return
            r, p = e.deref(st, c)
            key = mk('shk', r, p)
            sh = st.sh.get(key)
            if sh is None:
                return
            self.cov['mutable references'] += 1
            content = e.rd(st, e.slot(sh, idx))
            rec = sh.recs.get(idx)
            if rec is None or not rec.occ or e.known_variant(st, content) != 'Resident':
                self.bad(e, st, 'refmut-target', 'a mutable reference designates a slot that is not a resident item')
                return
            want = S(st, e.W(S(st, rkey(content)), S(st, rval(content))))
            if w is not want:
                self.bad(e, st, 'refmut-weight', 'the weight remembered by a mutable reference is %s, its item weighs %s' % (show(w)[:80], show(want)[:80]))

    def on_exit(self, e, st, kind, v):
        if kind != 'return' or not self.entry.label.startswith('unsync::Cache'):
            return
        k = self.entry.kind
        if k not in ('len', 'weight', 'is_empty'):
            return
        base = fld(mk('deref', mk('sym', 'self', 0)), 'shard')
        a, b = ('weight_hot', 'weight_cold') if k == 'weight' else ('num_hot', 'num_cold')
        want = add(fld(base, a), fld(base, b))
        self.cov['reported totals'] += 1
        if k == 'is_empty':
            d = e.decide(st, b_eqn(want, I(0)))
            vv = {TRUE: True, FALSE: False}.get(v)
            if v.t == 'eq0' and v is not b_eqn(want, I(0)) or vv is not None and d is not None and d != vv:
                self.bad(e, st, 'is_empty', 'is_empty does not say whether %s + %s is zero' % (a, b))
        elif S(st, v) is not S(st, want):
            self.bad(e, st, 'total', '%s() returns %s instead of %s + %s' % (k, show(v)[:80], a, b))


# ---------------------------------------------------------------------------------------------- C02
@rule
class C02(Rule):
    pid = 'C02'
    rule = ('whenever a shard is released, each changed slot is occupied iff indexed, and an occupied slot is indexed '
            'once, under the hash of its own content')
    CODES = ('unindexed', 'dangling', 'hash')

    def on_tx(self, e, st, key, tx):
        self.cov['transactions'] += 1
        if not tx.final or st.unwinding:
            return
        for it in tx.items:
            self.cov['slot changes'] += 1
            for c, m in it.prob:
                if c in self.CODES:
                    self.bad(e, st, '%s:%s>%s' % (c, it.ic, it.fc), m)
            if it.fc == 'pend' and it.ic != 'pend':
                self.cov['pending loads created'] += 1
                pf = e.plh_fields(e, st, it.fcont)
                if pf is not None:
                    have = S(st, it.rec.ihash) if it.rec.ihash is not None else (e.own_hash(e, st, it.rec.init, it.ic) if it.rec.init is not None else None)
                    if have is not None and not e.same_hash(e, st, pf[0], have):
                        self.bad(e, st, 'plh-hash', 'a pending load records a hash it is not indexed under')
                    if S(st, pf[1]) is not S(st, it.tok) and e.decide(st, e.eq_term(S(st, pf[1]), S(st, it.tok))) is not True:
                        self.bad(e, st, 'plh-slot', 'a pending load records a slot other than its own')
        for m in tx.prob:
            self.bad(e, st, 'tx', m)

    def on_event(self, e, st, ev):
        if ev.k == 'dup_key':
            self.bad(e, st, 'dup', 'a key that is already stored is indexed a second time')
        elif ev.k == 'slab_misuse' and ('indexes' in ev.d[1]):
            self.bad(e, st, 'misuse', ev.d[1])
        elif ev.k in ('map_insert', 'map_remove', 'slab_insert', 'slab_remove'):
            self.cov[ev.k] += 1


# ---------------------------------------------------------------------------------------------- C05
@rule
class C05(Rule):
    pid = 'C05'
    rule = ('whenever a shard is released, each changed entry is in the list of its class iff its weight is non-zero, '
            'and each list head designates a member of its own list (or nothing iff the list is empty)')
    CODES = ('linked', 'unlinked', 'wronglist')

    def on_tx(self, e, st, key, tx):
        self.cov['transactions'] += 1
        if not tx.final or st.unwinding:
            return
        for it in tx.items:
            self.cov['slot changes'] += 1
            for c, m in it.prob:
                if c in self.CODES:
                    self.bad(e, st, '%s:%s>%s' % (c, it.ic, it.fc), m)
        for r, m in tx.head_prob:
            self.bad(e, st, 'head:' + r, m)

    def on_event(self, e, st, ev):
        if ev.k == 'slab_misuse' and 'link' in ev.d[1]:
            self.bad(e, st, 'misuse', ev.d[1])
        elif ev.k in ('link', 'unlink'):
            self.cov[ev.k] += 1


# ---------------------------------------------------------------------------------------------- C12
@rule
class C12(Rule):
    pid = 'C12'
    rule = ('num_non_resident changes by the number of ghosts created minus forgotten and stays within '
            'capacity_non_resident; inserting, loading or removing a key consumes the ghost that matches it')

    def on_tx(self, e, st, key, tx):
        self.cov['transactions'] += 1
        for it in tx.items:
            if it.ic == 'ghost':
                self.facts.setdefault('ghost>' + it.fc, 1)
                self.cov['ghosts consumed'] += 1
            if it.fc == 'ghost' and it.ic != 'ghost':
                self.cov['ghosts created'] += 1
        if not tx.final:
            st.auto['c12loop'] = 1
        if not tx.final or st.unwinding:
            return
        for n, r in tx.count_prob:
            if n == 'num_non_resident':
                self.bad(e, st, 'count', 'num_non_resident is off by %s' % show(r)[:100])
        sh = st.sh.get(key)
        cap = S(st, fld(tx.shard, 'capacity_non_resident'))
        cur = tx.cur['num_non_resident']
        if not e.prove_le(st, sub(cur, cap)) and not tx.drained:
            self.bad(e, st, 'bound', 'the number of ghosts may exceed its bound when the operation ends')

    def on_idle(self, e, st, key, v):
        if st.unwinding:
            return
        if st.auto.get('c12loop') and not e.prove_le(st, sub(S(st, fld(v, 'num_non_resident')), S(st, fld(v, 'capacity_non_resident')))):
            self.bad(e, st, 'bound', 'the number of ghosts may exceed its bound when the operation ends')

    NEED = {'insert': 'resident', 'remove': 'free', 'get_value_or_guard': 'pend', 'get_ref_or_guard': 'pend'}

    def end_entry(self, e):
        k = self.entry.kind
        need = self.NEED.get(k)
        if need is None:
            return
        ok_ = any(f in self.facts for f in (('ghost>hot', 'ghost>cold') if need == 'resident' else ('ghost>' + need,)))
        if not ok_:
            self.bad(e, None, 'kept', 'no path of %s consumes the ghost of the key it is given' % k)


import rules_items  # noqa: E402,F401
import rules_sync  # noqa: E402,F401
import rules_misc  # noqa: E402,F401
import rules_store  # noqa: E402,F401
import rules_types  # noqa: E402,F401
import rules_more  # noqa: E402,F401
