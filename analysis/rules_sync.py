"""Rules about the concurrent cache: locks, the load protocol, waiting, guards."""
from terms import *
from models import strip
from rules import Rule, rule, S, LOADS, INSERTS, GUARDINS, rval
from entries import field_of

STATE = 'sync_placeholder::State'
TASKW = 'sync_placeholder::TaskWaiter'
SHD = 'shard::CacheShard'
GUARD = 'sync_placeholder::PlaceholderGuard'
UGUARD = 'unsync::Guard'
JOINS = ('join.poll', 'join.drop')
WAITS = ('get_value_or_guard', 'get_value_or_guard_async', 'get_or_insert_with', 'get_or_insert_async')
SYNCOPS = WAITS + JOINS + ('guard.insert', 'guard.insert_with_lifecycle', 'guard.drop')


def held(st, cls, mode=None):
    return [l for l in st.locks if l.a[2] == cls and (mode is None or l.a[1] == mode)]


def issync(entry):
    return entry.label.startswith('sync')


def has(x, t):
    return x in subterms(t)


# ---------------------------------------------------------------------------------------------- C13
@rule
class C13(Rule):
    pid = 'C13'
    cfgs = ('default', 'rel')
    rule = ('the graph of "acquired while holding" between the classes of locks of the cache, collected over every path of '
            'every entry, is acyclic and has no self-loop')

    def wants(self, entry):
        return issync(entry)

    def on_event(self, e, st, ev):
        if ev.k != 'acquire':
            return
        lk, mode, cls = ev.d
        self.cov['acquisitions'] += 1
        for l in ev.locks:
            self.cov['nested acquisitions'] += 1
            k = '%s>%s' % (l.a[2], cls)
            site = '%s:%s in %s' % (ev.span[0], ev.span[1], ' < '.join(f.split('::')[-1] for f, _ in reversed(ev.stack[-5:])))
            self.facts.setdefault(k, []).append('%s [%s]' % (site, self.entry.label)) if len(self.facts.get(k, ())) < 4 else None
            if l.a[2] == cls:
                self.bad(e, st, 'nested:' + cls.split('::')[-1], 'acquires a %s lock while one of the same kind is held' % cls.split('::')[-1])

    @classmethod
    def conclude(cls, results, progs):
        g = {}
        for r in results:
            for k, sites in r['facts'].items():
                a, b = k.split('>')
                if a != b:
                    g.setdefault(a, {}).setdefault(b, sites)
        out = []
        done = set()

        def walk(n, path):
            for m in g.get(n, {}):
                if m in path:
                    cyc = path[path.index(m):]
                    key = frozenset(cyc)
                    if key not in done:
                        done.add(key)
                        tr = []
                        for x, y in zip(cyc, cyc[1:] + cyc[:1]):
                            tr.append('holding %s, %s is acquired at %s' % (x, y, '; '.join(g[x][y][:3])))
                        out.append({'code': 'cycle:' + '-'.join(sorted(c.split('::')[-1] for c in cyc)),
                                    'msg': 'the lock classes %s are acquired in both orders' % ', '.join(c.split('::')[-1] for c in cyc),
                                    'entry': '*', 'cfg': '*', 'fn': None, 'at': g[cyc[-1]][cyc[0]][0].split(' ')[0], 'trace': tr, 'n': 1})
                    continue
                walk(m, path + [m])
        for n in list(g):
            walk(n, [n])
        return out


# ---------------------------------------------------------------------------------------------- C14
@rule
class C14(Rule):
    pid = 'C14'
    cfgs = ('default', 'rel')
    rule = ('on no path is a lock of the cache held at a call of a loading closure or future, at begin_request or end_request, '
            'at the drop of a request state, or at a point where a thread parks or a task is suspended')

    def wants(self, entry):
        return issync(entry)

    def on_event(self, e, st, ev):
        k = ev.k
        what = None
        if k == 'usercall' and self.entry.kind in LOADS:
            what = 'a loader is run'
        elif k == 'park':
            what = 'the thread waits'
        elif k == 'yield':
            what = 'the task is suspended'
        elif k in ('begin_request', 'end_request'):
            what = k + ' is called'
        elif k == 'dropval' and ev.d[0].t == 'sym' and ev.d[0].a[0] == 'lcs':
            what = 'the request state is dropped'
        if what is None:
            return
        self.cov['points: ' + what] += 1
        if ev.locks:
            self.bad(e, st, '%s:%s' % (k, ev.locks[-1].a[2].split('::')[-1]), '%s while a %s lock is held' % (what, ev.locks[-1].a[2].split('::')[-1]))

    def on_exit(self, e, st, kind, v):
        if kind == 'return' and v is not None and self.entry.kind == 'join.poll' and v.t == 'agg' and v.a[1] == 'Pending' and st.locks:
            self.bad(e, st, 'pending', 'the task is suspended while a lock is held')


# ---------------------------------------------------------------------------------------------- the load protocol
class Proto(Rule):
    """follows the waiters taken off a load's list until each was told and woken.  What is remembered lives in st.auto under
    the rule's name: tk (taken, not told yet), fl (told), wk (woken), mine (registered by this call)"""

    def wants(self, entry):
        return issync(entry) and entry.kind in SYNCOPS

    def g(self, st, k, d=()):
        return st.auto.get(self.pid + k, d)

    def put(self, st, k, v):
        if v in ((), None, 0):
            st.auto.pop(self.pid + k, None)
        else:
            st.auto[self.pid + k] = v

    def names(self, e):
        if not hasattr(self, 'WF'):
            self.WF = field_of(e, STATE, lambda t: t[0] == 'adt' and t[1].endswith('vec::Vec'), 'waiters')
            self.LF = field_of(e, STATE, lambda t: t[0] == 'adt' and t[1].startswith('sync_placeholder::'), 'loading')
            self.NF = field_of(e, TASKW, lambda t: t[0] == 'bool', 'notified')
            self.KF = field_of(e, TASKW, lambda t: t[0] == 'adt' and t[1].endswith('Waker'), 'waker')

    def setup(self, e, st):
        self.names(e)

    # -- recognising things
    def base(self, v):
        """the list of waiters a vector value stems from, or None"""
        while True:
            if v.t == 'it':
                v = v.a[0].a[1] if v.a[0].a[0] in ('vec',) else None
                if v is None:
                    return None
            elif v.t == 'vec':
                if v.a[0] is None:
                    return None
                v = v.a[0]
            elif v.t == 'vrest':
                v = v.a[0]
            else:
                break
        if v.t == 'fld' and v.a[2] == self.WF and v.a[0].t == 'locked' and v.a[0].a[2] == STATE:
            return v
        return None

    def vecof(self, v):
        return v.a[0].a[1] if v.t == 'it' else v

    def isloc(self, loc):
        return loc.t == 'ref' and loc.a[0].t == 'lkd' and loc.a[0].a[1] == STATE

    def own(self, e, st, idx, x):
        """is the removed element known to be the one this call registered?"""
        nums = {y for y in subterms(idx) if y.t == 'sym' and y.a[0] == 'num'} if isinstance(idx, T) else set()
        for b, val in st.bools.items():
            if not val or b.t not in ('unified', 'eq', 'eq0'):
                continue
            sb = subterms(b)
            if x in sb:
                return True
            if any(y.t == 'elem' and y.a[1] in nums for y in sb):
                return True
        return False

    def foreign(self, e, st, x):
        """is the element known to be someone else's registration?"""
        var = e.known_variant(st, x)
        mine = 'Task' if self.entry.kind.startswith('join.') else 'Thread'
        if isinstance(var, str) and var != mine:
            return True
        return any(not val and b.t in ('unified', 'eq', 'eq0') and x in subterms(b) for b, val in st.bools.items())

    # -- what a rule may react to
    def told(self, e, st, x):
        pass

    def lost(self, e, st, code, msg):
        pass

    def dereg(self, e, st, ev, x, own):
        pass

    def pushed(self, e, st, loc, w):
        pass

    def follow(self, e, st, ev):
        k = ev.k
        if k == 'vpush' and self.isloc(ev.d[0]):
            self.cov['registrations'] += 1
            self.put(st, 'mine', tuple(dict.fromkeys(self.g(st, 'mine') + (ev.d[1],)))[-2:])
            self.pushed(e, st, ev.d[0], ev.d[1])
        elif k == 'vpop' and self.isloc(ev.d[0]):
            self.take(e, st, ev.d[1])
        elif k == 'vtaken' and self.base(ev.d[0]) is not None:
            self.take(e, st, ev.d[1])
        elif k == 'vremove' and self.isloc(ev.d[0]):
            o = self.own(e, st, ev.d[1], ev.d[2])
            self.cov['deregistrations'] += 1
            if not o:
                self.take(e, st, ev.d[2])
            self.dereg(e, st, ev, ev.d[2], o)
        elif k == 'vkept' and self.isloc(ev.d[0]):
            # the list was filtered; what is kept is known not to be this call's own registration, so that one is gone
            if self.foreign(e, st, ev.d[2]):
                self.dereg(e, st, ev, ev.d[2], True)
        elif k == 'vclear' and self.base(ev.d[1]) is not None:
            if e.decide(st, e.vempty(ev.d[1])) is not True:
                self.lost(e, st, 'cleared', 'the list of waiters is emptied without telling them')
        elif k == 'dropval' and ev.d[0].t in ('it', 'vec', 'vrest', 'fld') and self.base(ev.d[0]) is not None:
            if e.decide(st, e.vempty(self.vecof(ev.d[0]))) is not True:
                self.lost(e, st, 'dropped', 'waiters are dropped from the list without being told')
        elif k == 'filtered' and ev.d[0].a[0] == 'vec' and self.base(ev.d[0].a[1]) is not None:
            self.lost(e, st, 'filtered', 'some of the waiters are skipped')
        elif k == 'astore':
            if S(st, ev.d[1]) is TRUE:
                self.flag(e, st, ev.d[0])
        elif k == 'armw':
            if ev.d[1] in ('swap', 'fetch_or', 'compare_exchange') and S(st, ev.d[3]) is TRUE:
                self.flag(e, st, ev.d[0])
        elif k == 'wake':
            for x in self.g(st, 'tk'):
                if any(has(x, t) for t in ev.d[1:] if isinstance(t, T)):
                    self.cov['wake-ups'] += 1
                    if x in self.g(st, 'fl'):
                        self.resolve(e, st, x)
                    elif any(has(x, l) for l in held(st, TASKW)):
                        self.put(st, 'wk', self.g(st, 'wk') + (x,))
                    else:
                        self.lost(e, st, 'unflagged', 'a waiter is woken before it is told that it was woken for this load')
                    break

    def take(self, e, st, x):
        self.cov['waiters taken'] += 1
        self.put(st, 'tk', self.g(st, 'tk') + (x,))

    def flag(self, e, st, loc):
        for x in self.g(st, 'tk'):
            if has(x, loc) and x not in self.g(st, 'fl'):
                self.put(st, 'fl', self.g(st, 'fl') + (x,))

    def resolve(self, e, st, x):
        for k in ('tk', 'fl', 'wk'):
            self.put(st, k, tuple(y for y in self.g(st, k) if y is not x))
        self.told(e, st, x)

    def on_event(self, e, st, ev):
        self.follow(e, st, ev)

    def on_store(self, e, st, root, path, v):
        if root.t == 'lkd' and root.a[1] == TASKW and path and path[-1][1] == self.NF and v is TRUE:
            self.flag(e, st, root)

    def state(self, e, st, g):
        """contents of a load's state when its lock is given back"""
        c = e.rd(st, g.a[3])
        return c, fld(c, self.LF), fld(c, self.WF)

    def loading(self, e, st, data):
        return e.known_variant(st, fld(e.rd(st, data), self.LF))

    def release_state(self, e, st, g):
        pass

    def before_release(self, e, st, g):
        if g.a[2] == TASKW and g.a[1] == 'w':
            for x in self.g(st, 'wk'):
                if has(x, g.a[0]):
                    if x in self.g(st, 'fl'):
                        self.resolve(e, st, x)
                    else:
                        self.lost(e, st, 'unflagged', 'a task is woken without being told that it was woken for this load')
        if g.a[2] == STATE:
            if g.a[1] == 'w' and not st.unwinding:
                if self.g(st, 'tk'):
                    self.lost(e, st, 'untold', 'a waiter was taken off the list but not woken when the list is given back')
                    for k in ('tk', 'fl', 'wk'):
                        self.put(st, k, ())
            self.release_state(e, st, g)


# ---------------------------------------------------------------------------------------------- C16
@rule
class C16(Proto):
    pid = 'C16'
    rule = ('in the critical section of a load that publishes its value the published value is the one given, the list of '
            'waiters ends up empty, each waiter taken off it is told before it is woken, and nobody registers unless the '
            'load is known to be pending; every returning path of a guard\'s insert publishes')

    def lost(self, e, st, code, msg):
        self.bad(e, st, code, msg)

    def pushed(self, e, st, loc, w):
        if self.loading(e, st, loc.a[0]) != 'Loading':
            self.bad(e, st, 'late', 'a caller registers as waiter although the load is not known to be pending')

    def release_state(self, e, st, g):
        if g.a[1] != 'w' or st.unwinding:
            return
        c, l, w = self.state(e, st, g)
        if l.t == 'agg' and l.a[1] == 'Inserted':
            self.cov['publications'] += 1
            self.put(st, 'pub', 1)
            if e.decide(st, e.vempty(w)) is not True:
                self.bad(e, st, 'waiters', 'a load is completed while waiters may be left on its list')
            x = S(st, fld(l, '0'))
            want = mk('sym', 'value', 0)
            if self.entry.kind.startswith('guard.') and strip(x) is not want:
                self.bad(e, st, 'value', 'the value published to the waiters is not the one given to the guard')

    def on_exit(self, e, st, kind, v):
        if kind != 'return' or st.unwinding:
            return
        if self.entry.kind.startswith('guard.insert'):
            self.cov['completed loads'] += 1
            if not self.g(st, 'pub', 0):
                self.bad(e, st, 'unpublished', 'a guard is given its value but the waiters are not')
        elif v is not None and self.entry.kind in WAITS + JOINS:
            for t in subterms(v):
                if t.t == 'clone' and any(y.t == 'locked' and y.a[2] == STATE for y in subterms(strip(t))) and not any(y.t == 'ent' and False for y in ()):
                    b = strip(t)
                    if b.t == 'fld' and b.a[2] == '0' and b.a[1] == 'Inserted' or self.viaent(b):
                        self.cov['values taken over'] += 1
                        continue
                    self.bad(e, st, 'taken', 'a waiter obtains something else than the published value')

    def viaent(self, b):
        return any(y.t == 'ent' for y in subterms(b)) and not any(y.t == 'locked' and y.a[2] == STATE for y in [b])


# ---------------------------------------------------------------------------------------------- C15
@rule
class C15(Proto):
    pid = 'C15'
    rule = ('a loading guard is created only for a load this very path created (once), or after this caller saw its own '
            'wake-up flag set and the load pending (once per wake-up); a pending load is taken away only by who holds that right; '
            'abandoning a load wakes at most one waiter')

    def wants(self, entry):
        return issync(entry) and entry.kind in SYNCOPS + INSERTS

    def chosen(self, e, st, mine):
        if mine:
            self.put(st, 'ch', 1)
            self.put(st, 'wasch', 1)

    def on_event(self, e, st, ev):
        self.follow(e, st, ev)
        if ev.k == 'aload':
            self.put(st, 'ld', (ev.d[1], ev.d[0]))
        elif ev.k == 'armw' and ev.d[1] == 'swap':
            self.put(st, 'ld', (ev.d[2], ev.d[0]))
        elif ev.k == 'dup_key' and self.entry.kind in WAITS + JOINS:
            self.bad(e, st, 'dup', 'a second pending load is created for a key that has one')

    def on_bool(self, e, st, b, val):
        if not val:
            return
        ld = self.g(st, 'ld', None)
        if ld and ld[0] is b:
            arcs = [y for y in subterms(ld[1]) if y.t == 'sym' and y.a[0] == 'arc']
            self.chosen(e, st, any(has(a, m) for a in arcs for m in self.g(st, 'mine')))
        elif b.t == 'fld' and b.a[2] == self.NF and b.a[0].t == 'locked' and b.a[0].a[2] == TASKW:
            lk = b.a[0].a[0]
            s = mk('sym', 'self', 0)
            self.chosen(e, st, has(s, lk) or any(y.t == 'sym' and y.a[0] == 'arc' and any(has(y, m) for m in self.g(st, 'mine')) for y in subterms(lk)))

    def told(self, e, st, x):
        # waking more than one is fine only for a published load
        d = [l for l in held(st, STATE, 'w')]
        if d and self.loading(e, st, d[-1].a[3]) == 'Inserted':
            return
        n = self.g(st, 'nw', 0)
        if n:
            self.bad(e, st, 'two', 'more than one waiter is woken to take over an abandoned load')
        self.put(st, 'nw', 1)

    def on_agg(self, e, st, v, ty):
        if ty[0] != 'adt':
            return
        if ty[1] == GUARD:
            s = S(st, fld(v, 'shared'))
            while s.t == 'clone':
                s = S(st, s.a[0])
            self.cov['guards created'] += 1
            self.put(st, 'own', self.g(st, 'own') + (strip(s),))
            if s.t == 'sym' and s.a[0] == 'arc':
                if s in self.g(st, 'used'):
                    self.bad(e, st, 'again', 'a second guard is created for one load')
                self.put(st, 'used', self.g(st, 'used') + (s,))
                return
            if not self.g(st, 'ch', 0):
                self.bad(e, st, 'unchosen', 'a guard for an existing load is created by a caller that was not chosen to take it over')
                return
            self.put(st, 'ch', 0)
            for k, n in st.vars.items():
                if n == 'Loading' and k.t == 'fld' and k.a[2] == self.LF and k.a[0].t == 'locked' and has(s, k.a[0]):
                    return
            self.bad(e, st, 'state', 'a guard is created although the load is not known to be still pending')

    def on_tx(self, e, st, key, tx):
        for it in tx.items:
            if it.ic == 'pend' and it.fc == 'pend':
                a, b = (S(st, fld(fld(x, '0', 'Placeholder'), 'shared')) for x in (it.icont, it.fcont))
                if a is not b and it.icont is not it.fcont and strip(a) is not strip(b):
                    self.bad(e, st, 'swapped', 'a pending load is replaced by another one')
            elif it.ic == 'pend' and self.entry.kind in WAITS + JOINS:
                # only who has the right to load may take the pending load away: nobody else may let a second one begin
                s = strip(S(st, fld(fld(it.icont, '0', 'Placeholder'), 'shared')))
                self.cov['pending loads ended'] += 1
                if s not in self.g(st, 'own') and not self.g(st, 'wasch', 0):
                    self.bad(e, st, 'withdrawn', 'a pending load is taken away by a caller that does not have the right to load')


# ---------------------------------------------------------------------------------------------- C17
@rule
class C17(Proto):
    pid = 'C17'
    rule = ('dropping an unused guard ends, on every path, with one waiter told and the load still pending, or with the '
            'pending load withdrawn (or found displaced) under one hold of the shard lock in which its waiter list is known '
            'empty; the flag that disables this is set only after publishing; every pending load that is created is owned by a '
            'guard before user code runs or the operation ends')

    def wants(self, entry):
        return entry.kind in SYNCOPS + LOADS + ('uguard.drop', 'uguard.insert', 'uguard.insert_with_lifecycle')

    def lost(self, e, st, code, msg):
        if self.entry.kind in ('guard.drop',) + JOINS:
            self.bad(e, st, code, msg)

    def told(self, e, st, x):
        d = held(st, STATE, 'w')
        if d and self.loading(e, st, d[-1].a[3]) == 'Inserted':
            return
        self.put(st, 'handed', 1)
        self.cov['loads handed on'] += 1

    def release_state(self, e, st, g):
        if g.a[1] != 'w' or st.unwinding:
            return
        c, l, w = self.state(e, st, g)
        if l.t == 'agg' and l.a[1] == 'Inserted':
            self.put(st, 'pub', 1)
        if self.g(st, 'handed', 0) and l.t == 'agg' and l.a[1] != 'Loading':
            self.bad(e, st, 'state', 'the load is handed to a waiter but not left pending')
        d = held(st, SHD, 'w')
        if d and e.decide(st, e.vempty(w)) is True:
            self.put(st, 'emp', (d[-1].a[3],))

    def on_event(self, e, st, ev):
        self.follow(e, st, ev)
        if ev.k in ('map_hit', 'map_miss', 'slab_get', 'slab_vacant', 'map_iterend') and held(st, SHD, 'w'):
            self.put(st, 'looked', (held(st, SHD, 'w')[-1].a[3],))
        elif ev.k == 'forget' and any(y.t == 'agg' and y.a[0] in (GUARD, UGUARD) for y in subterms(ev.d[0])):
            self.bad(e, st, 'forget', 'a guard is forgotten, so its load is never handed on')
        elif ev.k == 'usercall' and self.entry.kind in LOADS and self.g(st, 'newp'):
            self.bad(e, st, 'unowned', 'user code runs while no guard owns the pending load')
        elif ev.k == 'slab_remove' and self.g(st, 'handed', 0):
            self.bad(e, st, 'both', 'the load is handed to a waiter and withdrawn as well')

    def on_store(self, e, st, root, path, v):
        Proto.on_store(self, e, st, root, path, v)
        if v is TRUE and path and issync(self.entry):
            f = field_of(e, GUARD, lambda t: t[0] == 'bool', 'inserted')
            if path[-1][1] == f and root.t in ('L', 'D') and self.isguard(e, st, root, path[:-1]) and not self.g(st, 'pub', 0):
                self.bad(e, st, 'flag', 'the guard is marked as used before its value is published')

    def isguard(self, e, st, root, path):
        v = e.rd(st, root, path)
        return v.t == 'agg' and v.a[0] == GUARD or v in (mk('sym', 'self', 0), mk('deref', mk('sym', 'self', 0))) or \
            v.t == 'agg' and v.a[2] in (mk('sym', 'self', 0), mk('deref', mk('sym', 'self', 0)))

    def on_agg(self, e, st, v, ty):
        if ty[0] == 'adt' and ty[1] in (GUARD,):
            s = strip(S(st, fld(v, 'shared')))
            self.put(st, 'own', self.g(st, 'own') + (s,))
            self.put(st, 'newp', tuple(x for x in self.g(st, 'newp') if x is not s))

    def on_tx(self, e, st, key, tx):
        sync = key.a[0].t == 'lkd'
        for it in tx.items:
            if it.fc == 'pend' and (it.ic != 'pend'):
                self.cov['pending loads created'] += 1
                if sync:
                    s = strip(S(st, fld(fld(it.fcont, '0', 'Placeholder'), 'shared')))
                    if s not in self.g(st, 'own'):
                        self.put(st, 'newp', self.g(st, 'newp') + (s,))
                elif tx.final:
                    self.put(st, 'upend', 1)
            if it.ic == 'pend' and it.fc != 'pend' and not sync:
                u = st.auto.get('utok')
                if u is not None and (it.tok is S(st, u)):
                    self.put(st, 'uwd', 1)

    def before_release(self, e, st, g):
        Proto.before_release(self, e, st, g)
        if g.a[2] != SHD or g.a[1] != 'w' or st.unwinding:
            return
        root = g.a[3]
        gs = self.gsh(e, st)
        if gs is None:
            return
        if self.g(st, 'emp') == (root,) and self.g(st, 'looked') == (root,):
            sh = st.sh.get(mk('shk', root, ()))
            left = False
            if sh is not None:
                for tok, rec in sh.recs.items():
                    if not rec.occ and not rec.inmap:
                        continue
                    c = e.rd(st, e.slot(sh, tok))
                    if e.known_variant(st, c) == 'Placeholder' and strip(S(st, fld(fld(c, '0', 'Placeholder'), 'shared'))) is gs:
                        left = True
            if left:
                self.bad(e, st, 'left', 'the pending load of a dropped guard stays in the cache although nobody waits for it')
            else:
                self.put(st, 'wd', 1)
                self.cov['loads withdrawn'] += 1

    def gsh(self, e, st):
        if self.entry.kind == 'guard.drop':
            return strip(S(st, st.auto['gsh'])) if 'gsh' in st.auto else None
        o = self.g(st, 'own')
        return o[-1] if o else None

    def on_exit(self, e, st, kind, v):
        k = self.entry.kind
        if k == 'guard.drop' and kind == 'return':
            self.cov['guards dropped'] += 1
            if not self.g(st, 'handed', 0) and not self.g(st, 'wd', 0):
                self.bad(e, st, 'stranded', 'a guard is dropped without handing its load on or withdrawing it')
        if k == 'uguard.drop' and kind == 'return':
            self.cov['guards dropped'] += 1
            if not self.g(st, 'uwd', 0):
                self.bad(e, st, 'stranded', 'a guard is dropped without withdrawing its pending load')
        if self.g(st, 'newp'):
            self.bad(e, st, 'unowned', 'a pending load is left behind without a guard')
        if self.g(st, 'upend', 0) and not (kind == 'return' and v is not None and any(y.t == 'agg' and y.a[0] == UGUARD for y in subterms(v))):
            self.bad(e, st, 'unowned', 'a pending load is left behind without a guard (%s)' % ('the loader panicked' if st.auto.get('loader_panic') else kind))


# ---------------------------------------------------------------------------------------------- C18
@rule
class C18(Proto):
    pid = 'C18'
    rule = ('a waiter is registered under the shard lock under which its load was found; a wait that ends without its flag seen '
            'set removes its own registration in the critical section in which it saw the flag still unset; a dropped future '
            'that was chosen passes the load on; a task reported pending is registered with the waker of that poll')

    def setup(self, e, st):
        self.names(e)

    def lost(self, e, st, code, msg):
        if self.entry.kind == 'join.drop' or code in ('untold',) and self.entry.kind in WAITS:
            self.bad(e, st, code, msg)

    def sect(self, st):
        d = held(st, STATE, 'w')
        return d[-1].a[3] if d else None

    def pushed(self, e, st, loc, w):
        self.put(st, 'reg', 1)
        sh = held(st, SHD)
        if not sh:
            self.bad(e, st, 'unlocked', 'a waiter is registered without holding the shard lock')
            return
        ents = [y for y in subterms(loc.a[0].a[0]) if y.t == 'lkd' and y.a[1] == SHD]
        if ents and not any(y is l.a[3] for y in ents for l in sh):
            self.bad(e, st, 'relocked', 'the shard lock was given up between finding the load and registering for it')

    def dereg(self, e, st, ev, x, own):
        if not own:
            self.bad(e, st, 'other', 'a registration that is not known to be this caller\'s own is removed')
            return
        if self.g(st, 'unset') != (self.sect(st),):
            self.bad(e, st, 'unchecked', 'the registration is removed without checking, under the same lock, that the waiter was not chosen meanwhile')
        self.put(st, 'reg', 0)
        self.put(st, 'dereg', 1)

    def on_event(self, e, st, ev):
        self.follow(e, st, ev)
        if ev.k == 'aload':
            self.put(st, 'ld', (ev.d[1],))
        elif ev.k == 'armw' and ev.d[1] == 'swap':
            self.put(st, 'ld', (ev.d[2],))
        elif ev.k == 'dtor' and ev.d[0] == GUARD:
            self.put(st, 'passed', 1)
        elif ev.k == 'clone_from':
            r = ev.d[0].a[0]
            if r.t == 'lkd' and r.a[1] == TASKW and self.iscx(ev.d[1]):
                self.put(st, 'ref', (r,))

    def iscx(self, v):
        return any(y.t == 'waker' for y in subterms(v))

    def on_store(self, e, st, root, path, v):
        Proto.on_store(self, e, st, root, path, v)
        if root.t == 'lkd' and root.a[1] == TASKW and path and path[-1][1] == self.KF and self.iscx(v):
            self.put(st, 'ref', (root,))

    def on_bool(self, e, st, b, val):
        ld = self.g(st, 'ld', None)
        tw = b.t == 'fld' and b.a[2] == self.NF and b.a[0].t == 'locked' and b.a[0].a[2] == TASKW
        if ld and ld[0] is b or tw:
            if val:
                self.put(st, 'ch', 1)
                self.put(st, 'reg', 0)
            elif self.sect(st) is not None:
                self.put(st, 'unset', (self.sect(st),))
            if tw and not val:
                l = held(st, TASKW)
                if l:
                    self.put(st, 'tws', (l[-1].a[3],))
        elif b.t == 'call' and b.a[0] == 'will_wake' and val:
            l = held(st, TASKW)
            if l:
                self.put(st, 'ref', (l[-1].a[3],))

    def on_variant(self, e, st, v, name):
        if v.t == 'fld' and v.a[2] == self.LF and v.a[0].t == 'locked' and v.a[0].a[2] == STATE:
            if name in ('Inserted', 'Terminated') and self.g(st, 'ch', 0):
                self.put(st, 'resolved', 1)

    def on_agg(self, e, st, v, ty):
        if ty[0] == 'adt' and ty[1] == TASKW:
            self.cov['task waiters created'] += 1
            if not self.iscx(S(st, fld(v, self.KF))):
                self.bad(e, st, 'waker', 'a task is registered with a waker that is not the one it was polled with')
            if S(st, fld(v, self.NF)) is TRUE:
                self.bad(e, st, 'born', 'a task waiter is created as already chosen')

    def on_exit(self, e, st, kind, v):
        k = self.entry.kind
        if kind != 'return' or st.unwinding:
            return
        if k == 'get_value_or_guard' and v is not None and v.t == 'agg':
            self.cov['waits ended: ' + str(v.a[1])] += 1
            if self.g(st, 'reg', 0):
                self.bad(e, st, 'stale:' + str(v.a[1]), 'a wait ends while its registration may still be on the list')
            if v.a[1] == 'Timeout' and self.g(st, 'ch', 0):
                self.bad(e, st, 'swallowed', 'a waiter that was chosen to take over the load reports a timeout')
        elif k == 'join.poll' and v is not None and v.t == 'agg':
            if v.a[1] == 'Pending':
                self.cov['polls pending'] += 1
                ok_ = self.g(st, 'reg', 0) or self.g(st, 'ref') and self.g(st, 'ref') == self.g(st, 'tws')
                if not ok_:
                    self.bad(e, st, 'pending', 'a poll reports pending without a registration that wakes the latest waker')
        elif k == 'join.drop':
            d = mk('deref', mk('sym', 'self', 0))
            var = e.variant(st, d)
            w = fld(d, 'waiter', 'Pending')
            wv = e.known_variant(st, w)
            if isinstance(var, str) and var != 'Pending' or isinstance(var, tuple) and 'Pending' in var[1] or wv == 'None':
                self.cov['futures dropped while not waiting'] += 1
                return
            self.cov['futures dropped while waiting'] += 1
            if self.g(st, 'dereg', 0) or self.g(st, 'ch', 0) and (self.g(st, 'passed', 0) or self.g(st, 'resolved', 0)):
                return
            self.bad(e, st, 'swallowed' if self.g(st, 'ch', 0) else 'stale', 'a dropped future that was chosen does not pass the load on' if self.g(st, 'ch', 0) else 'a dropped future leaves its registration behind')


# ---------------------------------------------------------------------------------------------- C19
@rule
class C19(Rule):
    pid = 'C19'
    cfgs = ('rel', 'nodef')
    more_cfgs = ('default', 'rel', 'nodef', 'stats')
    only = ('get_value_or_guard', 'get_or_insert_with')
    rule = ('a wait ends with a timeout only on paths where a timeout was given and is known not to exceed the time elapsed since '
            'before the first wait, with the flag seen unset under the load\'s lock; an unlimited wait happens only without a '
            'timeout, and a limited one lasts what remains of it')

    def wants(self, entry):
        return issync(entry) and entry.kind in self.only

    def on_event(self, e, st, ev):
        if ev.k == 'now' and not st.auto.get('c19n'):
            if not st.auto.get('c19p'):
                st.auto['c19n'] = ev.d[0]
        elif ev.k == 'aload':
            st.auto['c19l'] = ev.d[1]
        elif ev.k == 'park':
            to = mk('sym', 'timeout', 0)
            if self.entry.kind != 'get_value_or_guard':
                if ev.d[0] is not None:
                    self.bad(e, st, 'limit', 'a wait without a timeout is limited in time')
                return
            var = e.known_variant(st, to)
            self.cov['waits'] += 1
            if ev.d[0] is None:
                if var != 'None':
                    self.bad(e, st, 'unlimited', 'waits without limit although a timeout was given')
            else:
                if var != 'Some':
                    self.bad(e, st, 'limited', 'a wait without a timeout is limited in time')
                else:
                    d = S(st, ev.d[0])
                    t = fld(to, '0', 'Some')
                    n0 = st.auto.get('c19n')
                    first = not st.auto.get('c19p')
                    ok_ = d is I(0) or first and d is t
                    if not ok_ and n0 is not None:
                        for a in lin(d)[1]:
                            if a.t == 'sym' and a.a[0] == 'now' and d is sub(add(t, n0), a):
                                ok_ = True
                    if not ok_:
                        self.bad(e, st, 'duration', 'waits for %s instead of what remains of the timeout' % show(d)[:80])
            st.auto['c19p'] = 1

    def on_bool(self, e, st, b, val):
        if st.auto.get('c19l') is b and not val and held(st, STATE):
            st.auto['c19u'] = held(st, STATE)[-1].a[3]

    def on_exit(self, e, st, kind, v):
        if kind != 'return' or v is None or v.t != 'agg' or v.a[1] != 'Timeout':
            return
        self.cov['timeouts'] += 1
        to = mk('sym', 'timeout', 0)
        if e.known_variant(st, to) != 'Some':
            self.bad(e, st, 'none', 'reports a timeout although none was given')
            return
        t = fld(to, '0', 'Some')
        n0 = st.auto.get('c19n')
        nows = {a for l in st.les for a in lin(l)[1] if a.t == 'sym' and a.a[0] == 'now'}
        if n0 is None or not any(e.prove_le(st, sub(add(t, n0), a)) for a in nows if a is not n0):
            if e.decide(st, b_eqn(t, I(0))) is not True:
                self.bad(e, st, 'early', 'reports a timeout without having established that the time has elapsed')
        if not st.auto.get('c19u'):
            self.bad(e, st, 'resolved', 'reports a timeout without checking, under the load\'s lock, that the load is unresolved')


# ---------------------------------------------------------------------------------------------- C20
@rule
class C20(Rule):
    pid = 'C20'
    only = ('guard.insert', 'guard.insert_with_lifecycle', 'guard.drop')
    rule = ('an operation on a guard changes a shard only if it changes the slot that holds the very pending load of that guard; '
            'it fails only after establishing that this load is not there any more, and then it changed nothing; otherwise it '
            'consumed that load')

    def wants(self, entry):
        return issync(entry) and entry.kind in self.only

    def on_tx(self, e, st, key, tx):
        gs = strip(S(st, st.auto['gsh']))
        self.cov['transactions'] += 1
        mine = bool(st.auto.get('c20own'))
        for it in tx.items:
            if it.ic == 'pend':
                s = strip(S(st, fld(fld(it.icont, '0', 'Placeholder'), 'shared')))
                if s is gs:
                    mine = True
                    self.cov['own loads consumed'] += 1
                else:
                    self.bad(e, st, 'foreign', 'a guard consumes a pending load that is not known to be its own')
        if mine:
            st.auto['c20own'] = 1
        for it in tx.items:
            if it.ic != 'pend':
                if self.entry.kind == 'guard.drop':
                    self.bad(e, st, 'drop:' + it.ic, 'dropping a guard changes an entry (%s) that is not its pending load' % it.ic)
                elif not mine:
                    self.bad(e, st, 'other:' + it.ic, 'a guard changes the cache (%s) although its own load is not in it' % it.ic)

    def on_exit(self, e, st, kind, v):
        if kind != 'return' or st.unwinding or self.entry.kind == 'guard.drop' or v is None or v.t != 'agg':
            return
        own = st.auto.get('c20own')
        if v.a[1] == 'Ok':
            self.cov['successful inserts'] += 1
            if not own:
                self.bad(e, st, 'ok', 'a guard reports success without having consumed its pending load')
        elif v.a[1] == 'Err':
            self.cov['refused inserts'] += 1
            if own:
                self.bad(e, st, 'err', 'a guard consumed its pending load but reports failure')
            elif strip(S(st, fld(v, '0'))) is not mk('sym', 'value', 0):
                self.bad(e, st, 'value', 'a refused insert does not return the value it was given')
            elif not st.auto.get('c20det'):
                self.bad(e, st, 'attached', 'an insert through a guard fails without having established that its load was displaced')

    def before_release(self, e, st, g):
        # when the shard is given up: is the guard's own load known not to be in its slot?
        if g.a[2] != SHD or self.entry.kind == 'guard.drop':
            return
        gs = strip(S(st, st.auto['gsh']))
        sh = st.sh.get(mk('shk', g.a[3], ()))
        if sh is None:
            return
        tok = S(st, fld(mk('deref', gs), 'idx'))
        for t, rec in sh.recs.items():
            if S(st, t) is not tok:
                continue
            if not rec.occ:
                st.auto['c20det'] = 1
                continue
            c = e.rd(st, e.slot(sh, t))
            var = e.variant(st, c)
            if isinstance(var, str) and var != 'Placeholder' or isinstance(var, tuple) and 'Placeholder' in var[1]:
                st.auto['c20det'] = 1
            elif var == 'Placeholder':
                s = strip(S(st, fld(fld(c, '0', 'Placeholder'), 'shared')))
                if s is not gs and e.decide(st, e.eq_term(s, gs)) is False:
                    st.auto['c20det'] = 1

    def on_event(self, e, st, ev):
        if ev.k in ('slab_get',):
            self.cov['lookups'] += 1
        elif ev.k == 'slab_vacant':
            st.auto['c20det'] = 1
        elif ev.k == 'map_miss':
            st.auto['c20det'] = 1
