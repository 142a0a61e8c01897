"""Rules about hashing and sharding, construction, memory safety, bulk operations, cloning, statistics, loader wrappers."""
from terms import *
from models import strip
from rules import Rule, rule, S, LOADS, INSERTS, GUARDINS, rval, rkey
from rules_sync import SHD, GUARD, UGUARD, issync, held, has

LOOKUPS = ('get', 'get_mut') + LOADS
BENIGN = ('map', 'inspect', 'enumerate', 'rev', 'by_ref', 'fuse', 'peekable', 'copied', 'cloned')


def selfd():
    return mk('deref', mk('sym', 'self', 0))


def uncover(ads):
    """the first adaptor that can leave elements out"""
    for a in ads:
        if a[0] not in BENIGN:
            return a[0]
    return None


# ---------------------------------------------------------------------------------------------- C27
@rule
class C27(Rule):
    pid = 'C27'
    cfgs = ('stats',)
    more_cfgs = ('stats',)
    rule = ('on every path of a lookup exactly one of hits/misses grows, by one: misses iff no value was found and no '
            'pending load existed; every other operation leaves both alone; the reported numbers are those counters')

    def on_store(self, e, st, root, path, v):
        n = [s[1] for s in path if s[0] == 'f' and s[1] in ('hits', 'misses')]
        if not n or root.t == 'L' and len(path) <= 1:
            return
        if st.auto.get('c27new'):
            return
        cur = S(st, e.rd(st, root, path))
        d = sub(S(st, v), cur) if v.t != 'agg' else None
        if d is None or d.t != 'i':
            self.bad(e, st, 'set:' + n[0], '%s is overwritten instead of counted up' % n[0])
            return
        self.cov['counter changes'] += 1
        k = 'c27' + n[0][0]
        st.auto[k] = st.auto.get(k, 0) + d.a[0]

    def on_agg(self, e, st, v, ty):
        if ty[0] == 'adt' and ty[1] == 'shard::Entry' and v.a[1] == 'Placeholder':
            st.auto['c27p'] = 1

    def on_exit(self, e, st, kind, v):
        h, m = st.auto.get('c27h', 0), st.auto.get('c27m', 0)
        k = self.entry.kind
        self.cov['exits'] += 1
        if kind == 'return' and k in ('hits', 'misses'):
            base = fld(selfd(), 'shard')
            if self.entry.label.startswith('unsync') and strip(S(st, v)) is not fld(fld(base, k), 'v') and S(st, v) is not fld(base, k):
                self.bad(e, st, 'report', '%s() does not return the counter' % k)
            elif issync(self.entry) and v.t == 'isum' and not (v.a[1].t == 'fld' and has_fld(v.a[1], k)):
                self.bad(e, st, 'report', '%s() does not add up the counters of the shards' % k)
            return
        looks = k in LOOKUPS or k == 'join.poll'
        if not looks:
            if h or m:
                self.bad(e, st, 'other', '%s changes the statistics (hits %+d, misses %+d)' % (k, h, m))
            return
        if h + m > 1 or h < 0 or m < 0:
            self.bad(e, st, 'twice', 'one lookup is counted %d times as hit and %d times as miss' % (h, m))
            return
        if kind != 'return' or st.auto.get('oob'):      # the shard index is in range: C21
            return
        if k == 'join.poll':
            if e.known_variant(st, selfd()) != 'Created':
                if h or m:
                    self.bad(e, st, 'repoll', 'polling again counts another lookup')
                return
        if h + m == 0:
            self.bad(e, st, 'uncounted', 'a lookup returns without being counted')
            return
        if k in ('get', 'get_mut'):
            n = e.known_variant(st, v)
            if n is None:
                return
            miss = n == 'None'
        else:
            miss = bool(st.auto.get('c27p'))
        self.cov['lookups'] += 1
        if miss and not m:
            self.bad(e, st, 'as-hit', 'a lookup that found nothing is counted as a hit')
        if not miss and not h:
            self.bad(e, st, 'as-miss', 'a lookup that found a value or a pending load is counted as a miss')


def has_fld(t, name):
    while t.t == 'fld':
        if t.a[2] == name:
            return True
        t = t.a[0]
    return False


# ---------------------------------------------------------------------------------------------- C21
HASH = mk('sym', 'HASH', 0)
SHARDOPS = ('get', 'peek', 'contains_key', 'remove') + INSERTS + ('get_value_or_guard', 'get_value_or_guard_async',
                                                                 'get_or_insert_with', 'get_or_insert_async')
JOIN = 'sync_placeholder::JoinFuture'


@rule
class C21(Rule):
    pid = 'C21'
    rule = ('in every keyed operation the shard index is one and the same bounded function of the hash of the given key, and '
            'the index is searched and extended under that hash; entries are re-hashed, found for removal and indexed under '
            'the hash of their own key; loads remember the hash and the shard of their key')

    def shardref(self, st, r):
        """index into the shard array, if the reference designates a shard"""
        if r.t != 'ref':
            return None
        ix = [s for s in r.a[1] if s[0] == 'i']
        return S(st, ix[-1][1]) if ix else None

    def derive(self, e, st, idx):
        from rules_items import key_terms
        kt = key_terms(self.entry)
        hs = {s for s in subterms(idx) if s.t == 'H'}
        want = S(st, e.H(strip(kt)))
        self.cov['shard choices'] += 1
        if hs != {want}:
            self.bad(e, st, 'shard-key', 'the shard is not chosen by the hash of the given key: %s' % show(idx)[:160])
            return
        pat = rewrite(idx, {want: HASH}, {})
        self.facts.setdefault('pat:' + show(pat), '')
        if not self.bounded(pat):
            self.bad(e, st, 'range', 'the shard number %s is not limited to the existing shards' % show(idx)[:160])

    def bounded(self, p):
        if p.t == 'op' and p.a[0] in ('BitAnd', 'Rem'):
            for x in p.a[1:]:
                x = strip(x)
                n = lenof(x)
                if p.a[0] == 'BitAnd' and (x.t == 'fld' and x.a[2] == 'shards_mask' or n is not None and x is sub(mk('len', n), I(1))):
                    return True
                if p.a[0] == 'Rem' and x is p.a[2] and x.t == 'len':
                    return True
            return any(isinstance(x, T) and x.t == 'op' and self.bounded(x) for x in p.a[1:] if p.a[0] == 'BitAnd')
        if p.t == 'op' and p.a[0] == 'min':
            return any(self.bounded(x) for x in p.a[1:])
        return False

    def on_event(self, e, st, ev):
        k = self.entry.kind
        if ev.k in ('slice_get', 'slice_index', 'slice_unchecked') and issync(self.entry) and k in SHARDOPS:
            if isshards(ev.d[0]):
                self.derive(e, st, S(st, ev.d[1]))
        elif ev.k == 'map_lookup':
            h = S(st, ev.d[2])
            self.cov['index searches'] += 1
            if h.t in ('op', 'lin') and any(s.t == 'H' for s in subterms(h)):
                self.bad(e, st, 'search', 'the index is searched under %s, which is not a hash of a key' % show(h)[:120])
            elif h.t == 'H' and ev.d[1] in ('find', 'find_mut', 'iter_hash') and self.keyed():
                from rules_items import key_terms
                kt = key_terms(self.entry)
                if h is not S(st, e.H(strip(kt))) and not self.foreign(st, h):
                    self.bad(e, st, 'search-key', 'the index is searched for the given key under %s' % show(h)[:120])
        elif ev.k == 'rehash':
            self.cov['re-hashed entries'] += 1
            if not ev.d[-1]:
                self.bad(e, st, 'rehash:' + ev.d[1], 'when the index grows, a %s entry gets the hash %s instead of %s' % (ev.d[1], show(ev.d[2])[:80], show(ev.d[3])[:80]))
        elif ev.k == 'hash_mismatch':
            self.bad(e, st, 'mismatch', 'an entry indexed under %s is looked for under %s' % (show(ev.d[2])[:80], show(ev.d[3])[:80]))

    def keyed(self):
        from rules_items import KEYED
        return self.entry.kind in KEYED

    def foreign(self, st, h):
        """the hash of the key of some stored entry (an eviction victim)"""
        return any(s.t == 'ent' for s in subterms(h))

    def on_tx(self, e, st, key, tx):
        if not tx.final or st.unwinding:
            return
        for it in tx.items:
            self.cov['slot changes'] += 1
            for c, m in it.prob:
                if c == 'hash':
                    self.bad(e, st, 'hash:%s>%s' % (it.ic, it.fc), m)

    def on_agg(self, e, st, v, ty):
        if ty[0] != 'adt':
            return
        if ty[1] == JOIN and v.a[1] == 'Created':
            h, k, sh = S(st, fld(v, 'hash')), fld(v, 'key'), fld(v, 'shard')
            self.cov['asynchronous loads'] += 1
            if k.t == 'ref':
                kv = S(st, e.load(st, k))
                if h is not S(st, e.H(strip(kv))):
                    self.bad(e, st, 'join-hash', 'an asynchronous load remembers %s as the hash of its key' % show(h)[:100])
            ix = self.shardref(st, sh)
            if ix is not None and h not in subterms(ix):
                self.bad(e, st, 'join-shard', 'an asynchronous load remembers a shard that is not the one of its key')
        elif ty[1] == GUARD:
            sh = S(st, fld(v, 'shard'))
            ls = held(st, SHD)
            if sh.t == 'ref' and ls:
                self.cov['guards'] += 1
                for l in ls:
                    lk = l.a[0]
                    if lk.t == 'ref' and not (lk.a[0] is sh.a[0] and lk.a[1][:len(sh.a[1])] == sh.a[1]):
                        self.bad(e, st, 'guard-shard', 'a guard remembers a shard other than the one its pending load is in')

    @classmethod
    def conclude(cls, results, progs):
        by = {}
        for r in results:
            for k in r['facts']:
                if k.startswith('pat:'):
                    by.setdefault(k[4:], []).append('%s (%s)' % (r['label'], r['cfg']))
        if len(by) > 1:
            most = max(by, key=lambda k: len(by[k]))
            odd = [k for k in by if k != most]
            return [{'code': 'disagree', 'entry': by[k][0].split(' ')[0], 'cfg': '*', 'fn': by[k][0], 'at': None, 'n': 1,
                     'msg': 'chooses the shard by %s, other operations by %s' % (k[:150], most[:150]),
                     'trace': ['%s: %s' % (p, ', '.join(x)) for p, x in by.items()]} for k in odd]
        return []


def isshards(r):
    t = show(r)
    return '.shards' in t


def lenof(x):
    if x.t == 'lin':
        for s in subterms(x):
            if s.t == 'len':
                return s.a[0]
    return None


# ---------------------------------------------------------------------------------------------- C22
BUILD = ('new', 'with', 'with_weighter', 'with_options')
AGGR = {'len': ('num_hot', 'num_cold'), 'weight': ('weight_hot', 'weight_cold'), 'capacity': ('weight_capacity',),
        'hits': ('hits',), 'misses': ('misses',)}
OPTS = ('shards', 'hot_allocation', 'ghost_allocation', 'estimated_items_capacity', 'weight_capacity')


def atoms(t):
    """names of the inputs a term is made of"""
    out = set()
    for s in subterms(t):
        if s.t == 'sym':
            out.add(s.a[0])
        elif s.t == 'fld' and s.a[2] in OPTS:
            out.add(s.a[2])
        elif s.t == 'const':
            out.add(str(s.a[0]).split('::')[-1])
    return out


def ceildiv(t, n):
    """c if t is c divided by n, rounded up"""
    if t.t == 'op' and t.a[0] == 'div_ceil' and t.a[2] is n:
        return t.a[1]
    if t.t == 'op' and t.a[0] == 'Div' and t.a[2] is n:
        x = t.a[1]
        if x.t == 'op' and x.a[0] == 'satadd':
            for a, b in ((1, 2), (2, 1)):
                if x.a[a] is sub(n, I(1)):
                    return x.a[b]
            return None
        # a plain addition overflows for capacities near the maximum
        return None
    if n is I(1):
        return t
    return None


def covers(st, n):
    """is a loop or an iterator over 0..n, or over all of the shards, run to its end on this path? None: no loop at all"""
    res = None
    for ev in st.events():
        src = None
        if ev.k == 'iterall':
            src, ads = ev.d[1], ev.d[2]
        elif ev.k == 'exhausted':
            src, ads = ev.d
        if src is None:
            continue
        if src.a[0] == 'range':
            r = src.a[1]
            if fld(r, 'start') is I(0) and (n is None or S(st, fld(r, 'end')) is n) and not str(r.a[0]).endswith('Inclusive') and uncover(ads) is None:
                return True
            res = False
        elif src.a[0] == 'slice' and isshards(src.a[1]) and n is None:
            if uncover(ads) is None and 'subslice' not in show(src.a[1]):
                return True
            res = False
    return res


@rule
class C22(Rule):
    pid = 'C22'
    cfgs = ('stats',)
    rule = ('every constructor builds mask + 1 shards, a power of two, each with the capacity divided by that number and '
            'rounded up and with the configured weighter, hasher, lifecycle and allocations; the options builder passes '
            'each option on; aggregate queries add up the right counters over all shards')

    def wants(self, entry):
        return entry.kind in BUILD + tuple(AGGR) + ('is_empty', 'num_shards', 'shard_capacity', 'opt.build') + tuple('opt.' + o for o in OPTS)

    def on_exit(self, e, st, kind, v):
        if kind != 'return' or v is None:
            return
        k = self.entry.kind
        if k.startswith('opt.'):
            self.options(e, st, k[4:], v)
        elif k in BUILD:
            if issync(self.entry):
                self.sharded(e, st, v)
            else:
                self.cov['caches built'] += 1
                self.shard(e, st, fld(v, 'shard'), I(1), None)
        elif issync(self.entry):
            self.aggregate(e, st, k, v)
        elif k == 'capacity':
            self.cov['aggregate queries'] += 1
            if S(st, v) is not fld(fld(selfd(), 'shard'), 'weight_capacity'):
                self.bad(e, st, 'capacity', 'capacity() returns %s' % show(v)[:80])

    def sharded(self, e, st, v):
        mask = S(st, fld(v, 'shards_mask'))
        n = add(mask, I(1))
        if not e.is_pow2(st, n):
            self.bad(e, st, 'pow2', 'the number of shards, %s, is not known to be a power of two' % show(n)[:100])
            return
        self.cov['caches built'] += 1
        c = covers(st, n)
        if c is False:
            self.bad(e, st, 'number', 'the number of shards built is not the mask plus one')
        vec = fld(v, 'shards')
        elems = []
        if vec.t == 'vec':
            elems = list(vec.a[1])
            if vec.a[0] is not None and vec.a[0].t == 'gen':
                elems.append(vec.a[0].a[0])
        for x in elems:
            y = fld(fld(x, '0'), 'v') if x.t == 'agg' and 'RwLock' in str(x.a[0]) else x
            if y.t == 'agg' and y.a[0] == SHD:
                self.shard(e, st, y, n, v)

    def shard(self, e, st, s, n, cache):
        if s.t != 'agg' or s.a[0] != SHD:
            return
        self.cov['shards built'] += 1
        g = lambda f: S(st, fld(s, f))     # noqa: E731
        w = g('weight_capacity')
        c = ceildiv(w, n)
        at = atoms(c) if c is not None else set()
        want = {'options', 'weight_capacity'} if self.entry.kind == 'with_options' else {'items_capacity'} if self.entry.kind == 'new' else {'weight_capacity'}
        if c is None or c.t not in ('fld', 'sym', 'op', 'call') or at != want:
            self.bad(e, st, 'weight', 'the capacity of a shard is %s, not the requested capacity divided by %s and rounded up' % (show(w)[:140], show(n)[:60]))
        hot = atoms(g('weight_target_hot'))
        gh = atoms(g('capacity_non_resident'))
        if self.entry.kind == 'with_options':
            if 'hot_allocation' not in hot or 'ghost_allocation' in hot or w not in subterms(g('weight_target_hot')):
                self.bad(e, st, 'hot', 'the hot share of a shard is computed from %s' % ', '.join(sorted(hot)))
            if 'ghost_allocation' not in gh or 'hot_allocation' in gh or 'estimated_items_capacity' not in gh:
                self.bad(e, st, 'ghost', 'the ghost capacity of a shard is computed from %s' % ', '.join(sorted(gh)))
        else:
            if 'DEFAULT_HOT_ALLOCATION' in gh or 'DEFAULT_GHOST_ALLOCATION' in hot:
                self.bad(e, st, 'defaults', 'the hot and ghost shares are mixed up')
            if self.entry.kind in ('with', 'with_weighter') and ('estimated_items_capacity' not in gh or 'weight_capacity' in gh):
                self.bad(e, st, 'items', 'the ghost capacity of a shard is computed from %s' % ', '.join(sorted(gh)))
        for f in ('weighter', 'hash_builder', 'lifecycle'):
            x = strip(g(f))
            y = strip(S(st, fld(cache, f))) if cache is not None and f != 'weighter' else None
            if y is not None and x is not y:
                self.bad(e, st, f, 'a shard has another %s than its cache' % f)
            if self.entry.kind in ('with', 'with_options') and x is not mk('sym', f, 0):
                self.bad(e, st, f, 'the given %s does not reach the shards' % f)
        for f in ('num_hot', 'num_cold', 'num_non_resident', 'weight_hot', 'weight_cold'):
            if g(f) is not I(0):
                self.bad(e, st, 'empty', 'a new shard starts with %s = %s' % (f, show(g(f))[:40]))

    def aggregate(self, e, st, k, v):
        if k == 'num_shards':
            if not (v.t == 'len' and '.shards' in show(v)) and v is not add(fld(selfd(), 'shards_mask'), I(1)):
                self.bad(e, st, k, 'num_shards() returns %s' % show(v)[:80])
            return
        self.cov['aggregate queries'] += 1
        if k == 'shard_capacity':
            if not (v.t == 'fld' and v.a[2] == 'weight_capacity'):
                self.bad(e, st, k, 'shard_capacity() returns %s' % show(v)[:80])
            return
        c = covers(st, None)
        if k == 'is_empty':
            if v is TRUE and c is not True:
                self.bad(e, st, k, 'says empty without having looked at every shard')
            return
        if k != 'capacity' and c is None or c is False:
            self.bad(e, st, 'cover', '%s() does not go over every shard' % k)
            return
        if v.t == 'isum':
            el = S(st, v.a[1])
            base = {x.a[0] for x in subterms(el) if x.t == 'fld' and x.a[2] in AGGR[k] and x.a[0].t == 'locked'}
            ok_ = False
            for b in base:
                want = I(0)
                for f in AGGR[k]:
                    x = fld(b, f)
                    want = add(want, fld(x, 'v') if k in ('hits', 'misses') else x)
                if el is want:
                    ok_ = True
            if not ok_:
                self.bad(e, st, 'sum', '%s() adds up %s' % (k, show(el)[:120]))

    def options(self, e, st, name, v):
        s = selfd()
        if name == 'build':
            n = e.known_variant(st, v)
            self.cov['option builds'] += 1
            if n == 'Err':
                if all(e.known_variant(st, fld(s, f)) == 'Some' for f in ('weight_capacity', 'estimated_items_capacity')):
                    self.bad(e, st, 'refused', 'build() fails although both capacities are set')
                return
            o = fld(v, '0', 'Ok')
            for f in OPTS:
                x = S(st, fld(o, f))
                given = e.known_variant(st, fld(s, f))
                if given == 'Some' and x is not fld(fld(s, f), '0', 'Some'):
                    self.bad(e, st, 'build:' + f, 'build() sets %s to %s' % (f, show(x)[:80]))
                if given is None and fld(s, f) not in subterms(x):
                    self.bad(e, st, 'build:' + f, 'build() ignores %s' % f)
                if given == 'None' and f in ('weight_capacity', 'estimated_items_capacity'):
                    self.bad(e, st, 'unset:' + f, 'build() succeeds although %s is not set' % f)
                if given == 'None' and any(y.t == 'fld' and y.a[0] is s and y.a[2] in OPTS for y in subterms(x)):
                    self.bad(e, st, 'default:' + f, '%s defaults to %s' % (f, show(x)[:80]))
                if given == 'None' and f.endswith('_allocation') and ('HOT' in show(x)) != (f == 'hot_allocation') and 'DEFAULT' in show(x):
                    self.bad(e, st, 'default:' + f, '%s defaults to %s' % (f, show(x)[:80]))
            return
        self.cov['option setters'] += 1
        root = mk('D', mk('sym', 'self', 0))
        for f in OPTS:
            x = S(st, e.rd(st, root, (F(f),)))
            if f == name:
                if not (x.t == 'agg' and x.a[1] == 'Some' and S(st, fld(x, '0')) is S(st, mk('sym', 'value', 0))):
                    self.bad(e, st, 'set:' + f, 'setting %s stores %s' % (f, show(x)[:80]))
            elif x is not fld(s, f):
                self.bad(e, st, 'set:' + f, 'setting %s changes %s' % (name, f))


# ---------------------------------------------------------------------------------------------- C25
def entof(e, st, src, x):
    """the entry an iterator element designates"""
    if src.a[0] == 'mapiter' and x.t == 'ref':
        t = S(st, e.load(st, x))
        sh = st.sh.get(src.a[1])
        return S(st, e.rd(st, e.slot(sh, t))) if sh is not None else None
    if src.a[0] == 'slabiter' and x.t == 'ref':
        return S(st, e.rd(st, x.a[0], x.a[1]))
    if src.a[0] == 'slabdrain':
        return x
    return None


@rule
class C25(Rule):
    pid = 'C25'
    only = ('retain', 'clear', 'drain', 'iter')
    rule = ('retain asks its predicate about every resident entry of every shard and removes exactly those it rejects; clear '
            'and drain leave index, store, lists and counters empty before they return; iterators pass over all entries of '
            'the store and yield key and value of the resident ones, and only those')
    FILT = BENIGN + ('filter', 'filter_map', 'flat_map', 'flatten')
    ENTS = ('mapiter', 'slabiter', 'slabdrain')

    def isshardsrc(self, src):
        if src.a[0] == 'slice':
            return isshards(src.a[1])
        if src.a[0] == 'range':
            return '.shards' in show(fld(src.a[1], 'end'))
        return False

    def on_event(self, e, st, ev):
        k = self.entry.kind
        if ev.k == 'elem':
            src, ads, x = ev.d
            if self.isshardsrc(src):
                self.pending(e, st)
                st.auto['c25s'] = 1
            elif src.a[0] in ('mapiter', 'slabiter'):
                c = entof(e, st, src, x)
                if c is not None:
                    st.auto['c25c'] = c
                    st.auto['c25f'] = ev.fn
        elif ev.k in ('iterall', 'exhausted'):
            src, ads = ev.d[-2:]
            if self.isshardsrc(src):
                if ev.k == 'exhausted':
                    self.pending(e, st)
                if uncover(ads) is None and not (src.a[0] == 'range' and fld(src.a[1], 'start') is not I(0)) and not (src.a[0] == 'slice' and 'subslice' in show(src.a[1])):
                    st.auto['c25S'] = 1
            elif src.a[0] in self.ENTS and k == 'retain':
                w = [a[0] for a in ads if a[0] not in self.FILT]
                if w or ev.k == 'iterall' and ev.d[0] not in ('collect', 'for_each'):
                    self.bad(e, st, 'partial', 'not every entry is looked at (%s)' % (w[0] if w else ev.d[0]))
                st.auto['c25E'] = 1
                st.auto.pop('c25s', None)
                self.cov['entry scans'] += 1
        elif ev.k == 'filtered' and k == 'retain':
            c = st.auto.get('c25c')
            if c is not None:
                n = e.known_variant(st, c)
                self.cov['entries left out: ' + str(n)] += 1
                if n in (None, 'Resident') and st.auto.get('c25q') is not c:
                    self.bad(e, st, 'unasked', 'a resident item is kept without asking the predicate')

    def on_backedge(self, e, st, fr, bb):
        c = st.auto.get('c25c')
        if c is None or self.entry.kind != 'retain' or st.auto.get('c25f') != fr.fn.path:
            return
        st.auto.pop('c25c')
        if st.auto.get('c25q') is not c and e.known_variant(st, c) in (None, 'Resident'):
            self.bad(e, st, 'unasked', 'a resident item is kept without asking the predicate')

    def pending(self, e, st):
        if st.auto.pop('c25s', None):
            self.bad(e, st, 'skipped', 'a shard is passed over without %s' % ('being cleared' if self.entry.kind == 'clear' else 'its entries being looked at'))

    def on_bool(self, e, st, b, val):
        if self.entry.kind != 'retain':
            return
        if b.t == 'call' and b.a[0] == 'userfn':
            es = {s for s in subterms(b) if s.t == 'ent'}
            if len(es) == 1:
                c = es.pop()
                self.cov['predicate answers'] += 1
                st.auto['c25q'] = c
                args = b.a[1]
                if len(args) >= 3 and (S(st, args[1]) is not rkey(c) or S(st, args[2]) is not rval(c)):
                    self.bad(e, st, 'args', 'the predicate is not given key and value of one item')
                if not val:
                    st.auto['c25n'] = c

    def on_tx(self, e, st, key, tx):
        k = self.entry.kind
        if st.unwinding:
            return
        if k == 'retain':
            for it in tx.items:
                if it.ic not in ('hot', 'cold'):
                    if it.ic in ('pend', 'ghost') and it.fc != it.ic:
                        self.bad(e, st, 'other', 'retain changes an entry that is not resident')
                    continue
                if it.fc in ('hot', 'cold') and rval(it.fcont) is rval(it.icont):
                    continue
                self.cov['removals'] += 1
                if st.auto.get('c25n') is not it.icont:
                    self.bad(e, st, 'removed', 'an item is removed that the predicate did not reject')
                elif it.fc == 'free':
                    st.auto.pop('c25n')
        elif k in ('clear', 'drain') and tx.final:
            self.cov['shards emptied'] += 1
            sh = st.sh.get(key)
            r, p = key.a
            probs = []
            if not tx.drained:
                probs.append('its store')
            if sh is not None and not sh.mapcleared:
                probs.append('its index')
            for n in ('num_hot', 'num_cold', 'num_non_resident', 'weight_hot', 'weight_cold'):
                if S(st, tx.cur.get(n, I(0))) is not I(0):
                    probs.append(n)
            for n in ('hot_head', 'cold_head', 'ghost_head'):
                if e.known_variant(st, e.rd(st, r, p + (F(n),))) != 'None':
                    probs.append(n)
            if probs:
                self.bad(e, st, 'left', 'after %s, %s is not empty' % (k, ', '.join(probs)))
            st.auto.pop('c25s', None)
            st.auto['c25E'] = 1

    def on_exit(self, e, st, kind, v):
        k = self.entry.kind
        if kind != 'return':
            return
        self.cov['exits'] += 1
        if k in ('retain', 'clear'):
            self.pending(e, st)
            if issync(self.entry):
                if not st.auto.get('c25S'):
                    self.bad(e, st, 'shards', '%s returns without having gone over every shard' % k)
            elif not st.auto.get('c25E'):
                self.bad(e, st, 'nothing', '%s returns without having touched the entries' % k)
        if k == 'retain' and st.auto.get('c25n') is not None:
            self.bad(e, st, 'kept', 'an item the predicate rejected is kept')
        if k == 'drain' and not st.auto.get('c25E'):
            self.bad(e, st, 'nothing', 'drain returns without having emptied the cache')
        if k in ('drain', 'iter') and v.t == 'it':
            self.iterator(e, st, v)

    def iterator(self, e, st, v):
        from engine import Engine
        src, ads = v.a
        k = self.entry.kind
        if src.a[0] not in self.ENTS:
            return
        w = [a[0] for a in ads if a[0] not in self.FILT]
        if w:
            self.bad(e, st, 'partial', 'the iterator does not pass over every entry (%s)' % w[0])
            return
        rule_ = self
        e2 = Engine(e.p, [], dict(e.opts))
        from engine import Monitor

        class M(Monitor):
            def on_event(self, e_, s, ev):
                if ev.k == 'elem' and ev.d[0].a[0] in rule_.ENTS:
                    s.auto['c25c'] = entof(e_, s, ev.d[0], ev.d[2])
        e2.mon = [M()]

        def probe(s, src_, ads_, x, skipped):
            c = s.auto.get('c25c')
            if c is None:
                return
            n = e2.known_variant(s, c)
            rule_.cov['elements: %s %s' % (n, 'left out' if skipped else 'yielded')] += 1
            if skipped or x is None:
                if n in (None, 'Resident'):
                    rule_.bad(e, s, 'missing', 'a resident item is left out')
                return
            if n != 'Resident':
                rule_.bad(e, s, 'extra', 'an entry that is not known to be resident is yielded')
                return
            a, b = S(s, fld(x, '0')), S(s, fld(x, '1'))
            a = e2.rd(s, a.a[0], a.a[1]) if a.t == 'ref' else a
            b = e2.rd(s, b.a[0], b.a[1]) if b.t == 'ref' else b
            if S(s, a) is not S(s, rkey(c)) or S(s, b) is not S(s, rval(c)):
                rule_.bad(e, s, 'pair', 'the pair yielded is not key and value of the entry: %s' % show(x)[:120])
        e2.probe = probe
        s = st.copy()
        s.exitk = None
        s.unwinding = False
        work = e2.istep(e2, s, src, ads, ('probe', None, (None, None, None, None, None, None)))
        while work:
            x = work.pop()
            r = e2.run(x)
            if r:
                work.extend(r)


# ---------------------------------------------------------------------------------------------- C26
CLONED = ('unsync::Cache', 'shard::CacheShard', 'shard::Resident', 'shard::Placeholder', 'shard::Entry', 'shard::ResidentState',
          'linked_slab::LinkedSlab', 'linked_slab::Entry', 'unsync::SharedPlaceholder')
SHARING = ('alloc::rc::Rc', 'alloc::sync::Arc', 'alloc::rc::Weak', 'alloc::sync::Weak')


@rule
class C26(Rule):
    pid = 'C26'
    cfgs = ('stats',)
    more_cfgs = ('stats', 'rel')
    only = ('clone',)
    rule = ('the clone functions of the cache and of everything it stores return a value each of whose fields is a copy or '
            'clone of the same field of the original; no type stored in the cache shares state between copies')

    def same(self, e, st, new, old, path=''):
        """-> None or the name of the first field that differs"""
        new = strip(S(st, new))
        old = S(st, old)
        if new is old or new is strip(old):
            return None
        if new.t == 'agg':
            if new.a[1] is not None and e.known_variant(st, old) not in (new.a[1], None):
                return path or 'variant'
            if new.a[1] is not None and e.known_variant(st, old) is None:
                return path or 'variant'
            for f, x in new.a[3]:
                r = self.same(e, st, x, fld(old, f, new.a[1]), path + '.' + str(f))
                if r is not None:
                    return r
            return None
        if new.t in ('moved', 'uninit'):
            return path
        return path or '(value)'

    def on_exit(self, e, st, kind, v):
        if kind != 'return':
            return
        self.cov['clones'] += 1
        r = self.same(e, st, v, selfd())
        if r is not None:
            self.bad(e, st, 'field:' + r, 'the clone does not take over %s' % r)

    @classmethod
    def conclude(cls, results, progs):
        out = []
        for c, p in progs.items():
            seen = set()

            def walk(t, path):
                if t is None or not isinstance(t, tuple):
                    return
                if t[0] in ('ptr', 'ref') or t[0] == 'adt' and t[1] in SHARING:
                    out.append({'code': 'shared:' + path, 'entry': 'unsync::Cache', 'cfg': c, 'fn': None, 'at': None, 'n': 1, 'trace': [],
                                'msg': 'copies of the cache share state through %s' % path})
                    return
                if t[0] == 'adt':
                    if t[1] == 'core::marker::PhantomData':
                        return
                    for x in t[2]:
                        walk(x, path)
                    a = p.adts.get(t[1])
                    if a is not None and a.local and t[1] not in seen and not t[1].startswith('sync'):
                        seen.add(t[1])
                        for vn, fs in variants(a):
                            for f, ft in fs:
                                walk(ft, path + '.' + f)
                elif t[0] in ('tuple', 'slice', 'array'):
                    for x in t[2]:
                        walk(x, path)
            walk(('adt', 'unsync::Cache', ()), 'cache')
        return out


def variants(a):
    return [(v, [(f, t) for f, t, _ in fs]) for v, _, fs in a.variants]


# ---------------------------------------------------------------------------------------------- C30
@rule
class C30(Rule):
    pid = 'C30'
    only = ('get_or_insert_with', 'get_mut_or_insert_with', 'get_or_insert_async')
    rule = ('on every path the loader is run at most once, only after a guard for the load was obtained; its value is the one '
            'offered to the cache and returned, its error is returned; without running it the call returns a value')

    def isloader(self, ev):
        return ev.k == 'usercall' and any(s is mk('sym', 'with', 0) for s in subterms(ev.d[1]))

    def on_event(self, e, st, ev):
        if self.isloader(ev):
            self.cov['loader runs'] += 1
            again = ev.d[0] == 'future' and st.auto.get('c30f') is ev.d[1]
            if ev.d[0] == 'future':
                st.auto['c30f'] = ev.d[1]
            if st.auto.get('c30n') and not again:
                self.bad(e, st, 'twice', 'the loader is run more than once')
            st.auto['c30n'] = 1
            if not st.auto.get('c30g'):
                self.bad(e, st, 'ungranted', 'the loader is run although the load was not granted')
        elif ev.k == 'on_evict' and st.auto.get('c30n'):
            self.offered(e, st, ev.d[-1], False)

    def fromloader(self, st, x):
        from rules_items import unbe
        x = strip(unbe(strip(S(st, x)))[0])
        return x.t == 'fld' and x.a[1] == 'Ok' and x.a[0].t == 'call' and x.a[0].a[0] in ('userfn', 'userfut')

    def offered(self, e, st, x, strict=True):
        if self.fromloader(st, x):
            st.auto['c30o'] = 1
            self.cov['values offered'] += 1
        elif strict and not any(s.t in ('ent', 'locked', 'lkd') for s in subterms(S(st, x))):
            self.bad(e, st, 'value', 'something other than the loaded value is offered to the cache: %s' % show(x)[:100])

    def on_tx(self, e, st, key, tx):
        for it in tx.items:
            if it.fc in ('hot', 'cold') and self.fromloader(st, rval(it.fcont)):
                st.auto['c30own'] = it.tok

    def on_agg(self, e, st, v, ty):
        if ty[0] != 'adt':
            return
        if ty[1] in (GUARD, UGUARD):
            st.auto['c30g'] = 1
        elif ty[1] == 'sync_placeholder::LoadingState' and v.a[1] == 'Inserted':
            self.offered(e, st, fld(v, '0'))
        elif ty[1] == 'shard::Resident':
            self.offered(e, st, fld(v, 'value'))

    def on_exit(self, e, st, kind, v):
        if kind != 'return':
            return
        self.cov['exits'] += 1
        n = e.known_variant(st, v)
        ran = st.auto.get('c30n')
        if n == 'Err':
            x = S(st, fld(v, '0', 'Err'))
            if not ran:
                self.bad(e, st, 'error', 'an error is returned although the loader was not run')
            elif not (x.t == 'fld' and x.a[1] == 'Err' and x.a[0].t == 'call' and x.a[0].a[0] in ('userfn', 'userfut')):
                self.bad(e, st, 'error', 'the error returned is not the one of the loader: %s' % show(x)[:100])
            return
        if n != 'Ok':
            return
        if not ran:
            self.cov['found without loading'] += 1
            if not issync(self.entry) and e.known_variant(st, S(st, fld(v, '0', 'Ok'))) != 'Some':
                self.bad(e, st, 'lost', 'the call neither runs the loader nor returns the value it found')
            return
        if not st.auto.get('c30o'):
            self.bad(e, st, 'unoffered', 'the loaded value is not offered to the cache')
        x = S(st, fld(v, '0', 'Ok'))
        if issync(self.entry):
            if not self.fromloader(st, x):
                self.bad(e, st, 'returned', 'the value returned is not the loaded one: %s' % show(x)[:100])
            return
        if e.known_variant(st, x) != 'Some':
            return
        from rules_items import C03, part
        for c in C03.slots(C03(), e, st, x):
            self.cov['references returned'] += 1
            q = part(strip(S(st, rval(c))))
            own = c if c.t == 'ent' else q[0] if q is not None else None
            if own is not None and own.t == 'ent' and st.auto.get('c30own') is S(st, own.a[1]):
                continue
            if not self.fromloader(st, rval(c)):
                self.bad(e, st, 'returned', 'the reference returned does not designate the loaded value: %s' % show(rval(c))[:100])
