"""Entry points of the analysis: what a user can call, and the states it can be called in."""
from terms import *
from mir import tsubst, tshow
from engine import State, Monitor, Engine
from shard import Rec

CACHES = ('sync::Cache', 'unsync::Cache')
GUARD = 'sync_placeholder::PlaceholderGuard'
UGUARD = 'unsync::Guard'
JOIN = 'sync_placeholder::JoinFuture'
REFMUT = 'shard::RefMut'


def public_methods(p, adt, names=None):
    out = []
    for f in p.local_fns():
        if f.kind not in ('AssocFn', 'Fn') or f.impl_self is None or f.impl_self[0] != 'adt' or f.impl_self[1] != adt:
            continue
        if f.impl_trait is None and f.vis != 'Public':
            continue
        if f.impl_trait is not None and f.impl_trait.startswith('core::fmt'):
            continue
        if names is None or f.name in names:
            out.append(f)
    return out


def arg_value(name, ty):
    if ty[0] in ('ref', 'ptr'):
        return ref(mk('D', mk('sym', name, 0)))
    if ty[0] == 'adt' and ty[1] == 'core::pin::Pin':
        return ref(mk('D', mk('sym', name, 0)))
    return mk('sym', name, 0)


# names of the arguments by position, so that nothing depends on what the source calls them
ARGS = {'insert': ('key', 'value'), 'insert_with_lifecycle': ('key', 'value'), 'replace': ('key', 'value', 'soft'),
        'replace_with_lifecycle': ('key', 'value', 'soft'), 'guard.insert': ('value',), 'guard.insert_with_lifecycle': ('value',),
        'uguard.insert': ('value',), 'uguard.insert_with_lifecycle': ('value',), 'get_value_or_guard': ('key', 'timeout'),
        'get_or_insert_with': ('key', 'with'), 'get_mut_or_insert_with': ('key', 'with'), 'get_or_insert_async': ('key', 'with'),
        'retain': ('f',), 'join.poll': ('cx',), 'with_options': ('weighter', 'hash_builder', 'lifecycle'),
        'with': ('weight_capacity', 'weighter', 'hash_builder', 'lifecycle'), 'with_weighter': ('weight_capacity', 'weighter')}
FIRST = {'new': 'items_capacity', 'with_weighter': 'estimated_items_capacity', 'with': 'estimated_items_capacity', 'with_options': 'options'}
for _k in ('contains_key', 'get', 'peek', 'get_mut', 'peek_mut', 'remove', 'get_value_or_guard_async', 'get_ref_or_guard', 'get_mut_or_guard'):
    ARGS[_k] = ('key',)
for _k in ('shards', 'hot_allocation', 'ghost_allocation', 'estimated_items_capacity', 'weight_capacity'):
    ARGS['opt.' + _k] = ('value',)


ARGS.update({'slab.insert': ('item',), 'slab.get': ('idx',), 'slab.get_mut': ('idx',), 'slab.get_unchecked': ('idx',),
             'slab.get_mut_unchecked': ('idx',), 'slab.link': ('idx', 'head'), 'slab.unlink': ('idx',), 'slab.remove': ('idx',)})
SLABT = 'linked_slab::LinkedSlab'


class Entry:
    """one analysed entry: a function and the abstract state it starts in"""
    def __init__(self, label, fn, kind, setup=None, body=None):
        self.label = label
        self.fn = fn
        self.kind = kind        # op name, e.g. insert, get, guard.insert
        self.setup = setup
        self.body = body        # coroutine body
        self.opts = {}

    def state(self, eng):
        st = State()
        fn = self.fn
        args = []
        for i in range(1, fn.argc + 1):
            ty, nm = fn.locals[i]
            an = ARGS.get(self.kind, ())
            nm = FIRST.get(self.kind, 'self') if i == 1 else an[i - 2] if i - 2 < len(an) else nm or 'arg%d' % i
            args.append(arg_value(nm, ty))
        if self.body is not None:
            cap = self.capture(eng, args)
            eng.push(st, self.body, [cap, fresh('resume')], {}, None, None)
        else:
            eng.push(st, fn, args, {}, None, None)
        if self.setup:
            self.setup(eng, st, args)
        return st

    def capture(self, eng, args):
        """the coroutine value the async function returns"""
        box = []

        class Cap(Monitor):
            def on_exit(self, e, st, kind, v):
                box.append(v)
        e2 = Engine(eng.p, [Cap()], {})
        st = State()
        e2.push(st, self.fn, args, {}, None, None)
        e2.explore(st)
        return box[0]


def mem_self(st, args):
    r = args[0]
    return r.a[0], r.a[1]


def field_of(eng, adt, pred, default):
    a = eng.p.adts.get(adt)
    if a is not None:
        fs = [f for f, t, _ in a.fields() if t is not None and pred(t)]
        if len(fs) == 1:
            return fs[0]
    return default


def isbool(t):
    return t[0] == 'bool'


def setup_guard(eng, st, args):
    """a loading guard in the hands of the user has not been used yet"""
    s = mk('sym', 'self', 0)
    if args[0].t == 'ref':
        v = mk('deref', s)
    else:
        v = s
    st.bools[fld(v, field_of(eng, GUARD, isbool, 'inserted'))] = False
    st.auto['gsh'] = fld(v, 'shared')


def setup_uguard(eng, st, args):
    s = mk('sym', 'self', 0)
    v = mk('deref', s) if args[0].t == 'ref' else s
    st.bools[fld(v, field_of(eng, UGUARD, isbool, 'inserted'))] = False
    plh = fld(v, 'placeholder')
    cref = ref(mk('D', fld(v, 'cache')))
    key = mk('shk', cref.a[0], (F('shard'),))
    sh = eng.get_sh(st, key)
    tok = fld(plh, 'idx')
    r = Rec(tok, eng.ent(sh, tok))
    r.ring = None
    sh.recs[tok] = r
    sh.live.add(tok)
    en = r.init
    eng.assume_variant(st, en, 'Placeholder')
    eng.unify(st, fld(fld(en, '0', 'Placeholder'), 'shared'), plh)
    st.auto['utok'] = tok
    st.auto['ukey'] = key


def setup_join(eng, st, args):
    """a future that was not polled yet carries the hash of its own key (checked where it is created)"""
    v = mk('deref', mk('sym', 'self', 0))
    eng.unify(st, fld(v, 'hash', 'Created'), eng.H(mk('deref', fld(v, 'key', 'Created'))))


def setup_refmut(eng, st, args):
    v = mk('deref', mk('sym', 'self', 0))
    key = mk('shk', mk('D', fld(v, 'cache')), ())
    sh = eng.get_sh(st, key)
    tok = fld(v, 'idx')
    r = Rec(tok, eng.ent(sh, tok))
    r.acct = fld(v, 'old_weight')
    r.mod = True
    sh.recs[tok] = r
    sh.live.add(tok)
    eng.assume_variant(st, r.init, 'Resident')


def all_entries(p):
    out = []
    for adt in CACHES:
        for f in public_methods(p, adt):
            k = f.name
            body = p.fns.get(f.path + '::{closure#0}')
            isasync = body is not None and body.locals[1][0][0] == 'coroutine' and is_async(f)
            out.append(Entry('%s::%s' % (adt, f.name), f, k, None, body if isasync else None))
    for f in public_methods(p, GUARD):
        # constructors are reached through the cache methods
        if f.name in ('start_loading', 'join') or f.impl_trait and not f.impl_trait.endswith('Drop'):
            continue
        out.append(Entry('%s::%s' % (GUARD, f.name), f, 'guard.' + f.name, setup_guard))
    for f in public_methods(p, UGUARD):
        if f.impl_trait and not f.impl_trait.endswith('Drop'):
            continue
        out.append(Entry('%s::%s' % (UGUARD, f.name), f, 'uguard.' + f.name, setup_uguard))
    for f in public_methods(p, JOIN):
        if f.name in ('poll', 'drop'):
            out.append(Entry('%s::%s' % (JOIN, f.name), f, 'join.' + f.name, setup_join))
    for f in public_methods(p, REFMUT):
        if f.name == 'drop':
            out.append(Entry('%s::drop' % REFMUT, f, 'refmut.drop', setup_refmut))
    for f in p.local_fns():
        if f.kind == 'AssocFn' and f.impl_self is not None and f.impl_self[0] == 'adt' and f.impl_self[1] == REFMUT and f.name != 'drop' \
                and f.argc >= 1 and f.locals[1][0][0] == 'ref' and not (f.impl_trait or '').startswith('core::fmt'):
            out.append(Entry('%s::%s' % (REFMUT, f.name), f, 'refmut.use', setup_refmut))
    for adt in ('shard::CacheShard', 'shard::Resident', 'shard::Placeholder', 'shard::Entry', 'shard::ResidentState',
                'linked_slab::LinkedSlab', 'linked_slab::Entry', 'unsync::SharedPlaceholder'):
        for f in public_methods(p, adt, ('clone',)):
            out.append(Entry('%s::clone' % adt, f, 'clone'))
    for f in public_methods(p, SLABT):
        if f.impl_trait is None and f.name not in ('validate', 'len', 'iter_entries'):
            en = Entry('%s::%s' % (SLABT, f.name), f, 'slab.' + f.name)
            en.opts = {'slab': False}
            out.append(en)
    for f in public_methods(p, 'options::OptionsBuilder'):
        if f.impl_trait is None and f.name != 'new':
            out.append(Entry('options::OptionsBuilder::' + f.name, f, 'opt.' + f.name))
    return out


def is_async(f):
    for b in f.bbs:
        for s in b['s']:
            if s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'coroutine':
                return True
    return False


# kept for the debugging tools
def entry_state(eng, fn, over=None):
    return Entry(fn.path, fn, fn.name).state(eng)
