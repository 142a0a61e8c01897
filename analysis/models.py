"""Meaning of the standard-library and user-trait calls the crate makes."""
from terms import *
from mir import tsubst, tshow

POLL = 'core::task::poll::Poll'
CF = 'core::ops::control_flow::ControlFlow'
VECNEW = mk('vec', None, ())


def strip(v):
    while v.t in ('clone', 'owned'):
        v = v.a[0]
    return v


def clone_of(v):
    if v.t in ('i', 'lin', 'ref', 'fnv', 'clone', 'const'):
        return v
    if v.t == 'sym' and v.a[0] in ('arc', 'tok', 'num'):
        return v
    return mk('clone', v)


def tyname(t):
    return t[1] if t and t[0] == 'adt' else None


def is_atomic_ty(t):
    n = tyname(t)
    return n is not None and 'tomic' in n.rsplit('::', 1)[-1]


def atomic(v):
    return agg('atomic', None, {'v': v})


def generic(eng, info, i):
    a = info.c.get('a') or []
    if i < 0:
        i += len(a)
    if 0 <= i < len(a):
        return tsubst(eng.p.ty(a[i]), info.env)
    return None


def default_of(eng, ty):
    n = tyname(ty)
    if ty is None:
        return None
    if n == OPT:
        return NONE
    if n in ('alloc::vec::Vec', 'alloc::collections::vec_deque::VecDeque'):
        return VECNEW
    if is_atomic_ty(ty):
        return atomic(I(0))
    if ty[0] in ('prim', 'bool'):
        return I(0)
    if n and n.endswith('PhantomData'):
        return UNIT
    if ty[0] == 'tuple' and not ty[2]:
        return UNIT
    return None


def install(eng):
    M = eng.models

    def model(*paths):
        def d(f):
            for p in paths:
                M[p] = f
            return f
        return d

    # ------------------------------------------------------------ continuations used by the engine
    K = eng.khandlers
    K['goto'] = lambda e, st, ka, v: e.gotos(st, ka[0])
    K['finish'] = lambda e, st, ka, v: e.finish(st, ka[0], v)
    K['finishval'] = lambda e, st, ka, v: e.finish(st, ka[0], ka[1])

    def k_dropfields(e, st, ka, v):
        root, path, adtn, ty, k = ka
        val = e.rd(st, root, path)
        adt = e.p.adts.get(adtn)
        return e.drop_fields_of(st, val, (root, path), adt, ty, k)
    K['dropfields'] = k_dropfields

    def k_dropmore(e, st, ka, v):
        items, k = ka
        return e.drop_fields(st, list(items), k)
    K['dropmore'] = k_dropmore

    # ------------------------------------------------------------ mem
    @model('core::mem::replace')
    def _(e, st, a, cx, info):
        r, p = e.deref(st, a[0])
        old = e.rd(st, r, p)
        e.store(st, r, p, a[1])
        return e.finish(st, cx, old)

    @model('core::mem::take')
    def _(e, st, a, cx, info):
        r, p = e.deref(st, a[0])
        old = e.rd(st, r, p)
        d = default_of(e, generic(e, info, 0))
        e.store(st, r, p, d if d is not None else mk('call', 'default', (), 0))
        return e.finish(st, cx, old)

    @model('core::mem::swap')
    def _(e, st, a, cx, info):
        r, p = e.deref(st, a[0])
        r2, p2 = e.deref(st, a[1])
        x, y = e.rd(st, r, p), e.rd(st, r2, p2)
        e.store(st, r, p, y)
        e.store(st, r2, p2, x)
        return e.finish(st, cx, UNIT)

    @model('core::mem::drop')
    def _(e, st, a, cx, info):
        return e.drop_value(st, a[0], None, generic(e, info, 0), ('K', 'finish', (cx,)))

    @model('core::mem::forget')
    def _(e, st, a, cx, info):
        e.emit(st, 'forget', a[0])
        return e.finish(st, cx, UNIT)

    @model('core::mem::manually_drop::ManuallyDrop::<T>::new')
    def _(e, st, a, cx, info):
        e.emit(st, 'forget', a[0])
        return e.finish(st, cx, agg('mdrop', None, {'value': a[0]}))

    @model('core::mem::maybe_uninit::MaybeUninit::<T>::uninit')
    def _(e, st, a, cx, info):
        return e.finish(st, cx, agg('mu', None, {'v': UNINIT}))

    @model('core::mem::maybe_uninit::MaybeUninit::<T>::new')
    def _(e, st, a, cx, info):
        return e.finish(st, cx, agg('mu', None, {'v': a[0]}))

    @model('core::mem::maybe_uninit::MaybeUninit::<T>::write')
    def _(e, st, a, cx, info):
        r, p = e.deref(st, a[0])
        e.store(st, r, p, agg('mu', None, {'v': a[1]}))
        return e.finish(st, cx, ref(r, p + (F('v'),)))

    @model('core::mem::maybe_uninit::MaybeUninit::<T>::assume_init', 'core::mem::maybe_uninit::MaybeUninit::<T>::assume_init_read')
    def _(e, st, a, cx, info):
        v = e.load(st, a[0]) if a[0].t == 'ref' else a[0]
        x = fld(v, 'v')
        if x.t == 'uninit':
            e.emit(st, 'ub', 'reads memory that was never initialised')
            return []
        return e.finish(st, cx, x)

    @model('core::option::Option::<T>::unwrap_unchecked', 'core::result::Result::<T, E>::unwrap_unchecked')
    def _(e, st, a, cx, info):
        n = info.c.get('rpath') or info.c['path']
        good = 'Some' if 'option' in n else 'Ok'
        out = []
        for s2, nm in e.split_variant(st, a[0], e.p.adts[OPT if good == 'Some' else 'core::result::Result']):
            if nm == good:
                out += e.finish(s2, cx, fld(a[0], '0', good))
            else:
                e.emit(s2, 'ub', 'unwraps something that may be absent without checking')
        return out

    @model('core::hint::unreachable_unchecked')
    def _(e, st, a, cx, info):
        e.emit(st, 'ub', 'reaches unreachable_unchecked')
        return []

    # ------------------------------------------------------------ Arc / Box / Pin / deref
    @model('alloc::rcs::arc::Arc::<T>::new', 'alloc::sync::Arc::<T>::new', 'alloc::rcs::rc::Rc::<T>::new')
    def _(e, st, a, cx, info):
        x = fresh('arc')
        st.mem[mk('D', x)] = a[0]
        return e.finish(st, cx, x)

    @model('alloc::rcs::arc::Arc::<T, A>::ptr_eq', 'alloc::sync::Arc::<T, A>::ptr_eq', 'core::ptr::eq')
    def _(e, st, a, cx, info):
        x, y = e.load(st, a[0]), e.load(st, a[1])
        if info.c['path'] == 'core::ptr::eq':
            x, y = a[0], a[1]
        return [s3 for s2, r in e.branch(st, e.eq_term(x, y)) for s3 in e.finish(s2, cx, I(int(r)))]

    @model('alloc::boxed::Box::<T>::new')
    def _(e, st, a, cx, info):
        x = fresh('box')
        st.mem[mk('D', x)] = a[0]
        return e.finish(st, cx, x)

    @model('core::pin::Pin::<Ptr>::new_unchecked', 'core::pin::Pin::<Ptr>::new', 'core::pin::Pin::<&'"'"'a mut T>::get_unchecked_mut',
           'core::pin::Pin::<&'"'"'a mut T>::get_mut', 'core::pin::Pin::<Ptr>::into_inner')
    def _(e, st, a, cx, info):
        return e.finish(st, cx, a[0])

    @model('core::pin::Pin::<Ptr>::as_mut', 'core::pin::Pin::<Ptr>::as_ref')
    def _(e, st, a, cx, info):
        v = e.load(st, a[0])
        return e.finish(st, cx, v if v.t == 'ref' else ref(mk('D', v)))

    def deref_model(e, st, a, cx, info):
        n = tyname(info.selfty) or ''
        v = e.load(st, a[0])
        if n.startswith('alloc::vec::Vec'):
            return e.finish(st, cx, a[0])
        if v.t == 'guard':
            return e.finish(st, cx, ref(v.a[3]))
        if n.endswith('Arc') or n.endswith('Box') or n.endswith('::Rc'):
            return e.finish(st, cx, ref(mk('D', v)))
        if n.endswith('Pin'):
            return e.finish(st, cx, v if v.t == 'ref' else ref(mk('D', v)))
        if n.endswith('ManuallyDrop'):
            return e.finish(st, cx, ref(a[0].a[0], a[0].a[1] + (F('value'),)))
        if info.selfty and info.selfty[0] in ('ref',):
            return e.finish(st, cx, v)
        if 'Guard' in n and n.split('::')[0] in ('lock_api', 'std', 'shuttle', 'parking_lot'):
            return e.finish(st, cx, ref(mk('D', v)))
        return NotImplemented

    def ty_trait(e, st, a, cx, info):
        c = info.c
        tr = c.get('trait')
        if tr is None:
            return NotImplemented
        f = TRAITS.get((tr, c['name']))
        if f is None:
            return NotImplemented
        return f(e, st, a, cx, info)
    eng.tymodels.append(ty_trait)
    TRAITS = {}
    eng.traits = TRAITS

    def tmodel(tr, *names):
        def d(f):
            for n in names:
                TRAITS[(tr, n)] = f
            return f
        return d
    TRAITS[('core::ops::deref::Deref', 'deref')] = deref_model
    TRAITS[('core::ops::deref::DerefMut', 'deref_mut')] = deref_model

    @tmodel('core::convert::AsRef', 'as_ref')
    def _(e, st, a, cx, info):
        return deref_model(e, st, a, cx, info)

    @tmodel('core::borrow::Borrow', 'borrow')
    def _(e, st, a, cx, info):
        return e.finish(st, cx, a[0])

    # ------------------------------------------------------------ clone / owned / default / into
    @tmodel('core::clone::Clone', 'clone')
    def _(e, st, a, cx, info):
        if is_local(e, info):
            return NotImplemented
        n = tyname(info.selfty) or ''
        if n == OPT and (info.c.get('rpath') in e.p.fns):
            return NotImplemented
        v = e.load(st, a[0])
        if n.endswith('Arc') or n.endswith('NonZero') or info.selfty and info.selfty[0] in ('prim', 'bool', 'ref'):
            return e.finish(st, cx, v)
        e.emit(st, 'clone', v, tshow(info.selfty) if info.selfty else '?')
        return e.finish(st, cx, clone_of(v))

    @tmodel('core::clone::Clone', 'clone_from')
    def _(e, st, a, cx, info):
        if is_local(e, info):
            return NotImplemented
        r, p = e.deref(st, a[0])
        v = e.load(st, a[1])
        e.emit(st, 'clone_from', ref(r, p), v)
        e.store(st, r, p, clone_of(v))
        return e.finish(st, cx, UNIT)

    def is_local(e, info):
        if info.c.get('rpath') in e.p.fns and not e.p.fns[info.c['rpath']].ext:
            return True
        if info.selfty is None:
            return False
        im, env = e.p.find_impl(info.c['trait'], info.selfty)
        return im is not None and info.c['name'] in im.methods
    eng.is_local_impl = is_local

    @tmodel('alloc::borrow::ToOwned', 'to_owned')
    def _(e, st, a, cx, info):
        return e.finish(st, cx, mk('owned', strip(e.load(st, a[0]))))

    @tmodel('core::default::Default', 'default')
    def _(e, st, a, cx, info):
        if is_local(e, info):
            return NotImplemented
        ty = info.selfty
        n = tyname(ty) or ''
        d = default_of(e, ty)
        if d is None and n.endswith('Arc'):
            inner = default_of(e, ty[2][0])
            if inner is not None:
                x = fresh('arc')
                st.mem[mk('D', x)] = inner
                d = x
        if d is None:
            d = mk('call', 'default', (mk('const', tshow(ty) if ty else '?', ''),))
        return e.finish(st, cx, d)

    def convert(e, st, v, to):
        if is_atomic_ty(to):
            return atomic(v)
        return v

    @tmodel('core::convert::Into', 'into')
    def _(e, st, a, cx, info):
        to = generic(e, info, 1)
        if to and to[0] == 'adt' and e.p.adts.get(to[1]) is not None and e.p.adts[to[1]].local:
            return NotImplemented
        return e.finish(st, cx, convert(e, st, a[0], to))

    @tmodel('core::convert::From', 'from')
    def _(e, st, a, cx, info):
        if is_local(e, info):
            return NotImplemented
        return e.finish(st, cx, convert(e, st, a[0], info.selfty))

    # ------------------------------------------------------------ comparisons
    def numty(t):
        while t and t[0] == 'ref':
            t = t[2][0]
        return t is not None and (t[0] == 'prim' and t[1] not in ('str',) or tyname(t) in ('core::time::Duration', 'std::time::Instant'))

    def user_key(t):
        while t and t[0] == 'ref':
            t = t[2][0]
        return t is not None and t[0] in ('param', 'alias')

    def deepload(e, st, v):
        v = e.load(st, v)
        n = 0
        while v.t == 'ref' and n < 4:
            v = e.load(st, v)
            n += 1
        return v

    @tmodel('core::cmp::PartialEq', 'eq', 'ne')
    def _(e, st, a, cx, info):
        if is_local(e, info):
            if info.c['name'] == 'eq':
                return NotImplemented
            im, env = e.p.find_impl(info.c['trait'], info.selfty)
            if 'ne' in im.methods:
                return NotImplemented
        x, y = deepload(e, st, a[0]), deepload(e, st, a[1])
        neg = info.c['name'] == 'ne'
        if user_key(info.selfty):
            return bool_finish(e, st, cx, equiv(x, y), neg)
        if numty(info.selfty):
            return bool_finish(e, st, cx, b_eqn(x, y), neg)
        out = []
        for s2, r in e.values_equal(st, x, y):
            out += e.finish(s2, cx, I(int(r != neg)))
        return out

    def bool_finish(e, st, cx, b, neg=False):
        r = e.decide(st, b)
        if r is not None:
            b = I(int(r))
        return e.finish(st, cx, b_not(b) if neg else b)

    def equiv(x, y):
        x, y = strip(x), strip(y)
        if x is y:
            return TRUE
        return mk('equiv', x, y)
    eng.equiv = equiv

    @tmodel('core::cmp::PartialOrd', 'lt', 'le', 'gt', 'ge')
    def _(e, st, a, cx, info):
        if is_local(e, info):
            return NotImplemented
        x, y = deepload(e, st, a[0]), deepload(e, st, a[1])
        b = {'lt': lambda: b_lt(x, y), 'le': lambda: b_le(x, y), 'gt': lambda: b_lt(y, x), 'ge': lambda: b_le(y, x)}[info.c['name']]()
        return bool_finish(e, st, cx, b)

    def minmax(e, st, x, y, mx):
        return [(s2, (x if r != mx else y)) for s2, r in e.branch(st, b_le(x, y))]

    @tmodel('core::cmp::Ord', 'min', 'max')
    def _(e, st, a, cx, info):
        return [s for s2, v in minmax(e, st, a[0], a[1], info.c['name'] == 'max') for s in e.finish(s2, cx, v)]

    @model('core::cmp::min')
    def _(e, st, a, cx, info):
        return [s for s2, v in minmax(e, st, a[0], a[1], False) for s in e.finish(s2, cx, v)]

    @model('core::cmp::max')
    def _(e, st, a, cx, info):
        return [s for s2, v in minmax(e, st, a[0], a[1], True) for s in e.finish(s2, cx, v)]

    INTS = ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'isize')
    for t in INTS:
        pre = 'core::num::<impl %s>::' % t

        @model(pre + 'saturating_add')
        def _(e, st, a, cx, info):
            # kept apart from plain addition: near the maximum the two differ
            if info.c['path'].find('u16') >= 0:
                return e.finish(st, cx, add(a[0], a[1]))
            return e.finish(st, cx, mk('op', 'satadd', a[0], a[1]))

        @model(pre + 'wrapping_add', pre + 'unchecked_add')
        def _(e, st, a, cx, info):
            if a[1] is I(1) and not e.opts.get('slab', True):
                s2 = st.copy()
                return e.finish(st, cx, add(a[0], a[1])) + e.finish(s2, cx, I(0))
            return e.finish(st, cx, add(a[0], a[1]))

        @model(pre + 'wrapping_sub', pre + 'unchecked_sub')
        def _(e, st, a, cx, info):
            return e.finish(st, cx, sub(a[0], a[1]))

        @model(pre + 'saturating_sub')
        def _(e, st, a, cx, info):
            return [s for s2, r in e.branch(st, b_le(a[1], a[0])) for s in e.finish(s2, cx, sub(a[0], a[1]) if r else I(0))]

        @model(pre + 'checked_sub')
        def _(e, st, a, cx, info):
            return [s for s2, r in e.branch(st, b_le(a[1], a[0])) for s in e.finish(s2, cx, some(sub(a[0], a[1])) if r else NONE)]

        @model(pre + 'checked_add')
        def _(e, st, a, cx, info):
            return e.finish(st, cx, some(add(a[0], a[1])))

        @model(pre + 'abs_diff')
        def _(e, st, a, cx, info):
            return [s for s2, r in e.branch(st, b_le(a[1], a[0])) for s in e.finish(s2, cx, sub(a[0], a[1]) if r else sub(a[1], a[0]))]

        @model(pre + 'rotate_right', pre + 'rotate_left', pre + 'next_power_of_two', pre + 'wrapping_mul', pre + 'saturating_mul', pre + 'leading_zeros',
               pre + 'trailing_zeros', pre + 'swap_bytes', pre + 'is_power_of_two', pre + 'div_ceil', pre + 'wrapping_shr', pre + 'count_ones', pre + 'ilog2', pre + 'pow')
        def _(e, st, a, cx, info):
            return e.finish(st, cx, mk('op', info.c['name'], *a))

    # durations behave like numbers
    D_ = 'core::time::Duration::'

    @model(D_ + 'saturating_sub')
    def _(e, st, a, cx, info):
        return [s for s2, r in e.branch(st, b_le(a[1], a[0])) for s in e.finish(s2, cx, sub(a[0], a[1]) if r else I(0))]

    for pre in ('core::f64::<impl f64>::', 'core::f32::<impl f32>::', 'std::f64::<impl f64>::', 'core::f64::', 'std::f64::'):
        for nm in ('clamp', 'min', 'max', 'floor', 'ceil', 'round', 'abs', 'is_nan', 'is_finite', 'is_sign_negative', 'trunc', 'mul_add'):
            @model(pre + nm)
            def _(e, st, a, cx, info):
                x = mk('op', 'f' + info.c['name'], *a)
                return bool_finish(e, st, cx, mk('bool', 'f', x)) if info.c['name'].startswith('is_') else e.finish(st, cx, x)

    @model(D_ + 'checked_sub')
    def _(e, st, a, cx, info):
        return [s for s2, r in e.branch(st, b_le(a[1], a[0])) for s in e.finish(s2, cx, some(sub(a[0], a[1])) if r else NONE)]

    @model(D_ + 'as_nanos', D_ + 'from_nanos')
    def _(e, st, a, cx, info):
        return e.finish(st, cx, deepload(e, st, a[0]))

    @model(D_ + 'is_zero')
    def _(e, st, a, cx, info):
        return e.finish(st, cx, b_eqn(deepload(e, st, a[0]), I(0)))

    @tmodel('core::ops::arith::Sub', 'sub')
    def _(e, st, a, cx, info):
        if is_local(e, info):
            return NotImplemented
        return e.finish(st, cx, sub(a[0], a[1]))

    @tmodel('core::ops::arith::Add', 'add')
    def _(e, st, a, cx, info):
        if is_local(e, info):
            return NotImplemented
        return e.finish(st, cx, add(a[0], a[1]))

    @tmodel('core::ops::arith::AddAssign', 'add_assign')
    def _(e, st, a, cx, info):
        r, p = e.deref(st, a[0])
        e.store(st, r, p, add(e.rd(st, r, p), deepload(e, st, a[1]) if a[1].t == 'ref' else a[1]))
        return e.finish(st, cx, UNIT)

    @tmodel('core::ops::arith::SubAssign', 'sub_assign')
    def _(e, st, a, cx, info):
        r, p = e.deref(st, a[0])
        e.store(st, r, p, sub(e.rd(st, r, p), deepload(e, st, a[1]) if a[1].t == 'ref' else a[1]))
        return e.finish(st, cx, UNIT)

    @model('core::intrinsics::discriminant_value')
    def _(e, st, a, cx, info):
        return e.finish(st, cx, e.discr(st, e.load(st, a[0]), generic(e, info, 0)))

    @model('core::num::nonzero::NonZero::<T>::new')
    def _(e, st, a, cx, info):
        return [s for s2, r in e.branch(st, b_eqn(a[0], I(0))) for s in e.finish(s2, cx, NONE if r else some(a[0]))]

    @model('core::num::nonzero::NonZero::<T>::get', 'core::num::nonzero::NonZero::<T>::new_unchecked')
    def _(e, st, a, cx, info):
        return e.finish(st, cx, a[0])

    # ------------------------------------------------------------ try
    @tmodel('core::ops::try_trait::Try', 'branch')
    def _(e, st, a, cx, info):
        n = tyname(info.selfty)
        v = a[0]
        if n not in (OPT, RES):
            return NotImplemented
        out = []
        for s2, name in e.split_variant(st, v, e.p.adts[n]):
            if name in ('Some', 'Ok'):
                r = agg(CF, 'Continue', {'0': fld(v, '0', name)})
            elif name == 'None':
                r = agg(CF, 'Break', {'0': NONE})
            else:
                r = agg(CF, 'Break', {'0': err(fld(v, '0', 'Err'))})
            out += e.finish(s2, cx, r)
        return out

    @tmodel('core::ops::try_trait::FromResidual', 'from_residual')
    def _(e, st, a, cx, info):
        n = tyname(info.selfty)
        if n == OPT:
            return e.finish(st, cx, NONE)
        if n == RES:
            return e.finish(st, cx, err(fld(a[0], '0', 'Err')))
        return NotImplemented

    @tmodel('core::ops::try_trait::Try', 'from_output')
    def _(e, st, a, cx, info):
        n = tyname(info.selfty)
        if n == OPT:
            return e.finish(st, cx, some(a[0]))
        if n == RES:
            return e.finish(st, cx, ok(a[0]))
        return NotImplemented

    @model('core::option::Option::<&T>::cloned', 'core::option::Option::<&T>::copied', 'core::option::Option::<&mut T>::cloned')
    def _(e, st, a, cx, info):
        out = []
        for s2, name in e.split_variant(st, a[0], e.p.adts[OPT]):
            if name == 'None':
                out += e.finish(s2, cx, NONE)
            else:
                v = e.load(s2, fld(a[0], '0', 'Some'))
                t = generic(e, info, 0)
                if info.c['name'] == 'cloned' and t and t[0] == 'param':
                    e.emit(s2, 'clone', v, tshow(t))
                out += e.finish(s2, cx, some(clone_of(v) if info.c['name'] == 'cloned' else v))
        return out

    # ------------------------------------------------------------ atomics
    def at(e, st, x):
        r, p = e.deref(st, x)
        return r, p + (F('v'),)

    def atomics(e, st, a, cx, info):
        path = info.c['path']
        if 'tomic' not in path or not (path.startswith('core::sync::atomic::') or path.startswith('shuttle::sync::atomic::') or path.startswith('std::sync::atomic')):
            return NotImplemented
        if 'Atomic' not in path:
            return NotImplemented
        n = info.c['name']
        isbool = '<bool>' in path or 'AtomicBool' in path
        if n == 'new':
            return e.finish(st, cx, atomic(a[0]))
        if n == 'into_inner':
            return e.finish(st, cx, fld(a[0], 'v'))
        r, p = at(e, st, a[0])
        if n == 'get_mut':
            return e.finish(st, cx, ref(r, p))
        cur = e.rd(st, r, p)
        if n == 'load':
            if isbool:
                v = e.opaque_result(st, 'aload', [ref(r, p)], None, unique=True)
                e.emit(st, 'aload', ref(r, p), v, show(a[1]) if len(a) > 1 else '')
                return e.finish(st, cx, v)
            e.emit(st, 'aload', ref(r, p), cur, show(a[1]) if len(a) > 1 else '')
            return e.finish(st, cx, cur)
        if n == 'store':
            e.emit(st, 'astore', ref(r, p), a[1], show(a[2]) if len(a) > 2 else '')
            e.store(st, r, p, a[1])
            return e.finish(st, cx, UNIT)
        if n in ('fetch_add', 'fetch_sub', 'swap', 'fetch_or', 'fetch_and', 'fetch_max', 'fetch_min'):
            new = {'fetch_add': lambda: add(cur, a[1]), 'fetch_sub': lambda: sub(cur, a[1]), 'swap': lambda: a[1]}.get(n, lambda: fresh('atomic'))()
            if isbool:
                cur = e.opaque_result(st, 'aload', [ref(r, p)], None, unique=True)
            e.emit(st, 'armw', ref(r, p), n, cur, new)
            e.store(st, r, p, new)
            return e.finish(st, cx, cur)
        if n in ('compare_exchange', 'compare_exchange_weak'):
            out = []
            s2 = st.copy()
            e.emit(s2, 'armw', ref(r, p), n, cur, a[2])
            e.store(s2, r, p, a[2])
            if e.assume(s2, b_eqn(cur, a[1]), True):
                out += e.finish(s2, cx, ok(a[1]))
            out += e.finish(st, cx, err(fresh('atomic')))
            return out
        return NotImplemented
    eng.tymodels.append(atomics)

    # ------------------------------------------------------------ locks
    def lockcls(e, info):
        t = generic(e, info, -1)
        n = tyname(t)
        return n or (tshow(t) if t else '?')

    def locks(e, st, a, cx, info):
        path = info.c['path']
        h = path.split('::')[0]
        if h not in ('lock_api', 'std', 'shuttle', 'parking_lot') or ('RwLock' not in path and 'Mutex' not in path) or 'Guard' in path:
            return NotImplemented
        if 'trait' in info.c:
            return NotImplemented
        n = info.c['name']
        cls = lockcls(e, info)
        poison = h in ('std', 'shuttle')
        if n == 'new':
            return e.finish(st, cx, agg('lockcell', None, {'v': a[0]}))
        if n in ('read', 'write', 'lock', 'upgradable_read'):
            g = e.acquire(st, a[0], 'r' if n == 'read' else 'w', cls)
            return e.finish(st, cx, ok(g) if poison else g)
        if n.startswith('try_'):
            s2 = st.copy()
            g = e.acquire(st, a[0], 'r' if 'read' in n else 'w', cls)
            out = e.finish(st, cx, ok(g) if poison else some(g))
            out += e.finish(s2, cx, err(fresh('trylock')) if poison else NONE)
            return out
        if n == 'into_inner':
            v = fld(a[0], 'v')
            return e.finish(st, cx, ok(v) if poison else v)
        if n == 'get_mut':
            r, p = e.deref(st, a[0])
            v = ref(r, p + (F('v'),))
            return e.finish(st, cx, ok(v) if poison else v)
        return NotImplemented
    eng.tymodels.append(locks)

    # ------------------------------------------------------------ threads, time, tasks
    @model('std::thread::current::current', 'shuttle::thread::current')
    def _(e, st, a, cx, info):
        return e.finish(st, cx, mk('thread_self'))

    @model('std::thread::thread::Thread::id', 'shuttle::thread::Thread::id')
    def _(e, st, a, cx, info):
        return e.finish(st, cx, mk('tid', strip(deepload(e, st, a[0]))))

    @model('std::thread::functions::park', 'shuttle::thread::park')
    def _(e, st, a, cx, info):
        e.emit(st, 'park', None)
        return e.finish(st, cx, UNIT)

    @model('std::thread::functions::park_timeout', 'shuttle::thread::park_timeout', 'std::thread::functions::sleep', 'shuttle::thread::sleep')
    def _(e, st, a, cx, info):
        e.emit(st, 'park', a[0])
        return e.finish(st, cx, UNIT)

    @model('std::thread::functions::yield_now', 'shuttle::thread::yield_now')
    def _(e, st, a, cx, info):
        e.emit(st, 'yieldnow')
        return e.finish(st, cx, UNIT)

    @model('std::thread::thread::Thread::unpark', 'shuttle::thread::Thread::unpark')
    def _(e, st, a, cx, info):
        e.emit(st, 'wake', 'thread', deepload(e, st, a[0]))
        return e.finish(st, cx, UNIT)

    @model('core::task::wake::Waker::wake_by_ref', 'core::task::wake::Waker::wake')
    def _(e, st, a, cx, info):
        e.emit(st, 'wake', 'task', e.load(st, a[0]) if a[0].t == 'ref' else a[0], a[0])
        return e.finish(st, cx, UNIT)

    @model('core::task::wake::Waker::will_wake')
    def _(e, st, a, cx, info):
        return e.finish(st, cx, e.opaque_result(st, 'will_wake', a, None))

    @model("core::task::wake::Context::<'a>::waker")
    def _(e, st, a, cx, info):
        return e.finish(st, cx, ref(mk('D', mk('waker', strip(a[0])))))

    @model('std::time::Instant::now')
    def _(e, st, a, cx, info):
        v = fresh('now')
        e.emit(st, 'now', v)
        return e.finish(st, cx, v)

    @model('std::time::Instant::elapsed')
    def _(e, st, a, cx, info):
        return e.finish(st, cx, sub(fresh('now'), deepload(e, st, a[0])))

    @model('std::time::Instant::saturating_duration_since', 'std::time::Instant::duration_since')
    def _(e, st, a, cx, info):
        if info.c['name'] == 'duration_since':
            return e.finish(st, cx, sub(a[0], a[1]))
        return [s for s2, r in e.branch(st, b_le(a[1], a[0])) for s in e.finish(s2, cx, sub(a[0], a[1]) if r else I(0))]

    @model('std::time::Instant::checked_add')
    def _(e, st, a, cx, info):
        return e.finish(st, cx, some(add(deepload(e, st, a[0]), a[1])))

    @model('std::time::Instant::checked_duration_since')
    def _(e, st, a, cx, info):
        x = deepload(e, st, a[0])
        return [s for s2, r in e.branch(st, b_le(a[1], x)) for s in e.finish(s2, cx, some(sub(x, a[1])) if r else NONE)]

    @model('core::future::get_context')
    def _(e, st, a, cx, info):
        return e.finish(st, cx, ref(mk('D', fresh('cx'))))

    @tmodel('core::future::into_future::IntoFuture', 'into_future')
    def _(e, st, a, cx, info):
        return e.finish(st, cx, a[0])

    @tmodel('core::future::future::Future', 'poll')
    def _(e, st, a, cx, info):
        if is_local(e, info):
            return NotImplemented
        r, p = e.deref(st, a[0])
        v = e.rd(st, r, p)
        if v.t == 'clo' and v.a[0] in e.p.fns:
            fn = e.p.fns[v.a[0]]
            e.store(st, r, p, MOVED)
            st.top()
            e.push(st, fn, [v, fresh('resume')], dict(e.envs(v.a[2])), ('K', 'ready', (cx,)), cx[4])
            return [st]
        e.emit(st, 'usercall', 'future', v, ())
        out = []
        s2 = st.copy()
        out += e.finish(s2, cx, agg(POLL, 'Pending', {}))
        if e.opts.get('unwind', True):
            s3 = st.copy()
            s3.auto['loader_panic'] = True
            out += e.unwind_from(s3, cx[4])
        val = e.opaque_result(st, 'userfut', [v], None, unique=True)
        out += e.finish(st, cx, agg(POLL, 'Ready', {'0': val}))
        return out
    K['ready'] = lambda e, st, ka, v: e.finish(st, ka[0], agg(POLL, 'Ready', {'0': v}))

    # ------------------------------------------------------------ user traits
    @tmodel('core::hash::BuildHasher', 'hash_one')
    def _(e, st, a, cx, info):
        b = deepload(e, st, a[0])
        k = strip(deepload(e, st, a[1]))
        h = e.H(k)
        h = st.sub.get(h, h)
        e.emit(st, 'hash', b, k, h)
        return e.finish(st, cx, h)

    @tmodel('equivalent::Equivalent', 'equivalent')
    def _(e, st, a, cx, info):
        return bool_finish(e, st, cx, equiv(deepload(e, st, a[0]), deepload(e, st, a[1])))

    def W(k, v):
        return mk('W', strip(k), strip(v))
    eng.W = W

    def local_trait(name):
        def d(f):
            LOCAL[name] = f
            return f
        return d
    LOCAL = {}

    def localtraits(e, st, a, cx, info):
        tr = info.c.get('trait')
        if tr is None or info.selfty is None or info.selfty[0] not in ('param', 'alias'):
            return NotImplemented
        f = LOCAL.get((tr.split('::')[-1], info.c['name']))
        if f is None or not info.c.get('local'):
            return NotImplemented
        return f(e, st, a, cx, info)
    eng.tymodels.insert(0, localtraits)

    @local_trait(('Weighter', 'weight'))
    def _(e, st, a, cx, info):
        k, v = deepload(e, st, a[1]), deepload(e, st, a[2])
        w = W(k, v)
        e.emit(st, 'weigh', k, v)
        return e.finish(st, cx, st.sub.get(w, w))

    @local_trait(('Lifecycle', 'is_pinned'))
    def _(e, st, a, cx, info):
        k, v = strip(deepload(e, st, a[1])), strip(deepload(e, st, a[2]))
        return bool_finish(e, st, cx, mk('pin', k, v))

    @local_trait(('Lifecycle', 'before_evict'))
    def _(e, st, a, cx, info):
        r, p = e.deref(st, a[3])
        old = e.rd(st, r, p)
        new = mk('be', old, fresh('hook'))
        k = deepload(e, st, a[2])
        e.emit(st, 'before_evict', a[1], k, old, new)
        e.store(st, r, p, new)
        return e.finish(st, cx, UNIT)

    @local_trait(('Lifecycle', 'on_evict'))
    def _(e, st, a, cx, info):
        e.emit(st, 'on_evict', a[1], a[2], a[3])
        return e.finish(st, cx, UNIT)

    @local_trait(('Lifecycle', 'begin_request'))
    def _(e, st, a, cx, info):
        v = fresh('lcs')
        e.emit(st, 'begin_request', v)
        return e.finish(st, cx, v)

    @local_trait(('Lifecycle', 'end_request'))
    def _(e, st, a, cx, info):
        e.emit(st, 'end_request', a[1])
        return e.finish(st, cx, UNIT)

    # ------------------------------------------------------------ vectors and slices
    def vec_ops(e, st, a, cx, info):
        path = info.c['path']
        if not path.startswith('alloc::vec::Vec::<') or 'trait' in info.c:
            return NotImplemented
        n = info.c['name']
        if n in ('new', 'with_capacity', 'new_in'):
            return e.finish(st, cx, VECNEW)
        if n in ('into_boxed_slice',):
            return e.finish(st, cx, a[0])
        if n in ('reserve', 'shrink_to_fit'):
            return e.finish(st, cx, UNIT)
        if a[0].t != 'ref':
            return NotImplemented
        r, p = e.deref(st, a[0])
        v = e.rd(st, r, p)
        loc = ref(r, p)
        if n == 'push':
            e.emit(st, 'vpush', loc, a[1])
            e.store(st, r, p, vpush(v, a[1]))
            return e.finish(st, cx, UNIT)
        if n in ('is_empty',):
            return bool_finish(e, st, cx, vempty(v))
        if n == 'len':
            return e.finish(st, cx, vlen(v))
        if n in ('as_slice', 'as_mut_slice'):
            return e.finish(st, cx, a[0])
        if n in ('pop',):
            out = []
            for s2, x, rest in vtake(e, st, v, last=True):
                e.store(s2, r, p, rest)
                if x is not None:
                    e.emit(s2, 'vpop', loc, x)
                out += e.finish(s2, cx, NONE if x is None else some(x))
            return out
        if n in ('swap_remove', 'remove'):
            x = mk('velem', v, a[1])
            e.emit(st, 'vremove', loc, a[1], x)
            e.store(st, r, p, mk('vec', mk('vrest', v, a[1]), ()))
            return e.finish(st, cx, x)
        if n in ('clear', 'truncate'):
            e.emit(st, 'vclear', loc, v)
            e.store(st, r, p, VECNEW if n == 'clear' else mk('vec', fresh('vec'), ()))
            return e.finish(st, cx, UNIT)
        if n in ('drain', 'split_off'):
            e.emit(st, 'vdrain', loc, v, tuple(a[1:]))
            if n == 'drain' and not wholerange(a[1], v) or n == 'split_off' and a[1] is not I(0):
                e.store(st, r, p, mk('vec', fresh('vec'), ()))
                part = mk('vec', fresh('vec'), ())
                return e.finish(st, cx, part if n == 'split_off' else it(mk('isrc', 'vec', part)))
            e.store(st, r, p, VECNEW)
            if n == 'split_off':
                return e.finish(st, cx, v)
            return e.finish(st, cx, it(mk('isrc', 'vec', v)))
        if n in ('retain', 'retain_mut'):
            e.emit(st, 'vretain', loc, v)
            x = mk('velem', v, fresh('i'))
            root = mk('H', 'velem', st.nfid)
            st.nfid += 1
            st.mem[root] = x
            e.store(st, r, p, mk('vec', mk('vrest', v, x), ()))
            return e.callk(st, a[1], [ref(root)], 'vretained', (cx, loc, x))
        return NotImplemented
    eng.tymodels.append(vec_ops)

    def k_vretained(e, st, ka, v):
        cx, loc, x = ka
        out = []
        for s2, r in e.branch(st, v):
            e.emit(s2, 'vkept' if r else 'vremove', loc, None, x)
            out += e.finish(s2, cx, UNIT)
        return out
    K['vretained'] = k_vretained

    def wholerange(a, v):
        if a.t == 'const':
            return True
        if a.t != 'agg' or not isinstance(a.a[0], str):
            return False
        n = a.a[0].split('::')[-1]
        if n == 'RangeFull':
            return True
        lo = fld(a, 'start') is I(0)
        return n == 'RangeFrom' and lo or n in ('Range', 'RangeTo') and (lo or n == 'RangeTo') and fld(a, 'end') is vlen(v)

    def vpush(v, x):
        if v.t != 'vec':
            v = mk('vec', v, ())
        el = v.a[1] + (x,)
        base = v.a[0]
        if len(el) > 2:
            el = el[-2:]
            base = mk('many') if base is None else base
        return mk('vec', base, el)

    def vempty(v):
        if v.t == 'vec':
            if v.a[1]:
                return FALSE
            if v.a[0] is None:
                return TRUE
            v = v.a[0]
        return mk('bool', 'vempty', v)

    def vlen(v):
        while v.t == 'arr' and v.a[0].t != 'array':
            v = v.a[0]
        if v.t == 'vec':
            if v.a[0] is None:
                return I(len(v.a[1]))
            return add(mk('len', v.a[0]), I(len(v.a[1])))
        return mk('len', v)
    eng.vempty = vempty

    def vtake(e, st, v, last):
        """take one element -> (state, elem|None, rest)"""
        if v.t != 'vec':
            v = mk('vec', v, ())
        base, el = v.a
        if el and (last or base is None):
            x, rest = (el[-1], el[:-1]) if last else (el[0], el[1:])
            return [(st, x, mk('vec', base, rest))]
        if base is None:
            return [(st, None, v)]
        if base.t == 'gen':
            # a collected vector is represented by one of its elements
            return [(st, base.a[0], VECNEW)]
        out = []
        b = vempty(base)
        for s2, r in e.branch(st, b):
            if r:
                if el:
                    out.append((s2, el[0], mk('vec', None, el[1:])))
                else:
                    out.append((s2, None, v))
            else:
                x = mk('velem', base, fresh('i'))
                out.append((s2, x, mk('vec', mk('vrest', base, x), el)))
        return out
    eng.vtake = vtake

    # iterator values: it(src, adaptors)
    def it(src, ads=()):
        return mk('it', src, tuple(ads))
    eng.it = it
    SL = 'core::slice::<impl [T]>::'

    @model(SL + 'iter', SL + 'iter_mut')
    def _(e, st, a, cx, info):
        return e.finish(st, cx, it(mk('isrc', 'slice', a[0])))

    @model(SL + 'len')
    def _(e, st, a, cx, info):
        return e.finish(st, cx, vlen(e.load(st, a[0])))

    @model(SL + 'is_empty')
    def _(e, st, a, cx, info):
        return bool_finish(e, st, cx, vempty(e.load(st, a[0])))

    def cell(e, st, r, p, i):
        """-> [(state, index)]: inside the entry store, decide which of the cells touched before index i designates"""
        if e.opts.get('slab', True):
            return [(st, i)]
        def upd(s, x):
            for _ in range(6):
                y = rewrite(x, s.sub, {}) if s.sub else x
                if y is x:
                    break
                x = y
            return x
        out = []
        todo = [st]
        for c in st.auto.get('cells', ()):
            nxt = []
            for s in todo:
                for s2, eq in e.branch(s, b_eqn(c, st.sub.get(i, i))):
                    if eq:
                        out.append((s2, upd(s2, c)))     # one name may have replaced the other
                    else:
                        nxt.append(s2)
            todo = nxt
        for s in todo:
            i = upd(s, i)
            s.auto['cells'] = s.auto.get('cells', ()) + (i,)
            out.append((s, i))
        return out
    eng.cell = cell

    def sliceget(e, st, a, cx, info):
        r, p = e.deref(st, a[0])
        e.emit(st, 'slice_get', a[0], a[1])
        if a[1].t == 'agg':
            return NotImplemented
        s2 = st.copy()
        s2.auto['oob'] = True
        out = []
        if not e.opts.get('slab', True):
            out_of = b_le(vlen(e.rd(st, r, p)), a[1])
            if not e.assume(st, out_of, False):
                st = None
            if not e.assume(s2, out_of, True):
                s2 = None
        for s3, c in cell(e, st, r, p, a[1]) if st is not None else ():
            out += e.finish(s3, cx, some(ref(r, p + (('i', c),))))
        if s2 is not None:
            out += e.finish(s2, cx, NONE)
        return out
    M[SL + 'get'] = sliceget
    M[SL + 'get_mut'] = sliceget

    @model(SL + 'get_unchecked', SL + 'get_unchecked_mut')
    def _(e, st, a, cx, info):
        r, p = e.deref(st, a[0])
        e.emit(st, 'slice_unchecked', a[0], a[1])
        return [s for s3, c in cell(e, st, r, p, a[1]) for s in e.finish(s3, cx, ref(r, p + (('i', c),)))]

    @model(SL + 'first', SL + 'last')
    def _(e, st, a, cx, info):
        r, p = e.deref(st, a[0])
        i = I(0) if info.c['name'] == 'first' else mk('op', 'last')
        return [s for s2, b in e.branch(st, vempty(e.rd(st, r, p))) for s in e.finish(s2, cx, NONE if b else some(ref(r, p + (('i', i),))))]

    @tmodel('core::ops::index::Index', 'index')
    def _(e, st, a, cx, info):
        return index(e, st, a, cx, info)

    @tmodel('core::ops::index::IndexMut', 'index_mut')
    def _(e, st, a, cx, info):
        return index(e, st, a, cx, info)

    def index(e, st, a, cx, info):
        r, p = e.deref(st, a[0])
        if a[1].t == 'agg' or a[1].t == 'const':
            # range indexing
            if a[1].t == 'const' or a[1].a[0] == 'core::ops::range::RangeFull':
                return e.finish(st, cx, a[0])
            e.emit(st, 'subslice', a[0], a[1])
            return e.finish(st, cx, ref(r, p + (('f', 'subslice%d' % a[1].n, None),)))
        e.emit(st, 'slice_index', a[0], a[1])
        return [s for s3, c in cell(e, st, r, p, a[1]) for s in e.finish(s3, cx, ref(r, p + (('i', c),)))]

    # ------------------------------------------------------------ iterators
    @tmodel('core::iter::traits::collect::IntoIterator', 'into_iter')
    def _(e, st, a, cx, info):
        if is_local(e, info):
            return NotImplemented
        v = a[0]
        if v.t == 'it':
            return e.finish(st, cx, v)
        n = tyname(info.selfty)
        if n == 'alloc::vec::Vec' or v.t == 'vec':
            return e.finish(st, cx, it(mk('isrc', 'vec', v)))
        if n == OPT:
            return e.finish(st, cx, it(mk('isrc', 'opt', v)))
        if info.selfty and info.selfty[0] == 'ref':
            inner = info.selfty[2][0]
            if inner[0] in ('slice', 'array') or tyname(inner) == 'alloc::vec::Vec':
                return e.finish(st, cx, it(mk('isrc', 'slice', v)))
            if tyname(inner) == OPT:
                w = e.load(st, v)
                out = []
                for s2, nm in e.split_variant(st, w, e.p.adts[OPT]):
                    out += e.finish(s2, cx, it(mk('isrc', 'opt', NONE if nm == 'None' else some(ref(v.a[0], v.a[1] + (F('0', 'Some'),))))))
                return out
        if v.t == 'agg' and isinstance(v.a[0], str) and 'range::Range' in v.a[0]:
            return e.finish(st, cx, it(mk('isrc', 'range', v)))
        return NotImplemented

    ADS = ('map', 'filter', 'filter_map', 'flat_map', 'inspect', 'take_while', 'skip_while', 'map_while', 'scan')
    PLAIN = ('enumerate', 'rev', 'copied', 'cloned', 'by_ref', 'fuse', 'peekable', 'skip', 'take', 'step_by', 'chain', 'zip', 'flatten', 'cycle')

    def iters(e, st, a, cx, info):
        tr = info.c.get('trait')
        if tr not in ('core::iter::traits::iterator::Iterator', 'core::iter::traits::double_ended::DoubleEndedIterator', 'core::iter::traits::exact_size::ExactSizeIterator'):
            return NotImplemented
        n = info.c['name']
        v = a[0]
        holder = None
        if v.t == 'ref':
            holder = v
            v = e.load(st, v)
        if v.t == 'agg' and isinstance(v.a[0], str) and 'range::Range' in v.a[0]:
            v = it(mk('isrc', 'range', v))
        if v.t != 'it':
            if is_local(e, info):
                return NotImplemented
            return NotImplemented
        src, ads = v.a
        if n == 'by_ref':
            return e.finish(st, cx, a[0])
        if n in ADS:
            return e.finish(st, cx, it(src, ads + ((n, a[1]),)))
        if n in PLAIN:
            return e.finish(st, cx, it(src, ads + ((n,) + tuple(a[1:]),)))
        if n in ('next', 'next_back'):
            if holder is None:
                return NotImplemented
            return step(e, st, src, ads, ('next', holder, cx))
        if n in ('collect', 'sum', 'count', 'product', 'max', 'min', 'last'):
            e.emit(st, 'iterall', n, src, ads)
            return step(e, st, src, ads, (n, holder, cx))
        if n in ('all', 'any', 'find', 'position', 'for_each', 'find_map', 'fold', 'try_for_each', 'try_fold', 'rposition', 'max_by_key', 'min_by_key'):
            e.emit(st, 'iterall', n, src, ads)
            return step(e, st, src, ads, (n, holder, cx, tuple(a[1:])))
        if n == 'size_hint' or n == 'len':
            return e.finish(st, cx, fresh('num'))
        return NotImplemented
    eng.tymodels.append(iters)

    SRC = {}
    eng.isources = SRC

    def src_slice(e, st, src):
        r, p = e.deref(st, src.a[1])
        i = fresh('num')
        s2 = st.copy()
        return [(st, None, src), (s2, ref(r, p + (('i', i),)), src)]
    SRC['slice'] = src_slice

    def src_vec(e, st, src):
        out = []
        for s2, x, rest in vtake(e, st, src.a[1], last=False):
            if x is not None:
                e.emit(s2, 'vtaken', src.a[1], x)
            out.append((s2, x, mk('isrc', 'vec', rest)))
        return out
    SRC['vec'] = src_vec

    def src_range(e, st, src):
        s2 = st.copy()
        return [(st, None, src), (s2, fresh('num'), src)]
    SRC['range'] = src_range

    def src_opt(e, st, src):
        v = src.a[1]
        out = []
        for s2, nm in e.split_variant(st, v, e.p.adts[OPT]):
            if nm == 'None':
                out.append((s2, None, src))
            else:
                out.append((s2, fld(v, '0', 'Some'), mk('isrc', 'opt', NONE)))
        return out
    SRC['opt'] = src_opt

    def step(e, st, src, ads, fin):
        """produce one element and run it through the adaptors, then act according to fin"""
        out = []
        for s2, x, nsrc in SRC[src.a[0]](e, st, src):
            if x is None:
                out += done(e, s2, nsrc, ads, fin, None)
            else:
                e.emit(s2, 'elem', src, ads, x)
                out += pipe(e, s2, nsrc, ads, 0, x, fin)
        return out
    eng.istep = step

    def pipe(e, st, src, ads, i, x, fin):
        if i == len(ads):
            return done(e, st, src, ads, fin, x)
        ad = ads[i]
        n = ad[0]
        if n in ('map', 'filter_map', 'flat_map', 'map_while'):
            return e.callk(st, ad[1], [x], 'pipe', (src, ads, i, x, fin, cxuw(fin)), uw=cxuw(fin))
        if n in ('filter', 'inspect', 'take_while', 'skip_while'):
            root = mk('H', 'pipe', st.nfid)
            st.nfid += 1
            st.mem[root] = x
            return e.callk(st, ad[1], [ref(root)], 'pipe', (src, ads, i, x, fin, cxuw(fin)), uw=cxuw(fin))
        if n == 'enumerate':
            return pipe(e, st, src, ads, i + 1, tup(fresh('num'), x), fin)
        if n in ('copied', 'cloned'):
            return pipe(e, st, src, ads, i + 1, e.load(st, x), fin)
        if n == 'flatten':
            return flatten(e, st, src, ads, i, x, fin)
        if n == 'zip':
            return pipe(e, st, src, ads, i + 1, tup(x, fresh('zip')), fin)
        if n in ('skip', 'take', 'step_by'):
            s2 = st.copy()
            return pipe(e, st, src, ads, i + 1, x, fin) + skip(e, s2, src, ads, fin)
        return pipe(e, st, src, ads, i + 1, x, fin)

    def cxuw(fin):
        return fin[2][4]

    def flatten(e, st, src, ads, i, v, fin):
        out = []
        if v.t == 'it' or v.t == 'vec':
            inner = v if v.t == 'it' else it(mk('isrc', 'vec', v))
            for s2, y, _ in SRC[inner.a[0].a[0]](e, st, inner.a[0]):
                if y is None:
                    out += skip(e, s2, src, ads, fin)
                else:
                    out += pipe(e, s2, src, ads, i + 1, y, fin)
            return out
        for s2, nm in e.split_variant(st, v, e.p.adts[OPT]):
            if nm in ('None', 'Err'):
                out += skip(e, s2, src, ads, fin)
            else:
                out += pipe(e, s2, src, ads, i + 1, fld(v, '0', nm), fin)
        return out

    def k_pipe(e, st, ka, v):
        src, ads, i, x, fin, _ = ka
        n = ads[i][0]
        if n == 'map':
            return pipe(e, st, src, ads, i + 1, v, fin)
        if n == 'inspect':
            return pipe(e, st, src, ads, i + 1, x, fin)
        if n == 'flat_map':
            return flatten(e, st, src, ads, i, v, fin)
        if n in ('filter_map', 'map_while'):
            out = []
            for s2, nm in e.split_variant(st, v, e.p.adts[OPT]):
                if nm == 'Some':
                    out += pipe(e, s2, src, ads, i + 1, fld(v, '0', 'Some'), fin)
                else:
                    out += skip(e, s2, src, ads, fin) if n == 'filter_map' else done(e, s2, src, ads, fin, None)
            return out
        out = []
        for s2, r in e.branch(st, v):
            if n == 'filter':
                out += pipe(e, s2, src, ads, i + 1, x, fin) if r else skip(e, s2, src, ads, fin)
            elif n == 'take_while':
                out += pipe(e, s2, src, ads, i + 1, x, fin) if r else done(e, s2, src, ads, fin, None)
            else:
                out += skip(e, s2, src, ads, fin) if r else pipe(e, s2, src, ads, i + 1, x, fin)
        return out
    K['pipe'] = k_pipe

    def skip(e, st, src, ads, fin):
        """an element was filtered out: the next one is another generic element, or the end"""
        e.emit(st, 'filtered', src, ads)
        return done(e, st, src, ads, fin, None, skipped=True)

    def done(e, st, src, ads, fin, x, skipped=False):
        n, holder, cx = fin[0], fin[1], fin[2]
        if n == 'probe':
            e.probe(st, src, ads, x, skipped)
            return []
        if holder is not None and n in ('next', 'next_back'):
            e.store(st, holder.a[0], holder.a[1], it(src, ads))
        if n in ('next', 'next_back'):
            if x is not None:
                e.emit(st, 'iternext', src, ads, x)
            elif not skipped:
                e.emit(st, 'exhausted', src, ads)
            return e.finish(st, cx, NONE if x is None else some(x))
        if n == 'collect':
            return e.finish(st, cx, VECNEW if x is None else mk('vec', mk('gen', x), ()))
        if n == 'sum':
            e.emit(st, 'itersum', src, ads, x)
            return e.finish(st, cx, I(0) if x is None else mk('isum', src, x))
        if n in ('count', 'max', 'min', 'product', 'last', 'max_by_key', 'min_by_key'):
            return e.finish(st, cx, fresh('num'))
        if x is None:
            r = {'all': TRUE, 'any': FALSE, 'find': NONE, 'position': NONE, 'rposition': NONE, 'find_map': NONE, 'for_each': UNIT}.get(n)
            if r is None and n == 'fold':
                r = fin[3][0]
            if r is None:
                r = fresh('iter')
            return e.finish(st, cx, r)
        f = fin[3][0]
        if n == 'find':
            root = mk('H', 'pipe', st.nfid)
            st.nfid += 1
            st.mem[root] = x
            return e.callk(st, f, [ref(root)], 'iterfn', (src, ads, x, fin), uw=cx[4])
        if n == 'fold':
            return e.callk(st, fin[3][1], [fin[3][0], x], 'iterfn', (src, ads, x, fin), uw=cx[4])
        return e.callk(st, f, [x], 'iterfn', (src, ads, x, fin), uw=cx[4])

    def k_iterfn(e, st, ka, v):
        src, ads, x, fin = ka
        n, cx = fin[0], fin[2]
        out = []
        if n in ('all', 'any', 'find', 'position', 'rposition'):
            for s2, r in e.branch(st, v):
                if n == 'all':
                    out += e.finish(s2, cx, I(int(r)))
                elif n == 'any':
                    out += e.finish(s2, cx, I(int(r)))
                elif n == 'find':
                    out += e.finish(s2, cx, some(x) if r else NONE)
                else:
                    i = mk('posof', x)
                    out += e.finish(s2, cx, some(i) if r else NONE)
            return out
        if n == 'find_map':
            return e.finish(st, cx, v)
        if n == 'fold':
            return e.finish(st, cx, v)
        return e.finish(st, cx, UNIT)
    K['iterfn'] = k_iterfn
