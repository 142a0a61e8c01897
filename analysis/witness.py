"""Client programs that must not compile, each with a legal twin that must, for C24.

(name, anchor, body of the illegal program, body of the legal one, error codes the illegal one is rejected with)
'' as an error code stands for lifetime errors, which carry none.
"""
PRE = '''#![allow(unused, dead_code, clippy::all)]
use quick_cache::{sync, unsync, Equivalent, Lifecycle, Weighter, Options, OptionsBuilder, UnitWeighter, DefaultHashBuilder};
use std::{cell::{Cell, RefCell}, rc::Rc, sync::{Arc, MutexGuard}, marker::PhantomData, hash::{BuildHasher, Hash}};
fn is_send<T: Send>() {}
fn is_sync<T: Sync>() {}
fn send<T: Send>(_: T) {}
fn spawn<F: FnOnce() + Send + 'static>(_: F) {}
type SC<K, V, We = UnitWeighter, B = DefaultHashBuilder, L = sync::DefaultLifecycle<K, V>> = sync::Cache<K, V, We, B, L>;
type UC<K, V, We = UnitWeighter, B = DefaultHashBuilder, L = unsync::DefaultLifecycle<K, V>> = unsync::Cache<K, V, We, B, L>;
type SG<'a, K, V, We = UnitWeighter, B = DefaultHashBuilder, L = sync::DefaultLifecycle<K, V>> = sync::PlaceholderGuard<'a, K, V, We, B, L>;
type UG<'a, K, V, We = UnitWeighter, B = DefaultHashBuilder, L = unsync::DefaultLifecycle<K, V>> = unsync::Guard<'a, K, V, We, B, L>;
type UR<'a, K, V, We = UnitWeighter, B = DefaultHashBuilder, L = unsync::DefaultLifecycle<K, V>> = unsync::RefMut<'a, K, V, We, B, L>;
type NotSend = MutexGuard<'static, u64>;
type NotSync = Cell<u64>;
'''
W = []


def w(name, anchor, bad, good, *codes):
    W.append((name, anchor, bad, good, codes))


T = ('E0277',)
# --- thread safety: which caches may cross threads depends on every parameter
for nm, bad, good in (('value-rc', 'u64, Rc<u64>', 'u64, Arc<u64>'), ('key-rc', 'Rc<u64>, u64', 'Arc<u64>, u64'),
                      ('weighter-rc', 'u64, u64, Rc<u64>', 'u64, u64, Arc<u64>'),
                      ('hasher-rc', 'u64, u64, UnitWeighter, Rc<u64>', 'u64, u64, UnitWeighter, Arc<u64>'),
                      ('lifecycle-rc', 'u64, u64, UnitWeighter, DefaultHashBuilder, Rc<u64>',
                       'u64, u64, UnitWeighter, DefaultHashBuilder, Arc<u64>')):
    w('sync-send-' + nm, 'sync::Cache', 'fn f() { is_send::<SC<%s>>() }' % bad, 'fn f() { is_send::<SC<%s>>() }' % good, *T)
    w('sync-sync-' + nm, 'sync::Cache', 'fn f() { is_sync::<SC<%s>>() }' % bad, 'fn f() { is_sync::<SC<%s>>() }' % good, *T)
    w('unsync-send-' + nm, 'unsync::Cache', 'fn f() { is_send::<UC<%s>>() }' % bad, 'fn f() { is_send::<UC<%s>>() }' % good, *T)
    w('unsync-sync-' + nm, 'unsync::Cache', 'fn f() { is_sync::<UC<%s>>() }' % bad, 'fn f() { is_sync::<UC<%s>>() }' % good, *T)
for nm, ty in (('value-notsync', 'u64, NotSync'), ('value-notsend', 'u64, NotSend'), ('key-notsync', 'NotSync, u64'),
               ('key-notsend', 'NotSend, u64')):
    w('sync-shared-' + nm, 'sync::Cache', 'fn f() { is_sync::<SC<%s>>() }' % ty, 'fn f() { is_sync::<SC<u64, u64>>() }', *T)
    w('sync-guard-sent-' + nm, 'sync_placeholder::PlaceholderGuard', "fn f<'a>() { is_send::<SG<'a, %s>>() }" % ty,
      "fn f<'a>() { is_send::<SG<'a, u64, u64>>() }", *T)
w('sync-sent-value-notsend', 'sync::Cache', 'fn f() { is_send::<SC<u64, NotSend>>() }', 'fn f() { is_send::<SC<u64, u64>>() }', *T)
w('unsync-sent-value-notsend', 'unsync::Cache', 'fn f() { is_send::<UC<u64, NotSend>>() }', 'fn f() { is_send::<UC<u64, NotSync>>() }', *T)
w('unsync-shared-value-notsync', 'unsync::Cache', 'fn f() { is_sync::<UC<u64, NotSync>>() }', 'fn f() { is_sync::<UC<u64, u64>>() }', *T)
w('sync-guard-send-rc', 'sync_placeholder::PlaceholderGuard', "fn f<'a>() { is_send::<SG<'a, u64, Rc<u64>>>() }",
  "fn f<'a>() { is_send::<SG<'a, u64, Arc<u64>>>() }", *T)
w('sync-guard-sync-rc', 'sync_placeholder::PlaceholderGuard', "fn f<'a>() { is_sync::<SG<'a, u64, Rc<u64>>>() }",
  "fn f<'a>() { is_sync::<SG<'a, u64, Arc<u64>>>() }", *T)
w('unsync-guard-send-rc', 'unsync::Guard', "fn f<'a>() { is_send::<UG<'a, u64, Rc<u64>>>() }",
  "fn f<'a>() { is_send::<UG<'a, u64, u64>>() }", *T)
w('unsync-refmut-send-rc', 'unsync::RefMut', "fn f<'a>() { is_send::<UR<'a, u64, Rc<u64>>>() }",
  "fn f<'a>() { is_send::<UR<'a, u64, u64>>() }", *T)
w('future-send-rc', 'sync::Cache::get_value_or_guard_async', 'fn f(c: &SC<u64, Rc<u64>>) { send(c.get_value_or_guard_async(&1)) }',
  'fn f(c: &SC<u64, u64>) { send(c.get_value_or_guard_async(&1)) }', *T)
w('load-future-send-rc', 'sync::Cache::get_or_insert_async',
  'fn f(c: &SC<u64, Rc<u64>>) { send(c.get_or_insert_async::<_, ()>(&1, async { Err(()) })) }',
  'fn f(c: &SC<u64, u64>) { send(c.get_or_insert_async::<_, ()>(&1, async { Err(()) })) }', *T)
w('load-future-send-loader', 'sync::Cache::get_or_insert_async',
  'fn f(c: &SC<u64, u64>) { let r = Rc::new(1u64); send(c.get_or_insert_async::<_, ()>(&1, async move { Ok(*r) })) }',
  'fn f(c: &SC<u64, u64>) { let r = Arc::new(1u64); send(c.get_or_insert_async::<_, ()>(&1, async move { Ok(*r) })) }', *(T + ('',)))
w('spawn-borrowed', 'sync::Cache::get', 'fn f(c: &SC<u64, u64>) { spawn(move || { c.get(&1); }) }',
  'fn f(c: Arc<SC<u64, u64>>) { spawn(move || { c.get(&1); }) }', '', 'E0521', 'E0759')

# generic bounds: no thread safety without asking it of every parameter
GP = "K, V, We, B, L"
for k in GP.split(', '):
    bs = ', '.join('%s%s' % (p, '' if p == k else ': Send + Sync') for p in GP.split(', '))
    al = ', '.join('%s: Send + Sync' % p for p in GP.split(', '))
    for tr in ('send', 'sync'):
        w('generic-sync-%s-without-%s' % (tr, k), 'sync::Cache', 'fn f<%s>() { is_%s::<sync::Cache<%s>>() }' % (bs, tr, GP),
          'fn f<%s>() { is_%s::<sync::Cache<%s>>() }' % (al, tr, GP), *T)
        w('generic-unsync-%s-without-%s' % (tr, k), 'unsync::Cache', 'fn f<%s>() { is_%s::<unsync::Cache<%s>>() }' % (bs, tr, GP),
          'fn f<%s>() { is_%s::<unsync::Cache<%s>>() }' % (al, tr, GP), *T)

# --- exclusive use while something borrowed from the single-threaded cache is alive
B5 = ('E0499', 'E0502', 'E0505', 'E0506', 'E0716', '')
hold = {
    'get': 'let x = c.get(&1);', 'peek': 'let x = c.peek(&1);', 'get_mut': 'let mut x = c.get_mut(&1);', 'peek_mut': 'let mut x = c.peek_mut(&1);',
    'iter': 'let mut x = c.iter();', 'drain': 'let mut x = c.drain();', 'get_ref_or_guard': 'let x = c.get_ref_or_guard(&1);',
    'get_mut_or_guard': 'let x = c.get_mut_or_guard(&1);',
    'get_or_insert_with': 'let x = c.get_or_insert_with::<_, ()>(&1, || Ok(2));',
    'get_mut_or_insert_with': 'let x = c.get_mut_or_insert_with::<_, ()>(&1, || Ok(2));',
    'get_ref_or_guard-value': 'let x = c.get_ref_or_guard(&1).ok().unwrap();',
    'get_ref_or_guard-guard': 'let x = c.get_ref_or_guard(&1).err().unwrap();',
    'get_mut_or_guard-guard': 'let x = c.get_mut_or_guard(&1).err().unwrap();',
    'get_mut_or_guard-value': 'let x = c.get_mut_or_guard(&1).ok().unwrap().unwrap();',
    'iter-item': 'let x = c.iter().next().unwrap();',
}
for nm, h in hold.items():
    a = 'unsync::Cache::' + nm.split('-')[0]
    for op, use in (('insert', 'c.insert(3, 4);'), ('remove', 'c.remove(&1);'), ('clear', 'c.clear();')):
        w('hold-%s-%s' % (nm, op), a, 'fn f(c: &mut UC<u64, u64>) { %s %s drop(x); }' % (h, use),
          'fn f(c: &mut UC<u64, u64>) { { %s drop(x); } %s }' % (h, use), *B5)
    shared = nm.split('-')[0] in ('get', 'peek', 'iter')
    if not shared:
        w('hold-%s-get' % nm, a, 'fn f(c: &mut UC<u64, u64>) { %s let y = c.get(&2).copied(); drop(x); }' % h,
          'fn f(c: &mut UC<u64, u64>) { { %s drop(x); } let y = c.get(&2).copied(); }' % h, *B5)
    # not beyond the life of the cache
    w('outlive-%s' % nm, a, 'fn f() { let x0; { let mut c = UC::<u64, u64>::new(3); %s x0 = x; } drop(x0); }' % h,
      'fn f() { let mut c = UC::<u64, u64>::new(3); let x0; { %s x0 = x; } drop(x0); }' % h, 'E0597', '')
    w('moved-%s' % nm, a, 'fn f(mut c: UC<u64, u64>) { %s drop(c); drop(x); }' % h, 'fn f(mut c: UC<u64, u64>) { %s drop(x); drop(c); }' % h, 'E0505', '')
# the lifetime of what is returned is that of the borrow, for all parameters
GB = 'K: Eq + Hash + Clone, V, We: Weighter<K, V>, B: BuildHasher, L: Lifecycle<K, V>'
GA = 'K, V, We, B, L'
for nm, recv, ret, ex in (
        ('get', '&', '&%s V', 'c.get(k).unwrap()'), ('peek', '&', '&%s V', 'c.peek(k).unwrap()'),
        ('get_mut', '&mut', 'unsync::RefMut<%s, K, V, We, B, L>', 'c.get_mut(k).unwrap()'),
        ('peek_mut', '&mut', 'unsync::RefMut<%s, K, V, We, B, L>', 'c.peek_mut(k).unwrap()'),
        ('iter', '&', 'impl Iterator<Item = (&%s K, &%s V)>', 'c.iter()'),
        ('get_ref_or_guard', '&mut', 'Result<&%s V, unsync::Guard<%s, K, V, We, B, L>>', 'c.get_ref_or_guard(k)'),
        ('get_mut_or_guard', '&mut', 'Result<Option<unsync::RefMut<%s, K, V, We, B, L>>, unsync::Guard<%s, K, V, We, B, L>>', 'c.get_mut_or_guard(k)'),
        ('get_or_insert_with', '&mut', 'Option<&%s V>', 'c.get_or_insert_with::<K, ()>(k, || Err(())).unwrap()'),
        ('get_mut_or_insert_with', '&mut', 'Option<unsync::RefMut<%s, K, V, We, B, L>>', 'c.get_mut_or_insert_with::<K, ()>(k, || Err(())).unwrap()')):
    def sig(lt, rv):
        return "fn f<'a, 'b, %s>(c: %s unsync::Cache<%s>, k: &'b K) -> %s { %s }" % (GB, rv, GA, ret.replace('%s', lt), ex)
    if nm != 'iter':
        w('longer-' + nm, 'unsync::Cache::' + nm, sig("'b", recv.replace('&', "&'a ", 1)), sig("'a", recv.replace('&', "&'a ", 1)), '', 'E0621')
        w('static-' + nm, 'unsync::Cache::' + nm, sig("'static", recv.replace('&', "&'a ", 1)), sig("'a", recv.replace('&', "&'a ", 1)), '', 'E0310', 'E0621')
# references into a mutable reference do not outlive it
w('refmut-deref', 'unsync::RefMut', "fn f<'a>(r: UR<'a, u64, u64>) -> &'a u64 { let x: &u64 = &*r; unsafe_free(x) }\nfn unsafe_free<'a>(x: &'a u64) -> &'a u64 { x }",
  "fn f<'a>(r: &'a UR<'_, u64, u64>) -> &'a u64 { &**r }", 'E0515', 'E0597', '', 'E0505')
w('refmut-deref-mut', 'unsync::RefMut', "fn f<'a, 'b>(r: &'b mut UR<'a, u64, u64>) -> &'a mut u64 { &mut **r }",
  "fn f<'a, 'b>(r: &'b mut UR<'a, u64, u64>) -> &'b mut u64 { &mut **r }", '', 'E0621')
w('refmut-two', 'unsync::RefMut', 'fn f(mut r: UR<u64, u64>) { let a = &mut *r; let b = &mut *r; *a = 1; *b = 2; }',
  'fn f(mut r: UR<u64, u64>) { let a = &mut *r; *a = 1; let b = &mut *r; *b = 2; }', 'E0499')
w('refmut-copy', 'unsync::RefMut', 'fn f(c: &mut UC<u64, u64>) { let r = c.get_mut(&1).unwrap(); let s = r.clone(); let _: UR<u64, u64> = s; }',
  'fn f(c: &mut UC<u64, u64>) { let r = c.get_mut(&1).unwrap(); let s = r; let _: UR<u64, u64> = s; }', 'E0308')
# re-entry of the single-threaded cache from its callbacks
w('reenter-load', 'unsync::Cache::get_or_insert_with', 'fn f(c: &mut UC<u64, u64>) { let _ = c.get_or_insert_with::<_, ()>(&1, || { c.insert(2, 2); Ok(1) }); }',
  'fn f(c: &mut UC<u64, u64>) { c.insert(2, 2); let _ = c.get_or_insert_with::<_, ()>(&1, || { Ok(1) }); }', 'E0500', 'E0499', 'E0501')
w('reenter-load-mut', 'unsync::Cache::get_mut_or_insert_with', 'fn f(c: &mut UC<u64, u64>) { let _ = c.get_mut_or_insert_with::<_, ()>(&1, || { c.insert(2, 2); Ok(1) }); }',
  'fn f(c: &mut UC<u64, u64>) { c.insert(2, 2); let _ = c.get_mut_or_insert_with::<_, ()>(&1, || { Ok(1) }); }', 'E0500', 'E0499', 'E0501')
w('reenter-retain', 'unsync::Cache::retain', 'fn f(c: &mut UC<u64, u64>) { c.retain(|k, v| c.peek(k).is_some()); }',
  'fn f(c: &mut UC<u64, u64>) { c.retain(|k, v| *k > 1); }', 'E0502', 'E0500', 'E0501')
w('retain-escape', 'unsync::Cache::retain', "fn f(c: &mut UC<u64, u64>) -> Option<u64> { let x = Cell::new(None); c.retain(|k, v| { x.set(Some(v)); true }); x.get().copied() }",
  'fn f(c: &mut UC<u64, u64>) -> Option<u64> { let x = Cell::new(None); c.retain(|k, v| { x.set(Some(*v)); true }); x.get() }', '', 'E0521')
w('sync-retain-escape', 'sync::Cache::retain', "fn f(c: &SC<u64, u64>) -> Option<u64> { let x = Cell::new(None); c.retain(|k, v| { x.set(Some(v)); true }); x.get().copied() }",
  'fn f(c: &SC<u64, u64>) -> Option<u64> { let x = Cell::new(None); c.retain(|k, v| { x.set(Some(*v)); true }); x.get() }', '', 'E0521')
# shared caches need no exclusive access; the single-threaded one does
for op, use in (('insert', 'c.insert(1, 2);'), ('remove', 'c.remove(&1);'), ('clear', 'c.clear();'), ('replace', 'let _ = c.replace(1, 2, true);'),
                ('retain', 'c.retain(|_, _| true);'), ('get_mut', 'c.get_mut(&1);'), ('peek_mut', 'c.peek_mut(&1);'), ('drain', 'c.drain().count();'),
                ('get_or_insert_with', 'let _ = c.get_or_insert_with::<_, ()>(&1, || Ok(2)).map(|_| ());'),
                ('get_ref_or_guard', 'let _ = c.get_ref_or_guard(&1).is_ok();'), ('reserve', 'c.reserve(1);')):
    w('shared-' + op, 'unsync::Cache::' + op, 'fn f(c: &UC<u64, u64>) { %s }' % use, 'fn f(c: &mut UC<u64, u64>) { %s }' % use, 'E0596')
# --- concurrent cache: guards
w('sync-guard-outlive', 'sync::Cache::get_value_or_guard', 'fn f() { let x; { let c = SC::<u64, u64>::new(3); x = c.get_value_or_guard(&1, None); } drop(x); }',
  'fn f() { let c = SC::<u64, u64>::new(3); let x; { x = c.get_value_or_guard(&1, None); } drop(x); }', 'E0597')
w('sync-guard-moved', 'sync::Cache::get_value_or_guard', 'fn f(c: SC<u64, u64>) { let x = c.get_value_or_guard(&1, None); drop(c); drop(x); }',
  'fn f(c: SC<u64, u64>) { let x = c.get_value_or_guard(&1, None); drop(x); drop(c); }', 'E0505')
w('sync-guard-longer', 'sync::Cache::get_value_or_guard',
  "fn f<'a, 'b>(c: &'a SC<u64, u64>, k: &'b u64) -> sync::GuardResult<'b, u64, u64, UnitWeighter, DefaultHashBuilder, sync::DefaultLifecycle<u64, u64>> { c.get_value_or_guard(k, None) }",
  "fn f<'a, 'b>(c: &'a SC<u64, u64>, k: &'b u64) -> sync::GuardResult<'a, u64, u64, UnitWeighter, DefaultHashBuilder, sync::DefaultLifecycle<u64, u64>> { c.get_value_or_guard(k, None) }", '', 'E0621')
w('sync-async-guard-longer', 'sync::Cache::get_value_or_guard_async',
  "async fn f<'a, 'b>(c: &'a SC<u64, u64>, k: &'b u64) -> Result<u64, SG<'b, u64, u64>> { c.get_value_or_guard_async(k).await }",
  "async fn f<'a, 'b>(c: &'a SC<u64, u64>, k: &'b u64) -> Result<u64, SG<'a, u64, u64>> { c.get_value_or_guard_async(k).await }", '', 'E0621')
w('sync-future-outlives-cache', 'sync::Cache::get_value_or_guard_async', 'fn f() { let x; { let c = SC::<u64, u64>::new(3); x = c.get_value_or_guard_async(&1); } drop(x); }',
  'fn f() { let c = SC::<u64, u64>::new(3); let x; { x = c.get_value_or_guard_async(&1); } drop(x); }', 'E0597')
w('sync-future-outlives-key', 'sync::Cache::get_value_or_guard_async', 'fn f(c: &SC<u64, u64>) { let x; { let k = 1u64; x = c.get_value_or_guard_async(&k); } drop(x); }',
  'fn f(c: &SC<u64, u64>) { let k = 1u64; let x; { x = c.get_value_or_guard_async(&k); } drop(x); }', 'E0597')
w('sync-guard-insert-twice', 'sync_placeholder::PlaceholderGuard::insert', "fn f(g: SG<'_, u64, u64>) { let _ = g.insert(1); let _ = g.insert(2); }",
  "fn f(g: SG<'_, u64, u64>, h: SG<'_, u64, u64>) { let _ = g.insert(1); let _ = h.insert(2); }", 'E0382')
w('sync-guard-insert-lifecycle-twice', 'sync_placeholder::PlaceholderGuard::insert_with_lifecycle',
  "fn f(g: SG<'_, u64, u64>) { let _ = g.insert_with_lifecycle(1).is_ok(); let _ = g.insert_with_lifecycle(2).is_ok(); }",
  "fn f(g: SG<'_, u64, u64>, h: SG<'_, u64, u64>) { let _ = g.insert_with_lifecycle(1).is_ok(); let _ = h.insert_with_lifecycle(2).is_ok(); }", 'E0382')
w('sync-guard-clone', 'sync_placeholder::PlaceholderGuard', "fn f<'a>(g: SG<'a, u64, u64>) { let h: SG<'a, u64, u64> = g.clone(); drop(g); }",
  "fn f<'a>(g: SG<'a, u64, u64>) { let h: SG<'a, u64, u64> = g; drop(h); }", 'E0599')
w('unsync-guard-insert-twice', 'unsync::Guard::insert', "fn f(g: UG<'_, u64, u64>) { g.insert(1); g.insert(2); }",
  "fn f(g: UG<'_, u64, u64>, h: UG<'_, u64, u64>) { g.insert(1); h.insert(2); }", 'E0382')
w('unsync-guard-clone', 'unsync::Guard', "fn f<'a>(g: UG<'a, u64, u64>) { let h: UG<'a, u64, u64> = g.clone(); drop(g); }",
  "fn f<'a>(g: UG<'a, u64, u64>) { let h: UG<'a, u64, u64> = g; drop(h); }", 'E0599')
# --- no shortening (or lengthening) of the lifetimes inside what can be mutated through the handle
for nm, ty, an in (('sync-cache', "&'s SC<u64, &%s str, UnitWeighter, DefaultHashBuilder, ()>", 'sync::Cache'),
                   ('sync-guard', "SG<'s, u64, &%s str, UnitWeighter, DefaultHashBuilder, ()>", 'sync_placeholder::PlaceholderGuard'),
                   ('unsync-guard', "UG<'s, u64, &%s str, UnitWeighter, DefaultHashBuilder, ()>", 'unsync::Guard'),
                   ('unsync-refmut', "UR<'s, u64, &%s str, UnitWeighter, DefaultHashBuilder, ()>", 'unsync::RefMut'),
                   ('unsync-mut', "&'s mut UC<u64, &%s str, UnitWeighter, DefaultHashBuilder, ()>", 'unsync::Cache')):
    w('shorten-' + nm, an, "fn f<'s, 'a>(x: %s) -> %s { x }" % (ty % "'static", ty % "'a"), "fn f<'s, 'a>(x: %s) -> %s { x }" % (ty % "'a", ty % "'a"), '')
for nm, ty, an in (('sync-cache', "SC<u64, &%s str, UnitWeighter, DefaultHashBuilder, ()>", 'sync::Cache'),
                   ('unsync-cache', "UC<u64, &%s str, UnitWeighter, DefaultHashBuilder, ()>", 'unsync::Cache')):
    w('lengthen-' + nm, an, "fn f<'a>(x: %s) -> %s { x }" % (ty % "'a", ty % "'static"), "fn f<'a>(x: %s) -> %s { x }" % (ty % "'a", ty % "'a"), '')
w('sync-short-value', 'sync::Cache::insert', 'fn f() { let c = SC::<u64, &str>::new(3); { let s = String::new(); c.insert(1, &s); } c.get(&1); }',
  'fn f() { let s = String::new(); let c = SC::<u64, &str>::new(3); { c.insert(1, &s); } c.get(&1); }', 'E0597')
w('unsync-short-value', 'unsync::Cache::insert', 'fn f() { let mut c = UC::<u64, &str>::new(3); { let s = String::new(); c.insert(1, &s); } c.get(&1); }',
  'fn f() { let s = String::new(); let mut c = UC::<u64, &str>::new(3); { c.insert(1, &s); } c.get(&1); }', 'E0597')
# --- the parts the guarantees rest on cannot be reached or forged from outside
w('reach-shard', 'unsync::Cache', 'fn f(c: &mut UC<u64, u64>) { let s = &mut c.shard; }', 'fn f(c: &mut UC<u64, u64>) { let s = &mut *c; }', 'E0616', 'E0609')
w('reach-shards', 'sync::Cache', 'fn f(c: &SC<u64, u64>) { let s = &c.shards; }', 'fn f(c: &SC<u64, u64>) { let s = &*c; }', 'E0616', 'E0609')
w('reach-refmut', 'unsync::RefMut', "fn f(c: UR<u64, u64>) { let s = c.0; }", "fn f(c: UR<u64, u64>) { let s = c; }", 'E0616', 'E0609')
w('reach-slab', 'linked_slab', 'use quick_cache::linked_slab::LinkedSlab;', '', 'E0603', 'E0432')
