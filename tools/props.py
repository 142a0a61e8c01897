#!/usr/bin/env python3
"""Single source of the property list; writes /verif/properties.jsonl."""
import json, os
S='src/shard.rs'; P='src/sync_placeholder.rs'; Y='src/sync.rs'; U='src/unsync.rs'; L='src/linked_slab.rs'; O='src/options.rs'; R='src/rw_lock.rs'; B='src/lib.rs'
def p(id,title,statement,over,text,why,files,mech,state=(),obs=()):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(obs),hook_needed=None))
    return d
PROPS=[
p('C01','Reported item count and weight always match the cached contents',
  "After every completed operation of either cache variant, in any history, the reported number of items equals the number of items present and the reported total weight equals the sum of the user-defined weights of exactly those items. This covers insertion, replacement, removal, eviction, guarded loading, in-place mutation through a mutable reference, retain, clear and drain.",
  ['histories','inputs'],'every sequence of operations, every user weighter and lifecycle, every capacity',
  'The tests check weight() after a handful of single-threaded edits; a counter skewed on one branch (replacing a cold item, evicting an item whose weight was changed by the hook) survives all of them.',
  [S,U],[('counters adjusted on the same path as the entry transition','CacheShard::{insert,insert_existing,replace_placeholder,remove_internal,advance_cold,advance_hot,drain,cold_change_weight}'),('RefMut re-weighs on drop','RefMut::drop')],
  [('num_hot/num_cold','resident items per list',S),('weight_hot/weight_cold','summed weights per list',S)],['len','weight','is_empty','iter']),
p('C02','Every stored entry is indexed, every index entry is live, no slot is leaked',
  "After every completed operation each item held in storage is reachable by its own key and each reachable key designates a live item. Storage belonging to an entry that was removed, evicted, forgotten or whose load was abandoned becomes reusable, so repeated failed or cancelled loads do not make the cache grow.",
  ['histories','inputs'],'every sequence of operations including failed, cancelled and overweight loads, for both variants',
  'The invariant spans the hash index and the slab; validate() never compares them and no test abandons more than a few loads.',
  [S,L,P,U],[('index insert/remove paired with slab insert/remove','CacheShard::{map_insert,map_remove,insert,upsert_placeholder,remove_internal,remove_placeholder,advance_hot,advance_ghost}'),('failed unsync loads give their placeholder back','unsync::Cache::{get_or_insert_with,get_mut_or_insert_with}, unsync::Guard::drop')],
  [('map','hash -> slot',S),('entries','slab of entries',S)],['get','contains_key','iter','memory use']),
p('C03','Lookups and removals only ever hit an item with an equivalent key',
  "Whatever the hash function does, a lookup, membership test, mutable access or guarded load for a key returns a value only if that value is stored under an equivalent key, and removal or replacement of a key never returns, alters or displaces the item of a non-equivalent key. A lookup never reports a key that is only being loaded or only remembered as recently evicted.",
  ['inputs','histories'],'every hasher (including constant ones), key set and history',
  'The tests use well-distributed hashes and never force two keys into the same bucket, so a match decided by hash alone is invisible.',
  [S],[('equivalence test on the very entry that is returned','CacheShard::{search,search_resident,contains,get,get_mut,peek,peek_mut,remove,upsert_placeholder}')],
  (),['get','peek','contains_key','remove','replace','get_or_insert_with']),
p('C04','Inserting never leaves evictable weight above capacity',
  "When an insertion, replacement or completed load returns, the total weight is within the shard's capacity or no higher than before the call, unless every other item that could still be evicted is pinned. An unpinned item that is heavier than the space reserved for hot items is never admitted; admission is decided on the weight the item has after the pre-eviction hook ran.",
  ['histories','inputs','configurations'],'every history, weighter, pin predicate and capacity',
  'Needs particular weight/pin combinations at the boundary on each of the insertion paths; the tests use unit weights or tiny fixed ones.',
  [S],[('eviction loops','CacheShard::{insert,insert_existing,replace_placeholder}'),('admission test','CacheShard::{insert,replace_placeholder}')],
  [('weight_capacity','shard budget',S),('weight_target_hot','admission limit',S)],['weight','capacity','insert','replace']),
p('C05','Zero-weight items are kept apart; weighted items always stay evictable',
  "An item whose weight is zero is never chosen for eviction, and an item with non-zero weight is always among the eviction candidates, no matter how its weight got its present value (insertion, replacement, in-place mutation, pre-eviction hook, promotion, reload of a recently evicted key). An entry belongs to at most one candidate list at a time.",
  ['histories','inputs'],'every history of weight changes over both lists',
  'test_zero_weights walks one order of transitions for hot items only.',
  [S,L],[('link/unlink on every zero/non-zero transition','CacheShard::{insert,insert_existing,replace_placeholder,cold_change_weight,advance_cold,advance_hot,upsert_placeholder,remove_internal}')],
  [('hot_head/cold_head/ghost_head','list heads',S)],['insert','get_mut','on_evict']),
p('C06','Pinned items are never evicted',
  "An item for which the user's pin predicate holds is never handed to the pre-eviction or eviction hook as an eviction victim and is never refused admission for its weight. It can leave the cache only by being replaced or removed by its own key, or by retain, clear or drain.",
  ['histories','inputs'],'every pin predicate and history',
  'No existing unit test pins anything; only the fuzz targets do and they are not run.',
  [S],[('is_pinned tested on the victim before it is evicted','CacheShard::{advance_cold,advance_hot}'),('is_pinned tested before refusing','CacheShard::{insert,replace_placeholder}')],
  (),['on_evict','get']),
p('C07','No item is silently lost or duplicated by inserting',
  "Every key/value pair passed to or displaced by an insertion, replacement or completed load ends up in exactly one place: stored in the cache, handed to the eviction hook once, or returned to the caller. Removing a present key returns exactly the stored pair.",
  ['histories','inputs'],'every path of every insertion-like operation',
  'Tests use the default lifecycle that ignores evicted items, so a pair that is dropped instead of reported (or reported twice) goes unnoticed.',
  [S,P],[('ownership of (key, value) flows to on_evict, the slab or the result','CacheShard::{insert,insert_existing,handle_insert_overweight,replace_placeholder,handle_overweight_replace_placeholder,advance_cold,advance_hot,remove_internal}')],
  (),['Lifecycle::on_evict','replace','remove','PlaceholderGuard::insert']),
p('C08','The pre-eviction hook runs exactly once before eviction and its verdict holds',
  "Each item evicted to make room, or refused because it is too heavy, has the pre-eviction hook run on it exactly once immediately before that decision. If the hook leaves the item with zero weight it stays in the cache, otherwise it is evicted; the hook never runs for pairs that are merely replaced or removed.",
  ['histories','inputs'],'every eviction and refusal path, every hook',
  'No existing test implements the pre-eviction hook.',
  [S],[('before_evict then re-weigh then decide','CacheShard::{advance_cold,advance_hot,insert,replace_placeholder}')],
  (),['Lifecycle::before_evict','Lifecycle::on_evict']),
p('C09','Each request begins once and ends once, and only when it succeeded',
  "Every insertion-like call creates exactly one request state, uses that same state for every hook of the request and, on success, finishes it exactly once after its work is done; the variants that return the request state never finish it themselves. A request that failed (nothing to replace, guard no longer attached) is not finished.",
  ['inputs','histories'],'every insertion-like entry point of both variants and each outcome',
  'The default lifecycle has an empty end hook, so the tests cannot see a missing, doubled or misplaced call.',
  [Y,U,P],[('begin_request/end_request bracketing','sync::Cache::{insert,replace,*_with_lifecycle}, PlaceholderGuard::insert*, unsync::Cache::*, unsync::Guard::insert_internal')],
  (),['Lifecycle::begin_request','Lifecycle::end_request']),
p('C10','Replace never adds a key and hands back what it refused; insert never fails',
  "A replace stores its value only if the key is already resident; otherwise it returns the very key and value it was given and does not store them. A plain insert never reports failure, and afterwards the key is either resident with the new value or has been handed to the eviction hook: an older value for that key is never left behind.",
  ['histories','inputs'],'every prior state of the key (absent, resident, remembered, being loaded) and every weight',
  'The unit tests never call replace.',
  [S,Y,U],[('InsertStrategy handling','CacheShard::{insert,insert_existing,handle_insert_overweight}')],
  (),['replace','insert','get']),
p('C11','Peeking, membership tests and soft replacement do not change hotness',
  "Peek (shared or mutable), membership test, iteration, size queries and failed lookups leave every item's hotness, and hence every later eviction decision, unchanged. A soft replacement leaves the hotness of the entry as it was, while an ordinary hit or hard replacement never lowers it.",
  ['histories','inputs'],'every read-only call and replacement at every point of every history',
  'Hotness is not observable directly; it shows only in which item is evicted much later.',
  [S],[('only get/get_mut/guarded lookup and hard replacement touch the reference counter','CacheShard::{get,get_mut,upsert_placeholder,insert_existing}')],
  [('referenced','hotness counter',S)],['peek','contains_key','replace(soft)']),
p('C12','The memory of recently evicted keys stays within its configured bound',
  "The number of recently evicted keys the cache remembers never exceeds the bound derived from the estimated item capacity and the ghost allocation, and a remembered key is forgotten again when it is reinserted, reloaded or removed.",
  ['histories','configurations'],'every history and ghost allocation, including zero',
  'Non-observable except as memory growth; validate() is only called after a few operations in the tests.',
  [S],[('advance_ghost after each demotion','CacheShard::{advance_cold,advance_ghost}')],
  [('num_non_resident/capacity_non_resident','ghost count and bound',S)],['memory use']),
p('C13','Cache operations cannot deadlock on the cache\'s own locks',
  "No interleaving of operations of the concurrent cache, including dropped guards, cancelled futures, timeouts and debug builds, can deadlock on the locks inside the cache. Nested lock acquisitions follow one global order and no thread acquires a lock while it already holds a lock of the same kind.",
  ['schedules','configurations'],'every thread interleaving, every feature configuration, debug and release',
  'A lock-order inversion needs two threads inside a window of nanoseconds; the shuttle test samples 1000 random schedules of one scenario.',
  [P,Y,R],[('lock order shard -> load state -> task waiter','PlaceholderGuard::{join,join_internal,insert_with_lifecycle,drop_uninserted_slow}, JoinFuture::{poll,drop_pending_waiter}, Waiter::notify')],
  (),['all sync operations']),
p('C14','No cache lock is held while user loaders run, requests end, or a caller waits',
  "The concurrent cache never holds one of its locks while running a user-supplied loading closure or future, while running the request begin and end hooks or dropping the request state that carries evicted items, or while a thread or task waits for someone else's load. Such code can therefore call back into the same cache.",
  ['schedules','programs'],'every operation, every reentrant loader or end hook',
  'Existing loaders and hooks never reenter the cache.',
  [Y,P],[('guard temporaries end before the call','sync::Cache::{get_value_or_guard,get_or_insert_with,insert_with_lifecycle,replace_with_lifecycle,...}, PlaceholderGuard::{join,insert_with_lifecycle}')],
  (),['get_or_insert_with','get_or_insert_async','Lifecycle::end_request']),
p('C15','At most one caller at a time holds the right to load a missing key',
  "As long as a key's pending load is not displaced by an explicit insert, remove or clear, at most one loading guard for it exists: a guard is handed out only to the caller that created the pending load, or to a single waiter that was chosen when the previous guard was abandoned. Everyone else gets the loaded value or keeps waiting.",
  ['schedules','histories'],'every interleaving of synchronous and asynchronous callers',
  'Violations need a specific interleaving of abandonment, wake-up and arrival.',
  [P,S],[('guard creation','PlaceholderGuard::{start_loading,join,join_internal}, JoinFuture::poll, CacheShard::upsert_placeholder')],
  (),['get_value_or_guard','get_or_insert_with','get_value_or_guard_async']),
p('C16','Completing a load publishes the value and wakes every waiter',
  "When a guard is given its value, every thread and task waiting for that load is woken and obtains a clone of exactly that value, and no later caller can start waiting on a load that has already completed. This holds even if the entry was removed from the cache meanwhile or the value is not admitted.",
  ['schedules','histories'],'every number and mix of waiters and every arrival time',
  'A lost wake-up needs a waiter to arrive in a precise window; tests hang only then.',
  [P],[('state change and waiter drain in one critical section','PlaceholderGuard::insert_with_lifecycle'),('wake-up flag set before the wake','Waiter::notify'),('notified waiters take the published value','PlaceholderGuard::join_internal')],
  (),['get_value_or_guard','get_value_or_guard_async']),
p('C17','An abandoned load is always handed on or withdrawn',
  "If a loading guard goes away without a value (error, panic, cancellation, explicit drop), then in the same atomic step either exactly one waiter is woken and takes over the load, or, if nobody waits, the pending load is withdrawn so that the next caller starts afresh. No caller can be left waiting for a load nobody performs.",
  ['schedules','fault_sequences'],'every way of losing a guard, every mix of waiters and newcomers',
  'Requires abandonment to race with a new arrival; tests abandon guards but with one key and no removal.',
  [P,U,S],[('Drop of the guard','PlaceholderGuard::{drop,drop_uninserted_slow}, unsync::Guard::drop, CacheShard::remove_placeholder')],
  (),['get_value_or_guard','get_or_insert_with']),
p('C18','Giving up waiting never strands a load or leaves a stale registration',
  "A waiter that times out or whose future is dropped is deregistered if it was not yet chosen; if it had already been chosen to take over the load, it passes that right on instead of swallowing it. A waiter is registered only while the load is known to be still pending, and a task that is polled again is woken through its latest waker.",
  ['schedules','fault_sequences'],'every cancellation point of a wait against every completion/abandonment',
  'The cancellation must hit between being chosen and being polled.',
  [P],[('timeout re-check under the state lock','PlaceholderGuard::join'),('cancellation','JoinFuture::{drop,drop_pending_waiter}'),('registration under shard and state lock','PlaceholderGuard::join_internal'),('waker refresh','JoinFuture::poll')],
  (),['get_value_or_guard(timeout)','dropping get_value_or_guard_async']),
p('C19','A wait times out only when a timeout was given, and it waits for that long',
  "Waiting for another caller's load reports a timeout only if a timeout was supplied, that much time has elapsed, and the load was still unresolved at that moment; without a timeout it waits until the load is resolved. Each blocking wait is limited by the time that remains of the supplied timeout.",
  ['schedules','inputs'],'every timeout value and completion time, spurious wake-ups included',
  'Timing: the tests only use 1 ms timeouts and accept any result.',
  [P,Y],[('park loop','PlaceholderGuard::join')],
  (),['get_value_or_guard']),
p('C20','A guard whose pending load was displaced cannot touch the cache',
  "After the pending load of a guard was displaced (by remove, clear, or an insert for the same key), inserting through that guard changes nothing in the cache and returns the value, and dropping it withdraws nothing, even if another load or item now occupies the same place. A guard that is still attached always stores or rejects its own value.",
  ['histories','schedules'],'every history between obtaining and using a guard, including slot reuse',
  'Needs slot reuse between obtaining and using the guard.',
  [S,P],[('identity check of the placeholder','CacheShard::{replace_placeholder,remove_placeholder}, SharedPlaceholder::same_as')],
  (),['PlaceholderGuard::insert','PlaceholderGuard::drop']),
p('C21','All operations on a key agree on its hash and its shard',
  "Every operation of the concurrent cache that takes a key derives both the shard and the hash from that key in one and the same way, so that an item stored by any operation is visible to all others; the shard number is always in range. Re-hashing, eviction and removal use the same hash the entry was indexed under.",
  ['inputs','configurations'],'every key, hasher, shard count and table growth',
  'A path that disagrees only for some hash bits or only after the table grew is not exercised by small integer keys.',
  [Y,S,U],[('single derivation','sync::Cache::shard_for'),('re-hash closures','CacheShard::{map_insert,reserve,hash_static}'),('removal hash','CacheShard::{map_remove,remove_internal,advance_hot,advance_ghost}')],
  [('shards_mask','number of shards - 1',Y)],['every keyed operation']),
p('C22','Shards partition the requested capacity without losing any of it',
  "For every option combination the concurrent cache has a power-of-two number of equally configured shards, at least one, whose capacities add up to no less than the requested weight capacity and exceed it by less than one unit per shard (capacities within that distance of the integer limit saturate); aggregate queries cover every shard exactly once. All configured options reach every shard.",
  ['configurations'],'every combination of shard count, capacities and allocations',
  'test_new only constructs a few sizes and checks nothing but the absence of a panic.',
  [Y,O,U],[('shard sizing','sync::Cache::with_options'),('options plumbing','OptionsBuilder::build, CacheShard::new')],
  (),['capacity','shard_capacity','num_shards','len','weight']),
p('C23','The preconditions of every unsafe operation hold on every path',
  "No safe use of the public interface can reach undefined behaviour: unchecked accesses are made only to live entries of the expected kind, code declared unreachable is unreachable, uninitialised memory is never read, and references are never extended beyond what they borrow from. The crate contains no other unsafe code.",
  ['inputs','histories','programs'],'every safe program using the crate',
  'Undefined behaviour need not show up in a test run.',
  [S,L,U],[('checked match before the unchecked one','CacheShard::{search_resident,advance_cold,advance_hot,replace_placeholder,upsert_placeholder}, RefMut::{pair,value_mut}, LinkedSlab::{get_unchecked,get_mut_unchecked}, unsync::Cache::get_ref_or_guard')],
  (),['all operations']),
p('C24','Borrow and thread-safety rules are enforced by the public types',
  "Programs that share a concurrent cache of non-thread-safe values between threads, use a cache while a mutable reference, guard, iterator or drain obtained from the single-threaded cache is alive, or let a guard or reference outlive its cache do not compile; the corresponding legal programs do.",
  ['programs'],'every client program in the listed classes',
  'Tests can only contain programs that compile.',
  [Y,U,P,R],[('lifetimes and auto traits','public signatures of sync::Cache, unsync::Cache, PlaceholderGuard, unsync::Guard, RefMut')],
  (),['rustc']),
p('C25','Retain, clear, drain and iteration cover exactly the resident items',
  "Retain removes exactly the resident items its predicate rejects and nothing else; clear and drain leave the cache completely empty and reusable even if the drain is not consumed; drain and iteration yield every resident item exactly once and never entries that are only being loaded or only remembered.",
  ['histories','inputs'],'every content and predicate',
  'The tests retain over ten never-evicted items and do not test drain, clear or iteration at all.',
  [S,L,U,Y],[('bulk operations','CacheShard::{retain,clear,drain,iter}, LinkedSlab::{drain,iter}, sync::Cache::{retain,clear}')],
  (),['retain','clear','drain','iter']),
p('C26','A cloned cache is a faithful, independent copy',
  "Cloning the single-threaded cache yields a cache with the same items, weights, hotness, capacities, options and statistics, and later operations on either never affect the other.",
  ['histories'],'every content at the time of cloning',
  'No test clones a cache.',
  [S,L,U],[('Clone impls','CacheShard::clone, Resident::clone, derived clones')],
  (),['Clone']),
p('C27','Every lookup is counted exactly once, as a hit or as a miss',
  "With statistics enabled, each lookup (shared, mutable, or guarded, in either variant) increases exactly one of the hit and miss counters by exactly one: plain lookups count a hit if and only if they return a value, guarded lookups count a miss if and only if they start a new load. No other operation changes the counters.",
  ['histories','configurations'],'every lookup entry point and outcome',
  'No test enables the statistics feature and reads the counters.',
  [S,Y,U],[('record_hit/record_miss','CacheShard::{get,get_mut,upsert_placeholder}')],
  [('hits/misses','statistics',S)],['hits','misses']),
p('C28','The entry store keeps its rings and its free list well formed',
  "In any sequence of store operations every stored entry belongs to exactly one circular doubly linked ring (possibly alone), linking and unlinking an entry affects only its neighbours, a removed slot is reused only after its removal and never while occupied, and the slot announced as next free is the one the next insertion uses.",
  ['histories','inputs'],'every sequence of insert, link, unlink, remove and drain',
  'The slab has no unit test; only an un-run fuzz target.',
  [L],[('pointer surgery','LinkedSlab::{insert,link,unlink,remove,drain,next_free}')],
  [('next/prev','ring links',L),('next_free','free list head',L)],['order and set of evictions']),
p('C29','Eviction always terminates and gives up only when everything is pinned',
  "Every eviction step either makes progress (an item leaves the candidate lists, is promoted once at the cost of hotness, or stops weighing anything) or reports that nothing can be evicted, and it reports that only if there is no unpinned candidate. An insertion therefore always returns.",
  ['histories','inputs'],'every arrangement of hot, cold, referenced and pinned items',
  'A livelock or premature give-up needs a particular mix of pinned and referenced items; no test pins anything.',
  [S],[('clock hands','CacheShard::{advance_cold,advance_hot}')],
  (),['insert','weight']),
p('C30','Successful loads return and store what the loader produced',
  "A get-or-insert call that runs its loader returns the loader's value or its error unchanged, runs the loader at most once and only if it was granted the load, and offers exactly that value to the cache. A call that finds or receives a value returns it without running its loader.",
  ['inputs','schedules'],'every loader outcome, both variants, sync and async',
  'The tests sample one value; admission failures and errors under contention are not distinguished.',
  [Y,U],[('get-or-insert wrappers','sync::Cache::{get_or_insert_with,get_or_insert_async}, unsync::Cache::{get_or_insert_with,get_mut_or_insert_with}')],
  (),['get_or_insert_with','get_or_insert_async']),
p('C31','Items that are present are always found',
  "A lookup, peek, mutable access, membership test or removal never answers that a key is absent while an item with an equivalent key is resident, and a guarded load never starts loading a key that is resident, whatever the item's weight, hotness or place and whatever else the cache holds.",
  ['histories','inputs'],'every key and cache state, both variants',
  'Tests look up recently inserted keys in small caches; corner states (zero weight, promoted, empty candidate lists, hash collisions) are not reached.',
  [S,Y,U],[('search','CacheShard::{search,search_resident,contains,upsert_placeholder}'),('lookups','Cache::{get,peek,get_mut,peek_mut,contains_key,remove}')],
  (),['get','peek','contains_key','remove','get_or_insert_with']),
p('C32','A missing entry or empty list never makes an operation panic',
  "No operation of either cache variant panics of its own accord because an entry, list head or index entry it expects is missing or of another kind, in any state the cache can be in.",
  ['histories','inputs'],'every operation in every cache state',
  'Tests reach few states; an unwrap that fails needs e.g. an empty hot list together with a full cache.',
  [S,Y,U],[('unwrap/unreachable sites','CacheShard::{advance_cold,advance_hot,advance_ghost,insert_existing,map_insert,map_remove,remove_internal}')],
  (),['panics of any operation']),
p('C33','Single-key operations of the concurrent cache take effect in one step',
  "Inserting, replacing, removing and completing a load change a shard within a single exclusive lock session, so that no other thread ever observes the key in an intermediate state (for example absent while it is being replaced).",
  ['schedules'],'every interleaving with other operations on the key',
  'An intermediate state is visible only in a narrow window of a particular schedule.',
  [Y,'src/sync_placeholder.rs'],[('lock sessions','sync::Cache::{insert_with_lifecycle,replace_with_lifecycle,remove}, PlaceholderGuard::insert_with_lifecycle')],
  [('shard lock','mutual exclusion',Y)],['get','peek','contains_key']),
p('C34','Used items and returning keys get another chance',
  "Every hit and every hard replacement marks the item as used, and an item that was used since eviction last considered it is not evicted at that consideration. A key that is inserted or loaded while it is still remembered as recently evicted enters as a hot item.",
  ['histories'],'every history of uses and evictions',
  'Which item is evicted is not asserted by the tests beyond aggregate hit counts.',
  [S],[('reference counters','CacheShard::{get,get_mut,upsert_placeholder,insert_existing,advance_cold,advance_hot}'),('ghost hits','CacheShard::{insert_existing,upsert_placeholder,replace_placeholder}')],
  [('referenced','use counter',S)],['order and set of evictions']),
p('H01','Concurrent operations on one key are linearizable',
  "Every concurrent history of get, insert, remove and replace on a key is equivalent to some sequential order of those operations that respects real time.",
  ['schedules','histories'],'every concurrent history',
  'Tests sample schedules and check only that values belong to their key.',
  [Y,S],[('one shard lock per key','sync::Cache::*')],(),['all sync operations']),
p('H02','The eviction policy is scan resistant and keeps frequently used items',
  "Items that are used repeatedly survive one-off scans, giving hit ratios comparable to published S3-FIFO results.",
  ['histories'],'every access trace',
  'A statistical statement about traces.',
  [S],[('two clock rings and ghosts','CacheShard')],(),['hit ratio']),
p('H03','Weight arithmetic never overflows',
  "No sum of item weights computed by the cache overflows, for any weighter.",
  ['inputs','histories'],'every weighter and history',
  'Overflow needs astronomically large weights; documented as the user\'s responsibility.',
  [S],[('u64 counters','CacheShard')],(),['weight']),
]
if __name__=='__main__':
    out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
    with open(out,'w') as f:
        for d in PROPS: f.write(json.dumps(d)+'\n')
    print(len(PROPS))
