From febe78af26e93910dfd54d29fe81093461f6bc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:53 +0000
Subject: [PATCH 1/4] fix: free the slot of a withdrawn placeholder

remove_placeholder only removed the index entry, so the slab slot of every
abandoned load was leaked.
---
 src/shard.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/shard.rs b/src/shard.rs
index 65fc148..bbae92d 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -182,6 +182,7 @@ impl<Key, Val, We, B, L, Plh: SharedPlaceholder> CacheShard<Key, Val, We, B, L,
             matches!(entry, Entry::Placeholder(Placeholder { shared, .. }) if shared.same_as(placeholder))
         }) {
             entry.remove();
+            self.entries.remove(placeholder.idx());
         }
     }
 
-- 
2.43.0


From 33f58b276d3fda8e06a452d4e07e2ddf56d81341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:41 +0000
Subject: [PATCH 2/4] fix: withdraw the placeholder when an unsync loader fails

get_or_insert_with and get_mut_or_insert_with of the unsync cache left the
placeholder of a failed or panicking loader behind forever.
---
 src/unsync.rs | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/unsync.rs b/src/unsync.rs
index 0aded9c..efed324 100644
--- a/src/unsync.rs
+++ b/src/unsync.rs
@@ -251,13 +251,16 @@ impl<Key: Eq + Hash, Val, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<K
     {
         let idx = match self.shard.upsert_placeholder(self.shard.hash(key), key) {
             Ok((idx, _)) => idx,
-            Err((plh, _)) => {
-                let v = with()?;
-                let mut lcs = self.shard.lifecycle.begin_request();
-                let replaced = self.shard.replace_placeholder(&mut lcs, &plh, false, v);
-                self.shard.lifecycle.end_request(lcs);
-                debug_assert!(replaced.is_ok(), "unsync replace_placeholder can't fail");
-                plh.idx
+            Err((placeholder, _)) => {
+                let idx = placeholder.idx;
+                // The guard withdraws the placeholder if `with` fails or panics
+                let guard = Guard {
+                    cache: self,
+                    placeholder,
+                    inserted: false,
+                };
+                guard.insert(with()?);
+                idx
             }
         };
         Ok(self.shard.peek_token(idx))
@@ -277,13 +280,16 @@ impl<Key: Eq + Hash, Val, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<K
     {
         let idx = match self.shard.upsert_placeholder(self.shard.hash(key), key) {
             Ok((idx, _)) => idx,
-            Err((plh, _)) => {
-                let v = with()?;
-                let mut lcs = self.shard.lifecycle.begin_request();
-                let replaced = self.shard.replace_placeholder(&mut lcs, &plh, false, v);
-                debug_assert!(replaced.is_ok(), "unsync replace_placeholder can't fail");
-                self.shard.lifecycle.end_request(lcs);
-                plh.idx
+            Err((placeholder, _)) => {
+                let idx = placeholder.idx;
+                // The guard withdraws the placeholder if `with` fails or panics
+                let guard = Guard {
+                    cache: self,
+                    placeholder,
+                    inserted: false,
+                };
+                guard.insert(with()?);
+                idx
             }
         };
         Ok(self.shard.peek_token_mut(idx).map(RefMut))
-- 
2.43.0


From ef220b382e8fc0bbfd2911a6c3a07ef4402ddd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:41 +0000
Subject: [PATCH 3/4] fix: park for the time that remains of the timeout

join parked for the time already elapsed, so a timed wait spun instead of
sleeping and could be woken late.
---
 src/sync_placeholder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sync_placeholder.rs b/src/sync_placeholder.rs
index 2952ef8..8a291d3 100644
--- a/src/sync_placeholder.rs
+++ b/src/sync_placeholder.rs
@@ -238,7 +238,7 @@ impl<
                 let start = Instant::now();
                 loop {
                     #[cfg(not(fuzzing))]
-                    thread::park_timeout(Instant::now().saturating_duration_since(start));
+                    thread::park_timeout(timeout.saturating_sub(start.elapsed()));
                     if notification.load(atomic::Ordering::Acquire) {
                         break;
                     }
-- 
2.43.0


From 5e3af83209f61d81aad5c92ecdb207555a21b368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:41 +0000
Subject: [PATCH 4/4] fix: count a guarded lookup once in the statistics

get_value_or_guard and its async variant recorded a miss in the fast path and
then a second hit or miss when upserting the placeholder.
---
 src/shard.rs | 32 ++++++++++++++++++++------------
 src/sync.rs  |  4 ++--
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index bbae92d..9bfc203 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -490,20 +490,28 @@ impl<
     where
         Q: Hash + Equivalent<Key> + ?Sized,
     {
-        if let Some((_, resident)) = self.search_resident(hash, key) {
-            let referenced = resident.referenced.load(atomic::Ordering::Relaxed);
-            // Attempt to avoid contention on hot items, which may have their counters maxed out
-            if referenced < MAX_F {
-                // While extremely unlikely, this increment can theoretically overflow.
-                // Even if that happens there's no impact correctness wise.
-                resident.referenced.fetch_add(1, atomic::Ordering::Relaxed);
-            }
-            record_hit!(self);
-            Some(&resident.value)
-        } else {
+        let value = self.get_hit(hash, key);
+        if value.is_none() {
             record_miss!(self);
-            None
         }
+        value
+    }
+
+    /// Same as `get` but doesn't record a miss, for callers that go on to `upsert_placeholder`.
+    pub fn get_hit<Q>(&self, hash: u64, key: &Q) -> Option<&Val>
+    where
+        Q: Hash + Equivalent<Key> + ?Sized,
+    {
+        let (_, resident) = self.search_resident(hash, key)?;
+        let referenced = resident.referenced.load(atomic::Ordering::Relaxed);
+        // Attempt to avoid contention on hot items, which may have their counters maxed out
+        if referenced < MAX_F {
+            // While extremely unlikely, this increment can theoretically overflow.
+            // Even if that happens there's no impact correctness wise.
+            resident.referenced.fetch_add(1, atomic::Ordering::Relaxed);
+        }
+        record_hit!(self);
+        Some(&resident.value)
     }
 
     pub fn get_mut<Q>(&mut self, hash: u64, key: &Q) -> Option<RefMut<'_, Key, Val, We, B, L, Plh>>
diff --git a/src/sync.rs b/src/sync.rs
index eb0e806..b5eb9c1 100644
--- a/src/sync.rs
+++ b/src/sync.rs
@@ -358,7 +358,7 @@ impl<
         Q: Hash + Equivalent<Key> + ToOwned<Owned = Key> + ?Sized,
     {
         let (shard, hash) = self.shard_for(key).unwrap();
-        if let Some(v) = shard.read().get(hash, key) {
+        if let Some(v) = shard.read().get_hit(hash, key) {
             return GuardResult::Value(v.clone());
         }
         PlaceholderGuard::join(&self.lifecycle, shard, hash, key, timeout)
@@ -401,7 +401,7 @@ impl<
         Q: Hash + Equivalent<Key> + ToOwned<Owned = Key> + ?Sized,
     {
         let (shard, hash) = self.shard_for(key).unwrap();
-        if let Some(v) = shard.read().get(hash, key) {
+        if let Some(v) = shard.read().get_hit(hash, key) {
             return Ok(v.clone());
         }
         JoinFuture::new(&self.lifecycle, shard, hash, key).await
-- 
2.43.0

