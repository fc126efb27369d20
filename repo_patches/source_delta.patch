From 55c215ade35af6b71150a12a0514512117c3f324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:30 +0000
Subject: [PATCH 01/49] fix: avoid underflow when computing the retarget
 timespan

The last block of a retarget interval can have an earlier timestamp than the
first. Treat this as the shortest timespan, instead of overflowing.
---
 common/src/block/tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/src/block/tree.rs b/common/src/block/tree.rs
index f02f2ed..4d7a3aa 100644
--- a/common/src/block/tree.rs
+++ b/common/src/block/tree.rs
@@ -225,7 +225,7 @@ pub trait BlockReader {
             return last_adjustment_block.bits;
         }
 
-        let actual_timespan = last_time - last_adjustment_time;
+        let actual_timespan = last_time.saturating_sub(last_adjustment_time);
         let mut adjusted_timespan = actual_timespan;
 
         if actual_timespan < params.pow_target_timespan as BlockTime / 4 {
-- 
2.43.0


From 0a81332b3e00f6b16934aedfc5fedb548bf4a5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:42 +0000
Subject: [PATCH 02/49] fix: validate side branches against their own ancestors

Median time past, the retarget interval and the minimum-difficulty rule were
computed from the active chain, also for headers on a side branch. This could
both accept invalid branches and refuse valid ones with more work.
---
 chain/src/block/cache.rs | 80 +++++++++++++++++++++++++++++-----------
 common/src/block/tree.rs | 12 ++++++
 2 files changed, 71 insertions(+), 21 deletions(-)

diff --git a/chain/src/block/cache.rs b/chain/src/block/cache.rs
index 1631e48..6f9df9f 100644
--- a/chain/src/block/cache.rs
+++ b/chain/src/block/cache.rs
@@ -66,6 +66,16 @@ struct Candidate {
     fork_header: BlockHeader,
 }
 
+/// Get the median of the first `MEDIAN_TIME_SPAN` block times, or less, if there are less.
+fn median_time(times: impl Iterator<Item = BlockTime>) -> BlockTime {
+    let mut times = times
+        .take(time::MEDIAN_TIME_SPAN as usize)
+        .collect::<Vec<_>>();
+
+    times.sort_unstable();
+    times[times.len() / 2]
+}
+
 /// An implementation of [`BlockTree`] using a generic storage backend.
 /// Most of the functionality is accessible via the trait.
 #[derive(Debug, Clone)]
@@ -198,20 +208,10 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
     pub fn median_time_past(&self, height: Height) -> BlockTime {
         assert!(height != 0, "height must be > 0");
 
-        let mut times = [0; time::MEDIAN_TIME_SPAN as usize];
-
         let start = height.saturating_sub(time::MEDIAN_TIME_SPAN);
         let end = height;
 
-        for (i, blk) in self.range(start..end).enumerate() {
-            times[i] = blk.time;
-        }
-
-        // Gracefully handle the case where `height` < `MEDIUM_TIME_SPAN`.
-        let available = &mut times[0..(end - start) as usize];
-
-        available.sort_unstable();
-        available[available.len() / 2]
+        median_time(self.range(start..end).map(|blk| blk.time))
     }
 
     /// Import a block into the tree. Performs header validation. This function may trigger
@@ -232,7 +232,7 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
         // Block extends the active chain. We can fully validate it before proceeding.
         // Instead of adding the block to the main chain, we let chain selection do the job.
         if header.prev_blockhash == best {
-            self.validate(tip, &header, clock)?;
+            self.validate(tip, &header, &[], clock)?;
         }
 
         // Validate that the block's PoW is valid against its difficulty target, and
@@ -425,8 +425,8 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
             header: candidate.fork_header,
         };
 
-        for header in candidate.headers.iter() {
-            self.validate(&tip, header, clock)?;
+        for (i, header) in candidate.headers.iter().enumerate() {
+            self.validate(&tip, header, &candidate.headers[..i], clock)?;
 
             tip = CachedBlock {
                 height: tip.height + 1,
@@ -436,11 +436,33 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
         Ok(())
     }
 
+    /// Iterate backwards over the blocks ending in the given tip, starting with the tip itself.
+    /// The given branch holds the headers leading up to the tip that aren't on the active chain.
+    fn ancestors<'a>(
+        &'a self,
+        tip: &CachedBlock,
+        branch: &'a [BlockHeader],
+    ) -> impl Iterator<Item = (Height, &'a BlockHeader)> + 'a {
+        let height = tip.height;
+        let fork_height = height as usize - branch.len();
+
+        branch
+            .iter()
+            .rev()
+            .chain(self.chain.tail[..fork_height].iter().rev().map(|b| &b.header))
+            .chain(std::iter::once(&self.chain.head.header))
+            .enumerate()
+            .map(move |(i, header)| (height - i as Height, header))
+    }
+
     /// Validate a block header as a potential new tip. This performs full header validation.
+    ///
+    /// The given branch holds the headers leading up to `tip` that aren't on the active chain.
     fn validate(
         &self,
         tip: &CachedBlock,
         header: &BlockHeader,
+        branch: &[BlockHeader],
         clock: &impl Clock,
     ) -> Result<(), Error> {
         assert_eq!(tip.hash(), header.prev_blockhash);
@@ -451,10 +473,21 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
             if header.time > tip.time + self.params.pow_target_spacing as BlockTime * 2 {
                 block::pow_limit_bits(&self.params.network)
             } else {
-                self.next_min_difficulty_target(&self.params)
+                self.next_min_difficulty_target(self.ancestors(tip, branch), &self.params)
             }
         } else {
-            self.next_difficulty_target(tip.height, tip.time, tip.target(), &self.params)
+            let interval = self.params.difficulty_adjustment_interval();
+
+            if (tip.height + 1) % interval == 0 {
+                let (_, block) = self
+                    .ancestors(tip, branch)
+                    .nth(interval as usize - 1)
+                    .expect("BlockCache::validate: the interval is never longer than the chain");
+
+                self.adjusted_difficulty_target(block, tip.time, tip.target(), &self.params)
+            } else {
+                self.next_difficulty_target(tip.height, tip.time, tip.target(), &self.params)
+            }
         };
 
         let target = BlockHeader::u256_from_compact_target(compact_target);
@@ -484,7 +517,7 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
         // A timestamp is accepted as valid if it is greater than the median timestamp of
         // the previous MEDIAN_TIME_SPAN blocks, and less than the network-adjusted
         // time + MAX_FUTURE_BLOCK_TIME.
-        if header.time <= self.median_time_past(height) {
+        if header.time <= median_time(self.ancestors(tip, branch).map(|(_, h)| h.time)) {
             return Err(Error::InvalidBlockTime(header.time, Ordering::Less));
         }
         if header.time > clock.block_time() + time::MAX_FUTURE_BLOCK_TIME {
@@ -494,13 +527,18 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
         Ok(())
     }
 
-    /// Get the next minimum-difficulty target. Only valid in testnet and regtest networks.
-    fn next_min_difficulty_target(&self, params: &Params) -> Bits {
+    /// Get the next minimum-difficulty target, given the ancestors of the block, most recent
+    /// first. Only valid in testnet and regtest networks.
+    fn next_min_difficulty_target<'a>(
+        &self,
+        ancestors: impl Iterator<Item = (Height, &'a BlockHeader)>,
+        params: &Params,
+    ) -> Bits {
         assert!(params.allow_min_difficulty_blocks);
 
         let pow_limit_bits = block::pow_limit_bits(&params.network);
 
-        for (height, header) in self.iter().rev() {
+        for (height, header) in ancestors {
             if header.bits != pow_limit_bits
                 || height % self.params.difficulty_adjustment_interval() == 0
             {
@@ -633,7 +671,7 @@ impl<S: Store<Header = BlockHeader>> BlockTree for BlockCache<S> {
         if header.prev_blockhash == tip.hash() {
             let height = tip.height + 1;
 
-            self.validate(tip, &header, clock)?;
+            self.validate(tip, &header, &[], clock)?;
             self.extend_chain(height, hash, header);
             self.store.put(std::iter::once(header))?;
 
diff --git a/common/src/block/tree.rs b/common/src/block/tree.rs
index 4d7a3aa..1c63e3d 100644
--- a/common/src/block/tree.rs
+++ b/common/src/block/tree.rs
@@ -219,6 +219,18 @@ pub trait BlockReader {
         let last_adjustment_block = self
             .get_block_by_height(last_adjustment_height)
             .unwrap_or_else(|| self.genesis());
+
+        self.adjusted_difficulty_target(last_adjustment_block, last_time, last_target, params)
+    }
+    /// Get the next difficulty at the end of an adjustment interval, given the first block of
+    /// the interval, and the time and target of its last block.
+    fn adjusted_difficulty_target(
+        &self,
+        last_adjustment_block: &BlockHeader,
+        last_time: BlockTime,
+        last_target: Target,
+        params: &Params,
+    ) -> Bits {
         let last_adjustment_time = last_adjustment_block.time;
 
         if params.no_pow_retargeting {
-- 
2.43.0


From f6b55ea51f4528dda2eb398f5b2d1691fffb2efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:42 +0000
Subject: [PATCH 03/49] fix: report exactly the blocks that joined and left the
 chain on import

When a batch of headers triggered more than one re-org, blocks that were part
of the chain all along could be reported as connected, and blocks that left
the chain could go unreported.
---
 chain/src/block/cache.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/chain/src/block/cache.rs b/chain/src/block/cache.rs
index 6f9df9f..a363d2b 100644
--- a/chain/src/block/cache.rs
+++ b/chain/src/block/cache.rs
@@ -619,8 +619,14 @@ impl<S: Store<Header = BlockHeader>> BlockTree for BlockCache<S> {
                     reverted: r,
                     connected: c,
                 }) => {
+                    // Blocks that were connected by a previous header in this batch aren't
+                    // reverted from the main chain, as it was before the import.
+                    reverted.extend(
+                        r.into_iter()
+                            .map(|(i, h)| ((i, h.block_hash()), h))
+                            .filter(|((_, h), _)| !seen.contains(h)),
+                    );
                     seen.extend(c.iter().map(|(_, h)| h.block_hash()));
-                    reverted.extend(r.into_iter().map(|(i, h)| ((i, h.block_hash()), h)));
                     connected.extend(c);
 
                     best_hash = hash;
@@ -635,11 +641,14 @@ impl<S: Store<Header = BlockHeader>> BlockTree for BlockCache<S> {
         }
 
         if !connected.is_empty() {
-            // Don't return reverted blocks if they were seen as connected at some point, since
-            // we only want to include blocks reverted from the main chain.
-            reverted.retain(|(_, h), _| !seen.contains(h) && !self.contains(h));
-            // Don't return connected blocks if they are not in the main chain.
-            connected.retain(|_, h| self.contains(&h.block_hash()));
+            // Don't return connected blocks if they are not in the main chain, or if they were
+            // already part of it before the import.
+            connected.retain(|i, h| {
+                let hash = h.block_hash();
+                self.contains(&hash) && !reverted.contains_key(&(*i, hash))
+            });
+            // Don't return reverted blocks if they are back in the main chain.
+            reverted.retain(|(_, h), _| !self.contains(h));
 
             Ok(ImportResult::TipChanged {
                 header: best_header,
-- 
2.43.0


From f619ea52a149ae971791d0ff175027fa7e113421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:20 +0000
Subject: [PATCH 04/49] fix: report a message with a truncated payload instead
 of waiting for more input

---
 p2p/src/stream.rs | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/p2p/src/stream.rs b/p2p/src/stream.rs
index 91975be..c7c069f 100644
--- a/p2p/src/stream.rs
+++ b/p2p/src/stream.rs
@@ -3,6 +3,19 @@ use std::io;
 
 use nakamoto_common::bitcoin::consensus::{encode, Decodable};
 
+/// Reader over a byte slice that remembers whether it was asked for more than it has.
+struct Input<'a> {
+    bytes: &'a [u8],
+    exhausted: bool,
+}
+
+impl<'a> io::Read for Input<'a> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        self.exhausted |= buf.len() > self.bytes.len();
+        self.bytes.read(buf)
+    }
+}
+
 /// Message stream decoder.
 ///
 /// Used to for example turn a byte stream into network messages.
@@ -26,14 +39,24 @@ impl Decoder {
 
     /// Decode and return the next message. Returns [`None`] if nothing was decoded.
     pub fn decode_next<D: Decodable>(&mut self) -> Result<Option<D>, encode::Error> {
-        match encode::deserialize_partial::<D>(&self.unparsed) {
-            Ok((msg, index)) => {
+        let mut input = Input {
+            bytes: &self.unparsed,
+            exhausted: false,
+        };
+
+        match D::consensus_decode_from_finite_reader(&mut input) {
+            Ok(msg) => {
+                let index = self.unparsed.len() - input.bytes.len();
+
                 // Drain deserialized bytes only.
                 self.unparsed.drain(..index);
                 Ok(Some(msg))
             }
-
-            Err(encode::Error::Io(ref err)) if err.kind() == io::ErrorKind::UnexpectedEof => {
+            // Nb. If the end of a message was reached without running out of input, the
+            // message itself is too short, and waiting for more bytes won't help.
+            Err(encode::Error::Io(ref err))
+                if err.kind() == io::ErrorKind::UnexpectedEof && input.exhausted =>
+            {
                 Ok(None)
             }
             Err(err) => Err(err),
-- 
2.43.0


From a93cea63ba19013cb242f42720288c4881e79d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:20 +0000
Subject: [PATCH 05/49] fix: account for replaced filters in the filter cache
 size

---
 p2p/src/fsm/filter_cache.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/filter_cache.rs b/p2p/src/fsm/filter_cache.rs
index 08c69e9..6346d2f 100644
--- a/p2p/src/fsm/filter_cache.rs
+++ b/p2p/src/fsm/filter_cache.rs
@@ -124,7 +124,9 @@ impl<T: Filter> FilterCache<T> {
             return false;
         }
 
-        self.cache.insert(height, filter);
+        if let Some(replaced) = self.cache.insert(height, filter) {
+            self.size -= replaced.len();
+        }
         self.size += size;
 
         while self.size > self.capacity {
-- 
2.43.0


From 01f72b7420a4b3def702c7f614fa89b6e86fb0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:20 +0000
Subject: [PATCH 06/49] fix: keep the fee estimator state when no processed
 block is rolled back

---
 p2p/src/fsm/fees.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/p2p/src/fsm/fees.rs b/p2p/src/fsm/fees.rs
index 4ec322a..8d45e98 100644
--- a/p2p/src/fsm/fees.rs
+++ b/p2p/src/fsm/fees.rs
@@ -125,6 +125,10 @@ impl FeeEstimator {
 
     /// Rollback to a certain height.
     pub fn rollback(&mut self, height: Height) {
+        // If none of the processed blocks are above the given height, there is nothing to undo.
+        if height >= self.height {
+            return;
+        }
         self.snapshots.retain(|(h, _)| h <= &height);
 
         if let Some((h, snapshot)) = self.snapshots.pop_back() {
-- 
2.43.0


From ef11e2ee78b53d7e5b682f7bf80239b013818a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:20 +0000
Subject: [PATCH 07/49] fix: report malformed addresses in the peer store as
 errors

---
 common/src/p2p/peer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/src/p2p/peer.rs b/common/src/p2p/peer.rs
index 37bf3ef..f2e0d0d 100644
--- a/common/src/p2p/peer.rs
+++ b/common/src/p2p/peer.rs
@@ -288,7 +288,7 @@ impl KnownAddress {
         };
 
         let addr = match obj.get("address") {
-            Some(Value::String(addr)) => addr.parse().unwrap(),
+            Some(Value::String(addr)) => addr.parse().map_err(|_| serde::Error)?,
             _ => return Err(serde::Error),
         };
         let services = match obj.get("services") {
-- 
2.43.0


From cdbc68fff5f185cc3617342fd4da3f86a46954a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:53 +0000
Subject: [PATCH 08/49] fix: don't treat the smallest time offset as within the
 maximum adjustment

---
 common/src/block/time.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/src/block/time.rs b/common/src/block/time.rs
index b38e2b6..255d5ee 100644
--- a/common/src/block/time.rs
+++ b/common/src/block/time.rs
@@ -230,7 +230,7 @@ impl<K: Hash + Eq> AdjustedTime<K> {
             let median_offset: TimeOffset = offsets[count / 2];
 
             // Don't let other nodes change our time by more than a certain amount.
-            if median_offset.abs() <= MAX_TIME_ADJUSTMENT {
+            if median_offset.unsigned_abs() <= MAX_TIME_ADJUSTMENT as u64 {
                 self.offset = median_offset;
             } else {
                 // TODO: Check whether other nodes have times similar to ours, otherwise
-- 
2.43.0


From a2ee8f05b8895c3290ae2f092ef0b3784e052897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:45 +0000
Subject: [PATCH 09/49] Expose the peer cache and the service to the
 verification harness (cfg nakamoto_verif)

---
 client/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/client/src/lib.rs b/client/src/lib.rs
index e326948..94656fc 100644
--- a/client/src/lib.rs
+++ b/client/src/lib.rs
@@ -12,5 +12,12 @@ mod service;
 pub use client::*;
 pub mod handle;
 
+/// Internals exposed to the verification harness.
+#[cfg(nakamoto_verif)]
+pub mod verif {
+    pub use crate::peer::Cache;
+    pub use crate::service::Service;
+}
+
 #[cfg(test)]
 mod tests;
-- 
2.43.0


From f37b8acb406679c1e9abd1426a4d170f64ac7619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:26 +0000
Subject: [PATCH 10/49] fix: don't count inbound connections against the
 outbound target

---
 p2p/src/fsm/peermgr.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/p2p/src/fsm/peermgr.rs b/p2p/src/fsm/peermgr.rs
index c263f7b..443e945 100644
--- a/p2p/src/fsm/peermgr.rs
+++ b/p2p/src/fsm/peermgr.rs
@@ -776,8 +776,13 @@ impl<C: Clock> PeerManager<C> {
         // Peers only with required services, which we'd eventually want to drop in favor of peers
         // that have all services.
         let secondary = self.negotiated(Link::Outbound).count() - primary;
-        // Connected peers that have not yet completed handshake.
-        let connected = self.connected().count() - primary - secondary;
+        // Connected outbound peers that have not yet completed handshake.
+        let connected = self
+            .connected()
+            .filter(|c| c.link.is_outbound())
+            .count()
+            - primary
+            - secondary;
         // Connecting peers.
         let connecting = self.connecting().count();
 
-- 
2.43.0


From 00fccac4e0a83f352ea131de50295c2c161aebc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:35 +0000
Subject: [PATCH 11/49] fix: allow as many inbound peers as configured

---
 p2p/src/fsm/peermgr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/src/fsm/peermgr.rs b/p2p/src/fsm/peermgr.rs
index 443e945..6e6f6f7 100644
--- a/p2p/src/fsm/peermgr.rs
+++ b/p2p/src/fsm/peermgr.rs
@@ -328,7 +328,7 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
         match link {
             Link::Inbound => {
                 if self.connected().filter(|c| c.link.is_inbound()).count()
-                    >= self.config.max_inbound_peers
+                    > self.config.max_inbound_peers
                 {
                     // TODO: Test this branch.
                     // Don't allow inbound connections beyond the configured limit.
-- 
2.43.0


From 1a61a9d6bd0e94fe731e2beac02bad4be641f2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:43 +0000
Subject: [PATCH 12/49] fix: don't overflow on extreme version timestamps

---
 p2p/src/fsm/peermgr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/src/fsm/peermgr.rs b/p2p/src/fsm/peermgr.rs
index 6e6f6f7..df3e869 100644
--- a/p2p/src/fsm/peermgr.rs
+++ b/p2p/src/fsm/peermgr.rs
@@ -521,7 +521,7 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
                     peer: Some(PeerInfo {
                         nonce,
                         height: start_height as Height,
-                        time_offset: timestamp - now.block_time() as i64,
+                        time_offset: timestamp.saturating_sub(now.block_time() as i64),
                         services,
                         persistent,
                         user_agent,
-- 
2.43.0


From 8dab56e7b9aeba19e98ef9b7199b0aff3a668c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:53 +0000
Subject: [PATCH 13/49] fix: drop peers that send more than one version message

---
 p2p/src/fsm/peermgr.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/peermgr.rs b/p2p/src/fsm/peermgr.rs
index df3e869..cf88637 100644
--- a/p2p/src/fsm/peermgr.rs
+++ b/p2p/src/fsm/peermgr.rs
@@ -424,7 +424,13 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
     ) -> Result<(), DisconnectReason> {
         let now = self.clock.local_time();
 
-        if let Some(Peer::Connected { conn, .. }) = self.peers.get(addr) {
+        if let Some(Peer::Connected { conn, peer }) = self.peers.get(addr) {
+            // A peer only gets to introduce itself once.
+            if peer.is_some() {
+                return Err(DisconnectReason::PeerMisbehaving(
+                    "redundant `version` message received",
+                ));
+            }
             let VersionMessage {
                 // Peer's best height.
                 start_height,
-- 
2.43.0


From a59762ccaa460b0e2b5c0552992392418fd570d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:02 +0000
Subject: [PATCH 14/49] fix: don't open a connection to a peer that is still
 being disconnected

---
 p2p/src/fsm/peermgr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/peermgr.rs b/p2p/src/fsm/peermgr.rs
index cf88637..85f4963 100644
--- a/p2p/src/fsm/peermgr.rs
+++ b/p2p/src/fsm/peermgr.rs
@@ -745,7 +745,8 @@ impl<C: Clock> PeerManager<C> {
         if self.is_connected(addr) || self.is_connecting(addr) {
             return true;
         }
-        if !self.is_disconnected(addr) && !self.is_disconnecting(addr) {
+        // Nb. While a previous connection is being closed, we have to wait until it is gone.
+        if !self.is_disconnected(addr) {
             return false;
         }
         // Don't allow connections to unsupported domains.
-- 
2.43.0


From d404f1258eb5bc4f04903b6b90a034805e401d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:34 +0000
Subject: [PATCH 15/49] fix: ignore messages from peers that haven't completed
 the handshake

---
 p2p/src/fsm.rs         | 10 ++++++++++
 p2p/src/fsm/peermgr.rs |  8 ++++++++
 2 files changed, 18 insertions(+)

diff --git a/p2p/src/fsm.rs b/p2p/src/fsm.rs
index 0ffd448..790b367 100644
--- a/p2p/src/fsm.rs
+++ b/p2p/src/fsm.rs
@@ -790,6 +790,16 @@ impl<T: BlockTree, F: Filters, P: peer::Store, C: AdjustedClock<PeerId>> traits:
             return;
         }
 
+        // Until the handshake is complete, nothing but handshake messages is processed.
+        if !matches!(
+            msg.payload,
+            NetworkMessage::Version(_) | NetworkMessage::Verack | NetworkMessage::WtxidRelay
+        ) && !self.peermgr.is_negotiated(&addr)
+        {
+            debug!(target: "p2p", "Ignoring {:?} from {} before handshake", cmd, addr);
+            return;
+        }
+
         // Nb. We only send this message internally, hence we don't
         // push it to our outbox.
         self.event(Event::MessageReceived {
diff --git a/p2p/src/fsm/peermgr.rs b/p2p/src/fsm/peermgr.rs
index 85f4963..91ee1fe 100644
--- a/p2p/src/fsm/peermgr.rs
+++ b/p2p/src/fsm/peermgr.rs
@@ -695,6 +695,14 @@ impl<C: Clock> PeerManager<C> {
             .map_or(false, |c| matches!(c, Peer::Connected { .. }))
     }
 
+    /// Check whether a peer has completed the handshake.
+    pub fn is_negotiated(&self, addr: &PeerId) -> bool {
+        matches!(
+            self.peers.get(addr),
+            Some(Peer::Connected { peer: Some(peer), .. }) if peer.is_negotiated()
+        )
+    }
+
     /// Check whether a peer is disconnected.
     pub fn is_disconnected(&self, addr: &PeerId) -> bool {
         !self.peers.contains_key(addr)
-- 
2.43.0


From 90993c1a60dfb0d5fe2d93f34a76895a10312e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:45 +0000
Subject: [PATCH 16/49] fix: only broadcast to peers that have completed the
 handshake

---
 p2p/src/fsm.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm.rs b/p2p/src/fsm.rs
index 790b367..6d4dd0c 100644
--- a/p2p/src/fsm.rs
+++ b/p2p/src/fsm.rs
@@ -570,7 +570,12 @@ impl<T: BlockTree, F: Filters, P: peer::Store, C: AdjustedClock<PeerId>> StateMa
     {
         let mut peers = Vec::new();
 
-        for peer in self.peermgr.peers().map(Peer::from) {
+        for peer in self
+            .peermgr
+            .peers()
+            .filter(|(p, _)| p.is_negotiated())
+            .map(Peer::from)
+        {
             if predicate(&peer) {
                 peers.push(peer.addr);
                 self.outbox.message(peer.addr, msg.clone());
-- 
2.43.0


From 501c2cebf8230ae7390e0aeb6b7213cf3fc475a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:09 +0000
Subject: [PATCH 17/49] fix: answer pings that arrive together with the end of
 the handshake

---
 p2p/src/fsm/pingmgr.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/p2p/src/fsm/pingmgr.rs b/p2p/src/fsm/pingmgr.rs
index 5db484d..b929fe4 100644
--- a/p2p/src/fsm/pingmgr.rs
+++ b/p2p/src/fsm/pingmgr.rs
@@ -165,13 +165,10 @@ impl<C: Clock> PingManager<C> {
     }
 
     /// Called when a `ping` is received.
-    fn received_ping(&mut self, addr: PeerId, nonce: u64) -> bool {
-        if self.peers.contains_key(&addr) {
-            self.outbox.pong(addr, nonce);
-
-            return true;
-        }
-        false
+    fn received_ping(&mut self, addr: PeerId, nonce: u64) {
+        // Nb. We may receive a `ping` right after the handshake, before we are told
+        // about the peer.
+        self.outbox.pong(addr, nonce);
     }
 
     /// Called when a `pong` is received.
-- 
2.43.0


From 7231d8c588808bf9ab6955bad8f1f140c5d126ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:25 +0000
Subject: [PATCH 18/49] fix: ask to be woken up for ping timeouts and intervals

---
 p2p/src/fsm/pingmgr.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/p2p/src/fsm/pingmgr.rs b/p2p/src/fsm/pingmgr.rs
index b929fe4..1b5abe7 100644
--- a/p2p/src/fsm/pingmgr.rs
+++ b/p2p/src/fsm/pingmgr.rs
@@ -116,7 +116,9 @@ impl<C: Clock> PingManager<C> {
         let nonce = self.rng.u64(..);
         let now = self.clock.local_time();
 
-        self.outbox.ping(address, nonce);
+        self.outbox
+            .ping(address, nonce)
+            .set_timer(self.ping_timeout);
         self.peers.insert(
             address,
             Peer {
@@ -154,8 +156,7 @@ impl<C: Clock> PingManager<C> {
 
                         self.outbox
                             .ping(peer.address, nonce)
-                            .set_timer(self.ping_timeout)
-                            .set_timer(PING_INTERVAL);
+                            .set_timer(self.ping_timeout);
 
                         peer.state = State::AwaitingPong { nonce, since: now };
                     }
@@ -184,6 +185,8 @@ impl<C: Clock> PingManager<C> {
                     if nonce == last_nonce {
                         peer.record_latency(now - since);
                         peer.state = State::Idle { since: now };
+                        // Make sure we're woken up for the next `ping`.
+                        self.outbox.set_timer(PING_INTERVAL);
 
                         return true;
                     }
-- 
2.43.0


From 98230ccc462e21ac80aa99b5a122362ed6f40a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:29 +0000
Subject: [PATCH 19/49] fix: report the blocks imported before an import is
 aborted

---
 chain/src/block/cache.rs | 24 +++++++++++++++++++-----
 common/src/block/tree.rs |  5 +++--
 p2p/src/fsm/syncmgr.rs   | 12 +++++++++---
 3 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/chain/src/block/cache.rs b/chain/src/block/cache.rs
index a363d2b..3505f13 100644
--- a/chain/src/block/cache.rs
+++ b/chain/src/block/cache.rs
@@ -609,6 +609,7 @@ impl<S: Store<Header = BlockHeader>> BlockTree for BlockCache<S> {
         let mut best_height = self.height();
         let mut best_hash = self.chain.last().hash();
         let mut best_header = self.chain.last().header;
+        let mut aborted = None;
 
         for (i, header) in chain.enumerate() {
             match self.import_block(header, context) {
@@ -636,11 +637,14 @@ impl<S: Store<Header = BlockHeader>> BlockTree for BlockCache<S> {
                 Ok(ImportResult::TipUnchanged) => {}
                 Err(Error::DuplicateBlock(hash)) => log::trace!("Duplicate block {}", hash),
                 Err(Error::BlockMissing(hash)) => log::trace!("Missing block {}", hash),
-                Err(err) => return Err(Error::BlockImportAborted(err.into(), i, self.height())),
+                Err(err) => {
+                    aborted = Some((err, i));
+                    break;
+                }
             }
         }
 
-        if !connected.is_empty() {
+        let result = if !connected.is_empty() {
             // Don't return connected blocks if they are not in the main chain, or if they were
             // already part of it before the import.
             connected.retain(|i, h| {
@@ -650,7 +654,7 @@ impl<S: Store<Header = BlockHeader>> BlockTree for BlockCache<S> {
             // Don't return reverted blocks if they are back in the main chain.
             reverted.retain(|(_, h), _| !self.contains(h));
 
-            Ok(ImportResult::TipChanged {
+            ImportResult::TipChanged {
                 header: best_header,
                 hash: best_hash,
                 height: best_height,
@@ -662,9 +666,19 @@ impl<S: Store<Header = BlockHeader>> BlockTree for BlockCache<S> {
                 connected: NonEmpty::from_vec(connected.into_iter().collect()).expect(
                     "BlockCache::import_blocks: there is always at least one connected block",
                 ),
-            })
+            }
         } else {
-            Ok(ImportResult::TipUnchanged)
+            ImportResult::TipUnchanged
+        };
+
+        match aborted {
+            Some((err, i)) => Err(Error::BlockImportAborted(
+                err.into(),
+                i,
+                self.height(),
+                result.into(),
+            )),
+            None => Ok(result),
         }
     }
 
diff --git a/common/src/block/tree.rs b/common/src/block/tree.rs
index 1c63e3d..1035416 100644
--- a/common/src/block/tree.rs
+++ b/common/src/block/tree.rs
@@ -45,9 +45,10 @@ pub enum Error {
     #[error("block missing: {0}")]
     BlockMissing(BlockHash),
 
-    /// A block import was aborted. FIXME: Move this error out of here.
+    /// A block import was aborted. The last field is the result of importing the blocks
+    /// that came before the one that failed. FIXME: Move this error out of here.
     #[error("block import aborted at height {2}: {0} ({1} block(s) imported)")]
-    BlockImportAborted(Box<Self>, usize, Height),
+    BlockImportAborted(Box<Self>, usize, Height, Box<ImportResult>),
 
     /// Mismatched genesis.
     #[error("stored genesis header doesn't match network genesis")]
diff --git a/p2p/src/fsm/syncmgr.rs b/p2p/src/fsm/syncmgr.rs
index da8d6de..0f61061 100644
--- a/p2p/src/fsm/syncmgr.rs
+++ b/p2p/src/fsm/syncmgr.rs
@@ -244,14 +244,20 @@ impl<C: Clock> SyncManager<C> {
         tree: &mut T,
     ) -> Result<ImportResult, Error> {
         let result = tree.import_blocks(blocks, &self.clock);
+        // Nb. If the import was aborted, some of the blocks may still have been imported.
+        let imported = match &result {
+            Ok(imported) => Some(imported),
+            Err(Error::BlockImportAborted(_, _, _, imported)) => Some(imported.as_ref()),
+            Err(_) => None,
+        };
 
-        if let Ok(ImportResult::TipChanged {
+        if let Some(ImportResult::TipChanged {
             hash,
             height,
             reverted,
             connected,
             ..
-        }) = &result
+        }) = imported
         {
             let reorg = !reverted.is_empty();
 
@@ -367,7 +373,7 @@ impl<C: Clock> SyncManager<C> {
             // Harmless errors can be ignored.
             Err(Error::DuplicateBlock(_) | Error::BlockMissing(_)) => {}
             // TODO: This will be removed.
-            Err(Error::BlockImportAborted(_, _, _)) => {}
+            Err(Error::BlockImportAborted(_, _, _, _)) => {}
             // These shouldn't happen here.
             // TODO: Perhaps there's a better way to have this error not show up here.
             Err(Error::Interrupted | Error::GenesisMismatch) => {}
-- 
2.43.0


From 4c2b8ee56fb940389fca118d72a7eeaad62fb083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:37 +0000
Subject: [PATCH 20/49] fix: treat peers that send invalid headers as
 misbehaving

---
 p2p/src/fsm/syncmgr.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/p2p/src/fsm/syncmgr.rs b/p2p/src/fsm/syncmgr.rs
index 0f61061..5164ed9 100644
--- a/p2p/src/fsm/syncmgr.rs
+++ b/p2p/src/fsm/syncmgr.rs
@@ -320,7 +320,13 @@ impl<C: Clock> SyncManager<C> {
             return;
         }
 
-        match self.import_blocks(headers.into_iter(), tree) {
+        let result = match self.import_blocks(headers.into_iter(), tree) {
+            // What matters is the reason for which the import was aborted.
+            Err(Error::BlockImportAborted(err, _, _, _)) => Err(*err),
+            result => result,
+        };
+
+        match result {
             Ok(ImportResult::TipUnchanged) => {
                 // Try to find a common ancestor that leads up to the first header in
                 // the list we received.
@@ -372,11 +378,13 @@ impl<C: Clock> SyncManager<C> {
             }
             // Harmless errors can be ignored.
             Err(Error::DuplicateBlock(_) | Error::BlockMissing(_)) => {}
-            // TODO: This will be removed.
-            Err(Error::BlockImportAborted(_, _, _, _)) => {}
             // These shouldn't happen here.
             // TODO: Perhaps there's a better way to have this error not show up here.
-            Err(Error::Interrupted | Error::GenesisMismatch) => {}
+            Err(
+                Error::BlockImportAborted(_, _, _, _)
+                | Error::Interrupted
+                | Error::GenesisMismatch,
+            ) => {}
         }
     }
 
-- 
2.43.0


From 8f1b3a633acdf57dc526b389569d51433815180a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:13 +0000
Subject: [PATCH 21/49] fix: don't fail an assertion when a peer makes us
 repeat a header request

---
 p2p/src/fsm/syncmgr.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/p2p/src/fsm/syncmgr.rs b/p2p/src/fsm/syncmgr.rs
index 5164ed9..632f660 100644
--- a/p2p/src/fsm/syncmgr.rs
+++ b/p2p/src/fsm/syncmgr.rs
@@ -400,8 +400,6 @@ impl<C: Clock> SyncManager<C> {
             return;
         }
         if let Some(peer) = self.peers.get_mut(&addr) {
-            debug_assert!(peer.last_asked.as_ref() != Some(&locators));
-
             peer.last_asked = Some(locators.clone());
 
             let sent_at = self.clock.local_time();
-- 
2.43.0


From 49040e4885cb8e918114c804733600ec8696fde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:49 +0000
Subject: [PATCH 22/49] fix: request headers from any suitable peer if none is
 preferred

---
 p2p/src/fsm/syncmgr.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/syncmgr.rs b/p2p/src/fsm/syncmgr.rs
index 632f660..1f69c53 100644
--- a/p2p/src/fsm/syncmgr.rs
+++ b/p2p/src/fsm/syncmgr.rs
@@ -588,7 +588,19 @@ impl<C: Clock> SyncManager<C> {
             .iter()
             .filter(|(a, p)| self.is_request_candidate(a, p, locators))
             .find(|(_, p)| p.preferred && p.height > height)
-            .or_else(|| peers.iter().find(|(_, p)| p.preferred))
+            // If none of the preferred peers can help, any other peer will do.
+            .or_else(|| {
+                peers
+                    .iter()
+                    .filter(|(a, p)| self.is_request_candidate(a, p, locators))
+                    .find(|(_, p)| p.height > height)
+            })
+            // As a last resort, ask a peer that we've already asked.
+            .or_else(|| {
+                peers.iter().find(|(a, p)| {
+                    p.link.is_outbound() && p.height > height && !self.inflight.contains_key(*a)
+                })
+            })
             .map(|(a, _)| **a)
     }
 
-- 
2.43.0


From 717688843a9dd584ae5a1003c1291bf760e9af28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:03 +0000
Subject: [PATCH 23/49] fix: don't ask a peer over and over for headers of a
 known side branch

---
 p2p/src/fsm/syncmgr.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/p2p/src/fsm/syncmgr.rs b/p2p/src/fsm/syncmgr.rs
index 1f69c53..715c6bc 100644
--- a/p2p/src/fsm/syncmgr.rs
+++ b/p2p/src/fsm/syncmgr.rs
@@ -327,6 +327,16 @@ impl<C: Clock> SyncManager<C> {
         };
 
         match result {
+            // The headers are part of a branch that we know of, which isn't better than our chain.
+            // Unless there is more to come, there is nothing to ask for.
+            Ok(ImportResult::TipUnchanged) if tree.find_branch(&root).is_some() => {
+                if length == MAX_MESSAGE_HEADERS {
+                    let locators = (vec![best], BlockHash::all_zeros());
+                    let timeout = self.config.request_timeout;
+
+                    self.request(*from, locators, timeout, OnTimeout::Ignore);
+                }
+            }
             Ok(ImportResult::TipUnchanged) => {
                 // Try to find a common ancestor that leads up to the first header in
                 // the list we received.
-- 
2.43.0


From a69e2ebe687fc5a0414a71a24ae8362a5f0a7d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:13 +0000
Subject: [PATCH 24/49] fix: don't panic if filter headers arrive when no
 filter peer is left

---
 p2p/src/fsm/cbfmgr.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index b3d6d99..26afb07 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -704,7 +704,9 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
         self.filters
             .import_headers(headers)
             .map(|height| {
-                self.headers_imported(start_height, height, tree).unwrap(); // TODO
+                // If we're not connected to any filter peer at this point, the filters are requested
+                // when we sync with the next one.
+                self.headers_imported(start_height, height, tree).ok();
 
                 assert!(height <= tree.height());
 
-- 
2.43.0


From 352b425c1faced3762fcd8d63b514f868794ccf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:13 +0000
Subject: [PATCH 25/49] fix: forget filter header requests for reverted blocks

---
 p2p/src/fsm/cbfmgr.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index 26afb07..146ce29 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -219,6 +219,9 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
                     if let Err(e) = self.rollback(fork_height) {
                         self.outbox.error(e);
                     }
+                    // Peers on the new chain can't answer requests for reverted blocks.
+                    self.inflight
+                        .retain(|stop_hash, _| tree.get_block(stop_hash).is_some());
                 }
                 // Trigger a filter sync, since we're going to have to catch up on the
                 // new block header(s). This is not required, but reduces latency.
-- 
2.43.0


From 285820fd25a07efdd1e0ac4f48cc8ccd4d4066e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:13 +0000
Subject: [PATCH 26/49] fix: scan up to and including the end of a rescan range

---
 p2p/src/fsm/cbfmgr.rs        | 14 ++++++++++----
 p2p/src/fsm/cbfmgr/rescan.rs |  8 ++++++--
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index 146ce29..9c46f0b 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -355,8 +355,7 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
         if now - self.last_processed.unwrap_or_default() >= DEFAULT_REQUEST_TIMEOUT {
             if self.rescan.active {
                 self.rescan.reset(); // Clear pending request queue.
-                self.get_cfilters(self.rescan.current..=self.filters.height(), tree)
-                    .ok();
+                self.get_cfilters(self.rescan_remaining(), tree).ok();
             }
         }
     }
@@ -597,11 +596,18 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
 
         if self.rescan.active {
             // TODO: Don't do this too often.
-            self.get_cfilters(self.rescan.current..=self.filters.height(), tree)
-                .ok();
+            self.get_cfilters(self.rescan_remaining(), tree).ok();
         }
     }
 
+    /// The range of heights remaining to be scanned, up to the filter header chain height.
+    fn rescan_remaining(&self) -> RangeInclusive<Height> {
+        let height = self.filters.height();
+        let stop = self.rescan.end.map_or(height, |h| Height::min(h, height));
+
+        self.rescan.current..=stop
+    }
+
     /// Remove transaction from list of transactions being watch.
     fn unwatch_transaction(&mut self, txid: &Txid) -> bool {
         self.rescan.transactions.remove(txid).is_some()
diff --git a/p2p/src/fsm/cbfmgr/rescan.rs b/p2p/src/fsm/cbfmgr/rescan.rs
index f308520..aac19fa 100644
--- a/p2p/src/fsm/cbfmgr/rescan.rs
+++ b/p2p/src/fsm/cbfmgr/rescan.rs
@@ -110,7 +110,11 @@ impl Rescan {
         let mut current = self.current;
         let old = current;
 
-        while let Some((filter, block_hash, cached)) = self.received.remove(&current) {
+        while self.end.map_or(true, |end| current <= end) {
+            let (filter, block_hash, cached) = match self.received.remove(&current) {
+                Some(next) => next,
+                None => break,
+            };
             let (matched, valid) = if let Ok(matched) = self.match_filter(&filter, &block_hash) {
                 (matched, true)
             } else {
@@ -132,7 +136,7 @@ impl Rescan {
         self.current = current;
 
         if let Some(stop) = self.end {
-            if self.current == stop {
+            if self.active && self.current > stop {
                 self.active = false;
                 events.push(Event::FilterRescanStopped { height: stop });
             }
-- 
2.43.0


From 1c16e142fa2530b7626bed8eb54cc9d292cbf182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:42 +0000
Subject: [PATCH 27/49] fix: complete rescans of an empty range

---
 p2p/src/fsm/cbfmgr.rs | 57 +++++++++++++++++--------------------------
 1 file changed, 22 insertions(+), 35 deletions(-)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index 9c46f0b..574e764 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -381,48 +381,35 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
         watch: Vec<Script>,
         tree: &T,
     ) -> Vec<(Height, BlockHash)> {
-        self.rescan.restart(
-            match start {
-                Bound::Unbounded => tree.height() + 1,
-                Bound::Included(h) => h,
-                Bound::Excluded(h) => h + 1,
-            },
-            match end {
-                Bound::Unbounded => None,
-                Bound::Included(h) => Some(h),
-                Bound::Excluded(h) => Some(h - 1),
-            },
-            watch,
-        );
+        let start = match start {
+            Bound::Unbounded => tree.height() + 1,
+            Bound::Included(h) => h,
+            Bound::Excluded(h) => h + 1,
+        };
+        let (start, end) = match end {
+            Bound::Unbounded => (start, None),
+            Bound::Included(h) => (start, Some(h)),
+            // The range is empty.
+            Bound::Excluded(0) => (start.max(1), Some(0)),
+            Bound::Excluded(h) => (start, Some(h - 1)),
+        };
+        self.rescan.restart(start, end, watch);
 
         self.outbox.event(Event::FilterRescanStarted {
             start: self.rescan.start,
             stop: self.rescan.end,
         });
 
-        if self.rescan.watch.is_empty() {
-            return vec![];
-        }
-
-        let height = self.filters.height();
-        let start = self.rescan.start;
-        let stop = self
-            .rescan
-            .end
-            // Don't request further than the filter chain height.
-            .map(|h| Height::min(h, height))
-            .unwrap_or(height);
-        let range = start..=stop;
+        // Don't request further than the filter chain height.
+        let range = self.rescan_remaining();
 
-        if range.is_empty() {
-            return vec![];
-        }
-
-        // Start fetching the filters we can.
-        match self.get_cfilters(range, tree) {
-            Ok(()) => {}
-            Err(GetFiltersError::NotConnected) => {}
-            Err(err) => panic!("{}: Error fetching filters: {}", source!(), err),
+        if !self.rescan.watch.is_empty() && !range.is_empty() {
+            // Start fetching the filters we can.
+            match self.get_cfilters(range, tree) {
+                Ok(()) => {}
+                Err(GetFiltersError::NotConnected) => {}
+                Err(err) => panic!("{}: Error fetching filters: {}", source!(), err),
+            }
         }
         // When we reset the rescan range, there is the possibility of getting immediate cache
         // hits from `get_cfilters`. Hence, process the filter queue.
-- 
2.43.0


From d1df7f8b955f4a6791bb461d6b188ec9d0479fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:36 +0000
Subject: [PATCH 28/49] fix: discard the received filters of reverted blocks

---
 p2p/src/fsm/cbfmgr/rescan.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/cbfmgr/rescan.rs b/p2p/src/fsm/cbfmgr/rescan.rs
index aac19fa..7b403b3 100644
--- a/p2p/src/fsm/cbfmgr/rescan.rs
+++ b/p2p/src/fsm/cbfmgr/rescan.rs
@@ -83,7 +83,9 @@ impl Rescan {
 
     /// Rollback state to height.
     pub fn rollback(&mut self, to: Height) {
-        self.cache.rollback(to)
+        self.cache.rollback(to);
+        // Filters of reverted blocks must not be processed.
+        self.received.retain(|height, _| *height <= to);
     }
 
     /// A filter was received.
-- 
2.43.0


From fa2e4d4f48a718279f99fc7d5201993ded987cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:36 +0000
Subject: [PATCH 29/49] fix: don't queue filters that aren't part of the rescan

---
 p2p/src/fsm/cbfmgr/rescan.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/cbfmgr/rescan.rs b/p2p/src/fsm/cbfmgr/rescan.rs
index 7b403b3..7298503 100644
--- a/p2p/src/fsm/cbfmgr/rescan.rs
+++ b/p2p/src/fsm/cbfmgr/rescan.rs
@@ -61,6 +61,7 @@ impl Rescan {
         self.end = end;
         self.watch = watch.into_iter().collect();
         self.requested.clear();
+        self.received.clear();
     }
 
     /// Return info string on rescan state.
@@ -97,7 +98,11 @@ impl Rescan {
             let filter = Rc::new(filter);
 
             self.cache.push(height, filter.clone());
-            self.received.insert(height, (filter, block_hash, false));
+            // Filters can also be requested outside of a rescan, or behind it. Those are not
+            // queued, as they would be processed if the rescan ever gets to their height.
+            if self.active && height >= self.current {
+                self.received.insert(height, (filter, block_hash, false));
+            }
         }
         requested
     }
-- 
2.43.0


From 566286070299e662bb2097e0d5760a67444e96c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:36 +0000
Subject: [PATCH 30/49] fix: use cached filters for rescans while not connected
 to a peer

---
 p2p/src/fsm/cbfmgr.rs        |  5 +++--
 p2p/src/fsm/cbfmgr/rescan.rs | 28 ++++++++++++++++++----------
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index 574e764..a573a99 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -405,9 +405,10 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
 
         if !self.rescan.watch.is_empty() && !range.is_empty() {
             // Start fetching the filters we can.
-            match self.get_cfilters(range, tree) {
+            match self.get_cfilters(range.clone(), tree) {
                 Ok(()) => {}
-                Err(GetFiltersError::NotConnected) => {}
+                // We may still have some of the filters.
+                Err(GetFiltersError::NotConnected) => self.rescan.load(range, tree),
                 Err(err) => panic!("{}: Error fetching filters: {}", source!(), err),
             }
         }
diff --git a/p2p/src/fsm/cbfmgr/rescan.rs b/p2p/src/fsm/cbfmgr/rescan.rs
index 7298503..e37b1a2 100644
--- a/p2p/src/fsm/cbfmgr/rescan.rs
+++ b/p2p/src/fsm/cbfmgr/rescan.rs
@@ -174,6 +174,23 @@ impl Rescan {
         Ok(matched)
     }
 
+    /// Insert the cached filters of the given range into the processing queue.
+    pub fn load<T: BlockReader>(&mut self, range: RangeInclusive<Height>, tree: &T) {
+        for height in range {
+            if !self.active || height < self.current {
+                continue;
+            }
+            if let Some(filter) = self.cache.get(&height) {
+                if let Some(header) = tree.get_block_by_height(height) {
+                    let block_hash = header.block_hash();
+
+                    self.received
+                        .insert(height, (filter.clone(), block_hash, true));
+                }
+            }
+        }
+    }
+
     /// Given a range of filter heights, return the ranges that are missing.
     /// This is useful to figure out which ranges to fetch while ensuring we don't request
     /// the same heights more than once.
@@ -186,16 +203,7 @@ impl Rescan {
             return vec![];
         }
 
-        for height in range.clone() {
-            if let Some(filter) = self.cache.get(&height) {
-                if let Some(header) = tree.get_block_by_height(height) {
-                    let block_hash = header.block_hash();
-                    // Insert the cached filters into the processing queue.
-                    self.received
-                        .insert(height, (filter.clone(), block_hash, true));
-                }
-            }
-        }
+        self.load(range.clone(), tree);
 
         // Heights to skip.
         // Note that cached heights will have been added to the `received` list.
-- 
2.43.0


From efb9f97548cd6b6a77879145a389d2ecc14a0699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:08 +0000
Subject: [PATCH 31/49] fix: report blocks that match cached filters

---
 p2p/src/fsm/cbfmgr.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index a573a99..067c15f 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -418,6 +418,9 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
         for event in events {
             self.outbox.event(event);
         }
+        // Make sure the matching blocks are reported when they are received.
+        self.pending_blocks.extend(matches.iter().map(|(h, _)| *h));
+
         matches
     }
 
-- 
2.43.0


From 0372d7fd2b73b9ff6231cae2a3be84569aa69906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:08 +0000
Subject: [PATCH 32/49] fix: don't panic if the filter header chain is ahead of
 the block header chain

---
 p2p/src/fsm/cbfmgr.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index 067c15f..0aca8bc 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -164,6 +164,11 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
 
     /// Initialize the manager. Should only be called once.
     pub fn initialize<T: BlockReader>(&mut self, tree: &T) {
+        // The filter header store may be ahead of the block header store, eg. if we were stopped
+        // before the latter was written to disk.
+        if let Err(e) = self.rollback(tree.height()) {
+            self.outbox.error(e);
+        }
         self.idle(tree);
     }
 
@@ -561,7 +566,11 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
         let filter_height = self.filters.height();
         let block_height = tree.height();
 
-        assert!(filter_height <= block_height);
+        // Nb. When block headers are reverted, the filter headers only follow once the event is
+        // processed.
+        if filter_height > block_height {
+            return;
+        }
 
         // Don't start syncing filter headers until block headers are synced passed the last
         // checkpoint. BIP 157 states that we should sync the full block header chain before
-- 
2.43.0


From fc62e48119d9479cf40b5a033b46498cf097ed9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:08 +0000
Subject: [PATCH 33/49] fix: don't accept blocks with contents that don't match
 the header

---
 p2p/src/fsm/invmgr.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/invmgr.rs b/p2p/src/fsm/invmgr.rs
index bf76a3b..d26f515 100644
--- a/p2p/src/fsm/invmgr.rs
+++ b/p2p/src/fsm/invmgr.rs
@@ -390,12 +390,21 @@ impl<C: Clock> InventoryManager<C> {
     /// Note that the confirmed transactions don't necessarily pertain to this block.
     pub fn received_block<T: BlockReader>(
         &mut self,
-        _from: &PeerId,
+        from: &PeerId,
         block: Block,
         tree: &T,
     ) -> Vec<Txid> {
         let hash = block.block_hash();
 
+        // The block hash only commits to the header.
+        if self.remaining.contains_key(&hash) && !is_authentic(&block) {
+            self.outbox.event(Event::PeerMisbehaved {
+                addr: *from,
+                reason: "block contents don't match the header",
+            });
+            return vec![];
+        }
+
         if self.remaining.remove(&hash).is_none() {
             // Nb. The remote isn't necessarily sending an unsolicited block here.
             // We often have to ask multiple peers to get a response, so we may
@@ -513,6 +522,16 @@ impl<C: Clock> InventoryManager<C> {
     }
 }
 
+/// Check that the contents of a block are the ones its header commits to.
+fn is_authentic(block: &Block) -> bool {
+    // Nb. Repeating transactions can leave the merkle root unchanged.
+    let mut txids = std::collections::HashSet::new();
+
+    block.check_merkle_root()
+        && block.check_witness_commitment()
+        && block.txdata.iter().all(|tx| txids.insert(tx.txid()))
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 48dd8fb2cd776afa8ccc387e645ef1d95a458268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:13 +0000
Subject: [PATCH 34/49] fix: forget requested blocks that are reverted

---
 p2p/src/fsm/invmgr.rs | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/p2p/src/fsm/invmgr.rs b/p2p/src/fsm/invmgr.rs
index d26f515..f4887b3 100644
--- a/p2p/src/fsm/invmgr.rs
+++ b/p2p/src/fsm/invmgr.rs
@@ -171,8 +171,20 @@ impl<C: Clock> InventoryManager<C> {
                 self.peers.remove(&addr);
             }
             Event::BlockHeadersImported { reverted, .. } => {
-                for (height, _) in reverted {
-                    self.block_reverted(height);
+                for (height, header) in &reverted {
+                    self.block_reverted(*height);
+
+                    // Blocks that are no longer part of the active chain must not be delivered,
+                    // nor hold back the delivery of the others.
+                    let hash = header.block_hash();
+
+                    self.remaining.remove(&hash);
+                    if self.received.get(height).map(|b| b.block_hash()) == Some(hash) {
+                        self.received.remove(height);
+                    }
+                }
+                if !reverted.is_empty() {
+                    self.process_received();
                 }
             }
             Event::MessageReceived { from, message } => match message.as_ref() {
@@ -420,15 +432,15 @@ impl<C: Clock> InventoryManager<C> {
         // Find the block height, otherwise we've somehow requested a block which
         // isn't part of the active chain. This could happen in the case of a re-org
         // and a delayed block arrival.
-        let height = if let Some((height, _)) = tree.get_block(&hash) {
-            height
-        } else {
-            return vec![];
-        };
-
-        // Add to processing queue. Blocks are processed in-order only.
-        self.received.insert(height, block);
+        if let Some((height, _)) = tree.get_block(&hash) {
+            // Add to processing queue. Blocks are processed in-order only.
+            self.received.insert(height, block);
+        }
+        self.process_received()
+    }
 
+    /// Process the received blocks, if there are no blocks remaining to download.
+    fn process_received(&mut self) -> Vec<Txid> {
         // If there are still blocks remaining to download, don't process any of the
         // received queue yet.
         if !self.remaining.is_empty() {
-- 
2.43.0


From 918417ba92e4d2649ed5578497f3ddb85c513bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:13 +0000
Subject: [PATCH 35/49] fix: don't announce transactions to new peers that
 don't relay them

---
 p2p/src/fsm/invmgr.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/p2p/src/fsm/invmgr.rs b/p2p/src/fsm/invmgr.rs
index f4887b3..73a27e4 100644
--- a/p2p/src/fsm/invmgr.rs
+++ b/p2p/src/fsm/invmgr.rs
@@ -211,8 +211,10 @@ impl<C: Clock> InventoryManager<C> {
     ) {
         // Add existing inventories to this peer's outbox so that they are announced.
         let mut outbox = HashMap::with_hasher(self.rng.clone().into());
-        for (wtxid, tx) in self.mempool.iter() {
-            outbox.insert(*wtxid, tx.txid());
+        if relay {
+            for (wtxid, tx) in self.mempool.iter() {
+                outbox.insert(*wtxid, tx.txid());
+            }
         }
         self.schedule_tick();
         self.peers.insert(
-- 
2.43.0


From a0f74397804dd1e12088e010b1ef16b5e0d635a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:13 +0000
Subject: [PATCH 36/49] fix: don't underflow when pruning transactions
 confirmed above the active chain

---
 p2p/src/fsm/invmgr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/src/fsm/invmgr.rs b/p2p/src/fsm/invmgr.rs
index 73a27e4..2a3be08 100644
--- a/p2p/src/fsm/invmgr.rs
+++ b/p2p/src/fsm/invmgr.rs
@@ -263,7 +263,7 @@ impl<C: Clock> InventoryManager<C> {
             // Prune confirmed transactions burried passed a certain depth.
             let height = tree.height();
             self.confirmed
-                .retain(|h, _| height - h <= TRANSACTION_PRUNE_DEPTH);
+                .retain(|h, _| height.saturating_sub(*h) <= TRANSACTION_PRUNE_DEPTH);
         }
 
         // Handle retries annd disconnects.
-- 
2.43.0


From 97b0bdd5b3a32e29cf27f34dd49d952467097782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:13 +0000
Subject: [PATCH 37/49] fix: confirm transactions in blocks received without
 witnesses

---
 p2p/src/fsm/invmgr.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/invmgr.rs b/p2p/src/fsm/invmgr.rs
index 2a3be08..5683f3f 100644
--- a/p2p/src/fsm/invmgr.rs
+++ b/p2p/src/fsm/invmgr.rs
@@ -463,7 +463,13 @@ impl<C: Clock> InventoryManager<C> {
             let hash = block.block_hash();
 
             for tx in &block.txdata {
-                let wtxid = tx.wtxid();
+                // Nb. Blocks are requested, and therefore received, without witnesses, hence the
+                // `wtxid` can't be used to find the transaction.
+                let txid = tx.txid();
+                let wtxid = match self.mempool.iter().find(|(_, t)| t.txid() == txid) {
+                    Some((wtxid, _)) => *wtxid,
+                    None => continue,
+                };
 
                 // Attempt to remove confirmed transaction from mempool.
                 if let Some(transaction) = self.mempool.remove(&wtxid) {
-- 
2.43.0


From a7475e5f582d6fc6cd701e953389cda70153506c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:14 +0000
Subject: [PATCH 38/49] fix: don't offer an address while any connection to it
 is open

---
 p2p/src/fsm/addrmgr.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/p2p/src/fsm/addrmgr.rs b/p2p/src/fsm/addrmgr.rs
index 7d24d4a..51c0c40 100644
--- a/p2p/src/fsm/addrmgr.rs
+++ b/p2p/src/fsm/addrmgr.rs
@@ -61,12 +61,17 @@ impl<P: Store, C> AddressManager<P, C> {
             if time - ka.last_sampled.unwrap_or_default() < SAMPLE_TIMEOUT {
                 continue;
             }
-            if !self.connected.contains(addr) {
+            if !self.is_connected(addr) {
                 return false;
             }
         }
         true
     }
+
+    /// Check whether we have any connection to the given address.
+    fn is_connected(&self, ip: &net::IpAddr) -> bool {
+        self.connected.iter().any(|a| a.ip() == *ip)
+    }
 }
 
 /// Address manager configuration.
@@ -94,7 +99,7 @@ pub struct AddressManager<P, C> {
     peers: P,
     bans: HashSet<net::IpAddr>,
     address_ranges: HashMap<u8, HashSet<net::IpAddr>>,
-    connected: HashSet<net::IpAddr>,
+    connected: HashSet<net::SocketAddr>,
     sources: HashSet<net::SocketAddr>,
     local_addrs: HashSet<net::SocketAddr>,
     /// The last time we asked our peers for new addresses.
@@ -233,14 +238,14 @@ impl<P: Store, C: Clock> AddressManager<P, C> {
         if !self::is_routable(&addr.ip()) || self::is_local(&addr.ip()) {
             return;
         }
-        self.connected.insert(addr.ip());
+        self.connected.insert(*addr);
     }
 
     /// Called when a peer has handshaked.
     fn peer_negotiated(&mut self, addr: &net::SocketAddr, services: ServiceFlags, link: Link) {
         let time = self.clock.local_time();
 
-        if !self.connected.contains(&addr.ip()) {
+        if !self.connected.contains(addr) {
             return;
         }
         if link.is_outbound() {
@@ -268,7 +273,7 @@ impl<P: Store, C: Clock> AddressManager<P, C> {
         addr: &net::SocketAddr,
         reason: Disconnect<super::DisconnectReason>,
     ) {
-        if self.connected.remove(&addr.ip()) {
+        if self.connected.remove(addr) {
             // Disconnected peers cannot be used as a source for new addresses.
             self.sources.remove(addr);
 
@@ -502,7 +507,7 @@ impl<P: Store, C: Clock> AddressManager<P, C> {
                     continue;
                 }
                 // If we're already connected to this address, skip it.
-                if self.connected.contains(ip) {
+                if self.connected.iter().any(|a| a.ip() == *ip) {
                     continue;
                 }
                 // If the provided filter doesn't pass, keep looking.
@@ -551,8 +556,6 @@ impl<P: Store, C: Clock> AddressManager<P, C> {
 
     /// Remove an address from the address book and prevent it from being sampled again.
     fn ban(&mut self, addr: &net::IpAddr) -> bool {
-        debug_assert!(!self.connected.contains(addr));
-
         let key = self::addr_key(addr);
 
         if let Some(range) = self.address_ranges.get_mut(&key) {
-- 
2.43.0


From be33fac25ebd87fb1e860ef9a0f1e4326e91ecf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:14 +0000
Subject: [PATCH 39/49] fix: ban misbehaving peers even if we know no address
 close to theirs

---
 p2p/src/fsm/addrmgr.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/p2p/src/fsm/addrmgr.rs b/p2p/src/fsm/addrmgr.rs
index 51c0c40..c0a822a 100644
--- a/p2p/src/fsm/addrmgr.rs
+++ b/p2p/src/fsm/addrmgr.rs
@@ -558,12 +558,14 @@ impl<P: Store, C: Clock> AddressManager<P, C> {
     fn ban(&mut self, addr: &net::IpAddr) -> bool {
         let key = self::addr_key(addr);
 
+        // TODO: Persist bans.
+        // Nb. Also ban addresses we don't know yet, as we may hear of them later.
+        self.bans.insert(*addr);
+
         if let Some(range) = self.address_ranges.get_mut(&key) {
             range.remove(addr);
 
-            // TODO: Persist bans.
             self.peers.remove(addr);
-            self.bans.insert(*addr);
 
             if range.is_empty() {
                 self.address_ranges.remove(&key);
-- 
2.43.0


From 6a75effb83e9e9fb6e06953695b6f4de5857f3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:14 +0000
Subject: [PATCH 40/49] fix: don't ignore imported addresses

---
 p2p/src/fsm/addrmgr.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/p2p/src/fsm/addrmgr.rs b/p2p/src/fsm/addrmgr.rs
index c0a822a..d3c87ba 100644
--- a/p2p/src/fsm/addrmgr.rs
+++ b/p2p/src/fsm/addrmgr.rs
@@ -373,8 +373,9 @@ impl<P: Store, C: Clock> AddressManager<P, C> {
             if addr.services.has(ServiceFlags::GETUTXO) || addr.services.has(ServiceFlags::BLOOM) {
                 continue;
             }
-            // Ignore addresses that don't have a "last active" time.
-            if last_active == 0 {
+            // Ignore addresses that don't have a "last active" time, unless they were imported,
+            // in which case it isn't known.
+            if last_active == 0 && !matches!(source, Source::Imported) {
                 continue;
             }
             // Ignore addresses that are too far into the future.
@@ -408,7 +409,6 @@ impl<P: Store, C: Clock> AddressManager<P, C> {
             }
 
             let last_active = if last_active == 0 {
-                // TODO: Cannot be 'None' due to above condition.
                 None
             } else {
                 Some(LocalTime::from_block_time(last_active))
-- 
2.43.0


From 335dcb3dab980281d95d7f0218167f69623305fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:41 +0000
Subject: [PATCH 41/49] fix: don't underflow on filter header queries with an
 invalid range

---
 p2p/src/fsm/cbfmgr.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index 0aca8bc..2cc7868 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -759,6 +759,20 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
             });
         };
 
+        if start_height > stop_height {
+            return Err(Error::InvalidMessage {
+                from,
+                reason: "getcfheaders: start height is greater than stop height",
+            });
+        }
+        if stop_height > self.filters.height() {
+            // We don't have all of the headers requested yet.
+            return Err(Error::Ignored {
+                reason: "cfheaders not found",
+                from,
+            });
+        }
+
         let headers = self.filters.get_headers(start_height..=stop_height);
         if !headers.is_empty() {
             let hashes = headers.iter().map(|(hash, _)| *hash);
-- 
2.43.0


From 2f186a35b3e5f1ee1f0b170cc48757012b003672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:17 +0000
Subject: [PATCH 42/49] fix: don't panic on transactions that spend more than
 they have

---
 p2p/src/fsm/fees.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/p2p/src/fsm/fees.rs b/p2p/src/fsm/fees.rs
index 8d45e98..f6919bc 100644
--- a/p2p/src/fsm/fees.rs
+++ b/p2p/src/fsm/fees.rs
@@ -142,8 +142,8 @@ impl FeeEstimator {
     /// Apply the transaction to the UTXO set and calculate the fee rate.
     fn apply(&mut self, tx: &Transaction) -> Option<FeeRate> {
         let txid = tx.txid();
-        let mut received = 0;
-        let mut sent = 0;
+        let mut received: u64 = 0;
+        let mut sent: u64 = 0;
 
         // Look for outputs.
         for (vout, output) in tx.output.iter().enumerate() {
@@ -152,7 +152,7 @@ impl FeeEstimator {
                 vout: vout as u32,
             };
             self.utxos.insert(outpoint, output.clone());
-            sent += output.value;
+            sent = sent.saturating_add(output.value);
         }
         // Since coinbase transactions have no inputs, we only process the outputs.
         if tx.is_coin_base() {
@@ -165,14 +165,13 @@ impl FeeEstimator {
         // the transaction fee. If one is missing, we have to bail.
         for input in tx.input.iter() {
             if let Some(out) = self.utxos.remove(&input.previous_output) {
-                received += out.value;
+                received = received.saturating_add(out.value);
             } else {
                 return None;
             }
         }
-        assert!(received >= sent, "you can't spend what you don't have",);
-
-        let fee = received - sent;
+        // Nb. Blocks aren't fully validated, so we can't rely on this being the case.
+        let fee = received.checked_sub(sent)?;
         let weight = tx.weight();
         let rate = fee as f64 / (weight as f64 / WITNESS_SCALE_FACTOR as f64);
 
-- 
2.43.0


From e5dec4ee1d39c98ad9f59988123308b354f99203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:41 +0000
Subject: [PATCH 43/49] fix: don't panic if filters are requested past the
 filter header chain

---
 p2p/src/fsm/cbfmgr.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index 2cc7868..62da909 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -444,7 +444,9 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
         if range.is_empty() {
             return Err(GetFiltersError::InvalidRange);
         }
-        assert!(*range.end() <= self.filters.height());
+        if *range.end() > self.filters.height() {
+            return Err(GetFiltersError::InvalidRange);
+        }
 
         // TODO: Only ask peers synced to a certain height.
         // Choose a different peer for each requested range.
-- 
2.43.0


From 73b7fcc92bf4c3391a5d371097c216d6ce2a2231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:38 +0000
Subject: [PATCH 44/49] fix: don't send messages of a previous connection
 before the handshake

---
 p2p/src/fsm.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/p2p/src/fsm.rs b/p2p/src/fsm.rs
index 6d4dd0c..20fd592 100644
--- a/p2p/src/fsm.rs
+++ b/p2p/src/fsm.rs
@@ -620,6 +620,10 @@ impl<T: BlockTree, F: Filters, P: peer::Store, C: AdjustedClock<PeerId>> Iterato
 
                 Some(Io::Event(e))
             }
+            // Nb. If we are connecting again to a peer that has just been disconnected, there may
+            // be messages left that were meant for the previous connection. They must not be sent
+            // over the new one.
+            Some(Io::Write(addr, _)) if self.peermgr.is_connecting(&addr) => self.next(),
             other => other,
         }
     }
-- 
2.43.0


From 59e7f2185eb89ea9e0ac2cb08fe87f7e06fe7ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:14 +0000
Subject: [PATCH 45/49] fix: scan cached filters when nothing is watched at the
 start of a rescan

A rescan that is started with an empty watch list, eg. because only submitted
transactions are of interest, would queue the cached filters later on, but never
process them.
---
 p2p/src/fsm/cbfmgr.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index 62da909..6530ea4 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -416,6 +416,9 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
                 Err(GetFiltersError::NotConnected) => self.rescan.load(range, tree),
                 Err(err) => panic!("{}: Error fetching filters: {}", source!(), err),
             }
+        } else {
+            // Even if there is nothing to fetch for now, don't leave out the filters we have.
+            self.rescan.load(range, tree);
         }
         // When we reset the rescan range, there is the possibility of getting immediate cache
         // hits from `get_cfilters`. Hence, process the filter queue.
-- 
2.43.0


From e5bc90c447252bc8e9759e8c7390e636045d69a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:15 +0000
Subject: [PATCH 46/49] fix: mark addresses that received coins as used

---
 wallet/src/wallet.rs    |  1 +
 wallet/src/wallet/db.rs | 13 +++++++++++++
 2 files changed, 14 insertions(+)

diff --git a/wallet/src/wallet.rs b/wallet/src/wallet.rs
index 62a2bff..818eee1 100644
--- a/wallet/src/wallet.rs
+++ b/wallet/src/wallet.rs
@@ -74,6 +74,7 @@ impl<H: Handle> Wallet<H> {
                 let addr =
                     Address::from_script(&output.script_pubkey, self.network.into()).unwrap();
 
+                self.db.use_address(&addr).unwrap();
                 self.db
                     .add_utxo(txid, vout as u32, addr, output.value)
                     .unwrap();
diff --git a/wallet/src/wallet/db.rs b/wallet/src/wallet/db.rs
index e61ea01..9a6a2c8 100644
--- a/wallet/src/wallet/db.rs
+++ b/wallet/src/wallet/db.rs
@@ -51,6 +51,8 @@ pub trait Write {
         index: usize,
         label: Option<&str>,
     ) -> Result<bool, Error>;
+    /// Mark an address as *used*. Returns `false` if it isn't one of ours.
+    fn use_address(&self, address: &Address) -> Result<bool, Error>;
 }
 
 /// Wallet database.
@@ -207,6 +209,17 @@ impl Write for Db {
 
         Ok(self.raw.change_count() > 0)
     }
+
+    fn use_address(&self, address: &Address) -> Result<bool, Error> {
+        let mut stmt = self
+            .raw
+            .prepare("UPDATE addresses SET used = 1 WHERE id = ?")?;
+
+        stmt.bind(1, address.to_string().as_str())?;
+        stmt.next()?;
+
+        Ok(self.raw.change_count() > 0)
+    }
 }
 
 impl Db {
-- 
2.43.0


From f18829e6741221c589e35336ebcef858d1f176cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:15 +0000
Subject: [PATCH 47/49] fix: don't ignore database errors in the wallet

---
 wallet/src/wallet.rs    |  2 +-
 wallet/src/wallet/db.rs | 15 +++++++++------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/wallet/src/wallet.rs b/wallet/src/wallet.rs
index 818eee1..ab0a6ba 100644
--- a/wallet/src/wallet.rs
+++ b/wallet/src/wallet.rs
@@ -84,7 +84,7 @@ impl<H: Handle> Wallet<H> {
         // Look for inputs.
         for input in tx.input.iter() {
             // Spent coin. Remove the address from the set, since it is no longer ours.
-            if let Ok(Some((_, _output))) = self.db.remove_utxo(&input.previous_output) {
+            if let Some((_, _output)) = self.db.remove_utxo(&input.previous_output).unwrap() {
                 // TODO: Handle change addresses?
             }
         }
diff --git a/wallet/src/wallet/db.rs b/wallet/src/wallet/db.rs
index 9a6a2c8..9a7b083 100644
--- a/wallet/src/wallet/db.rs
+++ b/wallet/src/wallet/db.rs
@@ -84,9 +84,10 @@ impl Read for Db {
                 sql::Value::String(outpoint.txid.to_string()),
                 sql::Value::Integer(outpoint.vout as i64),
             ])?
-            .next();
+            .next()
+            .transpose()?;
 
-        if let Some(Ok(row)) = row {
+        if let Some(row) = row {
             let address = row.get::<String, _>("address");
             let script_pubkey = Address::from_str(&address)
                 .map_err(|_| Error::Decoding("address"))?
@@ -111,7 +112,7 @@ impl Read for Db {
             .into_cursor();
 
         let mut utxos = Vec::new();
-        while let Some(Ok(row)) = stmt.next() {
+        while let Some(row) = stmt.next().transpose()? {
             let Record((txid, vout, address, value)): Record<(String, i64, String, Balance)> =
                 row.try_into()?;
             let txid = txid.parse().map_err(|_| Error::Decoding("txid"))?;
@@ -141,7 +142,7 @@ impl Read for Db {
             .into_cursor();
         let mut addrs = Vec::new();
 
-        while let Some(Ok(row)) = stmt.next() {
+        while let Some(row) = stmt.next().transpose()? {
             let addr = AddressRecord::try_from(&row)?;
             addrs.push(addr);
         }
@@ -165,7 +166,8 @@ impl Write for Db {
                 sql::Value::Integer(value as i64),
                 sql::Value::Integer(0), // TODO: Set transaction time
             ])?
-            .next();
+            .next()
+            .transpose()?;
 
         Ok(self.raw.change_count() > 0)
     }
@@ -205,7 +207,8 @@ impl Write for Db {
                     .map(|s| sql::Value::String(s.to_owned()))
                     .unwrap_or(sql::Value::Null),
             ])?
-            .next();
+            .next()
+            .transpose()?;
 
         Ok(self.raw.change_count() > 0)
     }
-- 
2.43.0


From e1680e7ba224815fb2a38e83aa730b6ec43ac2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:15 +0000
Subject: [PATCH 48/49] fix: wake the service for due timers also when there is
 i/o

---
 net/poll/src/reactor.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/net/poll/src/reactor.rs b/net/poll/src/reactor.rs
index 436f606..6b4e6f1 100644
--- a/net/poll/src/reactor.rs
+++ b/net/poll/src/reactor.rs
@@ -258,18 +258,19 @@ impl<Id: PeerId> nakamoto_net::Reactor<Id> for Reactor<net::TcpStream, Id> {
                         }
                     }
                 }
-                Err(err) if err.kind() == io::ErrorKind::TimedOut => {
-                    // Nb. The way this is currently used basically ignores which keys have
-                    // timed out. So as long as *something* timed out, we wake the service.
-                    self.timeouts.wake(local_time, &mut timeouts);
-
-                    if !timeouts.is_empty() {
-                        timeouts.clear();
-                        service.timer_expired();
-                    }
-                }
+                Err(err) if err.kind() == io::ErrorKind::TimedOut => {}
                 Err(err) => return Err(err.into()),
             }
+
+            // Nb. The way this is currently used basically ignores which keys have
+            // timed out. So as long as *something* timed out, we wake the service, also
+            // when there was i/o, since there may always be some.
+            self.timeouts.wake(local_time, &mut timeouts);
+
+            if !timeouts.is_empty() {
+                timeouts.clear();
+                service.timer_expired();
+            }
             self.process(&mut service, &mut publisher, local_time);
         }
     }
-- 
2.43.0


From 55e64759e6b79cd5abcb4685bb154a14dc7dc60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:15 +0000
Subject: [PATCH 49/49] fix: don't report refused connections as established

---
 net/poll/src/reactor.rs | 7 +++++++
 net/poll/src/socket.rs  | 5 +++++
 2 files changed, 12 insertions(+)

diff --git a/net/poll/src/reactor.rs b/net/poll/src/reactor.rs
index 6b4e6f1..7ba8117 100644
--- a/net/poll/src/reactor.rs
+++ b/net/poll/src/reactor.rs
@@ -422,6 +422,13 @@ impl<Id: PeerId> Reactor<net::TcpStream, Id> {
         // Since we perform a non-blocking connect, we're only really connected once the socket
         // is writable.
         if self.connecting.remove(&addr) {
+            // Nb. The socket is also writable if the connection couldn't be established.
+            if let Some(err) = socket.take_error()? {
+                trace!("{}: Connection error: {}", socket_addr, err.to_string());
+
+                self.unregister_peer(addr, Disconnect::ConnectionError(Arc::new(err)), service);
+                return Ok(());
+            }
             let local_addr = socket.local_address()?;
 
             service.connected(addr.clone(), &local_addr, socket.link);
diff --git a/net/poll/src/socket.rs b/net/poll/src/socket.rs
index 2347fa5..d851af6 100644
--- a/net/poll/src/socket.rs
+++ b/net/poll/src/socket.rs
@@ -23,6 +23,11 @@ impl Socket<net::TcpStream> {
         self.raw.local_addr()
     }
 
+    /// Get the pending error of the socket, if any.
+    pub fn take_error(&self) -> io::Result<Option<io::Error>> {
+        self.raw.take_error()
+    }
+
     /// Disconnect socket.
     pub fn disconnect(&self) -> io::Result<()> {
         self.raw.shutdown(net::Shutdown::Both)
-- 
2.43.0

