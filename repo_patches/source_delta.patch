From 87dffb6868f4e850f527b93970046f5e42ebc238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:59 +0000
Subject: [PATCH 01/53] fix: provide contract global state in the consensus
 order

Reading global state panicked once a contract had more than one item or an
item with an archived witness, since items were ordered by operation ids and
archived witnesses were not filtered out. Computing the number of items also
exhausted the iterator.
---
 src/persistence/memory.rs | 70 ++++++++++++++++-----------------------
 1 file changed, 28 insertions(+), 42 deletions(-)

diff --git a/src/persistence/memory.rs b/src/persistence/memory.rs
index 4126daa..a61ad72 100644
--- a/src/persistence/memory.rs
+++ b/src/persistence/memory.rs
@@ -20,12 +20,11 @@
 // limitations under the License.
 
 use std::borrow::Borrow;
-use std::cmp::Ordering;
 use std::collections::{BTreeMap, BTreeSet, HashMap};
 use std::convert::Infallible;
 use std::fmt::{Debug, Formatter};
 use std::num::NonZeroU32;
-use std::{iter, mem};
+use std::mem;
 
 use aluvm::library::{Lib, LibId};
 use amplify::confinement::{
@@ -885,21 +884,13 @@ impl<M: Borrow<MemContractState>> ContractStateAccess for MemContract<M> {
             depth: u24,
             constructor: Box<dyn Fn(Src<'a>) -> FilteredIter<'a> + 'a>,
         }
-        impl<'a> Iter<'a> {
-            fn swap(&mut self) -> FilteredIter<'a> {
-                let mut iter = (self.constructor)(self.src);
-                mem::swap(&mut iter, &mut self.iter);
-                iter
-            }
-        }
         impl<'a> GlobalStateIter for Iter<'a> {
             type Data = &'a DataState;
             fn size(&mut self) -> u24 {
-                let iter = self.swap();
                 // TODO: Consuming iterator just to count items is highly inefficient, but I do
                 //       not know any other way of computing this value
-                let size = iter.count();
-                u24::try_from(size as u32).expect("iterator size must fit u24 due to `take` limit")
+                let size = (self.constructor)(self.src).count();
+                u24::try_from(size as u32).expect("iterator size must fit u24 due to the limit")
             }
             fn prev(&mut self) -> Option<(GlobalOrd, Self::Data)> {
                 self.last = self.iter.next();
@@ -908,17 +899,9 @@ impl<M: Borrow<MemContractState>> ContractStateAccess for MemContract<M> {
             }
             fn last(&mut self) -> Option<(GlobalOrd, Self::Data)> { self.last }
             fn reset(&mut self, depth: u24) {
-                match self.depth.cmp(&depth) {
-                    Ordering::Less => {
-                        let mut iter = Box::new(iter::empty()) as FilteredIter;
-                        mem::swap(&mut self.iter, &mut iter);
-                        self.iter = Box::new(iter.skip(depth.to_usize() - depth.to_usize()))
-                    }
-                    Ordering::Equal => {}
-                    Ordering::Greater => {
-                        let iter = self.swap();
-                        self.iter = Box::new(iter.skip(depth.to_usize()));
-                    }
+                if self.depth != depth {
+                    self.iter = Box::new((self.constructor)(self.src).skip(depth.to_usize()));
+                    self.depth = depth;
                 }
             }
         }
@@ -934,25 +917,28 @@ impl<M: Borrow<MemContractState>> ContractStateAccess for MemContract<M> {
             .ok_or(UnknownGlobalStateType(ty))?;
 
         let constructor = constrained(move |src: Src<'_>| -> FilteredIter<'_> {
-            Box::new(
-                src.iter()
-                    .rev()
-                    .filter_map(|(out, data)| {
-                        let ord = match out.op_witness {
-                            OpWitness::Genesis => GlobalOrd::genesis(out.index),
-                            OpWitness::Transition(id, ty) => {
-                                let ord = self.filter.get(&id)?;
-                                GlobalOrd::transition(out.opid, out.index, ty, out.nonce, *ord)
-                            }
-                            OpWitness::Extension(id, ty) => {
-                                let ord = self.filter.get(&id)?;
-                                GlobalOrd::extension(out.opid, out.index, ty, out.nonce, *ord)
-                            }
-                        };
-                        Some((ord, data))
-                    })
-                    .take(state.limit.to_usize()),
-            )
+            // State must be provided in the consensus order, which depends on the status of the
+            // witnesses; archived witnesses must not contribute to the state
+            let ordered = src
+                .iter()
+                .filter_map(|(out, data)| {
+                    let ord = match out.op_witness {
+                        OpWitness::Genesis => GlobalOrd::genesis(out.index),
+                        OpWitness::Transition(id, ty) => {
+                            let ord = self.filter.get(&id).filter(|ord| ord.is_valid())?;
+                            GlobalOrd::transition(out.opid, out.index, ty, out.nonce, *ord)
+                        }
+                        OpWitness::Extension(id, ty) => {
+                            let ord = self.filter.get(&id).filter(|ord| ord.is_valid())?;
+                            GlobalOrd::extension(out.opid, out.index, ty, out.nonce, *ord)
+                        }
+                    };
+                    Some((ord, data))
+                })
+                .collect::<BTreeMap<_, _>>();
+            // Only the most recent items are kept if there are more of them than allowed
+            let extra = ordered.len().saturating_sub(state.limit.to_usize());
+            Box::new(ordered.into_iter().skip(extra))
         });
         let iter = Iter {
             src: state.known.as_unconfined(),
-- 
2.43.0


From 223904867866e8b06092e0c6f77bc9b19e83675e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:03 +0000
Subject: [PATCH 02/53] fix: roll back storage transactions when an operation
 fails

A failed import of a consignment, fascia or kit left its partial results in
the in-memory stash, state and index: nothing was rolled back when the
operation itself failed, and rolling back in-memory providers panicked.
---
 src/persistence/memory.rs | 53 +++++++++++++++++++++++++++++++++------
 src/persistence/stash.rs  |  3 ++-
 src/persistence/stock.rs  | 14 +++++------
 3 files changed, 54 insertions(+), 16 deletions(-)

diff --git a/src/persistence/memory.rs b/src/persistence/memory.rs
index a61ad72..877e86b 100644
--- a/src/persistence/memory.rs
+++ b/src/persistence/memory.rs
@@ -23,8 +23,8 @@ use std::borrow::Borrow;
 use std::collections::{BTreeMap, BTreeSet, HashMap};
 use std::convert::Infallible;
 use std::fmt::{Debug, Formatter};
-use std::num::NonZeroU32;
 use std::mem;
+use std::num::NonZeroU32;
 
 use aluvm::library::{Lib, LibId};
 use amplify::confinement::{
@@ -87,6 +87,9 @@ pub struct MemStash {
     #[getter(skip)]
     #[strict_type(skip)]
     persistence: Option<Persistence<Self>>,
+    #[getter(skip)]
+    #[strict_type(skip)]
+    backup: Option<Box<Self>>,
 
     schemata: TinyOrdMap<SchemaId, SchemaIfaces>,
     ifaces: TinyOrdMap<IfaceId, Iface>,
@@ -110,6 +113,7 @@ impl MemStash {
     pub fn in_memory() -> Self {
         Self {
             persistence: none!(),
+            backup: none!(),
             schemata: empty!(),
             ifaces: empty!(),
             geneses: empty!(),
@@ -131,6 +135,7 @@ impl CloneNoPersistence for MemStash {
     fn clone_no_persistence(&self) -> Self {
         Self {
             persistence: None,
+            backup: None,
             schemata: self.schemata.clone(),
             ifaces: self.ifaces.clone(),
             geneses: self.geneses.clone(),
@@ -161,13 +166,20 @@ impl StoreTransaction for MemStash {
     type TransactionErr = MemError;
     #[inline]
     fn begin_transaction(&mut self) -> Result<(), Self::TransactionErr> {
+        self.backup = Some(Box::new(self.clone_no_persistence()));
         self.mark_dirty();
         Ok(())
     }
     #[inline]
     fn commit_transaction(&mut self) -> Result<(), Self::TransactionErr> { Ok(self.store()?) }
-    #[inline]
-    fn rollback_transaction(&mut self) { unreachable!() }
+    fn rollback_transaction(&mut self) {
+        if let Some(backup) = self.backup.take() {
+            let persistence = self.persistence.take();
+            *self = *backup;
+            self.persistence = persistence;
+            self.mark_dirty();
+        }
+    }
 }
 
 impl StashProvider for MemStash {}
@@ -491,6 +503,9 @@ pub struct MemState {
     #[getter(skip)]
     #[strict_type(skip)]
     persistence: Option<Persistence<Self>>,
+    #[getter(skip)]
+    #[strict_type(skip)]
+    backup: Option<Box<Self>>,
 
     witnesses: LargeOrdMap<XWitnessId, WitnessOrd>,
     contracts: TinyOrdMap<ContractId, MemContractState>,
@@ -503,6 +518,7 @@ impl MemState {
     pub fn in_memory() -> Self {
         Self {
             persistence: none!(),
+            backup: none!(),
             witnesses: empty!(),
             contracts: empty!(),
         }
@@ -513,6 +529,7 @@ impl CloneNoPersistence for MemState {
     fn clone_no_persistence(&self) -> Self {
         Self {
             persistence: None,
+            backup: None,
             witnesses: self.witnesses.clone(),
             contracts: self.contracts.clone(),
         }
@@ -532,13 +549,20 @@ impl StoreTransaction for MemState {
     type TransactionErr = MemError;
     #[inline]
     fn begin_transaction(&mut self) -> Result<(), Self::TransactionErr> {
+        self.backup = Some(Box::new(self.clone_no_persistence()));
         self.mark_dirty();
         Ok(())
     }
     #[inline]
     fn commit_transaction(&mut self) -> Result<(), Self::TransactionErr> { Ok(self.store()?) }
-    #[inline]
-    fn rollback_transaction(&mut self) { unreachable!() }
+    fn rollback_transaction(&mut self) {
+        if let Some(backup) = self.backup.take() {
+            let persistence = self.persistence.take();
+            *self = *backup;
+            self.persistence = persistence;
+            self.mark_dirty();
+        }
+    }
 }
 
 impl StateProvider for MemState {}
@@ -673,7 +697,8 @@ impl StateWriteProvider for MemState {
         let mut witnesses =
             LargeOrdMap::try_from(witnesses).inspect_err(|_| self.rollback_transaction())?;
         mem::swap(&mut self.witnesses, &mut witnesses);
-        self.commit_transaction()?;
+        self.commit_transaction()
+            .inspect_err(|_| self.rollback_transaction())?;
         Ok(UpdateRes { succeeded, failed })
     }
 }
@@ -1193,6 +1218,9 @@ pub struct MemIndex {
     #[getter(skip)]
     #[strict_type(skip)]
     persistence: Option<Persistence<Self>>,
+    #[getter(skip)]
+    #[strict_type(skip)]
+    backup: Option<Box<Self>>,
 
     op_bundle_index: MediumOrdMap<OpId, BundleId>,
     bundle_contract_index: MediumOrdMap<BundleId, ContractId>,
@@ -1208,6 +1236,7 @@ impl MemIndex {
     pub fn in_memory() -> Self {
         Self {
             persistence: None,
+            backup: None,
             op_bundle_index: empty!(),
             bundle_contract_index: empty!(),
             bundle_witness_index: empty!(),
@@ -1221,6 +1250,7 @@ impl CloneNoPersistence for MemIndex {
     fn clone_no_persistence(&self) -> Self {
         Self {
             persistence: None,
+            backup: None,
             op_bundle_index: self.op_bundle_index.clone(),
             bundle_contract_index: self.bundle_contract_index.clone(),
             bundle_witness_index: self.bundle_witness_index.clone(),
@@ -1243,13 +1273,20 @@ impl StoreTransaction for MemIndex {
     type TransactionErr = MemError;
     #[inline]
     fn begin_transaction(&mut self) -> Result<(), Self::TransactionErr> {
+        self.backup = Some(Box::new(self.clone_no_persistence()));
         self.mark_dirty();
         Ok(())
     }
     #[inline]
     fn commit_transaction(&mut self) -> Result<(), Self::TransactionErr> { Ok(self.store()?) }
-    #[inline]
-    fn rollback_transaction(&mut self) { unreachable!() }
+    fn rollback_transaction(&mut self) {
+        if let Some(backup) = self.backup.take() {
+            let persistence = self.persistence.take();
+            *self = *backup;
+            self.persistence = persistence;
+            self.mark_dirty();
+        }
+    }
 }
 
 impl IndexProvider for MemIndex {}
diff --git a/src/persistence/stash.rs b/src/persistence/stash.rs
index c42764e..2e869b4 100644
--- a/src/persistence/stash.rs
+++ b/src/persistence/stash.rs
@@ -682,7 +682,8 @@ impl<P: StashProvider> Stash<P> {
             .add_secret_seal(seal)
             .inspect_err(|_| self.rollback_transaction())
             .map_err(StashError::WriteProvider)?;
-        self.commit_transaction()?;
+        self.commit_transaction()
+            .inspect_err(|_| self.rollback_transaction())?;
         Ok(seal)
     }
 }
diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index b43427e..f852dc2 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -1257,15 +1257,13 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
         self.state.begin_transaction()?;
         self.stash
             .begin_transaction()
-            .inspect_err(|_| self.stash.rollback_transaction())?;
+            .inspect_err(|_| self.state.rollback_transaction())?;
         self.index.begin_transaction().inspect_err(|_| {
             self.state.rollback_transaction();
             self.stash.rollback_transaction();
         })?;
-        f(&mut self.stash, &mut self.state, &mut self.index)?;
-        self.index
-            .commit_transaction()
-            .map_err(StockError::from)
+        f(&mut self.stash, &mut self.state, &mut self.index)
+            .and_then(|_| self.index.commit_transaction().map_err(StockError::from))
             .and_then(|_| self.state.commit_transaction().map_err(StockError::from))
             .and_then(|_| self.stash.commit_transaction().map_err(StockError::from))
             .inspect_err(|_| {
@@ -1278,8 +1276,10 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
     pub fn import_kit(&mut self, kit: ValidKit) -> Result<validation::Status, StockError<S, H, P>> {
         let (kit, status) = kit.split();
         self.stash.begin_transaction()?;
-        self.stash.consume_kit(kit)?;
-        self.stash.commit_transaction()?;
+        self.stash
+            .consume_kit(kit)
+            .and_then(|_| self.stash.commit_transaction())
+            .inspect_err(|_| self.stash.rollback_transaction())?;
         Ok(status)
     }
 
-- 
2.43.0


From d1afe899b646f48ec8ce80371c8bde28ac5747bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:03 +0000
Subject: [PATCH 03/53] fix: exporting a transfer must not panic on several
 outputs of a transition

---
 src/persistence/stock.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index f852dc2..f9f0342 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -785,8 +785,8 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
                 for index in 0..typed_assignments.len_u16() {
                     let seal = typed_assignments.to_confidential_seals()[index as usize];
                     if secret_seal == Some(seal) {
-                        let res = terminals.insert(bundle_id, seal);
-                        assert_eq!(res, None);
+                        // The same transition may be met several times, once per its output
+                        terminals.insert(bundle_id, seal);
                     }
                 }
             }
-- 
2.43.0


From e9bd16f425341b12e08d39134de7af83f6ac9851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:03 +0000
Subject: [PATCH 04/53] fix: do not count witnesses which failed to resolve as
 updated

---
 src/persistence/memory.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/persistence/memory.rs b/src/persistence/memory.rs
index 877e86b..4d21e87 100644
--- a/src/persistence/memory.rs
+++ b/src/persistence/memory.rs
@@ -687,12 +687,14 @@ impl StateWriteProvider for MemState {
                 continue;
             }
             match resolver.resolve_pub_witness_ord(*id) {
-                Ok(new) => *ord = new,
+                Ok(new) => {
+                    *ord = new;
+                    succeeded += 1;
+                }
                 Err(err) => {
                     failed.insert(*id, err.to_string());
                 }
             }
-            succeeded += 1;
         }
         let mut witnesses =
             LargeOrdMap::try_from(witnesses).inspect_err(|_| self.rollback_transaction())?;
-- 
2.43.0


From 1901c9b17fef72a51a43e18db0e9c547757baed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:08 +0000
Subject: [PATCH 05/53] fix: report each contract assigning to a set of outputs
 once

---
 src/persistence/memory.rs | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/persistence/memory.rs b/src/persistence/memory.rs
index 4d21e87..48f5be5 100644
--- a/src/persistence/memory.rs
+++ b/src/persistence/memory.rs
@@ -1303,19 +1303,13 @@ impl IndexReadProvider for MemIndex {
         Ok(self
             .contract_index
             .iter()
-            .flat_map(move |(contract_id, index)| {
-                outpoints.clone().into_iter().filter_map(|outpoint| {
-                    if index
-                        .outpoint_opouts
-                        .keys()
-                        .any(|seal| seal.to_outpoint() == outpoint)
-                    {
-                        Some(*contract_id)
-                    } else {
-                        None
-                    }
-                })
-            }))
+            .filter(move |(_, index)| {
+                index
+                    .outpoint_opouts
+                    .keys()
+                    .any(|seal| outpoints.contains(&seal.to_outpoint()))
+            })
+            .map(|(contract_id, _)| *contract_id))
     }
 
     fn public_opouts(
-- 
2.43.0


From 7f2088e15b16d5c4ec84cf961d3005b8a8b5ff40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:11 +0000
Subject: [PATCH 06/53] fix: find state assigned to an output with both closing
 methods

---
 src/persistence/memory.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/persistence/memory.rs b/src/persistence/memory.rs
index 48f5be5..7b2421e 100644
--- a/src/persistence/memory.rs
+++ b/src/persistence/memory.rs
@@ -1334,13 +1334,17 @@ impl IndexReadProvider for MemIndex {
             .ok_or(IndexInconsistency::ContractAbsent(contract_id))?;
         let mut opouts = BTreeSet::new();
         for output in outpoints.into_iter().map(|o| o.into()) {
-            let set = index
+            // The same output may be used by seals with different closing methods
+            let mut sets = index
                 .outpoint_opouts
                 .iter()
-                .find(|(seal, _)| seal.to_outpoint() == output)
-                .map(|(_, set)| set.to_unconfined())
-                .ok_or(IndexInconsistency::OutpointUnknown(output, contract_id))?;
-            opouts.extend(set)
+                .filter(|(seal, _)| seal.to_outpoint() == output)
+                .map(|(_, set)| set)
+                .peekable();
+            if sets.peek().is_none() {
+                return Err(IndexInconsistency::OutpointUnknown(output, contract_id).into());
+            }
+            opouts.extend(sets.flat_map(|set| set.iter()))
         }
         Ok(opouts)
     }
-- 
2.43.0


From a9c3d2d836d784cf85e51084301de059879dc583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:45 +0000
Subject: [PATCH 07/53] fix: keep transitions known only to the second of the
 merged bundles

Merging two views of a transition bundle dropped the transitions which were
revealed only by the second one.
---
 src/contract/merge_reveal.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/contract/merge_reveal.rs b/src/contract/merge_reveal.rs
index b662f5a..9b4c8e5 100644
--- a/src/contract/merge_reveal.rs
+++ b/src/contract/merge_reveal.rs
@@ -220,10 +220,11 @@ impl MergeReveal for TransitionBundle {
 
         let mut self_transitions = self.known_transitions.release();
         for (opid, other_transition) in other.known_transitions {
-            if let Some(mut transition) = self_transitions.remove(&opid) {
-                transition = transition.merge_reveal(other_transition)?;
-                self_transitions.insert(opid, transition);
-            }
+            let transition = match self_transitions.remove(&opid) {
+                Some(transition) => transition.merge_reveal(other_transition)?,
+                None => other_transition,
+            };
+            self_transitions.insert(opid, transition);
         }
         self.known_transitions = Confined::from_checked(self_transitions);
 
-- 
2.43.0


From c2300fa10afca5c40e7232d0dcafd242459873cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:45 +0000
Subject: [PATCH 08/53] fix: merge a known witness transaction with its bare id

A witness known with the full transaction was reported as mismatching the
same witness given just by its transaction id.
---
 src/containers/anchors.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/containers/anchors.rs b/src/containers/anchors.rs
index 2c7c167..b608044 100644
--- a/src/containers/anchors.rs
+++ b/src/containers/anchors.rs
@@ -154,7 +154,7 @@ impl PubWitness {
     pub fn merge_reveal(self, other: Self) -> Result<Self, MergeRevealError> {
         match (self, other) {
             (Self::Txid(txid1), Self::Txid(txid2)) if txid1 == txid2 => Ok(Self::Txid(txid1)),
-            (Self::Txid(txid), Self::Tx(tx)) | (Self::Txid(txid), Self::Tx(tx))
+            (Self::Txid(txid), Self::Tx(tx)) | (Self::Tx(tx), Self::Txid(txid))
                 if txid == tx.txid() =>
             {
                 Ok(Self::Tx(tx))
-- 
2.43.0


From cf80d6dfd39e2ac65bb8c89aab168867d12283ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:45 +0000
Subject: [PATCH 09/53] fix: list bundles of a contract from both of the
 witness anchors

If a contract had bundles in both tapret and opret anchors of a witness only
one of them was listed.
---
 src/containers/anchors.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/containers/anchors.rs b/src/containers/anchors.rs
index b608044..f9b622a 100644
--- a/src/containers/anchors.rs
+++ b/src/containers/anchors.rs
@@ -455,16 +455,17 @@ impl StrictDumb for AnchorSet {
 
 impl AnchorSet {
     pub fn known_bundle_ids(&self) -> impl Iterator<Item = BundleId> {
-        let map = match self {
-            AnchorSet::Tapret(tapret) => tapret.mpc_proof.to_known_message_map().release(),
-            AnchorSet::Opret(opret) => opret.mpc_proof.to_known_message_map().release(),
-            AnchorSet::Double { tapret, opret } => {
-                let mut map = tapret.mpc_proof.to_known_message_map().release();
-                map.extend(opret.mpc_proof.to_known_message_map().release());
-                map
-            }
+        // The same contract may have a bundle in each of the anchors
+        let maps = match self {
+            AnchorSet::Tapret(tapret) => vec![tapret.mpc_proof.to_known_message_map()],
+            AnchorSet::Opret(opret) => vec![opret.mpc_proof.to_known_message_map()],
+            AnchorSet::Double { tapret, opret } => vec![
+                tapret.mpc_proof.to_known_message_map(),
+                opret.mpc_proof.to_known_message_map(),
+            ],
         };
-        map.into_values()
+        maps.into_iter()
+            .flat_map(|map| map.release().into_values())
             .map(|msg| BundleId::from_byte_array(msg.to_byte_array()))
     }
 
-- 
2.43.0


From 5805ab7f082939d102bacd6b6a526e52f84a768d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:20 +0000
Subject: [PATCH 10/53] fix: let the state follow the new witness of a replaced
 transaction

State assigned to an already existing transaction output remained bound to
the first witness it was accepted with. Once that witness got replaced (for
instance due to a fee bump) the state was invisible even after accepting it
with the new witness.
---
 src/persistence/memory.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/persistence/memory.rs b/src/persistence/memory.rs
index 7b2421e..6a45040 100644
--- a/src/persistence/memory.rs
+++ b/src/persistence/memory.rs
@@ -827,12 +827,16 @@ impl MemContractState {
          */
 
         let witness_id = op.witness_id();
+        let replace = match op {
+            OrdOpRef::Genesis(_) => false,
+            OrdOpRef::Transition(_, _, ord) | OrdOpRef::Extension(_, _, ord) => ord.is_valid(),
+        };
         match op.assignments() {
             AssignmentsRef::Genesis(assignments) => {
-                self.add_assignments(witness_id, opid, assignments)
+                self.add_assignments(witness_id, replace, opid, assignments)
             }
             AssignmentsRef::Graph(assignments) => {
-                self.add_assignments(witness_id, opid, assignments)
+                self.add_assignments(witness_id, replace, opid, assignments)
             }
         }
     }
@@ -840,6 +844,7 @@ impl MemContractState {
     fn add_assignments<Seal: ExposedSeal>(
         &mut self,
         witness_id: Option<XWitnessId>,
+        replace: bool,
         opid: OpId,
         assignments: &Assignments<Seal>,
     ) {
@@ -849,6 +854,7 @@ impl MemContractState {
             opid: OpId,
             ty: AssignmentType,
             witness_id: Option<XWitnessId>,
+            replace: bool,
         ) {
             for (no, seal, state) in assignments
                 .iter()
@@ -861,6 +867,13 @@ impl MemContractState {
                     }
                     None => OutputAssignment::with_no_witness(seal, state, opid, ty, no as u16),
                 };
+                if replace {
+                    // The state which is already known, but under a different (replaced) witness,
+                    // has to follow the new witness
+                    contract_state
+                        .remove(&assigned_state)
+                        .expect("collection allows zero elements");
+                }
                 contract_state
                     .push(assigned_state)
                     .expect("contract state exceeded 2^32 items, which is unrealistic");
@@ -870,16 +883,16 @@ impl MemContractState {
         for (ty, assignments) in assignments.iter() {
             match assignments {
                 TypedAssigns::Declarative(assignments) => {
-                    process(&mut self.rights, assignments, opid, *ty, witness_id)
+                    process(&mut self.rights, assignments, opid, *ty, witness_id, replace)
                 }
                 TypedAssigns::Fungible(assignments) => {
-                    process(&mut self.fungibles, assignments, opid, *ty, witness_id)
+                    process(&mut self.fungibles, assignments, opid, *ty, witness_id, replace)
                 }
                 TypedAssigns::Structured(assignments) => {
-                    process(&mut self.data, assignments, opid, *ty, witness_id)
+                    process(&mut self.data, assignments, opid, *ty, witness_id, replace)
                 }
                 TypedAssigns::Attachment(assignments) => {
-                    process(&mut self.attach, assignments, opid, *ty, witness_id)
+                    process(&mut self.attach, assignments, opid, *ty, witness_id, replace)
                 }
             }
         }
-- 
2.43.0


From 08295ec79694cae304f491586e65bca3c483b778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:46 +0000
Subject: [PATCH 11/53] fix: export history of all transitions present in a
 consignment

Bundles are exported with all of their known transitions, but the history was
collected only for the requested ones. Such consignments were rejected by the
receivers due to the absence of the operations whose state is spent.
---
 src/persistence/stock.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index f9f0342..89707cf 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -769,7 +769,6 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
 
         // 1.3. Collect all state transitions assigning state to the provided outpoints
         let mut anchored_bundles = BTreeMap::<BundleId, ClientBundle>::new();
-        let mut transitions = BTreeMap::<OpId, Transition>::new();
         let mut terminals = BTreeMap::<BundleId, XChain<SecretSeal>>::new();
         for opout in opouts {
             if opout.op == contract_id {
@@ -777,8 +776,6 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
             }
 
             let transition = self.transition(opout.op)?;
-            transitions.insert(opout.op, transition.clone());
-
             let bundle_id = self.index.bundle_id_for_op(transition.id())?;
             // 2. Collect secret seals from terminal transitions to add to the consignment terminals
             for typed_assignments in transition.assignments.values() {
@@ -796,23 +793,26 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
             }
         }
 
-        // 2. Collect all state transitions between terminals and genesis
+        // 2. Collect all state transitions between terminals and genesis. Exported bundles contain
+        //    all of their known transitions, thus history is required for each one of them.
         let mut ids = vec![];
-        for transition in transitions.values() {
-            ids.extend(transition.inputs().iter().map(|input| input.prev_out.op));
+        for bundle_id in anchored_bundles.keys() {
+            for transition in self.stash.bundle(*bundle_id)?.known_transitions.values() {
+                ids.extend(transition.inputs().iter().map(|input| input.prev_out.op));
+            }
         }
         while let Some(id) = ids.pop() {
             if id == contract_id {
                 continue; // we skip genesis since it will be present anywhere
             }
             let transition = self.transition(id)?;
-            ids.extend(transition.inputs().iter().map(|input| input.prev_out.op));
-            transitions.insert(id, transition.clone());
             let bundle_id = self.index.bundle_id_for_op(transition.id())?;
-            anchored_bundles
-                .entry(bundle_id)
-                .or_insert(self.client_bundle(bundle_id)?.clone())
-                .reveal_transition(transition.clone())?;
+            if let Entry::Vacant(entry) = anchored_bundles.entry(bundle_id) {
+                for transition in self.stash.bundle(bundle_id)?.known_transitions.values() {
+                    ids.extend(transition.inputs().iter().map(|input| input.prev_out.op));
+                }
+                entry.insert(self.client_bundle(bundle_id)?);
+            }
         }
 
         let genesis = self.stash.genesis(contract_id)?.clone();
-- 
2.43.0


From 935b749aa1d90d8b2a3a583e53702c4f45cbfc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:46 +0000
Subject: [PATCH 12/53] fix: do not mix contracts when exporting by a secret
 seal

If a secret seal was used by several contracts, operations of all of them were
put into the consignment of a single contract, making it invalid.
---
 src/persistence/stock.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index 89707cf..afffcc7 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -765,7 +765,20 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
             self.index
                 .opouts_by_outputs(contract_id, outputs.iter().copied())?,
         );
-        opouts.extend(self.index.opouts_by_terminals(secret_seal.into_iter())?);
+        for opout in self.index.opouts_by_terminals(secret_seal.into_iter())? {
+            // The same seal may be also used by other contracts
+            let is_foreign = match self.index.bundle_id_for_op(opout.op) {
+                Ok(bundle_id) => self.index.bundle_info(bundle_id)?.1 != contract_id,
+                // Geneses do not belong to bundles
+                Err(_) => self
+                    .stash
+                    .genesis(ContractId::from_inner(opout.op.into_inner()))
+                    .is_ok_and(|genesis| genesis.contract_id() != contract_id),
+            };
+            if !is_foreign {
+                opouts.insert(opout);
+            }
+        }
 
         // 1.3. Collect all state transitions assigning state to the provided outpoints
         let mut anchored_bundles = BTreeMap::<BundleId, ClientBundle>::new();
-- 
2.43.0


From 2bdf5f4a1c5ef3da6743df52609c698ff2372133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:46 +0000
Subject: [PATCH 13/53] fix: refuse consignments anchoring the same bundle
 multiple times

Only one of the witnesses was validated for such bundle, while all of them
were accepted by the stock.
---
 src/containers/consignment.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/containers/consignment.rs b/src/containers/consignment.rs
index d1e85fc..0b364b4 100644
--- a/src/containers/consignment.rs
+++ b/src/containers/consignment.rs
@@ -33,7 +33,7 @@ use amplify::{ByteArray, Bytes32};
 use armor::{ArmorHeader, AsciiArmor, StrictArmor, StrictArmorError};
 use baid64::{Baid64ParseError, DisplayBaid64, FromBaid64Str};
 use commit_verify::{CommitEncode, CommitEngine, CommitId, CommitmentId, DigestExt, Sha256};
-use rgb::validation::{ResolveWitness, Validator, Validity, Warning, CONSIGNMENT_MAX_LIBS};
+use rgb::validation::{Failure, ResolveWitness, Validator, Validity, Warning, CONSIGNMENT_MAX_LIBS};
 use rgb::{
     impl_serde_baid64, validation, AttachId, BundleId, ContractId, Extension, Genesis, GraphSeal,
     Operation, Schema, SchemaId, XChain,
@@ -337,6 +337,17 @@ impl<const TRANSFER: bool> Consignment<TRANSFER> {
             (&self.schema, self.contract_id()),
         );
 
+        // check that there is just one witness per bundle: others are not seen by the validator
+        let mut bundle_ids = BTreeSet::new();
+        for bundle in self.bundles.iter().flat_map(|wb| wb.anchored_bundles.bundles()) {
+            let bundle_id = bundle.bundle_id();
+            if !bundle_ids.insert(bundle_id) {
+                status.add_failure(Failure::Custom(format!(
+                    "bundle {bundle_id} is anchored multiple times"
+                )));
+            }
+        }
+
         let validity = status.validity();
 
         if self.transfer != TRANSFER {
-- 
2.43.0


From 1aef180dd6cccc3ecf539701f7c88af96c0f6d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:13:42 +0000
Subject: [PATCH 14/53] fix: save in-memory storage which has unsaved changes

Whether there is something to save was decided by the autosave flag instead
of the actual presence of changes: nothing was ever written without autosave.
---
 src/persistence/memory.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/persistence/memory.rs b/src/persistence/memory.rs
index 6a45040..b6a33af 100644
--- a/src/persistence/memory.rs
+++ b/src/persistence/memory.rs
@@ -160,6 +160,8 @@ impl Persisting for MemStash {
     fn persistence_mut(&mut self) -> Option<&mut Persistence<Self>> { self.persistence.as_mut() }
     #[inline]
     fn as_mut_persistence(&mut self) -> &mut Option<Persistence<Self>> { &mut self.persistence }
+    #[inline]
+    fn is_dirty(&self) -> bool { self.persistence.as_ref().map_or(true, |p| p.dirty) }
 }
 
 impl StoreTransaction for MemStash {
@@ -170,8 +172,12 @@ impl StoreTransaction for MemStash {
         self.mark_dirty();
         Ok(())
     }
-    #[inline]
-    fn commit_transaction(&mut self) -> Result<(), Self::TransactionErr> { Ok(self.store()?) }
+    fn commit_transaction(&mut self) -> Result<(), Self::TransactionErr> {
+        if self.is_autosave() {
+            self.store()?;
+        }
+        Ok(())
+    }
     fn rollback_transaction(&mut self) {
         if let Some(backup) = self.backup.take() {
             let persistence = self.persistence.take();
@@ -543,6 +549,8 @@ impl Persisting for MemState {
     fn persistence_mut(&mut self) -> Option<&mut Persistence<Self>> { self.persistence.as_mut() }
     #[inline]
     fn as_mut_persistence(&mut self) -> &mut Option<Persistence<Self>> { &mut self.persistence }
+    #[inline]
+    fn is_dirty(&self) -> bool { self.persistence.as_ref().map_or(true, |p| p.dirty) }
 }
 
 impl StoreTransaction for MemState {
@@ -553,8 +561,12 @@ impl StoreTransaction for MemState {
         self.mark_dirty();
         Ok(())
     }
-    #[inline]
-    fn commit_transaction(&mut self) -> Result<(), Self::TransactionErr> { Ok(self.store()?) }
+    fn commit_transaction(&mut self) -> Result<(), Self::TransactionErr> {
+        if self.is_autosave() {
+            self.store()?;
+        }
+        Ok(())
+    }
     fn rollback_transaction(&mut self) {
         if let Some(backup) = self.backup.take() {
             let persistence = self.persistence.take();
@@ -1282,6 +1294,8 @@ impl Persisting for MemIndex {
     fn persistence_mut(&mut self) -> Option<&mut Persistence<Self>> { self.persistence.as_mut() }
     #[inline]
     fn as_mut_persistence(&mut self) -> &mut Option<Persistence<Self>> { &mut self.persistence }
+    #[inline]
+    fn is_dirty(&self) -> bool { self.persistence.as_ref().map_or(true, |p| p.dirty) }
 }
 
 impl StoreTransaction for MemIndex {
@@ -1292,8 +1306,12 @@ impl StoreTransaction for MemIndex {
         self.mark_dirty();
         Ok(())
     }
-    #[inline]
-    fn commit_transaction(&mut self) -> Result<(), Self::TransactionErr> { Ok(self.store()?) }
+    fn commit_transaction(&mut self) -> Result<(), Self::TransactionErr> {
+        if self.is_autosave() {
+            self.store()?;
+        }
+        Ok(())
+    }
     fn rollback_transaction(&mut self) {
         if let Some(backup) = self.backup.take() {
             let persistence = self.persistence.take();
-- 
2.43.0


From 35a99b5f30ca568329028cf0421d40b0bda3110b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:13:42 +0000
Subject: [PATCH 15/53] fix: save changes of the identity trust levels

---
 src/persistence/memory.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/persistence/memory.rs b/src/persistence/memory.rs
index b6a33af..32073bd 100644
--- a/src/persistence/memory.rs
+++ b/src/persistence/memory.rs
@@ -412,6 +412,7 @@ impl StashWriteProvider for MemStash {
         trust: TrustLevel,
     ) -> Result<(), confinement::Error> {
         self.identities.insert(identity, trust)?;
+        self.mark_dirty();
         Ok(())
     }
 
-- 
2.43.0


From 9589a56d787580b8826e42ea8b3eab9383e8aee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:46:17 +0000
Subject: [PATCH 16/53] fix: refuse coin amounts which do not fit into 64 bits

CoinAmount::with accepted whole and fractional parts which together exceed
the amount type, and converting such a value (for instance by
RgbInvoiceBuilder::set_amount) panicked instead of returning an error.
---
 invoice/src/amount.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/invoice/src/amount.rs b/invoice/src/amount.rs
index 9007f08..74c59ef 100644
--- a/invoice/src/amount.rs
+++ b/invoice/src/amount.rs
@@ -328,6 +328,10 @@ impl CoinAmount {
         if fract >= pow {
             return Err(PrecisionError);
         }
+        // the amount must fit into 64 bits
+        int.checked_mul(pow)
+            .and_then(|amount| amount.checked_add(fract))
+            .ok_or(PrecisionError)?;
         Ok(CoinAmount {
             int,
             fract,
-- 
2.43.0


From 1c142d9bedd7ae01727b44f08be6b74b8710f48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:46:17 +0000
Subject: [PATCH 17/53] fix: print indivisible coin amounts in the alternate
 form

With zero precision the fraction was printed as a digit which exceeds the
precision, and formatting panicked.
---
 invoice/src/amount.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/invoice/src/amount.rs b/invoice/src/amount.rs
index 74c59ef..a4abc7d 100644
--- a/invoice/src/amount.rs
+++ b/invoice/src/amount.rs
@@ -384,7 +384,7 @@ impl Display for CoinAmount {
             int = to_chunks(&int);
         }
         f.write_str(&int)?;
-        if self.fract > 0 || f.alternate() {
+        if self.fract > 0 || (f.alternate() && self.precision.decimals() > 0) {
             f.write_char('.')?;
             let mut float = self.fract.to_string();
             let len = float.len();
-- 
2.43.0


From d04f8cc9e7a669a55fa70ba9bce14ee990c1cb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:46:17 +0000
Subject: [PATCH 18/53] fix: read coin amounts with a fraction shorter than the
 precision

A fraction was taken as the number of the smallest units whatever its
length: 10.5~8 was read as 10.00000005. A text without the fraction but with
the precision, such as 10~8 which coin amounts print themselves, was refused,
and fractions with a sign or longer than the precision were accepted.
---
 invoice/src/amount.rs | 41 +++++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/invoice/src/amount.rs b/invoice/src/amount.rs
index a4abc7d..317bc87 100644
--- a/invoice/src/amount.rs
+++ b/invoice/src/amount.rs
@@ -420,6 +420,12 @@ pub enum AmountParseError {
     /// invalid amount precision - {0}
     InvalidPrecision(ParseIntError),
 
+    /// amount fractional part {0} doesn't match amount precision
+    FractMismatch(String),
+
+    /// amount value exceeds 64 bits
+    Overflow,
+
     /// invalid amount precision exceeding 18
     #[from(TryFromIntError)]
     PrecisionOverflow,
@@ -434,23 +440,30 @@ impl FromStr for CoinAmount {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let s = s.replace([' ', '_'], "");
-        let (int, remain) = s.split_once('.').unwrap_or_else(|| (&s, "0"));
-        let (fract, precision) = remain.split_once('~').unwrap_or((remain, ""));
-        let precision = if precision.is_empty() {
-            fract.len() as u64
-        } else {
-            precision
+        let (s, precision) = match s.split_once('~') {
+            Some((s, precision)) => (s, Some(precision)),
+            None => (s.as_str(), None),
+        };
+        let (int, fract) = s.split_once('.').unwrap_or((s, "0"));
+        let precision = match precision {
+            Some(precision) => precision
                 .parse()
-                .map_err(AmountParseError::InvalidPrecision)?
+                .map_err(AmountParseError::InvalidPrecision)?,
+            None => fract.len() as u64,
         };
+        let precision = Precision::try_from(u8::try_from(precision)?)?;
+        let decimals = precision.decimals() as usize;
         let int: u64 = int.parse().map_err(AmountParseError::InvalidInt)?;
-        let fract: u64 = fract.parse().map_err(AmountParseError::InvalidFract)?;
-        let precision = u8::try_from(precision)?;
-        Ok(CoinAmount {
-            int,
-            fract,
-            precision: Precision::try_from(precision)?,
-        })
+        let value: u64 = fract.parse().map_err(AmountParseError::InvalidFract)?;
+        // signs are not a part of the fraction
+        if !fract.bytes().all(|b| b.is_ascii_digit()) || (fract.len() > decimals && value != 0) {
+            return Err(AmountParseError::FractMismatch(fract.to_owned()));
+        }
+        let fract = match decimals.checked_sub(fract.len()) {
+            Some(zeros) => value * 10u64.pow(zeros as u32),
+            None => 0,
+        };
+        CoinAmount::with(int, fract, precision).map_err(|_| AmountParseError::Overflow)
     }
 }
 
-- 
2.43.0


From 00acaba4801cc32361afca1c704c24cd0078107a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:46:44 +0000
Subject: [PATCH 19/53] fix: keep the fraction in approximate invoice amounts

The fractional part was converted to an integer before being scaled by the
precision, such that it was always lost.
---
 invoice/src/builder.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/invoice/src/builder.rs b/invoice/src/builder.rs
index 17f2da3..5e7062b 100644
--- a/invoice/src/builder.rs
+++ b/invoice/src/builder.rs
@@ -117,8 +117,9 @@ impl RgbInvoiceBuilder {
             return Err(self);
         }
         let coins = amount.floor();
-        let cents = amount - coins;
-        self.set_amount(coins as u64, cents as u64, precision)
+        let pow = 10u64.pow(precision.decimals() as u32);
+        let cents = ((amount - coins) * pow as f64).round() as u64;
+        self.set_amount((coins as u64).saturating_add(cents / pow), cents % pow, precision)
     }
 
     pub fn set_expiry_timestamp(mut self, expiry: i64) -> Self {
-- 
2.43.0


From 982c9e0625b3c5509985bd8bc8fc5d74ab4080cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:47:28 +0000
Subject: [PATCH 20/53] fix: read invoices for the Liquid mainnet

The name of the Liquid mainnet was read as the Bitcoin mainnet, such that an
invoice asked to pay on a different network than the one it was made for.
---
 invoice/src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/invoice/src/parse.rs b/invoice/src/parse.rs
index 08e4a37..90e74c6 100644
--- a/invoice/src/parse.rs
+++ b/invoice/src/parse.rs
@@ -228,7 +228,7 @@ impl FromStr for ChainNet {
             x if ChainNet::BitcoinTestnet.to_string() == x => Ok(ChainNet::BitcoinTestnet),
             x if ChainNet::BitcoinSignet.to_string() == x => Ok(ChainNet::BitcoinSignet),
             x if ChainNet::BitcoinRegtest.to_string() == x => Ok(ChainNet::BitcoinRegtest),
-            x if ChainNet::LiquidMainnet.to_string() == x => Ok(ChainNet::BitcoinMainnet),
+            x if ChainNet::LiquidMainnet.to_string() == x => Ok(ChainNet::LiquidMainnet),
             x if ChainNet::LiquidTestnet.to_string() == x => Ok(ChainNet::LiquidTestnet),
             _ => Err(InvoiceParseError::Beneficiary(s.to_owned())),
         }
-- 
2.43.0


From 92708f7d0ba1d662d78c2f40f65b968e4eb9f495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:47:28 +0000
Subject: [PATCH 21/53] fix: escape all special characters in invoice
 parameters

The percent sign was printed as is, and was either decoded into another
character or refused when the invoice was read. Some other characters which
can't be a part of a query were not escaped either.
---
 invoice/src/parse.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/invoice/src/parse.rs b/invoice/src/parse.rs
index 90e74c6..8e954f3 100644
--- a/invoice/src/parse.rs
+++ b/invoice/src/parse.rs
@@ -46,10 +46,17 @@ const QUERY_ENCODE: &AsciiSet = &CONTROLS
     .add(b' ')
     .add(b'"')
     .add(b'#')
+    .add(b'%')
     .add(b'<')
     .add(b'>')
     .add(b'[')
     .add(b']')
+    .add(b'\\')
+    .add(b'^')
+    .add(b'`')
+    .add(b'{')
+    .add(b'|')
+    .add(b'}')
     .add(b'&')
     .add(b'=');
 
-- 
2.43.0


From 6b0fe61718c00d653488eade20d7e345dfbe0a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:47:28 +0000
Subject: [PATCH 22/53] fix: print attachment invoices which can be read

The mnemonic part of the attachment id begins with the number sign, so the
rest of the invoice, including the beneficiary, became a URI fragment.
---
 invoice/src/invoice.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/invoice/src/invoice.rs b/invoice/src/invoice.rs
index 853bd70..a8964ad 100644
--- a/invoice/src/invoice.rs
+++ b/invoice/src/invoice.rs
@@ -57,7 +57,8 @@ pub enum InvoiceState {
     Amount(Amount),
     #[display(inner)]
     Data(NonFungible),
-    #[display(inner)]
+    // the mnemonic separated with # would become a fragment of the invoice URI
+    #[display("{0:#}")]
     Attach(AttachId),
 }
 
-- 
2.43.0


From e9653347336c871943b0112ebe97f1d1ba8ef1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:48:09 +0000
Subject: [PATCH 23/53] fix: read the operation and assignment names of
 invoices

The names were printed as path segments which could not be read back, a
missing operation name was not marked, and anything which followed the
beneficiary in the path was silently ignored.
---
 invoice/src/parse.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/invoice/src/parse.rs b/invoice/src/parse.rs
index 8e954f3..be4a03d 100644
--- a/invoice/src/parse.rs
+++ b/invoice/src/parse.rs
@@ -31,7 +31,7 @@ use indexmap::IndexMap;
 use invoice::{AddressPayload, UnknownNetwork};
 use percent_encoding::{utf8_percent_encode, AsciiSet, CONTROLS};
 use rgb::{ContractId, SecretSeal};
-use strict_encoding::{InvalidRString, TypeName};
+use strict_encoding::{FieldName, InvalidRString, TypeName};
 
 use crate::invoice::{
     Beneficiary, ChainNet, InvoiceState, Pay2Vout, RgbInvoice, RgbTransport, XChainNet,
@@ -110,6 +110,9 @@ pub enum InvoiceParseError {
     /// invalid interface {0}.
     InvalidIface(String),
 
+    /// invalid operation or assignment name {0}.
+    InvalidName(String),
+
     /// invalid expiration timestamp {0}.
     InvalidExpiration(String),
 
@@ -318,6 +321,8 @@ impl Display for RgbInvoice {
         }
         if let Some(ref op) = self.operation {
             write!(f, "{op}/")?;
+        } else if self.assignment.is_some() {
+            write!(f, "{OMITTED}/")?;
         }
         if let Some(ref assignment_name) = self.assignment {
             write!(f, "{assignment_name}/")?;
@@ -396,9 +401,21 @@ impl FromStr for RgbInvoice {
             return Err(InvoiceParseError::ContractIdNoIface);
         }
 
-        let Some(assignment) = path.next() else {
+        let mut path = path.collect::<Vec<_>>();
+        let Some(assignment) = path.pop() else {
             return Err(InvoiceParseError::AssignmentMissed);
         };
+        if path.len() > 2 {
+            return Err(InvoiceParseError::Invalid);
+        }
+        let mut names = path.into_iter().map(|name| match name.as_str() {
+            OMITTED => Ok(None),
+            name => FieldName::try_from(name.to_owned())
+                .map(Some)
+                .map_err(|_| InvoiceParseError::InvalidName(name.to_owned())),
+        });
+        let operation = names.next().transpose()?.flatten();
+        let assignment_name = names.next().transpose()?.flatten();
         let (amount, beneficiary) = assignment
             .as_str()
             .split_once('+')
@@ -443,8 +460,8 @@ impl FromStr for RgbInvoice {
             transports,
             contract,
             iface,
-            operation: None,
-            assignment: None,
+            operation,
+            assignment: assignment_name,
             beneficiary,
             owned_state: value,
             expiry,
-- 
2.43.0


From 0c7e2faac8677f9670f2a5cf1a7e23538108f805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:48:09 +0000
Subject: [PATCH 24/53] fix: refuse transport addresses which contain the list
 separator

Such an address was split into two when the invoice was read.
---
 invoice/src/parse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/invoice/src/parse.rs b/invoice/src/parse.rs
index be4a03d..629cdd0 100644
--- a/invoice/src/parse.rs
+++ b/invoice/src/parse.rs
@@ -201,7 +201,8 @@ impl FromStr for RgbTransport {
             return Err(TransportParseError::InvalidTransport(s.to_string()));
         }
         let (trans_type, host) = tokens.unwrap();
-        if host.is_empty() {
+        // the separator would split the address in a list of the invoice transports
+        if host.is_empty() || host.contains(TRANSPORT_SEP) {
             return Err(TransportParseError::InvalidTransportHost(host.to_string()));
         }
         let host = host.to_string();
-- 
2.43.0


From 78baf3972b068f90733def5c3b0bce941d1e5c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:48:10 +0000
Subject: [PATCH 25/53] fix: do not add unspecified transports to invoices with
 transports

An invoice which had the unspecified transport among others, or for which an
empty list of transports was added, printed a list of endpoints which could
not be read.
---
 invoice/src/builder.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/invoice/src/builder.rs b/invoice/src/builder.rs
index 5e7062b..f2eb930 100644
--- a/invoice/src/builder.rs
+++ b/invoice/src/builder.rs
@@ -141,10 +141,8 @@ impl RgbInvoiceBuilder {
         Ok(self.add_transport_raw(transport))
     }
 
-    pub fn add_transport_raw(mut self, transport: RgbTransport) -> Self {
-        self.drop_unspecified_transport();
-        self.0.transports.push(transport);
-        self
+    pub fn add_transport_raw(self, transport: RgbTransport) -> Self {
+        self.add_transports_raw([transport])
     }
 
     pub fn add_transports<'a>(
@@ -166,7 +164,13 @@ impl RgbInvoiceBuilder {
         mut self,
         transports: impl IntoIterator<Item = RgbTransport>,
     ) -> Self {
-        self.drop_unspecified_transport();
+        let mut transports = transports
+            .into_iter()
+            .filter(|transport| *transport != RgbTransport::UnspecifiedMeans)
+            .peekable();
+        if transports.peek().is_some() {
+            self.drop_unspecified_transport();
+        }
         self.0.transports.extend(transports);
         self
     }
-- 
2.43.0


From 02c731799508a4b2b9dc190f55af1ff72a6a9614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:35:40 +0000
Subject: [PATCH 26/53] fix: print every header of armored containers on a
 single line

Headers with several values or with parameters were printed on several
lines, which the armor parser does not understand. Armored consignments
with two interfaces or terminals, and all non-empty armored kits, could
not be read back.
---
 src/containers/consignment.rs | 11 +++++++----
 src/containers/kit.rs         | 17 ++++++++++++++---
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/containers/consignment.rs b/src/containers/consignment.rs
index 0b364b4..bb0f049 100644
--- a/src/containers/consignment.rs
+++ b/src/containers/consignment.rs
@@ -404,16 +404,19 @@ impl<const TRANSFER: bool> StrictArmor for Consignment<TRANSFER> {
             ArmorHeader::new(ASCII_ARMOR_CONTRACT, self.contract_id().to_string()),
             ArmorHeader::new(ASCII_ARMOR_SCHEMA, self.schema.schema_id().to_string()),
         ];
+        // Each header must take a single line, otherwise the armor can't be parsed back
         if !self.ifaces.is_empty() {
-            headers.push(ArmorHeader::with(
+            let names = self.ifaces.keys().map(|iface| iface.name.to_string());
+            headers.push(ArmorHeader::new(
                 ASCII_ARMOR_IFACE,
-                self.ifaces.keys().map(|iface| iface.name.to_string()),
+                names.collect::<Vec<_>>().join(", "),
             ));
         }
         if !self.terminals.is_empty() {
-            headers.push(ArmorHeader::with(
+            let terminals = self.terminals.keys().map(BundleId::to_string);
+            headers.push(ArmorHeader::new(
                 ASCII_ARMOR_TERMINAL,
-                self.terminals.keys().map(BundleId::to_string),
+                terminals.collect::<Vec<_>>().join(", "),
             ));
         }
         headers
diff --git a/src/containers/kit.rs b/src/containers/kit.rs
index 4316f83..333470b 100644
--- a/src/containers/kit.rs
+++ b/src/containers/kit.rs
@@ -217,7 +217,7 @@ impl StrictArmor for Kit {
                     .params
                     .push((s!("suppl"), format!("{:-}", suppl.suppl_id())));
             }
-            headers.push(header);
+            headers.push(inline_params(header));
         }
         for iface in &self.ifaces {
             let mut header = ArmorHeader::new(ASCII_ARMOR_IFACE, iface.name.to_string());
@@ -233,7 +233,7 @@ impl StrictArmor for Kit {
                     .params
                     .push((s!("suppl"), format!("{:-}", suppl.suppl_id())));
             }
-            headers.push(header);
+            headers.push(inline_params(header));
         }
         for iimpl in &self.iimpls {
             let id = iimpl.impl_id();
@@ -254,7 +254,7 @@ impl StrictArmor for Kit {
                     .params
                     .push((s!("suppl"), format!("{:-}", suppl.suppl_id())));
             }
-            headers.push(header);
+            headers.push(inline_params(header));
         }
         headers.push(ArmorHeader::new(ASCII_ARMOR_TYPE_SYSTEM, self.types.id().to_string()));
         for lib in &self.scripts {
@@ -264,6 +264,17 @@ impl StrictArmor for Kit {
     }
 }
 
+/// Puts parameters on the same line with the header value, since multi-line
+/// headers can't be parsed back from the armored text.
+fn inline_params(mut header: ArmorHeader) -> ArmorHeader {
+    let mut value = header.values.join(", ");
+    for (name, param) in header.params.drain(..) {
+        value.push_str(&format!("; {name}={param}"));
+    }
+    header.values = vec![value];
+    header
+}
+
 impl FromStr for Kit {
     type Err = armor::StrictArmorError;
     fn from_str(s: &str) -> Result<Self, Self::Err> { Self::from_ascii_armored_str(s) }
-- 
2.43.0


From e7b2a78a02200db3a3f64a3208b3f73e3c55ce5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:35:56 +0000
Subject: [PATCH 27/53] fix: refuse files holding the other kind of consignment

A contract stored under the magic bytes of a transfer, or loaded from
the armored text of a transfer, was accepted as a contract, and the
other way around.
---
 src/containers/file.rs | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/containers/file.rs b/src/containers/file.rs
index 4cd722c..e866ba2 100644
--- a/src/containers/file.rs
+++ b/src/containers/file.rs
@@ -51,6 +51,9 @@ pub trait FileContent: StrictArmor {
     /// Magic bytes used in saving/restoring container from a file.
     const MAGIC: [u8; MAGIC_LEN];
 
+    /// Checks that the loaded data are of the type the container stands for.
+    fn check_content(&self) -> Result<(), LoadError> { Ok(()) }
+
     fn load(mut data: impl Read) -> Result<Self, LoadError> {
         let mut rgb = [0u8; 4];
         let mut magic = [0u8; MAGIC_LEN];
@@ -62,6 +65,7 @@ pub trait FileContent: StrictArmor {
 
         let reader = StreamReader::new::<FILE_MAX_LEN>(data);
         let me = Self::strict_read(reader)?;
+        me.check_content()?;
 
         Ok(me)
     }
@@ -92,6 +96,7 @@ pub trait FileContent: StrictArmor {
     fn load_armored(path: impl AsRef<std::path::Path>) -> Result<Self, LoadError> {
         let armor = std::fs::read_to_string(path)?;
         let content = Self::from_ascii_armored_str(&armor)?;
+        content.check_content()?;
         Ok(content)
     }
 
@@ -107,10 +112,24 @@ impl FileContent for Kit {
 
 impl FileContent for Contract {
     const MAGIC: [u8; MAGIC_LEN] = *b"CON";
+
+    fn check_content(&self) -> Result<(), LoadError> {
+        if self.transfer {
+            return Err(LoadError::InvalidMagic);
+        }
+        Ok(())
+    }
 }
 
 impl FileContent for Transfer {
     const MAGIC: [u8; MAGIC_LEN] = *b"TFR";
+
+    fn check_content(&self) -> Result<(), LoadError> {
+        if !self.transfer {
+            return Err(LoadError::InvalidMagic);
+        }
+        Ok(())
+    }
 }
 
 // TODO: Add disclosure
@@ -147,8 +166,16 @@ impl UniversalFile {
         let mut reader = StreamReader::new::<FILE_MAX_LEN>(data);
         Ok(match magic {
             x if x == Kit::MAGIC => Kit::strict_read(&mut reader)?.into(),
-            x if x == Contract::MAGIC => Contract::strict_read(&mut reader)?.into(),
-            x if x == Transfer::MAGIC => Transfer::strict_read(&mut reader)?.into(),
+            x if x == Contract::MAGIC => {
+                let contract = Contract::strict_read(&mut reader)?;
+                contract.check_content()?;
+                contract.into()
+            }
+            x if x == Transfer::MAGIC => {
+                let transfer = Transfer::strict_read(&mut reader)?;
+                transfer.check_content()?;
+                transfer.into()
+            }
             _ => return Err(LoadError::InvalidMagic),
         })
     }
-- 
2.43.0


From 705ee1ecb3bc7d891d494bb729e5bc3c984b47c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:53:10 +0000
Subject: [PATCH 28/53] fix: update transition ids when batch priority is set

The priority is a part of the data the operation id commits to, so after
setting it the batch listed transitions under ids which do not exist.
---
 src/containers/partials.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/containers/partials.rs b/src/containers/partials.rs
index 8bdf33d..5926bb8 100644
--- a/src/containers/partials.rs
+++ b/src/containers/partials.rs
@@ -181,6 +181,11 @@ impl TransitionInfo {
             method,
         })
     }
+
+    fn set_priority(&mut self, priority: u64) {
+        self.transition.nonce = priority;
+        self.id = self.transition.id();
+    }
 }
 
 #[derive(Copy, Clone, Eq, PartialEq, Debug, Display, Error)]
@@ -244,14 +249,14 @@ impl Batch {
     }
 
     pub fn set_priority(&mut self, priority: u64) {
-        self.main.first.transition.nonce = priority;
+        self.main.first.set_priority(priority);
         if let Some(info) = &mut self.main.second {
-            info.transition.nonce = priority;
+            info.set_priority(priority);
         }
         for info in &mut self.blanks {
-            info.first.transition.nonce = priority;
+            info.first.set_priority(priority);
             if let Some(info) = &mut info.second {
-                info.transition.nonce = priority;
+                info.set_priority(priority);
             }
         }
     }
-- 
2.43.0


From 3d8b207e351e4428d2aa81cf3d99cfddd7a3d045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:53:14 +0000
Subject: [PATCH 29/53] fix: return error for operations unknown to the
 interface

Asking for a transition builder (also with an invoice naming an operation)
panicked when the interface has no such operation.
---
 src/persistence/stash.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/persistence/stash.rs b/src/persistence/stash.rs
index 2e869b4..01b0c3f 100644
--- a/src/persistence/stash.rs
+++ b/src/persistence/stash.rs
@@ -47,7 +47,7 @@ use crate::containers::{
     SigBlob, Supplement, TrustLevel, WitnessBundle,
 };
 use crate::interface::{
-    ContractBuilder, Iface, IfaceClass, IfaceId, IfaceImpl, IfaceRef, TransitionBuilder,
+    BuilderError, ContractBuilder, Iface, IfaceClass, IfaceId, IfaceImpl, IfaceRef, TransitionBuilder,
 };
 use crate::persistence::{ContractIfaceError, StoreTransaction};
 use crate::{MergeReveal, MergeRevealError, SecretSeal, LIB_NAME_RGB_STD};
@@ -160,6 +160,10 @@ pub enum StashDataError {
     #[from]
     #[display(inner)]
     NoAbstractIface(ContractIfaceError),
+
+    #[from]
+    #[display(inner)]
+    Builder(BuilderError),
 }
 
 #[derive(Clone, Eq, PartialEq, Debug)]
@@ -377,7 +381,7 @@ impl<P: StashProvider> Stash<P> {
                 types,
             )
         }
-        .expect("internal inconsistency");
+        .map_err(StashDataError::from)?;
 
         for (assignment_type, asset_tag) in genesis.asset_tags.iter() {
             builder = builder
-- 
2.43.0


From a33920d11792487d3aacb9a7829f1f029f368d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:53:16 +0000
Subject: [PATCH 30/53] fix: return error for invoices with unsupported state

Composing a payment for an invoice without an amount or a token panicked.
---
 src/persistence/stock.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index afffcc7..28a88e7 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -235,6 +235,9 @@ pub enum ComposeError {
     /// smart contract state.
     InsufficientState,
 
+    /// the invoice asks for state of a kind which is not supported yet.
+    UnsupportedState,
+
     /// the spent UTXOs contain too many seals which can't fit the state
     /// transition input limit.
     TooManyInputs,
@@ -1155,12 +1158,7 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
                     }
                 }
             },
-            _ => {
-                todo!(
-                    "only PersistedState::Amount and PersistedState::Allocation are currently \
-                     supported"
-                )
-            }
+            _ => return Err(ComposeError::UnsupportedState.into()),
         }
 
         // 3. Prepare other transitions
-- 
2.43.0


From 6c1fb363f07f0635f15c9e64d296f8980ba3798e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:53:18 +0000
Subject: [PATCH 31/53] fix: require a change output only when there is a
 change

Payments of the whole available amount were refused if no output could be
allocated for the (empty) change.
---
 src/persistence/stock.rs | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index 28a88e7..d3a0ba7 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -1112,25 +1112,26 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
                     )?;
                 }
 
-                let blinding_change = pedersen_blinder(contract_id, assignment_id);
-                let change_seal = output_for_assignment(contract_id, assignment_id)?;
-
                 // Pay change
-                if sum_main > paid_main {
-                    main_builder = main_builder.add_fungible_state_raw(
-                        assignment_id,
-                        change_seal,
-                        sum_main - paid_main,
-                        blinding_change,
-                    )?;
-                }
-                if sum_alt > paid_alt {
-                    alt_builder = alt_builder.add_fungible_state_raw(
-                        assignment_id,
-                        change_seal,
-                        sum_alt - paid_alt,
-                        blinding_change,
-                    )?;
+                if sum_inputs > amt {
+                    let blinding_change = pedersen_blinder(contract_id, assignment_id);
+                    let change_seal = output_for_assignment(contract_id, assignment_id)?;
+                    if sum_main > paid_main {
+                        main_builder = main_builder.add_fungible_state_raw(
+                            assignment_id,
+                            change_seal,
+                            sum_main - paid_main,
+                            blinding_change,
+                        )?;
+                    }
+                    if sum_alt > paid_alt {
+                        alt_builder = alt_builder.add_fungible_state_raw(
+                            assignment_id,
+                            change_seal,
+                            sum_alt - paid_alt,
+                            blinding_change,
+                        )?;
+                    }
                 }
             }
             InvoiceState::Data(data) => match data {
-- 
2.43.0


From a7516a1d8e5ca494a9f42b26d686476051cb719e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:53:20 +0000
Subject: [PATCH 32/53] fix: do not lose other tokens when one of them is paid

State of the invoiced type which is not what the invoice asks for was spent
without being assigned again: all other tokens on the spent outputs when a
token was paid, or state of another kind than that of the invoice.
---
 src/persistence/stock.rs | 51 ++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 23 deletions(-)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index d3a0ba7..6716d59 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -1038,8 +1038,7 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
         let mut main_inputs = Vec::<XOutputSeal>::new();
         let mut sum_inputs = Amount::ZERO;
         let mut sum_alt = Amount::ZERO;
-        let mut data_inputs = vec![];
-        let mut data_main = true;
+        let mut data_main = None;
         let lookup_state =
             if let InvoiceState::Data(NonFungible::RGB21(allocation)) = &invoice.owned_state {
                 Some(DataState::from(*allocation))
@@ -1061,24 +1060,34 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
                 } else {
                     alt_builder = alt_builder.add_input(opout, state.clone())?;
                 }
-                if opout.ty != assignment_id {
-                    let seal = output_for_assignment(contract_id, opout.ty)?;
-                    state.update_blinding(pedersen_blinder(contract_id, assignment_id));
-                    if output.method() == method {
-                        main_builder = main_builder.add_owned_state_raw(opout.ty, seal, state)?;
-                    } else {
-                        alt_builder = alt_builder.add_owned_state_raw(opout.ty, seal, state)?;
-                    }
-                } else if let PersistedState::Amount(value, _, _) = state {
-                    sum_inputs += value;
-                    if output.method() != method {
-                        sum_alt += value;
+                match &state {
+                    PersistedState::Amount(value, _, _)
+                        if opout.ty == assignment_id
+                            && matches!(invoice.owned_state, InvoiceState::Amount(_)) =>
+                    {
+                        sum_inputs += *value;
+                        if output.method() != method {
+                            sum_alt += *value;
+                        }
+                        continue;
                     }
-                } else if let PersistedState::Data(value, _) = state {
-                    if lookup_state.as_ref() == Some(&value) && output.method() != method {
-                        data_main = false;
+                    PersistedState::Data(value, _)
+                        if opout.ty == assignment_id
+                            && data_main.is_none()
+                            && lookup_state.as_ref() == Some(value) =>
+                    {
+                        data_main = Some(output.method() == method);
+                        continue;
                     }
-                    data_inputs.push(value);
+                    _ => {}
+                }
+                // All state which is not paid to the beneficiary returns back
+                let seal = output_for_assignment(contract_id, opout.ty)?;
+                state.update_blinding(pedersen_blinder(contract_id, assignment_id));
+                if output.method() == method {
+                    main_builder = main_builder.add_owned_state_raw(opout.ty, seal, state)?;
+                } else {
+                    alt_builder = alt_builder.add_owned_state_raw(opout.ty, seal, state)?;
                 }
             }
         }
@@ -1136,11 +1145,7 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
             }
             InvoiceState::Data(data) => match data {
                 NonFungible::RGB21(allocation) => {
-                    let lookup_state = DataState::from(allocation);
-                    if !data_inputs.into_iter().any(|x| x == lookup_state) {
-                        return Err(ComposeError::InsufficientState.into());
-                    }
-
+                    let data_main = data_main.ok_or(ComposeError::InsufficientState)?;
                     let seal = seal_blinder(contract_id, assignment_id);
                     if data_main {
                         main_builder = main_builder.add_data_raw(
-- 
2.43.0


From 36c09b8fe07150e3ee0bfb22fdc9329e5e7033d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:53:21 +0000
Subject: [PATCH 33/53] fix: do not lose state assigned to the same output when
 composing

With deterministic blinders several pieces of state of the same type going to
the same output (including a payment and its change) got equal seals and
overwrote each other, so that all but one of them were burned.
---
 src/persistence/stock.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index 6716d59..b7b28aa 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -19,6 +19,7 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
+use std::cell::RefCell;
 use std::collections::btree_map::Entry;
 use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
 use std::convert::Infallible;
@@ -962,6 +963,16 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
             .map(|o| o.into())
             .collect::<HashSet<XOutputSeal>>();
 
+        // Each piece of state needs a seal of its own, even when the blinders are
+        // deterministic: the state is listed by its seals.
+        let used_seals = RefCell::new(HashSet::<GraphSeal>::new());
+        let unique_seal = |mut seal: GraphSeal| -> GraphSeal {
+            while !used_seals.borrow_mut().insert(seal) {
+                seal.blinding = seal.blinding.wrapping_add(1);
+            }
+            seal
+        };
+
         #[allow(clippy::type_complexity)]
         let output_for_assignment =
             |id: ContractId,
@@ -984,8 +995,11 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
                     .unwrap_or_default();
                 let vout = allocator(id, assignment_type, velocity)
                     .ok_or(ComposeError::NoBlankOrChange(velocity, assignment_type))?;
-                let seal =
-                    GraphSeal::with_blinded_vout(method, vout, seal_blinder(id, assignment_type));
+                let seal = unique_seal(GraphSeal::with_blinded_vout(
+                    method,
+                    vout,
+                    seal_blinder(id, assignment_type),
+                ));
                 Ok(BuilderSeal::Revealed(XChain::with(layer1, seal)))
             };
 
@@ -1026,7 +1040,8 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
             }
             (Beneficiary::WitnessVout(payload), Some(vout)) => {
                 let blinding = seal_blinder(contract_id, assignment_id);
-                let seal = GraphSeal::with_blinded_vout(payload.method, vout, blinding);
+                let seal =
+                    unique_seal(GraphSeal::with_blinded_vout(payload.method, vout, blinding));
                 BuilderSeal::Revealed(XChain::with(layer1, seal))
             }
             (Beneficiary::WitnessVout(_), None) => {
-- 
2.43.0


From 62255d3f68ac950312bf62ca3d66cc92e07dd965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:26:54 +0000
Subject: [PATCH 34/53] fix: put metadata given to a builder into the operation

---
 src/interface/builder.rs | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/interface/builder.rs b/src/interface/builder.rs
index eb8a01c..b4affea 100644
--- a/src/interface/builder.rs
+++ b/src/interface/builder.rs
@@ -382,7 +382,7 @@ impl ContractBuilder {
     }
 
     fn issue_contract_raw(self, timestamp: i64) -> Result<ValidConsignment<false>, BuilderError> {
-        let (schema, iface, iimpl, global, assignments, types, asset_tags) =
+        let (schema, iface, iimpl, metadata, global, assignments, types, asset_tags) =
             self.builder.complete(None);
 
         let genesis = Genesis {
@@ -393,7 +393,7 @@ impl ContractBuilder {
             testnet: self.testnet,
             alt_layers1: self.alt_layers1,
             asset_tags,
-            metadata: empty!(),
+            metadata,
             globals: global,
             assignments,
             valencies: none!(),
@@ -800,14 +800,15 @@ impl TransitionBuilder {
     pub fn has_inputs(&self) -> bool { !self.inputs.is_empty() }
 
     pub fn complete_transition(self) -> Result<Transition, BuilderError> {
-        let (_, _, _, global, assignments, _, _) = self.builder.complete(Some(&self.inputs));
+        let (_, _, _, metadata, global, assignments, _, _) =
+            self.builder.complete(Some(&self.inputs));
 
         let transition = Transition {
             ffv: none!(),
             contract_id: self.contract_id,
             nonce: self.nonce,
             transition_type: self.transition_type,
-            metadata: empty!(),
+            metadata,
             globals: global,
             inputs: SmallOrdSet::from_iter_checked(self.inputs.into_keys()).into(),
             assignments,
@@ -1327,7 +1328,16 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
     fn complete(
         self,
         inputs: Option<&TinyOrdMap<Input, PersistedState>>,
-    ) -> (Schema, Iface, IfaceImpl, GlobalState, Assignments<Seal>, TypeSystem, AssetTags) {
+    ) -> (
+        Schema,
+        Iface,
+        IfaceImpl,
+        Metadata,
+        GlobalState,
+        Assignments<Seal>,
+        TypeSystem,
+        AssetTags,
+    ) {
         let owned_state = self.fungible.into_iter().map(|(id, vec)| {
             let mut blindings = Vec::with_capacity(vec.len());
             let mut vec = vec
@@ -1443,6 +1453,15 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
             .extend(Assignments::from_inner(owned_attachments).into_inner())
             .expect("too many assignments");
 
-        (self.schema, self.iface, self.iimpl, self.global, assignments, self.types, self.asset_tags)
+        (
+            self.schema,
+            self.iface,
+            self.iimpl,
+            self.meta,
+            self.global,
+            assignments,
+            self.types,
+            self.asset_tags,
+        )
     }
 }
-- 
2.43.0


From ecbc90a84dff76ea8ef27a7491e53a1222151add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:26:54 +0000
Subject: [PATCH 35/53] fix: keep the order of rights in a built operation the
 same each time

---
 src/interface/builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interface/builder.rs b/src/interface/builder.rs
index b4affea..b93599b 100644
--- a/src/interface/builder.rs
+++ b/src/interface/builder.rs
@@ -21,7 +21,7 @@
 
 #![allow(clippy::result_large_err)]
 
-use std::collections::{BTreeMap, HashSet};
+use std::collections::{BTreeMap, BTreeSet};
 
 use amplify::confinement::{Confined, SmallOrdSet, TinyOrdMap, U16};
 use amplify::{confinement, Wrapper};
@@ -834,7 +834,7 @@ pub struct OperationBuilder<Seal: ExposedSeal> {
 
     global: GlobalState,
     meta: Metadata,
-    rights: TinyOrdMap<AssignmentType, Confined<HashSet<BuilderSeal<Seal>>, 1, U16>>,
+    rights: TinyOrdMap<AssignmentType, Confined<BTreeSet<BuilderSeal<Seal>>, 1, U16>>,
     fungible:
         TinyOrdMap<AssignmentType, Confined<BTreeMap<BuilderSeal<Seal>, RevealedValue>, 1, U16>>,
     data: TinyOrdMap<AssignmentType, Confined<BTreeMap<BuilderSeal<Seal>, RevealedData>, 1, U16>>,
-- 
2.43.0


From 8c4bad04984f91a5e977391ec77499b9834d3caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:26:54 +0000
Subject: [PATCH 36/53] fix: refuse to assign a state twice to one seal instead
 of losing the first one

---
 src/interface/builder.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/interface/builder.rs b/src/interface/builder.rs
index b93599b..c859f72 100644
--- a/src/interface/builder.rs
+++ b/src/interface/builder.rs
@@ -73,6 +73,9 @@ pub enum BuilderError {
     /// state `{0}` provided to the builder has invalid type.
     InvalidStateType(AssignmentType),
 
+    /// state `{0}` is already assigned to the same seal.
+    RepeatedSeal(AssignmentType),
+
     /// asset tag for state `{0}` must be added before any fungible state of
     /// the same type.
     AssetTagMissed(AssignmentType),
@@ -1114,6 +1117,9 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
         let seal = seal.into();
         match self.rights.get_mut(&type_id) {
             Some(assignments) => {
+                if assignments.contains(&seal) {
+                    return Err(BuilderError::RepeatedSeal(type_id));
+                }
                 assignments.push(seal)?;
             }
             None => {
@@ -1180,6 +1186,9 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
         let seal = seal.into();
         match self.fungible.get_mut(&type_id) {
             Some(assignments) => {
+                if assignments.contains_key(&seal) {
+                    return Err(BuilderError::RepeatedSeal(type_id));
+                }
                 assignments.insert(seal, state)?;
             }
             None => {
@@ -1244,6 +1253,9 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
             let seal = seal.into();
             match self.data.get_mut(&type_id) {
                 Some(assignments) => {
+                    if assignments.contains_key(&seal) {
+                        return Err(BuilderError::RepeatedSeal(type_id));
+                    }
                     assignments.insert(seal, state)?;
                 }
                 None => {
@@ -1312,6 +1324,9 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
             let seal = seal.into();
             match self.attachments.get_mut(&type_id) {
                 Some(assignments) => {
+                    if assignments.contains_key(&seal) {
+                        return Err(BuilderError::RepeatedSeal(type_id));
+                    }
                     assignments.insert(seal, state)?;
                 }
                 None => {
-- 
2.43.0


From 2ad719022b5f6fb9d141b13ab365c9186f50ec5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:26:54 +0000
Subject: [PATCH 37/53] fix: do not panic when a builder is given a state of an
 unknown type

---
 src/interface/builder.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/interface/builder.rs b/src/interface/builder.rs
index c859f72..38afc84 100644
--- a/src/interface/builder.rs
+++ b/src/interface/builder.rs
@@ -919,11 +919,11 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
     }
 
     #[inline]
-    fn state_schema(&self, type_id: AssignmentType) -> &OwnedStateSchema {
+    fn state_schema(&self, type_id: AssignmentType) -> Result<&OwnedStateSchema, BuilderError> {
         self.schema
             .owned_types
             .get(&type_id)
-            .expect("schema should match interface: must be checked by the constructor")
+            .ok_or(BuilderError::InvalidStateType(type_id))
     }
 
     #[inline]
@@ -1109,7 +1109,7 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
         type_id: AssignmentType,
         seal: impl Into<BuilderSeal<Seal>>,
     ) -> Result<Self, BuilderError> {
-        let state_schema = self.state_schema(type_id);
+        let state_schema = self.state_schema(type_id)?;
         if *state_schema != OwnedStateSchema::Declarative {
             return Err(BuilderError::InvalidStateType(type_id));
         }
@@ -1178,7 +1178,7 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
         seal: impl Into<BuilderSeal<Seal>>,
         state: RevealedValue,
     ) -> Result<Self, BuilderError> {
-        let state_schema = self.state_schema(type_id);
+        let state_schema = self.state_schema(type_id)?;
         if *state_schema != OwnedStateSchema::Fungible(FungibleType::Unsigned64Bit) {
             return Err(BuilderError::InvalidStateType(type_id));
         }
@@ -1248,7 +1248,7 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
         seal: impl Into<BuilderSeal<Seal>>,
         state: RevealedData,
     ) -> Result<Self, BuilderError> {
-        let state_schema = self.state_schema(type_id);
+        let state_schema = self.state_schema(type_id)?;
         if let OwnedStateSchema::Structured(_) = *state_schema {
             let seal = seal.into();
             match self.data.get_mut(&type_id) {
@@ -1319,7 +1319,7 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
         seal: impl Into<BuilderSeal<Seal>>,
         state: RevealedAttach,
     ) -> Result<Self, BuilderError> {
-        let state_schema = self.state_schema(type_id);
+        let state_schema = self.state_schema(type_id)?;
         if let OwnedStateSchema::Attachment(_) = *state_schema {
             let seal = seal.into();
             match self.attachments.get_mut(&type_id) {
-- 
2.43.0


From 81b6ef1a58a4aaf8ef2062c58c029b362e43abc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:26:54 +0000
Subject: [PATCH 38/53] fix: check structured state given to a builder against
 its type

---
 src/interface/builder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/interface/builder.rs b/src/interface/builder.rs
index 38afc84..57a5466 100644
--- a/src/interface/builder.rs
+++ b/src/interface/builder.rs
@@ -1249,7 +1249,9 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
         state: RevealedData,
     ) -> Result<Self, BuilderError> {
         let state_schema = self.state_schema(type_id)?;
-        if let OwnedStateSchema::Structured(_) = *state_schema {
+        if let OwnedStateSchema::Structured(sem_id) = *state_schema {
+            self.types
+                .strict_deserialize_type(sem_id, state.value.as_slice())?;
             let seal = seal.into();
             match self.data.get_mut(&type_id) {
                 Some(assignments) => {
-- 
2.43.0


From bea97356cee9a0898ecb36671626c1dcb84d3770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:26:54 +0000
Subject: [PATCH 39/53] fix: do not panic adding default state to a blank
 transition

---
 src/interface/builder.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/interface/builder.rs b/src/interface/builder.rs
index 57a5466..ca50ffc 100644
--- a/src/interface/builder.rs
+++ b/src/interface/builder.rs
@@ -619,8 +619,7 @@ impl TransitionBuilder {
     pub fn default_assignment(&self) -> Result<&FieldName, BuilderError> {
         self.builder
             .transition_iface(self.transition_type)
-            .default_assignment
-            .as_ref()
+            .and_then(|iface| iface.default_assignment.as_ref())
             .ok_or(BuilderError::NoDefaultAssignment)
     }
 
@@ -888,12 +887,9 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
 
     fn type_system(&self) -> &TypeSystem { &self.types }
 
-    fn transition_iface(&self, ty: TransitionType) -> &TransitionIface {
-        let transition_name = self.iimpl.transition_name(ty).expect("reverse type");
-        self.iface
-            .transitions
-            .get(transition_name)
-            .expect("internal inconsistency")
+    fn transition_iface(&self, ty: TransitionType) -> Option<&TransitionIface> {
+        let transition_name = self.iimpl.transition_name(ty)?;
+        self.iface.transitions.get(transition_name)
     }
 
     fn assignments_type(&self, name: &FieldName) -> Option<AssignmentType> {
-- 
2.43.0


From 9d9b7da252b170122752b805f2d2bedf4d7eaa4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:26:54 +0000
Subject: [PATCH 40/53] fix: refuse inputs with state of a wrong type instead
 of panicking later

---
 src/interface/builder.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/interface/builder.rs b/src/interface/builder.rs
index ca50ffc..08e4f2f 100644
--- a/src/interface/builder.rs
+++ b/src/interface/builder.rs
@@ -612,6 +612,16 @@ impl TransitionBuilder {
     }
 
     pub fn add_input(mut self, opout: Opout, state: PersistedState) -> Result<Self, BuilderError> {
+        let valid = matches!(
+            (self.builder.state_schema(opout.ty)?, &state),
+            (OwnedStateSchema::Declarative, PersistedState::Void)
+                | (OwnedStateSchema::Fungible(_), PersistedState::Amount(..))
+                | (OwnedStateSchema::Structured(_), PersistedState::Data(..))
+                | (OwnedStateSchema::Attachment(_), PersistedState::Attachment(..))
+        );
+        if !valid {
+            return Err(BuilderError::InvalidStateType(opout.ty));
+        }
         self.inputs.insert(Input::with(opout), state)?;
         Ok(self)
     }
-- 
2.43.0


From 245a6ba626a5a24abcb52af780a849a65860abae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:27:41 +0000
Subject: [PATCH 41/53] fix: compose the same batch each time the same blinders
 are given

---
 src/persistence/stock.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index b7b28aa..d53d0b4 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -1061,15 +1061,16 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
                 None
             };
 
-        for (output, list) in
-            self.contract_assignments_for(contract_id, prev_outputs.iter().copied())?
-        {
+        // The state is processed in the order which depends only on the state itself,
+        // such that composing with the same blinders always gives the same result.
+        let state = self.contract_assignments_for(contract_id, prev_outputs.iter().copied())?;
+        for (output, list) in BTreeMap::from_iter(state) {
             if output.method() == method {
                 main_inputs.push(output)
             } else {
                 alt_inputs.push(output)
             };
-            for (opout, mut state) in list {
+            for (opout, mut state) in BTreeMap::from_iter(list) {
                 if output.method() == method {
                     main_builder = main_builder.add_input(opout, state.clone())?;
                 } else {
@@ -1185,7 +1186,7 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
         // 3. Prepare other transitions
         // Enumerate state
         let mut spent_state =
-            HashMap::<ContractId, HashMap<XOutputSeal, HashMap<Opout, PersistedState>>>::new();
+            BTreeMap::<ContractId, BTreeMap<XOutputSeal, BTreeMap<Opout, PersistedState>>>::new();
         for id in self.contracts_assigning(prev_outputs.iter().copied())? {
             // Skip current contract
             if id == contract_id {
-- 
2.43.0


From e8a368c518acbcae9751070a6fae721e9250ee5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:48:14 +0000
Subject: [PATCH 42/53] fix: refuse to change the type of inherited metadata

Extending an interface silently replaced the type of a metadata field of
the parent, while doing so for global or owned state is an error.
---
 src/interface/inheritance.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/interface/inheritance.rs b/src/interface/inheritance.rs
index 518c059..99e4387 100644
--- a/src/interface/inheritance.rs
+++ b/src/interface/inheritance.rs
@@ -232,6 +232,8 @@ pub struct InheritError {
 pub enum ExtensionError {
     /// too many metadata fields defined.
     MetaOverflow,
+    /// metadata '{0}' has different data type from the parent interface.
+    MetaType(FieldName),
     /// too many global state types defined.
     GlobalOverflow,
     /// global state '{0}' has different data type from the parent interface.
@@ -359,10 +361,25 @@ impl Iface {
 
         let mut errors = vec![];
 
-        self.metadata
-            .extend(ext.metadata)
-            .map_err(|_| errors.push(ExtensionError::MetaOverflow))
-            .ok();
+        for (name, sem_id) in ext.metadata {
+            match self.metadata.get(&name) {
+                None => {
+                    if self
+                        .metadata
+                        .insert(name, sem_id)
+                        .map_err(|_| errors.push(ExtensionError::MetaOverflow))
+                        .is_err()
+                    {
+                        break;
+                    }
+                }
+                Some(orig) => {
+                    if *orig != sem_id {
+                        errors.push(ExtensionError::MetaType(name));
+                    }
+                }
+            }
+        }
 
         for (name, e) in ext.global_state {
             match self.global_state.get_mut(&name) {
-- 
2.43.0


From 17bd12316b9a603259c9432264f6747fdcc332c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:48:14 +0000
Subject: [PATCH 43/53] fix: report problems of state extensions as such

Problems found in a state extension of an inherited interface were
reported against a state transition with the same name.
---
 src/interface/inheritance.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interface/inheritance.rs b/src/interface/inheritance.rs
index 99e4387..2e79e10 100644
--- a/src/interface/inheritance.rs
+++ b/src/interface/inheritance.rs
@@ -490,7 +490,7 @@ impl Iface {
                     if self
                         .extensions
                         .insert(name, op)
-                        .map_err(|_| errors.push(ExtensionError::TransitionOverflow))
+                        .map_err(|_| errors.push(ExtensionError::ExtensionOverflow))
                         .is_err()
                     {
                         break;
@@ -657,7 +657,7 @@ impl ExtensionIface {
     pub fn extended(mut self, ext: Self, op_name: FieldName) -> Result<Self, Vec<ExtensionError>> {
         let mut errors = vec![];
 
-        let op = OpName::Transition(op_name);
+        let op = OpName::Extension(op_name);
         if self.modifier.is_final() {
             errors.push(ExtensionError::OpFinal(op.clone()));
         } else if !self.modifier.can_be_overridden_by(ext.modifier) {
-- 
2.43.0


From 27241e72ff33c8eb6af2ce2c953421bdc4d8f834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:48:14 +0000
Subject: [PATCH 44/53] fix: report names an implementation maps twice

The names were counted starting from zero, so only the third repetition
was seen as a problem.
---
 src/interface/iimpl.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/interface/iimpl.rs b/src/interface/iimpl.rs
index 1e528ed..f381b68 100644
--- a/src/interface/iimpl.rs
+++ b/src/interface/iimpl.rs
@@ -421,7 +421,7 @@ impl IfaceImpl {
             dup_metadata
                 .entry(field.name.clone())
                 .and_modify(|counter| *counter += 1)
-                .or_insert(0);
+                .or_insert(1);
             if !schema.meta_types.contains_key(&field.id) {
                 errors.push(ImplInconsistency::SchemaMetaAbsent(field.name.clone(), field.id));
             }
@@ -443,7 +443,7 @@ impl IfaceImpl {
             dup_global_state
                 .entry(field.name.clone())
                 .and_modify(|counter| *counter += 1)
-                .or_insert(0);
+                .or_insert(1);
             if !schema.global_types.contains_key(&field.id) {
                 errors.push(ImplInconsistency::SchemaGlobalAbsent(field.name.clone(), field.id));
             }
@@ -465,7 +465,7 @@ impl IfaceImpl {
             dup_assignments
                 .entry(field.name.clone())
                 .and_modify(|counter| *counter += 1)
-                .or_insert(0);
+                .or_insert(1);
             if !schema.owned_types.contains_key(&field.id) {
                 errors
                     .push(ImplInconsistency::SchemaAssignmentAbsent(field.name.clone(), field.id));
@@ -488,7 +488,7 @@ impl IfaceImpl {
             dup_valencies
                 .entry(field.name.clone())
                 .and_modify(|counter| *counter += 1)
-                .or_insert(0);
+                .or_insert(1);
 
             if !schema.valency_types.contains(&field.id) {
                 errors.push(ImplInconsistency::SchemaValencyAbsent(field.name.clone(), field.id));
@@ -510,7 +510,7 @@ impl IfaceImpl {
             dup_transitions
                 .entry(field.name.clone())
                 .and_modify(|counter| *counter += 1)
-                .or_insert(0);
+                .or_insert(1);
 
             if !schema.transitions.contains_key(&field.id) {
                 errors
@@ -534,7 +534,7 @@ impl IfaceImpl {
             dup_extensions
                 .entry(field.name.clone())
                 .and_modify(|counter| *counter += 1)
-                .or_insert(0);
+                .or_insert(1);
 
             if !schema.extensions.contains_key(&field.id) {
                 errors.push(ImplInconsistency::SchemaExtensionAbsent(field.name.clone(), field.id));
-- 
2.43.0


From 39aee7f462c59fb650decbcab22dedd1440619bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:48:14 +0000
Subject: [PATCH 45/53] fix: keep valencies when abstracting an implementation

Valencies were looked for by the names of owned state, and were lost.
---
 src/interface/inheritance.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interface/inheritance.rs b/src/interface/inheritance.rs
index 2e79e10..d69d439 100644
--- a/src/interface/inheritance.rs
+++ b/src/interface/inheritance.rs
@@ -725,7 +725,7 @@ impl IfaceImpl {
                     .cloned()
             }));
 
-        self.valencies = Confined::from_iter_checked(base.assignments.keys().filter_map(|name| {
+        self.valencies = Confined::from_iter_checked(base.valencies.keys().filter_map(|name| {
             self.valencies
                 .iter()
                 .find(|i| parent.valencies.contains_key(name) && &i.name == name)
-- 
2.43.0


From 940e8c11cdc3b5e04684ae0fdcc47ca3263335c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:48:14 +0000
Subject: [PATCH 46/53] fix: drop errors unknown to the parent when abstracting
 an implementation

An abstracted implementation kept names of errors which the parent
interface doesn't have, thus being inconsistent with it.
---
 src/interface/inheritance.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/interface/inheritance.rs b/src/interface/inheritance.rs
index d69d439..8fbb6eb 100644
--- a/src/interface/inheritance.rs
+++ b/src/interface/inheritance.rs
@@ -747,6 +747,13 @@ impl IfaceImpl {
                 .cloned()
         }));
 
+        self.errors = Confined::from_iter_checked(
+            self.errors
+                .iter()
+                .filter(|i| parent.errors.contains_key(&i.name))
+                .cloned(),
+        );
+
         self.iface_id = parent_id;
 
         Some(self)
-- 
2.43.0


From 697d2a25204b3439759f464782b07f8a7d6673e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:10:30 +0000
Subject: [PATCH 47/53] fix: allow witness filters including genesis in
 contract history

---
 src/interface/contract.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/interface/contract.rs b/src/interface/contract.rs
index 2709a05..ec46d2f 100644
--- a/src/interface/contract.rs
+++ b/src/interface/contract.rs
@@ -408,12 +408,12 @@ impl<S: ContractStateRead> ContractIface<S> {
         let mut allocations_our_witness = state(&self.state)
             .filter(move |outp| filter_witnesses.should_include(outp.seal, outp.witness))
             .fold(HashMap::<_, HashSet<_>>::new(), |mut map, a| {
-                let witness = a.witness.expect(
-                    "all empty witnesses must be already filtered out by wallet.filter_witness()",
-                );
-                map.entry(witness)
-                    .or_default()
-                    .insert(a.clone().transmute::<AllocatedState>());
+                // allocations of genesis have no witness
+                if let Some(witness) = a.witness {
+                    map.entry(witness)
+                        .or_default()
+                        .insert(a.clone().transmute::<AllocatedState>());
+                }
                 map
             });
 
-- 
2.43.0


From 931f33a25e8fde5236f23061f57f8f2ccb12704e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:15:09 +0000
Subject: [PATCH 48/53] fix: report each fungible type separately in contract
 history

---
 src/interface/contract.rs | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/interface/contract.rs b/src/interface/contract.rs
index ec46d2f..5046d62 100644
--- a/src/interface/contract.rs
+++ b/src/interface/contract.rs
@@ -20,7 +20,7 @@
 // limitations under the License.
 
 use std::borrow::Borrow;
-use std::collections::{BTreeSet, HashMap, HashSet};
+use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
 
 use invoice::{Allocation, Amount};
 use rgb::{
@@ -134,6 +134,16 @@ fn reduce_to_ty(allocations: impl IntoIterator<Item = OwnedAllocation>) -> Assig
         .expect("empty list of allocations")
 }
 
+fn split_by_ty(
+    allocations: HashSet<OwnedAllocation>,
+) -> impl Iterator<Item = HashSet<OwnedAllocation>> {
+    let mut map = BTreeMap::<_, HashSet<_>>::new();
+    for a in allocations {
+        map.entry(a.opout.ty).or_default().insert(a);
+    }
+    map.into_values()
+}
+
 impl ContractOp {
     fn non_fungible_genesis(
         our_allocations: HashSet<OwnedAllocation>,
@@ -429,7 +439,7 @@ impl<S: ContractStateRead> ContractIface<S> {
         // add allocations with no witness to the beginning of the history
         if let Some(genesis_allocations) = allocations_our_outpoint.remove(&None) {
             if T::IS_FUNGIBLE {
-                ops.push(ContractOp::fungible_genesis(genesis_allocations));
+                ops.extend(split_by_ty(genesis_allocations).map(ContractOp::fungible_genesis));
             } else {
                 ops.extend(ContractOp::non_fungible_genesis(genesis_allocations));
             }
@@ -455,7 +465,10 @@ impl<S: ContractStateRead> ContractIface<S> {
                         continue;
                     }
                     if T::IS_FUNGIBLE {
-                        ops.push(ContractOp::fungible_sent(witness_info, ext_allocations))
+                        ops.extend(
+                            split_by_ty(ext_allocations)
+                                .map(|a| ContractOp::fungible_sent(witness_info, a)),
+                        )
                     } else {
                         ops.extend(ContractOp::non_fungible_sent(witness_info, ext_allocations))
                     }
@@ -463,7 +476,10 @@ impl<S: ContractStateRead> ContractIface<S> {
                 // the same as above, but the payment has no change
                 (None, Some(ext_allocations)) => {
                     if T::IS_FUNGIBLE {
-                        ops.push(ContractOp::fungible_sent(witness_info, ext_allocations))
+                        ops.extend(
+                            split_by_ty(ext_allocations)
+                                .map(|a| ContractOp::fungible_sent(witness_info, a)),
+                        )
                     } else {
                         ops.extend(ContractOp::non_fungible_sent(witness_info, ext_allocations))
                     }
@@ -472,7 +488,10 @@ impl<S: ContractStateRead> ContractIface<S> {
                 // this is an incoming payment to us.
                 (Some(our_allocations), None) => {
                     if T::IS_FUNGIBLE {
-                        ops.push(ContractOp::fungible_received(witness_info, our_allocations))
+                        ops.extend(
+                            split_by_ty(our_allocations)
+                                .map(|a| ContractOp::fungible_received(witness_info, a)),
+                        )
                     } else {
                         ops.extend(ContractOp::non_fungible_received(witness_info, our_allocations))
                     }
-- 
2.43.0


From fdeb9205ed3f34ad0ed69902ab61ba2997b2592c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:38:37 +0000
Subject: [PATCH 49/53] fix: refuse kits with implementations of unknown
 schemata or interfaces

---
 src/persistence/stash.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/persistence/stash.rs b/src/persistence/stash.rs
index 01b0c3f..bd3977d 100644
--- a/src/persistence/stash.rs
+++ b/src/persistence/stash.rs
@@ -459,6 +459,9 @@ impl<P: StashProvider> Stash<P> {
                 .map_err(StashError::WriteProvider)?;
         }
         for iimpl in kit.iimpls {
+            // The kit may lack them
+            self.provider.schema(iimpl.schema_id)?;
+            self.provider.iface(iimpl.iface_id)?;
             self.provider
                 .replace_iimpl(iimpl)
                 .map_err(StashError::WriteProvider)?;
-- 
2.43.0


From 2f8fb4914d661df0b4847c7ee0eda0a1adbc4b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:39:48 +0000
Subject: [PATCH 50/53] fix: export implementations together with interfaces
 they implement

---
 src/persistence/stock.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index d53d0b4..3e7843b 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -705,8 +705,8 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
         kit.schemata
             .push(schema_ifaces.schema.clone())
             .expect("single item");
-        for name in schema_ifaces.iimpls.keys() {
-            let iface = self.stash.iface(name.clone())?;
+        for iimpl in schema_ifaces.iimpls.values() {
+            let iface = self.stash.iface(iimpl.iface_id)?;
             kit.ifaces.push(iface.clone()).expect("type guarantees");
         }
         kit.iimpls
@@ -846,8 +846,8 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
 
         let schema_ifaces = self.stash.schema(genesis.schema_id)?.clone();
         let mut ifaces = BTreeMap::new();
-        for (iface_id, iimpl) in schema_ifaces.iimpls {
-            let iface = self.stash.iface(iface_id)?;
+        for iimpl in schema_ifaces.iimpls.release().into_values() {
+            let iface = self.stash.iface(iimpl.iface_id)?;
             // Get iface and iimpl signatures by iface id and iimpl id
             self.stash
                 .sigs_for(&ContentId::Iface(iface.iface_id()))?
-- 
2.43.0


From 7bc379844dc23e1ea45aadb17ff63037ee1914aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:47:19 +0000
Subject: [PATCH 51/53] fix: refuse payments from amounts which overflow when
 added up

---
 src/persistence/stock.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index 3e7843b..c6c5581 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -239,6 +239,10 @@ pub enum ComposeError {
     /// the invoice asks for state of a kind which is not supported yet.
     UnsupportedState,
 
+    /// the amounts available on the spent UTXOs exceed the maximal value in
+    /// total.
+    StateOverflow,
+
     /// the spent UTXOs contain too many seals which can't fit the state
     /// transition input limit.
     TooManyInputs,
@@ -1081,7 +1085,9 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
                         if opout.ty == assignment_id
                             && matches!(invoice.owned_state, InvoiceState::Amount(_)) =>
                     {
-                        sum_inputs += *value;
+                        sum_inputs
+                            .checked_add_assign(*value)
+                            .ok_or(ComposeError::StateOverflow)?;
                         if output.method() != method {
                             sum_alt += *value;
                         }
-- 
2.43.0


From 1e44f48f96000a98cfed044ef1c5b68089b3554f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:15:29 +0000
Subject: [PATCH 52/53] fix: order tickers regardless of letter case

Tickers which differ in letter case only are equal and have the same hash,
but were ordered as different ones, so ordered collections took them for
different keys.
---
 src/stl/specs.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/stl/specs.rs b/src/stl/specs.rs
index f51afc5..e0b18bb 100644
--- a/src/stl/specs.rs
+++ b/src/stl/specs.rs
@@ -21,6 +21,7 @@
 
 #![allow(unused_braces)] // caused by rustc unable to understand strict_dumb
 
+use std::cmp::Ordering;
 use std::fmt::{self, Debug, Formatter};
 use std::hash::{Hash, Hasher};
 use std::str::FromStr;
@@ -79,7 +80,7 @@ pub struct Article(RString<Alpha, AlphaNum, 1, 32>);
 impl_ident_type!(Article);
 impl_ident_subtype!(Article);
 
-#[derive(Wrapper, Clone, Ord, PartialOrd, Eq, From)]
+#[derive(Wrapper, Clone, Eq, From)]
 #[wrapper(Deref, Display, FromStr)]
 #[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
 #[strict_type(lib = LIB_NAME_RGB_CONTRACT, dumb = { Ticker::from("DUMB") })]
@@ -98,6 +99,18 @@ impl PartialEq for Ticker {
     }
 }
 
+impl PartialOrd for Ticker {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> { Some(self.cmp(other)) }
+}
+
+impl Ord for Ticker {
+    fn cmp(&self, other: &Self) -> Ordering {
+        self.as_str()
+            .to_uppercase()
+            .cmp(&other.as_str().to_uppercase())
+    }
+}
+
 impl Hash for Ticker {
     fn hash<H: Hasher>(&self, state: &mut H) { self.as_str().to_uppercase().hash(state) }
 }
-- 
2.43.0


From 7e286d303c23521cd7dd1e64128a54d7d46f6e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:15:29 +0000
Subject: [PATCH 53/53] fix: keep annotations when a new one can not be stored

Annotations of the subject were taken out of the supplement before the new
one was serialized and were lost when that failed.
---
 src/containers/suppl.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/containers/suppl.rs b/src/containers/suppl.rs
index 5da0ea8..d6300cd 100644
--- a/src/containers/suppl.rs
+++ b/src/containers/suppl.rs
@@ -276,8 +276,8 @@ impl Supplement {
         name: impl Into<AnnotationName>,
         data: &impl StrictSerialize,
     ) -> Result<bool, SerializeError> {
-        let mut a = self
-            .annotations
+        let mut annotations = self.annotations.clone();
+        let mut a = annotations
             .remove(&sub)
             .expect("zero items allowed")
             .unwrap_or_default();
@@ -287,7 +287,8 @@ impl Supplement {
             .unwrap_or_default();
         let prev = b.insert(name.into(), data.to_strict_serialized()?)?;
         a.insert(item, b)?;
-        self.annotations.insert(sub, a)?;
+        annotations.insert(sub, a)?;
+        self.annotations = annotations;
         Ok(prev.is_some())
     }
 }
-- 
2.43.0

