From f303b495d2c2190f63a5ca8eecb80726f2b9c68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:09 +0000
Subject: [PATCH 01/57] fix: authority that rests on a revoked delegation is no
 longer exercised

rebuild() looked for alternate proofs of whoever granted a revoked proof
instead of its holder, so a revoked member could re-add itself using its
revoked delegation, and members added by it survived its revocation. The
cascade forgot to drop dependents from members, and revocations whose proof
was no longer in play were applied regardless. Recompute what is still
backed by a delegation in play after each revocation.
---
 keyhive_core/src/principal/group.rs | 172 ++++++++++++++--------------
 1 file changed, 88 insertions(+), 84 deletions(-)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index 069d18c..9171c62 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -750,13 +750,16 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         self.members.clear();
         self.active_revocations.clear();
 
-        #[allow(clippy::type_complexity)]
-        let mut dlgs_in_play: HashMap<[u8; 64], Arc<Signed<Delegation<F, S, T, L>>>> =
-            HashMap::new();
+        let mut dlgs_in_play: HashSet<[u8; 64]> = HashSet::new();
         let mut revoked_dlgs: HashSet<[u8; 64]> = HashSet::new();
 
-        // {dlg_dep => Set<dlgs that depend on it>}
-        let mut reverse_dlg_dep_map: HashMap<[u8; 64], HashSet<[u8; 64]>> = HashMap::new();
+        // Every delegation seen so far, dependencies first
+        #[allow(clippy::type_complexity)]
+        let mut seen_dlgs: Vec<Arc<Signed<Delegation<F, S, T, L>>>> = vec![];
+
+        // Delegations that aren't in play because their proof isn't (anymore)
+        #[allow(clippy::type_complexity)]
+        let mut suspended_dlgs: Vec<Arc<Signed<Delegation<F, S, T, L>>>> = vec![];
 
         let mut ops = MembershipOperation::reverse_topsort(
             &self.state.delegation_heads,
@@ -767,61 +770,32 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             match op {
                 MembershipOperation::Delegation(d) => {
                     // NOTE: friendly reminder that the topsort already includes all ancestors
-                    if let Some(found_proof) = &d.payload.proof {
-                        reverse_dlg_dep_map
-                            .entry(found_proof.signature.to_bytes())
-                            .and_modify(|set| {
-                                set.insert(d.signature.to_bytes());
-                            })
-                            .or_insert_with(|| HashSet::from_iter([d.signature.to_bytes()]));
-
-                        // If the proof was directly revoked, then check if they've been
-                        // re-added some other way. Since `rebuild` recurses,
-                        // we only need to check one level.
-                        if revoked_dlgs.contains(&found_proof.signature.to_bytes())
-                            || !dlgs_in_play.contains_key(&found_proof.signature.to_bytes())
-                        {
-                            if let Some(alt_proofs) = self.members.get(&found_proof.issuer.into()) {
-                                if alt_proofs.iter().filter(|d| *d != found_proof).all(
-                                    |alt_proof| alt_proof.payload.can < found_proof.payload.can,
-                                ) {
-                                    // No suitable proofs
-                                    continue;
-                                }
-                            } else if found_proof.issuer != self.verifying_key() {
-                                continue;
-                            }
-                        }
-                    } else if d.issuer != self.verifying_key() {
+                    if d.payload.proof.is_none() && d.issuer != self.verifying_key() {
                         debug_assert!(false, "Delegation without valid root proof");
                         continue;
                     }
 
+                    seen_dlgs.push(d.dupe());
                     if revoked_dlgs.contains(&d.signature.to_bytes()) {
                         continue;
                     }
 
-                    dlgs_in_play.insert(d.signature.to_bytes(), d.dupe());
-
-                    if let Some(mut_dlgs) = self.members.get_mut(&d.payload.delegate.id()) {
-                        mut_dlgs.push(d.dupe());
-                    } else {
-                        self.members
-                            .insert(d.payload.delegate.id(), nonempty![d.dupe()]);
-                    }
+                    suspended_dlgs.push(d);
+                    self.admit_proven(&mut dlgs_in_play, &mut suspended_dlgs);
                 }
                 MembershipOperation::Revocation(r) => {
                     if let Some(found_proof) = &r.payload.proof {
-                        if revoked_dlgs.contains(&found_proof.signature.to_bytes())
-                            || !dlgs_in_play.contains_key(&found_proof.signature.to_bytes())
-                        {
-                            if let Some(alt_proofs) = self.members.get(&found_proof.issuer.into()) {
-                                if !alt_proofs
-                                    .iter()
-                                    .any(|p| p.payload.can >= found_proof.payload.can)
-                                {
-                                    continue;
-                                }
+                        if !dlgs_in_play.contains(&found_proof.signature.to_bytes()) {
+                            // Either the revoker granted the proof, or is acting with
+                            // the authority of the proof's delegate.
+                            let holder = if r.issuer == found_proof.issuer {
+                                found_proof.issuer.into()
+                            } else {
+                                found_proof.payload.delegate.id()
+                            };
+
+                            if holder != self.id() && !self.has_alt_proof(holder, found_proof) {
+                                continue;
                             }
                         }
                     } else if r.issuer != self.verifying_key() {
@@ -832,51 +806,81 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                     self.active_revocations
                         .insert(r.signature.to_bytes(), r.dupe());
 
-                    // { Agent => delegation to drop }
-                    let mut to_drop: Vec<(Identifier, [u8; 64])> = vec![];
-
-                    let mut next_to_revoke = vec![r.payload.revoke.signature.to_bytes()];
-                    while let Some(sig_to_revoke) = next_to_revoke.pop() {
-                        revoked_dlgs.insert(sig_to_revoke);
-
-                        if let Some(dlg) = dlgs_in_play.remove(&sig_to_revoke) {
-                            to_drop.push((dlg.payload.delegate.id(), sig_to_revoke));
-                        }
+                    revoked_dlgs.insert(r.payload.revoke.signature.to_bytes());
 
-                        if let Some(dlg_sigs_to_revoke) = reverse_dlg_dep_map.get(&sig_to_revoke) {
-                            for dlg_sig in dlg_sigs_to_revoke.iter() {
-                                revoked_dlgs.insert(*dlg_sig);
+                    // Everything that rested on the revoked delegation loses its footing,
+                    // so work out what is still backed by a delegation in play.
+                    self.members.clear();
+                    dlgs_in_play.clear();
+                    suspended_dlgs = seen_dlgs
+                        .iter()
+                        .filter(|d| !revoked_dlgs.contains(&d.signature.to_bytes()))
+                        .duped()
+                        .collect();
+                    self.admit_proven(&mut dlgs_in_play, &mut suspended_dlgs);
+                }
+            }
+        }
+    }
 
-                                if let Some(dep_dlg) = dlgs_in_play.remove(dlg_sig) {
-                                    next_to_revoke.push(dep_dlg.signature.to_bytes());
-                                }
-                            }
-                        }
+    /// Move every suspended delegation that has a proof in play into [`Self::members`].
+    ///
+    /// If the proof itself isn't in play (e.g. it was revoked), then its holder may have
+    /// been (re-)added some other way.
+    #[allow(clippy::type_complexity)]
+    fn admit_proven(
+        &mut self,
+        dlgs_in_play: &mut HashSet<[u8; 64]>,
+        suspended_dlgs: &mut Vec<Arc<Signed<Delegation<F, S, T, L>>>>,
+    ) {
+        loop {
+            let mut still_suspended = vec![];
+            let mut progress = false;
+
+            for d in suspended_dlgs.drain(..) {
+                let proven = match &d.payload.proof {
+                    None => true,
+                    Some(proof) => {
+                        dlgs_in_play.contains(&proof.signature.to_bytes())
+                            || self.has_alt_proof(proof.payload.delegate.id(), proof)
                     }
+                };
 
-                    for (id, sig) in to_drop {
-                        let remaining = self
-                            .members
-                            .get(&id)
-                            .map(|dlgs| {
-                                dlgs.iter()
-                                    .filter(|dlg| dlg.signature.to_bytes() != sig)
-                                    .cloned()
-                                    .collect()
-                            })
-                            .unwrap_or_default();
-
-                        if let Some(dlgs) = NonEmpty::from_vec(remaining) {
-                            self.members.insert(id, dlgs);
-                        } else {
-                            self.members.remove(&id);
-                        }
+                if !proven {
+                    still_suspended.push(d);
+                    continue;
+                }
+
+                progress = true;
+                dlgs_in_play.insert(d.signature.to_bytes());
+                match self.members.get_mut(&d.payload.delegate.id()) {
+                    Some(dlgs) => dlgs.push(d),
+                    None => {
+                        self.members.insert(d.payload.delegate.id(), nonempty![d]);
                     }
                 }
             }
+
+            *suspended_dlgs = still_suspended;
+            if !progress || suspended_dlgs.is_empty() {
+                break;
+            }
         }
     }
 
+    /// Whether `holder` has a delegation in play, other than `proof`,
+    /// that grants at least as much access as `proof` does.
+    fn has_alt_proof(
+        &self,
+        holder: Identifier,
+        proof: &Arc<Signed<Delegation<F, S, T, L>>>,
+    ) -> bool {
+        self.members.get(&holder).is_some_and(|alts| {
+            alts.iter()
+                .any(|alt| alt != proof && alt.payload.can >= proof.payload.can)
+        })
+    }
+
     pub(crate) fn dummy_from_archive(
         archive: GroupArchive<T>,
         delegations: Arc<Mutex<DelegationStore<F, S, T, L>>>,
-- 
2.43.0


From fa516ef06e85d18d47cc480451750fbd6cad83a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:27 +0000
Subject: [PATCH 02/57] fix: a revocation resting on a delegation ordered after
 it no longer wipes the group

reverse_topsort() orders delegations after the revocation of their proof.
When that revocation's own authority descends from such a delegation the
graph had a cycle, and the cycle guard dropped every op in or below it. It
also only remembered one (hash order dependent) revocation per delegation.
---
 .../principal/group/membership_operation.rs   | 40 ++++++++++++++++---
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/keyhive_core/src/principal/group/membership_operation.rs b/keyhive_core/src/principal/group/membership_operation.rs
index e376790..ab8e1cd 100644
--- a/keyhive_core/src/principal/group/membership_operation.rs
+++ b/keyhive_core/src/principal/group/membership_operation.rs
@@ -251,8 +251,8 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             }
         }
 
-        // revoked delegation signature -> revocation digest
-        let mut revoked_dependencies: HashMap<Key, Digest<MembershipOperation<F, S, T, L>>> =
+        // revoked delegation signature -> revocation digests
+        let mut revoked_dependencies: HashMap<Key, Vec<Digest<MembershipOperation<F, S, T, L>>>> =
             HashMap::new();
 
         let mut explore: Vec<MembershipOperation<F, S, T, L>> = vec![];
@@ -280,7 +280,10 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             let parent_digests: Vec<_> = parents.iter().map(|p| p.digest()).collect();
 
             if let MembershipOperation::Revocation(r) = &op {
-                revoked_dependencies.insert((*r.payload.revoke.signature()).into(), digest);
+                revoked_dependencies
+                    .entry((*r.payload.revoke.signature()).into())
+                    .or_default()
+                    .push(digest);
             }
 
             all_ops.insert(digest, (op, parent_digests));
@@ -364,7 +367,11 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
 
             if let MembershipOperation::Delegation(d) = op {
                 if let Some(proof) = &d.payload.proof {
-                    if let Some(revoked_digest) = revoked_dependencies.get(&Key(proof.signature)) {
+                    for revoked_digest in revoked_dependencies
+                        .get(&Key(proof.signature))
+                        .into_iter()
+                        .flatten()
+                    {
                         if let Some((revoked_op, _)) = all_ops.get(revoked_digest) {
                             adjacencies
                                 .add_dependency((*digest, op), (*revoked_digest, revoked_op));
@@ -379,11 +386,31 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         }
 
         let mut dependencies = vec![];
+        let mut emitted: HashSet<Digest<MembershipOperation<F, S, T, L>>> = HashSet::new();
 
         while !adjacencies.is_empty() {
             let batch = adjacencies.pop_frontier();
             if batch.is_empty() {
-                break; // cycle guard
+                // Revocations can (transitively) rest on the very delegations that are
+                // ordered after them. Fall back to the causal order for what's left.
+                adjacencies = Topsort::new();
+                for (digest, (op, parent_digests)) in all_ops.iter() {
+                    if emitted.contains(digest) {
+                        continue;
+                    }
+
+                    adjacencies.add_node((*digest, op));
+                    for parent_digest in parent_digests {
+                        if let Some((parent_op, _)) = all_ops.get(parent_digest) {
+                            adjacencies.add_dependency((*digest, op), (*parent_digest, parent_op));
+                        }
+                    }
+                }
+                successors_of = all_ops
+                    .iter()
+                    .map(|(digest, (_, parent_digests))| (*digest, parent_digests.clone()))
+                    .collect();
+                continue;
             }
 
             let (mut revocations, mut others): (Vec<_>, Vec<_>) =
@@ -392,11 +419,13 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             others.sort_by_key(|(d, _)| *d);
             for (digest, op) in &others {
                 dependencies.push((*digest, (*op).clone()));
+                emitted.insert(*digest);
             }
 
             if revocations.len() <= 1 {
                 for (digest, op) in &revocations {
                     dependencies.push((*digest, (*op).clone()));
+                    emitted.insert(*digest);
                 }
             } else {
                 revocations.sort_by(|(d1, _), (d2, _)| {
@@ -407,6 +436,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
 
                 let (first_digest, first_op) = revocations[0];
                 dependencies.push((first_digest, first_op.clone()));
+                emitted.insert(first_digest);
 
                 let remaining = &revocations[1..];
                 for window in remaining.windows(2) {
-- 
2.43.0


From c9ed8c6c15ac70dfd88ae19b2a98ae2dbf5bdafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:01 +0000
Subject: [PATCH 03/57] fix: only someone with authority over a delegation can
 revoke it

add_revocation() didn't look at who issued a revocation when its proof was an
ancestor of the revoked delegation, so anybody could revoke anything. Via a
group, the access that the group itself has wasn't considered either: members
of a read-only group could revoke admins, and add_member/revoke_member picked
proofs that were then rejected.
---
 keyhive_core/src/principal/group.rs       |  9 +++++----
 keyhive_core/src/principal/group/state.rs | 22 ++++++++++++++++------
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index 9171c62..96e7d0b 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -501,12 +501,13 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                 if let Some(m) = dlg.payload.delegate.as_membered() {
                     let sub_members = m.transitive_members().await;
                     if let Some((_, sub_access)) = sub_members.get(&signer_id) {
-                        if *sub_access >= can {
+                        let path_access = dlg.payload.can.min(*sub_access);
+                        if path_access >= can {
                             best_proof = Some(dlg.dupe());
                             break;
                         }
-                        if best_access.is_none_or(|a| *sub_access > a) {
-                            best_access = Some(*sub_access);
+                        if best_access.is_none_or(|a| path_access > a) {
+                            best_access = Some(path_access);
                         }
                     }
                 }
@@ -661,7 +662,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                         if let Some(m) = dlg.payload.delegate.as_membered() {
                             let sub_members = m.transitive_members().await;
                             if let Some((_, sub_access)) = sub_members.get(&signer_id) {
-                                if *sub_access >= to_revoke.payload.can {
+                                if dlg.payload.can.min(*sub_access) >= to_revoke.payload.can {
                                     let r = self
                                         .build_revocation(
                                             signer,
diff --git a/keyhive_core/src/principal/group/state.rs b/keyhive_core/src/principal/group/state.rs
index bcd15cb..7ff1cd3 100644
--- a/keyhive_core/src/principal/group/state.rs
+++ b/keyhive_core/src/principal/group/state.rs
@@ -212,12 +212,22 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         }
 
         if let Some(proof) = &revocation.payload.proof {
-            if revocation.payload.revoke != *proof
-                && !revocation.payload.revoke.payload.is_descendant_of(proof)
-            {
-                // The revoked delegation is not a descendant of the proof.
-                // Check if the revoker has transitive access through the
-                // proof's delegate (a group/doc intermediary).
+            // With the revoked delegation or its ancestor as the proof, whoever granted or
+            // holds the proof may revoke it. Otherwise check if the revoker has transitive
+            // access through the proof's delegate (a group/doc intermediary).
+            let is_ancestor = revocation.payload.revoke == *proof
+                || revocation.payload.revoke.payload.is_descendant_of(proof);
+            let is_principal = revocation.issuer == proof.issuer
+                || revocation.issuer == proof.payload.delegate.verifying_key();
+
+            if !(is_ancestor && is_principal) {
+                if revocation.payload.revoke.payload.can > proof.payload.can {
+                    return Err(AddError::Escelation {
+                        claimed: revocation.payload.revoke.payload.can,
+                        proof: proof.payload.can,
+                    });
+                }
+
                 let revoker_id = Identifier::from(revocation.issuer);
                 if !is_transitive_member_of(
                     &proof.payload.delegate,
-- 
2.43.0


From dcbe3cf82781fdfd91592a76c9f315460b15201c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:15 +0000
Subject: [PATCH 04/57] fix: transitive access is the best path's least access

transitive_members() forwarded a member's unattenuated access to its own
members and let the last explored path win, so members of nested groups could
get more (or, depending on hash order, less) access than any path grants.
---
 keyhive_core/src/principal/group.rs | 70 ++++++-----------------------
 1 file changed, 13 insertions(+), 57 deletions(-)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index 96e7d0b..d594d1d 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -269,79 +269,35 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
 
     #[tracing::instrument(skip(self), fields(group_id = %self.group_id()))]
     pub async fn transitive_members(&self) -> HashMap<Identifier, (Agent<F, S, T, L>, Access)> {
-        struct GroupAccess<
-            G: FutureForm,
-            Z: AsyncSigner<G>,
-            U: ContentRef,
-            M: MembershipListener<G, Z, U>,
-        > {
-            agent: Agent<G, Z, U, M>,
-            agent_access: Access,
-            parent_access: Access,
-        }
-
-        let mut explore: Vec<GroupAccess<F, S, T, L>> = vec![];
-        let mut seen: HashSet<([u8; 64], Access)> = HashSet::new();
+        let mut explore: Vec<(Agent<F, S, T, L>, Access)> = vec![];
 
         for member in self.members.keys() {
             let dlg = self
                 .get_capability(member)
                 .expect("members have capabilities by defintion");
 
-            seen.insert((dlg.signature.to_bytes(), Access::Admin));
-
-            explore.push(GroupAccess {
-                agent: dlg.payload.delegate.clone(),
-                agent_access: dlg.payload.can,
-                parent_access: Access::Admin,
-            });
+            explore.push((dlg.payload.delegate.dupe(), dlg.payload.can));
         }
 
         let mut caps: HashMap<Identifier, (Agent<F, S, T, L>, Access)> = HashMap::new();
 
-        while let Some(GroupAccess {
-            agent: member,
-            agent_access: access,
-            parent_access,
-        }) = explore.pop()
-        {
+        // A path grants the least access of any delegation along it,
+        // and an agent has the most access that any of its paths grants.
+        while let Some((member, access)) = explore.pop() {
             let id = member.id();
             if id == self.id() {
                 continue;
             }
 
-            let best_access = *caps
-                .get(&id)
-                .map(|(_, existing_access)| existing_access.max(&access))
-                .unwrap_or(&access);
-
-            let current_path_access = access.min(parent_access);
-            caps.insert(member.id(), (member.dupe(), current_path_access));
-
-            if let Some(membered) = match member {
-                Agent::Group(id, inner_group) => Some(Membered::Group(id, inner_group.dupe())),
-                Agent::Document(id, doc) => Some(Membered::Document(id, doc.dupe())),
-                _ => None,
-            } {
-                for (mem_id, dlgs) in membered.members().await.iter() {
-                    let dlg = membered
-                        .get_capability(mem_id)
-                        .await
-                        .expect("members have capabilities by defintion");
-
-                    caps.insert(*mem_id, (dlg.payload.delegate.dupe(), best_access));
-
-                    'inner: for sub_dlg in dlgs.iter() {
-                        if !seen.insert((sub_dlg.signature.to_bytes(), dlg.payload.can)) {
-                            continue 'inner;
-                        }
+            if caps.get(&id).is_some_and(|(_, known)| *known >= access) {
+                continue;
+            }
 
-                        explore.push(GroupAccess {
-                            agent: sub_dlg.payload.delegate.dupe(),
-                            agent_access: sub_dlg.payload.can,
-                            parent_access: best_access,
-                        });
-                    }
+            caps.insert(id, (member.dupe(), access));
+
+            if let Some(membered) = member.as_membered() {
+                for dlg in membered.members().await.values().flatten() {
+                    explore.push((dlg.payload.delegate.dupe(), dlg.payload.can.min(access)));
                 }
             }
         }
-- 
2.43.0


From 211a89c7a5147992ef7c0123a252f04c4ada96bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:48 +0000
Subject: [PATCH 05/57] fix: verify prekey ops before registering their issuer

An unverified prekey op or contact card from an unknown issuer was stored (and
announced to the listener) without checking its signature.
---
 keyhive_core/src/keyhive.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index bf5ad8d..e55a92a 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -343,6 +343,8 @@ impl<
         &self,
         contact_card: &ContactCard,
     ) -> Result<Arc<Mutex<Individual>>, ReceivePrekeyOpError> {
+        contact_card.op().try_verify()?;
+
         let result = if let Some(indie) = self.get_individual(contact_card.id()).await {
             indie
                 .lock()
@@ -1541,6 +1543,9 @@ impl<
         if id == Public.id() {
             return Ok(());
         }
+
+        key_op.try_verify()?;
+
         let agent = if let Some(agent) = self.get_agent(id).await {
             agent
         } else {
-- 
2.43.0


From 734d29d3793b7b10c6af1dc391d314719bdce1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:18 +0000
Subject: [PATCH 06/57] fix: contact cards can't add prekeys to the public
 individual

---
 keyhive_core/src/keyhive.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index e55a92a..eac2e52 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -345,6 +345,14 @@ impl<
     ) -> Result<Arc<Mutex<Individual>>, ReceivePrekeyOpError> {
         contact_card.op().try_verify()?;
 
+        // As in `receive_prekey_op`, Public's individual can never expand or rotate.
+        if contact_card.id() == Public.individual().id() {
+            return Ok(self
+                .get_individual(contact_card.id())
+                .await
+                .unwrap_or_else(|| Arc::new(Mutex::new(Public.individual()))));
+        }
+
         let result = if let Some(indie) = self.get_individual(contact_card.id()).await {
             indie
                 .lock()
-- 
2.43.0


From 33eaa0617fa59dec22fe9fb0942f9cb3b0900acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:46 +0000
Subject: [PATCH 07/57] fix: events that become pending during an ingest aren't
 forgotten

A stuck ingest replaced all pending events with its own leftovers, including
those another ingest had added since it started.
---
 keyhive_core/src/keyhive.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index eac2e52..2edc813 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -76,7 +76,6 @@ use std::{
     collections::{hash_map::Entry, BTreeMap, HashMap, HashSet},
     fmt::{Debug, Formatter},
     marker::PhantomData,
-    mem,
     sync::Arc,
 };
 use thiserror::Error;
@@ -2364,10 +2363,18 @@ impl<
 
                 let new_pending: Vec<Arc<StaticEvent<T>>> =
                     next_epoch.clone().into_iter().map(Arc::new).collect();
-                drop(mem::replace(
-                    &mut *self.pending_events.lock().await,
-                    new_pending.clone(),
-                ));
+
+                // Other events may have become pending in the meantime
+                let mut locked_pending = self.pending_events.lock().await;
+                let stuck: HashSet<Digest<StaticEvent<T>>> = new_pending
+                    .iter()
+                    .map(|e| Digest::hash(e.as_ref()))
+                    .collect();
+                locked_pending.retain(|e| {
+                    let hash = Digest::hash(e.as_ref());
+                    !replayed_pending.contains(&hash) && !stuck.contains(&hash)
+                });
+                locked_pending.extend(new_pending.iter().cloned());
                 return new_pending;
             }
 
-- 
2.43.0


From 3f4d43af6626dac9e9a65dcc925bf42d2b352ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:06 +0000
Subject: [PATCH 08/57] fix: picked prekey index stays in range

An index equal to the number of prekeys was accepted, so picking a prekey of
an individual that has e.g. 16 of them could panic.
---
 keyhive_core/src/principal/individual.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keyhive_core/src/principal/individual.rs b/keyhive_core/src/principal/individual.rs
index da4572c..1c387f7 100644
--- a/keyhive_core/src/principal/individual.rs
+++ b/keyhive_core/src/principal/individual.rs
@@ -222,7 +222,7 @@ fn pseudorandom_in_range(seed: &[u8], max: usize) -> usize {
     while idx.is_none() {
         hash_stream.fill(&mut buf);
         let raw_idx: usize = clamp(buf, shiftsize);
-        if raw_idx <= max {
+        if raw_idx < max.max(1) {
             idx = Some(raw_idx)
         }
     }
-- 
2.43.0


From 2de172a2e475cbd86f67063532fd9aefe9d34358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:00 +0000
Subject: [PATCH 09/57] fix: prekey topsort terminates and returns every op

Rotations that form a cycle sent it into an endless loop, rotations of keys
that haven't been seen were left out, and ops were repeated when several ops
introduced the same key.
---
 keyhive_core/src/principal/individual/op.rs | 28 +++++++++++++++++----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/keyhive_core/src/principal/individual/op.rs b/keyhive_core/src/principal/individual/op.rs
index 2963a81..f32a552 100644
--- a/keyhive_core/src/principal/individual/op.rs
+++ b/keyhive_core/src/principal/individual/op.rs
@@ -54,14 +54,32 @@ impl KeyOp {
 
         let mut topsorted = vec![];
 
-        while let Some(head) = heads.pop() {
-            if let Some(ops) = rotate_key_ops.get(head.new_key()) {
-                for op in ops.iter() {
-                    heads.push(op.dupe());
+        loop {
+            while let Some(head) = heads.pop() {
+                // NOTE removed so that each op appears once, even if keys are reused
+                if let Some(ops) = rotate_key_ops.remove(head.new_key()) {
+                    heads.extend(ops);
                 }
+
+                topsorted.push(head);
             }
 
-            topsorted.push(head.dupe());
+            // What's left are rotations of keys that aren't known to have been added.
+            let produced: HashSet<ShareKey> = rotate_key_ops
+                .values()
+                .flatten()
+                .map(|op| *op.new_key())
+                .collect();
+
+            let next = rotate_key_ops
+                .keys()
+                .min_by_key(|old| (produced.contains(*old), **old))
+                .copied();
+
+            match next.and_then(|old| rotate_key_ops.remove(&old)) {
+                Some(ops) => heads.extend(ops),
+                None => break,
+            }
         }
 
         topsorted
-- 
2.43.0


From 8d1402c1e34a96fd01098daa26b89aa5a78fce8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:23 +0000
Subject: [PATCH 10/57] fix: an individual always has an active prekey

Rotating keys in a cycle (or a key to itself) left no active prekey, and
picking one panicked.
---
 keyhive_core/src/principal/individual/state.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/keyhive_core/src/principal/individual/state.rs b/keyhive_core/src/principal/individual/state.rs
index 561fa8e..9a9e105 100644
--- a/keyhive_core/src/principal/individual/state.rs
+++ b/keyhive_core/src/principal/individual/state.rs
@@ -124,7 +124,7 @@ impl PrekeyState {
     /// Rebuild the most recent set of active [`ShareKey`]s in the [`PrekeyState`].
     pub fn build(&self) -> HashSet<ShareKey> {
         let mut keys = HashSet::with_capacity(self.ops.len());
-        let mut to_drop = Vec::with_capacity(self.ops.len());
+        let mut to_drop = HashSet::with_capacity(self.ops.len());
 
         for op in self.ops.values() {
             match op.as_ref() {
@@ -132,17 +132,25 @@ impl PrekeyState {
                     keys.insert(add.payload.share_key);
                 }
                 KeyOp::Rotate(rot) => {
-                    to_drop.push(rot.payload.old);
+                    to_drop.insert(rot.payload.old);
                     keys.insert(rot.payload.new);
                 }
             }
         }
 
-        for tombstone in to_drop {
-            keys.remove(&tombstone);
+        let active: HashSet<ShareKey> = keys
+            .iter()
+            .filter(|key| !to_drop.contains(key))
+            .copied()
+            .collect();
+
+        if active.is_empty() {
+            // Rotations in a cycle retire each other, but there must always be
+            // a prekey to pick.
+            return keys;
         }
 
-        keys
+        active
     }
 }
 
-- 
2.43.0


From 177ec72cc56cecd6c56d09b1441bc3088799778e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:31 +0000
Subject: [PATCH 11/57] fix: prekey choice is deterministic and spread over all
 active prekeys

---
 keyhive_core/src/principal/individual.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/keyhive_core/src/principal/individual.rs b/keyhive_core/src/principal/individual.rs
index 1c387f7..854fb05 100644
--- a/keyhive_core/src/principal/individual.rs
+++ b/keyhive_core/src/principal/individual.rs
@@ -123,7 +123,10 @@ impl Individual {
         let prekeys_len = self.prekeys.len();
         let idx = pseudorandom_in_range(bytes.as_slice(), prekeys_len);
 
-        self.prekeys.iter().nth(idx).expect("index to be in range")
+        // NOTE sorted so that the choice doesn't depend on the set's iteration order
+        let mut prekeys: Vec<&ShareKey> = self.prekeys.iter().collect();
+        prekeys.sort();
+        prekeys[idx]
     }
 
     pub fn prekey_ops(&self) -> &CaMap<KeyOp> {
@@ -190,16 +193,18 @@ pub enum ReceivePrekeyOpError {
 
 fn clamp(bytes: [u8; 8], offset_bits: u8) -> usize {
     let bound = u64::from_be_bytes(bytes)
-        .checked_shl(offset_bits as u32)
+        .checked_shr(offset_bits as u32)
         .unwrap_or(0);
 
-    usize::from_be(bound as usize)
+    bound as usize
 }
 
 fn pseudorandom_in_range(seed: &[u8], max: usize) -> usize {
+    // The number of bits needed to represent the largest index
     let digits: u8 = max
+        .saturating_sub(1)
         .checked_ilog2()
-        .unwrap_or(0)
+        .map_or(0, |log| log + 1)
         .try_into()
         .expect("usize has at most 64 bits (< 256)");
 
-- 
2.43.0


From 19b5f10d574c8dcb83f750a487491c2647e1149e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:45 +0000
Subject: [PATCH 12/57] fix: a group's members aren't affected by operations
 about other groups

---
 keyhive_core/src/principal/group.rs       | 5 +++++
 keyhive_core/src/principal/group/state.rs | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index d594d1d..5664f76 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -724,6 +724,11 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         );
 
         while let Some((_, op)) = ops.pop() {
+            // Operations may causally depend on those of other groups
+            if op.subject_id() != self.id() {
+                continue;
+            }
+
             match op {
                 MembershipOperation::Delegation(d) => {
                     // NOTE: friendly reminder that the topsort already includes all ancestors
diff --git a/keyhive_core/src/principal/group/state.rs b/keyhive_core/src/principal/group/state.rs
index 7ff1cd3..76d1d18 100644
--- a/keyhive_core/src/principal/group/state.rs
+++ b/keyhive_core/src/principal/group/state.rs
@@ -212,6 +212,10 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         }
 
         if let Some(proof) = &revocation.payload.proof {
+            if proof.subject_id() != revocation.subject_id() {
+                return Err(AddError::InvalidProofChain);
+            }
+
             // With the revoked delegation or its ancestor as the proof, whoever granted or
             // holds the proof may revoke it. Otherwise check if the revoker has transitive
             // access through the proof's delegate (a group/doc intermediary).
-- 
2.43.0


From 4916a3f5d5867dee0997c10fd781faed64d6554d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:45 +0000
Subject: [PATCH 13/57] fix: admins can revoke any member

---
 keyhive_core/src/principal/group.rs       |  4 ----
 keyhive_core/src/principal/group/state.rs | 10 +++++++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index 5664f76..63e544f 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -550,10 +550,6 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                     // "Double up" if you're an admin in case you get concurrently demoted.
                     // We include the admin proofs as well since those could also get revoked.
                     for mem_dlg in member_dlgs.clone().iter() {
-                        if mem_dlg.payload.delegate.id() != member_to_remove {
-                            continue;
-                        }
-
                         if mem_dlg.payload().can == Access::Admin {
                             // Use your awesome & terrible admin powers!
                             //
diff --git a/keyhive_core/src/principal/group/state.rs b/keyhive_core/src/principal/group/state.rs
index 76d1d18..ed182bb 100644
--- a/keyhive_core/src/principal/group/state.rs
+++ b/keyhive_core/src/principal/group/state.rs
@@ -217,14 +217,18 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             }
 
             // With the revoked delegation or its ancestor as the proof, whoever granted or
-            // holds the proof may revoke it. Otherwise check if the revoker has transitive
-            // access through the proof's delegate (a group/doc intermediary).
+            // holds the proof may revoke it. Admins may revoke anyone. Otherwise check if
+            // the revoker has transitive access through the proof's delegate (a group/doc
+            // intermediary).
             let is_ancestor = revocation.payload.revoke == *proof
                 || revocation.payload.revoke.payload.is_descendant_of(proof);
             let is_principal = revocation.issuer == proof.issuer
                 || revocation.issuer == proof.payload.delegate.verifying_key();
 
-            if !(is_ancestor && is_principal) {
+            let is_admin = proof.payload.can == Access::Admin
+                && revocation.issuer == proof.payload.delegate.verifying_key();
+
+            if !(is_ancestor && is_principal) && !is_admin {
                 if revocation.payload.revoke.payload.can > proof.payload.can {
                     return Err(AddError::Escelation {
                         claimed: revocation.payload.revoke.payload.can,
-- 
2.43.0


From 308eca62a7750b9a1cba25ae93ca6f0f0046e49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:23 +0000
Subject: [PATCH 14/57] fix: an individual that becomes a group isn't
 forgotten, and Public can't become one

---
 keyhive_core/src/keyhive.rs         | 18 ++++++++++++++++--
 keyhive_core/src/principal/group.rs |  1 -
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 2edc813..f3cbefe 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -1630,8 +1630,14 @@ impl<
         let delegation = Signed::new(payload, static_dlg.issuer, static_dlg.signature);
 
         let subject_id = delegation.subject_id();
+        // Anyone can sign as Public, so it can't be promoted to a group.
+        if subject_id == Public.id() {
+            return Err(AddError::InvalidSubject(Box::new(subject_id)).into());
+        }
+
         let delegation = Arc::new(delegation);
         let mut found = false;
+        let mut promoted = None;
         {
             if let Some(group) = self.groups.lock().await.get(&GroupId(subject_id)) {
                 found = true;
@@ -1653,10 +1659,18 @@ impl<
                 .remove(&IndividualId(subject_id))
             {
                 found = true;
-                self.promote_individual_to_group(indie, delegation.clone())
-                    .await;
+                promoted = Some(
+                    self.promote_individual_to_group(indie, delegation.clone())
+                        .await,
+                );
             }
         }
+        if let Some(group) = promoted {
+            self.groups
+                .lock()
+                .await
+                .insert(GroupId(subject_id), group);
+        }
         if !found {
             let group = Group::new(
                 GroupId(subject_id),
diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index 63e544f..44baa99 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -19,7 +19,6 @@ use super::{
     document::{id::DocumentId, AddMemberUpdate, Document, RevokeMemberUpdate},
     identifier::Identifier,
     individual::{id::IndividualId, Individual},
-    membered::Membered,
 };
 use crate::{
     access::Access,
-- 
2.43.0


From 57c4f1d1b82eee873833b85bf4ac54151a0d47a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:51 +0000
Subject: [PATCH 15/57] fix: a document's key agreement follows who can read it

---
 keyhive_core/src/keyhive.rs            | 153 ++++++++++---------------
 keyhive_core/src/principal/document.rs |  42 ++++---
 keyhive_core/src/principal/group.rs    |  22 +++-
 3 files changed, 98 insertions(+), 119 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index f3cbefe..c5d8c0c 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -496,52 +496,13 @@ impl<
         other_relevant_docs: &[Arc<Mutex<Document<F, S, T, L>>>], // TODO make this automatic
     ) -> Result<AddMemberUpdate<F, S, T, L>, AddMemberError> {
         let signer = { self.active.lock().await.signer.clone() };
-        let update = match resource {
-            Membered::Group(group_id, group) => {
-                let mut update = group
+        let mut update = match resource {
+            Membered::Group(_, group) => {
+                group
                     .lock()
                     .await
                     .add_member(to_add, can, &signer, other_relevant_docs)
-                    .await?;
-
-                // Propagate CGKA adds to docs that contain this group.
-                // TODO: O(# of docs x `transitive_members()`). We should replace this approach
-                // (possibly with a reverse index lookup).
-                if can.is_reader() {
-                    let group_identifier: Identifier = (*group_id).into();
-                    let docs = { self.docs.lock().await.values().cloned().collect::<Vec<_>>() };
-                    for doc in &docs {
-                        let (contains_group, doc_id) = {
-                            let locked = doc.lock().await;
-                            (
-                                locked
-                                    .transitive_members()
-                                    .await
-                                    .contains_key(&group_identifier),
-                                locked.doc_id(),
-                            )
-                        };
-                        if !contains_group {
-                            continue;
-                        }
-                        // Document lock is intentionally dropped before `pick_individual_prekeys`,
-                        // which may lock groups (walking group members to find
-                        // individuals).
-                        let prekeys = update
-                            .delegation
-                            .payload
-                            .delegate
-                            .pick_individual_prekeys(doc_id)
-                            .await;
-                        let mut locked_doc = doc.lock().await;
-                        let ops = locked_doc
-                            .add_cgka_members_from_prekeys(&prekeys, &signer)
-                            .await?;
-                        update.cgka_ops.extend(ops);
-                    }
-                }
-
-                update
+                    .await?
             }
             Membered::Document(_, doc) => {
                 let mut locked = doc.lock().await;
@@ -551,6 +512,34 @@ impl<
             }
         };
 
+        // Propagate CGKA adds to docs that can be read through this resource.
+        // TODO: O(# of docs x `transitive_members()`). We should replace this approach
+        // (possibly with a reverse index lookup).
+        if can.is_reader() {
+            let resource_id: Identifier = resource.agent_id().into();
+            let docs = { self.docs.lock().await.values().cloned().collect::<Vec<_>>() };
+            for doc in &docs {
+                let mut locked = doc.lock().await;
+                // A replica that can't read a document can't let others read it either.
+                if locked.cgka().is_err() {
+                    continue;
+                }
+                let grants_reading = locked
+                    .transitive_members()
+                    .await
+                    .get(&resource_id)
+                    .is_some_and(|(_, access)| access.is_reader());
+                if !grants_reading {
+                    continue;
+                }
+                let prekeys = locked.pick_individual_prekeys().await;
+                let ops = locked
+                    .add_cgka_members_from_prekeys(&prekeys, &signer)
+                    .await?;
+                update.cgka_ops.extend(ops);
+            }
+        }
+
         for cgka_op in &update.cgka_ops {
             self.event_listener
                 .on_cgka_op(&Arc::new(cgka_op.clone()))
@@ -576,27 +565,27 @@ impl<
 
         let signer = { self.active.lock().await.signer.clone() };
 
-        // When revoking from a group, collect the revoked member's individual
-        // IDs before the revocation removes them from the members map.
-        let revoked_individual_ids: HashSet<IndividualId> = match resource {
-            Membered::Group(_, group) => {
-                let delegates: Vec<Agent<F, S, T, L>> = {
-                    let locked = group.lock().await;
-                    locked
-                        .members()
-                        .get(&to_revoke)
-                        .into_iter()
-                        .flat_map(|ds| ds.iter().map(|d| d.payload().delegate.dupe()))
-                        .collect()
-                };
-                let mut ids = HashSet::new();
-                for d in &delegates {
-                    ids.extend(d.individual_ids().await);
+        // Documents that can be read through this resource, and by whom.
+        // TODO: O(# of docs x `transitive_members()`). We should replace this approach
+        // (possibly with a reverse index lookup).
+        let resource_id: Identifier = resource.agent_id().into();
+        let mut affected = vec![];
+        let docs = { self.docs.lock().await.values().cloned().collect::<Vec<_>>() };
+        for doc in docs {
+            let readers = {
+                let locked = doc.lock().await;
+                let grants_reading = locked
+                    .transitive_members()
+                    .await
+                    .get(&resource_id)
+                    .is_some_and(|(_, access)| access.is_reader());
+                if !grants_reading {
+                    continue;
                 }
-                ids
-            }
-            _ => HashSet::new(),
-        };
+                locked.transitive_readers().await
+            };
+            affected.push((doc, readers));
+        }
 
         let mut update = resource
             .revoke_member(
@@ -607,37 +596,13 @@ impl<
             )
             .await?;
 
-        // Propagate CGKA removals to docs that contain this group.
-        // TODO: O(# of docs x `transitive_members()`). We should replace this approach
-        // (possibly with a reverse index lookup).
-        if let Membered::Group(group_id, _) = resource {
-            if !revoked_individual_ids.is_empty() {
-                let group_identifier: Identifier = (*group_id).into();
-                let docs = { self.docs.lock().await.values().cloned().collect::<Vec<_>>() };
-                for doc in &docs {
-                    let transitive = {
-                        let locked = doc.lock().await;
-                        locked.transitive_members().await
-                    };
-                    if !transitive.contains_key(&group_identifier) {
-                        continue;
-                    }
-                    let still_reachable: HashSet<IndividualId> = transitive
-                        .into_iter()
-                        .filter_map(|(_, (agent, _))| match agent {
-                            Agent::Individual(id, _) | Agent::Active(id, _) => Some(id),
-                            _ => None,
-                        })
-                        .collect();
-                    let mut locked_doc = doc.lock().await;
-                    for &id in &revoked_individual_ids {
-                        if still_reachable.contains(&id) {
-                            continue;
-                        }
-                        if let Ok(Some(op)) = locked_doc.remove_cgka_member(id, &signer).await {
-                            update.cgka_ops.push(op);
-                        }
-                    }
+        // Propagate CGKA removals to those who thereby lost their last way to read.
+        for (doc, readers_before) in affected {
+            let mut locked = doc.lock().await;
+            let readers_after = locked.transitive_readers().await;
+            for id in readers_before.difference(&readers_after) {
+                if let Ok(Some(op)) = locked.remove_cgka_member(*id, &signer).await {
+                    update.cgka_ops.push(op);
                 }
             }
         }
diff --git a/keyhive_core/src/principal/document.rs b/keyhive_core/src/principal/document.rs
index 9c02e05..27f88b1 100644
--- a/keyhive_core/src/principal/document.rs
+++ b/keyhive_core/src/principal/document.rs
@@ -258,12 +258,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             // transitive document members of the group, but not to the group itself
             // (because the group might not be a document), so we add the member to
             // the group here and add any extra resulting cgka ops to the update.
-            let prekeys = update
-                .delegation
-                .payload
-                .delegate
-                .pick_individual_prekeys(self.doc_id())
-                .await;
+            let prekeys = self.group.pick_individual_prekeys(self.doc_id()).await;
             let cgka_ops_for_this_doc =
                 self.add_cgka_members_from_prekeys(&prekeys, signer).await?;
             update.cgka_ops.extend(cgka_ops_for_this_doc);
@@ -271,6 +266,16 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         Ok(update)
     }
 
+    /// The individuals that can read this document.
+    pub(crate) async fn transitive_readers(&self) -> HashSet<IndividualId> {
+        self.group.transitive_readers().await.into_keys().collect()
+    }
+
+    /// A prekey for each individual that can read this document.
+    pub(crate) async fn pick_individual_prekeys(&self) -> HashMap<IndividualId, ShareKey> {
+        self.group.pick_individual_prekeys(self.doc_id()).await
+    }
+
     /// Add individuals to this document's [`Cgka`] from pre-computed prekeys.
     ///
     /// Prekeys must be computed before locking the document to avoid
@@ -298,12 +303,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         signer: &S,
         after_other_doc_content: &mut BTreeMap<DocumentId, Vec<T>>,
     ) -> Result<RevokeMemberUpdate<F, S, T, L>, RevokeMemberError> {
-        // Collect individual IDs from the member being revoked before the
-        // group revocation removes them from the members map.
-        let mut ids_to_remove = HashSet::new();
-        for d in self.group.members.get(&member_id).into_iter().flatten() {
-            ids_to_remove.extend(d.payload().delegate.individual_ids().await);
-        }
+        let readers_before = self.group.transitive_readers().await;
 
         let RevokeMemberUpdate {
             revocations,
@@ -319,16 +319,20 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             )
             .await?;
 
-        // After revocation, check which individuals are still reachable via
-        // remaining members. Only remove those that are no longer reachable.
-        let still_reachable = self.group.individual_ids().await;
-        ids_to_remove.retain(|id| !still_reachable.contains(id));
+        // Only remove those that lost their last way to read: the revoked member,
+        // and anyone whose access rested on it.
+        let readers_after = self.group.transitive_readers().await;
 
         // FIXME: We need to check if this has revoked the last member in our group.
         let mut ops = cgka_ops;
-        for id in ids_to_remove {
-            if let Some(op) = self.cgka_mut()?.remove(id, signer).await? {
-                ops.push(op);
+        if let Some(cgka) = &mut self.cgka {
+            for id in readers_before.into_keys() {
+                if readers_after.contains_key(&id) {
+                    continue;
+                }
+                if let Some(op) = cgka.remove(id, signer).await? {
+                    ops.push(op);
+                }
             }
         }
         Ok(RevokeMemberUpdate {
diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index 44baa99..84fa860 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -241,19 +241,29 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         ids
     }
 
+    /// The individuals that can read this group's content, directly or through nested groups.
+    pub(crate) async fn transitive_readers(&self) -> HashMap<IndividualId, Agent<F, S, T, L>> {
+        self.transitive_members()
+            .await
+            .into_values()
+            .filter(|(_, access)| access.is_reader())
+            .filter_map(|(agent, _)| match agent {
+                Agent::Active(id, _) | Agent::Individual(id, _) => Some((id, agent)),
+                Agent::Group(..) | Agent::Document(..) => None,
+            })
+            .collect()
+    }
+
     pub async fn pick_individual_prekeys(
         &self,
         doc_id: DocumentId,
     ) -> HashMap<IndividualId, ShareKey> {
         let mut prekeys = HashMap::new();
         let public_id = crate::principal::public::Public.id();
-        for (id, (agent, _access)) in self.transitive_members().await.iter() {
+        for (id, agent) in self.transitive_readers().await {
             // Public must always be added with its single well-known key.
-            if *id == public_id {
-                prekeys.insert(
-                    IndividualId(public_id),
-                    crate::principal::public::Public.share_key(),
-                );
+            if Identifier::from(id) == public_id {
+                prekeys.insert(id, crate::principal::public::Public.share_key());
             } else {
                 prekeys.extend(agent.pick_individual_prekeys(doc_id).await.iter());
             }
-- 
2.43.0


From 2fcaa808a98d08210c95939fd766f9e7c91d913e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:50 +0000
Subject: [PATCH 16/57] fix: the active agent isn't locked while waiting for
 documents

---
 keyhive_core/src/keyhive.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index c5d8c0c..85fa8f1 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -719,8 +719,8 @@ impl<
     #[instrument(skip_all)]
     pub async fn reachable_docs(&self) -> BTreeMap<DocumentId, Ability<F, S, T, L>> {
         let active = self.active.dupe();
-        let locked_active = self.active.lock().await;
-        self.docs_reachable_by_agent(&Agent::Active(locked_active.id(), active))
+        let active_id = { self.active.lock().await.id() };
+        self.docs_reachable_by_agent(&Agent::Active(active_id, active))
             .await
     }
 
@@ -1787,11 +1787,13 @@ impl<
         let signed_op = Arc::new(signed_op);
         if let CgkaOperation::Add { added_id, pk, .. } = signed_op.payload {
             let added_id: IndividualId = added_id.into();
-            let locked_active = self.active.lock().await;
-            let active_id = locked_active.id();
+            let (active_id, prekey_pairs) = {
+                let locked_active = self.active.lock().await;
+                (locked_active.id(), locked_active.prekey_pairs.dupe())
+            };
             if active_id == added_id {
                 let sk = {
-                    let locked_prekeys = locked_active.prekey_pairs.lock().await;
+                    let locked_prekeys = prekey_pairs.lock().await;
                     *locked_prekeys
                         .get(&pk)
                         .ok_or(ReceiveCgkaOpError::UnknownInvitePrekey(pk))?
-- 
2.43.0


From 496b270e2992029a0a681e53ccc2965fc9cd4dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:54 +0000
Subject: [PATCH 17/57] fix: a group that is its own indirect member can be
 changed

---
 keyhive_core/src/principal/document.rs    |  8 ++++++++
 keyhive_core/src/principal/group.rs       | 19 +++++++++++++++++--
 keyhive_core/src/principal/group/state.rs |  6 +++++-
 keyhive_core/src/principal/membered.rs    | 16 ++++++++++++++++
 4 files changed, 46 insertions(+), 3 deletions(-)

diff --git a/keyhive_core/src/principal/document.rs b/keyhive_core/src/principal/document.rs
index 27f88b1..be5a79e 100644
--- a/keyhive_core/src/principal/document.rs
+++ b/keyhive_core/src/principal/document.rs
@@ -133,6 +133,14 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         self.group.transitive_members().await
     }
 
+    #[allow(clippy::type_complexity)]
+    pub(crate) async fn transitive_members_outside(
+        &self,
+        locked: Identifier,
+    ) -> HashMap<Identifier, (Agent<F, S, T, L>, Access)> {
+        self.group.transitive_members_outside(locked).await
+    }
+
     pub fn revoked_members(&self) -> HashMap<Identifier, (Agent<F, S, T, L>, Access)> {
         self.group.revoked_members()
     }
diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index 84fa860..fc0b356 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -278,6 +278,17 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
 
     #[tracing::instrument(skip(self), fields(group_id = %self.group_id()))]
     pub async fn transitive_members(&self) -> HashMap<Identifier, (Agent<F, S, T, L>, Access)> {
+        self.transitive_members_outside(self.id()).await
+    }
+
+    /// As [`Self::transitive_members`], but without looking into `locked`.
+    ///
+    /// Used on behalf of a group that is itself locked, and may be among the members.
+    /// Paths through that group don't grant any more access to it.
+    pub(crate) async fn transitive_members_outside(
+        &self,
+        locked: Identifier,
+    ) -> HashMap<Identifier, (Agent<F, S, T, L>, Access)> {
         let mut explore: Vec<(Agent<F, S, T, L>, Access)> = vec![];
 
         for member in self.members.keys() {
@@ -304,6 +315,10 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
 
             caps.insert(id, (member.dupe(), access));
 
+            if id == locked {
+                continue;
+            }
+
             if let Some(membered) = member.as_membered() {
                 for dlg in membered.members().await.values().flatten() {
                     explore.push((dlg.payload.delegate.dupe(), dlg.payload.can.min(access)));
@@ -464,7 +479,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                     .expect("members have capabilities by definition");
 
                 if let Some(m) = dlg.payload.delegate.as_membered() {
-                    let sub_members = m.transitive_members().await;
+                    let sub_members = m.transitive_members_outside(self.id()).await;
                     if let Some((_, sub_access)) = sub_members.get(&signer_id) {
                         let path_access = dlg.payload.can.min(*sub_access);
                         if path_access >= can {
@@ -621,7 +636,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                             .expect("members have capabilities by definition");
 
                         if let Some(m) = dlg.payload.delegate.as_membered() {
-                            let sub_members = m.transitive_members().await;
+                            let sub_members = m.transitive_members_outside(self.id()).await;
                             if let Some((_, sub_access)) = sub_members.get(&signer_id) {
                                 if dlg.payload.can.min(*sub_access) >= to_revoke.payload.can {
                                     let r = self
diff --git a/keyhive_core/src/principal/group/state.rs b/keyhive_core/src/principal/group/state.rs
index ed182bb..4c5f440 100644
--- a/keyhive_core/src/principal/group/state.rs
+++ b/keyhive_core/src/principal/group/state.rs
@@ -174,6 +174,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                     &proof.payload.delegate,
                     head_id,
                     delegation.payload.can,
+                    self.id.into(),
                 )
                 .await
                 {
@@ -241,6 +242,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                     &proof.payload.delegate,
                     revoker_id,
                     revocation.payload.revoke.payload.can,
+                    self.id.into(),
                 )
                 .await
                 {
@@ -264,6 +266,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                         &next_proof.payload.delegate,
                         head_id,
                         proof.payload.can,
+                        self.id.into(),
                     )
                     .await
                     {
@@ -336,11 +339,12 @@ async fn is_transitive_member_of<
     delegate: &Agent<F, S, T, L>,
     member_id: Identifier,
     min_access: Access,
+    locked: Identifier,
 ) -> bool {
     let Some(m) = delegate.as_membered() else {
         return false;
     };
-    m.transitive_members()
+    m.transitive_members_outside(locked)
         .await
         .get(&member_id)
         .map(|(_, access)| *access >= min_access)
diff --git a/keyhive_core/src/principal/membered.rs b/keyhive_core/src/principal/membered.rs
index 55bb547..0fbc064 100644
--- a/keyhive_core/src/principal/membered.rs
+++ b/keyhive_core/src/principal/membered.rs
@@ -105,6 +105,22 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         }
     }
 
+    /// As [`Self::transitive_members`], but without looking into `locked`.
+    #[allow(clippy::type_complexity)]
+    pub(crate) async fn transitive_members_outside(
+        &self,
+        locked: Identifier,
+    ) -> HashMap<Identifier, (Agent<F, S, T, L>, Access)> {
+        if Identifier::from(self.agent_id()) == locked {
+            return HashMap::new();
+        }
+
+        match self {
+            Membered::Group(_, group) => group.lock().await.transitive_members_outside(locked).await,
+            Membered::Document(_, doc) => doc.lock().await.transitive_members_outside(locked).await,
+        }
+    }
+
     #[allow(clippy::type_complexity)]
     pub async fn add_member(
         &self,
-- 
2.43.0


From c90743ea5b8629ee1d61124fc4d5f472d8208255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:36 +0000
Subject: [PATCH 18/57] fix: equal delegations by different issuers are kept
 apart

---
 keyhive_core/src/principal/group/state.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/keyhive_core/src/principal/group/state.rs b/keyhive_core/src/principal/group/state.rs
index 4c5f440..617489b 100644
--- a/keyhive_core/src/principal/group/state.rs
+++ b/keyhive_core/src/principal/group/state.rs
@@ -184,11 +184,11 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         }
 
         for (head_digest, head) in self.delegation_heads.clone().iter() {
-            if !delegation.payload.is_ancestor_of(head) {
+            if !head.payload.is_descendant_of(&delegation) {
                 self.delegation_heads.insert(delegation.dupe());
             }
 
-            if head.payload.is_ancestor_of(&delegation) {
+            if delegation.payload.is_descendant_of(head) {
                 self.delegation_heads.remove_by_hash(head_digest);
             }
         }
-- 
2.43.0


From be20baf68666d880236d703b145a89922793da42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:36 +0000
Subject: [PATCH 19/57] fix: a member can leave, and a refused revocation
 changes nothing

---
 keyhive_core/src/principal/group.rs | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index fc0b356..8daadc6 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -563,7 +563,19 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                 let r = self
                     .build_revocation(signer, to_revoke.dupe(), None, after_content.clone())
                     .await?;
-                self.receive_revocation(r.dupe()).await?;
+                revocations.push(r);
+            }
+        } else if Identifier::from(vk) == member_to_remove {
+            // Leaving needs no authority beyond the delegation being given up
+            for to_revoke in all_to_revoke.iter() {
+                let r = self
+                    .build_revocation(
+                        signer,
+                        to_revoke.dupe(),
+                        Some(to_revoke.dupe()),
+                        after_content.clone(),
+                    )
+                    .await?;
                 revocations.push(r);
             }
         } else {
@@ -588,7 +600,6 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                                     after_content.clone(),
                                 )
                                 .await?;
-                            self.receive_revocation(r.dupe()).await?;
                             revocations.push(r);
                             found = true;
                         }
@@ -604,7 +615,6 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                             after_content.clone(),
                         )
                         .await?;
-                    self.receive_revocation(r.dupe()).await?;
                     revocations.push(r);
                     found = true;
                 } else {
@@ -620,8 +630,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                                     after_content.clone(),
                                 )
                                 .await?;
-                            revocations.push(r.dupe());
-                            self.receive_revocation(r).await?;
+                            revocations.push(r);
                             break;
                         }
                     }
@@ -647,8 +656,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                                             after_content.clone(),
                                         )
                                         .await?;
-                                    revocations.push(r.dupe());
-                                    self.receive_revocation(r).await?;
+                                    revocations.push(r);
                                     found = true;
                                     break;
                                 }
@@ -663,6 +671,11 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             }
         }
 
+        // Only act once every delegation is known to be revocable
+        for r in revocations.iter() {
+            self.receive_revocation(r.dupe()).await?;
+        }
+
         for r in revocations.iter() {
             self.listener.on_revocation(r).await
         }
-- 
2.43.0


From 65b6901728f910f9d6bbf5a9456c30b2f8810559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:14 +0000
Subject: [PATCH 20/57] fix: a member whose own access would go can't drop
 those it is asked to retain

---
 keyhive_core/src/principal/group.rs | 151 ++++++++++++++++++----------
 1 file changed, 96 insertions(+), 55 deletions(-)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index 8daadc6..9e84036 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -454,9 +454,49 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         signer: &S,
         after_content: BTreeMap<DocumentId, Vec<T>>,
     ) -> Result<AddMemberUpdate<F, S, T, L>, AddGroupMemberError> {
-        let proof = if self.verifying_key() == signer.verifying_key() {
-            None
-        } else if let Some(p) = self.get_capability(&signer.verifying_key().into()) {
+        let proof = self
+            .proof_to_add(&self.members, &signer.verifying_key(), can)
+            .await?;
+
+        let delegation = keyhive_crypto::signer::async_signer::try_sign_async::<F, _, _>(
+            signer,
+            Delegation {
+                delegate: member_to_add,
+                can,
+                proof,
+                after_revocations: self.state.revocation_heads.values().duped().collect(),
+                after_content,
+            },
+        )
+        .await?;
+
+        let rc = Arc::new(delegation);
+        let _digest = self.receive_delegation(rc.dupe()).await?;
+        self.listener.on_delegation(&rc).await;
+
+        Ok(AddMemberUpdate {
+            cgka_ops: Vec::new(),
+            delegation: rc,
+        })
+    }
+
+    /// The delegation among those of `members` that lets `signer_vk` add a
+    /// member with access `can` (`None` for the group's own key).
+    #[allow(clippy::type_complexity)]
+    async fn proof_to_add(
+        &self,
+        members: &HashMap<Identifier, NonEmpty<Arc<Signed<Delegation<F, S, T, L>>>>>,
+        signer_vk: &ed25519_dalek::VerifyingKey,
+        can: Access,
+    ) -> Result<Option<Arc<Signed<Delegation<F, S, T, L>>>>, AddGroupMemberError> {
+        let capability = |member_id: &Identifier| {
+            let dlgs = members.get(member_id)?.iter();
+            dlgs.max_by(|d1, d2| d1.payload().can.cmp(&d2.payload().can))
+        };
+
+        if self.verifying_key() == *signer_vk {
+            Ok(None)
+        } else if let Some(p) = capability(&(*signer_vk).into()) {
             // Signer is a direct member of this group.
             if can > p.payload.can {
                 return Err(AddGroupMemberError::AccessEscalation {
@@ -464,19 +504,17 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                     have: p.payload().can,
                 });
             }
-            Some(p.dupe())
+            Ok(Some(p.dupe()))
         } else {
             // Check transitive membership through the group graph.
             // Single pass: find which direct member provides a sufficient
             // transitive path for the signer.
-            let signer_id = Identifier::from(signer.verifying_key());
+            let signer_id = Identifier::from(*signer_vk);
             let mut best_proof = None;
             let mut best_access: Option<Access> = None;
 
-            for member_id in self.members.keys() {
-                let dlg = self
-                    .get_capability(member_id)
-                    .expect("members have capabilities by definition");
+            for member_id in members.keys() {
+                let dlg = capability(member_id).expect("members have capabilities by definition");
 
                 if let Some(m) = dlg.payload.delegate.as_membered() {
                     let sub_members = m.transitive_members_outside(self.id()).await;
@@ -494,37 +532,16 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             }
 
             if let Some(proof) = best_proof {
-                Some(proof)
+                Ok(Some(proof))
             } else if let Some(access) = best_access {
-                return Err(AddGroupMemberError::AccessEscalation {
+                Err(AddGroupMemberError::AccessEscalation {
                     wanted: can,
                     have: access,
-                });
+                })
             } else {
-                return Err(AddGroupMemberError::NoProof);
+                Err(AddGroupMemberError::NoProof)
             }
-        };
-
-        let delegation = keyhive_crypto::signer::async_signer::try_sign_async::<F, _, _>(
-            signer,
-            Delegation {
-                delegate: member_to_add,
-                can,
-                proof,
-                after_revocations: self.state.revocation_heads.values().duped().collect(),
-                after_content,
-            },
-        )
-        .await?;
-
-        let rc = Arc::new(delegation);
-        let _digest = self.receive_delegation(rc.dupe()).await?;
-        self.listener.on_delegation(&rc).await;
-
-        Ok(AddMemberUpdate {
-            cgka_ops: Vec::new(),
-            delegation: rc,
-        })
+        }
     }
 
     /// Revoke a member from this group.
@@ -671,6 +688,22 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             }
         }
 
+        if retain_all_other_members {
+            // The signer can't vouch for the others if its own authority goes too
+            let mut suspended = og_dlgs
+                .iter()
+                .filter(|d| d.payload.delegate.id() != member_to_remove)
+                .duped()
+                .collect();
+            let members = std::mem::take(&mut self.members);
+            self.admit_proven(&mut HashSet::new(), &mut suspended);
+            let remaining = std::mem::replace(&mut self.members, members);
+
+            for dlg in Self::granted_by(&og_dlgs, member_to_remove) {
+                self.proof_to_add(&remaining, &vk, dlg.payload.can).await?;
+            }
+        }
+
         // Only act once every delegation is known to be revocable
         for r in revocations.iter() {
             self.receive_revocation(r.dupe()).await?;
@@ -684,27 +717,18 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
 
         let mut redelegations = vec![];
         if retain_all_other_members {
-            for dlg in og_dlgs.iter() {
-                if dlg.payload.delegate.id() == member_to_remove {
-                    // Don't retain if they've delegated to themself
-                    continue;
-                }
+            for dlg in Self::granted_by(&og_dlgs, member_to_remove) {
+                let update = self
+                    .add_member_with_manual_content(
+                        dlg.payload.delegate.dupe(),
+                        dlg.payload.can,
+                        signer,
+                        after_content.clone(),
+                    )
+                    .await?;
 
-                if let Some(proof) = &dlg.payload.proof {
-                    if proof.payload.delegate.id() == member_to_remove {
-                        let update = self
-                            .add_member_with_manual_content(
-                                dlg.payload.delegate.dupe(),
-                                dlg.payload.can,
-                                signer,
-                                after_content.clone(),
-                            )
-                            .await?;
-
-                        cgka_ops.extend(update.cgka_ops);
-                        redelegations.push(update.delegation);
-                    }
-                }
+                cgka_ops.extend(update.cgka_ops);
+                redelegations.push(update.delegation);
             }
         }
 
@@ -715,6 +739,23 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         })
     }
 
+    /// Delegations to others that rest directly on one held by `member`.
+    #[allow(clippy::type_complexity)]
+    fn granted_by(
+        dlgs: &[Arc<Signed<Delegation<F, S, T, L>>>],
+        member: Identifier,
+    ) -> impl Iterator<Item = &Arc<Signed<Delegation<F, S, T, L>>>> {
+        dlgs.iter().filter(move |dlg| {
+            // Don't count it if they've delegated to themself
+            dlg.payload.delegate.id() != member
+                && dlg
+                    .payload
+                    .proof
+                    .as_ref()
+                    .is_some_and(|proof| proof.payload.delegate.id() == member)
+        })
+    }
+
     async fn build_revocation(
         &mut self,
         signer: &S,
-- 
2.43.0


From 78f95cd31a2d5ef2ef83917d6b49f83b33ac1521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:29 +0000
Subject: [PATCH 21/57] fix: revoking a member removes it or fails, and leaving
 always works

---
 keyhive_core/src/principal/group.rs | 54 +++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 14 deletions(-)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index 9e84036..cbec88b 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -22,6 +22,7 @@ use super::{
 };
 use crate::{
     access::Access,
+    crypto::signed_ext::SignedSubjectId,
     listener::{membership::MembershipListener, no_listener::NoListener},
     store::{delegation::DelegationStore, revocation::RevocationStore},
 };
@@ -583,8 +584,26 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                 revocations.push(r);
             }
         } else if Identifier::from(vk) == member_to_remove {
-            // Leaving needs no authority beyond the delegation being given up
-            for to_revoke in all_to_revoke.iter() {
+            // Leaving needs no authority beyond the delegations being given up, also those
+            // that aren't in play at the moment
+            let given_up: Vec<_> = self
+                .state
+                .delegations
+                .lock()
+                .await
+                .values()
+                .filter(|d| {
+                    d.payload.delegate.id() == member_to_remove
+                        && d.subject_id() == self.id()
+                        && !self
+                            .active_revocations
+                            .values()
+                            .any(|r| r.payload.revoke == **d)
+                })
+                .duped()
+                .collect();
+
+            for to_revoke in given_up.iter() {
                 let r = self
                     .build_revocation(
                         signer,
@@ -688,23 +707,26 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             }
         }
 
-        if retain_all_other_members {
-            // The signer can't vouch for the others if its own authority goes too
-            let mut suspended = og_dlgs
-                .iter()
-                .filter(|d| d.payload.delegate.id() != member_to_remove)
-                .duped()
-                .collect();
-            let members = std::mem::take(&mut self.members);
-            self.admit_proven(&mut HashSet::new(), &mut suspended);
-            let remaining = std::mem::replace(&mut self.members, members);
+        // Try it out: without the removed member the signer's own authority may go too
+        let revocation_heads = self.state.revocation_heads.clone();
+        for r in revocations.iter() {
+            self.state.revocation_heads.insert(r.dupe());
+        }
+        self.rebuild().await;
+        let remaining = self.members.clone();
+        self.state.revocation_heads = revocation_heads;
+        self.rebuild().await;
+
+        if remaining.contains_key(&member_to_remove) {
+            return Err(RevokeMemberError::NoProof);
+        }
 
+        if retain_all_other_members {
             for dlg in Self::granted_by(&og_dlgs, member_to_remove) {
                 self.proof_to_add(&remaining, &vk, dlg.payload.can).await?;
             }
         }
 
-        // Only act once every delegation is known to be revocable
         for r in revocations.iter() {
             self.receive_revocation(r.dupe()).await?;
         }
@@ -821,7 +843,11 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                 }
                 MembershipOperation::Revocation(r) => {
                     if let Some(found_proof) = &r.payload.proof {
-                        if !dlgs_in_play.contains(&found_proof.signature.to_bytes()) {
+                        // NOTE: giving up (or taking back) a delegation works even before
+                        // the delegation itself is in play
+                        if *found_proof != r.payload.revoke
+                            && !dlgs_in_play.contains(&found_proof.signature.to_bytes())
+                        {
                             // Either the revoker granted the proof, or is acting with
                             // the authority of the proof's delegate.
                             let holder = if r.issuer == found_proof.issuer {
-- 
2.43.0


From 6a2f4a21f280c7bfd9d50d8281170f74b3aee4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:35 +0000
Subject: [PATCH 22/57] fix: a document's creator can't read it anymore once
 removed

---
 keyhive_core/src/principal/document.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/keyhive_core/src/principal/document.rs b/keyhive_core/src/principal/document.rs
index be5a79e..4d1b08d 100644
--- a/keyhive_core/src/principal/document.rs
+++ b/keyhive_core/src/principal/document.rs
@@ -172,6 +172,11 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         signer: &S,
         csprng: Arc<Mutex<R>>,
     ) -> Result<Self, GenerateDocError> {
+        let creator = parents.iter().find_map(|parent| match parent {
+            Agent::Active(id, active) => Some((*id, active.dupe())),
+            _ => None,
+        });
+
         let mut locked_csprng = csprng.lock().await;
         let (group_result, group_vk) =
             EphemeralSigner::with_signer(&mut *locked_csprng, |verifier, signer| {
@@ -210,6 +215,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         if let Some(others) = NonEmpty::from_vec(other_members) {
             ops.extend(cgka.add_multiple(others, signer).await?.iter().cloned());
         }
+
         let (_pcs_key, update_op) = cgka
             .update(
                 owner_share_key,
@@ -220,6 +226,20 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             .await?;
 
         ops.push(update_op);
+
+        // From here on the creator is a member like any other. Holding on to the secrets of the
+        // document's own leaf would let them keep reading after being removed.
+        if let Some((creator_id, active)) = creator {
+            let prekey_pairs = active.lock().await.prekey_pairs.dupe();
+            let prekey_pairs = prekey_pairs.lock().await;
+            let prekey = group_members.get(&creator_id);
+            if let Some((pk, sk)) = prekey.and_then(|pk| prekey_pairs.get_key_value(pk)) {
+                let mut creator_sks = ShareKeyMap::new();
+                creator_sks.insert(*pk, *sk);
+                cgka = cgka.with_new_owner(creator_id, creator_sks)?;
+            }
+        }
+
         for op in ops {
             group.listener.on_cgka_op(&Arc::new(op)).await;
         }
-- 
2.43.0


From 2c182f16af7fd811c9749cb5aab3c0c7d45c827a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:44 +0000
Subject: [PATCH 23/57] fix: replicas that weren't invited to a document don't
 act as the document itself

---
 keyhive_core/src/keyhive.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 85fa8f1..ffc0979 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -1818,7 +1818,18 @@ impl<
                 return Ok(());
             }
         }
-        if doc.lock().await.merge_cgka_op(signed_op.clone())? {
+        let merged = {
+            let active_id = self.active.lock().await.id();
+            let mut locked_doc = doc.lock().await;
+            let is_new = locked_doc.cgka().is_err();
+            let merged = locked_doc.merge_cgka_op(signed_op.clone())?;
+            if is_new {
+                // We act as ourselves, not as the document's first member.
+                locked_doc.reset_cgka_owner(active_id)?;
+            }
+            merged
+        };
+        if merged {
             self.event_listener.on_cgka_op(&signed_op).await;
         }
         Ok(())
-- 
2.43.0


From 4bc5d38bde8f1af5312e79c39691fb7612700a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:14 +0000
Subject: [PATCH 24/57] fix: readers that a revocation brings back get the
 document's key

---
 keyhive_core/src/keyhive.rs            |  7 ++---
 keyhive_core/src/principal/document.rs | 42 +++++++++++++++++---------
 2 files changed, 30 insertions(+), 19 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index ffc0979..0c0728b 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -599,11 +599,8 @@ impl<
         // Propagate CGKA removals to those who thereby lost their last way to read.
         for (doc, readers_before) in affected {
             let mut locked = doc.lock().await;
-            let readers_after = locked.transitive_readers().await;
-            for id in readers_before.difference(&readers_after) {
-                if let Ok(Some(op)) = locked.remove_cgka_member(*id, &signer).await {
-                    update.cgka_ops.push(op);
-                }
+            if let Ok(ops) = locked.follow_readers(&readers_before, &signer).await {
+                update.cgka_ops.extend(ops);
             }
         }
 
diff --git a/keyhive_core/src/principal/document.rs b/keyhive_core/src/principal/document.rs
index 4d1b08d..259bbcf 100644
--- a/keyhive_core/src/principal/document.rs
+++ b/keyhive_core/src/principal/document.rs
@@ -331,7 +331,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         signer: &S,
         after_other_doc_content: &mut BTreeMap<DocumentId, Vec<T>>,
     ) -> Result<RevokeMemberUpdate<F, S, T, L>, RevokeMemberError> {
-        let readers_before = self.group.transitive_readers().await;
+        let readers_before = self.transitive_readers().await;
 
         let RevokeMemberUpdate {
             revocations,
@@ -347,21 +347,10 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             )
             .await?;
 
-        // Only remove those that lost their last way to read: the revoked member,
-        // and anyone whose access rested on it.
-        let readers_after = self.group.transitive_readers().await;
-
         // FIXME: We need to check if this has revoked the last member in our group.
         let mut ops = cgka_ops;
-        if let Some(cgka) = &mut self.cgka {
-            for id in readers_before.into_keys() {
-                if readers_after.contains_key(&id) {
-                    continue;
-                }
-                if let Some(op) = cgka.remove(id, signer).await? {
-                    ops.push(op);
-                }
-            }
+        if self.cgka.is_some() {
+            ops.extend(self.follow_readers(&readers_before, signer).await?);
         }
         Ok(RevokeMemberUpdate {
             revocations,
@@ -370,6 +359,31 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         })
     }
 
+    /// Bring this document's [`Cgka`] in line with a revocation.
+    #[instrument(skip_all)]
+    pub(crate) async fn follow_readers(
+        &mut self,
+        readers_before: &HashSet<IndividualId>,
+        signer: &S,
+    ) -> Result<Vec<Signed<CgkaOperation>>, CgkaError> {
+        let readers_after = self.transitive_readers().await;
+
+        // Only remove those that lost their last way to read: the revoked member,
+        // and anyone whose access rested on it.
+        let mut ops = vec![];
+        for id in readers_before.difference(&readers_after) {
+            ops.extend(self.remove_cgka_member(*id, signer).await?);
+        }
+
+        // A revocation that takes away someone's authority also undoes revocations
+        // they made, so it can bring members back.
+        if !readers_after.is_subset(readers_before) {
+            let prekeys = self.pick_individual_prekeys().await;
+            ops.extend(self.add_cgka_members_from_prekeys(&prekeys, signer).await?);
+        }
+        Ok(ops)
+    }
+
     #[instrument(skip_all)]
     pub async fn remove_cgka_member(
         &mut self,
-- 
2.43.0


From 6417f5310106c5ecc102d26557db853eca0a0388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:50 +0000
Subject: [PATCH 25/57] fix: key agreement members are added and removed with
 what arrived meanwhile in mind

---
 beekem/src/cgka.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/beekem/src/cgka.rs b/beekem/src/cgka.rs
index 56ef512..ebe4cc9 100644
--- a/beekem/src/cgka.rs
+++ b/beekem/src/cgka.rs
@@ -242,12 +242,12 @@ impl Cgka {
         pk: ShareKey,
         signer: &S,
     ) -> Result<Option<Signed<CgkaOperation>>, CgkaError> {
-        if self.tree.contains_id(&id) {
-            return Ok(None);
-        }
         if self.should_replay() {
             self.replay_ops_graph()?;
         }
+        if self.tree.contains_id(&id) {
+            return Ok(None);
+        }
         let leaf_index = self.tree.push_leaf(id, pk.into());
         let predecessors = Vec::from_iter(self.ops_graph.cgka_op_heads.iter().cloned());
         let add_predecessors = Vec::from_iter(self.ops_graph.add_heads.iter().cloned());
@@ -285,12 +285,12 @@ impl Cgka {
         id: MemberId,
         signer: &S,
     ) -> Result<Option<Signed<CgkaOperation>>, CgkaError> {
-        if !self.tree.contains_id(&id) {
-            return Ok(None);
-        }
         if self.should_replay() {
             self.replay_ops_graph()?;
         }
+        if !self.tree.contains_id(&id) {
+            return Ok(None);
+        }
         if self.group_size() == 1 {
             return Err(CgkaError::RemoveLastMember);
         }
-- 
2.43.0


From 348a67e2a3c210e6cbd090a257648a708d10faeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:51 +0000
Subject: [PATCH 26/57] fix: a concurrent removal doesn't wipe the leaf that a
 new member got

---
 beekem/src/cgka.rs | 10 ++++++----
 beekem/src/tree.rs | 12 +++++-------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/beekem/src/cgka.rs b/beekem/src/cgka.rs
index ebe4cc9..21554f7 100644
--- a/beekem/src/cgka.rs
+++ b/beekem/src/cgka.rs
@@ -456,14 +456,16 @@ impl Cgka {
                 // An epoch with at least one membership change requires blanking
                 // removed paths and sorting added leaves after all ops are applied.
                 let mut added_ids = Set::new();
-                let mut removed_ids = Set::new();
+                let mut removed_leaves = Set::new();
                 for op in epoch.iter() {
                     match op.payload {
                         CgkaOperation::Add { added_id, .. } => {
                             added_ids.insert(added_id);
                         }
-                        CgkaOperation::Remove { id, leaf_idx, .. } => {
-                            removed_ids.insert((id, leaf_idx));
+                        CgkaOperation::Remove { id, .. } => {
+                            if let Ok(leaf_idx) = self.tree.leaf_index_for_id(id) {
+                                removed_leaves.insert(*leaf_idx);
+                            }
                         }
                         _ => {}
                     }
@@ -472,7 +474,7 @@ impl Cgka {
                 self.tree
                     .sort_leaves_and_blank_paths_for_concurrent_membership_changes(
                         added_ids,
-                        removed_ids,
+                        removed_leaves,
                     );
             }
         }
diff --git a/beekem/src/tree.rs b/beekem/src/tree.rs
index f5c71f5..f8333ee 100644
--- a/beekem/src/tree.rs
+++ b/beekem/src/tree.rs
@@ -108,18 +108,16 @@ impl BeeKem {
     pub fn sort_leaves_and_blank_paths_for_concurrent_membership_changes(
         &mut self,
         mut added_ids: Set<MemberId>,
-        removed_ids: Set<(MemberId, u32)>,
+        removed_leaves: Set<LeafNodeIndex>,
     ) {
         let mut leaves_to_sort = Vec::new();
-        for (id, idx) in removed_ids {
-            added_ids.remove(&id);
-            let leaf_idx = LeafNodeIndex::new(idx);
-            debug_assert!(self.leaf(leaf_idx).is_none());
+        for leaf_idx in removed_leaves {
             // We should have already removed this id during merge, but concurrent
             // updates at other leaves with intersecting paths must be overridden by
-            // this remove.
-            self.blank_leaf_and_path(leaf_idx);
+            // this remove. The leaf itself might meanwhile belong to an added member.
+            self.blank_path(treemath::parent(leaf_idx.into()));
         }
+        added_ids.retain(|id| self.contains_id(id));
         while !added_ids.is_empty() && self.next_leaf_idx.u32() > 0 {
             let leaf_idx = self.next_leaf_idx - 1;
             if let Some(next_leaf) = self.leaf(leaf_idx).clone() {
-- 
2.43.0


From 727dfaf6da339cf2969ead06f1cf48dba11a4db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:51 +0000
Subject: [PATCH 27/57] fix: concurrently adding or removing the same member
 doesn't corrupt key agreement

---
 beekem/src/cgka.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/beekem/src/cgka.rs b/beekem/src/cgka.rs
index 21554f7..5561216 100644
--- a/beekem/src/cgka.rs
+++ b/beekem/src/cgka.rs
@@ -420,10 +420,17 @@ impl Cgka {
         }
         match op.payload {
             CgkaOperation::Add { added_id, pk, .. } => {
-                self.tree.push_leaf(added_id, pk.into());
+                // Someone else might have concurrently added the same member.
+                if !self.tree.contains_id(&added_id) {
+                    self.tree.push_leaf(added_id, pk.into());
+                }
             }
             CgkaOperation::Remove { id, .. } => {
-                self.tree.remove_id(id)?;
+                // Someone else might have concurrently removed the same member, or
+                // all others.
+                if self.tree.contains_id(&id) && self.group_size() > 1 {
+                    self.tree.remove_id(id)?;
+                }
             }
             CgkaOperation::Update { ref new_path, .. } => {
                 self.tree.apply_path(new_path);
-- 
2.43.0


From 972e18d4921924a3e08e1313cd1859e3fd2c9041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:51 +0000
Subject: [PATCH 28/57] fix: an update that no longer fits the tree doesn't
 lock out its neighbours

---
 beekem/src/cgka.rs | 35 ++++++++++++++++++-----------------
 beekem/src/tree.rs | 20 ++++++++++++--------
 2 files changed, 30 insertions(+), 25 deletions(-)

diff --git a/beekem/src/cgka.rs b/beekem/src/cgka.rs
index 5561216..d8b1b71 100644
--- a/beekem/src/cgka.rs
+++ b/beekem/src/cgka.rs
@@ -20,6 +20,7 @@ use crate::{
     pcs_key::{ApplicationSecret, PcsKey},
     transact::{Fork, Merge},
     tree::BeeKem,
+    treemath::LeafNodeIndex,
 };
 use alloc::{collections::BTreeSet, sync::Arc, vec::Vec};
 use core::hash::{Hash, Hasher};
@@ -413,11 +414,18 @@ impl Cgka {
     }
 
     /// Apply a [`CgkaOperation`].
+    ///
+    /// Returns the leaf whose path this blanked, if it was a removal or an update that no
+    /// longer fits the tree.
     #[instrument(skip_all)]
-    fn apply_operation(&mut self, op: Arc<Signed<CgkaOperation>>) -> Result<(), CgkaError> {
+    fn apply_operation(
+        &mut self,
+        op: Arc<Signed<CgkaOperation>>,
+    ) -> Result<Option<LeafNodeIndex>, CgkaError> {
         if self.ops_graph.contains_op_hash(&Digest::hash(&op)) {
-            return Ok(());
+            return Ok(None);
         }
+        let mut blanked = None;
         match op.payload {
             CgkaOperation::Add { added_id, pk, .. } => {
                 // Someone else might have concurrently added the same member.
@@ -429,15 +437,16 @@ impl Cgka {
                 // Someone else might have concurrently removed the same member, or
                 // all others.
                 if self.tree.contains_id(&id) && self.group_size() > 1 {
+                    blanked = Some(*self.tree.leaf_index_for_id(id)?);
                     self.tree.remove_id(id)?;
                 }
             }
             CgkaOperation::Update { ref new_path, .. } => {
-                self.tree.apply_path(new_path);
+                blanked = self.tree.apply_path(new_path);
             }
         }
         self.ops_graph.add_op(&op, &op.payload.predecessors());
-        Ok(())
+        Ok(blanked)
     }
 
     /// Apply operations grouped into "epochs", where each epoch contains an ordered
@@ -463,25 +472,17 @@ impl Cgka {
                 // An epoch with at least one membership change requires blanking
                 // removed paths and sorting added leaves after all ops are applied.
                 let mut added_ids = Set::new();
-                let mut removed_leaves = Set::new();
+                let mut blanked_leaves = Set::new();
                 for op in epoch.iter() {
-                    match op.payload {
-                        CgkaOperation::Add { added_id, .. } => {
-                            added_ids.insert(added_id);
-                        }
-                        CgkaOperation::Remove { id, .. } => {
-                            if let Ok(leaf_idx) = self.tree.leaf_index_for_id(id) {
-                                removed_leaves.insert(*leaf_idx);
-                            }
-                        }
-                        _ => {}
+                    if let CgkaOperation::Add { added_id, .. } = op.payload {
+                        added_ids.insert(added_id);
                     }
-                    self.apply_operation(op.clone())?;
+                    blanked_leaves.extend(self.apply_operation(op.clone())?);
                 }
                 self.tree
                     .sort_leaves_and_blank_paths_for_concurrent_membership_changes(
                         added_ids,
-                        removed_leaves,
+                        blanked_leaves,
                     );
             }
         }
diff --git a/beekem/src/tree.rs b/beekem/src/tree.rs
index f8333ee..123c00d 100644
--- a/beekem/src/tree.rs
+++ b/beekem/src/tree.rs
@@ -108,13 +108,13 @@ impl BeeKem {
     pub fn sort_leaves_and_blank_paths_for_concurrent_membership_changes(
         &mut self,
         mut added_ids: Set<MemberId>,
-        removed_leaves: Set<LeafNodeIndex>,
+        blanked_leaves: Set<LeafNodeIndex>,
     ) {
         let mut leaves_to_sort = Vec::new();
-        for leaf_idx in removed_leaves {
-            // We should have already removed this id during merge, but concurrent
-            // updates at other leaves with intersecting paths must be overridden by
-            // this remove. The leaf itself might meanwhile belong to an added member.
+        for leaf_idx in blanked_leaves {
+            // We should have already removed this id (or blanked its path) during merge,
+            // but concurrent updates at other leaves with intersecting paths must be
+            // overridden. The leaf itself might meanwhile belong to an added member.
             self.blank_path(treemath::parent(leaf_idx.into()));
         }
         added_ids.retain(|id| self.contains_id(id));
@@ -308,11 +308,14 @@ impl BeeKem {
 
     /// Applies a [`PathChange`] representing new public and encrypted secret keys for each
     /// node on a path.
-    pub fn apply_path(&mut self, new_path: &PathChange) {
+    ///
+    /// Returns the leaf whose path was blanked instead, if the new path no longer made
+    /// sense.
+    pub fn apply_path(&mut self, new_path: &PathChange) -> Option<LeafNodeIndex> {
         // If this id has been concurrently removed, it might no longer be present
         // when we try to apply the concurrent update at that id.
         if !self.id_to_leaf_idx.contains_key(&new_path.leaf_id) {
-            return;
+            return None;
         }
         let leaf_idx = *self
             .leaf_index_for_id(new_path.leaf_id)
@@ -326,7 +329,7 @@ impl BeeKem {
             let new_node_key = leaf.pk.merge(&new_path.leaf_pk, &new_path.removed_keys);
             self.insert_leaf_at(leaf_idx, new_path.leaf_id, new_node_key);
             self.blank_path(treemath::parent(leaf_idx.into()));
-            return;
+            return Some(leaf_idx);
         }
 
         let old_leaf = self.leaf(leaf_idx).as_ref().unwrap();
@@ -346,6 +349,7 @@ impl BeeKem {
                 self.insert_inner_node_at(current_idx, node.clone());
             }
         }
+        None
     }
 
     /// Whether the tree currently has a root key.
-- 
2.43.0


From 3a6b2c80adf878acfbedccea82004c5f24ae44e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:51 +0000
Subject: [PATCH 29/57] fix: members re-added while they update their key don't
 make others panic

---
 beekem/src/tree.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/beekem/src/tree.rs b/beekem/src/tree.rs
index 123c00d..e4041ce 100644
--- a/beekem/src/tree.rs
+++ b/beekem/src/tree.rs
@@ -461,7 +461,9 @@ impl BeeKem {
             for idx in sibling_resolution {
                 let next_pk = match self.node_key_for_index(idx)? {
                     NodeKey::ShareKey(share_key) => share_key,
-                    _ => panic!("Sibling resolution nodes should have exactly one ShareKey"),
+                    // Only a leaf: its member updated it while being removed and added
+                    // again, and has the secrets for all of its keys.
+                    NodeKey::ConflictKeys(keys) => keys.first,
                 };
                 let encrypted_sk = crate::encrypted::encrypt_secret(
                     self.doc_id.as_bytes(),
-- 
2.43.0


From 5083da1334b0d77796c42149da81edfd865d0d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:14 +0000
Subject: [PATCH 30/57] fix: revocations are announced once, and only when
 accepted

---
 keyhive_core/src/principal/group.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index cbec88b..30584ad 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -412,9 +412,9 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         &mut self,
         revocation: Arc<Signed<Revocation<F, S, T, L>>>,
     ) -> Result<Digest<Signed<Revocation<F, S, T, L>>>, error::AddError> {
-        self.listener.on_revocation(&revocation).await;
-        let digest = self.state.add_revocation(revocation).await?;
+        let digest = self.state.add_revocation(revocation.dupe()).await?;
         self.rebuild().await;
+        self.listener.on_revocation(&revocation).await;
         Ok(digest)
     }
 
@@ -731,10 +731,6 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             self.receive_revocation(r.dupe()).await?;
         }
 
-        for r in revocations.iter() {
-            self.listener.on_revocation(r).await
-        }
-
         let mut cgka_ops = Vec::new();
 
         let mut redelegations = vec![];
-- 
2.43.0


From fc636bae646bc800c360e0fc11277b7df660b3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:14 +0000
Subject: [PATCH 31/57] fix: members are sent everything about the groups and
 documents they depend on

---
 keyhive_core/src/keyhive.rs                   | 83 +++++--------------
 .../principal/group/membership_operation.rs   | 41 +++++----
 2 files changed, 42 insertions(+), 82 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 0c0728b..c696046 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -891,79 +891,34 @@ impl<
         &self,
         agent: &Agent<F, S, T, L>,
     ) -> HashMap<Digest<MembershipOperation<F, S, T, L>>, MembershipOperation<F, S, T, L>> {
-        let mut ops = HashMap::new();
-        let mut visited_hashes = HashSet::new();
-
-        #[allow(clippy::type_complexity)]
-        let mut heads: Vec<(
-            Digest<MembershipOperation<F, S, T, L>>,
-            MembershipOperation<F, S, T, L>,
-        )> = Vec::new();
+        let mut heads = Vec::new();
+        let mut agent_ids = vec![agent.agent_id()];
 
         for (mem_rc, _max_acces) in self.membered_reachable_by_agent(agent).await.values() {
-            for (hash, dlg_head) in mem_rc.delegation_heads().await.iter() {
-                heads.push((hash.coerce(), dlg_head.dupe().into()));
-            }
-
-            for (hash, rev_head) in mem_rc.revocation_heads().await.iter() {
-                heads.push((hash.coerce(), rev_head.dupe().into()));
-            }
+            heads.extend(collect_membership_heads(
+                &mem_rc.delegation_heads().await,
+                &mem_rc.revocation_heads().await,
+            ));
+            agent_ids.push(mem_rc.agent_id());
         }
 
-        // Include any revocations for this agent that were missed
-        if let Some(agent_revocations) = self
-            .revocations
-            .lock()
-            .await
-            .get_revocations_for_agent(&agent.agent_id())
+        // Include any revocations that were missed, of this agent and of the
+        // groups and documents it acts through
         {
-            for rev in agent_revocations {
-                let hash: Digest<MembershipOperation<F, S, T, L>> =
-                    Digest::hash(rev.as_ref()).coerce();
-                heads.push((hash, rev.into()));
-            }
-        }
-
-        while let Some((hash, op)) = heads.pop() {
-            if visited_hashes.contains(&hash) {
-                continue;
-            }
-
-            visited_hashes.insert(hash);
-            ops.insert(hash, op.clone());
-
-            match op {
-                MembershipOperation::Delegation(dlg) => {
-                    if let Some(proof) = &dlg.payload.proof {
-                        heads.push((Digest::hash(proof.as_ref()).coerce(), proof.dupe().into()));
-                    }
-
-                    for rev in dlg.payload.after_revocations.iter() {
-                        heads.push((Digest::hash(rev.as_ref()).coerce(), rev.dupe().into()));
-                    }
-
-                    // If this delegation is to a group, include the group's delegation heads
-                    if let Agent::Group(_group_id, group) = &dlg.payload.delegate {
-                        for dlg in group.lock().await.delegation_heads().values() {
-                            let dlg_hash = Digest::hash(dlg.as_ref()).coerce();
-                            if !visited_hashes.contains(&dlg_hash) {
-                                heads.push((dlg_hash, dlg.dupe().into()));
-                            }
-                        }
-                    }
-                }
-                MembershipOperation::Revocation(rev) => {
-                    if let Some(proof) = &rev.payload.proof {
-                        heads.push((Digest::hash(proof.as_ref()).coerce(), proof.dupe().into()));
-                    }
-
-                    let r = rev.payload.revoke.dupe();
-                    heads.push((Digest::hash(r.as_ref()).coerce(), r.into()));
+            let locked_revocations = self.revocations.lock().await;
+            for agent_id in &agent_ids {
+                for rev in locked_revocations
+                    .get_revocations_for_agent(agent_id)
+                    .unwrap_or_default()
+                {
+                    let hash: Digest<MembershipOperation<F, S, T, L>> =
+                        Digest::hash(rev.as_ref()).coerce();
+                    heads.push((hash, rev.into()));
                 }
             }
         }
 
-        ops
+        bfs_membership_ops(heads).await
     }
 
     /// Compute membership ops for all agents in a single pass.
diff --git a/keyhive_core/src/principal/group/membership_operation.rs b/keyhive_core/src/principal/group/membership_operation.rs
index ab8e1cd..68a41ed 100644
--- a/keyhive_core/src/principal/group/membership_operation.rs
+++ b/keyhive_core/src/principal/group/membership_operation.rs
@@ -603,10 +603,10 @@ pub fn collect_membership_heads<
 
 /// Enqueue BFS edges from a single [`MembershipOperation`].
 ///
-/// For delegations, follows the proof chain and any `after_revocations`.
-/// When `follow_group_heads` is true, also enqueues the group delegate's
-/// own delegation heads (used during full BFS but not when extending from
-/// a single revocation).
+/// For delegations, follows the proof chain and any `after_revocations`. For
+/// delegations to a group or document, also enqueues the delegate's own
+/// delegation and revocation heads: nobody can make sense of the delegation
+/// without them.
 ///
 /// For revocations, follows the proof and revoke chains.
 async fn push_membership_edges<
@@ -618,7 +618,6 @@ async fn push_membership_edges<
     op: &MembershipOperation<F, S, T, L>,
     heads: &mut Vec<MembershipOpEntry<F, S, T, L>>,
     visited: &HashSet<Digest<MembershipOperation<F, S, T, L>>>,
-    follow_group_heads: bool,
 ) {
     match op {
         MembershipOperation::Delegation(dlg) => {
@@ -628,16 +627,22 @@ async fn push_membership_edges<
             for rev in dlg.payload.after_revocations.iter() {
                 heads.push((Digest::hash(rev.as_ref()).coerce(), rev.dupe().into()));
             }
-            if follow_group_heads {
-                if let Agent::Group(_group_id, group) = &dlg.payload.delegate {
-                    for dlg in group.lock().await.delegation_heads().values() {
-                        let dlg_hash = Digest::hash(dlg.as_ref()).coerce();
-                        if !visited.contains(&dlg_hash) {
-                            heads.push((dlg_hash, dlg.dupe().into()));
-                        }
-                    }
+            let delegate_heads = match &dlg.payload.delegate {
+                Agent::Group(_group_id, group) => {
+                    let locked = group.lock().await;
+                    collect_membership_heads(locked.delegation_heads(), locked.revocation_heads())
                 }
-            }
+                Agent::Document(_doc_id, doc) => {
+                    let locked = doc.lock().await;
+                    collect_membership_heads(locked.delegation_heads(), locked.revocation_heads())
+                }
+                Agent::Active(..) | Agent::Individual(..) => Vec::new(),
+            };
+            heads.extend(
+                delegate_heads
+                    .into_iter()
+                    .filter(|(hash, _)| !visited.contains(hash)),
+            );
         }
         MembershipOperation::Revocation(rev) => {
             if let Some(proof) = &rev.payload.proof {
@@ -650,8 +655,8 @@ async fn push_membership_edges<
 }
 
 /// Walk all [`MembershipOperation`]s reachable from the given heads via BFS,
-/// following proof chains, revoke chains, and (for delegations to groups) the
-/// group's own delegation heads. Returns a map keyed by digest.
+/// following proof chains, revoke chains, and (for delegations to groups and
+/// documents) the delegate's own heads. Returns a map keyed by digest.
 pub async fn bfs_membership_ops<
     F: FutureForm,
     S: AsyncSigner<F>,
@@ -668,7 +673,7 @@ pub async fn bfs_membership_ops<
             continue;
         }
         visited.insert(hash);
-        push_membership_edges(&op, &mut heads, &visited, true).await;
+        push_membership_edges(&op, &mut heads, &visited).await;
         ops.insert(hash, op);
     }
 
@@ -701,7 +706,7 @@ pub async fn bfs_extend_from_revocation<
             continue;
         }
         visited.insert(hash);
-        push_membership_edges(&op, &mut heads, visited, false).await;
+        push_membership_edges(&op, &mut heads, visited).await;
         all_ops.entry(hash).or_insert(op);
     }
 }
-- 
2.43.0


From 29ae85d9d83a5fc03a85157f116592287211999b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:14 +0000
Subject: [PATCH 32/57] fix: members are sent the prekeys of former members

---
 keyhive_core/src/keyhive.rs | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index c696046..65f1598 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -1080,6 +1080,17 @@ impl<
             }
         }
 
+        // Membership operations also name former members, and can't be understood
+        // without knowing them
+        for op in self.membership_ops_for_agent(agent).await.values() {
+            if let MembershipOperation::Delegation(dlg) = op {
+                let delegate = &dlg.payload.delegate;
+                if !map.contains_key(&delegate.id()) {
+                    add_many_keys(&mut map, delegate.id(), delegate.key_ops().await);
+                }
+            }
+        }
+
         map.into_iter()
             .map(|(id, keys)| (id, KeyOp::topsort(&keys)))
             .collect()
@@ -1174,6 +1185,23 @@ impl<
             }
         }
 
+        // Membership operations also name former members, and can't be understood
+        // without knowing them
+        let membership = self.membership_ops_for_all_agents().await;
+        let mut source_delegates: HashMap<Identifier, HashSet<Identifier>> = HashMap::new();
+        for (source_id, source_ops) in &membership.ops {
+            let delegates = source_delegates.entry(*source_id).or_default();
+            for op in source_ops.values() {
+                if let MembershipOperation::Delegation(dlg) = op {
+                    let delegate = &dlg.payload.delegate;
+                    delegates.insert(delegate.id());
+                    if let Entry::Vacant(e) = key_ops_cache.entry(delegate.id()) {
+                        e.insert(delegate.key_ops().await);
+                    }
+                }
+            }
+        }
+
         // Include all registered individuals (even those not in any group/doc)
         for (id, indie) in self.individuals.lock().await.iter() {
             let agent_id: Identifier = (*id).into();
@@ -1223,6 +1251,15 @@ impl<
             }
         }
 
+        for (agent_id, source_ids) in &membership.index {
+            let entry = index.entry(*agent_id).or_default();
+            entry.insert(active_id);
+            entry.insert(*agent_id);
+            for source_id in source_ids {
+                entry.extend(source_delegates.get(source_id).into_iter().flatten());
+            }
+        }
+
         AllReachablePrekeyOps { ops, index }
     }
 
-- 
2.43.0


From 068f4cc417455e963fa0cc4b671d5990a12b8d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:14 +0000
Subject: [PATCH 33/57] fix: who was revoked is still known after loading an
 archive

---
 keyhive_core/src/keyhive.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 65f1598..79e01aa 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -2193,6 +2193,8 @@ impl<
                     .collect(),
             )
             .await?;
+            // The archive doesn't say which revocations are in effect
+            locked_group.rebuild().await;
         }
 
         for (doc_id, doc) in docs.iter() {
@@ -2216,6 +2218,7 @@ impl<
                     .collect(),
             )
             .await?;
+            locked_doc.group.rebuild().await;
         }
 
         let mut pending_events = Vec::new();
-- 
2.43.0


From 1627c0c5ae2777b0576619b70175f734b97a73d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:55 +0000
Subject: [PATCH 34/57] fix: bytes from a peer that name a huge tree index
 don't make decoding panic

---
 beekem/src/treemath.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/beekem/src/treemath.rs b/beekem/src/treemath.rs
index e8d037b..c0a4690 100644
--- a/beekem/src/treemath.rs
+++ b/beekem/src/treemath.rs
@@ -199,7 +199,13 @@ impl TreeNodeIndex {
 
 impl Ord for TreeNodeIndex {
     fn cmp(&self, other: &TreeNodeIndex) -> Ordering {
-        self.u32().cmp(&other.u32())
+        // Indices that came from elsewhere need not fit into a tree: doubled,
+        // they may not even fit into 32 bits.
+        let position = |index: &TreeNodeIndex| match index {
+            TreeNodeIndex::Leaf(leaf) => u64::from(leaf.0) * 2,
+            TreeNodeIndex::Inner(inner) => u64::from(inner.0) * 2 + 1,
+        };
+        position(self).cmp(&position(other))
     }
 }
 
-- 
2.43.0


From b4616c26b7125e2f1e75aa5b617044e932b5b84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:44 +0000
Subject: [PATCH 35/57] fix: what a ciphertext claims about its update isn't
 taken into the CGKA's key table

---
 beekem/src/cgka.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/beekem/src/cgka.rs b/beekem/src/cgka.rs
index d8b1b71..2087ab0 100644
--- a/beekem/src/cgka.rs
+++ b/beekem/src/cgka.rs
@@ -217,9 +217,6 @@ impl Cgka {
     ) -> Result<SymmetricKey, CgkaError> {
         let pcs_key =
             self.pcs_key_from_hashes(&encrypted.pcs_key_hash, &encrypted.pcs_update_op_hash)?;
-        if !self.pcs_keys.contains_key(&encrypted.pcs_key_hash) {
-            self.insert_pcs_key(&pcs_key, encrypted.pcs_update_op_hash);
-        }
         let app_secret = pcs_key.derive_application_secret(
             &encrypted.nonce,
             &encrypted.content_ref,
@@ -526,6 +523,11 @@ impl Cgka {
         if self.has_pcs_key() {
             if let Ok(pcs_key) = self.pcs_key_from_tree_root() {
                 if &Digest::hash(&pcs_key) == pcs_key_hash {
+                    // Not `update_op_hash`, which is whatever the ciphertext claims.
+                    // `has_pcs_key()` above guarantees a single head.
+                    if let Some(head) = self.ops_graph.cgka_op_heads.iter().next().copied() {
+                        self.insert_pcs_key(&pcs_key, head);
+                    }
                     return Ok(pcs_key);
                 }
             }
@@ -545,6 +547,10 @@ impl Cgka {
         let mut heads = Set::new();
         heads.insert(*op_hash);
         let ops = self.ops_graph.topsort_for_heads(&heads)?;
+        // Only updates establish a key
+        if !matches!(ops.last()[0].payload, CgkaOperation::Update { .. }) {
+            return Err(CgkaError::UnknownPcsKey);
+        }
         self.rebuild_pcs_key(ops)
     }
 
-- 
2.43.0


From 36cba63059a857c547554256aa7d3b67f2c8c69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:44 +0000
Subject: [PATCH 36/57] fix: causal decryption keeps the keys of ancestors it
 couldn't get

---
 keyhive_core/src/principal/document.rs |  7 ++++++-
 keyhive_core/src/store/ciphertext.rs   | 13 ++++++++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/keyhive_core/src/principal/document.rs b/keyhive_core/src/principal/document.rs
index 259bbcf..b129ca8 100644
--- a/keyhive_core/src/principal/document.rs
+++ b/keyhive_core/src/principal/document.rs
@@ -619,7 +619,12 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             }
         }
 
-        Ok(store.try_causal_decrypt(&mut to_decrypt).await?)
+        let mut result = store.try_causal_decrypt(&mut to_decrypt).await;
+        match &mut result {
+            Ok(progress) => progress.next.extend(acc.next),
+            Err(e) => e.progress.next.extend(acc.next),
+        }
+        Ok(result?)
     }
 
     #[instrument(skip_all)]
diff --git a/keyhive_core/src/store/ciphertext.rs b/keyhive_core/src/store/ciphertext.rs
index c9e9f00..eee74f9 100644
--- a/keyhive_core/src/store/ciphertext.rs
+++ b/keyhive_core/src/store/ciphertext.rs
@@ -201,12 +201,15 @@ impl<F: FutureForm, Cr: ContentRef, T, S: CiphertextStore<F, Cr, T>> CiphertextS
                                 for (ancestor_ref, ancestor_key) in envelope.ancestors.iter() {
                                     match self.get_ciphertext(ancestor_ref).await {
                                         Err(e) => {
-                                            seen.remove(&content_ref);
+                                            // The only way to it is through this envelope,
+                                            // so don't lose its key.
+                                            progress
+                                                .next
+                                                .insert(ancestor_ref.clone(), *ancestor_key);
                                             cannot.insert(
-                                                content_ref.clone(),
+                                                ancestor_ref.clone(),
                                                 ErrorReason::GetCiphertextError(e),
                                             );
-                                            continue;
                                         }
                                         Ok(None) => {
                                             progress
@@ -228,6 +231,10 @@ impl<F: FutureForm, Cr: ContentRef, T, S: CiphertextStore<F, Cr, T>> CiphertextS
                 }
             }
 
+            // What couldn't be had one way may have been had another way
+            cannot.retain(|id, _| !seen.contains(id));
+            progress.next.retain(|id, _| !seen.contains(id));
+
             for id in progress.complete.iter().map(|(id, _)| id) {
                 if let Err(e) = self.mark_decrypted(id).await {
                     cannot.insert(id.clone(), ErrorReason::MarkDecryptedError(e));
-- 
2.43.0


From 40c186e44728957f0895314f63c07370562cbb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:44 +0000
Subject: [PATCH 37/57] fix: removing a ciphertext from the memory store keeps
 its indices right

---
 keyhive_core/src/store/ciphertext/memory.rs | 72 ++++++++++++---------
 1 file changed, 42 insertions(+), 30 deletions(-)

diff --git a/keyhive_core/src/store/ciphertext/memory.rs b/keyhive_core/src/store/ciphertext/memory.rs
index 590a662..0b1f176 100644
--- a/keyhive_core/src/store/ciphertext/memory.rs
+++ b/keyhive_core/src/store/ciphertext/memory.rs
@@ -33,6 +33,39 @@ pub struct MemoryCiphertextStoreInner<Cr: ContentRef, P> {
         HashMap<Digest<EncryptedContent<P, Cr>>, (ByteSize, Arc<EncryptedContent<P, Cr>>)>,
 }
 
+impl<Cr: ContentRef, P> MemoryCiphertextStoreInner<Cr, P> {
+    /// Drop `encrypted`, which was removed from the store, from the indices.
+    fn forget(
+        &mut self,
+        digest: &Digest<EncryptedContent<P, Cr>>,
+        encrypted: &EncryptedContent<P, Cr>,
+    ) {
+        let mut same_op_remains = false;
+        if let Some(digests) = self.refs_to_digests.get_mut(&encrypted.content_ref) {
+            digests.remove(digest);
+            same_op_remains = digests.iter().any(|other| {
+                self.store.get(other).is_some_and(|(_, other)| {
+                    other.pcs_update_op_hash == encrypted.pcs_update_op_hash
+                })
+            });
+            if digests.is_empty() {
+                self.refs_to_digests.remove(&encrypted.content_ref);
+            }
+        }
+
+        if same_op_remains {
+            return;
+        }
+
+        if let Some(refs) = self.ops_to_refs.get_mut(&encrypted.pcs_update_op_hash) {
+            refs.remove(&encrypted.content_ref);
+            if refs.is_empty() {
+                self.ops_to_refs.remove(&encrypted.pcs_update_op_hash);
+            }
+        }
+    }
+}
+
 impl<Cr: ContentRef, P> MemoryCiphertextStore<Cr, P> {
     #[instrument(level = "debug")]
     pub fn new() -> Self {
@@ -76,7 +109,10 @@ impl<Cr: ContentRef, P> MemoryCiphertextStore<Cr, P> {
                     if let Some(digests) = locked.refs_to_digests.get(content_ref) {
                         for digest in digests.iter() {
                             if let Some((_, encrypted)) = locked.store.get(digest) {
-                                acc.push(encrypted.dupe());
+                                // The same content may also be encrypted for other updates
+                                if encrypted.pcs_update_op_hash == *pcs_update_op {
+                                    acc.push(encrypted.dupe());
+                                }
                             }
                         }
                     }
@@ -133,33 +169,7 @@ impl<Cr: ContentRef, P> MemoryCiphertextStore<Cr, P> {
         let mut locked = self.0.lock().await;
         let (_, encrypted) = locked.store.remove(digest)?;
 
-        locked
-            .ops_to_refs
-            .entry(encrypted.pcs_update_op_hash)
-            .and_modify(|crs| {
-                crs.remove(&encrypted.content_ref);
-            });
-
-        if locked
-            .ops_to_refs
-            .get(&encrypted.pcs_update_op_hash)?
-            .is_empty()
-        {
-            locked.ops_to_refs.remove(&encrypted.pcs_update_op_hash);
-        }
-
-        locked
-            .refs_to_digests
-            .entry(encrypted.content_ref.clone())
-            .and_modify(|digests| {
-                digests.remove(digest);
-            });
-
-        if let Some(digests) = locked.refs_to_digests.get(&encrypted.content_ref) {
-            if digests.is_empty() {
-                locked.refs_to_digests.remove(&encrypted.content_ref);
-            }
-        }
+        locked.forget(digest, &encrypted);
 
         Some(encrypted)
     }
@@ -167,9 +177,11 @@ impl<Cr: ContentRef, P> MemoryCiphertextStore<Cr, P> {
     #[instrument(level = "debug", skip(self))]
     pub async fn remove_all(&self, content_ref: &Cr) -> bool {
         let mut locked = self.0.lock().await;
-        if let Some(digests) = locked.refs_to_digests.remove(content_ref) {
+        if let Some(digests) = locked.refs_to_digests.get(content_ref).cloned() {
             for digest in digests.iter() {
-                locked.store.remove(digest);
+                if let Some((_, encrypted)) = locked.store.remove(digest) {
+                    locked.forget(digest, &encrypted);
+                }
             }
             true
         } else {
-- 
2.43.0


From 91fb9ce4c1d60aa2d0d69d3649f7e37aafae6220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:24 +0000
Subject: [PATCH 38/57] fix: changes made at the same time don't undo each
 other, and aren't stored by halves

---
 keyhive_core/src/keyhive.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 79e01aa..a6f107f 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -127,6 +127,12 @@ pub struct Keyhive<
     /// Cryptographically secure (pseudo)random number generator.
     csprng: Arc<Mutex<R>>,
 
+    /// Held throughout a change to who is a member of what, which touches several
+    /// of the above, so that nothing else sees or stores half of it.
+    ///
+    /// Always the first lock to be taken.
+    changing: Arc<Mutex<()>>,
+
     _plaintext_phantom: PhantomData<P>,
 }
 
@@ -200,6 +206,7 @@ impl<
             ciphertext_store,
             event_listener,
             csprng: Arc::new(Mutex::new(csprng)),
+            changing: Default::default(),
             _plaintext_phantom: PhantomData,
         })
     }
@@ -248,6 +255,7 @@ impl<
         &self,
         coparents: Vec<Peer<F, S, T, L>>,
     ) -> Result<Arc<Mutex<Group<F, S, T, L>>>, SigningError> {
+        let _changing = self.changing.lock().await;
         let group = Group::generate(
             NonEmpty {
                 head: Agent::Active(self.active.lock().await.id(), self.active.dupe()),
@@ -273,6 +281,7 @@ impl<
         coparents: Vec<Peer<F, S, T, L>>,
         initial_content_heads: NonEmpty<T>,
     ) -> Result<Arc<Mutex<Document<F, S, T, L>>>, GenerateDocError> {
+        let _changing = self.changing.lock().await;
         for peer in coparents.iter() {
             if self.get_agent(peer.id()).await.is_none() {
                 self.register_peer(peer.dupe()).await;
@@ -342,6 +351,7 @@ impl<
         &self,
         contact_card: &ContactCard,
     ) -> Result<Arc<Mutex<Individual>>, ReceivePrekeyOpError> {
+        let _changing = self.changing.lock().await;
         contact_card.op().try_verify()?;
 
         // As in `receive_prekey_op`, Public's individual can never expand or rotate.
@@ -495,6 +505,7 @@ impl<
         can: Access,
         other_relevant_docs: &[Arc<Mutex<Document<F, S, T, L>>>], // TODO make this automatic
     ) -> Result<AddMemberUpdate<F, S, T, L>, AddMemberError> {
+        let _changing = self.changing.lock().await;
         let signer = { self.active.lock().await.signer.clone() };
         let mut update = match resource {
             Membered::Group(_, group) => {
@@ -557,6 +568,7 @@ impl<
         retain_all_other_members: bool,
         resource: &Membered<F, S, T, L>,
     ) -> Result<RevokeMemberUpdate<F, S, T, L>, RevokeMemberError> {
+        let _changing = self.changing.lock().await;
         let mut relevant_docs = BTreeMap::new();
         for (doc_id, Ability { doc, .. }) in self.reachable_docs().await {
             let locked = doc.lock().await;
@@ -1728,6 +1740,14 @@ impl<
     pub async fn receive_static_event(
         &self,
         static_event: StaticEvent<T>,
+    ) -> Result<(), ReceiveStaticEventError<F, S, T, L>> {
+        let _changing = self.changing.lock().await;
+        self.apply_static_event(static_event).await
+    }
+
+    async fn apply_static_event(
+        &self,
+        static_event: StaticEvent<T>,
     ) -> Result<(), ReceiveStaticEventError<F, S, T, L>> {
         match static_event {
             StaticEvent::PrekeysExpanded(add_op) => {
@@ -1750,6 +1770,7 @@ impl<
         &self,
         static_op: &StaticMembershipOperation<T>,
     ) -> Result<(), ReceiveStaticDelegationError<F, S, T, L>> {
+        let _changing = self.changing.lock().await;
         match static_op {
             StaticMembershipOperation::Delegation(d) => self.receive_delegation(d).await?,
             StaticMembershipOperation::Revocation(r) => self.receive_revocation(r).await?,
@@ -1920,6 +1941,7 @@ impl<
 
     #[instrument(skip_all)]
     pub async fn into_archive(&self) -> Archive<T> {
+        let _changing = self.changing.lock().await;
         let topsorted_ops = {
             let delegations = self.delegations.lock().await;
             let revocations = self.revocations.lock().await;
@@ -2238,6 +2260,7 @@ impl<
             csprng,
             ciphertext_store,
             event_listener: listener,
+            changing: Default::default(),
             _plaintext_phantom: PhantomData,
         })
     }
@@ -2296,6 +2319,7 @@ impl<
         &self,
         mut events: Vec<StaticEvent<T>>,
     ) -> Vec<Arc<StaticEvent<T>>> {
+        let _changing = self.changing.lock().await;
         // FIXME: Some errors might not be recoverable on future attempts
         tracing::debug!("Keyhive::ingest_unsorted_static_events()");
         use std::collections::{HashMap, HashSet};
@@ -2319,7 +2343,7 @@ impl<
             let epoch_len = epoch.len();
 
             for event in epoch {
-                if let Err(e) = self.receive_static_event(event.clone()).await {
+                if let Err(e) = self.apply_static_event(event.clone()).await {
                     if matches!(e, ReceiveStaticEventError::ReceivePrekeyOpError(_)) {
                         tracing::warn!("Dropping unrecoverable prekey event: {:?}", e);
                     } else {
-- 
2.43.0


From 6e58335505e67aa4ff722ac89421980933607adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:24 +0000
Subject: [PATCH 39/57] fix: calls made at the same time don't wait for each
 other forever

---
 keyhive_core/src/keyhive.rs            | 34 ++++++++++++++++----------
 keyhive_core/src/principal/document.rs | 21 ++++++++++------
 keyhive_core/src/principal/group.rs    |  8 +++---
 3 files changed, 40 insertions(+), 23 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index a6f107f..c3b7bac 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -652,9 +652,10 @@ impl<
     ) -> Result<(EncryptedContentWithUpdate<T>, SymmetricKey), EncryptContentError> {
         let signer = { self.active.lock().await.signer.clone() };
         let (result, application_secret_key) = {
+            // The CSPRNG last: whoever holds a document may be waiting for it
+            let mut locked_doc = doc.lock().await;
             let mut locked_csprng = self.csprng.lock().await;
-            doc.lock()
-                .await
+            locked_doc
                 .try_encrypt_content_keyed(
                     content_ref,
                     content,
@@ -715,12 +716,12 @@ impl<
         doc: Arc<Mutex<Document<F, S, T, L>>>,
     ) -> Result<(Signed<CgkaOperation>, ShareKey, ShareSecretKey), EncryptError> {
         let signer = { self.active.lock().await.signer.clone() };
-        let mut locked_csprng = self.csprng.lock().await;
-        let (op, new_share_key, new_share_secret_key) = doc
-            .lock()
-            .await
-            .pcs_update(&signer, &mut *locked_csprng)
-            .await?;
+        let (op, new_share_key, new_share_secret_key) = {
+            // The CSPRNG last: whoever holds a document may be waiting for it
+            let mut locked_doc = doc.lock().await;
+            let mut locked_csprng = self.csprng.lock().await;
+            locked_doc.pcs_update(&signer, &mut *locked_csprng).await?
+        };
         self.event_listener.on_cgka_op(&Arc::new(op.clone())).await;
         Ok((op, new_share_key, new_share_secret_key))
     }
@@ -2485,12 +2486,19 @@ impl<
             }
         }
 
+        // One at a time: within an expression, each lock would be held until all are counted
+        let individuals = self.individuals.lock().await.len() as u64;
+        let groups = self.groups.lock().await.len() as u64;
+        let docs = self.docs.lock().await.len() as u64;
+        let delegations = self.delegations.lock().await.len() as u64;
+        let revocations = self.revocations.lock().await.len() as u64;
+
         Stats {
-            individuals: self.individuals.as_ref().lock().await.len() as u64,
-            groups: self.groups.as_ref().lock().await.len() as u64,
-            docs: self.docs.as_ref().lock().await.len() as u64,
-            delegations: self.delegations.lock().await.len() as u64,
-            revocations: self.revocations.lock().await.len() as u64,
+            individuals,
+            groups,
+            docs,
+            delegations,
+            revocations,
             prekeys_expanded,
             prekey_rotations,
             cgka_operations,
diff --git a/keyhive_core/src/principal/document.rs b/keyhive_core/src/principal/document.rs
index b129ca8..1ab1293 100644
--- a/keyhive_core/src/principal/document.rs
+++ b/keyhive_core/src/principal/document.rs
@@ -177,8 +177,9 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             _ => None,
         });
 
-        let mut locked_csprng = csprng.lock().await;
-        let (group_result, group_vk) =
+        // Don't hold on to the CSPRNG: what follows waits for others that may be waiting for it.
+        let (group_result, group_vk) = {
+            let mut locked_csprng = csprng.lock().await;
             EphemeralSigner::with_signer(&mut *locked_csprng, |verifier, signer| {
                 Group::generate_after_content(
                     signer,
@@ -192,12 +193,16 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                     )]),
                     listener,
                 )
-            });
+            })
+        };
 
         let group = group_result.await?;
         let owner_id = IndividualId(group_vk.into());
         let doc_id = DocumentId(group.id());
-        let owner_share_secret_key = ShareSecretKey::generate(&mut *locked_csprng);
+        let owner_share_secret_key = {
+            let mut locked_csprng = csprng.lock().await;
+            ShareSecretKey::generate(&mut *locked_csprng)
+        };
         let owner_share_key = owner_share_secret_key.share_key();
         let group_members = group.pick_individual_prekeys(doc_id).await;
         let other_members: Vec<(IndividualId, ShareKey)> = group_members
@@ -216,14 +221,16 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             ops.extend(cgka.add_multiple(others, signer).await?.iter().cloned());
         }
 
-        let (_pcs_key, update_op) = cgka
-            .update(
+        let (_pcs_key, update_op) = {
+            let mut locked_csprng = csprng.lock().await;
+            cgka.update(
                 owner_share_key,
                 owner_share_secret_key,
                 signer,
                 &mut *locked_csprng,
             )
-            .await?;
+            .await?
+        };
 
         ops.push(update_op);
 
diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index 30584ad..d570e1c 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -137,8 +137,9 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         listener: L,
         csprng: Arc<Mutex<R>>,
     ) -> Result<Group<F, S, T, L>, SigningError> {
-        let mut locked_csprng = csprng.lock().await;
-        let (group_result, _vk) =
+        // Don't hold on to the CSPRNG: what follows waits for others that may be waiting for it.
+        let (group_result, _vk) = {
+            let mut locked_csprng = csprng.lock().await;
             EphemeralSigner::with_signer(&mut *locked_csprng, |verifier, signer| {
                 Self::generate_after_content(
                     signer,
@@ -149,7 +150,8 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                     Default::default(),
                     listener,
                 )
-            });
+            })
+        };
 
         group_result.await
     }
-- 
2.43.0


From 7eba70e560bb564385ff286a333e005d08583026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:04 +0000
Subject: [PATCH 40/57] fix: queries don't hold on to a group while looking
 into its members

---
 keyhive_core/src/keyhive.rs            | 57 ++++++++++++++++----------
 keyhive_core/src/principal/document.rs | 15 ++++---
 keyhive_core/src/principal/group.rs    | 43 ++++++++++++++-----
 keyhive_core/src/principal/membered.rs | 21 ++++++++--
 4 files changed, 94 insertions(+), 42 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index c3b7bac..5c8d9d2 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -740,10 +740,7 @@ impl<
         &self,
         membered: Membered<F, S, T, L>,
     ) -> HashMap<Identifier, (Agent<F, S, T, L>, Access)> {
-        match membered {
-            Membered::Group(_, group) => group.lock().await.transitive_members().await,
-            Membered::Document(_, doc) => doc.lock().await.transitive_members().await,
-        }
+        membered.transitive_members().await
     }
 
     #[instrument(skip_all)]
@@ -756,10 +753,13 @@ impl<
         // TODO will be very slow on large hives. Old code here: https://github.com/inkandswitch/keyhive/pull/111/files:
         let docs = { self.docs.lock().await.values().cloned().collect::<Vec<_>>() };
         for doc in docs {
-            let locked = doc.lock().await;
-            if let Some((_, cap)) = locked.transitive_members().await.get(&agent.id()) {
+            let (doc_id, transitive) = {
+                let locked = doc.lock().await;
+                (locked.doc_id(), locked.transitive_members())
+            };
+            if let Some((_, cap)) = transitive.await.get(&agent.id()) {
                 caps.insert(
-                    locked.doc_id(),
+                    doc_id,
                     Ability {
                         doc: doc.dupe(),
                         can: *cap,
@@ -788,19 +788,25 @@ impl<
                 .collect::<Vec<_>>()
         };
         for group in groups {
-            let locked = group.lock().await;
-            if let Some((_, can)) = locked.transitive_members().await.get(&agent.id()) {
-                let membered = Membered::Group(locked.group_id(), group.dupe());
-                caps.insert(locked.group_id().into(), (membered, *can));
+            let (group_id, transitive) = {
+                let locked = group.lock().await;
+                (locked.group_id(), locked.transitive_members())
+            };
+            if let Some((_, can)) = transitive.await.get(&agent.id()) {
+                let membered = Membered::Group(group_id, group.dupe());
+                caps.insert(group_id.into(), (membered, *can));
             }
         }
 
         let docs = { self.docs.lock().await.values().cloned().collect::<Vec<_>>() };
         for doc in docs {
-            let locked = doc.lock().await;
-            if let Some((_, can)) = locked.transitive_members().await.get(&agent.id()) {
-                let membered = Membered::Document(locked.doc_id(), doc.dupe());
-                caps.insert(locked.doc_id().into(), (membered, *can));
+            let (doc_id, transitive) = {
+                let locked = doc.lock().await;
+                (locked.doc_id(), locked.transitive_members())
+            };
+            if let Some((_, can)) = transitive.await.get(&agent.id()) {
+                let membered = Membered::Document(doc_id, doc.dupe());
+                caps.insert(doc_id.into(), (membered, *can));
             }
         }
 
@@ -960,9 +966,10 @@ impl<
                 (
                     locked.group_id(),
                     collect_membership_heads(locked.delegation_heads(), locked.revocation_heads()),
-                    locked.transitive_members().await,
+                    locked.transitive_members(),
                 )
             };
+            let transitive = transitive.await;
             let source_id: Identifier = group_id.into();
             ops.insert(source_id, bfs_membership_ops(heads).await);
 
@@ -979,9 +986,10 @@ impl<
                 (
                     locked.doc_id(),
                     collect_membership_heads(locked.delegation_heads(), locked.revocation_heads()),
-                    locked.transitive_members().await,
+                    locked.transitive_members(),
                 )
             };
+            let transitive = transitive.await;
             let source_id: Identifier = doc_id.into();
             ops.insert(source_id, bfs_membership_ops(heads).await);
 
@@ -1055,8 +1063,9 @@ impl<
         for group in groups {
             let (group_id, transitive) = {
                 let locked = group.lock().await;
-                (locked.group_id(), locked.transitive_members().await)
+                (locked.group_id(), locked.transitive_members())
             };
+            let transitive = transitive.await;
             if transitive.contains_key(&agent.id()) {
                 add_many_keys(
                     &mut map,
@@ -1076,8 +1085,9 @@ impl<
         for doc in docs {
             let (doc_id, transitive) = {
                 let locked = doc.lock().await;
-                (locked.doc_id(), locked.transitive_members().await)
+                (locked.doc_id(), locked.transitive_members())
             };
+            let transitive = transitive.await;
             if transitive.contains_key(&agent.id()) {
                 add_many_keys(
                     &mut map,
@@ -1149,8 +1159,9 @@ impl<
         for group in groups {
             let (group_id, transitive) = {
                 let locked = group.lock().await;
-                (locked.group_id(), locked.transitive_members().await)
+                (locked.group_id(), locked.transitive_members())
             };
+            let transitive = transitive.await;
             group_data.push((group_id, group, transitive));
         }
 
@@ -1164,8 +1175,9 @@ impl<
         for doc in docs {
             let (doc_id, transitive) = {
                 let locked = doc.lock().await;
-                (locked.doc_id(), locked.transitive_members().await)
+                (locked.doc_id(), locked.transitive_members())
             };
+            let transitive = transitive.await;
             doc_data.push((doc_id, doc, transitive));
         }
 
@@ -1307,8 +1319,9 @@ impl<
                     continue;
                 }
 
-                (doc_id, doc_ops, locked.transitive_members().await)
+                (doc_id, doc_ops, locked.transitive_members())
             };
+            let transitive = transitive.await;
 
             let source_id: Identifier = doc_id.into();
             for agent_id in transitive.keys() {
diff --git a/keyhive_core/src/principal/document.rs b/keyhive_core/src/principal/document.rs
index 1ab1293..0416d17 100644
--- a/keyhive_core/src/principal/document.rs
+++ b/keyhive_core/src/principal/document.rs
@@ -54,6 +54,7 @@ use nonempty::NonEmpty;
 use serde::{Deserialize, Serialize};
 use std::{
     collections::{BTreeMap, HashMap, HashSet},
+    future::Future,
     hash::{Hash, Hasher},
     sync::Arc,
 };
@@ -129,16 +130,20 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         self.group.members()
     }
 
-    pub async fn transitive_members(&self) -> HashMap<Identifier, (Agent<F, S, T, L>, Access)> {
-        self.group.transitive_members().await
+    /// See [`Group::transitive_members`].
+    #[allow(clippy::type_complexity)]
+    pub fn transitive_members(
+        &self,
+    ) -> impl Future<Output = HashMap<Identifier, (Agent<F, S, T, L>, Access)>> {
+        self.group.transitive_members()
     }
 
     #[allow(clippy::type_complexity)]
-    pub(crate) async fn transitive_members_outside(
+    pub(crate) fn transitive_members_outside(
         &self,
         locked: Identifier,
-    ) -> HashMap<Identifier, (Agent<F, S, T, L>, Access)> {
-        self.group.transitive_members_outside(locked).await
+    ) -> impl Future<Output = HashMap<Identifier, (Agent<F, S, T, L>, Access)>> {
+        self.group.transitive_members_outside(locked)
     }
 
     pub fn revoked_members(&self) -> HashMap<Identifier, (Agent<F, S, T, L>, Access)> {
diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index d570e1c..b4c5259 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -50,6 +50,7 @@ use nonempty::{nonempty, NonEmpty};
 use serde::{Deserialize, Serialize};
 use std::{
     collections::{BTreeMap, HashMap, HashSet},
+    future::Future,
     hash::{Hash, Hasher},
     sync::Arc,
 };
@@ -236,12 +237,14 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
     }
 
     pub async fn individual_ids(&self) -> HashSet<IndividualId> {
-        let mut ids = HashSet::new();
-        for delegations in self.members.values() {
-            let more_ids = delegations[0].payload().delegate.individual_ids().await;
-            ids.extend(more_ids.iter());
-        }
-        ids
+        self.transitive_members()
+            .await
+            .into_values()
+            .filter_map(|(agent, _)| match agent {
+                Agent::Active(id, _) | Agent::Individual(id, _) => Some(id),
+                Agent::Group(..) | Agent::Document(..) => None,
+            })
+            .collect()
     }
 
     /// The individuals that can read this group's content, directly or through nested groups.
@@ -279,19 +282,28 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         &self.members
     }
 
+    /// Everyone that is a member, directly or through others.
+    ///
+    /// This looks into other groups and documents, which may have this one among their
+    /// members: don't keep this group locked while awaiting it, if others might do the same.
+    #[allow(clippy::type_complexity)]
     #[tracing::instrument(skip(self), fields(group_id = %self.group_id()))]
-    pub async fn transitive_members(&self) -> HashMap<Identifier, (Agent<F, S, T, L>, Access)> {
-        self.transitive_members_outside(self.id()).await
+    pub fn transitive_members(
+        &self,
+    ) -> impl Future<Output = HashMap<Identifier, (Agent<F, S, T, L>, Access)>> {
+        self.transitive_members_outside(self.id())
     }
 
     /// As [`Self::transitive_members`], but without looking into `locked`.
     ///
     /// Used on behalf of a group that is itself locked, and may be among the members.
     /// Paths through that group don't grant any more access to it.
-    pub(crate) async fn transitive_members_outside(
+    #[allow(clippy::type_complexity)]
+    pub(crate) fn transitive_members_outside(
         &self,
         locked: Identifier,
-    ) -> HashMap<Identifier, (Agent<F, S, T, L>, Access)> {
+    ) -> impl Future<Output = HashMap<Identifier, (Agent<F, S, T, L>, Access)>> {
+        let own_id = self.id();
         let mut explore: Vec<(Agent<F, S, T, L>, Access)> = vec![];
 
         for member in self.members.keys() {
@@ -302,13 +314,22 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             explore.push((dlg.payload.delegate.dupe(), dlg.payload.can));
         }
 
+        Self::explore_members(own_id, explore, locked)
+    }
+
+    #[allow(clippy::type_complexity)]
+    async fn explore_members(
+        own_id: Identifier,
+        mut explore: Vec<(Agent<F, S, T, L>, Access)>,
+        locked: Identifier,
+    ) -> HashMap<Identifier, (Agent<F, S, T, L>, Access)> {
         let mut caps: HashMap<Identifier, (Agent<F, S, T, L>, Access)> = HashMap::new();
 
         // A path grants the least access of any delegation along it,
         // and an agent has the most access that any of its paths grants.
         while let Some((member, access)) = explore.pop() {
             let id = member.id();
-            if id == self.id() {
+            if id == own_id {
                 continue;
             }
 
diff --git a/keyhive_core/src/principal/membered.rs b/keyhive_core/src/principal/membered.rs
index 0fbc064..4eced0c 100644
--- a/keyhive_core/src/principal/membered.rs
+++ b/keyhive_core/src/principal/membered.rs
@@ -99,9 +99,16 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
     }
 
     pub async fn transitive_members(&self) -> HashMap<Identifier, (Agent<F, S, T, L>, Access)> {
+        // Lock only for as long as it takes to find the direct members
         match self {
-            Membered::Group(_, group) => group.lock().await.transitive_members().await,
-            Membered::Document(_, doc) => doc.lock().await.transitive_members().await,
+            Membered::Group(_, group) => {
+                let rest = { group.lock().await.transitive_members() };
+                rest.await
+            }
+            Membered::Document(_, doc) => {
+                let rest = { doc.lock().await.transitive_members() };
+                rest.await
+            }
         }
     }
 
@@ -116,8 +123,14 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         }
 
         match self {
-            Membered::Group(_, group) => group.lock().await.transitive_members_outside(locked).await,
-            Membered::Document(_, doc) => doc.lock().await.transitive_members_outside(locked).await,
+            Membered::Group(_, group) => {
+                let rest = { group.lock().await.transitive_members_outside(locked) };
+                rest.await
+            }
+            Membered::Document(_, doc) => {
+                let rest = { doc.lock().await.transitive_members_outside(locked) };
+                rest.await
+            }
         }
     }
 
-- 
2.43.0


From 1a463f323a5ce58d4c0c202ff6b1a969eb5525c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:26 +0000
Subject: [PATCH 41/57] fix: what was encrypted in a transaction can be read
 after it was merged

---
 keyhive_core/src/keyhive.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 5c8d9d2..3d9cd64 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -2632,6 +2632,25 @@ where
                 .await
                 .expect("prechecked events to work");
         }
+
+        // The secrets behind our key updates in the fork aren't part of its events.
+        let forked_docs = { fork.docs.lock().await.clone() };
+        for (doc_id, forked_doc) in forked_docs {
+            let Ok(forked_sks) = forked_doc
+                .lock()
+                .await
+                .cgka()
+                .map(|c| c.owner_sks().clone())
+            else {
+                continue;
+            };
+            let doc = { locked.docs.lock().await.get(&doc_id).cloned() };
+            if let Some(doc) = doc {
+                if let Ok(cgka) = doc.lock().await.cgka_mut() {
+                    cgka.owner_sks_mut().extend(&forked_sks);
+                }
+            }
+        }
     }
 }
 
-- 
2.43.0


From 537d0998be35883e7d576002a931c7c8e21e73fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:31 +0000
Subject: [PATCH 42/57] fix: what is written is readable by exactly those that
 may read it

Changes of membership made at the same time can leave a document's CGKA
without some of its readers, or with members that can't read it any more.
Let the CGKA follow before encrypting.
---
 beekem/src/cgka.rs                     |  8 ++++++
 beekem/src/tree.rs                     |  5 ++++
 keyhive_core/src/cgka.rs               |  5 ++++
 keyhive_core/src/keyhive.rs            | 38 ++++++++++++++++++++++++++
 keyhive_core/src/principal/document.rs | 31 +++++++++++++++++++++
 5 files changed, 87 insertions(+)

diff --git a/beekem/src/cgka.rs b/beekem/src/cgka.rs
index 2087ab0..d3fc1ec 100644
--- a/beekem/src/cgka.rs
+++ b/beekem/src/cgka.rs
@@ -362,6 +362,14 @@ impl Cgka {
         self.tree.member_count()
     }
 
+    /// The current members, once everything received has been applied.
+    pub fn member_ids(&mut self) -> Result<Vec<MemberId>, CgkaError> {
+        if self.should_replay() {
+            self.replay_ops_graph()?;
+        }
+        Ok(self.tree.member_ids().copied().collect())
+    }
+
     /// Merges concurrent [`CgkaOperation`]. Returns `Ok(true)` if merge is successful.
     ///
     /// If we receive a concurrent membership change (i.e., add or remove), then
diff --git a/beekem/src/tree.rs b/beekem/src/tree.rs
index e4041ce..d690a54 100644
--- a/beekem/src/tree.rs
+++ b/beekem/src/tree.rs
@@ -180,6 +180,11 @@ impl BeeKem {
         self.id_to_leaf_idx.len() as u32
     }
 
+    /// The members currently in the tree.
+    pub fn member_ids(&self) -> impl Iterator<Item = &MemberId> {
+        self.id_to_leaf_idx.keys()
+    }
+
     /// Decrypt the current tree secret.
     ///
     /// Starting from the owner's leaf, move up the tree toward the root (i.e., along the
diff --git a/keyhive_core/src/cgka.rs b/keyhive_core/src/cgka.rs
index 03ae449..35a4a8e 100644
--- a/keyhive_core/src/cgka.rs
+++ b/keyhive_core/src/cgka.rs
@@ -198,6 +198,11 @@ impl Cgka {
         self.0.group_size()
     }
 
+    pub fn member_ids(&mut self) -> Result<Vec<IndividualId>, CgkaError> {
+        let ids = self.0.member_ids()?;
+        Ok(ids.into_iter().map(IndividualId::from).collect())
+    }
+
     pub fn merge_concurrent_operation(
         &mut self,
         op: Arc<Signed<CgkaOperation>>,
diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 3d9cd64..67a037a 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -551,6 +551,7 @@ impl<
             }
         }
 
+        self.use_own_prekeys(&update.cgka_ops).await;
         for cgka_op in &update.cgka_ops {
             self.event_listener
                 .on_cgka_op(&Arc::new(cgka_op.clone()))
@@ -560,6 +561,30 @@ impl<
         Ok(update)
     }
 
+    /// Let documents use the secrets of the prekeys that we have added ourselves with.
+    async fn use_own_prekeys(&self, ops: &[Signed<CgkaOperation>]) {
+        let (active_id, prekey_pairs) = {
+            let locked_active = self.active.lock().await;
+            (locked_active.id(), locked_active.prekey_pairs.dupe())
+        };
+        for op in ops {
+            let CgkaOperation::Add { added_id, pk, .. } = op.payload else {
+                continue;
+            };
+            if IndividualId::from(added_id) != active_id {
+                continue;
+            }
+            let sk = { prekey_pairs.lock().await.get(&pk).copied() };
+            let doc_id: DocumentId = (*op.payload.doc_id()).into();
+            let doc = { self.docs.lock().await.get(&doc_id).duped() };
+            if let (Some(sk), Some(doc)) = (sk, doc) {
+                if let Ok(cgka) = doc.lock().await.cgka_mut() {
+                    cgka.owner_sks_mut().insert(pk, sk);
+                }
+            }
+        }
+    }
+
     #[allow(clippy::type_complexity)]
     #[instrument(skip_all)]
     pub async fn revoke_member(
@@ -616,6 +641,7 @@ impl<
             }
         }
 
+        self.use_own_prekeys(&update.cgka_ops).await;
         for cgka_op in &update.cgka_ops {
             self.event_listener
                 .on_cgka_op(&Arc::new(cgka_op.clone()))
@@ -650,7 +676,19 @@ impl<
         pred_refs: &Vec<T>,
         content: &[u8],
     ) -> Result<(EncryptedContentWithUpdate<T>, SymmetricKey), EncryptContentError> {
+        let _changing = self.changing.lock().await;
         let signer = { self.active.lock().await.signer.clone() };
+        let ops = {
+            let mut locked_doc = doc.lock().await;
+            locked_doc
+                .align_cgka_with_readers(&signer)
+                .await
+                .map_err(EncryptError::FailedToMakeAppSecret)?
+        };
+        self.use_own_prekeys(&ops).await;
+        for op in ops {
+            self.event_listener.on_cgka_op(&Arc::new(op)).await;
+        }
         let (result, application_secret_key) = {
             // The CSPRNG last: whoever holds a document may be waiting for it
             let mut locked_doc = doc.lock().await;
diff --git a/keyhive_core/src/principal/document.rs b/keyhive_core/src/principal/document.rs
index 0416d17..a851538 100644
--- a/keyhive_core/src/principal/document.rs
+++ b/keyhive_core/src/principal/document.rs
@@ -396,6 +396,37 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         Ok(ops)
     }
 
+    /// Let exactly those that can read this document take part in its [`Cgka`].
+    ///
+    /// Changes made at the same time can leave the two apart, such as when a member was added
+    /// by someone that was removed meanwhile.
+    #[instrument(skip_all)]
+    pub(crate) async fn align_cgka_with_readers(
+        &mut self,
+        signer: &S,
+    ) -> Result<Vec<Signed<CgkaOperation>>, CgkaError> {
+        let readers = self.transitive_readers().await;
+        let me: IndividualId = Identifier(signer.verifying_key()).into();
+        if !readers.contains(&me) {
+            return Ok(vec![]);
+        }
+        let own_leaf: IndividualId = Identifier::from(self.doc_id()).into();
+        let members: HashSet<IndividualId> = self.cgka_mut()?.member_ids()?.into_iter().collect();
+
+        // Whoever joins goes first: those that leave may be all that there were.
+        let mut ops = vec![];
+        if !readers.is_subset(&members) {
+            let prekeys = self.pick_individual_prekeys().await;
+            ops.extend(self.add_cgka_members_from_prekeys(&prekeys, signer).await?);
+        }
+        for id in members {
+            if id != own_leaf && !readers.contains(&id) {
+                ops.extend(self.remove_cgka_member(id, signer).await?);
+            }
+        }
+        Ok(ops)
+    }
+
     #[instrument(skip_all)]
     pub async fn remove_cgka_member(
         &mut self,
-- 
2.43.0


From 5f2bb089e758c2d585a58214d3bd1f94b83be5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:20 +0000
Subject: [PATCH 43/57] fix: whoever may write a public document can bring
 Public back into its key tree

---
 keyhive_core/src/principal/document.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/keyhive_core/src/principal/document.rs b/keyhive_core/src/principal/document.rs
index a851538..e7b30a2 100644
--- a/keyhive_core/src/principal/document.rs
+++ b/keyhive_core/src/principal/document.rs
@@ -18,6 +18,7 @@ use crate::{
             Group, RevokeMemberError,
         },
         identifier::Identifier,
+        public::Public,
     },
     store::{
         ciphertext::{
@@ -407,7 +408,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
     ) -> Result<Vec<Signed<CgkaOperation>>, CgkaError> {
         let readers = self.transitive_readers().await;
         let me: IndividualId = Identifier(signer.verifying_key()).into();
-        if !readers.contains(&me) {
+        if !readers.contains(&me) && !readers.contains(&Public.id().into()) {
             return Ok(vec![]);
         }
         let own_leaf: IndividualId = Identifier::from(self.doc_id()).into();
-- 
2.43.0


From caaf1a4c4b0a6b670876d93d556513044d8b2e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:49 +0000
Subject: [PATCH 44/57] fix: of concurrent revocations, the most senior takes
 effect first

---
 keyhive_core/src/principal/group.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index b4c5259..e736eab 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -833,12 +833,31 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         #[allow(clippy::type_complexity)]
         let mut suspended_dlgs: Vec<Arc<Signed<Delegation<F, S, T, L>>>> = vec![];
 
-        let mut ops = MembershipOperation::reverse_topsort(
+        let mut reversed_ops = MembershipOperation::reverse_topsort(
             &self.state.delegation_heads,
             &self.state.revocation_heads,
         );
 
-        while let Some((_, op)) = ops.pop() {
+        // Dependencies are farther from the end than what rests on them. What is closer
+        // to the root takes precedence over what it's concurrent with.
+        let mut distance_to_root = HashMap::new();
+        let mut ops = vec![];
+        while let Some((digest, op)) = reversed_ops.pop() {
+            let distance = op
+                .after_auth()
+                .iter()
+                .filter_map(|parent| distance_to_root.get(&parent.digest()).copied())
+                .max()
+                .unwrap_or(0)
+                + 1;
+            distance_to_root.insert(digest, distance);
+            ops.push((distance, op.is_delegation(), digest, op));
+        }
+        ops.sort_by_key(|(distance, is_delegation, digest, _)| {
+            (*distance, *is_delegation, *digest)
+        });
+
+        for (_, _, _, op) in ops {
             // Operations may causally depend on those of other groups
             if op.subject_id() != self.id() {
                 continue;
-- 
2.43.0


From fcd34da0d426206da85162aedbfcc574a524b9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:49 +0000
Subject: [PATCH 45/57] fix: key operations that don't fit the tree, or begin
 it again, are refused

---
 beekem/src/cgka.rs         | 4 ++++
 beekem/src/secret_store.rs | 5 +++++
 beekem/src/tree.rs         | 9 +++++++--
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/beekem/src/cgka.rs b/beekem/src/cgka.rs
index d3fc1ec..cca9634 100644
--- a/beekem/src/cgka.rs
+++ b/beekem/src/cgka.rs
@@ -385,6 +385,10 @@ impl Cgka {
             return Ok(false);
         }
         let predecessors = op.payload.predecessors();
+        // There is only one initial operation
+        if predecessors.is_empty() {
+            return Err(CgkaError::InvalidOperation);
+        }
         if !self.ops_graph.contains_predecessors(&predecessors) {
             return Err(CgkaError::OutOfOrderOperation);
         }
diff --git a/beekem/src/secret_store.rs b/beekem/src/secret_store.rs
index a319cbf..5dc3980 100644
--- a/beekem/src/secret_store.rs
+++ b/beekem/src/secret_store.rs
@@ -38,6 +38,11 @@ impl SecretStore {
         }
     }
 
+    /// Whether this lacks any key, which only a malformed one does.
+    pub fn is_empty(&self) -> bool {
+        self.versions.is_empty()
+    }
+
     pub fn has_conflict(&self) -> bool {
         self.versions.len() > 1
     }
diff --git a/beekem/src/tree.rs b/beekem/src/tree.rs
index d690a54..9d33d9d 100644
--- a/beekem/src/tree.rs
+++ b/beekem/src/tree.rs
@@ -580,8 +580,13 @@ impl BeeKem {
         let leaf_idx = self
             .leaf_index_for_id(new_path.leaf_id)
             .expect("Id should be present");
-        new_path.path.len() == self.path_length_for(LeafNodeIndex::new(new_path.leaf_idx))
-            && leaf_idx.u32() == new_path.leaf_idx
+        // Keys in other places of the tree would outlast the leaf's removal.
+        leaf_idx.u32() == new_path.leaf_idx
+            && new_path.path.len() == self.path_length_for(*leaf_idx)
+            && treemath::direct_path((*leaf_idx).into(), self.tree_size)
+                .iter()
+                .zip(&new_path.path)
+                .all(|(expected, (idx, node))| expected.u32() == *idx && !node.is_empty())
     }
 
     /// Growing the tree will add a new root and a new subtree, all blank.
-- 
2.43.0


From 234768ca973c6c65e58713ef9ba937ca92dacd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:56 +0000
Subject: [PATCH 46/57] fix: a document's key operations count only with a key
 of the member's own

---
 keyhive_core/src/keyhive.rs | 76 +++++++++++++++++++++++++++++++++++++
 1 file changed, 76 insertions(+)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 67a037a..0239e4f 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -1846,6 +1846,8 @@ impl<
                 .dupe()
         };
 
+        self.check_cgka_op_authority(&signed_op).await?;
+
         let signed_op = Arc::new(signed_op);
         if let CgkaOperation::Add { added_id, pk, .. } = signed_op.payload {
             let added_id: IndividualId = added_id.into();
@@ -1897,6 +1899,80 @@ impl<
         Ok(())
     }
 
+    /// Only keys of a member's own may stand for it in a document's [`Cgka`].
+    async fn check_cgka_op_authority(
+        &self,
+        op: &Signed<CgkaOperation>,
+    ) -> Result<(), ReceiveCgkaOpError> {
+        let doc_id: Identifier = DocumentId::from(*op.payload.doc_id()).into();
+        match &op.payload {
+            CgkaOperation::Add {
+                added_id,
+                pk,
+                predecessors,
+                ..
+            } => {
+                let added_id: Identifier = IndividualId::from(*added_id).into();
+                if predecessors.is_empty() {
+                    // The document's own leaf, put there by one of those it was made for
+                    if added_id != doc_id {
+                        return Err(CgkaError::InvalidOperation.into());
+                    }
+                    let issuer = Identifier(op.issuer);
+                    let issued_by_parent = self.delegations.lock().await.values().any(|dlg| {
+                        dlg.subject_id() == doc_id
+                            && dlg.payload.proof.is_none()
+                            && dlg.payload.delegate.id() == issuer
+                    });
+                    if !issued_by_parent {
+                        return Err(CgkaError::OutOfOrderOperation.into());
+                    }
+                    return Ok(());
+                }
+                if added_id == self.id().into() {
+                    // Our own keys are those that we have the secret of
+                    return Ok(());
+                }
+                let known_prekey = match self.get_agent(added_id).await {
+                    Some(agent) => agent
+                        .key_ops()
+                        .await
+                        .values()
+                        .any(|key_op| key_op.new_key() == pk),
+                    None => false,
+                };
+                if !known_prekey {
+                    return Err(ReceiveCgkaOpError::UnknownInvitePrekey(*pk));
+                }
+            }
+            CgkaOperation::Update { id, new_path, .. } => {
+                if new_path.leaf_id != *id {
+                    return Err(CgkaError::InvalidOperation.into());
+                }
+                let id: Identifier = IndividualId::from(*id).into();
+                if id == doc_id {
+                    let doc = { self.docs.lock().await.get(&DocumentId(doc_id)).duped() };
+                    let creator = match doc {
+                        Some(doc) => doc.lock().await.cgka()?.init_add_op().issuer,
+                        None => return Err(CgkaError::NotInitialized.into()),
+                    };
+                    if op.issuer != creator {
+                        return Err(CgkaError::InvalidOperation.into());
+                    }
+                } else if id == Public.id() {
+                    // Anyone can act as Public, but only with its well-known key
+                    if new_path.leaf_pk != Public.share_key().into() {
+                        return Err(CgkaError::InvalidOperation.into());
+                    }
+                } else if id != Identifier(op.issuer) {
+                    return Err(CgkaError::InvalidOperation.into());
+                }
+            }
+            CgkaOperation::Remove { .. } => {}
+        }
+        Ok(())
+    }
+
     #[instrument(skip_all)]
     pub async fn promote_individual_to_group(
         &self,
-- 
2.43.0


From d4c2459d3d4cef4036a808d96a40e420f96f02fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:04 +0000
Subject: [PATCH 47/57] fix: ingesting an archive takes in its documents' keys
 and pending events

---
 keyhive_core/src/keyhive.rs | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 0239e4f..92283ec 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -2426,7 +2426,7 @@ impl<
                 locked_indies.insert(id, Arc::new(Mutex::new(indie)));
             }
         }
-        let events = archive
+        let mut events = archive
             .topsorted_ops
             .into_iter()
             .map(|(_, op)| match op {
@@ -2434,7 +2434,36 @@ impl<
                 StaticMembershipOperation::Revocation(signed) => StaticEvent::Revoked(signed),
             })
             .collect::<Vec<_>>();
-        Ok(self.ingest_unsorted_static_events(events).await)
+        events.extend(archive.pending_events);
+
+        let mut doc_sks = Vec::new();
+        for (doc_id, doc_archive) in archive.docs {
+            let Some(cgka) = doc_archive.cgka else {
+                continue;
+            };
+            for epoch in cgka.ops().map_err(ReceiveCgkaOpError::from)?.iter() {
+                events.extend(
+                    epoch
+                        .iter()
+                        .map(|op| StaticEvent::from(Box::new(op.as_ref().clone()))),
+                );
+            }
+            doc_sks.push((doc_id, cgka.owner_sks().clone()));
+        }
+
+        let pending = self.ingest_unsorted_static_events(events).await;
+
+        // The secrets behind our key updates aren't part of the events.
+        for (doc_id, sks) in doc_sks {
+            let doc = { self.docs.lock().await.get(&doc_id).duped() };
+            if let Some(doc) = doc {
+                if let Ok(cgka) = doc.lock().await.cgka_mut() {
+                    cgka.owner_sks_mut().extend(&sks);
+                }
+            }
+        }
+
+        Ok(pending)
     }
 
     #[instrument(skip_all)]
-- 
2.43.0


From 7ff5c0dda6b370f5b4d286176014d0e8d437c22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:04 +0000
Subject: [PATCH 48/57] fix: what a transaction received is merged too

---
 keyhive_core/src/keyhive.rs | 59 ++++---------------------------------
 1 file changed, 5 insertions(+), 54 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 92283ec..11f76ad 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -2739,61 +2739,12 @@ where
     Log<F, S, T>: MembershipListener<F, S, T>,
 {
     async fn merge_async(&self, fork: Self::AsyncForked) {
-        let forked_active = { fork.active.lock().await.clone() };
         let locked = self.lock().await;
-        locked.active.lock().await.merge_async(forked_active).await;
-
-        {
-            let mut locked_fork_indies = fork.individuals.lock().await;
-            let mut locked_indies = locked.individuals.lock().await;
-            for (id, forked_indie) in locked_fork_indies.drain() {
-                if let Some(og_indie) = locked_indies.get(&id) {
-                    og_indie
-                        .lock()
-                        .await
-                        .merge(forked_indie.lock().await.clone())
-                } else {
-                    locked_indies.insert(id, forked_indie);
-                }
-            }
-        }
-
-        let forked_listener = { fork.event_listener.0.lock().await.clone() };
-        for event in forked_listener.iter() {
-            match event {
-                Event::PrekeysExpanded(_add_op) => {
-                    continue; // NOTE: handled above
-                }
-                Event::PrekeyRotated(_rot_op) => {
-                    continue; // NOTE: handled above
-                }
-                _ => {}
-            }
-
-            locked
-                .receive_static_event(event.clone().into())
-                .await
-                .expect("prechecked events to work");
-        }
-
-        // The secrets behind our key updates in the fork aren't part of its events.
-        let forked_docs = { fork.docs.lock().await.clone() };
-        for (doc_id, forked_doc) in forked_docs {
-            let Ok(forked_sks) = forked_doc
-                .lock()
-                .await
-                .cgka()
-                .map(|c| c.owner_sks().clone())
-            else {
-                continue;
-            };
-            let doc = { locked.docs.lock().await.get(&doc_id).cloned() };
-            if let Some(doc) = doc {
-                if let Ok(cgka) = doc.lock().await.cgka_mut() {
-                    cgka.owner_sks_mut().extend(&forked_sks);
-                }
-            }
-        }
+        // NOTE: not only what the fork itself did, but also what it received
+        locked
+            .ingest_archive(fork.into_archive().await)
+            .await
+            .expect("a fork's own archive to be readable");
     }
 }
 
-- 
2.43.0


From e37150fb2c82fc9bef1315a6c3e06a24e9e52833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:54 +0000
Subject: [PATCH 49/57] fix: members removed along with whoever added them are
 told

---
 keyhive_core/src/keyhive.rs | 56 ++++++++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 17 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 11f76ad..c3a5ac4 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -949,35 +949,59 @@ impl<
         agent: &Agent<F, S, T, L>,
     ) -> HashMap<Digest<MembershipOperation<F, S, T, L>>, MembershipOperation<F, S, T, L>> {
         let mut heads = Vec::new();
-        let mut agent_ids = vec![agent.agent_id()];
+        let mut agent_ids = vec![agent.id()];
 
         for (mem_rc, _max_acces) in self.membered_reachable_by_agent(agent).await.values() {
             heads.extend(collect_membership_heads(
                 &mem_rc.delegation_heads().await,
                 &mem_rc.revocation_heads().await,
             ));
-            agent_ids.push(mem_rc.agent_id());
+            agent_ids.push(mem_rc.agent_id().into());
         }
 
         // Include any revocations that were missed, of this agent and of the
         // groups and documents it acts through
-        {
-            let locked_revocations = self.revocations.lock().await;
-            for agent_id in &agent_ids {
-                for rev in locked_revocations
-                    .get_revocations_for_agent(agent_id)
-                    .unwrap_or_default()
-                {
-                    let hash: Digest<MembershipOperation<F, S, T, L>> =
-                        Digest::hash(rev.as_ref()).coerce();
-                    heads.push((hash, rev.into()));
-                }
+        let revocations = self.revocations_by_agent().await;
+        for agent_id in &agent_ids {
+            for rev in revocations.get(agent_id).into_iter().flatten() {
+                let hash: Digest<MembershipOperation<F, S, T, L>> =
+                    Digest::hash(rev.as_ref()).coerce();
+                heads.push((hash, rev.dupe().into()));
             }
         }
 
         bfs_membership_ops(heads).await
     }
 
+    /// The [`Revocation`]s that concern each agent: of what was delegated to it, or of
+    /// what that rests on.
+    #[allow(clippy::type_complexity, clippy::mutable_key_type)]
+    async fn revocations_by_agent(
+        &self,
+    ) -> HashMap<Identifier, HashSet<Arc<Signed<Revocation<F, S, T, L>>>>> {
+        let mut by_delegation: HashMap<[u8; 64], Vec<Arc<Signed<Revocation<F, S, T, L>>>>> =
+            HashMap::new();
+        for rev in self.revocations.lock().await.values() {
+            by_delegation
+                .entry(rev.payload.revoke.signature.to_bytes())
+                .or_default()
+                .push(rev.dupe());
+        }
+
+        let mut by_agent: HashMap<_, HashSet<_>> = HashMap::new();
+        for dlg in self.delegations.lock().await.values() {
+            for ancestor in std::iter::once(dlg.dupe()).chain(dlg.payload.proof_lineage()) {
+                if let Some(revs) = by_delegation.get(&ancestor.signature.to_bytes()) {
+                    by_agent
+                        .entry(dlg.payload.delegate.id())
+                        .or_default()
+                        .extend(revs.iter().cloned());
+                }
+            }
+        }
+        by_agent
+    }
+
     /// Compute membership ops for all agents in a single pass.
     ///
     /// Instead of calling `membership_ops_for_agent` per agent (which repeats
@@ -1042,9 +1066,7 @@ impl<
         // (i.e., fully revoked agents), so that those revocation events can be
         // synced to the revoked peer.
         {
-            let revocations = self.revocations.lock().await;
-            for (agent_id, agent_revs) in revocations.all_agent_revocations() {
-                let identifier: Identifier = (*agent_id).into();
+            for (identifier, agent_revs) in self.revocations_by_agent().await {
                 let agent_ops = ops.entry(identifier).or_default();
                 let mut visited: HashSet<Digest<MembershipOperation<F, S, T, L>>> =
                     agent_ops.keys().copied().collect();
@@ -1053,7 +1075,7 @@ impl<
                         Digest::hash(rev.as_ref()).coerce();
                     if visited.insert(hash) {
                         agent_ops.entry(hash).or_insert_with(|| rev.dupe().into());
-                        bfs_extend_from_revocation(rev, agent_ops, &mut visited).await;
+                        bfs_extend_from_revocation(&rev, agent_ops, &mut visited).await;
                     }
                 }
                 if !agent_ops.is_empty() {
-- 
2.43.0


From 8570fbf114148ee329124653f62c096dcb34edad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:54 +0000
Subject: [PATCH 50/57] fix: merging key operations leaves only the real heads

---
 beekem/src/operation.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/beekem/src/operation.rs b/beekem/src/operation.rs
index 2648ba9..d9b5e5f 100644
--- a/beekem/src/operation.rs
+++ b/beekem/src/operation.rs
@@ -163,6 +163,22 @@ impl Merge for CgkaOperationGraph {
             .extend(fork.cgka_ops_predecessors);
         self.cgka_op_heads.extend(fork.cgka_op_heads);
         self.add_heads.extend(fork.add_heads);
+        // Either may have gone on from what is still a head to the other
+        for preds in self.cgka_ops_predecessors.values() {
+            for hash in preds {
+                self.cgka_op_heads.remove(hash);
+            }
+        }
+        for op in self.cgka_ops.values() {
+            if let CgkaOperation::Add {
+                add_predecessors, ..
+            } = &op.payload
+            {
+                for hash in add_predecessors {
+                    self.add_heads.remove(hash);
+                }
+            }
+        }
     }
 }
 
-- 
2.43.0


From 246b43353a76a56b29101ac111658c2ffe240b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:54 +0000
Subject: [PATCH 51/57] fix: rebuilding a key tree doesn't fail for a member
 that was removed

---
 beekem/src/cgka.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/beekem/src/cgka.rs b/beekem/src/cgka.rs
index cca9634..c16a7ef 100644
--- a/beekem/src/cgka.rs
+++ b/beekem/src/cgka.rs
@@ -594,8 +594,10 @@ impl Cgka {
         .with_new_owner(self.owner_id, self.owner_sks.clone())?;
         rebuilt_cgka.apply_epochs(&epochs)?;
         if rebuilt_cgka.has_pcs_key() {
-            let pcs_key = rebuilt_cgka.pcs_key_from_tree_root()?;
-            rebuilt_cgka.insert_pcs_key(&pcs_key, Digest::hash(&epochs.last()[0]));
+            // The owner doesn't have the key if it was removed
+            if let Ok(pcs_key) = rebuilt_cgka.pcs_key_from_tree_root() {
+                rebuilt_cgka.insert_pcs_key(&pcs_key, Digest::hash(&epochs.last()[0]));
+            }
         }
         Ok(rebuilt_cgka)
     }
-- 
2.43.0


From 528f250596afae10e5f54b044b0e967cee38dd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:17 +0000
Subject: [PATCH 52/57] fix: events that aren't signed by their issuer don't
 stay pending

---
 keyhive_core/src/keyhive.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index c3a5ac4..4f95d11 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -2523,8 +2523,10 @@ impl<
 
             for event in epoch {
                 if let Err(e) = self.apply_static_event(event.clone()).await {
-                    if matches!(e, ReceiveStaticEventError::ReceivePrekeyOpError(_)) {
-                        tracing::warn!("Dropping unrecoverable prekey event: {:?}", e);
+                    if matches!(e, ReceiveStaticEventError::ReceivePrekeyOpError(_))
+                        || e.is_verification_error()
+                    {
+                        tracing::warn!("Dropping unrecoverable event: {:?}", e);
                     } else {
                         err = Some(e);
                         next_epoch.push(event);
@@ -2817,6 +2819,18 @@ where
             Self::ReceiveStaticMembershipError(e) => e.is_missing_dependency(),
         }
     }
+
+    /// Whether the event isn't signed by its issuer, which no other event can change.
+    fn is_verification_error(&self) -> bool {
+        matches!(
+            self,
+            Self::ReceivePrekeyOpError(ReceivePrekeyOpError::VerificationError(_))
+                | Self::ReceiveCgkaOpError(ReceiveCgkaOpError::VerificationError(_))
+                | Self::ReceiveStaticMembershipError(
+                    ReceiveStaticDelegationError::VerificationError(_)
+                )
+        )
+    }
 }
 
 #[derive(Error)]
-- 
2.43.0


From 6515fedfcc07ddc918558d69482cad89f3b72f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:32 +0000
Subject: [PATCH 53/57] fix: a lesser direct membership doesn't hide a greater
 one through a group

---
 keyhive_core/src/principal/group.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index e736eab..4fca37e 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -520,14 +520,8 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
 
         if self.verifying_key() == *signer_vk {
             Ok(None)
-        } else if let Some(p) = capability(&(*signer_vk).into()) {
+        } else if let Some(p) = capability(&(*signer_vk).into()).filter(|p| p.payload.can >= can) {
             // Signer is a direct member of this group.
-            if can > p.payload.can {
-                return Err(AddGroupMemberError::AccessEscalation {
-                    wanted: can,
-                    have: p.payload().can,
-                });
-            }
             Ok(Some(p.dupe()))
         } else {
             // Check transitive membership through the group graph.
@@ -535,7 +529,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             // transitive path for the signer.
             let signer_id = Identifier::from(*signer_vk);
             let mut best_proof = None;
-            let mut best_access: Option<Access> = None;
+            let mut best_access: Option<Access> = capability(&signer_id).map(|p| p.payload.can);
 
             for member_id in members.keys() {
                 let dlg = capability(member_id).expect("members have capabilities by definition");
-- 
2.43.0


From 8c05d840e4cd8cb903327eac2a4476d314327447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:49 +0000
Subject: [PATCH 54/57] fix: list pending membership operations under the hash
 that others list them under

---
 keyhive_core/src/keyhive.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 4f95d11..017513e 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -851,13 +851,20 @@ impl<
         caps
     }
 
+    /// The hashes of the events that wait for something they depend on, as
+    /// [`Self::events_for_agent`] lists them once they have been received.
     #[instrument(skip_all)]
     pub async fn pending_event_hashes(&self) -> HashSet<Digest<StaticEvent<T>>> {
         self.pending_events
             .lock()
             .await
             .iter()
-            .map(|event| Digest::hash(event.as_ref()))
+            .map(|event| match event.as_ref() {
+                // Membership operations are listed under their own hash
+                StaticEvent::Delegated(dlg) => Digest::hash(dlg).coerce(),
+                StaticEvent::Revoked(rev) => Digest::hash(rev).coerce(),
+                event => Digest::hash(event),
+            })
             .collect()
     }
 
-- 
2.43.0


From d71bcef4e26da5c9d98e1134045fd54bbf8df7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:49 +0000
Subject: [PATCH 55/57] fix: Deque took the latest event for the earliest and
 the other way round

---
 keyhive_core/src/listener/deque.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/keyhive_core/src/listener/deque.rs b/keyhive_core/src/listener/deque.rs
index e08d31a..7ef8205 100644
--- a/keyhive_core/src/listener/deque.rs
+++ b/keyhive_core/src/listener/deque.rs
@@ -36,12 +36,12 @@ where
 
     pub async fn pop_latest(&self) -> Option<Event<F, S, T, Self>> {
         let mut locked = self.0.lock().await;
-        locked.pop_front()
+        locked.pop_back()
     }
 
     pub async fn pop_earliest(&self) -> Option<Event<F, S, T, Self>> {
         let mut locked = self.0.lock().await;
-        locked.pop_back()
+        locked.pop_front()
     }
 
     pub async fn is_empty(&self) -> bool {
-- 
2.43.0


From 677eeeb8feccd4d013a3e46c2937a47a747ec0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:49 +0000
Subject: [PATCH 56/57] fix: equal content-addressed maps compare as equal, and
 equal individuals hash the same

---
 beekem/src/content_addressed_map.rs            | 11 ++++++++---
 keyhive_core/src/principal/individual.rs       | 10 ++++++----
 keyhive_core/src/util/content_addressed_map.rs |  7 ++++---
 3 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/beekem/src/content_addressed_map.rs b/beekem/src/content_addressed_map.rs
index ec642fb..5dbf000 100644
--- a/beekem/src/content_addressed_map.rs
+++ b/beekem/src/content_addressed_map.rs
@@ -4,7 +4,11 @@ use crate::{
     collections::Map,
     transact::{Fork, Merge},
 };
-use alloc::{collections::BTreeMap, sync::Arc, vec::Vec};
+use alloc::{
+    collections::{BTreeMap, BTreeSet},
+    sync::Arc,
+    vec::Vec,
+};
 use core::hash::{Hash, Hasher};
 use keyhive_crypto::digest::Digest;
 use serde::{Deserialize, Serialize};
@@ -152,11 +156,12 @@ impl<T: Serialize> FromIterator<T> for CaMap<T> {
 
 impl<T: Serialize + PartialEq> PartialOrd for CaMap<T> {
     fn partial_cmp(&self, other: &Self) -> Option<core::cmp::Ordering> {
+        // Sorted, because equal maps may list their keys in different orders
         Some(
             self.0
                 .keys()
-                .collect::<Vec<_>>()
-                .cmp(&other.0.keys().collect::<Vec<_>>()),
+                .collect::<BTreeSet<_>>()
+                .cmp(&other.0.keys().collect::<BTreeSet<_>>()),
         )
     }
 }
diff --git a/keyhive_core/src/principal/individual.rs b/keyhive_core/src/principal/individual.rs
index 854fb05..4df6f1c 100644
--- a/keyhive_core/src/principal/individual.rs
+++ b/keyhive_core/src/principal/individual.rs
@@ -18,7 +18,10 @@ use id::IndividualId;
 use keyhive_crypto::{share_key::ShareKey, signed::VerificationError, verifiable::Verifiable};
 use serde::{Deserialize, Serialize};
 use state::PrekeyState;
-use std::{collections::HashSet, sync::Arc};
+use std::{
+    collections::{BTreeSet, HashSet},
+    sync::Arc,
+};
 use thiserror::Error;
 use tracing::instrument;
 
@@ -143,9 +146,8 @@ impl std::hash::Hash for Individual {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
         self.id.hash(state);
         self.prekey_state.hash(state);
-        for pk in self.prekeys.iter() {
-            pk.hash(state);
-        }
+        // Sorted, because equal sets may list their elements in different orders
+        self.prekeys.iter().collect::<BTreeSet<_>>().hash(state);
     }
 }
 
diff --git a/keyhive_core/src/util/content_addressed_map.rs b/keyhive_core/src/util/content_addressed_map.rs
index f4ee990..74a7354 100644
--- a/keyhive_core/src/util/content_addressed_map.rs
+++ b/keyhive_core/src/util/content_addressed_map.rs
@@ -3,7 +3,7 @@ use derive_where::derive_where;
 use keyhive_crypto::digest::Digest;
 use serde::{Deserialize, Serialize};
 use std::{
-    collections::{BTreeMap, HashMap},
+    collections::{BTreeMap, BTreeSet, HashMap},
     sync::Arc,
 };
 
@@ -152,11 +152,12 @@ impl<T: Serialize> FromIterator<T> for CaMap<T> {
 
 impl<T: Serialize + PartialEq> PartialOrd for CaMap<T> {
     fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
+        // Sorted, because equal maps may list their keys in different orders
         Some(
             self.0
                 .keys()
-                .collect::<Vec<_>>()
-                .cmp(&other.0.keys().collect::<Vec<_>>()),
+                .collect::<BTreeSet<_>>()
+                .cmp(&other.0.keys().collect::<BTreeSet<_>>()),
         )
     }
 }
-- 
2.43.0


From 0bb0c7a27309fcf0a34e857f61fd743eefe5c8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:49 +0000
Subject: [PATCH 57/57] fix: TopologicalSort::pop_all returns its items sorted,
 as documented

---
 beekem/src/topsort.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beekem/src/topsort.rs b/beekem/src/topsort.rs
index 7d27c16..a9433a7 100644
--- a/beekem/src/topsort.rs
+++ b/beekem/src/topsort.rs
@@ -46,12 +46,13 @@ impl<T: Eq + Hash + Ord + Clone> TopologicalSort<T> {
     ///
     /// Returns them sorted for determinism.
     pub fn pop_all(&mut self) -> Vec<T> {
-        let ready: Vec<T> = self
+        let mut ready: Vec<T> = self
             .deps
             .iter()
             .filter(|(_, deps)| deps.is_empty())
             .map(|(node, _)| node.clone())
             .collect();
+        ready.sort();
 
         for node in &ready {
             self.deps.remove(node);
-- 
2.43.0

