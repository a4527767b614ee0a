REAL = "stateless exhaustive exploration of the real code against a reference model"
SIG = "assumes Ed25519 and hashing are sound; "

prop("M01", "Replicas with the same membership operations agree on membership",
 "Two replicas that have received the same set of valid membership operations (delegations and revocations of groups and documents) have the same members, with the same delegations and access, and the same list of revoked members, no matter in which order, in which batches, or how often the operations arrived.",
 ["histories", "schedules"],
 "every graph of up to N concurrent or causally related delegations and revocations over a few identities, access levels and nested groups, in every delivery order; and on top of long, wide, interleaved and repeated memberships of up to eight people",
 "Convergence is a claim over all concurrent histories and all arrival orders; unit tests try a handful of fixed graphs in one or two orders.",
 [S, O, G, K], [("rebuild, add_delegation, add_revocation", G), ("heads bookkeeping", S), ("reverse_topsort", O), ("receive_membership_op, ingest_unsorted_static_events", K)],
 REAL, "Exhaustive over the graphs within the bounds; every order for up to 4 operations, all dependency-respecting orders with their reversals and rotations beyond; " + SIG + "membership of nested groups is fixed before the graph starts.")

prop("M02", "Nobody gains access without a valid chain of delegations",
 "A delegation takes effect only if it was signed by someone who holds the capability its proof confers (directly, or as a member with enough access of a group that holds it), grants no more access than that proof does, and rests only on delegations and revocations that are themselves valid. Anything else leaves membership exactly as it was, and so does everything that builds on it, whatever the delivery order.",
 ["inputs", "histories"],
 "every legitimate graph within the bounds, extended with every operation the format can express over the given identities and levels that the rules forbid, and with operations building on it, in several delivery orders",
 "Tests check one or two forbidden delegations; escalation bugs need a particular combination of issuer, proof, level, nested group and order.",
 [S, O, G, K], [("add_delegation, is_transitive_member_of", S), ("receive_delegation", G), ("static_event_to_*", K)],
 REAL, "Exhaustive over forgeries by every identity against every honest graph within the bounds; " + SIG + "signature forgeries are covered by S01.")

prop("M03", "Only someone with authority over a delegation can revoke it",
 "A revocation takes effect only if its signer is the subject of the group or document, granted or holds a delegation that the revoked one descends from, is an admin of the same subject, or speaks with enough access for a group that outranks the revoked delegation. Any other revocation leaves membership exactly as it was, together with everything built on it.",
 ["inputs", "histories"],
 "every legitimate graph within the bounds, extended with every forbidden revocation over the given identities, targets and proofs, including proofs from other groups, in several delivery orders",
 "Tests check that the allowed revocations work; the space of forbidden ones is what an attacker picks from.",
 [S, O, G], [("add_revocation", S), ("receive_revocation, rebuild", G)],
 REAL, "Exhaustive over forged revocations by every identity against every honest graph within the bounds; " + SIG + "nested group membership fixed.")

prop("M05", "Transitive access is the best path's least access",
 "The access a principal has to a group or document is the greatest, over all membership paths that lead to it, of the least access granted along the path; through nested and even cyclic groups, and however the question is asked (members of a group, groups and documents of an agent).",
 ["inputs", "configurations"],
 "every membership graph over three groups (optionally one a document) and an individual, with none or one of several access levels on each of the possible edges; and nine deep, wide, cyclic and complete families of seven groups with any one and many any two edges added",
 "Tests build three fixed shapes; the traversal-order and cycle errors only appear on particular shapes and hash-map orders.",
 [G, K, "keyhive_core/src/principal/membered.rs", "keyhive_core/src/principal/document.rs"], [("transitive_members", G), ("reachable_members, docs_reachable_by_agent, membered_reachable_by_agent", K)],
 "exhaustive enumeration of small configurations on the real code against a fixpoint oracle", "Exhaustive for three groups, one individual and the stated levels, and for the listed families.")

prop("M07", "Concurrent membership changes have an outcome some sequence explains",
 "After all operations of a history have been received, the members and their access are those that applying the same operations one after another, in some order consistent with what each was issued after, would give. No operation is lost, applied halfway or combined into something no participant asked for, and every legitimate operation is accepted.",
 ["histories"],
 "every graph of up to N concurrent or causally related delegations and revocations over a few identities, access levels and nested groups; and on top of long, wide, interleaved and repeated memberships of up to eight people",
 "The outcome of concurrent grants and revocations is a claim over all histories; tests fix a few.",
 [S, O, G], [("rebuild", G), ("reverse_topsort", O)],
 REAL, "Exhaustive within the stated numbers; the model explains an outcome by any linear extension, so it does not prescribe which concurrent operation wins.")

prop("M08", "Concurrent revocations take effect from the most senior down",
 "When revocations were issued without knowledge of each other, those whose authority and target are closer to the root of the group or document take effect first, and a later one takes effect only if the delegation its signer acts by still stands. Adding further puppets below oneself therefore never wins against someone higher up.",
 ["histories"],
 "every tree of up to N delegations below the root, with every two or three revocations of any of them by the holder of any other, and lines of eight with two, three or four revocations among them, and three branches of different lengths whose last members revoke each other in circles, in two delivery orders",
 "The unit tests look at the order in which a sorting helper lists two revocations, not at who is a member in the end.",
 [O, G], [("reverse_topsort, compute_distance", O), ("rebuild", G)],
 REAL, "Exhaustive within the stated numbers; at the same distance either outcome is accepted (the code breaks such ties by digest).")

prop("P01", "Prekey sets converge, are never empty, and the owner holds every secret",
 "Whatever subset of an individual's prekey operations a replica has received, in whatever order, with whatever duplication, fork, merge or storage, the prekeys it will use for that individual are exactly those introduced and not retired by those operations, and there is always at least one. Two replicas with the same operations therefore agree on them. A replica always holds the secret of every prekey it ever published, so that whoever chose one before hearing that it was retired still reaches it.",
 ["histories", "inputs"],
 "every set of up to N add/rotate operations over up to K keys (including rotations of unknown, retired, or mutually retiring keys), in every delivery order and at every fork point; long chains, stars and repeated rotations of a dozen keys; every local history of expand/rotate/contact-card calls up to a depth, delivered by event or card",
 "One unit test builds one five-operation graph in one order; nothing varies the order, forks, mutual retirement or the delivery channel.",
 [IS, I, A, K], [("PrekeyState::build", IS), ("Individual::receive_prekey_op, merge", I), ("rotate_prekey, expand_prekeys", A), ("receive_prekey_op, receive_contact_card", K)],
 REAL, "Exhaustive within the stated numbers of keys, operations and orders; assumes signatures are unforgeable.")

prop("P02", "The prekey chosen for a document is active, deterministic and spread out",
 "Choosing which of an individual's prekeys to use for a document never fails, always yields one of that individual's active prekeys, and yields the same one to everyone who knows the same prekeys. Over many documents every active prekey gets used, so that a leaked prekey exposes only some of the documents.",
 ["inputs", "configurations"],
 "every number of active prekeys up to N and larger ones around powers of two, thousands of document ids each, every enumerated hash seed and delivery order; no prekey is chosen for far more than its share of the documents",
 "Tests try one range size (39) and three seeds; the failing sizes are others, and set iteration order differs from run to run.",
 [I], [("pick_prekey, pseudorandom_in_range", I)],
 REAL, "Every size up to the bound with a fixed list of documents; the spread claim is over that list.")

prop("P03", "An individual's prekey history is listed completely and causally",
 "Listing an individual's prekey operations in causal order terminates and yields every operation exactly once, for any set of operations. Whenever an order exists in which each rotation follows an operation that introduced the key it retires, the listing is such an order.",
 ["inputs", "histories"],
 "every set of up to N add/rotate operations over up to K keys, and long chains, stars and repeated rotations of a dozen keys, under several hash seeds",
 "Tests only cover straight chains of rotations; cycles, reused keys and rotations of unknown keys need enumeration.",
 [IO], [("KeyOp::topsort", IO)],
 REAL, "Exhaustive within the stated numbers of keys and operations.")

prop("M04", "Adding and revoking members does what it says, or changes nothing",
 "Adding a member succeeds exactly when the caller has at least the granted access (directly or through groups), and afterwards exactly that member has gained exactly that access; revoking a member either fails and changes nothing or leaves them without any membership of their own; whoever rests only on their authority goes too, unless the caller asked to retain them; nobody else's membership changes, here or in other groups and documents. An admin can revoke any member whom its own authority doesn't rest on, a member can revoke those it added and those they added in turn, anyone can leave, nobody without authority can revoke. Every other replica, having received the operations, sees the same.",
 ["histories", "inputs"],
 "every sequence of up to N add and revoke calls by three people, or along a chain of five who added one another (each member, level and retain choice), on a group, a document, a shared document, a document read through a group, and groups and documents that a group administers whose members have less, fully exchanged after each call",
 "Unit tests add and revoke in a few fixed orders; cascades, re-additions, retained members and authority through groups interact over whole histories.",
 [G, S, K, D], [("add_member, revoke_member", G), ("rebuild", G), ("add_member, revoke_member", K), ("revoke_member", D)],
 "bounded exhaustive enumeration of API call histories on real replicas against a reference model", "Exhaustive for sequences within the depth over the stated calls; a removal may bring back whom the removed member had removed (the format gives concurrent revocations no order), and re-adding a member may restore what rested on its earlier membership; both are accepted.")

prop("M06", "What one replica does, every replica accepts",
 "An operation that a replica's API let its user perform, on the state the replica had, is accepted by every other replica once it has received the operations issued so far: nothing stays pending forever, and all replicas agree on the members of every group and document, however the replicas exchanged operations in between.",
 ["histories", "schedules"],
 "every sequence of up to N add, revoke and one-way exchange actions by three replicas acting concurrently, on a group, a document, a document administered through a group, and two groups that can contain each other",
 "Local checks and checks on receipt are different code; that they agree for every concurrent history is beyond fixed tests.",
 [G, S, K, D], [("add_member, revoke_member", K), ("receive_delegation, receive_revocation", G), ("static_event_to_*, ingest_unsorted_static_events", K)],
 "bounded exhaustive enumeration of concurrent API call histories on real replicas", "Exhaustive within the depth. One known finding (authority exercised through a group by somebody concurrently removed from it).")

prop("K03", "Exactly the members who may read a document can decrypt it",
 "Content that any editor encrypts can be decrypted by exactly those people who have at least read access to the document at that point, directly or through any chain of groups: members with read access are never locked out, and somebody who is not a member, has only relay access, was removed, or lost the group that gave them access never can, even with every operation that was ever exchanged.",
 ["histories"],
 "every sequence of up to N add, revoke, key update and prekey rotation calls by three replicas on private, shared and group-readable documents, then encryption by every editor and decryption attempts by everyone",
 "Tests check a few fixed memberships; who is in the key tree depends on the whole history of grants, removals, nesting, rotations and re-additions.",
 [D, K, BC, BT], [("add_member, revoke_member, transitive readers", D), ("add_member, revoke_member, receive_cgka_op", K), ("Cgka::add, remove, merge", BC), ("encrypt_path, decrypt_tree_secret", BT)],
 "bounded exhaustive enumeration of API call histories on real replicas, decryption by every replica compared with the membership", "Exhaustive within the depth for histories exchanged after each call; concurrent histories are covered by K01 and K02.")

prop("K01", "Replicas agree on a document's key whatever happened concurrently",
 "Members of a document's key tree add, remove and update concurrently, and exchange operations in any causal order or merge forks. Every operation one of them issues is accepted by all, and replicas with the same operations have the same tree members: exactly those added and not removed. All of them, and nobody else, arrive at the same current key (or agree that there is none yet), whoever updates next everybody follows, and content encrypted at any time stays readable to all who were members in its author's view, and to nobody else.",
 ["histories", "schedules"],
 "every history of up to N add, remove, update and one-way exchange steps by up to three concurrent actors on trees of two to five members (with re-additions, the same or different leaf keys), and every causal delivery order of its operations up to a cap; every combination of short concurrent sequences by three or four members, in one to three rounds, on trees of up to twenty leaves; and every fork merged back with what the original went on to",
 "Merging concurrent tree changes is the core of BeeKEM; tests replay a few fixed scenarios, mostly with updates only.",
 [BC, BT, BO, "beekem/src/secret_store.rs", "beekem/src/keys.rs", "beekem/src/treemath.rs"],
 [("merge_concurrent_operation, apply_epochs, replay_ops_graph", BC), ("apply_path, encrypt_path, decrypt_tree_secret, sort_leaves", BT), ("topsort_for_heads", BO)],
 "bounded exhaustive enumeration of concurrent histories and delivery orders on real Cgka replicas", "Exhaustive up to the depth; delivery orders up to a cap per set of operations (the first and last in lexicographic order beyond it). A member both added and removed concurrently may be in or out; when all members remove each other one stays.")

prop("K02", "Whoever isn't a member can't derive the key, even with all they ever had",
 "From everything a person ever held (all secrets, all published operations, all keys that follow from them), nobody can derive a document key that was established by someone in whose view they weren't a member: neither after having been removed nor from before they were added, however their removal interleaved with other operations. Secrets of a member that leak stop opening anything that follows that member's next key update.",
 ["histories", "schedules"],
 "the same histories as K01; for every person the closure of their secrets under decrypting anything published, compared with the root secret of every content's key; and for every key update the closure of the secrets its author had before it",
 "Tests check that a removed member's honest client fails to decrypt; what an attacker could combine needs the full closure over whole histories.",
 [BC, BT, "beekem/src/secret_store.rs"],
 [("remove_id, blank_path, sort_leaves", BT), ("apply_epochs", BC), ("encrypt_new_secret_store_for_parent", BT)],
 "bounded exhaustive enumeration of concurrent histories on real Cgka replicas with a symbolic attacker closure", "Exhaustive up to the depth; assumes the Diffie-Hellman and cipher primitives are sound. Re-adding a member under its old prekey is outside the leak claim.")

prop("K04", "A ciphertext opens to what was encrypted, or not at all",
 "Any piece of content, of any length and with any predecessors, encrypted for a document decrypts for every member to exactly that content. A ciphertext that was altered in any part, or recombined from parts of others, never opens to anything that its author didn't encrypt; and trying it leaves the replica unchanged, so that what it encrypts and decrypts afterwards is the same.",
 ["inputs", "histories"],
 "every ciphertext of several histories with single bits flipped in every byte, cut at every length, and with every part exchanged for that of every other ciphertext or for any other key agreement operation, at every reader; and round trips over lengths, predecessors, references and histories",
 "Tests decrypt what they just encrypted; an altered field may decrypt, panic, or leave a wrong key behind only for particular fields and histories.",
 [BC, "beekem/src/encrypted.rs", D, "keyhive_crypto/src/siv.rs"], [("decryption_key_for, new_app_secret_for, pcs_key_from_hashes, derive_pcs_key_for_op", BC), ("try_decrypt_content, try_encrypt_content", D), ("Siv, application_secret", "keyhive_crypto/src")],
 "exhaustive fault injection on the real code compared with a fault-free run", "Exhaustive for the chosen histories, bits, cuts and recombinations; assumes the cipher primitives are sound.")

prop("K05", "Causal decryption opens all of the past that can be opened",
 "From a piece of content that can be decrypted, causal decryption yields exactly the content of every ancestor reachable through keys that are right and ciphertexts that are available, each once and with its own plaintext. For what isn't available it keeps the right key, so that it can be had later; it reports exactly what was refused, unavailable or couldn't be marked; and it marks exactly what it opened.",
 ["configurations", "fault_sequences"],
 "every graph of up to N pieces of content with up to two of them missing, damaged, undecodable or unavailable, wrong ancestor keys, and failing marks, from one or two entries in either order; larger lines, diamonds, ladders and lattices of nine pieces; and every graph and stored subset through real documents",
 "Tests use one or two small graphs without faults; diamonds in which one way fails and another works are where results get lost.",
 ["keyhive_core/src/store/ciphertext.rs", D, "keyhive_core/src/crypto/envelope.rs"], [("try_causal_decrypt", "keyhive_core/src/store/ciphertext.rs"), ("try_causal_decrypt_content", D)],
 "bounded exhaustive enumeration of content graphs and faults on the real code, compared with reachability in the graph", "Exhaustive up to the size and number of faults.")

prop("K06", "The ciphertext store finds exactly what is stored in it",
 "After any sequence of insertions, removals and markings, the in-memory ciphertext store finds by reference and by key update exactly the ciphertexts that were inserted and neither removed nor marked since, never one of another reference or key update, and reports removals truthfully.",
 ["histories"],
 "every sequence of up to N insertions, removals by digest, removals by reference and markings over eight ciphertexts that share references and key updates; all lookups compared with a set",
 "Tests insert and look up; the indices go wrong when the same content is stored for two key updates and one is removed.",
 ["keyhive_core/src/store/ciphertext/memory.rs"], [("insert, remove, remove_all, get_by_pcs_update, get_ciphertext", "keyhive_core/src/store/ciphertext/memory.rs")],
 "bounded exhaustive enumeration of operation sequences on the real store against a set model", "Exhaustive up to the depth.")

prop("S01", "Only what its author signed counts",
 "An operation whose content, author or signature was altered in any way, or combined from parts of genuine ones, has no effect on the replica that receives it: not on members, prekeys, key agreement, what is known or pending, and nothing is announced. The genuine operation is accepted afterwards or before as if the forged one had never arrived.",
 ["inputs"],
 "every operation of every kind in several histories, with single bits flipped in every byte of its encoding and with every recombination of its payload, author and signature with those of any other operation, before anything else is known, before and after the genuine one, alone, among genuine ones in a batch and as a contact card, at members and outsiders",
 "Tests check one altered signature; each kind of operation has its own path on receipt, and each must verify before it does anything.",
 [K, I, D, "keyhive_crypto/src/signed.rs"], [("receive_static_event, receive_prekey_op, receive_cgka_op, static_event_to_*", K), ("receive_prekey_op", I), ("try_verify", "keyhive_crypto/src/signed.rs")],
 "exhaustive fault injection on the real code compared with a fault-free run", "Exhaustive for the chosen histories, bits and recombinations; " + SIG + "authentic operations by people without authority are covered by M02 and M03.")

prop("S02", "The outcome doesn't depend on how operations arrive",
 "A replica that has received a set of operations (membership, prekeys, key agreement) knows and can do the same, whatever order they arrived in, one by one or in batches, once or repeatedly, before or after it heard of their authors, and even if it was stored and loaded in between. Operations that arrive before what they depend on take effect once that has arrived.",
 ["schedules", "histories"],
 "every history of up to N calls by two replicas over groups, documents and nestings; its operations delivered to a member and an outsider in every rotation, with each one first or last, reversed, in every order of the last four, batched or singly, repeated, and stored and loaded in between",
 "Tests deliver in the order of creation, or ingest one shuffled batch; dropped or stuck operations need a particular dependency arriving late.",
 [K, D, I], [("ingest_unsorted_static_events, static_event_to_*, is_missing_dependency", K), ("receive_cgka_op", K), ("pending events", "keyhive_core/src/keyhive.rs")],
 "bounded exhaustive enumeration of histories and arrival orders on real replicas, compared with in-order arrival", "Exhaustive over the listed families of arrival orders, not over all permutations of all operations; " + SIG + "histories in which the outcome depends on arrival order by a known finding (M06) are outside the depth.")

prop("S03", "What a replica sends a member is all the member needs",
 "The events a replica selects for another agent contain everything needed for whatever that agent may access: after receiving them, the agent knows the same members and can read the same contents of those groups and documents as if it had received everything the sender has, nothing it received waits for an operation that wasn't sent, and an agent that was removed learns that it was.",
 ["histories", "schedules"],
 "every history of up to N calls and selective exchanges by three replicas over groups, documents, nestings, documents within documents and public documents; then each replica sends to each other both the selection and everything",
 "Tests check selections for a few fixed memberships; what must be sent depends on former members, nested groups' histories and revocations that reach other subjects.",
 [K, G, D, "keyhive_core/src/principal/group/membership_operation.rs"], [("static_events_for_agent, events_for_agent", K), ("membership_ops_for_agent, cgka_ops_reachable_by_agent, reachable_prekey_ops_for_agent", K)],
 "bounded exhaustive enumeration of histories on real replicas, selective sync compared with full sync", "Exhaustive within the depth. One known finding (order-dependent authority, see M06).")

prop("S04", "Bulk queries for sync agree with asking for one agent",
 "The queries that compute for all agents at once which membership, prekey and key agreement operations they are to be sent give for each agent exactly what the query for that agent alone gives.",
 ["histories", "configurations"],
 "every history of up to N calls and selective exchanges by three replicas over groups, documents, nestings, documents within documents and public documents; every agent at every replica after every step",
 "Two implementations of the same selection must agree on every membership graph; tests compare them on one or two.",
 [K], [("*_for_all_agents", K), ("membership_ops_for_agent, reachable_prekey_ops_for_agent, cgka_ops_reachable_by_agent", K)],
 "bounded exhaustive enumeration of histories on real replicas, two implementations compared", "Exhaustive within the depth. Groups and documents that are members of nothing aren't listed in bulk and aren't compared.")

prop("S05", "Storing and loading a replica changes nothing",
 "A replica that is stored as an archive and loaded again knows the same members, documents, prekeys, secrets, keys and pending operations, sends the same operations, can read what it could, and behaves the same afterwards: whatever is done or received next has the same outcome for everybody as if it had never been stored.",
 ["histories", "crash_points"],
 "every history of up to N calls and exchanges by three replicas over groups, documents, nestings and public documents; every replica stored and loaded at every point, and every next action with and without it; and replicas stored while operations arriving in reverse wait for each other",
 "Tests round-trip one or two small replicas; what an archive leaves out only matters in particular states and for particular later actions.",
 [K, "keyhive_core/src/archive.rs", D, A, G], [("into_archive, try_from_archive", K), ("into_archive, dummy_from_archive", D)],
 "bounded exhaustive enumeration of histories and storage points on real replicas, compared with runs without", "Exhaustive within the depth. Received operations that arrive with a different history are covered by S02. One known finding (order-dependent authority, see M06).")

prop("S06", "Listeners hear of each operation once, and only of those that took effect",
 "Every operation a replica issues is announced to its listener when the call returns, so that passing on announcements passes on everything; a call that fails announces nothing; no operation is announced that the replica refused or still keeps waiting; and none is announced again when it arrives again.",
 ["histories"],
 "every history of up to N calls and exchanges by three replicas over groups, documents, nestings and public documents; listener contents compared with what the replica holds after every step",
 "Tests don't observe listeners beyond counting a few calls; a missed announcement breaks sync only for the histories that produce it.",
 [K, G, D, A, "keyhive_core/src/listener"], [("add_member, revoke_member, receive_revocation", G), ("add_member, encrypt, pcs_update", D), ("rotate_prekey, expand_prekeys", A)],
 "bounded exhaustive enumeration of histories on real replicas with a recording listener", "Exhaustive within the depth. Received prekey operations and delegations aren't announced by design; repeating the very same call may announce the very same operation again.")

prop("S08", "Calls made at the same time finish, and have an outcome as if made in turn",
 "When several calls on one replica (changes, ingests, encryption, queries, stores) are made at the same time, all of them return whatever the interleaving, none panics, and the replica ends up in a state, and the calls with results, that some order of making them one after the other also has; an archive taken meanwhile holds each change wholly or not at all.",
 ["schedules"],
 "every pair of calls out of a list (changes, ingests at once and one by one, archives, secrets, queries) over two prepared replicas, every interleaving at lock acquisitions with at most one preemption, and every point at which one call is left waiting while the other runs",
 "Tests await one call at a time; lost updates, half-made changes and deadlocks need a switch between two particular lock acquisitions.",
 [K, G, D, A, "keyhive_core/src/transact.rs"], [("changing", K), ("generate_*, add_member, revoke_member, ingest_unsorted_static_events, into_archive", K), ("generate, encrypt", D)],
 "stateless model checking: exhaustive bounded-preemption exploration of the real async code's interleavings under a controlled scheduler, compared with every sequential order", "Interleavings at lock acquisitions and suspension points (the code is async; threads are covered as far as they only interact through its locks). Preemption bound 1 (quick), 2 and triples of calls (thorough).")

prop("S07", "Transactions take effect wholly or not at all",
 "Changes made in a transaction don't show at the replica before it is merged and never if it fails, nor do changes at the replica show in the transaction; a merged transaction leaves the replica, now and for everything done later, as if its calls had been made directly, and together with changes made at the replica meanwhile it leads to a state all replicas agree on in which everything that could be read on either side can still be read.",
 ["histories", "schedules"],
 "after every history of a call or exchange over four prepared groups and documents: every transaction of one or two calls, merged or failed, with operations received in it, with every call or ingest at the replica meanwhile, and with every next call",
 "Tests merge one transaction and count delegations; secrets, key agreement state and isolation aren't looked at.",
 ["keyhive_core/src/transact.rs", "keyhive_core/src/transact/fork.rs", "keyhive_core/src/transact/merge.rs", K, A], [("fork_async, merge_async", K), ("fork, merge_async", A)],
 "bounded exhaustive enumeration of transactions and interleaved changes on real replicas, compared with direct calls", "Exhaustive within the depth. That operations made in a transaction aren't announced to the replica's own listener is by design (a FIXME in the code).")

prop("K07", "Key agreement follows membership after concurrent changes",
 "After replicas changed the members of documents and groups without knowing of each other's changes, and then exchanged everything, whatever any member who may write encrypts next can be decrypted by exactly those who, in the merged membership, may read the document.",
 ["histories", "schedules"],
 "every sequence of up to N adds, revocations, key updates and encryptions by two replicas, with or without a one-way exchange in between, on shared and group-readable documents, then exchange of everything and encryption by every editor",
 "Membership and the key tree merge by different rules; that they agree afterwards is a claim over all pairs of concurrent histories, and tests exchange after every change.",
 [D, K, BC, BT, G], [("align_cgka_with_readers", D), ("try_encrypt_content_keyed, add_member, revoke_member, receive_cgka_op", K), ("merge_concurrent_operation, replay_ops_graph", BC), ("rebuild", G)],
 "bounded exhaustive enumeration of concurrent API call histories on real replicas, decryption by every replica compared with the merged membership", "Exhaustive within the depth for two acting replicas and a third that only observes.")

prop("K08", "Public documents are readable by everyone, while they are public",
 "While Public has at least read access to a document, directly or through groups, everybody who has its operations decrypts what is written there, member or not; if Public may edit, everybody can write. Once Public is removed, exactly the remaining members can read what is written from then on, whatever was done meanwhile by members and others, one after the other or concurrently.",
 ["histories"],
 "every sequence of up to N changes of Public's and members' access, key updates and encryptions by members and non-members, on private, shared and group-readable documents, exchanged after each call or not, then encryption by everybody who may, in every turn",
 "Public is a member whose secret everybody knows, which key agreement treats specially on receipt; tests add it once and never remove it.",
 [K, D, "keyhive_core/src/principal/public.rs", G, BC], [("receive_cgka_op", K), ("align_cgka_with_readers, merge_cgka_invite_op, reset_cgka_owner", D), ("pick_individual_prekeys", G)],
 "bounded exhaustive enumeration of API call histories on real replicas, decryption by every replica compared with the membership", "Exhaustive within the depth for three replicas, one of which need not be a member.")

prop("K09", "Key operations made up by someone who can't read don't let them read",
 "Whoever may not read a document, whether never a member, removed, or able to write only what others relay, can't come to read what members write by sending key operations of their own making, however they are composed and whomever they reach first. Members keep reading each other and no replica aborts.",
 ["inputs", "histories"],
 "every sequence of up to N properly signed key operations made up by an outsider, a member about to be removed and a removed member (adding, removing or updating any leaf with the adversary's keys, grafting keys onto others' paths, malformed paths, a second beginning of the document), given to all or some replicas at different times, followed by honest encryption, key updates, additions and removals",
 "Tests only feed in operations that honest replicas made; an attacker makes up operations that no call would.",
 [K, D, BC, BT], [("receive_cgka_op, check_cgka_op_authority", K), ("merge_concurrent_operation", BC), ("is_valid_path, apply_path", BT)],
 "bounded exhaustive enumeration of an adversary's operations (Dolev-Yao style) against real replicas; the adversary derives every key it can from all it has", "Exhaustive within the operation vocabulary and bounds; " + SIG + "a creator who kept the document's own leaf key from the time it made the document is out of scope, and a member that a made-up removal took out of key agreement may be refused key updates until something is written next.")

prop("S09", "One's own replicas can take each other's stored state in at any time",
 "When a replica takes in an archive stored by a replica of the same person, earlier or later than its own state or diverged from it, it then knows the members, prekeys, secrets, keys and pending operations that either knew, and can read what either could read; an archive with nothing new changes nothing. A replica loaded from an old archive that receives the operations since, its own among them, knows the same members, documents and prekeys as the one that went on.",
 ["histories", "crash_points"],
 "every history of up to N calls and exchanges by three replicas over groups, documents, nestings and public documents; archives of a replica taken at every two points of it, merged each way; and at every point a second replica loaded that makes every next call before both exchange archives, after which content is written and read",
 "One test ingests an archive together with all events; what the archive alone carries, and merging in the other direction, isn't looked at.",
 [K, "keyhive_core/src/archive.rs", A, D], [("ingest_archive, try_from_archive, receive_prekey_op", K), ("merge_async", A)],
 "bounded exhaustive enumeration of histories, storage points and divergences on real replicas, compared with the replica that was never stored", "Exhaustive within the depth.")

prop("S10", "What is passed on is what its author issued, under the same hash everywhere",
 "Whatever a replica would send to anyone, before or after being stored and loaded, is bit for bit an operation that its author issued, with a signature that holds, and reads back from bytes as the same operation. An operation is listed under one hash everywhere, at whoever holds it and at whoever received it and still waits for what it depends on, so that replicas comparing lists ask for exactly what they miss.",
 ["histories"],
 "every history of up to N calls and exchanges by three replicas (up to six on larger bases) over groups, documents, nestings and public documents, everything each replica passes on to every person, group, document and Public, before and after storing and loading, and a newcomer that receives the latest operations first",
 "Operations are kept as linked structures and turned back into their signed form when sent; tests only look at whether the receiver accepts them.",
 [K, G, "keyhive_core/src/event.rs", "keyhive_core/src/event/static_event.rs", "keyhive_core/src/principal/group/membership_operation.rs", "keyhive_core/src/archive.rs"],
 [("static_events_for_agent, pending_event_hashes, into_archive", K), ("bfs_membership_ops", "keyhive_core/src/principal/group/membership_operation.rs")],
 "bounded exhaustive enumeration of histories on real replicas, everything that would be sent compared with everything that was issued", "Exhaustive within the depth; " + SIG + "what is issued is recorded from what replicas announce and pass on at the time.")

prop("U01", "Dependency orders yield everything once, as soon as nothing is awaited",
 "The dependency orders of both crates yield, each time they're asked, exactly the items that wait for nothing that hasn't been yielded, each once; items on or behind a circle are never yielded and the order then isn't empty. What is yielded doesn't depend on the order in which dependencies were stated or on hashing, and comes sorted.",
 ["inputs"],
 "every directed graph on 5 nodes, popped to the end, and every way to state any subset of 11 dependencies and nodes on 4 nodes before or after a first pop, dependencies on oneself and on what was already yielded included, for several hash seeds",
 "Every rebuild of a group or a key tree relies on it; the property tests sample random graphs.",
 ["keyhive_core/src/util/topsort.rs", "beekem/src/topsort.rs"],
 [("Topsort::pop_frontier", "keyhive_core/src/util/topsort.rs"), ("TopologicalSort::pop_all", "beekem/src/topsort.rs")],
 "bounded exhaustive enumeration of graphs and operation sequences on the real structures, compared with a model that follows the definition", "Exhaustive within the bounds.")

prop("U02", "Recording listeners give back what they were told, in order",
 "The listeners that record events (log and queue) hold exactly the events a replica announced, in the order in which it announced them. Taking the latest or the earliest event yields that one, until nothing is left.",
 ["programs"],
 "every sequence of up to N calls (new groups and documents, adding, revoking, prekey rotation and expansion, key updates) by a replica with a log and by the same replica with a queue, then every way of draining them",
 "An application that replays what its queue recorded depends on the order; no test uses the queue.",
 ["keyhive_core/src/listener/deque.rs", "keyhive_core/src/listener/log.rs"],
 [("pop_latest, pop_earliest, on_revocation", "keyhive_core/src/listener/deque.rs"), ("push, pop", "keyhive_core/src/listener/log.rs")],
 "bounded exhaustive enumeration of call sequences on real replicas, both listeners compared with each other", "Exhaustive within the depth; that events are announced at all and once is S06.")

prop("U03", "Equal values behave as equals, and content-addressed maps as maps",
 "The content-addressed maps of both crates hold each value once under its digest, through insertion, removal, forking and merging, and read back from bytes as they were. Maps with the same contents, and individuals with the same prekeys, are equal, compare as equal, hash and serialise the same, however they came about and whatever the hash order, and maps with different contents compare consistently.",
 ["programs", "inputs"],
 "every sequence of up to N insertions, removals, forks and merges over 3 values on the maps of both crates, and every order of arrival of every subset of 5 prekey operations, for several hash seeds",
 "The collections behind them have no fixed order, so that a comparison or a hash is right by luck in a single test run.",
 ["keyhive_core/src/util/content_addressed_map.rs", "beekem/src/content_addressed_map.rs", "keyhive_core/src/principal/individual.rs"],
 [("CaMap", "keyhive_core/src/util/content_addressed_map.rs"), ("CaMap", "beekem/src/content_addressed_map.rs"), ("Hash, Ord for Individual", "keyhive_core/src/principal/individual.rs")],
 "bounded exhaustive enumeration of operation sequences on the real structures, compared with a set", "Exhaustive within the bounds.")
