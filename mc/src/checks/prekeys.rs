//! Prekeys: P01 (sets converge, never empty, secrets held), P02 (choice),
//! P03 (history order).
use crate::{det, exec::block_on, explore::*, report::*, world::*};
use keyhive_core::contact_card::ContactCard;
use keyhive_core::principal::{
    document::id::DocumentId,
    individual::{
        op::{add_key::AddKeyOp, rotate_key::RotateKeyOp, KeyOp},
        state::PrekeyState,
        Individual,
    },
};
use keyhive_core::transact::{fork::Fork, merge::Merge};
use keyhive_crypto::share_key::{ShareKey, ShareSecretKey};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

fn sk(i: usize) -> ShareSecretKey {
    let mut b = [(i % 251) as u8 + 1; 32];
    b[8] = (i / 251) as u8 + b[8] % 8;
    ShareSecretKey::force_from_bytes(b)
}
fn pk(i: usize) -> ShareKey {
    sk(i).share_key()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Op {
    Add(usize),
    Rot(usize, usize),
}
impl std::fmt::Display for Op {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Op::Add(k) => write!(f, "+{k}"),
            Op::Rot(a, b) => write!(f, "{a}>{b}"),
        }
    }
}
impl Op {
    fn sign(&self) -> KeyOp {
        let s = signer(9);
        match *self {
            Op::Add(k) => KeyOp::Add(Arc::new(s.try_sign_sync(AddKeyOp { share_key: pk(k) }).unwrap())),
            Op::Rot(a, b) => {
                KeyOp::Rotate(Arc::new(s.try_sign_sync(RotateKeyOp { old: pk(a), new: pk(b) }).unwrap()))
            }
        }
    }
    fn introduces(&self) -> usize {
        match *self {
            Op::Add(k) => k,
            Op::Rot(_, b) => b,
        }
    }
    fn retires(&self) -> Option<usize> {
        match *self {
            Op::Add(_) => None,
            Op::Rot(a, _) => Some(a),
        }
    }
}

/// Reference: introduced and not retired; if that leaves nothing, any nonempty
/// set of introduced keys will do (it only has to be the same everywhere).
fn model_active(ops: &[Op]) -> (BTreeSet<usize>, BTreeSet<usize>) {
    let intro: BTreeSet<usize> = ops.iter().map(|o| o.introduces()).collect();
    let gone: BTreeSet<usize> = ops.iter().filter_map(|o| o.retires()).collect();
    (intro.difference(&gone).copied().collect(), intro)
}

fn alphabet(keys: usize) -> Vec<Op> {
    let mut v: Vec<Op> = (0..keys).map(Op::Add).collect();
    for a in 0..keys {
        for b in 0..keys {
            v.push(Op::Rot(a, b));
        }
    }
    v
}

fn subsets(n: usize, k: usize) -> Vec<Vec<usize>> {
    fn go(n: usize, k: usize, from: usize, acc: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if !acc.is_empty() {
            out.push(acc.clone());
        }
        if acc.len() == k {
            return;
        }
        for i in from..n {
            acc.push(i);
            go(n, k, i + 1, acc, out);
            acc.pop();
        }
    }
    let mut out = vec![];
    go(n, k, 0, &mut vec![], &mut out);
    out
}

/// Histories longer than every one can be tried.
fn families(n: usize) -> Vec<Vec<Op>> {
    let chain = |a: usize, b: usize| (a..b).map(|i| Op::Rot(i, i + 1)).collect::<Vec<_>>();
    let add = |v: Vec<usize>| v.into_iter().map(Op::Add).collect::<Vec<_>>();
    vec![
        // one after another
        [add(vec![0]), chain(0, n)].concat(),
        // the beginning isn't known
        chain(1, n),
        // in a ring
        [chain(0, n), vec![Op::Rot(n, 0)]].concat(),
        // in a ring that was added
        [add(vec![n / 2]), chain(0, n), vec![Op::Rot(n, 0)]].concat(),
        // each twice
        [add(vec![0]), (0..n / 2).flat_map(|i| [Op::Rot(i, 2 * i + 1), Op::Rot(i, 2 * i + 2)]).collect()].concat(),
        // all in favour of one
        [add((0..n).collect()), (0..n).map(|i| Op::Rot(i, n)).collect()].concat(),
        // only every other
        [add((0..n).collect()), (0..n / 2).map(|i| Op::Rot(2 * i, 2 * i + 1)).collect()].concat(),
        // two lines that cross
        [add(vec![0, n + 1]), chain(0, n / 2), chain(n + 1, n + n / 2), vec![Op::Rot(n / 2, n + n / 2), Op::Rot(n + n / 2, n / 2)]].concat(),
        // back and forth
        [add(vec![0]), (1..n).flat_map(|i| [Op::Rot(0, i), Op::Rot(i, 0)]).collect()].concat(),
        // many
        add((0..n).collect()),
    ]
}

fn orders(n: usize) -> Vec<Vec<usize>> {
    if n <= 4 {
        return permutations(n);
    }
    let id: Vec<usize> = (0..n).collect();
    let turn = |k: usize| (0..n).map(|i| (i + k) % n).collect::<Vec<_>>();
    let halves: Vec<usize> = (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect();
    vec![id.clone(), id.into_iter().rev().collect(), turn(1), turn(n / 2), turn(n - 1), halves]
}

fn label(ops: &[Op]) -> String {
    if ops.len() > 12 {
        let (a, b) = (label(&ops[..6]), label(&ops[ops.len() - 6..]));
        return format!("{a},..{}..,{b}", ops.len());
    }
    ops.iter().map(|o| o.to_string()).collect::<Vec<_>>().join(",")
}

/// The active set as the API shows it: what can be picked. Read through a
/// rebuilt state, and cross-checked with the live object by `pick`.
fn active(i: &Individual) -> BTreeSet<ShareKey> {
    let mut s = PrekeyState::new((**i.prekey_ops().values().next().unwrap()).clone());
    s.extend(i.prekey_ops().values().map(|o| (**o).clone())).unwrap();
    s.build().into_iter().collect()
}

fn doc(i: u32) -> DocumentId {
    let s = keyhive_crypto::signer::memory::MemorySigner(ed25519_dalek::SigningKey::from_bytes(&{
        let mut b = [7u8; 32];
        b[..4].copy_from_slice(&i.to_be_bytes());
        b
    }));
    ident(&s).into()
}

/// Picks for a range of documents: what a user of the live object observes.
fn picks(i: &Individual, docs: &[DocumentId]) -> Vec<ShareKey> {
    docs.iter().map(|d| *i.pick_prekey(*d)).collect()
}

pub fn p01(r: &mut Report) {
    let keys = r.tier.pick(4, 5);
    let size = r.tier.pick(4, 4);
    r.bound("keys", keys);
    r.bound("max_ops", size);
    r.bound("delivery", "every order of every op set; every single fork point; duplicates of the first op");
    let alpha = alphabet(keys);
    let long = r.tier.pick(vec![7, 40], vec![6, 7, 16, 40, 100]);
    r.bound("long histories of", format!("{long:?} keys"));
    let sets: Vec<Vec<Op>> = subsets(alpha.len(), size)
        .into_iter()
        .map(|s| s.iter().map(|i| alpha[*i]).collect())
        .chain(long.iter().flat_map(|n| families(*n)))
        .collect();
    let docs: Vec<DocumentId> = (0..6).map(doc).collect();
    let by_key: BTreeMap<ShareKey, usize> = (0..2 * long.iter().max().unwrap() + 2).map(|i| (pk(i), i)).collect();
    par_each(&sets, THREADS, |ix, set| {
        let ops = set.clone();
        let signed: Vec<KeyOp> = ops.iter().map(|o| o.sign()).collect();
        let (want, intro) = model_active(&ops);
        let mut seen: Option<(BTreeSet<usize>, Vec<ShareKey>)> = None;
        let l = label(&ops);
        for (pi, p) in orders(set.len()).into_iter().enumerate() {
            let res = det::run_labelled((ix * 31 + pi) as u64, || l.clone(), || {
                let op = |k: usize| signed[p[k]].clone();
                let mut out = vec![];
                let mut one = Individual::new(op(0));
                for k in 1..p.len() {
                    one.receive_prekey_op(op(k)).unwrap();
                }
                one.receive_prekey_op(op(0)).unwrap();
                out.push(("delivered", active(&one), picks(&one, &docs)));
                // fork after k ops; the fork takes the rest, then merge back
                for k in (1..p.len()).step_by(p.len() / 5 + 1) {
                    let mut base = Individual::new(op(0));
                    for j in 1..k {
                        base.receive_prekey_op(op(j)).unwrap();
                    }
                    let mut f = base.fork();
                    for j in k..p.len() {
                        if (j + k) % 2 == 0 {
                            f.receive_prekey_op(op(j)).unwrap();
                        } else {
                            base.receive_prekey_op(op(j)).unwrap();
                        }
                    }
                    base.merge(f);
                    out.push(("merged", active(&base), picks(&base, &docs)));
                }
                let bytes = bincode::serialize(&one).unwrap();
                let back: Individual = bincode::deserialize(&bytes).unwrap();
                out.push(("stored", active(&back), picks(&back, &docs)));
                out
            });
            r.execution();
            r.transitions(p.len() as u64);
            let out = match res {
                Ok(o) => o,
                Err(e) => {
                    r.violation(&format!("set:{l}:abort"), format!("handling {l} aborted: {e}"), json!({"ops": l}));
                    continue;
                }
            };
            for (how, act, pk) in out {
                r.compared(1);
                let act: BTreeSet<usize> = act.iter().map(|k| by_key[k]).collect();
                r.state(det::hash64(format!("{l}/{act:?}")));
                let ok = if want.is_empty() { !act.is_empty() && act.is_subset(&intro) } else { act == want };
                if !ok {
                    r.violation(
                        &format!("set:{l}:{how}"),
                        format!("after {l} ({how}) active prekeys are {act:?}, expected {want:?}"),
                        json!({"ops": l, "order": p, "how": how}),
                    );
                }
                for k in &pk {
                    if !act.contains(&by_key[k]) {
                        r.violation(
                            &format!("set:{l}:{how}:picked-inactive"),
                            format!("after {l} ({how}) picked prekey {} is not active ({act:?})", by_key[k]),
                            json!({"ops": l, "order": p, "how": how}),
                        );
                    }
                }
                match &seen {
                    None => seen = Some((act, pk)),
                    Some((a, _)) if *a != act => r.violation(
                        &format!("set:{l}:diverged"),
                        format!("replicas with the same ops {l} have active prekeys {a:?} and {act:?}"),
                        json!({"ops": l, "order": p, "how": how}),
                    ),
                    _ => {}
                }
            }
        }
        r.outcome(format!("{} ops, {} active", set.len(), want.len()));
        if ix % 997 == 5 {
            r.sample(|| json!({"ops": l, "active": format!("{want:?}")}));
        }
    });
    p01_replicas(r);
}

/// Real replicas: local expansion, rotation and contact cards on A (and on a
/// second device A2 with the same identity), delivered to B as events or cards
/// in every order.
fn p01_replicas(r: &mut Report) {
    let depth = r.tier.pick(4, 5);
    r.bound("replica_history_depth", depth);
    #[derive(Clone, Copy, Debug)]
    enum L {
        Expand,
        RotateFirst,
        RotateSame,
        Card,
    }
    let alpha = [L::Expand, L::RotateFirst, L::RotateSame, L::Card];
    let mut hists: Vec<Vec<L>> = vec![vec![]];
    for _ in 0..depth {
        let ext: Vec<Vec<L>> = hists
            .iter()
            .flat_map(|h| {
                alpha.iter().map(move |l| {
                    let mut h = h.clone();
                    h.push(*l);
                    h
                })
            })
            .collect();
        hists = ext;
    }
    par_each(&hists, THREADS, |ix, h| {
        let l = format!("{h:?}").replace(' ', "");
        let res = det::run_labelled(ix as u64, || l.clone(), || {
            block_on(async {
                let a = mk(1).await;
                let first = {
                    let i = a.individual().await;
                    let i = i.lock().await;
                    *i.pick_prekey(doc(0))
                };
                let mut cards: Vec<ContactCard> = vec![];
                for x in h {
                    match x {
                        L::Expand => {
                            a.expand_prekeys().await.unwrap();
                        }
                        L::RotateFirst => {
                            let k = {
                                let i = a.individual().await;
                                let i = i.lock().await;
                                *i.pick_prekey(doc(1))
                            };
                            a.rotate_prekey(k).await.unwrap();
                        }
                        // always the same (by now retired) key: concurrent-looking rotations
                        L::RotateSame => {
                            a.rotate_prekey(first).await.unwrap();
                        }
                        L::Card => cards.push(a.contact_card().await.unwrap()),
                    }
                }
                let evs = own_prekeys(&a).await;
                let indie = a.individual().await;
                let published: BTreeSet<ShareKey> =
                    indie.lock().await.prekey_ops().values().map(|o| *o.new_key()).collect();
                let act = active(&*indie.lock().await);
                let pick = picks(&*indie.lock().await, &(0..6).map(doc).collect::<Vec<_>>());
                let secrets: BTreeMap<ShareKey, ShareSecretKey> =
                    bincode::deserialize(&a.export_prekey_secrets().await.unwrap()).unwrap();
                let logged_ops = logged(&a).await.len();
                let mut views = vec![];
                let n = evs.len();
                for order in 0..4usize {
                    let b = mk(2).await;
                    match order {
                        0 => {
                            ingest(&b, &evs).await;
                        }
                        1 => {
                            for c in &cards {
                                b.receive_contact_card(c).await.unwrap();
                            }
                            for e in evs.iter().rev() {
                                ingest(&b, std::slice::from_ref(e)).await;
                            }
                        }
                        2 => {
                            for e in evs.iter() {
                                b.receive_static_event(e.clone()).await.unwrap();
                            }
                            for c in cards.iter().rev() {
                                b.receive_contact_card(c).await.unwrap();
                            }
                        }
                        _ => {
                            for k in 0..n {
                                ingest(&b, &[evs[(k * 3 + 1) % n].clone(), evs[k].clone()]).await;
                            }
                        }
                    }
                    let ib = b.get_individual(a.id()).await.expect("known");
                    let ib = ib.lock().await;
                    views.push((active(&ib), picks(&ib, &(0..6).map(doc).collect::<Vec<_>>())));
                }
                (act, published, pick, secrets, views, logged_ops)
            })
        });
        r.execution();
        r.transitions(h.len() as u64 * 5);
        match res {
            Err(e) => r.violation(&format!("replica:{l}:abort"), e.to_string(), json!({"history": l})),
            Ok((act, published, pick, secrets, views, logged_ops)) => {
                r.state(det::hash64(format!("{l}{act:?}")));
                r.compared(views.len() as u64);
                if act.is_empty() {
                    r.violation(&format!("replica:{l}:empty"), "no active prekey", json!({"history": l}));
                }
                // somebody may have used a prekey before hearing that it was retired
                for k in published.union(&act) {
                    if secrets.get(k).map(|s| s.share_key()) != Some(*k) {
                        r.violation(
                            &format!("replica:{l}:secret"),
                            "the owner published a prekey but doesn't hold its secret",
                            json!({"history": l}),
                        );
                    }
                }
                for (i, (va, vp)) in views.iter().enumerate() {
                    if *va != act || *vp != pick {
                        r.violation(
                            &format!("replica:{l}:differs"),
                            format!("a peer (delivery {i}) sees other active prekeys or picks than the owner"),
                            json!({"history": l, "delivery": i}),
                        );
                    }
                }
                let expected: usize = h.iter().map(|x| if matches!(x, L::Card) { 2 } else { 1 }).sum();
                if logged_ops != expected {
                    r.violation(
                        &format!("replica:{l}:unlogged"),
                        format!("{expected} prekey ops made, {logged_ops} reported to the listener"),
                        json!({"history": l}),
                    );
                }
            }
        }
    });
}

pub fn p02(r: &mut Report) {
    let max = r.tier.pick(24, 48);
    let docs_n = r.tier.pick(2000, 8000);
    let seeds = r.tier.pick(4u64, 8);
    r.bound("active_prekeys", max);
    r.bound("documents", docs_n);
    r.bound("hash_seeds", seeds);
    // around where another bit or byte is needed to tell them apart
    let many: Vec<usize> = r.tier.pick(vec![31, 33, 63, 65, 128, 129, 257], vec![63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 300, 513]);
    r.bound("active_prekeys, also", format!("{many:?}"));
    let docs: Vec<DocumentId> = (0..docs_n).map(doc).collect();
    let more_docs: Vec<DocumentId> = (0..*many.iter().max().unwrap() as u32 * 24).map(doc).collect();
    let signed: Vec<KeyOp> = (0..=*many.iter().max().unwrap()).map(|k| Op::Add(k).sign()).collect();
    let pks: Vec<ShareKey> = (0..signed.len()).map(pk).collect();
    let sizes: Vec<usize> = many.iter().rev().copied().chain(1..=max).collect();
    par_each(&sizes, THREADS, |_, n| {
        let mut first: Option<Vec<ShareKey>> = None;
        let (docs, seeds) = if *n > max { (&more_docs[..n * 24], 2) } else { (&docs[..], seeds) };
        for seed in 0..seeds {
            let res = det::run_labelled(seed, || format!("n={n}"), || {
                let mut i = Individual::new(signed[0].clone());
                // another delivery order per seed
                for k in 1..*n {
                    let k = if seed % 2 == 0 { k } else { n - k };
                    i.receive_prekey_op(signed[k].clone()).unwrap();
                }
                picks(&i, docs)
            });
            r.execution();
            r.transitions(docs.len() as u64);
            let picks = match res {
                Ok(p) => p,
                Err(e) => {
                    r.violation(&format!("n={n}:abort"), e.to_string(), json!({"n": n}));
                    break;
                }
            };
            r.compared(picks.len() as u64);
            let used: BTreeSet<ShareKey> = picks.iter().copied().collect();
            for k in &used {
                r.state(det::hash64(format!("{n}/{k:?}")));
            }
            if used.iter().any(|k| !pks[..*n].contains(k)) {
                r.violation(&format!("n={n}:inactive"), "picked a key that isn't active", json!({"n": n}));
            }
            // every active prekey must be the choice for some document
            if used.len() != *n {
                r.violation(
                    &format!("n={n}:spread"),
                    format!("over {} documents only {} of {n} active prekeys are ever chosen", docs.len(), used.len()),
                    json!({"n": n}),
                );
            }
            let most = used.iter().map(|k| picks.iter().filter(|p| *p == k).count()).max().unwrap_or(0);
            if most > picks.len() * 4 / n {
                r.violation(
                    &format!("n={n}:skew"),
                    format!("of {} documents {most} depend on one of {n} active prekeys", docs.len()),
                    json!({"n": n}),
                );
            }
            match &first {
                None => first = Some(picks),
                Some(f) if *f != picks => r.violation(
                    &format!("n={n}:nondeterministic"),
                    "two holders of the same prekeys choose different prekeys for the same document",
                    json!({"n": n, "seed": seed}),
                ),
                _ => {}
            }
        }
        r.outcome(format!("{n} active"));
        r.sample(|| json!({"active": n, "documents": docs.len()}));
    });
    r.assume("blake3 spreads document ids; with 2000+ documents every one of 48 keys is hit unless selection is skewed");
}

pub fn p03(r: &mut Report) {
    let keys = r.tier.pick(4, 4);
    let size = r.tier.pick(5, 6);
    let seeds = r.tier.pick(2u64, 3);
    r.bound("keys", keys);
    r.bound("max_ops", size);
    r.bound("hash_seeds", seeds);
    let alpha = alphabet(keys);
    let long = r.tier.pick(vec![7, 40, 200], vec![6, 7, 8, 16, 40, 200, 600]);
    r.bound("long histories of", format!("{long:?} keys"));
    let sets: Vec<Vec<Op>> = subsets(alpha.len(), size)
        .into_iter()
        .map(|s| s.iter().map(|i| alpha[*i]).collect())
        .chain(long.iter().flat_map(|n| families(*n)))
        .collect();
    par_each(&sets, THREADS, |ix, ops| {
        let signed: Vec<KeyOp> = ops.iter().map(|o| o.sign()).collect();
        let name: BTreeMap<Vec<u8>, usize> =
            signed.iter().enumerate().map(|(i, o)| (o.signature().to_bytes().to_vec(), i)).collect();
        let l = label(ops);
        // can every op be placed after one that introduces what it retires?
        let mut placed: BTreeSet<usize> = BTreeSet::new();
        let mut known: BTreeSet<usize> = BTreeSet::new();
        loop {
            let before = placed.len();
            for (i, o) in ops.iter().enumerate() {
                if !placed.contains(&i) && o.retires().map(|k| known.contains(&k)).unwrap_or(true) {
                    placed.insert(i);
                    known.insert(o.introduces());
                }
            }
            if placed.len() == before {
                break;
            }
        }
        let sortable = placed.len() == ops.len();
        for seed in 0..seeds {
            let res = det::run_labelled(seed * 7919 + ix as u64, || l.clone(), || {
                let mut s = PrekeyState::new(signed[0].clone());
                for o in &signed[1..] {
                    s.insert_op(o.clone()).unwrap();
                }
                KeyOp::topsort(s.ops()).iter().map(|o| name[&o.signature().to_bytes().to_vec()]).collect::<Vec<_>>()
            });
            r.execution();
            r.transitions(ops.len() as u64);
            r.compared(1);
            let got = match res {
                Ok(g) => g,
                Err(e) => {
                    r.violation(&format!("ops:{l}:abort"), e.to_string(), json!({"ops": l}));
                    continue;
                }
            };
            r.state(det::hash64(format!("{got:?}")));
            let mut sorted = got.clone();
            sorted.sort();
            if !sorted.iter().copied().eq(0..ops.len()) {
                r.violation(
                    &format!("ops:{l}:complete"),
                    format!("ordering {l} gives {} ops", got.len()),
                    json!({"ops": l}),
                );
            }
            if sortable {
                let mut known = BTreeSet::new();
                for g in &got {
                    if ops[*g].retires().is_some_and(|k| !known.contains(&k)) {
                        r.violation(
                            &format!("ops:{l}:order"),
                            format!("a rotation is listed before the op that introduces its old key: {l}"),
                            json!({"ops": l}),
                        );
                    }
                    known.insert(ops[*g].introduces());
                }
            }
        }
        r.outcome(if sortable { "sortable" } else { "rotation of unknown or cyclic keys" });
        if ix % 997 == 3 {
            r.sample(|| json!({"ops": l}));
        }
    });
}
