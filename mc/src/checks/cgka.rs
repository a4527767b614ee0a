//! Key agreement on real `Cgka` replicas: K01 (convergence and agreement), K02
//! (who can't derive a key, even knowing everything they ever could).
use crate::{exec::block_on, net::*, report::*, world::signer};
use beekem::{cgka::Cgka, transact::{Fork, Merge}, keys::ShareKeyMap, operation::CgkaOperation, tree::PathChange};
use future_form::Sendable;
use keyhive_crypto::share_key::{ShareKey, ShareSecretKey};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::Mutex;

fn names(s: &BTreeSet<u8>) -> String {
    s.iter().map(|i| nm(*i)).collect()
}

/// Secrets of person `i` at the end of the history.
fn secrets(net: &Net, i: u8) -> Option<ShareKeyMap> {
    net.cg[i as usize].as_ref().map(|c| c.owner_sks.clone())
}

fn root(c: &mut Cgka) -> Option<[u8; 32]> {
    if !c.has_pcs_key() {
        return None;
    }
    c.pcs_key_from_tree_root().ok().map(|k| k.0.to_bytes())
}

fn k01_oracle(net: &Net, cap: usize) -> Symptoms {
    let mut v: Symptoms = vec![];
    let (orders, _) = net.orders(cap);
    let all: BTreeSet<usize> = (0..net.ops.len()).collect();
    let mut first: Option<(Vec<usize>, BTreeSet<u8>, bool)> = None;
    let show = |o: &[usize]| o.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(" ");
    // one observer in every order
    let people: Vec<u8> = (0..net.n).filter(|i| net.cg[*i as usize].is_some()).collect();
    for order in &orders {
        let mut c = match replica(net, 0, secrets(net, 0).unwrap(), order) {
            Ok(c) => c,
            Err(e) => {
                v.push(("refused".into(), format!("order {}: {e}", show(order))));
                return v;
            }
        };
        let ms = members(&c, net.n);
        let has = c.has_pcs_key();
        let _ = root(&mut c);
        match &first {
            None => {
                for x in 0..net.n {
                    if net.should_be_member(x, &all) == Some(!ms.contains(&x)) {
                        v.push(("members".into(), format!("members are [{}]", names(&ms))));
                    }
                }
                first = Some((order.clone(), ms, has));
            }
            Some((o1, m1, h1)) => {
                if *m1 != ms || *h1 != has {
                    v.push(("diverged".into(), format!("order {} gives [{}] (key: {h1}), order {} gives [{}] (key: {has})", show(o1), names(m1), show(order), names(&ms))));
                    return v;
                }
            }
        }
    }
    let (_, ms, has) = first.unwrap();
    // everybody, in the first and the last order
    let ends: Vec<&Vec<usize>> = if orders.len() > 1 { vec![&orders[0], orders.last().unwrap()] } else { vec![&orders[0]] };
    let mut reps: BTreeMap<u8, Vec<Cgka>> = Default::default();
    let mut keys: BTreeSet<[u8; 32]> = Default::default();
    for i in &people {
        for o in &ends {
            match replica(net, *i, secrets(net, *i).unwrap(), o) {
                Ok(mut c) => {
                    if has {
                        let k = root(&mut c);
                        if k.is_some() != ms.contains(i) {
                            v.push(("access".into(), format!("members are [{}]; {} {} the key", names(&ms), nm(*i), if k.is_some() { "has" } else { "lacks" })));
                        }
                        keys.extend(k);
                    }
                    reps.entry(*i).or_default().push(c);
                }
                Err(e) => v.push(("refused".into(), format!("{} in order {}: {e}", nm(*i), show(o)))),
            }
        }
    }
    if keys.len() > 1 {
        v.push(("keys".into(), format!("{} different keys", keys.len())));
    }
    if !v.is_empty() {
        return v;
    }
    // forked and merged
    for i in people.iter().take(2) {
        v.extend(forks(net, *i, &secrets(net, *i).unwrap(), ends[0], &mut reps.get_mut(i).unwrap()[0].clone()));
    }
    if !v.is_empty() {
        return v;
    }
    // every content, for everybody
    for (n, c) in net.contents.iter().enumerate() {
        for i in &people {
            for rep in &reps[i] {
                let mut rep = rep.clone();
                let got = rep.decryption_key_for(&c.enc).ok().and_then(|k| c.enc.try_decrypt(k).ok());
                if got.as_ref().is_some_and(|t| *t != c.text) {
                    v.push(("content".into(), format!("content {n} decrypts to something else")));
                }
                if got.is_some() != c.members.contains(i) {
                    v.push(("content".into(), format!("content {n} by {} for [{}]: {} {} read it", nm(c.by), names(&c.members), nm(*i), if got.is_some() { "can" } else { "can't" })));
                    return v;
                }
            }
        }
    }
    // whoever updates next, everybody follows
    for u in ms.iter().filter(|u| people.contains(u)) {
        for (side, rep) in reps[u].iter().enumerate() {
            let mut a = rep.clone();
            let mut rng = crate::det::DetRng::new(50 + *u as u64);
            let sk = ShareSecretKey::generate(&mut rng);
            let (k, op) = match block_on(a.update::<Sendable, _, _>(sk.share_key(), sk, &signer(u + 1), &mut rng)) {
                Ok(x) => x,
                Err(e) => {
                    v.push(("stuck".into(), format!("{} can't update: {e:?}", nm(*u))));
                    continue;
                }
            };
            let op = std::sync::Arc::new(op);
            for i in &people {
                let mut c = reps[i].last().unwrap().clone();
                if side == 1 {
                    c = reps[i][0].clone();
                }
                if *i == *u {
                    continue;
                }
                if let Err(e) = receive(&mut c, &op) {
                    v.push(("refused".into(), format!("update by {}: {} {e}", nm(*u), nm(*i))));
                    continue;
                }
                let got = c.pcs_key_from_tree_root().ok().map(|k| k.0.to_bytes());
                let want = ms.contains(i).then(|| k.0.to_bytes());
                if got != want {
                    v.push(("next".into(), format!("after an update by {}, {} {} the key", nm(*u), nm(*i), if got.is_none() { "lacks" } else { "has another or should lack" })));
                }
            }
        }
    }
    v
}

/// Histories: small trees where everybody acts, and larger ones with few actors.
fn configs(t: Tier) -> Vec<NetCfg> {
    let mut v = vec![];
    // `k` members; `full`: each has updated in turn, so that few nodes are blank
    let grow = |k: u8, full: bool| -> Vec<Mv> {
        let mut b: Vec<Mv> = (1..k).map(|x| Mv::Add(0, x)).collect();
        b.push(Mv::Upd(0));
        b.push(Mv::All);
        if full {
            for x in 1..k {
                b.push(Mv::Upd(x));
                b.push(Mv::All);
            }
        }
        b
    };
    let moves = |actors: &[u8], targets: &[u8], adds: &[u8]| -> Vec<Mv> {
        let mut m = vec![];
        for a in actors {
            m.push(Mv::Upd(*a));
            for x in targets {
                if *x != *a {
                    m.push(Mv::Rem(*a, *x));
                }
            }
            for x in adds {
                m.push(Mv::Add(*a, *x));
            }
            for b in actors {
                if a != b {
                    m.push(Mv::Push(*a, *b));
                }
            }
        }
        m
    };
    // (size, all have updated, people, actors, removable, addable, depth quick, depth thorough)
    type Row = (u8, bool, u8, &'static [u8], &'static [u8], &'static [u8], usize, usize);
    let table: &[Row] = &[
        (2, false, 4, &[0, 1], &[0, 1, 2], &[2, 3], 4, 5),
        (3, false, 4, &[0, 1, 2], &[0, 1, 2], &[1, 3], 3, 4),
        (4, false, 5, &[0, 1, 3], &[1, 2], &[2, 4], 3, 4),
        (5, false, 6, &[0, 4], &[2, 3], &[3, 5], 4, 5),
        (4, true, 5, &[0, 3], &[1, 2], &[4], 3, 4),
        (5, true, 6, &[0, 4], &[2, 4], &[5], 3, 4),
        (6, true, 7, &[1, 5], &[4, 0], &[6], 3, 4),
        (7, false, 8, &[2, 6], &[5, 3], &[7], 3, 4),
        (8, true, 9, &[3, 7], &[6, 0], &[8], 3, 4),
        (9, false, 10, &[1, 8], &[2, 7], &[9], 3, 4),
    ];
    for (k, full, n, actors, rem, add, q, th) in table {
        v.push(NetCfg { n: *n, keys: Keys::Fresh, base: grow(*k, *full), moves: moves(actors, rem, add), depth: t.pick(*q, *th) });
    }
    v.push(NetCfg { n: 4, keys: Keys::PerAdder, base: grow(2, false), moves: moves(&[0, 1], &[2, 3], &[2, 3]), depth: t.pick(4, 5) });
    v
}

/// Many act at the same time, round after round.
fn rounds(t: Tier) -> Vec<Rounds> {
    let grow = |k: u8| -> Vec<Mv> {
        let mut b: Vec<Mv> = (1..k).map(|x| Mv::Add(0, x)).collect();
        b.extend([Mv::Upd(0), Mv::All]);
        b
    };
    let full = |k: u8| -> Vec<Mv> { grow(k).into_iter().chain((1..k).flat_map(|x| [Mv::Upd(x), Mv::All])).collect() };
    let none: Vec<Mv> = vec![];
    let mut v = vec![];
    // four of four, once: any of them updates, leaves nothing in place, or replaces
    for base in [grow(4), full(4)] {
        let choices = (0..4u8)
            .map(|a| {
                let x = (a + 1) % 4;
                vec![none.clone(), vec![Mv::Upd(a)], vec![Mv::Rem(a, x)], vec![Mv::Add(a, 4 + a % 2)], vec![Mv::Rem(a, x), Mv::Add(a, x)], vec![Mv::Add(a, 5), Mv::Upd(a)]]
            })
            .collect();
        v.push(Rounds { n: 6, keys: Keys::Fresh, base, choices, rounds: 1 });
    }
    // three, again and again
    for (k, who) in [(4u8, [0u8, 1, 3]), (5, [0, 2, 4]), (8, [1, 4, 7])] {
        let choices = who
            .iter()
            .map(|a| {
                let x = (*a + 1) % k;
                let mut c = vec![vec![Mv::Upd(*a)], vec![Mv::Rem(*a, x)], vec![Mv::Add(*a, if *a == who[0] { x } else { k })]];
                if t == Tier::Thorough {
                    c.push(none.clone());
                }
                c
            })
            .collect();
        v.push(Rounds { n: k + 1, keys: Keys::Fresh, base: grow(k), choices, rounds: t.pick(2, 3) });
    }
    // a large tree
    for k in t.pick(vec![9u8, 17], vec![9, 12, 16, 17, 20]) {
        let choices = [0u8, k / 2, k - 1]
            .iter()
            .map(|a| {
                let x = (*a + 2) % k;
                vec![none.clone(), vec![Mv::Upd(*a)], vec![Mv::Rem(*a, x)], vec![Mv::Rem(*a, k - 1), Mv::Add(*a, k - 1)], vec![Mv::Add(*a, k), Mv::Upd(*a)]]
            })
            .collect();
        v.push(Rounds { n: k + 1, keys: Keys::Fresh, base: full(k), choices, rounds: 1 });
    }
    // seats falling free at the end
    let choices = vec![
        vec![vec![Mv::Rem(0, 5)], vec![Mv::Rem(0, 5), Mv::Rem(0, 4)], vec![Mv::Rem(0, 4), Mv::Add(0, 6)]],
        vec![vec![Mv::Rem(1, 4)], vec![Mv::Rem(1, 3), Mv::Rem(1, 4)], vec![Mv::Upd(1)]],
        vec![vec![Mv::Add(2, 6)], vec![Mv::Add(2, 7), Mv::Rem(2, 5)], vec![Mv::Upd(2)]],
        vec![vec![Mv::Upd(3)], vec![Mv::Rem(3, 5), Mv::Add(3, 5)]],
    ];
    v.push(Rounds { n: 8, keys: Keys::Fresh, base: full(6), choices, rounds: t.pick(1, 2) });
    v
}

/// A replica that forks, where the fork receives some of the operations and it
/// the others, is after merging like one that received them all.
fn forks(net: &Net, i: u8, sks: &ShareKeyMap, order: &[usize], want: &mut Cgka) -> Symptoms {
    let mut v: Symptoms = vec![];
    let all: BTreeSet<usize> = order.iter().copied().collect();
    let ends: Vec<usize> = order.iter().copied().filter(|o| !order.iter().any(|p| net.past[*p].contains(o))).collect();
    let below = |tips: &[usize]| -> BTreeSet<usize> { tips.iter().flat_map(|e| net.past[*e].iter().copied().chain([*e])).filter(|o| *o != 0).collect() };
    let mut splits: Vec<(BTreeSet<usize>, BTreeSet<usize>)> = vec![];
    for (n, e) in ends.iter().enumerate() {
        let others: Vec<usize> = ends.iter().enumerate().filter(|(m, _)| *m != n).map(|(_, e)| *e).collect();
        splits.push((below(&[*e]), below(&others)));
    }
    // nothing happens to one of them
    splits.push((order[..order.len() / 2].iter().copied().collect(), all.clone()));
    splits.push((all.clone(), order[..order.len() / 2].iter().copied().collect()));
    for (a, b) in splits {
        let common: Vec<usize> = order.iter().copied().filter(|o| a.contains(o) && b.contains(o)).collect();
        let Ok(start) = replica(net, i, sks.clone(), &common) else { return v };
        let (mut trunk, mut fork) = (start.clone(), start.fork());
        for o in order.iter().filter(|o| !common.contains(o)) {
            for (c, set) in [(&mut trunk, &a), (&mut fork, &b)] {
                if set.contains(o) && receive(c, &net.ops[*o]).is_err() {
                    return v;
                }
            }
        }
        trunk.merge(fork);
        let (m1, m2) = (members(&trunk, net.n), members(want, net.n));
        let (k1, k2) = (root(&mut trunk), root(want));
        if m1 != m2 || trunk.has_pcs_key() != want.has_pcs_key() || k1 != k2 {
            v.push((
                "merge".into(),
                format!(
                    "{} merged a fork that had received {b:?} into itself with {a:?}: members [{}], {} key; received directly: [{}], {}{}",
                    nm(i),
                    names(&m1),
                    if k1.is_some() { "has a" } else { "no" },
                    names(&m2),
                    if k2.is_some() { "a key" } else { "none" },
                    if k1.is_some() && k2.is_some() && k1 != k2 { ", another" } else { "" }
                ),
            ));
            return v;
        }
    }
    v
}

pub fn k01(r: &mut Report) {
    let t = r.tier;
    let done = Mutex::new(HashSet::new());
    for c in configs(t) {
        search_net(r, &c, &done, |n| k01_oracle(n, t.pick(24, 120)));
    }
    for c in rounds(t) {
        search_rounds(r, &c, &done, |n| k01_oracle(n, t.pick(8, 24)));
    }
    r.bound("delivery orders per set of operations", t.pick(24, 120));
}

/// The mirror image of `SecretStore`, whose versions have no accessor.
#[derive(serde::Deserialize)]
struct Versions {
    versions: Vec<beekem::secret_store::SecretStoreVersion>,
}

fn paths(net: &Net) -> Vec<(usize, PathChange)> {
    net.ops
        .iter()
        .enumerate()
        .filter_map(|(i, o)| match o.payload() {
            CgkaOperation::Update { new_path, .. } => Some((i, new_path.as_ref().clone())),
            _ => None,
        })
        .collect()
}

/// Everything that follows from `sks` and all published operations.
fn closure(net: &Net, sks: &ShareKeyMap) -> HashSet<[u8; 32]> {
    let bytes = bincode::serialize(sks).expect("sks");
    let map: BTreeMap<ShareKey, ShareSecretKey> = bincode::deserialize(&bytes).expect("sks");
    let mut known: BTreeMap<ShareKey, ShareSecretKey> = map;
    let mut locked = vec![];
    for (_, p) in paths(net) {
        for (_, store) in &p.path {
            let vs: Versions = bincode::deserialize(&bincode::serialize(store).expect("store")).expect("store");
            for ver in vs.versions {
                for e in ver.sk.values() {
                    locked.push((ver.encrypter_pk, e.clone()));
                }
            }
        }
    }
    loop {
        let mut fresh = vec![];
        for (enc, e) in &locked {
            if let Some(sk) = known.get(enc) {
                if let Ok(b) = e.try_encrypter_decrypt(sk) {
                    fresh.push(b);
                }
            }
            let mut m = ShareKeyMap::new();
            for (pk, sk) in &known {
                m.insert(*pk, *sk);
            }
            if known.contains_key(&e.paired_pk) {
                if let Ok(b) = m.try_decrypt_encryption(*enc, e) {
                    fresh.push(b);
                }
            }
        }
        let before = known.len();
        for b in fresh {
            let arr: [u8; 32] = b.try_into().expect("32 bytes");
            let sk = ShareSecretKey::force_from_bytes(arr);
            known.insert(sk.share_key(), sk);
        }
        if known.len() == before {
            return known.values().map(|s| s.to_bytes()).collect();
        }
    }
}

fn k02_oracle(net: &Net) -> Symptoms {
    let mut v: Symptoms = vec![];
    for i in 0..net.n {
        let Some(sks) = secrets(net, i) else { continue };
        let can = closure(net, &sks);
        for (n, c) in net.contents.iter().enumerate() {
            if !c.members.contains(&i) && can.contains(&c.root) {
                v.push(("outsider".into(), format!("{} can derive the key of content {n} by {} for [{}]", nm(i), nm(c.by), names(&c.members))));
            }
            if c.members.contains(&i) && !can.contains(&c.root) {
                v.push(("oracle".into(), format!("{} can't derive the key of content {n} though a member: the closure is too small", nm(i))));
            }
        }
    }
    // secrets that leaked before an update don't open what follows it
    for (i, upd, sks) in &net.before_update {
        let can = closure(net, sks);
        for (n, c) in net.contents.iter().enumerate() {
            // being added anew makes one's key at that time count again
            let readded = c.past.iter().any(|o| {
                !net.past[*upd].contains(o) && matches!(net.ops[*o].payload(), CgkaOperation::Add { added_id, .. } if *added_id == mid(*i))
            });
            if c.past.contains(upd) && !readded && can.contains(&c.root) {
                v.push(("leak".into(), format!("secrets of {} from before its update {upd} open content {n} by {}", nm(*i), nm(c.by))));
            }
        }
    }
    v
}

pub fn k02(r: &mut Report) {
    let t = r.tier;
    let done = Mutex::new(HashSet::new());
    for c in configs(t) {
        search_net(r, &c, &done, k02_oracle);
    }
    for c in rounds(t) {
        search_rounds(r, &c, &done, k02_oracle);
    }
    let _ = t;
}
