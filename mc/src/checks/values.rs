//! U02: recording listeners. U03: equal values behave as equals.
use crate::{det, exec::block_on, explore::*, report::*, world::*};
use beekem::transact::{Fork as BFork, Merge as BMerge};
use future_form::Sendable;
use futures::lock::Mutex;
use keyhive_core::access::Access;
use keyhive_core::keyhive::Keyhive;
use keyhive_core::listener::{deque::Deque, log::Log};
use keyhive_core::principal::individual::{
    op::{add_key::AddKeyOp, rotate_key::RotateKeyOp, KeyOp},
    Individual,
};
use keyhive_core::transact::{fork::Fork, merge::Merge};
use keyhive_crypto::{
    digest::Digest,
    share_key::ShareSecretKey,
    signer::memory::MemorySigner,
};
use serde_json::json;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::BTreeSet;
use std::hash::{Hash, Hasher};
use std::sync::Arc;

/// All sequences of `n` numbers below `k`.
fn words(k: usize, n: usize) -> Vec<Vec<usize>> {
    (0..n).fold(vec![vec![]], |w, _| w.into_iter().flat_map(|v: Vec<usize>| (0..k).map(move |x| [v.clone(), vec![x]].concat())).collect())
}

const CALLS: [&str; 7] = ["group", "doc", "add", "revoke", "rotate", "expand", "update"];

/// Makes the calls on a replica with a listener `$l`, and returns what `$drain` of the listener yields.
macro_rules! perform {
    ($calls:expr, $ty:ty, $l:expr, $every:expr) => {{
        let l: $ty = $l;
        let mk = |i: u8, l: $ty| async move {
            Keyhive::<Sendable, MemorySigner, T, Vec<u8>, Store, $ty, det::DetRng>::generate(signer(i), Store::new(), l, det::DetRng::new(i as u64)).await.unwrap()
        };
        let a = mk(1, l.clone()).await;
        let b = mk(2, <$ty>::new()).await;
        let friend = Arc::new(Mutex::new(Individual::from(b.contact_card().await.unwrap())));
        a.register_individual(friend.clone()).await;
        let g = a.generate_doc(vec![], nonempty::nonempty![[7; 32]]).await.unwrap();
        let gid = g.lock().await.doc_id();
        let m = keyhive_core::principal::membered::Membered::Document(gid, g.clone());
        for c in $calls {
            match CALLS[*c] {
                "group" => {
                    a.generate_group(vec![]).await.unwrap();
                }
                "doc" => {
                    a.generate_doc(vec![], nonempty::nonempty![[8; 32]]).await.unwrap();
                }
                "add" => {
                    let ag = a.get_agent(ident(&signer(2))).await.unwrap();
                    let _ = a.add_member(ag, &m, Access::Edit, &[]).await;
                }
                "revoke" => {
                    let _ = a.revoke_member(ident(&signer(2)), true, &m).await;
                }
                "rotate" => {
                    let k = *a.active().lock().await.individual().lock().await.pick_prekey(gid);
                    let _ = a.rotate_prekey(k).await;
                }
                "expand" => {
                    let _ = a.expand_prekeys().await;
                }
                _ => {
                    let _ = a.force_pcs_update(g.clone()).await;
                }
            }
            $every(&l).await;
        }
        l
    }};
}

fn drained(r: &Report, calls: &[usize]) {
    let name = calls.iter().map(|c| CALLS[*c]).collect::<Vec<_>>().join(",");
    let bad = |what: &str, d: String| r.violation(&format!("calls:{name}:{what}"), d, json!({"calls": name}));
    r.execution();
    r.transitions(2 * calls.len() as u64);
    let h = |e: &Ev| ev_hash(e);
    let told = det::run(0, || {
        block_on(async {
            let at: Arc<Mutex<Vec<usize>>> = Default::default();
            let l = perform!(calls, Log<Sendable, MemorySigner>, Log::new(), |l: &Log<Sendable, MemorySigner>| {
                let (l, at) = (l.clone(), at.clone());
                async move { at.lock().await.push(l.len().await) }
            });
            let all: Vec<[u8; 32]> = l.0.lock().await.iter().map(|e| h(&e.clone().into())).collect();
            let mut back = vec![];
            while let Some(e) = l.pop().await {
                back.push(h(&e.into()));
            }
            back.reverse();
            let at = at.lock().await.clone();
            (all, back, at)
        })
    });
    let queued = det::run(0, || {
        block_on(async {
            let l = perform!(calls, Deque<Sendable, MemorySigner>, Deque::new(), |_: &Deque<Sendable, MemorySigner>| async {});
            let all: Vec<[u8; 32]> = l.0.lock().await.iter().map(|e| h(&e.clone().into())).collect();
            let mut ends = vec![];
            let mut oldest_first = vec![];
            let first = l.pop_earliest().await;
            let last = l.pop_latest().await;
            for e in [&first, &last] {
                ends.push(e.clone().map(|e| h(&e.into())));
            }
            oldest_first.extend(first.map(|e| h(&e.into())));
            while let Some(e) = l.pop_earliest().await {
                oldest_first.push(h(&e.into()));
            }
            oldest_first.extend(last.map(|e| h(&e.into())));
            (all, ends, oldest_first, l.is_empty().await)
        })
    });
    let (told, queued) = match (told, queued) {
        (Ok(t), Ok(q)) => (t, q),
        (t, q) => return bad("abort", format!("{:?} {:?}", t.err(), q.err())),
    };
    r.compared(2);
    let (all, back, at) = told;
    if back != all {
        bad("log", "the log gives back something else than it was told".into());
    }
    if at.windows(2).any(|w| w[0] > w[1]) || at.last().is_some_and(|n| *n != all.len()) {
        bad("log-length", format!("the log's length is {at:?} after each call"));
    }
    if queued.0 != all {
        bad("deque", format!("the queue was told {} events, the log {}", queued.0.len(), all.len()));
    }
    let want = vec![all.first().copied(), all.get(1..).and_then(|x| x.last()).copied()];
    if queued.1 != want || queued.2 != all || !queued.3 {
        bad("order", "taking the earliest or the latest event from the queue yields another".into());
    }
}

pub fn u02(r: &mut Report) {
    let depth = r.tier.pick(4, 5);
    let all: Vec<Vec<usize>> = (0..=depth).flat_map(|n| words(CALLS.len(), n)).collect();
    {
        let r = &*r;
        par_each(&all, THREADS, |_, w| drained(r, w));
    }
    r.bound("calls", depth as u64);
}

fn fixed<H: Hash>(x: &H) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

macro_rules! maps {
    ($r:expr, $name:literal, $ty:ty, $word:expr, $F:ident, $M:ident) => {{
        let mut m: $ty = <$ty>::new();
        let mut fork: Option<($ty, BTreeSet<u8>)> = None;
        let mut want: BTreeSet<u8> = Default::default();
        let mut bad: Option<&str> = None;
        for o in $word.iter().copied() {
            let (what, v) = (o / 3, (o % 3) as u8);
            let d = Digest::hash(&v);
            match what {
                0 => {
                    if m.insert(Arc::new(v)) != d {
                        bad = Some("insert");
                    }
                    want.insert(v);
                }
                1 => {
                    if m.insert_checked(Arc::new(v)) != (d, want.insert(v)) {
                        bad = Some("insert_checked");
                    }
                }
                2 => {
                    let had = want.remove(&v).then_some(v);
                    let got = if v == 0 { m.remove_by_value(&v) } else { m.remove_by_hash(&d) };
                    if got.as_deref().copied() != had {
                        bad = Some("remove");
                    }
                }
                _ if v == 0 => fork = Some(($F::fork(&m), want.clone())),
                _ if v == 1 => {
                    if let Some((f, w)) = fork.take() {
                        $M::merge(&mut m, f);
                        want.extend(w);
                    }
                }
                _ => {
                    if let Some((f, w)) = fork.as_mut() {
                        std::mem::swap(f, &mut m);
                        std::mem::swap(w, &mut want);
                    }
                }
            }
        }
        for v in 0..3u8 {
            let d = Digest::hash(&v);
            let has = want.contains(&v);
            if m.contains_key(&d) != has || m.contains_value(&v) != has || m.get(&d).map(|x| **x) != has.then_some(v) {
                bad = Some("lookup");
            }
        }
        if m.len() != want.len() || m.is_empty() != want.is_empty() || m.values().map(|v| **v).collect::<BTreeSet<_>>() != want {
            bad = Some("contents");
        }
        // the same contents, put there in other orders
        for down in [false, true] {
            let mut n = <$ty>::new();
            let mut vs: Vec<u8> = want.iter().copied().collect();
            if down {
                vs.reverse();
            }
            for v in vs {
                n.insert(Arc::new(v));
            }
            if n != m || m.partial_cmp(&n) != Some(Ordering::Equal) || n.cmp(&m) != Ordering::Equal || fixed(&m) != fixed(&n) || bincode::serialize(&m).unwrap() != bincode::serialize(&n).unwrap() {
                bad = Some("equality");
            }
        }
        let back: $ty = bincode::deserialize(&bincode::serialize(&m).unwrap()).unwrap();
        if back != m {
            bad = Some("bytes");
        }
        for v in 0..3u8 {
            let mut n = m.clone();
            n.insert(Arc::new(v + 40));
            let (there, back) = (m.cmp(&n), n.cmp(&m));
            if there == Ordering::Equal || there != back.reverse() {
                bad = Some("comparison");
            }
        }
        $r.compared(1);
        if let Some(b) = bad {
            $r.violation(&format!("{}:{:?}:{b}", $name, $word), format!("the map isn't as it should be after {:?} ({b})", $word), json!({"map": $name, "operations": $word}));
        }
    }};
}

fn individuals(r: &Report, order: &[usize]) -> Option<(u64, Vec<u8>)> {
    let s = signer(1);
    let k = |i: u8| ShareSecretKey::force_from_bytes([i + 1; 32]).share_key();
    let ops: Vec<KeyOp> = (0..5u8)
        .map(|i| match i {
            0..=2 => KeyOp::Add(Arc::new(s.try_sign_sync(AddKeyOp { share_key: k(i) }).unwrap())),
            _ => KeyOp::Rotate(Arc::new(s.try_sign_sync(RotateKeyOp { old: k(i - 3), new: k(i) }).unwrap())),
        })
        .collect();
    let make = |o: &[usize]| {
        let mut i = Individual::new(ops[o[0]].clone());
        for x in &o[1..] {
            i.receive_prekey_op(ops[*x].clone()).unwrap();
        }
        i
    };
    let mine = make(order);
    let mut sorted = order.to_vec();
    sorted.sort();
    let other = make(&sorted);
    r.compared(1);
    if mine == other && (fixed(&mine) != fixed(&other) || mine.cmp(&other) != Ordering::Equal) {
        r.violation(&format!("individual:{order:?}"), "two equal individuals hash or compare as different", json!({"order": order}));
    }
    (mine == other).then(|| (fixed(&mine), sorted.iter().map(|x| *x as u8).collect()))
}

pub fn u03(r: &mut Report) {
    let depth = r.tier.pick(5, 6);
    let heads = words(12, 2);
    let tails: Vec<Vec<usize>> = (0..=depth - 2).flat_map(|n| words(12, n)).collect();
    let seeds = 2;
    {
        let r = &*r;
        par_each(&heads, THREADS, |_, head| {
            for seed in 0..seeds {
                let ran = det::run(seed, || {
                    for t in &tails {
                        let w = [head.clone(), t.clone()].concat();
                        r.execution();
                        r.transitions(2 * w.len() as u64);
                        maps!(r, "keyhive_core", keyhive_core::util::content_addressed_map::CaMap<u8>, w, Fork, Merge);
                        maps!(r, "beekem", beekem::content_addressed_map::CaMap<u8>, w, BFork, BMerge);
                    }
                });
                if let Err(e) = ran {
                    r.violation(&format!("maps-{head:?}:abort"), e.to_string(), json!({"start": head}));
                }
            }
        });
        let orders: Vec<Vec<usize>> = (1..=5).flat_map(|n| permutations_of(5, n)).collect();
        par_each(&orders, THREADS, |_, o| {
            let mut seen = BTreeSet::new();
            for seed in 0..4 {
                r.execution();
                match det::run(seed, || individuals(r, o)) {
                    Ok(x) => seen.extend(x),
                    Err(e) => r.violation(&format!("individual:{o:?}:abort"), e.to_string(), json!({"order": o})),
                }
            }
            if seen.len() > 1 {
                r.violation(&format!("individual:{o:?}:seeds"), "the same individual hashes differently", json!({"order": o}));
            }
        });
    }
    r.bound("operations", depth as u64);
    r.bound("hash seeds", seeds);
}

fn permutations_of(n: usize, k: usize) -> Vec<Vec<usize>> {
    words(n, k).into_iter().filter(|w| w.iter().collect::<BTreeSet<_>>().len() == k).collect()
}
