//! S07: transactions on a replica (`transact`): a fork that is changed apart
//! and then merged back, or dropped.
use super::api::{acted_through_shrinking_group, adds, p, revokes};
use super::sync::{announced, first_difference, portrait};
use crate::{explore::*, hist::*, mgraph::who, report::*, world::*};
use futures::lock::Mutex;
use keyhive_core::access::Access::*;
use keyhive_core::transact::{fork::ForkAsync, merge::MergeAsync};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

type Portrait = BTreeMap<String, String>;

fn configs(t: Tier) -> Vec<(Cfg, Vec<Act>)> {
    let bases: Vec<(Vec<Act>, Vec<usize>, Vec<usize>)> = vec![
        (vec![Act::Group { by: 1, with: vec![p(2)] }, Act::All], vec![0], vec![]),
        (vec![Act::Doc { by: 1, with: vec![p(2)] }, Act::All], vec![0], vec![0]),
        (vec![Act::Doc { by: 1, with: vec![p(2)] }, Act::All, Act::Enc { by: 2, res: 0 }, Act::Enc { by: 1, res: 0 }, Act::All], vec![0], vec![0]),
        (
            vec![
                Act::Group { by: 1, with: vec![p(2)] },
                Act::Doc { by: 1, with: vec![] },
                Act::Add { by: 1, who: Who::R(0), res: 1, can: Edit },
                Act::Enc { by: 1, res: 1 },
                Act::All,
            ],
            vec![0, 1],
            vec![1],
        ),
    ];
    let mut out = vec![];
    for (i, (b, res, docs)) in bases.into_iter().enumerate() {
        let mut own = adds(&[1], &[p(3)], &res, &[Edit]);
        own.extend(revokes(&[1], &[p(2), p(3)], &res, &[false]));
        for d in &docs {
            own.push(Act::Enc { by: 1, res: *d });
            own.push(Act::Update { by: 1, res: *d });
        }
        own.push(Act::Rotate { by: 1 });
        own.push(Act::Expand { by: 1 });
        own.push(Act::Group { by: 1, with: vec![p(3)] });
        own.push(Act::Doc { by: 1, with: vec![p(3)] });
        // what else can happen before, or at the replica meanwhile
        let mut others = adds(&[2], &[p(3)], &res[..1], &[Edit]);
        others.extend(revokes(&[2], &[p(3)], &res[..1], &[false]));
        for d in &docs {
            others.push(Act::Enc { by: 2, res: *d });
        }
        others.push(Act::Push { from: 2, to: 1 });
        let _ = t;
        out.push((Cfg { replicas: 3, bases: vec![b], depth: 1, acts: [own.clone(), others].concat(), seed: i as u64, ..Default::default() }, own));
    }
    out
}

/// One transaction by the first replica.
#[derive(Clone, Debug)]
struct Tx {
    body: Vec<Act>,
    /// What happens at the replica itself before the merge.
    meanwhile: Vec<Act>,
    commit: bool,
    then: Vec<Act>,
}

impl std::fmt::Display for Tx {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "[{}]{}{}", hname(&self.body), if self.commit { "ok" } else { "err" }, hname(&self.meanwhile))?;
        if !self.then.is_empty() {
            write!(f, ",{}", hname(&self.then))?;
        }
        Ok(())
    }
}

/// Moves the first replica out, leaving `kh` in its place.
fn swap(sys: &mut Sys, kh: Kh) -> Kh {
    std::mem::replace(&mut sys.kh[0], kh)
}

/// Runs the transaction; `Err` if a call in it isn't applicable.
async fn transact(sys: &mut Sys, tx: &Tx, v: &mut Vec<(String, String)>) -> Result<(), ()> {
    let known = sys.known[0].clone();
    let heard = announced(sys.at(1)).await;
    let fork = sys.at(1).fork_async().await;
    let before = portrait(sys, sys.at(1)).await;
    if let Some((what, a, b)) = first_difference(&before, &portrait(sys, &fork).await) {
        v.push((format!("fork:{what}"), format!("{what} is {a}; in the fork {b}")));
    }
    let n = (sys.msgs.len(), sys.res.len());
    let trunk = swap(sys, fork);
    let at = sys.salt.clone();
    // a fork has a listener of its own
    sys.restart_listening(1, 0);
    for a in &tx.body {
        if sys.apply(a).await == Res::Na {
            return Err(());
        }
    }
    let in_fork = portrait(sys, sys.at(1)).await;
    let reads_fork: Vec<usize> = readable(sys, sys.at(1)).await;
    let fork_known = std::mem::replace(&mut sys.known[0], known.clone());
    let fork = swap(sys, trunk);
    let end = heard.len();
    sys.restart_listening(1, end);
    // nothing has happened at the replica itself
    let new_docs = sys.res.len() > n.1 || sys.msgs.len() > n.0;
    let after = portrait(sys, sys.at(1)).await;
    for (k, a) in &before {
        if after.get(k) != Some(a) && !(new_docs && k == "reads") {
            v.push((format!("leak:{k}"), format!("{k} was {a}; with the transaction not yet merged {:?}", after.get(k))));
        }
    }
    for a in &tx.meanwhile {
        if sys.apply(a).await == Res::Na {
            return Err(());
        }
    }
    let again = portrait(sys, &fork).await;
    for (k, a) in &in_fork {
        if again.get(k) != Some(a) && k != "reads" {
            v.push((format!("isolated:{k}"), format!("{k} in the transaction was {a}; after something else happened at the replica {:?}", again.get(k))));
        }
    }
    if !tx.commit {
        sys.msgs.truncate(n.0);
        sys.salt = at;
        return Ok(());
    }
    let mut reads: BTreeSet<usize> = readable(sys, sys.at(1)).await.into_iter().collect();
    reads.extend(reads_fork);
    let trunk = Arc::new(Mutex::new(swap(sys, mk(9).await)));
    trunk.merge_async(fork).await;
    let trunk = Arc::try_unwrap(trunk).unwrap_or_else(|_| panic!("shared")).into_inner();
    swap(sys, trunk);
    sys.known[0].extend(fork_known);
    sys.collect(0).await;
    let got: BTreeSet<usize> = readable(sys, sys.at(1)).await.into_iter().collect();
    if let Some(m) = reads.difference(&got).next() {
        v.push(("unreadable".into(), format!("content {m} could be read in the transaction or at the replica, but not after the merge")));
    }
    Ok(())
}

async fn readable(sys: &Sys, kh: &Kh) -> Vec<usize> {
    let mut v = vec![];
    for (i, m) in sys.msgs.iter().enumerate() {
        if let Some(d) = kh.get_document(sys.res[m.res].into()).await {
            if kh.try_decrypt_content(d, &m.enc).await.is_ok_and(|t| t == m.text) {
                v.push(i);
            }
        }
    }
    v
}

/// A portrait without what depends on the order hash maps are in: the order
/// of initial members and of equal-ranking predecessors inside operations.
fn normal(m: &Portrait) -> Portrait {
    let mut m = m.clone();
    for (k, x) in m.iter_mut() {
        if k.starts_with("events for ") {
            let mut n: BTreeMap<&str, usize> = Default::default();
            for e in x.trim_matches(['{', '}']).split(", ") {
                let e = e.trim_matches('"');
                *n.entry(if e.contains("prekey") { e } else { &e[..e.len().saturating_sub(8)] }).or_default() += 1;
            }
            *x = format!("{n:?}");
        }
        if k.starts_with("groups") || k.starts_with("documents") {
            // names of delegations
            let mut parts = x.split("(\"");
            let first = parts.next().unwrap_or_default().to_string();
            *x = parts.fold(first, |acc, q| acc + "(" + q.split_once(' ').map(|(_, rest)| rest).unwrap_or(q));
        }
        if k.starts_with("key agreement") {
            // names of operations; who is in shows in what can be read
            *x = x.split('}').map(|d| d.matches('"').count() / 2).map(|n| format!("{n} ")).collect();
        }
    }
    m
}

async fn picture(sys: &Sys, i: u8) -> Portrait {
    let mut m = portrait(sys, sys.at(i)).await;
    m.remove("statistics");
    m
}

/// What everybody has in the end: (own portrait, outcome for everybody).
async fn ends(sys: &mut Sys, then: &[Act]) -> Result<(Portrait, Portrait), ()> {
    let own = picture(sys, 1).await;
    for a in then {
        if sys.apply(a).await == Res::Na {
            return Err(());
        }
    }
    sys.all().await;
    let mut m = Portrait::new();
    for i in 1..=sys.n() {
        for (k, x) in picture(sys, i).await {
            m.insert(format!("{k} at {}", who(i)), x);
        }
    }
    Ok((own, m))
}

type Ended = (Vec<(String, String)>, Option<(Portrait, Portrait)>);

fn run(cfg: &Cfg, hist: &[Act], tx: &Tx) -> Result<Ended, crate::det::Abort> {
    let label = format!("{}/{tx}", hname(hist));
    let tx = tx.clone();
    rerun(
        cfg,
        hist,
        || label,
        move |sys| {
            Box::pin(async move {
                let mut v = vec![];
                if transact(sys, &tx, &mut v).await.is_err() {
                    return (vec![], None);
                }
                let e = ends(sys, &tx.then).await.ok();
                (v, e)
            })
        },
    )
}

/// The same calls made directly.
fn plain(cfg: &Cfg, hist: &[Act], tx: &Tx) -> Result<Option<(Portrait, Portrait)>, crate::det::Abort> {
    let label = format!("{}/{}", hname(hist), hname(&tx.body));
    let tx = tx.clone();
    rerun(
        cfg,
        hist,
        || label,
        move |sys| {
            Box::pin(async move {
                for a in &tx.body {
                    if sys.apply(a).await == Res::Na {
                        return None;
                    }
                }
                ends(sys, &tx.then).await.ok()
            })
        },
    )
}

/// After an exchange everybody agrees about each group and document they know,
/// and everybody with access can read what the others can.
fn disagreement(m: &Portrait) -> Option<(String, String, String)> {
    for k in ["groups", "documents", "key agreement"] {
        let at: Vec<(&String, &String)> = m.iter().filter(|(x, _)| x.starts_with(&format!("{k} at "))).collect();
        for w in at.windows(2) {
            if w[0].1 != w[1].1 {
                return Some((k.into(), format!("{}: {}", w[0].0, w[0].1), format!("{}: {}", w[1].0, w[1].1)));
            }
        }
    }
    None
}

pub fn s07(r: &mut Report) {
    for (cfg, own) in configs(r.tier) {
        let hs = histories(r, &cfg);
        let mut txs: Vec<Tx> = vec![];
        let t = |body: &[&Act], meanwhile: &[&Act], commit, then: &[&Act]| {
            let c = |l: &[&Act]| l.iter().map(|a| (*a).clone()).collect::<Vec<_>>();
            Tx { body: c(body), meanwhile: c(meanwhile), commit, then: c(then) }
        };
        for a in &own {
            txs.push(t(&[a], &[], false, &[]));
            for b in &own {
                txs.push(t(&[a], &[], true, &[b]));
                txs.push(t(&[a, b], &[], true, &[]));
                txs.push(t(&[a], &[b], true, &[]));
                if r.tier == Tier::Thorough {
                    txs.push(t(&[a], &[b], false, &[]));
                    for c in &own {
                        txs.push(t(&[a, b], &[], true, &[c]));
                        txs.push(t(&[a], &[b], true, &[c]));
                    }
                }
            }
            txs.push(t(&[a], &[&Act::Push { from: 2, to: 1 }], true, &[]));
            txs.push(t(&[a], &[&Act::Push { from: 2, to: 1 }], false, &[]));
            // what others did arrives during the transaction
            txs.push(t(&[&Act::Push { from: 2, to: 1 }, a], &[], true, &[]));
            txs.push(t(&[a, &Act::Push { from: 2, to: 1 }], &[], true, &[]));
        }
        let work: Vec<(&Vec<Act>, &Tx)> = hs.iter().flat_map(|h| txs.iter().map(move |t| (h, t))).collect();
        let r = &*r;
        par_each(&work, THREADS, |_, (h, tx)| {
            let name = format!("{}/{tx}", hname(h));
            let known = acted_through_shrinking_group(h);
            let bad = |sym: &str, d: String| {
                let key = format!("{name}:{sym}");
                r.violation(&key, d, json!({"history": hname(h), "transaction": tx.to_string()}))
            };
            r.execution();
            r.transitions((h.len() + tx.body.len() + tx.meanwhile.len() + tx.then.len()) as u64);
            let (v, e) = match run(&cfg, h, tx) {
                Ok(x) => x,
                Err(e) => return bad("abort", e.to_string()),
            };
            for (s, d) in v {
                bad(&s, d);
            }
            let Some((own, all)) = e else { return r.outcome("not applicable") };
            if !tx.commit {
                r.compared(1);
                return r.outcome("dropped");
            }
            if !tx.meanwhile.is_empty() {
                r.compared(1);
                if !known {
                    if let Some((what, a, b)) = disagreement(&all) {
                        bad(&format!("disagree:{what}"), format!("{a}; {b}"));
                    }
                    if let Some((k, p)) = all.iter().find(|(k, p)| k.starts_with("pending at ") && *p != "{}") {
                        bad("pending", format!("{k}: {p}"));
                    }
                }
                return r.outcome("merged with changes on both sides");
            }
            r.execution();
            match plain(&cfg, h, tx) {
                Err(e) => bad("abort", e.to_string()),
                Ok(None) => {}
                Ok(Some((o, a))) => {
                    r.compared(1);
                    r.outcome("merged");
                    if let Some((what, x, y)) = first_difference(&normal(&o), &normal(&own)) {
                        bad(&what, format!("{what} without a transaction: {x}; with: {y}"));
                    } else if let Some((what, x, y)) = first_difference(&normal(&a), &normal(&all)) {
                        bad(&format!("later:{what}"), format!("{what} without a transaction: {x}; with: {y}"));
                    }
                }
            }
        });
    }
    r.bound("replicas", 3);
}
