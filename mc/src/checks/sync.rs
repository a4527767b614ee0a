//! What replicas tell each other: S02 (order of arrival), S03 (what is sent to
//! whom), S04 (bulk queries), S05 (storage), S06 (listeners).
use super::api::{acted_through_shrinking_group, adds, p, revokes};
use crate::{explore::*, hist::*, mgraph::who, report::*, world::*};
use keyhive_core::access::Access;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

use Access::*;

/// Histories in which the order of arrival decides (see known-findings.txt).
const SHRUNK: &str = "class:acts-through-group-while-removed-from-it";

/// Starting points and what may happen from there. `exchange` tells how the
/// participants talk to each other meanwhile.
fn configs(t: Tier, exchange: &dyn Fn(u8) -> Vec<Act>, quick: usize, thorough: usize) -> Vec<Cfg> {
    let bases: Vec<(Vec<Act>, Vec<usize>, Vec<usize>)> = vec![
        (vec![Act::Group { by: 1, with: vec![p(2)] }], vec![0], vec![]),
        (vec![Act::Doc { by: 1, with: vec![p(2)] }], vec![0], vec![0]),
        (
            vec![
                Act::Group { by: 1, with: vec![p(2)] },
                Act::Doc { by: 1, with: vec![] },
                Act::Add { by: 1, who: Who::R(0), res: 1, can: Edit },
            ],
            vec![0, 1],
            vec![1],
        ),
        (
            vec![
                Act::Group { by: 1, with: vec![] },
                Act::Group { by: 1, with: vec![] },
                Act::Doc { by: 1, with: vec![] },
                Act::Add { by: 1, who: Who::R(0), res: 1, can: Edit },
                Act::Add { by: 1, who: Who::R(1), res: 2, can: Edit },
                Act::Add { by: 1, who: p(2), res: 0, can: Admin },
            ],
            vec![0, 2],
            vec![2],
        ),
        (vec![Act::Doc { by: 1, with: vec![Who::Public] }], vec![0], vec![0]),
        (
            vec![
                Act::Doc { by: 1, with: vec![] },
                Act::Doc { by: 1, with: vec![] },
                Act::Add { by: 1, who: Who::R(0), res: 1, can: Read },
                Act::Add { by: 1, who: p(2), res: 0, can: Edit },
            ],
            vec![0, 1],
            vec![1],
        ),
    ];
    let mut out = vec![];
    for (i, (b, res, docs)) in bases.into_iter().enumerate() {
        let mut acts = adds(&[1, 2], &[p(2), p(3)], &res, &[Edit]);
        acts.extend(adds(&[1], &[p(3)], &res[..1], &[Relay]));
        acts.extend(revokes(&[1, 2], &[p(2), p(3)], &res, &[false]));
        if i == 2 || i == 3 {
            acts.extend(revokes(&[1], &[Who::R(if i == 2 { 0 } else { 1 })], &[res[1]], &[false]));
        }
        if i == 4 {
            acts.extend(revokes(&[1], &[Who::Public], &res, &[false]));
            acts.extend(adds(&[1, 2], &[Who::Public], &res, &[Edit]));
        }
        for d in docs {
            acts.push(Act::Enc { by: 1, res: d });
            acts.push(Act::Enc { by: 2, res: d });
            acts.push(Act::Update { by: 2, res: d });
        }
        acts.push(Act::Rotate { by: 2 });
        acts.extend(exchange(3));
        for star in [false, true] {
            out.push(Cfg {
                replicas: 3,
                star,
                bases: vec![b.clone()],
                depth: t.pick(quick, thorough),
                acts: acts.clone(),
                seed: i as u64,
                ..Default::default()
            });
        }
    }
    out
}

/// The larger starting points, and the same before the others have learnt of them.
fn big(t: Tier, quick: usize, thorough: usize) -> Vec<Cfg> {
    let mut out = vec![];
    for c in super::big::configs(t, false, quick, thorough) {
        let mut b = c.bases[0].clone();
        if b.last() == Some(&Act::All) {
            b.pop();
            out.push(Cfg { bases: vec![b], seed: c.seed + 50, ..c.clone() });
        }
        out.push(c);
    }
    out
}

fn pairs(n: u8) -> Vec<(u8, u8)> {
    (1..=n).flat_map(|a| (1..=n).filter(move |b| *b != a).map(move |b| (a, b))).collect()
}

fn syncs(n: u8) -> Vec<Act> {
    pairs(n).into_iter().map(|(from, to)| Act::Sync { from, to }).collect()
}

/// What replica `to` knows about a resource, and what it can read there.
#[derive(Debug, PartialEq, Eq, Clone, Default)]
struct Knows {
    access: Option<BTreeMap<Who, Access>>,
    direct: Option<BTreeMap<Who, Access>>,
    reads: BTreeMap<usize, bool>,
}

async fn knows(sys: &Sys, at: u8, k: usize) -> Knows {
    let mut w = Knows { access: sys.access(at, k).await, direct: sys.direct(at, k).await, ..Default::default() };
    for (i, m) in sys.msgs.iter().enumerate() {
        if m.res == k {
            w.reads.insert(i, sys.decrypt(at, i).await == Ok(true));
        }
    }
    w
}

#[derive(Debug)]
struct Told {
    /// resources that `from` takes `to` for a member of, or that are public
    reach: BTreeSet<usize>,
    before: Vec<Knows>,
    after: Vec<Knows>,
    pending: BTreeSet<String>,
    behind: bool,
}

fn send(cfg: &Cfg, hist: &[Act], from: u8, to: u8, act: Act) -> Result<Told, crate::det::Abort> {
    let label = format!("{}/{act}", hname(hist));
    rerun(
        cfg,
        hist,
        || label,
        move |sys| {
            Box::pin(async move {
                let mut reach = BTreeSet::new();
                let mut before = vec![];
                for k in 0..sys.res.len() {
                    let a = sys.access(from, k).await.unwrap_or_default();
                    if a.contains_key(&Who::P(to)) {
                        reach.insert(k);
                    }
                    before.push(knows(sys, to, k).await);
                }
                let behind = !sys.known[from as usize - 1].is_subset(&sys.known[to as usize - 1]);
                if behind {
                    sys.apply(&act).await;
                }
                let mut after = vec![];
                for k in 0..sys.res.len() {
                    after.push(knows(sys, to, k).await);
                }
                let pending = sys.at(to).pending_event_hashes().await.iter().map(|h| sh(h.raw.as_bytes())).collect();
                Told { reach, before, after, pending, behind }
            })
        },
    )
}

pub fn s03(r: &mut Report) {
    for cfg in configs(r.tier, &syncs, 2, 3).into_iter().chain(big(r.tier, 1, 2)) {
        let hs = histories(r, &cfg);
        let ps = match cfg.replicas {
            3 => pairs(3),
            _ => vec![(1, 2), (1, 4), (1, 6), (2, 1), (2, 6)],
        };
        let work: Vec<(&Vec<Act>, (u8, u8))> = hs.iter().flat_map(|h| ps.iter().map(move |p| (h, *p))).collect();
        let r = &*r;
        par_each(&work, THREADS, |_, (h, (from, to))| {
            let (from, to) = (*from, *to);
            let name = |sym: &str| format!("{}{}:{}>{}:{sym}", if cfg.star { "star:" } else { "" }, hname(h), who(from), who(to));
            let known = acted_through_shrinking_group(h);
            let bad = |sym: &str, d: String| {
                let key = if known { SHRUNK.to_string() } else { name(sym) };
                r.violation(&key, d, json!({"history": hname(h), "from": who(from), "to": who(to)}))
            };
            r.execution();
            let told = match send(&cfg, h, from, to, Act::Sync { from, to }) {
                Ok(t) => t,
                Err(e) => return bad("abort", e.to_string()),
            };
            if !told.behind {
                r.outcome("up to date");
                return;
            }
            r.execution();
            let all = match send(&cfg, h, from, to, Act::Push { from, to }) {
                Ok(t) => t,
                Err(e) => return bad("abort", e.to_string()),
            };
            r.compared(1);
            r.transitions(2 * h.len() as u64 + 2);
            let mut ok = true;
            for k in 0..all.after.len() {
                let (a, b) = (&told.after[k], &all.after[k]);
                if told.reach.contains(&k) && a != b {
                    ok = false;
                    bad(&format!("{k}"), format!("{} is a member of {k}; after receiving what is meant for it it has {a:?}, with everything {b:?}", who(to)));
                }
                let me = |w: &Knows| w.access.as_ref().and_then(|a| a.get(&Who::P(to)).copied());
                if !told.reach.contains(&k) && me(&told.before[k]).is_some() && me(a) != me(b) {
                    ok = false;
                    bad(&format!("{k}-not-told"), format!("{} is no longer a member of {k}; after receiving what is meant for it it has {a:?}, with everything {b:?}", who(to)));
                }
            }
            if !told.pending.is_subset(&all.pending) {
                ok = false;
                bad("pending", format!("{} events wait for something that wasn't sent", told.pending.difference(&all.pending).count()));
            }
            r.outcome(if !ok { "differs" } else if told.reach.is_empty() { "not a member" } else { "told everything" });
        });
    }
    r.bound("replicas", 3);
}

/// Names of events, for messages.
fn ids<I: IntoIterator<Item = [u8; 32]>>(i: I) -> BTreeSet<String> {
    i.into_iter().map(|b| sh(&b)).collect()
}

async fn s04_at(sys: &Sys, at: u8) -> Vec<(String, String)> {
    let mut v = vec![];
    let kh = sys.at(at);
    let mems = kh.membership_ops_for_all_agents().await;
    let keys = kh.reachable_prekey_ops_for_all_agents().await;
    let cgka = kh.cgka_ops_for_all_agents().await;
    for id in sys.universe() {
        let Some(ag) = kh.get_agent(id).await else { continue };
        // bulk queries list everybody known, and groups that are members of something
        let lone = match &ag {
            Ag::Group(..) | Ag::Document(..) => kh.membered_reachable_by_agent(&ag).await.is_empty(),
            _ => false,
        };
        if lone {
            continue;
        }
        let name = sys.name(&id).map(|w| w.to_string()).unwrap_or_default();
        let one = ids(kh.membership_ops_for_agent(&ag).await.keys().map(|d| *d.raw.as_bytes()));
        let bulk = ids(
            mems.index
                .get(&id)
                .into_iter()
                .flatten()
                .flat_map(|s| mems.ops.get(s).into_iter().flat_map(|m| m.keys().map(|d| *d.raw.as_bytes()))),
        );
        if one != bulk {
            v.push((
                format!("{}:{name}:membership", who(at)),
                format!("membership operations for {name}: {} asked one by one, {} in bulk; only one by one {:?}, only in bulk {:?}", one.len(), bulk.len(), one.difference(&bulk), bulk.difference(&one)),
            ));
        }
        let one: BTreeSet<String> = ids(kh
            .reachable_prekey_ops_for_agent(&ag)
            .await
            .into_values()
            .flatten()
            .map(|o| *blake3::hash(&o.signature().to_bytes()).as_bytes()));
        let bulk: BTreeSet<String> = ids(keys
            .index
            .get(&id)
            .into_iter()
            .flatten()
            .flat_map(|s| keys.ops.get(s).into_iter().flatten())
            .map(|o| *blake3::hash(&o.signature().to_bytes()).as_bytes()));
        if one != bulk {
            v.push((
                format!("{}:{name}:prekeys", who(at)),
                format!("prekey operations for {name}: {} asked one by one, {} in bulk", one.len(), bulk.len()),
            ));
        }
        let one: BTreeSet<String> = ids(kh.cgka_ops_reachable_by_agent(&ag).await.iter().map(|o| *blake3::hash(&o.signature().to_bytes()).as_bytes()));
        let bulk: BTreeSet<String> = ids(cgka
            .index
            .get(&id)
            .into_iter()
            .flatten()
            .flat_map(|s| cgka.ops.get(s).into_iter().flatten())
            .map(|o| *blake3::hash(&o.signature().to_bytes()).as_bytes()));
        if one != bulk {
            v.push((
                format!("{}:{name}:cgka", who(at)),
                format!("key agreement operations for {name}: {} asked one by one, {} in bulk", one.len(), bulk.len()),
            ));
        }
    }
    v
}

pub fn s04(r: &mut Report) {
    for cfg in configs(r.tier, &syncs, 2, 3).into_iter().chain(big(r.tier, 1, 2)) {
        let star = cfg.star;
        search(
            r,
            &cfg,
            |_| Box::pin(async { serde_json::Value::Null }),
            move |ran| {
                Box::pin(async move {
                    let mut v = vec![];
                    for i in 1..=ran.sys.n() {
                        for (s, d) in s04_at(ran.sys, i).await {
                            v.push((if star { format!("star:{s}") } else { s }, d));
                        }
                    }
                    v
                })
            },
        );
    }
}

/// Everything observable of replica `kh`.
pub async fn portrait(sys: &Sys, kh: &Kh) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    let v = view(kh, &sys.universe()).await;
    m.insert("groups".into(), format!("{:?}", v.groups));
    m.insert("documents".into(), format!("{:?}", v.docs));
    m.insert("key agreement".into(), format!("{:?}", v.cgka));
    m.insert("agents".into(), format!("{:?}", v.agents));
    m.insert("pending".into(), format!("{:?}", v.pending));
    m.insert("statistics".into(), format!("{:?}", kh.stats().await));
    m.insert("secrets".into(), sh(blake3::hash(&kh.export_prekey_secrets().await.unwrap()).as_bytes()));
    let mut reads = vec![];
    for msg in &sys.msgs {
        let r = match kh.get_document(sys.res[msg.res].into()).await {
            None => "unknown".to_string(),
            Some(d) => match kh.try_decrypt_content(d, &msg.enc).await {
                Ok(t) if t == msg.text => "yes".into(),
                Ok(_) => "wrong".into(),
                Err(_) => "no".into(),
            },
        };
        reads.push(r);
    }
    m.insert("reads".into(), format!("{reads:?}"));
    for i in 1..=sys.n() {
        if let Some(ag) = kh.get_agent(ident(&signer(i))).await {
            let evs: BTreeSet<String> = kh.static_events_for_agent(&ag).await.values().map(|e| format!("{}{}", ev_kind(e), sh(&ev_hash(e)))).collect();
            m.insert(format!("events for {}", who(i)), format!("{evs:?}"));
        }
    }
    for d in kh.reachable_docs().await.keys() {
        let id: keyhive_core::principal::identifier::Identifier = (*d).into();
        m.entry("reachable documents".into()).or_insert_with(String::new).push_str(&idh(&id));
    }
    m
}

pub fn first_difference(a: &BTreeMap<String, String>, b: &BTreeMap<String, String>) -> Option<(String, String, String)> {
    a.keys().chain(b.keys()).find(|k| a.get(*k) != b.get(*k)).map(|k| {
        let g = |m: &BTreeMap<String, String>| m.get(k).cloned().unwrap_or_default();
        (k.clone(), g(a), g(b))
    })
}

/// What everybody sees once everything has been exchanged.
async fn outcome(sys: &mut Sys, results: Vec<Res>) -> BTreeMap<String, String> {
    sys.all().await;
    let mut m = BTreeMap::new();
    m.insert("results".into(), format!("{:?}", results.iter().map(|r| *r == Res::Ok).collect::<Vec<_>>()));
    for i in 1..=sys.n() {
        for k in 0..sys.res.len() {
            m.insert(format!("{} on {k}", who(i)), format!("{:?}", knows(sys, i, k).await));
        }
        m.insert(format!("pending at {}", who(i)), format!("{}", sys.at(i).pending_event_hashes().await.len()));
    }
    m
}

fn later(cfg: &Cfg, hist: &[Act], then: &[Act]) -> Result<BTreeMap<String, String>, crate::det::Abort> {
    let label = format!("{}/{}", hname(hist), hname(then));
    let then = then.to_vec();
    rerun(
        cfg,
        hist,
        || label,
        |sys| {
            Box::pin(async move {
                let mut rs = vec![];
                for a in &then {
                    let r = sys.apply(a).await;
                    if !matches!(a, Act::Restart { .. }) || r != Res::Ok {
                        rs.push(r);
                    }
                }
                outcome(sys, rs).await
            })
        },
    )
}

fn pushes(n: u8) -> Vec<Act> {
    pairs(n)
        .into_iter()
        .map(|(from, to)| Act::Push { from, to })
        .chain([(1, 2), (1, 3), (2, 1)].map(|(from, to)| Act::Drip { from, to }))
        .collect()
}

pub fn s05(r: &mut Report) {
    let mut cfgs = configs(r.tier, &pushes, 1, 2);
    // operations issued after several revocations
    cfgs.push(Cfg {
        replicas: 3,
        bases: vec![vec![
            Act::Doc { by: 1, with: vec![p(2), p(3)] },
            Act::Revoke { by: 1, who: p(2), res: 0, retain: false },
            Act::Revoke { by: 1, who: p(3), res: 0, retain: false },
        ]],
        depth: r.tier.pick(2, 3),
        acts: [adds(&[1], &[p(2), p(3)], &[0], &[Edit]), revokes(&[1, 2], &[p(2), p(3)], &[0], &[false]), vec![Act::Push { from: 1, to: 2 }, Act::Push { from: 1, to: 3 }]].concat(),
        ..Default::default()
    });
    cfgs.extend(big(r.tier, 0, 1));
    for cfg in cfgs {
        if cfg.star {
            continue;
        }
        let hs = histories(r, &cfg);
        let r = &*r;
        par_each(&hs, THREADS, |_, h| {
            let bad = |sym: &str, d: String| r.violation(&format!("{}:{sym}", hname(h)), d, json!({"history": hname(h)}));
            r.execution();
            let got = rerun(
                &cfg,
                h,
                || hname(h),
                |sys| {
                    Box::pin(async move {
                        let mut v = vec![];
                        for i in 1..=sys.n() {
                            let before = portrait(sys, sys.at(i)).await;
                            match sys.restarted(i).await {
                                Err(e) => v.push((format!("{}:load", who(i)), e)),
                                Ok(k) => {
                                    let after = portrait(sys, &k).await;
                                    if let Some((what, a, b)) = first_difference(&before, &after) {
                                        v.push((format!("{}:{what}", who(i)), format!("{what} before storing: {a}; after loading: {b}")));
                                    }
                                }
                            }
                        }
                        v
                    })
                },
            );
            match got {
                Err(e) => bad("abort", e.to_string()),
                Ok(v) => {
                    r.compared(3);
                    for (s, d) in v {
                        bad(&s, d);
                    }
                }
            }
            for act in &cfg.acts {
                r.execution();
                let plain = match later(&cfg, h, &[act.clone()]) {
                    Ok(m) => m,
                    Err(e) => {
                        bad(&format!("{act}:abort"), e.to_string());
                        continue;
                    }
                };
                let actors: Vec<u8> = match act {
                    Act::Push { from, to } | Act::Drip { from, to } => vec![*from, *to],
                    Act::Add { by, .. } | Act::Revoke { by, .. } | Act::Enc { by, .. } | Act::Update { by, .. } | Act::Rotate { by } => vec![*by],
                    _ => vec![],
                };
                for i in actors {
                    r.execution();
                    r.transitions(h.len() as u64 + 2);
                    r.compared(1);
                    match later(&cfg, h, &[Act::Restart { by: i }, act.clone()]) {
                        Err(e) => bad(&format!("{}:restart,{act}:abort", who(i)), e.to_string()),
                        Ok(m) => match first_difference(&plain, &m) {
                            None => r.outcome("same"),
                            Some(_) if acted_through_shrinking_group(&[&h[..], &[act.clone()]].concat()) => {
                                r.violation(SHRUNK, "storing changes which of two concurrent operations arrives first", json!({"history": hname(h)}))
                            }
                            Some((what, a, b)) => bad(&format!("{}:restart,{act}:{what}", who(i)), format!("{what} without storing: {a}; with: {b}")),
                        },
                    }
                }
            }
        });
    }
    for mut cfg in configs(r.tier, &|_| vec![], 1, 2).into_iter().chain(big(r.tier, 0, 1)) {
        if cfg.star {
            continue;
        }
        cfg.acts.extend([Act::Push { from: 1, to: 2 }, Act::Push { from: 2, to: 1 }]);
        let hs: Vec<Vec<Act>> = histories(r, &cfg).into_iter().filter(|h| !acted_through_shrinking_group(h)).collect();
        let r = &*r;
        par_each(&hs, THREADS, |_, h| half_arrived(r, &cfg, h));
    }
    r.bound("replicas", 3);
}

/// A replica is stored while operations that it received wait for others.
fn half_arrived(r: &Report, cfg: &Cfg, h: &[Act]) {
    let bad = |sym: &str, d: String| r.violation(&format!("{}:{sym}", hname(h)), d, json!({"history": hname(h)}));
    let got = rerun(
        cfg,
        h,
        || format!("half arrived: {}", hname(h)),
        move |sys| {
            Box::pin(async move {
                let mut v: Vec<(String, String)> = vec![];
                let mut runs = 0u64;
                sys.all().await;
                let (ks, ops): (Vec<Ev>, Vec<Ev>) = sys.pool.iter().cloned().partition(is_key);
                let backwards: Vec<Ev> = ops.iter().rev().cloned().chain(ks.iter().rev().cloned()).collect();
                let keys_first: Vec<Ev> = ks.iter().cloned().chain(ops.iter().rev().cloned()).collect();
                for i in [2u8, 9] {
                    for (way, evs) in [("backwards", &backwards), ("keys-first", &keys_first)] {
                        let start = mk_with(signer(i), 800 + i as u64).await;
                        if i <= sys.n() {
                            let secrets = sys.at(i).export_prekey_secrets().await.unwrap();
                            start.import_prekey_secrets(&secrets).await.unwrap();
                        }
                        let n = evs.len();
                        let mut resumed: Vec<(usize, Kh)> = vec![];
                        for (k, e) in evs.iter().enumerate() {
                            ingest(&start, std::slice::from_ref(e)).await;
                            for (_, kh) in &resumed {
                                ingest(kh, std::slice::from_ref(e)).await;
                            }
                            // where the most operations wait, and a few more
                            if n > 12 && k % 2 == 1 && k + 4 < n {
                                continue;
                            }
                            runs += 1;
                            let name = format!("{}:{way}-{}", who(i), k + 1);
                            match stored(&start, i).await {
                                Err(e) => v.push((format!("{name}:load"), e)),
                                Ok(kh) => {
                                    let (a, b) = (portrait(sys, &start).await, portrait(sys, &kh).await);
                                    if let Some((what, a, b)) = first_difference(&a, &b) {
                                        v.push((format!("{name}:{what}"), format!("{what} before storing: {a}; after loading: {b}")));
                                    }
                                    if [n / 4, n / 2, n * 3 / 4, n - 2].iter().any(|x| *x / 2 == k / 2) && resumed.last().is_none_or(|(x, _)| x / 2 != k / 2) {
                                        resumed.push((k, kh));
                                    }
                                }
                            }
                        }
                        let want = portrait(sys, &start).await;
                        for (k, kh) in &resumed {
                            if let Some((what, a, b)) = first_difference(&want, &portrait(sys, kh).await) {
                                v.push((format!("{}:{way}-{}:later-{what}", who(i), k + 1), format!("{what} once everything arrived, without storing: {a}; with: {b}")));
                            }
                        }
                    }
                }
                (v, runs)
            })
        },
    );
    match got {
        Err(e) => bad("half-arrived:abort", e.to_string()),
        Ok((v, runs)) => {
            r.compared(runs);
            r.transitions(runs);
            for _ in 0..runs {
                r.execution();
            }
            for (s, d) in v {
                bad(&s, d);
            }
        }
    }
}

fn actor(a: &Act) -> Option<u8> {
    match a {
        Act::Add { by, .. } | Act::Revoke { by, .. } | Act::Enc { by, .. } | Act::Update { by, .. } | Act::Rotate { by } | Act::Expand { by } => Some(*by),
        _ => None,
    }
}

/// Two replicas of `i` go separate ways, then get each other's stored state.
async fn two_devices(sys: &mut Sys, i: u8, rest: &[Act], act: &Act) -> Option<Result<(), (String, String)>> {
    let slot = i as usize - 1;
    let bad = |w: &str, d: String| Some(Err((w.to_string(), d)));
    let early = sys.stored(i).await.ok()?;
    for a in rest {
        sys.apply(a).await;
    }
    let other = match sys.loaded(i, &early).await {
        Ok(k) => k,
        Err(e) => return bad("load", e),
    };
    let first = std::mem::replace(&mut sys.kh[slot], other);
    let cursor = std::mem::replace(&mut sys.cursor[slot], 0);
    let known = sys.known[slot].clone();
    if sys.apply(act).await != Res::Ok {
        return None;
    }
    let theirs = sys.stored(i).await.ok()?;
    let mut could_read = BTreeSet::new();
    for m in 0..sys.msgs.len() {
        if sys.decrypt(i, m).await == Ok(true) {
            could_read.insert(m);
        }
    }
    let mut second = std::mem::replace(&mut sys.kh[slot], first);
    sys.cursor[slot] = cursor;
    sys.known[slot].extend(known);
    for m in 0..sys.msgs.len() {
        if sys.decrypt(i, m).await == Ok(true) {
            could_read.insert(m);
        }
    }
    let mine = sys.stored(i).await.ok()?;
    if let Err(e) = sys.at(i).ingest_archive(theirs).await {
        return bad("merge", format!("{e:?}"));
    }
    if let Err(e) = second.ingest_archive(mine).await {
        return bad("merge", format!("{e:?}"));
    }
    let (a, b) = (portrait(sys, sys.at(i)).await, portrait(sys, &second).await);
    if let Some((what, a, b)) = first_difference(&a, &b) {
        return bad(&what, format!("{what}: {a}; at the other: {b}"));
    }
    let everything: Vec<Ev> = sys.known[slot].iter().map(|e| sys.pool[*e].clone()).collect();
    sys.at(i).ingest_unsorted_static_events(everything).await;
    let c = portrait(sys, sys.at(i)).await;
    if let Some((what, a, b)) = first_difference(&a, &c) {
        return bad(&format!("known:{what}"), format!("{what}: {a}; with the operations: {b}"));
    }
    if !rest.iter().chain([act]).any(|a| matches!(a, Act::Revoke { .. })) {
        for m in could_read {
            if sys.decrypt(i, m).await != Ok(true) {
                return bad("read", format!("message {m}, which one of the two could read, can't be read any more"));
            }
        }
    }
    // what is written from now on is read by both, and by everyone else
    let docs: Vec<usize> = sys.docs.iter().copied().collect();
    sys.all().await;
    for k in docs {
        let Some(access) = sys.access(i, k).await else { continue };
        if access.get(&Who::P(i)) < Some(&Edit) {
            continue;
        }
        let m = match sys.encrypt(i, k).await {
            Ok(m) => m,
            Err(e) => return bad("write", e),
        };
        sys.all().await;
        if let Err(e) = second.ingest_archive(sys.stored(i).await.ok()?).await {
            return bad("merge", format!("{e:?}"));
        }
        for x in 1..=sys.n() {
            if access.get(&Who::P(x)) >= Some(&Read) {
                if sys.decrypt(x, m).await != Ok(true) {
                    return bad("others", format!("{} can't read what {} writes afterwards", who(x), who(i)));
                }
            }
        }
        let first = std::mem::replace(&mut sys.kh[slot], second);
        let x = sys.decrypt(i, m).await;
        second = std::mem::replace(&mut sys.kh[slot], first);
        if x != Ok(true) {
            return bad("second", format!("the second replica can't read what the first writes: {x:?}"));
        }
    }
    Some(Ok(()))
}

/// What someone's own replicas make of what was stored at different times.
pub fn s09(r: &mut Report) {
    for cfg in configs(r.tier, &pushes, 1, 2).into_iter().chain(big(r.tier, 0, 1)) {
        if cfg.star {
            continue;
        }
        let hs = histories(r, &cfg);
        let mut items: Vec<(Vec<Act>, usize, u8)> = vec![];
        for h in hs {
            for cut in 0..h.len() {
                if cfg.replicas > 3 && ![h.len() / 2, h.len() - 2, h.len() - 1].contains(&cut) {
                    continue;
                }
                for i in 1..=2 {
                    items.push((h.clone(), cut, i));
                }
            }
        }
        let r = &*r;
        par_each(&items, THREADS, |_, (h, cut, i)| {
            for act in cfg.acts.iter().filter(|a| actor(a) == Some(*i)) {
                let (i, act, rest) = (*i, act.clone(), h[*cut..].to_vec());
                let name = format!("{}|{}|{act}:{}", hname(&h[..*cut]), hname(&rest), who(i));
                r.execution();
                r.transitions(h.len() as u64 + 3);
                let got = rerun(&cfg, &h[..*cut], || name.clone(), move |sys| Box::pin(async move { two_devices(sys, i, &rest, &act).await }));
                match got {
                    Err(e) => r.violation(&format!("{name}:abort"), e.to_string(), json!({"history": name})),
                    Ok(None) => r.outcome("nothing to merge"),
                    Ok(Some(Ok(()))) => r.compared(1),
                    Ok(Some(Err((s, d)))) => r.violation(&format!("{name}:{s}"), d, json!({"history": name})),
                }
            }
            let (i, rest) = (*i, h[*cut..].to_vec());
            let name = format!("{}|{}:{}", hname(&h[..*cut]), hname(&rest), who(i));
            r.execution();
            r.transitions(h.len() as u64 + 3);
            let got = rerun(
                &cfg,
                &h[..*cut],
                || name.clone(),
                move |sys| {
                    Box::pin(async move {
                        let mut v: Vec<(String, String)> = vec![];
                        let early = match sys.stored(i).await {
                            Ok(a) => a,
                            Err(e) => return vec![("store".to_string(), e)],
                        };
                        for a in &rest {
                            sys.apply(a).await;
                        }
                        let want = portrait(sys, sys.at(i)).await;
                        let late = match sys.stored(i).await {
                            Ok(a) => a,
                            Err(e) => return vec![("store".to_string(), e)],
                        };
                        let mut differ = |how: &str, m: BTreeMap<String, String>, only: &[&str]| {
                            let f = |m: &BTreeMap<String, String>| -> BTreeMap<String, String> {
                                m.iter().filter(|(k, _)| only.is_empty() || only.contains(&k.as_str())).map(|(k, v)| (k.clone(), v.clone())).collect()
                            };
                            if let Some((what, a, b)) = first_difference(&f(&want), &f(&m)) {
                                v.push((format!("{how}:{what}"), format!("{what}: {a}; instead: {b}")));
                            }
                        };
                        // what was stored last is merged into what was stored before
                        match sys.loaded(i, &early).await {
                            Err(e) => differ("load", [("groups".to_string(), e)].into(), &["groups"]),
                            Ok(k) => {
                                if let Err(e) = k.ingest_archive(late.clone()).await {
                                    differ("early+late", [("groups".to_string(), format!("{e:?}"))].into(), &["groups"]);
                                }
                                differ("early+late", portrait(sys, &k).await, &[]);
                            }
                        }
                        // what was stored before gets the operations from elsewhere
                        match sys.loaded(i, &early).await {
                            Err(e) => differ("load", [("groups".to_string(), e)].into(), &["groups"]),
                            Ok(k) => {
                                let evs: Vec<Ev> = sys.known[i as usize - 1].iter().map(|e| sys.pool[*e].clone()).collect();
                                k.ingest_unsorted_static_events(evs).await;
                                differ("early+operations", portrait(sys, &k).await, &["groups", "documents", "agents", "reachable documents"]);
                            }
                        }
                        // what was stored before is merged into what there is now
                        for (how, a) in [("now+early", early), ("now+now", late)] {
                            if let Err(e) = sys.at(i).ingest_archive(a).await {
                                differ(how, [("groups".to_string(), format!("{e:?}"))].into(), &["groups"]);
                            }
                            differ(how, portrait(sys, sys.at(i)).await, &[]);
                        }
                        v
                    })
                },
            );
            match got {
                Err(e) => r.violation(&format!("{name}:abort"), e.to_string(), json!({"history": name})),
                Ok(v) => {
                    r.compared(4);
                    for (s, d) in v {
                        r.violation(&format!("{name}:{s}"), d, json!({"history": name}));
                    }
                }
            }
        });
    }
    r.bound("replicas", 3);
}

/// Key operations `kh` knows, of everybody.
async fn key_events(sys: &Sys, kh: &Kh) -> Vec<Ev> {
    let mut v = vec![];
    for id in sys.universe() {
        if let Some(a) = kh.get_agent(id).await {
            v.extend(a.key_ops().await.values().map(|o| key_op_event(o)));
        }
    }
    let mut v = dedup(v);
    v.sort_by_key(ev_hash);
    v
}

pub fn is_key(e: &Ev) -> bool {
    matches!(ev_kind(e), "add-prekey" | "rotate-prekey")
}

/// Every operation `kh` holds.
pub async fn held(sys: &Sys, kh: &Kh) -> Vec<Ev> {
    use keyhive_core::event::Event;
    use keyhive_core::principal::group::membership_operation::{bfs_membership_ops, collect_membership_heads};
    let mut v = key_events(sys, kh).await;
    let mut heads = vec![];
    let groups: Vec<_> = kh.groups().lock().await.values().cloned().collect();
    for g in groups {
        let g = g.lock().await;
        heads.extend(collect_membership_heads(g.delegation_heads(), g.revocation_heads()));
    }
    let docs: Vec<_> = kh.documents().lock().await.values().cloned().collect();
    for d in docs {
        let d = d.lock().await;
        heads.extend(collect_membership_heads(d.delegation_heads(), d.revocation_heads()));
        for epoch in d.cgka_ops().into_iter().flatten() {
            v.extend(epoch.iter().map(|o| Ev::CgkaOperation(Box::new(o.as_ref().clone()))));
        }
    }
    for op in bfs_membership_ops(heads).await.into_values() {
        v.push(Event::from(op).into());
    }
    dedup(v)
}

pub fn tag(e: &Ev) -> String {
    format!("{}-{}", ev_kind(e), sh(&ev_hash(e)))
}

pub async fn announced(kh: &Kh) -> Vec<String> {
    let l = kh.event_listener().0.lock().await;
    l.iter().map(|e| tag(&e.clone().into())).collect()
}

type Heard = BTreeMap<u8, (BTreeSet<String>, usize)>;

fn s06_oracle<'a>(ran: &'a mut Ran<'_>) -> Oracle<'a> {
    Box::pin(async move {
        let mut v = vec![];
        let before: Option<Heard> = serde_json::from_value(ran.before.clone()).ok();
        for i in 1..=ran.sys.n() {
            let kh = ran.sys.at(i);
            let have: BTreeSet<String> = held(ran.sys, kh).await.iter().map(tag).collect();
            let told = announced(kh).await;
            for t in &told {
                if !have.contains(t) {
                    v.push((format!("{}:refused", who(i)), format!("{} announced {t}, which it doesn't hold", who(i))));
                }
            }
            // everything arrives once more, in two orders
            let mut again: Vec<Ev> = ran.sys.known[i as usize - 1].iter().map(|x| ran.sys.pool[*x].clone()).collect();
            let waiting: BTreeSet<[u8; 32]> = kh.pending_event_hashes().await.iter().map(|h| *h.raw.as_bytes()).collect();
            again.retain(|e| !waiting.contains(&ev_hash(e)) && !waiting.contains(&op_hash(e)));
            for rev in [false, true] {
                if rev {
                    again.reverse();
                }
                ingest(kh, &again).await;
                let more = announced(kh).await;
                if more.len() != told.len() {
                    v.push((format!("{}:again", who(i)), format!("{} announced {:?} when it arrived again", who(i), &more[told.len()..])));
                    break;
                }
            }
            let (Some(b), Some(last)) = (&before, ran.last) else { continue };
            let (old, n) = &b[&i];
            let by = match last {
                Act::Group { by, .. } | Act::Doc { by, .. } | Act::Add { by, .. } | Act::Revoke { by, .. } => *by,
                Act::Update { by, .. } | Act::Enc { by, .. } | Act::Rotate { by } | Act::Expand { by } => *by,
                _ => 0,
            };
            // doing the very same thing again may announce the very same operation
            let mut seen: BTreeSet<&String> = if by == i { Default::default() } else { told[..*n].iter().collect() };
            for t in &told[*n..] {
                if !seen.insert(t) {
                    v.push((format!("{}:twice", who(i)), format!("{} announced {t} twice", who(i))));
                }
            }
            if by == i {
                for t in have.difference(old) {
                    if !told[*n..].contains(t) {
                        v.push((format!("{}:silent", who(i)), format!("{} issued {t} without announcing it", who(i))));
                    }
                }
                if ran.result != Res::Ok && told.len() != *n {
                    v.push((format!("{}:failed", who(i)), format!("the call failed ({:?}) but announced {:?}", ran.result, &told[*n..])));
                }
            }
        }
        v
    })
}

fn heard(sys: &Sys) -> std::pin::Pin<Box<dyn std::future::Future<Output = serde_json::Value> + '_>> {
    Box::pin(async move {
        let mut h = Heard::new();
        for i in 1..=sys.n() {
            let kh = sys.at(i);
            let have = held(sys, kh).await.iter().map(tag).collect();
            h.insert(i, (have, announced(kh).await.len()));
        }
        serde_json::to_value(h).unwrap()
    })
}

pub fn s06(r: &mut Report) {
    for cfg in big(r.tier, 1, 2) {
        search(r, &cfg, heard, s06_oracle);
    }
    for mut cfg in configs(r.tier, &pushes, 2, 3) {
        if cfg.star {
            continue;
        }
        cfg.acts.extend([Act::Group { by: 1, with: vec![p(2)] }, Act::Doc { by: 2, with: vec![p(1)] }, Act::Expand { by: 1 }]);
        cfg.acts.extend(revokes(&[1, 2], &[p(1), p(2)], &[0], &[true]));
        cfg.acts.extend(adds(&[1], &[Who::Public], &[0], &[Read]));
        search(r, &cfg, heard, s06_oracle);
    }
    r.bound("replicas", 3);
}

/// Ways in which `n` events can arrive: batches of indices, with the replica
/// stored and loaded again between batches or not.
fn arrivals(n: usize, keys: usize, t: Tier) -> Vec<(String, Vec<Vec<usize>>, bool)> {
    let all: Vec<usize> = (0..n).collect();
    let single = |v: &[usize]| v.iter().map(|i| vec![*i]).collect::<Vec<_>>();
    let rev: Vec<usize> = all.iter().rev().copied().collect();
    let mut out = vec![
        ("singly".to_string(), single(&all), false),
        ("backwards".to_string(), single(&rev), false),
        ("backwards-stored".to_string(), single(&rev), true),
        ("twice".to_string(), vec![all.clone(), all.clone()], false),
        // nobody known until the end
        ("keys-last".to_string(), vec![all[keys..].to_vec(), all[..keys].to_vec()], false),
    ];
    for i in keys..n {
        let rest: Vec<usize> = all.iter().copied().filter(|x| *x != i).collect();
        out.push((format!("{i}-first"), vec![vec![i], rest.clone()], false));
        out.push((format!("{i}-last"), vec![rest.clone(), vec![i]], false));
        out.push((format!("{i}-last-stored"), vec![rest, vec![i]], true));
        out.push((format!("from-{i}"), vec![all[i..].to_vec(), all[..i].to_vec()], false));
        if t == Tier::Thorough {
            out.push((format!("from-{i}-singly"), single(&[&all[i..], &all[..i]].concat()), false));
        }
    }
    // every order of the last few, one by one
    let tail = (n - keys).min(4);
    for p in permutations(tail) {
        let order: Vec<usize> = all[..n - tail].iter().copied().chain(p.iter().map(|i| n - tail + i)).collect();
        let mut b = vec![order[..n - tail].to_vec()];
        b.extend(single(&order[n - tail..]));
        out.push((format!("tail-{}", p.iter().map(|i| i.to_string()).collect::<String>()), b, false));
    }
    out
}

async fn stored(kh: &Kh, i: u8) -> Result<Kh, String> {
    let bytes = bincode::serialize(&kh.into_archive().await).map_err(|e| format!("{e:?}"))?;
    let archive = bincode::deserialize(&bytes).map_err(|e| format!("{e:?}"))?;
    let rng = std::sync::Arc::new(futures::lock::Mutex::new(crate::det::DetRng::new(5000 + i as u64)));
    Kh::try_from_archive(&archive, signer(i), Store::new(), Lg::new(), rng).await.map_err(|e| format!("{e:?}"))
}

type Arrivals = fn(usize, usize, Tier) -> Vec<(String, Vec<Vec<usize>>, bool)>;

fn arrive(r: &Report, cfg: &Cfg, h: &[Act], ways: Arrivals) {
    let t = r.tier;
    let bad = |sym: &str, d: String| r.violation(&format!("{}:{sym}", hname(h)), d, json!({"history": hname(h)}));
    let got = rerun(
        cfg,
        h,
        || hname(h),
        move |sys| {
            Box::pin(async move {
                let mut v = vec![];
                let mut runs = 0;
                sys.all().await;
                let (ks, ops): (Vec<Ev>, Vec<Ev>) = sys.pool.iter().cloned().partition(is_key);
                let nk = ks.len();
                let evs: Vec<Ev> = ks.into_iter().chain(ops).collect();
                let ways = ways(evs.len(), nk, t);
                for i in [2u8, 9] {
                    let mut want: Option<BTreeMap<String, String>> = None;
                    for (name, batches, store) in &ways {
                        runs += 1;
                        let mut kh = mk_with(signer(i), 700 + i as u64).await;
                        if i <= sys.n() {
                            let secrets = sys.at(i).export_prekey_secrets().await.unwrap();
                            kh.import_prekey_secrets(&secrets).await.unwrap();
                        }
                        for b in batches {
                            let b: Vec<Ev> = b.iter().map(|x| evs[*x].clone()).collect();
                            ingest(&kh, &b).await;
                            if *store {
                                match stored(&kh, i).await {
                                    Ok(k) => kh = k,
                                    Err(e) => {
                                        v.push((format!("{}:{name}:stored", who(i)), e));
                                        break;
                                    }
                                }
                            }
                        }
                        let p = portrait(sys, &kh).await;
                        match &want {
                            None => {
                                let vw = view(sys.at(1), &sys.universe()).await;
                                for (what, live) in [
                                    ("groups", format!("{:?}", vw.groups)),
                                    ("documents", format!("{:?}", vw.docs)),
                                    ("key agreement", format!("{:?}", vw.cgka)),
                                ] {
                                    if p[what] != live {
                                        v.push((format!("{}:{name}:{what}", who(i)), format!("{what} at A: {live}; at a replica that got everything in order: {}", p[what])));
                                    }
                                }
                                want = Some(p);
                            }
                            Some(w) => {
                                if let Some((what, a, b)) = first_difference(w, &p) {
                                    v.push((format!("{}:{name}:{what}", who(i)), format!("{what} when everything arrived in order: {a}; when it arrived {name}: {b}")));
                                }
                            }
                        }
                    }
                }
                (v, runs, evs.len() as u64)
            })
        },
    );
    match got {
        Err(e) => bad("abort", e.to_string()),
        Ok((v, runs, n)) => {
            r.compared(runs);
            r.transitions(runs * n);
            for _ in 0..runs {
                r.execution();
            }
            r.outcome(format!("{} operations", n));
            for (s, d) in v {
                bad(&s, d);
            }
        }
    }
}

/// Many operations that rest on each other, all at once and the wrong way round.
fn long_arrivals(n: usize, _: usize, _: Tier) -> Vec<(String, Vec<Vec<usize>>, bool)> {
    let all: Vec<usize> = (0..n).collect();
    let rev: Vec<usize> = all.iter().rev().copied().collect();
    let part = |k: usize| all.iter().copied().filter(|i| i % 2 == k).collect::<Vec<_>>();
    vec![
        ("singly".into(), all.iter().map(|i| vec![*i]).collect(), false),
        ("at-once".into(), vec![all.clone()], false),
        ("backwards".into(), rev.iter().map(|i| vec![*i]).collect(), false),
        ("backwards-by-7".into(), rev.chunks(7).map(|c| c.to_vec()).collect(), false),
        ("every-other".into(), vec![part(1), part(0)], false),
    ]
}

fn long_histories(t: Tier) -> Vec<(String, Vec<Act>)> {
    let mut out = vec![];
    for n in t.pick(vec![6, 14, 30], vec![4, 6, 8, 10, 14, 20, 30, 60]) {
        let mut keys = vec![Act::Doc { by: 1, with: vec![p(2)] }, Act::All];
        let mut toggles = vec![Act::Group { by: 1, with: vec![] }];
        let mut both = vec![Act::Doc { by: 1, with: vec![p(2)] }, Act::All];
        let mut nested = vec![Act::Group { by: 1, with: vec![p(2)] }];
        for i in 0..n {
            let by = 1 + (i % 2) as u8;
            let flip = |by| match i % 2 {
                0 => Act::Add { by, who: p(3), res: 0, can: Edit },
                _ => Act::Revoke { by, who: p(3), res: 0, retain: false },
            };
            keys.extend([Act::Update { by, res: 0 }, Act::Push { from: by, to: 3 - by }]);
            toggles.push(flip(1));
            both.extend([flip(by), Act::Push { from: by, to: 3 - by }, Act::Enc { by: 3 - by, res: 0 }, Act::Push { from: 3 - by, to: by }]);
            nested.extend([Act::Group { by: 1, with: vec![] }, Act::Add { by: 1, who: Who::R(i), res: i + 1, can: Edit }]);
        }
        out.extend([("keys", keys), ("toggles", toggles), ("both", both), ("nested", nested)].map(|(k, h)| (format!("{k}{n}"), h)));
    }
    out
}

pub fn s02(r: &mut Report) {
    let t = r.tier;
    for mut cfg in configs(r.tier, &|_| vec![], 2, 2) {
        if cfg.star {
            continue;
        }
        if t == Tier::Quick && cfg.seed >= 3 {
            cfg.depth = 1;
        }
        // what each replica does on its own, then everything arrives elsewhere
        cfg.acts.extend([Act::Push { from: 1, to: 2 }, Act::Push { from: 2, to: 1 }]);
        let hs = histories(r, &cfg);
        let r = &*r;
        par_each(&hs, THREADS, |_, h| {
            arrive(r, &cfg, h, arrivals)
        });
    }
    let long = long_histories(t);
    let mut items = vec![];
    for (name, h) in &long {
        for seed in 0..t.pick(4, 16) {
            items.push((name.clone(), Cfg { replicas: 3, seed, ..Default::default() }, h.clone()));
        }
    }
    {
        let r = &*r;
        par_each(&items, THREADS, |_, (_, cfg, h)| arrive(r, cfg, h, long_arrivals));
    }
    r.bound("operations resting on each other", long.iter().map(|(_, h)| h.len()).max().unwrap_or(0));
    r.bound("replicas", 3);
}

/// What `kh` would pass on to anybody: name, key under which it's filed, event.
async fn passed_on(sys: &Sys, kh: &Kh) -> Vec<(String, Option<[u8; 32]>, Ev)> {
    let mut out = vec![];
    for id in sys.universe() {
        if let Some(ag) = kh.get_agent(id).await {
            for (k, e) in kh.static_events_for_agent(&ag).await {
                out.push((format!("for {}", idh(&id)), Some(*k.as_slice().first_chunk().unwrap()), e));
            }
        }
    }
    let card = kh.get_existing_contact_card().await;
    out.push(("contact card".into(), None, key_op_event(card.op())));
    out
}

fn genuine(e: &Ev) -> bool {
    match e {
        Ev::PrekeysExpanded(s) => s.try_verify().is_ok(),
        Ev::PrekeyRotated(s) => s.try_verify().is_ok(),
        Ev::CgkaOperation(s) => s.try_verify().is_ok(),
        Ev::Delegated(s) => s.try_verify().is_ok(),
        Ev::Revoked(s) => s.try_verify().is_ok(),
    }
}

fn s10_oracle<'a>(ran: &'a mut Ran<'_>) -> Oracle<'a> {
    Box::pin(async move {
        let mut v = vec![];
        let sys = &*ran.sys;
        let issued: BTreeSet<[u8; 32]> = sys.pool.iter().map(ev_hash).collect();
        let mut filed: BTreeMap<[u8; 32], [u8; 32]> = Default::default();
        for i in 1..=sys.n() {
            let stored = sys.stored(i).await.unwrap();
            let bytes = bincode::serialize(&stored).unwrap();
            let back: keyhive_core::archive::Archive<T> = bincode::deserialize(&bytes).unwrap();
            if bincode::serialize(&back).unwrap().len() != bytes.len() {
                v.push((format!("{}:archive-bytes", who(i)), format!("{}'s archive changes its size when written again", who(i))));
            }
            let copy = sys.restarted(i).await.unwrap();
            let (live, copied) = (passed_on(sys, sys.at(i)).await, passed_on(sys, &copy).await);
            for (from, evs) in [("", &live), ("after loading, ", &copied)] {
                for (to, key, e) in evs {
                    let h = ev_hash(e);
                    let t = format!("{from}{} passes on {} ({to})", who(i), tag(e));
                    if !genuine(e) {
                        v.push((format!("{}:unsigned", who(i)), format!("{t} whose signature doesn't hold")));
                    }
                    if let Some(k) = key {
                        if filed.insert(h, *k).is_some_and(|old| old != *k) {
                            v.push((format!("{}:digest", who(i)), format!("{t} under another hash than elsewhere")));
                        }
                    }
                    if bincode::deserialize::<Ev>(&bincode::serialize(e).unwrap()).ok().map(|x| ev_hash(&x)) != Some(h) {
                        v.push((format!("{}:bytes", who(i)), format!("{t} which reads back as something else")));
                    }
                    if !issued.contains(&h) && !by_public(e) {
                        v.push((format!("{}:unissued", who(i)), format!("{t} which nobody issued")));
                    }
                }
            }
        }
        // a newcomer hears of the last few things first
        let late = mk(9).await;
        let last: Vec<Ev> = sys.pool.iter().rev().take(4).cloned().collect();
        let waits: BTreeSet<[u8; 32]> =
            late.ingest_unsorted_static_events(last).await.iter().filter_map(|e| filed.get(&ev_hash(e)).copied()).collect();
        let listed: BTreeSet<[u8; 32]> = late.pending_event_hashes().await.iter().map(|h| *h.raw.as_bytes()).collect();
        if !waits.is_subset(&listed) {
            v.push(("newcomer:digest".into(), "an event that waits is listed under another hash than by those who hold it".into()));
        }
        v
    })
}

fn by_public(e: &Ev) -> bool {
    let by = match e {
        Ev::PrekeysExpanded(s) => s.issuer,
        Ev::PrekeyRotated(s) => s.issuer,
        _ => return false,
    };
    keyhive_core::principal::identifier::Identifier::from(by) == keyhive_core::principal::public::Public.id()
}

/// S10: what is passed on is what its author issued.
pub fn s10(r: &mut Report) {
    for cfg in configs(r.tier, &syncs, 2, 3).into_iter().chain(big(r.tier, 1, 2)) {
        search(r, &cfg, |_| Box::pin(async { serde_json::Value::Null }), s10_oracle);
    }
    r.bound("replicas", 3);
}
