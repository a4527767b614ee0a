//! Histories of API calls: M04 (what each call does), M06 (what one replica
//! accepts every replica accepts), K03 (who can read).
use crate::{explore::*, hist::*, mgraph::*, report::*, world::*};
use keyhive_core::access::Access;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};

use Access::*;

pub type Acl = BTreeMap<String, String>;

/// Everybody's view of every resource.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct Seen {
    /// replica -> resource -> direct members
    pub direct: BTreeMap<u8, BTreeMap<usize, BTreeMap<String, u8>>>,
    pub trans: BTreeMap<u8, BTreeMap<usize, BTreeMap<String, u8>>>,
    pub pending: BTreeMap<u8, usize>,
}

fn lv(a: Access) -> u8 {
    LEVELS.iter().position(|x| *x == a).unwrap() as u8
}

pub async fn seen(sys: &Sys) -> Seen {
    let mut s = Seen::default();
    for i in 1..=sys.n() {
        s.pending.insert(i, sys.at(i).pending_event_hashes().await.len());
        for k in 0..sys.res.len() {
            if let Some(d) = sys.direct(i, k).await {
                s.direct.entry(i).or_default().insert(k, d.into_iter().map(|(w, a)| (w.to_string(), lv(a))).collect());
            }
            if let Some(d) = sys.access(i, k).await {
                s.trans.entry(i).or_default().insert(k, d.into_iter().map(|(w, a)| (w.to_string(), lv(a))).collect());
            }
        }
    }
    s
}

/// Widest paths over the direct memberships; names as in `Seen`.
pub fn widest(direct: &BTreeMap<usize, BTreeMap<String, u8>>) -> BTreeMap<usize, BTreeMap<String, u8>> {
    let mut w = direct.clone();
    loop {
        let mut next = w.clone();
        for (k, ms) in &w {
            for (m, a) in ms {
                let Ok(sub) = m.parse::<usize>() else { continue };
                for (m2, b) in w.get(&sub).into_iter().flatten() {
                    let v = *a.min(b);
                    let e = next.entry(*k).or_default().entry(m2.clone()).or_insert(v);
                    *e = (*e).max(v);
                }
            }
        }
        if next == w {
            break;
        }
        w = next;
    }
    for (k, ms) in w.iter_mut() {
        ms.remove(&k.to_string());
    }
    w
}

pub fn parsed(sys: &Sys) -> Graph {
    let index = (1..=9u8)
        .map(|i| (ident(&signer(i)), i))
        .chain(sys.res.iter().enumerate().map(|(k, id)| (*id, 100 + k as u8)))
        .chain([(keyhive_core::principal::public::Public.id(), 99)])
        .collect();
    Graph::parse(&sys.pool, &index).0
}

fn code(w: Who) -> u8 {
    match w {
        Who::Public => 99,
        Who::R(k) => 100 + k as u8,
        Who::P(i) => i,
    }
}

fn named(m: BTreeMap<u8, Access>) -> BTreeMap<String, u8> {
    m.into_iter()
        .map(|(w, a)| {
            let n = match w {
                99 => Who::Public,
                100.. => Who::R(w as usize - 100),
                _ => Who::P(w),
            };
            (n.to_string(), lv(a))
        })
        .collect()
}

/// Would `by`'s authority over `k` survive `w`'s removal, for sure and to the
/// full extent of what `w` granted to others?
fn independent(sys: &Sys, k: usize, by: u8, w: Who, retain: bool) -> bool {
    let mut g = parsed(sys);
    let s = 100 + k as u8;
    let granted: Vec<Access> = g
        .ops
        .iter()
        .filter_map(|o| match o {
            Op::D { proof: Some(p), can, .. } if matches!(g.ops[*p], Op::D { to, .. } if to == code(w)) => Some(*can),
            _ => None,
        })
        .collect();
    for i in 0..g.ops.len() {
        if g.subject(i) == s && matches!(g.ops[i], Op::D { to, .. } if to == code(w)) {
            g.ops.push(Op::R { issuer: s, target: i, proof: None });
        }
    }
    let all: Vec<usize> = (0..g.ops.len()).collect();
    let left = g.access(&g.run_trusted(s, &all, false));
    let have = left
        .iter()
        .filter_map(|(m, a)| match m {
            m if *m == by => Some(*a),
            100.. => widest_of(sys, *m as usize - 100, by).map(|b| b.min(*a)),
            _ => None,
        })
        .max();
    if retain {
        granted.iter().all(|c| have.is_some_and(|h| h >= *c))
    } else {
        have == Some(Admin)
    }
}

/// Did `by` grant every membership of `w`, or one it rests on, with authority
/// that doesn't rest on `w`?
fn granted_all(sys: &Sys, k: usize, by: u8, w: Who) -> bool {
    let g = parsed(sys);
    let s = 100 + k as u8;
    let lineage = |i: usize| {
        std::iter::successors(Some(i), |i| match g.ops[*i] {
            Op::D { proof, .. } => proof,
            _ => None,
        })
    };
    let to = |i: usize| match g.ops[i] {
        Op::D { to, .. } => to,
        _ => 0,
    };
    let all: Vec<usize> = (0..g.ops.len()).collect();
    let standing = g.run_trusted(s, &all, false);
    let mine: Vec<usize> = standing.iter().copied().filter(|i| to(*i) == by).collect();
    let theirs: Vec<usize> = standing.iter().copied().filter(|i| to(*i) == code(w)).collect();
    !theirs.is_empty()
        && theirs.iter().all(|i| lineage(*i).any(|j| g.issuer(j) == by))
        && mine.iter().any(|i| !lineage(*i).any(|j| to(j) == code(w)))
}

fn widest_of(sys: &Sys, k: usize, who: u8) -> Option<Access> {
    let g = parsed(sys);
    let all: Vec<usize> = (0..g.ops.len()).collect();
    g.access(&g.run_trusted(100 + k as u8, &all, false)).get(&who).copied()
}

/// The members after the events issued so far, applied one after another.
fn model(sys: &Sys, k: usize, alt: bool) -> BTreeMap<String, u8> {
    let g = parsed(sys);
    let all: Vec<usize> = (0..g.ops.len()).collect();
    named(g.access(&g.run_trusted(100 + k as u8, &all, alt)))
}

/// Every outcome that applying the operations issued so far in some order
/// consistent with their dependencies gives.
fn explained(sys: &Sys, k: usize) -> BTreeSet<BTreeMap<String, u8>> {
    parsed(sys).allowed_trusted(100 + k as u8).into_iter().map(named).collect()
}

fn before(sys: &Sys) -> std::pin::Pin<Box<dyn std::future::Future<Output = Value> + '_>> {
    Box::pin(async move { serde_json::to_value(seen(sys).await).unwrap() })
}

fn m04_oracle<'a>(ran: &'a mut Ran<'_>) -> Oracle<'a> {
    Box::pin(async move {
        let mut v: Vec<(String, String)> = vec![];
        let now = seen(ran.sys).await;
        let sys = &*ran.sys;
        for (i, p) in &now.pending {
            if *p != 0 {
                v.push(("pending".into(), format!("{} didn't accept {p} operations", who(*i))));
            }
        }
        let one = now.direct.get(&1).cloned().unwrap_or_default();
        for i in 2..=sys.n() {
            if now.direct.get(&i) != Some(&one) {
                v.push(("disagree".into(), format!("A sees {one:?}, {} sees {:?}", who(i), now.direct.get(&i))));
                return v;
            }
        }
        let w = widest(&one);
        for (i, t) in &now.trans {
            if *t != w {
                v.push(("transitive".into(), format!("{} sees {t:?} instead of {w:?}", who(*i))));
            }
        }
        let Some(last) = ran.last else { return v };
        let was: Seen = serde_json::from_value(ran.before.clone()).unwrap();
        let wd = was.direct.get(&1).cloned().unwrap_or_default();
        let wt = was.trans.get(&1).cloned().unwrap_or_default();
        let ok = ran.result == Res::Ok;
        let mut want = wd.clone();
        match last {
            Act::Add { by, who: w, res, can } => {
                let me = wt[res].get(&Who::P(*by).to_string()).copied();
                let mine = wd[res].get(&Who::P(*by).to_string()).copied();
                let may = me.is_some_and(|a| a >= lv(*can));
                // the return of a member may bring back what rested on its membership
                let restored = model(sys, *res, true);
                if ok && !may {
                    v.push(("allowed".into(), format!("{} with access {me:?} could add", who(*by))));
                }
                if !ok && may {
                    v.push(("refused".into(), format!("{} with access {me:?} (direct {mine:?}): {:?}", who(*by), ran.result)));
                }
                if ok {
                    let e = want.get_mut(res).unwrap().entry(w.to_string()).or_insert(0);
                    *e = (*e).max(lv(*can));
                }
                let mut alt = want.clone();
                if ok {
                    alt.insert(*res, restored);
                }
                if one != want && one != alt {
                    v.push(("members".into(), format!("members are {one:?} instead of {want:?}")));
                }
            }
            Act::Revoke { by, who: w, res, retain } => {
                let me = wd[res].get(&Who::P(*by).to_string()).copied();
                let anyway = wt[res].get(&Who::P(*by).to_string()).copied();
                let there = wd[res].contains_key(&w.to_string());
                // an admin may decline to keep those it couldn't vouch for afterwards,
                // and to remove somebody its own authority comes from; leaving always works
                let declined = !independent(sys, *res, *by, *w, *retain) && (*retain || *w != Who::P(*by));
                if !ok && anyway == Some(lv(Admin)) && !declined {
                    v.push(("refused".into(), format!("admin couldn't revoke: {:?}", ran.result)));
                }
                if !ok && there && !*retain && me.is_some() && granted_all(sys, *res, *by, *w) {
                    v.push(("grantor".into(), format!("{} granted this membership but couldn't revoke it: {:?}", who(*by), ran.result)));
                }
                if !ok || !there {
                    if one != wd {
                        v.push(("partial".into(), format!("{:?}, yet members went from {wd:?} to {one:?}", ran.result)));
                    }
                    return v;
                }
                if now.direct[&1][res].contains_key(&w.to_string()) {
                    v.push(("still".into(), format!("revoked {w} is still a member: {one:?}")));
                }
                if anyway.is_none() {
                    // somebody who once granted access and lost its own may not act
                    let g = model(sys, *res, false);
                    if !g.contains_key(&w.to_string()) && one != wd {
                        v.push(("allowed".into(), format!("{} without access could revoke {w}", who(*by))));
                    }
                }
                // the rest: what still rests on a standing delegation stays
                let expected = [model(sys, *res, false), model(sys, *res, true)];
                if !expected.contains(&one[res]) && !explained(sys, *res).contains(&one[res]) {
                    v.push(("members".into(), format!("members are {:?} instead of {:?}", one[res], expected)));
                }
                if *retain && expected.contains(&one[res]) {
                    let mut want = wd[res].clone();
                    want.remove(&w.to_string());
                    if one[res] != want {
                        v.push(("retain".into(), format!("members are {:?} instead of {want:?}", one[res])));
                    }
                }
                for (k, d) in &wd {
                    if k != res && one[k] != *d {
                        v.push(("elsewhere".into(), format!("members of {k} changed from {d:?} to {:?}", one[k])));
                    }
                }
            }
            _ => {
                let mut was = wd.clone();
                for k in one.keys() {
                    was.entry(*k).or_insert_with(|| one[k].clone());
                }
                if one != was {
                    v.push(("members".into(), format!("members went from {wd:?} to {one:?}")));
                }
            }
        }
        v
    })
}

pub fn p(i: u8) -> Who {
    Who::P(i)
}

pub fn adds(by: &[u8], whos: &[Who], res: &[usize], lv: &[Access]) -> Vec<Act> {
    let mut v = vec![];
    for b in by {
        for w in whos {
            for r in res {
                if *w == Who::P(*b) || *w == Who::R(*r) {
                    continue;
                }
                for can in lv {
                    v.push(Act::Add { by: *b, who: *w, res: *r, can: *can });
                }
            }
        }
    }
    v
}
pub fn revokes(by: &[u8], whos: &[Who], res: &[usize], retain: &[bool]) -> Vec<Act> {
    let mut v = vec![];
    for b in by {
        for w in whos {
            for r in res {
                for retain in retain {
                    if *w != Who::R(*r) {
                        v.push(Act::Revoke { by: *b, who: *w, res: *r, retain: *retain });
                    }
                }
            }
        }
    }
    v
}

/// One group; one document; a document readable through a group.
pub fn resource_bases() -> Vec<Vec<Act>> {
    vec![
        vec![Act::Group { by: 1, with: vec![] }, Act::All],
        vec![Act::Doc { by: 1, with: vec![] }, Act::All],
        vec![Act::Doc { by: 1, with: vec![p(2)] }, Act::All],
        vec![
            Act::Group { by: 1, with: vec![p(2)] },
            Act::Doc { by: 1, with: vec![] },
            Act::Add { by: 1, who: Who::R(0), res: 1, can: Edit },
            Act::All,
        ],
    ]
}

pub fn m04(r: &mut Report) {
    let t = r.tier;
    let mut cfgs = vec![];
    for (i, b) in resource_bases().into_iter().enumerate() {
        let nested = i == 3;
        let res: &[usize] = if nested { &[0, 1] } else { &[0] };
        let mut acts = adds(&[1, 2, 3], &[p(1), p(2), p(3)], res, if nested { &[Read, Admin] } else { t.pick(&[Edit, Admin][..], &[Read, Edit, Admin][..]) });
        acts.extend(revokes(&[1, 2, 3], &[p(1), p(2), p(3)], res, &[false, true]));
        if nested {
            acts.extend(revokes(&[1, 2], &[Who::R(0)], &[1], &[false, true]));
        }
        cfgs.push(Cfg { replicas: 3, bases: vec![b], after_each: vec![Act::All], depth: if nested { t.pick(2, 3) } else { t.pick(3, 4) }, acts, seed: i as u64, ..Default::default() });
    }
    // less access to a group than the group has
    for (i, outer) in [Act::Group { by: 1, with: vec![] }, Act::Doc { by: 1, with: vec![] }].into_iter().enumerate() {
        for (j, can) in [Read, Edit].into_iter().enumerate() {
            let b = vec![
                Act::Group { by: 1, with: vec![] },
                Act::Add { by: 1, who: p(2), res: 0, can },
                outer.clone(),
                Act::Add { by: 1, who: Who::R(0), res: 1, can: Admin },
                Act::All,
            ];
            let mut acts = adds(&[1, 2], &[p(2), p(3)], &[1], &[Read, Edit, Admin]);
            acts.extend(adds(&[2], &[p(3)], &[0], &[Read, Edit, Admin]));
            acts.extend(revokes(&[2], &[p(1), p(3), Who::R(0)], &[1], &[false, true]));
            acts.extend(revokes(&[2], &[p(1)], &[0], &[false, true]));
            cfgs.push(Cfg { replicas: 3, bases: vec![b], after_each: vec![Act::All], depth: t.pick(2, 3), acts, seed: 20 + 2 * i as u64 + j as u64, ..Default::default() });
        }
    }
    // chains of people who added one another
    let chain = |g: Act| vec![g, Act::Add { by: 1, who: p(2), res: 0, can: Edit }, Act::All, Act::Add { by: 2, who: p(3), res: 0, can: Edit }, Act::All, Act::Add { by: 3, who: p(4), res: 0, can: Edit }, Act::All, Act::Add { by: 4, who: p(5), res: 0, can: Edit }, Act::All];
    let mut acts = adds(&[2, 3, 4], &[p(3), p(4), p(5)], &[0], &[Edit]);
    acts.extend(revokes(&[1, 2, 3, 4], &[p(2), p(3), p(4), p(5)], &[0], &[false, true]));
    for (i, g) in [Act::Group { by: 1, with: vec![] }, Act::Doc { by: 1, with: vec![] }].into_iter().enumerate() {
        cfgs.push(Cfg { replicas: 5, bases: vec![chain(g)], after_each: vec![Act::All], depth: t.pick(1, 2), acts: acts.clone(), seed: 10 + i as u64, ..Default::default() });
    }
    cfgs.extend(super::big::configs(t, true, 1, 2));
    for c in &cfgs {
        search(r, c, before, m04_oracle);
    }
    r.bound("replicas", 3);
    r.bound("calls", t.pick(3, 4));
    let _ = THREADS;
}

/// Everybody's access, given that what Public may do everybody may do.
fn with_public(sys: &Sys, mut m: BTreeMap<Who, Access>) -> BTreeMap<Who, Access> {
    if let Some(a) = m.get(&Who::Public).copied() {
        for i in 1..=sys.n() {
            let e = m.entry(Who::P(i)).or_insert(a);
            *e = (*e).max(a);
        }
    }
    m
}

/// Who can read document `k` according to membership, and who actually can.
pub async fn readers(sys: &mut Sys, k: usize, author: u8) -> Result<(BTreeSet<u8>, BTreeSet<u8>), String> {
    let acl = sys.access(author, k).await.unwrap_or_default();
    let may: BTreeSet<u8> = with_public(sys, acl)
        .into_iter()
        .filter_map(|(w, a)| match w {
            Who::P(i) if a >= Read && i <= sys.n() => Some(i),
            _ => None,
        })
        .collect();
    let m = sys.encrypt(author, k).await?;
    sys.all().await;
    let mut can = BTreeSet::new();
    for i in 1..=sys.n() {
        match sys.decrypt(i, m).await {
            Ok(true) => {
                can.insert(i);
            }
            Ok(false) => return Err(format!("{} decrypted something else", who(i))),
            Err(_) => {}
        }
    }
    Ok((may, can))
}

fn k03_oracle<'a>(ran: &'a mut Ran<'_>) -> Oracle<'a> {
    Box::pin(async move {
        let mut v = vec![];
        let docs: Vec<usize> = ran.sys.docs.iter().copied().collect();
        for k in docs {
            let acl = ran.sys.access(1, k).await.unwrap_or_default();
            let authors: Vec<u8> = with_public(ran.sys, acl)
                .into_iter()
                .filter_map(|(w, a)| match w {
                    Who::P(i) if a >= Edit => Some(i),
                    _ => None,
                })
                .collect();
            for a in authors {
                match readers(ran.sys, k, a).await {
                    Err(e) => v.push((format!("{}-encrypts-{k}", who(a)), e)),
                    Ok((may, can)) if may != can => {
                        let n = |s: &BTreeSet<u8>| s.iter().map(|i| who(*i)).collect::<String>();
                        v.push((format!("{}-encrypts-{k}", who(a)), format!("readable by [{}] but members who may read are [{}]", n(&can), n(&may))));
                    }
                    Ok(_) => {}
                }
            }
        }
        v
    })
}

fn nothing(_: &Sys) -> std::pin::Pin<Box<dyn std::future::Future<Output = Value> + '_>> {
    Box::pin(async { Value::Null })
}

pub fn k03(r: &mut Report) {
    let t = r.tier;
    for (i, b) in resource_bases().into_iter().enumerate().skip(1) {
        let nested = i == 3;
        let res: &[usize] = if nested { &[0, 1] } else { &[0] };
        let mut acts = adds(&[1, 2], &[p(2), p(3)], res, &[Relay, Read, Edit]);
        acts.extend(revokes(&[1, 2], &[p(1), p(2), p(3)], res, if nested { &[false] } else { &[false, true] }));
        if nested {
            acts.extend(revokes(&[1], &[Who::R(0)], &[1], &[false]));
            acts.extend(adds(&[1], &[Who::R(0)], &[1], &[Read]));
        }
        acts.push(Act::Update { by: 2, res: if nested { 1 } else { 0 } });
        acts.push(Act::Rotate { by: 3 });
        let c = Cfg { replicas: 3, bases: vec![b], after_each: vec![Act::All], depth: t.pick(if nested { 2 } else { 3 }, if nested { 3 } else { 4 }), acts, seed: i as u64, ..Default::default() };
        search(r, &c, nothing, k03_oracle);
    }
    for c in super::big::configs(t, true, 1, 2) {
        search(r, &c, nothing, k03_oracle);
    }
}

/// Somebody acted on a resource through a group, and somebody was removed from
/// that group at the same time: whether the operation is accepted depends on
/// which arrives first (see known-findings.txt).
pub fn acted_through_shrinking_group(hist: &[Act]) -> bool {
    let mut creator: Vec<u8> = vec![];
    let mut nested: BTreeSet<(usize, usize)> = Default::default();
    let mut shrunk: BTreeSet<usize> = Default::default();
    let mut acted: BTreeSet<usize> = Default::default();
    for a in hist {
        match a {
            Act::Group { by, .. } | Act::Doc { by, .. } => creator.push(*by),
            Act::Add { by, who, res, .. } | Act::Revoke { by, who, res, .. } => {
                if let (Who::R(j), Act::Add { .. }) = (who, a) {
                    nested.insert((*j, *res));
                }
                if let Act::Revoke { .. } = a {
                    shrunk.insert(*res);
                }
                if creator[*res] != *by {
                    acted.insert(*res);
                }
            }
            _ => {}
        }
    }
    // groups within groups
    loop {
        let more: Vec<_> = nested.iter().flat_map(|(i, j)| nested.iter().filter(move |(k, _)| k == j).map(move |(_, l)| (*i, *l))).collect();
        let n = nested.len();
        nested.extend(more);
        if nested.len() == n {
            break;
        }
    }
    nested.iter().any(|(j, k)| shrunk.contains(j) && acted.contains(k))
}

fn m06_oracle<'a>(ran: &'a mut Ran<'_>) -> Oracle<'a> {
    Box::pin(async move {
        let mut v = vec![];
        let known = acted_through_shrinking_group(ran.hist);
        let sym = |s: &str| if known { format!("class:acts-through-group-while-removed-from-it:{s}") } else { s.to_string() };
        ran.sys.all().await;
        let now = seen(ran.sys).await;
        for (i, p) in &now.pending {
            if *p != 0 {
                v.push((sym("pending"), format!("{} didn't accept {p} operations that others issued", who(*i))));
            }
        }
        let one = now.direct.get(&1).cloned().unwrap_or_default();
        for i in 2..=ran.sys.n() {
            if now.direct.get(&i) != Some(&one) {
                v.push((sym("disagree"), format!("A sees {one:?}, {} sees {:?}", who(i), now.direct.get(&i))));
            }
        }
        v
    })
}

pub fn m06(r: &mut Report) {
    let t = r.tier;
    let pushes = |n: u8| -> Vec<Act> {
        let mut v = vec![];
        for a in 1..=n {
            for b in 1..=n {
                if a != b {
                    v.push(Act::Push { from: a, to: b });
                }
            }
        }
        v
    };
    let bases: Vec<(Vec<Act>, Vec<usize>)> = vec![
        (vec![Act::Group { by: 1, with: vec![p(2)] }, Act::All], vec![0]),
        (vec![Act::Doc { by: 1, with: vec![p(2)] }, Act::All], vec![0]),
        (
            vec![
                Act::Group { by: 1, with: vec![p(2)] },
                Act::Doc { by: 1, with: vec![] },
                Act::Add { by: 1, who: Who::R(0), res: 1, can: Admin },
                Act::All,
            ],
            vec![0, 1],
        ),
        (
            vec![
                Act::Group { by: 1, with: vec![p(2)] },
                Act::Group { by: 2, with: vec![p(1)] },
                Act::All,
            ],
            vec![0, 1],
        ),
    ];
    for (i, (b, res)) in bases.into_iter().enumerate() {
        let mut whos = vec![p(1), p(2), p(3)];
        if i == 3 {
            whos = vec![p(2), p(3), Who::R(0), Who::R(1)];
        }
        if i == 1 {
            whos.push(Who::Public);
        }
        let mut acts = adds(&[1, 2, 3], &whos, &res, if res.len() > 1 { &[Edit] } else { &[Edit, Admin] });
        acts.extend(revokes(&[1, 2, 3], &whos, &res, &[false]));
        acts.extend(pushes(3));
        let c = Cfg { replicas: 3, bases: vec![b], after_each: vec![], depth: t.pick(if res.len() > 1 { 2 } else { 3 }, if res.len() > 1 { 3 } else { 4 }), acts, seed: i as u64, ..Default::default() };
        search(r, &c, nothing, m06_oracle);
    }
    for c in super::big::configs(t, false, 1, 2) {
        search(r, &c, nothing, m06_oracle);
    }
}

/// Who can read what is written once everything has been exchanged, if `first`
/// writes first.
fn k07_oracle<'a>(ran: &'a mut Ran<'_>, first: u8) -> Oracle<'a> {
    Box::pin(async move {
        let mut v = vec![];
        ran.sys.all().await;
        let docs: Vec<usize> = ran.sys.docs.iter().copied().collect();
        for k in docs {
            let n = ran.sys.n();
            for a in (0..n).map(|j| (first - 1 + j) % n + 1) {
                let acl = ran.sys.access(a, k).await.unwrap_or_default();
                let writes = with_public(ran.sys, acl).get(&Who::P(a)).is_some_and(|x| *x >= Edit);
                if !writes {
                    if a == first && first != 1 {
                        break;
                    }
                    continue;
                }
                let sym = format!("{}-encrypts-{k}-after-{}", who(a), who(first));
                match readers(ran.sys, k, a).await {
                    Err(e) => v.push((sym, e)),
                    Ok((may, can)) if may != can => {
                        let n = |s: &BTreeSet<u8>| s.iter().map(|i| who(*i)).collect::<String>();
                        v.push((sym, format!("readable by [{}] but members who may read are [{}]", n(&can), n(&may))));
                    }
                    Ok(_) => {}
                }
            }
        }
        v
    })
}

pub fn k07(r: &mut Report) {
    let t = r.tier;
    for (i, b) in resource_bases().into_iter().enumerate().skip(1) {
        let nested = i == 3;
        let res: &[usize] = if nested { &[0, 1] } else { &[0] };
        let b: Vec<Act> = b.into_iter().chain([Act::All]).collect();
        let mut acts = adds(&[1, 2], &[p(1), p(2), p(3)], res, &[Edit]);
        acts.retain(|a| !matches!(a, Act::Add { by, who, .. } if *who == Who::P(*by)));
        acts.extend(revokes(&[1, 2], &[p(1), p(2), p(3)], res, if nested { &[false] } else { &[false, true] }));
        if nested {
            acts.extend(revokes(&[1], &[Who::R(0)], &[1], &[false]));
            acts.extend(adds(&[1], &[Who::R(0)], &[1], &[Read]));
        }
        acts.push(Act::Update { by: 2, res: if nested { 1 } else { 0 } });
        acts.push(Act::Enc { by: 1, res: if nested { 1 } else { 0 } });
        acts.push(Act::Push { from: 1, to: 2 });
        acts.push(Act::Push { from: 2, to: 1 });
        let c = Cfg { replicas: 3, bases: vec![b], depth: t.pick(if nested { 3 } else { 4 }, if nested { 4 } else { 5 }), acts, seed: i as u64, ..Default::default() };
        for first in 1..=2 {
            search(r, &c, nothing, |ran| k07_oracle(ran, first));
        }
        let c = Cfg { depth: c.depth - 1, ..c };
        search(r, &c, nothing, |ran| k07_oracle(ran, 3));
    }
    for c in super::big::configs(t, false, 1, 2) {
        search(r, &c, nothing, |ran| k07_oracle(ran, 1));
    }
    r.bound("replicas", 3);
}

/// Documents that are, or were for a while, shared with everybody.
pub fn k08(r: &mut Report) {
    let t = r.tier;
    for (i, b) in resource_bases().into_iter().enumerate().skip(1) {
        let nested = i == 3;
        let res: &[usize] = if nested { &[0, 1] } else { &[0] };
        let last = res.len() - 1;
        let mut acts = adds(&[1, 2], &[Who::Public], res, &[Read, Edit]);
        acts.extend(adds(&[1], &[p(2), p(3)], &[last], &[Edit]));
        acts.extend(revokes(&[1, 2], &[Who::Public], res, &[false]));
        acts.extend(revokes(&[1], &[p(2), p(3)], &[last], &[false]));
        if nested {
            acts.extend(revokes(&[1], &[Who::R(0)], &[1], &[false]));
        }
        for by in [2, 3] {
            acts.push(Act::Update { by, res: last });
            acts.push(Act::Enc { by, res: last });
        }
        let c = Cfg { replicas: 3, bases: vec![b.clone()], after_each: vec![Act::All], depth: t.pick(if nested { 2 } else { 3 }, if nested { 3 } else { 4 }), acts: acts.clone(), seed: i as u64, ..Default::default() };
        search(r, &c, nothing, k03_oracle);
        // without exchange in between
        acts.push(Act::Push { from: 1, to: 2 });
        acts.push(Act::Push { from: 2, to: 1 });
        acts.push(Act::Push { from: 1, to: 3 });
        let c = Cfg { replicas: 3, bases: vec![b], depth: t.pick(2, 3), acts, seed: 50 + i as u64, ..Default::default() };
        for first in 1..=3 {
            search(r, &c, nothing, |ran| k07_oracle(ran, first));
        }
    }
    r.bound("replicas", 3);
}
