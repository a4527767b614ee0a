//! Membership over crafted operation graphs: M01 (convergence), M02/M03 (no
//! unauthorised effect), M04 (revocation), M07 (explained by some order).
use crate::{det, exec::block_on, explore::*, mgraph::*, report::*, world::*};
use keyhive_core::access::Access;

use keyhive_core::principal::group::id::GroupId;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::OnceLock;

pub const G0: u8 = 20;
pub const G1: u8 = 21;
const OBSERVER: u8 = 30;

/// Prekeys of individuals 1..=13, so that replicas know them.
pub fn prekeys_of(i: u8) -> &'static Vec<Ev> {
    static C: OnceLock<Vec<Vec<Ev>>> = OnceLock::new();
    &C.get_or_init(|| {
        (1..=13u8)
            .map(|k| {
                det::run(k as u64, || block_on(async { own_prekeys(&mk(k).await).await[..1].to_vec() })).unwrap()
            })
            .collect()
    })[i as usize - 1]
}

/// What a group looks like: who has how much, and with which delegations.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Seen {
    pub access: BTreeMap<u8, Access>,
    pub exact: BTreeMap<String, BTreeSet<(String, String)>>,
    pub revoked: BTreeMap<String, String>,
    pub pending: usize,
    pub kind: &'static str,
}

pub fn names() -> &'static HashMap<keyhive_core::principal::identifier::Identifier, u8> {
    static C: OnceLock<HashMap<keyhive_core::principal::identifier::Identifier, u8>> = OnceLock::new();
    C.get_or_init(|| (1..=60u8).map(|i| (ident(&signer(i)), i)).collect())
}

pub async fn look(kh: &Kh, group: u8) -> Seen {
    let id = ident(&signer(group));
    let mut s = Seen {
        access: BTreeMap::new(),
        exact: BTreeMap::new(),
        revoked: BTreeMap::new(),
        pending: kh.pending_event_hashes().await.len(),
        kind: "none",
    };
    let (members, revoked) = if let Some(g) = kh.get_group(GroupId::new(id)).await {
        let l = g.lock().await;
        s.kind = "group";
        (l.members().clone(), l.revoked_members())
    } else if let Some(d) = kh.get_document(id.into()).await {
        let l = d.lock().await;
        s.kind = "document";
        (l.members().clone(), l.revoked_members())
    } else {
        return s;
    };
    s.exact = members_of(&members);
    for (k, ds) in &members {
        s.access.insert(names()[k], ds.iter().map(|d| d.payload().can()).max().unwrap());
    }
    s.revoked = revoked.iter().map(|(k, (_, a))| (idh(k), acc(*a))).collect();
    s
}

/// A fresh observer fed `batches` in order.
pub fn observe(seed: u64, label: &str, group: u8, batches: &[Vec<Ev>]) -> Result<Seen, det::Abort> {
    let people = if label.contains("#1") { 13 } else { 9 };
    det::run_labelled(seed, || label.to_string(), || {
        block_on(async {
            let z = mk(OBSERVER).await;
            for i in 1..=people {
                ingest(&z, prekeys_of(i)).await;
            }
            for b in batches {
                ingest(&z, b).await;
            }
            look(&z, group).await
        })
    })
}

pub fn show(m: &BTreeMap<u8, Access>) -> String {
    m.iter().map(|(k, a)| format!("{}:{}", who(*k), ac(*a))).collect::<Vec<_>>().join(" ")
}

pub struct GenCfg {
    pub bases: Vec<Graph>,
    pub ops: usize,
    pub max_revs: usize,
    pub actors: Vec<u8>,
    pub levels: Vec<Access>,
    pub after: bool,
}

pub fn root(g: u8, to: u8, can: Access) -> Op {
    Op::D { issuer: g, proof: None, to, can, after: vec![] }
}

/// Every legitimate operation that could come next.
pub fn legit_next(g: &Graph, cfg: &GenCfg) -> Vec<Op> {
    let mut out = vec![];
    let revs: Vec<usize> = (0..g.ops.len()).filter(|i| !g.is_d(*i)).collect();
    let dlgs: Vec<usize> = (0..g.ops.len()).filter(|i| g.is_d(*i)).collect();
    for &p in &dlgs {
        let Op::D { to: holder, can: pc, .. } = &g.ops[p] else { continue };
        if !g.sub.is_empty() && g.subject(p) != G0 {
            continue;
        }
        let speakers: Vec<(u8, Access)> = if cfg.actors.contains(holder) {
            vec![(*holder, *pc)]
        } else {
            g.sub.iter().filter(|((g, _), _)| g == holder).map(|((_, m), a)| (*m, (*a).min(*pc))).collect()
        };
        for (to, (holder, pc)) in cfg.actors.iter().flat_map(|to| speakers.iter().map(move |s| (*to, s))) {
            if to == *holder {
                continue;
            }
            for &can in &cfg.levels {
                if can > *pc {
                    continue;
                }
                let mut afters = vec![vec![]];
                if cfg.after && !revs.is_empty() {
                    afters.push(revs.clone());
                }
                for after in afters {
                    out.push(Op::D { issuer: *holder, proof: Some(p), to, can, after });
                }
            }
        }
    }
    if revs.len() < cfg.max_revs {
        for &t in &dlgs {
            if !g.sub.is_empty() && g.subject(t) != G0 {
                continue;
            }
            let mut seen = BTreeSet::new();
            for &p in &dlgs {
                let Op::D { issuer: pi, to: ph, .. } = &g.ops[p] else { continue };
                let mut issuers = vec![*pi, *ph];
                issuers.extend(g.sub.keys().filter(|(g, _)| g == ph).map(|(_, m)| *m));
                for issuer in issuers {
                    let op = Op::R { issuer, target: t, proof: Some(p) };
                    if !cfg.actors.contains(&issuer) || !seen.insert(op.clone()) {
                        continue;
                    }
                    let mut h = g.clone();
                    h.ops.push(op.clone());
                    if h.legit(h.ops.len() - 1) {
                        out.push(op);
                    }
                }
            }
            out.push(Op::R { issuer: g.subject(t), target: t, proof: None });
        }
    }
    out
}

/// All legitimate graphs up to `cfg.ops` operations beyond a base, one per op set.
pub fn legit_graphs(cfg: &GenCfg) -> Vec<Graph> {
    let mut seen: HashSet<Vec<u64>> = HashSet::new();
    let mut all = vec![];
    let mut level: Vec<Graph> = cfg.bases.clone();
    for _ in 0..cfg.ops {
        let mut next = vec![];
        for g in &level {
            for op in legit_next(g, cfg) {
                let mut h = g.clone();
                if h.ops.contains(&op) {
                    continue;
                }
                h.ops.push(op);
                if seen.insert(h.canon()) {
                    next.push(h);
                }
            }
        }
        all.extend(next.iter().cloned());
        level = next;
    }
    all
}

fn bases() -> Vec<Graph> {
    let g = |ops| Graph { ops, sub: BTreeMap::new() };
    vec![
        g(vec![root(G0, 1, Access::Admin)]),
        g(vec![root(G0, 1, Access::Admin), root(G0, 2, Access::Admin)]),
        g(vec![root(G0, 1, Access::Edit), root(G0, 2, Access::Admin)]),
    ]
}

/// Long chains, many members, somebody coming and going.
fn long() -> Vec<Graph> {
    let g = |ops| Graph { ops, sub: BTreeMap::new() };
    let d = |issuer: u8, proof: usize, to: u8, can| Op::D { issuer, proof: Some(proof), to, can, after: vec![] };
    let mut out = vec![];
    // each added by the one before
    let mut v = vec![root(G0, 1, Access::Admin)];
    v.extend((1..8u8).map(|i| d(i, i as usize - 1, i + 1, Access::Admin)));
    out.push(g(v));
    // ever less
    let levels = [Access::Admin, Access::Admin, Access::Edit, Access::Edit, Access::Read, Access::Relay];
    let mut v = vec![root(G0, 1, Access::Admin)];
    v.extend((1..6u8).map(|i| d(i, i as usize - 1, i + 1, levels[i as usize])));
    out.push(g(v));
    // all added by the first two
    let mut v = vec![root(G0, 1, Access::Admin), root(G0, 2, Access::Admin)];
    v.extend((3..9u8).map(|i| d(1 + i % 2, i as usize % 2, i, Access::Edit)));
    out.push(g(v));
    // coming and going
    let mut v = vec![root(G0, 1, Access::Admin), d(1, 0, 2, Access::Admin)];
    let mut gone = vec![];
    let mut last = 1;
    for _ in 0..3 {
        v.push(Op::R { issuer: 1, target: last, proof: Some(0) });
        gone.push(v.len() - 1);
        v.push(Op::D { issuer: 1, proof: Some(0), to: 2, can: Access::Admin, after: gone.clone() });
        last = v.len() - 1;
    }
    v.push(d(2, last, 3, Access::Admin));
    out.push(g(v));
    // by many at the same time
    let mut v = vec![root(G0, 1, Access::Admin)];
    v.extend((2..6u8).map(|i| d(1, 0, i, Access::Admin)));
    v.extend((2..6u8).map(|i| d(i, i as usize - 1, 6, if i % 2 == 0 { Access::Edit } else { Access::Admin })));
    v.push(d(6, 5, 7, Access::Edit));
    v.push(d(6, 6, 8, Access::Admin));
    out.push(g(v));
    out
}

fn long_cfg(ops: usize, actors: &[u8]) -> GenCfg {
    GenCfg { bases: long(), ops, max_revs: 9, actors: actors.to_vec(), levels: vec![Access::Admin], after: true }
}

pub fn cfg(ops: usize, max_revs: usize, levels: &[Access]) -> GenCfg {
    GenCfg { bases: bases(), ops, max_revs, actors: vec![1, 2, 3], levels: levels.to_vec(), after: true }
}

fn nested_cfg(ops: usize, max_revs: usize) -> GenCfg {
    GenCfg { bases: nested(), ops, max_revs, actors: vec![1, 2, 3], levels: vec![Access::Read, Access::Edit], after: false }
}

pub fn count() {
    for n in 1..=4 {
        for l in [vec![Access::Admin], vec![Access::Read, Access::Admin]] {
            let c = cfg(n, 3, &l);
            println!("{n} {l:?} {}", legit_graphs(&c).len());
        }
    }
}

/// Every way to hand `evs` over that the bounds ask for: all orders one by one
/// when there are few ops, and for more ops every dependency-respecting order,
/// every reversal of one and every rotation; plus single batches.
pub fn deliveries(g: &Graph, evs: &[Ev], full: usize, cap: usize) -> Vec<(String, Vec<Vec<Ev>>)> {
    let n = evs.len();
    let mut out: Vec<(String, Vec<Vec<Ev>>)> = vec![];
    for k in 0..2 {
        out.push((format!("batch{k}"), vec![evs.to_vec()]));
    }
    let mut orders: Vec<Vec<usize>> = vec![];
    if n <= full {
        orders = permutations(n);
    } else {
        let mut lin = vec![];
        linear_orders(g, &mut vec![], &mut lin, cap);
        for o in lin {
            let mut r = o.clone();
            r.reverse();
            orders.push(r);
            let mut rot = o.clone();
            rot.rotate_left(1);
            orders.push(rot);
            orders.push(o);
        }
        orders.sort();
        orders.dedup();
    }
    for o in orders {
        out.push((
            o.iter().map(|i| i.to_string()).collect::<Vec<_>>().join("."),
            o.iter().map(|i| vec![evs[*i].clone()]).collect(),
        ));
    }
    out
}

pub fn linear_orders(g: &Graph, acc: &mut Vec<usize>, out: &mut Vec<Vec<usize>>, cap: usize) {
    if out.len() >= cap {
        return;
    }
    if acc.len() == g.ops.len() {
        out.push(acc.clone());
        return;
    }
    for i in 0..g.ops.len() {
        if acc.contains(&i) || g.deps(i).iter().any(|d| !acc.contains(d)) {
            continue;
        }
        acc.push(i);
        linear_orders(g, acc, out, cap);
        acc.pop();
    }
}

pub fn m01(r: &mut Report) {
    // quick: three further operations at one access level and two at several
    let cs = r.tier.pick(
        vec![cfg(3, 3, &[Access::Admin]), cfg(2, 2, &[Access::Read, Access::Admin]), nested_cfg(1, 1), long_cfg(1, &[1, 2, 3, 7])],
        vec![cfg(4, 3, &[Access::Read, Access::Admin]), nested_cfg(2, 1), long_cfg(2, &[1, 2, 3, 7])],
    );
    let mut graphs: Vec<Graph> = cs.iter().flat_map(legit_graphs).collect();
    let mut seen = HashSet::new();
    graphs.retain(|g| seen.insert(g.canon()));
    r.bound("graphs", graphs.len());
    r.bound("operations_beyond_the_initial_grants", cs[0].ops);
    let full = 4;
    par_each(&graphs, THREADS, |ix, g| {
        let l = g.to_string();
        let evs = g.sign();
        let mut first: Option<(String, Seen)> = None;
        for (k, (how, batches)) in deliveries(g, &evs, full, 12).into_iter().enumerate() {
            r.execution();
            r.transitions(evs.len() as u64);
            match observe((ix * 1000 + k) as u64, &l, G0, &batches) {
                Err(e) => r.violation(&format!("graph:{l}:abort"), format!("{e}"), json!({"graph": l, "order": how})),
                Ok(s) => {
                    r.compared(1);
                    r.state(det::hash64(format!("{s:?}")));
                    match &first {
                        None => first = Some((how, s)),
                        Some((h0, s0)) if s0.exact != s.exact || s0.revoked != s.revoked => r.violation(
                            &format!("graph:{l}:diverged"),
                            format!("the same operations give [{}] in order {h0} and [{}] in order {how}", show(&s0.access), show(&s.access)),
                            json!({"graph": l, "order": how}),
                        ),
                        _ => {}
                    }
                }
            }
        }
        if ix % 3001 == 7 {
            r.sample(|| json!({"graph": l, "members": first.map(|f| show(&f.1.access))}));
        }
    });
}

pub fn m07(r: &mut Report) {
    let c = r.tier.pick(cfg(3, 3, &[Access::Read, Access::Admin]), cfg(4, 3, &[Access::Read, Access::Admin]));
    let mut graphs = legit_graphs(&c);
    graphs.extend(legit_graphs(&r.tier.pick(nested_cfg(2, 2), nested_cfg(3, 2))));
    graphs.extend(legit_graphs(&long_cfg(r.tier.pick(1, 2), &[1, 2, 3, 7])));
    r.bound("graphs", graphs.len());
    r.bound("operations_beyond_the_initial_grants", c.ops);
    par_each(&graphs, THREADS, |ix, g| {
        let l = g.to_string();
        let evs = g.sign();
        let allowed = g.allowed(G0);
        r.execution();
        r.transitions(evs.len() as u64);
        match observe(ix as u64, &l, G0, &[evs]) {
            Err(e) => r.violation(&format!("graph:{l}:abort"), format!("{e}"), json!({"graph": l})),
            Ok(s) => {
                r.compared(1);
                r.state(det::hash64(format!("{s:?}")));
                r.outcome(format!("{} allowed outcomes", allowed.len()));
                if s.pending != 0 {
                    r.violation(&format!("graph:{l}:pending"), format!("{} legitimate operations not accepted", s.pending), json!({"graph": l}));
                }
                if !allowed.contains(&s.access) {
                    r.violation(
                        &format!("graph:{l}:unexplained"),
                        format!(
                            "members are [{}]; applying the operations one after another gives only {}",
                            show(&s.access),
                            allowed.iter().map(|a| format!("[{}]", show(a))).collect::<Vec<_>>().join(" ")
                        ),
                        json!({"graph": l}),
                    );
                }
            }
        }
        if ix % 3001 == 7 {
            r.sample(|| json!({"graph": l}));
        }
    });
}

/// Operations that must have no effect: not legitimate in `g`, by construction
/// of every kind of forgery the format can express.
fn illegit_next(g: &Graph, revocations: bool) -> Vec<Op> {
    let mut out = vec![];
    let n = g.ops.len();
    let dlgs: Vec<usize> = (0..n).filter(|i| g.is_d(*i)).collect();
    let issuers: Vec<u8> = vec![1, 2, 3, 4];
    let mut push = |op: Op| {
        let mut h = g.clone();
        h.ops.push(op.clone());
        // ops about other subjects are somebody else's business
        if h.subject(n) == G0 && !h.legit(n) {
            out.push(op);
        }
    };
    if !revocations {
        for &issuer in issuers.iter().chain([&G0, &G1]) {
            for &p in &dlgs {
                for to in [1u8, 2, 3, 4] {
                    for can in LEVELS {
                        push(Op::D { issuer, proof: Some(p), to, can, after: vec![] });
                    }
                }
            }
        }
    } else {
        for &issuer in issuers.iter().chain([&G0, &G1]) {
            for &t in &dlgs {
                push(Op::R { issuer, target: t, proof: None });
                for &p in &dlgs {
                    push(Op::R { issuer, target: t, proof: Some(p) });
                }
            }
        }
    }
    out
}

fn with_foreign() -> Vec<Graph> {
    // the attacker (D) is admin of its own group G1, of which A or B may be a
    // member too; G1 may itself be a member of G0
    let mut out = vec![];
    for b in bases() {
        let mut g = b.clone();
        g.ops.push(root(G1, 4, Access::Admin));
        let at = g.ops.len() - 1;
        g.ops.push(Op::D { issuer: 4, proof: Some(at), to: 1, can: Access::Admin, after: vec![] });
        g.ops.push(Op::R { issuer: 4, target: at + 1, proof: Some(at + 1) });
        out.push(g);
    }
    out
}

/// Groups with another group among their members.
fn nested_with(a: Access, g1: Access) -> Graph {
    Graph {
        ops: vec![
            root(G1, 3, Access::Admin),
            root(G1, 1, a),
            root(G0, 2, Access::Admin),
            Op::D { issuer: 2, proof: Some(2), to: G1, can: g1, after: vec![] },
        ],
        sub: BTreeMap::from([((G1, 3), Access::Admin), ((G1, 1), a)]),
    }
}

/// Every combination of the inner member's and the inner group's level.
fn nested_levels() -> Vec<Graph> {
    LEVELS.iter().flat_map(|a| LEVELS.iter().map(|g| nested_with(*a, *g))).collect()
}

fn nested() -> Vec<Graph> {
    let mut out = vec![];
    for (a, g1) in [(Access::Read, Access::Admin), (Access::Admin, Access::Edit), (Access::Edit, Access::Edit)] {
        out.push(nested_with(a, g1));
    }
    // two members of the same group granting the same thing
    let mut twins = out[2].clone();
    for issuer in [1, 3] {
        twins.ops.push(Op::D { issuer, proof: Some(3), to: 4, can: Access::Edit, after: vec![] });
    }
    twins.ops.push(Op::D { issuer: 4, proof: Some(4), to: 2, can: Access::Read, after: vec![] });
    out.push(twins);
    out
}

fn adversarial(r: &mut Report, revocations: bool) {
    let depth = r.tier.pick(1, 2);
    let lv: &[Access] = if revocations { &[Access::Admin] } else { &[Access::Read, Access::Edit] };
    let mut c = cfg(depth, 2, lv);
    c.bases.extend(with_foreign());
    c.bases.extend(nested().into_iter().take(3));
    let mut graphs = c.bases.clone();
    // forgeries only on the base itself
    let plain = [nested_levels(), long()].concat();
    graphs.extend(plain.iter().cloned());
    graphs.extend(legit_graphs(&c));
    let first_grown = c.bases.len() + plain.len();
    let mut cases: Vec<(Graph, Vec<Op>)> = vec![];
    for (i, g) in graphs.iter().enumerate() {
        for op in illegit_next(g, revocations) {
            cases.push((g.clone(), vec![op.clone()]));
            if i >= c.bases.len() && (i < first_grown || (r.tier == Tier::Quick && !revocations)) {
                continue;
            }
            // something resting on the forgery
            let n = g.ops.len();
            match &op {
                Op::D { to, can, .. } => {
                    for to2 in [1u8, 3] {
                        if to2 != *to {
                            cases.push((
                                g.clone(),
                                vec![op.clone(), Op::D { issuer: *to, proof: Some(n), to: to2, can: *can, after: vec![] }],
                            ));
                        }
                    }
                    cases.push((g.clone(), vec![op.clone(), Op::R { issuer: *to, target: 0, proof: Some(n) }]));
                }
                Op::R { .. } => {
                    if let Op::D { to, can, .. } = &g.ops[0] {
                        cases.push((
                            g.clone(),
                            vec![
                                op.clone(),
                                Op::D { issuer: *to, proof: Some(0), to: 4, can: *can, after: vec![n] },
                            ],
                        ));
                    }
                }
            }
        }
    }
    r.bound("honest_graphs", graphs.len());
    r.bound("forgery_cases", cases.len());
    let expected: std::sync::Mutex<HashMap<Vec<u64>, Result<Seen, det::Abort>>> = Default::default();
    par_each(&cases, THREADS, |ix, (g, bad)| {
        let mut h = g.clone();
        h.ops.extend(bad.iter().cloned());
        let l = h.to_string();
        let all = h.sign();
        let honest = all[..g.ops.len()].to_vec();
        let key = g.canon();
        let known = expected.lock().unwrap().get(&key).cloned();
        let want = known.unwrap_or_else(|| {
            let w = observe(ix as u64, &l, G0, &[honest.clone()]);
            expected.lock().unwrap().insert(key, w.clone());
            w
        });
        let Ok(want) = want else {
            r.violation(&format!("graph:{l}:abort"), "honest part aborted", json!({"graph": l}));
            return;
        };
        let evil: Vec<Ev> = all[g.ops.len()..].to_vec();
        let mut plans = vec![
            vec![honest.clone(), evil.clone()],
            all.iter().rev().map(|e| vec![e.clone()]).collect(),
        ];
        if r.tier == Tier::Thorough {
            plans.push(vec![all.clone()]);
            plans.push(vec![evil.clone(), honest.clone()]);
        }
        for (k, p) in plans.into_iter().enumerate() {
            r.execution();
            r.transitions(all.len() as u64);
            match observe((ix * 7 + k) as u64, &l, G0, &p) {
                Err(e) => r.violation(&format!("graph:{l}:abort"), format!("{e}"), json!({"graph": l})),
                Ok(s) => {
                    r.compared(1);
                    r.state(det::hash64(format!("{s:?}")));
                    if s.exact != want.exact || s.revoked != want.revoked {
                        r.violation(
                            &format!("graph:{l}:effect"),
                            format!(
                                "unauthorised {} changed the members from [{}] to [{}] (delivery {k})",
                                bad[0],
                                show(&want.access),
                                show(&s.access)
                            ),
                            json!({"graph": l, "delivery": k}),
                        );
                    }
                }
            }
        }
        r.outcome(format!("{} forged ops on {} honest", bad.len(), g.ops.len()));
        if ix % 3001 == 7 {
            r.sample(|| json!({"graph": l, "forged": bad.len()}));
        }
    });
}

/// Members must be exactly those some chain of legitimate delegations reaches,
/// with no more access than the chain gives.
pub fn m02(r: &mut Report) {
    adversarial(r, false);
    r.assume("Ed25519 signatures can't be forged: forgeries are re-attributions, alterations and ops an actor signs with its own key");
}

pub fn m03(r: &mut Report) {
    adversarial(r, true);
    r.assume("Ed25519 signatures can't be forged");
}

/// Delegations first, then revocations that nobody issuing them knew of.
fn clashes(t: Tier) -> Vec<Graph> {
    let mut trees: Vec<Vec<Op>> = vec![vec![root(G0, 1, Access::Admin)]];
    let mut out = vec![];
    for _ in 0..t.pick(4, 5) {
        let mut next = vec![];
        for ops in &trees {
            let n = ops.len() as u8;
            let mut push = |op: Op| {
                // in one order only
                let mut v = ops.clone();
                v.push(op);
                next.push(v);
            };
            if n == 1 {
                push(root(G0, 2, Access::Admin));
            }
            for (i, o) in ops.iter().enumerate() {
                let Op::D { to, .. } = o else { unreachable!() };
                push(Op::D { issuer: *to, proof: Some(i), to: n + 1, can: Access::Admin, after: vec![] });
            }
        }
        for ops in &next {
            let n = ops.len();
            let revs: Vec<Op> = (0..n)
                .flat_map(|p| (0..n).map(move |target| (p, target)))
                .filter(|(p, t)| p != t)
                .map(|(p, target)| Op::R { issuer: p as u8 + 1, proof: Some(p), target })
                .collect();
            let sizes = match n {
                0..=3 => vec![2, 3, 4],
                4 => t.pick(vec![2, 3], vec![2, 3, 4]),
                5 => t.pick(vec![2], vec![2, 3]),
                _ => vec![2],
            };
            for k in sizes {
                for c in crate::explore::combinations(revs.len(), k) {
                    let mut g = Graph { ops: ops.clone(), sub: Default::default() };
                    g.ops.extend(c.iter().map(|i| revs[*i].clone()));
                    out.push(g);
                }
            }
        }
        trees = next;
    }
    // long ones: a line of eight, two lines of four, a line with somebody beside each
    let d = |issuer: u8, proof: usize, to: u8| Op::D { issuer, proof: Some(proof), to, can: Access::Admin, after: vec![] };
    let line: Vec<Op> = std::iter::once(root(G0, 1, Access::Admin)).chain((1..8u8).map(|i| d(i, i as usize - 1, i + 1))).collect();
    let two: Vec<Op> = [root(G0, 1, Access::Admin), root(G0, 2, Access::Admin)].into_iter().chain((1..7u8).map(|i| d(i, i as usize - 1, i + 2))).collect();
    let beside: Vec<Op> = std::iter::once(root(G0, 1, Access::Admin)).chain((2..9u8).map(|i| d(((i - 1) / 2 * 2).max(1), ((i - 1) / 2 * 2).max(1) as usize - 1, i))).collect();
    for ops in [line, two, beside] {
        let n = ops.len();
        let revs: Vec<Op> = (0..n)
            .flat_map(|p| (0..n).map(move |target| (p, target)))
            .filter(|(p, t)| p != t)
            .map(|(p, target)| Op::R { issuer: p as u8 + 1, proof: Some(p), target })
            .collect();
        let mut cs = crate::explore::combinations(revs.len(), 2);
        cs.extend(crate::explore::combinations(revs.len(), 3).into_iter().step_by(t.pick(31, 5)));
        cs.extend(crate::explore::combinations(revs.len(), 4).into_iter().step_by(t.pick(1009, 101)));
        for c in cs {
            let mut g = Graph { ops: ops.clone(), sub: Default::default() };
            g.ops.extend(c.iter().map(|i| revs[*i].clone()));
            out.push(g);
        }
    }
    // three branches of different lengths whose last members revoke each other in a circle
    let max = t.pick(3usize, 4);
    for lens in (0..max.pow(3)).map(|x| [x % max + 1, x / max % max + 1, x / max / max + 1]) {
        let mut ops = vec![root(G0, 1, Access::Admin)];
        let mut ends: Vec<Vec<usize>> = vec![];
        for len in lens {
            let mut branch = vec![];
            for k in 0..len {
                let above = if k == 0 { 0 } else { ops.len() - 1 };
                let Op::D { to, .. } = ops[above] else { unreachable!() };
                branch.push(ops.len());
                let next = ops.len() as u8 + 1;
                ops.push(d(to, above, next));
            }
            ends.push(branch.into_iter().rev().take(2).collect());
        }
        let mut revs: Vec<Op> = vec![];
        for a in 0..3 {
            for b in (0..3).filter(|b| *b != a) {
                for target in &ends[b] {
                    revs.push(Op::R { issuer: ends[a][0] as u8 + 1, proof: Some(ends[a][0]), target: *target });
                }
            }
        }
        for c in crate::explore::combinations(revs.len(), 3) {
            let mut g = Graph { ops: ops.clone(), sub: Default::default() };
            g.ops.extend(c.iter().map(|i| revs[*i].clone()));
            out.push(g);
        }
    }
    out
}

/// The documented rule: what is closer to the root comes first, among equals any.
pub fn m08(r: &mut Report) {
    let graphs = clashes(r.tier);
    r.bound("graphs", graphs.len());
    par_each(&graphs, THREADS, |ix, g| {
        let l = g.to_string();
        let nd = (0..g.ops.len()).filter(|i| g.is_d(*i)).count();
        let mut dist: Vec<usize> = vec![];
        for i in 0..g.ops.len() {
            let d = g.deps(i).iter().map(|d| dist[*d]).max().unwrap_or(0) + 1;
            dist.push(d);
        }
        let mut allowed: BTreeSet<BTreeMap<u8, Access>> = Default::default();
        let mut any: BTreeSet<BTreeMap<u8, Access>> = Default::default();
        for p in permutations(g.ops.len() - nd) {
            let order: Vec<usize> = (0..nd).chain(p.iter().map(|i| nd + i)).collect();
            let got = g.access(&g.run_trusted(G0, &order, false));
            any.insert(got.clone());
            if order[nd..].windows(2).all(|w| dist[w[0]] <= dist[w[1]]) {
                allowed.insert(got);
            }
        }
        let evs = g.sign();
        let singly: Vec<Vec<Ev>> = (0..nd).chain((nd..g.ops.len()).rev()).map(|i| vec![evs[i].clone()]).collect();
        for batches in [vec![evs], singly] {
            r.execution();
            r.transitions(g.ops.len() as u64);
            match observe(ix as u64, &l, G0, &batches) {
                Err(e) => r.violation(&format!("graph:{l}:abort"), format!("{e}"), json!({"graph": l})),
                Ok(s) => {
                    r.compared(1);
                    r.state(det::hash64(format!("{s:?}")));
                    r.outcome(format!("{} of {} outcomes allowed", allowed.len(), any.len()));
                    if !allowed.contains(&s.access) {
                        r.violation(
                            &format!("graph:{l}:junior"),
                            format!(
                                "members are [{}] instead of {}",
                                show(&s.access),
                                allowed.iter().map(|a| format!("[{}]", show(a))).collect::<Vec<_>>().join(" or ")
                            ),
                            json!({"graph": l}),
                        );
                    }
                }
            }
        }
    });
}
