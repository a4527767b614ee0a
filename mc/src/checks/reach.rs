//! M05: transitive access over every small membership graph.
use crate::{det, exec::block_on, explore::*, mgraph::*, report::*, world::*};
use keyhive_core::access::Access;
use keyhive_core::principal::{document::id::DocumentId, group::id::GroupId};
use serde_json::json;
use std::collections::BTreeMap;

/// Actors: individuals 1 (A) and 2 (B); groups 20.. of which `doc` is a document.
#[derive(Clone)]
struct Case {
    groups: Vec<u8>,
    doc: Option<u8>,
    /// (group, member, access)
    edges: Vec<(u8, u8, Access)>,
    /// Everybody was also added with less access.
    twice: bool,
}

impl std::fmt::Display for Case {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let s: Vec<String> = self.edges.iter().map(|(g, m, a)| format!("{}>{}{}", who(*g), who(*m), ac(*a))).collect();
        write!(f, "{}{}{}", if self.doc.is_some() { "doc:" } else { "" }, if self.twice { "twice:" } else { "" }, s.join(","))
    }
}

impl Case {
    fn all_edges(&self) -> Vec<(u8, u8, Access)> {
        let mut v = self.edges.clone();
        if self.twice {
            v.extend(self.edges.iter().filter(|e| e.2 > Access::Relay).map(|(g, m, a)| {
                let below = LEVELS.iter().copied().filter(|l| l < a).last().unwrap();
                (*g, *m, below)
            }));
        }
        v
    }
}

/// Widest paths by fixpoint: access[g][m] = max over paths of the least access on the path.
fn oracle(c: &Case) -> BTreeMap<(u8, u8), Access> {
    let mut w: BTreeMap<(u8, u8), Access> = BTreeMap::new();
    for (g, m, a) in &c.edges {
        let e = w.entry((*g, *m)).or_insert(*a);
        *e = (*e).max(*a);
    }
    loop {
        let mut next = w.clone();
        for ((g, k), a) in &w {
            for ((k2, m), b) in &w {
                if k == k2 {
                    let v = (*a).min(*b);
                    let e = next.entry((*g, *m)).or_insert(v);
                    *e = (*e).max(v);
                }
            }
        }
        if next == w {
            break;
        }
        w = next;
    }
    w.retain(|(g, m), _| g != m);
    w
}

async fn build(c: &Case) -> Kh {
    let z = mk(30).await;
    for i in 1..=2 {
        ingest(&z, super::member::prekeys_of(i)).await;
    }
    let g = Graph {
        ops: c.all_edges().into_iter().map(|(g, m, a)| Op::D { issuer: g, proof: None, to: m, can: a, after: vec![] }).collect(),
        sub: BTreeMap::new(),
    };
    let evs = g.sign_for(c.doc);
    // a group exists once one of its own delegations is known; delegations to
    // it wait until then
    ingest(&z, &evs).await;
    z
}

fn cases(t: Tier) -> Vec<Case> {
    let mut out = vec![];
    let groups = vec![20u8, 21, 22];
    let none_or = |v: &[Access]| -> Vec<Option<Access>> { std::iter::once(None).chain(v.iter().copied().map(Some)).collect() };
    let gl = t.pick(vec![Access::Read, Access::Admin], vec![Access::Read, Access::Edit, Access::Admin]);
    let il = t.pick(vec![Access::Relay, Access::Edit], vec![Access::Relay, Access::Edit, Access::Admin]);
    let pairs: Vec<(u8, u8)> = groups.iter().flat_map(|a| groups.iter().map(move |b| (*a, *b))).filter(|(a, b)| a != b).collect();
    let (g_opts, i_opts) = (none_or(&gl), none_or(&il));
    let ng = g_opts.len().pow(pairs.len() as u32);
    let ni = i_opts.len().pow(groups.len() as u32);
    for doc in [None, Some(20u8)] {
        for x in 0..ng {
            for y in 0..ni {
                let mut edges = vec![];
                let mut k = x;
                for (a, b) in &pairs {
                    if let Some(l) = g_opts[k % g_opts.len()] {
                        edges.push((*a, *b, l));
                    }
                    k /= g_opts.len();
                }
                let mut k = y;
                for g in &groups {
                    if let Some(l) = i_opts[k % i_opts.len()] {
                        edges.push((*g, 1, l));
                    }
                    k /= i_opts.len();
                }
                // each group needs a member to be known at all
                if groups.iter().any(|g| !edges.iter().any(|e| e.0 == *g)) {
                    continue;
                }
                // groups only know of each other when reachable without a cycle of
                // introductions: some group must start with an individual
                if !edges.iter().any(|e| e.1 == 1) {
                    continue;
                }
                for twice in [false, true] {
                    out.push(Case { groups: groups.clone(), doc, edges: edges.clone(), twice });
                }
            }
        }
    }
    out
}

/// Deep, wide and cyclic families, each with one or two edges more.
fn large(t: Tier) -> Vec<Case> {
    let gs: Vec<u8> = (20..27).collect();
    let down = |i: usize| [Access::Admin, Access::Admin, Access::Edit, Access::Edit, Access::Read, Access::Relay, Access::Relay][i];
    let chain = |f: &dyn Fn(usize) -> Access| -> Vec<(u8, u8, Access)> { (0..6).map(|i| (20 + i as u8, 21 + i as u8, f(i))).collect() };
    let with = |mut v: Vec<(u8, u8, Access)>, x: &[(u8, u8, Access)]| {
        v.extend_from_slice(x);
        v
    };
    let leaf = (26, 1, Access::Admin);
    let mut bases = vec![
        // each in the one before
        with(chain(&|_| Access::Admin), &[leaf]),
        with(chain(&down), &[leaf]),
        with(chain(&|i| down(5 - i)), &[leaf]),
        with(chain(&|i| if i == 3 { Access::Read } else { Access::Edit }), &[leaf]),
        // the last one holds the first
        with(chain(&|i| if i % 2 == 0 { Access::Edit } else { Access::Admin }), &[(26, 20, Access::Admin), (23, 1, Access::Edit)]),
        // diamonds, with the higher level the long way round
        vec![
            (20, 21, Access::Admin), (20, 22, Access::Read), (21, 23, Access::Edit), (22, 23, Access::Admin),
            (23, 24, Access::Read), (23, 25, Access::Admin), (24, 26, Access::Admin), (25, 26, Access::Edit), (20, 26, Access::Relay), leaf,
        ],
        // one with all the others
        with((21..27).map(|g| (20, g, down(g as usize - 21))).collect(), &(21..27).map(|g| (g, 1, down(26 - g as usize))).collect::<Vec<_>>()),
        // two rings that share a group
        vec![
            (20, 21, Access::Edit), (21, 22, Access::Edit), (22, 20, Access::Edit), (22, 23, Access::Admin), (23, 24, Access::Read),
            (24, 22, Access::Admin), (24, 25, Access::Edit), (25, 26, Access::Edit), leaf,
        ],
    ];
    // everyone in everyone's
    bases.push(with(
        (20..25u8).flat_map(|a| (20..25u8).filter(move |b| *b != a).map(move |b| (a, b, if (a + b) % 3 == 0 { Access::Admin } else { Access::Read }))).collect(),
        &[(24, 25, Access::Edit), (25, 26, Access::Edit), leaf],
    ));
    let mut extra = vec![];
    for g in &gs {
        for m in gs.iter().copied().chain([1, 2]).filter(|m| m != g) {
            for l in LEVELS {
                extra.push((*g, m, l));
            }
        }
    }
    let mut out = vec![];
    for b in &bases {
        for doc in [None, Some(20u8), Some(23u8)] {
            let c = |e: Vec<(u8, u8, Access)>, twice| Case { groups: gs.clone(), doc, edges: with(b.clone(), &e), twice };
            // an edge is there once at each level
            let ok = |x: &(u8, u8, Access)| !b.contains(x);
            out.push(c(vec![], false));
            out.push(c(vec![], true));
            for (i, x) in extra.iter().enumerate().filter(|(_, x)| ok(x)) {
                out.push(c(vec![*x], false));
                let step = t.pick(if doc.is_none() { 37 } else { 101 }, 5);
                for y in extra[i + 1..].iter().filter(|y| ok(y)).skip(i % step).step_by(step) {
                    out.push(c(vec![*x, *y], false));
                }
            }
        }
    }
    out
}

pub fn m05(r: &mut Report) {
    let all = cases(r.tier);
    // quick: every graph, with a document in one of eight
    let cs: Vec<Case> = match r.tier {
        Tier::Quick => {
            let (d, g): (Vec<_>, Vec<_>) = all.into_iter().partition(|c| c.doc.is_some());
            let mut v = g;
            v.extend(d.into_iter().filter(|c| !c.twice && !c.edges.iter().any(|e| e.0 != 20 && e.1 == 1 && e.2 == Access::Relay)));
            v
        }
        Tier::Thorough => all,
    };
    r.bound("groups, every graph", 3);
    r.bound("graphs", cs.len());
    let more = large(r.tier);
    r.bound("groups, deep, wide and cyclic families", 7);
    r.bound("graphs of these families", more.len());
    let cs: Vec<Case> = cs.into_iter().chain(more).collect();
    par_each(&cs, THREADS, |ix, c| {
        let l = c.to_string();
        let want = oracle(c);
        r.execution();
        r.transitions(c.edges.len() as u64);
        let got = det::run_labelled(ix as u64, || l.clone(), || {
            block_on(async {
                let z = build(c).await;
                let mut got: BTreeMap<(u8, u8), Access> = BTreeMap::new();
                for g in &c.groups {
                    let id = ident(&signer(*g));
                    if let Some(m) = membered(&z, id).await {
                        for (k, (a, can)) in z.reachable_members(m).await {
                            assert!(a.id() == k);
                            got.insert((*g, super::member::names()[&k]), can);
                        }
                    }
                }
                let pending = z.pending_event_hashes().await.len();
                let mut by_agent: BTreeMap<(u8, u8), Access> = BTreeMap::new();
                let mut docs: BTreeMap<(u8, u8), Access> = BTreeMap::new();
                for m in c.groups.iter().copied().chain([1, 2]) {
                    if let Some(a) = agent(&z, ident(&signer(m))).await {
                        for (id, (_, can)) in z.membered_reachable_by_agent(&a).await {
                            by_agent.insert((super::member::names()[&id.into()], m), can);
                        }
                        for (id, ab) in z.docs_reachable_by_agent(&a).await {
                            docs.insert((super::member::names()[&id.into()], m), ab.can());
                        }
                    }
                }
                let kinds: Vec<bool> = {
                    let mut v = vec![];
                    for g in &c.groups {
                        let id = ident(&signer(*g));
                        v.push(if c.doc == Some(*g) {
                            z.get_document(DocumentId::from(id)).await.is_some()
                        } else {
                            z.get_group(GroupId::new(id)).await.is_some()
                        });
                    }
                    v
                };
                (got, by_agent, docs, pending, kinds)
            })
        });
        match got {
            Err(e) => r.violation(&format!("graph:{l}:abort"), format!("{e}"), json!({"graph": l})),
            Ok((got, by_agent, docs, pending, kinds)) => {
                // groups that only know each other in a ring can't be introduced at all
                let mut known = std::collections::BTreeSet::from([1u8, 2]);
                while let Some((g, _, _)) = c.edges.iter().find(|(g, m, _)| known.contains(m) && !known.contains(g)) {
                    known.insert(*g);
                }
                if pending != c.all_edges().iter().filter(|(_, m, _)| !known.contains(m)).count() {
                    r.violation(&format!("graph:{l}:pending"), format!("{pending} valid delegations weren't accepted"), json!({"graph": l}));
                }
                if pending != 0 || kinds.iter().any(|k| !k) {
                    r.outcome("some delegations wait for an unknown agent");
                    return;
                }
                r.compared(1);
                r.state(det::hash64(format!("{got:?}")));
                r.outcome(format!("{} edges", c.edges.len()));
                for (what, have, want) in [
                    ("members", got, want.clone()),
                    ("membered", by_agent, want.clone()),
                    ("docs", docs, want.iter().filter(|((g, _), _)| c.doc == Some(*g)).map(|(k, v)| (*k, *v)).collect()),
                ] {
                    if have != want {
                        let d: Vec<String> = want
                            .keys()
                            .chain(have.keys())
                            .collect::<std::collections::BTreeSet<_>>()
                            .into_iter()
                            .filter(|k| want.get(k) != have.get(k))
                            .map(|k| format!("{} in {}: {:?} instead of {:?}", who(k.1), who(k.0), have.get(k), want.get(k)))
                            .collect();
                        r.violation(&format!("graph:{l}:{what}"), d.join("; "), json!({"graph": l}));
                    }
                }
            }
        }
        if ix % 5003 == 7 {
            r.sample(|| json!({"graph": l}));
        }
    });
}
