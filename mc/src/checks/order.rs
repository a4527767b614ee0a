//! U01: dependency orders.
use crate::{det, explore::*, report::*};
use beekem::topsort::TopologicalSort;
use keyhive_core::util::topsort::Topsort;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, Debug)]
enum Step {
    /// The first before the second.
    Edge(u8, u8),
    Node(u8),
    Pop,
}

fn show(s: &[Step]) -> String {
    s.iter()
        .map(|s| match s {
            Step::Edge(a, b) => format!("{a}<{b}"),
            Step::Node(a) => format!("{a}"),
            Step::Pop => "pop".into(),
        })
        .collect::<Vec<_>>()
        .join(",")
}

/// What each pop yields, by the definition: whatever waits for nothing.
fn model(steps: &[Step]) -> (Vec<BTreeSet<u8>>, bool) {
    let mut waits: BTreeMap<u8, BTreeSet<u8>> = Default::default();
    let mut out = vec![];
    for s in steps {
        match s {
            Step::Node(a) => {
                waits.entry(*a).or_default();
            }
            Step::Edge(a, b) => {
                waits.entry(*a).or_default();
                waits.entry(*b).or_default().insert(*a);
            }
            Step::Pop => {
                let ready: BTreeSet<u8> = waits.iter().filter(|(_, w)| w.is_empty()).map(|(n, _)| *n).collect();
                waits.retain(|n, _| !ready.contains(n));
                for w in waits.values_mut() {
                    w.retain(|n| !ready.contains(n));
                }
                out.push(ready);
            }
        }
    }
    (out, waits.is_empty())
}

fn one(r: &Report, steps: &[Step]) {
    r.execution();
    r.transitions(steps.len() as u64);
    r.compared(2);
    let (want, empty) = model(steps);
    let mut core: Topsort<u8> = Topsort::new();
    let mut tree: TopologicalSort<u8> = TopologicalSort::new();
    let (mut a, mut b) = (vec![], vec![]);
    let nodes = steps.iter().any(|s| matches!(s, Step::Node(_)));
    for s in steps {
        match s {
            Step::Edge(x, y) => {
                core.add_dependency(*x, *y);
                tree.add_dependency(*x, *y);
            }
            Step::Node(x) => core.add_node(*x),
            Step::Pop => {
                a.push(core.pop_frontier());
                b.push(tree.pop_all());
            }
        }
    }
    let bad = |what: &str, d: String| r.violation(&format!("{}:{what}", show(steps)), d, json!({"steps": show(steps)}));
    let sorted: Vec<Vec<u8>> = want.iter().map(|w| w.iter().copied().collect()).collect();
    if a != sorted || core.is_empty() != empty {
        bad("core", format!("yields {a:?} (empty: {}) instead of {sorted:?} (empty: {empty})", core.is_empty()));
    }
    if !nodes {
        if b != sorted || tree.is_empty() != empty {
            bad("beekem", format!("yields {b:?} (empty: {}) instead of {sorted:?} (empty: {empty})", tree.is_empty()));
        }
    }
}

pub fn u01(r: &mut Report) {
    let t = r.tier;
    let seeds = t.pick(2u64, 4);
    let pops = |n: usize| std::iter::repeat_n(Step::Pop, n + 1);
    // every graph, popped until nothing is left or nothing moves
    let n = 5u8;
    let pairs: Vec<(u8, u8)> = (0..n).flat_map(|a| (0..n).filter(move |b| a != *b).map(move |b| (a, b))).collect();
    let shards: Vec<u32> = (0..256).collect();
    {
        let r = &*r;
        par_each(&shards, THREADS, |_, hi| {
            for seed in 0..seeds {
                let found = det::run(seed, || {
                    for lo in 0u32..1 << (pairs.len() - 8) {
                        let mask = (hi << (pairs.len() - 8)) | lo;
                        let mut s: Vec<Step> = vec![];
                        for (i, (a, b)) in pairs.iter().enumerate() {
                            if mask & (1 << i) != 0 {
                                s.push(Step::Edge(*a, *b));
                            }
                        }
                        s.extend(pops(n as usize));
                        one(r, &s);
                    }
                });
                if let Err(e) = found {
                    r.violation(&format!("graphs-{hi}:abort"), e.to_string(), json!({"shard": hi}));
                }
            }
        });
    }
    // dependencies and nodes that are added between pops, also of what was popped already
    let n = 3u8;
    let mut items: Vec<Step> = (0..n).flat_map(|a| (0..n).map(move |b| Step::Edge(a, b))).collect();
    items.push(Step::Node(0));
    items.push(Step::Node(n));
    let total = 3u32.pow(items.len() as u32);
    {
        let r = &*r;
        let shards: Vec<u32> = (0..243).collect();
        par_each(&shards, THREADS, |_, shard| {
            for seed in 0..seeds {
                let found = det::run(seed, || {
                    for x in (*shard..total).step_by(243) {
                        let when: Vec<u32> = (0..items.len()).scan(x, |x, _| Some((*x % 3, *x /= 3).0)).collect();
                        let part = |w: u32| items.iter().zip(&when).filter(move |(_, k)| **k == w).map(|(s, _)| *s);
                        let mut s: Vec<Step> = part(1).collect();
                        s.push(Step::Pop);
                        s.extend(part(2));
                        s.extend(pops(4));
                        one(r, &s);
                    }
                });
                if let Err(e) = found {
                    r.violation(&format!("later-{shard}:abort"), e.to_string(), json!({"shard": shard}));
                }
            }
        });
    }
    r.bound("nodes", 5);
    r.bound("hash seeds", seeds);
}
