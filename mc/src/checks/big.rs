//! Larger starting points: many members, long chains, deep nesting. They are
//! explored less deeply than the small ones.
use super::api::{adds, p, revokes};
use crate::{hist::*, report::*};
use keyhive_core::access::Access::*;

const N: u8 = 6;

fn bases() -> Vec<(Vec<Act>, Vec<usize>)> {
    let add = |by: u8, who: Who, res: usize, can| Act::Add { by, who, res, can };
    let others: Vec<Who> = (2..=N).map(p).collect();
    let mut out = vec![];
    // everybody in a group that edits a document
    out.push((
        vec![Act::Group { by: 1, with: others.clone() }, Act::Doc { by: 1, with: vec![] }, add(1, Who::R(0), 1, Edit), Act::All],
        vec![0, 1],
    ));
    // each added by the one before
    let mut b = vec![Act::Doc { by: 1, with: vec![] }];
    for i in 2..=N {
        b.extend([add(i - 1, p(i), 0, Admin), Act::All]);
    }
    out.push((b, vec![0]));
    // groups in groups, with somebody in every other
    let mut b = vec![Act::Group { by: 1, with: vec![p(2)] }];
    for i in 1..5usize {
        b.push(Act::Group { by: 1, with: if i % 2 == 0 { vec![p(2 + i as u8)] } else { vec![] } });
        b.push(add(1, Who::R(i - 1), i, Edit));
    }
    b.extend([Act::Doc { by: 1, with: vec![] }, add(1, Who::R(4), 5, Edit), Act::All]);
    out.push((b, vec![0, 3, 5]));
    // coming and going
    let mut b = vec![Act::Doc { by: 1, with: vec![p(2)] }, Act::All];
    for i in 0..4 {
        let who = p(3 + i % 2);
        b.extend([add(1, who, 0, Edit), Act::All, Act::Enc { by: 2, res: 0 }, Act::All]);
        b.extend([Act::Revoke { by: 1 + i % 2, who, res: 0, retain: false }, Act::All, Act::Enc { by: 1, res: 0 }, Act::All]);
    }
    out.push((b, vec![0]));
    // documents in documents
    let mut b = vec![];
    for i in 0..4usize {
        b.push(Act::Doc { by: 1, with: vec![p(2 + i as u8)] });
        if i > 0 {
            b.push(add(1, Who::R(i - 1), i, Edit));
        }
    }
    b.push(Act::All);
    out.push((b, vec![0, 3]));
    // much written
    let mut b = vec![Act::Doc { by: 1, with: vec![p(2), p(3)] }, Act::All];
    for _ in 0..3 {
        b.extend([Act::Enc { by: 1, res: 0 }, Act::All, Act::Update { by: 2, res: 0 }, Act::All, Act::Enc { by: 3, res: 0 }, Act::All]);
    }
    out.push((b, vec![0]));
    // everybody at the same time
    let mut b = vec![Act::Doc { by: 1, with: others.clone() }, Act::All];
    b.extend((1..=N).map(|by| Act::Update { by, res: 0 }));
    b.push(Act::All);
    out.push((b, vec![0]));
    // three additions and a removal at the same time
    let b = vec![
        Act::Doc { by: 1, with: vec![] },
        add(1, p(2), 0, Admin),
        add(1, p(3), 0, Admin),
        Act::All,
        add(1, p(4), 0, Edit),
        add(2, p(5), 0, Edit),
        add(3, p(6), 0, Edit),
        Act::Update { by: 2, res: 0 },
        Act::All,
    ];
    out.push((b, vec![0]));
    // a row of seats that fell free
    let mut b = vec![Act::Doc { by: 1, with: others }, Act::All];
    b.extend([3, 4, 5].map(|i| Act::Revoke { by: 1, who: p(i), res: 0, retain: false }));
    b.extend([Act::All, Act::Enc { by: 1, res: 0 }, Act::All, add(1, p(4), 0, Edit), Act::All]);
    out.push((b, vec![0]));
    out
}

/// `exchanged`: after each call everybody learns of it.
pub fn configs(t: Tier, exchanged: bool, quick: usize, thorough: usize) -> Vec<Cfg> {
    bases()
        .into_iter()
        .enumerate()
        .map(|(i, (b, res))| {
            let last = *res.last().unwrap();
            let mut acts = adds(&[1, 2, 4], &[p(3), p(6)], &[last], &[Edit]);
            acts.extend(adds(&[1], &[p(2), p(5)], &res[..1], &[Read]));
            acts.extend(revokes(&[1, 2], &[p(2), p(3), p(5)], &res, &[false]));
            for r in 0..last {
                acts.push(Act::Revoke { by: 1, who: Who::R(r), res: r + 1, retain: false });
            }
            if b.iter().any(|a| matches!(a, Act::Doc { .. })) {
                acts.extend([1, 3, 6].map(|by| Act::Enc { by, res: last }));
                acts.extend([2, 5].map(|by| Act::Update { by, res: last }));
            }
            acts.push(Act::Rotate { by: 2 });
            if !exchanged {
                acts.extend([(1, 2), (2, 1), (1, 6), (6, 3)].map(|(from, to)| Act::Push { from, to }));
            }
            Cfg {
                replicas: N,
                bases: vec![b],
                after_each: if exchanged { vec![Act::All] } else { vec![] },
                depth: t.pick(quick, thorough),
                acts,
                seed: 100 + i as u64,
                ..Default::default()
            }
        })
        .collect()
}
