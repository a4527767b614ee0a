//! S01: only what its author signed counts.
use super::api::p;
use super::sync::*;
use crate::{explore::*, hist::*, mgraph::who, report::*, world::*};
use keyhive_core::{access::Access::*, principal::individual::op::KeyOp};
use keyhive_crypto::signed::Signed;
use serde_json::json;

fn bases() -> Vec<Vec<Act>> {
    vec![
        vec![
            Act::Group { by: 1, with: vec![p(2)] },
            Act::Add { by: 1, who: p(3), res: 0, can: Edit },
            Act::All,
            Act::Revoke { by: 2, who: p(3), res: 0, retain: false },
            Act::Add { by: 1, who: p(3), res: 0, can: Read },
            Act::Rotate { by: 2 },
            Act::Expand { by: 1 },
        ],
        vec![
            Act::Doc { by: 1, with: vec![p(2)] },
            Act::All,
            Act::Add { by: 2, who: p(3), res: 0, can: Edit },
            Act::Enc { by: 1, res: 0 },
            Act::All,
            Act::Revoke { by: 1, who: p(3), res: 0, retain: false },
            Act::Enc { by: 2, res: 0 },
        ],
        vec![
            Act::Group { by: 1, with: vec![p(2)] },
            Act::Doc { by: 1, with: vec![] },
            Act::Add { by: 1, who: Who::R(0), res: 1, can: Edit },
            Act::All,
            Act::Add { by: 2, who: p(3), res: 1, can: Read },
            Act::All,
            Act::Revoke { by: 1, who: p(3), res: 1, retain: false },
        ],
        // groups in each other, and one of them in a document that anyone may read
        vec![
            Act::Group { by: 1, with: vec![p(2)] },
            Act::All,
            Act::Group { by: 2, with: vec![Who::R(0)] },
            Act::All,
            Act::Add { by: 1, who: Who::R(1), res: 0, can: Admin },
            Act::Doc { by: 2, with: vec![Who::R(1)] },
            Act::All,
            Act::Add { by: 1, who: Who::Public, res: 2, can: Read },
            Act::Update { by: 1, res: 2 },
            Act::All,
            Act::Revoke { by: 2, who: Who::Public, res: 2, retain: true },
            Act::Rotate { by: 1 },
            Act::Add { by: 2, who: p(3), res: 2, can: Edit },
            Act::Enc { by: 2, res: 2 },
        ],
    ]
}

macro_rules! splice {
    ($variant:ident, $x:expr, $y:expr, $out:expr, $n:expr) => {
        if let (Ev::$variant(x), Ev::$variant(y)) = ($x, $y) {
            $out.push((format!("payload-of-{}", $n), Ev::$variant(Signed::new(y.payload.clone(), x.issuer, x.signature).into())));
            $out.push((format!("issuer-of-{}", $n), Ev::$variant(Signed::new(x.payload.clone(), y.issuer, x.signature).into())));
            $out.push((format!("signature-of-{}", $n), Ev::$variant(Signed::new(x.payload.clone(), x.issuer, y.signature).into())));
            $out.push((format!("payload-and-issuer-of-{}", $n), Ev::$variant(Signed::new(y.payload.clone(), y.issuer, x.signature).into())));
        }
    };
}

/// Everything that can be made of event `e` by changing one bit in some byte,
/// or by combining parts of it with parts of other events.
fn forgeries(pool: &[Ev], e: usize, bits: &[u8]) -> Vec<(String, Ev)> {
    let bytes = bincode::serialize(&pool[e]).unwrap();
    let mut out = vec![];
    for at in 0..bytes.len() {
        for bit in bits {
            let mut b = bytes.clone();
            b[at] ^= bit;
            if let Ok(t) = bincode::deserialize::<Ev>(&b) {
                out.push((format!("byte{at}^{bit}"), t));
            }
        }
    }
    for (n, o) in pool.iter().enumerate() {
        if n != e {
            let x = &pool[e];
            splice!(PrekeysExpanded, x, o, out, n);
            splice!(PrekeyRotated, x, o, out, n);
            splice!(Delegated, x, o, out, n);
            splice!(Revoked, x, o, out, n);
            splice!(CgkaOperation, x, o, out, n);
        }
    }
    let genuine: std::collections::BTreeSet<[u8; 32]> = pool.iter().map(ev_hash).collect();
    out.retain(|(_, t)| !genuine.contains(&ev_hash(t)));
    out
}

struct Item {
    base: usize,
    event: usize,
    at: u8,
}

pub fn s01(r: &mut Report) {
    let t = r.tier;
    let bits: &[u8] = t.pick(&[1, 2, 8, 0x80], &[1, 2, 4, 8, 16, 32, 64, 128]);
    let cfg = Cfg { replicas: 3, ..Default::default() };
    let bases = bases();
    let mut items = vec![];
    for (bi, b) in bases.iter().enumerate() {
        let kinds = rerun(&cfg, b, || hname(b), |sys| Box::pin(async move { sys.pool.iter().map(ev_kind).collect::<Vec<_>>() }));
        match kinds {
            Err(e) => r.violation(&format!("base{bi}:abort"), e.to_string(), json!({})),
            Ok(kinds) => {
                let mut seen = std::collections::BTreeMap::<&str, usize>::new();
                for (i, k) in kinds.iter().enumerate() {
                    let n = seen.entry(k).or_default();
                    *n += 1;
                    // the prekeys everybody starts with are all alike
                    if *k == "add-prekey" && *n > 2 && i < 21 {
                        continue;
                    }
                    for at in [2, 9] {
                        items.push(Item { base: bi, event: i, at });
                    }
                }
            }
        }
    }
    let r = &*r;
    par_each(&items, THREADS, |_, it| {
        let b = &bases[it.base];
        let (e, at) = (it.event, it.at);
        let name = format!("{}:{e}:{}", hname(b), who(at));
        let bad = |sym: &str, d: String| r.violation(&format!("{name}:{sym}"), d, json!({"history": hname(b), "event": e, "at": who(at)}));
        r.execution();
        let got = rerun(
            &cfg,
            b,
            || name.clone(),
            |sys| {
                Box::pin(async move {
                    let mut v: Vec<(String, String)> = vec![];
                    let mut reference = None;
                    let mut n = 0;
                    for forged in [false, true] {
                        let kh = mk_with(signer(at), 900 + at as u64).await;
                        if at <= sys.n() {
                            kh.import_prekey_secrets(&sys.at(at).export_prekey_secrets().await.unwrap()).await.unwrap();
                        }
                        let rest: Vec<Ev> = sys.pool.iter().enumerate().filter(|(i, _)| *i != e).map(|(_, x)| x.clone()).collect();
                        let universe = sys.universe();
                        let fs = if forged { forgeries(&sys.pool, e, bits) } else { vec![] };
                        // before anything is known, before and after the genuine one
                        for stage in 0..3 {
                            match stage {
                                0 => {}
                                1 => drop(ingest(&kh, &rest).await),
                                _ => {
                                    let with: Vec<Ev> = fs.iter().map(|f| f.1.clone()).take(20).chain([sys.pool[e].clone()]).collect();
                                    ingest(&kh, &with).await;
                                }
                            }
                            if forged {
                                let before = view(&kh, &universe).await;
                                let told = announced(&kh).await.len();
                                let changed = |after: &_, what: &str| (before != *after).then(|| (what.to_string(), format!("{} {e} with {what} had an effect", ev_kind(&sys.pool[e]))));
                                for (what, f) in &fs {
                                    n += 1;
                                    let accepted = kh.receive_static_event(f.clone()).await.is_ok();
                                    let card = match f {
                                        Ev::PrekeysExpanded(x) => Some(KeyOp::Add((**x).clone().into())),
                                        Ev::PrekeyRotated(x) => Some(KeyOp::Rotate((**x).clone().into())),
                                        _ => None,
                                    };
                                    if let Some(c) = card {
                                        kh.receive_contact_card(&c.into()).await.ok();
                                    }
                                    if let Some(x) = changed(&view(&kh, &universe).await, what) {
                                        v.push(x);
                                        return (v, n);
                                    }
                                    if announced(&kh).await.len() != told {
                                        v.push((what.clone(), format!("{} {e} with {what} was announced (accepted: {accepted})", ev_kind(&sys.pool[e]))));
                                        return (v, n);
                                    }
                                }
                                // together with what's sent otherwise
                                for part in fs.chunks(50) {
                                    n += part.len() as u64;
                                    ingest(&kh, &part.iter().map(|f| f.1.clone()).collect::<Vec<_>>()).await;
                                    if let Some(x) = changed(&view(&kh, &universe).await, &format!("{}-and-others-together", part[0].0)) {
                                        v.push(x);
                                        return (v, n);
                                    }
                                }
                                if announced(&kh).await.len() != told {
                                    v.push(("together".into(), format!("something made of {} {e} was announced", ev_kind(&sys.pool[e]))));
                                    return (v, n);
                                }
                            }
                        }
                        let mut now = portrait(sys, &kh).await;
                        now.remove("statistics");
                        match &reference {
                            None => reference = Some(now),
                            Some(w) => {
                                if let Some((what, a, b)) = first_difference(w, &now) {
                                    v.push((what.clone(), format!("{what} without forgeries: {a}; after them: {b}")));
                                }
                            }
                        }
                    }
                    (v, n)
                })
            },
        );
        match got {
            Err(x) => bad("abort", x.to_string()),
            Ok((v, n)) => {
                r.compared(n);
                r.transitions(n);
                r.outcome(format!("{n} forgeries"));
                for (s, d) in v {
                    bad(&s, d);
                }
            }
        }
    });
    r.bound("replicas", 3);
    r.bound("bits", bits.len());
}
