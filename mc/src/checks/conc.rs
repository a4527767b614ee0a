//! S08: two calls on the same replica at the same time. Every way of switching
//! between them at lock operations, up to a number of preemptions.
use super::api::p;
use super::sync::first_difference;
use crate::{det, exec::*, explore::*, hist::*, mgraph::who, report::*, world::*};
use futures::lock::YIELD;
use keyhive_core::{access::Access, access::Access::*, principal::identifier::Identifier};
use keyhive_crypto::share_key::ShareKey;
use serde_json::json;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
enum Call {
    Add(Who, usize, Access),
    Revoke(Who, usize, bool),
    Group(Vec<Who>),
    Doc(Vec<Who>),
    Enc(usize),
    Decrypt(usize),
    Update(usize),
    /// One of the replica's own prekeys.
    Rotate(usize),
    Expand,
    Card,
    ReceiveCard,
    /// Everything not yet received, or one half of it.
    Ingest(Option<usize>),
    Archive,
    EventsFor(Who),
    Bulk,
    Stats,
    Docs,
    Members(usize),
    /// Everything not yet received, operation by operation.
    Each,
    /// What another replica of the same person stored.
    Own,
    Secrets,
    Find,
}
use Call::*;

impl std::fmt::Display for Call {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let ws = |w: &[Who]| w.iter().map(|w| w.to_string()).collect::<String>();
        match self {
            Add(w, k, a) => write!(f, "{k}+{w}{}", crate::mgraph::ac(*a)),
            Revoke(w, k, r) => write!(f, "{k}-{w}{}", if *r { "(keep)" } else { "" }),
            Group(w) => write!(f, "group({})", ws(w)),
            Doc(w) => write!(f, "doc({})", ws(w)),
            Enc(k) => write!(f, "{k}enc"),
            Decrypt(m) => write!(f, "dec{m}"),
            Update(k) => write!(f, "{k}upd"),
            Rotate(k) => write!(f, "rot{k}"),
            Expand => write!(f, "exp"),
            Card => write!(f, "card"),
            ReceiveCard => write!(f, "<card"),
            Ingest(None) => write!(f, "ingest"),
            Ingest(Some(h)) => write!(f, "ingest{h}"),
            Archive => write!(f, "archive"),
            EventsFor(w) => write!(f, "events({w})"),
            Bulk => write!(f, "bulk"),
            Stats => write!(f, "stats"),
            Docs => write!(f, "docs"),
            Members(k) => write!(f, "members({k})"),
            Each => write!(f, "each"),
            Own => write!(f, "own"),
            Secrets => write!(f, "secrets"),
            Find => write!(f, "find"),
        }
    }
}

/// What the calls need that has to be there before them.
struct Prep {
    prekeys: Vec<ShareKey>,
    card: keyhive_core::contact_card::ContactCard,
    news: Vec<Ev>,
    /// Another replica of the same person: as stored, and what it announced.
    own: (Vec<u8>, Vec<Ev>),
}

/// Another replica of the first person, which went on by itself.
async fn elsewhere(sys: &Sys) -> (Vec<u8>, Vec<Ev>) {
    let rng = std::sync::Arc::new(futures::lock::Mutex::new(det::DetRng::new(1002)));
    let a = sys.at(1).into_archive().await;
    let k = Kh::try_from_archive(&a, signer(1), Store::new(), Lg::new(), rng).await.expect("archive");
    let _ = k.expand_prekeys().await;
    if let Some(p) = k.get_peer(sys.id(p(3)).unwrap()).await {
        let _ = k.generate_group(vec![p]).await;
    }
    (bincode::serialize(&k.into_archive().await).unwrap(), logged(&k).await)
}

#[derive(Default)]
struct Out {
    ok: bool,
    made: Option<(Identifier, bool)>,
    msg: Option<Msg>,
    archive: Option<Vec<u8>>,
}

fn ok(ok: bool) -> Out {
    Out { ok, ..Default::default() }
}

/// Replica 1 makes the call.
async fn call(sys: &Sys, p: &Prep, c: &Call, n: u8) -> Out {
    let kh = sys.at(1);
    match c {
        Add(w, k, a) => {
            let (Some(ag), Some(m)) = (sys.agent(1, *w).await, sys.membered(1, *k).await) else { return ok(false) };
            ok(kh.add_member(ag, &m, *a, &[]).await.is_ok())
        }
        Revoke(w, k, r) => {
            let (Some(id), Some(m)) = (sys.id(*w), sys.membered(1, *k).await) else { return ok(false) };
            ok(kh.revoke_member(id, *r, &m).await.is_ok())
        }
        Group(ws) | Doc(ws) => {
            let mut peers = vec![];
            for w in ws {
                let Some(p) = kh.get_peer(sys.id(*w).unwrap()).await else { return ok(false) };
                peers.push(p);
            }
            let made = if let Group(_) = c {
                match kh.generate_group(peers).await {
                    Ok(g) => Some((g.lock().await.id(), false)),
                    Err(_) => None,
                }
            } else {
                match kh.generate_doc(peers, nonempty::nonempty![[n + 150; 32]]).await {
                    Ok(d) => Some((d.lock().await.id(), true)),
                    Err(_) => None,
                }
            };
            Out { ok: made.is_some(), made, ..Default::default() }
        }
        Enc(k) => {
            let Some(d) = sys.doc(1, *k).await else { return ok(false) };
            let text = vec![n + 60; 9];
            match kh.try_encrypt_content(d, &[n + 200; 32], &vec![], &text).await {
                Ok(e) => Out {
                    ok: true,
                    msg: Some(Msg { res: *k, by: 1, text, enc: e.encrypted_content().clone() }),
                    ..Default::default()
                },
                Err(_) => ok(false),
            }
        }
        Decrypt(m) => ok(sys.decrypt(1, *m).await == Ok(true)),
        Update(k) => {
            let Some(d) = sys.doc(1, *k).await else { return ok(false) };
            ok(kh.force_pcs_update(d).await.is_ok())
        }
        Rotate(k) => ok(kh.rotate_prekey(p.prekeys[*k]).await.is_ok()),
        Expand => ok(kh.expand_prekeys().await.is_ok()),
        Card => ok(kh.contact_card().await.is_ok()),
        ReceiveCard => ok(kh.receive_contact_card(&p.card).await.is_ok()),
        Ingest(half) => {
            let mid = p.news.len() / 2;
            let v = match half {
                None => p.news.clone(),
                Some(0) => p.news[..mid].to_vec(),
                Some(_) => p.news[mid..].to_vec(),
            };
            kh.ingest_unsorted_static_events(v).await;
            ok(true)
        }
        Archive => {
            let a = kh.into_archive().await;
            Out { ok: true, archive: Some(bincode::serialize(&a).unwrap()), ..Default::default() }
        }
        EventsFor(w) => {
            if let Some(ag) = sys.agent(1, *w).await {
                kh.static_events_for_agent(&ag).await;
            }
            ok(true)
        }
        Bulk => {
            kh.membership_ops_for_all_agents().await;
            kh.reachable_prekey_ops_for_all_agents().await;
            kh.cgka_ops_for_all_agents().await;
            ok(true)
        }
        Stats => {
            kh.stats().await;
            kh.pending_event_hashes().await;
            ok(true)
        }
        Docs => {
            kh.reachable_docs().await;
            if let Some(ag) = sys.agent(1, Who::P(2)).await {
                kh.docs_reachable_by_agent(&ag).await;
                kh.membered_reachable_by_agent(&ag).await;
            }
            ok(true)
        }
        Each => {
            for e in &p.news {
                let _ = kh.receive_static_event(e.clone()).await;
            }
            ok(true)
        }
        Own => ok(kh.ingest_archive(bincode::deserialize(&p.own.0).unwrap()).await.is_ok()),
        Secrets => {
            let b = kh.export_prekey_secrets().await.unwrap();
            ok(kh.import_prekey_secrets(&b).await.is_ok())
        }
        Find => {
            kh.get_existing_contact_card().await;
            for w in [Who::P(1), Who::P(2), Who::P(3), Who::R(0)] {
                let Some(id) = sys.id(w) else { continue };
                kh.get_agent(id).await;
                kh.get_peer(id).await;
                kh.get_individual(id.into()).await;
                kh.get_group(id.into()).await;
                kh.get_document(id.into()).await;
            }
            kh.agent_id().await;
            kh.individual().await.lock().await.prekey_ops().len();
            ok(true)
        }
        Members(k) => {
            if let Some(m) = sys.membered(1, *k).await {
                kh.reachable_members(m).await;
            }
            ok(true)
        }
    }
}

type Portrait = BTreeMap<String, String>;

async fn portrait(sys: &mut Sys, into: &mut Portrait, at: &str) {
    for k in 0..sys.res.len() {
        for i in 1..=sys.n() {
            into.insert(
                format!("{at}{k} at {}", who(i)),
                format!("{:?} direct {:?}", sys.access(i, k).await, sys.direct(i, k).await),
            );
        }
    }
    for i in 1..=sys.n() {
        let mut reads = String::new();
        for m in 0..sys.msgs.len() {
            reads.push(if sys.decrypt(i, m).await == Ok(true) { 'y' } else { 'n' });
        }
        into.insert(format!("{at}reads of {}", who(i)), reads);
        into.insert(format!("{at}pending at {}", who(i)), sys.at(i).pending_event_hashes().await.len().to_string());
        let mut keys = vec![];
        for j in 1..=9u8 {
            if let Some(x) = sys.at(i).get_individual(ident(&signer(j)).into()).await {
                keys.push((j, x.lock().await.prekey_ops().len()));
            }
        }
        into.insert(format!("{at}prekeys at {}", who(i)), format!("{keys:?}"));
    }
}

/// Everything that can be told afterwards without looking at keys.
async fn outcome(sys: &mut Sys, outs: Vec<Out>) -> Portrait {
    let mut v = Portrait::new();
    let mut archives = vec![];
    for (n, o) in outs.into_iter().enumerate() {
        v.insert(format!("call {n}"), o.ok.to_string());
        if let Some((id, doc)) = o.made {
            if doc {
                sys.docs.insert(sys.res.len());
            }
            sys.res.push(id);
        }
        sys.msgs.extend(o.msg);
        archives.extend(o.archive.map(|a| (n, a)));
    }
    sys.collect(0).await;
    let mut heard: BTreeMap<&str, usize> = Default::default();
    for e in logged(sys.at(1)).await {
        // an update in between may make another one unnecessary
        if !matches!(e, Ev::CgkaOperation(_)) {
            *heard.entry(ev_kind(&e)).or_default() += 1;
        }
    }
    v.insert("announced".into(), format!("{heard:?}"));
    sys.all().await;
    portrait(sys, &mut v, "").await;
    for (n, a) in archives {
        // what was stored meanwhile makes a sound replica
        let rng = std::sync::Arc::new(futures::lock::Mutex::new(det::DetRng::new(1001)));
        let a = bincode::deserialize(&a).unwrap();
        match Kh::try_from_archive(&a, signer(1), Store::new(), Lg::new(), rng).await {
            Err(e) => {
                v.insert(format!("archive {n}"), format!("{e:?}"));
            }
            Ok(k) => {
                let everything = sys.pool.clone();
                ingest(&k, &everything).await;
                let old = std::mem::replace(&mut sys.kh[0], k);
                let mut x = Portrait::new();
                portrait(sys, &mut x, "").await;
                v.extend(x.into_iter().filter(|(w, _)| w.ends_with("at A")).map(|(w, y)| (format!("stored by call {n}: {w}"), y)));
                sys.kh[0] = old;
            }
        }
    }
    // and everything goes on working
    let docs: Vec<usize> = sys.docs.iter().copied().collect();
    for k in docs {
        for by in [1, 2] {
            let r = sys.encrypt(by, k).await.is_ok();
            v.insert(format!("{} encrypts {k} afterwards", who(by)), r.to_string());
        }
    }
    sys.all().await;
    portrait(sys, &mut v, "later: ").await;
    v
}

struct Base {
    hist: Vec<Act>,
    /// Every two of these, with one preemption.
    calls: Vec<Call>,
    /// Every two of these, with two preemptions (thorough only).
    twice: Vec<Call>,
    /// Three at once, with two preemptions.
    triples: Vec<Vec<Call>>,
}

fn bases(t: Tier) -> Vec<Base> {
    let q = Who::R;
    let mut v = vec![
        Base {
            // a group and a document that it may read; news from B
            hist: vec![
                Act::Group { by: 1, with: vec![p(2)] },
                Act::Doc { by: 1, with: vec![p(2)] },
                Act::All,
                Act::Add { by: 1, who: q(0), res: 1, can: Edit },
                Act::Enc { by: 1, res: 1 },
                Act::All,
                Act::Enc { by: 2, res: 1 },
                Act::Rotate { by: 2 },
                Act::Add { by: 2, who: p(3), res: 0, can: Read },
                Act::Group { by: 2, with: vec![p(1)] },
            ],
            calls: vec![
                Add(p(3), 0, Edit),
                Add(p(3), 1, Edit),
                Revoke(p(2), 0, true),
                Revoke(p(2), 1, true),
                Revoke(q(0), 1, true),
                Group(vec![p(3), q(0)]),
                Doc(vec![p(3), q(0)]),
                Enc(1),
                Decrypt(0),
                Update(1),
                Rotate(0),
                Rotate(1),
                Expand,
                Card,
                ReceiveCard,
                Ingest(None),
                Ingest(Some(0)),
                Ingest(Some(1)),
                Archive,
                EventsFor(p(2)),
                Bulk,
                Stats,
                Docs,
                Members(0),
                Members(1),
                Each,
                Own,
                Secrets,
                Find,
            ],
            twice: vec![Enc(1), Update(1), Rotate(0), Decrypt(0), Archive, Stats, Add(p(3), 1, Edit), Ingest(None)],
            triples: vec![
                vec![Enc(1), Add(p(3), 1, Edit), Rotate(0)],
                vec![Update(1), Revoke(p(2), 0, true), Expand],
                vec![Doc(vec![p(3), q(0)]), Rotate(0), Enc(1)],
                vec![Ingest(None), Enc(1), EventsFor(p(2))],
                vec![Ingest(None), Archive, Docs],
                vec![Own, Enc(1), Rotate(0)],
            ],
        },
        Base {
            // groups that are members of each other
            hist: vec![
                Act::Group { by: 1, with: vec![p(2)] },
                Act::Group { by: 1, with: vec![p(2)] },
                Act::Add { by: 1, who: q(0), res: 1, can: Edit },
                Act::Add { by: 1, who: q(1), res: 0, can: Edit },
                Act::Doc { by: 1, with: vec![q(0)] },
                Act::All,
                Act::Add { by: 2, who: p(3), res: 0, can: Read },
            ],
            calls: vec![
                Add(p(3), 1, Edit),
                Revoke(p(2), 0, true),
                Ingest(None),
                Enc(2),
                EventsFor(p(2)),
                Bulk,
                Docs,
                Members(0),
                Members(1),
            ],
            twice: vec![],
            triples: vec![vec![EventsFor(p(2)), Members(0), Add(p(3), 1, Edit)]],
        },
        Base {
            // members whom A hasn't met: their card makes what waits for it count
            hist: vec![
                Act::Group { by: 1, with: vec![p(2)] },
                Act::Doc { by: 1, with: vec![p(2)] },
                Act::All,
                Act::Card { by: 9, to: 2 },
                Act::Add { by: 2, who: p(9), res: 0, can: Edit },
                Act::Add { by: 2, who: p(9), res: 1, can: Read },
                Act::Push { from: 2, to: 1 },
                Act::Add { by: 2, who: p(3), res: 0, can: Edit },
                Act::Enc { by: 2, res: 1 },
            ],
            calls: if t == Tier::Thorough {
                vec![ReceiveCard, Archive, Ingest(None), Revoke(p(2), 0, true), Revoke(p(2), 1, true), Enc(1), Add(p(3), 1, Edit), Group(vec![p(3), q(0)]), EventsFor(p(2)), Bulk, Stats, Own, Each, Rotate(0)]
            } else {
                vec![ReceiveCard, Archive, Ingest(None), Revoke(p(2), 0, true), Enc(1), Add(p(3), 1, Edit)]
            },
            twice: vec![ReceiveCard, Archive, Ingest(None), Enc(1)],
            triples: vec![vec![ReceiveCard, Ingest(None), Archive]],
        },
    ];
    if t == Tier::Thorough {
        v.push(Base {
            // documents within documents
            hist: vec![
                Act::Doc { by: 1, with: vec![p(2)] },
                Act::Doc { by: 1, with: vec![] },
                Act::All,
                Act::Add { by: 1, who: q(1), res: 0, can: Read },
                Act::Add { by: 1, who: p(3), res: 1, can: Edit },
                Act::All,
                Act::Enc { by: 2, res: 0 },
                Act::Add { by: 2, who: Who::Public, res: 0, can: Read },
            ],
            calls: vec![
                Add(p(2), 1, Edit),
                Add(Who::Public, 1, Read),
                Revoke(p(3), 1, true),
                Revoke(q(1), 0, true),
                Doc(vec![q(1)]),
                Group(vec![q(0)]),
                Enc(0),
                Enc(1),
                Update(1),
                Rotate(0),
                Ingest(None),
                Archive,
                EventsFor(p(3)),
                Bulk,
                Docs,
                Members(0),
            ],
            twice: vec![],
            triples: vec![vec![Ingest(None), Enc(0), EventsFor(p(3))]],
        });
    }
    v
}

/// How the calls are interleaved.
enum How {
    /// One after the other.
    Turns(Vec<usize>),
    /// Each of these calls gets so many lock operations (fewer if it ends or has
    /// to wait), then the given one goes on, and then whichever can.
    Cut(Vec<(usize, usize)>, usize),
}

enum Ended {
    Stuck,
    /// What came of it, and how many lock operations of each cut there were.
    Done(Portrait, Vec<usize>, usize),
}

fn run(hist: &[Act], calls: &[Call], how: How, label: impl FnOnce() -> String) -> Result<Ended, det::Abort> {
    let cfg = Cfg { replicas: 3, ..Default::default() };
    let calls = calls.to_vec();
    rerun(&cfg, hist, label, |sys| {
        Box::pin(async move {
            let calls = &calls;
            let prep = {
                let i = sys.at(1).individual().await;
                let i = i.lock().await;
                let mut prekeys: Vec<ShareKey> = i.prekey_ops().values().map(|o| *o.new_key()).collect();
                prekeys.sort();
                let card = mk(9).await.get_existing_contact_card().await;
                let news = (0..sys.pool.len()).filter(|e| !sys.known[0].contains(e)).map(|e| sys.pool[e].clone()).collect();
                drop(i);
                let own = elsewhere(sys).await;
                Prep { prekeys, card, news, own }
            };
            let mut used = vec![];
            let mut steps = 0;
            let outs: Vec<Out> = match how {
                How::Turns(order) => {
                    let mut got: Vec<Option<Out>> = calls.iter().map(|_| None).collect();
                    for n in order {
                        got[n] = Some(call(sys, &prep, &calls[n], n as u8).await);
                    }
                    got.into_iter().map(|o| o.unwrap()).collect()
                }
                How::Cut(cuts, then) => {
                    YIELD.with(|y| y.set(true));
                    let (sys, prep) = (&*sys, &prep);
                    let tasks: Vec<Option<Task<'_, Out>>> = calls
                        .iter()
                        .enumerate()
                        .map(|(n, c)| Some(Box::pin(call(sys, prep, c, n as u8)) as Task<'_, Out>))
                        .collect();
                    used = vec![0; cuts.len()];
                    let mut at = 0;
                    let got = run_tasks(
                        tasks,
                        |enabled, last| {
                            while let Some((n, max)) = cuts.get(at) {
                                if used[at] < *max {
                                    if let Some(k) = enabled.iter().position(|e| e == n) {
                                        used[at] += 1;
                                        return k;
                                    }
                                }
                                at += 1;
                            }
                            let go = if at == cuts.len() { Some(then) } else { last };
                            at = cuts.len() + 1;
                            go.and_then(|g| enabled.iter().position(|e| *e == g)).unwrap_or(0)
                        },
                        100_000,
                    );
                    YIELD.with(|y| y.set(false));
                    steps = got.steps;
                    if got.deadlock {
                        return Ended::Stuck;
                    }
                    got.outputs.into_iter().map(|o| o.unwrap()).collect()
                }
            };
            for (n, c) in calls.iter().enumerate() {
                if let (ReceiveCard, true) = (c, outs[n].ok) {
                    // so that the others know them as well
                    for i in 2..=sys.n() {
                        let _ = sys.at(i).receive_contact_card(&prep.card).await;
                    }
                }
                if let Own = c {
                    sys.inject(&prep.own.1, &[]).await;
                    let got: Vec<usize> = (0..sys.pool.len()).filter(|e| prep.own.1.iter().any(|o| ev_hash(o) == ev_hash(&sys.pool[*e]))).collect();
                    sys.known[0].extend(got);
                }
                if let Ingest(_) | Each = c {
                    let mid = prep.news.len() / 2;
                    let mine: Vec<[u8; 32]> = match c {
                        Ingest(None) | Each => &prep.news[..],
                        Ingest(Some(0)) => &prep.news[..mid],
                        _ => &prep.news[mid..],
                    }
                    .iter()
                    .map(ev_hash)
                    .collect();
                    let got: Vec<usize> = (0..sys.pool.len()).filter(|e| mine.contains(&ev_hash(&sys.pool[*e]))).collect();
                    sys.known[0].extend(got);
                }
            }
            Ended::Done(outcome(sys, outs).await, used, steps)
        })
    })
}

/// Every interleaving of `calls` with up to `bound` preemptions.
fn interleave(r: &Report, hist: &[Act], calls: &[Call], bound: usize) {
    let all = calls.iter().map(|c| c.to_string()).collect::<Vec<_>>().join("||");
    let name = format!("{}/{all}", hname(hist));
    let mut turns: Vec<Portrait> = vec![];
    for order in permutations(calls.len()) {
        match run(hist, calls, How::Turns(order.clone()), || format!("{name}:{order:?}")) {
            Ok(Ended::Done(v, ..)) => turns.push(v),
            Ok(Ended::Stuck) => {}
            Err(e) => return r.violation(&format!("{name}:in-turn"), e.to_string(), json!({"calls": name, "order": order})),
        }
    }
    let reported: std::cell::RefCell<std::collections::BTreeSet<String>> = Default::default();
    // runs it; the number of lock operations in each cut
    let one = |cuts: &[(usize, usize)], then: usize| -> Option<Vec<usize>> {
        r.execution();
        r.compared(1);
        let bad = |sym: &str, d: String| {
            if reported.borrow_mut().insert(sym.to_string()) {
                let how: Vec<String> = cuts.iter().map(|(n, k)| format!("{k} lock operations of {}", calls[*n])).collect();
                r.violation(
                    &format!("{name}:{sym}"),
                    format!("{d} (first {}, then {})", how.join(", then "), calls[then]),
                    json!({"calls": name, "cuts": cuts, "then": then}),
                );
            }
        };
        match run(hist, calls, How::Cut(cuts.to_vec(), then), || format!("{name}:{cuts:?}:{then}")) {
            Err(e) => bad("abort", e.to_string()),
            Ok(Ended::Stuck) => {
                r.outcome("stuck");
                bad("deadlock", "the calls wait for each other forever".into());
            }
            Ok(Ended::Done(v, used, steps)) => {
                r.transitions(steps as u64);
                if turns.contains(&v) {
                    r.outcome("as one after the other");
                } else {
                    r.outcome("differs");
                    let sym = first_difference(&turns[0], &v).map(|d| d.0).unwrap_or_default();
                    let d: Vec<_> = turns.iter().map(|t| first_difference(t, &v)).collect();
                    bad(&sym, format!("differs from every order of the calls: {d:?}"));
                }
                return Some(used);
            }
        }
        None
    };
    let ended = |used: &Option<Vec<usize>>, cut: usize, k: usize| k > 3000 || used.as_ref().is_some_and(|u| u[cut] < k);
    for first in 0..calls.len() {
        for second in (0..calls.len()).filter(|s| *s != first) {
            let third = (0..calls.len()).find(|t| *t != first && *t != second).unwrap_or(first);
            for k in 0.. {
                let mut used = None;
                if bound == 1 {
                    used = one(&[(first, k)], second);
                } else {
                    for m in 1.. {
                        used = one(&[(first, k), (second, m)], third);
                        if ended(&used, 1, m) || ended(&used, 0, k) {
                            break;
                        }
                    }
                }
                if ended(&used, 0, k) {
                    break;
                }
            }
        }
    }
}

pub fn s08(r: &mut Report) {
    let t = r.tier;
    let bases = bases(t);
    let mut todo: Vec<(usize, Vec<Call>, usize)> = vec![];
    for (n, b) in bases.iter().enumerate() {
        for i in 0..b.calls.len() {
            for j in i..b.calls.len() {
                todo.push((n, vec![b.calls[i].clone(), b.calls[j].clone()], 1));
            }
        }
        if t == Tier::Thorough {
            todo.extend(b.triples.iter().map(|c| (n, c.clone(), 2)));
            for i in &b.twice {
                for j in &b.twice {
                    todo.push((n, vec![i.clone(), j.clone()], 2));
                }
            }
        }
    }
    r.bound("replicas", 3);
    r.bound("starting points", bases.len());
    r.bound("sets of calls", todo.len());
    r.bound("preemptions", t.pick(1, 2));
    // the long ones first
    todo.sort_by_key(|(_, c, b)| std::cmp::Reverse(c.len() + b));
    let r = &*r;
    par_each(&todo, THREADS, |_, (n, calls, bound)| interleave(r, &bases[*n].hist, calls, *bound));
}
