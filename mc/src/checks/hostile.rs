//! K09: key operations made up by someone who can't read don't let them read.
use super::api::p;
use crate::{det, explore::*, hist::*, mgraph::who, report::*, world::*};
use beekem::{
    cgka::Cgka,
    id::{MemberId, TreeId},
    keys::{NodeKey, ShareKeyMap},
    operation::CgkaOperation,
};
use future_form::Sendable;
use keyhive_core::access::Access::*;
use keyhive_core::principal::identifier::Identifier;
use keyhive_crypto::{
    share_key::{ShareKey, ShareSecretKey},
    signed::Signed,
    signer::{async_signer::try_sign_async, memory::MemorySigner},
};
use serde_json::json;
use std::collections::BTreeMap;

/// What the adversary makes up.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Forged {
    /// adds a person, with a key of the adversary's making
    Add(Who),
    /// adds a person, with one of that person's prekeys
    AddGenuine(Who),
    Remove(Who),
    /// gives a member's leaf a key of the adversary's making
    Update(Who),
    /// own update that also claims the leaf of another
    UpdateAs(Who, Who),
    /// own update that puts its keys onto the path of another
    Graft(Who, Who),
    /// own update with keys in every place of the tree
    Everywhere(Who),
    /// own update without keys in its path, or out of bounds
    Hollow(Who),
    OutOfBounds(Who),
    /// a second beginning of the document
    Begin,
}
use Forged::*;

impl std::fmt::Display for Forged {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Add(w) => write!(f, "add{w}"),
            AddGenuine(w) => write!(f, "addgenuine{w}"),
            Remove(w) => write!(f, "remove{w}"),
            Update(w) => write!(f, "update{w}"),
            UpdateAs(w, x) => write!(f, "update{w}as{x}"),
            Graft(w, x) => write!(f, "graft{w}onto{x}"),
            Everywhere(w) => write!(f, "everywhere{w}"),
            Hollow(w) => write!(f, "hollow{w}"),
            OutOfBounds(w) => write!(f, "outofbounds{w}"),
            Begin => write!(f, "begin"),
        }
    }
}

/// What the adversary knows.
struct Adversary {
    me: u8,
    doc: Identifier,
    sks: ShareKeyMap,
    made: Vec<Signed<CgkaOperation>>,
    next_key: u8,
}

fn member(id: Identifier) -> MemberId {
    MemberId(id.0)
}

impl Adversary {
    async fn new(sys: &Sys, me: u8, res: usize) -> Self {
        let mut sks = ShareKeyMap::new();
        let own: BTreeMap<ShareKey, ShareSecretKey> =
            bincode::deserialize(&sys.at(me).export_prekey_secrets().await.unwrap()).unwrap();
        for (pk, sk) in own {
            sks.insert(pk, sk);
        }
        if let Some(d) = sys.doc(me, res).await {
            if let Ok(c) = d.lock().await.cgka() {
                sks.extend(c.owner_sks());
            }
        }
        Adversary { me, doc: sys.res[res], sks, made: vec![], next_key: 0 }
    }
    fn fresh(&mut self) -> (ShareKey, ShareSecretKey) {
        self.next_key += 1;
        let sk = ShareSecretKey::force_from_bytes([self.next_key; 32]);
        self.sks.insert(sk.share_key(), sk);
        (sk.share_key(), sk)
    }
    fn tree_id(&self) -> TreeId {
        TreeId(self.doc.0)
    }
    /// The document's keys as they follow from `ops`, seen as `owner`.
    fn cgka(&self, ops: &[Signed<CgkaOperation>], owner: MemberId) -> Option<Cgka> {
        let init = ops.iter().find(|o| {
            matches!(o.payload(), CgkaOperation::Add { added_id, predecessors, doc_id, .. }
                if predecessors.is_empty() && *added_id == member(self.doc) && *doc_id == self.tree_id())
                && *o.issuer() != signer(self.me).0.verifying_key()
        })?;
        let CgkaOperation::Add { added_id, pk, .. } = init.payload() else { return None };
        let mut c = Cgka::new_from_init_add(self.tree_id(), *added_id, *pk, init.clone()).ok()?;
        c = c.with_new_owner(owner, self.sks.clone()).ok()?;
        let mut rest: Vec<_> = ops.to_vec();
        loop {
            let n = rest.len();
            rest.retain(|o| c.merge_concurrent_operation(std::sync::Arc::new(o.clone())).is_err());
            if rest.len() == n {
                return Some(c);
            }
        }
    }
    /// The operations everyone has seen.
    fn public(&self, sys: &Sys) -> Vec<Signed<CgkaOperation>> {
        sys.pool
            .iter()
            .filter_map(|e| match e {
                Ev::CgkaOperation(o) if *o.payload().doc_id() == self.tree_id() => Some(o.as_ref().clone()),
                _ => None,
            })
            .collect()
    }
    async fn resign(&self, op: CgkaOperation) -> Signed<CgkaOperation> {
        try_sign_async::<Sendable, _, _>(&signer(self.me), op).await.unwrap()
    }
    /// Carries out `f`, if it can be.
    async fn forge(&mut self, sys: &Sys, f: Forged) -> Option<Signed<CgkaOperation>> {
        let s = signer(self.me);
        let mut all = self.public(sys);
        all.extend(self.made.iter().cloned());
        let idof = |w: Who| sys.id(w).map(member);
        let op = match f {
            Add(w) => {
                let (pk, _) = self.fresh();
                let mut c = self.cgka(&all, idof(Who::P(self.me))?)?;
                c.add::<Sendable, MemorySigner>(idof(w)?, pk, &s).await.ok()??
            }
            AddGenuine(w) => {
                let a = sys.agent(self.me, w).await?;
                let Ag::Individual(_, i) = a else { return None };
                let pk = *i.lock().await.pick_prekey(self.doc.into());
                let mut c = self.cgka(&all, idof(Who::P(self.me))?)?;
                c.add::<Sendable, MemorySigner>(idof(w)?, pk, &s).await.ok()??
            }
            Remove(w) => {
                let mut c = self.cgka(&all, idof(Who::P(self.me))?)?;
                c.remove::<Sendable, MemorySigner>(idof(w)?, &s).await.ok()??
            }
            Update(w) => self.update(&all, idof(w)?).await?,
            UpdateAs(w, x) => {
                let CgkaOperation::Update { mut new_path, predecessors, doc_id, .. } = self.update(&all, idof(x)?).await?.payload().clone() else {
                    return None;
                };
                new_path.leaf_id = idof(x)?;
                self.resign(CgkaOperation::Update { id: idof(w)?, new_path, predecessors, doc_id }).await
            }
            Graft(w, x) => {
                let CgkaOperation::Update { id, mut new_path, predecessors, doc_id } = self.update(&all, idof(w)?).await?.payload().clone() else {
                    return None;
                };
                let other = self.update(&all, idof(x)?).await?;
                let CgkaOperation::Update { new_path: other, .. } = other.payload() else { return None };
                if new_path.path == other.path {
                    return None;
                }
                new_path.path = other.path.clone();
                self.resign(CgkaOperation::Update { id, new_path, predecessors, doc_id }).await
            }
            Everywhere(w) => {
                let CgkaOperation::Update { id, mut new_path, predecessors, doc_id } = self.update(&all, idof(w)?).await?.payload().clone() else {
                    return None;
                };
                let node = new_path.path.first()?.1.clone();
                let n = new_path.path.len() as u32;
                new_path.path = (0..(1 << n) - 1).map(|i| (i, node.clone())).collect();
                self.resign(CgkaOperation::Update { id, new_path, predecessors, doc_id }).await
            }
            Hollow(w) => {
                let CgkaOperation::Update { id, mut new_path, predecessors, doc_id } = self.update(&all, idof(w)?).await?.payload().clone() else {
                    return None;
                };
                // a node without any key, as it could arrive over the wire
                for (_, node) in new_path.path.iter_mut() {
                    *node = bincode::deserialize(&0u64.to_le_bytes()).ok()?;
                }
                self.resign(CgkaOperation::Update { id, new_path, predecessors, doc_id }).await
            }
            OutOfBounds(w) => {
                let CgkaOperation::Update { id, mut new_path, predecessors, doc_id } = self.update(&all, idof(w)?).await?.payload().clone() else {
                    return None;
                };
                for (i, (at, _)) in new_path.path.iter_mut().enumerate() {
                    *at = u32::MAX - i as u32;
                }
                self.resign(CgkaOperation::Update { id, new_path, predecessors, doc_id }).await
            }
            Begin => {
                let (pk, _) = self.fresh();
                self.resign(CgkaOperation::init_add(self.tree_id(), member(self.doc), pk)).await
            }
        };
        self.made.push(op.clone());
        Some(op)
    }
    async fn update(&mut self, ops: &[Signed<CgkaOperation>], id: MemberId) -> Option<Signed<CgkaOperation>> {
        let (pk, sk) = self.fresh();
        let mut c = self.cgka(ops, id)?;
        let mut rng = det::DetRng::new(7000 + self.next_key as u64);
        let (_, op) = c.update::<Sendable, _, _>(pk, sk, &signer(self.me), &mut rng).await.ok()?;
        let CgkaOperation::Update { id: done, .. } = op.payload() else { return None };
        if *done != id {
            return None;
        }
        self.sks.extend(&c.owner_sks);
        Some(op)
    }
    /// Whether message `m` can be read, given the operations `ops`.
    fn reads(&self, ops: &[Signed<CgkaOperation>], sys: &Sys, m: usize) -> Option<String> {
        let ids: Vec<Who> = (1..=sys.n()).map(Who::P).chain((0..sys.res.len()).map(Who::R)).collect();
        for w in ids {
            let Some(mut c) = self.cgka(ops, member(sys.id(w)?)) else { continue };
            if let Ok(k) = c.decryption_key_for(&sys.msgs[m].enc) {
                let mut t = sys.msgs[m].enc.ciphertext.clone();
                if k.try_decrypt(sys.msgs[m].enc.nonce, &mut t).is_ok() && t == sys.msgs[m].text {
                    return Some(format!("as {w}"));
                }
            }
        }
        None
    }
}


struct Base {
    name: &'static str,
    acts: Vec<Act>,
    me: u8,
    res: usize,
    /// before anything is to be kept from the adversary
    first: Vec<Act>,
}

fn bases() -> Vec<Base> {
    let doc = vec![Act::Doc { by: 1, with: vec![p(2)] }, Act::All];
    let mut three = doc.clone();
    three.extend([Act::Add { by: 1, who: p(3), res: 0, can: Read }, Act::Enc { by: 1, res: 0 }, Act::All, Act::Update { by: 3, res: 0 }, Act::All]);
    let out = Act::Revoke { by: 1, who: p(3), res: 0, retain: true };
    let mut ex = three.clone();
    ex.extend([out.clone(), Act::All]);
    let mut ex2 = ex.clone();
    ex2.extend([Act::Enc { by: 2, res: 0 }, Act::All]);
    let group = vec![
        Act::Group { by: 1, with: vec![p(2)] },
        Act::Doc { by: 1, with: vec![] },
        Act::Add { by: 1, who: Who::R(0), res: 1, can: Edit },
        Act::Enc { by: 1, res: 1 },
        Act::All,
    ];
    vec![
        Base { name: "outsider", acts: doc, me: 4, res: 0, first: vec![] },
        Base { name: "outsider-of-group", acts: group, me: 4, res: 1, first: vec![] },
        Base { name: "insider", acts: three, me: 3, res: 0, first: vec![out, Act::All] },
        Base { name: "removed", acts: ex, me: 3, res: 0, first: vec![] },
        Base { name: "removed-and-updated", acts: ex2, me: 3, res: 0, first: vec![] },
    ]
}

/// What the others do next, and who can read all along.
fn continuations(res: usize) -> Vec<(Vec<Act>, Vec<u8>)> {
    let e = |by| Act::Enc { by, res };
    vec![
        (vec![e(1), Act::All, e(2), Act::All], vec![1, 2]),
        (vec![Act::Add { by: 1, who: p(5), res, can: Read }, e(1), Act::All, e(5), Act::All], vec![1, 2, 5]),
        (vec![Act::Update { by: 2, res }, Act::Update { by: 1, res }, Act::All, e(2), Act::All], vec![1, 2]),
        (vec![Act::Restart { by: 2 }, Act::All, e(2), Act::All, e(1), Act::All], vec![1, 2]),
    ]
}

fn moves(b: &Base) -> Vec<Forged> {
    let me = Who::P(b.me);
    let doc = Who::R(b.res);
    vec![
        Add(me),
        Add(p(5)),
        Add(p(2)),
        Add(doc),
        AddGenuine(me),
        AddGenuine(p(5)),
        Remove(p(2)),
        Remove(p(1)),
        Remove(doc),
        Update(me),
        Update(p(2)),
        Update(p(1)),
        Update(doc),
        UpdateAs(me, p(1)),
        UpdateAs(me, p(2)),
        Graft(me, p(1)),
        Graft(me, p(2)),
        Graft(me, doc),
        Everywhere(me),
        Hollow(me),
        OutOfBounds(me),
        Begin,
    ]
}

/// When and to whom the forgeries are given.
#[derive(Clone, Copy, Debug)]
enum When {
    First,
    FirstTo(u8),
    /// after so many of the others' actions
    After(usize),
}

struct Item {
    base: usize,
    cont: usize,
    forged: Vec<Forged>,
    when: When,
}

pub fn k09(r: &mut Report) {
    let t = r.tier;
    let cfg = Cfg { replicas: 5, ..Default::default() };
    let bs = bases();
    let len = t.pick(2, 3);
    let mut items = vec![];
    for (bi, b) in bs.iter().enumerate() {
        let ms = moves(b);
        let mut seqs: Vec<Vec<Forged>> = vec![vec![]];
        let mut level = seqs.clone();
        for _ in 0..len {
            level = level.iter().flat_map(|s| ms.iter().map(move |m| s.iter().copied().chain([*m]).collect())).collect();
            seqs.extend(level.iter().cloned());
        }
        for forged in seqs {
            for cont in 0..continuations(b.res).len() {
                let whens: &[When] = match forged.len() {
                    0 => &[When::First],
                    1 => &[When::First, When::FirstTo(1), When::FirstTo(2), When::After(1), When::After(2)],
                    2 => t.pick(&[When::First], &[When::First, When::FirstTo(1), When::FirstTo(2), When::After(1)]),
                    _ => &[When::First],
                };
                if (forged.len() > 1 && cont > 1 && t == Tier::Quick) || (forged.len() > 2 && cont > 0) {
                    continue;
                }
                items.extend(whens.iter().map(|w| Item { base: bi, cont, forged: forged.clone(), when: *w }));
            }
        }
    }
    let r = &*r;
    par_each(&items, THREADS, |_, it| {
        let b = &bs[it.base];
        let (acts, readers) = continuations(b.res).swap_remove(it.cont);
        let forged = it.forged.iter().map(|f| f.to_string()).collect::<Vec<_>>().join(",");
        let name = format!("{}:{forged}:{:?}:{}", b.name, it.when, hname(&acts));
        let mut steps = b.first.clone();
        steps.extend(acts.iter().cloned());
        let (me, res, cont, when, made_up) = (b.me, b.res, it.cont, it.when, it.forged.clone());
        r.execution();
        let got = rerun(
            &cfg,
            &b.acts,
            || name.clone(),
            move |sys| {
                Box::pin(async move {
                    let mut bad: Vec<(&'static str, String)> = vec![];
                    let mut adv = Adversary::new(sys, me, res).await;
                    let mut evs = vec![];
                    for f in &made_up {
                        match adv.forge(sys, *f).await {
                            Some(op) => evs.push(Ev::CgkaOperation(Box::new(op))),
                            None => return None,
                        }
                    }
                    let old = sys.msgs.len();
                    let from = match when {
                        When::After(n) => n,
                        _ => 0,
                    };
                    for (i, a) in steps.iter().enumerate() {
                        if i == from {
                            let to: Vec<u8> = match when {
                                When::FirstTo(x) => vec![x],
                                _ => (1..=sys.n()).collect(),
                            };
                            sys.inject(&evs, &to).await;
                        }
                        let x = sys.apply(a).await;
                        // A member that a forged removal took out gets its place back when
                        // something is written next; until then it can't rekey
                        let taken_out = made_up.iter().any(|f| matches!(f, Remove(_)));
                        if x != Res::Ok && !(matches!(a, Act::Update { .. }) && taken_out) {
                            bad.push(("refused", format!("{a}: {x:?}")));
                        }
                    }
                    sys.all().await;
                    let public = adv.public(sys);
                    let mut accepted = vec![];
                    if let Some(d) = sys.doc(1, res).await {
                        if let Ok(es) = d.lock().await.cgka_ops() {
                            accepted = es.iter().flat_map(|e| e.iter().map(|o| o.as_ref().clone())).collect();
                        }
                    }
                    for m in old..sys.msgs.len() {
                        if let Some(how) = adv.reads(&public, sys, m).or_else(|| adv.reads(&accepted, sys, m)) {
                            bad.push(("read", format!("{} read what {} wrote, {how}", who(me), who(sys.msgs[m].by))));
                        }
                        for i in &readers {
                            match sys.decrypt(*i, m).await {
                                Ok(true) => {}
                                _ if *i == 5 && sys.msgs[m].by != 5 && cont != 1 => {}
                                x => bad.push(("unreadable", format!("{} can't read what {} wrote: {x:?}", who(*i), who(sys.msgs[m].by)))),
                            }
                        }
                    }
                    let mine: Vec<_> = adv.made.iter().map(|o| keyhive_crypto::digest::Digest::hash(o)).collect();
                    let took = accepted.iter().filter(|o| mine.contains(&keyhive_crypto::digest::Digest::hash(*o))).count();
                    Some((bad, took, sys.state_hash()))
                })
            },
        );
        let ctx = json!({"base": hname(&b.acts), "adversary": who(b.me), "forged": forged, "given": format!("{:?}", it.when), "others": hname(&acts)});
        match got {
            Err(e) => r.violation(&format!("{name}:abort"), e.to_string(), ctx),
            Ok(None) => r.outcome("can't be forged here"),
            Ok(Some((bad, took, st))) => {
                r.transitions((b.acts.len() + acts.len() + it.forged.len()) as u64);
                r.compared(1);
                r.state(st);
                r.outcome(format!("{took} of {} forgeries accepted", it.forged.len()));
                for (sym, d) in bad {
                    r.violation(&format!("{name}:{sym}"), d, ctx.clone());
                }
            }
        }
    });
    r.bound("replicas", 5);
    r.bound("forged operations", len);
}
