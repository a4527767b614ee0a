//! Membership operation graphs: symbolic ops, signing them into real events,
//! reading them back from real events, and the reference capability model.
//!
//! The model is sequential: a list of operations applied one after another.
//! Concurrent histories are explained by every order compatible with the
//! operations' declared dependencies (`proof`, `revoke`, `after_revocations`).
use crate::world::*;
use keyhive_core::access::Access;
use keyhive_core::event::static_event::StaticEvent;
use keyhive_core::principal::group::{delegation::StaticDelegation, revocation::StaticRevocation};
use keyhive_core::principal::identifier::Identifier;
use keyhive_crypto::digest::Digest;
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Op {
    /// `issuer` delegates the capability proven by `proof` (or, with no proof,
    /// the subject's own) to `to`.
    D { issuer: u8, proof: Option<usize>, to: u8, can: Access, after: Vec<usize> },
    R { issuer: u8, target: usize, proof: Option<usize> },
}

/// Operations in an order where references point backwards. Actors and groups
/// are indices `i` of `signer(i)`.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct Graph {
    pub ops: Vec<Op>,
    /// Members of other groups, as far as the model needs them: (group, member) -> access.
    pub sub: BTreeMap<(u8, u8), Access>,
}

pub fn ac(a: Access) -> char {
    match a {
        Access::Relay => 'l',
        Access::Read => 'r',
        Access::Edit => 'e',
        Access::Admin => 'a',
    }
}
pub fn who(i: u8) -> String {
    match i {
        1..=9 => ((b'A' + i - 1) as char).to_string(),
        20..=25 => format!("G{}", i - 20),
        _ => format!("#{i}"),
    }
}

impl std::fmt::Display for Op {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let p = |p: &Option<usize>| p.map(|p| p.to_string()).unwrap_or("-".into());
        match self {
            Op::D { issuer, proof, to, can, after } => {
                write!(f, "{}+{}{}^{}", who(*issuer), who(*to), ac(*can), p(proof))?;
                if !after.is_empty() {
                    write!(f, "!{}", after.iter().map(|a| a.to_string()).collect::<Vec<_>>().join("."))?;
                }
                Ok(())
            }
            Op::R { issuer, target, proof } => write!(f, "{}-{}^{}", who(*issuer), target, p(proof)),
        }
    }
}
impl std::fmt::Display for Graph {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let s: Vec<String> = self.ops.iter().map(|o| o.to_string()).collect();
        write!(f, "{}", s.join(","))
    }
}

pub const LEVELS: [Access; 4] = [Access::Relay, Access::Read, Access::Edit, Access::Admin];

impl Graph {
    pub fn issuer(&self, i: usize) -> u8 {
        match &self.ops[i] {
            Op::D { issuer, .. } | Op::R { issuer, .. } => *issuer,
        }
    }
    pub fn subject(&self, i: usize) -> u8 {
        match &self.ops[i] {
            Op::D { issuer, proof: None, .. } => *issuer,
            Op::D { proof: Some(p), .. } => self.subject(*p),
            Op::R { target, .. } => self.subject(*target),
        }
    }
    pub fn deps(&self, i: usize) -> Vec<usize> {
        match &self.ops[i] {
            Op::D { proof, after, .. } => proof.iter().copied().chain(after.iter().copied()).collect(),
            Op::R { target, proof, .. } => std::iter::once(*target).chain(proof.iter().copied()).collect(),
        }
    }
    fn can(&self, i: usize) -> Access {
        match &self.ops[i] {
            Op::D { can, .. } => *can,
            _ => unreachable!(),
        }
    }
    fn to(&self, i: usize) -> u8 {
        match &self.ops[i] {
            Op::D { to, .. } => *to,
            _ => unreachable!(),
        }
    }
    pub fn is_d(&self, i: usize) -> bool {
        matches!(self.ops[i], Op::D { .. })
    }
    fn proof(&self, i: usize) -> Option<usize> {
        match &self.ops[i] {
            Op::D { proof, .. } | Op::R { proof, .. } => *proof,
        }
    }
    /// `anc` is on `d`'s proof chain (or is `d`).
    fn on_chain(&self, anc: usize, d: usize) -> bool {
        let mut at = Some(d);
        while let Some(x) = at {
            if x == anc {
                return true;
            }
            at = self.proof(x);
        }
        false
    }
    /// May `who` act with at least `min` through something delegated to `delegate`?
    fn speaks_for(&self, who: u8, delegate: u8, min: Access) -> bool {
        who == delegate || self.sub.get(&(delegate, who)).is_some_and(|a| *a >= min)
    }

    /// Is the operation legitimate by itself: right issuer, no more access than
    /// its proof gives, every reference legitimate and about the same subject?
    /// (Whether its authority still stands is a question of order.)
    pub fn legit(&self, i: usize) -> bool {
        let s = self.subject(i);
        match &self.ops[i] {
            Op::D { issuer, proof, can, after, .. } => {
                let auth = match proof {
                    None => true,
                    Some(p) => {
                        self.is_d(*p)
                            && self.legit(*p)
                            && *can <= self.can(*p)
                            && self.speaks_for(*issuer, self.to(*p), *can)
                    }
                };
                auth && after.iter().all(|a| !self.is_d(*a) && self.legit(*a))
            }
            Op::R { issuer, target, proof } => {
                if !self.is_d(*target) || !self.legit(*target) {
                    return false;
                }
                match proof {
                    None => *issuer == s,
                    Some(p) => {
                        if !self.is_d(*p) || !self.legit(*p) || self.subject(*p) != s {
                            return false;
                        }
                        // whoever granted or holds a delegation that the target
                        // descends from, or speaks for the holder of a delegation
                        // that outranks it
                        let principal = *issuer == self.issuer(*p) || *issuer == self.to(*p);
                        (self.on_chain(*p, *target) && principal)
                            || (self.can(*p) == Access::Admin && *issuer == self.to(*p))
                            || (self.can(*p) >= self.can(*target)
                                && *issuer != self.to(*p)
                                && self.speaks_for(*issuer, self.to(*p), self.can(*target)))
                    }
                }
            }
        }
    }

    /// Order-independent identity of the set of ops.
    pub fn canon(&self) -> Vec<u64> {
        let mut hs: Vec<u64> = vec![];
        for op in &self.ops {
            let s = match op {
                Op::D { issuer, proof, to, can, after } => {
                    let mut a: Vec<u64> = after.iter().map(|i| hs[*i]).collect();
                    a.sort();
                    format!("D{issuer},{:?},{to},{can},{a:?}", proof.map(|p| hs[p]))
                }
                Op::R { issuer, target, proof } => format!("R{issuer},{},{:?}", hs[*target], proof.map(|p| hs[p])),
            };
            hs.push(crate::det::hash64(s));
        }
        hs.sort();
        hs.dedup();
        hs
    }

    /// Signs every op into a real event.
    pub fn sign(&self) -> Vec<Ev> {
        self.sign_for(None)
    }
    /// As `sign`; root delegations of subject `doc` carry document content heads.
    pub fn sign_for(&self, doc: Option<u8>) -> Vec<Ev> {
        let mut out: Vec<Ev> = vec![];
        for op in &self.ops {
            let dh = |i: &usize| match &out[*i] {
                StaticEvent::Delegated(d) => Digest::<SDlg>::hash(d),
                // an ill-typed reference: the hash of something that isn't a delegation
                e => Digest::<Ev>::hash(e).coerce(),
            };
            let rh = |i: &usize| match &out[*i] {
                StaticEvent::Revoked(r) => Digest::<SRev>::hash(r),
                e => Digest::<Ev>::hash(e).coerce(),
            };
            let ev = match op {
                Op::D { issuer, proof, to, can, after } => {
                    let mut after_content = BTreeMap::new();
                    if proof.is_none() && Some(*issuer) == doc {
                        after_content.insert(ident(&signer(*issuer)).into(), vec![[7u8; 32]]);
                    }
                    let s = StaticDelegation {
                        can: *can,
                        proof: proof.as_ref().map(dh),
                        delegate: ident(&signer(*to)),
                        after_revocations: after.iter().map(rh).collect(),
                        after_content,
                    };
                    StaticEvent::Delegated(signer(*issuer).try_sign_sync(s).unwrap())
                }
                Op::R { issuer, target, proof } => {
                    let s = StaticRevocation {
                        revoke: dh(target),
                        proof: proof.as_ref().map(dh),
                        after_content: BTreeMap::new(),
                    };
                    StaticEvent::Revoked(signer(*issuer).try_sign_sync(s).unwrap())
                }
            };
            out.push(ev);
        }
        out
    }

    /// Reads the membership ops out of real events (any order); `index` names identities.
    pub fn parse(events: &[Ev], index: &HashMap<Identifier, u8>) -> (Graph, Vec<Ev>) {
        let mut by_hash: HashMap<[u8; 32], usize> = HashMap::new();
        let mut g = Graph::default();
        let mut order = vec![];
        let mut rest: Vec<&Ev> =
            events.iter().filter(|e| matches!(e, StaticEvent::Delegated(_) | StaticEvent::Revoked(_))).collect();
        loop {
            let mut next = vec![];
            let n = rest.len();
            for e in rest {
                let (h, op) = match e {
                    StaticEvent::Delegated(d) => {
                        let p = d.payload();
                        let h = *Digest::<SDlg>::hash(d).raw.as_bytes();
                        let proof = match &p.proof {
                            None => Ok(None),
                            Some(q) => by_hash.get(q.raw.as_bytes()).copied().map(Some).ok_or(()),
                        };
                        let after: Option<Vec<usize>> =
                            p.after_revocations.iter().map(|q| by_hash.get(q.raw.as_bytes()).copied()).collect();
                        match (proof, after) {
                            (Ok(proof), Some(mut after)) => {
                                after.sort();
                                (
                                    h,
                                    Some(Op::D {
                                        issuer: index[&d.verifying_key_id()],
                                        proof,
                                        to: index[&p.delegate],
                                        can: p.can,
                                        after,
                                    }),
                                )
                            }
                            _ => (h, None),
                        }
                    }
                    StaticEvent::Revoked(r) => {
                        let p = r.payload();
                        let h = *Digest::<SRev>::hash(r).raw.as_bytes();
                        let target = by_hash.get(p.revoke.raw.as_bytes()).copied();
                        let proof = match &p.proof {
                            None => Ok(None),
                            Some(q) => by_hash.get(q.raw.as_bytes()).copied().map(Some).ok_or(()),
                        };
                        match (target, proof) {
                            (Some(target), Ok(proof)) => {
                                (h, Some(Op::R { issuer: index[&r.verifying_key_id()], target, proof }))
                            }
                            _ => (h, None),
                        }
                    }
                    _ => unreachable!(),
                };
                match op {
                    Some(op) => {
                        by_hash.insert(h, g.ops.len());
                        g.ops.push(op);
                        order.push(e.clone());
                    }
                    None => next.push(e),
                }
            }
            if next.is_empty() {
                return (g, order);
            }
            assert!(next.len() < n, "events miss their dependencies");
            rest = next;
        }
    }

    /// The delegations in force after applying `order` one by one (ids of
    /// legitimate ops about `subject`). `alt`: may a delegation whose proof fell
    /// stand on another, at least as strong, delegation to the same holder?
    pub fn run(&self, subject: u8, order: &[usize], alt: bool) -> BTreeSet<usize> {
        let order: Vec<usize> = order.iter().copied().filter(|i| self.legit(*i)).collect();
        self.run_trusted(subject, &order, alt)
    }
    /// As `run`, for operations known to be legitimate.
    pub fn run_trusted(&self, subject: u8, order: &[usize], alt: bool) -> BTreeSet<usize> {
        let mut seen: Vec<usize> = vec![];
        let mut revoked: BTreeSet<usize> = BTreeSet::new();
        let mut inplay: BTreeSet<usize> = BTreeSet::new();
        for &i in order {
            if self.subject(i) != subject {
                continue;
            }
            match &self.ops[i] {
                Op::D { .. } => {
                    seen.push(i);
                    inplay = self.fixpoint(&seen, &revoked, alt);
                }
                Op::R { target, .. } => {
                    if self.stands(i, &inplay, alt) {
                        revoked.insert(*target);
                        inplay = self.fixpoint(&seen, &revoked, alt);
                    }
                }
            }
        }
        inplay
    }

    /// Does the authority of revocation `i` still stand when these delegations are in force?
    fn stands(&self, i: usize, inplay: &BTreeSet<usize>, alt: bool) -> bool {
        let Op::R { issuer, proof, target } = &self.ops[i] else { unreachable!() };
        let Some(p) = proof else { return true };
        // a delegation may be given up or taken back whenever it matters
        if p == target || inplay.contains(p) {
            return true;
        }
        let holder = if *issuer == self.issuer(*p) { *issuer } else { self.to(*p) };
        // the subject's own key never loses its authority
        holder == self.subject(i)
            || (alt && inplay.iter().any(|d| self.to(*d) == holder && self.can(*d) >= self.can(*p)))
    }

    fn fixpoint(&self, seen: &[usize], revoked: &BTreeSet<usize>, alt: bool) -> BTreeSet<usize> {
        let mut inplay: BTreeSet<usize> = BTreeSet::new();
        loop {
            let n = inplay.len();
            for &d in seen {
                if revoked.contains(&d) || inplay.contains(&d) {
                    continue;
                }
                let ok = match self.proof(d) {
                    None => true,
                    Some(p) => {
                        inplay.contains(&p)
                            || (alt
                                && inplay
                                    .iter()
                                    .any(|x| self.to(*x) == self.to(p) && self.can(*x) >= self.can(p)))
                    }
                };
                if ok {
                    inplay.insert(d);
                }
            }
            if inplay.len() == n {
                return inplay;
            }
        }
    }

    pub fn access(&self, inplay: &BTreeSet<usize>) -> BTreeMap<u8, Access> {
        let mut m: BTreeMap<u8, Access> = BTreeMap::new();
        for d in inplay {
            let e = m.entry(self.to(*d)).or_insert(self.can(*d));
            *e = (*e).max(self.can(*d));
        }
        m
    }

    /// Everything some sequential execution of these operations allows.
    pub fn allowed(&self, subject: u8) -> BTreeSet<BTreeMap<u8, Access>> {
        let ops = (0..self.ops.len()).filter(|i| self.legit(*i) && self.subject(*i) == subject).collect();
        self.outcomes(&ops)
    }
    /// As `allowed`, for operations known to be legitimate.
    pub fn allowed_trusted(&self, subject: u8) -> BTreeSet<BTreeMap<u8, Access>> {
        let ops = (0..self.ops.len()).filter(|i| self.subject(*i) == subject).collect();
        self.outcomes(&ops)
    }
    /// Outcomes of applying `ops` in every order that respects dependencies.
    /// What has been seen and what has been revoked is all that matters.
    fn outcomes(&self, ops: &BTreeSet<usize>) -> BTreeSet<BTreeMap<u8, Access>> {
        let mut out = BTreeSet::new();
        for alt in [false, true] {
            let mut memo: BTreeSet<(BTreeSet<usize>, BTreeSet<usize>)> = BTreeSet::new();
            let mut todo = vec![(BTreeSet::new(), BTreeSet::new())];
            while let Some((done, revoked)) = todo.pop() {
                if !memo.insert((done.clone(), revoked.clone())) {
                    continue;
                }
                let seen: Vec<usize> = done.iter().copied().filter(|i| self.is_d(*i)).collect();
                let inplay = self.fixpoint(&seen, &revoked, alt);
                if done.len() == ops.len() {
                    out.insert(self.access(&inplay));
                    continue;
                }
                for i in ops.difference(&done) {
                    if self.deps(*i).iter().any(|d| ops.contains(d) && !done.contains(d)) {
                        continue;
                    }
                    let mut d2 = done.clone();
                    d2.insert(*i);
                    let mut r2 = revoked.clone();
                    if let Op::R { target, .. } = &self.ops[*i] {
                        if self.stands(*i, &inplay, alt) {
                            r2.insert(*target);
                        }
                    }
                    todo.push((d2, r2));
                }
            }
        }
        out
    }
}

pub trait Vk {
    fn verifying_key_id(&self) -> Identifier;
}
impl<X: serde::Serialize + std::fmt::Debug> Vk for keyhive_crypto::signed::Signed<X> {
    fn verifying_key_id(&self) -> Identifier {
        use keyhive_crypto::verifiable::Verifiable;
        self.verifying_key().into()
    }
}
