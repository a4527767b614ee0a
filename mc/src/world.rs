//! Small closed systems of real `Keyhive` replicas.
use crate::det::DetRng;
use beekem::operation::CgkaOperation;
use future_form::Sendable;
use futures::lock::Mutex;
use keyhive_core::{
    access::Access,
    event::static_event::StaticEvent,
    keyhive::Keyhive,
    listener::log::Log,
    principal::{
        agent::Agent,
        document::{id::DocumentId, Document},
        group::{
            delegation::{Delegation, StaticDelegation},
            id::GroupId,
            revocation::{Revocation, StaticRevocation},
            Group,
        },
        identifier::Identifier,
        individual::{id::IndividualId, op::KeyOp, Individual},
        membered::Membered,
        peer::Peer,
    },
    store::ciphertext::memory::MemoryCiphertextStore,
};
use keyhive_crypto::{digest::Digest, signed::Signed, signer::memory::MemorySigner, verifiable::Verifiable};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub type T = [u8; 32];
pub type Lg = Log<Sendable, MemorySigner>;
pub type Store = MemoryCiphertextStore<T, Vec<u8>>;
pub type Kh = Keyhive<Sendable, MemorySigner, T, Vec<u8>, Store, Lg, DetRng>;
pub type Ag = Agent<Sendable, MemorySigner, T, Lg>;
pub type Mb = Membered<Sendable, MemorySigner, T, Lg>;
pub type Pr = Peer<Sendable, MemorySigner, T, Lg>;
pub type Gp = Group<Sendable, MemorySigner, T, Lg>;
pub type Dc = Document<Sendable, MemorySigner, T, Lg>;
pub type Dlg = Delegation<Sendable, MemorySigner, T, Lg>;
pub type Rev = Revocation<Sendable, MemorySigner, T, Lg>;
pub type Ev = StaticEvent<T>;
pub type SDlg = Signed<StaticDelegation<T>>;
pub type SRev = Signed<StaticRevocation<T>>;

pub fn signer(i: u8) -> MemorySigner {
    let mut b = [0x5au8; 32];
    b[0] = i;
    b[31] = i.wrapping_mul(37);
    MemorySigner(ed25519_dalek::SigningKey::from_bytes(&b))
}

pub fn ident(s: &MemorySigner) -> Identifier {
    s.verifying_key().into()
}

/// A new replica whose identity is `signer(i)`.
pub async fn mk(i: u8) -> Kh {
    mk_with(signer(i), i as u64).await
}

pub async fn mk_with(s: MemorySigner, rng: u64) -> Kh {
    Kh::generate(s, Store::new(), Lg::new(), DetRng::new(rng)).await.expect("generate")
}

pub fn ev_hash(e: &Ev) -> [u8; 32] {
    *Digest::hash(e).raw.as_bytes()
}

/// The hash of the operation itself, without saying what kind it is.
pub fn op_hash(e: &Ev) -> [u8; 32] {
    match e {
        StaticEvent::Delegated(d) => *Digest::hash(d).raw.as_bytes(),
        StaticEvent::Revoked(r) => *Digest::hash(r).raw.as_bytes(),
        _ => ev_hash(e),
    }
}

pub fn ev_kind(e: &Ev) -> &'static str {
    match e {
        StaticEvent::PrekeysExpanded(_) => "add-prekey",
        StaticEvent::PrekeyRotated(_) => "rotate-prekey",
        StaticEvent::CgkaOperation(op) => match op.payload() {
            CgkaOperation::Add { .. } => "cgka-add",
            CgkaOperation::Remove { .. } => "cgka-remove",
            CgkaOperation::Update { .. } => "cgka-update",
        },
        StaticEvent::Delegated(_) => "delegation",
        StaticEvent::Revoked(_) => "revocation",
    }
}

/// Everything the replica's listener was told, in order, without duplicates.
pub async fn logged(kh: &Kh) -> Vec<Ev> {
    let l = kh.event_listener().0.lock().await;
    dedup(l.iter().map(|e| e.clone().into()).collect())
}

pub fn dedup(evs: Vec<Ev>) -> Vec<Ev> {
    let mut seen = BTreeSet::new();
    evs.into_iter().filter(|e| seen.insert(ev_hash(e))).collect()
}

pub fn key_op_event(op: &KeyOp) -> Ev {
    match op {
        KeyOp::Add(a) => StaticEvent::PrekeysExpanded(Box::new(a.as_ref().clone())),
        KeyOp::Rotate(r) => StaticEvent::PrekeyRotated(Box::new(r.as_ref().clone())),
    }
}

/// The replica's own prekey operations, as events.
pub async fn own_prekeys(kh: &Kh) -> Vec<Ev> {
    let indie = kh.individual().await;
    let locked = indie.lock().await;
    let mut v: Vec<Ev> = locked.prekey_ops().values().map(|o| key_op_event(o)).collect();
    v.sort_by_key(ev_hash);
    v
}

/// Shares one contact card of `from` with `to`.
pub async fn introduce(from: &Kh, to: &Kh) -> Arc<Mutex<Individual>> {
    let card = from.get_existing_contact_card().await;
    to.receive_contact_card(&card).await.expect("card")
}

pub async fn ingest(kh: &Kh, evs: &[Ev]) -> usize {
    kh.ingest_unsorted_static_events(evs.to_vec()).await.len()
}

pub async fn agent(kh: &Kh, id: Identifier) -> Option<Ag> {
    kh.get_agent(id).await
}

pub async fn membered(kh: &Kh, id: Identifier) -> Option<Mb> {
    if let Some(g) = kh.get_group(GroupId::new(id)).await {
        return Some(Membered::Group(GroupId::new(id), g));
    }
    let did = DocumentId::from(id);
    kh.get_document(did).await.map(|d| Membered::Document(did, d))
}

pub fn sh(b: &[u8]) -> String {
    b[..4].iter().map(|x| format!("{x:02x}")).collect()
}
pub fn idh(i: &Identifier) -> String {
    sh(i.0.as_bytes())
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Default, serde::Serialize)]
pub struct GroupView {
    pub members: BTreeMap<String, BTreeSet<(String, String)>>,
    pub revoked: BTreeMap<String, String>,
    pub transitive: BTreeMap<String, String>,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Default, serde::Serialize)]
pub struct View {
    pub groups: BTreeMap<String, GroupView>,
    pub docs: BTreeMap<String, GroupView>,
    pub cgka: BTreeMap<String, BTreeSet<String>>,
    pub agents: BTreeMap<String, BTreeSet<String>>,
    pub pending: BTreeSet<String>,
}

pub fn acc(a: Access) -> String {
    match a {
        Access::Relay => "relay",
        Access::Read => "read",
        Access::Edit => "edit",
        Access::Admin => "admin",
    }
    .into()
}

async fn group_view(
    members: BTreeMap<String, BTreeSet<(String, String)>>,
    revoked: BTreeMap<String, String>,
    transitive: BTreeMap<String, String>,
) -> GroupView {
    GroupView { members, revoked, transitive }
}

pub fn members_of(m: &std::collections::HashMap<Identifier, nonempty::NonEmpty<Arc<Signed<Dlg>>>>) -> BTreeMap<String, BTreeSet<(String, String)>> {
    m.iter()
        .map(|(k, ds)| {
            (
                idh(k),
                ds.iter().map(|d| (sh(&d.signature().to_bytes()), acc(d.payload().can()))).collect(),
            )
        })
        .collect()
}

/// Canonical view of everything a user can observe about membership.
pub async fn view(kh: &Kh, universe: &[Identifier]) -> View {
    let mut v = View::default();
    let groups: Vec<_> = kh.groups().lock().await.iter().map(|(k, g)| (*k, g.clone())).collect();
    for (id, g) in groups {
        let l = g.lock().await;
        let gv = group_view(
            members_of(l.members()),
            l.revoked_members().iter().map(|(k, (_, a))| (idh(k), acc(*a))).collect(),
            l.transitive_members().await.iter().map(|(k, (_, a))| (idh(k), acc(*a))).collect(),
        )
        .await;
        v.groups.insert(idh(&id.into()), gv);
    }
    let docs: Vec<_> = kh.documents().lock().await.iter().map(|(k, g)| (*k, g.clone())).collect();
    for (id, d) in docs {
        let l = d.lock().await;
        let gv = group_view(
            members_of(l.members()),
            l.revoked_members().iter().map(|(k, (_, a))| (idh(k), acc(*a))).collect(),
            l.transitive_members().await.iter().map(|(k, (_, a))| (idh(k), acc(*a))).collect(),
        )
        .await;
        let name = idh(&id.into());
        v.docs.insert(name.clone(), gv);
        if let Ok(epochs) = l.cgka_ops() {
            let mut s = BTreeSet::new();
            for e in epochs.iter() {
                for op in e.iter() {
                    s.insert(sh(Digest::hash(op.as_ref()).raw.as_bytes()));
                }
            }
            v.cgka.insert(name, s);
        }
    }
    for id in universe {
        if let Some(a) = kh.get_agent(*id).await {
            let kind = match &a {
                Agent::Active(..) | Agent::Individual(..) => "individual",
                Agent::Group(..) => "group",
                Agent::Document(..) => "document",
            };
            let mut s: BTreeSet<String> = a
                .key_ops()
                .await
                .values()
                .map(|op| sh(op.signature().to_bytes().as_slice()))
                .collect();
            s.insert(kind.into());
            v.agents.insert(idh(id), s);
        }
    }
    v.pending = kh.pending_event_hashes().await.iter().map(|h| sh(h.raw.as_bytes())).collect();
    v
}

pub fn vhash<V: serde::Serialize>(v: &V) -> u64 {
    crate::det::hash64(bincode::serialize(v).unwrap())
}
