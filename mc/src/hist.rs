//! Histories of public API calls over several real replicas, explored breadth
//! first: every sequence of actions up to a depth, one per distinct state.
use crate::{det, exec::block_on, explore::*, mgraph::*, report::*, world::*};
use keyhive_core::access::Access;
use keyhive_core::principal::identifier::Identifier;
use keyhive_core::principal::public::Public;
use beekem::encrypted::EncryptedContent;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::future::Future;
use std::pin::Pin;
use std::sync::Mutex as StdMutex;

/// A person (`signer(i)`), the k-th group or document created, or everyone.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Who {
    P(u8),
    R(usize),
    Public,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Act {
    Group { by: u8, with: Vec<Who> },
    Doc { by: u8, with: Vec<Who> },
    Add { by: u8, who: Who, res: usize, can: Access },
    Revoke { by: u8, who: Who, res: usize, retain: bool },
    /// `to` receives everything `from` has.
    Push { from: u8, to: u8 },
    /// `to` receives only the newest thing `from` has.
    Drip { from: u8, to: u8 },
    /// `to` receives what `from` would send it.
    Sync { from: u8, to: u8 },
    All,
    Update { by: u8, res: usize },
    Enc { by: u8, res: usize },
    Rotate { by: u8 },
    Expand { by: u8 },
    Card { by: u8, to: u8 },
    Restart { by: u8 },
}

impl std::fmt::Display for Who {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Who::P(i) => write!(f, "{}", who(*i)),
            Who::R(k) => write!(f, "{k}"),
            Who::Public => write!(f, "*"),
        }
    }
}
impl std::fmt::Display for Act {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let ws = |w: &[Who]| w.iter().map(|w| w.to_string()).collect::<String>();
        match self {
            Act::Group { by, with } => write!(f, "{}:group({})", who(*by), ws(with)),
            Act::Doc { by, with } => write!(f, "{}:doc({})", who(*by), ws(with)),
            Act::Add { by, who: w, res, can } => write!(f, "{}:{res}+{w}{}", who(*by), ac(*can)),
            Act::Revoke { by, who: w, res, retain } => {
                write!(f, "{}:{res}-{w}{}", who(*by), if *retain { "(keep)" } else { "" })
            }
            Act::Push { from, to } => write!(f, "{}>>{}", who(*from), who(*to)),
            Act::Drip { from, to } => write!(f, "{}.>{}", who(*from), who(*to)),
            Act::Sync { from, to } => write!(f, "{}>{}", who(*from), who(*to)),
            Act::All => write!(f, "|"),
            Act::Update { by, res } => write!(f, "{}:{res}upd", who(*by)),
            Act::Enc { by, res } => write!(f, "{}:{res}enc", who(*by)),
            Act::Rotate { by } => write!(f, "{}:rot", who(*by)),
            Act::Expand { by } => write!(f, "{}:exp", who(*by)),
            Act::Card { by, to } => write!(f, "{}:card>{}", who(*by), who(*to)),
            Act::Restart { by } => write!(f, "{}:restart", who(*by)),
        }
    }
}

pub fn hname(h: &[Act]) -> String {
    h.iter().map(|a| a.to_string()).collect::<Vec<_>>().join(",")
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Res {
    Ok,
    /// The call returned an error.
    Err(String),
    /// The replica doesn't know the things the call is about.
    Na,
}

pub struct Msg {
    pub res: usize,
    pub by: u8,
    pub text: Vec<u8>,
    pub enc: EncryptedContent<Vec<u8>, T>,
}

pub struct Sys {
    pub kh: Vec<Kh>,
    pub res: Vec<Identifier>,
    pub docs: BTreeSet<usize>,
    pub msgs: Vec<Msg>,
    /// Every event any replica issued, in the order issued.
    pub pool: Vec<Ev>,
    pool_ix: BTreeMap<[u8; 32], usize>,
    pub known: Vec<BTreeSet<usize>>,
    pub cursor: Vec<usize>,
    pub salt: Vec<u8>,
}

impl Sys {
    /// `n` replicas that have exchanged contact cards: all of them with each
    /// other, or only the first with the rest.
    pub async fn new(n: u8, star: bool) -> Sys {
        let mut s = Sys {
            kh: vec![],
            res: vec![],
            docs: Default::default(),
            msgs: vec![],
            pool: vec![],
            pool_ix: Default::default(),
            known: vec![Default::default(); n as usize],
            cursor: vec![0; n as usize],
            salt: vec![0; n as usize],
        };
        for i in 1..=n {
            s.kh.push(mk(i).await);
        }
        for i in 0..n as usize {
            for e in own_prekeys(&s.kh[i]).await {
                let ix = s.pooled(e);
                s.known[i].insert(ix);
            }
            for j in 0..n as usize {
                if i != j && (!star || i == 0 || j == 0) {
                    introduce(&s.kh[i], &s.kh[j]).await;
                }
            }
        }
        for i in 0..n as usize {
            s.collect(i).await;
        }
        s
    }
    pub fn at(&self, i: u8) -> &Kh {
        &self.kh[i as usize - 1]
    }
    pub fn n(&self) -> u8 {
        self.kh.len() as u8
    }
    fn pooled(&mut self, e: Ev) -> usize {
        let h = ev_hash(&e);
        *self.pool_ix.entry(h).or_insert_with(|| {
            self.pool.push(e);
            self.pool.len() - 1
        })
    }
    /// Notes what replica `i` told its listener since last time.
    pub async fn collect(&mut self, i: usize) {
        let fresh: Vec<Ev> = {
            let l = self.kh[i].event_listener().0.lock().await;
            let v = l[self.cursor[i]..].iter().map(|e| e.clone().into()).collect();
            self.cursor[i] = l.len();
            v
        };
        for e in fresh {
            let ix = self.pooled(e);
            self.known[i].insert(ix);
        }
    }
    /// What replica `by` says from its `at`-th announcement on is new.
    pub fn restart_listening(&mut self, by: u8, at: usize) {
        self.cursor[by as usize - 1] = at;
    }
    pub fn id(&self, w: Who) -> Option<Identifier> {
        match w {
            Who::P(i) => Some(ident(&signer(i))),
            Who::R(k) => self.res.get(k).copied(),
            Who::Public => Some(Public.id()),
        }
    }
    pub async fn agent(&self, by: u8, w: Who) -> Option<Ag> {
        let id = self.id(w)?;
        self.at(by).get_agent(id).await
    }
    pub async fn membered(&self, by: u8, res: usize) -> Option<Mb> {
        membered(self.at(by), *self.res.get(res)?).await
    }
    pub async fn doc(&self, by: u8, res: usize) -> Option<std::sync::Arc<futures::lock::Mutex<Dc>>> {
        self.at(by).get_document((*self.res.get(res)?).into()).await
    }
    pub async fn give(&mut self, to: u8, evs: Vec<usize>) {
        let t = to as usize - 1;
        let fresh: Vec<usize> = evs.into_iter().filter(|e| !self.known[t].contains(e)).collect();
        if fresh.is_empty() {
            return;
        }
        let v: Vec<Ev> = fresh.iter().map(|i| self.pool[*i].clone()).collect();
        ingest(&self.kh[t], &v).await;
        self.known[t].extend(fresh);
        self.collect(t).await;
    }
    /// Gives events that no replica issued to the replicas `to`.
    pub async fn inject(&mut self, evs: &[Ev], to: &[u8]) {
        let ix: Vec<usize> = evs.iter().map(|e| self.pooled(e.clone())).collect();
        for i in to {
            self.give(*i, ix.clone()).await;
        }
    }
    pub async fn all(&mut self) {
        loop {
            let everything: Vec<usize> = (0..self.pool.len()).collect();
            for i in 1..=self.n() {
                self.give(i, everything.clone()).await;
            }
            if self.pool.len() == everything.len() {
                return;
            }
        }
    }
    /// Who has how much access to resource `k`, as replica `by` sees it.
    pub async fn access(&self, by: u8, k: usize) -> Option<BTreeMap<Who, Access>> {
        let m = self.membered(by, k).await?;
        Some(
            self.at(by)
                .reachable_members(m)
                .await
                .into_iter()
                .filter_map(|(id, (_, a))| self.name(&id).map(|w| (w, a)))
                .collect(),
        )
    }
    /// Direct members with their highest access.
    pub async fn direct(&self, by: u8, k: usize) -> Option<BTreeMap<Who, Access>> {
        let ms = match self.membered(by, k).await? {
            Mb::Group(_, g) => g.lock().await.members().clone(),
            Mb::Document(_, d) => d.lock().await.members().clone(),
        };
        Some(
            ms.iter()
                .filter_map(|(id, ds)| self.name(id).map(|w| (w, ds.iter().map(|d| d.payload().can()).max().unwrap())))
                .collect(),
        )
    }
    pub fn name(&self, id: &Identifier) -> Option<Who> {
        if *id == Public.id() {
            return Some(Who::Public);
        }
        (1..=9)
            .find(|i| ident(&signer(*i)) == *id)
            .map(Who::P)
            .or_else(|| self.res.iter().position(|r| r == id).map(Who::R))
    }
    pub fn universe(&self) -> Vec<Identifier> {
        (1..=self.n()).map(|i| ident(&signer(i))).chain(self.res.iter().copied()).chain([Public.id()]).collect()
    }
    pub async fn encrypt(&mut self, by: u8, res: usize) -> Result<usize, String> {
        let Some(d) = self.doc(by, res).await else { return Err("unknown".into()) };
        let n = self.msgs.len() as u8;
        let text = vec![n; 5 + n as usize];
        let mut r = [n; 32];
        r[0] = by;
        r[1] = self.salt[by as usize - 1];
        self.salt[by as usize - 1] += 1;
        let out = self.at(by).try_encrypt_content(d, &r, &vec![], &text).await.map_err(|e| format!("{e:?}"))?;
        self.collect(by as usize - 1).await;
        self.msgs.push(Msg { res, by, text, enc: out.encrypted_content().clone() });
        Ok(self.msgs.len() - 1)
    }
    pub async fn decrypt(&self, by: u8, msg: usize) -> Result<bool, String> {
        let m = &self.msgs[msg];
        let Some(d) = self.doc(by, m.res).await else { return Err("unknown document".into()) };
        match self.at(by).try_decrypt_content(d, &m.enc).await {
            Ok(t) => Ok(t == m.text),
            Err(e) => Err(format!("{e}")),
        }
    }

    pub async fn apply(&mut self, a: &Act) -> Res {
        let e = |x: String| Res::Err(x);
        let out = match a {
            Act::Group { by, with } | Act::Doc { by, with } => {
                let mut peers = vec![];
                for w in with {
                    let Some(id) = self.id(*w) else { return Res::Na };
                    let Some(p) = self.at(*by).get_peer(id).await else { return Res::Na };
                    peers.push(p);
                }
                let k = self.res.len();
                if let Act::Group { .. } = a {
                    match self.at(*by).generate_group(peers).await {
                        Ok(g) => {
                            let id = g.lock().await.id();
                            self.res.push(id);
                            Res::Ok
                        }
                        Err(x) => e(format!("{x:?}")),
                    }
                } else {
                    match self.at(*by).generate_doc(peers, nonempty::nonempty![[k as u8 + 100; 32]]).await {
                        Ok(d) => {
                            let id = d.lock().await.id();
                            self.res.push(id);
                            self.docs.insert(k);
                            Res::Ok
                        }
                        Err(x) => e(format!("{x:?}")),
                    }
                }
            }
            Act::Add { by, who, res, can } => {
                let (Some(ag), Some(m)) = (self.agent(*by, *who).await, self.membered(*by, *res).await) else {
                    return Res::Na;
                };
                match self.at(*by).add_member(ag, &m, *can, &[]).await {
                    Ok(_) => Res::Ok,
                    Err(x) => e(format!("{x:?}")),
                }
            }
            Act::Revoke { by, who, res, retain } => {
                let (Some(id), Some(m)) = (self.id(*who), self.membered(*by, *res).await) else { return Res::Na };
                match self.at(*by).revoke_member(id, *retain, &m).await {
                    Ok(_) => Res::Ok,
                    Err(x) => e(format!("{x:?}")),
                }
            }
            Act::Push { from, to } => {
                let v: Vec<usize> = self.known[*from as usize - 1].iter().copied().collect();
                self.give(*to, v).await;
                Res::Ok
            }
            Act::Drip { from, to } => {
                let have = &self.known[*to as usize - 1];
                let newest = self.known[*from as usize - 1].iter().rev().find(|e| !have.contains(e)).copied();
                self.give(*to, newest.into_iter().collect()).await;
                Res::Ok
            }
            Act::Sync { from, to } => {
                let Some(ag) = self.agent(*from, Who::P(*to)).await else { return Res::Na };
                let evs = self.at(*from).static_events_for_agent(&ag).await;
                let mut evs: Vec<Ev> = evs.into_values().collect();
                evs.sort_by_key(ev_hash);
                let ix: Vec<usize> = evs.into_iter().map(|e| self.pooled(e)).collect();
                self.give(*to, ix).await;
                Res::Ok
            }
            Act::All => {
                self.all().await;
                Res::Ok
            }
            Act::Update { by, res } => {
                let Some(d) = self.doc(*by, *res).await else { return Res::Na };
                match self.at(*by).force_pcs_update(d).await {
                    Ok(_) => Res::Ok,
                    Err(x) => e(format!("{x:?}")),
                }
            }
            Act::Enc { by, res } => {
                if self.doc(*by, *res).await.is_none() {
                    return Res::Na;
                }
                match self.encrypt(*by, *res).await {
                    Ok(_) => Res::Ok,
                    Err(x) => e(x),
                }
            }
            Act::Rotate { by } => {
                let k = {
                    let a = self.at(*by).active().lock().await;
                    let i = a.individual();
                    let i = i.lock().await;
                    // the very key others would use for the first resource
                    *i.pick_prekey(self.res.last().copied().unwrap_or(Public.id()).into())
                };
                match self.at(*by).rotate_prekey(k).await {
                    Ok(_) => Res::Ok,
                    Err(x) => e(format!("{x:?}")),
                }
            }
            Act::Expand { by } => match self.at(*by).expand_prekeys().await {
                Ok(_) => Res::Ok,
                Err(x) => e(format!("{x:?}")),
            },
            // somebody without a replica here
            Act::Card { by, to } if *by > self.n() => {
                let c = mk(*by).await.get_existing_contact_card().await;
                match self.at(*to).receive_contact_card(&c).await {
                    Ok(_) => Res::Ok,
                    Err(x) => e(format!("{x:?}")),
                }
            }
            Act::Card { by, to } => {
                let c = self.at(*by).contact_card().await;
                match c {
                    Ok(c) => match self.at(*to).receive_contact_card(&c).await {
                        Ok(_) => {
                            let ev = key_op_event(c.op());
                            let ix = self.pooled(ev);
                            self.known[*to as usize - 1].insert(ix);
                            Res::Ok
                        }
                        Err(x) => e(format!("{x:?}")),
                    },
                    Err(x) => e(format!("{x:?}")),
                }
            }
            Act::Restart { by } => match self.restarted(*by).await {
                Ok(k) => {
                    self.kh[*by as usize - 1] = k;
                    self.cursor[*by as usize - 1] = 0;
                    Res::Ok
                }
                Err(x) => e(x),
            },
        };
        for i in 0..self.kh.len() {
            self.collect(i).await;
        }
        out
    }

    /// What replica `by` would store.
    pub async fn stored(&self, by: u8) -> Result<keyhive_core::archive::Archive<T>, String> {
        let bytes = bincode::serialize(&self.at(by).into_archive().await).map_err(|x| format!("serialize {x:?}"))?;
        bincode::deserialize(&bytes).map_err(|x| format!("deserialize {x:?}"))
    }

    /// Replica `by` as it was stored.
    pub async fn loaded(&self, by: u8, archive: &keyhive_core::archive::Archive<T>) -> Result<Kh, String> {
        let rng = std::sync::Arc::new(futures::lock::Mutex::new(det::DetRng::new(1000 + by as u64)));
        Kh::try_from_archive(archive, signer(by), Store::new(), Lg::new(), rng).await.map_err(|x| format!("{x:?}"))
    }

    /// Replica `by`, stored and loaded again.
    pub async fn restarted(&self, by: u8) -> Result<Kh, String> {
        self.loaded(by, &self.stored(by).await?).await
    }

    pub fn state_hash(&self) -> u64 {
        let mut b: Vec<u8> = vec![];
        for (i, k) in self.known.iter().enumerate() {
            let mut hs: Vec<[u8; 32]> = k.iter().map(|e| ev_hash(&self.pool[*e])).collect();
            hs.sort();
            b.push(i as u8);
            for h in hs {
                b.extend(h);
            }
        }
        for m in &self.msgs {
            b.push(m.res as u8);
            b.push(m.by);
        }
        det::hash64(b)
    }
}

#[derive(Clone, Default)]
pub struct Cfg {
    pub replicas: u8,
    /// Only the first replica has the contact cards of the others.
    pub star: bool,
    /// Starting points.
    pub bases: Vec<Vec<Act>>,
    /// Appended after every further action (for instance a full exchange).
    pub after_each: Vec<Act>,
    pub depth: usize,
    pub acts: Vec<Act>,
    pub seed: u64,
}

pub type Oracle<'a> = Pin<Box<dyn Future<Output = Vec<(String, String)>> + 'a>>;

/// A history, run: the system before the last action and the result of it.
pub struct Ran<'a> {
    pub sys: &'a mut Sys,
    pub hist: &'a [Act],
    pub last: Option<&'a Act>,
    pub result: Res,
    /// What the observer function returned just before the last action.
    pub before: serde_json::Value,
}

/// Runs every history breadth first, and `check` at the end of each. Returned
/// pairs are (symptom, detail) of violations.
pub fn search<B, C>(r: &Report, cfg: &Cfg, before: B, check: C)
where
    B: for<'a> Fn(&'a Sys) -> Pin<Box<dyn Future<Output = serde_json::Value> + 'a>> + Sync,
    C: for<'a> Fn(&'a mut Ran<'_>) -> Oracle<'a> + Sync,
{
    let mut seen: HashSet<u64> = HashSet::new();
    let mut level: Vec<(Vec<Act>, Vec<Act>)> = cfg.bases.iter().map(|b| (b.clone(), vec![])).collect();
    for depth in 0..=cfg.depth {
        let out: StdMutex<Vec<(usize, u64)>> = Default::default();
        par_each(&level, THREADS, |ix, (base, acts)| {
            let name = || format!("{}/{}", hname(base), hname(acts));
            r.execution();
            r.transitions((base.len() + acts.len()) as u64);
            let got = det::run_labelled(cfg.seed, name, || {
                block_on(async {
                    let mut sys = Sys::new(cfg.replicas, cfg.star).await;
                    for a in base {
                        let x = sys.apply(a).await;
                        assert!(x == Res::Ok, "base action {a} gave {x:?}");
                    }
                    let mut result = Res::Ok;
                    let mut obs = serde_json::Value::Null;
                    let mut last_state = 0;
                    for (i, a) in acts.iter().enumerate() {
                        if i + 1 == acts.len() {
                            obs = before(&sys).await;
                            last_state = sys.state_hash();
                        }
                        result = sys.apply(a).await;
                        if result == Res::Na {
                            return None;
                        }
                        for x in &cfg.after_each {
                            sys.apply(x).await;
                        }
                    }
                    let state = sys.state_hash();
                    let mut hist = base.clone();
                    hist.extend(acts.iter().cloned());
                    let mut ran = Ran { sys: &mut sys, hist: &hist, last: acts.last(), result: result.clone(), before: obs };
                    let v = check(&mut ran).await;
                    let moved = acts.is_empty() || state != last_state;
                    Some((state, moved, v, result))
                })
            });
            match got {
                Err(e) => {
                    r.violation(&format!("hist:{}:abort", name()), format!("{e}"), json!({"history": name()}));
                }
                Ok(None) => r.outcome("not applicable"),
                Ok(Some((state, moved, v, result))) => {
                    r.compared(1);
                    r.state(state);
                    let kind = acts.last().map(kind).unwrap_or("base");
                    r.outcome(format!("{kind} {}", if result == Res::Ok { "succeeded" } else { "refused" }));
                    for (sym, detail) in v {
                        // a symptom may name the defect it belongs to instead of the history
                        let key = if sym.starts_with("class:") { sym } else { format!("hist:{}:{sym}", name()) };
                        r.violation(&key, detail, json!({"history": name()}));
                    }
                    if moved {
                        out.lock().unwrap().push((ix, state));
                    }
                    if ix % 997 == 3 {
                        r.sample(|| json!({"history": name()}));
                    }
                }
            }
        });
        let mut got = out.into_inner().unwrap();
        got.sort();
        let mut next = vec![];
        for (ix, st) in got {
            if !seen.insert(st) || depth == cfg.depth {
                continue;
            }
            let (b, a) = &level[ix];
            for x in &cfg.acts {
                // receiving the same things twice in a row is no new history
                if a.last() == Some(x) && matches!(x, Act::Push { .. } | Act::Sync { .. } | Act::All) {
                    continue;
                }
                let mut h = a.clone();
                h.push(x.clone());
                next.push((b.clone(), h));
            }
        }
        level = next;
    }
}

pub fn kind(a: &Act) -> &'static str {
    match a {
        Act::Group { .. } => "group",
        Act::Doc { .. } => "doc",
        Act::Add { .. } => "add",
        Act::Revoke { .. } => "revoke",
        Act::Push { .. } => "push",
        Act::Sync { .. } => "sync",
        Act::Drip { .. } => "drip",
        Act::All => "exchange",
        Act::Update { .. } => "update",
        Act::Enc { .. } => "encrypt",
        Act::Rotate { .. } => "rotate",
        Act::Expand { .. } => "expand",
        Act::Card { .. } => "card",
        Act::Restart { .. } => "restart",
    }
}

/// Every distinct state within `cfg`, by one history that leads to it (the
/// base included), shortest first.
pub fn histories(r: &Report, cfg: &Cfg) -> Vec<Vec<Act>> {
    let found: StdMutex<BTreeMap<u64, (usize, String, Vec<Act>)>> = Default::default();
    search(
        r,
        cfg,
        |_| Box::pin(async { serde_json::Value::Null }),
        |ran| {
            let key = (ran.hist.len(), hname(ran.hist), ran.hist.to_vec());
            let st = ran.sys.state_hash();
            let mut f = found.lock().unwrap();
            match f.get(&st) {
                Some(old) if (old.0, &old.1) <= (key.0, &key.1) => {}
                _ => {
                    f.insert(st, key);
                }
            }
            Box::pin(async { vec![] })
        },
    );
    let mut v: Vec<_> = found.into_inner().unwrap().into_values().collect();
    v.sort();
    v.into_iter().map(|(_, _, h)| h).collect()
}

/// Runs `hist` again and then `f`.
pub fn rerun<T, F>(cfg: &Cfg, hist: &[Act], label: impl FnOnce() -> String, f: F) -> Result<T, det::Abort>
where
    T: Send,
    F: for<'a> FnOnce(&'a mut Sys) -> Pin<Box<dyn Future<Output = T> + 'a>> + Send,
{
    det::run_labelled(cfg.seed, label, || {
        block_on(async {
            let mut sys = Sys::new(cfg.replicas, cfg.star).await;
            for a in hist {
                sys.apply(a).await;
                for x in &cfg.after_each {
                    sys.apply(x).await;
                }
            }
            f(&mut sys).await
        })
    })
}
