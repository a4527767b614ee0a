//! Histories of key agreement operations over several real `Cgka` replicas of
//! one tree.
use crate::{det, exec::block_on, world::signer};
use beekem::{
    cgka::Cgka,
    encrypted::EncryptedContent,
    id::{MemberId, TreeId},
    keys::ShareKeyMap,
    operation::CgkaOperation,
};
use future_form::Sendable;
use keyhive_crypto::{
    digest::Digest,
    share_key::{ShareKey, ShareSecretKey},
    signed::Signed,
    verifiable::Verifiable,
};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub type Cop = Arc<Signed<CgkaOperation>>;
pub type T = [u8; 32];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Mv {
    Add(u8, u8),
    Rem(u8, u8),
    Upd(u8),
    /// Encrypt something, with whatever key update that takes.
    Enc(u8),
    /// `.1` receives everything `.0` has.
    Push(u8, u8),
    All,
}

pub fn nm(i: u8) -> char {
    (b'A' + i) as char
}

impl std::fmt::Display for Mv {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Mv::Add(a, b) => write!(f, "{}+{}", nm(*a), nm(*b)),
            Mv::Rem(a, b) => write!(f, "{}-{}", nm(*a), nm(*b)),
            Mv::Upd(a) => write!(f, "{}!", nm(*a)),
            Mv::Enc(a) => write!(f, "{}?", nm(*a)),
            Mv::Push(a, b) => write!(f, "{}>{}", nm(*a), nm(*b)),
            Mv::All => write!(f, "|"),
        }
    }
}

pub fn mvs(h: &[Mv]) -> String {
    h.iter().map(|m| m.to_string()).collect::<Vec<_>>().join(",")
}

/// How an adder picks the key of whom it adds.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Keys {
    /// Everybody the same one.
    Same,
    /// Everybody another one.
    PerAdder,
    /// A new one for each re-addition.
    Fresh,
}

#[derive(Clone)]
pub struct Content {
    pub by: u8,
    pub text: Vec<u8>,
    pub enc: EncryptedContent<Vec<u8>, T>,
    /// What the author knew when encrypting, including its key update.
    pub past: BTreeSet<usize>,
    /// The members of the tree as the author saw it.
    pub members: BTreeSet<u8>,
    /// The secret the content's key is derived from.
    pub root: [u8; 32],
}

#[derive(Clone)]
pub struct Net {
    pub n: u8,
    pub keys: Keys,
    pub ops: Vec<Cop>,
    /// Everything the issuer knew at the time.
    pub past: Vec<BTreeSet<usize>>,
    pub author: Vec<u8>,
    pub cg: Vec<Option<Cgka>>,
    pub known: Vec<Vec<usize>>,
    pub contents: Vec<Content>,
    /// Secrets each person had just before each of its own updates:
    /// (person, the update, secrets).
    pub before_update: Vec<(u8, usize, ShareKeyMap)>,
}

pub fn mid(i: u8) -> MemberId {
    MemberId(signer(i + 1).verifying_key())
}
fn tree() -> TreeId {
    TreeId(signer(200).verifying_key())
}
pub fn leaf_key(i: u8, version: u8) -> (ShareKey, ShareSecretKey) {
    let mut rng = det::DetRng::new(10_000 + i as u64 * 100 + version as u64);
    let sk = ShareSecretKey::generate(&mut rng);
    (sk.share_key(), sk)
}
fn first_secrets(i: u8) -> ShareKeyMap {
    let mut m = ShareKeyMap::new();
    for v in 0..8 {
        let (pk, sk) = leaf_key(i, v);
        m.insert(pk, sk);
    }
    m
}
pub fn ophash(o: &Cop) -> [u8; 32] {
    *Digest::hash(o.as_ref()).raw.as_bytes()
}

/// A replica of person `i` with secrets `sks` that receives `order`.
pub fn replica(net: &Net, i: u8, sks: ShareKeyMap, order: &[usize]) -> Result<Cgka, String> {
    let init = net.ops[0].as_ref().clone();
    let CgkaOperation::Add { added_id, pk, .. } = init.payload() else { unreachable!() };
    let mut c = Cgka::new_from_init_add(tree(), *added_id, *pk, init.clone())
        .and_then(|c| c.with_new_owner(mid(i), sks))
        .map_err(|e| format!("{e:?}"))?;
    for o in order {
        receive(&mut c, &net.ops[*o])?;
    }
    Ok(c)
}

pub fn receive(c: &mut Cgka, o: &Cop) -> Result<(), String> {
    c.merge_concurrent_operation(o.clone()).map(|_| ()).map_err(|e| format!("refused an operation: {e:?}"))
}

/// Who is in the tree.
pub fn members(c: &Cgka, n: u8) -> BTreeSet<u8> {
    (0..n)
        .filter(|i| {
            let mut c = c.clone();
            matches!(block_on(c.add::<Sendable, _>(mid(*i), leaf_key(*i, 7).0, &signer(1))), Ok(None))
        })
        .collect()
}

impl Net {
    pub fn new(n: u8, keys: Keys) -> Net {
        let (pk, _) = leaf_key(0, 0);
        let c = block_on(Cgka::new::<Sendable, _>(tree(), mid(0), pk, &signer(1))).expect("new");
        let init = Arc::new(c.init_add_op());
        let c = c.with_new_owner(mid(0), first_secrets(0)).expect("owner");
        let mut net = Net {
            n,
            keys,
            ops: vec![init],
            past: vec![Default::default()],
            author: vec![0],
            cg: vec![None; n as usize],
            known: vec![vec![]; n as usize],
            contents: vec![],
            before_update: vec![],
        };
        net.cg[0] = Some(c);
        net.known[0].push(0);
        net
    }
    fn rng(&self, by: u8, what: u8) -> det::DetRng {
        let mut k: Vec<[u8; 32]> = self.known[by as usize].iter().map(|o| ophash(&self.ops[*o])).collect();
        k.sort();
        let mut b = vec![by, what];
        for h in k {
            b.extend(h);
        }
        det::DetRng::new(det::hash64(b))
    }
    fn issue(&mut self, by: u8, op: Signed<CgkaOperation>) -> usize {
        let op = Arc::new(op);
        let h = ophash(&op);
        let ix = match self.ops.iter().position(|o| ophash(o) == h) {
            Some(i) => i,
            None => {
                self.ops.push(op);
                self.past.push(self.known[by as usize].iter().copied().collect());
                self.author.push(by);
                self.ops.len() - 1
            }
        };
        if !self.known[by as usize].contains(&ix) {
            self.known[by as usize].push(ix);
        }
        ix
    }
    pub fn push(&mut self, from: u8, to: u8) -> Result<(), String> {
        let fresh: Vec<usize> = self.known[from as usize].iter().copied().filter(|o| !self.known[to as usize].contains(o)).collect();
        let t = to as usize;
        if self.cg[t].is_none() && !self.known[from as usize].is_empty() {
            self.cg[t] = Some(replica(self, to, first_secrets(to), &[])?);
        }
        for o in fresh {
            if o != 0 {
                receive(self.cg[t].as_mut().unwrap(), &self.ops[o].clone())?;
            }
            self.known[t].push(o);
        }
        Ok(())
    }
    /// Is `x` in the tree, having seen exactly `seen`? `None`: concurrent
    /// additions and removals, either is fine.
    pub fn should_be_member(&self, x: u8, seen: &BTreeSet<usize>) -> Option<bool> {
        self.membership(x, seen, true)
    }
    fn plainly_member(&self, x: u8, seen: &BTreeSet<usize>) -> Option<bool> {
        self.membership(x, seen, false)
    }
    fn membership(&self, x: u8, seen: &BTreeSet<usize>, one_stays: bool) -> Option<bool> {
        let of = |add: bool| -> Vec<usize> {
            seen.iter()
                .copied()
                .filter(|o| match self.ops[*o].payload() {
                    CgkaOperation::Add { added_id, .. } => add && *added_id == mid(x),
                    CgkaOperation::Remove { id, .. } => !add && *id == mid(x),
                    _ => false,
                })
                .collect()
        };
        let (adds, rems) = (of(true), of(false));
        if adds.iter().any(|a| rems.iter().all(|r| self.past[*a].contains(r))) {
            return Some(true);
        }
        if adds.iter().all(|a| rems.iter().any(|r| self.past[*r].contains(a))) {
            // a tree can't become empty: when all members of a time were removed
            // concurrently, one of them stays
            let emptied = one_stays && rems.iter().any(|r| {
                let removed = |y: u8| {
                    seen.iter().any(|o| !self.past[*r].contains(o) && matches!(self.ops[*o].payload(), CgkaOperation::Remove { id, .. } if *id == mid(y)))
                };
                (0..self.n).filter(|y| self.plainly_member(*y, &self.past[*r]) != Some(false)).all(removed)
            });
            return if emptied { None } else { Some(false) };
        }
        None
    }
    pub fn seen(&self, by: u8) -> BTreeSet<usize> {
        self.known[by as usize].iter().copied().collect()
    }
    fn update(&mut self, by: u8) -> Result<(), String> {
        let b = by as usize;
        let mut rng = self.rng(by, 1);
        let sk = ShareSecretKey::generate(&mut rng);
        let before = self.cg[b].as_ref().unwrap().owner_sks.clone();
        let r = block_on(self.cg[b].as_mut().unwrap().update::<Sendable, _, _>(sk.share_key(), sk, &signer(by + 1), &mut rng));
        match r {
            Ok((_, op)) => {
                let ix = self.issue(by, op);
                self.before_update.push((by, ix, before));
                Ok(())
            }
            Err(e) => Err(format!("{e:?}")),
        }
    }
    pub fn encrypt(&mut self, by: u8) -> Result<(), String> {
        let b = by as usize;
        let mut rng = self.rng(by, 2);
        let before = self.cg[b].as_ref().unwrap().owner_sks.clone();
        let text = vec![self.contents.len() as u8 + 1; 9];
        let cr: T = [self.contents.len() as u8; 32];
        let c = self.cg[b].as_mut().unwrap();
        let (secret, op) = block_on(c.new_app_secret_for::<Sendable, _, T, _>(&cr, &text, &vec![], &signer(by + 1), &mut rng)).map_err(|e| format!("{e:?}"))?;
        let enc = secret.try_encrypt(&text).map_err(|e| format!("{e:?}"))?;
        if let Some(op) = op {
            let ix = self.issue(by, op);
            self.before_update.push((by, ix, before));
        }
        let c = self.cg[b].as_ref().unwrap();
        let root = c.clone().secret(&enc.pcs_key_hash, &enc.pcs_update_op_hash).map_err(|e| format!("{e:?}"))?;
        let members = members(c, self.n);
        self.contents.push(Content { by, text, enc, past: self.seen(by), members, root: root.0.to_bytes() });
        Ok(())
    }
    /// False: does not apply here.
    pub fn step(&mut self, m: &Mv, out: &mut Vec<(String, String)>) -> bool {
        let mut bad = |s: &str, d: String| out.push((s.into(), d));
        match *m {
            Mv::Push(a, b) => {
                if self.known[a as usize].iter().all(|o| self.known[b as usize].contains(o)) {
                    return false;
                }
                if let Err(e) = self.push(a, b) {
                    bad("refused", format!("{}: {e}", nm(b)));
                }
            }
            Mv::All => {
                for _ in 0..2 {
                    for a in 0..self.n {
                        for b in 0..self.n {
                            if a != b {
                                if let Err(e) = self.push(a, b) {
                                    bad("refused", format!("{}: {e}", nm(b)));
                                }
                            }
                        }
                    }
                }
            }
            Mv::Add(by, x) | Mv::Rem(by, x) => {
                let add = matches!(m, Mv::Add(..));
                if self.cg[by as usize].is_none() {
                    return false;
                }
                let seen = self.seen(by);
                // only members act
                if self.should_be_member(by, &seen) != Some(true) {
                    return false;
                }
                let is = self.should_be_member(x, &seen);
                let c = self.cg[by as usize].as_mut().unwrap();
                let got = if add {
                    let v = match self.keys {
                        Keys::Same => 0,
                        Keys::PerAdder => by,
                        Keys::Fresh => seen.iter().filter(|o| matches!(self.ops[**o].payload(), CgkaOperation::Add{added_id,..} if *added_id == mid(x))).count() as u8,
                    };
                    block_on(c.add::<Sendable, _>(mid(x), leaf_key(x, v).0, &signer(by + 1)))
                } else {
                    block_on(c.remove::<Sendable, _>(mid(x), &signer(by + 1)))
                };
                match got {
                    Ok(Some(op)) => {
                        if is == Some(add) {
                            bad("noop", format!("{m} did something though nothing was to be done"));
                        }
                        self.issue(by, op);
                    }
                    Ok(None) => {
                        if is == Some(!add) {
                            bad("ignored", format!("{m} was ignored"));
                        }
                        return false;
                    }
                    Err(e) => {
                        let all: Vec<_> = (0..self.n).map(|y| self.should_be_member(y, &seen)).collect();
                        let last = !add && (0..self.n).all(|y| y == x || all[y as usize] != Some(true));
                        if !last {
                            bad("failed", format!("{m}: {e:?}"));
                        }
                        return false;
                    }
                }
            }
            Mv::Upd(by) | Mv::Enc(by) => {
                if self.cg[by as usize].is_none() {
                    return false;
                }
                let is = self.should_be_member(by, &self.seen(by));
                let r = if let Mv::Upd(_) = m { self.update(by).and_then(|_| self.encrypt(by)) } else { self.encrypt(by) };
                match (is, r) {
                    (Some(true), Err(e)) => bad("failed", format!("{m}: {e}")),
                    (Some(false), Ok(())) => bad("outsider", format!("{} could update the key", nm(by))),
                    (_, Ok(())) => {}
                    _ => return false,
                }
            }
        }
        true
    }
    pub fn state(&self) -> u64 {
        let mut b: Vec<u8> = vec![];
        for (i, k) in self.known.iter().enumerate() {
            b.push(200 + i as u8);
            let mut hs: Vec<[u8; 32]> = k.iter().map(|o| ophash(&self.ops[*o])).collect();
            hs.sort();
            for h in hs {
                b.extend(h);
            }
        }
        for c in &self.contents {
            b.extend(c.enc.pcs_key_hash.raw.as_bytes());
            b.push(c.by);
        }
        det::hash64(b)
    }
    /// The operations and contents, whoever has them.
    pub fn outcome(&self) -> u64 {
        let mut hs: Vec<[u8; 32]> = self.ops.iter().map(ophash).collect();
        hs.sort();
        let mut b: Vec<u8> = hs.concat();
        let mut cs: Vec<_> = self.contents.iter().map(|c| (*c.enc.pcs_key_hash.raw.as_bytes(), c.by)).collect();
        cs.sort();
        cs.dedup();
        for (h, y) in cs {
            b.extend(h);
            b.push(y);
        }
        det::hash64(b)
    }
}
