//! Content: K04 (round trip, tampering), K05 (causal decryption), K06 (the
//! ciphertext store).
use super::api::p;
use super::sync::{first_difference, portrait};
use crate::{det, exec::block_on, explore::*, hist::*, mgraph::who, report::*, world::*};
use beekem::{encrypted::EncryptedContent, operation::CgkaOperation};
use future_form::{FutureForm, Sendable};
use keyhive_core::access::Access::*;
use keyhive_core::crypto::envelope::Envelope;
use keyhive_core::store::ciphertext::{CausalDecryptionState, CiphertextStore, CiphertextStoreExt};
use keyhive_crypto::{digest::Digest, signed::Signed, siv::Siv, symmetric_key::SymmetricKey};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Arc, Mutex as StdMutex};

type Enc = EncryptedContent<Vec<u8>, T>;
type OpHash = Digest<Signed<CgkaOperation>>;

fn digest<X: serde::Serialize>(b: &[u8]) -> Digest<X> {
    Digest { raw: blake3::hash(b), _phantom: Default::default() }
}

// ---------------------------------------------------------------- K04

fn k04_bases() -> Vec<Vec<Act>> {
    vec![
        vec![Act::Doc { by: 1, with: vec![p(2)] }, Act::All, Act::Enc { by: 1, res: 0 }, Act::All],
        // two documents, and two keys in one of them
        vec![
            Act::Doc { by: 1, with: vec![p(2)] },
            Act::Doc { by: 1, with: vec![p(2)] },
            Act::All,
            Act::Enc { by: 1, res: 0 },
            Act::Enc { by: 1, res: 1 },
            Act::Update { by: 1, res: 0 },
            Act::Enc { by: 1, res: 0 },
            Act::All,
        ],
        // the key changed after encryption
        vec![
            Act::Doc { by: 1, with: vec![p(2)] },
            Act::All,
            Act::Enc { by: 1, res: 0 },
            Act::All,
            Act::Add { by: 1, who: p(3), res: 0, can: Edit },
            Act::All,
            Act::Enc { by: 3, res: 0 },
            Act::All,
        ],
        // concurrent updates
        vec![
            Act::Doc { by: 1, with: vec![p(2)] },
            Act::All,
            Act::Enc { by: 1, res: 0 },
            Act::Enc { by: 2, res: 0 },
            Act::All,
        ],
    ]
}

/// Variations of message `m`, with what was done to it.
fn variations(sys: &Sys, m: usize, bits: &[u8]) -> Vec<(String, Enc)> {
    let x = &sys.msgs[m].enc;
    let bytes = bincode::serialize(x).unwrap();
    let mut out = vec![];
    for at in 0..bytes.len() {
        for bit in bits {
            let mut b = bytes.clone();
            b[at] ^= bit;
            if let Ok(t) = bincode::deserialize::<Enc>(&b) {
                out.push((format!("byte{at}^{bit}"), t));
            }
        }
    }
    for n in 0..x.ciphertext.len() {
        let mut t = x.clone();
        t.ciphertext.truncate(n);
        out.push((format!("first{n}"), t));
    }
    let mut t = x.clone();
    t.ciphertext.push(0);
    out.push(("longer".into(), t));
    for (n, o) in sys.msgs.iter().enumerate() {
        let o = &o.enc;
        for part in 0..6 {
            let mut t = x.clone();
            match part {
                0 => t.nonce = o.nonce,
                1 => t.ciphertext = o.ciphertext.clone(),
                2 => t.pcs_key_hash = o.pcs_key_hash,
                3 => t.pcs_update_op_hash = o.pcs_update_op_hash,
                4 => t.content_ref = o.content_ref,
                _ => t.pred_refs = o.pred_refs,
            }
            out.push((format!("part{part}-of-{n}"), t));
        }
    }
    for (n, e) in sys.pool.iter().enumerate() {
        if let Ev::CgkaOperation(op) = e {
            let mut t = x.clone();
            t.pcs_update_op_hash = Digest::hash(op.as_ref());
            out.push((format!("op{n}"), t.clone()));
            t.pcs_key_hash = digest(b"no such key");
            out.push((format!("nokey-op{n}"), t));
        }
    }
    out.retain(|(_, t)| t != x);
    out
}

struct Tried {
    got: Option<Vec<u8>>,
    state: BTreeMap<String, String>,
    next: Option<Vec<u8>>,
}

/// What reader `at`, which hasn't read anything yet, makes of variation `what`
/// of message `m`, and what comes after.
async fn try_variation(sys: &mut Sys, m: usize, at: u8, what: Option<Enc>) -> Tried {
    let res = sys.msgs[m].res;
    let doc = sys.doc(at, res).await;
    let got = match (&doc, what) {
        (Some(d), Some(e)) => sys.at(at).try_decrypt_content(d.clone(), &e).await.ok(),
        _ => None,
    };
    let next = match &doc {
        Some(d) => sys
            .at(at)
            .try_encrypt_content(d.clone(), &[77; 32], &vec![], b"next")
            .await
            .ok()
            .map(|e| bincode::serialize(e.encrypted_content()).unwrap()),
        None => None,
    };
    Tried { got, state: portrait(sys, sys.at(at)).await, next }
}

pub fn k04(r: &mut Report) {
    let t = r.tier;
    let bits: &[u8] = t.pick(&[1, 0x80], &[1, 2, 4, 8, 16, 32, 64, 128]);
    let cfg = Cfg { replicas: 3, ..Default::default() };
    k04_round_trips(r, t);
    let bases = k04_bases();
    let mut items: Vec<(usize, usize, u8)> = vec![];
    for (b, h) in bases.iter().enumerate() {
        match rerun(&cfg, h, || hname(h), |sys| Box::pin(async move { sys.msgs.len() })) {
            Ok(n) => items.extend((0..n).flat_map(|m| [1, 2, 3].map(|at| (b, m, at)))),
            Err(e) => r.violation(&format!("{}:abort", hname(h)), e.to_string(), json!({})),
        }
    }
    let r = &*r;
    let work: Vec<(usize, usize, u8, String, Enc, Arc<Tried>, Vec<u8>)> = items
        .iter()
        .flat_map(|&(b, m, at)| {
            let h = &bases[b];
            let got = rerun(
                &cfg,
                h,
                || hname(h),
                |sys| {
                    Box::pin(async move {
                        let vs = variations(sys, m, bits);
                        let text = sys.msgs[m].text.clone();
                        (vs, text, try_variation(sys, m, at, None).await)
                    })
                },
            );
            match got {
                Err(e) => {
                    r.violation(&format!("{}:{m}:{}:abort", hname(h), who(at)), e.to_string(), json!({"history": hname(h)}));
                    vec![]
                }
                Ok((vs, text, plain)) => {
                    let plain = Arc::new(plain);
                    vs.into_iter().map(|(w, e)| (b, m, at, w, e, plain.clone(), text.clone())).collect()
                }
            }
        })
        .collect();
    par_each(&work, THREADS, |_, (b, m, at, what, enc, plain, text)| {
        let h = &bases[*b];
        let bad = |sym: &str, d: String| {
            r.violation(
                &format!("{}:{m}:{}:{what}:{sym}", hname(h), who(*at)),
                d,
                json!({"history": hname(h), "message": m, "reader": who(*at), "change": what}),
            )
        };
        r.execution();
        r.compared(1);
        r.transitions(h.len() as u64 + 2);
        match rerun(&cfg, h, || hname(h), |sys| Box::pin(try_variation(sys, *m, *at, Some(enc.clone())))) {
            Err(e) => bad("abort", e.to_string()),
            Ok(got) => {
                r.outcome(match &got.got {
                    None => "refused",
                    Some(_) => "same plaintext",
                });
                if got.got.as_ref().is_some_and(|g| g != text) {
                    bad("accepted", format!("decrypted to {:?}, which nobody wrote", got.got));
                }
                if let Some((w, x, y)) = first_difference(&plain.state, &got.state) {
                    bad("state", format!("{w} without the attempt: {x}; after it: {y}"));
                }
                if got.next != plain.next {
                    bad("next", "what the reader encrypts next differs because of the attempt".into());
                }
            }
        }
    });
    r.bound("replicas", 3);
    r.bound("bits", bits.len());
}

fn k04_round_trips(r: &Report, t: Tier) {
    let lens: Vec<usize> = t.pick((0..20).chain([31, 32, 33, 63, 64, 65, 255, 256]).collect(), (0..300).chain([1023, 1024, 4096, 65536]).collect());
    let got = det::run(0, || {
        block_on(async {
            let mut v: Vec<(String, String)> = vec![];
            let mut n = 0u64;
            let mut sys = Sys::new(3, false).await;
            for a in [Act::Doc { by: 1, with: vec![p(2)] }, Act::Doc { by: 1, with: vec![p(2)] }, Act::All] {
                sys.apply(&a).await;
            }
            // (key, nonce) to plaintext, key to what it was derived for
            let mut used: BTreeMap<(Vec<u8>, [u8; 24]), Vec<u8>> = Default::default();
            let mut keys: BTreeMap<Vec<u8>, String> = Default::default();
            let preds: Vec<Vec<T>> = vec![vec![], vec![[1; 32]], vec![[2; 32]], vec![[1; 32], [2; 32]], vec![[2; 32], [1; 32]]];
            for round in 0..3u8 {
                for doc in 0..2usize {
                    for by in [1u8, 2] {
                        for len in &lens {
                            for (pi, pred) in preds.iter().enumerate() {
                                if pi > 0 && *len > 2 {
                                    continue;
                                }
                                for (fill, cr) in [(0u8, [9u8; 32]), (1, [9; 32]), (0, [by + 10; 32])] {
                                    n += 1;
                                    let text = vec![fill; *len];
                                    let name = format!("round{round}-doc{doc}-{}-len{len}-preds{pi}-fill{fill}-ref{}", who(by), cr[0]);
                                    let d = sys.doc(by, doc).await.unwrap();
                                    let (out, key) = match sys.at(by).try_encrypt_content_keyed(d, &cr, pred, &text).await {
                                        Ok(x) => x,
                                        Err(e) => {
                                            v.push((name, format!("encryption failed: {e:?}")));
                                            continue;
                                        }
                                    };
                                    sys.collect(by as usize - 1).await;
                                    if out.update_op().is_some() {
                                        sys.all().await;
                                    }
                                    let e = out.encrypted_content().clone();
                                    if e.ciphertext.windows((*len).max(1)).any(|w| *len >= 8 && w == &text[..]) {
                                        v.push((format!("{name}:plain"), "the ciphertext contains the plaintext".into()));
                                    }
                                    for i in [1u8, 2] {
                                        let d = sys.doc(i, doc).await.unwrap();
                                        match sys.at(i).try_decrypt_content_keyed(d, &e).await {
                                            Ok((x, k)) if x == text && k == key => {}
                                            Ok((x, k)) => v.push((format!("{name}:{}:wrong", who(i)), format!("{} bytes, same: {}, same key: {}", x.len(), x == text, k == key))),
                                            Err(x) => v.push((format!("{name}:{}", who(i)), format!("{x}"))),
                                        }
                                        let other = sys.doc(i, 1 - doc).await.unwrap();
                                        if sys.at(i).try_decrypt_content(other, &e).await.is_ok() {
                                            v.push((format!("{name}:{}:other", who(i)), "content of one document decrypts as that of another".into()));
                                        }
                                    }
                                    let k = key.as_slice().to_vec();
                                    let of = format!("doc{doc} ref{} preds{pi} key{:?}", cr[0], e.pcs_key_hash);
                                    if *keys.entry(k.clone()).or_insert(of.clone()) != of {
                                        v.push((format!("{name}:key"), format!("the same key serves {of} and {}", keys[&k])));
                                    }
                                    if *used.entry((k, *e.nonce.as_bytes())).or_insert(text.clone()) != text {
                                        v.push((format!("{name}:nonce"), "the same key and nonce encrypt two different contents".into()));
                                    }
                                }
                            }
                        }
                    }
                }
                sys.apply(&Act::Update { by: 1 + round % 2, res: 0 }).await;
                sys.apply(&Act::Update { by: 1 + round % 2, res: 1 }).await;
                sys.all().await;
            }
            (v, n, used.len())
        })
    });
    match got {
        Err(e) => r.violation("round-trips:abort", e.to_string(), json!({})),
        Ok((v, n, used)) => {
            r.execution();
            r.compared(4 * n);
            r.transitions(n);
            r.outcome(format!("{used} distinct uses of keys"));
            for (k, d) in v {
                r.violation(&k, d, json!({}));
            }
        }
    }
}

// ---------------------------------------------------------------- K05

/// What is wrong with a piece of content.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Fate {
    Stored,
    Missing,
    /// the stored ciphertext was damaged
    Damaged,
    /// it decrypts, but to nothing sensible
    Garbage,
    /// the store fails to look it up
    Unavailable,
}
use Fate::*;

/// A store whose lookups and marks can fail.
struct Faulty {
    have: BTreeMap<T, Arc<Enc>>,
    unavailable: BTreeSet<T>,
    unmarkable: BTreeSet<T>,
    marked: StdMutex<Vec<T>>,
}

impl CiphertextStore<Sendable, T, Vec<u8>> for Faulty {
    type GetCiphertextError = String;
    type MarkDecryptedError = String;
    fn get_ciphertext<'a>(
        &'a self,
        id: &'a T,
    ) -> <Sendable as FutureForm>::Future<'a, Result<Option<Arc<Enc>>, String>> {
        Box::pin(async move {
            if self.unavailable.contains(id) {
                return Err("unavailable".into());
            }
            Ok(self.have.get(id).cloned())
        })
    }
    fn get_ciphertext_by_pcs_update<'a>(
        &'a self,
        _: &'a OpHash,
    ) -> <Sendable as FutureForm>::Future<'a, Result<Vec<Arc<Enc>>, String>> {
        Box::pin(async move { Ok(vec![]) })
    }
    fn mark_decrypted<'a>(&'a self, id: &'a T) -> <Sendable as FutureForm>::Future<'a, Result<(), String>> {
        Box::pin(async move {
            if self.unmarkable.contains(id) {
                return Err("unmarkable".into());
            }
            self.marked.lock().unwrap().push(*id);
            Ok(())
        })
    }
}

#[derive(Clone, Debug)]
struct Dag {
    n: usize,
    /// i refers to j (j < i)
    edges: Vec<(usize, usize)>,
    /// references with a wrong key
    wrong: Vec<(usize, usize)>,
    fate: Vec<Fate>,
    entries: Vec<usize>,
    unmarkable: Option<usize>,
}

fn cr(i: usize) -> T {
    [i as u8 + 1; 32]
}
fn key(i: usize) -> SymmetricKey {
    [i as u8 + 101; 32].into()
}
fn wrong_key(i: usize) -> SymmetricKey {
    [i as u8 + 201; 32].into()
}
fn text(i: usize) -> Vec<u8> {
    vec![i as u8; i + 1]
}

impl Dag {
    fn name(&self) -> String {
        let e: Vec<String> = self.edges.iter().map(|(i, j)| format!("{i}{}{j}", if self.wrong.contains(&(*i, *j)) { "!" } else { ">" })).collect();
        let f: String = self.fate.iter().map(|f| match f {
            Stored => 's',
            Missing => 'm',
            Damaged => 'd',
            Garbage => 'g',
            Unavailable => 'u',
        }).collect();
        format!("{}:{f}:{:?}{}", e.join(","), self.entries, self.unmarkable.map(|u| format!(":unmarkable{u}")).unwrap_or_default())
    }
    fn content(&self, i: usize) -> Arc<Enc> {
        let k = key(i);
        let ancestors: HashMap<T, SymmetricKey> = self
            .edges
            .iter()
            .filter(|(a, _)| *a == i)
            .map(|(a, j)| (cr(*j), if self.wrong.contains(&(*a, *j)) { wrong_key(*j) } else { key(*j) }))
            .collect();
        let mut bytes = match self.fate[i] {
            Garbage => vec![0xff; 3],
            _ => bincode::serialize(&Envelope { plaintext: text(i), ancestors }).unwrap(),
        };
        let nonce = Siv::new(&k, &bytes, b"doc");
        k.try_encrypt(nonce, &mut bytes).unwrap();
        if self.fate[i] == Damaged {
            bytes[0] ^= 1;
        }
        Arc::new(Enc::new(nonce, bytes, digest(b"key"), digest(b"op"), cr(i), Digest::hash(&vec![])))
    }
    /// What is decrypted, what is left to fetch (with the keys known for it),
    /// and what is refused.
    fn expected(&self) -> (BTreeSet<usize>, BTreeMap<usize, BTreeSet<bool>>, BTreeSet<usize>) {
        let mut done = BTreeSet::new();
        let mut next: BTreeMap<usize, BTreeSet<bool>> = Default::default();
        let mut tried: BTreeSet<usize> = self.entries.iter().copied().collect();
        let mut todo: Vec<usize> = self.entries.clone();
        while let Some(i) = todo.pop() {
            if matches!(self.fate[i], Damaged | Garbage) || !done.insert(i) {
                continue;
            }
            for (a, j) in &self.edges {
                if a != &i {
                    continue;
                }
                let right = !self.wrong.contains(&(*a, *j));
                match self.fate[*j] {
                    Missing | Unavailable => {
                        next.entry(*j).or_default().insert(right);
                    }
                    _ => {
                        tried.insert(*j);
                        if right {
                            todo.push(*j);
                        }
                    }
                }
            }
        }
        next.retain(|i, _| !done.contains(i));
        let refused = tried.into_iter().filter(|i| !done.contains(i)).collect();
        (done, next, refused)
    }
}

fn dags(t: Tier) -> Vec<Dag> {
    let mut out = vec![];
    let max = t.pick(4, 5);
    for n in 2..=max {
        let pairs: Vec<(usize, usize)> = (0..n).flat_map(|i| (0..i).map(move |j| (i, j))).collect();
        for mask in 0u32..1 << pairs.len() {
            let edges: Vec<_> = pairs.iter().enumerate().filter(|(b, _)| mask & (1 << b) != 0).map(|(_, e)| *e).collect();
            // connected from the entries
            for entries in [vec![n - 1], vec![n - 1, n - 2], vec![n - 2, n - 1]] {
                let mut reach: BTreeSet<usize> = entries.iter().copied().collect();
                for i in (0..n).rev() {
                    if reach.contains(&i) {
                        reach.extend(edges.iter().filter(|(a, _)| *a == i).map(|(_, j)| *j));
                    }
                }
                if reach.len() != n {
                    continue;
                }
                let budget = if n <= 3 { 2 } else if n == 4 { t.pick(1, 2) } else { 1 };
                // up to `budget` things wrong
                let mut faults: Vec<(Vec<Fate>, Vec<(usize, usize)>)> = vec![(vec![Stored; n], vec![])];
                for _ in 0..budget {
                    let mut more = vec![];
                    for (f, w) in &faults {
                        for i in 0..n {
                            for x in [Missing, Damaged, Garbage, Unavailable] {
                                if f[i] == Stored {
                                    let mut f = f.clone();
                                    f[i] = x;
                                    more.push((f, w.clone()));
                                }
                            }
                        }
                        for e in &edges {
                            if !w.contains(e) {
                                let mut w = w.clone();
                                w.push(*e);
                                w.sort();
                                more.push((f.clone(), w));
                            }
                        }
                    }
                    faults.extend(more);
                }
                let mut seen = BTreeSet::new();
                for (fate, wrong) in faults {
                    let d = Dag { n, edges: edges.clone(), wrong, fate, entries: entries.clone(), unmarkable: None };
                    if seen.insert(d.name()) {
                        let clean = d.wrong.is_empty() && d.fate.iter().all(|f| *f == Stored);
                        out.push(d.clone());
                        if clean {
                            out.extend((0..n).map(|u| Dag { unmarkable: Some(u), ..d.clone() }));
                        }
                    }
                }
            }
        }
    }
    // longer ones, with each one or two things wrong
    let n = 9usize;
    let shapes: Vec<Vec<(usize, usize)>> = vec![
        // a line
        (1..n).map(|i| (i, i - 1)).collect(),
        // all that came before
        (0..n).flat_map(|i| (0..i).map(move |j| (i, j))).collect(),
        // one with all the others
        (0..n - 1).map(|j| (n - 1, j)).collect(),
        // the last two
        (1..n).flat_map(|i| (i.saturating_sub(2)..i).map(move |j| (i, j))).collect(),
        // two lines that meet at both ends
        (2..n - 1).map(|i| (i, i - 2)).chain([(1, 0), (n - 1, n - 2), (n - 1, n - 3)]).collect(),
        // a tree
        (0..n - 1).map(|j| (n - 1 - (n - 2 - j) / 2, j)).collect(),
    ];
    for edges in shapes {
        for entries in [vec![n - 1], vec![n - 1, n / 2], vec![n / 2, n - 1]] {
            let clean = Dag { n, edges: edges.clone(), wrong: vec![], fate: vec![Stored; n], entries, unmarkable: None };
            let mut one: Vec<Dag> = vec![];
            for i in 0..n {
                for x in [Missing, Damaged, Garbage, Unavailable] {
                    let mut d = clean.clone();
                    d.fate[i] = x;
                    one.push(d);
                }
            }
            for e in &edges {
                one.push(Dag { wrong: vec![*e], ..clean.clone() });
            }
            let mut two: Vec<Dag> = vec![];
            for (k, d) in one.iter().enumerate() {
                for i in (k % 2..n).step_by(t.pick(3, 1)) {
                    for x in [Missing, Damaged] {
                        if d.fate[i] == Stored {
                            let mut d = d.clone();
                            d.fate[i] = x;
                            two.push(d);
                        }
                    }
                }
            }
            out.extend((0..n).map(|u| Dag { unmarkable: Some(u), ..clean.clone() }));
            out.push(clean);
            out.extend(one);
            out.extend(two);
        }
    }
    out
}

fn index(c: &T) -> usize {
    c[0] as usize - 1
}

/// Compares what causal decryption reports with what it should.
fn judge(d: &Dag, state: &CausalDecryptionState<T, Vec<u8>>, cannot: Option<BTreeSet<usize>>, marked: &[T]) -> Vec<(&'static str, String)> {
    let (done, next, refused) = d.expected();
    let mut v = vec![];
    let got: Vec<usize> = state.complete.iter().map(|(c, _)| index(c)).collect();
    let set: BTreeSet<usize> = got.iter().copied().collect();
    if set != done {
        v.push(("complete", format!("decrypted {set:?}, should be {done:?}")));
    }
    if set.len() != got.len() {
        v.push(("twice", format!("decrypted {got:?}")));
    }
    for (c, t) in &state.complete {
        if *t != text(index(c)) {
            v.push(("plaintext", format!("{} has the wrong plaintext", index(c))));
        }
    }
    let keys: BTreeMap<usize, bool> = state.keys.iter().map(|(c, k)| (index(c), *k == key(index(c)))).collect();
    if done.iter().any(|i| keys.get(i) != Some(&true)) || keys.keys().any(|i| !done.contains(i) && !refused.contains(i)) {
        v.push(("keys", format!("reports keys (and whether they're right) {keys:?} for decrypted {done:?}")));
    }
    let left: BTreeSet<usize> = state.next.keys().map(index).collect();
    if left != next.keys().copied().collect() {
        v.push(("next", format!("left to fetch {left:?}, should be {:?}", next.keys())));
    }
    for (c, k) in &state.next {
        let right = *k == key(index(c));
        if let Some(ks) = next.get(&index(c)) {
            if !ks.contains(&right) {
                v.push(("next-key", format!("wrong key for {}", index(c))));
            }
        }
    }
    let mut fail = refused;
    fail.extend(next.keys().filter(|j| d.fate[**j] == Unavailable));
    fail.extend(d.unmarkable.filter(|u| done.contains(u)));
    let cannot = cannot.unwrap_or_default();
    if cannot != fail {
        v.push(("cannot", format!("reports failure of {cannot:?}, should be {fail:?}")));
    }
    let m: BTreeSet<usize> = marked.iter().map(index).collect();
    let want: BTreeSet<usize> = done.iter().copied().filter(|i| Some(*i) != d.unmarkable).collect();
    if m != want {
        v.push(("marked", format!("marked as decrypted {m:?}, should be {want:?}")));
    }
    v
}

pub fn k05(r: &mut Report) {
    let t = r.tier;
    let all = dags(t);
    r.bound("contents, every graph", t.pick(4, 5));
    r.bound("contents, longer families", 9);
    r.bound("graphs", all.len());
    {
        let r = &*r;
        par_each(&all, THREADS, |_, d| {
            for seed in 0..t.pick(2, 3) {
                let bad = |sym: &str, x: String| r.violation(&format!("{}:{sym}", d.name()), format!("{x} (hash seed {seed})"), json!({"graph": d.name(), "seed": seed}));
                r.execution();
                r.compared(1);
                r.transitions(d.n as u64);
                let got = det::run(seed, || {
                    block_on(async {
                        let at = |f: Fate| (0..d.n).filter(|i| d.fate[*i] == f).map(cr).collect::<BTreeSet<T>>();
                        let store = Faulty {
                            have: (0..d.n).filter(|i| d.fate[*i] != Missing).map(|i| (cr(i), d.content(i))).collect(),
                            unavailable: at(Unavailable),
                            unmarkable: d.unmarkable.iter().map(|u| cr(*u)).collect(),
                            marked: Default::default(),
                        };
                        let mut todo: Vec<(Arc<Enc>, SymmetricKey)> = d.entries.iter().map(|i| (d.content(*i), key(*i))).collect();
                        let out = CiphertextStoreExt::<Sendable, _, _>::try_causal_decrypt(&store, &mut todo).await;
                        let marked = store.marked.lock().unwrap().clone();
                        match out {
                            Ok(s) => judge(d, &s, None, &marked),
                            Err(e) => judge(d, &e.progress, Some(e.cannot.keys().map(index).collect()), &marked),
                        }
                    })
                });
                match got {
                    Err(e) => bad("abort", e.to_string()),
                    Ok(v) => {
                        r.outcome(if v.is_empty() { "as expected" } else { "differs" });
                        for (s, x) in v {
                            bad(s, x);
                        }
                    }
                }
            }
        });
    }
    k05_documents(r);
}

/// Causal decryption through a real document: every graph of up to `n` pieces
/// of content, every subset of them stored at the reader.
fn k05_documents(r: &Report) {
    let n = r.tier.pick(3usize, 4);
    let pairs: Vec<(usize, usize)> = (0..n).flat_map(|i| (0..i).map(move |j| (i, j))).collect();
    let mut cases = vec![];
    for mask in 0u32..1 << pairs.len() {
        for missing in 0u32..1 << (n - 1) {
            for reader in [1u8, 2, 3] {
                cases.push((mask, missing, reader));
            }
        }
    }
    par_each(&cases, THREADS, |_, (mask, missing, reader)| {
        let edges: Vec<_> = pairs.iter().enumerate().filter(|(b, _)| mask & (1 << b) != 0).map(|(_, e)| *e).collect();
        let fate: Vec<Fate> = (0..n).map(|i| if missing & (1 << i) != 0 { Missing } else { Stored }).collect();
        let d = Dag { n, edges, wrong: vec![], fate, entries: vec![n - 1], unmarkable: None };
        let name = format!("document:{}:{}", d.name(), who(*reader));
        r.execution();
        r.compared(1);
        r.transitions(n as u64 + 3);
        let got = det::run_labelled(0, || name.clone(), || {
            block_on(async {
                let mut sys = Sys::new(3, false).await;
                for a in [Act::Doc { by: 1, with: vec![p(2)] }, Act::All, Act::Update { by: 1, res: 0 }, Act::All] {
                    sys.apply(&a).await;
                }
                let doc = sys.doc(1, 0).await.unwrap();
                let mut made: Vec<(Enc, SymmetricKey)> = vec![];
                for i in 0..n {
                    let preds: Vec<usize> = d.edges.iter().filter(|(a, _)| *a == i).map(|(_, j)| *j).collect();
                    let env = Envelope { plaintext: text(i), ancestors: preds.iter().map(|j| (cr(*j), made[*j].1)).collect::<HashMap<T, _>>() };
                    let (e, k) = sys
                        .at(1)
                        .try_encrypt_content_keyed(doc.clone(), &cr(i), &preds.iter().map(|j| cr(*j)).collect(), &bincode::serialize(&env).unwrap())
                        .await
                        .unwrap();
                    made.push((e.encrypted_content().clone(), k));
                }
                let kh = sys.at(*reader);
                // the store is shared by its clones, but not reachable from the replica
                let store = Store::new();
                for i in 0..n {
                    if d.fate[i] == Stored {
                        store.insert(Arc::new(made[i].0.clone())).await;
                    }
                }
                let Some(doc) = kh.get_document(sys.res[0].into()).await else { return vec![] };
                let got = doc.lock().await.try_causal_decrypt_content(&made[n - 1].0, store.clone()).await;
                let mut v: Vec<(&str, String)> = vec![];
                match (got, *reader) {
                    (Ok(_), 3) => v.push(("outsider", "somebody who isn't a member decrypted content".into())),
                    (Err(_), 3) => {}
                    (Err(e), _) => v.push(("failed", format!("{e:?}"))),
                    (Ok(s), _) => {
                        let (mut done, next, _) = d.expected();
                        // the entry point was the caller's
                        done.remove(&(n - 1));
                        let set: BTreeSet<usize> = s.complete.iter().map(|(c, _)| index(c)).filter(|i| *i != n - 1).collect();
                        if set != done {
                            v.push(("complete", format!("decrypted {set:?}, should be {done:?}")));
                        }
                        for (c, t) in &s.complete {
                            if *t != text(index(c)) {
                                v.push(("plaintext", format!("{} has the wrong plaintext", index(c))));
                            }
                        }
                        for i in &done {
                            if s.keys.get(&cr(*i)) != Some(&made[*i].1) {
                                v.push(("keys", format!("the key of {i} is missing or wrong")));
                            }
                        }
                        let left: BTreeSet<usize> = s.next.keys().map(index).collect();
                        if left != next.keys().copied().collect() {
                            v.push(("next", format!("left to fetch {left:?}, should be {:?}", next.keys())));
                        }
                        for (c, k) in &s.next {
                            if *k != made[index(c)].1 {
                                v.push(("next-key", format!("wrong key for {}", index(c))));
                            }
                        }
                    }
                }
                v
            })
        });
        match got {
            Err(e) => r.violation(&format!("{name}:abort"), e.to_string(), json!({})),
            Ok(v) => {
                for (s, x) in v {
                    r.violation(&format!("{name}:{s}"), x, json!({"graph": d.name()}));
                }
            }
        }
    });
}

// ---------------------------------------------------------------- K06

#[derive(Clone, Copy, Debug)]
enum StoreOp {
    Insert(usize),
    Remove(usize),
    RemoveAll(usize),
}

fn item(i: usize) -> Enc {
    // reference, key update, size
    let (c, o, s) = (i & 1, (i >> 1) & 1, (i >> 2) & 1);
    Enc::new([0u8; 24].into(), vec![i as u8; 1 + s], digest(b"key"), digest(&[o as u8]), cr(c), Digest::hash(&vec![]))
}

pub fn k06(r: &mut Report) {
    let depth = r.tier.pick(5usize, 6);
    let ops: Vec<StoreOp> = (0..8)
        .map(StoreOp::Insert)
        .chain((0..8).map(StoreOp::Remove))
        .chain((0..2).map(StoreOp::RemoveAll))
        .collect();
    let starts: Vec<(StoreOp, StoreOp)> = ops.iter().flat_map(|a| ops.iter().map(move |b| (*a, *b))).collect();
    let items: Vec<Arc<Enc>> = (0..8).map(|i| Arc::new(item(i))).collect();
    let digests: Vec<_> = items.iter().map(|e| Digest::hash(e.as_ref())).collect();
    let name = |h: &[StoreOp]| {
        h.iter()
            .map(|o| match o {
                StoreOp::Insert(i) => format!("+{i}"),
                StoreOp::Remove(i) => format!("-{i}"),
                StoreOp::RemoveAll(c) => format!("-ref{c}"),
            })
            .collect::<Vec<_>>()
            .join(",")
    };
    let r = &*r;
    par_each(&starts, THREADS, |_, (a, b)| {
        let found = det::run(0, || {
            block_on(async {
                let mut found: Vec<(String, String)> = vec![];
                let mut n = 0u64;
                let mut todo: Vec<Vec<StoreOp>> = vec![vec![*a, *b]];
                while let Some(h) = todo.pop() {
                    n += 1;
                    let store = Store::new();
                    let mut model: BTreeSet<usize> = Default::default();
                    let mut bad: Option<String> = None;
                    for (k, o) in h.iter().enumerate() {
                        let last = k + 1 == h.len();
                        let note = match o {
                            StoreOp::Insert(i) => {
                                store.insert(items[*i].clone()).await;
                                model.insert(*i);
                                None
                            }
                            StoreOp::Remove(i) => {
                                let had = model.remove(i);
                                let got = store.remove(&digests[*i]).await;
                                (got.as_deref() != had.then(|| items[*i].as_ref())).then(|| format!("removing {i} returned {}", got.is_some()))
                            }
                            StoreOp::RemoveAll(c) => {
                                let had = model.iter().any(|i| i & 1 == *c);
                                model.retain(|i| i & 1 != *c);
                                // marking as decrypted is the same thing
                                let got = if last || k % 2 == 0 {
                                    store.remove_all(&cr(*c)).await
                                } else {
                                    CiphertextStore::<Sendable, _, _>::mark_decrypted(&store, &cr(*c)).await.unwrap();
                                    had
                                };
                                (got != had).then(|| format!("removing everything for {c} returned {got}"))
                            }
                        };
                        if last {
                            bad = note;
                        }
                    }
                    for c in 0..2usize {
                        let got = CiphertextStore::<Sendable, _, _>::get_ciphertext(&store, &cr(c)).await.unwrap();
                        let mine: Vec<usize> = model.iter().copied().filter(|i| i & 1 == c).collect();
                        let big = mine.iter().map(|i| items[*i].ciphertext.len()).max();
                        let ok = match &got {
                            None => mine.is_empty(),
                            Some(g) => mine.iter().any(|i| *items[*i] == **g) && Some(g.ciphertext.len()) == big,
                        };
                        if !ok && bad.is_none() {
                            bad = Some(format!("looking up {c} yields {:?}, stored are {mine:?}", got.map(|g| g.ciphertext[0])));
                        }
                    }
                    for o in 0..3u8 {
                        let got: BTreeSet<usize> = CiphertextStore::<Sendable, _, _>::get_ciphertext_by_pcs_update(&store, &digest(&[o]))
                            .await
                            .unwrap()
                            .iter()
                            .map(|e| items.iter().position(|i| i == e).unwrap_or(99))
                            .collect();
                        let want: BTreeSet<usize> = model.iter().copied().filter(|i| ((i >> 1) & 1) as u8 == o && o < 2).collect();
                        if got != want && bad.is_none() {
                            bad = Some(format!("looking up key update {o} yields {got:?}, should be {want:?}"));
                        }
                    }
                    match bad {
                        Some(d) => found.push((name(&h), d)),
                        None if h.len() < depth => {
                            for o in &ops {
                                let mut x = h.clone();
                                x.push(*o);
                                todo.push(x);
                            }
                        }
                        None => {}
                    }
                }
                (found, n)
            })
        });
        match found {
            Err(e) => r.violation(&format!("{}:abort", name(&[*a, *b])), e.to_string(), json!({})),
            Ok((f, n)) => {
                r.compared(5 * n);
                r.transitions(n);
                for _ in 0..n {
                    r.execution();
                }
                r.outcome(format!("{} sequences", n));
                for (k, d) in f {
                    r.violation(&k, d, json!({"sequence": k}));
                }
            }
        }
    });
    r.bound("depth", depth);
    r.bound("ciphertexts", 8);
}
