//! Verdicts: evidence file, VIOLATION / KNOWN-FINDING lines, replay artefacts.
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn pick<T>(self, quick: T, thorough: T) -> T {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
}

struct Viol {
    detail: String,
    replay: Value,
    count: u64,
}

#[derive(Default)]
struct Inner {
    states: HashSet<u64>,
    outcomes: BTreeMap<String, u64>,
    transitions: u64,
    executions: u64,
    compared: u64,
    samples: Vec<Value>,
    viol: BTreeMap<String, Viol>,
    bounds: Map<String, Value>,
    exhaustive: bool,
    caps: Vec<String>,
}

pub struct Report {
    pub id: String,
    pub tier: Tier,
    start: Instant,
    inner: Mutex<Inner>,
    assumptions: Mutex<Vec<String>>,
}

pub struct Finding {
    pub property: String,
    pub keys: BTreeSet<String>,
    pub what: String,
}

pub fn root() -> std::path::PathBuf {
    std::env::var("VERIF_ROOT").map(Into::into).unwrap_or_else(|_| "/verif".into())
}

pub fn load_findings() -> Vec<Finding> {
    let path = root().join("known-findings.txt");
    let text = std::fs::read_to_string(path).unwrap_or_default();
    let mut out = vec![];
    for line in text.lines() {
        let Some(rest) = line.strip_prefix("finding: ") else { continue };
        let mut f = Finding { property: String::new(), keys: BTreeSet::new(), what: String::new() };
        let mut what = vec![];
        for tok in rest.split(' ') {
            if let Some(v) = tok.strip_prefix("property=") {
                f.property = v.into();
            } else if let Some(v) = tok.strip_prefix("key=") {
                f.keys.insert(v.into());
            } else if let Some(v) = tok.strip_prefix("keyfile=") {
                let t = std::fs::read_to_string(root().join(v)).unwrap_or_default();
                f.keys.extend(t.lines().filter(|l| !l.is_empty()).map(String::from));
            } else {
                what.push(tok);
            }
        }
        f.what = what.join(" ");
        out.push(f);
    }
    out
}

/// Replay artefact and evidence for a verdict reached without `Report::finish`.
pub fn emergency(id: &str, tier: Tier, key: &str, detail: &str) -> String {
    let rdir = root().join("evidence").join("replay");
    let _ = std::fs::create_dir_all(&rdir);
    let h = blake3::hash(key.as_bytes()).to_hex();
    let path = rdir.join(format!("{id}-{}.json", &h.as_str()[..12]));
    let art = json!({"property": id, "tier": tier.pick("quick", "thorough"), "key": key, "detail": detail});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&art).unwrap());
    println!("  {key}: {detail}");
    path.display().to_string()
}

impl Report {
    pub fn new(id: &str, tier: Tier) -> Self {
        Report {
            id: id.into(),
            tier,
            start: Instant::now(),
            inner: Mutex::new(Inner { exhaustive: true, ..Default::default() }),
            assumptions: Mutex::new(vec![]),
        }
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.into());
    }
    pub fn bound(&self, k: &str, v: impl Into<Value>) {
        self.inner.lock().unwrap().bounds.insert(k.into(), v.into());
    }
    /// One distinct observed state of the system under test.
    pub fn state(&self, h: u64) {
        self.inner.lock().unwrap().states.insert(h);
    }
    pub fn states<I: IntoIterator<Item = u64>>(&self, hs: I) {
        self.inner.lock().unwrap().states.extend(hs);
    }
    /// Operations applied to the system under test.
    pub fn transitions(&self, n: u64) {
        self.inner.lock().unwrap().transitions += n;
    }
    /// Executions of the real implementation.
    pub fn execution(&self) {
        self.inner.lock().unwrap().executions += 1;
    }
    /// Executions whose result was compared with the reference model / oracle.
    pub fn compared(&self, n: u64) {
        self.inner.lock().unwrap().compared += n;
    }
    pub fn outcome(&self, s: impl Into<String>) {
        *self.inner.lock().unwrap().outcomes.entry(s.into()).or_default() += 1;
    }
    pub fn sample(&self, f: impl FnOnce() -> Value) {
        let mut g = self.inner.lock().unwrap();
        if g.samples.len() < 6 {
            let v = f();
            g.samples.push(v);
        }
    }
    pub fn cap(&self, s: &str) {
        let mut g = self.inner.lock().unwrap();
        g.exhaustive = false;
        g.caps.push(s.into());
    }
    /// `key` identifies the failing input/history and the symptom; no spaces.
    pub fn violation(&self, key: &str, detail: impl Into<String>, replay: Value) {
        let key: String = key.split_whitespace().collect::<Vec<_>>().join("_");
        let mut g = self.inner.lock().unwrap();
        let n = g.viol.len();
        let e = g.viol.entry(key).or_insert_with(|| Viol { detail: detail.into(), replay, count: 0 });
        e.count += 1;
        if n > 2_000_000 {
            panic!("too many violations");
        }
    }
    pub fn violation_count(&self) -> usize {
        self.inner.lock().unwrap().viol.len()
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }

    /// Writes evidence, prints verdict lines, returns the exit code.
    pub fn finish(self) -> i32 {
        let findings = load_findings();
        let g = self.inner.into_inner().unwrap();
        let dump_all = std::env::var("MC_DUMP_KEYS").ok();
        let mut known_hits: BTreeMap<usize, u64> = BTreeMap::new();
        let mut fresh: Vec<(&String, &Viol)> = vec![];
        let only = std::env::var("MC_ONLY_KEY").ok();
        for (k, v) in g.viol.iter() {
            if only.as_ref().is_some_and(|o| o != k) {
                continue;
            }
            match findings.iter().position(|f| f.property == self.id && f.keys.contains(k)) {
                Some(i) => *known_hits.entry(i).or_default() += 1,
                None => fresh.push((k, v)),
            }
        }
        if let Some(p) = dump_all {
            let mut s = String::new();
            for (k, v) in &fresh {
                s.push_str(&format!("{k}\t{}\n", v.detail.replace('\n', " | ")));
            }
            std::fs::write(p, s).unwrap();
        }
        let ev = root().join("evidence");
        std::fs::create_dir_all(&ev).unwrap();
        for (i, f) in findings.iter().enumerate() {
            if f.property == self.id {
                println!(
                    "KNOWN-FINDING: property={} {} (failing cases seen this run: {})",
                    self.id,
                    f.what,
                    known_hits.get(&i).copied().unwrap_or(0)
                );
            }
        }
        let rdir = ev.join("replay");
        let mut shown = 0;
        for (k, v) in &fresh {
            if shown >= 5 {
                println!("... and {} more failing cases", fresh.len() - shown);
                break;
            }
            std::fs::create_dir_all(&rdir).unwrap();
            let h = blake3::hash(k.as_bytes()).to_hex();
            let path = rdir.join(format!("{}-{}.json", self.id, &h.as_str()[..12]));
            let art = json!({"property": self.id, "tier": self.tier.pick("quick", "thorough"), "key": k, "detail": v.detail, "occurrences": v.count, "replay": v.replay});
            std::fs::write(&path, serde_json::to_string_pretty(&art).unwrap()).unwrap();
            println!("VIOLATION property={} replay={}", self.id, path.display());
            println!("  key: {k}");
            println!("  {}", v.detail);
            shown += 1;
        }
        let outcomes: Vec<Value> = {
            let mut o: Vec<_> = g.outcomes.iter().collect();
            o.sort_by_key(|(_, n)| std::cmp::Reverse(**n));
            o.into_iter().take(40).map(|(k, n)| json!([k, n])).collect()
        };
        let evidence = json!({
            "property": self.id,
            "tier": match self.tier { Tier::Quick => "quick", Tier::Thorough => "thorough" },
            "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
            "level": "model_checking",
            "coverage": {
                "states": g.states.len(),
                "transitions": g.transitions,
                "traces_validated_against_impl": g.compared,
                "executions": g.executions,
                "distinct_outcome_classes": g.outcomes.len(),
                "outcome_classes": outcomes,
                "exhaustive": g.exhaustive,
                "caps_hit": g.caps,
                "bounds": Value::Object(g.bounds.clone()),
                "known_findings_hit": known_hits.values().sum::<u64>(),
                "samples": g.samples,
            },
            "assumptions": self.assumptions.into_inner().unwrap(),
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": fresh.len(),
        });
        std::fs::write(ev.join(format!("{}.json", self.id)), serde_json::to_string_pretty(&evidence).unwrap()).unwrap();
        println!(
            "{} {:?}: {} executions, {} states, {} transitions, {} compared, {} known, {} violations, {:.1}s{}",
            self.id,
            self.tier,
            g.executions,
            g.states.len(),
            g.transitions,
            g.compared,
            known_hits.values().sum::<u64>(),
            fresh.len(),
            self.start.elapsed().as_secs_f64(),
            if g.exhaustive { "" } else { " (capped)" }
        );
        if fresh.is_empty() {
            0
        } else {
            1
        }
    }
}
