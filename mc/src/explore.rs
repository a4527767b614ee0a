//! Stateless exhaustive enumeration: an execution asks `Chooser::choose(n)` at
//! every nondeterministic point; the driver replays prefixes until every
//! combination of answers has been executed exactly once.
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

pub struct Chooser {
    prefix: Vec<u32>,
    pos: usize,
    widths: Vec<u32>,
    taken: Vec<u32>,
}

impl Chooser {
    pub fn replay(prefix: Vec<u32>) -> Self {
        Chooser { prefix, pos: 0, widths: vec![], taken: vec![] }
    }
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0);
        let c = if self.pos < self.prefix.len() { self.prefix[self.pos] } else { 0 };
        assert!((c as usize) < n, "replay diverged: choice {c} of {n} at {}", self.pos);
        self.pos += 1;
        self.widths.push(n as u32);
        self.taken.push(c);
        c as usize
    }
    pub fn taken(&self) -> &[u32] {
        &self.taken
    }
    /// A permutation of 0..n by successive choice.
    pub fn permutation(&mut self, n: usize) -> Vec<usize> {
        let mut rest: Vec<usize> = (0..n).collect();
        let mut out = vec![];
        while !rest.is_empty() {
            let k = self.choose(rest.len());
            out.push(rest.remove(k));
        }
        out
    }
}

pub struct Stats {
    pub executions: u64,
    pub choice_points: u64,
    pub complete: bool,
}

struct Shared {
    stack: Vec<Vec<u32>>,
    busy: usize,
    executions: u64,
    choice_points: u64,
    stop: bool,
}

/// Runs `body` for every combination of choices, on `threads` workers. `body`
/// returns false to stop the whole search early.
pub fn explore<F>(threads: usize, deadline: Option<Instant>, body: F) -> Stats
where
    F: Fn(&mut Chooser) -> bool + Sync,
{
    let shared = Mutex::new(Shared { stack: vec![vec![]], busy: 0, executions: 0, choice_points: 0, stop: false });
    let cv = Condvar::new();
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| loop {
                let prefix = {
                    let mut g = shared.lock().unwrap();
                    loop {
                        if g.stop {
                            return;
                        }
                        if let Some(p) = g.stack.pop() {
                            g.busy += 1;
                            break p;
                        }
                        if g.busy == 0 {
                            cv.notify_all();
                            return;
                        }
                        g = cv.wait_timeout(g, Duration::from_millis(50)).unwrap().0;
                    }
                };
                let base = prefix.len();
                let mut ch = Chooser::replay(prefix);
                let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| body(&mut ch)));
                let mut g = shared.lock().unwrap();
                let go_on = match res {
                    Ok(b) => b,
                    Err(e) => {
                        // a bug in the harness: stop everything, fail loudly
                        g.busy -= 1;
                        g.stop = true;
                        drop(g);
                        cv.notify_all();
                        std::panic::resume_unwind(e);
                    }
                };
                g.busy -= 1;
                g.executions += 1;
                g.choice_points += ch.taken.len() as u64;
                for i in (base..ch.taken.len()).rev() {
                    for alt in 1..ch.widths[i] {
                        let mut p = ch.taken[..i].to_vec();
                        p.push(alt);
                        g.stack.push(p);
                    }
                }
                if !go_on || deadline.is_some_and(|d| Instant::now() > d) {
                    g.stop = true;
                }
                cv.notify_all();
            });
        }
    });
    let g = shared.into_inner().unwrap();
    Stats { executions: g.executions, choice_points: g.choice_points, complete: !g.stop || g.stack.is_empty() }
}

/// Plain parallel map over an explicit finite list of cases.
pub fn par_each<T: Sync, F: Fn(usize, &T) + Sync>(items: &[T], threads: usize, f: F) {
    let next = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if i >= items.len() {
                    return;
                }
                f(i, &items[i]);
            });
        }
    });
}

pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    fn go(rest: &mut Vec<usize>, acc: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if rest.is_empty() {
            out.push(acc.clone());
            return;
        }
        for i in 0..rest.len() {
            let x = rest.remove(i);
            acc.push(x);
            go(rest, acc, out);
            acc.pop();
            rest.insert(i, x);
        }
    }
    let mut out = vec![];
    go(&mut (0..n).collect(), &mut vec![], &mut out);
    out
}

pub const THREADS: usize = 8;

pub fn combinations(n: usize, k: usize) -> Vec<Vec<usize>> {
    fn go(from: usize, n: usize, k: usize, acc: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if acc.len() == k {
            out.push(acc.clone());
            return;
        }
        for i in from..n {
            acc.push(i);
            go(i + 1, n, k, acc, out);
            acc.pop();
        }
    }
    let mut out = vec![];
    go(0, n, k, &mut vec![], &mut out);
    out
}
