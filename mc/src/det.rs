//! Determinism: every execution runs on a fresh thread whose entropy is a pure
//! function of an explicit seed, so `HashMap` iteration order, key generation
//! and signatures are reproducible, and "which hash order" is an enumerable
//! choice instead of noise.
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

thread_local! {
    static SEED: Cell<u64> = const { Cell::new(0) };
    static CTR: Cell<u64> = const { Cell::new(0) };
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

fn splitmix(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

/// Interposes libc's `getrandom`, which both `std`'s `RandomState` and the
/// `getrandom` crate (hence `OsRng`) use on Linux.
///
/// # Safety
/// Called by libc users with a valid buffer.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let seed = SEED.with(|s| s.get());
    for i in 0..len {
        let c = CTR.with(|c| {
            let v = c.get();
            c.set(v + 1);
            v
        });
        let b = splitmix(seed.wrapping_mul(0x2545F4914F6CDD1D) ^ c.wrapping_mul(0xD6E8FEB86659FD93));
        *buf.add(i) = (b >> 17) as u8;
    }
    len as isize
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if QUIET.with(|q| q.get()) {
            let loc = info
                .location()
                .map(|l| {
                    let f = l.file();
                    // line numbers deliberately left out: keys must survive unrelated edits
                    f.rsplit("/").next().unwrap_or(f).to_string()
                })
                .unwrap_or_default();
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} [{loc}]")));
        } else {
            default(info)
        }
    }));
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Abort {
    Panic(String),
    Deadlock(String),
}

impl std::fmt::Display for Abort {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Abort::Panic(s) => write!(f, "panic: {s}"),
            Abort::Deadlock(s) => write!(f, "deadlock: {s}"),
        }
    }
}

static ACTIVE: Mutex<BTreeMap<u64, (Instant, String)>> = Mutex::new(BTreeMap::new());
static NEXT: AtomicU64 = AtomicU64::new(0);

/// An execution that has been running for longer than `limit`, if any.
pub fn stuck(limit: Duration) -> Option<String> {
    let g = ACTIVE.lock().unwrap();
    g.values().find(|(t, _)| t.elapsed() > limit).map(|(_, l)| l.clone())
}

struct Slot(u64);
impl Slot {
    fn new(label: String) -> Self {
        let n = NEXT.fetch_add(1, Ordering::SeqCst);
        ACTIVE.lock().unwrap().insert(n, (Instant::now(), label));
        Slot(n)
    }
}
impl Drop for Slot {
    fn drop(&mut self) {
        ACTIVE.lock().unwrap().remove(&self.0);
    }
}

/// Runs `f` on a fresh thread with the given entropy seed.
pub fn run<T: Send, F: FnOnce() -> T + Send>(seed: u64, f: F) -> Result<T, Abort> {
    run_labelled(seed, String::new, f)
}

pub fn run_labelled<T: Send, F: FnOnce() -> T + Send>(
    seed: u64,
    label: impl FnOnce() -> String,
    f: F,
) -> Result<T, Abort> {
    let _slot = Slot::new(label());
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn_scoped(s, move || {
                SEED.with(|x| x.set(seed));
                CTR.with(|x| x.set(0));
                catch(f)
            })
            .expect("spawn")
            .join()
            .expect("join")
    })
}

/// Runs `f` here, turning panics into values.
pub fn catch<T, F: FnOnce() -> T>(f: F) -> Result<T, Abort> {
    let was = QUIET.with(|q| q.replace(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    QUIET.with(|q| q.set(was));
    r.map_err(|p| {
        if let Some(d) = p.downcast_ref::<crate::exec::DeadlockPanic>() {
            Abort::Deadlock(d.0.clone())
        } else {
            Abort::Panic(LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default())
        }
    })
}

/// Deterministic RNG handed to the code under test.
#[derive(Clone, Debug)]
pub struct DetRng(u64);

impl DetRng {
    pub fn new(seed: u64) -> Self {
        DetRng(splitmix(seed ^ 0xABCD_EF01))
    }
}

impl rand::RngCore for DetRng {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        splitmix(self.0)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for chunk in dest.chunks_mut(8) {
            let b = self.next_u64().to_le_bytes();
            chunk.copy_from_slice(&b[..chunk.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl rand::CryptoRng for DetRng {}

pub fn hash64<T: AsRef<[u8]>>(t: T) -> u64 {
    let h = blake3::hash(t.as_ref());
    u64::from_le_bytes(h.as_bytes()[..8].try_into().unwrap())
}
