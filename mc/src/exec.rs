//! Executors: `block_on` with deadlock detection, and a controlled scheduler
//! that owns the interleaving of several tasks.
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

pub struct DeadlockPanic(pub String);

pub struct Flag(pub AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

/// Drives one future. `Pending` with nothing woken can never progress: deadlock.
pub fn block_on<T>(fut: impl Future<Output = T>) -> T {
    let flag = Arc::new(Flag(AtomicBool::new(false)));
    let waker: Waker = flag.clone().into();
    let mut cx = Context::from_waker(&waker);
    let mut fut = std::pin::pin!(fut);
    loop {
        match fut.as_mut().poll(&mut cx) {
            Poll::Ready(v) => return v,
            Poll::Pending => {
                if !flag.0.swap(false, Ordering::SeqCst) {
                    std::panic::panic_any(DeadlockPanic("task waits for a lock it holds itself".into()));
                }
            }
        }
    }
}

pub type Task<'a, T> = Pin<Box<dyn Future<Output = T> + 'a>>;

#[derive(Debug)]
pub struct SchedResult<T> {
    pub outputs: Vec<Option<T>>,
    pub deadlock: bool,
    pub steps: usize,
    pub preemptions: usize,
}

/// Runs tasks under a controlled scheduler. `pick(enabled, last)` chooses the
/// index (into `enabled`) of the next task to step. A task is enabled when it
/// has been woken. No enabled task while some are unfinished: deadlock.
pub fn run_tasks<T>(
    mut tasks: Vec<Option<Task<'_, T>>>,
    mut pick: impl FnMut(&[usize], Option<usize>) -> usize,
    max_steps: usize,
) -> SchedResult<T> {
    let n = tasks.len();
    let flags: Vec<Arc<Flag>> = (0..n).map(|_| Arc::new(Flag(AtomicBool::new(true)))).collect();
    let mut outputs: Vec<Option<T>> = (0..n).map(|_| None).collect();
    let mut last = None;
    let mut steps = 0;
    let mut preemptions = 0;
    loop {
        let enabled: Vec<usize> = (0..n)
            .filter(|&i| tasks[i].is_some() && flags[i].0.load(Ordering::SeqCst))
            .collect();
        if tasks.iter().all(|t| t.is_none()) {
            return SchedResult { outputs, deadlock: false, steps, preemptions };
        }
        if enabled.is_empty() || steps >= max_steps {
            // leak the stuck tasks: dropping them may re-enter locks
            for t in tasks.into_iter().flatten() {
                std::mem::forget(t);
            }
            return SchedResult { outputs, deadlock: true, steps, preemptions };
        }
        let k = pick(&enabled, last);
        let i = enabled[k];
        if let Some(l) = last {
            if l != i && enabled.contains(&l) {
                preemptions += 1;
            }
        }
        flags[i].0.store(false, Ordering::SeqCst);
        let waker: Waker = flags[i].clone().into();
        let mut cx = Context::from_waker(&waker);
        steps += 1;
        match tasks[i].as_mut().unwrap().as_mut().poll(&mut cx) {
            Poll::Ready(v) => {
                outputs[i] = Some(v);
                tasks[i] = None;
                last = None;
            }
            Poll::Pending => last = Some(i),
        }
    }
}
