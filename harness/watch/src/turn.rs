//! One thread at a time: every field operation of a scheduled thread is a point
//! where the turn may pass on, as the schedule says.
use std::cell::Cell;
use std::collections::VecDeque;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::Duration;

pub const ALL: u64 = u64::MAX;
struct Turn {
    plan: VecDeque<(usize, u64)>,
    at: usize,
    steps: u64,
    done: Vec<bool>,
    free: bool,
}
static TURN: Mutex<Turn> = Mutex::new(Turn { plan: VecDeque::new(), at: 0, steps: 0, done: Vec::new(), free: false });
static CHANGED: Condvar = Condvar::new();
static MOVED: AtomicU64 = AtomicU64::new(0);
thread_local! {
    static ME: Cell<Option<usize>> = const { Cell::new(None) };
    static LEFT: Cell<u64> = const { Cell::new(0) };
    pub static COUNT: Cell<u64> = const { Cell::new(0) };
}

/// pass the turn to the next thread of the plan that is not done
fn pass(t: &mut Turn) {
    loop {
        match t.plan.pop_front() {
            Some((i, 0)) if i < t.done.len() => continue,
            Some((i, k)) => if !t.done[i] { t.at = i; t.steps = k; break },
            None => match t.done.iter().position(|d| !d) {
                Some(i) => { t.at = i; t.steps = ALL; break }
                None => break,
            },
        }
    }
    CHANGED.notify_all();
}

/// wait for the turn; a turn whose owner is stuck (on a lock that a waiting thread
/// holds) ends the schedule and lets everyone run
fn wait(me: usize) {
    let mut t = TURN.lock().unwrap();
    let (mut last, mut idle) = (MOVED.load(Ordering::Relaxed), 0);
    while !t.free && t.at != me {
        t = CHANGED.wait_timeout(t, Duration::from_millis(10)).unwrap().0;
        let now = MOVED.load(Ordering::Relaxed);
        idle = if now == last { idle + 1 } else { 0 };
        last = now;
        if idle > 4 { t.free = true; CHANGED.notify_all(); }
    }
    LEFT.with(|l| l.set(if t.free { ALL } else { t.steps }));
}

/// a field operation
pub fn point() {
    COUNT.with(|c| c.set(c.get() + 1));
    let Some(me) = ME.with(|m| m.get()) else { return };
    let left = LEFT.with(|l| l.get());
    if left == ALL { MOVED.fetch_add(1, Ordering::Relaxed); return; }
    MOVED.fetch_add(1, Ordering::Relaxed);
    if left > 0 { LEFT.with(|l| l.set(left - 1)); return; }
    {
        let mut t = TURN.lock().unwrap();
        if t.free { LEFT.with(|l| l.set(ALL)); return; }
        pass(&mut t);
    }
    wait(me);
    // the operation this point stands before belongs to the new turn
    LEFT.with(|l| if l.get() != ALL { l.set(l.get() - 1) });
}

/// run the jobs as threads under the plan; were they let go?
pub fn run<R: Send + 'static>(jobs: Vec<Box<dyn FnOnce() -> R + Send>>, plan: Vec<(usize, u64)>) -> (Vec<R>, bool) {
    {
        let mut t = TURN.lock().unwrap();
        t.plan = plan.into();
        t.done = vec![false; jobs.len()];
        t.free = false;
        pass(&mut t);
    }
    let hs: Vec<_> = jobs.into_iter().enumerate().map(|(i, f)| {
        std::thread::spawn(move || {
            ME.with(|m| m.set(Some(i)));
            wait(i);
            let r = f();
            ME.with(|m| m.set(None));
            let mut t = TURN.lock().unwrap();
            t.done[i] = true;
            MOVED.fetch_add(1, Ordering::Relaxed);
            if t.at == i { pass(&mut t); }
            r
        })
    }).collect();
    let out = hs.into_iter().map(|h| h.join().expect("HARNESS thread")).collect();
    (out, TURN.lock().unwrap().free)
}
