//! Simulated threads.  They are real threads, but only the one that holds the baton runs; at every
//! yield point (an I/O callback, a memory allocation, a lock that would block) the seeded choices decide
//! whether the baton moves on and to whom.
use crate::choice::below;
use crate::seam::{self, fault, Fault};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::{Condvar, Mutex};

struct St {
    turn: usize,
    done: Vec<bool>,
    mean: u64,
    switches: u64,
}
static ON: AtomicBool = AtomicBool::new(false);
static LEFT: AtomicU64 = AtomicU64::new(0);
static BLOCKED: AtomicU64 = AtomicU64::new(0);
static ST: Mutex<St> = Mutex::new(St { turn: 0, done: vec![], mean: 1, switches: 0 });
static CV: Condvar = Condvar::new();
thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
}
/// More context switches than this in one run and the rest of it runs without preemption.
const MAX_SWITCHES: u64 = 400;
pub const EXIT_DEADLOCK: i32 = 79;

#[derive(Clone, Copy, PartialEq)]
enum Why {
    Io,
    Alloc,
    Lock,
}
pub fn alloc_point() {
    if ON.load(Relaxed) {
        point(Why::Alloc);
    }
}
pub fn io_point() {
    if ON.load(Relaxed) {
        point(Why::Io);
    }
}
/// A simulated thread is about to wait for a lock: true if the baton went round instead.
pub fn futex_block() -> bool {
    if !ON.load(Relaxed) || ME.try_with(|m| m.get()).unwrap_or(usize::MAX) == usize::MAX {
        return false;
    }
    if BLOCKED.fetch_add(1, Relaxed) > 200_000 {
        unsafe { seam::raw(libc::SYS_exit_group, EXIT_DEADLOCK as i64, 0, 0, 0, 0, 0) };
    }
    LEFT.store(0, Relaxed);
    point(Why::Lock);
    true
}
fn others(st: &St, me: usize) -> Vec<usize> {
    (0..st.done.len()).filter(|&i| i != me && !st.done[i]).collect()
}
fn point(why: Why) {
    let me = ME.try_with(|m| m.get()).unwrap_or(usize::MAX);
    if me == usize::MAX {
        return;
    }
    let left = LEFT.load(Relaxed);
    // I/O is a more interesting place to stop than an allocation
    let step = if why == Why::Io { 40 } else { 1 };
    if left > step && why != Why::Lock {
        LEFT.store(left - step, Relaxed);
        return;
    }
    let _q = seam::Quiet::new();
    let mut st = ST.lock().unwrap();
    if st.switches >= MAX_SWITCHES && why != Why::Lock {
        LEFT.store(u64::MAX, Relaxed);
        return;
    }
    let o = others(&st, me);
    if o.is_empty() {
        LEFT.store(u64::MAX, Relaxed);
        return;
    }
    let next = o[below(o.len() as u64) as usize];
    st.switches += 1;
    LEFT.store(1 + below(2 * st.mean), Relaxed);
    fault(match why {
        Why::Io => Fault::ContextSwitch,
        Why::Alloc => Fault::AllocPreemption,
        Why::Lock => Fault::LockBlocked,
    });
    seam::event(b'S', me as u64, next as u64);
    st.turn = next;
    CV.notify_all();
    while st.turn != me {
        st = CV.wait(st).unwrap();
    }
}
/// Runs the tasks as simulated threads until all have ended; returns their results and the number of switches.
/// `mean`: how many allocations, on average, a thread makes before it is preempted.
pub fn run<R: Send>(tasks: Vec<Box<dyn FnOnce() -> R + Send + '_>>, mean: u64) -> (Vec<R>, u64) {
    let _q = seam::Quiet::new();
    let n = tasks.len();
    let first = below(n as u64) as usize;
    {
        let mut st = ST.lock().unwrap();
        *st = St { turn: usize::MAX, done: vec![false; n], mean, switches: 0 };
    }
    LEFT.store(1 + below(2 * mean), Relaxed);
    BLOCKED.store(0, Relaxed);
    let out = std::thread::scope(|s| {
        let hs: Vec<_> = tasks
            .into_iter()
            .enumerate()
            .map(|(i, t)| {
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(s, move || {
                        {
                            let mut st = ST.lock().unwrap();
                            while st.turn != i {
                                st = CV.wait(st).unwrap();
                            }
                        }
                        ME.with(|m| m.set(i));
                        seam::enter_sim();
                        seam::private_random(i as u64);
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(t));
                        seam::leave_sim();
                        ME.with(|m| m.set(usize::MAX));
                        let mut st = ST.lock().unwrap();
                        st.done[i] = true;
                        let o = others(&st, i);
                        if !o.is_empty() {
                            let k = below(o.len() as u64) as usize;
                            st.turn = o[k];
                            seam::event(b'E', i as u64, o[k] as u64);
                        }
                        CV.notify_all();
                        r
                    })
                    .expect("SIMULATOR: cannot start a thread")
            })
            .collect();
        ON.store(true, Relaxed);
        {
            let mut st = ST.lock().unwrap();
            st.turn = first;
            CV.notify_all();
        }
        let r: Vec<_> = hs.into_iter().map(|h| h.join()).collect();
        ON.store(false, Relaxed);
        r
    });
    let switches = ST.lock().unwrap().switches;
    let out = out
        .into_iter()
        .map(|r| match r {
            Ok(Ok(v)) => v,
            _ => {
                panic!("SIMULATOR: a simulated thread died")
            }
        })
        .collect();
    (out, switches)
}
/// Runs `f` as the only thread of a process that has just started: nothing a thread keeps to itself survives.
pub fn fresh<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    let _q = seam::Quiet::new();
    let r = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn_scoped(s, || {
                seam::enter_sim();
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
                seam::leave_sim();
                r
            })
            .expect("SIMULATOR: cannot start a thread")
            .join()
    });
    match r {
        Ok(Ok(v)) => v,
        _ => panic!("SIMULATOR: a simulated thread died"),
    }
}
