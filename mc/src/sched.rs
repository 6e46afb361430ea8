//! Cooperative scheduler: model threads are real OS threads of which exactly one runs at a
//! time. Every lock acquisition (dashmap seam, futex waits) and, on request, every file-system
//! call is a decision point. `explore` enumerates all schedules up to a preemption bound by
//! depth-first prefix replay.
use std::cell::Cell;
use std::ffi::c_void;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicUsize, Ordering::*};

thread_local! {
    static TID: Cell<i32> = const { Cell::new(-1) };
    static BYPASS: Cell<u32> = const { Cell::new(0) };
}

static RUNNING: AtomicBool = AtomicBool::new(false);
static FS_POINTS: AtomicBool = AtomicBool::new(false);
static ALLOC_POINTS: AtomicBool = AtomicBool::new(false);
static mut STATE: Option<State> = None;
/// Called (never returns) on a deadlock; set by the engine.
pub static ON_DEADLOCK: AtomicUsize = AtomicUsize::new(0);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Th {
    Ready,
    Blocked(usize),
    Done,
}

#[derive(Clone, Debug)]
pub struct Point {
    pub options: Vec<u8>,
    pub chosen: usize,
    /// the running thread could have gone on (choosing another one is a preemption)
    pub preemptive: bool,
}

struct State {
    th: Vec<Th>,
    prefix: Vec<u8>,
    trace: Vec<Point>,
    bound: u32,
    preemptions: u32,
    timeouts: u32,
}

const MAX: usize = 8;
#[allow(clippy::declare_interior_mutable_const)]
const Z: AtomicU32 = AtomicU32::new(0);
static GO: [AtomicU32; MAX] = [Z; MAX];
static ALL_DONE: AtomicU32 = AtomicU32::new(0);

pub fn bypassed() -> bool {
    BYPASS.with(|b| b.get() > 0)
}
pub fn bypass<T>(f: impl FnOnce() -> T) -> T {
    BYPASS.with(|b| b.set(b.get() + 1));
    let r = f();
    BYPASS.with(|b| b.set(b.get() - 1));
    r
}
pub fn tid() -> i32 {
    TID.with(|t| t.get())
}
pub fn in_model_thread() -> bool {
    tid() >= 0 && RUNNING.load(Relaxed) && !bypassed()
}

unsafe fn raw_futex(addr: *const AtomicU32, op: i32, val: u32) {
    #[cfg(target_arch = "x86_64")]
    {
        let _ret: isize;
        std::arch::asm!(
            "syscall",
            inlateout("rax") libc::SYS_futex as isize => _ret,
            in("rdi") addr as *const c_void,
            in("rsi") op as isize,
            in("rdx") val as isize,
            in("r10") 0usize,
            in("r8") 0usize,
            in("r9") 0usize,
            lateout("rcx") _, lateout("r11") _,
        );
    }
}

fn park(a: &AtomicU32) {
    while a.load(Acquire) == 0 {
        unsafe { raw_futex(a, libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG, 0) };
    }
    a.store(0, Relaxed);
}
fn unpark(a: &AtomicU32) {
    a.store(1, Release);
    unsafe { raw_futex(a, libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG, 1) };
}

#[allow(static_mut_refs)]
fn state() -> &'static mut State {
    unsafe { STATE.as_mut().unwrap() }
}

/// Picks who runs next. `me` is the caller (None when it finished).
fn decide(me: Option<usize>) -> usize {
    let s = state();
    let me_ready = me.map(|m| s.th[m] == Th::Ready).unwrap_or(false);
    let mut options: Vec<u8> = vec![];
    if me_ready {
        options.push(me.unwrap() as u8);
    }
    if !me_ready || s.preemptions < s.bound {
        for (i, t) in s.th.iter().enumerate() {
            if *t == Th::Ready && Some(i) != me {
                options.push(i as u8);
            }
        }
    }
    if options.is_empty() {
        let h = ON_DEADLOCK.load(Relaxed);
        if h != 0 {
            let h: fn() -> ! = unsafe { std::mem::transmute(h) };
            h();
        }
        panic!("deadlock");
    }
    if options.len() == 1 {
        return options[0] as usize;
    }
    let i = s.trace.len();
    let chosen = if i < s.prefix.len() { (s.prefix[i] as usize).min(options.len() - 1) } else { 0 };
    if me_ready && chosen != 0 {
        s.preemptions += 1;
    }
    let next = options[chosen] as usize;
    s.trace.push(Point { options, chosen, preemptive: me_ready });
    next
}

fn switch(me: usize) {
    let next = decide(Some(me));
    if next != me {
        unpark(&GO[next]);
        park(&GO[me]);
    }
}

/// A decision point (lock acquisition, file-system call, environment step).
pub fn point() {
    if in_model_thread() {
        bypass(|| switch(tid() as usize));
    }
}

pub fn fs_point() {
    if FS_POINTS.load(Relaxed) {
        point();
    }
}

/// Allocations lie between almost any two accesses to shared data, whatever guards it.
pub struct Alloc;
unsafe impl std::alloc::GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        alloc_point();
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        alloc_point();
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        alloc_point();
        std::alloc::System.realloc(p, l, n)
    }
}
fn alloc_point() {
    if ALLOC_POINTS.load(Relaxed) && !std::thread::panicking() {
        point();
    }
}

/// The running thread cannot go on until `addr` is released.
pub fn blocked(addr: usize, has_timeout: bool) {
    bypass(|| {
        let me = tid() as usize;
        if has_timeout {
            // a timed wait may always time out: treated as a plain yield, boundedly often
            state().timeouts += 1;
            if state().timeouts < 64 {
                let others = state().th.iter().enumerate().any(|(i, t)| i != me && *t == Th::Ready);
                if others {
                    state().th[me] = Th::Blocked(usize::MAX);
                    let next = decide(Some(me));
                    state().th[me] = Th::Ready;
                    unpark(&GO[next]);
                    park(&GO[me]);
                }
                return;
            }
        }
        state().th[me] = Th::Blocked(addr);
        switch(me);
    })
}

pub fn released(addr: usize) {
    if RUNNING.load(Relaxed) && tid() >= 0 {
        for t in state().th.iter_mut() {
            if *t == Th::Blocked(addr) {
                *t = Th::Ready;
            }
        }
    }
}

/// Seam called by the vendored dashmap.
pub fn dashmap_hook(op: u32, addr: usize) -> bool {
    use dashmap::mc as m;
    match op {
        m::BLOCKED => {
            if in_model_thread() {
                blocked(addr, false);
                true
            } else if crate::interpose::active() {
                // a lone thread waiting for a lock that nobody else can release
                let h = ON_DEADLOCK.load(Relaxed);
                if h != 0 {
                    let h: fn() -> ! = unsafe { std::mem::transmute(h) };
                    h();
                }
                false
            } else {
                false
            }
        }
        m::RELEASED => {
            released(addr);
            false
        }
        _ => {
            point();
            false
        }
    }
}

pub struct Run {
    pub trace: Vec<Point>,
}

/// Runs `jobs` under the schedule given by `prefix` (then: default choices).
pub fn run(jobs: Vec<Box<dyn FnOnce() + Send>>, prefix: &[u8], bound: u32, fs_points: bool, alloc_points: bool) -> Run {
    let n = jobs.len();
    assert!(n <= MAX);
    unsafe {
        STATE = Some(State {
            th: vec![Th::Ready; n],
            prefix: prefix.to_vec(),
            trace: vec![],
            bound,
            preemptions: 0,
            timeouts: 0,
        });
    }
    for g in GO.iter() {
        g.store(0, SeqCst);
    }
    ALL_DONE.store(0, SeqCst);
    FS_POINTS.store(fs_points, SeqCst);
    ALLOC_POINTS.store(alloc_points, SeqCst);
    RUNNING.store(true, SeqCst);
    let handles: Vec<_> = jobs
        .into_iter()
        .enumerate()
        .map(|(i, job)| {
            bypass(|| {
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn(move || {
                        park(&GO[i]);
                        TID.with(|t| t.set(i as i32));
                        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(job));
                        bypass(|| {
                            state().th[i] = Th::Done;
                            TID.with(|t| t.set(-1));
                            if state().th.iter().all(|t| *t == Th::Done) {
                                unpark(&ALL_DONE);
                            } else {
                                unpark(&GO[decide(None)]);
                            }
                        })
                    })
                    .expect("spawn")
            })
        })
        .collect();
    bypass(|| {
        unpark(&GO[decide(None)]);
        park(&ALL_DONE);
        RUNNING.store(false, SeqCst);
        for h in handles {
            let _ = h.join();
        }
    });
    #[allow(static_mut_refs)]
    let s = unsafe { STATE.take().unwrap() };
    Run { trace: s.trace }
}

/// The next schedule in depth-first order, or None when the space is exhausted.
pub fn next_prefix(trace: &[Point], bound: u32) -> Option<Vec<u8>> {
    let mut cost = vec![0u32; trace.len() + 1];
    for (i, p) in trace.iter().enumerate() {
        cost[i + 1] = cost[i] + (p.preemptive && p.chosen != 0) as u32;
    }
    for i in (0..trace.len()).rev() {
        let p = &trace[i];
        let c = p.chosen + 1;
        if c < p.options.len() && (!p.preemptive || cost[i] + 1 <= bound) {
            let mut pre: Vec<u8> = trace[..i].iter().map(|p| p.chosen as u8).collect();
            pre.push(c as u8);
            return Some(pre);
        }
    }
    None
}
