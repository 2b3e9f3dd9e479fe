//! Real OS threads, exactly one of which runs at any moment.  A thread gives up the baton only
//! where the simulator decides: at a preemption point inside the library (control-flow edge,
//! load, store, allocation), in a futex wait of std's locks, in a sleep or yield, or at its end.
//! Who runs next, and how long, is drawn from the run's choice source.
use crate::choice::Src;
use crate::hooks::{hk, raw_syscall};
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

pub const MAXT: usize = 8;

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ready,
    /// futex address, deadline
    Wait(u64, Option<u64>),
    Done,
}

/// How a run is scheduled, besides the mean gap.
#[derive(Clone, Copy, Default)]
pub struct Pace {
    /// one gap in this many is 500 times as long (0: none)
    pub burst: u64,
    /// one preempted thread in this many stalls (0: none)
    pub stall: u64,
    /// one wait for a lock in this many ends without a reason, as the kernel allows (0: none)
    pub spurious: u64,
}

pub struct Ts {
    n: usize,
    st: [St; MAXT],
    woken: [bool; MAXT],
    cur: usize,
    gap: u64,
    mean: u64,
    pace: Pace,
    /// a stalled thread is not scheduled before this point, unless nobody else can run
    stalled: [u64; MAXT],
    stalls: u64,
    spurious: u64,
    since: u64,
    now: u64,
    src: *mut Src,
    pub switches: u64,
    pub points: u64,
    pub blocked: u64,
    pub hash: u64,
    pub forced: u64,
    pub trace: Option<Vec<(u64, u8, u8)>>,
    pub point_limit: u64,
    /// deepest library section in which a switch happened, per thread flag
    pub mid_op: u64,
}

static WORD: [AtomicU32; MAXT] = [const { AtomicU32::new(0) }; MAXT];
static MAINW: AtomicU32 = AtomicU32::new(0);
static PARKED: AtomicU32 = AtomicU32::new(0);
static mut TS: Option<Ts> = None;

thread_local! {
    static ME: Cell<i32> = const { Cell::new(-1) };
}

#[allow(static_mut_refs)]
fn ts() -> &'static mut Ts {
    unsafe { (*std::ptr::addr_of_mut!(TS)).as_mut().unwrap() }
}

fn me() -> i32 {
    ME.try_with(|m| m.get()).unwrap_or(-1)
}

pub fn in_sim() -> bool {
    me() >= 0
}

fn kwait(w: &AtomicU32) {
    while w.load(SeqCst) == 0 {
        unsafe {
            raw_syscall(202, [w as *const _ as u64, 128, 0, 0, 0, 0]);
        }
    }
    w.store(0, SeqCst);
}
fn kwake(w: &AtomicU32) {
    w.store(1, SeqCst);
    unsafe {
        raw_syscall(202, [w as *const _ as u64, 129, 1, 0, 0, 0]);
    }
}

fn draw_gap(t: &mut Ts) {
    let s = unsafe { &mut *t.src };
    // 0 (the simplest choice) means: run on as long as possible
    let g = s.below(2 * t.mean + 1);
    t.gap = if g == 0 {
        1 << 40
    } else if t.pace.burst > 0 && s.chance(1, t.pace.burst) {
        g * 500
    } else {
        g
    };
}

/// Hands the baton to `to` and waits until it comes back.
fn switch(my: usize, to: usize, kind: u8) {
    let t = ts();
    t.switches += 1;
    t.since = 0;
    t.hash = (t.hash ^ (t.points << 8 | (to as u64) << 4 | kind as u64)).wrapping_mul(0x100000001b3);
    if let Some(tr) = &mut t.trace {
        tr.push((t.points, my as u8, to as u8));
    }
    t.cur = to;
    let active = hk().active;
    if to != my {
        kwake(&WORD[to]);
        kwait(&WORD[my]);
    }
    hk().active = active;
}

fn runnable(t: &Ts, except: Option<usize>) -> Vec<usize> {
    let r: Vec<usize> = (0..t.n).filter(|i| Some(*i) != except && t.st[*i] == St::Ready).collect();
    let v: Vec<usize> = r.iter().copied().filter(|i| t.stalled[*i] <= t.points).collect();
    if v.is_empty() {
        r
    } else {
        v
    }
}

/// A preemption point inside the library.
pub fn preempt(kind: u8) {
    let m = me();
    if m < 0 || !hk().active {
        return;
    }
    let t = ts();
    t.points += 1;
    t.since += 1;
    if t.points > t.point_limit {
        fatal("no progress", t.points);
    }
    let force = t.since > 200_000;
    if t.gap > 1 && !force {
        t.gap -= 1;
        return;
    }
    hk().threads = false; // allocations below are the simulator's own
    let others = runnable(t, Some(m as usize));
    draw_gap(t);
    let go = if others.is_empty() {
        None
    } else {
        if force {
            t.forced += 1;
        }
        let s = unsafe { &mut *t.src };
        if t.pace.stall > 0 && s.chance(1, t.pace.stall) {
            t.stalled[m as usize] = t.points + *s.pick(&[3000u64, 300, 30000, 300_000]);
            t.stalls += 1;
        }
        Some(others[s.idx(others.len())])
    };
    hk().threads = true;
    if let Some(to) = go {
        t.mid_op += 1;
        switch(m as usize, to, kind);
    }
}

fn fatal(what: &'static str, n: u64) -> ! {
    hk().active = false;
    hk().threads = false;
    unsafe {
        if let Some(f) = crate::hooks::FATAL {
            f(what, n)
        }
    }
    std::process::abort()
}

/// Gives up the baton because this thread cannot (or does not want to) go on.
fn leave(my: usize, kind: u8) {
    let t = ts();
    hk().threads = false;
    let act = hk().active;
    hk().active = false;
    loop {
        // a thread that yields lets another one go first, if there is one
        let mut r = runnable(t, if kind == 10 { Some(my) } else { None });
        if r.is_empty() {
            r = runnable(t, None);
        }
        if !r.is_empty() {
            let s = unsafe { &mut *t.src };
            let to = r[s.idx(r.len())];
            draw_gap(t);
            hk().threads = true;
            hk().active = act;
            if to == my {
                return;
            }
            return switch(my, to, kind);
        }
        // nobody can run: let virtual time pass to the next timeout
        let next = (0..t.n)
            .filter_map(|i| match t.st[i] {
                St::Wait(_, Some(d)) => Some((d, i)),
                _ => None,
            })
            .min();
        match next {
            Some((d, i)) => {
                t.now = t.now.max(d);
                t.st[i] = St::Ready;
                t.woken[i] = false;
            }
            None if (0..t.n).all(|i| t.st[i] == St::Done) => {
                hk().active = false;
                kwake(&MAINW);
                // the process ends without this thread running again
                loop {
                    kwait(&WORD[my]);
                }
            }
            None => fatal("deadlock", t.points),
        }
    }
}

pub unsafe fn futex(addr: u64, op: i32, val: u32, tmo: u64, mask: u32) -> i64 {
    let t = ts();
    let my = me() as usize;
    let cmd = op & 0x7f;
    match cmd {
        // FUTEX_WAIT, FUTEX_WAIT_BITSET
        0 | 9 => {
            if (*(addr as *const AtomicU32)).load(SeqCst) != val {
                return -11;
            }
            let dl = if tmo == 0 {
                None
            } else {
                let ts_ = &*(tmo as *const crate::hooks::Timespec);
                let ns = ts_.sec as u64 * 1_000_000_000 + ts_.nsec as u64;
                if cmd == 9 {
                    Some(ns.saturating_sub(1_600_000_000_000_000_000))
                } else {
                    Some(t.now + ns)
                }
            };
            let _ = mask;
            if t.pace.spurious > 0 {
                let th = hk().threads;
                hk().threads = false;
                let sp = unsafe { &mut *t.src }.chance(1, t.pace.spurious);
                hk().threads = th;
                if sp {
                    t.spurious += 1;
                    return -4;
                }
            }
            t.st[my] = St::Wait(addr, dl);
            t.woken[my] = false;
            t.blocked += 1;
            leave(my, 8);
            if ts().woken[my] {
                0
            } else {
                -110
            }
        }
        // FUTEX_WAKE, FUTEX_WAKE_BITSET
        1 | 10 => {
            let mut n = 0;
            loop {
                let w: [usize; MAXT] = {
                    let mut a = [usize::MAX; MAXT];
                    let mut k = 0;
                    for i in 0..t.n {
                        if matches!(t.st[i], St::Wait(x, _) if x == addr) {
                            a[k] = i;
                            k += 1;
                        }
                    }
                    a
                };
                let k = w.iter().filter(|x| **x != usize::MAX).count();
                if k == 0 || n >= val as i64 {
                    break;
                }
                let th = hk().threads;
                hk().threads = false;
                let i = w[(*t.src).idx(k)];
                hk().threads = th;
                t.st[i] = St::Ready;
                t.woken[i] = true;
                n += 1;
            }
            n
        }
        _ => raw_syscall(202, [addr, op as u64, val as u64, tmo, 0, mask as u64]),
    }
}

pub fn sleep(ns: u64) {
    let t = ts();
    let my = me() as usize;
    t.st[my] = St::Wait(0, Some(t.now + ns));
    leave(my, 9);
}

pub fn yield_now() {
    let my = me() as usize;
    leave(my, 10);
}

pub struct Report {
    pub switches: u64,
    pub mid_op: u64,
    pub points: u64,
    pub blocked: u64,
    pub stalls: u64,
    pub spurious: u64,
    pub hash: u64,
    pub trace: Vec<(u64, u8, u8)>,
}

/// Runs the closures as simulated threads until all are done.
pub fn run(src: &mut Src, mean: u64, pace: Pace, trace: bool, point_limit: u64, fs: Vec<Box<dyn FnOnce() + Send>>) -> Report {
    let n = fs.len();
    assert!(n <= MAXT);
    unsafe {
        TS = Some(Ts {
            n,
            st: [St::Ready; MAXT],
            woken: [false; MAXT],
            cur: 0,
            gap: 0,
            mean,
            pace,
            stalled: [0; MAXT],
            stalls: 0,
            spurious: 0,
            since: 0,
            now: 0,
            src,
            switches: 0,
            points: 0,
            blocked: 0,
            hash: 0xcbf29ce484222325,
            forced: 0,
            trace: if trace { Some(Vec::with_capacity(4096)) } else { None },
            point_limit,
            mid_op: 0,
        });
    }
    PARKED.store(0, SeqCst);
    for (i, f) in fs.into_iter().enumerate() {
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn(move || {
                PARKED.fetch_add(1, SeqCst);
                kwait(&WORD[i]);
                ME.with(|m| m.set(i as i32));
                f();
                let t = ts();
                t.st[i] = St::Done;
                leave(i, 11);
            })
            .expect("spawn");
    }
    while PARKED.load(SeqCst) != n as u32 {
        unsafe {
            raw_syscall(24, [0; 6]);
        }
    }
    let t = ts();
    draw_gap(t);
    let first = src.idx(n);
    t.cur = first;
    hk().active = false;
    hk().threads = true;
    kwake(&WORD[first]);
    kwait(&MAINW);
    hk().threads = false;
    hk().active = false;
    let t = ts();
    Report {
        switches: t.switches,
        mid_op: t.mid_op,
        points: t.points,
        blocked: t.blocked,
        stalls: t.stalls,
        spurious: t.spurious,
        hash: t.hash,
        trace: t.trace.take().unwrap_or_default(),
    }
}
