//! What a scenario sees of the simulator: the choice source, the virtual clock, the event queue,
//! guarded calls into the library, and the record of what happened.
use crate::choice::Src;
use crate::hooks::{self, hk};
use std::collections::BinaryHeap;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Fail {
    pub class: String,
    pub msg: String,
}
pub type Res<T = ()> = Result<T, Fail>;

#[macro_export]
macro_rules! fail {
    ($class:expr, $($a:tt)*) => {
        return Err($crate::kernel::Fail { class: $class.to_string(), msg: format!($($a)*) })
    };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $class:expr, $($a:tt)*) => {
        if !$c { $crate::fail!($class, $($a)*); }
    };
}

/// no single library call of any scenario needs a fraction of this
pub const STEP_LIMIT: u64 = 400_000_000;
pub const NCOUNT: usize = 256;
pub const CAP: usize = 1 << 20;

#[repr(C)]
pub struct Shared {
    /// 0 running, 1 held, 2 violated, 3 harness error, 4 limit passed
    pub status: u32,
    pub nclass: u32,
    pub class: [u8; 256],
    pub nmsg: u32,
    pub msg: [u8; 16384],
    pub ncount: u32,
    pub counts: [(*const u8, usize, u64, u8); NCOUNT],
    pub hash: u64,
    pub sim_ns: u64,
    pub events: u64,
    pub steps: u64,
    pub nontrivial: u32,
    pub in_lib: u32,
    pub nrec: u64,
    pub rec: [u64; CAP],
    /// results of helper processes forked by a scenario
    pub scratch_len: usize,
    pub scratch: [u8; 1 << 20],
}

pub struct Meas {
    pub steps: u64,
    pub peak: i64,
    pub biggest: usize,
    pub stack: usize,
    /// bytes allocated, bytes copied
    pub total: u64,
    pub moved: u64,
}

pub struct Ctx {
    pub src: Src,
    pub now: u64,
    pub verbose: bool,
    /// steps one library call may take
    pub limit: u64,
    pub shown: std::cell::Cell<u32>,
    pub sh: &'static mut Shared,
    pub indent: usize,
}

impl Ctx {
    fn count(&mut self, name: &'static str, kind: u8, n: u64) {
        let sh = &mut *self.sh;
        for i in 0..sh.ncount as usize {
            if sh.counts[i].0 == name.as_ptr() && sh.counts[i].1 == name.len() {
                sh.counts[i].2 += n;
                return;
            }
        }
        let i = sh.ncount as usize;
        if i < NCOUNT {
            sh.counts[i] = (name.as_ptr(), name.len(), n, kind);
            sh.ncount += 1;
        }
    }
    /// A fault that was actually injected.
    pub fn fault(&mut self, name: &'static str) {
        self.count(name, 0, 1);
        self.mix(name.len() as u64 + 7777);
        self.sh.nontrivial = 1;
    }
    /// A rare condition that was reached.
    pub fn probe(&mut self, name: &'static str) {
        self.count(name, 1, 1);
    }
    /// Work done by real code or by a stub.
    pub fn did(&mut self, name: &'static str, n: u64) {
        self.count(name, 2, n);
    }
    pub fn nontrivial(&mut self) {
        self.sh.nontrivial = 1;
    }
    pub fn mix(&mut self, x: u64) {
        let h = &mut self.sh.hash;
        *h = (*h ^ x).wrapping_mul(0x9E3779B97F4A7C15);
        *h ^= *h >> 29;
    }
    pub fn mix_bytes(&mut self, b: &[u8]) {
        let mut h = 0xcbf29ce484222325u64;
        for c in b.chunks(8) {
            let mut w = [0; 8];
            w[..c.len()].copy_from_slice(c);
            h = (h ^ u64::from_le_bytes(w)).wrapping_mul(0x100000001b3);
            h ^= h >> 31;
        }
        self.mix(h ^ b.len() as u64);
    }
    /// Records an event of the history.
    pub fn ev(&mut self, tag: &'static str, a: &[u64]) {
        self.sh.events += 1;
        self.mix(tag.len() as u64 * 31 + tag.as_bytes()[0] as u64);
        for x in a {
            self.mix(*x)
        }
        if self.show() {
            println!("  t={:>9}ns {:<w$}{} {:?}", self.now, "", tag, a, w = self.indent);
        }
    }
    fn show(&self) -> bool {
        let n = self.shown.get();
        self.shown.set(n + 1);
        if self.verbose && n == 200 {
            println!("  (further lines left out)");
        }
        self.verbose && n < 200
    }
    /// A line of explanation in a replay's log; free when not replaying.
    pub fn note(&self, f: impl FnOnce() -> String) {
        if self.verbose && self.show() {
            let s = f();
            let s = if s.len() > 600 {
                let mut e = 600;
                while !s.is_char_boundary(e) {
                    e -= 1
                }
                format!("{}... ({} bytes)", &s[..e], s.len())
            } else {
                s
            };
            println!("  t={:>9}ns {:<w$}  {}", self.now, "", s, w = self.indent);
        }
    }

    /// Calls into the code under test.  A panic is a violation.
    pub fn lib<T>(&mut self, op: &'static str, f: impl FnOnce() -> T) -> Res<T> {
        self.lib_m(op, f).map(|x| x.0)
    }
    /// A call with huge data, unmeasured so that it stays quick.
    pub fn lib_raw<T>(&mut self, op: &'static str, f: impl FnOnce() -> T) -> Res<T> {
        self.sh.in_lib = 1;
        let r = catch_unwind(AssertUnwindSafe(f));
        self.sh.in_lib = 0;
        r.map_err(|_| Fail { class: format!("panic in {}", op), msg: format!("{} panicked: {}", op, last_panic()) })
    }
    pub fn lib_m<T>(&mut self, op: &'static str, f: impl FnOnce() -> T) -> Res<(T, Meas)> {
        let h = hk();
        let s0 = h.steps;
        let local = 0u8;
        h.stack_low = &local as *const u8 as usize;
        let base = h.stack_low;
        h.cur = 0;
        h.peak = 0;
        h.biggest = 0;
        let (t0, c0) = (h.total, h.moved);
        unsafe {
            hooks::VCLOCK = Some(self.now);
        }
        self.sh.in_lib = 1;
        h.step_limit = s0 + self.limit;
        h.active = true;
        let r = catch_unwind(AssertUnwindSafe(f));
        let h = hk();
        h.active = false;
        self.sh.in_lib = 0;
        let m = Meas {
            steps: h.steps - s0,
            peak: h.peak,
            biggest: h.biggest,
            stack: base.saturating_sub(h.stack_low),
            total: h.total - t0,
            moved: h.moved - c0,
        };
        self.sh.steps += m.steps;
        match r {
            Ok(x) => Ok((x, m)),
            Err(_) => Err(Fail {
                class: format!("panic in {}", op),
                msg: format!("{} panicked: {}", op, last_panic()),
            }),
        }
    }
}

static mut PANIC: String = String::new();

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let a = hk().active;
        let t = hk().threads;
        hk().active = false;
        hk().threads = false;
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        unsafe {
            *std::ptr::addr_of_mut!(PANIC) = format!("{} at {}", m, l);
        }
        hk().threads = t;
        hk().active = a;
    }));
}

#[allow(static_mut_refs)]
pub fn last_panic() -> String {
    unsafe { (*std::ptr::addr_of!(PANIC)).clone() }
}

// ------------------------------------------------------------ discrete events

struct Item<E> {
    at: u64,
    seq: u64,
    e: E,
}
impl<E> PartialEq for Item<E> {
    fn eq(&self, o: &Self) -> bool {
        (self.at, self.seq) == (o.at, o.seq)
    }
}
impl<E> Eq for Item<E> {}
impl<E> PartialOrd for Item<E> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl<E> Ord for Item<E> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (o.at, o.seq).cmp(&(self.at, self.seq))
    }
}

/// Events ordered by (virtual time, insertion).
pub struct Queue<E> {
    q: BinaryHeap<Item<E>>,
    seq: u64,
}
impl<E> Queue<E> {
    pub fn new() -> Self {
        Queue { q: BinaryHeap::new(), seq: 0 }
    }
    pub fn at(&mut self, at: u64, e: E) {
        self.seq += 1;
        self.q.push(Item { at, seq: self.seq, e });
    }
    pub fn pop(&mut self, cx: &mut Ctx) -> Option<E> {
        let i = self.q.pop()?;
        if i.at > cx.now {
            cx.now = i.at;
        }
        cx.sh.sim_ns = cx.now;
        Some(i.e)
    }
    pub fn len(&self) -> usize {
        self.q.len()
    }
}

pub const MS: u64 = 1_000_000;

/// The faults of a datagram network in one run (swarm style: each kind is on or off per run).
#[derive(Clone, Debug)]
pub struct NetCfg {
    pub drop: u64,
    pub dup: u64,
    pub jitter: u64,
    pub stall: u64,
}
impl NetCfg {
    pub fn draw(cx: &mut Ctx) -> NetCfg {
        let s = &mut cx.src;
        NetCfg {
            drop: if s.flag() { s.range(2, 30) } else { 0 },
            dup: if s.flag() { s.range(2, 30) } else { 0 },
            jitter: *s.pick(&[0, 1, 10, 200]),
            stall: if s.chance(1, 4) { s.range(1, 10) } else { 0 },
        }
    }
    /// The delays after which copies of a datagram arrive.
    pub fn deliver(&self, cx: &mut Ctx) -> Vec<u64> {
        let mut v = Vec::new();
        if self.drop > 0 && cx.src.chance(self.drop, 100) {
            cx.fault("message lost");
            return v;
        }
        let one = |cx: &mut Ctx| {
            let mut d = MS + cx.src.below(self.jitter + 1) * MS;
            if self.stall > 0 && cx.src.chance(self.stall, 100) {
                cx.fault("link stalled");
                d += 5000 * MS;
            }
            d
        };
        v.push(one(cx));
        if self.dup > 0 && cx.src.chance(self.dup, 100) {
            cx.fault("message duplicated");
            let d = one(cx);
            v.push(d);
        }
        v
    }
}
