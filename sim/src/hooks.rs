//! The seams the simulator owns below the library: SanitizerCoverage callbacks compiled into the
//! crate under test (step clock, preemption points, coverage), the global allocator (memory
//! accounting), and the `syscall` / sleep / clock symbols of libc (so that std's own locks and
//! clocks inside simulated threads are decided by the simulator, not by the kernel).
use std::alloc::{GlobalAlloc, Layout, System};
use std::arch::asm;

pub const MAX_GUARDS: usize = 1 << 14;

/// State of the hooks.  A run is one process in which at most one thread runs at a time (the
/// thread simulator hands over a baton), so plain statics are enough.
pub struct H {
    pub active: bool,
    pub steps: u64,
    pub step_limit: u64,
    pub stack_base: usize,
    pub stack_low: usize,
    pub cur: i64,
    pub peak: i64,
    pub total: u64,
    /// bytes copied by memcpy, memmove and memset
    pub moved: u64,
    pub allocs: u64,
    pub biggest: usize,
    pub hard_cap: i64,
    pub calib: bool,
    pub consts: *mut Consts,
    pub nguards: u32,
    pub cov: *mut u8,
    pub threads: bool,
}

pub static mut HK: H = H {
    active: false,
    steps: 0,
    step_limit: u64::MAX,
    stack_base: 0,
    stack_low: usize::MAX,
    cur: 0,
    peak: 0,
    total: 0,
    moved: 0,
    allocs: 0,
    biggest: 0,
    hard_cap: i64::MAX,
    calib: false,
    consts: std::ptr::null_mut(),
    nguards: 0,
    cov: std::ptr::null_mut(),
    threads: false,
};

#[allow(static_mut_refs)]
#[inline(always)]
pub fn hk() -> &'static mut H {
    unsafe { &mut *std::ptr::addr_of_mut!(HK) }
}

/// Called when a limit that cannot be unwound from is passed; writes the outcome and exits.
pub static mut FATAL: Option<fn(&'static str, u64) -> !> = None;

fn fatal(what: &'static str, n: u64) -> ! {
    unsafe {
        if let Some(f) = FATAL {
            f(what, n)
        }
        std::process::abort()
    }
}

#[inline(always)]
fn point(kind: u8) {
    let h = hk();
    if h.threads {
        crate::threads::preempt(kind);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut start: *mut u32, stop: *mut u32) {
    let h = hk();
    while start < stop {
        if *start == 0 {
            h.nguards += 1;
            *start = h.nguards;
        }
        start = start.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    let h = hk();
    if !h.active {
        return;
    }
    h.steps += 1;
    let g = *guard as usize;
    if !h.cov.is_null() && g < MAX_GUARDS {
        *h.cov.add(g) = 1;
    }
    let local = 0u8;
    let sp = &local as *const u8 as usize;
    if sp < h.stack_low {
        h.stack_low = sp;
    }
    if h.steps > h.step_limit {
        h.active = false;
        fatal("steps", h.steps);
    }
    point(0);
}

#[inline(always)]
fn note(v: u64) {
    let h = hk();
    if h.calib && h.active {
        let c = unsafe { &mut *h.consts };
        for i in 0..c.n {
            if c.v[i] == v {
                return;
            }
        }
        if c.n < c.v.len() {
            c.v[c.n] = v;
            c.n += 1;
        }
    }
}

/// What a calibration pass learns about the code under test: numbers and (static) byte strings
/// it compares its inputs with.  Lives in memory shared between processes.
#[repr(C)]
pub struct Consts {
    pub n: usize,
    pub v: [u64; 4096],
    pub nt: usize,
    pub t: [(u8, [u8; 63]); 1024],
}

extern "C" {
    static __executable_start: u8;
    static edata: u8;
}

unsafe fn note_text(p: *const u8, n: usize) {
    let lo = std::ptr::addr_of!(__executable_start) as usize;
    let hi = std::ptr::addr_of!(edata) as usize;
    if n < 3 || n > 63 || (p as usize) < lo || (p as usize) >= hi {
        return;
    }
    let s = std::slice::from_raw_parts(p, n);
    let c = &mut *hk().consts;
    'o: for i in 0..c.nt {
        if c.t[i].0 as usize == n {
            for j in 0..n {
                if c.t[i].1[j] != s[j] {
                    continue 'o;
                }
            }
            return;
        }
    }
    if c.nt < c.t.len() {
        c.t[c.nt].0 = n as u8;
        for j in 0..n {
            c.t[c.nt].1[j] = s[j];
        }
        c.nt += 1;
    }
}

#[inline(always)]
unsafe fn cmp_bytes(a: *const u8, b: *const u8, n: usize) -> i32 {
    if hk().calib && hk().active {
        note_text(a, n);
        note_text(b, n);
    }
    let mut i = 0;
    while i + 8 <= n {
        let x = (a.add(i) as *const u64).read_unaligned();
        let y = (b.add(i) as *const u64).read_unaligned();
        if x != y {
            return if x.swap_bytes() < y.swap_bytes() { -1 } else { 1 };
        }
        i += 8;
    }
    while i < n {
        let x = a.add(i).read_volatile();
        let y = b.add(i).read_volatile();
        if x != y {
            return x as i32 - y as i32;
        }
        i += 1;
    }
    0
}

/// Copies are work that the step clock does not see.
#[no_mangle]
pub unsafe extern "C" fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    hk().moved += n as u64;
    asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack, preserves_flags));
    d
}
#[no_mangle]
pub unsafe extern "C" fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    hk().moved += n as u64;
    if (d as usize).wrapping_sub(s as usize) >= n {
        asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack, preserves_flags));
    } else {
        // backwards, in words
        let mut i = n;
        while i >= 8 {
            i -= 8;
            let w = (s.add(i) as *const u64).read_unaligned();
            (d.add(i) as *mut u64).write_unaligned(w);
            std::sync::atomic::compiler_fence(std::sync::atomic::Ordering::SeqCst);
        }
        while i > 0 {
            i -= 1;
            let w = s.add(i).read_volatile();
            d.add(i).write_volatile(w);
        }
    }
    d
}

#[no_mangle]
pub unsafe extern "C" fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    cmp_bytes(a, b, n)
}
#[no_mangle]
pub unsafe extern "C" fn bcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    cmp_bytes(a, b, n)
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp1(_a: u8, _b: u8) {}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp2(a: u16, _b: u16) {
    note(a as u64)
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp4(a: u32, _b: u32) {
    note(a as u64)
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp8(a: u64, _b: u64) {
    note(a)
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp1(_a: u8, _b: u8) {}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp2(_a: u16, _b: u16) {}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp4(_a: u32, _b: u32) {}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp8(_a: u64, _b: u64) {}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_switch(_v: u64, cases: *const u64) {
    if hk().calib && *cases.add(1) > 8 {
        for i in 0..*cases {
            note(*cases.add(2 + i as usize));
        }
    }
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_indir(_c: u64) {}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_div4(_v: u32) {}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_div8(_v: u64) {}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_gep(_v: u64) {}

macro_rules! mem {
    ($($n:ident),*) => { $(#[no_mangle] pub extern "C" fn $n(_a: *const u8) { point(1) })* };
}
mem!(
    __sanitizer_cov_load1,
    __sanitizer_cov_load2,
    __sanitizer_cov_load4,
    __sanitizer_cov_load8,
    __sanitizer_cov_load16,
    __sanitizer_cov_store1,
    __sanitizer_cov_store2,
    __sanitizer_cov_store4,
    __sanitizer_cov_store8,
    __sanitizer_cov_store16
);

pub struct Alloc;

#[global_allocator]
static A: Alloc = Alloc;

#[inline(always)]
fn on_alloc(n: usize) {
    let h = hk();
    if h.active {
        if h.threads {
            crate::threads::preempt(2);
        }
        h.cur += n as i64;
        h.total += n as u64;
        h.allocs += 1;
        if n > h.biggest {
            h.biggest = n;
        }
        if h.cur > h.peak {
            h.peak = h.cur;
            if h.peak > h.hard_cap {
                h.active = false;
                fatal("memory", h.peak as u64);
            }
        }
    }
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        on_alloc(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        on_alloc(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = hk();
        if h.active {
            h.cur -= l.size() as i64;
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        on_alloc(n);
        let h = hk();
        if h.active {
            h.cur -= l.size() as i64;
        }
        System.realloc(p, l, n)
    }
}

#[inline(always)]
pub unsafe fn raw_syscall(n: i64, a: [u64; 6]) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r,
        in("rdi") a[0], in("rsi") a[1], in("rdx") a[2], in("r10") a[3], in("r8") a[4], in("r9") a[5],
        lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

extern "C" {
    fn __errno_location() -> *mut i32;
}

/// Replaces libc's `syscall`: std issues its futex operations through it.  Inside a simulated
/// thread a futex wait or wake is an event of the simulator; everything else goes to the kernel.
#[no_mangle]
pub unsafe extern "C" fn syscall(
    n: i64,
    a: u64,
    b: u64,
    c: u64,
    d: u64,
    e: u64,
    f: u64,
) -> i64 {
    const SYS_FUTEX: i64 = 202;
    let r = if n == SYS_FUTEX && hk().threads && crate::threads::in_sim() {
        crate::threads::futex(a, b as i32, c as u32, d, f as u32)
    } else {
        raw_syscall(n, [a, b, c, d, e, f])
    };
    if r < 0 && r > -4096 {
        *__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}

#[repr(C)]
pub struct Timespec {
    pub sec: i64,
    pub nsec: i64,
}

/// Sleeping inside a simulated thread moves the virtual clock only.
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const Timespec, _rem: *mut Timespec) -> i32 {
    if hk().threads && crate::threads::in_sim() {
        crate::threads::sleep((*req).sec as u64 * 1_000_000_000 + (*req).nsec as u64);
        return 0;
    }
    raw_syscall(35, [req as u64, 0, 0, 0, 0, 0]) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    clk: i32,
    flags: i32,
    req: *const Timespec,
    rem: *mut Timespec,
) -> i32 {
    if hk().threads && crate::threads::in_sim() {
        crate::threads::sleep((*req).sec as u64 * 1_000_000_000 + (*req).nsec as u64);
        return 0;
    }
    (-raw_syscall(230, [clk as u64, flags as u64, req as u64, rem as u64, 0, 0])) as i32
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if hk().threads && crate::threads::in_sim() {
        crate::threads::yield_now();
        return 0;
    }
    raw_syscall(24, [0; 6]) as i32
}

/// The randomness of the operating system: a stream that is part of the schedule of a run.
pub static mut RANDOM: u64 = 0x9e3779b97f4a7c15;

#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, _flags: u32) -> isize {
    for i in 0..n {
        let r = crate::choice::splitmix(&mut *std::ptr::addr_of_mut!(RANDOM));
        p.add(i).write_volatile((r >> 32) as u8);
    }
    n as isize
}

/// The virtual clock of a run, in nanoseconds.  Set by the event kernel; read by anything in the
/// process that asks the operating system for the time while a run is active.
pub static mut VCLOCK: Option<u64> = None;

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut Timespec) -> i32 {
    if let (true, Some(v)) = (hk().active, VCLOCK) {
        let v = v + 1_600_000_000_000_000_000;
        (*ts).sec = (v / 1_000_000_000) as i64;
        (*ts).nsec = (v % 1_000_000_000) as i64;
        return 0;
    }
    raw_syscall(228, [clk as u64, ts as u64, 0, 0, 0, 0]) as i32
}
