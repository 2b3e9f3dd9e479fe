//! The few operating-system calls the supervisor and the helper processes need.
extern "C" {
    pub fn fork() -> i32;
    pub fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    pub fn _exit(c: i32) -> !;
    pub fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    pub fn setitimer(which: i32, new: *const [i64; 4], old: *mut [i64; 4]) -> i32;
    pub fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn read(fd: i32, p: *mut u8, n: usize) -> isize;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn close(fd: i32) -> i32;
    fn personality(p: u64) -> i32;
}

/// Addresses are the same in every process that executes a schedule: turns their randomisation
/// off and starts again, where the system allows it.
pub fn fixed_addresses() {
    use std::os::unix::process::CommandExt;
    const NO_RANDOMIZE: u64 = 0x0040000;
    unsafe {
        let p = personality(0xffffffff);
        if p < 0 || p as u64 & NO_RANDOMIZE != 0 || std::env::var_os("DBSIM_AGAIN").is_some() {
            return;
        }
        if personality(p as u64 | NO_RANDOMIZE) < 0 {
            return;
        }
    }
    let _ = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).env("DBSIM_AGAIN", "1").exec();
}

/// Zero-filled memory shared with every process forked later.
pub fn shared<T>() -> *mut T {
    unsafe {
        // PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE
        let p = mmap(std::ptr::null_mut(), std::mem::size_of::<T>(), 3, 0x1 | 0x20 | 0x4000, -1, 0);
        assert!(p as isize != -1, "mmap failed");
        p as *mut T
    }
}

/// A process forked before the library was used in this run.  Every call is executed in a new
/// child of it, so in a process in which the library has never been used: this is how a run gets
/// "after a crash and restart" and "in another process".
pub struct Zygote {
    to: i32,
    from: i32,
}

impl Zygote {
    /// `f` maps the request to the response; both travel through `buf` (shared memory).
    pub fn start(buf: *mut u8, len: *mut usize, cap: usize, f: &dyn Fn(&[u8]) -> Vec<u8>) -> Zygote {
        unsafe {
            let mut a = [0i32; 2];
            let mut b = [0i32; 2];
            assert!(pipe(a.as_mut_ptr()) == 0 && pipe(b.as_mut_ptr()) == 0, "pipe failed");
            let pid = fork();
            assert!(pid >= 0, "fork failed");
            if pid == 0 {
                prctl(1, 9, 0, 0, 0);
                close(a[1]);
                close(b[0]);
                loop {
                    let mut c = 0u8;
                    if read(a[0], &mut c, 1) != 1 {
                        _exit(0);
                    }
                    let pid = fork();
                    if pid == 0 {
                        prctl(1, 9, 0, 0, 0);
                        // another process has another randomness
                        crate::hooks::RANDOM ^= 0x5851f42d4c957f2d;
                        let it = [0i64, 0, 20, 0];
                        setitimer(2, &it, std::ptr::null_mut());
                        let req = std::slice::from_raw_parts(buf, *len).to_vec();
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&req)));
                        match r {
                            Ok(v) => {
                                let n = v.len().min(cap);
                                std::ptr::copy_nonoverlapping(v.as_ptr(), buf, n);
                                *len = v.len();
                                _exit(0)
                            }
                            Err(_) => {
                                let m = crate::kernel::last_panic();
                                let n = m.len().min(cap);
                                std::ptr::copy_nonoverlapping(m.as_ptr(), buf, n);
                                *len = n;
                                _exit(1)
                            }
                        }
                    }
                    let mut st = 0;
                    while waitpid(pid, &mut st, 0) != pid {}
                    // 0 fine, 1 panicked, 2 died
                    let r: u8 = if st == 0 {
                        0
                    } else if st == 0x100 {
                        1
                    } else {
                        2
                    };
                    if write(b[1], &r, 1) != 1 {
                        _exit(0);
                    }
                }
            }
            close(a[0]);
            close(b[1]);
            Zygote { to: a[1], from: b[0] }
        }
    }
    /// 0 fine, 1 panicked, 2 died, 9 the zygote is gone
    pub fn call(&self) -> u8 {
        unsafe {
            let x = 1u8;
            if write(self.to, &x, 1) != 1 {
                return 9;
            }
            let mut r = 0u8;
            if read(self.from, &mut r, 1) != 1 {
                return 9;
            }
            r
        }
    }
}
impl Drop for Zygote {
    fn drop(&mut self) {
        unsafe {
            close(self.to);
            close(self.from);
        }
    }
}
