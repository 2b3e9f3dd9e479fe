//! The supervisor: forks one process per simulated run, spreads runs over workers, minimises and
//! records violations, and writes the evidence.
use crate::choice::{splitmix, Dict, Src};
use crate::hooks::{self, hk, Consts, MAX_GUARDS};
use crate::kernel::*;
use crate::scen::{self, Prop};
use crate::sys::*;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::time::Instant;

const NHASH: usize = 1 << 22;

#[repr(C)]
struct Agg {
    runs: u64,
    events: u64,
    steps: u64,
    sim_ns: u64,
    choices: u64,
    nontrivial: u64,
    ncount: usize,
    counts: [(*const u8, usize, u64, u8, u64); NCOUNT],
    nhash: usize,
    hashes: [u64; NHASH],
    cov: [u8; MAX_GUARDS],
    cpu_over: u64,
}

#[repr(C)]
struct Global {
    /// lowest run index that violated (or failed) so far
    stop: u64,
    harness_err: u64,
    stop_time: u64,
}

#[derive(Clone, PartialEq, Debug)]
enum Out {
    Held,
    Violated(String, String),
    Harness(String),
}

static mut SH: *mut Shared = std::ptr::null_mut();

fn on_fatal(what: &'static str, n: u64) -> ! {
    unsafe {
        let sh = &mut *SH;
        let (c, m) = match what {
            "steps" => ("does not terminate".to_string(), format!("no end after {} steps inside the library", n)),
            "memory" => ("memory exhausted".to_string(), format!("{} bytes allocated by one operation", n)),
            "deadlock" => ("deadlock".to_string(), format!("no thread can run (after {} scheduling points)", n)),
            w => (w.to_string(), format!("gave up after {} scheduling points", n)),
        };
        set(sh, 2, &c, &m);
        _exit(77)
    }
}

fn set(sh: &mut Shared, st: u32, c: &str, m: &str) {
    let b = c.as_bytes();
    let n = b.len().min(sh.class.len());
    sh.class[..n].copy_from_slice(&b[..n]);
    sh.nclass = n as u32;
    let b = m.as_bytes();
    let n = b.len().min(sh.msg.len());
    sh.msg[..n].copy_from_slice(&b[..n]);
    sh.nmsg = n as u32;
    sh.status = st;
}

fn seed_of(seed: u64, prop: &str, idx: u64) -> u64 {
    let mut x = seed ^ 0x5bd1e995;
    for b in prop.bytes() {
        x = splitmix(&mut x) ^ b as u64;
    }
    x ^= idx.wrapping_mul(0x9E3779B97F4A7C15);
    splitmix(&mut x)
}

enum How<'a> {
    Seed(u64),
    Choices(&'a [u64]),
}

/// One simulated run in a process of its own.
fn run_forked(p: &Prop, how: How, dict: &Dict, sh: *mut Shared, cov: *mut u8, verbose: bool, calib: *mut Consts) -> Out {
    unsafe {
        let s = &mut *sh;
        s.status = 0;
        s.ncount = 0;
        s.hash = 0xcbf29ce484222325;
        s.sim_ns = 0;
        s.events = 0;
        s.steps = 0;
        s.nontrivial = 0;
        s.nrec = 0;
        s.in_lib = 0;
        use std::io::Write;
        let _ = std::io::stdout().flush();
        let pid = fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            SH = sh;
            hooks::FATAL = Some(on_fatal);
            prctl(1, 9, 0, 0, 0);
            // CPU time limit of a run: 150 s (a run takes milliseconds)
            let it = [0i64, 0, 150, 0];
            setitimer(2, &it, std::ptr::null_mut());
            let h = hk();
            h.cov = cov;
            h.step_limit = STEP_LIMIT;
            h.hard_cap = 6 << 30;
            if !calib.is_null() {
                h.calib = true;
                h.consts = calib;
            }
            let (rec, nrec) = (s.rec.as_mut_ptr(), &mut s.nrec as *mut u64);
            let src = match how {
                How::Seed(x) => Src::record(x, dict.clone(), rec, nrec, CAP as u64),
                How::Choices(c) => Src::replay(c.to_vec(), dict.clone(), rec, nrec, CAP as u64),
            };
            let mut src = src;
            hooks::RANDOM = 0x9e3779b97f4a7c15 ^ src.below(1 << 20);
            let mut cx = Ctx { src, now: 0, verbose, limit: STEP_LIMIT, shown: Default::default(), sh: &mut *sh, indent: 0 };
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(&mut cx)));
            let s = &mut *sh;
            match r {
                Ok(Ok(())) => s.status = 1,
                Ok(Err(f)) => {
                    if f.class == "HARNESS" {
                        set(s, 3, "harness", &f.msg)
                    } else {
                        set(s, 2, &f.class, &f.msg)
                    }
                }
                Err(_) => {
                    let m = last_panic();
                    if m.contains("the replayed schedule does not end") {
                        set(s, 3, "harness", &m)
                    } else {
                        // the scenarios do not panic on what a correct library returns
                        set(s, 2, "what the library returned breaks its user", &m)
                    }
                }
            }
            let _ = std::io::stdout().flush();
            _exit(0);
        }
        let mut st = 0;
        while waitpid(pid, &mut st, 0) != pid {}
        let s = &*sh;
        let text = |b: &[u8], n: u32| String::from_utf8_lossy(&b[..n as usize]).into_owned();
        match s.status {
            1 => Out::Held,
            2 => Out::Violated(text(&s.class, s.nclass), text(&s.msg, s.nmsg)),
            3 => Out::Harness(text(&s.msg, s.nmsg)),
            _ => {
                let sig = st & 0x7f;
                if sig == 9 {
                    return Out::Harness("a run was killed from outside".into());
                }
                if s.in_lib == 0 && sig != 27 {
                    return Out::Violated("what the library returned breaks its user".into(), format!("the process died while using it, wait status {:#x}", st));
                }
                let c = match sig {
                    11 | 7 => "crash (stack exhausted or memory fault)",
                    6 => "abort",
                    27 => "does not terminate",
                    4 | 5 => "trap",
                    8 => "arithmetic trap",
                    _ => "died",
                };
                Out::Violated(c.to_string(), format!("the process died inside the library, wait status {:#x}", st))
            }
        }
    }
}

fn calibrate(p: &Prop, sh: *mut Shared, cov: *mut u8) -> Result<Dict, String> {
    let c = shared::<Consts>();
    for i in 0..160u64 {
        // the calibration corpus never depends on VERIF_SEED
        let s = seed_of(0xCA11B, p.id, i);
        if let Out::Harness(m) = run_forked(p, How::Seed(s), &Dict::default(), sh, cov, false, c) {
            return Err(m);
        }
    }
    let c = unsafe { &*c };
    let mut nums: Vec<u64> = c.v[..c.n].iter().copied().filter(|x| *x > 1).collect();
    nums.sort();
    nums.dedup();
    let mut texts: Vec<String> = c.t[..c.nt]
        .iter()
        .filter_map(|(n, b)| std::str::from_utf8(&b[..*n as usize]).ok().map(|s| s.to_string()))
        .collect();
    texts.sort();
    texts.dedup();
    let (mut nums, mut texts) = (nums, texts);
    crate::srcdict::add(&mut nums, &mut texts);
    Ok(Dict { nums, texts })
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d)
}

fn merge_run(a: &mut Agg, s: &Shared) {
    a.runs += 1;
    a.events += s.events;
    a.steps += s.steps;
    a.sim_ns += s.sim_ns;
    a.choices += s.nrec;
    if s.nontrivial != 0 {
        a.nontrivial += 1;
        if a.nhash < NHASH {
            a.hashes[a.nhash] = s.hash;
            a.nhash += 1;
        }
    }
    for i in 0..s.ncount as usize {
        let c = s.counts[i];
        let mut j = 0;
        while j < a.ncount && !(a.counts[j].0 == c.0 && a.counts[j].1 == c.1) {
            j += 1;
        }
        if j == a.ncount {
            if j == NCOUNT {
                continue;
            }
            a.counts[j] = (c.0, c.1, 0, c.3, 0);
            a.ncount += 1;
        }
        a.counts[j].2 += c.2;
        a.counts[j].4 += 1;
    }
}

pub fn main() -> i32 {
    install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
    match cmd {
        "check" => check(&a[2]),
        "replay" => replay(&a[2]),
        "one" => one(&a[2], a[3].parse().unwrap()),
        "hashes" => hashes(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap()),
        "dict" => {
            let p = find(&a[2]).unwrap();
            let d = calibrate(p, shared(), shared::<[u8; MAX_GUARDS]>() as *mut u8);
            match d {
                Ok(d) => {
                    println!("{:?}\n{:?}", d.nums, d.texts);
                    0
                }
                Err(m) => {
                    println!("{}", m);
                    2
                }
            }
        }
        "list" => {
            for p in scen::PROPS {
                println!("{}", p.id)
            }
            0
        }
        _ => {
            eprintln!("usage: dbsim check|replay|one|hashes|dict|list ...");
            2
        }
    }
}

fn find(id: &str) -> Option<&'static Prop> {
    scen::PROPS.iter().find(|p| p.id == id)
}

fn one(id: &str, idx: u64) -> i32 {
    let p = find(id).unwrap();
    let seed = env_u64("VERIF_SEED", 1);
    let sh = shared::<Shared>();
    let cov = shared::<[u8; MAX_GUARDS]>() as *mut u8;
    let d = if idx % 4 == 0 { Dict::default() } else { calibrate(p, sh, cov).unwrap() };
    let o = run_forked(p, How::Seed(seed_of(seed, id, idx)), &d, sh, cov, true, std::ptr::null_mut());
    println!("{:?}", o);
    0
}

/// Prints the event hash of every run, for the determinism audit.
fn hashes(id: &str, from: u64, n: u64) -> i32 {
    let p = find(id).unwrap();
    let seed = env_u64("VERIF_SEED", 1);
    let sh = shared::<Shared>();
    let cov = shared::<[u8; MAX_GUARDS]>() as *mut u8;
    let cal = calibrate(p, sh, cov).unwrap();
    for idx in from..from + n {
        let d = if idx % 4 == 0 { Dict::default() } else { cal.clone() };
        let o = run_forked(p, How::Seed(seed_of(seed, id, idx)), &d, sh, cov, false, std::ptr::null_mut());
        let s = unsafe { &*sh };
        let k = match o {
            Out::Held => "held".to_string(),
            Out::Violated(c, _) => format!("violated {}", c),
            Out::Harness(m) => format!("harness {}", m),
        };
        println!("{} {} {:016x} {} {} {} {} {}", id, idx, s.hash, s.nrec, s.events, s.steps, s.sim_ns, k);
    }
    0
}

fn check(id: &str) -> i32 {
    let t0 = Instant::now();
    let p = match find(id) {
        Some(p) => p,
        None => {
            eprintln!("no such property: {}", id);
            return 2;
        }
    };
    let seed = env_u64("VERIF_SEED", 1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let workers = env_u64("VERIF_WORKERS", 8).max(1);
    let total = env_u64("VERIF_RUNS", if thorough { p.quick * p.factor } else { p.quick });
    let cap = env_u64("VERIF_CAP_S", if thorough { 780 } else { 150 });
    println!("dbsim: property {} seed {} tier {} runs {} workers {}", id, seed, tier, total, workers);

    let sh0 = shared::<Shared>();
    let cov0 = shared::<[u8; MAX_GUARDS]>() as *mut u8;
    let dict = match calibrate(p, sh0, cov0) {
        Ok(d) => d,
        Err(m) => {
            eprintln!("HARNESS ERROR during calibration: {}", m);
            return 2;
        }
    };

    // fixed probes: known findings
    let mut known_lines = Vec::new();
    if let Some(k) = p.known {
        for (name, f) in k {
            if !listed(id, name) {
                continue;
            }
            let kp = Prop { run: *f, ..*p };
            if let Out::Violated(c, m) = run_forked(&kp, How::Choices(&[]), &Dict::default(), sh0, cov0, false, std::ptr::null_mut()) {
                known_lines.push(format!("KNOWN-FINDING: property={} {}: {}: {}", id, name, c, m).replace('\n', " "));
            }
        }
    }

    let g = shared::<Global>();
    unsafe {
        (*g).stop = u64::MAX;
    }
    let mut aggs = Vec::new();
    let mut pids = Vec::new();
    for w in 0..workers {
        let ag = shared::<Agg>();
        aggs.push(ag);
        let pid = unsafe { fork() };
        assert!(pid >= 0);
        if pid == 0 {
            unsafe {
                prctl(1, 9, 0, 0, 0);
            }
            let sh = shared::<Shared>();
            let a = unsafe { &mut *ag };
            let cov = a.cov.as_mut_ptr();
            let gg = g;
            let mut idx = w;
            let empty = Dict::default();
            while idx < total {
                unsafe {
                    let stop = std::ptr::read_volatile(&(*gg).stop);
                    if idx > stop || t0.elapsed().as_secs() >= cap {
                        break;
                    }
                }
                let d = if idx % 4 == 0 { &empty } else { &dict };
                match run_forked(p, How::Seed(seed_of(seed, id, idx)), d, sh, cov, false, std::ptr::null_mut()) {
                    Out::Held => {}
                    Out::Violated(..) | Out::Harness(_) => unsafe {
                        let at = &*(&(*gg).stop as *const u64 as *const std::sync::atomic::AtomicU64);
                        at.fetch_min(idx, std::sync::atomic::Ordering::SeqCst);
                    },
                }
                merge_run(a, unsafe { &*sh });
                idx += workers;
            }
            unsafe { _exit(0) }
        }
        pids.push(pid);
    }
    let mut bad_worker = false;
    for pid in pids {
        let mut st = 0;
        unsafe { while waitpid(pid, &mut st, 0) != pid {} }
        if st != 0 {
            bad_worker = true;
        }
    }
    let search_s = t0.elapsed().as_secs_f64();
    let stop = unsafe { std::ptr::read_volatile(&(*g).stop) };
    let mut code = 0;
    let mut violations = 0;
    let mut replay_path = String::new();
    if stop != u64::MAX {
        let d = if stop % 4 == 0 { Dict::default() } else { dict.clone() };
        let mut o = Out::Held;
        for _ in 0..20 {
            o = run_forked(p, How::Seed(seed_of(seed, id, stop)), &d, sh0, cov0, false, std::ptr::null_mut());
            if o != Out::Held {
                break;
            }
        }
        match o {
            Out::Violated(c, m) => {
                violations = 1;
                code = 1;
                replay_path = report(p, seed, stop, &c, &m, &d, sh0, cov0);
            }
            Out::Harness(m) => {
                eprintln!("HARNESS ERROR in run {}: {}", stop, m);
                return 2;
            }
            Out::Held => {
                eprintln!("HARNESS ERROR: run {} failed once and held when repeated", stop);
                return 2;
            }
        }
    } else if bad_worker {
        eprintln!("HARNESS ERROR: a worker died");
        return 2;
    }
    // a few sample runs, written out
    let mut samples = Vec::new();
    for idx in [1u64, 2, 5] {
        if idx < total {
            let d = if idx % 4 == 0 { Dict::default() } else { dict.clone() };
            let o = run_forked(p, How::Seed(seed_of(seed, id, idx)), &d, sh0, cov0, false, std::ptr::null_mut());
            let s = unsafe { &*sh0 };
            let n = (s.nrec as usize).min(CAP);
            let mut what = String::new();
            for i in 0..s.ncount as usize {
                let c = s.counts[i];
                let nm = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(c.0, c.1)) };
                let _ = write!(what, "{}{}={}", if i > 0 { ", " } else { "" }, nm, c.2);
            }
            samples.push(format!(
                "run {}: {} choices (first {:?}), {} events, {} library steps, {} ns simulated, event hash {:016x}, {}; {}",
                idx, s.nrec, &s.rec[..n.min(12)], s.events, s.steps, s.sim_ns, s.hash,
                if o == Out::Held { "held" } else { "violated" }, what
            ));
        }
    }
    evidence(p, seed, &tier, total, &aggs, search_s, t0.elapsed().as_secs_f64(), &samples, violations, &dict, workers, &known_lines);
    for l in known_lines {
        println!("{}", l);
    }
    if code == 1 {
        println!("VIOLATION property={} replay={}", id, replay_path);
    }
    code
}

fn listed(id: &str, name: &str) -> bool {
    let f = std::fs::read_to_string(root() + "/KNOWN_FINDINGS").unwrap_or_default();
    f.lines().any(|l| l.starts_with("finding:") && l.contains(&format!("property={} ", id)) && l.contains(name))
}

fn minimise(p: &Prop, class: &str, first: Vec<u64>, d: &Dict, sh: *mut Shared, cov: *mut u8) -> (Vec<u64>, u64) {
    let t0 = Instant::now();
    let budget = env_u64("VERIF_MIN_S", 25);
    let mut best = first;
    let mut tries = 0u64;
    let mut test = |c: &[u64]| -> Option<Vec<u64>> {
        if t0.elapsed().as_secs() >= budget {
            return None;
        }
        tries += 1;
        match run_forked(p, How::Choices(c), d, sh, cov, false, std::ptr::null_mut()) {
            Out::Violated(k, _) if k == class => {
                let s = unsafe { &*sh };
                let n = (s.nrec as usize).min(CAP);
                let mut v = s.rec[..n].to_vec();
                while v.last() == Some(&0) {
                    v.pop();
                }
                Some(v)
            }
            _ => None,
        }
    };
    let better = |a: &Vec<u64>, b: &Vec<u64>| (a.len(), a) < (b.len(), b);
    loop {
        let before = best.clone();
        // cut the tail
        let mut n = best.len() / 2;
        while n > 0 {
            if n < best.len() {
                let c = best[..best.len() - n].to_vec();
                if let Some(v) = test(&c) {
                    if better(&v, &best) {
                        best = v;
                        continue;
                    }
                }
            }
            n /= 2;
        }
        // delete and zero blocks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                let e = (i + size).min(best.len());
                let mut c = best[..i].to_vec();
                c.extend_from_slice(&best[e..]);
                if let Some(v) = test(&c) {
                    if better(&v, &best) {
                        best = v;
                        continue;
                    }
                }
                if best[i..e].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..e].iter_mut().for_each(|x| *x = 0);
                    if let Some(v) = test(&c) {
                        if better(&v, &best) {
                            best = v;
                        }
                    }
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // lower single values
        for i in 0..best.len() {
            if i >= best.len() {
                break;
            }
            let mut step = best[i];
            while step > 0 && i < best.len() {
                if best[i] < step {
                    step /= 2;
                    continue;
                }
                let mut c = best.clone();
                c[i] -= step;
                match test(&c) {
                    Some(v) if better(&v, &best) => best = v,
                    _ => step /= 2,
                }
            }
        }
        if best == before || t0.elapsed().as_secs() >= budget {
            break;
        }
    }
    (best, tries)
}

fn report(p: &Prop, seed: u64, idx: u64, class: &str, msg: &str, d: &Dict, sh: *mut Shared, cov: *mut u8) -> String {
    let n0 = unsafe { (*sh).nrec as usize };
    let first: Vec<u64> = unsafe { (&(*sh).rec)[..n0.min(CAP)].to_vec() };
    println!("violation of {} in run {} (seed {}): {}\n  {}", p.id, idx, seed, class, msg);
    // the recorded choices must reproduce it before they are minimised
    let again = run_forked(p, How::Choices(&first), d, sh, cov, false, std::ptr::null_mut());
    let (best, tries) = match again {
        Out::Violated(ref c, _) if c == class => minimise(p, class, first.clone(), d, sh, cov),
        _ => (first.clone(), 0),
    };
    let o = run_forked(p, How::Choices(&best), d, sh, cov, false, std::ptr::null_mut());
    let (c2, m2) = match o {
        Out::Violated(c, m) => (c, m),
        _ => (class.to_string(), msg.to_string()),
    };
    let hash = unsafe { (*sh).hash };
    let dir = root() + "/replays";
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{}-{}.replay", dir, p.id, seed, idx);
    let mut s = String::new();
    let _ = writeln!(s, "dbsim-replay 1");
    let _ = writeln!(s, "property: {}", p.id);
    let _ = writeln!(s, "seed: {}", seed);
    let _ = writeln!(s, "run: {}", idx);
    let _ = writeln!(s, "class: {}", c2.replace('\n', " "));
    let _ = writeln!(s, "message: {}", m2.replace('\n', " "));
    let _ = writeln!(s, "event-hash: {:016x}", hash);
    let _ = writeln!(s, "minimised: {} choices from {} in {} attempts", best.len(), first.len(), tries);
    let _ = writeln!(s, "dict-nums: {}", d.nums.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
    for t in &d.texts {
        let _ = writeln!(s, "dict-text: {}", t.bytes().map(|b| format!("{:02x}", b)).collect::<String>());
    }
    let _ = writeln!(s, "choices: {}", best.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
    let _ = std::fs::write(&path, s);
    println!("minimised from {} to {} choices in {} attempts; the minimised run:", first.len(), best.len(), tries);
    run_forked(p, How::Choices(&best), d, sh, cov, true, std::ptr::null_mut());
    println!("  => {}: {}", c2, m2);
    path
}

fn replay(path: &str) -> i32 {
    let t = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", path, e);
            return 2;
        }
    };
    let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).map(|s| s.trim().to_string());
    let nums = |s: String| s.split_whitespace().filter_map(|x| x.parse().ok()).collect::<Vec<u64>>();
    let id = get("property:").unwrap_or_default();
    let p = match find(&id) {
        Some(p) => p,
        None => return 2,
    };
    let d = Dict {
        nums: nums(get("dict-nums:").unwrap_or_default()),
        texts: t
            .lines()
            .filter_map(|l| l.strip_prefix("dict-text: "))
            .map(|h| {
                let b: Vec<u8> = (0..h.len() / 2).filter_map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).ok()).collect();
                String::from_utf8_lossy(&b).into_owned()
            })
            .collect(),
    };
    let c = nums(get("choices:").unwrap_or_default());
    let sh = shared::<Shared>();
    let cov = shared::<[u8; MAX_GUARDS]>() as *mut u8;
    match run_forked(p, How::Choices(&c), &d, sh, cov, true, std::ptr::null_mut()) {
        Out::Violated(k, m) => {
            println!("  => {}: {}", k, m);
            let h = unsafe { (*sh).hash };
            let want = get("event-hash:").unwrap_or_default();
            println!("event hash {:016x}, recorded {}: {}", h, want, if format!("{:016x}", h) == want { "identical execution" } else { "different execution" });
            println!("VIOLATION property={} replay={}", id, path);
            1
        }
        Out::Held => {
            println!("the property held in this replay");
            0
        }
        Out::Harness(m) => {
            eprintln!("HARNESS ERROR: {}", m);
            2
        }
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[allow(clippy::too_many_arguments)]
fn evidence(p: &Prop, seed: u64, tier: &str, total: u64, aggs: &[*mut Agg], search_s: f64, wall: f64, samples: &[String], violations: u64, dict: &Dict, workers: u64, known: &[String]) {
    let mut runs = 0;
    let mut ev = 0;
    let mut steps = 0;
    let mut ns = 0u64;
    let mut nt = 0;
    let mut choices = 0;
    let mut set = HashSet::new();
    let mut cov = vec![0u8; MAX_GUARDS];
    let mut counts: [BTreeMap<&str, (u64, u64)>; 3] = Default::default();
    for a in aggs {
        let a = unsafe { &**a };
        runs += a.runs;
        ev += a.events;
        steps += a.steps;
        ns += a.sim_ns;
        nt += a.nontrivial;
        choices += a.choices;
        for h in &a.hashes[..a.nhash] {
            set.insert(*h);
        }
        for i in 0..MAX_GUARDS {
            cov[i] |= a.cov[i];
        }
        for i in 0..a.ncount {
            let c = a.counts[i];
            let nm = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(c.0, c.1)) };
            let e = counts[c.3 as usize].entry(nm).or_default();
            e.0 += c.2;
            e.1 += c.4;
        }
    }
    let edges = cov.iter().filter(|x| **x != 0).count();
    if let Ok(f) = std::env::var("VERIF_COVER") {
        // for tools/uncovered.py: which control-flow edges of the library were reached
        let l: Vec<String> = cov.iter().enumerate().filter(|x| *x.1 != 0).map(|x| x.0.to_string()).collect();
        let _ = std::fs::write(f, l.join("\n"));
    }
    let map = |m: &BTreeMap<&str, (u64, u64)>, runs: bool| {
        let mut s = String::from("{");
        for (i, (k, v)) in m.iter().enumerate() {
            let _ = write!(s, "{}{}: {}", if i > 0 { ", " } else { "" }, js(k), if runs { v.1 } else { v.0 });
        }
        s.push('}');
        s
    };
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n",
        js(p.id), js(tier), seed, runs, set.len(), js(p.rule),
        samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(",\n   ")
    );
    let _ = write!(
        o,
        "  \"runs_planned\": {},\n  \"nontrivial_runs\": {},\n  \"runs_per_hour\": {:.0},\n  \"seeds_per_hour\": {:.0},\n  \"workers\": {},\n  \"simulated_seconds\": {:.3},\n  \"events\": {},\n  \"choices_drawn\": {},\n  \"library_steps\": {},\n  \"faults_injected\": {},\n  \"faults_runs_with\": {},\n  \"conditions_reached\": {},\n  \"work_done\": {},\n  \"interleaving_measure\": {},\n  \"library_edges_reached\": {},\n  \"library_edges_total\": {},\n  \"dictionary_numbers\": {},\n  \"dictionary_texts\": {},\n  \"real_components\": {},\n  \"stub_components\": {},\n  \"known_findings_observed\": [{}]\n }},\n",
        total, nt, runs as f64 / search_s * 3600.0, runs as f64 / search_s * 3600.0, workers,
        ns as f64 / 1e9, ev, choices, steps,
        map(&counts[0], false), map(&counts[0], true), map(&counts[1], false), map(&counts[2], false),
        js("distinct hash over the ordered event history of a run (event kinds, arguments, thread switches with their scheduling point)"),
        edges, hk().nguards, dict.nums.len(), dict.texts.len(), js(p.real), js(p.stub),
        known.iter().map(|s| js(s)).collect::<Vec<_>>().join(", ")
    );
    let _ = write!(
        o,
        " \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        js("the reference model in /verif/sim/src/model.rs states the specification correctly; seeded search samples executions and does not enumerate them"),
        wall, violations
    );
    let dir = root() + "/evidence";
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{}/{}.json", dir, p.id), o) {
        eprintln!("cannot write evidence: {}", e);
    }
    println!(
        "{}: {} runs in {:.1} s, {} non-trivial, {} distinct histories, {} events, {:.1} s simulated, {}/{} library edges",
        p.id, runs, search_s, nt, set.len(), ev, ns as f64 / 1e9, edges, hk().nguards
    );
}

fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}
