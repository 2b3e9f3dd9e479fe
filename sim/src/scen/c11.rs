//! C11: threads using the library at the same time under a seeded scheduler.
use super::util::*;
use super::Prop;
use crate::{ensure, fail};
use crate::hooks::hk;
use crate::kernel::*;
use crate::ops::{self, Op};
use crate::threads;
use dbus_message_parser::message::Message;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};

pub const PROP: Prop = Prop {
    id: "C11",
    run,
    quick: 60000,
    factor: 24,
    rule: "2-5 threads execute 1-6 operations each (encode, decode, relay, match, read and write rules, reply, construct, compose paths, names, signatures, split, print into failing sinks; valid, damaged and refused inputs; the same or nearly the same data in several threads; own or shared messages), starting in a process in which the library was never used. A seeded scheduler preempts at control-flow edges, loads, stores and allocations of the library with a mean gap of 2 to 20000 such points, and decides who gets a contended lock. Every outcome is compared with the outcome in fresh single-threaded processes, afterwards once more sequentially. Non-trivial: a thread was preempted inside an operation.",
    real: "every public operation in real OS threads, std's locks and once cells above the futex seam",
    stub: "thread scheduler, futex, clock",
    known: None,
};

fn run(cx: &mut Ctx) -> Res {
    let nt = cx.src.urange(2, 5);
    let np = if cx.src.chance(1, 3) { cx.src.urange(1, 2) } else { cx.src.urange(1, 8) };
    let pool = Arc::new(ops::pool(&mut cx.src, np));
    let plan: Vec<Vec<usize>> = (0..nt)
        .map(|_| {
            let k = cx.src.urange(1, 6);
            (0..k).map(|_| cx.src.idx(np)).collect()
        })
        .collect();
    let mean = *cx.src.pick(&[30u64, 300, 2, 2000, 8, 20000]);
    let pace = threads::Pace {
        burst: *cx.src.pick(&[0u64, 0, 4, 40]),
        stall: *cx.src.pick(&[0u64, 0, 3, 30]),
        spurious: *cx.src.pick(&[0u64, 0, 2]),
    };
    let share = cx.src.flag();
    // outcomes alone, each in a process of its own
    let z = {
        let p = pool.clone();
        zygote(cx, &move |req: &[u8]| {
            let i = req[0] as usize;
            let h = hk();
            h.step_limit = u64::MAX;
            let s = h.steps;
            h.active = true;
            let r = ops::run(&p[i], None, &mut Vec::new());
            h.active = false;
            let mut o = (h.steps - s).to_le_bytes().to_vec();
            o.extend(r.into_bytes());
            o
        })
    };
    let mut alone: Vec<Option<String>> = vec![None; np];
    let mut cost = vec![0u64; np];
    for i in plan.iter().flatten() {
        if alone[*i].is_none() {
            let r = fresh(cx, &z, "an operation", &[*i as u8])?;
            if r.len() < 8 {
                fail!("HARNESS", "short response");
            }
            cost[*i] = u64::from_le_bytes([r[0], r[1], r[2], r[3], r[4], r[5], r[6], r[7]]);
            alone[*i] = Some(String::from_utf8_lossy(&r[8..]).into_owned());
        }
    }
    // what the operations take alone, one after the other
    let alone_steps: u64 = plan.iter().flatten().map(|i| cost[*i]).sum();
    if alone_steps > 30_000_000 {
        cx.did("runs left out, too long", 1);
        return Ok(());
    }
    for (t, p) in plan.iter().enumerate() {
        cx.note(|| format!("thread {}: {}", t, p.iter().map(|i| cut(&format!("{:?}", pool[*i]), 120)).collect::<Vec<_>>().join("; ")));
    }
    let ready: Arc<Vec<Option<Message>>> = Arc::new(if share { pool.iter().map(ops::prepare).collect() } else { (0..np).map(|_| None).collect() });
    let out: Arc<Mutex<Vec<(usize, usize, usize, Result<String, String>)>>> = Arc::new(Mutex::new(Vec::with_capacity(64)));
    let mut fs: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
    for (t, p) in plan.iter().cloned().enumerate() {
        let (pool, ready, out) = (pool.clone(), ready.clone(), out.clone());
        fs.push(Box::new(move || {
            for (k, i) in p.into_iter().enumerate() {
                let mut keep = Vec::new();
                hk().active = true;
                let r = catch_unwind(AssertUnwindSafe(|| ops::run(&pool[i], ready[i].as_ref(), &mut keep)));
                hk().active = false;
                let mut r = r.map_err(|_| last_panic());
                if keep.iter().any(|k| !k.intact()) {
                    r = Err("a result changed after it was handed out".into());
                }
                hk().threads = false;
                out.lock().unwrap().push((t, k, i, r));
                hk().threads = true;
            }
        }));
    }
    let verbose = cx.verbose;
    hk().step_limit = u64::MAX;
    let rep = threads::run(&mut cx.src, mean, pace, verbose, 20_000_000 + 20 * alone_steps, fs);
    cx.mix(rep.hash);
    cx.did("scheduling points", rep.points);
    cx.did("thread switches", rep.switches);
    cx.did("waits for a lock", rep.blocked);
    cx.now += rep.points;
    cx.sh.sim_ns = cx.now;
    cx.sh.steps += rep.points;
    if rep.mid_op > 0 {
        cx.nontrivial();
        cx.did("preemptions inside the library", rep.mid_op);
    }
    for _ in 0..rep.stalls {
        cx.fault("thread stalled");
    }
    for _ in 0..rep.spurious {
        cx.fault("wait for a lock interrupted");
    }
    if rep.blocked > 0 {
        cx.probe("a thread waited for another one's lock");
    }
    if cx.verbose {
        for (at, a, b) in rep.trace.iter().take(60) {
            cx.note(|| format!("point {}: thread {} -> {}", at, a, b));
        }
    }
    let got = std::mem::take(&mut *out.lock().unwrap());
    let total: usize = plan.iter().map(|p| p.len()).sum();
    ensure!(got.len() == total, "an operation never finished", "{} of {}", got.len(), total);
    for (t, k, i, r) in &got {
        let w = alone[*i].as_ref().unwrap();
        cx.ev("op", &[*t as u64, *k as u64, *i as u64]);
        cx.did("operations in threads", 1);
        if let Ok(o) = r {
            if o.starts_with("unwound") {
                cx.fault("a sink panicked inside the library");
            } else if o.starts_with("failed") {
                cx.fault("a sink failed");
            } else if !o.starts_with(|c: char| c.is_ascii_digit()) && (o.contains("Error") || o.contains("TooBig") || o.contains("NotEnough")) {
                cx.fault("an operation failed");
            }
        }
        match r {
            Ok(o) => ensure!(o == w, format!("a concurrent {} has another outcome", name(&pool[*i])), "thread {} operation {}: {}\n alone {}\n got   {}", t, k, cut(&format!("{:?}", pool[*i]), 500), cut(w, 700), cut(o, 700)),
            Err(e) => crate::fail!(format!("a concurrent {} fails", name(&pool[*i])), "thread {} operation {}: {}: {}", t, k, cut(&format!("{:?}", pool[*i]), 500), e),
        }
    }
    // the process goes on, alone
    for (i, w) in alone.iter().enumerate() {
        if let Some(w) = w {
            let op = &pool[i];
            let o = cx.lib("an operation", || ops::run(op, None, &mut Vec::new()))?;
            ensure!(o == *w, format!("a {} after concurrent use has another outcome", name(op)), "{}\n alone {}\n got   {}", cut(&format!("{:?}", op), 500), cut(w, 700), cut(&o, 700));
        }
    }
    Ok(())
}

pub fn name(o: &Op) -> String {
    let s = format!("{:?}", o);
    s.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string()
}
