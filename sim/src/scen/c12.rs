//! C12: long-lived processes with histories of all kinds against processes without any.
use super::c11::name;
use super::util::*;
use super::Prop;
use crate::hooks::hk;
use crate::{ensure, fail};
use crate::kernel::*;
use crate::ops::{self, Kept};
use std::rc::Rc;

pub const PROP: Prop = Prop {
    id: "C12",
    run,
    quick: 14000,
    factor: 24,
    rule: "a process serves 1-4 connections with 4-14 kinds of operations (as in C11, many on nearly the same data), 10-120 operations interleaved at random, one run in 40 up to 4000, one run in 45 ending with up to 70000 repetitions of one of them, whose memory is accounted for; among them refused, damaged and truncated inputs, sinks that fail and sinks that panic and unwind through the library. Every outcome is compared with the outcome of the same operation alone in a fresh process; results handed out earlier (frames, messages, rules, paths) are kept and checked to stay as they were; input buffers and messages must not change. Non-trivial: an operation came after a failed one.",
    real: "every public operation, in this process and in fresh processes",
    stub: "connections, process supervisor",
    known: None,
};

fn run(cx: &mut Ctx) -> Res {
    let np = cx.src.urange(4, 14);
    let pool = Rc::new(ops::pool(&mut cx.src, np));
    let long = cx.src.chance(1, 40);
    let n = if long { cx.src.urange(500, 4000) } else { cx.src.urange(10, 120) };
    let z = {
        let p = pool.clone();
        zygote(cx, &move |req: &[u8]| {
            let i = req[0] as usize;
            ops::run(&p[i], None, &mut Vec::new()).into_bytes()
        })
    };
    let mut alone: Vec<Option<String>> = vec![None; np];
    let mut kept: Vec<(usize, Kept)> = Vec::new();
    let mut failed = false;
    // connections: each keeps to a part of the operations for a while
    let nc = cx.src.urange(1, 4);
    let mut at: Vec<usize> = (0..nc).map(|_| cx.src.idx(np)).collect();
    for k in 0..n {
        let c = cx.src.idx(nc);
        let i = match cx.src.idx(3) {
            0 => cx.src.idx(np),
            1 => at[c],
            _ => (at[c] + 1) % np,
        };
        at[c] = i;
        cx.now += MS;
        cx.ev("op", &[c as u64, i as u64]);
        if alone[i].is_none() {
            let r = fresh(cx, &z, "an operation", &[i as u8])?;
            alone[i] = Some(String::from_utf8_lossy(&r).into_owned());
            let op = &pool[i];
            cx.note(|| format!("operation {}: {}", i, cut(&format!("{:?}", op), 300)));
        }
        let op = &pool[i];
        let mut keep = Vec::new();
        let o = cx.lib("an operation", || ops::run(op, None, &mut keep))?;
        let w = alone[i].as_ref().unwrap();
        ensure!(o == *w, format!("the outcome of {} depends on what happened before", name(op)), "operation {} of the history: {}\n alone {}\n got   {}", k, cut(&format!("{:?}", op), 500), cut(w, 700), cut(&o, 700));
        ensure!(!o.ends_with(" CHANGED"), format!("{} changes what it was lent", name(op)), "{}: {}", cut(&format!("{:?}", op), 500), cut(&o, 500));
        cx.did("operations compared with a fresh process", 1);
        if o.starts_with("unwound") {
            cx.fault("a sink panicked inside the library");
            failed = true;
        } else if o.starts_with("failed") {
            cx.fault("a sink failed");
            failed = true;
        } else if !o.starts_with(|c: char| c.is_ascii_digit()) && (o.contains("Error") || o.contains("TooBig") || o.contains("NotEnough")) {
            cx.fault("an operation failed");
            failed = true;
        } else if failed {
            cx.probe("a success after a failure");
        }
        for x in keep {
            if kept.len() < 40 {
                kept.push((k, x));
            } else {
                let j = cx.src.idx(40);
                kept[j] = (k, x);
            }
        }
        if cx.src.chance(1, 16) && !kept.is_empty() {
            let j = cx.src.idx(kept.len());
            ensure!(kept[j].1.intact(), "a result handed out earlier changed", "result of operation {} after operation {}", kept[j].0, k);
        }
    }
    for (k, x) in &kept {
        ensure!(x.intact(), "a result handed out earlier changed", "result of operation {}", k);
    }
    if cx.src.chance(1, 45) {
        again(cx, &pool, &alone)?;
    }
    // and once more, each of them, in this old process
    for i in 0..np {
        if let Some(w) = &alone[i] {
            let op = &pool[i];
            let o = cx.lib("an operation", || ops::run(op, None, &mut Vec::new()))?;
            ensure!(o == *w, format!("the outcome of {} depends on what happened before", name(op)), "at the end: {}\n alone {}\n got   {}", cut(&format!("{:?}", op), 500), cut(w, 700), cut(&o, 700));
        }
    }
    cx.sh.sim_ns = cx.now;
    Ok(())
}

/// One operation again and again, as a process sees it that lives for months.
fn again(cx: &mut Ctx, pool: &[ops::Op], alone: &[Option<String>]) -> Res {
    let known: Vec<usize> = (0..pool.len()).filter(|i| alone[*i].is_some()).collect();
    let writers: Vec<usize> = known.iter().copied().filter(|i| matches!(pool[*i], ops::Op::Encode(_) | ops::Op::Relay(..))).collect();
    let i = if !writers.is_empty() && cx.src.flag() {
        // those with descriptors do the most
        let n = |i: &usize| match &pool[*i] {
            ops::Op::Encode(m) => m.body_fds().len(),
            ops::Op::Relay(_, f) => f.len(),
            _ => 0,
        };
        *writers.iter().max_by_key(|i| n(i)).unwrap()
    } else {
        *cx.src.pick(&known)
    };
    let w = alone[i].as_ref().unwrap();
    let reps = match cx.src.idx(3) {
        0 => 300,
        1 => 5000,
        _ => 70000,
    };
    let reps = reps.min(200_000_000 / (w.len() + 800));
    let op = &pool[i];
    cx.ev("again", &[i as u64, reps as u64]);
    cx.did("operations repeated many times", 1);
    cx.now += reps as u64 * MS;
    let mut held = 0u64;
    for k in 0..reps {
        let same = cx.lib("an operation", || {
            let o = ops::run(op, None, &mut Vec::new());
            if o == *w {
                None
            } else {
                Some(o)
            }
        })?;
        if let Some(o) = same {
            fail!(format!("the outcome of {} depends on what happened before", name(op)), "repetition {}: {}\n alone {}\n got   {}", k, cut(&format!("{:?}", op), 500), cut(w, 700), cut(&o, 700));
        }
        if k >= reps / 2 && hk().cur > 0 {
            held += 1;
        }
    }
    cx.did("repetitions", reps as u64);
    // a panicking sink leaves its payload behind
    ensure!(held < 100 || w.starts_with("unwound"), format!("memory is lost in each {}", name(op)), "{} of {} repetitions left memory allocated: {}", held, reps - reps / 2, cut(&format!("{:?}", op), 500));
    Ok(())
}
