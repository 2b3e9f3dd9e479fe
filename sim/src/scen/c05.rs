//! C05: frames damaged on the wire or forged by a hostile peer: refused, or read as the bytes say.
use super::damage;
use super::util::*;
use super::Prop;
use crate::bridge;
use crate::ensure;
use crate::gen::G;
use crate::kernel::*;
use crate::model::*;
use bytes::Bytes;

pub const PROP: Prop = Prop {
    id: "C05",
    run,
    quick: 300000,
    factor: 24,
    rule: "a receiver gets 6-30 frames on a datagram link that damages them: 1-4 faults per frame, aimed at a field of the known layout (padding, terminators, booleans, every length, signatures, codes, texts, type, byte order) or blind (flips, inserts, losses, duplicates, splices with another frame), or constructed by a hostile peer with consistent lengths (ill-formed names, duplicate, missing, mistyped header fields, contradicting signature and body, nesting beyond the limits), or written by an encoder that lies in one place and is consistent around it; valid frames in between. Non-trivial: at least one fault.",
    real: "Message::{decode,decode_with_fds} and everything below them",
    stub: "link, hostile peer, reference decoder as the judge",
    known: None,
};

fn run(cx: &mut Ctx) -> Res {
    if cx.src.chance(1, 2500) {
        cx.fault("frame at or above a size limit");
        return limits(cx);
    }
    let fdm = cx.src.chance(1, 5);
    let mut g = G::draw(&mut cx.src, fdm);
    tame(&mut g);
    g.nodes = g.nodes.min(14);
    g.big = g.big.min(60);
    rarely_big(&mut cx.src, &mut g, 40);
    g.body_max = g.body_max.min(4);
    rarely_huge(&mut cx.src, &mut g);
    let n = cx.src.urange(6, 30);
    let mode = cx.src.idx(5);
    let mut last: Vec<u8> = Vec::new();
    let mut base: Option<(MMsg, Frame)> = None;
    for _ in 0..n {
        cx.now += MS;
        let kind = if mode == 4 { cx.src.idx(4) } else { mode };
        let (bytes, fds) = if kind == 2 {
            let (b, f, what) = damage::forged(&mut cx.src, &g);
            cx.fault(what);
            (b, f)
        } else if kind == 3 {
            if base.is_none() || cx.src.chance(1, 4) {
                let m = g.msg_fd(&mut cx.src);
                let f = ref_encode(&m, &EncOpts { spans: true, ..Default::default() });
                base = Some((m, f));
            }
            let (b, f, what) = damage::dishonest(&mut cx.src, &base.as_ref().unwrap().0);
            cx.fault(what);
            (b, f)
        } else {
            // several damages of the same frame, then another one
            if base.is_none() || cx.src.chance(1, 3) {
                let m = g.msg_fd(&mut cx.src);
                let mut o = opts(&mut cx.src);
                o.spans = true;
                let f = ref_encode(&m, &o);
                last = f.bytes.clone();
                base = Some((m, f));
            }
            let (m, f) = base.as_ref().unwrap();
            let mut b = f.bytes.clone();
            let k = 1 + if cx.src.chance(1, 4) { cx.src.idx(4) } else { 0 };
            for _ in 0..k {
                let what = if kind == 0 { damage::targeted(&mut cx.src, &mut b, m.le, &f.spans) } else { damage::random(&mut cx.src, &mut b, &last) };
                cx.fault(what);
            }
            (b, f.fds.clone())
        };
        judge(cx, &bytes, &fds, &last)?;
        if cx.src.chance(1, 6) {
            healthy(cx, &g)?;
        }
    }
    healthy(cx, &g)?;
    cx.sh.sim_ns = cx.now;
    Ok(())
}

fn judge(cx: &mut Ctx, frame: &[u8], fds: &[i32], next: &[u8]) -> Res {
    let mut b = frame.to_vec();
    if cx.src.flag() {
        b.extend_from_slice(next);
    }
    let mut have = fds.to_vec();
    for _ in 0..cx.src.idx(3) {
        have.push(90 + have.len() as i32);
    }
    let f: Option<&[i32]> = if fds.is_empty() && cx.src.flag() { None } else { Some(&have) };
    cx.mix_bytes(&b);
    let v = view(&mut cx.src, &b);
    let r = dec(cx, v, f)?;
    match r {
        Err(e) => {
            cx.ev("refused", &[b.len() as u64, need(&e).is_some() as u64]);
        }
        Ok((x, used, _)) => {
            cx.ev("accepted", &[b.len() as u64, used as u64]);
            match ref_decode(&b, f) {
                RefOut::Ok(r) => {
                    cx.probe("damaged frame that is still a message");
                    ensure!(used == r.used, "a reported length is wrong", "{} instead of {}\n frame {}", used, r.used, hex(&b));
                    if let Err(e) = cx.lib("inspecting a message", || bridge::same_msg(&r.m, &x))? {
                        crate::fail!("a damaged frame is misread", "{}\n the bytes say {}\n frame {}", e, describe(&r.m), hex(&b));
                    }
                }
                RefOut::Incomplete => crate::fail!("a message from an incomplete frame", "{} bytes, {} used\n frame {}", b.len(), used, hex(&b)),
                RefOut::Reject(why) => crate::fail!(format!("an invalid frame is accepted: {}", why), "frame {}\n read as {}", hex(&b), cut(&format!("{:?}", x), 600)),
            }
        }
    }
    Ok(())
}

/// A valid frame in between is delivered as ever.
fn healthy(cx: &mut Ctx, g: &G) -> Res {
    let m = g.msg_fd(&mut cx.src);
    let o = opts(&mut cx.src);
    let f = ref_encode(&m, &o);
    match dec(cx, Bytes::from(f.bytes.clone()), Some(&f.fds))? {
        Ok((x, used, _)) => {
            ensure!(used == f.bytes.len(), "a reported length is wrong", "{} of {}", used, f.bytes.len());
            same(cx, "a valid message after damaged ones is misread", &m, &x)
        }
        Err(e) => crate::fail!("a valid message after damaged ones is refused", "{}", cut(&format!("{:?} for {}", e, describe(&m)), 800)),
    }
}
