//! C02: receivers that hold only part of a frame: every cut point of small frames, sampled cut
//! points of big ones, a need-driven receiver, and senders that die inside a frame.
use super::util::*;
use super::Prop;
use crate::ensure;
use crate::gen::G;
use crate::kernel::*;
use bytes::Bytes;
use dbus_message_parser::message::Message;
use crate::model::*;

pub const PROP: Prop = Prop {
    id: "C02",
    run,
    quick: 75000,
    factor: 20,
    rule: "a generated valid frame (either encoder, byte order and field order; with descriptors in some runs) is cut at every byte if short, else at sampled positions and field boundaries, in a drawn order; then a need-driven receiver on a slow link reads it, with deaths of the sender inside the frame and retransmission. Non-trivial: every run (all cuts are inside the frame).",
    real: "Message::{decode,decode_with_fds,encode_with_fds} and everything below them",
    stub: "stream transport, receiver loop, reference encoder as the foreign sender",
    known: None,
};

fn run(cx: &mut Ctx) -> Res {
    if cx.src.chance(1, 2000) {
        return huge(cx);
    }
    let fdm = cx.src.chance(1, 4);
    let mut g = G::draw(&mut cx.src, fdm);
    if cx.src.flag() {
        tame(&mut g);
    }
    let m = g.msg_fd(&mut cx.src);
    let (f, fds, spans) = if cx.src.flag() {
        let mut o = opts(&mut cx.src);
        o.spans = true;
        let f = ref_encode(&m, &o);
        (f.bytes, f.fds, f.spans)
    } else {
        let (f, fds) = build_enc(cx, &m)?;
        (f, fds, Vec::new())
    };
    cx.note(|| format!("frame of {} bytes for {}", f.len(), describe(&m)));
    cx.mix_bytes(&f);
    cx.nontrivial();
    let fdv = fds.clone();
    let fds = if fdm || cx.src.flag() { Some(&fdv[..]) } else { None };

    // cut points
    let mut cuts: Vec<usize> = Vec::new();
    if f.len() <= 200 {
        cuts.extend(0..f.len());
    } else {
        for i in 0..24 {
            cuts.push(i);
            cuts.push(f.len() - 1 - i);
        }
        for _ in 0..40 {
            cuts.push(cx.src.idx(f.len()));
        }
        for s in spans.iter() {
            if cx.src.chance(1, 4) && cuts.len() < 140 {
                cuts.push(s.at);
                cuts.push((s.at + s.len).min(f.len() - 1));
            }
        }
    }
    if cx.src.flag() {
        cx.src.shuffle(&mut cuts);
    }
    for c in cuts {
        one(cx, &f, c, fds)?;
    }
    cx.ev("cuts", &[f.len() as u64]);

    // a receiver that reads exactly until it has what was reported, on a link that breaks
    let mut deaths = if cx.src.chance(1, 2) { cx.src.urange(1, 3) } else { 0 };
    let mut have = cx.src.idx(3.min(f.len()));
    let mut die_at = if deaths > 0 { cx.src.idx(f.len()) } else { usize::MAX };
    let mut attempts = 0usize;
    loop {
        cx.now += MS;
        attempts += 1;
        ensure!(attempts <= 2 * f.len() + 2, "no progress", "{} attempts for a frame of {} bytes", attempts, f.len());
        if have >= f.len() {
            break;
        }
        let need = one(cx, &f, have, fds)?;
        cx.ev("need", &[have as u64, need as u64]);
        // the link may have delivered a bit more already, but nothing behind the frame
        have = need + if cx.src.chance(1, 4) { cx.src.idx(20) } else { 0 };
        if f.len() > 1500 {
            // a link with bigger packets for big frames
            have += cx.src.idx(f.len() / 20);
        }
        have = have.min(f.len());
        if have >= die_at {
            cx.fault("sender died inside a frame, new connection");
            cx.ev("death", &[die_at as u64]);
            have = 0;
            attempts = 0;
            deaths -= 1;
            die_at = if deaths > 0 { cx.src.idx(f.len()) } else { usize::MAX };
        }
    }
    cx.sh.sim_ns = cx.now;
    let b = view(&mut cx.src, &f);
    match dec(cx, b, fds)? {
        Ok((x, used, _)) => {
            ensure!(used == f.len(), "a reported length is wrong", "{} for a frame of {} bytes", used, f.len());
            same(cx, "a message was changed by earlier attempts", &m, &x)?;
        }
        Err(e) => crate::fail!("a complete frame is refused", "{} bytes: {}", f.len(), cut(&format!("{:?}", e), 300)),
    }
    Ok(())
}

/// Decodes a proper prefix; returns the reported offset.
fn one(cx: &mut Ctx, f: &[u8], c: usize, fds: Option<&[i32]>) -> Res<usize> {
    let b = view(&mut cx.src, &f[..c]);
    cx.fault("frame cut");
    match dec(cx, b, fds)? {
        Ok((_, used, _)) => crate::fail!("a message from an incomplete frame", "{} of {} bytes were there, {} reported as used", c, f.len(), used),
        Err(e) => match need(&e) {
            None => crate::fail!("an incomplete frame is reported as invalid", "{} of {} bytes: {}", c, f.len(), cut(&format!("{:?}", e), 300)),
            Some((have, n)) => {
                ensure!(have == c, "wrong number of available bytes", "{} of {} bytes were there, {} reported", c, f.len(), have);
                ensure!(n > c, "no progress", "{} bytes were there, {} reported as needed", c, n);
                ensure!(n <= f.len(), "waits for bytes of a later message", "frame of {} bytes, {} bytes needed", f.len(), n);
                Ok(n)
            }
        },
    }
}

/// A frame of a size only limits allow, of which the most has arrived.
fn huge(cx: &mut Ctx) -> Res {
    let mut m = MMsg { le: !cx.src.flag(), typ: 4, flags: 1, version: 1, serial: 7, f: MFields::default(), body: Vec::new() };
    m.f.path = Some("/a".into());
    m.f.interface = Some("a.b".into());
    m.f.member = Some("c".into());
    const MIB: usize = 1 << 20;
    let a = *cx.src.pick(&[17usize, 33, 65, 100, 126]) * MIB + cx.src.idx(9);
    m.body.push(MV::Str("h".repeat(a)));
    let rest = (126 * MIB + 16).saturating_sub(a);
    match cx.src.idx(3) {
        0 => m.body.push(MV::U64(1)),
        1 => m.body.push(MV::Str("i".repeat(rest))),
        _ => m.body.push(MV::Arr(MT::B(b's'), vec![MV::Str("i".repeat(rest.min(60 * MIB))), MV::Str("j".into())])),
    }
    let o = opts(&mut cx.src);
    let f = Bytes::from(ref_encode(&m, &o).bytes);
    cx.note(|| format!("frame of {} bytes", f.len()));
    cx.ev("huge", &[f.len() as u64]);
    cx.nontrivial();
    let fd = cx.src.flag();
    let go = |cx: &mut Ctx, b: Bytes| cx.lib_raw("decode", || if fd { Message::decode_with_fds(b, &[]).map(|x| x.1) } else { Message::decode(b).map(|x| x.1) });
    for _ in 0..8 {
        let c = match cx.src.idx(4) {
            0 => f.len() - 1 - cx.src.idx(12),
            1 => (*cx.src.pick(&[16usize, 32, 64, 100]) * MIB + cx.src.idx(200)).min(f.len() - 1),
            2 => (a + cx.src.idx(200)).min(f.len() - 1),
            _ => cx.src.idx(f.len()),
        };
        cx.fault("frame cut");
        match go(cx, f.slice(..c))? {
            Ok(used) => crate::fail!("a message from an incomplete frame", "{} of {} bytes were there, {} reported as used", c, f.len(), used),
            Err(e) => match need(&e) {
                None => crate::fail!("an incomplete frame is reported as invalid", "{} of {} bytes: {}", c, f.len(), cut(&format!("{:?}", e), 300)),
                Some((have, n)) => ensure!(have == c && n > c && n <= f.len(), "no progress", "{} of {} bytes were there, {} and {} reported", c, f.len(), have, n),
            },
        }
    }
    match go(cx, f.clone())? {
        Ok(used) => ensure!(used == f.len(), "a reported length is wrong", "{} for a frame of {} bytes", used, f.len()),
        Err(e) => crate::fail!("a complete frame is refused", "{} bytes: {}", f.len(), cut(&format!("{:?}", e), 300)),
    }
    Ok(())
}
