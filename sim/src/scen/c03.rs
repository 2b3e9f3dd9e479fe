//! C03: messages on long ways: encoded, relayed, taken apart and rebuilt, passed through foreign
//! relays, stored on a disk that tears writes, and read again by processes that never used the
//! library before.
use super::util::*;
use super::Prop;
use crate::bridge;
use crate::ensure;
use crate::gen::G;
use crate::kernel::*;
use crate::model::*;
use crate::sys::Zygote;
use bytes::Bytes;
use dbus_message_parser::message::Message;

pub const PROP: Prop = Prop {
    id: "C03",
    run,
    quick: 80000,
    factor: 24,
    rule: "1-3 generated messages (either byte order, descriptors in some runs), each taken along 1-10 drawn hops: decode and re-encode, restamp the serial, append a value, split and rebuild, clone, a foreign relay with another field order, store to a log whose last write may be torn, crash and re-read in a process that never used the library. Non-trivial: at least two hops or a crash.",
    real: "Message::{encode_with_fds,decode_with_fds,split,new,set_serial,add_value,clone} and everything below them, in the running and in restarted processes",
    stub: "disk, process supervision, reference codec as the foreign relay",
    known: None,
};

/// What a restarted process does with what it finds on disk.
pub fn helper(req: &[u8]) -> Vec<u8> {
    let op = req[0];
    let n = req[1] as usize;
    let mut fds = Vec::new();
    for i in 0..n {
        let mut a = [0; 4];
        a.copy_from_slice(&req[2 + 4 * i..6 + 4 * i]);
        fds.push(i32::from_le_bytes(a));
    }
    let frame = &req[2 + 4 * n..];
    let msg = if op == 0 {
        match Message::decode_with_fds(Bytes::copy_from_slice(frame), &fds) {
            Ok((m, o, _)) if o == frame.len() => m,
            Ok((_, o, _)) => return format!("Eused {} of {}", o, frame.len()).into_bytes(),
            Err(e) => return format!("Edecode: {:?}", e).into_bytes(),
        }
    } else {
        match ref_decode(frame, Some(&fds)) {
            RefOut::Ok(r) => match bridge::message(&r.m) {
                Ok(m) => m,
                Err(e) => return format!("Ebuild: {}", e).into_bytes(),
            },
            _ => return b"Ereference".to_vec(),
        }
    };
    match msg.encode() {
        Ok(b) => {
            let mut v = vec![b'O'];
            v.extend_from_slice(&b);
            v
        }
        Err(e) => format!("Eencode: {:?}", e).into_bytes(),
    }
}

fn restarted(cx: &mut Ctx, z: &Zygote, op: u8, fds: &[i32], frame: &[u8]) -> Res<Vec<u8>> {
    let mut req = vec![op, fds.len() as u8];
    for f in fds {
        req.extend(f.to_le_bytes());
    }
    req.extend_from_slice(frame);
    let r = fresh(cx, z, "a restarted process reads and re-encodes a message", &req)?;
    ensure!(r.first() == Some(&b'O'), "a restarted process cannot read and re-encode a message", "{}", cut(&String::from_utf8_lossy(&r), 400));
    Ok(r[1..].to_vec())
}

fn run(cx: &mut Ctx) -> Res {
    let z = zygote(cx, &helper);
    let fdm = cx.src.chance(1, 4);
    let mut g = G::draw(&mut cx.src, fdm);
    if !cx.src.chance(1, 8) {
        tame(&mut g);
    }
    rarely_huge(&mut cx.src, &mut g);
    let n = cx.src.urange(1, 3);
    for _ in 0..n {
        journey(cx, &z, &g)?;
    }
    cx.sh.sim_ns = cx.now;
    Ok(())
}

fn journey(cx: &mut Ctx, z: &Zygote, g: &G) -> Res {
    let mut m = g.msg_fd(&mut cx.src);
    if cx.src.chance(1, 30) && !unusual(cx, &mut m)? {
        return Ok(());
    }
    let msg = build(cx, &m)?;
    same(cx, "a message differs from what it was built from", &m, &msg)?;
    let (mut frame, mut fds) = enc(cx, &msg)?;
    m.f.unix_fds = m.must_declare();
    // bytes that encoding the current message yields
    let mut canon = frame.clone();
    cx.mix_bytes(&frame);
    cx.note(|| format!("{}", describe(&m)));
    let hops = cx.src.urange(1, 10);
    for h in 0..hops {
        if h > 0 {
            cx.nontrivial();
        }
        cx.now += cx.src.below(50) * MS;
        let kind = cx.src.weighted(&[3, 2, 2, 2, 1, 3, 1, 2]);
        cx.ev("hop", &[kind as u64, frame.len() as u64]);
        if kind == 3 {
            // a relay of another make
            let r = match ref_decode(&frame, Some(&fds)) {
                RefOut::Ok(r) => r,
                o => crate::fail!("a foreign relay cannot read the message", "{}", cut(&format!("{:?}", o), 300)),
            };
            let mut o = opts(&mut cx.src);
            o.fds = Some(fds.clone());
            frame = ref_encode(&r.m, &o).bytes;
            cx.did("foreign relays", 1);
            continue;
        }
        if kind == 5 || kind == 6 {
            // stored; the process crashes, possibly while writing, and another one reads the log
            let mut log: Vec<u8> = Vec::new();
            let mut torn = 0;
            while cx.src.chance(1, 3) && torn < 3 {
                let k = cx.src.idx(frame.len());
                cx.fault("write torn by a crash");
                torn += 1;
                log.clear();
                log.extend_from_slice(&frame[..k]);
                let b = view(&mut cx.src, &log);
                if let Ok((_, used, _)) = dec(cx, b, Some(&fds))? {
                    crate::fail!("a torn write is read as a message", "{} of {} bytes were written, {} used", k, frame.len(), used);
                }
            }
            log.clear();
            log.extend_from_slice(&frame);
            cx.fault("process crash and restart");
            cx.nontrivial();
            let op = (kind == 6) as u8;
            if frame.len() < 900_000 && fds.len() < 255 {
                let b = restarted(cx, z, op, &fds, &log)?;
                ensure!(b == canon, "a restarted process encodes the same message differently", "expected {}\n got {}", hex(&canon), hex(&b));
                frame = b;
            }
            continue;
        }
        let b = view(&mut cx.src, &frame);
        let mut x = match dec(cx, b, Some(&fds))? {
            Ok((x, used, ufds)) => {
                ensure!(used == frame.len(), "a reported length is wrong", "{} for a frame of {} bytes", used, frame.len());
                ensure!(ufds == fds.len(), "a reported descriptor count is wrong", "{} for a message with {}", ufds, fds.len());
                x
            }
            Err(e) => crate::fail!("a message cannot be read again", "after {} hops: {}", h, cut(&format!("{:?}", e), 300)),
        };
        same(cx, "a message was changed on its way", &m, &x)?;
        match kind {
            0 => {}
            1 => {
                m.serial = (cx.src.int(32) as u32).max(1);
                let s = m.serial;
                cx.lib("set_serial", || x.set_serial(s))?;
                same(cx, "restamping a message changed something else", &m, &x)?;
            }
            2 => {
                let (hd, body) = match cx.lib("split", || x.split())? {
                    Ok(p) => p,
                    Err(e) => crate::fail!("a received message cannot be split", "{:?}", e),
                };
                x = cx.lib("Message::new", || Message::new(hd, body))?;
                same(cx, "a rebuilt message differs", &m, &x)?;
            }
            4 => {
                let t = g.ty(&mut cx.src, 2);
                if m.sig().len() + t.text().len() <= MAX_SIG && !t.text().contains('h') {
                    let mut budget = 8;
                    let v = g.value(&mut cx.src, &t, &mut budget, 2);
                    let mut old = Vec::new();
                    v.fds(&mut old);
                    if old.is_empty() {
                        let lv = cx.lib("building a value", || bridge::value(&v))?.map_err(|e| class("a valid value cannot be built", e))?;
                        cx.lib("add_value", || x.add_value(lv))?;
                        m.body.push(v);
                        same(cx, "appending a value changed something else", &m, &x)?;
                    }
                }
            }
            _ => {
                let y = cx.lib("clone", || x.clone())?;
                let eq = cx.lib("eq", || x == y)?;
                ensure!(eq || has_nan(&m.body), "a copy of a message differs from it", "{}", describe(&m));
                x = y;
            }
        }
        let (b1, f1) = enc(cx, &x)?;
        same(cx, "encoding changed the message", &m, &x)?;
        let (b2, f2) = enc(cx, &x)?;
        ensure!(b1 == b2 && f1 == f2, "encoding a message twice yields different bytes", "{}\n {}", hex(&b1), hex(&b2));
        let plain = cx.lib("encode", || x.encode().map(|b| b.to_vec()))?;
        ensure!(plain.as_ref().ok() == Some(&b1), "the two encoding entry points disagree", "{}", hex(&b1));
        if matches!(kind, 1 | 4) {
            canon = b1.clone();
        } else {
            ensure!(b1 == canon, "encoding the same message again yields other bytes", "expected {}\n got {}", hex(&canon), hex(&b1));
        }
        ensure!(f1 == fds, "encoding changed the descriptors", "expected {:?} got {:?}", fds, f1);
        frame = b1;
        fds = f1;
    }
    let b = view(&mut cx.src, &frame);
    match dec(cx, b, Some(&fds))? {
        Ok((x, _, _)) => same(cx, "a message was changed on its way", &m, &x)?,
        Err(e) => crate::fail!("a message cannot be read again", "at its destination: {}", cut(&format!("{:?}", e), 300)),
    }
    cx.did("messages delivered", 1);
    Ok(())
}

/// Another protocol version, or numbers that are not used: a library may refuse such a message, but what it
/// sends and reads has to stay as it is.
fn unusual(cx: &mut Ctx, m: &mut MMsg) -> Res<bool> {
    match cx.src.idx(3) {
        0 => m.version = cx.src.idx(256) as u8,
        1 => m.serial = 0,
        _ => {
            if m.f.reply_serial.is_none() {
                return Ok(true);
            }
            m.f.reply_serial = Some(0);
        }
    }
    cx.did("messages with unusual numbers", 1);
    let r = cx.lib("encoding an unusual message", || match bridge::message(m).map(|x| x.encode_with_fds()) {
        Ok(Ok((b, f))) => Message::decode_with_fds(b.freeze(), &f).is_ok(),
        _ => false,
    })?;
    Ok(r)
}

fn has_nan(b: &[MV]) -> bool {
    b.iter().any(|v| match v {
        MV::F64(x) => f64::from_bits(*x).is_nan(),
        MV::Arr(_, v) | MV::Struct(v) => has_nan(v),
        MV::Dict(d) => has_nan(&[d.0.clone(), d.1.clone()]),
        MV::Var(v) => has_nan(std::slice::from_ref(v)),
        _ => false,
    })
}
