//! C07: descriptors travelling with messages on a local socket: a byte stream and a queue of
//! descriptors, batched, late, lost, undeclared, unused, forged; and relays that pass them on.
use super::util::*;
use super::Prop;
use crate::ensure;
use crate::gen::{spread, G};
use crate::kernel::*;
use crate::model::*;
use dbus_message_parser::decode::DecodeError;

pub const PROP: Prop = Prop {
    id: "C07",
    run,
    quick: 350000,
    factor: 24,
    rule: "1-10 messages by real and foreign senders, with shared, repeated, unused and many descriptors, on a socket that batches bytes and descriptors, delivers descriptors late or loses them, with forged counts and indices while descriptors of later messages wait in the queue; in some runs a relay passes everything on to a second receiver. Non-trivial: at least one message with descriptors.",
    real: "Message::{encode_with_fds,encode,decode_with_fds,decode} and everything below them",
    stub: "socket, descriptor queue, receiver loop, reference codec as the foreign sender",
    known: None,
};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fault {
    None,
    /// descriptors arrive after the bytes
    Late,
    /// the last so many are lost
    Lost(usize),
    /// the body refers to an index the message does not declare
    Index,
    /// more or fewer declared than sent
    Count,
}

struct Item {
    m: MMsg,
    frame: Vec<u8>,
    fds: Vec<i32>,
    fault: Fault,
}

fn distinct(v: &[i32]) -> Vec<i32> {
    let mut o: Vec<i32> = Vec::new();
    for x in v {
        if !o.contains(x) {
            o.push(*x)
        }
    }
    o
}

/// Real descriptors into a generated body: numbers that nobody else uses, or everybody does.
fn renumber(v: &mut MV, f: &dyn Fn(i32) -> i32) {
    match v {
        MV::Fd(x) => *x = f(*x),
        MV::Arr(_, v) | MV::Struct(v) => v.iter_mut().for_each(|x| renumber(x, f)),
        MV::Dict(b) => {
            renumber(&mut b.0, f);
            renumber(&mut b.1, f)
        }
        MV::Var(b) => renumber(b, f),
        _ => {}
    }
}

fn make(cx: &mut Ctx, g: &G, k: usize, shared: bool, wide: u32) -> Res<Item> {
    let mut m = g.msg(&mut cx.src);
    if m.body_fds().is_empty() && cx.src.chance(3, 4) {
        let n = cx.src.size(4, if g.fd_pool > 100 { 1000 } else { 40 }).max(1);
        let mut v: Vec<MV> = (0..n).map(|_| MV::Fd(3 + cx.src.below(g.fd_pool as u64) as i32)).collect();
        match cx.src.idx(4) {
            0 => v = vec![MV::Arr(MT::B(b'h'), v)],
            1 => v = vec![MV::Struct(v)],
            2 => v = v.into_iter().map(|x| MV::Var(Box::new(x))).collect(),
            _ => {}
        }
        m.body = v;
        if m.sig().len() > MAX_SIG {
            m.body.truncate(20);
            if m.sig().len() > MAX_SIG {
                m.body.clear();
            }
        }
    }
    let off = if shared { 0 } else { 1000 * (k as i32 + 1) };
    let flip = cx.src.flag();
    for v in &mut m.body {
        renumber(v, &|x| spread(wide, if flip { off + 500 - x } else { off + x }));
    }
    let used = distinct(&m.body_fds());
    if cx.src.flag() {
        m.f.unix_fds = if used.is_empty() { None } else { Some(used.len() as u32) };
        if cx.src.chance(1, 4) {
            // an application that leaves an old count in the header
            let mut x = m.clone();
            x.f.unix_fds = if used.is_empty() || cx.src.flag() { Some(cx.src.int(32) as u32) } else { None };
            cx.probe("count of another message in the header");
            let msg = build(cx, &x)?;
            let (b, fds) = enc(cx, &msg)?;
            check_sent(cx, &m, &b, &fds, &used)?;
            return Ok(Item { m, frame: b, fds, fault: Fault::None });
        }
        let msg = build(cx, &m)?;
        let (b, fds) = enc(cx, &msg)?;
        check_sent(cx, &m, &b, &fds, &used)?;
        Ok(Item { m, frame: b, fds, fault: Fault::None })
    } else {
        let mut o = opts(&mut cx.src);
        let mut f = used.clone();
        if cx.src.chance(1, 3) {
            let n = cx.src.urange(1, 3);
            for i in 0..n {
                f.push(spread(wide, off + 700 + i as i32));
            }
            cx.fault("descriptors the body does not mention");
        }
        if cx.src.flag() {
            cx.src.shuffle(&mut f);
        }
        if cx.src.chance(1, 5) && !f.is_empty() {
            // the same descriptor sent twice
            let d = f[0];
            f.push(d);
        }
        m.f.unix_fds = if f.is_empty() { if cx.src.chance(1, 4) { Some(0) } else { None } } else { Some(f.len() as u32) };
        o.fds = Some(f);
        let x = ref_encode(&m, &o);
        Ok(Item { m, frame: x.bytes, fds: x.fds, fault: Fault::None })
    }
}

fn check_sent(cx: &mut Ctx, m: &MMsg, b: &[u8], fds: &[i32], used: &[i32]) -> Res {
    ensure!(fds == used, "wrong descriptors are sent", "the body uses {:?}, sent are {:?}", used, fds);
    strict(cx, b, fds, m)
}

/// A hostile sender.
fn forge(cx: &mut Ctx, it: &mut Item) {
    let n = it.fds.len();
    let mut o = EncOpts { order: order(&mut cx.src), empty_sig: false, fds: Some(it.fds.clone()), spans: true, ..Default::default() };
    if cx.src.flag() && n > 0 {
        // declare another number than is used
        let used: Vec<usize> = it.m.body_fds().iter().filter_map(|f| it.fds.iter().position(|x| x == f)).collect();
        let max = used.iter().max().map_or(0, |x| x + 1);
        let fewer = max > 0 && cx.src.flag();
        let count = if fewer { cx.src.idx(max) } else { n + cx.src.urange(1, 4) };
        // encode with the real table, then patch the declared count
        let f = ref_encode(&it.m, &o);
        let mut b = f.bytes;
        let le = it.m.le;
        let mut i = 0;
        while i < f.spans.len() {
            let p = f.spans[i];
            if p.k == K::Code && b[p.at] == 9 && i + 1 < f.spans.len() {
                // code, signature length, signature, terminator, number
                let q = (p.at + 4 + 3) & !3;
                let c = count as u32;
                b[q..q + 4].copy_from_slice(&if le { c.to_le_bytes() } else { c.to_be_bytes() });
                break;
            }
            i += 1;
        }
        if i < f.spans.len() {
            it.frame = b;
            it.fault = Fault::Count;
            cx.fault("forged descriptor count");
        }
    } else {
        o.fds = Some(it.fds.clone());
        let f = ref_encode(&it.m, &o);
        let of: Vec<Span> = f.spans.iter().filter(|p| p.k == K::FdIdx).copied().collect();
        if of.is_empty() {
            return;
        }
        let mut b = f.bytes;
        let p = *cx.src.pick(&of);
        let x = match cx.src.idx(4) {
            0 => n as u32,
            1 => n as u32 + cx.src.idx(5) as u32,
            2 => u32::MAX,
            _ => (cx.src.int(32) as u32).max(n as u32),
        };
        b[p.at..p.at + 4].copy_from_slice(&if it.m.le { x.to_le_bytes() } else { x.to_be_bytes() });
        it.frame = b;
        it.fault = Fault::Index;
        cx.fault("forged descriptor index");
    }
}

fn run(cx: &mut Ctx) -> Res {
    let mut g = G::draw(&mut cx.src, true);
    let wide = g.fd_wide;
    g.fd_wide = 0;
    tame(&mut g);
    g.big = g.big.min(200);
    rarely_big(&mut cx.src, &mut g, 60);
    if cx.src.chance(1, 20) {
        g.fd_pool = 1000;
    }
    g.body_max = g.body_max.min(4);
    let n = cx.src.urange(1, 10);
    let shared = cx.src.chance(1, 4);
    if wide > 0 {
        cx.probe("descriptor numbers that share their low bits");
    }
    let mut items = Vec::new();
    for k in 0..n {
        let mut it = make(cx, &g, k, shared, wide)?;
        if cx.src.chance(1, 6) {
            forge(cx, &mut it);
        } else if !it.fds.is_empty() {
            match cx.src.idx(6) {
                0 => it.fault = Fault::Late,
                1 if cx.src.flag() => it.fault = Fault::Lost(cx.src.urange(1, it.fds.len())),
                _ => {}
            }
        }
        if !it.fds.is_empty() {
            cx.nontrivial();
        }
        cx.note(|| format!("message {}: {:?} descriptors {:?} {}", k, it.fault, it.fds, describe(&it.m)));
        cx.mix_bytes(&it.frame);
        items.push(it);
    }
    let out = hop(cx, items)?;
    if cx.src.flag() && !out.is_empty() {
        // a relay passes on what it received
        cx.probe("relayed");
        let mut next = Vec::new();
        for (msg, mut m) in out {
            let used = distinct(&m.body_fds());
            let mut msg = msg;
            if cx.src.chance(1, 4) {
                // it answers with the header fields or the body of what it received
                let (h, mut b) = match cx.lib("split", || msg.split())? {
                    Ok(p) => p,
                    Err(e) => crate::fail!("a received message cannot be split", "{:?}", e),
                };
                cx.probe("relayed in parts");
                if cx.src.flag() {
                    b.clear();
                    m.body = Vec::new();
                } else {
                    b.push(dbus_message_parser::value::Value::Byte(7));
                    m.body.push(MV::Byte(7));
                    if m.sig().len() > MAX_SIG {
                        continue;
                    }
                }
                msg = cx.lib("Message::new", || dbus_message_parser::message::Message::new(h, b))?;
            }
            let used = if m.body.is_empty() { Vec::new() } else { used };
            let (b, fds) = enc(cx, &msg)?;
            m.f.unix_fds = m.must_declare();
            check_sent(cx, &m, &b, &fds, &used)?;
            next.push(Item { m, frame: b, fds, fault: Fault::None });
        }
        hop(cx, next)?;
    }
    cx.sh.sim_ns = cx.now;
    Ok(())
}

type Got = Vec<(dbus_message_parser::message::Message, MMsg)>;

fn hop(cx: &mut Ctx, items: Vec<Item>) -> Res<Got> {
    let mut out = Vec::new();
    let mut buf: Vec<u8> = Vec::new();
    let mut queue: Vec<i32> = Vec::new();
    // what was sent but not received yet; descriptors travel with the first byte of their message
    let mut sent = 0;
    let mut late: Vec<i32> = Vec::new();
    let mut next = 0;
    while next < items.len() {
        cx.now += MS;
        // a batch arrives: some whole messages, perhaps part of another
        let held = sent > next && matches!(items[sent - 1].fault, Fault::Late | Fault::Lost(_));
        if !held && sent < items.len() && (sent == next || cx.src.flag()) {
            let k = (sent + cx.src.urange(1, 4)).min(items.len());
            for it in &items[sent..k] {
                buf.extend_from_slice(&it.frame);
                match it.fault {
                    Fault::Late => {
                        cx.fault("descriptors arrive late");
                        // nothing behind it can arrive before them
                        late = it.fds.clone();
                    }
                    Fault::Lost(n) => {
                        cx.fault("descriptors lost");
                        queue.extend(&it.fds[..it.fds.len() - n.min(it.fds.len())]);
                    }
                    _ => queue.extend(&it.fds),
                }
                sent += 1;
                if matches!(it.fault, Fault::Late | Fault::Lost(_)) {
                    break;
                }
            }
            cx.ev("batch", &[sent as u64, queue.len() as u64]);
        }
        let it = &items[next];
        let part = if cx.src.chance(1, 5) { cx.src.idx(it.frame.len()) } else { buf.len() };
        if part < it.frame.len() {
            let b = view(&mut cx.src, &buf[..part]);
            if let Ok((_, used, _)) = dec(cx, b, Some(&queue))? {
                crate::fail!("a message from an incomplete frame", "{} of {} bytes, {} used", part, it.frame.len(), used);
            }
            continue;
        }
        let b = view(&mut cx.src, &buf[..part]);
        let r = dec(cx, b, Some(&queue))?;
        let declared = it.m.f.unix_fds.unwrap_or(0) as usize;
        cx.ev("decode", &[next as u64, queue.len() as u64, r.is_ok() as u64]);
        match it.fault {
            Fault::None => match r {
                Ok((x, used, ufds)) => {
                    ensure!(used == it.frame.len(), "a reported length is wrong", "{} of {}", used, it.frame.len());
                    ensure!(ufds == declared, "a reported descriptor count is wrong", "message {} has {} descriptors, {} reported (queue of {})", next, declared, ufds, queue.len());
                    same(cx, "a message got other descriptors or values", &it.m, &x)?;
                    out.push((x, it.m.clone()));
                    buf.drain(..used);
                    queue.drain(..ufds);
                    next += 1;
                    cx.did("messages with their descriptors delivered", 1);
                }
                Err(e) => crate::fail!("a message whose descriptors are there is refused", "message {} declares {}, queue of {}: {:?}", next, declared, queue.len(), e),
            },
            Fault::Late if !late.is_empty() => {
                match r {
                    Ok((x, _, ufds)) => crate::fail!("a message is delivered without its descriptors", "{} declared, {} there, {} reported: {}", declared, queue.len(), ufds, cut(&format!("{:?}", x), 300)),
                    Err(DecodeError::NotEnoughFds(have, at)) => {
                        ensure!(have == queue.len() && at >= have, "wrong number of available descriptors", "{} there, NotEnoughFds({}, {})", queue.len(), have, at);
                    }
                    Err(e) => crate::fail!("missing descriptors are reported as something else", "{:?}", e),
                }
                if !cx.src.flag() {
                    queue.append(&mut late);
                }
            }
            Fault::Late => match r {
                Ok((x, used, ufds)) => {
                    ensure!(used == it.frame.len() && ufds == declared, "a reported length is wrong", "{} of {}, {} of {}", used, it.frame.len(), ufds, declared);
                    same(cx, "a message got other descriptors or values", &it.m, &x)?;
                    out.push((x, it.m.clone()));
                    buf.drain(..used);
                    queue.drain(..ufds);
                    next += 1;
                }
                Err(e) => crate::fail!("a message whose descriptors are there is refused", "message {} declares {}, queue of {}: {:?}", next, declared, queue.len(), e),
            },
            Fault::Lost(_) => match r {
                Ok((_, _, ufds)) => crate::fail!("a message is delivered without its descriptors", "{} declared, {} there, {} reported", declared, queue.len(), ufds),
                Err(_) => {
                    // the receiver drops the frame and what came with it
                    buf.drain(..it.frame.len());
                    queue.clear();
                    next += 1;
                }
            },
            Fault::Index | Fault::Count => {
                match r {
                    Ok((x, used, ufds)) => {
                        // only descriptors that it declares can be its own: judge by the reference
                        match ref_decode(&it.frame, Some(&queue)) {
                            RefOut::Ok(r) => {
                                ensure!(used == r.used && ufds == r.m.f.unix_fds.unwrap_or(0) as usize, "a reported length is wrong", "{} {} {} {:?}", used, r.used, ufds, r.m.f.unix_fds);
                                same(cx, "a message got other descriptors or values", &r.m, &x)?;
                            }
                            o => crate::fail!("a forged message got descriptors of others", "{} read as {}", cut(&format!("{:?}", o), 200), cut(&format!("{:?}", x), 400)),
                        }
                        cx.probe("forged message delivered with what it declares");
                    }
                    Err(_) => {}
                }
                buf.drain(..it.frame.len());
                let n = it.fds.len().min(queue.len());
                queue.drain(..n);
                next += 1;
            }
        }
    }
    ensure!(queue.is_empty() && buf.is_empty(), "descriptors or bytes are left over", "{} descriptors, {} bytes", queue.len(), buf.len());
    Ok(out)
}
