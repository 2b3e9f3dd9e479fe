//! C01: several connections, each a byte stream of frames by real and foreign senders, delivered in
//! arbitrary chunks to receivers that decode the front of their buffer and drop what is reported.
use super::util::*;
use super::Prop;
use crate::gen::G;
use crate::kernel::*;
use crate::model::*;
use crate::{ensure, fail};
use dbus_message_parser::message::Message;

pub const PROP: Prop = Prop {
    id: "C01",
    run,
    quick: 60000,
    factor: 24,
    rule: "1-3 connections; per connection 1-12 generated messages in both byte orders, in some runs with descriptors, framed by the real or the reference encoder, cut into arbitrary chunks with stalls, end of stream inside a frame, reconnects with retransmission, and damaged or random bytes queued behind, now and then more than 128 MiB of them; receivers eager, need-driven, header-driven or batching. Non-trivial: at least one chunk boundary inside a frame, or several frames in one chunk, or a fault.",
    real: "Message::{decode,decode_with_fds,encode} and everything below them",
    stub: "stream transport, receiver loops, reference encoder as the foreign sender",
    known: None,
};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Pol {
    Eager,
    Need,
    Header,
    Batch(u64),
}

struct Conn {
    msgs: Vec<MMsg>,
    frames: Vec<Vec<u8>>,
    /// descriptors sent with each frame
    fds: Vec<Vec<i32>>,
    /// bytes on the wire of the current connection and how many were delivered
    wire: Vec<u8>,
    sent: usize,
    /// where frames end on the wire
    ends: Vec<usize>,
    /// first message on the current wire
    base: usize,
    eof_at: usize,
    buf: Vec<u8>,
    got: usize,
    need: usize,
    pol: Pol,
    arrivals: u64,
    with_fds: bool,
    junk: usize,
    dead: bool,
}

enum Ev {
    Chunk(usize),
}

fn chunk(cx: &mut Ctx, mode: usize, left: usize) -> usize {
    let s = &mut cx.src;
    let n = match mode {
        0 => left,
        1 => s.urange(1, 16),
        2 => 1,
        3 => s.urange(1, 200),
        5 => s.urange(1, left).max(left / 4),
        _ => s.size(64, 4096).max(1),
    };
    n.clamp(1, left)
}

fn open(c: &mut Conn, cx: &mut Ctx, last: bool) {
    c.base = c.got;
    c.wire.clear();
    c.ends.clear();
    c.sent = 0;
    c.buf.clear();
    c.need = 1;
    for f in &c.frames[c.got..] {
        c.wire.extend_from_slice(f);
        c.ends.push(c.wire.len());
    }
    let clean = c.wire.len();
    c.junk = 0;
    if last && cx.src.chance(1, 3) {
        // something else is queued behind the last frame
        let mut junk: Vec<u8> = match cx.src.idx(4) {
            0 => vec![0xff; 24],
            1 => {
                let n = cx.src.urange(1, 40);
                (0..n).map(|_| cx.src.below(256) as u8).collect()
            }
            2 => vec![0; cx.src.urange(1, 40)],
            _ => {
                let mut f = c.frames[0].clone();
                let n = cx.src.idx(f.len());
                f.truncate(n);
                f
            }
        };
        if junk.is_empty() {
            junk.push(0xff);
        }
        // a complete frame behind the last one is not junk
        if matches!(ref_decode(&junk, None), RefOut::Ok(_)) {
            junk = vec![0xff];
        }
        cx.fault("foreign bytes queued behind a frame");
        c.junk = junk.len();
        c.wire.extend(junk);
    }
    c.eof_at = c.wire.len();
    if !last {
        // the connection breaks somewhere, often inside a frame
        c.eof_at = cx.src.idx(clean + 1);
    }
}

fn run(cx: &mut Ctx) -> Res {
    let mut nc = cx.src.urange(1, 3);
    let fdm = cx.src.chance(1, 5);
    let mut g = G::draw(&mut cx.src, fdm);
    tame(&mut g);
    let huge = rarely_huge(&mut cx.src, &mut g);
    if huge {
        nc = 1;
    }
    let mut conns = Vec::new();
    let mut q = Queue::new();
    let mode = if huge { 5 } else { cx.src.idx(5) };
    for i in 0..nc {
        let n = cx.src.urange(1, if mode == 2 || huge { 4 } else { 12 });
        let mut c = Conn {
            msgs: Vec::new(),
            frames: Vec::new(),
            fds: Vec::new(),
            wire: Vec::new(),
            sent: 0,
            ends: Vec::new(),
            base: 0,
            eof_at: 0,
            buf: Vec::new(),
            got: 0,
            need: 1,
            pol: match cx.src.idx(4) {
                0 => Pol::Eager,
                1 => Pol::Need,
                2 => Pol::Header,
                _ => Pol::Batch(cx.src.range(2, 9)),
            },
            arrivals: 0,
            with_fds: fdm || cx.src.flag(),
            junk: 0,
            dead: false,
        };
        for _ in 0..n {
            let m = g.msg_fd(&mut cx.src);
            let (f, d) = if cx.src.flag() {
                let o = opts(&mut cx.src);
                cx.did("frames encoded by the reference encoder", 1);
                let f = ref_encode(&m, &o);
                (f.bytes, f.fds)
            } else {
                build_enc(cx, &m)?
            };
            c.fds.push(d);
            cx.mix_bytes(&f);
            cx.note(|| format!("connection {} sends {}", i, describe(&m)));
            c.msgs.push(m);
            c.frames.push(f);
        }
        let breaks = if cx.src.chance(1, 4) { cx.src.urange(1, 2) } else { 0 };
        c.arrivals = (breaks as u64) << 32;
        let last = breaks == 0;
        open(&mut c, cx, last);
        q.at(cx.src.below(5) * MS, Ev::Chunk(i));
        conns.push(c);
    }
    while let Some(Ev::Chunk(i)) = q.pop(cx) {
        let c = &mut conns[i];
        let left = c.eof_at - c.sent;
        if left > 0 {
            let n = chunk(cx, mode, left);
            let inside = !c.ends.contains(&(c.sent + n));
            let many = c.ends.iter().filter(|e| **e > c.sent && **e < c.sent + n).count();
            if inside || many > 0 {
                cx.nontrivial();
                if inside {
                    cx.probe("chunk ends inside a frame");
                }
                if many > 0 {
                    cx.probe("chunk spans frames");
                }
            }
            let p = c.wire[c.sent..c.sent + n].to_vec();
            c.buf.extend_from_slice(&p);
            c.sent += n;
            c.arrivals += 1;
            cx.ev("arrive", &[i as u64, n as u64]);
        }
        let eof = c.sent == c.eof_at;
        drain(cx, i, c, eof)?;
        if !eof {
            let mut d = 1 + cx.src.below(3);
            if cx.src.chance(1, 50) {
                cx.fault("stream stalled");
                d += 2000;
            }
            q.at(cx.now + d * MS, Ev::Chunk(i));
            continue;
        }
        // everything that arrived completely must have been delivered
        let want = c.base + c.ends.iter().filter(|e| **e <= c.eof_at).count();
        ensure!(c.got == want, "a message was not delivered", "connection {}: {} messages of {} arrived completely but {} were delivered", i, want, c.msgs.len(), c.got);
        let breaks = c.arrivals >> 32;
        if breaks > 0 {
            cx.fault("connection broken, retransmission on a new one");
            cx.ev("reconnect", &[i as u64, c.got as u64, c.eof_at as u64]);
            c.arrivals -= 1 << 32;
            if c.got < c.msgs.len() {
                let last = breaks == 1;
                open(c, cx, last);
                q.at(cx.now + 50 * MS, Ev::Chunk(i));
            }
        } else {
            ensure!(c.buf.len() == c.junk, "bytes of another message were consumed", "connection {}: {} bytes remain behind the last message, {} were sent", i, c.buf.len(), c.junk);
            ensure!(c.got == c.msgs.len(), "a message was not delivered", "connection {}: {} of {}", i, c.got, c.msgs.len());
        }
    }
    Ok(())
}

fn drain(cx: &mut Ctx, i: usize, c: &mut Conn, eof: bool) -> Res {
    if c.dead {
        return Ok(());
    }
    if let Pol::Batch(k) = c.pol {
        if !eof && c.arrivals % k != 0 {
            return Ok(());
        }
    }
    if cx.src.chance(1, 3000) {
        backlog(cx, i, c)?;
    }
    loop {
        if c.buf.is_empty() {
            return Ok(());
        }
        let mut offer = c.buf.len();
        match c.pol {
            Pol::Need if c.buf.len() < c.need && !eof => return Ok(()),
            Pol::Header => match frame_len(&c.buf) {
                Some(Ok(n)) if n > c.buf.len() => return Ok(()),
                Some(Ok(n)) => offer = n,
                None => return Ok(()),
                Some(Err(_)) => {}
            },
            _ => {}
        }
        let b = view(&mut cx.src, &c.buf[..offer]);
        // descriptors arrive with the bytes at the latest, those of later frames maybe earlier
        let mut queue: Vec<i32> = Vec::new();
        if c.with_fds {
            let last = (c.got + 1 + cx.src.idx(3)).min(c.msgs.len());
            queue = c.fds[c.got.min(last)..last].concat();
        }
        let fds: Option<&[i32]> = if c.with_fds { Some(&queue) } else { None };
        let r = dec(cx, b, fds)?;
        // is a frame of the sender complete at the front of the buffer?
        let at = c.sent - c.buf.len();
        let k = c.got;
        let here = c.got < c.msgs.len() && (c.got == c.base && at == 0 || c.got > c.base && c.ends[c.got - c.base - 1] == at);
        if !here && k < c.msgs.len() {
            fail!("a reported length is wrong", "connection {}: message {} starts at another position", i, k);
        }
        match r {
            Ok((m, used, ufds)) => {
                cx.ev("message", &[i as u64, k as u64, used as u64]);
                ensure!(k < c.msgs.len(), "a message nobody sent was delivered", "connection {}: from the bytes behind the last frame", i);
                let len = c.frames[k].len();
                ensure!(c.buf.len() >= len, "a message was delivered before it arrived", "connection {}: message {} has {} bytes, {} are there", i, k, len, c.buf.len());
                ensure!(used == len, "a reported length is wrong", "connection {}: message {} has {} bytes, {} reported", i, k, len, used);
                ensure!(ufds == c.fds[k].len(), "a wrong number of descriptors consumed", "{} of {}", ufds, c.fds[k].len());
                if ufds > 0 {
                    cx.probe("frame with descriptors");
                }
                same(cx, "a message was changed on the stream", &c.msgs[k], &m)?;
                c.buf.drain(..used);
                c.got += 1;
                c.need = 1;
                cx.did("messages delivered", 1);
            }
            Err(e) => {
                if k == c.msgs.len() {
                    // junk behind the last frame
                    c.dead = true;
                    return Ok(());
                }
                let have = c.buf.len();
                let len = c.frames[k].len();
                cx.ev("not yet", &[i as u64, k as u64, have as u64]);
                match need(&e) {
                    Some((_, n)) if have < len => {
                        c.need = n.max(have + 1);
                        return Ok(());
                    }
                    Some((a, n)) => fail!("a complete message was not delivered", "connection {}: message {} of {} bytes, {} bytes offered: NotEnoughBytes({}, {})", i, k, len, offer, a, n),
                    None if have < len && c.junk > 0 => fail!("an incomplete message was refused", "connection {}: {:?}", i, e),
                    None => fail!("a valid message was refused", "connection {}: message {} ({} of {} bytes): {}", i, k, have, len, cut(&format!("{:?}", e), 300)),
                }
            }
        }
    }
}

/// The receiver fell far behind: more than the longest message waits behind the next one.
fn backlog(cx: &mut Ctx, i: usize, c: &Conn) -> Res {
    if c.got >= c.msgs.len() || c.buf.len() < c.frames[c.got].len() {
        return Ok(());
    }
    let len = c.frames[c.got].len();
    let d = *cx.src.pick(&[0usize, 1, 64, 4096]);
    let n = if cx.src.flag() { MAX_MSG - 64 + d } else { MAX_MSG + d };
    let mut v = vec![0u8; n];
    v[..len].copy_from_slice(&c.buf[..len]);
    let b = bytes::Bytes::from(v);
    cx.fault("receiver far behind");
    cx.ev("backlog", &[i as u64, n as u64]);
    let queue = c.fds[c.got].clone();
    let with = c.with_fds || cx.src.flag();
    let r = cx.lib_raw("decode with a backlog", || if with { Message::decode_with_fds(b, &queue) } else { Message::decode(b).map(|(m, n)| (m, n, 0)) })?;
    match r {
        Ok((m, used, _)) => {
            ensure!(used == len, "a reported length is wrong", "connection {}: message {} has {} bytes, {} reported with {} bytes waiting", i, c.got, len, used, n);
            same(cx, "a message was changed on the stream", &c.msgs[c.got], &m)
        }
        Err(e) => fail!("a valid message was refused", "connection {}: message {} with {} bytes waiting: {}", i, c.got, n, cut(&format!("{:?}", e), 300)),
    }
}
