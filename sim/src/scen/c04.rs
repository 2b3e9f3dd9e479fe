//! C04: nodes running this library and nodes of another make on one lossy network: calls, replies,
//! errors and signals in both directions, with retransmission, each side's bytes judged by the other.
use super::util::*;
use super::Prop;
use crate::ensure;
use crate::gen::G;
use crate::kernel::*;
use crate::model::*;
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "C04",
    run,
    quick: 100000,
    factor: 24,
    rule: "2-4 nodes, each of either make, exchange 2-14 calls (answered by returns and errors of every kind) and signals over a network with loss, duplication, jitter and stalls, with retries; foreign frames use any header field order and both byte orders; some foreign frames are bit-mutated into other strictly valid frames; rare runs exchange frames at the exact size limits. Non-trivial: a message crosses between two makes.",
    real: "Message constructors, replies, encode_with_fds, decode_with_fds and everything below them on the nodes running this library",
    stub: "network, clock, reference codec and reply rules as the foreign nodes",
    known: None,
};

struct Node {
    real: bool,
    serial: u32,
    /// answers already given, by (caller, serial)
    done: BTreeMap<(usize, u32), Vec<u8>>,
    fds_done: BTreeMap<(usize, u32), Vec<i32>>,
    seen: BTreeMap<(usize, u32), ()>,
}

struct Exch {
    from: usize,
    to: usize,
    m: MMsg,
    frame: Vec<u8>,
    fds: Vec<i32>,
    rep: Option<Rep>,
    extra: Vec<MV>,
    want: Option<MMsg>,
    completed: bool,
}

enum Ev {
    Send(usize),
    Arrive { x: usize, back: bool, bytes: Vec<u8>, fds: Vec<i32> },
}

fn run(cx: &mut Ctx) -> Res {
    if cx.src.chance(1, 300) {
        return limits(cx);
    }
    let fdm = cx.src.chance(1, 5);
    let mut g = G::draw(&mut cx.src, fdm);
    if !cx.src.chance(1, 10) {
        tame(&mut g);
    }
    rarely_huge(&mut cx.src, &mut g);
    let mut net = NetCfg::draw(cx);
    let n = cx.src.urange(2, 4);
    let mut nodes: Vec<Node> = (0..n)
        .map(|i| Node { real: if i == 0 { true } else { cx.src.chance(1, 3) }, serial: 0, done: Default::default(), fds_done: Default::default(), seen: Default::default() })
        .collect();
    let mut ex: Vec<Exch> = Vec::new();
    let mut q: Queue<Ev> = Queue::new();
    let k = cx.src.urange(2, 14);
    for i in 0..k {
        let from = cx.src.idx(n);
        let to = (from + 1 + cx.src.idx(n - 1)) % n;
        if nodes[from].real != nodes[to].real {
            cx.nontrivial();
        }
        nodes[from].serial += 1 + cx.src.below(3) as u32;
        let serial = nodes[from].serial;
        let (m, frame, fds) = make(cx, &g, nodes[from].real, serial)?;
        cx.note(|| format!("exchange {}: node {} ({}) -> node {} ({}): {}", i, from, make_of(&nodes[from]), to, make_of(&nodes[to]), describe(&m)));
        let rep = if m.typ == 1 && m.flags & 1 == 0 { Some(rep(&mut cx.src, &g)) } else { None };
        let mut extra = if rep.is_some() { g.body(&mut cx.src) } else { Vec::new() };
        extra.retain(|v| {
            let mut o = Vec::new();
            v.fds(&mut o);
            o.is_empty()
        });
        extra.truncate(3);
        ex.push(Exch { from, to, m, frame, fds, rep, extra, want: None, completed: false });
        q.at(cx.src.below(300) * MS, Ev::Send(i));
    }
    let faults_until = 3000 * MS;
    let mut tries = vec![0u32; k];
    while let Some(e) = q.pop(cx) {
        if cx.now > faults_until {
            net = NetCfg { drop: 0, dup: 0, jitter: 1, stall: 0 };
        }
        match e {
            Ev::Send(i) => {
                if ex[i].completed {
                    continue;
                }
                tries[i] += 1;
                if tries[i] > 1 {
                    cx.probe("retransmission");
                }
                ensure!(tries[i] < 200, "an exchange never completes", "exchange {} after {} attempts", i, tries[i]);
                cx.ev("send", &[i as u64]);
                for d in net.deliver(cx) {
                    q.at(cx.now + d, Ev::Arrive { x: i, back: false, bytes: ex[i].frame.clone(), fds: ex[i].fds.clone() });
                }
                q.at(cx.now + 100 * MS, Ev::Send(i));
            }
            Ev::Arrive { x, back: false, bytes, fds } => {
                cx.ev("arrive", &[x as u64, bytes.len() as u64]);
                let (from, to) = (ex[x].from, ex[x].to);
                let m = ex[x].m.clone();
                let got = receive(cx, &nodes[to], &bytes, &fds, &m)?;
                let key = (from, m.serial);
                if ex[x].rep.is_none() {
                    ex[x].completed = true;
                    continue;
                }
                if nodes[to].seen.insert(key, ()).is_some() {
                    cx.probe("duplicate request answered from the record");
                } else {
                    // the request is executed once
                    let r = ex[x].rep.clone().unwrap();
                    nodes[to].serial += 1;
                    let serial = nodes[to].serial;
                    let extra = ex[x].extra.clone();
                    let a = answer(cx, nodes[to].real, got.as_ref(), &m, &r, serial, &extra)?;
                    match a {
                        None => {
                            ex[x].rep = None;
                            ex[x].completed = true;
                            continue;
                        }
                        Some((b, f, w)) => {
                            nodes[to].done.insert(key, b);
                            nodes[to].fds_done.insert(key, f);
                            ex[x].want = Some(w);
                        }
                    }
                }
                let b = match nodes[to].done.get(&key) {
                    Some(b) => b.clone(),
                    None => continue,
                };
                let f = nodes[to].fds_done[&key].clone();
                for d in net.deliver(cx) {
                    q.at(cx.now + d, Ev::Arrive { x, back: true, bytes: b.clone(), fds: f.clone() });
                }
            }
            Ev::Arrive { x, back: true, bytes, fds } => {
                cx.ev("answer", &[x as u64, bytes.len() as u64]);
                let w = ex[x].want.clone().unwrap();
                let from = ex[x].from;
                receive(cx, &nodes[from], &bytes, &fds, &w)?;
                ex[x].completed = true;
            }
        }
    }
    ensure!(ex.iter().all(|e| e.completed), "an exchange never completes", "");
    cx.did("exchanges completed", k as u64);
    // frames that mutation turned into other valid frames
    for _ in 0..cx.src.idx(6) {
        let i = cx.src.idx(k);
        let f = ex[i].frame.clone();
        let fds = ex[i].fds.clone();
        mutants(cx, f, &fds)?;
    }
    cx.sh.sim_ns = cx.now;
    Ok(())
}

fn make_of(n: &Node) -> &'static str {
    if n.real { "this library" } else { "foreign" }
}

fn make(cx: &mut Ctx, g: &G, real: bool, serial: u32) -> Res<(MMsg, Vec<u8>, Vec<i32>)> {
    if real && cx.src.chance(1, 3) {
        let (mut x, mut m) = ctor(cx, g)?;
        m.serial = serial;
        cx.lib("set_serial", || x.set_serial(serial))?;
        let (b, fds) = enc(cx, &x)?;
        strict(cx, &b, &fds, &m)?;
        return Ok((m, b, fds));
    }
    let mut m = g.msg_fd(&mut cx.src);
    if cx.src.flag() {
        // more calls
        let body = std::mem::take(&mut m.body);
        let u = m.f.unix_fds;
        m = g.msg_of(&mut cx.src, 1);
        m.body = body;
        m.f.unix_fds = u;
    }
    m.serial = serial;
    let mut distinct = Vec::new();
    for f in m.body_fds() {
        if !distinct.contains(&f) {
            distinct.push(f)
        }
    }
    m.f.unix_fds = if distinct.is_empty() { None } else { Some(distinct.len() as u32) };
    if real {
        let (b, fds) = build_enc(cx, &m)?;
        ensure!(fds == distinct, "wrong descriptors are sent", "expected {:?} got {:?}", distinct, fds);
        strict(cx, &b, &fds, &m)?;
        Ok((m, b, fds))
    } else {
        let o = opts(&mut cx.src);
        let f = ref_encode(&m, &o);
        Ok((m, f.bytes, f.fds))
    }
}

/// A node receives a frame that must be `m`.
fn receive(cx: &mut Ctx, n: &Node, bytes: &[u8], fds: &[i32], m: &MMsg) -> Res<Option<dbus_message_parser::message::Message>> {
    if n.real {
        let b = view(&mut cx.src, bytes);
        let f = if fds.is_empty() && cx.src.flag() { None } else { Some(fds) };
        match dec(cx, b, f)? {
            Ok((x, used, ufds)) => {
                ensure!(used == bytes.len() && ufds == fds.len(), "a reported length is wrong", "{} of {} bytes, {} of {} descriptors", used, bytes.len(), ufds, fds.len());
                same(cx, "a message arrived as another one", m, &x)?;
                Ok(Some(x))
            }
            Err(e) => crate::fail!("a valid frame is refused", "{}\n frame {}", cut(&format!("{:?} for {}", e, describe(m)), 1200), hex(bytes)),
        }
    } else {
        match ref_decode(bytes, Some(fds)) {
            RefOut::Ok(r) => {
                ensure!(r.m == *m, "a foreign peer reads another message", "expected {}\n got {}", describe(m), describe(&r.m));
                Ok(None)
            }
            o => crate::fail!("a foreign peer cannot read a frame", "{}", cut(&format!("{:?}", o), 300)),
        }
    }
}

type Answer = Option<(Vec<u8>, Vec<i32>, MMsg)>;

fn answer(cx: &mut Ctx, real: bool, x: Option<&dbus_message_parser::message::Message>, m: &MMsg, r: &Rep, serial: u32, extra: &[MV]) -> Res<Answer> {
    if real {
        let x = x.unwrap();
        let (mut y, mut w) = match reply(cx, x, m, r)? {
            Some(p) => p,
            None => return Ok(None),
        };
        cx.lib("set_serial", || y.set_serial(serial))?;
        w.serial = serial;
        if w.typ == 2 {
            for v in extra {
                if w.sig().len() + v.ty().text().len() > MAX_SIG {
                    continue;
                }
                let lv = cx.lib("building a value", || crate::bridge::value(v))?.map_err(|e| class("a valid value cannot be built", e))?;
                cx.lib("add_value", || y.add_value(lv))?;
                w.body.push(v.clone());
            }
        }
        let (b, f) = enc(cx, &y)?;
        strict(cx, &b, &f, &w)?;
        Ok(Some((b, f, w)))
    } else {
        let mut w = match rep_model(m, r) {
            Some(w) => w,
            None => return Ok(None),
        };
        w.serial = serial;
        if w.typ == 2 {
            for v in extra {
                if w.sig().len() + v.ty().text().len() <= MAX_SIG {
                    w.body.push(v.clone());
                }
            }
        }
        let o = opts(&mut cx.src);
        let f = ref_encode(&w, &o);
        Ok(Some((f.bytes, f.fds, w)))
    }
}

fn mutants(cx: &mut Ctx, base: Vec<u8>, fds: &[i32]) -> Res {
    if base.len() > 4000 {
        return Ok(());
    }
    for _ in 0..12 {
        let mut f = base.clone();
        for _ in 0..cx.src.urange(1, 3) {
            let i = cx.src.idx(f.len());
            f[i] = match cx.src.idx(4) {
                0 => f[i] ^ (1 << cx.src.idx(8)),
                1 => f[i].wrapping_add(1),
                2 => cx.src.below(256) as u8,
                _ => *cx.src.pick(b"_-.:/09azAZ\0\x01\x7f\xc3"),
            };
        }
        if let RefOut::Ok(r) = ref_decode(&f, Some(fds)) {
            if r.lenient.is_some() || r.used != f.len() || r.m.f.unix_fds.unwrap_or(0) as usize != fds.len() {
                continue;
            }
            cx.probe("mutated into another valid frame");
            let b = view(&mut cx.src, &f);
            match dec(cx, b, Some(fds))? {
                Ok((x, used, _)) => {
                    ensure!(used == f.len(), "a reported length is wrong", "{} of {}", used, f.len());
                    same(cx, "a message arrived as another one", &r.m, &x)?
                }
                Err(e) => crate::fail!("a valid frame is refused", "{}\n frame {}", cut(&format!("{:?} for {}", e, describe(&r.m)), 1200), hex(&f)),
            }
        }
    }
    Ok(())
}
