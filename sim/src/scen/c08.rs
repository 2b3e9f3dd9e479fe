//! C08: clients and services on a bus that loses, duplicates, delays and reorders, with retries and
//! service restarts: every call is answered once, with the answer to that call.
use super::util::*;
use super::Prop;
use crate::ensure;
use crate::gen::G;
use crate::kernel::*;
use crate::model::*;
use bytes::Bytes;
use dbus_message_parser::message::Message;
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "C08",
    run,
    quick: 150000,
    factor: 24,
    rule: "1-4 clients and 1-3 services, all using this library, exchange 2-24 calls (any optional header fields, both byte orders, constructors, with and without destination) answered by returns and every kind of error; clients retry with the same serial and match replies by sender and reply serial; services crash and lose their state; other message types are answered too. Faults stop after 3 simulated seconds, then everything must complete within 20. Non-trivial: a retry, duplicate or restart happened.",
    real: "Message::{method_call,property_*,method_return,error,invalid_args,unknown_*,set_serial,add_value,encode,decode,get_*} in clients and services",
    stub: "network, clock, routing bus that stamps the sender, client and service loops",
    known: None,
};

struct Call {
    client: usize,
    m: MMsg,
    frame: Vec<u8>,
    rep: Rep,
    extra: Option<MV>,
    /// what the caller must get
    want: Option<MMsg>,
    oneway: bool,
    done: u32,
    tries: u32,
}

enum Ev {
    Send(usize),
    AtService { call: usize, frame: Vec<u8>, epoch: u32 },
    AtClient { client: usize, frame: Vec<u8> },
    Crash(usize),
    Noise(usize),
}

fn run(cx: &mut Ctx) -> Res {
    let mut g = G::draw(&mut cx.src, false);
    tame(&mut g);
    g.nodes = g.nodes.min(12);
    g.big = g.big.min(300);
    rarely_big(&mut cx.src, &mut g, 30);
    g.body_max = g.body_max.min(3);
    rarely_huge(&mut cx.src, &mut g);
    let mut net = NetCfg::draw(cx);
    let nc = cx.src.urange(1, 4);
    let ns = cx.src.urange(1, 3);
    let names: Vec<String> = (0..nc).map(|i| if cx.src.flag() { format!(":1.{}", i) } else { format!("org.client.c{}", i) }).collect();
    let svc: Vec<String> = (0..ns).map(|i| if cx.src.flag() { format!(":2.{}", i) } else { format!("org.service.s{}", i) }).collect();
    // clients number their calls alike, so only the sender tells them apart
    let mut serial: Vec<u32> = (0..nc).map(|_| if cx.src.chance(1, 4) { u32::MAX - 2 } else { cx.src.below(3) as u32 }).collect();
    let k = cx.src.urange(2, 24);
    let mut calls: Vec<Call> = Vec::new();
    let mut q: Queue<Ev> = Queue::new();
    let mut target = Vec::new();
    for i in 0..k {
        let c = cx.src.idx(nc);
        let s = cx.src.idx(ns);
        serial[c] = serial[c].wrapping_add(1);
        if serial[c] == 0 {
            serial[c] = 1;
        }
        let with_dest = !cx.src.chance(1, 5);
        let mut m;
        if cx.src.flag() {
            m = g.msg_of(&mut cx.src, 1);
            m.f.destination = if with_dest { Some(svc[s].clone()) } else { None };
            m.f.sender = if cx.src.flag() { Some(names[c].clone()) } else { None };
        } else {
            let (_, mm) = ctor(cx, &g)?;
            m = mm;
            m.typ = 1;
            m.flags = 0;
            m.f.destination = Some(svc[s].clone());
        }
        m.serial = serial[c];
        let x = build(cx, &m)?;
        let (frame, _) = enc(cx, &x)?;
        // the bus stamps the sender
        let frame = match ref_decode(&frame, Some(&[])) {
            RefOut::Ok(r) => {
                ensure!(r.m == m, "a foreign peer reads another message", "{}", describe(&m));
                m.f.sender = Some(names[c].clone());
                let o = opts(&mut cx.src);
                ref_encode(&m, &o).bytes
            }
            o => crate::fail!("the bus cannot read a call", "{}", cut(&format!("{:?}", o), 300)),
        };
        let oneway = m.flags & 1 != 0;
        let r = rep(&mut cx.src, &g);
        let extra = if cx.src.flag() { Some(MV::U64(0xA000 + i as u64)) } else { None };
        let mut want = rep_model(&m, &r);
        if let (Some(w), Some(e)) = (&mut want, &extra) {
            w.body.push(e.clone());
        }
        cx.note(|| format!("call {}: client {} ({}) -> service {}: {}", i, c, names[c], s, describe(&m)));
        cx.mix_bytes(&frame);
        target.push(s);
        calls.push(Call { client: c, m, frame, rep: r, extra, want, oneway, done: 0, tries: 0 });
        q.at(cx.src.below(200) * MS, Ev::Send(i));
    }
    let mut epoch = vec![0u32; ns];
    // answers a service remembers, to answer a repeated call the same way
    let mut memo: Vec<BTreeMap<usize, Vec<u8>>> = vec![BTreeMap::new(); ns];
    let mut out_serial = vec![0u32; ns];
    for s in 0..ns {
        if cx.src.chance(1, 4) {
            for _ in 0..cx.src.urange(1, 3) {
                q.at(cx.src.below(2500) * MS, Ev::Crash(s));
            }
        }
        if cx.src.chance(1, 3) {
            q.at(cx.src.below(1000) * MS, Ev::Noise(s));
        }
    }
    let quiet = 3000 * MS;
    while let Some(e) = q.pop(cx) {
        if cx.now > quiet && net.drop + net.dup + net.stall > 0 {
            net = NetCfg { drop: 0, dup: 0, jitter: 1, stall: 0 };
            cx.ev("faults stop", &[]);
        }
        ensure!(cx.now < 23_000 * MS, "a call never completes", "{:?}", calls.iter().enumerate().filter(|c| c.1.done == 0).map(|c| c.0).collect::<Vec<_>>());
        match e {
            Ev::Send(i) => {
                let c = &mut calls[i];
                if c.done > 0 {
                    continue;
                }
                c.tries += 1;
                if c.tries > 1 {
                    cx.probe("retry");
                    cx.nontrivial();
                }
                let f = c.frame.clone();
                cx.ev("call", &[i as u64]);
                for d in net.deliver(cx) {
                    q.at(cx.now + d, Ev::AtService { call: i, frame: f.clone(), epoch: epoch[target[i]] });
                }
                q.at(cx.now + 150 * MS, Ev::Send(i));
            }
            Ev::AtService { call, frame, epoch: e } => {
                let s = target[call];
                if e != epoch[s] {
                    cx.fault("call lost in a service crash");
                    continue;
                }
                cx.ev("at service", &[call as u64]);
                let m = calls[call].m.clone();
                let x = match dec(cx, Bytes::from(frame), None)? {
                    Ok((x, _, _)) => x,
                    Err(e) => crate::fail!("a service cannot read a call", "{}", cut(&format!("{:?}", e), 300)),
                };
                same(cx, "a call arrived as another one", &m, &x)?;
                if calls[call].oneway {
                    calls[call].done = 1;
                    continue;
                }
                let b = match memo[s].get(&call) {
                    Some(b) if !cx.src.chance(1, 3) => b.clone(),
                    _ => {
                        let r = calls[call].rep.clone();
                        let mut y = match rep_real(cx, &x, &r)? {
                            Some(y) => y,
                            None => {
                                ensure!(calls[call].want.is_none(), "a reply is missing", "{:?} to {}", r, describe(&m));
                                calls[call].done = 1;
                                continue;
                            }
                        };
                        same(cx, "making a reply changed the received message", &m, &x)?;
                        let w = match &calls[call].want {
                            Some(w) => w.clone(),
                            None => crate::fail!("a reply made from nothing", "{:?} to {}", r, describe(&m)),
                        };
                        if let Some(v) = &calls[call].extra {
                            let lv = cx.lib("building a value", || crate::bridge::value(v))?.map_err(|e| class("a valid value cannot be built", e))?;
                            cx.lib("add_value", || y.add_value(lv))?;
                        }
                        same(cx, "a reply differs from what answers its call", &w, &y)?;
                        out_serial[s] += 1;
                        let n = out_serial[s];
                        cx.lib("set_serial", || y.set_serial(n))?;
                        let (b, _) = enc(cx, &y)?;
                        memo[s].insert(call, b.clone());
                        b
                    }
                };
                // the bus routes by what is in the frame
                let r = match ref_decode(&b, Some(&[])) {
                    RefOut::Ok(r) => r,
                    o => crate::fail!("the bus cannot read a reply", "{}", cut(&format!("{:?}", o), 300)),
                };
                let to = r.m.f.destination.clone();
                let c = match names.iter().position(|n| Some(n) == to.as_ref()) {
                    Some(c) => c,
                    None => crate::fail!("a reply is addressed to nobody", "{:?}", to),
                };
                for d in net.deliver(cx) {
                    q.at(cx.now + d, Ev::AtClient { client: c, frame: b.clone() });
                }
            }
            Ev::AtClient { client, frame } => {
                cx.ev("at client", &[client as u64]);
                let x = match dec(cx, Bytes::from(frame), None)? {
                    Ok((x, _, _)) => x,
                    Err(e) => crate::fail!("a client cannot read a reply", "{}", cut(&format!("{:?}", e), 300)),
                };
                let (rs, from) = cx.lib("get_reply_serial", || (x.get_reply_serial(), x.get_sender().map(|s| s.to_string())))?;
                // the client looks for its open call
                let i = match calls.iter().position(|c| c.client == client && Some(c.m.serial) == rs && c.m.f.destination == from) {
                    Some(i) => i,
                    None => crate::fail!("a client gets an answer to a call it never made", "reply serial {:?} from {:?} at {}", rs, from, names[client]),
                };
                if calls[i].done > 0 {
                    cx.probe("duplicate reply dropped");
                    cx.nontrivial();
                    continue;
                }
                let mut w = match calls[i].want.clone() {
                    Some(w) => w,
                    None => crate::fail!("a client gets an answer that cannot exist", "call {}", i),
                };
                w.serial = cx.lib("get_serial", || x.get_serial())?;
                same(cx, "a call was completed with another answer", &w, &x)?;
                calls[i].done += 1;
                cx.did("calls completed", 1);
            }
            Ev::Crash(s) => {
                cx.fault("service crash and restart");
                cx.ev("crash", &[s as u64]);
                epoch[s] += 1;
                memo[s].clear();
                out_serial[s] = 0;
                cx.nontrivial();
            }
            Ev::Noise(s) => {
                // something that is not a call reaches a service that answers everything
                let m = g.msg(&mut cx.src);
                cx.ev("noise", &[s as u64, m.typ as u64]);
                let f = frame_of(cx, &m)?;
                let x: Message = match dec(cx, Bytes::from(f), None)? {
                    Ok((x, _, _)) => x,
                    Err(e) => crate::fail!("a valid message is refused", "{}", cut(&format!("{:?}", e), 300)),
                };
                let r = rep(&mut cx.src, &g);
                if let Some((y, w)) = reply(cx, &x, &m, &r)? {
                    let (b, _) = enc(cx, &y)?;
                    strict(cx, &b, &[], &w)?;
                }
            }
        }
    }
    ensure!(calls.iter().all(|c| c.done == 1), "a call never completes", "{:?}", calls.iter().map(|c| c.done).collect::<Vec<_>>());
    cx.sh.sim_ns = cx.now;
    Ok(())
}

fn frame_of(cx: &mut Ctx, m: &MMsg) -> Res<Vec<u8>> {
    frame(cx, m)
}
