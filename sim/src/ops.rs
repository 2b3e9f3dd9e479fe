//! Public operations of the library as data: the same operation can be executed in this process,
//! in another one and in any thread, and its complete outcome compared.
use crate::bridge;
use crate::choice::Src;
use crate::gen::G;
use crate::model::*;
use crate::scen::{c09, damage};
use crate::scen::util::{ctor_model, opts, order, rep, rep_model_kind, Rep};
use crate::sink::Sink;
use bytes::Bytes;
use dbus_message_parser::match_rule::MatchRule;
use dbus_message_parser::message::Message;
use dbus_message_parser::value::{Array, Value, Bus, Error, Interface, Member, ObjectPath, Type, UniqueConnectionName, WellKnownBusName};
use std::convert::TryFrom;
use std::fmt::Write;

#[derive(Clone, Debug)]
pub enum Op {
    Encode(MMsg),
    Decode(Vec<u8>, Option<Vec<i32>>),
    /// decode, then encode what was read
    Relay(Vec<u8>, Vec<i32>),
    Match(MMsg, Vec<MRule>),
    /// as a receiver does: decode, then match
    MatchFrame(Vec<u8>, Vec<MRule>),
    ReadRules(String),
    ReadRule(String),
    /// types of the values of a message and of arrays made from them
    Types(MMsg),
    WriteRules(Vec<MRule>),
    Reply(MMsg, Rep),
    Ctor(MMsg),
    Append(String, Vec<String>),
    Below(String, String),
    /// every name type from the same text
    Names(String),
    Signature(Vec<u8>),
    WriteSignature(Vec<MT>),
    Split(MMsg),
    /// text into a sink that fails or panics
    Print(MRule, usize, bool),
    PrintType(MT, usize, bool),
}

fn dbg<T: std::fmt::Debug>(x: T) -> String {
    format!("{:?}", x)
}
fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(char::from(b"0123456789abcdef"[(x >> 4) as usize]));
        s.push(char::from(b"0123456789abcdef"[(x & 15) as usize]));
    }
    s
}

/// Data the library owns or lends that must stay as it is while other operations run.
pub enum Kept {
    Bytes(Bytes, Vec<u8>),
    Msg(Box<Message>, String),
    Rules(Vec<MatchRule>, String),
    Path(ObjectPath, String),
}
impl Kept {
    pub fn intact(&self) -> bool {
        match self {
            Kept::Bytes(b, v) => b[..] == v[..],
            Kept::Msg(m, s) => dbg(m) == *s,
            Kept::Rules(r, s) => dbg(r) == *s,
            Kept::Path(p, s) => dbg(p) == *s,
        }
    }
}

/// Messages prepared for operations that share them.
pub fn prepare(op: &Op) -> Option<Message> {
    match op {
        Op::Encode(m) | Op::Match(m, _) | Op::Reply(m, _) => bridge::message(m).ok(),
        _ => None,
    }
}

/// Executes an operation and describes everything about its outcome.
pub fn run(op: &Op, shared: Option<&Message>, keep: &mut Vec<Kept>) -> String {
    let mut o = outcome(op, shared, keep);
    if o.len() > 300_000 {
        let mut h = 0xcbf29ce484222325u64;
        for b in o.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        let n = o.len();
        let end = if o.ends_with(" CHANGED") { " CHANGED" } else { "" };
        let k = (0..=300_000).rev().find(|k| o.is_char_boundary(*k)).unwrap_or(0);
        o.truncate(k);
        let _ = write!(o, " and so on, {} bytes, {:x}{}", n, h, end);
    }
    o
}
fn outcome(op: &Op, shared: Option<&Message>, keep: &mut Vec<Kept>) -> String {
    let mut o = String::new();
    let own;
    match op {
        Op::Encode(m) => {
            let x = match shared {
                Some(x) => x,
                None => match bridge::message(m) {
                    Ok(x) => {
                        own = x;
                        &own
                    }
                    Err(e) => return format!("not built: {}", e),
                },
            };
            let before = dbg(x);
            match x.encode_with_fds() {
                Ok((b, f)) => {
                    let _ = write!(o, "{} {:?}", hex(&b), f);
                    let v = b.to_vec();
                    keep.push(Kept::Bytes(b.freeze(), v));
                }
                Err(e) => o = dbg(e),
            }
            match x.encode() {
                Ok(b) => {
                    let _ = write!(o, " again {}", hex(&b));
                }
                Err(e) => {
                    let _ = write!(o, " again {:?}", e);
                }
            }
            if dbg(x) != before {
                o.push_str(" MESSAGE CHANGED");
            }
        }
        Op::Decode(b, f) => {
            let v = Bytes::copy_from_slice(b);
            let r = match f {
                None => Message::decode(v.clone()).map(|(m, n)| (m, n, 0)),
                Some(f) => Message::decode_with_fds(v.clone(), f),
            };
            match r {
                Ok((m, n, k)) => {
                    let t = dbg(&m);
                    let _ = write!(o, "{} {} {}", n, k, t);
                    keep.push(Kept::Msg(Box::new(m), t));
                }
                Err(e) => {
                    let _ = write!(o, "{:?} {}", e, e);
                }
            }
            if v[..] != b[..] {
                o.push_str(" BUFFER CHANGED");
            }
            keep.push(Kept::Bytes(v, b.clone()));
        }
        Op::Relay(b, f) => match Message::decode_with_fds(Bytes::copy_from_slice(b), f) {
            Ok((m, n, k)) => {
                let _ = write!(o, "{} {} ", n, k);
                match m.encode_with_fds() {
                    Ok((b, f)) => {
                        let _ = write!(o, "{} {:?}", hex(&b), f);
                    }
                    Err(e) => o.push_str(&dbg(e)),
                }
            }
            Err(e) => o = dbg(e),
        },
        Op::Match(m, r) => {
            let rs = match bridge::rules(r) {
                Ok(x) => x,
                Err(e) => return format!("not built: {}", e),
            };
            let x = match shared {
                Some(x) => x,
                None => match bridge::message(m) {
                    Ok(x) => {
                        own = x;
                        &own
                    }
                    Err(e) => return format!("not built: {}", e),
                },
            };
            for r in &rs {
                let _ = write!(o, "{} ", r.matching_rule(x));
            }
            let _ = write!(o, "all {}", MatchRule::matching_rules(&rs, x));
            let t = dbg(&rs);
            keep.push(Kept::Rules(rs, t));
        }
        Op::MatchFrame(b, r) => {
            let rs = match bridge::rules(r) {
                Ok(x) => x,
                Err(e) => return format!("not built: {}", e),
            };
            match Message::decode(Bytes::copy_from_slice(b)) {
                Ok((m, _)) => {
                    for r in &rs {
                        let _ = write!(o, "{} ", r.matching_rule(&m));
                    }
                    let _ = write!(o, "all {}", MatchRule::matching_rules(&rs, &m));
                }
                Err(e) => o = dbg(e),
            }
        }
        Op::ReadRules(t) => match MatchRule::decode(t) {
            Ok(r) => {
                o = format!("{:?} {}", r, MatchRule::encode(&r));
                let t = dbg(&r);
                keep.push(Kept::Rules(r, t));
            }
            Err(e) => o = format!("{:?} {}", e, e),
        },
        Op::ReadRule(t) => match MatchRule::try_from(t.as_str()) {
            Ok(r) => o = format!("{:?} {}", r, r),
            Err(e) => o = format!("{:?} {}", e, e),
        },
        Op::Types(m) => match bridge::message(m) {
            Ok(x) => {
                o = dbg(x.get_signature());
                for v in x.get_body() {
                    match v.get_type() {
                        Ok(t) => {
                            let _ = write!(o, " {} {} {:?}", t, t.get_alignment(), Array::new(vec![v.clone(), v.clone()], t.clone()).map(|a| AsRef::<[Value]>::as_ref(&a).len()));
                            let _ = write!(o, " {:?}", Array::new(vec![v.clone(), Value::Byte(1)], t).map(|a| AsRef::<[Value]>::as_ref(&a).len()));
                        }
                        Err(e) => {
                            let _ = write!(o, " {:?} {}", e, e);
                        }
                    }
                }
            }
            Err(e) => o = e,
        },
        Op::WriteRules(r) => match bridge::rules(r) {
            Ok(x) => {
                o = MatchRule::encode(&x);
                for r in &x {
                    let _ = write!(o, " {}", r);
                }
            }
            Err(e) => o = e,
        },
        Op::Reply(m, r) => {
            let x = match shared {
                Some(x) => x,
                None => match bridge::message(m) {
                    Ok(x) => {
                        own = x;
                        &own
                    }
                    Err(e) => return format!("not built: {}", e),
                },
            };
            let before = dbg(x);
            match rep_model_kind(x, r) {
                Ok(Some(y)) => {
                    o = dbg(&y);
                    match y.encode() {
                        Ok(b) => o.push_str(&hex(&b)),
                        Err(e) => o.push_str(&dbg(e)),
                    }
                    keep.push(Kept::Msg(Box::new(y.clone()), dbg(y)));
                }
                Ok(None) => o.push_str("none"),
                Err(e) => o.push_str(&e),
            }
            if dbg(x) != before {
                o.push_str(" MESSAGE CHANGED");
            }
        }
        Op::Ctor(m) => match ctor_model(m) {
            Ok(x) => o = format!("{:?} {:?}", x, x.encode().map(|b| b.to_vec())),
            Err(e) => o = e,
        },
        Op::Append(p, es) => match bridge::path(p) {
            Ok(mut p) => {
                for e in es {
                    let _ = write!(o, "{} ", p.append(e));
                }
                o.push_str(&dbg(&p));
                let t = dbg(&p);
                keep.push(Kept::Path(p, t));
            }
            Err(e) => o = e,
        },
        Op::Below(a, b) => match (bridge::path(a), bridge::path(b)) {
            (Ok(a), Ok(b)) => {
                o = format!("{} {:?}", a.starts_with(&b), a.strip_prefix_elements(&b).map(|i| i.map(|s| s.to_string()).collect::<Vec<_>>()));
            }
            (a, b) => o = format!("{:?} {:?}", a, b),
        },
        Op::Names(t) => {
            let _ = write!(
                o,
                "{:?} {:?} {:?} {:?} {:?} {:?} {:?}",
                Bus::try_from(t.as_str()),
                UniqueConnectionName::try_from(t.as_str()),
                WellKnownBusName::try_from(t.as_str()),
                Interface::try_from(t.as_str()),
                Member::try_from(t.as_str()),
                Error::try_from(t.as_str()),
                ObjectPath::try_from(t.as_str())
            );
        }
        Op::Signature(b) => {
            let r = Type::from_bytes_to_signature(b);
            o = dbg(&r);
            if let Ok(ts) = r {
                let _ = write!(o, " {:?}", Type::from_signature_to_string(&ts));
            }
        }
        Op::WriteSignature(ts) => {
            let ts: Vec<Type> = ts.iter().map(bridge::ty).collect();
            o = dbg(Type::from_signature_to_string(&ts));
            for t in &ts {
                let _ = write!(o, " {} {}", t, t.get_alignment());
            }
        }
        Op::Split(m) => match bridge::message(m) {
            Ok(x) => o = format!("{:?} {:?}", x.get_signature(), x.split()),
            Err(e) => o = e,
        },
        Op::Print(r, n, p) => match bridge::rule(r) {
            Ok(r) => o = Sink::new(*n, *p).print(&r),
            Err(e) => o = e,
        },
        Op::PrintType(t, n, p) => o = Sink::new(*n, *p).print(&bridge::ty(t)),
    }
    o
}

fn small(s: &mut Src, fds: bool) -> G {
    let mut g = G::draw(s, fds);
    g.nodes = g.nodes.min(10);
    g.big = g.big.min(60);
    g.body_max = g.body_max.min(3);
    crate::scen::util::rarely_big(s, &mut g, 40);
    g
}

/// The same message with something changed: operations that a careless cache would confuse.
fn variant(s: &mut Src, g: &G, m: &MMsg) -> MMsg {
    let mut m = m.clone();
    match s.idx(8) {
        0 => m.le = !m.le,
        1 => m.serial = m.serial.wrapping_add(1).max(1),
        2 => m.body = g.body(s),
        3 => {
            let t = s.range(1, 4) as u8;
            let f = g.fields(s, t);
            m.typ = t;
            m.f = f;
        }
        4 => {
            // other values of the same types
            let ts: Vec<MT> = m.body.iter().map(|v| v.ty()).collect();
            let mut b = g.nodes;
            m.body = ts.iter().map(|t| g.value(s, t, &mut b, MAX_VARIANT)).collect();
        }
        5 => {
            // same lengths, other contents
            for v in m.body.iter_mut() {
                twist(v);
            }
            if let Some(p) = &mut m.f.member {
                let c = if p.ends_with('x') { 'y' } else { 'x' };
                p.pop();
                p.push(c);
            }
        }
        6 => {
            m.body.pop();
        }
        _ => {
            m.body.push(MV::U32(s.int(32) as u32));
            if m.sig().len() > MAX_SIG {
                m.body.clear();
            }
        }
    }
    let n = m.body_fds().len();
    m.f.unix_fds = if n > 0 { Some(n as u32) } else { None };
    m
}
fn twist(v: &mut MV) {
    match v {
        MV::Byte(x) => *x ^= 1,
        MV::Bool(x) => *x = !*x,
        MV::I16(x) => *x ^= 1,
        MV::U16(x) => *x ^= 1,
        MV::I32(x) => *x ^= 1,
        MV::U32(x) => *x ^= 1,
        MV::I64(x) => *x ^= 1,
        MV::U64(x) => *x ^= 1,
        MV::Str(s) => {
            if s.pop().is_some() {
                s.push('q');
            }
        }
        MV::Struct(v) | MV::Arr(_, v) => v.iter_mut().for_each(twist),
        MV::Dict(b) => twist(&mut b.1),
        MV::Var(b) => twist(b),
        _ => {}
    }
}

fn beyond(s: &mut Src, m: &mut MMsg) {
    // the encoder must refuse these
    match s.idx(3) {
        0 => m.body.push(MV::Sig((0..256).map(|_| MT::B(b'y')).collect())),
        1 => m.body.push(MV::Arr((0..33).fold(MT::B(b'y'), |t, _| MT::Arr(Box::new(t))), Vec::new())),
        _ => {
            for _ in 0..256 {
                m.body.push(MV::Byte(1));
            }
        }
    }
}

fn rule(s: &mut Src, g: &G, m: &MMsg) -> MRule {
    if s.chance(1, 4) {
        g.rule(s)
    } else {
        c09::about(s, g, m)
    }
}

/// A set of operations, many of them about the same or nearly the same data.
pub fn pool(s: &mut Src, n: usize) -> Vec<Op> {
    let fds = s.chance(1, 4);
    let g = small(s, fds);
    let mut msgs: Vec<MMsg> = vec![g.msg_fd(s)];
    let mut v = Vec::new();
    // often everybody does the same kind of thing
    let focus = if s.flag() { Some(s.idx(19)) } else { None };
    let routing = matches!(focus, Some(4..=7));
    if routing {
        msgs[0] = c09::message(s, &g);
    }
    for _ in 0..n {
        let m = if s.chance(1, 3) {
            if routing {
                c09::message(s, &g)
            } else {
                g.msg_fd(s)
            }
        } else {
            let i = s.idx(msgs.len());
            let b = msgs[i].clone();
            if s.flag() {
                variant(s, &g, &b)
            } else {
                b
            }
        };
        msgs.push(m.clone());
        let o = opts(s);
        let kind = match focus {
            Some(k) if !s.chance(1, 8) => k,
            _ => s.idx(19),
        };
        let op = match kind {
            0 => Op::Encode(m),
            1 | 2 => {
                let f = ref_encode(&m, &o);
                let mut b = f.bytes;
                match s.idx(5) {
                    0 => {}
                    3 => b = damage::dishonest(s, &m).0,
                    1 => b.truncate(s.idx(f.fds.len() + b.len())),
                    2 => {
                        let _ = damage::random(s, &mut b, &[]);
                    }
                    _ => b.extend_from_slice(&[1, 2, 3]),
                }
                Op::Decode(b, if f.fds.is_empty() && s.flag() { None } else if s.chance(1, 8) { Some(Vec::new()) } else { Some(f.fds) })
            }
            3 => {
                let f = ref_encode(&m, &o);
                Op::Relay(f.bytes, f.fds)
            }
            4 => {
                let n = s.idx(5);
                let r = (0..n).map(|_| rule(s, &g, &m)).collect();
                Op::Match(m, r)
            }
            5 => {
                let n = s.idx(5);
                let r = (0..n).map(|_| rule(s, &g, &m)).collect();
                Op::MatchFrame(ref_encode(&m, &o).bytes, r)
            }
            6 => {
                let n = s.idx(4);
                let r: Vec<MRule> = (0..n).map(|_| g.rule(s)).collect();
                let mut t = r.iter().map(ref_rule_text).collect::<Vec<_>>().join(",");
                match s.idx(4) {
                    0 => t.push('\''),
                    1 => t.push_str(",x=y"),
                    _ => {}
                }
                Op::ReadRules(t)
            }
            7 => {
                let n = s.idx(4);
                Op::WriteRules((0..n).map(|_| g.rule(s)).collect())
            }
            8 => Op::Reply(m, rep(s, &g)),
            9 => {
                let mut m = m;
                m.typ = 1;
                m.f.destination = Some(g.bus(s));
                m.f.path = Some(g.path(s));
                m.f.interface = Some(g.interface(s));
                m.f.member = Some(g.member(s));
                Op::Ctor(m)
            }
            10 => {
                let n = s.idx(4);
                Op::Append(g.path(s), (0..n).map(|_| if s.chance(1, 4) { g.string(s) } else { g.element(s, true, false) }).collect())
            }
            11 => {
                let a = g.path(s);
                let b = if s.flag() { a[..a.rfind('/').unwrap_or(0).max(1)].to_string() } else { g.path(s) };
                Op::Below(a, b)
            }
            12 => Op::Names(match s.idx(4) {
                0 => g.bus(s),
                1 => g.path(s),
                2 => g.string(s),
                _ => g.interface(s),
            }),
            13 => {
                let mut b = sig_text(&g.sig(s)).into_bytes();
                if s.chance(1, 3) && !b.is_empty() {
                    let i = s.idx(b.len());
                    b[i] = *s.pick(b"(){}avz\x00");
                }
                Op::Signature(b)
            }
            14 => Op::WriteSignature(g.sig(s)),
            15 => match s.idx(3) {
                0 => Op::Split(m),
                1 => {
                    let mut m = m;
                    beyond(s, &mut m);
                    Op::Encode(m)
                }
                _ => {
                    let _ = order(s);
                    Op::Reply(m, rep(s, &g))
                }
            },
            16 => {
                let mut t = ref_rule_text(&rule(s, &g, &m));
                match s.idx(5) {
                    0 => t.push('\''),
                    1 => {
                        let n = s.idx(t.len() + 1);
                        let n = (0..=n).rev().find(|n| t.is_char_boundary(*n)).unwrap_or(0);
                        t.truncate(n);
                    }
                    2 => t.push_str(",x=y"),
                    _ => {}
                }
                Op::ReadRule(t)
            }
            17 => {
                let mut m = m;
                if s.chance(1, 3) {
                    beyond(s, &mut m);
                }
                if ref_encode(&m, &o).bytes.len() > 6000 {
                    m.body.clear();
                    m.body.push(MV::Struct(vec![MV::Byte(1), MV::Str("a".into())]));
                }
                Op::Types(m)
            }
            _ => {
                if s.flag() {
                    Op::Print(g.rule(s), s.size(12, 200), s.flag())
                } else {
                    Op::PrintType(g.ty(s, 3), s.size(6, 100), s.flag())
                }
            }
        };
        v.push(op);
    }
    v
}
