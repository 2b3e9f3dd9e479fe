//! C21: an object with properties that clients read, write and watch over a faulty link, while its
//! process crashes and recovers from a log of the requests it took apart.
use super::util::*;
use super::Prop;
use crate::bridge;
use crate::choice::Src;
use crate::gen::G;
use crate::kernel::*;
use crate::model::*;
use crate::{ensure, fail};
use bytes::Bytes;
use dbus_message_parser::match_rule::MatchRule;
use dbus_message_parser::message::*;
use dbus_message_parser::value::*;
use std::collections::BTreeMap;
use std::convert::{TryFrom, TryInto};

pub const PROP: Prop = Prop {
    id: "C21",
    run,
    quick: 60000,
    factor: 24,
    rule: "1-3 clients read, write, list and modify 1-8 properties (alike names, any text, every type) of 1-3 objects through Get, Set and GetAll and send stray calls, over a link that loses, duplicates, delays and reorders, retrying with the same serial; the service writes each Set it serves, taken apart and put together, to a log, crashes also in the middle of a write, and recovers from the log, at times in a process that never used the library; watchers with rules get the change signals. Messages are assembled value by value, and judged, encoded, copied, split and put together on the way. Faults stop after 3 simulated seconds, then everything must complete within 20. Non-trivial: a property was written and read.",
    real: "Message::{property_get,property_set,properties_get_all,method_call,signal,method_return,error,invalid_args,unknown_*,new,add_value,split,set_serial,get_*,has_*,encode,decode}, Array, Struct, Value::get_type, MatchRule::matching_rules in clients, service, bus and recovery",
    stub: "network, clock, disk, bus, reference property store",
    known: None,
};

const PROPS: &str = "org.freedesktop.DBus.Properties";
const READ: &str = "a property reads back as something else";
const STEP: &str = "a message under construction does not hold what was put in";
const PARTS: &str = "a message taken apart and put together is another one";

type Key = (String, String, String);
type Store = BTreeMap<Key, Value>;

// ---------------------------------------------------------------- the service

/// Does what a request says. None: no request that can be answered.
fn serve(st: &mut Store, x: &Message, define: bool) -> Result<Option<Message>, String> {
    let t = |e: ArrayError| format!("{:?}", e);
    let path = match x.get_path() {
        Some(p) => p.to_string(),
        None => return Err("a call without a path".into()),
    };
    if !define && !st.keys().any(|k| k.0 == path) {
        return Ok(x.unknown_path());
    }
    let name = |n: &str| bridge::error(&format!("org.freedesktop.DBus.Error.{}", n));
    match x.get_interface() {
        Some(i) if *i == *PROPS => (),
        _ => return Ok(x.unknown_interface()),
    }
    let member: &str = x.get_member().map_or("", |m| m.as_ref());
    let known = |st: &Store, i: &str| st.keys().any(|k| k.0 == path && k.1 == i);
    Ok(Some(match (member, x.get_body()) {
        ("Get", [Value::String(i), Value::String(p)]) => match st.get(&(path.clone(), i.clone(), p.clone())) {
            Some(v) => {
                let mut y = x.method_return().map_err(|_| "method_return refused")?;
                y.add_value(Value::Variant(Box::new(v.clone())));
                y
            }
            None if !known(st, i) => x.error(name("UnknownInterface")?, i.clone()),
            None => x.unknown_property(p),
        },
        ("Set", [Value::String(i), Value::String(p), Value::Variant(v)]) => {
            let k = (path.clone(), i.clone(), p.clone());
            match st.get(&k) {
                None if define => {
                    st.insert(k, (**v).clone());
                    x.method_return().map_err(|_| "method_return refused")?
                }
                None if !known(st, i) => x.error(name("UnknownInterface")?, i.clone()),
                None => x.unknown_property(p),
                Some(o) => {
                    let (a, b) = (o.get_type().map_err(|e| e.to_string())?, v.get_type().map_err(|e| e.to_string())?);
                    if a != b {
                        x.invalid_args(format!("expected {} got {}", a, b))
                    } else {
                        st.insert(k, (**v).clone());
                        x.method_return().map_err(|_| "method_return refused")?
                    }
                }
            }
        }
        ("GetAll", [Value::String(i)]) => {
            if !known(st, i) {
                x.error(name("UnknownInterface")?, i.clone())
            } else {
                let l: Vec<Value> = st
                    .iter()
                    .filter(|(k, _)| k.0 == path && k.1 == *i)
                    .map(|(k, v)| Value::DictEntry(Box::new((Value::String(k.2.clone()), Value::Variant(Box::new(v.clone()))))))
                    .collect();
                let mut y = x.method_return().map_err(|_| "method_return refused")?;
                let e = Type::DictEntry(Box::new((Type::String, Type::Variant)));
                y.add_value(Value::Array(Array::new(l, e).map_err(t)?));
                y
            }
        }
        ("Get", _) | ("Set", _) | ("GetAll", _) => x.invalid_args("arguments".into()),
        _ => return Ok(x.unknown_member()),
    }))
}

/// The same on the side of the simulator.
#[derive(Default, Clone)]
struct MStore(BTreeMap<Key, MV>);

fn served(st: &mut MStore, m: &MMsg) -> Option<MMsg> {
    let path = m.f.path.clone().unwrap_or_default();
    let err = |n: &str, t: &str| Some(ref_reply(m, Some((&format!("org.freedesktop.DBus.Error.{}", n), t))));
    if !st.0.keys().any(|k| k.0 == path) {
        return rep_model(m, &Rep::Path);
    }
    if m.f.interface.as_deref() != Some(PROPS) {
        return rep_model(m, &Rep::Interface);
    }
    let known = |st: &MStore, i: &str| st.0.keys().any(|k| k.0 == path && k.1 == i);
    let mut ok = ref_reply(m, None);
    match (m.f.member.as_deref().unwrap_or(""), &m.body[..]) {
        ("Get", [MV::Str(i), MV::Str(p)]) => match st.0.get(&(path.clone(), i.clone(), p.clone())) {
            Some(v) => {
                ok.body.push(MV::Var(Box::new(v.clone())));
                Some(ok)
            }
            None if !known(st, i) => err("UnknownInterface", i),
            None => rep_model(m, &Rep::Property(p.clone())),
        },
        ("Set", [MV::Str(i), MV::Str(p), MV::Var(v)]) => {
            let k = (path.clone(), i.clone(), p.clone());
            match st.0.get(&k) {
                None if !known(st, i) => err("UnknownInterface", i),
                None => rep_model(m, &Rep::Property(p.clone())),
                Some(o) if o.ty() != v.ty() => rep_model(m, &Rep::InvalidArgs(format!("expected {} got {}", o.ty().text(), v.ty().text()))),
                Some(_) => {
                    st.0.insert(k, (**v).clone());
                    Some(ok)
                }
            }
        }
        ("GetAll", [MV::Str(i)]) => {
            if !known(st, i) {
                return err("UnknownInterface", i);
            }
            ok.body.push(listing(st, &path, i));
            Some(ok)
        }
        ("Get", _) | ("Set", _) | ("GetAll", _) => rep_model(m, &Rep::InvalidArgs("arguments".into())),
        _ => rep_model(m, &Rep::Member),
    }
}

fn entry_type() -> MT {
    MT::Dict(Box::new((MT::B(b's'), MT::B(b'v'))))
}
fn entry(p: &str, v: &MV) -> MV {
    MV::Dict(Box::new((MV::Str(p.to_string()), MV::Var(Box::new(v.clone())))))
}
fn listing(st: &MStore, path: &str, i: &str) -> MV {
    MV::Arr(entry_type(), st.0.iter().filter(|(k, _)| k.0 == path && k.1 == *i).map(|(k, v)| entry(&k.2, v)).collect())
}

// ---------------------------------------------------------------- the log

fn sum(b: &[u8]) -> u32 {
    b.iter().fold(0x811c_9dc5u32, |h, c| (h ^ *c as u32).wrapping_mul(0x0100_0193))
}
fn record(kind: u8, frame: &[u8]) -> Vec<u8> {
    let mut r = vec![kind];
    r.extend_from_slice(&(frame.len() as u32).to_le_bytes());
    r.extend_from_slice(&sum(frame).to_le_bytes());
    r.extend_from_slice(frame);
    r
}
/// The intact records of a log.
fn records(log: &[u8]) -> Vec<(u8, &[u8])> {
    let mut l = Vec::new();
    let mut b = log;
    while b.len() >= 9 {
        let n = u32::from_le_bytes([b[1], b[2], b[3], b[4]]) as usize;
        let s = u32::from_le_bytes([b[5], b[6], b[7], b[8]]);
        match b[9..].get(..n) {
            Some(f) if sum(f) == s => l.push((b[0], f)),
            _ => break,
        }
        b = &b[9 + n..];
    }
    l
}
/// A process that starts: the store as the log says, and the requests that were served.
fn recover(log: &[u8]) -> Result<(Store, Vec<Message>), String> {
    let mut st = Store::new();
    let mut l = Vec::new();
    for (k, f) in records(log) {
        let (x, n) = Message::decode(Bytes::copy_from_slice(f)).map_err(|e| format!("the log is refused: {:?}", e))?;
        if n != f.len() {
            return Err("the log is read in another length".into());
        }
        serve(&mut st, &x, k == 0)?.ok_or("the log holds no request")?;
        if k == 1 {
            l.push(x);
        }
    }
    Ok((st, l))
}
/// Answers a request in a fresh process: the log behind the length of the request, and the request.
fn work(q: &[u8]) -> Vec<u8> {
    let n = u32::from_le_bytes([q[0], q[1], q[2], q[3]]) as usize;
    let r = || -> Result<Vec<u8>, String> {
        let (mut st, _) = recover(&q[4 + n..])?;
        let (x, _) = Message::decode(Bytes::copy_from_slice(&q[4..4 + n])).map_err(|e| format!("{:?}", e))?;
        let y = serve(&mut st, &x, false)?.ok_or("no answer")?;
        Ok(y.encode().map_err(|e| format!("{:?}", e))?.to_vec())
    };
    match r() {
        Ok(b) => b,
        Err(e) => [b"!", e.as_bytes()].concat(),
    }
}

// ---------------------------------------------------------------- making and unmaking messages

/// Takes a value to its parts and makes it again from them.
fn remake(v: Value) -> Result<Value, String> {
    Ok(match v {
        Value::Array(a) => {
            let t = a.get_type().clone();
            let l: Vec<Value> = a.into();
            let l: Result<Vec<Value>, String> = l.into_iter().map(remake).collect();
            Value::Array(Array::new(l?, t).map_err(|e| format!("{:?}", e))?)
        }
        Value::Struct(s) => {
            let l: Vec<Value> = s.into();
            let l: Result<Vec<Value>, String> = l.into_iter().map(remake).collect();
            Value::Struct(Struct::try_from(l?).map_err(|e| format!("{:?}", e))?)
        }
        Value::DictEntry(e) => {
            let (k, v) = *e;
            Value::DictEntry(Box::new((remake(k)?, remake(v)?)))
        }
        Value::Variant(v) => Value::Variant(Box::new(remake(*v)?)),
        Value::Signature(l) => {
            let t = Type::from_signature_to_string(&l).map_err(|e| format!("{:?}", e))?;
            Value::Signature(Type::from_string_to_signature(&t).map_err(|e| format!("{:?}", e))?)
        }
        Value::ObjectPath(p) => {
            let t: String = p.into();
            Value::ObjectPath(t.try_into().map_err(|e| format!("{:?}", e))?)
        }
        v => v,
    })
}

/// Splits and joins; `m` is what the message holds.
fn rejoin(cx: &mut Ctx, m: &MMsg, x: Message) -> Res<Message> {
    cx.did("messages taken apart and put together", 1);
    let deep = cx.src.flag();
    let y = cx.lib("splitting a message", || -> Result<Message, String> {
        let (h, b) = x.split().map_err(|e| format!("split: {:?}", e))?;
        let b = if deep { b.into_iter().map(remake).collect::<Result<Vec<_>, _>>()? } else { b };
        Ok(Message::new(h, b))
    })?;
    let y = y.map_err(|e| class(PARTS, e))?;
    // the header now tells the signature of the body
    let has = cx.lib("has_signature", || y.has_signature())?;
    ensure!(has == !m.body.is_empty(), PARTS, "has_signature: {} for a body of {} values", has, m.body.len());
    same(cx, PARTS, m, &y)?;
    Ok(y)
}

/// Adds `vals` to what `x` holds already, looking at it on the way.
fn assemble(cx: &mut Ctx, m: &mut MMsg, mut x: Message, vals: &[MV]) -> Res<Message> {
    for v in vals {
        let w = cx.lib("building a value", || bridge::value(v))?.map_err(|e| class("a valid value cannot be built", e))?;
        let t = cx.lib("get_type", || w.get_type())?;
        ensure!(matches!(&t, Ok(t) if bridge::same_type(&v.ty(), t)), STEP, "type {:?} of {}", t, cut(&format!("{:?}", v), 300));
        let old = if cx.src.chance(1, 8) { Some((m.clone(), x.clone())) } else { None };
        cx.lib("add_value", || x.add_value(w))?;
        m.body.push(v.clone());
        match cx.src.idx(8) {
            0 => same(cx, STEP, m, &x)?,
            1 => {
                // a first version is sent
                let (b, f) = enc(cx, &x)?;
                strict(cx, &b, &f, m)?;
            }
            2 => x = rejoin(cx, m, x)?,
            3 => x = cx.lib("clone", || x.clone())?,
            _ => (),
        }
        if let Some((m, x)) = old {
            same(cx, "adding to a message changed its copy", &m, &x)?;
        }
        cx.did("values added", 1);
    }
    same(cx, STEP, m, &x)?;
    Ok(x)
}

// ---------------------------------------------------------------- clients

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Get,
    All,
    Set,
    Stray,
}

struct Op {
    client: usize,
    kind: Kind,
    m: MMsg,
    frame: Vec<u8>,
    done: u32,
    tries: u32,
    /// write it back, changed or not, when read
    modify: bool,
}

enum Ev {
    Send(usize),
    AtService { op: usize, frame: Vec<u8>, epoch: u32 },
    AtClient { client: usize, frame: Vec<u8> },
    AtWatcher { watcher: usize, frame: Vec<u8>, m: usize },
    Crash,
}

fn request(cx: &mut Ctx, g: &G, kind: Kind, dst: &str, k: &Key, v: Option<MV>, from: &str, serial: u32) -> Res<(Vec<u8>, MMsg)> {
    let mut m = MMsg { le: true, typ: 1, flags: 0, version: 1, serial: 0, f: MFields::default(), body: Vec::new() };
    m.f.path = Some(k.0.clone());
    m.f.destination = Some(dst.to_string());
    m.f.interface = Some(PROPS.into());
    let mut vals = vec![MV::Str(k.1.clone())];
    match kind {
        Kind::Get => {
            m.f.member = Some("Get".into());
            vals.push(MV::Str(k.2.clone()));
        }
        Kind::All => m.f.member = Some("GetAll".into()),
        Kind::Set => {
            m.f.member = Some("Set".into());
            vals.push(MV::Str(k.2.clone()));
            vals.push(MV::Var(Box::new(v.clone().unwrap_or(MV::Byte(0)))));
        }
        Kind::Stray => {
            let l = ["Get", "Set", "GetAll", "GetAl", "get"];
            m.f.member = Some(if cx.src.flag() { cx.src.pick(&l).to_string() } else { g.member(&mut cx.src) });
            if cx.src.flag() {
                m.f.interface = Some(if cx.src.flag() { g.interface(&mut cx.src) } else { k.1.clone() });
            }
            let n = cx.src.idx(4);
            let n = if cx.src.chance(1, 30) { cx.src.urange(10, 250) } else { n };
            vals = (0..n).map(|_| if cx.src.flag() { MV::Str(k.1.clone()) } else { MV::Byte(1) }).collect();
        }
    }
    let by_hand = kind == Kind::Stray || cx.src.chance(1, 3);
    let mut x = if by_hand {
        let head = m.clone();
        let ctor = cx.src.flag();
        let x = cx.lib("a message constructor", || -> Result<Message, String> {
            if !ctor {
                return bridge::message(&head);
            }
            let f = &head.f;
            let t = |s: &Option<String>| s.clone().unwrap_or_default();
            Ok(Message::method_call(bridge::bus(&t(&f.destination))?, bridge::path(&t(&f.path))?, bridge::interface(&t(&f.interface))?, bridge::member(&t(&f.member))?))
        })?;
        let x = x.map_err(|e| class("a valid message cannot be built", e))?;
        assemble(cx, &mut m, x, &vals)?
    } else {
        let x = cx.lib("a property constructor", || -> Result<Message, String> {
            let (d, p, i) = (bridge::bus(dst)?, bridge::path(&k.0)?, bridge::interface(&k.1)?);
            Ok(match kind {
                Kind::Get => Message::property_get(d, p, i, &k.2),
                Kind::All => Message::properties_get_all(d, p, i),
                _ => Message::property_set(d, p, i, &k.2, bridge::value(&v.clone().unwrap_or(MV::Byte(0)))?),
            })
        })?;
        let x = x.map_err(|e| class("a valid message cannot be built", e))?;
        m.body = vals;
        same(cx, "a property constructor says something else", &m, &x)?;
        x
    };
    cx.lib("set_serial", || x.set_serial(serial))?;
    m.serial = serial;
    if cx.src.chance(1, 6) {
        x = rejoin(cx, &m, x)?;
    }
    let (b, f) = enc(cx, &x)?;
    strict(cx, &b, &f, &m)?;
    // the bus stamps the sender
    m.f.sender = Some(from.to_string());
    let o = opts(&mut cx.src);
    Ok((ref_encode(&m, &o).bytes, m))
}

/// What a client writes back of what it read.
fn modified(s: &mut Src, g: &G, v: &MV) -> MV {
    let mut v = v.clone();
    match &mut v {
        MV::Arr(t, l) => match s.idx(4) {
            0 if !l.is_empty() => {
                let i = s.idx(l.len());
                l.remove(i);
            }
            1 => l.reverse(),
            2 => l.clear(),
            _ => {
                let x = g.value(s, t, &mut 3, 2);
                l.push(x)
            }
        },
        MV::Str(t) => t.push('!'),
        MV::U32(x) => *x = x.wrapping_add(1),
        MV::I64(x) => *x = x.wrapping_neg(),
        MV::F64(x) => *x ^= 1 << 63,
        MV::Bool(x) => *x = !*x,
        _ => (),
    }
    v
}

struct Watcher {
    rules: Vec<MRule>,
    real: Vec<MatchRule>,
}

/// A log record of a request, by the real node.
fn logged(cx: &mut Ctx, m: &MMsg, x: &Message) -> Res<Vec<u8>> {
    let y = cx.lib("clone", || x.clone())?;
    let y = rejoin(cx, m, y)?;
    let (b, f) = enc(cx, &y)?;
    strict(cx, &b, &f, m)?;
    Ok(b)
}

fn similar(s: &mut Src, g: &G, have: &[String]) -> String {
    let mut t = match (s.idx(4), have.last()) {
        (0, Some(h)) => h.to_lowercase(),
        (1, Some(h)) => format!("{}2", h),
        (2, Some(h)) => h.chars().take(h.chars().count().saturating_sub(1)).collect(),
        _ if s.chance(1, 4) => g.string(s),
        _ => s.pick(&["", "Volume", "Name", "name", "Größe", "a b", "0", "\u{1F600}"]).to_string(),
    };
    while have.contains(&t) {
        t.push('x');
    }
    t
}

fn run(cx: &mut Ctx) -> Res {
    let mut g = G::draw(&mut cx.src, false);
    tame(&mut g);
    g.nodes = g.nodes.min(10);
    g.big = g.big.min(300);
    rarely_big(&mut cx.src, &mut g, 40);
    rarely_huge(&mut cx.src, &mut g);
    let mut net = NetCfg::draw(cx);
    let z = if cx.src.chance(1, 20) { Some(zygote(cx, &work)) } else { None };
    let s = &mut cx.src;
    let nc = s.urange(1, 3);
    let names: Vec<String> = (0..nc).map(|i| format!(":1.{}", i)).collect();
    let dst = if s.flag() { ":2.7".to_string() } else { "org.a.Mixer".to_string() };
    // objects, interfaces and properties that are easily confused
    let mut paths = vec![g.path(s)];
    for _ in 1..s.urange(1, 3) {
        let p = match paths.last() {
            Some(p) if p != "/" && s.flag() => format!("{}{}", p, if s.flag() { "/a" } else { "a" }),
            _ => g.path(s),
        };
        if !paths.contains(&p) && p.len() < 300 {
            paths.push(p)
        }
    }
    let mut ifaces = vec![if s.chance(1, 8) { PROPS.to_string() } else { g.interface(s) }];
    if s.flag() {
        let i = format!("{}{}", ifaces[0], if s.flag() { "2" } else { ".b" });
        ifaces.push(if ok_interface(&i) { i } else { "org.a.b".into() });
    }
    let mut st = MStore::default();
    let mut log = Vec::new();
    let mut props: Vec<String> = Vec::new();
    let mut keys: Vec<Key> = Vec::new();
    for _ in 0..s.urange(1, 8) {
        let p = if !props.is_empty() && s.flag() { s.pick(&props).clone() } else { similar(s, &g, &props) };
        if !props.contains(&p) {
            props.push(p.clone());
        }
        let k = (s.pick(&paths).clone(), s.pick(&ifaces).clone(), p);
        if keys.contains(&k) {
            continue;
        }
        let t = if s.chance(1, 10) { MT::B(b'v') } else { g.ty(s, 2) };
        let t = if s.chance(1, 4) { MT::Arr(Box::new(t)) } else { t };
        let v = g.value(s, &t, &mut 6, 1);
        st.0.insert(k.clone(), v);
        keys.push(k);
    }
    let all: Vec<(Key, MV)> = st.0.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    for (k, v) in &all {
        let (b, _) = request(cx, &g, Kind::Set, &dst, k, Some(v.clone()), ":0.0", 1)?;
        log.extend(record(0, &b));
    }
    let (mut real, _) = cx.lib("starting the service", || recover(&log))?.map_err(|e| class("a log cannot be read", e))?;
    // watchers
    let mut watchers = Vec::new();
    for _ in 0..cx.src.idx(3) {
        let s = &mut cx.src;
        let mut rules = vec![MRule::Type(4)];
        if s.flag() {
            rules.push(MRule::Arg(0, s.pick(&ifaces).clone()))
        }
        if s.flag() {
            let p = s.pick(&paths).clone();
            rules.push(if s.flag() { MRule::Path(p) } else { MRule::PathNamespace(p) })
        }
        if s.flag() {
            rules.push(MRule::Member(if s.flag() { "PropertiesChanged" } else { "Changed" }.into()))
        }
        let real = cx.lib("building rules", || bridge::rules(&rules))?.map_err(|e| class("valid rules cannot be built", e))?;
        watchers.push(Watcher { rules, real });
    }
    let mut ops: Vec<Op> = Vec::new();
    let mut q: Queue<Ev> = Queue::new();
    let mut serials: Vec<u32> = (0..nc).map(|_| if cx.src.chance(1, 5) { u32::MAX - 3 } else { 0 }).collect();
    let mut next = |c: usize| {
        serials[c] = serials[c].wrapping_add(1).max(1);
        serials[c]
    };
    for _ in 0..cx.src.urange(2, 24) {
        let s = &mut cx.src;
        let c = s.idx(nc);
        let kind = *s.pick(&[Kind::Get, Kind::Get, Kind::Set, Kind::Set, Kind::All, Kind::Stray]);
        let mut k = s.pick(&keys).clone();
        if s.chance(1, 8) {
            match s.idx(3) {
                0 => k.0 = g.path(s),
                1 => k.1 = g.interface(s),
                _ => k.2 = similar(s, &g, &props),
            }
        }
        let v = match st.0.get(&k) {
            Some(v) if !s.chance(1, 10) => g.value(s, &v.ty(), &mut 6, 1),
            _ => {
                let t = if s.chance(1, 10) { MT::B(b'v') } else { g.ty(s, 1) };
                g.value(s, &t, &mut 4, 1)
            }
        };
        let modify = kind == Kind::Get && s.chance(1, 3);
        let (frame, m) = request(cx, &g, kind, &dst, &k, Some(v), &names[c], next(c))?;
        cx.note(|| format!("op {}: {:?} by {}: {}", ops.len(), kind, names[c], describe(&m)));
        cx.mix_bytes(&frame);
        q.at(cx.src.below(1500) * MS, Ev::Send(ops.len()));
        ops.push(Op { client: c, kind, m, frame, done: 0, tries: 0, modify });
    }
    for _ in 0..cx.src.weighted(&[2, 2, 1, 1]) {
        q.at(cx.src.below(2500) * MS, Ev::Crash);
    }
    let mut epoch = 0u32;
    // what was answered, by the serial of the reply
    let mut said: Vec<(usize, MMsg)> = Vec::new();
    let mut signals: Vec<MMsg> = Vec::new();
    // requests that changed something, with the reply
    let mut memo: BTreeMap<(String, u32), Message> = BTreeMap::new();
    let mut applied: Vec<usize> = Vec::new();
    let quiet = 3000 * MS;
    while let Some(e) = q.pop(cx) {
        if cx.now > quiet && net.drop + net.dup + net.stall > 0 {
            net = NetCfg { drop: 0, dup: 0, jitter: 1, stall: 0 };
            cx.ev("faults stop", &[]);
        }
        ensure!(cx.now < 23_000 * MS, "a request is never answered", "{:?}", ops.iter().enumerate().filter(|c| c.1.done == 0).map(|c| c.0).collect::<Vec<_>>());
        match e {
            Ev::Send(i) => {
                if ops[i].done > 0 {
                    continue;
                }
                ops[i].tries += 1;
                if ops[i].tries > 1 {
                    cx.probe("retry");
                }
                let f = ops[i].frame.clone();
                cx.ev("request", &[i as u64]);
                for d in net.deliver(cx) {
                    q.at(cx.now + d, Ev::AtService { op: i, frame: f.clone(), epoch });
                }
                q.at(cx.now + 150 * MS, Ev::Send(i));
            }
            Ev::AtService { op, frame, epoch: e } => {
                if e != epoch {
                    cx.fault("request lost in a crash");
                    continue;
                }
                cx.ev("at service", &[op as u64]);
                let x = match dec(cx, Bytes::from(frame), None)? {
                    Ok((x, _, _)) => x,
                    Err(e) => fail!("a service cannot read a request", "{}", cut(&format!("{:?}", e), 300)),
                };
                let m = ops[op].m.clone();
                same(cx, "a request arrived as another one", &m, &x)?;
                let id = (names[ops[op].client].clone(), m.serial);
                let mut w;
                let mut y;
                if let Some(r) = memo.get(&id) {
                    // it was done before
                    cx.probe("repeated write answered again");
                    w = ref_reply(&m, None);
                    y = cx.lib("clone", || r.clone())?;
                } else {
                    let mut st2 = st.clone();
                    w = match served(&mut st2, &m) {
                        Some(w) => w,
                        None => fail!("HARNESS", "no reference answer to {}", describe(&m)),
                    };
                    let write = st2.0 != st.0 || (ops[op].kind == Kind::Set && w.typ == 2);
                    if write {
                        let r = record(1, &logged(cx, &m, &x)?);
                        if cx.src.chance(1, 12) {
                            // the disk got a part of it
                            let n = cx.src.idx(r.len());
                            let keep = log.len();
                            log.extend_from_slice(&r[..n]);
                            cx.fault("crash in the middle of a write");
                            (real, memo) = restart(cx, &log)?;
                            log.truncate(keep);
                            epoch += 1;
                            continue;
                        }
                        log.extend(r);
                        applied.push(op);
                    }
                    st = st2;
                    let r = cx.lib("serving a request", || serve(&mut real, &x, false))?;
                    y = match r {
                        Ok(Some(y)) => y,
                        Ok(None) => fail!("a request is not answered", "{}", describe(&m)),
                        Err(e) => fail!("a request cannot be served", "{}: {}", cut(&e, 300), describe(&m)),
                    };
                    same(cx, "serving a request changed it", &m, &x)?;
                    if write {
                        let r = cx.lib("clone", || y.clone())?;
                        memo.insert(id, r);
                        cx.did("properties written", 1);
                        let n = signals.len();
                        if let (Some(MV::Str(i)), Some(MV::Str(p)), Some(MV::Var(v))) = (m.body.first(), m.body.get(1), m.body.get(2)) {
                            let mut sm = MMsg { le: true, typ: 4, flags: 1, version: 1, serial: 0, f: MFields::default(), body: Vec::new() };
                            sm.f.path = m.f.path.clone();
                            sm.f.interface = Some(PROPS.into());
                            sm.f.member = Some("PropertiesChanged".into());
                            let hide = cx.src.chance(1, 4);
                            let vals = [
                                MV::Str(i.clone()),
                                MV::Arr(entry_type(), if hide { vec![] } else { vec![entry(p, v)] }),
                                MV::Arr(MT::B(b's'), if hide { vec![MV::Str(p.clone())] } else { vec![] }),
                            ];
                            let head = sm.clone();
                            let sig = cx.lib("Message::signal", || -> Result<Message, String> {
                                Ok(Message::signal(bridge::path(head.f.path.as_deref().unwrap_or("/"))?, bridge::interface(PROPS)?, bridge::member("PropertiesChanged")?))
                            })?;
                            let sig = sig.map_err(|e| class("a valid message cannot be built", e))?;
                            let mut sig = assemble(cx, &mut sm, sig, &vals)?;
                            sm.serial = n as u32 + 1;
                            cx.lib("set_serial", || sig.set_serial(n as u32 + 1))?;
                            let (b, f) = enc(cx, &sig)?;
                            strict(cx, &b, &f, &sm)?;
                            for (k, o) in watchers.iter().enumerate() {
                                let got = match dec(cx, Bytes::from(b.clone()), None)? {
                                    Ok((x, _, _)) => cx.lib("matching_rules", || MatchRule::matching_rules(&o.real, &x))?,
                                    Err(e) => fail!("a bus cannot read a signal", "{}", cut(&format!("{:?}", e), 300)),
                                };
                                let want = o.rules.iter().all(|r| ref_match(r, &sm));
                                ensure!(got == want, "a change is announced to others than who asked", "{:?}: {} for {}", o.rules, got, describe(&sm));
                                if got {
                                    for d in net.deliver(cx) {
                                        q.at(cx.now + d, Ev::AtWatcher { watcher: k, frame: b.clone(), m: n });
                                    }
                                }
                            }
                            signals.push(sm);
                        }
                    }
                }
                same(cx, READ, &w, &y)?;
                if cx.src.chance(1, 6) {
                    y = rejoin(cx, &w, y)?;
                }
                said.push((op, w.clone()));
                let n = said.len() as u32;
                cx.lib("set_serial", || y.set_serial(n))?;
                w.serial = n;
                let (b, f) = enc(cx, &y)?;
                strict(cx, &b, &f, &w)?;
                for d in net.deliver(cx) {
                    q.at(cx.now + d, Ev::AtClient { client: ops[op].client, frame: b.clone() });
                }
            }
            Ev::AtClient { client, frame } => {
                cx.ev("at client", &[client as u64]);
                let x = match dec(cx, Bytes::from(frame), None)? {
                    Ok((x, _, _)) => x,
                    Err(e) => fail!("a client cannot read an answer", "{}", cut(&format!("{:?}", e), 300)),
                };
                let (n, rs) = cx.lib("get_serial", || (x.get_serial(), x.get_reply_serial()))?;
                let (op, mut w) = match said.get((n as usize).wrapping_sub(1)) {
                    Some((o, w)) => (*o, w.clone()),
                    None => fail!("an answer that was never given", "serial {}", n),
                };
                w.serial = n;
                same(cx, READ, &w, &x)?;
                ensure!(rs == Some(ops[op].m.serial) && ops[op].client == client, "an answer to another request", "{:?}", rs);
                if ops[op].done > 0 {
                    cx.probe("duplicate answer dropped");
                    continue;
                }
                ops[op].done += 1;
                cx.did("requests answered", 1);
                if w.typ != 2 || ops[op].kind == Kind::Set {
                    continue;
                }
                cx.did("properties read", w.body.len() as u64);
                if !applied.is_empty() {
                    cx.nontrivial();
                }
                // the client takes out what it asked for
                let v = cx.lib("taking an answer apart", || -> Result<Value, String> {
                    let (_, mut b) = x.split().map_err(|e| format!("split: {:?}", e))?;
                    match (b.pop(), b.pop()) {
                        (Some(Value::Variant(v)), None) => Ok(*v),
                        (Some(v), None) => Ok(v),
                        _ => Err("not one value".into()),
                    }
                })?;
                let v = v.map_err(|e| class(READ, e))?;
                let mv = match &w.body[0] {
                    MV::Var(v) => (**v).clone(),
                    v => v.clone(),
                };
                cx.lib("inspecting a value", || bridge::same(&mv, &v))?.map_err(|e| class(READ, e))?;
                let r = cx.lib("making a value from its parts", || remake(v))?.map_err(|e| class("a value cannot be made from its parts", e))?;
                cx.lib("inspecting a value", || bridge::same(&mv, &r))?.map_err(|e| class("a value made from its parts is another one", e))?;
                if ops[op].modify && cx.now < quiet {
                    let nv = modified(&mut cx.src, &g, &mv);
                    let (i, p) = match &ops[op].m.body[..] {
                        [MV::Str(i), MV::Str(p)] => (i.clone(), p.clone()),
                        _ => continue,
                    };
                    let k = (ops[op].m.f.path.clone().unwrap_or_default(), i, p);
                    let (frame, m) = request(cx, &g, Kind::Set, &dst, &k, Some(nv), &names[client], next(client))?;
                    cx.did("properties modified", 1);
                    q.at(cx.now + cx.src.below(50) * MS, Ev::Send(ops.len()));
                    ops.push(Op { client, kind: Kind::Set, m, frame, done: 0, tries: 0, modify: false });
                }
            }
            Ev::AtWatcher { watcher, frame, m } => {
                cx.ev("at watcher", &[watcher as u64, m as u64]);
                let x = match dec(cx, Bytes::from(frame), None)? {
                    Ok((x, _, _)) => x,
                    Err(e) => fail!("a watcher cannot read a signal", "{}", cut(&format!("{:?}", e), 300)),
                };
                same(cx, "a change is announced as another one", &signals[m], &x)?;
                cx.did("changes seen", 1);
            }
            Ev::Crash => {
                cx.fault("service crash and restart");
                cx.ev("crash", &[]);
                epoch += 1;
                (real, memo) = restart(cx, &log)?;
                if let Some(z) = &z {
                    let k = cx.src.pick(&keys).clone();
                    let (f, m) = request(cx, &g, Kind::All, &dst, &k, None, ":9.9", 77)?;
                    let mut rq = (f.len() as u32).to_le_bytes().to_vec();
                    rq.extend_from_slice(&f);
                    rq.extend_from_slice(&log);
                    if rq.len() < 500_000 {
                        let b = fresh(cx, z, "recovering from a log", &rq)?;
                        ensure!(b.first() != Some(&b'!'), "a log cannot be read", "{}", cut(&String::from_utf8_lossy(&b), 300));
                        let want = match served(&mut st.clone(), &m) {
                            Some(w) => w,
                            None => fail!("HARNESS", "no reference answer"),
                        };
                        strict(cx, &b, &[], &want)?;
                        cx.nontrivial();
                    }
                }
            }
        }
    }
    ensure!(ops.iter().all(|c| c.done == 1), "a request is never answered", "{:?}", ops.iter().map(|c| c.done).collect::<Vec<_>>());
    // every write took effect once, and the log holds exactly the writes
    let mut once = applied.clone();
    once.sort_unstable();
    once.dedup();
    ensure!(once.len() == applied.len(), "a write took effect twice", "{:?}", applied);
    let (end, l) = cx.lib("reading the log", || recover(&log))?.map_err(|e| class("a log cannot be read", e))?;
    ensure!(l.len() == applied.len(), "the log holds other writes", "{} of {}", l.len(), applied.len());
    for (x, i) in l.iter().zip(&applied) {
        same(cx, "the log holds another write", &ops[*i].m, x)?;
    }
    ensure!(end.len() == st.0.len(), READ, "{} properties of {}", end.len(), st.0.len());
    for ((k, v), (kk, m)) in end.iter().zip(&st.0) {
        ensure!(k == kk, READ, "{:?} for {:?}", k, kk);
        cx.lib("inspecting a value", || bridge::same(m, v))?.map_err(|e| class(READ, e))?;
    }
    cx.sh.sim_ns = cx.now;
    Ok(())
}

/// The service starts from its log.
fn restart(cx: &mut Ctx, log: &[u8]) -> Res<(Store, BTreeMap<(String, u32), Message>)> {
    let (st, l) = cx.lib("recovering from a log", || recover(log))?.map_err(|e| class("a log cannot be read", e))?;
    let mut memo = BTreeMap::new();
    for x in l {
        let (k, r) = cx.lib("answering again", || ((x.get_sender().map(|s| s.to_string()).unwrap_or_default(), x.get_serial()), x.method_return()))?;
        match r {
            Ok(r) => memo.insert(k, r),
            Err(_) => fail!("no method_return for a call", "{:?}", k),
        };
    }
    cx.did("recoveries", 1);
    Ok((st, memo))
}
