//! C18: gateways that keep and forward header fields as generic values.
use super::damage::bad_text;
use super::util::*;
use super::Prop;
use crate::bridge;
use crate::choice::Src;
use crate::gen::G;
use crate::kernel::*;
use crate::model::*;
use crate::sys::Zygote;
use crate::{ensure, fail};
use bytes::Bytes;
use dbus_message_parser::message::{Message, MessageFlags, MessageHeader, MessageHeaderFields};
use dbus_message_parser::value::*;
use std::convert::TryFrom;

pub const PROP: Prop = Prop {
    id: "C18",
    run,
    quick: 260000,
    factor: 24,
    rule: "2-12 sets of header fields travel through 1-6 gateways that take them apart into generic values and put them together again; between gateways the values travel in memory, in the body of a message, or as the header of one, and are reordered, lost, duplicated, replaced, retyped, given other codes, or carry spoiled names; gateways crash and go on in a fresh process from what they had stored, and change fields themselves. Each step is judged by a reference that reads the values: the fields must be exactly what the values say, or be refused exactly if the values are no set of fields. Non-trivial: a fault or a gateway that changed something.",
    real: "TryFrom<Vec<Value>> for MessageHeaderFields, From<MessageHeaderFields> for Vec<Value>, MessageHeader::new and its getters, Message::split, encode and decode of frames that carry them, in this and in fresh processes",
    stub: "gateways, links, storage, reference reading of the values",
    known: None,
};

/// The fields with the signature, which the model of a message does not keep.
#[derive(Clone, Debug, PartialEq, Default)]
struct F {
    f: MFields,
    sig: Option<Vec<MT>>,
}

fn var(x: MV) -> MV {
    MV::Var(Box::new(x))
}
/// The generic values that say these fields.
fn entries(f: &F) -> Vec<MV> {
    let mut v: Vec<MV> = Vec::new();
    let mut e = |c: u8, x: Option<MV>| {
        if let Some(x) = x {
            v.push(MV::Struct(vec![MV::Byte(c), var(x)]))
        }
    };
    let s = |x: &Option<String>| x.clone().map(MV::Str);
    e(1, f.f.path.clone().map(MV::Path));
    e(2, s(&f.f.interface));
    e(3, s(&f.f.member));
    e(4, s(&f.f.error_name));
    e(5, f.f.reply_serial.map(MV::U32));
    e(6, s(&f.f.destination));
    e(7, s(&f.f.sender));
    e(8, f.sig.clone().map(MV::Sig));
    e(9, f.f.unix_fds.map(MV::U32));
    v
}

enum Says {
    Fields(F),
    No(&'static str),
    /// either refused, or these fields
    Either(F),
}

/// What values say.
fn read(v: &[MV]) -> Says {
    let mut f = F::default();
    let mut either = false;
    let mut seen = [false; 10];
    for e in v {
        let (c, x) = match e {
            MV::Struct(p) => match p.as_slice() {
                [MV::Byte(c), MV::Var(x)] => (*c, &**x),
                [_, _] => return Says::No("an entry of other types"),
                _ => return Says::No("an entry of another length"),
            },
            _ => return Says::No("an entry that is no structure"),
        };
        if c == 0 {
            return Says::No("the code 0");
        }
        if c > 9 {
            // unknown fields may be ignored or refused
            either = true;
            continue;
        }
        if seen[c as usize] {
            return Says::No("a field twice");
        }
        seen[c as usize] = true;
        let name = |ok: fn(&str) -> bool| match x {
            MV::Str(s) if ok(s) => Ok(Some(s.clone())),
            MV::Str(_) => Err("an ill-formed name"),
            _ => Err("a field of another type"),
        };
        let r = match (c, x) {
            (1, MV::Path(p)) => {
                f.f.path = Some(p.clone());
                Ok(())
            }
            (2, _) => name(ok_interface).map(|n| f.f.interface = n),
            (3, _) => name(ok_member).map(|n| f.f.member = n),
            (4, _) => name(ok_error).map(|n| f.f.error_name = n),
            (5, MV::U32(n)) => {
                either |= *n == 0;
                f.f.reply_serial = Some(*n);
                Ok(())
            }
            (6, _) => name(ok_bus).map(|n| f.f.destination = n),
            (7, _) => name(ok_bus).map(|n| f.f.sender = n),
            (8, MV::Sig(t)) => {
                f.sig = Some(t.clone());
                Ok(())
            }
            (9, MV::U32(n)) => {
                f.f.unix_fds = Some(*n);
                Ok(())
            }
            _ => Err("a field of another type"),
        };
        if let Err(w) = r {
            return Says::No(w);
        }
    }
    if either {
        Says::Either(f)
    } else {
        Says::Fields(f)
    }
}

/// What the library's fields contain.
fn contents(x: &MessageHeaderFields) -> (F, bool) {
    let s = |o: Option<&str>| o.map(|t| t.to_string());
    let f = MFields {
        path: s(x.path.as_ref().map(|p| p.as_ref())),
        interface: s(x.interface.as_ref().map(|p| p.as_ref())),
        member: s(x.member.as_ref().map(|p| p.as_ref())),
        error_name: s(x.error_name.as_ref().map(|p| p.as_ref())),
        reply_serial: x.reply_serial,
        destination: s(x.destination.as_ref().map(|p| p.as_ref())),
        sender: s(x.sender.as_ref().map(|p| p.as_ref())),
        unix_fds: x.unix_fds,
    };
    let mut back = true;
    let sig = x.signature.as_ref().map(|v| {
        v.iter()
            .map(|t| match parse_sig(t.to_string().as_bytes()) {
                Some(mut m) if m.len() == 1 && bridge::same_type(&m[0], t) => m.pop().unwrap(),
                _ => {
                    back = false;
                    MT::B(b'y')
                }
            })
            .collect()
    });
    (F { f, sig }, back)
}

fn values(v: &[MV]) -> Result<Vec<Value>, String> {
    v.iter().map(bridge::value).collect()
}

fn make(f: &F) -> Result<MessageHeaderFields, String> {
    let mut x = bridge::fields(&f.f)?;
    x.signature = f.sig.as_ref().map(|t| t.iter().map(bridge::ty).collect());
    Ok(x)
}

/// A gateway puts fields together.
fn join(cx: &mut Ctx, v: &[MV], lv: Vec<Value>) -> Res<Option<(F, MessageHeaderFields)>> {
    cx.did("sets of values put together", 1);
    let got = cx.lib("TryFrom<Vec<Value>>", || MessageHeaderFields::try_from(lv).map(|x| (contents(&x), x)).map_err(|e| format!("{:?}", e)))?;
    let show = || cut(&format!("{:?}", v), 900);
    match (got, read(v)) {
        (Ok(((f, t), x)), Says::Fields(w)) | (Ok(((f, t), x)), Says::Either(w)) => {
            ensure!(f == w && t, "fields differ from the values they were made of", "{}\n say {:?}\n got {:?}", show(), w, f);
            Ok(Some((f, x)))
        }
        (Ok(((f, _), _)), Says::No(why)) => fail!(format!("values that are no header fields are accepted: {}", why), "{}\n as {:?}", show(), f),
        (Err(e), Says::Fields(w)) => fail!("values that are header fields are refused", "{}\n say {:?}\n {}", show(), w, cut(&e, 300)),
        (Err(_), _) => {
            cx.probe("values refused");
            Ok(None)
        }
    }
}

/// A gateway takes fields apart: every field once, with the right code, and nothing else.
fn apart(cx: &mut Ctx, f: &F, x: MessageHeaderFields) -> Res<Vec<Value>> {
    cx.did("sets of fields taken apart", 1);
    let l = cx.lib("From<MessageHeaderFields>", || Vec::<Value>::from(x))?;
    let want = entries(f);
    let r = cx.lib("inspecting values", || -> Result<(), String> {
        if l.len() != want.len() {
            return Err(format!("{} values", l.len()));
        }
        for w in &want {
            if l.iter().filter(|x| bridge::same(w, x).is_ok()).count() != 1 {
                return Err(format!("no, or more than one {:?}", w));
            }
        }
        Ok(())
    })?;
    if let Err(e) = r {
        fail!("values differ from the fields they were made of", "{:?}\n gave {}\n {}", f, cut(&format!("{:?}", l), 900), cut(&e, 300));
    }
    Ok(l)
}

/// The same values in the order in which the library gave them.
fn in_order(f: &F, l: &[Value]) -> Vec<MV> {
    let w = entries(f);
    l.iter().filter_map(|x| w.iter().find(|w| bridge::same(w, x).is_ok()).cloned()).collect()
}

/// The link between gateways, with faults on entries.
fn link(cx: &mut Ctx, g: &G, v: &mut Vec<MV>) {
    if cx.src.flag() && v.len() > 1 {
        cx.src.shuffle(v);
        cx.fault("values reordered");
    }
    if !cx.src.chance(2, 5) {
        return;
    }
    for _ in 0..cx.src.weighted(&[0, 6, 2, 1]) {
        let n = v.len();
        let i = cx.src.idx(n.max(1));
        let s = &mut cx.src;
        let what = match s.idx(12) {
            0 if n > 0 => {
                v.remove(i);
                "a value lost"
            }
            1 if n > 0 => {
                let x = v[i].clone();
                let at = s.idx(n + 1);
                v.insert(at, x);
                "a value duplicated"
            }
            2 if n > 0 => {
                // another code
                let c = match s.idx(4) {
                    0 => s.below(12) as u8,
                    1 => s.below(256) as u8,
                    2 => *s.pick(&[0u8, 9, 10, 8, 255]),
                    _ => s.range(1, 9) as u8,
                };
                if let MV::Struct(p) = &mut v[i] {
                    p[0] = MV::Byte(c);
                }
                "a value with another code"
            }
            3 | 4 if n > 0 => {
                // a spoiled name
                if let MV::Struct(p) = &mut v[i] {
                    if let Some(MV::Var(x)) = p.get_mut(1) {
                        if let MV::Str(t) = &mut **x {
                            bad_text(s, t);
                        }
                    }
                }
                "a value with a spoiled name"
            }
            5 if n > 0 => {
                // another value in the variant
                let t = if s.flag() { MT::B(*s.pick(b"ybnqiuxtdsogv")) } else { g.ty(s, 2) };
                let mut b = 6;
                let x = g.value(s, &t, &mut b, 2);
                if let MV::Struct(p) = &mut v[i] {
                    let k = p.len().min(2) - 1;
                    p[k] = var(x);
                }
                "a value of another type"
            }
            6 if n > 0 => {
                // the same value, not wrapped, or wrapped twice, or as another integer
                if let MV::Struct(p) = &mut v[i] {
                    if p.len() < 2 {
                        continue;
                    }
                    let x = p[1].clone();
                    p[1] = match (s.idx(4), x) {
                        (0, MV::Var(y)) => *y,
                        (1, y) => var(y),
                        (2, MV::Var(y)) => var(match *y {
                            MV::U32(k) => MV::I32(k as i32),
                            MV::Str(t) if ok_path(&t) => MV::Path(t),
                            MV::Path(t) => MV::Str(t),
                            MV::Str(t) => match parse_sig(t.as_bytes()) {
                                Some(k) => MV::Sig(k),
                                None => MV::Struct(vec![MV::Str(t)]),
                            },
                            MV::Sig(k) => MV::Str(sig_text(&k)),
                            y => MV::Struct(vec![y]),
                        }),
                        (_, y) => MV::Arr(y.ty(), vec![y]),
                    };
                }
                "a value wrapped in another way"
            }
            7 if n > 0 => {
                if let MV::Struct(p) = &mut v[i] {
                    match s.idx(4) {
                        0 => {
                            let x = match s.idx(5) {
                                0 => MV::Byte(0),
                                1 => var(MV::Byte(1)),
                                2 => p[p.len() - 1].clone(),
                                3 => MV::Str(String::new()),
                                _ => MV::Struct(vec![MV::Byte(1), var(MV::U32(1))]),
                            };
                            p.push(x)
                        }
                        1 if p.len() > 1 => {
                            p.pop();
                        }
                        2 => p.insert(0, MV::Byte(1)),
                        _ => p.reverse(),
                    }
                }
                "an entry of another shape"
            }
            8 if n > 0 => {
                // the code as another integer
                if let MV::Struct(p) = &mut v[i] {
                    if let MV::Byte(c) = p[0] {
                        p[0] = match s.idx(3) {
                            0 => MV::U32(c as u32),
                            1 => MV::I16(c as i16),
                            _ => var(MV::Byte(c)),
                        };
                    }
                }
                "a code of another type"
            }
            9 => {
                let x = match s.idx(4) {
                    0 => MV::Byte(1),
                    1 => MV::Arr(MT::B(b'y'), vec![]),
                    2 => MV::Dict(Box::new((MV::Byte(5), var(MV::U32(1))))),
                    _ => var(MV::Struct(vec![MV::Byte(5), var(MV::U32(1))])),
                };
                let at = s.idx(n + 1);
                v.insert(at, x);
                "a foreign value inserted"
            }
            10 => {
                // a field of another set
                let t = s.range(1, 4) as u8;
                let o = entries(&F { f: g.fields(s, t), sig: Some(vec![MT::B(b's')]) });
                let at = s.idx(n + 1);
                let k = s.idx(o.len());
                v.insert(at, o[k].clone());
                "a value of another message inserted"
            }
            _ => {
                v.clear();
                "all values lost"
            }
        };
        cx.fault(what);
    }
}

/// The values as the body of a message from one gateway to the next.
fn by_message(cx: &mut Ctx, v: &[MV]) -> Res<Option<Vec<Value>>> {
    if v.iter().any(|x| x.ty().text() != "(yv)" || x.variant_depth() > 3) || v.is_empty() {
        return Ok(None);
    }
    let m = MMsg {
        le: cx.src.flag(),
        typ: 4,
        flags: 1,
        version: 1,
        serial: 9,
        f: MFields { path: Some("/g".into()), interface: Some("a.b".into()), member: Some("Fields".into()), ..Default::default() },
        body: vec![MV::Arr(v[0].ty(), v.to_vec())],
    };
    if !m.body_fds().is_empty() {
        return Ok(None);
    }
    let b = frame(cx, &m)?;
    let x = match dec(cx, Bytes::from(b), None)? {
        Ok((x, _, _)) => x,
        Err(e) => fail!("a valid frame is refused", "{} for {}", cut(&format!("{:?}", e), 200), describe(&m)),
    };
    cx.did("sets of values sent as a body", 1);
    let r = cx.lib("Message::split", || match x.split() {
        Ok((_, mut b)) => match b.pop() {
            Some(Value::Array(a)) => Ok(Vec::<Value>::from(a)),
            o => Err(format!("{:?}", o)),
        },
        Err(e) => Err(format!("{:?}", e)),
    })?;
    match r {
        Ok(l) => Ok(Some(l)),
        Err(e) => fail!("a message arrived as another one", "{}", cut(&e, 300)),
    }
}

/// The fields as the header of a message: it is made exactly if its type has what it needs.
fn by_header(cx: &mut Ctx, g: &G, f: &F, x: &MessageHeaderFields) -> Res<Option<(F, MessageHeaderFields)>> {
    let typ = cx.src.range(1, 4) as u8;
    let q = &f.f;
    let has = match typ {
        1 => q.path.is_some() && q.member.is_some(),
        2 => q.reply_serial.is_some(),
        3 => q.error_name.is_some() && q.reply_serial.is_some(),
        _ => q.path.is_some() && q.interface.is_some() && q.member.is_some(),
    };
    let le = cx.src.flag();
    let ty = bridge::mtype(typ).map_err(|e| class("HARNESS", e))?;
    let c = x.clone();
    let h = cx.lib("MessageHeader::new", || MessageHeader::new(le, ty, MessageFlags::empty(), 1, 5, c).map_err(|e| format!("{:?}", e)))?;
    let h = match (h, has) {
        (Ok(h), true) => h,
        (Err(_), false) => {
            cx.probe("a header refused that lacks a field");
            return Ok(None);
        }
        (Ok(_), false) => fail!("a header without a required field is made", "type {} of {:?}", typ, f),
        (Err(e), true) => fail!("a header with all required fields is refused", "type {} of {:?}: {}", typ, f, e),
    };
    // what the header says of each field
    let (y, s) = cx.lib("reading a header", || {
        let o = |t: Option<&str>| t.map(|t| t.to_string());
        (
            MFields {
                path: o(h.get_path().map(|p| p.as_ref())),
                interface: o(h.get_interface().map(|p| p.as_ref())),
                member: o(h.get_member().map(|p| p.as_ref())),
                error_name: o(h.get_error_name().map(|p| p.as_ref())),
                reply_serial: h.get_reply_serial(),
                destination: o(h.get_destination().map(|p| p.as_ref())),
                sender: o(h.get_sender().map(|p| p.as_ref())),
                unix_fds: h.get_unix_fds(),
            },
            h.get_signature().map(|s| s.to_vec()),
        )
    })?;
    ensure!(y == f.f && s == x.signature, "a header has other fields than it was given", "{:?}\n got {:?} {:?}", f, y, s);
    // on the wire, with a body that the next gateway sees as the signature
    let mut b = 5;
    let body: Vec<MV> = if cx.src.flag() {
        vec![]
    } else {
        let t = no_variant_or_fd(&g.ty(&mut cx.src, 2));
        vec![g.value(&mut cx.src, &t, &mut b, 1)]
    };
    // a count of descriptors cannot be sent without them, and a zero serial is another matter
    if f.f.unix_fds.is_some() || f.f.reply_serial == Some(0) {
        return Ok(None);
    }
    let lb = match cx.lib("making values", || values(&body))? {
        Ok(b) => b,
        Err(e) => fail!("a valid value cannot be made", "{}", e),
    };
    let msg = Message::new(h, lb);
    let (bytes, _) = enc(cx, &msg)?;
    let y = match dec(cx, Bytes::from(bytes), None)? {
        Ok((y, _, _)) => y,
        Err(e) => fail!("a valid frame is refused", "{} for {:?}", cut(&format!("{:?}", e), 200), f),
    };
    let want = F { f: f.f.clone(), sig: if body.is_empty() { None } else { Some(body.iter().map(|v| v.ty()).collect()) } };
    let l = cx.lib("reading a header", || {
        let s = y.split().map(|(h, _)| {
            let o = MessageHeaderFields {
                path: h.get_path().cloned(),
                interface: h.get_interface().cloned(),
                member: h.get_member().cloned(),
                error_name: h.get_error_name().cloned(),
                reply_serial: h.get_reply_serial(),
                destination: h.get_destination().cloned(),
                sender: h.get_sender().cloned(),
                signature: h.get_signature().map(|s| s.to_vec()),
                unix_fds: h.get_unix_fds(),
            };
            (contents(&o), o)
        });
        s.map_err(|e| format!("{:?}", e))
    })?;
    cx.did("sets of fields sent as a header", 1);
    match l {
        Ok(((mut got, t), o)) => {
            // an empty body may or may not have a signature
            let mut o = o;
            if body.is_empty() && got.sig == Some(vec![]) {
                got.sig = None;
                o.signature = None;
            }
            ensure!(got == want && t, "fields sent as a header arrive as others", "{:?}\n got {:?}", want, got);
            Ok(Some((got, o)))
        }
        Err(e) => fail!("a message cannot be split", "{}", e),
    }
}

/// A fresh process goes on from stored values, which it is given as the body of a frame.
fn work(req: &[u8]) -> Vec<u8> {
    let r = || -> Result<String, String> {
        let (x, _) = Message::decode(Bytes::copy_from_slice(req)).map_err(|e| format!("frame: {:?}", e))?;
        let (_, mut b) = x.split().map_err(|e| format!("{:?}", e))?;
        let l = match b.pop() {
            Some(Value::Array(a)) => Vec::<Value>::from(a),
            _ => return Err("no array".into()),
        };
        match MessageHeaderFields::try_from(l) {
            Ok(x) => {
                let (f, t) = contents(&x);
                let y = MessageHeaderFields::try_from(Vec::<Value>::from(x.clone())).map_err(|e| format!("again: {:?}", e))?;
                Ok(format!("{:?} {} {}", f, t, x == y))
            }
            Err(_) => Ok("refused".into()),
        }
    };
    match r() {
        Ok(s) => s,
        Err(e) => format!("broken {}", e),
    }
    .into_bytes()
}

fn restart(cx: &mut Ctx, z: &Zygote, v: &[MV]) -> Res {
    if v.is_empty() || v.iter().any(|x| x.ty().text() != "(yv)" || x.variant_depth() > 3) {
        return Ok(());
    }
    let mut fds = Vec::new();
    MV::Struct(v.to_vec()).fds(&mut fds);
    if !fds.is_empty() {
        return Ok(());
    }
    let m = MMsg { le: true, typ: 2, flags: 1, version: 1, serial: 9, f: MFields { reply_serial: Some(3), ..Default::default() }, body: vec![MV::Arr(v[0].ty(), v.to_vec())] };
    let b = ref_encode(&m, &EncOpts::default()).bytes;
    let r = fresh(cx, z, "TryFrom<Vec<Value>>", &b)?;
    cx.fault("a gateway crashed and went on in a fresh process");
    let r = String::from_utf8_lossy(&r).into_owned();
    let no = r == "refused";
    let ok = match read(v) {
        Says::Fields(f) => r == format!("{:?} true true", f),
        Says::Either(f) => no || r == format!("{:?} true true", f),
        Says::No(_) => no,
    };
    ensure!(ok, "a fresh process reads other fields", "{}\n as {}", cut(&format!("{:?}", v), 900), cut(&r, 900));
    Ok(())
}

fn draw(s: &mut Src, g: &G) -> F {
    let t = s.range(1, 4) as u8;
    let mut f = g.fields(s, t);
    if s.chance(1, 3) {
        // any subset
        for k in 0..7 {
            if s.flag() {
                match k {
                    0 => f.path = None,
                    1 => f.interface = None,
                    2 => f.member = None,
                    3 => f.error_name = None,
                    4 => f.reply_serial = None,
                    5 => f.destination = None,
                    _ => f.sender = None,
                }
            }
        }
    }
    f.unix_fds = if s.chance(1, 3) { Some(s.int(32) as u32) } else { None };
    F { f, sig: if s.flag() { Some(g.sig(s)) } else { None } }
}

fn run(cx: &mut Ctx) -> Res {
    let mut g = G::draw(&mut cx.src, false);
    tame(&mut g);
    g.big = g.big.min(300);
    let z = if cx.src.chance(1, 24) { Some(zygote(cx, &work)) } else { None };
    for _ in 0..cx.src.urange(2, 12) {
        let mut f = draw(&mut cx.src, &g);
        if sig_text(f.sig.as_deref().unwrap_or(&[])).len() > MAX_SIG {
            f.sig = None;
        }
        let f0 = f.clone();
        let mut x = cx.lib("making fields", || make(&f0))?.map_err(|e| class("valid fields cannot be made", e))?;
        for hop in 0..cx.src.urange(1, 6) {
            cx.now += 10 * MS;
            cx.ev("hop", &[hop as u64]);
            cx.mix_bytes(format!("{:?}", f).as_bytes());
            cx.note(|| format!("hop {}: {}", hop, cut(&format!("{:?}", f), 900)));
            if cx.src.chance(1, 4) {
                match by_header(cx, &g, &f, &x)? {
                    Some((a, b)) => {
                        f = a;
                        x = b;
                    }
                    None => {}
                }
            }
            let l = apart(cx, &f, x)?;
            let mut v = in_order(&f, &l);
            let v0 = v.clone();
            link(cx, &g, &mut v);
            let mut lv = if v == v0 {
                l
            } else {
                match cx.lib("making values", || values(&v))? {
                    Ok(l) => l,
                    Err(e) => fail!("a valid value cannot be made", "{} of {}", e, cut(&format!("{:?}", v), 600)),
                }
            };
            if cx.src.chance(1, 3) {
                if let Some(l) = by_message(cx, &v)? {
                    lv = l;
                }
            }
            if let Some(z) = &z {
                if cx.src.flag() {
                    restart(cx, z, &v)?;
                }
            }
            match join(cx, &v, lv)? {
                Some((a, b)) => {
                    f = a;
                    x = b;
                }
                None => break,
            }
            // the gateway changes something itself
            if cx.src.chance(1, 3) {
                cx.nontrivial();
                let n = draw(&mut cx.src, &g);
                let k = cx.src.idx(4);
                match k {
                    0 => f.f.sender = n.f.sender,
                    1 => f.f.destination = n.f.destination,
                    2 => f.f.reply_serial = n.f.reply_serial,
                    _ => f.sig = n.sig,
                }
                let f1 = f.clone();
                let y = cx.lib("making fields", || make(&f1))?.map_err(|e| class("valid fields cannot be made", e))?;
                match k {
                    0 => x.sender = y.sender.clone(),
                    1 => x.destination = y.destination.clone(),
                    2 => x.reply_serial = y.reply_serial,
                    _ => x.signature = y.signature.clone(),
                }
                let (e, d) = cx.lib("comparing fields", || (x == y, x.clone() == y))?;
                ensure!(e && d, "equal fields compare as different", "{:?}", f);
            }
        }
    }
    cx.sh.sim_ns = cx.now;
    Ok(())
}
