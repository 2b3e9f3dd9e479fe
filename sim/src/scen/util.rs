//! Steps that many simulated systems share.
use crate::bridge;
use crate::choice::Src;
use crate::{ensure, fail};
use crate::gen::G;
use crate::kernel::*;
use crate::model::*;
use crate::sys::Zygote;
use bytes::Bytes;
use dbus_message_parser::decode::DecodeError;
use dbus_message_parser::message::Message;

pub fn class(c: &str, m: String) -> Fail {
    Fail { class: c.to_string(), msg: m }
}

pub fn cut(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1
    }
    format!("{}...", &s[..e])
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(400) {
        s.push_str(&format!("{:02x}", x));
    }
    if b.len() > 400 {
        s.push_str(&format!("... ({} bytes)", b.len()));
    }
    s
}

/// The application on a real node builds a message from its parts.
pub fn build(cx: &mut Ctx, m: &MMsg) -> Res<Message> {
    cx.lib("building a message", || bridge::message(m))?
        .map_err(|e| class("a valid message cannot be built", e))
}

/// A real node puts a message it must be able to send into bytes.
pub fn enc(cx: &mut Ctx, msg: &Message) -> Res<(Vec<u8>, Vec<i32>)> {
    let r = cx.lib("encode", || {
        msg.encode_with_fds().map(|(b, f)| (b.to_vec(), f)).map_err(|e| format!("{:?}", e))
    })?;
    match r {
        Ok(x) => {
            cx.did("frames encoded by the real encoder", 1);
            Ok(x)
        }
        Err(e) => fail!("the encoder refuses a valid message", "{}", cut(&e, 400)),
    }
}

pub fn build_enc(cx: &mut Ctx, m: &MMsg) -> Res<(Vec<u8>, Vec<i32>)> {
    let msg = build(cx, m)?;
    enc(cx, &msg)
}

pub type Dec = Result<(Message, usize, usize), DecodeError>;

/// A receiver offers what it has; without descriptors it sometimes uses the plain entry point.
pub fn dec(cx: &mut Ctx, b: Bytes, fds: Option<&[i32]>) -> Res<Dec> {
    let r = cx.lib("decode", || match fds {
        None => Message::decode(b).map(|(m, o)| (m, o, 0)),
        Some(f) => Message::decode_with_fds(b, f),
    })?;
    cx.did("decode calls", 1);
    Ok(r)
}

pub fn same(cx: &mut Ctx, c: &str, m: &MMsg, x: &Message) -> Res {
    cx.lib("inspecting a message", || bridge::same_msg(m, x))?
        .map_err(|e| class(c, e))
}

/// Any order of the header fields.
pub fn order(s: &mut Src) -> Vec<u8> {
    let mut v: Vec<u8> = (1..=9).collect();
    match s.weighted(&[2, 3, 1]) {
        0 => {}
        1 => s.shuffle(&mut v),
        _ => v.reverse(),
    }
    v
}

pub fn opts(s: &mut Src) -> EncOpts {
    EncOpts { order: order(s), empty_sig: s.chance(1, 3), fds: None, spans: false, ..Default::default() }
}

/// A frame for a message, by the real encoder or the independent one.
pub fn frame(cx: &mut Ctx, m: &MMsg) -> Res<Vec<u8>> {
    if cx.src.flag() {
        let o = opts(&mut cx.src);
        cx.did("frames encoded by the reference encoder", 1);
        Ok(ref_encode(m, &o).bytes)
    } else {
        Ok(build_enc(cx, m)?.0)
    }
}

pub fn need(e: &DecodeError) -> Option<(usize, usize)> {
    match e {
        DecodeError::NotEnoughBytes(a, b) => Some((*a, *b)),
        _ => None,
    }
}

pub fn describe(m: &MMsg) -> String {
    cut(&format!("{:?}", m), 1500)
}

/// A view of `b` as receivers have them: a buffer of its own, or a slice out of a bigger one
/// (so that its address is not aligned and other bytes surround it).
pub fn view(s: &mut Src, b: &[u8]) -> Bytes {
    match s.idx(3) {
        0 => Bytes::copy_from_slice(b),
        1 => {
            let n = s.urange(1, 9);
            let mut v = vec![0xA5u8; n];
            v.extend_from_slice(b);
            v.extend_from_slice(&[0x6c, 1, 0, 1, 0, 0, 0]);
            Bytes::from(v).slice(n..n + b.len())
        }
        _ => {
            let mut m = bytes::BytesMut::with_capacity(b.len() + 64);
            m.extend_from_slice(b);
            m.freeze()
        }
    }
}

/// Replaces the string contents by something cheap so that runs with many frames stay quick.
pub fn tame(g: &mut G) {
    g.big = g.big.min(3000);
    g.nodes = g.nodes.min(30);
}

/// In some runs texts and arrays reach sizes beyond the usual ones.
pub fn rarely_big(s: &mut Src, g: &mut G, den: u64) {
    if s.chance(1, den) {
        g.big = *s.pick(&[300, 1100, 5000, 70_000]);
        g.nodes = *s.pick(&[g.nodes, 70, 300, 1000]);
    }
}

/// In very few runs, and only if the sources name sizes beyond the usual ones, those are reached too.
pub fn rarely_huge(s: &mut Src, g: &mut G) -> bool {
    if s.chance(1, 80) {
        g.huge = s.dict.nums.iter().filter(|n| **n > 3000 && **n <= 2_200_000).map(|n| *n as usize).collect();
        if !g.huge.is_empty() {
            g.nodes = g.nodes.min(12);
            g.body_max = g.body_max.min(2);
        }
    }
    !g.huge.is_empty()
}

/// See `sys::Zygote`.
pub fn zygote(cx: &mut Ctx, f: &dyn Fn(&[u8]) -> Vec<u8>) -> Zygote {
    let p = cx.sh.scratch.as_mut_ptr();
    let l = &mut cx.sh.scratch_len as *mut usize;
    let cap = cx.sh.scratch.len();
    Zygote::start(p, l, cap, f)
}

/// Runs the zygote's function on `req` in a process in which the library was never used.
pub fn fresh(cx: &mut Ctx, z: &Zygote, what: &str, req: &[u8]) -> Res<Vec<u8>> {
    if req.len() > cx.sh.scratch.len() {
        fail!("HARNESS", "request too long");
    }
    cx.sh.scratch[..req.len()].copy_from_slice(req);
    cx.sh.scratch_len = req.len();
    let r = z.call();
    cx.did("fresh processes", 1);
    let n = cx.sh.scratch_len;
    match r {
        0 if n <= cx.sh.scratch.len() => Ok(cx.sh.scratch[..n].to_vec()),
        0 => fail!("HARNESS", "response too long"),
        1 => {
            let m = String::from_utf8_lossy(&cx.sh.scratch[..n]).into_owned();
            fail!(format!("panic in a fresh process: {}", what), "{}: {}", what, m)
        }
        2 => fail!(format!("a fresh process died: {}", what), "{}", what),
        _ => fail!("HARNESS", "helper process gone"),
    }
}

/// A message made by one of the convenience constructors, and what it must contain.
pub fn ctor(cx: &mut Ctx, g: &G) -> Res<(Message, MMsg)> {
    let s = &mut cx.src;
    let (dst, path, iface, member) = (g.bus(s), g.path(s), g.interface(s), g.member(s));
    let prop = g.string(s);
    let kind = s.idx(5);
    let t = no_variant_or_fd(&g.ty(s, 2));
    let mut budget = 6;
    let val = g.value(s, &t, &mut budget, 1);
    let mut m = MMsg { le: true, typ: 1, flags: 0, version: 1, serial: 0, f: MFields::default(), body: Vec::new() };
    m.f.path = Some(path.clone());
    if kind == 1 {
        m.typ = 4;
        m.flags = 1;
        m.f.interface = Some(iface.clone());
        m.f.member = Some(member.clone());
    } else {
        m.f.destination = Some(dst.clone());
        if kind == 0 {
            m.f.interface = Some(iface.clone());
            m.f.member = Some(member.clone());
        } else {
            m.f.interface = Some("org.freedesktop.DBus.Properties".into());
            m.f.member = Some(["Get", "GetAll", "Set"][kind - 2].into());
            m.body.push(MV::Str(iface.clone()));
            if kind != 3 {
                m.body.push(MV::Str(prop.clone()));
            }
            if kind == 4 {
                m.body.push(MV::Var(Box::new(val.clone())));
            }
        }
    }
    let r = cx.lib("a message constructor", || -> Result<Message, String> {
        let (d, p, i, mb) = (bridge::bus(&dst)?, bridge::path(&path)?, bridge::interface(&iface)?, bridge::member(&member)?);
        Ok(match kind {
            0 => Message::method_call(d, p, i, mb),
            1 => Message::signal(p, i, mb),
            2 => Message::property_get(d, p, i, &prop),
            3 => Message::properties_get_all(d, p, i),
            _ => Message::property_set(d, p, i, &prop, bridge::value(&val)?),
        })
    })?;
    let x = r.map_err(|e| class("a valid message cannot be built", e))?;
    same(cx, "a constructor made another message", &m, &x)?;
    Ok((x, m))
}

pub fn no_variant_or_fd(t: &MT) -> MT {
    fn go(t: MT) -> MT {
        match t {
            MT::B(b'h') => MT::B(b'i'),
            MT::B(c) => MT::B(c),
            MT::Arr(t) => MT::Arr(Box::new(go(*t))),
            MT::Struct(v) => MT::Struct(v.into_iter().map(go).collect()),
            MT::Dict(b) => MT::Dict(Box::new((go(b.0), go(b.1)))),
        }
    }
    go(crate::gen::no_variant(t))
}

pub const E_TYPE: &str = "org.freedesktop.DBus.Error.MessageType";

/// What a service answers: the reference reply of the drawn kind (None: this kind of reply does
/// not exist for that message).
#[derive(Clone, Debug)]
pub enum Rep {
    Return,
    Error(String, String),
    InvalidArgs(String),
    Property(String),
    Path,
    Interface,
    Member,
}
pub fn rep(s: &mut Src, g: &G) -> Rep {
    match s.weighted(&[6, 2, 1, 1, 1, 1, 1]) {
        0 => Rep::Return,
        1 => Rep::Error(g.interface(s), g.string(s)),
        2 => Rep::InvalidArgs(g.string(s)),
        3 => Rep::Property(g.string(s)),
        4 => Rep::Path,
        5 => Rep::Interface,
        _ => Rep::Member,
    }
}
pub fn rep_model(m: &MMsg, r: &Rep) -> Option<MMsg> {
    let e = |n: &str, t: String| Some(ref_reply(m, Some((&format!("org.freedesktop.DBus.Error.{}", n), &t))));
    match r {
        Rep::Return if m.typ == 1 => Some(ref_reply(m, None)),
        Rep::Return => Some(ref_reply(m, Some((E_TYPE, "Message is not a method call")))),
        Rep::Error(n, t) => Some(ref_reply(m, Some((n, t)))),
        Rep::InvalidArgs(t) => e("InvalidArgs", t.clone()),
        Rep::Property(t) => e("UnknownProperty", format!("does not have a property {}", t)),
        Rep::Path => e("UnknownPath", format!("does not have a path {}", m.f.path.as_ref()?)),
        Rep::Interface => e("UnknownInterface", format!("does not have an interface {}", m.f.interface.as_ref()?)),
        Rep::Member => e("UnknownMember", format!("does not have a member {}", m.f.member.as_ref()?)),
    }
}
/// The real node makes the same reply; whether it reported it as a normal answer.
pub fn rep_real(cx: &mut Ctx, x: &Message, r: &Rep) -> Res<Option<Message>> {
    let y = cx.lib("making a reply", || -> Result<Option<Message>, String> {
        Ok(match r {
            Rep::Return => match x.method_return() {
                Ok(m) => {
                    if x.get_type() as u8 != 1 {
                        return Err("method_return of something that is not a call".into());
                    }
                    Some(m)
                }
                Err(m) => {
                    if x.get_type() as u8 == 1 {
                        return Err("no method_return for a call".into());
                    }
                    Some(m)
                }
            },
            Rep::Error(n, t) => Some(x.error(bridge::error(n)?, t.clone())),
            Rep::InvalidArgs(t) => Some(x.invalid_args(t.clone())),
            Rep::Property(t) => Some(x.unknown_property(t)),
            Rep::Path => x.unknown_path(),
            Rep::Interface => x.unknown_interface(),
            Rep::Member => x.unknown_member(),
        })
    })?;
    cx.did("replies made", 1);
    y.map_err(|e| class("a wrong kind of reply", e))
}
/// Reply by the real node, judged against the reference; the answered message must not change.
pub fn reply(cx: &mut Ctx, x: &Message, m: &MMsg, r: &Rep) -> Res<Option<(Message, MMsg)>> {
    let want = rep_model(m, r);
    let got = rep_real(cx, x, r)?;
    same(cx, "making a reply changed the received message", m, x)?;
    match (want, got) {
        (None, None) => Ok(None),
        (Some(w), Some(y)) => {
            same(cx, "a reply differs from what answers its call", &w, &y)?;
            Ok(Some((y, w)))
        }
        (w, g) => fail!("a reply is missing or made from nothing", "{:?}: expected {} got {}", r, w.is_some(), g.is_some()),
    }
}

/// A frame of the real encoder must be exactly what the specification says.
pub fn strict(cx: &mut Ctx, b: &[u8], fds: &[i32], m: &MMsg) -> Res {
    let r = match ref_decode(b, Some(fds)) {
        RefOut::Ok(r) => r,
        o => fail!("a foreign peer cannot read a frame of this library", "{} for {}\n frame {}", cut(&format!("{:?}", o), 200), describe(m), hex(b)),
    };
    cx.did("frames read by the reference decoder", 1);
    ensure!(r.used == b.len(), "a frame has other bytes behind it", "{} of {}", r.used, b.len());
    ensure!(r.m == *m, "a foreign peer reads another message", "expected {}\n got {}", describe(m), describe(&r.m));
    let f = ref_encode(&r.m, &EncOpts { order: r.order.clone(), empty_sig: r.empty_sig, fds: Some(fds.to_vec()), spans: false, ..Default::default() });
    ensure!(f.bytes == b, "a frame is not laid out as specified", "expected {}\n got {}", hex(&f.bytes), hex(b));
    Ok(())
}

/// The reply itself, without the simulator around it.
pub fn rep_model_kind(x: &Message, r: &Rep) -> Result<Option<Message>, String> {
    Ok(match r {
        Rep::Return => match x.method_return() {
            Ok(m) => Some(m),
            Err(m) => Some(m),
        },
        Rep::Error(n, t) => Some(x.error(bridge::error(n)?, t.clone())),
        Rep::InvalidArgs(t) => Some(x.invalid_args(t.clone())),
        Rep::Property(t) => Some(x.unknown_property(t)),
        Rep::Path => x.unknown_path(),
        Rep::Interface => x.unknown_interface(),
        Rep::Member => x.unknown_member(),
    })
}

/// One of the constructors, chosen by the serial, from the parts of a model message.
pub fn ctor_model(m: &MMsg) -> Result<Message, String> {
    let d = bridge::bus(m.f.destination.as_ref().ok_or("no destination")?)?;
    let p = bridge::path(m.f.path.as_ref().ok_or("no path")?)?;
    let i = bridge::interface(m.f.interface.as_ref().ok_or("no interface")?)?;
    let mb = bridge::member(m.f.member.as_ref().ok_or("no member")?)?;
    Ok(match m.serial % 5 {
        0 => Message::method_call(d, p, i, mb),
        1 => Message::signal(p, i, mb),
        2 => Message::property_get(d, p, i, "Prop"),
        3 => Message::properties_get_all(d, p, i),
        _ => Message::property_set(d, p, i, "Prop", bridge::value(m.body.first().unwrap_or(&MV::Byte(1)))?),
    })
}

/// A frame at or next to a size limit, by a foreign sender.
pub fn limits(cx: &mut Ctx) -> Res {
    cx.probe("frame at a size limit");
    cx.nontrivial();
    let le = cx.src.flag();
    let mut m = MMsg {
        le,
        typ: 2,
        flags: 1,
        version: 1,
        serial: 7,
        f: MFields { reply_serial: Some(1), ..Default::default() },
        body: Vec::new(),
    };
    let (over, legal);
    if cx.src.chance(2, 3) {
        // an array of 64 MiB, less or more; of large texts, so that it is cheap
        over = cx.src.urange(0, 24);
        let kind = cx.src.idx(8);
        let place = cx.src.idx(4);
        let el = |n: usize| {
            let t = MV::Str("x".repeat(n));
            match kind {
                1 => MV::Struct(vec![t]),
                2 => MV::Var(Box::new(t)),
                3 => MV::Arr(MT::B(b's'), vec![t]),
                4 => MV::Dict(Box::new((MV::Byte(1), t))),
                5 => MV::Struct(vec![MV::U16(2), t]),
                6 => MV::Path(format!("/{}", "x".repeat(n))),
                7 => MV::Dict(Box::new((MV::U64(1), MV::Var(Box::new(t))))),
                _ => t,
            }
        };
        let arr = |n: usize| {
            let e = el(3);
            MV::Arr(e.ty(), vec![e, el(n)])
        };
        let put = |v: MV| match place {
            0 => vec![v],
            1 => vec![MV::Byte(1), v],
            2 => vec![MV::Var(Box::new(v))],
            _ => vec![MV::Struct(vec![MV::U32(1), v])],
        };
        // the last text ends the array, so its length counts byte by byte
        m.body = put(arr(8));
        let f = ref_encode(&m, &EncOpts { spans: true, ..Default::default() });
        let p = f.spans.iter().find(|p| p.k == K::ArrLen).unwrap().at;
        let a = [f.bytes[p], f.bytes[p + 1], f.bytes[p + 2], f.bytes[p + 3]];
        let l = if le { u32::from_le_bytes(a) } else { u32::from_be_bytes(a) } as usize;
        // or around where a length begins to need its highest byte
        let wide = cx.src.chance(1, 3);
        let want = if wide { (1 << 24) - 4 + over } else { MAX_ARRAY - 4 + over };
        m.body = put(arr(8 + want - l));
        legal = want <= MAX_ARRAY;
        cx.ev("limit", &[kind as u64, place as u64, want as u64, legal as u64]);
    } else {
        over = cx.src.idx(3);
        m.body = vec![MV::Str(String::new()), MV::Str(String::new())];
        let l = ref_encode(&m, &EncOpts::default()).bytes.len();
        m.body[1] = MV::Str("b".repeat(MAX_MSG - l - 1 + over));
        legal = over <= 1;
        cx.ev("limit", &[99, 0, over as u64, legal as u64]);
    }
    let f = ref_encode(&m, &EncOpts::default()).bytes;
    let n = f.len();
    if n < (1 << 24) + 4096 {
        let same = cx.lib_raw("encode", || bridge::message(&m).map(|x| x.encode().map(|b| b[..] == f[..])))?;
        match same {
            Ok(Ok(eq)) => ensure!(eq, "a large message is encoded as something else", "{} bytes, {}", n, m.sig()),
            Ok(Err(e)) => crate::fail!("the encoder refuses a valid message", "{} bytes, {}", n, cut(&format!("{:?}", e), 200)),
            Err(e) => return Err(class("a valid message cannot be built", e)),
        }
    }
    match cx.lib_raw("decode", || dbus_message_parser::message::Message::decode(Bytes::from(f)))? {
        Ok((x, used)) => {
            ensure!(legal, "a frame beyond the limits is accepted", "{} bytes", n);
            ensure!(used == n, "a reported length is wrong", "{} of {}", used, n);
            cx.lib_raw("inspecting a message", || bridge::same_msg(&m, &x))?.map_err(|e| class("a message arrived as another one", e))?;
        }
        Err(e) => ensure!(!legal, "a valid frame is refused", "{} bytes, {}", n, cut(&format!("{:?}", e), 200)),
    }
    Ok(())
}
