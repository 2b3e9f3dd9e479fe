//! C13: an application composes messages at and beyond every limit, also from parts of other
//! messages; what its encoder lets out, receivers take.
use super::damage;
use super::util::*;
use super::Prop;
use crate::bridge;
use crate::choice::Src;
use crate::ensure;
use crate::gen::G;
use dbus_message_parser::decode::DecodeError;
use std::sync::atomic::Ordering;
use crate::kernel::*;
use crate::model::*;
use bytes::Bytes;
use dbus_message_parser::message::{Message, MessageFlags, MessageHeader};

pub const PROP: Prop = Prop {
    id: "C13",
    run,
    quick: 22000,
    factor: 24,
    rule: "a sender composes 4-16 messages: ordinary ones, ones with ill-formed names and paths, missing fields or ill-fitting array elements, ones whose nesting, signature length, signature values, element types or variant contents lie around the limits (also spread over value and type level and over several values), header fields and headers taken over from other messages (decoded, split or built, with stale body signatures of any kind), in any order with ordinary ones; one run in 600 works around the 64 MiB array and 128 MiB frame limits. What is encoded must be the reference layout, be accepted by this library's receiver and be the same message; what is refused must break a limit and leave the message and later encodings as they were. Non-trivial: something was refused, lay exactly at a limit, or reused a header.",
    real: "Message::{new,split,encode,encode_with_fds,decode}, MessageHeader::new, Array::new, Struct::try_from",
    stub: "application, link, reference encoder, reference decoder, reference limits",
    known: None,
};

/// Why a message is beyond the limits.
fn within(m: &MMsg) -> Result<(), &'static str> {
    let f = &m.f;
    let fits = |x: &Option<String>, ok: fn(&str) -> bool| x.as_deref().map_or(true, ok);
    if !(fits(&f.path, ok_path) && fits(&f.interface, ok_interface) && fits(&f.member, ok_member) && fits(&f.error_name, ok_error)) {
        return Err("an ill-formed name in the header");
    }
    if !(fits(&f.destination, ok_bus) && fits(&f.sender, ok_bus)) {
        return Err("an ill-formed bus name");
    }
    let missing = match m.typ {
        1 => f.path.is_none() || f.member.is_none(),
        2 => f.reply_serial.is_none(),
        3 => f.reply_serial.is_none() || f.error_name.is_none(),
        _ => f.path.is_none() || f.interface.is_none() || f.member.is_none(),
    };
    if missing {
        return Err("a mandatory header field is missing");
    }
    for v in &m.body {
        ty_ok(&v.ty())?;
        inner(v)?;
    }
    if m.sig().len() > MAX_SIG {
        return Err("body signature too long");
    }
    Ok(())
}
fn ty_ok(t: &MT) -> Result<(), &'static str> {
    let (a, p, d, ok) = t.depth();
    if !ok {
        Err("a type that cannot be written")
    } else if a > 32 {
        Err("array nesting")
    } else if p > 32 {
        Err("struct nesting")
    } else if d > 32 {
        Err("dict nesting")
    } else {
        Ok(())
    }
}
fn inner(v: &MV) -> Result<(), &'static str> {
    match v {
        MV::Arr(t, v) => {
            if v.iter().any(|v| v.ty() != *t) {
                return Err("an array of values of other types");
            }
            v.iter().try_for_each(inner)
        }
        MV::Struct(v) => {
            if v.is_empty() {
                return Err("an empty struct");
            }
            v.iter().try_for_each(inner)
        }
        MV::Dict(b) => {
            inner(&b.0)?;
            inner(&b.1)
        }
        MV::Var(b) => {
            let t = b.ty();
            ty_ok(&t)?;
            if t.text().len() > MAX_SIG {
                return Err("variant signature too long");
            }
            inner(b)
        }
        MV::Path(p) if !ok_path(p) => Err("an ill-formed path"),
        MV::Sig(ts) => {
            for t in ts {
                ty_ok(t)?;
            }
            if sig_text(ts).len() > MAX_SIG {
                return Err("signature value too long");
            }
            Ok(())
        }
        _ => Ok(()),
    }
}

fn near(s: &mut Src, n: usize) -> usize {
    match s.weighted(&[3, 3, 2, 1, 1]) {
        0 => n,
        1 => n + 1,
        2 => n - 1,
        3 => n + s.urange(2, 40),
        _ => s.urange(1, n),
    }
}

/// A type around a limit.
fn ty(s: &mut Src, g: &G) -> MT {
    let base = if s.chance(1, 6) { g.ty(s, 1) } else { MT::B(g.basic(s)) };
    match s.weighted(&[3, 3, 3, 3, 2, 2, 2, 2]) {
        0 => {
            let n = near(s, 32);
            (0..n).fold(base, |t, _| MT::Arr(Box::new(t)))
        }
        1 => {
            let n = near(s, 32);
            let wide = s.chance(1, 4);
            (0..n).fold(base, |t, _| MT::Struct(if wide { vec![MT::B(b'y'), t] } else { vec![t] }))
        }
        2 => {
            let n = near(s, 32);
            (0..n).fold(base, |t, _| MT::Arr(Box::new(MT::Dict(Box::new((MT::B(b'y'), t))))))
        }
        3 => {
            // a struct whose text has about 255 characters
            let n = near(s, 253);
            MT::Struct((0..n).map(|_| MT::B(g.basic(s))).collect())
        }
        4 => {
            // arrays of structs of arrays ...
            let n = near(s, 32);
            (0..n).fold(base, |t, _| MT::Struct(vec![MT::Arr(Box::new(t))]))
        }
        6 => {
            // dict entries straight within dict entries, which the library lets pass
            let n = near(s, 32);
            let way = s.idx(4);
            (0..n).fold(base, |t, _| {
                let d = match way {
                    0 => (MT::B(b'y'), t),
                    1 => (t, MT::B(b'y')),
                    _ if s.flag() => (MT::B(b'y'), t),
                    _ => (t, MT::B(b'y')),
                };
                let d = MT::Dict(Box::new(d));
                if way == 3 && s.chance(1, 8) { MT::Struct(vec![d]) } else { d }
            })
        }
        7 => {
            // the deep part not at the front
            let n = near(s, 32);
            let k = s.idx(3);
            let t = (0..n).fold(base, |t, _| match k {
                0 => MT::Arr(Box::new(t)),
                1 => MT::Struct(vec![MT::B(b'y'), t]),
                _ => MT::Arr(Box::new(MT::Dict(Box::new((MT::B(b's'), t))))),
            });
            MT::Struct(vec![MT::B(b'y'), MT::Arr(Box::new(MT::B(b'y'))), MT::Struct(vec![MT::B(b's')]), t])
        }
        _ => {
            // an empty struct somewhere
            let e = MT::Struct(Vec::new());
            match s.idx(5) {
                0 => MT::Arr(Box::new(e)),
                1 => MT::Struct(vec![MT::B(b'y'), e]),
                2 => MT::Arr(Box::new(MT::Dict(Box::new((MT::B(b's'), e))))),
                3 => MT::Arr(Box::new(MT::Struct(vec![base, MT::Arr(Box::new(e))]))),
                _ => e,
            }
        }
    }
}

/// A value of the type; empty arrays where it gets deep.
fn val(s: &mut Src, g: &G, t: &MT, full: bool) -> MV {
    match t {
        MT::Arr(e) => {
            let (_, _, _, ok) = e.depth();
            let v = if full && ok && s.chance(9, 10) { vec![val(s, g, e, full)] } else { Vec::new() };
            MV::Arr((**e).clone(), v)
        }
        MT::Struct(v) => MV::Struct(v.iter().map(|t| val(s, g, t, full)).collect()),
        MT::Dict(b) => MV::Dict(Box::new((val(s, g, &b.0, full), val(s, g, &b.1, full)))),
        t => {
            let mut b = 2;
            g.value(s, t, &mut b, 1)
        }
    }
}

fn writable(t: &MT) -> bool {
    t.depth().3
}

fn limit_value(s: &mut Src, g: &G) -> MV {
    let t = ty(s, g);
    let full = s.flag();
    match s.weighted(&[4, 2, 2, 2, 2]) {
        0 if writable(&t) => val(s, g, &t, full),
        1 => {
            // as a variant, possibly within another and within containers
            let t = if writable(&t) { t } else { MT::Arr(Box::new(t)) };
            let mut v = MV::Var(Box::new(val(s, g, &t, full)));
            if s.flag() {
                v = MV::Var(Box::new(v));
            }
            match s.idx(3) {
                0 => v,
                1 => MV::Struct(vec![MV::Byte(1), v]),
                _ => MV::Arr(MT::B(b'v'), vec![v]),
            }
        }
        2 => {
            let mut ts = vec![t];
            if s.flag() {
                let n = near(s, 255usize.saturating_sub(ts[0].text().len()).max(2));
                ts.extend((0..n).map(|_| MT::B(g.basic(s))));
            }
            let v = MV::Sig(ts);
            if s.chance(1, 3) {
                MV::Var(Box::new(v))
            } else {
                v
            }
        }
        3 => {
            // structs at value level around an array whose element type goes deeper
            let mut v = MV::Arr(t, Vec::new());
            let n = *s.pick(&[1usize, 2, 16, 31, 32, 33]);
            for _ in 0..n {
                v = MV::Struct(vec![v]);
            }
            v
        }
        _ => MV::Arr(t, Vec::new()),
    }
}

/// A container put together from parts that do not fit.
fn misfit(s: &mut Src, g: &G) -> MV {
    let mut some = |s: &mut Src| {
        let t = g.ty(s, 2);
        let mut b = 4;
        g.value(s, &t, &mut b, 1)
    };
    let mut v = match s.idx(6) {
        0 => MV::Struct(Vec::new()),
        1 => {
            // one element among fitting ones
            let x = some(s);
            let (x, n) = if s.chance(1, 6) {
                // far behind
                let (y, n) = ([MV::Byte(1), MV::U32(7), MV::Bool(true)][s.idx(3)].clone(), match s.idx(3) {
                    0 => s.size(300, 60_000),
                    1 => s.urange(5, 300),
                    _ => s.urange(300, 60_000),
                });
                (y, n)
            } else {
                (x, s.urange(1, 4))
            };
            let mut l = vec![x.clone(); n];
            let y = some(s);
            let at = if s.flag() { l.len() } else { s.idx(l.len() + 1) };
            l.insert(at, y);
            MV::Arr(x.ty(), l)
        }
        2 => {
            // elements alike, but not of the type named
            let x = some(s);
            let t = g.ty(s, 1);
            MV::Arr(t, vec![x; s.urange(1, 3)])
        }
        3 => {
            // the difference lies deep
            let x = MV::Arr(MT::B(b's'), vec![]);
            let y = MV::Arr(MT::B(b'o'), vec![]);
            let (x, y) = if s.flag() { (MV::Struct(vec![MV::Byte(1), x]), MV::Struct(vec![MV::Byte(1), y])) } else { (x, y) };
            MV::Arr(x.ty(), vec![x, y])
        }
        4 => {
            let x = MV::Struct(vec![MV::U32(1), MV::U32(2)]);
            let y = if s.flag() { MV::Struct(vec![MV::U32(1)]) } else { MV::Struct(vec![MV::U32(1), MV::U32(2), MV::U32(3)]) };
            MV::Arr(x.ty(), vec![x, y])
        }
        _ => {
            let d = |k: MV, v: MV| MV::Dict(Box::new((k, v)));
            let x = d(MV::Byte(1), MV::Str("a".into()));
            let y = if s.flag() { d(MV::Byte(1), MV::Byte(2)) } else { d(MV::I16(1), MV::Str("a".into())) };
            MV::Arr(x.ty(), vec![x, y])
        }
    };
    match s.idx(4) {
        0 => v = MV::Var(Box::new(v)),
        1 => v = MV::Struct(vec![MV::Byte(1), v]),
        2 => v = MV::Arr(v.ty(), vec![v]),
        _ => {}
    }
    v
}

fn compose(cx: &mut Ctx, g: &G) -> MMsg {
    let s = &mut cx.src;
    let mut m = g.msg(s);
    match s.weighted(&[2, 6, 2, 1]) {
        0 => {}
        1 => {
            let v = limit_value(s, g);
            let at = s.idx(m.body.len() + 1);
            m.body.insert(at, v);
        }
        2 => {
            // the sum of the signatures around 255
            let n = near(s, 255);
            while m.sig().len() < n {
                let left = n - m.sig().len();
                let v = if left > 20 && s.chance(1, 4) { limit_value(s, g) } else { let mut b = 1; let t = MT::B(g.basic(s)); g.value(s, &t, &mut b, 1) };
                if m.sig().len() + v.ty().text().len() > n {
                    m.body.push(MV::Byte(0));
                } else {
                    m.body.push(v);
                }
            }
        }
        _ => m.body.clear(),
    }
    // text the application took from elsewhere
    match s.weighted(&[14, 1, 1, 1, 1]) {
        0 => {}
        3 => {
            let f = &mut m.f;
            match s.idx(5) {
                0 => f.path = None,
                1 => f.interface = None,
                2 => f.member = None,
                3 => f.error_name = None,
                _ => f.reply_serial = None,
            }
        }
        4 => {
            let v = misfit(s, g);
            let at = s.idx(m.body.len() + 1);
            m.body.insert(at, v);
        }
        1 => {
            damage::spoil_header(s, &mut m);
        }
        _ => {
            damage::spoil_body(s, &mut m);
        }
    }
    if s.chance(1, 14) {
        // variants within variants, also more than this library reads
        let mut v = if m.body.is_empty() { MV::Byte(5) } else { m.body.pop().unwrap() };
        let n = *s.pick(&[2usize, 3, 4, 5, 6, 9, 17, 33]);
        let way = s.idx(3);
        for k in 0..n {
            v = MV::Var(Box::new(v));
            if way == 1 && k % 2 == 0 || way == 2 && k + 1 == n {
                v = MV::Struct(vec![v]);
            }
        }
        m.body.push(v);
    }
    m
}

/// How deep variants are nested.
fn deep(m: &MMsg) -> usize {
    fn v(x: &MV) -> usize {
        match x {
            MV::Arr(_, y) | MV::Struct(y) => y.iter().map(v).max().unwrap_or(0),
            MV::Dict(b) => v(&b.0).max(v(&b.1)),
            MV::Var(b) => 1 + v(b),
            _ => 0,
        }
    }
    m.body.iter().map(v).max().unwrap_or(0)
}

/// The real message: from scratch, or with the header of another one.
fn make(cx: &mut Ctx, g: &G, m: &MMsg, old: Option<&(MMsg, Vec<u8>)>) -> Res<Result<(Message, MMsg), String>> {
    let kind = cx.src.weighted(&[3, 3, 3]);
    if kind == 0 || (kind == 2 && old.is_none()) {
        let m = m.clone();
        return cx.lib("building a message", || bridge::message(&m).map(|x| (x, m)));
    }
    cx.nontrivial();
    if kind == 1 {
        cx.probe("header fields with a stale signature");
        let stale: Vec<MT> = if cx.src.flag() { vec![ty(&mut cx.src, g)] } else { g.sig(&mut cx.src) };
        let m = m.clone();
        return cx.lib("building a message", || {
            let mut f = bridge::fields(&m.f)?;
            f.signature = Some(stale.iter().map(bridge::ty).collect());
            let h = MessageHeader::new(m.le, bridge::mtype(m.typ)?, MessageFlags::from_bits(m.flags).ok_or("flags")?, m.version, m.serial, f)
                .map_err(|e| format!("the header constructor refused a complete header: {:?}", e))?;
            let mut b = Vec::new();
            for v in &m.body {
                b.push(bridge::value(v)?);
            }
            Ok((Message::new(h, b), m))
        });
    }
    let (om, frame) = old.unwrap();
    let mut n = om.clone();
    n.body = m.body.clone();
    let how = cx.src.idx(2);
    cx.probe("header of another message");
    let src = if how == 0 {
        match dec(cx, Bytes::from(frame.clone()), None)? {
            Ok((x, _, _)) => x,
            Err(e) => crate::fail!("a frame of this library is refused by its receiver", "{}", cut(&format!("{:?}", e), 300)),
        }
    } else {
        build(cx, om)?
    };
    cx.lib("Message::split", || {
        let (h, _) = src.split().map_err(|e| format!("split: {:?}", e))?;
        let mut b = Vec::new();
        for v in &n.body {
            b.push(bridge::value(v)?);
        }
        Ok((Message::new(h, b), n))
    })
}

fn run(cx: &mut Ctx) -> Res {
    if cx.src.chance(1, 600) {
        return huge(cx);
    }
    let mut g = G::draw(&mut cx.src, false);
    tame(&mut g);
    g.nodes = g.nodes.min(14);
    g.big = g.big.min(100);
    rarely_big(&mut cx.src, &mut g, 40);
    g.body_max = g.body_max.min(4);
    rarely_huge(&mut cx.src, &mut g);
    let healthy = g.msg(&mut cx.src);
    let hx = build(cx, &healthy)?;
    let (hb, _) = enc(cx, &hx)?;
    let n = cx.src.urange(4, 16);
    let mut old: Option<(MMsg, Vec<u8>)> = None;
    for _ in 0..n {
        cx.now += MS;
        let m = compose(cx, &g);
        cx.note(|| describe(&m));
        let made = make(cx, &g, &m, old.as_ref())?;
        let lim = within(&m);
        let (x, m) = match made {
            Ok(x) => x,
            Err(e) => {
                ensure!(lim.is_err() || odd(&m), "a valid message cannot be built", "{} for {}", e, describe(&m));
                cx.fault("a composition refused by a constructor");
                continue;
            }
        };
        let lim = within(&m);
        let before = format!("{:?}", x);
        let r = cx.lib("encode", || x.encode_with_fds().map(|(b, f)| (b.to_vec(), f)).map_err(|e| format!("{:?}", e)))?;
        let after = format!("{:?}", x);
        ensure!(before == after, "encoding changes the message", "{}\n became {}", cut(&before, 600), cut(&after, 600));
        match (r, lim) {
            (Ok((b, fds)), Ok(())) => {
                cx.did("frames encoded by the real encoder", 1);
                cx.ev("sent", &[b.len() as u64]);
                cx.mix_bytes(&b);
                if deep(&m) > MAX_VARIANT {
                    // this library need not read it back, but any other peer must be able to
                    cx.probe("variants nested more than 4 deep sent");
                    match dec(cx, Bytes::copy_from_slice(&b), Some(&fds))? {
                        Ok((y, _, _)) => same(cx, "a receiver reads another message", &m, &y)?,
                        Err(DecodeError::VariantDepth(_)) => {}
                        Err(e) => crate::fail!("a frame of this library is refused by its receiver", "{:?}\n {}\n frame {}", e, describe(&m), hex(&b)),
                    }
                    if !odd(&m) {
                        VARIANTS.store(usize::MAX, Ordering::Relaxed);
                        let r = strict(cx, &b, &fds, &m);
                        VARIANTS.store(MAX_VARIANT, Ordering::Relaxed);
                        r?;
                    }
                    continue;
                }
                receive(cx, &b, &fds, &m)?;
                probe(cx, &m);
                old = Some((m, b));
            }
            (Err(_), Ok(())) if deep(&m) > MAX_VARIANT => cx.probe("variants nested more than 4 deep refused"),
            (Err(_), Ok(())) if odd(&m) => cx.probe("a misplaced dict entry was refused"),
            (Err(e), Ok(())) => crate::fail!("the encoder refuses a message within the limits", "{} for {}", cut(&e, 300), describe(&m)),
            (Ok((b, _)), Err(why)) => {
                let o = dec(cx, Bytes::from(b.clone()), None)?;
                crate::fail!(format!("the encoder lets out a message beyond the limits: {}", why), "{}\n frame {}\n its receiver says {}", describe(&m), hex(&b), cut(&format!("{:?}", o.map(|_| "accepted")), 200));
            }
            (Err(e), Err(why)) => {
                cx.fault("a message beyond a limit");
                cx.ev("refused", &[why.len() as u64]);
                let e2 = cx.lib("encode", || x.encode().map(|b| b.len()).map_err(|e| format!("{:?}", e)))?;
                ensure!(e2 == Err(e.clone()), "a second attempt ends otherwise", "{} then {:?}", e, e2);
                let (b, _) = enc(cx, &hx)?;
                ensure!(b == hb, "an encoding after a refusal differs", "{}\n before {}", hex(&b), hex(&hb));
            }
        }
    }
    let (b, _) = enc(cx, &hx)?;
    ensure!(b == hb, "a later encoding of the same message differs", "{}\n before {}", hex(&b), hex(&hb));
    receive(cx, &b, &[], &healthy)?;
    cx.sh.sim_ns = cx.now;
    Ok(())
}

fn receive(cx: &mut Ctx, b: &[u8], fds: &[i32], m: &MMsg) -> Res {
    match dec(cx, Bytes::copy_from_slice(b), Some(fds))? {
        Ok((y, used, _)) => {
            ensure!(used == b.len(), "a frame has other bytes behind it", "{} of {}", used, b.len());
            same(cx, "a receiver reads another message", m, &y)?;
        }
        Err(e) => crate::fail!("a frame of this library is refused by its receiver", "{:?}\n {}\n frame {}", e, describe(m), hex(b)),
    }
    if odd(m) {
        return Ok(());
    }
    strict(cx, b, fds, m)
}

/// Whether a dict entry stands outside an array or has a container as key: the specification
/// forbids these, this library may let them pass.
fn odd(m: &MMsg) -> bool {
    fn v(x: &MV) -> bool {
        match x {
            MV::Arr(_, y) | MV::Struct(y) => y.iter().any(v),
            MV::Dict(b) => v(&b.0) || v(&b.1),
            MV::Var(b) => !strict_type(&b.ty(), false) || v(b),
            MV::Sig(ts) => !ts.iter().all(|t| strict_type(t, false)),
            _ => false,
        }
    }
    m.body.iter().any(|x| !strict_type(&x.ty(), false) || v(x))
}

fn probe(cx: &mut Ctx, m: &MMsg) {
    if m.sig().len() == MAX_SIG {
        cx.probe("body signature of 255 characters");
        cx.nontrivial();
    }
    for v in &m.body {
        let d = v.ty().depth();
        if d.0 == 32 || d.1 == 32 || d.2 == 32 {
            cx.probe("nesting of exactly 32");
            cx.nontrivial();
        }
    }
}

const ARR: usize = 64 << 20;
const MSG: usize = 128 << 20;

/// Around the limits that need much data.
fn huge(cx: &mut Ctx) -> Res {
    let kind = cx.src.idx(8);
    let off = *cx.src.pick(&[0usize, 1, 2, 3, 4, 5]);
    let big = |n: usize| "h".repeat(n);
    let mut m = MMsg { le: !cx.src.flag(), typ: 4, flags: 1, version: 1, serial: 7, f: MFields::default(), body: Vec::new() };
    m.f.path = Some("/a".into());
    m.f.interface = Some("a.b".into());
    m.f.member = Some("c".into());
    // an array whose content has exactly ARR - 2 + off bytes
    let want = ARR - 2 + off;
    match kind {
        0 => m.body.push(MV::Arr(MT::B(b's'), vec![MV::Str(big(want - 5))])),
        1 => m.body.push(MV::Arr(MT::Arr(Box::new(MT::B(b's'))), vec![MV::Arr(MT::B(b's'), vec![MV::Str(big(want - 9))])])),
        2 => {
            m.body.push(MV::Byte(1));
            let st = MT::Struct(vec![MT::B(b's')]);
            m.body.push(MV::Arr(st, vec![MV::Struct(vec![MV::Str(big(want - 5))])]));
        }
        3 => {
            let d = MT::Dict(Box::new((MT::B(b'y'), MT::B(b's'))));
            m.body.push(MV::Arr(d, vec![MV::Dict(Box::new((MV::Byte(1), MV::Str(big(want - 9)))))]));
        }
        4 => m.body.push(MV::Var(Box::new(MV::Arr(MT::B(b's'), vec![MV::Str(big(want - 5))])))),
        5 => {
            // the header array
            let base = ref_encode(&m, &EncOpts { order: (1..=9).collect(), empty_sig: false, fds: None, spans: false, ..Default::default() });
            let b = &base.bytes;
            let h = [b[12], b[13], b[14], b[15]];
            let h = if m.le { u32::from_le_bytes(h) } else { u32::from_be_bytes(h) } as usize;
            // the path's struct is padded to 8 at its end unless it comes last
            m.f.path = Some(format!("/{}", "p".repeat(ARR - (h & !7) - 16 + off * 8)));
        }
        _ => {
            // the frame: MSG - 2 + off bytes
            m.body.push(MV::Str(String::new()));
            let base = ref_encode(&m, &EncOpts { order: (1..=9).collect(), empty_sig: false, fds: None, spans: false, ..Default::default() }).bytes.len();
            let n = MSG - 2 + off - base;
            if kind == 6 {
                m.body = vec![MV::Str(big(n))];
            } else {
                // two strings
                m.body = vec![MV::Str(big(ARR + 3)), MV::Str(String::new())];
                let b2 = ref_encode(&m, &EncOpts { order: (1..=9).collect(), empty_sig: false, fds: None, spans: false, ..Default::default() }).bytes.len();
                m.body[1] = MV::Str(big(MSG - 2 + off - b2));
            }
        }
    }
    let r = ref_encode(&m, &EncOpts { order: (1..=9).collect(), empty_sig: false, fds: None, spans: false, ..Default::default() });
    let lens = |i: usize| {
        let b = [r.bytes[i], r.bytes[i + 1], r.bytes[i + 2], r.bytes[i + 3]];
        if m.le { u32::from_le_bytes(b) as usize } else { u32::from_be_bytes(b) as usize }
    };
    let over_arr = kind <= 4 && want > ARR;
    let over_head = lens(12) > ARR;
    let over_msg = r.bytes.len() > MSG;
    let ok = !(over_arr || over_head || over_msg);
    cx.note(|| format!("kind {} offset {}: header array {}, frame {}", kind, off, lens(12), r.bytes.len()));
    cx.ev("huge", &[kind as u64, off as u64, ok as u64]);
    cx.nontrivial();
    let x = cx.lib_raw("building a message", || bridge::message(&m))?.map_err(|e| class("a valid message cannot be built", cut(&e, 300)))?;
    let e = cx.lib_raw("encode", || x.encode().map_err(|e| format!("{:?}", e)))?;
    match e {
        Err(e) => {
            ensure!(!ok, "the encoder refuses a message within the limits", "{}: kind {} offset {}", cut(&e, 300), kind, off);
            cx.fault("a message beyond a size limit");
        }
        Ok(b) => {
            ensure!(ok, "the encoder lets out a message beyond the limits: size", "kind {} offset {}: {} bytes, header array {}", kind, off, b.len(), lens(12));
            cx.probe("message at a size limit");
            ensure!(b.len() == r.bytes.len(), "a huge frame has another length", "{} instead of {}", b.len(), r.bytes.len());
            drop(r);
            let y = cx.lib_raw("decode", || Message::decode(b.freeze()))?;
            match y {
                Ok((y, _)) => cx.lib_raw("inspecting a message", || bridge::same_msg(&m, &y))?.map_err(|e| class("a receiver reads another message", cut(&e, 300)))?,
                Err(e) => crate::fail!("a frame of this library is refused by its receiver", "kind {} offset {}: {}", kind, off, cut(&format!("{:?}", e), 300)),
            }
        }
    }
    drop(x);
    // the sender goes on
    let g = G::small(&mut cx.src);
    let m = g.msg(&mut cx.src);
    let (b, f) = build_enc(cx, &m)?;
    receive(cx, &b, &f, &m)
}
