//! C06: a node under attack: bytes and rule texts made to crash it, make it loop, or exhaust its
//! stack or memory.  Steps, memory and stack are measured inside the library.
use super::damage;
use super::util::*;
use super::Prop;
use crate::hooks::hk;
use crate::bridge;
use crate::ensure;
use crate::gen::G;
use crate::kernel::*;
use crate::model::*;
use bytes::Bytes;
use dbus_message_parser::match_rule::MatchRule;
use dbus_message_parser::message::Message;
use dbus_message_parser::value::{Bus, Error, Interface, Member, ObjectPath, Type};
use std::convert::TryFrom;

pub const PROP: Prop = Prop {
    id: "C06",
    run,
    quick: 30000,
    factor: 20,
    rule: "4-16 inputs per run: random bytes, damaged and forged frames, frames whose lengths claim up to 4 GiB, towers and floods of nested containers, variants and signatures, arrays of tiny elements, rule texts of random or grammar characters up to 100 kB, bytes of any kind for the constructors of names, paths and signatures; everything accepted is then encoded, matched, printed, compared, split, cloned and replied to; valid messages in between. Non-trivial: every run (all inputs are hostile).",
    real: "Message::{decode,decode_with_fds,encode,split,clone,eq,partial_cmp,fmt,replies}, MatchRule::{decode,try_from,encode,matching_rules}, constructors of names, paths and signatures from bytes",
    stub: "attacker; allocator and stack meters around the real code",
    known: None,
};

/// What an input accounts for: its bytes, and per four bytes one value whose type it spells out.
fn spelled(b: &[u8]) -> u64 {
    let mut best = 0;
    let mut i = 0;
    while i < b.len() {
        let s = i;
        let mut a = 0;
        while i < b.len() && i - s < 255 && b"ybnqiuxtdsogvha(){}".contains(&b[i]) {
            if b[i] == b'a' {
                a += 1
            }
            i += 1;
        }
        if a >= 2 {
            best = best.max((i - s) as u64);
        }
        if i == s {
            i += 1
        }
    }
    best
}

fn meter(cx: &mut Ctx, what: &str, len: usize, a: u64, m: &Meas, input: &[u8]) -> Res {
    let len = len as u64;
    let per = (len / 4 + 1) * a;
    cx.note(|| format!("{}: {} bytes, {} steps, {} peak, {} biggest, {} stack", what, len, m.steps, m.peak, m.biggest, m.stack));
    ensure!(m.stack <= 1 << 20, "stack use out of proportion", "{}: {} bytes of stack for {} bytes of input\n {}", what, m.stack, len, hex(input));
    ensure!(m.biggest as u64 <= 16384 + len * 256, "one allocation out of proportion", "{}: {} bytes at once for {} bytes of input\n {}", what, m.biggest, len, hex(input));
    ensure!(m.peak as i128 <= (1 << 17) + len as i128 * 1024 + per as i128 * 128, "memory use out of proportion", "{}: {} bytes of memory for {} bytes of input\n {}", what, m.peak, len, hex(input));
    ensure!(m.total <= (1 << 18) + len * 1024 + per * 128, "memory traffic out of proportion", "{}: {} bytes allocated for {} bytes of input\n {}", what, m.total, len, hex(input));
    ensure!(m.moved <= (1 << 18) + len * 1024 + per * 128, "copying out of proportion", "{}: {} bytes copied for {} bytes of input\n {}", what, m.moved, len, hex(input));
    ensure!(m.steps <= 500_000 + len * 3000 + per * 200, "time out of proportion", "{}: {} steps for {} bytes of input\n {}", what, m.steps, len, hex(input));
    Ok(())
}

fn run(cx: &mut Ctx) -> Res {
    let mut g = G::draw(&mut cx.src, false);
    tame(&mut g);
    cx.nontrivial();
    let n = cx.src.urange(4, 16);
    let mode = cx.src.idx(6);
    for _ in 0..n {
        cx.now += MS;
        let kind = if mode == 5 { cx.src.idx(5) } else { mode };
        if kind == 4 {
            if cx.src.chance(1, 3) {
                names(cx, &g)?;
            } else {
                text(cx, &g)?;
            }
        } else {
            let b = hostile(cx, &g, kind);
            bytes(cx, &b, &g)?;
        }
        if cx.src.chance(1, 5) {
            valid(cx, &g)?;
        }
    }
    valid(cx, &g)?;
    cx.sh.sim_ns = cx.now;
    Ok(())
}

fn hostile(cx: &mut Ctx, g: &G, kind: usize) -> Vec<u8> {
    match kind {
        0 => {
            cx.fault("bomb");
            bomb(cx)
        }
        1 => {
            let (b, _, what) = if cx.src.chance(1, 3) {
                let m = g.msg_fd(&mut cx.src);
                damage::dishonest(&mut cx.src, &m)
            } else {
                damage::forged(&mut cx.src, g)
            };
            cx.fault(what);
            b
        }
        2 => {
            let m = g.msg(&mut cx.src);
            let mut o = opts(&mut cx.src);
            o.spans = true;
            let f = ref_encode(&m, &o);
            let mut b = f.bytes;
            for _ in 0..cx.src.urange(1, 6) {
                let what = if cx.src.flag() { damage::targeted(&mut cx.src, &mut b, m.le, &f.spans) } else { damage::random(&mut cx.src, &mut b, &[]) };
                cx.fault(what);
            }
            b
        }
        _ => {
            cx.fault("random bytes");
            let n = cx.src.size(64, 3000);
            let style = cx.src.idx(4);
            let mut b: Vec<u8> = (0..n)
                .map(|_| match style {
                    0 => cx.src.below(256) as u8,
                    1 => *cx.src.pick(b"\0\0\0\x01\x02\x04\x08\xffl"),
                    2 => *cx.src.pick(b"a(){}vygs\0\x01"),
                    _ => cx.src.int(8) as u8,
                })
                .collect();
            if n >= 16 && cx.src.chance(2, 3) {
                b[0] = *cx.src.pick(b"lB");
                b[1] = cx.src.range(1, 4) as u8;
                b[2] = 0;
                b[3] = 1;
                let len = cx.src.int(32) as u32;
                let le = b[0] == b'l';
                b[12..16].copy_from_slice(&if le { len.to_le_bytes() } else { len.to_be_bytes() });
            }
            b
        }
    }
}

/// Well-formed up to a point and built to cost as much as possible.
fn bomb(cx: &mut Ctx) -> Vec<u8> {
    let s = &mut cx.src;
    let le = !s.flag();
    let base = MMsg {
        le,
        typ: 2,
        flags: 0,
        version: 1,
        serial: 1,
        f: MFields { reply_serial: Some(1), ..Default::default() },
        body: Vec::new(),
    };
    let mut m = base;
    let n = s.size(200, 3000);
    let d = s.urange(1, 40);
    let mut t = MT::B(*s.pick(b"yqutsgv"));
    match s.idx(9) {
        8 => {
            // a chain of variants (each in a struct or not) as deep as the bytes allow
            let k = s.size(3000, 60_000);
            let st = s.flag();
            let mut e = Enc::new(le, false);
            for _ in 0..k {
                e.sig(if st { b"(v)" } else { b"v" });
                if st {
                    e.pad(8);
                }
            }
            e.sig(b"y");
            e.byte(1, K::Num);
            m.body = vec![MV::Var(Box::new(MV::Byte(0)))];
            let mut b = ref_encode(&m, &EncOpts::default()).bytes;
            // replaces the body, which is four bytes long
            let at = b.len() - 4;
            b.truncate(at);
            let n = e.b.len() as u32;
            b[4..8].copy_from_slice(&if le { n.to_le_bytes() } else { n.to_be_bytes() });
            b.extend(e.b);
            return b;
        }
        0 => {
            for _ in 0..d {
                t = MT::Arr(Box::new(t))
            }
            m.body = vec![MV::Arr(t.clone(), (0..n).map(|_| empty(&t)).collect())];
        }
        1 => {
            let w = s.urange(1, 240);
            t = MT::Arr(Box::new(MT::Struct(vec![MT::B(b'y'); w])));
            m.body = vec![MV::Arr(t.clone(), (0..n).map(|_| empty(&t)).collect())];
        }
        2 => {
            let mut v = MV::Byte(0);
            for _ in 0..d {
                v = match s.idx(3) {
                    0 => MV::Var(Box::new(v)),
                    1 => MV::Struct(vec![v]),
                    _ => MV::Arr(v.ty(), vec![v]),
                };
            }
            m.body = vec![v];
        }
        3 => m.body = (0..n.min(255)).map(|_| MV::Byte(1)).collect(),
        4 => {
            let sig = vec![MT::B(b'y'); s.urange(1, 255)];
            m.body = vec![MV::Arr(MT::B(b'g'), (0..n).map(|_| MV::Sig(sig.clone())).collect())];
        }
        5 => m.body = vec![MV::Arr(MT::B(b'v'), (0..n).map(|_| MV::Var(Box::new(MV::Byte(1)))).collect())],
        6 => {
            let k = s.size(3000, 200_000);
            m.body = vec![MV::Arr(MT::B(b'y'), vec![MV::Byte(9); k])];
        }
        _ => {
            let k = s.size(3000, 200_000);
            m.body = vec![MV::Str("s".repeat(k)), MV::Path(format!("/{}", "a/".repeat(k / 2) + "a"))];
        }
    }
    let mut o = opts(s);
    o.spans = true;
    let f = ref_encode(&m, &o);
    let mut b = f.bytes;
    // claim more than there is
    let lens: Vec<&Span> = f.spans.iter().filter(|p| matches!(p.k, K::ArrLen | K::StrLen | K::BodyLen | K::HdrLen)).collect();
    let claims = s.idx(4);
    for _ in 0..claims {
        let s = &mut cx.src;
        if lens.is_empty() {
            break;
        }
        let p = s.pick(&lens);
        let x = *s.pick(&[0x04000000u32, 0x03fffff8, 0x07ffff00, 0xffffffff, 0x7fffffff, 0x01000000, 0x00100000, 0xfffffff0]);
        b[p.at..p.at + 4].copy_from_slice(&if le { x.to_le_bytes() } else { x.to_be_bytes() });
        cx.fault("length claims more than there is");
    }
    b
}

fn empty(t: &MT) -> MV {
    match t {
        MT::Arr(t) => MV::Arr((**t).clone(), Vec::new()),
        MT::Struct(v) => MV::Struct(v.iter().map(empty).collect()),
        MT::Dict(b) => MV::Dict(Box::new((empty(&b.0), empty(&b.1)))),
        MT::B(b'q') => MV::U16(1),
        MT::B(b'u') => MV::U32(1),
        MT::B(b't') => MV::U64(1),
        MT::B(b's') => MV::Str(String::new()),
        MT::B(b'g') => MV::Sig(Vec::new()),
        MT::B(b'v') => MV::Var(Box::new(MV::Byte(0))),
        MT::B(_) => MV::Byte(0),
    }
}

fn bytes(cx: &mut Ctx, b: &[u8], g: &G) -> Res {
    cx.mix_bytes(b);
    let a = spelled(b);
    let fds: Vec<i32> = (3..3 + cx.src.idx(4) as i32).collect();
    let with = cx.src.flag();
    let v = view(&mut cx.src, b);
    if cx.src.chance(1, 12) {
        let v = v.clone();
        held(cx, "a frame", b, || {
            // shown, used and dropped, as by a server for years
            match if with { Message::decode_with_fds(v.clone(), &fds).map(|x| x.0) } else { Message::decode(v.clone()).map(|x| x.0) } {
                Ok(x) => {
                    let _ = x.encode();
                    let _ = x.split();
                }
                Err(e) => {
                    let _ = e.to_string();
                }
            }
        })?;
    }
    let (r, m) = cx.lib_m("decode", || if with { Message::decode_with_fds(v, &fds).map(|x| (x.0, x.1)) } else { Message::decode(v) })?;
    cx.did("decode calls", 1);
    meter(cx, "decoding", b.len(), a, &m, b)?;
    match r {
        Err(e) => {
            cx.ev("refused", &[b.len() as u64]);
            // the error is shown to somebody
            let (t, m) = cx.lib_m("showing an error", || format!("{} {:?}", e, e).len())?;
            meter(cx, "showing the error", b.len() + t, a, &m, b)?;
        }
        Ok((x, used)) => {
            cx.ev("accepted", &[b.len() as u64, used as u64]);
            cx.probe("hostile bytes accepted as a message");
            ensure!(used <= b.len(), "more bytes used than there are", "{} of {}", used, b.len());
            uses(cx, x, b, a, g)?;
        }
    }
    Ok(())
}

fn uses(cx: &mut Ctx, x: Message, b: &[u8], a: u64, g: &G) -> Res {
    let n = b.len();
    let (r, m) = cx.lib_m("encode", || x.encode_with_fds().map(|(b, _)| b.len()))?;
    // short strings and numbers only grow by padding
    meter(cx, "encoding what was accepted", n * 2 + 64, a, &m, b)?;
    drop(r);
    let (t, m) = cx.lib_m("showing a message", || format!("{:?}", x).len())?;
    meter(cx, "showing what was accepted", n + t, a, &m, b)?;
    let k = cx.src.urange(0, 4);
    let rules: Vec<MRule> = (0..k).map(|_| g.rule(&mut cx.src)).collect();
    let lr = cx.lib("building rules", || bridge::rules(&rules))?.map_err(|e| class("a valid rule cannot be built", e))?;
    let (_, m) = cx.lib_m("matching", || MatchRule::matching_rules(&lr, &x))?;
    meter(cx, "matching what was accepted", n, a, &m, b)?;
    let (y, m) = cx.lib_m("clone and compare", || {
        let y = x.clone();
        let _ = y == x;
        let _ = y.partial_cmp(&x);
        let _ = x.get_signature().map(|s| s.len());
        y
    })?;
    meter(cx, "copying what was accepted", n, a, &m, b)?;
    let r = rep(&mut cx.src, g);
    let z = rep_real(cx, &x, &r)?;
    if let Some(z) = z {
        cx.lib("encoding a reply", || z.encode().is_ok())?;
    }
    let (_, m) = cx.lib_m("split", || match y.split() {
        Ok((h, body)) => {
            let _ = format!("{:?}", h);
            let z = Message::new(h, body);
            z.encode().is_ok()
        }
        Err(_) => false,
    })?;
    meter(cx, "splitting what was accepted", n * 2 + 64, a, &m, b)?;
    cx.lib("drop", || drop(x))
}

/// Bytes given to the constructors of names, paths and signatures.
fn names(cx: &mut Ctx, g: &G) -> Res {
    cx.fault("hostile names");
    let s = &mut cx.src;
    let mut b: Vec<u8> = match s.idx(6) {
        0 => g.interface(s).into_bytes(),
        1 => g.bus(s).into_bytes(),
        2 => g.path(s).into_bytes(),
        3 => {
            let n = s.urange(0, 4);
            (0..n).map(|_| g.ty(s, 3).text()).collect::<String>().into_bytes()
        }
        4 => {
            let unit = *s.pick(&["a", ".", "/", ":", ":1.", "a.", "/a", "(", "a{s", "a", "v", "é", "\0", "(y)"]);
            let n = s.size(40, 100_000);
            unit.repeat(n).into_bytes()
        }
        _ => {
            let n = s.size(16, 600);
            (0..n).map(|_| s.below(256) as u8).collect()
        }
    };
    for _ in 0..s.urange(0, 3) {
        let i = s.idx(b.len() + 1);
        let x = *s.pick(b"\x80\xff\xc3\xa9\0./:_-a0Z(){}v \xed");
        if i < b.len() && s.flag() {
            b[i] = x;
        } else {
            b.insert(i, x);
        }
    }
    cx.mix_bytes(&b);
    cx.did("names offered", 1);
    fn sound<T: AsRef<str>, E: std::fmt::Display>(r: Result<T, E>) -> (bool, bool) {
        match r {
            // a text is valid UTF-8, whatever bytes it was made from
            Ok(x) => (true, std::str::from_utf8(x.as_ref().as_bytes()).is_ok()),
            Err(e) => (false, !e.to_string().contains('\u{10fffe}')),
        }
    }
    let k = cx.src.idx(6);
    let make = || match k {
        0 => sound(ObjectPath::try_from(&b[..])),
        1 => sound(Bus::try_from(&b[..])),
        2 => sound(Interface::try_from(&b[..])),
        3 => sound(Member::try_from(&b[..])),
        4 => sound(Error::try_from(&b[..])),
        _ => {
            let r = Type::from_bytes_to_signature(&b);
            let r = r.map(|t| t.iter().map(|t| format!("{} {:?}", t, t.get_alignment())).collect::<String>());
            sound(r)
        }
    };
    if cx.src.chance(1, 12) {
        held(cx, "a name", &b, || {
            make();
        })?;
    }
    let ((ok, utf8), m) = cx.lib_m("constructing a name", make)?;
    // one path, name or signature: text of at most the same size, and types of a node per byte
    meter(cx, "constructing a name", b.len(), 0, &m, &b)?;
    ensure!(utf8, "text which is not UTF-8", "made from {}", hex(&b));
    if ok {
        cx.probe("hostile bytes accepted as a name");
    }
    Ok(())
}

fn text(cx: &mut Ctx, g: &G) -> Res {
    cx.fault("hostile rule text");
    let s = &mut cx.src;
    let n = s.size(80, 100_000);
    let mut one = s.chance(1, 3);
    let t = match s.idx(6) {
        5 => {
            // a single rule, strangely spelled
            one = true;
            let r = g.rule(s);
            let mut v = super::c10::spell(s, &rule_value(&r));
            if s.chance(3, 4) {
                damage::bad_text(s, &mut v);
            }
            let mut t = format!("{}={}", rule_key(&r), v);
            if s.chance(1, 4) {
                damage::bad_text(s, &mut t);
            }
            t
        }
        0 => {
            let mut t = String::new();
            while t.len() < n.min(2000) {
                t.push_str(s.pick(&["'", ",", "\\", "=", "type", "arg", "arg0", "path", "signal", "0", "63", "64", "é", "eavesdrop", "true", "_namespace", "sender", "'\\''", " ", "\0"]));
            }
            t
        }
        1 => {
            let unit = *s.pick(&["'", "''", "\\", "\\'", ",", "'\\", "',", "arg0='',", "a", "=", "arg0=','", "path=/,", "é"]);
            let head = *s.pick(&["", "arg0=", "arg0='", "path=/", "type=signal,", "sender="]);
            let tail = *s.pick(&["", "'", "\\", ","]);
            format!("{}{}{}", head, unit.repeat(n / unit.len()), tail)
        }
        2 => {
            let mut t: String = (0..s.urange(1, 6)).map(|_| ref_rule_text(&g.rule(s))).collect::<Vec<_>>().join(",");
            for _ in 0..s.urange(1, 4) {
                damage::bad_text(s, &mut t);
            }
            t
        }
        3 => {
            let i = *s.pick(&["99999999999999999999", "18446744073709551615", "18446744073709551616", "64", "63", "-1", "+0", "00", "4294967296", "", "0x1", "٣"]);
            let p = *s.pick(&["", "path", "namespace", "path_namespace"]);
            let v = *s.pick(&["x", "/", "/a/", "", "a.b"]);
            format!("arg{}{}={}", i, p, v)
        }
        _ => {
            let mut t = String::new();
            let m = s.urange(0, 60);
            for _ in 0..m {
                t.push(char::from_u32(s.int(21) as u32).unwrap_or('x'));
            }
            t
        }
    };
    cx.mix_bytes(t.as_bytes());
    if cx.src.chance(1, 12) {
        held(cx, "rule text", t.as_bytes(), || {
            let _ = if one { MatchRule::try_from(t.as_str()).map(|r| r.to_string()) } else { MatchRule::decode(&t).map(|r| MatchRule::encode(&r)) };
        })?;
    }
    let (r, m) = if !one { cx.lib_m("MatchRule::decode", || MatchRule::decode(&t))? } else { cx.lib_m("MatchRule::try_from", || MatchRule::try_from(t.as_str()).map(|r| vec![r]))? };
    cx.did("rule texts offered", 1);
    meter(cx, "parsing rule text", t.len(), 0, &m, t.as_bytes())?;
    match r {
        Ok(v) => {
            cx.ev("rules", &[v.len() as u64]);
            cx.probe("hostile text accepted as rules");
            let (o, m) = cx.lib_m("MatchRule::encode", || MatchRule::encode(&v))?;
            meter(cx, "encoding rules", t.len() + o.len(), 0, &m, t.as_bytes())?;
            let msg = g.msg(&mut cx.src);
            let x = build(cx, &msg)?;
            let (_, m) = cx.lib_m("matching", || MatchRule::matching_rules(&v, &x))?;
            meter(cx, "matching", t.len() + (1 << 16), 0, &m, t.as_bytes())?;
            cx.lib("showing rules", || format!("{:?}", v).len())?;
        }
        Err(e) => {
            cx.ev("text refused", &[t.len() as u64]);
            cx.lib("showing an error", || format!("{} {:?}", e, e).len())?;
        }
    }
    Ok(())
}

fn valid(cx: &mut Ctx, g: &G) -> Res {
    let m = g.msg(&mut cx.src);
    let f = frame(cx, &m)?;
    match dec(cx, Bytes::from(f.clone()), None)? {
        Ok((x, used, _)) => {
            ensure!(used == f.len(), "a reported length is wrong", "{} of {}", used, f.len());
            same(cx, "a valid message is misread under attack", &m, &x)
        }
        Err(e) => crate::fail!("a valid message is refused under attack", "{}", cut(&format!("{:?}", e), 300)),
    }
}

/// The same input again and again: nothing of it may stay behind.
fn held(cx: &mut Ctx, what: &str, b: &[u8], f: impl Fn()) -> Res {
    let mut left = 0;
    let n = 24;
    for k in 0..n {
        cx.lib("hostile input again", &f)?;
        if k >= n / 2 && hk().cur > 0 {
            left += 1;
        }
    }
    cx.did("inputs repeated and their memory accounted for", 1);
    ensure!(left < n / 2, format!("memory is lost for {}", what), "every time {} is offered, memory stays allocated: {} bytes {}", what, b.len(), hex(b));
    Ok(())
}
