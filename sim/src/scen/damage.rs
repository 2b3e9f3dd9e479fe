//! What hostile or broken links and peers do to frames.
use super::util::order;
use crate::choice::Src;
use crate::gen::G;
use crate::model::*;

fn put32(b: &mut [u8], at: usize, le: bool, x: u32) {
    let y = if le { x.to_le_bytes() } else { x.to_be_bytes() };
    b[at..at + 4].copy_from_slice(&y);
}
fn get32(b: &[u8], at: usize, le: bool) -> u32 {
    let a = [b[at], b[at + 1], b[at + 2], b[at + 3]];
    if le { u32::from_le_bytes(a) } else { u32::from_be_bytes(a) }
}

/// Damages one field of a frame whose layout is known.
pub fn targeted(s: &mut Src, b: &mut Vec<u8>, le: bool, spans: &[Span]) -> &'static str {
    if spans.is_empty() || b.is_empty() {
        return "nothing damaged";
    }
    // choose a kind first so that rare kinds are hit as often as common ones
    let mut kinds: Vec<K> = Vec::new();
    for p in spans {
        if !kinds.contains(&p.k) {
            kinds.push(p.k)
        }
    }
    let k = *s.pick(&kinds);
    let of: Vec<&Span> = spans.iter().filter(|p| p.k == k).collect();
    let p = **s.pick(&of);
    if p.at + p.len > b.len() {
        return "nothing damaged";
    }
    match k {
        K::Pad => {
            let i = p.at + s.idx(p.len);
            b[i] = *s.pick(&[1u8, 0x80, 0xff, 0x6c]);
            "padding overwritten"
        }
        K::Nul => {
            b[p.at] = *s.pick(&[1u8, b'a', 0xff, b' ']);
            "terminator overwritten"
        }
        K::Bool => {
            let x = *s.pick(&[2u32, 256, 0x01000000, 0xffffffff, 3, 0x10001]);
            put32(b, p.at, le, x);
            "boolean overwritten"
        }
        K::StrLen | K::ArrLen | K::BodyLen | K::HdrLen => {
            let old = get32(b, p.at, le);
            let x = match s.idx(8) {
                0 => old.wrapping_add(1),
                1 => old.wrapping_sub(1),
                2 => old.wrapping_add(s.range(2, 9) as u32),
                3 => old.wrapping_sub(s.range(2, 9) as u32),
                4 => 0,
                5 => *s.pick(&[0xffffffffu32, 0x7fffffff, 0x80000000, 0x04000000, 0x04000001, 0x08000000, 0x08000001, 0xfffffff8]),
                6 => old.swap_bytes(),
                _ => s.int(32) as u32,
            };
            put32(b, p.at, le, x);
            match k {
                K::StrLen => "string length overwritten",
                K::ArrLen => "array length overwritten",
                K::BodyLen => "body length overwritten",
                _ => "header length overwritten",
            }
        }
        K::SigLen => {
            b[p.at] = match s.idx(4) {
                0 => b[p.at].wrapping_add(1),
                1 => b[p.at].wrapping_sub(1),
                2 => 255,
                _ => 0,
            };
            "signature length overwritten"
        }
        K::Sig => {
            if p.len > 0 {
                let i = p.at + s.idx(p.len);
                b[i] = *s.pick(b"ybnqiuxtdsogvha(){}rez\0m*?@&^\x80");
            }
            "signature overwritten"
        }
        K::Str => {
            if p.len > 0 {
                let i = p.at + s.idx(p.len);
                b[i] = *s.pick(b"\x80\xff\xc3\xc0\xed\xf4\0/.:-_09azAZ'\\ ");
                if p.len > 3 && s.chance(1, 3) {
                    let at = p.at + s.idx(p.len - 2);
                    // surrogate, overlong, beyond the last code point, truncated sequence
                    let x = *s.pick(&[[0xed, 0xa0, 0x80], [0xe0, 0x80, 0x80], [0xc0, 0x80, 0x61], [0xf4, 0x90, 0x80], [0xe2, 0x82, 0x61]]);
                    b[at..at + 3].copy_from_slice(&x);
                }
            }
            "text overwritten"
        }
        K::Endian => {
            b[p.at] = *s.pick(b"lBbL\0\xff");
            "byte order mark overwritten"
        }
        K::MsgType => {
            b[p.at] = *s.pick(&[0u8, 1, 2, 3, 4, 5, 255]);
            "message type overwritten"
        }
        K::Flags | K::Version => {
            b[p.at] = s.int(8) as u8;
            "flags or version overwritten"
        }
        K::Code => {
            b[p.at] = *s.pick(&[0u8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 255]);
            "header field code overwritten"
        }
        K::Serial | K::Num | K::FdIdx => {
            let i = p.at + s.idx(p.len.max(1));
            if i < b.len() {
                b[i] = s.int(8) as u8;
            }
            if k == K::FdIdx { "descriptor index overwritten" } else { "number overwritten" }
        }
    }
}

/// Damage that knows nothing about the layout.
pub fn random(s: &mut Src, b: &mut Vec<u8>, other: &[u8]) -> &'static str {
    if b.is_empty() {
        return "nothing damaged";
    }
    let n = b.len();
    let at = s.idx(n);
    match s.idx(8) {
        0 => {
            b[at] ^= 1 << s.idx(8);
            "bit flipped"
        }
        1 => {
            b[at] = s.int(8) as u8;
            "byte overwritten"
        }
        2 => {
            let k = s.urange(1, 8);
            for i in 0..k {
                b.insert(at + i, s.below(256) as u8);
            }
            "bytes inserted"
        }
        3 => {
            let k = s.urange(1, 8).min(n - at);
            b.drain(at..at + k);
            "bytes lost"
        }
        4 => {
            let k = s.urange(1, 16).min(n - at);
            let d = b[at..at + k].to_vec();
            for (i, x) in d.into_iter().enumerate() {
                b.insert(at + k + i, x);
            }
            "bytes duplicated"
        }
        5 => {
            let k = s.urange(1, 16).min(n - at);
            let to = s.idx(n - k + 1);
            let d = b[at..at + k].to_vec();
            b[to..to + k].copy_from_slice(&d);
            "bytes copied over others"
        }
        6 => {
            if !other.is_empty() {
                let f = s.idx(other.len());
                let k = s.urange(1, 32).min(other.len() - f).min(n - at);
                b[at..at + k].copy_from_slice(&other[f..f + k]);
            }
            "bytes of another frame written over"
        }
        _ => {
            let i = at & !3;
            if i + 4 <= n {
                let x = s.int(32) as u32;
                let le = s.flag();
                put32(b, i, le, x);
            }
            "word overwritten"
        }
    }
}

/// Spoils a name or path.
pub fn bad_text(s: &mut Src, t: &mut String) {
    const C: &[&str] = &["/", ".", "-", ":", "_", "0", "9", "a", "Z", "é", " ", "\u{1}", "//", "..", "\u{212A}", "٣", "\0", "\u{130}", "@", "[", "`", "{", ","];
    match s.idx(8) {
        0 => {
            let i = at(s, t);
            t.insert_str(i, s.pick(C));
        }
        1 => t.push_str(s.pick(C)),
        2 => {
            let x = *s.pick(C);
            t.insert_str(0, x);
        }
        3 => {
            t.pop();
        }
        4 => {
            if !t.is_empty() {
                let c = t.chars().next().unwrap().len_utf8();
                t.drain(..c);
            }
        }
        5 => {
            let n = *s.pick(&[254usize, 255, 256, 257, 300, 511, 512]);
            while t.len() < n {
                t.push('k')
            }
        }
        6 => t.clear(),
        _ => {
            let i = at(s, t);
            if i < t.len() {
                t.remove(i);
                t.insert_str(i, s.pick(C));
            }
        }
    }
}
fn at(s: &mut Src, t: &str) -> usize {
    let mut i = s.idx(t.len() + 1);
    while !t.is_char_boundary(i) {
        i -= 1
    }
    i
}

fn spoil_value(s: &mut Src, v: &mut MV) -> bool {
    match v {
        MV::Path(p) => {
            bad_text(s, p);
            true
        }
        MV::Arr(_, v) | MV::Struct(v) => {
            if v.is_empty() {
                return false;
            }
            let i = s.idx(v.len());
            spoil_value(s, &mut v[i])
        }
        MV::Dict(b) => {
            if s.flag() {
                spoil_value(s, &mut b.0)
            } else {
                spoil_value(s, &mut b.1)
            }
        }
        MV::Var(b) => spoil_value(s, b),
        _ => false,
    }
}

/// Spoils a name in the header, if there is one.
pub fn spoil_header(s: &mut Src, m: &mut MMsg) -> &'static str {
    let mut c: Vec<&mut String> = Vec::new();
    let f = &mut m.f;
    for x in [&mut f.path, &mut f.interface, &mut f.member, &mut f.error_name, &mut f.destination, &mut f.sender] {
        if let Some(x) = x {
            c.push(x)
        }
    }
    if c.is_empty() {
        return "nothing forged";
    }
    let i = s.idx(c.len());
    bad_text(s, c[i]);
    "ill-formed name in the header"
}

/// Spoils a path in the body.
pub fn spoil_body(s: &mut Src, m: &mut MMsg) -> &'static str {
    if m.body.is_empty() {
        m.body.push(MV::Path("/a/b".into()));
    }
    let i = s.idx(m.body.len());
    if !spoil_value(s, &mut m.body[i]) {
        m.body.push(MV::Path("/a/b".into()));
        let i = m.body.len() - 1;
        spoil_value(s, &mut m.body[i]);
    }
    "ill-formed path in the body"
}

/// A frame by an encoder that departs from the layout in one or two places and is consistent
/// otherwise: lengths, paddings and positions fit what is there.
pub fn dishonest(s: &mut Src, m: &MMsg) -> (Vec<u8>, Vec<i32>, &'static str) {
    let mut o = EncOpts { order: order(s), empty_sig: s.flag(), ..Default::default() };
    let f = ref_encode(m, &o);
    let part = s.idx(2);
    let all = [At::Sig, At::Str, At::Nul, At::Pad, At::Bool, At::ArrLen, At::Value, At::Field, At::StrLen];
    for part in if s.chance(1, 8) { vec![0, 1] } else { vec![part] } {
        let can: Vec<At> = all.iter().copied().filter(|a| f.seen[part][*a as usize] > 0).collect();
        if can.is_empty() {
            continue;
        }
        let at = *s.pick(&can);
        let n = f.seen[part][at as usize];
        let nth = if s.flag() { s.idx(n) } else { n - 1 - s.idx(n.min(3)) };
        o.lies[part] = Some(Lie { at, nth, x: s.u64() });
    }
    let f = ref_encode(m, &o);
    let what = match o.lies[1].or(o.lies[0]).map(|l| l.at) {
        Some(At::Sig) => "dishonest signature",
        Some(At::Str) => "dishonest text",
        Some(At::Nul) => "dishonest terminator",
        Some(At::Pad) => "dishonest padding",
        Some(At::Bool) => "dishonest boolean",
        Some(At::ArrLen) => "dishonest array length",
        Some(At::Value) => "dishonest value",
        Some(At::Field) => "dishonest header field",
        Some(At::StrLen) => "dishonest text length",
        None => "nothing forged",
    };
    (f.bytes, f.fds, what)
}

/// A frame by a hostile peer: all lengths are consistent, but the construction is not legal.
pub fn forged(s: &mut Src, g: &G) -> (Vec<u8>, Vec<i32>, &'static str) {
    let mut m = g.msg_fd(s);
    let mut what = "nothing forged";
    let kind = s.idx(12);
    match kind {
        0 | 1 => what = spoil_header(s, &mut m),
        2 => what = spoil_body(s, &mut m),
        3 => {
            // too many levels of one kind
            let k = s.idx(4);
            let n = if k == 3 { s.urange(31, 70) } else { s.urange(31, 36) };
            let lean = s.range(1, 3);
            // the deep member of a struct need not be the first
            let mixed = s.flag();
            let mut wrap = |s: &mut Src, v: MV| match if mixed { s.idx(4) } else { 3 } {
                0 => MV::Struct(vec![MV::Byte(0), v]),
                1 => MV::Struct(vec![MV::Arr(MT::B(b'y'), vec![]), v, MV::Byte(1)]),
                2 => MV::Struct(vec![MV::Struct(vec![MV::Byte(0)]), v]),
                _ => MV::Struct(vec![v]),
            };
            let mut v = MV::Byte(7);
            for _ in 0..n {
                v = match k {
                    0 => MV::Arr(v.ty(), if s.chance(1, 8) { vec![] } else { vec![v] }),
                    1 => wrap(s, v),
                    2 => MV::Dict(Box::new((MV::Byte(1), v))),
                    _ => {
                        if s.chance(lean, 4) {
                            MV::Arr(v.ty(), vec![v])
                        } else {
                            wrap(s, v)
                        }
                    }
                };
            }
            if let MV::Dict(_) = v {
                v = MV::Arr(v.ty(), vec![v]);
            }
            if s.chance(1, 3) {
                v = MV::Var(Box::new(v));
            }
            if s.chance(1, 5) {
                v = MV::Sig(vec![v.ty()]);
            }
            m.body = vec![v];
            what = "containers nested around the limit";
        }
        4 => {
            let n = s.urange(3, 8);
            let mut v = MV::U32(1);
            // one way down, or several mixed
            let way = s.idx(8);
            for _ in 0..n {
                v = MV::Var(Box::new(v));
                let k = if way < 6 { way } else { s.idx(6) };
                v = match k {
                    1 => MV::Struct(vec![v]),
                    2 => MV::Arr(MT::B(b'v'), vec![v]),
                    3 => {
                        let d = MV::Dict(Box::new((MV::Byte(2), v)));
                        MV::Arr(d.ty(), vec![d])
                    }
                    4 => MV::Struct(vec![MV::U16(3), v, MV::Byte(4)]),
                    5 => {
                        let (x, y) = (MV::Struct(vec![MV::Var(Box::new(MV::Byte(9)))]), MV::Struct(vec![v]));
                        MV::Arr(y.ty(), if s.flag() { vec![x, y] } else { vec![y] })
                    }
                    _ => v,
                };
            }
            m.body = if s.flag() { vec![v] } else { vec![MV::Var(Box::new(MV::U32(5))), v] };
            what = "variants nested around the limit";
        }
        5 => {
            // a body without a signature
            let body = g.body(s);
            m.body = Vec::new();
            let mut b = ref_encode(&m, &EncOpts { order: order(s), ..Default::default() }).bytes;
            let mut e = Enc::new(m.le, false);
            for v in &body {
                e.value(v)
            }
            if e.b.is_empty() {
                e.b.push(0);
            }
            put32(&mut b, 4, m.le, e.b.len() as u32);
            b.extend(e.b);
            return (b, Vec::new(), "body without signature");
        }
        _ => {}
    }
    if kind < 6 {
        let f = ref_encode(&m, &EncOpts { order: order(s), empty_sig: s.flag(), fds: None, spans: false, ..Default::default() });
        return (f.bytes, f.fds, what);
    }
    // a header put together by hand
    let mut body = Enc::new(m.le, false);
    for v in &m.body {
        body.value(v)
    }
    let mut sig = m.sig().into_bytes();
    let mut ent: Vec<(u8, Vec<u8>, Option<MV>)> = Vec::new();
    let f = &m.f;
    let mut add = |c: u8, t: &[u8], v: Option<MV>| {
        if let Some(v) = v {
            ent.push((c, t.to_vec(), Some(v)))
        }
    };
    add(1, b"o", f.path.clone().map(MV::Path));
    add(2, b"s", f.interface.clone().map(MV::Str));
    add(3, b"s", f.member.clone().map(MV::Str));
    add(4, b"s", f.error_name.clone().map(MV::Str));
    add(5, b"u", f.reply_serial.map(MV::U32));
    add(6, b"s", f.destination.clone().map(MV::Str));
    add(7, b"s", f.sender.clone().map(MV::Str));
    if !body.fds.is_empty() {
        add(9, b"u", Some(MV::U32(body.fds.len() as u32)));
    }
    let mut body_bytes = std::mem::take(&mut body.b);
    if !sig.is_empty() {
        ent.push((8, b"g".to_vec(), None));
    }
    s.shuffle(&mut ent);
    match kind {
        6 if !ent.is_empty() => {
            let i = s.idx(ent.len());
            let mut e = ent[i].clone();
            if s.flag() {
                e.2 = e.2.map(|v| match v {
                    MV::Str(_) => MV::Str("x.y".into()),
                    MV::U32(n) => MV::U32(n.wrapping_add(1)),
                    v => v,
                });
            }
            let j = s.idx(ent.len() + 1);
            ent.insert(j, e);
            what = "header field twice";
        }
        7 if !ent.is_empty() => {
            let i = s.idx(ent.len());
            ent.remove(i);
            what = "header field left out";
        }
        8 if !ent.is_empty() => {
            let i = s.idx(ent.len());
            let e = &mut ent[i];
            let t = s.idx(7);
            let txt = match &e.2 {
                Some(MV::Str(x)) | Some(MV::Path(x)) => x.clone(),
                _ => "/a".into(),
            };
            let (ty, v): (&[u8], MV) = match t {
                0 => (b"o", MV::Path(txt)),
                1 => (b"s", MV::Str(txt)),
                2 => (b"u", MV::U32(1)),
                3 => (b"i", MV::I32(1)),
                4 => (b"v", MV::Var(Box::new(e.2.clone().unwrap_or(MV::Byte(1))))),
                5 => (b"as", MV::Arr(MT::B(b's'), vec![MV::Str(txt)])),
                _ => (b"t", MV::U64(1)),
            };
            e.1 = ty.to_vec();
            e.2 = Some(v);
            what = "header field of another type";
        }
        9 => {
            let c = *s.pick(&[0u8, 10, 11, 128, 255]);
            let j = s.idx(ent.len() + 1);
            ent.insert(j, (c, b"s".to_vec(), Some(MV::Str("x".into()))));
            what = "header field of unknown code";
        }
        10 => {
            // another signature than the body has
            match s.idx(6) {
                0 => sig.push(*s.pick(b"ybsuv")),
                1 => {
                    sig.pop();
                }
                2 => {
                    if !sig.is_empty() {
                        let i = s.idx(sig.len());
                        sig[i] = *s.pick(b"ybnqiuxtdsogvha(){}m");
                    }
                }
                3 => {
                    body_bytes.clear();
                }
                4 => {
                    let i = s.idx(sig.len() + 1);
                    let t: &[u8] = *s.pick(&[&b"()"[..], b"a", b"(", b")", b"a{}", b"a{s}", b"a{sss}", b"{ss}", b"a{vs}", b"a{ass}", b"aa", b"\0", b"a()", b"(y", b"a{sv"]);
                    for (k, x) in t.iter().enumerate() {
                        sig.insert(i + k, *x);
                    }
                }
                _ => {
                    for _ in 0..s.urange(1, 9) {
                        body_bytes.push(s.below(3) as u8);
                    }
                }
            }
            sig.truncate(255);
            if sig.is_empty() {
                ent.retain(|e| e.0 != 8)
            } else if !ent.iter().any(|e| e.0 == 8) {
                ent.push((8, b"g".to_vec(), None));
            }
            what = "signature and body disagree";
        }
        _ => {
            // other type text for a field: none, two, ill-formed
            if !ent.is_empty() {
                let i = s.idx(ent.len());
                let t: &[u8] = *s.pick(&[&b""[..], b"ss", b"(s)", b"a", b"so", b"u"]);
                ent[i].1 = t.to_vec();
                what = "header field with a strange signature";
            }
        }
    }
    let mut h = Enc::new(m.le, false);
    h.byte(if m.le { b'l' } else { b'B' }, K::Endian);
    h.byte(m.typ, K::MsgType);
    h.byte(m.flags, K::Flags);
    h.byte(m.version, K::Version);
    h.u32(body_bytes.len() as u32, K::BodyLen);
    h.u32(m.serial, K::Serial);
    h.u32(0, K::HdrLen);
    for (c, t, v) in ent {
        h.pad(8);
        h.byte(c, K::Code);
        h.sig(&t);
        match v {
            None => h.sig(&sig),
            Some(v) => h.value(&v),
        }
    }
    let n = (h.b.len() - 16) as u32;
    put32(&mut h.b, 12, m.le, n);
    h.pad(8);
    h.b.extend(body_bytes);
    (h.b, body.fds, what)
}
