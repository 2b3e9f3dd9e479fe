//! C19: stores of type signatures: printed, stored, damaged, read again, also by fresh processes.
use super::util::*;
use super::Prop;
use crate::bridge;
use crate::choice::Src;
use crate::gen::G;
use crate::kernel::*;
use crate::model::*;
use crate::sys::Zygote;
use crate::{ensure, fail};
use bytes::Bytes;
use dbus_message_parser::message::Message;
use dbus_message_parser::value::*;
use std::convert::TryFrom;

pub const PROP: Prop = Prop {
    id: "C19",
    run,
    quick: 260000,
    factor: 24,
    rule: "a directory of interfaces keeps 1-10 type signatures (of up to 300 bytes and containers up to 35 deep, at and beyond every limit) through 1-6 rounds: printed by this library or by another producer, written to a disk that flips, drops, tears, splices and duplicates bytes, read again as a signature, as a single type, from bytes or text or inside a frame, in this or a fresh process, and printed again. Reading is judged by the reference grammar, printing must give the text that was read. Types that cannot be written (empty structures, too deep, too long) are refused. Non-trivial: a fault, a fresh process or a type that cannot be written.",
    real: "Type::{from_string_to_signature, from_bytes_to_signature, from_signature_to_string, try_from, get_alignment}, Display and Clone of Type, signatures as values in frames",
    stub: "disk, other producer, reference grammar",
    known: None,
};

/// A type with containers up to and beyond the limits.
fn deep(s: &mut Src, g: &G) -> MT {
    let mut t = MT::B(g.basic(s));
    let limit = [s.urange(0, 35), s.urange(0, 35), s.urange(0, 35)];
    let want = match s.idx(4) {
        0 => [limit[0], 0, 0],
        1 => [0, limit[1], 0],
        2 => [limit[2], 0, limit[2]],
        _ => limit,
    };
    let mut left = want;
    while left.iter().sum::<usize>() > 0 {
        let k = s.idx(3);
        match k {
            0 if left[0] > 0 => {
                left[0] -= 1;
                t = MT::Arr(Box::new(t))
            }
            1 if left[1] > 0 => {
                left[1] -= 1;
                let mut v = vec![t];
                if s.chance(1, 6) {
                    v.push(MT::B(g.basic(s)))
                }
                if s.chance(1, 6) {
                    v.insert(0, MT::B(g.basic(s)))
                }
                t = MT::Struct(v)
            }
            2 if left[2] > 0 => {
                left[2] -= 1;
                t = MT::Dict(Box::new((MT::B(g.basic(s)), t)));
                if left[0] > 0 {
                    left[0] -= 1;
                    t = MT::Arr(Box::new(t))
                }
            }
            _ => {}
        }
    }
    t
}

fn draw(s: &mut Src, g: &G) -> Vec<MT> {
    let mut v = match s.weighted(&[5, 2, 2, 1]) {
        0 => g.sig(s),
        1 => vec![deep(s, g)],
        3 => (0..s.urange(1, 3)).map(|_| tiny(s, g)).collect(),
        _ => {
            let n = s.idx(4);
            (0..n).map(|_| if s.flag() { deep(s, g) } else { g.ty(s, 3) }).collect()
        }
    };
    if s.chance(1, 6) {
        // at the limit of the length
        let n = s.urange(250, 260);
        while sig_text(&v).len() < n {
            let l = n - sig_text(&v).len();
            let t = if l > 12 && s.chance(1, 3) { g.ty(s, 2) } else { MT::B(g.basic(s)) };
            if t.text().len() <= l {
                let at = s.idx(v.len() + 1);
                v.insert(at, t);
            }
        }
    }
    v
}

fn sum(t: &MT) -> usize {
    match t {
        MT::B(_) => 0,
        MT::Arr(t) => 1 + sum(t),
        MT::Struct(v) => 1 + v.iter().map(sum).max().unwrap_or(0),
        MT::Dict(b) => 1 + sum(&b.0).max(sum(&b.1)),
    }
}

/// The reference reading: None must be refused; the flag says that it must be accepted.
fn reads(b: &[u8]) -> Option<(Vec<MT>, bool)> {
    let v = parse_sig(b)?;
    let must = v.iter().all(|t| strict_type(t, false) && sum(t) <= 64);
    Some((v, must))
}

#[derive(Clone, Debug, PartialEq)]
enum Got {
    No,
    /// the text it prints as
    Text(String),
    Wrong(String),
}

fn same_sig(m: &[MT], l: &[Type]) -> bool {
    m.len() == l.len() && m.iter().zip(l).all(|(a, b)| bridge::same_type(a, b))
}

/// A part of the type whose alignment is wrong.
fn misaligned<'a>(m: &MT, t: &'a Type) -> Option<&'a Type> {
    if t.get_alignment() != m.align() {
        return Some(t);
    }
    match (m, t) {
        (MT::Arr(m), Type::Array(t)) => misaligned(m, t),
        (MT::Struct(m), Type::Struct(t)) => m.iter().zip(t).find_map(|(m, t)| misaligned(m, t)),
        (MT::Dict(m), Type::DictEntry(t)) => misaligned(&m.0, &t.0).or_else(|| misaligned(&m.1, &t.1)),
        _ => None,
    }
}

/// A small container of very few kinds of types.
fn tiny(s: &mut Src, g: &G) -> MT {
    let k = [g.basic(s), g.basic(s)];
    let mut b = |s: &mut Src| MT::B(k[s.weighted(&[3, 1])]);
    let t = match s.idx(3) {
        0 => MT::Arr(Box::new(MT::Dict(Box::new((b(s), b(s)))))),
        1 => MT::Struct((0..s.urange(1, 4)).map(|_| b(s)).collect()),
        _ => MT::Arr(Box::new(b(s))),
    };
    match s.idx(4) {
        0 => MT::Arr(Box::new(t)),
        1 => MT::Struct(vec![b(s), t]),
        _ => t,
    }
}

/// What the library makes of the bytes, by entry point `w`.
fn parse(b: &[u8], w: usize) -> Got {
    let s = std::str::from_utf8(b).ok();
    let r: Result<Vec<Type>, TypeError> = match (w, s) {
        (1, Some(s)) => Type::from_string_to_signature(s),
        (2, _) => Type::try_from(b).map(|t| vec![t]),
        (3, Some(s)) => Type::try_from(s).map(|t| vec![t]),
        _ => Type::from_bytes_to_signature(b),
    };
    let l = match r {
        Ok(l) => l,
        Err(e) => {
            let _ = format!("{} {:?}", e, e);
            return Got::No;
        }
    };
    let m = match parse_sig(b) {
        Some(m) => m,
        None => return Got::Wrong(format!("{:?}", l)),
    };
    if !same_sig(&m, &l) {
        return Got::Wrong(format!("{:?}", l));
    }
    for (m, t) in m.iter().zip(&l) {
        if let Some(t) = misaligned(m, t) {
            return Got::Wrong(format!("alignment {} of {:?}", t.get_alignment(), t));
        }
        if t.to_string() != m.text() {
            return Got::Wrong(format!("{:?} is shown as {}", t, t));
        }
        if t.clone() != *t || *t != bridge::ty(m) {
            return Got::Wrong(format!("{:?} is not equal to itself", t));
        }
    }
    match Type::from_signature_to_string(&l) {
        Ok(t) => Got::Text(t),
        Err(e) => Got::Wrong(format!("{:?} cannot be printed: {:?}", l, e)),
    }
}

fn judge(cx: &mut Ctx, b: &[u8], w: usize, got: Got, whence: &str) -> Res<bool> {
    let show = || cut(&format!("{:?}", String::from_utf8_lossy(b)), 600);
    let single = w == 2 || w == 3;
    let mut r = reads(b);
    if single && r.as_ref().map_or(false, |x| x.0.len() != 1) {
        r = None;
    }
    cx.did("texts read", 1);
    match (got, r) {
        (Got::Text(t), Some(_)) => {
            ensure!(t.as_bytes() == b, "a signature is printed as another one", "{} printed as {:?}{}", show(), t, whence);
            Ok(true)
        }
        (Got::No, None) => {
            cx.probe("a text refused");
            Ok(false)
        }
        (Got::No, Some((_, false))) => Ok(false),
        (Got::No, Some((_, true))) => fail!(if single { "a legal type is refused" } else { "a legal signature is refused" }, "{} by entry point {}{}", show(), w, whence),
        (Got::Text(_), None) => fail!(if single { "a text that is no type is accepted" } else { "a text that is no signature is accepted" }, "{} by entry point {}{}", show(), w, whence),
        (Got::Wrong(e), _) => fail!("a signature is misread", "{} by entry point {}{}: {}", show(), w, whence, cut(&e, 600)),
    }
}

/// As a value, and as the header's signature, of a frame.
fn in_frame(cx: &mut Ctx, b: &[u8]) -> Res {
    let r = reads(b);
    if b.len() > 255 {
        return Ok(());
    }
    // the frame is honest but for the text
    let mut m = MMsg { le: cx.src.flag(), typ: 2, flags: 1, version: 1, serial: 1, f: MFields { reply_serial: Some(1), ..Default::default() }, body: vec![MV::Sig(vec![])] };
    let mut f = ref_encode(&m, &EncOpts::default()).bytes;
    f.truncate(f.len() - 2);
    f.push(b.len() as u8);
    f.extend_from_slice(b);
    f.push(0);
    let n = (b.len() + 2) as u32;
    f[4..8].copy_from_slice(&if m.le { n.to_le_bytes() } else { n.to_be_bytes() });
    let got = cx.lib("decode", || Message::decode(Bytes::from(f)).map_err(|e| format!("{:?}", e)))?;
    cx.did("signatures read from frames", 1);
    let show = || cut(&format!("{:?}", String::from_utf8_lossy(b)), 600);
    match (got, r) {
        (Ok((x, _)), Some((v, _))) => {
            m.body = vec![MV::Sig(v)];
            same(cx, "a signature arrives as another one", &m, &x)
        }
        (Ok((x, _)), None) => fail!("a frame with a text that is no signature is accepted", "{} as {:?}", show(), x.get_body()),
        (Err(_), None) | (Err(_), Some((_, false))) => Ok(()),
        (Err(e), Some((_, true))) => fail!("a frame with a legal signature is refused", "{}: {}", show(), cut(&e, 200)),
    }
}

/// Types as an application makes them: printing either refuses or gives a text that says the same.
fn printing(cx: &mut Ctx, v: &[MT]) -> Res<Option<String>> {
    let can = v.iter().all(|t| {
        let (a, s, d, ok) = t.depth();
        a <= 32 && s <= 32 && d <= 32 && ok
    }) && sig_text(v).len() <= MAX_SIG;
    let must = can && v.iter().all(|t| strict_type(t, false) && sum(t) <= 64);
    let r = cx.lib("from_signature_to_string", || {
        let l: Vec<Type> = v.iter().map(bridge::ty).collect();
        let t = Type::from_signature_to_string(&l);
        let same = l.iter().zip(v).all(|(l, m)| bridge::same_type(m, l));
        (t.map_err(|e| format!("{:?}", e)), same)
    })?;
    cx.did("signatures printed", 1);
    ensure!(r.1, "printing a type changes it", "{:?}", v);
    let show = || cut(&format!("{:?}", v), 600);
    match r.0 {
        Ok(t) => {
            ensure!(can, "a type that cannot be written is printed", "{} as {:?}", show(), cut(&t, 300));
            ensure!(t == sig_text(v), "a type is printed as another one", "{} as {:?}", show(), t);
            Ok(Some(t))
        }
        Err(e) => {
            ensure!(!must, "a type that can be written is refused", "{}: {}", show(), e);
            cx.nontrivial();
            cx.probe("a type that cannot be written");
            Ok(None)
        }
    }
}

fn empty_somewhere(s: &mut Src, t: &mut MT) {
    match t {
        MT::B(_) => *t = MT::Struct(vec![]),
        MT::Arr(x) => empty_somewhere(s, x),
        MT::Struct(v) => {
            if s.chance(1, 3) || v.is_empty() {
                v.clear()
            } else {
                let i = s.idx(v.len());
                empty_somewhere(s, &mut v[i])
            }
        }
        MT::Dict(b) => {
            if s.flag() {
                empty_somewhere(s, &mut b.0)
            } else {
                empty_somewhere(s, &mut b.1)
            }
        }
    }
}

fn damage(cx: &mut Ctx, t: &mut Vec<u8>, other: &[u8]) {
    let s = &mut cx.src;
    let n = t.len();
    let at = s.idx(n + 1);
    let what = match s.idx(9) {
        0 => {
            if at < n {
                t.remove(at);
            }
            "a byte lost"
        }
        1 => {
            let c = *s.pick(b"ybnqiuxtdsogvha(){}a({erm*?@&^z\0 ");
            t.insert(at, c);
            "a byte inserted"
        }
        2 => {
            if at < n {
                t[at] = *s.pick(b"ybnqiuxtdsogvha(){}");
            }
            "a byte replaced"
        }
        3 => {
            if at < n {
                t[at] ^= 1 << s.idx(8);
            }
            "a bit flipped"
        }
        4 => {
            if at < n {
                t[at] = s.below(256) as u8;
            }
            "a byte replaced"
        }
        5 => {
            t.truncate(at);
            "torn write"
        }
        6 => {
            let k = s.idx(other.len() + 1);
            t.truncate(at);
            t.extend_from_slice(&other[k..]);
            "two texts spliced"
        }
        7 => {
            let b = (at + s.urange(1, 30)).min(n);
            let part = t[at.min(b)..b].to_vec();
            for (i, c) in part.into_iter().enumerate() {
                t.insert(b + i, c)
            }
            "a part duplicated"
        }
        _ => {
            // brackets: where all the structure is
            let p: Vec<usize> = (0..n).filter(|i| b"(){}a".contains(&t[*i])).collect();
            if !p.is_empty() {
                let i = p[s.idx(p.len())];
                if s.flag() {
                    t.remove(i);
                } else {
                    t[i] = *s.pick(b"(){}ay");
                }
            }
            "a bracket lost or replaced"
        }
    };
    t.truncate(600);
    cx.fault(what);
}

fn work(req: &[u8]) -> Vec<u8> {
    let w = req[0] as usize;
    match parse(&req[1..], w) {
        Got::No => b"n".to_vec(),
        Got::Text(t) => format!("t{}", t).into_bytes(),
        Got::Wrong(e) => format!("w{}", e).into_bytes(),
    }
}

fn read_back(cx: &mut Ctx, z: Option<&Zygote>, b: &[u8]) -> Res<bool> {
    let w = cx.src.idx(2);
    let got = cx.lib("parsing a signature", || parse(b, w))?;
    let ok = judge(cx, b, w, got.clone(), "")?;
    let v = 2 + cx.src.idx(2);
    let one = cx.lib("parsing a type", || parse(b, v))?;
    judge(cx, b, v, one, "")?;
    if cx.src.chance(1, 3) {
        in_frame(cx, b)?;
    }
    if let Some(z) = z {
        let mut q = vec![w as u8];
        q.extend_from_slice(b);
        let r = fresh(cx, z, "parsing a signature", &q)?;
        cx.nontrivial();
        let t = String::from_utf8_lossy(r.get(1..).unwrap_or(&[])).into_owned();
        let there = match r.first() {
            Some(b't') => Got::Text(t),
            Some(b'n') => Got::No,
            _ => Got::Wrong(t),
        };
        judge(cx, b, w, there.clone(), ", in a fresh process")?;
        ensure!(there == got, "another process reads another signature", "{:?}: here {:?} there {:?}", cut(&String::from_utf8_lossy(b), 400), got, there);
    }
    Ok(ok)
}

fn run(cx: &mut Ctx) -> Res {
    let mut g = G::draw(&mut cx.src, true);
    g.nodes = g.nodes.min(40);
    let z = if cx.src.chance(1, 24) { Some(zygote(cx, &work)) } else { None };
    let mut other: Vec<u8> = b"a{sv}(yas)".to_vec();
    for _ in 0..cx.src.urange(1, 10) {
        let mut v = draw(&mut cx.src, &g);
        if cx.src.chance(1, 10) && !v.is_empty() {
            let i = cx.src.idx(v.len());
            empty_somewhere(&mut cx.src, &mut v[i]);
        }
        let mut text = match printing(cx, &v)? {
            Some(t) => t.into_bytes(),
            // another producer writes it all the same
            None => sig_text(&v).into_bytes(),
        };
        for _ in 0..cx.src.urange(1, 6) {
            cx.now += 1000 * MS;
            cx.ev("stored", &[text.len() as u64]);
            cx.mix_bytes(&text);
            cx.note(|| format!("on disk: {:?}", String::from_utf8_lossy(&text)));
            let zz = if cx.src.flag() { z.as_ref() } else { None };
            if !read_back(cx, zz, &text)? && cx.src.flag() {
                break;
            }
            if cx.src.chance(2, 3) {
                for _ in 0..cx.src.weighted(&[0, 6, 2, 1]) {
                    damage(cx, &mut text, &other);
                }
            }
        }
        other = text;
    }
    cx.sh.sim_ns = cx.now;
    Ok(())
}
