//! C16: a name service on a faulty link and a faulty disk, which admits names and paths.
use super::c10::spell;
use super::damage::bad_text;
use super::util::*;
use super::Prop;
use crate::choice::Src;
use crate::gen::G;
use crate::kernel::*;
use crate::model::*;
use crate::sys::Zygote;
use crate::{ensure, fail};
use bytes::Bytes;
use dbus_message_parser::match_rule::MatchRule;
use dbus_message_parser::message::Message;
use dbus_message_parser::value::*;
use std::collections::BTreeMap;
use std::convert::TryFrom;

pub const PROP: Prop = Prop {
    id: "C16",
    run,
    quick: 250000,
    factor: 24,
    rule: "1-4 clients ask a name service for 4-40 names of seven kinds (bus, unique, well-known, interface, member, error, path) over a link that loses, duplicates, delays, reorders and alters bytes; among the texts are legal ones stretched to 250-260 bytes, spoiled ones, names of another kind and bytes that are no text. The service tries every constructor, or reads the name in a header field of a frame or in a match rule; it keeps what it admits in a journal on a disk that tears, flips and drops bytes, crashes, and reads the journal again in a fresh process. Every admission is judged by the reference grammar, every admitted name must come back unchanged, and it equals another exactly if the texts are equal. Non-trivial: a fault, or a text that must be refused.",
    real: "constructors of Bus, UniqueConnectionName, WellKnownBusName, Interface, Member, Error, ObjectPath from &str, String and &[u8]; AsRef, Display, Into<String>, PartialEq<str>; Message::decode and MatchRule::decode where names arrive in them",
    stub: "clients, network, disk, reference grammar",
    known: None,
};

const KINDS: [&str; 7] = ["bus name", "unique name", "well-known name", "interface", "member", "error name", "object path"];

fn legal(k: usize, b: &[u8]) -> bool {
    let s = match std::str::from_utf8(b) {
        Ok(s) => s,
        Err(_) => return false,
    };
    match k {
        0 => ok_bus(s),
        1 => ok_unique(s),
        2 => ok_bus(s) && !s.starts_with(':'),
        3 => ok_interface(s),
        4 => ok_member(s),
        5 => ok_error(s),
        _ => ok_path(s),
    }
}

fn draw(s: &mut Src, g: &G, k: usize) -> String {
    match k {
        0 => g.bus(s),
        1 => g.unique(s),
        2 => {
            let t = g.bus(s);
            if t.starts_with(':') {
                g.interface(s)
            } else {
                t
            }
        }
        3 | 5 => g.interface(s),
        4 => g.member(s),
        _ => g.path(s),
    }
}

/// A text a client might ask for.
fn wish(cx: &mut Ctx, g: &G, k: usize) -> Vec<u8> {
    let s = &mut cx.src;
    let mut t = if s.chance(1, 8) {
        let j = s.idx(7);
        draw(s, g, j)
    } else {
        draw(s, g, k)
    };
    if s.chance(1, 6) {
        // to the limit or beyond it
        let n = s.urange(250, 260);
        let at = match s.idx(3) {
            0 => t.len(),
            1 => t.len().min(1),
            _ => s.idx(t.len() + 1),
        };
        let dots = s.flag();
        let mut fill = String::new();
        while t.len() + fill.len() < n {
            fill.push(if dots && fill.len() % 2 == 0 { 'k' } else if dots && k != 4 { if k == 6 { '/' } else { '.' } } else { 'z' });
        }
        if fill.ends_with(|c| c == '.' || c == '/') {
            fill.pop();
            fill.push('q');
        }
        t.insert_str(at, &fill);
    }
    for _ in 0..s.weighted(&[6, 3, 1]) {
        bad_text(s, &mut t);
    }
    let mut b = t.into_bytes();
    if s.chance(1, 3) {
        one_byte(s, &mut b);
    }
    b
}

/// Any byte at any place, more often next to the ends and to separators.
fn one_byte(s: &mut Src, b: &mut Vec<u8>) {
    let sep: Vec<usize> = (0..b.len()).filter(|i| b"./:-".contains(&b[*i])).collect();
    let mut at = match s.idx(4) {
        0 => 0,
        1 => b.len(),
        2 if !sep.is_empty() => sep[s.idx(sep.len())] + s.idx(2),
        _ => s.idx(b.len() + 1),
    };
    at = at.min(b.len());
    let c = match s.idx(3) {
        0 => s.below(256) as u8,
        1 => s.below(128) as u8,
        _ => *s.pick(b"./:-_09azAZ@[`{\0 "),
    };
    match s.idx(3) {
        0 => b.insert(at, c),
        1 if at < b.len() => b[at] = c,
        _ if at < b.len() => {
            b.remove(at);
        }
        _ => b.push(c),
    }
}

/// Legal names that are nearly the same.
fn nearly(s: &mut Src, k: usize, t: &str) -> Vec<String> {
    let mut v = vec![t.to_ascii_uppercase(), t.to_ascii_lowercase()];
    let i = s.idx(t.len());
    let mut b = t.as_bytes().to_vec();
    b[i] ^= if s.flag() { 0x20 } else { 1 << s.idx(7) };
    v.extend(String::from_utf8(b));
    v.push(t.replace('-', "_"));
    v.push(t.replace('_', "-"));
    v.push(t[..i].to_string());
    v.push(format!("{}x", t));
    v.push(format!("{}{}", t, if k == 6 { "/a" } else { ".a" }));
    v.retain(|x| legal(k, x.as_bytes()));
    v
}

/// What an admitted name says about itself, or why it contradicts itself.
fn look<T: AsRef<str> + ToString + Into<String> + PartialEq<str> + PartialEq<T> + Clone>(x: T, t: &str) -> Result<(), String> {
    let y = x.clone();
    if x.as_ref() != t {
        return Err(format!("AsRef gives {:?}", cut(x.as_ref(), 300)));
    }
    if x.to_string() != t {
        return Err(format!("Display gives {:?}", cut(&x.to_string(), 300)));
    }
    if !(x == *t) {
        return Err("it is not equal to its own text".into());
    }
    if !(x == y) {
        return Err("it is not equal to its clone".into());
    }
    let z: String = y.into();
    if z != t {
        return Err(format!("Into<String> gives {:?}", cut(&z, 300)));
    }
    Ok(())
}

macro_rules! admit {
    ($t:ident, $b:expr, $w:expr) => {{
        let b: &[u8] = $b;
        let s = std::str::from_utf8(b).ok();
        let r = match ($w, s) {
            (1, Some(s)) => $t::try_from(s).map_err(|e| format!("{} {:?}", e, e)),
            (2, Some(s)) => $t::try_from(s.to_string()).map_err(|e| format!("{} {:?}", e, e)),
            _ => $t::try_from(b).map_err(|e| format!("{} {:?}", e, e)),
        };
        r.map(|x| look(x, s.unwrap_or("")))
    }};
}

/// Admits by constructor number `w` (0 bytes, 1 &str, 2 String).
fn admit(k: usize, b: &[u8], w: usize) -> Result<Result<(), String>, String> {
    match k {
        0 => {
            let r = admit!(Bus, b, w);
            if let Ok(Ok(())) = &r {
                let s = std::str::from_utf8(b).unwrap_or("");
                let v = match Bus::try_from(s) {
                    Ok(Bus::UniqueConnectionName(n)) => n == *s && s.starts_with(':'),
                    Ok(Bus::WellKnownBusName(n)) => n == *s && !s.starts_with(':'),
                    Err(_) => false,
                };
                if !v {
                    return Ok(Err("it is the wrong sort of bus name".into()));
                }
            }
            r
        }
        1 => admit!(UniqueConnectionName, b, w),
        2 => admit!(WellKnownBusName, b, w),
        3 => admit!(Interface, b, w),
        4 => admit!(Member, b, w),
        5 => admit!(Error, b, w),
        _ => admit!(ObjectPath, b, w),
    }
}

macro_rules! equal {
    ($t:ident, $a:expr, $b:expr) => {
        match ($t::try_from($a), $t::try_from($b)) {
            (Ok(x), Ok(y)) => Some((x == y, x == *$b, y == *$a)),
            _ => None,
        }
    };
}
fn equal(k: usize, a: &str, b: &str) -> Option<(bool, bool, bool)> {
    match k {
        0 => equal!(Bus, a, b),
        1 => equal!(UniqueConnectionName, a, b),
        2 => equal!(WellKnownBusName, a, b),
        3 => equal!(Interface, a, b),
        4 => equal!(Member, a, b),
        5 => equal!(Error, a, b),
        _ => equal!(ObjectPath, a, b),
    }
}

fn show(b: &[u8]) -> String {
    cut(&format!("{:?}", String::from_utf8_lossy(b)), 500)
}

fn verdict(cx: &mut Ctx, k: usize, b: &[u8], how: &str, got: Result<Result<(), String>, String>) -> Res<bool> {
    let want = legal(k, b);
    if !want {
        cx.nontrivial();
        cx.probe("a text that must be refused");
    }
    match got {
        Ok(r) => {
            ensure!(want, format!("an ill-formed {} is admitted", KINDS[k]), "{} ({} bytes, by {})", show(b), b.len(), how);
            if let Err(e) = r {
                fail!(format!("an admitted {} is not what was asked for", KINDS[k]), "{} by {}: {}", show(b), how, e);
            }
            Ok(true)
        }
        Err(e) => {
            ensure!(!want, format!("a legal {} is refused", KINDS[k]), "{} ({} bytes, by {}): {}", show(b), b.len(), how, cut(&e, 200));
            Ok(false)
        }
    }
}

/// The service decides about a request.
fn decide(cx: &mut Ctx, k: usize, b: &[u8]) -> Res<bool> {
    cx.did("requests decided", 1);
    let text = std::str::from_utf8(b).ok().map(|s| s.to_string());
    let way = cx.src.weighted(&[6, 2, 2]);
    match (way, &text) {
        (1, Some(t)) => in_frame(cx, k, t)?,
        (2, Some(t)) => in_rule(cx, k, t)?,
        _ => {}
    }
    let w = cx.src.idx(3);
    let got = cx.lib("a name constructor", || admit(k, b, w))?;
    let ok = verdict(cx, k, b, ["&[u8]", "&str", "String"][w], got)?;
    let w2 = (w + 1 + cx.src.idx(2)) % 3;
    let got = cx.lib("a name constructor", || admit(k, b, w2))?;
    let ok2 = verdict(cx, k, b, ["&[u8]", "&str", "String"][w2], got)?;
    ensure!(ok == ok2, "the constructors disagree", "{}", show(b));
    Ok(ok)
}

/// The name arrives in a header field.
fn in_frame(cx: &mut Ctx, k: usize, t: &str) -> Res {
    if t.len() > 5000 {
        return Ok(());
    }
    let mut f = MFields { path: Some("/a".into()), interface: Some("a.b".into()), member: Some("M".into()), ..Default::default() };
    let mut k = k;
    match k {
        0 | 1 | 2 => {
            k = 0;
            if cx.src.flag() {
                f.destination = Some(t.into())
            } else {
                f.sender = Some(t.into())
            }
        }
        3 => f.interface = Some(t.into()),
        4 => f.member = Some(t.into()),
        5 => {
            f.error_name = Some(t.into());
            f.reply_serial = Some(1);
        }
        _ => f.path = Some(t.into()),
    }
    let m = MMsg { le: cx.src.flag(), typ: if k == 5 { 3 } else { 4 }, flags: 1, version: 1, serial: 1, f, body: Vec::new() };
    let o = opts(&mut cx.src);
    let b = ref_encode(&m, &o).bytes;
    let got = cx.lib("decode", || Message::decode(Bytes::from(b)).map(|(x, _)| crate::bridge::same_msg(&m, &x)).map_err(|e| format!("{:?}", e)))?;
    cx.did("names read from frames", 1);
    verdict(cx, k, t.as_bytes(), "a header field", got)?;
    Ok(())
}

/// The name arrives in a match rule.
fn in_rule(cx: &mut Ctx, k: usize, t: &str) -> Res {
    let r = match k {
        0 | 2 => MRule::Sender(t.into()),
        1 => MRule::Destination(t.into()),
        3 => MRule::Interface(t.into()),
        4 => MRule::Member(t.into()),
        6 if cx.src.flag() => MRule::PathNamespace(t.into()),
        6 => MRule::Path(t.into()),
        _ => return Ok(()),
    };
    if t.contains('\0') {
        return Ok(());
    }
    let k = if k == 2 { 0 } else { k };
    let text = format!("{}={}", rule_key(&r), spell(&mut cx.src, t));
    let got = cx.lib("MatchRule::decode", || MatchRule::decode(&text).map(|x| if crate::bridge::back_rules(&x) == [r.clone()] { Ok(()) } else { Err(format!("read {:?}", x)) }).map_err(|e| format!("{:?}", e)))?;
    cx.did("names read from rules", 1);
    verdict(cx, k, t.as_bytes(), &format!("the rule {:?}", cut(&text, 300)), got)?;
    Ok(())
}

/// What the service does when it comes up: it reads its journal, one request per line.
fn work(req: &[u8]) -> Vec<u8> {
    let mut out = Vec::new();
    for l in req.split(|c| *c == b'\n') {
        if l.is_empty() {
            continue;
        }
        let k = (l[0].wrapping_sub(b'0') as usize).min(6);
        for w in 0..3 {
            out.push(match admit(k, &l[1..], w) {
                Ok(Ok(())) => b'y',
                Ok(Err(_)) => b'!',
                Err(_) => b'n',
            });
        }
    }
    out
}

fn restart(cx: &mut Ctx, z: &Zygote, disk: &mut Vec<u8>) -> Res {
    let n = disk.len();
    match cx.src.idx(5) {
        0 => cx.fault("crash with the journal complete"),
        1 => {
            let k = cx.src.idx(n + 1);
            disk.truncate(k);
            cx.fault("torn journal");
        }
        2 => {
            for _ in 0..cx.src.urange(1, 4) {
                if n > 0 {
                    let i = cx.src.idx(n);
                    disk[i] ^= 1 << cx.src.idx(8);
                }
            }
            cx.fault("journal bits flipped");
        }
        3 => {
            let a = cx.src.idx(n + 1);
            let b = (a + cx.src.urange(1, 20)).min(n);
            disk.drain(a..b);
            cx.fault("journal bytes lost");
        }
        _ => {
            for _ in 0..cx.src.urange(1, 3) {
                one_byte(&mut cx.src, disk);
            }
            cx.fault("journal bytes altered");
        }
    }
    cx.mix_bytes(disk);
    let r = fresh(cx, z, "the name constructors", disk)?;
    let mut r = r.chunks(3);
    let mut keep: Vec<u8> = Vec::new();
    for l in disk.split(|c| *c == b'\n') {
        if l.is_empty() {
            continue;
        }
        let k = (l[0].wrapping_sub(b'0') as usize).min(6);
        let a = match r.next() {
            Some(a) if a.len() == 3 => a,
            _ => fail!("HARNESS", "a line without an answer"),
        };
        for (w, a) in a.iter().enumerate() {
            let got = match a {
                b'y' => Ok(Ok(())),
                b'!' => Ok(Err("it is not what was asked for".to_string())),
                _ => Err(String::new()),
            };
            if verdict(cx, k, &l[1..], ["&[u8], after a restart", "&str, after a restart", "String, after a restart"][w], got)? && w == 0 {
                keep.push(b'0' + k as u8);
                keep.extend_from_slice(&l[1..]);
                keep.push(b'\n');
            }
        }
        cx.did("journal lines read again", 1);
    }
    *disk = keep;
    Ok(())
}

enum Ev {
    Ask(usize, u32),
    Arrive(usize, u32, usize, Vec<u8>),
    Crash,
}

fn run(cx: &mut Ctx) -> Res {
    let mut g = G::draw(&mut cx.src, false);
    g.big = g.big.min(400);
    let z = if cx.src.chance(1, 12) { Some(zygote(cx, &work)) } else { None };
    let net = NetCfg::draw(cx);
    let alter = if cx.src.flag() { cx.src.range(2, 30) } else { 0 };
    let nc = cx.src.urange(1, 4);
    let n = cx.src.urange(4, 40) as u32;
    let mut q = Queue::new();
    let mut asked: BTreeMap<u32, (usize, Vec<u8>)> = BTreeMap::new();
    for i in 0..n {
        let at = cx.src.below(20_000) * MS;
        let c = cx.src.idx(nc);
        q.at(at, Ev::Ask(c, i));
    }
    if z.is_some() {
        for _ in 0..cx.src.urange(1, 3) {
            let at = cx.src.below(30_000) * MS;
            q.at(at, Ev::Crash);
        }
    }
    // the names held, and by whom
    let mut held: BTreeMap<(usize, String), usize> = BTreeMap::new();
    let mut disk: Vec<u8> = Vec::new();
    while let Some(e) = q.pop(cx) {
        match e {
            Ev::Ask(c, i) => {
                let (k, b) = match asked.get(&i) {
                    Some(x) => x.clone(),
                    None => {
                        let k = cx.src.idx(7);
                        // often a name close to one that is held
                        let near: Vec<&(usize, String)> = held.keys().collect();
                        let b = if !near.is_empty() && cx.src.chance(1, 5) {
                            let (_, t) = near[cx.src.idx(near.len())];
                            let mut b = t.clone().into_bytes();
                            one_byte(&mut cx.src, &mut b);
                            b
                        } else {
                            wish(cx, &g, k)
                        };
                        asked.insert(i, (k, b.clone()));
                        (k, b)
                    }
                };
                cx.note(|| format!("client {} asks for the {} {}", c, KINDS[k], show(&b)));
                for d in net.deliver(cx) {
                    let mut b = b.clone();
                    if alter > 0 && cx.src.chance(alter, 100) {
                        one_byte(&mut cx.src, &mut b);
                        cx.fault("a request altered on the link");
                    }
                    let at = cx.now + d;
                    q.at(at, Ev::Arrive(c, i, k, b));
                }
            }
            Ev::Arrive(c, i, k, b) => {
                cx.ev("request", &[c as u64, i as u64, k as u64, b.len() as u64]);
                cx.mix_bytes(&b);
                if decide(cx, k, &b)? {
                    let t = match String::from_utf8(b) {
                        Ok(t) => t,
                        Err(_) => fail!("HARNESS", "admitted bytes"),
                    };
                    // is it one that is held, or one that is nearly the same?
                    let mut others: Vec<String> = held.keys().filter(|x| x.0 == k).map(|x| x.1.clone()).collect();
                    others.extend(nearly(&mut cx.src, k, &t));
                    for o in others {
                        let r = cx.lib("comparing names", || equal(k, &t, &o))?;
                        let e = t == o;
                        ensure!(r == Some((e, e, e)), "two names are confused", "{} {:?} and {:?}: {:?}", KINDS[k], cut(&t, 300), cut(&o, 300), r);
                    }
                    disk.push(b'0' + k as u8);
                    disk.extend_from_slice(t.as_bytes());
                    disk.push(b'\n');
                    held.insert((k, t), c);
                }
            }
            Ev::Crash => {
                cx.ev("crash", &[disk.len() as u64]);
                if let Some(z) = &z {
                    restart(cx, z, &mut disk)?;
                    held.clear();
                    for l in disk.split(|c| *c == b'\n') {
                        if !l.is_empty() {
                            let t = String::from_utf8_lossy(&l[1..]).into_owned();
                            held.insert(((l[0] - b'0') as usize, t), 9);
                        }
                    }
                }
            }
        }
    }
    Ok(())
}
