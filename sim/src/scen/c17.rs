//! C17: routers whose tables are keyed by names, paths, types and headers, with crashes, rebuilds
//! and duplicates to filter.
use super::util::*;
use super::Prop;
use crate::bridge;
use crate::choice::Src;
use crate::gen::G;
use crate::kernel::*;
use crate::model::*;
use crate::{ensure, fail};
use bytes::Bytes;
use dbus_message_parser::message::{Message, MessageHeader, MessageHeaderFields};
use dbus_message_parser::value::*;
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::convert::TryFrom;
use std::fmt::Debug;
use std::hash::Hash;

pub const PROP: Prop = Prop {
    id: "C17",
    run,
    quick: 200000,
    factor: 24,
    rule: "a router keeps 1-3 tables, each keyed by one of ten kinds of keys (interface, member, error, path, type, bus, unique and well-known name, header fields, header), among them many that differ in one character, component, field or bit and many that are equal but were made in another way (other constructor, decoded from a frame, generic values). 10-150 insertions, removals and lookups arrive over a link that loses, duplicates, delays and reorders them; the router crashes and builds its tables again in another order, with other hash seeds, in this or a fresh process. Hash tables, ordered tables and sorted lists must agree with a table of the contents. Receivers filter duplicates of messages and values by ==. Equality, order and hash are judged only by their laws and by the contents, never by which order they give. Non-trivial: a fault, a rebuild or equal keys made in different ways.",
    real: "PartialEq, Eq, PartialOrd, Ord, Hash, Clone of the public types",
    stub: "network, crashes, hash seeds, reference tables",
    known: None,
};

// ------------------------------------------------------------ keys and what they contain

/// The contents of a key, comparable as text.
#[derive(Clone, Debug)]
enum Key {
    Text(String),
    Ty(MT),
    Fields(MFields),
    Header(Box<MMsg>),
}
impl Key {
    fn id(&self) -> String {
        match self {
            Key::Text(t) => t.clone(),
            Key::Ty(t) => t.text(),
            Key::Fields(f) => format!("{:?}", f),
            Key::Header(m) => format!("{} {} {} {} {} {:?}", m.le, m.typ, m.flags, m.version, m.serial, m.f),
        }
    }
}

const KINDS: [&str; 10] = ["Interface", "Member", "Error", "ObjectPath", "Type", "Bus", "UniqueConnectionName", "WellKnownBusName", "Fields", "Header"];

fn fits(k: usize, t: &str) -> bool {
    match k {
        0 => ok_interface(t),
        1 => ok_member(t),
        2 => ok_error(t),
        3 => ok_path(t),
        5 => ok_bus(t),
        6 => ok_unique(t),
        _ => ok_bus(t) && !t.starts_with(':'),
    }
}
fn text(s: &mut Src, g: &G, k: usize) -> String {
    match k {
        0 | 2 => g.interface(s),
        1 => g.member(s),
        3 => g.path(s),
        5 => g.bus(s),
        6 => g.unique(s),
        _ => {
            let t = g.bus(s);
            if t.starts_with(':') {
                "a.b".into()
            } else {
                t
            }
        }
    }
}
/// A legal text next to `t`.
fn near_text(s: &mut Src, g: &G, k: usize, t: &str) -> String {
    const C: &[&str] = &["a", "A", "_", "0", ".", "/", "-", "b", "a.b", "/a", ":", "z", "Z"];
    for _ in 0..4 {
        let mut n = t.to_string();
        let i = s.idx(n.len() + 1);
        match s.idx(6) {
            0 => n.insert_str(i, s.pick(C)),
            1 => n.push_str(s.pick(C)),
            2 => {
                n.pop();
            }
            3 if i < n.len() => {
                let c = *s.pick(C);
                n.replace_range(i..i + 1, c)
            }
            4 if i < n.len() => {
                let c = n.as_bytes()[i] as char;
                let c = if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
                n.replace_range(i..i + 1, &c.to_string())
            }
            _ => n.truncate(i),
        }
        if n != t && fits(k, &n) {
            return n;
        }
    }
    text(s, g, k)
}
fn near_type(s: &mut Src, g: &G, t: &MT) -> MT {
    match t {
        MT::B(_) => match s.idx(3) {
            0 => MT::B(g.basic(s)),
            1 => MT::Arr(Box::new(t.clone())),
            _ => MT::Struct(vec![t.clone()]),
        },
        MT::Arr(x) if s.flag() => MT::Arr(Box::new(near_type(s, g, x))),
        MT::Arr(x) => (**x).clone(),
        MT::Struct(v) => {
            let mut v = v.clone();
            let i = s.idx(v.len());
            match s.idx(4) {
                0 => v.push(MT::B(g.basic(s))),
                1 if v.len() > 1 => {
                    v.remove(i);
                }
                2 if v.len() > 1 => v.swap(i, 0),
                _ => v[i] = near_type(s, g, &v[i].clone()),
            }
            MT::Struct(v)
        }
        MT::Dict(b) => {
            let mut b = b.clone();
            match s.idx(3) {
                0 => b.0 = MT::B(*s.pick(b"ybnqiuxtdsog")),
                1 => b.1 = near_type(s, g, &b.1.clone()),
                _ => b = Box::new((b.0, MT::Struct(vec![b.1]))),
            }
            MT::Dict(b)
        }
    }
}
fn near_num(s: &mut Src, x: u32) -> u32 {
    match s.idx(4) {
        0 => x ^ 1 << s.idx(32),
        1 => x.wrapping_add(1),
        2 => x.swap_bytes(),
        _ => s.int(32) as u32,
    }
    .max(1)
}
fn near_fields(s: &mut Src, g: &G, f: &mut MFields) {
    let n = s.idx(9);
    let t = |s: &mut Src, k: usize, x: &Option<String>| match x {
        Some(_) if s.chance(1, 5) => None,
        Some(x) => Some(near_text(s, g, k, x)),
        None => Some(text(s, g, k)),
    };
    match n {
        0 => f.path = t(s, 3, &f.path),
        1 => f.interface = t(s, 0, &f.interface),
        2 => f.member = t(s, 1, &f.member),
        3 => f.error_name = t(s, 2, &f.error_name),
        4 => f.destination = t(s, 5, &f.destination),
        5 => f.sender = t(s, 5, &f.sender),
        6 => f.reply_serial = f.reply_serial.map_or(Some(1), |x| if s.chance(1, 5) { None } else { Some(near_num(s, x)) }),
        7 => f.unix_fds = f.unix_fds.map_or(Some(1), |x| if s.chance(1, 5) { None } else { Some(near_num(s, x)) }),
        _ => std::mem::swap(&mut f.sender, &mut f.destination),
    }
}
/// What the type of a message demands, so that a header can be made.
fn complete(m: &mut MMsg) {
    let f = &mut m.f;
    if matches!(m.typ, 1 | 4) {
        f.path.get_or_insert("/".into());
        f.member.get_or_insert("M".into());
    }
    if m.typ == 4 {
        f.interface.get_or_insert("a.b".into());
    }
    if m.typ == 3 {
        f.error_name.get_or_insert("a.b".into());
    }
    if matches!(m.typ, 2 | 3) {
        f.reply_serial.get_or_insert(1);
    }
}
fn key(s: &mut Src, g: &G, k: usize) -> Key {
    match k {
        4 => Key::Ty(if s.chance(1, 8) { g.tower(s) } else { g.ty(s, 3) }),
        8 => {
            let t = s.range(1, 4) as u8;
            Key::Fields(g.fields(s, t))
        }
        9 => {
            let mut m = g.msg(s);
            m.body.clear();
            m.f.unix_fds = None;
            Key::Header(Box::new(m))
        }
        _ => Key::Text(text(s, g, k)),
    }
}
fn near(s: &mut Src, g: &G, k: usize, x: &Key) -> Key {
    match x {
        Key::Text(t) => Key::Text(near_text(s, g, k, t)),
        Key::Ty(t) => {
            let n = near_type(s, g, t);
            if n.text().len() > 200 || n.depth().0 > 30 || n.depth().1 > 30 {
                Key::Ty(MT::B(b'y'))
            } else {
                Key::Ty(n)
            }
        }
        Key::Fields(f) => {
            let mut f = f.clone();
            near_fields(s, g, &mut f);
            Key::Fields(f)
        }
        Key::Header(m) => {
            let mut m = m.clone();
            match s.idx(8) {
                7 => m.version ^= 1 << s.idx(8),
                0 => m.le = !m.le,
                1 => m.serial = near_num(s, m.serial),
                2 => m.flags ^= 1 << s.idx(3),
                3 => m.typ = s.range(1, 4) as u8,
                _ => near_fields(s, g, &mut m.f),
            }
            complete(&mut m);
            Key::Header(m)
        }
    }
}

// ------------------------------------------------------------ making keys

/// Makes the library's key for some contents, in one of several ways.
trait Make: Sized + Ord + Clone + Debug {
    fn make(k: &Key, way: usize) -> Result<Self, String>;
}
macro_rules! make_text {
    ($t:ident) => {
        impl Make for $t {
            fn make(k: &Key, way: usize) -> Result<Self, String> {
                let t = match k {
                    Key::Text(t) => t,
                    _ => return Err("no text".into()),
                };
                match way {
                    0 => $t::try_from(t.as_str()),
                    1 => $t::try_from(t.clone()),
                    2 => $t::try_from(t.as_bytes()),
                    3 => $t::try_from({
                        let mut s = String::with_capacity(t.len() * 2 + 50);
                        s.push_str(t);
                        s
                    }),
                    _ => $t::try_from(t.as_str()).and_then(|x| $t::try_from(String::from(x))),
                }
                .map_err(|e| format!("{:?}", e))
            }
        }
    };
}
make_text!(Interface);
make_text!(Member);
make_text!(Error);
make_text!(ObjectPath);
make_text!(Bus);
make_text!(UniqueConnectionName);
make_text!(WellKnownBusName);
impl Make for Type {
    fn make(k: &Key, way: usize) -> Result<Self, String> {
        let t = match k {
            Key::Ty(t) => t,
            _ => return Err("no type".into()),
        };
        match way {
            0 => Ok(bridge::ty(t)),
            1 => Type::try_from(t.text().as_str()).map_err(|e| format!("{:?}", e)),
            2 => Type::try_from(t.text().as_bytes()).map_err(|e| format!("{:?}", e)),
            3 => Ok(bridge::ty(t).clone()),
            _ => Type::from_string_to_signature(&t.text()).map_err(|e| format!("{:?}", e)).and_then(|mut v| v.pop().ok_or("no type".into())),
        }
    }
}
impl Make for MessageHeaderFields {
    fn make(k: &Key, way: usize) -> Result<Self, String> {
        let f = match k {
            Key::Fields(f) => f,
            _ => return Err("no fields".into()),
        };
        let r = bridge::fields(f)?;
        match way {
            0 | 1 => Ok(r),
            2 => Ok(r.clone()),
            _ => {
                let mut v: Vec<Value> = r.into();
                v.reverse();
                MessageHeaderFields::try_from(v).map_err(|e| format!("{:?}", e))
            }
        }
    }
}
impl Make for MessageHeader {
    fn make(k: &Key, way: usize) -> Result<Self, String> {
        let m = match k {
            Key::Header(m) => m,
            _ => return Err("no header".into()),
        };
        match way {
            0 | 1 => bridge::header(m),
            2 => bridge::message(m).and_then(|x| x.split().map(|p| p.0).map_err(|e| format!("{:?}", e))),
            _ => {
                // from a frame, with the fields in another order
                let mut o = EncOpts { ..Default::default() };
                o.order = if way == 3 { vec![9, 8, 7, 6, 5, 4, 3, 2, 1] } else { vec![3, 1, 4, 5, 9, 2, 6, 8, 7] };
                // without descriptors, a count in the header cannot be told from a lie
                if m.f.unix_fds.is_some() {
                    return bridge::header(m);
                }
                let b = ref_encode(m, &o).bytes;
                let x = match Message::decode(Bytes::from(b)) {
                    Ok((x, _)) => x,
                    // a receiver may insist on the version
                    Err(_) if m.version != 1 => return bridge::header(m),
                    Err(e) => return Err(format!("{:?}", e)),
                };
                x.split().map(|p| p.0).map_err(|e| format!("{:?}", e))
            }
        }
    }
}

// ------------------------------------------------------------ tables

#[derive(Clone, Debug)]
enum Op {
    Put(usize, usize, u64),
    Del(usize, usize),
    Get(usize, usize),
}

struct Tables<T> {
    tree: BTreeMap<T, u64>,
    list: Vec<(T, u64)>,
}

fn laws<T: Make>(a: &T, b: &T, same: bool) -> Result<(), String> {
    let c = a.cmp(b);
    let d = b.cmp(a);
    if c != d.reverse() {
        return Err(format!("cmp gives {:?} one way and {:?} the other", c, d));
    }
    if a.partial_cmp(b) != Some(c) {
        return Err(format!("cmp gives {:?} and partial_cmp {:?}", c, a.partial_cmp(b)));
    }
    if (c == Ordering::Equal) != (a == b) || (a == b) != (b == a) || (a != b) == (a == b) {
        return Err(format!("cmp gives {:?} and == gives {} and {}", c, a == b, b == a));
    }
    if (a < b) != (c == Ordering::Less) || (a > b) != (c == Ordering::Greater) || (a <= b) == (a > b) || (a >= b) == (a < b) {
        return Err("the comparison operators disagree".into());
    }
    if (a == b) != same {
        return Err(format!("they are {}equal", if a == b { "" } else { "not " }));
    }
    Ok(())
}

fn ordered<T: Make>(cx: &mut Ctx, k: usize, pool: &[Key], ops: &[Op]) -> Res {
    let made = |cx: &mut Ctx, i: usize, way: usize| -> Res<T> { cx.lib("making a key", || T::make(&pool[i], way))?.map_err(|e| class("a valid key cannot be made", format!("{} {}: {}", KINDS[k], cut(&pool[i].id(), 300), e))) };
    let mut t: Tables<T> = Tables { tree: BTreeMap::new(), list: Vec::new() };
    let mut want: BTreeMap<String, u64> = BTreeMap::new();
    for op in ops {
        match *op {
            Op::Put(i, way, v) => {
                let x: T = made(cx, i, way)?;
                let old = want.insert(pool[i].id(), v);
                let got = cx.lib("inserting into a table", || {
                    let at = t.list.binary_search_by(|e| e.0.cmp(&x));
                    match at {
                        Ok(p) => t.list[p].1 = v,
                        Err(p) => t.list.insert(p, (x.clone(), v)),
                    }
                    (t.tree.insert(x, v), at.is_ok())
                })?;
                ensure!(got == (old, old.is_some()), format!("an ordered table of {} takes a key for another", KINDS[k]), "inserting {}: replaced {:?}, expected {:?}", cut(&pool[i].id(), 300), got, old);
            }
            Op::Del(i, way) => {
                let x: T = made(cx, i, way)?;
                let old = want.remove(&pool[i].id());
                let got = cx.lib("removing from a table", || {
                    let p = t.list.binary_search_by(|e| e.0.cmp(&x)).ok();
                    let q = p.map(|p| t.list.remove(p).1);
                    (t.tree.remove(&x), q)
                })?;
                ensure!(got == (old, old), format!("an ordered table of {} loses or confuses a key", KINDS[k]), "removing {}: {:?}, expected {:?}", cut(&pool[i].id(), 300), got, old);
            }
            Op::Get(i, way) => {
                let x: T = made(cx, i, way)?;
                let w = want.get(&pool[i].id()).copied();
                let got = cx.lib("looking into a table", || (t.tree.get(&x).copied(), t.list.binary_search_by(|e| e.0.cmp(&x)).ok().map(|p| t.list[p].1), t.list.iter().find(|e| e.0 == x).map(|e| e.1)))?;
                ensure!(got == (w, w, w), format!("an ordered table of {} loses or confuses a key", KINDS[k]), "looking for {}: {:?}, expected {:?}", cut(&pool[i].id(), 300), got, w);
            }
        }
    }
    // the laws, on pairs and triples
    let n = pool.len();
    for _ in 0..n.min(16) {
        let (i, j, l) = (cx.src.idx(n), cx.src.idx(n), cx.src.idx(n));
        let (a, b, c): (T, T, T) = (made(cx, i, cx_way(i))?, made(cx, j, cx_way(i + j))?, made(cx, l, cx_way(l + j))?);
        let same = pool[i].id() == pool[j].id();
        let r = cx.lib("comparing keys", || {
            laws(&a, &b, same)?;
            if a <= b && b <= c && !(a <= c) || a < b && b < c && !(a < c) {
                return Err(format!("the order is not transitive with {:?}", c));
            }
            Ok(())
        })?;
        if let Err(e) = r {
            fail!(format!("{} is compared inconsistently", KINDS[k]), "{} and {}: {}", cut(&format!("{:?}", a), 400), cut(&format!("{:?}", b), 400), cut(&e, 400));
        }
        cx.did("pairs of keys compared", 1);
    }
    // the router crashes and builds the table again, in another order
    let mut idx: Vec<usize> = (0..n).collect();
    cx.src.shuffle(&mut idx);
    let mut again: Vec<(T, u64)> = Vec::new();
    let mut seen = std::collections::BTreeSet::new();
    for i in idx {
        let id = pool[i].id();
        if let Some(v) = want.get(&id) {
            if seen.insert(id) {
                let w = cx.src.idx(5);
                again.push((made(cx, i, w)?, *v));
            }
        }
    }
    let ok = cx.lib("sorting keys", || {
        again.sort();
        let l: Vec<(T, u64)> = t.tree.iter().map(|(a, b)| (a.clone(), *b)).collect();
        l == again && t.list == again
    })?;
    ensure!(ok, format!("a rebuilt table of {} is in another order", KINDS[k]), "{} entries", again.len());
    cx.did("tables built again", 1);
    Ok(())
}
fn cx_way(x: usize) -> usize {
    x % 5
}

fn hashed<T: Make + Hash>(cx: &mut Ctx, k: usize, pool: &[Key], ops: &[Op]) -> Res {
    let mut t: HashMap<T, u64> = HashMap::new();
    let mut set: HashSet<T> = HashSet::new();
    let mut want: BTreeMap<String, u64> = BTreeMap::new();
    let made = |cx: &mut Ctx, i: usize, way: usize| -> Res<T> { cx.lib("making a key", || T::make(&pool[i], way))?.map_err(|e| class("a valid key cannot be made", format!("{} {}: {}", KINDS[k], cut(&pool[i].id(), 300), e))) };
    for (n, op) in ops.iter().enumerate() {
        let (i, got, w) = match *op {
            Op::Put(i, way, v) => {
                let x: T = made(cx, i, way)?;
                let old = want.insert(pool[i].id(), v);
                let got = cx.lib("inserting into a table", || {
                    set.insert(x.clone());
                    t.insert(x, v)
                })?;
                (i, got, old)
            }
            Op::Del(i, way) => {
                let x: T = made(cx, i, way)?;
                let old = want.remove(&pool[i].id());
                (i, cx.lib("removing from a table", || if set.remove(&x) == old.is_some() { t.remove(&x) } else { Some(u64::MAX) })?, old)
            }
            Op::Get(i, way) => {
                let x: T = made(cx, i, way)?;
                let w = want.get(&pool[i].id()).copied();
                (i, cx.lib("looking into a table", || if set.contains(&x) == w.is_some() { t.get(&x).copied() } else { Some(u64::MAX) })?, w)
            }
        };
        ensure!(got == w, format!("a hash table of {} loses or confuses a key", KINDS[k]), "{:?} of {}: {:?}, expected {:?}", op, cut(&pool[i].id(), 300), got, w);
        if t.len() != want.len() {
            fail!(format!("a hash table of {} loses or confuses a key", KINDS[k]), "{} entries, expected {}", t.len(), want.len());
        }
        if n % 40 == 39 && cx.src.flag() {
            // other seeds: the process is another one
            cx.fault("a crash, and the table built again with other hash seeds");
            let (a, b) = cx.lib("building a table", || (t.drain().collect::<HashMap<T, u64>>(), set.drain().collect::<HashSet<T>>()))?;
            t = a;
            set = b;
        }
    }
    Ok(())
}

fn table(cx: &mut Ctx, k: usize, pool: &[Key], ops: &[Op]) -> Res {
    match k {
        0 => {
            hashed::<Interface>(cx, k, pool, ops)?;
            ordered::<Interface>(cx, k, pool, ops)
        }
        1 => {
            hashed::<Member>(cx, k, pool, ops)?;
            ordered::<Member>(cx, k, pool, ops)
        }
        2 => {
            hashed::<Error>(cx, k, pool, ops)?;
            ordered::<Error>(cx, k, pool, ops)
        }
        3 => {
            hashed::<ObjectPath>(cx, k, pool, ops)?;
            ordered::<ObjectPath>(cx, k, pool, ops)
        }
        4 => {
            hashed::<Type>(cx, k, pool, ops)?;
            ordered::<Type>(cx, k, pool, ops)
        }
        5 => ordered::<Bus>(cx, k, pool, ops),
        6 => ordered::<UniqueConnectionName>(cx, k, pool, ops),
        7 => ordered::<WellKnownBusName>(cx, k, pool, ops),
        8 => ordered::<MessageHeaderFields>(cx, k, pool, ops),
        _ => ordered::<MessageHeader>(cx, k, pool, ops),
    }
}

/// What a fresh process says about the order of keys (texts and types only).
fn work(req: &[u8]) -> Vec<u8> {
    let s = String::from_utf8_lossy(req).into_owned();
    let mut l = s.split('\n');
    let k: usize = l.next().unwrap_or("0").parse().unwrap_or(0);
    let t: Vec<String> = l.map(|x| x.to_string()).collect();
    sorted(k, &t).unwrap_or_else(|e| e).into_bytes()
}
fn sorted(k: usize, t: &[String]) -> Result<String, String> {
    fn go<T: Make + ToString>(k: usize, t: &[String]) -> Result<String, String> {
        let mut v = Vec::new();
        for x in t {
            let key = if k == 4 { Key::Ty(parse_sig(x.as_bytes()).and_then(|mut v| v.pop()).ok_or("?")?) } else { Key::Text(x.clone()) };
            v.push(T::make(&key, 0)?);
        }
        v.sort();
        Ok(v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("\n"))
    }
    match k {
        0 => go::<Interface>(k, t),
        1 => go::<Member>(k, t),
        2 => go::<Error>(k, t),
        3 => go::<ObjectPath>(k, t),
        4 => go::<Type>(k, t),
        5 => go::<Bus>(k, t),
        6 => go::<UniqueConnectionName>(k, t),
        _ => go::<WellKnownBusName>(k, t),
    }
}

// ------------------------------------------------------------ duplicates of messages and values

/// None: the contents leave it open (not-a-number, zeros of both signs).
fn alike(a: &MV, b: &MV) -> Option<bool> {
    let all = |it: &mut dyn Iterator<Item = Option<bool>>| {
        let mut r = Some(true);
        for x in it {
            match x {
                Some(false) => return Some(false),
                None => r = None,
                _ => {}
            }
        }
        r
    };
    match (a, b) {
        (MV::F64(x), MV::F64(y)) => {
            let (f, g) = (f64::from_bits(*x), f64::from_bits(*y));
            if f.is_nan() && g.is_nan() || f == 0.0 && g == 0.0 && x != y {
                None
            } else {
                Some(x == y)
            }
        }
        (MV::Arr(s, x), MV::Arr(t, y)) if s == t && x.len() == y.len() => all(&mut x.iter().zip(y).map(|(x, y)| alike(x, y))),
        (MV::Struct(x), MV::Struct(y)) if x.len() == y.len() => all(&mut x.iter().zip(y).map(|(x, y)| alike(x, y))),
        (MV::Dict(x), MV::Dict(y)) => all(&mut [alike(&x.0, &y.0), alike(&x.1, &y.1)].into_iter()),
        (MV::Var(x), MV::Var(y)) => alike(x, y),
        (a, b) => Some(a == b),
    }
}
fn alike_msg(a: &MMsg, b: &MMsg) -> Option<bool> {
    if (a.le, a.typ, a.flags, a.version, a.serial, &a.f) != (b.le, b.typ, b.flags, b.version, b.serial, &b.f) {
        return Some(false);
    }
    alike(&MV::Struct(a.body.clone()), &MV::Struct(b.body.clone()))
}

fn near_value(s: &mut Src, g: &G, v: &mut MV) {
    match v {
        MV::Byte(x) => *x ^= 1 << s.idx(8),
        MV::Bool(x) => *x = !*x,
        MV::I16(x) => *x ^= 1 << s.idx(16),
        MV::U16(x) => *x ^= 1 << s.idx(16),
        MV::I32(x) => *x ^= 1 << s.idx(32),
        MV::U32(x) => *x ^= 1 << s.idx(32),
        MV::I64(x) => *x ^= 1 << s.idx(64),
        MV::U64(x) => *x ^= 1 << s.idx(64),
        MV::F64(x) => match s.idx(3) {
            0 => *x ^= 1 << s.idx(64),
            1 => *x ^= 1 << 63,
            _ => *x = g.double(s),
        },
        MV::Fd(x) => *x ^= 1,
        MV::Str(t) => match s.idx(4) {
            0 => t.push('x'),
            1 => {
                t.pop();
            }
            _ => {
                // one byte in the middle
                let at: Vec<usize> = (0..8).map(|_| s.idx(t.len().max(1))).filter(|i| t.as_bytes().get(*i).map_or(false, |c| c.is_ascii())).collect();
                match at.first() {
                    Some(i) => {
                        let c = t.as_bytes()[*i];
                        let c = if c.is_ascii_alphabetic() && s.flag() { c ^ 0x20 } else if c == b'y' { b'z' } else { b'y' };
                        t.replace_range(*i..*i + 1, &(c as char).to_string());
                    }
                    None => t.insert(0, 'x'),
                }
            }
        },
        MV::Path(t) => *t = near_text(s, g, 3, t),
        MV::Sig(t) => {
            if t.is_empty() || s.flag() && sig_text(t).len() < 200 {
                t.push(MT::B(b'y'))
            } else {
                t.pop();
            }
        }
        MV::Arr(t, v) => {
            if v.is_empty() {
                *t = if *t == MT::B(b'y') { MT::B(b'i') } else { MT::B(b'y') };
            } else if s.chance(1, 3) {
                v.pop();
            } else if s.chance(1, 3) {
                let (i, j) = (s.idx(v.len()), s.idx(v.len()));
                v.swap(i, j);
            } else if fixed(t) {
                let i = s.idx(v.len());
                near_value(s, g, &mut v[i]);
            }
        }
        MV::Struct(v) => {
            let i = s.idx(v.len());
            near_value(s, g, &mut v[i]);
        }
        MV::Dict(b) => {
            if s.flag() {
                near_value(s, g, &mut b.0)
            } else {
                near_value(s, g, &mut b.1)
            }
        }
        MV::Var(b) => near_value(s, g, b),
    }
}
/// Changing a value of this type does not change its type.
fn fixed(t: &MT) -> bool {
    match t {
        MT::B(_) => true,
        MT::Arr(_) => false,
        MT::Struct(v) => v.iter().all(fixed),
        MT::Dict(b) => fixed(&b.0) && fixed(&b.1),
    }
}

fn partial<T: PartialOrd>(a: &T, b: &T, same: Option<bool>) -> Result<(), String> {
    let c = a.partial_cmp(b);
    let d = b.partial_cmp(a);
    if c != d.map(|x| x.reverse()) {
        return Err(format!("partial_cmp gives {:?} one way and {:?} the other", c, d));
    }
    if (c == Some(Ordering::Equal)) != (a == b) || (a == b) != (b == a) || (a != b) == (a == b) {
        return Err(format!("partial_cmp gives {:?} and == gives {} and {}", c, a == b, b == a));
    }
    if (a < b) != (c == Some(Ordering::Less)) || (a > b) != (c == Some(Ordering::Greater)) {
        return Err("the comparison operators disagree".into());
    }
    if let Some(w) = same {
        if (a == b) != w {
            return Err(format!("they are {}equal", if a == b { "" } else { "not " }));
        }
    }
    Ok(())
}

fn duplicates(cx: &mut Ctx, g: &G) -> Res {
    let mut n = cx.src.urange(2, 10);
    let mut g = g.clone();
    let mut large = false;
    if cx.src.chance(1, 30) {
        rarely_big(&mut cx.src, &mut g, 1);
        g.huge = cx.src.dict.nums.iter().filter(|n| **n > 3000 && **n <= 140_000).map(|n| *n as usize).collect();
        g.body_max = g.body_max.min(2);
        n = n.min(4);
        large = cx.src.flag();
    }
    let g = &g;
    let mut pool: Vec<MMsg> = Vec::new();
    for _ in 0..n {
        let m = if pool.is_empty() || cx.src.chance(1, 3) {
            let mut m = g.msg(&mut cx.src);
            if large && m.sig().len() + 3 < MAX_SIG {
                let s = &mut cx.src;
                let (t, n) = if s.flag() { (b'y', s.size(8000, 70_000)) } else { (g.basic(s), s.size(300, 9000)) };
                let t = MT::B(t);
                let mut left = n;
                let small = G { big: 24, huge: Vec::new(), ..g.clone() };
                let a = (0..n).map(|_| if t == MT::B(b'y') { MV::Byte(s.below(4) as u8) } else { small.value(s, &t, &mut left, 0) }).collect();
                m.body.push(MV::Arr(t, a));
            }
            m.f.unix_fds = m.must_declare();
            m
        } else {
            let mut m = pool[cx.src.idx(pool.len())].clone();
            let s = &mut cx.src;
            if !m.body.is_empty() && s.chance(2, 3) {
                let i = if large { m.body.len() - 1 } else { s.idx(m.body.len()) };
                near_value(s, g, &mut m.body[i]);
            } else if s.flag() {
                m.serial = near_num(s, m.serial);
            } else {
                near_fields(s, g, &mut m.f);
                complete(&mut m);
            }
            m.f.unix_fds = m.must_declare();
            m
        };
        if m.sig().len() <= MAX_SIG {
            pool.push(m);
        }
    }
    let net = NetCfg::draw(cx);
    let mut q = Queue::new();
    for i in 0..pool.len() {
        for _ in 0..cx.src.urange(1, 3) {
            let at = cx.src.below(1000) * MS;
            for d in net.deliver(cx) {
                q.at(at + d, i);
            }
        }
    }
    let mut seen: Vec<(usize, Message)> = Vec::new();
    while let Some(i) = q.pop(cx) {
        let m = &pool[i];
        let o = EncOpts { order: order(&mut cx.src), ..Default::default() };
        let f = ref_encode(m, &o);
        let fds = f.fds.clone();
        let v = view(&mut cx.src, &f.bytes);
        let x = match dec(cx, v, Some(&fds))? {
            Ok((x, _, _)) => x,
            Err(e) => fail!("a valid frame is refused", "{} for {}", cut(&format!("{:?}", e), 200), describe(m)),
        };
        cx.ev("arrives", &[i as u64, seen.len() as u64]);
        for (j, y) in &seen {
            let w = alike_msg(m, &pool[*j]);
            let r = cx.lib("comparing messages", || {
                partial(&x, y, w)?;
                for (a, b) in x.get_body().iter().zip(y.get_body()) {
                    partial(a, b, None)?;
                }
                Ok::<(), String>(())
            })?;
            if let Err(e) = r {
                fail!("duplicates of messages are not told from other messages", "{}\n and {}\n {}", describe(m), describe(&pool[*j]), e);
            }
            cx.did("pairs of messages compared", 1);
        }
        for (a, b) in m.body.iter().zip(x.get_body()) {
            // values made by hand are the ones that were received
            let v = match cx.lib("making a value", || bridge::value(a))? {
                Ok(v) => v,
                Err(e) => fail!("a valid value cannot be made", "{}", e),
            };
            let w = alike(a, a);
            let c = b.clone();
            let r = cx.lib("comparing values", || partial(&v, b, w).and_then(|_| partial(&c, &v, w)))?;
            if let Err(e) = r {
                fail!("a received value differs from the same value made here", "{}: {}", cut(&format!("{:?}", a), 500), e);
            }
        }
        // values of a kind are ordered
        if seen.len() > 1 {
            let (a, b) = (cx.src.idx(seen.len()), cx.src.idx(seen.len()));
            let (a, b) = (&seen[a].1, &seen[b].1);
            let t = cx.lib("comparing messages", || x < *a && *a < *b && !(x < *b) || x <= *a && *a <= *b && !(x <= *b))?;
            ensure!(!t, "the order of messages is not transitive", "{}", describe(m));
        }
        seen.push((i, x));
    }
    Ok(())
}

fn run(cx: &mut Ctx) -> Res {
    let mut g = G::draw(&mut cx.src, true);
    tame(&mut g);
    g.big = g.big.min(300);
    g.nodes = g.nodes.min(20);
    let z = if cx.src.chance(1, 24) { Some(zygote(cx, &work)) } else { None };
    if cx.src.chance(1, 3) {
        duplicates(cx, &g)?;
    }
    let net = NetCfg::draw(cx);
    for _ in 0..cx.src.urange(1, 3) {
        let k = cx.src.idx(10);
        let n = cx.src.size(8, 60).max(2);
        let mut pool = vec![key(&mut cx.src, &g, k)];
        while pool.len() < n {
            let x = if cx.src.chance(1, 3) {
                key(&mut cx.src, &g, k)
            } else {
                let i = cx.src.idx(pool.len());
                let x = pool[i].clone();
                near(&mut cx.src, &g, k, &x)
            };
            pool.push(x);
        }
        let mut q = Queue::new();
        let many = cx.src.urange(10, 150);
        for v in 0..many as u64 {
            let (i, w) = (cx.src.idx(n), cx.src.idx(5));
            let op = match cx.src.weighted(&[4, 1, 4]) {
                0 => Op::Put(i, w, v),
                1 => Op::Del(i, w),
                _ => Op::Get(i, w),
            };
            for d in net.deliver(cx) {
                q.at(v * MS + d, op.clone());
            }
        }
        let mut ops = Vec::new();
        while let Some(op) = q.pop(cx) {
            let a = match op {
                Op::Put(i, w, v) => [0, i as u64, w as u64, v],
                Op::Del(i, w) => [1, i as u64, w as u64, 0],
                Op::Get(i, w) => [2, i as u64, w as u64, 0],
            };
            cx.ev("request", &a);
            ops.push(op);
        }
        cx.mix(k as u64);
        for x in &pool {
            cx.mix_bytes(x.id().as_bytes());
        }
        cx.nontrivial();
        cx.did("requests to tables", ops.len() as u64);
        cx.note(|| format!("table of {}: {}", KINDS[k], cut(&format!("{:?}", pool), 1500)));
        table(cx, k, &pool, &ops)?;
        if let (Some(z), true) = (&z, k < 8) {
            let t: Vec<String> = pool.iter().map(|x| x.id()).collect();
            let here = match cx.lib("sorting keys", || sorted(k, &t))? {
                Ok(x) => x,
                Err(e) => fail!("a valid key cannot be made", "{}", e),
            };
            let mut u = t.clone();
            cx.src.shuffle(&mut u);
            let there = fresh(cx, z, "sorting keys", format!("{}\n{}", k, u.join("\n")).as_bytes())?;
            ensure!(here.as_bytes() == &there[..], format!("another process has {} in another order", KINDS[k]), "{:?}\n and {:?}", cut(&here, 600), cut(&String::from_utf8_lossy(&there), 600));
        }
    }
    cx.sh.sim_ns = cx.sh.sim_ns.max(cx.now);
    Ok(())
}
