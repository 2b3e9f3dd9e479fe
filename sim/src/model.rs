//! An independent implementation of the D-Bus wire format, names, match rules and replies,
//! written from the specification.  It is the oracle and the "foreign" peer of the simulations
//! and shares no code with the library.

pub const MAX_MSG: usize = 128 << 20;
pub const MAX_ARRAY: usize = 64 << 20;
pub const MAX_SIG: usize = 255;
pub const MAX_NAME: usize = 255;
pub const MAX_VARIANT: usize = 4;
/// What the reference decoder reads: the library's own limit, but for peers without it more.
pub static VARIANTS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(MAX_VARIANT);

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum MT {
    /// one of "ybnqiuxtdsogvh"
    B(u8),
    Arr(Box<MT>),
    Struct(Vec<MT>),
    Dict(Box<(MT, MT)>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum MV {
    Byte(u8),
    Bool(bool),
    I16(i16),
    U16(u16),
    I32(i32),
    U32(u32),
    I64(i64),
    U64(u64),
    /// bit pattern
    F64(u64),
    Str(String),
    Path(String),
    Sig(Vec<MT>),
    Fd(i32),
    Arr(MT, Vec<MV>),
    Struct(Vec<MV>),
    Dict(Box<(MV, MV)>),
    Var(Box<MV>),
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct MFields {
    pub path: Option<String>,
    pub interface: Option<String>,
    pub member: Option<String>,
    pub error_name: Option<String>,
    pub reply_serial: Option<u32>,
    pub destination: Option<String>,
    pub sender: Option<String>,
    pub unix_fds: Option<u32>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct MMsg {
    pub le: bool,
    pub typ: u8,
    pub flags: u8,
    pub version: u8,
    pub serial: u32,
    pub f: MFields,
    pub body: Vec<MV>,
}

impl MT {
    pub fn write(&self, s: &mut String) {
        match self {
            MT::B(c) => s.push(*c as char),
            MT::Arr(t) => {
                s.push('a');
                t.write(s)
            }
            MT::Struct(v) => {
                s.push('(');
                for t in v {
                    t.write(s)
                }
                s.push(')')
            }
            MT::Dict(b) => {
                s.push('{');
                b.0.write(s);
                b.1.write(s);
                s.push('}')
            }
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }
    pub fn align(&self) -> usize {
        match self {
            MT::B(c) => match c {
                b'y' | b'g' | b'v' => 1,
                b'n' | b'q' => 2,
                b'x' | b't' | b'd' => 8,
                _ => 4,
            },
            MT::Arr(_) => 4,
            _ => 8,
        }
    }
    /// (array, struct, dict) nesting depth and whether the type can be written at all
    pub fn depth(&self) -> (usize, usize, usize, bool) {
        match self {
            MT::B(_) => (0, 0, 0, true),
            MT::Arr(t) => {
                let (a, s, d, ok) = t.depth();
                (a + 1, s, d, ok)
            }
            MT::Struct(v) => {
                let mut r = (0, 0, 0, !v.is_empty());
                for t in v {
                    let x = t.depth();
                    r = (r.0.max(x.0), r.1.max(x.1), r.2.max(x.2), r.3 && x.3);
                }
                (r.0, r.1 + 1, r.2, r.3)
            }
            MT::Dict(b) => {
                let x = b.0.depth();
                let y = b.1.depth();
                (x.0.max(y.0), x.1.max(y.1), x.2.max(y.2) + 1, x.3 && y.3)
            }
        }
    }
    pub fn nodes(&self) -> usize {
        match self {
            MT::B(_) => 1,
            MT::Arr(t) => 1 + t.nodes(),
            MT::Struct(v) => 1 + v.iter().map(|t| t.nodes()).sum::<usize>(),
            MT::Dict(b) => 1 + b.0.nodes() + b.1.nodes(),
        }
    }
    pub fn basic(&self) -> bool {
        matches!(self, MT::B(c) if *c != b'v')
    }
}

pub fn sig_text(v: &[MT]) -> String {
    let mut s = String::new();
    for t in v {
        t.write(&mut s)
    }
    s
}

impl MV {
    pub fn ty(&self) -> MT {
        match self {
            MV::Byte(_) => MT::B(b'y'),
            MV::Bool(_) => MT::B(b'b'),
            MV::I16(_) => MT::B(b'n'),
            MV::U16(_) => MT::B(b'q'),
            MV::I32(_) => MT::B(b'i'),
            MV::U32(_) => MT::B(b'u'),
            MV::I64(_) => MT::B(b'x'),
            MV::U64(_) => MT::B(b't'),
            MV::F64(_) => MT::B(b'd'),
            MV::Str(_) => MT::B(b's'),
            MV::Path(_) => MT::B(b'o'),
            MV::Sig(_) => MT::B(b'g'),
            MV::Fd(_) => MT::B(b'h'),
            MV::Arr(t, _) => MT::Arr(Box::new(t.clone())),
            MV::Struct(v) => MT::Struct(v.iter().map(|x| x.ty()).collect()),
            MV::Dict(b) => MT::Dict(Box::new((b.0.ty(), b.1.ty()))),
            MV::Var(_) => MT::B(b'v'),
        }
    }
    pub fn fds(&self, out: &mut Vec<i32>) {
        match self {
            MV::Fd(f) => {
                if !out.contains(f) {
                    out.push(*f)
                }
            }
            MV::Arr(_, v) | MV::Struct(v) => v.iter().for_each(|x| x.fds(out)),
            MV::Dict(b) => {
                b.0.fds(out);
                b.1.fds(out)
            }
            MV::Var(b) => b.fds(out),
            _ => {}
        }
    }
    pub fn variant_depth(&self) -> usize {
        match self {
            MV::Arr(_, v) | MV::Struct(v) => v.iter().map(|x| x.variant_depth()).max().unwrap_or(0),
            MV::Dict(b) => b.0.variant_depth().max(b.1.variant_depth()),
            MV::Var(b) => 1 + b.variant_depth(),
            _ => 0,
        }
    }
    pub fn nodes(&self) -> usize {
        match self {
            MV::Arr(_, v) | MV::Struct(v) => 1 + v.iter().map(|x| x.nodes()).sum::<usize>(),
            MV::Dict(b) => 1 + b.0.nodes() + b.1.nodes(),
            MV::Var(b) => 1 + b.nodes(),
            _ => 1,
        }
    }
}

impl MMsg {
    pub fn sig(&self) -> String {
        let mut s = String::new();
        for v in &self.body {
            v.ty().write(&mut s)
        }
        s
    }
    pub fn body_fds(&self) -> Vec<i32> {
        let mut o = Vec::new();
        for v in &self.body {
            v.fds(&mut o)
        }
        o
    }
    /// What its sender has to declare: the number of distinct descriptors of the body.
    pub fn must_declare(&self) -> Option<u32> {
        let mut d: Vec<i32> = Vec::new();
        for f in self.body_fds() {
            if !d.contains(&f) {
                d.push(f)
            }
        }
        if d.is_empty() { None } else { Some(d.len() as u32) }
    }
}

// ---------------------------------------------------------------- names

fn al(c: u8) -> bool {
    c.is_ascii_alphabetic() || c == b'_'
}

fn dotted(s: &[u8], first_digit: bool, hyphen: bool) -> bool {
    let mut n = 0;
    for e in s.split(|c| *c == b'.') {
        n += 1;
        if e.is_empty() {
            return false;
        }
        if !first_digit && e[0].is_ascii_digit() {
            return false;
        }
        if !e
            .iter()
            .all(|c| al(*c) || c.is_ascii_digit() || (hyphen && *c == b'-'))
        {
            return false;
        }
    }
    n >= 2
}

pub fn ok_interface(s: &str) -> bool {
    s.len() <= MAX_NAME && dotted(s.as_bytes(), false, false)
}
pub fn ok_error(s: &str) -> bool {
    ok_interface(s)
}
pub fn ok_member(s: &str) -> bool {
    let b = s.as_bytes();
    !b.is_empty()
        && b.len() <= MAX_NAME
        && !b[0].is_ascii_digit()
        && b.iter().all(|c| al(*c) || c.is_ascii_digit())
}
pub fn ok_unique(s: &str) -> bool {
    s.len() <= MAX_NAME && s.starts_with(':') && dotted(&s.as_bytes()[1..], true, true)
}
pub fn ok_bus(s: &str) -> bool {
    if s.starts_with(':') {
        ok_unique(s)
    } else {
        s.len() <= MAX_NAME && dotted(s.as_bytes(), false, true)
    }
}
pub fn ok_path(s: &str) -> bool {
    if s == "/" {
        return true;
    }
    let b = s.as_bytes();
    if b.is_empty() || b[0] != b'/' {
        return false;
    }
    b[1..]
        .split(|c| *c == b'/')
        .all(|e| !e.is_empty() && e.iter().all(|c| al(*c) || c.is_ascii_digit()))
}

// ---------------------------------------------------------------- signatures

fn one_type(b: &[u8], p: &mut usize, a: usize, s: usize, d: usize) -> Option<MT> {
    if a > 32 || s > 32 || d > 32 {
        return None;
    }
    let c = *b.get(*p)?;
    *p += 1;
    match c {
        b'a' => Some(MT::Arr(Box::new(one_type(b, p, a + 1, s, d)?))),
        b'(' => {
            let mut v = Vec::new();
            while *b.get(*p)? != b')' {
                v.push(one_type(b, p, a, s + 1, d)?);
            }
            *p += 1;
            if v.is_empty() {
                None
            } else {
                Some(MT::Struct(v))
            }
        }
        b'{' => {
            let k = one_type(b, p, a, s, d + 1)?;
            let v = one_type(b, p, a, s, d + 1)?;
            if *b.get(*p)? != b'}' {
                return None;
            }
            *p += 1;
            Some(MT::Dict(Box::new((k, v))))
        }
        c if b"ybnqiuxtdsogvh".contains(&c) => Some(MT::B(c)),
        _ => None,
    }
}

/// Parses a signature under the library's published limits (array, struct and dict depth 32
/// each, 255 bytes).
pub fn parse_sig(b: &[u8]) -> Option<Vec<MT>> {
    if b.len() > MAX_SIG {
        return None;
    }
    let mut p = 0;
    let mut v = Vec::new();
    while p < b.len() {
        v.push(one_type(b, &mut p, 0, 0, 0)?);
    }
    Some(v)
}

/// Dict entries must be the element of an array and have a basic key (the library is lenient).
pub fn strict_type(t: &MT, in_array: bool) -> bool {
    match t {
        MT::B(_) => true,
        MT::Arr(t) => strict_type(t, true),
        MT::Struct(v) => v.iter().all(|t| strict_type(t, false)),
        MT::Dict(b) => in_array && b.0.basic() && strict_type(&b.1, false),
    }
}

// ---------------------------------------------------------------- encoder

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K {
    Endian,
    MsgType,
    Flags,
    Version,
    BodyLen,
    Serial,
    HdrLen,
    Code,
    SigLen,
    Sig,
    Nul,
    StrLen,
    Str,
    Bool,
    Pad,
    ArrLen,
    Num,
    FdIdx,
}

#[derive(Clone, Copy, Debug)]
pub struct Span {
    pub at: usize,
    pub len: usize,
    pub k: K,
}

pub struct Enc {
    pub b: Vec<u8>,
    pub le: bool,
    pub fds: Vec<i32>,
    pub spans: Vec<Span>,
    pub want_spans: bool,
    pub lie: Option<Lie>,
    /// how often each place for a lie was passed
    pub seen: [usize; LIES],
}

/// Places where a dishonest encoder departs from the layout while everything around stays
/// consistent.
pub const LIES: usize = 9;
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum At {
    Sig,
    Str,
    Nul,
    Pad,
    Bool,
    ArrLen,
    Value,
    Field,
    StrLen,
}
#[derive(Clone, Copy, Debug)]
pub struct Lie {
    pub at: At,
    pub nth: usize,
    pub x: u64,
}
const SIG_CHARS: &[u8] = b"ybnqiuxtdsoghva(){}\0zr";

/// Another text of a signature.
fn lied_sig(t: &[u8], x: u64) -> Vec<u8> {
    let mut v = t.to_vec();
    let c = SIG_CHARS[(x >> 8) as usize % SIG_CHARS.len()];
    let i = (x >> 16) as usize;
    match x % 10 {
        0 => v.extend_from_slice(t),
        1 => {
            v.extend_from_slice(t);
            v.extend_from_slice(t)
        }
        2 => v.push(c),
        3 => v.insert(0, c),
        4 if !v.is_empty() => {
            let n = v.len();
            v[i % n] = c
        }
        5 if !v.is_empty() => {
            v.remove(i % t.len());
        }
        6 => {
            v.insert(0, b'(');
            v.push(b')')
        }
        7 => v.insert(i % (t.len() + 1), c),
        8 => v.clear(),
        _ => v = vec![c],
    }
    v.truncate(255);
    v
}
fn lied_str(t: &[u8], x: u64) -> Vec<u8> {
    let mut v = t.to_vec();
    let c = [b'/', b'.', b':', b'-', b'0', b'_', b'A', 0x80, 0xc3, 0xff, 0, b' '][(x >> 8) as usize % 12];
    let i = (x >> 16) as usize;
    match x % 7 {
        0 => v.push(c),
        1 => v.insert(0, c),
        2 if !v.is_empty() => {
            let n = v.len();
            v[i % n] = c
        }
        3 if !v.is_empty() => {
            v.remove(i % t.len());
        }
        4 => v.extend_from_slice(t),
        5 => v.clear(),
        _ => v.insert(i % (t.len() + 1), c),
    }
    v
}

impl Enc {
    pub fn new(le: bool, want_spans: bool) -> Enc {
        Enc { b: Vec::new(), le, fds: Vec::new(), spans: Vec::new(), want_spans, lie: None, seen: [0; LIES] }
    }
    /// What to do differently here, if anything.
    fn lie(&mut self, at: At) -> Option<u64> {
        let i = at as usize;
        self.seen[i] += 1;
        match self.lie {
            Some(l) if l.at == at && l.nth + 1 == self.seen[i] => Some(l.x),
            _ => None,
        }
    }
    fn sp(&mut self, n: usize, k: K) {
        if self.want_spans {
            self.spans.push(Span { at: self.b.len(), len: n, k });
        }
    }
    pub fn pad(&mut self, a: usize) {
        let n = (a - self.b.len() % a) % a;
        if n > 0 {
            self.sp(n, K::Pad);
            let at = self.b.len();
            self.b.resize(at + n, 0);
            match self.lie(At::Pad) {
                None => {}
                Some(x) => match x % 3 {
                    0 => self.b[at + (x >> 8) as usize % n] = 1 << ((x >> 16) % 8),
                    1 => self.b.truncate(at),
                    _ => self.b.resize(at + n + 8, 0),
                },
            }
        }
    }
    pub fn u16(&mut self, x: u16) {
        self.pad(2);
        self.sp(2, K::Num);
        let y = if self.le { x.to_le_bytes() } else { x.to_be_bytes() };
        self.b.extend(y);
    }
    pub fn u32(&mut self, x: u32, k: K) {
        self.pad(4);
        self.sp(4, k);
        let y = if self.le { x.to_le_bytes() } else { x.to_be_bytes() };
        self.b.extend(y);
    }
    pub fn u64(&mut self, x: u64) {
        self.pad(8);
        self.sp(8, K::Num);
        let y = if self.le { x.to_le_bytes() } else { x.to_be_bytes() };
        self.b.extend(y);
    }
    pub fn byte(&mut self, x: u8, k: K) {
        self.sp(1, k);
        self.b.push(x);
    }
    pub fn str(&mut self, s: &[u8]) {
        let other = self.lie(At::Str).map(|x| lied_str(s, x));
        let s = other.as_deref().unwrap_or(s);
        let n = match self.lie(At::StrLen) {
            Some(x) => (s.len() as u32).wrapping_add((x % 9) as u32).wrapping_sub(4),
            None => s.len() as u32,
        };
        self.u32(n, K::StrLen);
        self.sp(s.len(), K::Str);
        self.b.extend(s);
        self.nul();
    }
    pub fn sig(&mut self, s: &[u8]) {
        let other = self.lie(At::Sig).map(|x| lied_sig(s, x));
        let s = other.as_deref().unwrap_or(s);
        self.byte(s.len() as u8, K::SigLen);
        self.sp(s.len(), K::Sig);
        self.b.extend(s);
        self.nul();
    }
    fn nul(&mut self) {
        match self.lie(At::Nul) {
            Some(x) if x % 3 == 0 => {}
            Some(x) => self.byte((x >> 8) as u8, K::Nul),
            None => self.byte(0, K::Nul),
        }
    }
    pub fn value(&mut self, v: &MV) {
        if let Some(x) = self.lie(At::Value) {
            match x % 4 {
                // not there, twice, or something in front
                0 => return,
                1 => self.value(v),
                2 => self.b.extend(vec![0; 1 + (x >> 8) as usize % 8]),
                _ => self.b.extend((x >> 8).to_le_bytes()),
            }
        }
        match v {
            MV::Byte(x) => self.byte(*x, K::Num),
            MV::Bool(x) => {
                let y = self.lie(At::Bool).map(|x| if x % 3 == 0 { (x >> 8) as u32 } else { 1 << ((x >> 8) % 32) }).unwrap_or(*x as u32);
                self.u32(y, K::Bool)
            }
            MV::I16(x) => self.u16(*x as u16),
            MV::U16(x) => self.u16(*x),
            MV::I32(x) => self.u32(*x as u32, K::Num),
            MV::U32(x) => self.u32(*x, K::Num),
            MV::I64(x) => self.u64(*x as u64),
            MV::U64(x) => self.u64(*x),
            MV::F64(x) => self.u64(*x),
            MV::Str(s) | MV::Path(s) => self.str(s.as_bytes()),
            MV::Sig(t) => self.sig(sig_text(t).as_bytes()),
            MV::Fd(f) => {
                let i = match self.fds.iter().position(|x| x == f) {
                    Some(i) => i,
                    None => {
                        self.fds.push(*f);
                        self.fds.len() - 1
                    }
                };
                self.u32(i as u32, K::FdIdx)
            }
            MV::Arr(t, v) => {
                self.u32(0, K::ArrLen);
                let at = self.b.len() - 4;
                self.pad(t.align());
                let start = self.b.len();
                if let (MT::B(b'y'), false) = (t, self.want_spans) {
                    for x in v {
                        if let MV::Byte(x) = x {
                            self.b.push(*x)
                        }
                    }
                } else {
                    for x in v {
                        self.value(x)
                    }
                }
                let mut n = (self.b.len().saturating_sub(start)) as u32;
                if let Some(x) = self.lie(At::ArrLen) {
                    n = n.wrapping_add([1u32, 2, 4, 8, 16, u32::MAX, u32::MAX - 1, u32::MAX - 3, u32::MAX - 7, u32::MAX - 15][(x % 10) as usize]);
                }
                let y = if self.le { n.to_le_bytes() } else { n.to_be_bytes() };
                self.b[at..at + 4].copy_from_slice(&y);
            }
            MV::Struct(v) => {
                self.pad(8);
                for x in v {
                    self.value(x)
                }
            }
            MV::Dict(b) => {
                self.pad(8);
                self.value(&b.0);
                self.value(&b.1)
            }
            MV::Var(b) => {
                self.sig(b.ty().text().as_bytes());
                self.value(b)
            }
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct EncOpts {
    /// order of the header field codes; codes not listed are appended in ascending order
    pub order: Vec<u8>,
    /// emit an (empty) signature field although the body is empty
    pub empty_sig: bool,
    /// declare this many descriptors (at least those used); the extra ones are appended
    pub fds: Option<Vec<i32>>,
    pub spans: bool,
    /// in the header, in the body
    pub lies: [Option<Lie>; 2],
}

pub struct Frame {
    pub bytes: Vec<u8>,
    pub fds: Vec<i32>,
    pub spans: Vec<Span>,
    pub seen: [[usize; LIES]; 2],
}

/// Marshals a message as an independent peer would.
pub fn ref_encode(m: &MMsg, o: &EncOpts) -> Frame {
    let mut body = Enc::new(m.le, o.spans);
    body.lie = o.lies[1];
    if let Some(f) = &o.fds {
        body.fds = f.clone();
    }
    for v in &m.body {
        body.value(v)
    }
    let fds = body.fds;
    let unix_fds = if fds.is_empty() { m.f.unix_fds } else { Some(fds.len() as u32) };
    let mut h = Enc::new(m.le, o.spans);
    h.lie = o.lies[0];
    h.byte(if m.le { b'l' } else { b'B' }, K::Endian);
    h.byte(m.typ, K::MsgType);
    h.byte(m.flags, K::Flags);
    h.byte(m.version, K::Version);
    h.u32(body.b.len() as u32, K::BodyLen);
    h.u32(m.serial, K::Serial);
    h.u32(0, K::HdrLen);
    let mut order = o.order.clone();
    for c in 1..=9 {
        if !order.contains(&c) {
            order.push(c)
        }
    }
    let sig = m.sig();
    for c in order {
        let (ty, val): (&str, Option<MV>) = match c {
            1 => ("o", m.f.path.clone().map(MV::Path)),
            2 => ("s", m.f.interface.clone().map(MV::Str)),
            3 => ("s", m.f.member.clone().map(MV::Str)),
            4 => ("s", m.f.error_name.clone().map(MV::Str)),
            5 => ("u", m.f.reply_serial.map(MV::U32)),
            6 => ("s", m.f.destination.clone().map(MV::Str)),
            7 => ("s", m.f.sender.clone().map(MV::Str)),
            8 => (
                "g",
                if !sig.is_empty() || o.empty_sig { Some(MV::Sig(Vec::new())) } else { None },
            ),
            9 => ("u", unix_fds.map(MV::U32)),
            _ => ("", None),
        };
        if let Some(v) = val {
            let times = match h.lie(At::Field) {
                Some(x) if x % 2 == 0 => 0,
                Some(_) => 2,
                None => 1,
            };
            for _ in 0..times {
                h.pad(8);
                h.byte(c, K::Code);
                h.sig(ty.as_bytes());
                if c == 8 {
                    h.sig(sig.as_bytes())
                } else {
                    h.value(&v)
                }
            }
        }
    }
    let n = (h.b.len() - 16) as u32;
    let y = if m.le { n.to_le_bytes() } else { n.to_be_bytes() };
    h.b[12..16].copy_from_slice(&y);
    h.pad(8);
    let base = h.b.len();
    h.b.extend_from_slice(&body.b);
    for mut s in body.spans {
        s.at += base;
        h.spans.push(s);
    }
    Frame { bytes: h.b, fds, spans: h.spans, seen: [h.seen, body.seen] }
}

// ---------------------------------------------------------------- decoder

#[derive(Clone, Debug, PartialEq)]
pub enum RefOut {
    /// message, bytes used, and whether something a receiver may also refuse was seen
    Ok(Box<RefMsg>),
    Incomplete,
    Reject(&'static str),
}

#[derive(Clone, Debug, PartialEq)]
pub struct RefMsg {
    pub m: MMsg,
    pub used: usize,
    pub order: Vec<u8>,
    pub empty_sig: bool,
    pub lenient: Option<&'static str>,
}

struct Dec<'a> {
    b: &'a [u8],
    p: usize,
    le: bool,
    lenient: Option<&'static str>,
    fds: Option<&'a [i32]>,
}

type R<T> = Result<T, &'static str>;

impl<'a> Dec<'a> {
    fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if n > self.b.len() - self.p {
            return Err("runs past its end");
        }
        let r = &self.b[self.p..self.p + n];
        self.p += n;
        Ok(r)
    }
    fn pad(&mut self, a: usize) -> R<()> {
        let n = (a - self.p % a) % a;
        if self.take(n)?.iter().any(|x| *x != 0) {
            return Err("non-zero padding");
        }
        Ok(())
    }
    fn u8(&mut self) -> R<u8> {
        Ok(self.take(1)?[0])
    }
    fn num(&mut self, n: usize) -> R<u64> {
        self.pad(n)?;
        let b = self.take(n)?;
        let mut x = 0u64;
        for i in 0..n {
            let c = if self.le { b[n - 1 - i] } else { b[i] };
            x = x << 8 | c as u64;
        }
        Ok(x)
    }
    fn str(&mut self) -> R<&'a str> {
        let n = self.num(4)? as usize;
        let b = self.take(n)?;
        if self.u8()? != 0 {
            return Err("string not terminated");
        }
        if b.contains(&0) {
            self.lenient = Some("NUL inside a string");
        }
        std::str::from_utf8(b).map_err(|_| "invalid UTF-8")
    }
    fn sig(&mut self) -> R<Vec<MT>> {
        let n = self.u8()? as usize;
        let b = self.take(n)?;
        if self.u8()? != 0 {
            return Err("signature not terminated");
        }
        let v = parse_sig(b).ok_or("bad signature")?;
        if !v.iter().all(|t| strict_type(t, false)) {
            self.lenient = Some("dict entry outside an array or with a container key");
        }
        Ok(v)
    }
    fn value(&mut self, t: &MT, var: usize, depth: usize) -> R<MV> {
        if depth > 64 {
            self.lenient = Some("more than 64 levels of nesting");
        }
        Ok(match t {
            MT::B(b'y') => MV::Byte(self.u8()?),
            MT::B(b'b') => match self.num(4)? {
                0 => MV::Bool(false),
                1 => MV::Bool(true),
                _ => return Err("boolean is neither 0 nor 1"),
            },
            MT::B(b'n') => MV::I16(self.num(2)? as i16),
            MT::B(b'q') => MV::U16(self.num(2)? as u16),
            MT::B(b'i') => MV::I32(self.num(4)? as i32),
            MT::B(b'u') => MV::U32(self.num(4)? as u32),
            MT::B(b'x') => MV::I64(self.num(8)? as i64),
            MT::B(b't') => MV::U64(self.num(8)?),
            MT::B(b'd') => MV::F64(self.num(8)?),
            MT::B(b's') => MV::Str(self.str()?.to_string()),
            MT::B(b'o') => {
                let s = self.str()?;
                if !ok_path(s) {
                    return Err("bad object path");
                }
                MV::Path(s.to_string())
            }
            MT::B(b'g') => MV::Sig(self.sig()?),
            MT::B(b'h') => {
                let i = self.num(4)? as usize;
                match self.fds.and_then(|f| f.get(i)) {
                    Some(f) => MV::Fd(*f),
                    None => return Err("file descriptor index beyond the message's descriptors"),
                }
            }
            MT::B(b'v') => {
                if var >= VARIANTS.load(std::sync::atomic::Ordering::Relaxed) {
                    return Err("variants nested too deeply");
                }
                let s = self.sig()?;
                if s.len() != 1 {
                    return Err("variant signature is not one type");
                }
                MV::Var(Box::new(self.value(&s[0], var + 1, depth + 1)?))
            }
            MT::B(_) => return Err("bad type"),
            MT::Arr(t) => {
                let n = self.num(4)? as usize;
                if n > MAX_ARRAY {
                    return Err("array too big");
                }
                self.pad(t.align())?;
                if n > self.b.len() - self.p {
                    return Err("runs past its end");
                }
                let end = self.p + n;
                let mut v = Vec::new();
                while self.p < end {
                    v.push(self.value(t, var, depth + 1)?);
                }
                if self.p != end {
                    return Err("array does not end at its length");
                }
                MV::Arr((**t).clone(), v)
            }
            MT::Struct(ts) => {
                self.pad(8)?;
                let mut v = Vec::new();
                for t in ts {
                    v.push(self.value(t, var, depth + 1)?)
                }
                MV::Struct(v)
            }
            MT::Dict(b) => {
                self.pad(8)?;
                let k = self.value(&b.0, var, depth + 1)?;
                let v = self.value(&b.1, var, depth + 1)?;
                MV::Dict(Box::new((k, v)))
            }
        })
    }
}

/// The frame length a header announces, once 16 bytes are there.
pub fn frame_len(b: &[u8]) -> Option<Result<usize, &'static str>> {
    if b.is_empty() {
        return None;
    }
    let le = match b[0] {
        b'l' => true,
        b'B' => false,
        _ => return Some(Err("unknown byte order")),
    };
    if b.len() < 16 {
        return None;
    }
    let g = |i: usize| {
        let a = [b[i], b[i + 1], b[i + 2], b[i + 3]];
        if le { u32::from_le_bytes(a) as usize } else { u32::from_be_bytes(a) as usize }
    };
    let body = g(4);
    let hdr = g(12);
    if hdr > MAX_ARRAY {
        return Some(Err("header array too big"));
    }
    let total = ((16 + hdr + 7) & !7) + body;
    if total > MAX_MSG {
        return Some(Err("message too big"));
    }
    Some(Ok(total))
}

/// Unmarshals the frame at the start of `b`.  `fds`: the descriptors available, if the receiver
/// passes descriptors at all.
pub fn ref_decode(b: &[u8], fds: Option<&[i32]>) -> RefOut {
    let total = match frame_len(b) {
        None => return RefOut::Incomplete,
        Some(Err(e)) => return RefOut::Reject(e),
        Some(Ok(n)) => n,
    };
    if b.len() < total {
        return RefOut::Incomplete;
    }
    match dec_frame(&b[..total], fds) {
        Ok(r) => RefOut::Ok(Box::new(r)),
        Err(e) => RefOut::Reject(e),
    }
}

fn dec_frame(b: &[u8], fds: Option<&[i32]>) -> R<RefMsg> {
    let le = b[0] == b'l';
    let mut d = Dec { b, p: 1, le, lenient: None, fds: None };
    let typ = d.u8()?;
    if !(1..=4).contains(&typ) {
        return Err("unknown message type");
    }
    let flags = d.u8()?;
    if flags > 7 {
        d.lenient = Some("unknown flags");
    }
    let version = d.u8()?;
    if version != 1 {
        d.lenient = Some("protocol version");
    }
    let body_len = d.num(4)? as usize;
    let serial = d.num(4)? as u32;
    if serial == 0 {
        d.lenient = Some("serial zero");
    }
    let hdr = d.num(4)? as usize;
    let hend = 16 + hdr;
    let mut f = MFields::default();
    let mut sig: Option<Vec<MT>> = None;
    let mut order = Vec::new();
    // the header array must not run past its own end: give it a view that stops there
    let mut hd = Dec { b: &b[..hend], p: 16, le, lenient: d.lenient, fds: None };
    while hd.p < hend {
        hd.pad(8)?;
        let code = hd.u8()?;
        let ts = hd.sig()?;
        if ts.len() != 1 {
            return Err("variant signature is not one type");
        }
        if code == 0 {
            return Err("header field code 0");
        }
        if code > 9 {
            hd.lenient = Some("unknown header field");
            // a descriptor index here cannot be resolved before UNIX_FDS is known
            hd.value(&ts[0], 1, 2)?;
            continue;
        }
        let want = match code {
            1 => b'o',
            5 | 9 => b'u',
            8 => b'g',
            _ => b's',
        };
        if ts[0] != MT::B(want) {
            return Err("wrong type of header field");
        }
        if order.contains(&code) {
            return Err("duplicate header field");
        }
        order.push(code);
        match (code, hd.value(&ts[0], 1, 2)?) {
            (1, MV::Path(s)) => f.path = Some(s),
            (2, MV::Str(s)) if ok_interface(&s) => f.interface = Some(s),
            (3, MV::Str(s)) if ok_member(&s) => f.member = Some(s),
            (4, MV::Str(s)) if ok_error(&s) => f.error_name = Some(s),
            (5, MV::U32(n)) => {
                if n == 0 {
                    hd.lenient = Some("reply serial zero");
                }
                f.reply_serial = Some(n)
            }
            (6, MV::Str(s)) if ok_bus(&s) => f.destination = Some(s),
            (7, MV::Str(s)) if ok_bus(&s) => f.sender = Some(s),
            (8, MV::Sig(s)) => sig = Some(s),
            (9, MV::U32(n)) => f.unix_fds = Some(n),
            _ => return Err("bad name in header field"),
        }
    }
    d.lenient = hd.lenient;
    d.p = hend;
    let missing = match typ {
        1 => f.path.is_none() || f.member.is_none(),
        2 => f.reply_serial.is_none(),
        3 => f.error_name.is_none() || f.reply_serial.is_none(),
        _ => f.path.is_none() || f.interface.is_none() || f.member.is_none(),
    };
    if missing {
        return Err("mandatory header field missing");
    }
    d.pad(8)?;
    let declared = f.unix_fds.unwrap_or(0) as usize;
    if let Some(fds) = fds {
        if declared > fds.len() {
            return Err("fewer descriptors than declared");
        }
        d.fds = Some(&fds[..declared]);
    }
    let empty_sig = sig.as_ref().map_or(false, |s| s.is_empty());
    let s = sig.unwrap_or_default();
    let mut body = Vec::new();
    if body_len == 0 {
        if !s.is_empty() {
            return Err("signature without body");
        }
    } else {
        if s.is_empty() {
            return Err("body without signature");
        }
        for t in &s {
            body.push(d.value(t, 0, 1)?)
        }
        if d.p != b.len() {
            return Err("body does not end at its length");
        }
    }
    Ok(RefMsg {
        m: MMsg { le, typ, flags, version, serial, f, body },
        used: b.len(),
        order,
        empty_sig,
        lenient: d.lenient,
    })
}

// ---------------------------------------------------------------- replies

pub fn ref_reply(m: &MMsg, err: Option<(&str, &str)>) -> MMsg {
    MMsg {
        le: m.le,
        typ: if err.is_some() { 3 } else { 2 },
        flags: 1,
        version: 1,
        serial: 0,
        f: MFields {
            error_name: err.map(|e| e.0.to_string()),
            reply_serial: Some(m.serial),
            destination: m.f.sender.clone(),
            sender: m.f.destination.clone(),
            ..Default::default()
        },
        body: err.map(|e| MV::Str(e.1.to_string())).into_iter().collect(),
    }
}

// ---------------------------------------------------------------- match rules

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum MRule {
    Type(u8),
    Sender(String),
    Interface(String),
    Member(String),
    Path(String),
    PathNamespace(String),
    Destination(String),
    Arg(usize, String),
    ArgPath(usize, String),
    Arg0Namespace(String),
    Eavesdrop(bool),
}

pub const TYPE_NAMES: [&str; 4] = ["method_call", "method_return", "error", "signal"];

fn below(ns: &str, s: &str, sep: char) -> bool {
    if ns == s {
        return true;
    }
    let mut p = ns.to_string();
    if !p.ends_with(sep) {
        p.push(sep);
    }
    s.starts_with(&p)
}

pub fn ref_match(r: &MRule, m: &MMsg) -> bool {
    match r {
        MRule::Type(t) => *t == m.typ,
        MRule::Sender(s) => m.f.sender.as_ref() == Some(s),
        MRule::Interface(s) => m.f.interface.as_ref() == Some(s),
        MRule::Member(s) => m.f.member.as_ref() == Some(s),
        MRule::Path(s) => m.f.path.as_ref() == Some(s),
        MRule::PathNamespace(ns) => m.f.path.as_ref().map_or(false, |p| below(ns, p, '/')),
        MRule::Destination(s) => m.f.destination.as_ref() == Some(s),
        MRule::Arg(i, s) => matches!(m.body.get(*i), Some(MV::Str(x)) if x == s),
        // what the library documents and tests: the argument equals the path or lies below it
        MRule::ArgPath(i, s) => match m.body.get(*i) {
            Some(MV::Str(x)) | Some(MV::Path(x)) => below(s, x, '/'),
            _ => false,
        },
        MRule::Arg0Namespace(s) => matches!(m.body.first(), Some(MV::Str(x)) if below(s, x, '.')),
        MRule::Eavesdrop(_) => true,
    }
}

pub fn rule_key(r: &MRule) -> String {
    match r {
        MRule::Type(_) => "type".into(),
        MRule::Sender(_) => "sender".into(),
        MRule::Interface(_) => "interface".into(),
        MRule::Member(_) => "member".into(),
        MRule::Path(_) => "path".into(),
        MRule::PathNamespace(_) => "path_namespace".into(),
        MRule::Destination(_) => "destination".into(),
        MRule::Arg(i, _) => format!("arg{}", i),
        MRule::ArgPath(i, _) => format!("arg{}path", i),
        MRule::Arg0Namespace(_) => "arg0namespace".into(),
        MRule::Eavesdrop(_) => "eavesdrop".into(),
    }
}

pub fn rule_value(r: &MRule) -> String {
    match r {
        MRule::Type(t) => TYPE_NAMES[*t as usize - 1].into(),
        MRule::Eavesdrop(b) => if *b { "true" } else { "false" }.into(),
        MRule::Sender(s)
        | MRule::Interface(s)
        | MRule::Member(s)
        | MRule::Path(s)
        | MRule::PathNamespace(s)
        | MRule::Destination(s)
        | MRule::Arg(_, s)
        | MRule::ArgPath(_, s)
        | MRule::Arg0Namespace(s) => s.clone(),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum RuleOut {
    /// the rules; a receiver may also refuse if the second is set
    Ok(Vec<MRule>, Option<&'static str>),
    Reject(&'static str),
}

/// Splits and unquotes rule text in one pass over the quoting grammar: outside quotes a comma
/// ends the rule, an apostrophe opens a quotation, backslash apostrophe is an apostrophe and any
/// other backslash is literal; inside quotes everything is literal until the next apostrophe.
pub fn ref_rules(text: &str) -> RuleOut {
    let c: Vec<char> = text.chars().collect();
    let mut i = 0;
    let mut out = Vec::new();
    let mut lenient = None;
    if c.is_empty() {
        return RuleOut::Ok(out, None);
    }
    loop {
        if i == c.len() {
            // a comma at the very end
            lenient = Some("trailing comma");
            break;
        }
        let mut key = String::new();
        while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
            key.push(c[i]);
            i += 1;
        }
        if key.is_empty() || i == c.len() || c[i] != '=' {
            return RuleOut::Reject("key");
        }
        i += 1;
        let mut val = String::new();
        let mut more = false;
        while i < c.len() {
            match c[i] {
                ',' => {
                    more = true;
                    i += 1;
                    break;
                }
                '\'' => {
                    i += 1;
                    loop {
                        if i == c.len() {
                            return RuleOut::Reject("unterminated quote");
                        }
                        if c[i] == '\'' {
                            i += 1;
                            break;
                        }
                        val.push(c[i]);
                        i += 1;
                    }
                }
                '\\' if i + 1 < c.len() && c[i + 1] == '\'' => {
                    val.push('\'');
                    i += 2;
                }
                x => {
                    val.push(x);
                    i += 1;
                }
            }
        }
        match one_rule(&key, val, &mut lenient) {
            Some(r) => out.push(r),
            None => return RuleOut::Reject("unknown key or bad value"),
        }
        if !more {
            break;
        }
    }
    RuleOut::Ok(out, lenient)
}

fn index(s: &str, lenient: &mut Option<&'static str>) -> Option<usize> {
    let t = match s.strip_prefix('+') {
        Some(t) => {
            *lenient = Some("number spelling");
            t
        }
        None => s,
    };
    if t.is_empty() || !t.bytes().all(|c| c.is_ascii_digit()) {
        return None;
    }
    if t.len() > 1 && t.starts_with('0') {
        *lenient = Some("number spelling");
    }
    t.parse::<usize>().ok()
}

fn one_rule(key: &str, v: String, lenient: &mut Option<&'static str>) -> Option<MRule> {
    let ok = |b: bool, r: MRule| if b { Some(r) } else { None };
    match key {
        "type" => TYPE_NAMES.iter().position(|t| *t == v).map(|i| MRule::Type(i as u8 + 1)),
        "sender" => ok(ok_bus(&v), MRule::Sender(v)),
        "interface" => ok(ok_interface(&v), MRule::Interface(v)),
        "member" => ok(ok_member(&v), MRule::Member(v)),
        "path" => ok(ok_path(&v), MRule::Path(v)),
        "path_namespace" => ok(ok_path(&v), MRule::PathNamespace(v)),
        "destination" => ok(ok_unique(&v), MRule::Destination(v)),
        "eavesdrop" => match v.as_str() {
            "true" => Some(MRule::Eavesdrop(true)),
            "false" => Some(MRule::Eavesdrop(false)),
            _ => None,
        },
        "arg0namespace" => ok(ok_interface(&v), MRule::Arg0Namespace(v)),
        _ => {
            let rest = key.strip_prefix("arg")?;
            if let Some(n) = rest.strip_suffix("path") {
                let i = index(n, lenient)?;
                if i >= 64 {
                    *lenient = Some("argument path index");
                }
                ok(ok_path(&v), MRule::ArgPath(i, v))
            } else {
                let i = index(rest, lenient)?;
                ok(i < 64, MRule::Arg(i, v))
            }
        }
    }
}

/// Canonical text: values without special characters bare, others quoted per character.
pub fn ref_rule_text(r: &MRule) -> String {
    let mut s = rule_key(r);
    s.push('=');
    for c in rule_value(r).chars() {
        match c {
            '\'' => s.push_str("\\'"),
            ',' => s.push_str("','"),
            '\\' => s.push_str("'\\'"),
            c => s.push(c),
        }
    }
    s
}

// ---------------------------------------------------------------- object paths

pub fn comps(p: &str) -> Vec<&str> {
    if p == "/" {
        Vec::new()
    } else {
        p[1..].split('/').collect()
    }
}
pub fn path_of(c: &[String]) -> String {
    if c.is_empty() {
        "/".into()
    } else {
        let mut s = String::new();
        for x in c {
            s.push('/');
            s.push_str(x);
        }
        s
    }
}
/// The components of `p` below `base`, if `p` lies below it.
pub fn strip<'a>(p: &'a str, base: &str) -> Option<Vec<&'a str>> {
    let a = comps(p);
    let b = comps(base);
    if a.len() > b.len() && a[..b.len()] == b[..] {
        Some(a[b.len()..].to_vec())
    } else {
        None
    }
}
