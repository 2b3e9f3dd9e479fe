//! Workload generation.  Sizes and shapes are biased to boundaries, to the numbers and texts the
//! code under test compares with, and vary run by run (swarm style).
use crate::choice::Src;
use crate::model::*;

pub const BASIC: &[u8] = b"ybnqiuxtdsog";

#[derive(Clone, Debug)]
pub struct G {
    /// type codes enabled in this run, containers as 'a' '(' '{' 'v', descriptors as 'h'
    pub codes: Vec<u8>,
    pub depth: usize,
    pub nodes: usize,
    /// largest string or byte array
    pub big: usize,
    /// Sizes named in the sources that are larger than `big` ever is; used in few runs.
    pub huge: Vec<usize>,
    /// 0 plain, 1 special characters of the rule grammar, 2 multi-byte, 3 anything
    pub alpha: usize,
    pub fd_pool: i32,
    /// Descriptor numbers of one message may share this many low bits (0: small numbers).
    pub fd_wide: u32,
    /// share of names taken from a small pool (so that they collide)
    pub pool: u64,
    pub body_max: usize,
}

/// Descriptor numbers that share their low bits, as a process with very many open ones has.
pub fn spread(k: u32, x: i32) -> i32 {
    if k == 0 || x < 0 {
        return x;
    }
    let m = (12288 >> (31 - k)).max(3);
    x % m + ((x / m) << k)
}

impl G {
    pub fn draw(s: &mut Src, fds: bool) -> G {
        let mut codes: Vec<u8> = Vec::new();
        let all: &[u8] = b"ybnqiuxtdsoga({v";
        match s.weighted(&[3, 3]) {
            0 => codes.extend(all),
            _ => {
                for c in all {
                    if s.flag() {
                        codes.push(*c)
                    }
                }
                if !codes.iter().any(|c| BASIC.contains(c)) {
                    codes.push(*s.pick(BASIC));
                }
            }
        }
        if fds {
            codes.push(b'h')
        }
        G {
            huge: Vec::new(),
            codes,
            depth: *s.pick(&[2, 3, 4, 6, 1]),
            nodes: *s.pick(&[12, 30, 80, 4]),
            big: *s.pick(&[24, 300, 3000, 70000]),
            alpha: s.idx(4),
            fd_pool: *s.pick(&[3, 1, 8, 100]),
            fd_wide: if fds && s.chance(1, 6) { s.urange(8, 24) as u32 } else { 0 },
            pool: *s.pick(&[50, 90, 10]),
            body_max: *s.pick(&[3, 6, 1, 12]),
        }
    }
    pub fn small(s: &mut Src) -> G {
        let mut g = G::draw(s, false);
        g.nodes = g.nodes.min(12);
        g.big = g.big.min(60);
        g
    }

    fn has(&self, c: u8) -> bool {
        self.codes.contains(&c)
    }

    pub fn basic(&self, s: &mut Src) -> u8 {
        let v: Vec<u8> = self.codes.iter().copied().filter(|c| BASIC.contains(c)).collect();
        if v.is_empty() {
            b'y'
        } else {
            *s.pick(&v)
        }
    }

    pub fn ty(&self, s: &mut Src, depth: usize) -> MT {
        if depth == 0 {
            return MT::B(self.basic(s));
        }
        let c = *s.pick(&self.codes);
        match c {
            b'a' => {
                if self.has(b'{') && s.chance(1, 3) {
                    MT::Arr(Box::new(MT::Dict(Box::new((MT::B(self.basic(s)), self.ty(s, depth - 1))))))
                } else {
                    MT::Arr(Box::new(self.ty(s, depth - 1)))
                }
            }
            b'(' => {
                let n = s.urange(1, 4);
                MT::Struct((0..n).map(|_| self.ty(s, depth - 1)).collect())
            }
            b'{' => MT::Arr(Box::new(MT::Dict(Box::new((MT::B(self.basic(s)), self.ty(s, depth - 1)))))),
            c => MT::B(c),
        }
    }

    /// Deep towers of one or mixed containers, up to the limits.
    pub fn tower(&self, s: &mut Src) -> MT {
        let mut t = MT::B(self.basic(s));
        let (mut a, mut p, mut d) = (0, 0, 0);
        let n = s.size(6, 64);
        let mix = s.idx(4);
        for _ in 0..n {
            let k = match mix {
                0 => 0,
                1 => 1,
                2 => 2,
                _ => s.idx(3),
            };
            match k {
                0 if a < 32 => {
                    t = MT::Arr(Box::new(t));
                    a += 1
                }
                1 if p < 32 => {
                    let mut v = vec![t];
                    if s.chance(1, 4) {
                        v.push(MT::B(self.basic(s)));
                    }
                    if s.chance(1, 8) {
                        v.insert(0, MT::B(self.basic(s)));
                    }
                    t = MT::Struct(v);
                    p += 1
                }
                2 if a < 32 && d < 32 => {
                    t = MT::Arr(Box::new(MT::Dict(Box::new((MT::B(self.basic(s)), t)))));
                    a += 1;
                    d += 1
                }
                _ => {}
            }
        }
        if t.text().len() > 120 || a + p + d > 60 {
            return MT::B(self.basic(s));
        }
        t
    }

    pub fn string(&self, s: &mut Src) -> String {
        let n = self.len(s);
        self.string_len(s, n)
    }

    fn len(&self, s: &mut Src) -> usize {
        if !self.huge.is_empty() && s.chance(1, 10) {
            let i = s.idx(self.huge.len());
            return self.huge[i] + s.urange(0, 40) - 20;
        }
        s.size(8, self.big)
    }

    /// About `n` bytes.
    pub fn string_len(&self, s: &mut Src, n: usize) -> String {
        if !s.dict.texts.is_empty() && s.chance(1, 12) {
            let i = s.idx(s.dict.texts.len());
            let t = s.dict.texts[i].clone();
            if !t.contains('\0') {
                return t;
            }
        }
        let sets: [&[&str]; 4] = [
            &["a", "b", "Z", "0", "_", ".", "/"],
            &["'", ",", "\\", "=", "a", " ", "''", "\\'", "','", "'\\'"],
            &["é", "漢", "😀", "\u{10FFFF}", "\u{FFFF}", "\u{FEFF}", "\u{7f}", "\u{80}", "a"],
            &["\u{1}", "\n", "\t", "'", "\\", ",", "x", "é", "😀", "%", "{", "}", "\"", "="],
        ];
        let set = sets[self.alpha];
        let mut o = String::new();
        if n <= 16 {
            while o.len() < n {
                o.push_str(s.pick(set));
            }
        } else {
            let mut pat = String::new();
            let k = s.urange(1, 6);
            for _ in 0..k {
                pat.push_str(s.pick(set));
            }
            while o.len() + pat.len() <= n {
                o.push_str(&pat);
            }
            while o.len() < n {
                o.push('a');
            }
        }
        o
    }

    pub fn value(&self, s: &mut Src, t: &MT, budget: &mut usize, var: usize) -> MV {
        if *budget > 0 {
            *budget -= 1;
        }
        match t {
            MT::B(c) => match c {
                b'y' => MV::Byte(s.int(8) as u8),
                b'b' => MV::Bool(s.flag()),
                b'n' => MV::I16(s.int(16) as i16),
                b'q' => MV::U16(s.int(16) as u16),
                b'i' => MV::I32(s.int(32) as i32),
                b'u' => MV::U32(s.int(32) as u32),
                b'x' => MV::I64(s.int(64) as i64),
                b't' => MV::U64(s.int(64)),
                b'd' => MV::F64(self.double(s)),
                b's' => MV::Str(self.string(s)),
                b'o' => MV::Path(self.path(s)),
                b'g' => MV::Sig(self.sig(s)),
                b'h' => MV::Fd(spread(self.fd_wide, 3 + s.below(self.fd_pool as u64) as i32)),
                _ => {
                    let it = if var >= 1 && *budget > 0 {
                        if s.chance(1, 4) && var >= 2 {
                            MT::B(b'v')
                        } else if s.chance(1, 10) {
                            self.tower(s)
                        } else {
                            self.ty(s, 2.min(self.depth))
                        }
                    } else {
                        MT::B(self.basic(s))
                    };
                    let it = if var <= 1 { no_variant(&it) } else { it };
                    MV::Var(Box::new(self.value(s, &it, budget, var.saturating_sub(1))))
                }
            },
            MT::Arr(e) => {
                let n = if *budget == 0 {
                    0
                } else if let MT::B(b'y') = **e {
                    self.len(s)
                } else {
                    s.size(3, (*budget).max(1))
                };
                let mut v = Vec::new();
                if let (MT::B(b'y'), true) = (&**e, n > 16) {
                    let a = s.int(8) as u8;
                    let st = s.below(256) as u8;
                    v.extend((0..n).map(|i| MV::Byte(a.wrapping_add((i as u8).wrapping_mul(st)))));
                } else {
                    for _ in 0..n {
                        v.push(self.value(s, e, budget, var));
                    }
                }
                MV::Arr((**e).clone(), v)
            }
            MT::Struct(ts) => MV::Struct(ts.iter().map(|t| self.value(s, t, budget, var)).collect()),
            MT::Dict(b) => {
                let k = self.value(s, &b.0, budget, var);
                let v = self.value(s, &b.1, budget, var);
                MV::Dict(Box::new((k, v)))
            }
        }
    }

    pub fn double(&self, s: &mut Src) -> u64 {
        match s.idx(5) {
            0 => (s.below(10) as f64).to_bits(),
            1 => s.int(64),
            2 => *s.pick(&[
                0x8000000000000000,
                0x7FF0000000000000,
                0xFFF0000000000000,
                0x7FF8000000000000,
                0xFFF8000000000001,
                0x7FF0000000000001,
                0x0000000000000001,
            ]),
            3 => 0x7FF0000000000000 | s.int(64),
            _ => (-(s.below(1000) as f64) / 7.0).to_bits(),
        }
    }

    pub fn sig(&self, s: &mut Src) -> Vec<MT> {
        match s.weighted(&[5, 2, 1, 1]) {
            0 => {
                let n = s.idx(4);
                (0..n).map(|_| self.ty(s, 2)).collect()
            }
            1 => vec![self.tower(s)],
            2 => {
                let n = s.size(20, 255);
                (0..n).map(|_| MT::B(self.basic(s))).collect()
            }
            _ => {
                let n = s.size(8, 250);
                let n = n.max(1);
                vec![MT::Struct((0..n.min(253)).map(|_| MT::B(self.basic(s))).collect())]
            }
        }
    }

    // ---------------------------------------------------------- names

    pub fn element(&self, s: &mut Src, digit_ok: bool, hyphen: bool) -> String {
        const POOL: &[&str] = &["a", "b", "ab", "abc", "org", "com", "A1", "_", "x_y", "freedesktop", "DBus"];
        if s.below(100) < self.pool {
            return s.pick(POOL).to_string();
        }
        let n = s.size(6, 40).max(1);
        let mut o = String::new();
        for i in 0..n {
            let set: &[u8] = if hyphen { b"azAZ_09-mM" } else { b"azAZ_09mM" };
            let c = *s.pick(set) as char;
            let c = if i == 0 && !digit_ok && c.is_ascii_digit() { 'q' } else { c };
            o.push(c);
        }
        o
    }

    fn dotted(&self, s: &mut Src, digit: bool, hyphen: bool, max: usize) -> String {
        if let Some(t) = self.dict(s, ok_interface) {
            return t;
        }
        let n = s.urange(2, 4);
        let mut o = String::new();
        for i in 0..n {
            if i > 0 {
                o.push('.')
            }
            o.push_str(&self.element(s, digit, hyphen));
        }
        if s.chance(1, 12) {
            // stretch to a chosen length, possibly the limit
            let want = s.size(60, max).max(o.len()).min(max);
            while o.len() < want {
                if s.chance(1, 5) && o.len() + 2 <= want && !o.ends_with('.') {
                    o.push('.');
                }
                o.push(*s.pick(&['k', 'z', '_']));
            }
        }
        if o.len() > max {
            return "a.b".into();
        }
        o
    }

    pub fn interface(&self, s: &mut Src) -> String {
        self.dotted(s, false, false, MAX_NAME)
    }
    /// A text of the dictionary that fits.
    fn dict(&self, s: &mut Src, ok: fn(&str) -> bool) -> Option<String> {
        if s.dict.texts.is_empty() || !s.chance(1, 16) {
            return None;
        }
        let n = s.dict.texts.len();
        let i = s.idx(n);
        (i..n).chain(0..i).map(|k| &s.dict.texts[k]).find(|t| ok(t)).cloned()
    }
    pub fn unique(&self, s: &mut Src) -> String {
        if let Some(t) = self.dict(s, ok_unique) {
            return t;
        }
        if s.below(100) < self.pool {
            return format!(":1.{}", s.below(6));
        }
        format!(":{}", self.dotted(s, true, true, MAX_NAME - 1))
    }
    pub fn bus(&self, s: &mut Src) -> String {
        if s.flag() {
            self.unique(s)
        } else {
            self.dotted(s, false, true, MAX_NAME)
        }
    }
    pub fn member(&self, s: &mut Src) -> String {
        if let Some(t) = self.dict(s, ok_member) {
            return t;
        }
        if s.chance(1, 30) {
            let n = s.size(30, MAX_NAME).max(1);
            return "M".repeat(n.min(MAX_NAME));
        }
        self.element(s, false, false)
    }
    pub fn path(&self, s: &mut Src) -> String {
        if let Some(t) = self.dict(s, ok_path) {
            return t;
        }
        let n = match s.weighted(&[8, 2, 1]) {
            0 => s.idx(4),
            1 => 0,
            _ => s.size(10, 60),
        };
        if n == 0 {
            return "/".into();
        }
        let mut o = String::new();
        for _ in 0..n {
            o.push('/');
            o.push_str(&self.element(s, true, false));
        }
        if s.chance(1, 40) {
            let k = s.size(300, self.big);
            o.push('/');
            o.push_str(&"p".repeat(k.max(1)));
        }
        o
    }

    // ---------------------------------------------------------- messages

    pub fn fields(&self, s: &mut Src, typ: u8) -> MFields {
        let need = |c: u8| match typ {
            1 => c == 1 || c == 3,
            2 => c == 5,
            3 => c == 4 || c == 5,
            _ => c == 1 || c == 2 || c == 3,
        };
        let dense = *s.pick(&[2u64, 1, 5]);
        let want = |s: &mut Src, c: u8| need(c) || s.chance(1, dense);
        let mut f = MFields::default();
        if want(s, 1) {
            f.path = Some(self.path(s))
        }
        if want(s, 2) {
            f.interface = Some(self.interface(s))
        }
        if want(s, 3) {
            f.member = Some(self.member(s))
        }
        if want(s, 4) {
            f.error_name = Some(self.interface(s))
        }
        if want(s, 5) {
            f.reply_serial = Some((s.int(32) as u32).max(1))
        }
        if want(s, 6) {
            f.destination = Some(self.bus(s))
        }
        if want(s, 7) {
            f.sender = Some(self.bus(s))
        }
        f
    }

    pub fn msg(&self, s: &mut Src) -> MMsg {
        let typ = s.range(1, 4) as u8;
        self.msg_of(s, typ)
    }

    pub fn msg_of(&self, s: &mut Src, typ: u8) -> MMsg {
        let f = self.fields(s, typ);
        let mut m = MMsg {
            le: !s.flag(),
            typ,
            flags: s.below(8) as u8,
            version: 1,
            serial: (s.int(32) as u32).max(1),
            f,
            body: Vec::new(),
        };
        m.body = self.body(s);
        m
    }

    pub fn body(&self, s: &mut Src) -> Vec<MV> {
        let n = match s.weighted(&[8, 1]) {
            0 => s.idx(self.body_max + 1),
            _ => s.size(self.body_max, 80),
        };
        let mut budget = self.nodes;
        let mut body = Vec::new();
        let mut sig = 0;
        for _ in 0..n {
            let t = if s.chance(1, 10) { self.tower(s) } else { self.ty(s, self.depth) };
            let l = t.text().len();
            if sig + l > MAX_SIG {
                continue;
            }
            sig += l;
            body.push(self.value(s, &t, &mut budget, MAX_VARIANT));
        }
        body
    }

    /// A message with `unix_fds` set to what its body carries.
    pub fn msg_fd(&self, s: &mut Src) -> MMsg {
        let mut m = self.msg(s);
        let n = m.body_fds().len();
        m.f.unix_fds = if n > 0 { Some(n as u32) } else { None };
        m
    }

    // ---------------------------------------------------------- rules

    pub fn rule(&self, s: &mut Src) -> MRule {
        match s.idx(11) {
            0 => MRule::Type(s.range(1, 4) as u8),
            1 => MRule::Sender(self.bus(s)),
            2 => MRule::Interface(self.interface(s)),
            3 => MRule::Member(self.member(s)),
            4 => MRule::Path(self.path(s)),
            5 => MRule::PathNamespace(self.path(s)),
            6 => MRule::Destination(self.unique(s)),
            7 => MRule::Arg(self.arg_index(s), self.string(s)),
            8 => MRule::ArgPath(self.arg_index(s), self.path(s)),
            9 => MRule::Arg0Namespace(self.interface(s)),
            _ => MRule::Eavesdrop(s.flag()),
        }
    }
    pub fn arg_index(&self, s: &mut Src) -> usize {
        match s.weighted(&[5, 2, 1]) {
            0 => s.idx(4),
            1 => s.idx(64),
            _ => 63 - s.idx(3),
        }
    }
}

pub fn no_variant(t: &MT) -> MT {
    match t {
        MT::B(b'v') => MT::B(b'u'),
        MT::B(c) => MT::B(*c),
        MT::Arr(t) => MT::Arr(Box::new(no_variant(t))),
        MT::Struct(v) => MT::Struct(v.iter().map(no_variant).collect()),
        MT::Dict(b) => MT::Dict(Box::new((no_variant(&b.0), no_variant(&b.1)))),
    }
}
