//! C20: a gateway that refuses what faulty peers send and keeps a log of the reasons.
use super::c10::{foreign, spell};
use super::damage::{self, bad_text};
use super::util::*;
use super::Prop;
use crate::bridge;
use crate::choice::Src;
use crate::gen::G;
use crate::kernel::*;
use crate::model::*;
use crate::sys::Zygote;
use crate::{ensure, fail};
use bytes::Bytes;
use dbus_message_parser::decode::DecodeError;
use dbus_message_parser::encode::EncodeError;
use dbus_message_parser::match_rule::{MatchRule, MatchRuleError};
use dbus_message_parser::message::*;
use dbus_message_parser::value::*;
use std::convert::TryFrom;
use std::error::Error as StdError;

pub const PROP: Prop = Prop {
    id: "C20",
    run,
    quick: 150000,
    factor: 24,
    rule: "a gateway receives 2-16 frames, names, signatures, rule texts and parts of messages from faulty and hostile peers, refuses some and logs the reason; it crashes and a fresh process decides about the quarantined input again. Faults are single ones whose name is known (a padding byte, a boolean, a terminator, bad UTF-8, an ill-formed name, path or signature in a named place, a missing, repeated or mistyped header field, too many variants, a wrong body length, missing descriptors, a value of the wrong type) or any damage. For a single fault the reason must name it with its details, for other damage whatever the reason states must hold for the input; the text of a reason must contain its details and the text of its cause and may state no false inequality. Non-trivial: something was refused.",
    real: "Message::{decode, decode_with_fds, encode}, name and path constructors, Type parsers and printer, MatchRule::decode, MessageHeader::new, MessageHeaderFields::try_from, Array::new, Struct::try_from, and the error values of all of them with their Display and source()",
    stub: "peers, link, crash, reference encoder and grammar",
    known: None,
};

/// What a refusal of a name or path states.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Why {
    Empty,
    Long(usize),
    Char(u8),
    FirstDigit,
    ElementDigit,
    FirstDot,
    ElementDot,
    EndDot,
    OneElement,
    NoColon,
    Colon,
    NoSlash,
    EndSlash,
    EmptyElement,
}

const INTERFACE: usize = 0;
const MEMBER: usize = 1;
const ERROR: usize = 2;
const UNIQUE: usize = 3;
const KNOWN: usize = 4;
const PATH: usize = 5;
const BUS: usize = 6;
const WHAT: [&str; 7] = ["an interface", "a member", "an error name", "a unique name", "a well-known name", "an object path", "a bus name"];

fn w_interface(e: &InterfaceError) -> Why {
    match e {
        InterfaceError::ElementBeginDigit => Why::ElementDigit,
        InterfaceError::ElementBeginDot => Why::ElementDot,
        InterfaceError::EndDot => Why::EndDot,
        InterfaceError::Empty => Why::Empty,
        InterfaceError::Elements => Why::OneElement,
        InterfaceError::ExceedMaximum(n) => Why::Long(*n),
        InterfaceError::InvalidChar(c) => Why::Char(*c),
    }
}
fn w_error(e: &ErrorError) -> Why {
    match e {
        ErrorError::ElementBeginDigit => Why::ElementDigit,
        ErrorError::ElementBeginDot => Why::ElementDot,
        ErrorError::EndDot => Why::EndDot,
        ErrorError::Empty => Why::Empty,
        ErrorError::Elements => Why::OneElement,
        ErrorError::ExceedMaximum(n) => Why::Long(*n),
        ErrorError::InvalidChar(c) => Why::Char(*c),
    }
}
fn w_member(e: &MemberError) -> Why {
    match e {
        MemberError::Empty => Why::Empty,
        MemberError::BeginDigit => Why::FirstDigit,
        MemberError::ExceedMaximum(n) => Why::Long(*n),
        MemberError::InvalidChar(c) => Why::Char(*c),
    }
}
fn w_unique(e: &UniqueConnectionNameError) -> Why {
    match e {
        UniqueConnectionNameError::BeginColon => Why::NoColon,
        UniqueConnectionNameError::BeginDot => Why::FirstDot,
        UniqueConnectionNameError::EndDot => Why::EndDot,
        UniqueConnectionNameError::ElementBeginDot => Why::ElementDot,
        UniqueConnectionNameError::Colon => Why::Colon,
        UniqueConnectionNameError::Empty => Why::Empty,
        UniqueConnectionNameError::Elements => Why::OneElement,
        UniqueConnectionNameError::ExceedMaximum(n) => Why::Long(*n),
        UniqueConnectionNameError::InvalidChar(c) => Why::Char(*c),
    }
}
fn w_known(e: &WellKnownBusNameError) -> Why {
    match e {
        WellKnownBusNameError::BeginDigit => Why::FirstDigit,
        WellKnownBusNameError::BeginDot => Why::FirstDot,
        WellKnownBusNameError::EndDot => Why::EndDot,
        WellKnownBusNameError::ElementBeginDigit => Why::ElementDigit,
        WellKnownBusNameError::ElementBeginDot => Why::ElementDot,
        WellKnownBusNameError::Empty => Why::Empty,
        WellKnownBusNameError::Elements => Why::OneElement,
        WellKnownBusNameError::ExceedMaximum(n) => Why::Long(*n),
        WellKnownBusNameError::InvalidChar(c) => Why::Char(*c),
    }
}
fn w_path(e: &ObjectPathError) -> Why {
    match e {
        ObjectPathError::BeginAlphanumericAndUnderscoreAndHyphen => Why::NoSlash,
        ObjectPathError::EndSlash => Why::EndSlash,
        ObjectPathError::Empty => Why::Empty,
        ObjectPathError::ElementEmtpy => Why::EmptyElement,
        ObjectPathError::InvalidChar(c) => Why::Char(*c),
    }
}

fn allowed(k: usize, c: u8) -> bool {
    c.is_ascii_alphanumeric()
        || c == b'_'
        || match k {
            MEMBER => false,
            PATH => c == b'/',
            UNIQUE => b".-:".contains(&c),
            KNOWN => b".-".contains(&c),
            _ => c == b'.',
        }
}

/// Is it so?
fn holds(k: usize, t: &[u8], w: Why) -> bool {
    let first = t.first().copied().unwrap_or(b'x');
    let last = t.last().copied().unwrap_or(b'x');
    let pair = |p: &[u8]| t.windows(2).any(|w| w == p);
    match w {
        Why::Empty => t.is_empty() || (k == UNIQUE && t == b":"),
        Why::Long(n) => n == t.len() && n > 255 && k != PATH,
        Why::Char(c) => t.contains(&c) && !allowed(k, c),
        Why::FirstDigit => first.is_ascii_digit(),
        Why::ElementDigit => t.split(|c| *c == b'.').any(|e| e.first().map_or(false, |c| c.is_ascii_digit())),
        Why::FirstDot => first == b'.',
        Why::ElementDot => first == b'.' || pair(b"..") || t.starts_with(b":."),
        Why::EndDot => last == b'.',
        Why::OneElement => !t.contains(&b'.'),
        Why::NoColon => first != b':',
        Why::Colon => t.iter().skip(1).any(|c| *c == b':'),
        Why::NoSlash => !t.is_empty() && first != b'/',
        Why::EndSlash => t.len() > 1 && last == b'/',
        Why::EmptyElement => pair(b"//"),
    }
}

/// Does the refusal of a bus name hold?
fn bus_holds(t: &[u8], e: &BusError) -> bool {
    match e {
        BusError::UniqueConnectionNameError(e) => t.first() == Some(&b':') && holds(UNIQUE, t, w_unique(e)),
        BusError::WellKnownBusNameError(e) => t.first() != Some(&b':') && holds(KNOWN, t, w_known(e)),
    }
}

fn sig_holds(t: &[u8], single: bool, e: &TypeError) -> bool {
    let count = |c: u8| t.iter().filter(|x| **x == c).count();
    match e {
        TypeError::InvalidChar(c) => t.contains(c) && !b"ybnqiuxtdsoghva({".contains(c),
        TypeError::ArrayDepth(n) => *n > 32 && *n as usize <= count(b'a'),
        TypeError::StructDepth(n) => *n > 32 && *n as usize <= count(b'('),
        TypeError::DictDepth(n) => *n > 32 && *n as usize <= count(b'{'),
        TypeError::TooShort(n, at) => *n == t.len() && *at >= *n,
        TypeError::ClosingCurlyBracket(at, c) => t.get(*at) == Some(c) && *c != b'}',
        TypeError::MultiplyTypes => single && (1..t.len()).any(|i| parse_sig(&t[..i]).map_or(false, |v| v.len() == 1)),
        TypeError::ExceedMaximum(n) => *n == t.len() && *n > 255,
    }
}

/// The text of an error, and whether it is consistent with what the error says.
fn text(e: &dyn StdError, details: &[u64]) -> Result<String, String> {
    let t = e.to_string();
    if t.is_empty() {
        return Err("the text of the reason is empty".into());
    }
    for d in details {
        if !numbers(&t).contains(d) {
            return Err(format!("{} is not in its text {:?}", d, t));
        }
    }
    let mut x = e.source();
    while let Some(s) = x {
        let u = s.to_string();
        if u.is_empty() || !t.contains(&u) {
            return Err(format!("its text {:?} does not contain the cause {:?}", t, u));
        }
        x = s.source();
    }
    let w: Vec<&str> = t.split_whitespace().collect();
    for i in 1..w.len().saturating_sub(1) {
        let n = |s: &str| s.trim_matches(|c: char| !c.is_ascii_digit()).parse::<u64>().ok();
        if let (Some(a), Some(b)) = (n(w[i - 1]), n(w[i + 1])) {
            let so = match w[i] {
                "<" => a < b,
                "<=" => a <= b,
                ">" => a > b,
                ">=" => a >= b,
                "!=" => a != b,
                _ => true,
            };
            if !so {
                return Err(format!("its text states {} {} {}: {:?}", a, w[i], b, t));
            }
        }
    }
    Ok(t)
}

fn numbers(t: &str) -> Vec<u64> {
    t.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect()
}

/// An end a text complains about must be the end of the input.
fn end_char(t: &str, input: &[u8]) -> bool {
    match t.split("must not end with '").nth(1).and_then(|x| x.bytes().next()) {
        Some(c) => input.last() == Some(&c),
        None => true,
    }
}

fn bytes_of(w: Why) -> Vec<u64> {
    match w {
        Why::Long(n) => vec![n as u64],
        Why::Char(c) => vec![c as u64],
        _ => vec![],
    }
}

fn word(b: &[u8], x: u32) -> bool {
    let le = b.first() == Some(&b'l');
    let y = if le { x.to_le_bytes() } else { x.to_be_bytes() };
    b.chunks(4).any(|c| c == y)
}
fn word_at(b: &[u8], at: usize) -> u32 {
    if b.len() < at + 4 {
        return 0;
    }
    let a = [b[at], b[at + 1], b[at + 2], b[at + 3]];
    if b[0] == b'l' { u32::from_le_bytes(a) } else { u32::from_be_bytes(a) }
}

/// Is there a word in the frame which, read as the length of an array, ends that array at `end`?
fn ends_an_array(b: &[u8], end: usize) -> bool {
    (0..=end.min(b.len()) / 4).any(|k| {
        let to = 4 * k + 4 + word_at(b, 4 * k) as usize;
        to == end || to + 4 == end
    })
}

/// The length the header claims for the frame.
fn claimed(b: &[u8]) -> usize {
    (16 + word_at(b, 12) as usize + 7) / 8 * 8 + word_at(b, 4) as usize
}

/// The number details of an error of the decoder.
fn details(e: &DecodeError) -> Vec<u64> {
    use DecodeError::*;
    match e {
        NotEnoughBytes(a, b) | NotEnoughFds(a, b) | BodyLength(a, b) | ArrayInvalidLength(a, b) | IntegerOverflow(a, b) => vec![*a as u64, *b as u64],
        InvalidBoolean(x) | ArrayTooBig(x) | BodySignatureMissing(x) => vec![*x as u64],
        StringNotNull(x) | Padding(x) | Endianness(x) | MessageType(x) | MessageFlags(x) | VariantDepth(x) => vec![*x as u64],
        ObjectPathError(e) => bytes_of(w_path(e)),
        _ => vec![],
    }
}

fn required(typ: u8, e: &MessageHeaderError) -> bool {
    use MessageHeaderError::*;
    match e {
        MissingPath | MissingMember => typ == 1 || typ == 4,
        MissingInterface => typ == 4,
        MissingErrorName => typ == 3,
        MissingReplySerial => typ == 2 || typ == 3,
    }
}
fn absent(f: &MFields, e: &MessageHeaderError) -> bool {
    use MessageHeaderError::*;
    match e {
        MissingPath => f.path.is_none(),
        MissingInterface => f.interface.is_none(),
        MissingMember => f.member.is_none(),
        MissingErrorName => f.error_name.is_none(),
        MissingReplySerial => f.reply_serial.is_none(),
    }
}

/// Whatever the decoder states about any bytes must hold for them.
fn plausible(b: &[u8], given: usize, e: &DecodeError) -> bool {
    let has = |c: u8| b.contains(&c);
    let some = |k: usize, w: Why| match w {
        Why::Long(n) => n > 255 && n <= b.len() && k != PATH,
        Why::Char(c) => has(c) && !allowed(k, c),
        Why::EndDot | Why::FirstDot | Why::ElementDot => has(b'.'),
        Why::EndSlash | Why::EmptyElement => has(b'/'),
        Why::FirstDigit | Why::ElementDigit => b.iter().any(|c| c.is_ascii_digit()),
        Why::Colon => has(b':'),
        _ => true,
    };
    let bus = |e: &BusError| match e {
        BusError::UniqueConnectionNameError(e) => some(UNIQUE, w_unique(e)),
        BusError::WellKnownBusNameError(e) => some(KNOWN, w_known(e)),
    };
    match e {
        DecodeError::NotEnoughBytes(a, n) => *a <= b.len() && n > a,
        DecodeError::InvalidBoolean(x) => *x > 1 && word(b, *x),
        DecodeError::Utf8Error(_) => b.iter().any(|c| *c >= 0x80),
        DecodeError::StringNotNull(c) | DecodeError::Padding(c) => *c != 0 && has(*c),
        DecodeError::ArrayTooBig(n) => *n as usize > MAX_ARRAY && word(b, *n),
        DecodeError::ArrayInvalidLength(x, y) => x > y && *x <= b.len() && ends_an_array(b, *y),
        DecodeError::Endianness(c) => b.first() == Some(c) && *c != b'l' && *c != b'B',
        DecodeError::MessageType(c) => b.get(1) == Some(c) && (*c == 0 || *c > 4),
        DecodeError::MessageFlags(c) => b.get(2) == Some(c) && c & !7 != 0,
        DecodeError::BodyLengthZero(s) => word_at(b, 4) == 0 && !s.is_empty(),
        DecodeError::BodySignatureMissing(n) => *n != 0 && *n == word_at(b, 4),
        DecodeError::NotEnoughFds(a, i) => *a <= given && i >= a,
        DecodeError::BodyLength(x, y) => x != y && *x == claimed(b),
        DecodeError::MessageHeaderError(e) => b.len() > 1 && required(b[1], e),
        DecodeError::IntegerOverflow(x, y) => x.checked_add(*y).is_none(),
        DecodeError::VariantDepth(n) => *n as usize > MAX_VARIANT,
        DecodeError::ObjectPathError(e) => some(PATH, w_path(e)),
        DecodeError::InterfaceError(e) => some(INTERFACE, w_interface(e)),
        DecodeError::MemberError(e) => some(MEMBER, w_member(e)),
        DecodeError::ErrorError(e) => some(ERROR, w_error(e)),
        DecodeError::BusError(e) => bus(e),
        DecodeError::SignatureError(TypeError::InvalidChar(c)) => has(*c) && !b"ybnqiuxtdsoghva({".contains(c),
        DecodeError::SignatureError(TypeError::ClosingCurlyBracket(_, c)) => has(*c) && *c != b'}',
        DecodeError::SignatureError(TypeError::TooShort(n, at)) => *n <= 255 && at >= n,
        DecodeError::SignatureError(TypeError::ArrayDepth(n)) | DecodeError::SignatureError(TypeError::StructDepth(n)) | DecodeError::SignatureError(TypeError::DictDepth(n)) => *n > 32,
        DecodeError::SignatureError(TypeError::ExceedMaximum(n)) => *n > 255,
        DecodeError::MessageHeaderFieldsError(e) => match e {
            MessageHeaderFieldsError::InvalidNumber(c) => (*c == 0 || *c > 9) && has(*c),
            MessageHeaderFieldsError::InterfaceError(e) => some(INTERFACE, w_interface(e)),
            MessageHeaderFieldsError::MemberError(e) => some(MEMBER, w_member(e)),
            MessageHeaderFieldsError::ErrorError(e) => some(ERROR, w_error(e)),
            MessageHeaderFieldsError::BusError(e) => bus(e),
            _ => true,
        },
        _ => true,
    }
}

/// A header field that is repeated or of another type, with what came, and the word for the field.
fn repeated(e: &MessageHeaderFieldsError) -> Option<(u8, &Value, &'static str)> {
    use MessageHeaderFieldsError::*;
    Some(match e {
        MultiplePath(v) => (1, v, "path"),
        MultipleInterface(v) => (2, v, "interface"),
        MultipleMember(v) => (3, v, "member"),
        MultipleErrorName(v) => (4, v, "error name"),
        MultipleReplySerial(v) => (5, v, "reply serial"),
        MultipleDestination(v) => (6, v, "destination"),
        MultipleSender(v) => (7, v, "sender"),
        MultipleSignature(v) => (8, v, "signature"),
        MultipleUnixFDs(v) => (9, v, "unix fds"),
        _ => return None,
    })
}
fn mistyped(e: &MessageHeaderFieldsError) -> Option<(u8, &Value, &'static str)> {
    use MessageHeaderFieldsError::*;
    Some(match e {
        Path(v) => (1, v, "objectpath"),
        Interface(v) => (2, v, "string"),
        Member(v) => (3, v, "string"),
        ErrorName(v) => (4, v, "string"),
        ReplySerial(v) => (5, v, "uint32"),
        Destination(v) => (6, v, "string"),
        Sender(v) => (7, v, "string"),
        Signature(v) => (8, v, "signature"),
        UnixFDs(v) => (9, v, "uint32"),
        _ => return None,
    })
}

/// Any value that the refusal of a field shows.
fn shown_value(e: &MessageHeaderFieldsError) -> Option<&Value> {
    use MessageHeaderFieldsError::*;
    match e {
        Struct(v) | Variant(v) | Byte(v) => Some(v),
        e => repeated(e).or_else(|| mistyped(e)).map(|x| x.1),
    }
}
/// The text shows the value that came.
fn tells(t: &str, e: &MessageHeaderFieldsError) -> bool {
    shown_value(e).map_or(true, |v| {
        let d = match v {
            Value::String(s) => format!("{:?}", s),
            Value::ObjectPath(p) => p.to_string(),
            Value::Byte(n) => n.to_string(),
            Value::Uint16(n) => n.to_string(),
            Value::Uint32(n) => n.to_string(),
            Value::Boolean(n) => n.to_string(),
            Value::Int32(n) => n.to_string(),
            _ => return true,
        };
        t.contains(&d)
    })
}

// ---------------------------------------------------------------- what a process says

/// A refusal as it is logged: kind of input, then the input.
fn work(q: &[u8]) -> Vec<u8> {
    let b = &q[2..];
    let t = || std::str::from_utf8(b).unwrap_or("");
    macro_rules! say {
        ($e:expr) => {
            match $e {
                Ok(_) => String::new(),
                Err(e) => format!("{} {:?}", e, e),
            }
        };
    }
    match q[0] {
        0 => say!(Message::decode(Bytes::copy_from_slice(b))),
        1 => match q[1] as usize {
            INTERFACE => say!(Interface::try_from(b)),
            MEMBER => say!(Member::try_from(b)),
            ERROR => say!(Error::try_from(b)),
            UNIQUE => say!(UniqueConnectionName::try_from(b)),
            KNOWN => say!(WellKnownBusName::try_from(b)),
            PATH => say!(ObjectPath::try_from(b)),
            _ => say!(Bus::try_from(b)),
        },
        2 => say!(Type::from_bytes_to_signature(b)),
        3 => say!(Type::try_from(b)),
        _ => say!(MatchRule::decode(t())),
    }
    .into_bytes()
}

struct Log {
    z: Option<Zygote>,
    kept: Vec<(Vec<u8>, String)>,
}

impl Log {
    fn keep(&mut self, cx: &mut Ctx, kind: u8, sub: u8, b: &[u8], t: &str) {
        cx.nontrivial();
        cx.did("refusals", 1);
        cx.ev("refused", &[kind as u64, sub as u64, b.len() as u64]);
        cx.mix_bytes(t.as_bytes());
        if self.z.is_some() && self.kept.len() < 6 && b.len() < 20000 {
            let mut q = vec![kind, sub];
            q.extend_from_slice(b);
            self.kept.push((q, t.to_string()));
        }
    }
    /// The gateway crashed; another process looks at the quarantine.
    fn crash(&mut self, cx: &mut Ctx) -> Res {
        let z = match &self.z {
            Some(z) => z,
            None => return Ok(()),
        };
        cx.fault("crash");
        self.kept.reverse();
        for (q, t) in std::mem::take(&mut self.kept) {
            let r = fresh(cx, z, "refusing", &q)?;
            let r = String::from_utf8_lossy(&r).into_owned();
            ensure!(r == t, "another process gives another reason", "logged {:?}, a fresh process says {:?}", cut(&t, 300), cut(&r, 300));
        }
        Ok(())
    }
}

const UNTRUE: &str = "a refusal states something that is not so";
const OTHER: &str = "a refusal does not name what is wrong";
const TEXT: &str = "the text of a refusal is not what it states";

fn show(b: &[u8]) -> String {
    cut(&format!("{:?}", String::from_utf8_lossy(b)), 500)
}

// ---------------------------------------------------------------- names

fn legal(k: usize, s: &str) -> bool {
    match k {
        INTERFACE => ok_interface(s),
        MEMBER => ok_member(s),
        ERROR => ok_error(s),
        UNIQUE => ok_unique(s),
        KNOWN => ok_bus(s) && !s.starts_with(':'),
        PATH => ok_path(s),
        _ => ok_bus(s),
    }
}

fn good(s: &mut Src, g: &G, k: usize) -> String {
    match k {
        INTERFACE | ERROR => g.interface(s),
        MEMBER => g.member(s),
        UNIQUE => g.unique(s),
        KNOWN => {
            let t = g.bus(s);
            if t.starts_with(':') { g.interface(s) } else { t }
        }
        PATH => g.path(s),
        _ => g.bus(s),
    }
}

/// A text that must be refused, of the given kind.
fn spoiled(s: &mut Src, g: &G, k: usize) -> Option<String> {
    let mut t = good(s, g, k);
    if k != PATH && s.chance(1, 6) {
        // too long, and a little more
        let to = s.urange(254, 256) + s.weighted(&[4, 1]) * s.urange(1, 400);
        let unit = *s.pick(&["a", "A", "_", "7", "a7", ".a", ".b_", "-", "z.", "é"]);
        while t.len() < to {
            t.push_str(unit);
        }
        if !legal(k, &t) {
            return Some(t);
        }
    }
    for _ in 0..6 {
        bad_text(s, &mut t);
        if !legal(k, &t) {
            return Some(t);
        }
        if s.flag() {
            t = good(s, g, k);
        }
    }
    None
}

macro_rules! ask {
    ($t:ident, $b:expr, $w:expr, $f:expr) => {{
        let b: &[u8] = $b;
        let r = match ($w, std::str::from_utf8(b)) {
            (1, Ok(s)) => $t::try_from(s),
            (2, Ok(s)) => $t::try_from(s.to_string()),
            _ => $t::try_from(b),
        };
        r.err().map(|e| {
            let (so, d) = $f(&e);
            (so, text(&e, &d), format!("{:?}", e))
        })
    }};
}

/// None if accepted; else whether what is stated holds, the text, and the details.
fn refuse(k: usize, b: &[u8], w: usize) -> Option<(bool, Result<String, String>, String)> {
    let f = |y: Why| (holds(k, b, y), bytes_of(y));
    match k {
        INTERFACE => ask!(Interface, b, w, |e| f(w_interface(e))),
        MEMBER => ask!(Member, b, w, |e| f(w_member(e))),
        ERROR => ask!(Error, b, w, |e| f(w_error(e))),
        UNIQUE => ask!(UniqueConnectionName, b, w, |e| f(w_unique(e))),
        KNOWN => ask!(WellKnownBusName, b, w, |e| f(w_known(e))),
        PATH => ask!(ObjectPath, b, w, |e| f(w_path(e))),
        _ => ask!(Bus, b, w, |e: &BusError| (
            bus_holds(b, e),
            match e {
                BusError::UniqueConnectionNameError(e) => bytes_of(w_unique(e)),
                BusError::WellKnownBusNameError(e) => bytes_of(w_known(e)),
            }
        )),
    }
}

fn names(cx: &mut Ctx, g: &G, log: &mut Log) -> Res {
    let s = &mut cx.src;
    let k = s.idx(7);
    let mut b = match spoiled(s, g, k) {
        Some(t) => t.into_bytes(),
        None => return Ok(()),
    };
    if s.chance(1, 4) && !b.is_empty() {
        let i = s.idx(b.len());
        b[i] = s.below(256) as u8;
    }
    cx.fault("ill-formed name");
    let w = cx.src.idx(3);
    let r = cx.lib("a name constructor", || refuse(k, &b, w))?;
    cx.did("names judged", 1);
    if let Some((so, t, e)) = r {
        ensure!(so, UNTRUE, "{} as {}: {}", show(&b), WHAT[k], cut(&e, 300));
        let t = t.map_err(|x| class(TEXT, format!("{} as {}: {}: {}", show(&b), WHAT[k], cut(&e, 300), x)))?;
        ensure!(end_char(&t, &b), TEXT, "{} as {}: {}", show(&b), WHAT[k], t);
        log.keep(cx, 1, k as u8, &b, &format!("{} {}", t, e));
    }
    Ok(())
}

// ---------------------------------------------------------------- signatures

fn bad_sig(s: &mut Src, g: &G) -> Vec<u8> {
    let mut t = match s.idx(5) {
        0 => {
            let (a, k, d) = (s.urange(28, 36), s.urange(28, 36), s.urange(28, 36));
            match s.idx(4) {
                0 => format!("{}y", "a".repeat(a)),
                1 => format!("{}y{}", "(".repeat(k), ")".repeat(k)),
                2 => format!("{}y{}", "a{y".repeat(d), "}".repeat(d)),
                _ => format!("{}{}y{}", "a".repeat(a), "(".repeat(k), ")".repeat(k)),
            }
            .into_bytes()
        }
        1 => {
            let n = s.urange(250, 300);
            let mut t = sig_text(&g.sig(s)).into_bytes();
            while t.len() < n {
                t.push(*s.pick(b"yusv"))
            }
            t
        }
        _ => sig_text(&g.sig(s)).into_bytes(),
    };
    for _ in 0..s.weighted(&[1, 6, 2]) {
        let n = t.len();
        let at = s.idx(n + 1);
        match s.idx(5) {
            0 if at < n => {
                t.remove(at);
            }
            1 if at < n => t[at] = *s.pick(b"ybnqiuxtdsogvha(){}"),
            2 => t.truncate(at),
            3 if at < n => t[at] = s.below(256) as u8,
            _ => {
                let c = *s.pick(b"ybnqiuxtdsogvha(){}a({erm*?@&^z\0 ");
                t.insert(at, c)
            }
        }
    }
    t
}

fn type_details(e: &TypeError) -> Vec<u64> {
    match e {
        TypeError::InvalidChar(c) => vec![*c as u64],
        TypeError::ArrayDepth(n) | TypeError::StructDepth(n) | TypeError::DictDepth(n) => vec![*n as u64],
        TypeError::TooShort(a, b) => {
            // one of them may do
            if a == b { vec![*a as u64] } else { vec![] }
        }
        TypeError::ClosingCurlyBracket(at, c) => vec![*at as u64, *c as u64],
        TypeError::ExceedMaximum(n) => vec![*n as u64],
        TypeError::MultiplyTypes => vec![],
    }
}

fn signatures(cx: &mut Ctx, g: &G, log: &mut Log) -> Res {
    let b = bad_sig(&mut cx.src, g);
    let w = cx.src.idx(4);
    let single = w >= 2;
    let r = cx.lib("parsing a signature", || {
        let s = std::str::from_utf8(&b).ok();
        let r: Option<TypeError> = match (w, s) {
            (1, Some(s)) => Type::from_string_to_signature(s).err(),
            (2, _) => Type::try_from(&b[..]).err(),
            (3, Some(s)) => Type::try_from(s).err(),
            (3, None) => None,
            _ => Type::from_bytes_to_signature(&b).err(),
        };
        r.map(|e| (sig_holds(&b, single, &e), text(&e, &type_details(&e)), format!("{:?}", e)))
    })?;
    cx.did("signatures judged", 1);
    if let Some((so, t, e)) = r {
        cx.fault("ill-formed signature");
        ensure!(so, UNTRUE, "{} as {}: {}", show(&b), if single { "a type" } else { "a signature" }, e);
        let t = t.map_err(|x| class(TEXT, format!("{} as a signature: {}: {}", show(&b), e, x)))?;
        if w == 0 || w == 2 {
            log.keep(cx, if single { 3 } else { 2 }, 0, &b, &format!("{} {}", t, e));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- rules

fn key_known(k: &str) -> bool {
    if ["type", "sender", "interface", "member", "path", "path_namespace", "destination", "eavesdrop", "arg0namespace"].contains(&k) {
        return true;
    }
    match k.strip_prefix("arg") {
        Some(n) => {
            let n = n.strip_suffix("path").unwrap_or(n);
            !n.is_empty() && n.bytes().all(|c| c.is_ascii_digit())
        }
        None => false,
    }
}

/// What the refused part of the rule is refused for.
fn cause(e: &MatchRuleError) -> Option<String> {
    use MatchRuleError::*;
    Some(match e {
        SenderError(e) => e.to_string(),
        InterfaceError(e) | Arg0NamespaceError(e) => e.to_string(),
        MemberError(e) => e.to_string(),
        PathError(e) | PathErrorNamespace(e) | ArgPathError(e) => e.to_string(),
        DestinationError(e) => e.to_string(),
        ArgIndexError(e) => e.to_string(),
        _ => return None,
    })
}

fn rule_holds(t: &str, e: &MatchRuleError) -> bool {
    use MatchRuleError::*;
    let key_char = |c: char| c.is_ascii_alphanumeric() || c == '_';
    match e {
        KeyInvalidChar(c) => t.contains(*c) && !key_char(*c) && *c != '=',
        KeyEmpty => t.starts_with('=') || t.contains(",=") || t.ends_with(','),
        KeyUnknown => t.match_indices('=').any(|(i, _)| {
            let k = &t[..i];
            let from = k.rfind(|c| !key_char(c)).map_or(0, |j| j + k[j..].chars().next().map_or(1, |c| c.len_utf8()));
            !key_known(&k[from..])
        }),
        MissingEqual => t.split(',').any(|p| !p.contains('=')),
        ValueClosingQuote => t.contains('\''),
        TypeUnknown => t.contains("type="),
        EavesdropUnknown => t.contains("eavesdrop="),
        ArgIndexTooBig(n) => *n >= 64 && t.contains(&n.to_string()),
        ArgIndexError(_) => t.contains("arg"),
        SenderError(_) => t.contains("sender="),
        InterfaceError(_) => t.contains("interface="),
        MemberError(_) => t.contains("member="),
        PathError(_) => t.contains("path="),
        PathErrorNamespace(_) => t.contains("path_namespace="),
        DestinationError(_) => t.contains("destination="),
        ArgPathError(_) => t.contains("path="),
        Arg0NamespaceError(_) => t.contains("arg0namespace="),
    }
}

fn rules(cx: &mut Ctx, g: &G, log: &mut Log) -> Res {
    let s = &mut cx.src;
    let mut exact: Option<(usize, String)> = None;
    let mut t = String::new();
    match s.idx(3) {
        0 => {
            // one rule among others says something ill-formed
            let what = s.idx(11);
            let (key, v): (String, Option<String>) = match what {
                0 => ("sender".into(), spoiled(s, g, BUS)),
                1 => ("interface".into(), spoiled(s, g, INTERFACE)),
                2 => ("member".into(), spoiled(s, g, MEMBER)),
                3 => ("path".into(), spoiled(s, g, PATH)),
                4 => ("path_namespace".into(), spoiled(s, g, PATH)),
                5 => ("destination".into(), spoiled(s, g, UNIQUE)),
                6 => (format!("arg{}path", g.arg_index(s)), spoiled(s, g, PATH)),
                7 => (format!("arg{}", s.urange(64, 1000)), Some(g.string(s))),
                8 => ("type".into(), Some(s.pick(&["method", "Signal", "error ", "", "method_call_", "invalid"]).to_string())),
                10 => ("arg0namespace".into(), spoiled(s, g, INTERFACE)),
                _ => ("eavesdrop".into(), Some(s.pick(&["True", "1", "", "yes", "falsee", "tru"]).to_string())),
            };
            let v = match v {
                Some(v) if !v.contains('\0') => v,
                _ => return Ok(()),
            };
            let mut l: Vec<String> = Vec::new();
            for _ in 0..s.idx(3) {
                let r = g.rule(s);
                l.push(foreign(s, &[r]));
            }
            let at = s.idx(l.len() + 1);
            l.insert(at, format!("{}={}", key, spell(s, &v)));
            t = l.join(",");
            exact = Some((what, v));
        }
        1 => {
            let l: Vec<MRule> = (0..s.urange(1, 4)).map(|_| g.rule(s)).collect();
            t.push_str(&foreign(s, &l));
            for _ in 0..s.urange(1, 3) {
                let c: Vec<char> = t.chars().collect();
                let at = s.idx(c.len() + 1);
                let mut d = c.clone();
                match s.idx(3) {
                    0 if at < c.len() => {
                        d.remove(at);
                    }
                    1 => d.truncate(at),
                    _ => d.insert(at, *s.pick(&['\'', ',', '=', '\\', 'a', '0', ' ', 'é'])),
                }
                t = d.into_iter().collect();
            }
        }
        _ => {
            t = s
                .pick(&["foo=bar", "type", "=x", "type='signal", "arg=1", "argx='1'", "arg64='x'", "arg99999999999999999999='x'", "arg-1='x'", "arg1namespace='a.b'", "type=signal,,member=X", "member=X,", "ty pe=signal", "Type=signal", "arg70path='/'", "argpath=/", "sendér=a.b"])
                .to_string();
        }
    }
    let r = cx.lib("MatchRule::decode", || {
        let e = match MatchRule::decode(&t) {
            Ok(_) => return None,
            Err(e) => e,
        };
        let mut so = rule_holds(&t, &e);
        let mut named = true;
        if let Some((what, v)) = &exact {
            use MatchRuleError::*;
            let b = v.as_bytes();
            named = match (what, &e) {
                (0, SenderError(e)) => {
                    so &= bus_holds(b, e);
                    true
                }
                (1, InterfaceError(e)) => {
                    so &= holds(INTERFACE, b, w_interface(e));
                    true
                }
                (10, Arg0NamespaceError(e)) => {
                    so &= holds(INTERFACE, b, w_interface(e));
                    true
                }
                (2, MemberError(e)) => {
                    so &= holds(MEMBER, b, w_member(e));
                    true
                }
                (3, PathError(e)) | (4, PathErrorNamespace(e)) | (6, ArgPathError(e)) => {
                    so &= holds(PATH, b, w_path(e));
                    true
                }
                (5, DestinationError(e)) => {
                    so &= holds(UNIQUE, b, w_unique(e));
                    true
                }
                (7, ArgIndexTooBig(_)) | (8, TypeUnknown) | (9, EavesdropUnknown) => true,
                _ => false,
            };
        }
        let d = match &e {
            MatchRuleError::ArgIndexTooBig(n) => vec![*n as u64],
            _ => vec![],
        };
        let mut x = text(&e, &d);
        if let (Ok(y), Some(c)) = (&x, cause(&e)) {
            if c.is_empty() || !y.contains(&c) {
                x = Err(format!("its text {:?} does not contain the cause {:?}", y, c));
            }
        }
        Some((so, named, x, format!("{:?}", e)))
    })?;
    cx.did("rule texts judged", 1);
    if let Some((so, named, x, e)) = r {
        cx.fault("ill-formed rule text");
        ensure!(named, OTHER, "{:?}: {}", cut(&t, 400), e);
        ensure!(so, UNTRUE, "{:?}: {}", cut(&t, 400), e);
        let x = x.map_err(|y| class(TEXT, format!("{:?}: {}: {}", cut(&t, 400), e, y)))?;
        log.keep(cx, 4, 0, t.as_bytes(), &format!("{} {}", x, e));
    }
    Ok(())
}

// ---------------------------------------------------------------- frames

type Want = Box<dyn Fn(&DecodeError) -> bool>;

fn put32(b: &mut [u8], at: usize, le: bool, x: u32) {
    let y = if le { x.to_le_bytes() } else { x.to_be_bytes() };
    b[at..at + 4].copy_from_slice(&y);
}

/// Room for one more in the signature.
fn roomy(m: &mut MMsg) {
    if m.sig().len() > 250 {
        m.body.clear()
    }
}

fn path_in<'a>(v: &'a mut MV) -> Option<&'a mut String> {
    match v {
        MV::Path(p) => Some(p),
        MV::Arr(_, v) | MV::Struct(v) => v.iter_mut().find_map(path_in),
        MV::Dict(b) => {
            let (k, v) = &mut **b;
            match path_in(k) {
                Some(p) => Some(p),
                None => path_in(v),
            }
        }
        MV::Var(v) => path_in(v),
        _ => None,
    }
}

/// Now and then what is damaged lies far behind in a large frame.
fn far(s: &mut Src, m: &mut MMsg) {
    if s.chance(1, 30) && m.sig().len() < MAX_SIG {
        let n = if s.flag() { s.size(3000, 140_000) } else { s.urange(66_000, 140_000) };
        m.body.insert(0, MV::Str("x".repeat(n)));
    }
}

/// A frame with exactly one fault, which has a name.
fn single(cx: &mut Ctx, g: &G) -> Option<(Vec<u8>, &'static str, Want)> {
    let s = &mut cx.src;
    let mut m = g.msg(s);
    far(s, &mut m);
    let mut o = opts(s);
    o.spans = true;
    let le = m.le;
    let kind = s.idx(18);
    let spans_of = |f: &Frame, k: K| -> Vec<Span> { f.spans.iter().filter(|p| p.k == k && p.len > 0 && p.at + p.len <= f.bytes.len()).copied().collect() };
    match kind {
        0 | 1 | 2 => {
            if kind == 2 && m.body.is_empty() {
                roomy(&mut m);
                m.body.push(MV::Bool(true));
            }
            let f = ref_encode(&m, &o);
            let k = [K::Pad, K::Nul, K::Bool][kind];
            let p = spans_of(&f, k);
            if p.is_empty() {
                return None;
            }
            let p = *s.pick(&p);
            let mut b = f.bytes;
            if k == K::Bool {
                let x = 2 + s.int(32) as u32 % (u32::MAX - 2);
                put32(&mut b, p.at, le, x);
                return Some((b, "boolean overwritten", Box::new(move |e| *e == DecodeError::InvalidBoolean(x))));
            }
            let c = 1 + s.below(255) as u8;
            b[p.at + s.idx(p.len)] = c;
            if k == K::Pad {
                Some((b, "padding overwritten", Box::new(move |e| *e == DecodeError::Padding(c))))
            } else {
                Some((b, "terminator overwritten", Box::new(move |e| *e == DecodeError::StringNotNull(c))))
            }
        }
        3 => {
            let mut b = ref_encode(&m, &o).bytes;
            let c = s.below(256) as u8;
            let i = s.idx(3);
            match i {
                0 if c != b'l' && c != b'B' => {
                    b[0] = c;
                    Some((b, "byte order mark overwritten", Box::new(move |e| *e == DecodeError::Endianness(c))))
                }
                1 if c == 0 || c > 4 => {
                    b[1] = c;
                    Some((b, "message type overwritten", Box::new(move |e| *e == DecodeError::MessageType(c))))
                }
                2 if c & !7 != 0 => {
                    b[2] = c;
                    Some((b, "flags overwritten", Box::new(move |e| *e == DecodeError::MessageFlags(c))))
                }
                _ => None,
            }
        }
        4 | 5 => {
            // a name in the header
            let mut l: Vec<(usize, &mut String)> = Vec::new();
            let f = &mut m.f;
            for (k, x) in [(PATH, &mut f.path), (INTERFACE, &mut f.interface), (MEMBER, &mut f.member), (ERROR, &mut f.error_name), (BUS, &mut f.destination), (BUS, &mut f.sender)] {
                if let Some(x) = x {
                    l.push((k, x))
                }
            }
            if l.is_empty() {
                return None;
            }
            let i = s.idx(l.len());
            let (k, x) = l.swap_remove(i);
            let t = spoiled(s, g, k)?;
            *x = t.clone();
            let b = ref_encode(&m, &o).bytes;
            let want: Want = Box::new(move |e| {
                use MessageHeaderFieldsError as F;
                let t = t.as_bytes();
                match (k, e) {
                    (PATH, DecodeError::ObjectPathError(e)) => holds(k, t, w_path(e)),
                    (INTERFACE, DecodeError::MessageHeaderFieldsError(F::InterfaceError(e))) => holds(k, t, w_interface(e)),
                    (MEMBER, DecodeError::MessageHeaderFieldsError(F::MemberError(e))) => holds(k, t, w_member(e)),
                    (ERROR, DecodeError::MessageHeaderFieldsError(F::ErrorError(e))) => holds(k, t, w_error(e)),
                    (BUS, DecodeError::MessageHeaderFieldsError(F::BusError(e))) => bus_holds(t, e),
                    // the same said without the detour
                    (INTERFACE, DecodeError::InterfaceError(e)) => holds(k, t, w_interface(e)),
                    (MEMBER, DecodeError::MemberError(e)) => holds(k, t, w_member(e)),
                    (ERROR, DecodeError::ErrorError(e)) => holds(k, t, w_error(e)),
                    (BUS, DecodeError::BusError(e)) => bus_holds(t, e),
                    _ => false,
                }
            });
            Some((b, "ill-formed name in the header", want))
        }
        6 => {
            // no UTF-8
            let f = ref_encode(&m, &o);
            let p = spans_of(&f, K::Str);
            if p.is_empty() {
                return None;
            }
            let p = *s.pick(&p);
            let mut b = f.bytes;
            let path = b[p.at] == b'/';
            let i = p.at + s.idx(p.len);
            b[i] = *s.pick(&[0x80u8, 0xff, 0xc0, 0xfe]);
            let t = b[p.at..p.at + p.len].to_vec();
            let u = std::str::from_utf8(&t).err()?;
            let want: Want = Box::new(move |e| match e {
                DecodeError::Utf8Error(x) => *x == u,
                DecodeError::ObjectPathError(e) => path && holds(PATH, &t, w_path(e)),
                _ => false,
            });
            Some((b, "text overwritten", want))
        }
        7 => {
            // a path in the body
            if !m.body.iter_mut().any(|v| path_in(v).is_some()) {
                roomy(&mut m);
                m.body.push(MV::Path("/".into()));
            }
            let t = spoiled(s, g, PATH)?;
            let p = m.body.iter_mut().find_map(path_in)?;
            *p = t.clone();
            let b = ref_encode(&m, &o).bytes;
            let want: Want = Box::new(move |e| matches!(e, DecodeError::ObjectPathError(e) if holds(PATH, t.as_bytes(), w_path(e))));
            Some((b, "ill-formed path in the body", want))
        }
        8 => {
            // a signature in the body
            let t = bad_sig(s, g);
            if t.len() > 255 || parse_sig(&t).is_some() {
                return None;
            }
            m.body = vec![MV::Sig(vec![])];
            let f = ref_encode(&m, &o);
            let mut b = f.bytes;
            b.truncate(b.len() - 2);
            b.push(t.len() as u8);
            b.extend_from_slice(&t);
            b.push(0);
            put32(&mut b, 4, le, t.len() as u32 + 2);
            let want: Want = Box::new(move |e| matches!(e, DecodeError::SignatureError(e) if sig_holds(&t, false, e)));
            Some((b, "ill-formed signature in the body", want))
        }
        9 => {
            // a required field is missing
            let typ = m.typ;
            let f = &mut m.f;
            match (typ, s.idx(3)) {
                (1, 0) | (4, 0) => f.path = None,
                (4, 1) => f.interface = None,
                (1, _) | (4, _) => f.member = None,
                (3, 0) => f.error_name = None,
                _ => f.reply_serial = None,
            }
            let f = m.f.clone();
            let b = ref_encode(&m, &o).bytes;
            let want: Want = Box::new(move |e| matches!(e, DecodeError::MessageHeaderError(e) if required(typ, e) && absent(&f, e)));
            Some((b, "header field missing", want))
        }
        10 => {
            if m.body.is_empty() {
                return None;
            }
            let f = ref_encode(&m, &o);
            let n = f.bytes.len();
            let mut b = f.bytes;
            let l = word_at(&b, 4);
            if s.flag() {
                // no body
                b.truncate(n - l as usize);
                put32(&mut b, 4, le, 0);
                let types: Vec<MT> = m.body.iter().map(|v| v.ty()).collect();
                let want: Want = Box::new(move |e| matches!(e, DecodeError::BodyLengthZero(x) if x.len() == types.len() && x.iter().zip(&types).all(|(x, t)| bridge::same_type(t, x))));
                return Some((b, "body lost", want));
            }
            // no signature: encode without the body, append it
            m.body.clear();
            o.empty_sig = false;
            let mut h = ref_encode(&m, &o).bytes;
            h.extend_from_slice(&b[n - l as usize..]);
            put32(&mut h, 4, le, l);
            Some((h, "body signature lost", Box::new(move |e| *e == DecodeError::BodySignatureMissing(l))))
        }
        11 => {
            let n = s.urange(MAX_VARIANT + 1, MAX_VARIANT + 6);
            let mut v = g.value(s, &MT::B(b'u'), &mut 3, 0);
            let mut max = 0;
            for _ in 0..n {
                max += 1;
                v = MV::Var(Box::new(v));
                if s.flag() {
                    v = MV::Struct(vec![v]);
                }
            }
            m.body = vec![v];
            let b = ref_encode(&m, &o).bytes;
            Some((b, "too many variants", Box::new(move |e| matches!(e, DecodeError::VariantDepth(x) if *x as usize > MAX_VARIANT && *x as usize <= max))))
        }
        12 => {
            // the body is shorter or longer than the header says; what follows is there
            if m.body.is_empty() {
                return None;
            }
            let mut b = ref_encode(&m, &o).bytes;
            let l = word_at(&b, 4);
            let end = b.len();
            let d = s.range(1, 16) as u32;
            let (l2, end2) = if s.flag() || l <= d { (l + d, end + d as usize) } else { (l - d, end - d as usize) };
            put32(&mut b, 4, le, l2);
            for _ in 0..s.urange(16, 40) {
                b.push(0);
            }
            let all = b.len();
            let want: Want = Box::new(move |e| match e {
                DecodeError::BodyLength(x, y) => *x == end2 && *y == end,
                // a receiver that looks at the body alone may run out of it
                DecodeError::NotEnoughBytes(a, n) => l2 < l && a < n && *a <= all,
                _ => false,
            });
            Some((b, "body length overwritten", want))
        }
        13 => {
            // a field comes twice
            let sig = m.sig();
            let has = |c: u8| match c {
                1 => m.f.path.is_some(),
                2 => m.f.interface.is_some(),
                3 => m.f.member.is_some(),
                4 => m.f.error_name.is_some(),
                5 => m.f.reply_serial.is_some(),
                6 => m.f.destination.is_some(),
                7 => m.f.sender.is_some(),
                8 => !sig.is_empty() || o.empty_sig,
                _ => m.f.unix_fds.is_some() || !m.body_fds().is_empty(),
            };
            let codes: Vec<u8> = o.order.iter().copied().filter(|c| has(*c)).collect();
            if codes.is_empty() {
                return None;
            }
            let i = s.idx(codes.len());
            let code = codes[i];
            o.lies[0] = Some(Lie { at: At::Field, nth: i, x: 1 });
            let n = m.body_fds().len();
            let v = field_value(&m, code, n);
            let b = ref_encode(&m, &o).bytes;
            let want: Want = Box::new(move |e| match e {
                DecodeError::MessageHeaderFieldsError(e) => repeated(e).map_or(false, |(c, x, _)| c == code && bridge::same(&v, x).is_ok()),
                _ => false,
            });
            Some((b, "header field repeated", want))
        }
        16 => {
            // a field of another type, or of no known code
            let mut e = Enc::new(le, false);
            let mut l = Vec::new();
            for c in &o.order {
                let have = match c {
                    1 => m.f.path.is_some(),
                    2 => m.f.interface.is_some(),
                    3 => m.f.member.is_some(),
                    4 => m.f.error_name.is_some(),
                    5 => m.f.reply_serial.is_some(),
                    6 => m.f.destination.is_some(),
                    7 => m.f.sender.is_some(),
                    _ => false,
                };
                if have {
                    l.push((*c, field_value(&m, *c, 0)));
                }
            }
            if l.is_empty() {
                return None;
            }
            let unknown = s.chance(1, 3);
            let (code, v) = if unknown {
                let c = *s.pick(&[0u8, 10, 11, 127, 128, 255]);
                let v = plain(s, g, b'?');
                let at = s.idx(l.len() + 1);
                l.insert(at, (c, v.clone()));
                (c, v)
            } else {
                let i = s.idx(l.len());
                let right = match l[i].0 {
                    1 => b'o',
                    5 => b'u',
                    _ => b's',
                };
                l[i].1 = plain(s, g, right);
                l[i].clone()
            };
            for c in [if le { b'l' } else { b'B' }, m.typ, m.flags, 1] {
                e.byte(c, K::Num);
            }
            e.u32(0, K::Num);
            e.u32(m.serial, K::Num);
            let elems = l.into_iter().map(|(c, v)| MV::Struct(vec![MV::Byte(c), MV::Var(Box::new(v))])).collect();
            e.value(&MV::Arr(MT::Struct(vec![MT::B(b'y'), MT::B(b'v')]), elems));
            e.pad(8);
            let want: Want = Box::new(move |e| match e {
                DecodeError::MessageHeaderFieldsError(MessageHeaderFieldsError::InvalidNumber(c)) => unknown && *c == code,
                DecodeError::MessageHeaderFieldsError(e) => !unknown && mistyped(e).map_or(false, |(c, x, _)| c == code && bridge::same(&v, x).is_ok()),
                _ => false,
            });
            Some((e.b, if unknown { "header field of no known code" } else { "header field of another type" }, want))
        }
        14 => {
            // the link lost the rest
            let b = ref_encode(&m, &o).bytes;
            let all = b.len();
            let n = s.idx(all);
            let want: Want = Box::new(move |e| matches!(e, DecodeError::NotEnoughBytes(a, x) if *a == n && *x > n && *x <= all));
            Some((b[..n].to_vec(), "frame cut short", want))
        }
        15 => {
            // an array that ends within its last element
            let head = s.flag();
            if !head {
                let c = *s.pick(b"nqbiuxtdsogv");
                let n = s.urange(1, 4);
                let l = (0..n).map(|_| g.value(s, &MT::B(c), &mut 3, 0)).collect();
                // Now and then far behind the start: an end beyond 65535 is named in full as well.
                m.body = if s.chance(1, 8) {
                    let n = if s.flag() { s.size(3000, 140_000) } else { s.urange(65_000, 140_000) };
                    vec![MV::Str("x".repeat(n)), MV::Arr(MT::B(c), l)]
                } else {
                    vec![MV::Arr(MT::B(c), l)]
                };
            }
            let f = ref_encode(&m, &o);
            let p = spans_of(&f, K::ArrLen);
            let p = p.iter().find(|p| head == (p.at == 12))?;
            let mut b = f.bytes;
            let l = word_at(&b, p.at);
            if l < 2 {
                return None;
            }
            put32(&mut b, p.at, le, l - 1);
            let end = p.at + 4 + l as usize;
            let want: Want = Box::new(move |e| matches!(e, DecodeError::ArrayInvalidLength(x, y) if (*x == end || *x == end + 4) && *x == y + 1));
            Some((b, "array length one too small", want))
        }
        _ => {
            // an array that claims too much
            let f = ref_encode(&m, &o);
            let p = spans_of(&f, K::ArrLen);
            if p.is_empty() {
                return None;
            }
            let p = *s.pick(&p);
            let mut b = f.bytes;
            let x = *s.pick(&[MAX_ARRAY as u32 + 1, 0x0800_0000, 0x7fff_ffff, 0xffff_ffff, 0xffff_fff8]);
            put32(&mut b, p.at, le, x);
            Some((b, "array length overwritten", Box::new(move |e| *e == DecodeError::ArrayTooBig(x))))
        }
    }
}

/// The value of a header field of the message.
fn field_value(m: &MMsg, code: u8, fds: usize) -> MV {
    let t = |x: &Option<String>| MV::Str(x.clone().unwrap_or_default());
    match code {
        1 => MV::Path(m.f.path.clone().unwrap_or_default()),
        2 => t(&m.f.interface),
        3 => t(&m.f.member),
        4 => t(&m.f.error_name),
        5 => MV::U32(m.f.reply_serial.unwrap_or(0)),
        6 => t(&m.f.destination),
        7 => t(&m.f.sender),
        8 => MV::Sig(m.body.iter().map(|v| v.ty()).collect()),
        _ => MV::U32(if fds > 0 { fds as u32 } else { m.f.unix_fds.unwrap_or(0) }),
    }
}

/// A value of another type than this one.
fn plain(s: &mut Src, g: &G, not: u8) -> MV {
    loop {
        let c = *s.pick(b"ybnqiuxtsog");
        if c != not {
            let t = if s.chance(1, 5) { MT::Arr(Box::new(MT::B(c))) } else { MT::B(c) };
            return g.value(s, &t, &mut 4, 0);
        }
    }
}

fn judge(cx: &mut Ctx, log: &mut Log, b: &[u8], given: Option<usize>, what: &'static str, want: Option<Want>, e: DecodeError) -> Res {
    let n = given.unwrap_or(0);
    let shown = cut(&format!("{:?}", e), 400);
    if let Some(w) = want {
        ensure!(w(&e), OTHER, "{}: {} for {}", what, shown, hex(&b[..b.len().min(300)]));
    }
    let so = plausible(b, n, &e);
    ensure!(so, UNTRUE, "{}: {} for {}", what, shown, hex(&b[..b.len().min(300)]));
    let t = cx.lib("showing a reason", || text(&e, &details(&e)))?;
    let t = t.map_err(|x| class(TEXT, format!("{}: {}", shown, x)))?;
    if let DecodeError::MessageHeaderFieldsError(e) = &e {
        ensure!(tells(&t, e), TEXT, "{}: its text is {:?}", shown, cut(&t, 200));
        if let Some((_, _, w)) = repeated(e).or_else(|| mistyped(e)) {
            ensure!(t.to_lowercase().contains(w), TEXT, "{}: {:?} is about {}", shown, cut(&t, 200), w);
        }
    }
    if given.is_none() {
        let t = format!("{} {:?}", t, e);
        log.keep(cx, 0, 0, b, &t);
    } else {
        cx.nontrivial();
    }
    Ok(())
}

fn frames(cx: &mut Ctx, g: &G, log: &mut Log) -> Res {
    if cx.src.chance(2, 3) {
        let (b, what, want) = match single(cx, g) {
            Some(x) => x,
            None => return Ok(()),
        };
        cx.fault(what);
        let x = Bytes::from(b.clone());
        // descriptors that are there spoil nothing
        let lots = [3i32; 64];
        let with = cx.src.flag();
        let r = cx.lib("decode", || if with { Message::decode_with_fds(x, &lots).map(|_| ()) } else { Message::decode(x).map(|_| ()) })?;
        cx.did("frames judged", 1);
        return match r {
            Ok(()) => Ok(()),
            Err(e) => {
                // without descriptors their absence is a second thing that is wrong
                let want = if !with && matches!(e, DecodeError::NotEnoughFds(0, _)) { None } else { Some(want) };
                judge(cx, log, &b, if with { Some(64) } else { None }, what, want, e)
            }
        };
    }
    let (b, what) = match cx.src.idx(4) {
        0 => {
            let (b, _, what) = damage::forged(&mut cx.src, g);
            (b, what)
        }
        1 => {
            let m = g.msg(&mut cx.src);
            let (b, _, what) = damage::dishonest(&mut cx.src, &m);
            (b, what)
        }
        k => {
            let mut m = g.msg(&mut cx.src);
            far(&mut cx.src, &mut m);
            let mut o = opts(&mut cx.src);
            o.spans = true;
            let f = ref_encode(&m, &o);
            let mut b = f.bytes;
            let other = b.clone();
            let what = if k == 2 { damage::targeted(&mut cx.src, &mut b, m.le, &f.spans) } else { damage::random(&mut cx.src, &mut b, &other) };
            if cx.src.chance(1, 4) {
                damage::random(&mut cx.src, &mut b, &other);
            }
            (b, what)
        }
    };
    cx.fault(what);
    let x = Bytes::from(b.clone());
    let r = cx.lib("decode", || Message::decode(x).map(|_| ()))?;
    cx.did("frames judged", 1);
    match r {
        Ok(()) => Ok(()),
        Err(e) => judge(cx, log, &b, None, what, None, e),
    }
}

/// Descriptors that did not come.
fn descriptors(cx: &mut Ctx, g: &G, log: &mut Log) -> Res {
    let m = g.msg_fd(&mut cx.src);
    let o = opts(&mut cx.src);
    let f = ref_encode(&m, &o);
    let n = f.fds.len();
    if n == 0 {
        return Ok(());
    }
    let have = cx.src.idx(n);
    cx.fault("descriptors lost");
    let b = f.bytes.clone();
    let r = cx.lib("decode", || Message::decode_with_fds(Bytes::from(f.bytes), &f.fds[..have]).map(|_| ()))?;
    cx.did("frames judged", 1);
    match r {
        Ok(()) => Ok(()),
        Err(e) => {
            let want: Want = Box::new(move |e| matches!(e, DecodeError::NotEnoughFds(a, i) if *a == have && *i >= have && *i < n));
            judge(cx, log, &b, Some(have), "descriptors lost", Some(want), e)
        }
    }
}

// ---------------------------------------------------------------- parts of messages

fn parts(cx: &mut Ctx, g: &G) -> Res {
    let s = &mut cx.src;
    match s.idx(6) {
        0 => {
            // a header with something missing
            let typ = s.range(1, 4) as u8;
            let mut f = g.msg_of(s, typ).f;
            for _ in 0..s.urange(1, 3) {
                match s.idx(5) {
                    0 => f.path = None,
                    1 => f.interface = None,
                    2 => f.member = None,
                    3 => f.error_name = None,
                    _ => f.reply_serial = None,
                }
            }
            let r = cx.lib("MessageHeader::new", || -> Result<_, String> {
                let l = bridge::fields(&f)?;
                let e = MessageHeader::new(true, bridge::mtype(typ)?, MessageFlags::empty(), 1, 1, l).err();
                Ok(e.map(|e| (required(typ, &e) && absent(&f, &e), text(&e, &[]), format!("{:?}", e))))
            })?;
            said(cx, r, || format!("a header of type {} with {:?}", typ, f))
        }
        1 => {
            // header fields taken from values
            let m = g.msg(s);
            let mut l: Vec<(u8, MV)> = (1..=7).filter(|c| [m.f.path.is_some(), m.f.interface.is_some(), m.f.member.is_some(), m.f.error_name.is_some(), m.f.reply_serial.is_some(), m.f.destination.is_some(), m.f.sender.is_some()][*c as usize - 1]).map(|c| (c, field_value(&m, c, 0))).collect();
            s.shuffle(&mut l);
            if l.is_empty() {
                return Ok(());
            }
            let i = s.idx(l.len());
            let what = s.idx(7);
            let good = |l: &[(u8, MV)]| -> Vec<MV> { l.iter().map(|(c, v)| MV::Struct(vec![MV::Byte(*c), MV::Var(Box::new(v.clone()))])).collect() };
            let mut code = l[i].0;
            let mut odd = l[i].1.clone();
            let vals: Vec<MV> = match what {
                0 => {
                    // the second one may say something else
                    let at = i + 1 + s.idx(l.len() - i);
                    if s.flag() {
                        odd = plain(s, g, b'?');
                    }
                    l.insert(at, (code, odd.clone()));
                    good(&l)
                }
                1 => {
                    odd = plain(s, g, match code {
                        1 => b'o',
                        5 => b'u',
                        _ => b's',
                    });
                    l[i].1 = odd.clone();
                    good(&l)
                }
                2 => {
                    code = *s.pick(&[0u8, 10, 11, 100, 255]);
                    l[i].0 = code;
                    good(&l)
                }
                _ => {
                    let mut v = good(&l);
                    odd = match what {
                        3 => plain(s, g, b'?'),
                        4 => MV::Struct((0..*s.pick(&[1usize, 3, 4, 7])).map(|_| MV::Var(Box::new(MV::Byte(1)))).collect()),
                        5 => MV::Struct(vec![MV::Byte(code), plain(s, g, b'?')]),
                        _ => MV::Struct(vec![plain(s, g, b'y'), MV::Var(Box::new(odd))]),
                    };
                    v[i] = odd.clone();
                    v
                }
            };
            let r = cx.lib("MessageHeaderFields::try_from", || -> Result<_, String> {
                let v: Result<Vec<Value>, String> = vals.iter().map(bridge::value).collect();
                let e = match MessageHeaderFields::try_from(v?) {
                    Ok(_) => return Ok(None),
                    Err(e) => e,
                };
                use MessageHeaderFieldsError as F;
                let is = |x: &Value, m: &MV| bridge::same(m, x).is_ok();
                let inner = |n: usize| match &odd {
                    MV::Struct(v) => v[n].clone(),
                    v => v.clone(),
                };
                let mut word = None;
                let so = match (&e, what) {
                    (F::InvalidNumber(c), 2) => *c == code,
                    (F::Struct(x), 3) => is(x, &odd),
                    (F::Length(n), 4) => matches!(&odd, MV::Struct(v) if v.len() == *n),
                    (F::Variant(x), 5) => is(x, &inner(1)),
                    (F::Byte(x), 6) => is(x, &inner(0)),
                    (e, 0) => repeated(e).map_or(false, |(c, x, w)| {
                        word = Some(w);
                        c == code && is(x, &odd)
                    }),
                    (e, 1) => mistyped(e).map_or(false, |(c, x, w)| {
                        word = Some(w);
                        c == code && is(x, &odd)
                    }),
                    _ => false,
                };
                let d = match &e {
                    F::InvalidNumber(c) => vec![*c as u64],
                    F::Length(n) => vec![*n as u64],
                    _ => vec![],
                };
                let mut t = text(&e, &d);
                if let Ok(x) = &t {
                    if !tells(x, &e) {
                        t = Err(format!("the value is not in its text {:?}", cut(x, 200)));
                    }
                }
                if let (Ok(x), Some(w)) = (&t, word) {
                    if !x.to_lowercase().contains(w) {
                        t = Err(format!("it is about {}, its text is {:?}", w, cut(x, 200)));
                    }
                }
                Ok(Some((so, t, cut(&format!("{:?}", e), 300))))
            })?;
            said(cx, r, || format!("header fields with a fault of kind {} at {}: {:?}", what, i, vals))
        }
        2 | 3 => {
            // an array of mixed types
            let t = g.ty(s, 2);
            let n = s.urange(1, 5);
            let mut v: Vec<MV> = (0..n).map(|_| g.value(s, &t, &mut 4, 1)).collect();
            let i = s.idx(n);
            let u = g.ty(s, 2);
            v[i] = g.value(s, &u, &mut 4, 1);
            if s.chance(1, 4) {
                let u = g.ty(s, 1);
                let j = s.idx(n);
                v[j] = g.value(s, &u, &mut 4, 1);
            }
            let r = cx.lib("Array::new", || -> Result<_, String> {
                let x: Result<Vec<Value>, String> = v.iter().map(bridge::value).collect();
                Ok(Array::new(x?, bridge::ty(&t)).err().map(|e| {
                    let so = match &e {
                        ArrayError::TypeMismatch(want, got) => bridge::same_type(&t, want) && want != got && v.iter().any(|x| x.ty() != t && bridge::same_type(&x.ty(), got)),
                        ArrayError::TypeError(_) => false,
                    };
                    let mut x = text(&e, &[]);
                    if let (Ok(y), ArrayError::TypeMismatch(want, got)) = (&x, &e) {
                        if !y.contains(&want.to_string()) || !y.contains(&got.to_string()) {
                            x = Err(format!("its text {:?} does not name both types", cut(y, 200)));
                        } else if let (Some(i), Some(j)) = (y.find("expected"), y.find(" got ")) {
                            if i < j && !(y[i + 8..j].contains(&want.to_string()) && y[j + 5..].contains(&got.to_string())) {
                                x = Err(format!("its text {:?} names the types the wrong way round", cut(y, 200)));
                            }
                        }
                    }
                    (so, x, cut(&format!("{:?}", e), 300))
                }))
            })?;
            said(cx, r, || format!("an array of {} with {:?}", t.text(), v))
        }
        4 => {
            let r = cx.lib("Struct::try_from", || Ok(Struct::try_from(Vec::new()).err().map(|e| (e == StructError::Empty, text(&e, &[]), format!("{:?}", e)))))?;
            said(cx, r, || "an empty struct".into())
        }
        _ => {
            // a message that cannot be written
            let mut m = g.msg(s);
            let k = s.idx(3);
            let mut v = MV::Byte(1);
            let mut long = 0;
            match k {
                0 => {
                    let n = s.urange(30, 40);
                    for _ in 0..n {
                        v = MV::Struct(vec![v]);
                    }
                    m.body = vec![v];
                }
                1 => {
                    let n = s.urange(33, 40);
                    let mut t = MT::B(b'y');
                    for _ in 1..n {
                        t = MT::Arr(Box::new(t));
                    }
                    m.body = vec![MV::Arr(t, vec![])];
                }
                _ => {
                    long = s.urange(250, 300);
                    m.body = (0..long).map(|_| MV::Byte(3)).collect();
                }
            }
            let t = m.sig().into_bytes();
            let r = cx.lib("encode", || -> Result<_, String> {
                let x = bridge::message(&m)?;
                Ok(x.encode().err().map(|e| {
                    let so = match &e {
                        // told as soon as it is too long
                        EncodeError::SignatureError(TypeError::ExceedMaximum(n)) => *n > 255 && *n <= long,
                        EncodeError::SignatureError(e) => sig_holds(&t, false, e),
                        _ => false,
                    };
                    (so, text(&e, &[]), format!("{:?}", e))
                }))
            })?;
            said(cx, r, || format!("a message with a body of type {:?}", cut(&m.sig(), 300)))
        }
    }
}

fn said(cx: &mut Ctx, r: Result<Option<(bool, Result<String, String>, String)>, String>, what: impl Fn() -> String) -> Res {
    cx.did("parts judged", 1);
    match r {
        // what cannot be built is another property's business
        Err(_) | Ok(None) => Ok(()),
        Ok(Some((so, t, e))) => {
            cx.nontrivial();
            cx.fault("faulty part of a message");
            cx.mix_bytes(e.as_bytes());
            ensure!(so, UNTRUE, "{}: {}", cut(&what(), 500), e);
            if let Err(x) = t {
                fail!(TEXT, "{}: {}: {}", cut(&what(), 300), e, x);
            }
            Ok(())
        }
    }
}

fn run(cx: &mut Ctx) -> Res {
    let mut g = G::draw(&mut cx.src, true);
    g.nodes = g.nodes.min(40);
    let z = if cx.src.chance(1, 20) { Some(zygote(cx, &work)) } else { None };
    let mut log = Log { z, kept: Vec::new() };
    for _ in 0..cx.src.urange(2, 16) {
        cx.now += MS * cx.src.range(1, 1000);
        match cx.src.weighted(&[3, 2, 3, 7, 1, 3]) {
            0 => names(cx, &g, &mut log)?,
            1 => signatures(cx, &g, &mut log)?,
            2 => rules(cx, &g, &mut log)?,
            3 => frames(cx, &g, &mut log)?,
            4 => descriptors(cx, &g, &mut log)?,
            _ => parts(cx, &g)?,
        }
        if log.z.is_some() && cx.src.chance(1, 4) {
            log.crash(cx)?;
        }
    }
    log.crash(cx)?;
    cx.sh.sim_ns = cx.now;
    Ok(())
}
