//! C15: a node logs what it handles to sinks that fill up, fail, glitch, split and unwind.
use super::damage;
use super::util::*;
use super::Prop;
use crate::bridge;
use crate::choice::Src;
use crate::ensure;
use crate::gen::G;
use crate::kernel::*;
use crate::model::*;
use crate::sink::SINK_PANIC;
use bytes::Bytes;
use dbus_message_parser::decode::DecodeError;
use dbus_message_parser::encode::EncodeError;
use dbus_message_parser::match_rule::{MatchRule, MatchRuleError};
use dbus_message_parser::message::{Message, MessageHeaderError, MessageHeaderFieldsError};
use dbus_message_parser::value::{
    ArrayError, Bus, BusError, Error, ErrorError, Interface, InterfaceError, Member, MemberError, ObjectPath, ObjectPathError, StructError, Type,
    TypeError, UniqueConnectionName, UniqueConnectionNameError, WellKnownBusName, WellKnownBusNameError,
};
use std::convert::TryFrom;
use std::fmt::{self, Display};
use std::io;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const PROP: Prop = Prop {
    id: "C15",
    run,
    quick: 650000,
    factor: 24,
    rule: "a node handles messages, rules, names, paths, types and the errors of refused ones, and writes each as text to its logs: text sinks that take pieces whole or in part, byte sinks that write short, are interrupted or are buffered, all of which fill up after any number of bytes, fail for a while, or unwind. Every attempt must report failure exactly if its sink failed, hand over a prefix of the full text and nothing after the failure; when there is room again the same value must give the full text, which for names, paths, types, rules and rule values is known from the reference model. Non-trivial: a sink failed or split a write.",
    real: "every Display implementation of the library",
    stub: "text sinks, disk, logging node",
    known: None,
};

struct Thing {
    what: &'static str,
    /// what the specification says the text is, for values that have a specified text
    full: Option<String>,
    d: Box<dyn Display>,
}

fn t<D: Display + 'static>(what: &'static str, full: Option<String>, d: D) -> Thing {
    Thing { what, full, d: Box::new(d) }
}

/// A text that is nearly a name.
fn nearly(s: &mut Src, x: String) -> String {
    let mut c: Vec<char> = x.chars().collect();
    for _ in 0..s.urange(1, 2) {
        let i = s.idx(c.len() + 1);
        match s.idx(5) {
            0 => c.insert(i, *s.pick(&['.', '/', ':', '-', '\'', ' ', 'é', '0', '\n', '😀', '\u{0}'])),
            1 if i < c.len() => {
                c.remove(i);
            }
            2 => c.insert(0, *s.pick(&['.', '9', '/', ':'])),
            3 => c.push(*s.pick(&['.', '/', '-'])),
            _ => {
                let n = s.size(20, 400);
                for _ in 0..n {
                    c.push('a')
                }
            }
        }
    }
    c.into_iter().collect()
}

fn type_error(s: &mut Src) -> TypeError {
    let (a, b, x, y) = (s.int(8) as u8, s.int(8) as u8, s.int(64) as usize, s.int(64) as usize);
    match s.idx(8) {
        0 => TypeError::InvalidChar(a),
        1 => TypeError::ArrayDepth(a),
        2 => TypeError::StructDepth(a),
        3 => TypeError::DictDepth(a),
        4 => TypeError::TooShort(x, y),
        5 => TypeError::ClosingCurlyBracket(x, b),
        6 => TypeError::MultiplyTypes,
        _ => TypeError::ExceedMaximum(x),
    }
}
fn unique_error(s: &mut Src) -> UniqueConnectionNameError {
    use UniqueConnectionNameError as E;
    match s.idx(9) {
        0 => E::BeginColon,
        1 => E::BeginDot,
        2 => E::EndDot,
        3 => E::ElementBeginDot,
        4 => E::Colon,
        5 => E::Empty,
        6 => E::Elements,
        7 => E::ExceedMaximum(s.int(64) as usize),
        _ => E::InvalidChar(s.int(8) as u8),
    }
}
fn known_error(s: &mut Src) -> WellKnownBusNameError {
    use WellKnownBusNameError as E;
    match s.idx(9) {
        0 => E::BeginDigit,
        1 => E::BeginDot,
        2 => E::EndDot,
        3 => E::ElementBeginDigit,
        4 => E::ElementBeginDot,
        5 => E::Empty,
        6 => E::Elements,
        7 => E::ExceedMaximum(s.int(64) as usize),
        _ => E::InvalidChar(s.int(8) as u8),
    }
}
fn bus_error(s: &mut Src) -> BusError {
    if s.flag() {
        BusError::UniqueConnectionNameError(unique_error(s))
    } else {
        BusError::WellKnownBusNameError(known_error(s))
    }
}
fn path_error(s: &mut Src) -> ObjectPathError {
    use ObjectPathError as E;
    match s.idx(5) {
        0 => E::BeginAlphanumericAndUnderscoreAndHyphen,
        1 => E::EndSlash,
        2 => E::Empty,
        3 => E::ElementEmtpy,
        _ => E::InvalidChar(s.int(8) as u8),
    }
}
fn interface_error(s: &mut Src) -> InterfaceError {
    use InterfaceError as E;
    match s.idx(7) {
        0 => E::ElementBeginDigit,
        1 => E::ElementBeginDot,
        2 => E::EndDot,
        3 => E::Empty,
        4 => E::Elements,
        5 => E::ExceedMaximum(s.int(64) as usize),
        _ => E::InvalidChar(s.int(8) as u8),
    }
}
fn error_error(s: &mut Src) -> ErrorError {
    use ErrorError as E;
    match s.idx(7) {
        0 => E::ElementBeginDigit,
        1 => E::ElementBeginDot,
        2 => E::EndDot,
        3 => E::Empty,
        4 => E::Elements,
        5 => E::ExceedMaximum(s.int(64) as usize),
        _ => E::InvalidChar(s.int(8) as u8),
    }
}
fn member_error(s: &mut Src) -> MemberError {
    match s.idx(4) {
        0 => MemberError::Empty,
        1 => MemberError::BeginDigit,
        2 => MemberError::ExceedMaximum(s.int(64) as usize),
        _ => MemberError::InvalidChar(s.int(8) as u8),
    }
}
fn header_error(s: &mut Src) -> MessageHeaderError {
    use MessageHeaderError as E;
    match s.idx(5) {
        0 => E::MissingPath,
        1 => E::MissingInterface,
        2 => E::MissingMember,
        3 => E::MissingErrorName,
        _ => E::MissingReplySerial,
    }
}
fn types(s: &mut Src, g: &G) -> Vec<Type> {
    (0..s.idx(4)).map(|_| bridge::ty(&g.ty(s, 3))).collect()
}
fn fields_error(s: &mut Src, g: &G) -> MessageHeaderFieldsError {
    use MessageHeaderFieldsError as E;
    let ty = no_variant_or_fd(&g.ty(s, 2));
    let mut n = 5;
    let v = g.value(s, &ty, &mut n, 1);
    let v = match bridge::value(&v) {
        Ok(v) => v,
        Err(_) => return E::InvalidNumber(0),
    };
    match s.idx(10) {
        0 => E::InterfaceError(interface_error(s)),
        1 => E::MemberError(member_error(s)),
        2 => E::ErrorError(error_error(s)),
        3 => E::BusError(bus_error(s)),
        4 => E::InvalidNumber(s.int(8) as u8),
        5 => E::Length(s.int(64) as usize),
        6 => E::Struct(v),
        7 => E::Path(v),
        8 => E::MultipleMember(v),
        _ => E::Signature(v),
    }
}
fn decode_error(s: &mut Src, g: &G) -> DecodeError {
    use DecodeError as E;
    let (a, x, y, w) = (s.int(8) as u8, s.int(64) as usize, s.int(64) as usize, s.int(32) as u32);
    match s.idx(24) {
        0 => E::NotEnoughBytes(x, y),
        1 => E::InvalidBoolean(w),
        2 => E::StringNotNull(a),
        3 => E::BusError(bus_error(s)),
        4 => E::ObjectPathError(path_error(s)),
        5 => E::InterfaceError(interface_error(s)),
        6 => E::MemberError(member_error(s)),
        7 => E::ErrorError(error_error(s)),
        8 => E::SignatureError(type_error(s)),
        9 => E::StructError(StructError::Empty),
        10 => E::Padding(a),
        11 => E::ArrayTooBig(w),
        12 => E::ArrayInvalidLength(x, y),
        13 => E::Endianness(a),
        14 => E::MessageType(a),
        15 => E::MessageFlags(a),
        16 => E::BodyLengthZero(types(s, g)),
        17 => E::BodySignatureMissing(w),
        18 => E::NotEnoughFds(x, y),
        19 => E::BodyLength(x, y),
        20 => E::MessageHeaderError(header_error(s)),
        21 => E::MessageHeaderFieldsError(fields_error(s, g)),
        22 => E::IntegerOverflow(x, y),
        _ => E::VariantDepth(a),
    }
}
fn rule_error(s: &mut Src) -> MatchRuleError {
    use MatchRuleError as E;
    match s.idx(16) {
        0 => E::KeyInvalidChar(*s.pick(&['a', '\'', '😀', '\u{0}', 'é'])),
        1 => E::KeyEmpty,
        2 => E::KeyUnknown,
        3 => E::MissingEqual,
        4 => E::ValueClosingQuote,
        5 => E::SenderError(bus_error(s)),
        6 => E::TypeUnknown,
        7 => E::InterfaceError(interface_error(s)),
        8 => E::MemberError(member_error(s)),
        9 => E::PathError(path_error(s)),
        10 => E::PathErrorNamespace(path_error(s)),
        11 => E::DestinationError(unique_error(s)),
        12 => E::ArgIndexTooBig(s.int(64) as usize),
        13 => E::ArgPathError(path_error(s)),
        14 => E::Arg0NamespaceError(interface_error(s)),
        _ => E::EavesdropUnknown,
    }
}

/// An error the library itself makes, refusing something.
fn refused(cx: &mut Ctx, g: &G) -> Res<Option<Thing>> {
    let s = &mut cx.src;
    Ok(match s.idx(10) {
        0 | 1 => {
            let m = g.msg(s);
            let mut o = opts(s);
            o.spans = true;
            let f = ref_encode(&m, &o);
            let mut b = f.bytes;
            if s.chance(1, 4) {
                let n = s.idx(b.len());
                b.truncate(n);
            } else {
                damage::targeted(s, &mut b, m.le, &f.spans);
            }
            let n = s.idx(3);
            let fds: Vec<i32> = (0..n as i32).collect();
            let r = cx.lib("decode", || Message::decode_with_fds(Bytes::from(b), &fds))?;
            r.err().map(|e| t("DecodeError", None, e))
        }
        2 | 3 => {
            let mut x = ref_rule_text(&g.rule(s));
            if s.flag() {
                x.push(',');
                x.push_str(&ref_rule_text(&g.rule(s)));
            }
            let x = nearly(s, x);
            let r = cx.lib("MatchRule::decode", || MatchRule::decode(&x))?;
            r.err().map(|e| t("MatchRuleError", None, e))
        }
        4 => {
            let i = g.interface(s);
            let x = nearly(s, i);
            cx.lib("Interface::try_from", || Interface::try_from(x).err())?.map(|e| t("InterfaceError", None, e))
        }
        5 => {
            let i = g.interface(s);
            let x = nearly(s, i);
            cx.lib("Error::try_from", || Error::try_from(x).err())?.map(|e| t("ErrorError", None, e))
        }
        6 => {
            let i = g.member(s);
            let x = nearly(s, i);
            cx.lib("Member::try_from", || Member::try_from(x).err())?.map(|e| t("MemberError", None, e))
        }
        7 => {
            let i = g.path(s);
            let x = nearly(s, i);
            cx.lib("ObjectPath::try_from", || ObjectPath::try_from(x).err())?.map(|e| t("ObjectPathError", None, e))
        }
        8 => {
            let i = g.bus(s);
            let x = nearly(s, i);
            cx.lib("Bus::try_from", || Bus::try_from(x).err())?.map(|e| t("BusError", None, e))
        }
        _ => {
            let ty = g.ty(s, 3).text();
            let x = nearly(s, ty);
            cx.lib("from_string_to_signature", || Type::from_string_to_signature(&x).err())?.map(|e| t("TypeError", None, e))
        }
    })
}

fn ready(what: &'static str, r: Result<Thing, String>) -> Res<Thing> {
    r.map_err(|e| class("a valid value is refused", format!("{}: {}", what, cut(&e, 300))))
}

/// Something to write, and what its text must be.
fn thing(cx: &mut Ctx, g: &G) -> Res<Thing> {
    if cx.src.chance(1, 5) {
        if let Some(x) = refused(cx, g)? {
            return Ok(x);
        }
    }
    let s = &mut cx.src;
    Ok(match s.weighted(&[8, 2, 2, 2, 2, 2, 1, 2, 2, 4, 1, 8]) {
        0 => {
            let r = g.rule(s);
            let x = ref_rule_text(&r);
            ready("MatchRule", cx.lib("making a rule", || bridge::rule(&r).map(|d| t("MatchRule", Some(x), d)))?)?
        }
        1 => {
            // the value of a rule about an argument, alone
            let (i, v) = (g.arg_index(s), g.string(s));
            let w = MRule::Arg(i, v);
            let x = ref_rule_text(&w);
            let x = x[x.find('=').unwrap_or(0) + 1..].to_string();
            ready(
                "Arg",
                cx.lib("making a rule", || match bridge::rule(&w)? {
                    MatchRule::Arg(a) => Ok(t("Arg", Some(x), a)),
                    _ => Err("another rule".into()),
                })?,
            )?
        }
        2 => {
            let (i, p) = (g.arg_index(s), g.path(s));
            ready(
                "ArgPath",
                cx.lib("making a rule", || match bridge::rule(&MRule::ArgPath(i, p.clone()))? {
                    MatchRule::ArgPath(a) => Ok(t("ArgPath", Some(p), a)),
                    _ => Err("another rule".into()),
                })?,
            )?
        }
        3 => {
            let b = g.bus(s);
            ready("Bus", cx.lib("Bus::try_from", || bridge::bus(&b).map(|d| t("Bus", Some(b), d)))?)?
        }
        4 => {
            let b = g.bus(s);
            ready(
                "a bus name",
                cx.lib("a bus name", || {
                    if b.starts_with(':') {
                        UniqueConnectionName::try_from(b.as_str()).map(|d| t("UniqueConnectionName", Some(b.clone()), d)).map_err(|e| e.to_string())
                    } else {
                        WellKnownBusName::try_from(b.as_str()).map(|d| t("WellKnownBusName", Some(b.clone()), d)).map_err(|e| e.to_string())
                    }
                })?,
            )?
        }
        5 => {
            let x = g.interface(s);
            ready("Interface", cx.lib("Interface::try_from", || bridge::interface(&x).map(|d| t("Interface", Some(x), d)))?)?
        }
        6 => {
            let x = g.interface(s);
            ready("Error", cx.lib("Error::try_from", || bridge::error(&x).map(|d| t("Error", Some(x), d)))?)?
        }
        7 => {
            let x = g.member(s);
            ready("Member", cx.lib("Member::try_from", || bridge::member(&x).map(|d| t("Member", Some(x), d)))?)?
        }
        8 => {
            let x = g.path(s);
            ready("ObjectPath", cx.lib("ObjectPath::try_from", || bridge::path(&x).map(|d| t("ObjectPath", Some(x), d)))?)?
        }
        9 => {
            // types of any shape, beyond what a signature may contain as well
            let mut x = match s.weighted(&[4, 1]) {
                0 => g.ty(s, 4),
                _ => g.tower(s),
            };
            for _ in 0..s.size(2, 60) {
                x = match s.idx(3) {
                    0 => MT::Arr(Box::new(x)),
                    1 => MT::Struct(vec![x]),
                    _ => MT::Dict(Box::new((MT::B(b's'), x))),
                };
            }
            let d = cx.lib("making a type", || bridge::ty(&x))?;
            t("Type", Some(x.text()), d)
        }
        10 => {
            let k = s.range(1, 4) as u8;
            ready("MessageType", cx.lib("MessageType::try_from", || bridge::mtype(k).map(|d| t("MessageType", Some(TYPE_NAMES[k as usize - 1].into()), d)))?)?
        }
        _ => match s.idx(13) {
            0 => t("TypeError", None, type_error(s)),
            1 => t("UniqueConnectionNameError", None, unique_error(s)),
            2 => t("WellKnownBusNameError", None, known_error(s)),
            3 => t("BusError", None, bus_error(s)),
            4 => t("ObjectPathError", None, path_error(s)),
            5 => t("InterfaceError", None, interface_error(s)),
            6 => t("ErrorError", None, error_error(s)),
            7 => t("MemberError", None, member_error(s)),
            8 => t("MessageHeaderError", None, header_error(s)),
            9 => match s.idx(2) {
                0 => t("StructError", None, StructError::Empty),
                _ => {
                    let a = match s.flag() {
                        true => ArrayError::TypeMismatch(bridge::ty(&g.ty(s, 4)), bridge::ty(&g.ty(s, 4))),
                        _ => ArrayError::TypeError(type_error(s)),
                    };
                    t("ArrayError", None, a)
                }
            },
            10 => t(
                "EncodeError",
                None,
                match s.idx(5) {
                    0 => EncodeError::ArrayTooBig(s.int(64) as usize),
                    1 => EncodeError::BodyLengthZero(types(s, g)),
                    2 => EncodeError::BodySignatureMissing(s.int(32) as u32),
                    3 => EncodeError::MessageTooBig(s.int(64) as usize),
                    _ => EncodeError::SignatureError(type_error(s)),
                },
            ),
            11 => t("MatchRuleError", None, rule_error(s)),
            _ => t("DecodeError", None, decode_error(s, g)),
        },
    })
}

/// A log: text goes in until the room is used up.
#[derive(Clone)]
struct Log {
    room: usize,
    /// takes what fits of a piece, or nothing of it
    whole: bool,
    /// unwinds instead of reporting
    panics: bool,
    /// works again after having failed once
    glitch: bool,
    /// most bytes one write of a byte sink takes; which writes are interrupted first
    short: usize,
    interrupt: u64,
    zero: bool,
    got: Vec<u8>,
    pieces: u64,
    failed: bool,
    split: bool,
    interrupted: u64,
}
impl Log {
    fn take(&mut self, b: &[u8], text: bool) -> Result<usize, ()> {
        self.pieces += 1;
        if self.failed {
            if self.glitch {
                self.got.extend_from_slice(b);
                return Ok(b.len());
            }
            return Err(());
        }
        let left = self.room - self.got.len();
        if b.len() <= left {
            self.got.extend_from_slice(b);
            return Ok(b.len());
        }
        if !self.whole {
            let mut n = left;
            if text {
                while n > 0 && (b[n] & 0xC0) == 0x80 {
                    n -= 1;
                }
            } else if n > 0 {
                self.split = true;
                self.got.extend_from_slice(&b[..n]);
                return Ok(n);
            }
            self.got.extend_from_slice(&b[..n]);
        }
        self.failed = true;
        if self.panics {
            panic!("{}", SINK_PANIC);
        }
        Err(())
    }
}
impl fmt::Write for Log {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.take(s.as_bytes(), true).map(|_| ()).map_err(|_| fmt::Error)
    }
}
impl io::Write for Log {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.pieces += 1;
        if self.interrupt != 0 && self.pieces % self.interrupt == 0 && self.interrupted < 50 {
            self.interrupted += 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        let n = b.len().min(self.short);
        if n < b.len() {
            self.split = true;
        }
        match self.take(&b[..n], false) {
            Ok(n) => Ok(n),
            Err(()) if self.zero => Ok(0),
            Err(()) => Err(io::Error::from(io::ErrorKind::StorageFull)),
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Way {
    Text,
    Bytes,
    Buffered,
}

/// One attempt.
fn attempt(cx: &mut Ctx, x: &Thing, full: &str, log: &mut Log, way: Way, cap: usize) -> Res {
    let start = log.got.len();
    let r = cx.lib("writing text", || {
        catch_unwind(AssertUnwindSafe(|| match way {
            Way::Text => fmt::Write::write_fmt(log, format_args!("{}", x.d)).is_ok(),
            Way::Bytes => io::Write::write_fmt(log, format_args!("{}", x.d)).is_ok(),
            Way::Buffered => {
                let mut b = io::BufWriter::with_capacity(cap, &mut *log);
                let mut ok = io::Write::write_fmt(&mut b, format_args!("{}", x.d)).is_ok();
                if ok {
                    ok = io::Write::flush(&mut b).is_ok();
                }
                // what is left of a failed log is dropped with it
                let _ = b.into_parts();
                ok
            }
        }))
    })?;
    cx.did("texts written", 1);
    cx.did("pieces handed to sinks", log.pieces);
    let got = &log.got[start..];
    let show = || format!("{} {:?} into {:?} ({} of {} bytes): {:?}", x.what, cut(full, 200), way, got.len(), full.len(), cut(&String::from_utf8_lossy(got), 200));
    ensure!(full.as_bytes().starts_with(got), "a sink received something that is no prefix of the text", "{}", show());
    match r {
        Err(p) => {
            let ours = p.downcast_ref::<String>().map(|s| s == SINK_PANIC) == Some(true) || p.downcast_ref::<&str>().map(|s| *s == SINK_PANIC) == Some(true);
            ensure!(ours && log.failed && log.panics, "writing text panics", "{}: {}", show(), last_panic());
            cx.fault("sink unwinds");
        }
        Ok(true) => {
            ensure!(!log.failed, "a failure of the sink is not reported", "{}", show());
            ensure!(got.len() == full.len(), "a written text is not complete", "{}", show());
        }
        Ok(false) => {
            ensure!(log.failed, "a failure is reported though the sink did not fail", "{}", show());
            cx.fault("sink fails");
        }
    }
    if log.split {
        cx.fault("write split");
    }
    if log.interrupted > 0 {
        cx.fault("write interrupted");
    }
    Ok(())
}

fn run(cx: &mut Ctx) -> Res {
    let mut g = G::draw(&mut cx.src, true);
    tame(&mut g);
    rarely_huge(&mut cx.src, &mut g);
    let net = NetCfg::draw(cx);
    let mut q: Queue<(usize, usize)> = Queue::new();
    let n = cx.src.urange(1, 5);
    let mut things = Vec::new();
    for i in 0..n {
        let x = thing(cx, &g)?;
        // the text when nothing fails
        let mut full = match &x.full {
            Some(f) => f.clone(),
            None => cx.lib("writing text", || x.d.to_string())?,
        };
        if x.full.is_some() {
            let have = cx.lib("writing text", || x.d.to_string())?;
            let head = if x.what == "Arg" { "arg0=" } else { "" };
            if have != full && matches!(x.what, "Arg" | "MatchRule") && ref_rules(&format!("{}{}", head, have)) == ref_rules(&format!("{}{}", head, full)) {
                // the same rule, quoted in another way
                full = have.clone();
            }
            ensure!(have == full, "the text is not the specified one", "{} {:?} instead of {:?}", x.what, cut(&have, 300), cut(&full, 300));
        }
        cx.mix_bytes(full.as_bytes());
        things.push((x, full));
        for d in net.deliver(cx) {
            q.at(cx.now + d, (i, 0));
        }
    }
    // a log shared by several texts, until it is full
    let mut shared = Log { room: cx.src.size(200, 4000), whole: cx.src.flag(), panics: false, glitch: false, short: usize::MAX, interrupt: 0, zero: false, got: Vec::new(), pieces: 0, failed: false, split: false, interrupted: 0 };
    let mut shared_full = String::new();
    while let Some((i, tries)) = q.pop(cx) {
        let (x, full) = &things[i];
        let len = full.len();
        cx.ev("write", &[i as u64, tries as u64, len as u64]);
        let way = *cx.src.pick(&[Way::Text, Way::Text, Way::Text, Way::Bytes, Way::Buffered]);
        let cap = cx.src.idx(20);
        let room = match cx.src.weighted(&[6, 1, 1, 1]) {
            0 if len > 0 => cx.src.idx(len),
            1 => len,
            2 => 0,
            _ => len.saturating_sub(1),
        };
        let byte = way != Way::Text;
        let mut log = Log {
            room,
            whole: !byte && cx.src.flag(),
            panics: way != Way::Buffered && cx.src.chance(1, 6),
            glitch: way != Way::Buffered && cx.src.chance(1, 3),
            short: if byte && cx.src.flag() { cx.src.urange(1, 7) } else { usize::MAX },
            interrupt: if byte && cx.src.chance(1, 3) { cx.src.range(2, 4) } else { 0 },
            zero: byte && cx.src.chance(1, 3),
            got: Vec::new(),
            pieces: 0,
            failed: false,
            split: false,
            interrupted: 0,
        };
        attempt(cx, x, full, &mut log, way, cap)?;
        if log.failed {
            cx.nontrivial();
        }
        if !log.failed && room < len {
            crate::fail!("HARNESS", "a full sink did not fail: {} of {}", room, len);
        }
        if tries == 0 && cx.src.chance(1, 3) {
            // every position, in one kind of sink
            if len <= 300 {
                cx.probe("every position");
                for room in 0..=len {
                    let mut l = Log { room, whole: false, panics: false, glitch: true, short: usize::MAX, interrupt: 0, zero: false, got: Vec::new(), pieces: 0, failed: false, split: false, interrupted: 0 };
                    attempt(cx, x, full, &mut l, Way::Text, 0)?;
                }
            }
        }
        if !shared.failed {
            let at = shared.got.len();
            attempt(cx, x, full, &mut shared, Way::Text, 0)?;
            shared_full.push_str(full);
            ensure!(at <= shared.got.len() && shared_full.as_bytes().starts_with(&shared.got), "a log contains something else", "{:?}", cut(&shared_full, 300));
        }
        // faults stop: there is room again
        if tries < 2 && log.failed && cx.src.flag() {
            q.at(cx.now + 1000, (i, tries + 1));
        } else {
            let mut l = Log { room: len, whole: false, panics: true, glitch: false, short: usize::MAX, interrupt: 0, zero: false, got: Vec::new(), pieces: 0, failed: false, split: false, interrupted: 0 };
            attempt(cx, x, full, &mut l, way, cap)?;
            ensure!(l.got == full.as_bytes(), "a later attempt gives another text", "{} {:?}", x.what, cut(full, 300));
        }
    }
    Ok(())
}
