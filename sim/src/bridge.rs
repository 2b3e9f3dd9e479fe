//! Translation between the reference model's values and the library's, through the library's
//! public API only.  Nothing here may panic: it runs guarded, as part of library operations.
use crate::model::*;
use dbus_message_parser::match_rule::{Arg, ArgPath, MatchRule};
use dbus_message_parser::message::{
    Message, MessageFlags, MessageHeader, MessageHeaderFields, MessageType,
};
use dbus_message_parser::value::*;
use std::convert::TryFrom;

pub type E<T> = Result<T, String>;

pub fn ty(t: &MT) -> Type {
    match t {
        MT::B(c) => match c {
            b'y' => Type::Byte,
            b'b' => Type::Boolean,
            b'n' => Type::Int16,
            b'q' => Type::Uint16,
            b'i' => Type::Int32,
            b'u' => Type::Uint32,
            b'x' => Type::Int64,
            b't' => Type::Uint64,
            b'd' => Type::Double,
            b's' => Type::String,
            b'o' => Type::ObjectPath,
            b'g' => Type::Signature,
            b'h' => Type::UnixFD,
            _ => Type::Variant,
        },
        MT::Arr(t) => Type::Array(Box::new(ty(t))),
        MT::Struct(v) => Type::Struct(v.iter().map(ty).collect()),
        MT::Dict(b) => Type::DictEntry(Box::new((ty(&b.0), ty(&b.1)))),
    }
}

pub fn same_type(m: &MT, t: &Type) -> bool {
    match (m, t) {
        (MT::Arr(a), Type::Array(b)) => same_type(a, b),
        (MT::Struct(a), Type::Struct(b)) => {
            a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_type(x, y))
        }
        (MT::Dict(a), Type::DictEntry(b)) => same_type(&a.0, &b.0) && same_type(&a.1, &b.1),
        (MT::B(c), t) => {
            let k = match t {
                Type::Byte => b'y',
                Type::Boolean => b'b',
                Type::Int16 => b'n',
                Type::Uint16 => b'q',
                Type::Int32 => b'i',
                Type::Uint32 => b'u',
                Type::Int64 => b'x',
                Type::Uint64 => b't',
                Type::Double => b'd',
                Type::String => b's',
                Type::ObjectPath => b'o',
                Type::Signature => b'g',
                Type::UnixFD => b'h',
                Type::Variant => b'v',
                _ => 0,
            };
            k == *c
        }
        _ => false,
    }
}

fn short<T: std::fmt::Debug>(x: &T) -> String {
    let s = format!("{:?}", x);
    if s.len() > 300 {
        let mut e = 300;
        while !s.is_char_boundary(e) {
            e -= 1
        }
        format!("{}...", &s[..e])
    } else {
        s
    }
}

fn refused<T, X: std::fmt::Debug>(r: Result<T, X>, what: &str, s: &str) -> E<T> {
    r.map_err(|e| format!("the constructor refused the valid {} {:?}: {}", what, short(&s), short(&e)))
}

/// Which of the constructors takes the text: each must treat it alike, and which one it is only
/// depends on the text.
fn way(s: &str) -> u32 {
    s.bytes().fold(s.len() as u32, |h, c| h.wrapping_mul(31).wrapping_add(c as u32)) / 7 % 3
}
macro_rules! named {
    ($f:ident, $t:ident, $what:literal) => {
        pub fn $f(s: &str) -> E<$t> {
            let r = match way(s) {
                0 => $t::try_from(s),
                1 => $t::try_from(s.to_string()),
                _ => $t::try_from(s.as_bytes()),
            };
            refused(r, $what, s)
        }
    };
}
named!(path, ObjectPath, "object path");
named!(bus, Bus, "bus name");
named!(unique, UniqueConnectionName, "unique name");
named!(interface, Interface, "interface");
named!(member, Member, "member");
named!(error, Error, "error name");

pub fn value(v: &MV) -> E<Value> {
    Ok(match v {
        MV::Byte(x) => Value::Byte(*x),
        MV::Bool(x) => Value::Boolean(*x),
        MV::I16(x) => Value::Int16(*x),
        MV::U16(x) => Value::Uint16(*x),
        MV::I32(x) => Value::Int32(*x),
        MV::U32(x) => Value::Uint32(*x),
        MV::I64(x) => Value::Int64(*x),
        MV::U64(x) => Value::Uint64(*x),
        MV::F64(x) => Value::Double(f64::from_bits(*x)),
        MV::Str(s) => Value::String(s.clone()),
        MV::Path(s) => Value::ObjectPath(path(s)?),
        MV::Sig(t) => Value::Signature(t.iter().map(ty).collect()),
        MV::Fd(f) => Value::UnixFD(*f),
        MV::Arr(t, v) => {
            let mut o = Vec::with_capacity(v.len());
            for x in v {
                o.push(value(x)?)
            }
            match Array::new(o, ty(t)) {
                Ok(a) => Value::Array(a),
                Err(e) => return Err(format!("the array constructor refused elements of type {}: {}", t.text(), short(&e))),
            }
        }
        MV::Struct(v) => {
            let mut o = Vec::with_capacity(v.len());
            for x in v {
                o.push(value(x)?)
            }
            match Struct::try_from(o) {
                Ok(s) => Value::Struct(s),
                Err(e) => return Err(format!("the struct constructor refused {} fields: {}", v.len(), short(&e))),
            }
        }
        MV::Dict(b) => Value::DictEntry(Box::new((value(&b.0)?, value(&b.1)?))),
        MV::Var(b) => Value::Variant(Box::new(value(b)?)),
    })
}

pub fn same(m: &MV, v: &Value) -> Result<(), String> {
    let bad = |w: &str| Err(format!("{} expected {} got {}", w, short(m), short(v)));
    let ok = match (m, v) {
        (MV::Byte(a), Value::Byte(b)) => a == b,
        (MV::Bool(a), Value::Boolean(b)) => a == b,
        (MV::I16(a), Value::Int16(b)) => a == b,
        (MV::U16(a), Value::Uint16(b)) => a == b,
        (MV::I32(a), Value::Int32(b)) => a == b,
        (MV::U32(a), Value::Uint32(b)) => a == b,
        (MV::I64(a), Value::Int64(b)) => a == b,
        (MV::U64(a), Value::Uint64(b)) => a == b,
        (MV::F64(a), Value::Double(b)) => *a == b.to_bits(),
        (MV::Str(a), Value::String(b)) => a == b,
        (MV::Path(a), Value::ObjectPath(b)) => a.as_str() == b.as_ref() as &str,
        (MV::Fd(a), Value::UnixFD(b)) => a == b,
        (MV::Sig(a), Value::Signature(b)) => {
            a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_type(x, y))
        }
        (MV::Arr(t, a), Value::Array(b)) => {
            if !same_type(t, b.get_type()) {
                return Err(format!("element type expected {} got {}", t.text(), short(b.get_type())));
            }
            let b: &[Value] = b.as_ref();
            if a.len() != b.len() {
                return Err(format!("array of {}: expected {} elements got {}", t.text(), a.len(), b.len()));
            }
            for (i, (x, y)) in a.iter().zip(b).enumerate() {
                same(x, y).map_err(|e| format!("[{}] {}", i, e))?
            }
            true
        }
        (MV::Struct(a), Value::Struct(b)) => {
            let b: &[Value] = b.as_ref();
            if a.len() != b.len() {
                return bad("struct length");
            }
            for (i, (x, y)) in a.iter().zip(b).enumerate() {
                same(x, y).map_err(|e| format!(".{} {}", i, e))?
            }
            true
        }
        (MV::Dict(a), Value::DictEntry(b)) => {
            same(&a.0, &b.0).map_err(|e| format!("key {}", e))?;
            same(&a.1, &b.1).map_err(|e| format!("value {}", e))?;
            true
        }
        (MV::Var(a), Value::Variant(b)) => return same(a, b).map_err(|e| format!("variant {}", e)),
        _ => return bad("kind"),
    };
    if ok {
        Ok(())
    } else {
        bad("value")
    }
}

pub fn mtype(t: u8) -> E<MessageType> {
    Ok(match t {
        1 => MessageType::MethodCall,
        2 => MessageType::MethodReturn,
        3 => MessageType::Error,
        4 => MessageType::Signal,
        _ => return Err("type".into()),
    })
}

pub fn fields(f: &MFields) -> E<MessageHeaderFields> {
    let r = MessageHeaderFields {
        path: f.path.as_deref().map(path).transpose()?,
        interface: f.interface.as_deref().map(interface).transpose()?,
        member: f.member.as_deref().map(member).transpose()?,
        error_name: f.error_name.as_deref().map(error).transpose()?,
        reply_serial: f.reply_serial,
        destination: f.destination.as_deref().map(bus).transpose()?,
        sender: f.sender.as_deref().map(bus).transpose()?,
        signature: None,
        unix_fds: f.unix_fds,
    };
    // some applications keep fields as generic values; which ones only depends on the fields
    let k = [&f.path, &f.interface, &f.member, &f.error_name, &f.destination, &f.sender];
    if k.iter().map(|x| x.as_ref().map_or(3, |x| x.len())).sum::<usize>() % 5 != 0 {
        return Ok(r);
    }
    let v: Vec<Value> = r.into();
    MessageHeaderFields::try_from(v).map_err(|e| format!("the constructor refused valid header fields: {}", short(&e)))
}

pub fn header(m: &MMsg) -> E<MessageHeader> {
    let f = fields(&m.f)?;
    let fl = match MessageFlags::from_bits(m.flags) {
        Some(f) => f,
        None => return Err(format!("flags {:#x} refused", m.flags)),
    };
    MessageHeader::new(m.le, mtype(m.typ)?, fl, m.version, m.serial, f)
        .map_err(|e| format!("the header constructor refused a complete header: {:?}", e))
}

pub fn message(m: &MMsg) -> E<Message> {
    let h = header(m)?;
    let mut b = Vec::with_capacity(m.body.len());
    for v in &m.body {
        b.push(value(v)?)
    }
    Ok(Message::new(h, b))
}

fn opt(what: &str, a: &Option<String>, b: Option<&str>, has: bool) -> Result<(), String> {
    if a.as_deref() != b || has != a.is_some() {
        return Err(format!("{}: expected {} got {} (has: {})", what, short(a), short(&b), has));
    }
    Ok(())
}

/// Everything observable about a message against the model.
pub fn same_msg(m: &MMsg, x: &Message) -> Result<(), String> {
    if mtype(m.typ)? != x.get_type() {
        return Err(format!("message type: expected {} got {:?}", m.typ, x.get_type()));
    }
    if m.serial != x.get_serial() {
        return Err(format!("serial: expected {} got {}", m.serial, x.get_serial()));
    }
    opt("path", &m.f.path, x.get_path().map(|p| p.as_ref()), x.has_path())?;
    opt("interface", &m.f.interface, x.get_interface().map(|p| p.as_ref()), x.has_interface())?;
    opt("member", &m.f.member, x.get_member().map(|p| p.as_ref()), x.has_member())?;
    opt("error name", &m.f.error_name, x.get_error_name().map(|p| p.as_ref()), x.has_error_name())?;
    opt("destination", &m.f.destination, x.get_destination().map(|p| p.as_ref()), x.has_destination())?;
    opt("sender", &m.f.sender, x.get_sender().map(|p| p.as_ref()), x.has_sender())?;
    if m.f.reply_serial != x.get_reply_serial() || x.has_reply_serial() != m.f.reply_serial.is_some() {
        return Err(format!("reply serial: expected {:?} got {:?}", m.f.reply_serial, x.get_reply_serial()));
    }
    if m.f.unix_fds != x.get_unix_fds() || x.has_unix_fds() != m.f.unix_fds.is_some() {
        return Err(format!("descriptor count: expected {:?} got {:?}", m.f.unix_fds, x.get_unix_fds()));
    }
    let b = x.get_body();
    if b.len() != m.body.len() {
        return Err(format!("body: expected {} values got {}", m.body.len(), b.len()));
    }
    for (i, (a, b)) in m.body.iter().zip(b).enumerate() {
        same(a, b).map_err(|e| format!("body value {}: {}", i, e))?
    }
    let sig = match x.get_signature() {
        Ok(s) => s,
        Err(e) => return Err(format!("signature of the body: {:?}", e)),
    };
    if sig.len() != m.body.len() || !m.body.iter().zip(&sig).all(|(a, b)| same_type(&a.ty(), b)) {
        return Err(format!("body signature: expected {} got {:?}", m.sig(), sig));
    }
    // byte order, flags and version are visible through the header's equality only
    let mut h = fields(&m.f)?;
    if !m.body.is_empty() {
        h.signature = Some(m.body.iter().map(|v| ty(&v.ty())).collect());
    }
    let fl = MessageFlags::from_bits(m.flags).ok_or("flags")?;
    let want = MessageHeader::new(m.le, mtype(m.typ)?, fl, m.version, m.serial, h)
        .map_err(|e| format!("header: {:?}", e))?;
    // only the header is needed: split a copy without the (possibly large) body
    match x.clone().split() {
        Ok((h, body)) => {
            if h != want {
                return Err(format!("header: expected {} got {}", short(&want), short(&h)));
            }
            if body.len() != m.body.len() {
                return Err("split changed the body".into());
            }
            for (i, (a, b)) in m.body.iter().zip(&body).enumerate() {
                same(a, b).map_err(|e| format!("body value {} after split: {}", i, e))?
            }
        }
        Err(e) => return Err(format!("split: {:?}", e)),
    }
    Ok(())
}

pub fn rule(r: &MRule) -> E<MatchRule> {
    Ok(match r {
        MRule::Type(t) => MatchRule::Type(mtype(*t)?),
        MRule::Sender(s) => MatchRule::Sender(bus(s)?),
        MRule::Interface(s) => MatchRule::Interface(interface(s)?),
        MRule::Member(s) => MatchRule::Member(member(s)?),
        MRule::Path(s) => MatchRule::Path(path(s)?),
        MRule::PathNamespace(s) => MatchRule::PathNamespace(path(s)?),
        MRule::Destination(s) => {
            MatchRule::Destination(unique(s)?)
        }
        MRule::Arg(i, s) => match Arg::try_from((*i, s.clone())) {
            Ok(a) => MatchRule::Arg(a),
            Err(e) => return Err(format!("argument rule {} refused: {:?}", i, e)),
        },
        MRule::ArgPath(i, s) => MatchRule::ArgPath(ArgPath::from((*i, path(s)?))),
        MRule::Arg0Namespace(s) => MatchRule::Arg0Namespace(interface(s)?),
        MRule::Eavesdrop(b) => MatchRule::Eavesdrop(*b),
    })
}

pub fn rules(r: &[MRule]) -> E<Vec<MatchRule>> {
    r.iter().map(rule).collect()
}

pub fn back_rule(r: &MatchRule) -> MRule {
    match r {
        MatchRule::Type(t) => MRule::Type(*t as u8),
        MatchRule::Sender(s) => MRule::Sender(AsRef::<str>::as_ref(s).into()),
        MatchRule::Interface(s) => MRule::Interface(AsRef::<str>::as_ref(s).into()),
        MatchRule::Member(s) => MRule::Member(AsRef::<str>::as_ref(s).into()),
        MatchRule::Path(s) => MRule::Path(AsRef::<str>::as_ref(s).into()),
        MatchRule::PathNamespace(s) => MRule::PathNamespace(AsRef::<str>::as_ref(s).into()),
        MatchRule::Destination(s) => MRule::Destination(AsRef::<str>::as_ref(s).into()),
        MatchRule::Arg(a) => MRule::Arg(a.get_index(), a.get_value().into()),
        MatchRule::ArgPath(a) => MRule::ArgPath(a.get_index(), AsRef::<str>::as_ref(a.get_value()).into()),
        MatchRule::Arg0Namespace(s) => MRule::Arg0Namespace(AsRef::<str>::as_ref(s).into()),
        MatchRule::Eavesdrop(b) => MRule::Eavesdrop(*b),
    }
}
pub fn back_rules(r: &[MatchRule]) -> Vec<MRule> {
    r.iter().map(back_rule).collect()
}
