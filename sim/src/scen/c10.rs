//! C10: rule lists as text: sent, stored, crashed over, re-encoded, spelled by others, damaged.
use super::util::*;
use super::Prop;
use crate::bridge;
use crate::choice::Src;
use crate::ensure;
use crate::gen::G;
use crate::kernel::*;
use crate::model::*;
use crate::sys::Zygote;
use dbus_message_parser::match_rule::MatchRule;
use std::convert::TryFrom;

pub const PROP: Prop = Prop {
    id: "C10",
    run,
    quick: 450000,
    factor: 24,
    rule: "a subscription store keeps 1-8 rule lists of 0-6 rules (arguments full of apostrophes, commas, backslashes, equals signs and multi-byte characters) as text through 1-6 rounds: encoded by this library or spelled by another producer (any mixture of quoting each character), written to a disk that flips, drops, tears or splices text, crashed and reread in this or a fresh process, and re-encoded. Every outcome is judged against the reference grammar. Non-trivial: a fault, a foreign spelling or a fresh process.",
    real: "MatchRule::{encode,decode,TryFrom<&str>}, Display of rules, in this and in fresh processes",
    stub: "disk, producer of foreign spellings, reference grammar",
    known: None,
};

/// Any spelling of a value the quoting grammar allows.
pub fn spell(s: &mut Src, v: &str) -> String {
    let mode = s.idx(4);
    let mut o = String::new();
    let c: Vec<char> = v.chars().collect();
    let mut i = 0;
    let mut inside = false;
    // a backslash that stands outside quotes right before an apostrophe would escape it
    let mut bs = false;
    loop {
        let end = i == c.len();
        let ch = if end { ' ' } else { c[i] };
        if inside {
            if end || ch == '\'' || (mode == 3 && s.chance(1, 4)) {
                o.push('\'');
                inside = false;
                bs = false;
                continue;
            }
            o.push(ch);
            i += 1;
            continue;
        }
        // outside quotes
        let open = !end && !bs && ch != '\'' && match mode {
            0 => ch == ',',
            1 => true,
            2 => ch == ',' || ch == '\\',
            _ => ch == ',' || s.chance(1, 3),
        };
        if end {
            if !bs && mode == 3 && s.chance(1, 4) {
                o.push_str("''");
            }
            break;
        }
        if open {
            o.push('\'');
            inside = true;
            continue;
        }
        match ch {
            '\'' => {
                // after a literal backslash this is still backslash, apostrophe escape
                o.push_str("\\'");
                bs = false;
                i += 1;
            }
            ',' => {
                // only reached right after a literal backslash: cannot open a quotation here
                // without escaping it, so take the backslash back into quotes
                o.pop();
                let mut k = 1;
                while o.ends_with('\\') {
                    o.pop();
                    k += 1;
                }
                o.push('\'');
                for _ in 0..k {
                    o.push('\\');
                }
                inside = true;
                bs = false;
            }
            '\\' => {
                o.push('\\');
                bs = true;
                i += 1;
            }
            x => {
                o.push(x);
                bs = false;
                i += 1;
            }
        }
    }
    o
}

pub fn foreign(s: &mut Src, rs: &[MRule]) -> String {
    let mut o = String::new();
    for (i, r) in rs.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&rule_key(r));
        o.push('=');
        o.push_str(&spell(s, &rule_value(r)));
    }
    o
}

pub fn list(s: &mut Src, g: &G) -> Vec<MRule> {
    let mut n = s.idx(7);
    if s.chance(1, 40) {
        // a long list of short rules
        n = s.size(40, 700);
        return (0..n).map(|k| if s.chance(3, 4) { MRule::Arg(k % 64, ["", "a", "',", "\\"][s.idx(4)].into()) } else { MRule::Eavesdrop(s.flag()) }).collect();
    }
    (0..n)
        .map(|_| {
            let r = if s.chance(1, 2) { MRule::Arg(g.arg_index(s), g.string(s)) } else { g.rule(s) };
            match r {
                // strings with NUL have no meaning in rule text; the reference does not care
                MRule::Arg(i, t) if t.contains('\0') => MRule::Arg(i, t.replace('\0', "'")),
                r => r,
            }
        })
        .collect()
}

fn damage(cx: &mut Ctx, t: &mut String, other: &str) {
    let mut c: Vec<char> = t.chars().collect();
    let o: Vec<char> = other.chars().collect();
    let s = &mut cx.src;
    let special: Vec<usize> = (0..c.len()).filter(|i| matches!(c[*i], '\'' | ',' | '\\' | '=')).collect();
    let at = if !special.is_empty() && s.chance(2, 3) { special[s.idx(special.len())] } else { s.idx(c.len() + 1) };
    const INS: &[&str] = &["'", ",", "\\", "=", "a", "''", "\\'", "\\\\", "é", "\u{0}", " ", "0", "/", ".", "arg0=", "type='signal',", "eavesdrop=true,", "x=y,", "path"];
    let what = match s.idx(8) {
        0 => {
            if at < c.len() {
                c.remove(at);
            }
            "rule text: a character lost"
        }
        1 => {
            let x = *s.pick(INS);
            for (k, ch) in x.chars().enumerate() {
                c.insert((at + k).min(c.len()), ch);
            }
            "rule text: characters inserted"
        }
        2 => {
            if at < c.len() {
                c[at] = s.pick(INS).chars().next().unwrap();
            }
            "rule text: a character changed"
        }
        3 => {
            c.truncate(at);
            "rule text: torn write"
        }
        4 => {
            c.drain(..at.min(c.len()));
            "rule text: start lost"
        }
        5 => {
            let k = s.idx(o.len() + 1);
            c.truncate(at);
            c.extend_from_slice(&o[k..]);
            "rule text: spliced with another"
        }
        6 => {
            let b = s.idx(c.len() + 1);
            let (lo, hi) = (at.min(b), at.max(b).min(c.len()));
            let part: Vec<char> = c[lo.min(hi)..hi].to_vec();
            for (k, ch) in part.into_iter().enumerate() {
                c.insert((at + k).min(c.len()), ch);
            }
            "rule text: a part duplicated"
        }
        _ => {
            if at + 1 < c.len() {
                c.swap(at, at + 1);
            }
            "rule text: neighbours swapped"
        }
    };
    *t = c.into_iter().collect();
    cx.fault(what);
}

type Outcome = Result<Vec<MRule>, String>;

fn parse_here(cx: &mut Ctx, t: &str) -> Res<Outcome> {
    cx.did("texts parsed", 1);
    cx.lib("MatchRule::decode", || MatchRule::decode(t).map(|r| bridge::back_rules(&r)).map_err(|e| format!("{:?}", e)))
}

/// What the helper process does: parse, and say what it read.
fn work(req: &[u8]) -> Vec<u8> {
    let t = String::from_utf8_lossy(req).into_owned();
    let r: Outcome = MatchRule::decode(&t).map(|r| bridge::back_rules(&r)).map_err(|e| format!("{:?}", e));
    format!("{:?}", r).into_bytes()
}

fn judge(cx: &mut Ctx, z: Option<&Zygote>, t: &str) -> Res<Outcome> {
    let got = parse_here(cx, t)?;
    match (&got, ref_rules(t)) {
        (Ok(r), RuleOut::Ok(w, _)) => {
            ensure!(*r == w, "rule text is misread", "{:?}\n says {:?}\n read {:?}", cut(t, 600), w, r);
        }
        (Ok(r), RuleOut::Reject(why)) => crate::fail!(format!("bad rule text is accepted: {}", why), "{:?}\n read as {:?}", cut(t, 600), r),
        (Err(e), RuleOut::Ok(w, None)) => crate::fail!("legal rule text is refused", "{:?} for {:?}\n says {:?}", e, cut(t, 600), w),
        (Err(_), _) => cx.probe("rule text refused"),
    }
    if let Some(z) = z {
        let r = fresh(cx, z, "MatchRule::decode", t.as_bytes())?;
        let r = String::from_utf8_lossy(&r).into_owned();
        ensure!(r == format!("{:?}", got), "another process reads other rules", "{:?}\n here {:?}\n there {}", cut(t, 400), got, cut(&r, 400));
    }
    Ok(got)
}

/// One rule by itself, through `TryFrom` and `Display`.
fn single(cx: &mut Ctx, r: &MRule) -> Res {
    let lr = cx.lib("building rules", || bridge::rule(r))?.map_err(|e| class("a valid rule cannot be built", e))?;
    let t = cx.lib("Display of a rule", || lr.to_string())?;
    let back = cx.lib("MatchRule::try_from", || MatchRule::try_from(t.as_str()).map(|r| bridge::back_rule(&r)).map_err(|e| format!("{:?}", e)))?;
    match back {
        Ok(b) => ensure!(b == *r, "a printed rule reads as another", "{:?} printed {:?} reads {:?}", r, t, b),
        Err(e) => crate::fail!("a printed rule is refused", "{:?} printed {:?}: {}", r, t, e),
    }
    Ok(())
}

/// A rule from text of doubtful origin: what the constructors take must come back.
fn doubtful(cx: &mut Ctx, r: &MRule) -> Res {
    let mut r = r.clone();
    match &mut r {
        MRule::Sender(t) | MRule::Interface(t) | MRule::Member(t) | MRule::Path(t) | MRule::PathNamespace(t) | MRule::Destination(t) | MRule::ArgPath(_, t) | MRule::Arg0Namespace(t) => super::damage::bad_text(&mut cx.src, t),
        _ => return Ok(()),
    }
    if let MRule::ArgPath(i, _) = &mut r {
        *i = (*i).min(63);
    }
    cx.fault("text of doubtful origin given to the constructors");
    let lr = match cx.lib("building rules", || bridge::rule(&r))? {
        Ok(x) => x,
        Err(_) => return Ok(()),
    };
    let l = [lr];
    let t = cx.lib("MatchRule::encode", || MatchRule::encode(&l))?;
    let got = parse_here(cx, &t)?;
    ensure!(got.as_ref().ok() == Some(&vec![r.clone()]), "an encoded rule list reads as another", "{:?} as {:?} reads {:?}", r, cut(&t, 600), got);
    Ok(())
}

fn run(cx: &mut Ctx) -> Res {
    let mut g = G::draw(&mut cx.src, false);
    g.big = g.big.min(400);
    g.alpha = *cx.src.pick(&[1, 3, 2, 0]);
    let z = if cx.src.chance(1, 24) { Some(zygote(cx, &work)) } else { None };
    let n = cx.src.urange(1, 8);
    let mut other = String::from("type='signal',path=/a");
    for _ in 0..n {
        let want = list(&mut cx.src, &g);
        for r in &want {
            if cx.src.chance(1, 4) {
                single(cx, r)?;
            } else if cx.src.chance(1, 12) {
                doubtful(cx, r)?;
            }
        }
        // the text on the disk, and what it must mean (None: damaged, the text itself says)
        let mut text = if cx.src.flag() {
            let r = cx.lib("building rules", || bridge::rules(&want))?.map_err(|e| class("a valid rule cannot be built", e))?;
            cx.did("lists encoded", 1);
            cx.lib("MatchRule::encode", || MatchRule::encode(&r))?
        } else {
            cx.nontrivial();
            foreign(&mut cx.src, &want)
        };
        let mut mean: Option<Vec<MRule>> = Some(want);
        for _ in 0..cx.src.urange(1, 6) {
            cx.now += 1000 * MS;
            cx.mix_bytes(text.as_bytes());
            cx.ev("stored", &[text.len() as u64]);
            cx.note(|| format!("on disk: {:?}", text));
            let zz = if z.is_some() && cx.src.chance(1, 2) {
                cx.nontrivial();
                z.as_ref()
            } else {
                None
            };
            let got = judge(cx, zz, &text)?;
            if let Some(w) = &mean {
                match &got {
                    Ok(r) => ensure!(r == w, "a stored rule list came back as another", "{:?}\n stored {:?}\n read {:?}", cut(&text, 600), w, r),
                    Err(e) => crate::fail!("a stored rule list is refused", "{:?}: {}\n stored {:?}", cut(&text, 600), e, w),
                }
            }
            match got {
                Ok(r) => {
                    // the owner writes back what it understood
                    if cx.src.flag() {
                        let lr = cx.lib("MatchRule::decode", || MatchRule::decode(&text).ok())?;
                        let lr = match lr {
                            Some(x) => x,
                            None => crate::fail!("the same text is read and refused", "{:?}", cut(&text, 400)),
                        };
                        text = cx.lib("MatchRule::encode", || MatchRule::encode(&lr))?;
                        cx.did("lists encoded", 1);
                    } else if cx.src.flag() {
                        text = foreign(&mut cx.src, &r);
                        cx.nontrivial();
                    }
                    // a list of rules with argument indices the text form cannot hold is still a list
                    mean = Some(r);
                }
                Err(_) => break,
            }
            if cx.src.chance(1, 2) {
                for _ in 0..cx.src.urange(1, 3) {
                    damage(cx, &mut text, &other);
                }
                mean = None;
            }
        }
        other = text;
    }
    cx.sh.sim_ns = cx.now;
    Ok(())
}
