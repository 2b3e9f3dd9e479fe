//! C09: a bus that routes published messages by the match rules of its subscribers.
use super::util::*;
use super::Prop;
use crate::bridge;
use crate::choice::Src;
use crate::ensure;
use crate::gen::G;
use crate::kernel::*;
use crate::model::*;
use bytes::Bytes;
use dbus_message_parser::match_rule::MatchRule;
use std::collections::VecDeque;

pub const PROP: Prop = Prop {
    id: "C09",
    run,
    quick: 260000,
    factor: 24,
    rule: "2-4 clients publish 4-24 messages (any type, fields and bodies of up to 70 arguments: path-like, name-like and arbitrary texts, paths, other types) and hold up to 8 rule lists of 0-6 rules, most of them derived from the messages so that they hold or just miss (root, own path, ancestors, shared textual prefixes, neighbours, argument of another type, index beyond the body); subscriptions come, go, are lost in client and bus crashes and are made again; publications travel over a lossy network. Every rule and every list is judged against the reference and every subscriber's received sequence against the reference bus. Non-trivial: a rule held and another one missed.",
    real: "MatchRule::{matching_rule,matching_rules}, Arg, ArgPath, Message::decode at the bus",
    stub: "network, clients, subscription store, reference matcher",
    known: None,
};

/// A text that looks like a path, possibly one only a string may hold.
fn pathish(s: &mut Src, g: &G, near: Option<&str>) -> String {
    let mut p = match near {
        Some(p) if !s.chance(1, 4) => p.to_string(),
        _ => g.path(s),
    };
    for _ in 0..s.idx(3) {
        match s.idx(6) {
            0 => {
                if !p.ends_with('/') {
                    p.push('/')
                }
                p.push_str(&g.element(s, true, false))
            }
            1 => {
                if let Some(i) = p.rfind('/') {
                    p.truncate(i.max(1));
                }
            }
            2 => p.push(*s.pick(&['a', '_', '1'])),
            3 => {
                if p.len() > 2 {
                    p.pop();
                }
            }
            4 => {
                if let Some(c) = p.pop() {
                    p.push(if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { 'x' });
                }
            }
            _ => p.push('/'),
        }
    }
    p
}

fn dottedish(s: &mut Src, g: &G, near: Option<&str>) -> String {
    let mut p = match near {
        Some(p) if !s.chance(1, 4) => p.to_string(),
        _ => g.interface(s),
    };
    for _ in 0..s.idx(3) {
        match s.idx(6) {
            0 => {
                p.push('.');
                p.push_str(&g.element(s, false, false))
            }
            1 => {
                if let Some(i) = p.rfind('.') {
                    p.truncate(i);
                }
            }
            2 => p.push(*s.pick(&['a', '_', '1'])),
            3 => {
                p.pop();
            }
            4 => p.push('.'),
            _ => p = p.to_uppercase(),
        }
    }
    p
}

fn arg(s: &mut Src, g: &G) -> MV {
    match s.weighted(&[4, 4, 3, 3, 1, 1, 1, 1, 1]) {
        0 => MV::Str(pathish(s, g, None)),
        1 => MV::Str(dottedish(s, g, None)),
        2 => MV::Path(g.path(s)),
        3 => MV::Str(g.string(s)),
        4 => MV::U32(s.int(32) as u32),
        5 => MV::Var(Box::new(MV::Str(pathish(s, g, None)))),
        6 => MV::Arr(MT::B(b's'), vec![MV::Str(dottedish(s, g, None))]),
        7 => MV::Struct(vec![MV::Str(g.string(s))]),
        _ => MV::Sig(Vec::new()),
    }
}

pub fn message(s: &mut Src, g: &G) -> MMsg {
    let mut m = g.msg(s);
    let n = match s.weighted(&[10, 1]) {
        0 => s.idx(5),
        _ => s.urange(60, 70),
    };
    m.body.clear();
    if m.f.path.is_some() && s.flag() {
        let p = mend(pathish(s, g, m.f.path.as_deref()));
        m.f.path = Some(format!("{}/{}", p.trim_end_matches('/'), g.element(s, true, false)));
    }
    for _ in 0..n {
        let v = arg(s, g);
        if m.sig().len() + v.ty().text().len() <= MAX_SIG {
            m.body.push(v);
        }
    }
    m
}

/// The valid path nearest to a text.
fn mend(p: String) -> String {
    let mut q: String = p.chars().filter(|c| c.is_ascii_alphanumeric() || *c == '_' || *c == '/').collect();
    while q.len() > 1 && q.ends_with('/') {
        q.pop();
    }
    if ok_path(&q) {
        q
    } else {
        "/".into()
    }
}
fn mend_i(p: String) -> String {
    if ok_interface(&p) {
        p
    } else {
        "org.a".into()
    }
}

/// A rule about this message: it holds or just misses.
pub fn about(s: &mut Src, g: &G, m: &MMsg) -> MRule {
    let i = if m.body.is_empty() || s.chance(1, 8) { g.arg_index(s) } else { s.idx(m.body.len()).min(63) };
    let text = |i: usize| match m.body.get(i) {
        Some(MV::Str(x)) | Some(MV::Path(x)) => Some(x.clone()),
        _ => None,
    };
    let exact = s.chance(2, 3);
    match s.idx(11) {
        0 => MRule::Type(if exact { m.typ } else { s.range(1, 4) as u8 }),
        1 => MRule::Sender(match &m.f.sender {
            Some(x) if exact => x.clone(),
            _ => m.f.destination.clone().unwrap_or_else(|| g.bus(s)),
        }),
        2 => MRule::Interface(match &m.f.interface {
            Some(x) if exact => x.clone(),
            x => reld(s, g, x.as_deref()),
        }),
        3 => MRule::Member(match &m.f.member {
            Some(x) if exact => x.clone(),
            Some(x) if x.len() < 250 => format!("{}_", x),
            _ => g.member(s),
        }),
        4 => MRule::Path(match &m.f.path {
            Some(x) if exact => x.clone(),
            x => rel(s, g, x.as_deref()),
        }),
        5 => {
            let x = m.f.path.clone();
            MRule::PathNamespace(rel(s, g, x.as_deref()))
        }
        6 => MRule::Destination(match &m.f.destination {
            Some(x) if exact && ok_unique(x) => x.clone(),
            _ => match &m.f.sender {
                Some(x) if ok_unique(x) && s.flag() => x.clone(),
                _ => g.unique(s),
            },
        }),
        7 => {
            let t = match text(i) {
                Some(x) if exact => x,
                Some(mut x) => {
                    match s.idx(3) {
                        0 => x.push('a'),
                        1 => {
                            x.pop();
                        }
                        _ => x = x.to_uppercase(),
                    };
                    x
                }
                None => g.string(s),
            };
            MRule::Arg(i, t)
        }
        8 => {
            let j = if s.chance(1, 20) { *s.pick(&[64usize, 100, usize::MAX]) } else { i };
            let t = text(i);
            MRule::ArgPath(j, rel(s, g, t.as_deref()))
        }
        9 => {
            let t = text(0);
            MRule::Arg0Namespace(reld(s, g, t.as_deref()))
        }
        _ => MRule::Eavesdrop(s.flag()),
    }
}

/// A valid path in some relation to a text: itself, an ancestor, cut within a component, a child,
/// a neighbour, the root.
fn rel(s: &mut Src, g: &G, t: Option<&str>) -> String {
    let t = match t {
        Some(t) if t.starts_with('/') => t.to_string(),
        _ => return if s.flag() { "/".into() } else { g.path(s) },
    };
    let cuts: Vec<usize> = t.char_indices().filter(|(i, c)| *c == '/' && *i > 0).map(|(i, _)| i).collect();
    let any: Vec<usize> = t.char_indices().map(|(i, _)| i).filter(|i| *i > 1).collect();
    let r = match s.weighted(&[3, 4, 3, 1, 1, 1]) {
        1 if !cuts.is_empty() => t[..cuts[s.idx(cuts.len())]].to_string(),
        2 if !any.is_empty() => t[..any[s.idx(any.len())]].to_string(),
        3 => format!("{}/{}", t.trim_end_matches('/'), g.element(s, true, false)),
        4 => pathish(s, g, Some(&t)),
        5 => "/".into(),
        _ => t,
    };
    mend(r)
}

/// The same for dotted names.
fn reld(s: &mut Src, g: &G, t: Option<&str>) -> String {
    let t = match t {
        Some(t) if !t.is_empty() => t.to_string(),
        _ => return g.interface(s),
    };
    let cuts: Vec<usize> = t.char_indices().filter(|(i, c)| *c == '.' && *i > 0).map(|(i, _)| i).collect();
    let any: Vec<usize> = t.char_indices().map(|(i, _)| i).filter(|i| *i > 1).collect();
    let r = match s.weighted(&[3, 4, 4, 1, 1]) {
        1 if !cuts.is_empty() => t[..cuts[s.idx(cuts.len())]].to_string(),
        2 if !any.is_empty() => t[..any[s.idx(any.len())]].to_string(),
        3 => format!("{}.{}", t, g.element(s, false, false)),
        4 => dottedish(s, g, Some(&t)),
        _ => t,
    };
    mend_i(r)
}

struct Sub {
    client: usize,
    model: Vec<MRule>,
    real: Vec<MatchRule>,
}

enum Ev {
    Publish(usize),
    AtBus { i: usize, epoch: u32 },
    Subscribe(usize),
    Unsubscribe,
    ClientCrash(usize),
    BusCrash,
    Reconnect(usize),
    Deliver(usize),
}

fn run(cx: &mut Ctx) -> Res {
    let mut g = G::draw(&mut cx.src, false);
    tame(&mut g);
    g.big = g.big.min(60);
    rarely_big(&mut cx.src, &mut g, 40);
    let net = NetCfg::draw(cx);
    let nc = cx.src.urange(2, 4);
    let nm = cx.src.urange(4, 24);
    let msgs: Vec<MMsg> = (0..nm).map(|_| message(&mut cx.src, &g)).collect();
    let mut frames = Vec::new();
    for m in &msgs {
        let o = opts(&mut cx.src);
        let f = ref_encode(m, &o).bytes;
        cx.mix_bytes(&f);
        frames.push(f);
    }
    let mut q: Queue<Ev> = Queue::new();
    for i in 0..nm {
        q.at(cx.src.below(1000) * MS, Ev::Publish(i));
    }
    for _ in 0..cx.src.urange(2, 8) {
        let c = cx.src.idx(nc);
        // most before the publications, some among them
        let at = if cx.src.chance(1, 3) { cx.src.below(1000) * MS } else { 0 };
        q.at(at, Ev::Subscribe(c));
    }
    for _ in 0..cx.src.idx(4) {
        q.at(cx.src.below(1000) * MS, Ev::Unsubscribe);
    }
    if cx.src.chance(1, 4) {
        let c = cx.src.idx(nc);
        q.at(cx.src.below(1000) * MS, Ev::ClientCrash(c));
    }
    if cx.src.chance(1, 5) {
        q.at(cx.src.below(1000) * MS, Ev::BusCrash);
    }
    let mut subs: Vec<Sub> = Vec::new();
    let mut epoch = 0;
    let mut up = vec![true; nc];
    // what is on the way to each client, what it got and what it must get
    let mut line: Vec<VecDeque<usize>> = vec![VecDeque::new(); nc];
    let mut got: Vec<Vec<usize>> = vec![Vec::new(); nc];
    let mut want: Vec<Vec<usize>> = vec![Vec::new(); nc];
    let (mut held, mut missed) = (0u64, 0u64);
    while let Some(e) = q.pop(cx) {
        match e {
            Ev::Publish(i) => {
                cx.ev("publish", &[i as u64]);
                for d in net.deliver(cx) {
                    q.at(cx.now + d, Ev::AtBus { i, epoch });
                }
            }
            Ev::AtBus { i, epoch: e } => {
                if e != epoch {
                    cx.fault("publication lost in a bus crash");
                    continue;
                }
                cx.ev("at bus", &[i as u64]);
                let x = match dec(cx, Bytes::from(frames[i].clone()), None)? {
                    Ok((x, _, _)) => x,
                    Err(e) => crate::fail!("the bus cannot read a publication", "{}", cut(&format!("{:?} for {}", e, describe(&msgs[i])), 600)),
                };
                let m = &msgs[i];
                let mut to = vec![false; nc];
                let mut must = vec![false; nc];
                for s in &subs {
                    let mut all = true;
                    for (r, l) in s.model.iter().zip(&s.real) {
                        let w = ref_match(r, m);
                        let y = cx.lib("matching_rule", || l.matching_rule(&x))?;
                        ensure!(w == y, format!("a {} rule {}", kind(r), if w { "misses a message it holds for" } else { "matches a message it does not hold for" }), "{:?}\n for {}", r, describe(m));
                        all &= w;
                        if w {
                            held += 1
                        } else {
                            missed += 1
                        }
                        probe(cx, r, m, w);
                    }
                    let y = cx.lib("matching_rules", || MatchRule::matching_rules(&s.real, &x))?;
                    ensure!(all == y, "a rule list is judged otherwise than its rules", "{:?} gives {}\n for {}", s.model, y, describe(m));
                    to[s.client] |= y;
                    must[s.client] |= all;
                }
                cx.did("messages routed", 1);
                for c in 0..nc {
                    if to[c] && up[c] {
                        line[c].push_back(i);
                        let d = 1 + cx.src.below(5);
                        q.at(cx.now + d * MS, Ev::Deliver(c));
                    }
                    if must[c] && up[c] {
                        want[c].push(i);
                    }
                }
                same(cx, "matching changed the message", m, &x)?;
            }
            Ev::Deliver(c) => {
                // a FIFO stream: whatever event fires first carries the oldest message
                if let Some(i) = line[c].pop_front() {
                    cx.ev("deliver", &[c as u64, i as u64]);
                    got[c].push(i);
                }
            }
            Ev::Subscribe(c) => {
                if !up[c] {
                    continue;
                }
                let n = cx.src.idx(7);
                // about one message, so that the whole list may hold
                let j = cx.src.idx(nm);
                let strict = cx.src.flag();
                let mut model: Vec<MRule> = Vec::new();
                for _ in 0..n {
                    let r = if cx.src.chance(1, 8) { g.rule(&mut cx.src) } else { about(&mut cx.src, &g, &msgs[j]) };
                    if strict && !ref_match(&r, &msgs[j]) && !cx.src.chance(1, 6) {
                        continue;
                    }
                    model.push(r);
                }
                if cx.src.chance(1, 20) {
                    // a long list of rules that hold for that message, among them those above
                    cx.probe("long rule list");
                    let mut base: Vec<MRule> = model.iter().filter(|r| ref_match(r, &msgs[j])).cloned().collect();
                    if base.is_empty() {
                        base.push(MRule::Type(msgs[j].typ));
                    }
                    let n = cx.src.size(40, 1000);
                    let mut long: Vec<MRule> = (0..n).map(|k| base[k % base.len()].clone()).collect();
                    let at = if cx.src.flag() { n } else { cx.src.idx(n + 1) };
                    long.splice(at..at, model);
                    model = long;
                }
                let real = cx.lib("building rules", || bridge::rules(&model))?.map_err(|e| class("a valid rule cannot be built", e))?;
                cx.note(|| format!("client {} subscribes {:?}", c, model));
                cx.ev("subscribe", &[c as u64, model.len() as u64]);
                subs.push(Sub { client: c, model, real });
            }
            Ev::Unsubscribe => {
                if !subs.is_empty() {
                    let k = cx.src.idx(subs.len());
                    cx.ev("unsubscribe", &[k as u64]);
                    subs.remove(k);
                }
            }
            Ev::ClientCrash(c) => {
                cx.fault("client crash");
                cx.ev("client crash", &[c as u64]);
                // what was on the way to it is gone, what it had processed stays
                up[c] = false;
                subs.retain(|s| s.client != c);
                line[c].clear();
                let n = got[c].len();
                ensure!(want[c].starts_with(&got[c]), "a subscriber got another sequence", "client {} got {:?}, should have {:?}", c, got[c], want[c]);
                want[c].truncate(n);
                q.at(cx.now + 50 * MS, Ev::Reconnect(c));
            }
            Ev::BusCrash => {
                cx.fault("bus crash");
                cx.ev("bus crash", &[]);
                epoch += 1;
                subs.clear();
                for c in 0..nc {
                    ensure!(want[c].starts_with(&got[c]), "a subscriber got another sequence", "client {} got {:?}, should have {:?}", c, got[c], want[c]);
                    line[c].clear();
                    want[c].truncate(got[c].len());
                    up[c] = false;
                    q.at(cx.now + 20 * MS, Ev::Reconnect(c));
                }
            }
            Ev::Reconnect(c) => {
                up[c] = true;
                for _ in 0..cx.src.idx(3) {
                    q.at(cx.now + MS, Ev::Subscribe(c));
                }
            }
        }
    }
    for c in 0..nc {
        ensure!(got[c] == want[c], "a subscriber got another sequence", "client {} got {:?}, should have {:?}", c, got[c], want[c]);
    }
    cx.did("rules that held", held);
    cx.did("rules that missed", missed);
    if held > 0 && missed > 0 {
        cx.nontrivial();
    }
    Ok(())
}

fn kind(r: &MRule) -> String {
    match r {
        MRule::Arg(..) => "argument".into(),
        MRule::ArgPath(..) => "argument path".into(),
        r => rule_key(r).replace('_', " "),
    }
}

fn probe(cx: &mut Ctx, r: &MRule, m: &MMsg, w: bool) {
    match r {
        MRule::PathNamespace(n) => {
            if let Some(p) = &m.f.path {
                if n == "/" {
                    cx.probe("root namespace");
                } else if w && p != n {
                    cx.probe("path below a namespace");
                } else if !w && p.starts_with(n.as_str()) {
                    cx.probe("path namespace is a textual prefix only");
                }
            }
        }
        MRule::ArgPath(i, n) => match m.body.get(*i) {
            Some(MV::Str(x)) | Some(MV::Path(x)) => {
                if n == "/" && w {
                    cx.probe("root argument path");
                } else if w && x != n {
                    cx.probe("argument below an argument path");
                } else if !w && x.starts_with(n.as_str()) {
                    cx.probe("argument path is a textual prefix only");
                }
            }
            Some(_) => cx.probe("argument path on another type"),
            None => cx.probe("argument index beyond the body"),
        },
        MRule::Arg(i, n) => match m.body.get(*i) {
            Some(MV::Path(x)) if x == n => cx.probe("string rule on an equal path argument"),
            Some(MV::Str(_)) if w => cx.probe("string argument equal"),
            _ => {}
        },
        MRule::Arg0Namespace(n) => match m.body.first() {
            Some(MV::Str(x)) if w && x != n => cx.probe("argument 0 below a namespace"),
            Some(MV::Str(x)) if !w && x.starts_with(n.as_str()) => cx.probe("argument 0 namespace is a textual prefix only"),
            _ => {}
        },
        MRule::Destination(n) => {
            if w {
                cx.probe("destination equal");
            } else if m.f.sender.as_ref() == Some(n) {
                cx.probe("destination rule naming the sender");
            }
        }
        MRule::Sender(n) => {
            if w {
                cx.probe("sender equal");
            } else if m.f.destination.as_ref() == Some(n) {
                cx.probe("sender rule naming the destination");
            }
        }
        _ => {}
    }
}
