//! C14: services route calls through a tree of objects while objects come and go.
use super::util::*;
use super::Prop;
use crate::bridge;
use crate::choice::Src;
use crate::ensure;
use crate::gen::G;
use crate::kernel::*;
use crate::model::*;
use dbus_message_parser::value::ObjectPath;

pub const PROP: Prop = Prop {
    id: "C14",
    run,
    quick: 450000,
    factor: 24,
    rule: "a service holds a tree of objects whose paths it composes by appending elements (valid, empty, with separators, bad characters, multi-byte) and clients call objects (registered, ancestors, descendants, neighbours sharing a textual prefix, the root) over a network that delays, duplicates and reorders while objects and whole subtrees are created, removed and lost in crashes. Every append, comparison and remaining component list is judged by the component model; every call must reach the deepest registered object at or above its path with the right remainder. Non-trivial: a call reached an object above its path.",
    real: "ObjectPath::{try_from,append,starts_with,strip_prefix_elements}",
    stub: "network, clients, object registry, component model",
    known: None,
};

fn element(s: &mut Src, g: &G) -> String {
    match s.weighted(&[10, 1, 1, 1, 1, 1, 2]) {
        0 => g.element(s, true, false),
        1 => String::new(),
        2 => format!("{}/{}", g.element(s, true, false), if s.flag() { g.element(s, true, false) } else { String::new() }),
        3 => format!("/{}", if s.flag() { g.element(s, true, false) } else { String::new() }),
        4 => format!("{}{}", g.element(s, true, false), s.pick(&["-", " ", ".", "\u{0}", "é", "@", "[", "`", "{", "😀", ":"])),
        5 => format!("{}{}", s.pick(&["-", " ", ".", "é", "\n"]), g.element(s, true, false)),
        _ => {
            let n = s.size(40, 3000);
            s.pick(&["a", "Z", "0", "_"]).repeat(n)
        }
    }
}
fn ok_element(e: &str) -> bool {
    !e.is_empty() && e.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_')
}

fn text(p: &ObjectPath) -> String {
    AsRef::<str>::as_ref(p).to_string()
}

/// Everything the library says about a pair of paths.
fn pair(cx: &mut Ctx, a: &str, b: &str) -> Res<Option<Vec<String>>> {
    let (pa, pb) = cx.lib("ObjectPath::try_from", || (bridge::path(a), bridge::path(b)))?;
    let (pa, pb) = match (pa, pb) {
        (Ok(a), Ok(b)) => (a, b),
        (a, b) => crate::fail!("a valid path is refused", "{:?} {:?}", a.err(), b.err()),
    };
    let below = cx.lib("starts_with", || pa.starts_with(&pb))?;
    let rest = cx.lib("strip_prefix_elements", || pa.strip_prefix_elements(&pb).map(|i| i.map(|s| s.to_string()).collect::<Vec<_>>()))?;
    let want = strip(a, b);
    cx.did("pairs of paths compared", 1);
    ensure!(below == want.is_some(), if below { "a path is said to lie below another wrongly" } else { "a path below another is not recognised" }, "{:?} and {:?}", cut(a, 200), cut(b, 200));
    match (&rest, &want) {
        (None, None) => {}
        (Some(r), Some(w)) if r.iter().map(|s| s.as_str()).eq(w.iter().copied()) => {}
        _ => crate::fail!("the remaining components are wrong", "{:?} below {:?}: {:?}, should be {:?}", cut(a, 200), cut(b, 200), rest, want),
    }
    if want.is_none() && a != b && a.starts_with(b) {
        cx.probe("textual prefix only");
    }
    if b == "/" && a != "/" {
        cx.probe("below the root");
    }
    let mut it = pa.strip_prefix_elements(&pb);
    if let Some(it) = &mut it {
        // from the back as well, as a split allows
        if cx.src.chance(1, 4) {
            let v: Vec<&str> = cx.lib("strip_prefix_elements", || it.rev().collect())?;
            let mut w = want.clone().unwrap_or_default();
            w.reverse();
            ensure!(v == w, "the remaining components are wrong", "from the back {:?} below {:?}: {:?}", cut(a, 200), cut(b, 200), v);
        }
    }
    ensure!(text(&pa) == a && text(&pb) == b, "comparing changed a path", "{:?} {:?}", cut(a, 200), cut(b, 200));
    Ok(rest)
}

/// Appends to a copy of `p` until done; the library's path after every step.
fn grow(cx: &mut Ctx, g: &G, p: &str, n: usize) -> Res<String> {
    let mut model = p.to_string();
    let mut real = match cx.lib("ObjectPath::try_from", || bridge::path(p))? {
        Ok(x) => x,
        Err(e) => crate::fail!("a valid path is refused", "{}", e),
    };
    for _ in 0..n {
        let e = element(&mut cx.src, g);
        let ok = cx.lib("ObjectPath::append", || real.append(&e))?;
        cx.did("appends", 1);
        let now = text(&real);
        if ok_element(&e) {
            ensure!(ok, "a valid element is refused", "{:?} to {:?}", cut(&e, 100), cut(&model, 200));
            model = format!("{}/{}", if model == "/" { "" } else { &model }, e);
            ensure!(now == model, "appending made another path", "{:?} instead of {:?}", cut(&now, 200), cut(&model, 200));
        } else {
            cx.fault("an invalid element");
            ensure!(!ok, "an invalid element is appended", "{:?} to {:?} made {:?}", cut(&e, 100), cut(&model, 200), cut(&now, 200));
            ensure!(now == model, "a refused append changed the path", "{:?} instead of {:?}", cut(&now, 200), cut(&model, 200));
        }
        ensure!(ok_path(&now), "appending made an invalid path", "{:?}", cut(&now, 200));
        let again = cx.lib("ObjectPath::try_from", || bridge::path(&now).map(|p| p == real))?;
        ensure!(again == Ok(true), "a composed path is not the path of its text", "{:?}: {:?}", cut(&now, 200), again);
    }
    Ok(model)
}

/// A path in some relation to another.
fn rel(s: &mut Src, g: &G, p: &str) -> String {
    let c: Vec<String> = comps(p).into_iter().map(|x| x.to_string()).collect();
    match s.weighted(&[3, 3, 3, 2, 2, 1]) {
        0 => p.to_string(),
        1 => path_of(&c[..s.idx(c.len() + 1)].to_vec()),
        2 => {
            let mut c = c;
            for _ in 0..s.urange(1, 3) {
                c.push(g.element(s, true, false));
            }
            path_of(&c)
        }
        3 if !c.is_empty() => {
            // a neighbour sharing a prefix of the text
            let mut c = c;
            let k = s.idx(c.len());
            match s.idx(3) {
                0 => c[k].push(*s.pick(&['a', '_', '0'])),
                1 if c[k].len() > 1 => {
                    c[k].pop();
                }
                _ => c[k] = c[k].to_uppercase(),
            }
            path_of(&c)
        }
        4 if c.len() > 1 => {
            // two components joined
            let mut c = c;
            let k = s.idx(c.len() - 1);
            let x = c.remove(k + 1);
            c[k].push_str(&x);
            path_of(&c)
        }
        5 => "/".into(),
        _ => g.path(s),
    }
}

enum Ev {
    Register,
    Remove(bool),
    Call { id: u64, path: String },
    Arrive { id: u64, path: String, epoch: u32 },
    Crash,
}

fn run(cx: &mut Ctx) -> Res {
    let mut g = G::draw(&mut cx.src, false);
    tame(&mut g);
    g.big = g.big.min(300);
    rarely_big(&mut cx.src, &mut g, 40);
    let net = NetCfg::draw(cx);
    let mut objs: Vec<String> = Vec::new();
    let mut q: Queue<Ev> = Queue::new();
    for _ in 0..cx.src.urange(1, 8) {
        let at = if cx.src.chance(1, 3) { cx.src.below(500) * MS } else { 0 };
        q.at(at, Ev::Register);
    }
    for _ in 0..cx.src.idx(4) {
        let all = cx.src.flag();
        q.at(cx.src.below(500) * MS, Ev::Remove(all));
    }
    for i in 0..cx.src.urange(2, 16) {
        q.at(cx.src.below(500) * MS, Ev::Call { id: i as u64, path: String::new() });
    }
    if cx.src.chance(1, 5) {
        q.at(cx.src.below(500) * MS, Ev::Crash);
    }
    let mut epoch = 0;
    let mut last = String::from("/");
    while let Some(e) = q.pop(cx) {
        match e {
            Ev::Register => {
                let base = if !objs.is_empty() && cx.src.flag() {
                    let i = cx.src.idx(objs.len());
                    objs[i].clone()
                } else {
                    g.path(&mut cx.src)
                };
                let n = cx.src.idx(4);
                let p = grow(cx, &g, &base, n)?;
                cx.mix_bytes(p.as_bytes());
                cx.ev("register", &[comps(&p).len() as u64]);
                cx.note(|| format!("object {:?}", p));
                last = p.clone();
                if !objs.contains(&p) {
                    objs.push(p);
                }
            }
            Ev::Remove(subtree) => {
                if objs.is_empty() {
                    continue;
                }
                let i = cx.src.idx(objs.len());
                let p = objs.remove(i);
                cx.ev("remove", &[subtree as u64]);
                if subtree {
                    let mut keep = Vec::new();
                    for o in std::mem::take(&mut objs) {
                        // the library decides which ones go; the model judges it
                        if pair(cx, &o, &p)?.is_none() {
                            keep.push(o);
                        }
                    }
                    objs = keep;
                }
            }
            Ev::Call { id, path } => {
                let near = if objs.is_empty() || cx.src.chance(1, 6) {
                    last.clone()
                } else {
                    let i = cx.src.idx(objs.len());
                    objs[i].clone()
                };
                let p = if path.is_empty() { rel(&mut cx.src, &g, &near) } else { path };
                for d in net.deliver(cx) {
                    q.at(cx.now + d, Ev::Arrive { id, path: p.clone(), epoch });
                }
            }
            Ev::Arrive { id, path, epoch: e } => {
                if e != epoch {
                    cx.fault("call lost in a crash");
                    continue;
                }
                cx.ev("call", &[id, comps(&path).len() as u64]);
                cx.mix_bytes(path.as_bytes());
                // the service asks the library about every object and takes the deepest
                let mut best: Option<(usize, Vec<String>)> = None;
                for i in 0..objs.len() {
                    let o = objs[i].clone();
                    let rest = if o == path { Some(Vec::new()) } else { pair(cx, &path, &o)? };
                    if let Some(r) = rest {
                        if best.as_ref().map_or(true, |b| r.len() < b.1.len()) {
                            best = Some((i, r));
                        }
                    }
                }
                // the tree of the model
                let c = comps(&path);
                let want = (0..=c.len()).rev().find_map(|k| {
                    let p = path_of(&c[..k].iter().map(|x| x.to_string()).collect::<Vec<_>>());
                    objs.iter().position(|o| *o == p).map(|i| (i, c[k..].iter().map(|x| x.to_string()).collect::<Vec<_>>()))
                });
                ensure!(best == want, "a call reached another object", "{:?}: {:?} instead of {:?}", cut(&path, 200), best, want);
                cx.did("calls routed", 1);
                if want.map_or(false, |w| !w.1.is_empty()) {
                    cx.nontrivial();
                    cx.probe("call handled by an object above its path");
                }
                // and the other way round
                if !objs.is_empty() {
                    let i = cx.src.idx(objs.len());
                    let o = objs[i].clone();
                    let r = rel(&mut cx.src, &g, &o);
                    pair(cx, &o, &r)?;
                    pair(cx, &r, &r)?;
                }
            }
            Ev::Crash => {
                cx.fault("service crash and restart");
                cx.ev("crash", &[]);
                epoch += 1;
                objs.clear();
                for _ in 0..cx.src.urange(1, 4) {
                    q.at(cx.now + 10 * MS, Ev::Register);
                }
            }
        }
    }
    Ok(())
}
