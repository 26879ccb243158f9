//! The debugging view of items, parts, paths and errors (C15).

use crate::core::{Core, Session};
use crate::model::{diff, N};
use crate::sched::Out;
use crate::tok::*;
use crate::{doc, observe};
use std::collections::HashSet;
use std::fmt::{self, Debug, Write};
use venial::{consume_item, Item};

const P: &[&str] = &["C15"];

/// A sink that takes so many bytes, then refuses or panics.
struct Sink {
    got: String,
    left: usize,
    panics: bool,
    /// Uses the library when it has this much.
    reenter: Option<(usize, u32)>,
}

impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let mut n = s.len().min(self.left);
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        self.got.push_str(&s[..n]);
        self.left -= n;
        if let Some((at, k)) = self.reenter {
            if self.got.len() > at {
                self.reenter = None;
                crate::reenter::go(k);
            }
        }
        if n < s.len() {
            if self.panics {
                panic!("sink panics");
            }
            self.left = 0;
            return Err(fmt::Error);
        }
        Ok(())
    }
}

/// Formats `x` and checks that every word is shown, in whatever way.
pub fn check<T: Debug + Clone>(c: &mut Core, what: &str, x: &T, n: u64, words: &[String]) {
    let pretty = c.work.chance(30);
    let text = |x: &T| if pretty { format!("{x:#?}") } else { format!("{x:?}") };
    let k = c.draw_crash(n);
    if k > 0 {
        c.call_at("debug", n, k, || text(x));
    }
    let full = match c.call("debug", n, || text(x)) {
        Out::Ok(s) => s,
        o => {
            c.fail(P, "debug failed", format!("{what}: {}", o.what()));
            return;
        }
    };
    c.stats.add("debug texts", 1);
    c.say(|| format!("debug {} {:x}", full.len(), crate::tape::hash_bytes(7, full.as_bytes())));
    let plain = |ch: char| ch.is_alphanumeric() || ch == '_' || ch == '#';
    let shown: HashSet<&str> = full.split(|ch| !plain(ch)).collect();
    for w in words {
        if shown.contains(w.as_str()) {
            continue;
        }
        let quoted = format!("{w:?}");
        // pretty output indents the lines of a literal
        let lines = || w.contains('\n') && w.lines().all(|l| full.contains(l));
        if !full.contains(w.as_str()) && !full.contains(&quoted[1..quoted.len() - 1]) && !lines() {
            let t = format!("{what}: {w} is not shown in {}", full.chars().take(2000).collect::<String>());
            c.fail(P, "not shown", t);
            return;
        }
    }
    // into a sink that fails
    if c.fault.chance(40 + c.cfg.odd) {
        let left = c.fault.below(full.len() as u32 + 2) as usize;
        let panics = c.fault.chance(20);
        let reenter =
            c.work.chance(10).then(|| (c.work.below(full.len() as u32) as usize, c.work.below(crate::reenter::KINDS)));
        let mut s = Sink {
            got: String::new(),
            left,
            panics,
            reenter,
        };
        crate::reenter::taken();
        let more = if reenter.is_some() { crate::reenter::COST } else { 0 };
        let r = c.call("debug", n + more, || {
            if pretty {
                write!(s, "{x:#?}")
            } else {
                write!(s, "{x:?}")
            }
        });
        c.stats.add(if panics { "fault: sink panics" } else { "fault: sink refuses" }, 1);
        let (done, wrong) = crate::reenter::taken();
        c.stats.add("callbacks that re-entered the library", done);
        if wrong > 0 {
            c.fail(&["C06", "C15"], "re-entered library misbehaved", format!("in a sink: {what}"));
        }
        let short = left < full.len();
        let ok = match r {
            Out::Ok(Ok(())) => !short,
            Out::Ok(Err(_)) => short && !panics,
            Out::Panic(m) => short && panics && m.contains("sink panics"),
            _ => false,
        };
        if !ok {
            c.fail(P, "failing sink", format!("{what}: {left} of {} bytes, panics {panics}", full.len()));
        }
        if !full.starts_with(&s.got) {
            c.fail(P, "failing sink", format!("{what}: got {}", s.got));
        }
        // as before
        match c.call("debug", n, || text(x)) {
            Out::Ok(s) if s == full => (),
            _ => c.fail(P, "debug differs", format!("{what}: after a failing sink")),
        }
    }
    if c.work.chance(20) {
        let y = x.clone();
        match c.call("debug", n, || text(&y)) {
            Out::Ok(s) if s == full => (),
            Out::Ok(s) => c.fail(P, "debug differs", format!("{what}: copy shows {s}\n  original {full}")),
            o => c.fail(P, "debug failed", format!("{what}: copy: {}", o.what())),
        }
    }
}

/// The words of tokens: names and simple literals.
pub fn words(ts: &[Tk]) -> Vec<String> {
    fn walk(ts: &[Tk], out: &mut HashSet<String>, v: &mut Vec<String>) {
        for t in ts {
            match &t.k {
                K::Id(s) | K::Lit(s) => {
                    if !MEANING.contains(&s.as_str()) && out.insert(s.clone()) {
                        v.push(s.clone());
                    }
                }
                K::G(_, inner) => walk(inner, out, v),
                _ => (),
            }
        }
    }
    let mut v = vec![];
    walk(ts, &mut HashSet::new(), &mut v);
    v
}

const MEANING: &[&str] = &[
    "as", "async", "await", "box", "break", "const", "continue", "crate", "default", "dyn", "else", "enum", "extern",
    "false", "fn", "for", "if", "impl", "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return",
    "self", "Self", "static", "struct", "super", "trait", "true", "type", "union", "unsafe", "use", "where", "while",
    "macro_rules", "auto", "raw", "safe", "gen", "try", "macro", "priv", "virtual", "yield", "abstract", "become",
    "do", "final", "override", "typeof", "unsized", "_",
];

/// Gives every name and simple literal a text of its own.
fn distinct(ts: &mut [Tk], n: &mut u32) {
    for t in ts {
        match &mut t.k {
            K::Id(s) if !MEANING.contains(&s.as_str()) => {
                *n += 1;
                *s = format!("{}q{n}z", if s.starts_with("r#") { "r#" } else { "" });
            }
            K::Lit(s) if s.starts_with('"') => {
                *n += 1;
                *s = format!("\"q{n}z\"");
            }
            K::Lit(s) if s.starts_with(|c: char| c.is_ascii_digit()) && s.bytes().all(|b| b.is_ascii_digit()) => {
                *n += 1;
                *s = format!("{}", 1_000_000 + *n);
            }
            K::G(_, inner) => distinct(inner, n),
            _ => (),
        }
    }
}

pub struct Show {
    steps: u32,
    items: Vec<(Item, N)>,
}

impl Show {
    pub fn new(c: &mut Core) -> Show {
        Show {
            steps: 2 + c.work.below(8),
            items: vec![],
        }
    }
    fn parts(c: &mut Core, it: &Item, n: &N) {
        let w = |n: &N| (count(&n.tokens()), words(&n.tokens()));
        for (a, m) in it.attributes().iter().zip(n.get("attrs").list()) {
            let (k, w) = w(m);
            check(c, "attribute", a, k, &w);
        }
        if let Some(l) = it.generic_params() {
            let (k, x) = w(n.get("generics"));
            check(c, "parameters", l, k, &x);
            for ((p, _), (m, _)) in l.params.inner.iter().zip(n.get("generics").get("params").pn()).take(5) {
                let (k, w) = w(m);
                check(c, "parameter", p, k, &w);
            }
        }
        macro_rules! part {
            ($what:expr, $x:expr, $m:expr) => {
                if let Some(x) = &$x {
                    let (k, w) = w($m);
                    check(c, $what, x, k, &w);
                }
            };
        }
        match it {
            Item::Struct(s) => {
                part!("struct", Some(s.clone()), n);
                part!("visibility", s.vis_marker, n.get("vis"));
                part!("where clause", s.where_clause, n.get("where"));
                part!("fields", Some(s.fields.clone()), n.get("fields"));
            }
            Item::Enum(s) => {
                part!("visibility", s.vis_marker, n.get("vis"));
                part!("where clause", s.where_clause, n.get("where"));
                part!("variants", Some(s.variants.clone()), n.get("body"));
            }
            Item::Union(s) => part!("fields", Some(s.fields.clone()), n.get("fields")),
            Item::Function(f) => {
                part!("return type", f.return_ty, n.get("ret"));
                part!("function parameters", Some(f.params.clone()), n.get("params"));
                part!("where clause", f.where_clause, n.get("where"));
            }
            Item::Impl(b) => {
                part!("self type", Some(b.self_ty.clone()), n.get("self"));
                part!("trait", b.trait_ty, n.get("trait"));
            }
            Item::Constant(b) => {
                part!("type", Some(b.ty.clone()), n.get("ty"));
                part!("value", b.initializer, n.get("init"));
            }
            _ => (),
        }
    }
}

impl Session for Show {
    fn step(&mut self, c: &mut Core) -> bool {
        if self.steps == 0 {
            return false;
        }
        self.steps -= 1;
        let len = self.items.len() as u32;
        if len > 0 && c.work.chance(35) {
            let (it, n) = &self.items[c.work.below(len) as usize];
            let ts = n.tokens();
            if c.work.chance(60) {
                Self::parts(c, it, n);
            } else {
                check(c, n.kind(), it, count(&ts), &words(&ts));
            }
            if let Some(d) = diff(n, &observe::item(it), EXACT) {
                c.fail(P, "debug changed the item", d);
                return false;
            }
            return true;
        }
        let long = c.work.below(60) == 59;
        let mut n = doc::one(c, |g| {
            g.budget = g.budget.min(120);
            if long {
                doc::long_item(g)
            } else {
                g.item(1)
            }
        });
        let mut h = 0;
        n.shape(&mut h);
        c.stats.shapes.insert(h);
        let mut ts = n.tokens();
        let mut k = 0;
        distinct(&mut ts, &mut k);
        n.assign(&ts);
        let s = to_stream(&ts);
        let mut cur = s.into_iter().peekable();
        match c.call("read", count(&ts), || consume_item(&mut cur)) {
            Out::Ok(Ok(it)) => {
                check(c, n.kind(), &it, count(&ts), &words(&ts));
                if self.items.len() < 4 {
                    self.items.push((it, n));
                }
            }
            o => {
                let t = format!("{}\n  in: {}", crate::read::show_read(&o), show(&ts));
                c.fail(crate::read::READ_FAILS, "supported declaration refused", t);
            }
        }
        true
    }
}
