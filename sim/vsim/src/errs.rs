//! Combined errors against a list of messages (C10).

use crate::core::{Core, Session};
use crate::doc;
use crate::sched::{self, Out};
use crate::tok::*;
use proc_macro2::{sim, TokenStream};
use quote::ToTokens;
use venial::{parse_item, Error};

#[derive(Clone, PartialEq, Debug)]
struct Msg {
    text: String,
    start: Sp,
    end: Sp,
}

/// A caller's message or token source.
struct Source {
    text: String,
    toks: Vec<Tk>,
    panics: bool,
    /// Uses the library while it is asked.
    reenter: Option<u32>,
}

impl std::fmt::Display for Source {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        let n = self.text.chars().count();
        for (i, ch) in self.text.chars().enumerate() {
            if self.panics && i >= n / 2 {
                panic!("message panics");
            }
            write!(f, "{ch}")?;
        }
        if self.panics {
            panic!("message panics");
        }
        if let Some(k) = self.reenter {
            crate::reenter::go(k);
        }
        Ok(())
    }
}

impl ToTokens for Source {
    fn to_tokens(&self, out: &mut TokenStream) {
        for t in &self.toks {
            if self.panics {
                panic!("tokens panic");
            }
            out.extend(std::iter::once(to_tree(t)));
        }
        if let Some(k) = self.reenter {
            crate::reenter::go(k + 1);
        }
    }
}

const TEXTS: &[&str] = &[
    "", "plain", "with \"quotes\"", "back\\slash", "two\nlines", "tab\t", "é变", "{}", "{0:?}", "'", "nul\0",
    "compile_error", "\u{7f}", "%s // no comment", "a\r\nb", "\u{200b}x", "a; b!{}",
    " leading", "trailing ", "\nfirst", "last\n", "\\", "\"", "a\n\n\nb", "//", "*/", "r#\"x\"#", ".", "a.", "error: x",
];
const CHARS: &[char] = &['a', 'b', 'Z', '0', ' ', ' ', '\n', '\t', '"', '\\', '\'', '{', '}', '#', 'é', '变', '🦀', '\u{0}', '\r', '.'];

type Pair = (Error, Vec<Msg>);

pub struct Errs {
    errs: Vec<Pair>,
    steps: u32,
    serial: u32,
}

impl Errs {
    pub fn new(c: &mut Core) -> Errs {
        Errs {
            errs: vec![],
            steps: 4 + c.work.below(30),
            serial: 0,
        }
    }

    fn text(&mut self, c: &mut Core) -> String {
        self.serial += 1;
        if c.work.chance(8) {
            // any characters, possibly many
            let n = [20, 70, 300, 5000][c.work.below(4) as usize];
            let n = 1 + c.work.below(n);
            let few = n > 300 || c.work.chance(50);
            let k = CHARS.len() as u32;
            let one = c.work.below(k);
            return (0..n)
                .map(|i| CHARS[if few { one + i / 60 } else { c.work.below(k) } as usize % k as usize])
                .collect();
        }
        let t = *c.work.pick(TEXTS);
        if c.work.chance(70) {
            format!("{t} {}", self.serial)
        } else {
            t.to_string()
        }
    }

    /// Tokens at known places, possibly of several files.
    fn toks(&mut self, c: &mut Core) -> Vec<Tk> {
        let n = if c.work.chance(4) { c.work.below(60) } else { c.work.below(4) };
        let mut v: Vec<Tk> = (0..n)
            .map(|_| match c.work.below(7) {
                3 => g(D::Hidden, vec![id("y"), pa('+')]),
                4 => g(*c.work.pick(&[D::Hidden, D::Paren, D::Bracket]), vec![]),
                5 => pj(':'),
                0 => id("x"),
                1 => pa(','),
                2 => g(D::Brace, vec![id("y")]),
                _ => lit("1"),
            })
            .collect();
        c.deliver(&mut v);
        v
    }

    fn create(&mut self, c: &mut Core) -> Option<Pair> {
        let text = self.text(c);
        let kind = c.work.below(4);
        let toks = self.toks(c);
        let panics = c.fault.chance(c.cfg.odd);
        let reenter = c.work.chance(10).then(|| c.work.below(crate::reenter::KINDS));
        let src = Source {
            text: text.clone(),
            toks: toks.clone(),
            panics,
            reenter,
        };
        let (start, end) = match toks.len() {
            0 => (CALL_SITE, CALL_SITE),
            n => (toks[0].sp, toks[n - 1].sp),
        };
        let k = c.draw_crash(6);
        let n = 8 + count(&toks) + if reenter.is_some() { 2 * crate::reenter::COST } else { 0 };
        let (r, msg) = match kind {
            0 => (
                c.call_at("error", n, k, || Error::new(&src)),
                Msg {
                    text,
                    start: CALL_SITE,
                    end: CALL_SITE,
                },
            ),
            1 => {
                let sp = if toks.is_empty() { CALL_SITE } else { start };
                (
                    c.call_at("error at span", n, k, || Error::new_at_span(span_of(sp), &src)),
                    Msg { text, start: sp, end: sp },
                )
            }
            2 => (
                c.call_at("error at tokens", n, k, || Error::new_at_tokens(&src, &src)),
                Msg { text, start, end },
            ),
            _ => {
                // one that the parser made
                let n = doc::one(c, |g| {
                    g.budget = g.budget.min(20);
                    g.enumm(true)
                });
                let sp = doc::first_bad(&n).unwrap();
                let ts = n.tokens();
                let s = to_stream(&ts);
                return match c.call("parse", count(&ts), || parse_item(s)) {
                    Out::Ok(Err(e)) => {
                        let text = e.to_string();
                        Some((e, vec![Msg { text, start: sp, end: sp }]))
                    }
                    _ => None,
                };
            }
        };
        let (done, wrong) = crate::reenter::taken();
        c.stats.add("callbacks that re-entered the library", done);
        if wrong > 0 {
            c.fail(&["C06", "C10"], "re-entered library misbehaved", format!("in a message source, use {reenter:?}"));
        }
        match r {
            Out::Ok(e) if !panics => Some((e, vec![msg])),
            Out::Ok(e) => {
                // a panicking source that was never asked
                if kind == 2 || !src.text.is_empty() || matches!(kind, 0 | 1) {
                    c.fail(
                        &["C10"],
                        "panic swallowed",
                        format!("message source panicked but an error was made: {:?}", e.to_string()),
                    );
                }
                None
            }
            Out::Crash => None,
            Out::Panic(_) if panics => {
                c.stats.add("fault: message source panics", 1);
                None
            }
            o => {
                let p: &[&str] = if reenter.is_some() { &["C06", "C10"] } else { &["C10"] };
                c.fail(p, "creating an error failed", o.what());
                None
            }
        }
    }

    fn check(&mut self, c: &mut Core, k: usize, what: &str) {
        const P: &[&str] = &["C10"];
        let (e, m) = &self.errs[k];
        let n = 10 * m.len() as u64 + 10;
        let crash = c.draw_crash(n);
        if crash > 0 {
            c.call_at("render", n, crash, || e.to_compile_error());
        }
        match c.call("render", n, || e.to_compile_error()) {
            Out::Ok(s) => {
                let got = of_stream(s);
                c.say(|| format!("rendered {}", show_spans(&got)));
                if let Some(d) = sched::outside(|| differs(m, &got)) {
                    let t = format!("{what}: {d}\n  rendered: {}\n  messages: {m:?}", show_spans(&got));
                    c.fail(P, "rendered error", t);
                }
            }
            o => c.fail(P, "rendering failed", o.what()),
        }
        match c.call("display", n, || e.to_string()) {
            Out::Ok(s) if s == m[0].text => (),
            Out::Ok(s) => c.fail(P, "displayed text", format!("{what}: {s:?} expected {:?}", m[0].text)),
            o => c.fail(P, "display failed", o.what()),
        }
        if c.cfg.prop == "C15" {
            let words: Vec<String> = m.iter().map(|m| m.text.clone()).collect();
            crate::show::check(c, "error", e, n, &words);
        }
        let exp = sim::join_rule(c.cfg.join, m[0].start, m[0].end).unwrap_or(m[0].start);
        let crash = c.draw_crash(1);
        if crash > 0 {
            c.call_at("span", n, crash, || e.span());
        }
        match c.call("span", n, || e.span()) {
            Out::Ok(s) if sim::raw(s) == exp => (),
            Out::Ok(s) => {
                let t = format!("{what}: at {:?}, expected {exp:?} ({:?})", sim::raw(s), c.cfg.join);
                c.fail(P, "error location", t)
            }
            o => c.fail(P, "span failed", o.what()),
        }
    }
}

fn differs(m: &[Msg], got: &[Tk]) -> Option<String> {
    let mut at = 0;
    for (i, x) in m.iter().enumerate() {
        let (a, b, g) = match (got.get(at), got.get(at + 1), got.get(at + 2)) {
            (Some(a), Some(b), Some(g)) => (a, b, g),
            _ => return Some(format!("message {i} is missing")),
        };
        at += 3;
        if !a.is_id("compile_error") || !b.is_p('!') {
            return Some(format!("message {i} is not a compile_error invocation"));
        }
        let (d, inner) = match &g.k {
            K::G(d, inner) => (*d, inner),
            _ => return Some(format!("message {i} has no arguments")),
        };
        if d != D::Brace {
            match got.get(at) {
                Some(t) if t.is_p(';') => at += 1,
                _ => return Some(format!("message {i} is not an item")),
            }
        }
        let lit = proc_macro2::Literal::string(&x.text).to_string();
        match inner.as_slice() {
            [t] => match &t.k {
                K::Lit(s) if *s == lit => {
                    if t.sp != x.end {
                        return Some(format!("text of message {i} is at {:?}, expected {:?}", t.sp, x.end));
                    }
                }
                _ => return Some(format!("message {i} has text {}, expected {lit}", show(inner))),
            },
            _ => return Some(format!("message {i} has arguments {}", show(inner))),
        }
        if a.sp != x.start || b.sp != x.start {
            return Some(format!("message {i} starts at {:?}, expected {:?}", a.sp, x.start));
        }
        if g.sp != x.end {
            return Some(format!("message {i} ends at {:?}, expected {:?}", g.sp, x.end));
        }
    }
    if at != got.len() {
        return Some(format!("{} tokens too many", got.len() - at));
    }
    None
}

impl Session for Errs {
    fn step(&mut self, c: &mut Core) -> bool {
        if self.steps == 0 {
            for k in 0..self.errs.len() {
                self.check(c, k, "at the end");
            }
            return false;
        }
        self.steps -= 1;
        if self.errs.is_empty() || (self.errs.len() < 6 && c.work.chance(25)) {
            if let Some(p) = self.create(c) {
                self.errs.push(p);
                let k = self.errs.len() - 1;
                self.check(c, k, "new");
            }
            return true;
        }
        let n = self.errs.len() as u32;
        let k = c.work.below(n) as usize;
        match c.work.below(6) {
            0 | 1 => {
                // combine with a new one or a copy of any, itself included
                let other = if c.work.chance(50) {
                    match self.create(c) {
                        Some(p) => p,
                        None => return true,
                    }
                } else {
                    let j = c.work.below(n) as usize;
                    (self.errs[j].0.clone(), self.errs[j].1.clone())
                };
                if self.errs[k].1.len() + other.1.len() > 200 {
                    return true;
                }
                c.say(|| format!("combine {k} with {} messages", other.1.len()));
                let e = &mut self.errs[k].0;
                let o = other.0;
                if let x @ (Out::Panic(_) | Out::Steps) = c.call("combine", 4, || e.combine(o)) {
                    c.fail(&["C10"], "combine failed", x.what());
                    return false;
                }
                self.errs[k].1.extend(other.1);
                self.check(c, k, "after combining");
            }
            2 => {
                // move one into another
                let j = c.work.below(n) as usize;
                if j == k {
                    return true;
                }
                let (o, m) = self.errs.remove(j);
                let k = if j < k { k - 1 } else { k };
                if self.errs[k].1.len() + m.len() > 200 {
                    return true;
                }
                let e = &mut self.errs[k].0;
                if let x @ (Out::Panic(_) | Out::Steps) = c.call("combine", 4, || e.combine(o)) {
                    c.fail(&["C10"], "combine failed", x.what());
                    return false;
                }
                self.errs[k].1.extend(m);
                self.check(c, k, "after combining");
            }
            3 => {
                if self.errs.len() < 6 {
                    let e = &self.errs[k].0;
                    if let Out::Ok(x) = c.call("copy", 4, || e.clone()) {
                        let m = self.errs[k].1.clone();
                        self.errs.push((x, m));
                    }
                }
            }
            4 => self.check(c, k, "again"),
            _ => {
                for j in 0..self.errs.len() {
                    self.check(c, j, "again, all");
                }
            }
        }
        true
    }
}
