//! Sessions that read declarations from streams (C01, C02, C03, C05, C12).

use crate::core::{Core, Session};
use crate::doc::{self, Chunk, Doc};
use crate::model::{diff, N};
use crate::observe;
use crate::sched::Out;
use crate::tok::*;
use proc_macro2::{token_stream::IntoIter, TokenStream};
use quote::ToTokens;
use std::iter::Peekable;
use venial::{consume_item, parse_item, Error, Item};

pub type Cursor = Peekable<IntoIter>;

pub fn cursor(ts: &[Tk]) -> Cursor {
    to_stream(ts).into_iter().peekable()
}

pub fn rest(cur: &Cursor) -> Vec<Tk> {
    cur.clone().map(|t| of_tree(&t)).collect()
}

fn short(s: String) -> String {
    if s.chars().count() > 600 {
        s.chars().take(600).collect::<String>() + "..."
    } else {
        s
    }
}

pub fn show_diff(exp: &[Tk], got: &[Tk]) -> String {
    let i = exp.iter().zip(got).position(|(a, b)| !same_tk(a, b, EXACT));
    match i {
        Some(i) => short(format!(
            "token {i}: expected `{}`, got `{}`\n  expected: {}\n  got:      {}",
            show_spans(&exp[i..i + 1]),
            show_spans(&got[i..i + 1]),
            show(exp),
            show(got)
        )),
        None => short(format!(
            "{} tokens expected, got {}\n  expected: {}\n  got:      {}",
            exp.len(),
            got.len(),
            show(exp),
            show(got)
        )),
    }
}

/// Emits `x`, possibly after an aborted attempt, and gives the tokens.
pub fn emit<T: ToTokens>(c: &mut Core, what: &str, x: &T, n: u64) -> Out<Vec<Tk>> {
    let k = c.draw_crash(n);
    if k > 0 {
        let r = c.call_at(what, n, k, || x.to_token_stream());
        c.say(|| format!("  {what} aborted at {k}: {}", matches!(r, Out::Crash)));
    }
    let way = c.work.below(3);
    let r = match way {
        0 => c.call(what, n, || x.to_token_stream()),
        1 => c.call(what, n, || quote::quote!(#x)),
        _ => c.call(what, n, || {
            let mut s = TokenStream::new();
            x.to_tokens(&mut s);
            s
        }),
    };
    match r {
        Out::Ok(s) => Out::Ok(of_stream(s)),
        Out::Panic(m) => Out::Panic(m),
        Out::Crash => Out::Crash,
        Out::Steps => Out::Steps,
    }
}

pub const READ_FAILS: &[&str] = &["C01", "C02", "C03"];

/// Checks an item that was read from the tokens of `n`.
pub fn check_item(c: &mut Core, it: &Item, n: &N, where_: &str, extra: &[&'static str]) {
    let exp = n.tokens();
    let size = count(&exp);
    let mut p1 = vec!["C01"];
    p1.extend(extra);
    match emit(c, "emit", it, size) {
        Out::Ok(got) => {
            if !same(&exp, &got, EXACT) {
                let d = show_diff(&exp, &got);
                c.fail(&p1, "emitted tokens differ", format!("{where_}: {d}"));
            }
            c.say(|| format!("  emitted {}", show_spans(&got)));
        }
        o => {
            let w = o.what();
            c.fail(&p1, "emission failed", format!("{where_}: emission {w}"));
        }
    }
    let got = observe::item(it);
    if let Some(d) = diff(n, &got, EXACT) {
        let mut p3 = vec!["C03"];
        p3.extend(extra);
        c.fail(&p3, "structure differs", format!("{where_}: {}: {d}\n  in: {}", n.kind(), short(show(&exp))));
    }
}

pub fn show_read(r: &Out<Result<Item, Error>>) -> String {
    match r {
        Out::Ok(Ok(i)) => format!("{}", observe::item(i).kind()),
        Out::Ok(Err(e)) => format!("error {:?} {:?}", e.to_string(), proc_macro2::sim::raw(e.span())),
        o => o.what(),
    }
}

pub struct Read {
    doc: Doc,
    at: usize,
    cur: Cursor,
    live: Vec<(Item, usize)>,
    opts: doc::Opts,
}

impl Read {
    pub fn new(c: &mut Core, opts: doc::Opts) -> Read {
        let doc = doc::make(c, opts);
        let cur = cursor(&doc.toks);
        Read {
            doc,
            at: 0,
            cur,
            live: Vec::new(),
            opts,
        }
    }

    fn size(&self, i: usize) -> u64 {
        let p = &self.doc.parts[i];
        count(&self.doc.toks[p.from..p.to])
    }

    /// Checks the outcome of reading part `i` and where the cursor is now.
    fn check_read(&self, c: &mut Core, i: usize, r: &Out<Result<Item, Error>>, left: &[Tk], how: &str) -> bool {
        let p = &self.doc.parts[i];
        let (n, bad) = match &p.chunk {
            Chunk::Item { n, bad } => (n, bad),
            Chunk::Foreign => unreachable!(),
        };
        let w = || format!("{how} item {i} ({})", n.kind());
        let src = || short(show(&self.doc.toks[p.from..p.to]));
        let mut good = true;
        match (r, bad) {
            (Out::Ok(Ok(it)), None) => {
                c.stats.add("items read", 1);
                check_item(c, it, n, &w(), &[]);
            }
            (Out::Ok(Err(e)), Some(sp)) => {
                c.stats.add("discriminant errors", 1);
                let got = proc_macro2::sim::raw(e.span());
                if got != *sp {
                    c.fail(
                        &["C05"],
                        "error location",
                        format!("{}: error at {got:?}, value at {sp:?}\n  in: {}", w(), src()),
                    );
                }
                // what the user sees is located there as well
                let shown: Vec<Tk> = of_stream(e.to_compile_error());
                if shown.first().map(|t| t.sp) != Some(*sp) {
                    c.fail(
                        &["C05"],
                        "error location",
                        format!("{}: rendered as `{}`, value at {sp:?}", w(), show_spans(&shown)),
                    );
                }
            }
            (Out::Ok(Ok(_)), Some(_)) => {
                c.fail(&["C05"], "bad discriminant accepted", format!("{}\n  in: {}", w(), src()));
            }
            (o, Some(_)) => {
                good = false;
                c.fail(
                    &["C05"],
                    "bad discriminant not reported",
                    format!("{} {}\n  in: {}", w(), o.what(), src()),
                );
            }
            (o, None) => {
                good = matches!(o, Out::Ok(_));
                let mut props = READ_FAILS.to_vec();
                if n.kind() == "Enum" {
                    props.push("C05");
                }
                c.fail(
                    &props,
                    "supported declaration refused",
                    format!("{} {}\n  in: {}", w(), show_read(o), src()),
                );
            }
        }
        if good && !same(left, &self.doc.toks[p.to..], EXACT) {
            let props: &[&'static str] = if bad.is_some() { &["C02", "C05"] } else { &["C02"] };
            let exp = &self.doc.toks[p.to..];
            c.fail(
                props,
                "cursor",
                format!(
                    "{}: {} tokens should be left, {} are\n  in: {}\n  left:     {}\n  expected: {}",
                    w(),
                    exp.len(),
                    left.len(),
                    src(),
                    short(show(left)),
                    short(show(exp))
                ),
            );
            good = false;
        }
        good
    }

    fn aborted_read(&self, c: &mut Core, i: usize) {
        for _ in 0..2 {
            let n = self.size(i);
            let k = c.draw_crash(n);
            if k == 0 {
                break;
            }
            let mut cur = cursor(&self.doc.toks[self.doc.parts[i].from..]);
            let r = c.call_at("read", n, k, || consume_item(&mut cur));
            c.say(|| format!("  attempt aborted at {k}: {}", matches!(r, Out::Crash)));
        }
    }

    /// A read through a copy at the caller's own tokens never takes them for nothing.
    fn read_foreign(&mut self, c: &mut Core, from: usize) {
        let toks = &self.doc.toks[from..];
        let n = count(toks);
        let mut cur = self.cur.clone();
        let r = c.call("read at the caller's tokens", n, || consume_item(&mut cur));
        c.say(|| format!("read at the caller's tokens: {}", show_read(&r)));
        let it = match r {
            Out::Ok(Ok(it)) => it,
            _ => return,
        };
        let left = rest(&cur);
        let used = toks.len().saturating_sub(left.len());
        if left.len() > toks.len() || !same(&toks[used..], &left, EXACT) {
            let t = format!("left {} of {}", short(show(&left)), short(show(toks)));
            c.fail(&["C02"], "cursor is not a suffix", t);
            return;
        }
        if let Out::Ok(got) = emit(c, "emit", &it, n) {
            if !same(&toks[..used], &got, EXACT) {
                let d = show_diff(&toks[..used], &got);
                c.fail(&["C02"], "caller's tokens taken", format!("consumed and emitted tokens differ: {d}"));
            }
        }
    }

    fn read_next(&mut self, c: &mut Core) -> bool {
        let i = self.at;
        let from = self.doc.parts[i].from;
        match &self.doc.parts[i].chunk {
            Chunk::Foreign => {
                if c.work.chance(30) {
                    self.read_foreign(c, from);
                }
                let p = &self.doc.parts[i];
                let peek = c.work.chance(50);
                for k in p.from..p.to {
                    if peek {
                        self.cur.peek();
                    }
                    let t = self.cur.next().map(|t| of_tree(&t));
                    if t.as_ref() != Some(&self.doc.toks[k]) {
                        c.fail(&["C02"], "cursor", format!("caller's token {k} was not there: {t:?}"));
                        return false;
                    }
                }
                self.at += 1;
                return true;
            }
            Chunk::Item { .. } => (),
        }
        self.aborted_read(c, i);
        if c.fault.chance(c.cfg.crash / 2) {
            // redelivered from here
            self.cur = cursor(&self.doc.toks[from..]);
            c.stats.add("fault: redelivery", 1);
        }
        if c.work.chance(30) {
            self.cur.peek();
        }
        let n = self.size(i);
        let cur = &mut self.cur;
        let r = c.call("read", n, || consume_item(cur));
        c.say(|| format!("read {i}: {}", show_read(&r)));
        let left = rest(&self.cur);
        let good = self.check_read(c, i, &r, &left, "reading");
        if let Out::Ok(Ok(it)) = r {
            if self.live.len() < 8 {
                self.live.push((it, i));
            }
        }
        if !good {
            // go on behind it
            self.cur = cursor(&self.doc.toks[self.doc.parts[i].to..]);
        }
        self.at += 1;
        true
    }

    fn read_fork(&mut self, c: &mut Core) {
        let before = rest(&self.cur);
        if c.work.chance(40) {
            self.cur.peek();
        }
        let mut fork = self.cur.clone();
        let mut j = self.at;
        let many = 1 + c.work.below(3);
        for _ in 0..many {
            while j < self.doc.parts.len() && matches!(self.doc.parts[j].chunk, Chunk::Foreign) {
                for _ in self.doc.parts[j].from..self.doc.parts[j].to {
                    fork.next();
                }
                j += 1;
            }
            if j >= self.doc.parts.len() {
                break;
            }
            let n = self.size(j);
            let k = c.draw_crash(n);
            let r = c.call_at("read a copy", n, k, || consume_item(&mut fork));
            c.say(|| format!("read copy {j}: {}", show_read(&r)));
            if matches!(r, Out::Crash) {
                break;
            }
            let left = rest(&fork);
            if !self.check_read(c, j, &r, &left, "reading a copy of the cursor,") {
                break;
            }
            j += 1;
        }
        drop(fork);
        let after = rest(&self.cur);
        if !same(&before, &after, EXACT) {
            c.fail(&["C02"], "fork moved the original", show_diff(&before, &after));
        }
        c.stats.add("copies of cursors read", 1);
    }

    fn whole(&mut self, c: &mut Core) {
        let i = match (0..self.doc.parts.len()).find(|i| {
            *i >= self.at && matches!(self.doc.parts[*i].chunk, Chunk::Item { .. })
        }) {
            Some(i) => i,
            None => return,
        };
        let p = &self.doc.parts[i];
        let extra = c.work.chance(50);
        let mut toks = self.doc.toks[p.from..p.to].to_vec();
        if extra {
            let more = 1 + c.work.below(3) as usize;
            if p.to < self.doc.toks.len() && c.work.chance(60) {
                toks.extend(self.doc.toks[p.to..].iter().take(more).cloned());
            } else {
                let t = match c.work.below(5) {
                    0 => pa(','),
                    1 => id("x"),
                    2 => g(D::Hidden, vec![]),
                    3 => g(D::Brace, vec![]),
                    _ => pa(';'),
                };
                toks.push(t);
            }
        }
        let n = count(&toks);
        let k = c.draw_crash(n);
        if k > 0 {
            let s = to_stream(&toks);
            c.call_at("parse", n, k, || parse_item(s));
        }
        let s = to_stream(&toks);
        let r = c.call("parse", n, || parse_item(s));
        c.say(|| format!("parse {i} extra {extra}: {}", show_read(&r)));
        if extra {
            if let Out::Ok(Ok(it)) = &r {
                // a longer declaration is possible only if it took everything
                let got = of_stream(it.to_token_stream());
                let src = short(show(&toks));
                c.fail(
                    &["C02"],
                    "leftover tokens ignored",
                    format!("parsed `{}` from {src}", short(show(&got))),
                );
            }
            c.stats.add("whole inputs with leftovers", 1);
        } else {
            self.check_read(c, i, &r, &self.doc.toks[p.to..], "parsing");
            c.stats.add("whole inputs parsed", 1);
        }
    }

    fn recheck(&mut self, c: &mut Core) {
        if self.live.is_empty() {
            return;
        }
        let k = c.work.below(self.live.len() as u32) as usize;
        let (it, i) = &self.live[k];
        let it = if c.work.chance(30) { it.clone() } else { it.clone() };
        if let Chunk::Item { n, .. } = &self.doc.parts[*i].chunk {
            check_item(c, &it, n, &format!("item {i}, later"), &["C06"]);
        }
        c.stats.add("items rechecked later", 1);
    }
}

impl Session for Read {
    fn step(&mut self, c: &mut Core) -> bool {
        if self.at >= self.doc.parts.len() {
            for _ in 0..self.live.len().min(2) {
                self.recheck(c);
            }
            let left = rest(&self.cur);
            if !left.is_empty() {
                c.fail(&["C02"], "cursor", format!("left at the end: {}", short(show(&left))));
            }
            if c.stats.n.get("documents").copied().unwrap_or(0) < 3 && c.work.chance(30) {
                *self = Read::new(c, self.opts);
                return true;
            }
            return false;
        }
        match c.work.weighted(&[10, 2, 2, 2]) {
            0 => return self.read_next(c),
            1 => self.read_fork(c),
            2 => self.whole(c),
            _ => self.recheck(c),
        }
        true
    }
}
