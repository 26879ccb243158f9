//! Comma lists against a plain sequence (C07).

use crate::core::{Core, Session};
use crate::read::show_diff;
use crate::sched::Out;
use crate::tok::*;
use proc_macro2::{Punct, Spacing, TokenStream, TokenTree};
use quote::ToTokens;
use venial::Punctuated;

/// A caller's element type.
#[derive(Clone, Debug)]
pub struct Elem {
    pub toks: Vec<Tk>,
    pub mode: Mode,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    Plain,
    /// Uses the library itself while being emitted.
    Reenter(u32),
    /// Panics while being emitted, after this many tokens.
    Panic(usize),
}

impl ToTokens for Elem {
    fn to_tokens(&self, out: &mut TokenStream) {
        for (i, t) in self.toks.iter().enumerate() {
            if self.mode == Mode::Panic(i) {
                panic!("element panics");
            }
            out.extend(std::iter::once(to_tree(t)));
        }
        match self.mode {
            Mode::Panic(_) => panic!("element panics"),
            Mode::Reenter(k) => crate::reenter::go(k),
            Mode::Plain => (),
        }
    }
}

#[derive(Clone)]
struct Model {
    v: Vec<(Elem, Tk)>,
    skip: bool,
}

impl Model {
    fn commas(&self) -> Vec<Tk> {
        let n = if self.skip { self.v.len().saturating_sub(1) } else { self.v.len() };
        self.v[..n].iter().map(|(_, c)| c.clone()).collect()
    }
    fn tokens(&self) -> Vec<Tk> {
        let mut out = Vec::new();
        for (i, (e, c)) in self.v.iter().enumerate() {
            out.extend(e.toks.iter().cloned());
            if !(self.skip && i + 1 == self.v.len()) {
                out.push(c.clone());
            }
        }
        out
    }
}

type Pair = (Punctuated<Elem>, Model);

pub struct Lists {
    lists: Vec<Pair>,
    steps: u32,
    serial: u32,
    base: u32,
}

fn pt(t: &Tk) -> Punct {
    match to_tree(t) {
        TokenTree::Punct(p) => p,
        _ => unreachable!(),
    }
}

impl Lists {
    pub fn new(c: &mut Core) -> Lists {
        let steps = 5 + c.work.below(40);
        let base = c.file();
        Lists {
            lists: vec![(
                if c.work.chance(50) { Punctuated::new() } else { Punctuated::default() },
                Model {
                    v: vec![],
                    skip: false,
                },
            )],
            steps,
            serial: 0,
            base,
        }
    }
    fn at(&mut self, mut t: Tk) -> Tk {
        self.serial += 2;
        t.sp = (self.base + self.serial, self.base + self.serial + 1);
        t
    }
    fn elem(&mut self, c: &mut Core) -> Elem {
        let n = [1, 1, 2, 0, 3][c.work.below(5) as usize];
        let toks = (0..n)
            .map(|_| {
                let t = match c.work.below(5) {
                    0 => lit("1"),
                    1 => pa(','),
                    2 => g(D::Paren, vec![]),
                    3 => pj('-'),
                    _ => id("x"),
                };
                self.at(t)
            })
            .collect();
        Elem {
            toks,
            mode: if c.work.chance(10) { Mode::Reenter(c.work.below(crate::reenter::KINDS)) } else { Mode::Plain },
        }
    }
    fn comma(&mut self, c: &mut Core) -> Option<Tk> {
        if c.work.chance(50) {
            None
        } else {
            let t = if c.work.chance(80) {
                pa(',')
            } else {
                pj(',')
            };
            Some(self.at(t))
        }
    }

    fn check(&mut self, c: &mut Core, k: usize, what: &str) {
        const P: &[&str] = &["C07"];
        let (l, m) = &self.lists[k];
        let n = m.v.len();
        if l.len() != n || l.is_empty() != (n == 0) || l.inner.len() != n {
            let t = format!("{what}: len {} is_empty {} but {n} elements", l.len(), l.is_empty());
            c.fail(P, "list length", t);
            return;
        }
        let items: Vec<Tk> = l.items().flat_map(|e| e.toks.clone()).collect();
        let exp: Vec<Tk> = m.v.iter().flat_map(|(e, _)| e.toks.clone()).collect();
        if l.items().count() != n || !same(&exp, &items, EXACT) {
            c.fail(P, "list elements", format!("{what}: {}", show_diff(&exp, &items)));
            return;
        }
        let commas: Vec<Tk> = l.punct().map(of_punct).collect();
        let exp = m.commas();
        if !same(&exp, &commas, EXACT) {
            c.fail(P, "list commas", format!("{what}: {}", show_diff(&exp, &commas)));
            return;
        }
        let pairs = l.iter().zip(&m.v).all(|((e, p), (f, q))| {
            same(&e.toks, &f.toks, EXACT) && same_tk(&of_punct(p), q, EXACT)
        });
        if !pairs || l.iter().count() != n {
            c.fail(P, "list pairs", format!("{what}: elements and commas of the list differ"));
            return;
        }
        for i in 0..n {
            if !same(&l[i].0.toks, &m.v[i].0.toks, EXACT) {
                c.fail(P, "list index", format!("{what}: element {i} differs"));
                return;
            }
        }
        c.say(|| format!("  {} elements, {} commas", n, exp.len()));
    }

    fn emit(&mut self, c: &mut Core, k: usize) {
        let exp = self.lists[k].1.tokens();
        let reenter = self.lists[k].1.v.iter().filter(|(e, _)| matches!(e.mode, Mode::Reenter(_))).count() as u64;
        let n = count(&exp) + self.lists[k].1.v.len() as u64 + crate::reenter::COST * reenter;
        let kk = c.draw_crash(n);
        if kk > 0 {
            let l = &self.lists[k].0;
            c.call_at("emit list", n, kk, || l.to_token_stream());
            self.check(c, k, "after aborted emission");
        }
        crate::reenter::taken();
        // the list is appended to what is already there
        let prefix = c.work.chance(30);
        let l = &self.lists[k].0;
        let r = c.call("emit list", n, || {
            let mut s = TokenStream::new();
            if prefix {
                s.extend(std::iter::once(TokenTree::Punct(Punct::new(';', Spacing::Alone))));
            }
            l.to_tokens(&mut s);
            s
        });
        match r {
            Out::Ok(s) => {
                let mut got = of_stream(s);
                if prefix && !got.is_empty() {
                    got.remove(0);
                }
                if !same(&exp, &got, EXACT) {
                    c.fail(&["C07"], "list emission", show_diff(&exp, &got));
                }
                let done = crate::reenter::taken().0;
                c.stats.add("callbacks that re-entered the library", done);
                if done != reenter {
                    c.fail(
                        &["C06", "C07"],
                        "re-entered library misbehaved",
                        format!("{done} of {reenter} callbacks worked"),
                    );
                }
                c.say(|| format!("emitted {}", show_spans(&got)));
            }
            o => {
                let p: &[&str] = if reenter > 0 { &["C06", "C07"] } else { &["C07"] };
                c.fail(p, "list emission", format!("emission {}", o.what()))
            }
        }
    }
}

impl Session for Lists {
    fn step(&mut self, c: &mut Core) -> bool {
        if self.steps == 0 {
            for k in 0..self.lists.len() {
                self.check(c, k, "at the end");
                self.emit(c, k);
            }
            return false;
        }
        self.steps -= 1;
        let k = c.work.below(self.lists.len() as u32) as usize;
        let n = self.lists[k].1.v.len();
        let w = [24, 16, 6, 8, 8, 8, 6, 6, 12, 6, 4, 5, 1];
        let act = c.work.weighted(&w);
        c.say(|| format!("list {k} of {n}: action {act}"));
        match act {
            0 => {
                let e = self.elem(c);
                let comma = self.comma(c);
                let (l, m) = &mut self.lists[k];
                m.skip = comma.is_none();
                let kept = comma.clone().unwrap_or_else(|| pa(','));
                m.v.push((e.clone(), kept));
                if let o @ (Out::Panic(_) | Out::Steps) = c.call("push", 4, || l.push(e, comma.as_ref().map(pt))) {
                    c.fail(&["C07"], "push failed", o.what());
                    return false;
                }
                self.check(c, k, "after push");
            }
            1 => {
                let e = self.elem(c);
                let comma = self.comma(c);
                let i = c.work.below(n as u32 + 1) as usize;
                let (l, m) = &mut self.lists[k];
                if i == n {
                    m.skip = comma.is_none();
                    m.v.push((e.clone(), comma.clone().unwrap_or_else(|| pa(','))));
                } else {
                    m.v.insert(i, (e.clone(), pa(',')));
                }
                if let o @ (Out::Panic(_) | Out::Steps) =
                    c.call("insert", 4, || l.insert(i, e, comma.as_ref().map(pt)))
                {
                    c.fail(&["C07"], "insert failed", format!("at {i} of {n}: {}", o.what()));
                    return false;
                }
                // whether a comma given for a place in the middle is used is not specified
                if let (true, Some(given), Some((_, got))) = (i < n, &comma, l.inner.get(i)) {
                    if same_tk(&of_punct(got), given, EXACT) {
                        m.v[i].1 = given.clone();
                    }
                }
                self.check(c, k, "after insert");
            }
            2 => {
                // beyond the end
                let e = self.elem(c);
                let comma = self.comma(c);
                let i = n + 1 + c.work.small(3) as usize;
                let l = &mut self.lists[k].0;
                let r = c.call("insert beyond", 4, || l.insert(i, e, comma.as_ref().map(pt)));
                if !matches!(r, Out::Panic(_)) {
                    c.fail(&["C07"], "insert beyond the end", format!("at {i} of {n}: {}", r.what()));
                    return false;
                }
                c.stats.add("fault: insert beyond the end", 1);
                self.check(c, k, "after insert beyond the end");
            }
            3 if n > 0 => {
                // direct edit of an element
                let e = self.elem(c);
                let i = c.work.below(n as u32) as usize;
                let (l, m) = &mut self.lists[k];
                match c.work.below(3) {
                    0 => l[i].0 = e.clone(),
                    1 => l.inner[i].0 = e.clone(),
                    _ => l.iter_mut().nth(i).unwrap().0 = e.clone(),
                }
                m.v[i].0 = e;
                self.check(c, k, "after element edit");
            }
            4 if n > 0 => {
                let t = self.at(pa(','));
                let i = c.work.below(n as u32) as usize;
                let (l, m) = &mut self.lists[k];
                l[i].1 = pt(&t);
                m.v[i].1 = t;
                self.check(c, k, "after comma edit");
            }
            5 if n > 0 => {
                let (l, m) = &mut self.lists[k];
                match c.work.below(4) {
                    0 => {
                        l.inner.pop();
                        m.v.pop();
                    }
                    1 => {
                        let i = c.work.below(n as u32) as usize;
                        l.inner.remove(i);
                        m.v.remove(i);
                    }
                    2 => {
                        let i = c.work.below(n as u32) as usize;
                        l.inner.truncate(i);
                        m.v.truncate(i);
                    }
                    _ => {
                        let i = c.work.below(n as u32) as usize;
                        let j = c.work.below(n as u32) as usize;
                        l.swap(i, j);
                        m.v.swap(i, j);
                    }
                }
                self.check(c, k, "after removal");
            }
            6 => {
                if self.lists.len() < 5 {
                    let l = &self.lists[k].0;
                    let copy = match c.call("copy", 10 * n as u64, || l.clone()) {
                        Out::Ok(l) => l,
                        o => {
                            c.fail(&["C07"], "copy failed", o.what());
                            return false;
                        }
                    };
                    let m = self.lists[k].1.clone();
                    self.lists.push((copy, m));
                    let j = self.lists.len() - 1;
                    self.check(c, j, "copy");
                } else {
                    self.lists.remove(k);
                }
            }
            7 => {
                let (l, m) = &mut self.lists[k];
                let b = c.work.chance(50);
                l.skip_last = b;
                m.skip = b;
                self.check(c, k, "after skip_last");
            }
            8 => {
                self.emit(c, k);
                self.check(c, k, "after emission");
            }
            9 if n > 0 => {
                // an element panics in the middle of emission
                let i = c.work.below(n as u32) as usize;
                let at = c.work.below(3) as usize;
                let old = self.lists[k].0[i].0.mode;
                self.lists[k].0[i].0.mode = Mode::Panic(at);
                let l = &self.lists[k].0;
                let r = c.call("emit panicking list", 20 * n as u64, || l.to_token_stream());
                c.stats.add("fault: callback panics in emission", 1);
                if !matches!(r, Out::Panic(_)) {
                    c.fail(&["C07"], "panic swallowed", format!("emission {}", r.what()));
                }
                self.lists[k].0[i].0.mode = old;
                self.check(c, k, "after a panic in emission");
                self.emit(c, k);
            }
            11 => {
                // direct edits of the sequence
                let e = self.elem(c);
                let t = self.at(pa(','));
                let (l, m) = &mut self.lists[k];
                match c.work.below(5) {
                    0 | 1 => {
                        l.inner.push((e.clone(), pt(&t)));
                        m.v.push((e, t));
                    }
                    2 => {
                        let i = c.work.below(n as u32 + 1) as usize;
                        l.inner.insert(i, (e.clone(), pt(&t)));
                        m.v.insert(i, (e, t));
                    }
                    3 => {
                        l.reverse();
                        m.v.reverse();
                    }
                    _ => {
                        l.inner.clear();
                        m.v.clear();
                    }
                }
                self.check(c, k, "after direct edit");
            }
            12 => {
                // many elements
                let times = [20, 70, 140, 300][c.work.below(4) as usize];
                let front = c.work.chance(30);
                for i in 0..times {
                    let e = Elem {
                        toks: vec![self.at(id("x"))],
                        mode: Mode::Plain,
                    };
                    let comma = if i % 3 == 0 { None } else { Some(self.at(pa(','))) };
                    let (l, m) = &mut self.lists[k];
                    let n = m.v.len();
                    let p = comma.as_ref().map(pt);
                    if front && n > 0 {
                        let e2 = e.clone();
                        c.call("insert", 4, || l.insert(0, e2, None));
                        m.v.insert(0, (e, pa(',')));
                    } else {
                        let e2 = e.clone();
                        c.call("push", 4, || l.push(e2, p));
                        m.skip = comma.is_none();
                        m.v.push((e, comma.unwrap_or_else(|| pa(','))));
                    }
                }
                self.check(c, k, "after many");
                self.emit(c, k);
            }
            _ => {
                for j in 0..self.lists.len() {
                    self.check(c, j, "recheck");
                }
            }
        }
        true
    }
}
