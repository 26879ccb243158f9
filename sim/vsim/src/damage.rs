//! Sessions whose streams are damaged, and streams of constructs the library
//! has no place for (C04, C12, C14).

use crate::core::{Core, Session};
use crate::doc::{self, Chunk, Doc};
use crate::gen::Gen;
use crate::model::N;
use crate::read::{check_item, cursor, emit, rest, show_diff, show_read};
use crate::sched::Out;
use crate::tok::*;
use venial::{consume_item, parse_item};

fn short(s: String) -> String {
    if s.chars().count() > 500 {
        s.chars().take(500).collect::<String>() + "..."
    } else {
        s
    }
}

/// All positions of `ts`, nested ones included, as paths.
fn spots(ts: &[Tk], at: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    for (i, t) in ts.iter().enumerate() {
        at.push(i);
        out.push(at.clone());
        if let K::G(_, inner) = &t.k {
            spots(inner, at, out);
        }
        at.pop();
    }
}

fn list_at<'a>(ts: &'a mut Vec<Tk>, path: &[usize]) -> &'a mut Vec<Tk> {
    if path.len() == 1 {
        return ts;
    }
    match &mut ts[path[0]].k {
        K::G(_, inner) => list_at(inner, &path[1..]),
        _ => unreachable!(),
    }
}

pub fn stray(c: &mut Core) -> Tk {
    let mut t = match c.fault.below(9) {
        0 => pa(*c.fault.pick(&[',', ';', '<', '>', '=', ':', '#', '!', '&', '-', '\'', '+', '|'])),
        1 => pj(*c.fault.pick(&[':', '-', '\'', '<', '>', '=', '&'])),
        2 => id(*c.fault.pick(&["x", "T", "self", "where", "for", "pub", "crate", "mut", "const", "in", "as"][..])),
        3 => id(
            *c.fault.pick(
                &[
                    "struct", "enum", "union", "fn", "impl", "trait", "mod", "type", "static", "use",
                    "extern", "macro_rules", "unsafe", "default", "async", "dyn", "_",
                ][..],
            ),
        ),
        4 => lit(*c.fault.pick(&["1", "\"s\"", "'c'", "1.0"][..])),
        5 => g(*c.fault.pick(&[D::Paren, D::Brace, D::Bracket, D::Hidden]), vec![]),
        6 => g(*c.fault.pick(&[D::Paren, D::Brace, D::Bracket, D::Hidden]), vec![id("x")]),
        7 => g(
            *c.fault.pick(&[D::Paren, D::Brace, D::Bracket, D::Hidden]),
            vec![id("x"), pa(':'), id("u8"), pa(',')],
        ),
        _ => pa(*c.fault.pick(&[',', ':', ';', '=', '>'])),
    };
    let lo = c.file();
    place(&mut t, &mut { lo });
    t
}

fn place(t: &mut Tk, at: &mut u32) {
    let lo = *at;
    *at += 1;
    if let K::G(_, inner) = &mut t.k {
        for x in inner {
            place(x, at);
        }
        *at += 1;
    }
    t.sp = (lo, *at);
    *at += 1;
}

/// Damages `ts` in one place; returns what was done.
pub fn damage(c: &mut Core, ts: &mut Vec<Tk>) -> &'static str {
    let mut ps = Vec::new();
    spots(ts, &mut Vec::new(), &mut ps);
    if ps.is_empty() {
        ts.push(stray(c));
        return "fault: token inserted";
    }
    let path = if c.fault.chance(40) {
        ps[c.fault.below(ps.len() as u32) as usize].clone()
    } else {
        // from the outside, so that long bodies do not get it all
        let mut path = Vec::new();
        let mut l: &[Tk] = ts;
        loop {
            let i = c.fault.below(l.len() as u32) as usize;
            path.push(i);
            match &l[i].k {
                K::G(_, inner) if !inner.is_empty() && c.fault.chance(75) => l = inner,
                _ => break path,
            }
        }
    };
    let i = *path.last().unwrap();
    let kind = c.fault.below(15);
    let s = if matches!(kind, 3 | 4 | 5) { Some(stray(c)) } else { None };
    let r2 = c.fault.below(4);
    let r3 = c.fault.below(64) as usize;
    let l = list_at(ts, &path);
    match kind {
        0 | 1 => {
            l.remove(i);
            "fault: token lost"
        }
        2 => {
            let t = l[i].clone();
            l.insert(i, t);
            "fault: token duplicated"
        }
        3 | 4 => {
            l.insert(i, s.unwrap());
            "fault: token inserted"
        }
        5 => {
            l[i] = s.unwrap();
            "fault: token replaced"
        }
        6 => {
            if i + 1 < l.len() {
                l.swap(i, i + 1);
            } else {
                l.remove(i);
            }
            "fault: tokens reordered"
        }
        7 => {
            l.truncate(i);
            "fault: list cut off"
        }
        8 => {
            if let K::P(_, j) = &mut l[i].k {
                *j = !*j;
                "fault: spacing flipped"
            } else {
                l.remove(i);
                "fault: token lost"
            }
        }
        9 => {
            if let K::G(_, inner) = l[i].k.clone() {
                l.splice(i..i + 1, inner);
                "fault: group dissolved"
            } else {
                l.remove(i);
                "fault: token lost"
            }
        }
        10 => {
            if let K::G(d, _) = &mut l[i].k {
                *d = [D::Paren, D::Brace, D::Bracket, D::Hidden][r2 as usize];
                "fault: delimiter changed"
            } else {
                let t = l[i].clone();
                l.insert(i, t);
                "fault: token duplicated"
            }
        }
        11 => {
            // another copy of the token a little further on
            let t = l[i].clone();
            let to = (i + 1 + r2 as usize).min(l.len());
            l.insert(to, t);
            "fault: token duplicated"
        }
        12 => {
            // a copy of another token of the list
            let t = l[r3 % l.len()].clone();
            l.insert(i, t);
            "fault: token duplicated"
        }
        13 => {
            // a run of tokens comes twice
            let n = (2 + r2 as usize).min(l.len() - i);
            let run = l[i..i + n].to_vec();
            l.splice(i..i, run);
            "fault: tokens duplicated"
        }
        _ => {
            // a run of tokens moves
            let n = (1 + r2 as usize).min(l.len() - i);
            let cut: Vec<Tk> = l.drain(i..i + n).collect();
            let to = if i > l.len() / 2 { 0 } else { l.len() };
            l.splice(to..to, cut);
            "fault: tokens moved"
        }
    }
}

/// May a struct cut at top-level token `k` pass for complete?
fn cut_ok(n: &N, k: usize) -> bool {
    if n.kind() != "Struct" || n.get("fields").kind() != "Tuple" {
        return false;
    }
    // everything up to and including the field list is there
    let mut len = 0;
    for f in ["attrs", "vis", "kw", "name", "generics", "fields"] {
        len += n.get(f).tokens().len();
    }
    k >= len
}

pub struct Damage {
    doc: Doc,
    hit: usize,
    /// Top-level length of the damaged item if it was cut off.
    cut: Option<usize>,
    toks: Vec<Tk>,
    at: usize,
    i: usize,
    rounds: u32,
    again: u32,
    opts: doc::Opts,
    props: &'static [&'static str],
    odd: bool,
}

impl Damage {
    /// `odd`: the damage is a construct the library has no place for.
    pub fn new(c: &mut Core, opts: doc::Opts, odd: bool) -> Damage {
        let props: &'static [&'static str] = if odd { &["C14"] } else { &["C04"] };
        let doc = doc::make(c, opts);
        let items: Vec<usize> = (0..doc.parts.len())
            .filter(|i| matches!(doc.parts[*i].chunk, Chunk::Item { .. }))
            .collect();
        let hit = items[c.fault.below(items.len() as u32) as usize];
        let (from, to) = (doc.parts[hit].from, doc.parts[hit].to);
        let mut toks = doc.toks[..from].to_vec();
        let mut cut = None;
        if odd {
            let knobs = c.knobs.clone();
            let mut v = {
                let mut g = Gen::new(&mut c.fault, &knobs);
                let (name, v) = odd_item(&mut g);
                c.stats.add(name, 1);
                v
            };
            c.deliver(&mut v);
            if c.keep {
                let s = show(&v);
                c.say(|| format!("unsupported: {s}"));
            }
            toks.extend(v);
            toks.extend(doc.toks[to..].iter().cloned());
        } else if c.fault.chance(35) {
            let k = c.fault.below((to - from) as u32) as usize;
            cut = Some(k);
            toks.extend(doc.toks[from..from + k].iter().cloned());
            c.stats.add("fault: stream cut off", 1);
        } else {
            let mut v = doc.toks[from..to].to_vec();
            for _ in 0..1 + c.fault.small(2) {
                let w = damage(c, &mut v);
                c.stats.add(w, 1);
            }
            if c.keep {
                let s = show(&v);
                c.say(|| format!("damaged item {hit}: {s}"));
            }
            toks.extend(v);
            toks.extend(doc.toks[to..].iter().cloned());
        }
        Damage {
            doc,
            hit,
            cut,
            toks,
            at: 0,
            i: 0,
            rounds: 0,
            again: 0,
            opts,
            props,
            odd,
        }
    }

    /// The same declaration damaged in another way.
    fn damage_again(&mut self, c: &mut Core) {
        let p = &self.doc.parts[self.hit];
        let (from, to) = (p.from, p.to);
        let mut v = self.doc.toks[from..to].to_vec();
        self.cut = None;
        self.toks = self.doc.toks[..from].to_vec();
        if c.fault.chance(15) {
            let k = c.fault.below((to - from) as u32) as usize;
            self.cut = Some(k);
            v.truncate(k);
            c.stats.add("fault: stream cut off", 1);
        } else {
            let w = damage(c, &mut v);
            c.stats.add(w, 1);
        }
        if c.keep {
            let s = show(&v);
            c.say(|| format!("damaged item {} again: {s}", self.hit));
        }
        self.toks.extend(v);
        if self.cut.is_none() && c.fault.chance(30) {
            self.toks.extend(self.doc.toks[to..].iter().cloned());
        }
        self.at = from;
        self.i = self.hit;
        self.again += 1;
    }

    fn next(&mut self, c: &mut Core) -> bool {
        let most = if c.cfg.prop == "C04" { 8 } else { 1 };
        if !self.odd && self.again < most && c.work.chance(85) {
            self.damage_again(c);
            return true;
        }
        self.rounds += 1;
        if self.rounds < 4 && c.work.chance(50) {
            let r = self.rounds;
            *self = Damage::new(c, self.opts, self.odd);
            self.rounds = r;
            return true;
        }
        false
    }
}

impl Session for Damage {
    fn step(&mut self, c: &mut Core) -> bool {
        if self.at > self.toks.len() || (self.at == self.toks.len() && self.i > self.hit) {
            return self.next(c);
        }
        let toks = self.toks[self.at..].to_vec();
        let size = count(&toks);
        if self.i < self.hit {
            // in front of the damage
            let p = &self.doc.parts[self.i];
            let (n, bad) = match &p.chunk {
                Chunk::Foreign => {
                    self.at = p.to;
                    self.i += 1;
                    return true;
                }
                Chunk::Item { n, bad } => (n, bad),
            };
            let mut cur = cursor(&toks);
            let r = c.call("read", size, || consume_item(&mut cur));
            c.say(|| format!("read {} in front: {}", self.i, show_read(&r)));
            match (&r, bad) {
                (Out::Ok(Ok(it)), None) => {
                    let w = format!("item {} in front of the damage", self.i);
                    check_item(c, it, n, &w, self.props);
                }
                (Out::Ok(Err(_)), Some(_)) => (),
                (o, _) => {
                    let t = format!(
                        "item {} in front of the damage: {}\n  {}",
                        self.i,
                        show_read(o),
                        short(show(&toks))
                    );
                    c.fail(self.props, "declaration in front of damage refused", t);
                }
            }
            let left = rest(&cur);
            if matches!(r, Out::Ok(_)) && !same(&left, &self.toks[p.to..], EXACT) {
                let t = format!("item {} in front of the damage: {}", self.i, show_diff(&self.toks[p.to..], &left));
                c.fail(self.props, "cursor in front of damage", t);
            }
            self.at = p.to;
            self.i += 1;
            return true;
        }
        let whole = c.work.chance(25);
        let k = c.draw_crash(size);
        if k > 0 {
            let mut cur = cursor(&toks);
            c.call_at("read damaged", size, k, || consume_item(&mut cur));
        }
        let (r, left) = if whole {
            let s = to_stream(&toks);
            (c.call("parse damaged", size, || parse_item(s)), Vec::new())
        } else {
            let mut cur = cursor(&toks);
            let r = c.call("read damaged", size, || consume_item(&mut cur));
            let l = if matches!(r, Out::Ok(_)) { rest(&cur) } else { Vec::new() };
            (r, l)
        };
        c.say(|| format!("read damaged: {}", show_read(&r)));
        let first = self.i == self.hit;
        self.i += 1;
        match r {
            Out::Ok(Ok(it)) => {
                c.stats.add("damaged reads that gave an item", 1);
                // what was consumed: everything but what is left
                let used = toks.len().saturating_sub(left.len());
                if left.len() > toks.len() || !same(&toks[used..], &left, EXACT) {
                    let t = format!("left {} of {}", short(show(&left)), short(show(&toks)));
                    c.fail(self.props, "cursor is not a suffix", t);
                    return self.next(c);
                }
                match emit(c, "emit", &it, size) {
                    Out::Ok(got) => {
                        if !same(&toks[..used], &got, EXACT) {
                            let d = show_diff(&toks[..used], &got);
                            c.fail(self.props, "silently wrong item", format!("consumed and emitted tokens differ: {d}"));
                        }
                        c.say(|| format!("  emitted {}", show_spans(&got)));
                    }
                    o => {
                        let t = format!("emission {} of item read from {}", o.what(), short(show(&toks)));
                        c.fail(self.props, "emission failed", t);
                    }
                }
                if first {
                    if let (Some(k), Chunk::Item { n, .. }) = (self.cut, &self.doc.parts[self.hit].chunk) {
                        if !cut_ok(n, k) {
                            let t = format!(
                                "{} cut to {k} tokens was accepted: {}",
                                n.kind(),
                                short(show(&toks))
                            );
                            c.fail(self.props, "cut declaration accepted", t);
                        }
                    }
                }
                if whole {
                    return self.next(c);
                }
                self.at += used.max(1);
                true
            }
            o => {
                c.stats.add("damaged reads refused", 1);
                drop(o);
                if self.odd {
                    // the process can still read other streams
                    let n = doc::one(c, |g| g.item(1));
                    let ts = n.tokens();
                    let s = to_stream(&ts);
                    let r = c.call("read after refusal", count(&ts), || parse_item(s));
                    match r {
                        Out::Ok(Ok(it)) => check_item(c, &it, &n, "after a refused read", self.props),
                        o => {
                            let t = format!("after a refused read: {}\n  {}", show_read(&o), short(show(&ts)));
                            c.fail(self.props, "read after refusal fails", t);
                        }
                    }
                }
                self.next(c)
            }
        }
    }
}

fn p_list(g: &mut Gen, items: Vec<Vec<Tk>>) -> Vec<Tk> {
    let mut v = Vec::new();
    for (i, x) in items.into_iter().enumerate() {
        if i > 0 {
            v.push(p(','));
        }
        v.extend(x);
    }
    if g.t.chance(30) {
        v.push(p(','));
    }
    v
}

/// Function parameters that are patterns.
fn odd_param(g: &mut Gen) -> Vec<Tk> {
    let ty = g.ty(2);
    let mut v = match g.t.below(24) {
        20 => vec![p('&'), id("self")],
        21 => vec![p('&'), id("mut"), id("self")],
        22 => vec![p('&'), pj('\''), id("a"), id("self")],
        23 => [vec![p('&'), pj('\''), id("a")], vec![id("mut"), id("self")]].concat(),
        10 => vec![crate::tok::g(*g.t.pick(&[D::Paren, D::Bracket]), vec![])],
        11 => vec![crate::tok::g(D::Paren, vec![id("x")])],
        12 => vec![crate::tok::g(D::Paren, vec![id("_"), p(',')])],
        13 => vec![lit("0")],
        14 => vec![id("a"), p('|'), id("b")],
        15 => [vec![id("m")], crate::gen::colon2(), vec![id("Foo"), crate::tok::g(D::Paren, vec![id("_")])]].concat(),
        16 => vec![id("m"), p('!'), crate::tok::g(D::Paren, vec![])],
        17 => vec![id("box"), id("x")],
        18 => vec![p('&'), crate::tok::g(D::Paren, vec![id("a"), p(','), id("b")])],
        19 => vec![id("ref"), id("mut"), id("x")],
        0 => vec![crate::tok::g(D::Paren, vec![id("a"), p(','), id("b")])],
        1 => vec![p('&'), id("x")],
        2 => vec![id("ref"), id("x")],
        3 => vec![id("Foo"), crate::tok::g(D::Brace, vec![id("x")])],
        4 => vec![id("Foo"), crate::tok::g(D::Paren, vec![id("x")])],
        5 => vec![crate::tok::g(D::Bracket, vec![id("a"), p(','), p('.'), p('.')])],
        6 => vec![id("mut"), crate::tok::g(D::Paren, vec![id("a")])],
        7 => vec![p('&'), id("mut"), id("x")],
        8 => vec![id("x"), p('@'), id("y")],
        _ => vec![p('&'), pj('\''), id("a"), id("x")],
    };
    v.push(p(':'));
    v.extend(ty);
    v
}

fn odd_fn(g: &mut Gen) -> Vec<Tk> {
    let mut v = Vec::new();
    v.extend([id("fn"), g.name()]);
    let n = g.t.below(3);
    let at = g.t.below(n + 1);
    let items: Vec<Vec<Tk>> = (0..n + 1)
        .map(|i| if i == at { odd_param(g) } else { g.fparam(i == 0).tokens() })
        .collect();
    let l = p_list(g, items);
    v.push(crate::tok::g(D::Paren, l));
    v.push(crate::tok::g(D::Brace, vec![]));
    v
}

fn wrap_member(g: &mut Gen, m: Vec<Tk>) -> Vec<Tk> {
    let mut body = Vec::new();
    if g.t.chance(40) {
        body.extend(g.member(false).tokens());
    }
    body.extend(m);
    if g.t.chance(40) {
        body.extend(g.member(false).tokens());
    }
    let mut v = match g.t.below(3) {
        0 => vec![id("impl"), id("Foo")],
        1 => vec![id("trait"), id("Foo")],
        _ => vec![id("extern"), lit("\"C\"")],
    };
    v.push(crate::tok::g(D::Brace, body));
    v
}

/// In a module, at times with declarations around it.
fn wrap_mod(g: &mut Gen, m: Vec<Tk>) -> Vec<Tk> {
    let mut body = Vec::new();
    if g.t.chance(40) {
        body.extend(g.item(1).tokens());
    }
    body.extend(m);
    if g.t.chance(40) {
        body.extend(g.item(1).tokens());
    }
    vec![id("mod"), id("m"), crate::tok::g(D::Brace, body)]
}

fn odd_item(g: &mut Gen) -> (&'static str, Vec<Tk>) {
    let vis = |g: &mut Gen| g.some_vis().tokens();
    let (name, mut v) = match g.t.below(28) {
        0 | 1 => {
            let f = odd_fn(g);
            let f = if g.t.chance(40) { wrap_member(g, f) } else { f };
            ("unsupported: pattern parameter", f)
        }
        2 => {
            let mut v = vis(g);
            v.extend(g.impl_().tokens().into_iter().skip_while(|t| !t.is_id("impl") && !t.is_id("unsafe")));
            ("unsupported: visibility on impl", v)
        }
        3 => {
            let mut v = vis(g);
            v.extend(g.macr().tokens().into_iter().skip_while(|t| t.is_p('#') || t.is_group(D::Bracket)));
            let v = if g.t.chance(40) { wrap_member(g, v) } else { v };
            ("unsupported: visibility on macro", v)
        }
        4 => {
            // tokens after the arguments of an attribute
            let mut inner = vec![id("a"), crate::tok::g(*g.t.pick(&[D::Paren, D::Bracket, D::Brace]), g.soup(1))];
            inner.push(match g.t.below(5) {
                0 => id("x"),
                1 => p('='),
                2 => lit("1"),
                3 => crate::tok::g(D::Paren, vec![]),
                _ => p(','),
            });
            let a = vec![p('#'), crate::tok::g(D::Bracket, inner)];
            ("unsupported: tokens after attribute arguments", with_attr(g, a))
        }
        5 => {
            // attribute that is neither path, group nor value
            let inner = match g.t.below(6) {
                0 => vec![],
                1 => vec![lit("1")],
                2 => vec![id("a"), id("b")],
                3 => vec![id("a"), p('!'), crate::tok::g(D::Paren, vec![])],
                4 => vec![id("a"), pj(':'), p(':')],
                _ => vec![p('='), lit("1")],
            };
            let a = vec![p('#'), crate::tok::g(D::Bracket, inner)];
            ("unsupported: odd attribute", with_attr(g, a))
        }
        6 => {
            let mut v = match g.t.below(8) {
                0 => vec![id("struct"), id("S"), crate::tok::g(D::Brace, vec![])],
                1 => {
                    let f = g.nfield().tokens();
                    vec![id("struct"), id("S"), crate::tok::g(D::Brace, f)]
                }
                _ => g.item(1).tokens(),
            };
            if v.last().map_or(false, |t| t.is_p(';')) && g.t.chance(60) {
                v.pop();
                v.push(crate::tok::g(D::Brace, vec![]));
            }
            v.push(p(';'));
            ("unsupported: semicolon after braces", v)
        }
        7 => {
            let m = vec![g.plain_name(), p('!'), crate::tok::g(*g.t.pick(&[D::Paren, D::Brace, D::Bracket]), g.soup(1))];
            let mut items = vec![m];
            let enums = g.t.chance(50);
            if g.t.chance(50) {
                items.insert(0, if enums { g.variant(false).tokens() } else { g.nfield().tokens() });
            }
            let l = p_list(g, items);
            (
                "unsupported: macro member",
                vec![id(if enums { "enum" } else { "struct" }), id("S"), crate::tok::g(D::Brace, l)],
            )
        }
        8 => {
            let last = vec![p('.'), p('.'), p('.')];
            let mut items = vec![g.fparam(false).tokens()];
            items.push(if g.t.chance(50) {
                last
            } else {
                let mut v = vec![id("args"), p(':')];
                v.extend(last);
                v
            });
            let l = p_list(g, items);
            let f = vec![id("fn"), id("f"), crate::tok::g(D::Paren, l), p(';')];
            ("unsupported: variadic", wrap_member(g, f))
        }
        9 => {
            let mut v = vec![id("type"), id("A")];
            v.push(p('<'));
            v.extend(g.gparam().tokens());
            v.push(p('>'));
            v.push(p('='));
            v.extend(g.ty(1));
            v.push(p(';'));
            let v = if g.t.chance(40) { wrap_member(g, v) } else { v };
            ("unsupported: alias generics", v)
        }
        10 => {
            let mut v = vec![g.plain_name(), p('!'), crate::tok::g(D::Bracket, g.soup(1))];
            if g.t.chance(60) {
                v.push(p(';'));
            }
            ("unsupported: bracket macro", v)
        }
        11 => {
            let mut v = vec![g.plain_name(), pj(':'), p(':'), g.plain_name(), p('!')];
            v.push(crate::tok::g(*g.t.pick(&[D::Paren, D::Brace]), g.soup(1)));
            if g.t.chance(60) {
                v.push(p(';'));
            }
            ("unsupported: macro path", v)
        }
        12 => {
            let v = match g.t.below(3) {
                0 => vec![id("auto"), id("trait"), id("A"), crate::tok::g(D::Brace, vec![])],
                1 => vec![id("unsafe"), id("auto"), id("trait"), id("A"), crate::tok::g(D::Brace, vec![])],
                _ => vec![id("trait"), id("A"), p('='), id("B"), p(';')],
            };
            ("unsupported: trait form", v)
        }
        13 => {
            let mut v = vec![id("default")];
            v.extend(match g.t.below(3) {
                0 => vec![id("impl"), id("A"), id("for"), id("B"), crate::tok::g(D::Brace, vec![])],
                1 => vec![id("unsafe"), id("impl"), id("A"), crate::tok::g(D::Brace, vec![])],
                _ => g.constant(false, 0).tokens(),
            });
            ("unsupported: default item", v)
        }
        14 => {
            let mut ps = vec![p('#'), crate::tok::g(D::Bracket, vec![id("a")])];
            ps.extend(g.gparam().tokens());
            let v = vec![vec![id("struct"), id("S"), p('<')], ps, vec![p('>'), p(';')]].concat();
            ("unsupported: attribute on generic parameter", v)
        }
        15 => {
            let mut v = vec![id("struct"), id("S"), p('<'), id("T"), p('=')];
            v.extend(g.ty(1));
            v.extend([p('>'), p(';')]);
            ("unsupported: default without bound", v)
        }
        16 => {
            let mut inner = if g.t.chance(40) { g.attrs().tokens() } else { vec![] };
            inner.extend([p('#'), p('!'), crate::tok::g(D::Bracket, vec![id("a")])]);
            if g.t.chance(50) {
                return ("unsupported: inner attribute", with_attr(g, inner));
            }
            inner.extend(g.nfield().tokens());
            (
                "unsupported: inner attribute in fields",
                vec![id("struct"), id("S"), crate::tok::g(D::Brace, inner)],
            )
        }
        17 => {
            // qualifiers in an order that does not exist
            let mut q = vec![id("unsafe"), id("const"), id("async"), id("extern"), id("pub"), id("default")];
            let n = 2 + g.t.below(3);
            let mut v = Vec::new();
            for _ in 0..n {
                let k = g.t.below(q.len() as u32) as usize;
                v.push(q.remove(k));
            }
            v.extend([id("fn"), id("f"), crate::tok::g(D::Paren, vec![]), crate::tok::g(D::Brace, vec![])]);
            ("unsupported: qualifier order", v)
        }
        18 => {
            // items where only members may be
            let m = match g.t.below(4) {
                0 => g.strukt().tokens(),
                1 => g.use_().tokens(),
                2 => vec![id("impl"), id("A"), crate::tok::g(D::Brace, vec![])],
                _ => g.module(1).tokens(),
            };
            ("unsupported: item as member", wrap_member(g, m))
        }
        19 => {
            let v = match g.t.below(5) {
                0 => vec![id("unsafe"), id("static"), id("A"), p(':'), id("u8"), p(';')],
                1 => vec![id("safe"), id("fn"), id("f"), crate::tok::g(D::Paren, vec![]), p(';')],
                2 => vec![id("unsafe"), id("struct"), id("S"), p(';')],
                3 => vec![id("const"), id("struct"), id("S"), p(';')],
                _ => vec![id("unsafe"), id("use"), id("a"), p(';')],
            };
            ("unsupported: qualifier on item", v)
        }
        20 => {
            let v = match g.t.below(6) {
                0 => vec![id("struct"), id("S"), p(':'), id("A"), p(';')],
                1 => vec![id("struct"), id("S"), p('='), id("A"), p(';')],
                2 => vec![id("enum"), id("E"), p(';')],
                3 => vec![id("union"), id("U"), crate::tok::g(D::Paren, vec![]), p(';')],
                4 => vec![id("fn"), id("f"), crate::tok::g(D::Paren, vec![]), p('='), id("x"), p(';')],
                _ => vec![
                    id("struct"), id("S"), crate::tok::g(D::Paren, vec![]), crate::tok::g(D::Brace, vec![]), p(';'),
                ],
            };
            ("unsupported: malformed item", v)
        }
        21..=25 => {
            // words and marks of other editions and features at the start of some part
            let mut v = g.item(2).tokens();
            let n = starts(&v);
            let at = g.t.below(n);
            let mut w = Vec::new();
            for _ in 0..1 + g.t.below(2) {
                w.push(match g.t.below(16) {
                    0 => id("unsafe"),
                    1 => id("mut"),
                    2 => id("const"),
                    3 => id("default"),
                    4 => id("static"),
                    5 => id("async"),
                    6 => id("safe"),
                    7 => id("auto"),
                    8 => id("ref"),
                    9 => id("move"),
                    10 => id("dyn"),
                    11 => p('!'),
                    12 => p('?'),
                    13 => p('~'),
                    14 => id("extern"),
                    _ => id("pub"),
                });
            }
            if g.t.chance(15) {
                w.push(crate::tok::g(D::Paren, vec![id("super")]));
            }
            insert_start(&mut v, &mut (at as i64), &w);
            ("unsupported: word in front of a part", v)
        }
        _ => {
            // where on both sides of the fields
            let mut v = vec![id("struct"), id("S"), p('<'), id("T"), p('>'), id("where")];
            v.extend(g.predicate().tokens());
            v.push(crate::tok::g(D::Paren, vec![id("T")]));
            if g.t.chance(50) {
                v.push(id("where"));
                v.extend(g.predicate().tokens());
            }
            v.push(p(';'));
            ("unsupported: where before fields", v)
        }
    };
    if g.t.chance(20) {
        let mut w = g.attrs().tokens();
        w.extend(v);
        v = w;
    }
    if g.t.chance(25) {
        for _ in 0..1 + g.t.below(2) {
            v = wrap_mod(g, v);
        }
    }
    (name, v)
}

fn is_start(l: &[Tk], i: usize) -> bool {
    i == 0
        || l[i - 1].is_p(',')
        || l[i - 1].is_p(';')
        || l[i - 1].is_p(':')
        || l[i - 1].is_p('<')
        || l[i - 1].is_p('=')
        || l[i - 1].is_id("pub")
        || matches!(l[i - 1].k, K::G(D::Bracket | D::Brace, _))
}

/// The places where a part of a declaration starts.
fn starts(l: &[Tk]) -> u32 {
    let mut n = 0;
    for i in 0..l.len() {
        n += is_start(l, i) as u32;
        if let K::G(_, inner) = &l[i].k {
            n += starts(inner);
        }
    }
    n
}

fn insert_start(l: &mut Vec<Tk>, at: &mut i64, w: &[Tk]) {
    for i in 0..l.len() {
        if is_start(l, i) {
            if *at == 0 {
                l.splice(i..i, w.iter().cloned());
                *at = -1;
                return;
            }
            *at -= 1;
        }
        if let K::G(_, inner) = &mut l[i].k {
            insert_start(inner, at, w);
            if *at < 0 {
                return;
            }
        }
    }
}

/// An item with the attribute `a` in some place.
fn with_attr(g: &mut Gen, a: Vec<Tk>) -> Vec<Tk> {
    let grp = crate::tok::g;
    match g.t.below(8) {
        0 => [a, g.item(0).tokens()].concat(),
        1 => vec![id("struct"), id("S"), grp(D::Brace, [a, g.nfield().tokens()].concat())],
        2 => vec![id("struct"), id("S"), grp(D::Paren, [a, g.tfield().tokens()].concat()), p(';')],
        3 => vec![id("enum"), id("E"), grp(D::Brace, [a, g.variant(false).tokens()].concat())],
        4 => vec![id("fn"), id("f"), grp(D::Paren, [a, g.fparam(true).tokens()].concat()), grp(D::Brace, vec![])],
        5 => vec![id("impl"), id("S"), grp(D::Brace, [a, g.member(false).tokens()].concat())],
        6 => {
            let mut b = a.clone();
            b.insert(1, p('!'));
            vec![id("mod"), id("m"), grp(D::Brace, [b, g.item(0).tokens()].concat())]
        }
        _ => vec![id("trait"), id("S"), grp(D::Brace, [a, g.member(true).tokens()].concat())],
    }
}

