//! Token streams with known content.

use crate::core::Core;
use crate::gen::Gen;
use crate::model::N;
use crate::tok::*;

pub enum Chunk {
    Item {
        n: N,
        /// Location of the first discriminant of several tokens.
        bad: Option<Sp>,
    },
    /// The caller's own tokens.
    Foreign,
}

pub struct Part {
    pub chunk: Chunk,
    pub from: usize,
    pub to: usize,
}

pub struct Doc {
    pub toks: Vec<Tk>,
    pub parts: Vec<Part>,
}

#[derive(Clone, Copy, Default)]
pub struct Opts {
    pub max_items: u32,
    pub foreign: u32,
    /// Percent of items that are enums with a discriminant of several tokens.
    pub bad: u32,
    /// Percent of items that are enums.
    pub enums: u32,
    /// Percent of items that are very long.
    pub long: u32,
    /// Percent of items that are deeply nested.
    pub deep: u32,
}

pub fn first_bad(n: &N) -> Option<Sp> {
    for (v, _) in n.get("body").inner().pn() {
        let val = v.get("value");
        if val.has("bad") {
            return Some(val.get("bad").ts()[0].sp);
        }
    }
    None
}

pub fn long_item(g: &mut Gen) -> N {
    let n = 300 + g.t.below(700);
    let names = ["a", "b", "c"];
    let elem = |g: &mut Gen, i: u32| -> (N, Option<Tk>) {
        let name = N::T(id(names[i as usize % 3]));
        let ty = match i % 3 {
            0 => vec![id("u8")],
            1 => vec![p('&'), id("T")],
            _ => vec![id("V"), p('<'), id("T"), p('>')],
        };
        (
            N::Rec(
                "NField",
                vec![
                    ("attrs", g.attrs()),
                    ("vis", g.vis()),
                    ("name", name),
                    ("colon", N::T(p(':'))),
                    ("ty", N::Ts(ty)),
                ],
            ),
            Some(p(',')),
        )
    };
    match g.t.below(12) {
        9 | 10 => {
            // many members of an impl, a trait or an extern block
            let kind = g.t.below(3);
            let mut s = match kind {
                0 => g.impl_(),
                1 => g.trait_(),
                _ => g.extern_block(),
            };
            let ms = (0..n / 4)
                .map(|_| {
                    g.budget = 10;
                    g.member(kind == 1)
                })
                .collect();
            *s.get_mut("body") = N::G(
                D::Brace,
                CALL_SITE,
                Box::new(N::Rec("Body", vec![("inner", N::L(vec![])), ("members", N::L(ms))])),
            );
            s
        }
        6 => {
            // a long value
            let mut s = g.constant(true, 0);
            *s.get_mut("init") = N::Ts(sum(g, n));
            s
        }
        7 => {
            let mut s = g.alias(false);
            *s.get_mut("init") = N::Ts(long_path(g, n));
            s
        }
        8 => {
            // one long bound
            let mut s = g.data_item();
            let mut ts = vec![id("T"), p(':')];
            for i in 0..n {
                if i > 0 {
                    ts.push(p('+'));
                }
                ts.push(g.name());
            }
            let bound = N::Rec("Bound", vec![("colon", N::T(ts[1].clone())), ("tokens", N::Ts(ts[2..].to_vec()))]);
            let pred = N::Rec("Pred", vec![("left", N::Ts(ts[..1].to_vec())), ("bound", bound)]);
            *s.get_mut("where") = N::Rec("Where", vec![("kw", N::T(id("where"))), ("items", N::Pn(vec![(pred, None)]))]);
            s
        }
        0 => {
            let mut s = g.strukt();
            let fields: Vec<_> = (0..n).map(|i| elem(g, i)).collect();
            let f = N::Rec("Named", vec![("group", N::G(D::Brace, CALL_SITE, Box::new(N::Pn(fields))))]);
            if let N::Rec(_, v) = &mut s {
                let w = v.iter().position(|(k, _)| *k == "where").unwrap();
                let w = v.remove(w);
                v.retain(|(k, _)| *k != "fields" && *k != "semi");
                v.extend([w, ("fields", f), ("semi", N::Nil)]);
            }
            s
        }
        1 => {
            let mut e = g.enumm(false);
            let vs = (0..n).map(|_| (g.variant(false), Some(p(',')))).collect();
            *e.get_mut("body").inner_mut() = N::Pn(vs);
            e
        }
        2 => {
            // long generic parameter list and where clause
            let mut s = g.data_item();
            let ps = (0..n).map(|_| (g.gparam(), Some(p(',')))).collect();
            *s.get_mut("generics") = N::Rec(
                "GParams",
                vec![("lt", N::T(p('<'))), ("params", N::Pn(ps)), ("gt", N::T(p('>')))],
            );
            let ws = (0..n).map(|_| (g.predicate(), Some(p(',')))).collect();
            *s.get_mut("where") = N::Rec("Where", vec![("kw", N::T(id("where"))), ("items", N::Pn(ws))]);
            s
        }
        3 => {
            let mut f = g.function(0, false);
            let ps = (0..n).map(|_| (g.fparam(false), Some(p(',')))).collect();
            *f.get_mut("params").inner_mut() = N::Pn(ps);
            f
        }
        4 => {
            // many attributes
            let mut s = g.item(0);
            *s.get_mut("attrs") = N::L((0..n).map(|_| g.attr(false)).collect());
            s
        }
        _ => {
            // many members
            let mut s = g.module(1);
            *s.get_mut("semi") = N::Nil;
            let ms = (0..n / 4)
                .map(|_| {
                    g.budget = 10;
                    g.item(0)
                })
                .collect();
            *s.get_mut("body") = N::G(
                D::Brace,
                CALL_SITE,
                Box::new(N::Rec("Body", vec![("inner", N::L(vec![])), ("members", N::L(ms))])),
            );
            s
        }
    }
}

/// A long expression.
fn sum(g: &mut Gen, n: u32) -> Vec<Tk> {
    let mut v = vec![g.literal()];
    for _ in 0..n {
        v.push(p(*g.t.pick(&['+', '-', '*', '/'])));
        v.push(g.literal());
    }
    v
}

fn long_path(g: &mut Gen, n: u32) -> Vec<Tk> {
    let mut v = vec![g.name()];
    for _ in 0..n {
        v.extend(crate::gen::colon2());
        v.push(g.name());
    }
    v
}

/// A type inside types inside types.
pub fn deep_type(g: &mut Gen, depth: u32) -> Vec<Tk> {
    let mut t = vec![id("T")];
    for _ in 0..depth {
        t = match g.t.below(4) {
            0 => {
                let mut v = vec![id("V"), p('<')];
                v.extend(t);
                v.push(p('>'));
                v
            }
            1 => vec![g_(D::Paren, t)],
            2 => {
                let mut v = vec![p('&')];
                v.extend(t);
                v
            }
            _ => vec![g_(D::Bracket, t)],
        };
    }
    t
}
fn g_(d: D, t: Vec<Tk>) -> Tk {
    crate::tok::g(d, t)
}

pub fn deep_item(g: &mut Gen) -> N {
    let d = match g.t.below(8) {
        0 => 40 + g.t.below(240),
        _ => 5 + g.t.below(35),
    };
    if g.t.chance(50) {
        g.tower(d)
    } else {
        let ty = deep_type(g, (4 * d).min(400));
        let mut a = g.alias(false);
        *a.get_mut("init") = N::Ts(ty);
        a
    }
}

pub fn make(c: &mut Core, o: Opts) -> Doc {
    let n = 1 + c.work.below(o.max_items.max(1));
    let knobs = c.knobs.clone();
    let mut parts: Vec<(Option<(N, bool)>, Vec<Tk>)> = Vec::new();
    {
        let mut g = Gen::new(&mut c.work, &knobs);
        for _ in 0..n {
            g.budget = knobs.size;
            if g.t.chance(o.foreign) {
                parts.push((None, g.foreign()));
            }
            let (it, bad) = if g.t.chance(o.bad) {
                (g.enumm(true), true)
            } else if g.t.chance(o.enums) {
                (g.enumm(false), false)
            } else if g.t.chance(o.long) {
                (long_item(&mut g), false)
            } else if g.t.chance(o.deep) {
                (deep_item(&mut g), false)
            } else {
                (g.item(3), false)
            };
            let ts = it.tokens();
            parts.push((Some((it, bad)), ts));
        }
        if g.t.chance(o.foreign) {
            parts.push((None, g.foreign()));
        }
    }
    let mut toks: Vec<Tk> = parts.iter().flat_map(|(_, t)| t.iter().cloned()).collect();
    // no token at the seam of two parts may glue to the next one in a way that means something
    c.deliver(&mut toks);
    let mut at = 0;
    let parts = parts
        .into_iter()
        .map(|(it, ts)| {
            let (from, to) = (at, at + ts.len());
            at = to;
            let chunk = match it {
                None => Chunk::Foreign,
                Some((mut n, bad)) => {
                    n.assign(&toks[from..to]);
                    let mut h = 0;
                    n.shape(&mut h);
                    c.stats.shapes.insert(h);
                    let bad = if bad { first_bad(&n) } else { None };
                    Chunk::Item { n, bad }
                }
            };
            Part { chunk, from, to }
        })
        .collect();
    c.stats.add("documents", 1);
    c.stats.add("tokens delivered", count(&toks));
    if c.keep {
        let s = show(&toks);
        c.say(|| format!("document: {s}"));
    }
    Doc { toks, parts }
}

/// One item, delivered.
pub fn one(c: &mut Core, f: impl FnOnce(&mut Gen) -> N) -> N {
    let knobs = c.knobs.clone();
    let mut n = f(&mut Gen::new(&mut c.work, &knobs));
    let mut ts = n.tokens();
    c.deliver(&mut ts);
    n.assign(&ts);
    n
}
