//! Types interpreted as paths (C13).

use crate::core::{Core, Session};
use crate::damage::damage;
use crate::gen::{colon2, Gen};
use crate::model::{diff, N};
use crate::observe;
use crate::read::{emit, show_diff};
use crate::sched::Out;
use crate::tok::*;
use quote::ToTokens;
use venial::{Path, TypeExpr};

/// The model of a path type, in source order.
fn path_model(g: &mut Gen, depth: u32) -> N {
    let n = match g.k.long > 0 && g.t.chance(12) {
        true => match g.t.below(8) {
            0 => 60 + g.t.below(300),
            _ => 6 + g.t.below(50),
        },
        false => 1 + g.t.small(4),
    };
    let lead = g.t.chance(20);
    let with_args = if n > 20 && g.t.chance(50) { 1 } else { 45 };
    let mut segs = Vec::new();
    for i in 0..n {
        let sep = if i > 0 || lead { N::Ts(colon2()) } else { N::Nil };
        let name = match g.t.below(6) {
            0 if i == 0 || g.t.chance(10) => id(*g.t.pick(&["crate", "self", "super", "Self"][..])),
            _ => g.name(),
        };
        let args = if g.t.chance(with_args) {
            let turbofish = if g.t.chance(30) { N::Ts(colon2()) } else { N::Nil };
            let k = match g.k.long > 0 && n < 20 && g.t.chance(8) {
                true => match g.t.below(8) {
                    0 => 50 + g.t.below(150),
                    _ => 5 + g.t.below(40),
                },
                false => g.t.small(4),
            };
            let elems: Vec<N> = (0..k).map(|_| arg(g, depth)).collect();
            let trailing = k > 0 && g.t.chance(30);
            let elems: Vec<(N, Option<Tk>)> = elems
                .into_iter()
                .enumerate()
                .map(|(i, e)| (e, ((i as u32) + 1 < k || trailing).then(|| p(','))))
                .collect();
            N::Rec(
                "GArgs",
                vec![
                    ("turbofish", turbofish),
                    ("lt", N::T(p('<'))),
                    ("args", N::Pn(elems)),
                    ("gt", N::T(p('>'))),
                ],
            )
        } else {
            N::Nil
        };
        segs.push(N::Rec("Seg", vec![("sep", sep), ("name", N::T(name)), ("args", args)]));
    }
    N::L(segs)
}

fn arg(g: &mut Gen, depth: u32) -> N {
    if g.t.chance(3) {
        let k = 3 + g.t.below(30);
        return N::Rec("Arg", vec![("ty", N::Ts(g.nested(k)))]);
    }
    match g.t.below(8) {
        0 | 1 => {
            let l = g.lifetime();
            N::Rec(
                "Lifetime",
                vec![("apos", N::T(l[0].clone())), ("name", N::T(l[1].clone()))],
            )
        }
        2 | 3 => {
            let name = N::T(g.name());
            let ty = match g.t.below(8) {
                0 => vec![g.literal()],
                1 => vec![crate::tok::g(D::Brace, g.soup(1))],
                2 => vec![p('-'), lit("1")],
                _ => g.ty(depth),
            };
            N::Rec("Binding", vec![("name", name), ("eq", N::T(p('='))), ("ty", N::Ts(ty))])
        }
        4 => N::Rec("Arg", vec![("ty", N::Ts(vec![g.literal()]))]),
        5 => N::Rec("Arg", vec![("ty", N::Ts(vec![crate::tok::g(D::Brace, g.soup(1))]))]),
        6 => N::Rec("Arg", vec![("ty", N::Ts(vec![p('-'), lit("1")]))]),
        _ => N::Rec("Arg", vec![("ty", N::Ts(g.ty(depth)))]),
    }
}

/// A well-formed type that is not a path.
fn other_type(g: &mut Gen) -> Vec<Tk> {
    let inner = g.ty(2);
    let path = g.path_ty(2);
    let grp = crate::tok::g;
    let hrtb = vec![id("for"), p('<'), pj('\''), id("a"), p('>')];
    let lead = if path.first().map_or(false, |t| t.is_p(':')) { path.clone() } else { [colon2(), path.clone()].concat() };
    match g.t.below(40) {
        28 | 29 => [hrtb, lead].concat(),
        30 => [hrtb, path].concat(),
        31 => [path, vec![grp(D::Paren, inner)]].concat(),
        32 => [path, vec![grp(D::Paren, inner), pj('-'), p('>'), id("u8")]].concat(),
        33 => [vec![id("impl")], hrtb, lead].concat(),
        34 => [vec![id("impl"), p('?')], lead].concat(),
        35 => [vec![p('*'), id("mut")], lead].concat(),
        36 => [vec![pj('\''), id("a"), p('+')], path].concat(),
        37 => [vec![grp(D::Paren, path), p('+'), id("Send")]].concat(),
        38 => [lead, vec![p('+'), pj('\''), id("a")]].concat(),
        15 => vec![id("_")],
        16 => [vec![id("unsafe"), id("extern"), lit("\"C\""), id("fn"), grp(D::Paren, inner)]].concat(),
        17 => [vec![id("extern"), id("fn"), grp(D::Paren, vec![]), pj('-'), p('>')], inner].concat(),
        18 => [path, vec![p('+'), id("Send")]].concat(),
        19 => [vec![id("dyn"), id("for"), p('<'), pj('\''), id("a"), p('>')], path].concat(),
        20 => [colon2(), vec![id("m"), p('!'), grp(D::Bracket, g.soup(1))]].concat(),
        21 => [path, vec![p('!'), grp(D::Brace, g.soup(1))]].concat(),
        22 => [vec![p('&'), pj('\''), id("a")], path].concat(),
        23 => [vec![id("impl"), g.name(), p('<')], inner, vec![p('>')]].concat(),
        24 => [vec![id("dyn")], colon2(), path].concat(),
        25 => [vec![p('<')], inner, vec![p('>')], colon2(), vec![id("X")]].concat(),
        26 => [vec![pj('&'), p('&')], path].concat(),
        27 => [vec![p('?')], path].concat(),
        0 => [vec![p('&')], inner].concat(),
        1 => [vec![p('&'), pj('\''), id("a"), id("mut")], path].concat(),
        2 => vec![grp(D::Paren, path)],
        3 => vec![grp(D::Paren, [inner, vec![p(',')]].concat())],
        4 => vec![grp(D::Paren, vec![])],
        5 => vec![grp(D::Bracket, path)],
        6 => vec![grp(D::Bracket, [inner, vec![p(';'), lit("3")]].concat())],
        7 => [vec![id("dyn")], path].concat(),
        8 => [vec![id("impl")], path, vec![p('+'), id("Send")]].concat(),
        9 => [vec![p('*'), id("const")], path].concat(),
        10 => vec![p('!')],
        11 => vec![id("fn"), grp(D::Paren, inner)],
        12 => [vec![p('<')], inner, vec![id("as")], path, vec![p('>')], colon2(), vec![id("X")]].concat(),
        13 => [vec![id("fn"), grp(D::Paren, vec![]), pj('-'), p('>')], path].concat(),
        14 => vec![id("m"), p('!'), grp(D::Paren, vec![])],
        _ => [vec![id("for"), p('<'), pj('\''), id("a"), p('>'), id("fn"), grp(D::Paren, inner)]].concat(),
    }
}

pub struct Paths {
    steps: u32,
    live: Vec<(TypeExpr, Vec<Tk>, Option<N>)>,
}

impl Paths {
    pub fn new(c: &mut Core) -> Paths {
        Paths {
            steps: 3 + c.work.below(10),
            live: vec![],
        }
    }

    fn as_path(&self, c: &mut Core, t: &TypeExpr, n: u64) -> Out<Option<Path>> {
        let k = c.draw_crash(n);
        if k > 0 {
            c.call_at("as_path", n, k, || t.as_path());
        }
        c.call("as_path", n, || t.as_path())
    }

    fn check(&self, c: &mut Core, t: &TypeExpr, toks: &[Tk], model: &Option<N>) {
        const P: &[&str] = &["C13"];
        let n = count(toks);
        let r = self.as_path(c, t, n);
        let src = || show(toks);
        match (&r, model) {
            (Out::Ok(Some(p)), Some(m)) => {
                let got = observe::path(p);
                c.say(|| format!("path {}", show_spans(&got.tokens())));
                if let Some(d) = diff(m, &got, EXACT) {
                    c.fail(P, "path differs", format!("{d}\n  in: {}", src()));
                }
                match emit(c, "emit path", p, n) {
                    Out::Ok(got) => {
                        let exp = m.tokens();
                        if !same(&exp, &got, EXACT) {
                            c.fail(P, "path emission", show_diff(&exp, &got));
                        }
                    }
                    o => c.fail(P, "path emission", format!("{}\n  in: {}", o.what(), src())),
                }
                if c.cfg.prop == "C15" {
                    let w = crate::show::words(&m.tokens());
                    crate::show::check(c, "path", p, n, &w);
                    crate::show::check(c, "type", t, n, &w);
                }
                c.stats.add("paths interpreted", 1);
            }
            (Out::Ok(None), None) => {
                c.stats.add("other types refused", 1);
                c.say(|| "no path".into());
            }
            (Out::Ok(None), Some(_)) => c.fail(P, "path not recognised", src()),
            (Out::Ok(Some(p)), None) => {
                let t = format!("{} taken for {}", src(), show(&of_stream(p.to_token_stream())));
                c.fail(P, "not a path but taken for one", t)
            }
            (o, _) => c.fail(P, "as_path failed", format!("{}\n  in: {}", o.what(), src())),
        }
        let now = of_trees(&t.tokens);
        if !same(&now, toks, EXACT) {
            c.fail(P, "type changed", show_diff(toks, &now));
        }
    }

    /// The type inside more than one invisible group: whether that is a path is left open.
    fn wrapped_often(&self, c: &mut Core, toks: &[Tk]) {
        const P: &[&str] = &["C13"];
        let mut v = toks.to_vec();
        let levels = match c.fault.below(3) {
            0 => 1 + c.fault.below(3),
            _ => 1 + c.fault.below(40),
        };
        let mut all = vec![v.clone()];
        for _ in 0..levels {
            let (lo, hi) = (v.first().map_or(0, |t| t.sp.0), v.last().map_or(0, |t| t.sp.1));
            let mut o = g(D::Hidden, v);
            o.sp = (lo, hi);
            v = vec![o];
            all.push(v.clone());
        }
        c.stats.add("types inside several invisible groups", 1);
        let t = TypeExpr {
            tokens: to_trees(&v),
        };
        let r = self.as_path(c, &t, count(&v));
        if let Out::Ok(Some(p)) = &r {
            let got = of_stream(p.to_token_stream());
            if let [Tk { k: K::G(D::Hidden, inner), .. }] = toks {
                all.push(inner.clone());
            }
            if !all.iter().any(|x| same(x, &got, EXACT)) {
                c.fail(P, "wrapped type: path with other tokens", show_diff(toks, &got));
            }
        }
        c.say(|| match &r {
            Out::Ok(p) => format!("in {levels} invisible groups: path {}", p.is_some()),
            o => o.what(),
        });
        let now = of_trees(&t.tokens);
        if !same(&now, &v, EXACT) {
            c.fail(P, "type changed", show_diff(&v, &now));
        }
    }

    fn damaged(&self, c: &mut Core, toks: &[Tk]) {
        const P: &[&str] = &["C13"];
        let mut v = toks.to_vec();
        for _ in 0..1 + c.fault.small(2) {
            let w = damage(c, &mut v);
            c.stats.add(w, 1);
        }
        let t = TypeExpr {
            tokens: to_trees(&v),
        };
        let n = count(&v);
        let r = self.as_path(c, &t, n);
        if let Out::Ok(Some(p)) = &r {
            let got = of_stream(p.to_token_stream());
            let inner = match v.as_slice() {
                [Tk {
                    k: K::G(D::Hidden, inner),
                    ..
                }] => inner.clone(),
                _ => v.clone(),
            };
            if !same(&inner, &got, EXACT) && !same(&v, &got, EXACT) {
                let d = show_diff(&inner, &got);
                c.fail(P, "damaged type: path with other tokens", d);
            }
            c.stats.add("damaged types that gave a path", 1);
        }
        c.say(|| match &r {
            Out::Ok(p) => format!("damaged: path {}", p.is_some()),
            o => o.what(),
        });
        let now = of_trees(&t.tokens);
        if !same(&now, &v, EXACT) {
            c.fail(P, "type changed", show_diff(&v, &now));
        }
    }
}

impl Session for Paths {
    fn step(&mut self, c: &mut Core) -> bool {
        if self.steps == 0 {
            return false;
        }
        self.steps -= 1;
        if !self.live.is_empty() && c.work.chance(25) {
            let k = c.work.below(self.live.len() as u32) as usize;
            let (t, toks, m) = &self.live[k];
            let t = if c.work.chance(50) { t.clone() } else { t.clone() };
            self.check(c, &t, toks, m);
            return true;
        }
        let knobs = c.knobs.clone();
        let is_path = c.work.chance(65);
        let mut wrapped = c.work.chance(20);
        let (mut toks, mut model) = {
            let mut g = Gen::new(&mut c.work, &knobs);
            if is_path {
                let m = path_model(&mut g, 2);
                (m.tokens(), Some(m))
            } else {
                (other_type(&mut g), None)
            }
        };
        if toks.is_empty() {
            wrapped = false;
        }
        if wrapped {
            toks = vec![g(D::Hidden, toks)];
        }
        c.deliver(&mut toks);
        if let Some(m) = &mut model {
            let mut h = 0;
            m.assign(match (&toks[0].k, wrapped) {
                (K::G(_, inner), true) => inner,
                _ => &toks,
            });
            m.shape(&mut h);
            c.stats.shapes.insert(h);
        }
        c.stats.add("types made", 1);
        c.say(|| format!("type {}", show(&toks)));
        if c.fault.chance(c.cfg.odd) {
            self.damaged(c, &toks);
        }
        if c.fault.chance(4) {
            self.wrapped_often(c, &toks);
        }
        // read from a declaration half of the time
        let t = if c.work.chance(50) {
            let mut v = vec![id("struct"), id("S"), g(D::Brace, [vec![id("f"), pa(':')], toks.clone()].concat())];
            v[0].sp = CALL_SITE;
            let s = to_stream(&v);
            match c.call("parse", count(&v), || venial::parse_item(s)) {
                Out::Ok(Ok(venial::Item::Struct(s))) => {
                    let t = s.field_types().into_iter().next().cloned();
                    match t {
                        Some(t) if same(&of_trees(&t.tokens), &toks, EXACT) => t,
                        _ => return true,
                    }
                }
                _ => return true,
            }
        } else {
            TypeExpr {
                tokens: to_trees(&toks),
            }
        };
        self.check(c, &t, &toks, &model);
        if self.live.len() < 5 {
            self.live.push((t, toks, model));
        }
        true
    }
}
