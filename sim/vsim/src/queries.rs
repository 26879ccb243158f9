//! What queries (C09) and locations (C11) must answer, from the model.

use crate::core::Core;
use crate::model::N;
use crate::observe;
use crate::sched::Out;
use crate::tok::*;
use proc_macro2::{sim, Span, TokenStream};
use quote::ToTokens;
use venial::*;

const P: &[&str] = &["C09"];

fn ask<R>(c: &mut Core, what: &str, n: u64, f: impl Fn() -> R) -> Option<R> {
    let k = c.draw_crash(n.min(4));
    if k > 0 {
        c.call_at(what, n, k, &f);
    }
    match c.call(what, n, &f) {
        Out::Ok(r) => Some(r),
        o => {
            let t = format!("{what}: {}", o.what());
            c.fail(P, "query failed", t);
            None
        }
    }
}

fn want(c: &mut Core, what: &str, ok: bool, text: impl FnOnce() -> String) {
    if !ok {
        let t = format!("{what}: {}", text());
        c.fail(P, what, t);
    }
}

/// Not about spacing or places: those of made-up tokens are not specified.
fn like(exp: &[Tk], got: &[Tk]) -> bool {
    same(exp, got, CONTENT)
}

fn inline_args(params: &N) -> Vec<Vec<Tk>> {
    params
        .pn()
        .iter()
        .map(|(p, _)| {
            let mut v = Vec::new();
            if let N::T(t) = p.get("prefix") {
                if t.is_p('\'') {
                    v.push(t.clone());
                }
            }
            p.get("name").flatten(&mut v);
            v
        })
        .collect()
}

/// Splits `<a, b, c>` at its commas.
fn split_args(ts: &[Tk]) -> Option<Vec<Vec<Tk>>> {
    let n = ts.len();
    if n < 2 || !ts[0].is_p('<') || !ts[n - 1].is_p('>') {
        return None;
    }
    let mut v: Vec<Vec<Tk>> = ts[1..n - 1].split(|t| t.is_p(',')).map(|s| s.to_vec()).collect();
    if v.last().map_or(false, |x| x.is_empty()) {
        v.pop();
    }
    Some(v)
}

fn same_args(exp: &[Vec<Tk>], got: &[Vec<Tk>]) -> bool {
    exp.len() == got.len()
        && exp.iter().zip(got).all(|(a, b)| {
            like(a, b)
                && a.iter().zip(b).all(|(x, y)| x.sp == y.sp)
                // `' a` is not a lifetime
                && (b.len() < 2 || matches!(b[0].k, K::P('\'', true)))
        })
}

fn generics(c: &mut Core, l: &GenericParamList, m: &N) {
    let n = count(&m.tokens());
    let exp = inline_args(m.get("params"));
    if let Some(s) = ask(c, "as_inline_args", n, || l.as_inline_args().to_token_stream()) {
        let got = of_stream(s);
        let ok = split_args(&got).map_or(false, |a| same_args(&exp, &a));
        want(c, "as_inline_args", ok, || {
            format!("{} for {}", show(&got), show(&m.tokens()))
        });
    }
    if let Some(a) = ask(c, "to_owned_args", n, || l.as_inline_args().to_owned_args()) {
        let got = observe::gargs(&a);
        let args: Vec<Vec<Tk>> = got.get("args").pn().iter().map(|(x, _)| x.tokens()).collect();
        want(c, "to_owned_args", same_args(&exp, &args), || {
            format!("{} for {}", show(&got.tokens()), show(&m.tokens()))
        });
        // each argument is of the right kind
        let kinds = m.get("params").pn().iter().zip(got.get("args").pn()).all(|((p, _), (x, _))| {
            let lt = matches!(p.get("prefix"), N::T(t) if t.is_p('\''));
            lt == (x.kind() == "Lifetime") && (lt || x.kind() == "Arg")
        });
        want(c, "to_owned_args", kinds, || "argument kinds".into());
        let ts = of_stream(a.to_token_stream());
        let ok = split_args(&ts).map_or(false, |a| same_args(&exp, &a));
        want(c, "to_owned_args", ok, || format!("emits {}", show(&ts)));
    }
    for ((p, _), (q, _)) in l.params.iter().zip(m.get("params").pn()) {
        let (lt, ct) = match q.get("prefix") {
            N::T(t) => (t.is_p('\''), t.is_id("const")),
            _ => (false, false),
        };
        let got = (p.is_lifetime(), p.is_ty(), p.is_const());
        want(c, "kind of parameter", got == (lt, !lt && !ct, ct), || {
            format!("{got:?} for {}", show(&q.tokens()))
        });
    }
}

macro_rules! common {
    ($c:expr, $x:expr, $m:expr) => {{
        let (c, x, m): (&mut Core, _, &N) = ($c, $x, $m);
        let n = count(&m.tokens());
        let params = if m.get("generics").is_nil() { &N::Nil } else { m.get("generics").get("params") };
        let of = |f: &dyn Fn(&N) -> bool| -> Vec<Tk> {
            params.pn().iter().filter(|(p, _)| f(p)).flat_map(|(p, _)| p.tokens()).collect()
        };
        let lt = |p: &N| matches!(p.get("prefix"), N::T(t) if t.is_p('\''));
        let ct = |p: &N| matches!(p.get("prefix"), N::T(t) if t.is_id("const"));
        let ty = |p: &N| p.get("prefix").is_nil();
        let flat = |v: Vec<&GenericParam>| -> Vec<Tk> { v.iter().flat_map(|p| observe::gparam(p).tokens()).collect() };
        let cases: [(&str, Vec<Tk>, Option<Vec<Tk>>); 3] = [
            ("get_lifetime_params", of(&lt), ask(c, "get_lifetime_params", n, || flat(x.get_lifetime_params().collect()))),
            ("get_type_params", of(&ty), ask(c, "get_type_params", n, || flat(x.get_type_params().collect()))),
            ("get_const_params", of(&ct), ask(c, "get_const_params", n, || flat(x.get_const_params().collect()))),
        ];
        for (what, exp, got) in cases {
            if let Some(got) = got {
                want(c, what, same(&exp, &got, EXACT), || format!("{} expected {}", show(&got), show(&exp)));
            }
        }
        if let Some(a) = ask(c, "get_inline_generic_args", n, || {
            x.get_inline_generic_args().map(|a| a.to_token_stream())
        }) {
            match a {
                None => want(c, "get_inline_generic_args", m.get("generics").is_nil(), || "none".into()),
                Some(s) => {
                    let got = of_stream(s);
                    let exp = inline_args(params);
                    let ok = !m.get("generics").is_nil() && split_args(&got).map_or(false, |a| same_args(&exp, &a));
                    want(c, "get_inline_generic_args", ok, || show(&got));
                }
            }
        }
        // the derived where clause
        let tr: Vec<Tk> = match c.work.below(8) {
            0 | 1 => vec![id("Clone")],
            2 => vec![id("a"), pj(':'), pa(':'), id("B"), pa('<'), id("u8"), pa('>')],
            3 => vec![id("Copy"), pa('+'), pj('\''), id("static")],
            4 => vec![pj(':'), pa(':'), id("std"), pj(':'), pa(':'), id("Eq"), pa('+'), pa('?'), id("Sized")],
            5 => vec![id("Fn"), g(D::Paren, vec![id("u8"), pa(',')]), pj('-'), pa('>'), id("T")],
            6 => vec![g(D::Hidden, vec![id("A")])],
            _ => {
                let knobs = c.knobs.clone();
                let mut g = crate::gen::Gen::new(&mut c.work, &knobs);
                g.budget = g.budget.min(20);
                let mut v = g.bounds(2);
                c.deliver(&mut v);
                v
            }
        };
        let s: TokenStream = to_stream(&tr);
        let types: Vec<N> = params.pn().iter().filter(|(p, _)| ty(p)).map(|(p, _)| p.clone()).collect();
        let size = n + (1 + types.len() as u64) * (tr.len() as u64 + 2);
        if let Some(w) = ask(c, "create_derive_where_clause", size, || x.create_derive_where_clause(s.clone())) {
            let got: Vec<Vec<Tk>> = w.items.items().map(|p| observe::pred(p).tokens()).collect();
            let old: Vec<Vec<Tk>> = if m.get("where").is_nil() {
                vec![]
            } else {
                m.get("where").get("items").pn().iter().map(|(p, _)| p.tokens()).collect()
            };
            let new: Vec<Vec<Tk>> = types
                .iter()
                .map(|p| {
                    let mut v = p.get("name").tokens();
                    v.push(pa(':'));
                    v.extend(tr.clone());
                    v
                })
                .collect();
            let eq = |a: &[Vec<Tk>]| a.len() == got.len() && a.iter().zip(&got).all(|(x, y)| like(x, y));
            let ok = eq(&[old.clone(), new.clone()].concat()) || eq(&[new.clone(), old.clone()].concat());
            want(c, "create_derive_where_clause", ok, || {
                format!("{} for {}", show(&observe::wclause(&w).tokens()), show(&m.tokens()))
            });
            // and it is a where clause again
            let ts = of_stream(w.to_token_stream());
            let exp = observe::wclause(&w).tokens();
            want(c, "create_derive_where_clause", same(&exp, &ts, EXACT), || show(&ts));
            if !has_hidden(&ts) && c.work.chance(30) {
                let text = w.to_token_stream().to_string();
                let back = text.parse::<TokenStream>().map(of_stream);
                let ok = matches!(&back, Ok(b) if same(&ts, b, CONTENT));
                want(c, "create_derive_where_clause", ok, || format!("text is {text}"));
            }
        }
    }};
}

pub fn attr(c: &mut Core, a: &Attribute, m: &N) {
    let meta = m.get("brackets").inner();
    let n = count(&m.tokens());
    let path = meta.get("path").ts();
    if let Some(s) = ask(c, "get_single_path_segment", n, || a.get_single_path_segment().map(observe_ident)) {
        let names: Vec<&Tk> = path.iter().filter(|t| matches!(t.k, K::Id(_))).collect();
        let exp = (names.len() == 1).then(|| names[0].clone());
        want(c, "get_single_path_segment", s == exp, || format!("{s:?} for {}", show(path)));
    }
    let exp: Vec<Tk> = match meta.get("value") {
        N::Nil => vec![],
        v if v.kind() == "Args" => v.get("group").inner().ts().to_vec(),
        v => v.get("value").ts().to_vec(),
    };
    if let Some(got) = ask(c, "get_value_tokens", n, || of_trees(a.get_value_tokens())) {
        want(c, "get_value_tokens", same(&exp, &got, EXACT), || {
            format!("{} expected {}", show(&got), show(&exp))
        });
    }
    let got = of_trees(a.value.get_value_tokens());
    want(c, "get_value_tokens", same(&exp, &got, EXACT), || "of the value".into());
}

fn attributes(c: &mut Core, a: &[Attribute], m: &N) {
    for (a, x) in a.iter().zip(m.list()).take(6) {
        attr(c, a, x);
    }
}

fn observe_ident(i: &proc_macro2::Ident) -> Tk {
    of_ident(i)
}

pub fn check(c: &mut Core, it: &Item, m: &N) {
    let n = count(&m.tokens());
    c.stats.add("query rounds", 1);
    // name
    let exp = match m.kind() {
        "Impl" | "Use" | "ExternBlock" => None,
        _ => match m.get("name") {
            N::T(t) => Some(t.clone()),
            _ => None,
        },
    };
    if let Some(got) = ask(c, "name", n, || it.name().map(|i| of_ident(&i))) {
        c.say(|| format!("name {got:?}"));
        want(c, "name", got == exp, || format!("{got:?} expected {exp:?}"));
    }
    // casts
    let casts = [
        ("Struct", it.as_struct().is_some()),
        ("Enum", it.as_enum().is_some()),
        ("Union", it.as_union().is_some()),
        ("Mod", it.as_module().is_some()),
        ("Trait", it.as_trait().is_some()),
        ("Impl", it.as_impl().is_some()),
        ("Alias", it.as_type_alias().is_some()),
        ("Fn", it.as_function().is_some()),
        ("Const", it.as_constant().is_some()),
        ("Use", it.as_use_declaration().is_some()),
        ("Macro", it.as_macro().is_some()),
        ("ExternBlock", it.as_extern_block().is_some()),
        ("ExternCrate", it.as_extern_crate().is_some()),
    ];
    for (k, got) in casts {
        want(c, "kind cast", got == (k == m.kind()), || format!("{} as {k}: {got}", m.kind()));
    }
    // attributes
    let got: Vec<Tk> = it.attributes().iter().flat_map(|a| observe::attr(a).tokens()).collect();
    let exp = m.get("attrs").tokens();
    want(c, "attributes", same(&exp, &got, EXACT), || format!("{} expected {}", show(&got), show(&exp)));
    {
        let mut copy = it.clone();
        let got: Vec<Tk> = copy.attributes_mut().iter().flat_map(|a| observe::attr(a).tokens()).collect();
        want(c, "attributes_mut", same(&exp, &got, EXACT), || show(&got));
        let g = copy.generic_params_mut().map(|l| observe::glist(l).tokens());
        let exp = if m.has("generics") && !m.get("generics").is_nil() {
            Some(m.get("generics").tokens())
        } else {
            None
        };
        want(c, "generic_params_mut", g == exp, || format!("{:?}", g.as_ref().map(|t| show(t))));
        let g = it.generic_params().map(|l| observe::glist(l).tokens());
        want(c, "generic_params", g == exp, || format!("{:?}", g.as_ref().map(|t| show(t))));
    }
    attributes(c, it.attributes(), m.get("attrs"));
    if let Some(l) = it.generic_params() {
        if m.has("generics") && !m.get("generics").is_nil() {
            generics(c, l, m.get("generics"));
        }
    }
    match it {
        Item::Struct(s) if m.kind() == "Struct" => {
            common!(c, s, m);
            let f = m.get("fields");
            let empty = N::Nil;
            let list = if f.is_nil() { &empty } else { f.get("group").inner() };
            let named = f.kind() == "Named";
            let names: Vec<String> = list
                .pn()
                .iter()
                .enumerate()
                .map(|(i, (x, _))| if named { x.get("name").text() } else { i.to_string() })
                .collect();
            if let Some(got) = ask(c, "field_names", n, || s.field_names().into_iter().collect::<Vec<_>>()) {
                want(c, "field_names", got == names, || format!("{got:?} expected {names:?}"));
            }
            if let Some(got) = ask(c, "field_tokens", n, || {
                s.field_tokens().into_iter().map(|t| of_tree(&t)).collect::<Vec<_>>()
            }) {
                let ok = if named {
                    let exp: Vec<Tk> = list.pn().iter().flat_map(|(x, _)| x.get("name").tokens()).collect();
                    same(&exp, &got, EXACT)
                } else {
                    got.len() == names.len() && got.iter().zip(&names).all(|(t, s)| t.k == K::Lit(s.clone()))
                };
                want(c, "field_tokens", ok, || show(&got));
            }
            if let Some(got) = ask(c, "field_types", n, || {
                s.field_types().into_iter().map(|t| of_trees(&t.tokens)).collect::<Vec<_>>()
            }) {
                let exp: Vec<Vec<Tk>> = list.pn().iter().map(|(x, _)| x.get("ty").tokens()).collect();
                want(c, "field_types", got == exp, || format!("{} types", got.len()));
            }
        }
        Item::Enum(e) if m.kind() == "Enum" => {
            common!(c, e, m);
            let list = m.get("body").inner().pn();
            let mut all = true;
            let mut clear = true;
            for (v, (x, _)) in e.variants.items().zip(list) {
                let f = x.get("fields");
                let k = if f.is_nil() { 0 } else { f.get("group").inner().pn().len() };
                let unit = f.is_nil();
                if !unit && k == 0 {
                    clear = false;
                } else {
                    all &= unit;
                    want(c, "is_empty_variant", v.is_empty_variant() == unit, || show(&x.tokens()));
                }
                let single = v.get_single_type().map(|t| observe::tfield(t).tokens());
                let exp = (f.kind() == "Tuple" && k == 1).then(|| f.get("group").inner().pn()[0].0.tokens());
                want(c, "get_single_type", single == exp, || show(&x.tokens()));
            }
            if clear || !all {
                if let Some(got) = ask(c, "is_c_enum", n, || e.is_c_enum()) {
                    want(c, "is_c_enum", got == all, || format!("{got} for {}", show(&m.tokens())));
                }
            }
            for (v, (x, _)) in e.variants.items().zip(list).take(3) {
                for (a, y) in v.attributes.iter().zip(x.get("attrs").list()).take(2) {
                    attr(c, a, y);
                }
            }
        }
        Item::Union(u) if m.kind() == "Union" => common!(c, u, m),
        Item::Constant(k) if m.kind() == "Const" => {
            let exp = m.get("kw").text() == "static";
            want(c, "is_static", k.is_static() == exp, || show(&m.tokens()));
        }
        _ => (),
    }
}

// --- locations ---

fn span_rule(c: &Core, ts: &[Tk]) -> Sp {
    match ts.len() {
        0 => CALL_SITE,
        1 => ts[0].sp,
        n => sim::join_rule(c.cfg.join, ts[0].sp, ts[n - 1].sp).unwrap_or(ts[0].sp),
    }
}

fn at(c: &mut Core, what: &str, m: &N, f: impl Fn() -> Span) {
    at_tokens(c, what, &m.tokens(), f)
}

fn at_tokens(c: &mut Core, what: &str, ts: &[Tk], f: impl Fn() -> Span) {
    const P: &[&str] = &["C11"];
    let n = count(ts) + 8;
    let exp = span_rule(c, ts);
    let k = c.draw_crash(n.min(20));
    if k > 0 {
        c.call_at(what, n, k, &f);
    }
    match c.call(what, n, &f) {
        Out::Ok(s) => {
            let got = sim::raw(s);
            c.say(|| format!("span of {what}: {got:?}"));
            if got != exp {
                let t = format!(
                    "{what} is at {got:?}, expected {exp:?} ({:?}): {}",
                    c.cfg.join,
                    show_spans(&ts[..ts.len().min(40)])
                );
                c.fail(P, "location", t);
            }
            c.stats.add("locations asked", 1);
        }
        o => {
            let t = format!("{what}: {}", o.what());
            c.fail(P, "location failed", t)
        }
    }
}

fn span_attr(c: &mut Core, a: &Attribute, m: &N) {
    at(c, "Attribute", m, || a.span());
    at(c, "AttributeValue", m.get("brackets").inner().get("value"), || a.value.span());
}

fn span_attrs(c: &mut Core, a: &[Attribute], m: &N) {
    for (a, m) in a.iter().zip(m.list()).take(3) {
        span_attr(c, a, m);
    }
}

fn span_vis(c: &mut Core, v: &Option<VisMarker>, m: &N) {
    if let Some(v) = v {
        at(c, "VisMarker", m, || v.span());
    }
}

fn span_generics(c: &mut Core, l: &Option<GenericParamList>, m: &N) {
    let l = match l {
        Some(l) if !m.is_nil() => l,
        _ => return,
    };
    at(c, "GenericParamList", m, || l.span());
    // `<` a , b , `>` made up
    let a = l.as_inline_args();
    let got = of_stream(a.to_token_stream());
    at_tokens(c, "InlineGenericArgs", &got, || a.span());
    for ((p, _), (q, _)) in l.params.iter().zip(m.get("params").pn()).take(4) {
        at(c, "GenericParam", q, || p.span());
        if let Some(b) = &p.bound {
            at(c, "GenericBound", q.get("bound"), || b.span());
        }
    }
}

fn span_where(c: &mut Core, w: &Option<WhereClause>, m: &N) {
    let w = match w {
        Some(w) if !m.is_nil() => w,
        _ => return,
    };
    at(c, "WhereClause", m, || w.span());
    for (p, (q, _)) in w.items.items().zip(m.get("items").pn()).take(4) {
        at(c, "WhereClausePredicate", q, || p.span());
        at(c, "GenericBound", q.get("bound"), || p.bound.span());
    }
}

fn span_tfield(c: &mut Core, f: &TupleField, m: &N) {
    at(c, "TupleField", m, || f.span());
    at(c, "TypeExpr", m.get("ty"), || f.ty.span());
    span_attrs(c, &f.attributes, m.get("attrs"));
    span_vis(c, &f.vis_marker, m.get("vis"));
}

fn span_nfields(c: &mut Core, f: &NamedFields, m: &N) {
    for (f, (m, _)) in f.fields.items().zip(m.get("group").inner().pn()).take(4) {
        at(c, "NamedField", m, || f.span());
        at(c, "TypeExpr", m.get("ty"), || f.ty.span());
        span_attrs(c, &f.attributes, m.get("attrs"));
        span_vis(c, &f.vis_marker, m.get("vis"));
    }
}

fn span_fields(c: &mut Core, f: &Fields, m: &N) {
    at(c, "Fields", m, || f.span());
    match f {
        Fields::Tuple(t) if m.kind() == "Tuple" => {
            for (f, (m, _)) in t.fields.items().zip(m.get("group").inner().pn()).take(4) {
                span_tfield(c, f, m);
            }
        }
        Fields::Named(t) if m.kind() == "Named" => span_nfields(c, t, m),
        _ => (),
    }
}

fn span_fn(c: &mut Core, f: &Function, m: &N) {
    at(c, "Function", m, || f.span());
    span_attrs(c, &f.attributes, m.get("attrs"));
    span_vis(c, &f.vis_marker, m.get("vis"));
    span_generics(c, &f.generic_params, m.get("generics"));
    span_where(c, &f.where_clause, m.get("where"));
    if let Some(t) = &f.return_ty {
        at(c, "TypeExpr", m.get("ret"), || t.span());
    }
}

pub fn spans(c: &mut Core, it: &Item, m: &N) {
    c.stats.add("location rounds", 1);
    at(c, "Item", m, || it.span());
    span_attrs(c, it.attributes(), m.get("attrs"));
    match it {
        Item::Struct(s) => {
            at(c, "Struct", m, || s.span());
            span_vis(c, &s.vis_marker, m.get("vis"));
            span_generics(c, &s.generic_params, m.get("generics"));
            span_where(c, &s.where_clause, m.get("where"));
            span_fields(c, &s.fields, m.get("fields"));
        }
        Item::Enum(s) => {
            at(c, "Enum", m, || s.span());
            span_vis(c, &s.vis_marker, m.get("vis"));
            span_generics(c, &s.generic_params, m.get("generics"));
            span_where(c, &s.where_clause, m.get("where"));
            for (v, (x, _)) in s.variants.items().zip(m.get("body").inner().pn()).take(5) {
                at(c, "EnumVariant", x, || v.span());
                span_fields(c, &v.fields, x.get("fields"));
                if let Some(k) = &v.value {
                    at(c, "EnumVariantValue", x.get("value"), || k.span());
                }
            }
        }
        Item::Union(s) => {
            at(c, "Union", m, || s.span());
            span_vis(c, &s.vis_marker, m.get("vis"));
            span_generics(c, &s.generic_params, m.get("generics"));
            span_where(c, &s.where_clause, m.get("where"));
            span_nfields(c, &s.fields, m.get("fields"));
        }
        Item::Function(f) => span_fn(c, f, m),
        Item::Impl(b) => {
            span_generics(c, &b.impl_generic_params, m.get("generics"));
            span_where(c, &b.where_clause, m.get("where"));
            at(c, "TypeExpr", m.get("self"), || b.self_ty.span());
            for (x, y) in b.body_items.iter().zip(m.get("body").inner().get("members").list()).take(3) {
                if let ImplMember::AssocFunction(f) = x {
                    span_fn(c, f, y);
                }
            }
        }
        Item::Trait(b) => {
            span_generics(c, &b.generic_params, m.get("generics"));
            span_where(c, &b.where_clause, m.get("where"));
            if let Some(x) = &b.bound {
                at(c, "GenericBound", m.get("bound"), || x.span());
            }
        }
        Item::Module(x) => {
            for (a, b) in x.members.iter().zip(m.get("body").members()).take(2) {
                at(c, "Item", b, || a.span());
            }
        }
        Item::Constant(x) => at(c, "TypeExpr", m.get("ty"), || x.ty.span()),
        Item::UseDeclaration(x) => at(c, "TypeExpr", m.get("tree"), || x.import_tree.span()),
        _ => (),
    }
}

trait Members {
    fn members(&self) -> &[N];
}
impl Members for N {
    fn members(&self) -> &[N] {
        match self {
            N::Nil => &[],
            n => n.inner().get("members").list(),
        }
    }
}
