//! Declarations under edit histories (C08), the queries on them (C09) and the
//! locations they report (C11).

use crate::core::{Core, Session};
use crate::doc;
use crate::gen::Gen;
use crate::model::{diff, N};
use crate::observe;
use crate::queries;
use crate::read::{cursor, emit, show_diff};
use crate::sched::Out;
use crate::tok::*;
use proc_macro2::{Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use quote::ToTokens;
use venial::*;

const P: &[&str] = &["C08"];

pub struct Obj {
    pub item: Item,
    pub n: N,
}

pub struct Edit {
    objs: Vec<Obj>,
    steps: u32,
    dead: bool,
    /// Predicates and parameters made before.
    preds: Vec<(N, WhereClausePredicate)>,
    params: Vec<(N, GenericParam)>,
}

fn short(s: String) -> String {
    if s.chars().count() > 500 {
        s.chars().take(500).collect::<String>() + "..."
    } else {
        s
    }
}

/// Reads the item that the library should make of these tokens; its parts are
/// then used in edits.
fn donor(c: &mut Core, ts: &[Tk]) -> Option<Item> {
    let s = to_stream(ts);
    match c.call("parse donor", count(ts), || parse_item(s)) {
        Out::Ok(Ok(i)) => Some(i),
        _ => None,
    }
}

/// A part made by the generator, delivered.
fn part(c: &mut Core, f: impl FnOnce(&mut Gen) -> N) -> N {
    doc::one(c, |g| {
        g.budget = g.budget.min(20);
        f(g)
    })
}

fn check_part(c: &mut Core, exp: &N, got: N) -> bool {
    match diff(exp, &got, EXACT) {
        None => true,
        Some(d) => {
            c.fail(&["C03"], "structure differs", format!("donor: {d}"));
            false
        }
    }
}

fn w(v: &[Tk]) -> Tk {
    g(D::Brace, v.to_vec())
}

fn new_attr(c: &mut Core) -> Option<(N, Attribute)> {
    let n = part(c, |g| g.attr(false));
    let ts = [n.tokens(), vec![id("struct"), id("X"), pa(';')]].concat();
    let a = donor(c, &ts)?.attributes().first()?.clone();
    check_part(c, &n, observe::attr(&a)).then_some((n, a))
}

fn new_nfield(c: &mut Core) -> Option<(N, NamedField)> {
    let n = part(c, |g| g.nfield());
    let ts = [id("struct"), id("X"), w(&n.tokens())];
    match donor(c, &ts)? {
        Item::Struct(Struct {
            fields: Fields::Named(f),
            ..
        }) => {
            let f = f.fields.inner.first()?.0.clone();
            check_part(c, &n, observe::nfield(&f)).then_some((n, f))
        }
        _ => None,
    }
}

fn new_tfield(c: &mut Core) -> Option<(N, TupleField)> {
    let n = part(c, |g| g.tfield());
    let ts = [id("struct"), id("X"), g(D::Paren, n.tokens()), pa(';')];
    match donor(c, &ts)? {
        Item::Struct(Struct {
            fields: Fields::Tuple(f),
            ..
        }) => {
            let f = f.fields.inner.first()?.0.clone();
            check_part(c, &n, observe::tfield(&f)).then_some((n, f))
        }
        _ => None,
    }
}

fn new_variant(c: &mut Core) -> Option<(N, EnumVariant)> {
    let n = part(c, |g| g.variant(false));
    let ts = [id("enum"), id("X"), w(&n.tokens())];
    match donor(c, &ts)? {
        Item::Enum(e) => {
            let f = e.variants.inner.first()?.0.clone();
            check_part(c, &n, observe::variant(&f)).then_some((n, f))
        }
        _ => None,
    }
}

fn new_fparam(c: &mut Core) -> Option<(N, FnParam)> {
    let n = part(c, |g| g.fparam(false));
    let ts = [id("fn"), id("X"), g(D::Paren, n.tokens()), pa(';')];
    match donor(c, &ts)? {
        Item::Function(e) => {
            let f = e.params.inner.first()?.0.clone();
            check_part(c, &n, observe::fparam(&f)).then_some((n, f))
        }
        _ => None,
    }
}

fn new_member(c: &mut Core) -> Option<(N, ImplMember)> {
    let n = part(c, |g| g.member(false));
    let ts = [id("impl"), id("X"), w(&n.tokens())];
    match donor(c, &ts)? {
        Item::Impl(e) => {
            let f = e.body_items.first()?.clone();
            check_part(c, &n, observe::impl_member(&f)).then_some((n, f))
        }
        _ => None,
    }
}

/// A predicate through its own parser.
fn new_pred(c: &mut Core) -> Option<(N, WhereClausePredicate)> {
    let n = part(c, |g| g.predicate());
    let ts = n.tokens();
    let k = c.draw_crash(count(&ts));
    if k > 0 {
        let s = to_stream(&ts);
        c.call_at("parse predicate", count(&ts), k, || WhereClausePredicate::parse(s));
    }
    let s = to_stream(&ts);
    let r = c.call("parse predicate", count(&ts), || WhereClausePredicate::parse(s));
    match r {
        Out::Ok(p) => {
            if let Some(d) = diff(&n, &observe::pred(&p), EXACT) {
                c.fail(P, "predicate differs", format!("{d}\n  in: {}", show(&ts)));
                return None;
            }
            Some((n, p))
        }
        o => {
            c.fail(P, "predicate refused", format!("{}\n  in: {}", o.what(), show(&ts)));
            None
        }
    }
}

/// A generic parameter through its constructors.
fn new_gparam(c: &mut Core) -> Option<(N, GenericParam)> {
    let kind = c.work.below(5);
    let mut name = c.work.pick(&["a", "b", "T", "U", "N", "de"][..]).to_string();
    if c.work.chance(10) {
        // of any length
        for _ in 0..c.work.below(40) {
            name.push(*c.work.pick(&['a', 'Z', '_', '0', '9', 'é'][..]));
        }
    }
    let name = name.as_str();
    let knobs = c.knobs.clone();
    let mut bound = {
        let mut g = Gen::new(&mut c.work, &knobs);
        g.budget = g.budget.min(20);
        match kind {
            1 => {
                let mut v = g.lifetime();
                if g.t.chance(40) {
                    v.push(p('+'));
                    v.extend(g.lifetime());
                }
                v
            }
            3 => g.bounds(2),
            4 => g.ty(1),
            _ => vec![],
        }
    };
    c.deliver(&mut bound);
    let trees = to_trees(&bound);
    let prefix = match kind {
        0 | 1 => N::T(pj('\'')),
        4 => N::T(id("const")),
        _ => N::Nil,
    };
    let b = match kind {
        0 | 2 => N::Nil,
        _ => N::Rec("Bound", vec![("colon", N::T(pa(':'))), ("tokens", N::Ts(bound.clone()))]),
    };
    let n = N::Rec("GParam", vec![("prefix", prefix), ("name", N::T(id(name))), ("bound", b)]);
    let r = c.call("make parameter", 8, || match kind {
        0 => GenericParam::lifetime(name),
        1 => GenericParam::bounded_lifetime(name, trees),
        2 => GenericParam::ty(name),
        3 => GenericParam::bounded_ty(name, trees),
        _ => GenericParam::const_param(name, trees),
    });
    let mut gp = match r {
        Out::Ok(p) => p,
        o => {
            c.fail(P, "parameter not made", o.what());
            return None;
        }
    };
    if kind == 1 {
        // known finding: the apostrophe is not joined to the name
        if let Some(TokenTree::Punct(q)) = &gp.tk_prefix {
            if q.as_char() == '\'' && q.spacing() == Spacing::Alone && crate::known::listed("bounded_lifetime") {
                c.stats.add("known: bounded_lifetime", 1);
                gp.tk_prefix = Some(TokenTree::Punct(Punct::new('\'', Spacing::Joint)));
            }
        }
    }
    if let Some(d) = diff(&n, &observe::gparam(&gp), EXACT) {
        c.fail(P, "parameter differs", d);
        return None;
    }
    let is = (gp.is_lifetime(), gp.is_ty(), gp.is_const());
    if is != (kind < 2, kind == 2 || kind == 3, kind == 4) {
        c.fail(&["C09"], "kind of parameter", format!("{}: {is:?}", show(&n.tokens())));
    }
    Some((n, gp))
}

fn some_comma(c: &mut Core) -> Option<(Tk, Punct)> {
    if c.work.chance(60) {
        return None;
    }
    let mut t = pa(',');
    let lo = c.file();
    t.sp = (lo, lo + 1);
    match to_tree(&t) {
        TokenTree::Punct(p) => Some((t, p)),
        _ => None,
    }
}

/// Adds an element to a comma list and its model.
fn add<T>(c: &mut Core, l: &mut Punctuated<T>, m: &mut N, x: T, n: N) {
    let comma = some_comma(c);
    let len = m.pn().len();
    if c.work.chance(50) {
        let (t, p) = comma.unzip();
        c.call("push", 4, || l.push(x, p));
        m.push_elem(n, t);
    } else {
        let i = c.work.below(len as u32 + 1) as usize;
        // a comma is given only where it is used
        let (t, p) = if i == len { comma.unzip() } else { (None, None) };
        c.call("insert", 4, || l.insert(i, x, p));
        m.insert_elem(i, n, t);
    }
}

fn many<T: Clone>(c: &mut Core, l: &mut Punctuated<T>, m: &mut N, x: &T, n: &N, times: usize) {
    for _ in 0..times {
        let x = x.clone();
        c.call("push", 4, || l.push(x, None));
        m.push_elem(n.clone(), None);
    }
}

fn blank() -> Item {
    let s: TokenStream = [
        TokenTree::Ident(Ident::new("struct", Span::call_site())),
        TokenTree::Ident(Ident::new("X", Span::call_site())),
        TokenTree::Punct(Punct::new(';', Spacing::Alone)),
    ]
    .into_iter()
    .collect();
    parse_item(s).expect("blank")
}

/// A comma that was not given may be any comma: lists keep those of removed
/// elements.
fn adopt_commas(m: &mut N, got: &N) {
    match (m, got) {
        (N::Rec(_, a), N::Rec(_, b)) => a.iter_mut().zip(b).for_each(|((_, x), (_, y))| adopt_commas(x, y)),
        (N::L(a), N::L(b)) => a.iter_mut().zip(b).for_each(|(x, y)| adopt_commas(x, y)),
        (N::G(_, _, a), N::G(_, _, b)) => adopt_commas(a, b),
        (N::Pn(a), N::Pn(b)) => {
            for ((x, cx), (y, cy)) in a.iter_mut().zip(b) {
                adopt_commas(x, y);
                if let (Some(p), Some(q)) = (cx, cy) {
                    if p.sp == CALL_SITE && q.is_p(',') {
                        *p = q.clone();
                    }
                }
            }
        }
        _ => (),
    }
}

fn remove<T>(c: &mut Core, l: &mut Punctuated<T>, m: &mut N) {
    let len = m.pn().len();
    if len == 0 {
        return;
    }
    let i = c.work.below(len as u32) as usize;
    if l.inner.len() == len {
        l.inner.remove(i);
    }
    let v = m.pn_mut();
    let (_, comma) = v.remove(i);
    if i + 1 == len && comma.is_none() {
        if let Some(last) = v.last_mut() {
            last.1 = None;
        }
    }
}

fn with_param(i: Item, p: GenericParam) -> Item {
    match i {
        Item::Struct(s) => Item::Struct(s.with_param(p)),
        Item::Enum(s) => Item::Enum(s.with_param(p)),
        Item::Union(s) => Item::Union(s.with_param(p)),
        o => o,
    }
}

fn with_pred(i: Item, p: WhereClausePredicate) -> Item {
    match i {
        Item::Struct(s) => Item::Struct(s.with_where_predicate(p)),
        Item::Enum(s) => Item::Enum(s.with_where_predicate(p)),
        Item::Union(s) => Item::Union(s.with_where_predicate(p)),
        o => o,
    }
}

fn model_param(list: &mut N, n: N) {
    if list.is_nil() {
        *list = N::Rec(
            "GParams",
            vec![("lt", N::T(pa('<'))), ("params", N::Pn(vec![])), ("gt", N::T(pa('>')))],
        );
    }
    let lifetime = matches!(n.get("prefix"), N::T(t) if t.is_p('\''));
    let params = list.get_mut("params");
    if lifetime {
        params.insert_elem(0, n, None);
    } else {
        params.push_elem(n, None);
    }
}

fn model_pred(wh: &mut N, n: N) {
    if wh.is_nil() {
        *wh = N::Rec("Where", vec![("kw", N::T(id("where"))), ("items", N::Pn(vec![]))]);
    }
    wh.get_mut("items").push_elem(n, None);
}

fn is_data(n: &N) -> bool {
    matches!(n.kind(), "Struct" | "Enum" | "Union")
}

impl Edit {
    pub fn new(c: &mut Core) -> Edit {
        Edit {
            objs: vec![],
            steps: 3 + c.work.below(18),
            dead: false,
            preds: vec![],
            params: vec![],
        }
    }

    /// A predicate: new, used before, or with parts of those.
    fn pred(&mut self, c: &mut Core) -> Option<(N, WhereClausePredicate)> {
        let len = self.preds.len() as u32;
        if len > 0 && c.work.chance(35) {
            let (mut n, mut p) = self.preds[c.work.below(len) as usize].clone();
            let other = match c.work.below(3) {
                0 => None,
                1 => Some(self.preds[c.work.below(len) as usize].clone()),
                _ => new_pred(c),
            };
            if let Some((m, q)) = other {
                p.bound = q.bound;
                *n.get_mut("bound") = m.get("bound").clone();
            }
            return Some((n, p));
        }
        let r = new_pred(c)?;
        if len < 6 {
            self.preds.push(r.clone());
        }
        Some(r)
    }
    fn param(&mut self, c: &mut Core) -> Option<(N, GenericParam)> {
        let len = self.params.len() as u32;
        if len > 0 && c.work.chance(25) {
            return Some(self.params[c.work.below(len) as usize].clone());
        }
        let r = new_gparam(c)?;
        if len < 6 {
            self.params.push(r.clone());
        }
        Some(r)
    }
    /// Many edits of one kind in a row.
    fn burst(&mut self, c: &mut Core, k: usize) -> Option<&'static str> {
        let kind = self.objs[k].n.kind();
        let data = is_data(&self.objs[k].n);
        let n = [9, 18, 33, 65, 130, 257, 300][c.work.below(7) as usize];
        match c.work.below(3) {
            0 if data => {
                let pool = (0..1 + c.work.below(3)).map(|_| self.param(c)).collect::<Option<Vec<_>>>()?;
                for i in 0..n {
                    let (m, p) = pool[i % pool.len()].clone();
                    let o = &mut self.objs[k];
                    let it = std::mem::replace(&mut o.item, blank());
                    match c.call("with_param", 2000, || with_param(it, p)) {
                        Out::Ok(i) => o.item = i,
                        x => {
                            c.fail(P, "with_param failed", x.what());
                            self.dead = true;
                            return None;
                        }
                    }
                    model_param(o.n.get_mut("generics"), m);
                    if i == n / 2 {
                        self.check(c, k, "half of a burst", &[]);
                    }
                }
                Some("burst of parameters")
            }
            1 if data => {
                let pool = (0..1 + c.work.below(3)).map(|_| self.pred(c)).collect::<Option<Vec<_>>>()?;
                for i in 0..n {
                    let (m, p) = pool[i % pool.len()].clone();
                    let o = &mut self.objs[k];
                    let it = std::mem::replace(&mut o.item, blank());
                    match c.call("with_where_predicate", 2000, || with_pred(it, p)) {
                        Out::Ok(i) => o.item = i,
                        x => {
                            c.fail(P, "with_where_predicate failed", x.what());
                            self.dead = true;
                            return None;
                        }
                    }
                    model_pred(o.n.get_mut("where"), m);
                    if i == n / 2 {
                        self.check(c, k, "half of a burst", &[]);
                    }
                }
                Some("burst of predicates")
            }
            _ => {
                // fields or variants
                let o = &self.objs[k];
                match kind {
                    "Struct" if !o.n.get("fields").is_nil() => {
                        if o.n.get("fields").kind() == "Tuple" {
                            let (m, f) = new_tfield(c)?;
                            let o = &mut self.objs[k];
                            if let Item::Struct(Struct { fields: Fields::Tuple(t), .. }) = &mut o.item {
                                many(c, &mut t.fields, o.n.get_mut("fields").get_mut("group").inner_mut(), &f, &m, n);
                            }
                        } else {
                            let (m, f) = new_nfield(c)?;
                            let o = &mut self.objs[k];
                            if let Item::Struct(Struct { fields: Fields::Named(t), .. }) = &mut o.item {
                                many(c, &mut t.fields, o.n.get_mut("fields").get_mut("group").inner_mut(), &f, &m, n);
                            }
                        }
                        Some("burst of fields")
                    }
                    "Enum" => {
                        let (m, f) = new_variant(c)?;
                        let o = &mut self.objs[k];
                        if let Item::Enum(x) = &mut o.item {
                            many(c, &mut x.variants, o.n.get_mut("body").inner_mut(), &f, &m, n);
                        }
                        Some("burst of variants")
                    }
                    _ => None,
                }
            }
        }
    }

    /// A copy some of whose parts were emptied.
    fn hollow(&mut self, c: &mut Core, k: usize) {
        let o = &self.objs[k];
        let mut x = Obj { item: o.item.clone(), n: o.n.clone() };
        fn bound(c: &mut Core, b: &mut GenericBound, m: &mut N) {
            if c.work.chance(50) {
                b.tokens.clear();
                *m.get_mut("tokens") = N::Ts(vec![]);
            }
        }
        fn ty(c: &mut Core, t: &mut TypeExpr, m: &mut N) {
            if c.work.chance(50) {
                t.tokens.clear();
                *m = N::Ts(vec![]);
            }
        }
        fn fields(c: &mut Core, f: &mut Fields, m: &mut N) {
            match f {
                Fields::Tuple(f) => {
                    let l = m.get_mut("group").inner_mut().pn_mut();
                    for ((f, _), (m, _)) in f.fields.inner.iter_mut().zip(l).take(4) {
                        ty(c, &mut f.ty, m.get_mut("ty"));
                        if c.work.chance(30) {
                            f.vis_marker = None;
                            f.attributes.clear();
                            *m.get_mut("vis") = N::Nil;
                            *m.get_mut("attrs") = N::L(vec![]);
                        }
                    }
                }
                Fields::Named(f) => {
                    let l = m.get_mut("group").inner_mut().pn_mut();
                    for ((f, _), (m, _)) in f.fields.inner.iter_mut().zip(l).take(4) {
                        ty(c, &mut f.ty, m.get_mut("ty"));
                    }
                }
                Fields::Unit => (),
            }
        }
        // paths of attributes: empty, of invisible parts, with odd parts in front or behind
        let m = x.n.get_mut("attrs").list_mut();
        for (a, m) in x.item.attributes_mut().iter_mut().zip(m).take(4) {
            let m = m.get_mut("brackets").inner_mut().get_mut("path");
            let mut path = m.ts().to_vec();
            match c.work.below(5) {
                0 => path.clear(),
                1 => path = vec![g(D::Hidden, path)],
                2 => {
                    for _ in 0..1 + c.work.below(6) {
                        let i = c.work.below(path.len() as u32 + 1) as usize;
                        path.insert(i, g(D::Hidden, vec![]));
                    }
                }
                3 => {
                    let i = c.work.below(path.len() as u32 + 1) as usize;
                    path.insert(i, [pa('.'), lit("1"), id("b"), id("r#b")][c.work.below(4) as usize].clone());
                }
                _ => continue,
            }
            a.path = to_trees(&path);
            *m = N::Ts(path);
        }
        if let Some(l) = x.item.generic_params_mut() {
            let m = x.n.get_mut("generics").get_mut("params").pn_mut();
            for ((p, _), (m, _)) in l.params.inner.iter_mut().zip(m).take(4) {
                if let Some(b) = &mut p.bound {
                    bound(c, b, m.get_mut("bound"));
                }
            }
        }
        if let Some(Some(w)) = where_mut(&mut x.item) {
            let m = x.n.get_mut("where").get_mut("items").pn_mut();
            for ((p, _), (m, _)) in w.items.inner.iter_mut().zip(m).take(4) {
                bound(c, &mut p.bound, m.get_mut("bound"));
                if c.work.chance(50) {
                    p.left_side.clear();
                    *m.get_mut("left") = N::Ts(vec![]);
                }
            }
        }
        match &mut x.item {
            Item::Struct(s) => fields(c, &mut s.fields, x.n.get_mut("fields")),
            Item::Union(u) => {
                let l = x.n.get_mut("fields").get_mut("group").inner_mut().pn_mut();
                for ((f, _), (m, _)) in u.fields.fields.inner.iter_mut().zip(l).take(4) {
                    ty(c, &mut f.ty, m.get_mut("ty"));
                }
            }
            Item::Enum(e) => {
                let l = x.n.get_mut("body").inner_mut().pn_mut();
                for ((v, _), (m, _)) in e.variants.inner.iter_mut().zip(l).take(4) {
                    fields(c, &mut v.fields, m.get_mut("fields"));
                }
            }
            Item::Impl(b) => ty(c, &mut b.self_ty, x.n.get_mut("self")),
            Item::Constant(b) => ty(c, &mut b.ty, x.n.get_mut("ty")),
            Item::Function(f) => {
                if let Some(t) = &mut f.return_ty {
                    ty(c, t, x.n.get_mut("ret"));
                }
            }
            _ => (),
        }
        c.stats.add("copies with emptied parts", 1);
        queries::spans(c, &x.item, &x.n);
        let pairs = o.item.attributes().iter().zip(o.n.get("attrs").list());
        for ((a, m), (b, n)) in pairs.zip(x.item.attributes().iter().zip(x.n.get("attrs").list())).take(4) {
            match c.work.below(3) {
                0 => {
                    queries::attr(c, a, m);
                    queries::attr(c, b, n);
                }
                1 => queries::attr(c, b, n),
                _ => {
                    queries::attr(c, b, n);
                    queries::attr(c, a, m);
                }
            }
        }
        let at = self.objs.len();
        self.objs.push(x);
        self.check(c, at, "parts emptied", &[]);
        self.objs.pop();
    }

    fn start(&mut self, c: &mut Core) -> bool {
        let data = c.work.chance(65);
        let n = doc::one(c, |g| {
            g.budget = g.budget.min(60);
            if data {
                g.data_item()
            } else {
                g.item(1)
            }
        });
        let mut h = 0;
        n.shape(&mut h);
        c.stats.shapes.insert(h);
        let ts = n.tokens();
        c.say(|| format!("start {}", show(&ts)));
        let mut cur = cursor(&ts);
        match c.call("read", count(&ts), || consume_item(&mut cur)) {
            Out::Ok(Ok(item)) => {
                if diff(&n, &observe::item(&item), EXACT).is_some() {
                    c.fail(&["C03"], "structure differs", format!("start: {}", short(show(&ts))));
                    return false;
                }
                self.objs.push(Obj { item, n });
                true
            }
            o => {
                let t = format!("start: {}\n  in: {}", crate::read::show_read(&o), short(show(&ts)));
                c.fail(crate::read::READ_FAILS, "supported declaration refused", t);
                false
            }
        }
    }

    fn check(&mut self, c: &mut Core, k: usize, what: &str, extra: &[&'static str]) {
        let o = &mut self.objs[k];
        let mut props = P.to_vec();
        props.extend(extra);
        let got = observe::item(&o.item);
        adopt_commas(&mut o.n, &got);
        if let Some(d) = diff(&o.n, &got, EXACT) {
            c.fail(&props, "edited content differs", format!("{what}: {}: {d}", o.n.kind()));
            self.dead = true;
            return;
        }
        let exp = o.n.tokens();
        match emit(c, "emit", &o.item, count(&exp)) {
            Out::Ok(got) => {
                if !same(&exp, &got, EXACT) {
                    c.fail(&props, "edited emission differs", format!("{what}: {}", show_diff(&exp, &got)));
                    self.dead = true;
                }
                c.say(|| format!("{what}: {}", show_spans(&got)));
            }
            x => {
                c.fail(&props, "emission failed", format!("{what}: {}", x.what()));
                self.dead = true;
            }
        }
    }

    fn restart(&mut self, c: &mut Core, k: usize) {
        let o = &self.objs[k];
        let exp = o.n.tokens();
        let text = c.work.chance(50) && !has_hidden(&exp);
        let s = o.item.to_token_stream();
        let s: TokenStream = if text {
            let t = s.to_string();
            match t.parse() {
                Ok(s) => s,
                Err(_) => {
                    c.fail(P, "text does not lex", format!("{}\n  {}", short(t), o.n.kind()));
                    self.dead = true;
                    return;
                }
            }
        } else {
            s
        };
        let given = of_stream(s.clone());
        if text && !same(&exp, &given, CONTENT) {
            let t = format!("text round trip: {}", show_diff(&exp, &given));
            c.fail(P, "text differs", t);
            self.dead = true;
            return;
        }
        let n = count(&given);
        let kk = c.draw_crash(n);
        if kk > 0 {
            let s = s.clone();
            c.call_at("re-parse", n, kk, || parse_item(s));
        }
        c.stats.add(if text { "fault: restart from text" } else { "fault: restart from tokens" }, 1);
        let mut model = o.n.clone();
        match c.call("re-parse", n, || parse_item(s)) {
            Out::Ok(Ok(item)) => {
                if text {
                    model.assign(&given);
                }
                if let Some(d) = diff(&model, &observe::item(&item), EXACT) {
                    let t = format!(
                        "after restart from {}: {}: {d}",
                        if text { "text" } else { "tokens" },
                        model.kind()
                    );
                    c.fail(P, "re-parsed content differs", t);
                    self.dead = true;
                    return;
                }
                c.say(|| format!("restart text {text}"));
                if text {
                    // places in text are the real lexer's own
                    let mut ts = given;
                    c.deliver(&mut ts);
                    model.assign(&ts);
                    let s = to_stream(&ts);
                    match c.call("re-parse", n, || parse_item(s)) {
                        Out::Ok(Ok(item)) => self.objs[k] = Obj { item, n: model },
                        _ => self.dead = true,
                    }
                } else {
                    self.objs[k] = Obj { item, n: model };
                }
                self.check(c, k, "after restart", &[]);
            }
            o2 => {
                let t = format!("{}\n  {}", crate::read::show_read(&o2), short(show(&given)));
                c.fail(P, "edited declaration does not re-parse", t);
                self.dead = true;
            }
        }
    }

    fn edit(&mut self, c: &mut Core, k: usize) -> Option<&'static str> {
        let kind = self.objs[k].n.kind();
        let data = is_data(&self.objs[k].n);
        let what = c.work.weighted(&[
            if data { 10 } else { 0 },
            if data { 6 } else { 0 },
            4,
            8,
            2,
            2,
            3,
            2,
            3,
            6,
        ]);
        match what {
            9 => self.parts(c, k, kind),
            0 => {
                let (n, p) = self.param(c)?;
                let o = &mut self.objs[k];
                let size = count(&o.n.tokens());
                let kk = c.draw_crash(4);
                if kk > 0 {
                    let (i, p) = (o.item.clone(), p.clone());
                    c.call_at("with_param", size, kk, || with_param(i, p));
                }
                let i = o.item.clone();
                match c.call("with_param", size, || with_param(i, p)) {
                    Out::Ok(i) => {
                        // the original of the copy is as it was
                        if let Some(d) = diff(&o.n, &observe::item(&o.item), EXACT) {
                            c.fail(&["C06", "C08"], "copy changed the original", d);
                        }
                        o.item = i;
                    }
                    x => {
                        c.fail(P, "with_param failed", x.what());
                        self.dead = true;
                        return None;
                    }
                }
                model_param(o.n.get_mut("generics"), n);
                Some("add parameter")
            }
            1 => {
                let (n, p) = self.pred(c)?;
                let o = &mut self.objs[k];
                let size = count(&o.n.tokens());
                let kk = c.draw_crash(4);
                if kk > 0 {
                    let (i, p) = (o.item.clone(), p.clone());
                    c.call_at("with_where_predicate", size, kk, || with_pred(i, p));
                }
                let i = o.item.clone();
                match c.call("with_where_predicate", size, || with_pred(i, p)) {
                    Out::Ok(i) => o.item = i,
                    x => {
                        c.fail(P, "with_where_predicate failed", x.what());
                        self.dead = true;
                        return None;
                    }
                }
                model_pred(o.n.get_mut("where"), n);
                Some("add predicate")
            }
            2 => {
                let o = &mut self.objs[k];
                let len = o.n.get("attrs").list().len();
                if len > 0 && c.work.chance(25) {
                    let i = c.work.below(len as u32) as usize;
                    o.item.attributes_mut().remove(i);
                    o.n.get_mut("attrs").list_mut().remove(i);
                    return Some("remove attribute");
                }
                let (n, a) = new_attr(c)?;
                let o = &mut self.objs[k];
                if len > 0 && c.work.chance(30) {
                    // the parts of one that is there
                    let i = c.work.below(len as u32) as usize;
                    let m = o.n.get_mut("attrs").list_mut()[i].get_mut("brackets").inner_mut();
                    let n = n.get("brackets").inner();
                    let x = o.item.attributes_mut().get_mut(i)?;
                    if c.work.chance(50) {
                        x.path = a.path;
                        *m.get_mut("path") = n.get("path").clone();
                    } else {
                        x.value = a.value;
                        *m.get_mut("value") = n.get("value").clone();
                    }
                    return Some("change attribute");
                }
                let i = c.work.below(len as u32 + 1) as usize;
                let v = o.item.attributes_mut();
                if v.len() != len {
                    c.fail(&["C09"], "attributes", format!("{} attributes, expected {len}", v.len()));
                    self.dead = true;
                    return None;
                }
                v.insert(i, a);
                o.n.get_mut("attrs").list_mut().insert(i, n);
                Some("add attribute")
            }
            3 => self.content(c, k, kind),
            4 => {
                // rename
                let o = &mut self.objs[k];
                if !o.n.has("name") || kind == "Macro" {
                    return None;
                }
                let t = id(*c.work.pick(&["Renamed", "r#type", "other"][..]));
                let ident = match to_tree(&t) {
                    TokenTree::Ident(i) => i,
                    _ => return None,
                };
                let f: &mut Ident = match &mut o.item {
                    Item::Struct(x) => &mut x.name,
                    Item::Enum(x) => &mut x.name,
                    Item::Union(x) => &mut x.name,
                    Item::Module(x) => &mut x.name,
                    Item::Trait(x) => &mut x.name,
                    Item::TypeAlias(x) => &mut x.name,
                    Item::Function(x) => &mut x.name,
                    Item::Constant(x) => &mut x.name,
                    _ => return None,
                };
                *f = ident;
                *o.n.get_mut("name") = N::T(t);
                Some("rename")
            }
            5 => {
                let o = &mut self.objs[k];
                if !o.n.has("vis") {
                    return None;
                }
                let f: &mut Option<VisMarker> = match &mut o.item {
                    Item::Struct(x) => &mut x.vis_marker,
                    Item::Enum(x) => &mut x.vis_marker,
                    Item::Union(x) => &mut x.vis_marker,
                    Item::Module(x) => &mut x.vis_marker,
                    Item::Trait(x) => &mut x.vis_marker,
                    Item::TypeAlias(x) => &mut x.vis_marker,
                    Item::Function(x) => &mut x.vis_marker,
                    Item::Constant(x) => &mut x.vis_marker,
                    _ => return None,
                };
                if c.work.chance(50) {
                    *f = None;
                    *o.n.get_mut("vis") = N::Nil;
                } else {
                    *f = Some(VisMarker {
                        tk_token1: TokenTree::Ident(Ident::new("pub", Span::call_site())),
                        tk_token2: None,
                    });
                    *o.n.get_mut("vis") = N::Rec("Vis", vec![("t1", N::T(id("pub"))), ("t2", N::Nil)]);
                }
                Some("visibility")
            }
            6 => {
                // a parameter through the list's own builder
                if !self.objs[k].n.has("generics") {
                    return None;
                }
                let (n, p) = self.param(c)?;
                let o = &mut self.objs[k];
                match o.item.generic_params_mut() {
                    Some(l) => {
                        if o.n.get("generics").is_nil() {
                            c.fail(&["C09"], "generic_params", "list where there is none".into());
                            self.dead = true;
                            return None;
                        }
                        let copy = l.clone();
                        match c.call("with_param", 8, || copy.with_param(p)) {
                            Out::Ok(x) => *l = x,
                            x => {
                                c.fail(P, "with_param failed", x.what());
                                self.dead = true;
                                return None;
                            }
                        }
                        model_param(o.n.get_mut("generics"), n);
                        Some("add parameter to list")
                    }
                    None => {
                        if !o.n.get("generics").is_nil() {
                            c.fail(&["C09"], "generic_params", "no list where there is one".into());
                            self.dead = true;
                            return None;
                        }
                        let list = match c.call("with_param", 8, || GenericParamList::default().with_param(p)) {
                            Out::Ok(x) => x,
                            _ => return None,
                        };
                        match &mut o.item {
                            Item::Struct(x) => x.generic_params = Some(list),
                            Item::Enum(x) => x.generic_params = Some(list),
                            Item::Union(x) => x.generic_params = Some(list),
                            Item::Trait(x) => x.generic_params = Some(list),
                            Item::Function(x) => x.generic_params = Some(list),
                            Item::Impl(x) => x.impl_generic_params = Some(list),
                            _ => return None,
                        }
                        model_param(o.n.get_mut("generics"), n);
                        Some("new parameter list")
                    }
                }
            }
            7 => {
                // remove a parameter or predicate
                let o = &mut self.objs[k];
                if o.n.has("generics") && !o.n.get("generics").is_nil() && c.work.chance(50) {
                    let m = o.n.get_mut("generics").get_mut("params");
                    remove(c, &mut o.item.generic_params_mut()?.params, m);
                    return Some("remove parameter");
                }
                if o.n.has("where") && !o.n.get("where").is_nil() {
                    let l = where_mut(&mut o.item)?.as_mut()?;
                    remove(c, &mut l.items, o.n.get_mut("where").get_mut("items"));
                    return Some("remove predicate");
                }
                None
            }
            _ => {
                // a predicate through the clause's own builder, on anything that has one
                if !self.objs[k].n.has("where") {
                    return None;
                }
                let (n, p) = self.pred(c)?;
                let o = &mut self.objs[k];
                let slot = where_mut(&mut o.item)?;
                let r = match slot.take() {
                    Some(x) => c.call("with_predicate", 8, || x.with_predicate(p)),
                    None => c.call("from_predicate", 8, || WhereClause::from_predicate(p)),
                };
                match r {
                    Out::Ok(x) => *slot = Some(x),
                    x => {
                        c.fail(P, "with_predicate failed", x.what());
                        self.dead = true;
                        return None;
                    }
                }
                model_pred(o.n.get_mut("where"), n);
                Some("add predicate to clause")
            }
        }
    }

    /// Parts of what is there, replaced by parts of something else.
    fn parts(&mut self, c: &mut Core, k: usize, kind: &str) -> Option<&'static str> {
        if c.work.chance(40) {
            // the name or the bound of a parameter, by one of the same kind
            let (n, p) = self.param(c)?;
            let o = &mut self.objs[k];
            if o.n.has("generics") && !o.n.get("generics").is_nil() {
                let m = o.n.get_mut("generics").get_mut("params").pn_mut();
                if m.is_empty() {
                    return None;
                }
                let i = c.work.below(m.len() as u32) as usize;
                let m = &mut m[i].0;
                let x = &mut o.item.generic_params_mut()?.params.inner.get_mut(i)?.0;
                if c.work.chance(40) {
                    x.name = p.name;
                    *m.get_mut("name") = n.get("name").clone();
                    return Some("rename parameter");
                }
                let kind = |n: &N| if n.get("prefix").is_nil() { 0 } else { 1 + n.get("prefix").text().len() };
                if kind(m) != kind(&n) {
                    *x = p;
                    *m = n;
                    return Some("replace parameter");
                }
                x.bound = p.bound;
                *m.get_mut("bound") = n.get("bound").clone();
                return Some("replace bound");
            }
            return None;
        }
        if c.work.chance(30) {
            let (n, p) = self.pred(c)?;
            let o = &mut self.objs[k];
            if o.n.has("where") && !o.n.get("where").is_nil() {
                let m = o.n.get_mut("where").get_mut("items").pn_mut();
                if m.is_empty() {
                    return None;
                }
                let i = c.work.below(m.len() as u32) as usize;
                let m = &mut m[i].0;
                let x = &mut where_mut(&mut o.item)?.as_mut()?.items.inner.get_mut(i)?.0;
                if c.work.chance(50) {
                    x.bound = p.bound;
                    *m.get_mut("bound") = n.get("bound").clone();
                } else {
                    x.left_side = p.left_side;
                    *m.get_mut("left") = n.get("left").clone();
                }
                return Some("change predicate");
            }
            return None;
        }
        match kind {
            "Struct" | "Union" => {
                let o = &self.objs[k];
                let tuple = match o.n.get("fields") {
                    N::Nil => return None,
                    f => f.kind() == "Tuple",
                };
                let len = o.n.get("fields").get("group").inner().pn().len();
                if len == 0 {
                    return None;
                }
                let i = c.work.below(len as u32) as usize;
                let part = c.work.below(4);
                if tuple {
                    let (n, f) = new_tfield(c)?;
                    let o = &mut self.objs[k];
                    let m = &mut o.n.get_mut("fields").get_mut("group").inner_mut().pn_mut()[i].0;
                    let x = match &mut o.item {
                        Item::Struct(Struct { fields: Fields::Tuple(t), .. }) => &mut t.fields.inner.get_mut(i)?.0,
                        _ => return None,
                    };
                    let (vis, ty) = match part {
                        0 => (m.get("vis"), n.get("ty")),
                        1 => (&N::Nil, n.get("ty")),
                        _ => (n.get("vis"), m.get("ty")),
                    };
                    if crate::gen::vis_clash(vis, &ty.tokens()) {
                        return None;
                    }
                    match part {
                        0 => {
                            x.ty = f.ty;
                            *m.get_mut("ty") = n.get("ty").clone();
                        }
                        1 => {
                            x.attributes = f.attributes;
                            *m.get_mut("attrs") = n.get("attrs").clone();
                        }
                        _ => {
                            x.vis_marker = f.vis_marker;
                            *m.get_mut("vis") = n.get("vis").clone();
                        }
                    }
                } else {
                    let (n, f) = new_nfield(c)?;
                    let o = &mut self.objs[k];
                    let m = &mut o.n.get_mut("fields").get_mut("group").inner_mut().pn_mut()[i].0;
                    let x = match &mut o.item {
                        Item::Struct(Struct { fields: Fields::Named(t), .. }) => &mut t.fields.inner.get_mut(i)?.0,
                        Item::Union(u) => &mut u.fields.fields.inner.get_mut(i)?.0,
                        _ => return None,
                    };
                    match part {
                        0 => {
                            x.ty = f.ty;
                            *m.get_mut("ty") = n.get("ty").clone();
                        }
                        1 => {
                            x.attributes = f.attributes;
                            *m.get_mut("attrs") = n.get("attrs").clone();
                        }
                        2 => {
                            x.name = f.name;
                            *m.get_mut("name") = n.get("name").clone();
                        }
                        _ => {
                            x.vis_marker = f.vis_marker;
                            *m.get_mut("vis") = n.get("vis").clone();
                        }
                    }
                }
                Some("change field")
            }
            "Enum" => {
                let len = self.objs[k].n.get("body").inner().pn().len();
                if len == 0 {
                    return None;
                }
                let i = c.work.below(len as u32) as usize;
                let (n, v) = new_variant(c)?;
                let o = &mut self.objs[k];
                let m = &mut o.n.get_mut("body").inner_mut().pn_mut()[i].0;
                let x = match &mut o.item {
                    Item::Enum(e) => &mut e.variants.inner.get_mut(i)?.0,
                    _ => return None,
                };
                match c.work.below(5) {
                    0 => {
                        x.name = v.name;
                        *m.get_mut("name") = n.get("name").clone();
                    }
                    1 => {
                        x.fields = v.fields;
                        *m.get_mut("fields") = n.get("fields").clone();
                    }
                    2 => {
                        x.attributes = v.attributes;
                        *m.get_mut("attrs") = n.get("attrs").clone();
                    }
                    3 => {
                        x.value = v.value;
                        *m.get_mut("value") = n.get("value").clone();
                    }
                    _ => {
                        x.vis_marker = v.vis_marker;
                        *m.get_mut("vis") = n.get("vis").clone();
                    }
                }
                Some("change variant")
            }
            "Fn" => {
                let n = part(c, |g| g.function(30, false));
                let f = match donor(c, &n.tokens())? {
                    Item::Function(f) => f,
                    _ => return None,
                };
                if !check_part(c, &n, observe::function(&f)) {
                    return None;
                }
                let o = &mut self.objs[k];
                let x = match &mut o.item {
                    Item::Function(x) => x,
                    _ => return None,
                };
                let m = &mut o.n;
                let mut take = |names: &[&str]| {
                    for a in names {
                        *m.get_mut(a) = n.get(a).clone();
                    }
                };
                match c.work.below(4) {
                    0 => {
                        x.tk_return_arrow = f.tk_return_arrow;
                        x.return_ty = f.return_ty;
                        take(&["arrow", "ret"]);
                    }
                    1 => {
                        x.qualifiers = f.qualifiers;
                        take(&["default", "const", "async", "unsafe", "extern", "abi"]);
                    }
                    2 => {
                        x.body = f.body;
                        x.tk_semicolon = f.tk_semicolon;
                        take(&["body", "semi"]);
                    }
                    _ => {
                        x.where_clause = f.where_clause;
                        x.generic_params = f.generic_params;
                        take(&["where", "generics"]);
                    }
                }
                Some("change function")
            }
            "Const" => {
                let n = part(c, |g| g.constant(true, 30));
                let f = match donor(c, &n.tokens())? {
                    Item::Constant(f) => f,
                    _ => return None,
                };
                if !check_part(c, &n, observe::constant(&f)) {
                    return None;
                }
                let o = &mut self.objs[k];
                let x = match &mut o.item {
                    Item::Constant(x) => x,
                    _ => return None,
                };
                if c.work.chance(50) {
                    x.ty = f.ty;
                    *o.n.get_mut("ty") = n.get("ty").clone();
                } else {
                    x.tk_equals = f.tk_equals;
                    x.initializer = f.initializer;
                    *o.n.get_mut("eq") = n.get("eq").clone();
                    *o.n.get_mut("init") = n.get("init").clone();
                }
                Some("change constant")
            }
            "Impl" | "Trait" | "ExternBlock" => {
                // members out of order, twice, or gone
                let o = &mut self.objs[k];
                let v = o.n.get_mut("body").inner_mut().get_mut("members").list_mut();
                if v.is_empty() {
                    return None;
                }
                let (i, j) = (c.work.below(v.len() as u32) as usize, c.work.below(v.len() as u32) as usize);
                let gone = c.work.chance(40);
                macro_rules! on {
                    ($l:expr) => {
                        if $l.len() != v.len() {
                            return None;
                        } else if gone {
                            $l.remove(i);
                        } else {
                            $l.swap(i, j);
                        }
                    };
                }
                match &mut o.item {
                    Item::Impl(b) => on!(b.body_items),
                    Item::ExternBlock(b) => on!(b.body_items),
                    Item::Trait(b) => on!(b.body_items),
                    _ => return None,
                }
                if gone {
                    v.remove(i);
                } else {
                    v.swap(i, j);
                }
                Some("rearrange members")
            }
            _ => None,
        }
    }

    /// Fields, variants, parameters, members.
    fn content(&mut self, c: &mut Core, k: usize, kind: &str) -> Option<&'static str> {
        let take = c.work.chance(15);
        match kind {
            "Struct" | "Union" => {
                if self.objs[k].n.get("fields").is_nil() {
                    return None;
                }
                let tuple = self.objs[k].n.get("fields").kind() == "Tuple";
                if take {
                    let o = &mut self.objs[k];
                    let m = o.n.get_mut("fields").get_mut("group").inner_mut();
                    match &mut o.item {
                        Item::Struct(Struct {
                            fields: Fields::Tuple(f),
                            ..
                        }) => remove(c, &mut f.fields, m),
                        Item::Struct(Struct {
                            fields: Fields::Named(f),
                            ..
                        }) => remove(c, &mut f.fields, m),
                        Item::Union(u) => remove(c, &mut u.fields.fields, m),
                        _ => return None,
                    }
                    return Some("remove field");
                }
                if tuple {
                    let (n, f) = new_tfield(c)?;
                    let o = &mut self.objs[k];
                    let m = o.n.get_mut("fields").get_mut("group").inner_mut();
                    match &mut o.item {
                        Item::Struct(Struct {
                            fields: Fields::Tuple(t),
                            ..
                        }) => add(c, &mut t.fields, m, f, n),
                        _ => return None,
                    }
                } else {
                    let (n, f) = new_nfield(c)?;
                    let o = &mut self.objs[k];
                    let m = o.n.get_mut("fields").get_mut("group").inner_mut();
                    match &mut o.item {
                        Item::Struct(Struct {
                            fields: Fields::Named(t),
                            ..
                        }) => add(c, &mut t.fields, m, f, n),
                        Item::Union(u) => add(c, &mut u.fields.fields, m, f, n),
                        _ => return None,
                    }
                }
                Some("add field")
            }
            "Enum" => {
                let e = self.objs[k].n.get("body").inner().pn().len();
                if e > 0 && c.work.chance(30) {
                    // give a variant a value, or take it away
                    let i = c.work.below(e as u32) as usize;
                    let o = &mut self.objs[k];
                    let v = match &mut o.item {
                        Item::Enum(x) => &mut x.variants[i].0,
                        _ => return None,
                    };
                    let m = o.n.get_mut("body").inner_mut().pn_mut()[i].0.get_mut("value");
                    if c.work.chance(50) {
                        v.value = None;
                        *m = N::Nil;
                    } else {
                        v.value = Some(EnumVariantValue {
                            tk_equal: Punct::new('=', Spacing::Alone),
                            value: TokenTree::Literal(Literal::u8_unsuffixed(7)),
                        });
                        *m = N::Rec("Value", vec![("eq", N::T(pa('='))), ("value", N::T(lit("7")))]);
                    }
                    return Some("discriminant");
                }
                if take {
                    let o = &mut self.objs[k];
                    match &mut o.item {
                        Item::Enum(x) => remove(c, &mut x.variants, o.n.get_mut("body").inner_mut()),
                        _ => return None,
                    }
                    return Some("remove variant");
                }
                let (n, v) = new_variant(c)?;
                let o = &mut self.objs[k];
                match &mut o.item {
                    Item::Enum(x) => add(c, &mut x.variants, o.n.get_mut("body").inner_mut(), v, n),
                    _ => return None,
                }
                Some("add variant")
            }
            "Fn" => {
                let (n, p) = new_fparam(c)?;
                let o = &mut self.objs[k];
                let m = o.n.get_mut("params").inner_mut();
                let receiver = m.pn().first().map_or(false, |(x, _)| {
                    x.kind() == "Receiver" || x.get("name").text() == "self"
                });
                match &mut o.item {
                    Item::Function(f) => {
                        if receiver {
                            // a receiver stays in front
                            let (t, q) = some_comma(c).unzip();
                            c.call("push", 4, || f.params.push(p, q));
                            m.push_elem(n, t);
                        } else {
                            add(c, &mut f.params, m, p, n);
                        }
                    }
                    _ => return None,
                }
                Some("add function parameter")
            }
            "Impl" | "Trait" | "ExternBlock" => {
                let (n, x) = new_member(c)?;
                let o = &mut self.objs[k];
                let v = o.n.get_mut("body").inner_mut().get_mut("members").list_mut();
                let i = c.work.below(v.len() as u32 + 1) as usize;
                match &mut o.item {
                    Item::Impl(b) => b.body_items.insert(i, x),
                    Item::ExternBlock(b) => b.body_items.insert(i, x),
                    Item::Trait(b) => {
                        // qualifiers that only impls have
                        if n.has("default") && !n.get("default").is_nil() {
                            return None;
                        }
                        b.body_items.insert(
                            i,
                            match x {
                                ImplMember::AssocFunction(f) => TraitMember::AssocFunction(f),
                                ImplMember::AssocConstant(f) => TraitMember::AssocConstant(f),
                                ImplMember::AssocType(f) => TraitMember::AssocType(f),
                                ImplMember::Macro(f) => TraitMember::Macro(f),
                                _ => return None,
                            },
                        )
                    }
                    _ => return None,
                }
                v.insert(i, n);
                Some("add member")
            }
            "Mod" => {
                if self.objs[k].n.get("body").is_nil() {
                    return None;
                }
                let n = part(c, |g| g.item(0));
                let item = donor(c, &n.tokens())?;
                if !check_part(c, &n, observe::item(&item)) {
                    return None;
                }
                let o = &mut self.objs[k];
                let v = o.n.get_mut("body").inner_mut().get_mut("members").list_mut();
                let i = c.work.below(v.len() as u32 + 1) as usize;
                match &mut o.item {
                    Item::Module(m) => m.members.insert(i, item),
                    _ => return None,
                }
                v.insert(i, n);
                Some("add item to module")
            }
            _ => None,
        }
    }
}

fn where_mut(i: &mut Item) -> Option<&mut Option<WhereClause>> {
    match i {
        Item::Struct(x) => Some(&mut x.where_clause),
        Item::Enum(x) => Some(&mut x.where_clause),
        Item::Union(x) => Some(&mut x.where_clause),
        Item::Trait(x) => Some(&mut x.where_clause),
        Item::Impl(x) => Some(&mut x.where_clause),
        Item::Function(x) => Some(&mut x.where_clause),
        _ => None,
    }
}

impl Session for Edit {
    fn step(&mut self, c: &mut Core) -> bool {
        if self.dead || self.steps == 0 {
            if !self.dead {
                for k in 0..self.objs.len() {
                    self.check(c, k, "at the end", &[]);
                }
            }
            return false;
        }
        self.steps -= 1;
        if self.objs.is_empty() {
            return self.start(c);
        }
        let k = c.work.below(self.objs.len() as u32) as usize;
        if c.work.below(400) == 399 {
            if let Some(what) = self.burst(c, k) {
                c.stats.add("bursts of edits", 1);
                c.say(|| format!("{k}: {what}"));
                self.check(c, k, what, &[]);
                if !self.dead {
                    queries::check(c, &self.objs[k].item, &self.objs[k].n);
                    queries::spans(c, &self.objs[k].item, &self.objs[k].n);
                }
            }
            return true;
        }
        match c.work.weighted(&[20, 6, 4, 8, 6, 2, 2]) {
            0 => {
                if count(&self.objs[k].n.tokens()) > 3000 {
                    return true;
                }
                let before = self.steps;
                if let Some(what) = self.edit(c, k) {
                    c.stats.add("edits", 1);
                    c.say(|| format!("{k}: {what}"));
                    self.check(c, k, what, &[]);
                }
                let _ = before;
            }
            1 => self.restart(c, k),
            2 => {
                if self.objs.len() < 3 {
                    let n = self.objs[k].n.clone();
                    let i = &self.objs[k].item;
                    let size = count(&n.tokens());
                    match c.call("copy", size, || i.clone()) {
                        Out::Ok(item) => self.objs.push(Obj { item, n }),
                        o => c.fail(P, "copy failed", o.what()),
                    }
                } else {
                    let j = c.work.below(self.objs.len() as u32) as usize;
                    self.check(c, j, "another object", &["C06"]);
                }
            }
            3 if c.cfg.prop == "C15" => {
                let ts = self.objs[k].n.tokens();
                crate::show::check(c, "edited item", &self.objs[k].item, count(&ts), &crate::show::words(&ts));
            }
            3 => queries::check(c, &self.objs[k].item, &self.objs[k].n),
            4 => queries::spans(c, &self.objs[k].item, &self.objs[k].n),
            6 => self.hollow(c, k),
            _ => {
                self.start(c);
                if self.objs.len() > 4 {
                    self.objs.remove(0);
                }
            }
        }
        true
    }
}

