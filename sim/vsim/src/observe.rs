//! Reads the public fields of the library's values into the model's form.

use crate::model::N;
use crate::tok::*;
use proc_macro2::{Ident, Literal, Punct, TokenTree};
use venial::*;

fn pt(x: &Punct) -> N {
    N::T(of_punct(x))
}
fn it(x: &Ident) -> N {
    N::T(of_ident(x))
}
fn opt<T>(x: &Option<T>, f: impl Fn(&T) -> N) -> N {
    match x {
        Some(x) => f(x),
        None => N::Nil,
    }
}
fn tt(x: &TokenTree) -> N {
    N::T(of_tree(x))
}
fn ts(x: &[TokenTree]) -> N {
    N::Ts(of_trees(x))
}
fn litn(x: &Literal) -> N {
    N::T(of_tree(&TokenTree::Literal(x.clone())))
}
fn grp(s: &GroupSpan, n: N) -> N {
    N::G(
        undelim(s.delimiter),
        proc_macro2::sim::raw(s.span),
        Box::new(n),
    )
}
pub fn punctuated<T>(x: &Punctuated<T>, f: impl Fn(&T) -> N) -> N {
    let n = x.inner.len();
    N::Pn(
        x.inner
            .iter()
            .enumerate()
            .map(|(i, (e, c))| {
                let skip = i + 1 == n && x.skip_last;
                (f(e), if skip { None } else { Some(of_punct(c)) })
            })
            .collect(),
    )
}

pub fn attr(a: &Attribute) -> N {
    let value = match &a.value {
        AttributeValue::Group(s, v) => N::Rec("Args", vec![("group", grp(s, ts(v)))]),
        AttributeValue::Equals(p, v) => N::Rec("Equals", vec![("eq", pt(p)), ("value", ts(v))]),
        AttributeValue::Empty => N::Nil,
    };
    N::Rec(
        "Attr",
        vec![
            ("hash", pt(&a.tk_hash)),
            ("bang", opt(&a.tk_bang, pt)),
            (
                "brackets",
                grp(
                    &a.tk_brackets,
                    N::Rec("Meta", vec![("path", ts(&a.path)), ("value", value)]),
                ),
            ),
        ],
    )
}
pub fn attrs(v: &[Attribute]) -> N {
    N::L(v.iter().map(attr).collect())
}
pub fn vis(v: &Option<VisMarker>) -> N {
    opt(v, vis1)
}
pub fn vis1(v: &VisMarker) -> N {
    N::Rec("Vis", vec![("t1", tt(&v.tk_token1)), ("t2", opt(&v.tk_token2, tt))])
}
pub fn bound(b: &GenericBound) -> N {
    N::Rec("Bound", vec![("colon", pt(&b.tk_colon)), ("tokens", ts(&b.tokens))])
}
pub fn gparam(p: &GenericParam) -> N {
    N::Rec(
        "GParam",
        vec![
            ("prefix", opt(&p.tk_prefix, tt)),
            ("name", it(&p.name)),
            ("bound", opt(&p.bound, bound)),
        ],
    )
}
pub fn glist(g: &GenericParamList) -> N {
    N::Rec(
        "GParams",
        vec![
            ("lt", pt(&g.tk_l_bracket)),
            ("params", punctuated(&g.params, gparam)),
            ("gt", pt(&g.tk_r_bracket)),
        ],
    )
}
pub fn pred(p: &WhereClausePredicate) -> N {
    N::Rec("Pred", vec![("left", ts(&p.left_side)), ("bound", bound(&p.bound))])
}
pub fn wclause(w: &WhereClause) -> N {
    N::Rec("Where", vec![("kw", it(&w.tk_where)), ("items", punctuated(&w.items, pred))])
}
pub fn ty(t: &TypeExpr) -> N {
    ts(&t.tokens)
}
pub fn tfield(f: &TupleField) -> N {
    N::Rec(
        "TField",
        vec![("attrs", attrs(&f.attributes)), ("vis", vis(&f.vis_marker)), ("ty", ty(&f.ty))],
    )
}
pub fn nfield(f: &NamedField) -> N {
    N::Rec(
        "NField",
        vec![
            ("attrs", attrs(&f.attributes)),
            ("vis", vis(&f.vis_marker)),
            ("name", it(&f.name)),
            ("colon", pt(&f.tk_colon)),
            ("ty", ty(&f.ty)),
        ],
    )
}
fn named(f: &NamedFields) -> N {
    N::Rec("Named", vec![("group", grp(&f.tk_braces, punctuated(&f.fields, nfield)))])
}
pub fn fields(f: &Fields) -> N {
    match f {
        Fields::Unit => N::Nil,
        Fields::Tuple(t) => {
            N::Rec("Tuple", vec![("group", grp(&t.tk_parens, punctuated(&t.fields, tfield)))])
        }
        Fields::Named(t) => named(t),
    }
}
pub fn vvalue(v: &EnumVariantValue) -> N {
    N::Rec("Value", vec![("eq", pt(&v.tk_equal)), ("value", tt(&v.value))])
}
pub fn variant(v: &EnumVariant) -> N {
    N::Rec(
        "Variant",
        vec![
            ("attrs", attrs(&v.attributes)),
            ("vis", vis(&v.vis_marker)),
            ("name", it(&v.name)),
            ("fields", fields(&v.fields)),
            ("value", opt(&v.value, vvalue)),
        ],
    )
}
pub fn lifetime(l: &Lifetime) -> N {
    N::Rec("Lifetime", vec![("apos", pt(&l.tk_apostrophe)), ("name", it(&l.name))])
}
pub fn fparam(p: &FnParam) -> N {
    match p {
        FnParam::Receiver(r) => N::Rec(
            "Receiver",
            vec![
                ("attrs", attrs(&r.attributes)),
                ("ref", opt(&r.tk_ref, pt)),
                ("lifetime", opt(&r.lifetime, lifetime)),
                ("mut", opt(&r.tk_mut, it)),
                ("self", it(&r.tk_self)),
            ],
        ),
        FnParam::Typed(t) => N::Rec(
            "Typed",
            vec![
                ("attrs", attrs(&t.attributes)),
                ("mut", opt(&t.tk_mut, it)),
                ("name", it(&t.name)),
                ("colon", pt(&t.tk_colon)),
                ("ty", ty(&t.ty)),
            ],
        ),
    }
}
pub fn strukt(s: &Struct) -> N {
    let mut v = vec![
        ("attrs", attrs(&s.attributes)),
        ("vis", vis(&s.vis_marker)),
        ("kw", it(&s.tk_struct)),
        ("name", it(&s.name)),
        ("generics", opt(&s.generic_params, glist)),
    ];
    let f = ("fields", fields(&s.fields));
    let w = ("where", opt(&s.where_clause, wclause));
    if matches!(s.fields, Fields::Named(_)) {
        v.extend([w, f]);
    } else {
        v.extend([f, w]);
    }
    v.push(("semi", opt(&s.tk_semicolon, pt)));
    N::Rec("Struct", v)
}
pub fn enumm(s: &Enum) -> N {
    N::Rec(
        "Enum",
        vec![
            ("attrs", attrs(&s.attributes)),
            ("vis", vis(&s.vis_marker)),
            ("kw", it(&s.tk_enum)),
            ("name", it(&s.name)),
            ("generics", opt(&s.generic_params, glist)),
            ("where", opt(&s.where_clause, wclause)),
            ("body", grp(&s.tk_braces, punctuated(&s.variants, variant))),
        ],
    )
}
pub fn union(s: &Union) -> N {
    N::Rec(
        "Union",
        vec![
            ("attrs", attrs(&s.attributes)),
            ("vis", vis(&s.vis_marker)),
            ("kw", it(&s.tk_union)),
            ("name", it(&s.name)),
            ("generics", opt(&s.generic_params, glist)),
            ("where", opt(&s.where_clause, wclause)),
            ("fields", named(&s.fields)),
        ],
    )
}
pub fn constant(c: &Constant) -> N {
    N::Rec(
        "Const",
        vec![
            ("attrs", attrs(&c.attributes)),
            ("vis", vis(&c.vis_marker)),
            ("kw", it(&c.tk_const_or_static)),
            ("mut", opt(&c.tk_mut, it)),
            ("name", it(&c.name)),
            ("colon", pt(&c.tk_colon)),
            ("ty", ty(&c.ty)),
            ("eq", opt(&c.tk_equals, pt)),
            ("init", opt(&c.initializer, |v| ts(&v.tokens))),
            ("semi", pt(&c.tk_semicolon)),
        ],
    )
}
pub fn alias(c: &TypeAlias) -> N {
    N::Rec(
        "Alias",
        vec![
            ("attrs", attrs(&c.attributes)),
            ("vis", vis(&c.vis_marker)),
            ("kw", it(&c.tk_type)),
            ("name", it(&c.name)),
            ("bound", opt(&c.bound, bound)),
            ("eq", opt(&c.tk_equals, pt)),
            ("init", opt(&c.initializer_ty, ty)),
            ("semi", pt(&c.tk_semicolon)),
        ],
    )
}
pub fn function(f: &Function) -> N {
    let q = &f.qualifiers;
    N::Rec(
        "Fn",
        vec![
            ("attrs", attrs(&f.attributes)),
            ("vis", vis(&f.vis_marker)),
            ("default", opt(&q.tk_default, it)),
            ("const", opt(&q.tk_const, it)),
            ("async", opt(&q.tk_async, it)),
            ("unsafe", opt(&q.tk_unsafe, it)),
            ("extern", opt(&q.tk_extern, it)),
            ("abi", opt(&q.extern_abi, litn)),
            ("kw", it(&f.tk_fn_keyword)),
            ("name", it(&f.name)),
            ("generics", opt(&f.generic_params, glist)),
            ("params", grp(&f.tk_params_parens, punctuated(&f.params, fparam))),
            (
                "arrow",
                opt(&f.tk_return_arrow, |a| N::Ts(vec![of_punct(&a[0]), of_punct(&a[1])])),
            ),
            ("ret", opt(&f.return_ty, ty)),
            ("where", opt(&f.where_clause, wclause)),
            ("body", opt(&f.body, |g| N::T(of_tree(&TokenTree::Group(g.clone()))))),
            ("semi", opt(&f.tk_semicolon, pt)),
        ],
    )
}
pub fn macr(m: &Macro) -> N {
    N::Rec(
        "Macro",
        vec![
            ("attrs", attrs(&m.attributes)),
            ("name", it(&m.name)),
            ("bang", pt(&m.tk_bang)),
            ("declared", opt(&m.tk_declared_name, it)),
            ("body", grp(&m.tk_braces_or_parens, ts(&m.inner_tokens))),
            ("semi", opt(&m.tk_semicolon, pt)),
        ],
    )
}
pub fn impl_member(m: &ImplMember) -> N {
    match m {
        ImplMember::AssocFunction(x) => function(x),
        ImplMember::AssocConstant(x) => constant(x),
        ImplMember::AssocType(x) => alias(x),
        ImplMember::Macro(x) => macr(x),
        _ => N::Rec("UnknownMember", vec![]),
    }
}
fn trait_member(m: &TraitMember) -> N {
    match m {
        TraitMember::AssocFunction(x) => function(x),
        TraitMember::AssocConstant(x) => constant(x),
        TraitMember::AssocType(x) => alias(x),
        TraitMember::Macro(x) => macr(x),
        _ => N::Rec("UnknownMember", vec![]),
    }
}
fn body(inner: &[Attribute], members: Vec<N>) -> N {
    N::Rec("Body", vec![("inner", attrs(inner)), ("members", N::L(members))])
}
pub fn item(i: &Item) -> N {
    match i {
        Item::Struct(x) => strukt(x),
        Item::Enum(x) => enumm(x),
        Item::Union(x) => union(x),
        Item::Module(x) => N::Rec(
            "Mod",
            vec![
                ("attrs", attrs(&x.attributes)),
                ("vis", vis(&x.vis_marker)),
                ("unsafe", opt(&x.tk_unsafe, it)),
                ("kw", it(&x.tk_mod)),
                ("name", it(&x.name)),
                ("semi", opt(&x.tk_semicolon, pt)),
                (
                    "body",
                    match &x.tk_braces {
                        Some(s) => {
                            grp(s, body(&x.inner_attributes, x.members.iter().map(item).collect()))
                        }
                        None if x.inner_attributes.is_empty() && x.members.is_empty() => N::Nil,
                        None => body(&x.inner_attributes, x.members.iter().map(item).collect()),
                    },
                ),
            ],
        ),
        Item::Trait(x) => N::Rec(
            "Trait",
            vec![
                ("attrs", attrs(&x.attributes)),
                ("vis", vis(&x.vis_marker)),
                ("unsafe", opt(&x.tk_unsafe, it)),
                ("kw", it(&x.tk_trait)),
                ("name", it(&x.name)),
                ("generics", opt(&x.generic_params, glist)),
                ("bound", opt(&x.bound, bound)),
                ("where", opt(&x.where_clause, wclause)),
                (
                    "body",
                    grp(
                        &x.tk_braces,
                        body(&x.inner_attributes, x.body_items.iter().map(trait_member).collect()),
                    ),
                ),
            ],
        ),
        Item::Impl(x) => N::Rec(
            "Impl",
            vec![
                ("attrs", attrs(&x.attributes)),
                ("unsafe", opt(&x.tk_unsafe, it)),
                ("kw", it(&x.tk_impl)),
                ("generics", opt(&x.impl_generic_params, glist)),
                ("trait", opt(&x.trait_ty, ty)),
                ("for", opt(&x.tk_for, it)),
                ("self", ty(&x.self_ty)),
                ("where", opt(&x.where_clause, wclause)),
                (
                    "body",
                    grp(
                        &x.tk_braces,
                        body(&x.inner_attributes, x.body_items.iter().map(impl_member).collect()),
                    ),
                ),
            ],
        ),
        Item::TypeAlias(x) => alias(x),
        Item::Function(x) => function(x),
        Item::Constant(x) => constant(x),
        Item::UseDeclaration(x) => N::Rec(
            "Use",
            vec![
                ("attrs", attrs(&x.attributes)),
                ("vis", vis(&x.vis_marker)),
                ("kw", it(&x.tk_use)),
                ("tree", ty(&x.import_tree)),
                ("semi", pt(&x.tk_semicolon)),
            ],
        ),
        Item::Macro(x) => macr(x),
        Item::ExternBlock(x) => N::Rec(
            "ExternBlock",
            vec![
                ("attrs", attrs(&x.attributes)),
                ("vis", vis(&x.vis_marker)),
                ("unsafe", opt(&x.tk_unsafe, it)),
                ("kw", it(&x.tk_extern)),
                ("abi", opt(&x.extern_abi, litn)),
                (
                    "body",
                    grp(
                        &x.tk_braces,
                        body(&x.inner_attributes, x.body_items.iter().map(impl_member).collect()),
                    ),
                ),
            ],
        ),
        Item::ExternCrate(x) => N::Rec(
            "ExternCrate",
            vec![
                ("attrs", attrs(&x.attributes)),
                ("vis", vis(&x.vis_marker)),
                ("kw", it(&x.tk_extern)),
                ("crate", it(&x.tk_crate)),
                ("name", it(&x.name)),
                ("as", opt(&x.tk_as, it)),
                // `as _`: either field may hold the underscore
                ("alias", N::L(x.alias.iter().chain(&x.tk_underscore).map(it).collect())),
                ("semi", pt(&x.tk_semicolon)),
            ],
        ),
        _ => N::Rec("UnknownItem", vec![]),
    }
}
pub fn garg(a: &GenericArg) -> N {
    match a {
        GenericArg::Lifetime { lifetime: l } => lifetime(l),
        GenericArg::Binding {
            ident,
            tk_equals,
            ty: t,
        } => N::Rec("Binding", vec![("name", it(ident)), ("eq", pt(tk_equals)), ("ty", ty(t))]),
        GenericArg::TypeOrConst { expr } => N::Rec("Arg", vec![("ty", ty(expr))]),
    }
}
fn colons(c: &Option<[Punct; 2]>) -> N {
    opt(c, |c| N::Ts(vec![of_punct(&c[0]), of_punct(&c[1])]))
}
pub fn gargs(a: &GenericArgList) -> N {
    N::Rec(
        "GArgs",
        vec![
            ("turbofish", colons(&a.tk_turbofish_colons)),
            ("lt", pt(&a.tk_l_bracket)),
            ("args", punctuated(&a.args, garg)),
            ("gt", pt(&a.tk_r_bracket)),
        ],
    )
}
pub fn path(p: &Path) -> N {
    N::L(p.segments
        .iter()
        .map(|s| {
            N::Rec(
                "Seg",
                vec![
                    ("sep", colons(&s.tk_separator_colons)),
                    ("name", it(&s.ident)),
                    ("args", opt(&s.generic_args, gargs)),
                ],
            )
        })
        .collect())
}
