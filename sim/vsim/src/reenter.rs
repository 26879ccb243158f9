//! What a caller's callback does when it uses the library while the library is calling it.

use crate::sched;
use crate::tok::{of_stream, show};
use proc_macro2::{Span, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::cell::Cell;
use venial::{consume_item, parse_item, Error, GenericParam, Punctuated, WhereClausePredicate};

thread_local! {
    static DONE: Cell<u64> = const { Cell::new(0) };
    static WRONG: Cell<u64> = const { Cell::new(0) };
}

pub const KINDS: u32 = 8;
/// Token operations that one use may take, as tokens of the call.
pub const COST: u64 = 250;

fn text(s: TokenStream) -> String {
    sched::outside(|| show(&of_stream(s)).replace('‿', " "))
}

fn uses(kind: u32) -> bool {
    match kind % KINDS {
        0 => {
            let mut e = Error::new("inner");
            e.combine(Error::new_at_span(Span::call_site(), "second"));
            e.combine(Error::new_at_tokens(quote!(a b), format_args!("{}", "third")));
            let mut copy = e.clone();
            copy.combine(Error::new(&e));
            let _ = e.span();
            text(copy.to_compile_error())
                == "compile_error ! { \"inner\" } compile_error ! { \"second\" } compile_error ! { \"third\" } compile_error ! { \"inner\" }"
                && text(e.to_compile_error()).matches("compile_error").count() == 3
                && e.to_string() == "inner"
                && format!("{copy:?}").matches("inner").count() == 2
        }
        1 => {
            let s = quote!(#[a::b(c)] pub(crate) struct A<T: B, const N: u8> where T: C { #[d = "e"] f: G<T>, h: [u8; N] });
            let t = text(s.clone());
            matches!(parse_item(s), Ok(i) if i.as_struct().is_some() && text(i.to_token_stream()) == t && format!("{i:?}").contains("\"N\""))
        }
        2 => {
            let s = quote!(enum A { B = 1, C = 2 + 3, D });
            let e = quote!(enum A { B = 1, C(u8), D { x: u8 } });
            let t = text(e.clone());
            matches!(parse_item(s), Err(e) if !e.to_string().is_empty())
                && matches!(parse_item(e), Ok(i) if text(i.to_token_stream()) == t)
        }
        3 => {
            let s = quote!(mod a { #![b] use c::d; impl<T> E for F<T> { const fn g(&mut self, h: u8) -> T {} } extern "C" { static I: u8; } } ; j);
            let mut cur = s.into_iter().peekable();
            let i = consume_item(&mut cur);
            let left: TokenStream = cur.collect();
            matches!(i, Ok(i) if i.as_module().map_or(false, |m| m.members.len() == 3)) && text(left) == "; j"
        }
        4 => {
            let u = match parse_item(quote!(union A<T> { b: T })) {
                Ok(i) => i.as_union().cloned(),
                _ => None,
            };
            let u = match u {
                Some(u) => u,
                None => return false,
            };
            let u = u
                .with_param(GenericParam::ty("U"))
                .with_param(GenericParam::lifetime("c"))
                .with_where_predicate(WhereClausePredicate::parse(quote!(U: D)));
            let w = u.create_derive_where_clause(quote!(E));
            text(u.to_token_stream()) == "union A < ' c , T , U > where U : D { b : T }"
                && text(w.to_token_stream()).starts_with("where ")
                && w.items.len() == 3
                && text(u.get_inline_generic_args().unwrap().to_owned_args().to_token_stream()) == "< ' c , T , U >"
        }
        5 => {
            let i = match parse_item(quote!(struct A(a::B<'c, D = e::F, 3>, &u8);)) {
                Ok(i) => i,
                _ => return false,
            };
            let types: Vec<_> = match i.as_struct() {
                Some(s) => s.field_types().into_iter().map(|t| t.as_path()).collect(),
                None => return false,
            };
            matches!(&types[..], [Some(p), None] if p.segments.len() == 2)
        }
        6 => {
            let mut l: Punctuated<TokenTree> = Punctuated::new();
            for t in quote!(a b c) {
                l.push(t, None);
            }
            let d = quote!(d).into_iter().next().unwrap();
            l.insert(1, d, None);
            text(l.to_token_stream()) == "a , d , b , c" && l.len() == 4
        }
        _ => {
            let i = match parse_item(quote!(pub async fn a<'b>(mut c: &'b D) -> impl E + 'b where F: G;)) {
                Ok(i) => i,
                _ => return false,
            };
            let f = match i.as_function() {
                Some(f) => f,
                None => return false,
            };
            let _ = (f.span(), i.span(), i.attributes().len());
            f.params.len() == 1 && f.where_clause.is_some() && format!("{f:#?}").contains("async")
        }
    }
}

/// Uses the library and counts whether it worked.
pub fn go(kind: u32) {
    let ok = uses(kind);
    let c = if ok { &DONE } else { &WRONG };
    c.with(|c| c.set(c.get() + 1));
}

/// Uses that worked and that did not, since the last time.
pub fn taken() -> (u64, u64) {
    (DONE.with(|c| c.replace(0)), WRONG.with(|c| c.replace(0)))
}
