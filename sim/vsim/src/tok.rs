//! Tokens of the model, and their conversion to and from the real ones.

use proc_macro2::{sim, Delimiter, Group, Ident, Punct, Spacing, Span, TokenStream, TokenTree};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum D {
    Paren,
    Brace,
    Bracket,
    Hidden,
}

pub fn delim(d: D) -> Delimiter {
    match d {
        D::Paren => Delimiter::Parenthesis,
        D::Brace => Delimiter::Brace,
        D::Bracket => Delimiter::Bracket,
        D::Hidden => Delimiter::None,
    }
}

pub fn undelim(d: Delimiter) -> D {
    match d {
        Delimiter::Parenthesis => D::Paren,
        Delimiter::Brace => D::Brace,
        Delimiter::Bracket => D::Bracket,
        Delimiter::None => D::Hidden,
    }
}

pub type Sp = (u32, u32);
pub const CALL_SITE: Sp = (0, 0);

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum K {
    Id(String),
    /// Punctuation: character, joint.
    P(char, bool),
    Lit(String),
    G(D, Vec<Tk>),
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Tk {
    pub k: K,
    pub sp: Sp,
    /// The token source may report either spacing (only while a document is made).
    pub free: bool,
}

pub fn tk(k: K) -> Tk {
    Tk {
        k,
        sp: CALL_SITE,
        free: false,
    }
}
pub fn id(s: &str) -> Tk {
    tk(K::Id(s.to_string()))
}
pub fn lit(s: &str) -> Tk {
    tk(K::Lit(s.to_string()))
}
/// Punctuation whose spacing carries no meaning here.
pub fn p(c: char) -> Tk {
    Tk {
        k: K::P(c, false),
        sp: CALL_SITE,
        free: true,
    }
}
/// First character of a longer operator or of a lifetime.
pub fn pj(c: char) -> Tk {
    tk(K::P(c, true))
}
pub fn pa(c: char) -> Tk {
    tk(K::P(c, false))
}
pub fn g(d: D, ts: Vec<Tk>) -> Tk {
    tk(K::G(d, ts))
}
/// An operator spelled `s`.
pub fn op(s: &str) -> Vec<Tk> {
    let cs: Vec<char> = s.chars().collect();
    let n = cs.len();
    cs.into_iter()
        .enumerate()
        .map(|(i, c)| if i + 1 < n { pj(c) } else { p(c) })
        .collect()
}

impl Tk {
    pub fn is_p(&self, c: char) -> bool {
        matches!(&self.k, K::P(x, _) if *x == c)
    }
    pub fn is_id(&self, s: &str) -> bool {
        matches!(&self.k, K::Id(x) if x == s)
    }
    pub fn is_group(&self, d: D) -> bool {
        matches!(&self.k, K::G(x, _) if *x == d)
    }
    fn width(&self) -> u32 {
        match &self.k {
            K::Id(s) | K::Lit(s) => s.chars().count() as u32,
            _ => 1,
        }
    }
}

pub fn count(ts: &[Tk]) -> u64 {
    ts.iter()
        .map(|t| match &t.k {
            K::G(_, inner) => 1 + count(inner),
            _ => 1,
        })
        .sum()
}

pub fn has_hidden(ts: &[Tk]) -> bool {
    ts.iter().any(|t| match &t.k {
        K::G(d, inner) => *d == D::Hidden || has_hidden(inner),
        _ => false,
    })
}

pub fn span_of(sp: Sp) -> Span {
    if sp == CALL_SITE {
        Span::call_site()
    } else {
        sim::span(sp.0, sp.1)
    }
}

pub fn to_tree(t: &Tk) -> TokenTree {
    let span = span_of(t.sp);
    match &t.k {
        K::Id(s) => {
            let ident = match s.strip_prefix("r#") {
                Some(raw) => Ident::new_raw(raw, span),
                None => Ident::new(s, span),
            };
            TokenTree::Ident(ident)
        }
        K::P(c, joint) => {
            let mut x = Punct::new(*c, if *joint { Spacing::Joint } else { Spacing::Alone });
            x.set_span(span);
            TokenTree::Punct(x)
        }
        K::Lit(s) => {
            let mut x = sim::literal(s);
            x.set_span(span);
            TokenTree::Literal(x)
        }
        K::G(d, inner) => {
            let mut x = Group::new(delim(*d), to_stream(inner));
            x.set_span(span);
            TokenTree::Group(x)
        }
    }
}

pub fn to_trees(ts: &[Tk]) -> Vec<TokenTree> {
    ts.iter().map(to_tree).collect()
}

pub fn to_stream(ts: &[Tk]) -> TokenStream {
    ts.iter().map(to_tree).collect()
}

pub fn of_punct(x: &Punct) -> Tk {
    Tk {
        k: K::P(x.as_char(), x.spacing() == Spacing::Joint),
        sp: sim::raw(x.span()),
        free: false,
    }
}

pub fn of_ident(x: &Ident) -> Tk {
    Tk {
        k: K::Id(x.to_string()),
        sp: sim::raw(x.span()),
        free: false,
    }
}

pub fn of_tree(t: &TokenTree) -> Tk {
    match t {
        TokenTree::Ident(x) => of_ident(x),
        TokenTree::Punct(x) => of_punct(x),
        TokenTree::Literal(x) => Tk {
            k: K::Lit(x.to_string()),
            sp: sim::raw(x.span()),
            free: false,
        },
        TokenTree::Group(x) => Tk {
            k: K::G(undelim(x.delimiter()), of_stream(x.stream())),
            sp: sim::raw(x.span()),
            free: false,
        },
    }
}

pub fn of_trees(ts: &[TokenTree]) -> Vec<Tk> {
    ts.iter().map(of_tree).collect()
}

pub fn of_stream(ts: TokenStream) -> Vec<Tk> {
    ts.into_iter().map(|t| of_tree(&t)).collect()
}

/// What two token sequences are compared by.
#[derive(Clone, Copy)]
pub struct Cmp {
    pub spans: bool,
    pub spacing: bool,
}
pub const EXACT: Cmp = Cmp {
    spans: true,
    spacing: true,
};
pub const CONTENT: Cmp = Cmp {
    spans: false,
    spacing: false,
};

pub fn same_tk(a: &Tk, b: &Tk, c: Cmp) -> bool {
    if c.spans && a.sp != b.sp {
        return false;
    }
    match (&a.k, &b.k) {
        (K::Id(x), K::Id(y)) => x == y,
        (K::Lit(x), K::Lit(y)) => x == y,
        (K::P(x, i), K::P(y, j)) => x == y && (!c.spacing || i == j),
        (K::G(x, i), K::G(y, j)) => x == y && same(i, j, c),
        _ => false,
    }
}

pub fn same(a: &[Tk], b: &[Tk], c: Cmp) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_tk(x, y, c))
}

pub fn show_tk(t: &Tk, spans: bool, out: &mut String) {
    match &t.k {
        K::Id(s) | K::Lit(s) => out.push_str(s),
        K::P(c, joint) => {
            out.push(*c);
            if *joint {
                out.push('\u{203f}');
            }
        }
        K::G(d, inner) => {
            let (o, c) = match d {
                D::Paren => ("(", ")"),
                D::Brace => ("{", "}"),
                D::Bracket => ("[", "]"),
                D::Hidden => ("\u{ab}", "\u{bb}"),
            };
            out.push_str(o);
            if !inner.is_empty() {
                out.push(' ');
                show_into(inner, spans, out);
                out.push(' ');
            }
            out.push_str(c);
        }
    }
    if spans {
        if t.sp == CALL_SITE {
            out.push_str("@call");
        } else {
            out.push_str(&format!("@{}..{}", t.sp.0, t.sp.1));
        }
    }
}

fn show_into(ts: &[Tk], spans: bool, out: &mut String) {
    for (i, t) in ts.iter().enumerate() {
        if i > 0 && !(!spans && matches!(ts[i - 1].k, K::P(_, true))) {
            out.push(' ');
        }
        show_tk(t, spans, out);
    }
}

/// `‿` marks joint punctuation, `«»` invisible groups.
pub fn show(ts: &[Tk]) -> String {
    let mut s = String::new();
    show_into(ts, false, &mut s);
    s
}

pub fn show_spans(ts: &[Tk]) -> String {
    let mut s = String::new();
    show_into(ts, true, &mut s);
    s
}

/// How a token source reports spacing that carries no meaning.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Spacer {
    Alone,
    Adjacent,
    Random(u64),
}

/// Decides free spacing and gives every token its own place in the source.
pub fn deliver(ts: &mut [Tk], spacer: &mut Spacer, at: &mut u32) {
    for i in 0..ts.len() {
        let next_is_punct = match ts.get(i + 1).map(|t| &t.k) {
            Some(K::P(c, _)) => Some(*c),
            _ => None,
        };
        let t = &mut ts[i];
        if let K::P(c, joint) = &mut t.k {
            if t.free {
                let may = match next_is_punct {
                    Some(n) => !(*c == ':' && n == ':') && !(*c == '/' && (n == '/' || n == '*')),
                    None => false,
                };
                *joint = may
                    && match spacer {
                        Spacer::Alone => false,
                        Spacer::Adjacent => true,
                        Spacer::Random(s) => {
                            *s = crate::tape::mix(s.wrapping_add(0x9E37_79B9_7F4A_7C15));
                            *s & 1 == 1
                        }
                    };
            }
        }
        t.free = false;
        let lo = *at;
        if let K::G(_, inner) = &mut t.k {
            *at += 2;
            deliver(inner, spacer, at);
            *at += 1;
            t.sp = (lo, *at);
        } else {
            let w = t.width();
            *at += w;
            t.sp = (lo, *at);
        }
        *at += 1;
    }
}
