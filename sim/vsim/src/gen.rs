//! Generates declarations as model trees. Everything made here is a supported
//! declaration unless a function says otherwise.

use crate::model::N;
use crate::tape::Tape;
use crate::tok::*;

/// Swarm knobs: 0 off, 1 rare, 2 often.
#[derive(Clone, Debug)]
pub struct Knobs {
    pub attrs: u8,
    pub vis: u8,
    pub generics: u8,
    pub wheres: u8,
    pub hidden: u8,
    pub odd_names: u8,
    pub rich_types: u8,
    pub trailing: u8,
    pub members: u8,
    pub nesting: u8,
    pub long: u8,
    pub ops: u8,
    pub quals: u8,
    /// Which item kinds are made (weights).
    pub kinds: [u32; 13],
    pub size: i32,
}

impl Knobs {
    pub fn draw(t: &mut Tape) -> Self {
        let mut l = || [1u8, 2, 1, 0, 2, 1][t.below(6) as usize];
        let mut k = Knobs {
            attrs: l(),
            vis: l(),
            generics: l(),
            wheres: l(),
            hidden: l(),
            odd_names: l(),
            rich_types: l(),
            trailing: l(),
            members: l(),
            nesting: l(),
            long: 0,
            ops: l(),
            quals: l(),
            kinds: [4, 4, 2, 2, 3, 3, 2, 4, 3, 2, 2, 2, 1],
            size: 0,
        };
        k.long = (t.below(12) == 11) as u8;
        k.size = [60, 25, 120, 300][t.below(4) as usize];
        if t.chance(30) {
            // a run about few kinds
            for i in 0..13 {
                if t.chance(60) {
                    k.kinds[i] = 0;
                }
            }
            if k.kinds.iter().all(|x| *x == 0) {
                k.kinds[0] = 1;
            }
        }
        k
    }
}

pub struct Gen<'a> {
    pub t: &'a mut Tape,
    pub k: &'a Knobs,
    pub budget: i32,
}

const NAMES: &[&str] = &[
    "a", "b", "c", "Foo", "Bar", "x", "y", "name", "value", "T1", "Item", "inner", "len", "Node",
];
const ODD: &[&str] = &[
    "r#struct", "r#type", "r#fn", "r#where", "union", "default", "auto", "é", "变量", "_x", "__",
    "r#for", "macro_rules", "safe", "raw", "dyn_", "r#const", "static_", "r#pub", "r#crate_",
    "Self_", "r#enum", "in_", "r#self_", "r#in", "r#mut", "r#union", "gen", "r#async",
];
const KEYWORDS: &[&str] = &[
    "abstract", "as", "async", "await", "become", "box", "break", "const", "continue", "default", "do", "dyn", "else",
    "enum", "extern", "false", "final", "fn", "for", "if", "impl", "in", "let", "loop", "macro", "match", "mod",
    "move", "mut", "override", "priv", "pub", "ref", "return", "static", "struct", "trait", "true", "try", "type",
    "typeof", "union", "unsafe", "unsized", "use", "virtual", "where", "while", "yield", "auto", "macro_rules",
];
const ABIS: &[&str] = &[
    "\"C\"", "\"system\"", "r\"C\"", "r#\"Rust\"#", "\"\"", "\"Rust\"", "\"C-unwind\"", "\"rust-intrinsic\"", "\"x\\n\"", "r##\"\"##",
];
const TYPES: &[&str] = &["u8", "String", "T", "Self", "Foo", "usize", "X"];
const LIFETIMES: &[&str] = &["a", "b", "static", "_", "de", "r", "A"];
const LITS: &[&str] = &[
    "1", "0", "42u8", "0x1F", "1.5", "1e9", "\"s\"", "\"a;b{c\"", "'c'", "b\"x\"", "r\"raw\"",
    "r#\"r\"#", "'\\''", "\"\\\"\"", "1_000i64", "b'x'", "\"\"", "0b1", "1.", "c\"x\"", "\"é\"",
    "2f32", "'>'", "\">\"",
];

pub fn colon2() -> Vec<Tk> {
    vec![pj(':'), p(':')]
}
pub fn arrow() -> Vec<Tk> {
    vec![pj('-'), p('>')]
}
pub fn lifetime_toks(name: &str) -> Vec<Tk> {
    vec![pj('\''), id(name)]
}

impl<'a> Gen<'a> {
    pub fn new(t: &'a mut Tape, k: &'a Knobs) -> Self {
        let budget = k.size;
        Gen { t, k, budget }
    }

    fn lvl(&mut self, l: u8) -> bool {
        match l {
            0 => false,
            1 => self.t.chance(12),
            _ => self.t.chance(45),
        }
    }
    fn spend(&mut self, n: i32) -> bool {
        self.budget -= n;
        self.budget > 0
    }
    pub fn name(&mut self) -> Tk {
        if self.lvl(self.k.odd_names) {
            if self.t.chance(15) {
                return self.free_name();
            }
            if self.t.chance(25) {
                // the raw name of a keyword, or one that contains a keyword
                let k = *self.t.pick(KEYWORDS);
                return id(&match self.t.below(6) {
                    0 => format!("{k}_"),
                    1 => format!("_{k}"),
                    2 => k.to_uppercase(),
                    _ => format!("r#{k}"),
                });
            }
            id(self.t.pick(ODD))
        } else {
            id(self.t.pick(NAMES))
        }
    }
    /// A name that is not a contextual keyword in the position of an item.
    pub fn plain_name(&mut self) -> Tk {
        if self.k.odd_names > 1 && self.t.chance(3) {
            return self.free_name();
        }
        id(self.t.pick(NAMES))
    }
    /// Any name of any length; never a keyword.
    fn free_name(&mut self) -> Tk {
        const FIRST: &[&str] = &["q", "Q", "_", "ß", "名", "Z_"];
        const REST: &[&str] = &["a", "Z", "0", "9", "_", "é", "x1", "变", "struct", "__", "T", "fn"];
        let n = match self.t.below(4) {
            0 => 12 + self.t.below(60),
            1 => 100 + self.t.below(200),
            _ => 1 + self.t.below(6),
        };
        let mut s = self.t.pick(FIRST).to_string();
        if n > 20 {
            let (a, b) = (*self.t.pick(REST), *self.t.pick(REST));
            for i in 0..n / 2 {
                s += if i % 2 == 0 { a } else { b };
            }
        } else {
            for _ in 0..n {
                s += *self.t.pick(REST);
            }
        }
        id(&s)
    }
    pub fn lifetime(&mut self) -> Vec<Tk> {
        if self.k.odd_names > 1 && self.t.chance(3) {
            if let K::Id(s) = &self.free_name().k {
                return lifetime_toks(s);
            }
        }
        let n = *self.t.pick(LIFETIMES);
        lifetime_toks(n)
    }
    pub fn literal(&mut self) -> Tk {
        if self.k.odd_names > 1 && self.t.chance(4) {
            let n = 1 + self.t.below(400) as usize;
            return match self.t.below(3) {
                0 => lit(&format!("\"{}\"", "long ; { text ".repeat(n / 10 + 1))),
                1 => lit(&"7".repeat(n)),
                _ => lit(&format!("r##\"{}\"##", "x\"#".repeat(n / 20 + 1))),
            };
        }
        if self.t.chance(20) {
            return lit(&self.made_literal());
        }
        lit(self.t.pick(LITS))
    }
    /// A literal put together from parts.
    fn made_literal(&mut self) -> String {
        const ESC: &[&str] = &[
            "a", " ", "\\n", "\\t", "\\r", "\\0", "\\\\", "\\\"", "\\'", "\\x41", "{", "}", "//", "/*", "<", ";", "#", "0", "_",
        ];
        const UNI: &[&str] = &["é", "变", "\\u{1F600}", "\\u{0}", "\n", "\\\n  ", "😀"];
        let body = |g: &mut Self, uni: bool| {
            let mut s = String::new();
            for _ in 0..g.t.small(6) {
                if uni && g.t.chance(20) {
                    s += *g.t.pick(UNI);
                } else {
                    s += *g.t.pick(ESC);
                }
            }
            s
        };
        match self.t.below(9) {
            0..=2 => {
                let base = *self.t.pick(&["", "", "0x", "0o", "0b"]);
                let digits: &[&str] = match base {
                    "0x" => &["0", "1", "f", "A", "9", "_", "c"],
                    "0o" => &["0", "7", "1", "_"],
                    "0b" => &["0", "1", "_"],
                    _ => &["0", "1", "9", "_", "5"],
                };
                let mut s = base.to_string() + ["0", "1"][self.t.below(2) as usize];
                for _ in 0..self.t.small(9) {
                    s += *self.t.pick(digits);
                }
                s + *self.t.pick(&["", "", "u8", "i64", "usize", "_u32", "i128"])
            }
            3 => {
                let mut s = ["0", "1", "12_3", "00"][self.t.below(4) as usize].to_string();
                match self.t.below(3) {
                    0 => s += ".0",
                    1 => s += *self.t.pick(&["e5", "E+3", "e-7", ".5e1_0"]),
                    _ => s += *self.t.pick(&[".5_0", ".0f64", "f32", ".25f32"]),
                }
                s
            }
            4 => format!("\"{}\"", body(self, true)),
            5 => format!("b\"{}\"", body(self, false)),
            6 => {
                let h = "#".repeat(self.t.below(4) as usize);
                let inner = *self.t.pick(&["", "a", "\\", "é\n", "a b", "\\n", "{", "//"]);
                format!("{}r{h}\"{}\"{h}", if self.t.chance(25) && inner.is_ascii() { "b" } else { "" }, inner)
            }
            7 => format!(
                "'{}'",
                *self.t.pick(&["a", "_", "\\n", "\\'", "\"", "\\\\", "é", "\\u{7f}", "\\x7f", " ", "{", "0"])
            ),
            _ => format!("b'{}'", *self.t.pick(&["a", "\\n", "\\'", "\"", "\\xff", " ", "\\\\"])),
        }
    }
    /// Elements of a list: how many.
    fn how_many(&mut self) -> u32 {
        if self.budget <= 0 {
            return self.t.below(2);
        }
        if self.k.long > 0 && self.t.chance(20) {
            return match self.t.below(8) {
                0 => 90 + self.t.below(200),
                _ => 20 + self.t.below(60),
            };
        }
        match self.k.members {
            0 => self.t.below(2),
            1 if self.t.chance(6) => 4 + self.t.below(6),
            1 => self.t.below(4),
            _ if self.t.chance(12) => 7 + self.t.below(14),
            _ => self.t.below(7),
        }
    }
    fn comma_list(&mut self, elems: Vec<N>) -> N {
        let n = elems.len();
        let trailing = self.lvl(self.k.trailing);
        N::Pn(
            elems
                .into_iter()
                .enumerate()
                .map(|(i, e)| (e, (i + 1 < n || trailing).then(|| p(','))))
                .collect(),
        )
    }

    // --- opaque token material ---

    /// Arbitrary tokens, as in function bodies and macro arguments.
    pub fn soup(&mut self, depth: u32) -> Vec<Tk> {
        let n = match self.spend(1) {
            false => 0,
            true if self.k.long > 0 && self.t.chance(4) => match self.t.below(12) {
                0 => 400 + self.t.below(1000),
                _ => 30 + self.t.below(300),
            },
            true => self.t.small(7),
        };
        let mut v = Vec::new();
        for _ in 0..n {
            self.spend(1);
            match self.t.below(10) {
                0 => v.push(self.name()),
                1 => v.push(self.literal()),
                2 => v.push(p(*self.t.pick(&[
                    ',', ';', '<', '>', '=', '+', '-', '*', '&', '|', '!', '#', '.', ':', '?',
                    '$', '@', '%', '^',
                ]))),
                3 => v.extend(self.lifetime()),
                4 => v.extend(op(
                    self.t.pick(&["::", "->", "=>", "<=", "<<=", "&&", "..=", "==", ">>"][..]),
                )),
                5 => v.push(id(self.t.pick(
                    &[
                        "let", "fn", "struct", "where", "for", "if", "pub", "mut", "impl", "use",
                        "unsafe", "self", "crate", "const", "dyn", "enum", "match",
                    ][..],
                ))),
                6 | 7 if depth > 0 => {
                    let d = *self.t.pick(&[D::Paren, D::Brace, D::Bracket]);
                    let inner = self.soup(depth - 1);
                    v.push(g(d, inner));
                }
                8 if depth > 0 && self.lvl(self.k.hidden) => {
                    let inner = self.soup(depth - 1);
                    v.push(g(D::Hidden, inner));
                }
                _ => v.push(self.name()),
            }
        }
        v
    }

    /// An expression without a top-level `;`.
    pub fn expr(&mut self, depth: u32) -> Vec<Tk> {
        if !self.spend(1) || depth == 0 {
            return vec![self.literal()];
        }
        if self.lvl(self.k.hidden) {
            let e = self.expr(depth - 1);
            return vec![g(D::Hidden, e)];
        }
        let ops = self.lvl(self.k.ops);
        match self.t.below(if ops { 14 } else { 8 }) {
            0 => vec![self.literal()],
            1 => vec![self.name()],
            2 => {
                let e = self.expr(depth - 1);
                vec![g(*self.t.pick(&[D::Paren, D::Bracket]), e)]
            }
            3 => vec![g(D::Brace, self.soup(2))],
            4 => {
                let mut v = vec![self.name()];
                v.extend(colon2());
                v.push(self.name());
                v
            }
            5 => {
                let mut v = vec![self.plain_name()];
                v.push(g(D::Paren, self.expr(depth - 1)));
                v
            }
            6 => {
                let mut v = vec![p('-')];
                v.push(self.literal());
                v
            }
            7 => {
                let mut v = vec![self.plain_name(), p('!')];
                v.push(g(*self.t.pick(&[D::Paren, D::Bracket, D::Brace]), self.soup(2)));
                v
            }
            8..=10 => {
                // comparisons and shifts
                let mut v = self.expr(depth - 1);
                v.extend(op(self
                    .t
                    .pick(&["<", ">", "<<", ">>", "<=", ">=", "==", "+", "&&", "||", "..", "|"][..])));
                v.extend(self.expr(depth - 1));
                v
            }
            11 => {
                let mut v = vec![self.plain_name()];
                v.extend(colon2());
                v.push(p('<'));
                v.extend(self.ty(1));
                v.push(p('>'));
                v.extend(colon2());
                v.push(self.plain_name());
                v.push(g(D::Paren, vec![]));
                v
            }
            12 => {
                // closure
                let mut v = vec![p('|'), self.plain_name(), p('|')];
                v.extend(self.expr(depth - 1));
                v
            }
            _ => {
                let mut v = vec![id("if")];
                v.extend(self.expr(depth - 1));
                v.push(g(D::Brace, self.soup(1)));
                v.push(id("else"));
                v.push(g(D::Brace, self.soup(1)));
                v
            }
        }
    }

    // --- types ---

    pub fn path_seg_args(&mut self, depth: u32) -> Vec<Tk> {
        let n = if self.k.long > 0 && self.t.chance(5) { 8 + self.t.below(40) } else { 1 + self.t.small(3) };
        let mut v = vec![p('<')];
        for i in 0..n {
            if i > 0 {
                v.push(p(','));
            }
            match self.t.below(7) {
                0 | 1 => v.extend(self.ty(depth)),
                2 => v.extend(self.lifetime()),
                3 => {
                    v.push(self.plain_name());
                    v.push(p('='));
                    v.extend(self.ty(depth));
                }
                4 => v.push(self.literal()),
                5 => {
                    v.push(p('-'));
                    v.push(lit("1"));
                }
                _ => v.push(g(D::Brace, self.soup(1))),
            }
        }
        if self.lvl(self.k.trailing) {
            v.push(p(','));
        }
        v.push(p('>'));
        v
    }

    pub fn path_ty(&mut self, depth: u32) -> Vec<Tk> {
        let mut v = Vec::new();
        match self.t.below(8) {
            6 => v.extend(colon2()),
            7 => {
                v.push(id(self.t.pick(&["crate", "self", "super", "Self"][..])));
                v.extend(colon2());
            }
            _ => (),
        }
        let n = if self.k.long > 0 && self.t.chance(5) { 6 + self.t.below(40) } else { 1 + self.t.small(2) };
        for i in 0..n {
            if i > 0 {
                v.extend(colon2());
            }
            v.push(if self.t.chance(70) {
                id(self.t.pick(TYPES))
            } else if i > 0 && self.t.chance(4) {
                id(self.t.pick(&["crate", "self", "super", "Self"][..]))
            } else {
                self.name()
            });
            if depth > 0 && self.budget > 0 && self.t.chance(35) {
                self.spend(3);
                if self.t.chance(15) {
                    v.extend(colon2());
                }
                v.extend(self.path_seg_args(depth - 1));
            }
        }
        v
    }

    fn fn_sugar(&mut self, depth: u32) -> Vec<Tk> {
        let mut v = vec![id(self.t.pick(&["Fn", "FnMut", "FnOnce"][..]))];
        let mut args = Vec::new();
        for i in 0..self.t.small(2) {
            if i > 0 {
                args.push(p(','));
            }
            args.extend(self.ty(depth));
        }
        v.push(g(D::Paren, args));
        if self.t.chance(60) {
            v.extend(arrow());
            v.extend(self.ty(depth));
        }
        v
    }

    fn hrtb(&mut self) -> Vec<Tk> {
        let mut v = vec![id("for"), p('<')];
        let n = self.t.below(3);
        for i in 0..n {
            if i > 0 {
                v.push(p(','));
            }
            v.extend(self.lifetime());
        }
        v.push(p('>'));
        v
    }

    /// Bounds as they follow a `:`; may be empty.
    pub fn bounds(&mut self, depth: u32) -> Vec<Tk> {
        let mut v = Vec::new();
        let n = match self.t.below(8) {
            7 => 0,
            x if x < 4 => 1,
            _ => 2,
        };
        for i in 0..n {
            if i > 0 {
                v.push(p('+'));
            }
            v.extend(self.one_bound(depth));
        }
        if n > 0 && self.t.chance(4) {
            v.push(p('+'));
        }
        v
    }

    pub fn one_bound(&mut self, depth: u32) -> Vec<Tk> {
        match self.t.below(12) {
            9 if self.k.rich_types > 0 => {
                let mut v = vec![g(D::Bracket, vec![id("const")])];
                v.extend(self.path_ty(depth));
                v
            }
            10 if self.k.rich_types > 0 => {
                let mut v = vec![id("use"), p('<')];
                v.extend(self.lifetime());
                if self.t.chance(50) {
                    v.push(p(','));
                    v.push(id(self.t.pick(TYPES)));
                }
                v.push(p('>'));
                v
            }
            11 if depth > 0 && self.k.rich_types > 0 => {
                let mut v = vec![p('?')];
                v.extend(self.hrtb());
                v.extend(self.path_ty(depth - 1));
                vec![g(D::Paren, v)]
            }
            0..=2 => self.path_ty(depth),
            3 => self.lifetime(),
            4 => vec![p('?'), id("Sized")],
            5 if depth > 0 => self.fn_sugar(depth - 1),
            6 if depth > 0 => {
                let mut v = self.hrtb();
                v.extend(if self.t.chance(50) {
                    self.fn_sugar(depth - 1)
                } else {
                    self.path_ty(depth - 1)
                });
                v
            }
            7 if self.lvl(self.k.hidden) => {
                let inner = self.path_ty(depth);
                vec![g(D::Hidden, inner)]
            }
            8 => {
                let inner = self.path_ty(depth);
                vec![g(D::Paren, inner)]
            }
            _ => vec![id(self.t.pick(&["Clone", "Copy", "Debug", "Send"][..]))],
        }
    }

    /// A type without top-level braces, commas, `=`, `;`, `where` or (except in
    /// higher-ranked positions) `for`.
    pub fn ty(&mut self, depth: u32) -> Vec<Tk> {
        if !self.spend(1) || depth == 0 {
            return vec![id(self.t.pick(TYPES))];
        }
        if self.lvl(self.k.hidden) {
            let t = self.ty(depth - 1);
            return vec![g(D::Hidden, t)];
        }
        if !self.lvl(self.k.rich_types) {
            return if self.t.chance(50) {
                vec![id(self.t.pick(TYPES))]
            } else {
                self.path_ty(depth)
            };
        }
        let d = depth - 1;
        match self.t.below(19) {
            0 | 1 => self.path_ty(depth),
            2 | 3 => {
                let mut v = vec![p('&')];
                if self.t.chance(40) {
                    v.extend(self.lifetime());
                }
                if self.t.chance(40) {
                    v.push(id("mut"));
                }
                v.extend(self.ty(d));
                v
            }
            4 => {
                let mut v = Vec::new();
                let n = self.t.below(4);
                for _ in 0..n {
                    v.extend(self.ty(d));
                    v.push(p(','));
                }
                if n > 1 && self.t.chance(60) {
                    v.pop();
                }
                vec![g(D::Paren, v)]
            }
            5 => {
                let mut v = self.ty(d);
                if self.t.chance(60) {
                    v.push(p(';'));
                    v.extend(self.length());
                }
                vec![g(D::Bracket, v)]
            }
            6 | 7 => {
                let mut v = Vec::new();
                if self.t.chance(30) {
                    v.extend(self.hrtb());
                }
                if self.t.chance(30) {
                    v.push(id("unsafe"));
                }
                if self.t.chance(30) {
                    v.push(id("extern"));
                    if self.t.chance(70) {
                        v.push(lit("\"C\""));
                    }
                }
                v.push(id("fn"));
                let mut args = Vec::new();
                for i in 0..self.t.below(3) {
                    if i > 0 {
                        args.push(p(','));
                    }
                    if self.t.chance(30) {
                        args.push(self.plain_name());
                        args.push(p(':'));
                    }
                    args.extend(self.ty(d));
                }
                if self.t.chance(12) {
                    if !args.is_empty() {
                        args.push(p(','));
                    }
                    if self.t.chance(50) {
                        args.push(id("_"));
                        args.push(p(':'));
                    }
                    args.extend(op("..."));
                }
                v.push(g(D::Paren, args));
                if self.t.chance(70) {
                    v.extend(arrow());
                    v.extend(self.ty(d));
                }
                v
            }
            8 | 9 => {
                let mut v = vec![id(self.t.pick(&["dyn", "impl"][..]))];
                if self.t.chance(30) {
                    v.extend(self.hrtb());
                }
                if self.t.chance(15) {
                    v.push(g(D::Bracket, vec![id("const")]));
                }
                v.extend(self.path_ty(d));
                if self.t.chance(30) {
                    v.push(p('+'));
                    v.extend(self.one_bound(0));
                }
                v
            }
            10 => {
                let mut v = vec![id(self.t.pick(&["dyn", "impl"][..]))];
                if self.t.chance(25) {
                    let inner = self.fn_sugar(d);
                    v.push(g(D::Paren, inner));
                } else {
                    v.extend(self.fn_sugar(d));
                }
                if self.t.chance(30) {
                    v.push(p('+'));
                    v.push(id("Send"));
                }
                v
            }
            11 | 12 => {
                let mut v = vec![p('<')];
                v.extend(self.ty(d));
                if self.t.chance(70) {
                    v.push(id("as"));
                    v.extend(self.path_ty(d));
                }
                v.push(p('>'));
                v.extend(colon2());
                v.push(self.plain_name());
                if self.t.chance(30) && d > 0 {
                    v.extend(self.path_seg_args(d - 1));
                }
                v
            }
            13 => {
                let mut v = vec![p('*')];
                v.push(id(self.t.pick(&["const", "mut"][..])));
                v.extend(self.ty(d));
                v
            }
            14 => vec![p('!')],
            15 => vec![id("_")],
            16 => {
                let mut v = vec![self.plain_name(), p('!')];
                v.push(g(*self.t.pick(&[D::Paren, D::Bracket]), self.soup(1)));
                v
            }
            17 => {
                let inner = self.ty(d);
                vec![g(D::Paren, inner)]
            }
            _ => {
                let mut v = vec![p('&'), p('&')];
                v.extend(self.ty(d));
                v
            }
        }
    }

    /// An array length.
    fn length(&mut self) -> Vec<Tk> {
        let mut v = if self.t.chance(30) {
            let mut v = vec![id("Self")];
            v.extend(colon2());
            v.push(self.plain_name());
            v
        } else {
            self.expr(1)
        };
        match self.t.below(4) {
            0 => {
                v.push(p(*self.t.pick(&['+', '-', '*', '/', '%', '&', '^', '|', '<', '>'])));
                v.extend(self.expr(1));
            }
            1 => {
                v.push(id("as"));
                v.push(id("usize"));
            }
            _ => (),
        }
        v
    }

    /// Arguments inside arguments inside arguments, with arrows, references and groups on the way.
    pub fn nested(&mut self, levels: u32) -> Vec<Tk> {
        let mut t = self.ty(1);
        for _ in 0..levels {
            t = match self.t.below(20) {
                0 | 1 => {
                    let mut v = vec![id("fn"), g(D::Paren, self.ty(0))];
                    v.extend(arrow());
                    v.extend(t);
                    v
                }
                2 => {
                    let mut v = vec![id("dyn"), id("Fn"), g(D::Paren, vec![])];
                    v.extend(arrow());
                    v.extend(t);
                    v
                }
                3 => [vec![p('&')], t].concat(),
                4 => {
                    let mut v = vec![p('<')];
                    v.extend(t);
                    v.extend([id("as"), id("Tr"), p('>')]);
                    v.extend(colon2());
                    v.push(self.plain_name());
                    v
                }
                5 => vec![g(D::Paren, t)],
                6 => vec![g(D::Bracket, t)],
                _ => {
                    let mut v = vec![self.name()];
                    if self.t.chance(10) {
                        v.extend(colon2());
                    }
                    v.push(p('<'));
                    if self.t.chance(20) {
                        v.extend(self.lifetime());
                        v.push(p(','));
                    }
                    if self.t.chance(20) {
                        v.extend([self.name(), p('=')]);
                    }
                    v.extend(t);
                    if self.t.chance(10) {
                        v.extend([p(','), lit("1")]);
                    }
                    v.push(p('>'));
                    v
                }
            };
        }
        t
    }

    fn full_ty(&mut self) -> Vec<Tk> {
        if self.k.rich_types > 0 && self.t.chance(3) && self.spend(8) {
            let k = 3 + self.t.below(12);
            return self.nested(k);
        }
        let d = match self.k.rich_types {
            0 => 1,
            1 => 2,
            _ => 4,
        };
        self.ty(d)
    }

    // --- parts ---

    pub fn attr(&mut self, inner: bool) -> N {
        let mut path = if self.t.chance(5) { colon2() } else { vec![] };
        path.push(id(self.t.pick(
            &[
                "doc", "derive", "cfg", "serde", "a", "cfg_attr", "unsafe", "inline", "crate", "self", "super", "Self",
                "r#type", "repr", "macro_use",
            ][..],
        )));
        let n = if self.k.long > 0 && self.t.chance(5) { 6 + self.t.below(40) } else { self.t.small(2) };
        for _ in 0..n {
            path.extend(colon2());
            path.push(self.name());
        }
        let value = match self.t.below(7) {
            0 => N::Nil,
            1..=3 => {
                let d = if self.k.hidden > 0 && self.t.chance(8) {
                    D::Hidden
                } else {
                    *self.t.pick(&[D::Paren, D::Paren, D::Bracket, D::Brace])
                };
                N::Rec("Args", vec![("group", N::G(d, CALL_SITE, Box::new(N::Ts(self.soup(2)))))])
            }
            _ => {
                let v = match self.t.below(6) {
                    0..=2 => vec![self.literal()],
                    3 => {
                        let l = self.literal();
                        vec![g(D::Hidden, vec![l])]
                    }
                    4 => self.expr(2),
                    _ if self.k.long > 0 && self.t.chance(30) => {
                        let mut v = vec![self.literal()];
                        for _ in 0..self.t.below(150) {
                            v.push(p('+'));
                            v.push(self.literal());
                        }
                        v
                    }
                    _ => vec![],
                };
                N::Rec("Equals", vec![("eq", p_eq()), ("value", N::Ts(v))])
            }
        };
        N::Rec(
            "Attr",
            vec![
                ("hash", N::T(p('#'))),
                ("bang", if inner { N::T(p('!')) } else { N::Nil }),
                (
                    "brackets",
                    N::G(
                        D::Bracket,
                        CALL_SITE,
                        Box::new(N::Rec("Meta", vec![("path", N::Ts(path)), ("value", value)])),
                    ),
                ),
            ],
        )
    }

    pub fn attrs(&mut self) -> N {
        let mut v = Vec::new();
        if self.k.long > 0 && self.k.attrs > 0 && self.t.chance(2) {
            for _ in 0..6 + self.t.below(70) {
                self.spend(3);
                v.push(self.attr(false));
            }
        }
        while self.lvl(self.k.attrs) && v.len() < 6 {
            self.spend(3);
            v.push(self.attr(false));
        }
        N::L(v)
    }

    fn inner_attrs(&mut self) -> N {
        let mut v = Vec::new();
        if self.k.long > 0 && self.k.attrs > 0 && self.t.chance(4) {
            for _ in 0..6 + self.t.below(70) {
                self.spend(3);
                v.push(self.attr(true));
            }
        }
        while self.lvl(self.k.attrs) && v.len() < 4 {
            self.spend(3);
            v.push(self.attr(true));
        }
        N::L(v)
    }

    pub fn vis(&mut self) -> N {
        if !self.lvl(self.k.vis) {
            return N::Nil;
        }
        self.some_vis()
    }

    pub fn some_vis(&mut self) -> N {
        let restricted = |inner: Vec<Tk>| {
            N::Rec("Vis", vec![("t1", N::T(id("pub"))), ("t2", N::T(g(D::Paren, inner)))])
        };
        match self.t.below(8) {
            0..=2 => N::Rec("Vis", vec![("t1", N::T(id("pub"))), ("t2", N::Nil)]),
            3 => restricted(vec![id("crate")]),
            4 => restricted(vec![id("super")]),
            5 => restricted(vec![id("self")]),
            6 => {
                let mut v = vec![id("in"), id(self.t.pick(&["crate", "self", "super"][..]))];
                if v[1] == id("super") && self.t.chance(30) {
                    v.extend(colon2());
                    v.push(id("super"));
                }
                let n = match self.t.below(10) {
                    0..=3 => 0,
                    4..=7 => 1,
                    8 => 2 + self.t.below(3),
                    _ => 5 + self.t.below(12),
                };
                for _ in 0..n {
                    v.extend(colon2());
                    v.push(self.plain_name());
                }
                restricted(v)
            }
            _ => N::Rec("Vis", vec![("t1", N::T(id("crate"))), ("t2", N::Nil)]),
        }
    }

    pub fn bound_node(&mut self) -> N {
        let b = self.bounds(2);
        N::Rec("Bound", vec![("colon", N::T(p(':'))), ("tokens", N::Ts(b))])
    }

    pub fn gparam(&mut self) -> N {
        self.spend(3);
        match self.t.below(5) {
            0 | 1 => {
                let bound = match self.t.below(3) {
                    0 => N::Nil,
                    1 => self.bound_node(),
                    _ => {
                        // with a default
                        let mut b = self.bounds(2);
                        b.push(p('='));
                        b.extend(self.ty(2));
                        N::Rec("Bound", vec![("colon", N::T(p(':'))), ("tokens", N::Ts(b))])
                    }
                };
                N::Rec("GParam", vec![("prefix", N::Nil), ("name", N::T(self.name())), ("bound", bound)])
            }
            2 | 3 => {
                let name = id(self.t.pick(&["a", "b", "de", "x", "a", "b", "_", "static"][..]));
                let bound = if self.t.chance(40) {
                    let mut b = Vec::new();
                    for i in 0..self.t.below(3) {
                        if i > 0 {
                            b.push(p('+'));
                        }
                        b.extend(self.lifetime());
                    }
                    N::Rec("Bound", vec![("colon", N::T(p(':'))), ("tokens", N::Ts(b))])
                } else {
                    N::Nil
                };
                N::Rec(
                    "GParam",
                    vec![("prefix", N::T(pj('\''))), ("name", N::T(name)), ("bound", bound)],
                )
            }
            _ => {
                let mut b = self.ty(1);
                if self.t.chance(30) {
                    b.push(p('='));
                    match self.t.below(3) {
                        0 => b.push(self.literal()),
                        1 => b.push(g(D::Brace, self.soup(1))),
                        _ => {
                            b.push(p('-'));
                            b.push(lit("1"));
                        }
                    }
                }
                N::Rec(
                    "GParam",
                    vec![
                        ("prefix", N::T(id("const"))),
                        ("name", N::T(self.name())),
                        (
                            "bound",
                            N::Rec("Bound", vec![("colon", N::T(p(':'))), ("tokens", N::Ts(b))]),
                        ),
                    ],
                )
            }
        }
    }

    pub fn generics(&mut self) -> N {
        if !self.lvl(self.k.generics) {
            return N::Nil;
        }
        let n = self.how_many().min(if self.t.chance(20) { 80 } else { 12 });
        let elems = (0..n).map(|_| self.gparam()).collect();
        let params = self.comma_list(elems);
        N::Rec("GParams", vec![("lt", N::T(p('<'))), ("params", params), ("gt", N::T(p('>')))])
    }

    pub fn predicate(&mut self) -> N {
        self.spend(4);
        let left = match self.t.below(9) {
            0 | 1 => vec![self.name()],
            2 => self.lifetime(),
            3 => {
                let mut v = self.hrtb();
                v.extend(self.ty(2));
                v
            }
            4 => {
                let mut v = vec![id(self.t.pick(TYPES))];
                v.extend(colon2());
                v.push(self.name());
                v
            }
            5 => self.path_ty(2),
            _ => self.ty(2),
        };
        N::Rec("Pred", vec![("left", N::Ts(left)), ("bound", self.bound_node())])
    }

    pub fn where_clause(&mut self) -> N {
        if !self.lvl(self.k.wheres) {
            return N::Nil;
        }
        let n = self.how_many().min(if self.t.chance(20) { 80 } else { 10 });
        let elems = (0..n).map(|_| self.predicate()).collect();
        let items = self.comma_list(elems);
        N::Rec("Where", vec![("kw", N::T(id("where"))), ("items", items)])
    }

    pub fn tfield(&mut self) -> N {
        self.spend(2);
        let attrs = self.attrs();
        let vis = self.vis();
        let mut ty = self.full_ty();
        if vis_clash(&vis, &ty) {
            ty = vec![id("u8")];
        }
        N::Rec("TField", vec![("attrs", attrs), ("vis", vis), ("ty", N::Ts(ty))])
    }

    pub fn nfield(&mut self) -> N {
        self.spend(3);
        let attrs = self.attrs();
        let vis = self.vis();
        N::Rec(
            "NField",
            vec![
                ("attrs", attrs),
                ("vis", vis),
                ("name", N::T(self.name())),
                ("colon", N::T(p(':'))),
                ("ty", N::Ts(self.full_ty())),
            ],
        )
    }

    fn tuple_fields(&mut self) -> N {
        let n = self.how_many();
        let elems = (0..n).map(|_| self.tfield()).collect();
        let l = self.comma_list(elems);
        N::Rec("Tuple", vec![("group", N::G(D::Paren, CALL_SITE, Box::new(l)))])
    }

    fn named_fields(&mut self) -> N {
        let n = self.how_many();
        let elems = (0..n).map(|_| self.nfield()).collect();
        let l = self.comma_list(elems);
        N::Rec("Named", vec![("group", N::G(D::Brace, CALL_SITE, Box::new(l)))])
    }

    // --- items ---

    pub fn strukt(&mut self) -> N {
        let mut v = vec![
            ("attrs", self.attrs()),
            ("vis", self.vis()),
            ("kw", N::T(id("struct"))),
            ("name", N::T(self.name())),
            ("generics", self.generics()),
        ];
        match self.t.below(3) {
            0 => {
                let w = self.where_clause();
                v.extend([("fields", N::Nil), ("where", w), ("semi", N::T(p(';')))]);
            }
            1 => {
                let f = self.tuple_fields();
                let w = self.where_clause();
                v.extend([("fields", f), ("where", w), ("semi", N::T(p(';')))]);
            }
            _ => {
                let w = self.where_clause();
                let f = self.named_fields();
                v.extend([("where", w), ("fields", f), ("semi", N::Nil)]);
            }
        }
        N::Rec("Struct", v)
    }

    fn simple_value(&mut self) -> Tk {
        match self.t.below(6) {
            0 | 1 => self.literal(),
            2 => self.name(),
            3 => {
                let e = self.expr(3);
                g(D::Paren, e)
            }
            4 => {
                let e = self.expr(3);
                g(D::Hidden, e)
            }
            _ => {
                let d = *self.t.pick(&[D::Brace, D::Bracket]);
                g(d, self.soup(2))
            }
        }
    }

    /// Two or more ungrouped tokens.
    pub fn complex_value(&mut self) -> Vec<Tk> {
        match self.t.below(11) {
            10 => {
                // any tokens at all
                let mut v = self.soup(1);
                v.retain(|t| !t.is_p(','));
                v.truncate(2 + self.t.below(6) as usize);
                while v.len() < 2 {
                    v.push(self.simple_value());
                }
                v
            }
            0 => vec![p(*self.t.pick(&['-', '!', '*', '&'])), self.simple_value()],
            1 | 7 => {
                let mut v = vec![self.simple_value()];
                v.extend(op(self.t.pick(
                    &[
                        "+", "<<", "<", "|", "-", "*", "/", "%", "^", "&", "==", "!=", ">", "<=", ">=", ">>", "&&",
                        "||", "..", "..=", "=", "+=", ".",
                    ][..],
                )));
                v.push(self.simple_value());
                v
            }
            8 => match self.t.below(8) {
                0 => vec![self.simple_value(), id("as"), id("u8")],
                1 => vec![self.simple_value(), p('?')],
                2 => vec![self.plain_name(), g(D::Bracket, vec![lit("0")])],
                3 => vec![id(self.t.pick(&["unsafe", "const", "loop", "async"][..])), g(D::Brace, self.soup(1))],
                4 => vec![p('|'), self.plain_name(), p('|'), self.simple_value()],
                5 => vec![id("return"), self.simple_value()],
                6 => {
                    let mut v = op("..");
                    v.push(self.simple_value());
                    v
                }
                _ => {
                    let mut v = vec![p('<')];
                    v.extend(self.ty(1));
                    v.extend([id("as"), self.plain_name(), p('>')]);
                    v.extend(colon2());
                    v.push(self.name());
                    v
                }
            },
            9 => {
                // with commas of its own
                let mut v = vec![self.plain_name()];
                v.extend(colon2());
                v.push(p('<'));
                for i in 0..1 + self.t.below(4) {
                    if i > 0 {
                        v.push(p(','));
                    }
                    v.push(self.plain_name());
                }
                v.push(p('>'));
                v.push(g(D::Paren, self.soup(1)));
                v
            }
            2 => {
                let mut v = vec![self.name()];
                v.extend(colon2());
                v.push(self.name());
                v
            }
            3 => vec![self.plain_name(), g(D::Paren, self.soup(1))],
            4 => vec![g(D::Paren, self.soup(1)), p('+'), self.literal()],
            5 => {
                let inner = self.expr(2);
                vec![g(D::Hidden, inner), p('+'), self.literal()]
            }
            _ => vec![self.plain_name(), p('!'), g(D::Paren, self.soup(1))],
        }
    }

    pub fn variant(&mut self, bad: bool) -> N {
        self.spend(2);
        let attrs = self.attrs();
        let vis = if self.t.chance(10) { self.vis() } else { N::Nil };
        let name = N::T(self.name());
        let fields = match self.t.below(4) {
            0 | 1 => N::Nil,
            2 => self.tuple_fields(),
            _ => self.named_fields(),
        };
        let value = if bad {
            let v = self.complex_value();
            let eq = match v[0].k {
                K::P(..) if self.t.chance(60) => N::T(pj('=')),
                _ => p_eq(),
            };
            N::Rec("Value", vec![("eq", eq), ("bad", N::Ts(v))])
        } else if self.t.chance(30) {
            let v = self.simple_value();
            N::Rec("Value", vec![("eq", p_eq()), ("value", N::T(v))])
        } else {
            N::Nil
        };
        N::Rec(
            "Variant",
            vec![("attrs", attrs), ("vis", vis), ("name", name), ("fields", fields), ("value", value)],
        )
    }

    /// `bad`: with at least one discriminant of several tokens.
    pub fn enumm(&mut self, bad: bool) -> N {
        let attrs = self.attrs();
        let vis = self.vis();
        let name = N::T(self.name());
        let generics = self.generics();
        let wher = self.where_clause();
        let n = self.how_many() + bad as u32;
        let first_bad = if bad { self.t.below(n) } else { n };
        let elems = (0..n)
            .map(|i| {
                let b = bad && (i == first_bad || (i > first_bad && self.t.chance(20)));
                self.variant(b)
            })
            .collect();
        let l = self.comma_list(elems);
        N::Rec(
            "Enum",
            vec![
                ("attrs", attrs),
                ("vis", vis),
                ("kw", N::T(id("enum"))),
                ("name", name),
                ("generics", generics),
                ("where", wher),
                ("body", N::G(D::Brace, CALL_SITE, Box::new(l))),
            ],
        )
    }

    fn union(&mut self) -> N {
        N::Rec(
            "Union",
            vec![
                ("attrs", self.attrs()),
                ("vis", self.vis()),
                ("kw", N::T(id("union"))),
                ("name", N::T(self.name())),
                ("generics", self.generics()),
                ("where", self.where_clause()),
                ("fields", self.named_fields()),
            ],
        )
    }

    fn body(&mut self, mut member: impl FnMut(&mut Self) -> N) -> N {
        let inner = self.inner_attrs();
        let n = self.how_many().min(if self.t.chance(20) { 60 } else { 8 });
        let members = (0..n).map(|_| member(self)).collect();
        N::G(
            D::Brace,
            CALL_SITE,
            Box::new(N::Rec("Body", vec![("inner", inner), ("members", N::L(members))])),
        )
    }

    pub fn module(&mut self, depth: u32) -> N {
        let attrs = self.attrs();
        let vis = self.vis();
        let uns = if self.t.chance(10) { N::T(id("unsafe")) } else { N::Nil };
        let name = N::T(self.name());
        let (semi, body) = if self.t.chance(25) {
            (N::T(p(';')), N::Nil)
        } else {
            (N::Nil, self.body(|g| g.item(depth.saturating_sub(1))))
        };
        N::Rec(
            "Mod",
            vec![
                ("attrs", attrs),
                ("vis", vis),
                ("unsafe", uns),
                ("kw", N::T(id("mod"))),
                ("name", name),
                ("semi", semi),
                ("body", body),
            ],
        )
    }

    pub fn fparam(&mut self, first: bool) -> N {
        self.spend(3);
        let attrs = self.attrs();
        if first && self.t.chance(50) {
            let shape = self.t.below(5);
            if shape < 4 {
                let r = shape > 0;
                let lt = r && shape == 3;
                return N::Rec(
                    "Receiver",
                    vec![
                        ("attrs", attrs),
                        ("ref", if r { N::T(p('&')) } else { N::Nil }),
                        (
                            "lifetime",
                            if lt {
                                let l = self.lifetime();
                                N::Rec(
                                    "Lifetime",
                                    vec![("apos", N::T(l[0].clone())), ("name", N::T(l[1].clone()))],
                                )
                            } else {
                                N::Nil
                            },
                        ),
                        ("mut", if self.t.chance(40) { N::T(id("mut")) } else { N::Nil }),
                        ("self", N::T(id("self"))),
                    ],
                );
            }
            return N::Rec(
                "Typed",
                vec![
                    ("attrs", attrs),
                    ("mut", if self.t.chance(30) { N::T(id("mut")) } else { N::Nil }),
                    ("name", N::T(id("self"))),
                    ("colon", N::T(p(':'))),
                    ("ty", N::Ts(self.full_ty())),
                ],
            );
        }
        let name = if self.t.chance(10) { id("_") } else { self.name() };
        N::Rec(
            "Typed",
            vec![
                ("attrs", attrs),
                ("mut", if self.t.chance(20) { N::T(id("mut")) } else { N::Nil }),
                ("name", N::T(name)),
                ("colon", N::T(p(':'))),
                ("ty", N::Ts(self.full_ty())),
            ],
        )
    }

    pub fn function(&mut self, bodiless: u32, in_impl: bool) -> N {
        let attrs = self.attrs();
        let vis = self.vis();
        let q = |g: &mut Self, s: &str| {
            if g.lvl(g.k.quals) {
                N::T(id(s))
            } else {
                N::Nil
            }
        };
        let default = if in_impl { q(self, "default") } else { N::Nil };
        let cnst = q(self, "const");
        let asyn = q(self, "async");
        let uns = q(self, "unsafe");
        let ext = q(self, "extern");
        let abi = if !ext.is_nil() && self.t.chance(60) {
            N::T(lit(self.t.pick(ABIS)))
        } else {
            N::Nil
        };
        let name = N::T(self.name());
        let generics = self.generics();
        let n = self.how_many().min(if self.t.chance(20) { 90 } else { 20 });
        let elems = (0..n).map(|i| self.fparam(i == 0)).collect();
        let l = self.comma_list(elems);
        let (arr, ret) = if self.t.chance(50) {
            (N::Ts(arrow()), N::Ts(self.full_ty()))
        } else {
            (N::Nil, N::Nil)
        };
        let wher = self.where_clause();
        let (body, semi) = if self.t.chance(bodiless) {
            (N::Nil, N::T(p(';')))
        } else {
            (N::T(g(D::Brace, self.soup(3))), N::Nil)
        };
        N::Rec(
            "Fn",
            vec![
                ("attrs", attrs),
                ("vis", vis),
                ("default", default),
                ("const", cnst),
                ("async", asyn),
                ("unsafe", uns),
                ("extern", ext),
                ("abi", abi),
                ("kw", N::T(id("fn"))),
                ("name", name),
                ("generics", generics),
                ("params", N::G(D::Paren, CALL_SITE, Box::new(l))),
                ("arrow", arr),
                ("ret", ret),
                ("where", wher),
                ("body", body),
                ("semi", semi),
            ],
        )
    }

    pub fn constant(&mut self, statics: bool, bodiless: u32) -> N {
        let attrs = self.attrs();
        let vis = self.vis();
        let is_static = statics && self.t.chance(50);
        let name = if !is_static && self.t.chance(10) { id("_") } else { self.name() };
        let init = !self.t.chance(bodiless);
        N::Rec(
            "Const",
            vec![
                ("attrs", attrs),
                ("vis", vis),
                ("kw", N::T(id(if is_static { "static" } else { "const" }))),
                ("mut", if is_static && self.t.chance(40) { N::T(id("mut")) } else { N::Nil }),
                ("name", N::T(name)),
                ("colon", N::T(p(':'))),
                ("ty", N::Ts(self.full_ty())),
                ("eq", if init { p_eq() } else { N::Nil }),
                ("init", if init { N::Ts(self.expr(4)) } else { N::Nil }),
                ("semi", N::T(p(';'))),
            ],
        )
    }

    pub fn alias(&mut self, assoc: bool) -> N {
        let attrs = self.attrs();
        let vis = self.vis();
        let name = N::T(self.name());
        let bound = if self.t.chance(if assoc { 50 } else { 5 }) {
            self.bound_node()
        } else {
            N::Nil
        };
        let init = !assoc || self.t.chance(40);
        let value = if self.k.rich_types > 0 && self.t.chance(6) {
            // A macro call with braces, as in `type F = eficall! { fn() };`.
            vec![self.plain_name(), p('!'), g(D::Brace, self.soup(2))]
        } else {
            self.full_ty()
        };
        N::Rec(
            "Alias",
            vec![
                ("attrs", attrs),
                ("vis", vis),
                ("kw", N::T(id("type"))),
                ("name", name),
                ("bound", bound),
                ("eq", if init { p_eq() } else { N::Nil }),
                ("init", if init { N::Ts(value) } else { N::Nil }),
                ("semi", N::T(p(';'))),
            ],
        )
    }

    pub fn macr(&mut self) -> N {
        let attrs = self.attrs();
        let (name, declared) = if self.t.chance(30) {
            (id("macro_rules"), N::T(self.name()))
        } else {
            let n = if self.t.chance(80) {
                self.plain_name()
            } else {
                id(self.t.pick(&["r#struct", "auto", "é", "safe", "r#fn", "_x"][..]))
            };
            let declared = if self.t.chance(8) { N::T(self.name()) } else { N::Nil };
            (n, declared)
        };
        let paren = self.t.chance(50);
        let inner = self.soup(3);
        N::Rec(
            "Macro",
            vec![
                ("attrs", attrs),
                ("name", N::T(name)),
                ("bang", N::T(p('!'))),
                ("declared", declared),
                (
                    "body",
                    N::G(
                        if paren { D::Paren } else { D::Brace },
                        CALL_SITE,
                        Box::new(N::Ts(inner)),
                    ),
                ),
                ("semi", if paren { N::T(p(';')) } else { N::Nil }),
            ],
        )
    }

    pub fn member(&mut self, in_trait: bool) -> N {
        self.spend(4);
        match self.t.below(6) {
            0..=2 => self.function(if in_trait { 50 } else { 5 }, !in_trait),
            3 => self.constant(false, if in_trait { 50 } else { 0 }),
            4 => self.alias(in_trait),
            _ => self.macr(),
        }
    }

    pub fn trait_(&mut self) -> N {
        let attrs = self.attrs();
        let vis = self.vis();
        let uns = if self.lvl(self.k.quals) { N::T(id("unsafe")) } else { N::Nil };
        let name = N::T(self.name());
        let generics = self.generics();
        let bound = if self.t.chance(40) { self.bound_node() } else { N::Nil };
        let wher = self.where_clause();
        let body = self.body(|g| g.member(true));
        N::Rec(
            "Trait",
            vec![
                ("attrs", attrs),
                ("vis", vis),
                ("unsafe", uns),
                ("kw", N::T(id("trait"))),
                ("name", name),
                ("generics", generics),
                ("bound", bound),
                ("where", wher),
                ("body", body),
            ],
        )
    }

    pub fn impl_(&mut self) -> N {
        let attrs = self.attrs();
        let uns = if self.lvl(self.k.quals) { N::T(id("unsafe")) } else { N::Nil };
        let generics = self.generics();
        let with_trait = self.t.chance(60);
        let (tr, fo) = if with_trait {
            let mut t = Vec::new();
            if self.t.chance(10) {
                t.push(p('!'));
            }
            t.extend(match self.t.below(5) {
                0 if self.lvl(self.k.hidden) => {
                    let inner = self.path_ty(2);
                    vec![g(D::Hidden, inner)]
                }
                1 => self.fn_sugar(1),
                _ => self.path_ty(3),
            });
            (N::Ts(t), N::T(id("for")))
        } else {
            (N::Nil, N::Nil)
        };
        let mut st = self.full_ty();
        if generics.is_nil() && !with_trait && st.first().map_or(false, |t| t.is_p('<')) {
            // `impl <T as X>::Y {}` starts like a parameter list; Rust reads it as one too
            st = vec![id("Foo")];
        }
        if generics.is_nil() && with_trait {
            // likewise for the trait position: path_ty never starts with `<`
        }
        let wher = self.where_clause();
        let body = self.body(|g| g.member(false));
        N::Rec(
            "Impl",
            vec![
                ("attrs", attrs),
                ("unsafe", uns),
                ("kw", N::T(id("impl"))),
                ("generics", generics),
                ("trait", tr),
                ("for", fo),
                ("self", N::Ts(st)),
                ("where", wher),
                ("body", body),
            ],
        )
    }

    fn use_tree(&mut self, depth: u32) -> Vec<Tk> {
        let mut v = Vec::new();
        match self.t.below(7) {
            4 => v.extend(colon2()),
            5 => {
                v.push(id(self.t.pick(&["crate", "self", "super"][..])));
                v.extend(colon2());
            }
            6 => {
                for _ in 0..2 + self.t.below(2) {
                    v.push(id("super"));
                    v.extend(colon2());
                }
            }
            _ => (),
        }
        for _ in 0..self.t.small(3) {
            v.push(self.name());
            v.extend(colon2());
        }
        match self.t.below(5) {
            0 | 1 => v.push(self.name()),
            2 => v.push(p('*')),
            3 => {
                v.push(self.name());
                v.push(id("as"));
                v.push(if self.t.chance(30) { id("_") } else { self.name() });
            }
            _ if depth > 0 => {
                let mut inner = Vec::new();
                let n = self.t.below(4);
                for i in 0..n {
                    if i > 0 {
                        inner.push(p(','));
                    }
                    if i == 0 && self.t.chance(25) {
                        inner.push(id("self"));
                        if self.t.chance(25) {
                            inner.push(id("as"));
                            inner.push(self.name());
                        }
                    } else {
                        inner.extend(self.use_tree(depth - 1));
                    }
                }
                if n > 0 && self.lvl(self.k.trailing) {
                    inner.push(p(','));
                }
                v.push(g(D::Brace, inner));
            }
            _ => v.push(self.name()),
        }
        v
    }

    pub fn use_(&mut self) -> N {
        N::Rec(
            "Use",
            vec![
                ("attrs", self.attrs()),
                ("vis", self.vis()),
                ("kw", N::T(id("use"))),
                ("tree", N::Ts(self.use_tree(3))),
                ("semi", N::T(p(';'))),
            ],
        )
    }

    pub fn extern_block(&mut self) -> N {
        let attrs = self.attrs();
        let vis = if self.t.chance(15) { self.vis() } else { N::Nil };
        let uns = if self.t.chance(30) { N::T(id("unsafe")) } else { N::Nil };
        let abi = if self.t.chance(70) { N::T(lit(self.t.pick(ABIS))) } else { N::Nil };
        let body = self.body(|g| {
            g.spend(4);
            match g.t.below(6) {
                0..=2 => g.function(95, false),
                3 => {
                    let mut c = g.constant(true, 100);
                    *c.get_mut("kw") = N::T(id("static"));
                    c
                }
                4 => {
                    let mut a = g.alias(true);
                    *a.get_mut("bound") = N::Nil;
                    *a.get_mut("eq") = N::Nil;
                    *a.get_mut("init") = N::Nil;
                    a
                }
                _ => g.macr(),
            }
        });
        N::Rec(
            "ExternBlock",
            vec![
                ("attrs", attrs),
                ("vis", vis),
                ("unsafe", uns),
                ("kw", N::T(id("extern"))),
                ("abi", abi),
                ("body", body),
            ],
        )
    }

    fn extern_crate(&mut self) -> N {
        let attrs = self.attrs();
        let vis = self.vis();
        let name = if self.t.chance(15) { id("self") } else { self.name() };
        let (a, alias) = if self.t.chance(50) {
            let n = if self.t.chance(30) { id("_") } else { self.name() };
            (N::T(id("as")), N::L(vec![N::T(n)]))
        } else {
            (N::Nil, N::L(vec![]))
        };
        N::Rec(
            "ExternCrate",
            vec![
                ("attrs", attrs),
                ("vis", vis),
                ("kw", N::T(id("extern"))),
                ("crate", N::T(id("crate"))),
                ("name", N::T(name)),
                ("as", a),
                ("alias", alias),
                ("semi", N::T(p(';'))),
            ],
        )
    }

    /// Any supported item.
    pub fn item(&mut self, depth: u32) -> N {
        self.spend(5);
        let mut w = self.k.kinds;
        if depth == 0 {
            w[3] = 0;
            if w.iter().all(|x| *x == 0) {
                w[0] = 1;
            }
        }
        match self.t.weighted(&w) {
            0 => self.strukt(),
            1 => self.enumm(false),
            2 => self.union(),
            3 => self.module(depth),
            4 => self.trait_(),
            5 => self.impl_(),
            6 => self.alias(false),
            7 => self.function(5, false),
            8 => self.constant(true, 3),
            9 => self.use_(),
            10 => self.macr(),
            11 => self.extern_block(),
            _ => self.extern_crate(),
        }
    }

    /// Struct, enum or union: what derive macros get.
    pub fn data_item(&mut self) -> N {
        self.spend(5);
        match self.t.below(5) {
            0..=2 => self.strukt(),
            3 => self.enumm(false),
            _ => self.union(),
        }
    }

    /// `depth` modules inside each other.
    pub fn tower(&mut self, depth: u32) -> N {
        let mut n = self.item(0);
        let bare = self.t.chance(60);
        for _ in 0..depth {
            let mut members = vec![n];
            let (mut attrs, mut vis, mut inner, mut uns) = (N::L(vec![]), N::Nil, N::L(vec![]), N::Nil);
            if !bare && self.t.chance(25) {
                self.budget = 6;
                match self.t.below(6) {
                    0 => attrs = self.attrs(),
                    1 => vis = self.vis(),
                    2 => inner = self.inner_attrs(),
                    3 => uns = N::T(id("unsafe")),
                    4 => members.insert(0, self.item(0)),
                    _ => members.push(self.item(0)),
                }
            }
            n = N::Rec(
                "Mod",
                vec![
                    ("attrs", attrs),
                    ("vis", vis),
                    ("unsafe", uns),
                    ("kw", N::T(id("mod"))),
                    ("name", N::T(self.plain_name())),
                    ("semi", N::Nil),
                    (
                        "body",
                        N::G(
                            D::Brace,
                            CALL_SITE,
                            Box::new(N::Rec("Body", vec![("inner", inner), ("members", N::L(members))])),
                        ),
                    ),
                ],
            );
        }
        n
    }

    /// Tokens between declarations that belong to the caller.
    pub fn foreign(&mut self) -> Vec<Tk> {
        let n = 1 + self.t.below(3);
        (0..n)
            .map(|_| match self.t.below(6) {
                0 => p(','),
                1 => p(';'),
                2 => self.name(),
                3 => self.literal(),
                4 => {
                    let d = *self.t.pick(&[D::Paren, D::Brace, D::Bracket, D::Hidden]);
                    g(d, self.soup(1))
                }
                _ => p(*self.t.pick(&['=', '>', '<', '&', '-', '!', '+'])),
            })
            .collect()
    }
}

fn p_eq() -> N {
    N::T(p('='))
}

/// After `crate` or a bare `pub`, the type must not look like the rest of a visibility.
pub fn vis_clash(vis: &N, ty: &[Tk]) -> bool {
    let f = match vis {
        N::Rec(_, f) if f[1].1.is_nil() => f,
        _ => return false,
    };
    match ty.first().map(|t| &t.k) {
        Some(K::P(':', _)) => f[0].1.text() == "crate",
        Some(K::G(D::Paren, inner)) => {
            f[0].1.text() == "pub"
                && (inner.first().map_or(false, |t| t.is_id("in"))
                    || (inner.len() == 1
                        && (inner[0].is_id("crate") || inner[0].is_id("self") || inner[0].is_id("super"))))
        }
        _ => false,
    }
}
