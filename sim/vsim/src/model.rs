//! The reference model of a declaration: a tree in source order.

use crate::tok::*;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum N {
    Nil,
    /// One token.
    T(Tk),
    /// A part that is kept as plain tokens.
    Ts(Vec<Tk>),
    Rec(&'static str, Vec<(&'static str, N)>),
    L(Vec<N>),
    /// A comma list; only the last comma may be absent.
    Pn(Vec<(N, Option<Tk>)>),
    G(D, Sp, Box<N>),
}

/// The comma that appears where an absent comma becomes necessary.
pub fn default_comma() -> Tk {
    pa(',')
}

impl N {
    pub fn flatten(&self, out: &mut Vec<Tk>) {
        match self {
            N::Nil => (),
            N::T(t) => out.push(t.clone()),
            N::Ts(ts) => out.extend(ts.iter().cloned()),
            N::Rec(_, fs) => fs.iter().for_each(|(_, n)| n.flatten(out)),
            N::L(ns) => ns.iter().for_each(|n| n.flatten(out)),
            N::Pn(ns) => ns.iter().for_each(|(n, c)| {
                n.flatten(out);
                if let Some(c) = c {
                    out.push(c.clone())
                }
            }),
            N::G(d, sp, n) => {
                let mut inner = Vec::new();
                n.flatten(&mut inner);
                out.push(Tk {
                    k: K::G(*d, inner),
                    sp: *sp,
                    free: false,
                });
            }
        }
    }

    pub fn tokens(&self) -> Vec<Tk> {
        let mut v = Vec::new();
        self.flatten(&mut v);
        v
    }

    /// Replaces the tokens of this tree, in order, by `ts` (which has the same shape).
    pub fn assign(&mut self, ts: &[Tk]) {
        let mut it = ts.iter();
        self.assign_from(&mut it);
        assert!(it.next().is_none());
    }

    fn assign_from(&mut self, it: &mut std::slice::Iter<Tk>) {
        match self {
            N::Nil => (),
            N::T(t) => *t = it.next().unwrap().clone(),
            N::Ts(ts) => ts.iter_mut().for_each(|t| *t = it.next().unwrap().clone()),
            N::Rec(_, fs) => fs.iter_mut().for_each(|(_, n)| n.assign_from(it)),
            N::L(ns) => ns.iter_mut().for_each(|n| n.assign_from(it)),
            N::Pn(ns) => ns.iter_mut().for_each(|(n, c)| {
                n.assign_from(it);
                if let Some(c) = c {
                    *c = it.next().unwrap().clone();
                }
            }),
            N::G(_, sp, n) => {
                let t = it.next().unwrap();
                *sp = t.sp;
                match &t.k {
                    K::G(_, inner) => n.assign(inner),
                    _ => unreachable!(),
                }
            }
        }
    }

    pub fn kind(&self) -> &'static str {
        match self {
            N::Rec(k, _) => k,
            N::Nil => "-",
            _ => "?",
        }
    }

    pub fn get(&self, f: &str) -> &N {
        match self {
            N::Rec(_, fs) => {
                fs.iter()
                    .find(|(n, _)| *n == f)
                    .unwrap_or_else(|| panic!("model: no field {f} in {}", self.kind()))
                    ._1_ref()
            }
            _ => panic!("model: no field {f}"),
        }
    }

    pub fn has(&self, f: &str) -> bool {
        matches!(self, N::Rec(_, fs) if fs.iter().any(|(n, _)| *n == f))
    }

    pub fn get_mut(&mut self, f: &str) -> &mut N {
        match self {
            N::Rec(k, fs) => {
                &mut fs
                    .iter_mut()
                    .find(|(n, _)| *n == f)
                    .unwrap_or_else(|| panic!("model: no field {f} in {k}"))
                    .1
            }
            _ => panic!("model: no field {f}"),
        }
    }

    pub fn is_nil(&self) -> bool {
        matches!(self, N::Nil)
    }
    pub fn list(&self) -> &[N] {
        match self {
            N::L(v) => v,
            N::Nil => &[],
            _ => panic!("model: not a list"),
        }
    }
    pub fn list_mut(&mut self) -> &mut Vec<N> {
        match self {
            N::L(v) => v,
            _ => panic!("model: not a list"),
        }
    }
    pub fn pn(&self) -> &[(N, Option<Tk>)] {
        match self {
            N::Pn(v) => v,
            N::Nil => &[],
            _ => panic!("model: not a comma list"),
        }
    }
    pub fn pn_mut(&mut self) -> &mut Vec<(N, Option<Tk>)> {
        match self {
            N::Pn(v) => v,
            _ => panic!("model: not a comma list"),
        }
    }
    pub fn inner(&self) -> &N {
        match self {
            N::G(_, _, n) => n,
            _ => panic!("model: not a group"),
        }
    }
    pub fn inner_mut(&mut self) -> &mut N {
        match self {
            N::G(_, _, n) => n,
            _ => panic!("model: not a group"),
        }
    }
    pub fn text(&self) -> String {
        match self {
            N::T(t) => show(std::slice::from_ref(t)),
            _ => show(&self.tokens()),
        }
    }
    /// The tokens of an opaque part.
    pub fn ts(&self) -> &[Tk] {
        match self {
            N::Ts(v) => v,
            N::T(t) => std::slice::from_ref(t),
            _ => panic!("model: not tokens"),
        }
    }

    /// Appends to a comma list, as `Punctuated::push` is documented to.
    pub fn push_elem(&mut self, n: N, comma: Option<Tk>) {
        let v = self.pn_mut();
        if let Some(last) = v.last_mut() {
            last.1.get_or_insert_with(default_comma);
        }
        v.push((n, comma));
    }

    /// Inserts into a comma list, as `Punctuated::insert` is documented to.
    pub fn insert_elem(&mut self, i: usize, n: N, comma: Option<Tk>) {
        if i == self.pn().len() {
            self.push_elem(n, comma);
        } else {
            self.pn_mut().insert(i, (n, Some(default_comma())));
        }
    }

    pub fn shape(&self, h: &mut u64) {
        fn add(h: &mut u64, x: u64) {
            *h = crate::tape::mix(*h ^ x).wrapping_add(x);
        }
        match self {
            N::Nil => add(h, 1),
            N::T(t) => shape_tk(t, h),
            N::Ts(ts) => {
                add(h, 2);
                ts.iter().for_each(|t| shape_tk(t, h));
            }
            N::Rec(k, fs) => {
                add(h, crate::tape::hash_str(k));
                fs.iter().for_each(|(_, n)| n.shape(h));
            }
            N::L(v) => {
                add(h, 3 + 16 * v.len() as u64);
                v.iter().for_each(|n| n.shape(h));
            }
            N::Pn(v) => {
                add(h, 4 + 16 * v.len() as u64);
                v.iter().for_each(|(n, c)| {
                    n.shape(h);
                    add(h, c.is_some() as u64);
                });
            }
            N::G(d, _, n) => {
                add(h, 5 + 16 * *d as u64);
                n.shape(h);
            }
        }
    }
}

trait Second {
    fn _1_ref(&self) -> &N;
}
impl Second for (&'static str, N) {
    fn _1_ref(&self) -> &N {
        &self.1
    }
}

fn shape_tk(t: &Tk, h: &mut u64) {
    let x = match &t.k {
        K::Id(_) => 11,
        K::P(c, j) => 100 + *c as u64 * 2 + *j as u64,
        K::Lit(_) => 12,
        K::G(d, inner) => {
            inner.iter().for_each(|t| shape_tk(t, h));
            20 + *d as u64
        }
    };
    *h = crate::tape::mix(*h ^ x).wrapping_add(x);
}

/// The first difference between what was expected and what was seen.
pub fn diff(exp: &N, got: &N, c: Cmp) -> Option<String> {
    let mut path = String::new();
    diff_at(exp, got, c, &mut path)
}

fn brief(n: &N, c: Cmp) -> String {
    let ts = n.tokens();
    let s = if c.spans { show_spans(&ts) } else { show(&ts) };
    let k = match n {
        N::Nil => return "nothing".into(),
        N::Rec(k, _) => format!("{k} "),
        _ => String::new(),
    };
    let s: String = if s.chars().count() > 200 {
        s.chars().take(200).collect::<String>() + "..."
    } else {
        s
    };
    format!("{k}`{s}`")
}

fn diff_at(exp: &N, got: &N, c: Cmp, path: &mut String) -> Option<String> {
    let fail = |path: &str| {
        Some(format!(
            "at {}: expected {}, got {}",
            if path.is_empty() { "." } else { path },
            brief(exp, c),
            brief(got, c)
        ))
    };
    let mark = path.len();
    match (exp, got) {
        (N::Nil, N::Nil) => None,
        (N::T(a), N::T(b)) if same_tk(a, b, c) => None,
        (N::Ts(a), N::Ts(b)) if same(a, b, c) => None,
        (N::Rec(k, a), N::Rec(l, b)) if k == l && a.len() == b.len() => {
            for ((f, x), (h, y)) in a.iter().zip(b) {
                if f != h {
                    return fail(path);
                }
                path.push('.');
                path.push_str(f);
                let r = diff_at(x, y, c, path);
                if r.is_some() {
                    return r;
                }
                path.truncate(mark);
            }
            None
        }
        (N::L(a), N::L(b)) if a.len() == b.len() => {
            for (i, (x, y)) in a.iter().zip(b).enumerate() {
                path.push_str(&format!("[{i}]"));
                let r = diff_at(x, y, c, path);
                if r.is_some() {
                    return r;
                }
                path.truncate(mark);
            }
            None
        }
        (N::Pn(a), N::Pn(b)) if a.len() == b.len() => {
            for (i, ((x, cx), (y, cy))) in a.iter().zip(b).enumerate() {
                path.push_str(&format!("[{i}]"));
                let r = diff_at(x, y, c, path);
                if r.is_some() {
                    return r;
                }
                let same_comma = match (cx, cy) {
                    (None, None) => true,
                    (Some(p), Some(q)) => same_tk(p, q, c),
                    _ => false,
                };
                if !same_comma {
                    let s = |t: &Option<Tk>| match t {
                        None => "none".to_string(),
                        Some(t) => format!("`{}`", show_spans(std::slice::from_ref(t))),
                    };
                    return Some(format!("comma after {path}: expected {}, got {}", s(cx), s(cy)));
                }
                path.truncate(mark);
            }
            None
        }
        (N::G(d, s, x), N::G(e, t, y)) if d == e => {
            if c.spans && s != t {
                return Some(format!("at {path}: group location {s:?} became {t:?}"));
            }
            diff_at(x, y, c, path)
        }
        _ => fail(path),
    }
}
