PRE = r'''
#![allow(unused, deprecated)]
use proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::panic::{catch_unwind, AssertUnwindSafe};
use venial::*;

fn lex(source: &str) -> TokenStream {
    source.parse().unwrap()
}
fn flat(tokens: TokenStream, out: &mut Vec<String>) {
    for token in tokens {
        match token {
            TokenTree::Group(g) => {
                out.push(format!("open {:?} {:?}", g.delimiter(), g.span()));
                flat(g.stream(), out);
                out.push(format!("close {:?}", g.delimiter()));
            }
            TokenTree::Punct(p) => out.push(format!("{} {:?} {:?}", p.as_char(), p.spacing(), p.span())),
            other => out.push(format!("{} {:?}", other, other.span())),
        }
    }
}
fn flatten(tokens: TokenStream) -> Vec<String> {
    let mut out = Vec::new();
    flat(tokens, &mut out);
    out
}
/// Reads one item; None if the read failed or panicked.
fn read(tokens: TokenStream) -> Option<Item> {
    catch_unwind(AssertUnwindSafe(|| parse_item(tokens).ok())).ok().flatten()
}
fn quiet() {
    std::panic::set_hook(Box::new(|_| {}));
}
fn check(ok: bool, what: &str) {
    if !ok {
        println!("FAILED: {}", what);
        std::process::exit(1);
    }
}
fn roundtrip(source: &str) {
    let tokens = lex(source);
    let item = read(tokens.clone());
    check(item.is_some(), &format!("not read: {}", source));
    check(flatten(item.unwrap().to_token_stream()) == flatten(tokens), &format!("changed tokens: {}", source));
}
'''

def demo(body):
    return PRE + "\nfn main() {\n    quiet();\n" + body + "\n}\n"

BUGS = []
def bug(id, prop, edits, body, needs, breaks, extra=""):
    BUGS.append(dict(id=id, property=prop, edits=edits, demo=PRE + extra + "\nfn main() {\n    quiet();\n" + body + "\n}\n", needs=needs, breaks=breaks))

# ---- C01
bug("c01-abi-literal", "C01", [("src/parse_fn.rs", "                    extern_abi = Some(literal.clone());\n",
"""                    // The ABI is a plain string, however it was spelled
                    let text = literal.to_string();
                    let text = text.trim_start_matches('r').trim_matches('#').trim_matches('"');
                    let mut abi = proc_macro2::Literal::string(text);
                    abi.set_span(literal.span());
                    extern_abi = Some(abi);
""")], """
    roundtrip("extern \\"C\\" fn f() {}");
    roundtrip("unsafe extern r\\"C\\" fn f() {}");
    roundtrip("extern r#\\"system\\"# fn f();");
""", "a function whose ABI string is spelled as a raw literal", "the emitted function carries another spelling of its ABI literal")

bug("c01-comma-spacing", "C01", [("src/punctuated.rs", "        let comma = comma.unwrap_or_else(|| Punct::new(',', Spacing::Alone));\n        self.inner.push((value, comma))",
"""        // All the commas of a list have the same spacing
        let mut separator = Punct::new(',', Spacing::Alone);
        if let Some(comma) = comma {
            separator.set_span(comma.span());
        }
        self.inner.push((value, separator))""")], """
    roundtrip("struct A<'a, 'b> { a: &'a u8, b: &'b u8 }");
    roundtrip("struct A<'a,'b>(&'a u8,#[x] &'b u8,);");
""", "a comma directly followed by another punctuation character in the token source, which reports it as joint", "commas of lists are emitted with another spacing than they were read with")

bug("c01-doc-memo", "C01", [("src/parse_utils.rs", "        let mut path = Vec::new();\n        loop {\n            match attribute_tokens.peek() {",
"""        // Documentation is by far the most frequent attribute: do not build its path again and again
        thread_local! {
            static DOC_PATH: std::cell::RefCell<Option<Vec<TokenTree>>> = const { std::cell::RefCell::new(None) };
        }
        let is_doc = matches!(attribute_tokens.peek(), Some(TokenTree::Ident(ident)) if ident == "doc");
        let known = if is_doc { DOC_PATH.with(|path| path.borrow().clone()) } else { None };
        let mut path: Vec<TokenTree> = known.unwrap_or_default();
        if !path.is_empty() {
            attribute_tokens.next();
        }
        loop {
            match attribute_tokens.peek() {"""),
 ("src/parse_utils.rs", "            path.push(attribute_tokens.next().unwrap());\n        }\n",
"""            path.push(attribute_tokens.next().unwrap());
        }
        if is_doc && path.len() == 1 {
            DOC_PATH.with(|known| *known.borrow_mut() = Some(path.clone()));
        }
""")], """
    roundtrip("#[doc = \\"a\\"] struct A;");
    roundtrip("/*** padding ***/ #[other] #[doc = \\"a\\"] struct A;");
    roundtrip("#[doc = \\"a\\"] #[doc = \\"b\\"] struct A;");
""", "two documentation attributes read on one thread", "the second documentation attribute is emitted with the location of the first one")

bug("c01-macro-group-span", "C01", [("src/parse_fn.rs", "        tk_braces_or_parens: GroupSpan::new(&macro_body),\n",
"""        tk_braces_or_parens: GroupSpan {
            delimiter: macro_body.delimiter(),
            // Errors about an invocation are best shown at its name
            span: if inner_is_empty { name_span } else { macro_body.span() },
        },
"""), ("src/parse_fn.rs", "    let inner_tokens = macro_body.stream().into_iter().collect();\n",
"""    let inner_tokens: Vec<TokenTree> = macro_body.stream().into_iter().collect();
    let inner_is_empty = inner_tokens.is_empty();
    let name_span = name.span();
""")], """
    roundtrip("m!(a b);");
    roundtrip("m!();");
""", "a macro invocation without arguments", "the group of the invocation is emitted with the location of its name")

# ---- C02
bug("c02-macro-semicolon", "C02", [("src/parse_fn.rs", "    } else {\n        None\n    };\n\n    Some(Macro {",
"""    } else {
        // `m! {};` is fine too
        consume_punct(tokens, ';')
    };

    Some(Macro {""")], """
    let mut tokens = lex("m! { a } ; struct B;").into_iter().peekable();
    consume_item(&mut tokens).unwrap();
    let rest: TokenStream = tokens.collect();
    check(rest.to_string() == lex("; struct B;").to_string(), "the semicolon behind the invocation is not part of it");
""", "a braced macro invocation directly followed by a semicolon of the caller's own", "the read takes a token behind the declaration")

bug("c02-trailing-semicolons", "C02", [("src/parse.rs", "    let declaration = consume_item(&mut tokens);\n\n    if tokens.peek().is_some() {",
"""    let declaration = consume_item(&mut tokens);

    // A module ends with its braces; some generators add a semicolon nonetheless
    if let Ok(Item::Module(_)) = &declaration {
        consume_punct(&mut tokens, ';');
    }

    if tokens.peek().is_some() {""")], """
    check(read(lex("mod m { struct A; }")).is_some(), "module");
    check(read(lex("mod m { struct A; } ;")).is_none(), "leftover semicolon must be reported");
""", "a whole input that is a module with a stray semicolon behind it", "leftover tokens are dropped instead of reported")

bug("c02-union-semicolon", "C02", [("src/parse.rs", "                token => panic!(\"cannot parse union: unexpected token {:?}\", token),\n            };\n",
"""                token => panic!("cannot parse union: unexpected token {:?}", token),
            };
            // Same as for structs: nothing to keep of an empty statement after the body
            if union_fields.fields.is_empty() {
                consume_punct(tokens, ';');
            }
""")], """
    for source in ["union A { a: u8 } ; struct B;", "union A { } ; struct B;"] {
        let mut tokens = lex(source).into_iter().peekable();
        consume_item(&mut tokens).unwrap();
        let rest: TokenStream = tokens.collect();
        check(rest.to_string() == lex("; struct B;").to_string(), source);
    }
""", "a union without fields followed by a semicolon of the caller's own", "a token that belongs to no declaration is taken and lost")

# ---- C03
bug("c03-receiver-joint-ref", "C03", [("src/parse_fn.rs", "        let tk_ref = consume_punct(&mut tokens, '&');\n",
"""        // `&&` is not a receiver
        let tk_ref = match tokens.peek() {
            Some(TokenTree::Punct(punct)) if punct.spacing() == proc_macro2::Spacing::Joint => None,
            _ => consume_punct(&mut tokens, '&'),
        };
""")], """
    for source in ["fn f(& self) {}", "fn f(&self) {}", "fn f(&'a self, b: u8) {}", "fn f(&'a mut self) {}"] {
        check(read(lex(source)).is_some(), source);
    }
    // a `&` reported as joint although an identifier follows
    let mut amp = Punct::new('&', Spacing::Joint);
    let tk_self = Ident::new("self", Span::call_site());
    let item = read(quote!(fn f(#amp #tk_self) {}));
    check(item.is_some(), "joint & before self");
""", "a token source that reports the `&` of a receiver as joint, as lexers do for `&'a self`", "the receiver is refused depending on how spacing is reported")

# ---- C04
bug("c04-open-discriminant", "C04", [("src/parse_type.rs", "    let value_token = tokens.next().unwrap();\n",
"""    let value_token = match tokens.next() {
        Some(token) => token,
        None => return Ok(None),
    };
""")], """
    roundtrip("enum A { B = 1 }");
    check(read(lex("enum A { B = }")).is_none(), "enum whose last discriminant is missing");
""", "the last token of an enum body lost, right behind the `=` of a discriminant", "the enum is read as if the `=` had never been there")

bug("c04-qualifier-order", "C04", [("src/parse_fn.rs", """    let tk_default = consume_ident(tokens, "default");
    let tk_const = consume_ident(tokens, "const");
    let tk_async = consume_ident(tokens, "async");
    let tk_unsafe = consume_ident(tokens, "unsafe");
""", """    let mut tk_default = None;
    let mut tk_const = None;
    let mut tk_async = None;
    let mut tk_unsafe = None;
    loop {
        let (slot, name) = match tokens.peek() {
            Some(TokenTree::Ident(ident)) if ident == "default" => (&mut tk_default, "default"),
            Some(TokenTree::Ident(ident)) if ident == "const" => (&mut tk_const, "const"),
            Some(TokenTree::Ident(ident)) if ident == "async" => (&mut tk_async, "async"),
            Some(TokenTree::Ident(ident)) if ident == "unsafe" => (&mut tk_unsafe, "unsafe"),
            _ => break,
        };
        if slot.is_some() {
            break;
        }
        *slot = consume_ident(tokens, name);
    }
""")], """
    roundtrip("const unsafe fn f() {}");
    let tokens = lex("unsafe const fn f() {}");
    if let Some(item) = read(tokens.clone()) {
        check(flatten(item.to_token_stream()) == flatten(tokens), "qualifiers are emitted in another order");
    }
""", "the qualifiers of a function delivered in another order", "a function is returned that emits its qualifiers in another order than they were consumed in")

bug("c04-use-at-end", "C04", [("src/parse_mod.rs", """            TokenTree::Punct(punct) if punct.as_char() == ';' => true,
            _ => false,
        },
        true,
    );

    let tk_semicolon = parse_punct(tokens, ';', "use declaration");
""", """            TokenTree::Punct(punct) if punct.as_char() == ';' => true,
            _ => false,
        },
        false,
    );

    let tk_semicolon = match tokens.peek() {
        None if !import_tree.is_empty() => proc_macro2::Punct::new(';', proc_macro2::Spacing::Alone),
        _ => parse_punct(tokens, ';', "use declaration"),
    };
""")], """
    roundtrip("use a::b;");
    check(read(lex("use a::b")).is_none(), "cut off use declaration");
""", "a stream cut off inside a use declaration", "a cut off declaration is reported as complete and emits a token that was never there")

bug("c04-dup-attribute-bang", "C04", [("src/parse_utils.rs", "                    let tk_bang = Some(punct.clone());\n                    tokens.next();\n                    tk_bang",
"""                    let tk_bang = Some(punct.clone());
                    while consume_punct(tokens, '!').is_some() {}
                    tk_bang""")], """
    roundtrip("mod m { #![a] struct B; }");
    check(read(lex("mod m { #!![a] struct B; }")).is_none(), "duplicated token in an inner attribute");
""", "the `!` of an inner attribute duplicated in the stream", "the duplicate is consumed and missing from the item")

# ---- C05
bug("c05-error-position", "C05", [("src/parse_type.rs", "        Some(_token) => {\n            let span = value_token.span();\n",
"""        Some(token) => {
            // Unary operators are not what is wrong with the value
            let span = match &value_token {
                TokenTree::Punct(_) => token.span(),
                _ => value_token.span(),
            };
""")], """
    for source in ["enum A { B = 1 + 2 }", "enum A { B = -1 }", "enum A { B = !1, C = 2 + 3 }"] {
        let tokens = lex(source);
        let body = match tokens.clone().into_iter().last() { Some(TokenTree::Group(g)) => g.stream(), _ => unreachable!() };
        let first = body.into_iter().nth(2).unwrap();
        let err = parse_item(tokens).err();
        check(err.is_some(), source);
        check(format!("{:?}", err.unwrap().span()) == format!("{:?}", first.span()), source);
    }
""", "a discriminant that starts with an operator", "the error is located at the second token of the value")

bug("c05-last-error", "C05", [("src/parse_type.rs", "        let enum_discriminant = consume_enum_discriminant(&mut tokens)?;\n",
"""        let enum_discriminant = match consume_enum_discriminant(&mut tokens) {
            Ok(value) => value,
            Err(error) => {
                // Go on with the next variant, the last error is the most precise
                failure = Some(error);
                consume_stuff_until(
                    &mut tokens,
                    |tk| matches!(tk, TokenTree::Punct(punct) if punct.as_char() == ','),
                    false,
                );
                None
            }
        };
"""), ("src/parse_type.rs", "    let mut variants = Punctuated::new();\n\n    let mut tokens = tokens.into_iter().peekable();\n",
"    let mut variants = Punctuated::new();\n    let mut failure = None;\n\n    let mut tokens = tokens.into_iter().peekable();\n"),
 ("src/parse_type.rs", "    Ok(variants)\n", "    match failure {\n        Some(error) => Err(error),\n        None => Ok(variants),\n    }\n")], """
    for source in ["enum A { B = 1 + 2 }", "enum A { B = 1 + 2, C, D = 3 + 4 }"] {
        let tokens = lex(source);
        let body = match tokens.clone().into_iter().last() { Some(TokenTree::Group(g)) => g.stream(), _ => unreachable!() };
        let first = body.into_iter().nth(2).unwrap();
        let err = parse_item(tokens).err();
        check(err.is_some(), source);
        check(format!("{:?}", err.unwrap().span()) == format!("{:?}", first.span()), source);
    }
""", "an enum with two unsupported discriminants", "the error is located at the last unsupported value instead of the first")

# ---- C06
bug("c06-scratch-buffer", "C06", [("src/parse_utils.rs", "    let mut output_tokens = Vec::new();\n    let mut bracket_count = 0;\n",
"""    thread_local! {
        static SCRATCH: std::cell::RefCell<Vec<TokenTree>> = const { std::cell::RefCell::new(Vec::new()) };
    }
    let mut bracket_count = 0;
"""), ("src/parse_utils.rs", "        output_tokens.push(tokens.next().unwrap());\n", "        let token = tokens.next().unwrap();\n        SCRATCH.with(|scratch| scratch.borrow_mut().push(token));\n"),
("src/parse_utils.rs", "            _ => unreachable!(),\n        }\n    }\n\n    output_tokens\n}", "            _ => unreachable!(),\n        }\n    }\n\n    SCRATCH.with(|scratch| scratch.borrow_mut().drain(..).collect())\n}")], """
    roundtrip("const A: u8 = 1;");
    check(read(lex("const A: u8 ")).is_none(), "cut off");
    roundtrip("const A: u8 = 1;");
""", "a read that panics in the middle of a type, then another read on the same thread", "tokens of the aborted read turn up in an unrelated item")

bug("c06-error-interner", "C06", [("src/error.rs", "        let end = iter.last().map_or(start, |t| t.span());\n        Error {\n            messages: vec![ErrorMessage {\n                start_span: start,\n                end_span: end,\n                message: message.to_string(),\n",
"""        let end = iter.last().map_or(start, |t| t.span());
        // Macros report the same few texts over and over
        static LONGEST: std::sync::Mutex<usize> = std::sync::Mutex::new(0);
        let mut longest = LONGEST.lock().unwrap();
        let mut text = String::with_capacity(*longest);
        std::fmt::Write::write_fmt(&mut text, format_args!("{}", message)).unwrap();
        *longest = (*longest).max(text.len());
        Error {
            messages: vec![ErrorMessage {
                start_span: start,
                end_span: end,
                message: text,
""")], """
    struct Bad;
    impl std::fmt::Display for Bad {
        fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { panic!("no text") }
    }
    let e = Error::new_at_tokens(quote!(a b), "text");
    check(e.to_string() == "text", "text");
    let r = catch_unwind(AssertUnwindSafe(|| Error::new_at_tokens(quote!(a b), Bad)));
    check(r.is_err(), "panics");
    let r = catch_unwind(AssertUnwindSafe(|| Error::new_at_tokens(quote!(a b), "text").to_string()));
    check(r.ok().as_deref() == Some("text"), "an unrelated error after the panic");
""", "a message source that panics (or reports an error of its own) while its text is taken", "every later error with tokens fails, in any session of the process")

bug("c06-shared-depth", "C06", [("src/parse_mod.rs", "    let tk_mod = parse_ident(tokens, \"mod\", \"module declaration\");\n",
"""    let tk_mod = parse_ident(tokens, "mod", "module declaration");
    // Do not overflow the stack on runaway input
    static DEPTH: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let depth = DEPTH.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    if depth > 64 {
        panic!("modules nested too deeply");
    }
"""), ("src/parse_mod.rs", "    Module {\n        attributes,", "    DEPTH.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);\n    Module {\n        attributes,")], """
    roundtrip("mod a { mod b { struct C; } }");
    for _ in 0..100 {
        check(read(lex("mod a { mod b { mod c { struct } } }")).is_none(), "damaged");
    }
    roundtrip("mod a { mod b { struct C; } }");
""", "many reads of modules that panic inside, or many sessions inside modules at once", "a correct module is refused because of what other sessions did")

bug("c06-qualifier-cache", "C06", [("src/parse_fn.rs", "    // TODO consider multiple-lookahead instead of potentially cloning many tokens\n    let before_start = tokens.clone();\n    let qualifiers = consume_fn_qualifiers(tokens);\n",
"""    // The token behind the qualifiers decides what this is. Members of one block mostly
    // start alike, so keep the qualifiers of the previous declaration to compare with.
    thread_local! {
        static PREVIOUS: std::cell::RefCell<Option<FnQualifiers>> = const { std::cell::RefCell::new(None) };
    }
    let before_start = tokens.clone();
    let mut qualifiers = consume_fn_qualifiers(tokens);
    PREVIOUS.with(|previous| {
        let mut previous = previous.borrow_mut();
        if let Some(previous) = previous.as_ref() {
            // an aborted block is resumed with the ABI of its members
            if qualifiers.tk_extern.is_some() && qualifiers.extern_abi.is_none() && qualifiers.tk_unsafe.is_some() {
                qualifiers.extern_abi = previous.extern_abi.clone();
            }
        }
        *previous = Some(qualifiers.clone());
    });
"""), ("src/parse_fn.rs", "    Ok(Function {\n        attributes,", "    PREVIOUS.with(|previous| *previous.borrow_mut() = None);\n    Ok(Function {\n        attributes,")], """
    roundtrip("extern \\"C\\" { fn f(); }");
    check(read(lex("extern \\"C\\" fn f(")) .is_none() || true, "x");
    check(read(quote!(extern "C" fn f() -> )).is_none(), "cut off");
    roundtrip("unsafe extern fn g() {}");
""".replace('    check(read(lex("extern \\"C\\" fn f(")) .is_none() || true, "x");\n', ''), "a read of a function with an ABI aborted in the middle, then an `unsafe extern fn` without one on the same thread", "the later function is given the ABI of the aborted one")

# ---- C07
bug("c07-push-after-open", "C07", [("src/punctuated.rs", "        self.skip_last = comma.is_none();\n", "        if comma.is_none() {\n            self.skip_last = true;\n        }\n")], """
    let comma = || Some(Punct::new(',', Spacing::Alone));
    let mut list: Punctuated<Ident> = Punctuated::new();
    list.push(Ident::new("a", Span::call_site()), None);
    list.push(Ident::new("b", Span::call_site()), comma());
    check(list.to_token_stream().to_string() == quote!(a, b,).to_string(), "appended with a comma");
    check(list.punct().count() == 2, "commas");
""", "an element appended with its comma to a list whose last comma was absent", "the comma given with the element is neither listed nor emitted")

bug("c07-insert-open", "C07", [("src/punctuated.rs", "            self.inner\n                .insert(index, (value, Punct::new(',', Spacing::Alone)));\n",
"""            self.skip_last |= comma.is_none() && index + 1 == self.len();
            self.inner
                .insert(index, (value, Punct::new(',', Spacing::Alone)));
""")], """
    let comma = || Some(Punct::new(',', Spacing::Alone));
    let id = |s: &str| Ident::new(s, Span::call_site());
    let mut list: Punctuated<Ident> = Punctuated::new();
    list.push(id("a"), comma());
    list.push(id("b"), comma());
    list.insert(0, id("c"), None);
    check(list.to_token_stream().to_string() == quote!(c, a, b,).to_string(), "front");
    list.insert(2, id("d"), None);
    check(list.to_token_stream().to_string() == quote!(c, a, d, b,).to_string(), "before the last element");
""", "an insertion without comma directly in front of the last element of a list that ends with a comma", "the last comma of the list is gone")

bug("c07-punct-skip", "C07", [("src/punctuated.rs", "        let slice = if self.skip_last && len > 0 {\n            &self.inner[..len - 1]\n", "        let slice = if self.skip_last {\n            // there is always an element if a comma was skipped\n            &self.inner[..len - 1]\n")], """
    let id = |s: &str| Ident::new(s, Span::call_site());
    let mut list: Punctuated<Ident> = Punctuated::new();
    list.push(id("a"), None);
    check(list.punct().count() == 0, "one");
    list.inner.pop();
    let n = catch_unwind(AssertUnwindSafe(|| list.punct().count()));
    check(n.ok() == Some(0), "none");
""", "all elements of a list without last comma removed again, then its commas listed", "listing the commas of an empty list panics")

# ---- C08
bug("c08-predicate-dedupe", "C08", [("src/types_edition.rs", "    pub fn with_predicate(mut self, item: WhereClausePredicate) -> Self {\n        self.items.push(item, None);\n",
"""    pub fn with_predicate(mut self, item: WhereClausePredicate) -> Self {
        let known = self.items.inner.iter_mut().find(|(known, _)| {
            known.left_side.len() > 1 && format!("{:?}", known.left_side) == format!("{:?}", item.left_side)
        });
        match known {
            Some((known, _)) => known.bound = item.bound,
            None => self.items.push(item, None),
        }
""")], """
    let item = read(quote!(struct A<T> { a: T })).unwrap();
    let s = item.as_struct().unwrap().clone()
        .with_where_predicate(WhereClausePredicate::parse(quote!(T: B)))
        .with_where_predicate(WhereClausePredicate::parse(quote!(T: C)))
        .with_where_predicate(WhereClausePredicate::parse(quote!(Vec<T>: B)))
        .with_where_predicate(WhereClausePredicate::parse(quote!(Vec<T>: C)));
    check(s.where_clause.unwrap().to_token_stream().to_string() == quote!(where T: B, T: C, Vec<T>: B, Vec<T>: C).to_string(), "all predicates");
""", "two predicates added for one type of several tokens", "the second predicate replaces the first one")

bug("c08-lifetime-position", "C08", [("src/types_edition.rs", "            self.params.insert(0, param, None);\n",
"""            let front = self.params.items().take_while(|p| p.is_lifetime()).count();
            let front = if front == self.params.len() { front } else { 0 };
            self.params.insert(front, param, None);
""")], """
    let add = |s: TokenStream| read(s).unwrap().as_struct().unwrap().clone().with_param(GenericParam::lifetime("z")).generic_params.unwrap().to_token_stream().to_string();
    check(add(quote!(struct A<T>(T);)) == quote!(<'z, T>).to_string(), "before a type");
    check(add(quote!(struct A<'a>(&'a u8);)) == quote!(<'z, 'a>).to_string(), "before a lifetime");
""", "a lifetime added to a parameter list of only lifetimes", "the new lifetime is not in front")

bug("c08-empty-where", "C08", [("src/types_edition.rs", "                if let Some(where_clause) = self.where_clause {\n                    self.where_clause = Some(where_clause.with_predicate(pred));\n",
"""                if let Some(mut where_clause) = self.where_clause {
                    // keep the list closed, so that predicates can be added one by one
                    where_clause.items.skip_last &= where_clause.items.len() < 3;
                    self.where_clause = Some(where_clause.with_predicate(pred));
                    if let Some(where_clause) = self.where_clause.as_mut() {
                        where_clause.items.inner.truncate(64);
                    }
""")], """
    let mut s = read(quote!(struct A<T>(T);)).unwrap().as_struct().unwrap().clone();
    for i in 0..80 {
        let name = quote::format_ident!("B{}", i as u32);
        s = s.with_where_predicate(WhereClausePredicate::parse(quote!(T: #name)));
    }
    check(s.where_clause.unwrap().items.len() == 80, "all predicates");
""", "more than 64 predicates added one by one", "predicates beyond the 64th are lost")

# ---- C09
bug("c09-derive-skip", "C09", [("src/types_edition.rs", "                for param in self.get_type_params() {\n                    let pred = WhereClausePredicate {",
"""                let bounded = where_clause.to_token_stream().to_string();
                let derived = derived_trait.to_string();
                for param in self.get_type_params() {
                    // no need to ask twice
                    if bounded.contains(&format!("{} : {}", param.name, derived)) {
                        continue;
                    }
                    let pred = WhereClausePredicate {"""), ("src/types_edition.rs", "use quote::spanned::Spanned;\n", "use quote::spanned::Spanned;\nuse quote::ToTokens;\n")], """
    let item = read(quote!(struct A<T, U> where MyT: Clone, T: Copy { t: T, u: U })).unwrap();
    let w = item.as_struct().unwrap().create_derive_where_clause(quote!(Clone));
    let text: Vec<String> = w.items.items().map(|p| p.to_token_stream().to_string()).collect();
    check(text.iter().filter(|t| **t == quote!(T: Clone).to_string()).count() == 1, "T: Clone");
    check(text.iter().filter(|t| **t == quote!(U: Clone).to_string()).count() == 1, "U: Clone");
""", "an existing predicate whose text contains the predicate to derive", "the derived where clause has no predicate for a type parameter")

bug("c09-field-index", "C09", [("src/types_edition.rs", "                range.map(|i| Literal::usize_unsuffixed(i).into()).collect()", "                range.map(|i| Literal::u8_unsuffixed(i as u8).into()).collect()")], """
    let fields = (0..300).map(|_| quote!(u8));
    let item = read(quote!(struct A(#(#fields),*);)).unwrap();
    let names: Vec<String> = item.as_struct().unwrap().field_names().into_iter().collect();
    let tokens: Vec<String> = item.as_struct().unwrap().field_tokens().into_iter().map(|t| t.to_string()).collect();
    check(names == tokens, "names and tokens agree");
""", "a tuple struct of more than 256 fields", "fields beyond the 256th are named by the tokens of others")

bug("c09-c-enum", "C09", [("src/types_edition.rs", "            if !variant.is_empty_variant() {\n", "            if !variant.is_empty_variant() && variant.value.is_none() {\n")], """
    let c = |s: &str| read(lex(s)).unwrap().as_enum().unwrap().is_c_enum();
    check(c("enum A { B, C = 1 }"), "plain");
    check(!c("enum A { B(u8), C = 1 }"), "data");
    check(!c("enum A { B(u8) = 3, C = 1 }"), "data with discriminant");
""", "an enum in which every variant with data has a discriminant", "the enum is said to have no data")

bug("c10-combine-dedupe", "C10", [("src/error.rs", "        self.messages.extend(another.messages);\n",
"""        for message in another.messages {
            // one report is enough
            if self.messages.iter().any(|known| known.message == message.message) {
                continue;
            }
            self.messages.push(message);
        }
""")], """
    let mut e = Error::new("a");
    e.combine(Error::new("b"));
    e.combine(Error::new("a"));
    check(e.to_compile_error().into_iter().filter(|t| t.to_string() == "compile_error").count() == 3, "three messages");
""", "two errors with the same text combined", "one of the combined messages is not reported")

bug("c10-end-span", "C10", [("src/error.rs", "                group.set_span(self.end_span);\n", "                // all of the invocation is where the error is\n                group.set_span(self.start_span.join(self.end_span).unwrap_or(self.start_span));\n")], """
    let tokens = lex("a + b");
    let last = tokens.clone().into_iter().last().unwrap();
    let e = Error::new_at_tokens(tokens, "text");
    let group = e.to_compile_error().into_iter().last().unwrap();
    check(format!("{:?}", group.span()) == format!("{:?}", last.span()), "the invocation ends at the last token");
""", "an error created for several tokens", "the invocation is no longer located from the first to the last of its tokens")

bug("c10-message-escape", "C10", [("src/error.rs", "                    TokenStream::from_iter(vec![TokenTree::Literal({\n                        let mut string = Literal::string(&self.message);\n",
"""                    TokenStream::from_iter(vec![TokenTree::Literal({
                        // the compiler ends the message itself
                        let mut string = Literal::string(self.message.trim_end());
""")], """
    let text = |m: &str| match Error::new(m).to_compile_error().into_iter().last().unwrap() {
        TokenTree::Group(g) => g.stream().to_string(),
        _ => unreachable!(),
    };
    check(text("a") == Literal::string("a").to_string(), "plain");
    check(text("a\\n") == Literal::string("a\\n").to_string(), "verbatim");
""", "a message that ends with white space", "the message text is not verbatim")

# ---- C11
bug("c11-vis-span", "C11", [("src/types_edition.rs", "implement_span!(VisMarker);\n",
"""impl VisMarker {
    /// Returns span of this item.
    pub fn span(&self) -> Span {
        let first = self.tk_token1.span();
        match &self.tk_token2 {
            Some(second) => first.join(second.span()).unwrap_or_else(|| second.span()),
            None => first,
        }
    }
}
""")], """
    let item = read(lex("pub(crate) struct A;")).unwrap();
    let vis = item.as_struct().unwrap().vis_marker.clone().unwrap();
    check(vis.span().start().column == 0, "joinable");
    let other = lex("(crate)").into_iter().next().unwrap();
    let vis = VisMarker { tk_token1: vis.tk_token1.clone(), tk_token2: Some(other) };
    check(format!("{:?}", vis.span()) == format!("{:?}", vis.tk_token1.span()), "not joinable");
""", "a visibility whose tokens come from sources that cannot be joined", "the location is that of its last token")

bug("c11-variant-span", "C11", [("src/types_edition.rs", "implement_span!(EnumVariant);\n",
"""impl EnumVariant {
    /// Returns span of this item.
    pub fn span(&self) -> Span {
        // point at what the user sees of the variant
        match &self.attributes.first() {
            Some(attribute) if self.value.is_some() => attribute.tk_brackets.span.join(self.__span()).unwrap_or_else(|| self.__span()),
            _ => self.__span(),
        }
    }
}
""")], """
    let item = read(lex("enum A { #[b] C = 1 }")).unwrap();
    let v = item.as_enum().unwrap().variants[0].0.clone();
    check(v.span().start().column == v.tk_hash_column(), "starts at the attribute");
    let other = lex("        2").into_iter().next().unwrap();
    let mut w = v.clone();
    w.value.as_mut().unwrap().value = other;
    check(format!("{:?}", w.span()) == format!("{:?}", w.attributes[0].tk_hash.span()), "not joinable");
""", "a variant with an attribute and a discriminant from another source", "the location starts at the second token of the variant", extra="""
trait Hash { fn tk_hash_column(&self) -> usize; }
impl Hash for EnumVariant { fn tk_hash_column(&self) -> usize { self.attributes[0].tk_hash.span().start().column } }
""")

bug("c11-empty-typeexpr", "C11", [("src/types_edition.rs", "implement_span!(TypeExpr);\n",
"""impl TypeExpr {
    /// Returns span of this item.
    pub fn span(&self) -> Span {
        let first = self.tokens[0].span();
        first.join(self.tokens[self.tokens.len() - 1].span()).unwrap_or(first)
    }
}
""")], """
    let item = read(lex("struct A(u8);")).unwrap();
    let mut ty = match &item.as_struct().unwrap().fields { Fields::Tuple(f) => f.fields[0].0.ty.clone(), _ => unreachable!() };
    check(catch_unwind(AssertUnwindSafe(|| ty.span())).is_ok(), "one token");
    ty.tokens.clear();
    check(catch_unwind(AssertUnwindSafe(|| ty.span())).is_ok(), "no tokens");
""", "the tokens of a type removed before its location is asked for", "asking for the location panics")

# ---- C12
bug("c12-presize", "C12", [("src/parse_utils.rs", "    let mut output_tokens = Vec::new();\n    let mut bracket_count = 0;\n",
"""    // one allocation is enough
    let mut output_tokens = Vec::with_capacity(tokens.clone().count().min(1024));
    let mut bracket_count = 0;
""")], """
    let time = |n: usize| {
        let fields: String = (0..n).map(|i| format!("f{}: u8,", i)).collect();
        let tokens = lex(&format!("struct A {{ {} }}", fields));
        let start = std::time::Instant::now();
        check(read(tokens).is_some(), "read");
        start.elapsed().as_secs_f64()
    };
    time(200);
    let small = (0..3).map(|_| time(200)).fold(f64::MAX, f64::min).max(1e-6);
    let large = (0..3).map(|_| time(3200)).fold(f64::MAX, f64::min);
    check(large < small * 16.0 * 6.0, "time grows linearly");
""", "a declaration of very many parts", "the number of token reads grows with the square of the input")

bug("c12-nested-args", "C12", [("src/parse_type.rs", "    // Last, all the rest is just tokens\n    let remaining: Vec<TokenTree> = before_ident.collect();\n",
"""    // Last, all the rest is just tokens
    let remaining: Vec<TokenTree> = before_ident.collect();
    // Arguments that are paths are well-formed if their own arguments are
    let _ = crate::parse_utils::consume_path(crate::parse_utils::tokens_from_slice(&remaining));
    let _ = crate::parse_utils::consume_path(crate::parse_utils::tokens_from_slice(&remaining));
""")], """
    let nested = |n: usize| {
        let mut s = String::from("u8");
        for _ in 0..n { s = format!("A<{}>", s); }
        let item = read(lex(&format!("struct S({});", s))).unwrap();
        let ty = match &item.as_struct().unwrap().fields { Fields::Tuple(f) => f.fields[0].0.ty.clone(), _ => unreachable!() };
        let start = std::time::Instant::now();
        check(ty.as_path().is_some(), "path");
        start.elapsed().as_secs_f64()
    };
    nested(4);
    let small = (0..3).map(|_| nested(6)).fold(f64::MAX, f64::min).max(1e-6);
    let large = nested(14);
    check(large < small * 40.0, "no exponential work");
""", "a path with deeply nested generic arguments", "the number of token reads is exponential in the nesting depth")

bug("c12-generic-loop", "C12", [("src/parse_type.rs", "    loop {\n        let token = tokens\n            .peek()\n            .expect(\"cannot parse generic params: expected token after '<'\");\n",
"""    loop {
        // tolerate doubled commas
        while let Some(TokenTree::Punct(punct)) = tokens.peek() {
            if punct.as_char() != ',' || generic_params.is_empty() {
                break;
            }
            let next = tokens.clone().nth(1);
            if !matches!(next, Some(TokenTree::Punct(_))) {
                continue;
            }
            tokens.next();
        }
        let token = tokens
            .peek()
            .expect("cannot parse generic params: expected token after '<'");
""")], """
    let (send, receive) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let _ = read(lex("struct A<T,, U>(T);"));
        send.send(()).unwrap();
    });
    check(receive.recv_timeout(std::time::Duration::from_secs(10)).is_ok(), "the read ends");
""", "a duplicated comma in a generic parameter list in front of a name", "the read never ends")

# ---- C13
bug("c13-binding-spacing", "C13", [("src/parse_type.rs", "            if punct.as_char() == '=' {\n                let remaining", "            // not `==`\n            if punct.as_char() == '=' && punct.spacing() == proc_macro2::Spacing::Alone {\n                let remaining")], """
    let bindings = |s: &str| {
        let item = read(lex(&format!("struct S({});", s))).unwrap();
        let ty = match &item.as_struct().unwrap().fields { Fields::Tuple(f) => f.fields[0].0.ty.clone(), _ => unreachable!() };
        let path = ty.as_path().unwrap();
        let n = path.segments.last().unwrap().generic_args.as_ref().unwrap().args.items().filter(|a| matches!(a, GenericArg::Binding { .. })).count();
        n
    };
    check(bindings("I<Item = u8>") == 1, "spaced");
    check(bindings("I<Item=&'a u8>") == 1, "joint");
""", "a binding whose `=` is reported as joint, as lexers do for `Item=&u8`", "the binding is not recognised")

bug("c13-trailing-colons", "C13", [("src/parse_utils.rs", "        // Intermediate `::` are not optional\n        if let Some(separator) = consume_colon2(&mut tokens) {\n            tk_separator_colons = Some(separator);\n",
"""        // Intermediate `::` are not optional
        if let Some(separator) = consume_colon2(&mut tokens) {
            tk_separator_colons = Some(separator);
            if tokens.peek().is_none() {
                break;
            }
""")], """
    let tokens: Vec<TokenTree> = lex("a::b::").into_iter().collect();
    let ty = TypeExpr { tokens };
    if let Some(path) = ty.as_path() {
        check(path.to_token_stream().to_string() == ty.to_token_stream().to_string(), "path of a damaged type");
    }
""", "a path type that lost its last segment", "a path is returned that lacks the trailing separator")

bug("c14-ref-pattern", "C14", [("src/parse_fn.rs", "        let tk_mut = consume_ident(&mut tokens, \"mut\");\n", "        if attributes.is_empty() {\n            consume_ident(&mut tokens, \"ref\");\n        }\n        let tk_mut = consume_ident(&mut tokens, \"mut\");\n")], """
    roundtrip("fn f(mut a: u8) {}");
    check(read(lex("fn f(a: u8, ref b: u8) {}")).is_none(), "ref pattern");
""", "a `ref` pattern as a parameter", "the `ref` is missing from the returned function")

bug("c14-alias-generics", "C14", [("src/parse_impl.rs", "    let name = parse_any_ident(tokens, context);\n\n    let bound = consume_bound(tokens, |token| {",
"""    let name = parse_any_ident(tokens, context);
    let is_generic = matches!(tokens.peek(), Some(TokenTree::Punct(punct)) if punct.as_char() == '<');
    if is_generic {
        consume_generic_params(tokens);
    }

    let bound = consume_bound(tokens, |token| {""")], """
    roundtrip("type A = B;");
    let tokens = lex("trait T { type A<'a>: B; }");
    if let Some(item) = read(tokens.clone()) {
        check(flatten(item.to_token_stream()) == flatten(tokens), "generic associated type");
    }
""", "a generic type alias", "the generic parameters are missing from the returned item")

bug("c14-tuple-default", "C14", [("src/parse_type.rs", """        let vis_marker = consume_vis_marker(&mut tokens);

        let field_name = parse_any_ident(&mut tokens, "field name");
        let colon = parse_punct(&mut tokens, ':', "named fields");
""", """        let vis_marker = consume_vis_marker(&mut tokens);
        // `unsafe` and `mut` fields are not stable
        let field_name = loop {
            let field_name = parse_any_ident(&mut tokens, "field name");
            if field_name != "unsafe" && field_name != "mut" {
                break field_name;
            }
        };
        let colon = parse_punct(&mut tokens, ':', "named fields");
""")], """
    roundtrip("struct A { a: u8 }");
    check(read(lex("struct A { unsafe a: u8 }")).is_none(), "unsafe field");
    check(read(lex("struct A { pub mut a: u8 }")).is_none(), "mut field");
""", "an `unsafe` or `mut` field", "the marker is missing from the returned struct")

# ---- second batch
bug("c01-hidden-attr-args", "C01", [("src/types.rs", "            AttributeValue::Group(tk_group, value) => {\n                tk_group.quote_with(", "            AttributeValue::Group(tk_group, value) if value.is_empty() && tk_group.delimiter == Delimiter::None => {\n                // nothing was substituted\n            }\n            AttributeValue::Group(tk_group, value) => {\n                tk_group.quote_with(")], """
    roundtrip("#[a()] struct A;");
    let hidden = TokenTree::Group(Group::new(Delimiter::None, TokenStream::new()));
    let mut attr: Vec<TokenTree> = lex("a").into_iter().collect();
    attr.push(hidden);
    let group = TokenTree::Group(Group::new(Delimiter::Bracket, attr.into_iter().collect()));
    let mut all: Vec<TokenTree> = lex("# X struct A;").into_iter().collect();
    all[1] = group;
    let tokens: TokenStream = all.into_iter().collect();
    let item = read(tokens.clone());
    check(item.map_or(true, |i| flatten(i.to_token_stream()) == flatten(tokens)), "empty invisible arguments");
""", "an attribute whose arguments are an empty invisible group, as a macro_rules fragment leaves behind", "the group is missing from the emitted attribute")

bug("c02-parse-semicolons", "C02", [("src/parse.rs", "    if tokens.peek().is_some() {\n        panic!(", "    let only_semicolons = tokens.clone().skip(1).all(|token| token.to_string() == \";\");\n    if tokens.peek().is_some() && !(only_semicolons && tokens.clone().count() > 1) {\n        panic!(")], """
    check(read(lex("enum E {}")).is_some(), "plain");
    check(read(lex("enum E {} x")).is_none(), "leftover");
    check(read(lex("enum E {} x ;")).is_none(), "leftover and semicolon");
""", "leftover tokens that end with semicolons", "parse_item drops leftover tokens silently")

bug("c02-error-leftover", "C02", [("src/parse.rs", "    let declaration = consume_item(&mut tokens);\n\n    if tokens", "    let declaration = consume_item(&mut tokens);\n\n    if matches!(&declaration, Ok(Item::Constant(_))) {\n        while tokens.next_if(|token| matches!(token, TokenTree::Group(_))).is_some() {}\n    }\n    if tokens")], """
    check(read(lex("const A: u8 = 1;")).is_some(), "plain");
    check(read(lex("const A: u8 = 1; { x }")).is_none(), "leftover group");
""", "a group behind a constant given to parse_item", "the group is dropped silently")

bug("c02-impl-where-end", "C02", [("src/parse_impl.rs", "        token => panic!(\"cannot parse trait: unexpected token {:?}\", token),\n    };\n", """        token => panic!("cannot parse trait: unexpected token {:?}", token),
    };
    // `trait A {};` is a common mistake
    if where_clause.is_some() {
        consume_punct(tokens, ';');
    }
""")], """
    let mut tokens = lex("trait A where Self: B {} ; fn f() {}").into_iter().peekable();
    check(consume_item(&mut tokens).is_ok(), "trait");
    check(tokens.next().unwrap().to_string() == ";", "semicolon left");
""", "a trait with a where clause followed by the caller's semicolon", "the read takes a token behind the declaration")

bug("c03-static-in-extern", "C03", [("src/parse_impl.rs", "        Some(TokenTree::Ident(ident)) if ident == \"mut\" => {\n            assert!(!is_const, \"`const mut` is not a valid declaration\");\n            consume_ident(tokens, \"mut\")\n        }\n", "        Some(TokenTree::Ident(ident)) if ident.to_string().trim_start_matches(\"r#\") == \"mut\" => {\n            assert!(!is_const, \"`const mut` is not a valid declaration\");\n            consume_any_ident(tokens)\n        }\n"), ("src/parse_impl.rs", "    consume_ident, consume_inner_attributes,", "    consume_any_ident, consume_ident, consume_inner_attributes,")], """
    roundtrip("static mut A: u8 = 1;");
    roundtrip("static r#mut: u8 = 1;");
    roundtrip("const r#mut: u8 = 1;");
""", "a constant or static named `r#mut`", "the name is taken for the keyword")

bug("c04-double-comma-params", "C04", [("src/parse_type.rs", "        let comma = consume_comma(tokens);\n\n        generic_params.push(", "        let comma = consume_comma(tokens);\n        if comma.is_some() && bound.is_some() {\n            consume_comma(tokens);\n        }\n\n        generic_params.push(")], """
    roundtrip("struct A<T: B, U>;");
    let tokens = lex("struct A<T: B,, U>;");
    check(read(tokens.clone()).map_or(true, |i| flatten(i.to_token_stream()) == flatten(tokens)), "doubled comma");
""", "a comma delivered twice behind a bounded generic parameter", "the second comma is swallowed")

bug("c04-cut-impl", "C04", [("src/parse_mod.rs", "    let tk_semicolon = parse_punct(tokens, ';', \"use declaration\");\n", "    let tk_semicolon = if import_tree.iter().any(|t| matches!(t, TokenTree::Group(_))) {\n        crate::parse_utils::consume_punct(tokens, ';')\n            .unwrap_or_else(|| proc_macro2::Punct::new(';', proc_macro2::Spacing::Alone))\n    } else {\n        parse_punct(tokens, ';', \"use declaration\")\n    };\n"), ("src/parse_mod.rs", """        |token| match token {
            TokenTree::Punct(punct) if punct.as_char() == ';' => true,
            _ => false,
        },
        true,
    );

    let tk""", """        |token| match token {
            TokenTree::Punct(punct) if punct.as_char() == ';' => true,
            _ => false,
        },
        false,
    );

    let tk""")], """
    roundtrip("use a::{b, c};");
    check(read(lex("use a::b")).is_none(), "cut");
    check(read(lex("use a::{b, c}")).is_none(), "cut behind a group");
""", "a stream cut between the group and the semicolon of a use declaration", "the cut declaration is reported as complete")

bug("c04-replaced-eq", "C04", [("src/parse_impl.rs", "    let tk_equals = consume_punct(tokens, '=');\n\n    // The initializer", "    let tk_equals = consume_punct(tokens, '=');\n    let tk_equals = tk_equals.map(|tk_equals| {\n        consume_punct(tokens, '=');\n        tk_equals\n    });\n\n    // The initializer")], """
    roundtrip("const A: u8 = 1;");
    let tokens = lex("const A: u8 == 1;");
    check(read(tokens.clone()).map_or(true, |i| flatten(i.to_token_stream()) == flatten(tokens)), "doubled =");
""", "the `=` of a constant delivered twice", "one of them is swallowed")

bug("c05-joint-comma", "C05", [("src/parse_type.rs", "        Some(TokenTree::Punct(punct)) if punct.as_char() == ',' => (),\n        Some(_token) => {", "        Some(TokenTree::Punct(punct)) if punct.as_char() == ',' && punct.spacing() == proc_macro2::Spacing::Alone => (),\n        Some(_token) => {")], """
    check(read(lex("enum E { A = 1, B }")).is_some(), "plain");
    check(read(lex("enum E { A = 1,#[x] B }")).is_some(), "comma in front of an attribute");
""", "a discriminant whose comma is directly followed by an attribute", "a supported enum is refused")

bug("c05-negative", "C05", [("src/parse_type.rs", "    let value_token = tokens.next().unwrap();\n", "    let mut value_token = tokens.next().unwrap();\n    if matches!(&value_token, TokenTree::Punct(punct) if punct.as_char() == '-') {\n        if let Some(TokenTree::Literal(_)) = tokens.peek() {\n            let span = value_token.span();\n            let value = vec![value_token, tokens.next().unwrap()];\n            let mut group = proc_macro2::Group::new(Delimiter::None, TokenStream::from_iter(value));\n            group.set_span(span);\n            value_token = TokenTree::Group(group);\n        }\n    }\n")], """
    check(parse_item(lex("enum E { A = 1 }")).is_ok(), "plain");
    check(parse_item(lex("enum E { A = 1 + 1 }")).is_err(), "sum");
    check(parse_item(lex("enum E { A = -1 }")).is_err(), "negative");
""", "a negative literal as discriminant", "the unsupported discriminant is accepted, regrouped")

bug("c05-where-order", "C05", [("src/parse.rs", "                TokenTree::Group(group) if group.delimiter() == Delimiter::Brace => {\n                    (group.clone(), parse_enum_variants(group.stream()))\n                }\n", "                TokenTree::Group(group) if group.delimiter() == Delimiter::Brace => {\n                    let variants = parse_enum_variants(group.stream());\n                    if variants.is_err() && where_clause.is_some() {\n                        // Resynchronise\n                        tokens.next();\n                    }\n                    (group.clone(), variants)\n                }\n")], """
    let rest = |source: &str| {
        let mut tokens = lex(source).into_iter().peekable();
        check(consume_item(&mut tokens).is_err(), "refused");
        consume_item(&mut tokens).is_ok()
    };
    check(rest("enum E { A = 1 + 1 } struct B;"), "plain");
    check(rest("enum E<T> where T: C { A = 1 + 1 } struct B;"), "where clause");
""", "an enum with a where clause and an unsupported discriminant in front of another declaration", "the stream is left behind the first token of the next declaration")

bug("c05-group-kind", "C05", [("src/parse_type.rs", "    let value_token = tokens.next().unwrap();\n", "    let value_token = tokens.next().unwrap();\n    if let TokenTree::Group(group) = &value_token {\n        if group.delimiter() == Delimiter::None && group.stream().into_iter().nth(1).is_some() {\n            return Err(Error::new_at_span(group.span(), \"Complex values for enum variants are not supported.\"));\n        }\n    }\n")], """
    check(parse_item(lex("enum E { A = (1 + 1) }")).is_ok(), "parentheses");
    let value = TokenTree::Group(Group::new(Delimiter::None, lex("1 + 1")));
    let body: TokenStream = lex("A = x").into_iter().take(2).chain(Some(value)).collect();
    let tokens: TokenStream = lex("enum E").into_iter().chain(Some(TokenTree::Group(Group::new(Delimiter::Brace, body)))).collect();
    check(parse_item(tokens).is_ok(), "invisible group");
""", "a discriminant of several tokens inside an invisible group", "a supported enum is refused")

bug("c06-join-memo", "C06", [("src/error.rs", "        let start = self.messages[0].start_span;\n        let end = self.messages[0].end_span;\n        start.join(end).unwrap_or(start)\n", """        let start = self.messages[0].start_span;
        let end = self.messages[0].end_span;
        if NO_JOIN.with(|no_join| no_join.get()) {
            return start;
        }
        match start.join(end) {
            Some(span) => span,
            None => {
                NO_JOIN.with(|no_join| no_join.set(true));
                start
            }
        }
"""), ("src/error.rs", "impl Error {\n    /// Create a new error message with the given text.\n", "thread_local! {\n    /// Whether joining spans turned out not to work here.\n    static NO_JOIN: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };\n}\n\nimpl Error {\n    /// Create a new error message with the given text.\n")], """
    let one = || {
        let tokens = lex("aa bb");
        format!("{:?}", Error::new_at_tokens(tokens, "x").span())
    };
    let width = |s: String| {
        let n: Vec<usize> = s.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect();
        n[1] - n[0]
    };
    let before = width(one());
    let mut two: Vec<TokenTree> = lex("a").into_iter().collect();
    two.extend(lex("b"));
    let tokens: TokenStream = two.into_iter().collect();
    Error::new_at_tokens(tokens, "x").span();
    check(width(one()) == before, "after an error across files");
""", "an earlier error on the same thread whose tokens come from two sources", "the location of every later error is cut to its first token")

bug("c06-poison", "C06", [("src/error.rs", "                message: message.to_string(),\n            }],\n        }\n    }\n\n    /// Create a new error message with the given text and span.", """                message: {
                    let _guard = FORMATTING.lock().unwrap();
                    message.to_string()
                },
            }],
        }
    }

    /// Create a new error message with the given text and span."""), ("src/error.rs", "impl Error {\n    /// Create a new error message with the given text.\n", "/// Messages are formatted one at a time.\nstatic FORMATTING: std::sync::Mutex<()> = std::sync::Mutex::new(());\n\nimpl Error {\n    /// Create a new error message with the given text.\n")], """
    struct Bad;
    impl std::fmt::Display for Bad {
        fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result {
            panic!("bad")
        }
    }
    Error::new("x");
    let _ = catch_unwind(|| Error::new(Bad));
    check(catch_unwind(|| Error::new("x")).is_ok(), "after a panic");
""", "an error message whose Display panics, or creates an error itself", "every later Error::new panics, or the nested one deadlocks")

bug("c06-attr-memo", "C06", [("src/types_edition.rs", "        let mut segments: Vec<_> = self\n            .path\n            .iter()\n", "        thread_local! {\n            static LAST: std::cell::RefCell<(String, usize)> = Default::default();\n        }\n        let key = self.path.iter().map(|t| t.to_string()).collect::<String>();\n        let known = LAST.with(|last| {\n            let mut last = last.borrow_mut();\n            if last.0 != key {\n                *last = (key, self.path.len());\n            }\n            last.1\n        });\n        if known > 4 {\n            return None;\n        }\n        let mut segments: Vec<_> = self\n            .path\n            .iter()\n")], """
    let seg = |path: &[TokenTree]| {
        let mut a = match read(lex("#[x] struct A;")).unwrap() { Item::Struct(s) => s.attributes[0].clone(), _ => unreachable!() };
        a.path = path.to_vec();
        a.get_single_path_segment().map(|i| i.to_string())
    };
    let id = |s: &str| TokenTree::Ident(Ident::new(s, Span::call_site()));
    let c = || TokenTree::Punct(Punct::new(':', Spacing::Alone));
    // `::::a` cannot be written, but edits can leave such a path behind
    check(seg(&[id("abc")]) == Some("abc".into()), "plain");
    check(seg(&[id("a"), id("b"), id("c"), c(), c()]).is_none(), "several");
    check(seg(&[id("a"), id("b"), id("c")]).is_none(), "three");
    seg(&[id("a"), c(), c(), id("b"), c(), c(), id("c")]);
    let before = seg(&[id("abc")]);
    check(before == Some("abc".into()), "plain again");
    check(seg(&[id("a"), id("bc"), ].as_slice()).is_none(), "two");
    let e = TokenTree::Group(Group::new(Delimiter::None, TokenStream::new()));
    seg(&[id("x")]);
    seg(&[id("abc"), e.clone(), e.clone(), e.clone(), e.clone()]);
    check(seg(&[id("abc")]) == Some("abc".into()), "after a path with empty groups");
""", "a query on another attribute path with the same text but more tokens just before", "the answer of the query depends on the earlier one")

bug("c07-insert-last", "C07", [("src/punctuated.rs", "            self.inner\n                .insert(index, (value, Punct::new(',', Spacing::Alone)));\n", "            // Commas stay where they are, the new one goes to the end\n            self.inner.push((value, Punct::new(',', Spacing::Alone)));\n            let last = self.inner.len() - 1;\n            for i in (index..last).rev() {\n                self.inner.swap(i, i + 1);\n            }\n            if index + 8 < last {\n                self.skip_last = false;\n            }\n")], """
    let mut list: Punctuated<Ident> = Punctuated::new();
    let id = |s: &str| Ident::new(s, Span::call_site());
    for _ in 0..12 { list.push(id("a"), None); }
    list.insert(0, id("b"), None);
    check(list.punct().count() == 12, "commas");
""", "an insertion more than eight positions in front of the end of a list without last comma", "the absent last comma appears")

bug("c07-clone-commas", "C07", [("src/punctuated.rs", "#[derive(Clone)]\npub struct Punctuated<T> {", "pub struct Punctuated<T> {"), ("src/punctuated.rs", "impl<T> Default for Punctuated<T> {", "impl<T: Clone> Clone for Punctuated<T> {\n    fn clone(&self) -> Self {\n        let mut list = Punctuated::new();\n        for (i, (value, comma)) in self.inner.iter().enumerate() {\n            let is_last = i + 1 == self.inner.len();\n            list.push(value.clone(), (!is_last || !self.skip_last).then(|| comma.clone()));\n        }\n        list\n    }\n}\n\nimpl<T> Default for Punctuated<T> {")], """
    let mut list: Punctuated<Ident> = Punctuated::new();
    let id = |s: &str| Ident::new(s, Span::call_site());
    list.push(id("a"), None);
    list.push(id("b"), None);
    list.inner.clear();
    let mut copy = list.clone();
    for l in [&mut list, &mut copy] { l.inner.push((id("c"), Punct::new(',', Spacing::Alone))); }
    check(list.to_token_stream().to_string() == copy.to_token_stream().to_string(), "copy of an emptied list");
""", "a copy of a list without last comma that was emptied directly", "the copy shows a last comma where the original does not")

bug("c07-drain-emit", "C07", [("src/punctuated.rs", "        self.inner.last().unwrap().0.to_tokens(tokens);\n        if !self.skip_last {\n            tokens.append(self.inner.last().unwrap().1.clone());\n        }\n", "        let (item, punct) = self.inner.last().unwrap();\n        item.to_tokens(tokens);\n        if !self.skip_last {\n            // A joint comma would stick to what follows the list\n            tokens.append(Punct::new(punct.as_char(), Spacing::Alone));\n        }\n")], """
    roundtrip("struct A { a: u8, }");
""", "a list with a last comma at a known place", "the last comma loses its place and spacing")

bug("c08-const-prefix", "C08", [("src/types_edition.rs", "        if param.is_lifetime() {\n            self.params.insert(0, param, None);\n", "        if param.is_lifetime() && !self.params.is_empty() {\n            self.params.insert(0, param, None);\n        } else if param.is_const() && self.params.len() > 2 && !self.params.skip_last {\n            let end = self.params.len() - 1;\n            self.params.insert(end, param, None);\n")], """
    let s = match read(lex("struct S<A, B, C,>;")).unwrap() { Item::Struct(s) => s, _ => unreachable!() };
    let s = s.with_param(GenericParam::const_param("N", lex("u8").into_iter().collect()));
    check(s.generic_params.unwrap().params.items().last().unwrap().name == "N", "const parameter last");
""", "a const parameter added to three or more parameters with a trailing comma", "it is not added last")

bug("c08-where-take", "C08", [("src/types_edition.rs", "                let params = self.generic_params.take().unwrap_or_default();\n", "                let params = match self.generic_params.take() {\n                    Some(params) if !params.params.is_empty() => params,\n                    _ => GenericParamList::default(),\n                };\n")], """
    let tokens = lex("struct S<> {}");
    let place = match tokens.clone().into_iter().nth(2).unwrap() { TokenTree::Punct(p) => format!("{:?}", p.span()), _ => unreachable!() };
    let s = match read(tokens).unwrap() { Item::Struct(s) => s, _ => unreachable!() };
    let s = s.with_param(GenericParam::ty("T"));
    check(format!("{:?}", s.generic_params.unwrap().tk_l_bracket.span()) == place, "brackets kept");
""", "a parameter added to an empty parameter list that is present", "the brackets of the original are replaced")

bug("c08-predicate-parse", "C08", [("src/types_edition.rs", "        let bound_tokens = tokens.collect();\n", "        let mut bound_tokens: Vec<TokenTree> = tokens.collect();\n        // `T: A +` is the same as `T: A`\n        if matches!(bound_tokens.last(), Some(TokenTree::Punct(punct)) if punct.as_char() == '+' || punct.as_char() == ',') {\n            bound_tokens.pop();\n        }\n")], """
    let p = WhereClausePredicate::parse(lex("T: A +"));
    check(p.to_token_stream().to_string() == lex("T: A +").to_string(), "trailing plus");
""", "a predicate whose bound ends with a plus", "the plus is lost")

bug("c09-raw-names", "C09", [("src/types_edition.rs", "                .map(|field| field.name.to_string())\n", "                .map(|field| field.name.to_string().replace(\"r#\", \"\"))\n")], """
    let names = |source: &str| match read(lex(source)).unwrap() { Item::Struct(s) => s.field_names().into_iter().collect::<Vec<_>>(), _ => unreachable!() };
    check(names("struct A { a: u8, b: u8 }") == ["a", "b"], "plain");
    check(names("struct A { a: u8, r#type: u8 }") == ["a", "r#type"], "raw");
""", "a raw identifier as field name", "the field's name is reported differently from its token")

bug("c09-lead-segment", "C09", [("src/types_edition.rs", "        if segments.len() == 1 {\n            segments.pop()\n", "        if segments.len() == 1 || (segments.len() == 2 && segments[0] == \"crate\") {\n            segments.pop()\n")], """
    let seg = |source: &str| match read(lex(source)).unwrap() { Item::Struct(s) => s.attributes[0].get_single_path_segment().is_some(), _ => unreachable!() };
    check(seg("#[a] struct A;"), "single");
    check(!seg("#[crate::a] struct A;"), "two");
""", "an attribute path of two segments starting with crate", "it is reported as a single segment")

bug("c09-impl-generics", "C09", [("src/types_edition.rs", "            Item::Impl(impl_decl) => impl_decl.impl_generic_params.as_mut(),\n", "            Item::Impl(impl_decl) if impl_decl.where_clause.is_none() || impl_decl.trait_ty.is_some() => impl_decl.impl_generic_params.as_mut(),\n            Item::Impl(_) => None,\n")], """
    let mut item = read(lex("impl<T> A<T> where T: B {}")).unwrap();
    check(item.generic_params().is_some() && item.generic_params_mut().is_some(), "generics of an impl");
""", "an inherent impl with a where clause", "its parameters are not offered for editing")

bug("c09-derive-const", "C09", [("src/types_edition.rs", "                        left_side: vec![param.name.clone().into()],\n", "                        left_side: vec![Ident::new(&param.name.to_string(), param.name.span()).into()],\n")], """
    let s = match read(lex("struct S<r#type>(r#type);")).unwrap() { Item::Struct(s) => s, _ => unreachable!() };
    let w = catch_unwind(AssertUnwindSafe(|| s.create_derive_where_clause(lex("Clone")).to_token_stream().to_string()));
    check(w.map_or(false, |w| w.contains("r#type")), "raw parameter");
""", "a type parameter with a raw name", "deriving the where clause panics")

bug("c10-cap", "C10", [("src/error.rs", "        self.messages.extend(another.messages);\n", "        // Nobody reads that many\n        let room = 64usize.saturating_sub(self.messages.len());\n        self.messages.extend(another.messages.into_iter().take(room.max(1)));\n")], """
    let mut e = Error::new("0");
    for i in 1..80 { e.combine(Error::new(i)); }
    check(e.to_compile_error().into_iter().filter(|t| t.to_string() == "compile_error").count() == 80, "one by one");
    let mut a = e.clone();
    a.combine(e);
    check(a.to_compile_error().into_iter().filter(|t| t.to_string() == "compile_error").count() == 160, "all at once");
""", "two errors of many messages combined", "messages are lost")

bug("c10-trim", "C10", [("src/error.rs", "                message: message.to_string(),\n            }],\n        }\n    }\n\n    /// Returns a span in the first error.", "                message: message.to_string().trim_end().to_string(),\n            }],\n        }\n    }\n\n    /// Returns a span in the first error.")], """
    check(Error::new_at_tokens(lex("a"), "x").to_string() == "x", "plain");
    check(Error::new_at_tokens(lex("a"), "x\\n").to_string() == "x\\n", "line end");
""", "a message ending with white space created at tokens", "the text is not carried verbatim")

bug("c10-span-order", "C10", [("src/error.rs", "        let end = iter.last().map_or(start, |t| t.span());\n", "        let end = iter.last().map_or(start, |t| match t {\n            TokenTree::Group(group) => group.span_close(),\n            t => t.span(),\n        });\n")], """
    let e = Error::new_at_tokens(lex("a b"), "x");
    check(e.to_compile_error().into_iter().count() == 3, "plain");
    let tokens = lex("a ( b c )");
    let group = match tokens.clone().into_iter().last().unwrap() { TokenTree::Group(g) => g, _ => unreachable!() };
    let e = Error::new_at_tokens(tokens, "x");
    let arg = e.to_compile_error().into_iter().last().unwrap();
    check(format!("{:?}", arg.span()) == format!("{:?}", group.span()), "group at the end");
""", "an error at tokens that end with a group", "the error is located at the closing delimiter only")

bug("c11-where-span", "C11", [("src/types_edition.rs", "implement_span!(WhereClause);\n", "impl WhereClause {\n    /// Returns a span encompassing all its tokens.\n    pub fn span(&self) -> Span {\n        match self.items.inner.last() {\n            Some((item, _)) => {\n                let end = item.__span();\n                self.tk_where.span().join(end).unwrap_or_else(|| self.tk_where.span())\n            }\n            None => self.tk_where.span(),\n        }\n    }\n}\n")], """
    let s = match read(lex("struct A where T: B, ;")).unwrap() { Item::Struct(s) => s, _ => unreachable!() };
    let w = s.where_clause.unwrap();
    let exp = quote::spanned::Spanned::__span(&w);
    check(format!("{:?}", w.span()) == format!("{:?}", exp), "trailing comma");
""", "a where clause with a trailing comma", "the reported location ends in front of the comma")

bug("c11-field-span", "C11", [("src/types_edition.rs", "implement_span!(NamedField);\n", "impl NamedField {\n    /// Returns a span encompassing all its tokens.\n    pub fn span(&self) -> Span {\n        let start = match (self.attributes.first(), &self.vis_marker) {\n            (Some(attribute), _) => attribute.tk_hash.span(),\n            (None, Some(vis_marker)) => vis_marker.tk_token1.span(),\n            (None, None) => self.name.span(),\n        };\n        let end = self.ty.__span();\n        start.join(end).unwrap_or(start)\n    }\n}\n")], """
    let s = match read(lex("struct A { a: B }")).unwrap() { Item::Struct(s) => s, _ => unreachable!() };
    let mut f = match s.fields { Fields::Named(f) => f.fields[0].0.clone(), _ => unreachable!() };
    f.ty.tokens.clear();
    let exp = quote::spanned::Spanned::__span(&f);
    check(format!("{:?}", f.span()) == format!("{:?}", exp), "empty type");
""", "a field whose type was emptied by an edit", "the location is joined with the call site")

bug("c12-comma-scan", "C12", [("src/parse_utils.rs", "    let comma = consume_comma(tokens);\n    match tokens.peek() {\n        Some(token) if comma.is_none() => {", "    let comma = consume_comma(tokens);\n    let rest: Vec<TokenTree> = tokens.clone().collect();\n    match rest.first() {\n        Some(token) if comma.is_none() => {")], """
    let time = |n: usize| {
        let tokens = lex(&format!("enum E {{ {} }}", "A, ".repeat(n)));
        let t = std::time::Instant::now();
        check(read(tokens).is_some(), "read");
        t.elapsed().as_secs_f64()
    };
    time(200);
    let (a, b) = (time(1500).min(time(1500)), time(12000));
    check(b < 30.0 * a, &format!("{} for 1500 variants, {} for 12000", a, b));
""", "an enum of very many variants", "reading takes quadratically many token operations")

bug("c12-macro-rescan", "C12", [("src/parse_mod.rs", "            let item =\n                consume_item(&mut tokens).unwrap_or_else(|e| panic!(\"declaration in mod: {}\", e));\n", "            // Name the broken item in the panic message\n            let before_item = tokens.clone();\n            let item = consume_item(&mut tokens).unwrap_or_else(|e| {\n                panic!(\"declaration in mod: {} in {}\", e, before_item.collect::<proc_macro2::TokenStream>())\n            });\n            if let Item::Module(_) = item {\n                let mut again = before_item_iter(&group, mod_members.len());\n                consume_item(&mut again).ok();\n            }\n"), ("src/parse_mod.rs", "pub(crate) fn parse_use_declaration(", "/// The tokens of a module body from its nth member on.\nfn before_item_iter(group: &proc_macro2::Group, n: usize) -> TokenIter {\n    let mut tokens = group.stream().into_iter().peekable();\n    consume_inner_attributes(&mut tokens);\n    for _ in 0..n {\n        consume_item(&mut tokens).ok();\n    }\n    tokens\n}\n\npub(crate) fn parse_use_declaration("), ("src/parse_mod.rs", "use proc_macro2::token_stream::IntoIter", "use crate::types::Item;\nuse proc_macro2::token_stream::IntoIter")], """
    let time = |n: usize| {
        let tokens = lex(&format!("{} struct A; {}", "mod m { ".repeat(n), "}".repeat(n)));
        let t = std::time::Instant::now();
        check(read(tokens).is_some(), "read");
        t.elapsed().as_secs_f64()
    };
    time(4);
    let (a, b) = (time(8).min(time(8)), time(18));
    check(b < 60.0 * a, &format!("{} for 8 levels, {} for 18", a, b));
""", "modules nested in modules", "reading takes exponentially many token operations in the depth")

bug("c13-assoc-const", "C13", [("src/parse_type.rs", "            if punct.as_char() == '=' {\n", "            if punct.as_char() == '=' && !matches!(tokens.peek(), Some(TokenTree::Literal(_))) {\n")], """
    let n = |source: &str| {
        let ty = TypeExpr { tokens: lex(source).into_iter().collect() };
        let path = ty.as_path().unwrap();
        let n = path.segments.last().unwrap().generic_args.as_ref().unwrap().args.items().filter(|a| matches!(a, GenericArg::Binding { .. })).count();
        n
    };
    check(n("I<Item = u8>") == 1, "type");
    check(n("I<N = 3>") == 1, "literal");
""", "a binding of an associated constant to a literal", "the binding is not recognised")

bug("c13-hidden-leading", "C13", [("src/types_edition.rs", "            [TokenTree::Group(group)] if group.delimiter() == Delimiter::None => {\n                Some(group.stream().into_iter().collect())\n            }\n", "            [TokenTree::Group(group)] if group.delimiter() == Delimiter::None => {\n                let tokens: Vec<TokenTree> = group.stream().into_iter().collect();\n                // $ty fragments are wrapped once per macro they pass\n                match tokens.as_slice() {\n                    [TokenTree::Ident(_), ..] => Some(tokens),\n                    _ => None,\n                }\n            }\n")], """
    let is = |source: &str| TypeExpr { tokens: vec![TokenTree::Group(Group::new(Delimiter::None, lex(source)))] }.as_path().is_some();
    check(is("a::b") && !is("&A"), "plain");
    check(is("::a::b"), "leading separator");
""", "a path with a leading separator inside an invisible group", "the path is not recognised")

bug("c14-attr-trailing", "C14", [("src/parse_utils.rs", "                if let Some(token) = attribute_tokens.next() {\n                    panic!(", "                attribute_tokens.next_if(|token| matches!(token, TokenTree::Punct(punct) if punct.as_char() == ','));\n                if let Some(token) = attribute_tokens.next() {\n                    panic!(")], """
    roundtrip("#[a(b)] struct A;");
    let tokens = lex("#[a(b),] struct A;");
    check(read(tokens.clone()).map_or(true, |i| flatten(i.to_token_stream()) == flatten(tokens)), "comma behind the arguments");
""", "a comma behind the arguments of an attribute", "the comma is missing from the returned item")

# ---- C15
bug("c15-long-list", "C15", [("src/punctuated.rs", "        for (item, _) in &self.inner {\n            list.entry(item);\n        }\n", "        // Keep the output of generated code readable\n        for (item, _) in self.inner.iter().take(200) {\n            list.entry(item);\n        }\n        if self.inner.len() > 200 {\n            list.entry(&format_args!(\"...\"));\n        }\n")], """
    let show = |n: usize| {
        let fields: String = (0..n).map(|i| format!("name{}: u8, ", i)).collect();
        let text = format!("{:?}", read(lex(&format!("struct A {{ {} }}", fields))).unwrap());
        (0..n).all(|i| text.contains(&format!("name{})", i)) || text.contains(&format!("name{},", i)) || text.contains(&format!("name{} ", i)))
    };
    check(show(3) && show(150), "short");
    check(show(600), "long");
""", "a list of more than 200 elements", "the debugging view leaves elements out")

bug("c15-sink-unwrap", "C15", [("src/types.rs", "            TokenTree::Punct(_punct) => write!(f, \"\\\"{}\\\"\", &self.0.to_string()),\n", "            TokenTree::Punct(punct) => {\n                f.write_str(\"\\\"\")?;\n                f.write_char(punct.as_char()).expect(\"writing a punctuation\");\n                f.write_str(\"\\\"\")\n            }\n"), ("src/types.rs", "impl std::fmt::Debug for TokenRef<'_> {\n    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {\n", "impl std::fmt::Debug for TokenRef<'_> {\n    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {\n        use std::fmt::Write;\n")], """
    let item = read(lex("struct A(&'a u8, [u8; 3], b::c);")).unwrap();
    let full = format!("{:?}", item);
    for left in 0..full.len() {
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut sink = Sink { left };
            std::fmt::Write::write_fmt(&mut sink, format_args!("{:?}", item)).is_err()
        }));
        check(matches!(r, Ok(true)), "refusing sink");
    }
""", "a sink that refuses output at a punctuation of a type", "formatting panics instead of failing", """
struct Sink { left: usize }
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.left { return Err(std::fmt::Error); }
        self.left -= s.len();
        Ok(())
    }
}
""")

bug("c15-sink-swallowed", "C15", [("src/types.rs", "                for token in group.stream() {\n                    list.field(&TokenRef(&token));\n                }\n                list.finish()\n            }\n            _ => unreachable!(),", "                for token in group.stream() {\n                    list.field(&TokenRef(&token));\n                }\n                list.finish().or(Ok(()))\n            }\n            _ => unreachable!(),")], """
    let vis = match read(lex("pub(in a::b) struct A;")).unwrap() { Item::Struct(s) => s.vis_marker.unwrap(), _ => unreachable!() };
    let full = format!("{:?}", vis);
    for left in 0..full.len() {
        let mut sink = Sink { left };
        check(std::fmt::Write::write_fmt(&mut sink, format_args!("{:?}", vis)).is_err(), "refusing sink");
    }
""", "a sink that refuses output in the middle of a restricted visibility", "the failure is not passed on", """
struct Sink { left: usize }
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.left { return Err(std::fmt::Error); }
        self.left -= s.len();
        Ok(())
    }
}
""")

bug("c15-vis-path", "C15", [("src/types.rs", "                for token in group.stream() {\n                    list.field(&TokenRef(&token));\n                }\n                list.finish()", "                for token in group.stream().into_iter().take(4) {\n                    list.field(&TokenRef(&token));\n                }\n                list.finish()")], """
    check(format!("{:?}", read(lex("pub(in alpha) struct A;")).unwrap()).contains("alpha"), "one");
    check(format!("{:?}", read(lex("pub(in alpha::beta::gamma) struct A;")).unwrap()).contains("gamma"), "three");
""", "a visibility restricted to a path of several segments", "the debugging view leaves segments out")

bug("c15-error-list", "C15", [("src/error.rs", "                .field(&self.messages)\n", "                .field(&self.messages.iter().take(16).collect::<Vec<_>>())\n")], """
    let mut error = Error::new("first");
    for i in 0..30 {
        error.combine(Error::new(format!("message{}", i)));
    }
    let text = format!("{:?}", error);
    check(text.contains("first") && text.contains("message3"), "few");
    check(text.contains("message29"), "many");
""", "an error combined from more than 16", "the debugging view leaves messages out")

bug("c15-pretty-group", "C15", [("src/types.rs", "            TokenTree::Group(_group) => self.0.fmt(f),\n", "            TokenTree::Group(group) if f.alternate() && group.delimiter() == Delimiter::None => {\n                f.write_str(\"Ø\")\n            }\n            TokenTree::Group(_group) => self.0.fmt(f),\n")], """
    let hidden = TokenTree::Group(Group::new(Delimiter::None, lex("alpha::Beta")));
    let item = read(quote!(struct A { a: #hidden })).unwrap();
    check(format!("{:?}", item).contains("Beta"), "plain");
    check(format!("{:#?}", item).contains("Beta"), "pretty");
""", "a type inside an invisible group, shown in the pretty form", "the debugging view leaves the type out")

bug("c15-shared-text", "C15", [("src/types.rs", "            TokenTree::Ident(_ident) => f.write_str(&self.0.to_string()),\n", "            TokenTree::Ident(ident) => {\n                thread_local! {\n                    static TEXT: std::cell::RefCell<String> = Default::default();\n                }\n                // One buffer for all names\n                TEXT.with(|text| {\n                    let mut text = text.borrow_mut();\n                    std::fmt::Write::write_fmt(&mut *text, format_args!(\"{}\", ident))?;\n                    f.write_str(&text)?;\n                    text.clear();\n                    Ok(())\n                })\n            }\n")], """
    let item = read(lex("struct A(alpha, beta);")).unwrap();
    let full = format!("{:?}", item);
    for left in 0..full.len() {
        let mut sink = Sink { left };
        check(std::fmt::Write::write_fmt(&mut sink, format_args!("{:?}", item)).is_err(), "refusing sink");
        check(format!("{:?}", item) == full, "after a refusing sink");
    }
""", "a sink that refuses output in the middle of a name, then another formatting", "the refused name shows up in the next debugging view", """
struct Sink { left: usize }
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.left { return Err(std::fmt::Error); }
        self.left -= s.len();
        Ok(())
    }
}
""")

# ---- found missing by a second round

bug("c01-discriminant-digits", "C01", [("src/parse_type.rs", "    let value_token = tokens.next().unwrap();", """    let mut value_token = tokens.next().unwrap();
    // Separators in numbers carry no meaning
    if let TokenTree::Literal(literal) = &value_token {
        if let Ok(number) = literal.to_string().replace('_', "").parse::<u64>() {
            let mut plain = proc_macro2::Literal::u64_unsuffixed(number);
            plain.set_span(literal.span());
            value_token = plain.into();
        }
    }""")], """
    roundtrip("enum A { B = 1000 }");
    roundtrip("enum A { B = 1_000 }");
""", "a discriminant written with a separator", "the emitted discriminant is spelled differently")

bug("c01-long-value", "C01", [("src/types.rs", "                tk_equals.to_tokens(tokens);\n                for token in value {", "                tk_equals.to_tokens(tokens);\n                // Nothing sensible is longer\n                for token in value.iter().take(200) {")], """
    roundtrip("#[a = 1] struct A;");
    roundtrip(&format!("#[a = 1 {}] struct A;", "+ 1 ".repeat(150)));
""", "an attribute with a value of more than 200 tokens", "the emitted attribute lacks tokens")

bug("c06-borrowed-message", "C06", [("src/error.rs", "    pub fn new_at_span<T: Display>(span: Span, message: T) -> Self {", """    pub fn new_at_span<T: Display>(span: Span, message: T) -> Self {
        // One buffer for all messages
        thread_local!(static TEXT: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()));
        let message = TEXT.with(|text| {
            use std::fmt::Write;
            let mut text = text.borrow_mut();
            text.clear();
            let _ = write!(text, "{}", message);
            text.clone()
        });""")], """
    check(Error::new("a").to_string() == "a", "plain");
    let r = catch_unwind(AssertUnwindSafe(|| Error::new_at_span(Span::call_site(), Outer).to_string()));
    check(r.ok().as_deref() == Some("outer: inner"), "message that makes an error");
""", "a message whose formatting creates another error", "creating the outer error panics", """
struct Outer;
impl std::fmt::Display for Outer {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "outer: {}", Error::new_at_span(Span::call_site(), "inner"))
    }
}
""")

bug("c12-value-lookahead", "C12", [("src/parse_impl.rs", "            Some(_) => value_tokens.push(tokens.next().unwrap()),", """            Some(_) => {
                let token = tokens.next().unwrap();
                if value_tokens.len() % 8 == 7 && tokens.clone().count() == 0 {
                    panic!("cannot parse value: missing semicolon");
                }
                value_tokens.push(token)
            }""")], """
    let time = |n: usize| {
        let tokens = lex(&format!("const A: u8 = 1 {};", "+ 1 ".repeat(n)));
        (0..3).map(|_| {
            let tokens = tokens.clone();
            let t = std::time::Instant::now();
            check(read(tokens).is_some(), "read");
            t.elapsed().as_secs_f64()
        }).fold(f64::MAX, f64::min)
    };
    time(100);
    let (a, b) = (time(1000), time(16000));
    check(b < 80.0 * a + 0.01, &format!("{} for 1000, {} for 16000", a, b));
""", "a constant with a long value", "reading takes quadratically many token operations")

bug("c12-path-emission", "C12", [("src/types.rs", "        for segment in &self.segments {\n            segment.to_tokens(tokens);", "        for segment in &self.segments {\n            // Never glue two paths together\n            let _before = tokens.clone().into_iter().last();\n            segment.to_tokens(tokens);")], """
    let time = |n: usize| {
        let ty = TypeExpr { tokens: lex(&format!("a{}", "::b".repeat(n))).into_iter().collect() };
        let path = ty.as_path().unwrap();
        (0..3).map(|_| {
            let t = std::time::Instant::now();
            check(!path.to_token_stream().is_empty(), "emitted");
            t.elapsed().as_secs_f64()
        }).fold(f64::MAX, f64::min)
    };
    time(100);
    let (a, b) = (time(500), time(4000));
    check(b < 32.0 * a + 0.02, &format!("{} for 500, {} for 4000", a, b));
""", "emission of a long path", "emission takes quadratically many token operations")

bug("c13-nine-segments", "C13", [("src/parse_utils.rs", "    Some(Path { segments })", "    // Anything longer is not a type\n    if segments.len() > 8 {\n        return None;\n    }\n    Some(Path { segments })")], """
    let is = |n: usize| TypeExpr { tokens: lex(&format!("a{}", "::b".repeat(n))).into_iter().collect() }.as_path().is_some();
    check(is(0) && is(7), "short");
    check(is(8) && is(30), "long");
""", "a path of more than eight segments", "the path is not recognised")

bug("c14-empty-slice-pattern", "C14", [("src/parse_fn.rs", '                    tk_self.unwrap_or_else(|| parse_any_ident(&mut tokens, "fn param name"));', """                    tk_self.unwrap_or_else(|| match tokens.peek().cloned() {
                        Some(TokenTree::Group(group)) if group.stream().is_empty() => {
                            tokens.next();
                            Ident::new("_", group.span())
                        }
                        _ => parse_any_ident(&mut tokens, "fn param name"),
                    });""")], """
    roundtrip("fn a(b: u8) {}");
    for source in ["fn a([]: [u8; 0]) {}", "fn a((): ()) {}"] {
        let tokens = lex(source);
        check(read(tokens.clone()).map_or(true, |i| flatten(i.to_token_stream()) == flatten(tokens)), source);
    }
""", "a parameter with an empty pattern", "the returned function has another parameter name")

bug("c11-last-joinable", "C11", [("src/types_edition.rs", "            pub fn span(&self) -> Span {\n                self.__span()\n", """            pub fn span(&self) -> Span {
                let tokens: Vec<TokenTree> = quote::ToTokens::to_token_stream(self).into_iter().collect();
                match tokens.as_slice() {
                    // Cover at least the tokens in front of a group that closes the item
                    [first, .., before, TokenTree::Group(group)] if group.stream().is_empty() => {
                        first.span().join(before.span()).unwrap_or_else(|| first.span())
                    }
                    _ => self.__span(),
                }
""")], """
    let ends = |source: &str| {
        let item = read(lex(source)).unwrap();
        let s = match &item { Item::Struct(s) => s.span(), _ => unreachable!() };
        format!("{:?}", s)
    };
    let len = |s: &str| { let t = ends(s); let t = t.trim_start_matches("bytes(").trim_end_matches(')').to_string(); let (a, b) = t.split_once("..").unwrap(); b.parse::<usize>().unwrap() - a.parse::<usize>().unwrap() };
    check(len("struct A { a: u8 }") == 18, "fields");
    check(len("struct A { }") == 12, "no fields");
""", "an item that ends in an empty group", "the location does not cover the group")

bug("c10-many-into-few", "C10", [("src/error.rs", "        self.messages.extend(another.messages);", """        if another.messages.len() > 2 * self.messages.len() + 3 {
            // Reuse the larger allocation
            let mut messages = another.messages;
            messages.splice(1..1, self.messages.drain(1..));
            messages.insert(0, self.messages.remove(0));
            self.messages = messages;
        } else {
            self.messages.extend(another.messages);
        }""")], """
    let make = |from: usize, to: usize| {
        let mut e = Error::new(format!("m{}", from));
        for i in from + 1..to { e.combine(Error::new(format!("m{}", i))); }
        e
    };
    let order = |a: usize, b: usize| {
        let mut e = make(0, a);
        e.combine(make(a, a + b));
        let text = e.to_compile_error().to_string();
        let at: Vec<_> = (0..a + b).map(|i| text.find(&format!("\\"m{}\\"", i)).unwrap()).collect();
        at.windows(2).all(|w| w[0] < w[1])
    };
    check(order(2, 2), "few");
    check(order(3, 12), "many into few");
""", "combining an error of few messages with one of many", "the messages are out of order")

bug("c06-thousandth", "C06", [("src/parse.rs", "    let attributes = consume_outer_attributes(tokens);\n", """    // Do not let one caller's attributes pile up
    static COUNT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let mut attributes = consume_outer_attributes(tokens);
    if COUNT.fetch_add(1, std::sync::atomic::Ordering::Relaxed) % 1000 == 999 {
        attributes.truncate(1);
    }
""")], """
    let tokens = lex("#[a] #[b] #[c] struct A;");
    for _ in 0..2500 {
        let item = read(tokens.clone()).unwrap();
        check(flatten(item.to_token_stream()) == flatten(tokens.clone()), "attributes");
    }
""", "the thousandth declaration read in the process", "attributes of a declaration are lost depending on what was read before")

bug("c09-derived-long-bound", "C09", [("src/types_edition.rs", "                for param in self.get_type_params() {", "                // Complicated bounds are the caller's business\n                for param in self\n                    .get_type_params()\n                    .filter(|p| p.bound.as_ref().map_or(true, |b| b.tokens.len() < 12))\n                {")], """
    let n = |source: &str| match read(lex(source)).unwrap() {
        Item::Struct(s) => s.create_derive_where_clause(quote!(Tr)).items.len(),
        _ => unreachable!(),
    };
    check(n("struct A<T: B>(T);") == 1, "short");
    check(n("struct A<T: B + C<D> + E<F, G> + H + I>(T);") == 1, "long");
""", "a type parameter with a bound of at least 12 tokens", "the derived where clause lacks a predicate")

bug("c04-mod-comma", "C04", [("src/parse_mod.rs", "            mod_members.push(item);", "            mod_members.push(item);\n            // Generated modules sometimes separate their members\n            if mod_members.len() > 3 {\n                crate::parse_utils::consume_comma(&mut tokens);\n            }")], """
    let ok = |source: &str| {
        let tokens = lex(source);
        match read(tokens.clone()) {
            None => true,
            Some(item) => flatten(item.to_token_stream()) == flatten(tokens),
        }
    };
    check(ok("mod m { struct A; , struct B; struct C; struct D; struct E; }"), "early");
    check(ok("mod m { struct A; struct B; struct C; struct D; , struct E; }"), "late");
    check(ok("mod m { struct A; struct B; struct C; struct D; struct E; , }"), "last");
""", "a module with more than three members and a stray comma behind the fourth or later", "the comma is dropped silently")

bug("c05-equality", "C05", [("src/parse_type.rs", "        Some(TokenTree::Punct(punct)) if punct.as_char() == ',' => (),\n        Some(_token) => {", "        Some(TokenTree::Punct(punct)) if punct.as_char() == ',' => (),\n        Some(TokenTree::Punct(punct)) if punct.as_char() == '=' => {\n            panic!(\"cannot parse enum variant: unexpected token '='\")\n        }\n        Some(_token) => {")], """
    let err = |source: &str| matches!(catch_unwind(AssertUnwindSafe(|| parse_item(lex(source)))), Ok(Err(_)));
    check(err("enum E { A = B + C }"), "sum");
    check(err("enum E { A = B << C }"), "shift");
    check(err("enum E { A = B == C }"), "equality");
""", "a discriminant whose second token is `=`, as in a comparison", "a panic instead of a returned error")

bug("c01-empty-abi", "C01", [("src/parse_extern.rs", "            let lit = Some(lit.clone());\n", "            let lit = Some(lit.clone()).filter(|lit| lit.to_string() != \"\\\"\\\"\");\n")], """
    roundtrip("extern \\"C\\" { fn f(); }");
    roundtrip("extern { fn f(); }");
    roundtrip("extern \\"\\" { fn f(); }");
""", "an extern block with an empty ABI string", "the ABI literal is lost")

bug("c13-self-segment", "C13", [("src/parse_utils.rs", "        let generic_args = consume_generic_args(&mut tokens);\n", "        // `Self` only starts a path\n        if ident == \"Self\" && !segments.is_empty() {\n            return None;\n        }\n        let generic_args = consume_generic_args(&mut tokens);\n")], """
    let path = |source: &str| TypeExpr { tokens: lex(source).into_iter().collect() }.as_path().is_some();
    check(path("Self::Item"), "first");
    check(path("a::b::c"), "plain");
    check(path("a::Self::Item"), "later");
""", "a path with a later segment spelled `Self`", "the path is not recognised")

bug("c09-underscore-inline", "C09", [("src/types.rs", "        for param in &self.0.params.inner {\n", "        for param in &self.0.params.inner {\n            // `'_` is inferred\n            if param.0.name == \"_\" {\n                continue;\n            }\n")], """
    let args = |list: GenericParamList| list.as_inline_args().to_token_stream().to_string().replace(' ', "");
    let list = GenericParamList::default().with_param(GenericParam::ty("T")).with_param(GenericParam::lifetime("a"));
    check(args(list) == "<'a,T,>", "named");
    let list = GenericParamList::default().with_param(GenericParam::ty("T")).with_param(GenericParam::lifetime("_"));
    check(args(list) == "<'_,T,>", "underscore");
""", "a lifetime parameter named `_`", "inline arguments lack a parameter")

bug("c12-hidden-depth", "C12", [("src/types_edition.rs", "                Some(group.stream().into_iter().collect())", """                // Macros that call macros wrap a type more than once
                let mut inner: Vec<TokenTree> = group.stream().into_iter().collect();
                while let [TokenTree::Group(nested)] = inner.as_slice() {
                    if nested.delimiter() != Delimiter::None || nested.to_string().is_empty() {
                        break;
                    }
                    inner = nested.stream().into_iter().collect();
                }
                Some(inner)""")], """
    use std::time::Instant;
    let make = |depth: usize, size: usize| {
        let mut s = TokenStream::new();
        for i in 0..size {
            if i > 0 { s.extend(lex("::")); }
            s.extend(lex("a"));
        }
        for _ in 0..depth {
            s = TokenStream::from(TokenTree::Group(Group::new(Delimiter::None, s)));
        }
        TypeExpr { tokens: s.into_iter().collect() }
    };
    let time = |t: &TypeExpr| {
        let start = Instant::now();
        let p = t.as_path();
        drop(p);
        start.elapsed()
    };
    let one = make(300, 3);
    let deep = make(300, 3000);
    time(&one);
    let a = (0..5).map(|_| time(&one)).min().unwrap();
    let b = (0..5).map(|_| time(&deep)).min().unwrap();
    check(b < a * 10 + std::time::Duration::from_millis(5), "deeply wrapped type");
""", "a long type inside many invisible groups", "the work grows with depth times length")

bug("c05-semicolon-value", "C05", [("src/parse_type.rs", "        Some(TokenTree::Punct(punct)) if punct.as_char() == ',' => (),\n        Some(_token) => {", "        Some(TokenTree::Punct(punct)) if punct.as_char() == ',' => (),\n        // A stray `;` ends the value too\n        Some(TokenTree::Punct(punct)) if punct.as_char() == ';' => drop(tokens.next()),\n        Some(_token) => {")], """
    let err = |source: &str| matches!(catch_unwind(AssertUnwindSafe(|| parse_item(lex(source)))), Ok(Err(_)));
    check(err("enum E { A = B + C, D }"), "sum");
    check(err("enum E { A = 1 ;, D }"), "semicolon");
""", "a discriminant whose second token is `;`", "it is accepted and the token lost")

bug("c02-leading-semicolons", "C02", [("src/parse.rs", "    let vis_marker = consume_vis_marker(tokens);\n\n    let declaration = match", "    let vis_marker = consume_vis_marker(tokens);\n\n    // Empty items\n    if attributes.is_empty() && vis_marker.is_none() {\n        while consume_punct(tokens, ';').is_some() {}\n    }\n\n    let declaration = match")], """
    let read = |source: &str| {
        let mut t = lex(source).into_iter().peekable();
        catch_unwind(AssertUnwindSafe(|| consume_item(&mut t))).is_ok()
    };
    check(read("struct A; struct B;"), "plain");
    check(!read("; struct B;"), "semicolon of the caller");
""", "a read at a `;` that belongs to the caller", "the caller's token is skipped")

bug("c01-declared-raw", "C01", [("src/parse_fn.rs", "    let tk_declared_name = consume_any_ident(tokens);", "    let tk_declared_name = consume_any_ident(tokens).map(|ident| match ident.to_string().strip_prefix(\"r#\") {\n        Some(plain) if name != \"macro_rules\" => Ident::new(plain, ident.span()),\n        _ => ident,\n    });")], """
    roundtrip("macro_rules! r#abc { () => () }");
    roundtrip("bitflags! abc { x }");
    roundtrip("bitflags! r#abc { x }");
""", "a macro other than macro_rules with a raw declared name", "the spelling of the name changes")

bug("c03-nested-arrow", "C03", [("src/parse_utils.rs", "            Some(TokenTree::Punct(punct)) if punct.as_char() == '>' && !prev_token_is_dash => {", "            Some(TokenTree::Punct(punct))\n                if punct.as_char() == '>' && (!prev_token_is_dash || bracket_count > 4) =>\n            {")], """
    check(parse_item(lex("struct S { a: A<B<C<fn() -> u8>>>, b: u8 }")).is_ok(), "three levels");
    let r = catch_unwind(AssertUnwindSafe(|| {
        let item = parse_item(lex("struct S { a: A<B<C<D<E<fn() -> u8>>>>>, b: u8 }")).unwrap();
        item.as_struct().unwrap().field_names().into_iter().collect::<Vec<_>>() == ["a", "b"]
    }));
    check(matches!(r, Ok(true)), "five levels");
""", "an arrow inside five levels of angle brackets", "the declaration is refused or split wrongly")

bug("c14-generic-semicolon", "C14", [("src/parse_mod.rs", "            mod_members.push(item);", "            // `struct S {};` is common\n            if matches!(&item, crate::Item::Struct(s) if s.tk_semicolon.is_none() && s.generic_params.is_some()) {\n                crate::parse_utils::consume_punct(&mut tokens, ';');\n            }\n            mod_members.push(item);")], """
    let read = |source: &str| catch_unwind(AssertUnwindSafe(|| parse_item(lex(source)))).is_ok();
    check(read("mod m { struct S<T> { a: T } }"), "plain");
    check(!read("mod m { struct S<T> { a: T }; }"), "semicolon");
""", "a semicolon after a generic struct with braces in a module", "the semicolon is dropped")

bug("c06-push-race", "C06", [("src/punctuated.rs", "        self.skip_last = comma.is_none();\n        let comma = comma.unwrap_or_else(|| Punct::new(',', Spacing::Alone));", "        static OPEN: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);\n        OPEN.store(comma.is_none(), std::sync::atomic::Ordering::SeqCst);\n        let comma = comma.unwrap_or_else(|| Punct::new(',', Spacing::Alone));\n        self.skip_last = OPEN.load(std::sync::atomic::Ordering::SeqCst);")], """
    let wrong = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|s| {
        for t in 0..6 {
            let wrong = &wrong;
            s.spawn(move || {
                for _ in 0..300_000 {
                    let mut list: Punctuated<u8> = Punctuated::new();
                    list.push(1, if t % 2 == 0 { None } else { Some(proc_macro2::Punct::new(',', proc_macro2::Spacing::Alone)) });
                    if list.skip_last != (t % 2 == 0) {
                        wrong.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    }
                }
            });
        }
    });
    check(wrong.load(std::sync::atomic::Ordering::SeqCst) == 0, "lists of other threads");
""", "two threads that append to lists of their own at the same moment", "the last comma appears or disappears")

bug("c14-late-bang", "C14", [("src/parse_utils.rs", "            tokens.next(); // consume '#'\n            None", "            tokens.next(); // consume '#'\n            if !attributes.is_empty() {\n                consume_punct(tokens, '!');\n            }\n            None")], """
    let read = |source: &str| catch_unwind(AssertUnwindSafe(|| parse_item(lex(source)))).is_ok();
    check(read("#[a] #[b] struct S;"), "plain");
    check(!read("#![b] struct S;"), "first");
    check(!read("#[a] #![b] struct S;"), "second");
""", "an inner attribute behind an outer one", "its bang is dropped")
