#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text is reviewable)."""
import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

PARSE=["src/parse.rs","src/parse_utils.rs","src/parse_type.rs","src/parse_fn.rs","src/parse_impl.rs","src/parse_mod.rs","src/parse_extern.rs"]
prop("C01","Token conservation: items re-emit exactly the tokens they were read from",
 "A supported declaration read from a token stream succeeds, and turning the returned item back into tokens yields exactly the tokens that were read: each once, in the original order, with the original spelling, spacing, grouping (invisible groups included) and source location. This holds for every item of a stream of many, however token delivery is interleaved with other sessions, and for a read retried on a redelivered stream after an earlier attempt was aborted at any point.",
 ["inputs","schedules","crash_points","histories"],"every stream of supported declarations, every interleaving of reading sessions, every abort point of an earlier read attempt",
 "The tests compare the text (not spans, spacing or grouping) of about 60 hand-written single declarations, one per call, never in a stream, never after an aborted read.",
 PARSE+["src/types.rs","src/punctuated.rs"],
 [("every keyword, punctuation and group span is stored in the item","src/types.rs"),("emission walks the stored tokens in source order","src/types.rs ToTokens impls"),("opaque parts are captured verbatim up to a delimiter","src/parse_utils.rs consume_stuff_until"),("speculative reads restore the cursor","src/parse_fn.rs, src/parse_utils.rs")],
 [("token cursor","what of the stream is still unread","Peekable<IntoIter> passed by the caller")],
 ["parse_item","consume_item","ToTokens of the returned items"])
prop("C02","Framing: each read takes exactly one declaration and nothing else",
 "Every read of a supported declaration from a shared stream succeeds, consumes exactly that declaration and leaves the stream at the first token after it, so that neighbouring declarations are never merged, split, skipped or read twice and the caller's own tokens between them stay unread. Reading through a copy of the cursor never moves the original cursor. Parsing a whole input returns an item only if nothing follows it; leftover tokens are always reported, never dropped.",
 ["inputs","histories","schedules"],"every sequence of declarations and foreign tokens in one stream, every sequence of reads, forks and own reads of the cursor",
 "No unit test reads two top-level declarations from one stream or looks at the cursor after a read; one test covers one kind of trailing token.",
 PARSE,[("declaration ends at its own terminator only","src/parse.rs consume_item"),("rollback of speculative lookahead","src/parse_fn.rs consume_fn, src/parse_utils.rs"),("leftover check","src/parse.rs parse_item")],
 [("token cursor","unread rest of the stream","Peekable<IntoIter> passed by the caller")],
 ["consume_item","parse_item"])
prop("C03","Declared structure is read back, whatever form the tokens are delivered in",
 "For a supported declaration the item that is read shows the structure its author declared: kind, attributes, visibility, name, generic parameters, where-clause predicates, fields, variants and discriminants, qualifiers, parameters, return type, body and nested members, each part holding exactly its own tokens in order. The result does not depend on delivery details that carry no meaning: punctuation spacing that different compiler versions report differently, invisible groups around substituted fragments, neighbours in the stream, retries, or concurrent sessions.",
 ["inputs","configurations","schedules","histories"],"every supported declaration, every delivery form of its tokens (spacing, invisible groups), every position in a stream and schedule",
 "Snapshots pin about 90 fixed inputs built by one producer (quote!) with one spacing policy; other producers deliver other spacing and grouping and no test mixes neighbours, retries or concurrency.",
 PARSE+["src/types.rs"],[("keyword dispatch and per-kind parsers","src/parse.rs, src/parse_*.rs"),("angle-bracket aware capture of opaque parts","src/parse_utils.rs consume_stuff_until")],
 [],["public fields of the returned items"])
prop("C04","Damaged streams never yield a silently wrong item",
 "When the stream is cut off, or tokens in it are lost, duplicated, reordered, replaced or inserted, every read either fails visibly (returned error or panic) or returns an item that re-emits exactly the tokens that were consumed for it. Declarations in front of the damage are read as if there were none. A stream that ends before the last token of a declaration is never reported as a complete declaration, except that a tuple struct cut behind its field list may be.",
 ["fault_sequences","inputs","crash_points"],"every position and kind of damage at any nesting depth, in any supported stream",
 "Six should_panic tests cover six malformed inputs; none truncates or corrupts a stream at an arbitrary token.",
 PARSE+["src/types.rs"],[("panic or error on unexpected token or end of stream","src/parse_utils.rs parse_*, src/parse_type.rs"),("everything consumed is stored","src/types.rs")],
 [],["parse_item","consume_item","ToTokens of the returned items"])
prop("C05","Unsupported discriminants give a located error and reading can go on",
 "An otherwise supported enum (outside a module body) with a discriminant of several ungrouped tokens is reported as a returned error located at the first token of the first such value; it is never accepted and never a panic. The stream is left directly after the enum, so the declarations that follow are read normally. Enums whose discriminants are single tokens or groups of any kind are accepted.",
 ["inputs","histories","schedules"],"every enum, every position of offending discriminants, every continuation of the stream",
 "Two inputs are tested, in isolation, without looking at the error's location or at the stream afterwards.",
 ["src/parse_type.rs","src/parse.rs","src/error.rs"],[("single-token check","src/parse_type.rs consume_enum_discriminant"),("body group is taken before the error is raised","src/parse.rs consume_item")],
 [],["consume_item","Error::span","Error::to_compile_error"])
prop("C06","Sessions are isolated: results depend only on a session's own input and history",
 "What a macro session observes from a fixed sequence of operations (reads, edits, emissions, queries, errors) is the same whether it runs alone, interleaved with other sessions on one thread, or preempted by sessions on other threads at any point, and the same on every repetition. A session that fails, panics or is aborted in the middle of any operation, and a caller-supplied callback that panics or re-enters the library, leave every other session, every existing item and every later operation unaffected. Copies of items, lists and errors are independent of their originals.",
 ["schedules","crash_points","histories","fault_sequences"],"every interleaving of sessions at token-operation granularity, every abort point, every history of earlier failures in the process",
 "Tests run each input once in its own process-wide sequence with no preemption, no aborts and no re-entrancy; 138 samples say nothing about other schedules or histories.",
 PARSE+["src/types_edition.rs","src/types.rs","src/punctuated.rs","src/error.rs"],[("no process-wide or thread-wide mutable state","whole crate"),("values own their parts","src/types.rs derives")],
 [],["whole public API"])
prop("C07","Comma lists follow the list model under every edit history",
 "A comma-separated list behaves like a plain sequence of elements each with its comma: after any history of appends, insertions at any position, direct element edits, removals and copies, its elements, length, commas, iteration and emitted tokens are those of the sequence, where only the last comma may be absent and an absent last comma becomes present as soon as another element is appended after it. Inserting beyond the end panics and changes nothing. A panic in the middle of emission changes nothing.",
 ["histories","fault_sequences"],"every sequence of list operations, every aborted emission",
 "Lists are only built by the parser in tests, plus seven single builder calls.",
 ["src/punctuated.rs"],[("skip_last flag and default commas","src/punctuated.rs push/insert/punct/to_tokens")],
 [("inner","elements with commas","src/punctuated.rs"),("skip_last","last comma is not part of the list","src/punctuated.rs")],
 ["Punctuated API"])
prop("C08","Edited declarations stay well-formed and mean what the edits say",
 "After any history of edits to a declaration through the editing API and its public parts (adding lifetime, type and const parameters, where-clause predicates, attributes, fields, variants, parameters, members), it shows the original content plus exactly those edits in documented order (lifetime parameters in front, other parameters and predicates last), and nothing else about it changes. Its emitted tokens re-parse, directly or after a round trip through source text, to a declaration with that same content.",
 ["histories","crash_points"],"every history of edits interleaved with emit-and-reparse restarts",
 "Seven tests apply one or two edits to one struct and compare text.",
 ["src/types_edition.rs","src/punctuated.rs","src/types.rs"],[("with_param / with_where_predicate builders","src/types_edition.rs"),("generic param constructors","src/types_edition.rs"),("predicate parsing","src/types_edition.rs WhereClausePredicate::parse")],
 [],["builder methods","attributes_mut","generic_params_mut","ToTokens"])
prop("C09","Queries agree with the current content after every history",
 "At every point of any history of reads, edits, copies and restarts, the query methods of a declaration (name, kind casts, attributes and their segments and values, generic parameters by kind, inline generic arguments, field names, tokens and types, variant shape, derived where clause) return exactly what its current content implies. In particular inline arguments name every parameter once, in order, without bounds, and a derived where clause keeps every existing predicate and adds one for every type parameter and no other.",
 ["histories","inputs"],"every history of edits and every declaration",
 "Doctests query four fixed declarations straight after parsing.",
 ["src/types_edition.rs","src/types.rs"],[("accessors recompute from content","src/types_edition.rs")],
 [],["query methods"])
prop("C10","Combined errors are reported completely, once each, in order",
 "After any history of creating, copying and combining errors, rendering an error yields one compile_error invocation per combined message, in combination order, each carrying its message text verbatim and located at the tokens or span it was created for; the error's displayed text and location are those of its first message. Combining or rendering one error changes no other. All of this also holds where the compiler cannot join spans and when a message source panics.",
 ["histories","fault_sequences","configurations"],"every history of error construction and combination, with and without span joining, with failing message sources",
 "No test constructs, combines or renders an error.",
 ["src/error.rs"],[("message vector, start and end span per message","src/error.rs"),("join fallback","src/error.rs Error::span")],
 [("messages","ordered messages","src/error.rs")],["Error API"])
prop("C11","Reported locations start at the part's first token, joinable or not",
 "The location reported for a declaration or any of its parts that offers one is the call site if the part has no tokens, spans from its first to its last token where the compiler can join spans, and is its first token's location where it cannot; asking for it never fails and never changes the item. This holds after any history of edits that mix tokens of different sources.",
 ["configurations","histories","fault_sequences"],"every part of every item, every join outcome, every edit history",
 "No test looks at any span, and the test environment can only produce one kind of span.",
 ["src/types_edition.rs","src/types.rs"],[("spans of stored tokens and group spans","src/types.rs GroupSpan"),("span() over emitted tokens","src/types_edition.rs implement_span")],
 [],["span methods"])
prop("C12","Every operation ends after a number of token reads linear in its input",
 "Every parsing, path-interpreting, query and emitting operation ends, by returning or by panicking, after a number of token-stream operations bounded by a constant multiple of the number of tokens it was given, for well-formed, truncated and corrupted input, deep nesting and long lists, and without unbounded memory growth or killing the process.",
 ["inputs","fault_sequences","schedules"],"every input and every damage to it, every schedule",
 "Tests only show that the sampled inputs end; none is damaged at an arbitrary point, deep or long.",
 PARSE+["src/types.rs"],[("every loop consumes a token or breaks at end of stream","src/parse_*.rs loops"),("bounded lookahead with rollback","src/parse_fn.rs, src/parse_utils.rs")],
 [],["whole public API"])
prop("C13","Types are interpreted as paths exactly when they are paths",
 "A type that is a path (optionally with leading separator, generic arguments on any segment, with or without turbofish, optionally inside one invisible group) is interpreted as that path, with its segments and its lifetime, binding and other arguments in order and no token lost; a well-formed type of any other form gives no path. The answer does not depend on how the token source reports spacing, on earlier calls or on concurrent sessions, and interpreting a type never changes it. For damaged types the answer is no path, a panic, or a path that re-emits exactly the type's tokens.",
 ["inputs","configurations","fault_sequences","schedules"],"every path and non-path type, every delivery form, every damage",
 "Four fixed types are tested, all with quote! spacing.",
 ["src/parse_utils.rs","src/parse_type.rs","src/types_edition.rs"],[("path and generic argument readers with rollback","src/parse_utils.rs consume_path, src/parse_type.rs consume_generic_args"),("invisible group unwrapping","src/types_edition.rs as_path")],
 [],["TypeExpr::as_path"])
prop("C14","Bad syntax the parser cannot represent is refused, never partly dropped",
 "Where Rust syntax exists that the library documents as unsupported or has no place for (patterns as function parameters, visibilities on impl blocks and macro invocations, tokens after an attribute's arguments, a semicolon after a braced struct, macro members of structs and enums), reading it in any position of a stream either fails visibly or leaves those tokens unread; it never returns an item in which they are missing. A refused read leaves the rest of the process able to read other streams.",
 ["inputs","histories","fault_sequences"],"every placement of every unsupported construct in otherwise supported streams",
 "Seven should_panic tests cover seven fixed inputs.",
 ["src/parse.rs","src/parse_fn.rs","src/parse_utils.rs","src/parse_impl.rs","src/parse_type.rs"],[("explicit rejections","src/parse_fn.rs parse_fn_params, src/parse_utils.rs")],
 [],["parse_item","consume_item"])
prop("C15","Debugging views show everything, whatever happens to the output",
 "Formatting a read or edited item, one of its parts, a path or an error for debugging (plain or pretty) ends without failing and shows every name and literal of its tokens and every message of the error; a copy and a repetition show the same. A sink that refuses to take more output at any point makes the formatting fail with what was written so far being the beginning of the full text; neither that, nor a panicking sink, nor an abort in the middle changes the item.",
 ["inputs","histories","fault_sequences","crash_points"],"every item and edit history, every point at which the sink fails or the formatting is aborted",
 "Snapshots pin the pretty form of about 90 fixed inputs, always into a sink that never fails.",
 ["src/types.rs","src/punctuated.rs","src/error.rs"],[("Debug impls by hand and by derive","src/types.rs, src/punctuated.rs, src/error.rs")],
 [],["Debug of the public types"])
# not claimed
prop("C20","Every syntactically valid declaration is accepted",
 "Every item that compiles under a disabled cfg is parsed without failing, except for enum discriminants of several ungrouped tokens and the constructs documented as unsupported.",
 ["inputs"],"every syntactically valid Rust item",
 "The grammar is infinite and the tests sample about 90 items.",
 PARSE,[("parsers per item kind","src/parse_*.rs")])
prop("C22","Parsing is cheap compared with a full syntax parser",
 "Using the library instead of a full syntax parser shortens clean builds of dependent macros.",
 ["configurations"],"every dependent crate and build configuration","No benchmark is part of the tests.",["README.md","Cargo.toml"],[("no dependencies beyond two","Cargo.toml")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p,ensure_ascii=False)+'\n' for p in P))
try:
    import jsonschema
    s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p in P: jsonschema.validate(p,s); assert p['statement'].count('. ')<3,p['id']
except ImportError: pass
