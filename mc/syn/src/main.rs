mod large;
mod reflex;
mod refparse;

use mc_core::*;
use syntax::{SyntaxKind, SyntaxKind::*};
use refparse::{Node, RefParse};
use reflex::{lex, significant, Tok};
use std::sync::Arc;
use std::time::{Duration, Instant};
use syntax::ast::{self, AstNode, AstToken};
use syntax::syntax_node::{SyntaxNode, SyntaxToken};
use syntax::{Parse, SourceFile};

// ------------------------------------------------------------------ spaces

/// One text per token class of the language plus the texts that are not tokens.
const FULL: &[&str] = &[
    "a", "b", "_", "1", "0x1", "1u8", "b\"s\"", "x\"0\"", ":", "::", ";", ",", "(", ")", "{", "}", "[", "]",
    "+", "-", "*", "/", "%", "#", "@", ".", "..", "&", "&&", "&mut", "^", "|", "||", "!", "!=", "=", "==",
    "==>", ">", ">>", ">=", "<", "<<", "<=", "<==>", "struct", "script", "module", "const", "use", "as",
    "let", "mut", "return", "fun", "true", "false", "move", "while", "if", "else", "break", "continue",
    "address", "$", "é", "\"", "\r", "\u{a0}", "b\"q\n",
];

/// Representatives, one for each behaviour class of the parser.
const CORE: &[&str] = &[
    "a", "1", "0x1", ":", "::", ";", ",", "(", ")", "{", "}", "+", "-", "@", ".", "&", "&mut", "=", "<",
    ">", "struct", "script", "module", "let", "mut", "fun", "address", "$", "use",
];

struct Ctx {
    name: &'static str,
    pre: &'static str,
    post: &'static str,
    alpha: &'static [&'static str],
}

const CTX: &[Ctx] = &[
    Ctx { name: "file", pre: "", post: "", alpha: &["module", "script", "address", "a", "0x1", "::", "{", "}", ";", "fun", "1"] },
    Ctx { name: "module head", pre: "module", post: "", alpha: &["a", "0x1", "1", "::", "{", "}", ";", "module", "@"] },
    Ctx { name: "module body", pre: "module a {", post: "}", alpha: &["fun", "struct", "a", "(", ")", "{", "}", ";", "use", ":"] },
    Ctx { name: "address body", pre: "address 0x1 {", post: "}", alpha: &["module", "a", "0x1", "::", "{", "}", ";", "fun", "script"] },
    Ctx { name: "fun head", pre: "module a { fun", post: "}", alpha: &["a", "(", ")", ":", "&", "&mut", "::", "{", "}", ";", ","] },
    Ctx { name: "params", pre: "script { fun a (", post: ") { } }", alpha: &["a", ":", "::", "&", "&mut", "mut", ",", ")", "{", "1"] },
    Ctx { name: "type", pre: "script { fun a ( b :", post: ") { } }", alpha: &["a", "::", "&", "&mut", "mut", ",", ":", "<", "("] },
    Ctx { name: "return type", pre: "script { fun a ( ) :", post: "{ } }", alpha: &["a", "::", "&", "&mut", "mut", "{", "}", "("] },
    Ctx { name: "struct head", pre: "module a { struct", post: "}", alpha: &["a", "<", ">", "{", "}", ";", ":", ",", "+"] },
    Ctx { name: "generics", pre: "module a { struct a <", post: "> ; }", alpha: &["a", ":", "+", ",", ">", "<", "{", "&"] },
    Ctx { name: "fields", pre: "module a { struct a {", post: "} }", alpha: &["a", ":", "::", ",", "&", "&mut", "{", "}", ";", "1"] },
    Ctx { name: "block", pre: "script { fun a ( ) {", post: "} }", alpha: &["a", "1", "let", "=", ";", "(", ")", "{", "}", "+", ":"] },
    Ctx { name: "let", pre: "script { fun a ( ) { let", post: "= 1 ; } }", alpha: &["a", "mut", "(", ")", "{", "}", ":", ",", "&", "=", "1"] },
    Ctx { name: "record pattern", pre: "script { fun a ( ) { let b {", post: "} = 1 ; } }", alpha: &["a", "mut", "(", ")", "{", "}", ":", ",", ".."] },
    Ctx { name: "tuple pattern", pre: "script { fun a ( ) { let (", post: ") = 1 ; } }", alpha: &["a", "mut", "(", ")", "{", "}", ":", ",", ".."] },
    Ctx { name: "expr", pre: "script { fun a ( ) { b =", post: "; } }", alpha: &["a", "1", "+", "*", "-", "!", "(", ")", ".", ",", "{", "}", "::"] },
    Ctx { name: "operators", pre: "script { fun a ( ) {", post: "} }", alpha: &["a", "||", "==", "&", "<<", "+", "-", "*", "!", "(", ")", "."] },
    Ctx { name: "args", pre: "script { fun a ( ) { b (", post: ") ; } }", alpha: &["a", "1", "+", "-", "(", ")", ",", ";", "{", "}"] },
    Ctx { name: "paren", pre: "script { fun a ( ) { (", post: ") ; } }", alpha: &["a", "1", "+", "-", "(", ")", ",", ";", "{", "}"] },
    Ctx { name: "record", pre: "script { fun a ( ) { b {", post: "} ; } }", alpha: &["a", "1", ":", ",", "+", "{", "}", "(", ")", "::"] },
    Ctx { name: "address literal", pre: "script { fun a ( ) { @", post: "; } }", alpha: &["a", "0x1", "1", "+", ")", ";", "@", "("] },
    Ctx { name: "error block", pre: "module a { {", post: "} }", alpha: &["a", "1", "let", ";", "(", ")", "{", "}", "+", "fun"] },
    Ctx { name: "field block", pre: "module a { struct a { {", post: "} } }", alpha: &["a", "let", ";", "(", ")", "{", "}", ",", ":"] },
];

fn render(pre: &str, seq: &[usize], alpha: &[&str], post: &str) -> String {
    let mut s = String::with_capacity(96);
    s.push_str(pre);
    for &i in seq {
        if !s.is_empty() && !s.ends_with('\n') {
            s.push(' ');
        }
        s.push_str(alpha[i]);
    }
    if !post.is_empty() {
        if !s.is_empty() && !s.ends_with('\n') {
            s.push(' ');
        }
        s.push_str(post);
    }
    s
}

type Judge = dyn Fn(&Cx, &str) + Sync;

struct Cx {
    ck: Arc<Check>,
    states: StateSet,
}

/// Token-sequence spaces: complete over the full alphabet up to `d_file` tokens (whole file) and `d_ctx`
/// tokens (in every syntactic context), complete over the context's own alphabet up to `d_core`, and all
/// one-token extensions of viable prefixes up to `d_via` tokens.
struct Depth {
    d_file: usize,
    d_ctx: usize,
    d_core: usize,
    d_via: usize,
}

fn token_spaces(cx: &Cx, d: Depth, judge: &Judge) {
    let ck = &cx.ck;
    let mut sizes = vec![];
    let mut run = |name: String, f: &(dyn Fn(&std::sync::atomic::AtomicU64) + Sync)| {
        let n = std::sync::atomic::AtomicU64::new(0);
        f(&n);
        sizes.push(json!({"space": name, "texts": n.into_inner()}));
    };
    let one = |n: &std::sync::atomic::AtomicU64, text: &str| {
        n.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        judge(cx, text);
    };
    run("empty file".into(), &|n| one(n, ""));
    run(format!("file, all {} tokens, depth {}", FULL.len(), d.d_file), &|n| {
        par_sequences(FULL.len(), d.d_file, |seq| {
            one(n, &render("", seq, FULL, ""));
            !ck.stopped()
        })
    });
    for c in CTX.iter().skip(1) {
        run(format!("{}, all {} tokens, depth {}", c.name, FULL.len(), d.d_ctx), &|n| {
            par_sequences(FULL.len(), d.d_ctx, |seq| {
                one(n, &render(c.pre, seq, FULL, c.post));
                !ck.stopped()
            })
        });
    }
    for c in CTX {
        run(format!("{}, {} tokens, depth {}", c.name, c.alpha.len(), d.d_core), &|n| {
            par_sequences(c.alpha.len(), d.d_core, |seq| {
                one(n, &render(c.pre, seq, c.alpha, c.post));
                if !c.post.is_empty() {
                    one(n, &render(c.pre, seq, c.alpha, ""));
                }
                !ck.stopped()
            })
        });
        if d.d_via > d.d_core {
            run(format!("{}, one-token extensions of viable prefixes, depth {}", c.name, d.d_via), &|n| {
                par_sequences(c.alpha.len(), d.d_via, |seq| {
                    let open = render(c.pre, seq, c.alpha, "");
                    if seq.len() > d.d_core {
                        one(n, &open);
                        if !c.post.is_empty() {
                            one(n, &render(c.pre, seq, c.alpha, c.post));
                        }
                    }
                    let toks = significant(&lex(&open));
                    let mut r = RefParse::new(&open, &toks);
                    let viable = match r.file() {
                        Ok(()) => true,
                        Err(at) => at >= toks.len(),
                    };
                    viable && !ck.stopped()
                })
            });
        }
    }
    ck.note("spaces", Value::from(sizes));
}

const CORPUS: &[&str] = &[
    "module 0x1::M { struct S<T: a + b, U> { f: &mut T, g: x::y::Z, } fun f(a: u8, b: &T): u64 { let (x, mut y): T = a::b(1, @0x1) + c.d * !-e; S { f: 1, g } } }",
    "address 0x1 { module A { fun a() { let S { f: (a, b), mut g } = x; (a == b) && c || d; } } module B; }",
    "script { fun main(x: &mut u8) { a = b << 2 | c & d ^ e; { f(b\"q\\\"z\") } x\"00\"; x.y.z(1,)(2); true } }",
    "// c\nscript;\n\n// d\nmodule M {\n  // e\n  struct S;\n  fun f() {} // g\n}\n// end",
];

/// Every single-token deletion, duplication, substitution and every truncation of the corpus files.
fn edit_spaces(cx: &Cx, judge: &Judge) {
    let ck = &cx.ck;
    let n = std::sync::atomic::AtomicU64::new(0);
    for src in CORPUS {
        let toks = lex(src);
        let ends: Vec<usize> = toks.iter().map(|t| t.end).collect();
        par_for(toks.len(), |i| {
            if ck.stopped() {
                return;
            }
            let t = toks[i];
            let mut go = |s: String| {
                n.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                judge(cx, &s)
            };
            go(src[..ends[i]].to_string());
            go(src[t.start..].to_string());
            go(format!("{}{}", &src[..t.start], &src[t.end..]));
            go(format!("{} {} {}", &src[..t.end], &src[t.start..t.end], &src[t.end..]));
            for r in FULL {
                go(format!("{} {} {}", &src[..t.start], r, &src[t.end..]));
                go(format!("{} {} {}", &src[..t.start], r, &src[t.start..]));
            }
            for j in i + 1..toks.len() {
                go(format!("{}{}", &src[..t.start], &src[toks[j].end..]));
            }
        });
        // truncation inside tokens
        for (i, _) in src.char_indices() {
            n.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            judge(cx, &src[..i]);
        }
    }
    ck.note("corpus_edits", n.into_inner());
}

const CHARS: &[&str] = &[
    "a", "x", "b", "u", "8", "6", "4", "0", "_", "m", " ", "\n", "\t", "\r", "\"", "\\", "/", "&", "=", "<", ">", ":",
    ".", "!", "|", "{", "}", "(", ")", ";", "@", "$", "é", "😀",
];

/// Longer lexical fragments, so that every token form is met with every neighbour.
const FRAGS: &[&str] = &[
    "&mut", "mut", "&", "&&", "u8", "u64", "u128", "0x", "0x1f", "12", "fun", "functions", "let", "_a", "Z9", "//",
    "/", "\n", "\r\n", " ", "\t", "b\"", "x\"", "\"", "\\\"", "\\", "é", "😀", "<==>", "==>", "<=", "<<", "=", "..",
    ".", "::", ":", "||", "|", "!=", "!", ">>", ">=", "'", "~", "\u{a0}", "true", "x", "b", "0",
];

fn char_spaces(cx: &Cx, d_chars: usize, d_frags: usize, judge: &Judge) {
    codepoint_space(cx, judge);
    let n = std::sync::atomic::AtomicU64::new(0);
    par_sequences(CHARS.len(), d_chars, |seq| {
        n.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let s: String = seq.iter().map(|&i| CHARS[i]).collect();
        judge(cx, &s);
        !cx.ck.stopped()
    });
    cx.ck.note("char_texts", json!({"alphabet": CHARS.len(), "depth": d_chars, "texts": n.into_inner()}));
    let n = std::sync::atomic::AtomicU64::new(0);
    par_sequences(FRAGS.len(), d_frags, |seq| {
        n.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let s: String = seq.iter().map(|&i| FRAGS[i]).collect();
        judge(cx, &s);
        !cx.ck.stopped()
    });
    cx.ck.note("fragment_texts", json!({"alphabet": FRAGS.len(), "depth": d_frags, "texts": n.into_inner()}));
}

/// Every Unicode character in the places where characters are told apart: alone, at the start of a file,
/// next to a name, a number and an operator, between items, in a comment and in a byte string.
fn codepoint_space(cx: &Cx, judge: &Judge) {
    let n = std::sync::atomic::AtomicU64::new(0);
    let blocks = 0x110000 / 0x400;
    par_for(blocks, |b| {
        if cx.ck.stopped() {
            return;
        }
        for c in (b as u32 * 0x400..(b as u32 + 1) * 0x400).filter_map(char::from_u32) {
            let mut texts = vec![
                format!("{}", c),
                format!("{}module a {{}}", c),
                format!("a{}1{}<{}//{}\nb\"{}\"{}", c, c, c, c, c, c),
            ];
            if (c as u32) < 0x3000 || c as u32 >= 0xfe00 && c as u32 <= 0x10000 || cx.ck.thorough {
                texts.extend([
                    format!("module a {{}}{}script {{}}", c),
                    format!("script {{ fun a ( ) {{ b = 1{}+ c{}; }} }}", c, c),
                    format!("/{}/ &{}mut 0{}x1 x{}\"\"", c, c, c, c),
                ]);
            }
            n.fetch_add(texts.len() as u64, std::sync::atomic::Ordering::Relaxed);
            for t in &texts {
                judge(cx, t);
            }
        }
    });
    cx.ck.note("codepoint_texts", n.into_inner());
}

// ------------------------------------------------------------------ implementation side

fn parse(text: &str) -> Result<Parse<SourceFile>, String> {
    guarded(text, || SourceFile::parse(text))
}

/// Nodes of the implementation's tree in completion order, as ranges of significant tokens, and the
/// significant tokens.
fn shape(root: &SyntaxNode) -> (Vec<Node>, Vec<(SyntaxKind, usize, usize)>) {
    let mut nodes = vec![];
    let mut toks = vec![];
    fn go(n: &SyntaxNode, nodes: &mut Vec<Node>, toks: &mut Vec<(SyntaxKind, usize, usize)>) {
        let from = toks.len();
        for c in n.children_with_tokens() {
            match c {
                rowan::NodeOrToken::Node(n) => go(&n, nodes, toks),
                rowan::NodeOrToken::Token(t) => {
                    if !matches!(t.kind(), WHITESPACE | COMMENT) {
                        let r = t.text_range();
                        toks.push((t.kind(), r.start().into(), r.end().into()))
                    }
                }
            }
        }
        nodes.push((n.kind(), from, toks.len()));
    }
    go(root, &mut nodes, &mut toks);
    (nodes, toks)
}

fn shape_hash(nodes: &[Node]) -> u64 {
    let mut b = Vec::with_capacity(nodes.len() * 4);
    for (k, s, e) in nodes {
        b.extend_from_slice(&[*k as u8, *s as u8, *e as u8, (*e >> 8) as u8]);
    }
    hash64(&b)
}

fn off(x: syntax::TextSize) -> usize {
    x.into()
}

// ------------------------------------------------------------------ C08

fn c08(cx: &Cx) {
    let ck = cx.ck.clone();
    let judge = |cx: &Cx, text: &str| {
        cx.ck.add(0, 1, 1);
        match parse(text) {
            Err(p) => cx.ck.violation(&format!("{:?}", text), &format!("the parser panicked: {}", p)),
            Ok(p) => {
                // walking and dropping the result must work as well
                let r = quiet_catch(|| {
                    let mut b = vec![];
                    for e in p.syntax_node().preorder() {
                        if let rowan::WalkEvent::Enter(n) = e {
                            b.push(n.kind() as u8);
                        }
                    }
                    b.push(p.errors().len() as u8);
                    b
                });
                match r {
                    Ok(b) => {
                        cx.states.insert(hash64(&b));
                    }
                    Err(e) => cx.ck.violation(&format!("{:?}", text), &format!("walking the tree panicked: {}", e)),
                }
            }
        }
    };
    token_spaces(cx, ck.pick(Depth { d_file: 3, d_ctx: 2, d_core: 5, d_via: 6 }, Depth { d_file: 4, d_ctx: 3, d_core: 6, d_via: 8 }), &judge);
    let core_depth = ck.pick(4, 5);
    par_sequences(CORE.len(), core_depth, |seq| {
        judge(cx, &render("", seq, CORE, ""));
        judge(cx, &render("script { fun a ( ) {", seq, CORE, ""));
        judge(cx, &render("module a {", seq, CORE, "}"));
        !ck.stopped()
    });
    edit_spaces(cx, &judge);
    char_spaces(cx, ck.pick(4, 5), 3, &judge);
    large::sentences(cx, large::COUNTS, &judge);
    large::tokens(cx, &judge);
    if !ck.stopped() {
        pump(cx);
    }
    ck.add(cx.states.len(), 0, 0);
}

fn depth_of(p: &Parse<SourceFile>) -> usize {
    let (mut d, mut max) = (0usize, 0usize);
    for e in p.syntax_node().preorder() {
        match e {
            rowan::WalkEvent::Enter(_) => {
                d += 1;
                max = max.max(d)
            }
            rowan::WalkEvent::Leave(_) => d -= 1,
        }
    }
    max
}

/// What is repeated.
fn units() -> Vec<String> {
    let mut units: Vec<String> = FULL.iter().map(|s| s.to_string()).collect();
    let two: &[&str] = &["a", "1", "(", ")", "{", "}", ",", ";", ":", "::", "+", "-", "let", "=", "&", "<", "@", "."];
    for a in two {
        for b in two {
            units.push(format!("{} {}", a, b));
        }
    }
    for u in [
        "fun a ( ) { }", "struct a ;", "a : b ,", "a : { a } ,", "a ( b ) ;", "let a = b ;", "module a { }", "// c\n", "\n", "é",
        "\u{a0}", "b\"", "a ( {", "a { b :", "let ( a ,", "& mut", "- !", "a + (", "{ let a = {", "a :: b", "x . y", "a + 1 ;", "a + 1 +",
        "address a { module b {", "script {", "module a { fun b ( ) {", "let a { b :",
    ] {
        units.push(u.to_string());
    }
    units
}

/// prefix + unit*n + suffix for every context and every unit of at most two tokens: long repetitions
/// (or, when the repetition nests, a few hundred levels) terminate, in time proportional to the text.
fn pump(cx: &Cx) {
    let ck = &cx.ck;
    let units = units();
    let jobs: Vec<(usize, usize)> = (0..CTX.len()).flat_map(|c| (0..units.len()).map(move |u| (c, u))).collect();
    let long = ck.pick(6_000usize, 30_000);
    let cases = std::sync::atomic::AtomicU64::new(0);
    let nesting = std::sync::atomic::AtomicU64::new(0);
    par_for(jobs.len(), |j| {
        if ck.stopped() {
            return;
        }
        let (c, u) = (&CTX[jobs[j].0], &units[jobs[j].1]);
        // file-level, block and module body at every unit; other contexts in the thorough tier only
        if !ck.thorough && !matches!(c.name, "file" | "module body" | "block" | "expr" | "fields" | "let" | "error block" | "params") {
            return;
        }
        let build = |n: usize, close: bool| {
            let mut s = String::from(c.pre);
            for _ in 0..n {
                s.push(' ');
                s.push_str(u);
            }
            if close {
                s.push(' ');
                s.push_str(c.post);
            }
            s
        };
        let case = |n: usize| format!("{} + {:?} * {} + {}", c.pre, u, n, c.post);
        let run = |n: usize, close: bool| -> Option<(usize, Duration)> {
            cases.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            ck.add(0, 1, 1);
            let text = build(n, close);
            let t = Instant::now();
            // a small stack, like that of the server's worker threads
            match guarded(&case(n), || {
                let p = SourceFile::parse(&text);
                let d = depth_of(&p);
                if p.syntax_node().text() != text.as_str() {
                    panic!("text of the tree differs");
                }
                d
            }) {
                Ok(d) => Some((d, t.elapsed())),
                Err(e) => {
                    ck.violation(&case(n), &format!("the parser panicked: {}", e));
                    None
                }
            }
        };
        for close in [true, false] {
            let (Some((d1, _)), Some((d2, _))) = (run(12, close), run(24, close)) else { return };
            if d2 > d1 {
                nesting.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                run(ck.pick(250, 300), close);
            } else {
                let Some((_, t1)) = run(long / 4, close) else { return };
                let Some((_, t2)) = run(long, close) else { return };
                // quadratic growth would give a factor of 16
                if t2 > Duration::from_millis(1500) && t2 > t1 * 9 {
                    let again = run(long / 4, close).and_then(|a| run(long, close).map(|b| (a.1, b.1)));
                    if let Some((a, b)) = again {
                        if b > Duration::from_millis(1500) && b > a * 9 {
                            ck.violation(&case(long), &format!("time grows faster than the text: {:?} for a quarter, {:?} for the whole", a, b));
                        }
                    }
                }
            }
        }
    });
    ck.note("pumped_texts", json!({"texts": cases.into_inner(), "long": long, "nesting_units": nesting.into_inner()}));
}

// ------------------------------------------------------------------ C09

fn c09_one(cx: &Cx, text: &str) {
    cx.ck.add(0, 1, 1);
    let p = match parse(text) {
        Ok(p) => p,
        Err(_) => return cx.ck.skip(),
    };
    let r = quiet_catch(|| -> Result<u64, String> {
        let root = p.syntax_node();
        if root.kind() != SOURCE_FILE {
            return Err(format!("root is {:?}", root.kind()));
        }
        let mut pos = 0usize;
        let mut cat = String::with_capacity(text.len());
        let mut h = vec![];
        fn go(n: &SyntaxNode, pos: &mut usize, cat: &mut String, h: &mut Vec<u8>) -> Result<(), String> {
            let start = *pos;
            h.push(n.kind() as u8);
            for c in n.children_with_tokens() {
                match c {
                    rowan::NodeOrToken::Node(c) => go(&c, pos, cat, h)?,
                    rowan::NodeOrToken::Token(t) => {
                        let r = t.text_range();
                        h.push(t.kind() as u8);
                        if off(r.start()) != *pos {
                            return Err(format!("leaf {:?} {:?} does not start at {}", t.kind(), r, pos));
                        }
                        if r.is_empty() || t.text().is_empty() {
                            return Err(format!("empty leaf {:?} at {}", t.kind(), pos));
                        }
                        if t.text().len() != off(r.len()) {
                            return Err(format!("leaf {:?} {:?} has text {:?}", t.kind(), r, t.text()));
                        }
                        cat.push_str(t.text());
                        *pos = off(r.end());
                    }
                }
            }
            h.push(255);
            let r = n.text_range();
            if off(r.start()) != start || off(r.end()) != *pos {
                return Err(format!("node {:?} has range {:?}, its children {}..{}", n.kind(), r, start, pos));
            }
            Ok(())
        }
        go(&root, &mut pos, &mut cat, &mut h)?;
        if cat != text {
            return Err(format!("leaves concatenate to {:?}", cat));
        }
        if root.text() != text || root.to_string() != text {
            return Err("text() of the root differs".into());
        }
        Ok(hash64(&h))
    });
    match r {
        Ok(Ok(h)) => {
            if cx.states.insert(h) {
                cx.ck.sample(text.to_string());
            }
        }
        Ok(Err(e)) => cx.ck.violation(&format!("{:?}", text), &e),
        Err(_) => cx.ck.skip(),
    }
}

fn c09(cx: &Cx) {
    let ck = cx.ck.clone();
    token_spaces(cx, ck.pick(Depth { d_file: 3, d_ctx: 2, d_core: 4, d_via: 6 }, Depth { d_file: 4, d_ctx: 3, d_core: 6, d_via: 8 }), &c09_one);
    edit_spaces(cx, &c09_one);
    char_spaces(cx, ck.pick(4, 5), 3, &c09_one);
    large::sentences(cx, large::COUNTS, &c09_one);
    large::tokens(cx, &c09_one);
    large::repetitions(cx, &c09_one);
    ck.add(cx.states.len(), 0, 0);
}

// ------------------------------------------------------------------ C10

fn c10_one(cx: &Cx, text: &str) {
    cx.ck.add(0, 1, 1);
    // The token stream as everybody sees it: the leaves of the tree.
    let got = guarded(text, || {
        SourceFile::parse(text)
            .syntax_node()
            .descendants_with_tokens()
            .filter_map(|e| e.into_token())
            .map(|t| (t.kind(), off(t.text_range().start()), off(t.text_range().end())))
            .collect::<Vec<_>>()
    });
    let mut got = match got {
        Ok(g) => g,
        Err(e) => return cx.ck.violation(&format!("{:?}", text), &format!("no tokens: panic: {}", e)),
    };
    let want: Vec<(SyntaxKind, usize, usize)> = lex(text).iter().map(|t| (t.kind, t.start, t.end)).collect();
    for g in &mut got {
        // contextual token: an address is a hexadecimal number
        if g.0 == DIEM_ADDRESS && text.get(g.1..g.2).map_or(false, |t| t.starts_with("0x")) {
            g.0 = INTEGER_NUMBER;
        }
    }
    if got != want {
        cx.ck.violation(&format!("{:?}", text), &format!("tokens   {:?}\nexpected {:?}", got, want));
        return;
    }
    let h: Vec<u8> = want.iter().flat_map(|t| [t.0 as u8, (t.2 - t.1) as u8]).collect();
    if cx.states.insert(hash64(&h)) {
        cx.ck.sample(format!("{:?}", text));
    }
}

fn c10(cx: &Cx) {
    let ck = cx.ck.clone();
    char_spaces(cx, ck.pick(5, 6), 4, &c10_one);
    edit_spaces(cx, &c10_one);
    large::tokens(cx, &c10_one);
    large::sentences(cx, &[300], &c10_one);
    // every character of the first planes alone, before and after the lexically relevant ones
    let around = ["", "a", "0x", "b\"", "//", "&", "1", " "];
    par_for(0x3000 + 0x200, |i| {
        let cp = if i < 0x3000 { i as u32 } else { 0x1f400 + (i as u32 - 0x3000) };
        if let Some(c) = char::from_u32(cp) {
            for a in around {
                for b in around {
                    c10_one(cx, &format!("{}{}{}", a, c, b));
                }
                c10_one(cx, &format!("{}{}\"{}", a, c, a));
            }
        }
    });
    ck.add(cx.states.len(), 0, 0);
}

// ------------------------------------------------------------------ C11

struct Refd {
    ok: bool,
    bad: usize,
    nodes: Vec<Node>,
    remap: Vec<(usize, SyntaxKind)>,
    all: Vec<Tok>,
    toks: Vec<Tok>,
}

fn reference(text: &str) -> Refd {
    let all = lex(text);
    let toks = significant(&all);
    let mut r = RefParse::new(text, &toks);
    let res = r.file();
    let (nodes, remap) = (std::mem::take(&mut r.nodes), std::mem::take(&mut r.remap));
    drop(r);
    Refd { ok: res.is_ok(), bad: res.err().unwrap_or(usize::MAX), nodes, remap, all, toks }
}

fn c11_one(cx: &Cx, text: &str) {
    cx.ck.add(0, 1, 1);
    let p = match parse(text) {
        Ok(p) => p,
        Err(_) => return cx.ck.skip(),
    };
    let r = reference(text);
    if r.ok != p.errors().is_empty() {
        cx.ck.violation(
            &format!("{:?}", text),
            &if r.ok {
                format!("a sentence of the supported language gets syntax errors: {:?}", p.errors())
            } else {
                let at = r.toks.get(r.bad).map_or(text.len(), |t| t.start);
                format!("not a sentence of the supported language (stops being one at offset {}), but no syntax error", at)
            },
        );
    }
    let mut h: Vec<u8> = r.nodes.iter().flat_map(|n| [n.0 as u8, n.1 as u8, n.2 as u8]).collect();
    h.push(r.ok as u8);
    if cx.states.insert(hash64(&h)) && r.ok {
        cx.ck.sample(text.to_string());
    }
}

fn c11(cx: &Cx) {
    let ck = cx.ck.clone();
    token_spaces(cx, ck.pick(Depth { d_file: 3, d_ctx: 2, d_core: 4, d_via: 7 }, Depth { d_file: 4, d_ctx: 3, d_core: 6, d_via: 9 }), &c11_one);
    edit_spaces(cx, &c11_one);
    large::sentences(cx, large::COUNTS, &c11_one);
    large::tokens(cx, &c11_one);
    large::repetitions(cx, &c11_one);
    ck.add(cx.states.len(), 0, 0);
}

// ------------------------------------------------------------------ C12

fn c12_one(cx: &Cx, text: &str) {
    let r = reference(text);
    cx.ck.add(0, 1, 0);
    if !r.ok {
        return;
    }
    let p = match parse(text) {
        Ok(p) => p,
        Err(_) => return cx.ck.skip(),
    };
    cx.ck.add(0, 0, 1);
    let Ok((nodes, toks)) = quiet_catch(|| shape(&p.syntax_node())) else { return cx.ck.skip() };
    let mut want: Vec<(SyntaxKind, usize, usize)> = r.toks.iter().map(|t| (t.kind, t.start, t.end)).collect();
    for (i, k) in &r.remap {
        want[*i].0 = *k;
    }
    if nodes != r.nodes {
        let i = nodes.iter().zip(&r.nodes).take_while(|(a, b)| a == b).count();
        cx.ck.violation(
            &format!("{:?}", text),
            &format!(
                "tree differs from the prescribed one at node {} in completion order: got {:?}, expected {:?}\n{}",
                i,
                nodes.get(i),
                r.nodes.get(i),
                p.debug_dump()
            ),
        );
    } else if toks != want {
        cx.ck.violation(&format!("{:?}", text), &format!("leaves {:?}\nexpected {:?}", toks, want));
    }
    if cx.states.insert(shape_hash(&r.nodes)) {
        cx.ck.sample(text.to_string());
    }
}

const OPS: &[&str] = &[
    "=", "||", "&&", "==", "!=", "<", ">", "<=", ">=", "|", "^", "&", "<<", ">>", "+", "-", "*", "/", "%",
];

fn c12(cx: &Cx) {
    let ck = cx.ck.clone();
    token_spaces(cx, ck.pick(Depth { d_file: 2, d_ctx: 2, d_core: 4, d_via: 7 }, Depth { d_file: 3, d_ctx: 3, d_core: 6, d_via: 9 }), &c12_one);
    edit_spaces(cx, &c12_one);
    large::sentences(cx, large::COUNTS, &c12_one);
    large::tokens(cx, &c12_one);
    large::repetitions(cx, &c12_one);
    // operator chains: every sequence of `n` operators, with each operand a name, a prefixed or a
    // postfixed operand
    let n = ck.pick(3, 4);
    let wrap = |e: &str| format!("script {{ fun a ( ) {{ {} ; }} }}", e);
    par_sequences(OPS.len(), n, |seq| {
        let mut names = ["a", "b", "c", "d", "e"].iter();
        let mut e = names.next().unwrap().to_string();
        for &o in seq {
            e.push_str(&format!(" {} {}", OPS[o], names.next().unwrap()));
        }
        c12_one(cx, &wrap(&e));
        !ck.stopped()
    });
    let operands = ["x", "- x", "! x", "* x", "x . y", "x ( y )", "( x )", "S { y : z = x }", "@0x1", "{ x }", "- x . y ( z )", "1", "! ! x", "( x = y )"];
    par_for(operands.len() * operands.len(), |ij| {
        let (a, b) = (operands[ij / operands.len()], operands[ij % operands.len()]);
        for o1 in OPS {
            c12_one(cx, &wrap(&format!("{} {} {}", a, o1, b)));
            for o2 in OPS {
                if ck.stopped() {
                    return;
                }
                c12_one(cx, &wrap(&format!("{} {} {} {} q", a, o1, b, o2)));
                c12_one(cx, &wrap(&format!("q {} {} {} {}", o1, a, o2, b)));
                c12_one(cx, &wrap(&format!("q {} ( {} {} {} )", o1, a, o2, b)));
                if ck.thorough {
                    for c in operands {
                        c12_one(cx, &wrap(&format!("let z : T = {} {} {} {} {}", a, o1, b, o2, c)));
                        c12_one(cx, &wrap(&format!("f ( {} {} {} , {} )", a, o1, b, c)));
                    }
                }
            }
        }
    });
    ck.add(cx.states.len(), 0, 0);
}

// ------------------------------------------------------------------ C13

struct Sig {
    nodes: Vec<Node>,
    kinds: Vec<SyntaxKind>,
    errors: Vec<(String, usize)>,
}

fn sig(text: &str) -> Option<Sig> {
    let p = parse(text).ok()?;
    quiet_catch(|| {
        let (nodes, toks) = shape(&p.syntax_node());
        let errors = p
            .errors()
            .iter()
            .map(|e| {
                let at = off(e.range().start());
                (e.to_string(), toks.iter().filter(|t| t.2 <= at).count())
            })
            .collect();
        Sig { nodes, kinds: toks.iter().map(|t| t.0).collect(), errors }
    })
    .ok()
}

const GAPS: &[&str] = &["", " ", "\n", "\t\n  ", "// c\n", " // x { ( ;\n ", "\n// a\n// b\n", "//\n//\n"];

fn c13_words(text: &str) -> Vec<&str> {
    significant(&lex(text)).iter().map(|t| &text[t.start..t.end]).collect()
}

/// Compares a text with the same tokens to the given one.
fn c13_check<'a>(cx: &'a Cx, text: &'a str) -> Option<impl Fn(&str) + 'a> {
    let words = c13_words(text);
    let n = words.len();
    let base = sig(text)?;
    cx.ck.add(0, 0, 1);
    if cx.states.insert(shape_hash(&base.nodes)) {
        cx.ck.sample(text.chars().take(400).collect::<String>());
    }
    Some(move |variant: &str| {
        let v = significant(&lex(variant));
        if v.len() != n || v.iter().zip(&words).any(|(t, w)| &variant[t.start..t.end] != *w) {
            return; // not the same tokens
        }
        cx.ck.add(0, 1, 1);
        let Some(got) = sig(variant) else {
            return cx.ck.violation(&format!("{:?} vs {:?}", text, variant), "the variant with other trivia panics");
        };
        if got.nodes != base.nodes || got.kinds != base.kinds {
            cx.ck.violation(
                &format!("{:?} vs {:?}", text, variant),
                &format!("trees differ\n{:?}\n{:?}", base.nodes, got.nodes),
            );
        } else if got.errors != base.errors {
            cx.ck.violation(
                &format!("{:?} vs {:?}", text, variant),
                &format!("errors differ\n{:?}\n{:?}", base.errors, got.errors),
            );
        }
    })
}

/// One trivia in every gap of the text, and in all of them.
fn c13_gaps(cx: &Cx, text: &str, gap: &str, everywhere: bool) {
    let Some(check) = c13_check(cx, text) else { return cx.ck.skip() };
    let words = c13_words(text);
    let n = words.len();
    for at in 0..=n {
        if cx.ck.stopped() {
            return;
        }
        let mut s = String::new();
        for i in 0..=n {
            s.push_str(if i == at { gap } else if i == 0 || i == n { "" } else { " " });
            s.push_str(words.get(i).copied().unwrap_or(""));
        }
        check(&s);
    }
    if everywhere {
        check(&words.iter().map(|w| format!("{}{}", gap, w)).collect::<String>());
        check(&(words.iter().map(|w| format!("{}{}", w, gap)).collect::<String>()));
    }
}

fn c13_one(cx: &Cx, text: &str) {
    let Some(check) = c13_check(cx, text) else { return cx.ck.skip() };
    let words = c13_words(text);
    let n = words.len();
    let build = |gap: &dyn Fn(usize) -> &'static str| {
        let mut s = String::new();
        for (i, w) in words.iter().enumerate() {
            s.push_str(gap(i));
            s.push_str(w);
        }
        s.push_str(gap(n));
        s
    };
    // unterminated strings need their line end
    for g in GAPS {
        check(&build(&|_| g));
        check(&build(&|i| if i == 0 { "" } else { g }));
    }
    for i in 0..=n {
        for g in GAPS {
            check(&build(&|j| if j == i { g } else if j == 0 || j == n { "" } else { " " }));
        }
    }
    // tight: no trivia wherever the tokens stay the same
    let mut s = String::new();
    for w in &words {
        let joined = format!("{}{}", s, w);
        let v = significant(&lex(&joined));
        s = if v.last().map_or(false, |t| &joined[t.start..] == *w) && v.len() >= 1 { joined } else { format!("{} {}", s, w) };
    }
    check(&s);
}

fn c13(cx: &Cx) {
    let ck = cx.ck.clone();
    token_spaces(cx, ck.pick(Depth { d_file: 2, d_ctx: 1, d_core: 3, d_via: 4 }, Depth { d_file: 2, d_ctx: 2, d_core: 4, d_via: 7 }), &c13_one);
    for src in CORPUS {
        c13_one(cx, src);
    }
    large::sentences(cx, ck.pick(&[2, 9], &[2, 3, 9, 17]), &c13_one);
    large::gaps(cx, &c13_gaps);
    if ck.thorough {
        edit_spaces(cx, &c13_one);
    } else {
        // every truncation and one-token deletion
        for src in CORPUS {
            let toks = lex(src);
            par_for(toks.len(), |i| {
                c13_one(cx, &src[..toks[i].end]);
                c13_one(cx, &format!("{} {}", &src[..toks[i].start], &src[toks[i].end..]));
            });
        }
    }
    ck.add(cx.states.len(), 0, 0);
}

// ------------------------------------------------------------------ C14

fn c14_one(cx: &Cx, text: &str) {
    cx.ck.add(0, 1, 1);
    let p = match parse(text) {
        Ok(p) => p,
        Err(_) => return cx.ck.skip(),
    };
    let r = reference(text);
    let bad = |m: String| cx.ck.violation(&format!("{:?}", text), &m);
    let mut last = 0;
    for e in p.errors() {
        let (s, t) = (off(e.range().start()), off(e.range().end()));
        if t > text.len() || s > t || !text.is_char_boundary(s) || !text.is_char_boundary(t) {
            return bad(format!("error {:?} outside the text or inside a character", e));
        }
        if s < last {
            return bad(format!("errors out of order: {:?}", p.errors()));
        }
        last = s;
        if r.all.iter().any(|t| t.start < s && s < t.end) {
            return bad(format!("error {:?} inside a token", e));
        }
    }
    let Some(first) = p.errors().first() else { return };
    let at = off(first.range().start());
    if !r.ok {
        let limit = r.toks.get(r.bad).map_or(text.len(), |t| t.start);
        if at > limit {
            return bad(format!("first error at {}, but the text stops being viable at {}", at, limit));
        }
        let Ok((nodes, toks)) = quiet_catch(|| shape(&p.syntax_node())) else { return cx.ck.skip() };
        let before = toks.iter().filter(|t| t.2 <= at).count();
        // at most the two tokens in front of the offending one may already be part of the error
        if before + 2 < r.bad.min(r.toks.len()) {
            return bad(format!("first error after {} tokens, but the text is viable up to token {}", before, r.bad));
        }
        for n in &r.nodes {
            // complete before the error, the following token included
            if n.2 < before && !nodes.contains(n) {
                return bad(format!(
                    "{:?} (tokens {}..{}) is complete before the first error (token {}) but is not in the tree\n{}",
                    n.0, n.1, n.2, before, p.debug_dump()
                ));
            }
        }
        if cx.states.insert(shape_hash(&nodes)) {
            cx.ck.sample(json!({"text": text, "first_error": at, "not_viable_from": limit}));
        }
    }
}

fn c14(cx: &Cx) {
    let ck = cx.ck.clone();
    token_spaces(cx, ck.pick(Depth { d_file: 3, d_ctx: 2, d_core: 4, d_via: 7 }, Depth { d_file: 4, d_ctx: 3, d_core: 6, d_via: 9 }), &c14_one);
    edit_spaces(cx, &c14_one);
    large::sentences(cx, large::COUNTS, &c14_one);
    large::tokens(cx, &c14_one);
    large::repetitions(cx, &c14_one);
    char_spaces(cx, ck.pick(3, 4), 2, &c14_one);
    // the same with trivia in front of the offending token
    par_sequences(CORE.len(), ck.pick(3, 4), |seq| {
        let s: Vec<&str> = seq.iter().map(|&i| CORE[i]).collect();
        c14_one(cx, &format!("module M {{ fun f ( ) {{ é // ü\n {}", s.join(" // é\n")));
        c14_one(cx, &format!("script {{ fun f ( ) {{ {} }} }} // é", s.join("\n\n")));
        !ck.stopped()
    });
    ck.add(cx.states.len(), 0, 0);
}

// ------------------------------------------------------------------ C15

fn direct_token(n: &SyntaxNode, k: SyntaxKind) -> Option<SyntaxToken> {
    for c in n.children_with_tokens() {
        if let rowan::NodeOrToken::Token(t) = c {
            if t.kind() == k {
                return Some(t);
            }
        }
    }
    None
}

fn kids(n: &SyntaxNode, ks: &[SyntaxKind]) -> Vec<SyntaxNode> {
    n.children().filter(|c| ks.contains(&c.kind())).collect()
}

fn c15_tree(text: &str, p: &Parse<SourceFile>) -> Result<(), String> {
    let root = p.syntax_node();
    let tree = p.tree();
    if tree.syntax() != &root && tree.syntax().text() != text {
        return Err("tree() is not the root".into());
    }
    let s = |v: Vec<SyntaxNode>| v.iter().map(|n| format!("{:?}@{:?}", n.kind(), n.text_range())).collect::<Vec<_>>();
    let eq = |what: &str, got: Vec<SyntaxNode>, want: Vec<SyntaxNode>| -> Result<(), String> {
        if got != want { Err(format!("{}: got {:?}, expected {:?}", what, s(got), s(want))) } else { Ok(()) }
    };
    let teq = |what: &str, got: Option<SyntaxToken>, want: Option<SyntaxToken>| -> Result<(), String> {
        if got != want { Err(format!("{}: got {:?}, expected {:?}", what, got, want)) } else { Ok(()) }
    };
    const EXPR: &[SyntaxKind] = &[BIN_EXPR, LITERAL];
    let opt = |n: Option<SyntaxNode>| n.into_iter().collect::<Vec<_>>();
    macro_rules! casts {
        ($n:expr, $($t:ident : $k:expr),*) => {$(
            let k: &[SyntaxKind] = $k;
            let want = k.contains(&$n.kind());
            if ast::$t::can_cast($n.kind()) != want {
                return Err(format!("{}::can_cast({:?}) is {}", stringify!($t), $n.kind(), !want));
            }
            match ast::$t::cast($n.clone()) {
                Some(c) => {
                    if !want { return Err(format!("{}::cast accepts {:?}", stringify!($t), $n.kind())); }
                    if c.syntax() != &$n { return Err(format!("{}::syntax() is another node", stringify!($t))); }
                    if c.to_string() != $n.text().to_string() { return Err(format!("{} displays {:?}", stringify!($t), c.to_string())); }
                    let sub = c.clone_subtree();
                    if sub.syntax().text() != $n.text() || sub.syntax().kind() != $n.kind() || sub.syntax().parent().is_some() {
                        return Err(format!("{}::clone_subtree changes the subtree", stringify!($t)));
                    }
                    let upd = c.clone_for_update();
                    if upd.syntax().text() != $n.text() || upd.syntax().kind() != $n.kind() {
                        return Err(format!("{}::clone_for_update changes the subtree", stringify!($t)));
                    }
                }
                None => if want { return Err(format!("{}::cast rejects {:?}", stringify!($t), $n.kind())); }
            }
        )*};
    }
    for n in root.descendants() {
        casts!(n, SourceFile: &[SOURCE_FILE], ScriptDef: &[SCRIPT_DEF], FunctionDef: &[FUNCTION_DEF],
            ExprStmt: &[EXPR_STMT], BinExpr: &[BIN_EXPR], Literal: &[LITERAL], Expr: EXPR);
        let tok = |k| direct_token(&n, k);
        match n.kind() {
            SOURCE_FILE => {
                let c = ast::SourceFile::cast(n.clone()).unwrap();
                eq("script_defs", c.script_defs().map(|x| x.syntax().clone()).collect(), kids(&n, &[SCRIPT_DEF]))?;
            }
            SCRIPT_DEF => {
                let c = ast::ScriptDef::cast(n.clone()).unwrap();
                teq("ScriptDef::l_brace_token", c.l_brace_token(), tok(L_BRACE))?;
                teq("ScriptDef::r_brace_token", c.r_brace_token(), tok(R_BRACE))?;
                eq("ScriptDef::function_defs", c.function_defs().map(|x| x.syntax().clone()).collect(), kids(&n, &[FUNCTION_DEF]))?;
            }
            FUNCTION_DEF => {
                let c = ast::FunctionDef::cast(n.clone()).unwrap();
                teq("fun_token", c.fun_token(), tok(FUN_KW))?;
                teq("ident_token", c.ident_token(), tok(IDENT))?;
                teq("l_paren_token", c.l_paren_token(), tok(L_PAREN))?;
                teq("r_paren_token", c.r_paren_token(), tok(R_PAREN))?;
                teq("l_brace_token", c.l_brace_token(), tok(L_BRACE))?;
                teq("r_brace_token", c.r_brace_token(), tok(R_BRACE))?;
                eq("expr_stmts", c.expr_stmts().map(|x| x.syntax().clone()).collect(), kids(&n, &[EXPR_STMT]))?;
            }
            EXPR_STMT => {
                let c = ast::ExprStmt::cast(n.clone()).unwrap();
                eq("ExprStmt::expr", opt(c.expr().map(|x| x.syntax().clone())), kids(&n, EXPR).into_iter().take(1).collect())?;
                teq("semicolon_token", c.semicolon_token(), tok(SEMICOLON))?;
            }
            BIN_EXPR => {
                let c = ast::BinExpr::cast(n.clone()).unwrap();
                // Operands of a kind the typed layer knows; others are not represented at all.
                let operands: Vec<SyntaxNode> = n.children().collect();
                if operands.iter().all(|o| EXPR.contains(&o.kind())) {
                    eq("BinExpr::lhs", opt(c.lhs().map(|x| x.syntax().clone())), operands.iter().take(1).cloned().collect())?;
                    eq("BinExpr::rhs", opt(c.rhs().map(|x| x.syntax().clone())), operands.iter().skip(1).take(1).cloned().collect())?;
                }
                teq("plus_token", c.plus_token(), tok(PLUS))?;
                teq("minus_token", c.minus_token(), tok(MINUS))?;
                teq("star_token", c.star_token(), tok(STAR))?;
                teq("slash_token", c.slash_token(), tok(SLASH))?;
                teq("mod_token", c.mod_token(), tok(MOD))?;
            }
            LITERAL => {
                let c = ast::Literal::cast(n.clone()).unwrap();
                teq("true_token", c.true_token(), tok(TRUE_KW))?;
                teq("false_token", c.false_token(), tok(FALSE_KW))?;
            }
            _ => {}
        }
    }
    for t in root.descendants_with_tokens().filter_map(|e| e.into_token()) {
        macro_rules! tcasts {
            ($($t:ident : $k:expr),*) => {$(
                let want = t.kind() == $k;
                if ast::$t::can_cast(t.kind()) != want || ast::$t::cast(t.clone()).is_some() != want {
                    return Err(format!("{}::cast is wrong for {:?}", stringify!($t), t.kind()));
                }
                if let Some(c) = ast::$t::cast(t.clone()) {
                    if c.syntax() != &t || c.text() != t.text() || c.to_string() != t.text() {
                        return Err(format!("{} has another text", stringify!($t)));
                    }
                }
            )*};
        }
        tcasts!(Whitespace: WHITESPACE, Comment: COMMENT, HexString: HEX_STRING, ByteString: BYTE_STRING, IntegerNumber: INTEGER_NUMBER);
    }
    // Parse conversions
    let ok = p.clone().ok();
    match ok {
        Ok(t) if p.errors().is_empty() => {
            if t.syntax().text() != text {
                return Err("ok() returns another tree".into());
            }
        }
        Err(e) if !p.errors().is_empty() => {
            if &*e != p.errors() {
                return Err("ok() returns other errors".into());
            }
        }
        _ => return Err("ok() contradicts errors()".into()),
    }
    let erased = p.clone().to_syntax();
    if erased.syntax_node().text() != text {
        return Err("to_syntax() changes the text".into());
    }
    match erased.clone().cast::<SourceFile>() {
        Some(c) if c.errors() == p.errors() && &c == p => {}
        _ => return Err("cast::<SourceFile>() of the erased parse differs".into()),
    }
    if erased.cast::<ast::ScriptDef>().is_some() {
        return Err("cast::<ScriptDef>() accepts a source file".into());
    }
    Ok(())
}

fn c15_one(cx: &Cx, text: &str) {
    cx.ck.add(0, 1, 1);
    let p = match parse(text) {
        Ok(p) => p,
        Err(_) => return cx.ck.skip(),
    };
    match quiet_catch(|| {
        let r = c15_tree(text, &p);
        (r, shape_hash(&shape(&p.syntax_node()).0))
    }) {
        Ok((Ok(()), h)) => {
            if cx.states.insert(h) {
                cx.ck.sample(text.to_string());
            }
        }
        Ok((Err(e), _)) => cx.ck.violation(&format!("{:?}", text), &e),
        Err(e) => cx.ck.violation(&format!("{:?}", text), &format!("an accessor panicked: {}", e)),
    }
}

fn c15(cx: &Cx) {
    let ck = cx.ck.clone();
    token_spaces(cx, ck.pick(Depth { d_file: 2, d_ctx: 2, d_core: 3, d_via: 5 }, Depth { d_file: 3, d_ctx: 2, d_core: 5, d_via: 7 }), &c15_one);
    edit_spaces(cx, &c15_one);
    large::sentences(cx, large::COUNTS, &c15_one);
    large::tokens(cx, &c15_one);
    large::repetitions(cx, &c15_one);
    let atoms = ["1", "true", "false", "b\"a\"", "@0x1", "a", "( 1 )", "1 . a"];
    par_for(atoms.len() * atoms.len(), |ij| {
        let (a, b) = (atoms[ij / atoms.len()], atoms[ij % atoms.len()]);
        for o in OPS {
            for o2 in OPS {
                for c in atoms {
                    c15_one(cx, &format!("script {{ fun f ( ) {{ {} {} {} {} {} ; }} }}", a, o, b, o2, c));
                }
            }
        }
    });
    ck.add(cx.states.len(), 0, 0);
}

fn main() {
    let ck = Check::from_args();
    limit_memory(28);
    let id = ck.id.clone();
    {
        let ck = ck.clone();
        let id = id.clone();
        let limit = Duration::from_secs(if ck.thorough { 30 } else { 15 });
        watchdog(limit, move |case| {
            if id == "C08" || id == "C10" {
                ck.violation(&format!("{:?}", case), "parsing does not terminate");
                ck.finish();
            }
            eprintln!("no answer: parsing {:?} does not terminate", case);
            std::process::exit(2);
        });
    }
    let cx = Cx { ck: ck.clone(), states: StateSet::default() };
    if let Some(path) = &ck.replay {
        // replay a text: judge it alone
        let text = std::fs::read_to_string(path).unwrap();
        let text = text.lines().find_map(|l| l.strip_prefix("key ")).map(|k| unescape(k)).unwrap_or(text.clone());
        println!("replaying {:?}", text);
        match id.as_str() {
            "C08" => println!("{:?}", parse(&text).map(|p| p.debug_dump())),
            "C09" => c09_one(&cx, &text),
            "C10" => c10_one(&cx, &text),
            "C11" => c11_one(&cx, &text),
            "C12" => c12_one(&cx, &text),
            "C13" => c13_one(&cx, &text),
            "C14" => c14_one(&cx, &text),
            _ => c15_one(&cx, &text),
        }
        std::process::exit(if ck.violated() { 1 } else { 0 });
    }
    match id.as_str() {
        "C08" => c08(&cx),
        "C09" => c09(&cx),
        "C10" => c10(&cx),
        "C11" => c11(&cx),
        "C12" => c12(&cx),
        "C13" => c13(&cx),
        "C14" => c14(&cx),
        "C15" => c15(&cx),
        _ => {
            eprintln!("unknown property {}", id);
            std::process::exit(2)
        }
    }
    ck.finish()
}

/// The text of a replay key (a Rust string literal).
fn unescape(k: &str) -> String {
    let k = k.split("\" vs \"").next().unwrap().trim_matches('"');
    let mut out = String::new();
    let mut it = k.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            out.push(c);
            continue;
        }
        match it.next() {
            Some('n') => out.push('\n'),
            Some('t') => out.push('\t'),
            Some('r') => out.push('\r'),
            Some('0') => out.push('\0'),
            Some('u') => {
                let hex: String = it.by_ref().skip(1).take_while(|c| *c != '}').collect();
                out.extend(u32::from_str_radix(&hex, 16).ok().and_then(char::from_u32));
            }
            Some(c) => out.push(c),
            None => {}
        }
    }
    out
}
