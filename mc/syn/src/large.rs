//! Texts with many or long parts.
use crate::*;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

pub const COUNTS: &[usize] = &[2, 3, 9, 17, 33, 65, 130, 260];

fn all(cx: &Cx, name: &str, texts: Vec<String>, judge: &Judge) {
    cx.ck.note(name, texts.len() as u64);
    par_for((texts.len() + 15) / 16, |i| {
        for t in texts.iter().skip(i * 16).take(16) {
            if !cx.ck.stopped() {
                judge(cx, t);
            }
        }
    });
}

/// Sentences with `n` of everything that can occur any number of times, each also with a fault in the
/// first, a middle and the last one.
pub fn sentences(cx: &Cx, counts: &[usize], judge: &Judge) {
    let mut texts: Vec<String> = vec![];
    let block = |s: &str| format!("script {{ fun a ( ) {{ {} }} }}", s);
    let expr = |s: &str| block(&format!("{} ;", s));
    // (text before, separator, element number i, whether a separator may end the list, text after, nests)
    let lists: Vec<(&str, &str, Box<dyn Fn(usize) -> String>, &str)> = vec![
        ("", "", Box::new(|i| format!("module m{} {{ }}", i)), ""),
        ("", "", Box::new(|i| format!("script {{ fun f{} ( ) {{ }} }}", i)), ""),
        ("", "", Box::new(|i| format!("address 0x{:x} {{ module m {{ }} }}", i)), ""),
        ("", "", Box::new(|i| ["module m { }", "script { fun f ( ) { } }", "address 0x1 { }", "module 0x2 :: n { }"][i % 4].to_string()), ""),
        ("address 0x1 {", "", Box::new(|i| format!("module m{} {{ }}", i)), "}"),
        ("module m {", "", Box::new(|i| format!("fun f{} ( ) {{ }}", i)), "}"),
        ("module m {", "", Box::new(|i| format!("struct S{} {{ }}", i)), "}"),
        ("module m {", "", Box::new(|i| if i % 2 == 0 { "struct S ;".into() } else { format!("fun f{} ( ) : u8 {{ }}", i) }), "}"),
        ("script {", "", Box::new(|i| format!("fun f{} ( ) {{ }}", i)), "}"),
        ("module m { struct S {", ",", Box::new(|i| format!("f{} : T{}", i, i)), "} }"),
        ("module m { struct S <", ",", Box::new(|i| format!("T{}", i)), "> { } }"),
        ("module m { struct S < T :", "+", Box::new(|i| format!("a{}", i)), "> { } }"),
        ("module m { struct S <", ",", Box::new(|i| format!("T{} : a + b", i)), "> ; }"),
        ("module m { fun f (", ",", Box::new(|i| format!("p{} : & mut T", i)), ") { } }"),
        ("module m { fun f (", ",", Box::new(|i| format!("p{} : &T", i)), ") { } }"),
        ("script { fun f ( ) {", "", Box::new(|i| format!("let a{} = {} ;", i, i)), "} }"),
        ("script { fun f ( ) {", "", Box::new(|i| format!("a{} ;", i)), "} }"),
        ("script { fun f ( ) {", ";", Box::new(|i| format!("a{} + 1", i)), "} }"),
        ("script { fun f ( ) {", "", Box::new(|i| ["let a : u8 = b ;", "c ( d ) ;", "{ } ;", "e = f ;"][i % 4].to_string()), "} }"),
        ("script { fun f ( ) { let (", ",", Box::new(|i| format!("a{}", i)), ") = b ; } }"),
        ("script { fun f ( ) { let (", ",", Box::new(|i| format!("mut a{}", i)), ") : T = b ; } }"),
        ("script { fun f ( ) { let S {", ",", Box::new(|i| format!("a{}", i)), "} = b ; } }"),
        ("script { fun f ( ) { let S {", ",", Box::new(|i| format!("a{} : b{}", i, i)), "} = b ; } }"),
        ("script { fun f ( ) { g (", ",", Box::new(|i| format!("a{}", i)), ") ; } }"),
        ("script { fun f ( ) { g (", ",", Box::new(|i| format!("a{} * 2 + 1", i)), ") } }"),
        ("script { fun f ( ) { S {", ",", Box::new(|i| format!("a{}", i)), "} ; } }"),
        ("script { fun f ( ) { S {", ",", Box::new(|i| format!("a{} : {}", i, i)), "} ; } }"),
        ("script { fun f ( ) { a", "", Box::new(|i| format!(". b{}", i)), "; } }"),
        ("script { fun f ( ) { a", "", Box::new(|_| "( )".to_string()), "; } }"),
        ("script { fun f ( ) { a", "", Box::new(|i| [". b", "( c )", ". d ( e )"][i % 3].to_string()), "+ 1 ; } }"),
        ("script { fun f ( ) {", "", Box::new(|_| "-".to_string()), "a ; } }"),
        ("script { fun f ( ) {", "", Box::new(|_| "!".to_string()), "a + b ; } }"),
        ("script { fun f ( ) {", "", Box::new(|i| ["*", "-", "!"][i % 3].to_string()), "a . b ; } }"),
        ("script { fun f ( ) { x +", "", Box::new(|i| ["!", "- "][i % 2].to_string()), "a * b ; } }"),
    ];
    for &n in counts {
        for (pre, sep, elem, post) in &lists {
            if n > 130 && elem(0).len() < 2 {
                // prefix operators nest
                continue;
            }
            let elems: Vec<String> = (0..n).map(|i| elem(i)).collect();
            let sep = format!(" {} ", sep);
            let whole = |e: &[String], tail: &str| format!("{} {}{} {}", pre, e.join(&sep), tail, post);
            texts.push(whole(&elems, ""));
            texts.push(whole(&elems, &sep));
            texts.push(format!("{} {}", pre, elems.join(&sep)));
            texts.push(format!("{} {} {} {}", pre, elems.join(&sep), post, post));
            for at in [0, n / 2, n - 1] {
                for fault in ["$", "", "1", "let", ")", "}", ", ,", ";"] {
                    let mut e = elems.clone();
                    e[at] = fault.to_string();
                    texts.push(whole(&e, ""));
                    let mut e = elems.clone();
                    e[at] = format!("{} {}", e[at], fault);
                    texts.push(whole(&e, ""));
                }
                // an element cut off
                let words: Vec<&str> = elems[at].split(' ').collect();
                if words.len() > 1 {
                    let mut e = elems.clone();
                    e[at] = words[..words.len() - 1].join(" ");
                    texts.push(whole(&e, ""));
                    let mut e = elems.clone();
                    e[at] = words[1..].join(" ");
                    texts.push(whole(&e, ""));
                }
            }
        }
        // operator chains, of one operator, of two in turn, and one other in the middle; with a fault
        for (i, o) in OPS.iter().enumerate() {
            for (j, p) in OPS.iter().enumerate() {
                if n > 130 && (i + j) % 3 > 0 || n > 20 && !cx.ck.thorough && (i * 5 + j) % 4 > 0 {
                    continue;
                }
                for kind in 0..2 {
                    let mut e = String::from("a0");
                    for k in 0..n {
                        let op = if kind == 0 && k % 2 == 1 || kind == 1 && k == n / 2 { p } else { o };
                        e.push_str(&format!(" {} a{}", op, k + 1));
                    }
                    texts.push(expr(&e));
                    if j == (i + 1) % OPS.len() {
                        texts.push(expr(&format!("{} {}", e, o)));
                        texts.push(expr(&format!("{} {} {}", e, o, p)));
                        texts.push(expr(&format!("{} b", e)));
                        texts.push(block(&e));
                        texts.push(format!("script {{ fun a ( ) {{ {}", e));
                    }
                }
            }
        }
        // nesting
        let deep = n.min(60);
        if n <= 65 {
            for (open, mid, close) in [
                ("(", "a", ")"),
                ("( a +", "b", ")"),
                ("f (", "a", ")"),
                ("f ( a ,", "b", ")"),
                ("{", "a", "}"),
                ("{ a ;", "b", "}"),
                ("{ let a = b ;", "c", "} ;"),
                ("S { a :", "b", "}"),
                ("S { a , b :", "c", "}"),
                ("- (", "a", ")"),
                ("a . b (", "c", ") . d"),
                ("! {", "a", "}"),
            ] {
                let e = format!("{} {} {}", format!("{} ", open).repeat(deep), mid, format!("{} ", close).repeat(deep));
                texts.push(expr(&e));
                texts.push(block(&e));
                texts.push(block(&format!("let x = {} ;", e)));
                texts.push(expr(&format!("{} {} {}", format!("{} ", open).repeat(deep), mid, format!("{} ", close).repeat(deep - 1))));
                texts.push(expr(&format!("{} {} {}", format!("{} ", open).repeat(deep - 1), mid, format!("{} ", close).repeat(deep))));
                texts.push(expr(&format!("{} {}", format!("{} ", open).repeat(deep), format!("{} ", close).repeat(deep))));
                texts.push(expr(&format!("{} $ {}", format!("{} ", open).repeat(deep), format!("{} ", close).repeat(deep))));
            }
            for (open, mid, close) in [("(", "a", ")"), ("( a ,", "b", ")"), ("S { f :", "a", "}"), ("S { g , f :", "a", "}"), ("( S { f :", "a", "} )")] {
                let pat = format!("{} {} {}", format!("{} ", open).repeat(deep), mid, format!("{} ", close).repeat(deep));
                texts.push(block(&format!("let {} = x ;", pat)));
                texts.push(block(&format!("let {} $ = x ;", pat)));
            }
        }
    }
    all(cx, "large_sentences", texts, judge);
}

/// Tokens and trivia of all lengths, in the places where they occur, with a token after them that has
/// to be found.
pub fn tokens(cx: &Cx, judge: &Judge) {
    let mut texts: Vec<String> = vec![];
    let sizes: Vec<usize> = (1..40).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4095, 4096, 4097, 65_535, 65_536, 65_537, cx.ck.pick(70_000, 300_000)]).collect();
    for &n in &sizes {
        let mut toks: Vec<String> = vec![];
        for (head, fill, tail) in [
            ("a", "b", ""), ("", "_", ""), ("fun", "x", ""), ("struct", "s", ""), ("A", "9", ""), ("u", "8", ""), ("mut", "_", ""), ("x", "x", ""), ("b", "b", "\"\""),
            ("1", "0", ""), ("", "9", ""), ("", "1", "u8"), ("1", "1", "u128"), ("0x", "f", ""), ("0x", "0", "g"), ("0x", "A", "u8"), ("00", "0", "x1"),
            ("b\"", "a", "\""), ("b\"", "\\\\", "\""), ("b\"", "\\\"", "\""), ("b\"", "\u{e9}", "\""), ("b\"", "//", "\""), ("b\"", "a", "\n"), ("b\"", "\\", "\"\n"), ("x\"", "0f", "\""), ("x\"", "\\\"", "\""), ("x\"", "0", ""),
            ("//", "c", "\n"), ("//", " \u{e9}", "\n"), ("//", "/", "\n"), ("// fun", " (", "\n"), ("", " ", ""), ("", "\n", ""), ("", "\t", ""), ("", " \n", ""), ("", "\r\n", ""), ("", "// c\n", ""), ("", "//\n\n ", ""),
            ("", "$", ""), ("", "\u{e9}", ""), ("", "\u{10400}", ""), ("", "\u{a0}", ""), ("", "'", ""), ("", "\"", ""), ("", "~ ", ""),
            ("", "&", ""), ("", "=", ""), ("", "<", ""), ("", ">", ""), ("", "|", ""), ("", ":", ""), ("", ".", ""), ("", "!", ""), ("", "/ ", ""), ("", "==>", ""), ("", "<=", ""), ("&", " mut", ""), ("", "&mut", ""),
        ] {
            toks.push(format!("{}{}{}", head, fill.repeat(n), tail));
        }
        for t in &toks {
            if n > 1000 && t.chars().next().map_or(false, |c| "$'\"~&=<>|:.!/\u{e9}\u{10400}\u{a0}".contains(c)) && !t.starts_with("//") && n != 4096 {
                // as many tokens
                if n > 4096 || !cx.ck.thorough {
                    continue;
                }
            }
            texts.push(t.clone());
            texts.push(format!("{} module", t));
            texts.push(format!("module {} {{ }}", t));
            texts.push(format!("module a {{ fun {} ( ) {{ }} }}", t));
            texts.push(format!("script {{ fun f ( ) {{ a = {} ; }} }}", t));
            texts.push(format!("script {{ fun f ( ) {{ a = b {} + 1 ; }} }} $", t));
            texts.push(format!("script {{ fun f ( ) {{ let {}: T = {}; {} }} }}", t, t, t));
            texts.push(format!("module a {{ struct S {{ {} : {} , }} }}", t, t));
        }
    }
    all(cx, "long_tokens", texts, judge);
}

/// Every unit repeated in every context.
pub fn repetitions(cx: &Cx, judge: &Judge) {
    let units = units();
    let counts: &[usize] = if cx.ck.thorough { &[9, 17, 33, 64, 65, 129, 257] } else { &[9, 65] };
    let n = AtomicU64::new(0);
    par_for(CTX.len() * units.len(), |k| {
        let (c, u) = (&CTX[k / units.len()], &units[k % units.len()]);
        let nests = u.contains(['(', '{', '-', '!', '*', '&']);
        for &count in counts {
            if cx.ck.stopped() || nests && count > 65 {
                return;
            }
            let body = format!("{} {}", c.pre, format!("{} ", u).repeat(count));
            let mut texts = vec![format!("{} {}", body, c.post)];
            if cx.ck.thorough {
                texts.extend([body.clone(), format!("{} a {}", body, c.post), format!("{} $ {}", body, c.post), format!("{} }} {}", body, c.post)]);
            }
            n.fetch_add(texts.len() as u64, Relaxed);
            for t in &texts {
                judge(cx, t);
            }
        }
    });
    cx.ck.note("repetitions", n.into_inner());
}

/// Long and odd trivia in the gaps of every corpus text and of sentences with lists.
pub fn gaps(cx: &Cx, judge: &(dyn Fn(&Cx, &str, &str, bool) + Sync)) {
    let mut gaps: Vec<String> = ["\r\n", "\t", "//", "//\n", "//\r\n", "// \u{e9}\u{10400}\n", "////\n", "//!\n", "/// x\n", "// b\"\n", "// \"\n", "// \\\n", "//\t\r\n//\n\n//x\n", "// module a { }\n", "// */ /* \n", "\r\n\r\n", " \t \n \t", "//\u{a0}\n", "//\u{2028}\n"]
        .iter()
        .map(|s| s.to_string())
        .collect();
    for n in [2, 3, 7, 8, 9, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000] {
        for unit in [" ", "\n", "// c\n", "//\n ", "\n\n// \u{e9}\n"] {
            gaps.push(unit.repeat(n));
        }
        gaps.push(format!("// {}\n", "c".repeat(n)));
        gaps.push(format!("//{}\n", "\u{e9} ".repeat(n)));
    }
    let long = [" ".repeat(70_000), "\n".repeat(66_000), format!("// {}\n", "c".repeat(70_000)), "//\n".repeat(cx.ck.pick(3_000, 23_000))];
    let n_short = gaps.len();
    gaps.extend(long);
    let mut texts: Vec<String> = CORPUS.iter().map(|s| s.to_string()).collect();
    texts.extend(
        [
            "module", "module a", "fun", "script { fun f ( ) { a b ; } }", "module a { fun f ( { } }", "module a { struct S { a b } }", "script { fun f ( ) { let = ; } } $",
            "module a { fun f ( a : & mut T ) : & T { - a . b ( ! c ) } }", "script { fun f ( ) { b\"x\n a ; } }", "address 0x1 { module a { } } address", "script { fun f ( ) { a < b > c == d } }",
        ]
        .iter()
        .map(|s| s.to_string()),
    );
    cx.ck.note("long_gaps", gaps.len() as u64);
    par_for(gaps.len() * texts.len(), |k| {
        let (g, t) = (k / texts.len(), k % texts.len());
        judge(cx, &texts[t], &gaps[g], g < n_short);
    });
}
