//! C26: helpers of the standard-library companion against naive definitions.
use mc_core::*;
use std::cell::Cell;
use std::cmp::Ordering;
use std::sync::Arc;

fn pascal(s: &str) -> String {
    // every '_'-separated word: first letter upper, the rest lower
    s.split('_')
        .map(|w| {
            let mut it = w.chars();
            match it.next() {
                None => String::new(),
                Some(c) => {
                    let mut o = c.to_ascii_uppercase().to_string();
                    o.extend(it.map(|c| c.to_ascii_lowercase()));
                    o
                }
            }
        })
        .collect()
}
fn snake(s: &str, upper: bool) -> String {
    let cs: Vec<char> = s.chars().collect();
    let mut o = String::new();
    for (i, c) in cs.iter().enumerate() {
        if i > 0 && c.is_ascii_uppercase() && cs[i - 1] != '_' {
            o.push('_');
        }
        o.push(if upper { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() });
    }
    o
}
fn is_ws(c: char) -> bool {
    c.is_ascii_whitespace()
}

/// Err describes what is wrong with `got`.
fn trim_indent_ok(text: &str, got: &str) -> Result<(), String> {
    let body = text.strip_prefix('\n').unwrap_or(text);
    let lines: Vec<&str> = body.split_inclusive('\n').collect();
    let indent_of = |l: &str| l.len() - l.trim_start_matches(is_ws).len();
    let indent = lines.iter().filter(|l| !l.trim_matches(is_ws).is_empty()).map(|l| indent_of(l)).min().unwrap_or(0);
    let mut rest = got;
    for l in &lines {
        let blank = l.trim_matches(is_ws).is_empty();
        if !blank {
            let want = &l[indent..];
            rest = rest.strip_prefix(want).ok_or_else(|| format!("line {:?} should become {:?} in {:?}", l, want, got))?;
        } else {
            // a blank line stays blank; spaces are removed up to the indentation
            let (g, r) = match rest.find('\n') {
                Some(i) if l.ends_with('\n') => rest.split_at(i + 1),
                None if !l.ends_with('\n') => (rest, ""),
                _ => return Err(format!("blank line {:?} lost or gained a line break in {:?}", l, got)),
            };
            if !g.chars().all(is_ws) || g.len() > l.len() {
                return Err(format!("blank line {:?} became {:?}", l, g));
            }
            let spaces = l.trim_end_matches('\n');
            if spaces.chars().all(|c| c == ' ') && g.trim_end_matches('\n').len() != spaces.len().saturating_sub(indent) {
                return Err(format!("blank line {:?} became {:?} with indentation {}", l, g, indent));
            }
            rest = r;
        }
    }
    if rest.is_empty() { Ok(()) } else { Err(format!("{:?} left over in {:?}", rest, got)) }
}

fn strings(ck: &Check, alpha: &[char], depth: usize, f: impl Fn(&str) -> Result<(), String> + Sync, what: &str) {
    let one = |s: &str| {
        ck.add(1, 1, 1);
        match quiet_catch(|| f(s)) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => ck.violation(&format!("{} {:?}", what, s), &e),
            Err(e) => ck.violation(&format!("{} {:?}", what, s), &format!("panic: {}", e)),
        }
    };
    one("");
    par_sequences(alpha.len(), depth, |seq| {
        let s: String = seq.iter().map(|&i| alpha[i]).collect();
        one(&s);
        if seq.len() == depth && seq[0] == 1 && seq[1..].iter().all(|&i| i == 0) {
            ck.sample(format!("{} {:?}", what, s));
        }
        !ck.stopped()
    });
}

pub fn c26(ck: &Arc<Check>) {
    let cmp = |what: &str, got: String, want: String| if got == want { Ok(()) } else { Err(format!("{} gives {:?}, expected {:?}", what, got, want)) };
    strings(ck, &['a', 'B', '_', '1', 'É', 'z', 'Z'], ck.pick(7, 8), |s| {
        cmp("to_pascal_case", stdx::to_pascal_case(s), pascal(s))?;
        cmp("to_lower_snake_case", stdx::to_lower_snake_case(s), snake(s, false))?;
        cmp("to_upper_snake_case", stdx::to_upper_snake_case(s), snake(s, true))
    }, "case conversion of");
    strings(ck, &['a', 'é', 'b', '\n'], ck.pick(6, 8), |s| {
        for from in ['a', 'é', 'x'] {
            for to in ["", "a", "é", "aa", "ba", "long replacement"] {
                let mut b = s.to_string();
                stdx::replace(&mut b, from, to);
                let mut want = String::new();
                for c in s.chars() {
                    if c == from { want.push_str(to) } else { want.push(c) }
                }
                cmp(&format!("replace {:?} by {:?}", from, to), b, want)?;
            }
        }
        Ok(())
    }, "replacement in");
    strings(ck, &[' ', '\n', 'a', '\t', 'é', '\u{3000}', '\r'], ck.pick(7, 8), |s| trim_indent_ok(s, &stdx::trim_indent(s)), "indentation of");
    strings(ck, &[' ', '\n', 'a'], ck.pick(11, 13), |s| trim_indent_ok(s, &stdx::trim_indent(s)), "indentation of");
    // sorted slices over 0..4
    let depth = ck.pick(7, 9);
    let mut slices: Vec<Vec<u8>> = vec![vec![]];
    let mut i = 0;
    while i < slices.len() {
        if slices[i].len() < depth {
            for v in slices[i].last().copied().unwrap_or(0)..5 {
                let mut s = slices[i].clone();
                s.push(v);
                slices.push(s);
            }
        }
        i += 1;
    }
    for s in &slices {
        for key in 0..6u8 {
            ck.add(1, 1, 1);
            let got = quiet_catch(|| stdx::equal_range_by(s, |x| x.cmp(&key)));
            let start = s.iter().filter(|x| x.cmp(&&key) == Ordering::Less).count();
            let len = s.iter().filter(|x| **x == key).count();
            if got != Ok(start..start + len) {
                ck.violation(&format!("equal_range_by {:?} {}", s, key), &format!("got {:?}, expected {:?}", got, start..start + len));
            }
        }
    }
    // sequence comparison, with a relation that is not equality
    let mut seqs: Vec<Vec<u8>> = vec![vec![]];
    let mut i = 0;
    while i < seqs.len() {
        if seqs[i].len() < 4 {
            for v in 0..3 {
                let mut s = seqs[i].clone();
                s.push(v);
                seqs.push(s);
            }
        }
        i += 1;
    }
    par_for(seqs.len(), |i| {
        for b in &seqs {
            let a = &seqs[i];
            ck.add(1, 2, 1);
            for (name, rel) in [("equality", (|x: &u8, y: &u8| x == y) as fn(&u8, &u8) -> bool), ("order", |x, y| x <= y)] {
                let got = quiet_catch(|| stdx::iter_eq_by(a.iter(), b.iter(), |x, y| rel(x, y)));
                let want = a.len() == b.len() && a.iter().zip(b).all(|(x, y)| rel(x, y));
                if got != Ok(want) {
                    ck.violation(&format!("iter_eq_by {} {:?} {:?}", name, a, b), &format!("got {:?}, expected {}", got, want));
                }
            }
        }
    });
    large(ck);
    // guards: every nesting of scopes, each left normally, by return or by panic, guards moved or dropped early
    par_sequences(6, ck.pick(6, 7), |seq| {
        let counts: Vec<Cell<u32>> = (0..seq.len()).map(|_| Cell::new(0)).collect();
        fn scope(seq: &[usize], counts: &[Cell<u32>]) -> u32 {
            let Some(&op) = seq.first() else { return 0 };
            let c = &counts[0];
            let g = stdx::defer(|| c.set(c.get() + 1));
            let before = c.get();
            match op {
                0 => {
                    scope(&seq[1..], &counts[1..]);
                }
                1 => return scope(&seq[1..], &counts[1..]) + before,
                2 => {
                    scope(&seq[1..], &counts[1..]);
                    panic!("leave")
                }
                3 => {
                    let _ = quiet_catch(|| scope(&seq[1..], &counts[1..]));
                }
                4 => {
                    drop(g);
                    assert!(c.get() == 1, "guard did not run when dropped");
                    scope(&seq[1..], &counts[1..]);
                    return 0;
                }
                _ => {
                    let boxed = Box::new(g);
                    let v = vec![boxed];
                    assert!(c.get() == 0, "guard ran when moved");
                    scope(&seq[1..], &counts[1..]);
                    drop(v);
                    return 0;
                }
            }
            assert!(c.get() == 0, "guard ran early");
            0
        }
        let r = quiet_catch(|| scope(seq, &counts));
        ck.add(1, 1, 1);
        // every scope is entered: a scope panics only after running the inner ones
        let bad = counts.iter().any(|c| c.get() != 1) || matches!(&r, Err(e) if e.starts_with("guard"));
        if bad {
            ck.violation(&format!("guards {:?}", seq), &format!("runs {:?}, result {:?}", counts, r));
        }
        !ck.stopped()
    });
    // a child is killed and reaped when its guard goes away, and left alone when taken out
    let alive = |pid: u32| unsafe { libc::kill(pid as i32, 0) == 0 };
    for way in 0..4 {
        let spawn = || stdx::JodChild(std::process::Command::new("sleep").arg("60").spawn().expect("sleep"));
        let mut ch = spawn();
        let pid = ch.id();
        ck.add(1, 1, 1);
        if way == 3 {
            let _ = ch.kill();
            let _ = ch.wait();
            drop(ch);
            continue;
        }
        let ok = match way {
            0 => {
                drop(ch);
                !alive(pid)
            }
            1 => {
                let _ = quiet_catch(move || {
                    let _c = ch;
                    panic!("leave")
                });
                !alive(pid)
            }
            _ => {
                let mut inner = ch.into_inner();
                let ok = inner.try_wait().map_or(false, |s| s.is_none());
                let _ = inner.kill();
                let _ = inner.wait();
                ok
            }
        };
        if !ok {
            ck.violation(&format!("child guard, way {}", way), "the child is alive after its guard was dropped, or gone after it was taken out");
        }
    }
    ck.assume("blank lines shorter than the indentation that contain characters other than spaces are only required to stay blank");
}

/// Long inputs and every kind of character.
fn large(ck: &Arc<Check>) {
    let lens: Vec<usize> = (8..70).chain([127, 128, 129, 255, 256, 257, 1000, 65_535, 65_536, 65_537]).collect();
    let report = |what: String, r: Result<Result<(), String>, String>| {
        ck.add(1, 1, 1);
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => ck.violation(&what, &e),
            Err(e) => ck.violation(&what, &format!("panic: {}", e)),
        }
    };
    let same = |what: &str, got: String, want: String| if got == want { Ok(()) } else { Err(format!("{} gives {:.200?}, expected {:.200?}", what, got, want)) };
    let cases = |s: &str| {
        same("to_pascal_case", stdx::to_pascal_case(s), pascal(s))?;
        same("to_lower_snake_case", stdx::to_lower_snake_case(s), snake(s, false))?;
        same("to_upper_snake_case", stdx::to_upper_snake_case(s), snake(s, true))
    };
    // words of Move and of the syntax tree, all characters, and long names
    let words = ["LET_STMT", "let_stmt", "LetStmt", "letStmt", "HTTPServer", "U8", "u8", "L_PAREN", "_x", "x_", "__", "a__b", "A1B2", "a_1", "1a", "ident", "Ä_ö", "ß", "İ", "ǆ", "a b", "a-b", "a.b"];
    for a in words {
        report(format!("cases of {:?}", a), quiet_catch(|| cases(a)));
        for b in words {
            let s = format!("{}{}", a, b);
            report(format!("cases of {:?}", s), quiet_catch(|| cases(&s)));
            let s = format!("{}_{}", a, b);
            report(format!("cases of {:?}", s), quiet_catch(|| cases(&s)));
        }
    }
    for c in (0..0x250u32).filter_map(char::from_u32) {
        for s in [format!("{}", c), format!("a{}", c), format!("{}a", c), format!("_{}B", c), format!("A{}_", c)] {
            report(format!("cases of {:?}", s), quiet_catch(|| cases(&s)));
        }
    }
    for &n in &lens {
        for w in ["a", "A", "_", "aB", "a_", "_A", "Ab_", "é"] {
            let s = w.repeat(n);
            for s in [s.clone(), s.clone() + "X", s.clone() + "_x", "X".to_string() + &s] {
                report(format!("cases of {:?} x {}", w, n), quiet_catch(|| cases(&s)));
            }
        }
    }
    // replacement: where the character occurs, how often, and how long the replacement is
    for &n in &lens {
        let step = if n < 70 { 1 } else { n / 7 };
        for at in (0..n).step_by(step).chain([n - 1]) {
            for to in ["", "y", "yy", "éé", "xx"] {
                for from in ['x', 'é'] {
                    let mut s = "a".repeat(at);
                    s.push(from);
                    s.push_str(&"b".repeat(n - at - 1));
                    s.push(from);
                    let want: String = s.chars().map(|c| if c == from { to.to_string() } else { c.to_string() }).collect();
                    let r = quiet_catch(|| {
                        let mut b = s.clone();
                        stdx::replace(&mut b, from, to);
                        same("replace", b, want.clone())
                    });
                    report(format!("replacing {:?} at {} of {} by {:?}", from, at, n, to), r);
                }
            }
        }
        let all = "x".repeat(n);
        let r = quiet_catch(|| {
            let mut b = all.clone();
            stdx::replace(&mut b, 'x', "xyx");
            same("replace", b, "xyx".repeat(n))
        });
        report(format!("replacing all of {}", n), r);
    }
    // indentation: deep, many lines, one line less indented than the others
    for &n in lens.iter().filter(|n| **n < 2000) {
        for tail in ["", "\n", "\n  ", "\n\n"] {
            for lead in ["", "\n", "\n\n", "  \n"] {
                let deep = format!("{}{}a\n{}b\n\n{}c{}", lead, " ".repeat(n), " ".repeat(n + 4), " ".repeat(n), tail);
                report(format!("indentation by {}", n), quiet_catch(|| trim_indent_ok(&deep, &stdx::trim_indent(&deep))));
                let one = format!("{}{}a\n{}b\n{}c{}", lead, " ".repeat(n), " ".repeat(n - 1), " ".repeat(n), tail);
                report(format!("indentation by {} and one less", n), quiet_catch(|| trim_indent_ok(&one, &stdx::trim_indent(&one))));
            }
            for less in [0, n / 2, n - 1] {
                let many: String = (0..n).map(|i| format!("{}line {}\n", " ".repeat(if i == less { 3 } else { 4 }), i)).collect::<String>() + tail;
                report(format!("{} lines, number {} less indented", n, less), quiet_catch(|| trim_indent_ok(&many, &stdx::trim_indent(&many))));
                let blank: String = (0..n).map(|i| if i == less { "\n".to_string() } else { format!("    line {}\n", i) }).collect::<String>() + tail;
                report(format!("{} lines, number {} blank", n, less), quiet_catch(|| trim_indent_ok(&blank, &stdx::trim_indent(&blank))));
            }
        }
    }
    // ranges of equal elements: every range of slices up to some length; ends of runs in long ones
    for n in (0..ck.pick(60, 100)).chain([127, 128, 129, 255, 256, 257, 1000]) {
        let step = if n < 100 { 1 } else { n / 17 };
        for a in (0..=n).step_by(step) {
            for b in (a..=n).step_by(step) {
                let v: Vec<u8> = (0..n).map(|i| if i < a { 0 } else if i < b { 2 } else { 4 }).collect();
                for key in 0..6u8 {
                    let want = match key {
                        0 => 0..a,
                        2 => a..b,
                        4 => b..n,
                        1 => a..a,
                        3 => b..b,
                        _ => n..n,
                    };
                    let got = quiet_catch(|| stdx::equal_range_by(&v, |x| x.cmp(&key)));
                    ck.add(1, 1, 1);
                    if got != Ok(want.clone()) {
                        ck.violation(&format!("equal_range_by of {} zeros, {} twos, {} fours, for {}", a, b - a, n - b, key), &format!("got {:?}, expected {:?}", got, want));
                    }
                }
            }
        }
    }
    // sequences that differ in one place or in length
    for n in (0..ck.pick(70, 150)).chain([255, 256, 257, 1000]) {
        let v: Vec<u32> = (0..n).collect();
        for at in 0..=n as usize {
            let mut w = v.clone();
            if let Some(x) = w.get_mut(at) {
                *x += 1;
            }
            let (short, mut long) = (&v[..at], v.clone());
            long.insert(at, 7);
            for (what, w, want) in [("one element differs", &w[..], at == n as usize), ("cut off", short, at == n as usize), ("one element more", &long[..], false)] {
                ck.add(1, 2, 1);
                let got = quiet_catch(|| (stdx::iter_eq_by(&v, w, |a, b| a == b), stdx::iter_eq_by(w, &v, |a, b| a == b)));
                if got != Ok((want, want)) {
                    ck.violation(&format!("iter_eq_by of {} elements, {} at {}", n, what, at), &format!("got {:?}, expected {}", got, want));
                }
            }
        }
    }
}
