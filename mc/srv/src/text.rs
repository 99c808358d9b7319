//! C06: the server's copy of a document. C07: positions of diagnostics.
use crate::docs::*;
use crate::oracle;
use crate::sched::*;
use lsp_server::Message;
use lsp_types::*;
use mc_core::*;
use move_language_server::verif;
use std::sync::Arc;

type Change = TextDocumentContentChangeEvent;

fn texts(alphabet: &[&str], max: usize) -> Vec<String> {
    let mut res = vec![String::new()];
    let mut from = 0;
    for _ in 0..max {
        let to = res.len();
        for i in from..to {
            for a in alphabet {
                res.push(format!("{}{}", res[i], a));
            }
        }
        from = to;
    }
    res
}

/// Every position that exists, and some beyond: inside surrogate pairs, past line ends, past the last line.
fn positions(text: &str) -> Vec<Position> {
    let mut res = vec![];
    let mut n = 0;
    for (l, line) in text.split('\n').enumerate() {
        let line = line.strip_suffix('\r').unwrap_or(line);
        for c in 0..=line.encode_utf16().count() as u32 + 1 {
            res.push(Position::new(l as u32, c));
        }
        n = l as u32;
    }
    res.push(Position::new(n + 1, 0));
    res.push(Position::new(n + 1, 3));
    res
}

fn apply(text: &str, changes: &[Change]) -> String {
    let mut t = text.to_string();
    verif::apply_document_changes(&mut t, changes.to_vec());
    t
}

/// All edits of the text that put one of the strings somewhere.
fn edits(text: &str, puts: &[&str], inverted: bool) -> Vec<Change> {
    let p = positions(text);
    let mut res = vec![];
    for (i, &a) in p.iter().enumerate() {
        for &b in &p[if inverted { 0 } else { i }..] {
            for put in puts {
                res.push(ranged((a.line, a.character), (b.line, b.character), put));
            }
        }
    }
    res
}

struct Judged<'a> {
    ck: &'a Arc<Check>,
}

impl Judged<'_> {
    fn check(&self, text: &str, changes: &[Change]) -> Option<String> {
        let show = || format!("text {:?} edits {:?}", text, changes.iter().map(|c| (c.range.map(|r| (r.start.line, r.start.character, r.end.line, r.end.character)), &c.text)).collect::<Vec<_>>());
        let got = match quiet_catch(|| apply(text, changes)) {
            Ok(t) => t,
            Err(e) => {
                self.ck.violation(&show(), &format!("applying the edits panics: {}", e));
                return None;
            }
        };
        let expected = oracle::apply_all(vec![text.to_string()], changes);
        if !expected.contains(&got) {
            self.ck.violation(&show(), &format!("the result is {:?}, and should be {:?}", got, expected));
            return None;
        }
        if changes.len() > 1 {
            // one message or several
            for cut in 1..changes.len() {
                let split = quiet_catch(|| apply(&apply(text, &changes[..cut]), &changes[cut..]));
                if split.as_ref().ok() != Some(&got) {
                    self.ck.violation(&format!("{} cut {}", show(), cut), &format!("in one notification the result is {:?}, in two it is {:?}", got, split));
                    return None;
                }
            }
        }
        Some(got)
    }
}

pub fn c06(ck: &Arc<Check>) {
    let alphabet = ["a", "\u{e9}", "\u{10400}", "\n", "\r\n"];
    let puts = ["", "x", "\n", "\u{10400}", "\r\n\u{e9}"];
    let j = Judged { ck };
    let count = |n: usize| ck.add(n as u64, n as u64, n as u64);

    // one edit
    let ts = texts(&alphabet, ck.pick(4, 5));
    par_for(ts.len(), |i| {
        if ck.stopped() {
            return;
        }
        let es = edits(&ts[i], &puts, true);
        count(es.len());
        for e in es {
            if let Some(t) = j.check(&ts[i], &[e.clone()]) {
                if hash64(t.as_bytes()) % 100003 == 1 {
                    ck.sample(format!("{:?} with {:?} -> {:?}", ts[i], e, t));
                }
            }
        }
    });
    // batches of two: every second edit is made in the text that the first one leaves
    let ts = texts(&["a", "\u{10400}", "\n", "\r\n"], ck.pick(3, 4));
    let puts2 = ["", "x", "\n", "\u{10400}\r\n"];
    par_for(ts.len(), |i| {
        for e in edits(&ts[i], &puts2, false) {
            if ck.stopped() {
                return;
            }
            let Some(mid) = j.check(&ts[i], &[e.clone()]) else { return };
            let second = edits(&mid, &["", "x\n"], false);
            count(second.len());
            for f in second {
                j.check(&ts[i], &[e.clone(), f]);
            }
            j.check(&ts[i], &[e.clone(), full("a\n\u{10400}b"), ranged((1, 2), (1, 3), "\n")]);
            j.check(&ts[i], &[full("a\n\u{10400}b"), ranged((1, 2), (1, 3), "\n"), e]);
        }
    });
    // texts of the same length in bytes, in UTF-16 units or in characters but not in the others
    let ts = texts(&["a", "\u{e9}", "\u{20ac}", "\u{10400}", "\n"], ck.pick(2, 3));
    par_for(ts.len(), |i| {
        for e in edits(&ts[i], &["w", "vw", "uvw", "tuvw", "\u{e9}", "\u{e9}\u{e9}", "\u{20ac}z", "\u{10400}", "\u{e9}\n", "\n\n"], false) {
            if ck.stopped() {
                return;
            }
            let Some(mid) = j.check(&ts[i], &[e.clone()]) else { return };
            let second = edits(&mid, &["", "s"], false);
            count(second.len());
            for f in second {
                j.check(&ts[i], &[e.clone(), f]);
            }
        }
    });
    // batches of three in short texts
    let ts = texts(&["\u{10400}", "\n"], ck.pick(2, 3));
    par_for(ts.len(), |i| {
        for e in edits(&ts[i], &["", "\n", "\u{10400}"], false) {
            if ck.stopped() {
                return;
            }
            let mid = apply(&ts[i], &[e.clone()]);
            for f in edits(&mid, &["", "\nx", "\u{e9}"], false) {
                let mid = apply(&mid, &[f.clone()]);
                let third = edits(&mid, &["y"], false);
                count(third.len());
                for g in third {
                    j.check(&ts[i], &[e.clone(), f.clone(), g]);
                }
            }
        }
    });
    large(ck, &j);
    // line ends
    let ts = texts(&["\r", "\n", "a", "\u{e9}"], ck.pick(8, 9));
    par_for(ts.len(), |i| {
        if ck.stopped() {
            return;
        }
        let t = &ts[i];
        let r = quiet_catch(|| verif::normalize_line_endings(t.clone()));
        if r.as_ref().ok().map(|r| r.0.as_str()) != Some(oracle::normalized(t).as_str()) {
            ck.violation(&format!("line ends of {:?}", t), &format!("normalized to {:?}", r));
        }
    });
    count(ts.len());
    through_the_server(ck);
}

/// Numbers around those at which a representation may change.
fn landmarks(max: u32) -> Vec<u32> {
    let mut res: Vec<u32> = [0u32, 15, 16, 63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 32_767, 32_768, 65_535, 65_536, 65_537, 70_000]
        .into_iter()
        .filter(|&n| n <= max)
        .collect();
    res.push(max);
    res.dedup();
    res
}

/// Long lines, many lines, long replacements, and many edits in one message.
fn large(ck: &Arc<Check>, j: &Judged) {
    let max = 66_000;
    let texts = [
        "a".repeat(max),
        "\u{e9}".repeat(max),
        "\u{10400}".repeat(max / 2),
        "a\u{10400}".repeat(max / 3),
        "a\n".repeat(max),
        "\r\n".repeat(max),
        "\n".repeat(max) + &"\u{20ac}".repeat(max),
    ];
    let mut cases: Vec<(usize, Vec<Change>)> = vec![];
    for (i, t) in texts.iter().enumerate() {
        let lines = t.matches('\n').count() as u32;
        let last = t[t.rfind('\n').map_or(0, |i| i + 1)..].encode_utf16().count() as u32;
        let mut at: Vec<(u32, u32)> = vec![];
        if lines > 0 {
            at.extend(landmarks(lines + 2).into_iter().flat_map(|l| [(l, 0), (l, 1)]));
        }
        at.extend(landmarks(last + 2).into_iter().map(|c| (lines, c)));
        for &p in &at {
            for put in ["x", "\n", "\u{10400}", ""] {
                cases.push((i, vec![ranged(p, p, put)]));
            }
            cases.push((i, vec![ranged((0, 0), p, "\u{e9}")]));
            cases.push((i, vec![ranged(p, (u32::MAX, u32::MAX), "")]));
            // in the same message another one, before and behind it
            cases.push((i, vec![ranged(p, p, "\ny"), ranged((0, 1), (1, 0), "z")]));
            cases.push((i, vec![ranged((0, 0), (0, 0), "y\n"), ranged((p.0 + 1, p.1), (p.0 + 1, p.1), "z")]));
        }
    }
    // a long replacement, and an edit in it
    for t in &texts {
        for p in [(0, 300), (1, 0), (300, 0), (max as u32, 1)] {
            cases.push((0, vec![ranged((0, 3), (0, 4), t), ranged(p, p, "z")]));
        }
    }
    // many edits in one message: at the start, at the end, from the end to the start, alternating
    for n in [40, 129, 300] {
        let n = n as u32;
        cases.push((7, (0..n).map(|k| ranged((0, 0), (0, 0), ["$", "\n", "\u{10400}"][k as usize % 3])).collect()));
        cases.push((7, (0..n).map(|k| ranged((u32::MAX, 0), (u32::MAX, 0), ["$", "\n", "\u{10400}"][k as usize % 3])).collect()));
        cases.push((8, (0..n).rev().map(|k| ranged((k, 0), (k, 1), ["$", "\n", ""][k as usize % 3])).collect()));
        cases.push((8, (0..n).map(|k| ranged((k, 0), (k, 1), ["$", "\u{10400}", ""][k as usize % 3])).collect()));
        cases.push((8, (0..n).map(|k| if k % 2 == 0 { ranged((k / 2, 0), (k / 2, 1), "\n") } else { ranged((300 - k, 0), (301 - k, 0), "\u{e9}") }).collect()));
    }
    let mut texts = texts.to_vec();
    texts.push(String::new());
    texts.push("ab\n".repeat(400));
    // edits of long messages have one meaning each, lest the possible results multiply
    for (t, changes) in cases.iter_mut().filter(|c| c.1.len() > 2) {
        let mut text = texts[*t].clone();
        changes.retain(|c| match &oracle::apply(&text, c)[..] {
            [one] => {
                text = one.clone();
                true
            }
            _ => false,
        });
    }
    ck.note("large_edits", cases.len());
    par_for(cases.len(), |i| {
        if ck.stopped() {
            return;
        }
        let (t, changes) = &cases[i];
        ck.add(1, 1, 1);
        let text = &texts[*t];
        let expected = oracle::apply_all(vec![text.clone()], changes);
        let got = quiet_catch(|| apply(text, changes));
        if !got.as_ref().map_or(false, |g| expected.contains(g)) {
            let edits: Vec<_> = changes.iter().take(9).map(|c| (c.range.map(|r| (r.start.line, r.start.character, r.end.line, r.end.character)), c.text.len())).collect();
            let first = got.as_ref().map(|g| (g.len(), g.bytes().zip(expected[0].bytes()).position(|(a, b)| a != b)));
            j.ck.violation(
                &format!("large text {} ({} bytes), {} edits: {:?}", t, text.len(), changes.len(), edits),
                &format!("the result should have {} bytes; its length and first difference: {:?}", expected[0].len(), first),
            );
        }
    });
}

/// Follows the texts that document 0 may contain and compares the published diagnostics.
struct TextJudge {
    msgs: Vec<Message>,
    texts: Vec<String>,
    version: i32,
    last: Option<Vec<Diagnostic>>,
    utf8: bool,
    trouble: Vec<String>,
}

impl TextJudge {
    fn new(msgs: &[Msg], utf8: bool) -> TextJudge {
        TextJudge { msgs: msgs.iter().map(|m| m.message.clone()).collect(), texts: vec![], version: 0, last: None, utf8, trouble: vec![] }
    }
}

fn inside(p: Position, text: &str, utf8: bool) -> bool {
    // lines as the client sees them
    let Some(line) = text.split('\n').nth(p.line as usize) else { return false };
    let line = line.strip_suffix('\r').unwrap_or(line);
    p.character as usize <= if utf8 { line.len() } else { line.encode_utf16().count() }
}

impl Judge for TextJudge {
    fn delivered(&mut self, index: usize) {
        let Message::Notification(n) = &self.msgs[index] else { return };
        match n.method.as_str() {
            "textDocument/didOpen" => {
                let p: DidOpenTextDocumentParams = serde_json::from_value(n.params.clone()).unwrap();
                self.texts = vec![p.text_document.text];
                self.version = p.text_document.version;
            }
            "textDocument/didChange" => {
                let p: DidChangeTextDocumentParams = serde_json::from_value(n.params.clone()).unwrap();
                self.texts = oracle::apply_all(std::mem::take(&mut self.texts), &p.content_changes);
                self.version = p.text_document.version;
            }
            _ => {}
        }
    }
    fn output(&mut self, m: &Message) {
        let Message::Notification(n) = m else { return };
        if n.method == "textDocument/publishDiagnostics" {
            let p: PublishDiagnosticsParams = serde_json::from_value(n.params.clone()).unwrap();
            for d in &p.diagnostics {
                if !self.texts.iter().any(|t| inside(d.range.start, t, self.utf8) && inside(d.range.end, t, self.utf8) && d.range.start <= d.range.end) {
                    self.trouble.push(format!("a diagnostic at {:?} is outside of the document {:?}", d.range, self.texts));
                }
            }
            self.last = Some(p.diagnostics);
        }
    }
    fn quiescent(&mut self) {
        if self.texts.is_empty() {
            return;
        }
        let last = self.last.clone().unwrap_or_default();
        if !self.texts.iter().any(|t| oracle::same(&oracle::errors(t, self.utf8), &last)) {
            self.trouble.push(format!(
                "the document {:?} should get {:?}; it got {:?}",
                self.texts,
                oracle::errors(&self.texts[0], self.utf8),
                last.iter().map(|d| (d.range, &d.message)).collect::<Vec<_>>()
            ));
        }
    }
    fn trouble(&mut self) -> Vec<String> {
        std::mem::take(&mut self.trouble)
    }
}

fn session(ck: &Arc<Check>, name: String, msgs: Vec<Msg>, utf8: bool) {
    let mut s = Script::new(name, msgs.clone());
    s.eager_or_lazy = true;
    if utf8 {
        s.caps = utf8_caps();
    }
    let states = Arc::new(StateSet::default());
    explore(ck, s, &|| Box::new(TextJudge::new(&msgs, utf8)), &states, u64::MAX);
    ck.add(states.len(), 0, 0);
}

/// The same through the whole server: which text it analyses shows in the diagnostics.
fn through_the_server(ck: &Arc<Check>) {
    install_hook();
    let ts = texts(&["$", "\u{10400}", "\n", "\r\n"], 3);
    let mut cases: Vec<(usize, Vec<Vec<Change>>)> = vec![];
    for (i, t) in ts.iter().enumerate() {
        for e in edits(t, &["", "$", "\n", "\r\n\u{10400}"], false) {
            let after = apply(t, &[e.clone()]);
            let then = ranged((0, 0), (0, 1), "$ ");
            let last = after.matches('\n').count() as u32;
            let at_end = ranged((last, 0), (last, 9), "\r\n$");
            match cases.len() % 3 {
                0 => cases.push((i, vec![vec![e, then], vec![at_end]])),
                1 => cases.push((i, vec![vec![e], vec![then, at_end]])),
                _ => cases.push((i, vec![vec![e], vec![then], vec![at_end]])),
            }
        }
    }
    ck.note("sessions", cases.len());
    no_deaths(spread(ck, cases.len(), |i| {
        let (t, batches) = &cases[i];
        let mut msgs = vec![open(0, 1, &ts[*t])];
        for (n, b) in batches.iter().enumerate() {
            msgs.push(change(0, n as i32 + 2, b));
        }
        session(ck, format!("{:?} then {:?}", ts[*t], batches.iter().map(|b| b.iter().map(|c| (c.range.map(|r| (r.start.line, r.start.character, r.end.line, r.end.character)), &c.text)).collect::<Vec<_>>()).collect::<Vec<_>>()), msgs, false);
    }));
}

pub fn c07(ck: &Arc<Check>) {
    // conversions
    let ts = texts(&["a", "\u{e9}", "\u{20ac}", "\u{10400}", "\n", "\t"], ck.pick(5, 6));
    par_for(ts.len(), |i| {
        if ck.stopped() {
            return;
        }
        let t = &ts[i];
        let mut n = 0;
        for utf8 in [false, true] {
            for o in (0..=t.len()).filter(|&o| t.is_char_boundary(o)) {
                n += 1;
                let want = oracle::position_at(t, o, utf8);
                let got = quiet_catch(|| (verif::position(t, utf8, o as u32), verif::there_and_back(t, utf8, want)));
                if got.as_ref().ok() != Some(&(want, (o as u32, want))) {
                    ck.violation(&format!("{:?} offset {} utf8 {}", t, o, utf8), &format!("the position is {:?}; got (position, (offset, position again)) {:?}", want, got));
                }
            }
        }
        ck.add(n, n, n);
    });
    // long lines and many lines
    let max = 66_000;
    let long = ["a".repeat(max), "\u{e9}".repeat(max), "\u{10400}".repeat(max), "a\u{20ac}\u{10400}".repeat(max / 3), "\u{e9}\n".repeat(max), "\n".repeat(max) + &"\u{10400}".repeat(max)];
    let places: Vec<(usize, usize)> = (0..long.len())
        .flat_map(|t| {
            let chars: Vec<usize> = long[t].char_indices().map(|c| c.0).chain([long[t].len()]).collect();
            let mut at: Vec<usize> = landmarks(chars.len() as u32 - 1).into_iter().map(|n| chars[n as usize]).collect();
            at.extend(landmarks(long[t].len() as u32).into_iter().map(|n| n as usize).filter(|&n| long[t].is_char_boundary(n)));
            at.into_iter().map(move |o| (t, o)).collect::<Vec<_>>()
        })
        .collect();
    par_for(places.len() * 2, |i| {
        let (t, o) = places[i / 2];
        let utf8 = i % 2 == 1;
        ck.add(1, 1, 1);
        let want = oracle::position_at(&long[t], o, utf8);
        let got = quiet_catch(|| (verif::position(&long[t], utf8, o as u32), verif::there_and_back(&long[t], utf8, want)));
        if got.as_ref().ok() != Some(&(want, (o as u32, want))) {
            ck.violation(&format!("large text {} offset {} utf8 {}", t, o, utf8), &format!("the position is {:?}; got (position, (offset, position again)) {:?}", want, got));
        }
    });
    install_hook();
    // `$` is an error by itself; the other errors are about what is missing
    let ts = texts(&["$", "a", "\u{e9}", "\u{10400}", "\n", "\r\n"], ck.pick(5, 6));
    let mut cases: Vec<String> = ts;
    let wraps = [("module M { fun f() {", "} }"), ("script {\r\n\u{20ac}", ""), ("/* \u{10400}\r\n*/ module \u{e9} {\r\n", "\r\n}"), ("", "\r\nmodule M { fun")];
    for t in texts(&["$", "\u{10400}", "\r\n", ";", "("], ck.pick(3, 5)) {
        for (a, b) in wraps {
            cases.push(format!("{}{}{}", a, t, b));
        }
    }
    // many errors, more than are reported
    for n in [127, 128, 129, 300] {
        cases.push("$\r\n".repeat(n));
        cases.push("\u{10400} $ ".repeat(n));
    }
    for n in [255, 256, 65_535, 65_536] {
        cases.push(" ".repeat(n) + "$");
        cases.push("\n".repeat(n) + "$");
        cases.push("\r\n".repeat(n) + "$");
        cases.push("\u{e9} ".repeat(n) + "$");
        cases.push(format!("//{}$\n {}", "\u{10400}".repeat(n), "\u{10400}"));
        cases.push(format!("{}\u{10400}{}$", " ".repeat(n), " ".repeat(9)));
    }
    ck.note("documents", cases.len());
    no_deaths(spread(ck, cases.len() * 2, |i| {
        let t = &cases[i / 2];
        let utf8 = i % 2 == 1;
        // the same document with the other line ends, later
        let other = if t.contains("\r\n") { t.replace("\r\n", "\n") } else { t.replace('\n', "\r\n") };
        let mut msgs = vec![open(0, 1, t)];
        if other != *t {
            msgs.push(change(0, 2, &[full(&other)]));
        }
        session(ck, format!("{:?} utf8 {}", t, utf8), msgs, utf8);
    }));
}
