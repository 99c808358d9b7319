//! C35: a document is its file, whatever its URI looks like.
use crate::docs::{full, msg};
use crate::oracle::{self, Diag};
use crate::sched::*;
use lsp_server::Message;
use lsp_types::{DidChangeTextDocumentParams, PublishDiagnosticsParams};
use mc_core::*;
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

/// The file a URI denotes (RFC 8089), if it denotes one of this machine.
fn file(uri: &str) -> Option<Vec<u8>> {
    let (scheme, rest) = uri.split_once(':')?;
    if !scheme.eq_ignore_ascii_case("file") {
        return None;
    }
    let rest = &rest[..rest.find(['?', '#']).unwrap_or(rest.len())];
    let path = match rest.strip_prefix("//") {
        Some(r) => {
            let (host, path) = r.split_at(r.find('/')?);
            if !host.is_empty() && !host.eq_ignore_ascii_case("localhost") {
                return None;
            }
            path
        }
        None => rest,
    };
    let mut segments: Vec<Vec<u8>> = vec![];
    for s in path.strip_prefix('/')?.split('/') {
        match decode(s) {
            d if d == b"" || d == b"." => {}
            d if d == b".." => {
                segments.pop();
            }
            d => segments.push(d),
        }
    }
    Some(segments.join(&b'/'))
}

fn decode(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut r = vec![];
    let mut i = 0;
    while i < b.len() {
        let hex = |k: usize| b.get(k).and_then(|&c| (c as char).to_digit(16));
        match (b[i], hex(i + 1), hex(i + 2)) {
            (b'%', Some(h), Some(l)) => {
                r.push((h * 16 + l) as u8);
                i += 3;
            }
            (c, ..) => {
                r.push(c);
                i += 1;
            }
        }
    }
    r
}

#[derive(Clone, Debug, Default)]
struct Doc {
    version: i64,
    text: String,
    open: bool,
    last: Vec<lsp_types::Diagnostic>,
}

/// As the one of C01 and C02, but goes by files.
struct Files {
    msgs: Vec<Message>,
    docs: BTreeMap<Vec<u8>, Doc>,
    expected: HashMap<String, Vec<Diag>>,
    trouble: Vec<String>,
}

impl Files {
    fn errors(&mut self, text: &str) -> Vec<Diag> {
        self.expected.entry(text.into()).or_insert_with(|| oracle::errors(text, false)).clone()
    }
}

impl Judge for Files {
    fn delivered(&mut self, index: usize) {
        let Message::Notification(n) = &self.msgs[index] else { return };
        let t = &n.params["textDocument"];
        let Some(f) = file(t["uri"].as_str().unwrap()) else { return };
        let d = self.docs.entry(f).or_default();
        match n.method.as_str() {
            "textDocument/didOpen" => {
                d.open = true;
                d.version = t["version"].as_i64().unwrap();
                d.text = t["text"].as_str().unwrap().into();
            }
            "textDocument/didChange" => {
                d.version = t["version"].as_i64().unwrap();
                let p: DidChangeTextDocumentParams = serde_json::from_value(n.params.clone()).unwrap();
                d.text = oracle::apply_all(vec![d.text.clone()], &p.content_changes).remove(0);
            }
            _ => d.open = false,
        }
    }
    fn output(&mut self, m: &Message) {
        let Message::Notification(n) = m else { return };
        if n.method != "textDocument/publishDiagnostics" {
            return;
        }
        let uri = n.params["uri"].as_str().unwrap_or("").to_string();
        let p: PublishDiagnosticsParams = serde_json::from_value(n.params.clone()).unwrap();
        let Some(d) = file(&uri).and_then(|f| self.docs.get_mut(&f)) else {
            self.trouble.push(format!("diagnostics for {}, which is none of the client's files", uri));
            return;
        };
        d.last = p.diagnostics;
        if d.open && p.version.map(|v| v as i64) != Some(d.version) {
            let t = format!("diagnostics for {} are labelled {:?}, the client's version of the file is {}", uri, p.version, d.version);
            self.trouble.push(t);
        }
    }
    fn quiescent(&mut self) {
        for (f, d) in self.docs.clone() {
            let e = self.errors(&d.text);
            if d.open && !oracle::same(&e, &d.last) {
                self.trouble.push(format!(
                    "when all is quiet the last diagnostics for the file {:?} are {:?}; its text {:?} has {:?}",
                    String::from_utf8_lossy(&f),
                    d.last.iter().map(|d| (d.range, &d.message)).collect::<Vec<_>>(),
                    d.text,
                    e
                ));
            }
        }
    }
    fn trouble(&mut self) -> Vec<String> {
        std::mem::take(&mut self.trouble)
    }
}

fn open(uri: &str, version: i32, text: &str) -> Msg {
    msg("textDocument/didOpen", json!({"textDocument": {"uri": uri, "languageId": "move", "version": version, "text": text}}), true)
}
fn change(uri: &str, version: i32, text: &str) -> Msg {
    msg("textDocument/didChange", json!({"textDocument": {"uri": uri, "version": version}, "contentChanges": [full(text)]}), true)
}
fn close(uri: &str) -> Msg {
    msg("textDocument/didClose", json!({"textDocument": {"uri": uri}}), false)
}

const GOOD: &str = "module M {}";
const BAD: &str = "$ x";
const WORSE: &str = "\n$ $";

/// Ways to write the URI of a file in /w, the first of which is VS Code's.
fn spellings(name: &[u8], all: bool) -> Vec<String> {
    let enc = |plain: &dyn Fn(u8) -> bool, lower: bool| -> String {
        name.iter()
            .map(|&b| match b {
                b if plain(b) => (b as char).to_string(),
                b if lower => format!("%{:02x}", b),
                b => format!("%{:02X}", b),
            })
            .collect()
    };
    let code = |b: u8| b.is_ascii_alphanumeric() || b"-._~/".contains(&b);
    let some = |b: u8| b.is_ascii_graphic() && !b"%?#\\".contains(&b);
    let mut r = vec![
        format!("file:///w/{}", enc(&code, false)),
        format!("file:///w/{}", enc(&|b| b == b'.', true)),
        format!("file:///w/{}", enc(&some, false)),
        format!("file://localhost/w/{}", enc(&code, true)),
    ];
    if let Ok(s) = std::str::from_utf8(name) {
        // not encoded where that is possible at all
        let raw: String =
            s.chars().map(|c| if c.is_ascii_control() || "%?#\\".contains(c) { format!("%{:02X}", c as u8) } else { c.to_string() }).collect();
        if !raw.ends_with(' ') {
            r.push(format!("file:///w/{}", raw));
        }
    }
    if all {
        let n = enc(&code, false);
        r.extend([
            format!("FILE:///w/{}", n),
            format!("file:/w/{}", n),
            format!("file:///w/x/../{}", n),
            format!("file:///./w/./{}", n),
            format!("file:///w/x/y/%2e%2E/.%2e/{}", n),
            format!("file:///../w/{}", n),
            format!("file:///%77/{}", n),
        ]);
    }
    let mut seen = std::collections::BTreeSet::new();
    r.retain(|u| seen.insert(u.clone()));
    r
}

/// Not local files, though they look like them.
const ELSEWHERE: &[&str] = &[
    "git:/w/a.move?%7B%22path%22%3A%22%2Fw%2Fa.move%22%2C%22ref%22%3A%22~%22%7D",
    "git:///w/a.move",
    "untitled:/w/a.move",
    "untitled:Untitled-1",
    "vscode-notebook-cell:/w/a.move#W0",
    "file://host/w/a.move",
    "file://host/a.move",
    "http://localhost/w/a.move",
    "memfs:/w/a.move",
    "vscode-remote://localhost/w/a.move",
    "https://h/w/a.move",
];

pub fn c35(ck: &Arc<Check>) {
    install_hook();
    let mut scripts: Vec<(Vec<Msg>, bool)> = vec![];

    // every name that differs in one byte or character, with every pair of ways to write it
    let mut names: Vec<Vec<u8>> = (1..=255u8).filter(|&b| b != b'/').map(|b| vec![b'a', b, b'.', b'm']).collect();
    for s in ["\u{e9}", "e\u{301}", "\u{6f22}", "\u{1f600}", "%41", "%2F", "%", "%%", "%zz", "%e9", "..", "...", "a b", "+", "\u{feff}", "\u{202e}"] {
        names.push(s.as_bytes().to_vec());
        names.push(format!("{}.move", s).into_bytes());
        names.push(format!("d{}/c.move", s).into_bytes());
    }
    names.retain(|n| n != b"..");
    if ck.thorough {
        for a in (1..128u8).filter(|&b| b != b'/') {
            for b in (1..128u8).filter(|&b| b != b'/') {
                if !matches!((a, b), (b'.', b'.') | (_, b' ')) {
                    names.push(vec![a, b]);
                }
            }
        }
        // those start like the drive of a Windows path
        names.retain(|n| !(n.len() >= 2 && n[0].is_ascii_alphabetic() && matches!(n[1], b':' | b'|')));
    }
    ck.note("file_names", names.len());
    for (i, n) in names.iter().enumerate() {
        let s = spellings(n, n.len() > 2);
        let code = &s[0];
        for u in &s {
            scripts.push((vec![open(code, 1, BAD), change(u, 2, GOOD), change(code, 3, WORSE)], true));
            scripts.push((vec![open(u, 1, GOOD), change(code, 2, BAD), close(u), open(code, 1, WORSE)], true));
            scripts.push((vec![open(u, 1, BAD), close(code), open(u, 5, GOOD), change(code, 6, WORSE)], true));
        }
        // the next name is another file
        if let Some(m) = names.get(i + 1) {
            let o = &spellings(m, false)[0];
            scripts.push((vec![open(code, 1, BAD), open(o, 7, GOOD), change(code, 2, GOOD), change(o, 8, WORSE)], true));
        }
    }

    // every pair of ways to write one name
    for n in [&b"a.move"[..], b"b (\xc3\xa9)%.move"] {
        let s = spellings(n, true);
        for u in &s {
            for v in &s {
                scripts.push((vec![open(u, 1, BAD), change(v, 2, GOOD), close(u), open(v, 3, WORSE)], true));
                scripts.push((vec![open(u, 1, BAD), change(v, 2, GOOD)], false));
            }
        }
    }

    // every pair of names that could be confused
    let confusable = [
        "a.move", "A.move", "a.MOVE", "a .move", "a%20.move", "a%2520.move", "a+.move", "\u{e9}.move", "e\u{301}.move", "%C3%A9.move", "%e9.move",
        "a.move ", "a.move.", "a", "a/a.move", "a?x.move", "a#x.move", "a\\a.move", "..a", "...", "a;1.move", "a.move~",
    ];
    for a in confusable {
        for b in confusable {
            if a != b {
                let (u, v) = (&spellings(a.as_bytes(), false)[0], &spellings(b.as_bytes(), false)[0]);
                scripts.push((vec![open(u, 1, BAD), open(v, 7, GOOD), change(u, 2, GOOD), change(v, 8, WORSE)], true));
                scripts.push((vec![open(u, 1, BAD), open(v, 7, WORSE), close(u), change(v, 8, GOOD)], true));
            }
        }
    }

    // documents that are no files come and go between the edits of one that is
    let a = "file:///w/a.move";
    for e in ELSEWHERE {
        let own = [open(a, 1, BAD), change(a, 2, GOOD), close(a), open(a, 4, WORSE)];
        let other = [open(e, 11, WORSE), change(e, 12, BAD), close(e)];
        // every way to shuffle them
        for mask in 0u32..1 << (own.len() + other.len()) {
            if mask.count_ones() as usize == other.len() {
                let (mut x, mut y) = (own.iter(), other.iter());
                scripts.push(((0..own.len() + other.len()).map(|i| if mask >> i & 1 == 1 { y.next() } else { x.next() }.unwrap().clone()).collect(), true));
            }
        }
        scripts.push((vec![open(a, 1, BAD), open(e, 11, GOOD), change(e, 12, WORSE)], false));
        scripts.push((vec![open(e, 11, BAD), open(a, 1, BAD), close(e)], false));
    }

    // every history of two files under three spellings each
    let s: Vec<Vec<String>> = [&b"a.move"[..], b"\xc3\xa9 (1).move"].iter().map(|n| spellings(n, true).into_iter().take(3).collect()).collect();
    let depth = ck.pick(4, 5);
    fn go(s: &[Vec<String>], state: &mut Vec<Option<i32>>, depth: usize, cur: &mut Vec<Msg>, out: &mut Vec<(Vec<Msg>, bool)>, every: bool) {
        if depth == 0 {
            out.push((cur.clone(), every));
            return;
        }
        for f in 0..s.len() {
            // the second file comes second
            if f == 1 && cur.is_empty() {
                continue;
            }
            for u in &s[f] {
                let was = state[f];
                let v = cur.len() as i32 + 1;
                let ops = match was {
                    Some(_) => vec![(change(u, v, [GOOD, BAD, WORSE][cur.len() % 3]), Some(v)), (close(u), None)],
                    None => vec![(open(u, v, [BAD, WORSE, GOOD][cur.len() % 3]), Some(v))],
                };
                for (m, next) in ops {
                    state[f] = next;
                    cur.push(m);
                    go(s, state, depth - 1, cur, out, every);
                    cur.pop();
                    state[f] = was;
                }
            }
        }
    }
    go(&s, &mut vec![None; 2], depth, &mut vec![], &mut scripts, true);
    go(&s[..1], &mut vec![None; 1], ck.pick(3, 4), &mut vec![], &mut scripts, false);

    ck.note("histories", scripts.len());
    ck.note("histories_under_every_schedule", scripts.iter().filter(|s| !s.1).count());
    ck.assume("file names that look like the drive of a Windows path are not explored");
    no_deaths(spread(ck, scripts.len(), |i| {
        let states = Arc::new(StateSet::default());
        let (msgs, two) = scripts[i].clone();
        let name = msgs
            .iter()
            .map(|m| match &m.message {
                Message::Notification(n) => format!("{} {}", n.method.trim_start_matches("textDocument/did"), n.params["textDocument"]["uri"].as_str().unwrap()),
                _ => unreachable!(),
            })
            .collect::<Vec<_>>()
            .join(", ");
        let mut s = Script::new(name, msgs.clone());
        s.eager_or_lazy = two;
        let msgs: Vec<Message> = msgs.into_iter().map(|m| m.message).collect();
        let judge = || -> Box<dyn Judge> { Box::new(Files { msgs: msgs.clone(), docs: Default::default(), expected: Default::default(), trouble: vec![] }) };
        let n = explore(ck, s, &judge, &states, u64::MAX);
        ck.max("most_schedules_of_one_history", n);
        ck.add(states.len(), 0, 0);
    }));
}
