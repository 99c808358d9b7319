//! C01, C02: histories of documents under every schedule.
use crate::oracle::{self, Diag};
use crate::sched::*;
use lsp_server::{Message, Notification};
use lsp_types::*;
use mc_core::*;
use std::collections::BTreeMap;
use std::sync::Arc;

pub fn uri(doc: usize) -> Url {
    match doc {
        0 => Url::parse("file:///w/a.move").unwrap(),
        1 => Url::parse("file:///w/b%20%C3%A9.move").unwrap(),
        // in several directories, some names being the beginnings of others
        n => Url::parse(&format!("file:///w/{}c{}.move", ["", "d/", "d/e/", "d%20/"][n % 4], n)).unwrap(),
    }
}

pub fn open(doc: usize, version: i32, text: &str) -> Msg {
    msg("textDocument/didOpen", json!({"textDocument": {"uri": uri(doc), "languageId": "move", "version": version, "text": text}}), true)
}
pub fn change(doc: usize, version: i32, changes: &[TextDocumentContentChangeEvent]) -> Msg {
    msg("textDocument/didChange", json!({"textDocument": {"uri": uri(doc), "version": version}, "contentChanges": changes}), true)
}
pub fn close(doc: usize) -> Msg {
    msg("textDocument/didClose", json!({"textDocument": {"uri": uri(doc)}}), false)
}
pub fn msg(method: &str, params: Value, writes: bool) -> Msg {
    Msg { message: Message::Notification(Notification { method: method.into(), params }), writes, hangup: false }
}
pub fn full(text: &str) -> TextDocumentContentChangeEvent {
    TextDocumentContentChangeEvent { range: None, range_length: None, text: text.into() }
}
pub fn ranged(a: (u32, u32), b: (u32, u32), text: &str) -> TextDocumentContentChangeEvent {
    TextDocumentContentChangeEvent {
        range: Some(Range::new(Position::new(a.0, a.1), Position::new(b.0, b.1))),
        range_length: None,
        text: text.into(),
    }
}

#[derive(Clone, Debug)]
struct Doc {
    version: i32,
    text: String,
    open: bool,
    /// Last published.
    last: Vec<Diagnostic>,
}

/// Follows the client's documents and what the server says about them.
pub struct DocJudge {
    c02: bool,
    utf8: bool,
    msgs: Vec<Message>,
    docs: BTreeMap<Url, Doc>,
    expected: std::collections::HashMap<String, Vec<Diag>>,
    pub trouble: Vec<String>,
    pub published: usize,
}

impl DocJudge {
    pub fn new(c02: bool, utf8: bool, msgs: &[Msg]) -> DocJudge {
        DocJudge {
            c02,
            utf8,
            msgs: msgs.iter().map(|m| m.message.clone()).collect(),
            docs: BTreeMap::new(),
            expected: Default::default(),
            trouble: vec![],
            published: 0,
        }
    }
    fn errors(&mut self, text: &str) -> Vec<Diag> {
        let utf8 = self.utf8;
        self.expected.entry(text.to_string()).or_insert_with(|| oracle::errors(text, utf8)).clone()
    }
}

impl Judge for DocJudge {
    fn delivered(&mut self, index: usize) {
        let Message::Notification(n) = &self.msgs[index] else { return };
        match n.method.as_str() {
            "textDocument/didOpen" => {
                let p: DidOpenTextDocumentParams = serde_json::from_value(n.params.clone()).unwrap();
                let d = self.docs.entry(p.text_document.uri).or_insert(Doc { version: 0, text: String::new(), open: false, last: vec![] });
                d.version = p.text_document.version;
                d.text = p.text_document.text;
                d.open = true;
            }
            "textDocument/didChange" => {
                let p: DidChangeTextDocumentParams = serde_json::from_value(n.params.clone()).unwrap();
                let d = self.docs.get_mut(&p.text_document.uri).unwrap();
                d.version = p.text_document.version;
                let r = oracle::apply_all(vec![d.text.clone()], &p.content_changes);
                assert_eq!(r.len(), 1, "edits of these histories are plain");
                d.text = r[0].clone();
            }
            "textDocument/didClose" => {
                let p: DidCloseTextDocumentParams = serde_json::from_value(n.params.clone()).unwrap();
                self.docs.get_mut(&p.text_document.uri).unwrap().open = false;
            }
            _ => {}
        }
    }
    fn output(&mut self, m: &Message) {
        let Message::Notification(n) = m else { return };
        if n.method != "textDocument/publishDiagnostics" {
            return;
        }
        self.published += 1;
        let p: PublishDiagnosticsParams = serde_json::from_value(n.params.clone()).unwrap();
        let Some(d) = self.docs.get_mut(&p.uri) else {
            self.trouble.push(format!("diagnostics for {}, which was never opened", p.uri));
            return;
        };
        d.last = p.diagnostics.clone();
        let d = d.clone();
        if self.c02 && d.open {
            if p.version != Some(d.version) {
                self.trouble.push(format!("diagnostics for {} are labelled {:?} while the last version told is {}", p.uri, p.version, d.version));
            }
            let e = self.errors(&d.text);
            if !oracle::same(&e, &p.diagnostics) {
                self.trouble.push(format!(
                    "diagnostics for {} labelled {:?} are {:?}; the text of version {} is {:?} with {:?}",
                    p.uri,
                    p.version,
                    p.diagnostics.iter().map(|d| (d.range, &d.message)).collect::<Vec<_>>(),
                    d.version,
                    d.text,
                    e
                ));
            }
        }
    }
    fn quiescent(&mut self) {
        if self.c02 {
            return;
        }
        for (u, d) in self.docs.clone() {
            if !d.open {
                continue;
            }
            let e = self.errors(&d.text);
            if !oracle::same(&e, &d.last) {
                self.trouble.push(format!(
                    "when all is quiet the last diagnostics for {} are {:?}; its text {:?} has {:?}",
                    u,
                    d.last.iter().map(|d| (d.range, &d.message)).collect::<Vec<_>>(),
                    d.text,
                    e
                ));
            }
        }
    }
    fn trouble(&mut self) -> Vec<String> {
        std::mem::take(&mut self.trouble)
    }
}

/// What a client may do to a document.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    Open(usize, usize),
    Full(usize, usize),
    /// Puts an error at the start.
    Insert(usize),
    /// Removes the first two columns of the first line, then adds a line: two edits in one message.
    Batch(usize),
    Close(usize),
}

const TEXTS: &[&str] = &["module M {}", "$ x", "module \u{e9} {\r\n \u{10400} $ }\r\n$", ""];

pub fn histories(docs: usize, texts: usize, len: usize, edits: bool, f: &mut dyn FnMut(String, Vec<Msg>)) {
    fn go(docs: usize, texts: usize, len: usize, edits: bool, open: &mut Vec<(bool, bool)>, cur: &mut Vec<Op>, f: &mut dyn FnMut(&[Op])) {
        if !cur.is_empty() {
            f(cur);
        }
        if cur.len() == len {
            return;
        }
        for d in 0..docs {
            // documents are opened in order, which one comes first does not matter
            if d > 0 && !open[d - 1].1 {
                continue;
            }
            let mut ops = vec![];
            if open[d].0 {
                ops.extend((0..texts).map(|t| Op::Full(d, t)));
                if edits {
                    ops.push(Op::Insert(d));
                    ops.push(Op::Batch(d));
                }
                ops.push(Op::Close(d));
            } else {
                ops.extend((0..texts).map(|t| Op::Open(d, t)));
            }
            for op in ops {
                let was = open[d];
                open[d] = (!matches!(op, Op::Close(_)), true);
                cur.push(op);
                go(docs, texts, len, edits, open, cur, f);
                cur.pop();
                open[d] = was;
            }
        }
    }
    let mut g = |ops: &[Op]| {
        // histories that end with a close are covered by those that go on
        let mut version = vec![0; docs];
        let msgs = ops
            .iter()
            .map(|&op| match op {
                Op::Open(d, t) => {
                    version[d] += 1;
                    open_msg(d, version[d], t)
                }
                Op::Full(d, t) => {
                    version[d] += 2;
                    change(d, version[d], &[full(TEXTS[t])])
                }
                Op::Insert(d) => {
                    version[d] += 1;
                    change(d, version[d], &[ranged((0, 0), (0, 0), "$ ")])
                }
                Op::Batch(d) => {
                    version[d] += 1;
                    change(d, version[d], &[ranged((0, 0), (0, 0), "$ \n"), ranged((0, 0), (0, 2), "fun")])
                }
                Op::Close(d) => close(d),
            })
            .collect();
        f(format!("{:?}", ops), msgs)
    };
    go(docs, texts, len, edits, &mut vec![(false, false); docs], &mut vec![], &mut g)
}
fn open_msg(d: usize, v: i32, t: usize) -> Msg {
    open(d, v, TEXTS[t])
}

pub fn utf8_caps() -> ClientCapabilities {
    ClientCapabilities { offset_encoding: Some(vec!["utf-8".into()]), ..Default::default() }
}

/// A client that can do everything the server might ask about; `utf8` as well, if wanted.
pub fn rich_caps(utf8: bool) -> ClientCapabilities {
    let dynamic = json!({"dynamicRegistration": true});
    let mut c: ClientCapabilities = serde_json::from_value(json!({
        "workspace": {
            "applyEdit": true, "configuration": true, "workspaceFolders": true, "symbol": dynamic, "executeCommand": dynamic,
            "didChangeConfiguration": dynamic, "didChangeWatchedFiles": dynamic,
            "codeLens": {"refreshSupport": true}, "semanticTokens": {"refreshSupport": true},
        },
        "textDocument": {
            "synchronization": {"dynamicRegistration": true, "willSave": true, "willSaveWaitUntil": true, "didSave": true},
            "publishDiagnostics": {"relatedInformation": true, "versionSupport": true, "tagSupport": {"valueSet": [1, 2]}, "codeDescriptionSupport": true, "dataSupport": true},
            "completion": dynamic, "hover": dynamic, "definition": dynamic, "codeAction": dynamic, "formatting": dynamic, "rename": dynamic,
        },
        "window": {"workDoneProgress": true, "showMessage": {"messageActionItem": {"additionalPropertiesSupport": true}}, "showDocument": {"support": true}},
        "general": {"regularExpressions": {"engine": "ECMAScript"}, "markdown": {"parser": "marked"}},
        "experimental": {"snippetTextEdit": true, "statusNotification": true, "serverStatusNotification": true, "commands": {"commands": []}},
    }))
    .unwrap();
    if utf8 {
        c.offset_encoding = Some(vec!["utf-16".into(), "utf-8".into()]);
    }
    c
}

pub fn c01_c02(ck: &Arc<Check>, c02: bool) {
    install_hook();
    let mut scripts: Vec<(String, Vec<Msg>)> = vec![];
    let mut only_full_length = |docs: usize, texts: usize, len: usize, edits: bool| {
        histories(docs, texts, len, edits, &mut |n, m| {
            // shorter ones are prefixes, whose quiet states occur in the longer ones' schedules
            if m.len() == len {
                scripts.push((n, m));
            }
        })
    };
    only_full_length(1, 4, ck.pick(3, 4), true);
    only_full_length(1, 2, ck.pick(4, 5), false);
    only_full_length(2, 2, ck.pick(3, 4), true);
    only_full_length(2, 2, ck.pick(4, 5), false);
    if ck.thorough {
        only_full_length(3, 2, 4, false);
    }
    scripts.sort_by_key(|s| s.1.len());
    scripts.dedup_by(|a, b| a.0 == b.0);
    ck.note("histories", scripts.len());
    let plain = scripts.len();
    let others = unusual(ck);
    ck.note("unusual_histories", others.len());
    no_deaths(spread(ck, plain + others.len(), |i| {
        let states = Arc::new(StateSet::default());
        let utf8 = i % 2 == 1;
        if i >= plain {
            let (name, msgs, deviations) = others[i - plain].clone();
            let mut s = Script::new(format!("{} utf8 {}", name, utf8), msgs.clone());
            s.batch = 1;
            match deviations {
                Some(n) => s.deviations = n,
                None => s.eager_or_lazy = true,
            }
            if utf8 {
                s.caps = utf8_caps();
            }
            explore(ck, s, &|| Box::new(DocJudge::new(c02, utf8, &msgs)), &states, u64::MAX);
            ck.add(states.len(), 0, 0);
            return;
        }
        let (name, msgs) = scripts[i].clone();
        let mut s = Script::new(name, msgs.clone());
        if i % 4 >= 2 {
            s.caps = rich_caps(utf8);
        } else if utf8 {
            s.caps = utf8_caps();
        }
        let n = explore(ck, s, &|| Box::new(DocJudge::new(c02, utf8, &msgs)), &states, u64::MAX);
        ck.max("most_schedules_of_one_history", n);
        ck.add(states.len(), 0, 0);
    }));
}

/// Texts whose errors differ in one respect only, or hardly at all.
pub fn similar_texts() -> Vec<String> {
    let mut res: Vec<String> = [
        "",
        "module M {}",
        "$",
        "$$",
        " $",
        "\n$",
        "\r\n$",
        "$\n",
        "$ $",
        "$ #",
        "#",
        "\"",
        "\u{e9}",
        "\u{10400}",
        "\u{e9}$",
        "\u{10400}$",
        "x",
        "xy",
        "x$",
        "module",
        "module M",
        "module M {",
        "module M { fun",
        "module M { fun f() { let }",
        "module M { fun f() { let",
        "module M { struct S { x } }",
        "module M { struct S { x: } }",
        "script { fun f() { 1 + } }",
        "script { fun f() { 1 - } }",
        "script { fun f() { a b } }",
        "script { fun f() { \u{e9} } }",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    // the end of a long list, a long line, many lines
    for n in [127, 128, 129] {
        res.push("$ ".repeat(n));
        res.push("$ ".repeat(n - 1) + "#");
        res.push("$ ".repeat(n - 1) + "  $");
        res.push("$ ".repeat(n - 1) + "\n$");
        res.push("$ ".repeat(n - 2) + "# $");
    }
    res.push(" ".repeat(70_000) + "$");
    res.push(" ".repeat(70_000 - 65_536) + "$");
    res.push(" ".repeat(300) + "$");
    res.push(" ".repeat(300 - 256) + "$");
    res.push("\n".repeat(70_000) + "$");
    res.push("\n".repeat(70_000 - 65_536) + "$");
    res.push("\n".repeat(300) + "$");
    res.push("\n".repeat(300 - 256) + "$");
    res
}

/// Histories beyond the small ones: changes between similar texts, versions that jump, documents opened
/// twice, many documents, many edits. With the number of deviations from the usual schedule to explore;
/// without one there are two schedules.
fn unusual(ck: &Check) -> Vec<(String, Vec<Msg>, Option<usize>)> {
    let mut res: Vec<(String, Vec<Msg>, Option<usize>)> = vec![];
    let texts = similar_texts();
    let show = |t: &str| if t.len() > 60 { format!("{:?}..({} bytes, ends with {:?})", &t[..5], t.len(), &t[t.len() - 4..]) } else { format!("{:?}", t) };
    for a in &texts {
        for b in &texts {
            if a.len().max(b.len()) > 1000 && a.len().min(b.len()) < 200 && !ck.thorough {
                continue;
            }
            let msgs = vec![open(0, 1, a), change(0, 2, &[full(b)]), change(0, 3, &[full(a)])];
            res.push((format!("{} then {} and back", show(a), show(b)), msgs, None));
        }
    }
    // closed and opened again, with the same text, another one, and the first one
    let few = ["$", "module M {}", "$ x"];
    for a in few {
        for b in few {
            for c in few {
                let msgs = vec![open(0, 1, a), close(0), open(0, 1, b), close(0), open(0, 7, c)];
                res.push((format!("opened with {:?}, {:?} and {:?}", a, b, c), msgs, Some(1)));
                let msgs = vec![open(0, 1, a), open(0, 5, b), change(0, 6, &[full(c)]), open(0, 2, a)];
                res.push((format!("opened twice with {:?}, {:?}, changed to {:?} and opened with the first", a, b, c), msgs, Some(1)));
            }
        }
    }
    let versions = [i32::MIN, -1, 0, 1, 256, 65_536, i32::MAX];
    for a in versions {
        for b in versions {
            for c in versions {
                let msgs = vec![open(0, a, "$"), change(0, b, &[full("$ x")]), change(0, c, &[full("#")])];
                res.push((format!("versions {} {} {}", a, b, c), msgs, Some(ck.pick(0, 1))));
            }
        }
    }
    // many documents
    for n in [3, 5, 9, 17, 33, ck.pick(129, 140)] {
        let mut msgs: Vec<Msg> = (0..n).map(|d| open(d, d as i32, TEXTS[d % 4])).collect();
        msgs.extend((0..n).map(|d| change(d, 1000 + d as i32, &[full(TEXTS[(d + 1) % 4])])));
        msgs.extend((0..n).step_by(2).map(close));
        msgs.extend((0..n).step_by(4).map(|d| open(d, 7, TEXTS[(d + 3) % 4])));
        msgs.extend((0..n).rev().filter(|d| d % 2 == 1).map(|d| change(d, 2000, &[ranged((0, 0), (0, 0), "$ ")])));
        res.push((format!("{} documents", n), msgs, None));
    }
    // many edits: the text grows, shrinks, and is typed character by character
    let n = ck.pick(150, 300);
    let mut grows = vec![open(0, 0, "")];
    grows.extend((1..n).map(|v| change(0, v, &[ranged((0, 0), (0, 0), ["$ ", "\n", "\u{10400} "][v as usize % 3])])));
    let mut shrinks = vec![open(0, 0, &"$ \u{10400}\n".repeat(n as usize))];
    shrinks.extend((1..n).map(|v| change(0, v, &[ranged((n as u32 - v as u32, 0), (n as u32, 0), "")])));
    let program = "module M {\n  struct S { x: u8 }\n  fun f(a: u8): u8 {\n    let y = a + 1;\n    S { x: y }.x\n  }\n}\n";
    let mut types = vec![open(0, 0, "")];
    let (mut line, mut col) = (0, 0);
    for (v, c) in program.chars().enumerate() {
        types.push(change(0, v as i32 + 1, &[ranged((line, col), (line, col), &c.to_string())]));
        if c == '\n' {
            line += 1;
            col = 0;
        } else {
            col += 1;
        }
    }
    for (name, msgs) in [("growing", grows), ("shrinking", shrinks), ("typing", types)] {
        res.push((format!("a {} document", name), msgs, None));
    }
    res
}
