//! C04: messages no decent client would send, and ordinary ones after them.
use crate::docs::*;
use crate::oracle;
use crate::sched::*;
use lsp_server::{Message, Notification, Request, RequestId, Response, ResponseError};
use lsp_types::*;
use mc_core::*;
use std::sync::Arc;

/// How a message changes the texts that document 0 may have.
#[derive(Clone)]
enum Effect {
    None,
    Text(String),
    Changes(Vec<TextDocumentContentChangeEvent>),
    Close,
}

struct HostileJudge {
    effects: Vec<Effect>,
    /// What document 0 may contain now; nothing is known after something unclear happened to it.
    texts: Option<Vec<String>>,
    open: bool,
    last: Vec<Diagnostic>,
    probe: Vec<Diagnostic>,
    probe_text: String,
    shutdown: Vec<Response>,
    delivered: usize,
    utf8: bool,
    trouble: Vec<String>,
}

const PROBE: &str = "file:///w/probe.move";
const PROBE_ID: i32 = 4711;

impl Judge for HostileJudge {
    fn delivered(&mut self, index: usize) {
        self.delivered += 1;
        match &self.effects[index] {
            Effect::None => {}
            Effect::Text(t) => {
                self.texts = Some(vec![t.clone()]);
                self.open = true;
            }
            Effect::Close => self.open = false,
            Effect::Changes(_) if !self.open => {}
            Effect::Changes(c) => self.texts = self.texts.take().map(|t| oracle::apply_all(t, c)),
        }
    }
    fn output(&mut self, m: &Message) {
        match m {
            Message::Notification(n) if n.method == "textDocument/publishDiagnostics" => {
                let p: PublishDiagnosticsParams = serde_json::from_value(n.params.clone()).unwrap();
                if p.uri.as_str() == PROBE {
                    self.probe = p.diagnostics;
                } else if p.uri == uri(0) {
                    self.last = p.diagnostics;
                }
            }
            Message::Response(r) if r.id == RequestId::from(PROBE_ID) => self.shutdown.push(r.clone()),
            _ => {}
        }
    }
    fn quiescent(&mut self) {
        if let (true, Some(texts)) = (self.open, &self.texts) {
            if !texts.iter().any(|t| oracle::same(&oracle::errors(t, self.utf8), &self.last)) {
                self.trouble.push(format!(
                    "the document should contain one of {:?}; its diagnostics are {:?}",
                    texts,
                    self.last.iter().map(|d| (d.range, &d.message)).collect::<Vec<_>>()
                ));
            }
        }
        if self.delivered < self.effects.len() {
            return;
        }
        if !oracle::same(&oracle::errors(&self.probe_text, self.utf8), &self.probe) {
            self.trouble.push(format!("the ordinary document got diagnostics {:?}", self.probe.iter().map(|d| (d.range, &d.message)).collect::<Vec<_>>()));
        }
        if self.shutdown.len() != 1 || self.shutdown[0].error.is_some() {
            self.trouble.push(format!("shutdown was answered with {:?}", self.shutdown));
        }
    }
    fn trouble(&mut self) -> Vec<String> {
        std::mem::take(&mut self.trouble)
    }
}

#[derive(Clone)]
struct Hostile {
    name: String,
    msg: Msg,
    effect: Effect,
}

fn alphabet() -> Vec<Hostile> {
    let mut res: Vec<Hostile> = vec![];
    let a = uri(0).to_string();
    let mut add = |name: &str, msg: Msg, effect: Effect| res.push(Hostile { name: name.into(), msg, effect });
    let note = |method: &str, params: Value| msg(method, params, true);
    let range = |l1: u64, c1: u64, l2: u64, c2: u64| json!({"start": {"line": l1, "character": c1}, "end": {"line": l2, "character": c2}});
    let max = u32::MAX as u64;

    // edits of the open document (its text is "a\u{10400}b\r\n$\n")
    let edits: Vec<(&str, Vec<(Option<[u64; 4]>, &str)>)> = vec![
        ("nothing", vec![]),
        ("same", vec![(Some([0, 0, 0, 0]), "")]),
        ("whole", vec![(None, "$ $")]),
        ("inverted", vec![(Some([1, 1, 0, 1]), "x")]),
        ("inverted-columns", vec![(Some([0, 3, 0, 0]), "x")]),
        ("inverted-inside", vec![(Some([0, 2, 0, 0]), "x")]),
        ("past-line", vec![(Some([0, 9, 0, 9]), "x")]),
        ("past-last-line", vec![(Some([7, 0, 9, 3]), "$")]),
        ("past-everything", vec![(Some([0, 0, max, max]), "$")]),
        ("far", vec![(Some([max, max, max, max]), "x")]),
        ("inside-pair", vec![(Some([0, 2, 0, 2]), "\u{e9}")]),
        ("half-pair", vec![(Some([0, 1, 0, 2]), "")]),
        ("inside-break", vec![(Some([0, 5, 1, 0]), "")]),
        ("batch-shrinks", vec![(Some([0, 0, 2, 0]), ""), (Some([1, 0, 1, 1]), "$"), (Some([0, 3, 0, 4]), "y")]),
        ("batch-whole-then-range", vec![(None, ""), (Some([0, 1, 0, 2]), "$")]),
        ("batch-range-then-whole", vec![(Some([5, 1, 4, 2]), "$"), (None, "fun")]),
        ("batch-grows", vec![(Some([0, 0, 0, 0]), "\u{10400}\n\u{10400}\n"), (Some([1, 1, 3, 1]), "$")]),
        ("batch-upwards", vec![(Some([1, 0, 1, 1]), "\r\n\r\n"), (Some([0, 2, 0, 1]), "\u{10400}"), (Some([0, 2, 5, 2]), "")]),
        ("nul", vec![(Some([0, 0, 0, 0]), "\0")]),
        ("bom", vec![(None, "\u{feff}module M {}")]),
        ("lone-cr", vec![(None, "a\rb\r\r\n$")]),
        ("brackets", vec![(None, "module M { fun f() { ((( {{{ [[[ ")]),
    ];
    for (name, e) in &edits {
        let changes: Vec<TextDocumentContentChangeEvent> = e
            .iter()
            .map(|(r, t)| TextDocumentContentChangeEvent {
                range: r.map(|r| Range::new(Position::new(r[0] as u32, r[1] as u32), Position::new(r[2] as u32, r[3] as u32))),
                range_length: None,
                text: t.to_string(),
            })
            .collect();
        add(&format!("edit-{}", name), change(0, 2, &changes), Effect::Changes(changes.clone()));
    }
    let one = |v: Value| json!({"textDocument": {"uri": a, "version": v}, "contentChanges": [{"text": "$"}]});
    add("old-version", note("textDocument/didChange", one(json!(-5))), Effect::Changes(vec![full("$")]));
    add("change-no-version", note("textDocument/didChange", json!({"textDocument": {"uri": a}, "contentChanges": [{"text": "$"}]})), Effect::None);
    add("change-null-version", note("textDocument/didChange", one(Value::Null)), Effect::None);
    add("change-big-version", note("textDocument/didChange", one(json!(1u64 << 40))), Effect::None);
    add("change-negative-line", note("textDocument/didChange", json!({"textDocument": {"uri": a, "version": 3}, "contentChanges": [{"range": {"start": {"line": -1, "character": 0}, "end": {"line": 0, "character": 0}}, "text": "x"}]})), Effect::None);
    add("change-line-2^32", note("textDocument/didChange", json!({"textDocument": {"uri": a, "version": 3}, "contentChanges": [{"range": range(max + 1, 0, max + 1, 0), "text": "x"}]})), Effect::None);
    add("change-no-text", note("textDocument/didChange", json!({"textDocument": {"uri": a, "version": 3}, "contentChanges": [{}]})), Effect::None);
    add("change-changes-object", note("textDocument/didChange", json!({"textDocument": {"uri": a, "version": 3}, "contentChanges": {}})), Effect::None);
    add("change-with-length", note("textDocument/didChange", json!({"textDocument": {"uri": a, "version": 3}, "contentChanges": [{"range": range(0, 0, 0, 1), "rangeLength": 77, "text": "$"}]})), Effect::Changes(vec![ranged((0, 0), (0, 1), "$")]));
    add("change-unopened", note("textDocument/didChange", json!({"textDocument": {"uri": "file:///w/never.move", "version": 3}, "contentChanges": [{"text": "$"}]})), Effect::None);
    for (name, u) in [
        ("untitled", "untitled:Untitled-1"),
        ("http", "http://example.com/a.move"),
        ("file-host", "file://host/a.move"),
        ("root", "file:///"),
        ("directory", "file:///w/"),
        ("not-utf8", "file:///w/%FF.move"),
        ("nul", "file:///w/%00.move"),
        ("query", "file:///w/q.move?x#y"),
        ("dots", "file:///w/../../../x.move"),
        ("slashes", "file:////w//s.move"),
        ("colon", "file:///c%3A/x.move"),
        ("no-extension", "file:///w/Dove.toml"),
        ("probe-alias", "file:///w/%70robe.move"),
    ] {
        add(&format!("open-{}", name), note("textDocument/didOpen", json!({"textDocument": {"uri": u, "languageId": "move", "version": 1, "text": "$"}})), Effect::None);
        add(&format!("change-{}", name), note("textDocument/didChange", json!({"textDocument": {"uri": u, "version": 2}, "contentChanges": [{"text": "$ $"}]})), Effect::None);
        add(&format!("close-{}", name), note("textDocument/didClose", json!({"textDocument": {"uri": u}})), Effect::None);
    }
    add("open-bad-uri", note("textDocument/didOpen", json!({"textDocument": {"uri": "no uri", "languageId": "move", "version": 1, "text": "$"}})), Effect::None);
    add("open-uri-null", note("textDocument/didOpen", json!({"textDocument": {"uri": null, "languageId": "move", "version": 1, "text": "$"}})), Effect::None);
    add("open-no-text", note("textDocument/didOpen", json!({"textDocument": {"uri": a, "languageId": "move", "version": 1}})), Effect::None);
    add("open-again", note("textDocument/didOpen", json!({"textDocument": {"uri": a, "languageId": "move", "version": 1, "text": "$ x"}})), Effect::Text("$ x".into()));
    add("open-again-empty", note("textDocument/didOpen", json!({"textDocument": {"uri": a, "languageId": "", "version": -1, "text": ""}})), Effect::Text(String::new()));
    add("close", note("textDocument/didClose", json!({"textDocument": {"uri": a}})), Effect::Close);
    for m in ["textDocument/didOpen", "textDocument/didChange", "textDocument/didClose", "$/cancelRequest", "window/workDoneProgress/cancel"] {
        for (n, p) in [("null", Value::Null), ("object", json!({})), ("array", json!([])), ("string", json!("x")), ("number", json!(1))] {
            add(&format!("{}-{}", m, n), note(m, p), Effect::None);
        }
    }
    for (n, id) in [("number", json!(99)), ("string", json!("99")), ("negative", json!(-1)), ("float", json!(0.5)), ("null", Value::Null)] {
        add(&format!("cancel-{}", n), note("$/cancelRequest", json!({ "id": id })), Effect::None);
        add(&format!("progress-cancel-{}", n), note("window/workDoneProgress/cancel", json!({ "token": id })), Effect::None);
    }
    for m in [
        "textDocument/didSave",
        "textDocument/willSave",
        "workspace/didChangeConfiguration",
        "workspace/didChangeWatchedFiles",
        "workspace/didChangeWorkspaceFolders",
        "initialized",
        "$/setTrace",
        "$/unheard",
        "unheard",
        "",
        "shutdown",
    ] {
        add(&format!("note-{:?}", m), note(m, json!({"textDocument": {"uri": a}})), Effect::None);
    }
    let response = |id: RequestId, result: Option<Value>, error: bool| Msg {
        message: Message::Response(Response { id, result, error: error.then(|| ResponseError { code: -1, message: "no".into(), data: None }) }),
        writes: false,
        hangup: false,
    };
    for (n, id) in [("0", RequestId::from(0)), ("1", RequestId::from(1)), ("-1", RequestId::from(-1)), ("s", RequestId::from("0".to_string()))] {
        add(&format!("response-{}", n), response(id.clone(), Some(Value::Null), false), Effect::None);
        add(&format!("response-error-{}", n), response(id.clone(), None, true), Effect::None);
    }
    add("response-empty", response(RequestId::from(0), None, false), Effect::None);
    let request = |id: RequestId, m: &str, p: Value| Msg { message: Message::Request(Request { id, method: m.into(), params: p }), writes: false, hangup: false };
    for m in ["initialize", "exit", "textDocument/didOpen", "textDocument/hover", "$/unheard", ""] {
        add(&format!("request-{:?}", m), request(RequestId::from(5), m, json!({"textDocument": {"uri": a}})), Effect::None);
    }
    for (n, p) in [("object", json!({})), ("array", json!([1])), ("string", json!("x"))] {
        add(&format!("shutdown-{}", n), request(RequestId::from(6), "shutdown", p), Effect::None);
    }
    add("request-again", request(RequestId::from(5), "textDocument/hover", Value::Null), Effect::None);
    add("request-like-probe", request(RequestId::from(format!("{}", PROBE_ID)), "textDocument/hover", Value::Null), Effect::None);
    // a burst of 40 edits in one message
    let burst: Vec<TextDocumentContentChangeEvent> = (0..40).map(|i| ranged((i % 3, 0), (i % 2, 0), ["$", "\n", "", "\u{10400}"][i as usize % 4])).collect();
    add("burst", change(0, 9, &burst), Effect::Changes(burst.clone()));
    add("note-cancel-of-probe", Msg { message: Message::Notification(Notification { method: "$/cancelRequest".into(), params: json!({ "id": PROBE_ID }) }), writes: false, hangup: false }, Effect::None);
    res
}

pub fn c04(ck: &Arc<Check>) {
    install_hook();
    let al = alphabet();
    // those that touch state, alone or together
    let core: Vec<usize> = (0..al.len())
        .filter(|&i| {
            let n = &al[i].name;
            n.starts_with("edit-") || n.starts_with("open-again") || n.starts_with("response-0") || ["close", "old-version", "change-unopened", "open-root", "close-root", "open-slashes", "open-not-utf8", "open-nul", "open-probe-alias", "close-probe-alias", "response-empty", "open-query", "shutdown-array", "cancel-number", "change-negative-line", "burst"].contains(&n.as_str())
        })
        .collect();
    let n = al.len();
    let mut cases: Vec<Vec<usize>> = (0..n).map(|i| vec![i]).collect();
    cases.extend((0..n * n).map(|i| vec![i / n, i % n]));
    let k = core.len();
    cases.extend((0..k * k * k).map(|i| vec![core[i / k / k], core[i / k % k], core[i % k]]));
    if ck.thorough {
        cases.extend((0..n * n * n).map(|i| vec![i / n / n, i / n % n, i % n]));
    }
    ck.note("messages", n);
    ck.note("histories", cases.len());
    let all_caps = ClientCapabilities {
        text_document: Some(TextDocumentClientCapabilities {
            synchronization: Some(TextDocumentSyncClientCapabilities { did_save: Some(true), dynamic_registration: Some(true), ..Default::default() }),
            ..Default::default()
        }),
        ..utf8_caps()
    };
    let deaths = spread(ck, cases.len(), |i| {
        let case = &cases[i];
        let probe_text = "module M {\r\n $ fun f() {\u{10400} }\n}";
        let mut msgs = vec![open(0, 1, "a\u{10400}b\r\n$\n")];
        let mut effects = vec![Effect::Text("a\u{10400}b\r\n$\n".into())];
        for &h in case {
            msgs.push(al[h].msg.clone());
            effects.push(al[h].effect.clone());
        }
        msgs.push(msg("textDocument/didOpen", json!({"textDocument": {"uri": PROBE, "languageId": "move", "version": 1, "text": probe_text}}), true));
        msgs.push(Msg { message: Message::Request(Request { id: RequestId::from(PROBE_ID), method: "shutdown".into(), params: Value::Null }), writes: false, hangup: false });
        effects.extend([Effect::None, Effect::None]);
        let utf8 = case.iter().sum::<usize>() % 2 == 1;
        let name = case.iter().map(|&h| al[h].name.as_str()).collect::<Vec<_>>().join(" then ");
        let mut s = Script::new(name, msgs);
        s.deviations = if case.len() <= ck.pick(1, 2) { 1 } else { 0 };
        s.eager_or_lazy = case.len() > 2 || !ck.thorough && case.len() == 2 && case.iter().any(|c| !core.contains(c));
        s.batch = 2;
        if utf8 {
            s.caps = all_caps.clone();
        }
        let states = Arc::new(StateSet::default());
        explore(
            ck,
            s,
            &|| {
                Box::new(HostileJudge {
                    effects: effects.clone(),
                    texts: None,
                    open: false,
                    last: vec![],
                    probe: vec![],
                    probe_text: probe_text.into(),
                    shutdown: vec![],
                    delivered: 0,
                    utf8,
                    trouble: vec![],
                })
            },
            &states,
            u64::MAX,
        );
        ck.add(states.len(), 0, 0);
    });
    for d in deaths {
        let name = cases[d.case].iter().map(|&h| al[h].name.as_str()).collect::<Vec<_>>().join(" then ");
        ck.violation(&format!("death {}", name), &format!("the process running the server died (signal {:?})", d.signal));
    }
}
