//! C34: the executable, spoken to over its standard streams.
use crate::docs::uri;
use crate::oracle;
use lsp_server::{Message, Notification, Request, RequestId};
use lsp_types::PublishDiagnosticsParams;
use mc_core::*;
use std::io::{BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::sync::Arc;
use std::time::{Duration, Instant};

const PATIENCE: Duration = Duration::from_secs(30);

fn executable() -> PathBuf {
    Path::new(&std::env::var("VERIF_DIR").expect("run by check.py")).join("target/app/debug/move_language_server")
}

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        let base = std::env::temp_dir().join(format!("mls-mc-app-{}", std::process::id()));
        std::fs::create_dir_all(&base).expect("scratch directory");
        Scratch(base)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

enum Heard {
    Message(Message),
    /// Something on standard output is no message.
    Garbage(String),
}

struct Server {
    child: Child,
    stdin: Option<ChildStdin>,
    heard: Receiver<Heard>,
    ended: bool,
    heard_garbage: bool,
}

impl Server {
    fn start(cwd: &Path) -> Server {
        let mut child = Command::new(executable())
            .current_dir(cwd)
            .env_remove("RA_LOG_FILE")
            .env_remove("MOVE_LS_LOG")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("the executable");
        let (tx, heard) = channel();
        let out = child.stdout.take().unwrap();
        std::thread::spawn(move || {
            let mut out = BufReader::new(out);
            loop {
                match Message::read(&mut out) {
                    Ok(Some(m)) => {
                        if tx.send(Heard::Message(m)).is_err() {
                            return;
                        }
                    }
                    Ok(None) => return,
                    Err(e) => {
                        let _ = tx.send(Heard::Garbage(e.to_string()));
                        return;
                    }
                }
            }
        });
        let stdin = child.stdin.take();
        Server { child, stdin, heard, ended: false, heard_garbage: false }
    }
    fn write(&mut self, bytes: &[u8]) -> Result<(), String> {
        let s = self.stdin.as_mut().unwrap();
        s.write_all(bytes).and_then(|_| s.flush()).map_err(|e| format!("the server does not read any more: {}", e))
    }
    fn say(&mut self, m: Message) -> Result<(), String> {
        self.write(&bytes(m))
    }
    /// The next message, None at the end of the output.
    fn hear(&mut self) -> Result<Option<Message>, String> {
        if self.ended {
            return Ok(None);
        }
        match self.heard.recv_timeout(PATIENCE) {
            Ok(Heard::Message(m)) => Ok(Some(m)),
            Ok(Heard::Garbage(e)) => {
                self.heard_garbage = true;
                Err(format!("the output is not a message: {}", e))
            }
            Err(RecvTimeoutError::Disconnected) => {
                self.ended = true;
                Ok(None)
            }
            Err(RecvTimeoutError::Timeout) => Err("the server says nothing any more".into()),
        }
    }
    /// The exit status after everything was read.
    fn end(&mut self, vanished: bool) -> Result<(Vec<Message>, std::process::ExitStatus), String> {
        let mut rest = vec![];
        loop {
            match self.hear() {
                Ok(Some(m)) => rest.push(m),
                Ok(None) => break,
                // what is on its way to a client that is gone may be cut short
                Err(_) if vanished && self.heard_garbage => break,
                Err(e) => return Err(e),
            }
        }
        let start = Instant::now();
        loop {
            if let Some(s) = self.child.try_wait().map_err(|e| e.to_string())? {
                return Ok((rest, s));
            }
            if start.elapsed() > PATIENCE {
                return Err("the process does not end".into());
            }
            std::thread::sleep(Duration::from_millis(1));
        }
    }
}
impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn bytes(m: Message) -> Vec<u8> {
    let mut v = vec![];
    m.write(&mut v).unwrap();
    v
}
fn request(id: impl Into<RequestId>, method: &str, params: Value) -> Message {
    Message::Request(Request { id: id.into(), method: method.into(), params })
}
fn note(method: &str, params: Value) -> Message {
    Message::Notification(Notification { method: method.into(), params })
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    ShutdownExit,
    Vanish,
    VanishAfterShutdown,
    VanishUnread,
}

#[derive(Clone, Debug)]
struct Case {
    encodings: Value,
    sync: Value,
    root: Value,
    folders: Option<Value>,
    end: End,
    id: RequestId,
    /// Something before initialize.
    early: bool,
}

fn with(mut v: Value, key: &str, x: Option<&Value>) -> Value {
    if let Some(x) = x {
        v[key] = x.clone();
    }
    v
}

const TEXT: &str = "\u{10400} module M {\r\n\u{10400} $ fun f() { }\r\n";

fn initialize(c: &Case) -> Message {
    let mut caps = json!({});
    if c.encodings != json!("absent") {
        caps["offsetEncoding"] = c.encodings.clone();
    }
    if c.sync != json!("absent") {
        caps["textDocument"] = json!({ "synchronization": c.sync });
    }
    let params = with(json!({"processId": null, "rootUri": c.root, "capabilities": caps}), "workspaceFolders", c.folders.as_ref());
    request(c.id.clone(), "initialize", params)
}
fn open(text: &str) -> Message {
    note("textDocument/didOpen", json!({"textDocument": {"uri": uri(0), "languageId": "move", "version": 1, "text": text}}))
}

fn session(c: &Case, cwd: &Path) -> Result<u64, String> {
    let utf8 = c.encodings.as_array().map_or(false, |a| a.contains(&json!("utf-8")));
    let dynamic = c.sync["didSave"] == json!(true) && c.sync["dynamicRegistration"] == json!(true);
    let mut s = Server::start(cwd);
    let mut steps = 1;
    if c.early {
        s.say(request(3, "textDocument/hover", json!({})))?;
        match s.hear()? {
            Some(Message::Response(r)) if r.id == RequestId::from(3) && r.error.is_some() => {}
            m => return Err(format!("a request before initialize is answered with {:?}", m)),
        }
    }
    s.say(initialize(c))?;
    let Some(Message::Response(r)) = s.hear()? else { return Err("initialize is not answered".into()) };
    let Some(result) = r.result.filter(|_| r.id == c.id && r.error.is_none()) else { return Err(format!("initialize is answered with {:?}", r.error)) };
    let announced = &result["offsetEncoding"];
    if utf8 != (announced == &json!("utf-8")) || !utf8 && !announced.is_null() && announced != &json!("utf-16") {
        return Err(format!("the client offers {}, the server announces {}", c.encodings, announced));
    }
    let sync = &result["capabilities"]["textDocumentSync"];
    if sync["openClose"] != json!(true) || !(sync["change"] == json!(1) || sync["change"] == json!(2)) {
        return Err(format!("the server wants no documents: {}", result));
    }
    s.say(note("initialized", json!({})))?;
    steps += 2;
    let mut registered = 0;
    let mut diagnostics = None;
    let mut handle = |s: &mut Server, m: Message| -> Result<Option<Message>, String> {
        match m {
            Message::Request(r) if r.method == "client/registerCapability" => {
                let regs = r.params["registrations"].as_array().cloned().unwrap_or_default();
                registered += regs.iter().filter(|g| g["method"] == json!("textDocument/didSave")).count();
                if s.stdin.is_some() {
                    s.say(Message::Response(lsp_server::Response::new_ok(r.id, Value::Null)))?;
                }
                Ok(None)
            }
            Message::Notification(n) if n.method == "textDocument/publishDiagnostics" => {
                diagnostics = Some(serde_json::from_value::<PublishDiagnosticsParams>(n.params).map_err(|e| e.to_string())?);
                Ok(None)
            }
            m => Ok(Some(m)),
        }
    };
    s.say(open(TEXT))?;
    s.say(request("q".to_string(), "textDocument/hover", json!({})))?;
    if c.end == End::VanishUnread {
        // gone without reading what was said
        s.heard = channel().1;
        s.stdin = None;
        let start = Instant::now();
        let status = loop {
            if let Some(x) = s.child.try_wait().map_err(|e| e.to_string())? {
                break x;
            }
            if start.elapsed() > PATIENCE {
                return Err("the process does not end".into());
            }
            std::thread::sleep(Duration::from_millis(1));
        };
        if status.success() {
            return Err("the client vanished, and the process ends with success".into());
        }
        return Ok(steps + 3);
    }
    let mut answered = false;
    let mut extra = vec![];
    let mut published = false;
    while !(answered && published) {
        let Some(m) = s.hear()? else { return Err("the server ends during the session".into()) };
        steps += 1;
        published |= matches!(&m, Message::Notification(n) if n.method == "textDocument/publishDiagnostics");
        match handle(&mut s, m)? {
            Some(Message::Response(r)) if r.id == RequestId::from("q".to_string()) && !answered => {
                answered = true;
                if r.error.map_or(true, |e| e.code != lsp_server::ErrorCode::MethodNotFound as i32) {
                    return Err("an unknown request is answered otherwise than by MethodNotFound".into());
                }
            }
            Some(m) => extra.push(m),
            None => {}
        }
    }
    let mut shut = 0;
    if c.end != End::Vanish {
        s.say(request(77, "shutdown", Value::Null))?;
        while shut == 0 {
            let Some(m) = s.hear()? else { return Err("the server ends instead of answering shutdown".into()) };
            steps += 1;
            match handle(&mut s, m)? {
                Some(Message::Response(r)) if r.id == RequestId::from(77) && r.error.is_none() => shut += 1,
                Some(m) => extra.push(m),
                None => {}
            }
        }
    }
    if c.end == End::ShutdownExit {
        s.say(note("exit", Value::Null))?;
    }
    s.stdin = None;
    let (rest, status) = s.end(c.end != End::ShutdownExit)?;
    for m in rest {
        if let Some(m) = handle(&mut s, m)? {
            extra.push(m);
        }
    }
    for m in extra {
        if matches!(m, Message::Response(_)) {
            return Err(format!("an answer to nothing: {:?}", m));
        }
    }
    if registered != dynamic as usize {
        return Err(format!("the server registered for save notifications {} times; the client supports it: {}", registered, dynamic));
    }
    let d = diagnostics.ok_or("no diagnostics")?;
    if d.uri != uri(0) || !oracle::same(&oracle::errors(TEXT, utf8), &d.diagnostics) {
        return Err(format!("the diagnostics are {:?}", d));
    }
    if status.success() != (c.end == End::ShutdownExit) || c.end == End::ShutdownExit && status.code() != Some(0) {
        return Err(format!("after {:?} the process ends with {:?}", c.end, status));
    }
    Ok(steps + 2)
}

fn run(ck: &Arc<Check>, key: String, f: impl Fn() -> Result<u64, String>) {
    if ck.stopped() {
        return;
    }
    match f() {
        Ok(n) => ck.add(1, n, 1),
        Err(e) => ck.violation(&key, &e),
    }
    if hash64(key.as_bytes()) % 503 == 1 {
        ck.sample(key);
    }
}

pub fn c34(ck: &Arc<Check>) {
    let scratch = Scratch::new();
    let base = &scratch.0;
    let dir = |name: &str, manifest: Option<&str>| {
        let d = base.join(name);
        std::fs::create_dir_all(d.join("sources")).unwrap();
        if let Some(m) = manifest {
            std::fs::write(d.join("Dove.toml"), m).unwrap();
        }
        d
    };
    let good = dir("good", Some("[package]\nname = \"x\"\n"));
    let nested = dir("nested \u{e9}", None);
    std::fs::create_dir_all(nested.join("inner")).unwrap();
    std::fs::write(nested.join("inner/Dove.toml"), "[package]\n").unwrap();
    let bad = dir("bad", Some("[package\n"));
    let plain = dir("plain", None);
    let u = |d: &Path| json!(lsp_types::Url::from_file_path(d).unwrap());
    let folder = |x: Value| json!({"uri": x, "name": "n"});

    let encodings = [json!("absent"), Value::Null, json!([]), json!(["utf-16"]), json!(["utf-8"]), json!(["utf-16", "utf-8"]), json!(["utf-32", "UTF-8"])];
    let syncs = [
        json!("absent"),
        json!({}),
        json!({"didSave": true}),
        json!({"dynamicRegistration": true}),
        json!({"didSave": true, "dynamicRegistration": true}),
        json!({"didSave": true, "dynamicRegistration": false}),
        json!({"didSave": false, "dynamicRegistration": true}),
    ];
    let roots = [Value::Null, u(&good), u(&plain), json!("file:///nonexistent/x"), json!("untitled:x")];
    let folders = [
        None,
        Some(Value::Null),
        Some(json!([])),
        Some(json!([folder(u(&good))])),
        Some(json!([folder(u(&plain)), folder(u(&nested)), folder(u(&good))])),
        Some(json!([folder(u(&bad)), folder(u(&bad))])),
        Some(json!([folder(json!("untitled:x"))])),
        Some(json!([folder(json!("file:///nonexistent/y")), folder(json!("vscode-remote://x/y"))])),
    ];
    let ends = [End::ShutdownExit, End::Vanish, End::VanishAfterShutdown, End::VanishUnread];
    let ids = [RequestId::from(0), RequestId::from("start".to_string()), RequestId::from(-3)];
    let mut cases = vec![];
    for (e, encodings) in encodings.iter().enumerate() {
        for (y, sync) in syncs.iter().enumerate() {
            for (r, root) in roots.iter().enumerate() {
                for (f, folders) in folders.iter().enumerate() {
                    // workspaces and capabilities have nothing to do with each other: quickly, not every pair
                    // of values meets with every end
                    for (n, &end) in ends.iter().enumerate() {
                        if !ck.thorough && (e + y + r + f) % ends.len() != n {
                            continue;
                        }
                        for (k, id) in ids.iter().enumerate() {
                            if (r + f + e) % ids.len() != k {
                                continue;
                            }
                            cases.push(Case {
                                encodings: encodings.clone(),
                                sync: sync.clone(),
                                root: root.clone(),
                                folders: folders.clone(),
                                end,
                                id: id.clone(),
                                early: (y + f + n) % 2 == 1,
                            });
                        }
                    }
                }
            }
        }
    }
    ck.note("sessions", cases.len());
    par_for(cases.len(), |i| {
        let c = &cases[i];
        // without a workspace the current directory is one
        let cwd = [&good, &bad, &plain][i % 3];
        run(ck, format!("{:?}", c), || session(c, cwd));
    });

    // the client vanishes after any byte of what it says
    let c = Case {
        encodings: json!(["utf-8"]),
        sync: syncs[4].clone(),
        root: u(&good),
        folders: Some(json!([folder(u(&good))])),
        end: End::Vanish,
        id: RequestId::from(1),
        early: false,
    };
    let stream: Vec<Vec<u8>> = [
        initialize(&c),
        note("initialized", json!({})),
        Message::Response(lsp_server::Response::new_ok(RequestId::from(0), Value::Null)),
        open("$"),
        request(2, "textDocument/hover", json!({})),
        request(3, "shutdown", Value::Null),
        note("exit", Value::Null),
    ]
    .into_iter()
    .map(bytes)
    .collect();
    let all = stream.concat();
    ck.note("bytes_of_a_session", all.len());
    par_for(all.len() + 1, |n| {
        run(ck, format!("the client vanishes after {} bytes", n), || {
            let mut s = Server::start(&good);
            s.write(&all[..n])?;
            s.stdin = None;
            let (said, status) = s.end(n < all.len())?;
            if n == all.len() {
                if status.code() != Some(0) {
                    return Err(format!("after shutdown and exit the process ends with {:?}", status));
                }
            } else if status.success() {
                return Err("the process ends with success".into());
            }
            let answers = said.iter().filter(|m| matches!(m, Message::Response(_))).count();
            if answers > 3 {
                return Err(format!("too many answers: {:?}", said));
            }
            Ok(said.len() as u64 + 1)
        });
    });
}
