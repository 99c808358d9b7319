//! C03: requests and their answers. C05: ends of sessions.
use crate::docs::*;
use crate::oracle;
use crate::sched::*;
use lsp_server::{ErrorCode, Message, Request, RequestId, Response};
use mc_core::*;
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
enum Answer {
    Result(Value),
    /// Code, and what the message contains.
    Error(i32, &'static str),
}

fn fits(a: &Answer, r: &Response) -> bool {
    match a {
        Answer::Result(v) => r.error.is_none() && r.result.as_ref() == Some(v),
        Answer::Error(code, msg) => r.result.is_none() && r.error.as_ref().map_or(false, |e| e.code == *code && e.message.contains(msg)),
    }
}

/// One request, and what it should lead to.
#[derive(Clone, Debug)]
enum Expect {
    Now(Answer),
    /// Answered in the background.
    Later(Answer),
    /// As above, unless an edit comes before the (only) computation.
    Reads,
    ReadsNow,
    Shutdown,
}

#[derive(Clone, Debug)]
enum What {
    Request(RequestId, Expect),
    Cancel(RequestId),
    Text(String),
    Nothing,
    Hangup,
    Exit,
}

struct ReqJudge {
    what: Vec<What>,
    /// The answers that must come before anything else happens.
    due: Vec<(RequestId, Answer)>,
    pending: BTreeMap<usize, RequestId>,
    pool: HashMap<usize, (RequestId, Expect, Option<Answer>)>,
    answered: Vec<RequestId>,
    shutdown: bool,
    text: String,
    /// The pool request that was just delivered.
    starting: Option<(RequestId, Expect)>,
    deaf: bool,
    exit: bool,
    judge_ends: bool,
    trouble: Vec<String>,
}

impl ReqJudge {
    fn new(what: Vec<What>, judge_ends: bool) -> ReqJudge {
        ReqJudge {
            what,
            due: vec![],
            pending: BTreeMap::new(),
            pool: HashMap::new(),
            answered: vec![],
            shutdown: false,
            text: String::new(),
            starting: None,
            deaf: false,
            exit: false,
            judge_ends,
            trouble: vec![],
        }
    }
    fn none_due(&mut self) {
        if let Some((id, _)) = self.starting.take() {
            self.trouble.push(format!("request {:?} was not handed to the background", id));
        }
        if self.deaf {
            self.due.clear();
        }
        for (id, a) in self.due.drain(..) {
            self.trouble.push(format!("request {:?} should have been answered with {:?} by now", id, a));
        }
    }
    fn read(&self) -> Answer {
        Answer::Result(json!(format!("read {}", oracle::errors(&self.text, false).len())))
    }
}

impl Judge for ReqJudge {
    fn delivered(&mut self, index: usize) {
        self.none_due();
        match self.what[index].clone() {
            What::Request(id, _) if self.shutdown => self.due.push((id, Answer::Error(ErrorCode::InvalidRequest as i32, ""))),
            What::Request(id, e) => match e {
                Expect::Now(a) => self.due.push((id, a)),
                Expect::ReadsNow => self.due.push((id, self.read())),
                Expect::Shutdown => {
                    self.shutdown = true;
                    self.due.push((id, Answer::Result(Value::Null)));
                }
                e => self.starting = Some((id, e)),
            },
            What::Cancel(id) => {
                let task = self.pending.iter().find(|p| *p.1 == id).map(|p| *p.0);
                if let Some(t) = task {
                    self.pending.remove(&t);
                    self.due.push((id, Answer::Error(ErrorCode::RequestCanceled as i32, "")));
                }
            }
            What::Text(t) => {
                self.text = t;
                for (_, expect, answer) in self.pool.values_mut() {
                    if matches!(expect, Expect::Reads) && answer.is_none() {
                        *answer = Some(Answer::Error(ErrorCode::ContentModified as i32, ""));
                    }
                }
            }
            What::Hangup => self.deaf = true,
            What::Exit => self.exit = true,
            What::Nothing => {}
        }
    }
    fn started(&mut self, task: usize) {
        if let Some((id, e)) = self.starting.take() {
            let answer = match &e {
                Expect::Later(a) => Some(a.clone()),
                _ => None,
            };
            self.pending.insert(task, id.clone());
            self.pool.insert(task, (id, e, answer));
        }
    }
    fn computes(&mut self, task: usize) {
        let r = self.read();
        if let Some((_, _, answer @ None)) = self.pool.get_mut(&task) {
            *answer = Some(r);
        }
    }
    fn released(&mut self, tasks: &[usize]) {
        self.none_due();
        for t in tasks {
            if let Some(id) = self.pending.remove(t) {
                let a = self.pool[t].2.clone().unwrap_or(Answer::Error(0, "never computed"));
                self.due.push((id, a));
            }
        }
    }
    fn output(&mut self, m: &Message) {
        let Message::Response(r) = m else { return };
        self.answered.push(r.id.clone());
        if self.due.is_empty() {
            self.trouble.push(format!("a response for {:?}, which has no outstanding request or should not be answered now: {}", r.id, show(m)));
            return;
        }
        let (id, a) = self.due.remove(0);
        if id != r.id || !fits(&a, r) {
            self.trouble.push(format!("the answer to {:?} should be {:?}, and is {}", id, a, show(m)));
        }
    }
    fn quiescent(&mut self) {
        self.none_due();
        if !self.pending.is_empty() && !self.deaf {
            self.trouble.push(format!("never answered: {:?}", self.pending.values().collect::<Vec<_>>()));
        }
    }
    fn ended(&mut self, result: &Result<(), String>, left: usize) {
        self.none_due();
        if !self.judge_ends {
            return;
        }
        if result.is_ok() != self.exit {
            self.trouble.push(format!("the loop returned {:?} after {}", result, if self.exit { "exit" } else { "a disconnect" }));
        }
        if left > 0 {
            self.trouble.push(format!("the loop returned while {} background tasks were under way", left));
        }
    }
    fn trouble(&mut self) -> Vec<String> {
        std::mem::take(&mut self.trouble)
    }
}

fn request(id: &RequestId, method: &str, params: Value) -> Msg {
    Msg { message: Message::Request(Request { id: id.clone(), method: method.into(), params }), writes: false, hangup: false }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Pool(&'static str),
    Sync(&'static str),
    Mut(&'static str),
    PoolRead,
    SyncRead,
    BadParams(&'static str),
    Unknown,
    UnknownOf(&'static str),
    Shutdown,
    /// Cancels the n-th request (sent or not).
    Cancel(usize),
    /// Cancels an id that is the n-th one's but for its type.
    CancelOther(usize),
    Edit,
    Close,
    Hangup,
    /// The client answers the server's first request, with success or failure.
    Reply(bool),
    Exit,
}

/// Ids of the requests of a history: numbers, strings, mixed, or one id used over and over.
fn id_of(style: usize, n: usize) -> RequestId {
    match (style, n % 2) {
        (0, _) | (2, 0) => RequestId::from(n as i32 + 1),
        (1, _) | (2, _) => RequestId::from(format!("{}", n + 1)),
        (3, _) => RequestId::from(1),
        _ => {
            let odd = ["", "null", "-7", "a b\"\u{10400}", "01"];
            let numbers = [0, -1, i32::MAX, i32::MIN, 65_536];
            if n % 2 == 0 {
                RequestId::from(odd[n / 2 % 5].to_string())
            } else {
                RequestId::from(numbers[n / 2 % 5])
            }
        }
    }
}
fn json_id(id: &RequestId) -> Value {
    serde_json::to_value(id).unwrap()
}
fn other(id: &RequestId) -> Value {
    match json_id(id) {
        Value::Number(n) => json!(n.to_string()),
        Value::String(s) => json!(s.parse::<i32>().unwrap()),
        v => v,
    }
}

fn build(ops: &[Op], style: usize) -> (Vec<Msg>, Vec<What>) {
    let (mut msgs, mut what) = (vec![], vec![]);
    let opened = ops.iter().any(|o| matches!(o, Op::PoolRead | Op::SyncRead | Op::Edit | Op::Close));
    if opened {
        msgs.push(open(0, 1, "$"));
        what.push(What::Text("$".into()));
    }
    let mut n = 0;
    let mut edits = 0;
    let mut closed = false;
    for &op in ops {
        let id = id_of(style, n);
        let internal = ErrorCode::InternalError as i32;
        let result = |w: &'static str| match w {
            "error" => Answer::Error(internal, "test error"),
            "lsp" => Answer::Error(-7, "test lsp error"),
            "panic" => Answer::Error(internal, "panic"),
            w => Answer::Result(json!(w)),
        };
        let mut req = |method: &str, params: Value, e: Expect| {
            n += 1;
            msgs.push(request(&id, method, params));
            what.push(What::Request(id.clone(), e));
        };
        match op {
            Op::Pool(w) => req("verif/pool", json!({"what": w}), Expect::Later(result(w))),
            Op::Sync(w) => req("verif/sync", json!({"what": w}), Expect::Now(result(w))),
            Op::Mut(w) => req("verif/mut", json!({"what": w}), Expect::Now(result(w))),
            Op::PoolRead => req("verif/pool", json!({"what": "read", "uri": uri(0)}), Expect::Reads),
            Op::SyncRead => req("verif/sync", json!({"what": "read", "uri": uri(0)}), Expect::ReadsNow),
            Op::BadParams(m) => req(m, json!({"nothing": 1}), Expect::Now(Answer::Error(ErrorCode::InvalidParams as i32, ""))),
            Op::UnknownOf(m) => req(m, json!({}), Expect::Now(Answer::Error(ErrorCode::MethodNotFound as i32, ""))),
            Op::Unknown => req("textDocument/hover", json!({}), Expect::Now(Answer::Error(ErrorCode::MethodNotFound as i32, ""))),
            Op::Shutdown => req("shutdown", Value::Null, Expect::Shutdown),
            Op::Cancel(k) => {
                let id = id_of(style, k);
                msgs.push(msg("$/cancelRequest", json!({"id": json_id(&id)}), false));
                what.push(What::Cancel(id));
            }
            Op::CancelOther(k) => {
                msgs.push(msg("$/cancelRequest", json!({"id": other(&id_of(style, k))}), false));
                what.push(What::Nothing);
            }
            Op::Edit => {
                edits += 1;
                let text = "$ ".repeat(edits + 1) + "\n module";
                msgs.push(change(0, 1 + edits as i32, &[full(&text)]));
                what.push(if closed { What::Nothing } else { What::Text(text) });
            }
            Op::Close => {
                closed = true;
                msgs.push(close(0));
                what.push(What::Nothing);
            }
            Op::Hangup => {
                msgs.push(Msg { hangup: true, ..msg("", Value::Null, false) });
                what.push(What::Hangup);
            }
            Op::Reply(ok) => {
                let r = if ok { Response::new_ok(0.into(), ()) } else { Response::new_err(0.into(), -32601, "no".into()) };
                msgs.push(Msg { message: Message::Response(r), writes: false, hangup: false });
                what.push(What::Nothing);
            }
            Op::Exit => {
                msgs.push(msg("exit", Value::Null, false));
                what.push(What::Exit);
            }
        }
    }
    (msgs, what)
}

fn sequences(alphabet: &[Op], len: usize, f: &mut dyn FnMut(&[Op])) {
    fn go(a: &[Op], len: usize, cur: &mut Vec<Op>, f: &mut dyn FnMut(&[Op])) {
        if cur.len() == len {
            return f(cur);
        }
        for &o in a {
            cur.push(o);
            go(a, len, cur, f);
            cur.pop();
        }
    }
    go(alphabet, len, &mut vec![], f)
}

pub fn c03(ck: &Arc<Check>) {
    install_hook();
    use Op::*;
    let all = [
        Pool("ok"), Pool("error"), Pool("lsp"), Pool("panic"), PoolRead, Sync("ok"), Sync("error"), Sync("lsp"), Sync("panic"), SyncRead, Mut("ok"), Mut("error"),
        BadParams("verif/pool"), BadParams("verif/sync"), BadParams("shutdown"), Unknown, Shutdown, Cancel(0), Cancel(1), CancelOther(0), Edit,
    ];
    let some = [
        Pool("ok"), Pool("error"), Pool("panic"), PoolRead, Sync("lsp"), SyncRead, Mut("error"), BadParams("verif/pool"), Unknown, Shutdown, Cancel(0), Cancel(1), CancelOther(0), Edit,
    ];
    let core = [Pool("ok"), Pool("panic"), PoolRead, Shutdown, Cancel(0), Edit];
    let mut scripts: Vec<(Vec<Op>, usize)> = vec![];
    for style in 0..3 {
        sequences(&all, 2, &mut |s| scripts.push((s.to_vec(), style)));
    }
    sequences(ck.pick(&some[..], &all[..]), 3, &mut |s| scripts.push((s.to_vec(), scripts.len() % 3)));
    sequences(&core, 4, &mut |s| scripts.push((s.to_vec(), 2)));
    if ck.thorough {
        sequences(&core, 5, &mut |s| scripts.push((s.to_vec(), 0)));
    }
    // strange ids, and one id used for all requests, each sent when the one before was answered
    let odd = [Pool("ok"), Sync("ok"), Sync("error"), Unknown, BadParams("verif/pool"), Shutdown, Cancel(0), Cancel(1)];
    sequences(&odd, 3, &mut |s| scripts.push((s.to_vec(), 4)));
    let now = [Sync("ok"), Sync("panic"), Mut("error"), Unknown, BadParams("verif/sync"), BadParams("shutdown")];
    for last in [vec![Pool("ok")], vec![Pool("ok"), Cancel(0)], vec![PoolRead, Edit], vec![Shutdown, Sync("ok")], vec![Cancel(0), Sync("ok")]] {
        sequences(&now, 2, &mut |s| scripts.push(([s, &last[..]].concat(), 3)));
    }
    for m in ["$/x", "$/cancelRequest", "", "exit", "initialized", "initialize", "textDocument/didOpen", "shutdown/", "Shutdown", "verif/pool/x", "verif"] {
        for then in [Sync("ok"), Pool("ok"), Cancel(0), Shutdown, UnknownOf(m)] {
            scripts.push((vec![UnknownOf(m), then], 0));
            scripts.push((vec![then, UnknownOf(m)], 1));
        }
    }
    // background requests only start to matter with something after them
    ck.note("histories", scripts.len());
    explore_all(ck, &scripts, false, 2, |i| i % 2 == 1);

    // many requests under way, answered at once or all after the last was sent
    let mut scripts: Vec<(Vec<Op>, usize)> = vec![];
    for n in [9, 33, 65, ck.pick(130, 260)] {
        for every in [0, 2, 3] {
            for rest in [vec![], vec![Edit], vec![Shutdown, Unknown], vec![Sync("ok")]] {
                let kinds = [Pool("ok"), Pool("error"), PoolRead, Pool("panic"), Unknown];
                let mut ops: Vec<Op> = (0..n).map(|k| kinds[k % 5]).collect();
                if every > 0 {
                    ops.extend((0..n).rev().step_by(every).map(Cancel));
                }
                ops.extend(rest);
                scripts.push((ops, [0, 1, 2][every % 3]));
            }
        }
    }
    ck.note("histories_with_many_requests", scripts.len());
    no_deaths(spread(ck, scripts.len(), |i| {
        let (ops, style) = &scripts[i];
        let states = Arc::new(StateSet::default());
        let (msgs, what) = build(ops, *style);
        let mut s = Script::new(format!("{} requests and {:?} ids {}", ops.len(), ops.last(), style), msgs);
        s.batch = 1;
        s.eager_or_lazy = true;
        explore(ck, s, &|| Box::new(ReqJudge::new(what.clone(), false)), &states, u64::MAX);
        ck.add(states.len(), 0, 0);
    }));
}

fn explore_all(ck: &Arc<Check>, scripts: &[(Vec<Op>, usize)], ends: bool, unbounded: usize, rich: impl Fn(usize) -> bool + Sync) {
    no_deaths(spread(ck, scripts.len(), |i| {
        let (ops, style) = &scripts[i];
        let states = Arc::new(StateSet::default());
        let (msgs, what) = build(ops, *style);
        let mut s = Script::new(format!("{:?} ids {}", ops, style), msgs);
        s.batch = 2;
        if rich(i) {
            s.caps = rich_caps(i % 4 == 1);
        }
        if ops.len() > unbounded {
            s.deviations = ck.pick(1, 2);
        }
        if ends {
            s.ending = if ops.last() == Some(&Op::Exit) { Ending::ByMessage } else { Ending::Disconnect };
        }
        let n = explore(ck, s, &|| Box::new(ReqJudge::new(what.clone(), ends)), &states, u64::MAX);
        ck.max("most_schedules_of_one_history", n);
        ck.add(states.len(), 0, 0);
    }));
}

pub fn c05(ck: &Arc<Check>) {
    install_hook();
    use Op::*;
    let alphabet = [Edit, Close, Pool("ok"), Pool("panic"), PoolRead, Unknown, Shutdown, Cancel(0), Hangup];
    let mut scripts: Vec<(Vec<Op>, usize)> = vec![];
    for len in 0..=ck.pick(3, 4) {
        sequences(&alphabet, len, &mut |s| {
            if s.iter().filter(|o| **o == Hangup).count() > 1 {
                return;
            }
            scripts.push((s.to_vec(), 0));
            scripts.push(([s, &[Exit]].concat(), 0));
        });
    }
    ck.note("histories", scripts.len());
    explore_all(ck, &scripts, true, 2, |_| false);

    // clients that get asked something themselves, and answer, refuse or do not answer
    let alphabet = [Edit, Pool("ok"), PoolRead, Unknown, Shutdown, Reply(true), Reply(false), Hangup];
    let mut scripts: Vec<(Vec<Op>, usize)> = vec![];
    for len in 0..=ck.pick(3, 4) {
        sequences(&alphabet, len, &mut |s| {
            if s.iter().filter(|o| **o == Hangup).count() > 1 {
                return;
            }
            scripts.push((s.to_vec(), 1));
            scripts.push(([s, &[Exit]].concat(), 1));
        });
    }
    ck.note("histories_with_server_requests", scripts.len());
    explore_all(ck, &scripts, true, 2, |_| true);

    // while projects are loaded
    let scratch = Scratch::new();
    let project = |name: &str, manifest: &str| {
        let d = scratch.0.join(name);
        std::fs::create_dir_all(&d).unwrap();
        std::fs::write(d.join("Dove.toml"), manifest).unwrap();
        d.join("Dove.toml")
    };
    let good = project("good", "[package]\nname = \"x\"\ndependencies = [{ git = \"g\" }]\n");
    let bad = project("bad", "[package\n");
    let gone = project("gone", "[package]\n");
    // this one is removed after it was found
    std::fs::remove_file(&gone).unwrap_or(());
    let sets = [vec![good.clone()], vec![bad.clone()], vec![good, bad, gone.clone()]];
    let ops = [Edit, Pool("ok"), PoolRead, Shutdown];
    let mut scripts: Vec<(Vec<Op>, usize)> = vec![];
    for (k, _) in sets.iter().enumerate() {
        for len in 0..=ck.pick(2, 3) {
            sequences(&ops, len, &mut |s| {
                scripts.push((s.to_vec(), k));
                scripts.push(([s, &[Exit]].concat(), k));
            });
        }
    }
    ck.note("histories_while_loading", scripts.len());
    no_deaths(spread(ck, scripts.len(), |i| {
        let (ops, k) = &scripts[i];
        let states = Arc::new(StateSet::default());
        let (msgs, what) = build(ops, 0);
        let mut s = Script::new(format!("{:?} loading {}", ops, k), msgs);
        s.projects = sets[*k].clone();
        s.hold_loading = true;
        s.batch = 2;
        s.ending = if ops.last() == Some(&Exit) { Ending::ByMessage } else { Ending::Disconnect };
        explore(ck, s, &|| Box::new(ReqJudge::new(what.clone(), true)), &states, u64::MAX);
        ck.add(states.len(), 0, 0);
    }));
}

/// A scratch directory, made by the process that shares out the work and known to the workers.
struct Scratch(std::path::PathBuf, bool);
impl Scratch {
    fn new() -> Scratch {
        const NAME: &str = "MC_SCRATCH";
        if let Some(d) = std::env::var_os(NAME) {
            return Scratch(d.into(), false);
        }
        let d = std::env::temp_dir().join(format!("mls-mc-srv-{}", std::process::id()));
        std::fs::create_dir_all(&d).expect("scratch directory");
        std::env::set_var(NAME, &d);
        Scratch(d, true)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        if self.1 {
            let _ = std::fs::remove_dir_all(&self.0);
        }
    }
}
