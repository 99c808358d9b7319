//! Runs the real server loop under a controller: the main thread stops before it waits for an event,
//! every background task stops before each of its computations and before its result is sent, and
//! the controller decides what happens next.
use crossbeam_channel::{unbounded, Receiver, Sender};
use lsp_server::{Connection, Message};
use mc_core::*;
use move_language_server::config::Config;
use move_language_server::verif::{self, Controller, Gate};
use std::collections::HashMap;
use std::convert::TryFrom;
use std::sync::{Arc, Condvar, Mutex, OnceLock};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Phase {
    Queued,
    Running,
    AtBegin,
    /// The number of computations it has made.
    AtCompute(u32),
    AtSend,
    Done,
}

struct Task {
    phase: Phase,
    computed: u32,
    go: bool,
    cv: Arc<Condvar>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Choice {
    Deliver,
    Step(usize),
    Release(Vec<usize>),
    Disconnect,
}

#[derive(Clone)]
pub struct Msg {
    pub message: Message,
    /// It may change a document, so how far the tasks are matters.
    pub writes: bool,
    /// Instead of a message: the client stops reading.
    pub hangup: bool,
}

/// Decides whether a history is right.
pub trait Judge: Send {
    fn delivered(&mut self, _index: usize) {}
    /// The results of these tasks are about to be received, in this order.
    fn released(&mut self, _tasks: &[usize]) {}
    /// The task goes on to its next computation.
    fn computes(&mut self, _task: usize) {}
    /// Task numbers are those of the order in which tasks were started.
    fn started(&mut self, _task: usize) {}
    fn output(&mut self, message: &Message);
    /// Everything was delivered and no background work is left.
    fn quiescent(&mut self) {}
    fn ended(&mut self, _result: &Result<(), String>, _tasks_left: usize) {}
    fn trouble(&mut self) -> Vec<String>;
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ending {
    /// The client disconnects when everything is quiet.
    Quiet,
    /// The client disconnects after the last message, whatever goes on.
    Disconnect,
    /// The last message ends the server.
    ByMessage,
}

pub struct Script {
    pub name: String,
    pub msgs: Vec<Msg>,
    pub caps: lsp_types::ClientCapabilities,
    pub projects: Vec<std::path::PathBuf>,
    pub ending: Ending,
    /// Project loading stops at its gate, too.
    pub hold_loading: bool,
    /// The largest number of results received in one turn of the loop.
    pub batch: usize,
    /// How often a schedule may do something else than receiving all results in order or delivering
    /// the next message.
    pub deviations: usize,
    /// Only two schedules: results are received as soon as possible, or after everything was delivered.
    pub eager_or_lazy: bool,
}

impl Script {
    pub fn new(name: String, msgs: Vec<Msg>) -> Script {
        Script { name, msgs, caps: Default::default(), projects: vec![], ending: Ending::Quiet, hold_loading: false, batch: 3, deviations: usize::MAX, eager_or_lazy: false }
    }
}

/// A choice that was made: which one, and whether the choices are deviations.
#[derive(Clone)]
pub struct Point {
    pub pick: usize,
    deviates: Vec<bool>,
}

struct S {
    tasks: Vec<Task>,
    main_running: bool,
    open: bool,
    delivered: usize,
    stepped: Option<usize>,
    ended: bool,
    prefix: Vec<usize>,
    points: Vec<Point>,
    log: Vec<String>,
    panics: Vec<String>,
    stuck: Option<String>,
    judge: Option<Box<dyn Judge>>,
    client: Option<Sender<Message>>,
    states: u64,
    progress: Instant,
}

pub struct Ctl {
    script: Arc<Script>,
    m: Mutex<S>,
    cv: Condvar,
    output: Mutex<Option<Receiver<Message>>>,
    states: Arc<StateSet>,
}

fn registry() -> &'static Mutex<HashMap<usize, Arc<Ctl>>> {
    static R: OnceLock<Mutex<HashMap<usize, Arc<Ctl>>>> = OnceLock::new();
    R.get_or_init(Default::default)
}
fn address<T: ?Sized>(c: &Arc<T>) -> usize {
    Arc::as_ptr(c) as *const () as usize
}

/// Panics on threads of a server are attributed to its controller.
pub fn install_hook() {
    let prev = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if let Some((c, task)) = verif::current() {
            let msg = format!("{}", info);
            if msg.contains("test panic") {
                return;
            }
            if let Some(c) = registry().lock().unwrap().get(&address(&c)) {
                let who = task.map_or("the main loop".to_string(), |t| format!("task {}", t));
                c.m.lock().unwrap_or_else(|e| e.into_inner()).panics.push(format!("{} panicked: {}", who, msg));
                return;
            }
        }
        prev(info)
    }));
}

/// Pins the calling thread, and those it starts, to one processor; every worker has its own.
fn pin() {
    use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
    static NEXT: AtomicUsize = AtomicUsize::new(0);
    static ALLOWED: OnceLock<Vec<usize>> = OnceLock::new();
    thread_local! { static CPU: usize = worker_index() + NEXT.fetch_add(1, SeqCst); }
    unsafe {
        let allowed = ALLOWED.get_or_init(|| {
            let mut set: libc::cpu_set_t = std::mem::zeroed();
            libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set);
            (0..libc::CPU_SETSIZE as usize).filter(|&c| libc::CPU_ISSET(c, &set)).collect()
        });
        if allowed.is_empty() {
            return;
        }
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(allowed[CPU.with(|c| *c) % allowed.len()], &mut set);
        libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
    }
}

impl Controller for Ctl {
    fn threads(&self) -> usize {
        self.script.msgs.len() + 2
    }
    fn spawned(&self) -> usize {
        let mut s = self.m.lock().unwrap();
        s.tasks.push(Task { phase: Phase::Queued, computed: 0, go: false, cv: Default::default() });
        let t = s.tasks.len() - 1;
        if let Some(j) = &mut s.judge {
            j.started(t);
        }
        t
    }
    fn gate(&self, task: usize, gate: Gate, cancelled: &dyn Fn() -> bool) {
        let mut s = self.m.lock().unwrap();
        s.tasks[task].phase = match gate {
            Gate::Begin if !self.script.hold_loading => {
                s.tasks[task].phase = Phase::Running;
                return;
            }
            Gate::Begin => Phase::AtBegin,
            Gate::Compute => Phase::AtCompute(s.tasks[task].computed),
            Gate::Send => Phase::AtSend,
        };
        s.tasks[task].go = false;
        let cv = s.tasks[task].cv.clone();
        self.cv.notify_all();
        let mut was_cancelled = false;
        while !s.tasks[task].go {
            if s.open {
                drop(s);
                std::thread::sleep(Duration::from_millis(2));
                s = self.m.lock().unwrap();
                break;
            }
            if gate == Gate::Compute && s.main_running {
                drop(s);
                let c = cancelled();
                s = self.m.lock().unwrap();
                if c {
                    was_cancelled = true;
                    break;
                }
                s = cv.wait_timeout(s, Duration::from_micros(200)).unwrap().0;
            } else {
                s = cv.wait(s).unwrap();
            }
        }
        s.tasks[task].phase = Phase::Running;
        s.tasks[task].go = false;
        if gate == Gate::Compute {
            s.tasks[task].computed += 1;
            if was_cancelled {
                s.log.push(format!("task {} interrupted", task));
            }
        }
    }
    fn finished(&self, task: usize, panicked: bool) {
        let mut s = self.m.lock().unwrap_or_else(|e| e.into_inner());
        s.tasks[task].phase = Phase::Done;
        if panicked {
            s.log.push(format!("task {} panicked", task));
        }
        self.cv.notify_all();
    }
    fn before_event(&self, inbox: &dyn Fn() -> usize, results: &dyn Fn() -> usize) {
        {
            let mut s = self.m.lock().unwrap();
            s.main_running = false;
            s.stepped = None;
            s.progress = Instant::now();
        }
        if inbox() == 0 && results() == 0 {
            self.decide(inbox, results);
        }
        let mut s = self.m.lock().unwrap();
        s.main_running = true;
        for t in &s.tasks {
            if matches!(t.phase, Phase::AtCompute(_)) {
                t.cv.notify_all();
            }
        }
    }
    fn joining(&self) {
        let mut s = self.m.lock().unwrap();
        s.open = true;
        s.wake();
    }
}

impl S {
    fn wake(&self) {
        for t in &self.tasks {
            t.cv.notify_all();
        }
    }
}

const PATIENCE: Duration = Duration::from_secs(20);

impl Ctl {
    /// Waits until no task is on its way.
    fn settle(&self) {
        let t = Instant::now();
        let mut s = self.m.lock().unwrap();
        while s.tasks.iter().any(|t| matches!(t.phase, Phase::Queued | Phase::Running) || t.go) && !s.open {
            s = self.cv.wait_timeout(s, Duration::from_millis(100)).unwrap().0;
            if t.elapsed() > PATIENCE {
                s.stuck = Some(format!("a background task does not come to an end: {:?}", s.tasks.iter().map(|t| t.phase).collect::<Vec<_>>()));
                s.open = true;
                s.wake();
                return;
            }
        }
        s.progress = Instant::now();
    }
    fn drain(&self) {
        let mut s = self.m.lock().unwrap();
        let s = &mut *s;
        while let Some(m) = self.output.lock().unwrap().as_ref().and_then(|o| o.try_recv().ok()) {
            s.log.push(show(&m));
            if let Some(j) = &mut s.judge {
                j.output(&m);
            }
        }
    }
    fn go(&self, task: usize) {
        let mut s = self.m.lock().unwrap();
        s.tasks[task].go = true;
        s.tasks[task].cv.notify_all();
    }
    fn choices(&self, s: &S) -> Vec<Choice> {
        let live: Vec<usize> = (0..s.tasks.len()).filter(|&t| matches!(s.tasks[t].phase, Phase::AtCompute(_) | Phase::AtSend)).collect();
        let loading: Vec<usize> = (0..s.tasks.len()).filter(|&t| s.tasks[t].phase == Phase::AtBegin).collect();
        let mut res = vec![];
        if s.stepped.is_none() {
            let n = self.script.batch.min(live.len());
            // the first choice is to receive all results in order
            let mut batches: Vec<Vec<usize>> = vec![];
            fn go(live: &[usize], n: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
                if !cur.is_empty() {
                    out.push(cur.clone());
                }
                if cur.len() == n {
                    return;
                }
                for &t in live {
                    if !cur.contains(&t) {
                        cur.push(t);
                        go(live, n, cur, out);
                        cur.pop();
                    }
                }
            }
            go(&live, n, &mut vec![], &mut batches);
            batches.sort_by_key(|b| std::cmp::Reverse(b.len()));
            res.extend(batches.into_iter().map(Choice::Release));
        }
        let next = self.script.msgs.get(s.delivered);
        let last = s.delivered + 1 == self.script.msgs.len();
        let (fin, steps_matter) = match next {
            Some(m) => (Some(Choice::Deliver), m.writes || last && self.script.ending == Ending::ByMessage),
            None if self.script.ending == Ending::Disconnect => (Some(Choice::Disconnect), true),
            None => (None, false),
        };
        if let Some(f) = fin {
            res.push(f);
            let from = s.stepped.unwrap_or(0);
            if steps_matter {
                for t in 0..s.tasks.len() {
                    if t >= from && (matches!(s.tasks[t].phase, Phase::AtCompute(_)) || s.tasks[t].phase == Phase::AtBegin) {
                        res.push(Choice::Step(t));
                    }
                }
            }
        } else {
            res.extend(loading.into_iter().map(Choice::Step));
        }
        res
    }
    fn decide(&self, inbox: &dyn Fn() -> usize, results: &dyn Fn() -> usize) {
        loop {
            self.settle();
            self.drain();
            let mut s = self.m.lock().unwrap();
            if s.open {
                // something went wrong: let the server end
                s.client = None;
                return;
            }
            let choices = self.choices(&s);
            let key = format!(
                "{}|{}|{:?}|{:?}",
                self.script.name,
                s.delivered,
                s.tasks.iter().map(|t| (t.phase, t.computed)).collect::<Vec<_>>(),
                s.log.iter().filter(|l| l.starts_with('<')).last()
            );
            if self.states.insert(hash64(key.as_bytes())) {
                s.states += 1;
            }
            if s.tasks.iter().all(|t| t.phase == Phase::Done) {
                if let Some(j) = &mut s.judge {
                    j.quiescent();
                }
            }
            if choices.is_empty() {
                s.ended = true;
                s.client = None;
                return;
            }
            let k = s.points.len();
            let pick = match s.prefix.get(k) {
                Some(&LAZY) => choices.iter().position(|c| *c == Choice::Deliver).unwrap_or(0),
                pick => pick.copied().unwrap_or(0).min(choices.len() - 1),
            };
            let deviates = choices.iter().enumerate().map(|(i, c)| i > 0 && !matches!(c, Choice::Deliver | Choice::Disconnect)).collect();
            s.points.push(Point { pick, deviates });
            match choices[pick].clone() {
                Choice::Step(t) => {
                    s.stepped = Some(t);
                    s.log.push(format!("task {} makes a step", t));
                    if let Some(j) = &mut s.judge {
                        j.computes(t);
                    }
                    s.tasks[t].go = true;
                    s.tasks[t].cv.notify_all();
                }
                Choice::Deliver => {
                    let i = s.delivered;
                    s.delivered += 1;
                    if self.script.msgs[i].hangup {
                        s.log.push("> the client stops reading".into());
                        if let Some(j) = &mut s.judge {
                            j.delivered(i);
                        }
                        drop(s);
                        *self.output.lock().unwrap() = None;
                        continue;
                    }
                    let m = self.script.msgs[i].message.clone();
                    let line = show(&m);
                    s.log.push(format!("> {}", line));
                    if let Some(j) = &mut s.judge {
                        j.delivered(i);
                    }
                    if i + 1 == self.script.msgs.len() && self.script.ending == Ending::ByMessage {
                        s.ended = true;
                    }
                    let c = s.client.clone().unwrap();
                    drop(s);
                    let _ = c.send(m);
                    return;
                }
                Choice::Disconnect => {
                    s.log.push("> disconnect".into());
                    s.ended = true;
                    s.client = None;
                    return;
                }
                Choice::Release(batch) => {
                    s.log.push(format!("results of {:?}", batch));
                    drop(s);
                    for &t in &batch {
                        // on to the end
                        loop {
                            let phase = self.m.lock().unwrap().tasks[t].phase;
                            match phase {
                                Phase::AtCompute(_) => {
                                    if let Some(j) = &mut self.m.lock().unwrap().judge {
                                        j.computes(t);
                                    }
                                    self.go(t);
                                    self.settle();
                                }
                                _ => break,
                            }
                            if self.m.lock().unwrap().open {
                                break;
                            }
                        }
                    }
                    if let Some(j) = &mut self.m.lock().unwrap().judge {
                        j.released(&batch);
                    }
                    let mut want = results();
                    for &t in &batch {
                        if self.m.lock().unwrap().tasks[t].phase != Phase::AtSend {
                            continue;
                        }
                        want += 1;
                        self.go(t);
                        self.settle();
                        let start = Instant::now();
                        while results() < want {
                            if start.elapsed() > PATIENCE {
                                self.m.lock().unwrap().stuck = Some(format!("the result of task {} does not arrive", t));
                                break;
                            }
                            std::thread::yield_now();
                        }
                    }
                    if results() > 0 || inbox() > 0 {
                        return;
                    }
                }
            }
        }
    }
}

pub fn show(m: &Message) -> String {
    match m {
        Message::Request(r) => format!("request {:?} {} {}", r.id, r.method, r.params),
        Message::Response(r) => format!(
            "< response {:?} {}",
            r.id,
            match (&r.result, &r.error) {
                (_, Some(e)) => format!("error {} {}", e.code, e.message),
                (Some(v), None) => v.to_string(),
                _ => "nothing".into(),
            }
        ),
        Message::Notification(n) if n.method == "textDocument/publishDiagnostics" => {
            let d = n.params["diagnostics"].as_array().map_or(0, |d| d.len());
            format!("< publish {} version {} with {}", n.params["uri"], n.params["version"], d)
        }
        Message::Notification(n) => format!("notification {} {}", n.method, n.params),
    }
}

pub struct Outcome {
    pub points: Vec<Point>,
    pub log: Vec<String>,
    pub trouble: Vec<String>,
    pub wedged: bool,
}

pub fn run(script: &Arc<Script>, judge: Box<dyn Judge>, prefix: &[usize], states: &Arc<StateSet>) -> Outcome {
    pin();
    let (to_server, inbox) = unbounded();
    let (from_server, output) = unbounded();
    let ctl = Arc::new(Ctl {
        script: script.clone(),
        m: Mutex::new(S {
            tasks: vec![],
            main_running: true,
            open: false,
            delivered: 0,
            stepped: None,
            ended: false,
            prefix: prefix.to_vec(),
            points: vec![],
            log: vec![],
            panics: vec![],
            stuck: None,
            judge: Some(judge),
            client: Some(to_server),
            states: 0,
            progress: Instant::now(),
        }),
        cv: Condvar::new(),
        output: Mutex::new(Some(output)),
        states: states.clone(),
    });
    registry().lock().unwrap().insert(address(&ctl), ctl.clone());
    let (done_tx, done_rx) = std::sync::mpsc::channel();
    let c = ctl.clone();
    let h = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            verif::install(Some(c.clone() as Arc<dyn Controller>));
            let mut config = Config::new(vfs::AbsPathBuf::assert("/".into()), c.script.caps.clone());
            config.discovered_projects = Some(
                c.script
                    .projects
                    .iter()
                    .map(|p| manifest(p))
                    .collect(),
            );
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                move_language_server::main_loop(config, Connection { sender: from_server, receiver: inbox }).map_err(|e| e.to_string())
            }));
            verif::install(None);
            let _ = done_tx.send(r);
        })
        .unwrap();
    let result = loop {
        match done_rx.recv_timeout(Duration::from_secs(1)) {
            Ok(r) => break Some(r),
            Err(_) => {
                let s = ctl.m.lock().unwrap();
                if s.progress.elapsed() > 2 * PATIENCE {
                    break None;
                }
            }
        }
    };
    let mut trouble = vec![];
    let wedged = result.is_none();
    let mut left = 0;
    {
        let mut s = ctl.m.lock().unwrap();
        left += s.tasks.iter().filter(|t| t.phase != Phase::Done).count();
        s.open = true;
        s.wake();
    }
    match result {
        None => trouble.push("the server is stuck: its loop neither waits for an event nor ends".to_string()),
        Some(r) => {
            let _ = h.join();
            let r = r.unwrap_or_else(|_| Err("panic".to_string()));
            // tasks left behind end now
            let t = Instant::now();
            while left > 0 && ctl.m.lock().unwrap().tasks.iter().any(|t| t.phase != Phase::Done) && t.elapsed() < Duration::from_secs(2) {
                std::thread::sleep(Duration::from_millis(1));
            }
            if left > 0 {
                // and may still panic when they send
                std::thread::sleep(Duration::from_millis(20));
            }
            ctl.drain();
            let mut s = ctl.m.lock().unwrap();
            let s = &mut *s;
            if let Some(j) = &mut s.judge {
                j.ended(&r, left);
            }
            if !s.ended {
                trouble.push(format!("the server ended on its own: {:?}", r));
            }
        }
    }
    registry().lock().unwrap().remove(&address(&ctl));
    let mut s = ctl.m.lock().unwrap();
    trouble.extend(s.panics.drain(..));
    trouble.extend(s.stuck.take());
    if let Some(mut j) = s.judge.take() {
        trouble.extend(j.trouble());
    }
    Outcome { points: std::mem::take(&mut s.points), log: std::mem::take(&mut s.log), trouble, wedged }
}

fn manifest(p: &std::path::Path) -> project_model::ProjectManifest {
    project_model::ProjectManifest::from_manifest_file(vfs::AbsPathBuf::try_from(p.to_path_buf()).unwrap()).unwrap()
}

/// A choice in a schedule: deliver if possible.
const LAZY: usize = usize::MAX;

/// Every schedule of the script. Returns how many there are.
pub fn explore(ck: &Arc<Check>, script: Script, judge: &(dyn Fn() -> Box<dyn Judge> + Sync), states: &Arc<StateSet>, limit: u64) -> u64 {
    let script = Arc::new(script);
    let mut stack = vec![vec![]];
    let lazy = vec![LAZY; script.msgs.len()];
    if script.eager_or_lazy {
        stack.push(lazy);
    }
    let mut n = 0;
    while let Some(prefix) = stack.pop() {
        if ck.stopped() {
            break;
        }
        let r = run(&script, judge(), &prefix, states);
        n += 1;
        ck.add(0, r.points.len() as u64, 1);
        if hash64(format!("{}{:?}", script.name, prefix).as_bytes()) % 5003 == 1 {
            ck.sample(format!("{}: {}", script.name, r.log.join("; ")));
        }
        if let Some(t) = r.trouble.first() {
            let sched: Vec<usize> = r.points.iter().map(|p| p.pick).collect();
            ck.violation(&format!("{} schedule {:?}", script.name, sched), &format!("{}\nhistory: {}", t, r.log.join("; ")));
            if r.wedged {
                ck.finish();
            }
            break;
        }
        if script.eager_or_lazy {
            continue;
        }
        let mut deviations = 0;
        for i in 0..r.points.len() {
            let point = &r.points[i];
            for alt in point.pick + 1..if i < prefix.len() { 0 } else { point.deviates.len() } {
                if deviations + point.deviates[alt] as usize > script.deviations {
                    continue;
                }
                let mut p: Vec<usize> = r.points[..i].iter().map(|p| p.pick).collect();
                p.push(alt);
                stack.push(p);
            }
            deviations += point.deviates[point.pick] as usize;
        }
        if n >= limit {
            if !stack.is_empty() {
                ck.bump("scripts_cut_short", 1);
            }
            break;
        }
    }
    n
}
