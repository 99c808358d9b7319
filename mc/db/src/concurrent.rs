//! C22: every interleaving (up to a preemption bound) of a writer with readers of snapshots, at the granularity of
//! the database's own query events.  All threads are real; each one stops at every event until the
//! controller lets it go on.
use crate::incremental::{configs, root_list, shown};
use ide::{Analysis, AnalysisHost};
use ide_db::base_db::salsa::{EventKind, ParallelDatabase, Snapshot};
use ide_db::base_db::{Cancelled, Change, FileId, SourceDatabase};
use ide_db::{LineIndexDatabase, RootDatabase};
use mc_core::*;
use std::collections::VecDeque;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum St {
    Absent,
    Running,
    Parked,
    /// Announced that it may block (a write, or another thread's query).
    Blocking,
    Done,
}

struct State {
    st: Vec<St>,
    tid: Vec<i32>,
    turn: Option<usize>,
    live: usize,
    /// The writer is inside a write.
    writing: bool,
    pending: bool,
    version: usize,
    trouble: Vec<String>,
    log: Vec<String>,
    abort: bool,
}

struct Ctl {
    m: Mutex<State>,
    /// Set by a thread that came out of a wait, before it takes `m`.
    awake: Vec<AtomicBool>,
    cv: Condvar,
}

const HOST: usize = 0;

impl Ctl {
    fn park(&self, me: usize) {
        self.awake[me].store(true, SeqCst);
        let mut s = self.m.lock().unwrap();
        s.st[me] = St::Parked;
        self.cv.notify_all();
        while s.turn != Some(me) && !s.abort {
            s = self.cv.wait(s).unwrap();
        }
        if s.turn == Some(me) {
            s.turn = None;
        }
        s.st[me] = St::Running;
    }
    fn set(&self, me: usize, st: St) {
        self.awake[me].store(st != St::Blocking, SeqCst);
        self.m.lock().unwrap().st[me] = st;
        self.cv.notify_all();
    }
}

fn asleep(tid: i32) -> bool {
    match std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)) {
        Ok(s) => s.rsplit(')').next().map_or(false, |r| r.trim_start().starts_with('S')),
        Err(_) => true,
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum HostOp {
    /// Take a snapshot and hand it to a new reader with this program.
    Reader(usize),
    Apply(usize),
    Empty,
    Cancel,
    RootsChange(usize),
    Query(usize),
    QueryLine(usize),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum ReadOp {
    Diag(usize),
    Line(usize),
    /// Several queries as one operation.
    Mixed,
}

struct Scenario {
    name: &'static str,
    host: Vec<HostOp>,
    readers: Vec<Vec<ReadOp>>,
}

/// Texts of the files in each version.
const VERSIONS: &[[&str; 2]] = &[
    ["module a {}", "$ x"],
    ["module a { $ }", "$ x"],
    ["module a { $ }", "module b { fun }\n"],
    ["é $\n$", "module c {}\n\n"],
];

fn answer(v: usize, op: ReadOp) -> String {
    let t = VERSIONS[v];
    match op {
        ReadOp::Diag(f) => format!("{:?}", crate::incremental::expected(t[f])),
        ReadOp::Line(f) => format!("{:?}", ide_db::LineIndex::new(t[f])),
        ReadOp::Mixed => format!(
            "{:?}",
            (
                t[0],
                syntax::SourceFile::parse(t[1]).errors().len(),
                ide_db::LineIndex::new(t[1]),
                t[1],
                syntax::SourceFile::parse(t[0]).errors().len()
            )
        ),
    }
}

fn ask(a: &Analysis, raw: Option<&Snapshot<RootDatabase>>, op: ReadOp) -> Option<String> {
    match op {
        ReadOp::Diag(f) => a.diagnostics(FileId(f as u32)).ok().map(|d| format!("{:?}", shown(&d))),
        ReadOp::Line(f) => a.file_line_index(FileId(f as u32)).ok().map(|d| format!("{:?}", d)),
        ReadOp::Mixed => {
            let db = raw.unwrap();
            Cancelled::catch(std::panic::AssertUnwindSafe(|| {
                let (x, y) = (FileId(0), FileId(1));
                let a = db.file_text(x);
                let b = db.parse(y).errors().len();
                let c = db.line_index(y);
                let d = db.file_text(y);
                let e = db.parse(x).errors().len();
                format!("{:?}", (&**a, b, &*c, &**d, e))
            }))
            .ok()
        }
    }
}

fn listen(ctl: &Arc<Ctl>, me: usize) {
    let c = ctl.clone();
    ide_db::verif::on_event(Some(Box::new(move |e| match e.kind {
        EventKind::WillBlockOn { .. } => c.set(me, St::Blocking),
        EventKind::WillCheckCancellation | EventKind::WillExecute { .. } | EventKind::DidValidateMemoizedValue { .. } => c.park(me),
    })));
}

fn reader(ctl: Arc<Ctl>, me: usize, a: Analysis, raw: Option<Snapshot<RootDatabase>>, version: usize, prog: Vec<ReadOp>) {
    ctl.m.lock().unwrap().tid[me] = unsafe { libc::gettid() };
    listen(&ctl, me);
    let r = quiet_catch(|| {
        for op in prog {
            ctl.park(me);
            let pending = ctl.m.lock().unwrap().pending;
            let got = ask(&a, raw.as_ref(), op);
            let mut s = ctl.m.lock().unwrap();
            let want = answer(version, op);
            let what = match &got {
                Some(g) if pending => Some(format!("answered {} though a change was already waiting", g)),
                Some(g) if *g != want => Some(format!("answered {}, the snapshot has {}", g, want)),
                None if !s.pending => Some("cancelled though no change is waiting".to_string()),
                _ => None,
            };
            s.log.push(format!("reader {} {:?}: {}", me, op, if got.is_some() { "answer" } else { "cancelled" }));
            if let Some(w) = what {
                s.trouble.push(format!("reader {} of version {}, {:?}: {}", me, version, op, w));
            }
        }
    });
    ctl.park(me);
    ide_db::verif::on_event(None);
    let n = 1 + raw.is_some() as usize;
    // from here on the change may go through
    ctl.m.lock().unwrap().live -= n;
    drop(raw);
    drop(a);
    let mut s = ctl.m.lock().unwrap();
    if let Err(e) = r {
        s.trouble.push(format!("reader {} panicked: {}", me, e));
    }
    s.log.push(format!("reader {} drops its snapshot", me));
    s.st[me] = St::Done;
    drop(s);
    ctl.cv.notify_all();
}

fn host(ctl: Arc<Ctl>, sc: Arc<Scenario>, handles: Arc<Mutex<Vec<std::thread::JoinHandle<()>>>>) {
    ctl.m.lock().unwrap().tid[HOST] = unsafe { libc::gettid() };
    let mut host = AnalysisHost::new();
    let change = |v: usize, old: Option<usize>| {
        let mut ch = Change::new();
        for f in 0..2 {
            if old.map_or(true, |o| VERSIONS[o][f] != VERSIONS[v][f]) {
                ch.change_file(FileId(f as u32), Some(Arc::new(VERSIONS[v][f].to_string())));
            }
        }
        ch
    };
    let mut ch = change(0, None);
    ch.set_roots(root_list(&configs()[2]));
    host.apply_change(ch);
    let mut version = 0;
    let mut next = 1;
    let r = quiet_catch(|| {
        for &op in &sc.host {
            listen(&ctl, HOST);
            ctl.park(HOST);
            match op {
                HostOp::Query(f) | HostOp::QueryLine(f) => {
                    let what = if matches!(op, HostOp::Query(_)) { ReadOp::Diag(f) } else { ReadOp::Line(f) };
                    let got = ask(&host.analysis(), None, what);
                    if got.as_ref() != Some(&answer(version, what)) {
                        ctl.m.lock().unwrap().trouble.push(format!("the writer's own query of version {} gives {:?}", version, got));
                    }
                }
                HostOp::Reader(p) => {
                    let prog = sc.readers[p].clone();
                    let a = host.analysis();
                    let raw = if prog.contains(&ReadOp::Mixed) { Some(host.raw_database().snapshot()) } else { None };
                    let me = next;
                    next += 1;
                    {
                        let mut s = ctl.m.lock().unwrap();
                        s.live += 1 + raw.is_some() as usize;
                        s.st[me] = St::Running;
                        s.log.push(format!("reader {} gets version {}", me, version));
                    }
                    let c = ctl.clone();
                    let h = std::thread::spawn(move || reader(c, me, a, raw, version, prog));
                    handles.lock().unwrap().push(h);
                }
                write => {
                    // inputs are set without yielding: nobody else can run queries then
                    ide_db::verif::on_event(None);
                    let mut new = version;
                    let ch = match write {
                        HostOp::Apply(v) => {
                            new = v;
                            change(v, Some(version))
                        }
                        HostOp::RootsChange(c) => {
                            let mut ch = Change::new();
                            ch.set_roots(root_list(&configs()[c]));
                            ch
                        }
                        _ => Change::new(),
                    };
                    {
                        let mut s = ctl.m.lock().unwrap();
                        s.log.push(format!("writer starts {:?}", op));
                        if s.live > 0 {
                            s.writing = true;
                            ctl.awake[HOST].store(false, SeqCst);
                            s.st[HOST] = St::Blocking;
                        }
                    }
                    ctl.cv.notify_all();
                    if op == HostOp::Cancel {
                        host.request_cancellation();
                    } else {
                        host.apply_change(ch);
                    }
                    ctl.awake[HOST].store(true, SeqCst);
                    let mut s = ctl.m.lock().unwrap();
                    s.st[HOST] = St::Running;
                    if s.live > 0 {
                        let t = format!("{:?} went through while {} snapshots were held", op, s.live);
                        s.trouble.push(t);
                    }
                    s.writing = false;
                    s.pending = false;
                    s.log.push(format!("writer finished {:?}", op));
                    version = new;
                    s.version = new;
                }
            }
        }
    });
    ide_db::verif::on_event(None);
    // the database outlives its snapshots
    {
        let mut s = ctl.m.lock().unwrap();
        s.st[HOST] = St::Done;
        if let Err(e) = r {
            s.trouble.push(format!("the writer panicked: {}", e));
        }
    }
    ctl.cv.notify_all();
    let mut s = ctl.m.lock().unwrap();
    while s.live > 0 && !s.abort {
        s = ctl.cv.wait_timeout(s, Duration::from_millis(50)).unwrap().0;
    }
}

struct Run {
    /// (choices, taken, preemptions before)
    points: Vec<(Vec<usize>, usize, usize)>,
    trouble: Vec<String>,
    log: Vec<String>,
    steps: u64,
    hung: bool,
}

fn run(sc: &Arc<Scenario>, prefix: &[usize], states: &StateSet) -> Run {
    let n = 1 + sc.host.iter().filter(|o| matches!(o, HostOp::Reader(_))).count();
    let ctl = Arc::new(Ctl {
        m: Mutex::new(State {
            st: vec![St::Absent; n],
            tid: vec![0; n],
            turn: None,
            live: 0,
            writing: false,
            pending: false,
            version: 0,
            trouble: vec![],
            log: vec![],
            abort: false,
        }),
        awake: (0..n).map(|_| AtomicBool::new(true)).collect(),
        cv: Condvar::new(),
    });
    let handles = Arc::new(Mutex::new(vec![]));
    ctl.m.lock().unwrap().st[HOST] = St::Running;
    let h = {
        let (c, sc, hs) = (ctl.clone(), sc.clone(), handles.clone());
        std::thread::spawn(move || host(c, sc, hs))
    };
    let mut points: Vec<(Vec<usize>, usize, usize)> = vec![];
    let mut last: Option<usize> = None;
    let mut pre = 0;
    let mut steps = 0;
    let mut pos = vec![0u8; n];
    let mut hung = false;
    'outer: loop {
        // settle: nobody runs; those that announced blocking sleep
        let t = Instant::now();
        let mut s = ctl.m.lock().unwrap();
        loop {
            if t.elapsed() > Duration::from_secs(10) {
                let msg = format!("no progress: {:?}", s.st);
                s.trouble.push(msg);
                hung = true;
                break 'outer;
            }
            if s.st.contains(&St::Running) {
                s = ctl.cv.wait_timeout(s, Duration::from_secs(1)).unwrap().0;
                continue;
            }
            let blocking: Vec<usize> = (0..n).filter(|&i| s.st[i] == St::Blocking).collect();
            if blocking.is_empty() {
                break;
            }
            let tids: Vec<i32> = blocking.iter().map(|&i| s.tid[i]).collect();
            drop(s);
            let mut all = true;
            for _ in 0..3 {
                all = all && tids.iter().all(|&t| asleep(t)) && blocking.iter().all(|&i| !ctl.awake[i].load(SeqCst));
                if !all {
                    break;
                }
                std::thread::yield_now();
            }
            s = ctl.m.lock().unwrap();
            if all && blocking.iter().all(|&i| s.st[i] == St::Blocking) && !s.st.contains(&St::Running) {
                break;
            }
            drop(s);
            std::thread::yield_now();
            s = ctl.m.lock().unwrap();
        }
        if s.st[HOST] == St::Blocking && s.writing {
            if s.live == 0 {
                // about to go through
                drop(s);
                std::thread::yield_now();
                let t = Instant::now();
                while ctl.m.lock().unwrap().st[HOST] == St::Blocking {
                    if t.elapsed() > Duration::from_secs(10) {
                        ctl.m.lock().unwrap().trouble.push("a change does not go through though no snapshot is left".into());
                        hung = true;
                        break 'outer;
                    }
                    std::thread::yield_now();
                }
                continue;
            }
            s.pending = true;
        }
        let ready: Vec<usize> = (0..n).filter(|&i| s.st[i] == St::Parked).collect();
        states.insert(hash64(format!("{}{:?}{:?}{}{}{}", sc.name, pos, s.st, s.live, s.pending, s.version).as_bytes()));
        if ready.is_empty() {
            if s.st.iter().any(|x| *x == St::Blocking) {
                // believed only if it lasts
                let before = s.st.clone();
                let t = Instant::now();
                while s.st == before && t.elapsed() < Duration::from_secs(5) {
                    s = ctl.cv.wait_timeout(s, Duration::from_millis(100)).unwrap().0;
                }
                if s.st != before {
                    continue;
                }
                let msg = format!("deadlock: {:?}", s.st);
                s.trouble.push(msg);
                hung = true;
            }
            break;
        }
        let mut ready = ready;
        // going on with the same thread is the default
        if let Some(l) = last {
            if let Some(i) = ready.iter().position(|&r| r == l) {
                ready.remove(i);
                ready.insert(0, l);
            }
        }
        let k = points.len();
        let pick = prefix.get(k).copied().unwrap_or(0).min(ready.len() - 1);
        points.push((ready.clone(), pick, pre));
        if Some(ready[pick]) != last && last.map_or(false, |l| ready.contains(&l)) {
            pre += 1;
        }
        let me = ready[pick];
        last = Some(me);
        pos[me] = pos[me].wrapping_add(1);
        steps += 1;
        s.turn = Some(me);
        s.st[me] = St::Running;
        drop(s);
        ctl.cv.notify_all();
    }
    {
        let mut s = ctl.m.lock().unwrap();
        s.abort = true;
    }
    ctl.cv.notify_all();
    if !hung {
        let _ = h.join();
        for h in handles.lock().unwrap().drain(..) {
            let _ = h.join();
        }
    }
    let s = ctl.m.lock().unwrap();
    Run { points, trouble: s.trouble.clone(), log: s.log.clone(), steps, hung }
}

fn explore(ck: &Arc<Check>, sc: Arc<Scenario>, bound: usize, budget: Duration, states: &StateSet) -> (u64, bool) {
    let work: Mutex<(VecDeque<Vec<usize>>, usize)> = Mutex::new((VecDeque::from([vec![]]), 0));
    let done = AtomicU64::new(0);
    let start = Instant::now();
    let complete = AtomicBool::new(true);
    std::thread::scope(|scope| {
        for _ in 0..threads() {
            scope.spawn(|| loop {
                let job = {
                    let mut w = work.lock().unwrap();
                    match w.0.pop_back() {
                        Some(j) => {
                            w.1 += 1;
                            Some(j)
                        }
                        None if w.1 == 0 => return,
                        None => None,
                    }
                };
                let Some(prefix) = job else {
                    std::thread::sleep(Duration::from_micros(200));
                    continue;
                };
                if ck.stopped() || start.elapsed() > budget {
                    if start.elapsed() > budget {
                        complete.store(false, SeqCst);
                    }
                    work.lock().unwrap().1 -= 1;
                    continue;
                }
                let r = run(&sc, &prefix, states);
                let n = done.fetch_add(1, SeqCst);
                ck.add(0, r.steps, 1);
                if n % 4001 == 17 {
                    ck.sample(format!("{}: {}", sc.name, r.log.join("; ")));
                }
                if let Some(t) = r.trouble.first() {
                    let sched: Vec<usize> = r.points.iter().map(|p| p.0[p.1]).collect();
                    ck.violation(&format!("{} schedule {:?}", sc.name, sched), &format!("{}\nhistory: {}", t, r.log.join("; ")));
                    if r.hung {
                        // stuck threads stay behind: do not go on in this process
                        ck.finish();
                    }
                }
                let mut w = work.lock().unwrap();
                for (i, (ready, pick, pre)) in r.points.iter().enumerate().skip(prefix.len()) {
                    let preempts = i > 0 && {
                        let prev = r.points[i - 1].0[r.points[i - 1].1];
                        ready[0] == prev
                    };
                    for alt in pick + 1..ready.len() {
                        if preempts && pre + 1 > bound {
                            continue;
                        }
                        let mut p: Vec<usize> = r.points[..i].iter().map(|p| p.1).collect();
                        p.push(alt);
                        w.0.push_back(p);
                    }
                }
                w.1 -= 1;
            });
        }
    });
    (done.load(SeqCst), complete.load(SeqCst))
}

pub fn c22(ck: &Arc<Check>) {
    use HostOp::*;
    use ReadOp::*;
    let scenarios = vec![
        Scenario { name: "one reader, one change", host: vec![Reader(0), Apply(1), Query(0)], readers: vec![vec![Diag(0), Line(0), Diag(1)]] },
        Scenario { name: "several queries as one", host: vec![Reader(0), Apply(2), Reader(0)], readers: vec![vec![Mixed]] },
        Scenario { name: "two readers of one file", host: vec![Reader(0), Reader(1), Apply(1)], readers: vec![vec![Diag(0)], vec![Diag(0), Line(0)]] },
        Scenario { name: "reader of the old and of the new state", host: vec![Reader(0), Apply(2), Reader(1)], readers: vec![vec![Diag(0), Diag(1)], vec![Diag(1), Diag(0)]] },
        Scenario { name: "two changes", host: vec![Query(0), Reader(0), Apply(1), Reader(0), Apply(3), Query(1)], readers: vec![vec![Diag(1), Diag(0)]] },
        Scenario { name: "empty change", host: vec![Query(0), Reader(0), Empty, Reader(0), Query(0)], readers: vec![vec![Diag(0), Line(1)]] },
        Scenario { name: "cancellation request", host: vec![Reader(0), Cancel, Reader(1), Cancel], readers: vec![vec![Diag(0), Diag(1)], vec![Line(0)]] },
        Scenario { name: "roots change", host: vec![Query(0), Query(1), Reader(0), RootsChange(3), Apply(2), Reader(1)], readers: vec![vec![Diag(1), Diag(0)], vec![Diag(0), Diag(1)]] },
        Scenario { name: "validated memos", host: vec![Query(0), Query(1), Apply(1), Reader(0), Reader(1), Apply(3)], readers: vec![vec![Diag(1)], vec![Diag(1), Diag(0)]] },
        Scenario { name: "mixed readers", host: vec![Reader(0), Reader(1), Apply(2), Query(0)], readers: vec![vec![Mixed], vec![Diag(1)]] },
        Scenario { name: "a reader started while the first one runs, two changes", host: vec![Reader(0), Query(0), Reader(1), Apply(1), Reader(0), Apply(2), Reader(1)], readers: vec![vec![Diag(0), Line(1)], vec![Diag(1), Diag(0)]] },
        Scenario { name: "three readers", host: vec![Reader(0), Reader(1), Reader(2), Apply(3), Query(1)], readers: vec![vec![Diag(0)], vec![Diag(1), Diag(0)], vec![Line(0)]] },
        Scenario { name: "change back", host: vec![Query(0), Query(1), Reader(0), Apply(1), Reader(0), Apply(0), Reader(0), Apply(2), Reader(0)], readers: vec![vec![Diag(0), Diag(1), Line(0)]] },
        Scenario { name: "change of one of two files", host: vec![Query(0), Query(1), Apply(2), Reader(0), Reader(1), Apply(1), Reader(0), Query(0)], readers: vec![vec![Mixed], vec![Line(1), Diag(1)]] },
        Scenario { name: "validated memos of lines", host: vec![QueryLine(0), QueryLine(1), Apply(1), Reader(0), Apply(2), Reader(1), QueryLine(1)], readers: vec![vec![Line(1), Line(0)], vec![Line(1), Diag(1)]] },
        Scenario { name: "validated memos of diagnostics", host: vec![Query(1), QueryLine(1), Apply(1), Reader(0), Apply(2), Reader(1), Query(1)], readers: vec![vec![Diag(1), Line(1)], vec![Diag(1)]] },
        Scenario { name: "validated memos, two readers", host: vec![QueryLine(1), Query(1), Apply(1), Reader(0), Reader(1), Apply(2), Reader(0), Apply(1), Reader(1)], readers: vec![vec![Line(1)], vec![Diag(1)]] },
        Scenario { name: "validated memos, roots change", host: vec![QueryLine(0), Query(0), RootsChange(3), Reader(0), Apply(1), Reader(1), RootsChange(2), Reader(1)], readers: vec![vec![Line(0), Diag(0)], vec![Diag(0), Line(0)]] },
    ];
    let bound = ck.pick(4, 8);
    let total = ck.pick(Duration::from_secs(400), Duration::from_secs(3000));
    ck.note("preemption_bound", bound as u64);
    let states = StateSet::default();
    let mut all = true;
    let start = Instant::now();
    let mut per = vec![];
    for sc in scenarios {
        let name = sc.name;
        let (count, complete) = explore(ck, Arc::new(sc), bound, total.saturating_sub(start.elapsed()), &states);
        per.push(json!({"scenario": name, "schedules": count, "complete": complete}));
        all &= complete;
        if ck.stopped() {
            break;
        }
    }
    ck.note("scenarios", per);
    ck.note("exhaustive", all && !ck.stopped());
    ck.add(states.len(), 0, 0);
    ck.assume("the database library (salsa) reports its steps through its event callback; code between two events runs as one step");
}
