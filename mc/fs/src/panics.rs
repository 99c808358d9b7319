//! C27: every sequence of entering, leaving and panicking on several threads, run in a child process
//! whose error output is read back.
use mc_core::*;
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::Arc;

/// Operations of one thread.
const OPS: &[&str] = &[
    "enter",
    "leave",
    "panic, caught",            // contexts stay
    "panic out of one context", // the innermost context is left by unwinding
    "panic out of all contexts",
    "enter inside, panic, caught",
    "enter twice, leave one, panic, caught",
    "panic while unwinding runs a guarded panic",
];
/// In long histories only: the thread ends by the panic and another one takes its place.
const DIE: usize = 8;
/// In long histories only: contexts with the same text, long ones, one of several lines, an empty one.
const ALIKE: usize = 9;
const ODD: usize = 10;
const THREADS: usize = 2;

fn marker(n: u64) -> String {
    format!("marker<{}>", n)
}

struct Actor {
    held: Vec<stdx::panic_context::PanicContext>,
}

struct PanicInDrop(u64);
impl Drop for PanicInDrop {
    fn drop(&mut self) {
        // a panic that is caught while another one unwinds
        let n = self.0;
        let _ = std::panic::catch_unwind(move || {
            let _c = stdx::panic_context::enter(format!("CTXNUM<{}>", n));
            panic!("{}", marker(n))
        });
    }
}

impl Actor {
    fn run(&mut self, op: usize, n: u64) {
        use std::panic::{catch_unwind, AssertUnwindSafe};
        let enter = |n: u64| stdx::panic_context::enter(format!("CTXNUM<{}>", n));
        match op {
            0 => self.held.push(enter(n)),
            1 => {
                self.held.pop();
            }
            2 => {
                let _ = catch_unwind(|| panic!("{}", marker(n)));
            }
            3 => {
                let top = self.held.pop();
                let _ = catch_unwind(AssertUnwindSafe(move || {
                    let _top = top;
                    panic!("{}", marker(n))
                }));
            }
            4 => {
                let all = std::mem::take(&mut self.held);
                let _ = catch_unwind(AssertUnwindSafe(move || {
                    let mut all = all;
                    struct Pop<'a>(&'a mut Vec<stdx::panic_context::PanicContext>);
                    impl Drop for Pop<'_> {
                        fn drop(&mut self) {
                            while let Some(c) = self.0.pop() {
                                drop(c)
                            }
                        }
                    }
                    let _p = Pop(&mut all);
                    panic!("{}", marker(n))
                }));
            }
            5 => {
                let _ = catch_unwind(|| {
                    let _a = enter(n);
                    panic!("{}", marker(n))
                });
            }
            6 => {
                let _ = catch_unwind(|| {
                    let _a = enter(n);
                    {
                        let _b = enter(n + 1);
                    }
                    panic!("{}", marker(n))
                });
            }
            DIE => panic!("{}", marker(n)),
            ALIKE => {
                let _ = catch_unwind(|| {
                    let _a = enter(n);
                    let _b = enter(n);
                    {
                        let _c = enter(n);
                    }
                    panic!("{}", marker(n))
                });
            }
            ODD => {
                let _ = catch_unwind(|| {
                    let _a = stdx::panic_context::enter(format!("CTXNUM<{}>\n{}\r\nCTXNUM<{}>", n, "é{}%s ".repeat(20_000), n + 1));
                    let _b = stdx::panic_context::enter(String::new());
                    let _c = enter(n);
                    panic!("{}", marker(n))
                });
            }
            _ => {
                let _ = catch_unwind(|| {
                    let _a = enter(n);
                    let _d = PanicInDrop(n + 1);
                    panic!("{}", marker(n))
                });
            }
        }
    }
}

/// What the operation prints: (marker, contexts).
fn model(stack: &mut Vec<u64>, op: usize, n: u64) -> Vec<(u64, Vec<u64>)> {
    let with = |s: &Vec<u64>, more: &[u64]| s.iter().chain(more).copied().collect::<Vec<_>>();
    match op {
        0 => {
            stack.push(n);
            vec![]
        }
        1 => {
            stack.pop();
            vec![]
        }
        2 => vec![(n, stack.clone())],
        3 => {
            let r = vec![(n, stack.clone())];
            stack.pop();
            r
        }
        4 => {
            let r = vec![(n, stack.clone())];
            stack.clear();
            r
        }
        5 | 6 => vec![(n, with(stack, &[n]))],
        DIE => vec![(n, std::mem::take(stack))],
        ALIKE => vec![(n, with(stack, &[n, n]))],
        ODD => vec![(n, with(stack, &[n, n + 1, n]))],
        _ => vec![(n, with(stack, &[n])), (n + 1, with(stack, &[n, n + 1]))],
    }
}

/// Reads sequences "t.o t.o ..." from stdin, one per line; runs each and prints "END" on stderr.
pub fn child() {
    let mut input = String::new();
    std::io::stdin().read_to_string(&mut input).unwrap();
    for line in input.lines() {
        let actor = || {
            let (tx, rx) = channel::<(usize, u64)>();
            let (dtx, drx) = channel();
            let h = std::thread::spawn(move || {
                let mut a = Actor { held: vec![] };
                for (op, n) in rx {
                    a.run(op, n);
                    dtx.send(()).unwrap();
                }
                while a.held.pop().is_some() {}
            });
            (tx, drx, h)
        };
        let mut actors: Vec<(Sender<(usize, u64)>, Receiver<()>, std::thread::JoinHandle<()>)> = (0..THREADS).map(|_| actor()).collect();
        for (i, step) in line.split(' ').enumerate() {
            let (t, o) = step.split_once('.').unwrap();
            let (t, o): (usize, usize) = (t.parse().unwrap(), o.parse().unwrap());
            while t >= actors.len() {
                actors.push(actor());
            }
            actors[t].0.send((o, i as u64 * 10)).unwrap();
            if actors[t].1.recv().is_err() {
                if o != DIE {
                    std::eprintln!("DIED");
                }
                let _ = std::mem::replace(&mut actors[t], actor()).2.join();
            }
        }
        for (tx, _, h) in actors.drain(..) {
            drop(tx);
            if h.join().is_err() {
                std::eprintln!("DIED");
            }
        }
        std::eprintln!("END");
    }
}

fn numbers(s: &str, tag: &str) -> Vec<u64> {
    let mut out = vec![];
    let mut rest = s;
    while let Some(i) = rest.find(tag) {
        rest = &rest[i + tag.len()..];
        if let Some(j) = rest.find('>') {
            out.extend(rest[..j].parse::<u64>());
        }
    }
    out
}

pub fn c27(ck: &Arc<Check>) {
    let k = OPS.len() * THREADS;
    let depth = ck.pick(5, 6);
    ck.note("operations", OPS.to_vec());
    ck.note("threads", THREADS as u64);
    ck.note("depth", depth as u64);
    let me = std::env::current_exe().unwrap();
    let states = StateSet::default();
    // one child per first two steps; sequences whose first step is on thread 1 mirror the others
    par_for(OPS.len() * k, |ij| {
        if ck.stopped() {
            return;
        }
        let mut seqs: Vec<Vec<usize>> = vec![vec![ij / k, ij % k]];
        let mut from = 0;
        for _ in 2..depth {
            let to = seqs.len();
            for i in from..to {
                for o in 0..k {
                    let mut s = seqs[i].clone();
                    s.push(o);
                    seqs.push(s);
                }
            }
            from = to;
        }
        let seqs: Vec<Vec<(usize, usize)>> = seqs.iter().map(|s| s.iter().map(|o| (o / OPS.len(), o % OPS.len())).collect()).collect();
        run(ck, &states, &seqs);
    });
    long_histories(ck, &states);
    ck.add(states.len(), 0, 0);
}

/// Runs the sequences of (thread, operation) in a child and compares what is printed.
fn run(ck: &Arc<Check>, states: &StateSet, seqs: &[Vec<(usize, usize)>]) {
    let me = std::env::current_exe().unwrap();
    let name = |o: usize| OPS.get(o).copied().unwrap_or_else(|| ["panic, the thread ends", "enter the same twice, panic, caught", "enter odd contexts, panic, caught"][o - DIE]);
    {
        let text: String = seqs
            .iter()
            .map(|s| s.iter().map(|o| format!("{}.{}", o.0, o.1)).collect::<Vec<_>>().join(" ") + "\n")
            .collect();
        let mut c = Command::new(&me)
            .arg("--panics")
            .env("RUST_BACKTRACE", "0")
            .env_remove("CI")
            .stdin(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .unwrap();
        let mut stdin = c.stdin.take().unwrap();
        let w = std::thread::spawn(move || {
            let _ = stdin.write_all(text.as_bytes());
        });
        let mut out = Vec::new();
        c.stderr.take().unwrap().read_to_end(&mut out).unwrap();
        let st = c.wait().unwrap();
        w.join().unwrap();
        let out = String::from_utf8_lossy(&out);
        let mut parts = out.split("END\n");
        for s in seqs {
            let case = || s.iter().map(|o| format!("thread {}: {}", o.0, name(o.1))).collect::<Vec<_>>().join("; ");
            let Some(part) = parts.next() else {
                ck.violation(&case(), &format!("the process ended early with {:?}", st));
                return;
            };
            let mut stacks = vec![vec![]; s.iter().map(|o| o.0 + 1).max().unwrap_or(0).max(THREADS)];
            let mut want = vec![];
            for (i, o) in s.iter().enumerate() {
                want.extend(model(&mut stacks[o.0], o.1, i as u64 * 10));
                states.insert(hash64(format!("{:?}", stacks.iter().map(|s| s.len()).collect::<Vec<_>>()).as_bytes()));
            }
            // the text up to and including each marker belongs to that panic
            let mut got = vec![];
            let mut rest = part;
            while let Some(i) = rest.find("marker<") {
                let end = i + rest[i..].find('>').unwrap() + 1;
                got.push((numbers(&rest[..end], "marker<")[0], numbers(&rest[..end], "CTXNUM<")));
                rest = &rest[end..];
            }
            ck.add(0, s.len() as u64, 1);
            if got != want || rest.contains("CTXNUM<") || part.contains("DIED") {
                ck.violation(&case(), &format!("printed (panic, contexts) {:?}, expected {:?}; output {:?}", got, want, part));
            }
            if hash64(s.iter().flat_map(|o| [o.0 as u8, o.1 as u8]).collect::<Vec<_>>().as_slice()) % 30_011 == 7 {
                ck.sample(case().chars().take(600).collect::<String>());
            }
        }
        if !st.success() {
            ck.violation("child", &format!("ended with {:?}", st));
        }
    }
}

/// Many contexts, many threads, threads that end by a panic.
fn long_histories(ck: &Arc<Check>, states: &StateSet) {
    let mut seqs: Vec<Vec<(usize, usize)>> = vec![];
    for n in [7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, ck.pick(300, 1100)] {
        let enter = |t: usize| vec![(t, 0); n];
        // deep nesting, then everything that panics, after leaving all but few, and again
        for op in 2..=ODD {
            seqs.push([enter(0), vec![(0, op), (0, 2), (1, 2)]].concat());
            seqs.push([enter(0), vec![(0, 1); n - 1], vec![(0, op), (0, 0), (0, 2)]].concat());
            seqs.push([enter(0), vec![(0, 1); n], vec![(0, op), (1, 2)], enter(0), vec![(0, op), (0, 5)]].concat());
            seqs.push([enter(1), vec![(0, op); 3], vec![(1, op), (1, 2), (0, 2)]].concat());
            // entering and leaving in turn, many times; panicking many times
            seqs.push([[(0, 0), (0, 1)].repeat(n), vec![(0, op), (0, 0), (0, 2)]].concat());
            seqs.push([vec![(0, 0); 3], vec![(0, op); n.min(70)], vec![(0, 0), (0, 2)]].concat());
        }
        // panics at every depth
        seqs.push((0..n.min(130)).flat_map(|_| [(0, 0), (0, 2)]).collect());
        seqs.push([enter(0), (0..n.min(130)).flat_map(|_| [(0, 3), (0, 2)]).collect()].concat());
    }
    // many threads with as many contexts each as their number, in turn; each panics
    for n in [3, 5, 8, 9, 16, 17, 33, ck.pick(65, 140)] {
        let enter: Vec<_> = (0..n).flat_map(|t| vec![(t, 0); t % 5]).collect();
        for op in 2..=ODD {
            seqs.push([enter.clone(), (0..n).map(|t| (t, op)).collect(), (0..n).rev().flat_map(|t| [(t, 0), (t, 2)]).collect()].concat());
            seqs.push([enter.clone(), vec![(n / 2, op), (n / 2, 0), (n / 2, 2), (0, 2), (n - 1, 2)]].concat());
        }
    }
    // every short history with these
    for n in 1..=3usize {
        for mut k in 0..22usize.pow(n as u32) {
            let s: Vec<(usize, usize)> = (0..n)
                .map(|_| {
                    let o = k % 22;
                    k /= 22;
                    (o / 11, o % 11)
                })
                .collect();
            if s.iter().any(|o| o.1 >= DIE) {
                seqs.push([s, vec![(0, 2), (1, 2)]].concat());
            }
        }
    }
    // one thread after another
    for n in [2, 3, 9, ck.pick(40, 300)] {
        for k in 0..4 {
            seqs.push((0..n).flat_map(|_| [vec![(0, 0); k], vec![(0, DIE), (0, 2)]].concat()).collect());
            seqs.push((0..n).flat_map(|i| [vec![(i % 3, 0); k], vec![(i % 3, DIE), (1, 2), (2, 5)]].concat()).collect());
        }
    }
    ck.note("long_histories", seqs.len() as u64);
    let chunk = 8;
    par_for((seqs.len() + chunk - 1) / chunk, |i| {
        if !ck.stopped() {
            run(ck, states, &seqs[i * chunk..seqs.len().min((i + 1) * chunk)]);
        }
    });
}
