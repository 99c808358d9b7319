//! C25: streaming a child's output, over every short script of writes and closings, each write either
//! read on its own or together with the next one.
use crate::project::Scratch;
use mc_core::*;
use std::cell::RefCell;
use std::os::unix::process::ExitStatusExt;
use std::process::Command;
use std::sync::Arc;
use std::time::{Duration, Instant};

/// A step of the child: stream (1 or 2), bytes, whether to wait until the reader sleeps again.
#[derive(Clone, Debug, PartialEq)]
enum Step {
    Write(i32, Vec<u8>),
    Fill(i32, usize, u8),
    Close(i32),
    /// Wait until the reader has taken everything and sleeps.
    Sync,
    /// A signal with a handler arrives at the reader.
    Signal,
    /// The child reads its input to the end.
    ReadInput,
    Exit(i32),
    Kill,
}

fn encode(s: &[Step]) -> Vec<String> {
    s.iter()
        .map(|s| match s {
            Step::Write(f, b) => format!("w{}:{}", f, b.iter().map(|b| format!("{:02x}", b)).collect::<String>()),
            Step::Fill(f, n, every) => format!("f{}:{}:{}", f, n, every),
            Step::Close(f) => format!("c{}", f),
            Step::Sync => "s".into(),
            Step::Signal => "i".into(),
            Step::ReadInput => "r".into(),
            Step::Exit(n) => format!("x{}", n),
            Step::Kill => "k".into(),
        })
        .collect()
}

fn fill(n: usize, every: u8) -> Vec<u8> {
    (0..n).map(|i| if every > 0 && i % (every as usize) == every as usize - 1 { b'\n' } else { b'a' + (i % 26) as u8 }).collect()
}

fn put(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let n = unsafe { libc::write(fd, b.as_ptr() as *const _, b.len()) };
        if n <= 0 {
            std::process::exit(77);
        }
        b = &b[n as usize..];
    }
}

fn sleeping(pid: i32, tid: i32) -> bool {
    match std::fs::read_to_string(format!("/proc/{}/task/{}/stat", pid, tid)) {
        Ok(s) => s.rsplit(')').next().map_or(false, |r| r.trim_start().starts_with('S')),
        Err(_) => true,
    }
}

pub fn child(args: &[String]) {
    let pid = unsafe { libc::getppid() };
    let tid: i32 = args[0].parse().unwrap();
    let mut open = [true; 3];
    for a in &args[1..] {
        let n = |s: &str| s.parse::<i32>().unwrap();
        let (k, rest) = a.split_at(1);
        match k {
            "w" => {
                let (fd, hex) = rest.split_once(':').unwrap();
                let b: Vec<u8> = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
                put(n(fd), &b);
            }
            "f" => {
                let p: Vec<&str> = rest.split(':').collect();
                put(n(p[0]), &fill(p[1].parse().unwrap(), p[2].parse().unwrap()));
            }
            "c" => unsafe {
                let fd = n(rest);
                libc::close(fd);
                open[fd as usize] = false;
            },
            "s" => {
                // a write or close wakes the reader before it returns: when the reader sleeps again it
                // has taken everything
                let t = Instant::now();
                loop {
                    let empty = (1..3).all(|fd| {
                        let mut left: libc::c_int = 0;
                        !open[fd as usize] || unsafe { libc::ioctl(fd, libc::FIONREAD, &mut left) } != 0 || left == 0
                    });
                    if empty && sleeping(pid, tid) {
                        break;
                    }
                    if t.elapsed() > Duration::from_millis(500) {
                        break;
                    }
                    std::thread::yield_now();
                }
            }
            "i" => unsafe {
                libc::syscall(libc::SYS_tgkill, pid, tid, libc::SIGUSR1);
            },
            "r" => {
                let mut b = [0u8; 64];
                while unsafe { libc::read(0, b.as_mut_ptr() as *mut _, 64) } > 0 {}
            }
            "x" => unsafe { libc::_exit(n(rest)) },
            "k" => unsafe {
                libc::kill(libc::getpid(), libc::SIGKILL);
            },
            _ => unreachable!(),
        }
    }
    unsafe { libc::_exit(0) }
}

pub fn c25(ck: &Arc<Check>) {
    let me = std::env::current_exe().unwrap();
    let states = StateSet::default();
    unsafe {
        // signals interrupt system calls; our own input never ends
        extern "C" fn nothing(_: libc::c_int) {}
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = nothing as extern "C" fn(libc::c_int) as usize;
        libc::sigaction(libc::SIGUSR1, &a, std::ptr::null_mut());
        let mut ends = [0; 2];
        assert!(libc::pipe2(ends.as_mut_ptr(), libc::O_CLOEXEC) == 0 && libc::dup2(ends[0], 0) == 0);
    }
    {
        let ck2 = ck.clone();
        watchdog(Duration::from_secs(20), move |case| {
            ck2.violation(case, "streaming_output does not return within 20 s");
            ck2.finish();
        });
    }
    let judge = |script: &[Step]| {
        if ck.stopped() {
            return;
        }
        let enc = encode(script);
        let case = enc.join(" ");
        let mut want: [Vec<u8>; 2] = Default::default();
        let mut status = 0;
        for s in script {
            match s {
                Step::Write(f, b) => want[*f as usize - 1].extend(b),
                Step::Fill(f, n, e) => want[*f as usize - 1].extend(fill(*n, *e)),
                Step::Exit(n) => status = n << 8,
                Step::Kill => status = 9,
                _ => {}
            }
        }
        let lines = |b: &[u8]| String::from_utf8_lossy(b).lines().map(|l| l.to_string()).collect::<Vec<_>>();
        let r = guarded(&case, || {
            let mut cmd = Command::new(&me);
            cmd.arg("--child").arg(unsafe { libc::gettid() }.to_string()).args(&enc);
            let got: RefCell<[Vec<String>; 2]> = Default::default();
            let out = stdx::process::streaming_output(
                cmd,
                &mut |l| got.borrow_mut()[0].push(l.to_string()),
                &mut |l| got.borrow_mut()[1].push(l.to_string()),
            );
            (out, got.into_inner())
        });
        ck.add(0, script.len() as u64, 1);
        let short = |b: &[u8]| if b.len() < 200 { format!("{:?}", String::from_utf8_lossy(b)) } else { format!("{} bytes", b.len()) };
        let bad = match r {
            Err(e) => Some(format!("panic: {}", e)),
            Ok((Err(e), _)) => Some(format!("error: {}", e)),
            Ok((Ok(o), got)) => {
                states.insert(hash64(format!("{:?}{:?}", want, status).as_bytes()));
                if o.stdout != want[0] || o.stderr != want[1] {
                    Some(format!("returned {} and {}, expected {} and {}", short(&o.stdout), short(&o.stderr), short(&want[0]), short(&want[1])))
                } else if o.status.into_raw() != status {
                    Some(format!("status {:?}, expected {}", o.status, status))
                } else {
                    (0..2)
                        .find(|&i| got[i] != lines(&want[i]))
                        .map(|i| format!("lines of stream {}: {} lines {:.300?}, expected {} lines {:.300?}", i + 1, got[i].len(), got[i], lines(&want[i]).len(), lines(&want[i])))
                }
            }
        };
        if let Some(b) = bad {
            ck.violation(&case, &b);
        }
    };
    // every sequence of small writes
    let chunks: &[&[u8]] = &[b"a", b"\n", b"b\nc", b"\xc3", b"\xa9\r\n", b"\r"];
    let mut steps: Vec<Step> = vec![];
    for f in [1, 2] {
        for c in chunks {
            steps.push(Step::Write(f, c.to_vec()));
        }
        steps.push(Step::Close(f));
    }
    steps.push(Step::Exit(3));
    steps.push(Step::Kill);
    let depth = ck.pick(4, 5);
    ck.note("writes", steps.len() as u64);
    ck.note("script_length", depth as u64);
    let valid = |seq: &[usize]| {
        // nothing follows an exit; a closed stream is not used again
        let mut closed = [false; 3];
        for (i, &s) in seq.iter().enumerate() {
            match &steps[s] {
                Step::Exit(_) | Step::Kill => {
                    if i + 1 != seq.len() {
                        return false;
                    }
                }
                Step::Write(f, _) => {
                    if closed[*f as usize] {
                        return false;
                    }
                }
                Step::Close(f) => {
                    if closed[*f as usize] {
                        return false;
                    }
                    closed[*f as usize] = true;
                }
                _ => {}
            }
        }
        true
    };
    judge(&[]);
    par_sequences(steps.len(), depth, |seq| {
        if ck.stopped() || !valid(seq) {
            return false;
        }
        // each step read on its own; and every subset of the waits left out for short scripts
        let n = seq.len();
        let masks: Vec<usize> = if n < depth || ck.thorough { (0..1 << n).collect() } else { vec![0, (1 << n) - 1] };
        for m in masks {
            let mut script = vec![];
            for (i, &s) in seq.iter().enumerate() {
                script.push(steps[s].clone());
                if m >> i & 1 == 1 && !matches!(steps[s], Step::Exit(_) | Step::Kill) {
                    script.push(Step::Sync);
                }
            }
            judge(&script);
            if n == depth && m == (1 << n) - 1 && seq[0] % 5 == 2 && seq[1] == 8 {
                ck.sample(encode(&script).join(" "));
            }
        }
        true
    });
    // with signals and a child that reads its input
    let other = [
        Step::Write(1, b"a".to_vec()),
        Step::Write(2, b"b\nc".to_vec()),
        Step::Write(1, b"\n".to_vec()),
        Step::Close(1),
        Step::Close(2),
        Step::Signal,
        Step::ReadInput,
        Step::Exit(3),
    ];
    par_sequences(other.len(), ck.pick(4, 5), |seq| {
        let steps: Vec<Step> = seq.iter().map(|&i| other[i].clone()).collect();
        for f in [1, 2] {
            let first = steps.iter().position(|s| *s == Step::Close(f)).unwrap_or(steps.len());
            if steps.iter().skip(first + 1).any(|s| *s == Step::Close(f) || matches!(s, Step::Write(g, _) if *g == f)) {
                return false;
            }
        }
        if ck.stopped() || steps.iter().rev().skip(1).any(|s| *s == Step::Exit(3)) {
            return false;
        }
        if !steps.contains(&Step::Signal) && !steps.contains(&Step::ReadInput) {
            return true;
        }
        judge(&steps);
        judge(&steps.iter().flat_map(|s| [Step::Sync, s.clone()]).collect::<Vec<_>>());
        true
    });
    // every byte, alone, in a line and beside one that is taken separately
    par_for(256, |b| {
        let b = b as u8;
        for f in [1, 2] {
            for w in [vec![b], vec![b, b'\n'], vec![b'a', b, b'b', b'\n'], vec![b, b'\n', b, b'\n'], vec![b'\n', b], vec![b' ', b, b' ', b'\n', b'\n', b'x']] {
                judge(&[Step::Write(f, w.clone())]);
                if ck.thorough || b < 33 || b > 125 {
                    for cut in 1..w.len() {
                        judge(&[Step::Write(f, w[..cut].to_vec()), Step::Sync, Step::Write(f, w[cut..].to_vec())]);
                    }
                }
            }
        }
    });
    // text of several bytes per character, cut anywhere; lines that are alike; many lines and many writes
    let text = "é€\u{10400} x\r\n\n  é \n\t\n\u{85}a\u{2028}b\u{c}c\u{b}d\r\re\n\u{feff}f".as_bytes();
    par_for(text.len(), |i| {
        for j in i..text.len() {
            let f = 1 + (i + j) as i32 % 2;
            judge(&[Step::Write(f, text[..i].to_vec()), Step::Sync, Step::Write(f, text[i..j].to_vec()), Step::Sync, Step::Write(f, text[j..].to_vec())]);
        }
    });
    let mut long = vec![];
    for n in [7, 8, 9, 63, 64, 65, 255, 256, 257, ck.pick(400, 2000)] {
        long.push((0..n).map(|_| Step::Write(1, b"same\n".to_vec())).collect::<Vec<_>>());
        for sync in [false, true] {
            let step = |i: usize, b: &[u8]| if sync { vec![Step::Write(1 + (i % 2) as i32, b.to_vec()), Step::Sync] } else { vec![Step::Write(1 + (i % 2) as i32, b.to_vec())] };
            long.push((0..n).flat_map(|i| step(i, b"x")).collect());
            long.push((0..n).flat_map(|i| step(i, b"\n")).collect());
            long.push((0..n).flat_map(|i| step(i, b"a\nb")).collect());
            long.push((0..n).flat_map(|i| step(i * 2, &[b"\xc3", &b"\xa9"[..], b"\r", b"\n"][i % 4])).collect());
        }
    }
    for n in [127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 16_384, 32_768, 65_535, 65_536, 65_537] {
        for every in [0, 1, 2, 80] {
            long.push(vec![Step::Fill(1, n, every), Step::Sync, Step::Fill(1, n, every)]);
            long.push(vec![Step::Fill(2, n, every), Step::Sync, Step::Write(2, b"\n".to_vec()), Step::Write(1, b"x".to_vec())]);
            long.push(vec![Step::Write(1, b"\xc3".to_vec()), Step::Sync, Step::Write(1, b"\xa9".to_vec()), Step::Fill(1, n, every), Step::Close(1), Step::Fill(2, n, every), Step::Exit(255)]);
        }
    }
    long.extend((0..256).map(|n| vec![Step::Write(2, b"e".to_vec()), Step::Exit(n)]));
    par_for(long.len(), |i| judge(&long[i]));
    // more than the pipes hold, on one or both streams, in every order
    let sizes: &[usize] = ck.pick(&[0, 1, 65536, 65537, 300_000][..], &[0, 1, 4096, 65535, 65536, 65537, 131072, 300_000, 3_000_000][..]);
    let mut big = vec![];
    for &a in sizes {
        for &b in sizes {
            for every in [0, 1, 7, 200] {
                for order in 0..4 {
                    let (x, y) = (Step::Fill(1, a, every), Step::Fill(2, b, every));
                    let mut s = match order {
                        0 => vec![x, y],
                        1 => vec![y, x],
                        2 => vec![x.clone(), Step::Sync, y.clone(), Step::Sync, x, y],
                        _ => vec![x, Step::Close(1), y],
                    };
                    s.push(Step::Exit(0));
                    big.push(s);
                }
            }
        }
    }
    par_for(big.len(), |i| judge(&big[i]));
    // things that cannot be started
    let dir = Scratch::new("c25");
    for p in ["missing".to_string(), dir.0.display().to_string()] {
        let r = quiet_catch(|| stdx::process::streaming_output(Command::new(dir.0.join(&p)), &mut |_| {}, &mut |_| {}).is_err());
        ck.add(0, 1, 1);
        if r != Ok(true) {
            ck.violation(&format!("start {}", p), &format!("{:?}", r));
        }
    }
    ck.add(states.len(), 0, 0);
    ck.assume("a reader that sleeps after a write has taken what was written (the wake-up precedes the return of write)");
}
