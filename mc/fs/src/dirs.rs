//! C20: directory filters against the longest-match rule.
use mc_core::*;
use paths::{AbsPath, AbsPathBuf};
use std::sync::Arc;
use vfs::loader::{Directories, Entry};

fn abs(s: &str) -> AbsPathBuf {
    AbsPathBuf::assert(s.into())
}
fn comps(s: &str) -> Vec<&str> {
    s.split('/').filter(|c| !c.is_empty() && *c != ".").collect()
}
fn prefix(p: &str, of: &str) -> Option<usize> {
    let (a, b) = (comps(p), comps(of));
    if a.len() <= b.len() && b[..a.len()] == a[..] { Some(a.len()) } else { None }
}
fn ext(p: &str) -> &str {
    let name = comps(p).last().copied().unwrap_or("");
    match name.rfind('.') {
        None | Some(0) => "",
        Some(i) => &name[i + 1..],
    }
}
fn included(inc: &[&str], exc: &[&str], p: &str) -> bool {
    let longest = inc.iter().filter_map(|i| prefix(i, p)).max();
    let excl = exc.iter().filter_map(|e| prefix(e, p)).max();
    match (longest, excl) {
        (None, _) => false,
        (Some(_), None) => true,
        (Some(i), Some(e)) => i > e,
    }
}

pub fn c20(ck: &Arc<Check>) {
    let dirs = ["/", "/a", "/a/b", "/a/b/c", "/a/bc", "/ab", "/c", "/a/b/f.rs", "/a//b/"];
    let files = [
        "/f.rs", "/a", "/a/f.rs", "/a/b", "/a/b/f.rs", "/a/b/f", "/a/b/.rs", "/a/b/f.rs.x", "/a/b/c", "/a/b/c/f.rs", "/a/b/c/f.move",
        "/a/b/c/d/f.rs", "/a/bc/f.rs", "/ab/f.rs", "/c/f.rs", "/c/f.RS", "/c/rs", "/", "/a/b/c/f.", "/a/b/f.mrs", "/a/b/f.rs2",
    ];
    let exts: [&[&str]; 5] = [&[], &["rs"], &["move", "rs"], &["x"], &["s"]];
    let maxes = ck.pick((3, 3), (4, 3));
    let mut lists: Vec<Vec<&str>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..maxes.0.max(maxes.1) {
        let to = lists.len();
        for i in from..to {
            for d in dirs {
                let mut l = lists[i].clone();
                l.push(d);
                lists.push(l);
            }
        }
        from = to;
    }
    ck.note("directories", dirs.to_vec());
    ck.note("paths", files.to_vec());
    let judge = |what: &str, e: &Entry, x: &[&str], inc: &[&str], exc: &[&str], p: &str, q: &AbsPath| {
        let want_dir = included(inc, exc, p);
        let want_file = want_dir && x.contains(&ext(p));
        // whether a name without extension has the empty extension is not judged
        let got = quiet_catch(|| (e.contains_file(q), e.contains_dir(q)));
        ck.add(0, 2, 1);
        if got != Ok((want_file, want_dir)) {
            ck.violation(
                &format!("{} extensions {:?} include {:?} exclude {:?}: {}", what, x, inc, exc, p),
                &format!("(contains_file, contains_dir) is {:?}, expected {:?}", got, (want_file, want_dir)),
            );
        }
    };
    let qs: Vec<AbsPathBuf> = files.iter().map(|f| abs(f)).collect();
    par_for(lists.len(), |i| {
        let inc = &lists[i];
        if inc.len() > maxes.0 {
            return;
        }
        for exc in &lists {
            if exc.len() > maxes.1 || ck.stopped() {
                continue;
            }
            // the extension test is orthogonal: all extension lists only for short lists
            let xs = if inc.len() + exc.len() <= 2 { &exts[..] } else { &exts[1..2] };
            for x in xs {
                let d = Directories {
                    extensions: x.iter().map(|s| s.to_string()).collect(),
                    include: inc.iter().map(|s| abs(s)).collect(),
                    exclude: exc.iter().map(|s| abs(s)).collect(),
                };
                let e = Entry::Directories(d);
                ck.add(1, 0, 0);
                for (p, q) in files.iter().zip(&qs) {
                    judge("", &e, x, inc, exc, p, q);
                }
            }
            if inc.len() == 2 && exc.len() == 1 && i % 7 == 0 {
                ck.sample(format!("include {:?} exclude {:?}", inc, exc));
            }
        }
    });
    // many directories, deep ones, and names of every kind
    let chain: Vec<String> = (0..ck.pick(70, 300)).map(|n| "/a".repeat(n) + if n == 0 { "/" } else { "" }).collect();
    let wide: Vec<String> = (0..ck.pick(300, 1000)).map(|n| format!("/d{}", n)).collect();
    let check = |inc: &[&str], exc: &[&str], paths: &[String]| {
        if ck.stopped() {
            return;
        }
        let d = Directories { extensions: vec!["rs".into()], include: inc.iter().map(|s| abs(s)).collect(), exclude: exc.iter().map(|s| abs(s)).collect() };
        let e = Entry::Directories(d);
        ck.add(1, 0, 0);
        for p in paths {
            judge("", &e, &["rs"], inc, exc, p, &abs(p));
        }
    };
    let below: Vec<String> = chain.iter().flat_map(|c| vec![format!("{}/f.rs", c), format!("{}b/f.rs", c)]).collect();
    for step in [1, 2, 3, 64] {
        for rev in [false, true] {
            for offset in 0..2 {
                let mut inc: Vec<&str> = chain.iter().step_by(step).map(|s| s.as_str()).collect();
                let mut exc: Vec<&str> = chain.iter().skip(offset).step_by(step + offset).map(|s| s.as_str()).collect();
                if rev {
                    inc.reverse();
                    exc.reverse();
                }
                check(&inc, &exc, &below);
                check(&exc, &inc, &below);
            }
        }
    }
    for i in 0..chain.len() {
        for j in [0, i / 2, i.saturating_sub(1), i, (i + 1).min(chain.len() - 1), chain.len() - 1] {
            check(&[&chain[i]], &[&chain[j]], &[below[2 * i].clone(), below[2 * j].clone(), below[2 * i + 1].clone(), below[below.len() - 1].clone()]);
        }
    }
    let files_wide: Vec<String> = wide.iter().flat_map(|c| vec![format!("{}/f.rs", c), format!("{}/x/f.rs", c), format!("{}/x/y/f.rs", c)]).collect();
    let wide_x: Vec<String> = wide.iter().map(|c| format!("{}/x", c)).collect();
    for n in [8, 9, 16, 17, 32, 33, 64, 65, 128, 129, 256, 257, wide.len()] {
        let n = n.min(wide.len());
        let inc: Vec<&str> = wide[..n].iter().map(|s| s.as_str()).collect();
        let exc: Vec<&str> = wide_x[..n].iter().map(|s| s.as_str()).collect();
        check(&inc, &exc, &files_wide);
        check(&inc, &exc[n - 1..], &files_wide);
        check(&inc[n - 1..], &exc, &files_wide);
        check(&["/"], &exc, &files_wide);
        check(&inc, &["/"], &files_wide);
        check(&exc, &inc, &files_wide);
        let all: Vec<&str> = inc.iter().chain(&exc).copied().collect();
        check(&all, &inc, &files_wide);
        check(&all, &exc, &files_wide);
    }
    let long = format!("/{}", "n".repeat(300));
    let long2 = format!("/{}m", "n".repeat(299));
    let names = ["/A", "/a", "/a ", "/ a", "/a.b", "/.a", "/é", "/e\u{301}", "/É", "/...", "/..a", "/a\\b", "/%61", "/~", "/C:", "/\u{10400}", "/\n", &long, &long2];
    for a in names {
        for b in names {
            let ab = format!("{}{}", a, b);
            let paths: Vec<String> = names
                .iter()
                .flat_map(|c| vec![format!("{}/f.rs", c), format!("{}{}/f.rs", a, c), format!("{}{}/g{}/f.rs", a, b, c), format!("{}.rs", c), format!("{}{}.rs", a, c), c.to_string()])
                .collect();
            check(&[a], &[b], &paths);
            check(&[&ab], &[a], &paths);
            check(&[a], &[&ab], &paths);
            check(&[a, b], &[&ab], &paths);
            check(&["/", &ab], &[a, b], &paths);
        }
    }
    // extensions of every kind
    let es = ["rs", "RS", "r", "s", "rss", "move", "m", "é", "e\u{301}", "a b", "rs~", "0", &long[1..]];
    for a in es {
        for b in es {
            let d = Directories { extensions: vec![a.into(), b.into()], include: vec![abs("/a")], exclude: vec![abs("/a/x")] };
            let e = Entry::Directories(d);
            ck.add(1, 0, 0);
            for c in es {
                for stem in ["f", "f.rs", ".f", "f.g.h", " ", "é", &long[1..]] {
                    let p = format!("/a/{}.{}", stem, c);
                    judge("", &e, &[a, b], &["/a"], &["/a/x"], &p, &abs(&p));
                }
            }
        }
    }
    let many: Vec<String> = (0..300).map(|i| format!("e{}", i)).collect();
    let many_refs: Vec<&str> = many.iter().map(|s| s.as_str()).collect();
    let e = Entry::Directories(Directories { extensions: many.clone(), include: vec![abs("/a")], exclude: vec![] });
    for i in 0..302 {
        let p = format!("/a/f.e{}", i);
        judge("", &e, &many_refs, &["/a"], &[], &p, &abs(&p));
    }
    let listed: Vec<String> = (0..700).step_by(2).map(|i| format!("/l{}", i)).collect();
    let e = Entry::Files(listed.iter().map(|f| abs(f)).collect());
    for i in 0..702 {
        let p = format!("/l{}", i);
        let want = (i % 2 == 0 && i < 700, false);
        let got = quiet_catch(|| (e.contains_file(&abs(&p)), e.contains_dir(&abs(&p))));
        ck.add(0, 2, 1);
        if got != Ok(want) {
            ck.violation(&format!("350 files: {}", p), &format!("got {:?}, expected {:?}", got, want));
        }
    }
    // constructed filters
    for base in ["/", "/p", "/p/q"] {
        let j = |s: &str| format!("{}/{}", base.trim_end_matches('/'), s);
        let (git, target) = (j(".git"), j("target"));
        let made: [(&str, Entry, Vec<&str>); 3] = [
            ("rs_files_recursively", Entry::rs_files_recursively(abs(base)), vec![&git]),
            ("local_cargo_package", Entry::local_cargo_package(abs(base)), vec![&git, &target]),
            ("cargo_package_dependency", Entry::cargo_package_dependency(abs(base)), vec![&git, "/tests", "/examples", "/benches"]),
        ];
        for (name, e, exc) in &made {
            for b in ["/", "/p", "/p/q", "/pq"] {
                for d in ["", "/.git", "/target", "/tests", "/examples", "/benches", "/src", "/.github", "/targets", "/src/target"] {
                    for f in ["", "/f.rs", "/f.move", "/f", "/g/f.rs"] {
                        let p = format!("{}{}{}", b.trim_end_matches('/'), d, f);
                        let p = if p.is_empty() { "/".to_string() } else { p };
                        ck.add(1, 0, 0);
                        judge(name, e, &["rs"], &[base], exc, &p, &abs(&p));
                    }
                }
            }
        }
    }
    for n in 0..=3usize {
        for m in 0..files.len().pow(n as u32).min(9261) {
            let mut k = m;
            let list: Vec<&str> = (0..n)
                .map(|_| {
                    let f = files[k % files.len()];
                    k /= files.len();
                    f
                })
                .collect();
            let e = Entry::Files(list.iter().map(|f| abs(f)).collect());
            ck.add(1, 0, 0);
            for (p, q) in files.iter().zip(&qs) {
                let want = list.iter().any(|l| comps(l) == comps(p));
                ck.add(0, 2, 1);
                let got = quiet_catch(|| (e.contains_file(q), e.contains_dir(q)));
                if got != Ok((want, false)) {
                    ck.violation(&format!("files {:?}: {}", list, p), &format!("got {:?}, expected {:?}", got, (want, false)));
                }
            }
        }
    }
}
