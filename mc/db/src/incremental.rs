//! C21: every sequence of changes and queries on one database against a fresh one.
use ide::{Analysis, AnalysisHost};
use ide_db::base_db::{salsa::ParallelDatabase, Change, FileId, FileSet, SourceDatabase, SourceRoot, SourceRootId, VfsPath};
use ide_db::{LineIndex, LineIndexDatabase, RootDatabase};
use mc_core::*;
use std::sync::Arc;
use syntax::SourceFile;

pub const N_FILES: usize = 2;

/// Owner of every file and whether each root is a library.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Roots {
    pub owner: [usize; N_FILES],
    pub library: Vec<bool>,
}

pub fn root_list(r: &Roots) -> Vec<SourceRoot> {
    r.library
        .iter()
        .enumerate()
        .map(|(i, &lib)| {
            let mut set = FileSet::default();
            for f in 0..N_FILES {
                if r.owner[f] == i {
                    set.insert(FileId(f as u32), VfsPath::new_virtual_path(format!("/f{}.move", f)));
                }
            }
            if lib { SourceRoot::new_library(set) } else { SourceRoot::new_local(set) }
        })
        .collect()
}

pub fn configs() -> Vec<Roots> {
    vec![
        Roots { owner: [0, 0], library: vec![false] },
        Roots { owner: [0, 0], library: vec![true] },
        Roots { owner: [0, 1], library: vec![false, true] },
        Roots { owner: [1, 0], library: vec![false, true] },
    ]
}

/// The diagnostics a text must have, from a parse of its own.
pub fn expected(text: &str) -> Vec<String> {
    SourceFile::parse(text)
        .errors()
        .iter()
        .take(128)
        .map(|e| format!("syntax-error {:?} Error Syntax Error: {}", e.range(), e))
        .collect()
}

pub fn shown(d: &[ide_diagnostics_shape::D]) -> Vec<String> {
    d.iter().map(|d| format!("{} {:?} {:?} {}", d.code.as_str(), d.range, d.severity, d.message)).collect()
}

pub mod ide_diagnostics_shape {
    pub use ide_diagnostics::Diagnostic as D;
}

pub fn long_text() -> String {
    for unit in ["1 ", "$ ", "fun ", "struct ", "module "] {
        for pre in ["", "module a { "] {
            let t = format!("{}{}", pre, unit.repeat(400));
            let n = SourceFile::parse(&t).errors().len();
            if n > 130 {
                return t;
            }
        }
    }
    "$".repeat(400)
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Set(usize, usize),
    /// Both files in one change.
    Swap,
    Remove(usize),
    Roots(usize),
    /// New roots and new texts in one change.
    RootsAndText(usize, usize),
    Diagnostics(usize),
    Parse(usize),
    LineIndex(usize),
    Snapshot(usize),
    Lru(usize),
    Cancel,
    Empty,
}

pub fn c21(ck: &Arc<Check>) {
    let long = long_text();
    let texts: Vec<String> = vec![
        String::new(),
        "module a { fun f() { 1; } }".into(),
        "module a { fun f( { 1; } }\n$ é".into(),
        long,
    ];
    let base: Vec<(Vec<String>, LineIndex, String)> =
        texts.iter().map(|t| (expected(t), LineIndex::new(t), SourceFile::parse(t).debug_dump())).collect();
    ck.note("errors_in_the_longest_list", SourceFile::parse(&texts[3]).errors().len() as u64);
    let cfgs = configs();
    let mut ops = vec![];
    for f in 0..N_FILES {
        for t in 1..texts.len() {
            ops.push(Op::Set(f, t));
        }
        ops.push(Op::Remove(f));
        ops.push(Op::Diagnostics(f));
        ops.push(Op::LineIndex(f));
        ops.push(Op::Parse(f));
    }
    for c in 0..cfgs.len() {
        ops.push(Op::Roots(c));
    }
    ops.extend([Op::Swap, Op::RootsAndText(1, 1), Op::RootsAndText(3, 2), Op::Snapshot(0), Op::Lru(0), Op::Lru(1), Op::Cancel, Op::Empty]);
    ck.note("operations", ops.iter().map(|o| format!("{:?}", o)).collect::<Vec<_>>());
    let depth = ck.pick(4, 5);
    ck.note("depth", depth as u64);
    let states = StateSet::default();
    let arcs: Vec<Arc<String>> = texts.iter().map(|t| Arc::new(t.clone())).collect();

    let compare = |db: &RootDatabase, a: &Analysis, f: usize, t: usize, cfg: &Roots| -> Result<(), String> {
        let id = FileId(f as u32);
        let (errs, idx, dump) = &base[t];
        if *db.file_text(id) != texts[t] {
            return Err(format!("text of file {} is {:?}, expected {:?}", f, db.file_text(id), texts[t]));
        }
        let p = db.parse(id);
        if p.debug_dump() != *dump {
            return Err(format!("tree of file {} is not that of {:?}", f, texts[t]));
        }
        if *db.line_index(id) != *idx {
            return Err(format!("line index of file {} is not that of {:?}", f, texts[t]));
        }
        let d = a.diagnostics(id).map_err(|_| "query cancelled although nothing is being written".to_string())?;
        if shown(&d) != *errs {
            return Err(format!("diagnostics of file {}: {:?}, expected {:?}", f, shown(&d), errs));
        }
        if d.iter().any(|d| d.unused || d.experimental) {
            return Err("flags set on a syntax error".into());
        }
        if *a.file_line_index(id).map_err(|_| "cancelled".to_string())? != *idx {
            return Err(format!("file_line_index of file {}", f));
        }
        let root = db.file_source_root(id);
        if root != SourceRootId(cfg.owner[f] as u32) {
            return Err(format!("file {} belongs to {:?}, expected root {}", f, root, cfg.owner[f]));
        }
        Ok(())
    };

    par_sequences(ops.len(), depth, |seq| {
        if ck.stopped() {
            return false;
        }
        let case = || seq.iter().map(|&o| format!("{:?}", ops[o])).collect::<Vec<_>>().join("; ");
        let r = quiet_catch(|| -> Result<(), String> {
            let mut host = AnalysisHost::new();
            let mut cur = [1usize, 2];
            let mut cfg = cfgs[0].clone();
            let mut ch = Change::new();
            ch.set_roots(root_list(&cfg));
            for f in 0..N_FILES {
                ch.change_file(FileId(f as u32), Some(arcs[cur[f]].clone()));
            }
            host.apply_change(ch);
            for &o in seq {
                let mut ch = Change::new();
                match ops[o] {
                    Op::Set(f, t) => {
                        ch.change_file(FileId(f as u32), Some(arcs[t].clone()));
                        cur[f] = t;
                    }
                    Op::Remove(f) => {
                        ch.change_file(FileId(f as u32), None);
                        cur[f] = 0;
                    }
                    Op::Swap => {
                        cur.swap(0, 1);
                        for f in 0..N_FILES {
                            ch.change_file(FileId(f as u32), Some(arcs[cur[f]].clone()));
                        }
                    }
                    Op::Roots(c) => {
                        cfg = cfgs[c].clone();
                        ch.set_roots(root_list(&cfg));
                    }
                    Op::RootsAndText(c, t) => {
                        cfg = cfgs[c].clone();
                        ch.set_roots(root_list(&cfg));
                        // twice in one change: the last one counts
                        ch.change_file(FileId(1), Some(arcs[3 - t].clone()));
                        ch.change_file(FileId(1), Some(arcs[t].clone()));
                        cur[1] = t;
                    }
                    Op::Empty => {}
                    Op::Cancel => {
                        host.request_cancellation();
                        continue;
                    }
                    Op::Lru(n) => {
                        host.raw_database_mut().update_lru_capacity(Some(n));
                        continue;
                    }
                    q => {
                        let a = host.analysis();
                        let db = host.raw_database();
                        match q {
                            Op::Diagnostics(f) => {
                                let d = a.diagnostics(FileId(f as u32)).map_err(|_| "cancelled".to_string())?;
                                if shown(&d) != base[cur[f]].0 {
                                    return Err(format!("diagnostics of file {}: {:?}, expected {:?}", f, shown(&d), base[cur[f]].0));
                                }
                            }
                            Op::LineIndex(f) => {
                                if *db.line_index(FileId(f as u32)) != base[cur[f]].1 {
                                    return Err(format!("line index of file {}", f));
                                }
                            }
                            Op::Parse(f) => {
                                if db.parse(FileId(f as u32)).debug_dump() != base[cur[f]].2 {
                                    return Err(format!("tree of file {}", f));
                                }
                            }
                            _ => {
                                let s = db.snapshot();
                                for f in 0..N_FILES {
                                    if *s.file_text(FileId(f as u32)) != texts[cur[f]] || *s.line_index(FileId(f as u32)) != base[cur[f]].1 {
                                        return Err(format!("snapshot of file {}", f));
                                    }
                                }
                            }
                        }
                        continue;
                    }
                }
                host.apply_change(ch);
            }
            states.insert(hash64(format!("{:?}{:?}", cur, cfg).as_bytes()));
            let a = host.analysis();
            let db = host.raw_database();
            for round in 0..2 {
                for f in 0..N_FILES {
                    compare(db, &a, f, cur[f], &cfg).map_err(|e| if round == 0 { e } else { format!("asked again: {}", e) })?;
                }
            }
            for (i, root) in root_list(&cfg).iter().enumerate() {
                let id = SourceRootId(i as u32);
                if *db.source_root(id) != *root {
                    return Err(format!("contents of root {}", i));
                }
                if db.library_roots().contains(&id) != root.is_library || db.local_roots().contains(&id) == root.is_library {
                    return Err(format!("kind of root {}", i));
                }
            }
            if db.library_roots().len() + db.local_roots().len() != cfg.library.len() {
                return Err("number of roots".into());
            }
            Ok(())
        });
        ck.add(0, seq.len() as u64, 1);
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => ck.violation(&case(), &e),
            Err(e) => ck.violation(&case(), &format!("panic: {}", e)),
        }
        if seq.len() == depth && seq[0] == 0 && seq[1] % 5 == 4 && seq[2] == 13 && seq[3] == 4 {
            ck.sample(case());
        }
        true
    });
    // the first 128 errors, for every number of errors around the limit
    for n in 0..=140 {
        let t = "$ ".repeat(n);
        let want = SourceFile::parse(&t).errors().len().min(128);
        let mut host = AnalysisHost::new();
        let mut ch = Change::new();
        ch.set_roots(root_list(&cfgs[0]));
        ch.change_file(FileId(0), Some(Arc::new(t.clone())));
        host.apply_change(ch);
        ck.add(1, 1, 1);
        let got = host.analysis().diagnostics(FileId(0)).map(|d| shown(&d)).unwrap_or_default();
        if got.len() != want || got != expected(&t) {
            ck.violation(&format!("{} errors", n), &format!("{} diagnostics, expected {}", got.len(), want));
        }
    }
    similar_texts(ck);
    many_files(ck);
    ck.add(states.len(), 0, 0);
}

fn check_file(db: &RootDatabase, a: &Analysis, id: FileId, text: &str, want: &(Vec<String>, LineIndex, String)) -> Result<(), String> {
    if *db.file_text(id) != text {
        return Err(format!("text of {:?} is {:.100?}, expected {:.100?}", id, db.file_text(id), text));
    }
    if db.parse(id).debug_dump() != want.2 {
        return Err(format!("tree of {:?} is not that of {:.100?}", id, text));
    }
    if *db.line_index(id) != want.1 || *a.file_line_index(id).map_err(|_| "cancelled".to_string())? != want.1 {
        return Err(format!("line index of {:?} is not that of {:.100?}", id, text));
    }
    let d = a.diagnostics(id).map_err(|_| "cancelled".to_string())?;
    if shown(&d) != want.0 {
        return Err(format!("diagnostics of {:?}: {:?}, expected {:?} for {:.100?}", id, shown(&d), want.0, text));
    }
    Ok(())
}

fn facts(t: &str) -> (Vec<String>, LineIndex, String) {
    (expected(t), LineIndex::new(t), SourceFile::parse(t).debug_dump())
}

/// From every text to every other and back, with the texts differing little, as a local and as a library file.
fn similar_texts(ck: &Arc<Check>) {
    let mut texts: Vec<String> = [
        "", " ", "\n", "\r\n", "\r", "a", "b", "A", "a ", " a", "a\n", "\na", "a\n\n", "\u{e9}", "e\u{301}", "\u{10400}", "\u{feff}", "$", "#", "$ ", " $", "$$", "$\n", "\n$", "module", "module M", "module M {}", "module N {}", "module M{}", "module M {} ", "module M { }",
        "module M {\n}", "module M { // x\n}", "module M { // y\n}", "module M { fun f() {} }", "module M { fun g() {} }", "module M { fun f() { 1 + 2; } }", "module M { fun f() { 1 - 2; } }", "module M { fun f() { 1 + 2 } }", "module M { fun f() { a b } }", "module M { fun f() { a c } }",
        "script { fun f() {} }", "address 0x1 { }", "address 0x2 { }", "address 0x10 { }", "module 0x1::M {}", "module M { struct S { x } }", "module M { struct S { y } }",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    for n in [127, 128, 129, 300] {
        texts.push("$ ".repeat(n));
        texts.push("$ ".repeat(n - 1) + "# ");
        texts.push("# ".to_string() + &"$ ".repeat(n - 1));
        texts.push("$ ".repeat(n - 1) + " $");
    }
    for n in [200, 5_000, ck.pick(20_000, 70_000)] {
        texts.push("a".repeat(n));
        texts.push("a".repeat(n - 1) + "b");
        texts.push("b".to_string() + &"a".repeat(n - 1));
        texts.push(" ".repeat(n) + "$");
        texts.push("\n".repeat(n) + "$");
        texts.push(" ".repeat(n) + "#");
        texts.push("// ".to_string() + &"c".repeat(n) + "\n$");
    }
    ck.note("similar_texts", texts.len() as u64);
    let want: Vec<_> = texts.iter().map(|t| facts(t)).collect();
    let arcs: Vec<Arc<String>> = texts.iter().map(|t| Arc::new(t.clone())).collect();
    let id = FileId(0);
    par_for(texts.len(), |i| {
        for library in [false, true] {
            for j in 0..texts.len() {
                if ck.stopped() {
                    return;
                }
                let r = quiet_catch(|| -> Result<(), String> {
                    let mut host = AnalysisHost::new();
                    for (k, t) in [i, j, i].into_iter().enumerate() {
                        let mut ch = Change::new();
                        if k == 0 {
                            ch.set_roots(root_list(&Roots { owner: [0, 0], library: vec![library] }));
                        }
                        // the same allocation, and a new one of the same contents
                        ch.change_file(id, Some(if k == 2 { Arc::new(texts[t].clone()) } else { arcs[t].clone() }));
                        host.apply_change(ch);
                        check_file(host.raw_database(), &host.analysis(), id, &texts[t], &want[t]).map_err(|e| format!("step {}: {}", k, e))?;
                    }
                    Ok(())
                });
                ck.add(1, 3, 1);
                match r {
                    Ok(Ok(())) => {}
                    Ok(Err(e)) => ck.violation(&format!("library {}: {:.60?} ({} bytes) then {:.60?} ({} bytes) and back", library, texts[i], texts[i].len(), texts[j], texts[j].len()), &e),
                    Err(e) => ck.violation(&format!("library {}: {:.60?} then {:.60?} and back", library, texts[i], texts[j]), &format!("panic: {}", e)),
                }
            }
        }
    });
}

/// Many files in many roots, with identifiers of all sizes; long histories.
fn many_files(ck: &Arc<Check>) {
    let sizes = [3usize, 9, 63, 64, 65, 127, 128, 129, 130, 255, 256, 257, ck.pick(300, 1500)];
    let root_counts = [1usize, 2, 5, 70];
    par_for(sizes.len() * root_counts.len() * 2, |k| {
        let (n, m, sparse) = (sizes[k / 2 / root_counts.len()], root_counts[k / 2 % root_counts.len()], k % 2 == 1);
        let id = |f: usize| FileId(if sparse { [f as u32, 250 + f as u32, 65_500 + f as u32, u32::MAX - f as u32][f % 4] } else { f as u32 });
        let text = |f: usize, version: usize| match (f + version) % 5 {
            0 => format!("module M{} {{}}", f),
            1 => format!("// {}\n$ {}", version, f),
            2 => "$ ".repeat(f % 140),
            3 => String::new(),
            _ => format!("script {{ fun f{}() {{ {} + }} }}\r\n\u{e9}", f, version),
        };
        let r = quiet_catch(|| -> Result<(), String> {
            let mut host = AnalysisHost::new();
            let mut cur: Vec<String> = vec![];
            let roots = |shift: usize, m: usize| -> Vec<SourceRoot> {
                (0..m)
                    .map(|i| {
                        let mut set = FileSet::default();
                        for f in (0..n).filter(|f| (f + shift) % m == i) {
                            set.insert(id(f), VfsPath::new_virtual_path(format!("/r{}/f{}.move", i, f)));
                        }
                        if (i + shift) % 3 == 1 { SourceRoot::new_library(set) } else { SourceRoot::new_local(set) }
                    })
                    .collect()
            };
            let compare = |host: &AnalysisHost, cur: &[String], shift: usize, m: usize, pick: &dyn Fn(usize) -> bool| -> Result<(), String> {
                let (db, a) = (host.raw_database(), host.analysis());
                for f in (0..n).filter(|f| pick(*f)) {
                    check_file(db, &a, id(f), &cur[f], &facts(&cur[f]))?;
                    if db.file_source_root(id(f)) != SourceRootId(((f + shift) % m) as u32) {
                        return Err(format!("{:?} belongs to {:?}", id(f), db.file_source_root(id(f))));
                    }
                }
                for (i, root) in roots(shift, m).iter().enumerate() {
                    let rid = SourceRootId(i as u32);
                    if *db.source_root(rid) != *root || db.library_roots().contains(&rid) != root.is_library || db.local_roots().contains(&rid) == root.is_library {
                        return Err(format!("root {}", i));
                    }
                }
                ck.add(1, n as u64, 1);
                Ok(())
            };
            let mut ch = Change::new();
            ch.set_roots(roots(0, m));
            for f in 0..n {
                cur.push(text(f, 0));
                ch.change_file(id(f), Some(Arc::new(text(f, 0))));
            }
            host.apply_change(ch);
            compare(&host, &cur, 0, m, &|_| true)?;
            compare(&host, &cur, 0, m, &|_| true)?;
            let edit = |host: &mut AnalysisHost, cur: &mut Vec<String>, version: usize, at_once: bool, pick: &dyn Fn(usize) -> bool, other: Option<(usize, usize)>| {
                let mut ch = Change::new();
                if let Some((shift, m)) = other {
                    ch.set_roots(roots(shift, m));
                }
                for f in (0..n).filter(|f| pick(*f)) {
                    let new = if version == 99 { None } else { Some(text(f, version)) };
                    cur[f] = new.clone().unwrap_or_default();
                    ch.change_file(id(f), new.map(Arc::new));
                    if !at_once {
                        host.apply_change(std::mem::take(&mut ch));
                    }
                }
                host.apply_change(ch);
            };
            edit(&mut host, &mut cur, 1, true, &|f| f % 2 == 0, None);
            compare(&host, &cur, 0, m, &|f| f % 3 == 0)?;
            edit(&mut host, &mut cur, 2, false, &|f| f % 3 == 1, None);
            compare(&host, &cur, 0, m, &|_| true)?;
            edit(&mut host, &mut cur, 3, true, &|f| f + 1 == n || f == 0, Some((1, m)));
            compare(&host, &cur, 1, m, &|_| true)?;
            edit(&mut host, &mut cur, 99, true, &|f| f % 4 == 2, None);
            compare(&host, &cur, 1, m, &|_| true)?;
            edit(&mut host, &mut cur, 4, true, &|_| true, Some((2, m + 1)));
            compare(&host, &cur, 2, m + 1, &|f| f % 7 == 0)?;
            compare(&host, &cur, 2, m + 1, &|_| true)?;
            edit(&mut host, &mut cur, 99, false, &|_| true, None);
            edit(&mut host, &mut cur, 1, false, &|f| f % 5 != 0, Some((0, 1)));
            compare(&host, &cur, 0, 1, &|_| true)
        });
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => ck.violation(&format!("{} files in {} roots, sparse {}", n, m, sparse), &e),
            Err(e) => ck.violation(&format!("{} files in {} roots, sparse {}", n, m, sparse), &format!("panic: {}", e)),
        }
    });
    // long histories of one file
    let edits = ck.pick(700, 5000);
    par_for(6, |k| {
        let r = quiet_catch(|| -> Result<(), String> {
            let mut host = AnalysisHost::new();
            let id = FileId(0);
            for v in 0..edits {
                let mut ch = Change::new();
                if v == 0 || k == 5 {
                    ch.set_roots(root_list(&Roots { owner: [0, 0], library: vec![(v / 3 + k) % 2 == 0] }));
                }
                let t = match k {
                    0 => "$ ".repeat(v % 150),
                    1 => format!("// {}\n$", v),
                    2 => "\n".repeat(v) + "$",
                    3 => " ".repeat(edits - v) + "$",
                    4 => ["$", "#"][v / 2 % 2].to_string(),
                    _ => format!("module M {{ fun f() {{ {} }} }}", ["a b", "a"][v % 2]),
                };
                ch.change_file(id, Some(Arc::new(t.clone())));
                host.apply_change(ch);
                ck.add(1, 1, 0);
                // every one, or every third
                if k != 4 || v % 3 == 0 {
                    check_file(host.raw_database(), &host.analysis(), id, &t, &facts(&t)).map_err(|e| format!("after {} changes: {}", v, e))?;
                }
            }
            Ok(())
        });
        ck.add(0, 0, 1);
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => ck.violation(&format!("long history {}", k), &e),
            Err(e) => ck.violation(&format!("long history {}", k), &format!("panic: {}", e)),
        }
    });
}
