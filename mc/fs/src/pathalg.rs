//! C19: path operations against lists of components.
use mc_core::*;
use paths::{AbsPath, AbsPathBuf, RelPath, RelPathBuf};
use std::collections::hash_map::DefaultHasher;
use std::convert::TryFrom;
use std::hash::{Hash, Hasher};
use std::path::{Path, PathBuf};
use std::sync::Arc;
use vfs::VfsPath;

fn h<T: Hash>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

/// Components of an absolute spelling: no empty ones, no ".", ".." kept.
fn raw(s: &str) -> Vec<&str> {
    s.split('/').filter(|c| !c.is_empty() && *c != ".").collect()
}
fn norm(s: &str) -> Vec<&str> {
    let mut out = vec![];
    for c in raw(s) {
        if c == ".." {
            out.pop();
        } else {
            out.push(c);
        }
    }
    out
}
fn show(v: &[&str]) -> String {
    format!("/{}", v.join("/"))
}
fn stem_ext(name: &str) -> (&str, Option<&str>) {
    match name.rfind('.') {
        None | Some(0) => (name, None),
        Some(i) => (&name[..i], Some(&name[i + 1..])),
    }
}
fn os(s: Option<&std::ffi::OsStr>) -> Option<&str> {
    s.map(|s| s.to_str().unwrap())
}
fn enumerate(atoms: &[&str], depth: usize, prefix: &str) -> Vec<String> {
    let mut out = vec![];
    let mut level: Vec<Vec<&str>> = vec![vec![]];
    for _ in 0..depth {
        let mut next = vec![];
        for l in &level {
            for a in atoms {
                let mut l = l.clone();
                l.push(*a);
                out.push(format!("{}{}", prefix, l.join("/")));
                next.push(l);
            }
        }
        level = next;
    }
    out
}

macro_rules! eq {
    ($what:expr, $got:expr, $want:expr) => {{
        match ($got, $want) {
            (g, w) => {
                if g != w {
                    return Err(format!("{}: got {:?}, expected {:?}", $what, g, w));
                }
            }
        }
    }};
}

fn one_abs(s: &str) -> Result<(), String> {
    let p = AbsPathBuf::assert(s.into());
    let r = raw(s);
    let n = norm(s);
    let sn = show(&n);
    // constructors
    eq!("try_from str", AbsPathBuf::try_from(s).as_ref(), Ok(&p));
    eq!("AbsPath::try_from", <&AbsPath>::try_from(Path::new(s)).map(|p| p.to_path_buf()), Ok(p.clone()));
    eq!("as_os_str", p.as_os_str().to_str(), Some(s));
    eq!("display", p.display().to_string(), s.to_string());
    eq!("into PathBuf", PathBuf::from(p.clone()).to_str(), Some(s));
    eq!("RelPathBuf of an absolute path", RelPathBuf::try_from(s).is_err(), true);
    // normalisation
    let pn = p.normalize();
    eq!("normalize", pn.as_os_str().to_str(), Some(sn.as_str()));
    eq!("normalize twice", pn.normalize(), pn.clone());
    eq!("equals its normal form", p == pn, r == n);
    // parent, pop, names
    let parent = if r.is_empty() { None } else { Some(show(&r[..r.len() - 1])) };
    eq!("parent", p.parent().map(|q| raw(q.as_os_str().to_str().unwrap()).join("/")), parent.as_ref().map(|q| raw(q).join("/")));
    eq!("parent as path", p.parent().map(|q| q.to_path_buf()), parent.as_ref().map(|q| AbsPathBuf::assert(q.into())));
    let mut q = p.clone();
    eq!("pop", q.pop(), !r.is_empty());
    eq!("after pop", &q, &AbsPathBuf::assert(parent.clone().unwrap_or("/".into()).into()));
    let last = r.last().copied().filter(|c| *c != "..");
    eq!("file_name", os(p.file_name()), last);
    eq!("file_stem", os(p.file_stem()), last.map(|l| stem_ext(l).0));
    eq!("extension", os(p.extension()), last.and_then(|l| stem_ext(l).1));
    // virtual file system path
    let v = VfsPath::from(p.clone());
    let vn = VfsPath::from(pn.clone());
    eq!("VfsPath of a path and of its normal form", &v, &vn);
    eq!("their hashes", h(&v), h(&vn));
    eq!("VfsPath::as_path", v.as_path().map(|a| a.as_os_str().to_str().unwrap()), Some(sn.as_str()));
    eq!("VfsPath display", v.to_string(), sn.clone());
    let vparent = if n.is_empty() { None } else { Some(VfsPath::from(AbsPathBuf::assert(show(&n[..n.len() - 1]).into()))) };
    eq!("VfsPath::parent", v.parent(), vparent.clone());
    let mut vp = v.clone();
    eq!("VfsPath::pop", vp.pop(), vparent.is_some());
    eq!("VfsPath after pop", &vp, vparent.as_ref().unwrap_or(&v));
    eq!(
        "VfsPath::name_and_extension",
        v.name_and_extension(),
        n.last().map(|l| stem_ext(l))
    );
    for name in ["n", "n.x", ".n"] {
        let j = v.join(name).ok_or("join of a plain name failed")?;
        eq!("join then parent", j.parent().as_ref(), Some(&v));
        eq!("join extends", j.starts_with(&v), true);
    }
    Ok(())
}

fn join_abs(s: &str, rel: &str) -> Result<(), String> {
    let p = AbsPathBuf::assert(s.into());
    let whole = if rel.starts_with('/') { rel.to_string() } else { format!("{}/{}", s, rel) };
    let j = p.join(rel);
    eq!("join", raw(j.as_os_str().to_str().unwrap()), raw(&whole));
    let v = VfsPath::from(p.clone());
    // a virtual file system path is normalised before joining
    let whole_n = if rel.starts_with('/') { rel.to_string() } else { format!("{}/{}", show(&norm(s)), rel) };
    let vj = v.join(rel);
    eq!("VfsPath::join", vj.as_ref().map(|v| v.to_string()), Some(show(&norm(&whole_n))));
    eq!("VfsPath::join as a path", vj, Some(VfsPath::from(AbsPathBuf::assert(whole_n.into()))));
    if !rel.starts_with('/') {
        let r = RelPathBuf::try_from(rel).map_err(|_| "relative path refused")?;
        eq!("AbsPathBuf of a relative path", AbsPathBuf::try_from(rel).is_err(), true);
        eq!("AbsPath of a relative path", <&AbsPath>::try_from(Path::new(rel)).is_err(), true);
        eq!("join of a RelPath", &p.join(r.as_path()), &j);
        eq!("RelPathBuf to PathBuf", PathBuf::from(r.clone()), PathBuf::from(rel));
        // ends_with and strip_prefix, on component lists of both
        let rc = rel_comps(rel);
        let pc = raw(s);
        let ends = if rc.first() == Some(&".") { false } else { pc.ends_with(&rc) };
        eq!("ends_with", p.ends_with(r.as_path()), ends);
        if rc.first() != Some(&".") {
            eq!("join ends with", j.ends_with(r.as_path()), true);
        }
        eq!("join starts with", j.starts_with(&p), true);
        if let Some(rest) = j.strip_prefix(&p) {
            let rest: &Path = rest.as_ref();
            eq!("strip_prefix after join", rel_comps(rest.to_str().unwrap()), raw(rel));
        } else {
            return Err("strip_prefix after join failed".into());
        }
    }
    Ok(())
}

/// std keeps a leading "." of a relative path as a component.
fn rel_comps(s: &str) -> Vec<&str> {
    let all: Vec<&str> = s.split('/').collect();
    let mut out = vec![];
    for (i, c) in all.iter().enumerate() {
        if c.is_empty() || (*c == "." && i > 0) {
            continue;
        }
        out.push(*c);
    }
    out
}

fn pair_abs(a: &str, b: &str) -> Result<(), String> {
    let (p, q) = (AbsPathBuf::assert(a.into()), AbsPathBuf::assert(b.into()));
    let (ra, rb) = (raw(a), raw(b));
    let sw = ra.starts_with(&rb);
    eq!("starts_with", p.starts_with(&q), sw);
    eq!("equality", p == q, ra == rb);
    eq!("equality with a borrowed path", p == *q.as_path(), ra == rb);
    if ra == rb {
        eq!("hashes", h(&p), h(&q));
    }
    let rest = p.strip_prefix(&q).map(|r: &RelPath| AsRef::<Path>::as_ref(r).to_str().unwrap());
    eq!("strip_prefix", rest.map(|r| raw(r)), if sw { Some(ra[rb.len()..].to_vec()) } else { None });
    let (v, w) = (VfsPath::from(p), VfsPath::from(q));
    let (na, nb) = (norm(a), norm(b));
    eq!("VfsPath equality", v == w, na == nb);
    if na == nb {
        eq!("VfsPath hashes", h(&v), h(&w));
    }
    eq!("VfsPath order", v.cmp(&w) == std::cmp::Ordering::Equal, na == nb);
    eq!("VfsPath::starts_with", v.starts_with(&w), na.starts_with(&nb));
    Ok(())
}

fn virt(s: &str) -> VfsPath {
    VfsPath::new_virtual_path(s.to_string())
}

fn one_virtual(s: &str) -> Result<(), String> {
    let v = virt(s);
    eq!("display", v.to_string(), s.to_string());
    eq!("as_path", v.as_path().is_none(), true);
    // popping cuts at the last '/'
    let mut cur = s.to_string();
    let mut w = v.clone();
    loop {
        let want = cur.rfind('/').map(|i| cur[..i].to_string());
        eq!("parent", w.parent().map(|p| p.to_string()), want.clone());
        eq!("pop", w.pop(), want.is_some());
        match want {
            Some(c) => {
                cur = c;
                eq!("after pop", w.to_string(), cur.clone());
            }
            None => {
                eq!("after a failed pop", w.to_string(), cur.clone());
                break;
            }
        }
    }
    let t = s.strip_suffix('/').unwrap_or(s);
    let name = &t[t.rfind('/').map_or(0, |i| i + 1)..];
    eq!("name_and_extension", v.name_and_extension(), if name.is_empty() { None } else { Some(stem_ext(name)) });
    for n in ["n", "n.x", ".n"] {
        let j = v.join(n).ok_or("join of a plain name failed")?;
        eq!("join then parent", j.parent().as_ref(), Some(&v));
        eq!("join extends", j.starts_with(&v), true);
    }
    Ok(())
}

fn join_virtual(s: &str, rel: &str) -> Result<(), String> {
    let v = virt(s);
    let mut base = Some(s.to_string());
    let mut r = rel;
    while let Some(rest) = r.strip_prefix("../") {
        base = base.and_then(|b| b.rfind('/').map(|i| b[..i].to_string()));
        r = rest;
    }
    while let Some(rest) = r.strip_prefix("./") {
        r = rest;
    }
    eq!("join", v.join(rel).map(|p| p.to_string()), base.map(|b| format!("{}/{}", b, r)));
    Ok(())
}

fn pair_virtual(a: &str, b: &str) -> Result<(), String> {
    let (v, w) = (virt(a), virt(b));
    eq!("starts_with", v.starts_with(&w), a.as_bytes().starts_with(b.as_bytes()));
    eq!("equality", v == w, a == b);
    if a == b {
        eq!("hashes", h(&v), h(&w));
    }
    let f = VfsPath::from(AbsPathBuf::assert(a.into()));
    eq!("virtual and real paths differ", f == w, false);
    eq!("real path below a virtual one", f.starts_with(&w), false);
    eq!("virtual path below a real one", w.starts_with(&f), false);
    Ok(())
}

pub fn c19(ck: &Arc<Check>) {
    let atoms: &[&str] = &["a", "b", "ab", "a.b", ".a", "..", ".", "", "é.x.y"];
    let small: &[&str] = &["a", "ab", "..", ".", "", "b.c"];
    let d1 = ck.pick(6, 7);
    let d2 = ck.pick(4, 5);
    let ones = enumerate(atoms, d1, "/");
    let pairs = enumerate(small, d2, "/");
    let joins = enumerate(small, d2, "");
    ck.note("component_alphabet", atoms.to_vec());
    ck.note("components_up_to", d1 as u64);
    ck.note("components_in_pairs_up_to", d2 as u64);
    let run = |what: &str, a: &str, b: &str, f: &dyn Fn() -> Result<(), String>| {
        ck.add(0, 1, 1);
        match quiet_catch(f) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => ck.violation(&format!("{} {:?} {:?}", what, a, b), &e),
            Err(e) => ck.violation(&format!("{} {:?} {:?}", what, a, b), &format!("panic: {}", e)),
        }
    };
    ck.add((ones.len() + pairs.len() + joins.len()) as u64, 0, 0);
    let chunk = 512;
    par_for((ones.len() + chunk - 1) / chunk, |i| {
        for s in ones.iter().skip(i * chunk).take(chunk) {
            if ck.stopped() {
                return;
            }
            run("path", s, "", &|| one_abs(s));
            run("virtual path", s, "", &|| one_virtual(s));
        }
        ck.sample(format!("path {:?}", ones[i * chunk]));
    });
    par_for(pairs.len(), |i| {
        let a = &pairs[i];
        for b in &pairs {
            if ck.stopped() {
                return;
            }
            run("pair", a, b, &|| pair_abs(a, b));
            run("virtual pair", a, b, &|| pair_virtual(a, b));
        }
        for r in joins.iter().chain(["/", "/a", "/../b/./c"].iter().map(|s| s.to_string()).collect::<Vec<_>>().iter()) {
            if !r.is_empty() {
                run("join", a, r, &|| join_abs(a, r));
                run("virtual join", a, r, &|| join_virtual(a, r));
            }
        }
    });
    // names of every kind, alone, below a directory and beside one another
    let mut names: Vec<String> = [
        "A", "a", "aa", " a", "a ", "a\t", "...", "....", "..a", "a..", ".a.", "a.", ".a", "a.B", "a.b", "a.b.c", "~", "%61", "C:", "c:", "\\", "a\\b", "\\\\?\\", "é", "e\u{301}", "É",
        "\u{10400}", "\u{feff}a", "*", "?", "\"", "'", "$HOME", "-", "\u{1}", "\n", "ﬁ", "ß", "ss", "İ", "ı", "\u{2215}", "\u{2024}\u{2024}", "virtual:", "file:", "nul",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    for n in [31, 32, 33, 255, 256, 4096] {
        names.push("a".repeat(n));
        names.push("a".repeat(n - 1) + "b");
        names.push("a".repeat(n - 2) + ".b");
    }
    let mut odd: Vec<String> = names.iter().flat_map(|n| vec![format!("/{}", n), format!("/a/{}", n), format!("/{}/a", n), format!("/{}/../a", n)]).collect();
    // long paths
    let comps = ["a", "b", "ab", "a.b"];
    for n in [8, 9, 16, 17, 32, 33, 64, 65, 128, 129, 256, 257, ck.pick(600, 1000)] {
        let plain: Vec<&str> = (0..n).map(|i| comps[i % 4]).collect();
        let plain = plain.join("/");
        odd.push(format!("/{}", plain));
        odd.push(format!("/{}/x", plain));
        odd.push(format!("/{}x", plain));
        odd.push(format!("/./{}/", plain));
        odd.push(format!("/{}/{}", plain, vec![".."; n - 1].join("/")));
        odd.push(format!("/{}/{}", plain, vec![".."; n].join("/")));
        odd.push(format!("/{}/{}/q", plain, vec![".."; n + 1].join("/")));
        odd.push(format!("/{}", vec!["a/.."; n].join("/")));
        odd.push(format!("/{}", vec!["a//."; n].join("/")));
        odd.push(format!("/{}a", vec!["./"; n].join("")));
    }
    ck.note("unusual_paths", odd.len() as u64);
    ck.add(odd.len() as u64, 0, 0);
    par_for(odd.len(), |i| {
        let a = &odd[i];
        run("path", a, "", &|| one_abs(a));
        run("virtual path", a, "", &|| one_virtual(a));
        for b in &odd {
            if ck.stopped() {
                return;
            }
            if a.len().max(b.len()) > 600 && (a.len().min(b.len()) < 100 || !ck.thorough && a.len().abs_diff(b.len()) > 1) {
                continue;
            }
            run("pair", a, b, &|| pair_abs(a, b));
            run("virtual pair", a, b, &|| pair_virtual(a, b));
            run("join", a, &b[1..], &|| join_abs(a, &b[1..]));
            run("virtual join", a, &b[1..], &|| join_virtual(a, &b[1..]));
        }
        for n in &names {
            run("join", a, n, &|| join_abs(a, n));
            run("virtual join", a, n, &|| join_virtual(a, n));
        }
        for n in [1, 2, 7, 8, 9, 31, 32, 33, 64, 65, 129, 257] {
            let up = "../".repeat(n);
            for r in [format!("{}x", up), format!("{}x", "./".repeat(n)), format!("{}./x", up)] {
                run("join", a, &r, &|| join_abs(a, &r));
                run("virtual join", a, &r, &|| join_virtual(a, &r));
            }
        }
    });
    // only '/'-rooted virtual paths exist
    for s in ["", "a", "./a", "../a"] {
        if quiet_catch(|| virt(s)).is_ok() {
            ck.violation(&format!("virtual path {:?}", s), "accepted");
        }
    }
}
