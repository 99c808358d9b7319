//! C23: discovery over enumerated directory layouts; C24: loading over enumerated manifests.
use mc_core::*;
use paths::AbsPathBuf;
use project_model::{ProjectManifest, ProjectWorkspace};
use std::collections::BTreeSet;
use std::fs;
use std::os::unix::fs::symlink;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(what: &str) -> Scratch {
        static N: AtomicUsize = AtomicUsize::new(0);
        let base = std::env::temp_dir().join(format!("mls-mc-{}-{}-{}", what, std::process::id(), N.fetch_add(1, SeqCst)));
        fs::create_dir_all(&base).expect("scratch directory");
        Scratch(base)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

fn file_of(m: &ProjectManifest) -> PathBuf {
    match m {
        ProjectManifest::DoveToml(p) => AsRef::<Path>::as_ref(p).to_path_buf(),
    }
}
fn abs(p: &Path) -> AbsPathBuf {
    AbsPathBuf::assert(p.to_path_buf())
}

/// What may stand at a directory for the name Dove.toml.
const MANIFEST: &[&str] = &["none", "file", "dangling link", "link to a file", "other names"];
fn put_manifest(dir: &Path, kind: usize) {
    let f = dir.join("Dove.toml");
    match kind {
        1 => fs::write(f, "[package]\n").unwrap(),
        2 => symlink("nowhere", f).unwrap(),
        3 => {
            fs::write(dir.join("real"), "[package]\n").unwrap();
            symlink("real", f).unwrap()
        }
        4 => {
            for n in ["dove.toml", "Dove.tom", "Dove.toml~", "xDove.toml", "Move.toml", "Cargo.toml"] {
                fs::write(dir.join(n), "[package]\n").unwrap()
            }
        }
        _ => {}
    }
}
fn has_manifest(kind: usize) -> bool {
    kind == 1 || kind == 3
}

/// Children of the workspace folder: (label, whether a manifest is found in it).
const CHILD: &[(&str, bool)] = &[
    ("absent", false),
    ("empty directory", false),
    ("directory with a manifest", true),
    ("directory with a dangling manifest link", false),
    ("directory with other names", false),
    ("directory with a manifest one level deeper", false),
    ("file", false),
    ("link to a directory with a manifest", true),
    ("dangling link", false),
    ("directory with a linked manifest", true),
];
fn put_child(dir: &Path, name: &str, kind: usize, elsewhere: &Path) {
    let c = dir.join(name);
    match kind {
        0 => {}
        6 => fs::write(c, "x").unwrap(),
        7 => symlink(elsewhere, c).unwrap(),
        8 => symlink("nowhere", c).unwrap(),
        _ => {
            fs::create_dir(&c).unwrap();
            match kind {
                2 => put_manifest(&c, 1),
                3 => put_manifest(&c, 2),
                4 => put_manifest(&c, 4),
                5 => {
                    fs::create_dir(c.join("deep")).unwrap();
                    put_manifest(&c.join("deep"), 1)
                }
                9 => put_manifest(&c, 3),
                _ => {}
            }
        }
    }
}

pub fn c23(ck: &Arc<Check>) {
    let base = Scratch::new("c23");
    for a in base.0.ancestors() {
        if a.join("Dove.toml").exists() {
            eprintln!("{} is inside a Dove project", base.0.display());
            std::process::exit(2);
        }
    }
    let names: &[&str] = ck.pick(&["c1", "c2", ".c3"][..], &["c1", "c2", ".c3", "c4"][..]);
    ck.note("manifest_kinds", MANIFEST.to_vec());
    ck.note("child_kinds", CHILD.iter().map(|c| c.0).collect::<Vec<_>>());
    let n_child = CHILD.len().pow(names.len() as u32);
    // 0: directory, 1: missing, 2: file, 3: link to a directory
    let n = 3 * MANIFEST.len() * 4 * n_child;
    par_for(n, |i| {
        if ck.stopped() {
            return;
        }
        let (top_kind, rest) = ([0, 1, 4][i % 3], i / 3);
        let (ws_manifest, rest) = (rest % MANIFEST.len(), rest / MANIFEST.len());
        let (ws_kind, mut rest) = (rest % 4, rest / 4);
        let kinds: Vec<usize> = names
            .iter()
            .map(|_| {
                let k = rest % CHILD.len();
                rest /= CHILD.len();
                k
            })
            .collect();
        if (ws_kind == 1 || ws_kind == 2) && (ws_manifest != 0 || kinds.iter().any(|k| *k != 0)) {
            return;
        }
        let dir = base.0.join(i.to_string());
        let top = dir.join("top");
        fs::create_dir_all(&top).unwrap();
        let elsewhere = dir.join("elsewhere");
        fs::create_dir(&elsewhere).unwrap();
        put_manifest(&elsewhere, 1);
        put_manifest(&top, top_kind);
        let ws = top.join("ws");
        let mut real = ws.clone();
        match ws_kind {
            1 => {}
            2 => fs::write(&ws, "x").unwrap(),
            k => {
                if k == 3 {
                    real = dir.join("real-ws");
                }
                fs::create_dir(&real).unwrap();
                if k == 3 {
                    symlink(&real, &ws).unwrap();
                }
                put_manifest(&real, ws_manifest);
                for (name, kind) in names.iter().zip(&kinds) {
                    put_child(&real, name, *kind, &elsewhere);
                }
            }
        }
        let ws_is_dir = ws_kind == 0 || ws_kind == 3;
        let case = |q: &str| {
            format!(
                "top: {}; workspace: {} with {}; children: {:?}; query {}",
                MANIFEST[top_kind],
                ["directory", "missing", "file", "link"][ws_kind],
                MANIFEST[ws_manifest],
                kinds.iter().map(|k| CHILD[*k].0).collect::<Vec<_>>(),
                q
            )
        };
        // nearest ancestor, then immediate children; None when the directory cannot be read
        let own = |ws_m: bool| -> Option<PathBuf> {
            if ws_is_dir && ws_m {
                Some(ws.join("Dove.toml"))
            } else if has_manifest(top_kind) {
                Some(top.join("Dove.toml"))
            } else {
                None
            }
        };
        let mut queries: Vec<(String, PathBuf, Option<BTreeSet<PathBuf>>)> = vec![];
        let ws_want = match own(has_manifest(ws_manifest)) {
            Some(p) => Some(BTreeSet::from([p])),
            None if ws_is_dir => {
                Some(names.iter().zip(&kinds).filter(|(_, k)| CHILD[**k].1).map(|(n, _)| ws.join(n).join("Dove.toml")).collect())
            }
            None => None,
        };
        queries.push(("ws".into(), ws.clone(), ws_want));
        if ws_is_dir {
            for (name, &k) in names.iter().zip(&kinds) {
                let c = ws.join(name);
                let want = if CHILD[k].1 {
                    Some(BTreeSet::from([c.join("Dove.toml")]))
                } else {
                    match own(has_manifest(ws_manifest)) {
                        Some(p) => Some(BTreeSet::from([p])),
                        None => match k {
                            0 | 6 | 8 => None,
                            5 => Some(BTreeSet::from([c.join("deep/Dove.toml")])),
                            _ => Some(BTreeSet::new()),
                        },
                    }
                };
                queries.push((name.to_string(), c, want));
            }
        }
        if ws_is_dir && has_manifest(ws_manifest) {
            queries.push(("manifest".into(), ws.join("Dove.toml"), Some(BTreeSet::from([ws.join("Dove.toml")]))));
        }
        ck.add(1, 0, 0);
        for (q, path, want) in &queries {
            ck.add(0, 3, 1);
            let got = quiet_catch(|| ProjectManifest::discover(&abs(path)));
            match got {
                Err(e) => ck.violation(&case(q), &format!("discover panicked: {}", e)),
                Ok(got) => {
                    let got = got.ok().map(|v| v.iter().map(file_of).collect::<Vec<_>>());
                    let set = got.clone().map(|v| v.into_iter().collect::<BTreeSet<_>>());
                    // an unreadable start directory may be an error or empty
                    let bad = match want {
                        None => set.map_or(false, |s| !s.is_empty()),
                        Some(w) => set.as_ref() != Some(w) || got.as_ref().unwrap().len() != w.len(),
                    };
                    if bad {
                        ck.violation(&case(q), &format!("discover gives {:?}, expected {:?}", got, want));
                    }
                }
            }
            let single = quiet_catch(|| ProjectManifest::discover_single(&abs(path)).ok().map(|m| file_of(&m)));
            let w1 = want.as_ref().and_then(|w| if w.len() == 1 { w.iter().next().cloned() } else { None });
            if single != Ok(w1.clone()) {
                ck.violation(&case(q), &format!("discover_single gives {:?}, expected {:?}", single, w1));
            }
        }
        // all of them, in pairs and together, with missing and repeated ones
        let missing = dir.join("missing");
        let elsewhere_q = ("elsewhere".to_string(), elsewhere.clone(), Some(BTreeSet::from([elsewhere.join("Dove.toml")])));
        let missing_q = ("missing".to_string(), missing, None);
        queries.push(elsewhere_q);
        queries.push(missing_q);
        let m = queries.len();
        let mut groups: Vec<Vec<usize>> = vec![vec![], (0..m).collect(), (0..m).rev().collect()];
        for a in 0..m {
            for b in 0..m {
                groups.push(vec![a, b]);
            }
        }
        for g in groups {
            let roots: Vec<AbsPathBuf> = g.iter().map(|&j| abs(&queries[j].1)).collect();
            let want: BTreeSet<PathBuf> = g.iter().filter_map(|&j| queries[j].2.clone()).flatten().collect();
            let want: Vec<PathBuf> = want.into_iter().collect();
            ck.add(0, 1, 1);
            let got = quiet_catch(|| ProjectManifest::discover_all(&roots).iter().map(file_of).collect::<Vec<_>>());
            if got.as_ref() != Ok(&want) {
                let labels: Vec<_> = g.iter().map(|&j| queries[j].0.clone()).collect();
                ck.violation(&case(&format!("all {:?}", labels)), &format!("got {:?}, expected {:?}", got, want));
            }
        }
        if i % 997 == 5 {
            ck.sample(case("all"));
        }
        let _ = fs::remove_dir_all(&dir);
    });
    for (name, ok) in [("/x/Dove.toml", true), ("/Dove.toml", true), ("/x/dove.toml", false), ("/x/Dove.toml/y", false), ("/", false), ("/x/Move.toml", false)] {
        let got = quiet_catch(|| ProjectManifest::from_manifest_file(AbsPathBuf::assert(name.into())).ok().map(|m| file_of(&m)));
        ck.add(1, 1, 1);
        if got != Ok(if ok { Some(PathBuf::from(name)) } else { None }) {
            ck.violation(&format!("from_manifest_file {}", name), &format!("got {:?}", got));
        }
    }
    large_layouts(ck, &base.0);
    // an empty manifest list for a directory without any
    ck.assume("a directory named Dove.toml is not part of the explored layouts");
}

/// Deep trees, many subdirectories, many roots, names of every kind.
fn large_layouts(ck: &Arc<Check>, base: &Path) {
    let base = base.join("large");
    fs::create_dir(&base).unwrap();
    let query = |what: &str, dir: &Path, want: Option<Vec<PathBuf>>| {
        ck.add(1, 1, 1);
        let got = quiet_catch(|| ProjectManifest::discover(&abs(dir)).ok().map(|v| v.iter().map(file_of).collect::<BTreeSet<_>>()));
        let want_set = want.clone().map(|w| w.into_iter().collect::<BTreeSet<_>>());
        // a directory that cannot be read may be an error or give nothing
        if got != Ok(want_set.clone()) && !(want.is_none() && got == Ok(Some(BTreeSet::new()))) {
            ck.violation(what, &format!("discover gives {:?}, expected {:?}", got, want));
        }
        let got = quiet_catch(|| ProjectManifest::discover_all(&[abs(dir), abs(&base.join("missing")), abs(dir)]).iter().map(file_of).collect::<Vec<_>>());
        if got != Ok(want_set.clone().unwrap_or_default().into_iter().collect()) {
            ck.violation(what, &format!("discover_all gives {:?}, expected {:?}", got, want));
        }
    };
    // manifests at one or two ancestors
    let depth = ck.pick(45, 200);
    let chain: Vec<PathBuf> = (0..=depth).map(|n| base.join("deep").join(vec!["d"; n].join("/"))).collect();
    fs::create_dir_all(&chain[depth]).unwrap();
    for at in 0..=depth {
        fs::write(chain[at].join("Dove.toml"), "").unwrap();
        for (n, dir) in chain.iter().enumerate() {
            let want = if n >= at {
                vec![chain[at].join("Dove.toml")]
            } else if n + 1 == at {
                vec![chain[at].join("Dove.toml")]
            } else {
                vec![]
            };
            query(&format!("a manifest at depth {}, from {}", at, n), dir, Some(want));
        }
        query(&format!("a manifest at depth {}, from a missing directory", at), &chain[depth].join("missing/x/y"), Some(vec![chain[at].join("Dove.toml")]));
        for above in [0, at / 2, at.saturating_sub(1)] {
            if above == at {
                continue;
            }
            fs::write(chain[above].join("Dove.toml"), "").unwrap();
            query(&format!("manifests at depths {} and {}", above, at), &chain[depth], Some(vec![chain[at].join("Dove.toml")]));
            query(&format!("manifests at depths {} and {}, from just above", above, at), &chain[at - 1], Some(vec![chain[above].join("Dove.toml")]));
            fs::remove_file(chain[above].join("Dove.toml")).unwrap();
        }
        fs::remove_file(chain[at].join("Dove.toml")).unwrap();
    }
    // many subdirectories, all of which have a manifest, or one
    for n in [1, 7, 8, 9, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, ck.pick(600, 3000)] {
        let top = base.join(format!("wide{}", n));
        let child = |i: usize| top.join(format!("c{}", i));
        for i in 0..n {
            fs::create_dir_all(child(i)).unwrap();
            fs::write(top.join(format!("file{}", i)), "").unwrap();
        }
        for i in [0, n / 2, n - 1] {
            fs::write(child(i).join("Dove.toml"), "").unwrap();
            query(&format!("{} subdirectories, a manifest in number {}", n, i), &top, Some(vec![child(i).join("Dove.toml")]));
            fs::remove_file(child(i).join("Dove.toml")).unwrap();
        }
        query(&format!("{} subdirectories without a manifest", n), &top, Some(vec![]));
        for i in 0..n {
            fs::write(child(i).join("Dove.toml"), "").unwrap();
        }
        let all: Vec<PathBuf> = (0..n).map(|i| child(i).join("Dove.toml")).collect();
        query(&format!("{} subdirectories with a manifest", n), &top, Some(all.clone()));
        // as many roots, in several orders, twice over
        let sorted: Vec<PathBuf> = all.iter().cloned().collect::<BTreeSet<_>>().into_iter().collect();
        let mut orders: Vec<Vec<AbsPathBuf>> = vec![(0..n).map(|i| abs(&child(i))).collect()];
        orders.push((0..n).rev().map(|i| abs(&child(i))).collect());
        orders.push((0..2 * n).map(|i| abs(&child(i * 7 % n))).chain((0..n).map(|i| abs(&child(i)))).collect());
        orders.push((0..n).map(|i| abs(&child(i))).chain([abs(&top)]).collect());
        orders.push((0..n).flat_map(|i| [abs(&base.join("missing")), abs(&child(i)), abs(&top.join(format!("file{}/x", i)))]).collect());
        for (k, roots) in orders.iter().enumerate() {
            ck.add(1, 1, 1);
            let got = quiet_catch(|| ProjectManifest::discover_all(roots).iter().map(file_of).collect::<Vec<_>>());
            if got != Ok(sorted.clone()) {
                ck.violation(&format!("{} roots, order {}", n, k), &format!("got {} manifests: {:?}", got.as_ref().map_or(0, |g| g.len()), got));
            }
        }
        fs::remove_dir_all(&top).unwrap();
    }
    // names
    {
        use std::os::unix::ffi::OsStrExt;
        let long = "n".repeat(255);
        let names: Vec<&[u8]> = [
            "target", "build", "node_modules", ".git", ".github", "tests", "examples", "src", "dove", "Dove", "Dove.toml.d", "Dove.lock", "modules", "scripts", "lost+found", "tmp", "a b", " ", "é", "e\u{301}", "\u{10400}", "a\nb", "...", "..a", "~", "%20", "C:", "a\\b", "*", "-", "0", &long,
        ]
        .iter()
        .map(|s| s.as_bytes())
        .chain([&b"\xff"[..], &b"\xfe"[..]])
        .collect();
        let top = base.join("names");
        for name in &names {
            let dir = top.join(std::ffi::OsStr::from_bytes(name));
            fs::create_dir_all(dir.join("inner")).unwrap();
            query(&format!("no manifest in {:?}", String::from_utf8_lossy(name)), &top, Some(vec![]));
            fs::write(dir.join("Dove.toml"), "").unwrap();
            let want = vec![dir.join("Dove.toml")];
            for (what, from) in [("above", &top), ("", &dir), ("below", &dir.join("inner"))] {
                query(&format!("{} {:?}", what, String::from_utf8_lossy(name)), from, Some(want.clone()));
            }
            fs::remove_file(dir.join("Dove.toml")).unwrap();
        }
        for name in &names {
            fs::write(top.join(std::ffi::OsStr::from_bytes(name)).join("Dove.toml"), "").unwrap();
        }
        query("all names", &top, Some(names.iter().map(|n| top.join(std::ffi::OsStr::from_bytes(n)).join("Dove.toml")).collect()));
        // names of files that are not it
        let plain = base.join("plain");
        fs::create_dir_all(plain.join("sub")).unwrap();
        for f in ["DOVE.TOML", "dove.toml", "Dove.Toml", "Dove", "Dove.toml ", " Dove.toml", "Dove.toml.bak", "Dove.toml~", ".Dove.toml", "Dovetoml", "Dove_toml", "Dove.tomll", "Doves.toml", "Dove.toml\n", "Move.toml", "Dove.lock"] {
            for dir in [&plain, &plain.join("sub")] {
                fs::write(dir.join(f), "[package]\n").unwrap();
                query(&format!("only {:?}", f), &plain, Some(vec![]));
                query(&format!("only {:?} above", f), &plain.join("sub"), Some(vec![]));
                let got = quiet_catch(|| ProjectManifest::from_manifest_file(abs(&dir.join(f))).is_ok());
                if got != Ok(false) {
                    ck.violation(&format!("from_manifest_file {:?}", f), "accepted");
                }
            }
        }
    }
    // links that lead round in circles, names that are too long, paths through files
    let odd = base.join("odd");
    fs::create_dir_all(odd.join("good")).unwrap();
    fs::write(odd.join("good/Dove.toml"), "").unwrap();
    symlink("loop", odd.join("loop")).unwrap();
    symlink("two", odd.join("one")).unwrap();
    symlink("one", odd.join("two")).unwrap();
    symlink("..", odd.join("up")).unwrap();
    symlink("/dev/null", odd.join("null")).unwrap();
    fs::create_dir(odd.join("looped")).unwrap();
    symlink("Dove.toml", odd.join("looped/Dove.toml")).unwrap();
    let good = vec![odd.join("good/Dove.toml")];
    query("circular links among the subdirectories", &odd, Some(good.clone()));
    query("a circular manifest link", &odd.join("looped"), Some(vec![]));
    for (what, dir) in [("a circular link", odd.join("loop")), ("a file", odd.join("null")), ("a name that is too long", odd.join("n".repeat(300))), ("a path that is too long", odd.join(vec!["n"; 3000].join("/")))] {
        query(what, &dir, None);
        ck.add(1, 1, 1);
        let got = quiet_catch(|| ProjectManifest::discover_all(&[abs(&dir), abs(&odd), abs(&dir.join("x"))]).iter().map(file_of).collect::<Vec<_>>());
        if got.as_ref() != Ok(&good) {
            ck.violation(&format!("{} among the roots", what), &format!("got {:?}", got));
        }
    }
    let _ = fs::remove_dir_all(&base);
}

// ------------------------------------------------------------------ C24

type Fields = [Option<String>; 4];
const KEYS: [&str; 4] = ["name", "account_address", "dove_version", "dialect"];

enum Want {
    Fields(Fields),
    Error,
    /// What a generic TOML reader finds in the text: the four strings if there is a package table and
    /// the keys that are present are strings, an error otherwise.
    Generic,
}

fn load(path: &Path) -> Result<Result<Fields, String>, String> {
    quiet_catch(|| {
        let m = ProjectManifest::from_manifest_file(abs(path)).map_err(|e| format!("{:#}", e))?;
        match ProjectWorkspace::load(m) {
            Ok(ProjectWorkspace::Dove { dove_toml }) => {
                let p = dove_toml.package;
                Ok([p.name, p.account_address, p.dove_version, p.dialect])
            }
            Ok(_) => Err("not a Dove workspace".to_string()),
            Err(e) => {
                let s = format!("{:#}", e);
                if s.contains(path.to_str().unwrap()) {
                    Err(s)
                } else {
                    Err(format!("UNNAMED {}", s))
                }
            }
        }
    })
}

pub fn load_child(file: &str) {
    let r = load(Path::new(file));
    std::process::exit(match r {
        Ok(Ok(_)) => 0,
        Ok(Err(_)) => 1,
        Err(_) => 3,
    })
}

/// (text of the value, its string when it is one)
const VALUES: &[(&str, Option<&str>)] = &[
    ("\"\"", Some("")),
    ("\"0x1\"", Some("0x1")),
    ("\"a\\\"b\\n\\u00e9\"", Some("a\"b\né")),
    ("'c:\\d'", Some("c:\\d")),
    ("\"\"\"\nx\ny\"\"\"", Some("x\ny")),
    ("1", None),
    ("true", None),
    ("[\"a\"]", None),
    ("{ a = \"b\" }", None),
    ("1979-05-27", None),
];

/// A reader of manifests in the plain one-entry-per-line form, for cut-off manifests.
fn plain(text: &str) -> Want {
    let mut f: Fields = Default::default();
    let mut section: Option<String> = None;
    let mut package = false;
    let mut seen: Vec<(Option<String>, String)> = vec![];
    if text.ends_with('\r') {
        return Want::Generic;
    }
    for line in text.split('\n') {
        let l = line.trim_end_matches('\r').trim();
        if l.is_empty() || l.starts_with('#') {
            continue;
        }
        if let Some(h) = l.strip_prefix('[') {
            let Some(h) = h.strip_suffix(']') else { return Want::Error };
            if h.is_empty() {
                return Want::Error;
            }
            package |= h == "package";
            section = Some(h.to_string());
            continue;
        }
        let Some((k, v)) = l.split_once('=') else { return Want::Error };
        let (k, v) = (k.trim(), v.trim());
        let inner = match v.strip_prefix('"').and_then(|v| v.strip_suffix('"')) {
            Some(i) if v.len() >= 2 && !i.contains('"') => i,
            _ => return Want::Error,
        };
        if k.is_empty() || seen.contains(&(section.clone(), k.to_string())) {
            return Want::Error;
        }
        seen.push((section.clone(), k.to_string()));
        if section.as_deref() == Some("package") {
            if let Some(i) = KEYS.iter().position(|x| *x == k) {
                f[i] = Some(inner.to_string());
            }
        }
    }
    if package { Want::Fields(f) } else { Want::Error }
}

fn generic(text: &str) -> Want {
    let v = match quiet_catch(|| text.parse::<toml::Value>()) {
        Ok(Ok(v)) => v,
        _ => return Want::Error,
    };
    let Some(package) = v.get("package").and_then(|p| p.as_table()) else { return Want::Error };
    let mut f: Fields = Default::default();
    for (i, k) in KEYS.iter().enumerate() {
        match package.get(*k) {
            None => {}
            Some(toml::Value::String(s)) => f[i] = Some(s.clone()),
            Some(_) => return Want::Error,
        }
    }
    Want::Fields(f)
}

pub fn c24(ck: &Arc<Check>) {
    let base = Scratch::new("c24");
    let counter = AtomicUsize::new(0);
    let judge = |what: &str, bytes: &[u8], want: Want| {
        if ck.stopped() {
            return;
        }
        let n = counter.fetch_add(1, SeqCst);
        let dir = base.0.join(format!("d{}", n));
        fs::create_dir(&dir).unwrap();
        let file = dir.join("Dove.toml");
        fs::write(&file, bytes).unwrap();
        let got = load(&file);
        ck.add(1, 1, 1);
        let want = match (want, std::str::from_utf8(bytes)) {
            (Want::Generic, Ok(s)) => generic(s),
            (Want::Generic, Err(_)) => Want::Error,
            (w, _) => w,
        };
        let bad = match (&got, &want) {
            (Err(e), _) => Some(format!("panic: {}", e)),
            (Ok(Err(e)), _) if e.starts_with("UNNAMED") => Some(format!("the error does not name the file: {}", e)),
            (Ok(Ok(f)), Want::Fields(w)) if f == w => None,
            (Ok(Err(_)), Want::Error) => None,
            (Ok(g), Want::Fields(w)) => Some(format!("got {:?}, expected {:?}", g, w)),
            (Ok(g), _) => Some(format!("got {:?}, expected an error", g)),
        };
        if let Some(b) = bad {
            ck.violation(&format!("{} {:?}", what, String::from_utf8_lossy(bytes)), &b);
        }
        if n % 1777 == 3 {
            ck.sample(String::from_utf8_lossy(bytes).into_owned());
        }
        let _ = fs::remove_file(&file);
        let _ = fs::remove_dir(&dir);
    };
    // every assignment of value forms to the four keys
    let forms = VALUES.len() + 1;
    par_for(forms.pow(4), |i| {
        let mut k = i;
        let mut text = String::from("[package]\n");
        let mut f: Fields = Default::default();
        let mut ok = true;
        for j in 0..4 {
            let v = k % forms;
            k /= forms;
            if v > 0 {
                text.push_str(&format!("{} = {}\n", KEYS[j], VALUES[v - 1].0));
                f[j] = VALUES[v - 1].1.map(|s| s.to_string());
                ok &= f[j].is_some();
            }
        }
        judge("values", text.as_bytes(), if ok { Want::Fields(f) } else { Want::Error });
    });
    // orders, unknown keys, other tables, spellings
    let entries = ["name = \"n\"", "account_address = \"a\"", "dove_version = \"v\"", "dialect = \"d\"", "authors = [\"x\"]", "blockchain_api = 5", "# name = \"z\"", "", "\"name2\" = \"q\""];
    let vals = ["n", "a", "v", "d"];
    let wrappers: [(&str, &str); 6] = [
        ("[package]\n", "\n"),
        ("\u{feff}[package]\n", "\n"),
        ("[layout]\nname = \"no\"\n[package]\n", "\n[dependencies]\nname = \"no\"\ngit = [{ name = \"no\" }]\n"),
        ("title = \"t\"\nname = \"no\"\n\n  [ package ] # name\n", "\n[package.sub]\nname = \"no\"\n"),
        ("[[other]]\n[package2]\n[package]\n", ""),
        ("dialect = \"no\"\n[package]\n", "\n[[x]]\ndialect = \"no\"\n"),
    ];
    let depth = ck.pick(4, 5);
    ck.note("entries_up_to", depth as u64);
    par_sequences(entries.len(), depth, |seq| {
        let mut f: Fields = Default::default();
        let mut dup = false;
        for (i, &e) in seq.iter().enumerate() {
            if e < 4 {
                f[e] = Some(vals[e].to_string());
            }
            dup |= e < 4 && seq[..i].contains(&e);
        }
        for (wi, (pre, post)) in wrappers.iter().enumerate() {
            if seq.len() == depth && wi != (seq[0] + seq[depth - 1]) % wrappers.len() && !ck.thorough {
                continue;
            }
            for eol in ["\n", "\r\n"] {
                let body = seq.iter().map(|&e| entries[e]).collect::<Vec<_>>().join("\n");
                let text = format!("{}{}{}", pre, body, post).replace('\n', eol);
                judge("entries", text.as_bytes(), if dup { Want::Error } else { Want::Fields(f.clone()) });
            }
        }
        !ck.stopped()
    });
    let some = |v: [Option<&str>; 4]| Want::Fields(v.map(|s| s.map(|s| s.to_string())));
    judge("inline", b"package = { name = \"n\", dialect = \"d\" }\n", some([Some("n"), None, None, Some("d")]));
    judge("dotted", b"package.name = \"n\"\npackage.dove_version = \"1\"\n", some([Some("n"), None, Some("1"), None]));
    judge("empty package", b"[package]", some([None; 4]));
    for t in ["package = 1", "package = \"x\"", "package = [1]", "[[package]]\nname = [1]\n", "[package]\n[package]\n", "[package]\nname = \"a\"\nname = \"b\"\n"] {
        judge("ill-typed", t.as_bytes(), Want::Error);
    }
    for t in ["", "\n", "name = \"n\"\n", "[Package]\nname = \"n\"\n"] {
        judge("no package table", t.as_bytes(), Want::Error);
    }
    // cut off at every byte, every byte replaced, removed or doubled
    let manifests = [
        "[package]\nname = \"move_project\"\naccount_address = \"0x1\"\ndove_version = \"0.11.0\"\ndialect = \"pont\"\n",
        "# top\n[dependencies]\nname = \"x\"\n\n[package]\ndialect = \"dfinance\"\r\nname = \"caf\u{e9}\"\r\n\n[layout]\nname = \"modules\"\n",
    ];
    for m in manifests {
        let b = m.as_bytes();
        for cut in 0..=b.len() {
            let t = &b[..cut];
            match std::str::from_utf8(t) {
                Ok(s) => judge("cut off", t, plain(s)),
                Err(_) => judge("cut off", t, Want::Error),
            }
        }
        par_for(b.len(), |i| {
            for r in 0..=255u8 {
                let mut t = b.to_vec();
                t[i] = r;
                let want = if std::str::from_utf8(&t).is_err() { Want::Error } else { Want::Generic };
                judge("byte replaced", &t, want);
                if ck.thorough {
                    let mut t = b.to_vec();
                    t.insert(i, r);
                    let want = if std::str::from_utf8(&t).is_err() { Want::Error } else { Want::Generic };
                    judge("byte inserted", &t, want);
                }
            }
            let mut t = b.to_vec();
            t.remove(i);
            let want = if std::str::from_utf8(&t).is_err() { Want::Error } else { Want::Generic };
            judge("byte removed", &t, want);
        });
    }
    // every short text over the characters that matter to the reader
    let alpha = ["[", "]", "package", "name", "=", "\"", "'", "\n", "{", "}", ".", ",", "#", "\\", "1", "é"];
    par_sequences(alpha.len(), ck.pick(4, 5), |seq| {
        let t: String = seq.iter().map(|&i| alpha[i]).collect();
        judge("short text", t.as_bytes(), Want::Generic);
        judge("short text in the table", format!("[package]\n{}", t).as_bytes(), Want::Generic);
        !ck.stopped()
    });
    // strings of every kind, for every key
    let mut strings: Vec<String> = [
        " ", " a", "a ", "\ta\t", "\n", "a\nb", "a\n", "0X1", "0x01", "0x", "0xABCDEF", "0xabcdef", "0x1\u{0}", "1", "01", "-1", "true", "null", "none", "None", "5GrwvaEF5zXb26Fz9rcQpDWS57CtERHpNehXCPcNoHGKutQY", "wallet1me0cdn52672y7feddy7tgcj6j4dkzq2su745vh",
        "1.0", "1.0.0", "v1.0.0", "^1.0", "1.0.0-rc.1+b", "01.2.3", "1.2.3.4", "pont", "PONT", "Pont", "diem", "dfinance", "unknown", "é", "e\u{301}", "\u{10400}", "\u{feff}", "\u{feff}a", "a'b", "a\"b", "a\\b", "a/b", "a b", "a#b", "[a]", "{a}", "a=b", "${x}", "%20", "~", "/etc/passwd", "../x", "\u{1}", "\u{7f}", "\u{85}", "\u{2028}", "\r", "a\r\nb",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    strings.extend((0x20..0x7f).map(|c: u8| format!("x{}", c as char)));
    for n in [15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 255, 256, 257, 1000, 4096, 65_535, 65_536, 65_537, ck.pick(100_000, 1_000_000)] {
        strings.push("a".repeat(n));
        strings.push("0x".to_string() + &"0".repeat(n));
        strings.push("1.".repeat(n));
        strings.push("é".repeat(n));
    }
    let quoted = |s: &str| {
        let mut q = String::from("\"");
        for c in s.chars() {
            match c {
                '"' | '\\' => q.extend(['\\', c]),
                c if c.is_control() => q.push_str(&format!("\\u{:04X}", c as u32)),
                c => q.push(c),
            }
        }
        q + "\""
    };
    par_for(strings.len(), |i| {
        let s = &strings[i];
        let other = &strings[(i * 7 + 1) % 140];
        for k in 0..4 {
            let mut f: Fields = Default::default();
            f[k] = Some(s.clone());
            judge("string", format!("[package]\n{} = {}\n", KEYS[k], quoted(s)).as_bytes(), Want::Fields(f.clone()));
            if !s.contains('\'') && !s.chars().any(|c| c.is_control()) {
                judge("plain string", format!("[package]\n{} = '{}'\n", KEYS[k], s).as_bytes(), Want::Fields(f.clone()));
            }
            f[(k + 1) % 4] = Some(other.clone());
            let text = format!("[package]\n{} = {}\n{} = {}\n", KEYS[(k + 1) % 4], quoted(other), KEYS[k], quoted(s));
            judge("two strings", text.as_bytes(), Want::Fields(f.clone()));
            judge("after other tables", format!("[layout]\nname = {}\n{}", quoted(other), text).as_bytes(), Want::Fields(f));
        }
        judge("all the same", format!("[package]\n{}", KEYS.iter().map(|k| format!("{} = {}\n", k, quoted(s))).collect::<String>()).as_bytes(), Want::Fields([s; 4].map(|s| Some(s.clone()))));
    });
    // long manifests
    for n in [64, 255, 256, 257, 1000, 5000, ck.pick(20_000, 100_000)] {
        let comments = "# a comment \u{e9}\n".repeat(n);
        let tables: String = (0..n).map(|i| format!("[t{}]\nname = \"no\"\ndialect = 1\n", i)).collect();
        let keys: String = (0..n).map(|i| format!("key{} = \"no\"\n", i)).collect();
        let list: String = format!("authors = [{}]\n", "\"x\", ".repeat(n));
        let array: String = "[[dep]]\nname = \"no\"\n".repeat(n);
        let want = || some([Some("n"), None, Some("1"), None]);
        for filler in [&comments, &tables, &array] {
            judge("long before", format!("{}[package]\nname = \"n\"\ndove_version = \"1\"\n", filler).as_bytes(), want());
            judge("long after", format!("[package]\nname = \"n\"\ndove_version = \"1\"\n{}", filler).as_bytes(), want());
            judge("long, then ill-formed", format!("[package]\nname = \"n\"\ndove_version = \"1\"\n{}name", filler).as_bytes(), Want::Error);
        }
        for filler in [&comments, &keys, &list] {
            judge("long inside", format!("[package]\nname = \"n\"\n{}dove_version = \"1\"\n", filler).as_bytes(), want());
            judge("long inside, ill-typed at the end", format!("[package]\nname = \"n\"\n{}dialect = 1\n", filler).as_bytes(), Want::Error);
            judge("no table, long", filler.as_bytes(), Want::Error);
        }
    }
    // manifests in odd places
    {
        use std::os::unix::ffi::OsStrExt;
        let deep = vec!["d"; 200].join("/");
        for (i, name) in ["a b", "é", "a\nb", "a'b", "{}", "%s", "Dove.toml", "x.toml", "-", deep.as_str()].iter().map(|s| s.as_bytes()).chain([&b"\xff\xfe"[..]]).enumerate() {
            let dir = base.0.join(format!("odd{}", i)).join(std::ffi::OsStr::from_bytes(name));
            fs::create_dir_all(&dir).unwrap();
            let file = dir.join("Dove.toml");
            for (text, want) in [("[package]\nname = \"n\"\n", true), ("[package\n", false), ("", false), ("[package]\nname = 1", false)] {
                fs::write(&file, text).unwrap();
                ck.add(1, 1, 1);
                let got = quiet_catch(|| {
                    let m = ProjectManifest::from_manifest_file(abs(&file)).map_err(|e| format!("{:#}", e))?;
                    match ProjectWorkspace::load(m) {
                        Ok(ProjectWorkspace::Dove { dove_toml }) => Ok(dove_toml.package.name),
                        Ok(_) => Err("another kind".into()),
                        Err(e) => Err(format!("{:#}", e)),
                    }
                });
                let ok = match &got {
                    Ok(Ok(n)) => want && n.as_deref() == Some("n"),
                    Ok(Err(e)) => !want && file.to_str().map_or(true, |f| e.contains(f)),
                    Err(_) => false,
                };
                if !ok {
                    ck.violation(&format!("{:?} in {:?}", text, file.strip_prefix(&base.0).unwrap()), &format!("got {:?}", got));
                }
            }
        }
    }
    // things that are not readable files
    for kind in ["missing", "directory", "dangling link", "missing directory"] {
        let dir = base.0.join(format!("u-{}", kind.replace(' ', "-")));
        let file = dir.join("Dove.toml");
        if kind != "missing directory" {
            fs::create_dir(&dir).unwrap();
        }
        match kind {
            "directory" => fs::create_dir(&file).unwrap(),
            "dangling link" => symlink("nowhere", &file).unwrap(),
            _ => {}
        }
        ck.add(1, 1, 1);
        match load(&file) {
            Ok(Err(e)) if !e.starts_with("UNNAMED") => {}
            r => ck.violation(&format!("unreadable: {}", kind), &format!("{:?}", r)),
        }
    }
    // nesting, in a process of its own since exhausting the stack ends the process
    let me = std::env::current_exe().unwrap();
    for (open, close) in [("[", "]"), ("{a=", "}")] {
        for n in [1, 10, 100, 1000, 100_000] {
            for cut in [false, true] {
                let dir = base.0.join(format!("n-{}-{}-{}", open.len(), n, cut));
                fs::create_dir(&dir).unwrap();
                let file = dir.join("Dove.toml");
                let tail = if cut { String::new() } else { format!("1{}", close.repeat(n)) };
                fs::write(&file, format!("[package]\nx = {}{}\n", open.repeat(n), tail)).unwrap();
                let st = std::process::Command::new(&me).arg("--load").arg(&file).stderr(std::process::Stdio::null()).status().unwrap();
                ck.add(1, 1, 1);
                if !matches!(st.code(), Some(0) | Some(1)) {
                    let key = if n >= 100_000 { format!("deep-nesting:{}:{}:{}", open, n, if cut { "unclosed" } else { "closed" }) } else { format!("nesting {} {:?} cut {}", n, open, cut) };
                    ck.violation(&key, &format!("loading a manifest with {} nested {:?} ended with {:?}", n, open, st));
                }
            }
        }
    }
    let files = vec![AbsPathBuf::assert("/a".into()), AbsPathBuf::assert("/b".into())];
    match ProjectWorkspace::load_detached_files(files.clone()) {
        Ok(ProjectWorkspace::DetachedFiles { files: f }) if f == files => {}
        _ => ck.violation("detached files", "not returned as given"),
    }
}
