//! C17: the virtual file system against a map and a list; C18: partitioning against a naive search.
use mc_core::*;
use paths::AbsPathBuf;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use vfs::{file_set::FileSetConfig, AnchoredPath, ChangeKind, FileId, Vfs, VfsPath};

fn path(s: &str) -> VfsPath {
    match s.strip_prefix("virtual:") {
        Some(v) => VfsPath::new_virtual_path(v.to_string()),
        None => VfsPath::from(AbsPathBuf::assert(s.into())),
    }
}

/// Ways to come to the same file-system path.
const WAYS: usize = 9;
fn path_via(way: usize, s: &str) -> VfsPath {
    if s.starts_with("virtual:") {
        return path(s);
    }
    let (_, comps) = split(s);
    let rel = comps.join("/");
    let root = path("/");
    match way {
        0 => path(s),
        1 => root.join(&rel).unwrap(),
        2 => root.join(&format!("./{}", comps.join("/./"))).unwrap(),
        3 => root.join(&format!("{}/", rel)).unwrap(),
        4 => path("/x/y").join(&format!("../../z/../{}", rel)).unwrap(),
        5 => path(&format!("//{}//", comps.join("//"))),
        6 => path(&format!("/../{}/x/..", rel)),
        7 => {
            let mut p = path(s).join("./c/.").unwrap();
            assert!(p.pop());
            p
        }
        _ => comps.iter().fold(root, |p, c| p.join(c).unwrap()).join("q").unwrap().parent().unwrap(),
    }
}

/// (model key, spelling); two spellings of the same path share a key.
const PATHS: &[(usize, &str)] = &[(0, "/a/x"), (1, "/a/xy"), (2, "virtual:/a/x"), (0, "/b/../a//./x")];
const CONTENTS: &[Option<&str>] = &[None, Some(""), Some("1"), Some("2")];

pub fn c17(ck: &Arc<Check>) {
    let n_set = PATHS.len() * CONTENTS.len();
    let k = n_set + 1;
    let depth = ck.pick(6, 7);
    let states = StateSet::default();
    ck.note("operations", k as u64);
    ck.note("depth", depth as u64);
    let paths: Vec<VfsPath> = PATHS.iter().map(|p| path(p.1)).collect();
    let n_keys = 3;
    let kind_of = |old: &Option<&str>, new: &Option<&str>| match (old, new) {
        (None, None) => None,
        (None, Some(_)) => Some(ChangeKind::Create),
        (Some(_), None) => Some(ChangeKind::Delete),
        (Some(a), Some(b)) if a == b => None,
        _ => Some(ChangeKind::Modify),
    };
    par_sequences(k, depth, |seq| {
        if ck.stopped() {
            return false;
        }
        let case = || {
            seq.iter()
                .map(|&o| {
                    if o == n_set {
                        "take_changes".to_string()
                    } else {
                        format!("set {} {:?}", PATHS[o / CONTENTS.len()].1, CONTENTS[o % CONTENTS.len()])
                    }
                })
                .collect::<Vec<_>>()
                .join("; ")
        };
        let r = quiet_catch(|| -> Result<(), String> {
            let mut vfs = Vfs::default();
            let mut files: [Option<&str>; 3] = [None; 3];
            let mut ids: [Option<FileId>; 3] = [None; 3];
            let mut log: Vec<(usize, ChangeKind)> = vec![];
            let mut check_log = |vfs: &mut Vfs, log: &mut Vec<(usize, ChangeKind)>, ids: &[Option<FileId>; 3]| {
                let got: Vec<_> = vfs
                    .take_changes()
                    .into_iter()
                    .map(|c| {
                        if c.exists() != (c.change_kind != ChangeKind::Delete)
                            || c.is_created_or_deleted() != (c.change_kind != ChangeKind::Modify)
                        {
                            return (usize::MAX, c.change_kind);
                        }
                        (ids.iter().position(|i| *i == Some(c.file_id)).unwrap_or(99), c.change_kind)
                    })
                    .collect();
                if got != *log {
                    return Err(format!("changes {:?}, expected {:?}", got, log));
                }
                log.clear();
                if vfs.has_changes() || !vfs.take_changes().is_empty() {
                    return Err("changes are left after draining".to_string());
                }
                Ok(())
            };
            for (i, &o) in seq.iter().enumerate() {
                let last = i + 1 == seq.len();
                if o == n_set {
                    check_log(&mut vfs, &mut log, &ids)?;
                } else {
                    let key = PATHS[o / CONTENTS.len()].0;
                    let new = CONTENTS[o % CONTENTS.len()];
                    let kind = kind_of(&files[key], &new);
                    let got = vfs.set_file_contents(
                        paths[o / CONTENTS.len()].clone(),
                        new.map(|s| s.as_bytes().to_vec()),
                    );
                    if got != kind.is_some() {
                        return Err(format!("set_file_contents returned {}", got));
                    }
                    files[key] = new;
                    if let Some(kind) = kind {
                        log.push((key, kind));
                    }
                    if new.is_some() {
                        match vfs.file_id(&paths[o / CONTENTS.len()]) {
                            None => return Err("a file just written is not there".into()),
                            Some(id) => {
                                if ids[key].map_or(false, |old| old != id) {
                                    return Err(format!("id changed from {:?} to {:?}", ids[key], id));
                                }
                                ids[key] = Some(id);
                            }
                        }
                    }
                }
                if !last {
                    continue;
                }
                if vfs.has_changes() != !log.is_empty() {
                    return Err(format!("has_changes {}, expected log {:?}", vfs.has_changes(), log));
                }
                for (pi, p) in paths.iter().enumerate() {
                    let key = PATHS[pi].0;
                    let got = vfs.file_id(p);
                    match files[key] {
                        None if got.is_some() => return Err(format!("{} is found though it does not exist", PATHS[pi].1)),
                        None => {}
                        Some(text) => {
                            if got != ids[key] {
                                return Err(format!("file_id({}) = {:?}, expected {:?}", PATHS[pi].1, got, ids[key]));
                            }
                            let id = got.unwrap();
                            if vfs.file_contents(id) != text.as_bytes() {
                                return Err(format!("{} holds {:?}, expected {:?}", PATHS[pi].1, vfs.file_contents(id), text));
                            }
                            if vfs.file_path(id) != *p {
                                return Err(format!("file_path gives {} for {}", vfs.file_path(id), p));
                            }
                        }
                    }
                }
                for key in 0..n_keys {
                    for other in 0..key {
                        if ids[key].is_some() && ids[key] == ids[other] {
                            return Err(format!("paths {} and {} share an id", key, other));
                        }
                    }
                }
                let mut it: Vec<_> = vfs.iter().map(|(id, p)| (id, p.clone())).collect();
                it.sort();
                let mut want: Vec<_> =
                    (0..n_keys).filter(|&k| files[k].is_some()).map(|k| (ids[k].unwrap(), paths[k].clone())).collect();
                want.sort();
                if it != want {
                    return Err(format!("iter gives {:?}, expected {:?}", it, want));
                }
                states.insert(hash64(format!("{:?}{:?}{:?}", files, ids, log).as_bytes()));
                check_log(&mut vfs, &mut log, &ids)?;
            }
            Ok(())
        });
        ck.add(0, 1, 1);
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => ck.violation(&case(), &e),
            Err(e) => ck.violation(&case(), &format!("panic: {}", e)),
        }
        if seq.len() == depth && seq.iter().all(|&o| o % 5 == 1) {
            ck.sample(case());
        }
        true
    });
    ck.add(states.len(), 0, 0);
    large_store(ck);
}

/// Contents that differ in one place only, every kind of byte, many files, long logs.
fn large_store(ck: &Arc<Check>) {
    let sizes: Vec<usize> = vec![1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8193, 65_535, 65_536, 65_537, ck.pick(100_000, 3_000_000)];
    par_for(sizes.len(), |i| {
        let n = sizes[i];
        let base: Vec<u8> = (0..n).map(|i| (i * 7 + i / 251) as u8).collect();
        // every position of short contents, those around powers of two of long ones
        let mut at: Vec<usize> = (0..n.min(ck.pick(1100, 5000))).collect();
        at.extend((0..n).rev().take(70));
        at.extend((1..22).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]).filter(|&x| x < n));
        at.extend([n / 2, n / 3]);
        let r = quiet_catch(|| -> Result<(), String> {
            let mut vfs = Vfs::default();
            let p = path("/a/x");
            let q = path("/a/y");
            let expect = |vfs: &mut Vfs, what: &str, new: &[u8], kind: Option<ChangeKind>| -> Result<(), String> {
                if vfs.set_file_contents(p.clone(), Some(new.to_vec())) != kind.is_some() {
                    return Err(format!("writing {} of {} bytes returned {}", what, n, kind.is_none()));
                }
                let id = vfs.file_id(&p).ok_or("the file is not there")?;
                if vfs.file_contents(id) != new {
                    return Err(format!("after writing {} of {} bytes the contents are others", what, n));
                }
                let kinds: Vec<_> = vfs.take_changes().into_iter().map(|c| (c.file_id, c.change_kind)).collect();
                if kinds != kind.map(|k| (id, k)).into_iter().collect::<Vec<_>>() {
                    return Err(format!("writing {} of {} bytes logs {:?}, expected {:?}", what, n, kinds, kind));
                }
                Ok(())
            };
            vfs.set_file_contents(q.clone(), Some(base.clone()));
            vfs.take_changes();
            expect(&mut vfs, "new contents", &base, Some(ChangeKind::Create))?;
            for &k in &at {
                for bit in [1u8, 0x80] {
                    let mut other = base.clone();
                    other[k] ^= bit;
                    expect(&mut vfs, &format!("contents differing at {}", k), &other, Some(ChangeKind::Modify))?;
                    expect(&mut vfs, "the same contents", &other, None)?;
                    ck.add(0, 2, 1);
                    if n > 2000 && bit == 1 {
                        break;
                    }
                }
                if k + 1 < n && base[k] != base[k + 1] {
                    let mut other = base.clone();
                    other.swap(k, k + 1);
                    expect(&mut vfs, &format!("contents with {} and the next exchanged", k), &other, Some(ChangeKind::Modify))?;
                    expect(&mut vfs, "the original contents", &base, Some(ChangeKind::Modify))?;
                    ck.add(0, 2, 1);
                } else {
                    expect(&mut vfs, "the original contents", &base, Some(ChangeKind::Modify))?;
                }
            }
            let longer: Vec<u8> = base.iter().copied().chain([0]).collect();
            for (what, other) in [("one byte less", &base[..n - 1]), ("one byte more", &longer[..]), ("the first half", &base[..n / 2]), ("all but the first byte", &base[1..])] {
                expect(&mut vfs, what, other, if other == &base[..] { None } else { Some(ChangeKind::Modify) })?;
                expect(&mut vfs, "the original contents", &base, Some(ChangeKind::Modify))?;
            }
            let id = vfs.file_id(&q).ok_or("the other file is gone")?;
            if vfs.file_contents(id) != base {
                return Err("another file has changed".into());
            }
            Ok(())
        });
        ck.add(at.len() as u64, 0, 0);
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => ck.violation(&format!("contents of {} bytes: {}", n, e), &e),
            Err(e) => ck.violation(&format!("contents of {} bytes", n), &format!("panic: {}", e)),
        }
    });
    // contents that are alike in meaning
    let alike: Vec<Vec<u8>> = ["", " ", "\n", "\r\n", "a", "A", "a ", " a", "a\n", "a\r\n", "a\r", "a\0", "\0", "\u{feff}a", "\u{feff}", "é", "e\u{301}", "a\tb", "a b", "a  b", "// a", "a\nb", "a\r\nb", "a\n\nb", "a\n b", "b\na"]
        .iter()
        .map(|s| s.as_bytes().to_vec())
        .chain((0..=255u8).map(|b| vec![b]))
        .chain((0..=255u8).map(|b| vec![b'a', b, b'b']))
        .collect();
    for a in &alike {
        for b in &alike {
            let mut vfs = Vfs::default();
            let p = path("/a/x");
            vfs.set_file_contents(p.clone(), Some(a.clone()));
            let changed = vfs.set_file_contents(p.clone(), Some(b.clone()));
            let id = vfs.file_id(&p).unwrap();
            let kinds: Vec<_> = vfs.take_changes().into_iter().map(|c| c.change_kind).collect();
            let want: Vec<_> = if a == b { vec![ChangeKind::Create] } else { vec![ChangeKind::Create, ChangeKind::Modify] };
            ck.add(1, 2, 1);
            if changed != (a != b) || vfs.file_contents(id) != &b[..] || kinds != want {
                ck.violation(&format!("contents {:?} then {:?}", a, b), &format!("changed {}, contents {:?}, log {:?}", changed, vfs.file_contents(id), kinds));
            }
        }
    }
    // many files; long logs
    for n in [7, 8, 9, 63, 64, 65, 255, 256, 257, 1000, 4097, ck.pick(20_000, 200_000)] {
        let r = quiet_catch(|| -> Result<(), String> {
            let spell = |i: usize| match i % 4 {
                0 => format!("/d{}/f.move", i),
                1 => format!("/d/f{}.move", i - 1),
                2 => format!("virtual:/d{}/f.move", i - 2),
                _ => format!("/{}f.move", "a/".repeat(i / 4 % 100)) + &format!("{}", i),
            };
            let mut vfs = Vfs::default();
            let mut ids = vec![];
            let mut log = vec![];
            for i in 0..n {
                if !vfs.set_file_contents(path(&spell(i)), Some(i.to_string().into_bytes())) {
                    return Err(format!("creating {} returned false", spell(i)));
                }
                let id = vfs.file_id(&path(&spell(i))).ok_or_else(|| format!("{} is not there", spell(i)))?;
                ids.push(id);
                log.push((id, ChangeKind::Create));
            }
            let distinct: BTreeSet<_> = ids.iter().collect();
            if distinct.len() != n {
                return Err(format!("{} files have {} ids", n, distinct.len()));
            }
            let mut text: Vec<Option<String>> = (0..n).map(|i| Some(i.to_string())).collect();
            let mut rounds = |vfs: &mut Vfs, log: &mut Vec<(FileId, ChangeKind)>, pick: &dyn Fn(usize) -> bool, new: Option<&str>| -> Result<(), String> {
                for i in (0..n).filter(|i| pick(*i)) {
                    let new = new.map(|s| s.to_string());
                    let kind = match (&text[i], &new) {
                        (None, None) => None,
                        (None, Some(_)) => Some(ChangeKind::Create),
                        (Some(_), None) => Some(ChangeKind::Delete),
                        (Some(a), Some(b)) if a == b => None,
                        _ => Some(ChangeKind::Modify),
                    };
                    if vfs.set_file_contents(path(&spell(i)), new.clone().map(String::into_bytes)) != kind.is_some() {
                        return Err(format!("writing {:?} to {} returned {}", new, spell(i), kind.is_none()));
                    }
                    log.extend(kind.map(|k| (ids[i], k)));
                    text[i] = new;
                }
                for i in 0..n {
                    match (&text[i], vfs.file_id(&path(&spell(i)))) {
                        (None, None) => {}
                        (Some(t), Some(id)) if id == ids[i] => {
                            if vfs.file_contents(id) != t.as_bytes() || vfs.file_path(id) != path(&spell(i)) {
                                return Err(format!("{} holds {:?}, expected {:?}", spell(i), vfs.file_contents(id), t));
                            }
                        }
                        (t, id) => return Err(format!("{} has contents {:?} and id {:?}, first {:?}", spell(i), t, id, ids[i])),
                    }
                }
                let listed: Vec<_> = vfs.iter().map(|(id, p)| (id, p.clone())).collect();
                let set: BTreeSet<_> = listed.iter().cloned().collect();
                let want: BTreeSet<_> = (0..n).filter(|&i| text[i].is_some()).map(|i| (ids[i], path(&spell(i)))).collect();
                if listed.len() != set.len() || set != want {
                    return Err(format!("iter lists {} files, expected {}", listed.len(), want.len()));
                }
                ck.add(1, n as u64, 0);
                Ok(())
            };
            let drain = |vfs: &mut Vfs, log: &mut Vec<(FileId, ChangeKind)>| {
                let got: Vec<_> = vfs.take_changes().into_iter().map(|c| (c.file_id, c.change_kind)).collect();
                if got != *log {
                    return Err(format!("{} entries in the log, expected {}; first difference at {:?}", got.len(), log.len(), got.iter().zip(log.iter()).position(|(a, b)| a != b)));
                }
                log.clear();
                Ok(())
            };
            rounds(&mut vfs, &mut log, &|i| i % 3 == 0, None)?;
            rounds(&mut vfs, &mut log, &|i| i % 2 == 0, Some("x"))?;
            drain(&mut vfs, &mut log)?;
            rounds(&mut vfs, &mut log, &|_| true, None)?;
            rounds(&mut vfs, &mut log, &|i| i + 1 == n || i == 0, Some("y"))?;
            drain(&mut vfs, &mut log)?;
            for k in 0..5 {
                let t = k.to_string();
                rounds(&mut vfs, &mut log, &|i| i % 5 >= k, Some(&t))?;
            }
            drain(&mut vfs, &mut log)?;
            rounds(&mut vfs, &mut log, &|_| true, Some("0"))?;
            drain(&mut vfs, &mut log)
        });
        ck.add(0, 0, 1);
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => ck.violation(&format!("{} files", n), &e),
            Err(e) => ck.violation(&format!("{} files", n), &format!("panic: {}", e)),
        }
    }
    // paths that are nearly the same
    let names = ["a", "A", "a ", " a", "aa", "a.", ".a", "a.b", "é", "e\u{301}", "É", "...", "%61", "a\\b", "\u{10400}", "\n"];
    let mut near: Vec<String> = names.iter().flat_map(|n| vec![format!("/{}", n), format!("/a/{}", n), format!("/{}/a", n), format!("virtual:/{}", n), format!("virtual:/a/{}", n)]).collect();
    for n in [100, 254, 255, 256, 1000] {
        near.push(format!("/{}a", "n".repeat(n)));
        near.push(format!("/{}b", "n".repeat(n)));
        near.push(format!("/{}a", "n/".repeat(n)));
        near.push(format!("/{}b", "n/".repeat(n)));
    }
    near.sort();
    near.dedup();
    for a in &near {
        for b in &near {
            let mut vfs = Vfs::default();
            vfs.set_file_contents(path(a), Some(b"1".to_vec()));
            let same = a == b;
            let found = vfs.file_id(&path(b)).is_some();
            let changed = vfs.set_file_contents(path(b), Some(b"1".to_vec()));
            let ids = (vfs.file_id(&path(a)), vfs.file_id(&path(b)));
            ck.add(1, 2, 1);
            if found != same || changed == same || (ids.0 == ids.1) != same || vfs.iter().count() != 2 - same as usize {
                ck.violation(&format!("paths {:?} and {:?}", a, b), &format!("found {}, changed {}, ids {:?}", found, changed, ids));
            }
        }
    }
}

// ------------------------------------------------------------------ C18

fn below(root: &str, file: &str) -> Option<usize> {
    // on plain, normalised spellings
    let (rv, r) = split(root);
    let (fv, f) = split(file);
    if rv != fv || r.len() > f.len() || f[..r.len()] != r[..] {
        return None;
    }
    Some(r.len())
}

fn split(s: &str) -> (bool, Vec<&str>) {
    let (v, s) = match s.strip_prefix("virtual:") {
        Some(s) => (true, s),
        None => (false, s),
    };
    (v, s.split('/').filter(|c| !c.is_empty()).collect())
}

pub fn c18(ck: &Arc<Check>) {
    let names = ["a", "ab", "a.b", "b"];
    let mut all = vec!["/".to_string()];
    let mut level = vec![String::new()];
    let mut files: Vec<String> = vec![];
    for d in 0..3 {
        let mut next = vec![];
        for p in &level {
            for n in names {
                if d == 2 && (n == "a.b" || p.contains("a.b")) {
                    continue;
                }
                next.push(format!("{}/{}", p, n));
            }
        }
        if d < 2 {
            all.extend(next.iter().cloned());
        }
        files.extend(next.iter().cloned());
        level = next;
    }
    let roots_fs: Vec<String> = all.iter().filter(|p| split(p).1.len() <= 1 || p.starts_with("/a/") || p.starts_with("/ab/a")).cloned().collect();
    let mut roots: Vec<String> = roots_fs.clone();
    for p in ["/", "/a", "/ab", "/a/b"] {
        roots.push(format!("virtual:{}", p));
    }
    let mut all_files: Vec<String> = files.clone();
    for p in ["/a", "/ab", "/a/b", "/a/ab", "/b/a", "/abc"] {
        all_files.push(format!("virtual:{}", p));
    }
    let stores: Vec<Vfs> = (0..WAYS)
        .map(|way| {
            let mut vfs = Vfs::default();
            for f in &all_files {
                vfs.set_file_contents(path_via(way, f), Some(vec![]));
            }
            for f in ["/a/gone", "/gone", "virtual:/a/gone"] {
                vfs.set_file_contents(path_via(way, f), Some(vec![]));
                vfs.set_file_contents(path(f), None);
            }
            vfs
        })
        .collect();
    let vfs = &stores[0];
    let ids: BTreeMap<FileId, usize> = all_files.iter().enumerate().map(|(i, f)| (vfs.file_id(&path(f)).unwrap(), i)).collect();
    let n = roots.len();
    let depth = ck.pick(4, 5);
    ck.note("roots", roots.clone());
    ck.note("files", all_files.len() as u64);
    ck.note("roots_per_configuration_up_to", depth as u64);
    // empty configuration and sets without roots
    let judge_via = |sets: &[Vec<usize>], root_way: usize, file_way: usize| {
        let case = || {
            let how = if root_way + file_way == 0 { String::new() } else { format!("roots written as {}, files as {}: ", root_way, file_way) };
            how + &sets.iter()
                .map(|s| format!("{{{}}}", s.iter().map(|&r| roots[r].as_str()).collect::<Vec<_>>().join(", ")))
                .collect::<Vec<_>>()
                .join(" ")
        };
        let r = quiet_catch(|| -> Result<(), String> {
            let mut b = FileSetConfig::builder();
            for s in sets {
                b.add_file_set(s.iter().map(|&r| path_via(root_way, &roots[r])).collect());
            }
            let parts = b.build().partition(&stores[file_way]);
            if parts.len() != sets.len() + 1 {
                return Err(format!("{} sets, expected {}", parts.len(), sets.len() + 1));
            }
            let mut seen = BTreeSet::new();
            for (pi, part) in parts.iter().enumerate() {
                let mut n = 0;
                for id in part.iter() {
                    n += 1;
                    let Some(&fi) = ids.get(&id) else { return Err(format!("set {} holds the unknown or deleted id {:?}", pi, id)) };
                    if !seen.insert(id) {
                        return Err(format!("{} is in two sets", all_files[fi]));
                    }
                    let p = path(&all_files[fi]);
                    if part.path_for_file(&id) != Some(&p) || part.file_for_path(&p) != Some(&id) {
                        return Err(format!("path and id of {} do not map to each other", all_files[fi]));
                    }
                    let mut best = None;
                    let mut owners: Vec<usize> = vec![sets.len()];
                    for (si, s) in sets.iter().enumerate() {
                        for &r in s {
                            if let Some(len) = below(&roots[r], &all_files[fi]) {
                                if best.map_or(true, |b| len > b) {
                                    best = Some(len);
                                    owners = vec![si];
                                } else if best == Some(len) {
                                    owners.push(si);
                                }
                            }
                        }
                    }
                    if !owners.contains(&pi) {
                        return Err(format!("{} is in set {}, expected set {:?}", all_files[fi], pi, owners));
                    }
                }
                if n != part.len() {
                    return Err(format!("len {} but {} ids", part.len(), n));
                }
            }
            if seen.len() != all_files.len() {
                let missing: Vec<_> = ids.iter().filter(|(id, _)| !seen.contains(*id)).map(|(_, &i)| all_files[i].as_str()).collect();
                return Err(format!("in no set: {:?}", missing));
            }
            Ok(())
        });
        ck.add(1, all_files.len() as u64, 1);
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => ck.violation(&case(), &e),
            Err(e) => ck.violation(&case(), &format!("panic: {}", e)),
        }
        case()
    };
    let judge = |sets: &[Vec<usize>]| judge_via(sets, 0, 0);
    judge(&[]);
    judge(&[vec![]]);
    // roots and files whose paths were come to in different ways
    par_sequences(n, ck.pick(2, 3), |seq| {
        for root_way in 0..WAYS {
            for file_way in 0..WAYS {
                if root_way + file_way > 0 && (seq.len() < 2 || file_way <= 1 || root_way == file_way) {
                    judge_via(&[seq.to_vec()], root_way, file_way);
                    if seq.len() > 1 {
                        judge_via(&[vec![seq[0]], seq[1..].to_vec()], root_way, file_way);
                    }
                }
            }
        }
        !ck.stopped()
    });
    par_sequences(n, depth, |seq| {
        if ck.stopped() {
            return false;
        }
        // every way of cutting the sequence of roots into consecutive sets, optionally with an empty set first
        for cuts in 0..1usize << (seq.len() - 1) {
            let mut sets = vec![vec![seq[0]]];
            for (i, &r) in seq.iter().enumerate().skip(1) {
                if cuts >> (i - 1) & 1 == 1 {
                    sets.push(vec![]);
                }
                sets.last_mut().unwrap().push(r);
            }
            let case = judge(&sets);
            if cuts == 2 && seq[0] % 4 == 1 && seq[1] == 3 {
                ck.sample(case);
            }
        }
        true
    });
    large_partitions(ck);
    // anchored resolution inside a set
    let set = FileSetConfig::default().partition(vfs).remove(0);
    let rels = ["a", "b", "./a", "../a", "../b/a", "../../a", "a/b", "../a/b", ".", "..", "../../../a", "./../a", "ab", "../ab"];
    for (i, f) in all_files.iter().enumerate() {
        let id = vfs.file_id(&path(f)).unwrap();
        for rel in rels {
            let (virt, comps) = split(f);
            let got = quiet_catch(|| set.resolve_path(AnchoredPath { anchor: id, path: rel }));
            if virt && (rel == "." || rel == ".." || rel.starts_with("./..")) {
                continue;
            }
            let mut stack: Vec<&str> = comps[..comps.len() - 1].to_vec();
            let mut above = false;
            for c in rel.split('/') {
                match c {
                    "." => {}
                    ".." => above |= stack.pop().is_none(),
                    c => stack.push(c),
                }
            }
            let want = if above && virt {
                None
            } else {
                let s = format!("{}/{}", if virt { "virtual:" } else { "" }, stack.join("/"));
                all_files.iter().position(|g| *g == s)
            };
            ck.add(0, 1, 1);
            match got {
                Ok(g) if g.map(|g| ids[&g]) == want => {}
                g => ck.violation(
                    &format!("resolve {} from {}", rel, all_files[i]),
                    &format!("got {:?}, expected {:?}", g, want.map(|w| &all_files[w])),
                ),
            }
        }
    }
}

/// Many roots and files, deep ones, long and unusual names; the owner of a file is found by walking up from it.
fn large_partitions(ck: &Arc<Check>) {
    let judge = |what: &str, sets: &[Vec<String>], files: &[String]| {
        if ck.stopped() {
            return;
        }
        let r = quiet_catch(|| -> Result<(), String> {
            let mut vfs = Vfs::default();
            let ids: Vec<FileId> = files
                .iter()
                .map(|f| {
                    vfs.set_file_contents(path(f), Some(vec![]));
                    vfs.file_id(&path(f)).unwrap()
                })
                .collect();
            let mut owner: BTreeMap<&str, Vec<usize>> = BTreeMap::new();
            let mut b = FileSetConfig::builder();
            for (i, s) in sets.iter().enumerate() {
                b.add_file_set(s.iter().map(|r| path(r)).collect());
                for r in s {
                    owner.entry(r).or_default().push(i);
                }
            }
            if b.len() != sets.len() {
                return Err(format!("the builder has {} sets, expected {}", b.len(), sets.len()));
            }
            let parts = b.build().partition(&vfs);
            if parts.len() != sets.len() + 1 {
                return Err(format!("{} sets, expected {}", parts.len(), sets.len() + 1));
            }
            let mut found: BTreeMap<FileId, Vec<usize>> = BTreeMap::new();
            for (i, part) in parts.iter().enumerate() {
                for id in part.iter() {
                    found.entry(id).or_default().push(i);
                }
            }
            for (f, id) in files.iter().zip(&ids) {
                let mut dir = f.as_str();
                let fs_root = "/";
                let none = vec![sets.len()];
                let owners = loop {
                    if let Some(o) = owner.get(dir) {
                        break o;
                    }
                    let bare = dir.strip_prefix("virtual:").unwrap_or(dir);
                    if bare == "/" {
                        break &none;
                    }
                    let cut = dir.rfind('/').unwrap();
                    dir = if dir[..cut].ends_with("virtual:") { "virtual:/" } else if cut == 0 { fs_root } else { &dir[..cut] };
                };
                match found.get(id).map(|v| &v[..]) {
                    Some([set]) if owners.contains(set) => {
                        if parts[*set].path_for_file(id) != Some(&path(f)) || parts[*set].file_for_path(&path(f)) != Some(id) {
                            return Err(format!("path and id of {} do not map to each other", f));
                        }
                    }
                    sets => return Err(format!("{} is in the sets {:?}, expected {:?}", f, sets, owners)),
                }
            }
            let n: usize = parts.iter().map(|p| p.len()).sum();
            if n != files.len() {
                return Err(format!("{} files in all sets, expected {}", n, files.len()));
            }
            Ok(())
        });
        ck.add(1, files.len() as u64, 1);
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => ck.violation(what, &e),
            Err(e) => ck.violation(what, &format!("panic: {}", e)),
        }
    };
    for virt in ["", "virtual:"] {
        // a chain of nested roots, each with a set of its own, in both orders; then every k-th root only
        let deep = ck.pick(150, 600);
        let dir = |n: usize| format!("{}{}", virt, if n == 0 { "/".to_string() } else { "/a".repeat(n) });
        let files: Vec<String> = (0..deep).flat_map(|n| vec![format!("{}{}/f", virt, "/a".repeat(n)), format!("{}{}/ab", virt, "/a".repeat(n))]).collect();
        let first = if virt.is_empty() { 0 } else { 1 };
        for step in [1, 2, 3, 64, 100] {
            for start in first..first + step.min(3) {
                let mut sets: Vec<Vec<String>> = (start..deep).step_by(step).map(|n| vec![dir(n)]).collect();
                let name = format!("{}every {}th of {} nested roots from {}", virt, step, deep, start);
                judge(&name, &sets, &files);
                judge(&format!("{} in one set", name), &[sets.concat()], &files);
                sets.reverse();
                judge(&format!("{} backwards", name), &sets, &files);
            }
        }
        for n in first..deep {
            judge(&format!("{}only the root {}", virt, n), &[vec![dir(n)]], &files);
            judge(&format!("{}the roots {} and {}", virt, n, n + 1), &[vec![dir(n)], vec![dir(n + 1)]], &files);
        }
        // siblings
        for n in [7, 8, 9, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, ck.pick(700, 3000)] {
            let sets: Vec<Vec<String>> = (0..n).map(|i| vec![format!("{}/d{}", virt, i)]).collect();
            let files: Vec<String> = (0..n + 3).flat_map(|i| vec![format!("{}/d{}/f", virt, i), format!("{}/d{}x/f", virt, i), format!("{}/d{}/x/y/f", virt, i)]).collect();
            judge(&format!("{}{} sibling roots", virt, n), &sets, &files);
            judge(&format!("{}{} sibling roots in one set", virt, n), &[sets.concat()], &files);
            judge(&format!("{}{} sibling roots in two sets", virt, n), &[sets.iter().step_by(2).cloned().collect::<Vec<_>>().concat(), sets.iter().skip(1).step_by(2).cloned().collect::<Vec<_>>().concat()], &files);
            let nested: Vec<Vec<String>> = (0..n).map(|i| vec![format!("{}/d{}", virt, i), format!("{}/d{}/x/y", virt, (i + 1) % n)]).collect();
            judge(&format!("{}{} sets of two roots", virt, n), &nested, &files);
        }
        // names that are nearly the same
        let long = "n".repeat(300);
        let long2 = "n".repeat(299) + "m";
        let names = ["a", "A", "aa", "a ", " a", "a.", ".a", "a.b", "a-b", "a+b", "a!", "a\"", "a0", "é", "e\u{301}", "É", "...", "..a", "%61", "a\\b", "\u{10400}", "\u{ffff}", "\n", "~", "\u{1}", &long, &long2];
        let files: Vec<String> = names
            .iter()
            .flat_map(|n| {
                let mut v = vec![format!("{}/{}", virt, n), format!("{}/a/{}", virt, n), format!("{}/{}/f", virt, n)];
                v.extend(names.iter().map(|m| format!("{}/{}/{}/f", virt, n, m)));
                v
            })
            .collect::<BTreeSet<_>>()
            .into_iter()
            .collect();
        for a in names {
            for b in names {
                let (a, b) = (format!("{}/{}", virt, a), format!("{}/{}", virt, b));
                judge(&format!("roots {:?} and {:?}", a, b), &[vec![a.clone()], vec![b.clone()]], &files);
            }
            for c in names {
                let (a, b) = (format!("{}/{}", virt, a), format!("{}/{}/{}", virt, a, c));
                judge(&format!("roots {:?} and {:?}", a, b), &[vec![b.clone()], vec![a.clone()]], &files);
                judge(&format!("roots {:?} and {:?}", a, b), &[vec![a.clone()], vec![b.clone()]], &files);
            }
        }
    }
}
