//! C28: the store of diagnostics. C29: disjoint edits.
use lsp_types::*;
use mc_core::*;
use move_language_server::verif;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Native(u32, usize),
    Check(u32, usize),
    Clear,
    Drain,
}

fn diagnostic(i: usize) -> Diagnostic {
    let mut d = Diagnostic {
        range: Range::new(Position::new(0, 1), Position::new(0, 2)),
        severity: Some(DiagnosticSeverity::Error),
        source: Some("s".into()),
        message: "m".into(),
        ..Default::default()
    };
    // each differs from the first in one respect
    match i {
        1 => d.range.end.character = 3,
        2 => d.message = "n".into(),
        3 => d.severity = Some(DiagnosticSeverity::Hint),
        4 => d.source = None,
        5 => d.range.start.line = 1,
        6 => d.range.start.character = 2,
        7 => d.range.end.line = 1,
        8 => d.source = Some("t".into()),
        9 => d.source = Some(String::new()),
        10 => d.severity = None,
        11 => d.message = "".into(),
        12 => d.message = "m ".into(),
        13 => d.message = "m".repeat(300),
        14 => d.message = "m".repeat(299) + "n",
        15 => d.range = Range::new(Position::new(256, 257), Position::new(65_536, 2)),
        16 => d.range = Range::new(Position::new(0, 65_537), Position::new(0, 65_538)),
        _ => {}
    }
    d
}

const LISTS: &[&[usize]] = &[&[], &[0], &[1], &[2], &[3], &[4], &[0, 1], &[1, 0], &[0, 0]];

#[derive(Default)]
struct Model {
    native: BTreeMap<u32, Vec<usize>>,
    check: BTreeMap<u32, Vec<usize>>,
    changed: BTreeSet<u32>,
    /// Got their first list, an empty one: whether that is a change is a matter of taste.
    perhaps: BTreeSet<u32>,
}

fn step(m: &mut Model, s: &mut verif::Diagnostics, op: Op) -> Result<(), String> {
    match op {
        Op::Native(f, l) => {
            s.set_native(f, LISTS[l].iter().map(|&d| diagnostic(d)).collect());
            match m.native.get(&f) {
                None if LISTS[l].is_empty() => {
                    m.perhaps.insert(f);
                }
                Some(old) if old == LISTS[l] => {}
                _ => {
                    m.changed.insert(f);
                }
            }
            m.native.insert(f, LISTS[l].to_vec());
        }
        Op::Check(f, d) => {
            s.add_check(f, diagnostic(d));
            let l = m.check.entry(f).or_default();
            if !l.contains(&d) {
                l.push(d);
                m.changed.insert(f);
            }
        }
        Op::Clear => {
            s.clear_check();
            for (f, l) in std::mem::take(&mut m.check) {
                if !l.is_empty() {
                    m.changed.insert(f);
                }
            }
        }
        Op::Drain => {
            let got: BTreeSet<u32> = s.take_changes().unwrap_or_default().into_iter().collect();
            let want = std::mem::take(&mut m.changed);
            let perhaps = std::mem::take(&mut m.perhaps);
            if !want.is_subset(&got) || !got.iter().all(|f| want.contains(f) || perhaps.contains(f)) {
                return Err(format!("drained {:?}, altered were {:?}", got, want));
            }
        }
    }
    for f in 0..3 {
        let want: Vec<Diagnostic> = m.native.get(&f).into_iter().chain(m.check.get(&f)).flatten().map(|&d| diagnostic(d)).collect();
        let got = s.get(f);
        if got != want {
            return Err(format!("file {} lists {:?} instead of {:?}", f, got, want));
        }
    }
    Ok(())
}

pub fn c28(ck: &Arc<Check>) {
    let mut all = vec![Op::Drain, Op::Clear];
    for f in 0..2 {
        all.extend((0..LISTS.len()).map(|l| Op::Native(f, l)));
        all.extend((0..6).map(|d| Op::Check(f, d)));
    }
    let some = [
        Op::Drain,
        Op::Clear,
        Op::Native(0, 0),
        Op::Native(0, 1),
        Op::Native(0, 6),
        Op::Native(1, 1),
        Op::Check(0, 0),
        Op::Check(0, 1),
        Op::Check(1, 0),
    ];
    lists(ck);
    for (ops, depth) in [(&all[..], ck.pick(4, 5)), (&some[..], ck.pick(6, 8))] {
        ck.note(&format!("depth_over_{}_operations", ops.len()), depth);
        let explored = std::sync::atomic::AtomicU64::new(0);
        par_sequences(ops.len(), depth, |seq| {
            if seq.len() < depth {
                return true;
            }
            explored.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            let mut m = Model::default();
            let mut s = verif::Diagnostics::default();
            // every history ends with a drain, after which nothing is left
            let history: Vec<Op> = seq.iter().map(|&i| ops[i]).chain([Op::Drain, Op::Drain]).collect();
            for (n, &op) in history.iter().enumerate() {
                let r = quiet_catch(|| step(&mut m, &mut s, op)).unwrap_or_else(|e| Err(format!("panic: {}", e)));
                if let Err(e) = r {
                    ck.violation(&format!("{:?}", &history[..=n]), &e);
                    return false;
                }
            }
            if hash64(format!("{:?}", seq).as_bytes()) % 90001 == 1 {
                ck.sample(format!("{:?}", history));
            }
            !ck.stopped()
        });
        let n = explored.into_inner();
        ck.add(n, n * depth as u64, n);
    }
}

/// Lists that differ in one diagnostic, anywhere.
fn lists(ck: &Arc<Check>) {
    const KINDS: usize = 17;
    let mut cases: Vec<(Vec<usize>, Vec<usize>)> = vec![];
    for a in 0..KINDS {
        for b in 0..KINDS {
            cases.push((vec![a], vec![b]));
            cases.push((vec![a, b], vec![b, a]));
            cases.push((vec![a, a], vec![a, b]));
            cases.push((vec![a, b], vec![a]));
        }
    }
    for n in [1, 2, 3, 8, 31, 64, 100, 127, 128, 129, 200, 257] {
        let list: Vec<usize> = (0..n).map(|k| k % 6).collect();
        cases.push((list.clone(), list.clone()));
        cases.push((list.clone(), list[1..].to_vec()));
        cases.push((list[..n - 1].to_vec(), list.clone()));
        for at in 0..n {
            for kind in [6, 7, 8, 11] {
                let mut other = list.clone();
                other[at] = kind;
                cases.push((list.clone(), other));
            }
            if at + 1 < n {
                let mut other = list.clone();
                other.swap(at, at + 1);
                cases.push((list.clone(), other));
            }
        }
    }
    ck.note("pairs_of_lists", cases.len());
    par_for(cases.len(), |i| {
        if ck.stopped() {
            return;
        }
        let (a, b) = &cases[i];
        let make = |l: &[usize]| l.iter().map(|&d| diagnostic(d)).collect::<Vec<_>>();
        let (a_list, b_list) = (make(a), make(b));
        // file 1 has diagnostics of its own, and its number is not the next one
        let r = quiet_catch(|| {
            let mut s = verif::Diagnostics::default();
            let mut steps: Vec<String> = vec![];
            let mut expect = |s: &mut verif::Diagnostics, what: &str, want: Vec<u32>, list: &[Diagnostic]| {
                let mut got = s.take_changes().unwrap_or_default();
                got.sort();
                if got != want {
                    steps.push(format!("{}: drained {:?} instead of {:?}", what, got, want));
                }
                if s.get(300) != list || s.get(1) != [diagnostic(0)] {
                    steps.push(format!("{}: the store lists other diagnostics than it was given", what));
                }
            };
            s.set_native(1, vec![diagnostic(0)]);
            s.set_native(300, a_list.clone());
            expect(&mut s, "first list", vec![1, 300], &a_list);
            s.set_native(300, b_list.clone());
            s.set_native(1, vec![diagnostic(0)]);
            expect(&mut s, "second list", if a_list == b_list { vec![] } else { vec![300] }, &b_list);
            s.set_native(300, a_list.clone());
            s.set_native(300, b_list.clone());
            s.set_native(300, b_list.clone());
            expect(&mut s, "there and back", if a_list == b_list { vec![] } else { vec![300] }, &b_list);
            // the same as a checker's
            let mut distinct: Vec<Diagnostic> = vec![];
            for d in a_list.iter().chain(&b_list) {
                s.add_check(300, d.clone());
                let known = distinct.contains(d);
                if !known {
                    distinct.push(d.clone());
                }
                let all: Vec<Diagnostic> = b_list.iter().chain(&distinct).cloned().collect();
                expect(&mut s, "checker", if known { vec![] } else { vec![300] }, &all);
            }
            s.clear_check();
            expect(&mut s, "cleared", if distinct.is_empty() { vec![] } else { vec![300] }, &b_list);
            steps
        });
        ck.add(1, (a.len() + b.len() + 6) as u64, 1);
        let trouble = r.unwrap_or_else(|e| vec![format!("panic: {}", e)]);
        if let Some(t) = trouble.first() {
            let name = |l: &[usize]| if l.len() > 12 { format!("{} diagnostics", l.len()) } else { format!("{:?}", l) };
            let at = a.iter().zip(b).position(|(x, y)| x != y);
            ck.violation(&format!("{} then {} (differ at {:?})", name(a), name(b), at), t);
        }
    });
    // many files
    for n in [10, 129, 300, 1000] {
        let mut s = verif::Diagnostics::default();
        for f in 0..n {
            s.set_native(f, vec![diagnostic(f as usize % 6)]);
            if f % 3 == 0 {
                s.add_check(f, diagnostic(6));
            }
        }
        let mut first = s.take_changes().unwrap_or_default();
        first.sort();
        for f in 0..n {
            s.set_native(f, vec![diagnostic(if f % 7 == 0 { 7 } else { f as usize % 6 })]);
        }
        let mut second = s.take_changes().unwrap_or_default();
        second.sort();
        s.clear_check();
        let mut third = s.take_changes().unwrap_or_default();
        third.sort();
        let want: [Vec<u32>; 3] = [(0..n).collect(), (0..n).filter(|f| f % 7 == 0).collect(), (0..n).filter(|f| f % 3 == 0).collect()];
        ck.add(1, 3 * n as u64, 1);
        if [first, second, third] != want {
            ck.violation(&format!("{} files", n), "the drained changes are not those of the altered files");
        }
    }
}

fn overlap(a: &Range, b: &Range) -> bool {
    a.start < b.end && b.start < a.end
}

/// Rows of touching edits in every rotation, disjoint but for one pair.
fn many_edits(ck: &Arc<Check>) {
    for n in [5u32, 9, 17, 33, 65, 130] {
        // (line, start, end): within one line, one a line, and over line ends
        let rows: [Vec<Range>; 3] = [
            (0..n).map(|k| Range::new(Position::new(0, 3 * k), Position::new(0, 3 * k + 3))).collect(),
            (0..n).map(|k| Range::new(Position::new(k, 1), Position::new(k, 5))).collect(),
            (0..n).map(|k| Range::new(Position::new(k, 200 - k), Position::new(k + 1, 199 - k))).collect(),
        ];
        for (r, row) in rows.iter().enumerate() {
            // clean, or edit `k` reaches one column into the next one
            for bad in std::iter::once(None).chain((0..n as usize - 1).map(Some)) {
                let mut row = row.clone();
                if let Some(k) = bad {
                    let next = row[k + 1];
                    row[k].end = Position::new(next.start.line, next.start.character + 1);
                }
                for shift in [0, 1, n as usize / 2, n as usize - 1] {
                    let mut edits: Vec<TextEdit> = row.iter().map(|&r| TextEdit::new(r, "t".into())).collect();
                    edits.rotate_left(shift);
                    let mut item = CompletionItem::new_simple("l".into(), "d".into());
                    item.text_edit = Some(CompletionTextEdit::Edit(edits.pop().unwrap()));
                    item.additional_text_edits = Some(edits.split_off(edits.len() / 2));
                    let got = quiet_catch(|| verif::all_edits_are_disjoint(&item, &edits));
                    ck.add(1, 1, 1);
                    if got.as_ref().ok() != Some(&bad.is_none()) {
                        ck.violation(&format!("row {} of {} edits from {}, overlapping at {:?}", r, n, shift, bad), &format!("called disjoint: {:?}", got));
                    }
                }
            }
        }
    }
}

pub fn c29(ck: &Arc<Check>) {
    let points: Vec<Position> = [(0, 0), (0, 1), (0, 4), (1, 0), (1, 2)][..ck.pick(4, 5)].iter().map(|&(l, c)| Position::new(l, c)).collect();
    let mut ranges = vec![];
    for (i, &a) in points.iter().enumerate() {
        for &b in &points[i..] {
            ranges.push(Range::new(a, b));
        }
    }
    let edit = |r: Range| TextEdit::new(r, "t".into());
    // the main edits
    let mut mains: Vec<(Option<CompletionTextEdit>, bool, Option<Range>)> = vec![(None, true, None)];
    for &r in &ranges {
        mains.push((Some(CompletionTextEdit::Edit(edit(r))), true, Some(r)));
    }
    for &i in &ranges {
        for &r in &ranges {
            let prefix = i.start == r.start && i.end <= r.end;
            mains.push((Some(CompletionTextEdit::InsertAndReplace(InsertReplaceEdit { new_text: "t".into(), insert: i, replace: r })), prefix, Some(r)));
        }
    }
    // lists of further edits
    let max = ck.pick(4, 4);
    let mut lists: Vec<Vec<usize>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..max {
        let to = lists.len();
        for i in from..to {
            for r in 0..ranges.len() {
                let mut l = lists[i].clone();
                l.push(r);
                lists.push(l);
            }
        }
        from = to;
    }
    ck.note("ranges", ranges.len());
    ck.note("main_edits", mains.len());
    ck.note("further_edits", max);
    many_edits(ck);
    par_for(lists.len(), |i| {
        let list = &lists[i];
        let mut n = 0;
        let clean = (0..list.len()).all(|a| (0..a).all(|b| !overlap(&ranges[list[a]], &ranges[list[b]])));
        for (main, prefix, range) in &mains {
            if ck.stopped() {
                return;
            }
            let want = *prefix && clean && range.map_or(true, |r| list.iter().all(|&o| !overlap(&r, &ranges[o])));
            // the first `own` belong to the completion
            for own in 0..=list.len() {
                if list.len() > 3 && own != 2 {
                    continue;
                }
                let edits: Vec<TextEdit> = list.iter().map(|&r| edit(ranges[r])).collect();
                let mut item = CompletionItem::new_simple("l".into(), "d".into());
                item.text_edit = main.clone();
                if own > 0 {
                    item.additional_text_edits = Some(edits[..own].to_vec());
                }
                let got = quiet_catch(|| verif::all_edits_are_disjoint(&item, &edits[own..]));
                n += 1;
                if got.as_ref().ok() != Some(&want) {
                    ck.violation(
                        &format!("{:?} with {:?}, {} of them the completion's", main, list.iter().map(|&r| ranges[r]).collect::<Vec<_>>(), own),
                        &format!("called disjoint: {:?}, should be {}", got, want),
                    );
                }
            }
        }
        if i % 5003 == 1 {
            ck.sample(format!("{:?}", list.iter().map(|&r| ranges[r]).collect::<Vec<_>>()));
        }
        ck.add(n, n, n);
    });
}
