//! C16: the line index on every short text against counting.
use ide_db::{LineCol, LineColUtf16, LineIndex};
use mc_core::*;
use std::convert::TryFrom;
use std::sync::Arc;
use syntax::{TextRange, TextSize};

fn one(text: &str) -> Result<u64, String> {
    let idx = LineIndex::new(text);
    let at = |o: usize| TextSize::try_from(o).unwrap();
    let mut n = 0;
    let bounds: Vec<usize> = (0..=text.len()).filter(|&o| text.is_char_boundary(o)).collect();
    for &o in &bounds {
        n += 1;
        let before = &text[..o];
        let line = before.matches('\n').count() as u32;
        let start = before.rfind('\n').map_or(0, |i| i + 1);
        let lc = LineCol { line, col: (o - start) as u32 };
        let l16 = LineColUtf16 { line, col: text[start..o].encode_utf16().count() as u32 };
        if idx.line_col(at(o)) != lc {
            return Err(format!("line_col({}) = {:?}, expected {:?}", o, idx.line_col(at(o)), lc));
        }
        if idx.offset(lc) != at(o) {
            return Err(format!("offset({:?}) = {:?}, expected {}", lc, idx.offset(lc), o));
        }
        if idx.to_utf16(lc) != l16 {
            return Err(format!("to_utf16({:?}) = {:?}, expected {:?}", lc, idx.to_utf16(lc), l16));
        }
        if idx.to_utf8(l16) != lc {
            return Err(format!("to_utf8({:?}) = {:?}, expected {:?}", l16, idx.to_utf8(l16), lc));
        }
    }
    for (i, &a) in bounds.iter().enumerate() {
        for &b in &bounds[i..] {
            n += 1;
            // cut text[a..b] after every line feed
            let mut want = vec![];
            let mut s = a;
            for (j, c) in text[a..b].char_indices() {
                if c == '\n' {
                    want.push((s, a + j + 1));
                    s = a + j + 1;
                }
            }
            if s < b {
                want.push((s, b));
            }
            let got: Vec<(usize, usize)> =
                idx.lines(TextRange::new(at(a), at(b))).map(|r| (r.start().into(), r.end().into())).collect();
            if got != want {
                return Err(format!("lines({}..{}) = {:?}, expected {:?}", a, b, got, want));
            }
        }
    }
    Ok(n)
}

pub fn c16(ck: &Arc<Check>) {
    let alpha = ["a", "\n", "é", "€", "😀", "\r", "\t"];
    let depth = ck.pick(7, 8);
    ck.note("alphabet", alpha.to_vec());
    ck.note("length_up_to", depth as u64);
    let judge = |text: &str| {
        match quiet_catch(|| one(text)) {
            Ok(Ok(n)) => ck.add(1, n, 1),
            Ok(Err(e)) => ck.violation(&format!("{:?}", text), &e),
            Err(e) => ck.violation(&format!("{:?}", text), &format!("panic: {}", e)),
        }
    };
    judge("");
    par_sequences(alpha.len(), depth, |seq| {
        let t: String = seq.iter().map(|&i| alpha[i]).collect();
        judge(&t);
        if seq.len() == depth && seq[0] == 4 && seq[1] == 1 && seq[2..].iter().all(|&i| i == 3) {
            ck.sample(format!("{:?}", t));
        }
        !ck.stopped()
    });
    // every Unicode character next to itself, to others and to line ends
    par_for(0x110000 / 0x400, |b| {
        if ck.stopped() {
            return;
        }
        for c in (b as u32 * 0x400..(b as u32 + 1) * 0x400).filter_map(char::from_u32) {
            judge(&format!("{}a{}\n{}\u{e9}", c, c, c));
            if (c as u32) < 0x3000 || ck.thorough {
                judge(&format!("\u{20ac}{}\n\n{}{}\r\n", c, c, c));
            }
        }
    });
    // long lines and many lines: every arrangement of two blocks of up to 300 units
    for a in alpha {
        for b in alpha {
            for (m, n) in [(1, 255), (255, 1), (256, 2), (40, 41), (127, 128)] {
                judge(&format!("{}{}{}", a.repeat(m), b.repeat(n), a));
            }
        }
    }
    // lengths around powers of two: lines, columns, characters of several bytes in one line, lines with such characters
    let mut larges: Vec<String> = vec![];
    let sizes = [126, 127, 128, 129, 254, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 32_767, 32_768, 65_534, 65_535, 65_536, 65_537, ck.pick(70_000, 1_000_000)];
    for n in sizes {
        for a in alpha {
            larges.push(a.repeat(n));
            for b in ["a", "\n", "é", "€", "😀"] {
                larges.push(format!("{}{}a{}", a.repeat(n), b, b));
                larges.push(format!("{}{}\n{}", b, a.repeat(n), b));
            }
        }
        for unit in ["a\n", "é\n", "aé", "😀\n", "\n\na", "a\r\n", "ab😀é\n"] {
            larges.push(unit.repeat(n));
            larges.push(format!("{}€\n{}😀", unit.repeat(n), unit.repeat(3)));
        }
    }
    ck.note("large_texts", larges.len() as u64);
    par_for(larges.len(), |i| {
        if ck.stopped() {
            return;
        }
        let t = &larges[i];
        let name = || format!("{:?}.. of {} bytes ending with {:?}", t.chars().take(4).collect::<String>(), t.len(), t.chars().rev().take(4).collect::<Vec<_>>());
        match quiet_catch(|| large(t)) {
            Ok(Ok(n)) => ck.add(1, n, 1),
            Ok(Err(e)) => ck.violation(&name(), &e),
            Err(e) => ck.violation(&name(), &format!("panic: {}", e)),
        }
    });
}

/// As `one`, at landmarks: offsets around powers of two, line starts around such lines, the ends.
fn large(text: &str) -> Result<u64, String> {
    let idx = LineIndex::new(text);
    let at = |o: usize| TextSize::try_from(o).unwrap();
    let mut starts = vec![0];
    starts.extend(text.bytes().enumerate().filter(|b| b.1 == b'\n').map(|b| b.0 + 1));
    let mut marks: Vec<usize> = (0..24).flat_map(|k| { let p = 1usize << k; vec![p - 1, p, p + 1, p + 2] }).collect();
    let lines: Vec<usize> = marks.iter().copied().filter(|l| *l < starts.len()).chain([0, starts.len() - 1, starts.len().saturating_sub(2)]).collect();
    for l in lines {
        marks.extend([starts[l], starts[l] + 1, starts[l] + 3, starts[l].saturating_sub(1), starts[l].saturating_sub(2)]);
        // the same landmarks within the line
        marks.extend((7..18).flat_map(|k| { let p = starts[l] + (1usize << k); vec![p - 1, p, p + 1] }));
    }
    marks.extend((0..8).map(|d| text.len().saturating_sub(d)));
    marks.extend((0..40).map(|k| k * text.len() / 40));
    marks.retain(|&o| o <= text.len());
    for m in &mut marks {
        while !text.is_char_boundary(*m) {
            *m -= 1;
        }
    }
    marks.sort();
    marks.dedup();
    let mut n = 0;
    // UTF-16 length up to each landmark of its line
    let (mut line, mut pos, mut units) = (0, 0, 0u32);
    for &o in &marks {
        while line + 1 < starts.len() && starts[line + 1] <= o {
            line += 1;
            pos = starts[line];
            units = 0;
        }
        units += text[pos..o].chars().map(|c| c.len_utf16() as u32).sum::<u32>();
        pos = o;
        let lc = LineCol { line: line as u32, col: (o - starts[line]) as u32 };
        let l16 = LineColUtf16 { line: line as u32, col: units };
        n += 4;
        if idx.line_col(at(o)) != lc {
            return Err(format!("line_col({}) = {:?}, expected {:?}", o, idx.line_col(at(o)), lc));
        }
        if idx.offset(lc) != at(o) {
            return Err(format!("offset({:?}) = {:?}, expected {}", lc, idx.offset(lc), o));
        }
        if idx.to_utf16(lc) != l16 {
            return Err(format!("to_utf16({:?}) = {:?}, expected {:?}", lc, idx.to_utf16(lc), l16));
        }
        if idx.to_utf8(l16) != lc {
            return Err(format!("to_utf8({:?}) = {:?}, expected {:?}", l16, idx.to_utf8(l16), lc));
        }
    }
    let ends: Vec<usize> = marks.iter().copied().step_by(marks.len() / 12 + 1).chain(marks.iter().rev().take(4).copied()).collect();
    for &a in &ends {
        for &b in &ends {
            if a > b {
                continue;
            }
            n += 1;
            let first = starts.partition_point(|s| *s <= a);
            let mut from = a;
            let mut got = idx.lines(TextRange::new(at(a), at(b)));
            for &s in starts[first..].iter().take_while(|s| **s <= b).chain([&b]) {
                if s > from {
                    let r = got.next().map(|r| (usize::from(r.start()), usize::from(r.end())));
                    if r != Some((from, s)) {
                        return Err(format!("lines({}..{}): got {:?}, expected {:?}", a, b, r, (from, s)));
                    }
                    from = s;
                }
            }
            if let Some(r) = got.next() {
                return Err(format!("lines({}..{}): also {:?}", a, b, r));
            }
        }
    }
    Ok(n)
}
