//! What a client expects, computed naively.
use lsp_types::*;
use syntax::SourceFile;

/// `\r\n` and `\n` are line breaks.
pub fn normalized(text: &str) -> String {
    text.replace("\r\n", "\n")
}

pub fn position_at(text: &str, offset: usize, utf8: bool) -> Position {
    let before = &text[..offset];
    let line = before.bytes().filter(|&b| b == b'\n').count();
    let start = before.rfind('\n').map_or(0, |i| i + 1);
    let col = if utf8 { offset - start } else { before[start..].chars().map(char::len_utf16).sum() };
    Position::new(line as u32, col as u32)
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Diag {
    pub range: Range,
    pub message: String,
}

/// The syntax errors of the text (at most as many as the server reports at once).
pub fn errors(text: &str, utf8: bool) -> Vec<Diag> {
    let text = normalized(text);
    SourceFile::parse(&text)
        .errors()
        .iter()
        .take(128)
        .map(|e| Diag {
            range: Range::new(
                position_at(&text, u32::from(e.range().start()) as usize, utf8),
                position_at(&text, u32::from(e.range().end()) as usize, utf8),
            ),
            message: e.to_string(),
        })
        .collect()
}

/// Do the published diagnostics say the same?
pub fn same(expected: &[Diag], got: &[Diagnostic]) -> bool {
    expected.len() == got.len()
        && expected.iter().zip(got).all(|(e, g)| e.range == g.range && g.message.ends_with(&e.message) && g.severity == Some(DiagnosticSeverity::Error))
}

/// The byte offsets a position may denote: inside the document there is one; a column past the end of
/// a line may denote the end of the line with or without its line break.
pub fn offsets(text: &str, p: Position) -> Vec<usize> {
    let mut start = 0;
    for _ in 0..p.line {
        match text[start..].find('\n') {
            Some(i) => start += i + 1,
            None => return vec![text.len()],
        }
    }
    let rest = &text[start..];
    let (line, brk) = match rest.find('\n') {
        Some(i) if rest[..i].ends_with('\r') => (&rest[..i - 1], 2),
        Some(i) => (&rest[..i], 1),
        None => (rest, 0),
    };
    let mut col = 0;
    for (i, c) in line.char_indices() {
        if col == p.character {
            return vec![start + i];
        }
        col += c.len_utf16() as u32;
        if col > p.character {
            // inside a character: it may go to either side
            return vec![start + i, start + i + c.len_utf8()];
        }
    }
    if col == p.character || brk == 0 {
        return vec![start + line.len()];
    }
    vec![start + line.len(), start + line.len() + brk]
}

/// The texts that may result from an edit.
pub fn apply(text: &str, change: &TextDocumentContentChangeEvent) -> Vec<String> {
    let Some(r) = change.range else { return vec![change.text.clone()] };
    let mut res: Vec<String> = vec![];
    for s in offsets(text, r.start) {
        for e in offsets(text, r.end) {
            let (s, e) = (s.min(e), s.max(e));
            let t = format!("{}{}{}", &text[..s], change.text, &text[e..]);
            if !res.contains(&t) {
                res.push(t);
            }
        }
    }
    res
}

pub fn apply_all(texts: Vec<String>, changes: &[TextDocumentContentChangeEvent]) -> Vec<String> {
    let mut cur = texts;
    for c in changes {
        let mut next: Vec<String> = vec![];
        for t in &cur {
            for n in apply(t, c) {
                if !next.contains(&n) {
                    next.push(n);
                }
            }
        }
        cur = next;
    }
    cur
}
