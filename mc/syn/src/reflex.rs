//! Reference lexer, written from the token definitions in DESIGN.md (independent of /repo's lexer).
use syntax::SyntaxKind::{self, *};

const PUNCT: &[(&str, SyntaxKind)] = &[
    ("<==>", LT_EQ_EQ_GT),
    ("==>", EQ_EQ_GT),
    ("::", COLON_COLON),
    ("..", DOTDOT),
    ("&&", AMP_AMP),
    ("||", PIPE_PIPE),
    ("!=", BANG_EQ),
    ("==", EQ_EQ),
    (">>", GT_GT),
    (">=", GT_EQ),
    ("<<", LT_LT),
    ("<=", LT_EQ),
    (":", COLON),
    (";", SEMICOLON),
    (",", COMMA),
    ("(", L_PAREN),
    (")", R_PAREN),
    ("{", L_BRACE),
    ("}", R_BRACE),
    ("[", L_BRACK),
    ("]", R_BRACK),
    ("+", PLUS),
    ("-", MINUS),
    ("*", STAR),
    ("/", SLASH),
    ("%", MOD),
    ("#", NUMSIGN),
    ("@", ATSIGN),
    (".", DOT),
    ("&", AMP),
    ("^", CARET),
    ("|", PIPE),
    ("!", BANG),
    ("=", EQ),
    (">", GT),
    ("<", LT),
];

const KEYWORDS: &[(&str, SyntaxKind)] = &[
    ("struct", STRUCT_KW),
    ("script", SCRIPT_KW),
    ("module", MODULE_KW),
    ("const", CONST_KW),
    ("use", USE_KW),
    ("as", AS_KW),
    ("let", LET_KW),
    ("mut", MUT_KW),
    ("return", RETURN_KW),
    ("fun", FUN_KW),
    ("true", TRUE_KW),
    ("false", FALSE_KW),
    ("move", MOVE_KW),
    ("while", WHILE_KW),
    ("if", IF_KW),
    ("else", ELSE_KW),
    ("break", BREAK_KW),
    ("continue", CONTINUE_KW),
    ("address", ADDRESS_KW),
];

fn word(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b == b'_'
}

fn run(s: &[u8], p: impl Fn(u8) -> bool) -> usize {
    s.iter().take_while(|b| p(**b)).count()
}

fn number(s: &[u8]) -> usize {
    let suffix = |n: usize| {
        for suf in ["u128", "u64", "u8"] {
            if s[n..].starts_with(suf.as_bytes()) {
                return n + suf.len();
            }
        }
        n
    };
    if s.starts_with(b"0x") {
        let n = suffix(2 + run(&s[2..], |b| b.is_ascii_hexdigit()));
        if n > 2 {
            return n;
        }
        return 1;
    }
    suffix(run(s, |b| b.is_ascii_digit()))
}

/// Ok(len) for a closed byte string, Err(len) for an unterminated one (to the end of the line).
fn byte_string(s: &str) -> Result<usize, usize> {
    let eol = s.find('\n').unwrap_or(s.len());
    let eol = if s[..eol].ends_with('\r') && eol < s.len() { eol - 1 } else { eol };
    let line = &s[..eol];
    let mut escaped = false;
    for (i, c) in line.char_indices().skip(2) {
        if escaped {
            escaped = false;
        } else if c == '\\' {
            escaped = true;
        } else if c == '"' {
            return Ok(i + 1);
        }
    }
    Err(eol)
}

pub fn next(text: &str) -> (SyntaxKind, usize) {
    let s = text.as_bytes();
    let c = match text.chars().next() {
        None => return (EOF, 0),
        Some(c) => c,
    };
    if matches!(c, ' ' | '\n' | '\t') {
        return (WHITESPACE, run(s, |b| matches!(b, b' ' | b'\n' | b'\t')));
    }
    if text.starts_with("//") {
        return (COMMENT, text.find('\n').map_or(text.len(), |n| n + 1));
    }
    if c.is_ascii_digit() {
        return (INTEGER_NUMBER, number(s));
    }
    if text.starts_with("x\"") || text.starts_with("b\"") {
        return match byte_string(text) {
            Ok(n) => (BYTE_STRING, n),
            Err(n) => (ERROR, n),
        };
    }
    if c.is_ascii_alphabetic() || c == '_' {
        let n = run(s, word);
        let kind = KEYWORDS.iter().find(|k| k.0 == &text[..n]).map_or(IDENT, |k| k.1);
        return (kind, n);
    }
    if text.starts_with("&mut") && !s.get(4).map_or(false, |b| word(*b)) {
        return (AMP_MUT, 4);
    }
    for (p, k) in PUNCT {
        if text.starts_with(p) {
            return (*k, p.len());
        }
    }
    (ERROR, c.len_utf8())
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Tok {
    pub kind: SyntaxKind,
    pub start: usize,
    pub end: usize,
}

pub fn lex(text: &str) -> Vec<Tok> {
    let mut res = vec![];
    let mut pos = 0;
    while pos < text.len() {
        let (kind, len) = next(&text[pos..]);
        assert!(len > 0);
        res.push(Tok { kind, start: pos, end: pos + len });
        pos += len;
    }
    res
}

pub fn significant(toks: &[Tok]) -> Vec<Tok> {
    toks.iter().copied().filter(|t| !matches!(t.kind, WHITESPACE | COMMENT)).collect()
}
