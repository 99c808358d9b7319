//! Reference parser for the supported Move subset, written from the grammar in DESIGN.md.
//! It accepts exactly the language, yields the prescribed tree (nodes in the order they are
//! completed, as ranges of significant tokens) and, for a rejected text, the index of the first
//! token at which no continuation exists.
use crate::reflex::Tok;
use syntax::SyntaxKind::{self, *};

pub type Node = (SyntaxKind, usize, usize);

pub struct RefParse<'a> {
    text: &'a str,
    toks: &'a [Tok],
    pos: usize,
    pub nodes: Vec<Node>,
    pub remap: Vec<(usize, SyntaxKind)>,
    /// Tokens at which an unambiguous continuation existed (see `DESIGN.md`).
    pub states: usize,
}

type R = Result<(), usize>;

impl<'a> RefParse<'a> {
    pub fn new(text: &'a str, toks: &'a [Tok]) -> Self {
        RefParse { text, toks, pos: 0, nodes: vec![], remap: vec![], states: 0 }
    }
    fn at(&self, k: SyntaxKind) -> bool {
        self.peek(0) == k
    }
    fn peek(&self, n: usize) -> SyntaxKind {
        self.toks.get(self.pos + n).map_or(EOF, |t| t.kind)
    }
    fn bump(&mut self) {
        self.pos += 1;
        self.states += 1;
    }
    fn eat(&mut self, k: SyntaxKind) -> bool {
        let r = self.at(k);
        if r {
            self.bump();
        }
        r
    }
    fn need(&mut self, k: SyntaxKind) -> R {
        if self.eat(k) { Ok(()) } else { Err(self.pos) }
    }
    fn done(&mut self, k: SyntaxKind, from: usize) {
        self.nodes.push((k, from, self.pos));
    }
    fn wrap(&mut self, k: SyntaxKind) -> R {
        let s = self.pos;
        self.need(IDENT)?;
        self.done(k, s);
        Ok(())
    }
    pub fn file(&mut self) -> R {
        loop {
            match self.peek(0) {
                EOF => break,
                MODULE_KW => self.module()?,
                SCRIPT_KW => {
                    let s = self.pos;
                    self.bump();
                    self.items_or_semi()?;
                    self.done(SCRIPT_DEF, s);
                }
                ADDRESS_KW => {
                    let s = self.pos;
                    self.bump();
                    let a = self.pos;
                    self.address()?;
                    self.done(ADDRESS_IDENT, a);
                    let l = self.pos;
                    self.need(L_BRACE)?;
                    while !self.at(R_BRACE) {
                        if !self.at(MODULE_KW) {
                            return Err(self.pos);
                        }
                        self.module()?;
                    }
                    self.bump();
                    self.done(ADDRESS_ITEM_LIST, l);
                    self.done(ADDRESS_DEF, s);
                }
                _ => return Err(self.pos),
            }
        }
        self.done(SOURCE_FILE, 0);
        Ok(())
    }
    fn address(&mut self) -> R {
        match self.peek(0) {
            IDENT => self.bump(),
            INTEGER_NUMBER => {
                let t = self.toks[self.pos];
                if !self.text[t.start..t.end].starts_with("0x") {
                    return Err(self.pos);
                }
                self.remap.push((self.pos, DIEM_ADDRESS));
                self.bump()
            }
            _ => return Err(self.pos),
        }
        Ok(())
    }
    fn module(&mut self) -> R {
        let s = self.pos;
        self.bump();
        if self.at(INTEGER_NUMBER) || self.peek(1) == COLON_COLON {
            let a = self.pos;
            self.address()?;
            self.done(ADDRESS_IDENT, a);
            self.need(COLON_COLON)?;
        }
        self.wrap(NAME)?;
        self.items_or_semi()?;
        self.done(MODULE_DEF, s);
        Ok(())
    }
    fn items_or_semi(&mut self) -> R {
        if self.eat(SEMICOLON) {
            return Ok(());
        }
        let s = self.pos;
        self.need(L_BRACE)?;
        loop {
            match self.peek(0) {
                R_BRACE => break,
                FUN_KW => self.function()?,
                STRUCT_KW => self.structure()?,
                _ => return Err(self.pos),
            }
        }
        self.bump();
        self.done(ITEM_LIST, s);
        Ok(())
    }
    fn function(&mut self) -> R {
        let s = self.pos;
        self.bump();
        self.wrap(NAME)?;
        let l = self.pos;
        self.need(L_PAREN)?;
        while !self.at(R_PAREN) {
            let p = self.pos;
            self.wrap(NAME)?;
            self.need(COLON)?;
            self.type_()?;
            self.done(PARAM, p);
            if !self.at(R_PAREN) {
                self.need(COMMA)?;
            }
        }
        self.bump();
        self.done(PARAM_LIST, l);
        if self.at(COLON) {
            let r = self.pos;
            self.bump();
            self.type_()?;
            self.done(RET_TYPE, r);
        }
        self.block()?;
        self.done(FUNCTION_DEF, s);
        Ok(())
    }
    fn structure(&mut self) -> R {
        let s = self.pos;
        self.bump();
        self.wrap(NAME)?;
        if self.at(LT) {
            let g = self.pos;
            self.bump();
            while !self.at(GT) {
                let t = self.pos;
                self.wrap(NAME)?;
                if self.eat(COLON) {
                    let b = self.pos;
                    while self.at(IDENT) {
                        let one = self.pos;
                        self.wrap(NAME)?;
                        self.done(TYPE_BOUND, one);
                        if !self.eat(PLUS) {
                            break;
                        }
                    }
                    self.done(TYPE_BOUND_LIST, b);
                }
                self.done(TYPE_PARAM, t);
                if !self.at(GT) {
                    self.need(COMMA)?;
                }
            }
            self.bump();
            self.done(GENERIC_PARAM_LIST, g);
        }
        if !self.eat(SEMICOLON) {
            let l = self.pos;
            self.need(L_BRACE)?;
            while !self.at(R_BRACE) {
                let f = self.pos;
                self.wrap(NAME)?;
                self.need(COLON)?;
                self.type_()?;
                self.done(RECORD_FIELD, f);
                if !self.at(R_BRACE) {
                    self.need(COMMA)?;
                }
            }
            self.bump();
            self.done(RECORD_FIELD_LIST, l);
        }
        self.done(STRUCT, s);
        Ok(())
    }
    fn type_(&mut self) -> R {
        let s = self.pos;
        match self.peek(0) {
            AMP => {
                self.bump();
                self.eat(MUT_KW);
                self.type_()?;
                self.done(REF_TYPE, s);
            }
            AMP_MUT => {
                self.bump();
                self.type_()?;
                self.done(REF_TYPE, s);
            }
            IDENT => {
                self.path()?;
                self.done(PATH_TYPE, s);
            }
            _ => return Err(self.pos),
        }
        Ok(())
    }
    fn path(&mut self) -> R {
        let s = self.pos;
        self.wrap(NAME_REF)?;
        self.done(PATH_SEGMENT, s);
        self.done(PATH, s);
        while self.eat(COLON_COLON) {
            let seg = self.pos;
            self.wrap(NAME_REF)?;
            self.done(PATH_SEGMENT, seg);
            self.done(PATH, s);
        }
        Ok(())
    }
    fn block(&mut self) -> R {
        let s = self.pos;
        self.need(L_BRACE)?;
        while !self.at(R_BRACE) {
            let st = self.pos;
            if self.eat(LET_KW) {
                self.pattern()?;
                if self.eat(COLON) {
                    self.type_()?;
                }
                if self.eat(EQ) {
                    self.expr(0)?;
                }
                self.eat(SEMICOLON);
                self.done(LET_STMT, st);
            } else {
                self.expr(0)?;
                self.eat(SEMICOLON);
                self.done(EXPR_STMT, st);
            }
        }
        self.bump();
        self.done(BLOCK_EXPR, s);
        Ok(())
    }
    fn pattern(&mut self) -> R {
        let s = self.pos;
        match self.peek(0) {
            MUT_KW => {
                self.bump();
                self.wrap(NAME)?;
                self.done(IDENT_PAT, s);
            }
            IDENT if self.peek(1) == L_BRACE => {
                self.wrap(NAME_REF)?;
                self.done(PATH_SEGMENT, s);
                self.done(PATH, s);
                let l = self.pos;
                self.bump();
                while !self.at(R_BRACE) {
                    let f = self.pos;
                    if self.at(IDENT) && self.peek(1) == COLON {
                        self.wrap(NAME_REF)?;
                        self.bump();
                        self.pattern()?;
                    } else {
                        self.eat(MUT_KW);
                        self.wrap(NAME)?;
                        self.done(IDENT_PAT, f);
                    }
                    self.done(RECORD_PAT_FIELD, f);
                    if !self.at(R_BRACE) {
                        self.need(COMMA)?;
                    }
                }
                self.bump();
                self.done(RECORD_PAT_FIELD_LIST, l);
                self.done(RECORD_PAT, s);
            }
            IDENT => {
                self.wrap(NAME)?;
                self.done(IDENT_PAT, s);
            }
            L_PAREN => {
                self.bump();
                let (mut n, mut comma) = (0, false);
                while !self.at(R_PAREN) {
                    self.pattern()?;
                    n += 1;
                    if !self.at(R_PAREN) {
                        self.need(COMMA)?;
                        comma = true;
                    }
                }
                self.bump();
                self.done(if n == 1 && !comma { PAREN_PAT } else { TUPLE_PAT }, s);
            }
            _ => return Err(self.pos),
        }
        Ok(())
    }
    /// Level of a binary operator in the table of DESIGN.md, loosest first.
    pub fn level(k: SyntaxKind) -> Option<u8> {
        Some(match k {
            EQ => 1,
            PIPE_PIPE => 2,
            AMP_AMP => 3,
            EQ_EQ | BANG_EQ | LT | GT | LT_EQ | GT_EQ => 4,
            PIPE => 5,
            CARET => 6,
            AMP => 7,
            LT_LT | GT_GT => 8,
            PLUS | MINUS => 9,
            STAR | SLASH | MOD => 10,
            _ => return None,
        })
    }
    // Operator-precedence climbing by level: an operator extends the expression when its level is
    // above `above`.
    fn expr(&mut self, above: u8) -> R {
        let s = self.pos;
        self.unary()?;
        while let Some(l) = Self::level(self.peek(0)) {
            if l <= above {
                break;
            }
            self.bump();
            self.expr(l)?;
            self.done(BIN_EXPR, s);
        }
        Ok(())
    }
    fn unary(&mut self) -> R {
        let s = self.pos;
        if matches!(self.peek(0), STAR | BANG | MINUS) {
            self.bump();
            self.unary()?;
            self.done(PREFIX_EXPR, s);
            return Ok(());
        }
        self.atom()?;
        loop {
            if self.at(L_PAREN) {
                let l = self.pos;
                self.bump();
                while !self.at(R_PAREN) {
                    self.expr(0)?;
                    if !self.at(R_PAREN) {
                        self.need(COMMA)?;
                    }
                }
                self.bump();
                self.done(ARG_LIST, l);
                self.done(CALL_EXPR, s);
            } else if self.at(DOT) {
                self.bump();
                self.wrap(NAME_REF)?;
                self.done(DOT_EXPR, s);
            } else {
                return Ok(());
            }
        }
    }
    fn atom(&mut self) -> R {
        let s = self.pos;
        match self.peek(0) {
            TRUE_KW | FALSE_KW | INTEGER_NUMBER | BYTE_STRING | HEX_STRING => {
                self.bump();
                self.done(LITERAL, s);
            }
            ATSIGN => {
                self.bump();
                self.address()?;
                self.done(ADDRESS_LIT, s);
                self.done(LITERAL, s);
            }
            IDENT => {
                self.path()?;
                if self.at(L_BRACE) {
                    let l = self.pos;
                    self.bump();
                    while !self.at(R_BRACE) {
                        let f = self.pos;
                        if self.at(IDENT) && self.peek(1) == COLON {
                            self.wrap(NAME_REF)?;
                            self.bump();
                            self.expr(0)?;
                        } else if self.at(IDENT) || self.at(INTEGER_NUMBER) {
                            self.expr(0)?;
                        } else {
                            return Err(self.pos);
                        }
                        self.done(RECORD_EXPR_FIELD, f);
                        if !self.at(R_BRACE) {
                            self.need(COMMA)?;
                        }
                    }
                    self.bump();
                    self.done(RECORD_EXPR_FIELD_LIST, l);
                    self.done(RECORD_EXPR, s);
                } else {
                    self.done(PATH_EXPR, s);
                }
            }
            L_PAREN => {
                self.bump();
                while !self.at(R_PAREN) {
                    self.expr(0)?;
                }
                self.bump();
                self.done(PAREN_EXPR, s);
            }
            L_BRACE => self.block()?,
            _ => return Err(self.pos),
        }
        Ok(())
    }
}
