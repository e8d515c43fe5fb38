//! The tree of a value has the shape of its text.
use crate::cmp::*;
use crate::sym::*;
use hastur::ast::visit::Visitor;
use hastur::ast::*;
use hastur::evaluated::Block;
use hastur::source_location::LocatedString;
use hastur::{MakefileError, ParseErrorKind};
use std::sync::Arc;

const END: u8 = 0x80;
const REF: u8 = 0x81;
const EVAL: u8 = 0x82;
const STRIP: u8 = 0x83;
const WORD: u8 = 0x84;
const WORDS: u8 = 0x85;
const NEXT: u8 = 0x86;

/// Writes a tree down
struct Write(Vec<u8>);
impl<'n> Visitor<'n> for Write {
    fn visit_constant(&mut self, c: &'n LocatedString) {
        self.0.extend_from_slice(c.as_bytes())
    }
    fn visit_pre_evaluated(&mut self, b: &'n Arc<Block>) {
        self.0.extend_from_slice(b.into_string().as_bytes())
    }
    fn visit_variable_reference(&mut self, a: &'n AstNode) {
        self.0.push(REF);
        self.super_variable_reference(a);
        self.0.push(END)
    }
    fn visit_eval(&mut self, a: &'n AstNode) {
        self.0.push(EVAL);
        self.super_eval(a);
        self.0.push(END)
    }
    fn visit_strip(&mut self, a: &'n AstNode) {
        self.0.push(STRIP);
        self.super_strip(a);
        self.0.push(END)
    }
    fn visit_word(&mut self, a: &'n AstNode, b: &'n AstNode) {
        self.0.push(WORD);
        self.visit_ast(a);
        self.0.push(NEXT);
        self.visit_ast(b);
        self.0.push(END)
    }
    fn visit_words(&mut self, a: &'n AstNode) {
        self.0.push(WORDS);
        self.super_words(a);
        self.0.push(END)
    }
}
enum No {
    Open,
    Few,
    Many(u8),
    Outside,
}
fn blank(c: u8) -> bool {
    c == b' ' || c == b'\t'
}
fn skip(mut t: &[u8]) -> &[u8] {
    while t.len() > 0 && blank(t[0]) {
        t = &t[1..]
    }
    t
}
/// The shape of a text, from its definition
fn shape(t: &[u8], o: &mut Vec<u8>) -> Result<(), No> {
    let mut i = 0;
    while i < t.len() {
        if t[i] != b'$' {
            o.push(t[i]);
            i += 1;
            continue;
        }
        if i + 1 == t.len() {
            o.push(b'$');
            i += 1;
            continue;
        }
        let c = t[i + 1];
        if c == b'$' {
            o.push(b'$');
            i += 2;
            continue;
        }
        if c != b'(' && c != b'{' {
            o.push(REF);
            o.push(c);
            o.push(END);
            i += 2;
            continue;
        }
        let d = if c == b'(' { b')' } else { b'}' };
        let mut depth = 1;
        let mut j = i + 2;
        while j < t.len() {
            if t[j] == c {
                depth += 1
            } else if t[j] == d {
                depth -= 1;
                if depth == 0 {
                    break;
                }
            }
            j += 1
        }
        if j == t.len() {
            return Err(No::Open);
        }
        inside(&t[i + 2..j], o)?;
        i = j + 1
    }
    Ok(())
}
fn inside(b: &[u8], o: &mut Vec<u8>) -> Result<(), No> {
    let f: &[(&[u8], u8)] = &[(b"eval", EVAL), (b"strip", STRIP), (b"words", WORDS), (b"word", WORD)];
    for (n, k) in f {
        if b.len() <= n.len() || !same(&b[..n.len()], n) || !blank(b[n.len()]) {
            continue;
        }
        let a = skip(&b[n.len()..]);
        o.push(*k);
        if *k == EVAL {
            shape(a, o)?;
            o.push(END);
            return Ok(());
        }
        // commas outside of any bracket separate arguments
        let mut args: Vec<&[u8]> = vec![];
        let (mut p, mut q) = (0i32, 0i32);
        let mut s = 0;
        for i in 0..a.len() {
            match a[i] {
                b'(' => p += 1,
                b')' => p -= 1,
                b'{' => q += 1,
                b'}' => q -= 1,
                b',' if p == 0 && q == 0 => {
                    args.push(skip(&a[s..i]));
                    s = i + 1
                }
                _ => {}
            }
            if p < 0 || q < 0 {
                return Err(No::Outside);
            }
        }
        args.push(skip(&a[s..]));
        let n = if *k == WORD { 2 } else { 1 };
        if args.len() < n {
            return Err(No::Few);
        }
        if args.len() > n {
            return Err(No::Many(*k));
        }
        shape(args[0], o)?;
        if n == 2 {
            o.push(NEXT);
            shape(args[1], o)?;
        }
        o.push(END);
        return Ok(());
    }
    o.push(REF);
    shape(b, o)?;
    o.push(END);
    Ok(())
}
/// v = text
fn value(t: &[u8]) {
    let mut all = b"v = ".to_vec();
    all.extend_from_slice(t);
    all.push(b'\n');
    observe(&all);
    let mut want = vec![];
    let e = shape(skip(t), &mut want);
    let mut r = Real::new();
    if let Err(No::Outside) = e {
        cover("outside");
        reject()
    }
    let got = r.engine.read_makefile(&mut r.names, &mut &all[..], "Makefile");
    let kind = match got {
        Ok(()) => None,
        Err(MakefileError::ParseError(k)) => Some(k),
        _ => {
            check(false, "no I/O error");
            return;
        }
    };
    match e {
        Ok(()) => {
            cover("accepted");
            check(kind.is_none(), "accepted");
            let db = r.engine.database.clone();
            let v = match r.names.variable_name("v").and_then(|n| db.get_variable(n)) {
                Some(v) => v,
                None => {
                    check(false, "the variable is set");
                    return;
                }
            };
            let mut w = Write(vec![]);
            w.visit_ast(v.ast());
            observe(&w.0);
            check_same(&w.0, &want, "the tree has the shape of the text");
        }
        Err(No::Open) => {
            cover("rejected");
            check(kind == Some(ParseErrorKind::UnternimatedVariable), "unterminated reference")
        }
        Err(No::Few) => {
            cover("rejected");
            check(kind == Some(ParseErrorKind::InsufficientArguments("word")), "too few arguments")
        }
        Err(No::Many(k)) => {
            cover("rejected");
            let n = match k {
                STRIP => "strip",
                WORD => "word",
                _ => "words",
            };
            check(kind == Some(ParseErrorKind::ExtraArguments(n)), "too many arguments")
        }
        Err(No::Outside) => {}
    }
}
#[no_mangle]
pub fn h_tree_free() {
    let mut t = T::new();
    t.syms(5, b"$(){}ab ");
    value(&t.0)
}
#[no_mangle]
pub fn h_tree_free7() {
    let mut t = T::new();
    t.syms(7, b"$(){}a");
    value(&t.0)
}
const F: &[&str] = &["eval", "strip", "word", "words", "evalx", "wor"];
#[no_mangle]
pub fn h_tree_call() {
    let mut t = T::new();
    t.pick(&["", "a$b"]).pick(&["$(", "${"]).pick(F).syms(1, b" \t,x").syms(3, b"a, $(){}").pick(&[")", "}", ")b", ",c)"]);
    value(&t.0)
}
#[no_mangle]
pub fn h_tree_nest() {
    let mut t = T::new();
    t.lit("$(").pick(F).lit(" ");
    t.pick(&["$(", "${"]).pick(F).sym(b" ,").pick(&["a", "$b", "a,b", "$(a,b)", "(a,b)", "1, {x} y"]).pick(&[")", "}"]).pick(&["", ",", ", ", "x"]).pick(&["c", "$(word 1,$(c))", ""]).lit(")");
    value(&t.0)
}
#[no_mangle]
pub fn h_tree_args() {
    let mut t = T::new();
    t.lit("$(").pick(&["word", "words", "strip"]).lit(" ").syms(5, b"a, ()").lit(")");
    value(&t.0)
}
