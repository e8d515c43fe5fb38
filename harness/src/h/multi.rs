//! Several texts, one after the other and in pieces.
use crate::cmp::*;
use crate::refmake::Db;
use crate::sym::*;
use hastur::evaluated::{constant, Block, ContentReference, EvaluatedNode};
use hastur::source_location::LocatedString;
use std::io::{BufRead, Error, ErrorKind, Read};
use std::sync::Arc;

fn files(texts: &[&[u8]], vars: &[&str]) {
    for t in texts {
        observe(t)
    }
    let mut rf = Db::new();
    let x = expect(&mut rf, texts, vars);
    let mut real = Real::new();
    let mut ok = true;
    for (i, t) in texts.iter().enumerate() {
        if !real.read(t, ["m1", "m2", "m3"][i]) {
            ok = false;
            break;
        }
    }
    compare(&x, ok, &mut real);
}
const PART: &[&str] = &[
    "v = 1\n", "v += 2\n", "w := $(v)\n", "v ?= 3", "a: b\n", "a: c\n\tx $(v)\n", "ifeq (a,b)\n", "ifeq ($(v),1)\nw = 5", "define v\n6\nendef", "$(eval w = 7)\n", "\ty\n", "endif\n", "junk\n", "v = 8 \\",
];
#[no_mangle]
pub fn h_multi_files() {
    let (mut a, mut b) = (T::new(), T::new());
    a.pick(PART).pick(&["", "a: d\n", "v := 9\n"]);
    b.pick(PART).pick(&["", "w += $(v)\n"]);
    files(&[&a.0, &b.0], &["v", "w"]);
}
#[no_mangle]
pub fn h_multi_three() {
    let (mut a, mut b, mut c) = (T::new(), T::new(), T::new());
    a.pick(PART);
    b.pick(PART);
    c.pick(PART);
    files(&[&a.0, &b.0, &c.0], &["v", "w"]);
}
#[no_mangle]
pub fn h_multi_free() {
    let (mut a, mut b) = (T::new(), T::new());
    a.lit("v").syms(3, b"=:\nx\t\\");
    b.syms(3, b"=:\nv\t ");
    files(&[&a.0, &b.0], &["v", "x"]);
}
/// Cuts the text into pieces at up to n places, in one of several ways
fn cut(t: &[u8], n: u8) -> Block {
    let mut b = Block::default();
    let mut at = 0;
    for _ in 0..n {
        let k = at + choose((t.len() - at) as u8 + 1) as usize;
        if !st(t).is_char_boundary(k) {
            reject()
        }
        b.push(piece(&t[at..k]));
        at = k
    }
    b.push(piece(&t[at..]));
    b
}
fn piece(t: &[u8]) -> ContentReference {
    let s = |t: &[u8]| constant(LocatedString::synthetic_new(st(t).to_string()));
    match choose(3) {
        0 => s(t),
        1 => {
            let mut x = b"\n=".to_vec();
            x.extend_from_slice(t);
            x.extend_from_slice(b"#$");
            let n = Arc::new(EvaluatedNode::Constant(LocatedString::synthetic_new(st(&x).to_string())));
            ContentReference::new_from_node_slice(n, 2, t.len())
        }
        _ => {
            let mut k = Block::default();
            let h = t.len() / 2;
            if !st(t).is_char_boundary(h) {
                reject()
            }
            k.push(s(&t[..h]));
            k.push(s(&t[h..]));
            hastur::evaluated::concat(Arc::new(k))
        }
    }
}
fn pieces(t: &[u8], cuts: u8, vars: &[&str]) {
    observe(t);
    let mut rf = Db::new();
    let x = expect(&mut rf, &[t], vars);
    let b = cut(t, cuts);
    check_same(b.into_string().as_bytes(), t, "text of the pieces");
    let mut real = Real::new();
    let ok = real.engine.process_block(&mut real.names, &b).is_ok();
    compare(&x, ok, &mut real);
}
#[no_mangle]
pub fn h_pieces_assign() {
    let mut t = T::new();
    t.pick(&["v = $(w)x\nw := y", "v += a\\\n b # c\nw = 1\n", "ifeq (a,b)\nelse\nv = 1\nendif", "define v\nx\nendef\nw = 2\n", "$(eval v = 1)w = 2", "w = p.c q\nv := $(w:.c=.o)", "\u{feff}v = \u{e9}\u{20ac}"]).sym(b"\n \\#");
    pieces(&t.0, 1, &["v", "w"]);
}
#[no_mangle]
pub fn h_pieces_rule() {
    let mut t = T::new();
    t.pick(&["a b: c d\n\te\n", "a:b;c\\\n\td", "v = q\na\\ b: $(v) d\n\t$(v) \\\n\tf\n\ng: a"]).sym(b"\n \\:");
    pieces(&t.0, 1, &[]);
}
#[no_mangle]
pub fn h_pieces_free() {
    let mut t = T::new();
    t.lit("v").syms(4, b"=\n\\ #:$");
    pieces(&t.0, 1, &["v"]);
}
#[no_mangle]
pub fn h_pieces_two() {
    let mut t = T::new();
    t.lit("v=").pick(&["$(w)\\\nx\nw=1", "a\n\\\nb: c ", "$$#\\\n"]).sym(b"\n y");
    pieces(&t.0, 2, &["v", "w"]);
}
/// Hands out a text in chunks, or fails
struct Chunks<'a> {
    text: &'a [u8],
    ends: Vec<usize>,
    at: usize,
    fail: Option<usize>,
    interrupted: Option<usize>,
}
impl<'a> Chunks<'a> {
    fn end(&self) -> usize {
        for e in self.ends.iter() {
            if *e > self.at {
                return *e;
            }
        }
        self.text.len()
    }
    fn fault(&mut self) -> Result<(), Error> {
        if self.interrupted == Some(self.at) {
            self.interrupted = None;
            return Err(Error::from(ErrorKind::Interrupted));
        }
        match self.fail {
            Some(f) if self.at >= f => Err(Error::from(ErrorKind::Other)),
            _ => Ok(()),
        }
    }
}
impl<'a> Read for Chunks<'a> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize, Error> {
        self.fault()?;
        let mut n = self.end() - self.at;
        if n > buf.len() {
            n = buf.len()
        }
        buf[..n].copy_from_slice(&self.text[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}
impl<'a> BufRead for Chunks<'a> {
    fn fill_buf(&mut self) -> Result<&[u8], Error> {
        self.fault()?;
        let e = self.end();
        Ok(&self.text[self.at..e])
    }
    fn consume(&mut self, n: usize) {
        self.at += n
    }
}
/// However a reader delivers the text, it is read the same
#[no_mangle]
pub fn h_reader_chunks() {
    let mut t = T::new();
    t.lit("v = \u{e9}").sym(b"\n\\ #").pick(&["x", "w = 1\n", ": $(v)\n\ty\n"]);
    observe(&t.0);
    let mut rf = Db::new();
    let x = expect(&mut rf, &[&t.0], &["v", "w"]);
    let mut c = Chunks { text: &t.0, ends: vec![], at: 0, fail: None, interrupted: None };
    for _ in 0..2 {
        c.ends.push(choose(t.0.len() as u8 + 1) as usize)
    }
    c.ends.sort();
    if choose(2) == 1 {
        c.interrupted = Some(c.ends[0])
    }
    let mut real = Real::new();
    let ok = real.engine.read_makefile(&mut real.names, &mut c, "Makefile").is_ok();
    check(c.at == t.0.len(), "the reader was read to its end");
    compare(&x, ok, &mut real);
}
/// A reader that fails leaves everything as it was
#[no_mangle]
pub fn h_reader_fault() {
    let mut real = Real::new();
    check(real.read(b"v = 1\na: b\n", "m"), "accepted");
    let mut t = T::new();
    t.pick(&["v = 2\nw = 3\n", "a: c\n\td\n", "define v\n", "junk"]).sym(b"\n v");
    observe(&t.0);
    let mut c = Chunks { text: &t.0, ends: vec![choose(t.0.len() as u8 + 1) as usize], at: 0, fail: Some(choose(t.0.len() as u8 + 1) as usize), interrupted: None };
    let r = real.engine.read_makefile(&mut real.names, &mut c, "Makefile");
    cover("failed");
    check(
        match r {
            Err(hastur::MakefileError::IOError(e)) => e.kind() == ErrorKind::Other,
            _ => false,
        },
        "the error of the reader is reported",
    );
    unchanged(&mut real)
}
fn unchanged(real: &mut Real) {
    check(real.var(b"v").map_or(false, |v| same(&v, b"1")), "variables are unchanged");
    check(real.var(b"w").is_none(), "no variable is added");
    let db = real.engine.database.clone();
    check(db.rules().count() == 1, "no rule is added");
    let r = db.rules().next().unwrap();
    check(r.dependencies().len() == 1 && r.recipe().commands().len() == 0, "rules are unchanged");
}
/// Text that is not UTF-8 is not read
#[no_mangle]
pub fn h_reader_utf8() {
    let mut real = Real::new();
    check(real.read(b"v = 1\na: b\n", "m"), "accepted");
    let mut t = T::new();
    t.pick(&["v = 2 ", "w = ", "a: "]);
    let n = choose(3) + 1;
    for _ in 0..n {
        let b = byte();
        assume(b >= 0x80);
        t.0.push(b)
    }
    t.pick(&["", "\nw = 4\n"]);
    observe(&t.0);
    // the shapes of well formed sequences
    let s = &t.0;
    let mut i = 0;
    let mut valid = true;
    let cont = |i: usize, lo: u8, hi: u8| i < s.len() && s[i] >= lo && s[i] <= hi;
    while i < s.len() && valid {
        let c = s[i];
        if c < 0x80 {
            i += 1
        } else if c >= 0xc2 && c <= 0xdf {
            valid = cont(i + 1, 0x80, 0xbf);
            i += 2
        } else if c >= 0xe0 && c <= 0xef {
            let lo = if c == 0xe0 { 0xa0 } else { 0x80 };
            let hi = if c == 0xed { 0x9f } else { 0xbf };
            valid = cont(i + 1, lo, hi) && cont(i + 2, 0x80, 0xbf);
            i += 3
        } else if c >= 0xf0 && c <= 0xf4 {
            let lo = if c == 0xf0 { 0x90 } else { 0x80 };
            let hi = if c == 0xf4 { 0x8f } else { 0xbf };
            valid = cont(i + 1, lo, hi) && cont(i + 2, 0x80, 0xbf) && cont(i + 3, 0x80, 0xbf);
            i += 4
        } else {
            valid = false
        }
    }
    let r = real.engine.read_makefile(&mut real.names, &mut &t.0[..], "Makefile");
    if valid {
        cover("valid");
        check(r.is_ok(), "text is read");
        return;
    }
    cover("invalid");
    check(
        match r {
            Err(hastur::MakefileError::IOError(e)) => e.kind() == ErrorKind::InvalidData,
            _ => false,
        },
        "text that is not UTF-8 is an I/O error",
    );
    unchanged(&mut real)
}
