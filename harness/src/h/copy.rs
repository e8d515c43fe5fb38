//! Copies of blocks and spans.
use super::span::{block, string};
use crate::cmp::*;
use crate::sym::*;
use hastur::ast::{constant as ast_constant, variable_reference as ast_ref};
use hastur::evaluated::{constant, Block, BlockSpan};
use hastur::source_location::{LocatedString, Location};
use nom::Slice;
use std::sync::Arc;

fn ascii() -> Vec<u8> {
    let b = byte();
    assume(b < 128);
    vec![b]
}
fn joined(s: BlockSpan) -> Vec<(Vec<u8>, Location)> {
    // one entry per byte
    let mut v = vec![];
    for x in s.segments() {
        for i in 0..x.len() {
            v.push((vec![x.as_bytes()[i]], x.slice(i, 1).location().clone()))
        }
    }
    v
}
fn copies(parent: &Block, m: &[u8], i: usize, j: usize) {
    let s = parent.span().slice(i..j);
    let m = &m[i..j];
    let want = joined(s);
    cover("copy");
    check(want.len() == m.len(), "a byte each");
    let sens: Vec<_> = parent.sensitivity().copied().collect();
    let ok = |b: &Block, front: &[u8], back: &[u8], label: &str| {
        let mut all = front.to_vec();
        all.extend_from_slice(m);
        all.extend_from_slice(back);
        check(b.len() == all.len() && b.span().len() == all.len(), "length of a copy");
        check_same(b.into_string().as_bytes(), &all, label);
        let got = joined(b.span());
        check(got.len() == all.len(), "a byte each");
        let mut k = true;
        for x in 0..m.len() {
            let (a, b) = (&got[front.len() + x], &want[x]);
            k &= same(&a.0, &b.0) && a.1 == b.1
        }
        check(k, "bytes and locations of a copy");
    };
    let sensitive = |b: &Block| {
        for v in sens.iter() {
            check(b.sensitivity().any(|x| x == v), "a copy is as sensitive as the original")
        }
    };
    let n = s.to_new_block();
    ok(&n, b"", b"", "text of a new block");
    if m.len() > 0 {
        sensitive(&n);
    }
    ok(&n.span().to_new_block(), b"", b"", "text of a copy of a copy");
    let r = s.to_content_reference();
    let mut t = String::from("<");
    r.append_to_string(&mut t);
    let mut lt = b"<".to_vec();
    lt.extend_from_slice(m);
    check_same(t.as_bytes(), &lt, "text of a content reference");
    let mut k = Block::default();
    k.push(constant(LocatedString::synthetic_new("l")));
    k.push(r);
    k.push(constant(LocatedString::synthetic_new("r")));
    ok(&k, b"l", b"r", "text of a block with a copy");
    let mut p = Block::default();
    p.push(constant(LocatedString::synthetic_new("l")));
    p.push_all_contents(s);
    ok(&p, b"l", b"", "text of a block with all contents pushed");
    if m.len() > 0 {
        sensitive(&p);
    }
    p.push_all_contents(k.span().slice(0..1));
    ok(&p, b"l", b"l", "pushed twice");
    // and a copy of the composition
    let c = k.span().slice(1..k.len() - 1).to_new_block();
    ok(&c, b"", b"", "text of a copy of the middle");
    let c = p.span().slice(1..).to_new_block();
    ok(&c, b"", b"l", "text of a copy of a tail");
    // the original is what it was
    check(joined(s).len() == want.len(), "the original is unchanged");
}
fn bounds(n: usize) -> (usize, usize) {
    let i = choose(n as u8 + 1) as usize;
    let j = i + choose((n - i) as u8 + 1) as usize;
    (i, j)
}
#[no_mangle]
pub fn h_copy_pieces() {
    let (b, m) = block(2, 6, &mut ascii);
    observe(&m);
    let (i, j) = bounds(m.len());
    copies(&b, &m, i, j)
}
#[no_mangle]
pub fn h_copy_pieces3() {
    let (b, m) = block(3, 6, &mut ascii);
    observe(&m);
    let (i, j) = bounds(m.len());
    copies(&b, &m, i, j)
}
/// Of what evaluation yields
#[no_mangle]
pub fn h_copy_values() {
    let mut t = T::new();
    t.lit("a = x").sym(b"y \t").lit("\nb := $(a)").sym(b"z$").lit("\nv = ").pick(&["$(a)$(b)", "k$(b)$(a:x=n)", "$(b:%=<%>)", "$(a) \\\n $(b)", "$($(e)a)$c", "$(e)"]).lit("\ne =\n");
    observe(&t.0);
    let mut r = Real::new();
    if !r.read(&t.0, "Makefile") {
        reject()
    }
    let a = ast_ref(Location::Synthetic, ast_constant(LocatedString::synthetic_new("v")));
    let b = a.eval(&mut r.names, &mut r.engine);
    let m = b.into_string().into_bytes();
    observe(&m);
    let (i, j) = bounds(m.len());
    copies(&b, &m, i, j)
}
/// Slices of copies are slices of the original
#[no_mangle]
pub fn h_copy_slices() {
    let (b, m) = block(2, 4, &mut ascii);
    observe(&m);
    let (i, j) = bounds(m.len());
    let n: Arc<Block> = b.span().slice(i..j).to_new_block();
    let (k, l) = bounds(j - i);
    cover("copy");
    check_same(n.span().slice(k..l).into_string().as_bytes(), &m[i + k..i + l], "slice of a copy");
    check_same(n.span().slice(k..l).to_new_block().into_string().as_bytes(), &m[i + k..i + l], "copy of a slice of a copy");
    let _ = string(&m);
}
