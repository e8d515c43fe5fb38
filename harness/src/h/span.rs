//! Spans of evaluated text behave like the string they stand for.
use crate::cmp::*;
use crate::sym::*;
use hastur::evaluated::{concat, constant, Block, BlockSpan, ContentReference, EvaluatedNode};
use hastur::source_location::LocatedString;
use nom::{AtEof, Compare, CompareResult, FindSubstring, InputIter, InputLength, InputTake, InputTakeAtPosition, Offset, Slice};
use std::sync::Arc;

pub fn string(b: &[u8]) -> String {
    st(b).to_string()
}
fn located(b: &[u8]) -> LocatedString {
    LocatedString::synthetic_new(string(b))
}
fn node(b: &[u8]) -> Arc<EvaluatedNode> {
    Arc::new(EvaluatedNode::Constant(located(b)))
}
/// One piece of content and the text it stands for
fn piece(kind: u8, text: &mut dyn FnMut() -> Vec<u8>) -> (ContentReference, Vec<u8>) {
    match kind {
        0 => {
            let a = text();
            (constant(located(&a)), a)
        }
        1 => {
            // the middle of a constant
            let (a, b, c) = (text(), text(), text());
            let mut all = a.clone();
            all.extend_from_slice(&b);
            all.extend_from_slice(&c);
            (ContentReference::new_from_node_slice(node(&all), a.len(), b.len()), b)
        }
        2 => {
            // a concatenation
            let (a, b) = (text(), text());
            let mut k = Block::default();
            k.push(constant(located(&a)));
            k.push(constant(located(&b)));
            let mut all = a.clone();
            all.extend_from_slice(&b);
            (concat(Arc::new(k)), all)
        }
        3 => {
            // a slice across the parts of a concatenation
            let (a, b, c, d) = (text(), text(), text(), text());
            let mut k = Block::default();
            let mut ab = a.clone();
            ab.extend_from_slice(&b);
            let mut cd = c.clone();
            cd.extend_from_slice(&d);
            k.push(constant(located(&ab)));
            k.push(constant(located(&cd)));
            let mut all = b.clone();
            all.extend_from_slice(&c);
            (ContentReference::new_from_node_slice(Arc::new(EvaluatedNode::Concat(Arc::new(k))), a.len(), all.len()), all)
        }
        _ => {
            // a reference to a variable, or to one with a substitution
            let (n, v) = (text(), text());
            let mut kn = Block::default();
            kn.push(constant(located(&n)));
            let mut kv = Block::default();
            kv.push(constant(located(&v)));
            let (kn, kv) = (Arc::new(kn), Arc::new(kv));
            let r = if kind == 4 {
                hastur::evaluated::variable_reference(kn, kv)
            } else {
                hastur::evaluated::substitution_reference(kn.clone(), kn.clone(), kn, kv)
            };
            (r, v)
        }
    }
}
/// A block of `n` pieces
pub fn block(n: u8, kinds: u8, text: &mut dyn FnMut() -> Vec<u8>) -> (Block, Vec<u8>) {
    let mut b = Block::default();
    let mut m = vec![];
    for _ in 0..n {
        let k = choose(kinds);
        let (r, t) = piece(k, text);
        b.push(r);
        m.extend_from_slice(&t)
    }
    (b, m)
}
fn ascii() -> Vec<u8> {
    let b = byte();
    assume(b < 128);
    vec![b]
}
/// Characters of one to four bytes
fn wide() -> Vec<u8> {
    let o: &[&str] = &["\u{e9}", "\u{20ac}", "\u{1f600}"];
    let k = choose(4);
    if k == 3 {
        let b = byte();
        assume(b < 128);
        return vec![b];
    }
    o[k as usize].as_bytes().to_vec()
}
fn text_ok(s: &BlockSpan, m: &[u8]) {
    check(s.len() == m.len() && s.input_len() == m.len(), "length");
    check_same(s.into_string().as_bytes(), m, "text");
    let mut joined = vec![];
    for x in s.segments() {
        joined.extend_from_slice(x.as_bytes())
    }
    check_same(&joined, m, "segments");
    let mut i = s.char_indices();
    let mut j = st(m).char_indices();
    loop {
        match (i.next(), j.next()) {
            (None, None) => break,
            (Some((a, x)), Some((b, y))) => check(a == b && x as u32 == y as u32, "characters and their positions"),
            _ => {
                check(false, "number of characters");
                break;
            }
        }
    }
}
/// Character boundaries of m
fn bounds(m: &[u8]) -> Vec<usize> {
    let mut v = vec![0];
    for (i, c) in st(m).char_indices() {
        v.push(i + c.len_utf8())
    }
    v
}
fn pick_bound(v: &[usize], from: usize) -> usize {
    let ok: Vec<usize> = v.iter().copied().filter(|x| *x >= from).collect();
    ok[choose(ok.len() as u8) as usize]
}
fn slices(n: u8, kinds: u8, text: &mut dyn FnMut() -> Vec<u8>) {
    let (b, m) = block(n, kinds, text);
    observe(&m);
    cover("block");
    text_ok(&b.span(), &m);
    check_same(b.into_string().as_bytes(), &m, "text of the block");
    check(b.len() == m.len(), "length of the block");
    // cut twice
    let v = bounds(&m);
    let i = pick_bound(&v, 0);
    let j = pick_bound(&v, i);
    let s = b.span();
    let a = match choose(2) {
        0 => s.slice(i..j),
        _ => s.slice(..j).slice(i..),
    };
    let ma = &m[i..j];
    text_ok(&a, ma);
    let va = bounds(ma);
    let k = pick_bound(&va, 0);
    let c = a.slice(k..);
    text_ok(&c, &ma[k..]);
    check(s.offset(&a) == i, "offset of a slice");
    check(a.offset(&c) == k, "offset of a slice of a slice");
    check(s.offset(&c) == i + k, "offset to a slice of a slice");
    let (after, before) = a.take_split(k);
    text_ok(&after, &ma[k..]);
    text_ok(&before, &ma[..k]);
    text_ok(&a.take(k), &ma[..k]);
    check(a.at_eof(), "complete input");
    // positions are characters, results are bytes
    for (n, x) in va.iter().enumerate() {
        check(a.slice_index(n) == Some(*x), "index of a character");
    }
    check(a.slice_index(va.len()).is_none(), "index past the end");
}
#[no_mangle]
pub fn h_span_slice() {
    slices(2, 6, &mut ascii)
}
#[no_mangle]
pub fn h_span_slice3() {
    slices(3, 6, &mut ascii)
}
#[no_mangle]
pub fn h_span_wide() {
    slices(1, 4, &mut wide)
}
#[no_mangle]
pub fn h_span_wide2() {
    slices(2, 3, &mut wide)
}
fn find(m: &[u8], n: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i + n.len() <= m.len() {
        if same(&m[i..i + n.len()], n) {
            return Some(i);
        }
        i += 1
    }
    None
}
fn lower(b: &[u8]) -> Vec<u8> {
    b.iter().map(|c| if *c >= b'A' && *c <= b'Z' { *c + 32 } else { *c }).collect()
}
fn search(n: u8, kinds: u8, needle: u8) {
    let (b, m) = block(n, kinds, &mut ascii);
    observe(&m);
    let v = bounds(&m);
    let i = pick_bound(&v, 0);
    let s = b.span().slice(i..);
    let m = &m[i..];
    let mut n = vec![];
    for _ in 0..choose(needle) + 1 {
        n.extend_from_slice(&ascii())
    }
    observe(&n);
    let want = find(m, &n);
    check(s.find_substring(st(&n)) == want, "substring");
    if want.is_some() {
        cover("found")
    } else {
        cover("not found")
    }
    let cmp = |m: &[u8], n: &[u8]| {
        let k = if m.len() < n.len() { m.len() } else { n.len() };
        if !same(&m[..k], &n[..k]) {
            CompareResult::Error
        } else if m.len() >= n.len() {
            CompareResult::Ok
        } else {
            CompareResult::Incomplete
        }
    };
    check(s.compare(st(&n)) == cmp(m, &n), "comparison");
    check(s.compare_no_case(st(&n)) == cmp(&lower(m), &lower(&n)), "comparison without case");
    // predicates
    let c = n[0];
    let at = find(m, &n[..1]);
    check(s.position(|x| x as u32 == c as u32) == at, "position");
    match s.split_at_position(|x| x as u32 == c as u32) {
        Ok((rest, front)) => {
            let k = at.unwrap_or(m.len());
            check_same(front.into_string().as_bytes(), &m[..k], "front of a split");
            check_same(rest.into_string().as_bytes(), &m[k..], "rest of a split");
        }
        Err(_) => check(false, "a split succeeds"),
    }
    match s.split_at_position1(|x| x as u32 == c as u32, nom::ErrorKind::Char) {
        Ok((rest, front)) => {
            let k = at.unwrap_or(m.len());
            check(k > 0, "a split with an empty front fails");
            check_same(front.into_string().as_bytes(), &m[..k], "front of a split");
            check_same(rest.into_string().as_bytes(), &m[k..], "rest of a split");
        }
        Err(_) => check(m.len() == 0 || at == Some(0), "a split with a front succeeds"),
    }
}
#[no_mangle]
pub fn h_span_search() {
    search(2, 4, 2)
}
#[no_mangle]
pub fn h_span_search3() {
    search(3, 4, 3)
}
/// Searching text with characters of several bytes
#[no_mangle]
pub fn h_span_search_wide() {
    let (b, m) = block(2, 3, &mut wide);
    observe(&m);
    let v = bounds(&m);
    let i = pick_bound(&v, 0);
    let s = b.span().slice(i..);
    let m = &m[i..];
    let mut n = wide();
    if choose(2) == 1 {
        n.extend_from_slice(&wide())
    }
    let want = find(m, &n);
    check(s.find_substring(st(&n)) == want, "substring");
    if want.is_some() {
        cover("found")
    } else {
        cover("not found")
    }
    let c = st(&n).chars().next().unwrap();
    let at = find(m, &n[..c.len_utf8()]);
    check(s.position(|x| x == c) == at, "position");
    match s.split_at_position(|x| x == c) {
        Ok((rest, front)) => {
            let k = at.unwrap_or(m.len());
            check_same(front.into_string().as_bytes(), &m[..k], "front of a split");
            check_same(rest.into_string().as_bytes(), &m[k..], "rest of a split");
        }
        Err(_) => check(false, "a split succeeds"),
    }
    check((s.compare(st(&n)) == CompareResult::Ok) == (want == Some(0)), "comparison");
}
