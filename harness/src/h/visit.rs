//! Walking over trees.
use crate::cmp::*;
use crate::sym::*;
use hastur::ast::visit::{MutVisitor, Visitor};
use hastur::ast::*;
use hastur::evaluated::{constant as content, Block};
use hastur::source_location::{LocatedString, Location};
use std::sync::Arc;

fn leaf(m: &mut Vec<u8>) -> AstNode {
    match choose(3) {
        0 => {
            m.push(b'0');
            empty()
        }
        1 => {
            let b = byte_in(b"pqr");
            m.push(b'c');
            m.push(b);
            constant(LocatedString::synthetic_new(st(&[b]).to_string()))
        }
        _ => {
            let b = byte_in(b"pqr");
            m.push(b'p');
            m.push(b);
            let mut k = Block::default();
            k.push(content(LocatedString::synthetic_new(st(&[b]).to_string())));
            preevaluated(Location::Synthetic, Arc::new(k))
        }
    }
}
/// A tree, and the order in which its nodes are to be visited
fn tree(depth: u8, m: &mut Vec<u8>) -> AstNode {
    let k = if depth == 0 { 0 } else { choose(7) };
    let l = Location::Synthetic;
    match k {
        0 => leaf(m),
        1 => {
            // two children that are not empty stay a concatenation
            m.push(b'+');
            let a = tree(depth - 1, m);
            let b = leaf(m);
            if *a.children() == AstChildren::Empty || *b.children() == AstChildren::Empty {
                reject()
            }
            collapsing_concat(l, vec![a, b])
        }
        2 => {
            m.push(b'$');
            variable_reference(l, tree(depth - 1, m))
        }
        3 => {
            m.push(b'e');
            eval(l, tree(depth - 1, m))
        }
        4 => {
            m.push(b's');
            strip(l, tree(depth - 1, m))
        }
        5 => {
            m.push(b'n');
            words(l, tree(depth - 1, m))
        }
        _ => {
            m.push(b'w');
            let a = tree(depth - 1, m);
            let b = leaf(m);
            word(l, a, b)
        }
    }
}
struct Order(Vec<u8>, usize);
impl<'n> Visitor<'n> for Order {
    fn visit_ast(&mut self, a: &'n AstNode) {
        self.1 += 1;
        self.super_ast(a)
    }
    fn visit_empty(&mut self) {
        self.0.push(b'0');
        self.super_empty()
    }
    fn visit_constant(&mut self, c: &'n LocatedString) {
        self.0.push(b'c');
        self.0.extend_from_slice(c.as_bytes());
        self.super_constant(c)
    }
    fn visit_pre_evaluated(&mut self, b: &'n Arc<Block>) {
        self.0.push(b'p');
        self.0.extend_from_slice(b.into_string().as_bytes());
        self.super_pre_evaluated(b)
    }
    fn visit_concat(&mut self, v: &'n Vec<AstNode>) {
        self.0.push(b'+');
        self.super_concat(v)
    }
    fn visit_variable_reference(&mut self, a: &'n AstNode) {
        self.0.push(b'$');
        self.super_variable_reference(a)
    }
    fn visit_eval(&mut self, a: &'n AstNode) {
        self.0.push(b'e');
        self.super_eval(a)
    }
    fn visit_strip(&mut self, a: &'n AstNode) {
        self.0.push(b's');
        self.super_strip(a)
    }
    fn visit_word(&mut self, a: &'n AstNode, b: &'n AstNode) {
        self.0.push(b'w');
        self.super_word(a, b)
    }
    fn visit_words(&mut self, a: &'n AstNode) {
        self.0.push(b'n');
        self.super_words(a)
    }
}
/// Only looks at the leaves
struct Leaves(Vec<u8>);
impl<'n> Visitor<'n> for Leaves {
    fn visit_constant(&mut self, c: &'n LocatedString) {
        self.0.extend_from_slice(c.as_bytes())
    }
}
/// Changes every constant, counts the nodes
struct Change(usize, Vec<u8>);
impl<'n> MutVisitor<'n> for Change {
    fn visit_ast(&mut self, a: &'n mut AstNode) {
        self.0 += 1;
        self.super_ast(a)
    }
    fn visit_constant(&mut self, c: &'n mut LocatedString) {
        self.1.extend_from_slice(c.as_bytes());
        *c = LocatedString::synthetic_new("z");
    }
}
struct MutOrder(Vec<u8>);
impl<'n> MutVisitor<'n> for MutOrder {
    fn visit_empty(&mut self) {
        self.0.push(b'0');
        self.super_empty()
    }
    fn visit_constant(&mut self, c: &'n mut LocatedString) {
        self.0.push(b'c');
        self.0.extend_from_slice(c.as_bytes());
        self.super_constant(c)
    }
    fn visit_pre_evaluated(&mut self, b: &'n mut Arc<Block>) {
        self.0.push(b'p');
        self.0.extend_from_slice(b.into_string().as_bytes());
        self.super_pre_evaluated(b)
    }
    fn visit_concat(&mut self, v: &'n mut Vec<AstNode>) {
        self.0.push(b'+');
        self.super_concat(v)
    }
    fn visit_variable_reference(&mut self, a: &'n mut AstNode) {
        self.0.push(b'$');
        self.super_variable_reference(a)
    }
    fn visit_eval(&mut self, a: &'n mut AstNode) {
        self.0.push(b'e');
        self.super_eval(a)
    }
    fn visit_strip(&mut self, a: &'n mut AstNode) {
        self.0.push(b's');
        self.super_strip(a)
    }
    fn visit_word(&mut self, a: &'n mut AstNode, b: &'n mut AstNode) {
        self.0.push(b'w');
        self.super_word(a, b)
    }
    fn visit_words(&mut self, a: &'n mut AstNode) {
        self.0.push(b'n');
        self.super_words(a)
    }
}
/// Every byte after a 'c'
fn constants(m: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    let mut i = 0;
    while i < m.len() {
        if m[i] == b'c' || m[i] == b'p' {
            if m[i] == b'c' {
                v.push(m[i + 1])
            }
            i += 1
        }
        i += 1
    }
    v
}
fn nodes(m: &[u8]) -> usize {
    let mut n = 0;
    let mut i = 0;
    while i < m.len() {
        if m[i] == b'c' || m[i] == b'p' {
            i += 1
        }
        n += 1;
        i += 1
    }
    n
}
fn walk(depth: u8) {
    let mut m = vec![];
    let mut t = tree(depth, &mut m);
    observe(&m);
    cover("tree");
    let mut o = Order(vec![], 0);
    o.visit_ast(&t);
    check_same(&o.0, &m, "every node is visited once, parents before children, in order");
    check(o.1 == nodes(&m), "number of nodes");
    let mut l = Leaves(vec![]);
    l.visit_ast(&t);
    check_same(&l.0, &constants(&m), "constants are reached without overriding anything else");
    let copy = t.clone();
    check(copy == t, "a copy is equal");
    let mut o = MutOrder(vec![]);
    o.visit_ast(&mut t);
    check_same(&o.0, &m, "the mutable walk visits the same nodes in the same order");
    check(copy == t, "a walk changes nothing by itself");
    let mut c = Change(0, vec![]);
    c.visit_ast(&mut t);
    check(c.0 == nodes(&m), "number of nodes, mutable");
    check_same(&c.1, &constants(&m), "constants, mutable");
    let mut l = Leaves(vec![]);
    l.visit_ast(&t);
    check(l.0.len() == c.1.len() && l.0.iter().all(|x| *x == b'z'), "changes stay");
    if c.1.len() > 0 {
        cover("changed");
    }
    check((copy == t) == (c.1.len() == 0), "a copy does not change");
}
#[no_mangle]
pub fn h_visit_trees() {
    walk(2)
}
#[no_mangle]
pub fn h_visit_trees3() {
    walk(3)
}
