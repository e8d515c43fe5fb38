//! Locations are partially ordered.
use crate::sym::*;
use hastur::evaluated::{constant, Block};
use hastur::source_location::{LocatedString, Location};
use hastur::{Engine, NameCache};
use std::cmp::Ordering;
use std::sync::Arc;

fn number() -> u32 {
    let mut v = 0;
    for _ in 0..4 {
        v = v << 8 | byte() as u32
    }
    v
}
/// kind: 0 synthetic, 1 file a, 2 file b, 3 evaluation x, 4 evaluation y
type M = (u8, u32, u32);
fn any(names: &mut NameCache, blocks: &[Arc<Block>]) -> (Location, M) {
    let k = choose(5);
    let (line, character) = (number(), number());
    match k {
        0 => (Location::Synthetic, (0, 0, 0)),
        1 | 2 => {
            let n = if k == 1 { "a" } else { "b" };
            (Location::SourceLocation { line, character, filename: names.intern_file_name(n.to_string()) }, (k, line, character))
        }
        _ => (Location::EvalLocation { tree_node: blocks[k as usize - 3].clone(), line, character }, (k, line, character)),
    }
}
fn order(a: &M, b: &M) -> Option<Ordering> {
    if a.0 != b.0 {
        return None;
    }
    Some(if a.1 != b.1 {
        if a.1 < b.1 { Ordering::Less } else { Ordering::Greater }
    } else if a.2 == b.2 {
        Ordering::Equal
    } else if a.2 < b.2 {
        Ordering::Less
    } else {
        Ordering::Greater
    })
}
fn blocks() -> Vec<Arc<Block>> {
    let mut v = vec![];
    for t in ["x", "y"] {
        let mut b = Block::default();
        b.push(constant(LocatedString::synthetic_new(t)));
        v.push(Arc::new(b))
    }
    v
}
#[no_mangle]
pub fn h_order_pair() {
    let mut names = NameCache::default();
    let b = blocks();
    let (x, mx) = any(&mut names, &b);
    let (y, my) = any(&mut names, &b);
    let o = x.partial_cmp(&y);
    cover("pair");
    check(o == order(&mx, &my), "ordered by line, then by character, within one text");
    check((x == y) == (o == Some(Ordering::Equal)), "equality agrees with the order");
    check(y.partial_cmp(&x) == o.map(|o| o.reverse()), "the order is antisymmetric");
    check((x < y) == (o == Some(Ordering::Less)), "less");
    check((x >= y) == (o == Some(Ordering::Greater) || o == Some(Ordering::Equal)), "greater or equal");
    let z = x.clone();
    check(z == x && z.partial_cmp(&x) == Some(Ordering::Equal), "reflexive");
}
#[no_mangle]
pub fn h_order_three() {
    let mut names = NameCache::default();
    let b = blocks();
    let (x, _) = any(&mut names, &b);
    let (y, _) = any(&mut names, &b);
    let (z, _) = any(&mut names, &b);
    cover("three");
    if x <= y && y <= z {
        check(x <= z, "transitive");
        if x < y || y < z {
            check(x < z, "strictly transitive")
        }
    }
    if x.partial_cmp(&y).is_some() && y.partial_cmp(&z).is_some() {
        check(x.partial_cmp(&z).is_some(), "comparability is transitive")
    }
}
/// Located text is ordered by where it stands, whatever it is
#[no_mangle]
pub fn h_order_text() {
    let mut names = NameCache::default();
    let mut engine = Engine::default();
    let t = {
        let mut t = b"a = ".to_vec();
        for _ in 0..2 {
            t.push(byte_in(b"xy"))
        }
        t.extend_from_slice(b"\nb = ");
        t.push(byte_in(b"xy"));
        t.push(b'\n');
        t
    };
    observe(&t);
    check(engine.read_makefile(&mut names, &mut &t[..], "Makefile").is_ok(), "accepted");
    let db = engine.database.clone();
    let mut blocks = vec![];
    for v in ["a", "b"] {
        let n = names.variable_name(v).unwrap();
        blocks.push(db.get_variable(n).unwrap().ast().eval(&mut names, &mut engine))
    }
    let a = blocks[0].span().segments().next().unwrap();
    let b = blocks[1].span().segments().next().unwrap();
    cover("text");
    check(a.partial_cmp(&b) == Some(Ordering::Less) && b.partial_cmp(&a) == Some(Ordering::Greater), "text on an earlier line is earlier");
    let second = a.slice(1, 1);
    check(a < second && second < b, "text further right is later");
    check(a.slice(0, 1).partial_cmp(&a) == Some(Ordering::Equal), "text at the same place is equal in order");
    let s = LocatedString::synthetic_new("x");
    check(s.as_str().partial_cmp(&a).is_none(), "synthetic text is not comparable to written text");
}
