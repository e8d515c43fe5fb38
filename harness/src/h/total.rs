//! Reading never breaks down.
use crate::cmp::*;
use crate::sym::*;
/// Reads any text, then expands what was read. The only assertion is the
/// executor's own: no panic, no overflow, no endless loop or recursion.
fn run(text: &[u8], vars: &[&str], free: &[u8]) {
    observe(text);
    // variables whose value may name themselves are not expanded (h_total_self)
    let mut own = false;
    for c in free {
        own |= *c == b'a' || *c == b'v'
    }
    // hastur names the constructs it does not implement
    allow_panic("not implemented");
    allow_panic("not yet implemented");
    allow_panic("TODO");
    let mut real = Real::new();
    if !real.read(text, "Makefile") {
        cover("rejected");
        return;
    }
    cover("accepted");
    let vars = if own { &[] } else { vars };
    for v in vars {
        if let Some(x) = real.var(v.as_bytes()) {
            observe(&x)
        }
    }
    let db = real.engine.database.clone();
    for r in db.rules() {
        observe(r.target().into_string().as_bytes());
        for d in r.dependencies() {
            observe(d.into_string().as_bytes());
        }
        for c in r.recipe().commands() {
            let s = command_ast(c).eval(&mut real.names, &mut real.engine).into_string();
            observe(s.as_bytes());
        }
    }
}
fn any(t: &mut T, n: usize) {
    for _ in 0..n {
        let b = byte();
        t.0.push(b)
    }
}
fn bytes(n: usize) {
    let mut t = T::new();
    any(&mut t, n);
    run(&t.0, &[], &[]);
}
#[no_mangle]
pub fn h_total_bytes() {
    bytes(3)
}
#[no_mangle]
pub fn h_total_bytes4() {
    bytes(4)
}
#[no_mangle]
pub fn h_total_bytes5() {
    bytes(5)
}
fn ascii(n: usize) {
    let mut t = T::new();
    for _ in 0..n {
        let b = byte();
        assume(b < 128);
        t.0.push(b)
    }
    run(&t.0, &[], &[]);
}
#[no_mangle]
pub fn h_total_ascii() {
    ascii(4)
}
#[no_mangle]
pub fn h_total_ascii5() {
    ascii(5)
}
#[no_mangle]
pub fn h_total_ascii6() {
    ascii(6)
}
const PRE: &[&str] = &[
    "a: b\n\t", "ifeq (", "ifeq \"", "ifneq '", "ifeq", "ifdef ", "ifeq (a,b)\nelse", "ifeq (a,a)\nendif", "ifeq (a,b)\n", "define ", "define v\n", "define v\nendef", "include ",
    "-include ", "sinclude", "export ", "override ", "undefine ", "private ", "unexport ", "vpath ", "load ", "a = $(", "$(eval ", "a = $(word ", "a = $(words ", "a = $(strip ", "a: ", "a:: ",
    "v = x y\na = $(v:", "v = x\n$(v)", "a: %: ", "a = x\\", "# x\\", "a: b ; ", "a: v = ", "a := $(b", "a += ", "a ?= ", "a != ",
];
fn prefix(n: usize, post: &[&str]) {
    let mut t = T::new();
    t.pick(PRE);
    let k = t.0.len();
    any(&mut t, n);
    let free = t.0[k..].to_vec();
    t.pick(post);
    run(&t.0, &["a", "v"], &free);
}
#[no_mangle]
pub fn h_total_prefix() {
    prefix(2, &["", "\n", ")\n", "\nendef\n"])
}
#[no_mangle]
pub fn h_total_prefix3() {
    prefix(3, &["\n", ")\n"])
}
#[no_mangle]
pub fn h_total_prefix4() {
    prefix(4, &["\n", ")\n"])
}
/// Definitions and files that refer to themselves
#[no_mangle]
pub fn h_total_self() {
    let k = choose(6);
    let t: &[u8] = match k {
        0 => b"a = $(b)\nb := $(a)x\n",
        1 => b"a = $(a)\nb := $(a)\n",
        2 => b"a = $(b)\nb = $(a)\n$(a): c\n",
        3 => b"include m\n",
        4 => b"a = $(eval a = 1)$(a)\nb := $(a)\n",
        _ => b"a = $(eval $(a))\n$(a)\n",
    };
    observe(t);
    file("m", b"include m\n");
    let mut real = Real::new();
    let ok = real.read(t, "Makefile");
    cover("read");
    check(k == 3 || ok, "accepted");
}
