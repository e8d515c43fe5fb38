//! What assignments do to variables.
use crate::cmp::*;
fn stmts(n: usize) {
    let mut t = T::new();
    t.lit("b := 1\n");
    for _ in 0..n {
        t.sym(b"ab").pick(&[" ", "", ":"]).sym(b":?+ ").lit("= ").pick(&["", "$"]).sym(b"abx").lit("y\n");
    }
    differential(&t.0, &[], &["a", "b", "y"]);
}
/// Sequences of assignments to two variables that refer to each other
#[no_mangle]
pub fn h_assign_seq() {
    stmts(2);
}
#[no_mangle]
pub fn h_assign_seq3() {
    stmts(3);
}
/// Longer histories with the values that matter
#[no_mangle]
pub fn h_assign_hist() {
    let mut t = T::new();
    for _ in 0..4 {
        t.sym(b"ab").sym(b" :?+").lit("=").pick(&["x", "$(b)"]).lit("\n");
    }
    differential(&t.0, &[], &["a", "b"]);
}
/// Any short text after a name
fn line(n: usize) {
    let mut t = T::new();
    t.lit("b := 1\nc = $(b)\na");
    t.syms(n, b"ab =:?+$\t");
    t.lit("\nb := 2\n");
    differential(&t.0, &[], &["a", "b", "c"]);
}
#[no_mangle]
pub fn h_assign_line() {
    line(4)
}
#[no_mangle]
pub fn h_assign_line6() {
    line(6)
}
/// Computed names
#[no_mangle]
pub fn h_assign_name() {
    let mut t = T::new();
    t.lit("n = a\nm = $(n)b\n");
    t.upto(1, b"a ").pick(&["$(n)", "$n", "$(m)", "${n}$(n)", "$(m:b=c)", "$(x)a", "a$$"]).upto(2, b"ab ");
    t.pick(&["=", " = ", ":=", "+=", " ?= "]).pick(&["v", "$(a)w", " v  w "]).lit("\n");
    t.pick(&["", "a += z\n", "$(n)?=q\n"]);
    differential(&t.0, &[], &["a", "b", "ab", "aa"]);
}
