//! Conditionals.
use crate::cmp::*;
/// Sequences of lines
fn seq(n: usize, opts: &[&str]) {
    let mut t = T::new();
    t.lit("x = 1\n");
    for _ in 0..n {
        let k = t.0.len();
        t.pick(opts);
        if t.0.len() > k + 3 && t.0[k] == b'i' {
            t.sym(b"12").lit(")");
        }
        t.lit("\n");
    }
    t.lit("z = 9\n");
    differential(&t.0, &[], &["v", "x", "z"]);
}
#[no_mangle]
pub fn h_cond_seq() {
    seq(5, &["ifeq ($(x),", "else", "endif", "v += q"])
}
#[no_mangle]
pub fn h_cond_seq7() {
    seq(7, &["ifneq ($(x),", "else", "endif", "x = 2"])
}
#[no_mangle]
pub fn h_cond_body() {
    let mut t = T::new();
    t.pick(&["ifeq (a,a)", "ifeq (a,b)"]).lit("\n");
    for _ in 0..2 {
        t.pick(&["v = 1", "r: s", "\tcmd", "include nofile", "include m", "ifdef", "junk", "v = $(", "define", "$(eval v = 3)", "else", "# c", "endif"]).lit("\n");
    }
    t.lit("endif\nz = 9\n");
    differential(&t.0, &[("m", b"w = 4\n")], &["v", "z", "w"]);
}
fn args(n: u8, alpha: &[u8]) {
    let mut t = T::new();
    t.lit("x = a\ny = a b\n");
    t.pick(&["ifeq", "ifneq"]).pick(&[" (", "("]).upto(n, alpha).lit(",").upto(n, alpha).lit(")\nv = t\nelse\nv = e\nendif\n");
    differential(&t.0, &[], &["v"]);
}
#[no_mangle]
pub fn h_cond_args() {
    args(2, b"ab $x()")
}
#[no_mangle]
pub fn h_cond_args3() {
    args(3, b"ab $x(),")
}
#[no_mangle]
pub fn h_cond_quote() {
    let mut t = T::new();
    t.lit("x = a\n");
    t.pick(&["ifeq ", "ifneq "]).sym(b"\"'").upto(2, b"a $x\"'").sym(b"\"'").pick(&["", " "]).sym(b"\"'").upto(2, b"a $x\"'").sym(b"\"'");
    t.lit("\nv = t\nelse\nv = e\nendif\n");
    differential(&t.0, &[], &["v"]);
}
/// Text around the keywords
#[no_mangle]
pub fn h_cond_kw() {
    let mut t = T::new();
    t.lit("ifeq (a,").sym(b"ab").lit(")").upto(1, b" \tx#").lit("\nv = t\n");
    t.upto(1, b" \t").lit("else").upto(1, b" \tx#=").lit("\nv = e\n");
    t.upto(1, b" \t").lit("endif").upto(2, b" \tx#=:").lit("\nz = 9\n");
    differential(&t.0, &[], &["v", "z"]);
}
