//! How text is cut into logical lines.
use crate::cmp::*;
fn free(pre: &str, n: usize, alpha: &[u8], post: &str) {
    let mut t = T::new();
    t.lit(pre).syms(n, alpha).lit(post);
    differential(&t.0, &[], &["a", "b", "c"]);
}
#[no_mangle]
pub fn h_lines_value() {
    free("a = x", 5, b"\\\n #b\t", "y\nc = 1\n")
}
#[no_mangle]
pub fn h_lines_value7() {
    free("a = x", 7, b"\\\n #b", "y\nc = 1\n")
}
#[no_mangle]
pub fn h_lines_crlf() {
    free("a = x", 5, b"\\\n\r#b", "\r\nc = 1\r\n")
}
#[no_mangle]
pub fn h_lines_eof() {
    free("c = 1\na =", 5, b"\\\n\r# b", "")
}
#[no_mangle]
pub fn h_lines_start() {
    free("", 5, b"\\\n# \ta=", "\nb = 1\n")
}
#[no_mangle]
pub fn h_lines_comment() {
    let mut t = T::new();
    t.pick(&["", "a = 1 ", "t: d ", "ifeq (x,x) "]).lit("#").syms(3, b"\\\n a\r");
    t.lit("\nb = 2\n").pick(&["", "endif\n"]).pick(&["c = 3", "c = 3 # x", "#\\\nc = 3", "c = 3 \\"]);
    differential(&t.0, &[], &["a", "b", "c"]);
}
/// Continuations inside every kind of line
#[no_mangle]
pub fn h_lines_kinds() {
    let mut t = T::new();
    let j: &[&str] = &["\\\n", " \\\n ", "\\\n\t", "\\\r\n", " \\\n\\\n", "\\\\\n", " # c\n", "\n"];
    t.pick(&["a = 1", "a := 1", "t: d", "include", "ifeq (a,a)", "define", "-include", "a"]);
    t.pick(j);
    t.pick(&["e", " f", "= 2", ": g"]);
    t.pick(j).lit("c = 3\n");
    differential(&t.0, &[], &["a", "b", "c"]);
}
