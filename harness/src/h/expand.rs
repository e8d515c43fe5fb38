//! Expanding variable references.
use crate::cmp::*;
fn free(n: usize, alpha: &[u8]) {
    let mut t = T::new();
    t.lit("a = x$(b)\nb = c\nc := y\nx = ab\nv = ");
    t.syms(n, alpha);
    t.lit("\n");
    differential(&t.0, &[], &["v"]);
}
#[no_mangle]
pub fn h_expand_free() {
    free(5, b"$(){}ab")
}
#[no_mangle]
pub fn h_expand_free7() {
    free(7, b"$(){}ab")
}
#[no_mangle]
pub fn h_expand_chars() {
    free(4, b"$()ab c.%/-_,'\"@<^*[]~&|!;:=+?")
}
/// Nested and adjacent references
#[no_mangle]
pub fn h_expand_nest() {
    let mut t = T::new();
    t.lit("a = x$(b)\nb = c\nc := y\nxc = q\nqy = r\n");
    t.pick(&["v = ", "v := "]);
    for _ in 0..2 {
        t.upto(1, b"a $");
        t.pick(&["$(a)", "$b", "${c}", "$($(b))", "$(${a})", "$($(a)$(c))", "$($(xc)y)", "$$", "$(nope)", "$($(b)", "$()", "$(a b)"]);
    }
    t.upto(1, b"b)}");
    t.lit("\nb = d\nc = z\n");
    differential(&t.0, &[], &["v"]);
}
/// References everywhere a makefile expands text
#[no_mangle]
pub fn h_expand_where() {
    let mut t = T::new();
    t.lit("a = p\nb = $(a)q\nn = b\n");
    t.pick(&["", "a := r\n"]);
    t.pick(&["ifeq (", "ifneq ("]).lit("$(").sym(b"abn").lit("),").sym(b"pr$").sym(b"aq").lit(")\nw = 1\nelse\nw = 2\nendif\n");
    t.lit("${").sym(b"abn").lit("}t: $").sym(b"abn$").lit(" x${").sym(b"ab").lit("}\n\t").syms(2, b"$an").lit("$($(").sym(b"an").lit("))\n");
    t.pick(&["", "a = z\n"]);
    differential(&t.0, &[], &["w"]);
}
#[no_mangle]
pub fn h_expand_cond() {
    let mut t = T::new();
    t.lit("a = p\nb = $(a)q\nn = b\n");
    t.pick(&["", "a := r\n"]);
    t.pick(&["ifeq (", "ifneq '"]);
    let quoted = t.0[t.0.len() - 1] == b'\'';
    t.lit("$").sym(b"abn$").lit(if quoted { "' \"" } else { "," }).sym(b"pr$").sym(b"aq").lit(if quoted { "\"" } else { ")" }).lit("\nw = 1\nelse\nw = 2\nendif\n");
    differential(&t.0, &[], &["w"]);
}
#[no_mangle]
pub fn h_expand_rule() {
    let mut t = T::new();
    t.lit("a = p\nb = $(a)q\nn = b\n");
    t.lit("${").sym(b"abn").lit("}t: $").sym(b"ab$").lit(" x${n}\n\t").syms(1, b"$an").lit("$($(").sym(b"an").lit("))\n");
    t.pick(&["", "a = z\n"]);
    differential(&t.0, &[], &["w"]);
}
