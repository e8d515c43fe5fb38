//! Recipes.
use crate::cmp::*;
use crate::refmake::Db;
use crate::sym::*;
fn free(pre: &str, n: usize, alpha: &[u8], post: &str) {
    let mut t = T::new();
    t.lit(pre).syms(n, alpha).lit(post);
    differential(&t.0, &[], &["z"]);
}
#[no_mangle]
pub fn h_recipe_free() {
    free("v = 1\na: b\n\t", 5, b"\\\n\t a#", "\nz = 2\n")
}
#[no_mangle]
pub fn h_recipe_free7() {
    free("a: b\n\t", 7, b"\\\n\ta#", "\nz = 2\n")
}
#[no_mangle]
pub fn h_recipe_chars() {
    free("v = 1\na: b\n\t", 4, b"$(v)a=:;\"'@-+\\ %{}", "\n\tnext\nz = 2\n")
}
#[no_mangle]
pub fn h_recipe_crlf() {
    free("a: b\r\n\t", 5, b"\\\n\r\ta", "\r\n\td\r\nz = 2\r\n")
}
/// Sequences of lines after a rule
fn seq(n: usize) {
    let mut t = T::new();
    t.lit("a: b").pick(&["", "; i"]).lit("\n");
    for _ in 0..n {
        t.pick(&["\tc $(v)", "\t", "# k", "v = 1", "ifeq (a,", "endif", "\tc \\\n"]).sym(b"b):").lit("\n");
    }
    t.lit("\te\n");
    differential(&t.0, &[], &["v"]);
}
#[no_mangle]
pub fn h_recipe_seq() {
    seq(3)
}
#[no_mangle]
pub fn h_recipe_seq4() {
    seq(4)
}
/// Commands are expanded late
#[no_mangle]
pub fn h_recipe_late() {
    let mut t = T::new();
    t.lit("v = 1\na: b\n\tx $(v) $").sym(b"vw$(").upto(2, b"v)w ").lit("\n");
    t.pick(&["", "v = 2\n", "v := 3\n", "w = $(v)\n"]);
    differential(&t.0, &[], &["v"]);
}
/// Another command character
#[no_mangle]
pub fn h_recipe_char() {
    let mut t = T::new();
    let cc = byte_in(b"\t>x ");
    let cc = concretize(cc as u64) as u8;
    t.lit("a: b\n").sym(b"\t>xa ").lit("c\\\n").upto(2, b"\t>x d").lit("\n");
    t.sym(b"\t>x #").pick(&["e\n", " f: g\n", "=1\n"]);
    t.lit("z = 2\n");
    let mut rf = Db::new();
    rf.cmd_char = cc;
    let x = expect(&mut rf, &[&t.0], &["z", "x"]);
    let mut real = Real::new();
    real.engine.command_char = cc as char;
    let ok = real.read(&t.0, "Makefile");
    compare(&x, ok, &mut real);
}
