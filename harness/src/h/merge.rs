//! Several rules for one target.
use crate::cmp::*;
fn seq(n: usize, tg: &[&str], cm: &[&str]) {
    let mut t = T::new();
    t.lit("v = 1\n");
    for _ in 0..n {
        // the target itself, one or two dependencies
        t.pick(tg).sym(b"abc").lit(":").sym(b": ").lit(" ").syms(2, b"cd ").lit("\n").pick(cm);
    }
    differential(&t.0, &[], &["v"]);
}
#[no_mangle]
pub fn h_merge_two() {
    seq(2, &["", "b "], &["", "\tx\n", "\ty\n\tz\n", "v = 2\n"])
}
#[no_mangle]
pub fn h_merge_three() {
    seq(3, &[""], &["", "\tx\n"])
}
#[no_mangle]
pub fn h_merge_inline() {
    let mut t = T::new();
    for _ in 0..3 {
        t.sym(b"ab").lit(":").sym(b"cd; ").sym(b";x").pick(&["", "\n\ty"]).lit("\n");
    }
    differential(&t.0, &[], &[]);
}
/// Rules and variables in between
#[no_mangle]
pub fn h_merge_mixed() {
    let mut t = T::new();
    t.lit("v = a\n");
    for _ in 0..2 {
        t.pick(&["$(v)", "a b", "b"]).lit(": ").sym(b"cde").lit("\n").pick(&["", "\tx $(v)\n"]).pick(&["", "v = b\n", "ifeq (a,a)\n", "endif\n"]).pick(&["", "\tw\n"]);
    }
    differential(&t.0, &[], &["v"]);
}
