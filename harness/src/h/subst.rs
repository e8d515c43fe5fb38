//! Substitution references.
use crate::cmp::*;
fn run(words: u8, wa: &[u8], k: u8, ka: &[u8], r: u8, ra: &[u8]) {
    let mut t = T::new();
    t.lit("s = ");
    t.upto(words, wa);
    t.lit("\nv = $(s:");
    t.upto(k, ka);
    t.lit("=");
    t.upto(r, ra);
    t.lit(")\n");
    differential(&t.0, &[], &["v", "s"]);
}
#[no_mangle]
pub fn h_subst_words() {
    run(4, b"ab ", 2, b"a%", 2, b"c%")
}
#[no_mangle]
pub fn h_subst_words6() {
    run(6, b"ab ", 3, b"ab%", 2, b"c%")
}
#[no_mangle]
pub fn h_subst_suffix() {
    let mut t = T::new();
    t.lit("s = ");
    t.pick(&["", "  "]).upto(2, b".co").lit(".c").upto(2, b" \tc").lit("x.c.c d");
    t.upto(1, b" \t");
    t.lit("\ne = .c\nv = $(s:").pick(&[".c", "$(e)", "%.c", "%", "x%", "x%.c", "%c", "d"]).lit("=").pick(&[".o", "%.o", "$(e)", "%", "", "y%z", "a b", "%%"]).lit(")\n");
    t.pick(&["", "w := $(v)\n"]);
    differential(&t.0, &[], &["v", "s", "w"]);
}
#[no_mangle]
pub fn h_subst_escape() {
    run(3, b"a%\\", 3, b"a%\\", 3, b"b%\\")
}
/// The parts of the reference are expanded themselves
#[no_mangle]
pub fn h_subst_expr() {
    let mut t = T::new();
    t.lit("n = s\ns = aa ba ab\nk = a\nr = %x\nq = s:a=z\np = %\n");
    t.pick(&["v = ", "v := "]).pick(&["$($(n):", "$(s:", "${s:", "$(nope:"]);
    t.pick(&["$(k)", "%$(k)", "$(p)a", "a$(p)", "$k$p"]).lit("=").pick(&["$(r)", "y$(r)", "$(k)$(p)", "$(s)", ""]);
    t.pick(&[")", "}"]).lit("\nw = $(q)\n");
    differential(&t.0, &[], &["v", "w"]);
}
