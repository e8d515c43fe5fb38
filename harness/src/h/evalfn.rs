//! The eval function.
use crate::cmp::*;
#[no_mangle]
pub fn h_eval_stmt() {
    let mut t = T::new();
    t.lit("n = q\nx = $(n)\nnl = \\\n\n");
    t.pick(&["", "w := ", "ifeq (", "t: "]);
    t.lit("$(eval ").pick(&["v = 1", "v := $(x)", "v = $$(x)", "$(n) = 2", "a: b", "include m", "v += 3", "x += 4", "", "# c", "n = $(n)r", "$(x)=$$n"]).lit(")");
    t.pick(&["", "s", " $(n)"]).pick(&["", ",q)\nz = 1\nendif"]).lit("\n");
    t.pick(&["", "n = p\n", "\tcmd $(x)\n"]);
    differential(&t.0, &[("m", b"v = inc\n")], &["v", "w", "x", "n", "z"]);
}
/// Multi-line text through a define
#[no_mangle]
pub fn h_eval_define() {
    let mut t = T::new();
    t.lit("n = q\ndefine d\n");
    for _ in 0..2 {
        t.pick(&["v = 1", "v = $(n)", "v = $$(n)", "a: b $(n)", "\tc $$(n)", "ifeq ($(n),q)", "endif", "# k", "v += 2", "$$(eval w = $(n))"]).lit("\n");
    }
    t.lit("endef\n").pick(&["$(eval $(d))", "${eval $(d)}", "u := $(eval $(d))x", "$(eval  $(d))$(eval n = z)"]).lit("\n");
    t.pick(&["", "n = r\n", "\tcmd\n"]);
    differential(&t.0, &[], &["v", "w", "u", "n"]);
}
#[no_mangle]
pub fn h_eval_late() {
    let mut t = T::new();
    t.lit("v = 0\ne = $(eval v = ").pick(&["1", "$(v)1", "$$(w)"]).lit(")").pick(&["", "x", "$(v)"]).lit("\nw = 5\n");
    t.pick(&["y := $(e)", "y := $(e)$(e)", "y = $(e)", "$(e): a", "a: $(e)", "ifeq ($(e),x)\nk = 1\nendif", "y := $(v)$(e)$(v)"]).lit("\n");
    differential(&t.0, &[], &["v", "y", "w", "k"]);
}
/// Any short text
#[no_mangle]
pub fn h_eval_free() {
    let mut t = T::new();
    t.lit("b = 1\n$(eval ").syms(5, b"ab=: $()").lit(")\nc = 2\n");
    differential(&t.0, &[], &["a", "b", "c"]);
}
