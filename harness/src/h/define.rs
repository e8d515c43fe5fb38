//! Multi-line variables.
use crate::cmp::*;
#[no_mangle]
pub fn h_define_op() {
    let mut t = T::new();
    t.lit("x = 1\n").pick(&["", "v = old\n", "v := old\n"]);
    t.lit("define ").pick(&["v", "v =", "v :=", "v ?=", "v +=", "$(n)v", "v=", "v # c"]).lit("\n");
    t.pick(&["", "l $(x)\n", "l\n\n# c\n", "a = b \\\n c\n"]).pick(&["", "\tt $x\n"]);
    t.lit("endef").pick(&["", " ", " # c", "x"]).lit("\n");
    t.pick(&["x = 2\n", "v += more\n", "w := $(v)\n"]);
    differential(&t.0, &[], &["v", "w"]);
}
fn body(n: usize, alpha: &[u8]) {
    let mut t = T::new();
    t.lit("define v\n").syms(n, alpha).lit("\nendef\nw = 1\n");
    differential(&t.0, &[], &["v", "w"]);
}
#[no_mangle]
pub fn h_define_body() {
    body(5, b"\n#\\ \ta$=:")
}
#[no_mangle]
pub fn h_define_body6() {
    body(6, b"\n#\\ a$(")
}
#[no_mangle]
pub fn h_define_nest() {
    let mut t = T::new();
    t.lit("define v\n");
    for _ in 0..4 {
        t.pick(&["define w", " endef", "endef", "x", "endefx", "defined = 1", "w = 2"]).lit("\n");
    }
    t.lit("endef\nz = 1\n");
    differential(&t.0, &[], &["v", "w", "z"]);
}
#[no_mangle]
pub fn h_define_end() {
    let mut t = T::new();
    t.lit("define v\na\n").upto(2, b" \t\\#").lit("endef").upto(3, b" \t#ax\\").lit("\nz = 1\nendef\ny = 2\n");
    differential(&t.0, &[], &["v", "z", "y"]);
}
#[no_mangle]
pub fn h_define_name() {
    let mut t = T::new();
    t.lit("n = v\ndefine").upto(1, b" \t").syms(4, b"vn $()=:+?#").lit("\nbody\nendef\nz = 1\n");
    differential(&t.0, &[], &["v", "n", "z"]);
}
