//! Include directives.
use crate::cmp::*;
#[no_mangle]
pub fn h_include_stmt() {
    let mut t = T::new();
    t.pick(&["", "v = 0\n", "a: b\n", "define d\nx\nendef\n"]);
    t.pick(&["include ", "-include ", "sinclude "]).pick(&["m", "n", "m n", "$(v)", "m m", "n m", "  m # c", ""]).lit("\n");
    t.pick(&["", "\tcmd\n", "v += 3\n"]);
    let mut f = T::new();
    f.pick(&["v = 1\n", "v += 2\n", "x: y\n\tz\n", "v := $(v)4", "x: y", "ifeq (a,b)\n", "junk\n", ""]);
    differential(&t.0, &[("m", &f.0)], &["v", "d"]);
}
/// Files that include files
#[no_mangle]
pub fn h_include_nest() {
    let mut t = T::new();
    t.lit("v = 0\nf = n\n").pick(&["include m\n", "-include m\n", "include m n\n", "ifeq ($(v),0)\ninclude m\nendif\n", "ifeq ($(v),1)\ninclude m\nendif\n"]);
    t.pick(&["v += t\n", "w := $(v)\n", "a: e\n"]);
    let mut f = T::new();
    f.pick(&["include n\n", "include $(f)\n", "-include q n\n", "a: b\ninclude n\n\tc\n", "include q\n", "v += m\n"]).pick(&["v += m2\n", "a: b\n"]);
    let mut g = T::new();
    g.pick(&["v += n\n", "a: c\n\td\n", "w = $(v)\n", "f = m\n"]);
    differential(&t.0, &[("m", &f.0), ("n", &g.0)], &["v", "w"]);
}
/// The text of the file is read like any other makefile
#[no_mangle]
pub fn h_include_text() {
    let mut t = T::new();
    t.lit("c = 1\ninclude m\nd = 2\n");
    let mut f = T::new();
    f.syms(4, b"a=:\n\t#\\b");
    differential(&t.0, &[("m", &f.0)], &["c", "d"]);
}
/// Names of files
#[no_mangle]
pub fn h_include_names() {
    let mut t = T::new();
    t.lit("l = a b\ns = a.x b.x\n");
    t.pick(&["include", "-include"]).lit(" ").pick(&["", "a ", "$(l) ", "$(s:.x=) "]).syms(2, b"abc $\\").lit("\n");
    differential(&t.0, &[("a", b"v += A\n"), ("b", b"v += B\n"), ("ab", b"v += AB\n"), ("a b", b"v += S\n")], &["v"]);
}
