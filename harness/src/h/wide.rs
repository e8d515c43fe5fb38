//! Text that is not ASCII.
use crate::cmp::*;
use crate::sym::*;

/// A letter of two bytes with a symbolic second one, or a longer one
fn letter(t: &mut T) {
    match choose(4) {
        0 => {
            t.0.push(0xc3);
            let b = byte();
            assume(b >= 0x80 && b < 0xc0);
            t.0.push(b);
        }
        1 => {
            // three bytes, U+4000 to U+4FFF
            t.0.push(0xe4);
            for _ in 0..2 {
                let b = byte();
                assume(b >= 0x80 && b < 0xc0);
                t.0.push(b)
            }
        }
        2 => {
            // four bytes, U+10000 to U+3FFFF
            t.0.push(0xf0);
            for i in 0..3 {
                let b = byte();
                assume(b >= if i == 0 { 0x90 } else { 0x80 } && b < 0xc0);
                t.0.push(b)
            }
        }
        _ => {
            t.sym(b"a $");
        }
    }
}
#[no_mangle]
pub fn h_wide_assign() {
    let mut t = T::new();
    t.pick(&["", "\u{feff}"]).lit("a ").pick(&["=", ":=", "+=", "?="]).lit(" x");
    letter(&mut t);
    t.pick(&["", "\\\n", " \\\n ", "#"]);
    letter(&mut t);
    t.lit("\nb := <$(a)>\n");
    differential(&t.0, &[], &["a", "b"]);
}
#[no_mangle]
pub fn h_wide_name() {
    let mut t = T::new();
    let mut n = T::new();
    letter(&mut n);
    let v = n.0.clone();
    if v.len() == 1 {
        reject()
    }
    t.0.extend_from_slice(&v);
    t.pick(&["x", ""]).pick(&[" = 1\n", " := 1\n", "=1\n"]).lit("b = $(");
    t.0.extend_from_slice(&v);
    t.pick(&["x", ""]).lit(")\nc = ${");
    t.0.extend_from_slice(&v);
    t.lit("}");
    t.0.extend_from_slice(&v);
    t.lit("\n");
    differential(&t.0, &[], &["b", "c"]);
}
#[no_mangle]
pub fn h_wide_rule() {
    let mut t = T::new();
    t.pick(&["x", "x\\"]);
    letter(&mut t);
    t.pick(&[": ", "y: d", " \\: z:", ": d ; "]);
    letter(&mut t);
    t.pick(&["e", "\\ f", " g"]).lit("\n\tc\n");
    differential(&t.0, &[], &[]);
}
#[no_mangle]
pub fn h_wide_recipe() {
    let mut t = T::new();
    t.lit("\u{e9}: \u{20ac}").pick(&["", " ; \u{e9}"]).lit("\n\tc");
    letter(&mut t);
    t.pick(&["\\\n\t", "", " \u{e9}#", "\n\t\u{e9}"]);
    letter(&mut t);
    t.lit("\n");
    differential(&t.0, &[], &[]);
}
#[no_mangle]
pub fn h_wide_rule3() {
    let mut t = T::new();
    t.pick(&["x", "x\\"]);
    letter(&mut t);
    t.pick(&[": ", "y: d", " \\: z:", ": d ; "]);
    letter(&mut t);
    t.pick(&["e", "\\ f", " g"]).lit("\n\tc");
    t.pick(&["\\\n\t", "", " \u{e9}#"]);
    letter(&mut t);
    t.lit("\n");
    differential(&t.0, &[], &[]);
}
#[no_mangle]
pub fn h_wide_subst() {
    let mut t = T::new();
    t.lit("s = p");
    letter(&mut t);
    t.lit(".c \u{e9}").pick(&["", " \u{1f600}.c"]).lit("\nv = $(s:").pick(&[".c=.o", "%.c=%", "\u{e9}=\u{20ac}", "%\u{e9}=\u{20ac}%", "p%=", "%=\u{e9}%\u{1f600}", "p\u{e9}%=%"]).lit(")\nw := $(v:o=");
    letter(&mut t);
    t.lit(")\n");
    differential(&t.0, &[], &["v", "w"]);
}
#[no_mangle]
pub fn h_wide_cond() {
    let mut t = T::new();
    let mut x = T::new();
    letter(&mut x);
    let mut y = T::new();
    letter(&mut y);
    t.pick(&["ifeq (", "ifneq ("]);
    t.0.extend_from_slice(&x.0);
    t.lit(",");
    t.0.extend_from_slice(&y.0);
    t.lit(")\nv = 1\nelse\nv = 2\nendif\nifeq '");
    t.0.extend_from_slice(&y.0);
    t.lit("' \"");
    t.0.extend_from_slice(&x.0);
    t.lit("\"\nw = 1\nendif\n");
    differential(&t.0, &[], &["v", "w"]);
}
#[no_mangle]
pub fn h_wide_define() {
    let mut t = T::new();
    t.lit("define d").pick(&["", " :="]).lit("\n");
    letter(&mut t);
    t.pick(&["\n\u{e9}", "\\\n", "# "]);
    letter(&mut t);
    t.lit("\nendef\ne = $(d)|\n");
    t.pick(&["", "$(eval \u{e9} = $(d))f := $(\u{e9})\n"]);
    differential(&t.0, &[], &["d", "e", "f"]);
}
