//! Rule lines: targets, dependencies, inline commands.
use crate::cmp::*;
fn free(n: usize, alpha: &[u8]) {
    let mut t = T::new();
    t.lit("v = p q\nw = r:s\na").syms(n, alpha).lit("\n\tc\nz = 1\n");
    differential(&t.0, &[], &["z"]);
}
#[no_mangle]
pub fn h_rules_free() {
    free(5, b"b: \\;$v")
}
#[no_mangle]
pub fn h_rules_free7() {
    free(7, b"b: \\;")
}
#[no_mangle]
pub fn h_rules_chars() {
    free(3, b"b: \t.%/-_,'\"@<^*[]~&|!()#?+{}")
}
#[no_mangle]
pub fn h_rules_lists() {
    let mut t = T::new();
    t.lit("v = p q\nw = r:s\ne =\nc = :\n");
    t.pick(&["a", "$(v)", "a$(e)", "./a", "a/b ../c"]).sym(b" bx\\");
    t.pick(&[":", "$(c)"]).sym(b" :\td");
    t.pick(&["", "d", "$(v)", " $(e) f"]).sym(b" e\\;#").sym(b" x:;");
    t.lit("\n\tx\n");
    differential(&t.0, &[], &[]);
}
#[no_mangle]
pub fn h_rules_ref() {
    let mut t = T::new();
    t.lit("v = p q\nw = r:s\nx = :\ny = a: b\n");
    t.pick(&["$(w)", "$(w) t", "$(y)", "$(y) c", "t$(x)d", "t $(x) d", "t: $(w)", "$(nope)", "$(nope): d", "t: $(nope)", "t $(y)", "$(v:p=%): d", "$(v:p=k): d"]);
    t.upto(2, b" a:;").lit("\n\tcmd\n");
    differential(&t.0, &[], &[]);
}
#[no_mangle]
pub fn h_rules_escape() {
    let mut t = T::new();
    t.lit("a").upto(4, b"\\: b").lit(": ").upto(3, b"\\ \\:d").lit("e\n");
    differential(&t.0, &[], &[]);
}
