//! What cannot be read is reported.
use crate::cmp::*;
use crate::refmake::{Db, Stop};
use crate::sym::*;
use hastur::{MakefileError, ParseErrorKind};

fn kind(r: &mut Real, t: &[u8]) -> Option<ParseErrorKind> {
    match r.engine.read_makefile(&mut r.names, &mut &t[..], "Makefile") {
        Ok(()) => None,
        Err(MakefileError::ParseError(k)) => Some(k),
        Err(MakefileError::IOError(_)) => {
            check(false, "a syntax error is not an I/O error");
            reject()
        }
    }
}
/// good lines, a bad line, more good lines: what stands before the bad line
/// took effect, nothing after it did
fn stops(pre: &T, bad: &T, post: &T, want: &dyn Fn(&ParseErrorKind) -> bool) {
    let mut all = pre.0.clone();
    all.extend_from_slice(&bad.0);
    all.extend_from_slice(&post.0);
    observe(&all);
    let mut rf = Db::new();
    match rf.process(&all) {
        Err(Stop::Unsup) => {
            cover("outside");
            reject()
        }
        Ok(()) => reject(),
        Err(Stop::Err) => {}
    }
    let mut r = Real::new();
    match kind(&mut r, &all) {
        None => check(false, "a line that cannot be read is an error"),
        Some(k) => {
            cover("error");
            check(want(&k), "the error says what is wrong")
        }
    }
    let mut f = Real::new();
    let done = kind(&mut f, &pre.0).is_none();
    check(done, "the lines before are fine");
    for v in ["a", "b", "z"] {
        let (x, y) = (r.var(v.as_bytes()), f.var(v.as_bytes()));
        match (x, y) {
            (None, None) => {}
            (Some(x), Some(y)) => {
                cover("kept");
                check_same(&x, &y, "the lines before the error took effect, those after it did not")
            }
            _ => check(false, "the lines before the error took effect, those after it did not"),
        }
    }
}
const PRE: &[&str] = &["", "a = 1\n", "b := 2\na += $(b)\n", "ifeq (x,x)\na = 3\nendif\n", "# c\n\n", "define a\nq\nendef\n", "t: d\n\tc\nb = 4\n"];
const POST: &[&str] = &["", "z = 1\n", "a = 9\n", "endif\nz = 2\n"];
fn parts() -> (T, T, T) {
    let (mut a, mut b, mut c) = (T::new(), T::new(), T::new());
    a.pick(PRE);
    c.pick(POST);
    b.lit("");
    (a, b, c)
}
#[no_mangle]
pub fn h_error_cond() {
    let (a, mut b, c) = parts();
    let k = choose(7);
    let pad: &[&str] = &["", " ", "\t", " # c", " \\\n"];
    match k {
        0 => {
            b.lit("else").pick(pad).lit("\n");
            stops(&a, &b, &c, &|k| *k == ParseErrorKind::UnattachedElse)
        }
        1 => {
            b.lit("endif").pick(pad).lit("\n");
            stops(&a, &b, &c, &|k| *k == ParseErrorKind::UnattachedEndIf)
        }
        2 => {
            b.pick(&["ifeq (a,a)\n", "ifneq (a,a)\n", "ifeq (a,b)\nifeq (a,a)\nelse\nendif\n"]).lit("else\n").pick(&["", "else_ = 1\n"]).lit("else").pick(pad).lit("\n");
            // branches define nothing that is compared
            stops(&a, &b, &c, &|k| *k == ParseErrorKind::TooManyElses)
        }
        3 => {
            b.pick(&["ifeq (a,a)\n", "ifeq (a,b)\n"]).lit("endif ").sym(b"xe)=").upto(1, b"x ").lit("\n");
            stops(&a, &b, &c, &|k| *k == ParseErrorKind::ExtraTokensAfter("endif"))
        }
        4 => {
            b.pick(&["ifeq (a,a)\n", "ifeq (a,b)\n"]).lit("else ").sym(b"xe)=").upto(1, b"x ").lit("\n");
            stops(&a, &b, &c, &|k| *k == ParseErrorKind::ExtraTokensAfter("else"))
        }
        5 => {
            b.pick(&["ifeq", "ifneq"]).pick(&[" (a", " (a,b", " ", " 'a", " 'a'", " \"a\" 'b", "(", " (a b"]).lit("\n");
            let p = |k: &ParseErrorKind| *k == ParseErrorKind::MalformedIfEq;
            stops(&a, &b, &c, &|k| p(k) || *k == ParseErrorKind::BadIfEqSeparator || *k == ParseErrorKind::MissingSeparator)
        }
        _ => {
            b.lit("ifeq (a,a)\nendif\n").pick(&["endif", "else"]).lit("\n");
            stops(&a, &b, &c, &|k| *k == ParseErrorKind::UnattachedElse || *k == ParseErrorKind::UnattachedEndIf)
        }
    }
}
#[no_mangle]
pub fn h_error_lines() {
    let (a, mut b, c) = parts();
    match choose(5) {
        0 => {
            b.syms(2, b"xy.").upto(1, b" x").lit("\n");
            stops(&a, &b, &c, &|k| *k == ParseErrorKind::MissingSeparator)
        }
        1 => {
            b.pick(&["q = $(", "q := x${y", "$(", "t: $(a", "q$(b = 1", "$(eval x", "x$(y z", "include $(b"]).upto(1, b"x y").lit("\n");
            stops(&a, &b, &c, &|k| *k == ParseErrorKind::UnternimatedVariable)
        }
        2 => {
            b.pick(&["define q\n1\nendef ", "define q\nendef\t", "define q\ndefine r\nendef "]).sym(b"x$=").upto(1, b" x").lit("\n");
            stops(&a, &b, &c, &|k| *k == ParseErrorKind::ExtraTokensAfter("endef"))
        }
        3 => {
            b.lit("include ").pick(&["", "  "]).sym(b"nom").upto(1, b"x").pick(&["", " # c"]).lit("\n");
            stops(&a, &b, &c, &|k| match k {
                ParseErrorKind::IncludeFailure(e, f) => *e == std::io::ErrorKind::NotFound && (f.len() == 1 || f.len() == 2),
                _ => false,
            })
        }
        _ => {
            b.lit("\t").syms(1, b"cx;").upto(1, b"y ").lit("\n");
            let mut a = T::new();
            a.pick(&["", "a = 1\n", "t: d\na = 2\n", "# c\n"]);
            stops(&a, &b, &c, &|k| *k == ParseErrorKind::RecipeExpected || *k == ParseErrorKind::NoRuleRecipe)
        }
    }
}
/// In included files
#[no_mangle]
pub fn h_error_include() {
    let mut f = T::new();
    f.pick(&["a = 1\n", "", "b += 2\n"]);
    let kinds = choose(4);
    f.lit(["else\n", "endif\n", "junk\n", "x = $(\n"][kinds as usize]).pick(&["", "z = 1\n"]);
    observe(&f.0);
    file("m", &f.0);
    let mut b = T::new();
    b.lit("b = 0\n").pick(&["include m\n", "-include m\n", "include  n m\n", "ifeq (1,1)\nsinclude m\nendif\n"]);
    file("n", b"a = 7\n");
    b.pick(&["", "a = 9\n"]);
    observe(&b.0);
    let mut r = Real::new();
    let k = kind(&mut r, &b.0);
    cover("error");
    check(
        match k {
            Some(ParseErrorKind::UnattachedElse) => kinds == 0,
            Some(ParseErrorKind::UnattachedEndIf) => kinds == 1,
            Some(ParseErrorKind::MissingSeparator) => kinds == 2,
            Some(ParseErrorKind::UnternimatedVariable) => kinds == 3,
            _ => false,
        },
        "the error of an included file is reported",
    );
    check(r.var(b"z").is_none(), "nothing after the error is read");
    let a = r.var(b"a").map_or(false, |a| same(&a, b"9"));
    check(!a, "nothing after the include is read");
}
