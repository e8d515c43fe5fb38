//! Every piece of text knows where it was written.
use crate::cmp::*;
use crate::sym::*;
use hastur::ast::visit::Visitor;
use hastur::ast::AstNode;
use hastur::evaluated::BlockSpan;
use hastur::source_location::{LocatedStr, LocatedString, Location};

/// The text of a file from a line and character on
fn at(text: &[u8], line: u32, character: u32) -> Option<&[u8]> {
    let (mut l, mut c) = (1, 1);
    for (i, x) in st(text).char_indices() {
        if l == line && c == character {
            return Some(&text[i..]);
        }
        if x == '\n' {
            l += 1;
            c = 1
        } else {
            c += 1
        }
    }
    None
}
struct Files<'a>(&'a [(&'a str, &'a [u8])]);
impl<'a> Files<'a> {
    fn place(&self, real: &Real, l: &Location) -> Option<&'a [u8]> {
        match l {
            Location::SourceLocation { line, character, filename } => {
                let n = real.names.resolve_file_name(*filename)?;
                for (f, t) in self.0 {
                    if *f == n {
                        return at(t, *line, *character);
                    }
                }
                None
            }
            _ => None,
        }
    }
    fn text(&self, real: &Real, l: &Location, s: &str, label: &str) {
        if let Location::Synthetic = l {
            cover("synthetic");
            check(s == " " || s == "\n" || s == ";", "only separators are synthetic");
            return;
        }
        let ok = match self.place(real, l) {
            Some(t) => t.len() >= s.len() && same(&t[..s.len()], s.as_bytes()),
            None => false,
        };
        cover("located");
        check(ok, label);
    }
    fn segment(&self, real: &Real, s: &LocatedStr) {
        check(s.len() > 0, "segments are not empty");
        self.text(real, s.location(), s, "a segment stands at its location");
        // parts of a segment
        let n = s.len();
        let mut i = 0;
        for (k, _) in s.char_indices() {
            if k > 0 {
                i = k
            }
        }
        if i > 0 && *s.location() != Location::Synthetic {
            let p = s.slice(i, n - i);
            self.text(real, p.location(), &p, "a slice of a segment stands at its location");
            let o: LocatedString = s.clone().into();
            let q = o.slice(i, n - i);
            self.text(real, q.location(), &q, "a slice of an owned segment stands at its location");
            check(p.location().partial_cmp(s.location()) == Some(std::cmp::Ordering::Greater), "text that follows is located later");
        }
    }
    fn span(&self, real: &Real, s: BlockSpan) {
        for x in s.segments() {
            self.segment(real, &x)
        }
        match (s.location(), s.segments().next()) {
            (None, None) => check(s.len() == 0, "only the empty span has no location"),
            (Some(l), Some(x)) => check(l == *x.location(), "a span is located where its first segment is"),
            _ => check(false, "a span with text has a location"),
        }
    }
}
struct Seen<'n>(Vec<&'n LocatedString>, Vec<&'n AstNode>);
impl<'n> Visitor<'n> for Seen<'n> {
    fn visit_constant(&mut self, c: &'n LocatedString) {
        self.0.push(c)
    }
    fn visit_ast(&mut self, a: &'n AstNode) {
        self.1.push(a);
        self.super_ast(a)
    }
}
fn tree(f: &Files, real: &Real, a: &AstNode) {
    let mut s = Seen(vec![], vec![]);
    s.visit_ast(a);
    for c in s.0 {
        f.text(real, c.location(), c, "a constant stands at its location")
    }
    for n in s.1 {
        use hastur::ast::AstChildren::*;
        match n.children() {
            VariableReference(_) | Eval(_) | Strip(_) | Word { .. } | Words(_) => {
                if let Some(t) = f.place(real, &n.location()) {
                    check(t.len() > 0 && t[0] == b'$', "a reference is located at its dollar");
                    cover("reference")
                } else {
                    check(false, "a reference has a location")
                }
            }
            _ => {}
        }
    }
}
/// Everything that was read from the files
fn located(files: &[(&str, &[u8])], vars: &[&str]) {
    for (n, t) in files {
        observe(t);
        if *n != "Makefile" {
            file(n, t)
        }
    }
    let mut real = Real::new();
    if !real.read(files[0].1, "Makefile") {
        reject()
    }
    cover("accepted");
    let f = Files(files);
    let db = real.engine.database.clone();
    for v in vars {
        let n = match real.names.variable_name(v) {
            Some(n) => n,
            None => continue,
        };
        if let Some(x) = db.get_variable(n) {
            tree(&f, &real, x.ast());
            let b = x.ast().eval(&mut real.names, &mut real.engine);
            observe(b.into_string().as_bytes());
            f.span(&real, b.span());
            // and inside
            let l = b.len();
            if l > 1 {
                use nom::Slice;
                let k = l / 2;
                if st(b.into_string().as_bytes()).is_char_boundary(k) {
                    f.span(&real, b.span().slice(k..));
                    f.span(&real, b.span().slice(..k));
                    f.span(&real, b.span().slice(k..).to_new_block().span());
                }
            }
        }
    }
    for r in db.rules() {
        cover("rule");
        f.span(&real, r.target().span());
        for d in r.dependencies() {
            f.span(&real, d.span())
        }
        for c in r.recipe().commands() {
            let a = command_ast(c);
            tree(&f, &real, a);
            let b = a.eval(&mut real.names, &mut real.engine);
            f.span(&real, b.span());
        }
    }
}
#[no_mangle]
pub fn h_loc_value() {
    let mut t = T::new();
    t.pick(&["", "# c\n", "b = 12\n", "b = 1\\\n  2\n", "\u{feff}"]);
    t.lit("a").pick(&[" = ", ":=", "+= \t", " ?=  "]).syms(2, b"x $\\").pick(&["yz", "y $(b) z", "$b", "y\\\n z", "\\\\\nb := k", "y # c"]).lit("\n");
    t.pick(&["", "b = 345\n", "a += 67\n", "b := $(a)8\n"]);
    located(&[("Makefile", &t.0)], &["a", "b"]);
}
#[no_mangle]
pub fn h_loc_rules() {
    let mut t = T::new();
    t.pick(&["", "v = p q\n", "\n\n"]).syms(1, b"f \\").pick(&["gh", "g h", "$(v)"]).lit(":").pick(&["", " i", " i\\\n j", " $(v) k", "i ; l m", " i # n"]).lit("\n");
    t.pick(&["", "\to p\n", "\to $(v)\\\n\tr\n", "\ts \\\n t # u\n"]).pick(&["", "v = w\n", "gh: xx\n"]);
    located(&[("Makefile", &t.0)], &["v"]);
}
#[no_mangle]
pub fn h_loc_subst() {
    let mut t = T::new();
    t.lit("s = ab.c d.c\n").pick(&["", "k = .c\n", "r = .o\n"]).pick(&["a = ", "a := "]);
    t.pick(&["$(s:.c=.o)", "$(s:%.c=x%y)", "$(s:a%=z%)", "$(s:.c=)", "$(s:$k=$r)", "$(s:.c=$r)", "p$(s:d.c=q)", "$(s:%=$s)"]).sym(b" e$").lit("\nb = $(a:o=u)$(a)\n");
    located(&[("Makefile", &t.0)], &["a", "b"]);
}
#[no_mangle]
pub fn h_loc_define() {
    let mut t = T::new();
    t.pick(&["", "b = 1\n"]).lit("define a").pick(&["\n", " =\n", " # c\n"]).syms(3, b"x\n$#\\ ").pick(&["", "\ny$(b)\n\nz"]).lit("\nendef\nb = 34\n");
    t.pick(&["", "c := $(a)\n", "c = $(a)5\n"]);
    located(&[("Makefile", &t.0)], &["a", "b", "c"]);
}
#[no_mangle]
pub fn h_loc_eval() {
    let mut t = T::new();
    t.lit("n = v\n").pick(&["$(eval a = 12)", "$(eval a = 1$(n)2)", "$(eval $(n) = 12)", "$(eval a := $$(n)3)", "$(eval t$(n): d $(n)e)", "define d\na = 1\nv=2\nendef\n$(eval $(d))", "define d\n\na:=1$(n)\nx: y\n\tz\nendef\n$(eval $(d))"]);
    t.lit("\n").pick(&["", "b := $(a)$(v)\n", "b = $(a)4\n"]).sym(b"#\n");
    located(&[("Makefile", &t.0)], &["a", "b", "v"]);
}
#[no_mangle]
pub fn h_loc_include() {
    let mut t = T::new();
    t.pick(&["", "\n", "v = 1\n"]).pick(&["include m\n", "-include m n\n", "include n m\n"]).pick(&["", "v += 23\n", "a: b\n"]);
    let mut f = T::new();
    f.pick(&["v = 45", "\nw = $(v)6\n", "c: $(v)\n\te f\n", "v := 7\\\n8\n"]).sym(b"\n9");
    located(&[("Makefile", &t.0), ("m", &f.0), ("n", b"w = abc\nc: d\n")], &["v", "w"]);
}
#[no_mangle]
pub fn h_loc_wide() {
    let mut t = T::new();
    t.pick(&["", "# \u{e9}\n", "b = \u{20ac}1\n"]).lit("a").pick(&[" = ", " := "]);
    t.0.push(0xc3);
    let b = byte();
    assume(b >= 0x80 && b < 0xc0);
    t.0.push(b);
    t.pick(&["x", "\u{1f600}x", " $(b)\u{e9}y", "\\\n\u{e9}z", "\u{e9} y"]).lit("\n").pick(&["c = $(a:x=\u{20ac})\n", "\u{e9}: \u{20ac}\u{e9} \u{e9}x\n\t\u{e9}$(a)y\n", "a += \u{e9}2\n"]);
    located(&[("Makefile", &t.0)], &["a", "b", "c"]);
}
/// Free text
#[no_mangle]
pub fn h_loc_free() {
    let mut t = T::new();
    t.lit("c = 12\nb = 3").syms(4, b"\\\n $c#").lit("4\na = $(b)\n");
    located(&[("Makefile", &t.0)], &["a", "b", "c"]);
}
