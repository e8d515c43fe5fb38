//! Sensitivity: which variables an expansion came from.
use crate::cmp::*;
use crate::refmake::{Db, Stop};
use crate::sym::*;
use hastur::ast::{constant, variable_reference};
use hastur::evaluated::Block;
use hastur::source_location::{LocatedString, Location};

fn sensitive(b: &Block, real: &Real, n: &str) -> bool {
    match real.names.variable_name(n) {
        None => false,
        Some(x) => b.sensitivity().any(|y| *y == x),
    }
}
/// The variables an expansion of $(v) depends on are those the reference
/// interpreter looks up
fn vars(text: &[u8], universe: &[&str]) {
    observe(text);
    let mut rf = Db::new();
    match rf.process(text) {
        Ok(()) => {}
        Err(Stop::Err) => reject(),
        Err(Stop::Unsup) => {
            cover("outside");
            reject()
        }
    }
    let mut want = vec![];
    for u in universe {
        let mut s = vec![];
        match rf.expand_var(u.as_bytes(), &mut s) {
            Ok(t) => want.push((*u, t, s)),
            Err(_) => {
                cover("outside");
                reject()
            }
        }
    }
    let mut real = Real::new();
    check(real.read(text, "Makefile"), "accepted");
    for (u, t, s) in want.iter() {
        let a = variable_reference(Location::Synthetic, constant(LocatedString::synthetic_new(u.to_string())));
        let b = a.eval(&mut real.names, &mut real.engine);
        check_same(b.into_string().as_bytes(), t, "value");
        cover("value");
        for n in s.iter() {
            check(sensitive(&b, &real, st(n)), "sensitive to every variable the value came from");
        }
        check(b.sensitivity().count() == s.len(), "sensitive to nothing else");
        let again = (*b).clone().into_sensitivity().count();
        check(again == s.len(), "iterating by value");
    }
}
const V: &[u8] = b"abc";
#[no_mangle]
pub fn h_sens_chain() {
    let mut t = T::new();
    t.lit("c = x\n");
    t.lit("a ").pick(&["=", ":=", "?=", "+="]).lit(" $").sym(V);
    // no variable may come to refer to itself
    let n = t.0.len();
    assume(t.0[n - 1] != b'a');
    t.lit("\nb ").pick(&["=", ":="]).lit(" $(").sym(V).lit(")\n");
    t.pick(&["", "a += $c\n", "b += $d\n", "c := $d\n", "c = y\n"]);
    vars(&t.0, &["a", "b", "c"]);
}
#[no_mangle]
pub fn h_sens_refs() {
    let mut t = T::new();
    t.lit("p = q.x r.x\nq = p\ne = .x\nw = $").sym(b"pqez").lit("\n");
    t.pick(&["v = ", "v := "]).pick(&["$($(q))", "$(p:.x=$(e))", "$(p:$(e)=y)", "$($(q):%.x=$w)", "$(w)", "x$(p)y$e", "$$(p)", "$($w)", "$(p:.x=.y)", "${q}$(nope)", "$(eval p = $(e))$(q)"]);
    t.pick(&["", " t", "$(q)", "$w"]).lit("\n");
    t.pick(&["", "q = e\n", "w := $(w)\n", "v += $w\n"]);
    vars(&t.0, &["v", "w", "p"]);
}
#[no_mangle]
pub fn h_sens_define() {
    let mut t = T::new();
    t.lit("a = 1\nb := $(a)\ndefine c").pick(&["", " =", " :=", " +="]).lit("\n$").sym(b"abd").pick(&["", "\n$(b)"]).lit("\nendef\n");
    t.pick(&["e := $(c)\n", "e = $(c)$(a)\n", "$(eval e := $(c))\n", "$(eval e = $$(c))\n"]);
    t.pick(&["", "a := 2\n", "b = $(d)\n"]);
    vars(&t.0, &["c", "e"]);
}
/// What depends on the value of x, is sensitive to x
fn influence(before: &T, after: &T, vals: &[u8]) {
    let mut run = |r: &mut Real| {
        let mut t = before.0.clone();
        t.push(byte_in(vals));
        t.extend_from_slice(&after.0);
        observe(&t);
        r.read(&t, "Makefile")
    };
    let (mut a, mut b) = (Real::new(), Real::new());
    let (x, y) = (run(&mut a), run(&mut b));
    if !x || !y {
        reject()
    }
    for v in ["v", "w"] {
        let e = variable_reference(Location::Synthetic, constant(LocatedString::synthetic_new(v)));
        let p = e.eval(&mut a.names, &mut a.engine);
        let q = e.eval(&mut b.names, &mut b.engine);
        block(&p, &q, &a, &b);
    }
    let (da, db) = (a.engine.database.clone(), b.engine.database.clone());
    if da.rules().count() != 1 || db.rules().count() != 1 {
        return;
    }
    let (ra, rb) = (da.rules().next().unwrap(), db.rules().next().unwrap());
    cover("rule");
    block(ra.target(), rb.target(), &a, &b);
    if ra.dependencies().len() == rb.dependencies().len() {
        for (p, q) in ra.dependencies().iter().zip(rb.dependencies()) {
            block(p, q, &a, &b);
        }
    }
}
fn block(p: &Block, q: &Block, a: &Real, b: &Real) {
    cover("block");
    if !same(p.into_string().as_bytes(), q.into_string().as_bytes()) {
        cover("influenced");
        check(sensitive(p, a, "x") && sensitive(q, b, "x"), "sensitive to x, whose value it depends on");
    }
}
#[no_mangle]
pub fn h_sens_influence() {
    let mut p = T::new();
    p.lit("x = ");
    let mut t = T::new();
    t.lit("\ny = 1\nr = x\ns = $(x)").pick(&["", " z"]).lit("\n");
    t.pick(&["v = ", "v := ", "v += "]).pick(&["$x", "$(r)", "$($(r))", "$(s:y=$(x))", "$(y:$(x)=1)", "a$(s)b", "$(x:1=z)$(eval w = $$(x))"]).lit("\n");
    t.pick(&["w = $(v)", "w := $(v)$(y)", "w := k", ""]).lit("\n");
    t.pick(&["", "$x: d\n", "a$x b: $(y)\n", "a: $(x) b$(v)\n", "$(s): $(w)\n", "a: $(s:1=o) e\n", "a: ; $(x)\n"]);
    influence(&p, &t, b"1y%");
}
