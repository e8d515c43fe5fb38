//! Databases are values.
use crate::cmp::*;
use crate::sym::*;
use hastur::Database;

/// What a database says, as one string
fn dump(db: &Database, real: &mut Real, vars: &[&str]) -> Vec<u8> {
    let keep = real.engine.database.clone();
    real.engine.replace_database(db.clone());
    let mut o = vec![];
    for v in vars {
        o.push(b'|');
        if let Some(x) = real.var(v.as_bytes()) {
            o.push(b'=');
            o.extend_from_slice(&x)
        }
    }
    for t in ["t", "u", "x", "y"] {
        o.push(b'|');
        let r = match real.names.file_name(t).and_then(|f| db.get_rule(f)) {
            Some(r) => r,
            None => continue,
        };
        o.push(b':');
        for d in r.dependencies() {
            o.extend_from_slice(d.into_string().as_bytes());
            o.push(b' ')
        }
        for c in r.recipe().commands() {
            o.push(b';');
            let s = command_ast(c).eval(&mut real.names, &mut real.engine).into_string();
            o.extend_from_slice(s.as_bytes());
        }
    }
    real.engine.replace_database(keep);
    o
}
const STMT: &[&str] = &["a = 1\n", "a += $(b)\n", "b := $(a)\n", "t: x\n", "t: y\n\tc $(a)\n", "define b\n2\nendef\n", "$(eval a = 3)\n", "u: ; k\n", "a ?= 4\nb += 5\n"];
const V: &[&str] = &["a", "b"];
/// A snapshot keeps its contents whatever is read afterwards, and reading can
/// go on from it
#[no_mangle]
pub fn h_db_snapshot() {
    let mut r = Real::new();
    let mut t = T::new();
    t.pick(STMT).pick(STMT);
    observe(&t.0);
    let mut u = T::new();
    u.pick(STMT);
    let mut w = T::new();
    w.pick(STMT);
    let ok = |r: &mut Real, t: &[u8]| check(r.read(t, "Makefile"), "accepted");
    let no_loop = |b: &[u8]| !(b.windows(4).any(|x| same(x, b"$(b)")) && b.windows(6).any(|x| same(x, b"b := $")));
    let mut all = t.0.clone();
    all.extend_from_slice(&u.0);
    all.extend_from_slice(&w.0);
    assume(no_loop(&all));
    ok(&mut r, &t.0);
    let snap = r.engine.database.clone();
    let before = dump(&snap, &mut r, V);
    observe(&before);
    ok(&mut r, &u.0);
    let first = dump(&r.engine.database.clone(), &mut r, V);
    let one = r.engine.database.clone();
    check_same(&dump(&snap, &mut r, V), &before, "a snapshot is not affected by reading on");
    // back in time, and on another way
    r.engine.replace_database(snap.clone());
    check_same(&dump(&r.engine.database.clone(), &mut r, V), &before, "a restored database is the snapshot");
    ok(&mut r, &w.0);
    let second = dump(&r.engine.database.clone(), &mut r, V);
    check_same(&dump(&snap, &mut r, V), &before, "a snapshot is not affected by reading on from it");
    check_same(&dump(&one, &mut r, V), &first, "nor is another continuation");
    cover("forked");
    // each continuation is what a fresh engine reads
    for (x, want) in [(&u.0, &first), (&w.0, &second)] {
        let mut f = Real::new();
        let mut y = t.0.clone();
        y.extend_from_slice(x);
        ok(&mut f, &y);
        check_same(&dump(&f.engine.database.clone(), &mut f, V), want, "a continuation is what reading it all at once gives")
    }
}
/// Rules can be put into other databases
#[no_mangle]
pub fn h_db_rules() {
    let mut r = Real::new();
    let mut t = T::new();
    t.sym(b"tu").pick(&[": x\n", ": x y\n\tc\n", ":\n\td $(a)\n"]).sym(b"tu").pick(&[": y\n", "::\n\te\n", " x: u\n"]).lit("a = 1\n");
    observe(&t.0);
    check(r.read(&t.0, "Makefile"), "accepted");
    let db = r.engine.database.clone();
    let before = dump(&db, &mut r, V);
    let mut n = 0;
    for x in db.rules() {
        n += 1;
        match db.get_rule(x.target_fname()) {
            Some(y) => check(x == y, "every rule is found by its target"),
            None => check(false, "every rule is found by its target"),
        }
        check(r.names.resolve_file_name(x.target_fname()) == Some(&x.target().into_string()[..]), "name of the target");
    }
    let mut e = Database::default();
    check(e.rules().count() == 0, "a new database is empty");
    let mut first = None;
    for x in db.rules() {
        let f = e.add_rule(x.clone());
        check(e.get_rule(x.target_fname()).is_none(), "adding a rule does not change the database");
        check(f.get_rule(x.target_fname()) == Some(x), "a rule that was added is there");
        if first.is_none() {
            first = Some(f.clone())
        }
        e = f;
    }
    check(e.rules().count() == n, "number of rules");
    check(first.map_or(0, |f| f.rules().count()) == if n > 0 { 1 } else { 0 }, "an earlier database stays");
    cover("rules");
    // replace a rule by another text's rule for the same target
    let mut q = T::new();
    q.sym(b"tu").lit(": q\n");
    let mut s = Real { engine: hastur::Engine::default(), names: r.names.clone() };
    check(s.read(&q.0, "Makefile"), "accepted");
    let other = s.engine.database.rules().next().unwrap().clone();
    let had = db.get_rule(other.target_fname()).is_some();
    let both = db.add_rule(other.clone());
    check(both.get_rule(other.target_fname()) == Some(&other), "the rule added last counts");
    check(both.rules().count() == n + if had { 0 } else { 1 }, "one rule for each target");
    check_same(&dump(&db, &mut r, V), &before, "the original stays");
}
/// Expanding what was read changes nothing and gives the same every time
#[no_mangle]
pub fn h_db_pure() {
    allow_panic("not implemented");
    let mut r = Real::new();
    let mut t = T::new();
    t.lit("a = x$(b)\nb := y\nw = p.c q\n");
    t.pick(&["a += ", "b += ", "b ?= ", "c := ", "c = "]).syms(2, b"$bcw(:").pick(&["", "$(w:.c=.$(b))", "$($(b))"]).lit("\nt: $(a)\n\tcmd $(a) $(c)\n");
    observe(&t.0);
    // no variable may refer to itself
    let mut bad = t.0.windows(4).any(|x| same(x, b"$b$b"));
    let l = t.0.len();
    for i in 0..l - 1 {
        if t.0[i] == b'$' && i > 22 {
            bad |= t.0[i + 1] == b'b' || t.0[i + 1] == b'c' || t.0[i + 1] == b'(' && (t.0[i + 2] == b'b' || t.0[i + 2] == b'c') && i + 14 < l && t.0[i + 3] == b')' && t.0[i + 4] == b'\n';
        }
    }
    assume(!bad);
    if !r.read(&t.0, "Makefile") {
        reject()
    }
    cover("accepted");
    let vars: &[&str] = &["a", "b", "c", "w"];
    let snap = r.engine.database.clone();
    let one = dump(&snap, &mut r, vars);
    let two = dump(&snap, &mut r, vars);
    check_same(&one, &two, "expanding again gives the same");
    let now = r.engine.database.clone();
    check_same(&dump(&now, &mut r, vars), &one, "expanding changes nothing");
    check(now.rules().count() == snap.rules().count(), "number of rules");
    for v in vars {
        if let Some(n) = r.names.variable_name(v) {
            match (now.get_variable(n), snap.get_variable(n)) {
                (None, None) => {}
                (Some(x), Some(y)) => {
                    check(x.ast() == y.ast(), "the definition stays");
                    let s = x.ast().eval(&mut r.names, &mut r.engine);
                    check_same(x.expand(&mut r.names, &mut r.engine).as_bytes(), s.into_string().as_bytes(), "expand is the text of the evaluated tree");
                }
                _ => check(false, "the variable stays"),
            }
        }
    }
}
