//! Names.
use crate::cmp::*;
use crate::sym::*;
use hastur::NameCache;

fn name() -> Vec<u8> {
    let mut t = T::new();
    t.upto(2, b"ab.");
    t.0
}
#[no_mangle]
pub fn h_names_files() {
    let mut c = NameCache::default();
    let t = [name(), name(), name()];
    for x in t.iter() {
        observe(x);
        check(c.file_name(st(x)).is_none(), "unknown name");
    }
    let mut ids = vec![];
    for x in t.iter() {
        let id = c.intern_file_name(st(x).to_string());
        check(c.intern_file_name(st(x).to_string()) == id, "interning again gives the same name");
        ids.push(id);
        for y in t.iter() {
            check(c.variable_name(st(y)).is_none(), "a file name is not a variable name");
        }
    }
    cover("names");
    let d = c.clone();
    for i in 0..3 {
        for c in [&c, &d] {
            check(c.file_name(st(&t[i])) == Some(ids[i]), "found by its text");
            match c.resolve_file_name(ids[i]) {
                Some(s) => check_same(s.as_bytes(), &t[i], "resolves to its text"),
                None => check(false, "resolves"),
            }
        }
        for j in 0..3 {
            check((ids[i] == ids[j]) == same(&t[i], &t[j]), "names are equal exactly if their texts are");
        }
    }
}
#[no_mangle]
pub fn h_names_vars() {
    let mut c = NameCache::default();
    let t = [name(), name(), name()];
    let mut ids = vec![];
    for x in t.iter() {
        observe(x);
        ids.push(c.intern_variable_name(st(x).to_string()));
        check(c.file_name(st(x)).is_none(), "a variable name is not a file name");
    }
    cover("names");
    let mut d = c.clone();
    d.intern_variable_name("zzz".to_string());
    for i in 0..3 {
        check(c.variable_name(st(&t[i])) == Some(ids[i]) && d.variable_name(st(&t[i])) == Some(ids[i]), "found by its text");
        check(d.intern_variable_name(st(&t[i]).to_string()) == ids[i], "interning again gives the same name");
        for j in 0..3 {
            check((ids[i] == ids[j]) == same(&t[i], &t[j]), "names are equal exactly if their texts are");
        }
    }
    check(c.variable_name("zzz").is_none(), "a copy is independent");
}
/// Interleaved with reading
#[no_mangle]
pub fn h_names_read() {
    let mut r = Real::new();
    let mut n = T::new();
    n.sym(b"ab").upto(1, b"ab");
    let before = choose(3);
    let (mut v, mut f) = (None, None);
    if before > 0 {
        v = Some(r.names.intern_variable_name(st(&n.0).to_string()));
    }
    if before > 1 {
        f = Some(r.names.intern_file_name(st(&n.0).to_string()));
    }
    let mut t = T::new();
    t.sym(b"ab").upto(1, b"ab").pick(&[" = x\n", ": b\n", " := $(aa)\n", ": b\n\t$(ab)\n"]);
    observe(&t.0);
    check(r.read(&t.0, "Makefile"), "accepted");
    cover("read");
    let v2 = r.names.intern_variable_name(st(&n.0).to_string());
    let f2 = r.names.intern_file_name(st(&n.0).to_string());
    check(v.map_or(true, |v| v == v2), "reading keeps variable names");
    check(f.map_or(true, |f| f == f2), "reading keeps file names");
    check(r.names.resolve_file_name(f2) == Some(st(&n.0)), "resolves to its text");
    for m in ["a", "b", "aa", "ab", "ba", "bb"] {
        if let Some(x) = r.names.variable_name(m) {
            check((x == v2) == same(m.as_bytes(), &n.0), "variable names are equal exactly if their texts are")
        }
        if let Some(x) = r.names.file_name(m) {
            check((x == f2) == same(m.as_bytes(), &n.0), "file names are equal exactly if their texts are")
        }
    }
}
