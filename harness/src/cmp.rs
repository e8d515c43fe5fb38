//! Runs hastur and the reference interpreter on the same text and compares
//! everything a user can observe.
use crate::refmake::{Db, Stop};
use crate::sym::*;
use hastur::ast::AstNode;
use hastur::{Command, Engine, NameCache};

/// A makefile under construction
pub struct T(pub Vec<u8>);
impl T {
    pub fn new() -> T {
        T(Vec::new())
    }
    pub fn lit(&mut self, s: &str) -> &mut T {
        self.0.extend_from_slice(s.as_bytes());
        self
    }
    /// One symbolic byte from an alphabet
    pub fn sym(&mut self, alpha: &[u8]) -> &mut T {
        let b = byte_in(alpha);
        self.0.push(b);
        self
    }
    pub fn syms(&mut self, n: usize, alpha: &[u8]) -> &mut T {
        for _ in 0..n {
            self.sym(alpha);
        }
        self
    }
    /// 0 to n symbolic bytes
    pub fn upto(&mut self, n: u8, alpha: &[u8]) -> &mut T {
        let k = choose(n + 1);
        self.syms(k as usize, alpha)
    }
    /// One of several texts
    pub fn pick(&mut self, opts: &[&str]) -> &mut T {
        let k = choose(opts.len() as u8);
        self.lit(opts[k as usize])
    }
}

pub fn same(a: &[u8], b: &[u8]) -> bool {
    let mut ok = a.len() == b.len();
    if ok {
        for i in 0..a.len() {
            ok &= a[i] == b[i];
        }
    }
    ok
}
pub fn check_same(a: &[u8], b: &[u8], label: &str) {
    check(same(a, b), label)
}
pub fn st(b: &[u8]) -> &str {
    // harness texts are valid UTF-8 by construction
    unsafe { std::str::from_utf8_unchecked(b) }
}
fn skip_blanks(s: &[u8]) -> &[u8] {
    let mut i = 0;
    while i < s.len() && (s[i] == b' ' || s[i] == b'\t') {
        i += 1
    }
    &s[i..]
}

#[cfg(hastur_verif)]
pub fn command_ast(c: &Command) -> &AstNode {
    c.verif_ast()
}
/// Without the hook: `Command` is a wrapper around its AST
#[cfg(not(hastur_verif))]
pub fn command_ast(c: &Command) -> &AstNode {
    const _: () = assert!(std::mem::size_of::<Command>() == std::mem::size_of::<AstNode>());
    unsafe { &*(c as *const Command as *const AstNode) }
}

pub struct Real {
    pub engine: Engine,
    pub names: NameCache,
}
impl Real {
    pub fn new() -> Real {
        Real { engine: Engine::default(), names: NameCache::default() }
    }
    pub fn read(&mut self, text: &[u8], file: &str) -> bool {
        let mut r = text;
        self.engine.read_makefile(&mut self.names, &mut r, file).is_ok()
    }
    /// The expanded value of a variable
    pub fn var(&mut self, name: &[u8]) -> Option<Vec<u8>> {
        let n = self.names.variable_name(st(name))?;
        let db = self.engine.database.clone();
        let v = db.get_variable(n)?;
        Some(v.expand(&mut self.names, &mut self.engine).into_bytes())
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    Vars,
    Rules,
}

/// What the reference expects of a makefile
pub struct Expected {
    ok: bool,
    vars: Vec<(Vec<u8>, Option<Vec<u8>>)>,
    rules: Vec<(Vec<u8>, Vec<Vec<u8>>, Vec<Vec<u8>>)>,
}

fn rej<X>(r: Result<X, Stop>) -> X {
    match r {
        Ok(x) => x,
        Err(_) => {
            cover("outside");
            reject()
        }
    }
}

pub fn expect(rf: &mut Db, texts: &[&[u8]], universe: &[&str]) -> Expected {
    let mut ok = true;
    for t in texts {
        match rf.process(t) {
            Ok(()) => {}
            Err(Stop::Err) => {
                // what stands before the error has taken effect
                ok = false;
                break;
            }
            Err(Stop::Unsup) => {
                cover("outside");
                reject()
            }
        }
    }
    let mut all: Vec<Vec<u8>> = vec![];
    for v in rf.vars.iter() {
        all.push(v.name.clone())
    }
    for u in universe {
        if rf.find(u.as_bytes()).is_none() {
            all.push(u.as_bytes().to_vec())
        }
    }
    let mut vars = vec![];
    for n in all {
        let v = if rf.find(&n).is_some() {
            let mut s = vec![];
            Some(rej(rf.expand_var(&n, &mut s)))
        } else {
            None
        };
        vars.push((n, v));
    }
    let mut rules = vec![];
    for r in rf.rules.clone() {
        let mut c = vec![];
        for x in r.cmds.iter() {
            c.push(rej(rf.expand(x)))
        }
        rules.push((r.target, r.deps, c))
    }
    Expected { ok, vars, rules }
}

pub fn compare(x: &Expected, ok: bool, real: &mut Real) {
    check(ok == x.ok, "accepted/rejected as specified");
    if !x.ok {
        cover("rejected");
    } else {
        cover("accepted");
    }
    for (n, v) in x.vars.iter() {
        let got = real.var(n);
        match (v, got) {
            (None, None) => {}
            (Some(v), Some(got)) => {
                cover("variable");
                observe(&got);
                check_same(&got, v, "variable expands to its value");
            }
            (None, Some(_)) => check(false, "variable is not set"),
            (Some(_), None) => check(false, "variable is set"),
        }
    }
    let db = real.engine.database.clone();
    check(db.rules().count() == x.rules.len(), "number of rules");
    for (t, deps, cmds) in x.rules.iter() {
        let r = match real.names.file_name(st(t)).and_then(|f| db.get_rule(f)) {
            Some(r) => r,
            None => {
                check(false, "rule exists");
                return;
            }
        };
        cover("rule");
        check(real.names.resolve_file_name(r.target_fname()) == Some(st(t)), "name of the rule's target");
        check_same(r.target().into_string().as_bytes(), t, "target of the rule");
        check(r.dependencies().len() == deps.len(), "number of dependencies");
        for (a, b) in r.dependencies().iter().zip(deps) {
            check_same(a.into_string().as_bytes(), b, "dependency");
        }
        check(r.recipe().commands().len() == cmds.len(), "number of commands");
        for (a, b) in r.recipe().commands().iter().zip(cmds) {
            cover("command");
            let s = command_ast(a).eval(&mut real.names, &mut real.engine).into_string();
            observe(s.as_bytes());
            check_same(skip_blanks(s.as_bytes()), skip_blanks(b), "command");
        }
    }
}

/// Read one makefile with both and compare
pub fn differential(text: &[u8], files: &[(&str, &[u8])], universe: &[&str]) {
    observe(text);
    let mut rf = Db::new();
    for (n, c) in files {
        observe(c);
        rf.files.push((n.as_bytes().to_vec(), c.to_vec()));
        file(n, c);
    }
    let x = expect(&mut rf, &[text], universe);
    let mut real = Real::new();
    let ok = real.read(text, "Makefile");
    compare(&x, ok, &mut real);
}
