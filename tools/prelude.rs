#![allow(dead_code, unused_imports)]
use hastur::evaluated::{Block, BlockSpan, ContentReference, EvaluatedNode};
use hastur::source_location::{LocatedString, Location};
use hastur::{Database, Engine, MakefileError, NameCache, ParseErrorKind};
use std::sync::Arc;

/// What a user sees after reading makefiles with one engine
fn state(e: &mut Engine, n: &mut NameCache, vars: &[&str]) -> String {
    let mut o = String::new();
    for v in vars {
        let db = e.database.clone();
        match n.variable_name(v).and_then(|x| db.get_variable(x)) {
            Some(x) => o += &format!("{}=<{}>\n", v, x.expand(n, e)),
            None => o += &format!("{} undefined\n", v),
        }
    }
    let db = e.database.clone();
    let mut rules = vec![];
    for r in db.rules() {
        let mut s = format!("{}:", r.target().into_string());
        for d in r.dependencies() {
            s += &format!(" <{}>", d.into_string())
        }
        for c in r.recipe().commands() {
            s += &format!(" ; <{}>", c.verif_ast().eval(n, e).into_string())
        }
        rules.push(s + "\n")
    }
    rules.sort();
    o + &rules.concat()
}
fn read(e: &mut Engine, n: &mut NameCache, text: &str, name: &str) -> String {
    match e.read_makefile(n, &mut text.as_bytes(), name) {
        Ok(()) => String::new(),
        Err(MakefileError::ParseError(k)) => format!("error {:?}\n", k),
        Err(MakefileError::IOError(k)) => format!("I/O error {:?}\n", k.kind()),
    }
}
fn show(texts: &[&str], vars: &[&str]) -> String {
    let (mut e, mut n) = (Engine::default(), NameCache::default());
    let mut o = String::new();
    for t in texts {
        o += &read(&mut e, &mut n, t, "Makefile")
    }
    o + &state(&mut e, &mut n, vars)
}
/// The same with files to include, in a scratch directory
fn show_files(text: &str, files: &[(&str, &str)], vars: &[&str]) -> String {
    let dir = std::path::PathBuf::from(std::env::var("SCRATCH").unwrap());
    for (f, t) in files {
        std::fs::write(dir.join(f), t).unwrap()
    }
    let (mut e, mut n) = (Engine::default(), NameCache::default());
    e.working_directory = dir;
    let o = read(&mut e, &mut n, text, "Makefile");
    o + &state(&mut e, &mut n, vars)
}
fn text(s: &str) -> ContentReference {
    hastur::evaluated::constant(LocatedString::synthetic_new(s))
}
fn block(parts: &[&str]) -> Block {
    let mut b = Block::default();
    for p in parts {
        b.push(text(p))
    }
    b
}
fn is(got: String, want: &str) {
    if got != want {
        println!("got:\n{}\nwanted:\n{}", got, want);
        std::process::exit(1)
    }
}
