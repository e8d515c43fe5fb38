//! Native replay: runs one harness on concrete bytes, against the natively
//! compiled hastur. Prints what happened as JSON.
#![allow(dead_code)]
mod cmp;
mod h;
mod refmake;
mod sym;

use std::cell::RefCell;
struct S {
    bytes: Vec<u8>,
    pos: usize,
    failed: Vec<String>,
    checks: u64,
    covers: Vec<String>,
    allowed: Vec<String>,
    observed: Vec<String>,
}
thread_local!(static ST: RefCell<S> = RefCell::new(S { bytes: vec![], pos: 0, failed: vec![], checks: 0, covers: vec![], allowed: vec![], observed: vec![] }));
struct Reject;
unsafe fn text(p: *const u8, n: usize) -> String {
    String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned()
}
#[no_mangle]
extern "C" fn lsym_byte() -> u8 {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        let p = s.pos;
        s.pos += 1;
        s.bytes.get(p).copied().unwrap_or(0)
    })
}
#[no_mangle]
extern "C-unwind" fn lsym_assume(c: bool) {
    if !c {
        lsym_reject()
    }
}
#[no_mangle]
extern "C" fn lsym_check(c: bool, p: *const u8, n: usize) {
    let t = unsafe { text(p, n) };
    ST.with(|s| {
        let mut s = s.borrow_mut();
        s.checks += 1;
        if !c {
            s.failed.push(t)
        }
    })
}
#[no_mangle]
extern "C" fn lsym_cover(p: *const u8, n: usize) {
    let t = unsafe { text(p, n) };
    ST.with(|s| s.borrow_mut().covers.push(t))
}
#[no_mangle]
extern "C" fn lsym_allow_panic(p: *const u8, n: usize) {
    let t = unsafe { text(p, n) };
    ST.with(|s| s.borrow_mut().allowed.push(t))
}
#[no_mangle]
extern "C-unwind" fn lsym_reject() -> ! {
    std::panic::resume_unwind(Box::new(Reject))
}
#[no_mangle]
extern "C" fn lsym_file(p: *const u8, n: usize, c: *const u8, m: usize) {
    // the working directory is a scratch directory
    let name = unsafe { text(p, n) };
    assert!(!name.contains('/') && name != ".." && name != ".");
    std::fs::write(name, unsafe { std::slice::from_raw_parts(c, m) }).unwrap();
}
#[no_mangle]
extern "C" fn lsym_observe(p: *const u8, n: usize) {
    let b = unsafe { std::slice::from_raw_parts(p, n) };
    let t: String = b.iter().map(|x| format!("{:02x}", x)).collect();
    ST.with(|s| s.borrow_mut().observed.push(t))
}
#[no_mangle]
extern "C" fn lsym_concretize(v: u64) -> u64 {
    v
}
#[no_mangle]
extern "C" fn lsym_fork(c: bool) -> bool {
    c
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "--read" {
        return read(&a[2], &a[3..]);
    }
    let f = match h::TABLE.iter().find(|x| x.0 == a[1]) {
        Some(f) => f.1,
        None => {
            eprintln!("no such harness");
            std::process::exit(3)
        }
    };
    let bytes = std::fs::read(&a[2]).unwrap();
    std::env::set_current_dir(&a[3]).unwrap();
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = i.payload().downcast_ref::<String>().cloned().or_else(|| i.payload().downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
        ST.with(|s| {
            if let Ok(mut s) = s.try_borrow_mut() {
                s.observed.push(format!("panic at {}: {}", loc, m))
            }
        });
    }));
    ST.with(|s| s.borrow_mut().bytes = bytes);
    let r = std::panic::catch_unwind(f);
    let mut rejected = false;
    let mut panic = None;
    if let Err(e) = r {
        if e.is::<Reject>() {
            rejected = true
        } else {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
            panic = Some(m)
        }
    }
    ST.with(|s| {
        let s = s.borrow();
        let allowed = panic.as_ref().map_or(false, |p| s.allowed.iter().any(|a| p.starts_with(&a[..])));
        let l = |v: &Vec<String>| v.iter().map(|x| js(x)).collect::<Vec<_>>().join(",");
        println!(
            "{{\"rejected\":{},\"panic\":{},\"allowed\":{},\"checks\":{},\"failed\":[{}],\"covers\":[{}],\"observed\":[{}]}}",
            rejected,
            panic.as_ref().map_or("null".to_string(), |p| js(p)),
            allowed,
            s.checks,
            l(&s.failed),
            l(&s.covers),
            l(&s.observed)
        );
    });
    std::process::exit(0);
}

/// Read a makefile and print what it defines
fn read(file: &str, vars: &[String]) {
    let text = std::fs::read(file).unwrap();
    let mut r = cmp::Real::new();
    let mut t = &text[..];
    println!("{:?}", r.engine.read_makefile(&mut r.names, &mut t, "Makefile"));
    for v in vars {
        let x = r.var(v.as_bytes());
        println!("{} = {:?}", v, x.map(|x| String::from_utf8_lossy(&x).into_owned()));
    }
    let db = r.engine.database.clone();
    for x in db.rules() {
        let d: Vec<String> = x.dependencies().iter().map(|d| d.into_string()).collect();
        println!("{:?}: {:?}", x.target().into_string(), d);
        for c in x.recipe().commands() {
            println!("  {:?}", cmp::command_ast(c).eval(&mut r.names, &mut r.engine).into_string());
        }
    }
}
