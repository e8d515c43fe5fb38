//! Symbolic executor.

use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::parse::{mask, sext};
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

const NODOM: u32 = u32::MAX;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ext {
    None,
    Malloc,
    Calloc,
    Realloc,
    Free,
    Memalign,
    Bcmp,
    Memcmp,
    Strlen,
    Memchr,
    Errno,
    Getenv,
    Getcwd,
    Open,
    Read,
    Close,
    Lseek,
    Minus1,
    Zero,
    Write,
    Syscall,
    Getrandom,
    Abort,
    SByte,
    Assume,
    Check,
    Cover,
    AllowPanic,
    Reject,
    File,
    Observe,
    Panic,
    PanicNounwind,
    Concretize,
    Fork,
}

pub fn ext_of(n: &str) -> Ext {
    match n {
        "malloc" => Ext::Malloc,
        "calloc" => Ext::Calloc,
        "realloc" => Ext::Realloc,
        "free" => Ext::Free,
        "posix_memalign" => Ext::Memalign,
        "bcmp" => Ext::Bcmp,
        "memcmp" => Ext::Memcmp,
        "strlen" => Ext::Strlen,
        "memchr" => Ext::Memchr,
        "__errno_location" => Ext::Errno,
        "getenv" => Ext::Getenv,
        "getcwd" => Ext::Getcwd,
        "open64" | "open" => Ext::Open,
        "read" => Ext::Read,
        "close" => Ext::Close,
        "lseek64" | "lseek" => Ext::Lseek,
        "fstat64" | "stat64" | "fcntl" | "poll" | "sysconf" | "readlink" => Ext::Minus1,
        "pthread_self" | "sched_yield" | "pthread_key_create" | "pthread_setspecific" | "__cxa_thread_atexit_impl" => Ext::Zero,
        "write" => Ext::Write,
        "syscall" => Ext::Syscall,
        "getrandom" => Ext::Getrandom,
        "abort" | "_exit" | "exit" => Ext::Abort,
        "lsym_byte" => Ext::SByte,
        "lsym_assume" => Ext::Assume,
        "lsym_check" => Ext::Check,
        "lsym_cover" => Ext::Cover,
        "lsym_allow_panic" => Ext::AllowPanic,
        "lsym_reject" => Ext::Reject,
        "lsym_file" => Ext::File,
        "lsym_observe" => Ext::Observe,
        "lsym_panic" => Ext::Panic,
        "lsym_panic_nounwind" => Ext::PanicNounwind,
        "lsym_concretize" => Ext::Concretize,
        "lsym_fork" => Ext::Fork,
        _ => Ext::None,
    }
}

#[derive(Clone, Debug)]
pub struct Config {
    pub max_insts: u64,
    pub max_depth: u32,
    pub threads: usize,
    pub timeout: Duration,
    pub concrete: Option<Vec<u8>>,
    pub max_viol: usize,
    pub profile: bool,
    pub dump: Option<(std::path::PathBuf, u64)>,
    pub mem_limit_mb: u64,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub label: String,
    pub site: String,
    pub bytes: Vec<u8>,
    pub stack: Vec<String>,
}

/// A model of one explored path and what the path observed under it
pub struct Sample {
    pub bytes: Vec<u8>,
    pub observed: Vec<String>,
    pub covers: Vec<String>,
}

#[derive(Default)]
pub struct Results {
    pub paths: u64,
    pub rejected: u64,
    pub allowed_panics: BTreeMap<String, u64>,
    pub violations: Vec<Violation>,
    pub viol_counts: BTreeMap<String, u64>,
    pub unresolved: BTreeMap<String, u64>,
    pub covers: BTreeMap<String, u64>,
    pub checks: BTreeMap<String, (u64, u64)>, // evaluated concretely under the path condition, by assertion query
    pub insts: u64,
    pub forks: u64,
    pub stats: Stats,
    pub observed: Vec<String>,
    pub samples: Vec<Sample>,
    pub funcs: BTreeSet<u32>,
    pub prof: BTreeMap<String, u64>,
    pub fork_prof: BTreeMap<String, u64>,
    pub max_path_insts: u64,
    pub nodes: u64,
    pub max_vars: u32,
    pub replays: u64,
}

struct Queue {
    items: Vec<Vec<u64>>,
    active: usize,
}

pub struct Shared {
    pub m: Module,
    pub ext: Vec<Ext>,
    pub entry: u32,
    pub cfg: Config,
    queue: Mutex<Queue>,
    cv: Condvar,
    pub results: Mutex<Results>,
    stop: AtomicBool,
    timed_out: AtomicBool,
    idle: AtomicUsize,
    start: Instant,
    live_insts: AtomicU64,
}

#[derive(Clone)]
struct Frame {
    func: u32,
    pc: u32,
    regs: Vec<V>,
    dst: u32,
}

struct Link {
    frame: Frame,
    parent: Option<Rc<Link>>,
}

impl Drop for Link {
    fn drop(&mut self) {
        // iterative drop of long chains
        let mut p = self.parent.take();
        while let Some(l) = p {
            match Rc::try_unwrap(l) {
                Ok(mut l) => p = l.parent.take(),
                Err(_) => break,
            }
        }
    }
}

struct Tr {
    v: u64,
    prev: Option<Rc<Tr>>,
}

impl Drop for Tr {
    fn drop(&mut self) {
        let mut p = self.prev.take();
        while let Some(l) = p {
            match Rc::try_unwrap(l) {
                Ok(mut l) => p = l.prev.take(),
                Err(_) => break,
            }
        }
    }
}

#[derive(Clone)]
struct State {
    cur: Frame,
    parents: Option<Rc<Link>>,
    depth: u32,
    mem: Mem,
    dom: Vec<u32>,
    multi: Vec<Id>,
    multi_mask: u128,
    nvars: u32,
    trace: Option<Rc<Tr>>,
    replay: Option<(Rc<Vec<u64>>, usize)>,
    icount: u64,
    files: Rc<Vec<(Vec<u8>, Vec<V>)>>,
    fds: Vec<Option<(usize, usize)>>,
    allow: Rc<Vec<String>>,
    errno: u64,
    observed: Rc<Vec<String>>,
    seen: Rc<Vec<Vec<V>>>,
    covs: Rc<Vec<String>>,
}

enum Stop {
    Exit,
    Reject,
    Viol { kind: String, label: String, site: String },
    Unresolved(String),
    Allowed(String),
    Contradiction,
}

type X<T> = Result<T, Stop>;

impl From<Fault> for Stop {
    fn from(f: Fault) -> Stop {
        let Fault::Bad(a, n, why) = f;
        Stop::Viol { kind: "memory".into(), label: format!("{} at {:#x} ({} bytes)", why, a, n), site: String::new() }
    }
}

struct Worker<'a> {
    sh: &'a Shared,
    ar: Arena,
    z3: Z3,
    work: Vec<State>,
    pool: Vec<Vec<V>>,
    single: FxMap<u64, u8>,
    models: std::collections::VecDeque<Vec<u8>>,
    res: Results,
    stack0: u32,
    init: State,
    forkcount: FxMap<u64, u64>,
    profcount: FxMap<u32, u64>,
    tmp: Vec<V>,
    funcs_seen: Vec<bool>,
}

pub fn run(m: Module, entry: &str, cfg: Config) -> Result<(Results, Shared2), String> {
    let e = m.func_by_name(entry).ok_or(format!("no entry {}", entry))?;
    let ext = m.funcs.iter().map(|f| if f.defined { Ext::None } else { ext_of(&f.name) }).collect();
    let n = cfg.threads;
    let sh = Shared {
        m,
        ext,
        entry: e,
        cfg,
        queue: Mutex::new(Queue { items: vec![vec![]], active: 0 }),
        cv: Condvar::new(),
        results: Mutex::new(Results::default()),
        stop: AtomicBool::new(false),
        timed_out: AtomicBool::new(false),
        idle: AtomicUsize::new(0),
        start: Instant::now(),
        live_insts: AtomicU64::new(0),
    };
    std::thread::scope(|sc| {
        for i in 0..n {
            let sh = &sh;
            std::thread::Builder::new()
                .name(format!("w{}", i))
                .stack_size(64 << 20)
                .spawn_scoped(sc, move || {
                    let mut w = Worker::new(sh);
                    w.main();
                })
                .unwrap();
        }
    });
    let mut r = std::mem::take(&mut *sh.results.lock().unwrap());
    if sh.timed_out.load(Ordering::SeqCst) {
        *r.unresolved.entry("exploration budget exhausted".into()).or_default() += 1;
    }
    Ok((r, Shared2 { names: sh.m.funcs.iter().map(|f| f.name.clone()).collect() }))
}

pub struct Shared2 {
    pub names: Vec<String>,
}

fn rss_mb() -> u64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()))
        .unwrap_or(0)
        * 4096
        / (1 << 20)
}

impl<'a> Worker<'a> {
    fn new(sh: &'a Shared) -> Self {
        let m = &sh.m;
        let stack0 = m.first_free;
        let heap0 = stack0 + sh.cfg.max_depth + 64;
        let mut mem = Mem::new(heap0);
        for (i, g) in m.globals.iter().enumerate() {
            mem.put(m.glob_base + i as u32, Rc::new(Obj { bytes: g.bytes.clone(), sym: None, ro: g.constant }));
        }
        let errno = mem.alloc(8);
        let f = &m.funcs[sh.entry as usize];
        let init = State {
            cur: Frame { func: sh.entry, pc: 0, regs: vec![V::C(0); f.nregs as usize], dst: 0 },
            parents: None,
            depth: 0,
            mem,
            dom: vec![],
            multi: vec![],
            multi_mask: 0,
            nvars: 0,
            trace: None,
            replay: None,
            icount: 0,
            files: Rc::new(vec![]),
            fds: vec![None; 3],
            allow: Rc::new(vec![]),
            errno,
            observed: Rc::new(vec![]),
            seen: Rc::new(vec![]),
            covs: Rc::new(vec![]),
        };
        let mut z3 = Z3::new();
        if let Some((d, n)) = &sh.cfg.dump {
            z3.dump = Some((d.clone(), *n, 0));
        }
        let mut w = Worker {
            sh,
            ar: Arena::new(),
            z3,
            work: vec![],
            pool: vec![],
            single: Default::default(),
            models: Default::default(),
            res: Default::default(),
            stack0,
            init,
            forkcount: Default::default(),
            profcount: Default::default(),
            tmp: vec![],
            funcs_seen: vec![false; m.funcs.len()],
        };
        if f.stack > 0 {
            w.init.mem.put(stack0, Rc::new(Obj { bytes: vec![0; f.stack as usize], sym: None, ro: false }));
        }
        w
    }

    fn main(&mut self) {
        loop {
            // obtain work
            let item = {
                let mut q = self.sh.queue.lock().unwrap();
                loop {
                    if self.sh.stop.load(Ordering::SeqCst) {
                        break None;
                    }
                    if let Some(t) = q.items.pop() {
                        q.active += 1;
                        break Some(t);
                    }
                    if q.active == 0 {
                        self.sh.cv.notify_all();
                        break None;
                    }
                    self.sh.idle.fetch_add(1, Ordering::SeqCst);
                    q = self.sh.cv.wait_timeout(q, Duration::from_millis(50)).unwrap().0;
                    self.sh.idle.fetch_sub(1, Ordering::SeqCst);
                }
            };
            let Some(t) = item else { break };
            let mut s = self.init.clone();
            if !t.is_empty() {
                self.res.replays += 1;
                s.replay = Some((Rc::new(t), 0));
            }
            self.work.push(s);
            while let Some(s) = self.work.pop() {
                self.path(s);
                if self.sh.stop.load(Ordering::Relaxed) {
                    self.work.clear();
                    break;
                }
                self.share();
                if self.ar.pending.len() >= 512 {
                    self.validate();
                }
            }
            let mut q = self.sh.queue.lock().unwrap();
            q.active -= 1;
            if q.active == 0 && q.items.is_empty() {
                self.sh.cv.notify_all();
            }
        }
        self.validate();
        for i in 0..self.funcs_seen.len() {
            if self.funcs_seen[i] {
                self.res.funcs.insert(i as u32);
            }
        }
        for (k, v) in &self.profcount {
            self.res.prof.insert(self.sh.m.funcs[*k as usize].name.clone(), *v);
        }
        for (k, v) in &self.forkcount {
            let n = &self.sh.m.funcs[(*k >> 32) as usize].name;
            self.res.fork_prof.insert(format!("{}#{}", n, *k as u32), *v);
        }
        // merge
        let mut r = self.sh.results.lock().unwrap();
        let w = std::mem::take(&mut self.res);
        r.paths += w.paths;
        r.rejected += w.rejected;
        for (k, v) in w.allowed_panics {
            *r.allowed_panics.entry(k).or_default() += v;
        }
        r.violations.extend(w.violations);
        for (k, v) in w.viol_counts {
            *r.viol_counts.entry(k).or_default() += v;
        }
        for (k, v) in w.unresolved {
            *r.unresolved.entry(k).or_default() += v;
        }
        for (k, v) in w.covers {
            *r.covers.entry(k).or_default() += v;
        }
        for (k, v) in w.checks {
            let e = r.checks.entry(k).or_default();
            e.0 += v.0;
            e.1 += v.1;
        }
        for (k, v) in w.prof {
            *r.prof.entry(k).or_default() += v;
        }
        for (k, v) in w.fork_prof {
            *r.fork_prof.entry(k).or_default() += v;
        }
        r.insts += w.insts;
        r.forks += w.forks;
        r.replays += w.replays;
        r.nodes += self.ar.nodes.len() as u64;
        r.max_path_insts = r.max_path_insts.max(w.max_path_insts);
        r.max_vars = r.max_vars.max(w.max_vars);
        r.observed.extend(w.observed);
        r.samples.extend(w.samples);
        r.funcs.extend(w.funcs);
        let (a, b) = (&mut r.stats, &self.z3.stats);
        a.queries += b.queries;
        a.sat += b.sat;
        a.unsat += b.unsat;
        a.unknown += b.unknown;
        a.cache_hits += b.cache_hits;
        a.validations += b.validations;
        a.validated_rewrites += b.validated_rewrites;
        a.time_us += b.time_us;
        a.assert_queries += b.assert_queries;
        a.max_us = a.max_us.max(b.max_us);
    }

    fn validate(&mut self) {
        if let Err(e) = self.z3.validate(&mut self.ar) {
            *self.res.unresolved.entry(e).or_default() += 1;
        }
    }

    /// hand the oldest pending state to an idle worker as a decision trace
    fn share(&mut self) {
        if self.sh.idle.load(Ordering::Relaxed) == 0 || self.work.len() < 2 {
            return;
        }
        let mut q = self.sh.queue.lock().unwrap();
        while q.items.len() < self.sh.idle.load(Ordering::Relaxed) && self.work.len() >= 2 {
            let s = self.work.remove(0);
            let mut t = vec![];
            let mut p = s.trace.clone();
            while let Some(x) = p {
                t.push(x.v);
                p = x.prev.clone();
            }
            t.reverse();
            q.items.push(t);
            self.sh.cv.notify_one();
        }
    }

    fn path(&mut self, mut s: State) {
        let stop = match self.exec(&mut s) {
            Err(e) => e,
            Ok(()) => Stop::Exit,
        };
        self.res.max_path_insts = self.res.max_path_insts.max(s.icount);
        self.res.max_vars = self.res.max_vars.max(s.nvars);
        match stop {
            Stop::Exit => {
                self.res.paths += 1;
                if self.sh.cfg.concrete.is_some() {
                    self.res.observed.extend(s.observed.iter().cloned());
                }
                if self.res.paths.is_power_of_two() && self.res.paths.trailing_zeros() % 2 == 0 {
                    self.sample(&s);
                }
            }
            Stop::Reject => self.res.rejected += 1,
            Stop::Contradiction => {
                if std::env::var("LSYM_STACK").is_ok() {
                    eprintln!("contradiction at pc {}\n  {}", s.cur.pc, self.stack(&s).join("\n  "));
                }
                *self.res.unresolved.entry("internal: contradictory path condition".into()).or_default() += 1;
            }
            Stop::Allowed(m) => {
                self.res.paths += 1;
                if self.sh.cfg.concrete.is_some() {
                    self.res.observed.extend(s.observed.iter().cloned());
                    self.res.observed.push(format!("panic(allowed): {}", m));
                }
                *self.res.allowed_panics.entry(m).or_default() += 1;
            }
            Stop::Unresolved(m) => {
                self.res.paths += 1;
                let st = self.stack(&s).first().cloned().unwrap_or_default();
                if std::env::var("LSYM_STACK").is_ok() {
                    eprintln!("unresolved: {}\n  {}", m, self.stack(&s).join("\n  "));
                }
                *self.res.unresolved.entry(format!("{} [in {}]", m, st)).or_default() += 1;
                if m != "stopped" {
                    // an input that takes this path is tried on the native code
                    self.violation(&s, "unresolved".into(), m, String::new(), None);
                }
            }
            Stop::Viol { kind, label, site } => {
                self.res.paths += 1;
                self.violation(&s, kind, label, site, None);
            }
        }
        self.pool.push(std::mem::take(&mut s.cur.regs));
        if self.pool.len() > 64 {
            self.pool.truncate(32);
        }
        let n = self.sh.live_insts.load(Ordering::Relaxed);
        let _ = n;
        if self.sh.start.elapsed() > self.sh.cfg.timeout || rss_check(&self.sh.cfg, self.res.paths) {
            self.sh.timed_out.store(true, Ordering::SeqCst);
            self.sh.stop.store(true, Ordering::SeqCst);
        }
    }

    fn stack(&self, s: &State) -> Vec<String> {
        let mut v = vec![self.sh.m.funcs[s.cur.func as usize].name.clone()];
        let mut p = s.parents.as_ref();
        while let Some(l) = p {
            v.push(self.sh.m.funcs[l.frame.func as usize].name.clone());
            if v.len() > 14 {
                break;
            }
            p = l.parent.as_ref();
        }
        v
    }

    /// Record a model of this path, to be replayed against the native code
    fn sample(&mut self, s: &State) {
        let mut cs: Vec<Id> = s.dom.iter().copied().filter(|d| *d != NODOM).collect();
        cs.extend(s.multi.iter());
        cs.sort_unstable();
        cs.dedup();
        if let Verdict::Sat(mut b) = self.z3.check(&self.ar, &cs, s.nvars, false) {
            b.truncate(s.nvars as usize);
            b.resize(s.nvars as usize, 0);
            let mut observed = vec![];
            for o in s.seen.iter() {
                let mut t = String::new();
                for v in o {
                    let x = match v {
                        V::C(x) => *x,
                        V::S(e) => {
                            let mut memo = Default::default();
                            self.ar.eval(*e, &|i| *b.get(i as usize).unwrap_or(&0), &mut memo)
                        }
                    };
                    t.push_str(&format!("{:02x}", x));
                }
                observed.push(t)
            }
            self.res.samples.push(Sample { bytes: b, observed, covers: s.covs.to_vec() });
        }
    }

    fn violation(&mut self, s: &State, kind: String, label: String, site: String, extra: Option<Id>) {
        let key = format!("{}|{}|{}", kind, label, site);
        *self.res.viol_counts.entry(key).or_default() += 1;
        let same = self.res.violations.iter().filter(|v| v.kind == kind && v.label == label && v.site == site).count();
        if same >= self.sh.cfg.max_viol {
            return;
        }
        let mut cs: Vec<Id> = s.dom.iter().copied().filter(|d| *d != NODOM).collect();
        cs.extend(s.multi.iter());
        if let Some(e) = extra {
            cs.push(e);
        }
        cs.sort_unstable();
        cs.dedup();
        let v = self.z3.check(&self.ar, &cs, s.nvars, true);
        match v {
            Verdict::Sat(b) => {
                let st = self.stack(s);
                let mut b = b;
                b.truncate(s.nvars as usize);
                b.resize(s.nvars as usize, 0);
                self.res.violations.push(Violation { kind, label, site, bytes: b, stack: st });
            }
            Verdict::Unsat => {
                *self.res.unresolved.entry("internal: violation on an infeasible path".into()).or_default() += 1;
            }
            Verdict::Unknown => {
                *self.res.unresolved.entry("solver gave no verdict on a violation".into()).or_default() += 1;
            }
        }
    }

    // ---- constraints ----

    fn add(&mut self, s: &mut State, v: V) -> X<()> {
        match v {
            V::C(1) => Ok(()),
            V::C(_) => Err(Stop::Contradiction),
            V::S(e) => {
                if let Some((var, set)) = self.ar.as_inset(e) {
                    let d = s.dom[var as usize];
                    let nd = if d == NODOM {
                        V::S(e)
                    } else {
                        let (_, ds) = self.ar.as_inset(d).unwrap();
                        self.ar.inset(var, set_and(&ds, &set))
                    };
                    return match nd {
                        V::C(0) => Err(Stop::Contradiction),
                        V::C(_) => Ok(()),
                        V::S(i) => {
                            s.dom[var as usize] = i;
                            Ok(())
                        }
                    };
                }
                let n = self.ar.nodes[e as usize];
                if n.op == Op::Bin(BinOp::And) && n.w == 1 {
                    let (a, b) = (self.ar.val(n.a), self.ar.val(n.b));
                    self.add(s, a)?;
                    return self.add(s, b);
                }
                if let Some(x) = self.ar.strip_not(e) {
                    let k = self.ar.nodes[x as usize];
                    if k.op == Op::Bin(BinOp::Or) && k.w == 1 {
                        let (a, b) = (self.ar.val(k.a), self.ar.val(k.b));
                        let (a, b) = (self.ar.not(a), self.ar.not(b));
                        self.add(s, a)?;
                        return self.add(s, b);
                    }
                }
                if !s.multi.contains(&e) {
                    s.multi.push(e);
                    s.multi_mask |= self.ar.vars[e as usize];
                }
                Ok(())
            }
        }
    }

    fn slice(&self, s: &State, e: Id) -> Vec<Id> {
        let mut vars = self.ar.vars[e as usize];
        let mut cs = vec![e];
        if vars & s.multi_mask != 0 {
            let mut used = vec![false; s.multi.len()];
            loop {
                let mut ch = false;
                for (i, c) in s.multi.iter().enumerate() {
                    if !used[i] && self.ar.vars[*c as usize] & vars != 0 {
                        used[i] = true;
                        vars |= self.ar.vars[*c as usize];
                        cs.push(*c);
                        ch = true;
                    }
                }
                if !ch {
                    break;
                }
            }
        }
        let mut v = vars;
        while v != 0 {
            let i = v.trailing_zeros();
            v &= v - 1;
            let d = s.dom[i as usize];
            if d != NODOM {
                cs.push(d);
            }
        }
        cs.sort_unstable();
        cs.dedup();
        cs
    }

    /// is (path condition and v) satisfiable?
    fn sat(&mut self, s: &State, v: V, is_assert: bool) -> X<bool> {
        let e = match v {
            V::C(x) => return Ok(x == 1),
            V::S(e) => e,
        };
        let cs = self.slice(s, e);
        if !is_assert && cs.len() > 1 {
            // an earlier model may already be a witness
            for m in &self.models {
                let mut memo = Default::default();
                if cs.iter().all(|c| self.ar.eval(*c, &|i| *m.get(i as usize).unwrap_or(&0), &mut memo) == 1) {
                    self.z3.stats.cache_hits += 1;
                    return Ok(true);
                }
            }
        }
        match self.z3.check(&self.ar, &cs, s.nvars, is_assert) {
            Verdict::Sat(m) => {
                if !self.models.contains(&m) {
                    if self.models.len() >= 12 {
                        self.models.pop_back();
                    }
                    self.models.push_front(m);
                }
                Ok(true)
            }
            Verdict::Unsat => Ok(false),
            Verdict::Unknown => Err(Stop::Unresolved("solver returned unknown".into())),
        }
    }

    /// (can be true, can be false)
    fn feas(&mut self, s: &State, e: Id) -> X<(bool, bool)> {
        if let Some((var, set)) = self.ar.as_inset(e) {
            let d = s.dom[var as usize];
            let ds = if d == NODOM { FULL } else { self.ar.as_inset(d).unwrap().1 };
            let t0 = set_and(&ds, &set) != EMPTY;
            let f0 = set_and(&ds, &set_not(&set)) != EMPTY;
            // Z3's verdict for this byte alone, memoised
            let key = (d as u64) << 32 | e as u64;
            let k = match self.single.get(&key) {
                Some(k) => *k,
                None => {
                    let ne = self.ar.not(V::S(e));
                    let ne = self.ar.id(ne, 1);
                    let mut r = 0;
                    for (bit, c) in [(1, e), (2, ne)] {
                        let cs = if d == NODOM { vec![c] } else { vec![d.min(c), d.max(c)] };
                        match self.z3.check(&self.ar, &cs, s.nvars, false) {
                            Verdict::Sat(_) => r |= bit,
                            Verdict::Unsat => {}
                            Verdict::Unknown => return Err(Stop::Unresolved("solver returned unknown".into())),
                        }
                    }
                    if r != t0 as u8 | (f0 as u8) << 1 {
                        return Err(Stop::Unresolved("internal: byte domain disagrees with the solver".into()));
                    }
                    self.single.insert(key, r);
                    r
                }
            };
            let (t, f) = (k & 1 != 0, k & 2 != 0);
            if !t || !f || s.multi_mask >> var & 1 == 0 {
                return Ok((t, f));
            }
        }
        let t = self.sat(s, V::S(e), false)?;
        if !t {
            return Ok((false, true));
        }
        let ne = self.ar.not(V::S(e));
        let f = self.sat(s, ne, false)?;
        Ok((t, f))
    }

    fn replay_next(s: &mut State) -> Option<u64> {
        if let Some((t, p)) = &mut s.replay {
            let v = t[*p];
            *p += 1;
            if *p == t.len() {
                s.replay = None;
            }
            return Some(v);
        }
        None
    }
    fn push_trace(s: &mut State, v: u64) {
        s.trace = Some(Rc::new(Tr { v, prev: s.trace.take() }));
    }

    fn note_fork(&mut self, s: &State) {
        self.res.forks += 1;
        if self.sh.cfg.profile {
            *self.forkcount.entry((s.cur.func as u64) << 32 | s.cur.pc as u64).or_default() += 1;
        }
    }

    /// all values e can take (None if more than `limit`)
    fn values(&mut self, s: &State, e: Id, w: u8, limit: usize) -> X<Option<Vec<u64>>> {
        let mut out: Vec<u64> = vec![];
        if let Some((var, t)) = self.ar.value_table(e) {
            let d = s.dom[var as usize];
            let ds = if d == NODOM { FULL } else { self.ar.as_inset(d).unwrap().1 };
            let mut cand = BTreeSet::new();
            for i in 0..256 {
                if set_has(&ds, i as u8) {
                    cand.insert(t[i]);
                }
            }
            for c in cand {
                let q = self.ar.cmp(Op::Eq, w, V::S(e), V::C(c));
                if self.sat(s, q, false)? {
                    out.push(c);
                }
            }
            if out.len() > limit {
                return Ok(None);
            }
            return Ok(Some(out));
        }
        let mut block = V::C(1);
        loop {
            // all values found so far are excluded; unsat closes the enumeration
            let mut cs = self.slice(s, e);
            if !s.multi.contains(&e) && !s.dom.contains(&e) {
                cs.retain(|x| *x != e);
            }
            if let V::S(b) = block {
                cs.push(b);
            }
            cs.sort_unstable();
            cs.dedup();
            match self.z3.check(&self.ar, &cs, s.nvars, false) {
                Verdict::Sat(m) => {
                    let mut memo = Default::default();
                    let v = self.ar.eval(e, &|i| *m.get(i as usize).unwrap_or(&0), &mut memo);
                    out.push(v);
                    if out.len() > limit {
                        return Ok(None);
                    }
                    let q = self.ar.cmp(Op::Eq, w, V::S(e), V::C(v));
                    let q = self.ar.not(q);
                    block = self.ar.bin(BinOp::And, 1, block, q);
                    if block == V::C(0) {
                        break;
                    }
                }
                Verdict::Unsat => break,
                Verdict::Unknown => return Err(Stop::Unresolved("solver returned unknown".into())),
            }
        }
        out.sort_unstable();
        Ok(Some(out))
    }

    /// make operand concrete, forking over its feasible values; the instruction is re-executed in the forks
    fn conc(&mut self, s: &mut State, o: Opd, w: u8) -> X<u64> {
        let v = self.val(s, o);
        let e = match v {
            V::C(x) => return Ok(x),
            V::S(e) => e,
        };
        let r = match o {
            Opd::R(r) => r,
            _ => unreachable!(),
        };
        if let Some(x) = Self::replay_next(s) {
            let q = self.ar.cmp(Op::Eq, w, V::S(e), V::C(x));
            Self::push_trace(s, x);
            self.add(s, q)?;
            s.cur.regs[r as usize] = V::C(x);
            return Ok(x);
        }
        let vals = match self.values(s, e, w, 4096)? {
            Some(v) => v,
            None => return Err(Stop::Unresolved("more than 4096 values for a symbolic address or size".into())),
        };
        if vals.is_empty() {
            return Err(Stop::Contradiction);
        }
        for x in vals[1..].iter().rev() {
            self.note_fork(s);
            let mut o2 = s.clone();
            let q = self.ar.cmp(Op::Eq, w, V::S(e), V::C(*x));
            Self::push_trace(&mut o2, *x);
            self.add(&mut o2, q)?;
            o2.cur.regs[r as usize] = V::C(*x);
            self.work.push(o2);
        }
        let x = vals[0];
        let q = self.ar.cmp(Op::Eq, w, V::S(e), V::C(x));
        Self::push_trace(s, x);
        self.add(s, q)?;
        s.cur.regs[r as usize] = V::C(x);
        Ok(x)
    }

    #[inline]
    fn val(&self, s: &State, o: Opd) -> V {
        match o {
            Opd::R(r) => s.cur.regs[r as usize],
            Opd::C(c) => V::C(c),
        }
    }

    fn take_edge(s: &mut State, f: &Func, e: u32, tmp: &mut Vec<V>) {
        let ed = &f.edges[e as usize];
        let regs = &mut s.cur.regs;
        if ed.seq {
            for (d, o) in ed.copies.iter() {
                regs[*d as usize] = match o {
                    Opd::R(r) => regs[*r as usize],
                    Opd::C(c) => V::C(*c),
                };
            }
        } else {
            tmp.clear();
            for (_, o) in ed.copies.iter() {
                tmp.push(match o {
                    Opd::R(r) => regs[*r as usize],
                    Opd::C(c) => V::C(*c),
                });
            }
            for (k, (d, _)) in ed.copies.iter().enumerate() {
                regs[*d as usize] = tmp[k];
            }
        }
        s.cur.pc = ed.target;
    }

    fn icmp(&mut self, p: Pred, w: u8, a: V, b: V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                _ => {
                    let (x, y) = (sext(x, w as u32) as i64, sext(y, w as u32) as i64);
                    match p {
                        Pred::Sgt => x > y,
                        Pred::Sge => x >= y,
                        Pred::Slt => x < y,
                        _ => x <= y,
                    }
                }
            };
            return V::C(r as u64);
        }
        match p {
            Pred::Eq => self.ar.cmp(Op::Eq, w, a, b),
            Pred::Ne => {
                let x = self.ar.cmp(Op::Eq, w, a, b);
                self.ar.not(x)
            }
            _ if w == 1 => {
                // rare: comparisons of booleans
                let na = self.ar.not(a);
                let nb = self.ar.not(b);
                match p {
                    Pred::Ugt | Pred::Slt => self.ar.bin(BinOp::And, 1, a, nb),
                    Pred::Ult | Pred::Sgt => self.ar.bin(BinOp::And, 1, na, b),
                    Pred::Uge | Pred::Sle => self.ar.bin(BinOp::Or, 1, a, nb),
                    _ => self.ar.bin(BinOp::Or, 1, na, b),
                }
            }
            Pred::Ult => self.ar.cmp(Op::Ult, w, a, b),
            Pred::Ule => self.ar.cmp(Op::Ule, w, a, b),
            Pred::Ugt => self.ar.cmp(Op::Ult, w, b, a),
            Pred::Uge => self.ar.cmp(Op::Ule, w, b, a),
            Pred::Slt => self.ar.cmp(Op::Slt, w, a, b),
            Pred::Sle => self.ar.cmp(Op::Sle, w, a, b),
            Pred::Sgt => self.ar.cmp(Op::Slt, w, b, a),
            Pred::Sge => self.ar.cmp(Op::Sle, w, b, a),
        }
    }

    fn cast(&mut self, op: CastOp, fw: u8, tw: u8, a: V) -> V {
        match (op, a) {
            (CastOp::ZExt, V::C(x)) => V::C(x),
            (CastOp::Trunc, V::C(x)) => V::C(x & mask(tw as u32)),
            (CastOp::SExt, V::C(x)) => V::C(sext(x, fw as u32) & mask(tw as u32)),
            (CastOp::ZExt, _) => self.ar.zext(a, fw, tw),
            (CastOp::SExt, _) => self.ar.sext(a, fw, tw),
            (CastOp::Trunc, _) => self.ar.extract(a, fw, 0, tw),
        }
    }

    fn exec(&mut self, s: &mut State) -> X<()> {
        let sh = self.sh;
        let m = &sh.m;
        let mut f: &Func = &m.funcs[s.cur.func as usize];
        self.funcs_seen[s.cur.func as usize] = true;
        let maxi = sh.cfg.max_insts;
        let c0 = s.icount;
        let mut next_poll = c0 + (1 << 20);
        macro_rules! get {
            ($o:expr) => {
                match $o {
                    Opd::R(r) => s.cur.regs[r as usize],
                    Opd::C(c) => V::C(c),
                }
            };
        }
        let r: X<()> = loop {
            s.icount += 1;
            if s.icount >= next_poll {
                next_poll = s.icount + (1 << 20);
                if s.icount > maxi {
                    break Err(Stop::Viol {
                        kind: "nontermination".into(),
                        label: format!("more than {} IR instructions on one path", maxi),
                        site: String::new(),
                    });
                }
                if sh.stop.load(Ordering::Relaxed) {
                    break Err(Stop::Unresolved("stopped".into()));
                }
                if sh.start.elapsed() > sh.cfg.timeout {
                    sh.timed_out.store(true, Ordering::SeqCst);
                    sh.stop.store(true, Ordering::SeqCst);
                    break Err(Stop::Unresolved("stopped".into()));
                }
            }
            let inst = &f.code[s.cur.pc as usize];
            match inst {
                Inst::Load { w, dst, addr } => {
                    let a = match get!(*addr) {
                        V::C(a) => a,
                        V::S(e) => match self.load_sym(s, e, *w) {
                            Ok(Some(v)) => {
                                s.cur.regs[*dst as usize] = v;
                                s.cur.pc += 1;
                                continue;
                            }
                            Ok(None) => match self.conc(s, *addr, 64) {
                                Ok(a) => a,
                                Err(e) => break Err(e),
                            },
                            Err(e) => break Err(e),
                        },
                    };
                    match s.mem.load(&mut self.ar, a, *w) {
                        Ok(v) => s.cur.regs[*dst as usize] = v,
                        Err(e) => break Err(e.into()),
                    }
                    s.cur.pc += 1;
                }
                Inst::Store { w, v, addr } => {
                    let a = match get!(*addr) {
                        V::C(a) => a,
                        _ => match self.conc(s, *addr, 64) {
                            Ok(a) => a,
                            Err(e) => break Err(e),
                        },
                    };
                    let v = get!(*v);
                    if let Err(e) = s.mem.store(&mut self.ar, a, *w, v) {
                        break Err(e.into());
                    }
                    s.cur.pc += 1;
                }
                Inst::GepC { dst, base, off } => {
                    s.cur.regs[*dst as usize] = match get!(*base) {
                        V::C(b) => V::C(b.wrapping_add(*off)),
                        b => self.ar.bin(BinOp::Add, 64, b, V::C(*off)),
                    };
                    s.cur.pc += 1;
                }
                Inst::Gep { dst, base, off, terms } => {
                    let mut b = get!(*base);
                    let mut o = *off;
                    for (t, w, sc) in terms.iter() {
                        match get!(*t) {
                            V::C(x) => o = o.wrapping_add(sext(x, *w as u32).wrapping_mul(*sc)),
                            x => {
                                let x = self.ar.sext(x, *w, 64);
                                let y = self.ar.bin(BinOp::Mul, 64, x, V::C(*sc));
                                b = self.ar.bin(BinOp::Add, 64, b, y);
                            }
                        }
                    }
                    s.cur.regs[*dst as usize] = match b {
                        V::C(b) => V::C(b.wrapping_add(o)),
                        b => self.ar.bin(BinOp::Add, 64, b, V::C(o)),
                    };
                    s.cur.pc += 1;
                }
                Inst::Icmp { p, w, dst, a, b } => {
                    let (x, y) = (get!(*a), get!(*b));
                    s.cur.regs[*dst as usize] = self.icmp(*p, *w, x, y);
                    s.cur.pc += 1;
                }
                Inst::Bin { op, w, dst, a, b } => {
                    let (x, y) = (get!(*a), get!(*b));
                    s.cur.regs[*dst as usize] = match (x, y) {
                        (V::C(x), V::C(y)) => {
                            if y == 0 && matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) {
                                break Err(Stop::Viol { kind: "fault".into(), label: "division by zero".into(), site: String::new() });
                            }
                            V::C(bin(*op, *w, x, y))
                        }
                        _ => self.ar.bin(*op, *w, x, y),
                    };
                    s.cur.pc += 1;
                }
                Inst::Br(e) => Self::take_edge(s, f, *e, &mut self.tmp),
                Inst::CBr { c, t, f: fe } => match get!(*c) {
                    V::C(x) => Self::take_edge(s, f, if x == 1 { *t } else { *fe }, &mut self.tmp),
                    V::S(e) => {
                        if let Some(x) = Self::replay_next(s) {
                            let c = if x == 1 { V::S(e) } else { self.ar.not(V::S(e)) };
                            Self::push_trace(s, x);
                            if let Err(e) = self.add(s, c) {
                                break Err(e);
                            }
                            Self::take_edge(s, f, if x == 1 { *t } else { *fe }, &mut self.tmp);
                            continue;
                        }
                        match self.feas(s, e) {
                            Err(e) => break Err(e),
                            Ok((true, true)) => {
                                self.note_fork(s);
                                let mut o = s.clone();
                                let ne = self.ar.not(V::S(e));
                                if let Err(e) = self.add(&mut o, ne) {
                                    break Err(e);
                                }
                                Self::push_trace(&mut o, 0);
                                Self::take_edge(&mut o, f, *fe, &mut self.tmp);
                                self.work.push(o);
                                if let Err(e) = self.add(s, V::S(e)) {
                                    break Err(e);
                                }
                                Self::push_trace(s, 1);
                                Self::take_edge(s, f, *t, &mut self.tmp);
                            }
                            Ok((true, false)) => {
                                Self::push_trace(s, 1);
                                Self::take_edge(s, f, *t, &mut self.tmp)
                            }
                            Ok((false, true)) => {
                                Self::push_trace(s, 0);
                                Self::take_edge(s, f, *fe, &mut self.tmp)
                            }
                            Ok((false, false)) => break Err(Stop::Contradiction),
                        }
                    }
                },
                Inst::Mov { dst, a } => {
                    s.cur.regs[*dst as usize] = get!(*a);
                    s.cur.pc += 1;
                }
                Inst::Cast { op, fw, tw, dst, a } => {
                    let mut v = get!(*a);
                    if *fw == 1 && *tw == 64 && matches!(v, V::S(_)) {
                        // a condition that becomes a number (usually a length): split
                        match self.conc(s, *a, 1) {
                            Ok(x) => v = V::C(x),
                            Err(e) => break Err(e),
                        }
                    }
                    s.cur.regs[*dst as usize] = self.cast(*op, *fw, *tw, v);
                    s.cur.pc += 1;
                }
                Inst::Select { w, dst, c, a, b } => {
                    if *w == 64 && matches!(get!(*c), V::S(_)) {
                        if let Err(e) = self.conc(s, *c, 1) {
                            break Err(e);
                        }
                    }
                    let (x, y) = (get!(*a), get!(*b));
                    s.cur.regs[*dst as usize] = match get!(*c) {
                        V::C(1) => x,
                        V::C(_) => y,
                        c => self.ar.ite(c, *w, x, y),
                    };
                    s.cur.pc += 1;
                }
                Inst::Alloca { dst, off } => {
                    s.cur.regs[*dst as usize] = V::C(((self.stack0 + s.depth) as u64) << 32 | *off as u64);
                    s.cur.pc += 1;
                }
                Inst::Call { callee, dst, nret: _, args } => {
                    let fi = match callee {
                        Callee::Func(i) => *i,
                        Callee::Ptr(o) => {
                            let a = match self.conc(s, *o, 64) {
                                Ok(a) => a,
                                Err(e) => break Err(e),
                            };
                            match m.func_at(a) {
                                Some(i) => i,
                                None => {
                                    break Err(Stop::Viol { kind: "memory".into(), label: format!("call of {:#x}", a), site: String::new() })
                                }
                            }
                        }
                    };
                    let g = match m.funcs.get(fi as usize) {
                        Some(g) => g,
                        None => break Err(Stop::Unresolved("call of a null function".into())),
                    };
                    if !g.defined {
                        match self.external(s, sh.ext[fi as usize], g, *dst, args) {
                            Ok(()) => {
                                s.cur.pc += 1;
                                continue;
                            }
                            Err(e) => break Err(e),
                        }
                    }
                    if s.depth >= sh.cfg.max_depth {
                        break Err(Stop::Viol {
                            kind: "recursion".into(),
                            label: format!("call depth exceeds {}", sh.cfg.max_depth),
                            site: String::new(),
                        });
                    }
                    let mut regs = self.pool.pop().unwrap_or_default();
                    regs.clear();
                    for a in args.iter() {
                        regs.push(get!(*a));
                    }
                    regs.resize(g.nregs as usize, V::C(0));
                    s.cur.pc += 1;
                    let nf = Frame { func: fi, pc: 0, regs, dst: *dst };
                    let old = std::mem::replace(&mut s.cur, nf);
                    s.parents = Some(Rc::new(Link { frame: old, parent: s.parents.take() }));
                    s.depth += 1;
                    if g.stack > 0 {
                        s.mem.put(self.stack0 + s.depth, Rc::new(Obj { bytes: vec![0; g.stack as usize], sym: None, ro: false }));
                    }
                    f = g;
                    self.funcs_seen[fi as usize] = true;
                    if sh.cfg.profile {
                        *self.profcount.entry(fi).or_default() += 1;
                    }
                }
                Inst::Ret(vals) => {
                    let Some(l) = s.parents.take() else { break Ok(()) };
                    let (mut fr, par) = match Rc::try_unwrap(l) {
                        Ok(mut l) => {
                            let p = l.parent.take();
                            let fr = std::mem::replace(&mut l.frame, Frame { func: 0, pc: 0, regs: vec![], dst: 0 });
                            (fr, p)
                        }
                        Err(l) => (l.frame.clone(), l.parent.clone()),
                    };
                    let d = s.cur.dst as usize;
                    for (k, o) in vals.iter().enumerate() {
                        fr.regs[d + k] = match o {
                            Opd::R(r) => s.cur.regs[*r as usize],
                            Opd::C(c) => V::C(*c),
                        };
                    }
                    if f.stack > 0 {
                        s.mem.drop_obj(self.stack0 + s.depth);
                    }
                    s.depth -= 1;
                    let old = std::mem::replace(&mut s.cur, fr);
                    if self.pool.len() < 64 {
                        self.pool.push(old.regs);
                    }
                    s.parents = par;
                    f = &m.funcs[s.cur.func as usize];
                }
                Inst::Switch { w, v, cases, def } => match get!(*v) {
                    V::C(x) => {
                        let e = cases.iter().find(|c| c.0 == x).map(|c| c.1).unwrap_or(*def);
                        Self::take_edge(s, f, e, &mut self.tmp);
                    }
                    V::S(x) => {
                        // one alternative per distinct target
                        let mut alts: Vec<(u32, V)> = vec![];
                        let mut any = V::C(0);
                        for (k, e) in cases.iter() {
                            let q = self.ar.cmp(Op::Eq, *w, V::S(x), V::C(*k));
                            any = self.ar.bin(BinOp::Or, 1, any, q);
                            match alts.iter_mut().find(|a| a.0 == *e) {
                                Some(a) => a.1 = self.ar.bin(BinOp::Or, 1, a.1, q),
                                None => alts.push((*e, q)),
                            }
                        }
                        let dq = self.ar.not(any);
                        alts.push((*def, dq));
                        if let Err(e) = self.alternatives(s, f, &alts) {
                            break Err(e);
                        }
                    }
                },
                Inst::LoadN { dst, addr, parts } => {
                    let a = match self.conc(s, *addr, 64) {
                        Ok(a) => a,
                        Err(e) => break Err(e),
                    };
                    let mut err = None;
                    for (k, (o, w)) in parts.iter().enumerate() {
                        match s.mem.load(&mut self.ar, a + *o as u64, *w) {
                            Ok(v) => s.cur.regs[*dst as usize + k] = v,
                            Err(e) => {
                                err = Some(e);
                                break;
                            }
                        }
                    }
                    if let Some(e) = err {
                        break Err(e.into());
                    }
                    s.cur.pc += 1;
                }
                Inst::StoreN { v, addr, parts } => {
                    let a = match self.conc(s, *addr, 64) {
                        Ok(a) => a,
                        Err(e) => break Err(e),
                    };
                    let mut err = None;
                    for (k, (o, w)) in parts.iter().enumerate() {
                        let x = get!(v[k]);
                        if let Err(e) = s.mem.store(&mut self.ar, a + *o as u64, *w, x) {
                            err = Some(e);
                            break;
                        }
                    }
                    if let Some(e) = err {
                        break Err(e.into());
                    }
                    s.cur.pc += 1;
                }
                Inst::MovN { dst, a } => {
                    let mut t = std::mem::take(&mut self.tmp);
                    t.clear();
                    for o in a.iter() {
                        t.push(get!(*o));
                    }
                    for (k, v) in t.iter().enumerate() {
                        s.cur.regs[*dst as usize + k] = *v;
                    }
                    self.tmp = t;
                    s.cur.pc += 1;
                }
                Inst::SelectN { ws, dst, c, a, b } => {
                    let mut out = vec![];
                    for k in 0..a.len() {
                        let (x, y) = (get!(a[k]), get!(b[k]));
                        out.push(match get!(c[k]) {
                            V::C(1) => x,
                            V::C(_) => y,
                            cc => self.ar.ite(cc, ws[k], x, y),
                        });
                    }
                    for (k, v) in out.into_iter().enumerate() {
                        s.cur.regs[*dst as usize + k] = v;
                    }
                    s.cur.pc += 1;
                }
                Inst::VBin { op, w, dst, a, b } => {
                    for k in 0..a.len() {
                        let (x, y) = (get!(a[k]), get!(b[k]));
                        s.cur.regs[*dst as usize + k] = self.ar.bin(*op, *w, x, y);
                    }
                    s.cur.pc += 1;
                }
                Inst::VIcmp { p, w, dst, a, b } => {
                    for k in 0..a.len() {
                        let (x, y) = (get!(a[k]), get!(b[k]));
                        s.cur.regs[*dst as usize + k] = self.icmp(*p, *w, x, y);
                    }
                    s.cur.pc += 1;
                }
                Inst::VCast { op, fw, tw, dst, a } => {
                    for k in 0..a.len() {
                        let x = get!(a[k]);
                        s.cur.regs[*dst as usize + k] = self.cast(*op, *fw, *tw, x);
                    }
                    s.cur.pc += 1;
                }
                Inst::Bitcast { fw, tw, dst, a, n } => {
                    let vals: Vec<V> = a.iter().map(|o| get!(*o)).collect();
                    let out = self.bitcast(*fw, *tw, &vals, *n as usize);
                    match out {
                        Some(o) => {
                            for (k, v) in o.into_iter().enumerate() {
                                s.cur.regs[*dst as usize + k] = v;
                            }
                        }
                        None => break Err(Stop::Unresolved("bitcast of a symbolic wide vector".into())),
                    }
                    s.cur.pc += 1;
                }
                Inst::Intrinsic { i, w, lanes, dst, args } => match self.intrinsic(s, *i, *w, *lanes, *dst, args) {
                    Ok(()) => s.cur.pc += 1,
                    Err(e) => break Err(e),
                },
                Inst::Rmw { op, w, dst, addr, v } => {
                    let a = match self.conc(s, *addr, 64) {
                        Ok(a) => a,
                        Err(e) => break Err(e),
                    };
                    let old = match s.mem.load(&mut self.ar, a, *w) {
                        Ok(v) => v,
                        Err(e) => break Err(e.into()),
                    };
                    let x = get!(*v);
                    let new = match op {
                        RmwOp::Add => self.ar.bin(BinOp::Add, *w, old, x),
                        RmwOp::Sub => self.ar.bin(BinOp::Sub, *w, old, x),
                        RmwOp::And => self.ar.bin(BinOp::And, *w, old, x),
                        RmwOp::Or => self.ar.bin(BinOp::Or, *w, old, x),
                        RmwOp::Xor => self.ar.bin(BinOp::Xor, *w, old, x),
                        RmwOp::Xchg => x,
                        RmwOp::UMax => {
                            let c = self.icmp(Pred::Ugt, *w, old, x);
                            self.ar.ite(c, *w, old, x)
                        }
                        RmwOp::UMin => {
                            let c = self.icmp(Pred::Ult, *w, old, x);
                            self.ar.ite(c, *w, old, x)
                        }
                    };
                    s.cur.regs[*dst as usize] = old;
                    if let Err(e) = s.mem.store(&mut self.ar, a, *w, new) {
                        break Err(e.into());
                    }
                    s.cur.pc += 1;
                }
                Inst::CmpXchg { w, dst, addr, cmp, new } => {
                    let a = match self.conc(s, *addr, 64) {
                        Ok(a) => a,
                        Err(e) => break Err(e),
                    };
                    let old = match s.mem.load(&mut self.ar, a, *w) {
                        Ok(v) => v,
                        Err(e) => break Err(e.into()),
                    };
                    let (c, n) = (get!(*cmp), get!(*new));
                    let eq = self.icmp(Pred::Eq, *w, old, c);
                    let st = self.ar.ite(eq, *w, n, old);
                    s.cur.regs[*dst as usize] = old;
                    s.cur.regs[*dst as usize + 1] = eq;
                    if let Err(e) = s.mem.store(&mut self.ar, a, *w, st) {
                        break Err(e.into());
                    }
                    s.cur.pc += 1;
                }
                Inst::Unreachable => {
                    break Err(Stop::Viol { kind: "fault".into(), label: "unreachable executed".into(), site: String::new() })
                }
                Inst::Unsupported(t) => break Err(Stop::Unresolved(format!("unsupported instruction: {}", t.chars().take(120).collect::<String>()))),
            }
        };
        self.res.insts += s.icount - c0;
        r
    }

    /// fork over edge alternatives that are mutually exclusive and exhaustive
    fn alternatives(&mut self, s: &mut State, f: &Func, alts: &[(u32, V)]) -> X<()> {
        if let Some(x) = Self::replay_next(s) {
            let (e, c) = alts[x as usize];
            Self::push_trace(s, x);
            self.add(s, c)?;
            Self::take_edge(s, f, e, &mut self.tmp);
            return Ok(());
        }
        let mut ok = vec![];
        for (i, (_, c)) in alts.iter().enumerate() {
            let t = match c {
                V::C(x) => *x == 1,
                V::S(e) => self.feas(s, *e)?.0,
            };
            if t {
                ok.push(i);
            }
        }
        if ok.is_empty() {
            return Err(Stop::Contradiction);
        }
        for i in ok[1..].iter().rev() {
            self.note_fork(s);
            let (e, c) = alts[*i];
            let mut o = s.clone();
            Self::push_trace(&mut o, *i as u64);
            self.add(&mut o, c)?;
            Self::take_edge(&mut o, f, e, &mut self.tmp);
            self.work.push(o);
        }
        let (e, c) = alts[ok[0]];
        Self::push_trace(s, ok[0] as u64);
        self.add(s, c)?;
        Self::take_edge(s, f, e, &mut self.tmp);
        Ok(())
    }

    /// symbolic read as an if-then-else over the feasible addresses
    fn load_sym(&mut self, s: &mut State, e: Id, w: u8) -> X<Option<V>> {
        if s.replay.is_some() {
            // the decision whether to concretise is deterministic: same code path below
        }
        let vals = match self.values(s, e, 64, 256)? {
            Some(v) => v,
            None => return Ok(None),
        };
        if vals.is_empty() {
            return Err(Stop::Contradiction);
        }
        let obj = vals[0] >> 32;
        if vals.iter().any(|v| v >> 32 != obj) {
            return Ok(None);
        }
        let nb = (w as u64 + 7) / 8;
        let Some(o) = s.mem.get(obj as u32) else { return Ok(None) };
        if vals.iter().any(|v| (*v as u32 as u64) + nb > o.bytes.len() as u64) {
            return Ok(None);
        }
        let mut r = s.mem.load(&mut self.ar, *vals.last().unwrap(), w)?;
        for a in vals[..vals.len() - 1].iter().rev() {
            let x = s.mem.load(&mut self.ar, *a, w)?;
            let q = self.ar.cmp(Op::Eq, 64, V::S(e), V::C(*a));
            r = self.ar.ite(q, w, x, r);
        }
        Ok(Some(r))
    }

    fn bitcast(&mut self, fw: u8, tw: u8, v: &[V], n: usize) -> Option<Vec<V>> {
        // little-endian lanes
        if v.len() as u32 * fw as u32 <= 64 && n == 1 {
            let mut r = v[0];
            let mut w = fw;
            for x in &v[1..] {
                r = self.ar.concat(*x, fw, r, w);
                w += fw;
            }
            return Some(vec![r]);
        }
        if v.len() == 1 {
            return Some((0..n).map(|i| self.ar.extract(v[0], fw, tw * i as u8, tw)).collect());
        }
        if fw < tw && tw % fw == 0 {
            let k = (tw / fw) as usize;
            let mut out = vec![];
            for ch in v.chunks(k) {
                out.push(self.bitcast(fw, tw, ch, 1)?[0]);
            }
            return Some(out);
        }
        if fw > tw && fw % tw == 0 {
            let k = (fw / tw) as usize;
            let mut out = vec![];
            for x in v {
                for i in 0..k {
                    out.push(self.ar.extract(*x, fw, tw * i as u8, tw));
                }
            }
            return Some(out);
        }
        None
    }

    fn intrinsic(&mut self, s: &mut State, i: Intr, w: u8, lanes: u16, dst: u32, args: &[Opd]) -> X<()> {
        let d = dst as usize;
        match i {
            Intr::Nop | Intr::Assume => {}
            Intr::Ident => s.cur.regs[d] = self.val(s, args[0]),
            Intr::Trap => return Err(Stop::Viol { kind: "fault".into(), label: "trap".into(), site: String::new() }),
            Intr::Memcpy => {
                let n = self.conc(s, args[2], 64)?;
                let a = self.conc(s, args[0], 64)?;
                let b = self.conc(s, args[1], 64)?;
                if n > 1 << 30 {
                    return Err(Stop::Viol { kind: "memory".into(), label: "memcpy: huge size".into(), site: String::new() });
                }
                s.mem.copy(a, b, n as usize)?;
            }
            Intr::Memset => {
                let n = self.conc(s, args[2], 64)?;
                let a = self.conc(s, args[0], 64)?;
                let v = self.val(s, args[1]);
                for k in 0..n {
                    s.mem.store(&mut self.ar, a + k, 8, v)?;
                }
            }
            _ => {
                if lanes > 1 {
                    let vs: Vec<V> = args.iter().map(|o| self.val(s, *o)).collect();
                    match i {
                        Intr::VecReduceOr | Intr::VecReduceAnd | Intr::VecReduceAdd => {
                            let op = match i {
                                Intr::VecReduceOr => BinOp::Or,
                                Intr::VecReduceAnd => BinOp::And,
                                _ => BinOp::Add,
                            };
                            let mut r = vs[0];
                            for x in &vs[1..] {
                                r = self.ar.bin(op, w, r, *x);
                            }
                            s.cur.regs[d] = r;
                        }
                        Intr::UMax | Intr::UMin | Intr::SMax | Intr::SMin => {
                            let n = lanes as usize;
                            for k in 0..n {
                                s.cur.regs[d + k] = self.minmax(i, w, vs[k], vs[n + k]);
                            }
                        }
                        _ => return Err(Stop::Unresolved(format!("vector intrinsic {:?}", i))),
                    }
                    return Ok(());
                }
                let a = self.val(s, args[0]);
                let b = if args.len() > 1 { self.val(s, args[1]) } else { V::C(0) };
                let m = mask(w as u32);
                match i {
                    Intr::UAddO => {
                        let r = self.ar.bin(BinOp::Add, w, a, b);
                        s.cur.regs[d + 1] = self.icmp(Pred::Ult, w, r, a);
                        s.cur.regs[d] = r;
                    }
                    Intr::USubO => {
                        let r = self.ar.bin(BinOp::Sub, w, a, b);
                        s.cur.regs[d + 1] = self.icmp(Pred::Ult, w, a, b);
                        s.cur.regs[d] = r;
                    }
                    Intr::UMulO => {
                        let (x, y, k) = match (a, b) {
                            (V::C(x), V::C(y)) => {
                                let p = (x as u128) * (y as u128);
                                (V::C(p as u64 & m), V::C((p > m as u128) as u64), ())
                            }
                            (V::S(_), V::C(y)) | (V::C(y), V::S(_)) => {
                                let e = if let V::S(_) = a { a } else { b };
                                let r = self.ar.bin(BinOp::Mul, w, e, V::C(y));
                                let o = if y == 0 { V::C(0) } else { self.icmp(Pred::Ugt, w, e, V::C(m / y)) };
                                (r, o, ())
                            }
                            _ => return Err(Stop::Unresolved("umul.with.overflow of two symbolic values".into())),
                        };
                        let _ = k;
                        s.cur.regs[d] = x;
                        s.cur.regs[d + 1] = y;
                    }
                    Intr::SAddO | Intr::SSubO | Intr::SMulO => {
                        if let (V::C(x), V::C(y)) = (a, b) {
                            let (x, y) = (sext(x, w as u32) as i64 as i128, sext(y, w as u32) as i64 as i128);
                            let r = match i {
                                Intr::SAddO => x + y,
                                Intr::SSubO => x - y,
                                _ => x * y,
                            };
                            let t = r as u64 & m;
                            s.cur.regs[d] = V::C(t);
                            s.cur.regs[d + 1] = V::C((sext(t, w as u32) as i64 as i128 != r) as u64);
                        } else if i != Intr::SMulO {
                            let op = if i == Intr::SAddO { BinOp::Add } else { BinOp::Sub };
                            let r = self.ar.bin(op, w, a, b);
                            let z = V::C(0);
                            let an = self.icmp(Pred::Slt, w, a, z);
                            let bn = self.icmp(Pred::Slt, w, b, z);
                            let rn = self.icmp(Pred::Slt, w, r, z);
                            let bn = if i == Intr::SSubO { self.ar.not(bn) } else { bn };
                            // overflow iff sign(a)==sign(b') and sign(r)!=sign(a)
                            let x = self.ar.bin(BinOp::Xor, 1, an, bn);
                            let same = self.ar.not(x);
                            let diff = self.ar.bin(BinOp::Xor, 1, an, rn);
                            s.cur.regs[d] = r;
                            s.cur.regs[d + 1] = self.ar.bin(BinOp::And, 1, same, diff);
                        } else {
                            return Err(Stop::Unresolved("smul.with.overflow on symbolic".into()));
                        }
                    }
                    Intr::USubSat => {
                        let c = self.icmp(Pred::Ult, w, a, b);
                        let r = self.ar.bin(BinOp::Sub, w, a, b);
                        s.cur.regs[d] = self.ar.ite(c, w, V::C(0), r);
                    }
                    Intr::UAddSat => {
                        let r = self.ar.bin(BinOp::Add, w, a, b);
                        let c = self.icmp(Pred::Ult, w, r, a);
                        s.cur.regs[d] = self.ar.ite(c, w, V::C(m), r);
                    }
                    Intr::UMax | Intr::UMin | Intr::SMax | Intr::SMin => s.cur.regs[d] = self.minmax(i, w, a, b),
                    Intr::Ucmp | Intr::Scmp => {
                        let (lt, gt) = if i == Intr::Ucmp { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                        let l = self.icmp(lt, w, a, b);
                        let g = self.icmp(gt, w, a, b);
                        // result width: i8 in practice
                        let t = self.ar.ite(g, 8, V::C(1), V::C(0));
                        s.cur.regs[d] = self.ar.ite(l, 8, V::C(0xff), t);
                    }
                    Intr::Ctlz | Intr::Cttz | Intr::Ctpop | Intr::Bswap | Intr::BitReverse => {
                        let x = match a {
                            V::C(x) => x,
                            V::S(e) => {
                                let x = self.bitcount(i, w, e);
                                match x {
                                    Some(v) => {
                                        s.cur.regs[d] = v;
                                        return Ok(());
                                    }
                                    None => self.conc(s, args[0], w)?,
                                }
                            }
                        };
                        s.cur.regs[d] = V::C(bitop(i, w, x));
                    }
                    Intr::Abs => {
                        let c = self.icmp(Pred::Slt, w, a, V::C(0));
                        let n = self.ar.bin(BinOp::Sub, w, V::C(0), a);
                        s.cur.regs[d] = self.ar.ite(c, w, n, a);
                    }
                    Intr::Fshl | Intr::Fshr => {
                        let k = self.conc(s, args[2], w)? % w as u64;
                        let k = if i == Intr::Fshl { k } else { (w as u64 - k) % w as u64 };
                        s.cur.regs[d] = if k == 0 {
                            if i == Intr::Fshl {
                                a
                            } else {
                                b
                            }
                        } else {
                            let x = self.ar.bin(BinOp::Shl, w, a, V::C(k));
                            let y = self.ar.bin(BinOp::LShr, w, b, V::C(w as u64 - k));
                            self.ar.bin(BinOp::Or, w, x, y)
                        };
                    }
                    _ => return Err(Stop::Unresolved(format!("intrinsic {:?}", i))),
                }
            }
        }
        Ok(())
    }

    fn bitcount(&mut self, i: Intr, w: u8, e: Id) -> Option<V> {
        if !matches!(i, Intr::Ctlz | Intr::Cttz) || w > 64 {
            return None;
        }
        // ite chain over the position of the first set bit
        let mut r = V::C(w as u64);
        for k in 0..w {
            // for cttz the lowest bit wins, so it must be applied last
            let bit = if i == Intr::Cttz { w - 1 - k } else { k };
            let b = self.ar.extract(V::S(e), w, bit, 1);
            let val = if i == Intr::Cttz { bit as u64 } else { (w - 1 - bit) as u64 };
            r = self.ar.ite(b, w, V::C(val), r);
        }
        Some(r)
    }

    fn minmax(&mut self, i: Intr, w: u8, a: V, b: V) -> V {
        let p = match i {
            Intr::UMax => Pred::Ugt,
            Intr::UMin => Pred::Ult,
            Intr::SMax => Pred::Sgt,
            _ => Pred::Slt,
        };
        let c = self.icmp(p, w, a, b);
        self.ar.ite(c, w, a, b)
    }

    /// a zero-terminated string; splits on the values of symbolic bytes
    fn cstr(&mut self, s: &mut State, a: u64) -> X<Vec<u8>> {
        let mut out = vec![];
        loop {
            let p = a + out.len() as u64;
            match s.mem.load(&mut self.ar, p, 8)? {
                V::C(0) => return Ok(out),
                V::C(x) => out.push(x as u8),
                V::S(e) => {
                    let x = self.conc_mem(s, p, e)?;
                    if x == 0 {
                        return Ok(out);
                    }
                    out.push(x as u8)
                }
            }
        }
    }
    fn conc_mem(&mut self, s: &mut State, p: u64, e: Id) -> X<u64> {
        let w = 8;
        let x = if let Some(x) = Self::replay_next(s) {
            x
        } else {
            let vals = match self.values(s, e, w, 4096)? {
                Some(v) => v,
                None => return Err(Stop::Unresolved("too many values".into())),
            };
            if vals.is_empty() {
                return Err(Stop::Contradiction);
            }
            for x in vals[1..].iter().rev() {
                self.note_fork(s);
                let mut o2 = s.clone();
                let q = self.ar.cmp(Op::Eq, w, V::S(e), V::C(*x));
                Self::push_trace(&mut o2, *x);
                self.add(&mut o2, q)?;
                o2.mem.store(&mut self.ar, p, w, V::C(*x))?;
                self.work.push(o2);
            }
            vals[0]
        };
        let q = self.ar.cmp(Op::Eq, w, V::S(e), V::C(x));
        Self::push_trace(s, x);
        self.add(s, q)?;
        s.mem.store(&mut self.ar, p, w, V::C(x))?;
        Ok(x)
    }
    fn cbytes(&mut self, s: &State, a: u64, n: usize) -> X<Vec<u8>> {
        let v = s.mem.read_vals(a, n)?;
        v.into_iter()
            .map(|x| match x {
                V::C(b) => Ok(b as u8),
                _ => Err(Stop::Unresolved("symbolic label".into())),
            })
            .collect()
    }

    fn external(&mut self, s: &mut State, x: Ext, g: &Func, dst: u32, args: &[Opd]) -> X<()> {
        let d = dst as usize;
        match x {
            Ext::Malloc => {
                let n = self.conc(s, args[0], 64)?;
                if n > 1 << 30 {
                    s.cur.regs[d] = V::C(0);
                } else {
                    s.cur.regs[d] = V::C(s.mem.alloc(n as usize));
                }
            }
            Ext::Calloc => {
                let a = self.conc(s, args[0], 64)?;
                let b = self.conc(s, args[1], 64)?;
                s.cur.regs[d] = V::C(s.mem.alloc((a * b) as usize));
            }
            Ext::Memalign => {
                let p = self.conc(s, args[0], 64)?;
                let n = self.conc(s, args[2], 64)?;
                let a = s.mem.alloc(n as usize);
                s.mem.store(&mut self.ar, p, 64, V::C(a))?;
                s.cur.regs[d] = V::C(0);
            }
            Ext::Realloc => {
                let p = self.conc(s, args[0], 64)?;
                let n = self.conc(s, args[1], 64)?;
                let a = s.mem.alloc(n as usize);
                if p != 0 {
                    let old = s.mem.get((p >> 32) as u32).map(|o| o.bytes.len()).ok_or(Stop::Viol {
                        kind: "memory".into(),
                        label: "realloc of a dead object".into(),
                        site: String::new(),
                    })?;
                    s.mem.copy(a, p, old.min(n as usize))?;
                    s.mem.drop_obj((p >> 32) as u32);
                }
                s.cur.regs[d] = V::C(a);
            }
            Ext::Free => {
                let p = self.conc(s, args[0], 64)?;
                if p != 0 {
                    if s.mem.get((p >> 32) as u32).is_none() || p as u32 != 0 {
                        return Err(Stop::Viol { kind: "memory".into(), label: "free of a dead object".into(), site: String::new() });
                    }
                    s.mem.drop_obj((p >> 32) as u32);
                }
            }
            Ext::Bcmp | Ext::Memcmp => {
                let n = self.conc(s, args[2], 64)? as usize;
                let a = self.conc(s, args[0], 64)?;
                let b = self.conc(s, args[1], 64)?;
                let p = s.mem.read_vals(a, n)?;
                let q = s.mem.read_vals(b, n)?;
                if x == Ext::Bcmp {
                    let mut eq = V::C(1);
                    for k in 0..n {
                        let e = self.ar.cmp(Op::Eq, 8, p[k], q[k]);
                        eq = self.ar.bin(BinOp::And, 1, eq, e);
                        if eq == V::C(0) {
                            break;
                        }
                    }
                    s.cur.regs[d] = self.ar.ite(eq, 32, V::C(0), V::C(1));
                } else {
                    let mut r = V::C(0);
                    for k in (0..n).rev() {
                        let e = self.ar.cmp(Op::Eq, 8, p[k], q[k]);
                        let l = self.ar.cmp(Op::Ult, 8, p[k], q[k]);
                        let t = self.ar.ite(l, 32, V::C(0xffff_ffff), V::C(1));
                        r = self.ar.ite(e, 32, r, t);
                    }
                    s.cur.regs[d] = r;
                }
            }
            Ext::Strlen => {
                let a = self.conc(s, args[0], 64)?;
                s.cur.regs[d] = V::C(self.cstr(s, a)?.len() as u64);
            }
            Ext::Errno => s.cur.regs[d] = V::C(s.errno),
            Ext::Getenv => s.cur.regs[d] = V::C(0),
            Ext::Getcwd => {
                let a = self.conc(s, args[0], 64)?;
                for (i, b) in b"/w\0".iter().enumerate() {
                    s.mem.store(&mut self.ar, a + i as u64, 8, V::C(*b as u64))?;
                }
                s.cur.regs[d] = V::C(a);
            }
            Ext::Zero => s.cur.regs[d] = V::C(0),
            Ext::Minus1 => {
                let e = s.errno;
                s.mem.store(&mut self.ar, e, 32, V::C(38))?;
                s.cur.regs[d] = V::C(mask(32));
                if g.name == "readlink" || g.name == "sysconf" {
                    s.cur.regs[d] = V::C(u64::MAX);
                }
            }
            Ext::Write => s.cur.regs[d] = self.val(s, args[2]),
            Ext::Getrandom => s.cur.regs[d] = self.val(s, args[1]),
            Ext::Syscall => {
                let n = self.conc(s, args[0], 64)?;
                match n {
                    318 => s.cur.regs[d] = self.val(s, args[2]),
                    202 => s.cur.regs[d] = V::C(0),
                    332 => {
                        // statx: not available here
                        let e = s.errno;
                        s.mem.store(&mut self.ar, e, 32, V::C(38))?;
                        s.cur.regs[d] = V::C(u64::MAX);
                    }
                    _ => return Err(Stop::Unresolved(format!("syscall {}", n))),
                }
            }
            Ext::Open => {
                let a = self.conc(s, args[0], 64)?;
                let p = self.cstr(s, a)?;
                let p = vpath(&p);
                match s.files.iter().position(|f| f.0 == p) {
                    Some(i) => {
                        s.fds.push(Some((i, 0)));
                        s.cur.regs[d] = V::C(s.fds.len() as u64 - 1);
                    }
                    None => {
                        let e = s.errno;
                        s.mem.store(&mut self.ar, e, 32, V::C(2))?;
                        s.cur.regs[d] = V::C(mask(32));
                    }
                }
            }
            Ext::Read => {
                let fd = self.conc(s, args[0], 32)? as usize;
                let buf = self.conc(s, args[1], 64)?;
                let n = self.conc(s, args[2], 64)? as usize;
                let Some(Some((fi, pos))) = s.fds.get(fd).cloned() else {
                    return Err(Stop::Unresolved("read on unknown fd".into()));
                };
                let files = s.files.clone();
                let c = &files[fi].1;
                let k = n.min(c.len() - pos);
                for i in 0..k {
                    s.mem.store(&mut self.ar, buf + i as u64, 8, c[pos + i])?;
                }
                s.fds[fd] = Some((fi, pos + k));
                s.cur.regs[d] = V::C(k as u64);
            }
            Ext::Close => {
                let fd = self.conc(s, args[0], 32)? as usize;
                if fd < s.fds.len() {
                    s.fds[fd] = None;
                }
                s.cur.regs[d] = V::C(0);
            }
            Ext::Lseek => {
                let e = s.errno;
                s.mem.store(&mut self.ar, e, 32, V::C(29))?;
                s.cur.regs[d] = V::C(u64::MAX);
            }
            Ext::Abort => return Err(Stop::Viol { kind: "fault".into(), label: "abort".into(), site: String::new() }),
            Ext::SByte => {
                let i = s.nvars;
                s.nvars += 1;
                s.dom.push(NODOM);
                if let Some(c) = &self.sh.cfg.concrete {
                    s.cur.regs[d] = V::C(*c.get(i as usize).unwrap_or(&0) as u64);
                } else {
                    if i >= 120 {
                        return Err(Stop::Unresolved("more than 120 symbolic bytes".into()));
                    }
                    s.cur.regs[d] = V::S(self.ar.var(i));
                }
            }
            Ext::Assume => match self.val(s, args[0]) {
                V::C(1) => {}
                V::C(_) => return Err(Stop::Reject),
                v => {
                    if s.replay.is_none() && !self.sat(s, v, false)? {
                        return Err(Stop::Reject);
                    }
                    self.add(s, v)?;
                }
            },
            Ext::Reject => return Err(Stop::Reject),
            Ext::Check => {
                let p = self.conc(s, args[1], 64)?;
                let n = self.conc(s, args[2], 64)?;
                let l = String::from_utf8_lossy(&self.cbytes(s, p, n as usize)?).into_owned();
                match self.val(s, args[0]) {
                    V::C(1) => self.res.checks.entry(l).or_default().0 += 1,
                    V::C(_) => {
                        self.res.checks.entry(l.clone()).or_default().0 += 1;
                        return Err(Stop::Viol { kind: "check".into(), label: l, site: String::new() });
                    }
                    v => {
                        if s.replay.is_none() {
                            self.res.checks.entry(l.clone()).or_default().1 += 1;
                            let nv = self.ar.not(v);
                            if self.sat(s, nv, true)? {
                                let e = self.ar.id(nv, 1);
                                self.violation(s, "check".into(), l, String::new(), Some(e));
                                if !self.sat(s, v, false)? {
                                    return Err(Stop::Reject);
                                }
                            }
                        }
                        self.add(s, v)?;
                    }
                }
            }
            Ext::Cover => {
                let p = self.conc(s, args[0], 64)?;
                let n = self.conc(s, args[1], 64)?;
                let l = String::from_utf8_lossy(&self.cbytes(s, p, n as usize)?).into_owned();
                if !s.covs.contains(&l) {
                    Rc::make_mut(&mut s.covs).push(l.clone());
                }
                if s.replay.is_none() {
                    *self.res.covers.entry(l).or_default() += 1;
                }
            }
            Ext::AllowPanic => {
                let p = self.conc(s, args[0], 64)?;
                let n = self.conc(s, args[1], 64)?;
                let l = String::from_utf8_lossy(&self.cbytes(s, p, n as usize)?).into_owned();
                Rc::make_mut(&mut s.allow).push(l);
            }
            Ext::File => {
                let p = self.conc(s, args[0], 64)?;
                let n = self.conc(s, args[1], 64)?;
                let name = self.cbytes(s, p, n as usize)?;
                let q = self.conc(s, args[2], 64)?;
                let k = self.conc(s, args[3], 64)?;
                let c = s.mem.read_vals(q, k as usize)?;
                let name = vpath(&name);
                Rc::make_mut(&mut s.files).retain(|f| f.0 != name);
                Rc::make_mut(&mut s.files).push((name, c));
            }
            Ext::Observe => {
                let p = self.conc(s, args[0], 64)?;
                let n = self.conc(s, args[1], 64)?;
                if self.sh.cfg.concrete.is_some() {
                    let b = self.cbytes(s, p, n as usize)?;
                    let mut t = String::new();
                    for x in b {
                        t.push_str(&format!("{:02x}", x));
                    }
                    Rc::make_mut(&mut s.observed).push(t);
                } else {
                    let c = s.mem.read_vals(p, n as usize)?;
                    Rc::make_mut(&mut s.seen).push(c);
                }
            }
            Ext::Concretize => {
                let v = self.conc(s, args[0], 64)?;
                s.cur.regs[d] = V::C(v);
            }
            Ext::Fork => {
                // conc on a boolean
                let v = self.conc(s, args[0], 1)?;
                s.cur.regs[d] = V::C(v);
            }
            Ext::Panic => {
                let msg = self.panic_msg(s, args)?;
                let loc = self.panic_loc(s, args.get(2).copied())?;
                if s.allow.iter().any(|a| msg.starts_with(a.as_str())) {
                    return Err(Stop::Allowed(msg));
                }
                return Err(Stop::Viol { kind: "panic".into(), label: msg, site: loc });
            }
            Ext::PanicNounwind => {
                return Err(Stop::Viol { kind: "panic".into(), label: "non-unwinding panic".into(), site: String::new() })
            }
            Ext::Memchr | Ext::None => return Err(Stop::Unresolved(format!("external function {}", g.name))),
        }
        Ok(())
    }

    fn panic_msg(&mut self, s: &mut State, args: &[Opd]) -> X<String> {
        let t = self.conc(s, args[0], 64)?;
        let a = self.conc(s, args[1], 64)?;
        if a & 1 == 1 {
            let n = (a >> 1) as usize;
            let b = self.cbytes(s, t, n.min(200))?;
            return Ok(String::from_utf8_lossy(&b).into_owned());
        }
        // length-prefixed literal pieces; 0xC0.. = argument placeholder
        let n = s.mem.get((t >> 32) as u32).map(|o| o.bytes.len()).unwrap_or(0);
        let off = t as u32 as usize;
        let b = self.cbytes(s, t, n.saturating_sub(off).min(256))?;
        let mut out = String::new();
        let mut i = 0;
        while i < b.len() && b[i] != 0 {
            if b[i] < 0x80 {
                let k = b[i] as usize;
                let e = (i + 1 + k).min(b.len());
                out.push_str(&String::from_utf8_lossy(&b[i + 1..e]));
                i = e;
            } else if b[i] == 0x80 && i + 2 < b.len() {
                let k = b[i + 1] as usize | (b[i + 2] as usize) << 8;
                let e = (i + 3 + k).min(b.len());
                out.push_str(&String::from_utf8_lossy(&b[i + 3..e]));
                i = e;
            } else {
                out.push_str("{}");
                i += 1;
                // placeholders with options are followed by option bytes; the text after them is not needed
                if b[i - 1] != 0xC0 {
                    break;
                }
            }
        }
        Ok(out)
    }
    fn panic_loc(&mut self, s: &mut State, o: Option<Opd>) -> X<String> {
        let Some(o) = o else { return Ok(String::new()) };
        let p = self.conc(s, o, 64)?;
        if s.mem.get((p >> 32) as u32).is_none() {
            return Ok(String::new());
        }
        let f = s.mem.load(&mut self.ar, p, 64)?;
        let n = s.mem.load(&mut self.ar, p + 8, 64)?;
        let l = s.mem.load(&mut self.ar, p + 16, 32)?;
        if let (V::C(f), V::C(n), V::C(l)) = (f, n, l) {
            let b = self.cbytes(s, f, (n as usize).min(300))?;
            return Ok(format!("{}:{}", String::from_utf8_lossy(&b), l));
        }
        Ok(String::new())
    }
}

/// Absolute path in the virtual file system (working directory /w)
fn vpath(p: &[u8]) -> Vec<u8> {
    let mut full = if p.starts_with(b"/") { vec![] } else { b"/w/".to_vec() };
    full.extend_from_slice(p);
    let mut out: Vec<u8> = vec![];
    for c in full.split(|c| *c == b'/') {
        if c.is_empty() || c == b"." {
            continue;
        }
        out.push(b'/');
        out.extend_from_slice(c);
    }
    out
}

fn rss_check(cfg: &Config, n: u64) -> bool {
    n % 256 == 0 && rss_mb() > cfg.mem_limit_mb
}

fn bitop(i: Intr, w: u8, x: u64) -> u64 {
    let w = w as u32;
    match i {
        Intr::Ctlz => (x.leading_zeros() - (64 - w)) as u64,
        Intr::Cttz => {
            if x == 0 {
                w as u64
            } else {
                x.trailing_zeros() as u64
            }
        }
        Intr::Ctpop => x.count_ones() as u64,
        Intr::Bswap => x.swap_bytes() >> (64 - w),
        _ => x.reverse_bits() >> (64 - w),
    }
}
