//! Hash-consed bit-vector expressions (at most 64 bits wide) over symbolic input bytes.
//!
//! A boolean that depends on exactly one input byte is kept in the canonical form
//! `InSet(byte, S)`.  Every such rewriting is validated by the SMT solver (see solver.rs).

use crate::ir::BinOp;
use crate::parse::{mask, sext};
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone)]
pub struct FxH(u64);
impl Hasher for FxH {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_isize(&mut self, i: isize) {
        self.write_u64(i as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<FxH>>;

pub type Id = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Bin(BinOp),
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    ZExt,
    SExt,
    Extract, // val = low bit
    Concat,  // a high, b low
    Ite,
    InSet, // a = var index, val = set index
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: Id,
    pub b: Id,
    pub c: Id,
    pub val: u64,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum V {
    C(u64),
    S(Id),
}

pub type Set = [u64; 4];

pub const FULL: Set = [u64::MAX; 4];
pub const EMPTY: Set = [0; 4];

pub fn set_has(s: &Set, b: u8) -> bool {
    s[(b >> 6) as usize] >> (b & 63) & 1 == 1
}
pub fn set_and(a: &Set, b: &Set) -> Set {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
pub fn set_or(a: &Set, b: &Set) -> Set {
    [a[0] | b[0], a[1] | b[1], a[2] | b[2], a[3] | b[3]]
}
pub fn set_xor(a: &Set, b: &Set) -> Set {
    [a[0] ^ b[0], a[1] ^ b[1], a[2] ^ b[2], a[3] ^ b[3]]
}
pub fn set_not(a: &Set) -> Set {
    [!a[0], !a[1], !a[2], !a[3]]
}

pub struct Arena {
    pub nodes: Vec<Node>,
    pub vars: Vec<u128>,
    pub sets: Vec<Set>,
    set_ix: FxMap<Set, u32>,
    cons: FxMap<Node, Id>,
    tables: FxMap<Id, Box<[u64; 256]>>,
    /// raw boolean (op,operands) whose canonical InSet form still has to be validated by the solver
    pub pending: Vec<(Node, Id)>,
    canon: FxMap<Node, V>,
}

impl Arena {
    pub fn new() -> Self {
        Arena {
            nodes: vec![],
            vars: vec![],
            sets: vec![],
            set_ix: Default::default(),
            cons: Default::default(),
            tables: Default::default(),
            pending: vec![],
            canon: Default::default(),
        }
    }
    pub fn w(&self, e: Id) -> u8 {
        self.nodes[e as usize].w
    }
    pub fn mask_of(&self, v: V) -> u128 {
        match v {
            V::C(_) => 0,
            V::S(e) => self.vars[e as usize],
        }
    }

    fn mk(&mut self, n: Node) -> Id {
        if let Some(i) = self.cons.get(&n) {
            return *i;
        }
        let m = match n.op {
            Op::Const => 0,
            Op::Var | Op::InSet => 1u128 << n.a,
            _ => {
                let mut m = self.vars[n.a as usize];
                if !matches!(n.op, Op::ZExt | Op::SExt | Op::Extract) {
                    m |= self.vars[n.b as usize];
                }
                if n.op == Op::Ite {
                    m |= self.vars[n.c as usize];
                }
                m
            }
        };
        let id = self.nodes.len() as Id;
        self.nodes.push(n);
        self.vars.push(m);
        self.cons.insert(n, id);
        id
    }
    pub fn id(&mut self, v: V, w: u8) -> Id {
        match v {
            V::S(e) => e,
            V::C(x) => self.mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, val: x & mask(w as u32) }),
        }
    }
    pub fn val(&self, e: Id) -> V {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            V::C(n.val)
        } else {
            V::S(e)
        }
    }
    pub fn var(&mut self, i: u32) -> Id {
        assert!(i < 128, "too many symbolic bytes");
        self.mk(Node { op: Op::Var, w: 8, a: i, b: 0, c: 0, val: 0 })
    }
    pub fn inset(&mut self, var: u32, s: Set) -> V {
        if s == EMPTY {
            return V::C(0);
        }
        if s == FULL {
            return V::C(1);
        }
        let ix = match self.set_ix.get(&s) {
            Some(i) => *i,
            None => {
                let i = self.sets.len() as u32;
                self.sets.push(s);
                self.set_ix.insert(s, i);
                i
            }
        };
        V::S(self.mk(Node { op: Op::InSet, w: 1, a: var, b: 0, c: 0, val: ix as u64 }))
    }
    /// if e is InSet, its (var,set)
    pub fn as_inset(&self, e: Id) -> Option<(u32, Set)> {
        let n = &self.nodes[e as usize];
        if n.op == Op::InSet {
            Some((n.a, self.sets[n.val as usize]))
        } else {
            None
        }
    }

    pub fn eval_op(n: &Node, aw: u8, a: u64, b: u64, c: u64) -> u64 {
        let w = n.w as u32;
        let m = mask(w);
        match n.op {
            Op::Bin(o) => bin(o, n.w, a, b),
            Op::Eq => (a == b) as u64,
            Op::Ult => (a < b) as u64,
            Op::Ule => (a <= b) as u64,
            Op::Slt => ((sext(a, aw as u32) as i64) < (sext(b, aw as u32) as i64)) as u64,
            Op::Sle => ((sext(a, aw as u32) as i64) <= (sext(b, aw as u32) as i64)) as u64,
            Op::ZExt => a,
            Op::SExt => sext(a, aw as u32) & m,
            Op::Extract => (a >> n.val) & m,
            Op::Concat => unreachable!(),
            Op::Ite => {
                if a == 1 {
                    b
                } else {
                    c
                }
            }
            _ => unreachable!(),
        }
    }

    fn table(&mut self, e: Id) -> Box<[u64; 256]> {
        if let Some(t) = self.tables.get(&e) {
            return t.clone();
        }
        let n = self.nodes[e as usize];
        let t = self.table_node(&n);
        if self.tables.len() > 200_000 {
            self.tables.clear();
        }
        self.tables.insert(e, t.clone());
        t
    }
    fn table_node(&mut self, n: &Node) -> Box<[u64; 256]> {
        let mut out = Box::new([0u64; 256]);
        match n.op {
            Op::Const => {
                for x in out.iter_mut() {
                    *x = n.val
                }
            }
            Op::Var => {
                for i in 0..256 {
                    out[i] = i as u64
                }
            }
            Op::InSet => {
                let s = self.sets[n.val as usize];
                for i in 0..256 {
                    out[i] = set_has(&s, i as u8) as u64
                }
            }
            _ => {
                let aw = self.nodes[n.a as usize].w;
                let ta = self.table(n.a);
                let tb = if matches!(n.op, Op::ZExt | Op::SExt | Op::Extract) { ta.clone() } else { self.table(n.b) };
                let tc = if n.op == Op::Ite { self.table(n.c) } else { ta.clone() };
                if n.op == Op::Concat {
                    let bw = self.nodes[n.b as usize].w;
                    for i in 0..256 {
                        out[i] = (ta[i] << bw) | tb[i];
                    }
                } else {
                    for i in 0..256 {
                        out[i] = Self::eval_op(n, aw, ta[i], tb[i], tc[i]);
                    }
                }
            }
        }
        out
    }
    /// values of a single-variable expression for each value of its byte
    pub fn value_table(&mut self, e: Id) -> Option<(u32, Box<[u64; 256]>)> {
        let m = self.vars[e as usize];
        if m.count_ones() != 1 {
            return None;
        }
        Some((m.trailing_zeros(), self.table(e)))
    }

    /// evaluate under a complete assignment
    pub fn eval(&self, e: Id, model: &dyn Fn(u32) -> u8, memo: &mut FxMap<Id, u64>) -> u64 {
        if let Some(v) = memo.get(&e) {
            return *v;
        }
        let n = self.nodes[e as usize];
        let r = match n.op {
            Op::Const => n.val,
            Op::Var => model(n.a) as u64,
            Op::InSet => set_has(&self.sets[n.val as usize], model(n.a)) as u64,
            Op::Ite => {
                if self.eval(n.a, model, memo) == 1 {
                    self.eval(n.b, model, memo)
                } else {
                    self.eval(n.c, model, memo)
                }
            }
            Op::Concat => {
                let bw = self.nodes[n.b as usize].w;
                (self.eval(n.a, model, memo) << bw) | self.eval(n.b, model, memo)
            }
            _ => {
                let a = self.eval(n.a, model, memo);
                let b = if matches!(n.op, Op::ZExt | Op::SExt | Op::Extract) { 0 } else { self.eval(n.b, model, memo) };
                Self::eval_op(&n, self.nodes[n.a as usize].w, a, b, 0)
            }
        };
        memo.insert(e, r);
        r
    }

    /// finish construction of a node: canonicalise single-byte booleans and constant tables
    fn fin(&mut self, n: Node) -> V {
        let mut m = self.vars[n.a as usize];
        if !matches!(n.op, Op::ZExt | Op::SExt | Op::Extract) {
            m |= self.vars[n.b as usize];
        }
        if n.op == Op::Ite {
            m |= self.vars[n.c as usize];
        }
        if n.w == 1 && m.count_ones() == 1 {
            if let Some(v) = self.canon.get(&n) {
                return *v;
            }
            let t = self.table_node(&n);
            let mut s = EMPTY;
            for i in 0..256 {
                if t[i] == 1 {
                    s[i >> 6] |= 1 << (i & 63);
                }
            }
            let v = self.inset(m.trailing_zeros(), s);
            let vid = self.id(v, 1);
            self.pending.push((n, vid));
            self.canon.insert(n, v);
            return v;
        }
        V::S(self.mk(n))
    }

    pub fn not(&mut self, a: V) -> V {
        match a {
            V::C(x) => V::C(x ^ 1),
            V::S(e) => {
                if let Some((v, s)) = self.as_inset(e) {
                    return self.inset(v, set_not(&s));
                }
                let n = self.nodes[e as usize];
                // ult/ule duality keeps things small
                match n.op {
                    Op::Ult => return self.fin(Node { op: Op::Ule, a: n.b, b: n.a, ..n }),
                    Op::Ule => return self.fin(Node { op: Op::Ult, a: n.b, b: n.a, ..n }),
                    Op::Slt => return self.fin(Node { op: Op::Sle, a: n.b, b: n.a, ..n }),
                    Op::Sle => return self.fin(Node { op: Op::Slt, a: n.b, b: n.a, ..n }),
                    _ => {}
                }
                self.bin(BinOp::Xor, 1, a, V::C(1))
            }
        }
    }

    /// is e = not x ? return x
    pub fn strip_not(&self, e: Id) -> Option<Id> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Bin(BinOp::Xor) && n.w == 1 {
            let b = &self.nodes[n.b as usize];
            if b.op == Op::Const && b.val == 1 {
                return Some(n.a);
            }
        }
        None
    }

    pub fn bin(&mut self, op: BinOp, w: u8, a: V, b: V) -> V {
        use BinOp::*;
        let m = mask(w as u32);
        if let (V::C(x), V::C(y)) = (a, b) {
            return V::C(bin(op, w, x, y));
        }
        // canonical order for commutative
        let (a, b) = match (op, a, b) {
            (Add | Mul | And | Or | Xor, V::C(_), V::S(_)) => (b, a),
            (Add | Mul | And | Or | Xor, V::S(x), V::S(y)) if x > y => (b, a),
            _ => (a, b),
        };
        match (op, b) {
            (Add | Sub | Or | Xor | Shl | LShr | AShr, V::C(0)) => return a,
            (And | Mul, V::C(0)) => return V::C(0),
            (Mul | UDiv, V::C(1)) => return a,
            (And, V::C(x)) if x == m => return a,
            (Or, V::C(x)) if x == m => return V::C(m),
            (Sub, V::C(x)) => return self.bin(Add, w, a, V::C(x.wrapping_neg() & m)),
            (Shl | LShr, V::C(x)) if x >= w as u64 => return V::C(0),
            _ => {}
        }
        if a == b {
            match op {
                Sub | Xor => return V::C(0),
                And | Or => return a,
                _ => {}
            }
        }
        if let (V::S(x), V::C(k)) = (a, b) {
            let n = self.nodes[x as usize];
            // (x + c1) + c2
            if op == Add && n.op == Op::Bin(Add) {
                if let V::C(k1) = self.val(n.b) {
                    return self.bin(Add, w, V::S(n.a), V::C(k.wrapping_add(k1) & m));
                }
            }
            if op == Xor && n.op == Op::Bin(Xor) {
                if let V::C(k1) = self.val(n.b) {
                    return self.bin(Xor, w, V::S(n.a), V::C(k ^ k1));
                }
            }
            if op == And && n.op == Op::Bin(And) {
                if let V::C(k1) = self.val(n.b) {
                    return self.bin(And, w, V::S(n.a), V::C(k & k1));
                }
            }
            // and of zext with a mask covering it
            if op == And && n.op == Op::ZExt {
                let iw = self.w(n.a);
                let im = mask(iw as u32);
                if k & im == im {
                    return a;
                }
                if k & im == 0 {
                    return V::C(0);
                }
                let inner = self.bin(And, iw, V::S(n.a), V::C(k & im));
                return self.zext(inner, iw, w);
            }
            if n.op == Op::Ite && matches!(op, Add | And | Or | Xor | Shl | LShr | Mul) {
                let (y, z) = (self.val(n.b), self.val(n.c));
                if matches!(y, V::C(_)) && matches!(z, V::C(_)) {
                    let t = self.bin(op, w, y, b);
                    let f = self.bin(op, w, z, b);
                    return self.ite(V::S(n.a), w, t, f);
                }
            }
            // shifts on byte concatenations
            if op == LShr && k % 8 == 0 {
                let r = self.extract(a, w, k as u8, w - k as u8);
                return self.zext(r, w - k as u8, w);
            }
            if op == Shl && k % 8 == 0 && w % 8 == 0 {
                let r = self.extract(a, w, 0, w - k as u8);
                return self.concat(r, w - k as u8, V::C(0), k as u8);
            }
        }
        if w == 1 {
            if let (V::S(x), V::S(y)) = (a, b) {
                if let (Some((v1, s1)), Some((v2, s2))) = (self.as_inset(x), self.as_inset(y)) {
                    if v1 == v2 {
                        let s = match op {
                            And => set_and(&s1, &s2),
                            Or => set_or(&s1, &s2),
                            Xor => set_xor(&s1, &s2),
                            _ => EMPTY,
                        };
                        if matches!(op, And | Or | Xor) {
                            return self.inset(v1, s);
                        }
                    }
                }
                if self.strip_not(x) == Some(y) || self.strip_not(y) == Some(x) {
                    match op {
                        And => return V::C(0),
                        Or => return V::C(1),
                        _ => {}
                    }
                }
            }
            if let (Xor, V::S(x), V::C(1)) = (op, a, b) {
                if let Some((v, s)) = self.as_inset(x) {
                    return self.inset(v, set_not(&s));
                }
            }
        }
        // or of disjoint byte pieces: concat(hi,0) | zext(lo)
        if op == Or {
            if let (V::S(x), V::S(y)) = (a, b) {
                for (p, q) in [(x, y), (y, x)] {
                    let np = self.nodes[p as usize];
                    let nq = self.nodes[q as usize];
                    if np.op == Op::Concat && nq.op == Op::ZExt {
                        if let V::C(0) = self.val(np.b) {
                            let lw = self.w(np.b);
                            let qw = self.w(nq.a);
                            if qw <= lw {
                                let lo = self.zext(V::S(nq.a), qw, lw);
                                return self.concat(V::S(np.a), w - lw, lo, lw);
                            }
                        }
                    }
                }
            }
        }
        let ai = self.id(a, w);
        let bi = self.id(b, w);
        self.fin(Node { op: Op::Bin(op), w, a: ai, b: bi, c: 0, val: 0 })
    }

    pub fn cmp(&mut self, op: Op, w: u8, a: V, b: V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let n = Node { op, w: 1, a: 0, b: 0, c: 0, val: 0 };
            return V::C(Self::eval_op(&n, w, x, y, 0));
        }
        if a == b {
            return V::C(matches!(op, Op::Eq | Op::Ule | Op::Sle) as u64);
        }
        let (a, b) = match (op, a, b) {
            (Op::Eq, V::C(_), V::S(_)) => (b, a),
            (Op::Eq, V::S(x), V::S(y)) if x > y => (b, a),
            _ => (a, b),
        };
        let m = mask(w as u32);
        if w == 1 && op == Op::Eq {
            let x = self.bin(BinOp::Xor, 1, a, b);
            return self.not(x);
        }
        match (op, a, b) {
            (Op::Ult, _, V::C(0)) => return V::C(0),
            (Op::Ule, V::C(0), _) => return V::C(1),
            (Op::Ule, _, V::C(x)) if x == m => return V::C(1),
            (Op::Ult, V::C(x), _) if x == m => return V::C(0),
            _ => {}
        }
        if let (V::S(x), V::C(k)) = (a, b) {
            let n = self.nodes[x as usize];
            match n.op {
                Op::ZExt => {
                    let iw = self.w(n.a);
                    let im = mask(iw as u32);
                    match op {
                        Op::Eq => {
                            if k > im {
                                return V::C(0);
                            }
                            return self.cmp(Op::Eq, iw, V::S(n.a), b);
                        }
                        Op::Ult | Op::Ule => {
                            if k > im {
                                return V::C(1);
                            }
                            return self.cmp(op, iw, V::S(n.a), b);
                        }
                        Op::Slt | Op::Sle if (k >> (w - 1)) & 1 == 0 => {
                            let o = if op == Op::Slt { Op::Ult } else { Op::Ule };
                            return self.cmp(o, w, a, b);
                        }
                        Op::Slt | Op::Sle => return V::C(0),
                        _ => {}
                    }
                }
                Op::Ite => {
                    let (y, z) = (self.val(n.b), self.val(n.c));
                    if matches!(y, V::C(_)) || matches!(z, V::C(_)) {
                        let t = self.cmp(op, w, y, b);
                        let f = self.cmp(op, w, z, b);
                        return self.ite(V::S(n.a), 1, t, f);
                    }
                }
                Op::Bin(BinOp::Add) if op == Op::Eq => {
                    if let V::C(k1) = self.val(n.b) {
                        return self.cmp(Op::Eq, w, V::S(n.a), V::C(k.wrapping_sub(k1) & m));
                    }
                }
                Op::Bin(BinOp::Xor) if op == Op::Eq => {
                    if let V::C(k1) = self.val(n.b) {
                        return self.cmp(Op::Eq, w, V::S(n.a), V::C(k ^ k1));
                    }
                }
                Op::Bin(BinOp::Or) if op == Op::Eq && k == 0 => {
                    let p = self.cmp(Op::Eq, w, V::S(n.a), V::C(0));
                    let q = self.cmp(Op::Eq, w, V::S(n.b), V::C(0));
                    return self.bin(BinOp::And, 1, p, q);
                }
                Op::Concat if op == Op::Eq => {
                    let lw = self.w(n.b);
                    let (h, l) = (self.val(n.a), self.val(n.b));
                    let p = self.cmp(Op::Eq, w - lw, h, V::C(k >> lw));
                    if p == V::C(0) {
                        return p;
                    }
                    let q = self.cmp(Op::Eq, lw, l, V::C(k & mask(lw as u32)));
                    return self.bin(BinOp::And, 1, p, q);
                }
                _ => {}
            }
        }
        if let (V::C(k), V::S(x)) = (a, b) {
            let n = self.nodes[x as usize];
            match n.op {
                Op::ZExt => {
                    let iw = self.w(n.a);
                    let im = mask(iw as u32);
                    match op {
                        Op::Ult | Op::Ule => {
                            if k > im {
                                return V::C(0);
                            }
                            return self.cmp(op, iw, a, V::S(n.a));
                        }
                        Op::Slt | Op::Sle if (k >> (w - 1)) & 1 == 0 => {
                            let o = if op == Op::Slt { Op::Ult } else { Op::Ule };
                            return self.cmp(o, w, a, b);
                        }
                        Op::Slt | Op::Sle => return V::C(1),
                        _ => {}
                    }
                }
                Op::Ite => {
                    let (y, z) = (self.val(n.b), self.val(n.c));
                    if matches!(y, V::C(_)) || matches!(z, V::C(_)) {
                        let t = self.cmp(op, w, a, y);
                        let f = self.cmp(op, w, a, z);
                        return self.ite(V::S(n.a), 1, t, f);
                    }
                }
                _ => {}
            }
        }
        if let (V::S(x), V::S(y)) = (a, b) {
            let (n, k) = (self.nodes[x as usize], self.nodes[y as usize]);
            if n.op == Op::ZExt && k.op == Op::ZExt && matches!(op, Op::Eq | Op::Ult | Op::Ule) {
                let (w1, w2) = (self.w(n.a), self.w(k.a));
                if w1 == w2 {
                    return self.cmp(op, w1, V::S(n.a), V::S(k.a));
                }
            }
            if op == Op::Eq && n.op == Op::Concat && k.op == Op::Concat && self.w(n.b) == self.w(k.b) {
                let lw = self.w(n.b);
                let (h1, l1, h2, l2) = (self.val(n.a), self.val(n.b), self.val(k.a), self.val(k.b));
                let p = self.cmp(Op::Eq, w - lw, h1, h2);
                let q = self.cmp(Op::Eq, lw, l1, l2);
                return self.bin(BinOp::And, 1, p, q);
            }
        }
        let ai = self.id(a, w);
        let bi = self.id(b, w);
        self.fin(Node { op, w: 1, a: ai, b: bi, c: 0, val: 0 })
    }

    pub fn zext(&mut self, a: V, fw: u8, tw: u8) -> V {
        if fw == tw {
            return a;
        }
        match a {
            V::C(x) => V::C(x),
            V::S(e) => {
                let n = self.nodes[e as usize];
                if n.op == Op::ZExt {
                    return self.zext(V::S(n.a), self.w(n.a), tw);
                }
                if n.op == Op::Ite {
                    let (y, z) = (self.val(n.b), self.val(n.c));
                    if matches!(y, V::C(_)) && matches!(z, V::C(_)) {
                        return self.ite(V::S(n.a), tw, y, z);
                    }
                }
                self.fin(Node { op: Op::ZExt, w: tw, a: e, b: 0, c: 0, val: 0 })
            }
        }
    }
    pub fn sext(&mut self, a: V, fw: u8, tw: u8) -> V {
        if fw == tw {
            return a;
        }
        match a {
            V::C(x) => V::C(sext(x, fw as u32) & mask(tw as u32)),
            V::S(e) => {
                if fw == 1 {
                    return self.ite(a, tw, V::C(mask(tw as u32)), V::C(0));
                }
                let n = self.nodes[e as usize];
                if n.op == Op::ZExt && self.w(n.a) < fw {
                    return self.zext(V::S(n.a), self.w(n.a), tw);
                }
                if n.op == Op::Ite {
                    let (y, z) = (self.val(n.b), self.val(n.c));
                    if let (V::C(y), V::C(z)) = (y, z) {
                        let m = mask(tw as u32);
                        return self.ite(V::S(n.a), tw, V::C(sext(y, fw as u32) & m), V::C(sext(z, fw as u32) & m));
                    }
                }
                self.fin(Node { op: Op::SExt, w: tw, a: e, b: 0, c: 0, val: 0 })
            }
        }
    }
    pub fn extract(&mut self, a: V, fw: u8, lo: u8, w: u8) -> V {
        if lo == 0 && fw == w {
            return a;
        }
        match a {
            V::C(x) => V::C((x >> lo) & mask(w as u32)),
            V::S(e) => {
                let n = self.nodes[e as usize];
                match n.op {
                    Op::ZExt => {
                        let iw = self.w(n.a);
                        if lo >= iw {
                            return V::C(0);
                        }
                        if lo + w <= iw {
                            return self.extract(V::S(n.a), iw, lo, w);
                        }
                        let k = iw - lo;
                        let x = self.extract(V::S(n.a), iw, lo, k);
                        return self.zext(x, k, w);
                    }
                    Op::SExt => {
                        let iw = self.w(n.a);
                        if lo + w <= iw {
                            return self.extract(V::S(n.a), iw, lo, w);
                        }
                    }
                    Op::Extract => {
                        return self.extract(V::S(n.a), self.w(n.a), lo + n.val as u8, w);
                    }
                    Op::Concat => {
                        let lw = self.w(n.b);
                        if lo >= lw {
                            let h = self.val(n.a);
                            return self.extract(h, fw - lw, lo - lw, w);
                        }
                        if lo + w <= lw {
                            let l = self.val(n.b);
                            return self.extract(l, lw, lo, w);
                        }
                        let l = self.val(n.b);
                        let h = self.val(n.a);
                        let l = self.extract(l, lw, lo, lw - lo);
                        let h = self.extract(h, fw - lw, 0, w - (lw - lo));
                        return self.concat(h, w - (lw - lo), l, lw - lo);
                    }
                    Op::Ite => {
                        let (y, z) = (self.val(n.b), self.val(n.c));
                        if matches!(y, V::C(_)) || matches!(z, V::C(_)) {
                            let t = self.extract(y, fw, lo, w);
                            let f = self.extract(z, fw, lo, w);
                            return self.ite(V::S(n.a), w, t, f);
                        }
                    }
                    Op::Bin(o @ (BinOp::And | BinOp::Or | BinOp::Xor)) => {
                        let (y, z) = (self.val(n.a), self.val(n.b));
                        let t = self.extract(y, fw, lo, w);
                        let f = self.extract(z, fw, lo, w);
                        return self.bin(o, w, t, f);
                    }
                    Op::Bin(o @ (BinOp::Add | BinOp::Mul)) if lo == 0 => {
                        let (y, z) = (self.val(n.a), self.val(n.b));
                        let t = self.extract(y, fw, lo, w);
                        let f = self.extract(z, fw, lo, w);
                        return self.bin(o, w, t, f);
                    }
                    _ => {}
                }
                self.fin(Node { op: Op::Extract, w, a: e, b: 0, c: 0, val: lo as u64 })
            }
        }
    }
    pub fn concat(&mut self, h: V, hw: u8, l: V, lw: u8) -> V {
        let w = hw + lw;
        if let (V::C(x), V::C(y)) = (h, l) {
            return V::C((x << lw) | y);
        }
        if h == V::C(0) {
            return self.zext(l, lw, w);
        }
        if let (V::S(x), V::S(y)) = (h, l) {
            let (n, k) = (self.nodes[x as usize], self.nodes[y as usize]);
            // adjacent extracts of one expression
            let (hs, hl) = if n.op == Op::Extract { (n.a, n.val as u8) } else { (x, 0) };
            let (ls, ll) = if k.op == Op::Extract { (k.a, k.val as u8) } else { (y, 0) };
            if n.op == Op::Extract && k.op == Op::Extract && hs == ls && hl == ll + lw {
                return self.extract(V::S(ls), self.w(ls), ll, w);
            }
            // extract(e, lw.., ) over zext'ed pieces: e = zext, low piece is whole inner
            if n.op == Op::Extract && n.val as u8 >= lw {
                let src = self.nodes[n.a as usize];
                let low = self.extract(V::S(n.a), src.w, n.val as u8 - lw, lw);
                if low == l {
                    return self.extract(V::S(n.a), src.w, n.val as u8 - lw, w);
                }
            }
            // ite on the same condition
            if n.op == Op::Ite && k.op == Op::Ite && n.a == k.a {
                let (p, q, r, s) = (self.val(n.b), self.val(k.b), self.val(n.c), self.val(k.c));
                let t = self.concat(p, hw, q, lw);
                let f = self.concat(r, hw, s, lw);
                return self.ite(V::S(n.a), w, t, f);
            }
            if n.op == Op::ZExt {
                // concat(zext(a), l) = zext(concat(a,l))
                let iw = self.w(n.a);
                let x = self.concat(V::S(n.a), iw, l, lw);
                return self.zext(x, iw + lw, w);
            }
        }
        // ite(c,K1,K2) with constant partner
        match (h, l) {
            (V::S(x), V::C(_)) => {
                let n = self.nodes[x as usize];
                if n.op == Op::Ite {
                    let (p, r) = (self.val(n.b), self.val(n.c));
                    if matches!(p, V::C(_)) && matches!(r, V::C(_)) {
                        let t = self.concat(p, hw, l, lw);
                        let f = self.concat(r, hw, l, lw);
                        return self.ite(V::S(n.a), w, t, f);
                    }
                }
                if n.op == Op::ZExt {
                    let iw = self.w(n.a);
                    let x = self.concat(V::S(n.a), iw, l, lw);
                    return self.zext(x, iw + lw, w);
                }
            }
            (V::C(_), V::S(y)) => {
                let n = self.nodes[y as usize];
                if n.op == Op::Ite {
                    let (p, r) = (self.val(n.b), self.val(n.c));
                    if matches!(p, V::C(_)) && matches!(r, V::C(_)) {
                        let t = self.concat(h, hw, p, lw);
                        let f = self.concat(h, hw, r, lw);
                        return self.ite(V::S(n.a), w, t, f);
                    }
                }
            }
            _ => {}
        }
        let a = self.id(h, hw);
        let b = self.id(l, lw);
        self.fin(Node { op: Op::Concat, w, a, b, c: 0, val: 0 })
    }
    pub fn ite(&mut self, c: V, w: u8, a: V, b: V) -> V {
        let ce = match c {
            V::C(1) => return a,
            V::C(_) => return b,
            V::S(e) => e,
        };
        if a == b {
            return a;
        }
        if w == 1 {
            match (a, b) {
                (V::C(1), V::C(0)) => return c,
                (V::C(0), V::C(1)) => return self.not(c),
                (V::C(1), _) => return self.bin(BinOp::Or, 1, c, b),
                (V::C(0), _) => {
                    let n = self.not(c);
                    return self.bin(BinOp::And, 1, n, b);
                }
                (_, V::C(0)) => return self.bin(BinOp::And, 1, c, a),
                (_, V::C(1)) => {
                    let n = self.not(c);
                    return self.bin(BinOp::Or, 1, n, a);
                }
                _ => {}
            }
        }
        if let Some(x) = self.strip_not(ce) {
            return self.ite(V::S(x), w, b, a);
        }
        let ai = self.id(a, w);
        let bi = self.id(b, w);
        self.fin(Node { op: Op::Ite, w, a: ce, b: ai, c: bi, val: 0 })
    }
}

pub fn bin(op: BinOp, w: u8, a: u64, b: u64) -> u64 {
    let m = mask(w as u32);
    let ww = w as u64;
    (match op {
        BinOp::Add => a.wrapping_add(b),
        BinOp::Sub => a.wrapping_sub(b),
        BinOp::Mul => a.wrapping_mul(b),
        BinOp::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        BinOp::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        BinOp::SDiv => {
            let (x, y) = (sext(a, w as u32) as i64, sext(b, w as u32) as i64);
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    u64::MAX
                }
            } else {
                x.wrapping_div(y) as u64
            }
        }
        BinOp::SRem => {
            let (x, y) = (sext(a, w as u32) as i64, sext(b, w as u32) as i64);
            if y == 0 {
                x as u64
            } else {
                x.wrapping_rem(y) as u64
            }
        }
        BinOp::Shl => {
            if b >= ww {
                0
            } else {
                a << b
            }
        }
        BinOp::LShr => {
            if b >= ww {
                0
            } else {
                a >> b
            }
        }
        BinOp::AShr => {
            let x = sext(a, w as u32) as i64;
            (if b >= ww { x >> 63 } else { x >> b }) as u64
        }
        BinOp::And => a & b,
        BinOp::Or => a | b,
        BinOp::Xor => a ^ b,
    }) & m
}
