//! Parser for the textual LLVM IR printed by `opt -S`.

use crate::ir::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float,
    Double,
    Array(u64, Rc<Ty>),
    Vector(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Label,
    Metadata,
    Token,
}

impl Ty {
    fn size_align(&self) -> (u64, u64) {
        match self {
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let b = b.next_power_of_two();
                (b, b.min(16))
            }
            Ty::Ptr | Ty::Double => (8, 8),
            Ty::Float => (4, 4),
            Ty::Array(n, t) => {
                let (s, a) = t.size_align();
                (s * n, a)
            }
            Ty::Vector(n, t) => {
                let w = t.bits() as u64 * n;
                let b = ((w + 7) / 8).next_power_of_two();
                (b, b)
            }
            Ty::Struct(fs, packed) => {
                let mut off = 0;
                let mut al = 1;
                for f in fs.iter() {
                    let (s, a) = f.size_align();
                    if !packed {
                        off = (off + a - 1) / a * a;
                        al = al.max(a);
                    }
                    off += s;
                }
                if !packed {
                    off = (off + al - 1) / al * al;
                }
                (off, al)
            }
            _ => (0, 1),
        }
    }
    fn size(&self) -> u64 {
        self.size_align().0
    }
    fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(fs, packed) => {
                let mut off = 0;
                for (k, f) in fs.iter().enumerate() {
                    let (s, a) = f.size_align();
                    if !packed {
                        off = (off + a - 1) / a * a;
                    }
                    if k == i {
                        return off;
                    }
                    off += s;
                }
                panic!("field_off")
            }
            _ => panic!("field_off of non-struct"),
        }
    }
    fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::Double => 64,
            Ty::Float => 32,
            _ => 0,
        }
    }
    pub fn slots(&self) -> u32 {
        match self {
            Ty::Void | Ty::Label | Ty::Metadata | Ty::Token => 0,
            Ty::Array(n, t) | Ty::Vector(n, t) => *n as u32 * t.slots(),
            Ty::Struct(fs, _) => fs.iter().map(|f| f.slots()).sum(),
            _ => 1,
        }
    }
    /// (byte offset, bit width) of every leaf
    fn leaves(&self, off: u64, out: &mut Vec<(u32, u8)>) -> Result<(), String> {
        match self {
            Ty::Int(w) => {
                if *w > 64 {
                    return Err(format!("i{}", w));
                }
                out.push((off as u32, *w as u8))
            }
            Ty::Ptr | Ty::Double => out.push((off as u32, 64)),
            Ty::Float => out.push((off as u32, 32)),
            Ty::Array(n, t) => {
                for i in 0..*n {
                    t.leaves(off + i * t.size(), out)?;
                }
            }
            Ty::Vector(n, t) => {
                if t.bits() % 8 != 0 {
                    return Err("vector of sub-byte elements in memory".into());
                }
                for i in 0..*n {
                    t.leaves(off + i * t.bits() as u64 / 8, out)?;
                }
            }
            Ty::Struct(fs, _) => {
                for i in 0..fs.len() {
                    fs[i].leaves(off + self.field_off(i), out)?;
                }
            }
            _ => {}
        }
        Ok(())
    }
    fn scalar_w(&self) -> Result<u8, String> {
        let b = match self {
            Ty::Vector(_, t) => t.bits(),
            t => t.bits(),
        };
        if b == 0 || b > 64 {
            return Err(format!("width of {:?}", self));
        }
        Ok(b as u8)
    }
}

pub fn mask(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}

type R<T> = Result<T, String>;

struct Cur<'a> {
    s: &'a [u8],
    p: usize,
}

impl<'a> Cur<'a> {
    fn new(s: &'a str) -> Self {
        Cur { s: s.as_bytes(), p: 0 }
    }
    fn ws(&mut self) {
        while self.p < self.s.len() && (self.s[self.p] == b' ' || self.s[self.p] == b'\t') {
            self.p += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.p).unwrap_or(&0)
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.p += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {:?} at {:?}", c as char, self.rest()))
        }
    }
    fn rest(&self) -> String {
        String::from_utf8_lossy(&self.s[self.p.min(self.s.len())..]).chars().take(80).collect()
    }
    fn is_id(c: u8) -> bool {
        c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
    }
    fn peek_word(&mut self) -> &'a str {
        self.ws();
        let mut q = self.p;
        while q < self.s.len() && Self::is_id(self.s[q]) {
            q += 1;
        }
        std::str::from_utf8(&self.s[self.p..q]).unwrap()
    }
    fn word(&mut self) -> &'a str {
        let w = self.peek_word();
        self.p += w.len();
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        if self.peek_word() == w {
            self.p += w.len();
            true
        } else {
            false
        }
    }
    /// name after a sigil
    fn name(&mut self) -> String {
        if self.s[self.p] == b'"' {
            let st = self.p + 1;
            let mut q = st;
            while self.s[q] != b'"' {
                q += 1;
            }
            self.p = q + 1;
            String::from_utf8_lossy(&self.s[st..q]).into_owned()
        } else {
            let st = self.p;
            while self.p < self.s.len() && Self::is_id(self.s[self.p]) {
                self.p += 1;
            }
            String::from_utf8_lossy(&self.s[st..self.p]).into_owned()
        }
    }
    /// skip a balanced parenthesis group starting at '('
    fn skip_parens(&mut self) {
        let mut d = 0;
        while self.p < self.s.len() {
            match self.s[self.p] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.p += 1;
                        return;
                    }
                }
                b'"' => {
                    self.p += 1;
                    while self.s[self.p] != b'"' {
                        self.p += 1;
                    }
                }
                _ => {}
            }
            self.p += 1;
        }
    }
}

pub struct Parser {
    named: HashMap<String, Ty>,
    gaddr: HashMap<String, u64>,
}

struct FnCtx {
    regs: HashMap<String, u32>,
    nregs: u32,
}

impl FnCtx {
    fn reg(&mut self, name: String, slots: u32) -> u32 {
        if let Some(r) = self.regs.get(&name) {
            return *r;
        }
        let r = self.nregs;
        self.nregs += slots;
        self.regs.insert(name, r);
        r
    }
}

fn is_type_start(c: &mut Cur) -> bool {
    match c.peek() {
        b'{' | b'[' | b'<' | b'%' => true,
        _ => {
            let w = c.peek_word();
            matches!(w, "ptr" | "void" | "float" | "double" | "label" | "metadata" | "half" | "token" | "x86_fp80" | "fp128")
                || (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|b| b.is_ascii_digit()))
        }
    }
}

fn skip_attrs(c: &mut Cur) {
    const STOP: &[&str] = &[
        "true", "false", "null", "undef", "poison", "zeroinitializer", "splat", "getelementptr", "inttoptr",
        "ptrtoint", "bitcast", "trunc", "add", "sub", "xor", "asm", "c", "zext", "blockaddress", "dso_local_equivalent", "none",
    ];
    loop {
        if c.peek() == b'"' {
            c.p += 1;
            while c.s[c.p] != b'"' {
                c.p += 1;
            }
            c.p += 1;
            if c.eat(b'=') {
                c.p += 1;
                while c.s[c.p] != b'"' {
                    c.p += 1;
                }
                c.p += 1;
            }
            continue;
        }
        if is_type_start(c) {
            return;
        }
        let w = c.peek_word();
        if w.is_empty() || STOP.contains(&w) || w.as_bytes()[0].is_ascii_digit() || w.as_bytes()[0] == b'-' {
            return;
        }
        c.p += w.len();
        if w == "align" && c.peek() != b'(' {
            c.word();
        } else if w == "cc" {
            c.word();
        } else if c.s.get(c.p) == Some(&b'(') {
            c.skip_parens();
        }
    }
}

impl Parser {
    fn ty(&self, c: &mut Cur) -> R<Ty> {
        match c.peek() {
            b'{' => {
                c.p += 1;
                let f = self.ty_list(c, b'}')?;
                Ok(Ty::Struct(Rc::new(f), false))
            }
            b'[' => {
                c.p += 1;
                let n: u64 = c.word().parse().map_err(|_| "array len")?;
                c.word();
                let t = self.ty(c)?;
                c.expect(b']')?;
                Ok(Ty::Array(n, Rc::new(t)))
            }
            b'<' => {
                c.p += 1;
                if c.eat(b'{') {
                    let f = self.ty_list(c, b'}')?;
                    c.expect(b'>')?;
                    return Ok(Ty::Struct(Rc::new(f), true));
                }
                let n: u64 = c.word().parse().map_err(|_| "vector len")?;
                c.word();
                let t = self.ty(c)?;
                c.expect(b'>')?;
                Ok(Ty::Vector(n, Rc::new(t)))
            }
            b'%' => {
                c.p += 1;
                let n = c.name();
                self.named.get(&n).cloned().ok_or(format!("unknown type {}", n))
            }
            _ => {
                let w = c.word();
                Ok(match w {
                    "ptr" => Ty::Ptr,
                    "void" => Ty::Void,
                    "float" => Ty::Float,
                    "double" => Ty::Double,
                    "label" => Ty::Label,
                    "metadata" => Ty::Metadata,
                    "token" => Ty::Token,
                    _ if w.starts_with('i') => Ty::Int(w[1..].parse().map_err(|_| format!("type {:?}", w))?),
                    _ => return Err(format!("type {:?} at {:?}", w, c.rest())),
                })
            }
        }
    }
    fn ty_list(&self, c: &mut Cur, end: u8) -> R<Vec<Ty>> {
        let mut v = vec![];
        if c.eat(end) {
            return Ok(v);
        }
        loop {
            v.push(self.ty(c)?);
            if c.eat(end) {
                return Ok(v);
            }
            c.expect(b',')?;
        }
    }

    fn konst(&self, c: &mut Cur, t: &Ty) -> R<Vec<u64>> {
        let mut f = None;
        let o = self.value(c, t, &mut f)?;
        o.into_iter()
            .map(|x| match x {
                Opd::C(v) => Ok(v),
                _ => Err("non-constant".to_string()),
            })
            .collect()
    }

    /// parse a value of type t into its slots
    fn value(&self, c: &mut Cur, t: &Ty, f: &mut Option<&mut FnCtx>) -> R<Vec<Opd>> {
        let n = t.slots() as usize;
        match c.peek() {
            b'%' => {
                c.p += 1;
                let nm = c.name();
                let r = match f {
                    Some(f) => f.reg(nm, n as u32),
                    None => return Err("local in constant".into()),
                };
                Ok((0..n as u32).map(|i| Opd::R(r + i)).collect())
            }
            b'@' => {
                c.p += 1;
                let nm = c.name();
                Ok(vec![Opd::C(*self.gaddr.get(&nm).ok_or(format!("global {}", nm))?)])
            }
            b'{' => {
                c.p += 1;
                let v = self.elems(c, b'}', f)?;
                Ok(v)
            }
            b'[' => {
                c.p += 1;
                self.elems(c, b']', f)
            }
            b'<' => {
                c.p += 1;
                if c.eat(b'{') {
                    let v = self.elems(c, b'}', f)?;
                    c.expect(b'>')?;
                    Ok(v)
                } else {
                    self.elems(c, b'>', f)
                }
            }
            b'!' => {
                // metadata operand
                Err("metadata value".into())
            }
            b'"' => Err("string".into()),
            _ => {
                let w = c.word();
                match w {
                    "true" => Ok(vec![Opd::C(1)]),
                    "false" => Ok(vec![Opd::C(0)]),
                    "null" => Ok(vec![Opd::C(0)]),
                    "undef" | "poison" | "zeroinitializer" => Ok(vec![Opd::C(0); n]),
                    "splat" => {
                        c.expect(b'(')?;
                        let et = self.ty(c)?;
                        let v = self.value(c, &et, f)?;
                        c.expect(b')')?;
                        Ok(vec![v[0]; n])
                    }
                    "c" => {
                        let b = self.cstr(c)?;
                        Ok(b.into_iter().map(|x| Opd::C(x as u64)).collect())
                    }
                    "getelementptr" => {
                        while !c.peek_word().is_empty() {
                            c.word();
                            if c.s.get(c.p) == Some(&b'(') && c.peek_word().is_empty() {
                                // either inrange(...) or the operand list
                                let save = c.p;
                                if c.s[..save].ends_with(b"inrange") {
                                    c.skip_parens();
                                } else {
                                    break;
                                }
                            }
                        }
                        c.expect(b'(')?;
                        let et = self.ty(c)?;
                        c.expect(b',')?;
                        let (off, base, terms) = self.gep_tail(c, &et, &mut None)?;
                        c.expect(b')')?;
                        if !terms.is_empty() {
                            return Err("gep constexpr".into());
                        }
                        match base {
                            Opd::C(b) => Ok(vec![Opd::C(b.wrapping_add(off))]),
                            _ => Err("gep constexpr".into()),
                        }
                    }
                    "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "ptrtoaddr" => {
                        while c.peek() != b'(' {
                            c.word();
                        }
                        c.expect(b'(')?;
                        let ft = self.ty(c)?;
                        let v = self.konst(c, &ft)?;
                        if !c.eat_word("to") {
                            return Err("to".into());
                        }
                        let tt = self.ty(c)?;
                        c.expect(b')')?;
                        if v.len() != 1 {
                            return Err("aggregate cast constant".into());
                        }
                        Ok(vec![Opd::C(v[0] & mask(tt.bits()))])
                    }
                    "add" | "sub" | "xor" | "mul" => {
                        while c.peek() != b'(' {
                            c.word();
                        }
                        c.expect(b'(')?;
                        let t1 = self.ty(c)?;
                        let a = self.konst(c, &t1)?[0];
                        c.expect(b',')?;
                        let t2 = self.ty(c)?;
                        let b = self.konst(c, &t2)?[0];
                        c.expect(b')')?;
                        let r = match w {
                            "add" => a.wrapping_add(b),
                            "sub" => a.wrapping_sub(b),
                            "mul" => a.wrapping_mul(b),
                            _ => a ^ b,
                        };
                        Ok(vec![Opd::C(r & mask(t1.bits()))])
                    }
                    _ => {
                        // integer
                        let w0 = w.as_bytes();
                        if w0.is_empty() {
                            return Err(format!("value at {:?}", c.rest()));
                        }
                        if let Ok(v) = w.parse::<i128>() {
                            if t.bits() == 0 {
                                return Err(format!("int const of type {:?}", t));
                            }
                            if t.bits() > 64 {
                                return Err("wide int".into());
                            }
                            if matches!(t, Ty::Float | Ty::Double) {
                                return Err("float const".into());
                            }
                            Ok(vec![Opd::C(v as u64 & mask(t.bits()))])
                        } else if matches!(t, Ty::Float | Ty::Double) {
                            Ok(vec![Opd::C(0)])
                        } else {
                            Err(format!("const {:?} at {:?}", w, c.rest()))
                        }
                    }
                }
            }
        }
    }

    fn cstr(&self, c: &mut Cur) -> R<Vec<u8>> {
        c.expect(b'"')?;
        let mut out = vec![];
        let hex = |b: u8| (b as char).to_digit(16).unwrap() as u8;
        loop {
            let b = c.s[c.p];
            if b == b'"' {
                c.p += 1;
                return Ok(out);
            }
            if b == b'\\' {
                if c.s[c.p + 1] == b'\\' {
                    out.push(b'\\');
                    c.p += 2;
                } else {
                    out.push(hex(c.s[c.p + 1]) * 16 + hex(c.s[c.p + 2]));
                    c.p += 3;
                }
            } else {
                out.push(b);
                c.p += 1;
            }
        }
    }

    fn elems(&self, c: &mut Cur, end: u8, f: &mut Option<&mut FnCtx>) -> R<Vec<Opd>> {
        let mut v = vec![];
        if c.eat(end) {
            return Ok(v);
        }
        loop {
            let t = self.ty(c)?;
            v.extend(self.value(c, &t, f)?);
            if c.eat(end) {
                return Ok(v);
            }
            c.expect(b',')?;
        }
    }

    fn typed(&self, c: &mut Cur, f: &mut Option<&mut FnCtx>) -> R<(Ty, Vec<Opd>)> {
        let t = self.ty(c)?;
        skip_attrs_value(c);
        let v = self.value(c, &t, f)?;
        Ok((t, v))
    }

    /// after "getelementptr ... TY ," : base pointer and indices
    fn gep_tail(&self, c: &mut Cur, et: &Ty, f: &mut Option<&mut FnCtx>) -> R<(u64, Opd, Vec<(Opd, u8, u64)>)> {
        let (bt, base) = self.typed(c, f)?;
        if bt != Ty::Ptr {
            return Err("vector gep".into());
        }
        let mut off = 0u64;
        let mut terms = vec![];
        let mut cur = et.clone();
        let mut first = true;
        while c.peek() == b',' {
            let save = c.p;
            c.p += 1;
            if c.peek() == b'!' {
                c.p = save;
                break;
            }
            let (it, iv) = self.typed(c, f)?;
            let iw = it.bits();
            let (scale, next);
            if first {
                scale = cur.size();
                next = cur.clone();
                first = false;
            } else {
                match cur.clone() {
                    Ty::Array(_, t) | Ty::Vector(_, t) => {
                        scale = t.size();
                        next = (*t).clone();
                    }
                    Ty::Struct(ref fs, _) => {
                        let i = match iv[0] {
                            Opd::C(i) => i as usize,
                            _ => return Err("dynamic struct index".into()),
                        };
                        off = off.wrapping_add(cur.field_off(i));
                        cur = fs[i].clone();
                        continue;
                    }
                    t => return Err(format!("gep into {:?}", t)),
                }
            }
            match iv[0] {
                Opd::C(v) => {
                    let sv = sext(v, iw);
                    off = off.wrapping_add(sv.wrapping_mul(scale));
                }
                o => terms.push((o, iw as u8, scale)),
            }
            cur = next;
        }
        Ok((off, base[0], terms))
    }
}

pub fn sext(v: u64, w: u32) -> u64 {
    if w >= 64 {
        return v;
    }
    let s = 64 - w;
    (((v << s) as i64) >> s) as u64
}

fn skip_attrs_value(c: &mut Cur) {
    // attributes between a type and a value
    const STOP: &[&str] = &[
        "true", "false", "null", "undef", "poison", "zeroinitializer", "splat", "getelementptr", "inttoptr",
        "ptrtoint", "bitcast", "trunc", "add", "sub", "xor", "mul", "asm", "c", "zext", "ptrtoaddr",
    ];
    loop {
        match c.peek() {
            b'%' | b'@' | b'{' | b'[' | b'<' | b'!' | b'"' | 0 => return,
            _ => {}
        }
        let w = c.peek_word();
        if w.is_empty() || STOP.contains(&w) || w.as_bytes()[0].is_ascii_digit() || w.as_bytes()[0] == b'-' {
            return;
        }
        c.p += w.len();
        if w == "align" && c.peek() != b'(' {
            c.word();
        } else if c.s.get(c.p) == Some(&b'(') {
            c.skip_parens();
        }
    }
}

fn flatten_const(p: &Parser, c: &mut Cur, t: &Ty, off: u64, out: &mut Vec<u8>) -> R<()> {
    let v = p.konst(c, t)?;
    let mut l = vec![];
    t.leaves(off, &mut l)?;
    if l.len() != v.len() {
        return Err(format!("leaf mismatch {} {}", l.len(), v.len()));
    }
    for ((o, w), x) in l.iter().zip(v.iter()) {
        let nb = (*w as usize + 7) / 8;
        for k in 0..nb {
            out[*o as usize + k] = (x >> (8 * k)) as u8;
        }
    }
    Ok(())
}

pub fn parse_module(text: &str) -> R<Module> {
    let lines: Vec<&str> = text.lines().collect();
    let mut p = Parser { named: HashMap::new(), gaddr: HashMap::new() };
    // pass 0: named types
    for l in &lines {
        if l.starts_with('%') {
            let mut c = Cur::new(l);
            c.p = 1;
            let n = c.name();
            c.expect(b'=')?;
            c.word();
            if c.peek_word() == "opaque" {
                p.named.insert(n, Ty::Struct(Rc::new(vec![]), false));
                continue;
            }
            let t = p.ty(&mut c)?;
            p.named.insert(n, t);
        }
    }
    // pass 1: addresses
    let mut gl = vec![];
    let mut fl = vec![];
    let mut aliases = vec![];
    for (i, l) in lines.iter().enumerate() {
        if l.starts_with('@') {
            let mut c = Cur::new(l);
            c.p = 1;
            let n = c.name();
            c.expect(b'=')?;
            // is it an alias?
            let mut is_alias = false;
            loop {
                let w = c.word();
                if w == "alias" {
                    is_alias = true;
                    break;
                }
                if w == "global" || w == "constant" || w.is_empty() {
                    if w.is_empty() && c.peek() == b'(' {
                        c.skip_parens();
                        continue;
                    }
                    break;
                }
            }
            if is_alias {
                aliases.push((n, i));
            } else {
                gl.push((n, i));
            }
        } else if l.starts_with("define ") || l.starts_with("declare ") {
            let at = l.find('@').ok_or("no @ in define")?;
            let mut c = Cur::new(l);
            c.p = at + 1;
            let n = c.name();
            fl.push((n, i, l.starts_with("define ")));
        }
    }
    let func_base = 16u32;
    let glob_base = func_base + fl.len() as u32;
    let first_free = glob_base + gl.len() as u32 + 16;
    for (k, (n, i, def)) in fl.iter().enumerate() {
        let weak = !*def && lines[*i].contains("extern_weak");
        let a = if weak { 0 } else { ((func_base as u64) + k as u64) << 32 };
        p.gaddr.insert(n.clone(), a);
    }
    for (k, (n, _)) in gl.iter().enumerate() {
        p.gaddr.insert(n.clone(), ((glob_base as u64) + k as u64) << 32);
    }
    for (n, i) in aliases {
        let l = lines[i];
        let at = l.rfind('@').unwrap();
        let mut c = Cur::new(l);
        c.p = at + 1;
        let t = c.name();
        let a = *p.gaddr.get(&t).ok_or("alias target")?;
        p.gaddr.insert(n, a);
    }
    // pass 2: globals
    let mut globals = vec![];
    for (n, i) in &gl {
        let mut c = Cur::new(lines[*i]);
        c.p = 1;
        c.name();
        c.expect(b'=')?;
        let mut external = false;
        let constant;
        loop {
            let w = c.word();
            match w {
                "external" | "extern_weak" => external = true,
                "global" => {
                    constant = false;
                    break;
                }
                "constant" => {
                    constant = true;
                    break;
                }
                "" => {
                    if c.peek() == b'(' {
                        c.skip_parens();
                    } else {
                        return Err(format!("global {}", lines[*i]));
                    }
                }
                _ => {}
            }
        }
        let t = p.ty(&mut c)?;
        let mut bytes = vec![0u8; t.size() as usize];
        if !external {
            if let Err(e) = flatten_const(&p, &mut c, &t, 0, &mut bytes) {
                // leave zeroed but remember: mark by name (only matters if used)
                if !n.starts_with("llvm.") {
                    eprintln!("lsym: warning: initializer of {} not parsed: {}", n, e);
                }
            }
        }
        globals.push(Global { name: n.clone(), bytes, constant, addr: p.gaddr[n] });
    }
    // pass 3: functions
    let mut funcs = vec![];
    for (k, (n, i, def)) in fl.iter().enumerate() {
        let mut f = Func {
            name: n.clone(),
            defined: *def,
            code: vec![],
            edges: vec![],
            nregs: 0,
            nparams: 0,
            stack: 0,
            addr: ((func_base as u64) + k as u64) << 32,
        };
        if *def {
            p.function(&lines, *i, &mut f, &fl).map_err(|e| format!("{} in {}", e, n))?;
        }
        funcs.push(f);
    }
    Ok(Module { funcs, globals, func_base, glob_base, first_free })
}

struct FnBuild {
    /// block name -> index
    blocks: HashMap<String, usize>,
    block_pc: Vec<u32>,
    /// phis of each block: (dst base, slots, [(pred, values)])
    phis: Vec<Vec<(u32, HashMap<String, Vec<Opd>>)>>,
    edges: Vec<(String, String)>,
}

impl Parser {
    fn function(&self, lines: &[&str], start: usize, f: &mut Func, fl: &[(String, usize, bool)]) -> R<()> {
        let _ = fl;
        // parameters
        let mut ctx = FnCtx { regs: HashMap::new(), nregs: 0 };
        let head = lines[start];
        let mut c = Cur::new(head);
        c.p = head.find('@').unwrap() + 1;
        c.name();
        c.expect(b'(')?;
        let mut numeric = 0;
        if !c.eat(b')') {
            loop {
                if c.peek() == b'.' {
                    return Err("variadic definition".into());
                }
                let t = self.ty(&mut c)?;
                skip_attrs_value(&mut c);
                c.expect(b'%')?;
                let nm = c.name();
                if nm.bytes().all(|b| b.is_ascii_digit()) {
                    numeric += 1;
                }
                ctx.reg(nm, t.slots());
                if c.eat(b')') {
                    break;
                }
                c.expect(b',')?;
            }
        }
        f.nparams = ctx.nregs;
        // logical lines
        let mut logical: Vec<String> = vec![];
        let mut i = start + 1;
        while lines[i] != "}" {
            let l = lines[i];
            i += 1;
            if l.trim().is_empty() {
                continue;
            }
            if l.starts_with("    ") || l.starts_with("  ]") {
                let last = logical.last_mut().unwrap();
                last.push(' ');
                last.push_str(l.trim());
            } else {
                logical.push(l.to_string());
            }
        }
        let mut b = FnBuild { blocks: HashMap::new(), block_pc: vec![], phis: vec![], edges: vec![] };
        let mut cur_block = if logical.first().map(|l| l.starts_with("  ")).unwrap_or(true) {
            let n = numeric.to_string();
            b.blocks.insert(n.clone(), 0);
            b.block_pc.push(0);
            b.phis.push(vec![]);
            n
        } else {
            String::new()
        };
        let mut stack: u64 = 0;
        for l in &logical {
            if !l.starts_with("  ") {
                let mut c = Cur::new(l);
                let n = c.name();
                b.blocks.insert(n.clone(), b.block_pc.len());
                b.block_pc.push(f.code.len() as u32);
                b.phis.push(vec![]);
                cur_block = n;
                continue;
            }
            let before = f.code.len();
            let eb = b.edges.len();
            match self.inst(l, &mut ctx, f, &mut b, &cur_block, &mut stack) {
                Ok(()) => {}
                Err(e) => {
                    f.code.truncate(before);
                    b.edges.truncate(eb);
                    f.code.push(Inst::Unsupported(format!("{}: {}", e, l.trim()).into()));
                }
            }
        }
        // edges
        for (from, to) in &b.edges {
            let bi = *b.blocks.get(to).ok_or(format!("block {}", to))?;
            let mut copies = vec![];
            for (dst, m) in &b.phis[bi] {
                let v = m.get(from).ok_or(format!("phi without pred {}", from))?;
                for (k, o) in v.iter().enumerate() {
                    if *o != Opd::R(dst + k as u32) {
                        copies.push((dst + k as u32, *o));
                    }
                }
            }
            let mut seq = true;
            for i in 0..copies.len() {
                if let Opd::R(r) = copies[i].1 {
                    if copies[..i].iter().any(|c| c.0 == r) {
                        seq = false;
                    }
                }
            }
            f.edges.push(Edge { target: b.block_pc[bi], copies: copies.into(), seq });
        }
        f.nregs = ctx.nregs;
        f.stack = stack as u32;
        Ok(())
    }

    fn label(&self, c: &mut Cur) -> R<String> {
        if !c.eat_word("label") {
            return Err(format!("label at {}", c.rest()));
        }
        c.expect(b'%')?;
        Ok(c.name())
    }

    #[allow(clippy::too_many_arguments)]
    fn inst(&self, l: &str, ctx: &mut FnCtx, f: &mut Func, b: &mut FnBuild, cur: &str, stack: &mut u64) -> R<()> {
        let mut c = Cur::new(l);
        let mut res: Option<String> = None;
        if c.peek() == b'%' {
            c.p += 1;
            res = Some(c.name());
            c.expect(b'=')?;
        }
        let mut op = c.word().to_string();
        if op == "tail" || op == "musttail" || op == "notail" {
            op = c.word().to_string();
        }
        let mut edge = |b: &mut FnBuild, to: String| -> u32 {
            b.edges.push((cur.to_string(), to));
            (b.edges.len() - 1) as u32
        };
        let binop = |s: &str| -> Option<BinOp> {
            Some(match s {
                "add" => BinOp::Add,
                "sub" => BinOp::Sub,
                "mul" => BinOp::Mul,
                "udiv" => BinOp::UDiv,
                "sdiv" => BinOp::SDiv,
                "urem" => BinOp::URem,
                "srem" => BinOp::SRem,
                "shl" => BinOp::Shl,
                "lshr" => BinOp::LShr,
                "ashr" => BinOp::AShr,
                "and" => BinOp::And,
                "or" => BinOp::Or,
                "xor" => BinOp::Xor,
                _ => return None,
            })
        };
        if let Some(bo) = binop(&op) {
            while matches!(c.peek_word(), "nuw" | "nsw" | "exact" | "disjoint") {
                c.word();
            }
            let t = self.ty(&mut c)?;
            let w = t.scalar_w()?;
            let a = self.value(&mut c, &t, &mut Some(ctx))?;
            c.expect(b',')?;
            let bb = self.value(&mut c, &t, &mut Some(ctx))?;
            let dst = ctx.reg(res.ok_or("no result")?, t.slots());
            f.code.push(if a.len() == 1 {
                Inst::Bin { op: bo, w, dst, a: a[0], b: bb[0] }
            } else {
                Inst::VBin { op: bo, w, dst, a: a.into(), b: bb.into() }
            });
            return Ok(());
        }
        match op.as_str() {
            "icmp" => {
                if c.peek_word() == "samesign" {
                    c.word();
                }
                let p = match c.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    x => return Err(format!("pred {}", x)),
                };
                let t = self.ty(&mut c)?;
                let w = t.scalar_w()?;
                let a = self.value(&mut c, &t, &mut Some(ctx))?;
                c.expect(b',')?;
                let bb = self.value(&mut c, &t, &mut Some(ctx))?;
                let dst = ctx.reg(res.ok_or("no result")?, t.slots());
                f.code.push(if a.len() == 1 {
                    Inst::Icmp { p, w, dst, a: a[0], b: bb[0] }
                } else {
                    Inst::VIcmp { p, w, dst, a: a.into(), b: bb.into() }
                });
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "freeze" | "addrspacecast" | "ptrtoaddr" => {
                while matches!(c.peek_word(), "nuw" | "nsw" | "nneg") {
                    c.word();
                }
                let (ft, a) = self.typed(&mut c, &mut Some(ctx))?;
                let tt = if op == "freeze" {
                    ft.clone()
                } else {
                    if !c.eat_word("to") {
                        return Err("to".into());
                    }
                    self.ty(&mut c)?
                };
                let dst = ctx.reg(res.ok_or("no result")?, tt.slots());
                if op == "freeze" {
                    f.code.push(if a.len() == 1 { Inst::Mov { dst, a: a[0] } } else { Inst::MovN { dst, a: a.into() } });
                    return Ok(());
                }
                let fw = ft.scalar_w()?;
                let tw = tt.scalar_w()?;
                if op == "bitcast" {
                    f.code.push(if a.len() == 1 && tt.slots() == 1 {
                        Inst::Mov { dst, a: a[0] }
                    } else if a.len() as u32 == tt.slots() {
                        Inst::MovN { dst, a: a.into() }
                    } else {
                        Inst::Bitcast { fw, tw, dst, a: a.into(), n: tt.slots() as u16 }
                    });
                    return Ok(());
                }
                let co = match op.as_str() {
                    "zext" => CastOp::ZExt,
                    "sext" => CastOp::SExt,
                    "trunc" => CastOp::Trunc,
                    _ => {
                        if fw < tw {
                            CastOp::ZExt
                        } else {
                            CastOp::Trunc
                        }
                    }
                };
                f.code.push(if a.len() == 1 {
                    if fw == tw {
                        Inst::Mov { dst, a: a[0] }
                    } else {
                        Inst::Cast { op: co, fw, tw, dst, a: a[0] }
                    }
                } else {
                    Inst::VCast { op: co, fw, tw, dst, a: a.into() }
                });
            }
            "load" => {
                while matches!(c.peek_word(), "atomic" | "volatile") {
                    c.word();
                }
                let t = self.ty(&mut c)?;
                c.expect(b',')?;
                let (_, a) = self.typed(&mut c, &mut Some(ctx))?;
                let dst = ctx.reg(res.ok_or("no result")?, t.slots());
                if let Ty::Vector(..) | Ty::Array(..) | Ty::Struct(..) = t {
                    let mut parts = vec![];
                    t.leaves(0, &mut parts)?;
                    f.code.push(Inst::LoadN { dst, addr: a[0], parts: parts.into() });
                } else {
                    f.code.push(Inst::Load { w: t.scalar_w()?, dst, addr: a[0] });
                }
            }
            "store" => {
                while matches!(c.peek_word(), "atomic" | "volatile") {
                    c.word();
                }
                let (t, v) = self.typed(&mut c, &mut Some(ctx))?;
                c.expect(b',')?;
                let (_, a) = self.typed(&mut c, &mut Some(ctx))?;
                if let Ty::Vector(..) | Ty::Array(..) | Ty::Struct(..) = t {
                    let mut parts = vec![];
                    t.leaves(0, &mut parts)?;
                    f.code.push(Inst::StoreN { v: v.into(), addr: a[0], parts: parts.into() });
                } else {
                    f.code.push(Inst::Store { w: t.scalar_w()?, v: v[0], addr: a[0] });
                }
            }
            "getelementptr" => {
                while matches!(c.peek_word(), "inbounds" | "nuw" | "nusw") {
                    c.word();
                }
                let et = self.ty(&mut c)?;
                c.expect(b',')?;
                let (off, base, terms) = self.gep_tail(&mut c, &et, &mut Some(ctx))?;
                let dst = ctx.reg(res.ok_or("no result")?, 1);
                f.code.push(if terms.is_empty() {
                    Inst::GepC { dst, base, off }
                } else {
                    Inst::Gep { dst, base, off, terms: terms.into() }
                });
            }
            "alloca" => {
                while matches!(c.peek_word(), "inalloca") {
                    c.word();
                }
                let t = self.ty(&mut c)?;
                let mut n = 1u64;
                let mut al = 16u64;
                while c.eat(b',') {
                    if c.eat_word("align") {
                        al = c.word().parse().map_err(|_| "align")?;
                    } else if c.peek() == b'!' {
                        break;
                    } else {
                        let (_, v) = self.typed(&mut c, &mut Some(ctx))?;
                        match v[0] {
                            Opd::C(k) => n = k,
                            _ => return Err("dynamic alloca".into()),
                        }
                    }
                }
                let dst = ctx.reg(res.ok_or("no result")?, 1);
                let al = al.max(16);
                *stack = (*stack + al - 1) / al * al;
                f.code.push(Inst::Alloca { dst, off: *stack as u32 });
                *stack += t.size() * n + 16;
            }
            "br" => {
                if c.peek_word() == "label" {
                    let t = self.label(&mut c)?;
                    let e = edge(b, t);
                    f.code.push(Inst::Br(e));
                } else {
                    let (_, v) = self.typed(&mut c, &mut Some(ctx))?;
                    c.expect(b',')?;
                    let t = self.label(&mut c)?;
                    c.expect(b',')?;
                    let g = self.label(&mut c)?;
                    let t = edge(b, t);
                    let g = edge(b, g);
                    f.code.push(Inst::CBr { c: v[0], t, f: g });
                }
            }
            "switch" => {
                let (t, v) = self.typed(&mut c, &mut Some(ctx))?;
                c.expect(b',')?;
                let d = self.label(&mut c)?;
                let def = edge(b, d);
                c.expect(b'[')?;
                let mut cases = vec![];
                // targets are grouped so that a symbolic switch forks once per target
                let mut seen: HashMap<String, u32> = HashMap::new();
                while !c.eat(b']') {
                    let ct = self.ty(&mut c)?;
                    let k = self.konst(&mut c, &ct)?[0];
                    c.expect(b',')?;
                    let t = self.label(&mut c)?;
                    let e = match seen.get(&t) {
                        Some(e) => *e,
                        None => {
                            let e = edge(b, t.clone());
                            seen.insert(t, e);
                            e
                        }
                    };
                    cases.push((k, e));
                }
                f.code.push(Inst::Switch { w: t.scalar_w()?, v: v[0], cases: cases.into(), def });
            }
            "phi" => {
                let t = self.ty(&mut c)?;
                let dst = ctx.reg(res.ok_or("no result")?, t.slots());
                let mut m = HashMap::new();
                loop {
                    c.expect(b'[')?;
                    let v = self.value(&mut c, &t, &mut Some(ctx))?;
                    c.expect(b',')?;
                    c.expect(b'%')?;
                    let n = c.name();
                    c.expect(b']')?;
                    m.insert(n, v);
                    if !c.eat(b',') {
                        break;
                    }
                    if c.peek() == b'!' {
                        break;
                    }
                }
                b.phis.last_mut().unwrap().push((dst, m));
            }
            "select" => {
                let (ct, cv) = self.typed(&mut c, &mut Some(ctx))?;
                c.expect(b',')?;
                let (t, a) = self.typed(&mut c, &mut Some(ctx))?;
                c.expect(b',')?;
                let (_, bb) = self.typed(&mut c, &mut Some(ctx))?;
                let dst = ctx.reg(res.ok_or("no result")?, t.slots());
                if a.len() == 1 {
                    f.code.push(Inst::Select { w: t.scalar_w()?, dst, c: cv[0], a: a[0], b: bb[0] });
                } else {
                    let cs: Vec<Opd> = if let Ty::Vector(..) = ct { cv } else { vec![cv[0]; a.len()] };
                    let ws = slot_widths(&t)?;
                    f.code.push(Inst::SelectN { ws: ws.into(), dst, c: cs.into(), a: a.into(), b: bb.into() });
                }
            }
            "extractvalue" => {
                let (t, v) = self.typed(&mut c, &mut Some(ctx))?;
                let (lo, et) = self.agg_index(&mut c, &t)?;
                let n = et.slots();
                let dst = ctx.reg(res.ok_or("no result")?, n);
                f.code.push(if n == 1 {
                    Inst::Mov { dst, a: v[lo as usize] }
                } else {
                    Inst::MovN { dst, a: v[lo as usize..(lo + n) as usize].into() }
                });
            }
            "insertvalue" => {
                let (t, mut v) = self.typed(&mut c, &mut Some(ctx))?;
                c.expect(b',')?;
                let (_, x) = self.typed(&mut c, &mut Some(ctx))?;
                let (lo, _) = self.agg_index(&mut c, &t)?;
                for (k, o) in x.iter().enumerate() {
                    v[lo as usize + k] = *o;
                }
                let dst = ctx.reg(res.ok_or("no result")?, t.slots());
                f.code.push(Inst::MovN { dst, a: v.into() });
            }
            "insertelement" => {
                let (t, mut v) = self.typed(&mut c, &mut Some(ctx))?;
                c.expect(b',')?;
                let (_, x) = self.typed(&mut c, &mut Some(ctx))?;
                c.expect(b',')?;
                let (_, ix) = self.typed(&mut c, &mut Some(ctx))?;
                match ix[0] {
                    Opd::C(k) => v[k as usize] = x[0],
                    _ => return Err("dynamic insertelement".into()),
                }
                let dst = ctx.reg(res.ok_or("no result")?, t.slots());
                f.code.push(Inst::MovN { dst, a: v.into() });
            }
            "extractelement" => {
                let (_, v) = self.typed(&mut c, &mut Some(ctx))?;
                c.expect(b',')?;
                let (_, ix) = self.typed(&mut c, &mut Some(ctx))?;
                let dst = ctx.reg(res.ok_or("no result")?, 1);
                match ix[0] {
                    Opd::C(k) => f.code.push(Inst::Mov { dst, a: v[k as usize] }),
                    _ => return Err("dynamic extractelement".into()),
                }
            }
            "shufflevector" => {
                let (t, v1) = self.typed(&mut c, &mut Some(ctx))?;
                c.expect(b',')?;
                let (_, v2) = self.typed(&mut c, &mut Some(ctx))?;
                c.expect(b',')?;
                let (mt, m) = self.typed(&mut c, &mut None)?;
                let _ = t;
                let mut out = vec![];
                for x in m.iter() {
                    match x {
                        Opd::C(k) => {
                            let k = *k as usize;
                            out.push(if k < v1.len() { v1[k] } else { v2[k - v1.len()] })
                        }
                        _ => return Err("shuffle mask".into()),
                    }
                }
                let dst = ctx.reg(res.ok_or("no result")?, mt.slots());
                f.code.push(Inst::MovN { dst, a: out.into() });
            }
            "ret" => {
                let t = self.ty(&mut c)?;
                if t == Ty::Void {
                    f.code.push(Inst::Ret(Box::new([])));
                } else {
                    let v = self.value(&mut c, &t, &mut Some(ctx))?;
                    f.code.push(Inst::Ret(v.into()));
                }
            }
            "unreachable" => f.code.push(Inst::Unreachable),
            "fence" => {}
            "landingpad" => {
                let t = self.ty(&mut c)?;
                ctx.reg(res.ok_or("no result")?, t.slots());
                f.code.push(Inst::Unsupported("landingpad".into()));
            }
            "resume" => f.code.push(Inst::Unsupported("resume".into())),
            "atomicrmw" => {
                while matches!(c.peek_word(), "volatile") {
                    c.word();
                }
                let ro = match c.word() {
                    "add" => RmwOp::Add,
                    "sub" => RmwOp::Sub,
                    "and" => RmwOp::And,
                    "or" => RmwOp::Or,
                    "xor" => RmwOp::Xor,
                    "xchg" => RmwOp::Xchg,
                    "umax" => RmwOp::UMax,
                    "umin" => RmwOp::UMin,
                    x => return Err(format!("atomicrmw {}", x)),
                };
                let (_, a) = self.typed(&mut c, &mut Some(ctx))?;
                c.expect(b',')?;
                let (t, v) = self.typed(&mut c, &mut Some(ctx))?;
                let dst = match res {
                    Some(r) => ctx.reg(r, 1),
                    None => {
                        let r = ctx.nregs;
                        ctx.nregs += 1;
                        r
                    }
                };
                f.code.push(Inst::Rmw { op: ro, w: t.scalar_w()?, dst, addr: a[0], v: v[0] });
            }
            "cmpxchg" => {
                while matches!(c.peek_word(), "volatile" | "weak") {
                    c.word();
                }
                let (_, a) = self.typed(&mut c, &mut Some(ctx))?;
                c.expect(b',')?;
                let (t, cmp) = self.typed(&mut c, &mut Some(ctx))?;
                c.expect(b',')?;
                let (_, new) = self.typed(&mut c, &mut Some(ctx))?;
                let dst = match res {
                    Some(r) => ctx.reg(r, 2),
                    None => {
                        let r = ctx.nregs;
                        ctx.nregs += 2;
                        r
                    }
                };
                f.code.push(Inst::CmpXchg { w: t.scalar_w()?, dst, addr: a[0], cmp: cmp[0], new: new[0] });
            }
            "call" | "invoke" => self.call(&mut c, res, op == "invoke", ctx, f, b, &mut edge)?,
            _ => return Err(format!("opcode {}", op)),
        }
        Ok(())
    }

    fn agg_index(&self, c: &mut Cur, t: &Ty) -> R<(u32, Ty)> {
        let mut cur = t.clone();
        let mut lo = 0u32;
        while c.peek() == b',' {
            let save = c.p;
            c.p += 1;
            if c.peek() == b'!' {
                c.p = save;
                break;
            }
            let i: usize = c.word().parse().map_err(|_| "agg index")?;
            match cur.clone() {
                Ty::Struct(fs, _) => {
                    lo += fs[..i].iter().map(|f| f.slots()).sum::<u32>();
                    cur = fs[i].clone();
                }
                Ty::Array(_, t) => {
                    lo += t.slots() * i as u32;
                    cur = (*t).clone();
                }
                _ => return Err("agg index".into()),
            }
        }
        Ok((lo, cur))
    }

    #[allow(clippy::too_many_arguments)]
    fn call(
        &self,
        c: &mut Cur,
        res: Option<String>,
        invoke: bool,
        ctx: &mut FnCtx,
        f: &mut Func,
        b: &mut FnBuild,
        edge: &mut dyn FnMut(&mut FnBuild, String) -> u32,
    ) -> R<()> {
        // calling convention, return attributes, type
        skip_attrs(c);
        let rt = self.ty(c)?;
        if c.peek() == b'(' {
            c.skip_parens(); // function type of a variadic callee
        }
        let mut name = None;
        let mut target = None;
        match c.peek() {
            b'@' => {
                c.p += 1;
                let n = c.name();
                target = Some(Opd::C(*self.gaddr.get(&n).ok_or(format!("callee {}", n))?));
                name = Some(n);
            }
            b'%' => {
                c.p += 1;
                let n = c.name();
                target = Some(Opd::R(ctx.reg(n, 1)));
            }
            _ => {
                if c.eat_word("asm") {
                    if l_contains(c, "asm sideeffect \"\"") || c.rest().contains("sideeffect \"\"") {
                        return Ok(()); // compiler barrier
                    }
                    return Err("inline asm".into());
                }
                // constant expression callee
                if let Opd::C(a) = self.value(c, &Ty::Ptr, &mut None)?[0] {
                    target = Some(Opd::C(a));
                }
            }
        }
        let dst = match res {
            Some(r) => ctx.reg(r, rt.slots()),
            None => {
                let r = ctx.nregs;
                ctx.nregs += rt.slots();
                r
            }
        };
        c.expect(b'(')?;
        let mut args: Vec<Opd> = vec![];
        let mut tys: Vec<Ty> = vec![];
        if name.as_deref().map(is_nop_intrinsic).unwrap_or(false) {
            return Ok(());
        }
        if !c.eat(b')') {
            loop {
                let t = self.ty(c)?;
                skip_attrs_value(c);
                if t == Ty::Metadata {
                    return Err("metadata argument".into());
                }
                let v = self.value(c, &t, &mut Some(ctx))?;
                args.extend(v);
                tys.push(t);
                if c.eat(b')') {
                    break;
                }
                c.expect(b',')?;
            }
        }
        if let Some(n) = name.as_deref() {
            if n.starts_with("llvm.") {
                let i = intrinsic(n).ok_or(format!("intrinsic {}", n))?;
                let (w, lanes) = match tys.first() {
                    Some(t) => (t.scalar_w().unwrap_or(64), t.slots() as u16),
                    None => (64, 1),
                };
                f.code.push(Inst::Intrinsic { i, w, lanes, dst, args: args.into() });
                if invoke {
                    self.invoke_tail(c, f, b, edge)?;
                }
                return Ok(());
            }
        }
        let callee = match target {
            Some(Opd::C(a)) => Callee::Func(((a >> 32) as u32).wrapping_sub(16)),
            Some(o) => Callee::Ptr(o),
            None => return Err("callee".into()),
        };
        f.code.push(Inst::Call { callee, dst, nret: rt.slots() as u16, args: args.into() });
        if invoke {
            self.invoke_tail(c, f, b, edge)?;
        }
        Ok(())
    }

    fn invoke_tail(&self, c: &mut Cur, f: &mut Func, b: &mut FnBuild, edge: &mut dyn FnMut(&mut FnBuild, String) -> u32) -> R<()> {
        let s = String::from_utf8_lossy(&c.s[c.p..]).into_owned();
        let k = s.find(" to label %").ok_or("invoke without normal label")?;
        c.p += k + 4;
        let t = self.label(c)?;
        let e = edge(b, t);
        f.code.push(Inst::Br(e));
        Ok(())
    }
}

fn l_contains(c: &Cur, s: &str) -> bool {
    String::from_utf8_lossy(c.s).contains(s)
}

fn slot_widths(t: &Ty) -> R<Vec<u8>> {
    Ok(match t {
        Ty::Vector(n, t) => vec![t.scalar_w()?; *n as usize],
        Ty::Array(n, t) => {
            let w = slot_widths(t)?;
            let mut v = vec![];
            for _ in 0..*n {
                v.extend(w.iter());
            }
            v
        }
        Ty::Struct(fs, _) => {
            let mut v = vec![];
            for x in fs.iter() {
                v.extend(slot_widths(x)?);
            }
            v
        }
        t => vec![t.scalar_w()?],
    })
}

fn is_nop_intrinsic(n: &str) -> bool {
    n.starts_with("llvm.lifetime.")
        || n.starts_with("llvm.experimental.noalias")
        || n.starts_with("llvm.dbg.")
        || n.starts_with("llvm.assume")
        || n.starts_with("llvm.x86.sse2.pause")
        || n.starts_with("llvm.prefetch")
}

fn intrinsic(n: &str) -> Option<Intr> {
    let s = &n[5..];
    let t: &[(&str, Intr)] = &[
        ("memcpy.", Intr::Memcpy),
        ("memmove.", Intr::Memcpy),
        ("memset.", Intr::Memset),
        ("uadd.with.overflow.", Intr::UAddO),
        ("usub.with.overflow.", Intr::USubO),
        ("umul.with.overflow.", Intr::UMulO),
        ("sadd.with.overflow.", Intr::SAddO),
        ("ssub.with.overflow.", Intr::SSubO),
        ("smul.with.overflow.", Intr::SMulO),
        ("uadd.sat.", Intr::UAddSat),
        ("usub.sat.", Intr::USubSat),
        ("umax.", Intr::UMax),
        ("umin.", Intr::UMin),
        ("smax.", Intr::SMax),
        ("smin.", Intr::SMin),
        ("ctlz.", Intr::Ctlz),
        ("cttz.", Intr::Cttz),
        ("ctpop.", Intr::Ctpop),
        ("fshl.", Intr::Fshl),
        ("fshr.", Intr::Fshr),
        ("abs.", Intr::Abs),
        ("ucmp.", Intr::Ucmp),
        ("scmp.", Intr::Scmp),
        ("bswap.", Intr::Bswap),
        ("bitreverse.", Intr::BitReverse),
        ("threadlocal.address", Intr::Ident),
        ("expect.", Intr::Ident),
        ("launder.invariant", Intr::Ident),
        ("trap", Intr::Trap),
        ("vector.reduce.or.", Intr::VecReduceOr),
        ("vector.reduce.and.", Intr::VecReduceAnd),
        ("vector.reduce.add.", Intr::VecReduceAdd),
    ];
    t.iter().find(|(p, _)| s.starts_with(p)).map(|x| x.1)
}
