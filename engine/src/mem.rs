//! Copy-on-write memory: address = object id << 32 | offset.

use crate::expr::*;
use std::rc::Rc;

pub const NOSYM: u32 = u32::MAX;
const CH: usize = 64;

#[derive(Clone)]
pub struct Obj {
    pub bytes: Vec<u8>,
    /// 8-bit expression per byte (NOSYM = concrete)
    pub sym: Option<Vec<u32>>,
    pub ro: bool,
}

#[derive(Clone)]
struct Chunk {
    o: [Option<Rc<Obj>>; CH],
}

#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Rc<Chunk>>,
    pub next: u32,
}

#[derive(Debug, Clone)]
pub enum Fault {
    Bad(u64, u32, &'static str),
}

const NONE: Option<Rc<Obj>> = None;

impl Mem {
    pub fn new(next: u32) -> Self {
        Mem { chunks: vec![], next }
    }
    pub fn put(&mut self, id: u32, o: Rc<Obj>) {
        let c = id as usize / CH;
        if c >= self.chunks.len() {
            let e = Rc::new(Chunk { o: [NONE; CH] });
            self.chunks.resize(c + 1, e);
        }
        Rc::make_mut(&mut self.chunks[c]).o[id as usize % CH] = Some(o);
    }
    pub fn drop_obj(&mut self, id: u32) {
        let c = id as usize / CH;
        if c < self.chunks.len() {
            Rc::make_mut(&mut self.chunks[c]).o[id as usize % CH] = None;
        }
    }
    pub fn alloc(&mut self, size: usize) -> u64 {
        let id = self.next;
        self.next += 1;
        self.put(id, Rc::new(Obj { bytes: vec![0; size], sym: None, ro: false }));
        (id as u64) << 32
    }
    #[inline]
    pub fn get(&self, id: u32) -> Option<&Obj> {
        self.chunks.get(id as usize / CH)?.o[id as usize % CH].as_deref()
    }
    #[inline]
    pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        let c = self.chunks.get_mut(id as usize / CH)?;
        // avoid cloning the chunk when the object does not exist
        if c.o[id as usize % CH].is_none() {
            return None;
        }
        let c = Rc::make_mut(c);
        c.o[id as usize % CH].as_mut().map(Rc::make_mut)
    }
    #[inline]
    pub fn load(&self, ar: &mut Arena, addr: u64, w: u8) -> Result<V, Fault> {
        let nb = (w as usize + 7) / 8;
        let off = addr as u32 as usize;
        let o = match self.get((addr >> 32) as u32) {
            Some(o) => o,
            None => return Err(Fault::Bad(addr, nb as u32, "load: no such object")),
        };
        if off + nb > o.bytes.len() {
            return Err(Fault::Bad(addr, nb as u32, "load: out of bounds"));
        }
        if let Some(s) = &o.sym {
            if s[off..off + nb].iter().any(|x| *x != NOSYM) {
                let mut v = byte(o, s, off);
                for k in 1..nb {
                    let h = byte(o, s, off + k);
                    v = ar.concat(h, 8, v, 8 * k as u8);
                }
                if w % 8 != 0 {
                    v = ar.extract(v, nb as u8 * 8, 0, w);
                }
                return Ok(v);
            }
        }
        let b = &o.bytes[off..off + nb];
        let v = match nb {
            1 => b[0] as u64,
            2 => u16::from_le_bytes([b[0], b[1]]) as u64,
            4 => u32::from_le_bytes([b[0], b[1], b[2], b[3]]) as u64,
            8 => u64::from_le_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]]),
            _ => {
                let mut v = 0u64;
                for k in 0..nb {
                    v |= (b[k] as u64) << (8 * k);
                }
                v
            }
        };
        Ok(V::C(v & crate::parse::mask(w as u32)))
    }
    #[inline]
    pub fn store(&mut self, ar: &mut Arena, addr: u64, w: u8, v: V) -> Result<(), Fault> {
        let nb = (w as usize + 7) / 8;
        let off = addr as u32 as usize;
        let o = match self.get_mut((addr >> 32) as u32) {
            Some(o) => o,
            None => return Err(Fault::Bad(addr, nb as u32, "store: no such object")),
        };
        if off + nb > o.bytes.len() {
            return Err(Fault::Bad(addr, nb as u32, "store: out of bounds"));
        }
        if o.ro {
            return Err(Fault::Bad(addr, nb as u32, "store: read-only object"));
        }
        match v {
            V::C(x) => {
                let d = &mut o.bytes[off..off + nb];
                match nb {
                    8 => d.copy_from_slice(&x.to_le_bytes()),
                    4 => d.copy_from_slice(&(x as u32).to_le_bytes()),
                    1 => d[0] = x as u8,
                    _ => {
                        for k in 0..nb {
                            d[k] = (x >> (8 * k)) as u8;
                        }
                    }
                }
                if let Some(s) = &mut o.sym {
                    for k in 0..nb {
                        s[off + k] = NOSYM;
                    }
                }
            }
            V::S(_) => {
                let n = o.bytes.len();
                let s = o.sym.get_or_insert_with(|| vec![NOSYM; n]);
                let (v, vw) = if w % 8 != 0 { (ar.zext(v, w, nb as u8 * 8), nb as u8 * 8) } else { (v, w) };
                for k in 0..nb {
                    match ar.extract(v, vw, 8 * k as u8, 8) {
                        V::C(x) => {
                            o.bytes[off + k] = x as u8;
                            s[off + k] = NOSYM;
                        }
                        V::S(e) => {
                            s[off + k] = e;
                        }
                    }
                }
            }
        }
        Ok(())
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: usize) -> Result<(), Fault> {
        if n == 0 {
            return Ok(());
        }
        let so = src as u32 as usize;
        let dof = dst as u32 as usize;
        let (sid, did) = ((src >> 32) as u32, (dst >> 32) as u32);
        let s = self.get(sid).ok_or(Fault::Bad(src, n as u32, "memcpy: no such source"))?;
        if so + n > s.bytes.len() {
            return Err(Fault::Bad(src, n as u32, "memcpy: source out of bounds"));
        }
        if sid == did {
            let d = self.get_mut(did).unwrap();
            if d.ro || dof + n > d.bytes.len() {
                return Err(Fault::Bad(dst, n as u32, "memcpy: destination out of bounds"));
            }
            d.bytes.copy_within(so..so + n, dof);
            if let Some(x) = &mut d.sym {
                x.copy_within(so..so + n, dof);
            }
            return Ok(());
        }
        let srcrc = self.chunks[sid as usize / CH].o[sid as usize % CH].clone().unwrap();
        let d = self.get_mut(did).ok_or(Fault::Bad(dst, n as u32, "memcpy: no such destination"))?;
        if d.ro || dof + n > d.bytes.len() {
            return Err(Fault::Bad(dst, n as u32, "memcpy: destination out of bounds"));
        }
        d.bytes[dof..dof + n].copy_from_slice(&srcrc.bytes[so..so + n]);
        match &srcrc.sym {
            Some(x) if x[so..so + n].iter().any(|e| *e != NOSYM) => {
                let len = d.bytes.len();
                let y = d.sym.get_or_insert_with(|| vec![NOSYM; len]);
                y[dof..dof + n].copy_from_slice(&x[so..so + n]);
            }
            _ => {
                if let Some(y) = &mut d.sym {
                    for e in &mut y[dof..dof + n] {
                        *e = NOSYM;
                    }
                }
            }
        }
        Ok(())
    }
    pub fn read_vals(&self, addr: u64, n: usize) -> Result<Vec<V>, Fault> {
        if n == 0 {
            return Ok(vec![]);
        }
        let off = addr as u32 as usize;
        let o = self.get((addr >> 32) as u32).ok_or(Fault::Bad(addr, n as u32, "read: no such object"))?;
        if off + n > o.bytes.len() {
            return Err(Fault::Bad(addr, n as u32, "read: out of bounds"));
        }
        Ok((off..off + n)
            .map(|i| match &o.sym {
                Some(s) => byte(o, s, i),
                None => V::C(o.bytes[i] as u64),
            })
            .collect())
    }
}

#[inline]
fn byte(o: &Obj, s: &[u32], i: usize) -> V {
    if s[i] == NOSYM {
        V::C(o.bytes[i] as u64)
    } else {
        V::S(s[i])
    }
}
