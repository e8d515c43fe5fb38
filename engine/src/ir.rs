//! In-memory form of the LLVM IR that the executor runs.
//!
//! Every SSA value is flattened into consecutive scalar *slots* (an aggregate or a vector occupies
//! one slot per leaf), so the executor only ever sees scalars of at most 64 bits.

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Opd {
    R(u32),
    C(u64),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp {
    ZExt,
    SExt,
    Trunc,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Func(u32),
    Ptr(Opd),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum RmwOp {
    Add,
    Sub,
    And,
    Or,
    Xor,
    Xchg,
    UMax,
    UMin,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Intr {
    Memcpy,
    Memset,
    Nop,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    UAddSat,
    USubSat,
    UMax,
    UMin,
    SMax,
    SMin,
    Ctlz,
    Cttz,
    Ctpop,
    Fshl,
    Fshr,
    Abs,
    Ucmp,
    Scmp,
    Bswap,
    BitReverse,
    Assume,
    Ident,
    Trap,
    VecReduceOr,
    VecReduceAnd,
    VecReduceAdd,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: BinOp, w: u8, dst: u32, a: Opd, b: Opd },
    VBin { op: BinOp, w: u8, dst: u32, a: Box<[Opd]>, b: Box<[Opd]> },
    Icmp { p: Pred, w: u8, dst: u32, a: Opd, b: Opd },
    VIcmp { p: Pred, w: u8, dst: u32, a: Box<[Opd]>, b: Box<[Opd]> },
    Cast { op: CastOp, fw: u8, tw: u8, dst: u32, a: Opd },
    VCast { op: CastOp, fw: u8, tw: u8, dst: u32, a: Box<[Opd]> },
    Mov { dst: u32, a: Opd },
    MovN { dst: u32, a: Box<[Opd]> },
    Select { w: u8, dst: u32, c: Opd, a: Opd, b: Opd },
    /// conds has one entry per slot
    SelectN { ws: Box<[u8]>, dst: u32, c: Box<[Opd]>, a: Box<[Opd]>, b: Box<[Opd]> },
    Load { w: u8, dst: u32, addr: Opd },
    LoadN { dst: u32, addr: Opd, parts: Box<[(u32, u8)]> },
    Store { w: u8, v: Opd, addr: Opd },
    StoreN { v: Box<[Opd]>, addr: Opd, parts: Box<[(u32, u8)]> },
    GepC { dst: u32, base: Opd, off: u64 },
    Gep { dst: u32, base: Opd, off: u64, terms: Box<[(Opd, u8, u64)]> },
    Alloca { dst: u32, off: u32 },
    Br(u32),
    CBr { c: Opd, t: u32, f: u32 },
    Switch { w: u8, v: Opd, cases: Box<[(u64, u32)]>, def: u32 },
    Call { callee: Callee, dst: u32, nret: u16, args: Box<[Opd]> },
    Intrinsic { i: Intr, w: u8, lanes: u16, dst: u32, args: Box<[Opd]> },
    Ret(Box<[Opd]>),
    Rmw { op: RmwOp, w: u8, dst: u32, addr: Opd, v: Opd },
    CmpXchg { w: u8, dst: u32, addr: Opd, cmp: Opd, new: Opd },
    Bitcast { fw: u8, tw: u8, dst: u32, a: Box<[Opd]>, n: u16 },
    Unreachable,
    Unsupported(Box<str>),
}

#[derive(Clone, Debug, Default)]
pub struct Edge {
    pub target: u32,
    pub copies: Box<[(u32, Opd)]>,
    /// copies can be performed in order without a temporary
    pub seq: bool,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub defined: bool,
    pub code: Vec<Inst>,
    pub edges: Vec<Edge>,
    pub nregs: u32,
    pub nparams: u32,
    pub stack: u32,
    pub addr: u64,
}

#[derive(Debug)]
pub struct Global {
    pub name: String,
    pub bytes: Vec<u8>,
    pub constant: bool,
    pub addr: u64,
}

pub struct Module {
    pub funcs: Vec<Func>,
    pub globals: Vec<Global>,
    /// object id of the first function / first global
    pub func_base: u32,
    pub glob_base: u32,
    pub first_free: u32,
}

impl Module {
    pub fn func_by_name(&self, n: &str) -> Option<u32> {
        self.funcs.iter().position(|f| f.name == n).map(|x| x as u32)
    }
    pub fn func_at(&self, addr: u64) -> Option<u32> {
        let id = (addr >> 32) as u32;
        if addr & 0xffff_ffff != 0 {
            return None;
        }
        if id >= self.func_base && id < self.func_base + self.funcs.len() as u32 {
            Some(id - self.func_base)
        } else {
            None
        }
    }
}
