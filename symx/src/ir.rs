//! Parser for the textual LLVM IR that rustc emits for the harness crate (whole program, after LTO).
//! Globals and function headers are parsed at load time, function bodies on first use.
use std::collections::HashMap;
use std::sync::{Arc, OnceLock};

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float,
    Double,
    Vec(u32, Box<Ty>),
    Arr(u64, Box<Ty>),
    Struct(bool, Vec<Ty>),
    Opaque,
}

impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float => 32,
            Ty::Double => 64,
            _ => panic!("bits of {self:?}"),
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::Float | Ty::Double)
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = (*w as u64).div_ceil(8).next_power_of_two();
                b.min(16)
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Vec(..) => self.size().next_power_of_two().min(64),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(true, _) => 1,
            Ty::Struct(false, ts) => ts.iter().map(|t| t.align()).max().unwrap_or(1),
            _ => 1,
        }
    }
    /// store size
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64).div_ceil(8),
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64).div_ceil(8),
            _ => self.size(),
        }
    }
    /// alloc size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let s = (*w as u64).div_ceil(8);
                let a = self.align();
                s.div_ceil(a) * a
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64).div_ceil(8),
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(..) => {
                let (_, s) = self.layout();
                s
            }
            _ => 0,
        }
    }
    pub fn layout(&self) -> (Vec<u64>, u64) {
        match self {
            Ty::Struct(packed, ts) => {
                let mut off = 0u64;
                let mut offs = vec![];
                for t in ts {
                    if !*packed {
                        let a = t.align();
                        off = off.div_ceil(a) * a;
                    }
                    offs.push(off);
                    off += t.size();
                }
                if !*packed {
                    let a = self.align();
                    off = off.div_ceil(a) * a;
                }
                (offs, off)
            }
            Ty::Arr(n, t) => {
                let s = t.size();
                ((0..*n).map(|i| i * s).collect(), n * s)
            }
            Ty::Vec(n, t) => {
                let s = (t.bits() as u64) / 8;
                ((0..*n as u64).map(|i| i * s).collect(), self.size())
            }
            _ => panic!(),
        }
    }
    pub fn elem(&self, i: usize) -> &Ty {
        match self {
            Ty::Struct(_, ts) => &ts[i],
            Ty::Arr(_, t) | Ty::Vec(_, t) => t,
            _ => panic!("elem of {self:?}"),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Struct(_, ts) => ts.len(),
            Ty::Arr(n, _) => *n as usize,
            Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    /// constant of at most 64 bits
    C(u64),
    /// wide constant (value, width)
    W(u128, u32),
    /// aggregate constant
    A(Vec<Op>),
    Undef,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum B {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum P {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK {
    ZExt,
    SExt,
    Trunc,
    Bit,
    UIToFP,
    SIToFP,
    FPToUI,
    FPToSI,
    FPExt,
    FPTrunc,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(usize),
    Indirect(Op),
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(B, Ty, u32, Op, Op),
    FBin(char, Ty, u32, Op, Op),
    Cmp(P, Ty, u32, Op, Op),
    FCmp(String, Ty, u32, Op, Op),
    FNeg(Ty, u32, Op),
    Select { cty: Ty, ty: Ty, dst: u32, c: Op, a: Op, b: Op },
    Load { dst: u32, ty: Ty, ptr: Op },
    Store { ty: Ty, val: Op, ptr: Op },
    Gep { dst: u32, base: Op, off: i64, idx: Vec<(Op, i64, u32)> },
    Cast(CastK, Ty, Ty, u32, Op),
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(u32, Op, u32, Vec<(u64, u32)>),
    Ret(Option<(Ty, Op)>),
    Unreachable,
    Call { dst: Option<u32>, rty: Ty, callee: Callee, args: Vec<(Ty, Op)>, next: Option<u32> },
    Alloca { dst: u32, size: u64, align: u64 },
    ExtractValue(u32, Op, Vec<u32>),
    InsertValue(u32, Ty, Op, Op, Vec<u32>),
    ExtractElement(u32, Op, Op),
    InsertElement(u32, Ty, Op, Op, Op),
    Shuffle(u32, Ty, Op, Op, Vec<Option<u32>>),
    AtomicRmw { dst: u32, op: String, ty: Ty, ptr: Op, val: Op },
    CmpXchg { dst: u32, ty: Ty, ptr: Op, cmp: Op, new: Op },
    Copy(u32, Ty, Op),
    Nop,
    Unsupported(String),
}

#[derive(Debug)]
pub struct Block {
    pub name: String,
    pub phis: Vec<(u32, Ty, Vec<(u32, Op)>)>,
    pub insts: Vec<I>,
    pub dbg: Vec<u32>,
}
#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub nparams: usize,
    pub nregs: usize,
    pub blocks: Vec<Block>,
    pub id: usize,
}

pub struct FuncDecl {
    pub name: String,
    pub body: (usize, usize), // byte range in text, header line included; empty if declaration only
    pub parsed: OnceLock<Arc<Func>>,
    pub addr: u64,
}
pub struct Global {
    pub name: String,
    pub addr: u64,
    pub size: u64,
    pub ty: Ty,
    pub init: Option<(usize, usize)>, // text range of the initializer
    pub constant: bool,
}

pub struct Module {
    pub text: String,
    pub types: HashMap<String, Ty>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<String, usize>,
    pub funcs: Vec<FuncDecl>,
    pub fidx: HashMap<String, usize>,
    pub faddr: HashMap<u64, usize>,
    pub aliases: HashMap<String, String>,
    pub meta: HashMap<u32, (usize, usize)>,
}

pub const FUNC_BASE: u64 = 0x0010_0000;
pub const GLOBAL_BASE: u64 = 0x1000_0000;

struct Cur<'a> {
    s: &'a [u8],
    i: usize,
}
type R<T> = Result<T, String>;

impl<'a> Cur<'a> {
    fn new(s: &'a str) -> Self {
        Cur { s: s.as_bytes(), i: 0 }
    }
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t' || self.s[self.i] == b'\n') {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(t.as_bytes()) {
            // word boundary check for identifiers
            let e = self.i + t.len();
            let last = t.as_bytes()[t.len() - 1];
            if (last.is_ascii_alphanumeric() || last == b'_')
                && e < self.s.len()
                && (self.s[e].is_ascii_alphanumeric() || self.s[e] == b'_' || self.s[e] == b'.')
            {
                return false;
            }
            self.i = e;
            return true;
        }
        false
    }
    fn expect(&mut self, t: &str) -> R<()> {
        if self.eat(t) {
            Ok(())
        } else {
            Err(format!("expected `{t}` at `{}`", self.rest(60)))
        }
    }
    fn rest(&self, n: usize) -> String {
        String::from_utf8_lossy(&self.s[self.i..(self.i + n).min(self.s.len())]).to_string()
    }
    fn word(&mut self) -> String {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() {
            let c = self.s[self.i];
            if c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'$' {
                self.i += 1
            } else {
                break;
            }
        }
        String::from_utf8_lossy(&self.s[st..self.i]).to_string()
    }
    fn peek_word(&mut self) -> String {
        let s = self.i;
        let w = self.word();
        self.i = s;
        w
    }
    fn name(&mut self) -> String {
        // after % or @
        if self.s[self.i] == b'"' {
            self.i += 1;
            let st = self.i;
            while self.s[self.i] != b'"' {
                self.i += 1;
            }
            let r = String::from_utf8_lossy(&self.s[st..self.i]).to_string();
            self.i += 1;
            r
        } else {
            let st = self.i;
            while self.i < self.s.len() {
                let c = self.s[self.i];
                if c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'$' {
                    self.i += 1
                } else {
                    break;
                }
            }
            String::from_utf8_lossy(&self.s[st..self.i]).to_string()
        }
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        let mut q = false;
        while self.i < self.s.len() {
            let c = self.s[self.i];
            if c == b'"' {
                q = !q;
            }
            if !q {
                if c == b'(' {
                    d += 1
                }
                if c == b')' {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
            }
            self.i += 1;
        }
    }
    fn num(&mut self) -> R<i128> {
        self.ws();
        let st = self.i;
        if self.s[self.i] == b'-' {
            self.i += 1;
        }
        while self.i < self.s.len() && self.s[self.i].is_ascii_digit() {
            self.i += 1;
        }
        let t = std::str::from_utf8(&self.s[st..self.i]).unwrap();
        if let Ok(v) = t.parse::<i128>() {
            return Ok(v);
        }
        t.parse::<u128>().map(|v| v as i128).map_err(|e| format!("num `{t}`: {e}"))
    }
}

const CONST_WORDS: &[&str] = &[
    "true", "false", "null", "undef", "poison", "zeroinitializer", "none", "splat", "getelementptr", "ptrtoint",
    "inttoptr", "bitcast", "add", "sub", "trunc", "zext", "c", "asm", "and", "or", "xor", "mul", "shl", "lshr",
    "ptrtoaddr",
];

impl Module {
    pub fn load(text: String) -> R<Module> {
        let mut m = Module {
            text: String::new(),
            types: HashMap::new(),
            globals: vec![],
            gidx: HashMap::new(),
            funcs: vec![],
            fidx: HashMap::new(),
            faddr: HashMap::new(),
            aliases: HashMap::new(),
            meta: HashMap::new(),
        };
        let mut pos = 0;
        let bytes = text.as_bytes();
        let mut gl: Vec<(usize, usize)> = vec![];
        while pos < bytes.len() {
            let e = text[pos..].find('\n').map(|x| pos + x).unwrap_or(bytes.len());
            let line = &text[pos..e];
            if line.starts_with("define ") || line.starts_with("declare ") {
                let at = line.find('@').unwrap();
                let mut c = Cur::new(line);
                c.i = at + 1;
                let name = c.name();
                let range = if line.starts_with("define ") {
                    let end = text[pos..].find("\n}").map(|x| pos + x + 1).unwrap();
                    (pos, end)
                } else {
                    (0, 0)
                };
                let id = m.funcs.len();
                let addr = FUNC_BASE + 16 * id as u64;
                m.faddr.insert(addr, id);
                m.fidx.insert(name.clone(), id);
                m.funcs.push(FuncDecl { name, body: range, parsed: OnceLock::new(), addr });
                if range.1 > 0 {
                    pos = range.1 + 2;
                    continue;
                }
            } else if line.starts_with('@') {
                gl.push((pos, e));
            } else if line.starts_with('%') {
                let mut c = Cur::new(line);
                c.i = 1;
                let n = c.name();
                c.expect("=")?;
                c.expect("type")?;
                if c.eat("opaque") {
                    m.types.insert(n, Ty::Opaque);
                } else {
                    let t = m.ty(&mut c)?;
                    m.types.insert(n, t);
                }
            } else if line.starts_with('!') && line.as_bytes().get(1).is_some_and(|c| c.is_ascii_digit()) {
                if let Some(eq) = line.find(" = ") {
                    if let Ok(n) = line[1..eq].parse::<u32>() {
                        m.meta.insert(n, (pos + eq + 3, e));
                    }
                }
            }
            pos = e + 1;
        }
        let mut addr = GLOBAL_BASE;
        for (s, e) in gl {
            let line = &text[s..e];
            let mut c = Cur::new(line);
            c.i = 1;
            let name = c.name();
            c.expect("=")?;
            let mut constant = false;
            let mut ext = false;
            let mut alias = false;
            loop {
                let w = c.peek_word();
                match w.as_str() {
                    "constant" => {
                        constant = true;
                        c.word();
                        break;
                    }
                    "global" => {
                        c.word();
                        break;
                    }
                    "alias" => {
                        alias = true;
                        c.word();
                        break;
                    }
                    "external" | "extern_weak" => {
                        ext = true;
                        c.word();
                    }
                    "" => return Err(format!("global? {}", &line[..line.len().min(200)])),
                    _ => {
                        c.word();
                        if c.peek() == b'(' {
                            c.skip_parens();
                        }
                    }
                }
            }
            if alias {
                let _t = m.ty(&mut c)?;
                c.ws();
                if c.peek() == b'(' {
                    c.skip_parens(); // function type
                }
                c.expect(",")?;
                c.expect("ptr")?;
                c.expect("@")?;
                let tgt = c.name();
                m.aliases.insert(name, tgt);
                continue;
            }
            let ty = m.ty(&mut c)?;
            let size = ty.size();
            let al = {
                // explicit alignment
                if let Some(p) = line.rfind(", align ") {
                    let d: String = line[p + 8..].chars().take_while(|c| c.is_ascii_digit()).collect();
                    d.parse::<u64>().unwrap_or(16).max(ty.align())
                } else {
                    ty.align()
                }
            };
            addr = addr.div_ceil(al.max(1)) * al.max(1);
            let init = if ext { None } else { c.ws(); Some((s + c.i, e)) };
            m.gidx.insert(name.clone(), m.globals.len());
            m.globals.push(Global { name, addr, size, ty, init, constant });
            addr += size.max(1) + 16;
        }
        m.text = text;
        Ok(m)
    }

    fn ty(&self, c: &mut Cur) -> R<Ty> {
        let t = match c.peek() {
            b'i' => {
                c.i += 1;
                let n = c.num()?;
                Ty::Int(n as u32)
            }
            b'p' => {
                c.expect("ptr")?;
                if c.eat("addrspace") {
                    c.ws();
                    c.skip_parens();
                }
                Ty::Ptr
            }
            b'v' => {
                c.expect("void")?;
                Ty::Void
            }
            b'f' => {
                c.expect("float")?;
                Ty::Float
            }
            b'd' => {
                c.expect("double")?;
                Ty::Double
            }
            b't' => {
                c.expect("token")?;
                Ty::Opaque
            }
            b'l' => {
                c.expect("label")?;
                Ty::Opaque
            }
            b'm' => {
                c.expect("metadata")?;
                Ty::Opaque
            }
            b'[' => {
                c.i += 1;
                let n = c.num()?;
                c.expect("x")?;
                let t = self.ty(c)?;
                c.expect("]")?;
                Ty::Arr(n as u64, Box::new(t))
            }
            b'{' => {
                c.i += 1;
                let mut v = vec![];
                if !c.eat("}") {
                    loop {
                        v.push(self.ty(c)?);
                        if c.eat("}") {
                            break;
                        }
                        c.expect(",")?;
                    }
                }
                Ty::Struct(false, v)
            }
            b'<' => {
                c.i += 1;
                if c.peek() == b'{' {
                    c.i += 1;
                    let mut v = vec![];
                    if !c.eat("}") {
                        loop {
                            v.push(self.ty(c)?);
                            if c.eat("}") {
                                break;
                            }
                            c.expect(",")?;
                        }
                    }
                    c.expect(">")?;
                    Ty::Struct(true, v)
                } else {
                    let n = c.num()?;
                    c.expect("x")?;
                    let t = self.ty(c)?;
                    c.expect(">")?;
                    Ty::Vec(n as u32, Box::new(t))
                }
            }
            b'%' => {
                c.i += 1;
                let n = c.name();
                self.types.get(&n).cloned().ok_or(format!("type {n}"))?
            }
            _ => return Err(format!("type at `{}`", c.rest(60))),
        };
        Ok(t)
    }

    pub fn resolve(&self, n: &str) -> R<u64> {
        let n = self.aliases.get(n).map(|s| s.as_str()).unwrap_or(n);
        if let Some(&g) = self.gidx.get(n) {
            return Ok(self.globals[g].addr);
        }
        if let Some(&f) = self.fidx.get(n) {
            return Ok(self.funcs[f].addr);
        }
        Err(format!("unknown symbol @{n}"))
    }

    fn skip_attrs(&self, c: &mut Cur) {
        loop {
            let b = c.peek();
            if b == b'"' {
                // string attribute "k"="v"
                c.i += 1;
                while c.s[c.i] != b'"' {
                    c.i += 1;
                }
                c.i += 1;
                if c.i < c.s.len() && c.s[c.i] == b'=' {
                    c.i += 2;
                    while c.s[c.i] != b'"' {
                        c.i += 1;
                    }
                    c.i += 1;
                }
                continue;
            }
            if !b.is_ascii_alphabetic() {
                return;
            }
            let w = c.peek_word();
            if CONST_WORDS.contains(&w.as_str()) {
                return;
            }
            c.word();
            if w == "align" {
                c.ws();
                if c.peek().is_ascii_digit() {
                    let _ = c.num();
                    continue;
                }
            }
            if c.i < c.s.len() && c.s[c.i] == b'(' {
                c.skip_parens();
            }
        }
    }

    /// operand of known type
    fn opnd(&self, c: &mut Cur, ty: &Ty, regs: &mut Regs) -> R<Op> {
        let b = c.peek();
        match b {
            b'%' => {
                c.i += 1;
                let n = c.name();
                Ok(Op::R(regs.get(&n)))
            }
            b'@' => {
                c.i += 1;
                let n = c.name();
                Ok(Op::C(self.resolve(&n)?))
            }
            b'0'..=b'9' | b'-' => {
                if matches!(ty, Ty::Float | Ty::Double) {
                    if c.s[c.i..].starts_with(b"0x") {
                        c.i += 2;
                        let st = c.i;
                        while c.s[c.i].is_ascii_hexdigit() {
                            c.i += 1;
                        }
                        let v = u64::from_str_radix(std::str::from_utf8(&c.s[st..c.i]).unwrap(), 16)
                            .map_err(|e| e.to_string())?;
                        return Ok(Op::C(if *ty == Ty::Float { (f64::from_bits(v) as f32).to_bits() as u64 } else { v }));
                    }
                    let st = c.i;
                    while c.i < c.s.len() && (c.s[c.i].is_ascii_alphanumeric() || b"+-.".contains(&c.s[c.i])) {
                        c.i += 1;
                    }
                    let v: f64 = std::str::from_utf8(&c.s[st..c.i]).unwrap().parse().map_err(|e| format!("{e}"))?;
                    return Ok(Op::C(if *ty == Ty::Float { (v as f32).to_bits() as u64 } else { v.to_bits() }));
                }
                let n = c.num()?;
                let w = ty.bits();
                if w <= 64 {
                    let mask = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
                    Ok(Op::C(n as u64 & mask))
                } else {
                    let mask = if w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
                    Ok(Op::W(n as u128 & mask, w))
                }
            }
            b'{' | b'[' | b'<' => {
                // aggregate constant; <{ }> for packed
                let packed = c.s[c.i..].starts_with(b"<{");
                let close = match b {
                    b'{' => "}",
                    b'[' => "]",
                    _ => {
                        if packed {
                            "}"
                        } else {
                            ">"
                        }
                    }
                };
                c.i += if packed { 2 } else { 1 };
                let mut v = vec![];
                if !c.eat(close) {
                    loop {
                        let t = self.ty(c)?;
                        v.push(self.opnd(c, &t, regs)?);
                        if c.eat(close) {
                            break;
                        }
                        c.expect(",")?;
                    }
                }
                if packed {
                    c.expect(">")?;
                }
                Ok(Op::A(v))
            }
            _ => {
                if c.s[c.i..].starts_with(b"c\"") {
                    c.i += 2;
                    let mut v = vec![];
                    while c.s[c.i] != b'"' {
                        if c.s[c.i..].starts_with(b"\\\\") {
                            v.push(Op::C(b'\\' as u64));
                            c.i += 2;
                        } else if c.s[c.i] == b'\\' {
                            let h = std::str::from_utf8(&c.s[c.i + 1..c.i + 3]).unwrap();
                            v.push(Op::C(u64::from_str_radix(h, 16).map_err(|e| e.to_string())?));
                            c.i += 3;
                        } else {
                            v.push(Op::C(c.s[c.i] as u64));
                            c.i += 1;
                        }
                    }
                    c.i += 1;
                    return Ok(Op::A(v));
                }
                let w = c.word();
                match w.as_str() {
                    "true" => Ok(Op::C(1)),
                    "false" | "null" | "none" => Ok(Op::C(0)),
                    "undef" | "poison" => Ok(self.zero(ty)),
                    "zeroinitializer" => Ok(self.zero(ty)),
                    "splat" => {
                        c.expect("(")?;
                        let t = self.ty(c)?;
                        let o = self.opnd(c, &t, regs)?;
                        c.expect(")")?;
                        Ok(Op::A(vec![o; ty.count()]))
                    }
                    "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "ptrtoaddr" => {
                        c.expect("(")?;
                        let t = self.ty(c)?;
                        let o = self.opnd(c, &t, regs)?;
                        c.expect("to")?;
                        let t2 = self.ty(c)?;
                        c.expect(")")?;
                        match o {
                            Op::C(v) => {
                                let w = t2.bits();
                                Ok(Op::C(if w >= 64 { v } else { v & ((1u64 << w) - 1) }))
                            }
                            o => Ok(o),
                        }
                    }
                    "add" | "sub" | "and" | "or" | "xor" | "mul" | "shl" | "lshr" => {
                        while c.peek() != b'(' {
                            c.word();
                        }
                        c.expect("(")?;
                        let t = self.ty(c)?;
                        let a = self.opnd(c, &t, regs)?;
                        c.expect(",")?;
                        let t = self.ty(c)?;
                        let b = self.opnd(c, &t, regs)?;
                        c.expect(")")?;
                        let (Op::C(a), Op::C(b)) = (a, b) else { return Err("constexpr".into()) };
                        let r = match w.as_str() {
                            "add" => a.wrapping_add(b),
                            "sub" => a.wrapping_sub(b),
                            "and" => a & b,
                            "or" => a | b,
                            "xor" => a ^ b,
                            "mul" => a.wrapping_mul(b),
                            "shl" => a << b,
                            _ => a >> b,
                        };
                        let w = t.bits();
                        Ok(Op::C(if w >= 64 { r } else { r & ((1u64 << w) - 1) }))
                    }
                    "getelementptr" => {
                        while c.peek() != b'(' {
                            c.word();
                            if c.i < c.s.len() && c.s[c.i] == b'(' && {
                                // inrange(...)
                                let back = &c.s[..c.i];
                                back.ends_with(b"inrange")
                            } {
                                c.skip_parens();
                            }
                        }
                        c.expect("(")?;
                        let t = self.ty(c)?;
                        c.expect(",")?;
                        let (base, off, idx) = self.gep_tail(c, &t, regs)?;
                        c.expect(")")?;
                        let Op::C(b) = base else { return Err("gep constexpr base".into()) };
                        let mut r = b.wrapping_add(off as u64);
                        for (o, s, w) in idx {
                            let Op::C(v) = o else { return Err("gep constexpr idx".into()) };
                            r = r.wrapping_add((sext64(v, w) as i64).wrapping_mul(s) as u64);
                        }
                        Ok(Op::C(r))
                    }
                    _ => Err(format!("operand `{w}` at `{}`", c.rest(60))),
                }
            }
        }
    }
    pub fn zero(&self, ty: &Ty) -> Op {
        match ty {
            Ty::Int(w) if *w > 64 => Op::W(0, *w),
            Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..) => Op::A((0..ty.count()).map(|i| self.zero(ty.elem(i))).collect()),
            _ => Op::C(0),
        }
    }
    fn topnd(&self, c: &mut Cur, regs: &mut Regs) -> R<(Ty, Op)> {
        let t = self.ty(c)?;
        self.skip_attrs(c);
        let o = self.opnd(c, &t, regs)?;
        Ok((t, o))
    }
    #[allow(clippy::type_complexity)]
    fn gep_tail(&self, c: &mut Cur, ty: &Ty, regs: &mut Regs) -> R<(Op, i64, Vec<(Op, i64, u32)>)> {
        let (_, base) = self.topnd(c, regs)?;
        let mut off = 0i64;
        let mut idx = vec![];
        let mut first = true;
        let mut cur = ty.clone();
        while c.eat(",") {
            if c.peek() == b'!' {
                c.i -= 1;
                break;
            }
            let (it, o) = self.topnd(c, regs)?;
            if it.count() > 0 || !it.is_scalar() {
                return Err("vector gep".into());
            }
            if first {
                let s = cur.size() as i64;
                match o {
                    Op::C(v) => off = off.wrapping_add((sext64(v, it.bits()) as i64).wrapping_mul(s)),
                    o => idx.push((o, s, it.bits())),
                }
                first = false;
            } else {
                match &cur {
                    Ty::Struct(..) => {
                        let Op::C(v) = o else { return Err("struct gep".into()) };
                        let (offs, _) = cur.layout();
                        off += offs[v as usize] as i64;
                        cur = cur.elem(v as usize).clone();
                    }
                    Ty::Arr(_, t) | Ty::Vec(_, t) => {
                        let s = t.size() as i64;
                        match o {
                            Op::C(v) => off = off.wrapping_add((sext64(v, it.bits()) as i64).wrapping_mul(s)),
                            o => idx.push((o, s, it.bits())),
                        }
                        let t = (**t).clone();
                        cur = t;
                    }
                    _ => return Err("gep into scalar".into()),
                }
            }
        }
        Ok((base, off, idx))
    }

    pub fn global_init(&self, g: usize) -> R<Op> {
        let gl = &self.globals[g];
        match gl.init {
            None => Ok(self.zero(&gl.ty)),
            Some((s, e)) => {
                let mut c = Cur::new(&self.text[s..e]);
                let mut r = Regs::default();
                self.opnd(&mut c, &gl.ty, &mut r)
            }
        }
    }

    pub fn func(&self, id: usize) -> R<Arc<Func>> {
        if let Some(f) = self.funcs[id].parsed.get() {
            return Ok(f.clone());
        }
        let f = Arc::new(self.parse_func(id)?);
        let _ = self.funcs[id].parsed.set(f.clone());
        Ok(self.funcs[id].parsed.get().unwrap().clone())
    }

    fn parse_func(&self, id: usize) -> R<Func> {
        let fd = &self.funcs[id];
        let text = &self.text[fd.body.0..fd.body.1];
        let mut lines = text.split('\n');
        let header = lines.next().unwrap();
        let mut regs = Regs::default();
        // params
        let at = header.find('@').unwrap();
        let mut c = Cur::new(header);
        c.i = at + 1;
        c.name();
        c.expect("(")?;
        let mut nparams = 0;
        let mut unnamed = 0;
        if !c.eat(")") {
            loop {
                if c.eat("...") {
                    c.expect(")")?;
                    break;
                }
                let _t = self.ty(&mut c)?;
                self.skip_attrs(&mut c);
                if c.peek() == b'%' {
                    c.i += 1;
                    let n = c.name();
                    if n.bytes().all(|b| b.is_ascii_digit()) {
                        unnamed += 1;
                    }
                    let r = regs.get(&n);
                    assert_eq!(r as usize, nparams);
                } else {
                    let r = regs.get(&unnamed.to_string());
                    unnamed += 1;
                    assert_eq!(r as usize, nparams);
                }
                nparams += 1;
                if c.eat(")") {
                    break;
                }
                c.expect(",")?;
            }
        }
        // collect blocks
        let mut blocks: Vec<(String, Vec<String>)> = vec![];
        let mut pend: Option<String> = None; // multi-line instr (switch)
        for l in lines {
            if l.is_empty() || l.starts_with(';') || l.starts_with('}') {
                continue;
            }
            if !l.starts_with(' ') {
                // label
                let l2 = match l.find("; preds") {
                    Some(p) => l[..p].trim_end(),
                    None => l.trim_end(),
                };
                let n = l2.trim_end_matches(':').trim_matches('"').to_string();
                blocks.push((n, vec![]));
                continue;
            }
            if blocks.is_empty() {
                blocks.push((unnamed.to_string(), vec![]));
            }
            let t = l.trim();
            if t.starts_with("#dbg") {
                continue;
            }
            if let Some(p) = &mut pend {
                p.push(' ');
                p.push_str(t);
                let done = if p.contains(" invoke ") || p.starts_with("invoke ") {
                    true
                } else if p.starts_with("switch") {
                    t.starts_with(']')
                } else {
                    // landingpad clauses
                    true
                };
                if done {
                    let s = pend.take().unwrap();
                    blocks.last_mut().unwrap().1.push(s);
                }
                continue;
            }
            if t.starts_with("switch ") && !t.contains(']') {
                pend = Some(t.to_string());
                continue;
            }
            if t.starts_with("invoke ") || t.contains(" = invoke ") {
                pend = Some(t.to_string());
                continue;
            }
            if t.starts_with("cleanup") || t.starts_with("catch ") || t.starts_with("filter ") {
                continue; // landingpad clause lines
            }
            blocks.last_mut().unwrap().1.push(t.to_string());
        }
        let bmap: HashMap<String, u32> = blocks.iter().enumerate().map(|(i, b)| (b.0.clone(), i as u32)).collect();
        let mut out = vec![];
        for (n, ls) in &blocks {
            let mut b = Block { name: n.clone(), phis: vec![], insts: vec![], dbg: vec![] };
            for l in ls {
                if let Some(p) = l.rfind("!dbg !") {
                    let d: String = l[p + 6..].chars().take_while(|c| c.is_ascii_digit()).collect();
                    if let Ok(d) = d.parse() {
                        b.dbg.push(d);
                    }
                }
                if let Err(e) = self.inst(l, &mut regs, &bmap, &mut b) {
                    b.insts.push(I::Unsupported(format!("{e}: {}", &l[..l.len().min(160)])));
                }
            }
            b.dbg.sort();
            b.dbg.dedup();
            out.push(b);
        }
        Ok(Func { name: fd.name.clone(), nparams, nregs: regs.n as usize, blocks: out, id })
    }

    fn inst(&self, l: &str, regs: &mut Regs, bmap: &HashMap<String, u32>, blk: &mut Block) -> R<()> {
        let mut c = Cur::new(l);
        let mut dst = None;
        if c.peek() == b'%' {
            c.i += 1;
            let n = c.name();
            c.expect("=")?;
            dst = Some(regs.get(&n));
        }
        let lab = |c: &mut Cur| -> R<u32> {
            c.expect("label")?;
            c.expect("%")?;
            let n = c.name();
            bmap.get(&n).copied().ok_or(format!("label {n}"))
        };
        let mut w = c.word();
        while w == "tail" || w == "musttail" || w == "notail" {
            w = c.word();
        }
        let d = dst.unwrap_or(u32::MAX);
        let ins = match w.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                while c.eat("nuw") || c.eat("nsw") || c.eat("exact") || c.eat("disjoint") {}
                let t = self.ty(&mut c)?;
                let a = self.opnd(&mut c, &t, regs)?;
                c.expect(",")?;
                let b = self.opnd(&mut c, &t, regs)?;
                let k = match w.as_str() {
                    "add" => B::Add,
                    "sub" => B::Sub,
                    "mul" => B::Mul,
                    "udiv" => B::UDiv,
                    "sdiv" => B::SDiv,
                    "urem" => B::URem,
                    "srem" => B::SRem,
                    "shl" => B::Shl,
                    "lshr" => B::LShr,
                    "ashr" => B::AShr,
                    "and" => B::And,
                    "or" => B::Or,
                    _ => B::Xor,
                };
                I::Bin(k, t, d, a, b)
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                while c.peek().is_ascii_alphabetic() && !["float", "double"].contains(&c.peek_word().as_str()) {
                    c.word();
                }
                let t = self.ty(&mut c)?;
                let a = self.opnd(&mut c, &t, regs)?;
                c.expect(",")?;
                let b = self.opnd(&mut c, &t, regs)?;
                I::FBin(
                    match w.as_str() {
                        "fadd" => '+',
                        "fsub" => '-',
                        "fmul" => '*',
                        "fdiv" => '/',
                        _ => '%',
                    },
                    t,
                    d,
                    a,
                    b,
                )
            }
            "fneg" => {
                let (t, a) = self.topnd(&mut c, regs)?;
                I::FNeg(t, d, a)
            }
            "icmp" => {
                c.eat("samesign");
                let p = c.word();
                let t = self.ty(&mut c)?;
                let a = self.opnd(&mut c, &t, regs)?;
                c.expect(",")?;
                let b = self.opnd(&mut c, &t, regs)?;
                let p = match p.as_str() {
                    "eq" => P::Eq,
                    "ne" => P::Ne,
                    "ult" => P::Ult,
                    "ule" => P::Ule,
                    "ugt" => P::Ugt,
                    "uge" => P::Uge,
                    "slt" => P::Slt,
                    "sle" => P::Sle,
                    "sgt" => P::Sgt,
                    "sge" => P::Sge,
                    _ => return Err(format!("icmp {p}")),
                };
                I::Cmp(p, t, d, a, b)
            }
            "fcmp" => {
                let mut p = c.word();
                while ["fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"].contains(&p.as_str()) {
                    p = c.word();
                }
                let t = self.ty(&mut c)?;
                let a = self.opnd(&mut c, &t, regs)?;
                c.expect(",")?;
                let b = self.opnd(&mut c, &t, regs)?;
                I::FCmp(p, t, d, a, b)
            }
            "select" => {
                while c.peek().is_ascii_alphabetic() && !c.peek_word().starts_with('i') {
                    c.word();
                }
                let (cty, cc) = self.topnd(&mut c, regs)?;
                c.expect(",")?;
                let (ty, a) = self.topnd(&mut c, regs)?;
                c.expect(",")?;
                let (_, b) = self.topnd(&mut c, regs)?;
                I::Select { cty, ty, dst: d, c: cc, a, b }
            }
            "load" => {
                c.eat("atomic");
                c.eat("volatile");
                let ty = self.ty(&mut c)?;
                c.expect(",")?;
                let (_, p) = self.topnd(&mut c, regs)?;
                I::Load { dst: d, ty, ptr: p }
            }
            "store" => {
                c.eat("atomic");
                c.eat("volatile");
                let (ty, v) = self.topnd(&mut c, regs)?;
                c.expect(",")?;
                let (_, p) = self.topnd(&mut c, regs)?;
                I::Store { ty, val: v, ptr: p }
            }
            "getelementptr" => {
                loop {
                    if c.eat("inrange") {
                        c.ws();
                        c.skip_parens();
                        continue;
                    }
                    if !(c.eat("inbounds") || c.eat("nuw") || c.eat("nusw")) {
                        break;
                    }
                }
                let t = self.ty(&mut c)?;
                c.expect(",")?;
                let (base, off, idx) = self.gep_tail(&mut c, &t, regs)?;
                I::Gep { dst: d, base, off, idx }
            }
            "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "uitofp" | "sitofp" | "fptoui"
            | "fptosi" | "fpext" | "fptrunc" | "addrspacecast" => {
                while c.eat("nneg") || c.eat("nuw") || c.eat("nsw") {}
                let (t, a) = self.topnd(&mut c, regs)?;
                c.expect("to")?;
                let t2 = self.ty(&mut c)?;
                let k = match w.as_str() {
                    "zext" => CastK::ZExt,
                    "sext" => CastK::SExt,
                    "trunc" => CastK::Trunc,
                    "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                        if t.bits() > t2.bits() {
                            CastK::Trunc
                        } else if t.bits() < t2.bits() {
                            CastK::ZExt
                        } else {
                            CastK::Bit
                        }
                    }
                    "uitofp" => CastK::UIToFP,
                    "sitofp" => CastK::SIToFP,
                    "fptoui" => CastK::FPToUI,
                    "fptosi" => CastK::FPToSI,
                    "fpext" => CastK::FPExt,
                    "fptrunc" => CastK::FPTrunc,
                    _ => CastK::Bit,
                };
                I::Cast(k, t, t2, d, a)
            }
            "phi" => {
                while c.peek().is_ascii_alphabetic() {
                    let s = c.i;
                    if self.ty(&mut c).is_ok() {
                        c.i = s;
                        break;
                    }
                    c.i = s;
                    c.word();
                }
                let t = self.ty(&mut c)?;
                let mut v = vec![];
                loop {
                    c.expect("[")?;
                    let o = self.opnd(&mut c, &t, regs)?;
                    c.expect(",")?;
                    c.expect("%")?;
                    let n = c.name();
                    c.expect("]")?;
                    let b = *bmap.get(&n).ok_or(format!("phi label {n}"))?;
                    v.push((b, o));
                    if !c.eat(",") {
                        break;
                    }
                    if c.peek() == b'!' {
                        break;
                    }
                }
                blk.phis.push((d, t, v));
                return Ok(());
            }
            "br" => {
                if c.peek_word() == "label" {
                    I::Br(lab(&mut c)?)
                } else {
                    let (_, o) = self.topnd(&mut c, regs)?;
                    c.expect(",")?;
                    let a = lab(&mut c)?;
                    c.expect(",")?;
                    let b = lab(&mut c)?;
                    I::CondBr(o, a, b)
                }
            }
            "switch" => {
                let (t, o) = self.topnd(&mut c, regs)?;
                c.expect(",")?;
                let def = lab(&mut c)?;
                c.expect("[")?;
                let mut v = vec![];
                while !c.eat("]") {
                    let (_, k) = self.topnd(&mut c, regs)?;
                    c.expect(",")?;
                    let b = lab(&mut c)?;
                    let Op::C(k) = k else { return Err("switch case".into()) };
                    v.push((k, b));
                }
                I::Switch(t.bits(), o, def, v)
            }
            "ret" => {
                if c.peek_word() == "void" {
                    I::Ret(None)
                } else {
                    I::Ret(Some(self.topnd(&mut c, regs)?))
                }
            }
            "unreachable" | "resume" => I::Unreachable,
            "landingpad" => I::Nop,
            "fence" => I::Nop,
            "freeze" => {
                let (t, o) = self.topnd(&mut c, regs)?;
                I::Copy(d, t, o)
            }
            "alloca" => {
                c.eat("inalloca");
                let t = self.ty(&mut c)?;
                let mut al = t.align().max(8);
                let mut n = 1;
                while c.eat(",") {
                    if c.eat("align") {
                        al = al.max(c.num()? as u64);
                    } else if c.peek() == b'i' {
                        let (_, o) = self.topnd(&mut c, regs)?;
                        let Op::C(v) = o else { return Err("dyn alloca".into()) };
                        n = v;
                    } else {
                        break;
                    }
                }
                I::Alloca { dst: d, size: t.size() * n, align: al }
            }
            "extractvalue" => {
                let (_, o) = self.topnd(&mut c, regs)?;
                let mut v = vec![];
                while c.eat(",") {
                    if c.peek() == b'!' {
                        break;
                    }
                    v.push(c.num()? as u32);
                }
                I::ExtractValue(d, o, v)
            }
            "insertvalue" => {
                let (t, o) = self.topnd(&mut c, regs)?;
                c.expect(",")?;
                let (_, x) = self.topnd(&mut c, regs)?;
                let mut v = vec![];
                while c.eat(",") {
                    if c.peek() == b'!' {
                        break;
                    }
                    v.push(c.num()? as u32);
                }
                I::InsertValue(d, t, o, x, v)
            }
            "extractelement" => {
                let (_, o) = self.topnd(&mut c, regs)?;
                c.expect(",")?;
                let (_, i) = self.topnd(&mut c, regs)?;
                I::ExtractElement(d, o, i)
            }
            "insertelement" => {
                let (t, o) = self.topnd(&mut c, regs)?;
                c.expect(",")?;
                let (_, x) = self.topnd(&mut c, regs)?;
                c.expect(",")?;
                let (_, i) = self.topnd(&mut c, regs)?;
                I::InsertElement(d, t, o, x, i)
            }
            "shufflevector" => {
                let (t, a) = self.topnd(&mut c, regs)?;
                c.expect(",")?;
                let (_, b) = self.topnd(&mut c, regs)?;
                c.expect(",")?;
                let mt = self.ty(&mut c)?;
                let m = self.opnd(&mut c, &mt, regs)?;
                let Op::A(m) = m else { return Err("shuffle mask".into()) };
                let mask = m
                    .iter()
                    .map(|o| match o {
                        Op::C(v) => Some(*v as u32),
                        _ => None,
                    })
                    .collect();
                I::Shuffle(d, t, a, b, mask)
            }
            "atomicrmw" => {
                c.eat("volatile");
                let op = c.word();
                let (_, p) = self.topnd(&mut c, regs)?;
                c.expect(",")?;
                let (ty, v) = self.topnd(&mut c, regs)?;
                I::AtomicRmw { dst: d, op, ty, ptr: p, val: v }
            }
            "cmpxchg" => {
                c.eat("weak");
                c.eat("volatile");
                let (_, p) = self.topnd(&mut c, regs)?;
                c.expect(",")?;
                let (ty, cm) = self.topnd(&mut c, regs)?;
                c.expect(",")?;
                let (_, nw) = self.topnd(&mut c, regs)?;
                I::CmpXchg { dst: d, ty, ptr: p, cmp: cm, new: nw }
            }
            "call" | "invoke" => {
                // calling conv + ret attrs
                let rty;
                loop {
                    let s = c.i;
                    let b = c.peek();
                    if b == b'"' {
                        self.skip_attrs(&mut c);
                        continue;
                    }
                    if let Ok(t) = self.ty(&mut c) {
                        // a type followed by attribute? `range(i16 0, 17) i16` handled through skip below
                        rty = t;
                        break;
                    }
                    c.i = s;
                    let wd = c.word();
                    if wd.is_empty() {
                        return Err("call rty".into());
                    }
                    if wd == "align" || wd == "cc" {
                        if c.peek().is_ascii_digit() {
                            let _ = c.num();
                        }
                    }
                    if c.i < c.s.len() && c.s[c.i] == b'(' {
                        c.skip_parens();
                    }
                }
                // optional function type
                if c.peek() == b'(' {
                    c.skip_parens();
                }
                let callee = match c.peek() {
                    b'@' => {
                        c.i += 1;
                        let n = c.name();
                        let n = self.aliases.get(&n).cloned().unwrap_or(n);
                        Callee::Direct(*self.fidx.get(&n).ok_or(format!("unknown function {n}"))?)
                    }
                    b'%' => {
                        c.i += 1;
                        let n = c.name();
                        Callee::Indirect(Op::R(regs.get(&n)))
                    }
                    _ => {
                        if c.eat("asm") {
                            if l.contains("asm sideeffect \"\"") || l.contains("asm \"\"") {
                                return Ok(()); // optimisation barrier
                            }
                            return Err("inline asm".into());
                        }
                        if c.peek_word() == "inttoptr" {
                            Callee::Indirect(self.opnd(&mut c, &Ty::Ptr, regs)?)
                        } else {
                            return Err(format!("callee at `{}`", c.rest(50)));
                        }
                    }
                };
                c.expect("(")?;
                let mut args = vec![];
                if !c.eat(")") {
                    loop {
                        if c.eat("metadata") {
                            // debug / scope metadata argument
                            if let Callee::Direct(n) = &callee {
                                if self.funcs[*n].name.starts_with("llvm.") {
                                    return Ok(());
                                }
                            }
                            return Err("metadata arg".into());
                        }
                        args.push(self.topnd(&mut c, regs)?);
                        if c.eat(")") {
                            break;
                        }
                        c.expect(",")?;
                    }
                }
                let mut next = None;
                if w == "invoke" {
                    while !c.eat("to label") {
                        if c.i >= c.s.len() {
                            return Err("invoke".into());
                        }
                        c.i += 1;
                    }
                    c.expect("%")?;
                    let n = c.name();
                    next = Some(*bmap.get(&n).ok_or("invoke label")?);
                }
                if let Callee::Direct(n) = &callee {
                    let n = &self.funcs[*n].name;
                    if n.starts_with("llvm.lifetime")
                        || n.starts_with("llvm.experimental.noalias")
                        || n.starts_with("llvm.dbg")
                        || n.starts_with("llvm.assume")
                        || n.starts_with("llvm.prefetch")
                        || n.starts_with("llvm.invariant")
                        || n.starts_with("llvm.donothing")
                    {
                        return Ok(());
                    }
                }
                I::Call { dst, rty, callee, args, next }
            }
            _ => return Err(format!("instr `{w}`")),
        };
        blk.insts.push(ins);
        Ok(())
    }

    /// (file:line, function linkage name) for a debug location id; follows the scope chain
    pub fn dbg_loc(&self, id: u32) -> Option<(String, u32, String)> {
        let &(s, e) = self.meta.get(&id)?;
        let t = &self.text[s..e];
        let line: u32 = field(t, "line: ")?.parse().ok()?;
        let mut scope: u32 = field(t, "scope: !")?.parse().ok()?;
        for _ in 0..64 {
            let &(s, e) = self.meta.get(&scope)?;
            let t = &self.text[s..e];
            if t.contains("DISubprogram(") {
                let nm = sfield(t, "linkageName: \"").or(sfield(t, "name: \""))?;
                let f: u32 = field(t, "file: !")?.parse().ok()?;
                let &(fs, fe) = self.meta.get(&f)?;
                let ft = &self.text[fs..fe];
                let fname = sfield(ft, "filename: \"")?;
                let dir = sfield(ft, "directory: \"").unwrap_or_default();
                let full = if fname.starts_with('/') { fname } else { format!("{dir}/{fname}") };
                return Some((full, line, nm));
            }
            scope = field(t, "scope: !")?.parse().ok()?;
        }
        None
    }
}
fn field(t: &str, k: &str) -> Option<String> {
    let p = t.find(k)? + k.len();
    Some(t[p..].chars().take_while(|c| c.is_ascii_digit()).collect())
}
fn sfield(t: &str, k: &str) -> Option<String> {
    let p = t.find(k)? + k.len();
    Some(t[p..].chars().take_while(|c| *c != '"').collect())
}

pub fn sext64(v: u64, w: u32) -> u64 {
    if w >= 64 {
        v
    } else {
        let s = 64 - w;
        (((v << s) as i64) >> s) as u64
    }
}

#[derive(Default)]
struct Regs {
    map: HashMap<String, u32>,
    n: u32,
}
impl Regs {
    fn get(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.map.get(n) {
            return r;
        }
        let r = self.n;
        self.n += 1;
        self.map.insert(n.to_string(), r);
        r
    }
}
