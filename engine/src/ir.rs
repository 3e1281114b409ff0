//! Parser for textual LLVM IR (the subset rustc emits), into a form that is quick to interpret.

use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Array(u64, Box<Ty>),
    Vector(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Other,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Array(_, t) => t.align(),
            Ty::Vector(n, t) => (n * t.size()).next_power_of_two().max(1),
            Ty::Struct(v, packed) => {
                if *packed {
                    1
                } else {
                    v.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    /// alloc size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let s = (*w as u64 + 7) / 8;
                let a = self.align();
                (s + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Array(n, t) | Ty::Vector(n, t) => n * t.size(),
            Ty::Struct(v, packed) => {
                let mut o = 0;
                for t in v {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(v, packed) => {
                let mut o = 0;
                for (j, t) in v.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if j == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field")
            }
            Ty::Array(_, t) | Ty::Vector(_, t) => t.size() * i as u64,
            _ => panic!("field of scalar"),
        }
    }
    pub fn elem(&self, i: usize) -> &Ty {
        match self {
            Ty::Struct(v, _) => &v[i],
            Ty::Array(_, t) | Ty::Vector(_, t) => t,
            _ => panic!("elem of scalar"),
        }
    }
    pub fn int_w(&self) -> Option<u32> {
        match self {
            Ty::Int(w) => Some(*w),
            Ty::Ptr => Some(64),
            Ty::Float(w) => Some(*w),
            _ => None,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    Reg(u32),
    C(u128),
    Undef,
    /// address of a global plus an offset
    Global(u32, i64),
    /// offset of a global as an integer expression: (global address + offset) - etc. unsupported
    Agg(Vec<Op>),
    Zero,
    Bytes(Vec<u8>),
    Bad(String),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp {
    Zext,
    Sext,
    Trunc,
    Same,
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(BinOp, u32, Op, Op),
    ICmp(Pred, u32, Op, Op),
    Cast(CastOp, u32, u32, Op),
    Load(Ty, Op),
    Store(Ty, Op, Op),
    /// base + const + sum index (width) * scale
    Gep(Op, i64, Vec<(Op, u32, u64)>),
    Alloca(u64, Op),
    Phi(Vec<(u32, Op)>),
    Select(Ty, Op, Op, Op),
    Call {
        callee: Op,
        args: Vec<(Ty, Op)>,
        ret: Ty,
        normal: Option<u32>,
    },
    Extract(Op, Vec<u32>),
    Insert(Ty, Op, Op, Vec<u32>),
    /// vector to integer and back: width of the elements
    Pack(u32, Op),
    Unpack(u32, u32, Op),
    Copy(Op),
    Fp(String, u32, u32, Vec<Op>),
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(u32, Op, u32, Vec<(u128, u32)>),
    Ret(Option<Op>),
    Unreachable,
    /// atomicrmw: operation, type, address, value
    Rmw(String, Ty, Op, Op),
    /// cmpxchg: type, address, expected, new
    CmpXchg(Ty, Op, Op, Op),
    Bad(String),
}

pub const NOREG: u32 = u32::MAX;

#[derive(Debug)]
pub struct Inst {
    pub dst: u32,
    pub i: I,
    pub dbg: u32,
}

#[derive(Debug)]
pub struct Block {
    pub insts: Vec<Inst>,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub params: Vec<u32>,
    pub param_tys: Vec<Ty>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub declared: bool,
    pub noreturn: bool,
    pub sp: u32,
}

#[derive(Debug)]
pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<Op>,
    pub constant: bool,
    /// index of the function when the symbol is one
    pub func: Option<u32>,
}

#[derive(Default, Debug, Clone)]
pub struct Loc {
    pub line: u32,
    pub scope: u32,
    pub inlined: u32,
}

#[derive(Default)]
pub struct Module {
    pub funcs: Vec<Func>,
    pub fmap: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gmap: HashMap<String, u32>,
    pub types: HashMap<String, Ty>,
    /// metadata: DILocation
    pub locs: HashMap<u32, Loc>,
    /// scope -> (subprogram name, file id) or the parent scope
    pub subprograms: HashMap<u32, (String, String, u32, u32)>,
    pub scopes: HashMap<u32, u32>,
    pub files: HashMap<u32, String>,
    pub max_md: u32,
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Id(String),
    Local(String),
    Glob(String),
    Num(String),
    Str(Vec<u8>),
    P(char),
    Md(String),
    Attr,
}

fn unescape(s: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' {
            if i + 1 < s.len() && s[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
            } else {
                let h = std::str::from_utf8(&s[i + 1..i + 3]).unwrap();
                o.push(u8::from_str_radix(h, 16).unwrap());
                i += 3;
            }
        } else {
            o.push(s[i]);
            i += 1;
        }
    }
    o
}

fn lex(line: &str) -> Vec<Tok> {
    let b = line.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' => i += 1,
            b';' => break,
            b'%' | b'@' => {
                let name;
                if i + 1 < b.len() && b[i + 1] == b'"' {
                    let s = i + 2;
                    let mut e = s;
                    while b[e] != b'"' {
                        e += 1;
                    }
                    name = String::from_utf8(unescape(&b[s..e])).unwrap();
                    i = e + 1;
                } else {
                    let s = i + 1;
                    let mut e = s;
                    while e < b.len() && idc(b[e]) {
                        e += 1;
                    }
                    name = line[s..e].to_string();
                    i = e;
                }
                out.push(if c == b'%' {
                    Tok::Local(name)
                } else {
                    Tok::Glob(name)
                });
            }
            b'"' => {
                let s = i + 1;
                let mut e = s;
                while b[e] != b'"' {
                    e += 1;
                }
                out.push(Tok::Str(unescape(&b[s..e])));
                i = e + 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let s = i + 2;
                let mut e = s;
                while b[e] != b'"' {
                    e += 1;
                }
                out.push(Tok::Str(unescape(&b[s..e])));
                i = e + 1;
            }
            b'!' => {
                let s = i + 1;
                let mut e = s;
                while e < b.len() && idc(b[e]) {
                    e += 1;
                }
                out.push(Tok::Md(line[s..e].to_string()));
                i = e;
            }
            b'#' => {
                let s = i + 1;
                let mut e = s;
                while e < b.len() && idc(b[e]) {
                    e += 1;
                }
                out.push(Tok::Attr);
                i = e;
            }
            b'-' | b'0'..=b'9' => {
                let s = i;
                let mut e = s + 1;
                while e < b.len() && (b[e].is_ascii_alphanumeric() || b[e] == b'.' || b[e] == b'+')
                {
                    e += 1;
                }
                out.push(Tok::Num(line[s..e].to_string()));
                i = e;
            }
            c if c.is_ascii_alphabetic() || c == b'_' || c == b'$' || c == b'.' => {
                let s = i;
                let mut e = s;
                while e < b.len() && idc(b[e]) {
                    e += 1;
                }
                out.push(Tok::Id(line[s..e].to_string()));
                i = e;
            }
            _ => {
                out.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    out
}

struct P<'a> {
    t: Vec<Tok>,
    i: usize,
    m: &'a mut Module,
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}

type R<X> = Result<X, String>;

impl<'a> P<'a> {
    fn new(m: &'a mut Module) -> Self {
        P {
            t: vec![],
            i: 0,
            m,
            regs: HashMap::new(),
            blocks: HashMap::new(),
        }
    }
    fn set(&mut self, t: Vec<Tok>) {
        self.t = t;
        self.i = 0;
    }
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> R<Tok> {
        let t = self.t.get(self.i).cloned().ok_or("eol")?;
        self.i += 1;
        Ok(t)
    }
    fn is_p(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn p(&mut self, c: char) -> R<()> {
        if self.eat_p(c) {
            Ok(())
        } else {
            Err(format!(
                "expected {:?} at {:?}",
                c,
                &self.t[self.i.min(self.t.len())..]
            ))
        }
    }
    fn is_id(&self, s: &str) -> bool {
        matches!(self.peek(), Some(Tok::Id(x)) if x == s)
    }
    fn eat_id(&mut self, s: &str) -> bool {
        if self.is_id(s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn skip_parens(&mut self) -> R<()> {
        let mut d = 0;
        loop {
            match self.next()? {
                Tok::P('(') => d += 1,
                Tok::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return Ok(());
                    }
                }
                _ => {}
            }
        }
    }
    fn reg(&mut self, n: &str) -> u32 {
        let l = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(l)
    }
    fn block(&mut self, n: &str) -> u32 {
        let l = self.blocks.len() as u32;
        *self.blocks.entry(n.to_string()).or_insert(l)
    }
    fn global(&mut self, n: &str) -> u32 {
        if let Some(&g) = self.m.gmap.get(n) {
            return g;
        }
        let g = self.m.globals.len() as u32;
        self.m.globals.push(Global {
            name: n.to_string(),
            ty: Ty::Other,
            init: None,
            constant: false,
            func: None,
        });
        self.m.gmap.insert(n.to_string(), g);
        g
    }
    fn try_ty(&mut self) -> R<Option<Ty>> {
        let s = self.i;
        match self.ty() {
            Ok(t) => Ok(Some(t)),
            Err(_) => {
                self.i = s;
                Ok(None)
            }
        }
    }
    fn ty(&mut self) -> R<Ty> {
        let base = match self.next()? {
            Tok::Id(s) => match s.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if self.is_id("addrspace") {
                        self.i += 1;
                        self.skip_parens()?;
                    }
                    Ty::Ptr
                }
                "float" => Ty::Float(32),
                "double" => Ty::Float(64),
                "half" | "bfloat" => Ty::Float(16),
                "x86_fp80" | "fp128" => Ty::Float(128),
                "label" | "metadata" | "token" => Ty::Other,
                "opaque" => Ty::Other,
                _ if s.starts_with('i') && s[1..].parse::<u32>().is_ok() => {
                    Ty::Int(s[1..].parse().unwrap())
                }
                _ => return Err(format!("type {}", s)),
            },
            Tok::P('[') => {
                let n = self.num()? as u64;
                self.next()?; // x
                let t = self.ty()?;
                self.p(']')?;
                Ty::Array(n, Box::new(t))
            }
            Tok::P('<') => {
                if self.is_p('{') {
                    self.p('{')?;
                    let v = self.ty_list('}')?;
                    self.p('>')?;
                    Ty::Struct(v, true)
                } else {
                    let n = self.num()? as u64;
                    self.next()?;
                    let t = self.ty()?;
                    self.p('>')?;
                    Ty::Vector(n, Box::new(t))
                }
            }
            Tok::P('{') => Ty::Struct(self.ty_list('}')?, false),
            Tok::Local(n) => self
                .m
                .types
                .get(&n)
                .cloned()
                .ok_or_else(|| format!("named type {}", n))?,
            t => return Err(format!("type at {:?}", t)),
        };
        // function type in a call: ret (params)
        Ok(base)
    }
    fn ty_list(&mut self, end: char) -> R<Vec<Ty>> {
        let mut v = vec![];
        if self.eat_p(end) {
            return Ok(v);
        }
        loop {
            v.push(self.ty()?);
            if self.eat_p(',') {
                continue;
            }
            self.p(end)?;
            return Ok(v);
        }
    }
    fn num(&mut self) -> R<i128> {
        match self.next()? {
            Tok::Num(s) => s.parse::<i128>().map_err(|_| format!("number {}", s)),
            t => Err(format!("number at {:?}", t)),
        }
    }
    /// parameter / return attributes before an operand or type
    fn skip_attrs(&mut self) -> R<()> {
        loop {
            match self.peek() {
                Some(Tok::Attr) => self.i += 1,
                Some(Tok::Str(_)) => {
                    self.i += 1;
                    if self.eat_p('=') {
                        self.i += 1;
                    }
                }
                Some(Tok::Id(s)) => {
                    let s = s.clone();
                    if matches!(
                        s.as_str(),
                        "true"
                            | "false"
                            | "null"
                            | "undef"
                            | "poison"
                            | "zeroinitializer"
                            | "void"
                            | "ptr"
                            | "float"
                            | "double"
                            | "label"
                            | "metadata"
                            | "token"
                            | "getelementptr"
                            | "inttoptr"
                            | "ptrtoint"
                            | "bitcast"
                            | "add"
                            | "sub"
                            | "trunc"
                            | "xor"
                            | "mul"
                            | "shl"
                            | "asm"
                            | "splat"
                            | "x"
                            | "none"
                    ) {
                        return Ok(());
                    }
                    if s.starts_with('i') && s[1..].parse::<u32>().is_ok() {
                        return Ok(());
                    }
                    self.i += 1;
                    if self.is_p('(') {
                        self.skip_parens()?;
                    } else if s == "align" || s == "alignstack" {
                        if let Some(Tok::Num(_)) = self.peek() {
                            self.i += 1;
                        }
                    }
                }
                _ => return Ok(()),
            }
        }
    }
    fn val(&mut self, ty: &Ty) -> R<Op> {
        let t = self.next()?;
        Ok(match t {
            Tok::Local(n) => Op::Reg(self.reg(&n)),
            Tok::Glob(n) => Op::Global(self.global(&n), 0),
            Tok::Num(s) => match ty {
                Ty::Int(w) => {
                    let v: u128 = if let Ok(v) = s.parse::<i128>() {
                        v as u128
                    } else if let Ok(v) = s.parse::<u128>() {
                        v
                    } else {
                        return Err(format!("int {}", s));
                    };
                    Op::C(v & crate::term::mask(*w))
                }
                Ty::Float(w) => {
                    let f: f64 = if let Some(h) = s.strip_prefix("0x") {
                        match u64::from_str_radix(h, 16) {
                            Ok(b) => f64::from_bits(b),
                            Err(_) => return Ok(Op::Bad(s)),
                        }
                    } else {
                        s.parse().map_err(|_| format!("float {}", s))?
                    };
                    if *w == 64 {
                        Op::C(f.to_bits() as u128)
                    } else {
                        Op::C((f as f32).to_bits() as u128)
                    }
                }
                _ => return Err(format!("number {} of type {:?}", s, ty)),
            },
            Tok::Str(b) => Op::Bytes(b),
            Tok::Md(_) => {
                // metadata operand
                if self.is_p('{') || self.is_p('(') {
                    while self.i < self.t.len() && !self.is_p(')') {
                        self.i += 1;
                    }
                }
                Op::Undef
            }
            Tok::Id(s) => match s.as_str() {
                "true" => Op::C(1),
                "false" => Op::C(0),
                "null" => Op::C(0),
                "none" => Op::Undef,
                "undef" | "poison" => Op::Undef,
                "zeroinitializer" => Op::Zero,
                "splat" => {
                    self.p('(')?;
                    let t = self.ty()?;
                    let v = self.val(&t)?;
                    self.p(')')?;
                    match ty {
                        Ty::Array(n, _) | Ty::Vector(n, _) => Op::Agg(vec![v; *n as usize]),
                        _ => return Err("splat".into()),
                    }
                }
                "getelementptr" => {
                    self.skip_gep_flags()?;
                    self.p('(')?;
                    let et = self.ty()?;
                    self.p(',')?;
                    let pt = self.ty()?;
                    let base = self.val(&pt)?;
                    let (off, idx) = self.gep_idx(&et)?;
                    self.p(')')?;
                    match base {
                        Op::Global(g, o) if idx.is_empty() => Op::Global(g, o + off),
                        Op::C(c) if idx.is_empty() => {
                            Op::C((c as i128 + off as i128) as u64 as u128)
                        }
                        _ => Op::Bad("const gep".into()),
                    }
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" => {
                    self.p('(')?;
                    let t = self.ty()?;
                    let v = self.val(&t)?;
                    self.eat_id("to");
                    let to = self.ty()?;
                    self.p(')')?;
                    match v {
                        Op::C(c) => Op::C(c & crate::term::mask(to.int_w().unwrap_or(64))),
                        Op::Global(..) if s != "trunc" => v,
                        _ => Op::Bad(s),
                    }
                }
                "add" | "sub" | "xor" | "mul" | "shl" => {
                    while let Some(Tok::Id(_)) = self.peek() {
                        self.i += 1;
                    }
                    self.p('(')?;
                    let t = self.ty()?;
                    let a = self.val(&t)?;
                    self.p(',')?;
                    let t2 = self.ty()?;
                    let b = self.val(&t2)?;
                    self.p(')')?;
                    match (s.as_str(), a, b) {
                        ("add", Op::Global(g, o), Op::C(c)) => Op::Global(g, o + c as i64),
                        ("sub", Op::Global(g, o), Op::C(c)) => Op::Global(g, o - c as i64),
                        _ => Op::Bad("const expr".into()),
                    }
                }
                _ => return Err(format!("value {}", s)),
            },
            Tok::P('{') => Op::Agg(self.val_list('}')?),
            Tok::P('[') => Op::Agg(self.val_list(']')?),
            Tok::P('<') => {
                if self.eat_p('{') {
                    let v = self.val_list('}')?;
                    self.p('>')?;
                    Op::Agg(v)
                } else {
                    Op::Agg(self.val_list('>')?)
                }
            }
            t => return Err(format!("value at {:?}", t)),
        })
    }
    fn val_list(&mut self, end: char) -> R<Vec<Op>> {
        let mut v = vec![];
        if self.eat_p(end) {
            return Ok(v);
        }
        loop {
            let t = self.ty()?;
            v.push(self.val(&t)?);
            if self.eat_p(',') {
                continue;
            }
            self.p(end)?;
            return Ok(v);
        }
    }
    fn tyval(&mut self) -> R<(Ty, Op)> {
        let t = self.ty()?;
        self.skip_attrs()?;
        let v = self.val(&t)?;
        Ok((t, v))
    }
    fn skip_gep_flags(&mut self) -> R<()> {
        loop {
            if self.eat_id("inbounds") || self.eat_id("nuw") || self.eat_id("nusw") {
                continue;
            }
            if self.is_id("inrange") {
                self.i += 1;
                self.skip_parens()?;
                continue;
            }
            return Ok(());
        }
    }
    fn gep_idx(&mut self, et: &Ty) -> R<(i64, Vec<(Op, u32, u64)>)> {
        let mut off = 0i64;
        let mut idx = vec![];
        let mut cur: Option<Ty> = None;
        while self.eat_p(',') {
            if let Some(Tok::Md(_)) = self.peek() {
                self.i -= 1;
                break;
            }
            let (t, v) = self.tyval()?;
            let w = t.int_w().unwrap();
            let scale = match &cur {
                None => {
                    cur = Some(et.clone());
                    et.size()
                }
                Some(c @ Ty::Struct(..)) => {
                    let i = match v {
                        Op::C(i) => i as usize,
                        _ => return Err("struct gep".into()),
                    };
                    off += c.field_off(i) as i64;
                    cur = Some(c.elem(i).clone());
                    continue;
                }
                Some(c) => {
                    let e = c.elem(0).clone();
                    let s = e.size();
                    cur = Some(e);
                    s
                }
            };
            match v {
                Op::C(c) => off += crate::term::sext(c, w) as i64 * scale as i64,
                Op::Zero => {}
                v => idx.push((v, w, scale)),
            }
        }
        Ok((off, idx))
    }
    fn label(&mut self) -> R<u32> {
        self.next()?; // label
        match self.next()? {
            Tok::Local(n) => Ok(self.block(&n)),
            t => Err(format!("label {:?}", t)),
        }
    }
    fn flags(&mut self) {
        while let Some(Tok::Id(s)) = self.peek() {
            if matches!(
                s.as_str(),
                "nuw"
                    | "nsw"
                    | "exact"
                    | "disjoint"
                    | "nneg"
                    | "samesign"
                    | "fast"
                    | "nnan"
                    | "ninf"
                    | "nsz"
                    | "arcp"
                    | "contract"
                    | "afn"
                    | "reassoc"
                    | "volatile"
                    | "atomic"
            ) {
                self.i += 1;
            } else {
                return;
            }
        }
    }
    fn inst(&mut self) -> R<Inst> {
        let mut dst = NOREG;
        if let Some(Tok::Local(n)) = self.peek() {
            let n = n.clone();
            if self.t.get(self.i + 1) == Some(&Tok::P('=')) {
                self.i += 2;
                dst = self.reg(&n);
            }
        }
        let op = match self.next()? {
            Tok::Id(s) => s,
            t => return Err(format!("instruction {:?}", t)),
        };
        let i = self.inst_body(&op)?;
        // !dbg
        let mut dbg = 0;
        while self.i < self.t.len() {
            if let Tok::Md(s) = &self.t[self.i] {
                if s == "dbg" {
                    if let Some(Tok::Md(n)) = self.t.get(self.i + 1) {
                        dbg = n.parse().unwrap_or(0);
                    }
                }
            }
            self.i += 1;
        }
        Ok(Inst { dst, i, dbg })
    }
    fn inst_body(&mut self, op: &str) -> R<I> {
        let bin = |s: &str| {
            Some(match s {
                "add" => BinOp::Add,
                "sub" => BinOp::Sub,
                "mul" => BinOp::Mul,
                "udiv" => BinOp::UDiv,
                "sdiv" => BinOp::SDiv,
                "urem" => BinOp::URem,
                "srem" => BinOp::SRem,
                "shl" => BinOp::Shl,
                "lshr" => BinOp::LShr,
                "ashr" => BinOp::AShr,
                "and" => BinOp::And,
                "or" => BinOp::Or,
                "xor" => BinOp::Xor,
                _ => return None,
            })
        };
        if let Some(b) = bin(op) {
            self.flags();
            let t = self.ty()?;
            let x = self.val(&t)?;
            self.p(',')?;
            let y = self.val(&t)?;
            return match t {
                Ty::Int(w) => Ok(I::Bin(b, w, x, y)),
                _ => Ok(I::Bad(format!("{} on {:?}", op, t))),
            };
        }
        Ok(match op {
            "icmp" => {
                self.flags();
                let p = match self.next()? {
                    Tok::Id(s) => match s.as_str() {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        _ => return Err("pred".into()),
                    },
                    _ => return Err("pred".into()),
                };
                let t = self.ty()?;
                let x = self.val(&t)?;
                self.p(',')?;
                let y = self.val(&t)?;
                match t.int_w() {
                    Some(w) => I::ICmp(p, w, x, y),
                    None => I::Bad(format!("icmp on {:?}", t)),
                }
            }
            "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" | "addrspacecast"
            | "ptrtoaddr" => {
                self.flags();
                let t = self.ty()?;
                let v = self.val(&t)?;
                self.next()?; // to
                let u = self.ty()?;
                match (t.int_w(), u.int_w()) {
                    (Some(a), Some(b)) => {
                        let c = match op {
                            "zext" => CastOp::Zext,
                            "sext" => CastOp::Sext,
                            "trunc" => CastOp::Trunc,
                            _ if a < b => CastOp::Zext,
                            _ if a > b => CastOp::Trunc,
                            _ => CastOp::Same,
                        };
                        I::Cast(c, a, b, v)
                    }
                    (None, Some(b)) if op == "bitcast" => match &t {
                        Ty::Vector(n, e) if e.int_w().map_or(false, |w| w as u64 * n == b as u64) => {
                            I::Pack(e.int_w().unwrap(), v)
                        }
                        _ => I::Bad(format!("{} {:?} {:?}", op, t, u)),
                    },
                    (Some(a), None) if op == "bitcast" => match &u {
                        Ty::Vector(n, e) if e.int_w().map_or(false, |w| w as u64 * n == a as u64) => {
                            I::Unpack(a, e.int_w().unwrap(), v)
                        }
                        _ => I::Bad(format!("{} {:?} {:?}", op, t, u)),
                    },
                    _ => I::Bad(format!("{} {:?} {:?}", op, t, u)),
                }
            }
            "extractelement" => {
                let (_, v) = self.tyval()?;
                self.p(',')?;
                match self.tyval()? {
                    (_, Op::C(i)) => I::Extract(v, vec![i as u32]),
                    _ => I::Bad("extractelement".into()),
                }
            }
            "insertelement" => {
                let (t, a) = self.tyval()?;
                self.p(',')?;
                let (_, v) = self.tyval()?;
                self.p(',')?;
                match self.tyval()? {
                    (_, Op::C(i)) => I::Insert(t, a, v, vec![i as u32]),
                    _ => I::Bad("insertelement".into()),
                }
            }
            "load" => {
                self.flags();
                let t = self.ty()?;
                self.p(',')?;
                let (_, p) = self.tyval()?;
                I::Load(t, p)
            }
            "store" => {
                self.flags();
                let (t, v) = self.tyval()?;
                self.p(',')?;
                let (_, p) = self.tyval()?;
                I::Store(t, v, p)
            }
            "getelementptr" => {
                self.skip_gep_flags()?;
                let et = self.ty()?;
                self.p(',')?;
                let (pt, base) = self.tyval()?;
                if pt != Ty::Ptr {
                    return Ok(I::Bad("vector gep".into()));
                }
                let (o, idx) = self.gep_idx(&et)?;
                I::Gep(base, o, idx)
            }
            "alloca" => {
                let t = self.ty()?;
                let mut n = Op::C(1);
                if self.eat_p(',') && !self.is_id("align") {
                    if let Some(_) = self.try_ty()? {
                        self.i -= 0;
                        n = self.val(&Ty::Int(64))?;
                    }
                }
                I::Alloca(t.size(), n)
            }
            "phi" => {
                let t = self.ty()?;
                let mut v = vec![];
                loop {
                    self.p('[')?;
                    let x = self.val(&t)?;
                    self.p(',')?;
                    let b = match self.next()? {
                        Tok::Local(n) => self.block(&n),
                        _ => return Err("phi".into()),
                    };
                    self.p(']')?;
                    v.push((b, self.typed(x, &t)));
                    if self.is_p(',') && self.t.get(self.i + 1) == Some(&Tok::P('[')) {
                        self.i += 1;
                        continue;
                    }
                    break;
                }
                I::Phi(v)
            }
            "select" => {
                self.flags();
                let (_, c) = self.tyval()?;
                self.p(',')?;
                let (t, a) = self.tyval()?;
                self.p(',')?;
                let (_, b) = self.tyval()?;
                I::Select(t, c, a, b)
            }
            "freeze" => {
                let (_, v) = self.tyval()?;
                I::Copy(v)
            }
            "extractvalue" => {
                let (_, v) = self.tyval()?;
                let mut ix = vec![];
                while self.eat_p(',') {
                    if let Some(Tok::Num(_)) = self.peek() {
                        ix.push(self.num()? as u32);
                    } else {
                        break;
                    }
                }
                I::Extract(v, ix)
            }
            "insertvalue" => {
                let (t, a) = self.tyval()?;
                self.p(',')?;
                let (_, v) = self.tyval()?;
                let mut ix = vec![];
                while self.eat_p(',') {
                    if let Some(Tok::Num(_)) = self.peek() {
                        ix.push(self.num()? as u32);
                    } else {
                        break;
                    }
                }
                I::Insert(t, a, v, ix)
            }
            "br" => {
                if self.is_id("label") {
                    I::Br(self.label()?)
                } else {
                    let (_, c) = self.tyval()?;
                    self.p(',')?;
                    let a = self.label()?;
                    self.p(',')?;
                    let b = self.label()?;
                    I::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.tyval()?;
                self.p(',')?;
                let d = self.label()?;
                self.p('[')?;
                let mut cs = vec![];
                while !self.eat_p(']') {
                    let (_, c) = self.tyval()?;
                    self.p(',')?;
                    let l = self.label()?;
                    match c {
                        Op::C(c) => cs.push((c, l)),
                        _ => return Err("switch".into()),
                    }
                }
                I::Switch(t.int_w().unwrap(), v, d, cs)
            }
            "ret" => {
                let t = self.ty()?;
                if t == Ty::Void {
                    I::Ret(None)
                } else {
                    let v = self.val(&t)?;
                    I::Ret(Some(self.typed(v, &t)))
                }
            }
            "unreachable" => I::Unreachable,
            "tail" | "musttail" | "notail" => {
                self.next()?;
                self.call(false)?
            }
            "call" => self.call(false)?,
            "invoke" => self.call(true)?,
            "fneg" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                self.flags();
                let t = self.ty()?;
                let a = self.val(&t)?;
                let mut v = vec![a];
                if op != "fneg" {
                    self.p(',')?;
                    v.push(self.val(&t)?);
                }
                let w = t.int_w().unwrap_or(0);
                I::Fp(op.into(), w, w, v)
            }
            "fcmp" => {
                self.flags();
                let p = match self.next()? {
                    Tok::Id(s) => s,
                    _ => return Err("fcmp".into()),
                };
                let t = self.ty()?;
                let a = self.val(&t)?;
                self.p(',')?;
                let b = self.val(&t)?;
                I::Fp(format!("fcmp {}", p), t.int_w().unwrap_or(0), 1, vec![a, b])
            }
            "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" => {
                self.flags();
                let t = self.ty()?;
                let a = self.val(&t)?;
                self.next()?;
                let u = self.ty()?;
                I::Fp(
                    op.into(),
                    t.int_w().unwrap_or(0),
                    u.int_w().unwrap_or(0),
                    vec![a],
                )
            }
            "fence" => I::Copy(Op::Undef),
            "atomicrmw" => {
                self.flags();
                let k = match self.next()? {
                    Tok::Id(k) => k,
                    _ => return Err("atomicrmw".into()),
                };
                let (_, p) = self.tyval()?;
                self.p(',')?;
                let (t, v) = self.tyval()?;
                I::Rmw(k, t, p, v)
            }
            "cmpxchg" => {
                self.eat_id("weak");
                self.flags();
                let (_, p) = self.tyval()?;
                self.p(',')?;
                let (t, a) = self.tyval()?;
                self.p(',')?;
                let (_, b) = self.tyval()?;
                I::CmpXchg(t, p, a, b)
            }
            _ => I::Bad(op.to_string()),
        })
    }
    /// zeroinitializer of a scalar
    fn typed(&self, v: Op, _t: &Ty) -> Op {
        v
    }
    fn call(&mut self, invoke: bool) -> R<I> {
        // calling convention, return attributes
        self.flags();
        self.skip_attrs()?;
        let ret = self.ty()?;
        // optional function type
        if self.is_p('(') {
            self.skip_parens()?;
        }
        if self.is_id("asm") {
            // of black_box
            let first = self.t[self.i..].iter().find_map(|t| if let Tok::Str(s) = t { Some(s) } else { None });
            if !invoke && ret == Ty::Void && first.map_or(false, |s| s.is_empty()) {
                return Ok(I::Copy(Op::Undef));
            }
            return Ok(I::Bad("inline asm".into()));
        }
        let callee = self.val(&Ty::Ptr)?;
        self.p('(')?;
        let mut args = vec![];
        if !self.eat_p(')') {
            loop {
                if self.eat_id("metadata") {
                    // skip to the , or ) at this level
                    let mut d = 0;
                    loop {
                        match self.peek() {
                            Some(Tok::P('(')) | Some(Tok::P('{')) => d += 1,
                            Some(Tok::P(')')) if d == 0 => break,
                            Some(Tok::P(',')) if d == 0 => break,
                            Some(Tok::P(')')) | Some(Tok::P('}')) => d -= 1,
                            None => return Err("metadata arg".into()),
                            _ => {}
                        }
                        self.i += 1;
                    }
                    args.push((Ty::Other, Op::Undef));
                } else {
                    args.push(self.tyval()?);
                }
                if self.eat_p(',') {
                    continue;
                }
                self.p(')')?;
                break;
            }
        }
        let mut normal = None;
        if invoke {
            while !self.is_id("to") {
                self.next()?;
            }
            self.i += 1;
            normal = Some(self.label()?);
        }
        Ok(I::Call {
            callee,
            args,
            ret,
            normal,
        })
    }
}

fn field(toks: &[Tok], name: &str) -> Option<Tok> {
    for i in 0..toks.len() {
        if let Tok::Id(s) = &toks[i] {
            if s == name && toks.get(i + 1) == Some(&Tok::P(':')) {
                return toks.get(i + 2).cloned();
            }
        }
    }
    None
}

pub fn parse(src: &str) -> Result<Module, String> {
    let mut m = Module::default();
    let lines: Vec<&str> = src.lines().collect();
    // named types first
    for l in &lines {
        if l.starts_with('%') && l.contains(" = type ") {
            let t = lex(l);
            if let Tok::Local(n) = t[0].clone() {
                let mut p = P::new(&mut m);
                p.set(t);
                p.i = 3;
                let ty = p.ty().unwrap_or(Ty::Other);
                m.types.insert(n, ty);
            }
        }
    }
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        if l.starts_with('@') {
            let toks = lex(l);
            let name = match &toks[0] {
                Tok::Glob(n) => n.clone(),
                _ => return Err("global".into()),
            };
            let mut p = P::new(&mut m);
            p.set(toks);
            p.i = 2;
            let g = p.global(&name);
            let mut constant = false;
            let mut found = false;
            let mut external = false;
            while let Ok(t) = p.next() {
                match t {
                    Tok::Id(s) if s == "constant" => {
                        constant = true;
                        found = true;
                        break;
                    }
                    Tok::Id(s) if s == "global" => {
                        found = true;
                        break;
                    }
                    Tok::Id(s) if s == "alias" => break,
                    Tok::Id(s) if s == "external" || s == "extern_weak" => external = true,
                    _ => {}
                }
            }
            if found {
                let ty = p.ty().map_err(|e| format!("global {}: {}", name, e))?;
                let init = if external {
                    None
                } else {
                    Some(p.val(&ty).map_err(|e| format!("global {}: {}", name, e))?)
                };
                m.globals[g as usize].ty = ty;
                m.globals[g as usize].init = init;
                m.globals[g as usize].constant = constant;
            } else {
                // alias: @a = ... alias ty, ptr @b
                let mut last = None;
                while let Ok(t) = p.next() {
                    if let Tok::Glob(n) = t {
                        last = Some(n);
                    }
                }
                if let Some(n) = last {
                    let tg = p.global(&n);
                    m.globals[g as usize].init = Some(Op::Global(tg, 0));
                }
            }
        } else if l.starts_with("declare") || l.starts_with("define") {
            let def = l.starts_with("define");
            let toks = lex(l);
            let noreturn = false;
            let mut p = P::new(&mut m);
            p.set(toks);
            let mut sp = 0;
            for j in 0..p.t.len() {
                if p.t[j] == Tok::Md("dbg".into()) {
                    if let Some(Tok::Md(n)) = p.t.get(j + 1) {
                        sp = n.parse().unwrap_or(0);
                    }
                }
            }
            while !matches!(p.peek(), Some(Tok::Glob(_))) {
                p.next().map_err(|_| "function name")?;
            }
            let name = match p.next()? {
                Tok::Glob(n) => n,
                _ => unreachable!(),
            };
            let g = p.global(&name);
            let mut params = vec![];
            let mut param_tys = vec![];
            p.p('(')?;
            if !p.eat_p(')') {
                loop {
                    if p.is_p('.') {
                        while !p.is_p(')') {
                            p.next()?;
                        }
                    }
                    if let Some(Tok::Id(s)) = p.peek() {
                        if s.starts_with("...") {
                            p.next()?;
                            p.p(')')?;
                            break;
                        }
                    }
                    let t = p.ty().map_err(|e| format!("{}: {}", name, e))?;
                    p.skip_attrs()?;
                    param_tys.push(t);
                    if let Some(Tok::Local(n)) = p.peek() {
                        let n = n.clone();
                        p.i += 1;
                        let r = p.reg(&n);
                        params.push(r);
                    }
                    if p.eat_p(',') {
                        continue;
                    }
                    p.p(')')?;
                    break;
                }
            }
            let f = p.m.funcs.len() as u32;
            let mut blocks: Vec<Option<Block>> = vec![];
            let mut nregs = 0;
            if def {
                i += 1;
                let mut cur: Option<u32> = None;
                while lines[i] != "}" {
                    let mut line = lines[i].to_string();
                    i += 1;
                    let tr = line.trim_start().to_string();
                    if tr.is_empty() || tr.starts_with(';') || tr.starts_with("#dbg") {
                        continue;
                    }
                    if !line.starts_with(' ') {
                        // label
                        let toks = lex(&line);
                        let n = match &toks[0] {
                            Tok::Id(s) | Tok::Num(s) => s.clone(),
                            Tok::Str(s) => String::from_utf8(s.clone()).unwrap(),
                            t => return Err(format!("label {:?}", t)),
                        };
                        let b = p.block(&n);
                        while blocks.len() <= b as usize {
                            blocks.push(None);
                        }
                        blocks[b as usize] = Some(Block { insts: vec![] });
                        cur = Some(b);
                        continue;
                    }
                    if tr.starts_with("switch") {
                        while !line.contains(']') {
                            line.push(' ');
                            line.push_str(lines[i]);
                            i += 1;
                        }
                    }
                    if line.contains(" = landingpad ") || tr.starts_with("landingpad") {
                        while i < lines.len() {
                            let n = lines[i].trim_start();
                            if n.starts_with("cleanup")
                                || n.starts_with("catch")
                                || n.starts_with("filter")
                            {
                                i += 1;
                            } else {
                                break;
                            }
                        }
                    }
                    if (tr.starts_with("invoke") || line.contains(" = invoke "))
                        && !line.contains(" unwind ")
                    {
                        line.push(' ');
                        line.push_str(lines[i]);
                        i += 1;
                    }
                    if cur.is_none() {
                        // unnamed entry block
                        let n = format!("{}", params.len());
                        let b = p.block(&n);
                        while blocks.len() <= b as usize {
                            blocks.push(None);
                        }
                        blocks[b as usize] = Some(Block { insts: vec![] });
                        cur = Some(b);
                    }
                    let toks = lex(&line);
                    p.set(toks);
                    let inst = match p.inst() {
                        Ok(x) => x,
                        Err(e) => {
                            // keep going: an error only when executed
                            let dst = {
                                p.i = 0;
                                match (p.t.get(0).cloned(), p.t.get(1)) {
                                    (Some(Tok::Local(n)), Some(Tok::P('='))) => p.reg(&n),
                                    _ => NOREG,
                                }
                            };
                            Inst {
                                dst,
                                i: I::Bad(format!("{}: {}", e, line.trim())),
                                dbg: 0,
                            }
                        }
                    };
                    blocks[cur.unwrap() as usize]
                        .as_mut()
                        .unwrap()
                        .insts
                        .push(inst);
                }
                nregs = p.regs.len() as u32;
            }
            let nb = blocks.len();
            // entry must be block 0
            let blocks: Vec<Block> = blocks
                .into_iter()
                .map(|b| b.unwrap_or(Block { insts: vec![] }))
                .collect();
            let _ = nb;
            m.globals[g as usize].func = Some(f);
            m.fmap.insert(name.clone(), f);
            m.funcs.push(Func {
                name,
                params,
                param_tys,
                nregs,
                blocks,
                declared: !def,
                noreturn,
                sp,
            });
        } else if l.starts_with('!') {
            let isloc = l.contains("!DILocation(");
            let issp = l.contains("!DISubprogram(");
            let islb = l.contains("!DILexicalBlock");
            let isf = l.contains("!DIFile(");
            if isloc || issp || islb || isf {
                let t = lex(l);
                let id: u32 = match &t[0] {
                    Tok::Md(s) => s.parse().unwrap_or(0),
                    _ => 0,
                };
                m.max_md = m.max_md.max(id);
                let mdn = |n: &str| match field(&t, n) {
                    Some(Tok::Md(s)) => s.parse().unwrap_or(0),
                    Some(Tok::Num(s)) => s.parse().unwrap_or(0),
                    _ => 0u32,
                };
                let st = |n: &str| match field(&t, n) {
                    Some(Tok::Str(s)) => String::from_utf8_lossy(&s).to_string(),
                    _ => String::new(),
                };
                if isloc {
                    m.locs.insert(
                        id,
                        Loc {
                            line: mdn("line"),
                            scope: mdn("scope"),
                            inlined: mdn("inlinedAt"),
                        },
                    );
                } else if issp {
                    let mut n = st("linkageName");
                    if n.is_empty() {
                        n = st("name");
                    }
                    m.subprograms
                        .insert(id, (n, st("name"), mdn("file"), mdn("line")));
                } else if islb {
                    m.scopes.insert(id, mdn("scope"));
                } else {
                    m.files
                        .insert(id, format!("{}|{}", st("directory"), st("filename")));
                }
            }
        }
        i += 1;
    }
    Ok(m)
}

impl Module {
    /// (function name, source file, line) of a location
    pub fn where_is(&self, dbg: u32) -> Option<(String, String, u32)> {
        let l = self.locs.get(&dbg)?;
        let mut s = l.scope;
        for _ in 0..64 {
            if let Some((n, _, f, _)) = self.subprograms.get(&s) {
                return Some((
                    n.clone(),
                    self.files.get(f).cloned().unwrap_or_default(),
                    l.line,
                ));
            }
            s = *self.scopes.get(&s)?;
        }
        None
    }
}
