//! Symbolic interpreter: depth first over the paths of one scenario.

use crate::ir::*;
use crate::solver::{Answer, Solver};
use crate::term::FxMap;
use crate::term::{eval_bin, mask, sext, Bin, Model, Terms, K, T};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    T(T),
    A(Rc<Vec<Val>>),
}

#[derive(Clone)]
struct Log {
    off: T,
    lo: u64,
    hi: u64,
    len: u32,
    val: Val,
}

#[derive(Clone)]
struct UfRegion {
    start: u64,
    count: u64,
    esz: u32,
    uf: u32,
}

#[derive(Clone, PartialEq, Debug)]
enum Kind {
    Heap,
    Stack,
    Global,
    Func(u32),
}

#[derive(Clone)]
struct Obj {
    data: Vec<u8>,
    sym: BTreeMap<u64, (u32, T)>,
    log: Vec<Log>,
    ufr: Vec<UfRegion>,
    kind: Kind,
    constant: bool,
}

#[derive(Clone)]
struct Frame {
    f: u32,
    b: u32,
    prev: u32,
    ip: u32,
    regs: Vec<Val>,
    allocas: Vec<u32>,
    dst: u32,
    normal: Option<u32>,
}

#[derive(Clone, Debug)]
pub enum Nd {
    Sym(u32, T),
    Choice(u64),
}

#[derive(Clone)]
struct State {
    frames: Vec<Frame>,
    mem: Vec<Option<Rc<Obj>>>,
    free: Vec<u32>,
    pc: Vec<T>,
    known: HashMap<T, bool>,
    /// inputs known to be equal to another one (the representative), and a name for this map
    same: Rc<FxMap<T, T>>,
    same_id: u32,
    model: Option<Rc<Model>>,
    nd: Vec<Nd>,
    nsym: u32,
    obs: Vec<Val>,
    covers: BTreeSet<u32>,
    heap: u64,
    steps: u64,
    first_choice: bool,
    /// it is not known whether anything goes this way
    doubt: bool,
}

/// for the choice of samples and the random search for models
pub static SEED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

pub enum End {
    Done,
    Pruned,
    Panic(String),
    Assert(u32),
    StepLimit,
    Deadline,
    /// nothing is known about the path
    Undecided,
    Error(String),
}

type R<X> = Result<X, End>;

fn err<X>(s: impl Into<String>) -> R<X> {
    Err(End::Error(s.into()))
}

#[derive(Clone)]
pub struct Job {
    pub name: String,
    pub func: String,
    pub params: Vec<u64>,
    pub shard: Option<(u64, u64)>,
    pub steps: u64,
    pub max_secs: f64,
    /// jobs that must be finished for the check to count as run
    pub must: bool,
    pub idx: usize,
}

#[derive(Default)]
pub struct JobResult {
    pub status: String,
    pub paths: u64,
    pub pruned: u64,
    pub instrs: u64,
    pub forks: u64,
    pub asserts: u64,
    /// decided by putting equal inputs in place of each other
    pub rewritten: u64,
    pub asserts_folded: u64,
    pub asserts_solver: u64,
    pub asserts_unknown: u64,
    pub unknown_branches: u64,
    pub paths_undecided: u64,
    pub covers: BTreeSet<u32>,
    pub violations: Vec<(String, String)>,
    /// (replay, expected observations, expected end)
    pub samples: Vec<(String, Vec<u128>)>,
    pub terms: usize,
    pub max_inputs: u32,
    pub secs: f64,
}

pub struct Exec<'m> {
    m: &'m Module,
    pub tt: Terms,
    pub solver: Solver,
    work: Vec<State>,
    /// paths of which it is not known whether they are feasible
    later: Vec<State>,
    gobj: Vec<Option<Rc<Obj>>>,
    pub cov: Vec<bool>,
    pub fcov: Vec<bool>,
    job: Job,
    pub res: JobResult,
    deadline: Instant,
    rng: u64,
    pub stop: &'m std::sync::atomic::AtomicBool,
    fkind: Vec<Ext>,
    max_samples: usize,
    same_ids: u32,
    same_memo: FxMap<(u32, T), T>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ext {
    Defined,
    Panic,
    Alloc,
    AllocZeroed,
    Realloc,
    Dealloc,
    Nop,
    Bcmp,
    Memcmp,
    Memcpy,
    Memset,
    Random,
    Hr,
    Llvm,
    Math,
    Unknown,
}

fn classify(f: &Func) -> Ext {
    let n = f.name.as_str();
    if n.starts_with("hr_") {
        return Ext::Hr;
    }
    if n.starts_with("llvm.") {
        return Ext::Llvm;
    }
    if n.contains("___rust_alloc_zeroed") {
        return Ext::AllocZeroed;
    }
    if n.contains("___rust_alloc_error_handler") {
        return Ext::Panic;
    }
    if n.ends_with("___rust_alloc") || n == "__rust_alloc" {
        return Ext::Alloc;
    }
    if n.contains("___rust_realloc") || n == "__rust_realloc" {
        return Ext::Realloc;
    }
    if n.contains("___rust_dealloc") || n == "__rust_dealloc" {
        return Ext::Dealloc;
    }
    if n.contains("___rust_no_alloc_shim") {
        return Ext::Nop;
    }
    match n {
        // thread local destructors do not run; others that are of no account
        "__cxa_thread_atexit_impl" | "pthread_key_create" | "pthread_setspecific" | "sched_yield" => return Ext::Nop,
        "getrandom" => return Ext::Random,
        "bcmp" => return Ext::Bcmp,
        "memcmp" => return Ext::Memcmp,
        "memcpy" | "memmove" => return Ext::Memcpy,
        "memset" => return Ext::Memset,
        "log2" | "log2f" | "exp2" | "exp2f" | "pow" | "powf" | "log" | "exp" | "sqrt" | "floor"
        | "ceil" | "round" | "log10" | "trunc" => return Ext::Math,
        "rust_begin_unwind" | "abort" => return Ext::Panic,
        _ => {}
    }
    if n.contains("5stdio6__print") || n.contains("5stdio7__eprint") {
        return Ext::Nop;
    }
    for p in [
        "4core9panicking",
        "panicking9panic_fmt",
        "unwrap_failed",
        "expect_failed",
        "slice_index_fail",
        "index_fail",
        "index_len_fail",
        "index_order_fail",
        "index_overflow_fail",
        "len_mismatch_fail",
        "handle_alloc_error",
        "capacity_overflow",
        "7raw_vec12handle_error",
        "rust_begin_unwind",
        "begin_panic",
        "7process5abort",
        "str16slice_error_fail",
    ] {
        if n.contains(p) {
            return Ext::Panic;
        }
    }
    if f.declared {
        Ext::Unknown
    } else {
        Ext::Defined
    }
}

fn is_zero(v: &Val) -> bool {
    matches!(v, Val::C(0))
}

impl<'m> Exec<'m> {
    pub fn new(
        m: &'m Module,
        job: Job,
        deadline: Instant,
        stop: &'m std::sync::atomic::AtomicBool,
        max_samples: usize,
    ) -> Self {
        let own = Instant::now() + std::time::Duration::from_secs_f64(job.max_secs);
        let deadline = deadline.min(own);
        Exec {
            m,
            tt: Terms::new(),
            solver: Solver::new(deadline),
            work: vec![],
            later: vec![],
            same_ids: 0,
            same_memo: Default::default(),
            gobj: vec![None; m.globals.len() + 1],
            cov: vec![false; m.max_md as usize + 1],
            fcov: vec![false; m.funcs.len()],
            rng: 0x9E3779B97F4A7C15
                ^ (job.idx as u64 + 1 + SEED.load(std::sync::atomic::Ordering::Relaxed))
                    .wrapping_mul(0xD1B54A32D192ED03),
            job,
            res: JobResult::default(),
            deadline,
            stop,
            fkind: m.funcs.iter().map(classify).collect(),
            max_samples,
        }
    }

    fn term(&mut self, v: &Val, w: u32) -> T {
        match v {
            Val::C(c) => self.tt.c(*c, w),
            Val::T(t) => *t,
            Val::A(_) => panic!("aggregate as a scalar"),
        }
    }
    fn val(&self, t: T) -> Val {
        match self.tt.as_c(t) {
            Some(c) => Val::C(c),
            None => Val::T(t),
        }
    }

    // ---- globals
    fn gaddr(&self, g: u32, off: i64) -> u128 {
        ((((g as u64) + 1) << 32).wrapping_add(off as u64)) as u128
    }
    fn resolve_alias(&self, g: u32) -> u32 {
        let gl = &self.m.globals[g as usize];
        if gl.func.is_none() && gl.ty == Ty::Other {
            if let Some(Op::Global(t, 0)) = gl.init {
                return t;
            }
        }
        g
    }
    fn init_bytes(&self, ty: &Ty, v: &Op, out: &mut [u8]) -> Result<(), String> {
        match v {
            Op::Undef | Op::Zero => {}
            Op::C(c) => {
                let n = ty.store_size() as usize;
                out[..n].copy_from_slice(&c.to_le_bytes()[..n]);
            }
            Op::Bytes(b) => out[..b.len()].copy_from_slice(b),
            Op::Global(g, o) => {
                let a = self.gaddr(self.resolve_alias(*g), *o) as u64;
                out[..8].copy_from_slice(&a.to_le_bytes());
            }
            Op::Agg(vs) => {
                for (i, v) in vs.iter().enumerate() {
                    let o = ty.field_off(i) as usize;
                    let t = ty.elem(i);
                    let n = t.size() as usize;
                    self.init_bytes(t, v, &mut out[o..o + n])?;
                }
            }
            o => return Err(format!("initializer {:?}", o)),
        }
        Ok(())
    }
    fn global_obj(&mut self, g: u32) -> R<Rc<Obj>> {
        if let Some(o) = &self.gobj[g as usize] {
            return Ok(o.clone());
        }
        let gl = &self.m.globals[g as usize];
        let o = if let Some(f) = gl.func {
            Obj {
                data: vec![],
                sym: BTreeMap::new(),
                log: vec![],
                ufr: vec![],
                kind: Kind::Func(f),
                constant: true,
            }
        } else {
            let mut data = vec![0u8; gl.ty.size() as usize];
            match &gl.init {
                Some(v) => {
                    if let Err(e) = self.init_bytes(&gl.ty, v, &mut data) {
                        return err(format!("{}: {}", gl.name, e));
                    }
                }
                None => return err(format!("external global {}", gl.name)),
            }
            Obj {
                data,
                sym: BTreeMap::new(),
                log: vec![],
                ufr: vec![],
                kind: Kind::Global,
                constant: gl.constant,
            }
        };
        let o = Rc::new(o);
        self.gobj[g as usize] = Some(o.clone());
        Ok(o)
    }

    fn obj<'a>(&mut self, st: &'a mut State, id: u32) -> R<&'a mut Option<Rc<Obj>>> {
        if (id as usize) < st.mem.len() && st.mem[id as usize].is_some() {
            return Ok(&mut st.mem[id as usize]);
        }
        if id >= 1 && (id as usize) <= self.m.globals.len() {
            let o = self.global_obj(id - 1)?;
            st.mem[id as usize] = Some(o);
            return Ok(&mut st.mem[id as usize]);
        }
        err(format!("access to invalid object {}", id))
    }
    fn alloc(&mut self, st: &mut State, size: u64, kind: Kind) -> u128 {
        let o = Rc::new(Obj {
            data: vec![0; size as usize],
            sym: BTreeMap::new(),
            log: vec![],
            ufr: vec![],
            kind,
            constant: false,
        });
        let id = match st.free.pop() {
            Some(i) => {
                st.mem[i as usize] = Some(o);
                i
            }
            None => {
                st.mem.push(Some(o));
                st.mem.len() as u32 - 1
            }
        };
        (id as u128) << 32
    }
    fn release(&mut self, st: &mut State, id: u32) {
        st.mem[id as usize] = None;
        st.free.push(id);
    }

    // ---- path condition
    fn query(&mut self, st: &State, c: T) -> Answer {
        let mut c = c;
        if st.same_id != 0 {
            if self.same_memo.len() > 1 << 20 {
                self.same_memo.clear();
            }
            c = self.tt.replace(c, &st.same, st.same_id, &mut self.same_memo);
            if c == 0 {
                self.res.rewritten += 1;
                return Answer::Unsat;
            }
        }
        self.solver
            .check(&self.tt, &st.pc, Some(c), st.model.as_deref(), !st.doubt)
    }
    /// a model of the path, unless it takes too long to find one
    fn ensure_model(&mut self, st: &mut State) -> R<()> {
        if st.model.is_none() && !st.doubt {
            self.find_model(st)?;
        }
        Ok(())
    }
    fn find_model(&mut self, st: &mut State) -> R<()> {
        if st.model.is_none() {
            match self.solver.check(&self.tt, &st.pc, None, None, true) {
                Answer::Sat(m) => {
                    st.model = Some(Rc::new(m));
                    st.doubt = false;
                }
                Answer::Unsat => return Err(End::Pruned),
                Answer::Unknown => st.doubt = true,
            }
        }
        Ok(())
    }
    fn lookup_known(&self, st: &State, c: T) -> Option<bool> {
        if c <= 1 {
            return Some(c == 1);
        }
        if let Some(b) = st.known.get(&c) {
            return Some(*b);
        }
        match *self.tt.k(c) {
            K::Not(x) => self.lookup_known(st, x).map(|b| !b),
            K::BAnd(a, b) => {
                let x = self.lookup_known(st, a);
                if x == Some(false) {
                    return x;
                }
                let y = self.lookup_known(st, b);
                match (x, y) {
                    (_, Some(false)) => Some(false),
                    (Some(true), Some(true)) => Some(true),
                    _ => None,
                }
            }
            _ => None,
        }
    }
    fn learn(&mut self, st: &mut State, c: T, b: bool) {
        st.known.insert(c, b);
        match *self.tt.k(c) {
            K::Eq(x, y)
                if b
                    && matches!(self.tt.k(x), K::Var(_))
                    && matches!(self.tt.k(y), K::Var(_)) =>
            {
                let of = |t: T| st.same.get(&t).copied().unwrap_or(t);
                let (x, y) = (of(x), of(y));
                if x != y {
                    let (x, y) = (x.min(y), x.max(y));
                    let mut m = (*st.same).clone();
                    for v in m.values_mut() {
                        if *v == y {
                            *v = x;
                        }
                    }
                    m.insert(y, x);
                    st.same = Rc::new(m);
                    self.same_ids += 1;
                    st.same_id = self.same_ids;
                }
            }
            K::Not(x) => self.learn(st, x, !b),
            K::BAnd(x, y) if b => {
                self.learn(st, x, true);
                self.learn(st, y, true);
            }
            _ => {}
        }
    }
    fn add(&mut self, st: &mut State, c: T, b: bool) {
        let lit = if b { c } else { self.tt.not(c) };
        st.pc.push(lit);
        self.learn(st, c, b);
    }
    /// Which way does the path go at `c`? The other way, when possible, is queued; `st` must not
    /// have been changed since the start of the current instruction.
    fn decide(&mut self, st: &mut State, c: T) -> R<bool> {
        if let Some(b) = self.lookup_known(st, c) {
            return Ok(b);
        }
        if Instant::now() > self.deadline {
            return Err(End::Deadline);
        }
        self.ensure_model(st)?;
        let side = match &st.model {
            Some(m) => self.tt.eval(c, m) == 1,
            None => {
                // no model: try both sides
                match self.query(st, c) {
                    Answer::Sat(m) => {
                        st.model = Some(Rc::new(m));
                        st.doubt = false;
                        true
                    }
                    Answer::Unsat => {
                        self.learn(st, c, false);
                        return Ok(false);
                    }
                    Answer::Unknown => true,
                }
            }
        };
        let other = if side { self.tt.not(c) } else { c };
        match self.query(st, other) {
            Answer::Unsat => {
                self.learn(st, c, side);
                return Ok(side);
            }
            Answer::Sat(m) => {
                let mut o = st.clone();
                o.model = Some(Rc::new(m));
                o.doubt = false;
                self.add(&mut o, c, !side);
                self.work.push(o);
                self.res.forks += 1;
            }
            Answer::Unknown => {
                self.res.unknown_branches += 1;
                let mut o = st.clone();
                o.model = None;
                o.doubt = true;
                self.add(&mut o, c, !side);
                self.later.push(o);
                self.res.forks += 1;
            }
        }
        self.add(st, c, side);
        Ok(side)
    }
    fn decide_v(&mut self, st: &mut State, v: &Val) -> R<bool> {
        match v {
            Val::C(c) => Ok(*c & 1 == 1),
            Val::T(t) => self.decide(st, *t),
            Val::A(_) => err("aggregate condition"),
        }
    }
    /// force a value to be concrete on this path
    fn conc(&mut self, st: &mut State, v: &Val, w: u32) -> R<u128> {
        let t = match v {
            Val::C(c) => return Ok(*c),
            Val::T(t) => *t,
            Val::A(_) => return err("aggregate to concretize"),
        };
        let mut ex = vec![];
        loop {
            // a value already fixed on the path?
            self.ensure_model(st)?;
            let x = match &st.model {
                Some(m) => self.tt.eval(t, m),
                None => return Err(End::Undecided),
            };
            if ex.contains(&x) {
                return err("concretize");
            }
            ex.push(x);
            let c = self.tt.c(x, w);
            let e = self.tt.eq(t, c);
            if self.decide(st, e)? {
                return Ok(x);
            }
        }
    }

    // ---- memory
    fn split(&mut self, addr: &Val) -> Option<(u32, u64)> {
        match addr {
            Val::C(a) => Some(((*a >> 32) as u32, *a as u64 & 0xffff_ffff)),
            _ => None,
        }
    }
    fn read_bytes_term(&mut self, o: &Obj, off: u64, len: u32) -> R<Val> {
        // base content, no log
        if o.sym.is_empty() && o.ufr.is_empty() {
            let mut b = [0u8; 16];
            b[..len as usize].copy_from_slice(&o.data[off as usize..off as usize + len as usize]);
            return Ok(Val::C(u128::from_le_bytes(b)));
        }
        if let Some(&(l, t)) = o.sym.get(&off) {
            if l == len {
                return Ok(Val::T(t));
            }
        }
        for r in &o.ufr {
            let end = r.start + r.count * r.esz as u64;
            if off >= r.start && off < end {
                if (off - r.start) % r.esz as u64 == 0 && len == r.esz {
                    let i = self.tt.c(((off - r.start) / r.esz as u64) as u128, 8);
                    let t = self.tt.uf(r.uf, i, r.esz * 8);
                    return Ok(Val::T(t));
                }
            }
        }
        // byte by byte
        let mut any = false;
        let mut parts: Vec<Val> = vec![];
        for k in 0..len as u64 {
            let v = self.read_byte(o, off + k)?;
            if !matches!(v, Val::C(_)) {
                any = true;
            }
            parts.push(v);
        }
        if !any {
            let mut r = 0u128;
            for (k, v) in parts.iter().enumerate() {
                if let Val::C(c) = v {
                    r |= c << (8 * k);
                }
            }
            return Ok(Val::C(r));
        }
        let mut acc = self.term(&parts[0], 8);
        for v in &parts[1..] {
            let t = self.term(v, 8);
            acc = self.tt.concat(t, acc);
        }
        Ok(self.val(acc))
    }
    fn read_byte(&mut self, o: &Obj, off: u64) -> R<Val> {
        if let Some((&s, &(l, t))) = o.sym.range(..=off).next_back() {
            if off < s + l as u64 {
                let x = self.tt.extract(t, ((off - s) * 8) as u32, 8);
                return Ok(self.val(x));
            }
        }
        for r in &o.ufr {
            let end = r.start + r.count * r.esz as u64;
            if off >= r.start && off < end {
                let i = self.tt.c(((off - r.start) / r.esz as u64) as u128, 8);
                let t = self.tt.uf(r.uf, i, r.esz * 8);
                let x = self
                    .tt
                    .extract(t, (((off - r.start) % r.esz as u64) * 8) as u32, 8);
                return Ok(self.val(x));
            }
        }
        Ok(Val::C(o.data[off as usize] as u128))
    }
    fn apply_log(&mut self, o: &Obj, off: T, lo: u64, hi: u64, len: u32, base: Val) -> R<Val> {
        let mut v = base;
        for e in o.log.clone() {
            if hi + len as u64 <= e.lo || e.hi + e.len as u64 <= lo {
                continue;
            }
            if e.len != len {
                return err("mixed size access to symbolically indexed memory");
            }
            let c = self.tt.eq(off, e.off);
            let a = self.term(&e.val, len * 8);
            let b = self.term(&v, len * 8);
            let r = self.tt.ite(c, a, b);
            v = self.val(r);
        }
        Ok(v)
    }
    fn read_obj(&mut self, o: &Rc<Obj>, off: u64, len: u32) -> R<Val> {
        if off + len as u64 > o.data.len() as u64 && o.ufr.is_empty() {
            return err(format!(
                "read of {} at {} past the end {}",
                len,
                off,
                o.data.len()
            ));
        }
        if o.log.is_empty() {
            return self.read_bytes_term(o, off, len);
        }
        let hit = o
            .log
            .iter()
            .any(|e| off < e.hi + e.len as u64 && e.lo < off + len as u64);
        if !hit {
            return self.read_bytes_term(o, off, len);
        }
        let l0 = o
            .log
            .iter()
            .find(|e| off < e.hi + e.len as u64 && e.lo < off + len as u64)
            .unwrap()
            .len;
        if l0 < len && len % l0 == 0 {
            let mut acc: Option<T> = None;
            for k in 0..len / l0 {
                let p = self.read_obj(o, off + (k * l0) as u64, l0)?;
                let p = self.term(&p, l0 * 8);
                acc = Some(match acc {
                    None => p,
                    Some(a) => self.tt.concat(p, a),
                });
            }
            return Ok(self.val(acc.unwrap()));
        }
        let base = self.read_bytes_term(o, off, len)?;
        let t = self.tt.c(off as u128, 64);
        self.apply_log(o, t, off, off, len, base)
    }
    /// split a symbolic address into object and offset term with its range
    fn sym_addr(&mut self, st: &mut State, t: T, len: u32) -> R<Option<(u32, T, u64, u64)>> {
        let (lo, hi) = self.tt.range(t);
        let v = if lo >> 32 == hi >> 32 {
            lo
        } else {
            self.ensure_model(st)?;
            match &st.model {
                Some(m) => self.tt.eval(t, m),
                None => return Ok(None),
            }
        };
        let id = (v >> 32) as u32;
        let base = self.tt.c((id as u128) << 32, 64);
        let off = self.tt.sub(t, base);
        let (lo, hi) = self.tt.range(off);
        let size = match self.obj(st, id)?.as_ref().unwrap() {
            o if !o.ufr.is_empty() => {
                let e = o
                    .ufr
                    .iter()
                    .map(|r| r.start + r.count * r.esz as u64)
                    .max()
                    .unwrap();
                e.max(o.data.len() as u64)
            }
            o => o.data.len() as u64,
        };
        let fits = hi as u64 as u128 == hi && hi + len as u128 <= size as u128;
        if fits {
            return Ok(Some((id, off, lo as u64, hi as u64)));
        }
        if size < len as u64 {
            return err("symbolic access to a too small object");
        }
        // is it in bounds on this path?
        let lim = self.tt.c((size - len as u64) as u128, 64);
        let oob = self.tt.ult(lim, off);
        match self.lookup_known(st, oob) {
            Some(false) => {}
            Some(true) => return err("symbolic access out of bounds"),
            None => match self.query(st, oob) {
                Answer::Unsat => {
                    self.learn(st, oob, false);
                }
                _ => return Ok(None), // several objects possible: concretize
            },
        }
        Ok(Some((id, off, 0, size - len as u64)))
    }
    fn load(&mut self, st: &mut State, addr: &Val, len: u32) -> R<Val> {
        let addr = match addr {
            Val::T(t) => {
                let t = *t;
                match self.sym_addr(st, t, len)? {
                    Some((id, off, lo, hi)) => {
                        if lo == hi {
                            Val::C(((id as u128) << 32) + lo as u128)
                        } else if let Some(v) = self.load_sym(st, id, off, lo, hi, len)? {
                            return Ok(v);
                        } else {
                            Val::C(self.conc(st, addr, 64)?)
                        }
                    }
                    None => Val::C(self.conc(st, addr, 64)?),
                }
            }
            a => a.clone(),
        };
        let (id, off) = self.split(&addr).unwrap();
        let o = self.obj(st, id)?.as_ref().unwrap().clone();
        self.read_obj(&o, off, len)
    }
    /// stride of the offset term: (index, scale, lowest offset)
    fn stride(&mut self, off: T, lo: u64) -> (T, u64) {
        if let K::Lin(c0, items) = self.tt.k(off).clone() {
            let mut g: u128 = 0;
            for (_, k) in items.iter() {
                let mut a = g;
                let mut b = *k;
                while b != 0 {
                    let r = a % b;
                    a = b;
                    b = r;
                }
                g = a;
            }
            // exact only without wrap around
            let mut hi = Some(0u128);
            for &(a, k) in items.iter() {
                let (_, h) = self.tt.range(a);
                hi = hi.and_then(|x| h.checked_mul(k).and_then(|y| x.checked_add(y)));
            }
            if g > 1
                && hi.map_or(false, |h| h < 1 << 63)
                && c0 as u64 <= lo
                && (lo - c0 as u64) as u128 % g == 0
            {
                let mut acc = self.tt.c(0, 64);
                for &(a, k) in items.iter() {
                    let kk = self.tt.c(k / g, 64);
                    let x = self.tt.mul(a, kk);
                    acc = self.tt.add(acc, x);
                }
                let d = self.tt.c((lo - c0 as u64) as u128 / g, 64);
                let idx = self.tt.sub(acc, d);
                return (idx, g as u64);
            }
        }
        let l = self.tt.c(lo as u128, 64);
        (self.tt.sub(off, l), 1)
    }
    fn load_sym(
        &mut self,
        st: &mut State,
        id: u32,
        off: T,
        lo: u64,
        hi: u64,
        len: u32,
    ) -> R<Option<Val>> {
        let o = self.obj(st, id)?.as_ref().unwrap().clone();
        let (mut idx, mut s) = self.stride(off, lo);
        if s == 1 && len > 1 {
            // scaled by a power of two under a xor, say
            if !len.is_power_of_two() {
                return Ok(None);
            }
            let b = len.trailing_zeros();
            let low = self.tt.extract(idx, 0, b);
            if self.tt.as_c(low) != Some(0) {
                return Ok(None);
            }
            let b = self.tt.c(b as u128, 64);
            idx = self.tt.lshr(idx, b);
            s = len as u64;
        }
        if s < len as u64 {
            return Ok(None);
        }
        let n = (hi - lo) / s + 1;
        if n > 4096 {
            return Ok(None);
        }
        for r in &o.ufr {
            if lo >= r.start && hi < r.start + r.count * r.esz as u64 {
                if s != r.esz as u64 || len != r.esz || (lo - r.start) % s != 0 {
                    return Ok(None);
                }
                let d = self.tt.c(((lo - r.start) / s) as u128, 64);
                idx = self.tt.add(idx, d);
                let i8 = self.tt.extract(idx, 0, 8);
                let t = self.tt.uf(r.uf, i8, r.esz * 8);
                return Ok(Some(Val::T(t)));
            }
        }
        let mut cells = vec![];
        let mut conc = true;
        for k in 0..n {
            let v = self.read_bytes_term(&o, lo + k * s, len)?;
            conc &= matches!(v, Val::C(_));
            cells.push(v);
        }
        let base = if conc {
            let vals: Vec<u128> = cells
                .iter()
                .map(|v| if let Val::C(c) = v { *c } else { 0 })
                .collect();
            let t = self.tt.lookup(vals, len * 8, idx);
            self.val(t)
        } else {
            if n > 512 {
                return Ok(None);
            }
            let mut acc = self.term(&cells[n as usize - 1], len * 8);
            for k in (0..n - 1).rev() {
                let kc = self.tt.c(k as u128, 64);
                let c = self.tt.eq(idx, kc);
                let v = self.term(&cells[k as usize], len * 8);
                acc = self.tt.ite(c, v, acc);
            }
            self.val(acc)
        };
        Ok(Some(self.apply_log(&o, off, lo, hi, len, base)?))
    }
    fn clear_range(&mut self, o: &mut Obj, off: u64, len: u64) {
        if !o.sym.is_empty() {
            // entries that overlap
            let mut ov = vec![];
            for (&s, &(l, t)) in o.sym.range(off.saturating_sub(16)..off + len) {
                if s + l as u64 > off {
                    ov.push((s, l, t));
                }
            }
            for (s, l, t) in ov {
                o.sym.remove(&s);
                if s < off || s + l as u64 > off + len {
                    for k in 0..l as u64 {
                        let p = s + k;
                        if p < off || p >= off + len {
                            let b = self.tt.extract(t, (k * 8) as u32, 8);
                            match self.tt.as_c(b) {
                                Some(c) => o.data[p as usize] = c as u8,
                                None => {
                                    o.sym.insert(p, (1, b));
                                }
                            }
                        }
                    }
                }
            }
        }
        if !o.log.is_empty() {
            o.log
                .retain(|e| !(off <= e.lo && e.hi + e.len as u64 <= off + len));
        }
    }
    fn write_obj(&mut self, o: &mut Obj, off: u64, len: u32, v: &Val) -> R<()> {
        if off + len as u64 > o.data.len() as u64 {
            return err(format!(
                "write of {} at {} past the end {}",
                len,
                off,
                o.data.len()
            ));
        }
        if !o.ufr.is_empty()
            && o.ufr
                .iter()
                .any(|r| off < r.start + r.count * r.esz as u64 && r.start < off + len as u64)
        {
            return err("write into a symbolic table");
        }
        if !o.log.is_empty() {
            self.clear_range(o, off, len as u64);
            if o.log
                .iter()
                .any(|e| off < e.hi + e.len as u64 && e.lo < off + len as u64)
            {
                let l0 = o
                    .log
                    .iter()
                    .find(|e| off < e.hi + e.len as u64 && e.lo < off + len as u64)
                    .unwrap()
                    .len;
                if l0 == len {
                    let t = self.tt.c(off as u128, 64);
                    o.log.push(Log {
                        off: t,
                        lo: off,
                        hi: off,
                        len,
                        val: v.clone(),
                    });
                    return Ok(());
                }
                if l0 < len && len % l0 == 0 {
                    let t = self.term(v, len * 8);
                    for k in 0..len / l0 {
                        let p = self.tt.extract(t, k * l0 * 8, l0 * 8);
                        let pv = self.val(p);
                        let oo = off + (k * l0) as u64;
                        let ot = self.tt.c(oo as u128, 64);
                        o.log.push(Log {
                            off: ot,
                            lo: oo,
                            hi: oo,
                            len: l0,
                            val: pv,
                        });
                    }
                    return Ok(());
                }
                return err("mixed size write to symbolically indexed memory");
            }
        }
        if !o.sym.is_empty() {
            self.clear_range(o, off, len as u64);
        }
        match v {
            Val::C(c) => {
                o.data[off as usize..off as usize + len as usize]
                    .copy_from_slice(&c.to_le_bytes()[..len as usize]);
            }
            Val::T(t) => {
                o.sym.insert(off, (len, *t));
            }
            Val::A(_) => return err("aggregate write"),
        }
        Ok(())
    }
    fn store(&mut self, st: &mut State, addr: &Val, len: u32, v: &Val) -> R<()> {
        let addr = match addr {
            Val::T(t) => {
                let t = *t;
                match self.sym_addr(st, t, len)? {
                    Some((id, off, lo, hi)) if hi > lo && hi - lo <= 65536 => {
                        let cell = self.obj(st, id)?;
                        let o = Rc::make_mut(cell.as_mut().unwrap());
                        if o.constant {
                            return err("write to a constant");
                        }
                        if !o.ufr.is_empty() {
                            return err("symbolic write into a symbolic table");
                        }
                        let ok = len == 1 || {
                            let (_, s) = self.stride(off, lo);
                            s % len as u64 == 0
                        };
                        if ok
                            && o.log.iter().all(|e| {
                                e.len == len || hi + len as u64 <= e.lo || e.hi + e.len as u64 <= lo
                            })
                        {
                            // an element the write replaces
                            o.log.retain(|e| !(e.off == off && e.len == len));
                            o.log.push(Log {
                                off,
                                lo,
                                hi,
                                len,
                                val: v.clone(),
                            });
                            return Ok(());
                        }
                        Val::C(self.conc(st, addr, 64)?)
                    }
                    _ => Val::C(self.conc(st, addr, 64)?),
                }
            }
            a => a.clone(),
        };
        let (id, off) = self.split(&addr).unwrap();
        let cell = self.obj(st, id)?;
        let o = Rc::make_mut(cell.as_mut().unwrap());
        if o.constant {
            return err("write to a constant");
        }
        if o.sym.is_empty() && o.log.is_empty() && o.ufr.is_empty() {
            if let Val::C(c) = v {
                if off + len as u64 > o.data.len() as u64 {
                    return err(format!(
                        "write of {} at {} past the end {}",
                        len,
                        off,
                        o.data.len()
                    ));
                }
                o.data[off as usize..off as usize + len as usize]
                    .copy_from_slice(&c.to_le_bytes()[..len as usize]);
                return Ok(());
            }
        }
        self.write_obj(o, off, len, v)
    }
    fn load_ty(&mut self, st: &mut State, addr: &Val, ty: &Ty) -> R<Val> {
        match ty {
            Ty::Int(w) => {
                let n = (*w + 7) / 8;
                let v = self.load(st, addr, n)?;
                if n * 8 != *w {
                    return Ok(match v {
                        Val::C(c) => Val::C(c & mask(*w)),
                        Val::T(t) => {
                            let x = self.tt.extract(t, 0, *w);
                            self.val(x)
                        }
                        v => v,
                    });
                }
                Ok(v)
            }
            Ty::Ptr => self.load(st, addr, 8),
            Ty::Float(w) => self.load(st, addr, *w / 8),
            Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..) => {
                let n = match ty {
                    Ty::Struct(v, _) => v.len(),
                    Ty::Array(n, _) | Ty::Vector(n, _) => *n as usize,
                    _ => 0,
                };
                let a = self.conc(st, addr, 64)?;
                let mut v = vec![];
                for i in 0..n {
                    let o = ty.field_off(i);
                    v.push(self.load_ty(st, &Val::C(a + o as u128), ty.elem(i))?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => err("load type"),
        }
    }
    fn store_ty(&mut self, st: &mut State, addr: &Val, ty: &Ty, v: &Val) -> R<()> {
        match ty {
            Ty::Int(w) => {
                let n = (*w + 7) / 8;
                let v = match v {
                    Val::T(t) if n * 8 != *w => {
                        let x = self.tt.zext(*t, n * 8);
                        self.val(x)
                    }
                    v => v.clone(),
                };
                self.store(st, addr, n, &v)
            }
            Ty::Ptr => self.store(st, addr, 8, v),
            Ty::Float(w) => self.store(st, addr, *w / 8, v),
            Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..) => {
                let a = self.conc(st, addr, 64)?;
                let n = match ty {
                    Ty::Struct(v, _) => v.len(),
                    Ty::Array(n, _) | Ty::Vector(n, _) => *n as usize,
                    _ => 0,
                };
                for i in 0..n {
                    let o = ty.field_off(i);
                    let x = match v {
                        Val::A(vs) => vs[i].clone(),
                        _ => Val::C(0),
                    };
                    self.store_ty(st, &Val::C(a + o as u128), ty.elem(i), &x)?;
                }
                Ok(())
            }
            _ => err("store type"),
        }
    }
    fn copy(&mut self, st: &mut State, dst: u128, src: u128, n: u64) -> R<()> {
        if n == 0 || dst == src {
            return Ok(());
        }
        let (si, so) = ((src >> 32) as u32, src as u64 & 0xffff_ffff);
        let (di, d_o) = ((dst >> 32) as u32, dst as u64 & 0xffff_ffff);
        let s = self.obj(st, si)?.as_ref().unwrap().clone();
        if so + n > s.data.len() as u64 {
            return err("copy past the end of the source");
        }
        // gather first (source and destination may overlap)
        let bytes = s.data[so as usize..(so + n) as usize].to_vec();
        let mut syms: Vec<(u64, u32, T)> = vec![];
        if !s.sym.is_empty() {
            let mut partial = vec![];
            for (&o, &(l, t)) in s.sym.range(so.saturating_sub(16)..so + n) {
                if o + l as u64 <= so {
                    continue;
                }
                if o >= so && o + l as u64 <= so + n {
                    syms.push((o - so, l, t));
                } else {
                    partial.push((o, l, t));
                }
            }
            for (o, l, t) in partial {
                for k in 0..l as u64 {
                    let p = o + k;
                    if p >= so && p < so + n {
                        let b = self.tt.extract(t, (k * 8) as u32, 8);
                        syms.push((p - so, 1, b));
                    }
                }
            }
        }
        let mut logs = vec![];
        let mut resolved: Vec<(u64, Val)> = vec![];
        if !s.log.is_empty() {
            let inside = s
                .log
                .iter()
                .filter(|e| e.lo < so + n && so < e.hi + e.len as u64)
                .count();
            let whole = s
                .log
                .iter()
                .filter(|e| e.lo >= so && e.hi + e.len as u64 <= so + n)
                .count();
            if inside == whole {
                for e in s.log.iter() {
                    if e.lo >= so && e.hi + e.len as u64 <= so + n {
                        let delta = self.tt.c((d_o as u128).wrapping_sub(so as u128), 64);
                        let off = self.tt.add(e.off, delta);
                        logs.push(Log {
                            off,
                            lo: e.lo - so + d_o,
                            hi: e.hi - so + d_o,
                            len: e.len,
                            val: e.val.clone(),
                        });
                    }
                }
            } else {
                if n > 64 {
                    return err("partial copy of symbolically indexed memory");
                }
                for k in 0..n {
                    let v = self.read_obj(&s, so + k, 1)?;
                    resolved.push((k, v));
                }
            }
        }
        let mut ufr = vec![];
        for r in &s.ufr {
            let end = r.start + r.count * r.esz as u64;
            if r.start < so + n && so < end {
                if r.start >= so && end <= so + n {
                    let mut r2 = r.clone();
                    r2.start = r.start - so + d_o;
                    ufr.push(r2);
                } else {
                    return err("partial copy of a symbolic table");
                }
            }
        }
        let cell = self.obj(st, di)?;
        let o = Rc::make_mut(cell.as_mut().unwrap());
        if o.constant {
            return err("copy to a constant");
        }
        if d_o + n > o.data.len() as u64 {
            return err("copy past the end of the destination");
        }
        self.clear_range(o, d_o, n);
        o.ufr
            .retain(|r| !(r.start >= d_o && r.start + r.count * r.esz as u64 <= d_o + n));
        if o.ufr
            .iter()
            .any(|r| r.start < d_o + n && d_o < r.start + r.count * r.esz as u64)
        {
            return err("partial overwrite of a symbolic table");
        }
        let part = o
            .log
            .iter()
            .any(|e| d_o < e.hi + e.len as u64 && e.lo < d_o + n);
        if part {
            // through the log, byte by byte
            if n > 64 || !logs.is_empty() {
                return err("partial overwrite of symbolically indexed memory");
            }
            for k in 0..n {
                let v = self.read_obj(&s, so + k, 1)?;
                let cell = self.obj(st, di)?;
                let o = Rc::make_mut(cell.as_mut().unwrap());
                let mut oo = std::mem::replace(
                    o,
                    Obj {
                        data: vec![],
                        sym: BTreeMap::new(),
                        log: vec![],
                        ufr: vec![],
                        kind: Kind::Heap,
                        constant: false,
                    },
                );
                let r = self.write_obj(&mut oo, d_o + k, 1, &v);
                let cell = self.obj(st, di)?;
                *Rc::make_mut(cell.as_mut().unwrap()) = oo;
                r?;
            }
            return Ok(());
        }
        o.data[d_o as usize..(d_o + n) as usize].copy_from_slice(&bytes);
        for (k, l, t) in syms {
            match self.tt.as_c(t) {
                Some(c) => {
                    o.data[(d_o + k) as usize..(d_o + k) as usize + l as usize]
                        .copy_from_slice(&c.to_le_bytes()[..l as usize]);
                }
                None => {
                    o.sym.insert(d_o + k, (l, t));
                }
            }
        }
        o.log.extend(logs);
        o.ufr.extend(ufr);
        for (k, v) in resolved {
            self.clear_range(o, d_o + k, 1);
            match v {
                Val::C(c) => o.data[(d_o + k) as usize] = c as u8,
                Val::T(t) => {
                    o.sym.insert(d_o + k, (1, t));
                }
                _ => {}
            }
        }
        Ok(())
    }

    // ---- instructions
    fn op(&mut self, fr: &Frame, o: &Op) -> R<Val> {
        Ok(match o {
            Op::Reg(r) => fr.regs[*r as usize].clone(),
            Op::C(c) => Val::C(*c),
            Op::Undef | Op::Zero => Val::C(0),
            Op::Global(g, off) => {
                let g = self.resolve_alias(*g);
                Val::C(self.gaddr(g, *off))
            }
            Op::Agg(v) => {
                let mut r = vec![];
                for x in v {
                    r.push(self.op(fr, x)?);
                }
                Val::A(Rc::new(r))
            }
            Op::Bytes(b) => Val::A(Rc::new(b.iter().map(|x| Val::C(*x as u128)).collect())),
            Op::Bad(s) => return err(format!("unsupported constant {}", s)),
        })
    }
    fn bin(&mut self, op: BinOp, w: u32, a: Val, b: Val) -> R<Val> {
        if let (Val::C(x), Val::C(y)) = (&a, &b) {
            let (x, y) = (*x, *y);
            let m = mask(w);
            return Ok(Val::C(match op {
                BinOp::Add => x.wrapping_add(y) & m,
                BinOp::Sub => x.wrapping_sub(y) & m,
                BinOp::Mul => x.wrapping_mul(y) & m,
                BinOp::And => x & y,
                BinOp::Or => x | y,
                BinOp::Xor => x ^ y,
                BinOp::Shl => eval_bin(Bin::Shl, x, y, w),
                BinOp::LShr => eval_bin(Bin::LShr, x, y, w),
                BinOp::AShr => eval_bin(Bin::AShr, x, y, w),
                BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem => {
                    if y == 0 {
                        return err("division by zero");
                    }
                    let o = match op {
                        BinOp::UDiv => Bin::UDiv,
                        BinOp::URem => Bin::URem,
                        BinOp::SDiv => Bin::SDiv,
                        _ => Bin::SRem,
                    };
                    eval_bin(o, x, y, w)
                }
            }));
        }
        if matches!(a, Val::A(_)) || matches!(b, Val::A(_)) {
            return err("vector arithmetic");
        }
        let x = self.term(&a, w);
        let y = self.term(&b, w);
        let t = &mut self.tt;
        let r = match op {
            BinOp::Add => t.add(x, y),
            BinOp::Sub => t.sub(x, y),
            BinOp::Mul => t.mul(x, y),
            BinOp::And => t.and(x, y),
            BinOp::Or => t.or(x, y),
            BinOp::Xor => t.xor(x, y),
            BinOp::Shl => t.shl(x, y),
            BinOp::LShr => t.lshr(x, y),
            BinOp::AShr => t.ashr(x, y),
            BinOp::UDiv => t.divrem(Bin::UDiv, x, y),
            BinOp::URem => t.divrem(Bin::URem, x, y),
            BinOp::SDiv => t.divrem(Bin::SDiv, x, y),
            BinOp::SRem => t.divrem(Bin::SRem, x, y),
        };
        Ok(self.val(r))
    }
    fn icmp(&mut self, p: Pred, w: u32, a: Val, b: Val) -> R<Val> {
        if let (Val::C(x), Val::C(y)) = (&a, &b) {
            let (x, y) = (*x, *y);
            let (sx, sy) = (sext(x, w), sext(y, w));
            return Ok(Val::C(match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => sx < sy,
                Pred::Sle => sx <= sy,
                Pred::Sgt => sx > sy,
                Pred::Sge => sx >= sy,
            } as u128));
        }
        if matches!(a, Val::A(_)) || matches!(b, Val::A(_)) {
            return err("vector compare");
        }
        let x = self.term(&a, w);
        let y = self.term(&b, w);
        let t = &mut self.tt;
        let r = match p {
            Pred::Eq => t.eq(x, y),
            Pred::Ne => {
                let e = t.eq(x, y);
                t.not(e)
            }
            Pred::Ult => t.ult(x, y),
            Pred::Ugt => t.ult(y, x),
            Pred::Ule => {
                let e = t.ult(y, x);
                t.not(e)
            }
            Pred::Uge => {
                let e = t.ult(x, y);
                t.not(e)
            }
            Pred::Slt => t.slt(x, y),
            Pred::Sgt => t.slt(y, x),
            Pred::Sle => {
                let e = t.slt(y, x);
                t.not(e)
            }
            Pred::Sge => {
                let e = t.slt(x, y);
                t.not(e)
            }
        };
        Ok(self.val(r))
    }
    fn select(&mut self, st: &mut State, ty: &Ty, c: Val, a: Val, b: Val) -> R<Val> {
        match c {
            Val::C(c) => Ok(if c & 1 == 1 { a } else { b }),
            Val::T(t) => {
                if let Some(k) = self.lookup_known(st, t) {
                    return Ok(if k { a } else { b });
                }
                match ty {
                    Ty::Int(w) if !matches!(a, Val::A(_)) => {
                        let x = self.term(&a, *w);
                        let y = self.term(&b, *w);
                        let r = self.tt.ite(t, x, y);
                        Ok(self.val(r))
                    }
                    _ => Ok(if self.decide(st, t)? { a } else { b }),
                }
            }
            Val::A(_) => err("vector select"),
        }
    }
    fn getv(&self, v: &Val, ix: &[u32]) -> Val {
        let mut c = v.clone();
        for i in ix {
            c = match &c {
                Val::A(x) => x[*i as usize].clone(),
                _ => Val::C(0),
            };
        }
        c
    }
    fn zero_of(&self, ty: &Ty) -> Val {
        match ty {
            Ty::Struct(v, _) => Val::A(Rc::new(v.iter().map(|t| self.zero_of(t)).collect())),
            Ty::Array(n, t) | Ty::Vector(n, t) => {
                Val::A(Rc::new((0..*n).map(|_| self.zero_of(t)).collect()))
            }
            _ => Val::C(0),
        }
    }
    fn setv(&self, ty: &Ty, a: Val, v: Val, ix: &[u32]) -> Val {
        if ix.is_empty() {
            return v;
        }
        let a = match a {
            Val::A(x) => x,
            _ => match self.zero_of(ty) {
                Val::A(x) => x,
                _ => return v,
            },
        };
        let mut xs = (*a).clone();
        let i = ix[0] as usize;
        xs[i] = self.setv(ty.elem(i), xs[i].clone(), v, &ix[1..]);
        Val::A(Rc::new(xs))
    }
    fn fp(&mut self, st: &mut State, op: &str, w1: u32, w2: u32, args: Vec<Val>) -> R<Val> {
        let mut c = vec![];
        for a in &args {
            c.push(self.conc(st, a, w1)?);
        }
        let tof = |v: u128| -> f64 {
            if w1 == 32 {
                f32::from_bits(v as u32) as f64
            } else {
                f64::from_bits(v as u64)
            }
        };
        let fromf = |f: f64, w: u32| -> u128 {
            if w == 32 {
                (f as f32).to_bits() as u128
            } else {
                f.to_bits() as u128
            }
        };
        if w1 > 64 || w1 == 16 {
            return err("float width");
        }
        Ok(Val::C(match op {
            "fneg" => fromf(-tof(c[0]), w1),
            "fadd" => fromf(tof(c[0]) + tof(c[1]), w1),
            "fsub" => fromf(tof(c[0]) - tof(c[1]), w1),
            "fmul" => fromf(tof(c[0]) * tof(c[1]), w1),
            "fdiv" => fromf(tof(c[0]) / tof(c[1]), w1),
            "frem" => fromf(tof(c[0]) % tof(c[1]), w1),
            "uitofp" => {
                if w2 == 32 {
                    (c[0] as u64 as f32).to_bits() as u128
                } else {
                    (c[0] as u64 as f64).to_bits() as u128
                }
            }
            "sitofp" => {
                let i = sext(c[0], w1) as i64;
                if w2 == 32 {
                    (i as f32).to_bits() as u128
                } else {
                    (i as f64).to_bits() as u128
                }
            }
            "fptoui" => tof(c[0]) as u128 & mask(w2),
            "fptosi" => tof(c[0]) as i128 as u128 & mask(w2),
            "fpext" | "fptrunc" => fromf(tof(c[0]), w2),
            _ if op.starts_with("fcmp ") => {
                let (a, b) = (tof(c[0]), tof(c[1]));
                let un = a.is_nan() || b.is_nan();
                let p = &op[5..];
                (match p {
                    "true" => true,
                    "false" => false,
                    "ord" => !un,
                    "uno" => un,
                    _ => {
                        let r = match &p[1..] {
                            "eq" => a == b,
                            "ne" => a != b && !un,
                            "lt" => a < b,
                            "le" => a <= b,
                            "gt" => a > b,
                            "ge" => a >= b,
                            _ => return err("fcmp"),
                        };
                        if p.starts_with('u') {
                            r || un
                        } else {
                            r
                        }
                    }
                }) as u128
            }
            _ => return err(format!("float {}", op)),
        }))
    }

    fn new_var(&mut self, st: &mut State, w: u32) -> Val {
        let t = self.tt.var(st.nsym, w);
        st.nsym += 1;
        st.nd.push(Nd::Sym(w, t));
        Val::T(t)
    }

    fn jump(&mut self, st: &mut State, target: u32) -> R<()> {
        let from;
        {
            let fr = st.frames.last_mut().unwrap();
            from = fr.b;
            fr.prev = from;
            fr.b = target;
        }
        let fr = st.frames.last().unwrap();
        // phis
        let f = &self.m.funcs[fr.f as usize];
        let blk = &f.blocks[target as usize];
        let mut n = 0;
        let mut vals: Vec<(u32, Val)> = vec![];
        for ins in &blk.insts {
            if let I::Phi(v) = &ins.i {
                let o = match v.iter().find(|x| x.0 == from) {
                    Some(x) => &x.1,
                    None => return err("phi without an edge"),
                };
                let x = match o {
                    Op::Reg(r) => fr.regs[*r as usize].clone(),
                    Op::C(c) => Val::C(*c),
                    o => self.op(fr, o)?,
                };
                vals.push((ins.dst, x));
                n += 1;
            } else {
                break;
            }
        }
        let fr = st.frames.last_mut().unwrap();
        for (d, v) in vals {
            fr.regs[d as usize] = v;
        }
        fr.ip = n;
        Ok(())
    }

    /// executes the path to its end (alternatives are queued)
    fn run(&mut self, st: &mut State) -> End {
        loop {
            match self.step(st) {
                Ok(()) => {}
                Err(e) => return e,
            }
            if st.frames.is_empty() {
                return End::Done;
            }
        }
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        st.steps += 1;
        self.res.instrs += 1;
        if st.steps & 0xffff == 0 {
            if Instant::now() > self.deadline
                || self.stop.load(std::sync::atomic::Ordering::Relaxed)
            {
                return Err(End::Deadline);
            }
            if st.steps > self.job.steps {
                return Err(End::StepLimit);
            }
        }
        let m = self.m;
        let (fi, b, ip) = {
            let fr = st.frames.last().unwrap();
            (fr.f, fr.b, fr.ip)
        };
        let ins = &m.funcs[fi as usize].blocks[b as usize].insts[ip as usize];
        if ins.dbg != 0 {
            self.cov[ins.dbg as usize] = true;
        }
        macro_rules! o {
            ($x:expr) => {
                match $x {
                    Op::Reg(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
                    Op::C(c) => Val::C(*c),
                    x => {
                        let fr = st.frames.last().unwrap().clone();
                        self.op(&fr, x)?
                    }
                }
            };
        }
        let res: Option<Val> = match &ins.i {
            I::Bin(op, w, a, b) => {
                let (a, b) = (o!(a), o!(b));
                if matches!(op, BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem) {
                    if let Val::T(t) = b {
                        let z = self.tt.c(0, *w);
                        let e = self.tt.eq(t, z);
                        if self.decide(st, e)? {
                            return err("division by zero");
                        }
                    }
                }
                Some(self.bin(*op, *w, a, b)?)
            }
            I::ICmp(p, w, a, b) => {
                let (a, b) = (o!(a), o!(b));
                Some(self.icmp(*p, *w, a, b)?)
            }
            I::Cast(c, w1, w2, a) => {
                let a = o!(a);
                Some(match (c, a) {
                    (_, Val::A(_)) => return err("vector cast"),
                    (CastOp::Zext, Val::C(x)) => Val::C(x),
                    (CastOp::Sext, Val::C(x)) => Val::C(sext(x, *w1) as u128 & mask(*w2)),
                    (CastOp::Trunc, Val::C(x)) => Val::C(x & mask(*w2)),
                    (CastOp::Same, v) => v,
                    (CastOp::Zext, Val::T(t)) => {
                        let t = self.tt.zext(t, *w2);
                        self.val(t)
                    }
                    (CastOp::Sext, Val::T(t)) => {
                        let t = self.tt.sext(t, *w2);
                        self.val(t)
                    }
                    (CastOp::Trunc, Val::T(t)) => {
                        let t = self.tt.extract(t, 0, *w2);
                        self.val(t)
                    }
                })
            }
            I::Load(ty, p) => {
                let a = o!(p);
                Some(self.load_ty(st, &a, ty)?)
            }
            I::Store(ty, v, p) => {
                let (v, a) = (o!(v), o!(p));
                self.store_ty(st, &a, ty, &v)?;
                None
            }
            // there is one thread
            I::Rmw(k, ty, p, v) => {
                let (a, v) = (o!(p), o!(v));
                let old = self.load_ty(st, &a, ty)?;
                let w = ty.int_w().unwrap_or(64);
                let new = match k.as_str() {
                    "xchg" => v,
                    "add" => self.bin(BinOp::Add, w, old.clone(), v)?,
                    "sub" => self.bin(BinOp::Sub, w, old.clone(), v)?,
                    "and" => self.bin(BinOp::And, w, old.clone(), v)?,
                    "or" => self.bin(BinOp::Or, w, old.clone(), v)?,
                    "xor" => self.bin(BinOp::Xor, w, old.clone(), v)?,
                    "nand" => {
                        let x = self.bin(BinOp::And, w, old.clone(), v)?;
                        self.bin(BinOp::Xor, w, x, Val::C(mask(w)))?
                    }
                    "umin" | "umax" | "min" | "max" => {
                        let (x, y) = (self.term(&old, w), self.term(&v, w));
                        let c = if k.starts_with('u') { self.tt.ult(x, y) } else { self.tt.slt(x, y) };
                        let r = if k.ends_with("in") { self.tt.ite(c, x, y) } else { self.tt.ite(c, y, x) };
                        self.val(r)
                    }
                    _ => return err(format!("unsupported: atomicrmw {}", k)),
                };
                self.store_ty(st, &a, ty, &new)?;
                Some(old)
            }
            I::CmpXchg(ty, p, a, b) => {
                let (p, a, b) = (o!(p), o!(a), o!(b));
                let old = self.load_ty(st, &p, ty)?;
                let w = ty.int_w().unwrap_or(64);
                let (x, y, z) = (self.term(&old, w), self.term(&a, w), self.term(&b, w));
                let e = self.tt.eq(x, y);
                let n = self.tt.ite(e, z, x);
                let n = self.val(n);
                self.store_ty(st, &p, ty, &n)?;
                let e = self.val(e);
                Some(Val::A(Rc::new(vec![old, e])))
            }
            I::Gep(base, off, idx) => {
                let base = o!(base);
                let mut acc = match base {
                    Val::C(c) => Val::C(c.wrapping_add(*off as i128 as u128) & mask(64)),
                    v => self.bin(BinOp::Add, 64, v, Val::C(*off as i128 as u128 & mask(64)))?,
                };
                for (i, w, s) in idx {
                    let v = o!(i);
                    let v = match v {
                        Val::C(c) => Val::C(sext(c, *w) as u128 & mask(64)),
                        Val::T(t) => {
                            let t = self.tt.sext(t, 64);
                            self.val(t)
                        }
                        v => v,
                    };
                    let v = self.bin(BinOp::Mul, 64, v, Val::C(*s as u128))?;
                    acc = self.bin(BinOp::Add, 64, acc, v)?;
                }
                Some(acc)
            }
            I::Alloca(size, n) => {
                let n = o!(n);
                let n = self.conc(st, &n, 64)?;
                let a = self.alloc(st, size * n as u64, Kind::Stack);
                st.frames.last_mut().unwrap().allocas.push((a >> 32) as u32);
                Some(Val::C(a))
            }
            I::Phi(_) => return err("phi out of place"),
            I::Select(ty, c, a, b) => {
                let (c, a, b) = (o!(c), o!(a), o!(b));
                Some(self.select(st, ty, c, a, b)?)
            }
            I::Extract(v, ix) => {
                let v = o!(v);
                Some(self.getv(&v, ix))
            }
            I::Insert(ty, a, v, ix) => {
                let (a, v) = (o!(a), o!(v));
                Some(self.setv(ty, a, v, ix))
            }
            I::Pack(w, v) => {
                let v = match o!(v) {
                    Val::A(v) => v,
                    v => Rc::new(vec![v]),
                };
                let mut acc = self.term(&v[0], *w);
                for x in &v[1..] {
                    let x = self.term(x, *w);
                    acc = self.tt.concat(x, acc);
                }
                Some(self.val(acc))
            }
            I::Unpack(a, w, v) => {
                let v = o!(v);
                let v = self.term(&v, *a);
                let mut r = vec![];
                for i in 0..a / w {
                    let x = self.tt.extract(v, i * w, *w);
                    r.push(self.val(x));
                }
                Some(Val::A(Rc::new(r)))
            }
            I::Copy(v) => Some(o!(v)),
            I::Fp(op, w1, w2, args) => {
                let mut v = vec![];
                for a in args {
                    v.push(o!(a));
                }
                Some(self.fp(st, op, *w1, *w2, v)?)
            }
            I::Br(t) => return self.jump(st, *t),
            I::CondBr(c, a, b) => {
                let c = o!(c);
                let t = self.decide_v(st, &c)?;
                return self.jump(st, if t { *a } else { *b });
            }
            I::Switch(w, v, d, cs) => {
                let v = o!(v);
                match v {
                    Val::C(x) => {
                        let t = cs.iter().find(|c| c.0 == x).map(|c| c.1).unwrap_or(*d);
                        return self.jump(st, t);
                    }
                    Val::T(t) => {
                        for (c, l) in cs {
                            let k = self.tt.c(*c, *w);
                            let e = self.tt.eq(t, k);
                            if self.decide(st, e)? {
                                return self.jump(st, *l);
                            }
                        }
                        return self.jump(st, *d);
                    }
                    _ => return err("switch"),
                }
            }
            I::Ret(v) => {
                let v = match v {
                    Some(v) => Some(o!(v)),
                    None => None,
                };
                let fr = st.frames.pop().unwrap();
                for a in fr.allocas {
                    self.release(st, a);
                }
                if let Some(p) = st.frames.last_mut() {
                    if fr.dst != NOREG {
                        p.regs[fr.dst as usize] = v.unwrap_or(Val::C(0));
                    }
                    if let Some(n) = fr.normal {
                        return self.jump(st, n);
                    }
                }
                return Ok(());
            }
            I::Unreachable => return err("unreachable executed"),
            I::Bad(s) => return err(format!("unsupported: {}", s)),
            I::Call {
                callee,
                args,
                ret,
                normal,
            } => {
                let c = o!(callee);
                let f = match callee {
                    Op::Global(g, 0) => self.m.globals[self.resolve_alias(*g) as usize].func,
                    _ => {
                        let a = self.conc(st, &c, 64)?;
                        let id = (a >> 32) as u32;
                        match self.obj(st, id)?.as_ref().unwrap().kind {
                            Kind::Func(f) => Some(f),
                            _ => None,
                        }
                    }
                };
                let f = match f {
                    Some(f) => f,
                    None => return err("call of a non function"),
                };
                let mut av = vec![];
                for (_, a) in args {
                    av.push(o!(a));
                }
                self.fcov[f as usize] = true;
                let kind = self.fkind[f as usize];
                if kind == Ext::Defined {
                    let func = &m.funcs[f as usize];
                    if st.frames.len() > 200 {
                        return err("recursion");
                    }
                    let mut regs = vec![Val::C(0); func.nregs as usize];
                    for (r, v) in func.params.iter().zip(av) {
                        regs[*r as usize] = v;
                    }
                    if normal.is_none() {
                        st.frames.last_mut().unwrap().ip += 1;
                    }
                    st.frames.push(Frame {
                        f,
                        b: 0,
                        prev: 0,
                        ip: 0,
                        regs,
                        allocas: vec![],
                        dst: ins.dst,
                        normal: *normal,
                    });
                    return Ok(());
                }
                let next_unreachable = matches!(
                    m.funcs[fi as usize].blocks[b as usize]
                        .insts
                        .get(ip as usize + 1),
                    Some(Inst {
                        i: I::Unreachable,
                        ..
                    })
                );
                let name = &m.funcs[f as usize].name;
                let r = match kind {
                    Ext::Panic => return Err(End::Panic(self.panic_msg(st, name, ins.dbg))),
                    Ext::Llvm => self.intrinsic(st, name, args, &av, ret)?,
                    Ext::Hr => match self.hr(st, name, &av, ins.dst)? {
                        Some(r) => r,
                        None => return Ok(()),
                    },
                    Ext::Alloc | Ext::AllocZeroed => {
                        let n = self.conc(st, &av[0], 64)? as u64;
                        if n > 1 << 30 {
                            Val::C(0)
                        } else {
                            st.heap += n;
                            Val::C(self.alloc(st, n, Kind::Heap))
                        }
                    }
                    Ext::Realloc => {
                        let p = self.conc(st, &av[0], 64)?;
                        let old = self.conc(st, &av[1], 64)? as u64;
                        let n = self.conc(st, &av[3], 64)? as u64;
                        if n > 1 << 30 {
                            Val::C(0)
                        } else {
                            let a = self.alloc(st, n, Kind::Heap);
                            self.copy(st, a, p, old.min(n))?;
                            self.release(st, (p >> 32) as u32);
                            st.heap = st.heap + n - old;
                            Val::C(a)
                        }
                    }
                    Ext::Dealloc => {
                        let p = self.conc(st, &av[0], 64)?;
                        let n = self.conc(st, &av[1], 64)? as u64;
                        st.heap -= n;
                        self.release(st, (p >> 32) as u32);
                        Val::C(0)
                    }
                    Ext::Nop => Val::C(0),
                    Ext::Bcmp => self.memcmp(st, &av, true)?,
                    Ext::Memcmp => self.memcmp(st, &av, false)?,
                    Ext::Memcpy => {
                        let d = self.conc(st, &av[0], 64)?;
                        let s = self.conc(st, &av[1], 64)?;
                        let n = self.conc(st, &av[2], 64)?;
                        self.copy(st, d, s, n as u64)?;
                        Val::C(d)
                    }
                    Ext::Memset => {
                        self.memset(st, &av)?;
                        av[0].clone()
                    }
                    Ext::Random => {
                        let (p, n) = (av[0].clone(), av[1].clone());
                        self.memset(st, &[p, Val::C(0x5a), n.clone()])?;
                        n
                    }
                    Ext::Math => {
                        let w = ret.int_w().unwrap_or(64);
                        let mut c = vec![];
                        for a in &av {
                            c.push(self.conc(st, a, w)?);
                        }
                        self.math(name, w, &c)?
                    }
                    _ => {
                        if next_unreachable {
                            return Err(End::Panic(self.panic_msg(st, name, ins.dbg)));
                        }
                        return err(format!("call of external {}", name));
                    }
                };
                if let Some(n) = normal {
                    if ins.dst != NOREG {
                        st.frames.last_mut().unwrap().regs[ins.dst as usize] = r;
                    }
                    return self.jump(st, *n);
                }
                Some(r)
            }
        };
        let fr = st.frames.last_mut().unwrap();
        if ins.dst != NOREG {
            if let Some(v) = res {
                fr.regs[ins.dst as usize] = v;
            }
        }
        fr.ip += 1;
        Ok(())
    }

    fn panic_msg(&self, st: &State, name: &str, dbg: u32) -> String {
        let at = self
            .m
            .where_is(dbg)
            .map(|(f, file, l)| format!(" at {}:{} in {}", file.replace('|', "/"), l, f))
            .unwrap_or_default();
        let fr = st.frames.last().unwrap();
        format!("{}{} (in {})", name, at, self.m.funcs[fr.f as usize].name)
    }

    fn math(&mut self, name: &str, w: u32, c: &[u128]) -> R<Val> {
        let f = |v: u128| {
            if w == 32 {
                f32::from_bits(v as u32) as f64
            } else {
                f64::from_bits(v as u64)
            }
        };
        let a = f(c[0]);
        let base = name.trim_start_matches("llvm.").split('.').next().unwrap();
        let r = match base.trim_end_matches('f') {
            "log2" => a.log2(),
            "exp2" => a.exp2(),
            "log10" => a.log10(),
            "log" => a.ln(),
            "exp" => a.exp(),
            "sqrt" => a.sqrt(),
            "ceil" => a.ceil(),
            "round" => a.round(),
            "trunc" => a.trunc(),
            "floor" | "floo" => a.floor(),
            "pow" => a.powf(f(c[1])),
            "fabs" => a.abs(),
            "minnum" => a.min(f(c[1])),
            "maxnum" => a.max(f(c[1])),
            _ => return err(format!("math {}", name)),
        };
        Ok(Val::C(if w == 32 {
            (r as f32).to_bits() as u128
        } else {
            r.to_bits() as u128
        }))
    }

    fn memset(&mut self, st: &mut State, av: &[Val]) -> R<()> {
        let d = self.conc(st, &av[0], 64)?;
        let n = self.conc(st, &av[2], 64)? as u64;
        if n == 0 {
            return Ok(());
        }
        let (id, off) = ((d >> 32) as u32, d as u64 & 0xffff_ffff);
        let v = match &av[1] {
            Val::C(c) => *c as u8,
            v => {
                for k in 0..n {
                    self.store(st, &Val::C(d + k as u128), 1, v)?;
                }
                return Ok(());
            }
        };
        let cell = self.obj(st, id)?;
        let o = Rc::make_mut(cell.as_mut().unwrap());
        if off + n > o.data.len() as u64 {
            return err("memset past the end");
        }
        self.clear_range(o, off, n);
        o.ufr
            .retain(|r| !(r.start >= off && r.start + r.count * r.esz as u64 <= off + n));
        if o.log
            .iter()
            .any(|e| off < e.hi + e.len as u64 && e.lo < off + n)
        {
            if n > 4096 {
                return err("partial memset of symbolically indexed memory");
            }
            for k in 0..n {
                self.store(st, &Val::C(d + k as u128), 1, &Val::C(v as u128))?;
            }
            return Ok(());
        }
        for x in &mut o.data[off as usize..(off + n) as usize] {
            *x = v;
        }
        Ok(())
    }

    fn memcmp(&mut self, st: &mut State, av: &[Val], eq_only: bool) -> R<Val> {
        let a = self.conc(st, &av[0], 64)?;
        let b = self.conc(st, &av[1], 64)?;
        let n = self.conc(st, &av[2], 64)? as u64;
        if n == 0 || a == b {
            return Ok(Val::C(0));
        }
        if eq_only {
            let mut k = 0;
            let mut all: T = 1;
            while k < n {
                let mut len = 8.min(n - k) as u32;
                if !len.is_power_of_two() {
                    len = 1;
                }
                let x = self.load(st, &Val::C(a + k as u128), len)?;
                let y = self.load(st, &Val::C(b + k as u128), len)?;
                let x = self.term(&x, len * 8);
                let y = self.term(&y, len * 8);
                let e = self.tt.eq(x, y);
                all = self.tt.band(all, e);
                if all == 0 {
                    break;
                }
                k += len as u64;
            }
            let z = self.tt.c(0, 32);
            let o = self.tt.c(1, 32);
            let r = self.tt.ite(all, z, o);
            return Ok(self.val(r));
        }
        let mut r = self.tt.c(0, 32);
        for k in (0..n).rev() {
            let x = self.load(st, &Val::C(a + k as u128), 1)?;
            let y = self.load(st, &Val::C(b + k as u128), 1)?;
            let x = self.term(&x, 8);
            let y = self.term(&y, 8);
            let e = self.tt.eq(x, y);
            let lt = self.tt.ult(x, y);
            let m1 = self.tt.c(mask(32), 32);
            let p1 = self.tt.c(1, 32);
            let d = self.tt.ite(lt, m1, p1);
            r = self.tt.ite(e, r, d);
        }
        Ok(self.val(r))
    }

    fn intrinsic(
        &mut self,
        st: &mut State,
        name: &str,
        args: &[(Ty, Op)],
        av: &[Val],
        ret: &Ty,
    ) -> R<Val> {
        let n = &name[5..];
        let head = n.split('.').next().unwrap();
        let w = args.get(0).and_then(|a| a.0.int_w()).unwrap_or(64);
        match head {
            "lifetime" | "dbg" | "assume" | "donothing" | "sideeffect" | "prefetch"
            | "invariant" | "var" | "experimental" | "fake" => {
                if head == "assume" && is_zero(&av[0]) {
                    return err("assume(false)");
                }
                return Ok(Val::C(0));
            }
            "expect" | "threadlocal" | "launder" | "strip" | "ssa" | "annotation" | "ptr" => {
                return Ok(av[0].clone())
            }
            "is" => return Ok(Val::C(0)),
            "objectsize" => return Ok(Val::C(mask(64))),
            "trap" | "ubsantrap" | "debugtrap" => {
                return Err(End::Panic(self.panic_msg(st, name, 0)))
            }
            "memcpy" | "memmove" => {
                let d = self.conc(st, &av[0], 64)?;
                let s = self.conc(st, &av[1], 64)?;
                let k = self.conc(st, &av[2], 64)?;
                self.copy(st, d, s, k as u64)?;
                return Ok(Val::C(0));
            }
            "memset" => {
                self.memset(st, av)?;
                return Ok(Val::C(0));
            }
            "log2" | "exp2" | "log10" | "log" | "exp" | "sqrt" | "ceil" | "round" | "trunc"
            | "floor" | "pow" | "fabs" | "minnum" | "maxnum" => {
                let mut c = vec![];
                for a in av {
                    c.push(self.conc(st, a, w)?);
                }
                return self.math(head, w, &c);
            }
            "fptoui" | "fptosi" => {
                // fptoui.sat
                let c = self.conc(st, &av[0], w)?;
                let f = if w == 32 {
                    f32::from_bits(c as u32) as f64
                } else {
                    f64::from_bits(c as u64)
                };
                let rw = ret.int_w().unwrap();
                return Ok(Val::C(if head == "fptoui" {
                    (f as u128).min(mask(rw))
                } else {
                    let m = mask(rw - 1) as i128;
                    (f as i128).max(-m - 1).min(m) as u128 & mask(rw)
                }));
            }
            _ => {}
        }
        if av.iter().any(|v| matches!(v, Val::A(_))) {
            return err(format!("vector intrinsic {}", name));
        }
        let t: Vec<T> = av
            .iter()
            .zip(args)
            .map(|(v, (ty, _))| {
                let w = ty.int_w().unwrap_or(64);
                self.term(v, w)
            })
            .collect();
        let tt = &mut self.tt;
        let r = match head {
            "umin" => {
                let c = tt.ult(t[0], t[1]);
                tt.ite(c, t[0], t[1])
            }
            "umax" => {
                let c = tt.ult(t[0], t[1]);
                tt.ite(c, t[1], t[0])
            }
            "smin" => {
                let c = tt.slt(t[0], t[1]);
                tt.ite(c, t[0], t[1])
            }
            "smax" => {
                let c = tt.slt(t[0], t[1]);
                tt.ite(c, t[1], t[0])
            }
            "abs" => {
                let z = tt.c(0, w);
                let c = tt.slt(t[0], z);
                let n = tt.sub(z, t[0]);
                tt.ite(c, n, t[0])
            }
            "ucmp" | "scmp" => {
                let rw = ret.int_w().unwrap();
                let (lt, gt) = if head == "ucmp" {
                    (tt.ult(t[0], t[1]), tt.ult(t[1], t[0]))
                } else {
                    (tt.slt(t[0], t[1]), tt.slt(t[1], t[0]))
                };
                let m1 = tt.c(mask(rw), rw);
                let p1 = tt.c(1, rw);
                let z = tt.c(0, rw);
                let x = tt.ite(gt, p1, z);
                tt.ite(lt, m1, x)
            }
            "usub" if n.starts_with("usub.sat") => {
                let c = tt.ult(t[0], t[1]);
                let z = tt.c(0, w);
                let d = tt.sub(t[0], t[1]);
                tt.ite(c, z, d)
            }
            "sadd" | "ssub" if n.starts_with("sadd.sat") || n.starts_with("ssub.sat") => {
                let (x, y) = (tt.sext(t[0], w + 1), tt.sext(t[1], w + 1));
                let p = if head == "sadd" { tt.add(x, y) } else { tt.sub(x, y) };
                let s = tt.extract(p, 0, w);
                let q = tt.sext(s, w + 1);
                let fits = tt.eq(p, q);
                let z = tt.c(0, w + 1);
                let neg = tt.slt(p, z);
                let (lo, hi) = (tt.c(1 << (w - 1), w), tt.c(mask(w - 1), w));
                let o = tt.ite(neg, lo, hi);
                tt.ite(fits, s, o)
            }
            "bitreverse" => {
                let mut acc = tt.extract(t[0], 0, 1);
                for i in 1..w {
                    let b = tt.extract(t[0], i, 1);
                    acc = tt.concat(acc, b);
                }
                acc
            }
            "uadd" if n.starts_with("uadd.sat") => {
                let s = tt.add(t[0], t[1]);
                let c = tt.ult(s, t[0]);
                let m = tt.c(mask(w), w);
                tt.ite(c, m, s)
            }
            "fshl" | "fshr" => {
                let k = match tt.as_c(t[2]) {
                    Some(k) => k,
                    None => {
                        let v = self.val(t[2]);
                        self.conc(st, &v, w)?
                    }
                };
                let tt = &mut self.tt;
                let k = (k % w as u128) as u32;
                let k = if head == "fshl" { k } else { (w - k) % w };
                if t[0] == t[1] {
                    tt.rotl(t[0], k)
                } else if k == 0 {
                    if head == "fshl" {
                        t[0]
                    } else {
                        t[1]
                    }
                } else {
                    let kc = tt.c(k as u128, w);
                    let rc = tt.c((w - k) as u128, w);
                    let x = tt.shl(t[0], kc);
                    let y = tt.lshr(t[1], rc);
                    tt.or(x, y)
                }
            }
            "ctlz" => {
                let mut acc = tt.c(w as u128, w);
                for i in 0..w {
                    let b = tt.extract(t[0], i, 1);
                    let v = tt.c((w - 1 - i) as u128, w);
                    acc = tt.ite(b, v, acc);
                }
                acc
            }
            "cttz" => {
                let mut acc = tt.c(w as u128, w);
                for i in (0..w).rev() {
                    let b = tt.extract(t[0], i, 1);
                    let v = tt.c(i as u128, w);
                    acc = tt.ite(b, v, acc);
                }
                acc
            }
            "ctpop" => {
                let mut acc = tt.c(0, w);
                for i in 0..w {
                    let b = tt.extract(t[0], i, 1);
                    let z = tt.zext(b, w);
                    acc = tt.add(acc, z);
                }
                acc
            }
            "bswap" => {
                let k = w / 8;
                let mut acc = tt.extract(t[0], 0, 8);
                for i in 1..k {
                    let b = tt.extract(t[0], i * 8, 8);
                    acc = tt.concat(acc, b);
                }
                acc
            }
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" => {
                let (a, b) = (t[0], t[1]);
                let (v, o) = match head {
                    "uadd" => {
                        let s = tt.add(a, b);
                        let (_, ah) = tt.range(a);
                        let (_, bh) = tt.range(b);
                        let o = if ah.checked_add(bh).map_or(false, |x| x <= mask(w)) {
                            0
                        } else {
                            tt.ult(s, a)
                        };
                        (s, o)
                    }
                    "usub" => {
                        let s = tt.sub(a, b);
                        (s, tt.ult(a, b))
                    }
                    "umul" => {
                        let s = tt.mul(a, b);
                        let (_, ah) = tt.range(a);
                        let (_, bh) = tt.range(b);
                        let o = if ah.checked_mul(bh).map_or(false, |x| x <= mask(w)) {
                            0
                        } else if let (true, Some(k)) = (true, tt.as_c(b)) {
                            // a > max / k
                            let lim = tt.c(mask(w) / k.max(1), w);
                            if k == 0 {
                                0
                            } else {
                                tt.ult(lim, a)
                            }
                        } else {
                            if w > 64 {
                                return err("wide mul overflow");
                            }
                            let x = tt.zext(a, 2 * w);
                            let y = tt.zext(b, 2 * w);
                            let p = tt.mul(x, y);
                            let h = tt.extract(p, w, w);
                            let z = tt.c(0, w);
                            let e = tt.eq(h, z);
                            tt.not(e)
                        };
                        (s, o)
                    }
                    _ => {
                        if w > 63 && w != 64 {
                            return err("wide signed overflow");
                        }
                        let ww = if head == "smul" { 2 * w } else { w + 1 };
                        let x = tt.sext(a, ww);
                        let y = tt.sext(b, ww);
                        let p = match head {
                            "sadd" => tt.add(x, y),
                            "ssub" => tt.sub(x, y),
                            _ => tt.mul(x, y),
                        };
                        let s = tt.extract(p, 0, w);
                        let q = tt.sext(s, ww);
                        let e = tt.eq(p, q);
                        (s, tt.not(e))
                    }
                };
                let (v, o) = (self.val(v), self.val(o));
                return Ok(Val::A(Rc::new(vec![v, o])));
            }
            _ => return err(format!("intrinsic {}", name)),
        };
        Ok(self.val(r))
    }

    /// the harness interface; None when the path moved on by itself
    fn hr(&mut self, st: &mut State, name: &str, av: &[Val], dst: u32) -> R<Option<Val>> {
        Ok(Some(match name {
            "hr_sym_u8" => self.new_var(st, 8),
            "hr_sym_u16" => self.new_var(st, 16),
            "hr_sym_u32" => self.new_var(st, 32),
            "hr_sym_u64" => self.new_var(st, 64),
            "hr_choice" => {
                let n = self.conc(st, &av[0], 64)? as u64;
                if n == 0 {
                    return Err(End::Pruned);
                }
                let opts: Vec<u64> = match (st.first_choice, self.job.shard) {
                    (true, Some((i, k))) => (0..n).filter(|x| x % k == i).collect(),
                    _ => (0..n).collect(),
                };
                st.first_choice = false;
                if opts.is_empty() {
                    return Err(End::Pruned);
                }
                st.frames.last_mut().unwrap().ip += 1;
                let d = dst as usize;
                for &o in opts[1..].iter().rev() {
                    let mut s = st.clone();
                    s.nd.push(Nd::Choice(o));
                    if dst != NOREG {
                        s.frames.last_mut().unwrap().regs[d] = Val::C(o as u128);
                    }
                    self.work.push(s);
                    self.res.forks += 1;
                }
                st.nd.push(Nd::Choice(opts[0]));
                if dst != NOREG {
                    st.frames.last_mut().unwrap().regs[d] = Val::C(opts[0] as u128);
                }
                return Ok(None);
            }
            "hr_param" => {
                let i = self.conc(st, &av[0], 32)? as usize;
                Val::C(self.job.params.get(i).copied().unwrap_or(0) as u128)
            }
            "hr_id" => av[0].clone(),
            "hr_assume" => {
                match &av[0] {
                    Val::C(c) => {
                        if *c & 1 == 0 {
                            return Err(End::Pruned);
                        }
                    }
                    Val::T(t) => {
                        let t = *t;
                        match self.lookup_known(st, t) {
                            Some(true) => {}
                            Some(false) => return Err(End::Pruned),
                            None => {
                                let holds = match &st.model {
                                    Some(m) => self.tt.eval(t, m) == 1,
                                    None => false,
                                };
                                if !holds {
                                    match self.query(st, t) {
                                        Answer::Sat(m) => {
                                            st.model = Some(Rc::new(m));
                                            st.doubt = false
                                        }
                                        Answer::Unsat => return Err(End::Pruned),
                                        Answer::Unknown => {
                                            self.res.unknown_branches += 1;
                                            st.model = None;
                                            st.doubt = true
                                        }
                                    }
                                }
                                self.add(st, t, true);
                            }
                        }
                    }
                    _ => return err("assume"),
                }
                Val::C(0)
            }
            "hr_assert" => {
                let id = self.conc(st, &av[1], 32)? as u32;
                self.res.asserts += 1;
                match &av[0] {
                    Val::C(c) => {
                        if *c & 1 == 0 {
                            return Err(End::Assert(id));
                        }
                        self.res.asserts_folded += 1;
                    }
                    Val::T(t) => {
                        let t = *t;
                        match self.lookup_known(st, t) {
                            Some(true) => self.res.asserts_folded += 1,
                            Some(false) => return Err(End::Assert(id)),
                            None => {
                                let n = self.tt.not(t);
                                match self.query(st, n) {
                                    Answer::Unsat => {
                                        self.res.asserts_solver += 1;
                                        self.learn(st, t, true);
                                    }
                                    Answer::Sat(m) => {
                                        st.model = Some(Rc::new(m));
                                        st.doubt = false;
                                        self.add(st, n, true);
                                        return Err(End::Assert(id));
                                    }
                                    Answer::Unknown => {
                                        self.res.asserts_unknown += 1;
                                        self.add(st, t, true);
                                        // a model of the path need not be one of the assertion
                                        let ok = match &st.model {
                                            Some(m) => self.tt.eval(t, m) == 1,
                                            None => true,
                                        };
                                        if !ok {
                                            st.model = None;
                                        }
                                    }
                                }
                            }
                        }
                    }
                    _ => return err("assert"),
                }
                Val::C(0)
            }
            "hr_cover" => {
                let id = self.conc(st, &av[0], 32)? as u32;
                st.covers.insert(id);
                Val::C(0)
            }
            "hr_obs" => {
                st.obs.push(av[0].clone());
                Val::C(0)
            }
            "hr_heap" => Val::C(st.heap as u128),
            "hr_uf32" => {
                let id = self.conc(st, &av[0], 32)? as u32;
                let a = self.term(&av[1], 8);
                let t = self.tt.uf(id, a, 32);
                Val::T(t)
            }
            "hr_table32" | "hr_table64" => {
                let a = self.conc(st, &av[0], 64)?;
                let id = self.conc(st, &av[1], 32)? as u32;
                let esz = if name == "hr_table32" { 4 } else { 8 };
                let (oid, off) = ((a >> 32) as u32, a as u64 & 0xffff_ffff);
                let cell = self.obj(st, oid)?;
                let o = Rc::make_mut(cell.as_mut().unwrap());
                if off + 256 * esz as u64 > o.data.len() as u64 {
                    return err("table does not fit");
                }
                self.clear_range(o, off, 256 * esz as u64);
                o.ufr.push(UfRegion {
                    start: off,
                    count: 256,
                    esz,
                    uf: id,
                });
                Val::C(0)
            }
            _ => return err(format!("harness function {}", name)),
        }))
    }

    // ---- the job
    fn replay_text(&self, st: &State, m: &Model) -> String {
        let mut s = format!("func {}\n", self.job.func);
        for (i, p) in self.job.params.iter().enumerate() {
            s.push_str(&format!("param {} {}\n", i, p));
        }
        for n in &st.nd {
            match n {
                Nd::Sym(w, t) => s.push_str(&format!("sym{} {}\n", w, self.tt.eval(*t, m))),
                Nd::Choice(c) => s.push_str(&format!("choice {}\n", c)),
            }
        }
        let mut u: Vec<_> = m.ufs.iter().collect();
        u.sort();
        for ((f, a), v) in u {
            s.push_str(&format!("uf {} {} {}\n", f, a, v));
        }
        s
    }
    fn rnd(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }

    pub fn explore(&mut self) {
        let t0 = Instant::now();
        // identical functions are merged
        let alias = self.m.gmap.get(&self.job.func).and_then(|g| self.m.globals[self.resolve_alias(*g) as usize].func);
        let f = match self.m.fmap.get(&self.job.func).copied().or(alias) {
            Some(f) => f,
            None => {
                self.res.status = format!("error: no function {}", self.job.func);
                return;
            }
        };
        let func = &self.m.funcs[f as usize];
        self.fcov[f as usize] = true;
        let st = State {
            frames: vec![Frame {
                f,
                b: 0,
                prev: 0,
                ip: 0,
                regs: vec![Val::C(0); func.nregs as usize],
                allocas: vec![],
                dst: NOREG,
                normal: None,
            }],
            mem: vec![None; self.m.globals.len() + 1],
            free: vec![],
            pc: vec![],
            known: HashMap::new(),
            same: Default::default(),
            same_id: 0,
            model: Some(Rc::new(Model::default())),
            nd: vec![],
            nsym: 0,
            obs: vec![],
            covers: BTreeSet::new(),
            heap: 0,
            steps: 0,
            first_choice: true,
            doubt: false,
        };
        self.work.push(st);
        self.res.status = "done".into();
        while let Some(mut st) = self.work.pop().or_else(|| self.later.pop()) {
            if self.stop.load(std::sync::atomic::Ordering::Relaxed) {
                self.res.status = "stopped".into();
                break;
            }
            let e = self.run(&mut st);
            self.res.max_inputs = self.res.max_inputs.max(st.nsym);
            match e {
                End::Pruned => self.res.pruned += 1,
                End::Done => {
                    self.res.paths += 1;
                    if st.model.is_none() {
                        let _ = self.ensure_model(&mut st);
                    }
                    if let Some(m) = st.model.clone() {
                        for c in &st.covers {
                            self.res.covers.insert(*c);
                        }
                        // reservoir of sampled paths for the native comparison
                        let n = self.res.paths;
                        let k = self.max_samples;
                        let slot = if self.res.samples.len() < k {
                            Some(self.res.samples.len())
                        } else {
                            let r = self.rnd() % n;
                            if (r as usize) < k {
                                Some(r as usize)
                            } else {
                                None
                            }
                        };
                        if let Some(s) = slot {
                            let txt = self.replay_text(&st, &m);
                            let obs = st
                                .obs
                                .iter()
                                .map(|v| match v {
                                    Val::C(c) => *c,
                                    Val::T(t) => self.tt.eval(*t, &m),
                                    _ => 0,
                                })
                                .collect();
                            if s == self.res.samples.len() {
                                self.res.samples.push((txt, obs));
                            } else {
                                self.res.samples[s] = (txt, obs);
                            }
                        }
                    }
                }
                End::Panic(_) | End::Assert(_) | End::StepLimit => {
                    self.res.paths += 1;
                    let what = match e {
                        End::Panic(m) => format!("panic {}", m),
                        End::Assert(i) => format!("assert {}", i),
                        _ => "no end".to_string(),
                    };
                    match self.find_model(&mut st) {
                        Err(_) => {
                            self.res.paths -= 1;
                            self.res.pruned += 1;
                        }
                        Ok(()) => match st.model.clone() {
                            Some(m) => {
                                let r = self.replay_text(&st, &m);
                                self.res.violations.push((what, r));
                                if self.res.violations.len() >= 3 {
                                    self.res.status = "violated".into();
                                    break;
                                }
                            }
                            None => self.res.asserts_unknown += 1,
                        },
                    }
                }
                End::Undecided => {
                    self.res.paths_undecided += 1;
                    // something different may be found for the same reason over and over
                    if self.res.paths_undecided > 50 {
                        self.res.status = "deadline".into();
                        break;
                    }
                }
                End::Deadline => {
                    self.res.status = "deadline".into();
                    break;
                }
                End::Error(s) => {
                    let fr = st.frames.last();
                    let at = fr
                        .map(|f| {
                            let fu = &self.m.funcs[f.f as usize];
                            let d = fu.blocks[f.b as usize]
                                .insts
                                .get(f.ip as usize)
                                .map_or(0, |i| i.dbg);
                            format!("{} {:?}", fu.name, self.m.where_is(d))
                        })
                        .unwrap_or_default();
                    // an unsupported operation on an infeasible path does not matter
                    if let Err(End::Pruned) = self.find_model(&mut st) {
                        self.res.pruned += 1;
                        continue;
                    }
                    self.res.status = format!("error: {} in {}", s, at);
                    break;
                }
            }
        }
        self.work.clear();
        self.later.clear();
        if !self.solver.errors.is_empty() && self.res.status == "done" {
            self.res.status = format!("error: solver: {}", self.solver.errors[0]);
        }
        self.res.terms = self.tt.len();
        self.res.secs = t0.elapsed().as_secs_f64();
    }
}
