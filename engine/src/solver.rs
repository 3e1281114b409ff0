//! Talks SMT-LIB to z3. One incremental process follows the path under exploration; a query it
//! cannot answer quickly is handed to a fresh, non-incremental process.

use crate::term::{Model, Terms, K, T};
use std::collections::{HashMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

extern "C" {
    fn kill(pid: i32, sig: i32) -> i32;
}

pub static WATCH: Mutex<Option<HashMap<u32, Instant>>> = Mutex::new(None);

fn watch(pid: u32, until: Option<Instant>) {
    let mut g = WATCH.lock().unwrap();
    let m = g.get_or_insert_with(HashMap::new);
    match until {
        Some(t) => {
            m.insert(pid, t);
        }
        None => {
            m.remove(&pid);
        }
    }
}

/// ends solver processes that overrun their time
pub fn watchdog() {
    loop {
        std::thread::sleep(Duration::from_millis(200));
        let g = WATCH.lock().unwrap();
        if let Some(m) = g.as_ref() {
            let now = Instant::now();
            for (p, t) in m {
                if now > *t {
                    unsafe {
                        kill(*p as i32, 9);
                    }
                }
            }
        }
    }
}

struct Proc {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
}

impl Proc {
    fn start() -> Proc {
        let bin = std::env::var("HRSYM_Z3").unwrap_or_else(|_| "z3-new".into());
        let mut child = Command::new(bin)
            .args(["-in", "-smt2", "-memory:3000"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("cannot start z3");
        let inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        Proc { child, inp, out }
    }
    fn line(&mut self) -> Option<String> {
        let mut s = String::new();
        match self.out.read_line(&mut s) {
            Ok(n) if n > 0 => Some(s.trim().to_string()),
            _ => None,
        }
    }
    fn sexp(&mut self) -> Option<String> {
        let mut s = String::new();
        loop {
            let mut l = String::new();
            match self.out.read_line(&mut l) {
                Ok(n) if n > 0 => {}
                _ => return None,
            }
            s.push_str(&l);
            let d = s.bytes().filter(|b| *b == b'(').count() as i64
                - s.bytes().filter(|b| *b == b')').count() as i64;
            if d == 0 && !s.trim().is_empty() {
                return Some(s);
            }
        }
    }
}

impl Drop for Proc {
    fn drop(&mut self) {
        watch(self.child.id(), None);
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub hard: u64,
    pub time: f64,
    pub max_time: f64,
    pub guessed: u64,
}

pub enum Answer {
    Sat(Model),
    Unsat,
    Unknown,
}

pub struct Solver {
    p: Option<Proc>,
    defined: HashSet<T>,
    vars: HashSet<u32>,
    tabs: HashSet<(u32, u32)>,
    ufs: HashSet<u32>,
    stack: Vec<T>,
    pub soft_ms: u64,
    pub hard_ms: u64,
    pub stats: Stats,
    pub deadline: Instant,
    pub errors: Vec<String>,
    rng: u64,
    gen: u32,
    mark: Vec<u32>,
    vals: Vec<u128>,
}

fn parse_value(s: &str) -> Option<u128> {
    let s = s.trim();
    if s == "true" {
        return Some(1);
    }
    if s == "false" {
        return Some(0);
    }
    if let Some(h) = s.strip_prefix("#x") {
        return u128::from_str_radix(h, 16).ok();
    }
    if let Some(h) = s.strip_prefix("#b") {
        return u128::from_str_radix(h, 2).ok();
    }
    None
}

impl Solver {
    pub fn new(deadline: Instant) -> Self {
        Solver {
            p: None,
            defined: HashSet::new(),
            vars: HashSet::new(),
            tabs: HashSet::new(),
            ufs: HashSet::new(),
            stack: vec![],
            soft_ms: 1500,
            hard_ms: 20000,
            stats: Stats::default(),
            deadline,
            errors: vec![],
            rng: 0x9e3779b97f4a7c15 ^ crate::exec::SEED.load(std::sync::atomic::Ordering::Relaxed),
            gen: 0,
            mark: vec![],
            vals: vec![],
        }
    }
    fn restart(&mut self) {
        self.p = None;
        self.defined.clear();
        self.vars.clear();
        self.tabs.clear();
        self.ufs.clear();
        self.stack.clear();
    }
    fn define(
        t: T,
        tt: &Terms,
        out: &mut String,
        defined: &mut HashSet<T>,
        vars: &mut HashSet<u32>,
        tabs: &mut HashSet<(u32, u32)>,
        ufs: &mut HashSet<u32>,
    ) {
        use std::fmt::Write as W;
        let mut st = vec![(t, false)];
        let mut ch = vec![];
        while let Some((t, done)) = st.pop() {
            if defined.contains(&t) {
                continue;
            }
            match tt.k(t) {
                K::Const(_) => continue,
                K::Var(i) => {
                    if vars.insert(*i) {
                        writeln!(out, "(declare-const v{} {})", i, Terms::sort(tt.w(t))).unwrap();
                    }
                    continue;
                }
                _ => {}
            }
            if !done {
                st.push((t, true));
                ch.clear();
                tt.children(t, &mut ch);
                for c in &ch {
                    if !defined.contains(c) {
                        st.push((*c, false));
                    }
                }
                continue;
            }
            if let K::Uf(f, a) = tt.k(t) {
                if ufs.insert(*f) {
                    writeln!(
                        out,
                        "(declare-fun f{} ({}) {})",
                        f,
                        Terms::sort(tt.w(*a)),
                        Terms::sort(tt.w(t))
                    )
                    .unwrap();
                }
            }
            if let K::Lookup(tab, i) = tt.k(t) {
                let iw = tt.w(*i);
                if tabs.insert((*tab, iw)) {
                    writeln!(out, "{}", tt.table_def(*tab, iw)).unwrap();
                }
            }
            writeln!(
                out,
                "(define-fun t{} () {} {})",
                t,
                Terms::sort(tt.w(t)),
                tt.expr(t)
            )
            .unwrap();
            defined.insert(t);
        }
    }
    /// inputs and uninterpreted applications the constraints depend on, in order
    fn support(tt: &Terms, cs: &[T]) -> (Vec<u32>, Vec<T>) {
        let mut seen: HashSet<T> = HashSet::new();
        let mut st: Vec<T> = cs.to_vec();
        let mut vars = vec![];
        let mut ufs = vec![];
        while let Some(t) = st.pop() {
            if !seen.insert(t) {
                continue;
            }
            match tt.k(t) {
                K::Var(i) => vars.push(*i),
                K::Uf(..) => ufs.push(t),
                _ => {}
            }
            tt.children(t, &mut st);
        }
        ufs.sort_unstable();
        (vars, ufs)
    }
    fn read_model(p: &mut Proc, tt: &Terms, cs: &[T]) -> Option<Model> {
        let (vars, ufs) = Self::support(tt, cs);
        let mut m = Model::default();
        m.vars = vec![0; tt.var_w.len()];
        if vars.is_empty() && ufs.is_empty() {
            return Some(m);
        }
        let mut q = String::from("(get-value (");
        for v in &vars {
            q.push_str(&format!("v{} ", v));
        }
        for t in &ufs {
            q.push_str(&format!("t{} ", t));
        }
        q.push_str("))\n");
        p.inp.write_all(q.as_bytes()).ok()?;
        let s = p.sexp()?;
        let mut ufv: HashMap<T, u128> = HashMap::new();
        // ((v0 #x01) (t5 #x02))
        let s = s.replace(['(', ')'], " ");
        let w: Vec<&str> = s.split_whitespace().collect();
        if w.len() % 2 != 0 {
            return None;
        }
        for c in w.chunks(2) {
            let v = parse_value(c[1])?;
            let id: u32 = c[0][1..].parse().ok()?;
            if c[0].starts_with('v') {
                m.vars[id as usize] = v;
            } else {
                ufv.insert(id, v);
            }
        }
        for t in ufs {
            if let K::Uf(f, a) = tt.k(t) {
                let a = tt.eval(*a, &m);
                m.ufs.insert((*f, a), ufv[&t]);
                m.memo.borrow_mut().clear();
            }
        }
        Some(m)
    }
    /// is pc && extra satisfiable?
    pub fn check(
        &mut self,
        tt: &Terms,
        pc: &[T],
        extra: Option<T>,
        base: Option<&Model>,
        hard: bool,
    ) -> Answer {
        let t0 = Instant::now();
        self.stats.queries += 1;
        let mut all: Vec<T> = pc.to_vec();
        all.extend(extra);
        let mut a = match self.guess(tt, pc, extra, base, 60) {
            Some(m) => Answer::Sat(m),
            None => self.check_inc(tt, pc, extra, &all),
        };
        if let (Answer::Unknown, true) = (&a, hard) {
            if let Some(m) = self.guess(tt, pc, extra, base, 400_000) {
                a = Answer::Sat(m);
            }
        }
        if let (Answer::Unknown, true) = (&a, hard) {
            if Instant::now() < self.deadline {
                self.stats.hard += 1;
                a = self.check_once(tt, &all);
            }
        }
        let dt = t0.elapsed().as_secs_f64();
        self.stats.time += dt;
        if dt > self.stats.max_time {
            self.stats.max_time = dt;
        }
        match &a {
            Answer::Sat(m) => {
                self.stats.sat += 1;
                for &c in &all {
                    if tt.eval(c, m) != 1 {
                        self.errors.push(format!("model does not satisfy t{}", c));
                        return Answer::Unknown;
                    }
                }
            }
            Answer::Unsat => self.stats.unsat += 1,
            Answer::Unknown => self.stats.unknown += 1,
        }
        a
    }
    fn rnd(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }
    /// Look for a model near `base` (one of pc) before asking z3. Whatever is found is checked.
    fn guess(
        &mut self,
        tt: &Terms,
        pc: &[T],
        extra: Option<T>,
        base: Option<&Model>,
        tries: u32,
    ) -> Option<Model> {
        let (base, extra) = (base?, extra?);
        // all nodes, children first
        if self.mark.len() < tt.len() {
            self.mark.resize(tt.len() + 1024, 0);
            self.vals.resize(tt.len() + 1024, 0);
        }
        self.gen += 1;
        let gen = self.gen;
        let mut order: Vec<T> = vec![];
        let mut free: Vec<u32> = vec![];
        let mut ufs: Vec<T> = vec![];
        let mut st: Vec<(T, bool)> = vec![];
        let mut ch = vec![];
        let mut walk = |r: T,
                        mark: &mut Vec<u32>,
                        order: &mut Vec<T>,
                        free: Option<&mut Vec<u32>>,
                        ufs: &mut Vec<T>| {
            let mut fv = vec![];
            st.push((r, false));
            while let Some((t, done)) = st.pop() {
                if done {
                    order.push(t);
                    continue;
                }
                if mark[t as usize] == gen {
                    continue;
                }
                mark[t as usize] = gen;
                match tt.k(t) {
                    K::Var(i) => fv.push(*i),
                    K::Uf(..) => ufs.push(t),
                    _ => {}
                }
                st.push((t, true));
                ch.clear();
                tt.children(t, &mut ch);
                for c in &ch {
                    if mark[*c as usize] != gen {
                        st.push((*c, false));
                    }
                }
            }
            if let Some(f) = free {
                f.extend(fv);
            }
        };
        walk(extra, &mut self.mark, &mut order, Some(&mut free), &mut ufs);
        let has_uf = !ufs.is_empty();
        let split = order.len();
        for &c in pc {
            walk(c, &mut self.mark, &mut order, None, &mut ufs);
            if order.len() > 6000 {
                return None;
            }
        }
        let cost = order.len().max(1) as u32;
        let tries = tries.min((200_000_000 / cost).max(10));
        if free.is_empty() && !has_uf {
            return None;
        }
        let mut vars = base.vars.clone();
        vars.resize(tt.var_w.len().max(vars.len()), 0);
        let t0 = Instant::now();
        for k in 0..tries {
            if k & 1023 == 1023
                && (t0.elapsed().as_secs_f64() > 1.0 || Instant::now() > self.deadline)
            {
                return None;
            }
            let mut old: Vec<(u32, u128)> = vec![];
            if !free.is_empty() {
                // one, some or all of the inputs
                let mode = self.rnd() % 3;
                let one = (self.rnd() % free.len() as u64) as usize;
                for (n, &i) in free.iter().enumerate() {
                    let ch = match mode {
                        0 => n == one,
                        1 => self.rnd() & 1 == 0,
                        _ => true,
                    };
                    if !ch {
                        continue;
                    }
                    let w = tt.var_w[i as usize];
                    old.push((i, vars[i as usize]));
                    let r = (self.rnd() as u128) << 64 | self.rnd() as u128;
                    let v = match self.rnd() % 8 {
                        0 => r & 3,
                        1 => !(r & 3),
                        2 => r >> (self.rnd() % 127),
                        3 => vars[free[(r % free.len() as u128) as usize] as usize],
                        4 => vars[i as usize].wrapping_add((r & 3).wrapping_sub(1)),
                        _ => r,
                    };
                    vars[i as usize] = v & crate::term::mask(w);
                }
            }
            let fresh = has_uf && (self.rnd() & 1 == 0 || free.is_empty());
            let seed = self.rnd();
            let mut local: HashMap<(u32, u128), u128> = HashMap::new();
            let vals = &mut self.vals;
            let mut ok = true;
            for (n, &t) in order.iter().enumerate() {
                let v = {
                    let vs: &Vec<u128> = vals;
                    let w = tt.w(t);
                    tt.node_value(
                        t,
                        &mut |x| match tt.k(x) {
                            K::Const(c) => *c,
                            _ => vs[x as usize],
                        },
                        &|i| vars[i as usize],
                        &mut |f, a| {
                            let known = base.ufs.get(&(f, a)).copied();
                            *local.entry((f, a)).or_insert_with(|| match known {
                                Some(v) if !fresh || (seed ^ a as u64) % 3 == 0 => v,
                                _ => {
                                    let mut h = seed
                                        ^ (a as u64).wrapping_mul(0x9e3779b97f4a7c15)
                                        ^ (f as u64) << 56;
                                    h ^= h >> 29;
                                    h = h.wrapping_mul(0xbf58476d1ce4e5b9);
                                    h ^= h >> 32;
                                    let h = h.wrapping_mul(0x94d049bb133111eb);
                                    match h >> 61 {
                                        0 => 0,
                                        1 => crate::term::mask(w),
                                        _ => h as u128 | (h as u128) << 64,
                                    }
                                }
                            }) & crate::term::mask(w)
                        },
                    )
                };
                vals[t as usize] = v;
                if n + 1 == split && v != 1 {
                    ok = false;
                    break;
                }
            }
            if ok {
                for &c in pc {
                    let v = match tt.k(c) {
                        K::Const(c) => *c,
                        _ => vals[c as usize],
                    };
                    if v != 1 {
                        ok = false;
                        break;
                    }
                }
            }
            if ok {
                let mut m = Model::default();
                m.vars = vars;
                m.ufs = base.ufs.clone();
                for (k, v) in local {
                    m.ufs.insert(k, v);
                }
                // masked as in the nodes
                for &t in &ufs {
                    if let K::Uf(f, a) = tt.k(t) {
                        let a = match tt.k(*a) {
                            K::Const(c) => *c,
                            _ => self.vals[*a as usize],
                        };
                        m.ufs.insert((*f, a), self.vals[t as usize]);
                    }
                }
                self.stats.guessed += 1;
                return Some(m);
            }
            for (i, v) in old.into_iter().rev() {
                vars[i as usize] = v;
            }
        }
        None
    }
    fn check_inc(&mut self, tt: &Terms, pc: &[T], extra: Option<T>, all: &[T]) -> Answer {
        if self.p.is_none() {
            self.restart();
            let mut p = Proc::start();
            let _ = p.inp.write_all(
                b"(set-option :print-success false)\n(set-option :global-declarations true)\n(set-option :produce-models true)\n",
            );
            let _ = write!(p.inp, "(set-option :timeout {})\n", self.soft_ms);
            self.p = Some(p);
        }
        let mut s = String::new();
        let mut common = 0;
        while common < self.stack.len() && common < pc.len() && self.stack[common] == pc[common] {
            common += 1;
        }
        if common < self.stack.len() {
            s.push_str(&format!("(pop {})\n", self.stack.len() - common));
            self.stack.truncate(common);
        }
        for &c in all {
            Self::define(
                c,
                tt,
                &mut s,
                &mut self.defined,
                &mut self.vars,
                &mut self.tabs,
                &mut self.ufs,
            );
        }
        for &c in &pc[common..] {
            s.push_str(&format!("(push 1)\n(assert {})\n", tt.name(c)));
            self.stack.push(c);
        }
        if let Some(e) = extra {
            s.push_str(&format!("(push 1)\n(assert {})\n", tt.name(e)));
        }
        s.push_str("(check-sat)\n");
        let p = self.p.as_mut().unwrap();
        watch(
            p.child.id(),
            Some(Instant::now() + Duration::from_millis(self.soft_ms * 2 + 4000)),
        );
        let r = p.inp.write_all(s.as_bytes()).ok().and_then(|_| p.line());
        let ans = match r.as_deref() {
            Some("sat") => match Self::read_model(p, tt, all) {
                Some(m) => Answer::Sat(m),
                None => Answer::Unknown,
            },
            Some("unsat") => Answer::Unsat,
            Some("unknown") => Answer::Unknown,
            other => {
                if let Some(o) = other {
                    self.errors.push(format!("z3: {}", o));
                }
                watch(p.child.id(), None);
                self.p = None;
                return Answer::Unknown;
            }
        };
        watch(p.child.id(), None);
        if extra.is_some() {
            let _ = p.inp.write_all(b"(pop 1)\n");
        }
        ans
    }
    fn check_once(&mut self, tt: &Terms, all: &[T]) -> Answer {
        let left = self
            .deadline
            .saturating_duration_since(Instant::now())
            .as_millis() as u64;
        let ms = self.hard_ms.min(left).max(1);
        let mut s = String::new();
        let (mut d, mut v, mut t, mut u) = (
            HashSet::new(),
            HashSet::new(),
            HashSet::new(),
            HashSet::new(),
        );
        for &c in all {
            Self::define(c, tt, &mut s, &mut d, &mut v, &mut t, &mut u);
        }
        let mut q = String::from("(set-option :print-success false)\n");
        q.push_str(&format!("(set-option :timeout {})\n", ms));
        q.push_str(if u.is_empty() {
            "(set-logic QF_BV)\n"
        } else {
            "(set-logic QF_UFBV)\n"
        });
        q.push_str(&s);
        for &c in all {
            q.push_str(&format!("(assert {})\n", tt.name(c)));
        }
        q.push_str("(check-sat)\n");
        let mut p = Proc::start();
        watch(
            p.child.id(),
            Some(Instant::now() + Duration::from_millis(ms + 3000)),
        );
        if p.inp.write_all(q.as_bytes()).is_err() {
            return Answer::Unknown;
        }
        match p.line().as_deref() {
            Some("sat") => match Self::read_model(&mut p, tt, all) {
                Some(m) => Answer::Sat(m),
                None => Answer::Unknown,
            },
            Some("unsat") => Answer::Unsat,
            Some("unknown") | None => Answer::Unknown,
            Some(o) => {
                self.errors.push(format!("z3: {}", o));
                Answer::Unknown
            }
        }
    }
}
