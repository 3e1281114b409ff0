//! Hash-consed bit-vector terms with canonicalising constructors.
//!
//! Every constructor returns a term that is equal, for all values of the variables, to the
//! operation it is named after. Widths are 1..=128 bits; width 1 is printed as Bool.

use std::collections::HashMap;
use std::fmt::Write;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Bin {
    And,
    Or,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum K {
    Const(u128),
    Var(u32),
    /// constant + sum of coefficient * atom (mod 2^w)
    Lin(u128, Rc<[(T, u128)]>),
    /// constant ^ atoms
    Xor(u128, Rc<[T]>),
    Rot(T, u32),
    Bin(Bin, T, T),
    Zext(T),
    Sext(T),
    /// bits lo .. lo + w
    Extract(T, u32),
    Ite(T, T, T),
    Eq(T, T),
    Ult(T, T),
    Slt(T, T),
    Not(T),
    BAnd(T, T),
    Uf(u32, T),
    Lookup(u32, T),
}

struct Node {
    k: K,
    w: u32,
}

/// A constant table (from constant memory) or an uninterpreted one.
pub struct Table {
    pub vals: Rc<Vec<u128>>,
    pub w: u32,
}

pub struct Terms {
    nodes: Vec<Node>,
    map: FxMap<(K, u32), T>,
    range: Vec<Option<(u128, u128)>>,
    pub tables: Vec<Table>,
    table_map: HashMap<(Vec<u128>, u32), u32>,
    /// width of the argument and of the result
    pub ufs: HashMap<u32, (u32, u32)>,
    pub var_w: Vec<u32>,
    var_map: HashMap<(u32, u32), T>,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u32) -> i128 {
    let s = 128 - w;
    ((v << s) as i128) >> s
}
fn bits_for(max: u128) -> u32 {
    128 - max.leading_zeros()
}

#[derive(Default)]
pub struct Model {
    pub vars: Vec<u128>,
    pub ufs: HashMap<(u32, u128), u128>,
    pub memo: std::cell::RefCell<FxMap<T, u128>>,
}

impl Terms {
    pub fn new() -> Self {
        let mut t = Terms {
            nodes: vec![],
            map: Default::default(),
            range: vec![],
            tables: vec![],
            table_map: HashMap::new(),
            ufs: HashMap::new(),
            var_w: vec![],
            var_map: HashMap::new(),
        };
        t.c(0, 1);
        t.c(1, 1);
        t
    }
    pub fn len(&self) -> usize {
        self.nodes.len()
    }
    pub fn w(&self, t: T) -> u32 {
        self.nodes[t as usize].w
    }
    pub fn k(&self, t: T) -> &K {
        &self.nodes[t as usize].k
    }
    fn intern(&mut self, k: K, w: u32) -> T {
        debug_assert!(w >= 1 && w <= 128);
        if let Some(&t) = self.map.get(&(k.clone(), w)) {
            return t;
        }
        let t = self.nodes.len() as T;
        self.nodes.push(Node { k: k.clone(), w });
        self.range.push(None);
        self.map.insert((k, w), t);
        t
    }
    pub fn c(&mut self, v: u128, w: u32) -> T {
        self.intern(K::Const(v & mask(w)), w)
    }
    pub fn bool(&mut self, b: bool) -> T {
        b as T
    }
    pub fn as_c(&self, t: T) -> Option<u128> {
        match self.k(t) {
            K::Const(v) => Some(*v),
            _ => None,
        }
    }
    /// the i-th input of the path, of width w
    pub fn var(&mut self, i: u32, w: u32) -> T {
        if let Some(&t) = self.var_map.get(&(i, w)) {
            return t;
        }
        let id = self.var_w.len() as u32;
        self.var_w.push(w);
        let t = self.intern(K::Var(id), w);
        self.var_map.insert((i, w), t);
        t
    }
    pub fn table(&mut self, vals: Vec<u128>, w: u32) -> u32 {
        if let Some(&i) = self.table_map.get(&(vals.clone(), w)) {
            return i;
        }
        let i = self.tables.len() as u32;
        self.tables.push(Table {
            vals: Rc::new(vals.clone()),
            w,
        });
        self.table_map.insert((vals, w), i);
        i
    }
    pub fn uf(&mut self, id: u32, arg: T, w: u32) -> T {
        let aw = self.w(arg);
        let old = self.ufs.insert(id, (aw, w));
        assert!(
            old.is_none() || old == Some((aw, w)),
            "uf used with different widths"
        );
        self.intern(K::Uf(id, arg), w)
    }
    /// vals[idx], idx of any width (in range)
    pub fn lookup(&mut self, vals: Vec<u128>, w: u32, idx: T) -> T {
        if let Some(i) = self.as_c(idx) {
            return self.c(vals[i as usize], w);
        }
        if vals.iter().all(|v| *v == vals[0]) {
            return self.c(vals[0], w);
        }
        if let K::Ite(c, a, b) = *self.k(idx) {
            if self.as_c(a).is_some() || self.as_c(b).is_some() {
                let x = self.lookup(vals.clone(), w, a);
                let y = self.lookup(vals, w, b);
                return self.ite(c, x, y);
            }
        }
        // narrow the index to the bits it needs
        let need = bits_for(vals.len() as u128 - 1).max(1);
        let iw = self.w(idx);
        let idx = if iw > need {
            self.extract(idx, 0, need)
        } else {
            idx
        };
        if self.as_c(idx).is_some() {
            return self.lookup(vals, w, idx);
        }
        if self.w(idx) == 1 {
            let a = self.c(vals[1], w);
            let b = self.c(vals[0], w);
            return self.ite(idx, a, b);
        }
        let tab = self.table(vals, w);
        self.intern(K::Lookup(tab, idx), w)
    }

    pub fn range(&mut self, t: T) -> (u128, u128) {
        if let Some(r) = self.range[t as usize] {
            return r;
        }
        let w = self.w(t);
        let full = (0, mask(w));
        let r = match self.k(t).clone() {
            K::Const(v) => (v, v),
            K::Var(_) | K::Uf(..) => full,
            K::Lookup(tab, _) => {
                let v = &self.tables[tab as usize].vals;
                (*v.iter().min().unwrap(), *v.iter().max().unwrap())
            }
            K::Lin(c0, items) => {
                // first as a sum of non-negative products, then with negative coefficients
                let mut lo = Some(c0);
                let mut hi = Some(c0);
                for &(a, k) in items.iter() {
                    let (l, h) = self.range(a);
                    lo = lo.and_then(|x| l.checked_mul(k).and_then(|y| x.checked_add(y)));
                    hi = hi.and_then(|x| h.checked_mul(k).and_then(|y| x.checked_add(y)));
                }
                match (lo, hi) {
                    (Some(l), Some(h)) if h <= mask(w) => (l, h),
                    _ if w <= 64 => {
                        let mut l: Option<i128> = Some(sext(c0, w));
                        let mut h: Option<i128> = Some(sext(c0, w));
                        for &(a, k) in items.iter() {
                            let (al, ah) = self.range(a);
                            let ks = sext(k, w);
                            let (al, ah) = (al as i128, ah as i128);
                            let (x, y) = if ks >= 0 {
                                (al.checked_mul(ks), ah.checked_mul(ks))
                            } else {
                                (ah.checked_mul(ks), al.checked_mul(ks))
                            };
                            l = match (l, x) {
                                (Some(a), Some(b)) => a.checked_add(b),
                                _ => None,
                            };
                            h = match (h, y) {
                                (Some(a), Some(b)) => a.checked_add(b),
                                _ => None,
                            };
                        }
                        match (l, h) {
                            (Some(l), Some(h)) if l >= 0 && h <= mask(w) as i128 => {
                                (l as u128, h as u128)
                            }
                            _ => full,
                        }
                    }
                    _ => full,
                }
            }
            K::Xor(c0, items) => {
                let mut b = bits_for(c0);
                for &a in items.iter() {
                    let (_, h) = self.range(a);
                    b = b.max(bits_for(h));
                }
                (0, mask(b))
            }
            K::Rot(..) => full,
            K::Zext(x) => self.range(x),
            K::Sext(x) => {
                let xw = self.w(x);
                let (l, h) = self.range(x);
                if h <= mask(xw - 1) {
                    (l, h)
                } else {
                    full
                }
            }
            K::Extract(x, lo) => {
                let (l, h) = self.range(x);
                if (h >> lo) <= mask(w) {
                    (l >> lo, h >> lo)
                } else {
                    full
                }
            }
            K::Ite(_, a, b) => {
                let (al, ah) = self.range(a);
                let (bl, bh) = self.range(b);
                (al.min(bl), ah.max(bh))
            }
            K::Bin(op, a, b) => {
                let (al, ah) = self.range(a);
                let (bl, bh) = self.range(b);
                match op {
                    Bin::And => (0, ah.min(bh)),
                    Bin::Or => (al.max(bl), mask(bits_for(ah).max(bits_for(bh)))),
                    Bin::URem if bl > 0 => (0, ah.min(bh - 1)),
                    Bin::UDiv if bl > 0 => (al / bh, ah / bl),
                    Bin::LShr => (0, ah),
                    Bin::Mul => match ah.checked_mul(bh) {
                        Some(h) if h <= mask(w) => (al * bl, h),
                        _ => full,
                    },
                    _ => full,
                }
            }
            _ => full,
        };
        self.range[t as usize] = Some(r);
        r
    }
    /// number of low bits known to be zero
    fn tz(&self, t: T) -> u32 {
        let w = self.w(t);
        match self.k(t) {
            K::Const(v) => v.trailing_zeros().min(w),
            K::Lin(c0, items) => {
                let mut z = c0.trailing_zeros().min(w);
                for (a, k) in items.iter() {
                    z = z.min((k.trailing_zeros() + self.tz(*a)).min(w));
                }
                z
            }
            K::Xor(c0, items) => {
                let mut z = c0.trailing_zeros().min(w);
                for a in items.iter() {
                    z = z.min(self.tz(*a));
                }
                z
            }
            K::Zext(x) => self.tz(*x),
            K::Bin(Bin::And, a, b) => self.tz(*a).max(self.tz(*b)),
            _ => 0,
        }
    }

    // ---- linear forms
    fn as_lin(&self, t: T) -> (u128, Rc<[(T, u128)]>) {
        match self.k(t) {
            K::Const(v) => (*v, Rc::from(vec![])),
            K::Lin(c, i) => (*c, i.clone()),
            _ => (0, Rc::from(vec![(t, 1u128)])),
        }
    }
    fn mk_lin(&mut self, w: u32, c0: u128, items: Vec<(T, u128)>) -> T {
        let m = mask(w);
        let c0 = c0 & m;
        let items: Vec<(T, u128)> = items
            .into_iter()
            .map(|(a, k)| (a, k & m))
            .filter(|(_, k)| *k != 0)
            .collect();
        if items.is_empty() {
            return self.c(c0, w);
        }
        if items.len() == 1 && c0 == 0 {
            let (a, k) = items[0];
            if k == 1 {
                return a;
            }
            // a shifted xor is the xor of the shifted operands
            if k.is_power_of_two() {
                if let K::Xor(x0, xs) = self.k(a).clone() {
                    let mut v = vec![];
                    for &x in xs.iter() {
                        v.push(self.mul_c(x, k));
                    }
                    return self.mk_xor(w, x0.wrapping_mul(k), v);
                }
            }
        }
        self.intern(K::Lin(c0, Rc::from(items)), w)
    }
    /// a * ka + b * kb
    fn lin2(&mut self, a: T, ka: u128, b: T, kb: u128) -> T {
        let w = self.w(a);
        let m = mask(w);
        let (ca, ia) = self.as_lin(a);
        let (cb, ib) = self.as_lin(b);
        let c0 = ca.wrapping_mul(ka).wrapping_add(cb.wrapping_mul(kb)) & m;
        let mut v = Vec::with_capacity(ia.len() + ib.len());
        let (mut i, mut j) = (0, 0);
        while i < ia.len() || j < ib.len() {
            if j >= ib.len() || (i < ia.len() && ia[i].0 < ib[j].0) {
                v.push((ia[i].0, ia[i].1.wrapping_mul(ka) & m));
                i += 1;
            } else if i >= ia.len() || ib[j].0 < ia[i].0 {
                v.push((ib[j].0, ib[j].1.wrapping_mul(kb) & m));
                j += 1;
            } else {
                v.push((
                    ia[i].0,
                    ia[i]
                        .1
                        .wrapping_mul(ka)
                        .wrapping_add(ib[j].1.wrapping_mul(kb))
                        & m,
                ));
                i += 1;
                j += 1;
            }
        }
        self.mk_lin(w, c0, v)
    }
    pub fn add(&mut self, a: T, b: T) -> T {
        debug_assert_eq!(self.w(a), self.w(b));
        if self.w(a) == 1 {
            return self.xor(a, b);
        }
        self.lin2(a, 1, b, 1)
    }
    pub fn sub(&mut self, a: T, b: T) -> T {
        if self.w(a) == 1 {
            return self.xor(a, b);
        }
        let m = mask(self.w(a));
        self.lin2(a, 1, b, m)
    }
    fn mul_c(&mut self, a: T, k: u128) -> T {
        let w = self.w(a);
        let k = k & mask(w);
        if k == 0 {
            return self.c(0, w);
        }
        let (c, i) = self.as_lin(a);
        let v = i.iter().map(|(t, x)| (*t, x.wrapping_mul(k))).collect();
        self.mk_lin(w, c.wrapping_mul(k), v)
    }
    pub fn mul(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if w == 1 {
            return self.band(a, b);
        }
        if let Some(k) = self.as_c(b) {
            return self.mul_c(a, k);
        }
        if let Some(k) = self.as_c(a) {
            return self.mul_c(b, k);
        }
        for (x, y) in [(a, b), (b, a)] {
            if let K::Ite(c, p, q) = *self.k(x) {
                if let (Some(p), Some(q)) = (self.as_c(p), self.as_c(q)) {
                    let p = self.mul_c(y, p);
                    let q = self.mul_c(y, q);
                    return self.ite(c, p, q);
                }
            }
        }
        let (a, b) = (a.min(b), a.max(b));
        self.intern(K::Bin(Bin::Mul, a, b), w)
    }

    // ---- xor
    fn mk_xor(&mut self, w: u32, c0: u128, items: Vec<T>) -> T {
        let mut c0 = c0 & mask(w);
        let mut v = vec![];
        for t in items {
            match self.k(t).clone() {
                K::Const(x) => c0 ^= x,
                K::Xor(x, ts) => {
                    c0 ^= x;
                    v.extend_from_slice(&ts);
                }
                _ => v.push(t),
            }
        }
        v.sort_unstable();
        let mut out: Vec<T> = Vec::with_capacity(v.len());
        for t in v {
            if out.last() == Some(&t) {
                out.pop();
            } else {
                out.push(t);
            }
        }
        if out.is_empty() {
            return self.c(c0, w);
        }
        if out.len() == 1 && c0 == 0 {
            return out[0];
        }
        if w == 1 {
            // booleans
            let mut r = out[0];
            for &t in &out[1..] {
                let e = self.eq(r, t);
                r = self.not(e);
            }
            if c0 == 1 {
                r = self.not(r);
            }
            return r;
        }
        self.intern(K::Xor(c0, Rc::from(out)), w)
    }
    pub fn xor(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if w == 1 {
            let e = self.eq(a, b);
            return self.not(e);
        }
        if let (Some(x), Some(y)) = (self.as_c(a), self.as_c(b)) {
            return self.c(x ^ y, w);
        }
        self.mk_xor(w, 0, vec![a, b])
    }
    pub fn rotl(&mut self, a: T, k: u32) -> T {
        let w = self.w(a);
        let k = k % w;
        if k == 0 {
            return a;
        }
        match self.k(a).clone() {
            K::Const(v) => self.c((v << k) | (v >> (w - k)), w),
            K::Xor(c0, ts) => {
                let mut v = vec![];
                for &t in ts.iter() {
                    v.push(self.rotl(t, k));
                }
                let c0 = ((c0 << k) | (c0 >> (w - k))) & mask(w);
                self.mk_xor(w, c0, v)
            }
            K::Rot(x, j) => self.rotl(x, j + k),
            _ => self.intern(K::Rot(a, k), w),
        }
    }

    // ---- bitwise
    pub fn and(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if w == 1 {
            return self.band(a, b);
        }
        if a == b {
            return a;
        }
        let (a, b) = if self.as_c(a).is_some() {
            (b, a)
        } else {
            (a, b)
        };
        if let Some(m) = self.as_c(b) {
            if let Some(x) = self.as_c(a) {
                return self.c(x & m, w);
            }
            if m == 0 {
                return b;
            }
            if m == mask(w) {
                return a;
            }
            let (_, h) = self.range(a);
            let rel = mask(bits_for(h));
            if m & rel == rel {
                return a;
            }
            if m & rel == 0 {
                return self.c(0, w);
            }
            if (m + 1).is_power_of_two() {
                let k = bits_for(m);
                let x = self.extract(a, 0, k);
                return self.zext(x, w);
            }
            match self.k(a).clone() {
                K::Bin(Bin::And, x, y) => {
                    if let Some(n) = self.as_c(y) {
                        let c = self.c(n & m, w);
                        return self.and(x, c);
                    }
                }
                K::Ite(c, x, y) if self.as_c(x).is_some() || self.as_c(y).is_some() => {
                    let x = self.and(x, b);
                    let y = self.and(y, b);
                    return self.ite(c, x, y);
                }
                K::Zext(x) => {
                    let xw = self.w(x);
                    if xw > 1 {
                        let c = self.c(m, xw);
                        let r = self.and(x, c);
                        return self.zext(r, w);
                    }
                }
                _ => {}
            }
            return self.intern(K::Bin(Bin::And, a, b), w);
        }
        let (a, b) = (a.min(b), a.max(b));
        self.intern(K::Bin(Bin::And, a, b), w)
    }
    pub fn or(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if w == 1 {
            let x = self.not(a);
            let y = self.not(b);
            let z = self.band(x, y);
            return self.not(z);
        }
        if a == b {
            return a;
        }
        for (x, y) in [(a, b), (b, a)] {
            if let Some(m) = self.as_c(x) {
                if m == 0 {
                    return y;
                }
                if m == mask(w) {
                    return x;
                }
                if let Some(n) = self.as_c(y) {
                    return self.c(m | n, w);
                }
            }
        }
        for (x, y) in [(a, b), (b, a)] {
            let z = self.tz(x);
            if z > 0 {
                let (_, h) = self.range(y);
                if bits_for(h) <= z {
                    return self.add(x, y);
                }
            }
        }
        let (a, b) = (a.min(b), a.max(b));
        self.intern(K::Bin(Bin::Or, a, b), w)
    }
    pub fn zext(&mut self, a: T, w: u32) -> T {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        debug_assert!(aw < w);
        if aw == 1 {
            let x = self.c(1, w);
            let y = self.c(0, w);
            return self.ite(a, x, y);
        }
        match self.k(a).clone() {
            K::Const(v) => self.c(v, w),
            K::Zext(x) => self.zext(x, w),
            K::Ite(c, x, y) => {
                let x = self.zext(x, w);
                let y = self.zext(y, w);
                self.ite(c, x, y)
            }
            K::Xor(c0, ts) => {
                let mut v = vec![];
                for &t in ts.iter() {
                    v.push(self.zext(t, w));
                }
                self.mk_xor(w, c0, v)
            }
            K::Lin(c0, items) => {
                let mut hi = Some(c0);
                for &(t, k) in items.iter() {
                    let (_, h) = self.range(t);
                    hi = hi.and_then(|x| h.checked_mul(k).and_then(|y| x.checked_add(y)));
                }
                if hi.map_or(false, |h| h <= mask(aw)) {
                    let mut acc = self.c(c0, w);
                    for &(t, k) in items.iter() {
                        let z = self.zext(t, w);
                        acc = self.lin2(acc, 1, z, k);
                    }
                    acc
                } else {
                    self.intern(K::Zext(a), w)
                }
            }
            _ => self.intern(K::Zext(a), w),
        }
    }
    pub fn sext(&mut self, a: T, w: u32) -> T {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if aw == 1 {
            let x = self.c(mask(w), w);
            let y = self.c(0, w);
            return self.ite(a, x, y);
        }
        if let Some(v) = self.as_c(a) {
            return self.c(sext(v, aw) as u128, w);
        }
        let (_, h) = self.range(a);
        if h <= mask(aw - 1) {
            return self.zext(a, w);
        }
        if let K::Ite(c, x, y) = *self.k(a) {
            let x = self.sext(x, w);
            let y = self.sext(y, w);
            return self.ite(c, x, y);
        }
        self.intern(K::Sext(a), w)
    }
    pub fn extract(&mut self, a: T, lo: u32, w: u32) -> T {
        let aw = self.w(a);
        debug_assert!(lo + w <= aw);
        if lo == 0 && w == aw {
            return a;
        }
        match self.k(a).clone() {
            K::Const(v) => return self.c(v >> lo, w),
            K::Zext(x) => {
                let xw = self.w(x);
                if lo + w <= xw {
                    return self.extract(x, lo, w);
                }
                if lo >= xw {
                    return self.c(0, w);
                }
                let y = self.extract(x, lo, xw - lo);
                return self.zext(y, w);
            }
            K::Sext(x) => {
                let xw = self.w(x);
                if lo + w <= xw {
                    return self.extract(x, lo, w);
                }
            }
            K::Extract(x, l2) => return self.extract(x, lo + l2, w),
            K::Lin(c0, items) => {
                if lo == 0 {
                    if w == 1 {
                        // parity of the odd atoms
                        let mut acc = self.c(c0 & 1, 1);
                        for &(t, k) in items.iter() {
                            if k & 1 == 1 {
                                let b = self.extract(t, 0, 1);
                                acc = self.xor(acc, b);
                            }
                        }
                        return acc;
                    }
                    let mut acc = self.c(c0, w);
                    for &(t, k) in items.iter() {
                        if k & mask(w) != 0 {
                            let x = self.extract(t, 0, w);
                            acc = self.lin2(acc, 1, x, k & mask(w));
                        }
                    }
                    return acc;
                }
                // all items are multiples of 2^lo and nothing wraps: divide
                let z = self.tz(a);
                if z >= lo && items.iter().all(|(_, k)| k.trailing_zeros() >= lo) {
                    let mut hi = Some(c0);
                    for &(t, k) in items.iter() {
                        let (_, h) = self.range(t);
                        hi = hi.and_then(|x| h.checked_mul(k).and_then(|y| x.checked_add(y)));
                    }
                    if hi.map_or(false, |h| h <= mask(aw)) {
                        let items: Vec<_> = items.iter().map(|(t, k)| (*t, k >> lo)).collect();
                        let q = self.mk_lin(aw, c0 >> lo, items);
                        return self.extract(q, 0, w);
                    }
                }
                // low part strictly below 2^lo, rest multiples: drop the low part
                let low: Vec<_> = items
                    .iter()
                    .cloned()
                    .filter(|(_, k)| k.trailing_zeros() < lo)
                    .collect();
                if low.len() < items.len() && (!low.is_empty() || c0 & mask(lo) != 0) {
                    let mut hi = Some(c0 & mask(lo));
                    for &(t, k) in low.iter() {
                        let (_, h) = self.range(t);
                        hi = hi.and_then(|x| h.checked_mul(k).and_then(|y| x.checked_add(y)));
                    }
                    if hi.map_or(false, |h| h <= mask(lo)) {
                        let high: Vec<_> = items
                            .iter()
                            .cloned()
                            .filter(|(_, k)| k.trailing_zeros() >= lo)
                            .collect();
                        let h = self.mk_lin(aw, c0 & !mask(lo), high);
                        return self.extract(h, lo, w);
                    }
                }
            }
            K::Xor(c0, ts) => {
                let mut v = vec![];
                for &t in ts.iter() {
                    v.push(self.extract(t, lo, w));
                }
                if w == 1 {
                    let mut acc = self.c(c0 >> lo, 1);
                    for t in v {
                        acc = self.xor(acc, t);
                    }
                    return acc;
                }
                return self.mk_xor(w, c0 >> lo, v);
            }
            K::Ite(c, x, y) => {
                let x = self.extract(x, lo, w);
                let y = self.extract(y, lo, w);
                return self.ite(c, x, y);
            }
            K::Bin(Bin::And, x, y) => {
                let x = self.extract(x, lo, w);
                let y = self.extract(y, lo, w);
                return self.and(x, y);
            }
            K::Bin(Bin::Or, x, y) => {
                let x = self.extract(x, lo, w);
                let y = self.extract(y, lo, w);
                return self.or(x, y);
            }
            K::Bin(Bin::Mul, x, y) if lo == 0 => {
                let x = self.extract(x, 0, w);
                let y = self.extract(y, 0, w);
                return self.mul(x, y);
            }
            K::Rot(x, k) => {
                // bits lo..lo+w of rotl(x, k) are bits (lo-k).. of x when they do not wrap
                let s = (lo + aw - k) % aw;
                if s + w <= aw {
                    return self.extract(x, s, w);
                }
            }
            K::Lookup(tab, i) => {
                let vals: Vec<u128> = self.tables[tab as usize]
                    .vals
                    .iter()
                    .map(|v| (v >> lo) & mask(w))
                    .collect();
                return self.lookup(vals, w, i);
            }
            _ => {}
        }
        self.intern(K::Extract(a, lo), w)
    }
    pub fn concat(&mut self, hi: T, lo: T) -> T {
        let (hw, lw) = (self.w(hi), self.w(lo));
        // adjacent pieces of one term
        if let (K::Extract(x, a), K::Extract(y, b)) = (self.k(hi).clone(), self.k(lo).clone()) {
            if x == y && a == b + lw {
                return self.extract(x, b, hw + lw);
            }
        }
        if let K::Extract(x, a) = *self.k(hi) {
            let whole = self.extract(x, 0, a.max(1));
            if a == lw && whole == lo {
                return self.extract(x, 0, hw + lw);
            }
        }
        let w = hw + lw;
        let h = self.zext(hi, w);
        let l = self.zext(lo, w);
        let h = self.mul_c(h, 1u128 << lw);
        self.lin2(h, 1, l, 1)
    }
    pub fn shl(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.as_c(b) {
            if k >= w as u128 {
                return self.c(0, w);
            }
            return self.mul_c(a, 1u128 << k);
        }
        if let K::Ite(c, x, y) = *self.k(b) {
            let x = self.shl(a, x);
            let y = self.shl(a, y);
            return self.ite(c, x, y);
        }
        self.intern(K::Bin(Bin::Shl, a, b), w)
    }
    pub fn lshr(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.as_c(b) {
            if k >= w as u128 {
                return self.c(0, w);
            }
            let k = k as u32;
            let x = self.extract(a, k, w - k);
            return self.zext(x, w);
        }
        if let K::Ite(c, x, y) = *self.k(b) {
            let x = self.lshr(a, x);
            let y = self.lshr(a, y);
            return self.ite(c, x, y);
        }
        self.intern(K::Bin(Bin::LShr, a, b), w)
    }
    pub fn ashr(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(k)) = (self.as_c(a), self.as_c(b)) {
            let k = k.min(w as u128 - 1) as u32;
            return self.c((sext(x, w) >> k) as u128, w);
        }
        let (_, h) = self.range(a);
        if h <= mask(w - 1) {
            return self.lshr(a, b);
        }
        if let Some(k) = self.as_c(b) {
            let k = k.min(w as u128 - 1) as u32;
            let x = self.extract(a, k, w - k);
            return self.sext(x, w);
        }
        self.intern(K::Bin(Bin::AShr, a, b), w)
    }
    pub fn divrem(&mut self, op: Bin, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_c(a), self.as_c(b)) {
            return self.c(eval_bin(op, x, y, w), w);
        }
        if op == Bin::SDiv || op == Bin::SRem {
            let (_, ah) = self.range(a);
            let (_, bh) = self.range(b);
            if ah <= mask(w - 1) && bh <= mask(w - 1) {
                return self.divrem(
                    if op == Bin::SDiv {
                        Bin::UDiv
                    } else {
                        Bin::URem
                    },
                    a,
                    b,
                );
            }
            return self.intern(K::Bin(op, a, b), w);
        }
        if let Some(y) = self.as_c(b) {
            if y == 1 {
                return if op == Bin::UDiv { a } else { self.c(0, w) };
            }
            if y.is_power_of_two() {
                let k = y.trailing_zeros();
                if op == Bin::UDiv {
                    let c = self.c(k as u128, w);
                    return self.lshr(a, c);
                } else {
                    let c = self.c(y - 1, w);
                    return self.and(a, c);
                }
            }
            if y != 0 {
                let (l, h) = self.range(a);
                // the quotient is the same for all
                if l / y == h / y {
                    return if op == Bin::UDiv {
                        self.c(l / y, w)
                    } else {
                        let c = self.c(l / y * y, w);
                        self.sub(a, c)
                    };
                }
            }
        }
        // do the operation in as few bits as both operands need
        let (_, ah) = self.range(a);
        let (bl, bh) = self.range(b);
        let k = bits_for(ah).max(bits_for(bh)).max(2);
        if k < w && bl > 0 {
            let x = self.extract(a, 0, k);
            let y = self.extract(b, 0, k);
            let r = self.divrem(op, x, y);
            return self.zext(r, w);
        }
        self.intern(K::Bin(op, a, b), w)
    }

    // ---- booleans
    pub fn not(&mut self, a: T) -> T {
        match *self.k(a) {
            K::Const(v) => (v ^ 1) as T,
            K::Not(x) => x,
            _ => self.intern(K::Not(a), 1),
        }
    }
    pub fn band(&mut self, a: T, b: T) -> T {
        if a == 0 || b == 0 {
            return 0;
        }
        if a == 1 {
            return b;
        }
        if b == 1 || a == b {
            return a;
        }
        if self.not(a) == b {
            return 0;
        }
        let (a, b) = (a.min(b), a.max(b));
        self.intern(K::BAnd(a, b), 1)
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if c == 1 || a == b {
            return a;
        }
        if c == 0 {
            return b;
        }
        if let K::Not(x) = *self.k(c) {
            return self.ite(x, b, a);
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            if a == 1 {
                return self.or(c, b);
            }
            if a == 0 {
                let n = self.not(c);
                return self.band(n, b);
            }
            if b == 0 {
                return self.band(c, a);
            }
            if b == 1 {
                let n = self.not(c);
                return self.or(n, a);
            }
        }
        let a = match *self.k(a) {
            K::Ite(c2, x, _) if c2 == c => x,
            _ => a,
        };
        let b = match *self.k(b) {
            K::Ite(c2, _, y) if c2 == c => y,
            _ => b,
        };
        if a == b {
            return a;
        }
        self.intern(K::Ite(c, a, b), w)
    }
    pub fn eq(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return 1;
        }
        if let (Some(x), Some(y)) = (self.as_c(a), self.as_c(b)) {
            return (x == y) as T;
        }
        if w == 1 {
            for (x, y) in [(a, b), (b, a)] {
                if y == 1 {
                    return x;
                }
                if y == 0 {
                    return self.not(x);
                }
            }
            // strip negations
            let (mut x, mut y, mut n) = (a, b, false);
            if let K::Not(z) = *self.k(x) {
                x = z;
                n = !n;
            }
            if let K::Not(z) = *self.k(y) {
                y = z;
                n = !n;
            }
            if x == y {
                return !n as T;
            }
            let (x, y) = (x.min(y), x.max(y));
            let e = self.intern(K::Eq(x, y), 1);
            return if n { self.not(e) } else { e };
        }
        let (a, b) = if self.as_c(a).is_some() {
            (b, a)
        } else {
            (a, b)
        };
        let (al, ah) = self.range(a);
        let (bl, bh) = self.range(b);
        if ah < bl || bh < al {
            return 0;
        }
        // Zext
        match (self.k(a).clone(), self.k(b).clone()) {
            (K::Zext(x), K::Zext(y)) => {
                let ww = self.w(x).max(self.w(y));
                let x = self.zext(x, ww);
                let y = self.zext(y, ww);
                return self.eq(x, y);
            }
            (K::Zext(x), K::Const(v)) => {
                let xw = self.w(x);
                let c = self.c(v, xw);
                return self.eq(x, c);
            }
            (K::Ite(c, x, y), _)
                if (self.as_c(x).is_some() || self.as_c(y).is_some()) && self.as_c(b).is_some() =>
            {
                let x = self.eq(x, b);
                let y = self.eq(y, b);
                return self.ite(c, x, y);
            }
            (K::Xor(..), _) | (_, K::Xor(..)) => {
                let d = self.mk_xor(w, 0, vec![a, b]);
                if let Some(v) = self.as_c(d) {
                    return (v == 0) as T;
                }
                if let K::Xor(c0, ts) = self.k(d).clone() {
                    if ts.len() == 2 && c0 == 0 {
                        return self.intern(K::Eq(ts[0], ts[1]), 1);
                    }
                    // narrow to the bits in use
                    let mut bits = bits_for(c0);
                    for &t in ts.iter() {
                        let (_, h) = self.range(t);
                        bits = bits.max(bits_for(h));
                    }
                    if bits < w && bits > 1 {
                        let x = self.extract(d, 0, bits);
                        let z = self.c(0, bits);
                        return self.eq(x, z);
                    }
                    let rest = self.mk_xor(w, 0, ts.to_vec());
                    let c = self.c(c0, w);
                    if matches!(self.k(rest), K::Xor(..)) {
                        return self.intern(K::Eq(rest, c), 1);
                    }
                    return self.eq(rest, c);
                }
                let z = self.c(0, w);
                if !matches!(self.k(d), K::Xor(..)) {
                    return self.eq(d, z);
                }
                return self.intern(K::Eq(d, z), 1);
            }
            (K::Lin(..), _) | (_, K::Lin(..)) => {
                // bytes put together: compare the parts
                if let Some(s) = self.split_at(a, b) {
                    let x = self.extract(a, 0, s);
                    let y = self.extract(b, 0, s);
                    let lo = self.eq(x, y);
                    if lo == 0 {
                        return 0;
                    }
                    let x = self.extract(a, s, w - s);
                    let y = self.extract(b, s, w - s);
                    let hi = self.eq(x, y);
                    return self.band(lo, hi);
                }
                let m = mask(w);
                let d = self.lin2(a, 1, b, m);
                if let Some(v) = self.as_c(d) {
                    return (v == 0) as T;
                }
                let (c0, items) = self.as_lin(d);
                let mut items: Vec<(T, u128)> = items.to_vec();
                let mut c = 0u128.wrapping_sub(c0) & m;
                // common power of two
                let z = items
                    .iter()
                    .map(|(t, k)| (k.trailing_zeros() + self.tz(*t)).min(w))
                    .min()
                    .unwrap();
                if z > 0 {
                    if c & mask(z) != 0 {
                        return 0;
                    }
                    let kz = items.iter().map(|(_, k)| k.trailing_zeros()).min().unwrap();
                    if kz > 0 && w - kz > 1 {
                        // 2^kz * X == c  <=>  X == c >> kz (mod 2^(w-kz))
                        let nw = w - kz;
                        let mut acc = self.c(0u128.wrapping_sub(c >> kz), nw);
                        for &(t, k) in &items {
                            let x = self.extract(t, 0, nw);
                            acc = self.lin2(acc, 1, x, k >> kz);
                        }
                        let zero = self.c(0, nw);
                        return self.eq(acc, zero);
                    }
                }
                // sign
                if items[0].1 > m / 2 {
                    for it in items.iter_mut() {
                        it.1 = 0u128.wrapping_sub(it.1) & m;
                    }
                    c = 0u128.wrapping_sub(c) & m;
                }
                // plain equality of two atoms
                if items.len() == 2 && items[0].1 == 1 && items[1].1 == m && c == 0 {
                    let (x, y) = (items[0].0, items[1].0);
                    return self.eq(x, y);
                }
                if items.len() == 1 && items[0].1 == 1 {
                    let k = self.c(c, w);
                    return self.eq(items[0].0, k);
                }
                if items.len() == 1 && items[0].1 & 1 == 1 {
                    // odd coefficient: invertible
                    let inv = inv_odd(items[0].1) & m;
                    let k = self.c(c.wrapping_mul(inv), w);
                    return self.eq(items[0].0, k);
                }
                let l = self.mk_lin(w, 0, items);
                let (lo, hi) = self.range(l);
                if c < lo || c > hi {
                    return 0;
                }
                let bits = bits_for(hi).max(2);
                if bits < w {
                    let x = self.extract(l, 0, bits);
                    let k = self.c(c, bits);
                    return self.intern(K::Eq(x, k), 1);
                }
                let k = self.c(c, w);
                return self.intern(K::Eq(l, k), 1);
            }
            (K::Bin(Bin::And, _, m), K::Const(v)) => {
                if let Some(m) = self.as_c(m) {
                    if v & !m != 0 {
                        return 0;
                    }
                }
            }
            (K::Rot(x, k), K::Const(v)) => {
                let c = self.c(v, w);
                let c = self.rotl(c, w - k);
                return self.eq(x, c);
            }
            _ => {}
        }
        let (a, b) = if self.as_c(b).is_some() {
            (a, b)
        } else {
            (a.min(b), a.max(b))
        };
        self.intern(K::Eq(a, b), 1)
    }
    /// the bits [from, to) the items of a sum use, when no two of them share one
    fn segments(&mut self, t: T) -> Option<Vec<(u32, u32)>> {
        let (c0, items) = self.as_lin(t);
        if items.is_empty() {
            return Some(vec![]);
        }
        let w = self.w(t);
        let mut v = vec![];
        for &(x, k) in items.iter() {
            let z = k.trailing_zeros();
            if k != 1 << z {
                return None;
            }
            let (_, h) = self.range(x);
            let e = z + bits_for(h);
            if e > w || c0 >> z & mask(e - z) != 0 {
                return None;
            }
            v.push((z, e));
        }
        v.sort();
        for i in 1..v.len() {
            if v[i].0 < v[i - 1].1 {
                return None;
            }
        }
        Some(v)
    }
    /// a bit position that no item of either sum crosses
    fn split_at(&mut self, a: T, b: T) -> Option<u32> {
        let x = self.segments(a)?;
        let y = self.segments(b)?;
        if x.len() + y.len() < 2 {
            return None;
        }
        let all: Vec<(u32, u32)> = x.into_iter().chain(y).collect();
        let mut at: Vec<u32> = all.iter().map(|s| s.0).filter(|&s| s > 0).collect();
        at.sort();
        at.into_iter()
            .find(|&s| all.iter().all(|&(f, e)| e <= s || f >= s) && all.iter().any(|&(f, _)| f < s))
    }
    /// the sum as one of integers, when the modular sum never wraps: constant, coefficients
    fn int_lin(&mut self, t: T) -> Option<(i128, Vec<(T, i128)>)> {
        let w = self.w(t);
        if w > 64 {
            return None;
        }
        let (c0, items) = self.as_lin(t);
        for signed in [false, true] {
            let f = |v: u128| if signed { sext(v, w) } else { v as i128 };
            let r: Vec<(T, i128)> = items.iter().map(|(a, k)| (*a, f(*k))).collect();
            if let Some((l, h)) = self.int_range(f(c0), &r) {
                if l >= 0 && h <= mask(w) as i128 {
                    return Some((f(c0), r));
                }
            }
        }
        None
    }
    fn int_range(&mut self, c0: i128, items: &[(T, i128)]) -> Option<(i128, i128)> {
        let (mut l, mut h) = (c0, c0);
        for &(a, k) in items {
            let (al, ah) = self.range(a);
            let (x, y) = ((al as i128).checked_mul(k)?, (ah as i128).checked_mul(k)?);
            l = l.checked_add(x.min(y))?;
            h = h.checked_add(x.max(y))?;
        }
        Some((l, h))
    }
    /// smallest and largest b - a, when neither sum wraps
    fn int_diff(&mut self, a: T, b: T) -> Option<(i128, i128)> {
        if !matches!(self.k(a), K::Lin(..)) && !matches!(self.k(b), K::Lin(..)) {
            return None;
        }
        let (ca, ia) = self.int_lin(a)?;
        let (cb, ib) = self.int_lin(b)?;
        let mut v: Vec<(T, i128)> = ib;
        for (t, k) in ia {
            match v.iter_mut().find(|e| e.0 == t) {
                Some(e) => e.1 -= k,
                None => v.push((t, -k)),
            }
        }
        self.int_range(cb - ca, &v)
    }
    pub fn ult(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b {
            return 0;
        }
        let (al, ah) = self.range(a);
        let (bl, bh) = self.range(b);
        if ah < bl {
            return 1;
        }
        if al >= bh {
            return 0;
        }
        if w == 1 {
            let n = self.not(a);
            return self.band(n, b);
        }
        if let Some((l, h)) = self.int_diff(a, b) {
            if l > 0 {
                return 1;
            }
            if h <= 0 {
                return 0;
            }
        }
        if bh == 1 && bl == 1 {
            let z = self.c(0, w);
            return self.eq(a, z);
        }
        if ah == 0 {
            let z = self.c(0, w);
            let e = self.eq(b, z);
            return self.not(e);
        }
        if bl == bh && bl == mask(w) {
            let e = self.eq(a, b);
            return self.not(e);
        }
        for (x, swap) in [(a, false), (b, true)] {
            if let K::Ite(c, p, q) = *self.k(x) {
                let y = if swap { a } else { b };
                if (self.as_c(p).is_some() || self.as_c(q).is_some()) && self.as_c(y).is_some() {
                    let (p, q) = if swap {
                        (self.ult(y, p), self.ult(y, q))
                    } else {
                        (self.ult(p, y), self.ult(q, y))
                    };
                    return self.ite(c, p, q);
                }
            }
        }
        let k = bits_for(ah).max(bits_for(bh)).max(2);
        if k < w {
            let x = self.extract(a, 0, k);
            let y = self.extract(b, 0, k);
            return self.ult(x, y);
        }
        self.intern(K::Ult(a, b), 1)
    }
    pub fn slt(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b {
            return 0;
        }
        if let (Some(x), Some(y)) = (self.as_c(a), self.as_c(b)) {
            return (sext(x, w) < sext(y, w)) as T;
        }
        let (_, ah) = self.range(a);
        let (_, bh) = self.range(b);
        if w > 1 && ah <= mask(w - 1) && bh <= mask(w - 1) {
            return self.ult(a, b);
        }
        if w == 1 {
            let n = self.not(b);
            return self.band(a, n);
        }
        if self.as_c(b) == Some(0) {
            return self.extract(a, w - 1, 1);
        }
        self.intern(K::Slt(a, b), 1)
    }

    /// `t` with the inputs in `map` replaced, rebuilt
    pub fn replace(
        &mut self,
        t: T,
        map: &FxMap<T, T>,
        id: u32,
        memo: &mut FxMap<(u32, T), T>,
    ) -> T {
        if let K::Const(_) = self.k(t) {
            return t;
        }
        if let K::Var(_) = self.k(t) {
            return map.get(&t).copied().unwrap_or(t);
        }
        if let Some(&r) = memo.get(&(id, t)) {
            return r;
        }
        let w = self.w(t);
        let mut ch = vec![];
        self.children(t, &mut ch);
        let new: Vec<T> = ch.iter().map(|&c| self.replace(c, map, id, memo)).collect();
        let r = if new == ch {
            t
        } else {
            match self.k(t).clone() {
                K::Const(_) | K::Var(_) => t,
                K::Lin(c0, items) => {
                    let mut acc = self.c(c0, w);
                    for (i, (_, k)) in items.iter().enumerate() {
                        acc = self.lin2(acc, 1, new[i], *k);
                    }
                    acc
                }
                K::Xor(c0, _) => self.mk_xor(w, c0, new),
                K::Rot(_, k) => self.rotl(new[0], k),
                K::Bin(op, ..) => {
                    let (a, b) = (new[0], new[1]);
                    match op {
                        Bin::And => self.and(a, b),
                        Bin::Or => self.or(a, b),
                        Bin::Mul => self.mul(a, b),
                        Bin::Shl => self.shl(a, b),
                        Bin::LShr => self.lshr(a, b),
                        Bin::AShr => self.ashr(a, b),
                        _ => self.divrem(op, a, b),
                    }
                }
                K::Zext(_) => self.zext(new[0], w),
                K::Sext(_) => self.sext(new[0], w),
                K::Extract(_, lo) => self.extract(new[0], lo, w),
                K::Ite(..) => self.ite(new[0], new[1], new[2]),
                K::Eq(..) => self.eq(new[0], new[1]),
                K::Ult(..) => self.ult(new[0], new[1]),
                K::Slt(..) => self.slt(new[0], new[1]),
                K::Not(_) => self.not(new[0]),
                K::BAnd(..) => self.band(new[0], new[1]),
                K::Uf(f, _) => self.uf(f, new[0], w),
                K::Lookup(tab, _) => {
                    let vals = self.tables[tab as usize].vals.to_vec();
                    match self.as_c(new[0]) {
                        Some(i) if i >= vals.len() as u128 => t,
                        _ => self.lookup(vals, w, new[0]),
                    }
                }
            }
        };
        memo.insert((id, t), r);
        r
    }

    // ---- evaluation
    pub fn eval(&self, t: T, m: &Model) -> u128 {
        if let K::Const(v) = self.k(t) {
            return *v;
        }
        if let Some(&v) = m.memo.borrow().get(&t) {
            return v;
        }
        let v = self.node_value(
            t,
            &mut |x| self.eval(x, m),
            &|i| m.vars.get(i as usize).copied().unwrap_or(0),
            &mut |f, a| m.ufs.get(&(f, a)).copied().unwrap_or(0),
        );
        m.memo.borrow_mut().insert(t, v);
        v
    }
    /// value of a node, given those of its children
    #[inline(always)]
    pub fn node_value(
        &self,
        t: T,
        g: &mut impl FnMut(T) -> u128,
        var: &impl Fn(u32) -> u128,
        uf: &mut impl FnMut(u32, u128) -> u128,
    ) -> u128 {
        let w = self.w(t);
        let v = match self.k(t) {
            K::Const(v) => *v,
            K::Var(i) => var(*i),
            K::Lin(c0, items) => {
                let mut r = *c0;
                for (a, k) in items.iter() {
                    r = r.wrapping_add(g(*a).wrapping_mul(*k));
                }
                r
            }
            K::Xor(c0, ts) => {
                let mut r = *c0;
                for a in ts.iter() {
                    r ^= g(*a);
                }
                r
            }
            K::Rot(x, k) => {
                let v = g(*x);
                (v << k) | (v >> (w - k))
            }
            K::Bin(op, a, b) => eval_bin(*op, g(*a), g(*b), w),
            K::Zext(x) => g(*x),
            K::Sext(x) => sext(g(*x), self.w(*x)) as u128,
            K::Extract(x, lo) => g(*x) >> lo,
            K::Ite(c, a, b) => {
                if g(*c) == 1 {
                    g(*a)
                } else {
                    g(*b)
                }
            }
            K::Eq(a, b) => (g(*a) == g(*b)) as u128,
            K::Ult(a, b) => (g(*a) < g(*b)) as u128,
            K::Slt(a, b) => {
                let w = self.w(*a);
                (sext(g(*a), w) < sext(g(*b), w)) as u128
            }
            K::Not(a) => g(*a) ^ 1,
            K::BAnd(a, b) => g(*a) & g(*b),
            K::Uf(f, a) => {
                let a = g(*a);
                uf(*f, a)
            }
            K::Lookup(tab, i) => {
                let i = g(*i) as usize;
                // an index outside the table cannot happen on the path
                self.tables[*tab as usize].vals.get(i).copied().unwrap_or(0)
            }
        };
        v & mask(w)
    }
    pub fn children(&self, t: T, out: &mut Vec<T>) {
        match self.k(t) {
            K::Const(_) | K::Var(_) => {}
            K::Lin(_, i) => out.extend(i.iter().map(|x| x.0)),
            K::Xor(_, i) => out.extend(i.iter()),
            K::Rot(a, _)
            | K::Zext(a)
            | K::Sext(a)
            | K::Extract(a, _)
            | K::Not(a)
            | K::Uf(_, a)
            | K::Lookup(_, a) => out.push(*a),
            K::Bin(_, a, b) | K::Eq(a, b) | K::Ult(a, b) | K::Slt(a, b) | K::BAnd(a, b) => {
                out.push(*a);
                out.push(*b)
            }
            K::Ite(a, b, c) => {
                out.push(*a);
                out.push(*b);
                out.push(*c)
            }
        }
    }

    // ---- SMT-LIB
    pub fn sort(w: u32) -> String {
        if w == 1 {
            "Bool".into()
        } else {
            format!("(_ BitVec {})", w)
        }
    }
    pub fn name(&self, t: T) -> String {
        let w = self.w(t);
        match self.k(t) {
            K::Const(v) => {
                if w == 1 {
                    if *v == 1 { "true" } else { "false" }.into()
                } else {
                    format!("(_ bv{} {})", v, w)
                }
            }
            K::Var(i) => format!("v{}", i),
            _ => format!("t{}", t),
        }
    }
    /// the defining expression of a non-leaf term
    pub fn expr(&self, t: T) -> String {
        let w = self.w(t);
        let n = |t: &T| self.name(*t);
        match self.k(t) {
            K::Const(_) | K::Var(_) => self.name(t),
            K::Lin(c0, items) => {
                let mut parts = vec![];
                for (a, k) in items.iter() {
                    if *k == 1 {
                        parts.push(n(a));
                    } else if *k == mask(w) {
                        parts.push(format!("(bvneg {})", n(a)));
                    } else if k.is_power_of_two() {
                        parts.push(format!(
                            "(bvshl {} (_ bv{} {}))",
                            n(a),
                            k.trailing_zeros(),
                            w
                        ));
                    } else {
                        parts.push(format!("(bvmul (_ bv{} {}) {})", k, w, n(a)));
                    }
                }
                if *c0 != 0 {
                    parts.push(format!("(_ bv{} {})", c0, w));
                }
                if parts.len() == 1 {
                    parts.pop().unwrap()
                } else {
                    format!("(bvadd {})", parts.join(" "))
                }
            }
            K::Xor(c0, ts) => {
                let mut s = String::from("(bvxor");
                for a in ts.iter() {
                    write!(s, " {}", n(a)).unwrap();
                }
                if *c0 != 0 {
                    write!(s, " (_ bv{} {})", c0, w).unwrap();
                }
                s.push(')');
                s
            }
            K::Rot(x, k) => format!("((_ rotate_left {}) {})", k, n(x)),
            K::Bin(op, a, b) => format!(
                "({} {} {})",
                match op {
                    Bin::And => "bvand",
                    Bin::Or => "bvor",
                    Bin::Mul => "bvmul",
                    Bin::UDiv => "bvudiv",
                    Bin::URem => "bvurem",
                    Bin::SDiv => "bvsdiv",
                    Bin::SRem => "bvsrem",
                    Bin::Shl => "bvshl",
                    Bin::LShr => "bvlshr",
                    Bin::AShr => "bvashr",
                },
                n(a),
                n(b)
            ),
            K::Zext(x) => format!("((_ zero_extend {}) {})", w - self.w(*x), n(x)),
            K::Sext(x) => format!("((_ sign_extend {}) {})", w - self.w(*x), n(x)),
            K::Extract(x, lo) => {
                let e = format!("((_ extract {} {}) {})", lo + w - 1, lo, n(x));
                if w == 1 {
                    format!("(= {} #b1)", e)
                } else {
                    e
                }
            }
            K::Ite(c, a, b) => format!("(ite {} {} {})", n(c), n(a), n(b)),
            K::Eq(a, b) => format!("(= {} {})", n(a), n(b)),
            K::Ult(a, b) => format!("(bvult {} {})", n(a), n(b)),
            K::Slt(a, b) => format!("(bvslt {} {})", n(a), n(b)),
            K::Not(a) => format!("(not {})", n(a)),
            K::BAnd(a, b) => format!("(and {} {})", n(a), n(b)),
            K::Uf(f, a) => format!("(f{} {})", f, n(a)),
            K::Lookup(tab, i) => format!("(tab{}_{} {})", tab, self.w(*i), n(i)),
        }
    }
    /// definition of a table as a balanced decision tree over the index bits
    pub fn table_def(&self, tab: u32, iw: u32) -> String {
        let t = &self.tables[tab as usize];
        fn go(t: &Table, iw: u32, bit: u32, base: usize) -> String {
            let get = |i: usize| {
                let v = t.vals.get(i).copied().unwrap_or(0);
                if t.w == 1 {
                    if v == 1 {
                        "true".to_string()
                    } else {
                        "false".to_string()
                    }
                } else {
                    format!("(_ bv{} {})", v, t.w)
                }
            };
            if bit == 0 {
                return get(base);
            }
            let hi = base + (1usize << (bit - 1));
            let l = go(t, iw, bit - 1, base);
            if hi >= t.vals.len() {
                return l;
            }
            let h = go(t, iw, bit - 1, hi);
            if l == h {
                return l;
            }
            format!(
                "(ite (= ((_ extract {} {}) x) #b1) {} {})",
                bit - 1,
                bit - 1,
                h,
                l
            )
        }
        format!(
            "(define-fun tab{}_{} ((x (_ BitVec {}))) {} {})",
            tab,
            iw,
            iw,
            Self::sort(t.w),
            go(t, iw, iw, 0)
        )
    }
}

fn inv_odd(a: u128) -> u128 {
    let mut x = a;
    for _ in 0..8 {
        x = x.wrapping_mul(2u128.wrapping_sub(a.wrapping_mul(x)));
    }
    x
}

pub fn eval_bin(op: Bin, a: u128, b: u128, w: u32) -> u128 {
    let m = mask(w);
    match op {
        Bin::And => a & b,
        Bin::Or => a | b,
        Bin::Mul => a.wrapping_mul(b) & m,
        Bin::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Bin::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Bin::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            (if y == 0 {
                if x >= 0 {
                    -1
                } else {
                    1
                }
            } else {
                x.wrapping_div(y)
            }) as u128
                & m
        }
        Bin::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            (if y == 0 { x } else { x.wrapping_rem(y) }) as u128 & m
        }
        Bin::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Bin::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Bin::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            (sext(a, w) >> s) as u128 & m
        }
    }
}

#[cfg(test)]
mod tests {
    //! Every constructor simplifies: random expressions are built and evaluated, and compared with
    //! the same operations done directly on the values.
    use super::*;

    struct Rng(u64);
    impl Rng {
        fn next(&mut self) -> u64 {
            self.0 ^= self.0 << 13;
            self.0 ^= self.0 >> 7;
            self.0 ^= self.0 << 17;
            self.0.wrapping_mul(0x2545_f491_4f6c_dd1d)
        }
        fn below(&mut self, n: u64) -> u64 {
            (self.next() >> 11) % n
        }
        fn constant(&mut self, w: u32) -> u128 {
            let r = self.next() as u128 | (self.next() as u128) << 64;
            mask(w)
                & match self.below(6) {
                    0 => 0,
                    1 => 1,
                    2 => mask(w),
                    3 => 1 << self.below(w as u64),
                    4 => r & 0xff,
                    _ => r,
                }
        }
    }

    /// a term with its value under each model
    type E = (T, Vec<u128>);

    fn build(tt: &mut Terms, r: &mut Rng, w: u32, depth: u32, ms: &[Model], pool: &mut Vec<E>) -> E {
        if r.below(4) == 0 {
            let fit: Vec<E> = pool.iter().filter(|e| tt.w(e.0) == w).cloned().collect();
            if !fit.is_empty() {
                return fit[r.below(fit.len() as u64) as usize].clone();
            }
        }
        let n = ms.len();
        if depth == 0 {
            let widths = [1, 8, 8, 16, 32, 64];
            let i = r.below(12) as u32;
            return match (i, widths.contains(&w)) {
                (0..=3, _) | (_, false) => {
                    let v = r.constant(w);
                    (tt.c(v, w), vec![v; n])
                }
                _ => {
                    let t = tt.var(i - 4, w);
                    let id = match tt.k(t) {
                        K::Var(id) => *id,
                        _ => unreachable!(),
                    };
                    (t, ms.iter().map(|m| m.vars[id as usize] & mask(w)).collect())
                }
            };
        }
        let d = depth - 1;
        let two = |f: &dyn Fn(u128, u128) -> u128, a: &E, b: &E| -> Vec<u128> {
            (0..n).map(|i| f(a.1[i], b.1[i]) & mask(w)).collect()
        };
        // bytes put together, with something added now and then
        let pack = |tt: &mut Terms, r: &mut Rng| -> E {
            let w = [16, 32, 64][r.below(3) as usize];
            let mut acc = (tt.c(0, w), vec![0; n]);
            for j in 0..w / 8 {
                let x: E = if r.below(3) == 0 {
                    let v = r.constant(8);
                    (tt.c(v, 8), vec![v; n])
                } else {
                    let t = tt.var(r.below(4) as u32, 8);
                    let id = match tt.k(t) {
                        K::Var(id) => *id,
                        _ => unreachable!(),
                    };
                    (t, ms.iter().map(|m| m.vars[id as usize] & 255).collect())
                };
                let z = tt.zext(x.0, w);
                let j = 8 * j + if r.below(6) == 0 { 1 } else { 0 };
                let k = tt.c(j as u128, w);
                let z = tt.shl(z, k);
                let v: Vec<u128> = x.1.iter().map(|x| x << j & mask(w)).collect();
                acc = if r.below(2) == 0 {
                    (tt.or(acc.0, z), (0..n).map(|i| acc.1[i] | v[i]).collect())
                } else {
                    (tt.add(acc.0, z), (0..n).map(|i| acc.1[i].wrapping_add(v[i]) & mask(w)).collect())
                };
            }
            if r.below(4) == 0 {
                let k = r.constant(w);
                let c = tt.c(k, w);
                acc = (tt.add(acc.0, c), acc.1.iter().map(|x| x.wrapping_add(k) & mask(w)).collect());
            }
            acc
        };
        if w == 1 && r.below(4) == 0 {
            let a = pack(tt, r);
            let aw = tt.w(a.0);
            let b = loop {
                let b = pack(tt, r);
                if tt.w(b.0) == aw {
                    break b;
                }
            };
            let e = if r.below(3) > 0 {
                (tt.eq(a.0, b.0), two(&|x, y| (x == y) as u128, &a, &b))
            } else {
                // equal in some model
                let k = a.1[r.below(n as u64) as usize];
                let c = (tt.c(k, aw), vec![k; n]);
                (tt.eq(a.0, c.0), two(&|x, y| (x == y) as u128, &a, &c))
            };
            pool.push(a);
            pool.push(e.clone());
            return e;
        }
        let e: E = match r.below(if w == 1 { 24 } else { 18 }) {
            0 | 1 => {
                let (a, b) = (build(tt, r, w, d, ms, pool), build(tt, r, w, d, ms, pool));
                (tt.add(a.0, b.0), two(&|x, y| x.wrapping_add(y), &a, &b))
            }
            2 => {
                let (a, b) = (build(tt, r, w, d, ms, pool), build(tt, r, w, d, ms, pool));
                (tt.sub(a.0, b.0), two(&|x, y| x.wrapping_sub(y), &a, &b))
            }
            3 => {
                let a = build(tt, r, w, d, ms, pool);
                let k = r.constant(w);
                let b = (tt.c(k, w), vec![k; n]);
                (tt.mul(a.0, b.0), two(&|x, y| x.wrapping_mul(y), &a, &b))
            }
            4 => {
                let (a, b) = (build(tt, r, w, d, ms, pool), build(tt, r, w, d, ms, pool));
                (tt.mul(a.0, b.0), two(&|x, y| x.wrapping_mul(y), &a, &b))
            }
            5 => {
                let (a, b) = (build(tt, r, w, d, ms, pool), build(tt, r, w, d, ms, pool));
                (tt.xor(a.0, b.0), two(&|x, y| x ^ y, &a, &b))
            }
            6 => {
                let (a, b) = (build(tt, r, w, d, ms, pool), build(tt, r, w, d, ms, pool));
                (tt.and(a.0, b.0), two(&|x, y| x & y, &a, &b))
            }
            7 => {
                let (a, b) = (build(tt, r, w, d, ms, pool), build(tt, r, w, d, ms, pool));
                (tt.or(a.0, b.0), two(&|x, y| x | y, &a, &b))
            }
            8 | 9 => {
                let a = build(tt, r, w, d, ms, pool);
                let k = r.below(w as u64) as u128;
                let b = tt.c(k, w);
                let op = [Bin::Shl, Bin::LShr, Bin::AShr][r.below(3) as usize];
                let t = match op {
                    Bin::Shl => tt.shl(a.0, b),
                    Bin::LShr => tt.lshr(a.0, b),
                    _ => tt.ashr(a.0, b),
                };
                let b = (b, vec![k; n]);
                (t, two(&|x, y| eval_bin(op, x, y, w), &a, &b))
            }
            10 => {
                let a = build(tt, r, w, d, ms, pool);
                if w == 1 {
                    a
                } else {
                    let k = r.below(w as u64) as u32;
                    let v = a.1.iter().map(|x| (x << k | x >> (w - k)) & mask(w)).collect();
                    (tt.rotl(a.0, k), if k == 0 { a.1.clone() } else { v })
                }
            }
            11 => {
                let w2 = [1, 8, 16, 32][r.below(4) as usize];
                if w2 < w {
                    let a = build(tt, r, w2, d, ms, pool);
                    if r.below(2) == 0 {
                        (tt.zext(a.0, w), a.1)
                    } else {
                        let v = a.1.iter().map(|x| sext(*x, w2) as u128 & mask(w)).collect();
                        (tt.sext(a.0, w), v)
                    }
                } else {
                    build(tt, r, w, d, ms, pool)
                }
            }
            12 => {
                let w2 = [8, 16, 32, 64][r.below(4) as usize];
                if w2 > w {
                    let a = build(tt, r, w2, d, ms, pool);
                    let lo = r.below((w2 - w) as u64 + 1) as u32;
                    let v = a.1.iter().map(|x| x >> lo & mask(w)).collect();
                    (tt.extract(a.0, lo, w), v)
                } else {
                    build(tt, r, w, d, ms, pool)
                }
            }
            13 if w >= 16 => {
                let lw = [8, w / 2][r.below(2) as usize];
                let (h, l) = (build(tt, r, w - lw, d, ms, pool), build(tt, r, lw, d, ms, pool));
                let v = (0..n).map(|i| h.1[i] << lw | l.1[i]).collect();
                (tt.concat(h.0, l.0), v)
            }
            14 | 15 => {
                let c = build(tt, r, 1, d, ms, pool);
                let (a, b) = (build(tt, r, w, d, ms, pool), build(tt, r, w, d, ms, pool));
                let v = (0..n).map(|i| if c.1[i] == 1 { a.1[i] } else { b.1[i] }).collect();
                (tt.ite(c.0, a.0, b.0), v)
            }
            16 => {
                let i = build(tt, r, 8, d, ms, pool);
                let vals: Vec<u128> = (0..256).map(|_| r.constant(w)).collect();
                let v = i.1.iter().map(|&x| vals[x as usize]).collect();
                (tt.lookup(vals, w, i.0), v)
            }
            17 if w > 1 => {
                let op = [Bin::UDiv, Bin::URem, Bin::SDiv, Bin::SRem][r.below(4) as usize];
                let a = build(tt, r, w, d, ms, pool);
                let mut k = r.constant(w);
                if k == 0 || k == mask(w) {
                    k = 3;
                }
                let b = (tt.c(k, w), vec![k; n]);
                (tt.divrem(op, a.0, b.0), two(&|x, y| eval_bin(op, x, y, w), &a, &b))
            }
            18..=22 => {
                let w2 = [1, 8, 16, 32, 64][r.below(5) as usize];
                let (a, b) = (build(tt, r, w2, d, ms, pool), build(tt, r, w2, d, ms, pool));
                match r.below(4) {
                    0 => (tt.ult(a.0, b.0), two(&|x, y| (x < y) as u128, &a, &b)),
                    1 => (tt.slt(a.0, b.0), two(&|x, y| (sext(x, w2) < sext(y, w2)) as u128, &a, &b)),
                    _ => (tt.eq(a.0, b.0), two(&|x, y| (x == y) as u128, &a, &b)),
                }
            }
            _ if w == 1 => {
                let (a, b) = (build(tt, r, 1, d, ms, pool), build(tt, r, 1, d, ms, pool));
                if r.below(2) == 0 {
                    (tt.not(a.0), a.1.iter().map(|x| 1 - x).collect())
                } else {
                    (tt.band(a.0, b.0), two(&|x, y| x & y, &a, &b))
                }
            }
            _ => build(tt, r, w, d, ms, pool),
        };
        pool.push(e.clone());
        e
    }

    #[test]
    fn constructors_keep_the_value() {
        let rounds = std::env::var("HRSYM_ROUNDS").ok().and_then(|s| s.parse().ok()).unwrap_or(20_000u64);
        for round in 0..rounds {
            let mut r = Rng(round * 2 + 0x9e37_79b9_7f4a_7c15);
            for _ in 0..5 {
                r.next();
            }
            let mut tt = Terms::new();
            let special = [0, 1, 2, 3, 127, 128, 200, 254, 255];
            let ms: Vec<Model> = (0..24)
                .map(|i| Model {
                    vars: (0..64)
                        .map(|_| {
                            if i % 2 == 0 {
                                special[r.below(9) as usize]
                            } else {
                                let b = 1 + r.below(64) as u32;
                                r.next() as u128 & mask(b)
                            }
                        })
                        .collect(),
                    ..Default::default()
                })
                .collect();
            let mut pool = vec![];
            for _ in 0..6 {
                let w = [1, 1, 8, 16, 32, 64][r.below(6) as usize];
                let depth = 1 + r.below(4) as u32;
                build(&mut tt, &mut r, w, depth, &ms, &mut pool);
            }
            for (t, v) in &pool {
                let (lo, hi) = tt.range(*t);
                for (i, m) in ms.iter().enumerate() {
                    // variables are as wide as declared
                    let x = tt.node_value(
                        *t,
                        &mut |c| ev(&tt, c, m),
                        &|id| m.vars[id as usize] & mask(tt.var_w[id as usize]),
                        &mut |_, _| 0,
                    );
                    assert_eq!(x, v[i], "round {} model {} term {}", round, i, tt.expr(*t));
                    assert!(lo <= x && x <= hi, "round {} range of {}", round, tt.expr(*t));
                }
            }
            // equal inputs in place of each other
            let (a, b) = (tt.var(0, 8), tt.var(1, 8));
            let (ia, ib) = match (tt.k(a), tt.k(b)) {
                (K::Var(x), K::Var(y)) => (*x as usize, *y as usize),
                _ => unreachable!(),
            };
            let mut map = FxMap::default();
            map.insert(b, a);
            let mut memo = FxMap::default();
            for (t, _) in &pool {
                let u = tt.replace(*t, &map, 1, &mut memo);
                for m in &ms {
                    let mut m2 = Model { vars: m.vars.clone(), ..Default::default() };
                    m2.vars[ib] = m2.vars[ia];
                    assert_eq!(ev(&tt, *t, &m2), ev(&tt, u, &m2), "round {} replace {}", round, tt.expr(*t));
                }
            }
        }
    }
    fn ev(tt: &Terms, t: T, m: &Model) -> u128 {
        tt.node_value(
            t,
            &mut |c| ev(tt, c, m),
            &|id| m.vars[id as usize] & mask(tt.var_w[id as usize]),
            &mut |_, _| 0,
        )
    }
}
