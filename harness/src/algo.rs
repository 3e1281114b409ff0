//! The algorithms as instantiated by the scenarios, each with a definition written from the
//! literature / the documentation and computed from scratch for every position.
//!
//! Job parameters 0..=3 select the configuration.

use crate::sym::*;
use hash_roll::{Chunk, ToChunkIncr};
use std::ops::Bound;

pub type Incr<A> = <<A as Algo>::C as ToChunkIncr>::Incr;
pub type State<A> = <<A as Algo>::C as Chunk>::SearchState;

pub trait Algo {
    type C: Chunk + ToChunkIncr;

    /// is this a configuration (`v[i]` arbitrary where bit i of `any` is set)? Chooses windows, too
    fn valid(v: &mut [u64; 4], any: u64, wmax: u64) -> bool;

    /// a new instance; arbitrary tables are those with the numbers from `t` on
    fn build(v: &[u64; 4], t: u32) -> Self::C;

    fn choose() {
        set_cfg(Self::valid);
    }

    /// a new instance with the configuration of the job
    fn make() -> Self::C {
        Self::choose();
        Self::build(&[cfg(0), cfg(1), cfg(2), cfg(3)], 0)
    }

    /// an instance with another configuration: parameters 18..=21, 16 and 17 like 14 and 15
    fn other() -> Self::C {
        let v = arbitrary(18, param(16), param(17), Self::valid);
        Self::build(&v, 8)
    }

    /// `s` are all bytes since the start of the chunk (of the stream, if `STREAM`): is there an
    /// edge right after the last one, there being none before?
    fn edge(s: &[u8]) -> bool;

    /// the definition looks at everything since the start of the stream, edges don't reset
    const STREAM: bool = false;

    /// FastCDC: push() returns the last byte of the chunk, except for cuts at this length
    fn fc_max() -> Option<u64> {
        None
    }

    /// bytes find_chunk_edge() may ask to keep
    fn keep() -> u64 {
        0
    }

    /// smallest and largest chunk
    fn limits() -> (u64, u64) {
        (1, u64::MAX)
    }
}

// the configuration: parameters 0..=3, of which bit i of parameter 14 makes the i-th arbitrary
static mut CFG: [u64; 4] = [0; 4];
static mut CFG_SET: bool = false;

fn arbitrary(first: u32, any: u64, wmax: u64, valid: fn(&mut [u64; 4], u64, u64) -> bool) -> [u64; 4] {
    let mut v = [0; 4];
    for i in 0..4 {
        v[i] = if any >> i & 1 != 0 { any_u64() } else { param(first + i as u32) };
    }
    if any != 0 {
        assume(valid(&mut v, any, wmax));
    }
    v
}

/// the first instance of the scenario chooses the configuration
fn set_cfg(valid: fn(&mut [u64; 4], u64, u64) -> bool) {
    unsafe {
        if !CFG_SET {
            CFG = arbitrary(0, param(14), param(15), valid);
            CFG_SET = true;
        }
    }
}

/// windows have a buffer: all lengths up to `wmax`
fn any_window(v: &mut [u64; 4], any: u64, wmax: u64) {
    if any & 1 != 0 {
        v[0] = 1 + choice(wmax as usize) as u64;
    }
}

pub fn cfg(i: u32) -> u64 {
    unsafe {
        if CFG_SET {
            CFG[i as usize]
        } else {
            param(i)
        }
    }
}

// ---- bup: window; default
pub struct Bup;

pub fn bup_digest(w: u64, s: &[u8]) -> u32 {
    // w bytes, zeros before the start of `s`; a byte counts w - (bytes after it) times more ...
    let w32 = w as u32;
    let mut s1 = w32.wrapping_mul(31);
    let mut s2 = w32.wrapping_mul(w32.wrapping_sub(1)).wrapping_mul(31);
    let n = s.len();
    let mut age = 0;
    while age < n && (age as u64) < w {
        let b = s[n - 1 - age] as u32;
        s1 = s1.wrapping_add(b);
        s2 = s2.wrapping_add(b.wrapping_mul(age as u32 + 1));
        age += 1;
    }
    (s1 << 16) | (s2 & 0xffff)
}

impl Algo for Bup {
    type C = hash_roll::bup::RollSum;
    fn valid(v: &mut [u64; 4], any: u64, wmax: u64) -> bool {
        any_window(v, any, wmax);
        true
    }
    fn build(v: &[u64; 4], _t: u32) -> Self::C {
        if v[1] != 0 {
            Default::default()
        } else {
            hash_roll::bup::RollSum::with_window(v[0] as usize)
        }
    }
    fn edge(s: &[u8]) -> bool {
        bup_digest(cfg(0), s) & 8191 == 8191
    }
    fn keep() -> u64 {
        cfg(0)
    }
}

// ---- buzhash: k, mask, max, variant
pub fn buz_edge(k: u64, mask: u64, max: u64, s: &[u8], h: impl Fn(u8) -> u32) -> bool {
    let n = s.len();
    let mut x = 0u32;
    let mut age = 0;
    while age < n && (age as u64) < k {
        x ^= h(s[n - 1 - age]).rotate_left(age as u32 % 32);
        age += 1;
    }
    let m = mask as u32;
    (x & m == m) | (n as u64 > max)
}

/// arbitrary hash function
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Uf(pub u32);
impl hash_roll::buzhash::BuzHashHash for Uf {
    fn hash(&self, data: u8) -> u32 {
        uf32(self.0, data)
    }
}

pub struct Buz;
impl Algo for Buz {
    type C = hash_roll::buzhash::BuzHash<Uf>;
    fn valid(v: &mut [u64; 4], any: u64, wmax: u64) -> bool {
        any_window(v, any, wmax);
        v[1] <= u32::MAX as u64
    }
    fn build(v: &[u64; 4], t: u32) -> Self::C {
        hash_roll::buzhash::BuzHash::new(v[0] as usize, v[1] as u32, Uf(t), v[2])
    }
    fn edge(s: &[u8]) -> bool {
        buz_edge(cfg(0), cfg(1), cfg(2), s, |b| uf32(0, b))
    }
    fn keep() -> u64 {
        cfg(0)
    }
    fn limits() -> (u64, u64) {
        (1, cfg(2).saturating_add(1))
    }
}

pub fn table32(id: u32) -> &'static [u32; 256] {
    let t = Box::leak(Box::new([0u32; 256]));
    any_table32(t, id);
    t
}

/// table by reference
pub struct BuzTab;
impl Algo for BuzTab {
    type C = hash_roll::buzhash::BuzHash<hash_roll::buzhash::BuzHashTableHash<'static>>;
    fn valid(v: &mut [u64; 4], any: u64, wmax: u64) -> bool {
        any_window(v, any, wmax);
        v[1] <= u32::MAX as u64
    }
    fn build(v: &[u64; 4], t: u32) -> Self::C {
        hash_roll::buzhash::BuzHash::new(
            v[0] as usize,
            v[1] as u32,
            hash_roll::buzhash::BuzHashTableHash::from(table32(t + 1)),
            v[2],
        )
    }
    fn edge(s: &[u8]) -> bool {
        buz_edge(cfg(0), cfg(1), cfg(2), s, |b| uf32(1, b))
    }
    fn keep() -> u64 {
        cfg(0)
    }
    fn limits() -> (u64, u64) {
        (1, cfg(2).saturating_add(1))
    }
}

/// table by value: the borg table with seed param 3
pub struct BuzBorg;
impl Algo for BuzBorg {
    type C = hash_roll::buzhash::BuzHash<hash_roll::buzhash::BuzHashTableBufHash>;
    fn valid(v: &mut [u64; 4], any: u64, wmax: u64) -> bool {
        any_window(v, any, wmax);
        v[1] <= u32::MAX as u64 && v[3] <= u32::MAX as u64
    }
    fn build(v: &[u64; 4], _t: u32) -> Self::C {
        hash_roll::buzhash::BuzHash::new(
            v[0] as usize,
            v[1] as u32,
            hash_roll::buzhash::BuzHashTableBufHash::from(
                hash_roll::buzhash_table::borg_buzhash_table(v[3] as u32),
            ),
            v[2],
        )
    }
    fn edge(s: &[u8]) -> bool {
        let seed = cfg(3) as u32;
        buz_edge(cfg(0), cfg(1), cfg(2), s, |b| {
            crate::tables::BORG_BUZHASH[b as usize] ^ seed
        })
    }
    fn keep() -> u64 {
        cfg(0)
    }
    fn limits() -> (u64, u64) {
        (1, cfg(2).saturating_add(1))
    }
}

/// salted table: params 0: k, 1: mask, 2: max, 3: salt; the noms instance when k is 0
pub struct BuzSalt;
impl BuzSalt {
    fn p() -> (u64, u64, u64) {
        match param(0) {
            0 => (67, 4095, 1 << 24),
            k => (k, cfg(1), cfg(2)),
        }
    }
}
impl Algo for BuzSalt {
    type C = hash_roll::buzhash::BuzHash<hash_roll::buzhash::BuzHashTableByteSaltHash<'static>>;
    fn valid(v: &mut [u64; 4], any: u64, _wmax: u64) -> bool {
        any & 1 == 0 && v[1] <= u32::MAX as u64 && v[3] <= 255
    }
    fn build(v: &[u64; 4], _t: u32) -> Self::C {
        static GO: [u32; 256] = hash_roll::buzhash_table::GO_BUZHASH;
        let salt = v[3] as u8;
        match v[0] {
            0 => hash_roll::buzhash::BuzHash::new_nom(salt),
            k => hash_roll::buzhash::BuzHash::new(
                k as usize,
                v[1] as u32,
                hash_roll::buzhash::BuzHashTableByteSaltHash::from((salt, &GO)),
                v[2],
            ),
        }
    }
    fn edge(s: &[u8]) -> bool {
        let (k, mask, max) = Self::p();
        let salt = cfg(3) as u8;
        buz_edge(k, mask, max, s, |b| crate::tables::GO_BUZHASH[(b ^ salt) as usize])
    }
    fn keep() -> u64 {
        Self::p().0
    }
    fn limits() -> (u64, u64) {
        (1, Self::p().2.saturating_add(1))
    }
}

// ---- FastCDC: min, normal, max, gear table (0: GEAR_64, 1: arbitrary, 2: default())
pub struct Fast;

const MASK_S: u64 = 0x0003_5907_0353_0000;
const MASK_L: u64 = 0x0000_d900_0353_0000;

pub fn fast_edge(
    (min, normal, max): (u64, u64, u64),
    s: &[u8],
    gear: impl Fn(u8) -> u64,
) -> bool {
    let n = s.len() as u64;
    if n >= max {
        return true;
    }
    if n <= min {
        return false;
    }
    let mut fp = 0u64;
    let mut age = 0;
    while age < 64 && n - age > min {
        fp = fp.wrapping_add(gear(s[(n - 1 - age) as usize]) << age);
        age += 1;
    }
    fp & (if n - 1 < normal { MASK_S } else { MASK_L }) == 0
}

pub fn table64(id: u32) -> &'static [u64; 256] {
    let t = Box::leak(Box::new([0u64; 256]));
    any_table64(t, id);
    t
}

impl Algo for Fast {
    type C = hash_roll::fastcdc::FastCdc<'static>;
    fn valid(v: &mut [u64; 4], any: u64, _wmax: u64) -> bool {
        v[0] <= v[1] && v[1] <= v[2] && v[0] < v[2] && (v[0] >= 1 || any & 1 == 0)
    }
    fn build(v: &[u64; 4], t: u32) -> Self::C {
        match v[3] {
            2 => Default::default(),
            1 => hash_roll::fastcdc::FastCdc::new(table64(t + 2), v[0], v[1], v[2]),
            _ => hash_roll::fastcdc::FastCdc::new(
                &hash_roll::gear_table::GEAR_64,
                v[0],
                v[1],
                v[2],
            ),
        }
    }
    fn edge(s: &[u8]) -> bool {
        let p = (cfg(0), cfg(1), cfg(2));
        if param(3) == 1 {
            let t = table64(2);
            fast_edge(p, s, |b| t[b as usize])
        } else {
            fast_edge(p, s, |b| crate::tables::GEAR_64[b as usize])
        }
    }
    fn fc_max() -> Option<u64> {
        Some(cfg(2))
    }
    fn limits() -> (u64, u64) {
        (cfg(0).max(1), cfg(2))
    }
}

// ---- gear: average log2; default
pub struct Gear;
impl Algo for Gear {
    type C = hash_roll::gear::Gear32<'static>;
    fn valid(v: &mut [u64; 4], _any: u64, _wmax: u64) -> bool {
        v[0] >= 1 && v[0] <= 31
    }
    fn build(v: &[u64; 4], _t: u32) -> Self::C {
        if v[1] != 0 {
            Default::default()
        } else {
            hash_roll::gear::Gear32::with_average_size_log2(v[0] as usize)
        }
    }
    fn edge(s: &[u8]) -> bool {
        let n = s.len();
        let mut fp = 0u32;
        let mut age = 0;
        while age < n && age < 32 {
            fp = fp.wrapping_add(crate::tables::GEAR_32[s[n - 1 - age] as usize] << age);
            age += 1;
        }
        fp >> (32 - cfg(0)) == 0
    }
}

// ---- gzip: window, modulus; default
pub struct Gzip;
impl Algo for Gzip {
    type C = hash_roll::gzip::GzipRsyncable;
    fn valid(v: &mut [u64; 4], any: u64, wmax: u64) -> bool {
        any_window(v, any, wmax);
        v[1] >= 1
    }
    fn build(v: &[u64; 4], _t: u32) -> Self::C {
        if v[2] != 0 {
            Default::default()
        } else {
            hash_roll::gzip::GzipRsyncable::with_window_and_modulus(v[0] as usize, v[1])
        }
    }
    fn edge(s: &[u8]) -> bool {
        let n = s.len();
        let mut sum = 0u64;
        let mut age = 0;
        while age < n && (age as u64) < cfg(0) {
            sum += s[n - 1 - age] as u64;
            age += 1;
        }
        sum % cfg(1) == 0
    }
    fn keep() -> u64 {
        cfg(0)
    }
}

// ---- mii: w; default
pub struct Mii;
impl Algo for Mii {
    type C = hash_roll::mii::Mii;
    fn valid(_v: &mut [u64; 4], _any: u64, _wmax: u64) -> bool {
        true
    }
    fn build(v: &[u64; 4], _t: u32) -> Self::C {
        if v[1] != 0 {
            Default::default()
        } else {
            hash_roll::mii::Mii::with_w(v[0])
        }
    }
    fn edge(s: &[u8]) -> bool {
        let (n, w) = (s.len(), cfg(0));
        if w == 0 || n as u64 <= w {
            return false;
        }
        let mut up = true;
        let mut i = n - 1;
        let mut k = 0;
        while k < w {
            up &= s[i] > s[i - 1];
            i -= 1;
            k += 1;
        }
        up
    }
    fn limits() -> (u64, u64) {
        (cfg(0).saturating_add(1), u64::MAX)
    }
}

// ---- pigz: bits; default
pub struct Pigz;
impl Algo for Pigz {
    type C = hash_roll::pigz::PigzRsyncable;
    fn valid(v: &mut [u64; 4], _any: u64, _wmax: u64) -> bool {
        v[0] <= 31
    }
    fn build(v: &[u64; 4], _t: u32) -> Self::C {
        if v[1] != 0 {
            Default::default()
        } else {
            hash_roll::pigz::PigzRsyncable::with_bits(v[0] as u8)
        }
    }
    fn edge(s: &[u8]) -> bool {
        let mask = ((1u64 << cfg(0)) - 1) as u32;
        let hit = mask >> 1;
        let mut h = hit;
        for b in s {
            h = ((h << 1) ^ *b as u32) & mask;
        }
        h == hit
    }
}

// ---- ram: w
pub struct Ram;
impl Algo for Ram {
    type C = hash_roll::ram::Ram;
    fn valid(_v: &mut [u64; 4], _any: u64, _wmax: u64) -> bool {
        true
    }
    fn build(v: &[u64; 4], _t: u32) -> Self::C {
        hash_roll::ram::Ram::with_w(v[0])
    }
    fn edge(s: &[u8]) -> bool {
        let (n, w) = (s.len(), cfg(0));
        if n == 0 || n as u64 - 1 <= w {
            return false;
        }
        let last = s[n - 1];
        let mut ge = true;
        let mut i = 0;
        while i as u64 <= w {
            ge &= last >= s[i];
            i += 1;
        }
        ge
    }
    fn limits() -> (u64, u64) {
        (cfg(0).saturating_add(1), u64::MAX)
    }
}

// ---- zpaq: constructor, and up to three arguments
pub struct Zpaq;

pub fn quarter_log2(max: u64) -> u64 {
    let mut l = 0;
    while l < 63 && max >> (l + 1) != 0 {
        l += 1;
    }
    if l < 3 {
        1
    } else if l > 34 {
        32
    } else {
        l - 2
    }
}

/// documented meaning of the constructors: average (log2), smallest and largest chunk
pub fn zpaq_cfg(kind: u64, a: u64, b: u64, c: u64) -> (u64, u64, u64) {
    match kind {
        0 => (a, b, c),
        1 => (a, 64 << (a - 10), 8128 << (a - 10)),
        2 => (quarter_log2(a), a / 64, a),
        3 => (quarter_log2(b), a, b),
        4 => (quarter_log2(b - 1), a, b - 1),
        5 => (quarter_log2(b), 0, b),
        6 => (quarter_log2(a * 64), a, u64::MAX),
        7 => (16, 4096, 520192),
        8 => (16, 0, u64::MAX),
        9 => (quarter_log2(b), a + 1, b),
        10 => (quarter_log2(b - 1), a + 1, b - 1),
        11 => (quarter_log2((a + 1) * 64), a + 1, u64::MAX),
        12 => (a, b, c - 1),
        13 => (a, b + 1, c),
        14 => (a, 0, u64::MAX),
        15 => (quarter_log2(b - 1), 0, b - 1),
        _ => (a, b, u64::MAX),
    }
}

pub fn zpaq_make(kind: u64, a: u64, b: u64, c: u64) -> hash_roll::zpaq::Zpaq {
    use hash_roll::zpaq::Zpaq;
    match kind {
        0 => Zpaq::with_average_and_range(a as u8, b..=c),
        1 => Zpaq::with_average_size_pow_2(a as u8),
        2 => Zpaq::with_max_size(a),
        3 => Zpaq::with_range(a..=b),
        4 => Zpaq::with_range(a..b),
        5 => Zpaq::with_range(..=b),
        6 => Zpaq::with_range(a..),
        7 => Default::default(),
        8 => Zpaq::with_range(..),
        9 => Zpaq::with_range((Bound::Excluded(a), Bound::Included(b))),
        10 => Zpaq::with_range((Bound::Excluded(a), Bound::Excluded(b))),
        11 => Zpaq::with_range((Bound::Excluded(a), Bound::Unbounded)),
        12 => Zpaq::with_average_and_range(a as u8, b..c),
        13 => Zpaq::with_average_and_range(a as u8, (Bound::Excluded(b), Bound::Included(c))),
        14 => Zpaq::with_average_and_range(a as u8, ..),
        15 => Zpaq::with_range(..b),
        _ => Zpaq::with_average_and_range(a as u8, b..),
    }
}

pub fn zpaq_edge((avg, min, max): (u64, u64, u64), s: &[u8]) -> bool {
    let n = s.len() as u64;
    if n >= max {
        return true;
    }
    if n < min {
        return false;
    }
    let mut pred = [0u8; 256];
    let mut last = 0u8;
    let mut h = 0u32;
    for &b in s {
        let m: u32 = if pred[last as usize] == b { 314159265 } else { 271828182 };
        h = h.wrapping_add(b as u32 + 1).wrapping_mul(m);
        pred[last as usize] = b;
        last = b;
    }
    (h as u64) < 1u64 << (32 - avg)
}

impl Zpaq {
    pub fn cfg() -> (u64, u64, u64) {
        zpaq_cfg(param(0), cfg(1), cfg(2), cfg(3))
    }
}

impl Algo for Zpaq {
    type C = hash_roll::zpaq::Zpaq;
    fn valid(v: &mut [u64; 4], _any: u64, _wmax: u64) -> bool {
        v[0] == 0 && v[1] >= 1 && v[1] <= 32 && v[2] <= v[3] && v[3] >= 1
    }
    fn build(v: &[u64; 4], _t: u32) -> Self::C {
        zpaq_make(v[0], v[1], v[2], v[3])
    }
    fn edge(s: &[u8]) -> bool {
        zpaq_edge(Self::cfg(), s)
    }
    fn limits() -> (u64, u64) {
        let c = Self::cfg();
        (c.1.max(1), c.2)
    }
}

// ---- zstd: target size; default
pub struct Zstd;
pub const ZSTD_WINDOW: usize = 32;

pub fn zstd_edge(target: u64, s: &[u8]) -> bool {
    let n = s.len();
    if n <= ZSTD_WINDOW {
        return false;
    }
    let mb = target >> 20;
    let mut bits = 20;
    while mb >> (bits - 20 + 1) != 0 {
        bits += 1;
    }
    let mut h = 0u64;
    let mut p = 1u64;
    for age in 0..ZSTD_WINDOW {
        h = h.wrapping_add((s[n - 1 - age] as u64 + 10).wrapping_mul(p));
        p = p.wrapping_mul(0xCF1BBCDCB7A56463);
    }
    let mask = (1u64 << bits) - 1;
    h & mask == mask
}

impl Algo for Zstd {
    type C = hash_roll::zstd::Zstd;
    fn valid(v: &mut [u64; 4], _any: u64, _wmax: u64) -> bool {
        v[0] >= 1 << 20 && v[0] < 1 << 52
    }
    fn build(v: &[u64; 4], _t: u32) -> Self::C {
        if v[1] != 0 {
            Default::default()
        } else {
            hash_roll::zstd::Zstd::with_target_section_size(v[0])
        }
    }
    fn edge(s: &[u8]) -> bool {
        zstd_edge(cfg(0), s)
    }
    const STREAM: bool = true;
    fn keep() -> u64 {
        ZSTD_WINDOW as u64
    }
}
