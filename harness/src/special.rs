//! Scenarios that are not generic in the algorithm.

use crate::algo::*;
use crate::run::*;
use crate::sym::*;
use hash_roll::range::{bound_cloned, RangeExt};
use hash_roll::{Chunk, ChunkIncr, ToChunkIncr};
use std::ops::{Bound, RangeBounds};

// C13 ------------------------------------------------------------------------------------------

/// find_chunk_edge() by the protocol; the result is judged elsewhere, here it only has to come
fn drive_fce<C: Chunk>(c: &C, d: &[u8], feed: &mut Feed, cap: usize) {
    let mut st = c.to_search_state();
    let (mut s, mut n) = (0, 0);
    let mut e = feed.end(0, d.len());
    loop {
        let (r, discard) = c.find_chunk_edge(&mut st, &d[s..e]);
        check(discard <= e - s, 1301);
        s += discard;
        match r {
            Some(_) => {
                n += 1;
                if n >= cap {
                    cover(1);
                    return;
                }
            }
            None => {
                if e >= d.len() {
                    cover(2);
                    return;
                }
                e = feed.end(e, d.len());
            }
        }
    }
}

fn drive_incr<C: ToChunkIncr>(c: &C, d: &[u8], feed: &mut Feed, cap: usize) {
    let mut inc = c.to_chunk_incr();
    let (mut pos, mut n) = (0, 0);
    while pos < d.len() {
        let end = feed.end(pos, d.len());
        let mut p = pos;
        loop {
            match inc.push(&d[p..end]) {
                None => break,
                Some(i) => {
                    check(i <= end - p, 1302);
                    n += 1;
                    if n >= cap {
                        cover(1);
                        return;
                    }
                    p += i;
                    if p >= end {
                        break;
                    }
                }
            }
        }
        pos = end;
    }
    cover(2);
}

fn drive<C: Chunk + ToChunkIncr>(c: &C) {
    let d = input();
    let mut feed = Feed::job();
    if param(9) & 1 == 0 {
        drive_fce(c, &d, &mut feed, cap());
    } else {
        drive_incr(c, &d, &mut feed, cap());
    }
}

/// window: arbitrary without a buffer, else up to param 11
fn any_window() -> u64 {
    let w;
    if param(9) & 1 == 0 {
        w = any_u64();
        assume(w >= 1);
    } else {
        w = 1 + choice(param(11) as usize) as u64;
    }
    w
}

pub fn c13_bup() {
    drive(&hash_roll::bup::RollSum::with_window(any_window() as usize));
}

pub fn c13_buz() {
    let k = any_window();
    let mask = any_u32();
    let max = any_u64();
    drive(&hash_roll::buzhash::BuzHash::new(k as usize, mask, Uf(0), max));
}

pub fn c13_fast() {
    let (min, normal, max) = (any_u64(), any_u64(), any_u64());
    assume(min <= normal);
    assume(normal <= max);
    assume(min < max);
    if param(9) & 1 != 0 {
        assume(min >= 1);
    }
    drive(&hash_roll::fastcdc::FastCdc::new(table64(2), min, normal, max));
}

pub fn c13_gear() {
    let l = any_u8();
    assume(l >= 1);
    assume(l <= 31);
    drive(&hash_roll::gear::Gear32::with_average_size_log2(l as usize));
}

pub fn c13_gzip() {
    let w = any_window();
    let m = match param(0) {
        0 => {
            let m = any_u64();
            assume(m >= 1);
            m
        }
        m => m,
    };
    drive(&hash_roll::gzip::GzipRsyncable::with_window_and_modulus(w as usize, m));
}

pub fn c13_mii() {
    drive(&hash_roll::mii::Mii::with_w(any_u64()));
}

pub fn c13_ram() {
    drive(&hash_roll::ram::Ram::with_w(any_u64()));
}

pub fn c13_pigz() {
    let b = any_u8();
    assume(b <= 31);
    drive(&hash_roll::pigz::PigzRsyncable::with_bits(b));
}

/// arbitrary arguments for the constructor `kind` (see zpaq_make), non-empty ranges
fn any_zpaq(kind: u64) -> (u64, u64, u64) {
    let (mut a, mut b, mut c) = (any_u64(), any_u64(), any_u64());
    let big = 1u64 << 57;
    match kind {
        0 | 12 | 13 | 14 | 16 => {
            a &= 63;
            assume(a >= 1);
            assume(a <= 32);
            match kind {
                0 => assume(b <= c),
                12 => assume(b < c),
                13 => {
                    assume(b < c);
                }
                _ => c = 0,
            }
        }
        1 => {
            a &= 63;
            assume(a >= 10);
            assume(a <= 32);
        }
        3 => assume(a <= b),
        4 | 9 => assume(a < b),
        5 => {}
        6 | 11 => assume(a <= big),
        10 => {
            assume(a < b);
            assume(b - a >= 2);
        }
        15 => assume(b >= 1),
        _ => {
            b = 0;
        }
    }
    (a, b, c)
}

pub fn c13_zpaq() {
    let kind = param(0);
    let (a, b, c) = any_zpaq(kind);
    drive(&zpaq_make(kind, a, b, c));
}

pub fn c13_zstd() {
    let t = any_u64();
    assume(t >= 1 << 20);
    assume(t < 1 << 52);
    drive(&hash_roll::zstd::Zstd::with_target_section_size(t));
}

/// RollSumIncr driven byte by byte
pub fn c13_roll() {
    let w = 1 + choice(param(11) as usize);
    let mut r = hash_roll::bup::RollSum::with_window(w).to_chunk_incr();
    for _ in 0..param(6) {
        r.roll_byte(any_u8());
        obs(r.digest() as u64);
        obs(r.at_split() as u64);
    }
    cover(1);
}

// C12 ------------------------------------------------------------------------------------------

/// zpaq constructors with arbitrary arguments
pub fn c12_zpaq_any() {
    let kind = param(0);
    let (a, b, c) = any_zpaq(kind);
    let d = input();
    let z = zpaq_make(kind, a, b, c);
    let cuts = if param(9) & 1 == 0 {
        fce_whole::<Zpaq>(&z, &d, 1)
    } else {
        incr_whole::<Zpaq>(&z, &d, 1, false)
    };
    let n = if cuts.n > 0 { cuts.at(0) } else { d.len() };
    let mut ok = true;
    for i in 0..n {
        let e = zpaq_any_edge(kind, a, b, c, &d[..i + 1]);
        ok &= e == (cuts.at(0) == i + 1);
    }
    check(ok, 1201);
    cuts.observe();
}

/// as zpaq_cfg()/zpaq_edge(), without branches on the arguments
fn zpaq_any_edge(kind: u64, a: u64, b: u64, c: u64, s: &[u8]) -> bool {
    let n = s.len() as u64;
    // (log2 of the average is given, limits)
    let (given, min, max) = match kind {
        0 => (true, b, c),
        1 => (true, 64 << ((a - 10) & 31), 8128 << ((a - 10) & 31)),
        2 => (false, a / 64, a),
        3 => (false, a, b),
        4 => (false, a, b - 1),
        5 => (false, 0, b),
        6 => (false, a, u64::MAX),
        9 => (false, a + 1, b),
        10 => (false, a + 1, b - 1),
        11 => (false, a + 1, u64::MAX),
        12 => (true, b, c - 1),
        13 => (true, b + 1, c),
        14 => (true, 0, u64::MAX),
        15 => (false, 0, b - 1),
        _ => (true, b, u64::MAX),
    };
    let mut pred = [0u8; 256];
    let mut last = 0u8;
    let mut h = 0u32;
    for &x in s {
        let m: u32 = if pred[last as usize] == x { 314159265 } else { 271828182 };
        h = h.wrapping_add(x as u32 + 1).wrapping_mul(m);
        pred[last as usize] = x;
        last = x;
    }
    let h = h as u64;
    let below = if given {
        h < 1u64 << ((32 - a) & 63)
    } else {
        // average: a quarter of max (guessed as 64 times min), as a power of two
        let m = match kind {
            6 => a * 64,
            11 => (a + 1) * 64,
            _ => max,
        };
        let mut r = h < 1 << 31;
        let mut l = 4;
        while l < 64 {
            // m >= 2^l: average 2^(l-2)
            let t = if l < 34 { 1u64 << (34 - l) } else { 1 };
            r &= (m >> l == 0) | (h < t);
            l += 1;
        }
        r
    };
    (n >= max) | ((n >= min) & below)
}

/// zstd with an arbitrary target size
pub fn c12_zstd_any() {
    let t = any_u64();
    assume(t >= 1 << 20);
    assume(t < 1 << 52);
    // 32 concrete bytes and one that makes an edge or not
    let d = input();
    let z = hash_roll::zstd::Zstd::with_target_section_size(t);
    let cuts = fce_whole::<Zstd>(&z, &d, 1);
    let n = if cuts.n > 0 { cuts.at(0) } else { d.len() };
    let mut ok = true;
    for i in ZSTD_WINDOW..n {
        let mut h = 0u64;
        let mut p = 1u64;
        for age in 0..ZSTD_WINDOW {
            h = h.wrapping_add((d[i - age] as u64 + 10).wrapping_mul(p));
            p = p.wrapping_mul(0xCF1BBCDCB7A56463);
        }
        // 2^20 <= 2^k <= t: the low k bits, for the largest k
        let mut hit = h & 0xf_ffff == 0xf_ffff;
        let mut k = 21;
        while k < 52 {
            hit &= (t >> k == 0) | (h >> (k - 1) & 1 == 1);
            k += 1;
        }
        ok &= hit == (cuts.at(0) == i + 1);
    }
    check(ok, 1202);
    cuts.observe();
}

/// defaults compare equal to what they are documented to be, where there is a comparison
pub fn c12_default_eq() {
    check(hash_roll::bup::RollSum::default() == hash_roll::bup::RollSum::with_window(opaque(64) as usize), 1211);
    check(
        hash_roll::gzip::GzipRsyncable::default()
            == hash_roll::gzip::GzipRsyncable::with_window_and_modulus(opaque(8192) as usize, opaque(4096)),
        1212,
    );
    check(
        hash_roll::pigz::PigzRsyncable::default() == hash_roll::pigz::PigzRsyncable::with_bits(opaque(12) as u8),
        1213,
    );
    check(
        hash_roll::zstd::Zstd::default()
            == hash_roll::zstd::Zstd::with_target_section_size(opaque(8 << 20)),
        1214,
    );
    check(
        hash_roll::fastcdc::FastCdc::default()
            == hash_roll::fastcdc::FastCdc::new(&hash_roll::gear_table::GEAR_64, opaque(2048), opaque(8192), opaque(65536)),
        1215,
    );
    cover(1);
}

/// borg's table for any seed
pub fn c12_borg_table() {
    let seed = any_u32();
    let t = hash_roll::buzhash_table::borg_buzhash_table(seed);
    let mut ok = true;
    for i in 0..256 {
        ok &= t[i] == crate::tables::BORG_BUZHASH[i] ^ seed;
    }
    check(ok, 1221);
    cover(1);
}

/// the published tables
pub fn c12_tables() {
    let mut ok = true;
    for i in 0..256 {
        ok &= hash_roll::gear_table::GEAR_32[i] == crate::tables::GEAR_32[i];
        ok &= hash_roll::gear_table::GEAR_64[i] == crate::tables::GEAR_64[i];
        ok &= hash_roll::buzhash_table::GO_BUZHASH[i] == crate::tables::GO_BUZHASH[i];
        ok &= hash_roll::buzhash_table::BORG_BUZHASH_BASE[i] == crate::tables::BORG_BUZHASH[i];
    }
    check(ok, 1222);
    cover(1);
}

// C14: equal configurations --------------------------------------------------------------------

fn eq_cfg<A: Algo>(c1: &A::C, c2: &A::C)
where
    A::C: PartialEq,
{
    assume(c1 == c2);
    cover(1);
    let d = input();
    let x = fce_whole::<A>(c1, &d, cap());
    let y = fce_whole::<A>(c2, &d, cap());
    check(same(&x, &y, cap()), 1451);
    x.observe();
}

pub fn c14_eq_bup() {
    let (a, b) = (any_u64(), any_u64());
    assume(a >= 1);
    assume(b >= 1);
    eq_cfg::<Bup>(
        &hash_roll::bup::RollSum::with_window(a as usize),
        &hash_roll::bup::RollSum::with_window(b as usize),
    );
}

pub fn c14_eq_buz() {
    let (a, b) = (any_u64(), any_u64());
    assume(a >= 1);
    assume(b >= 1);
    let f = choice(2) as u32;
    let c1 = hash_roll::buzhash::BuzHash::new(a as usize, any_u32(), Uf(0), any_u64());
    let c2 = hash_roll::buzhash::BuzHash::new(b as usize, any_u32(), Uf(f), any_u64());
    eq_cfg::<Buz>(&c1, &c2);
}

pub fn c14_eq_fast() {
    // two tables that differ in one place at most
    let mut t1 = Box::new([0u64; 256]);
    let mut x = 1u64;
    for v in t1.iter_mut() {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        *v = x;
    }
    let mut t2 = t1.clone();
    let at = [0usize, 1, 100, 255][choice(4)];
    t1[at] = any_u64();
    t2[at] = any_u64();
    let (t1, t2): (&'static [u64; 256], &'static [u64; 256]) = (Box::leak(t1), Box::leak(t2));
    let mut v = [0u64; 6];
    for x in v.iter_mut() {
        *x = any_u64();
    }
    assume(v[0] <= v[1]);
    assume(v[1] <= v[2]);
    assume(v[0] < v[2]);
    assume(v[3] <= v[4]);
    assume(v[4] <= v[5]);
    assume(v[3] < v[5]);
    let c1 = hash_roll::fastcdc::FastCdc::new(t1, v[0], v[1], v[2]);
    let c2 = hash_roll::fastcdc::FastCdc::new(t2, v[3], v[4], v[5]);
    assume(c1 == c2);
    cover(1);
    let d = input();
    // one edge, as the search state has it (no index conversion involved)
    let x = fce_whole::<Fast>(&c1, &d, 1);
    let y = fce_whole::<Fast>(&c2, &d, 1);
    check(same(&x, &y, 1), 1452);
    let mut i1 = c1.to_chunk_incr();
    let mut i2 = c2.to_chunk_incr();
    check(i1.push(&d) == i2.push(&d), 1453);
    x.observe();
}

pub fn c14_eq_gzip() {
    let (a, b) = (any_u64(), any_u64());
    assume(a >= 1);
    assume(b >= 1);
    let m = [1u64, 2, 3, 255, 256];
    let (m1, m2) = (m[choice(5)], m[choice(5)]);
    eq_cfg::<Gzip>(
        &hash_roll::gzip::GzipRsyncable::with_window_and_modulus(a as usize, m1),
        &hash_roll::gzip::GzipRsyncable::with_window_and_modulus(b as usize, m2),
    );
}

pub fn c14_eq_pigz() {
    let (a, b) = (choice(12) as u8, choice(12) as u8);
    eq_cfg::<Pigz>(
        &hash_roll::pigz::PigzRsyncable::with_bits(a),
        &hash_roll::pigz::PigzRsyncable::with_bits(b),
    );
}

pub fn c14_eq_ram() {
    let (a, b) = (any_u64(), any_u64());
    eq_cfg::<Ram>(&hash_roll::ram::Ram::with_w(a), &hash_roll::ram::Ram::with_w(b));
}

pub fn c14_eq_zpaq() {
    // any kinds of bounds
    let bound = |v: u64| match choice(3) {
        0 => Bound::Included(v),
        1 => Bound::Excluded(v),
        _ => Bound::Unbounded,
    };
    let avg = |k: usize| [4u8, 5][k];
    let (l1, h1) = (any_u64(), any_u64());
    let (l2, h2) = (any_u64(), any_u64());
    let c1 = hash_roll::zpaq::Zpaq::with_average_and_range(avg(choice(2)), (bound(l1), bound(h1)));
    let c2 = hash_roll::zpaq::Zpaq::with_average_and_range(avg(choice(2)), (bound(l2), bound(h2)));
    eq_cfg::<Zpaq>(&c1, &c2);
}

pub fn c14_eq_zstd() {
    let t = |k: usize| [1u64 << 20, (1 << 21) - 1, 1 << 21, 1 << 22][k];
    let (a, b) = (t(choice(4)), t(choice(4)));
    eq_cfg::<Zstd>(
        &hash_roll::zstd::Zstd::with_target_section_size(a),
        &hash_roll::zstd::Zstd::with_target_section_size(b),
    );
}

// C15 ------------------------------------------------------------------------------------------

fn c15_one<T: PartialOrd + Copy, R: RangeBounds<T> + Clone>(
    r: R,
    lo: Bound<T>,
    hi: Bound<T>,
    x: T,
    same_b: impl Fn(Bound<T>, Bound<T>) -> bool,
) {
    let under = match lo {
        Bound::Included(l) => x < l,
        Bound::Excluded(l) => x <= l,
        Bound::Unbounded => false,
    };
    let over = match hi {
        Bound::Included(h) => x > h,
        Bound::Excluded(h) => x >= h,
        Bound::Unbounded => false,
    };
    check(RangeExt::under_min(&r, &x) == under, 1501);
    check(RangeExt::exceeds_max(&r, &x) == over, 1502);
    let inside = RangeExt::contains(&r, &x);
    check(inside == (!under & !over), 1503);
    check(inside == RangeBounds::contains(&r, &x), 1504);
    check(same_b(bound_cloned(r.start_bound()), lo), 1505);
    check(same_b(bound_cloned(r.end_bound()), hi), 1506);
    let (a, b) = RangeExt::into_tuple(r);
    check(same_b(a, lo), 1507);
    check(same_b(b, hi), 1508);
    // and the tuple means the same
    let t = (a, b);
    check(RangeExt::contains(&t, &x) == inside, 1509);
    check(RangeExt::under_min(&t, &x) == under, 1510);
    check(RangeExt::exceeds_max(&t, &x) == over, 1511);
    obs(under as u64 | (over as u64) << 1 | (inside as u64) << 2);
    cover(1);
}

fn c15_all<T: PartialOrd + Copy>(any: impl Fn() -> T, step: impl Fn(std::ops::RangeInclusive<T>) -> std::ops::RangeInclusive<T>) {
    let (a, b, x) = (any(), any(), any());
    let eq = |p: Bound<T>, q: Bound<T>| match (p, q) {
        (Bound::Included(p), Bound::Included(q)) => p == q,
        (Bound::Excluded(p), Bound::Excluded(q)) => p == q,
        (Bound::Unbounded, Bound::Unbounded) => true,
        _ => false,
    };
    use Bound::*;
    match choice(9) {
        0 => c15_one(a..b, Included(a), Excluded(b), x, eq),
        1 => c15_one(a..=b, Included(a), Included(b), x, eq),
        2 => c15_one(a.., Included(a), Unbounded, x, eq),
        3 => c15_one(..b, Unbounded, Excluded(b), x, eq),
        4 => c15_one(..=b, Unbounded, Included(b), x, eq),
        5 => c15_one(.., Unbounded, Unbounded, x, eq),
        6 => {
            let f = |v: T| match choice(3) {
                0 => Included(v),
                1 => Excluded(v),
                _ => Unbounded,
            };
            let (l, h) = (f(a), f(b));
            c15_one((l, h), l, h, x, eq)
        }
        7 => c15_one::<T, std::ops::Range<&T>>(&a..&b, Included(a), Excluded(b), x, eq),
        _ => {
            // an iterated inclusive range
            let r = step(a..=a);
            let (l, h) = (bound_of(r.start_bound()), bound_of(r.end_bound()));
            c15_one(r, l, h, x, eq)
        }
    }
}

fn bound_of<T: Copy>(b: Bound<&T>) -> Bound<T> {
    match b {
        Bound::Included(v) => Bound::Included(*v),
        Bound::Excluded(v) => Bound::Excluded(*v),
        Bound::Unbounded => Bound::Unbounded,
    }
}

pub fn c15_u64() {
    c15_all(any_u64, |mut r| {
        r.next();
        r
    });
}
pub fn c15_i64() {
    c15_all(|| any_u64() as i64, |mut r| {
        r.next();
        r
    });
}
pub fn c15_u8() {
    c15_all(any_u8, |mut r| {
        r.next();
        r
    });
}
pub fn c15_i32() {
    c15_all(|| any_u32() as i32, |mut r| {
        r.next();
        r
    });
}
pub fn c15_char_pair() {
    // ordered lexicographically
    c15_all(|| (any_u8(), any_u8()), |r| r);
}

// C16 ------------------------------------------------------------------------------------------

fn roll_incr() -> hash_roll::bup::RollSumIncr {
    match param(1) {
        0 => hash_roll::bup::RollSum::with_window(param(0) as usize).to_chunk_incr(),
        1 => hash_roll::bup::RollSum::default().to_chunk_incr(),
        _ => hash_roll::bup::RollSumIncr::default(),
    }
}

/// roll_byte(), digest(), at_split()
pub fn c16_roll() {
    let d = input();
    let w = param(0);
    let mut r = roll_incr();
    check(r.digest() == bup_digest(w, &[]), 1601);
    let from = param(5) as usize;
    for i in 0..d.len() {
        r.roll_byte(d[i]);
        if i + 1 >= from {
            let g = r.digest();
            check(g == bup_digest(w, &d[..i + 1]), 1602);
            check(r.at_split() == (g & 8191 == 8191), 1603);
        }
    }
    obs(r.digest() as u64);
    cover(1);
}

/// push() on top of bytes rolled one by one
pub fn c16_push() {
    let d = input();
    let w = param(0);
    let k = choice(param(11) as usize + 1);
    let mut r = roll_incr();
    let p = d.len() - param(6) as usize;
    let k = if d.len() > p + k { p + k } else { d.len() };
    for i in 0..k {
        r.roll_byte(d[i]);
    }
    let res = r.push(&d[k..]);
    let n = match res {
        Some(i) => {
            check(i >= 1, 1611);
            check(i <= d.len() - k, 1612);
            cover(1);
            k + i - 1
        }
        None => {
            cover(2);
            d.len()
        }
    };
    // the first byte for which ...
    let mut ok = true;
    for i in k..n {
        ok &= bup_digest(w, &d[..i + 1]) & 8191 != 8191;
    }
    check(ok, 1613);
    if n < d.len() {
        check(bup_digest(w, &d[..n + 1]) & 8191 == 8191, 1614);
        // afterwards like new
        check(r.digest() == bup_digest(w, &[]), 1615);
        obs(n as u64);
    } else {
        let g = r.digest();
        check(g == bup_digest(w, &d), 1616);
        check(r.at_split() == (g & 8191 == 8191), 1617);
        obs(g as u64);
    }
}

// C14 ------------------------------------------------------------------------------------------

/// RollSumIncr that compare equal, after param 11 and param 12 bytes rolled one by one, go on alike
pub fn c14_eq_roll() {
    let d1 = input_n(param(4), param(5) as usize, param(11) as usize, 0);
    let d2 = input_n(param(4), param(5) as usize, param(12) as usize, 0);
    let mut a = roll_incr();
    let mut b = roll_incr();
    for i in 0..d1.len() {
        a.roll_byte(d1[i]);
    }
    for i in 0..d2.len() {
        b.roll_byte(d2[i]);
    }
    assume(a == b);
    cover(1);
    check(a.digest() == b.digest(), 1451);
    check(a.at_split() == b.at_split(), 1452);
    for _ in 0..param(6) {
        let v = any_u8();
        a.roll_byte(v);
        b.roll_byte(v);
        check(a.digest() == b.digest(), 1453);
        check(a.at_split() == b.at_split(), 1454);
    }
}
