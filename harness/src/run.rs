//! Input construction and the two ways of scanning data.
//!
//! Job parameters: 4 prefix pattern, 5 prefix length, 6 arbitrary bytes, 7 feed, 8 edges, 9 flags,
//! 10 zero bytes after the arbitrary ones, 11 and up specific to the scenario.

use crate::algo::*;
use crate::sym::*;
use hash_roll::{Chunk, ChunkIncr};

pub const MAX_CUTS: usize = 400;

/// absolute positions of edges
#[derive(Clone, Copy)]
pub struct Cuts {
    pub n: usize,
    v: [usize; MAX_CUTS],
}

impl Cuts {
    pub fn new() -> Self {
        Cuts { n: 0, v: [0; MAX_CUTS] }
    }
    pub fn push(&mut self, c: usize) {
        if self.n < MAX_CUTS {
            self.v[self.n] = c;
            self.n += 1;
        }
    }
    pub fn at(&self, i: usize) -> usize {
        if i < self.n {
            self.v[i]
        } else {
            usize::MAX
        }
    }
    pub fn has(&self, c: usize) -> bool {
        let mut i = 0;
        while i < self.n {
            if self.v[i] == c {
                return true;
            }
            i += 1;
        }
        false
    }
    /// the edges after `from`, relative to it
    pub fn after(&self, from: usize) -> Cuts {
        let mut r = Cuts::new();
        for i in 0..self.n {
            if self.v[i] > from {
                r.push(self.v[i] - from);
            }
        }
        r
    }
    /// the edges after `from`
    pub fn only_after(&self, from: usize) -> Cuts {
        let mut r = Cuts::new();
        for i in 0..self.n {
            if self.v[i] > from {
                r.push(self.v[i]);
            }
        }
        r
    }
    pub fn at_last(&self) -> usize {
        if self.n > 0 {
            self.v[self.n - 1]
        } else {
            0
        }
    }
    /// the edges up to and including `to`
    pub fn upto(&self, to: usize) -> Cuts {
        let mut r = Cuts::new();
        for i in 0..self.n {
            if self.v[i] <= to {
                r.push(self.v[i]);
            }
        }
        r
    }
    pub fn observe(&self) {
        obs(self.n as u64);
        for i in 0..self.n {
            obs(self.v[i] as u64);
        }
        cover(1 + self.n.min(3) as u32);
    }
}

/// same edges; when one list was cut short at `cap` edges, the rest of the other is not compared
pub fn same(a: &Cuts, b: &Cuts, cap: usize) -> bool {
    let n = if a.n > b.n { a.n } else { b.n };
    let n = if n > cap { cap } else { n };
    let mut i = 0;
    while i < n {
        if a.at(i) != b.at(i) {
            return false;
        }
        i += 1;
    }
    true
}

pub fn cap() -> usize {
    match param(8) as usize {
        0 => MAX_CUTS,
        n => n,
    }
}

/// without the limit of Cuts
pub fn cap_any() -> usize {
    match param(8) as usize {
        0 => usize::MAX,
        n => n,
    }
}

pub fn fill(d: &mut [u8], kind: u64) {
    if kind < 256 {
        for b in d.iter_mut() {
            *b = kind as u8;
        }
    } else if kind < 512 {
        // rising by kind - 256
        let mut x = 0u8;
        for b in d.iter_mut() {
            *b = x;
            x = x.wrapping_add((kind - 256) as u8);
        }
    } else {
        // seed, and in the upper half the bits that are cleared
        let mut x = kind & 0xffff_ffff;
        for b in d.iter_mut() {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            *b = (x >> 56) as u8 & !(kind >> 32) as u8;
        }
    }
}

pub fn any_bytes(d: &mut [u8]) {
    for b in d.iter_mut() {
        *b = any_u8();
    }
}

/// the concrete prefix, arbitrary bytes and concrete suffix of the job
pub fn input() -> Vec<u8> {
    input_n(param(4), param(5) as usize, param(6) as usize, param(10) as usize)
}

pub fn input_n(kind: u64, p: usize, n: usize, s: usize) -> Vec<u8> {
    let mut d = vec![0u8; p + n + s];
    fill(&mut d[..p], kind);
    any_bytes(&mut d[p..p + n]);
    d
}

pub const BYTEWISE: u64 = 1000;

/// how the data is handed over: in 1 + k pieces of any size, byte by byte, or in equal pieces
pub struct Feed {
    k: u64,
    p: usize,
}

/// this many pieces more: all positions in the concrete part, too
pub const FINE: u64 = 500;

/// and more: in pieces of so many bytes
pub const FIXED: u64 = 2000;

impl Feed {
    pub fn job() -> Self {
        match param(7) {
            k @ FINE..=599 => Feed { k: k - FINE, p: 0 },
            k => Feed { k, p: param(5) as usize },
        }
    }
    pub fn whole() -> Self {
        Feed { k: 0, p: 0 }
    }
    pub fn bytewise() -> Self {
        Feed { k: BYTEWISE, p: 0 }
    }
    pub fn pieces(k: u64, p: usize) -> Self {
        Feed { k, p }
    }

    /// end of the next piece of `len` bytes, `pos` having been handed over
    pub fn end(&mut self, pos: usize, len: usize) -> usize {
        if self.k == 0 || pos >= len {
            return len;
        }
        if self.k == BYTEWISE {
            return pos + 1;
        }
        if self.k > FIXED {
            return len.min(pos + (self.k - FIXED) as usize);
        }
        self.k -= 1;
        let p = if self.p < len { self.p } else { len };
        if pos + 4 < p {
            // the concrete part: only some of the positions
            let at = [pos, pos + 1, (pos + p) / 2, p - 1];
            let c = choice(4 + len - p + 1);
            if c < 4 {
                at[c]
            } else {
                p + c - 4
            }
        } else {
            pos + choice(len - pos + 1)
        }
    }
}

/// Edges found by push(); after an edge the bytes that follow it are pushed next.
///
/// FastCdcIncr returns the index of the last byte of the chunk for a content match (known
/// finding): translated to the edge unless `raw`.
pub fn incr_cuts<A: Algo>(c: &mut Incr<A>, d: &[u8], feed: &mut Feed, cap: usize, raw: bool) -> Cuts {
    incr_cuts_from::<A>(c, d, 0, 0, feed, cap, raw)
}

pub fn incr_cuts_from<A: Algo>(
    c: &mut Incr<A>,
    d: &[u8],
    mut pos: usize,
    mut last: usize,
    feed: &mut Feed,
    cap: usize,
    raw: bool,
) -> Cuts {
    let mut cuts = Cuts::new();
    loop {
        let end = feed.end(pos, d.len());
        loop {
            match c.push(&d[pos..end]) {
                None => {
                    pos = end;
                    break;
                }
                Some(i) => {
                    check(i <= end - pos, 1);
                    let mut e = pos + i;
                    match A::fc_max() {
                        Some(m) => {
                            if !raw && (e - last) as u64 != m {
                                e += 1;
                                check(e <= end, 2);
                            }
                        }
                        None => check(i > 0, 3),
                    }
                    // also bounds the number of rounds
                    check(e > last, 4);
                    cuts.push(e);
                    if cuts.n >= cap {
                        return cuts;
                    }
                    last = e;
                    pos = e;
                    if pos >= end {
                        break;
                    }
                }
            }
        }
        if pos >= d.len() {
            return cuts;
        }
    }
}

/// Edges found by find_chunk_edge() when the data becomes available piece by piece.
///
/// `eager`: more data arrives after edges, too.
pub fn fce_cuts<A: Algo>(
    c: &A::C,
    st: &mut State<A>,
    d: &[u8],
    feed: &mut Feed,
    cap: usize,
    eager: bool,
) -> Cuts {
    let mut cuts = Cuts::new();
    let mut s = 0;
    let mut last = 0;
    let mut e = feed.end(0, d.len());
    loop {
        let (r, discard) = c.find_chunk_edge(st, &d[s..e]);
        check(discard <= e - s, 5);
        match r {
            Some(x) => {
                check(x >= 1, 6);
                check(x <= e - s, 7);
                check(s + x > last, 8);
                last = s + x;
                cuts.push(last);
                if cuts.n >= cap {
                    return cuts;
                }
                s += discard;
                if eager {
                    e = feed.end(e, d.len());
                }
            }
            None => {
                s += discard;
                if e >= d.len() {
                    return cuts;
                }
                e = feed.end(e, d.len());
            }
        }
    }
}

/// all at once, with a new state
pub fn fce_whole<A: Algo>(c: &A::C, d: &[u8], cap: usize) -> Cuts {
    let mut st = c.to_search_state();
    fce_cuts::<A>(c, &mut st, d, &mut Feed::whole(), cap, false)
}

/// all at once, with a new incremental chunker
pub fn incr_whole<A: Algo>(c: &A::C, d: &[u8], cap: usize, raw: bool) -> Cuts {
    use hash_roll::ToChunkIncr;
    let mut i = c.to_chunk_incr();
    incr_cuts::<A>(&mut i, d, &mut Feed::whole(), cap, raw)
}
