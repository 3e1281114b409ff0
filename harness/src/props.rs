//! One scenario per property (some have more), generic in the algorithm.

use crate::algo::*;
use crate::run::*;
use crate::sym::*;
use hash_roll::{Chunk, ChunkIncr, ToChunkIncr};

fn flags() -> u64 {
    param(9)
}

// C01 ------------------------------------------------------------------------------------------

/// push(): edges in bounds, progress
pub fn c01_incr<A: Algo>() {
    let d = input();
    let c = A::make();
    let mut inc = c.to_chunk_incr();
    let mut feed = Feed::job();
    let cap = cap();
    let (mut pos, mut last, mut n) = (0usize, 0usize, 0usize);
    loop {
        let end = feed.end(pos, d.len());
        loop {
            match inc.push(&d[pos..end]) {
                None => {
                    pos = end;
                    break;
                }
                Some(i) => {
                    check(i <= end - pos, 101);
                    let mut e = pos + i;
                    match A::fc_max() {
                        Some(m) => {
                            // known finding: index of the last byte instead of the edge; nothing
                            // else may be 0 or out of bounds
                            if (e - last) as u64 != m {
                                e += 1;
                                check(e <= end, 102);
                                if i == 0 {
                                    cover(1001);
                                }
                            } else {
                                check(i > 0, 103);
                            }
                        }
                        None => check(i > 0, 103),
                    }
                    check(e > last, 104);
                    n += 1;
                    check(n <= d.len(), 105);
                    obs(e as u64);
                    if n >= cap {
                        cover(1);
                        return;
                    }
                    last = e;
                    pos = e;
                    if pos >= end {
                        break;
                    }
                }
            }
        }
        if pos >= d.len() {
            break;
        }
    }
    if n > 0 {
        cover(1);
    } else {
        cover(2);
    }
}

/// find_chunk_edge(): edges and discard in bounds, progress
pub fn c01_fce<A: Algo>() {
    let d = input();
    let c = A::make();
    let mut st = c.to_search_state();
    let mut feed = Feed::job();
    let cap = cap();
    let eager = flags() & 1 != 0;
    let (mut s, mut last, mut n) = (0usize, 0usize, 0usize);
    let mut e = feed.end(0, d.len());
    loop {
        let (r, discard) = c.find_chunk_edge(&mut st, &d[s..e]);
        check(discard <= e - s, 111);
        match r {
            Some(x) => {
                check(x >= 1, 112);
                check(x <= e - s, 113);
                // the next call sees less data or later edges: both, as the caller advances
                check(discard >= 1, 114);
                check(s + x > last, 115);
                last = s + x;
                n += 1;
                check(n <= d.len(), 116);
                obs(last as u64);
                if n >= cap {
                    cover(1);
                    return;
                }
                s += discard;
                if eager {
                    e = feed.end(e, d.len());
                }
            }
            None => {
                s += discard;
                if e >= d.len() {
                    break;
                }
                e = feed.end(e, d.len());
            }
        }
    }
    if n > 0 {
        cover(1);
    } else {
        cover(2);
    }
}

// C02 ------------------------------------------------------------------------------------------

fn at(d: &[u8], s: &[u8]) -> usize {
    (s.as_ptr() as usize).wrapping_sub(d.as_ptr() as usize)
}

pub fn c02<A: Algo>() {
    let d = input();
    let c = A::make();

    let mut cuts = Cuts::new();
    let mut pos = 0;
    let mut it = c.to_chunk_incr().iter_slices(&d);
    let mut n = 0;
    while let Some(s) = it.next() {
        check(!s.is_empty(), 201);
        check(at(&d, s) == pos, 202);
        check(s.len() <= d.len() - pos, 203);
        pos += s.len();
        cuts.push(pos);
        n += 1;
        check(n <= d.len(), 204);
    }
    check(pos == d.len(), 205);
    // there is room for so many
    assume(n < MAX_CUTS);
    check(it.next().is_none(), 206);
    let (_, rest) = it.into_parts();
    check(rest.is_empty(), 207);

    // the complete chunks only
    let mut pos = 0;
    let mut it = c.to_chunk_incr().iter_slices_strict(&d);
    let mut n = 0;
    while let Some(s) = it.next() {
        check(!s.is_empty(), 211);
        check(at(&d, s) == pos, 212);
        check(s.len() <= d.len() - pos, 213);
        pos += s.len();
        check(cuts.at(n) == pos, 214);
        n += 1;
        check(n <= d.len(), 215);
    }
    // what is left is the one slice iter_slices() has more, if any
    check(cuts.n == n + (pos < d.len()) as usize, 216);
    if choice(2) == 0 {
        let rest = it.take_rem();
        check(rest.len() == d.len() - pos, 217);
        check(rest.is_empty() || at(&d, rest) == pos, 218);
        let (_, rest) = it.into_parts();
        check(rest.is_empty(), 219);
    } else {
        let (_, rest) = it.into_parts();
        check(rest.len() == d.len() - pos, 220);
        check(rest.is_empty() || at(&d, rest) == pos, 221);
    }
    cuts.observe();
}

/// stopping half way: slices so far and remainder are the input
pub fn c02_part<A: Algo>() {
    let d = input();
    let c = A::make();
    let stop = choice((d.len() + 1).min(param(6) as usize + 2));
    let mut pos = 0;
    let mut it = c.to_chunk_incr().iter_slices(&d);
    for _ in 0..stop {
        match it.next() {
            Some(s) => {
                check(!s.is_empty() && at(&d, s) == pos && s.len() <= d.len() - pos, 231);
                pos += s.len();
            }
            None => {
                check(pos == d.len(), 232);
                assume(false)
            }
        }
    }
    let (_, rest) = it.into_parts();
    check(rest.len() == d.len() - pos, 233);
    check(rest.is_empty() || at(&d, rest) == pos, 234);

    let mut pos = 0;
    let mut it = c.to_chunk_incr().iter_slices_strict(&d);
    for _ in 0..stop {
        match it.next() {
            Some(s) => {
                check(!s.is_empty() && at(&d, s) == pos && s.len() <= d.len() - pos, 235);
                pos += s.len();
            }
            None => break,
        }
    }
    let rest = it.take_rem();
    check(rest.len() == d.len() - pos, 236);
    check(rest.is_empty() || at(&d, rest) == pos, 237);
    cover(1);
}

/// the chunker handed back by into_parts() goes on from where the iteration stopped
pub fn c02_resume<A: Algo>() {
    let d = input();
    let n = d.len();
    let mut more = d.clone();
    for _ in 0..param(11) {
        more.push(any_u8());
    }
    let cap = cap();
    let c = A::make();
    let all = incr_whole::<A>(&c, &more, cap, true);
    let stop = choice(param(6) as usize + 2);
    let mut it = c.to_chunk_incr().iter_slices(&d);
    // the last slice may not have been a complete chunk
    let (mut pos, mut last) = (0, 0);
    for _ in 0..stop {
        match it.next() {
            Some(s) => {
                last = pos;
                pos += s.len();
            }
            None => break,
        }
    }
    let (mut i, rest) = it.into_parts();
    check(rest.len() == n - pos, 241);
    let x = incr_cuts_from::<A>(&mut i, &more, pos, last, &mut Feed::whole(), cap, true);
    check(same(&x.only_after(pos), &all.only_after(pos), cap), 242);

    let mut it = c.to_chunk_incr().iter_slices_strict(&d);
    let mut pos = 0;
    let mut end = false;
    for _ in 0..stop {
        match it.next() {
            Some(s) => pos += s.len(),
            None => {
                end = true;
                break;
            }
        }
    }
    let (mut i, rest) = it.into_parts();
    check(rest.len() == n - pos, 243);
    // at the end, everything was looked at
    let seen = if end { n } else { pos };
    let x = incr_cuts_from::<A>(&mut i, &more, seen, pos, &mut Feed::whole(), cap, true);
    // known finding: FastCDC may report the end of what was seen only now
    check(same(&x, &all.only_after(pos), cap), 244);
    all.observe();
}

/// what else there is in Iterator
pub fn c02_adapt<A: Algo>() {
    let d = input();
    let c = A::make();
    let mut lens = Cuts::new();
    let mut it = c.to_chunk_incr().iter_slices(&d);
    while let Some(s) = it.next() {
        lens.push(s.len());
        check(lens.n <= d.len(), 251);
    }
    let strict = c.to_chunk_incr().iter_slices_strict(&d).count();
    check(strict == lens.n || strict + 1 == lens.n, 252);
    match choice(6) {
        0 => check(c.to_chunk_incr().iter_slices(&d).count() == lens.n, 253),
        1 => {
            let k = choice(param(6) as usize + 2);
            let mut it = c.to_chunk_incr().iter_slices(&d);
            let x = it.nth(k).map_or(0, |s| s.len());
            check(if k < lens.n { x == lens.at(k) } else { x == 0 }, 254);
            let y = it.next().map_or(0, |s| s.len());
            check(if k + 1 < lens.n { y == lens.at(k + 1) } else { y == 0 }, 255);
        }
        2 => {
            let x = c.to_chunk_incr().iter_slices(&d).last().map_or(0, |s| s.len());
            check(x == if lens.n > 0 { lens.at(lens.n - 1) } else { 0 }, 256);
        }
        3 => {
            let n = c.to_chunk_incr().iter_slices(&d).fold(0, |n, s| n + s.len());
            check(n == d.len(), 257);
        }
        4 => {
            let mut it = c.to_chunk_incr().iter_slices(&d);
            let mut left = lens.n;
            loop {
                let (lo, hi) = it.size_hint();
                check(lo <= left, 258);
                check(hi.map_or(true, |h| h >= left), 259);
                if it.next().is_none() {
                    break;
                }
                left -= 1;
            }
        }
        _ => {
            let mut it = c.to_chunk_incr().iter_slices_strict(&d);
            let mut left = strict;
            loop {
                let (lo, hi) = it.size_hint();
                check(lo <= left, 260);
                check(hi.map_or(true, |h| h >= left), 261);
                if it.next().is_none() {
                    break;
                }
                left -= 1;
            }
        }
    }
    lens.observe();
}

/// known finding: with a minimum of 0 FastCDC's slice iterators yield empty slices
pub fn c02_fast_min0() {
    let d = input();
    let c = Fast::make();
    let mut it = c.to_chunk_incr().iter_slices(&d);
    if let Some(s) = it.next() {
        check(at(&d, s) == 0 && s.len() <= d.len(), 241);
        if s.is_empty() {
            // only when the first byte matches
            check(fast_edge((0, param(1), param(2)), &d[..1], |b| table64(2)[b as usize]), 242);
            cover(1002);
        }
    }
}

// C03 ------------------------------------------------------------------------------------------

pub fn c03<A: Algo>() {
    let d = input();
    let cap = cap();
    let raw = flags() & 1 != 0;
    let c = A::make();
    let one = incr_whole::<A>(&c, &d, cap, raw);
    let mut i2 = c.to_chunk_incr();
    let two = incr_cuts::<A>(&mut i2, &d, &mut Feed::job(), cap, raw);
    check(same(&one, &two, cap), 301);
    one.observe();
}

// C04 ------------------------------------------------------------------------------------------

/// the memory the data is handed over in may be reused: only what must be kept is carried over
pub fn c04<A: Algo>() {
    let d = input();
    let cap = cap();
    let eager = flags() & 1 != 0;
    let c = A::make();
    let one = fce_whole::<A>(&c, &d, cap);

    let mut st = c.to_search_state();
    let mut feed = Feed::job();
    let mut two = Cuts::new();
    let (mut s, mut last) = (0usize, 0usize);
    let mut e = feed.end(0, d.len());
    'all: loop {
        let (r, discard) = c.find_chunk_edge(&mut st, &d[s..e]);
        check(discard <= e - s, 401);
        match r {
            Some(x) => {
                check(x >= 1 && x <= e - s && s + x > last, 402);
                // nothing unexamined is skipped
                check(discard <= x, 403);
                last = s + x;
                two.push(last);
                if two.n >= cap {
                    break 'all;
                }
                s += discard;
                if eager {
                    e = feed.end(e, d.len());
                }
            }
            None => {
                s += discard;
                if e >= d.len() {
                    break 'all;
                }
                e = feed.end(e, d.len());
            }
        }
    }
    check(same(&one, &two, cap), 404);
    if two.n < cap {
        // calling again without new data finds nothing, and goes on as if it had not happened
        let (r, discard) = c.find_chunk_edge(&mut st, &d[s..e]);
        check(r.is_none(), 405);
        check(discard <= e - s, 406);
    }
    one.observe();
}

// C05 ------------------------------------------------------------------------------------------

pub fn c05<A: Algo>() {
    let d = input();
    let cap = cap();
    let c = A::make();
    let fce = fce_whole::<A>(&c, &d, cap);
    let mut inc = c.to_chunk_incr();
    let push = incr_cuts::<A>(&mut inc, &d, &mut Feed::job(), cap, false);
    check(same(&fce, &push, cap), 501);

    // iter_slices() cuts where push() says
    let raw = incr_whole::<A>(&c, &d, cap, true);
    let mut it = c.to_chunk_incr().iter_slices(&d);
    let mut strict = c.to_chunk_incr().iter_slices_strict(&d);
    let (mut pos, mut k) = (0, 0);
    while k < raw.n {
        match (it.next(), strict.next()) {
            (Some(s), Some(t)) => {
                pos += s.len();
                check(pos == raw.at(k), 502);
                check(s.len() == t.len(), 503);
            }
            _ => check(false, 504),
        }
        k += 1;
    }
    if raw.n < cap {
        // only the incomplete chunk follows
        check(strict.next().is_none(), 505);
        match it.next() {
            Some(s) => check(pos < d.len() && pos + s.len() == d.len(), 506),
            None => check(pos == d.len(), 507),
        }
    }
    if raw.n > 0 && raw.at(0) != fce.at(0) {
        cover(1005);
        check(A::fc_max().is_some() && raw.at(0) + 1 == fce.at(0), 508);
    }
    fce.observe();
}

fn agree<A: Algo>(mut i: Incr<A>, d: &[u8], want: &Cuts, cap: usize, id: u32) {
    let x = incr_cuts::<A>(&mut i, d, &mut Feed::whole(), cap, false);
    check(same(&x, want, cap), id);
}

/// the chunkers obtained by conversion are those of to_chunk_incr()
pub fn c05_from_ref<A: Algo>()
where
    for<'x> Incr<A>: From<&'x A::C>,
{
    let d = input();
    let c = A::make();
    let want = incr_whole::<A>(&c, &d, cap(), false);
    agree::<A>(Incr::<A>::from(&c), &d, &want, cap(), 511);
    want.observe();
}

pub fn c05_from<A: Algo>()
where
    Incr<A>: From<A::C>,
{
    let d = input();
    let c = A::make();
    let want = incr_whole::<A>(&c, &d, cap(), false);
    agree::<A>(Incr::<A>::from(c), &d, &want, cap(), 512);
    want.observe();
}

pub fn c05_state<A: Algo>()
where
    for<'x> State<A>: From<&'x A::C>,
{
    let d = input();
    let c = A::make();
    let want = fce_whole::<A>(&c, &d, cap());
    let mut s = State::<A>::from(&c);
    let x = fce_cuts::<A>(&c, &mut s, &d, &mut Feed::whole(), cap(), false);
    check(same(&x, &want, cap()), 513);
    want.observe();
}

pub fn c05_state_default<A: Algo>()
where
    State<A>: Default,
{
    let d = input();
    let c = A::make();
    let want = fce_whole::<A>(&c, &d, cap());
    let mut s = State::<A>::default();
    let x = fce_cuts::<A>(&c, &mut s, &d, &mut Feed::whole(), cap(), false);
    check(same(&x, &want, cap()), 514);
    want.observe();
}

/// RollSumIncr and FastCdcIncr have a default; the configuration of the job is the default one
pub fn c05_incr_default<A: Algo>()
where
    Incr<A>: Default,
{
    let d = input();
    let c = A::make();
    let want = incr_whole::<A>(&c, &d, cap(), false);
    agree::<A>(Default::default(), &d, &want, cap(), 515);
    want.observe();
}

pub fn c05_mii_state() {
    let d = input();
    let c = Mii::make();
    let want = fce_whole::<Mii>(&c, &d, cap());
    let mut s = hash_roll::mii::MiiSearchState::from(c.to_chunk_incr());
    let x = fce_cuts::<Mii>(&c, &mut s, &d, &mut Feed::whole(), cap(), false);
    check(same(&x, &want, cap()), 516);
    want.observe();
}

// C06 ------------------------------------------------------------------------------------------

/// the edges after the first one are those a new instance finds
pub fn c06_incr<A: Algo>() {
    let d = input();
    let cap = cap();
    let raw = flags() & 1 != 0;
    let c = A::make();
    let mut inc = c.to_chunk_incr();
    let all = incr_cuts::<A>(&mut inc, &d, &mut Feed::job(), cap, raw);
    all.observe();
    assume(all.n > 0);
    let e = all.at(0);
    let rest = all.after(e);
    let new = incr_whole::<A>(&A::make(), &d[e..], cap - 1, raw);
    check(same(&rest, &new, cap - 1), 601);
    for i in 1..all.n {
        if i + 1 < cap {
            let new = incr_whole::<A>(&A::make(), &d[all.at(i)..], 1, raw);
            check(same(&all.after(all.at(i)), &new, 1), 604);
        }
    }
}

pub fn c06_fce<A: Algo>() {
    let d = input();
    let cap = cap();
    let eager = flags() & 1 != 0;
    let c = A::make();
    let mut st = c.to_search_state();
    let all = fce_cuts::<A>(&c, &mut st, &d, &mut Feed::job(), cap, eager);
    all.observe();
    assume(all.n > 0);
    let e = all.at(0);
    let rest = all.after(e);
    let new = fce_whole::<A>(&A::make(), &d[e..], cap - 1);
    check(same(&rest, &new, cap - 1), 602);
    for i in 1..all.n {
        if i + 1 < cap {
            let new = fce_whole::<A>(&A::make(), &d[all.at(i)..], 1);
            check(same(&all.after(all.at(i)), &new, 1), 605);
        }
    }
}

/// two inputs with an edge in front of the same tail
pub fn c06_tail<A: Algo>() {
    // params 11, 12: lengths of the two heads; 6: of the tail
    let (la, lb, n) = (param(11) as usize, param(12) as usize, param(6) as usize);
    let mut a = input_n(param(4), param(5) as usize, la, n);
    let mut b = input_n(param(4), param(5) as usize, lb, n);
    let (ha, hb) = (a.len() - n, b.len() - n);
    any_bytes(&mut a[ha..]);
    for i in 0..n {
        b[hb + i] = a[ha + i];
    }
    let c = A::make();
    let cap = cap();
    let fce = flags() & 1 != 0;
    let whole = |d: &[u8]| if fce { fce_whole::<A>(&c, d, cap) } else { incr_whole::<A>(&c, d, cap, false) };
    // heads that end at an edge; first alone, which leaves few paths for the rest
    assume(whole(&a[..ha]).has(ha));
    assume(whole(&b[..hb]).has(hb));
    let (x, y) = (whole(&a), whole(&b));
    assume(x.has(ha) && y.has(hb));
    let (x, y) = (x.after(ha), y.after(hb));
    check(same(&x, &y, MAX_CUTS), 603);
    cover(1);
}

// C07 ------------------------------------------------------------------------------------------

/// Two histories of different length and content, then the same window, then the same bytes.
///
/// Params: 11, 12 arbitrary bytes of the histories, 5 concrete bytes of the second one,
/// 0 window, 6 bytes after the window, 13 concrete bytes in the window
pub fn c07<A: Algo>() {
    let w = if A::STREAM { ZSTD_WINDOW } else { param(0) as usize };
    let (la, lb, n) = (param(11) as usize, param(12) as usize, param(6) as usize);
    let cw = (param(13) as usize).min(w);
    let mut a = vec![0u8; la + w + n];
    let pb = param(5) as usize;
    let mut b = vec![0u8; pb + lb + w + n];
    any_bytes(&mut a[..la]);
    fill(&mut b[..pb], param(4));
    any_bytes(&mut b[pb..pb + lb]);
    fill(&mut a[la..la + cw], param(4) + 1);
    any_bytes(&mut a[la + cw..]);
    for i in 0..w + n {
        b[pb + lb + i] = a[la + i];
    }
    let c = A::make();
    let (ea, eb) = (la + w, pb + lb + w);
    let cap = cap();
    let run = |d: &[u8]| match flags() {
        0 => incr_whole::<A>(&c, d, cap, false),
        1 => fce_whole::<A>(&c, d, cap),
        _ => {
            let mut i = c.to_chunk_incr();
            incr_cuts::<A>(&mut i, d, &mut Feed::bytewise(), cap, false)
        }
    };
    let (x, y) = (run(&a), run(&b));
    let (x, y) = if A::STREAM {
        // nothing is reset; the window itself is complete in both
        (x.after(ea), y.after(eb))
    } else {
        // both still within the first chunk
        assume(x.at(0) >= ea && y.at(0) >= eb);
        (x.after(ea - 1), y.after(eb - 1))
    };
    check(same(&x, &y, cap), 701);
    x.observe();
}

// C08 ------------------------------------------------------------------------------------------

fn sizes<A: Algo>(cuts: &Cuts, len: usize, cap: usize, id: u32) {
    let (min, max) = A::limits();
    let mut last = 0;
    for i in 0..cuts.n {
        let n = (cuts.at(i) - last) as u64;
        check(n >= min, id);
        check(n <= max, id + 1);
        last = cuts.at(i);
    }
    if cuts.n < cap {
        check((len - last) as u64 <= max, id + 2);
    }
    cuts.observe();
}

pub fn c08_incr<A: Algo>() {
    let d = input();
    let cap = cap();
    let c = A::make();
    let mut inc = c.to_chunk_incr();
    let cuts = incr_cuts::<A>(&mut inc, &d, &mut Feed::job(), cap, false);
    sizes::<A>(&cuts, d.len(), cap, 801);
}

pub fn c08_fce<A: Algo>() {
    let d = input();
    let cap = cap();
    let eager = flags() & 1 != 0;
    let c = A::make();
    let mut st = c.to_search_state();
    let cuts = fce_cuts::<A>(&c, &mut st, &d, &mut Feed::job(), cap, eager);
    sizes::<A>(&cuts, d.len(), cap, 811);
}

/// every slice of iter_slices() but the last
pub fn c08_iter<A: Algo>() {
    let d = input();
    let c = A::make();
    let (min, max) = A::limits();
    let (mut pos, mut n) = (0, 0);
    for s in c.to_chunk_incr().iter_slices(&d) {
        // known finding: FastCDC's slices are one byte short
        let short = (A::fc_max().is_some() && s.len() as u64 != max) as u64;
        pos += s.len();
        if pos < d.len() {
            check(s.len() as u64 + short >= min, 821);
        }
        check(s.len() as u64 <= max, 822);
        n += 1;
        check(n <= d.len(), 823);
        cover(1);
    }
}

// C09, C10, C11, C12 ---------------------------------------------------------------------------

/// the edges are those of the definition; param 11: first byte to compare at (concrete before)
pub fn def<A: Algo>() {
    let d = input();
    let cap = cap();
    let c = A::make();
    let cuts = match flags() {
        0 => incr_whole::<A>(&c, &d, cap, false),
        1 => fce_whole::<A>(&c, &d, cap),
        2 => {
            let mut i = c.to_chunk_incr();
            incr_cuts::<A>(&mut i, &d, &mut Feed::job(), cap, false)
        }
        3 => {
            let mut st = c.to_search_state();
            fce_cuts::<A>(&c, &mut st, &d, &mut Feed::job(), cap, false)
        }
        _ => {
            let mut i = c.to_chunk_incr();
            incr_cuts::<A>(&mut i, &d, &mut Feed::bytewise(), cap, false)
        }
    };
    is_def::<A>(&cuts, &d, param(11) as usize, cap, 901);
    cuts.observe();
}

/// the edges after `from` are those of the definition
fn is_def<A: Algo>(cuts: &Cuts, d: &[u8], from: usize, cap: usize, id: u32) {
    let (mut start, mut k, mut ok) = (0, 0, true);
    for i in 0..d.len() {
        if k >= cap {
            break;
        }
        let hit = cuts.at(k) == i + 1;
        if i >= from {
            let e = A::edge(&d[start..i + 1]);
            if hit {
                ok &= e;
            } else {
                ok &= !e;
            }
        }
        if hit {
            k += 1;
            if !A::STREAM {
                start = i + 1;
            }
        }
    }
    check(k == cuts.n, id);
    check(ok, id + 1);
}

// C14 ------------------------------------------------------------------------------------------

/// Chunkers and states of one instance, obtained at different times and used alternately, behave
/// like those of separate instances.
pub fn c14_indep<A: Algo>() {
    let a = input();
    let b = input_n(param(4) ^ 1, param(5) as usize, param(11) as usize, 0);
    let cap = cap();
    let want_a = incr_whole::<A>(&A::make(), &a, cap, false);
    let want_b = incr_whole::<A>(&A::make(), &b, cap, false);
    let c = A::make();
    // the states are used in turns, one piece each
    let mut i1 = c.to_chunk_incr();
    let ka = Feed::pieces(1, param(5) as usize).end(0, a.len());
    let x = incr_cuts::<A>(&mut i1, &a[..ka], &mut Feed::whole(), cap, false);
    let mut i2 = c.to_chunk_incr();
    let mut s1 = c.to_search_state();
    let got_b = incr_cuts::<A>(&mut i2, &b, &mut Feed::whole(), cap, false);
    check(same(&got_b, &want_b, cap), 1401);
    let f_a = fce_cuts::<A>(&c, &mut s1, &a, &mut Feed::whole(), cap, false);
    check(same(&f_a, &want_a, cap), 1402);
    let mut got_a = x;
    if x.n < cap {
        let last = if x.n > 0 { x.at(x.n - 1) } else { 0 };
        let y = incr_cuts_from::<A>(&mut i1, &a, ka, last, &mut Feed::whole(), cap - x.n, false);
        for i in 0..y.n {
            got_a.push(y.at(i));
        }
    }
    check(same(&got_a, &want_a, cap), 1403);
    let mut s2 = c.to_search_state();
    let f_b = fce_cuts::<A>(&c, &mut s2, &b, &mut Feed::whole(), cap, false);
    check(same(&f_b, &want_b, cap), 1404);
    got_a.observe();
}

/// An instance with another configuration, made and used before, and in between, is of no
/// influence: the edges are still those of the definition.
pub fn c14_other<A: Algo>() {
    let d = input();
    let e = input_n(param(4) ^ 3, param(5).min(6) as usize, param(11) as usize, 0);
    let cap = cap();
    let mode = param(9);
    let (c, o);
    let use_other = |o: &A::C| {
        incr_whole::<A>(o, &e, cap, true);
        fce_whole::<A>(o, &e, cap);
    };
    if mode & 1 == 0 {
        // the configuration of the job is chosen first
        A::choose();
        o = A::other();
        use_other(&o);
        c = A::make();
    } else {
        c = A::make();
        o = A::other();
    }
    let k = d.len() - d.len() / 3;
    let cuts = if mode & 2 == 0 {
        let mut i = c.to_chunk_incr();
        let mut j = o.to_chunk_incr();
        let mut x = incr_cuts::<A>(&mut i, &d[..k], &mut Feed::whole(), cap, false);
        incr_cuts::<A>(&mut j, &e, &mut Feed::whole(), cap, true);
        if x.n < cap {
            let last = if x.n > 0 { x.at(x.n - 1) } else { 0 };
            let y = incr_cuts_from::<A>(&mut i, &d, k, last, &mut Feed::whole(), cap - x.n, false);
            for i in 0..y.n {
                x.push(y.at(i));
            }
        }
        x
    } else {
        let mut s = c.to_search_state();
        let mut t = o.to_search_state();
        fce_cuts::<A>(&o, &mut t, &e, &mut Feed::whole(), cap, false);
        fce_cuts::<A>(&c, &mut s, &d, &mut Feed::whole(), cap, false)
    };
    is_def::<A>(&cuts, &d, param(12) as usize, cap, 1451);
    cuts.observe();
}

/// a clone in the middle of a stream
pub fn c14_clone_incr<A: Algo>()
where
    Incr<A>: Clone,
{
    let n1 = param(11) as usize;
    let n2 = param(12) as usize;
    let h = input();
    let mut x = h.clone();
    let mut y = h.clone();
    for _ in 0..n1 {
        x.push(any_u8());
    }
    for _ in 0..n2 {
        y.push(any_u8());
    }
    let cap = cap();
    let c = A::make();
    let want_x = incr_whole::<A>(&A::make(), &x, cap, false);
    let want_y = incr_whole::<A>(&A::make(), &y, cap, false);
    let mut i1 = c.to_chunk_incr();
    let base = incr_cuts::<A>(&mut i1, &h, &mut Feed::whole(), cap, false);
    if base.n >= cap {
        return;
    }
    let last = if base.n > 0 { base.at(base.n - 1) } else { 0 };
    let mut i2 = i1.clone();
    let go = |i: &mut Incr<A>, d: &[u8]| {
        let r = incr_cuts_from::<A>(i, d, h.len(), last, &mut Feed::whole(), cap - base.n, false);
        let mut all = base;
        for k in 0..r.n {
            all.push(r.at(k));
        }
        all
    };
    // either one first
    let (gx, gy);
    if choice(2) == 0 {
        gx = go(&mut i1, &x);
        gy = go(&mut i2, &y);
    } else {
        gy = go(&mut i2, &y);
        gx = go(&mut i1, &x);
    }
    check(same(&gx, &want_x, cap), 1411);
    check(same(&gy, &want_y, cap), 1412);
    gx.observe();
}

/// a clone of a search state in the middle of a stream
pub fn c14_clone_state<A: Algo>()
where
    State<A>: Clone,
{
    let n1 = param(11) as usize;
    let n2 = param(12) as usize;
    let h = input();
    let mut x = h.clone();
    let mut y = h.clone();
    for _ in 0..n1 {
        x.push(any_u8());
    }
    for _ in 0..n2 {
        y.push(any_u8());
    }
    let cap = cap();
    let c = A::make();
    let want_x = fce_whole::<A>(&A::make(), &x, cap);
    let want_y = fce_whole::<A>(&A::make(), &y, cap);
    let mut s1 = c.to_search_state();
    let base = fce_cuts::<A>(&c, &mut s1, &h, &mut Feed::whole(), cap, false);
    if base.n >= cap {
        return;
    }
    // what has to be kept, from a second run (the first one does not tell)
    let mut kept = 0;
    {
        let mut s = c.to_search_state();
        loop {
            let (r, discard) = c.find_chunk_edge(&mut s, &h[kept..]);
            kept += discard;
            if r.is_none() {
                break;
            }
        }
    }
    let mut s2 = s1.clone();
    let go = |s: &mut State<A>, d: &[u8]| {
        let r = fce_cuts::<A>(&c, s, &d[kept..], &mut Feed::whole(), cap - base.n, false);
        let mut all = base;
        for k in 0..r.n {
            all.push(kept + r.at(k));
        }
        all
    };
    let (gx, gy);
    if choice(2) == 0 {
        gx = go(&mut s1, &x);
        gy = go(&mut s2, &y);
    } else {
        gy = go(&mut s2, &y);
        gx = go(&mut s1, &x);
    }
    check(same(&gx, &want_x, cap), 1421);
    check(same(&gy, &want_y, cap), 1422);
    gx.observe();
}

/// a clone of the configuration behaves like it
pub fn c14_clone_cfg<A: Algo>()
where
    A::C: Clone,
{
    let d = input();
    let cap = cap();
    let c = A::make();
    let e = c.clone();
    let x = incr_whole::<A>(&c, &d, cap, false);
    let y = incr_whole::<A>(&e, &d, cap, false);
    let z = fce_whole::<A>(&e, &d, cap);
    check(same(&x, &y, cap), 1431);
    check(same(&x, &z, cap), 1432);
    x.observe();
}

/// Chunkers that compare equal, after different histories, go on alike. Params 11, 12: lengths of
/// the histories, 6 of what follows.
pub fn c14_eq_incr<A: Algo>()
where
    Incr<A>: PartialEq,
{
    let mut a = input_n(param(4), param(5) as usize, param(11) as usize, 0);
    let mut b = input_n(param(4), param(5) as usize, param(12) as usize, 0);
    let n = param(6) as usize;
    let c = A::make();
    let mut i1 = c.to_chunk_incr();
    let mut i2 = c.to_chunk_incr();
    let x = incr_cuts::<A>(&mut i1, &a, &mut Feed::whole(), MAX_CUTS, false);
    let y = incr_cuts::<A>(&mut i2, &b, &mut Feed::whole(), MAX_CUTS, false);
    let lx = if x.n > 0 { x.at(x.n - 1) } else { 0 };
    let ly = if y.n > 0 { y.at(y.n - 1) } else { 0 };
    assume(i1 == i2);
    cover(1);
    let (la, lb) = (a.len(), b.len());
    for _ in 0..n {
        let v = any_u8();
        a.push(v);
        b.push(v);
    }
    // FastCDC: equal states have seen equally much of the chunk
    check(A::fc_max().is_none() || la - lx == lb - ly, 1443);
    let x = incr_cuts_from::<A>(&mut i1, &a, la, lx, &mut Feed::whole(), MAX_CUTS, false);
    let y = incr_cuts_from::<A>(&mut i2, &b, lb, ly, &mut Feed::whole(), MAX_CUTS, false);
    check(same(&x.after(la), &y.after(lb), MAX_CUTS), 1441);
}

pub fn c14_eq_state<A: Algo>()
where
    State<A>: PartialEq,
{
    let a = input_n(param(4), param(5) as usize, param(11) as usize, 0);
    let b = input_n(param(4), param(5) as usize, param(12) as usize, 0);
    let n = param(6) as usize;
    let c = A::make();
    let feed = |s: &mut State<A>, d: &[u8]| {
        let mut pos = 0;
        loop {
            let (r, discard) = c.find_chunk_edge(s, &d[pos..]);
            pos += discard;
            if r.is_none() {
                return pos;
            }
        }
    };
    let mut s1 = c.to_search_state();
    let mut s2 = c.to_search_state();
    let p1 = feed(&mut s1, &a);
    let p2 = feed(&mut s2, &b);
    // the bytes to keep are part of the state
    assume(a.len() - p1 == b.len() - p2);
    let mut k = a[p1..].to_vec();
    for i in 0..k.len() {
        assume(k[i] == b[p2 + i]);
    }
    assume(s1 == s2);
    cover(1);
    for _ in 0..n {
        k.push(any_u8());
    }
    let x = fce_cuts::<A>(&c, &mut s1, &k, &mut Feed::whole(), MAX_CUTS, false);
    let y = fce_cuts::<A>(&c, &mut s2, &k, &mut Feed::whole(), MAX_CUTS, false);
    check(same(&x, &y, MAX_CUTS), 1442);
}

// C17 ------------------------------------------------------------------------------------------

/// the edges of the first `n` bytes are those of everything, up to there
fn prefix_of<A: Algo>(part: &Cuts, all: &Cuts, n: usize, cap: usize, raw: bool) -> bool {
    let upto = all.upto(n);
    if raw && A::fc_max().is_some() && upto.n == part.n + 1 && upto.at(part.n) == n {
        // known finding: an edge by content is reported one byte early, and so depends on the
        // byte that follows
        let last = if part.n > 0 { part.at(part.n - 1) } else { 0 };
        cover(1017);
        return same(part, &all.upto(n - 1), cap) && ((n - last) as u64) < A::limits().1;
    }
    same(part, &upto, cap)
}

pub fn c17_incr<A: Algo>() {
    let d = input();
    let cap = cap();
    let raw = flags() & 1 != 0;
    let c = A::make();
    let all = incr_whole::<A>(&c, &d, cap, raw);
    let n = Feed::pieces(1, param(5) as usize).end(0, d.len());
    let part = incr_whole::<A>(&c, &d[..n], cap, raw);
    check(prefix_of::<A>(&part, &all, n, cap, raw), 1701);
    // the same bytes, followed by something else
    let mut e = vec![0u8; d.len().min(n + 3)];
    e[..n].copy_from_slice(&d[..n]);
    any_bytes(&mut e[n..]);
    let other = incr_whole::<A>(&c, &e, cap, raw);
    check(prefix_of::<A>(&part, &other, n, cap, raw), 1702);
    all.observe();
}

pub fn c17_fce<A: Algo>() {
    let d = input();
    let cap = cap();
    let c = A::make();
    let all = fce_whole::<A>(&c, &d, cap);
    let n = Feed::pieces(1, param(5) as usize).end(0, d.len());
    let part = fce_whole::<A>(&c, &d[..n], cap);
    check(same(&part, &all.upto(n), cap), 1703);
    all.observe();
}

/// slices of a prefix: all but the last are slices of the whole
pub fn c17_iter<A: Algo>() {
    let d = input();
    let c = A::make();
    let n = Feed::pieces(1, param(5) as usize).end(0, d.len());
    let mut one = c.to_chunk_incr().iter_slices_strict(&d[..n]);
    let mut all = c.to_chunk_incr().iter_slices_strict(&d);
    let mut pos = 0;
    while let Some(s) = one.next() {
        check(!s.is_empty(), 1711);
        pos += s.len();
        match all.next() {
            Some(t) => check(s.len() == t.len(), 1712),
            None => check(false, 1713),
        }
        cover(1);
    }
    if let Some(t) = all.next() {
        // the next edge is beyond the prefix (known finding: FastCDC's may be at its end)
        let e = pos + t.len();
        check(e > n || (A::fc_max().is_some() && e == n && t.len() as u64 + 1 <= A::limits().1), 1714);
    }
}

// C18 ------------------------------------------------------------------------------------------

/// more than right after creation, but nothing that grows with the data
fn room<A: Algo>() -> u64 {
    2048 + 8 * A::keep()
}

pub fn c18_incr<A: Algo>() {
    let d = input();
    let c = A::make();
    let mut inc = c.to_chunk_incr();
    let base = heap();
    let mut feed = Feed::job();
    let (mut pos, mut n) = (0, 0);
    let cap = cap_any();
    while pos < d.len() {
        let end = feed.end(pos, d.len());
        let mut p = pos;
        loop {
            let r = inc.push(&d[p..end]);
            check(heap() <= base + room::<A>(), 1801);
            match r {
                None => break,
                Some(i) => {
                    n += 1;
                    if n >= cap {
                        cover(1);
                        return;
                    }
                    check(i <= end - p, 1802);
                    p += if A::fc_max().is_some() && i == 0 { 1 } else { i };
                    if p >= end {
                        break;
                    }
                }
            }
        }
        pos = end;
    }
    obs(pos as u64);
    cover(2);
}

pub fn c18_fce<A: Algo>() {
    let d = input();
    let cap = cap_any();
    let eager = flags() & 1 != 0;
    let c = A::make();
    let mut st = c.to_search_state();
    let base = heap();
    let mut feed = Feed::job();
    let (mut s, mut n, mut last) = (0, 0, 0);
    let mut e = feed.end(0, d.len());
    loop {
        let (r, discard) = c.find_chunk_edge(&mut st, &d[s..e]);
        check(discard <= e - s, 1811);
        check(heap() <= base + room::<A>(), 1812);
        match r {
            Some(x) => {
                // from before the edge
                check(x - discard.min(x) <= A::keep() as usize, 1813);
                check(s + x > last, 1814);
                last = s + x;
                n += 1;
                obs(last as u64);
                if n >= cap {
                    cover(1);
                    return;
                }
                s += discard;
                if eager {
                    e = feed.end(e, d.len());
                }
            }
            None => {
                s += discard;
                check((e - s) as u64 <= A::keep(), 1815);
                if e >= d.len() {
                    cover(2);
                    return;
                }
                e = feed.end(e, d.len());
            }
        }
    }
}
