//! Runs one scenario natively with the values of a replay file.
//!
//! replay FILE: exit 0 if it ends normally (observations on stdout), 10 on a failed assertion,
//! 11 when an assumption does not hold, 12 when the file does not fit, 101 on a panic.

use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::{HashMap, VecDeque};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

struct Count;
static LIVE: AtomicU64 = AtomicU64::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        // as the symbolic executor does
        if l.size() > 1 << 30 {
            return std::ptr::null_mut();
        }
        LIVE.fetch_add(l.size() as u64, Ordering::Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as u64, Ordering::Relaxed);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Count = Count;

enum Item {
    Sym(u32, u64),
    Choice(u64),
}

struct Replay {
    params: HashMap<u32, u64>,
    items: VecDeque<Item>,
    uf: HashMap<(u32, u64), u64>,
}

static R: Mutex<Option<Replay>> = Mutex::new(None);

fn bad(why: &str) -> ! {
    println!("mismatch {}", why);
    std::process::exit(12)
}

/// the bookkeeping of the replay does not count
fn with<T>(f: impl FnOnce(&mut Replay) -> T) -> T {
    let n = LIVE.load(Ordering::Relaxed);
    let r = f(R.lock().unwrap().as_mut().unwrap());
    LIVE.store(n, Ordering::Relaxed);
    r
}

fn sym(w: u32) -> u64 {
    with(|r| match r.items.pop_front() {
        Some(Item::Sym(x, v)) if x == w => v,
        _ => bad("symbolic value expected"),
    })
}

#[no_mangle]
extern "C" fn hr_sym_u8() -> u8 {
    sym(8) as u8
}
#[no_mangle]
extern "C" fn hr_sym_u16() -> u16 {
    sym(16) as u16
}
#[no_mangle]
extern "C" fn hr_sym_u32() -> u32 {
    sym(32) as u32
}
#[no_mangle]
extern "C" fn hr_sym_u64() -> u64 {
    sym(64)
}
#[no_mangle]
extern "C" fn hr_choice(n: u64) -> u64 {
    with(|r| match r.items.pop_front() {
        Some(Item::Choice(v)) if v < n => v,
        _ => bad("choice expected"),
    })
}
#[no_mangle]
extern "C" fn hr_param(i: u32) -> u64 {
    with(|r| r.params.get(&i).copied().unwrap_or(0))
}
#[no_mangle]
extern "C" fn hr_id(v: u64) -> u64 {
    v
}
#[no_mangle]
extern "C" fn hr_assume(b: bool) {
    if !b {
        println!("assumption");
        std::process::exit(11);
    }
}
#[no_mangle]
extern "C" fn hr_assert(b: bool, id: u32) {
    if !b {
        println!("assertion {}", id);
        std::process::exit(10);
    }
}
#[no_mangle]
extern "C" fn hr_cover(_: u32) {}
#[no_mangle]
extern "C" fn hr_obs(v: u64) {
    let n = LIVE.load(Ordering::Relaxed);
    println!("obs {}", v);
    LIVE.store(n, Ordering::Relaxed);
}
#[no_mangle]
extern "C" fn hr_heap() -> u64 {
    LIVE.load(Ordering::Relaxed)
}
#[no_mangle]
extern "C" fn hr_uf32(id: u32, arg: u8) -> u32 {
    with(|r| r.uf.get(&(id, arg as u64)).copied().unwrap_or(0) as u32)
}
#[no_mangle]
unsafe extern "C" fn hr_table32(p: *mut u32, id: u32) {
    for i in 0..256 {
        *p.add(i) = with(|r| r.uf.get(&(id, i as u64)).copied().unwrap_or(0) as u32);
    }
}
#[no_mangle]
unsafe extern "C" fn hr_table64(p: *mut u64, id: u32) {
    for i in 0..256 {
        *p.add(i) = with(|r| r.uf.get(&(id, i as u64)).copied().unwrap_or(0));
    }
}

fn main() {
    let path = std::env::args().nth(1).expect("replay file");
    let txt = std::fs::read_to_string(&path).expect("replay file");
    let mut r = Replay { params: HashMap::new(), items: VecDeque::new(), uf: HashMap::new() };
    let mut func = None;
    for l in txt.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        let n = |i: usize| w[i].parse::<u64>().unwrap();
        match w.first() {
            Some(&"func") => func = harness::find(w[1]),
            Some(&"param") => {
                r.params.insert(n(1) as u32, n(2));
            }
            Some(&"choice") => r.items.push_back(Item::Choice(n(1))),
            Some(&"uf") => {
                r.uf.insert((n(1) as u32, n(2)), n(3));
            }
            Some(s) if s.starts_with("sym") => {
                r.items.push_back(Item::Sym(s[3..].parse().unwrap(), n(1)))
            }
            _ => {}
        }
    }
    let f = match func {
        Some(f) => f,
        None => bad("no such scenario"),
    };
    *R.lock().unwrap() = Some(r);
    // force the allocations of stdout
    println!("start");
    f();
    println!("done");
}
