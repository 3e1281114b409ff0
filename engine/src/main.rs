mod exec;
mod ir;
mod solver;
mod term;

use exec::{Exec, Job};
use std::collections::BTreeSet;
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn rss_mb() -> u64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| {
            s.split_whitespace()
                .nth(1)
                .and_then(|x| x.parse::<u64>().ok())
        })
        .unwrap_or(0)
        / 256
}

/// hrsym MODULE.ll JOBS THREADS SECONDS SAMPLES
///
/// JOBS has one job per line: name must(0/1) seconds steps shard_i shard_n function params...
/// One JSON object per finished job goes to stdout, a last one with the coverage.
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let src = std::fs::read_to_string(&a[1]).expect("module");
    let jobs_txt = std::fs::read_to_string(&a[2]).expect("jobs");
    let threads: usize = a[3].parse().unwrap();
    let secs: f64 = a[4].parse().unwrap();
    let samples: usize = a[5].parse().unwrap();
    let t0 = Instant::now();
    let m = match ir::parse(&src) {
        Ok(m) => m,
        Err(e) => {
            println!("{{\"fatal\": {}}}", js(&format!("IR: {}", e)));
            std::process::exit(3);
        }
    };
    eprintln!(
        "parsed {} functions, {} globals in {:.2}s",
        m.funcs.len(),
        m.globals.len(),
        t0.elapsed().as_secs_f64()
    );
    let mut jobs = vec![];
    for l in jobs_txt.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        if w.is_empty() || w[0].starts_with('#') {
            continue;
        }
        let n: u64 = w[5].parse().unwrap();
        jobs.push(Job {
            name: w[0].into(),
            must: w[1] == "1",
            max_secs: w[2].parse().unwrap(),
            steps: w[3].parse().unwrap(),
            shard: if n > 1 {
                Some((w[4].parse().unwrap(), n))
            } else {
                None
            },
            func: w[6].into(),
            params: w[7..].iter().map(|x| x.parse().unwrap()).collect(),
            idx: jobs.len(),
        });
    }
    std::thread::spawn(solver::watchdog);
    let seed: u64 = std::env::var("HRSYM_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(0);
    exec::SEED.store(seed, Ordering::Relaxed);
    let deadline = Instant::now() + Duration::from_secs_f64(secs);
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let out = Mutex::new(());
    let cov: Mutex<(Vec<bool>, Vec<bool>)> = Mutex::new((
        vec![false; m.max_md as usize + 1],
        vec![false; m.funcs.len()],
    ));
    let over = AtomicBool::new(false);
    let left = AtomicUsize::new(threads);
    std::thread::scope(|s| {
        // rather stop than be ended for want of memory
        s.spawn(|| {
            while !over.load(Ordering::Relaxed) {
                if rss_mb() > 20_000 {
                    stop.store(true, Ordering::Relaxed);
                }
                std::thread::sleep(Duration::from_millis(50));
            }
        });
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(1 << 30)
                .spawn_scoped(s, || {
                    loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= jobs.len() || stop.load(Ordering::Relaxed) {
                        break;
                    }
                    let j = jobs[i].clone();
                    let line;
                    if Instant::now() > deadline {
                        line = format!(
                            "{{\"job\": {}, \"i\": {}, \"status\": \"not started\"}}",
                            js(&j.name),
                            i
                        );
                    } else {
                        let mut e = Exec::new(&m, j.clone(), deadline, &stop, samples);
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                            e.explore()
                        }));
                        if r.is_err() {
                            e.res.status = "error: internal".into();
                        }
                        {
                            let mut c = cov.lock().unwrap_or_else(|e| e.into_inner());
                            for (x, y) in c.0.iter_mut().zip(&e.cov) {
                                *x |= *y;
                            }
                            for (x, y) in c.1.iter_mut().zip(&e.fcov) {
                                *x |= *y;
                            }
                        }
                        let r = &e.res;
                        let st = &e.solver.stats;
                        let viol: Vec<String> = r
                            .violations
                            .iter()
                            .map(|(w, t)| format!("{{\"what\": {}, \"replay\": {}}}", js(w), js(t)))
                            .collect();
                        let sam: Vec<String> = r
                            .samples
                            .iter()
                            .map(|(t, o)| {
                                let o: Vec<String> = o.iter().map(|x| x.to_string()).collect();
                                format!("{{\"replay\": {}, \"obs\": [{}]}}", js(t), o.join(","))
                            })
                            .collect();
                        let cv: Vec<String> = r.covers.iter().map(|c| c.to_string()).collect();
                        line = format!(
                            "{{\"job\": {}, \"i\": {}, \"status\": {}, \"paths\": {}, \"pruned\": {}, \"forks\": {}, \"instrs\": {}, \"asserts\": {}, \"folded\": {}, \"rewritten\": {}, \"by_solver\": {}, \"unknown_asserts\": {}, \"unknown_branches\": {}, \"undecided\": {}, \"guessed\": {}, \"queries\": {}, \"sat\": {}, \"unsat\": {}, \"unknown\": {}, \"hard\": {}, \"solver_s\": {:.3}, \"max_query_s\": {:.3}, \"terms\": {}, \"inputs\": {}, \"secs\": {:.3}, \"covers\": [{}], \"violations\": [{}], \"samples\": [{}]}}",
                            js(&j.name), i, js(&r.status), r.paths, r.pruned, r.forks, r.instrs, r.asserts,
                            r.asserts_folded, r.rewritten, r.asserts_solver, r.asserts_unknown, r.unknown_branches, r.paths_undecided, st.guessed,
                            st.queries, st.sat, st.unsat, st.unknown, st.hard, st.time, st.max_time,
                            r.terms, r.max_inputs, r.secs, cv.join(","), viol.join(","), sam.join(",")
                        );
                    }
                    let _g = out.lock().unwrap();
                    let mut o = std::io::stdout().lock();
                    let _ = writeln!(o, "{}", line);
                    let _ = o.flush();
                    }
                    if left.fetch_sub(1, Ordering::SeqCst) == 1 {
                        over.store(true, Ordering::Relaxed);
                    }
                })
                .unwrap();
        }
    });
    // coverage by source location
    let c = cov.lock().unwrap();
    let mut lines: BTreeSet<(String, u32)> = BTreeSet::new();
    let mut funcs: BTreeSet<(String, String)> = BTreeSet::new();
    for (d, hit) in c.0.iter().enumerate() {
        if *hit {
            if let Some((f, file, l)) = m.where_is(d as u32) {
                lines.insert((file.clone(), l));
                funcs.insert((f, file));
            }
        }
    }
    let l: Vec<String> = lines
        .iter()
        .map(|(f, n)| format!("[{}, {}]", js(f), n))
        .collect();
    let f: Vec<String> = funcs
        .iter()
        .map(|(f, n)| format!("[{}, {}]", js(f), js(n)))
        .collect();
    println!(
        "{{\"lines\": [{}], \"functions\": [{}]}}",
        l.join(","),
        f.join(",")
    );
}
