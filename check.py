#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decide one property for the current tree of /repo.

Compiles the scenarios of harness/ together with /repo's source to LLVM IR, has engine/ execute
them symbolically (z3 decides), replays every counterexample natively, compares sampled paths with
native runs, and writes evidence/ID.json.  `check.py replay FILE` runs one replay file.
"""
import concurrent.futures as cf
import json
import os
import random
import shutil
import subprocess
import sys
import threading
import time

V = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, V)
import plan

REPO = "/repo"
CORES = max(1, min(8, os.cpu_count() or 8))
ENV = dict(os.environ, CARGO_NET_OFFLINE="true")
ENV.setdefault("RUSTUP_TOOLCHAIN", "stable-x86_64-unknown-linux-gnu")
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"):
    ENV.pop(k, None)


class Failed(Exception):
    pass


def sh(cmd, cwd=None, env=None, out=None):
    r = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=out or subprocess.PIPE, stderr=subprocess.PIPE, text=out is None)
    if r.returncode:
        e = r.stderr if isinstance(r.stderr, str) else r.stderr.decode("utf8", "replace")
        raise Failed("%s: exit %d\n%s" % (" ".join(cmd[:6]), r.returncode, e[-3000:]))
    return r.stdout


def engine():
    sh(["cargo", "build", "--release", "--offline"], cwd=V + "/engine")
    return V + "/engine/target/release/hrsym"


def make_ir(d):
    """the scenarios, hash-roll, and what they use of core and alloc, as one module"""
    t = d + "/ir-target"
    env = dict(ENV, CARGO_TARGET_DIR=t,
               RUSTFLAGS="--emit=llvm-bc,link -C no-vectorize-loops -C no-vectorize-slp")
    sh(["cargo", "build", "--release", "--offline"], cwd=V + "/harness", env=env)
    s = sh(["rustc", "--print", "sysroot"]).strip() + "/lib/rustlib/x86_64-unknown-linux-gnu"
    b = s + "/bin/"
    deps = t + "/release/deps/"
    bcs = sorted(deps + f for f in os.listdir(deps) if f.endswith(".bc"))
    sh([b + "llvm-link"] + bcs + ["-o", d + "/all.bc"])
    std = []
    for l in ("core", "alloc", "std"):
        o = d + "/" + l
        os.mkdir(o)
        lib = [f for f in os.listdir(s + "/lib") if f.startswith("lib%s-" % l) and f.endswith(".rlib")][0]
        sh([b + "llvm-ar", "x", s + "/lib/" + lib], cwd=o)
        for f in sorted(os.listdir(o)):
            bc = d + "/" + l + ".bc"
            if f.endswith(".o") and subprocess.run(
                    [b + "llvm-objcopy", "--dump-section=.llvmbc=" + bc, o + "/" + f],
                    stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0:
                std.insert(0, bc)
                break
        else:
            raise Failed("no bitcode in lib" + l)
    sh([b + "llvm-link", d + "/all.bc", "--only-needed"] + std + ["-o", d + "/all2.bc"])
    names = [w[2] for w in (x.split() for x in sh([b + "llvm-nm", "--defined-only", d + "/all.bc"]).splitlines())
             if len(w) == 3 and w[1] == "T" and not w[2].startswith("_")]
    sh([b + "opt", "-passes=internalize,globaldce,scalarizer<load-store>", "--internalize-public-api-list=" + ",".join(names),
        d + "/all2.bc", "-S", "-o", d + "/all.ll"])
    return d + "/all.ll"


def make_replay(d):
    t = d + "/replay-target"
    env = dict(ENV, CARGO_TARGET_DIR=t)
    out = []
    for prof in ([], ["--release"]):
        sh(["cargo", "build", "--offline"] + prof, cwd=V + "/replay", env=env)
    return [t + "/debug/replay", t + "/release/replay"]


def native(bins, path, limit=30):
    """results of the native builds: (kind, detail, observations)"""
    res = []
    for b in bins:
        try:
            r = subprocess.run([b, path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=limit,
                               env=dict(ENV, RUST_BACKTRACE="0"))
            c, out, e = r.returncode, r.stdout, r.stderr
        except subprocess.TimeoutExpired:
            c, out, e = "timeout", "", ""
        obs = [int(l[4:]) for l in out.splitlines() if l.startswith("obs ")]
        last = out.splitlines()[-1] if out else ""
        kind = {0: "ok", 10: "assertion", 11: "assumption", 12: "mismatch", 101: "panic", "timeout": "no end"}.get(c, "crash")
        if kind == "ok" and last != "done":
            kind = "crash"
        what = last if kind in ("assertion", "mismatch") else ""
        if kind == "panic":
            what = " ".join(x.strip() for x in e.splitlines() if x.strip() and "RUST_BACKTRACE" not in x)[:300]
        if kind == "crash":
            what = "exit %s" % c
        res.append((kind, what, obs))
    return res


BAD = ("assertion", "panic", "no end", "crash")


def run(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ev = V + "/evidence"
    os.makedirs(ev + "/replays", exist_ok=True)
    for f in os.listdir(ev + "/replays"):
        if f.startswith(prop + "-"):
            os.unlink(ev + "/replays/" + f)
    d = V + "/build/run-%d" % os.getpid()
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        return check(prop, tier, seed, ev, d, t0)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def costs():
    try:
        return json.load(open(V + "/costs.json"))
    except Exception:
        return {}


def ordered(prop, tier):
    """the jobs, those that take longest first; what deepens the exploration comes later"""
    c = costs()
    if tier == "quick":
        j = plan.jobs(prop, 0)
        return sorted(j, key=lambda j: -c.get(j.name(), j.weight))
    out, seen = [], set()
    for depth in range(0, 5):
        new = [j for j in plan.jobs(prop, depth) if j.key() not in seen]
        seen.update(j.key() for j in new)
        # each job of the cheap kinds has its turn before the time is up
        new.sort(key=lambda j: j.weight)
        out += new
    return out


def check(prop, tier, seed, ev, d, t0):
    known = json.load(open(V + "/known_findings.json"))["findings"]
    with cf.ThreadPoolExecutor(3) as ex:
        fe, fi, fr = ex.submit(engine), ex.submit(make_ir, d), ex.submit(make_replay, d)
        hr, ll, bins = fe.result(), fi.result(), fr.result()
    built = time.time() - t0
    jobs = ordered(prop, tier)
    total = float(os.environ.get("VERIF_SECONDS", "400" if tier == "quick" else "780"))
    secs = max(10.0, total - built)
    per = 90 if tier == "quick" else max(60, secs / 4)
    with open(d + "/jobs", "w") as f:
        for j in jobs:
            f.write("%s 1 %d %d 0 1 %s %s\n" % (j.name(), per, 300_000_000, j.func, " ".join(map(str, j.all()))))
    samples = 2
    log = open(d + "/log", "w")
    p = subprocess.Popen([hr, ll, d + "/jobs", str(CORES), "%.1f" % secs, str(samples)], stdout=subprocess.PIPE, stderr=log,
                         text=True, env=dict(ENV, HRSYM_SEED=str(seed)))
    # should the engine not keep to its time
    timer = threading.Timer(secs + 40, p.kill)
    timer.start()
    res, cover, confirmed, unconfirmed, nrep = [], None, [], [], 0
    for line in p.stdout:
        try:
            r = json.loads(line)
        except ValueError:
            continue
        if "lines" in r:
            cover = r
            continue
        if "job" not in r:
            raise Failed(line)
        res.append(r)
        for v in r.get("violations", []):
            nrep += 1
            path = "%s/replays/%s-%d.replay" % (ev, prop, nrep)
            with open(path, "w") as f:
                f.write("# property %s\n# job %s\n# %s\n%s" % (prop, r["job"], v["what"], v["replay"]))
            n = native(bins, path)
            if any(k[0] in BAD for k in n):
                confirmed.append(dict(job=r["job"].replace("|", " "), what=v["what"],
                                      native=["%s %s" % k[:2] for k in n], replay=path))
            else:
                unconfirmed.append(dict(job=r["job"].replace("|", " "), what=v["what"], native=["%s %s" % k[:2] for k in n]))
                r["unconfirmed"] = True
                os.unlink(path)
        if confirmed:
            # one counterexample is enough
            p.kill()
            break
    p.wait()
    timer.cancel()
    engine_s = time.time() - t0 - built

    # sampled paths against the real code
    rnd = random.Random(seed)
    cases = [(r, s) for r in res if "samples" in r for s in r["samples"]]
    rnd.shuffle(cases)
    if confirmed:
        cases = []
    matched, mismatches = 0, []
    tested = 0

    def one(k):
        i, (r, s) = k
        path = d + "/s%d" % i
        with open(path, "w") as f:
            f.write(s["replay"])
        return r, s, native(bins[i % 2:i % 2 + 1], path)[0]

    left = max(20.0, total - (time.time() - t0) + 20)
    end = time.time() + left
    with cf.ThreadPoolExecutor(CORES) as ex:
        for r, s, n in ex.map(lambda k: one(k) if time.time() < end else None, enumerate(cases)):
            tested += 1
            if n[0] == "ok" and n[2] == s["obs"]:
                matched += 1
            elif n[0] in BAD:
                nrep += 1
                path = "%s/replays/%s-%d.replay" % (ev, prop, nrep)
                with open(path, "w") as f:
                    f.write("# property %s\n# job %s\n# sampled path\n%s" % (prop, r["job"], s["replay"]))
                confirmed.append(dict(job=r["job"].replace("|", " "), what="sampled path", native=["%s %s" % n[:2]], replay=path))
            else:
                mismatches.append(dict(job=r["job"].replace("|", " "), native=n[:2], expected=s["obs"][:20], got=n[2][:20]))
                r["mismatch"] = True

    if os.environ.get("VERIF_COSTS"):
        # for the order of the jobs, see ordered()
        c = costs()
        c.update((r["job"], round(r["secs"], 1)) for r in res if r.get("secs", 0) >= 0.5)
        for r in res:
            if r.get("secs", 9) < 0.5:
                c[r["job"]] = 0
        json.dump(dict(sorted((k, v) for k, v in c.items())), open(V + "/costs.json", "w"), indent=0)

    def tot(k):
        return sum(r.get(k, 0) for r in res)

    full = [r for r in res if r["status"] == "done" and not r["unknown_asserts"] and not r["undecided"] and not r["violations"]
            and not r.get("mismatch")]
    part = [r for r in res if r not in full and not r.get("violations")]
    covers = set(c for r in res for c in r.get("covers", []))
    lines = [] if cover is None else [(f.split("|")[-1], n) for f, n in cover["lines"] if f.startswith("/repo|")]
    funcs = [] if cover is None else sorted(set("%s (%s)" % (a, b.split("|")[-1]) for a, b in cover["functions"] if b.startswith("/repo|")))
    per_file = {}
    for f, _ in lines:
        per_file[f] = per_file.get(f, 0) + 1
    asserted = tot("folded") + tot("by_solver")
    cov = dict(
        states=tot("paths"),
        transitions=tot("forks") + tot("paths"),
        traces_validated_against_impl=matched,
        samples=[dict(job=r["job"].replace("|", " "), replay=s["replay"].split("\n"), observed=s["obs"]) for r, s in cases[:4]],
        explanation="states: paths of the program explored symbolically to their end (each stands for all inputs that take it); "
                    "transitions: forks at branches, choices and addresses that depend on symbolic values, plus path ends; "
                    "traces: paths run natively with a model of the path, observations equal",
        exhaustive=len(full) == len(jobs),
        jobs=len(jobs), jobs_decided=len(full), jobs_partly_decided=len([r for r in part if r.get("paths", 0) > 0]),
        jobs_not_started=len(jobs) - len(res) + len([r for r in res if r["status"] == "not started"]),
        bounds=[dict(job=r["job"].replace("|", " "), paths=r["paths"], symbolic_inputs=r["inputs"]) for r in full],
        undecided=[dict(job=r["job"].replace("|", " "), status=r["status"], paths=r.get("paths", 0),
                        unknown_assertions=r.get("unknown_asserts", 0), undecided_paths=r.get("undecided", 0))
                   for r in part][:400],
        assertions=dict(total=tot("asserts"), decided_by_simplification=tot("folded"), decided_by_solver=tot("by_solver"),
                        unknown=tot("unknown_asserts")),
        solver=dict(name="z3-new (z3)", queries=tot("queries"), sat=tot("sat"), unsat=tot("unsat"), unknown=tot("unknown"),
                    models_found_by_search=tot("guessed"), seconds=round(tot("solver_s"), 2),
                    longest_query_s=max([r.get("max_query_s", 0) for r in res] or [0])),
        instructions=tot("instrs"), pruned_paths=tot("pruned"),
        without_edge_or_vacuous=[r["job"].replace("|", " ") for r in full if not r["covers"]],
        functions_encoded=funcs, source_lines_executed=per_file,
        native_runs=tested, mismatches=mismatches, unconfirmed_counterexamples=unconfirmed, counterexamples=confirmed,
        seconds=dict(build=round(built, 1), engine=round(engine_s, 1)),
    )
    lost = [r for r in part if r["status"] not in ("not started", "deadline", "done")]
    for r in lost[:20]:
        print("UNDECIDED %s: %s" % (r["job"].replace("|", " "), r["status"]))
    for u in unconfirmed[:20]:
        print("UNDECIDED %(job)s: counterexample (%(what)s) not confirmed natively" % u)
    for u in mismatches[:20]:
        print("UNDECIDED %(job)s: symbolic and native run differ" % u)
    for k in known:
        if k["property"] == prop and (k["cover"] in covers or confirmed):
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what_fails"]))
    out = dict(
        property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov, assumptions=ASSUME,
        wall_s=round(time.time() - t0, 1), violations=len(confirmed))
    with open("%s/%s.json" % (ev, prop), "w") as f:
        json.dump(out, f, indent=1)
    print("%s %s: %d of %d jobs decided, %d paths, %d assertions, %d queries (%.1f s), %d native runs, %.0f s" % (
        prop, tier, len(full), len(jobs), cov["states"], cov["assertions"]["total"], cov["solver"]["queries"],
        cov["solver"]["seconds"], tested, time.time() - t0))
    if confirmed:
        c = confirmed[0]
        print("counterexample: %s: %s; natively: %s" % (c["job"], c["what"], "; ".join(c["native"])))
        print("VIOLATION property=%s replay=%s" % (prop, c["replay"]))
        return 1
    if not full:
        print(open(d + "/log").read()[-2000:])
        print("nothing could be decided")
        return 2
    return 0


ASSUME = [
    "rustc and LLVM translate the source to the optimised IR the engine executes correctly; the native debug build of every "
    "counterexample and of sampled paths is compared with it",
    "the engine's semantics of LLVM IR (engine/src/exec.rs) and its term simplifier; compared with native runs on sampled paths",
    "z3's answers",
    "allocation succeeds (up to 1 GiB)",
    "nothing is claimed outside the bounds listed per job: configuration, concrete prefix, number of symbolic bytes, "
    "number of pieces the data is cut into, number of edges followed (0: all)",
    "gear, buzhash and ZPAQ tables: as in the harness (arbitrary, or those of the library), see DESIGN.md",
]


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "replay":
        d = V + "/build/run-%d" % os.getpid()
        os.makedirs(d)
        try:
            bins = make_replay(d)
            bad = False
            for b, n in zip(("debug", "release"), native(bins, os.path.abspath(sys.argv[2]))):
                print(b, n[0], n[1], n[2])
                bad |= n[0] in BAD
            return 1 if bad else 0
        finally:
            shutil.rmtree(d, ignore_errors=True)
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        return run(prop, tier)
    except Failed as e:
        print("FAILED", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
