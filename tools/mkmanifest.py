"""writes MANIFEST.json and the 'fixed' part of known_findings.json"""
import json

V = "/verif/"
props = [json.loads(l) for l in open(V + "properties.jsonl")]
NOTE = ("Holds for every input within the bounds of the jobs in plan.py (configuration, concrete prefix, number of symbolic bytes, "
        "pieces), which the evidence lists one by one; nothing is claimed beyond them. Trusts rustc/LLVM, the engine's semantics of "
        "LLVM IR (compared with native runs on sampled paths of every job), and z3. Counterexamples count once they fail natively. ")
EXTRA = dict(
    C09="The oracle is the window definition written from scratch in harness/src/algo.rs.",
    C10="The oracle is the hash definition written from scratch in harness/src/algo.rs.",
    C11="The oracle is the rule written from scratch in harness/src/algo.rs.",
    C12="Tables are compared with independent copies in harness/src/tables.rs.",
    C14="Independence within one process; the library has no threads and no global state, which the engine would see as a write to a global.",
    C18="Allocation is bounded by what the engine's allocator records for the chunker, not by the process' resident memory.",
)
NA = {"C19": "the expected chunk size is a statistical statement over random data; for a fixed input there is no assertion an SMT "
             "solver could decide, and the distribution over all inputs of realistic length (thousands of bytes) is out of reach of "
             "model counting. The parameters that determine it (masks, limits) are decided under C10 and C12."}
checks = []
for p in props:
    i = p["id"]
    if i in NA:
        continue
    checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                       technique="symbolic execution of the compiled LLVM IR, decided by SMT (z3)",
                       level="model_checking", level_note=NOTE + EXTRA.get(i, "")))
m = dict(version=1, setup_cmd="cargo build --release --offline --manifest-path engine/Cargo.toml", checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
         notes="No hooks: the harness uses the public interface only.")
json.dump(m, open(V + "MANIFEST.json", "w"), indent=1)

FIXED = [
    ("C05", "bd1f334", "RollSumIncr kept rolling over the finished chunk after an edge, unlike find_chunk_edge() (also C06)"),
    ("C16", "d31bea2", "RollSumIncr wrapped its window index with len - 1 as a mask, wrong for windows that are no power of two (also C03, C07, C09)"),
    ("C09", "1b1e2e5", "buzhash rotated the leaving byte's hash by k % 8 instead of k % 32, so it stayed in the hash (also C07)"),
    ("C08", "4f2dee3", "buzhash find_chunk_edge() ignored max_chunk_size (also C05)"),
    ("C08", "4540b7e", "FastCDC find_chunk_edge() emitted chunks of max_size + 1, or an edge past the end of the slice (also C01, C05)"),
    ("C05", "f9487f9", "GearIncr32::push() returned the index of the last byte of the chunk (also C01, C02)"),
    ("C05", "2ccb3b2", "RamIncr::push() returned the index of the last byte of the chunk (also C01, C02)"),
    ("C05", "3e78567", "ZstdIncr::push() returned the index of the last byte of the chunk (also C01, C02)"),
    ("C04", "ae54275", "zstd find_chunk_edge() discarded the data after an edge unseen (also C05)"),
    ("C05", "8a5cdc2", "zpaq find_chunk_edge() applied minimum and maximum one byte early (also C10)"),
    ("C12", "7ddd930", "zpaq's default range had a maximum 1024 times too large"),
    ("C05", "552a6ba", "MiiIncr treated the first byte after a split as an increment, unlike find_chunk_edge() (also C06, C11)"),
    ("C08", "2680145", "zpaq emitted chunks one byte longer than the configured range allows"),
    ("C12", "e37debd", "zpaq's average derived from a maximum was max / 4096, panicking for small maxima (also C13)"),
]
k = json.load(open(V + "known_findings.json"))
k["fixed"] = ["fixed: property=%s %s %s" % f for f in FIXED]
json.dump(k, open(V + "known_findings.json", "w"), indent=1)
