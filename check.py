#!/usr/bin/env python3
"""Build the harness against /repo's working tree and decide one property.

  check.py run ID [quick|thorough]   decide a property (tier defaults to $VERIF_TIER or quick)
  check.py replay FILE               repeat the case of a replay file and print its steps
  check.py setup                     build everything
"""
import json, os, shutil, subprocess, sys, time, glob
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
TARGET = os.path.join(ROOT, "target")
# the builds the project itself documents; the B-tree and try_vec! exist only in the third
CONFIGS = {
    "A": ("stable", "hashmap", "stable, features hashmap (hashbrown)"),
    "B": ("stable", "hashmap,std_io", "stable, features hashmap,std_io (std hash map)"),
    "C": ("nightly-2024-11-07", "unstable,std_io", "nightly-2024-11-07, features unstable,std_io"),
    # as C, but as users ship it: without debug assertions, a broken invariant is undefined behaviour and not a panic.
    # Only C18 accepts panics, so only there the assertions of C could hide something.
    "R": ("nightly-2024-11-07", "unstable,std_io", "nightly-2024-11-07, features unstable,std_io, no debug assertions"),
}
WHERE = {
    "C01": "ABC", "C02": "BC", "C03": "BC", "C04": "ABC", "C05": "ABC", "C13": "ABC", "C14": "AB",
    "C15": "BC", "C16": "BC", "C17": "BC", "C18": "ABCR", "C19": "ABC", "C20": "BC", "C21": "BC", "C22": "ABC", "C23": "ABC",
    "C06": "C", "C07": "C", "C08": "C", "C09": "C", "C10": "C", "C11": "C", "C12": "C",
}
ASSUME = [
    "the allocator ledger, element registry and reference models of the harness (mc/src) are right; mutation runs exercise them",
    "containers are generic over their elements, so behaviour on the enumerated keys stands for all keys with the same order",
]

def env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e

def build(c):
    tc, feats, _ = CONFIGS[c]
    td = os.path.join(TARGET, c)
    e = env()
    e["RUSTUP_TOOLCHAIN"] = tc
    e["CARGO_TARGET_DIR"] = td
    checked = "false" if c == "R" else "true"
    e["CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS"] = checked
    e["CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS"] = checked
    # cargo compares mtimes only: forget the freshness of what /repo may have changed
    for d in glob.glob(os.path.join(td, "release/.fingerprint/fallible_collections-*")):
        shutil.rmtree(d, ignore_errors=True)
    p = subprocess.run(["cargo", "build", "--release", "--offline", "--locked", "--manifest-path",
                        os.path.join(ROOT, "mc/Cargo.toml"), "--features", feats],
                       env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stdout.write(p.stdout[-6000:])
        print(f"check.py: the harness does not build in configuration {c}")
        return False
    return True

def build_all(cs):
    with ThreadPoolExecutor(len(cs)) as ex:
        return all(list(ex.map(build, cs)))

def run(pid, tier):
    t0 = time.time()
    cs = WHERE[pid]
    if not build_all(cs):
        return 2
    t1 = time.time()
    rc = 0
    out = {}
    known_path = os.path.join(ROOT, "known_findings.txt")
    tmp = os.path.join(TARGET, "out")
    os.makedirs(tmp, exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    for c in cs:
        f = os.path.join(tmp, f"{pid}.{c}.json")
        if os.path.exists(f):
            os.remove(f)
        p = subprocess.run([os.path.join(TARGET, c, "release/mc"), "run", pid, tier, f,
                            os.path.join(ROOT, "replays"), known_path, c],
                           env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        sys.stdout.write(p.stdout)
        sys.stdout.flush()
        if p.returncode == 3:
            continue
        if p.returncode not in (0, 1):
            print(f"check.py: harness error {p.returncode} in configuration {c}")
            return 2
        rc = max(rc, p.returncode)
        out[c] = json.load(open(f))
        if p.returncode == 1:
            break
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0}
    samples, per, known, viol = [], {}, {}, 0
    nontriv = 0
    for c, d in out.items():
        b = d["body"]
        viol += len(d["violations"])
        if not b:
            continue
        cov["states"] += b["states"]
        cov["transitions"] += b["steps"]
        cov["traces_validated_against_impl"] += b["evals"]
        nontriv += b["nontrivial"]
        per[c] = {"build": CONFIGS[c][2], "seconds": d["wall_s"], "sections": b["sections"],
                  "counters": b["counters"], "maxima": b["maxima"]}
        for s in b["samples"]:
            samples.append({"config": c, **s})
        for k in b["known"]:
            known.setdefault(k["key"], []).append({"config": c, "times": k["times"], "case": k["case"]})
    if os.path.exists(known_path):
        for line in open(known_path):
            t = line.split()
            if t[:1] == ["known:"] and f"property={pid}" in t:
                key = [x[4:] for x in t if x.startswith("key=")][0]
                text = line.split(f"key={key}", 1)[1].strip()
                if key in known:
                    print(f"KNOWN-FINDING: property={pid} {text} [{key}]")
    cov["nontrivial_traces"] = nontriv
    cov["rule"] = ("every case is enumerated, none sampled; states are distinct observed container states, transitions are "
                   "operations executed on the real code in lockstep with the reference model, traces are complete histories "
                   "from an initial state; non-trivial: a request was refused, caller code misbehaved, or the judged condition applied")
    cov["samples"] = samples[:12] or [{"note": "no sample: a violation ended the run"}]
    cov["exhaustive"] = viol == 0
    cov["per_build"] = per
    cov["known_findings_hit"] = known
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
          "level": "model_checking", "coverage": cov, "assumptions": ASSUME,
          "wall_s": round(time.time() - t0, 3), "build_s": round(t1 - t0, 3), "violations": viol}
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if rc == 0:
        print(f"{pid} held: {cov['traces_validated_against_impl']} histories, {cov['transitions']} operations, "
              f"{cov['states']} states ({', '.join(per)}); build {t1-t0:.1f}s, exploration {time.time()-t1:.1f}s")
    return rc

def replay(path):
    kv = {}
    for line in open(path):
        if "=" in line and not line.startswith("#"):
            k, v = line.rstrip("\n").split("=", 1)
            kv[k] = v
    c = kv["config"]
    if not build_all(c):
        return 2
    print(f"# {kv['property']} configuration {c}: {kv['message']}")
    sys.stdout.flush()
    p = subprocess.run([os.path.join(TARGET, c, "release/mc"), "replay", kv["property"], kv["case"]], env=env())
    return p.returncode

if __name__ == "__main__":
    a = sys.argv[1:]
    if a[:1] == ["run"] and len(a) >= 2:
        sys.exit(run(a[1], a[2] if len(a) > 2 else os.environ.get("VERIF_TIER") or "quick"))
    if a[:1] == ["replay"] and len(a) == 2:
        sys.exit(replay(a[1]))
    if a[:1] == ["setup"]:
        sys.exit(0 if build_all("ABCR") else 1)
    print(__doc__)
    sys.exit(2)
