#!/usr/bin/env python3
"""Build and run the checks.

  run.py setup          build the executor and every harness crate
  run.py check ID       decide one property (VERIF_TIER, VERIF_SEED)

See DESIGN.md for what a check does.
"""
import fcntl
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(ROOT, ".build")
EVID = os.path.join(ROOT, "evidence")
REPO = os.environ.get("VERIF_REPO", "/repo")
SX = os.path.join(BUILD, "sx", "release", "sx")
JOBS = 8

sys.path.insert(0, ROOT)
from props import PROPS  # noqa: E402


class CheckError(Exception):
    pass


def cargo_env():
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER",
              "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    return e


def sh(cmd, cwd, env=None, what="command"):
    r = subprocess.run(cmd, cwd=cwd, env=env or cargo_env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True)
    if r.returncode != 0:
        raise CheckError("%s failed (%d):\n%s"
                         % (what, r.returncode, r.stdout[-4000:]))
    return r.stdout


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build_sx():
    sh(["cargo", "build", "--release", "--target-dir",
        os.path.join(BUILD, "sx")], os.path.join(ROOT, "sx"),
       what="building the executor")


def stage(crate):
    """Working copy of a harness crate, with /repo's dependency versions."""
    src = os.path.join(ROOT, "h", crate)
    dst = os.path.join(BUILD, "h", crate)
    os.makedirs(os.path.join(dst, "src"), exist_ok=True)

    def put(rel, data):
        p = os.path.join(dst, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if os.path.exists(p):
            with open(p, "rb") as f:
                if f.read() == data:
                    return
        with open(p, "wb") as f:
            f.write(data)

    for base, _, files in os.walk(src):
        for n in files:
            full = os.path.join(base, n)
            rel = os.path.relpath(full, src)
            if rel.startswith("target") or rel == "Cargo.lock":
                continue
            with open(full, "rb") as f:
                data = f.read()
            if rel == "Cargo.toml":
                data = data.replace(b'"/repo/', b'"%s/' % REPO.encode())
                data = data.replace(b"../../rt",
                                    os.path.join(ROOT, "rt").encode())
                data = data.replace(b"../../dep",
                                    os.path.join(ROOT, "dep").encode())
            put(rel, data)
    # a program is wrapped by its harness: same sources, main() renamed
    wrap = os.path.join(src, "wrap")
    if os.path.exists(wrap):
        d = open(wrap).read().strip().replace("/repo", REPO, 1)
        for base, _, files in os.walk(d):
            for n in files:
                full = os.path.join(base, n)
                rel = os.path.relpath(full, d)
                with open(full, "rb") as f:
                    data = f.read()
                if rel == "main.rs":
                    data, k = re.subn(rb"(?m)^(pub )?fn main\(",
                                      rb"pub fn program_main(", data)
                    if k != 1:
                        raise CheckError("no main function in %s" % full)
                    data += b"\nmod sxh;\nfn main() { sxh::main() }\n"
                put(os.path.join("src", rel), data)
    # versions as locked by /repo; cargo adds the harness packages
    with open(os.path.join(REPO, "Cargo.lock"), "rb") as f:
        lock = f.read()
    mark = os.path.join(dst, ".lock-src")
    old = open(mark, "rb").read() if os.path.exists(mark) else None
    if old != lock or not os.path.exists(os.path.join(dst, "Cargo.lock")):
        with open(os.path.join(dst, "Cargo.lock"), "wb") as f:
            f.write(lock)
        with open(mark, "wb") as f:
            f.write(lock)
    return dst


def build_ll(crate):
    d = stage(crate)
    ll = os.path.join(BUILD, "ll")
    os.makedirs(ll, exist_ok=True)
    out = os.path.join(ll, crate + ".ll")
    tgt = os.path.join(BUILD, "t", crate)
    cmd = ["cargo", "rustc", "--target-dir", tgt, "--",
           "--emit=llvm-ir=" + out, "-C", "linker=/bin/true"]
    sh(cmd, d, what="compiling /repo to LLVM IR")
    if not os.path.exists(out):
        # artifacts kept but the IR is gone: force it
        shutil.rmtree(tgt, ignore_errors=True)
        sh(cmd, d, what="compiling /repo to LLVM IR")
    return out


def build_native(crate):
    d = stage(crate)
    tgt = os.path.join(BUILD, "n", crate)
    sh(["cargo", "build", "--features", "native", "--target-dir", tgt], d,
       what="building the native replay")
    return os.path.join(tgt, "debug", "h" + crate)


def replay(exe, entry, inputs, params, keep=None):
    """Run one concrete input through the native build."""
    with tempfile.TemporaryDirectory(prefix="sxr-") as tmp:
        rf = os.path.join(tmp, "replay.txt")
        text = "".join("%d %d\n" % (w, v) for w, v in inputs)
        with open(rf, "w") as f:
            f.write(text)
        d = os.path.join(tmp, "d")
        os.mkdir(d)
        env = {"PATH": "/usr/bin:/bin", "SX_REPLAY": rf, "SX_DIR": d,
               "TMPDIR": d, "RUST_BACKTRACE": "0", "HOME": d}
        for k, v in params.items():
            env["SX_" + k.upper()] = str(v)
        try:
            r = subprocess.run([exe, entry], env=env, cwd=d,
                               stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=60)
            code, so, se = r.returncode, r.stdout, r.stderr
        except subprocess.TimeoutExpired as e:
            code, so, se = "timeout", e.stdout or b"", e.stderr or b""
        so = so.decode("utf-8", "replace")
        se = se.decode("utf-8", "replace")
    outs = None
    for l in so.splitlines():
        if l.startswith("OUTS"):
            outs = [int(x) for x in l.split()[1:]]
    return {"code": code, "outs": outs, "stdout": so[-2000:],
            "stderr": se[-2000:]}


def run_entry(ll, h, tier, seed, outdir, wall):
    p = dict(h.get("params", {}))
    p.update(h.get(tier, {}))
    os.makedirs(outdir, exist_ok=True)
    cmd = [SX, ll, h["entry"], outdir, "--jobs", str(JOBS),
           "--wall", str(wall), "--seed", str(seed),
           "--wit", str(h.get("wit", 48 if tier == "quick" else 160))]
    for k, v in p.items():
        cmd += ["--" + k, str(v)]
    for k in ("frontier", "steps", "timeout", "maxviol", "shortest"):
        if k in h:
            cmd += ["--" + k, str(h[k])]
    if tier == "thorough":
        cmd += ["--dump", outdir]
    t0 = time.time()
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True)
    parts = []
    for n in sorted(os.listdir(outdir)):
        if n.startswith("part-"):
            try:
                with open(os.path.join(outdir, n)) as f:
                    parts.append(json.load(f))
            except ValueError:
                pass
    if r.returncode != 0 and not any(x["violations"] for x in parts):
        raise CheckError("executor: %s: %s" % (h["entry"], r.stdout[-3000:]))
    m = {"entry": h["entry"], "params": p, "wall_s": round(time.time()-t0, 2)}
    for k in ("paths", "killed", "steps", "forks", "checks", "checks_const",
              "checks_unsat", "queries", "cached", "sat", "unsat",
              "solver_us", "nerrors"):
        m[k] = sum(x[k] for x in parts)
    for k in ("max_inputs", "max_depth", "llvm_funcs", "llvm_insts",
              "solver_max_us"):
        m[k] = max(x[k] for x in parts)
    m["complete"] = all(x["complete"] for x in parts)
    m["errors"] = [e for x in parts for e in x["errors"]][:5]
    m["violations"] = []
    seen = set()
    for x in parts:
        for v in x["violations"]:
            if v["label"] not in seen:
                seen.add(v["label"])
                m["violations"].append(v)
    m["witnesses"] = [w for x in parts for w in x["witnesses"]]
    m["repo_funcs"] = sorted({f for x in parts for f in x["repo_funcs"]})
    reach = {}
    for x in parts:
        for k, n in x["reach"].items():
            reach[int(k)] = reach.get(int(k), 0) + n
    m["reach"] = reach
    return m


def known():
    """Committed list of known findings: property, harness, label."""
    out = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) harness=(\S+) label=(.*?)"
                         r" :: (.*)$", l.strip())
            if m:
                out.append(m.groups())
    return out


def cross_check(outdir, limit, budget):
    """Put unsatisfiable queries (SMT-LIB) to a second solver."""
    res = {"queries": 0, "agree": 0, "unknown": 0}
    fs = sorted(n for n in os.listdir(outdir) if n.endswith(".smt2"))
    fs = fs[::max(1, len(fs) // limit)][:limit]
    t0 = time.time()
    for n in fs:
        if time.time() - t0 > budget:
            break
        r = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=20000",
                            os.path.join(outdir, n)],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True)
        a = r.stdout.strip().splitlines()
        res["queries"] += 1
        if a and a[-1] == "unsat":
            res["agree"] += 1
        elif a and a[-1] == "sat":
            raise CheckError("solvers disagree on %s" % n)
        else:
            res["unknown"] += 1
    return res


def check(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "0"))
    except ValueError:
        seed = 0
    cfg = PROPS[pid]
    os.makedirs(EVID, exist_ok=True)
    budget = 780 if tier == "quick" else 3000
    results, viol, notes = [], [], []
    validated = 0
    cross = {"queries": 0, "agree": 0, "unknown": 0}
    with Lock():
        build_sx()
        lls, exes = {}, {}
        for h in cfg["harnesses"]:
            c = h["crate"]
            if c not in lls:
                lls[c] = build_ll(c)
    work = tempfile.mkdtemp(prefix="sx-%s-" % pid)
    err = None
    todo = [h for h in cfg["harnesses"]
            if tier == "thorough" or h.get("tier") != "thorough"]
    try:
        for i, h in enumerate(todo):
            try:
                c = h["crate"]
                left = budget - (time.time() - t0)
                if i + 1 < len(todo):
                    left *= 0.6
                od = os.path.join(work, "%d" % i)
                m = run_entry(lls[c], h, tier, seed, od, max(20, int(left)))
                results.append(m)
                if c not in exes:
                    with Lock():
                        exes[c] = build_native(c)
                # counterexamples: only what the native build reproduces
                for v in m["violations"]:
                    r = replay(exes[c], h["entry"], v["inputs"], m["params"])
                    v["native"] = r
                    ok = r["code"] not in (0, 2, 3, 4) \
                        or v["label"].startswith("memory:")
                    if r["code"] in (3, 4):
                        ok = False
                    v["reproduced"] = ok
                    v["entry"], v["crate"] = h["entry"], c
                    v["params"] = m["params"]
                    viol.append(v)
                if any(v["reproduced"] for v in m["violations"]):
                    break
                if m["violations"]:
                    raise CheckError("%s: counterexample not reproduced"
                                     % h["entry"])
                if m["nerrors"]:
                    raise CheckError("%s: %s" % (h["entry"],
                                                 "; ".join(m["errors"])))
                if not m["complete"]:
                    raise CheckError("%s: time limit before the bounds were "
                                     "exhausted" % h["entry"])
                missing = [r for r in h.get("reach", []) if r not in m["reach"]]
                if missing:
                    raise CheckError("%s: vacuous, not reached: %s"
                                     % (h["entry"], missing))
                # models of finished paths, replayed on the real system
                for w in m["witnesses"]:
                    r = replay(exes[c], h["entry"], w["inputs"], m["params"])
                    if r["code"] == 0 and r["outs"] == w["outs"]:
                        validated += 1
                    elif r["code"] in (1, 101, 134, -6):
                        v = {"label": "native run of a path model failed: " +
                             (r["stderr"].strip().splitlines() or [""])[0],
                             "inputs": w["inputs"], "native": r,
                             "reproduced": True, "stack": [],
                             "entry": h["entry"], "crate": c,
                             "params": m["params"]}
                        viol.append(v)
                        break
                    else:
                        raise CheckError(
                            "%s: path model differs natively: inputs %s outs %s "
                            "native %s" % (h["entry"], w["inputs"], w["outs"], r))
                if viol:
                    break
                if tier == "thorough":
                    x = cross_check(od, 40, 60)
                    for k in x:
                        cross[k] += x[k]
            except CheckError as e:
                # another harness may still show a violation
                err = err or e
    finally:
        shutil.rmtree(work, ignore_errors=True)

    kn = [k for k in known() if k[0] == pid]
    real, suppressed, unrepro = [], [], []
    for v in viol:
        k = [x for x in kn if x[1] == v["entry"] and x[2] == v["label"]]
        if k:
            suppressed.append((v, k[0][3]))
        elif v["reproduced"]:
            real.append(v)
        else:
            unrepro.append(v)

    funcs = sorted({f for m in results for f in m["repo_funcs"]})
    samples = []
    for m in results:
        for w in m["witnesses"][:2]:
            samples.append({"harness": m["entry"], "inputs": w["inputs"],
                            "observed": w["outs"][:64]})
    cov = {
        "states": sum(m["forks"] + 1 for m in results),
        "transitions": sum(m["steps"] for m in results),
        "traces_validated_against_impl": validated,
        "samples": samples[:12],
        "exhaustive": bool(results) and all(m["complete"] for m in results)
        and err is None,
        "assertions_evaluated": sum(m["checks"] for m in results),
        "assertions_by_rewriting": sum(m["checks_const"] for m in results),
        "assertions_by_solver": sum(m["checks_unsat"] for m in results),
        "solver_queries": sum(m["queries"] for m in results),
        "solver_queries_cached": sum(m["cached"] for m in results),
        "solver_sat": sum(m["sat"] for m in results),
        "solver_unsat": sum(m["unsat"] for m in results),
        "solver_time_s": round(sum(m["solver_us"] for m in results) / 1e6, 3),
        "solver": "z3 (C API)",
        "second_solver": cross,
        "functions_encoded": funcs,
        "llvm_functions_encoded": sum(m["llvm_funcs"] for m in results),
        "llvm_instructions_encoded": sum(m["llvm_insts"] for m in results),
        "bounds": cfg["bounds"] if isinstance(cfg["bounds"], str)
        else cfg["bounds"][tier],
        "outside_bounds": cfg["outside"],
        "harnesses": [{k: m[k] for k in (
            "entry", "params", "wall_s", "paths", "killed", "steps",
            "checks", "checks_const", "checks_unsat", "queries", "sat",
            "unsat", "solver_us", "max_inputs", "max_depth", "complete",
            "reach")} for m in results],
    }
    ev = {"property": pid, "tier": tier, "seed": seed,
          "level": "model_checking", "coverage": cov,
          "wall_s": round(time.time() - t0, 2),
          "assumptions": cfg.get("assumptions", []) + COMMON,
          "violations": len(real)}
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    for v, what in suppressed:
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    if real:
        for i, v in enumerate(real):
            p = os.path.join(EVID, "%s-%d.replay.json" % (pid, i))
            v = dict(v)
            v["property"] = pid
            v["how"] = ("run.py replay %s" % p)
            with open(p, "w") as f:
                json.dump(v, f, indent=1)
            print("# %s: %s" % (v["entry"], v["label"]))
            for l in v["native"]["stderr"].strip().splitlines()[:4]:
                print("#   native: %s" % l)
            print("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    if unrepro:
        for v in unrepro:
            print("counterexample not reproduced natively: %s %s\n  inputs %s"
                  "\n  native %s\n  stack %s"
                  % (v["entry"], v["label"], v["inputs"], v["native"],
                     v["stack"][:8]), file=sys.stderr)
        return 2
    if err:
        print("check error: %s" % err, file=sys.stderr)
        return 2
    print("%s held: %d states, %d assertions, %d queries, %d traces validated,"
          " %.1fs" % (pid, cov["states"], cov["assertions_evaluated"],
                      cov["solver_queries"], validated, time.time() - t0))
    return 0


COMMON = [
    "The POSIX layer (files, descriptors, memory maps) is the model in "
    "rt/src/posix.rs during symbolic execution; sampled path models are "
    "replayed against the real kernel on every run.",
    "Sequential execution (tasks are interleaved at polls, a thread started "
    "by the code runs to its first wait only), allocation never fails, rustc dev "
    "profile (opt-level 1, overflow checks on, debug assertions off), "
    "x86_64.",
    "Trusted: rustc/LLVM lowering to IR, the executor in sx/, Z3.",
]


def main():
    if len(sys.argv) >= 2 and sys.argv[1] == "setup":
        with Lock():
            build_sx()
            for c in sorted({h["crate"] for p in PROPS.values()
                             for h in p["harnesses"]}):
                build_ll(c)
                build_native(c)
        return 0
    if len(sys.argv) >= 3 and sys.argv[1] == "check":
        try:
            return check(sys.argv[2])
        except CheckError as e:
            print("check error: %s" % e, file=sys.stderr)
            return 2
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        v = json.load(open(sys.argv[2]))
        with Lock():
            exe = build_native(v["crate"])
        r = replay(exe, v["entry"], v["inputs"], v["params"])
        print(r["stdout"], r["stderr"])
        print("exit", r["code"])
        return 0
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
