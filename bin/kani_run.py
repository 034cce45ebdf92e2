"""Bit-precise harnesses (crate kani/), decided by Kani: CBMC's SAT back end over the compiler's MIR of /repo.
A failed harness is run again for concrete values, which are replayed on the native build."""
import os, re, signal, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CRATE = os.path.join(ROOT, "kani")
TARGET = os.path.join(ROOT, "target")
HARNESSES = {
    "C09": {
        "quick": ["real_pairs", "real_hash", "real_triples", "real_values"],
        "thorough": ["real_pairs", "real_hash", "real_triples", "real_values", "names_11", "names_12"],
    },
}
BOUNDS = {
    "real_pairs": "==, cmp, partial_cmp, operators on every pair of f64 bit patterns",
    "real_hash": "hash of every pair of equal f64",
    "real_triples": "transitivity on every triple of f64 bit patterns",
    "real_values": "constructor, value, clone on every f64",
    "names_11": "==, cmp on variables of one ASCII character",
    "names_12": "==, cmp on variables of one and two ASCII characters",
}


def env():
    e = {k: v for k, v in os.environ.items() if k not in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER")}
    e.update(HOME="/root", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    return e


def run(cmd, timeout):
    p = subprocess.Popen(cmd, cwd=CRATE, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         start_new_session=True, stdin=subprocess.DEVNULL)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return None, out


def kani(name, timeout, *extra):
    return run(["cargo", "kani", "--target-dir", os.path.join(TARGET, "kani"), "--harness", "proofs::" + name, "--exact", *extra], timeout)


def replay(name, values):
    rc, out = run(["cargo", "build", "--quiet", "--offline", "--target-dir", os.path.join(TARGET, "kani-native")], 600)
    if rc != 0:
        return {"outcome": "error", "detail": out[-800:]}
    rc, out = run([os.path.join(TARGET, "kani-native", "debug", "symbols"), name] + values, 60)
    m = re.search(r"panicked at .*?:\n(.*)", out)
    what = m.group(1) if m else out.strip()[-300:]
    if rc == 0:
        return {"outcome": "pass"}
    if what in ("assumption", "inputs"):
        return {"outcome": "out-of-scope", "detail": what}
    return {"outcome": "violation", "label": name, "detail": what}


def decide(prop, tier, evidence, say):
    names = HARNESSES.get(prop, {}).get(tier, [])
    if not names:
        return []
    violations, rows = [], []
    checks = solver = 0
    for n in names:
        t = time.time()
        rc, out = kani(n, 240 if tier == "quick" else 900)
        m = re.search(r"\*\* (\d+) of (\d+) failed", out)
        covered = "1 of 1 cover properties satisfied" in out
        st = re.findall(r"Runtime Solver: ([0-9.e-]+)s", out)
        steps = re.search(r"size of program expression: (\d+) steps", out)
        s = sum(float(x) for x in st)
        solver += s
        row = {"harness": "kani:" + n, "bounds": BOUNDS[n], "complete": bool(m) and rc is not None, "wall": round(time.time() - t, 1),
               "checks": int(m.group(2)) if m else 0, "solver_s": round(s, 2), "program_steps": int(steps.group(1)) if steps else 0,
               "witnesses": {"reached": int(covered)}}
        rows.append(row)
        if m:
            checks += int(m.group(2))
        if rc is None or not m:
            say("kani: %s gave no verdict: %s" % (n, out[-400:]))
            if not m and rc is not None:
                say("check error: kani failed on " + n)
                sys.exit(2)
            continue
        if "VERIFICATION:- SUCCESSFUL" in out:
            if not covered:
                say("check error: kani never reaches the end of " + n)
                sys.exit(2)
            continue
        failed = re.findall(r"Failed Checks: (.*)", out)
        rc, text = kani(n, 400, "-Z", "concrete-playback", "--concrete-playback=print")
        native, values = None, []
        for blk in re.findall(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", text, re.S):
            values = ["".join("%02x" % int(b) for b in v.split(",") if b.strip()) for v in re.findall(r"vec!\[([0-9, ]*)\]", blk)]
            native = replay(n, values)
            if native["outcome"] == "violation":
                break
        if native and native["outcome"] == "violation":
            violations.append({"harness": "kani:" + n, "label": native["detail"], "detail": "%s with %s" % ("; ".join(failed)[:300], " ".join(values)),
                               "values": values, "native": native})
        else:
            say("not reproduced on the real build (not reported): kani %s: %s %s" % (n, failed, native))
    evidence.update(states=len(rows), transitions=sum(r["program_steps"] for r in rows), queries=len(rows), solver_s=solver, checks=checks, harnesses=rows)
    return violations
