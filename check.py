#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]

Decides one property of /repo's current working tree.

1. The proof: the functions the property depends on are extracted from /repo's
   sources (tools/vx.py), given the contracts in /verif/contracts, and every
   obligation is handed to the deductive verifier.
2. The executable contracts: the same postconditions, evaluated on the real
   crate by a driver in /verif/drivers, bounded.  They stand in for functions
   the verifier cannot reach and look for a failing input when an obligation
   is not discharged.

Exit 0: held.  Exit 1 with a line `VIOLATION property=.. replay=..`: broken.
"""
import json, os, re, resource, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
from registry import PROPS  # noqa: E402
import vx  # noqa: E402

ENV = dict(os.environ, HOME="/root", CARGO_HOME="/root/.cargo", RUSTUP_HOME="/root/.rustup",
           CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", RUSTC_WRAPPER="",
           RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
for k in ("CARGO_TARGET_DIR", "RUSTFLAGS", "CARGO_PROFILE_DEV_DEBUG"):
    ENV.pop(k, None)
DRV = os.path.join(HERE, "drivers")
TARGET = os.path.join(DRV, "target")


def note(s):
    print(s, flush=True)


def build(package, binary):
    """Builds a driver against /repo's working tree. Returns (path, error text)."""
    for _ in range(2):
        r = subprocess.run(["cargo", "build", "--offline", "-q", "-p", package, "--bin", binary, "--target-dir", TARGET],
                           cwd=DRV, env=ENV, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            return os.path.join(TARGET, "debug", binary), ""
        if re.search(r"^error", r.stdout, re.M) and "could not compile" in r.stdout and "SIGKILL" not in r.stdout:
            break
    return None, r.stdout


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_driver(path, prop, tier, seed, budget, trace=None):
    out = os.path.join(HERE, "work", f"{prop}.driver.json")
    os.makedirs(os.path.dirname(out), exist_ok=True)
    if os.path.exists(out):
        os.remove(out)
    env = dict(ENV)
    if trace:
        env["VERIF_TRACE"] = trace
    try:
        r = subprocess.run([path, prop, tier, str(seed), str(budget), out], env=env, cwd=HERE, preexec_fn=limit,
                           stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=budget * 3 + 120)
        rc = r.returncode
    except subprocess.TimeoutExpired:
        rc = -1000
    if os.path.exists(out):
        try:
            return rc, json.load(open(out))
        except ValueError:
            pass
    return rc, None


def driver(prop, tier, seed, budget):
    """Runs the drivers of a property: (report, violation text or None)."""
    whole = None
    for package, binary in PROPS[prop]["drivers"]:
        rep, bad = one_driver(prop, package, binary, tier, seed, budget)
        if rep is None:
            return None, None
        if whole is None:
            whole = rep
        else:
            for k in ("evaluations", "distinct_nontrivial"):
                whole[k] += rep[k]
            for k in ("samples", "bounds"):
                whole[k] = (whole.get(k) or []) + (rep.get(k) or [])
            whole["rule"] += "; " + rep["rule"]
        if bad:
            return whole, f"({package}, {binary}) {bad}"
    return whole, None


def one_driver(prop, package, binary, tier, seed, budget):
    path, err = build(package, binary)
    if path is None:
        if "could not compile" not in err:
            note(err[-3000:])
            note("the driver could not be built, and not because of a compile error")
            return None, None
        return ({"evaluations": 1, "distinct_nontrivial": 1, "rule": "compiling the catalogue of the driver", "samples": [binary], "bounds": []},
                f"code that uses the documented interface of the crate ({package}, {binary}) no longer compiles:\n{err[-6000:]}")
    rc, rep = run_driver(path, prop, tier, seed, budget)
    if rc in (0, 1) and rep is not None:
        return rep, rep.get("violation") if rc == 1 else None
    # hang, crash or exhausted memory: again, naming the case that was running
    trace = os.path.join(HERE, "work", f"{prop}.trace")
    if os.path.exists(trace):
        os.remove(trace)
    rc2, rep2 = run_driver(path, prop, tier, seed, budget, trace)
    if rc2 in (0, 1) and rep2 is not None:
        return rep2, rep2.get("violation") if rc2 == 1 else None
    what = open(trace, errors="replace").read() if os.path.exists(trace) else "(no case recorded)"
    how = {70: "did not return within 20 s", -1000: "the driver ran out of time", 134: "aborted", -6: "aborted", -11: "crashed (stack or memory)"}.get(rc2, f"ended the process with status {rc2}")
    return ({"evaluations": 1, "distinct_nontrivial": 1, "rule": "the case that did not return", "samples": [what], "bounds": []},
            f"{how}: {what}")


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = PROPS[prop]
    t0 = time.time()
    budget = spec.get("budget", 8) if tier == "quick" else spec.get("thorough_budget", 300)

    with ThreadPoolExecutor(1) as ex:
        job = ex.submit(vx.prove, prop, tier, seed) if spec.get("units") else None
        rep, bad = driver(prop, tier, seed, budget)
        proof = job.result() if job else None
    verdict, why = "held", ""
    if bad:
        verdict, why = "violated", bad
    elif proof and proof["failed"]:
        # an obligation is not discharged: look longer for a failing input
        more = 3 * budget if tier == "quick" else budget
        for s in (seed + 1000, seed + 2000):
            r2, bad = driver(prop, "thorough", s, more)
            if bad:
                rep, verdict, why = r2, "violated", bad
                break
        else:
            if proof["definite"]:
                verdict = "unproved"
    known = known_findings(prop)
    level = spec["level"]
    cov = {}
    if proof:
        cov.update(proof["coverage"])
    if rep:
        for k in ("evaluations", "distinct_nontrivial", "rule", "samples"):
            cov[k] = rep.get(k)
        cov["bounded"] = {"what": "executable contracts on the real crate; never counted as proved", "bounds": rep.get("bounds"), "drivers": [b for _, b in spec["drivers"]], "seed": seed, "budget_s": budget}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": (proof["assumptions"] if proof else []) + spec.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": 0 if verdict == "held" else 1}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{prop}.json"), "w"), indent=1)
    for k in known:
        note(f"KNOWN-FINDING: property={prop} {k}")
    if verdict == "held":
        if proof:
            note(f"{prop}: {proof['coverage']['discharged']}/{proof['coverage']['obligations']} obligations discharged"
                 + (f"; undecided: {'; '.join(proof['undecided'])}" if proof["undecided"] else "")
                 + (f"; not discharged, but no failing input after a change of structure: {'; '.join(proof['failed'])[:400]}" if proof["failed"] else ""))
        if rep:
            note(f"{prop}: {rep['evaluations']} executable-contract cases held")
        return 0 if rep or proof else 2
    os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
    path = os.path.join(HERE, "replay", f"{prop}.txt")
    with open(path, "w") as f:
        f.write(f"property {prop}: {spec['title']}\n\n")
        if verdict == "violated":
            f.write(f"failing input against the real code (tier {tier}, seed {seed}):\n{why}\n")
        if proof and proof["failed"]:
            f.write("\nobligations not discharged:\n" + "\n".join(proof["failed"]) + "\n\nverifier output:\n" + proof["output"] + "\n")
    note(why[:2000] if why else "\n".join(proof["failed"])[:2000])
    note(f"VIOLATION property={prop} replay={path}" + ("" if verdict == "violated" else " no-failing-input-found"))
    return 1


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    for line in open(p):
        m = re.match(r"known: property=(\S+) (.*)", line)
        if m and m.group(1) == prop:
            out.append(m.group(2).strip())
    return out


if __name__ == "__main__":
    sys.exit(main())
