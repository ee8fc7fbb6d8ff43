#!/usr/bin/env python3
"""Decide one property: discharge its contract harnesses with Kani on /repo's
current source, run the native bounded stand-ins, replay counterexamples.

exit 0: every obligation discharged; exit 1: VIOLATION line printed;
exit 2: no answer (build failure, timeout, vacuous precondition)."""
import json, os, re, subprocess, sys, threading, time, shutil

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = os.path.join(ROOT, "h")
BUILD = os.path.join(ROOT, ".build")
EV = os.path.join(ROOT, "evidence")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from config import PROPS  # noqa: E402
import verus  # noqa: E402

PID = sys.argv[1]
CFG = PROPS[PID]
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
THOROUGH = TIER == "thorough"
T0 = time.time()
DEADLINE = T0 + (3300 if THOROUGH else 840)
KFLAGS = ["--no-memory-safety-checks", "--no-assertion-reach-checks",
          "-Z", "unstable-options", "-Z", "function-contracts", "-Z", "stubbing"]
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUST_BACKTRACE="0")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS"):
    ENV.pop(k, None)


def log(*a):
    print(f"[{time.time()-T0:6.1f}s]", *a, flush=True)


def sh(cmd, timeout, cwd=H):
    """Run in its own session so that a timeout ends every descendant."""
    p = subprocess.Popen(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, text=True, errors="replace",
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=max(5, timeout))
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return None, out


def features():
    f = list(CFG["features"])
    if THOROUGH:
        f += ["deep"] + CFG.get("thorough_features", [])
    return f


# ---------------------------------------------------------------- native
class Native:
    """Same harness sources compiled natively: replay and bounded stand-ins."""

    def __init__(self):
        self.rc, self.out = None, ""
        self.t = threading.Thread(target=self._build)
        self.t.start()

    def _build(self):
        cmd = ["cargo", "build", "--release", "--offline", "--bin", "native",
               "--features", ",".join(features() + CFG.get("native_features", [])),
               "--target-dir", os.path.join(BUILD, "n_" + PID)]
        self.rc, self.out = sh(cmd, 600)

    @property
    def exe(self):
        return os.path.join(BUILD, "n_" + PID, "release", "native")

    def ready(self):
        self.t.join()
        return self.rc == 0

    def run(self, *args, timeout=120):
        rc, out = sh([self.exe, *map(str, args)], timeout)
        return rc, out


# ---------------------------------------------------------------- kani
def kani(feats, jobs, timeout, extra, tag):
    js = os.path.join(BUILD, f"{PID}_{tag}.json")
    if os.path.exists(js):
        os.unlink(js)
    cmd = ["cargo", "kani", "--lib", "--features", ",".join(feats), "--target-dir",
           os.path.join(BUILD, "k_" + PID), *KFLAGS, "-j", str(jobs),
           "--output-format", "terse", "--harness-timeout", f"{timeout}s",
           "--export-json", js, *extra]
    rc, out = sh(cmd, DEADLINE - time.time())
    data = None
    if os.path.exists(js):
        try:
            data = json.load(open(js))
        except ValueError:
            data = None
    return rc, out, data, cmd


def classify(data):
    """harness -> dict(state, failed, ...)"""
    res = {}
    err = {e["harness_id"]: e for e in data.get("error_details", [])}
    stats = {c["harness_id"]: (c.get("cbmc_stats") or {}) for c in data.get("cbmc", [])}
    for r in data["verification_results"]["results"]:
        h = r["harness_id"]
        checks = r["checks"]
        st = lambda c: c["status"].lower()
        covers = [c for c in checks if c["category"] == "cover"]
        obs = [c for c in checks if c["category"] != "cover"]
        failed = [c for c in obs if st(c) == "failure"]
        real = [c for c in failed if c["category"] not in ("unwind", "unsupported_construct", "recursion")
                and not c["description"].startswith("unwinding assertion")
                and "is not currently supported by Kani" not in c["description"]]
        fns = {c["function"] for c in obs if "midi2/src/" in str(c["location"].get("file"))}
        d = dict(fns=fns, obligations=len(obs), discharged=sum(st(c) in ("success", "unreachable") for c in obs),
                 covers=len(covers), satisfied=sum(st(c) == "satisfied" for c in covers),
                 unsat=[c["description"] for c in covers if st(c) != "satisfied"],
                 ms=r.get("duration_ms", 0),
                 solver_s=(stats.get(h) or {}).get("runtime_decision_procedure_s") or 0.0,
                 failed=[dict(what=c["description"], fn=c["function"],
                              at="%s:%s" % (c["location"].get("file"), c["location"].get("line")))
                         for c in real],
                 unwound=[c["description"] + " in " + c["function"] for c in failed if c not in real])
        if real:
            d["state"] = "failed"
        elif failed:
            d["state"] = "unwound"
        elif r["status"] == "Success" and obs:
            d["state"] = "ok" if not d["unsat"] else "vacuous"
        elif (err.get(h) or {}).get("exit_status") == "timeout":
            d["state"] = "timeout"
        else:
            d["state"] = "error"
        res[h] = d
    return res


def playback(h, feats):
    """Concrete values of Kani's counterexample, as integers in call order."""
    rc, out = sh(["cargo", "kani", "--lib", "--features", ",".join(feats), "--target-dir",
                  os.path.join(BUILD, "k_" + PID), *KFLAGS, "--harness", h, "--exact",
                  "-Z", "concrete-playback", "--concrete-playback=print"],
                 min(240, DEADLINE - time.time() - 20))
    found = []
    for blk in re.findall(r"fn kani_concrete_playback.*?kani::concrete_playback_run", out, re.S):
        if re.search(r"Check for (cover|`cover)", blk):
            continue
        vals = [int.from_bytes(bytes(int(x) for x in v.split(",") if x.strip()), "little")
                for v in re.findall(r"^\s*vec!\[([0-9, ]*)\]", blk, re.M)]
        if vals not in found:
            found.append(vals)
    return found, out


def main():
    os.makedirs(EV, exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    feats = features()
    native = Native()
    # unbounded proofs of the generic functions, extracted from the current source
    vres = {n: verus.verify(n, os.path.join(BUILD, "verus_" + PID)) for n in CFG.get("verus", [])}
    for n, r in vres.items():
        log(f"verus unit {n}: {r['state']}, {r['verified']} functions verified, {r['errors']} errors, {r['seconds']} s")
        if r["state"] != "proved":
            log(f"  (not established for all lengths: {r['output'].strip()[:300]})")
    tmo = CFG.get("thorough_timeout", 1200) if THOROUGH else CFG.get("timeout", 300)
    extra = []
    problems, results, kani_cmd, data = [], {}, [], {}
    if CFG.get("kani", True):
        log(f"{PID} tier={TIER} seed={SEED}: discharging contract harnesses ({','.join(feats)}) with Kani")
        krc, kout, data, kani_cmd = kani(feats, 8, tmo, extra, "main")
    if not CFG.get("kani", True):
        pass
    elif data is None:
        native.ready()
        sys.stdout.write(kout[-6000:])
        log("no verification result (build failure or out of time)")
        problems.append("verifier produced no result")
    else:
        results = classify(data)
    # an unwinding bound that is too small says nothing about the property
    for h, d in sorted(results.items()):
        if d["state"] == "unwound" and time.time() < DEADLINE - 60:
            log(f"retrying {h} with a larger unwinding bound")
            _, _, dd, _ = kani(feats, 1, tmo, ["--harness", h, "--exact", "--unwind", str(CFG.get("unwind2", 70))], "retry")
            if dd:
                d2 = classify(dd).get(h)
                if d2:
                    results[h] = d2
    ok = native.ready()
    if not ok:
        sys.stdout.write(native.out[-4000:])
        problems.append("native build failed")
    log(f"kani: {len(results)} harnesses, " + ", ".join(
        f"{sum(d['state'] == s for d in results.values())} {s}" for s in
        ("ok", "failed", "unwound", "vacuous", "timeout", "error")))

    violations = []  # (harness, text, has_input)
    failed = sorted(h for h, d in results.items() if d["state"] == "failed")
    # undecided obligations are searched natively too: a failing input decides them
    undecided = sorted(h for h, d in results.items() if d["state"] in ("unwound", "timeout", "error"))
    for i, h in enumerate(failed + undecided):
        d = results[h]
        nh = "h::" + h.replace("::k::", "::")
        text = [f"property {PID}", f"harness {h}", "failed obligations (Kani/CBMC):"]
        text += [f"  - {f['what']}  [{f['fn']} {f['at']}]" for f in d["failed"]]
        got = False
        if ok and i < 6 and time.time() < DEADLINE - 30:
            rc, out = native.run("hunt", nh, "--cases", 3000000, "--ms", 15000 if i < 3 else 4000,
                                 "--seed", SEED, "--threads", 1, timeout=60)
            m = re.search(r"^FAIL (\S+) \| (.*) \| values \[(.*)\]$", out, re.M)
            if m:
                vals = m.group(3).replace(",", " ")
                rc2, out2 = native.run("replay", nh, *vals.split())
                if rc2 == 1:
                    got = True
                    text += ["replayed on the real code (found by native search of the same contract):",
                             "  " + out2.strip(), f"  command: native replay {nh} {vals}"]
            if not got and d["state"] != "failed":
                continue
            if not got and i < 2:
                vs, pout = playback(h, feats)
                for v in vs:
                    rc2, out2 = native.run("replay", nh, *v)
                    if rc2 == 1:
                        got = True
                        text += ["verifier counterexample replayed on the real code:", "  " + out2.strip(),
                                 f"  command: native replay {nh} " + " ".join(map(str, v))]
                        break
                if not got:
                    text += ["no failing input reproduced; verifier output:", pout[-6000:]]
        if got or d["state"] == "failed":
            violations.append((h, "\n".join(text), got))

    # bounded stand-ins, run natively from the same contracts
    bounded = {}
    if ok:
        for spec in CFG.get("native", []):
            ms = spec.get("thorough_ms", spec["ms"] * 20) if THOROUGH else spec["ms"]
            rc, out = native.run("hunt", spec["match"], "--cases", spec.get("cases", 10 ** 9), "--ms", ms,
                                 "--seed", SEED, "--threads", 8, timeout=DEADLINE - time.time())
            if rc in (-6, -11):
                violations.append((spec["match"], f"property {PID}\nnative contract harnesses {spec['match']}\n"
                                   f"failed: process ended by signal {-rc}\n{out[-2000:]}", False))
            elif rc not in (0, 1) or (rc == 1 and "FAIL " not in out):
                sys.stdout.write(out[-3000:])
                problems.append(f"native run of {spec['match']} did not finish")
            for line in out.splitlines():
                m = re.match(r"OK (\S+) cases=(\d+) kept=(\d+) distinct=(\d+) covers=(\S.*)$", line)
                if m:
                    bounded[m.group(1)] = dict(cases=int(m.group(2)), kept=int(m.group(3)),
                                               distinct=int(m.group(4)), covers=m.group(5))
                    continue
                m = re.match(r"FAIL (\S+) \| (.*) \| values \[(.*)\]$", line)
                if m:
                    vals = m.group(3).replace(",", " ")
                    nm = m.group(1)
                    if any(v[0].replace("::k::", "::") == nm[3:] and v[2] for v in violations):
                        continue
                    violations.append((nm, "\n".join([
                        f"property {PID}", f"contract harness {nm} (run natively, bounded)", f"failed: {m.group(2)}",
                        f"command: native replay {nm} {vals}"]), True))

    for n, r in vres.items():
        if r["state"] == "failed":
            got = [v for v in violations if v[2]]
            if got:
                # the failing input is reported already: name the rejected obligations with it
                i = violations.index(got[0])
                violations[i] = (got[0][0], got[0][1] + f"\nVerus unit {n}: {verus.UNITS[n]['title']}\nrejected: {r['errors']} obligations\n"
                                 + r["output"][-4000:], True)
                continue
            violations.append(("verus:" + n, "\n".join([
                f"property {PID}", f"Verus unit {n}: {verus.UNITS[n]['title']}", f"failed: {r['errors']} obligations of the contract",
                "no failing input found by the bounded searches; verifier output:", r["output"][-8000:]]), False))

    # known findings
    kf = []
    kfp = os.path.join(ROOT, "known-findings.jsonl")
    if ok and os.path.exists(kfp):
        for line in open(kfp):
            line = line.strip()
            if not line or line.startswith("fixed:"):
                continue
            k = json.loads(line)
            if k["property"] != PID:
                continue
            rc, out = native.run("known", k["id"])
            if rc == 1:
                print(f"KNOWN-FINDING: property={PID} {k['what']}", flush=True)
                kf.append(k["id"])

    for h, d in results.items():
        if d["state"] == "vacuous" or d["state"] in ("unwound", "timeout", "error") and not is_bounded(h):
            problems.append(f"{h}: {d['state']} {d['unsat'] or d['unwound'] or ''}")
        elif d["state"] in ("unwound", "timeout", "error"):
            # a stand-in with a stated bound: recorded as not discharged, searched natively above
            log(f"bounded stand-in not decided by Kani ({d['state']}), only searched natively: {h}")
    if CFG.get("kani", True) and sum(d["obligations"] for d in results.values()) == 0:
        problems.append("no obligations generated")

    okres = [d for d in results.values() if d["state"] == "ok"]
    full = {h: d for h, d in results.items() if not is_bounded(h)}
    part = {h: d for h, d in results.items() if is_bounded(h)}
    fns = sorted(set().union(*[d["fns"] for d in results.values()])) if results else []
    cov = dict(
        obligations=sum(d["obligations"] for d in full.values()) + sum(r["verified"] + r["errors"] for r in vres.values()),
        discharged=sum(d["discharged"] for d in full.values() if d["state"] == "ok") + sum(r["verified"] for r in vres.values() if r["state"] == "proved"),
        checker_cmd=" ".join(kani_cmd) + "".join(f"; verus .build/verus_{PID}/{n}.rs" for n in vres),
        trusted_base=["Kani 0.68 translation of MIR to goto programs", "CBMC 6.11 symbolic execution and bit-blasting",
                      "CaDiCaL SAT solver", "Verus and Z3 (units under verus_units)", "rustc (Kani's nightly) front end",
                      "the wire-format tables and codecs in /verif/h/src/table.rs and val.rs"],
        backend=("Verus 0.2026.09.13 / Z3; " if vres else "") + "Kani 0.68.0 / CBMC 6.11.0 / CaDiCaL",
        harnesses=len(results),
        harnesses_discharged=len(okres),
        reachability_covers=sum(d["covers"] for d in results.values()),
        reachability_covers_satisfied=sum(d["satisfied"] for d in results.values()),
        solver_s=round(sum(d["solver_s"] for d in results.values()), 2),
        verification_s=round(sum(d["ms"] for d in results.values()) / 1000, 1),
        functions_under_contract=CFG.get("functions", []),
        repo_functions_with_obligations=len(fns),
        repo_functions=[f[:160] for f in fns[:400]],
        complete_harnesses=sorted(full),
        bounded_harnesses=sorted(part),
        bounded_obligations=sum(d["obligations"] for d in part.values()),
        bounded_obligations_discharged=sum(d["discharged"] for d in part.values() if d["state"] == "ok"),
        bounds=CFG.get("bounds", ""),
        verus_units={n: dict(proves=verus.UNITS[n]["title"], state=r["state"], functions_verified=r["verified"], errors=r["errors"],
                             seconds=r["seconds"], extraction_replaces=verus.UNITS[n]["drops"], assumes=verus.UNITS[n]["assumes"])
                     for n, r in vres.items()},
        native_bounded_runs=bounded,
        not_discharged={h: d["state"] for h, d in results.items() if d["state"] != "ok"},
        known_findings_observed=kf,
        explanation=CFG.get("explanation", ""),
    )
    if bounded:
        cov["evaluations"] = sum(b["cases"] for b in bounded.values())
        cov["distinct_nontrivial"] = sum(b["distinct"] for b in bounded.values())
        cov["rule"] = ("evaluations: contract harness executions on pseudo-random inputs seeded by VERIF_SEED; "
                       "distinct_nontrivial: executions whose inputs met every precondition and whose input vector was not seen before (hashed)")
    ev = dict(property=PID, tier=TIER, seed=SEED, level=CFG.get("level", "proof"), coverage=cov,
              assumptions=CFG.get("assumptions", []) + [
                  "Kani's memory-safety checks on raw pointers are off: the crate contains no unsafe code (functional, overflow, bounds and panic obligations stay on)",
                  "arithmetic is machine arithmetic with overflow checks, not mathematical integers"],
              wall_s=round(time.time() - T0, 1), violations=len(violations))
    json.dump(ev, open(os.path.join(EV, PID + ".json"), "w"), indent=1)

    if violations:
        for i, (h, text, got) in enumerate(violations):
            rp = os.path.join(EV, f"replay-{PID}-{i}.txt")
            open(rp, "w").write(text + "\n")
            log("failed:", h, "|", text.splitlines()[3].strip() if len(text.splitlines()) > 3 else "")
            print(f"VIOLATION property={PID} replay={rp}" + ("" if got else " no-failing-input-found"), flush=True)
        return 1
    if problems:
        for p in problems:
            log("NO ANSWER:", p)
        return 2
    log(f"held: {cov['discharged']}/{cov['obligations']} obligations without bounds, "
        f"{cov['bounded_obligations_discharged']}/{cov['bounded_obligations']} bounded, in {len(okres)} harnesses; "
        f"{cov.get('evaluations', 0)} native executions")
    return 0


def is_bounded(h):
    return any(re.search(p, h) for p in CFG.get("bounded", []))


if __name__ == "__main__":
    for f in (f for f in os.listdir(EV) if f.startswith(f"replay-{PID}-")) if os.path.isdir(EV) else []:
        os.unlink(os.path.join(EV, f))
    sys.exit(main())
