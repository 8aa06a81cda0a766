#!/usr/bin/env python3
"""check.py PID [--tier quick|thorough]: decides one property on /repo's current tree.

1. engine.prove discharges the property's obligations on the current source (contracts of the
   functions first, then the property over the contracts).
2. oracle.run executes the real code on generated inputs against independent references: the
   replay of counterexamples, and the labelled bounded stand-in for what is not discharged.

exit 0: held; exit 1 and a VIOLATION line otherwise.
"""
import json
import os
import random
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
VT = "python3-vt"

TRUSTED = [
    "CPython executes the mechanically transformed source as it executes the source (loops are driven by a controller, "
    "comprehensions call a helper; nothing else is changed)",
    "the algebraic normaliser and loop rule of /verif/engine (alg, vals, loops, fams)",
    "z3 (index arithmetic and mask conditions)",
    "contracts assumed for the numpy/scipy functions listed under external_contracts",
    "machine arithmetic is treated as exact real arithmetic, machine integers as mathematical integers",
]


def env(extra=None):
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
    e.update(extra or {})
    return e


class Oracle:
    def __init__(self, pid, seed, start, budget, maxc):
        e = env()
        if REPO != "/repo":
            e["PYTHONPATH"] = REPO
        self.a = (pid, seed, start, budget)
        self.t0 = time.time()
        self.limit = budget + 90
        self.p = subprocess.Popen([PY, "-m", "oracle.run", pid, str(seed), str(start), str(budget), str(maxc)],
                                  cwd=HERE, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)

    def result(self):
        try:
            out, err = self.p.communicate(timeout=max(1, self.limit - (time.time() - self.t0)))
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.communicate()
            return dict(status="timeout")
        for l in reversed(out.strip().splitlines()):
            try:
                return json.loads(l)
            except ValueError:
                continue
        return dict(status="crash", msg=(err or "")[-1500:], rc=self.p.returncode)


def known(pid):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)).get("findings", []) if f["property"] == pid]


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    man = [c for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"] if c["property"] == pid]
    level = man[0]["level"] if man else "proof"
    tmp = tempfile.mkdtemp(prefix="vf-")
    outp = os.path.join(tmp, "proof.json")
    plimit = 300 if tier == "quick" else 700
    pf = open(os.path.join(tmp, "proof.err"), "w+")
    cmd = [VT, "-m", "engine.prove", pid, outp]
    proof = subprocess.Popen(cmd, cwd=HERE, env=env({"PYTHONPATH": HERE, "VERIF_REPO": REPO, "VERIF_TIER": tier}),
                             stdout=pf, stderr=pf)
    nproc, budget = (2, 12) if tier == "quick" else (6, 240)
    oracles = [Oracle(pid, seed + 1000 * k, 0, budget, 10 ** 9) for k in range(nproc)]
    ores = [o.result() for o in oracles]
    try:
        proof.wait(timeout=max(1, plimit - (time.time() - t0)))
    except subprocess.TimeoutExpired:
        proof.kill()
        proof.wait()
    if os.path.exists(outp):
        pr = json.load(open(outp))
    else:
        pf.seek(0)
        pr = dict(obligations=[], parts=[], error="the prover gave no answer: " + pf.read()[-600:], verified={}, dropped={})
    pf.close()
    obl = pr["obligations"]
    failed = [o for o in obl if o["ok"] is False and (o.get("triage") == "refuted" or o.get("definite"))]
    undecided = [o for o in obl if o["ok"] is not True and o not in failed]
    missing = [x for x in pr.get("expect", []) if not any(o["name"].startswith(x) for o in obl)]
    if pr.get("error"):
        undecided.append(dict(name="prover", ok=None, detail=pr["error"]))
    for x in missing:
        undecided.append(dict(name=x, ok=None, detail="obligation not generated"))
    if not obl and not undecided:
        undecided.append(dict(name=pid, ok=None, detail="no obligations"))

    def bad(rs):
        return [r for r in rs if r["status"] in ("fail", "import-error", "crash")]
    extended = []
    if not bad(ores) and (failed or undecided):
        left = max(20, min(90 if tier == "quick" else 240, 800 - (time.time() - t0)))
        b = left if failed else min(left, 45)
        ext = [Oracle(pid, seed + 77 + 1000 * k, 0, b, 10 ** 9) for k in range(6)]
        extended = [o.result() for o in ext]
    fails = bad(ores) + bad(extended)
    viol = []
    kn = known(pid)
    for r in fails[:1]:
        text = r.get("msg") or r.get("error") or "the oracle process died"
        hit = [k for k in kn if k.get("match") and k["match"] in text]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, hit[0]["what"]))
            continue
        viol.append((dict(kind="failing input", seed=r.get("seed"), idx=r.get("idx"), what=text,
                          trace=r.get("trace"), failed_obligations=[o["name"] for o in failed + undecided][:20],
                          replay_cmd="cd /verif && /opt/venv/bin/python -m oracle.run %s %s %s 600 1" % (
                              pid, r.get("seed"), r.get("idx"))), ""))
    if not viol and failed:
        rest = [o for o in failed if not any(k.get("obligation") and k["obligation"] == o["name"] for k in kn)]
        for k in kn:
            if any(k.get("obligation") == o["name"] for o in failed):
                print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        if rest:
            viol.append((dict(kind="failed obligation", obligations=rest[:20], dropped_contracts=pr.get("dropped"),
                              verifier_output=json.dumps(pr, indent=1)[:20000],
                              replay_cmd="cd /verif && PYTHONPATH=/verif python3-vt -m engine.prove %s /tmp/proof-%s.json" % (pid, pid)),
                         " no-failing-input-found"))
    cases = sum(r.get("cases", 0) for r in ores + extended)
    n_ok = sum(1 for o in obl if o["ok"] is True) + pr.get("contract_obligations", 0)
    n_all = len(obl) + pr.get("contract_obligations", 0) + len([u for u in undecided if u not in obl])
    inv = [i for i in pr.get("invariants", []) if i["kind"] == "invariant"]
    cov = dict(
        obligations=n_all, discharged=n_ok,
        checker_cmd="PYTHONPATH=/verif " + " ".join(cmd[:-1]) + " /tmp/proof.json",
        trusted_base=TRUSTED,
        functions_under_contract=sorted(pr.get("verified", {})),
        contract_obligations={k: v["obligations"] for k, v in pr.get("verified", {}).items()},
        contracts_not_usable=pr.get("dropped", {}),
        property_obligations=sorted({o["name"] for o in obl if o["ok"] is True}),
        parts=pr.get("parts", []),
        loop_invariants=sorted({"%s: %s" % (i["where"], i["text"]) for i in inv}),
        back_ends={"algebraic normal forms": pr.get("algebra"), "z3": pr.get("z3")},
        undecided=[dict(name=o["name"], detail=o.get("detail"), triage=o.get("triage")) for o in undecided][:30],
        refuted=[dict(name=o["name"], detail=o.get("triage_detail") or o.get("detail")) for o in failed][:30],
        external_contracts=pr.get("used", []), evaluations=cases,
        rule="oracle cases are drawn by /verif/oracle/gen.py from (property, index, seed): random dimensions, lengths, masks, "
             "constant/per-step parameters; a case counts when its preconditions hold (others are skipped)",
        distinct_nontrivial=cases,
        bounded="the concrete oracle runs (dimensions up to about 5, up to about 10 time steps) replay counterexamples and stand "
                "in for the undecided obligations; they are not counted as proved",
        samples=[dict(property=pid, seed=seed + 1000 * k, index=i) for k in range(1) for i in range(3)],
    )
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(time.time() - t0, 2),
              assumptions=pr.get("assume", []) + pr.get("notes", []), violations=len(viol))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    subprocess.call(["rm", "-rf", tmp])
    for o in undecided:
        print("UNDECIDED %s: %s (bounded stand-in: %d oracle cases)" % (o["name"], (o.get("detail") or o.get("triage_detail") or
                                                                                  "not proved")[:200], cases))
    if viol:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        p = os.path.join(HERE, "replays", "%s-%s.json" % (pid, tier))
        d, tail = viol[0]
        d.update(property=pid, tier=tier)
        with open(p, "w") as f:
            json.dump(d, f, indent=1)
        print(d.get("what") or "; ".join("%s: %s" % (o["name"], o.get("triage_detail") or o.get("detail")) for o in d["obligations"])[:1500])
        print("VIOLATION property=%s replay=%s%s" % (pid, p, tail))
        return 1
    print("%s: %d of %d obligations discharged, %d oracle cases, %.1fs" % (pid, n_ok, n_all, cases, time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
