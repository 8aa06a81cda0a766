"""python -m engine.prove PID OUT.json -- discharges the obligations of one property.

The sources of /repo are read now; every contract the property uses is verified on the
function bodies first (bottom-up), then the property's own obligations are generated from the
entry points and discharged."""
import json
import os
import resource
import sys
import time
import traceback

from . import alg, contracts, fams, lin, npmodel
from .contracts import CON, Obligation
from .fams import FAMS
from .lin import ACTIVE, Ctx
from .vals import Failed, Poison, Restart, ST, Unsupported


class Proof:
    def __init__(self, pid):
        self.pid = pid
        self.obl = []            # (name, ok, detail, pair)
        self.parts = []
        self.dropped = {}
        self.verified = {}
        self.pending = []
        self.notes = []

    def note(self, text):
        self.notes.append(text)

    def fresh(self):
        """a freshly loaded copy of the sources, a fresh context"""
        from . import spec, std
        ST.reset()
        ST.loops[:] = []
        ST.peel.clear()
        FAMS.active = []
        FAMS.abstractions = ("id",)
        CON.opaque = {}
        C = spec.base_ctx()
        ACTIVE["ctx"] = C
        ACTIVE["explorer"] = None
        CON.install(self.L)
        return C

    def load(self):
        from . import loader
        self.L = loader.load()

    def check_contract(self, name, stack=()):
        if name in self.verified or name in CON.off:
            return
        saved = set(CON.used)
        CON.used.clear()
        C = ACTIVE["ctx"]
        act = list(FAMS.active)
        ab = FAMS.abstractions
        obl = contracts.verify_contract(name)
        FAMS.abstractions = ab
        FAMS.active = act
        used = set(CON.used) - {name}
        CON.used.clear()
        CON.used |= saved
        ok = obl is not None and bool(obl) and all(o.ok for o in obl)
        if not ok:
            CON.off.add(name)
            self.dropped[name] = "; ".join("%s: %s" % (o.name, o.detail or ("not proved" if o.ok is False else "?"))
                                           for o in (obl or []) if not o.ok)[:600] or "does not bind"
            return
        for u in sorted(used):
            if u not in self.verified and u not in CON.off and u not in stack:
                self.check_contract(u, stack + (name,))
                if u in CON.off:
                    # verify again with the callee's body
                    return self.check_contract(name, stack)
        self.verified[name] = dict(obligations=[o.name for o in obl], uses=sorted(used))

    def part(self, label, fn):
        """run one group of obligations, with all used contracts verified"""
        t0 = time.time()
        for attempt in range(12):
            out = []
            CON.used.clear()
            C = self.fresh()
            err = None
            npaths = 0
            try:
                def run():
                    return fn(self.L, out)
                npaths = len(contracts.explore(run, out=out))
            except (Unsupported, RecursionError) as e:
                err = ("unsupported", str(e) or type(e).__name__)
            except Failed as e:
                err = ("failed", str(e), e.what == "frame")
            except (alg.ShapeError, IndexError, ValueError, TypeError, KeyError, AttributeError, AssertionError,
                    ZeroDivisionError, NameError, RuntimeError, Restart) as e:
                tb = traceback.extract_tb(e.__traceback__)
                err = ("unsupported", "%s: %s (%s)" % (type(e).__name__, e,
                                                       " < ".join("%s:%d" % (os.path.basename(f.filename), f.lineno)
                                                                  for f in reversed(tb[-4:]))))
            used = sorted(CON.used)
            self.fresh()
            for u in used:
                self.check_contract(u)
            if any(u in CON.off for u in used):
                continue
            break
        if err:
            out.append(Obligation(label, None if err[0] == "unsupported" else False, err[1], definite=len(err) > 2 and err[2]))
        elif not npaths:
            out.append(Obligation(label, None, "no feasible path (vacuous)"))
        elif not out:
            out.append(Obligation(label, None, "no obligation generated"))
        for o in out:
            o.name = label + ": " + o.name if not o.name.startswith(label) else o.name
        self.obl += out
        self.parts.append(dict(part=label, paths=npaths, obligations=len(out), ok=all(o.ok for o in out),
                               contracts=used, wall=round(time.time() - t0, 2)))
        return out


def collect(pr, t0):
    """what one process found, as plain data (with triage of what is not discharged)"""
    from . import triage
    ob = []
    budget = time.time() + 20
    for o in pr.obl:
        d = dict(name=o.name, ok=o.ok, detail=o.detail)
        if o.definite:
            d["definite"] = True
        if o.ok is False and o.pair is not None and time.time() < budget:
            try:
                v = triage.classify(o)
                d["triage"], d["triage_detail"] = v
            except Exception as e:
                d["triage"], d["triage_detail"] = "unknown", "%s: %s" % (type(e).__name__, e)
        ob.append(d)
    return dict(obligations=ob, parts=pr.parts, dropped=pr.dropped, verified=pr.verified,
                invariants=[dict(kind=k, where=w, text=t, ok=o) for k, w, t, o in fams.LOG][:400],
                used=sorted(npmodel.USED), assume=sorted(map(str, npmodel.ASSUME)),
                z3=dict(queries=Ctx.stats["queries"], time=round(Ctx.stats["time"], 3)),
                algebra=dict(queries=fams.STATS["queries"], time=round(fams.STATS["time"], 3)),
                wall=round(time.time() - t0, 2))


def merge(rs):
    out = dict(obligations=[], parts=[], dropped={}, verified={}, invariants=[], used=set(), assume=set(),
               z3=dict(queries=0, time=0.0), algebra=dict(queries=0, time=0.0))
    for r in rs:
        out["obligations"] += r["obligations"]
        out["parts"] += r["parts"]
        out["dropped"].update(r["dropped"])
        out["verified"].update(r["verified"])
        for i in r["invariants"]:
            if i not in out["invariants"]:
                out["invariants"].append(i)
        out["used"] |= set(r["used"])
        out["assume"] |= set(r["assume"])
        for k in ("z3", "algebra"):
            for q in r[k]:
                out[k][q] = round(out[k][q] + r[k][q], 3)
    out["used"], out["assume"] = sorted(out["used"]), sorted(out["assume"])
    out["contract_obligations"] = sum(len(v["obligations"]) for v in out["verified"].values())
    return out


class Collector:
    """the parts of a property (run later, in parallel)"""

    def __init__(self):
        self.parts = []
        self.notes = []

    def part(self, label, fn):
        self.parts.append((label, fn))

    def note(self, text):
        if text not in self.notes:
            self.notes.append(text)


def run_parts(pid, parts, jobs, limit):
    """every part in its own forked process"""
    import pickle
    import tempfile
    tmp = tempfile.mkdtemp(prefix="vp-")
    todo = list(enumerate(parts))
    live, res = {}, {}
    tend = time.time() + limit
    while todo or live:
        while todo and len(live) < jobs:
            i, (label, fn) = todo.pop(0)
            f = os.path.join(tmp, str(i))
            pidc = os.fork()
            if pidc == 0:
                rc = 1
                try:
                    t0 = time.time()
                    pr = Proof(pid)
                    pr.load()
                    pr.part(label, fn)
                    with open(f, "wb") as h:
                        pickle.dump(collect(pr, t0), h)
                    rc = 0
                except BaseException as e:
                    with open(f + ".err", "w") as h:
                        h.write("%s: %s" % (type(e).__name__, e))
                finally:
                    os._exit(rc)
            live[pidc] = (i, label, f)
        try:
            p, st = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            p = 0
        if p == 0:
            if time.time() > tend:
                import signal
                for q in live:
                    os.kill(q, signal.SIGKILL)
            time.sleep(0.02)
            continue
        if p not in live:
            continue
        i, label, f = live.pop(p)
        if os.path.exists(f) and st == 0:
            with open(f, "rb") as h:
                res[i] = pickle.load(h)
        else:
            why = open(f + ".err").read() if os.path.exists(f + ".err") else "process ended with status %s%s" % (
                st, " (time limit)" if time.time() > tend else "")
            res[i] = dict(obligations=[dict(name=label, ok=None, detail=why)], parts=[dict(part=label, ok=False, paths=0, obligations=1, contracts=[], wall=0)],
                          dropped={}, verified={}, invariants=[], used=[], assume=[], z3={}, algebra={})
        if time.time() > tend:
            todo = [t for t in todo if res.setdefault(t[0], dict(
                obligations=[dict(name=t[1][0], ok=None, detail="time limit")],
                parts=[dict(part=t[1][0], ok=False, paths=0, obligations=1, contracts=[], wall=0)], dropped={}, verified={},
                invariants=[], used=[], assume=[], z3={}, algebra={})) is None]
    import shutil
    shutil.rmtree(tmp, ignore_errors=True)
    return [res[i] for i in sorted(res)]


def main():
    pid, outp = sys.argv[1], sys.argv[2]
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(20000)
    t0 = time.time()
    res = dict(pid=pid, obligations=[], error=None)
    jobs = int(os.environ.get("VERIF_JOBS", "5"))
    limit = float(os.environ.get("VERIF_PROOF_LIMIT", "600"))
    try:
        from . import proofs
        fn, need = proofs.PROOFS[pid], proofs.EXPECT.get(pid, [])
        res["expect"] = need
        col = Collector()
        fn(col)
        res["notes"] = col.notes
        res.update(merge(run_parts(pid, col.parts, jobs, limit)))
    except Exception as e:
        res["error"] = "%s: %s" % (type(e).__name__, e)
        res["trace"] = traceback.format_exc()[-2500:]
    res["wall"] = round(time.time() - t0, 2)
    with open(outp + ".tmp", "w") as f:
        json.dump(res, f, indent=1)
    os.replace(outp + ".tmp", outp)


if __name__ == "__main__":
    main()
