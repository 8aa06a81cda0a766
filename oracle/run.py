"""python -m oracle.run PID SEED START BUDGET_S MAXCASES [IDX]  -> one JSON line"""
import json
import os
import sys
import time
import traceback

import numpy as np


def main():
    pid, seed, start, budget, maxc = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), \
        float(sys.argv[4]), int(sys.argv[5])
    try:
        from . import props
    except Exception as e:
        print(json.dumps(dict(status="import-error", trace=traceback.format_exc()[-1500:], error="%s: %s" % (type(e).__name__, e))))
        return
    fn = props.ORACLES[pid]
    t0 = time.time()
    run = skip = errors = 0
    weak = []
    last = None
    i = start
    while run + skip < maxc and time.time() - t0 < budget:
        try:
            r = fn(i, seed)
            if r == "skip":
                skip += 1
            else:
                run += 1
        except props.Fail as e:
            run += 1
            if e.weak and maxc > 1:
                # close to the tolerance: rounding does this once in 1e5 ill conditioned cases, a
                # wrong formula does it again and again
                weak.append((i, str(e)))
                if len(weak) < 3:
                    i += 1
                    continue
                i, e = weak[0]
            print(json.dumps(dict(status="fail", idx=i, seed=seed, msg=str(e)[:2000], cases=run)))
            return
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            repo = [f for f in tb if "/pykalman/" in f.filename]
            if repo and "/oracle/" not in tb[-1].filename:
                print(json.dumps(dict(status="fail", idx=i, seed=seed, cases=run,
                                      msg="%s: %s at %s:%d" % (type(e).__name__, e,
                                                               repo[-1].filename, repo[-1].lineno))))
                return
            last = traceback.format_exc()[-1500:]
            if not isinstance(e, (AttributeError, ImportError, np.linalg.LinAlgError)):
                # the result could not even be examined
                print(json.dumps(dict(status="fail", idx=i, seed=seed, cases=run, msg=last)))
                return
            errors += 1
            if errors >= 40:
                break
        i += 1
    print(json.dumps(dict(status="ok", cases=run, skipped=skip, next=i, wall=time.time() - t0,
                          errors=errors, weak=weak, last_error=last)))


if __name__ == "__main__":
    main()
