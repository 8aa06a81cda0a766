"""Specification families (recursively defined sequences of matrices), loop-invariant
candidates built from them, and the equality prover."""
import time

from . import alg
from .alg import Mat, Sc, base, replace_nodes, subst, tri
from .lin import ACTIVE, Ctx, Explorer, Lin, ONE, ZERO, branch, ctx, decide, f_eq, f_ge
from .vals import Unsupported, same_dim

LOG = []          # (kind, where, text, ok)


def record(kind, where, text, ok):
    LOG.append((kind, where, text, ok))


class Family:
    """sequence of r x c matrices; atoms at(idx); unfold(idx) is the defining equation"""

    def __init__(self, name, model, r, c, unfold, sym=False, rec=False, back=False, cand=True):
        self.name, self.model = name, model
        self.r, self.c = Lin.of(r), Lin.of(c)
        self.key = ("fam", name, model)
        self.depth, self.shift, self.attr = 3, None, None
        self._unfold, self.sym, self.rec, self.back, self.cand = unfold, sym, rec, back, cand
        FAMS.by_key[self.key] = self

    def at(self, i):
        return base(self.key, self.r, self.c, (Lin.of(i),), self.sym)

    def unfold(self, i):
        return self._unfold(Lin.of(i))

    def __repr__(self):
        return self.name


class Registry:
    def __init__(self):
        self.reset()

    def reset(self):
        self.by_key = {}
        self.cells = {}
        self.active = []          # families offered as invariant candidates
        self.abstractions = ("id",)

    def define_cells(self, L, key, fam, facts):
        self.cells[fam["name"]] = (L, key, fam, facts)


FAMS = Registry()


class Candidate:
    def __init__(self, name, value, check):
        self.name, self.value, self.check = name, value, check
        self.attr = None


def _shifts(L, idx, key_is_array):
    yield "", (lambda j: j)


def candidates(proto, idx, L):
    out = []
    if not isinstance(proto, Mat):
        from .vals import Arr
        if isinstance(proto, Arr):
            return _obj_candidates(proto, idx, L)
        return out
    for f in FAMS.active:
        if not (same_dim(f.r, proto.r) and same_dim(f.c, proto.c)):
            continue
        for ab in FAMS.abstractions:
            c = _cand(f, ab, lambda j: j, "")
            if c is not None:
                out.append(c)
    return out


def _cand(f, ab, sh, txt):
    if ab == "id":
        return Candidate("%s[%s]" % (f.name, txt), lambda j: f.at(sh(j)),
                         lambda i, y: prove_eq(y, f.at(sh(i)), f.depth) if f.depth else prove_eq(y, lambda: f.unfold(sh(i)), 1))
    if f.r != f.c or not f.sym:
        return None
    if ab == "LLt":
        return Candidate("factor L L' of %s[%s]" % (f.name, txt), lambda j: tri(("cell", f.name), f.at(sh(j))).T,
                         lambda i, y: prove_eq(y @ y.T, f.at(sh(i))))
    if ab == "chol":
        def same(i, y):
            w = y.single()
            if not (w and len(w[1]) == 1 and w[1][0][0].kind == "tri" and w[1][0][0].args[0] == "chol" and not w[1][0][1] and w[0] == alg.S1):
                return False
            g = w[1][0][0].args[1]
            return prove_eq(g, f.at(sh(i)), f.depth) if f.depth else prove_eq(g, lambda: f.unfold(sh(i)), 1)
        return Candidate("Cholesky factor of %s[%s]" % (f.name, txt), lambda j: tri("chol", f.at(sh(j))), same)
    if ab == "UtU":
        return Candidate("factor U' U of %s[%s]" % (f.name, txt), lambda j: tri(("cell", f.name), f.at(sh(j))),
                         lambda i, y: prove_eq(y.T @ y, f.at(sh(i))))
    return None


def _obj_candidates(proto, idx, L):
    from .vals import new_arr
    if proto.ndim > 2:
        return []
    out = []
    d = proto.dims()
    m = proto.mat()
    pos = [("", lambda j: j)]
    try:
        from .vals import is_intlike
        t = L.at(L.v + L.off)
        if is_intlike(t):
            vn = L.vname

            def sh(k):
                return lambda j: Lin.of(t).subst({vn: j}) + k
            pos = [("", sh(0)), ("+1", sh(1)), ("-1", sh(-1))]
    except Exception:
        pass
    for f in FAMS.active:
        if not (same_dim(f.r, m.r) and same_dim(f.c, m.c)):
            continue
        for txt, s in pos:
            if f.shift is not None and txt != f.shift:
                continue
            for ab in FAMS.abstractions:
                c = _cand(f, ab, s, txt)
                if c is not None:
                    v0, k0 = c.value, c.check
                    out.append(Candidate(c.name, lambda j, v0=v0: new_arr(v0(j), d),
                                         lambda i, y, k0=k0: k0(i, y.mat())))
                    out[-1].attr = f.attr
    return out


# ------------------------------------------------------------------ equality prover
STATS = dict(queries=0, time=0.0)


def fam_atoms(x):
    out = {}
    for n in alg.all_nodes(x):
        if n.kind in ("base", "sym") and isinstance(n.args[0], tuple):
            k = n.args[0]
            if k in FAMS.by_key:
                out[n] = (FAMS.by_key[k], n.args[1])
    return out


def _unfold_some(x, pick):
    def rep(n):
        if n in pick:
            f, i = pick[n]
            return f.unfold(i)
        return None
    return replace_nodes(x, rep)


def expand_defs(x, limit=6):
    """unfold the abbreviating (non recursive) families"""
    for _ in range(limit):
        at = {n: fi for n, fi in fam_atoms(x).items() if not fi[0].rec}
        if not at:
            return x
        x = _unfold_some(x, at)
    return x


def _extreme(atoms):
    """atoms of each recursive family whose index is maximal (minimal for backward ones)"""
    best = {}
    for n, (f, i) in atoms.items():
        if not f.rec:
            continue
        b = best.get(f)
        if b is None:
            best[f] = [(n, i)]
            continue
        d = i - b[0][1]
        if d.is_const() and d.c == 0:
            b.append((n, i))
        elif d.is_const():
            if (d.c > 0) != f.back:
                best[f] = [(n, i)]
        else:
            b.append((n, i))
    return best


def zero_closed(d):
    if alg.zero(d) if isinstance(d, Mat) else d.is_zero():
        return True
    e = canon(d)
    return e is not d and (alg.zero(e) if isinstance(e, Mat) else e.is_zero())


def canon(d):
    """identify index expressions that the current facts make equal"""
    C = ctx()
    for _ in range(12):
        groups = {}
        for n in alg.all_nodes(d):
            if n.kind in ("base", "sym") and len(n.args) > 1:
                groups.setdefault(n.args[0], set()).update(x for x in n.args[1:] if isinstance(x, Lin))
            elif n.kind == "app" and n.args[1]:
                groups.setdefault(("app", n.args[0]), set()).update(x for x in n.args[1] if isinstance(x, Lin))
            elif n.kind == "J":
                groups.setdefault(("J", n.args[0]), set()).update([n.args[1]])
                groups[("J", n.args[0])].update([n.args[2]])
                groups.setdefault("JN", set()).add(n.args[0])
        m = None
        seen = set()
        for g in groups.values():
            g = sorted(g, key=lambda l: l.key())
            for i, a in enumerate(g):
                for b in g[i + 1:]:
                    df = a - b
                    if df.is_const() or df in seen:
                        continue
                    seen.add(df)
                    if C.equal(a, b) is True:
                        m = _solve(df)
                        if m:
                            break
                if m:
                    break
            if m:
                break
        if not m:
            return d
        d = subst(d, m)
    return d


def _solve(df):
    best = None
    for s, k in df.t:
        if k in (1, -1):
            rank = (0 if "~" in s or "'" in s else 1, s)
            if best is None or rank < best[0]:
                rest = df - Lin(0, ((s, k),))
                best = (rank, {s: -rest if k == 1 else rest})
    return best[1] if best else None


def _prove_zero(d, depth):
    if zero_closed(d):
        return True
    e = expand_defs(d)
    if e is not d and zero_closed(e):
        return True
    for k in range(depth):
        at = fam_atoms(e)
        best = _extreme(at)
        if not best:
            return False
        fs = [f for f in best if f.back] or list(best)
        pick = {n: at[n] for f in fs for n, _ in best[f]}
        e = expand_defs(_unfold_some(e, pick))
        if zero_closed(e):
            return True
        if e.t is None if isinstance(e, Mat) else False:
            return False
    return False


FAIL = []


def prove_eq(a, b, depth=3):
    """a = b for all values of the symbols satisfying the current facts"""
    STATS["queries"] += 1
    t0 = time.time()
    C = ctx()
    ok = [True]

    def run():
        v = b() if callable(b) else b
        if v is None:
            ok[0] = False
            return None
        d = a - v
        if not _prove_zero(d, depth) and not (alg.has_box(d) and _prove_zero(alg.unbox(d), depth)):
            ok[0] = False
            FAIL.append((a, b, list(C.facts)))
        return None
    try:
        Explorer(C, 200).run(_stop_early(run, ok))
    except alg.ShapeError:
        ok[0] = False
    finally:
        STATS["time"] += time.time() - t0
    if len(FAIL) > 20:
        del FAIL[:-20]
    return ok[0]


def _stop_early(run, ok):
    def f():
        if ok[0]:
            return run()
    return f


def equal_values(x, y):
    from .loops import leaves
    a, b = leaves(x), leaves(y)
    return len(a) == len(b) and all(prove_eq(p, q) for p, q in zip(a, b))


# ------------------------------------------------------------------ induction over families
def equal_by_induction(pairs, length, label, out, rewrite=None, known=None, depth=3):
    """obligations: for every pair (f, g) of families, f(t) = g(t) for 0 <= t < length, by
    induction on t (downwards for backward families; all pairs simultaneously).  `known` maps
    families already shown equal on that range; `rewrite(x, t)` replaces further atoms of the
    left-hand side that the hypotheses make equal.  Returns the map for later calls."""
    from .contracts import Obligation
    from .lin import f_lt
    C = ctx()
    t = Lin.of("t'")
    m = {f.key: g for f, g in pairs}
    known = dict(known or {})
    for f, g in pairs:
        if not f.rec:
            continue
        oks, bad = [], []

        def one():
            a = expand_defs(f.unfold(t))

            def rep(n):
                if n.kind not in ("base", "sym"):
                    return None
                key = n.args[0]
                if key in known or key in m:
                    i = n.args[1]
                    if decide(f_ge(i, ZERO)) is not True or decide(f_lt(i, length)) is not True:
                        return None
                    if key in known:
                        return known[key].at(i)
                    if decide(f_lt(t, i) if f.back else f_lt(i, t)) is True and FAMS.by_key[key].back == f.back:
                        return m[key].at(i)
                return None
            a = replace_nodes(a, rep)
            if rewrite is not None:
                a = rewrite(a, t)
            b = expand_defs(g.unfold(t))
            oks.append(prove_eq(a, b, depth))
            if not oks[-1]:
                bad.append((a, b, list(C.facts)))
        k = C.snapshot()
        C.assume(f_ge(t, ZERO))
        C.assume(f_lt(t, length))
        if C.feasible():
            Explorer(C).run(one)
        C.restore(k)
        o = Obligation("%s: %s by induction" % (label, f.name), bool(oks) and all(oks), "", bad[0] if bad else None)
        out.append(o)
    known.update(m)
    return known


def replace_fams(x, m, ok=None):
    """replace atoms of family f by those of m[f.key]"""
    def rep(n):
        if n.kind in ("base", "sym") and isinstance(n.args[0], tuple) and n.args[0] in m and (ok is None or ok(n.args[1])):
            return m[n.args[0]].at(n.args[1])
        return None
    return replace_nodes(x, rep)
