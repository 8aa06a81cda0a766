"""Numerical evaluation of an obligation the prover did not discharge.

Both sides are evaluated under random concrete values of every symbol that satisfy the path
facts.  A difference refutes the obligation (unless an uninterpreted intermediate value takes
part, when nothing can be concluded); agreement everywhere means the algebra was too weak."""
import math
import random
import zlib

import numpy as np
import z3

from . import alg
from .alg import Mat, Sc
from .fams import FAMS
from .lin import ACTIVE, Ctx, Lin, ONE, ZERO, f_eq


class Skip(Exception):
    pass


def atoms_of(f, acc):
    if f is True or f is False:
        return
    if f[0] in ("not", "and", "or"):
        for g in f[1:]:
            atoms_of(g, acc)
    elif f[0] not in ("ge", "eq", "ne"):
        acc.add(f)


def syms_of(f, acc):
    if f is True or f is False:
        return
    for g in f[1:]:
        if isinstance(g, Lin):
            acc.update(g.syms())
        elif isinstance(g, tuple):
            syms_of(g, acc)


class Env:
    """one concrete assignment"""

    def __init__(self, rng, facts, syms):
        self.rng, self.bools, self.vals, self.opaque = rng, {}, {}, False
        self.seed = rng.randrange(1 << 30)
        names = set(syms)
        for f in facts:
            syms_of(f, names)
        names |= {"n", "m", "T"}
        c = Ctx()
        s = z3.Solver()
        s.set("timeout", 3000)
        for f in facts:
            s.add(c._form(f))
        c2 = Ctx()
        c2.facts = list(facts)
        for f in facts:
            for e in c2._congruence(f):
                s.add(e)
        self.ints = {}
        for x in sorted(names):
            hi = {"n": 3, "m": 3, "T": 5}.get(x, 5)
            v = z3.Int(x)
            for cand in rng.sample(range(0, hi + 1), hi + 1) + [None]:
                s.push()
                if cand is not None:
                    s.add(v == cand)
                else:
                    s.add(v >= -40, v <= 60)
                if s.check() == z3.sat:
                    if cand is None:
                        val = s.model().eval(v, model_completion=True).as_long()
                        s.pop()
                        s.add(v == val)
                    else:
                        val = cand
                    self.ints[x] = val
                    break
                s.pop()
            else:
                raise Skip("no assignment")
        if s.check() != z3.sat:
            raise Skip("no assignment")
        mdl = s.model()
        acc = set()
        for f in facts:
            atoms_of(f, acc)
        for a in sorted(acc, key=repr):
            v = mdl.eval(z3.Bool(repr(a)), model_completion=False)
            if z3.is_true(v) or z3.is_false(v):
                k = self.key(a)
                if k in self.bools and self.bools[k] != z3.is_true(v):
                    raise Skip("incongruent")
                self.bools[k] = z3.is_true(v)
        self.ctx = Ctx()
        for x, v in self.ints.items():
            self.ctx.assume(f_eq(Lin.of(x), Lin.of(v)))
        self.memo = {}

    def key(self, a):
        return tuple(self.lin(x) if isinstance(x, Lin) else x for x in a)

    def lin(self, l, b=None):
        l = Lin.of(l)
        r = l.c
        for s, k in l.t:
            if b is not None and s in b:
                r += k * b[s]
            elif s in self.ints:
                r += k * self.ints[s]
            else:
                raise Skip("unbound %s" % s)
        return r

    def form(self, f, b=None):
        if f is True or f is False:
            return f
        k = f[0]
        if k == "ge":
            return self.lin(f[1], b) >= 0
        if k == "eq":
            return self.lin(f[1], b) == 0
        if k == "ne":
            return self.lin(f[1], b) != 0
        if k == "not":
            return not self.form(f[1], b)
        if k == "and":
            return all(self.form(g, b) for g in f[1:])
        if k == "or":
            return any(self.form(g, b) for g in f[1:])
        key = tuple(self.lin(x, b) if isinstance(x, Lin) else x for x in f)
        if key not in self.bools:
            self.bools[key] = self.rand(("bool",) + key).random() < 0.4
        return self.bools[key]

    def rand(self, key):
        return random.Random(zlib.crc32(repr((self.seed, key)).encode()))

    def arr(self, key, r, c, sym=False):
        rs = np.random.RandomState(zlib.crc32(repr((self.seed, key)).encode()) & 0x7fffffff)
        a = rs.randn(r, c)
        if sym and r == c:
            a = a @ a.T / max(r, 1) + 0.7 * np.eye(r)
        return a


class NumExplorer:
    def __init__(self, env):
        self.env = env

    def branch(self, f):
        return self.env.form(f)


class Ev:
    def __init__(self, env):
        self.e = env

    def mat(self, m, b):
        r, c = self.e.lin(m.r, b), self.e.lin(m.c, b)
        out = np.zeros((r, c))
        for w, k in m.t.items():
            kv = self.sc(k, b)
            out = out + kv * self.word(w, b, r, c)
        return out

    def word(self, w, b, r=None, c=None):
        if not w:
            return np.eye(r) if r == c else np.eye(r, c)
        x = None
        for n, tr in w:
            v = self.node(n, b)
            v = v.T if tr else v
            if x is None:
                x = v
            else:
                if x.shape[1] != v.shape[0]:
                    raise Skip("shape")
                x = x @ v
        return x

    def sc(self, s, b):
        if not isinstance(s, Sc):
            return float(s)

        def poly(p):
            t = 0.0
            for mono, c in p.items():
                v = float(c)
                for a, e in mono:
                    v = v * self.satom(a, b) ** e
                t += v
            return t
        d = poly(s.d)
        if abs(d) < 1e-12:
            raise Skip("division")
        return poly(s.n) / d

    def satom(self, n, b):
        k, a = n.kind, n.args
        if k == "dim":
            return float(self.e.lin(Lin.of(a[0]), b))
        if k == "sym":
            if a[0] == "pi":
                return math.pi
            return self.named(n, b)[0, 0]
        if k == "sqrt":
            v = self.sc(a[0], b)
            if v < 0:
                raise Skip("sqrt of a negative number")
            return math.sqrt(v)
        if k == "fn":
            if a[0] in ("logdet", "det"):
                m = self.mat(a[1], b)
                d = np.linalg.det(m)
                if a[0] == "logdet" and d <= 0:
                    raise Skip("logdet")
                return math.log(d) if a[0] == "logdet" else d
            v = [self.sc(x, b) for x in a[1:]]
            f = {"log": math.log, "exp": math.exp, "abs": abs, "sign": lambda x: float((x > 0) - (x < 0)),
                 "recip": lambda x: 1 / x, "sqrt": math.sqrt}.get(a[0])
            if f is None:
                raise Skip("function " + str(a[0]))
            try:
                return f(*v)
            except ValueError:
                raise Skip("domain")
        if k == "w":
            return float(self.word(a[0], b, 1, 1)[0, 0])
        if k == "delta":
            return 1.0 if self.e.lin(a[0], b) == self.e.lin(a[1], b) else 0.0
        if k == "ssum":
            cnt, g, body, v = a
            t = 0.0
            for i in range(self.e.lin(cnt, b)):
                bb = dict(b)
                bb[v] = i
                if self.e.form(g, bb):
                    t += self.sc(body, bb)
            return t
        raise Skip("scalar " + k)

    def named(self, n, b):
        a = n.args
        nm = a[0]
        idx = tuple(self.e.lin(x, b) for x in a[1:])
        r = self.e.lin(n.r, b) if n.r is not None else 1
        c = self.e.lin(n.c, b) if n.c is not None else 1
        key = (nm, idx)
        if key in self.e.memo:
            return self.e.memo[key]
        if nm == "rectangular-identity":
            return np.eye(r, c)
        if isinstance(nm, tuple) and nm in FAMS.by_key:
            f = FAMS.by_key[nm]
            if len(self.e.memo) > 3000:
                raise Skip("size")
            if not all(-1 <= i <= 60 for i in idx):
                raise Skip("index")
            m = f.unfold(Lin.of(idx[0]))
            v = self.mat(m, {})
        elif isinstance(nm, tuple) and nm[:-1] in FAMS.cells:
            v = self.cell(nm, idx[0])
        elif isinstance(nm, tuple) and nm[0] == "flex":
            v = self.e.arr(("tv", nm[1], idx) if self.e.form(("tv", nm[1])) else (nm[1], ()), r, c, n.sym)
        elif isinstance(nm, tuple) and nm[0] == "tv":
            v = self.e.arr(("tv", nm[1], idx), r, c, n.sym)
        elif isinstance(nm, str) and "~" not in nm:
            v = self.e.arr((nm, idx), r, c, n.sym)
        else:
            self.e.opaque = True
            v = self.e.arr((repr(nm), idx), r, c, n.sym)
        self.e.memo[key] = v
        return v

    def cell(self, nm, j):
        """value of a loop-written cell that no invariant describes, by its own recurrence"""
        from .loops import leaves
        L, key, fam, facts = FAMS.cells[nm[:-1]]
        if len(self.e.memo) > 3000:
            raise Skip("size")
        k = dict(fam["idx"].t).get(L.vname)
        rest = self.e.lin(fam["idx"] - Lin(0, ((L.vname, k),)))
        it = (j - rest) * k
        if not 0 <= it < self.e.lin(L.count):
            raise Skip("cell outside of the loop range")
        b = {L.vname: it}
        sel = [x for g, x in zip(facts, fam["vals"]) if all(self.e.form(f, b) for f in g)]
        if len(sel) != 1:
            raise Skip("loop path")
        m = leaves(sel[0])[nm[-1] - 1]
        return self.mat(m, b) if isinstance(m, Mat) else np.array([[self.sc(m, b)]])

    def node(self, n, b):
        k, a = n.kind, n.args
        r, c = self.e.lin(n.r, b), self.e.lin(n.c, b)
        if k == "base":
            return self.named(n, b)
        if k == "J":
            st, ln = self.e.lin(a[1], b), self.e.lin(a[2], b)
            if st < 0 or st + ln > r:
                raise Skip("selector")
            x = np.zeros((r, c))
            for i in range(ln):
                x[st + i, i] = 1
            return x
        if k == "ones":
            return np.ones((r, 1))
        if k == "inv":
            m = self.mat(a[0], b)
            if m.shape[0] != m.shape[1] or (m.size and abs(np.linalg.det(m)) < 1e-9):
                raise Skip("singular")
            return np.linalg.inv(m)
        if k == "box":
            return self.mat(a[0], b)
        if k == "tri":
            m = self.mat(a[1], b)
            try:
                u = np.linalg.cholesky((m + m.T) / 2).T
            except np.linalg.LinAlgError:
                raise Skip("factor")
            if a[0] != "chol":
                self.e.opaque = True
            return u
        if k in ("uduU", "uduD"):
            m = self.mat(a[1], b)
            p = m[::-1, ::-1]
            try:
                lo = np.linalg.cholesky((p + p.T) / 2)
            except np.linalg.LinAlgError:
                raise Skip("factor")
            d = np.diag(lo)
            u = (lo / d)[::-1, ::-1]
            return u if k == "uduU" else (d ** 2)[::-1].reshape(-1, 1)
        if k == "diag":
            return np.diagflat(self.word(a[0], b, r, 1))
        if k == "diagof":
            return np.diag(self.mat(a[0], b)).reshape(-1, 1)
        if k == "ew":
            m = self.mat(a[1], b)
            f = {"sqrt": np.sqrt, "log": np.log, "exp": np.exp, "abs": np.abs, "sign": np.sign,
                 "recip": lambda x: 1 / x}.get(a[0])
            if f is None or (a[0] in ("sqrt", "log") and (m <= 0).any()):
                raise Skip("elementwise")
            return f(m)
        if k == "rows":
            N, kk, w, v = a
            x = np.zeros((r, c))
            for i in range(r):
                bb = dict(b)
                bb[v] = i
                x[i] = (self.sc(kk, bb) * self.word(w, bb, c, 1)).reshape(-1)
            return x
        if k == "msum":
            cnt, g, coef, body, v = a
            x = np.zeros((r, c))
            for i in range(self.e.lin(cnt, b)):
                bb = dict(b)
                bb[v] = i
                if self.e.form(g, bb):
                    x = x + self.sc(coef, bb) * self.word(body, bb, r, c)
            return x
        if k == "app":
            vals = [self.mat(y, b).reshape(-1) if isinstance(y, Mat) else np.array([self.sc(y, b)]) if isinstance(y, Sc)
                    else None for y in a[2:]]
            ex = tuple(self.e.lin(y, b) if isinstance(y, Lin) else y for y in a[1])
            out = np.zeros(r)
            for i, v in enumerate(vals):
                if v is None:
                    raise Skip("application")
                W = self.e.arr(("app", a[0], ex, i), r, v.size)
                out = out + np.tanh(W @ v) + 0.3 * (W @ v)
            return out.reshape(-1, 1)
        raise Skip("node " + k)


def classify(o, tries=24):
    """('refuted' | 'equal' | 'unknown', detail)"""
    a, b = o.pair[0], o.pair[1]
    facts = list(o.pair[2]) if len(o.pair) > 2 else list(getattr(o, "facts", []))
    d = a - b
    syms = alg.free_syms(d)
    rng = random.Random(7)
    good, why, opq = 0, "", False
    saved = dict(ACTIVE)
    try:
        for _ in range(tries):
            try:
                env = Env(rng, facts, [s for s in syms if not s.startswith("#")])
                ACTIVE["ctx"] = env.ctx
                ACTIVE["explorer"] = NumExplorer(env)
                ev = Ev(env)
                va, vb = ev.mat(a, {}), ev.mat(b, {})
                if va.shape != vb.shape or not (np.isfinite(va).all() and np.isfinite(vb).all()):
                    continue
                sc = 1 + max(abs(va).max(initial=0), abs(vb).max(initial=0))
                dif = abs(va - vb).max(initial=0)
                if dif > 1e-6 * sc:
                    if env.opaque:
                        opq = True
                        continue
                    return "refuted", "at %s, flags %s: %s is not %s" % (
                        {k: v for k, v in env.ints.items()},
                        {repr(k): v for k, v in list(env.bools.items())[:8]}, va.tolist(), vb.tolist())
                good += 1
                if good >= 6:
                    break
            except (Skip, RecursionError, np.linalg.LinAlgError, alg.ShapeError, ZeroDivisionError, OverflowError) as e:
                why = "%s: %s" % (type(e).__name__, e)
    finally:
        ACTIVE.update(saved)
    if opq:
        return "unknown", "depends on an uninterpreted intermediate value"
    if good >= 3:
        return "equal", "both sides agree on %d random instances" % good
    return "unknown", why
