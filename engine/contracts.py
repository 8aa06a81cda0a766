"""Function contracts.

A contract states the result of a function of /repo as a formula of its arguments.  It is
verified once, on the function's own body, for arbitrary arguments; verified contracts stand
in for the body at call sites (a caller is checked against the callee's contract).  A contract
that no longer binds to the function's parameters, or that the body does not satisfy, is
dropped and the body itself is executed at the call sites instead.
"""
import inspect

from . import alg
from .alg import Mat, Sc, base
from .fams import FAMS, LOG, prove_eq, record
from .lin import ACTIVE, Explorer, Lin, ONE, ZERO, branch, ctx, decide, f_and, f_ge, f_lt
from .vals import (Arr, Failed, Flex, Restart, SInt, SReal, ST, Unsupported, _scalarish, fresh, is_intlike, mk_int, new_arr,
                   new_fam, same_dim, to_sc)


class NotApplicable(Exception):
    pass


class Vec:
    def __init__(self, m):
        self.m = m

    def value(self):
        return new_arr(self.m, (self.m.r,))


class Mtx:
    def __init__(self, m):
        self.m = m

    def value(self):
        return new_arr(self.m, (self.m.r, self.m.c))


class Seq:
    """array of length n (first axis) whose entries are fn(i)"""

    def __init__(self, n, sub, fn):
        self.n, self.sub, self.fn = Lin.of(n), tuple(Lin.of(s) for s in sub), fn

    def value(self):
        return new_fam((self.n,) + self.sub, self.fn)


class Real:
    def __init__(self, s):
        self.s = s

    def value(self):
        return SReal(self.s)


class Same:
    """the very object passed in"""

    def __init__(self, x):
        self.x = x

    def value(self):
        return self.x


class Obj:
    """object with attributes (constructed by `make`)"""

    def __init__(self, make, fields):
        self.make, self.fields = make, fields

    def value(self):
        return self.make({k: to_value(v) for k, v in self.fields.items()})


def to_value(e):
    if isinstance(e, tuple) and hasattr(e, "_fields"):
        return type(e)(*[to_value(x) for x in e])
    if isinstance(e, tuple):
        return tuple(to_value(x) for x in e)
    if hasattr(e, "value"):
        return e.value()
    return e


class Obligation:
    """ok: True discharged, False not proved, None outside of the fragment; `definite`: a False
    needs no numerical confirmation (wrong structure, missing error, write to an input)"""

    def __init__(self, name, ok, detail="", pair=None, definite=False):
        self.name, self.ok, self.detail, self.pair, self.definite = name, ok, detail, pair, definite and ok is False
        if pair is not None and ok is False:
            self.facts = list(ctx().facts)


def compare(res, exp, label, out):
    """append Obligations for result = expectation"""
    if isinstance(exp, tuple):
        if hasattr(res, "_fields") or isinstance(res, (tuple, list)):
            if len(res) == len(exp):
                for k, (r, e) in enumerate(zip(res, exp)):
                    compare(r, e, "%s[%d]" % (label, k), out)
                return
        out.append(Obligation(label, False, "result is not a tuple of %d values" % len(exp), definite=True))
        return
    if isinstance(exp, Obj):
        for k, e in exp.fields.items():
            r = getattr(res, k, None)
            compare(r, e, "%s.%s" % (label, k), out)
        return
    if isinstance(exp, Same):
        out.append(Obligation(label, res is exp.x, "is the given object", definite=True))
        return
    if exp is None:
        out.append(Obligation(label, res is None, "is None", definite=True))
        return
    if callable(exp):
        exp(res, label, out)
        return
    if isinstance(exp, Real):
        if not _scalarish(res):
            if isinstance(res, Arr) and res.ndim == 0:
                res = SReal(res.mat().as_scalar())
            else:
                out.append(Obligation(label, False, "result is not a scalar", definite=True))
                return
        a, b = Mat.scalar(to_sc(res)), Mat.scalar(exp.s)
        out.append(Obligation(label, prove_eq(a, b), "", (a, b)))
        return
    if isinstance(res, Flex):
        res = res.resolve()
    if not isinstance(res, Arr):
        out.append(Obligation(label, False, "result is not an array (%s)" % type(res).__name__, definite=True))
        return
    d = res.dims()
    sh = {Vec: lambda: (exp.m.r,), Mtx: lambda: (exp.m.r, exp.m.c), Seq: lambda: (exp.n,) + exp.sub}[type(exp)]()
    if len(d) != len(sh) or not all(same_dim(x, y) for x, y in zip(d, sh)):
        out.append(Obligation(label, False, "shape %s instead of %s" % (d, sh), definite=True))
        return
    if isinstance(exp, Seq):
        C = ctx()
        t = Lin.of("t'")
        k = C.snapshot()
        C.assume(f_ge(t, ZERO))
        C.assume(f_lt(t, exp.n))
        if C.feasible():
            oks = []
            pairs = []

            def one():
                a = res.entry(t)
                b = exp.fn(t)
                oks.append(prove_eq(a, b))
                pairs.append((a, b, list(C.facts)))
            Explorer(C).run(one)
            bad = [p for o, p in zip(oks, pairs) if not o]
            C.restore(k)
            out.append(Obligation(label + "[t]", not bad and bool(oks), "", bad[0] if bad else None))
        else:
            C.restore(k)
            out.append(Obligation(label + "[t] (empty)", True))
        return
    a = res.mat()
    out.append(Obligation(label, prove_eq(a, exp.m), "", (a, exp.m)))


class Contract:
    def __init__(self, target, params, spec, generic, note="", guide=None):
        self.target, self.params, self.spec, self.generic, self.note = target, params, spec, generic, note
        self.guide = guide        # args -> loop invariants of the body (inv.Guide)

    def __repr__(self):
        return self.target


class Contracts:
    def __init__(self):
        self.all = {}
        self.off = set()          # contracts not (yet) usable: body is executed
        self.used = set()
        self.inside = []          # contract being verified
        self.orig = {}
        self.opaque = {}          # weaker views of contracts: "a function of these arguments"

    def add(self, c):
        self.all[c.target] = c

    def install(self, loaded):
        """bind the contracts to the functions of the freshly loaded modules"""
        if getattr(loaded, "contracts_installed", False):
            return
        loaded.contracts_installed = True
        self.orig = {}
        self.bound = {}
        for name, c in self.all.items():
            mod, _, fn = name.rpartition(".")
            holder, f = None, None
            if mod in loaded.mods:
                holder = loaded.mods[mod]
                f = getattr(holder, fn, None)
            else:
                m2, _, cl = mod.rpartition(".")
                if m2 in loaded.mods and hasattr(loaded.mods[m2], cl):
                    holder = getattr(loaded.mods[m2], cl)
                    f = holder.__dict__.get(fn)
            if not inspect.isfunction(f) or getattr(f, "__vf_contract__", None):
                record("contract", name, "does not bind (function not found)", None)
                continue
            sig = inspect.signature(f)
            if not set(c.params) <= set(sig.parameters):
                record("contract", name, "does not bind (parameters changed)", None)
                continue
            self.orig[name] = f
            w = self.wrap(c, f, sig)
            for m in loaded.mods.values():
                for k, v in list(vars(m).items()):
                    if v is f:
                        setattr(m, k, w)
            if inspect.isclass(holder):
                setattr(holder, fn, w)

    def wrap(self, c, f, sig):
        def stub(*a, **k):
            if c.target in self.off:
                return f(*a, **k)
            try:
                b = sig.bind(*a, **k)
            except TypeError:
                return f(*a, **k)
            b.apply_defaults()
            args = dict(b.arguments)
            extra = {x: args.pop(x) for x in list(args) if x not in c.params}
            for x, v in extra.items():
                p = sig.parameters[x]
                if p.default is inspect.Parameter.empty or not (v is p.default or (not callable(v) and
                                                                                  isinstance(v, (int, str, bool, float, type(None))) and v == p.default)):
                    return f(*a, **k)
            try:
                e = self.opaque.get(c.target, c.spec)(**args)
            except (NotApplicable, AttributeError):
                return f(*a, **k)
            self.used.add(c.target)
            return to_value(e)
        stub.__vf_contract__ = c.target
        stub.__wrapped__ = f
        stub.__name__ = f.__name__
        return stub


CON = Contracts()


def contract(target, params, generic, note="", guide=None):
    def dec(spec):
        CON.add(Contract(target, params.split(), spec, generic, note, guide))
        return spec
    return dec


def explore(fn, limit=4000, out=None):
    """run fn on every path, peeling loops on demand; returns [(result, facts)]; `out` collects
    obligations (those of an abandoned attempt are withdrawn)"""
    C = ctx()
    n0 = len(out) if out is not None else 0
    for _ in range(12):
        if out is not None:
            del out[n0:]
        k = C.snapshot()
        ex, lp = ACTIVE["explorer"], list(ST.loops)

        def go():
            ST.reset()
            return fn()
        try:
            return Explorer(C, limit).run(go)
        except Restart as r:
            ST.peel.add(r.where)
        finally:
            C.restore(k)
            ACTIVE["explorer"] = ex
            ST.loops[:] = []
    raise Unsupported("loop peeling does not stabilise")


def verify_contract(name):
    """obligations of one contract, on the function's own body"""
    c = CON.all[name]
    f = CON.orig.get(name)
    if f is None:
        return None
    out = []
    gens = c.generic()
    for label, setup in gens:
        C = ctx()
        k0 = C.snapshot()
        act = list(FAMS.active)

        def run():
            args = setup()
            old = ST.guide, ST.guide_out
            ST.guide, ST.guide_out = c.guide(args) if c.guide else None, []
            try:
                res = f(**args)
            finally:
                for o in ST.guide_out:
                    o.name = "%s{%s} %s" % (name, label, o.name)
                    out.append(o)
                ST.guide, ST.guide_out = old
                alg.DISCOVER[0] = 0
            exp = c.spec(**args)
            compare(res, exp, "%s{%s}" % (name, label), out)
        CON.off.add(name)
        try:
            n = explore(run, out=out)
            if not n:
                out.append(Obligation("%s{%s}" % (name, label), False, "no path"))
        except (Unsupported, Failed, alg.ShapeError, IndexError, ValueError, TypeError, KeyError, AttributeError, ArithmeticError,
                AssertionError, NameError, RuntimeError) as e:
            out.append(Obligation("%s{%s}" % (name, label), None, "%s: %s" % (type(e).__name__, e)))
        finally:
            CON.off.discard(name)
            C.restore(k0)
            FAMS.active = act
    return out
