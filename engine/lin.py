"""Linear integer expressions, integer facts (decided by z3) and path contexts."""
from functools import lru_cache

import z3


class Lin:
    """immutable linear integer expression  const + sum coef*sym"""
    __slots__ = ("c", "t", "_h")

    def __init__(self, c=0, t=()):
        self.c = int(c)
        if isinstance(t, dict):
            t = tuple(sorted((s, int(k)) for s, k in t.items() if k))
        self.t = t
        self._h = hash((self.c, self.t))

    @staticmethod
    def of(x):
        if isinstance(x, Lin):
            return x
        if isinstance(x, str):
            return Lin(0, ((x, 1),))
        if isinstance(x, bool):
            return Lin(int(x))
        if isinstance(x, int):
            return Lin(x)
        if hasattr(x, "lin"):
            return x.lin
        raise TypeError("not an integer expression: %r" % (x,))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def __add__(self, o):
        o = Lin.of(o)
        d = dict(self.t)
        for s, k in o.t:
            d[s] = d.get(s, 0) + k
        return Lin(self.c + o.c, d)

    __radd__ = __add__

    def __neg__(self):
        return Lin(-self.c, tuple((s, -k) for s, k in self.t))

    def __sub__(self, o):
        return self + (-Lin.of(o))

    def __rsub__(self, o):
        return Lin.of(o) - self

    def __mul__(self, k):
        if isinstance(k, Lin):
            if k.is_const():
                k = k.c
            elif self.is_const():
                return k * self.c
            else:
                raise ValueError("nonlinear integer expression")
        return Lin(self.c * k, {s: v * k for s, v in self.t})

    __rmul__ = __mul__

    def is_const(self):
        return not self.t

    def syms(self):
        return {s for s, _ in self.t}

    def subst(self, m):
        if not any(s in m for s, _ in self.t):
            return self
        r = Lin(self.c)
        for s, k in self.t:
            r = r + (Lin.of(m[s]) * k if s in m else Lin(0, ((s, k),)))
        return r

    def ev(self, env):
        return self.c + sum(k * env[s] for s, k in self.t)

    def key(self):
        return (self.t, self.c)

    def __lt__(self, o):           # an arbitrary total order for canonical forms
        return self.key() < o.key()

    def __repr__(self):
        if not self.t:
            return str(self.c)
        out = ""
        for s, k in self.t:
            sg = "+" if k > 0 else "-"
            out += ("" if sg == "+" and not out else sg) + (s if abs(k) == 1 else "%d%s" % (abs(k), s))
        if self.c:
            out += "%+d" % self.c
        return out


ONE, ZERO = Lin(1), Lin(0)


# ----------------------------------------------------------------- formulas
# ('ge', Lin)  : Lin >= 0          ('eq', Lin) : Lin == 0       ('ne', Lin)
# ('b', key..) : boolean atom      ('not', f)  ('and', f..) ('or', f..)  True / False

def f_not(f):
    if f is True or f is False:
        return not f
    k = f[0]
    if k == "not":
        return f[1]
    if k == "ge":
        return ("ge", -f[1] - 1)
    if k == "eq":
        return ("ne", f[1])
    if k == "ne":
        return ("eq", f[1])
    if k == "and":
        return f_or(*[f_not(g) for g in f[1:]])
    if k == "or":
        return f_and(*[f_not(g) for g in f[1:]])
    return ("not", f)


def f_and(*fs):
    out = []
    for f in fs:
        if f is False:
            return False
        if f is True:
            continue
        if f[0] == "and":
            out.extend(f[1:])
        else:
            out.append(f)
    if not out:
        return True
    out2 = []
    for f in out:
        if f not in out2:
            out2.append(f)
    return out2[0] if len(out2) == 1 else ("and",) + tuple(out2)


def f_or(*fs):
    out = []
    for f in fs:
        if f is True:
            return True
        if f is False:
            continue
        if f[0] == "or":
            out.extend(f[1:])
        else:
            out.append(f)
    if not out:
        return False
    out2 = []
    for f in out:
        if f not in out2:
            out2.append(f)
    return out2[0] if len(out2) == 1 else ("or",) + tuple(out2)


def f_eq(a, b):
    d = Lin.of(a) - Lin.of(b)
    if d.is_const():
        return d.c == 0
    lead = d.t[0][1]
    if lead < 0:
        d = -d
    return ("eq", d)


def f_ge(a, b):
    d = Lin.of(a) - Lin.of(b)
    return d.c >= 0 if d.is_const() else ("ge", d)


def f_lt(a, b):
    return f_not(f_ge(a, b))


def f_subst(f, m, sub):
    """sub(x, m) substitutes inside atom arguments"""
    if f is True or f is False:
        return f
    k = f[0]
    if k in ("ge", "eq", "ne"):
        d = f[1].subst(m)
        if d.is_const():
            return {"ge": d.c >= 0, "eq": d.c == 0, "ne": d.c != 0}[k]
        if k in ("eq", "ne") and d.t[0][1] < 0:
            d = -d
        return (k, d)
    if k == "not":
        return f_not(f_subst(f[1], m, sub))
    if k == "and":
        return f_and(*[f_subst(g, m, sub) for g in f[1:]])
    if k == "or":
        return f_or(*[f_subst(g, m, sub) for g in f[1:]])
    return (k,) + tuple(sub(x, m) for x in f[1:])


def f_syms(f, syms):
    if f is True or f is False:
        return set()
    k = f[0]
    if k in ("ge", "eq", "ne"):
        return f[1].syms()
    if k in ("not", "and", "or"):
        r = set()
        for g in f[1:]:
            r |= f_syms(g, syms)
        return r
    r = set()
    for x in f[1:]:
        r |= syms(x)
    return r


class Infeasible(Exception):
    pass


_DECIDED, _SIGS, _NSIG, _LINS, _FORMS, _TAGS = {}, {}, [0], {}, {}, {}


def f_tags(f):
    """what connects a formula to others: its integer symbols, its boolean atoms"""
    r = _TAGS.get(f)
    if r is None:
        r = _TAGS[f] = frozenset(_tags(f))
    return r


def _tags(f):
    if f is True or f is False:
        return set()
    k = f[0]
    if k in ("ge", "eq", "ne"):
        return set(f[1].syms())
    if k in ("not", "and", "or"):
        out = set()
        for g in f[1:]:
            out |= _tags(g)
        return out
    out = set()
    for x in f[1:]:
        if isinstance(x, Lin):
            out |= x.syms()
    if any(isinstance(x, Lin) for x in f[1:]) or k in ("anymask", "allmask", "elemmask", "maskrange", "maskrangeall"):
        out.add(("atoms", "mask" if "mask" in k else k, f[1] if len(f) > 1 and not isinstance(f[1], Lin) else None))
    else:
        out.add(("atom", f))
    return out


class Ctx:
    """a conjunction of facts: integer facts go to z3, boolean atoms by unit propagation in z3 too"""
    stats = dict(queries=0, time=0.0)

    def __init__(self, facts=()):
        self.facts = list(facts)
        self._cache = {}
        self._sig = None

    def sig(self):
        """number identifying the current facts"""
        if self._sig is None:
            k = tuple(self.facts)
            self._sig = _SIGS.get(k)
            if self._sig is None:
                if len(_SIGS) > 200000:
                    _SIGS.clear()
                _NSIG[0] += 1
                self._sig = _SIGS[k] = _NSIG[0]
        return self._sig

    def snapshot(self):
        return len(self.facts)

    def restore(self, k):
        if len(self.facts) != k:
            del self.facts[k:]
            self._sig = None
            self._cache = {}

    def assume(self, f):
        if f is True:
            return
        self.facts.append(f)
        self._sig = None
        self._cache = {}

    def _lin(self, l):
        e = _LINS.get(l)
        if e is None:
            e = z3.IntVal(l.c)
            for s, k in l.t:
                e = e + k * z3.Int(s)
            _LINS[l] = e
        return e

    def _form(self, f):
        e = _FORMS.get(f)
        if e is None:
            e = _FORMS[f] = self._form1(f)
        return e

    def _form1(self, f):
        if f is True or f is False:
            return z3.BoolVal(f)
        k = f[0]
        if k == "ge":
            return self._lin(f[1]) >= 0
        if k == "eq":
            return self._lin(f[1]) == 0
        if k == "ne":
            return self._lin(f[1]) != 0
        if k == "not":
            return z3.Not(self._form(f[1]))
        if k == "and":
            return z3.And(*[self._form(g) for g in f[1:]])
        if k == "or":
            return z3.Or(*[self._form(g) for g in f[1:]])
        return z3.Bool(repr(f))

    def _z3(self, f):
        out = [self._form(f)]
        return out

    def _atoms(self, f, acc):
        if f is True or f is False:
            return
        if f[0] in ("not", "and", "or"):
            for g in f[1:]:
                self._atoms(g, acc)
        elif f[0] not in ("ge", "eq", "ne"):
            acc.add(f)

    def slice(self, f):
        """the facts connected to f through shared symbols (the others cannot influence it)"""
        want = set(f_tags(f))
        left = [(g, f_tags(g)) for g in self.facts]
        use = []
        again = True
        while again and left:
            again = False
            rest = []
            for g, t in left:
                if want.isdisjoint(t):
                    rest.append((g, t))
                else:
                    use.append(g)
                    want |= t
                    again = True
            left = rest
        return tuple(use)

    def decide(self, f):
        """True / False when entailed / refuted by the facts, None otherwise"""
        if f is True or f is False:
            return f
        if f in self._cache:
            return self._cache[f]
        if f[0] == "spos" and ("spos", -f[1]) in self.facts:
            return False
        if f[0] == "not" and f[1][0] == "spos" and ("spos", -f[1][1]) in self.facts:
            return True
        use = self.slice(f)
        key = (frozenset(use), f)
        r = _DECIDED.get(key, 0)
        if r == 0:
            r = self._solve(use, f)
            if len(_DECIDED) > 400000:
                _DECIDED.clear()
            _DECIDED[key] = r
        self._cache[f] = r
        return r

    def _solve(self, use, f):
        if f in use:
            return True
        if f_not(f) in use:
            return False
        if not use and f[0] not in ("ge", "eq", "ne", "not", "and", "or"):
            return None
        import time
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", 5000)
        for g in use:
            s.add(self._form(g))
        for e in self._congruence(f, use):
            s.add(e)
        g = self._form(f)
        r = None
        s.push()
        s.add(z3.Not(g))
        if s.check() == z3.unsat:
            r = True
        s.pop()
        if r is None:
            s.push()
            s.add(g)
            if s.check() == z3.unsat:
                r = False
            s.pop()
        Ctx.stats["queries"] += 1
        Ctx.stats["time"] += time.time() - t0
        return r

    def _congruence(self, f, facts=None):
        acc = set()
        self._atoms(f, acc)
        if not acc:
            return []
        base = set()
        for g in self.facts if facts is None else facts:
            self._atoms(g, base)
        out = []
        for a in acc:
            for b in base:
                if a != b and a[0] == b[0] and len(a) == len(b):
                    eqs = []
                    ok = True
                    for x, y in zip(a[1:], b[1:]):
                        if x == y:
                            continue
                        if isinstance(x, Lin) and isinstance(y, Lin):
                            eqs.append(self._lin(x) == self._lin(y))
                        else:
                            ok = False
                    if ok:
                        out.append(z3.Implies(z3.And(*eqs), self._form(a) == self._form(b)))
        for a in acc | base:
            if a[0] in ("allmask", "elemmask"):
                out.append(z3.Implies(self._form(a), self._form(("anymask",) + a[1:])))
            if a[0] in ("anymask", "allmask", "elemmask"):
                out.append(z3.Implies(self._form(("anymask",) + a[1:]), self._form(("maskrange", a[1]))))
            if a[0] == "maskrangeall":
                out.append(z3.Implies(self._form(a), self._form(("maskrange",) + a[1:])))
        return out

    def feasible(self):
        s = z3.Solver()
        s.set("timeout", 5000)
        for f in self.facts:
            s.add(self._form(f))
        Ctx.stats["queries"] += 1
        ex = []
        for f in self.facts:
            ex += self._congruence(f)
        s.push()
        for e in ex:
            s.add(e)
        r = s.check()
        s.pop()
        return r != z3.unsat

    def equal(self, a, b):
        a, b = Lin.of(a), Lin.of(b)
        if a == b:
            return True
        return self.decide(f_eq(a, b))


class Explorer:
    """enumerates the paths of a computation by re-execution with a decision trace"""

    def __init__(self, ctx, limit=4000):
        self.ctx, self.limit = ctx, limit

    def run(self, fn):
        """yields (result, path facts) for each feasible path; fn must undo its own effects"""
        todo = [[]]
        n = 0
        out = []
        base = self.ctx.snapshot()
        while todo:
            trace = todo.pop()
            n += 1
            if n > self.limit:
                raise RuntimeError("too many paths")
            self.trace, self.pos, self.new = trace, 0, []
            prev = ACTIVE.get("explorer")
            ACTIVE["explorer"] = self
            try:
                res = fn()
                out.append((res, list(self.ctx.facts[base:])))
            except Infeasible:
                pass
            finally:
                ACTIVE["explorer"] = prev
                self.ctx.restore(base)
            todo.extend(self.new)
        return out

    def branch(self, f):
        d = self.ctx.decide(f)
        if d is not None:
            return d
        if self.pos < len(self.trace):
            v = self.trace[self.pos]
        else:
            v = True
            self.new.append(self.trace[:self.pos] + [False])
            self.trace = self.trace[:self.pos] + [True]
        self.pos += 1
        self.ctx.assume(f if v else f_not(f))
        return v


ACTIVE = {"explorer": None, "ctx": None}


def ctx():
    return ACTIVE["ctx"]


def branch(f):
    """decide formula f on the current path (splitting when undetermined)"""
    if f is True or f is False:
        return f
    e = ACTIVE["explorer"]
    if e is None:
        d = ACTIVE["ctx"].decide(f)
        if d is None:
            raise RuntimeError("undetermined condition outside of path exploration: %r" % (f,))
        return d
    return e.branch(f)


def decide(f):
    return ACTIVE["ctx"].decide(f)
