"""Noncommutative matrix algebra with symbolic dimensions: the normal forms used to
discharge verification conditions over the reals.

A matrix value is a finite sum  coef * word ; a word is a product of (atom, transposed)
factors typed with symbolic dimensions; coefficients are rational functions of scalar atoms.
Every rewriting rule is an identity of real matrix algebra (listed in DESIGN.md) and is
tested numerically by engine/selftest.py.
"""
from fractions import Fraction as Fr

from .lin import (Lin, ONE, ZERO, ctx, decide, f_and, f_eq, f_ge, f_not, f_subst, f_syms)

_intern = {}
_order = [0]


class Node:
    """interned symbolic atom"""
    __slots__ = ("kind", "args", "r", "c", "sym", "id", "_s", "gram")

    def __repr__(self):
        return show_node(self)

    def __lt__(self, o):
        return self.id < o.id


def node(kind, args, r=None, c=None, sym=False):
    key = (kind, args, r, c)
    n = _intern.get(key)
    if n is None:
        n = Node()
        n.kind, n.args, n.r, n.c, n.sym = kind, args, r, c, sym
        n._s = None
        n.gram = None
        _order[0] += 1
        n.id = _order[0]
        _intern[key] = n
    return n


def bound_level(x):
    """largest index k of bound variables '#k' occurring in x"""
    return max([int(s[1:]) for s in all_syms(x) if s.startswith("#")] or [0])


# --------------------------------------------------------------------------- scalars
def _pmul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = _mmul(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    return {m: c for m, c in r.items() if c}


def _mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].id))


def _padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + k * c
        if not r[m]:
            del r[m]
    return r


def _lead(p):
    return max(p, key=lambda m: (sum(e for _, e in m), tuple((a.id, e) for a, e in m)))


def _pdiv(a, b):
    """exact division or None"""
    if not b:
        return None
    q, r = {}, dict(a)
    lb = _lead(b)
    dlb = dict(lb)
    n = 0
    while r:
        n += 1
        if n > 200:
            return None
        lr = _lead(r)
        d = dict(lr)
        for x, e in dlb.items():
            d[x] = d.get(x, 0) - e
        if any(e < 0 for e in d.values()):
            return None
        m = tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda y: y[0].id))
        c = r[lr] / b[lb]
        q[m] = q.get(m, 0) + c
        r = _padd(r, _pmul({m: c}, b), -1)
    return q


DISCOVER = [0, 0]      # > 0: a loop body is run only to see which variables it modifies


class Sc:
    """rational function over scalar atoms"""
    __slots__ = ("n", "d", "_h")

    def __init__(self, n, d=None):
        d = {(): Fr(1)} if d is None else d
        n, d = _sqrt_simplify(n), _sqrt_simplify(d)
        if isinstance(n, tuple) or isinstance(d, tuple):
            nn, nd = n if isinstance(n, tuple) else (n, {(): Fr(1)})
            dn, dd = d if isinstance(d, tuple) else (d, {(): Fr(1)})
            n, d = _pmul(nn, dd), _pmul(nd, dn)
        if not n:
            n, d = {}, {(): Fr(1)}
        elif not (len(d) == 1 and () in d):
            q = _pdiv(n, d)
            if q is not None:
                n, d = q, {(): Fr(1)}
            else:
                q = _pdiv(d, n)
                if q is not None:
                    n, d = {(): Fr(1)}, q
                else:
                    # cancel the monomial gcd
                    com = None
                    for p in (n, d):
                        for m in p:
                            e = dict(m)
                            com = e if com is None else {a: min(k, e[a]) for a, k in com.items() if a in e}
                    if com:
                        inv = tuple(sorted(((a, -k) for a, k in com.items()), key=lambda y: y[0].id))
                        n = {_mmul(m, inv): c for m, c in n.items()}
                        d = {_mmul(m, inv): c for m, c in d.items()}
        l = d[_lead(d)]
        if l != 1:
            n = {m: c / l for m, c in n.items()}
            d = {m: c / l for m, c in d.items()}
        self.n, self.d = n, d
        self._h = None

    @staticmethod
    def of(x):
        if isinstance(x, Sc):
            return x
        if isinstance(x, Lin):
            r = Sc.const(x.c)
            for s, k in x.t:
                r = r + Sc.const(k) * Sc.atom(node("dim", (s,)))
            return r
        if isinstance(x, (int, Fr)):
            return Sc.const(x)
        if isinstance(x, float):
            return Sc.const(Fr(x).limit_denominator(10 ** 12) if abs(x) > 1e-6 else Fr(x))
        if isinstance(x, Node):
            return Sc.atom(x)
        raise TypeError("not a scalar: %r" % (x,))

    @staticmethod
    def const(x):
        x = Fr(x)
        return Sc({(): x} if x else {})

    @staticmethod
    def atom(n):
        return Sc({((n, 1),): Fr(1)})

    def __add__(self, o):
        o = Sc.of(o)
        if self.d == o.d:
            return Sc(_padd(self.n, o.n), self.d)
        return Sc(_padd(_pmul(self.n, o.d), _pmul(o.n, self.d)), _pmul(self.d, o.d))

    __radd__ = __add__

    def __neg__(self):
        return Sc({m: -c for m, c in self.n.items()}, self.d)

    def __sub__(self, o):
        return self + (-Sc.of(o))

    def __rsub__(self, o):
        return Sc.of(o) - self

    def __mul__(self, o):
        if isinstance(o, Mat):
            return NotImplemented
        o = Sc.of(o)
        return Sc(_pmul(self.n, o.n), _pmul(self.d, o.d))

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = Sc.of(o)
        if not o.n:
            if DISCOVER[0]:
                DISCOVER[1] += 1
                return sc_sym("undefined:%d" % DISCOVER[1])
            raise ZeroDivisionError("division by the zero scalar")
        return Sc(_pmul(self.n, o.d), _pmul(self.d, o.n))

    def __rtruediv__(self, o):
        return Sc.of(o) / self

    def __pow__(self, k):
        r = Sc.const(1)
        for _ in range(abs(k)):
            r = r * self
        return r if k >= 0 else Sc.const(1) / r

    def is_zero(self):
        return not self.n

    def const_value(self):
        if not self.n:
            return Fr(0)
        if len(self.n) == 1 and () in self.n and len(self.d) == 1 and () in self.d:
            return self.n[()]
        return None

    def key(self):
        return (frozenset(self.n.items()), frozenset(self.d.items()))

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __eq__(self, o):
        if not isinstance(o, Sc):
            return False
        if self.n == o.n and self.d == o.d:
            return True
        return False

    def same(self, o):
        return (self - o).is_zero()

    def atoms(self):
        for p in (self.n, self.d):
            for m in p:
                for a, _ in m:
                    yield a

    def __repr__(self):
        def pp(p):
            if not p:
                return "0"
            out = []
            for m, c in sorted(p.items(), key=lambda x: [(a.id, e) for a, e in x[0]]):
                s = "*".join(show_node(a) + ("" if e == 1 else "^%d" % e) for a, e in m)
                if not s:
                    out.append(str(c))
                elif c == 1:
                    out.append(s)
                else:
                    out.append("%s*%s" % (c, s))
            return " + ".join(out)
        if len(self.d) == 1 and () in self.d:
            return pp(self.n)
        return "(%s)/(%s)" % (pp(self.n), pp(self.d))


def _sqrt_simplify(p):
    """replace sqrt(x)^2 by x (and U^2 by G for a 1 x 1 factor U of G); returns a poly, or (num, den) polys"""
    hit = None
    for m in p:
        for a, e in m:
            if e >= 2 and (a.kind == "sqrt" or _scalar_tri(a)):
                hit = a
                break
        if hit:
            break
    if not hit:
        return p
    x = hit.args[0] if hit.kind == "sqrt" else _scalar_tri(hit).args[1].as_scalar()
    tot = Sc.const(0)
    for m, c in p.items():
        d = dict(m)
        e = d.pop(hit, 0)
        mm = tuple(sorted(d.items(), key=lambda y: y[0].id))
        if e % 2:
            mm = _mmul(mm, ((hit, 1),))
        tot = tot + Sc({mm: c}) * x ** (e // 2)
    return (tot.n, tot.d)


def _scalar_tri(a):
    """the node U of the scalar atom of a 1 x 1 factor U (U^2 is its Gram matrix)"""
    if a.kind != "w" or len(a.args[0]) != 1:
        return None
    n = a.args[0][0][0]
    return n if n.kind == "tri" and n.c == ONE else None


S0, S1 = Sc.const(0), Sc.const(1)


def sc_sqrt(x):
    x = Sc.of(x)
    v = x.const_value()
    if v is not None and v >= 0:
        from math import isqrt
        a, b = isqrt(v.numerator), isqrt(v.denominator)
        if a * a == v.numerator and b * b == v.denominator:
            return Sc.const(Fr(a, b))
    # pull out a squared single monomial
    if len(x.n) == 1 and len(x.d) == 1:
        (m, c), = x.n.items()
        (dm, dc), = x.d.items()
        full = _mmul(m, tuple((a, -e) for a, e in dm))
        if full and all(e % 2 == 0 for _, e in full) and all(a.kind in ("sqrt", "pos") for a, _ in full):
            r = sc_sqrt(Sc.const(c / dc))
            for a, e in full:
                r = r * Sc.atom(a) ** (e // 2)
            return r
    return Sc.atom(node("sqrt", (x,)))


def sc_fn(name, *args):
    if name == "logdet" and args[0].r == ONE and args[0].c == ONE:
        return sc_fn("log", args[0].as_scalar())
    if name == "log" and len(args[0].n) == 1 and args[0].d == S1.d:
        (mono, c), = args[0].n.items()
        if c == 1 and len(mono) == 1 and mono[0][1] == 1 and mono[0][0].kind == "sqrt":
            return sc_fn("log", mono[0][0].args[0]) * Fr(1, 2)
    return Sc.atom(node("fn", (name,) + tuple(args)))


def sc_sym(name, *idx):
    return Sc.atom(node("sym", (name,) + tuple(Lin.of(i) for i in idx)))


PI = sc_sym("pi")


def sc_sum(count, body, var, guards=()):
    """sum over var in [0,count) of body, restricted to guards (formulas)"""
    body = Sc.of(body)
    g = f_and(*guards)
    if body.is_zero() or g is False or count == ZERO:
        return S0
    if count == ONE:
        g1 = subst(g, {var: ZERO})
        d = True if g1 is True else (ctx().decide(g1) if ctx() is not None else None)
        if d is True:
            return subst(body, {var: ZERO})
        if d is False:
            return S0
    # split into var-free coefficient and dependent part, term by term
    out = S0
    if var not in free_syms(body.d) and len(body.d) == 1 or True:
        dep_den = var in set().union(*[free_syms(a) for m in body.d for a, _ in m] or [set()])
        if dep_den:
            return Sc.atom(_sum_node(count, g, body, var))
        for m, c in body.n.items():
            free, dep = [], []
            for a, e in m:
                (dep if var in free_syms(a) else free).append((a, e))
            coef = Sc({tuple(free): c}, body.d)
            inner = Sc({tuple(dep): Fr(1)})
            if not dep and g is True:
                out = out + coef * Sc.of(count)
            else:
                out = out + coef * Sc.atom(_sum_node(count, g, inner, var))
    return out


def _sum_node(count, g, body, var):
    lev = 1 + max(bound_level(body), bound_level(g))
    v = "#%d" % lev
    m = {var: Lin.of(v)}
    return node("ssum", (count, subst(g, m), subst(body, m), v))


# --------------------------------------------------------------------------- matrices
class Mat:
    __slots__ = ("r", "c", "t", "_k")

    def __init__(self, r, c, t=None):
        self.r, self.c = Lin.of(r), Lin.of(c)
        self.t = {w: k for w, k in (t or {}).items() if not k.is_zero()}
        self._k = None

    @staticmethod
    def zero(r, c):
        return Mat(r, c)

    @staticmethod
    def eye(n):
        return Mat(n, n, {(): S1})

    @staticmethod
    def atom(n, tr=False):
        if tr:
            return Mat.atom(n).T
        return Mat.from_word(((n, False),))

    @staticmethod
    def from_word(w, coef=S1):
        r, c = fdims(w[0])[0], fdims(w[-1])[1]
        return Mat(r, c, _scaled(reduce_word(w), coef))

    @staticmethod
    def scalar(s):
        return Mat(ONE, ONE, {(): Sc.of(s)})

    def as_scalar(self):
        assert _deq(self.r, ONE) and _deq(self.c, ONE), "not a scalar matrix"
        s = S0
        for w, k in self.t.items():
            s = s + (k if w == () else k * scalar_of_word(w))
        return s

    def _chk(self, o):
        if not (_deq(self.r, o.r) and _deq(self.c, o.c)):
            raise ShapeError("shapes %s x %s and %s x %s do not match" % (self.r, self.c, o.r, o.c))

    def __add__(self, o):
        self._chk(o)
        t = dict(self.t)
        for w, k in o.t.items():
            t[w] = t[w] + k if w in t else k
        return Mat(self.r, self.c, t)

    def __neg__(self):
        return Mat(self.r, self.c, {w: -k for w, k in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, s):
        s = Sc.of(s)
        return Mat(self.r, self.c, {w: k * s for w, k in self.t.items()})

    def __matmul__(self, o):
        if not _deq(self.c, o.r):
            raise ShapeError("cannot multiply %s x %s by %s x %s" % (self.r, self.c, o.r, o.c))
        t = {}
        for w1, k1 in self.t.items():
            for w2, k2 in o.t.items():
                if w1 and w2:
                    res = reduce_word(w1 + w2)
                else:
                    res = reduce_word(w1 or w2) if (self.r == ONE and o.c == ONE) else {(w1 or w2): S1}
                kk = k1 * k2
                for w, k in res.items():
                    t[w] = t[w] + k * kk if w in t else k * kk
        return Mat(self.r, o.c, t)

    @property
    def T(self):
        out = Mat(self.c, self.r)
        t = {}
        for w, k in self.t.items():
            for w2, k2 in word_T(w).items():
                t[w2] = t[w2] + k * k2 if w2 in t else k * k2
        return Mat(self.c, self.r, t)

    def is_zero(self):
        return not self.t

    def key(self):
        if self._k is None:
            self._k = (self.r, self.c, frozenset(self.t.items()))
        return self._k

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, Mat) and self.key() == o.key()

    def single(self):
        """(coef, word) when there is exactly one term"""
        if len(self.t) == 1:
            (w, k), = self.t.items()
            return k, w
        return None

    def __repr__(self):
        return show_mat(self)


class ShapeError(Exception):
    pass


def _deq(a, b):
    return a == b or (ctx() is not None and ctx().equal(a, b) is True)


def _scaled(t, k):
    return {w: c * k for w, c in t.items()} if k is not S1 else t


def fdims(f):
    n, tr = f
    return (n.c, n.r) if tr else (n.r, n.c)


def _acc(t, w, k):
    t[w] = t[w] + k if w in t else k


def word_T(w):
    """transpose of a word, as a term dict"""
    parts = []
    simple = True
    for n, tr in reversed(w):
        if n.kind in ("diag",) or n.sym:
            parts.append(((n, False),))
        elif n.kind == "inv":
            parts.append(inv(n.args[0].T))
            simple = False
        elif n.kind == "msum":
            cnt, g, coef, body, v = n.args
            bt = word_T(body)
            m = Mat(n.c, n.r)
            for w2, k2 in bt.items():
                m = m + mat_sum_term(cnt, g, coef * k2, w2, v, n.c, n.r)
            parts.append(m)
            simple = False
        else:
            parts.append(((n, not tr),))
    if simple:
        ww = tuple(p[0] for p in parts)
        return {ww: S1} if ww else {(): S1}
    acc = None
    for p in parts:
        m = Mat(fdims(p[0])[0], fdims(p[0])[1], {p: S1}) if isinstance(p, tuple) else p
        acc = m if acc is None else acc @ m
    return acc.t


def _word_T_raw(w):
    """transposed word without reduction, None when it is not a single word"""
    out = []
    for n, tr in reversed(w):
        if n.kind == "diag" or n.sym:
            out.append((n, False))
        elif n.kind in ("inv", "msum"):
            m = inv(n.args[0].T) if n.kind == "inv" else Mat(n.r, n.c, {((n, False),): S1}).T
            s = m.single()
            if not s or s[0] != S1 or len(s[1]) != 1:
                return None
            out.append(s[1][0])
        else:
            out.append((n, not tr))
    return tuple(out)


# ---- constructors ----------------------------------------------------------
def base(name, r, c=ONE, idx=(), sym=False):
    return Mat.atom(node("base", (name,) + tuple(Lin.of(i) for i in idx), Lin.of(r), Lin.of(c), sym))


def J(N, start, length):
    N, start, length = Lin.of(N), Lin.of(start), Lin.of(length)
    if start == ZERO and length == N:
        return Mat.eye(N)
    if ctx() is not None and start == ZERO and ctx().equal(length, N):
        return Mat(N, length, {(): S1})
    return Mat.atom(node("J", (N, start, length), N, length))


def E(N, i):
    return J(N, i, 1)


def ones(N):
    N = Lin.of(N)
    if N == ONE:
        return Mat.scalar(1)
    return Mat.atom(node("ones", (N,), N, ONE))


def inv(S):
    """inverse (also stands for pinv / solve under the recorded nonsingularity assumption)"""
    if S.r == ONE and S.c == ONE:
        return Mat.scalar(S1 / S.as_scalar())
    if not S.t:
        return Mat.atom(node("inv", (S,), S.c, S.r))
    s = S.single()
    if s:
        k, w = s
        if w == ():
            return Mat.eye(S.r).scale(S1 / k)
        if len(w) == 1 and w[0][0].kind == "inv":
            return w[0][0].args[0].scale(S1 / k)
        if all(_deq(*fdims(f)) for f in w) and len(w) > 1:
            acc = None
            for f in reversed(w):
                m = inv(Mat(fdims(f)[0], fdims(f)[1], {(f,): S1}))
                acc = m if acc is None else acc @ m
            return acc.scale(S1 / k)
    # normalise the leading coefficient
    lw = lead_word(S)
    k = S.t[lw]
    if k != S1:
        return inv(S.scale(S1 / k)).scale(S1 / k)
    sym = (S.T == S)
    return Mat.atom(node("inv", (S,), S.r, S.c, sym))


def lead_word(S):
    return max(S.t, key=lambda w: (len(w), [(f[0].id, f[1]) for f in w]))


def tri(tag, gram):
    """upper triangular factor U with U'U = gram (tag distinguishes different factors)"""
    s = gram.single()
    if s and s[1] == () and tag == "chol":
        return Mat.eye(gram.r).scale(sc_sqrt(s[0]))
    if tag == "chol":
        blocks = split_blocks(gram)
        if blocks:
            out = Mat.zero(gram.r, gram.c)
            for Jm, g in blocks:
                out = out + Jm @ tri("chol", g) @ Jm.T
            return out
    return Mat.atom(node("tri", (tag, gram), gram.r, gram.c))


def split_blocks(G):
    """[(J_k, G_k)] when G is syntactically block diagonal: every word starts with J and
    ends with the same J'"""
    groups = {}
    for w, k in G.t.items():
        if len(w) < 2:
            return None
        a, b = w[0], w[-1]
        if a[0].kind != "J" or a[1] or b[0] is not a[0] or not b[1]:
            return None
        groups.setdefault(a[0], {})
        _acc(groups[a[0]], w[1:-1], k)
    if len(groups) < 2:
        return None
    tot = ZERO
    js = list(groups)
    for i, a in enumerate(js):
        tot = tot + a.args[2]
        for b in js[i + 1:]:
            if j_relation(a, b) != "disjoint":
                return None
    if not _deq(tot, G.r):
        return None
    return [(Mat.atom(a), Mat(a.args[2], a.args[2], t)) for a, t in groups.items()]


def diag(v):
    """Diag(v) for an N x 1 matrix value"""
    N = v.r
    if N == ONE:
        return v
    out = Mat.zero(N, N)
    for w, k in v.t.items():
        out = out + _diag_word(w, N).scale(k)
    return out


def _diag_word(w, N):
    f = w[0]
    if f[0].kind == "ones":
        return Mat.eye(N)
    if f[0].kind == "J" and not f[1]:
        jm = Mat.atom(f[0])
        if len(w) == 1:
            return jm @ jm.T
        rest = w[1:]
        return jm @ _diag_word(rest, f[0].args[2]) @ jm.T
    return Mat(N, N, {((node("diag", (w,), N, N, True), False),): S1})


def ewise(name, v):
    """elementwise function of a vector"""
    if v.r == ONE and v.c == ONE:
        s = v.as_scalar()
        return Mat.scalar(sc_sqrt(s) if name == "sqrt" else sc_fn(name, s))
    if name == "sqrt":
        heads = [w[0] for w in v.t]
        s = v.single()
        if s:
            k, w = s
            f = w[0]
            if f[0].kind == "ones":
                return ones(v.r).scale(sc_sqrt(k))
            if f[0].kind == "J" and not f[1]:
                jm = Mat.atom(f[0])
                rest = Mat.scalar(k) if len(w) == 1 else Mat(f[0].args[2], ONE, {w[1:]: k})
                return jm @ ewise("sqrt", rest)
        elif heads and all(h[0].kind == "J" and not h[1] for h in heads):
            groups = {}
            for w, k in v.t.items():
                groups.setdefault(w[0][0], {})[w] = k
            js = list(groups)
            if all(j_relation(a, b) == "disjoint" for i, a in enumerate(js) for b in js[i + 1:]):
                out = Mat.zero(v.r, ONE)
                for a, t in groups.items():
                    if len(t) == 1:
                        out = out + ewise("sqrt", Mat(v.r, ONE, t))
                    else:
                        sub = Mat(a.args[2], ONE, {w[1:]: k for w, k in t.items()})
                        out = out + Mat.atom(a) @ ewise("sqrt", sub)
                return out
    if not v.t and name == "sqrt":
        return v
    return Mat.atom(node("ew", (name, v), v.r, v.c))


def rows(N, vec, var):
    """N x m matrix whose row i is vec(var=i)' ; vec is m x 1"""
    N = Lin.of(N)
    out = Mat.zero(N, vec.r)
    for w, k in vec.t.items():
        out = out + _rows_term(N, k, w, var, vec.r)
    return out


def _rows_term(N, k, w, var, m):
    kdep = var in free_syms(k)
    p = 0
    while p < len(w) and var not in free_syms(w[p][0]):
        p += 1
    if w == ():                      # 1 x 1 identity: vec is a scalar
        if not kdep:
            return ones(N).scale(k)
        lev = 1 + bound_level(k)
        v = "#%d" % lev
        return Mat.atom(node("rows", (N, subst(k, {var: Lin.of(v)}), (), v), N, ONE))
    if p == len(w):
        if not kdep:
            return (ones(N) @ Mat(m, ONE, {w: k}).T)
        # scalar coefficient varying: rows = vec(coef) * w'
        return _rows_term(N, k, (), var, ONE) @ Mat(m, ONE, {w: S1}).T
    pre, rest = w[:p], w[p:]
    if kdep:
        inner_m = fdims(rest[0])[0]
        out = _rows_atom(N, k, rest, var, inner_m)
    else:
        inner_m = fdims(rest[0])[0]
        if len(rest) == 1 and rest[0][0].kind == "J" and not rest[0][1] and \
                rest[0][0].args[2] == ONE:
            N0, st, _ = rest[0][0].args
            s = st - Lin.of(var)
            if var not in s.syms() and var not in N0.syms():
                out = J(N0, s, N).T.scale(k)
            else:
                out = _rows_atom(N, S1, rest, var, inner_m).scale(k)
        else:
            out = _rows_atom(N, S1, rest, var, inner_m).scale(k)
    if pre:
        out = out @ Mat(m, inner_m, {pre: S1}).T
    return out


def _rows_atom(N, k, w, var, m):
    lev = 1 + max(bound_level(k), bound_level(w))
    v = "#%d" % lev
    s = {var: Lin.of(v)}
    mm = subst(Mat(m, ONE, {w: k}), s)
    out = Mat.zero(N, m)
    for w2, k2 in mm.t.items():
        out = out + Mat(N, m, {((node("rows", (N, k2, w2, v), N, m), False),): S1})
    return out


def rows_at(n, i):
    """the vector of row i of a rows node"""
    N, k, w, v = n.args
    m = {v: Lin.of(i)}
    return subst(Mat(n.c, ONE, {w: k}), m)


def rows_slice(n, s, l):
    N, k, w, v = n.args
    tmp = "~s%d" % (1 + bound_level(n))
    vec = subst(Mat(n.c, ONE, {w: k}), {v: Lin.of(tmp) + s})
    return rows(l, vec, tmp)


def app(fname, args, m, extra=(), c=ONE, sym=False):
    """application of an opaque function: an m x c matrix determined by its arguments"""
    return Mat.atom(node("app", (fname, tuple(extra)) + tuple(args), Lin.of(m), Lin.of(c), sym))


def box(m):
    """abbreviation: an atom standing for the matrix m (equal normal forms give equal atoms);
    see unbox"""
    if len(m.t) <= 1 or (m.r == ONE and m.c == ONE):
        return m
    return Mat.atom(node("box", (m,), m.r, m.c, m.r == m.c and m == m.T))


def unbox(x):
    """x with all abbreviations expanded"""
    return replace_nodes(x, lambda n: unbox(n.args[0]) if n.kind == "box" else None)


def has_box(x):
    return any(n.kind == "box" for n in all_nodes(x))


def mat_sum(count, body, var, guards=()):
    g = f_and(*guards)
    out = Mat.zero(body.r, body.c)
    if g is False or count == ZERO:
        return out
    for w, k in body.t.items():
        out = out + mat_sum_term(count, g, k, w, var, body.r, body.c)
    return out


def mat_sum_term(count, g, k, w, var, r, c):
    if w == ():
        s = sc_sum(count, k, var, (g,))
        return Mat(r, c, {(): s})
    # coefficient: move var-free part out
    a = 0
    while a < len(w) and var not in free_syms(w[a][0]):
        a += 1
    b = len(w)
    while b > a and var not in free_syms(w[b - 1][0]):
        b -= 1
    out = Mat.zero(r, c)
    # expand coefficient into var-free * var-dependent monomials
    if var in set().union(*([free_syms(x) for m_ in k.d for x, _ in m_] or [set()])):
        parts = [(S1, k)]
    else:
        parts = []
        for m_, cc in k.n.items():
            fr_, dp = [], []
            for x, e in m_:
                (dp if var in free_syms(x) else fr_).append((x, e))
            parts.append((Sc({tuple(fr_): cc}, k.d), Sc({tuple(dp): Fr(1)})))
    for free, dep in parts:
        if a == len(w):
            s = sc_sum(count, dep, var, (g,))
            out = out + Mat(r, c, {w: free * s})
            continue
        core = w[a:b]
        # cut at the outermost place where the pulled factors are
        cr, cc_ = fdims(core[0])[0], fdims(core[-1])[1]
        lev = 1 + max(bound_level(core), bound_level(g), bound_level(dep))
        v = "#%d" % lev
        sb = {var: Lin.of(v)}
        mm = subst(Mat(cr, cc_, {core: dep}), sb)
        gg = subst(g, sb)
        mid = Mat.zero(cr, cc_)
        for w2, k2 in mm.t.items():
            n = node("msum", (count, gg, k2, w2, v), cr, cc_)
            mid = mid + Mat(cr, cc_, {((n, False),): S1})
        if a:
            mid = Mat(r, cr, {w[:a]: S1}) @ mid
        if b < len(w):
            mid = mid @ Mat(cc_, c, {w[b:]: S1})
        out = out + mid.scale(free)
    return out


# ---- word reduction ---------------------------------------------------------
_reduce_cache = {}


def reduce_word(w):
    if not w:
        return {(): S1}
    c = ctx()
    key = (w, c.sig() if c is not None and _has_J(w) else None)
    hit = _reduce_cache.get(key)
    if hit is None:
        hit = _reduce(w)
        if len(_reduce_cache) > 200000:
            _reduce_cache.clear()
        _reduce_cache[key] = hit
    return hit


def _has_J(w):
    return any(f[0].kind in ("J", "rows", "ones", "diag") for f in w)


def _reduce(w):
    # 1. extract scalar sub-words
    d = [fdims(w[0])[0]] + [fdims(f)[1] for f in w]
    cuts = [i for i, x in enumerate(d) if x == ONE]
    for i, j in zip(cuts, cuts[1:]):
        sub = w[i:j]
        rest = w[:i] + w[j:]
        s = scalar_of_word(sub)
        if s.is_zero():
            return {}
        return _scaled(reduce_word(rest) if rest else {(): S1}, s)
    # 2. local rules
    for i in range(len(w)):
        for rule in RULES:
            res = rule(w, i)
            if res is not None:
                ln, terms = res
                out = {}
                for mid, k in terms.items():
                    nw = w[:i] + mid + w[i + ln:]
                    for w2, k2 in reduce_word(nw).items():
                        _acc(out, w2, k * k2)
                return {x: k for x, k in out.items() if not k.is_zero()}
    return {w: S1}


def scalar_of_word(sub):
    """value of a word with 1 x 1 shape whose interior boundaries are not 1"""
    if len(sub) > 1:
        for i in range(len(sub)):
            for rule in RULES:
                res = rule(sub, i)
                if res is not None:
                    ln, terms = res
                    s = S0
                    for mid, k in terms.items():
                        nw = sub[:i] + mid + sub[i + ln:]
                        if not nw:
                            s = s + k
                            continue
                        m = reduce_word(nw)
                        for w2, k2 in m.items():
                            assert w2 == ()
                            s = s + k * k2
                    return s
    if len(sub) == 1:
        n = sub[0][0]
        if n.kind == "inv":
            return S1 / n.args[0].as_scalar()
        if n.kind == "msum":
            cnt, g, coef, body, v = n.args
            m = reduce_word(body)
            s = S0
            for w2, k2 in m.items():
                s = s + sc_sum(cnt, coef * k2, v, (g,))
            return s
        if n.kind == "J" and n.args[0] == ONE:
            return S1
        return Sc.atom(node("w", (((n, False),),)))
    if len(sub) == 2 and sub[0][0].kind == "J" and sub[1][0].kind == "J":
        # E_i' E_j undecided
        i, j = sub[0][0].args[1], sub[1][0].args[1]
        a, b = sorted([i, j], key=lambda x: x.key())
        return Sc.atom(node("delta", (a, b)))
    alt = [sub]
    wt = _word_T_raw(sub)
    if wt is not None:
        alt.append(wt)
    best = min(alt, key=lambda w: [(f[0].id, f[1]) for f in w])
    return Sc.atom(node("w", (best,)))


def j_relation(a, b):
    """relation of the ranges of two J nodes over the same N"""
    if a is b:
        return "same"
    _, s1, l1 = a.args
    _, s2, l2 = b.args
    C = ctx()
    if C is None:
        return None
    q = lambda x, y: C.decide(f_ge(x, y)) is True
    if C.equal(s1, s2) and C.equal(l1, l2):
        return "same"
    if q(s1, s2 + l2) or q(s2, s1 + l1):
        return "disjoint"
    if l1 == ONE and l2 == ONE:
        if C.decide(f_eq(s1, s2)) is False:
            return "disjoint"
        return None
    if q(s1, s2) and q(s2 + l2, s1 + l1):
        return "inside"          # a inside b
    if q(s2, s1) and q(s1 + l1, s2 + l2):
        return "contains"        # b inside a
    return None


def r_jj(w, i):
    if i + 1 >= len(w):
        return None
    (a, ta), (b, tb) = w[i], w[i + 1]
    if a.kind != "J" or b.kind != "J":
        return None
    if ta and not tb:
        rel = j_relation(a, b)
        if rel == "same":
            return 2, {(): S1}
        if rel == "disjoint":
            return 2, {}
        if rel == "contains":    # b inside a : Ja' Jb = J(len a, s_b - s_a, len b)
            m = J(a.args[2], b.args[1] - a.args[1], b.args[2])
            return 2, m.t
        if rel == "inside":
            m = J(b.args[2], a.args[1] - b.args[1], a.args[2])
            return 2, m.T.t
        return None
    if not ta and not tb:        # J(N,s,l) J(l,s2,l2) = J(N,s+s2,l2)
        return 2, J(a.args[0], a.args[1] + b.args[1], b.args[2]).t
    if ta and tb:
        return 2, J(b.args[0], b.args[1] + a.args[1], a.args[2]).T.t
    return None


def r_ones(w, i):
    if i + 1 >= len(w):
        return None
    (a, ta), (b, tb) = w[i], w[i + 1]
    if a.kind == "J" and ta and b.kind == "ones" and not tb:
        return 2, ones(a.args[2]).t
    if a.kind == "ones" and ta and b.kind == "J" and not tb:
        return 2, ones(b.args[2]).T.t
    if a.kind == "ones" and ta and b.kind == "ones" and not tb:
        return 2, {(): Sc.of(a.args[0])}
    if a.kind == "diag" and b.kind == "ones" and not tb:
        return 2, {a.args[0]: S1}
    if a.kind == "ones" and ta and b.kind == "diag":
        return 2, word_T(b.args[0])
    return None


def r_diag(w, i):
    if i + 1 >= len(w):
        return None
    (a, ta), (b, tb) = w[i], w[i + 1]
    if a.kind == "diag" and b.kind == "J" and not tb:
        jm = Mat.atom(b)
        v = jm.T @ Mat(a.r, ONE, {a.args[0]: S1})
        return 2, (jm @ diag(v)).t
    if a.kind == "J" and ta and b.kind == "diag":
        jm = Mat.atom(a)
        v = jm.T @ Mat(b.r, ONE, {b.args[0]: S1})
        return 2, (diag(v) @ jm.T).t
    if a.kind == "diag" and b.kind == "diag" and a is b:
        wv = a.args[0]
        if len(wv) == 1 and wv[0][0].kind == "ew" and wv[0][0].args[0] == "sqrt" and not wv[0][1]:
            return 2, diag(wv[0][0].args[1]).t
    # s = sqrt(v) of nonnegative v: diag(s) s = v, s' diag(s) = v', s' s = v' 1
    def root(x):
        return x.kind == "ew" and x.args[0] == "sqrt" and x.c == ONE

    def root_diag(x):
        return x.kind == "diag" and len(x.args[0]) == 1 and root(x.args[0][0][0]) and not x.args[0][0][1]
    if root_diag(a) and root(b) and not tb and a.args[0][0][0] is b:
        return 2, b.args[1].t
    if root_diag(b) and root(a) and ta and b.args[0][0][0] is a:
        return 2, a.args[1].T.t
    if root(a) and a is b and ta and not tb:
        return 2, (a.args[1].T @ ones(a.r)).t
    return None


def r_rows(w, i):
    if i + 1 >= len(w):
        return None
    (a, ta), (b, tb) = w[i], w[i + 1]
    if a.kind == "J" and ta and b.kind == "rows" and not tb:
        _, s, l = a.args
        if l == ONE:
            return 2, rows_at(b, s).T.t
        return 2, rows_slice(b, s, l).t
    if a.kind == "rows" and ta and b.kind == "J" and not tb:
        _, s, l = b.args
        if l == ONE:
            return 2, rows_at(a, s).t
        return 2, rows_slice(a, s, l).T.t
    return None


def C_ge(x, y):
    c = ctx()
    return c is not None and c.decide(f_ge(x, y)) is True


def r_tri(w, i):
    if i + 1 >= len(w):
        return None
    (a, ta), (b, tb) = w[i], w[i + 1]
    if a.kind == "tri" and b.kind == "J" and not tb and i and w[i - 1][0].kind == "J" and w[i - 1][1]:
        # the part of an upper triangular matrix below its diagonal
        p, q = w[i - 1][0], b
        if ta:
            p, q = q, p
        if C_ge(p.args[1], q.args[1] + q.args[2]):
            return 2, {}
    if "tri" in (a.kind, b.kind) and not all(n.kind != "tri" or _sym_gram(n) for n in (a, b)):
        return None
    if a is b and a.kind == "tri" and ta and not tb:
        return 2, a.args[1].t
    if a.kind == "inv" and b.kind == "inv":
        # Inv(U) Inv(U') = Inv(U'U)
        x, y = a.args[0].single(), b.args[0].single()
        if x and y and len(x[1]) == 1 and len(y[1]) == 1:
            (u, tu), (v, tv_) = x[1][0], y[1][0]
            if u is v and u.kind == "tri" and not tu and tv_:
                return (2, inv(u.args[1]).t) if _sym_gram(u) else None
    if a.kind == "inv" and b.kind == "tri" and tb and a.args[0] == b.args[1]:
        return 2, inv(Mat.atom(b)).t                    # Inv(U'U) U' = Inv(U)
    if a.kind == "tri" and not ta and b.kind == "inv" and b.args[0] == a.args[1]:
        return 2, inv(Mat.atom(a).T).t                  # U Inv(U'U) = Inv(U')
    return None


def _sym_gram(n):
    """the matrix a factor is specified by is symmetric"""
    r = _symg.get(n)
    if r is None:
        g = n.args[1]
        r = _symg[n] = g == g.T
    return r


_symg = {}


def havoc(x):
    """x mentions the state of a loop that has not been identified (yet)"""
    return any(n.kind == "base" and isinstance(n.args[0], tuple) and n.args[0][0] in ("cell", "carry") for n in all_nodes(x))


def bad_factors(x):
    """Cholesky factors of matrices that are not symmetric"""
    return any(n.kind == "tri" and not _sym_gram(n) for n in all_nodes(x))


def r_udu(w, i):
    if i + 2 >= len(w):
        return None
    (a, ta), (d, _), (b, tb) = w[i], w[i + 1], w[i + 2]
    if a.kind == "uduU" and a is b and not ta and tb and d.kind == "diag":
        dw = d.args[0]
        if len(dw) == 1 and dw[0][0].kind == "uduD" and dw[0][0].args == a.args:
            return 3, a.args[1].t
    return None


def r_inv(w, i):
    (a, ta) = w[i]
    if a.kind != "inv":
        # a word that starts the leading word of a following inverse
        return None
    S = a.args[0]
    if not S.t:
        return None
    if ta:
        return None
    lw = lead_word(S)
    n = len(lw)
    if n and w[i + 1:i + 1 + n] == lw:
        # Inv(S) lw = I - Inv(S) (S - lw)
        rest = Mat(S.r, S.c, {x: k for x, k in S.t.items() if x != lw})
        out = {(): S1}
        for x, k in rest.t.items():
            _acc(out, (w[i],) + x, -k)
        return 1 + n, out
    return None


def r_inv_left(w, i):
    # window starting at i equals the leading word of the inverse that follows it
    for j in range(i + 1, len(w)):
        a, ta = w[j]
        if a.kind != "inv" or ta or not a.args[0].t:
            continue
        S = a.args[0]
        lw = lead_word(S)
        if len(lw) == j - i and w[i:j] == lw:
            out = {(): S1}
            for x, k in S.t.items():
                if x != lw:
                    _acc(out, x + (w[j],), -k)
            return j - i + 1, out
    return None


def r_hidden(w, i):
    """rows of the atom ("hidden", zid) -- a perturbation of the values stored under the mask of
    the sequence zid -- are zero at the steps known to be unmasked"""
    if i + 1 >= len(w):
        return None
    (a, ta), (b, tb) = w[i], w[i + 1]
    if ta == tb or not tb and a.kind == "J":
        return None
    if ta and a.kind == "base" and b.kind == "J":
        h, j = a, b
    elif ta and a.kind == "J" and b.kind == "base":
        h, j = b, a
    else:
        return None
    if isinstance(h.args[0], tuple) and h.args[0][0] == "hidden" and j.args[2] == ONE and \
            decide(("anymask", h.args[0][1], j.args[1])) is False:
        return 2, {}
    return None


RULES = [r_hidden, r_jj, r_ones, r_diag, r_rows, r_tri, r_udu, r_inv, r_inv_left]


# ---- generic traversal -------------------------------------------------------
_syms_cache = {}


def all_syms(x):
    """all integer symbols (free and bound) of x"""
    if isinstance(x, Lin):
        return x.syms()
    if isinstance(x, Node):
        if x._s is None:
            s = all_syms(x.args)
            if x.r is not None:
                s = s | x.r.syms() | x.c.syms()
            if x.kind == "dim":
                s = {x.args[0]}
            x._s = frozenset(s)
        return x._s
    if isinstance(x, Sc):
        s = set()
        for a in x.atoms():
            s |= all_syms(a)
        return s
    if isinstance(x, Mat):
        s = set(x.r.syms() | x.c.syms())
        for w, k in x.t.items():
            s |= all_syms(w) | all_syms(k)
        return s
    if isinstance(x, dict):
        s = set()
        for k, v in x.items():
            s |= all_syms(k) | all_syms(v)
        return s
    if isinstance(x, (tuple, list, frozenset)):
        s = set()
        for y in x:
            s |= all_syms(y)
        return s
    if hasattr(x, "all_syms"):
        return x.all_syms()
    return set()


def free_syms(x):
    return all_syms(x)      # bound variables have their own names (#k), never captured


def subst(x, m):
    """substitute integer symbols; rebuilds atoms through their constructors"""
    if not m:
        return x
    if isinstance(x, Lin):
        return x.subst(m)
    if isinstance(x, (str, int, bool, Fr, type(None))):
        return x
    if isinstance(x, Sc):
        if not (all_syms(x) & set(m)):
            return x
        return _sub_poly(x.n, m) / _sub_poly(x.d, m)
    if isinstance(x, Mat):
        if not (all_syms(x) & set(m)):
            return x
        out = Mat.zero(x.r.subst(m), x.c.subst(m))
        for w, k in x.t.items():
            k2 = subst(k, m)
            mm = subst_word(w, m, out.r)
            out = out + Mat(out.r, out.c, {a: b * k2 for a, b in mm.t.items()})
        return out
    if isinstance(x, tuple):
        if x and isinstance(x[0], str) and x[0] in ("ge", "eq", "ne", "not", "and", "or"):
            return f_subst(x, m, subst)
        if x and isinstance(x[0], str) and x[0] in ("anymask", "allmask", "pos", "b"):
            return (x[0],) + tuple(subst(y, m) for y in x[1:])
        return tuple(subst(y, m) for y in x)
    if hasattr(x, "subst"):
        return x.subst(m)
    return x


def _sub_poly(p, m):
    s = S0
    for mono, c in p.items():
        t = Sc.const(c)
        for a, e in mono:
            t = t * sub_satom(a, m) ** e
        s = s + t
    return s


def sub_satom(a, m):
    if not (all_syms(a) & set(m)):
        return Sc.atom(a)
    k = a.kind
    if k == "dim":
        return Sc.of(Lin.of(m[a.args[0]]))
    if k == "w":
        mm = subst_word(a.args[0], m, ONE)
        return mm.as_scalar()
    if k == "sqrt":
        return sc_sqrt(subst(a.args[0], m))
    if k == "ssum":
        cnt, g, body, v = a.args
        tmp = "~v" + v[1:]
        s2 = {kk: vv for kk, vv in m.items() if kk != v}
        s2[v] = Lin.of(tmp)
        return sc_sum(cnt.subst(m), subst(body, s2), tmp, (subst(g, s2),))
    if k == "delta":
        i, j = subst(a.args[0], m), subst(a.args[1], m)
        d = decide(f_eq(i, j)) if ctx() is not None else (True if i == j else None)
        if d is True:
            return S1
        if d is False:
            return S0
        i, j = sorted([i, j], key=lambda x: x.key())
        return Sc.atom(node("delta", (i, j)))
    if k == "fn":
        return sc_fn(*[subst(y, m) for y in a.args])
    return Sc.atom(node(k, tuple(subst(y, m) for y in a.args)))


_fc = [0]


def _fresh():
    _fc[0] += 1
    return _fc[0]


def subst_word(w, m, r):
    acc = None
    for n, tr in w:
        f = subst_node(n, m)
        if tr:
            f = f.T
        acc = f if acc is None else acc @ f
    return acc if acc is not None else Mat.eye(r)


_submemo = {}


def subst_node(n, m):
    if not (all_syms(n) & set(m)):
        return Mat(n.r, n.c, {((n, False),): S1}) if not (n.r == ONE and n.c == ONE) else Mat.atom(n)
    if n.kind in ("base", "J", "ones"):
        return _subst_node(n, m)
    # nested terms share subterms
    top = not _submemo
    key = (n, tuple(sorted(((k, Lin.of(v)) for k, v in m.items() if k in all_syms(n)), key=lambda p: p[0])))
    if key in _submemo:
        return _submemo[key]
    _submemo[None] = True
    try:
        r = _submemo[key] = _subst_node(n, m)
        return r
    finally:
        if top:
            _submemo.clear()


def _subst_node(n, m):
    k = n.kind
    if k == "J":
        return J(*[x.subst(m) for x in n.args])
    if k == "ones":
        return ones(n.args[0].subst(m))
    if k == "inv":
        return inv(subst(n.args[0], m))
    if k == "tri":
        return tri(subst(n.args[0], m), subst(n.args[1], m))
    if k == "box":
        return box(subst(n.args[0], m))
    if k == "diag":
        return diag(subst(Mat(n.r, ONE, {n.args[0]: S1}), m))
    if k == "ew":
        return ewise(n.args[0], subst(n.args[1], m))
    if k == "rows":
        N, kk, w, v = n.args
        tmp = "~v" + v[1:]
        s2 = {a: b for a, b in m.items() if a != v}
        s2[v] = Lin.of(tmp)
        return rows(N.subst(m), subst(Mat(n.c, ONE, {w: kk}), s2), tmp)
    if k == "msum":
        cnt, g, coef, body, v = n.args
        tmp = "~v" + v[1:]
        s2 = {a: b for a, b in m.items() if a != v}
        s2[v] = Lin.of(tmp)
        return mat_sum(cnt.subst(m), subst(Mat(n.r, n.c, {body: coef}), s2), tmp, (subst(g, s2),))
    return Mat.atom(node(k, tuple(subst(y, m) for y in n.args), n.r.subst(m), n.c.subst(m), n.sym))


# ---- replacing atoms by values ----------------------------------------------
def replace_nodes(x, fn):
    """rebuild x with fn(node) -> Mat / Sc or None applied to every base-like atom"""
    if isinstance(x, Mat):
        out = Mat.zero(x.r, x.c)
        for w, k in x.t.items():
            acc = None
            for n, tr in w:
                f = _replace_node(n, fn)
                f = f.T if tr else f
                acc = f if acc is None else acc @ f
            if acc is None:
                acc = Mat(x.r, x.c, {(): S1})
            out = out + acc.scale(replace_nodes(k, fn))
        return out
    if isinstance(x, Sc):
        def pol(p):
            s = S0
            for mono, c in p.items():
                t = Sc.const(c)
                for a, e in mono:
                    t = t * _replace_satom(a, fn) ** e
                s = s + t
            return s
        return pol(x.n) / pol(x.d)
    if isinstance(x, tuple):
        return tuple(replace_nodes(y, fn) for y in x)
    return x


def _open(v):
    """name for the bound variable v while its body is rebuilt (shared by sums of one level, so
    that case distinctions on it are made pointwise)"""
    q = "~r" + v[1:]
    return q, {v: Lin.of(q)}


def _replace_satom(a, fn):
    r = fn(a)
    if r is not None:
        return r
    k = a.kind
    if k == "w":
        acc = None
        for n, tr in a.args[0]:
            f = _replace_node(n, fn)
            f = f.T if tr else f
            acc = f if acc is None else acc @ f
        return acc.as_scalar()
    if k == "sqrt":
        return sc_sqrt(replace_nodes(a.args[0], fn))
    if k == "ssum":
        cnt, g, body, v = a.args
        q, s = _open(v)
        return sc_sum(cnt, replace_nodes(subst(body, s), fn), q, (subst(g, s),))
    if k in ("dim", "sym", "delta"):
        return Sc.atom(a)
    if k == "fn":
        return sc_fn(*[replace_nodes(y, fn) for y in a.args])
    return Sc.atom(node(k, tuple(replace_nodes(y, fn) for y in a.args)))


_memo = {}


def _replace_node(n, fn):
    r = fn(n)
    if r is not None:
        return r
    k = n.kind
    if k in ("base", "J", "ones", "fam"):
        return Mat.atom(n)
    # nested terms share subterms
    top = not _memo
    if top:
        _memo[None] = fn
    if _memo[None] is not fn:
        return _replace_inside(n, fn)
    try:
        if n not in _memo:
            _memo[n] = _replace_inside(n, fn)
        return _memo[n]
    finally:
        if top:
            _memo.clear()


def _replace_inside(n, fn):
    k = n.kind
    if k == "app":
        return Mat.atom(node(k, tuple(replace_nodes(y, fn) for y in n.args), n.r, n.c, n.sym))
    if k == "inv":
        return inv(replace_nodes(n.args[0], fn))
    if k == "tri":
        return tri(n.args[0], replace_nodes(n.args[1], fn))
    if k == "box":
        return box(replace_nodes(n.args[0], fn))
    if k == "diag":
        return diag(replace_nodes(Mat(n.r, ONE, {n.args[0]: S1}), fn))
    if k == "ew":
        return ewise(n.args[0], replace_nodes(n.args[1], fn))
    if k == "rows":
        N, kk, w, v = n.args
        q, s = _open(v)
        return rows(N, replace_nodes(subst(Mat(n.c, ONE, {w: kk}), s), fn), q)
    if k == "msum":
        cnt, g, coef, body, v = n.args
        q, s = _open(v)
        return mat_sum(cnt, replace_nodes(subst(Mat(n.r, n.c, {body: coef}), s), fn), q, (subst(g, s),))
    return Mat.atom(node(k, tuple(replace_nodes(y, fn) for y in n.args), n.r, n.c, n.sym))


def all_nodes(x, acc=None):
    acc = set() if acc is None else acc
    if isinstance(x, Node):
        if x not in acc:
            acc.add(x)
            all_nodes(x.args, acc)
    elif isinstance(x, Sc):
        for a in x.atoms():
            all_nodes(a, acc)
    elif isinstance(x, Mat):
        for w, k in x.t.items():
            all_nodes(w, acc)
            all_nodes(k, acc)
    elif isinstance(x, (tuple, list)):
        for y in x:
            all_nodes(y, acc)
    return acc


# ---- equality with block refinement ------------------------------------------
def equal(a, b):
    d = a - b
    if zero(d):
        return True
    return False


def zero(d):
    if d.is_zero():
        return True
    d2 = renorm(d)
    if d2.is_zero():
        return True
    d3 = expand_blocks(d2)
    return d3.is_zero()


def renorm(d):
    """re-reduce every word (facts may have been added since it was built)"""
    out = {}
    for w, k in d.t.items():
        for w2, k2 in (reduce_word(w) if w else {(): S1}).items():
            _acc(out, w2, k * k2)
    return Mat(d.r, d.c, out)


def expand_blocks(d):
    cuts = {}
    for n in all_nodes(d):
        if n.kind == "J":
            N, s, l = n.args
            cuts.setdefault(N, set()).update([s, s + l])
    if not cuts:
        return d
    C = ctx()
    import functools
    parts = {}
    for N, cs in cuts.items():
        cs = set(cs) | {ZERO, N}
        # order the cut points; give up on this dimension when the order is undecided
        uniq = []
        ok = True
        for x in cs:
            if not any(C.equal(x, y) for y in uniq):
                uniq.append(x)

        def cmp(x, y):
            nonlocal ok
            if C.decide(f_ge(y, x)) is True:
                return -1
            if C.decide(f_ge(x, y)) is True:
                return 1
            ok = False
            return 0
        uniq.sort(key=functools.cmp_to_key(cmp))
        if not ok or len(uniq) < 3:
            continue
        parts[N] = [(a, b - a) for a, b in zip(uniq, uniq[1:])]
    if not parts:
        return d

    def proj(N):
        return [J(N, s, l) @ J(N, s, l).T for s, l in parts[N]]
    def product(acc, w):
        for f in w:
            m = Mat(fdims(f)[0], fdims(f)[1], {(f,): S1})
            acc = acc @ m
            if m.c in parts:
                acc = acc @ sum_m(proj(m.c))
        return acc

    def inner(n):
        """the value of a scalar word, summed over the blocks of its inner dimensions"""
        if n.kind == "w" and any(fdims(f)[1] in parts for f in n.args[0][:-1]):
            return product(Mat.eye(ONE), n.args[0]).as_scalar()
        return None

    out = Mat.zero(d.r, d.c)
    for w, k in d.t.items():
        acc = Mat.eye(d.r)
        if d.r in parts:
            acc = sum_m(proj(d.r))
        acc = product(acc, w)
        if any(inner(a) is not None for a in k.atoms() if a.kind == "w"):
            k = replace_nodes(k, inner)
        out = out + Mat(d.r, d.c, acc.t).scale(k)
    return out


def sum_m(ms):
    r = ms[0]
    for m in ms[1:]:
        r = r + m
    return r


# ---- printing ------------------------------------------------------------------
def show_node(n):
    k, a = n.kind, n.args
    if k == "dim":
        return a[0]
    if k in ("base", "sym"):
        nm = a[0] if isinstance(a[0], str) else (a[0][1] + "@" + a[0][2] if a[0][0] == "fam" else
                                                 ".".join(map(str, a[0])))
        return nm + ("" if len(a) == 1 else "[%s]" % ",".join(map(str, a[1:])))
    if k == "fam":
        return "%s[%s]" % (a[0], ",".join(map(str, a[2:])))
    if k == "J":
        return "e[%s]" % (a[1],) if a[2] == ONE else "J[%s:%s]" % (a[1], a[1] + a[2])
    if k == "ones":
        return "1"
    if k == "inv":
        return "inv(%s)" % show_mat(a[0])
    if k == "tri":
        return "U<%s>(%s)" % (a[0] if isinstance(a[0], str) else a[0][0], show_mat(a[1]))
    if k == "diag":
        return "diag(%s)" % show_word(a[0])
    if k == "w":
        return "<%s>" % show_word(a[0])
    if k == "sqrt":
        return "sqrt(%r)" % (a[0],)
    if k == "ew":
        return "%s(%s)" % (a[0], show_mat(a[1]))
    if k == "rows":
        return "rows(%s<%s. %s%s)" % (a[3], a[0], "" if a[1] == S1 else "%r*" % a[1], show_word(a[2]))
    if k == "box":
        return "{%s}" % show_mat(a[0])
    if k == "app":
        return "%s(%s)" % (a[0], "; ".join(map(repr, a[1:])))
    if k == "msum":
        return "sum(%s<%s|%s. %s%s)" % (a[4], a[0], a[1] if a[1] is not True else "", "" if a[2] == S1
                                        else "%r*" % a[2], show_word(a[3]))
    if k == "ssum":
        return "sum(%s<%s|%s. %r)" % (a[3], a[0], a[1] if a[1] is not True else "", a[2])
    return "%s%r" % (k, a)


def show_word(w):
    if not w:
        return "I"
    return " ".join(show_node(n) + ("'" if tr else "") for n, tr in w)


def show_mat(m):
    if not m.t:
        return "0"
    out = []
    for w, k in m.t.items():
        s = show_word(w)
        out.append(s if k == S1 else "-" + s if k == -S1 else "(%r) %s" % (k, s))
    return " + ".join(out)


def tri_blocks(tag, G):
    """upper triangular U with U'U = G; for a syntactically 2 x 2 blocked G the block form
    U00'U00 = G00, U01 = inv(U00') G01, U11'U11 = G11 - G10 inv(G00) G01 is used"""
    heads = []
    for w in G.t:
        if len(w) < 2 or w[0][0].kind != "J" or w[0][1] or w[-1][0].kind != "J" or not w[-1][1]:
            return tri(tag, G)
        for n in (w[0][0], w[-1][0]):
            if n not in heads:
                heads.append(n)
    if len(heads) != 2:
        return tri(tag, G)
    a, b = heads
    if decide(f_ge(b.args[1], a.args[1])) is not True:
        a, b = b, a
    if not (a.args[1] == ZERO and _deq(b.args[1], a.args[2]) and _deq(a.args[2] + b.args[2], G.r)):
        return tri(tag, G)
    Ja, Jb = Mat.atom(a), Mat.atom(b)
    G00, G01, G11 = Ja.T @ G @ Ja, Ja.T @ G @ Jb, Jb.T @ G @ Jb
    U00 = tri_blocks((tag, 0), G00)
    U01 = inv(U00.T) @ G01
    U11 = tri_blocks((tag, 1), G11 - G01.T @ inv(G00) @ G01)
    return Ja @ U00 @ Ja.T + Ja @ U01 @ Jb.T + Jb @ U11 @ Jb.T
