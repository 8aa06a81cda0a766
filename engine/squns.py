"""Contracts of the square root unscented filter (pykalman/sqrt/unscented.py).

A covariance is carried as its Cholesky factor: the upper triangular matrix with positive
diagonal whose Gram matrix U'U it is (unique, hence `tri("chol", P)` for the covariance P).  With
these contracts the functions compute the very formulas (and recursions) of the additive
unscented filter."""
from .alg import Mat, base, ones, sc_sqrt, sc_sym, tri
from . import alg
from .contracts import CON, NotApplicable, Obligation, Seq, Vec, compare, contract, Mtx
from .fams import FAMS, prove_eq
from .lin import Lin, ONE, ZERO, branch, ctx, decide, f_eq, f_ge, f_not
from . import inv
from .sqrtc import _c_rec, _g_rec, _reconstruct
from .spec import M, N, T
from .std import mtx, need, seq_fn, vec
from . import uns
from .uns import Fun, Kp, Mom, Points, UModel, _k1, _points, arg, cls, fun_at, obs_any, pts, real, sig_of, through, ufun, usmoother_fns
from .vals import Arr, Mask, ST, SReal, f_scmp, as_arr, data_mat, fresh, new_arr, new_fam, same_dim, to_sc

Q2 = "pykalman.sqrt.unscented."


# ------------------------------------------------------------------ factors
def chol_gram(U):
    """the matrix whose Cholesky factor U is known to be, or None"""
    s = U.single()
    if s and len(s[1]) == 1:
        n, tr = s[1][0]
        if n.kind == "tri" and n.args[0] == "chol" and not tr and s[0] == alg.S1:
            return n.args[1]
    if s and s[1] == () and s[0].const_value() is not None and s[0].const_value() > 0:
        return U @ U
    if U.r == ONE and s and s[1] == ():
        # 1 x 1: sqrt(g)
        return U @ U if any(a.kind == "sqrt" for a in s[0].atoms()) else None
    return None


def upper(U):
    """U is upper triangular with a nonzero diagonal"""
    if chol_gram(U) is not None:
        return True
    s = U.single()
    return bool(s and len(s[1]) == 1 and s[1][0][0].kind == "tri" and not s[1][0][1])


class Factor:
    """the Cholesky factor (upper) of g"""

    def __init__(self, g):
        self.g = g

    def value(self):
        return new_arr(tri("chol", self.g), (self.g.r, self.g.c))

    def __call__(self, res, label, out):
        if not isinstance(res, Arr) or res.ndim != 2:
            out.append(Obligation(label, False, "result is not a matrix", definite=True))
            return
        same_factor(res.mat(), self.g, label, out)


def same_factor(U, g, label, out):
    h = chol_gram(U)
    if h is not None:
        compare(new_arr(h, (h.r, h.c)), Mtx(g), label + ": U'U", out)
    else:
        compare(new_arr(U, (U.r, U.c)), Mtx(tri("chol", g)), label + ": the Cholesky factor", out)


class FactorSeq:
    def __init__(self, n, sub, fn):
        self.n, self.sub, self.fn = Lin.of(n), tuple(Lin.of(s) for s in sub), fn

    def value(self):
        return new_fam((self.n,) + self.sub, lambda t: tri("chol", self.fn(t)))

    def __call__(self, res, label, out):
        if not isinstance(res, Arr) or res.ndim != 3:
            out.append(Obligation(label, False, "result is not a sequence of matrices", definite=True))
            return

        def at(t):
            U = res.entry(Lin.of(t))
            h = chol_gram(U)
            return h if h is not None else U.T @ U
        compare(new_fam(res.dims(), at), Seq(self.n, self.sub, self.fn), label + ": U'U", out)
        compare(res, Seq(self.n, self.sub, lambda t: tri("chol", self.fn(t))), label + ": the Cholesky factor", out)


def mom2(m, P):
    return cls("Moments", Mom)(Vec(m), Factor(P))


def mom2_of(p):
    """(mean, covariance) of moments given with a factor"""
    need(isinstance(p, tuple), len(p) == 2)
    m, U = vec(p[0]), mtx(p[1])
    need(same_dim(U.r, m.r), same_dim(U.c, m.r))
    g = chol_gram(U)
    need(g is not None)
    return m, g


NONNEG = set()


def nonneg(w):
    """all weights but the first are known to be nonnegative"""
    s = w.single()
    if s and len(s[1]) == 1 and s[1][0][0] in NONNEG:
        return True
    rest = alg.J(w.r, ONE, w.r - 1).T @ w
    s = rest.single()
    if not s:
        return rest.is_zero()
    k = s[0].const_value()
    return k is not None and k >= 0 and len(s[1]) == 1 and s[1][0][0].kind == "ones"


def weighted(p):
    s = sig_of(p)
    need(nonneg(s.wc))
    return s


def apoints(tag, K, n):
    """arbitrary points whose weights, but for the first, are nonnegative"""
    p = _points(tag, K, n)
    NONNEG.add(data_mat(p[2]).single()[1][0][0])
    return p


def afactor(name, n):
    return new_arr(tri("chol", base("arg:" + name, n, n, (), True)), (n, n))


def amom(name, n):
    return cls("Moments", Mom)(arg(name + "mean", n), afactor(name + "cov", n))


def opt2(U, n):
    """covariance of an optional noise factor: only its Gram matrix matters"""
    if U is None:
        return None
    U = mtx(U)
    need(same_dim(U.r, n), same_dim(U.c, n))
    return U.T @ U


def enough(K, n):
    """at least as many points, but for the centre, as dimensions"""
    need(decide(f_ge(K - 1, n)) is True)


# ------------------------------------------------------------------ contracts
contract(Q2 + "_reconstruct_covariances", "covariance2s", _g_rec)(_reconstruct(False))


class Upper:
    """some upper triangular U with U'U = g"""

    def __init__(self, g):
        self.g = g

    def value(self):
        return new_arr(tri(("ret", fresh("upper")), self.g), (self.g.r, self.g.c))

    def __call__(self, res, label, out):
        if not isinstance(res, Arr) or res.ndim != 2:
            out.append(Obligation(label, False, "result is not a matrix", definite=True))
            return
        y = res.mat()
        compare(new_arr(y.T @ y, (y.c, y.c)), Mtx(self.g), label + " R'R", out)
        out.append(Obligation(label + " upper triangular", upper_form(y), "", None))


def upper_form(y):
    """recognisably upper triangular: a factor, or blocks of factors on the diagonal"""
    if upper(y):
        return True
    js = set()
    for w in y.t:
        f = w[0]
        if len(w) != 3 or f[0].kind != "J" or f[1] or w[2][0] is not f[0] or not w[2][1] or w[1][0].kind != "tri" or w[1][1]:
            return False
        js.add(f[0])
    js = list(js)
    return bool(js) and all(alg.j_relation(a, b) == "disjoint" for i, a in enumerate(js) for b in js[i + 1:])


def _g_qr():
    def setup():
        ctx().assume(f_ge(Lin.of("rows"), N))
        return dict(A=arg("A", Lin.of("rows"), N))
    return [("at least as many rows as columns", setup)]


@contract(Q2 + "qr", "A", _g_qr)
def _c_qr(A):
    A = mtx(A)
    need(decide(f_ge(A.r, A.c)) is True)
    return Upper(A.T @ A)


@contract(Q2 + "points2moments", "points sigma2_noise", lambda: [
    ("additive noise", lambda: (_k1(), dict(points=apoints("p", Kp, N), sigma2_noise=afactor("noise", N)))[1]),
    ("no noise", lambda: (_k1(), ctx().assume(f_ge(Kp, N + 1)), dict(points=apoints("p", Kp, N), sigma2_noise=None))[2])])
def _c_p2m(points, sigma2_noise):
    s = weighted(points)
    S = opt2(sigma2_noise, s.X.r)
    if S is None:
        enough(s.X.c, s.X.r)
    return mom2(*uns.moments(s, S))


def sigma2(m, U, alpha=None, beta=None, kappa=None):
    """sigma points from a factor U (any matrix): m, m + sqrt(c) U' e_i, m - sqrt(c) U' e_i"""
    s = uns.sigma(m, base("sigma2:P", m.r, m.r, (), True), alpha, beta, kappa)
    u = tri("chol", base("sigma2:P", m.r, m.r, (), True)).single()[1][0][0]
    return uns.Sig(alg.replace_nodes(s.X, lambda n: U if n is u else None), s.wm, s.wc)


@contract(Q2 + "moments2points", "moments alpha beta kappa", lambda: [
    (t, lambda given=given: dict(moments=cls("Moments", Mom)(arg("mean", N), arg("factor", N, N)),
                                 **{k: SReal(sc_sym("arg:" + k)) if k in given else None for k in ("alpha", "beta", "kappa")}))
    for t, given in (("default spread", ()), ("any alpha, beta, kappa", ("alpha", "beta", "kappa")), ("any alpha", ("alpha",)))])
def _c_m2p(moments, alpha, beta, kappa):
    need(isinstance(moments, tuple), len(moments) == 2)
    m, U = vec(moments[0]), mtx(moments[1])
    need(same_dim(U.r, m.r), same_dim(U.c, m.r))
    s = sigma2(m, U, real(alpha), real(beta), real(kappa))
    return pts(s.X, s.wm, s.wc)


def _g_ut():
    def go(fn, pn, sn):
        def setup():
            _k1()
            if not sn:
                ctx().assume(f_ge(Kp, (M if fn else N) + 1))
            return dict(points=apoints("p", Kp, N), f=Fun("f", M).value() if fn else None,
                        points_noise=_points("w", Kp, Lin.of("k"))[0] if pn else None,
                        sigma2_noise=afactor("noise", M if fn else N) if sn else None)
        return setup
    return [("function and additive noise", go(1, 0, 1)), ("function with noise argument", go(1, 1, 0)), ("function, no noise", go(1, 0, 0)),
            ("identity", go(0, 0, 0)), ("identity, additive noise", go(0, 0, 1))]


def transformed(points, f, points_noise):
    s = weighted(points)
    if f is None:
        need(points_noise is None)
        return s
    more = []
    if points_noise is not None:
        w = mtx(points_noise).T
        need(same_dim(w.c, s.X.c))
        more = [uns.Sig(w, s.wm, s.wc)]
    return through(ufun(f), s, *more)


@contract(Q2 + "_unscented_transform", "points f points_noise sigma2_noise", _g_ut)
def _c_ut(points, f, points_noise, sigma2_noise):
    y = transformed(points, f, points_noise)
    S = opt2(sigma2_noise, y.X.r)
    if S is None:
        enough(y.X.c, y.X.r)
    return (pts(y.X, y.wm, y.wc), mom2(*uns.moments(y, S)))


@contract(Q2 + "_unscented_correct", "cross_sigma moments_pred obs_moments_pred z", lambda: [
    ("any", lambda: dict(cross_sigma=arg("cross", N, M), moments_pred=amom("p", N), obs_moments_pred=amom("o", M),
                         z=arg("z", M, mask=Mask("arg:z", ZERO))))])
def _c_uc(cross_sigma, moments_pred, obs_moments_pred, z):
    X = mtx(cross_sigma)
    m, P = mom2_of(moments_pred)
    zm, S = mom2_of(obs_moments_pred)
    need(isinstance(z, Arr), z.ndim == 1, same_dim(z.dims()[0], zm.r), same_dim(X.r, m.r), same_dim(X.c, zm.r))
    if obs_any(z):
        return mom2(m, P)
    return mom2(*uns.gained(m, P, X, zm, S, data_mat(z)))


def _g_pred():
    def go(aug):
        def setup():
            _k1()
            if aug:
                ctx().assume(f_ge(Kp, N + 1))
            return dict(transition_function=Fun("f", N).value(), points_state=apoints("p", Kp, N),
                        points_transition=_points("w", Kp, N)[0] if aug else None, sigma2_transition=None if aug else afactor("Q", N))
        return setup
    return [("additive", go(False)), ("noise argument", go(True))]


@contract(Q2 + "unscented_filter_predict", "transition_function points_state points_transition sigma2_transition", _g_pred)
def _c_pred(transition_function, points_state, points_transition, sigma2_transition):
    need(points_transition is not None or sigma2_transition is not None)
    y = transformed(points_state, transition_function, points_transition)
    S = opt2(sigma2_transition, y.X.r)
    if S is None:
        enough(y.X.c, y.X.r)
    return (pts(y.X, y.wm, y.wc), mom2(*uns.moments(y, S)))


def _g_corr():
    def go(aug):
        def setup():
            _k1()
            if aug:
                ctx().assume(f_ge(Kp, M + 1))
            return dict(observation_function=Fun("g", M).value(), moments_pred=amom("p", N), points_pred=apoints("p", Kp, N),
                        observation=arg("z", M, mask=Mask("arg:z", ZERO)), points_observation=_points("v", Kp, M)[0] if aug else None,
                        sigma2_observation=None if aug else afactor("R", M))
        return setup
    return [("additive", go(False)), ("noise argument", go(True))]


@contract(Q2 + "unscented_filter_correct", "observation_function moments_pred points_pred observation points_observation sigma2_observation",
          _g_corr)
def _c_corr(observation_function, moments_pred, points_pred, observation, points_observation, sigma2_observation):
    s = weighted(points_pred)
    m, P = mom2_of(moments_pred)
    need(isinstance(observation, Arr), observation.ndim == 1)
    y = transformed(points_pred, observation_function, points_observation)
    S = opt2(sigma2_observation, y.X.r)
    if S is None:
        enough(y.X.c, y.X.r)
    zm, S = uns.moments(y, S)
    need(same_dim(observation.dims()[0], zm.r))
    if obs_any(observation):
        return mom2(m, P)
    return mom2(*uns.corrected(m, P, s, y, zm, S, data_mat(observation)))


def _g_filter():
    def go(pf, pg):
        def setup():
            FAMS.active = []
            FAMS.abstractions = ("id", "chol")
            mod = UModel(False, pf, pg, more=True)
            mod.register().activate()
            return mod.args()
        return setup
    return [("functions %s / %s" % (a and "per step" or "constant", b and "per step" or "constant"), go(a, b))
            for a in (False, True) for b in (False, True)]


@contract(Q2 + "_additive_unscented_filter", "mu_0 sigma_0 f g Q R Z", _g_filter)
def _c_filter(mu_0, sigma_0, f, g, Q, R, Z):
    u = uns.ufilter_of(False, mu_0, sigma_0, f, g, Q, R, Z)
    return (Seq(u.T, (u.n,), u.fM.at), FactorSeq(u.T, (u.n, u.n), u.fP.at))


def smoother_of(mu_filt, sigma2_filt, f, Q):
    need(isinstance(mu_filt, Arr), mu_filt.ndim == 2)
    Tn, n = mu_filt.dims()
    Qm = mtx(Q)
    need(same_dim(Qm.r, n), same_dim(Qm.c, n), isinstance(sigma2_filt, Arr), same_dim(sigma2_filt.dims()[0], Tn))
    U = seq_fn(sigma2_filt, 2, (n, n))

    def gram(t):
        g = chol_gram(U(t))
        if g is None:
            raise NotApplicable
        return g
    return usmoother_fns(False, seq_fn(mu_filt, 1, (n,)), gram, fun_at(f, Tn - 1), Qm, n, Tn)


def _g_smoother():
    def go(pf):
        def setup():
            FAMS.active = []
            FAMS.abstractions = ("id", "chol")
            ctx().assume(f_ge(Lin.of("Tf"), T - 1))
            v = dict(mu_filt=new_fam((T, N), lambda i: base("seq:fm", N, ONE, (i,)), "f", "mu_filt", "mu_filt"),
                     sigma2_filt=new_fam((T, N, N), lambda i: tri("chol", base("seq:fc", N, N, (i,), True)), "f", "sigma2_filt", "sigma2_filt"),
                     f=Fun("f", N, pf, Lin.of("Tf")).vector(), Q=arg("Q", N, N, sym=True))
            smoother_of(**v).activate()
            return v
        return setup
    return [("functions %s" % (a and "per step" or "constant"), go(a)) for a in (False, True)]


@contract(Q2 + "_additive_unscented_smoother", "mu_filt sigma2_filt f Q", _g_smoother)
def _c_smoother(mu_filt, sigma2_filt, f, Q):
    s = smoother_of(mu_filt, sigma2_filt, f, Q)
    return (Seq(s.T, (s.n,), s.sM.at), FactorSeq(s.T, (s.n, s.n), s.sP.at))


# ------------------------------------------------------------------ the rank one update
class Update(inv.Guide):
    """the loop invariants of cholupdate

    For one vector x (the row the enclosing loop has reached, already scaled; s the sign of the
    weight): before iteration k the rows of A above k are those of an upper triangular W, the
    others are those of the factor U the loop started from, and
        W'JJ'W + U'J^J^'U + s x^x^' = U'U + s x0 x0'          (J: first k, J^: other coordinates)
    where x0 is x before the loop and x^ = J^J^'x.  The right hand side is positive definite: it
    is the result, or the result plus further squares when they are still to be subtracted
    (precondition: the result is positive definite).  Hence the pivot u_kk^2 + s x_k^2, which is
    v'(left hand side)v for the v of the lemma (v_k = 1), is positive.
    For several vectors: A is the factor of A0'A0 + s (squares of the rows so far)."""

    def __init__(self, args):
        self.n = as_arr(args["A2"]).dims()[0]
        self.rows = as_arr(args["X"]).dims()[0] if args["X"].ndim == 2 else ONE
        w = to_sc(args["weight"])
        self.w = w
        self.row = ZERO
        self.depth = len(ST.loops)

    def wants(self, L):
        d = len(ST.loops) - self.depth
        if same_dim(self.rows, ONE):
            return d == 0 and same_dim(L.n, self.n)
        return d < 2

    def entered(self, L):
        if len(ST.loops) - self.depth == 1 and not same_dim(self.rows, ONE):
            self.row = L.v

    def sign(self):
        if decide(f_scmp(self.w, ">")) is True:
            return alg.S1
        if decide(f_scmp(self.w, "<")) is True:
            return -alg.S1
        return alg.S0

    def bind(self, L, sts, entry, loc):
        n = self.n
        A = [st for st, m in sts.items() if same_dim(m.r, n) and same_dim(m.c, n) and upper(m)]
        X = [st for st, m in sts.items() if st not in A]
        if len(A) != 1 or len(X) != 1 or not same_dim(sts[X[0]].r, self.rows):
            return None
        outer = len(ST.loops) - self.depth == 1 and not same_dim(self.rows, ONE)
        if not outer and not same_dim(L.n, n) or outer and not same_dim(L.n, self.rows):
            return None
        return (UpdateRows if outer else UpdateRow)(n, self.sign(), A[0], sts[A[0]], X[0], sts[X[0]], self.rows, self.row)


class UpdateRow(inv.Invariant):
    name = "rank one update, one vector"

    def __init__(self, n, sgn, A, U, X, X0, rows, row):
        self.n, self.sgn, self.A, self.U, self.X, self.X0, self.rows, self.row = n, sgn, A, U, X, X0, rows, row
        self.xrow = alg.E(rows, row)
        self.x0 = X0.T @ self.xrow

    def gram(self):
        return self.U.T @ self.U + (self.x0 @ self.x0.T).scale(self.sgn)

    def head(self, k):
        n = self.n
        self.Jt, self.Jb, self.e, self.Jd = alg.J(n, ZERO, k), alg.J(n, k, n - k), alg.E(n, k), alg.J(n, k + 1, n - k - 1)
        self.W = tri(("inv", fresh("W")), base(fresh("inv:gram"), n, n, (), True))
        self.x = base(fresh("inv:x"), n, ONE)
        A = self.Jt @ self.Jt.T @ self.W + self.Jb @ self.Jb.T @ self.U
        u, x = (self.e.T @ self.U @ self.e).as_scalar(), (self.e.T @ self.x).as_scalar()
        self.pivot = u * u + self.sgn * x * x
        X = self.X0 + self.xrow @ (self.x - self.x0).T
        return {self.A: A, self.X: X}, {}, [f_scmp(self.pivot, ">"), f_not(f_scmp(self.pivot, "<"))]

    def lhs(self):
        xh = self.Jb @ self.Jb.T @ self.x
        return self.W.T @ self.Jt @ self.Jt.T @ self.W + self.U.T @ self.Jb @ self.Jb.T @ self.U + (xh @ xh.T).scale(self.sgn)

    def lemmas(self, k, oblige):
        v = self.e - self.Jt @ alg.inv(self.Jt.T @ self.W @ self.Jt) @ self.Jt.T @ self.W @ self.e
        q = (v.T @ self.lhs() @ v).as_scalar()
        oblige("the pivot is a value of the quadratic form", alg.equal(Mat.scalar(q), Mat.scalar(self.pivot)), "%r" % (q - self.pivot,))

    def check(self, k, sts, loc, oblige):
        A, X = sts[self.A], sts[self.X]
        eq = lambda what, a, b: prove_eq_o(oblige, what, a, b)
        eq("rows above unchanged", self.Jt.T @ A, self.Jt.T @ self.W)
        eq("rows below unchanged", self.Jd.T @ A, self.Jd.T @ self.U)
        row = A.T @ self.e
        eq("new row starts at the diagonal", self.Jt.T @ row, Mat.zero(k, ONE))
        d = (self.e.T @ row).as_scalar()
        oblige("diagonal is a positive root", alg.equal(Mat.scalar(d), Mat.scalar(sc_sqrt(self.pivot))), "%r" % (d,))
        x1, x = self.Jd @ self.Jd.T @ (X.T @ self.xrow), self.Jb @ self.Jb.T @ self.x
        eq("sum of squares preserved", row @ row.T + (x1 @ x1.T).scale(self.sgn),
           self.U.T @ self.e @ self.e.T @ self.U + (x @ x.T).scale(self.sgn))
        eq("other vectors unchanged", X - self.xrow @ self.xrow.T @ X, self.X0 - self.xrow @ self.xrow.T @ self.X0)

    def leave(self):
        return {self.A: tri("chol", self.gram()), self.X: self.X0 + self.xrow @ (base(fresh("left:x"), self.n, ONE) - self.x0).T}, {}


class UpdateRows(UpdateRow):
    name = "rank one updates, all vectors"

    def __init__(self, *a):
        super().__init__(*a)

    def upto(self, i):
        Jt = alg.J(self.rows, ZERO, i)
        return self.U.T @ self.U + (self.X0.T @ Jt @ Jt.T @ self.X0).scale(self.sgn)

    def head(self, i):
        K, n = self.rows, self.n
        A = self.U if decide(f_eq(i, ZERO)) is True else tri("chol", self.upto(i))
        Jt, Jb = alg.J(K, ZERO, i), alg.J(K, i, K - i)
        return {self.A: A, self.X: Jt @ Jt.T @ base(fresh("inv:X"), K, n) + Jb @ Jb.T @ self.X0}, {}, []

    def lemmas(self, i, oblige):
        pass

    def check(self, i, sts, loc, oblige):
        A, X = sts[self.A], sts[self.X]
        g = chol_gram(A)
        if g is None:
            oblige("a factor", None, "not recognised as a Cholesky factor: %s" % alg.show_mat(A)[:300])
        else:
            prove_eq_o(oblige, "factor of the partial sum", g, self.upto(i + 1))
        Jd = alg.J(self.rows, i + 1, self.rows - i - 1)
        prove_eq_o(oblige, "later vectors unchanged", Jd.T @ X, Jd.T @ self.X0)

    def leave(self):
        return {self.A: tri("chol", self.U.T @ self.U + (self.X0.T @ self.X0).scale(self.sgn)),
                self.X: base(fresh("left:X"), self.rows, self.n)}, {}


def prove_eq_o(oblige, what, a, b):
    d = alg.expand_blocks(a - b)
    ok = alg.equal(a, b)
    oblige(what, bool(ok) or None, "" if ok else alg.show_mat(d)[:600])


def _g_cu():
    wt = lambda: SReal(sc_sym("arg:weight"))
    arb = lambda: new_arr(tri(("arg", "A2"), base("arg:A2", N, N, (), True)), (N, N))
    K = Lin.of("K")

    def many():
        ctx().assume(f_ge(K, Lin(2)))
        return dict(A2=arb(), X=arg("x", K, N), weight=wt())
    return [("one vector", lambda: dict(A2=arb(), X=arg("x", N), weight=wt())), ("vectors", many)]


def cholupdate(A2, X, weight):
    U, x = mtx(A2), data_mat(X)
    n = U.r
    need(isinstance(X, Arr), X.ndim in (1, 2), upper(U), same_dim(U.c, n))
    w = to_sc(weight)
    if X.ndim == 1:
        need(same_dim(x.r, n))
        x = x.T
    need(same_dim(x.c, n))
    g = U.T @ U
    if decide(f_scmp(w, ">")) is False and decide(f_scmp(w, "<")) is False:
        return Factor(g)
    return Factor(g + (x.T @ x).scale(w))


contract(Q2 + "cholupdate", "A2 X weight", _g_cu, guide=Update)(cholupdate)
