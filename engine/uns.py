"""Contracts of the unscented filters (pykalman/unscented.py).

The unscented transform is specified by its textbook formulas over explicit sigma points; the
user's transition and observation functions are arbitrary (uninterpreted)."""
import types
from collections import namedtuple
from fractions import Fraction as Fr

from . import alg
from .alg import E, J, Mat, Sc, app, base, box, diag, inv, ones, rows, sc_sqrt, sc_sym, tri
from .contracts import CON, Mtx, NotApplicable, Seq, Vec, contract
from .fams import FAMS, Family, prove_eq
from .lin import Lin, ONE, ZERO, branch, ctx, decide, f_eq, f_ge
from .spec import M, N, Obs, T
from .std import ArrObs, _gen, closed, keyform, mtx, need, seq_fn, vec
from .vals import (Arr, Flex, Mask, ObjVec, SReal, UFun, UFunSeq, Unsupported, as_arr, data_mat, fresh, is_intlike, mk_int, new_arr, new_fam,
                   param_arr, same_dim, to_sc)

U = "pykalman.unscented."

Points = namedtuple("SigmaPoints", ["points", "weights_mean", "weights_covariance"])
Mom = namedtuple("Moments", ["mean", "covariance"])


def cls(name, default):
    """the module's own result type"""
    for t, f in CON.orig.items():
        if t.startswith(U) and name in f.__globals__:
            return f.__globals__[name]
    return default


def mom(m, P):
    return cls("Moments", Mom)(Vec(m), Mtx(P))


def pts(X, wm, wc):
    """X: points as columns"""
    return cls("SigmaPoints", Points)(Mtx(X.T), Vec(wm), Vec(wc))


# ------------------------------------------------------------------ formulas
class Sig:
    """sigma points (columns of X) with their weights"""

    def __init__(self, X, wm, wc):
        self.X, self.wm, self.wc = X, wm, wc


def sigma(m, P, alpha=None, beta=None, kappa=None):
    """the 2n+1 points m, m + sqrt(c) L e_i, m - sqrt(c) L e_i with L L' = P"""
    n = m.r
    ns = Sc.of(n)
    a = Sc.of(1) if alpha is None else alpha
    b = Sc.of(0) if beta is None else beta
    k = Sc.of(3) - ns if kappa is None else kappa
    lam = a * a * (ns + k) - ns
    c = ns + lam
    K = n * 2 + 1
    L = tri("chol", P).T
    X = m @ ones(K).T + (L @ J(K, ONE, n).T - L @ J(K, n + 1, n).T).scale(sc_sqrt(c))
    side = (J(K, ONE, n * 2) @ ones(n * 2)).scale(Sc.of(1) / (c * 2))
    wm = E(K, ZERO).scale(lam / c) + side
    wc = E(K, ZERO).scale(lam / c + Sc.of(1) - a * a + b) + side
    return Sig(X, wm, wc)


def joint(parts):
    """sigma points of independent normals, one Sig per part"""
    n = ZERO
    for m, _ in parts:
        n = n + m.r
    mu, P, at = Mat.zero(n, ONE), Mat.zero(n, n), ZERO
    js = []
    for m, S in parts:
        j = J(n, at, m.r)
        js.append(j)
        mu, P, at = mu + j @ m, P + j @ S @ j.T, at + m.r
    s = sigma(mu, P)
    return [Sig(j.T @ s.X, s.wm, s.wc) for j in js]


def through(fn, *sigs):
    """the points transformed one by one"""
    v = fresh("i")
    i = Lin.of(v)
    K = sigs[0].X.c
    y = fn(*[s.X @ E(K, i) for s in sigs])
    return Sig(rows(K, y, v).T, sigs[0].wm, sigs[0].wc)


def moments(s, noise=None):
    m = box(s.X @ s.wm)
    D = s.X - m @ ones(s.X.c).T
    S = D @ diag(s.wc) @ D.T
    return m, box(S if noise is None else S + noise)


def corrected(m, P, s, y, zm, S, z):
    """condition the prediction (m, P) with points s on the observation z of predicted points y"""
    return gained(m, P, box((s.X - m @ ones(s.X.c).T) @ diag(s.wm) @ (y.X - zm @ ones(y.X.c).T).T), zm, S, z)


def gained(m, P, X, zm, S, z):
    G = X @ inv(S)
    return box(m + G @ (z - zm)), box(P - G @ X.T)


# ------------------------------------------------------------------ functions
class Fun:
    """a function of the model: constant or one per time step"""

    def __init__(self, name, out, per=False, length=None):
        self.name, self.out, self.per, self.length = name, Lin.of(out), per, length

    def at(self, t):
        t = Lin.of(t)
        if self.per:
            return lambda *a: app((self.name, "tv"), a, self.out, (t,))
        return lambda *a: app((self.name,), a, self.out)

    def value(self):
        if not self.per:
            return UFun(self.name, self.at(ZERO), self.out)
        return UFunSeq(self.length, lambda i: UFun(self.name, self.at(i), self.out))

    def vector(self):
        """as the estimator's methods pass it on"""
        return self.value() if self.per else ObjVec([self.value()])


def fn_of(f):
    """Mats -> Mat of a function value: a function of the user, or one of the source (a default)"""
    if isinstance(f, UFun):
        return f.fn
    need(isinstance(f, types.FunctionType))

    def call(*a):
        r = f(*[new_arr(x, (mk_int(x.r),)) for x in a])
        need(isinstance(r, Arr), r.ndim == 1)
        return data_mat(r)
    return call


def fun_at(v, n):
    """t -> (Mats -> Mat) of a function argument value"""
    if isinstance(v, ObjVec):
        need(len(v) == 1)
        f = fn_of(v[0])
        return lambda t: f
    need(isinstance(v, UFunSeq), decide(f_ge(v.n, n)) is True)
    return lambda t: v.at_fn(Lin.of(t)).fn


def fun_key(fn, aug, n, k):
    """identifies a function of the model by its values at arbitrary arguments"""
    a = [base("probe:x", n), base("probe:w", k)][:2 if aug else 1]
    return keyform(lambda t: fn(t)(*a), ONE)


# ------------------------------------------------------------------ recursions
class UFilter:
    """the unscented filter: additive noise (aug False) or augmented state (aug True)"""

    def __init__(self, name, aug, f, g, Q, R, mu0, S0, obs, n, m, T_):
        self.name, self.aug, self.f, self.g, self.Q, self.R, self.mu0, self.S0 = name, aug, f, g, Q, R, mu0, S0
        self.obs, self.n, self.m, self.T = obs, Lin.of(n), Lin.of(m), Lin.of(T_)
        mk = lambda nm, r, c, fn, **k: Family(nm, name, r, c, fn, **k)
        n = self.n
        self.pM = mk("upred_mean", n, 1, self._pM)
        self.pP = mk("upred_cov", n, n, self._pP, sym=True)
        self.fM = mk("ufilt_mean", n, 1, self._fM, rec=True)
        self.fP = mk("ufilt_cov", n, n, self._fP, rec=True, sym=True)
        for f_ in (self.fM, self.fP):
            f_.depth = 0
        self.fams = [self.fM, self.fP]

    def activate(self):
        FAMS.active = FAMS.active + self.fams

    def masked(self, t):
        f = self.obs.any(t)
        return f if isinstance(f, bool) else branch(f)

    def sigs(self, x, P):
        """[state, transition noise, observation noise] sigma points from the estimate (x, P)"""
        if not self.aug:
            return [sigma(x, P)]
        z = lambda k: Mat.zero(k, ONE)
        return joint([(x, P), (z(self.n), self.Q), (z(self.m), self.R)])

    def before(self, t):
        """(estimate, its sigma points, predicted sigma points) of step t"""
        if branch(f_eq(t, ZERO)):
            s = self.sigs(self.mu0, self.S0)
            return s, None
        s = self.sigs(self.fM.at(t - 1), self.fP.at(t - 1))
        return s, through(self.f(t - 1), *s[:2])

    def pred(self, t):
        s, y = self.before(t)
        if y is None:
            return self.mu0, self.S0
        return moments(y, None if self.aug else self.Q)

    def _pM(self, t):
        return self.pred(t)[0]

    def _pP(self, t):
        return self.pred(t)[1]

    def _fM(self, t):
        return ustep(self, self.before(t), t, self.obs.z(t), self.masked(t))[0]

    def _fP(self, t):
        return ustep(self, self.before(t), t, self.obs.z(t), self.masked(t))[1]


def ustep(u, before, t, z, masked, mu0=None, S0=None, Q=None, R=None, g=None):
    """moments after the correction with z (masked: the prediction)"""
    s, y = before
    Q, R, g = Q if Q is not None else u.Q, R if R is not None else u.R, g or u.g(t)
    if y is None:
        m, P = u.mu0, u.S0
    else:
        m, P = moments(y, None if u.aug else Q)
    if masked:
        return m, P
    if u.aug:
        x = s[0] if y is None else y
        o = through(g, x, s[2])
        zm, S = moments(o)
    else:
        x = sigma(m, P)
        o = through(g, x)
        zm, S = moments(o, R)
    return corrected(m, P, x, o, zm, S, z)


def ustep_online(aug, x, P, z, masked, f, g, Q, R):
    """one online update: predict from (x, P), correct with z"""
    if aug:
        s = joint([(x, P), (Mat.zero(x.r, ONE), Q), (Mat.zero(R.r, ONE), R)])
        y = through(f, s[0], s[1])
        m, S = moments(y)
        if masked:
            return m, S
        o = through(g, y, s[2])
        return corrected(m, S, y, o, *moments(o), z)
    m, S = moments(through(f, sigma(x, P)), Q)
    if masked:
        return m, S
    s = sigma(m, S)
    o = through(g, s)
    return corrected(m, S, s, o, *moments(o, R), z)


class USmoother:
    def __init__(self, name, aug, fM, fP, f, Q, n, T_):
        self.name, self.aug, self.fM, self.fP, self.f, self.Q, self.n, self.T = name, aug, fM, fP, f, Q, Lin.of(n), Lin.of(T_)
        mk = lambda nm, r, c, fn, **k: Family(nm, name, r, c, fn, **k)
        n = self.n
        self.sM = mk("usmooth_mean", n, 1, self._sM, rec=True, back=True)
        self.sP = mk("usmooth_cov", n, n, self._sP, rec=True, back=True, sym=True)
        for f_ in (self.sM, self.sP):
            f_.depth = 0
        self.fams = [self.sM, self.sP]

    def activate(self):
        FAMS.active = FAMS.active + self.fams

    def parts(self, t):
        m, P = self.fM(t), self.fP(t)
        if self.aug:
            s = joint([(m, P), (Mat.zero(self.n, ONE), self.Q)])
            y = through(self.f(t), *s)
            pm, pP = moments(y)
        else:
            s = [sigma(m, P)]
            y = through(self.f(t), s[0])
            pm, pP = moments(y, self.Q)
        K = y.X.c
        X = (s[0].X - m @ ones(K).T) @ diag(y.wc) @ (y.X - pm @ ones(K).T).T
        return m, P, pm, pP, X @ inv(pP)

    def _sM(self, t):
        if branch(f_eq(t, self.T - 1)):
            return self.fM(t)
        m, P, pm, pP, G = self.parts(t)
        return m + G @ (self.sM.at(t + 1) - pm)

    def _sP(self, t):
        if branch(f_eq(t, self.T - 1)):
            return self.fP(t)
        m, P, pm, pP, G = self.parts(t)
        return P + G @ (self.sP.at(t + 1) - pP) @ G.T


FILTERS, SMOOTHERS = {}, {}
LAST = {}


def ufilter_fns(aug, f, g, Q, R, mu0, S0, obs, n, m, Tn):
    key = (aug, fun_key(f, aug, n, n), fun_key(g, aug, n, m), Q, R, mu0, S0) + obs.key() + (n, m, Tn)
    for x in (Q, R, S0):
        if not prove_eq(x, x.T):
            raise NotApplicable
    closed(key)
    r = FILTERS.get(key)
    if r is None:
        r = FILTERS[key] = UFilter("ufilter%d" % (len(FILTERS) + 1), aug, f, g, Q, R, mu0, S0, obs, n, m, Tn)
    LAST["f"] = r
    return r


def ufilter_of(aug, mu_0, sigma_0, f, g, Q, R, Z):
    obs = ArrObs(Z)
    Tn, m = obs.length, obs.width
    x, S0, Qm, Rm = vec(mu_0), mtx(sigma_0), mtx(Q), mtx(R)
    n = x.r
    need(*[same_dim(d, n) for X in (S0, Qm) for d in (X.r, X.c)], same_dim(Rm.r, m), same_dim(Rm.c, m))
    return ufilter_fns(aug, fun_at(f, Tn - 1), fun_at(g, Tn), Qm, Rm, x, S0, obs, n, m, Tn)


def usmoother_fns(aug, fM, fP, f, Q, n, Tn):
    key = (aug, keyform(fM, Tn), keyform(fP, Tn), fun_key(f, aug, n, n), Q, n, Tn)
    for x in (key[2], Q):
        if not isinstance(x, Mat) or not prove_eq(x, x.T):
            raise NotApplicable
    closed(key)
    r = SMOOTHERS.get(key)
    if r is None:
        r = SMOOTHERS[key] = USmoother("usmoother%d" % (len(SMOOTHERS) + 1), aug, fM, fP, f, Q, n, Tn)
    LAST["s"] = r
    return r


def usmoother_of(aug, mu_filt, sigma_filt, f, Q):
    need(isinstance(mu_filt, Arr), mu_filt.ndim == 2)
    Tn, n = mu_filt.dims()
    Qm = mtx(Q)
    need(same_dim(Qm.r, n), same_dim(Qm.c, n), isinstance(sigma_filt, Arr), same_dim(sigma_filt.dims()[0], Tn))
    return usmoother_fns(aug, seq_fn(mu_filt, 1, (n,)), seq_fn(sigma_filt, 2, (n, n)), fun_at(f, Tn - 1), Qm, n, Tn)


def usmoother_of_filter(u):
    return usmoother_fns(u.aug, u.fM.at, u.fP.at, u.f, u.Q, u.n, u.T)


class UModel:
    """symbolic inputs of an unscented estimator"""

    def __init__(self, aug, per_f=False, per_g=False, obs=None, n=N, m=M, T_=T, more=False):
        n, m, T_ = Lin.of(n), Lin.of(m), Lin.of(T_)
        self.aug, self.n, self.m, self.T = aug, n, m, T_
        nf, ng = T_ - 1, T_
        if more:
            # sequences may be longer than needed
            nf, ng = Lin.of("Tf"), Lin.of("Tg")
            ctx().assume(f_ge(nf, T_ - 1))
            ctx().assume(f_ge(ng, T_))
        self.f, self.g = Fun("f", n, per_f, nf), Fun("g", m, per_g, ng)
        self.Q, self.R, self.S0 = base("Q", n, n, (), True), base("R", m, m, (), True), base("S0", n, n, (), True)
        self.mu0 = base("mu0", n)
        self.obs = obs or Obs("Z", T_, m)

    def arr(self, k):
        x = getattr(self, k)
        d = (x.r,) if k == "mu0" else (x.r, x.c)
        return param_arr(x, [mk_int(i) for i in d], "the caller's " + k, "f")

    def args(self):
        return dict(mu_0=self.arr("mu0"), sigma_0=self.arr("S0"), f=self.f.vector(), g=self.g.vector(), Q=self.arr("Q"), R=self.arr("R"),
                    Z=self.obs.arr())

    def kwargs(self):
        return dict(transition_functions=self.f.value(), observation_functions=self.g.value(), transition_covariance=self.arr("Q"),
                    observation_covariance=self.arr("R"), initial_state_mean=self.arr("mu0"), initial_state_covariance=self.arr("S0"))

    def register(self):
        return ufilter_of(self.aug, *[self.args()[k] for k in ("mu_0", "sigma_0", "f", "g", "Q", "R", "Z")])


# ------------------------------------------------------------------ contracts
def arg(name, *dims, sym=False, mask=None):
    return param_arr(base("arg:" + name, dims[0], dims[1] if len(dims) > 1 else ONE, (), sym), dims, name, "f", mask=mask)


Kp = Lin.of("K")


def _points(tag, K, n):
    return cls("SigmaPoints", Points)(arg(tag + "points", K, n), arg(tag + "wm", K), arg(tag + "wc", K))


def sig_of(p):
    need(isinstance(p, tuple), len(p) == 3)
    X, wm, wc = mtx(p[0]).T, vec(p[1]), vec(p[2])
    need(same_dim(wm.r, X.c), same_dim(wc.r, X.c))
    return Sig(X, wm, wc)


def mom_of(p):
    need(isinstance(p, tuple), len(p) == 2)
    m, P = vec(p[0]), mtx(p[1])
    need(same_dim(P.r, m.r), same_dim(P.c, m.r))
    return m, P


def _k1():
    from .lin import f_ge
    ctx().assume(f_ge(Kp, ONE))


def _g_p2m():
    def go(noise):
        def setup():
            _k1()
            return dict(points=_points("p", Kp, N), sigma_noise=arg("noise", N, N, sym=True) if noise else None)
        return setup
    return [("additive noise", go(True)), ("no noise", go(False))]


def opt(x, r, c):
    if x is None:
        return None
    x = mtx(x)
    need(same_dim(x.r, r), same_dim(x.c, c))
    return x


@contract(U + "points2moments", "points sigma_noise", _g_p2m)
def _c_p2m(points, sigma_noise):
    s = sig_of(points)
    return mom(*moments(s, opt(sigma_noise, s.X.r, s.X.r)))


def real(x):
    if x is None:
        return None
    need(not isinstance(x, (Arr, Flex)))
    return to_sc(x)


def _g_m2p():
    def setup(*given):
        def go():
            a = {k: SReal(sc_sym("arg:" + k)) if k in given else None for k in ("alpha", "beta", "kappa")}
            return dict(moments=cls("Moments", Mom)(arg("mean", N), arg("cov", N, N, sym=True)), **a)
        return go
    return [("default spread", setup()), ("any alpha, beta, kappa", setup("alpha", "beta", "kappa")), ("any alpha", setup("alpha")),
            ("any kappa", setup("kappa"))]


@contract(U + "moments2points", "moments alpha beta kappa", _g_m2p)
def _c_m2p(moments, alpha, beta, kappa):
    m, P = mom_of(moments)
    need(symm(P))
    s = sigma(m, P, real(alpha), real(beta), real(kappa))
    return pts(s.X, s.wm, s.wc)


def ufun(f):
    return fn_of(f)


def _g_ut():
    def go(fn, pn, sn):
        def setup():
            _k1()
            return dict(points=_points("p", Kp, N), f=Fun("f", M).value() if fn else None,
                        points_noise=_points("w", Kp, Lin.of("k")) if pn else None,
                        sigma_noise=arg("noise", *((M, M) if fn else (N, N)), sym=True) if sn else None)
        return setup
    return [("function and additive noise", go(1, 0, 1)), ("function with noise argument", go(1, 1, 0)), ("function, no noise", go(1, 0, 0)),
            ("identity", go(0, 0, 0)), ("identity, additive noise", go(0, 0, 1))]


@contract(U + "unscented_transform", "points f points_noise sigma_noise", _g_ut)
def _c_ut(points, f, points_noise, sigma_noise):
    s = sig_of(points)
    if f is None:
        need(points_noise is None)
        y = s
    else:
        y = through(ufun(f), s, *([sig_of(points_noise)] if points_noise is not None else []))
    return (pts(y.X, y.wm, y.wc), mom(*moments(y, opt(sigma_noise, y.X.r, y.X.r))))


def _g_uc():
    def setup():
        mo = cls("Moments", Mom)
        return dict(cross_sigma=arg("cross", N, M), moments_pred=mo(arg("pm", N), arg("pP", N, N, sym=True)),
                    obs_moments_pred=mo(arg("zm", M), arg("S", M, M, sym=True)), z=arg("z", M, mask=Mask("arg:z", ZERO)))
    return [("any", setup)]


def obs_any(z):
    f = z.mk.any_formula() if z.mk is not None else False
    return f if isinstance(f, bool) else branch(f)


@contract(U + "unscented_correct", "cross_sigma moments_pred obs_moments_pred z", _g_uc)
def _c_uc(cross_sigma, moments_pred, obs_moments_pred, z):
    X = mtx(cross_sigma)
    m, P = mom_of(moments_pred)
    zm, S = mom_of(obs_moments_pred)
    need(isinstance(z, Arr), z.ndim == 1, same_dim(z.dims()[0], zm.r), same_dim(X.r, m.r), same_dim(X.c, zm.r))
    if obs_any(z):
        return mom(m, P)
    return mom(*gained(m, P, X, zm, S, data_mat(z)))


def _g_aug(k):
    def setup():
        from .lin import f_ge
        ctx().assume(f_ge(Lin.of("k"), ONE))
        mo = cls("Moments", Mom)
        return dict(momentses=[mo(arg("m%d" % i, d), arg("P%d" % i, d, d, sym=True)) for i, d in enumerate((N, Lin.of("k"), M)[:k])])
    return setup


@contract(U + "augmented_points", "momentses", lambda: [("two", _g_aug(2)), ("three", _g_aug(3))])
def _c_aug(momentses):
    need(isinstance(momentses, (list, tuple)), len(momentses) in (2, 3))
    ps = [mom_of(x) for x in momentses]
    need(*[symm(p[1]) for p in ps])
    return Lst([pts(s.X, s.wm, s.wc) for s in joint(ps)])


def symm(P):
    """symmetric, or loop state not identified yet (checked when the loop is: loops.solve_families)"""
    return P == P.T or alg.havoc(P)


class Lst:
    def __init__(self, items):
        self.items = items

    def value(self):
        from .contracts import to_value
        return [to_value(x) for x in self.items]

    def __call__(self, res, label, out):
        from .contracts import compare
        compare(res, tuple(self.items), label, out)


@contract(U + "augmented_unscented_filter_points", "mean_state covariance_state covariance_transition covariance_observation",
          _gen(dict(mean_state=("v", N), covariance_state=("m", N, N, 1), covariance_transition=("m", N, N, 1),
                    covariance_observation=("m", M, M, 1))))
def _c_afp(mean_state, covariance_state, covariance_transition, covariance_observation):
    x, P, Q, R = vec(mean_state), mtx(covariance_state), mtx(covariance_transition), mtx(covariance_observation)
    need(*[same_dim(d, x.r) for X in (P, Q) for d in (X.r, X.c)], same_dim(R.r, R.c), symm(P), symm(Q), symm(R))
    ss = joint([(x, P), (Mat.zero(x.r, ONE), Q), (Mat.zero(R.r, ONE), R)])
    return tuple(pts(s.X, s.wm, s.wc) for s in ss)


def _g_pred():
    def go(aug):
        def setup():
            _k1()
            return dict(transition_function=Fun("f", N).value(), points_state=_points("p", Kp, N),
                        points_transition=_points("w", Kp, N) if aug else None, sigma_transition=None if aug else arg("Q", N, N, sym=True))
        return setup
    return [("additive", go(False)), ("augmented", go(True))]


@contract(U + "unscented_filter_predict", "transition_function points_state points_transition sigma_transition", _g_pred)
def _c_pred(transition_function, points_state, points_transition, sigma_transition):
    need(points_transition is not None or sigma_transition is not None)
    s = sig_of(points_state)
    y = through(ufun(transition_function), s, *([sig_of(points_transition)] if points_transition is not None else []))
    return (pts(y.X, y.wm, y.wc), mom(*moments(y, opt(sigma_transition, y.X.r, y.X.r))))


def _g_corr():
    def go(aug):
        def setup():
            _k1()
            return dict(observation_function=Fun("g", M).value(), moments_pred=cls("Moments", Mom)(arg("pm", N), arg("pP", N, N, sym=True)),
                        points_pred=_points("p", Kp, N), observation=arg("z", M, mask=Mask("arg:z", ZERO)),
                        points_observation=_points("v", Kp, M) if aug else None, sigma_observation=None if aug else arg("R", M, M, sym=True))
        return setup
    return [("additive", go(False)), ("augmented", go(True))]


@contract(U + "unscented_filter_correct", "observation_function moments_pred points_pred observation points_observation sigma_observation", _g_corr)
def _c_corr(observation_function, moments_pred, points_pred, observation, points_observation, sigma_observation):
    s = sig_of(points_pred)
    m, P = mom_of(moments_pred)
    need(isinstance(observation, Arr), observation.ndim == 1)
    y = through(ufun(observation_function), s, *([sig_of(points_observation)] if points_observation is not None else []))
    zm, S = moments(y, opt(sigma_observation, y.X.r, y.X.r))
    need(same_dim(observation.dims()[0], zm.r))
    if obs_any(observation):
        return mom(m, P)
    return mom(*corrected(m, P, s, y, zm, S, data_mat(observation)))


def _g_filter(aug):
    def go(pf, pg):
        def setup():
            FAMS.active = []
            mod = UModel(aug, pf, pg, more=True)
            mod.register().activate()
            return mod.args()
        return setup
    return lambda: [("functions %s / %s" % (a and "per step" or "constant", b and "per step" or "constant"), go(a, b))
                    for a in (False, True) for b in (False, True)]


def _filter_spec(aug):
    def spec(mu_0, sigma_0, f, g, Q, R, Z):
        u = ufilter_of(aug, mu_0, sigma_0, f, g, Q, R, Z)
        return (Seq(u.T, (u.n,), u.fM.at), Seq(u.T, (u.n, u.n), u.fP.at))
    return spec


def _g_smoother(aug):
    def go(pf):
        def setup():
            FAMS.active = []
            ctx().assume(f_ge(Lin.of("Tf"), T - 1))
            mk = lambda nm, sub, sym=False: new_fam((T,) + sub, lambda i: base("seq:" + nm, sub[0], sub[1] if len(sub) > 1 else ONE, (i,), sym),
                                                    "f", nm, nm)
            v = dict(mu_filt=mk("fm", (N,)), sigma_filt=mk("fc", (N, N), True), f=Fun("f", N, pf, Lin.of("Tf")).vector(), Q=arg("Q", N, N, sym=True))
            usmoother_of(aug, **v).activate()
            return v
        return setup
    return lambda: [("functions %s" % (a and "per step" or "constant"), go(a)) for a in (False, True)]


def _smoother_spec(aug):
    def spec(mu_filt, sigma_filt, f, Q):
        s = usmoother_of(aug, mu_filt, sigma_filt, f, Q)
        return (Seq(s.T, (s.n,), s.sM.at), Seq(s.T, (s.n, s.n), s.sP.at))
    return spec


for _a, _p in ((False, "additive"), (True, "augmented")):
    contract(U + _p + "_unscented_filter", "mu_0 sigma_0 f g Q R Z", _g_filter(_a))(_filter_spec(_a))
    contract(U + _p + "_unscented_smoother", "mu_filt sigma_filt f Q", _g_smoother(_a))(_smoother_spec(_a))
