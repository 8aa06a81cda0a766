"""The properties as obligations over the entry points of /repo and the contracts."""
from fractions import Fraction as Fr

from . import em, sqrtc, squns, std, uns
from .alg import E, J, Mat, Sc, base, diag, inv, mat_sum, ones, sc_fn, sc_sum, sc_sym
from .contracts import CON, Mtx, Obligation, Real, Same, Seq, Vec, compare
from .lin import Lin, ONE, ZERO, branch, ctx, f_and, f_eq, f_ge, f_lt, f_not
from .spec import LEN, M, N, SHAPE, SHORT, SYM, T, Const, Model, Obs, Param, Smoother, kwargs_of, std_model
from .emiter import iterate_run
from .fams import FAMS, equal_by_induction
from .vals import Arr, Mask, mk_int, new_arr, param_arr

PROOFS = {}
EXPECT = {}


def proof(pid):
    def dec(f):
        PROOFS[pid] = f
        return f
    return dec


STD = "pykalman.standard"


def KF(L):
    return L[STD].KalmanFilter


CHOL = "pykalman.sqrt.cholesky"
BIER = "pykalman.sqrt.bierman"
# parameters of the square root filters: constant covariances
SQ_MODES = sqrtc.SQ_MODES


def CKF(L):
    return L[CHOL].CholeskyKalmanFilter


def BKF(L):
    return L[BIER].BiermanKalmanFilter


class Kind:
    """one of the linear filters: class, admissible models, factor abstraction of its loops"""

    def __init__(self, name, make, modes, ab, module):
        self.name, self.make, self.modes, self.ab, self.module = name, make, modes, ab, module

    def model(self, name=None, modes=None, **kw):
        m = {k: "flex" if k in LEN else "const" for k in SHAPE}
        m.update(modes or {})
        m.update(self.modes)
        return std_model(name or self.name, m, **kw)

    def begin(self, mod):
        """register the model whose recursions specify the run"""
        FAMS.abstractions = ("id",) + self.ab
        mm = std.register_model(mod)
        if self.ab:
            mm.activate()
            std.smoother_of_model(mm).activate()
        return mm


STDK = Kind("KalmanFilter", KF, {}, (), STD)
CHOLK = Kind("CholeskyKalmanFilter", CKF, SQ_MODES, ("LLt",), CHOL)
BIERK = Kind("BiermanKalmanFilter", BKF, SQ_MODES, ("UDU",), BIER)
KINDS = [STDK, CHOLK]


def filt_exp(mm):
    return (Seq(mm.T, (mm.n,), mm.fM.at), Seq(mm.T, (mm.n, mm.n), mm.fP.at))


def smooth_exp(sm):
    return (Seq(sm.T, (sm.n,), sm.sM.at), Seq(sm.T, (sm.n, sm.n), sm.sP.at))


@proof("P01")
def p01(P):
    def run(L, out):
        mod = std_model()
        mm = std.register_model(mod)
        kf = KF(L)(**kwargs_of(mod))
        compare(kf.filter(mod.obs.arr()), filt_exp(mm), "filtered moments", out)
    P.part("KalmanFilter.filter", run)


@proof("P03")
def p03(P):
    def run(L, out):
        mod = std_model()
        mm = std.register_model(mod)
        sm = std.smoother_of_model(mm)
        kf = KF(L)(**kwargs_of(mod))
        compare(kf.smooth(mod.obs.arr()), smooth_exp(sm), "smoothed moments", out)
    P.part("KalmanFilter.smooth", run)


def loglik_spec(mm):
    t = Lin.of("t")
    S = mm.S(t)
    v = mm.innov(t)
    q = (v.T @ inv(S) @ v).as_scalar()
    body = -(q + sc_fn("logdet", S) + Sc.of(mm.m) * sc_fn("log", sc_sym("pi") * 2)) * Fr(1, 2)
    g = mm.obs.any(t)
    if g is True:
        return Sc.of(0)
    return sc_sum(mm.T, body, "t", (f_not(g),) if g is not False else ())


@proof("P04")
def p04(P):
    def run(L, out):
        mod = std_model()
        mm = std.register_model(mod)
        kf = KF(L)(**kwargs_of(mod))
        compare(kf.loglikelihood(mod.obs.arr()), Real(loglik_spec(mm)), "log-likelihood", out)
    P.part("KalmanFilter.loglikelihood", run)


class Fixed(Param):
    """a parameter given once or repeated at every step (undetermined which)"""

    def mat(self, t):
        return base(self.name, self.r, self.c, (), self.sym)

    def value(self):
        from .vals import Flex
        fl = Flex(self.name, self.sh, LEN[self.key], self.mat, "the caller's " + SHORT[self.key], self.sym)
        fl.flag = ("tv", self.name)
        return fl

    def at(self, t):
        return self.mat(None)


def const_model(name="const"):
    return std_model(name, {k: "const" for k in SHAPE})


@proof("P21")
def p21(P):
    def parts(K):
        def run(L, out):
            ref = K.model(modes={k: "const" for k in SHAPE})
            mm = K.begin(ref)
            sm = std.smoother_of_model(mm)
            v = kwargs_of(ref)
            for k in LEN:
                if k not in K.modes:
                    v[SHORT[k]] = Fixed(k, "flex").value()
            kf = K.make(L)(**v)
            Z = ref.obs.arr
            compare(kf.filter(Z()), filt_exp(mm), "filter", out)
            compare(kf.smooth(Z()), smooth_exp(sm), "smooth", out)
            compare(kf.loglikelihood(Z()), Real(loglik_spec(mm)), "loglikelihood", out)
        P.part("%s, any subset of parameters repeated" % K.name, run)
    for K in KINDS:
        parts(K)

    def sample(K):
        def run(L, out):
            ref = K.model(modes={k: "const" for k in SHAPE})
            v = kwargs_of(ref)
            for k in LEN:
                if k not in K.modes:
                    v[SHORT[k]] = Fixed(k, "flex").value()
            seed = SInt(Lin.of("seed"))
            mm = std.register_model(ref)
            s = lin_sampled(mm, ("seed", repr(seed)), base("arg:x0", N))
            FAMS.active = FAMS.active + [s.x]
            x, z = K.make(L)(**v).sample(mk_int(T), initial_state=arg_v("x0", N), random_state=seed)
            compare(x, Seq(T, (N,), s.x.at), "sampled states", out)
            compare(z, Seq(T, (M,), s.z), "sampled observations", out)
        P.part("%s.sample, any subset of parameters repeated" % K.name, run)
    for K in KINDS + [BIERK]:
        sample(K)


# ------------------------------------------------------------------ causality
def fam_pairs(a, b):
    return [(a.fM, b.fM), (a.fP, b.fP), (a.pM, b.pM), (a.pP, b.pP), (a.K, b.K)]


def expect_map(res, exp_fn, sub, n, m, label, out):
    """entries of the sequence res equal exp_fn(t) after replacing families by equal ones"""
    from .fams import prove_eq, replace_fams
    from .lin import Explorer
    from .vals import same_dim
    d = res.dims()
    if not (same_dim(d[0], n) and len(d) == 1 + len(sub)):
        out.append(Obligation(label, False, "shape %s" % (d,)))
        return
    C = ctx()
    t = Lin.of("t'")
    k = C.snapshot()
    C.assume(f_ge(t, ZERO))
    C.assume(f_lt(t, n))
    oks = []

    def one():
        oks.append(prove_eq(replace_fams(res.entry(t), m), exp_fn(t)))
    Explorer(C).run(one)
    C.restore(k)
    out.append(Obligation(label, bool(oks) and all(oks)))


def last_equal(a, b, label, out):
    from .fams import prove_eq
    x, y = a.entry(a.dims()[0] - 1), b.entry(b.dims()[0] - 1)
    out.append(Obligation(label, prove_eq(x, y), "", (x, y)))


@proof("P19")
def p19(P):
    for K in KINDS:
        causal_parts(P, K)
    for name, make, aug in UALL:
        uns_causal(P, name, make, aug)


def uns_causal(P, name, make, aug):
    def prefix(L, out):
        T1 = Lin.of("T1")
        ctx().assume(f_ge(T1, ONE))
        ctx().assume(f_ge(T, T1))
        pf = branch(("per", "fg"))
        mod = uns.UModel(aug, pf, pf)
        u = mod.register()
        kf = make(L)(**mod.kwargs())
        full = kf.filter(mod.obs.arr())
        part = kf.filter(mod.obs.prefix(T1).arr())
        u2 = uns.LAST["f"]
        mp = equal_by_induction([(u2.fM, u.fM), (u2.fP, u.fP)], T1, "prefix", out)
        for i, (sub, f) in enumerate((((N,), full[0].entry), ((N, N), full[1].entry))):
            expect_map(part[i], f, sub, T1, mp, "filter(Z[:k])[%d] = filter(Z)[%d][:k]" % (i, i), out)
    P.part(name + ".filter of a prefix", prefix)

    def last(L, out):
        pf = branch(("per", "fg"))
        mod = uns.UModel(aug, pf, pf)
        mod.register()
        kf = make(L)(**mod.kwargs())
        f, s = kf.filter(mod.obs.arr()), kf.smooth(mod.obs.arr())
        last_equal(s[0], f[0], "last smoothed mean", out)
        last_equal(s[1], f[1], "last smoothed covariance", out)
    P.part(name + ".smooth", last)


def causal_parts(P, K):
    def prefix(L, out):
        T1 = Lin.of("T1")
        ctx().assume(f_ge(T1, ONE))
        ctx().assume(f_ge(T, T1))
        mod = K.model()
        mm = K.begin(mod)
        kf = K.make(L)(**kwargs_of(mod))
        Z = mod.obs.arr()
        full = kf.filter(Z)
        part = kf.filter(mod.obs.prefix(T1).arr())
        m2 = std.last_model()
        mp = equal_by_induction(fam_pairs(m2, mm), T1, "prefix", out)
        for i, (sub, f) in enumerate((((N,), full[0].entry), ((N, N), full[1].entry))):
            expect_map(part[i], f, sub, T1, mp, "filter(Z[:k])[%d] = filter(Z)[%d][:k]" % (i, i), out)
    P.part(K.name + ".filter of a prefix", prefix)

    def last(L, out):
        mod = K.model()
        K.begin(mod)
        kf = K.make(L)(**kwargs_of(mod))
        f, s = kf.filter(mod.obs.arr()), kf.smooth(mod.obs.arr())
        last_equal(s[0], f[0], "last smoothed mean", out)
        last_equal(s[1], f[1], "last smoothed covariance", out)
    P.part(K.name + ".smooth", last)


# ------------------------------------------------------------------ masked steps
def hidden_obs(o):
    """the same sequence with arbitrary other values under the mask"""
    return Obs(o.zid, o.length, o.width, True, o.mat + base(("hidden", o.zid), o.length, o.width))


@proof("P02")
def p02(P):
    for K in KINDS:
        masked_parts(P, K)
    for name, make, aug in UALL:
        uns_masked(P, name, make, aug)


def uns_masked(P, name, make, aug):
    """the unscented filters with functions given per step (constant ones are a special case of the recursion)"""
    def skip(L, out):
        mod = uns.UModel(aug, True, True)
        u = mod.register()
        m, c = make(L)(**mod.kwargs()).filter(mod.obs.arr())
        t = Lin.of("t")
        ctx().assume(f_ge(t, ZERO))
        ctx().assume(f_lt(t, T))
        ctx().assume(("anymask", "Z", t))
        compare(new_arr(m.entry(t), (N,)), Vec(u._pM(t)), "mean at a masked step = prediction", out)
        compare(new_arr(c.entry(t), (N, N)), Mtx(u._pP(t)), "covariance at a masked step = prediction", out)
    P.part(name + ".filter at a masked step", skip)

    def hidden(L, out):
        pf = branch(("per", "fg"))
        mod = uns.UModel(aug, pf, pf)
        u = mod.register()
        s = uns.usmoother_of_filter(u)
        kf = make(L)(**mod.kwargs())
        Z2 = hidden_obs(mod.obs).arr
        f2, s2 = kf.filter(Z2()), kf.smooth(Z2())
        u2, v2 = uns.LAST["f"], uns.LAST["s"]
        mp = equal_by_induction([(u2.fM, u.fM), (u2.fP, u.fP)], T, "values under the mask", out)
        ms = equal_by_induction([(v2.sM, s.sM), (v2.sP, s.sP)], T, "values under the mask", out, known=mp)
        for i, sub in enumerate(((N,), (N, N))):
            expect_map(f2[i], (u.fM, u.fP)[i].at, sub, T, mp, "filter[%d]" % i, out)
            expect_map(s2[i], (s.sM, s.sP)[i].at, sub, T, ms, "smooth[%d]" % i, out)
    P.part(name + ", arbitrary values under the mask", hidden)

    def online(L, out):
        mod = uns.UModel(aug)
        kf = make(L)(**mod.kwargs())
        x, Pm = arg_v("x", N), arg_m("P", N, N, True)
        exp = uns.ustep_online(aug, base("arg:x", N), base("arg:P", N, N, (), True), None, True, f=mod.f.at(ZERO), g=mod.g.at(ZERO), Q=mod.Q, R=mod.R)
        exp = (Vec(exp[0]), Mtx(exp[1]))
        compare(kf.filter_update(x, Pm), exp, "filter_update without observation", out)
        z = param_arr(base("z", M), (M,), "the observation", "f", mask=Mask("z", ZERO))
        ctx().assume(("anymask", "z", ZERO))
        compare(kf.filter_update(x, Pm, observation=z), exp, "filter_update with a masked component", out)
    P.part(name + ".filter_update", online)


def masked_parts(P, K):
    def skip(L, out):
        # a masked step passes the prediction through (consequence of the filter's contract)
        mod = K.model()
        mm = K.begin(mod)
        kf = K.make(L)(**kwargs_of(mod))
        m, c = kf.filter(mod.obs.arr())
        t = Lin.of("t")
        ctx().assume(f_ge(t, ZERO))
        ctx().assume(f_lt(t, T))
        ctx().assume(("anymask", "Z", t))
        compare(new_arr(m.entry(t), (N,)), Vec(mm._pM(t)), "mean at a masked step = prediction", out)
        compare(new_arr(c.entry(t), (N, N)), Mtx(mm._pP(t)), "covariance at a masked step = prediction", out)
    P.part(K.name + ".filter at a masked step", skip)

    def hidden(L, out):
        mod = K.model()
        mm = K.begin(mod)
        sm = std.smoother_of_model(mm)
        kf = K.make(L)(**kwargs_of(mod))
        Z2 = hidden_obs(mod.obs).arr
        f2, s2, l2 = kf.filter(Z2()), kf.smooth(Z2()), kf.loglikelihood(Z2())
        m2, sm2 = std.last_model(), std.last_smoother()
        mp = equal_by_induction(fam_pairs(m2, mm), T, "values under the mask", out)
        ms = equal_by_induction([(sm2.sM, sm.sM), (sm2.sP, sm.sP), (sm2.G, sm.G)], T, "values under the mask", out, known=mp)
        for i, sub in enumerate(((N,), (N, N))):
            expect_map(f2[i], (mm.fM, mm.fP)[i].at, sub, T, mp, "filter[%d]" % i, out)
            expect_map(s2[i], (sm.sM, sm.sP)[i].at, sub, T, ms, "smooth[%d]" % i, out)
        from .fams import prove_eq, replace_fams
        a, b = Mat.scalar(replace_fams(l2.s, mp)), Mat.scalar(loglik_spec(mm))
        out.append(Obligation("loglikelihood", prove_eq(a, b), "", (a, b)))
    P.part(K.name + ", arbitrary values under the mask", hidden)

    def online(L, out):
        mod = K.model(modes={k: "const" for k in SHAPE})
        kf = K.make(L)(**kwargs_of(mod))
        x, Pm = arg_v("x", N), arg_m("P", N, N, True)
        A, b, Q = mod.p("A"), mod.p("b"), mod.p("Q")
        exp = (Vec(A @ base("arg:x", N) + b), Mtx(A @ base("arg:P", N, N, (), True) @ A.T + Q))
        compare(kf.filter_update(x, Pm), exp, "filter_update without observation", out)
        z = param_arr(base("z", M), (M,), "the observation", "f", mask=Mask("z", ZERO))
        ctx().assume(("anymask", "z", ZERO))
        compare(kf.filter_update(x, Pm, observation=z), exp, "filter_update with a masked component", out)
    P.part(K.name + ".filter_update", online)


def arg_v(name, n):
    return param_arr(base("arg:" + name, n), (mk_int(n),), "the argument " + name, "f")


def arg_m(name, r, c, sym=False):
    return param_arr(base("arg:" + name, r, c, (), sym), (mk_int(r), mk_int(c)), "the argument " + name, "f")


# ------------------------------------------------------------------ online updates
UPD = dict(A="transition_matrix", b="transition_offset", Q="transition_covariance", C="observation_matrix",
           d="observation_offset", R="observation_covariance")


def step(x, P, z, par, f, n=N, m=M):
    """one predict / correct step with parameter values par; f: mask formula of the observation"""
    pm = par["A"] @ x + par["b"]
    pP = par["A"] @ P @ par["A"].T + par["Q"]
    if branch(f) if not isinstance(f, bool) else f:
        return pm, pP
    S = par["C"] @ pP @ par["C"].T + par["R"]
    K = pP @ par["C"].T @ inv(S)
    return pm + K @ (z - par["C"] @ pm - par["d"]), pP - K @ par["C"] @ pP


def online_run(make, masked, errors=(ValueError,), keys=UPD, sh=SHAPE):
    """filter_update with each parameter given to the call or not, constant or per step in the estimator"""
    def run(L, out):
        mod = std_model()
        kf = make(L)(**kwargs_of(mod))
        x, Pm = arg_v("x", N), arg_m("P", N, N, True)
        z = param_arr(base("z", M), (M,), "the observation", "f", mask=Mask("z", ZERO) if masked else None)
        f = ("anymask", "z", ZERO) if masked else False
        kw, eff, omitted = {}, {}, []
        for k, nm in keys.items():
            s = sh[k]
            if branch(("passed", k)):
                kw[nm] = param_arr(base("given:" + k, s[0], s[1] if len(s) > 1 else ONE, (), k in SYM), [mk_int(q) for q in s],
                                   "the argument " + nm, "f")
                eff[k] = base("given:" + k, s[0], s[1] if len(s) > 1 else ONE, (), k in SYM)
            else:
                omitted.append(k)
                eff[k] = mod.par[k].mat(None)
        try:
            res = kf.filter_update(x, Pm, observation=z, **kw)
        except errors:
            tv = [k for k in omitted if branch(("tv", mod.par[k].name))]
            out.append(Obligation("an error is raised only for an omitted time-varying parameter", bool(tv), "omitted: %s" % omitted, definite=True))
            return
        tv = [k for k in omitted if branch(("tv", mod.par[k].name))]
        if tv:
            out.append(Obligation("omitted time-varying parameters are refused", False, "accepted: %s" % tv, definite=True))
            return
        m2, P2 = step(base("arg:x", N), base("arg:P", N, N, (), True), base("z", M), eff, f)
        compare(res, (Vec(m2), Mtx(P2)), "filter_update", out)
    return run


def batch_link(L, out):
    """the filter's recursion at step t+1 is the update step with the parameters of that step"""
    mod = std_model()
    mm = std.register_model(mod)
    t = Lin.of("t")
    ctx().assume(f_ge(t, ZERO))
    ctx().assume(f_lt(t, T - 1))
    par = {k: mm.p(k, t if k in "AbQ" else t + 1) for k in UPD}
    m2, P2 = step(mm.fM.at(t), mm.fP.at(t), mm.obs.z(t + 1), par, mm.obs.any(t + 1))
    compare(new_arr(mm.fM.at(t + 1), (N,)), Vec(m2), "mean of step t+1", out)
    compare(new_arr(mm.fP.at(t + 1), (N, N)), Mtx(P2), "covariance of step t+1", out)
    kf = KF(L)(**kwargs_of(mod))
    compare(kf.filter(mod.obs.arr()), filt_exp(mm), "filter", out)


@proof("P07")
def p07(P):
    P.part("batch filtering step", batch_link)
    P.part("KalmanFilter.filter_update", online_run(KF, True))
    P.part("KalmanFilter.filter_update, unmasked array", online_run(KF, False))
    for name, make, aug in UALL:
        for masked in (True, False):
            P.part("%s.filter_update%s" % (name, "" if masked else ", unmasked array"), uns_online(make, aug, masked))
        for pf, pg, text in per_cases():
            P.part("%s: batch filtering step, %s" % (name, text), uns_link(make, aug, pf, pg))


def uns_online(make, aug, masked):
    """filter_update of an unscented filter: each function and covariance given to the call or not"""
    def run(L, out):
        pf, pg = branch(("per", "f")), branch(("per", "g"))
        mod = uns.UModel(aug, pf, pg)
        kf = make(L)(**mod.kwargs())
        z = param_arr(base("z", M), (M,), "the observation", "f", mask=Mask("z", ZERO) if masked else None)
        kw, omitted, eff = {}, [], {}
        for k, nm, d in (("f", "transition_function", N), ("g", "observation_function", M)):
            if branch(("passed", k)):
                fn = uns.Fun("given:" + k, d)
                kw[nm], eff[k] = fn.value(), fn.at(ZERO)
            else:
                fn = getattr(mod, k)
                eff[k] = fn.at(ZERO)
                if fn.per:
                    omitted.append(fn.length)
        for k, nm, d in (("Q", "transition_covariance", N), ("R", "observation_covariance", M)):
            eff[k] = getattr(mod, k)
            if branch(("passed", k)):
                kw[nm] = arg_m(k, d, d, True)
                eff[k] = base("arg:" + k, d, d, (), True)
        sure = [not branch(f_eq(n, ONE)) for n in omitted]
        try:
            res = kf.filter_update(arg_v("x", N), arg_m("P", N, N, True), observation=z, **kw)
        except AssertionError:
            out.append(Obligation("AssertionError only for an omitted sequence of functions", any(sure), definite=True))
            return
        if any(sure):
            out.append(Obligation("omitted sequences of functions are refused", False, "", definite=True))
            return
        any_ = branch(("anymask", "z", ZERO)) if masked else False
        m2, P2 = uns.ustep_online(aug, base("arg:x", N), base("arg:P", N, N, (), True), base("z", M), any_, **eff)
        compare(res, (Vec(m2), Mtx(P2)), "filter_update", out)
        if masked:
            res = kf.filter_update(arg_v("x", N), arg_m("P", N, N, True), **kw)
            m2, P2 = uns.ustep_online(aug, base("arg:x", N), base("arg:P", N, N, (), True), base("z", M), True, **eff)
            compare(res, (Vec(m2), Mtx(P2)), "filter_update without observation", out)
    return run


def uns_link(make, aug, pf, pg):
    """the filter's recursion at step t+1 is the update step with the functions of that step"""
    def run(L, out):
        mod = uns.UModel(aug, pf, pg)
        u = mod.register()
        t = Lin.of("t")
        ctx().assume(f_ge(t, ZERO))
        ctx().assume(f_lt(t, T - 1))
        m2, P2 = uns.ustep_online(aug, u.fM.at(t), u.fP.at(t), u.obs.z(t + 1), u.masked(t + 1), f=mod.f.at(t), g=mod.g.at(t + 1),
                                  Q=mod.Q, R=mod.R)
        compare(new_arr(u.fM.at(t + 1), (N,)), Vec(m2), "mean of step t+1", out)
        compare(new_arr(u.fP.at(t + 1), (N, N)), Mtx(P2), "covariance of step t+1", out)
        compare(make(L)(**mod.kwargs()).filter(mod.obs.arr()), ufilt_exp(u), "filter", out)
    return run


# ------------------------------------------------------------------ observations
class SeqObs(Obs):
    """other presentations of the same observations"""

    def flat(self):
        """one-dimensional sequence of scalars (m = 1)"""
        return param_arr(self.mat, (mk_int(self.length),), "the observations", "f",
                         mask=Mask(self.zid) if self.masked else None)

    def rows(self):
        """a list of the rows"""
        from .loops import SymList
        return SymList(self.length, lambda i: self.row(Lin.of(i)))

    def row(self, i):
        return param_arr(self.z(i), (mk_int(self.width),), "the observations", "f", mask=Mask(self.zid, i) if self.masked else None)


def shapes_run(K, masked, form, T_=T):
    def run(L, out):
        m1 = ONE if form == "flat" else M
        if form == "flat" and T_ == T:
            ctx().assume(f_ge(T, ONE + 1))
        mod = K.model("obs-%s%s%s" % (form, masked, T_), obs=SeqObs("Z", length=T_, width=m1, masked=masked), m=m1, T_=T_)
        mm = K.begin(mod)
        sm = std.smoother_of_model(mm)
        kf = K.make(L)(**kwargs_of(mod))
        Z = {"array": mod.obs.arr, "flat": mod.obs.flat, "list": mod.obs.rows}[form]
        compare(kf.filter(Z()), filt_exp(mm), "filter", out)
        compare(kf.smooth(Z()), smooth_exp(sm), "smooth", out)
        compare(kf.loglikelihood(Z()), Real(loglik_spec(mm)), "loglikelihood", out)
    return run


@proof("P18")
def p18(P):
    for K in KINDS:
        P.part(K.name + ", masked array", shapes_run(K, True, "array"))
        P.part(K.name + ", plain array", shapes_run(K, False, "array"))
        P.part(K.name + ", one-dimensional masked array", shapes_run(K, True, "flat"))
        P.part(K.name + ", one-dimensional array", shapes_run(K, False, "flat"))
        P.part(K.name + ", one scalar observation, masked", shapes_run(K, True, "flat", ONE))
        P.part(K.name + ", one scalar observation", shapes_run(K, False, "flat", ONE))
        P.part(K.name + ", list of rows", shapes_run(K, False, "list"))
    for name, make, aug in UALL:
        for masked in (True, False):
            for form, T_, text in (("array", T, "array"), ("flat", T, "one-dimensional array"), ("flat", ONE, "one scalar observation")):
                P.part("%s, %s%s" % (name, "masked " if masked else "", text), uns_shapes(make, aug, masked, form, T_))
        P.part(name + ", list of rows", uns_shapes(make, aug, False, "list", T))


def uns_shapes(make, aug, masked, form, T_):
    def run(L, out):
        m1 = ONE if form == "flat" else M
        if form == "flat" and T_ == T:
            ctx().assume(f_ge(T, ONE + 1))
        pf = branch(("per", "fg"))
        mod = uns.UModel(aug, pf, pf, obs=SeqObs("Z", length=T_, width=m1, masked=masked), m=m1, T_=T_)
        u = mod.register()
        s = uns.usmoother_of_filter(u)
        kf = make(L)(**mod.kwargs())
        Z = {"array": mod.obs.arr, "flat": mod.obs.flat, "list": mod.obs.rows}[form]
        compare(kf.filter(Z()), ufilt_exp(u), "filter", out)
        compare(kf.smooth(Z()), usmooth_exp(s), "smooth", out)
    return run


# ------------------------------------------------------------------ purity
def state_of(obj):
    """attributes (identity) and contents versions of an estimator"""
    out = {}
    for k, v in vars(obj).items():
        out[k] = (v, getattr(v.root(), "version", None) if isinstance(v, Arr) else None, v.mk if isinstance(v, Arr) else None,
                  list(v) if isinstance(v, list) else None)
    return out


def unchanged(obj, before, label, out):
    after = state_of(obj)
    for k in sorted(set(before) | set(after)):
        a, b = before.get(k), after.get(k)
        ok = a is not None and b is not None and a[0] is b[0] and a[1] == b[1] and a[2] is b[2] and a[3] == b[3]
        if not ok:
            out.append(Obligation("%s leaves attribute %s unchanged" % (label, k), False, "", definite=True))
    out.append(Obligation("%s leaves all %d attributes unchanged" % (label, len(before)), set(before) == set(after), "", definite=True))


def pure_run(make, kwargs, calls):
    def run(L, out):
        for label, call in calls:
            kf = make(L)(**kwargs())
            b = state_of(kf)
            call(kf)
            unchanged(kf, b, label, out)
    return run


@proof("P16")
def p16(P):
    for K in KINDS:
        pure_parts(P, K)
    for name, make, aug in UALL:
        P.part(name, uns_pure(make, aug))


def uns_pure(make, aug):
    def run(L, out):
        pf, pg = branch(("per", "f")), branch(("per", "g"))
        mod = uns.UModel(aug, pf, pg)
        z = lambda: param_arr(base("z", M), (M,), "the observation", "f", mask=Mask("z", ZERO))
        fg = dict(transition_function=uns.Fun("given:f", N).value(), observation_function=uns.Fun("given:g", M).value())
        for label, call in (
                ("filter", lambda kf: kf.filter(mod.obs.arr())), ("smooth", lambda kf: kf.smooth(mod.obs.arr())),
                ("filter_update", lambda kf: kf.filter_update(arg_v("x", N), arg_m("P", N, N, True), **fg)),
                ("filter_update with an observation", lambda kf: kf.filter_update(
                    arg_v("x", N), arg_m("P", N, N, True), observation=z(), transition_covariance=arg_m("Q", N, N, True),
                    observation_covariance=arg_m("R", M, M, True), **fg))):
            kf = make(L)(**mod.kwargs())
            b = state_of(kf)
            call(kf)
            unchanged(kf, b, label, out)
    return run


def pure_parts(P, K):
    def run(calls, const):
        def go(L, out):
            mod = K.model(modes={k: "const" for k in SHAPE} if const else None)
            K.begin(mod)
            for label, call in calls(mod):
                kf = K.make(L)(**kwargs_of(mod))
                b = state_of(kf)
                call(kf)
                unchanged(kf, b, label, out)
        return go
    P.part(K.name, run(lambda mod: [
        ("filter", lambda kf: kf.filter(mod.obs.arr())), ("smooth", lambda kf: kf.smooth(mod.obs.arr())),
        ("loglikelihood", lambda kf: kf.loglikelihood(mod.obs.arr()))], False))
    P.part(K.name + ".filter_update", run(lambda mod: [
        ("filter_update", lambda kf: kf.filter_update(arg_v("x", N), arg_m("P", N, N, True))),
        ("filter_update with an observation", lambda kf: kf.filter_update(
            arg_v("x", N), arg_m("P", N, N, True),
            observation=param_arr(base("z", M), (M,), "the observation", "f", mask=Mask("z", ZERO))))], True))


# ------------------------------------------------------------------ positive semidefiniteness
LOEWNER = ("a sum of congruences B Y B' of positive semidefinite matrices Y is positive semidefinite; the inverse of a positive definite "
           "matrix is positive definite (proved in /verif/lean/Psd.lean)")


def congruence(label, X, terms, out):
    """X = sum of B Y B' over (B, Y): X is positive semidefinite when every Y is"""
    s = None
    for B, Y in terms:
        v = B @ Y @ B.T
        s = v if s is None else s + v
    compare(new_arr(X, (X.r, X.c)), Mtx(s), label, out)


def _I(n):
    return Mat.eye(n)


def psd_filter(mm, out):
    """by induction on t: predicted and filtered covariances are symmetric psd and filtered <= predicted"""
    t = Lin.of("t")
    C = ctx()
    k = C.snapshot()
    C.assume(f_ge(t, ZERO))
    C.assume(f_lt(t, T))
    n = mm.n
    pP = mm._pP(t)
    compare(new_arr(pP, (n, n)), Mtx(pP.T), "predicted covariance symmetric", out)
    if branch(f_eq(t, ZERO)):
        congruence("predicted covariance psd (initial covariance psd)", pP, [(_I(n), mm.p("S0"))], out)
    else:
        # hypothesis: the filtered covariance of step t-1 is psd
        congruence("predicted covariance psd (previous filtered, Q psd)", pP,
                   [(mm.p("A", t - 1), mm.fP.at(t - 1)), (_I(n), mm.p("Q", t - 1))], out)
    P, F = mm.pP.at(t), mm._fP(t)
    compare(new_arr(F, (n, n)), Mtx(F.T), "filtered covariance symmetric", out)
    if mm.masked(t):
        compare(new_arr(F, (n, n)), Mtx(P), "filtered = predicted at a masked step", out)
    else:
        K, H, R = mm.gain(t), mm.p("C", t), mm.p("R", t)
        congruence("filtered covariance psd (predicted, R psd)", F, [(_I(n) - K @ H, P), (K, R)], out)
        congruence("innovation covariance psd (predicted, R psd)", mm.S(t), [(H, P), (_I(mm.m), R)], out)
        congruence("predicted - filtered psd (inverse innovation covariance psd)", P - F, [(P @ H.T, inv(mm.S(t)))], out)
    C.restore(k)


def psd_smoother(mm, sm, out):
    """downwards: smoothed covariances are symmetric psd and below the filtered ones"""
    t = Lin.of("t")
    C = ctx()
    k = C.snapshot()
    C.assume(f_ge(t, ZERO))
    C.assume(f_lt(t, T))
    n = mm.n
    s = sm._sP(t)
    F = mm.fP.at(t)
    compare(new_arr(s, (n, n)), Mtx(s.T), "smoothed covariance symmetric", out)
    if branch(f_eq(t, T - 1)):
        compare(new_arr(s, (n, n)), Mtx(F), "smoothed = filtered at the last step", out)
    else:
        A, Q, G = mm.p("A", t), mm.p("Q", t), sm._G(t)
        congruence("smoothed covariance psd (filtered, Q, next smoothed psd)", s,
                   [(_I(n) - G @ A, F), (G, Q), (G, sm.sP.at(t + 1))], out)
        # next smoothed <= next filtered (hypothesis) <= next predicted (above)
        congruence("filtered - smoothed psd (next filtered - next smoothed, next predicted - next filtered psd)", F - s,
                   [(G, mm.fP.at(t + 1) - sm.sP.at(t + 1)), (G, mm.pP.at(t + 1) - mm.fP.at(t + 1))], out)
    C.restore(k)


@proof("P20")
def p20(P):
    P.note(LOEWNER)
    for K in KINDS:
        psd_parts(P, K)


def psd_parts(P, K):
    def run(L, out):
        mod = K.model()
        mm = K.begin(mod)
        sm = std.smoother_of_model(mm)
        kf = K.make(L)(**kwargs_of(mod))
        compare(kf.filter(mod.obs.arr()), filt_exp(mm), "filter", out)
        compare(kf.smooth(mod.obs.arr()), smooth_exp(sm), "smooth", out)
        psd_filter(mm, out)
        psd_smoother(mm, sm, out)
    P.part(K.name + ", filter and smooth", run)

    def online(L, out):
        mod = K.model(modes={k: "const" for k in SHAPE})
        kf = K.make(L)(**kwargs_of(mod))
        x, Pm = arg_v("x", N), arg_m("P", N, N, True)
        P0 = base("arg:P", N, N, (), True)
        A, Q, H, R = (mod.p(k) for k in "AQCR")
        pP = A @ P0 @ A.T + Q
        z = param_arr(base("z", M), (M,), "the observation", "f", mask=Mask("z", ZERO))
        m2, P2 = kf.filter_update(x, Pm, observation=z)
        F = P2.mat()
        compare(P2, Mtx(F.T), "online covariance symmetric", out)
        if branch(("anymask", "z", ZERO)):
            congruence("online covariance psd", F, [(A, P0), (_I(N), Q)], out)
            return
        S = H @ pP @ H.T + R
        G = pP @ H.T @ inv(S)
        congruence("online covariance psd", F, [((_I(N) - G @ H) @ A, P0), (_I(N) - G @ H, Q), (G, R)], out)
        congruence("predicted - online covariance psd", pP - F, [(pP @ H.T, inv(S))], out)
    P.part(K.name + ".filter_update", online)


# ------------------------------------------------------------------ EM
from . import em as EM          # noqa: E402
from .npmodel import SymNames   # noqa: E402


def em_spec(mod, mm, given):
    """one EM step from the parameters of mod: key -> new value, None when kept"""
    sm = std.smoother_of_model(mm)

    def W(t):
        return sm.sP.at(t) @ sm.G.at(t - 1).T
    par = {k: (lambda t, k=k: mm.p(k, t)) for k in SHAPE}
    return EM.em_step(par, mm.obs, mm.T, sm.sM.at, sm.sP.at, W, given)


def compare_par(kf, k, exp, mod, label, out):
    got = getattr(kf, SHORT[k])
    if exp is None:
        p = mod.par[k]
        want = p.value()
        lab = "%s: %s keeps its value" % (label, SHORT[k])
        from .vals import Flex
        if isinstance(got, Flex):
            out.append(Obligation(lab, got.name == p.name, "", definite=True))
            return
        if isinstance(want, Flex):
            want = want.resolve()
        if want.ndim == got.ndim and want.ndim == len(p.sh) + 1:
            compare(got, Seq(want.dims()[0], p.sh, want.entry), lab, out)
        else:
            compare(got, Vec(want.mat()) if len(p.sh) == 1 else Mtx(want.mat()), lab, out)
        return
    compare(got, Vec(exp) if len(SHAPE[k]) == 1 else Mtx(exp), "%s: %s" % (label, SHORT[k]), out)


def em_run(K):
    """one EM iteration from arbitrary parameters, with an arbitrary selection"""
    def run(L, out):
        mod = K.model()
        if K.ab:
            K.begin(mod)
        kf = K.make(L)(**kwargs_of(mod))
        kf.em(mod.obs.arr(), n_iter=1, em_vars=SymNames())
        mm = std.register_model(mod)          # after the run: under the facts of this path
        exp = em_spec(mod, mm, lambda k: not branch(("sel", SHORT[k])))
        for k in SHAPE:
            compare_par(kf, k, exp[k], mod, "one iteration", out)
    return run


@proof("P05")
def p05(P):
    P.part("KalmanFilter.em", em_run(STDK))


DEFAULT_EM = {"transition_covariance", "observation_covariance", "initial_state_mean", "initial_state_covariance"}


@proof("P06")
def p06(P):
    sel = lambda k: branch(("sel", SHORT[k]))
    ctor = lambda k: branch(("ctor", SHORT[k]))
    for K in KINDS:
        def part(lab, kw, call, chosen, **o):
            P.part("%s.em, %s" % (K.name, lab), iterate_run(K, (kw, call), chosen, "em", compare_par, **o))
        part("default variables", {}, lambda kf, Z, n: kf.em(Z, n_iter=n), lambda k: SHORT[k] in DEFAULT_EM)
        part("'all'", dict(em_vars=SymNames("ctor")), lambda kf, Z, n: kf.em(Z, n_iter=n, em_vars="all"), lambda k: True)
        part("'all' given to the constructor", dict(em_vars="all"), lambda kf, Z, n: kf.em(Z, n_iter=n), lambda k: True)
        part("no variables", dict(em_vars=SymNames("ctor")), lambda kf, Z, n: kf.em(Z, n_iter=n, em_vars=[]), lambda k: False)
        for fixed in split("sel", ("A", "C", "Q")):
            part("variables given to the call" + fixed.text, dict(em_vars=SymNames("ctor")),
                 lambda kf, Z, n: kf.em(Z, n_iter=n, em_vars=SymNames()), sel, assume=fixed.facts)
        for fixed in split("ctor", ("A", "C")):
            part("variables given to the constructor, one iteration" + fixed.text, dict(em_vars=SymNames("ctor")),
                 lambda kf, Z, n: kf.em(Z, n_iter=1), ctor, assume=fixed.facts, count=1)


class split:
    """the 2^k cases of the membership of k names (parts that run in parallel)"""

    def __init__(self, tag, names):
        self.tag, self.names = tag, names

    def __iter__(self):
        for k in range(2 ** len(self.names)):
            s = split(self.tag, self.names)
            on = [bool(k >> i & 1) for i in range(len(self.names))]
            s.facts = [(self.tag, SHORT[x]) if v else f_not((self.tag, SHORT[x])) for x, v in zip(self.names, on)]
            s.text = " [" + ", ".join(("" if v else "not ") + SHORT[x] for x, v in zip(self.names, on)) + "]"
            yield s


# ------------------------------------------------------------------ square root filters
def sqrt_parts(P, K):
    def filt(L, out):
        mod = K.model()
        mm = K.begin(mod)
        compare(K.make(L)(**kwargs_of(mod)).filter(mod.obs.arr()), filt_exp(mm), "filter", out)
    P.part(K.name + ".filter", filt)

    def smooth(L, out):
        mod = K.model()
        mm = K.begin(mod)
        sm = std.smoother_of_model(mm)
        compare(K.make(L)(**kwargs_of(mod)).smooth(mod.obs.arr()), smooth_exp(sm), "smooth", out)
    P.part(K.name + ".smooth", smooth)

    def loglik(L, out):
        mod = K.model()
        mm = K.begin(mod)
        compare(K.make(L)(**kwargs_of(mod)).loglikelihood(mod.obs.arr()), Real(loglik_spec(mm)), "log-likelihood", out)
    P.part(K.name + ".loglikelihood", loglik)
    P.part(K.name + ".filter_update", online_run(K.make, True))
    P.part(K.name + ".filter_update, unmasked array", online_run(K.make, False))
    P.part(K.name + ".em", em_run(K))


@proof("P08")
def p08(P):
    sqrt_parts(P, CHOLK)


# ------------------------------------------------------------------ unscented filters
UNS = "pykalman.unscented"


def AUKF(L):
    return L[UNS].AdditiveUnscentedKalmanFilter


def GUKF(L):
    return L[UNS].UnscentedKalmanFilter


def ufilt_exp(u):
    return (Seq(u.T, (u.n,), u.fM.at), Seq(u.T, (u.n, u.n), u.fP.at))


def usmooth_exp(s):
    return (Seq(s.T, (s.n,), s.sM.at), Seq(s.T, (s.n, s.n), s.sP.at))


def SUKF(L):
    return L["pykalman.sqrt.unscented"].AdditiveUnscentedKalmanFilter


UKINDS = [("AdditiveUnscentedKalmanFilter", AUKF, False), ("UnscentedKalmanFilter", GUKF, True)]
SUK = ("square root AdditiveUnscentedKalmanFilter", SUKF, False)
UALL = UKINDS + [SUK]


def per_cases():
    return [(a, b, "functions %s / %s" % (a and "per step" or "constant", b and "per step" or "constant"))
            for a in (False, True) for b in (False, True)]


def uns_parts(P, name, make, aug):
    for pf, pg, text in per_cases():
        def filt(L, out, pf=pf, pg=pg):
            mod = uns.UModel(aug, pf, pg)
            u = mod.register()
            u.activate()
            compare(make(L)(**mod.kwargs()).filter(mod.obs.arr()), ufilt_exp(u), "filter", out)
        P.part("%s.filter, %s" % (name, text), filt)

        def smooth(L, out, pf=pf, pg=pg):
            mod = uns.UModel(aug, pf, pg)
            u = mod.register()
            u.activate()
            s = uns.usmoother_of_filter(u)
            s.activate()
            compare(make(L)(**mod.kwargs()).smooth(mod.obs.arr()), usmooth_exp(s), "smooth", out)
        P.part("%s.smooth, %s" % (name, text), smooth)


@proof("P10")
def p10(P):
    uns_parts(P, *UKINDS[0])


@proof("P11")
def p11(P):
    uns_parts(P, *UKINDS[1])


@proof("P13")
def p13(P):
    """the square root filter equals the formulas of the additive unscented filter (P10)"""
    name, make, aug = SUK
    uns_parts(P, name, make, aug)
    for masked in (True, False):
        P.part("%s.filter_update%s" % (name, "" if masked else ", unmasked array"), uns_online(make, aug, masked))


# ------------------------------------------------------------------ sigma points reproduce their distribution
class Affine(uns.Fun):
    """x (, noise) -> A x + b (+ noise), the same at every step or one per step"""

    def __init__(self, name, A, b, out, per=False, length=None, noise=False):
        uns.Fun.__init__(self, name, out, per, length)
        self.A, self.b, self.noise = A, b, noise

    def at(self, t):
        A, b = self.A(t), self.b(t)
        if self.noise:
            return lambda x, w: A @ x + b + w
        return lambda x: A @ x + b


def affine_models(aug, pf, pg):
    """a linear-Gaussian model and the same model as an unscented estimator"""
    modes = {k: "const" for k in SHAPE}
    for k in "Ab" * pf + "Cd" * pg:
        modes[k] = "tv"
    lin = std_model("affine", modes)
    mm = std.register_model(lin)
    mod = uns.UModel(aug, pf, pg)
    mod.f = Affine("f", lambda t: mm.p("A", t), lambda t: mm.p("b", t), N, pf, T - 1, aug)
    mod.g = Affine("g", lambda t: mm.p("C", t), lambda t: mm.p("d", t), M, pg, T, aug)
    for k, q in (("Q", "Q"), ("R", "R"), ("mu0", "mu0"), ("S0", "S0")):
        setattr(mod, k, mm.p(q, ZERO))
    mod.obs = lin.obs
    return lin, mm, mod


def flat(x, t):
    from .alg import unbox
    return unbox(x)


@proof("P12")
def p12(P):
    def identities(given):
        def run(L, out):
            m, S = base("arg:mean", N), base("arg:cov", N, N, (), True)
            mo = L[UNS].Moments(arg_v("mean", N), arg_m("cov", N, N, True))
            kw = {k: uns.SReal(sc_sym("arg:" + k)) for k in given}
            p = L[UNS].moments2points(mo, **kw)
            k2 = N * 2 + 1
            X, wm, wc = p.points.mat().T, p.weights_mean.mat(), p.weights_covariance.mat()
            compare(new_arr(X, (N, k2)), Mtx(X), "2 n + 1 points", out)
            compare(new_arr((ones(k2).T @ wm), (ONE, ONE)), Mtx(Mat.eye(ONE)), "the mean weights sum to one", out)
            compare(new_arr(X @ wm, (N,)), Vec(m), "weighted mean", out)
            D = X - m @ ones(k2).T
            compare(new_arr(D @ diag(wc) @ D.T, (N, N)), Mtx(S), "weighted covariance", out)
            compare(new_arr(D @ E(k2, ZERO), (N,)), Vec(Mat.zero(N, ONE)), "the centre point is the mean", out)
            a, b = (kw[q].s if q in kw else Sc.of(v) for q, v in (("alpha", 1), ("beta", 0)))
            compare(new_arr(wc - wm, (k2,)), Vec(E(k2, ZERO).scale(Sc.of(1) - a * a + b)), "centre covariance weight: 1 - alpha^2 + beta more", out)
            m2, S2 = L[UNS].points2moments(p)
            compare(m2, Vec(m), "points2moments(moments2points) mean", out)
            compare(S2, Mtx(S), "points2moments(moments2points) covariance", out)
        return run
    for given in ((), ("alpha", "beta", "kappa"), ("alpha",), ("beta",), ("kappa",)):
        P.part("moments2points, %s" % (", ".join(given) or "defaults"), identities(given))
    for name, make, aug in UALL:
        for pf, pg, text in per_cases():
            def run(L, out, make=make, aug=aug, pf=pf, pg=pg):
                lin, mm, mod = affine_models(aug, pf, pg)
                sm = std.smoother_of_model(mm)
                u = mod.register()
                s = uns.usmoother_of_filter(u)
                kf = make(L)(**mod.kwargs())
                f, sr = kf.filter(mod.obs.arr()), kf.smooth(mod.obs.arr())
                compare(f, ufilt_exp(u), "filter", out)
                compare(sr, usmooth_exp(s), "smooth", out)
                mp = equal_by_induction([(u.fM, mm.fM), (u.fP, mm.fP)], T, "filter", out, rewrite=flat)
                ms = equal_by_induction([(s.sM, sm.sM), (s.sP, sm.sP)], T, "smoother", out, known=mp, rewrite=flat)
                for i, sub in enumerate(((N,), (N, N))):
                    expect_map(f[i], (mm.fM, mm.fP)[i].at, sub, T, mp, "filter[%d] = linear filter" % i, out)
                    expect_map(sr[i], (sm.sM, sm.sP)[i].at, sub, T, ms, "smooth[%d] = linear smoother" % i, out)
            P.part("%s on an affine model, %s" % (name, text), run)


# ------------------------------------------------------------------ sampling
from .npmodel import GLOBAL_RNG, Rng, rect_eye          # noqa: E402
from .fams import Family                      # noqa: E402
from .vals import SInt, noise, same_dim                 # noqa: E402


class Sampled:
    """trajectory: x(0) = x0, x(t) = f(t-1)(x(t-1), w(t)), z(t) = g(t)(x(t), v(t)) with fresh draws w, v"""

    def __init__(self, name, key, x0, f, g, Q, R, n):
        self.key, self.x0, self.f, self.g, self.Q, self.R, self.n = key, x0, f, g, Q, R, n
        self.x = Family("sampled_state", name, n, 1, self._x, rec=True)
        self.x.depth = 0

    def noise(self, cov, t, k):
        """the k-th draw with covariance cov in step t"""
        return noise(self.key, cov, cov.r, (t,), k)

    def _x(self, t):
        if branch(f_eq(t, ZERO)):
            return self.x0
        return self.f(t - 1)(self.x.at(t - 1), self.noise(self.Q(t - 1), t, 0))

    def z(self, t):
        return self.g(t)(self.x.at(t), self.noise(self.R(t), t, 0))


def lin_sampled(mm, key, x0):
    return Sampled("sampled", key, x0, lambda t: lambda x, w: mm.p("A", t) @ x + mm.p("b", t) + w,
                   lambda t: lambda x, v: mm.p("C", t) @ x + mm.p("d", t) + v, lambda t: mm.p("Q", t), lambda t: mm.p("R", t), N)


def uns_sampled(mod):
    def go(key, x0):
        if mod.aug:
            f, g = mod.f.at, mod.g.at
        else:
            f = lambda t: lambda x, w: mod.f.at(t)(x) + w
            g = lambda t: lambda x, v: mod.g.at(t)(x) + v
        return Sampled("sampled", key, x0, f, g, lambda t: mod.Q, lambda t: mod.R, N)
    return go


def seeds(tag):
    """None, an integer or a generator; (value, key or None)"""
    if branch(("seed", tag, "none")):
        return None, None
    if branch(("seed", tag, "int")):
        s = SInt(Lin.of("seed:" + tag))
        return s, ("seed", repr(s))
    r = Rng(("generator", tag))
    return r, r.key


def sample_run(estimator):
    """estimator(L, seed) -> (kf, initial mean, initial covariance, key -> x0 -> Sampled)"""
    def run(L, out):
        own, k1 = seeds("estimator")
        call, k2 = seeds("call")
        kf, mu0, S0, spec = estimator(L, own)
        key = k2 or k1 or GLOBAL_RNG.key
        given = branch(("passed", "initial_state"))
        x0 = base("arg:x0", N) if given else mu0 + noise(key, S0, N)
        s = spec(key, x0)
        FAMS.active = FAMS.active + [s.x]
        b = state_of(kf)
        states, obs = kf.sample(mk_int(T), **(dict(initial_state=arg_v("x0", N)) if given else {}), random_state=call)
        compare(states, Seq(T, (N,), s.x.at), "states", out)
        compare(obs, Seq(T, (M,), s.z), "observations", out)
        unchanged(kf, b, "sample", out)
        if key[0] == "seed":
            s2, o2 = kf.sample(mk_int(T), **(dict(initial_state=arg_v("x0", N)) if given else {}), random_state=call)
            compare(s2, Seq(T, (N,), s.x.at), "states of a second call with the same seed", out)
            compare(o2, Seq(T, (M,), s.z), "observations of a second call with the same seed", out)
    return run


def lin_estimator(K):
    def go(L, seed):
        mod = K.model()
        kf = K.make(L)(random_state=seed, **kwargs_of(mod))
        return kf, mod.p("mu0"), mod.p("S0"), lambda key, x0: lin_sampled(mod, key, x0)
    return go


def uns_estimator(make, aug):
    def go(L, seed):
        mod = uns.UModel(aug, branch(("per", "f")), branch(("per", "g")))
        kf = make(L)(random_state=seed, **mod.kwargs())
        return kf, mod.mu0, mod.S0, uns_sampled(mod)
    return go


class Other:
    """a value that is neither None, an integer nor a generator"""

    def __repr__(self):
        return "other"


def bad_seed(make, kwargs):
    def run(L, out):
        for label, own, call in (("of the estimator", Other(), None), ("of the call", None, Other())):
            kf = make(L)(random_state=own, **kwargs())
            try:
                kf.sample(mk_int(T), random_state=call)
            except ValueError:
                out.append(Obligation("an invalid seed %s is refused with ValueError" % label, True))
                continue
            out.append(Obligation("an invalid seed %s is refused with ValueError" % label, False, "accepted", definite=True))
    return run


SAMPLERS = [(K.name, K.make, lin_estimator(K), lambda K=K: kwargs_of(K.model())) for K in (STDK, CHOLK, BIERK)] + \
    [(name, make, uns_estimator(make, aug), lambda aug=aug: uns.UModel(aug).kwargs()) for name, make, aug in
     UALL]


@proof("P15")
def p15(P):
    for name, make, est, kw in SAMPLERS:
        P.part(name + ".sample", sample_run(est))
        P.part(name + ".sample, invalid seed", bad_seed(make, kw))


# ------------------------------------------------------------------ defaults and dimensions


STATE_AXES = ("A", "b", "Q", "mu0", "S0", "C")
OBS_AXES = ("C", "d", "R")


def dims_run(make, shapes, names, tv=False, facts=()):
    """construction succeeds exactly when the given parameters and sizes agree, with those sizes"""
    def run(L, out):
        for f in facts:
            ctx().assume(f)
        kw, dims = {}, {"n": [], "m": []}
        given = {k: branch(("given", names[k])) for k in names}
        for k in names:
            if not given[k]:
                continue
            r = [Lin.of("%s_%s" % ("n" if s == N else "m", k)) for s in shapes[k]]
            if len(r) == 2 and shapes[k][0] == shapes[k][1]:
                r[1] = r[0]
            for q in r:
                ctx().assume(f_ge(q, ONE))
            for s, q in zip(shapes[k], r):
                c = dims["n" if s == N else "m"]
                if q not in c:
                    c.append(q)
            if tv and k in LEN:
                kw[names[k]] = new_arr3(k, r)
            else:
                kw[names[k]] = param_arr(base("given:" + k, r[0], r[1] if len(r) > 1 else ONE, (), k in SYM), [mk_int(q) for q in r],
                                         "the caller's " + k, "f")
        for c, nm in (("n", "n_dim_state"), ("m", "n_dim_obs")):
            if branch(("given", nm)):
                q = Lin.of(nm)
                ctx().assume(f_ge(q, ONE))
                dims[c].append(q)
                kw[nm] = mk_int(q)
        same = f_and(*[f_eq(x, c[0]) for c in dims.values() for x in c[1:]])
        text = "given: %s" % ", ".join(kw)
        try:
            kf = make(L)(**kw)
        except ValueError:
            ok = same is not True and not branch(same)
            out.append(Obligation("ValueError only for contradictory shapes", ok, text, definite=True))
            return
        ok = same is True or bool(branch(same))
        out.append(Obligation("contradictory shapes are refused", ok, text, definite=True))
        if ok:
            for c, nm in (("n", "n_dim_state"), ("m", "n_dim_obs")):
                want = dims[c][0] if dims[c] else ONE
                out.append(Obligation("%s is that of the parameters" % nm, same_dim(Lin.of(getattr(kf, nm)), want), text, definite=True))
    return run


def new_arr3(k, r):
    """a parameter given per time step"""
    c = r[1] if len(r) > 1 else ONE
    return uns.new_fam((LEN[k],) + tuple(r), lambda i: base("given:" + k, r[0], c, (i,), k in SYM), "f", "given:" + k, "the caller's " + k)


class Default(Param):
    """a parameter left out: identity or zero"""

    def __init__(self, key, sh):
        self.key, self.sh, self.r, self.c, self.name = key, sh, sh[0], sh[1] if len(sh) > 1 else ONE, "default:" + key

    def mat(self, t=None):
        if len(self.sh) == 1:
            return Mat.zero(self.r, ONE)
        return rect_eye(self.r, self.c)

    def at(self, t):
        return self.mat()

    def value(self):
        return new_arr(self.mat(), [mk_int(x) for x in self.sh])


def default_dims(given, axes_n, axes_m, kw):
    n = N if any(given[k] for k in axes_n) else ONE
    m = M if any(given[k] for k in axes_m) else ONE
    if n == ONE and branch(("given", "n_dim_state")):
        n, kw["n_dim_state"] = N, mk_int(N)
    if m == ONE and branch(("given", "n_dim_obs")):
        m, kw["n_dim_obs"] = M, mk_int(M)
    return n, m


def defaults_run(K, facts):
    def run(L, out):
        for f in facts:
            ctx().assume(f)
        kw = {}
        given = {k: branch(("given", SHORT[k])) for k in SHAPE}
        n, m = default_dims(given, STATE_AXES, OBS_AXES, kw)
        Z = Obs("Z", T, m)
        mod = K.model("defaults-%s-%s" % (n, m), obs=Z, n=n, m=m, T_=T)
        for k in SHAPE:
            if given[k]:
                kw[SHORT[k]] = mod.par[k].value()
            else:
                mod.par[k] = Default(k, tuple(n if s == N else m for s in SHAPE[k]))
        K.begin(mod)
        kf = K.make(L)(**kw)
        text = "given: " + ", ".join(kw)
        out.append(Obligation("n_dim_state, n_dim_obs", same_dim(Lin.of(kf.n_dim_state), n) and same_dim(Lin.of(kf.n_dim_obs), m), text, definite=True))
        compare(kf.filter(Z.arr()), filt_exp(std.register_model(mod)), "filter", out)
        kf.em(Z.arr(), n_iter=0)
        for k in SHAPE:
            if given[k]:
                compare_par(kf, k, None, mod, "initialised", out)
            else:
                got = getattr(kf, SHORT[k])
                e = mod.par[k].mat()
                compare(got, Vec(e) if len(mod.par[k].sh) == 1 else Mtx(e), "default " + SHORT[k], out)
        if not K.ab:
            x, z = K.make(L)(**kw).sample(mk_int(T), random_state=3)
            out.append(Obligation("sample shapes", same_dim(x.dims()[1], n) and same_dim(z.dims()[1], m), text))
    return run


UNAMES = dict(Q="transition_covariance", R="observation_covariance", mu0="initial_state_mean", S0="initial_state_covariance")


def uns_defaults_run(make, aug):
    def run(L, out):
        kw = {}
        given = {k: branch(("given", k)) for k in ("f", "g", "Q", "R", "mu0", "S0")}
        n, m = default_dims(given, ("Q", "mu0", "S0"), ("R",), kw)
        if not given["g"]:
            # the default observation function returns a vector of the state's size
            if n == m or not branch(f_eq(n, m)):
                if n != m:
                    return
            n = m = ONE if ONE in (n, m) else n
            kw.update({k: mk_int(n) for k in kw})
        Z = Obs("Z", T, m)
        mod = uns.UModel(aug, obs=Z, n=n, m=m)
        full = mod.kwargs()
        ident = (lambda x, w: x + w) if aug else (lambda x: x)
        for k in given:
            if given[k]:
                nm = {"f": "transition_functions", "g": "observation_functions"}.get(k) or UNAMES[k]
                kw[nm] = full[nm]
            elif k in "fg":
                setattr(mod, k, Same_fn(k, ident, n if k == "f" else m))
            else:
                setattr(mod, k, Mat.zero(n, ONE) if k == "mu0" else Mat.eye(n if k != "R" else m))
        kf = make(L)(**kw)
        text = "given: " + ", ".join(kw)
        out.append(Obligation("n_dim_state, n_dim_obs", same_dim(Lin.of(kf.n_dim_state), n) and same_dim(Lin.of(kf.n_dim_obs), m), text, definite=True))
        r = kf.filter(Z.arr())
        u = mod.register()
        compare(r, ufilt_exp(u), "filter", out)
        x, z = make(L)(**kw).sample(mk_int(T), random_state=3)
        out.append(Obligation("sample shapes", same_dim(x.dims()[1], n) and same_dim(z.dims()[1], m), text))
    return run


class Same_fn(uns.Fun):
    def __init__(self, name, fn, out):
        uns.Fun.__init__(self, name, out)
        self.fn = fn

    def at(self, t):
        return self.fn


@proof("P14")
def p14(P):
    USH = {k: SHAPE[k] for k in UNAMES}
    for K in (STDK, CHOLK, BIERK):
        for fixed in split("given", ("A", "C", "Q")):
            P.part(K.name + ", dimensions" + fixed.text, dims_run(K.make, SHAPE, SHORT, False, fixed.facts))
            if K.name == "KalmanFilter":
                P.part(K.name + ", dimensions of parameters per time step" + fixed.text, dims_run(K.make, SHAPE, SHORT, True, fixed.facts))
    for name, make, aug in UALL:
        P.part(name + ", dimensions", dims_run(make, USH, UNAMES))
    for K in KINDS:
        for fixed in split("given", ("A", "C", "Q")):
            P.part(K.name + ", defaults" + fixed.text, defaults_run(K, fixed.facts))
    for name, make, aug in UALL:
        P.part(name + ", defaults", uns_defaults_run(make, aug))
