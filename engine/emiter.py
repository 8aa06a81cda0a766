"""EM over an arbitrary number of iterations (P06).

The functions of one iteration enter as opaque functions of their arguments (a consequence of
their verified contracts: the result is a formula of the arguments); what is proved is how
`em` iterates them, which parameters change, and what it returns.  What one iteration computes
is P05's subject."""
from .alg import Mat, app
from .contracts import CON, Mtx, NotApplicable, Obligation, Seq, Vec, compare
from .fams import FAMS, Family
from .lin import Lin, ONE, ZERO, branch, ctx, f_eq, f_ge
from .em import ORDER
from .spec import LEN, M, N, SHAPE, SHORT, SYM, T, kwargs_of
from .std import ArrObs, S, at_fn, keyform, need, seq_fn
from .vals import Arr, Flex, Unsupported, mk_int

STDF = ("pM", "pP", "K", "fM", "fP")
SQF = ("pM", "pP", "fM", "fP")
SUB = dict(pM=(N,), pP=(N, N), K=(N, M), fM=(N,), fP=(N, N), sM=(N,), sP=(N, N), G=(N, N), W=(N, N))
COUNT = dict(G=T - 1)
SYMF = {"pP", "fP", "sP"}


def fn_of(tag, names, args, roots=()):
    """name -> (t -> entry t of that output)"""
    out = {}
    for nm in names:
        sub = SUB[nm]
        out[nm] = lambda t, nm=nm, sub=sub: app(tag + "." + nm, tuple(args) + (Lin.of(t),), sub[0], (), sub[1] if len(sub) > 1 else ONE,
                                                nm in SYMF and nm not in roots)
    return out


def seq_of(nm, f):
    return Seq(COUNT.get(nm, T), SUB[nm], f)


def key_of(fn, n=T):
    k = keyform(fn, n)
    if not isinstance(k, (Mat, Lin)):
        raise NotApplicable
    return k


def par_keys(par):
    """normal forms of the parameters (functions of time)"""
    return tuple(key_of(par[k], LEN.get(k, ONE)) for k in sorted(par))


class Step:
    """one iteration as a composition of opaque functions"""

    def __init__(self, kind):
        self.kind = kind
        self.sqrt = bool(kind.ab)
        self.outs = SQF if self.sqrt else STDF
        self.roots = ("pP", "fP") if self.sqrt else ()

    def filter(self, par, zkey):
        return fn_of("filter", self.outs, par_keys(par) + zkey, self.roots)

    def rec(self, f):
        k = key_of(f)
        return lambda t: app("covariances", (k, Lin.of(t)), N, (), N, True)

    def smooth(self, A, fM, fP, pM, pP):
        return fn_of("smooth", ("sM", "sP", "G"), (key_of(A, T - 1), key_of(fM), key_of(fP), key_of(pM), key_of(pP)))

    def pair(self, sP, G):
        return fn_of("pair", ("W",), (key_of(sP), key_of(G, T - 1)))["W"]

    def est(self, k, args):
        """re-estimated parameter k from named sequences"""
        ks = tuple(x if isinstance(x, tuple) else (key_of(x, LEN.get(n, T)),) for n, x in sorted(args.items()))
        flat = tuple(y for x in ks for y in x)
        s = SHAPE[k]
        return app("em." + k, flat, s[0], (), s[1] if len(s) > 1 else ONE, k in SYM)

    def __call__(self, par, zkey, given):
        F = self.filter(par, zkey)
        if self.sqrt:
            F = dict(F, pP=self.rec(F["pP"]), fP=self.rec(F["fP"]))
        s = self.smooth(par["A"], F["fM"], F["fP"], F["pM"], F["pP"])
        m, V, W = s["sM"], s["sP"], self.pair(s["sP"], s["G"])
        p = dict(par)
        out = {}
        for k in ORDER:
            if given(k):
                continue
            x = self.est(k, {"C": lambda: dict(Z=zkey, d=p["d"], m=m, V=V),
                             "R": lambda: dict(Z=zkey, d=p["d"], C=p["C"], m=m, V=V),
                             "A": lambda: dict(b=p["b"], m=m, V=V, W=W),
                             "Q": lambda: dict(A=p["A"], b=p["b"], m=m, V=V, W=W),
                             "mu0": lambda: dict(m=m),
                             "S0": lambda: dict(mu0=p["mu0"], m=m, V=V),
                             "b": lambda: dict(A=p["A"], m=m),
                             "d": lambda: dict(C=p["C"], m=m, Z=zkey)}[k]())
            out[k] = x
            p[k] = lambda t, x=x: x
        return out

    # ------------------------------------------------------------------ the opaque contracts
    def opaque(self):
        def filt(transition_matrices, observation_matrices, transition_covariance, observation_covariance,
                 transition_offsets, observation_offsets, initial_state_mean, initial_state_covariance, observations):
            v = dict(A=transition_matrices, C=observation_matrices, Q=transition_covariance, R=observation_covariance,
                     b=transition_offsets, d=observation_offsets, mu0=initial_state_mean, S0=initial_state_covariance)
            par = {k: at_fn(v[k], len(SHAPE[k]), LEN.get(k, ONE)) for k in v}
            F = self.filter(par, self.zkey(observations))
            return tuple(seq_of(k, F[k]) for k in self.outs)

        def rec(covariance2s):
            return seq_of("pP", self.rec(seq_fn(covariance2s, 2, (N, N))))

        def smooth(transition_matrices, filtered_state_means, filtered_state_covariances, predicted_state_means,
                   predicted_state_covariances):
            s = self.smooth(at_fn(transition_matrices, 2, T - 1), sq(filtered_state_means), sq(filtered_state_covariances),
                            sq(predicted_state_means), sq(predicted_state_covariances))
            return tuple(seq_of(k, s[k]) for k in ("sM", "sP", "G"))

        def pair(smoothed_state_covariances, kalman_smoothing_gain):
            return seq_of("W", self.pair(sq(smoothed_state_covariances), sq(kalman_smoothing_gain)))

        def sq(x):
            need(isinstance(x, Arr))
            return seq_fn(x, x.ndim - 1, x.dims()[1:])
        names = dict(observations="Z", observation_offsets="d", observation_matrices="C", transition_offsets="b",
                     transition_matrices="A", smoothed_state_means="m", smoothed_state_covariances="V", pairwise_covariances="W",
                     initial_state_mean="mu0")

        def est(k):
            def f(**kw):
                args = {}
                for x, v in kw.items():
                    n = names[x]
                    args[n] = self.zkey(v) if n == "Z" else sq(v) if n in "mVW" else at_fn(v, len(SHAPE[n]), LEN.get(n, ONE))
                r = self.est(k, args)
                return Vec(r) if len(SHAPE[k]) == 1 else Mtx(r)
            return f
        fil = S + "_filter" if not self.sqrt else self.kind.module + "._filter"
        out = {fil: filt, S + "_smooth": smooth, S + "_smooth_pair": pair}
        if self.sqrt:
            out[self.kind.module + "._reconstruct_covariances"] = rec
        for k, nm in dict(C="observation_matrix", R="observation_covariance", A="transition_matrix", Q="transition_covariance",
                          mu0="initial_state_mean", S0="initial_state_covariance", b="transition_offset",
                          d="observation_offset").items():
            out[S + "_em_" + nm] = est(k)
        return out

    def zkey(self, Z):
        o = Z if isinstance(Z, ArrObs) else ArrObs(Z)
        return (o.m, o.zid or "", o.const)


class Iterates:
    """theta(0) = the given parameters, theta(i+1) = step(theta(i))"""

    def __init__(self, step, mod, given):
        self.step, self.mod, self.given = step, mod, given
        self.zkey = step.zkey(mod.obs.arr())
        self.last = None, None
        self.f = {}
        for k in SHAPE:
            s = SHAPE[k]
            self.f[k] = Family("theta_" + k, "em", s[0], s[1] if len(s) > 1 else ONE, lambda i, k=k: self.unfold(k, i), sym=k in SYM,
                               rec=True)
            self.f[k].depth, self.f[k].shift, self.f[k].attr = 0, "+1", SHORT[k]

    def par(self, i):
        """parameters after i iterations, as functions of time"""
        if branch(f_eq(i, ZERO)):
            return {k: self.mod.par[k].at for k in SHAPE}
        if branch(f_eq(i, ONE)):
            p = self.par(ZERO)
            x = self.step(p, self.zkey, self.given)
            return {k: p[k] if self.given(k) else (lambda t, x=x[k]: x) for k in SHAPE}
        return {k: self.mod.par[k].at if self.given(k) else (lambda t, x=self.f[k].at(i): x) for k in SHAPE}

    def unfold(self, k, i):
        p = self.par(i - 1)
        key = (i, len(ctx().facts), tuple(ctx().facts))
        if self.last[0] != key:
            self.last = key, self.step(p, self.zkey, self.given)
        return self.last[1].get(k)


def iterate_run(K, call, chosen, lab, outcome, assume=(), count=None):
    """`call(kf, n_iter)` performs EM for a symbolic number of iterations; chosen(k): k is re-estimated"""
    def run(L, out):
        st = Step(K)
        CON.opaque = st.opaque()
        mod = K.model("em")
        n = Lin.of("k_iter")
        ctx().assume(f_ge(n, ZERO))
        if count is not None:
            ctx().assume(f_eq(n, Lin.of(count)))
        for f in assume:
            ctx().assume(f)
        it = Iterates(st, mod, lambda k: not chosen(k))
        FAMS.active = list(it.f.values())
        kf = K.make(L)(**kwargs_of(mod), **call[0])
        res = call[1](kf, mod.obs.arr(), mk_int(n))
        out.append(Obligation(lab + ": returns the estimator", res is kf, "", definite=True))
        for k in SHAPE:
            if not chosen(k) or branch(f_eq(n, ZERO)):
                outcome(kf, k, None, mod, lab, out)
            else:
                outcome(kf, k, it.f[k].at(n), mod, lab, out)
    return run
