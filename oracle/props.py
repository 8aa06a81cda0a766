"""Concrete oracles: one function per property, run against the real code.

Each oracle(idx, seed) builds one case, runs the code in /repo on it and raises
Fail when the result contradicts the property.  They serve two purposes:
replaying / searching for a concrete input once a proof obligation fails, and a
*bounded* cross-check of the deductive engine (never counted as proof).
"""
import copy
import warnings

import numpy as np

from . import ref
from .gen import (MASKS, NDIM, PARAM, fun_additive, fun_general, model, observations,
                  params, present, rng_for, spd, uk_model, uk_params)

import pykalman
from pykalman import (AdditiveUnscentedKalmanFilter, KalmanFilter, UnscentedKalmanFilter)
from pykalman.sqrt import (AdditiveUnscentedKalmanFilter as SqrtAUKF, BiermanKalmanFilter,
                           CholeskyKalmanFilter)

warnings.simplefilter("ignore")
ALLP = list(PARAM.values())
LIN = dict(standard=KalmanFilter, cholesky=CholeskyKalmanFilter, bierman=BiermanKalmanFilter)
UNS = dict(general=UnscentedKalmanFilter, additive=AdditiveUnscentedKalmanFilter, sqrt=SqrtAUKF)


class Fail(Exception):
    weak = False        # a numerical difference close to the tolerance: counted only when it recurs


def desc(m, **kw):
    s = {k: m[k] for k in ("n", "p", "T", "tv", "scale") if k in m}
    s.update(kw)
    return s


def close(got, want, what, info="", rtol=2e-7, atol=0.0):
    if np.ma.isMaskedArray(got) and np.any(np.ma.getmaskarray(got)):
        raise Fail("%s: result has masked entries %s" % (what, info))
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        raise Fail("%s: shape %s, expected %s %s" % (what, got.shape, want.shape, info))
    if got.dtype == object:
        raise Fail("%s: object array %s" % (what, info))
    if want.size == 0:
        return
    tol = rtol * float(np.max(np.abs(want))) + atol + 1e-11
    err = np.abs(got - want)
    if not np.all(np.isfinite(got)) or np.max(err) > tol:
        k = np.unravel_index(int(np.argmax(np.where(np.isfinite(err), err, np.inf))), err.shape) \
            if err.shape else ()
        f = Fail("%s: got %s, expected %s at %s (max error %.3g, tolerance %.3g) %s" % (
            what, np.array2string(got[k]), np.array2string(want[k]), tuple(int(i) for i in k),
            float(np.max(err)), tol, info))
        f.weak = bool(np.all(np.isfinite(got)) and np.max(err) < 50 * tol
                      and np.max(err) < 1e-2 * float(np.max(np.abs(want))))
        raise f


def expect_raises(exc, fn, what):
    try:
        fn()
    except exc:
        return
    except Exception as e:  # noqa
        raise Fail("%s: raised %s, expected %s" % (what, type(e).__name__, exc))
    raise Fail("%s: no error, expected %s" % (what, exc))


def guarded(fn, what, info=""):
    try:
        return fn()
    except Fail:
        raise
    except Exception as e:
        raise Fail("%s: raised %s: %s %s" % (what, type(e).__name__, e, info))


CASES_P = [("plain", ""), ("random", "AbCdQR"), ("partial", "A"), ("first", "b"), ("last", "C"),
           ("all", "d"), ("alternate", "Q"), ("nomask", "R"), ("onecell", ""), ("none", "CR"),
           ("middle", "bd"), ("plain", "AbCdQR"), ("plain", "QR")]


def lin_case(pid, idx, seed, tvok="AbCdQR", integer=None, kind=None, forms=("array",), **kw):
    r = rng_for(pid, idx, seed)
    tv = kw.pop("tv", None)
    if idx < 2 * len(CASES_P):
        k0, t0 = CASES_P[idx % len(CASES_P)]
        kind = k0 if kind is None else kind
        tv = t0 if tv is None else tv
        kw.setdefault("n", [2, 3][idx // len(CASES_P)])
        kw.setdefault("p", [2, 1][idx // len(CASES_P)])
        kw.setdefault("T", 4)
    integer = (r.random() < 0.12) if integer is None else integer
    m = model(r, tv=tv, integer=integer, tvok=tvok, **kw)
    Z, z, mk, kind = observations(r, m, kind, integer=integer)
    info = desc(m, mask=kind, integer=integer)
    return r, m, Z, z.astype(float), mk, info


def joint_tol(m, z, mk, lo=2e-7, hi=1e-4):
    J = ref.Joint(m, len(z))
    c = np.linalg.cond(J.Szz)
    w = max(float(np.linalg.cond(ref.at(m["Q"], 0, 2))) if len(z) > 1 else 1.0, 1.0)
    return float(min(max(1e-13 * c * w, lo), hi))


def units_check(r, m, Z, z, mk, info, cls, what="fsl", p=0.25):
    """the same model with every state and observation component in its own units: the results must be
    the reference results of the original model, converted"""
    if info.get("integer") or m["scale"] != 1.0 or r.random() > p:
        return
    tol = joint_tol(m, z, mk, lo=1e-6, hi=1)
    if tol > 1e-5:
        return
    v = 10.0 ** r.uniform(-1.5, 1.5, size=m["n"])
    u = 10.0 ** r.uniform(-1.5, 1.5, size=m["p"])
    g = 10.0 ** r.uniform(-4, 4)
    v, u = v * g, u * g
    m2 = dict(m)
    m2["A"] = np.asarray(m["A"], float) * v[:, None] / v
    m2["C"] = np.asarray(m["C"], float) * u[:, None] / v
    for k, w in (("b", v), ("d", u), ("m0", v)):
        m2[k] = np.asarray(m[k], float) * w
    for k, w in (("Q", v), ("R", u), ("P0", v)):
        m2[k] = np.asarray(m[k], float) * np.outer(w, w)
    Z2 = Z * u
    kf = cls(**{PARAM[k]: m2[k] for k in PARAM})
    info = dict(info, units=[x.tolist() for x in (v, u)])
    if "f" in what:
        M, P = guarded(lambda: kf.filter(Z2), "filter", info)
        eM, eP = ref.ref_filter(m, z, mk)[:2]
        close(M / v, eM, "filtered means, rescaled units", info, rtol=1e-5)
        close(P / np.outer(v, v), eP, "filtered covariances, rescaled units", info, rtol=1e-5)
    if "s" in what:
        M, P = guarded(lambda: kf.smooth(Z2), "smooth", info)
        eM, eP, _ = ref.ref_smooth(m, z, mk)
        close(M / v, eM, "smoothed means, rescaled units", info, rtol=10 * tol)
        close(P / np.outer(v, v), eP, "smoothed covariances, rescaled units", info, rtol=10 * tol)
    if "l" in what:
        k = m["T"] if mk is None else int((~mk.any(axis=1)).sum())
        ll = guarded(lambda: kf.loglikelihood(Z2), "loglikelihood", info)
        close(np.float64(ll + k * np.log(u).sum()), np.float64(ref.ref_loglik(m, z, mk)),
              "log-likelihood, rescaled units", info, rtol=1e-5, atol=1e-5)


# ------------------------------------------------------------------ P01
def P01(idx, seed):
    r, m, Z, z, mk, info = lin_case("P01", idx, seed)
    kf = KalmanFilter(**params(r, m))
    M, P = guarded(lambda: kf.filter(Z), "filter", info)
    eM, eP = ref.ref_filter(m, z, mk)[:2]
    tol = joint_tol(m, z, mk)
    close(M, eM, "filtered means", info, rtol=tol)
    close(P, eP, "filtered covariances", info, rtol=tol)
    units_check(r, m, Z, z, mk, info, KalmanFilter, "f")


# ------------------------------------------------------------------ P03
def P03(idx, seed):
    r, m, Z, z, mk, info = lin_case("P03", idx, seed)
    kf = KalmanFilter(**params(r, m))
    M, P = guarded(lambda: kf.smooth(Z), "smooth", info)
    eM, eP, _ = ref.ref_smooth(m, z, mk)
    tol = joint_tol(m, z, mk)
    close(M, eM, "smoothed means", info, rtol=tol)
    close(P, eP, "smoothed covariances", info, rtol=tol)
    units_check(r, m, Z, z, mk, info, KalmanFilter, "s")


# ------------------------------------------------------------------ P04
def P04(idx, seed):
    r, m, Z, z, mk, info = lin_case("P04", idx, seed)
    kf = KalmanFilter(**params(r, m))
    ll = guarded(lambda: kf.loglikelihood(Z), "loglikelihood", info)
    close(np.float64(ll), np.float64(ref.ref_loglik(m, z, mk)), "log-likelihood", info,
          rtol=1e-7, atol=1e-7)
    units_check(r, m, Z, z, mk, info, KalmanFilter, "l")


# ------------------------------------------------------------------ EM
SELECTIONS = ["default", "all"] + [[v] for v in ref.ORDER] + [
    ref.ORDER[:2], ref.ORDER[2:4], ["transition_matrices", "transition_offsets"],
    ["transition_covariance", "transition_matrices"], ["observation_matrices", "observation_covariance"],
    ["observation_covariance", "observation_offsets"], ["initial_state_mean", "initial_state_covariance"],
    ["transition_offsets", "transition_covariance"], []]
DEFAULT = ["transition_covariance", "observation_covariance", "initial_state_mean",
           "initial_state_covariance"]


def em_case(pid, idx, seed, cls=KalmanFilter, tvok="AbCdQR", **kw):
    kw.setdefault("stable", True)
    r, m, Z, z, mk, info = lin_case(pid, idx, seed, tvok=tvok, **kw)
    if idx < len(SELECTIONS):
        sel = SELECTIONS[idx]
    else:
        sel = SELECTIONS[int(r.integers(len(SELECTIONS)))] if r.random() < 0.5 else \
            [v for v in ref.ORDER if r.random() < 0.5]
    full = (DEFAULT if sel == "default" else ref.ORDER if sel == "all" else list(sel))
    info["em_vars"] = sel
    return r, m, Z, z, mk, info, sel, full


def run_em_ref(m, z, mk, full, n_iter):
    for _ in range(n_iter):
        m = ref.ref_em_step(m, z, mk, full)
    return m


def well_conditioned(m, z, mk, full):
    """EM statistics invertible and covariances PD (precondition of the formulas)"""
    obs = ref.observed_steps(mk, len(z))
    if joint_tol(m, z, mk, 0, 1) > 1e-7:
        return False
    M, P, V = ref.ref_smooth(m, z, mk)
    if "observation_matrices" in full and len(obs):
        B = sum(P[t] + np.outer(M[t], M[t]) for t in obs)
        if np.linalg.cond(B) > 1e6:
            return False
    if "transition_matrices" in full and len(z) > 1:
        B = sum(P[t - 1] + np.outer(M[t - 1], M[t - 1]) for t in range(1, len(z)))
        if np.linalg.cond(B) > 1e6:
            return False
    return True


def cov_ok(m, T):
    for k in ("Q", "R", "P0"):
        x = np.asarray(m[k], float)
        for y in (x if x.ndim == 3 else [x]):
            w = np.linalg.eigvalsh((y + y.T) / 2)
            if w[0] < 1e-5 * max(w[-1], 1e-12):
                return False
    return True


def em_compare(kf, m2, info, rtol=1e-5, what="em"):
    for k, name in PARAM.items():
        got = np.asarray(getattr(kf, name))
        want = np.asarray(m2[k], float)
        sc = 1e-7 * max(1.0, float(np.max(np.abs(want))) if want.size else 1.0)
        close(got, want, "%s: %s" % (what, name), info, rtol=rtol, atol=sc)


def P05(idx, seed):
    r, m, Z, z, mk, info, sel, full = em_case("P05", idx, seed)
    n_iter = int(r.choice([1, 1, 2]))
    info["n_iter"] = n_iter
    kf = KalmanFilter(**params(r, m))
    ev = None if sel == "default" else sel
    mm = m
    for _ in range(n_iter):
        if not (cov_ok(mm, m["T"]) and well_conditioned(mm, z, mk, full)):
            return "skip"
        mm = ref.ref_em_step(mm, z, mk, full)
    guarded(lambda: kf.em(Z, n_iter=n_iter, em_vars=ev), "em", info)
    em_compare(kf, mm, info)


def P06(idx, seed):
    cls = list(LIN)[idx % 3]
    r, m, Z, z, mk, info, sel, full = em_case(
        "P06", idx // 3, seed, tvok="AbCdQR" if cls == "standard" else "AbCd", integer=False)
    info["class"] = cls
    how = int(r.integers(4))
    n_iter = int(r.choice([0, 1, 2, 3]))
    info["n_iter"], info["selection_given"] = n_iter, how
    mm = m
    for _ in range(n_iter):
        if not (cov_ok(mm, m["T"]) and well_conditioned(mm, z, mk, full)):
            return "skip"
        mm = ref.ref_em_step(mm, z, mk, full)
    if not cov_ok(mm, m["T"]):
        return "skip"
    ev = None if sel == "default" else sel
    if ev is not None and ev != "all" and r.random() < 0.5:
        ev = [tuple, set, list][int(r.integers(3))](ev)
    decoy = ["transition_matrices", "observation_offsets"]
    pp = params(r, m)
    if how == 0:
        kf = LIN[cls](**pp)
        call = lambda: kf.em(Z, n_iter=n_iter, em_vars=ev)
    elif how == 1:
        kf = LIN[cls](em_vars=decoy if ev is not None else None, **pp)
        call = lambda: kf.em(Z, n_iter=n_iter, em_vars=ev)
    elif how == 2:
        kf = LIN[cls](em_vars=ev, **pp)
        call = lambda: kf.em(X=Z, n_iter=n_iter)
    else:
        kf = LIN[cls](em_vars=ev, **pp)
        call = lambda: kf.em(Z, None, n_iter)
    before = {k: copy.deepcopy(getattr(kf, k)) for k in ALLP}
    others = {k: v for k, v in vars(kf).items() if k not in ALLP}
    oc = {k: copy.deepcopy(v) for k, v in others.items()}
    out = guarded(call, "em", info)
    if out is not kf:
        raise Fail("em did not return the estimator %s" % info)
    sel_now = full if n_iter else []
    for name in ALLP:
        if name not in sel_now and not np.array_equal(np.asarray(getattr(kf, name)),
                                                      np.asarray(before[name])):
            raise Fail("em changed %s, which was not selected %s" % (name, info))
    for k, v in oc.items():
        if k in vars(kf) and vars(kf)[k] != v:
            raise Fail("em changed attribute %s %s" % (k, info))
    em_compare(kf, mm, info, rtol=1e-4)


# ------------------------------------------------------------------ P02
def junk_pair(r, m, z, mk):
    a, b = z.copy(), z.copy()
    a[mk] = 777.0
    b[mk] = np.nan if r.random() < 0.5 else -3.25
    c = z.copy()      # also change unmasked companions of masked steps
    for t in range(len(z)):
        if mk[t].any():
            c[t] = 100.0 + np.arange(z.shape[1])
    return [np.ma.array(q, mask=mk.copy()) for q in (z, a, b, c)]


def P02(idx, seed):
    names = list(LIN) + list(UNS)
    cls = names[idx % 6]
    r = rng_for("P02", idx, seed)
    kinds = ["partial", "random", "first", "last", "all", "alternate", "onecell", "middle"]
    kind = kinds[(idx // 6) % len(kinds)]
    if cls in LIN:
        m = model(r, T=int(r.choice([1, 2, 4, 5])), tvok="AbCdQR" if cls == "standard" else "AbCd",
                  stable=True, p=int(r.choice([1, 2, 3])))
        kw = params(r, m)
        C = LIN[cls]
    else:
        m = uk_model(r, cls == "general")
        kw = uk_params(r, m)
        C = UNS[cls]
    _, z, mk, _ = observations(r, m, kind, junk="keep")
    info = desc(m, mask=kind, cls=cls)
    Zs = junk_pair(r, m, z, mk)
    kf = C(**kw)
    ops = ["filter", "smooth"] + (["loglikelihood"] if cls in LIN else [])
    # reference with missing steps
    for op in ops:
        try:
            base = getattr(kf, op)(Zs[0])
        except np.linalg.LinAlgError:
            if cls in UNS:
                return "skip"
            raise Fail("%s raised LinAlgError %s" % (op, info))
        except Exception as e:
            raise Fail("%s: raised %s: %s %s" % (op, type(e).__name__, e, info))
        for q, Z in enumerate(Zs[1:]):
            res = guarded(lambda: getattr(kf, op)(Z), op, info)
            for a, b in zip(np.atleast_1d(base) if op == "loglikelihood" else base,
                            np.atleast_1d(res) if op == "loglikelihood" else res):
                close(b, a, "%s depends on values stored in a masked step (variant %d)" % (op, q),
                      info, rtol=1e-9)
    if cls in LIN:
        eM, eP = ref.ref_filter(m, z, mk)[:2]
        M, P = kf.filter(Zs[2])
        close(M, eM, "filtered means with missing steps", info, rtol=1e-6)
        close(P, eP, "filtered covariances with missing steps", info, rtol=1e-6)
        close(np.float64(kf.loglikelihood(Zs[1])), np.float64(ref.ref_loglik(m, z, mk)),
              "log-likelihood with missing steps", info, rtol=1e-7, atol=1e-6)
        eM, eP, _ = ref.ref_smooth(m, z, mk)
        M, P = kf.smooth(Zs[1])
        close(M, eM, "smoothed means with missing steps", info, rtol=1e-5)
        close(P, eP, "smoothed covariances with missing steps", info, rtol=1e-5)
        full = [ref.ORDER, DEFAULT, ["observation_matrices"], ["observation_covariance"],
                ["observation_offsets"]][(idx // 6) % 5]
        if well_conditioned(m, z, mk, full):
            mm = ref.ref_em_step(m, z, mk, full)
            for Z in (Zs[1], Zs[2], Zs[3]):
                k2 = C(**params(r, m))
                guarded(lambda: k2.em(Z, n_iter=1, em_vars=full), "em", info)
                em_compare(k2, mm, info, what="em with missing steps")
    else:
        f = {"general": ref.ref_ukf}.get(cls, ref.ref_aukf)
        try:
            eM, eP = f(m["fat"], m["gat"], m["m0"], m["P0"], m["Q"], m["R"], z, mk)
        except np.linalg.LinAlgError:
            return "skip"
        M, P = kf.filter(Zs[2])
        close(M, eM, "filtered means with missing steps", info, rtol=1e-6)
        close(P, eP, "filtered covariances with missing steps", info, rtol=1e-6)
    # online update with masked / absent observation == pure prediction
    t = int(r.integers(max(m["T"] - 1, 1)))
    mean, cov = r.normal(size=m["n"]), spd(r, m["n"])
    over, want = online_case(r, m, cls, t)
    wantM, wantP = want(mean, cov, None)
    p = m["p"]
    variants = [("None", None), ("all masked", np.ma.array(np.full(p, 9.0), mask=True))]
    one = np.zeros(p, bool)
    one[int(r.integers(p))] = True
    variants.append(("one component masked", np.ma.array(np.where(one, np.nan, 5.0), mask=one)))
    for nm, ob in variants:
        a, b = guarded(lambda: kf.filter_update(mean, cov, ob, **over), "filter_update", info)
        close(a, wantM, "filter_update mean, observation %s" % nm, info, rtol=1e-6)
        close(b, wantP, "filter_update covariance, observation %s" % nm, info, rtol=1e-6)


def online_case(r, m, cls, t):
    """parameters to pass so that one update is the step t -> t+1, and its reference"""
    if cls in LIN:
        names = dict(A="transition_matrix", b="transition_offset", Q="transition_covariance",
                     C="observation_matrix", d="observation_offset", R="observation_covariance")
        T = m["T"]
        over = {}
        par = {}
        for k, nm in names.items():
            s = min(t, T - 2) if k in "AbQ" else min(t + 1, T - 1)
            if k in m["tv"]:
                if (k in "AbQ" and T < 2):
                    v = (np.eye(m["n"]) if k != "b" else np.zeros(m["n"]))
                else:
                    v = m[k][s]
                over[nm] = v
            else:
                v = m[k]
            par[k] = np.asarray(v, float)

        def want(mean, cov, z):
            a, B = par["A"] @ mean + par["b"], par["A"] @ cov @ par["A"].T + par["Q"]
            if z is None:
                return a, B
            return ref.corr_step(a, B, par["C"], par["d"], par["R"], z)
        return over, want
    over = {}
    T = m["T"]
    f, g = m["fat"](min(t, max(T - 2, 0))), m["gat"](min(t + 1, T - 1))
    if len(m["f"]) > 1:
        over["transition_function"] = f
    if len(m["g"]) > 1:
        over["observation_function"] = g
    step = ref.ref_ukf_step if cls == "general" else ref.ref_aukf_step

    def want(mean, cov, z):
        return step(f, g, mean, cov, m["Q"], m["R"], z, z is None)
    return over, want


# ------------------------------------------------------------------ P07
def P07(idx, seed):
    cls = ["standard", "general", "additive", "sqrt"][idx % 4]
    r = rng_for("P07", idx, seed)
    if cls == "standard":
        m = model(r, T=int(r.choice([2, 3, 4])))
        kf = KalmanFilter(**params(r, m))
    else:
        m = uk_model(r, cls == "general", T=int(r.choice([2, 3, 4])))
        kf = UNS[cls](**uk_params(r, m))
    Z, z, mk, kind = observations(r, m)
    info = desc(m, mask=kind, cls=cls)
    try:
        M, P = kf.filter(Z)
    except np.linalg.LinAlgError:
        if cls in UNS:
            return "skip"
        raise Fail("filter raised LinAlgError %s" % info)
    except Exception as e:
        raise Fail("filter raised %s: %s %s" % (type(e).__name__, e, info))
    for t in range(m["T"] - 1):
        over, want = online_case(r, m, cls, t)
        ob = Z[t + 1]
        if mk is not None and np.all(mk[t + 1]) and r.random() < 0.5:
            ob = None
        if mk is None and r.random() < 0.3:
            ob = list(np.asarray(ob))
        a, b = guarded(lambda: kf.filter_update(M[t], P[t], ob, **over), "filter_update", info)
        close(a, M[t + 1], "filter_update mean vs filter at step %d" % (t + 1), info, rtol=1e-7)
        close(b, P[t + 1], "filter_update covariance vs filter at step %d" % (t + 1), info, rtol=1e-7)
        em, ep = want(M[t], P[t], None if (mk is not None and mk[t + 1].any()) else z[t + 1])
        close(a, em, "filter_update mean vs reference", info, rtol=1e-6)
        close(b, ep, "filter_update covariance vs reference", info, rtol=1e-6)
        # refused when time varying and unspecified
        for nm in over:
            o2 = {k: v for k, v in over.items() if k != nm}
            expect_raises(ValueError if cls == "standard" else AssertionError,
                          lambda: kf.filter_update(M[t], P[t], Z[t + 1], **o2),
                          "filter_update without time-varying %s (%s)" % (nm, info))
    # every override counts
    n, p = m["n"], m["p"]
    mean, cov, zz = r.normal(size=n), spd(r, n), r.normal(size=p)
    if cls == "standard":
        m2 = model(r, T=2, n=n, p=p, tv="")
        names = dict(A="transition_matrix", b="transition_offset", Q="transition_covariance",
                     C="observation_matrix", d="observation_offset", R="observation_covariance")
        base = {k: (m2[k] if k in m["tv"] else np.asarray(m[k], float)) for k in names}
        sub = [k for k in names if k in m["tv"] or r.random() < 0.5]
        for k in sub:
            base[k] = m2[k]
        a, b = guarded(lambda: kf.filter_update(mean, cov, zz, **{names[k]: m2[k] for k in sub}),
                       "filter_update with overrides", info)
        slack = fp_slack(base["A"] @ cov @ base["A"].T + base["Q"], base["C"], base["R"])
        e = ref.corr_step(base["A"] @ mean + base["b"], base["A"] @ cov @ base["A"].T + base["Q"],
                          base["C"], base["d"], base["R"], zz)
    else:
        m2 = uk_model(r, cls == "general", T=2, n=n, p=p, tv=[False, False])
        slack = 0.0
        sub = [k for k in "fgQR" if r.random() < 0.5 or (k in "fg" and len(m[k]) > 1)]
        kw = {}
        g = {}
        for k, nm in dict(f="transition_function", g="observation_function",
                          Q="transition_covariance", R="observation_covariance").items():
            g[k] = (m2 if k in sub else m)[k]
            g[k] = g[k][0] if k in "fg" else g[k]
            if k in sub:
                kw[nm] = g[k]
        step = ref.ref_ukf_step if cls == "general" else ref.ref_aukf_step
        try:
            e = step(g["f"], g["g"], mean, cov, g["Q"], g["R"], zz, False)
        except np.linalg.LinAlgError:
            return "skip"
        a, b = guarded(lambda: kf.filter_update(mean, cov, zz, **kw), "filter_update with overrides",
                       info)
    close(a, e[0], "overridden filter_update mean (%s)" % sub, info, rtol=1e-6, atol=slack)
    close(b, e[1], "overridden filter_update covariance (%s)" % sub, info, rtol=1e-6, atol=slack)


# ------------------------------------------------------------------ P08 / P09
def sqrt_linear(pid, cls, idx, seed):
    r, m, Z, z, mk, info = lin_case(pid, idx, seed, tvok="AbCd",
                                    integer=None if cls is BiermanKalmanFilter else None)
    kw = params(r, m)
    kf, ks = cls(**kw), KalmanFilter(**kw)
    M, P = guarded(lambda: kf.filter(Z), "filter", info)
    eM, eP = ref.ref_filter(m, z, mk)[:2]
    close(M, eM, "filtered means", info, rtol=1e-6)
    close(P, eP, "filtered covariances", info, rtol=1e-6)
    sM, sP = guarded(lambda: kf.smooth(Z), "smooth", info)
    eM, eP, _ = ref.ref_smooth(m, z, mk)
    tol = joint_tol(m, z, mk, lo=2e-6, hi=1e-3)
    close(sM, eM, "smoothed means", info, rtol=tol)
    close(sP, eP, "smoothed covariances", info, rtol=tol)
    ll = guarded(lambda: kf.loglikelihood(Z), "loglikelihood", info)
    close(np.float64(ll), np.float64(ref.ref_loglik(m, z, mk)), "log-likelihood", info,
          rtol=1e-6, atol=1e-6)
    units_check(r, m, Z, z, mk, info, cls)
    t = int(r.integers(m["T"]))
    name = "cholesky"
    over, want = online_case(r, m, name, t)
    mean, cov = np.sqrt(m["scale"]) * r.normal(size=m["n"]), spd(r, m["n"], m["scale"])
    p = m["p"]
    one = np.zeros(p, bool)
    one[int(r.integers(p))] = True
    zz = 2 * np.sqrt(m["scale"]) * r.normal(size=p)
    for ob, w in ((zz, zz), (None, None), (np.ma.array(zz, mask=one), None),
                  (np.ma.array(zz), zz), (zz.tolist(), zz)):
        a, b = guarded(lambda: kf.filter_update(mean, cov, ob, **over), "filter_update", info)
        e = want(mean, cov, w)
        close(a, e[0], "online mean", info, rtol=1e-6)
        close(b, e[1], "online covariance", info, rtol=1e-6)
        a2, b2 = ks.filter_update(mean, cov, ob, **over)
        if np.shape(a2) != np.shape(a) or np.shape(b2) != np.shape(b):
            raise Fail("filter_update shapes differ from the standard filter %s" % info)
    # partial overrides
    m2 = model(r, T=2, n=m["n"], p=p, tv="")
    names = dict(A="transition_matrix", b="transition_offset", Q="transition_covariance",
                 C="observation_matrix", d="observation_offset", R="observation_covariance")
    sub = [k for k in names if k in m["tv"] or r.random() < 0.4]
    base = {k: np.asarray(m2[k] if k in sub else m[k], float) for k in names}
    a, b = guarded(lambda: kf.filter_update(mean, cov, zz, **{names[k]: m2[k] for k in sub}),
                   "filter_update with overrides", info)
    e = ref.corr_step(base["A"] @ mean + base["b"], base["A"] @ cov @ base["A"].T + base["Q"],
                      base["C"], base["d"], base["R"], zz)
    close(a, e[0], "online mean with overrides %s" % sub, info, rtol=1e-6)
    close(b, e[1], "online covariance with overrides %s" % sub, info, rtol=1e-6)
    # a time-varying parameter that was left out is refused
    for nm in over:
        o2 = {k: v for k, v in over.items() if k != nm}
        expect_raises(ValueError, lambda: kf.filter_update(mean, cov, zz, **o2),
                      "filter_update without time-varying %s" % nm)
    # EM
    r2, m, Z, z, mk, info, sel, full = em_case(pid + "em", idx, seed, tvok="AbCd", integer=None)
    n_iter = int(r2.choice([1, 2]))
    info["n_iter"] = n_iter
    mm = m
    for _ in range(n_iter):
        if not (cov_ok(mm, m["T"]) and well_conditioned(mm, z, mk, full)):
            return None
        mm = ref.ref_em_step(mm, z, mk, full)
    kf = cls(**params(r2, m))
    guarded(lambda: kf.em(Z, n_iter=n_iter, em_vars=None if sel == "default" else sel), "em", info)
    em_compare(kf, mm, info, rtol=1e-5)


def P08(idx, seed):
    return sqrt_linear("P08", CholeskyKalmanFilter, idx, seed)


def P09(idx, seed):
    return sqrt_linear("P09", BiermanKalmanFilter, idx, seed)


# ------------------------------------------------------------------ P10 P11 P13
def unscented(pid, cls, idx, seed):
    r = rng_for(pid, idx, seed)
    general = cls == "general"
    grid = [(2, 1, 3, [False, False]), (2, 2, 3, [True, True]), (4, 2, 3, [False, False]),
            (1, 1, 2, [True, False]), (3, 3, 4, [False, True]), (5, 1, 2, [False, False]),
            (4, 3, 3, [True, True]), (2, 3, 1, [False, False])]
    if idx < len(grid):
        n, p, T, tv = grid[idx]
        m = uk_model(r, general, T=T, n=n, p=p, tv=tv)
    else:
        m = uk_model(r, general)
    Z, z, mk, kind = observations(r, m, ["plain", "random", "partial"][idx % 3] if idx < 8 else None)
    info = desc(m, mask=kind, cls=cls, tv=m["tv"])
    kf = UNS[cls](**uk_params(r, m))
    try:
        f = ref.ref_ukf if general else ref.ref_aukf
        eM, eP = f(m["fat"], m["gat"], m["m0"], m["P0"], m["Q"], m["R"], z, mk)
        sM, sP = (ref.ref_ukf_smooth if general else ref.ref_aukf_smooth)(m["fat"], eM, eP, m["Q"])
        if min(np.linalg.eigvalsh(q)[0] / np.linalg.eigvalsh(q)[-1]
               for q in list(eP) + list(sP)) < 1e-4:
            return "skip"
    except np.linalg.LinAlgError:
        return "skip"
    M, P = guarded(lambda: kf.filter(Z), "filter", info)
    close(M, eM, "filtered means", info, rtol=1e-6)
    close(P, eP, "filtered covariances", info, rtol=1e-6)
    a, b = guarded(lambda: kf.smooth(Z), "smooth", info)
    close(a, sM, "smoothed means", info, rtol=1e-5)
    close(b, sP, "smoothed covariances", info, rtol=1e-5)
    t = int(r.integers(max(m["T"] - 1, 1)))
    over, want = online_case(r, m, cls, t)
    mean, cov = r.normal(size=m["n"]), spd(r, m["n"])
    try:
        e = want(mean, cov, z[-1])
        if np.linalg.eigvalsh(e[1])[0] < 1e-4:
            return
    except np.linalg.LinAlgError:
        return
    a, b = guarded(lambda: kf.filter_update(mean, cov, z[-1], **over), "filter_update", info)
    close(a, e[0], "online mean", info, rtol=1e-6)
    close(b, e[1], "online covariance", info, rtol=1e-6)


def P10(idx, seed):
    return unscented("P10", "additive", idx, seed)


def P11(idx, seed):
    return unscented("P11", "general", idx, seed)


def P13(idx, seed):
    return unscented("P13", "sqrt", idx, seed)


# ------------------------------------------------------------------ P12
def P12(idx, seed):
    from pykalman import unscented as U
    from pykalman.sqrt import unscented as SU
    r = rng_for("P12", idx, seed)
    n = 1 + idx % 6
    mu, S = 3 * r.normal(size=n), spd(r, n, float(r.choice([1, 100, .01])))
    mode = int(r.integers(5))
    al, be, ka = [(None, None, None), (float(r.choice([.5, 1, 1.3, 1e-1])), None, None),
                  (None, float(r.choice([0., 2.])), None), (None, None, float(r.choice([0., 1., 2.]))),
                  (float(r.choice([.5, .9, 1.2])), float(r.choice([0, 2., 1.])),
                   float(r.choice([0., 1., 3.])))][mode]
    info = dict(n=n, alpha=al, beta=be, kappa=ka)
    for name, mod in (("standard", U), ("sqrt", SU)):
        fn = getattr(mod, "moments2points", None)
        if fn is None:
            continue
        Sx = S if name == "standard" else np.linalg.cholesky(S).T
        pts = guarded(lambda: fn(mod.Moments(mu, Sx), al, be, ka), "moments2points", info)
        X, wm, wc = [np.asarray(q, float) for q in pts]
        if X.shape != (2 * n + 1, n) or wm.shape != (2 * n + 1,) or wc.shape != wm.shape:
            raise Fail("%s sigma points: shapes %s %s %s %s" % (name, X.shape, wm.shape, wc.shape, info))
        sc = max(1.0, np.abs(wm).max())
        close(np.float64(wm.sum()), np.float64(1.0), name + " sum of mean weights", info, atol=1e-9 * sc)
        close(wm @ X, mu, name + " weighted mean", info, rtol=1e-7 * sc, atol=1e-8 * sc)
        D = X - mu
        close((D * wc[:, None]).T @ D, S, name + " weighted covariance", info, rtol=1e-7 * sc)
        close((D * wm[:, None]).T @ D, S, name + " weighted covariance (mean weights)", info,
              rtol=1e-7 * sc)
        if np.abs(D[0]).max() > 1e-9 * np.abs(mu).max() and np.abs(D).max(axis=1).min() > 1e-9:
            raise Fail("%s: no centre point %s" % (name, info))
        a = 1.0 if al is None else al
        b = 0.0 if be is None else be
        k = 3.0 - n if ka is None else ka
        lam = a * a * (n + k) - n
        close(np.float64(wc[0]), np.float64(lam / (n + lam) + 1 - a * a + b), name + " centre weight",
              info, rtol=1e-7, atol=1e-7)
        close(np.float64(wm[0]), np.float64(lam / (n + lam)), name + " centre mean weight",
              info, rtol=1e-7, atol=1e-7)
    # affine models: exact
    cls = ["general", "additive", "sqrt"][idx % 3]
    T = int(r.choice([1, 2, 3, 4]))
    n, p = int(r.choice([1, 2, 3, 4])), int(r.choice([1, 2, 3]))
    m = model(r, T=T, n=n, p=p, tv=["", "AbCd", "Ab", "Cd"][int(r.integers(4))], stable=True)

    def lam(A, b):
        return (lambda x, v: A.dot(x) + b + v) if cls == "general" else (lambda x: A.dot(x) + b)
    tvf, tvg = "A" in m["tv"], "C" in m["tv"]
    fl = [lam(m["A"][t], m["b"][t]) for t in range(T - 1)] if tvf else [lam(m["A"], m["b"])]
    gl = [lam(m["C"][t], m["d"][t]) for t in range(T)] if tvg else [lam(m["C"], m["d"])]
    if not fl:
        fl = [lam(np.eye(n), np.zeros(n))]
    Z, z, mk, kind = observations(r, m)
    info = desc(m, mask=kind, cls=cls)
    kf = UNS[cls](fl, gl, m["Q"].copy(), m["R"].copy(), m["m0"].copy(), m["P0"].copy())
    eM, eP = ref.ref_filter(m, z, mk)[:2]
    sM, sP, _ = ref.ref_smooth(m, z, mk)
    M, P = guarded(lambda: kf.filter(Z), "filter (affine model)", info)
    close(M, eM, "affine model: filtered means", info, rtol=1e-6)
    close(P, eP, "affine model: filtered covariances", info, rtol=1e-6)
    M, P = guarded(lambda: kf.smooth(Z), "smooth (affine model)", info)
    close(M, sM, "affine model: smoothed means", info, rtol=1e-5)
    close(P, sP, "affine model: smoothed covariances", info, rtol=1e-5)


# ------------------------------------------------------------------ P14
def P14(idx, seed):
    r = rng_for("P14", idx, seed)
    which = idx % 6
    names = list(LIN) + list(UNS)
    cls = names[which]
    m = model(r, T=3, stable=True, tv="" if r.random() < .6 else "AbCd") if cls in LIN else \
        uk_model(r, cls == "general", T=3)
    n, p = m["n"], m["p"]
    if cls in LIN:
        keys = list("AbQCdR") + ["m0", "P0"]
        nk, pk = ["A", "b", "Q", "m0", "P0", "C"], ["C", "d", "R"]
        C = LIN[cls]
    else:
        keys = ["f", "g", "Q", "R", "m0", "P0"]
        nk, pk = ["Q", "m0", "P0"], ["R"]
        C = UNS[cls]
    if idx < 6 * (len(keys) + 2):
        j = idx // 6
        given = [] if j == 0 else keys if j == len(keys) + 1 else [keys[j - 1]]
    else:
        given = [k for k in keys if r.random() < 0.5]
    explicit = r.random() < 0.5
    en = n if any(k in given for k in nk) else (n if explicit else 1)
    ep = p if any(k in given for k in pk) else (p if explicit else 1)
    full = dict(n=en, p=ep, T=3, tv="".join(k for k in given if k in m.get("tv", "")), scale=1.0,
                A=np.eye(en), b=np.zeros(en), Q=np.eye(en), C=np.eye(ep, en), d=np.zeros(ep),
                R=np.eye(ep), m0=np.zeros(en), P0=np.eye(en))
    kw = {}
    info = dict(cls=cls, given=given, explicit=explicit, n=n, p=p)
    forms = ["array", "list"]
    if cls in UNS:
        gen = cls == "general"
        dflt = (lambda x, v: x + v) if gen else (lambda x: x)
        # default functions only make sense when both dimensions agree
        if not ("g" in given) and en != ep:
            given2 = given + ["g"]
            given = given2
        if "f" in given or "g" in given:
            if en != n:
                m["f"] = [(lambda x, v: 0.5 * x + v) if gen else (lambda x: 0.5 * x)]
                m["fat"] = lambda t: m["f"][0]
            if en != n or ep != p:
                h = np.ones((ep, en)) * 0.3
                m["g"] = [(lambda x, v: h.dot(x) + v) if gen else (lambda x: h.dot(x))]
                m["gat"] = lambda t: m["g"][0]
        for k, nm in dict(f="transition_functions", g="observation_functions",
                          Q="transition_covariance", R="observation_covariance",
                          m0="initial_state_mean", P0="initial_state_covariance").items():
            if k in given:
                kw[nm] = m[k] if k in "fg" else present(r, m[k], forms[int(r.integers(2))])
                full[k] = m[k]
        fat = m["fat"] if "f" in given else (lambda t: dflt)
        gat = m["gat"] if "g" in given else (lambda t: dflt)
    else:
        for k in given:
            kw[PARAM[k]] = present(r, m[k], forms[int(r.integers(2))])
            full[k] = m[k]
    if explicit:
        kw["n_dim_state"], kw["n_dim_obs"] = en, ep
    kf = guarded(lambda: C(**kw), "constructor", info)
    if kf.n_dim_state != en or kf.n_dim_obs != ep:
        raise Fail("dimensions (%s, %s), expected (%d, %d) %s" % (kf.n_dim_state, kf.n_dim_obs, en, ep,
                                                                 info))
    z = r.normal(size=(3, ep))
    if cls in LIN:
        eM, eP = ref.ref_filter(full, z, None)[:2]
    else:
        f = ref.ref_ukf if cls == "general" else ref.ref_aukf
        try:
            eM, eP = f(fat, gat, full["m0"], full["P0"], full["Q"], full["R"], z, None)
        except np.linalg.LinAlgError:
            return "skip"
    M, P = guarded(lambda: kf.filter(z), "filter", info)
    close(M, eM, "filtered means with defaults", info, rtol=1e-6)
    close(P, eP, "filtered covariances with defaults", info, rtol=1e-6)
    x, y = guarded(lambda: kf.sample(3, random_state=0), "sample", info)
    if np.shape(x) != (3, en) or np.shape(y) != (3, ep):
        raise Fail("sample shapes %s %s %s" % (np.shape(x), np.shape(y), info))
    if cls in LIN:
        close(np.float64(kf.loglikelihood(z)), np.float64(ref.ref_loglik(full, z, None)),
              "log-likelihood with defaults", info, atol=1e-6)
        k2 = C(**kw)
        guarded(lambda: k2.em(z, n_iter=0), "em(n_iter=0)", info)
        for k, nm in PARAM.items():
            close(getattr(k2, nm), np.asarray(full[k], float), "initialised " + nm, info)
    # contradictory shapes are refused
    bad = [k for k in given if k not in "fg"]
    if bad:
        k = bad[int(r.integers(len(bad)))]
        kw2 = {a: b for a, b in kw.items() if a not in ("n_dim_state", "n_dim_obs")}
        ways = []
        if k in nk:
            ways.append(("n_dim_state", en + 1))
        if k in pk:
            ways.append(("n_dim_obs", ep + 1))
        for a, b in ways:
            expect_raises(ValueError, lambda: C(**dict(kw2, **{a: b})),
                          "contradictory %s=%d with %s given %s" % (a, b, k, info))
    if cls in LIN:
        allk = {q: m[q] for q in keys}
        axes = [(k, a) for k in nk for a in ([0] if k != "C" else [1])] + [(k, 0) for k in pk]
        k, ax = axes[int(r.integers(len(axes)))]
        other = [q for q in (nk if (k, ax) in [(q, 1 if q == "C" else 0) for q in nk] else pk) if q != k]
        o = other[int(r.integers(len(other)))]
        w = np.asarray(m[k], float)
        base = NDIM[k]
        # grow every axis that carries this dimension
        axis_dims = {"A": [-2, -1], "Q": [-2, -1], "P0": [-2, -1], "b": [-1], "m0": [-1],
                     "C": [-1] if ax == 1 else [-2], "d": [-1], "R": [-2, -1]}[k]
        for a in axis_dims:
            w = np.concatenate([w, np.take(w, [0], axis=a)], axis=a)
        expect_raises(ValueError, lambda: C(**{PARAM[k]: w, PARAM[o]: allk[o]}),
                      "contradictory %s %s and %s %s" % (k, w.shape, o, np.shape(allk[o])))
    else:
        k, o = [("Q", "m0"), ("Q", "P0"), ("m0", "P0"), ("P0", "Q")][int(r.integers(4))]
        big = {"Q": np.eye(n + 1), "P0": np.eye(n + 1), "m0": np.zeros(n + 1)}[k]
        nm = dict(Q="transition_covariance", m0="initial_state_mean", P0="initial_state_covariance")
        expect_raises(ValueError, lambda: C(**{nm[k]: big, nm[o]: m[o]}),
                      "contradictory %s and %s" % (k, o))


# ------------------------------------------------------------------ P15
class Rec(np.random.RandomState):
    def __init__(self, seed):
        super().__init__(seed)
        self.log, self.other = [], 0

    def multivariate_normal(self, mean, cov, *a, **k):
        before = self.other
        v = super().multivariate_normal(mean, cov, *a, **k)
        self.other = before
        self.log.append((np.array(mean, float), np.array(cov, float), np.array(v, float)))
        return v

    def standard_normal(self, *a, **k):
        self.other += 1
        return super().standard_normal(*a, **k)

    def normal(self, *a, **k):
        self.other += 1
        return super().normal(*a, **k)

    def randn(self, *a):
        self.other += 1
        return super().randn(*a)


def P15(idx, seed):
    names = ["standard", "standard", "general", "additive", "sqrt", "cholesky", "bierman"]
    cls = names[idx % 7]
    r = rng_for("P15", idx, seed)
    if cls in LIN:
        tv = CASES_P[(idx // 7) % len(CASES_P)][1] if idx < 7 * len(CASES_P) else None
        m = model(r, tv=tv, scale=1.0, T=int(r.choice([1, 2, 4, 5])))
        kw = params(r, m)
        C = LIN[cls]
        calls = None
    else:
        m = uk_model(r, cls == "general")
        calls = []

        def wrap(fn, tag):
            def g(*a):
                calls.append((tag,) + tuple(np.array(q, float) for q in a))
                return fn(*a)
            return g
        kw = uk_params(r, dict(m, f=[wrap(f, ("f", i)) for i, f in enumerate(m["f"])],
                               g=[wrap(f, ("g", i)) for i, f in enumerate(m["g"])]))
        C = UNS[cls]
    n, p, T = m["n"], m["p"], m["T"]
    init = r.normal(size=n) if r.random() < 0.5 else None
    info = desc(m, cls=cls, init=init is not None)
    where = int(r.integers(2))
    rec, decoy = Rec(5 + idx), Rec(99)
    if where:
        kf = C(random_state=rec, **kw)
        call = lambda: kf.sample(T, init)
    else:
        kf = C(random_state=decoy, **kw)
        call = lambda: kf.sample(T, initial_state=init, random_state=rec)
    np.random.seed(3)
    g0 = np.random.get_state()[1].copy(), np.random.get_state()[2]
    x, z = guarded(call, "sample", info)
    g1 = np.random.get_state()[1], np.random.get_state()[2]
    if not (np.array_equal(g0[0], g1[0]) and g0[1] == g1[1]):
        raise Fail("sample drew from numpy's global generator %s" % info)
    if decoy.log or decoy.other:
        raise Fail("sample drew from the estimator's generator although one was given %s" % info)
    if np.shape(x) != (T, n) or np.shape(z) != (T, p):
        raise Fail("sample shapes %s %s %s" % (np.shape(x), np.shape(z), info))
    if rec.other == 0 and rec.log:
        used = set()

        def draw(res, cov, what, mean=None):
            for i, (mu, cv, v) in enumerate(rec.log):
                if i in used or v.shape != res.shape:
                    continue
                mm = np.zeros_like(mu) if mean is None else mean
                if np.allclose(v - mu, res - mm, rtol=1e-6, atol=1e-7 * (1 + np.abs(x).max())) \
                        and cv.shape == np.shape(cov) and np.allclose(cv, cov, rtol=1e-9):
                    used.add(i)
                    return
            raise Fail("sample: %s is not a fresh draw with the right covariance %s" % (what, info))
        x, z = np.asarray(x), np.asarray(z)
        if init is None:
            draw(x[0], np.asarray(m["P0"], float), "initial state", np.asarray(m["m0"], float))
        else:
            close(x[0], init, "initial state", info)
        for t in range(T):
            if cls in LIN:
                if t:
                    draw(x[t] - ref.at(m["A"], t - 1, 2) @ x[t - 1] - ref.at(m["b"], t - 1, 1),
                         ref.at(m["Q"], t - 1, 2), "transition noise at %d" % t)
                draw(z[t] - ref.at(m["C"], t, 2) @ x[t] - ref.at(m["d"], t, 1),
                     ref.at(m["R"], t, 2), "observation noise at %d" % t)
            elif cls == "general":
                if t:
                    c = [q for q in calls if q[0] == ("f", (t - 1) if len(m["f"]) > 1 else 0)
                         and np.array_equal(q[1], x[t - 1])]
                    if not c:
                        raise Fail("transition function not applied to x[%d] %s" % (t - 1, info))
                    close(x[t], m["fat"](t - 1)(x[t - 1], c[0][2]), "state %d" % t, info)
                    draw(c[0][2], m["Q"], "transition noise at %d" % t)
                c = [q for q in calls if q[0] == ("g", t if len(m["g"]) > 1 else 0)
                     and np.array_equal(q[1], x[t])]
                if not c:
                    raise Fail("observation function not applied to x[%d] %s" % (t, info))
                close(z[t], m["gat"](t)(x[t], c[0][2]), "observation %d" % t, info)
                draw(c[0][2], m["R"], "observation noise at %d" % t)
            else:
                if t:
                    draw(x[t] - m["fat"](t - 1)(x[t - 1]), m["Q"], "transition noise at %d" % t)
                draw(z[t] - m["gat"](t)(x[t]), m["R"], "observation noise at %d" % t)
    else:
        statistical_sample(cls, C, m, info)
    # integer seeds repeat, and decide the trajectory
    s = int(r.integers(1000))
    k2 = C(**kw)
    a = k2.sample(T, init, random_state=s)
    b = k2.sample(T, init, random_state=np.int64(s))
    c = k2.sample(T, init, random_state=np.random.RandomState(s))
    k3 = C(random_state=s, **kw)
    d1, d2 = k3.sample(T, init), k3.sample(T, init)
    for q in (b, c, d1, d2):
        if not (np.array_equal(a[0], q[0]) and np.array_equal(a[1], q[1])):
            raise Fail("the same seed gives different trajectories %s" % info)
    o = k2.sample(T, init, random_state=s + 1)
    if np.array_equal(np.asarray(a[1]), np.asarray(o[1])):
        raise Fail("different seeds give the same trajectory %s" % info)
    for badseed in ("abc", 1.5, [1, 2], {"a": 1}):
        expect_raises(ValueError, lambda: k2.sample(T, init, random_state=badseed),
                      "sample(random_state=%r)" % (badseed,))
        expect_raises(ValueError, lambda: C(random_state=badseed, **kw).sample(T, init),
                      "estimator random_state=%r" % (badseed,))


def statistical_sample(cls, C, m, info):
    """fallback when draws do not go through multivariate_normal: whitened residuals"""
    if cls == "general":
        return
    n, p, T = m["n"], m["p"], max(m["T"], 1)
    if cls in LIN:
        kw = {PARAM[k]: m[k] for k in PARAM}
    else:
        kw = dict(transition_functions=m["f"], observation_functions=m["g"],
                  transition_covariance=m["Q"], observation_covariance=m["R"],
                  initial_state_mean=m["m0"], initial_state_covariance=m["P0"])
    kf = C(**kw)
    rng = np.random.RandomState(0)
    N = 3000
    W = []
    for _ in range(N):
        x, z = kf.sample(T, random_state=rng)
        x, z = np.asarray(x), np.asarray(z)
        row = [np.linalg.solve(np.linalg.cholesky(m["P0"]), x[0] - m["m0"])]
        for t in range(T):
            if t:
                fx = (ref.at(m["A"], t - 1, 2) @ x[t - 1] + ref.at(m["b"], t - 1, 1)) if cls in LIN \
                    else m["fat"](t - 1)(x[t - 1])
                row.append(np.linalg.solve(np.linalg.cholesky(ref.at(m["Q"], t - 1, 2)), x[t] - fx))
            gx = (ref.at(m["C"], t, 2) @ x[t] + ref.at(m["d"], t, 1)) if cls in LIN \
                else m["gat"](t)(x[t])
            row.append(np.linalg.solve(np.linalg.cholesky(ref.at(m["R"], t, 2)), z[t] - gx))
        W.append(np.concatenate(row))
    W = np.array(W)
    if np.abs(W.mean(0)).max() > 6 / np.sqrt(N) or \
            np.abs(W.T @ W / N - np.eye(W.shape[1])).max() > 8 / np.sqrt(N):
        raise Fail("sample: whitened noises are not standard normal %s" % info)


# ------------------------------------------------------------------ P16
def snap(x):
    if isinstance(x, np.ma.MaskedArray):
        return ("ma", np.ma.getdata(x).tobytes(), np.ma.getmaskarray(x).copy().tobytes(), x.shape)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("obj", [id(q) for q in x.ravel()])
        return ("a", np.ascontiguousarray(x).tobytes(), x.shape, str(x.dtype))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(q) for q in x])
    if isinstance(x, dict):
        return ("d", {k: snap(v) for k, v in x.items()})
    if isinstance(x, (int, float, str, bool, type(None))):
        return ("v", repr(x))
    return ("id", id(x))


def P16(idx, seed):
    names = list(LIN) + list(UNS)
    cls = names[idx % 6]
    r = rng_for("P16", idx, seed)
    forms = [("array",), ("readonly",), ("list",), ("fortran",), ("strided",)][(idx // 6) % 5]
    if cls in LIN:
        m = model(r, tvok="AbCdQR" if cls == "standard" else "AbCd", stable=True,
                  integer=(idx // 30) % 4 == 3)
        if m["T"] == 1 and set(m["tv"]) & set("AbQ"):
            forms = ("array",)       # an empty list has no shape
        kw = params(r, m, forms)
        C = LIN[cls]
    else:
        m = uk_model(r, cls == "general")
        kw = uk_params(r, m)
        for k in list(kw):
            if k.endswith("covariance") or k.endswith("mean"):
                kw[k] = present(r, kw[k], forms[0])
        C = UNS[cls]
    Z, z, mk, kind = observations(r, m)
    if forms[0] == "readonly" and not np.ma.isMaskedArray(Z):
        Z = present(r, Z, "readonly")
    elif kind == "plain" and r.random() < 0.3:
        Z = z.tolist()
    info = desc(m, cls=cls, mask=kind, form=forms[0])
    kf = C(**kw)
    n, p = m["n"], m["p"]
    mean, cov, ob = r.normal(size=n), spd(r, n), np.ma.array(r.normal(size=p))
    if r.random() < 0.5:
        ob[int(r.integers(p))] = np.ma.masked
    if forms[0] == "readonly":
        mean, cov = present(r, mean, "readonly"), present(r, cov, "readonly")
    init = present(r, r.normal(size=n), forms[0])
    over, _ = online_case(r, m, cls, 0)
    over = dict(over)
    for k in over:
        if isinstance(over[k], np.ndarray):
            over[k] = over[k].copy()
    if cls in LIN:
        m2 = model(r, T=2, n=n, p=p, tv="")
        for k, nm in dict(A="transition_matrix", b="transition_offset", Q="transition_covariance",
                          C="observation_matrix", d="observation_offset",
                          R="observation_covariance").items():
            if nm not in over and r.random() < .3:
                over[nm] = m2[k]
    ops = [("filter", lambda: kf.filter(Z)), ("smooth", lambda: kf.smooth(Z)),
           ("filter_update", lambda: kf.filter_update(mean, cov, ob, **over)),
           ("filter_update(None)", lambda: kf.filter_update(mean, cov, **over)),
           ("sample", lambda: kf.sample(3 if cls in UNS and not any(m["tv"]) else m["T"], init,
                                        random_state=1))]
    if cls in LIN:
        ops.append(("loglikelihood", lambda: kf.loglikelihood(Z)))

    def state():
        return snap([kw, Z, mean, cov, ob, init, over]), {k: snap(v) for k, v in vars(kf).items()}, \
            {k: id(v) for k, v in vars(kf).items()}
    s0 = state()
    first = {}
    for rep in range(2):
        for nm, op in ops:
            try:
                out = op()
            except np.linalg.LinAlgError as e:
                if cls in UNS:
                    return "skip"
                raise Fail("%s raised %s %s" % (nm, e, info))
            except Exception as e:
                raise Fail("%s raised %s: %s %s" % (nm, type(e).__name__, e, info))
            s1 = state()
            if s1[0] != s0[0]:
                raise Fail("%s modified an argument %s" % (nm, info))
            if s1[1] != s0[1] or s1[2] != s0[2]:
                ch = [k for k in set(s0[1]) | set(s1[1]) if s1[1].get(k) != s0[1].get(k)
                      or s1[2].get(k) != s0[2].get(k)]
                raise Fail("%s modified the estimator (%s) %s" % (nm, ch, info))
            key = snap(out if isinstance(out, tuple) else [float(out)])
            if rep == 0:
                first[nm] = key
            elif first[nm] != key:
                raise Fail("repeating %s gives a different result %s" % (nm, info))
    if cls in LIN:
        others = {k: snap(v) for k, v in vars(kf).items() if k not in ALLP}
        a0 = snap([kw, Z])
        sel = [None, "all"] + [[v] for v in ref.ORDER]
        sel = sel[(idx // 6) % len(sel)]
        if idx % 2:
            kf.em_vars = kf.em_vars
        try:
            kf.em(Z, n_iter=2 if m["T"] > 2 else 1, em_vars=sel)
        except np.linalg.LinAlgError:       # the estimates left the positive definite cone
            pass
        except Exception as e:
            raise Fail("em raised %s: %s %s" % (type(e).__name__, e, info))
        if snap([kw, Z]) != a0:
            raise Fail("em wrote into its inputs %s" % info)
        o2 = {k: snap(v) for k, v in vars(kf).items() if k not in ALLP}
        if o2 != others:
            raise Fail("em changed attributes %s %s" % (
                [k for k in set(o2) | set(others) if o2.get(k) != others.get(k)], info))


# ------------------------------------------------------------------ P17
def P17(idx, seed):
    from pykalman.sqrt import bierman as B, unscented as SU
    r = rng_for("P17", idx, seed)
    n = 1 + idx % 6
    kind = idx % 3
    sd = np.ones(n)
    if kind and r.random() < .6:      # components in their own units
        sd = 10.0 ** (r.uniform(-7, 5) + r.uniform(-1.5, 1.5, size=n))
    sd2 = np.outer(sd, sd)
    M = spd(r, n) * sd2 if kind else ispd_(r, n)
    M0 = M.copy()
    info = dict(n=n, integer=not kind)
    udu = getattr(B, "udu", None)
    if udu is not None:
        f = guarded(lambda: udu(M), "udu", info)
        U, D = np.asarray(f.U, float), np.asarray(f.D, float)
        if not np.array_equal(M, M0):
            raise Fail("udu modified its argument %s" % info)
        if not (np.allclose(np.diag(U), 1) and np.allclose(np.tril(U, -1), 0)):
            raise Fail("udu: U is not unit upper triangular %s" % info)
        close(U @ np.diag(D) @ U.T / sd2, M / sd2, "U D U'", info)
        if hasattr(f, "reconstruct"):
            close(f.reconstruct() / sd2, M / sd2, "reconstruct()", info)
        one = getattr(B, "_filter_correct_single", None)
        if one is not None:
            h, R = (r.normal(size=n) / sd, float(abs(r.normal()) + .1)) if idx % 4 or kind else \
                (r.integers(-2, 3, size=n), 1)
            F = B.UDU_decomposition(U.copy(), D.copy())
            h0 = h.copy()
            out, k = guarded(lambda: one(F, h, R), "_filter_correct_single", info)
            P = U @ np.diag(D) @ U.T
            s = h @ P @ h + R
            close(k / sd, P @ h / s / sd, "scalar update gain", info, atol=1e-12)
            close(out.U @ np.diag(out.D) @ out.U.T / sd2, (P - np.outer(P @ h, P @ h) / s) / sd2,
                  "scalar update covariance", info, rtol=1e-6)
            if not (np.allclose(np.diag(out.U), 1) and np.allclose(np.tril(out.U, -1), 0)):
                raise Fail("scalar update: U is not unit upper triangular %s" % info)
            if not (np.array_equal(F.U, U) and np.array_equal(F.D, D) and np.array_equal(h, h0)):
                raise Fail("_filter_correct_single modified its arguments %s" % info)
    cu = getattr(SU, "cholupdate", None)
    if cu is not None:
        S = spd(r, n)
        A = np.linalg.cholesky(S).T.copy()
        if r.random() < .3:
            A = np.diag(np.sign(r.normal(size=n))) @ A
        k = int(r.choice([1, 1, 2, 3]))
        X = r.normal(size=(k, n))
        if r.random() < .3:
            X[:, : int(r.integers(n + 1))] = 0
        w = float(r.choice([1.0, .5, 3.0, 1e-3, -1.0, -.4, 0.0]))
        if w < 0:
            ev = np.linalg.eigvalsh(S)[0]
            X *= np.sqrt(.8 * ev / (k * max((X ** 2).sum(), 1e-9) * abs(w)))
        x1 = X[0].copy() if (k == 1 and r.random() < .5) else X.copy()
        A0, X0 = A.copy(), x1.copy()
        out = guarded(lambda: cu(A, x1, w), "cholupdate", info)
        if not (np.array_equal(A, A0) and np.array_equal(x1, X0)):
            raise Fail("cholupdate modified its arguments %s" % info)
        X2 = np.atleast_2d(x1)
        close(out.T @ out, A.T @ A + w * X2.T @ X2, "cholupdate Gram matrix", dict(info, w=w, k=k),
              rtol=1e-7)
        if not np.allclose(np.tril(out, -1), 0):
            raise Fail("cholupdate: result is not upper triangular %s" % info)
    q = getattr(SU, "qr", None)
    if q is not None:
        rows = n + int(r.integers(0, 4))
        A = r.normal(size=(rows, n))
        A0 = A.copy()
        R_ = guarded(lambda: q(A), "qr", info)
        if not np.array_equal(A, A0):
            raise Fail("qr modified its argument %s" % info)
        close(R_, np.triu(R_), "qr: not upper triangular", info)
        close(R_.T @ R_, A.T @ A, "qr Gram matrix", info)
        if n > 1:
            expect_raises(ValueError, lambda: q(A[:n - 1]), "qr of a wide matrix")


def ispd_(r, n):
    from .gen import ispd
    return ispd(r, n)


# ------------------------------------------------------------------ P18
def P18(idx, seed):
    names = list(LIN) + list(UNS)
    cls = names[idx % 6]
    r = rng_for("P18", idx, seed)
    j = idx // 6
    shapes = [(1, 1), (1, 3), (4, 1), (4, 3), (1, 2), (2, 2), (3, 3), (2, 1), (5, 2), (2, 3)]
    T, p = shapes[j % len(shapes)]
    n = int(r.choice([1, 2, 3]))
    if cls in LIN:
        m = model(r, T=T, n=n, p=p, tv="", stable=True)
        kf = LIN[cls](**params(r, m))
    else:
        m = uk_model(r, cls == "general", T=T, n=n, p=p, tv=[False, False])
        kf = UNS[cls](**uk_params(r, m))
    mk = r.random((T, p)) < .3 if j % 2 else np.zeros((T, p), bool)
    z = r.normal(size=(T, p))
    info = desc(m, cls=cls)
    if cls in LIN:
        eM, eP = ref.ref_filter(m, z, mk)[:2]
        sM, sP, _ = ref.ref_smooth(m, z, mk)
    else:
        try:
            f = ref.ref_ukf if cls == "general" else ref.ref_aukf
            eM, eP = f(m["fat"], m["gat"], m["m0"], m["P0"], m["Q"], m["R"], z, mk)
            sM, sP = (ref.ref_ukf_smooth if cls == "general" else ref.ref_aukf_smooth)(
                m["fat"], eM, eP, m["Q"])
        except np.linalg.LinAlgError:
            return "skip"
    forms = [("masked array", np.ma.array(z, mask=mk))]
    if not mk.any():
        forms += [("array", z.copy()), ("list", z.tolist()), ("plain masked array", np.ma.array(z))]
    if p == 1:
        forms += [("1-D masked array", np.ma.array(z[:, 0], mask=mk[:, 0]))]
        if not mk.any():
            forms += [("1-D array", z[:, 0].copy()), ("1-D list", z[:, 0].tolist())]
    for nm, Z in forms:
        M, P = guarded(lambda: kf.filter(Z), "filter(%s)" % nm, info)
        close(M, eM, "filtered means, %s" % nm, info, rtol=1e-6)
        close(P, eP, "filtered covariances, %s" % nm, info, rtol=1e-6)
        if True:
            M, P = guarded(lambda: kf.smooth(Z), "smooth(%s)" % nm, info)
            close(M, sM, "smoothed means, %s" % nm, info, rtol=1e-5)
            close(P, sP, "smoothed covariances, %s" % nm, info, rtol=1e-5)
        if cls in LIN:
            close(np.float64(kf.loglikelihood(Z)), np.float64(ref.ref_loglik(m, z, mk)),
                  "log-likelihood, %s" % nm, info, rtol=1e-7, atol=1e-7)
            if j % 3 == 0 and well_conditioned(m, z, mk, DEFAULT):
                mm = ref.ref_em_step(m, z, mk, DEFAULT)
                k2 = LIN[cls](**params(r, m))
                guarded(lambda: k2.em(Z, n_iter=1), "em(%s)" % nm, info)
                em_compare(k2, mm, info)


# ------------------------------------------------------------------ P19
def P19(idx, seed):
    names = list(LIN) + list(UNS)
    cls = names[idx % 6]
    r = rng_for("P19", idx, seed)
    T = int(r.choice([2, 3, 4, 6]))
    if cls in LIN:
        m = model(r, T=T, tvok="AbCdQR" if cls == "standard" else "AbCd", stable=True)
        C, kw = LIN[cls], params(r, m)
    else:
        m = uk_model(r, cls == "general", T=T)
        C, kw = UNS[cls], uk_params(r, m)
    Z, z, mk, kind = observations(r, m)
    info = desc(m, cls=cls, mask=kind)
    kf = C(**kw)
    try:
        M, P = kf.filter(Z)
        a, b = kf.smooth(Z)
    except np.linalg.LinAlgError:
        if cls in UNS:
            return "skip"
        raise Fail("LinAlgError %s" % info)
    except Exception as e:
        raise Fail("filter/smooth raised %s: %s %s" % (type(e).__name__, e, info))
    close(a[-1], M[-1], "last smoothed mean vs last filtered mean", info, rtol=1e-8)
    close(b[-1], P[-1], "last smoothed covariance vs last filtered", info, rtol=1e-8)
    for k in range(1, T):
        if k == 1 and cls in UNS and any(m["tv"]):
            pass
        kk = C(**kw)
        if cls in LIN:
            kw2 = dict(kw)
            for q, nm in PARAM.items():
                if q in m["tv"]:
                    kw2[nm] = kw[nm][: (k - 1 if q in "AbQ" else k)]
            # parameters after the prefix do not matter either
            kw3 = dict(kw)
            for q, nm in PARAM.items():
                if q in m["tv"]:
                    v = np.array(kw[nm], dtype=float)
                    s = (k - 1 if q in "AbQ" else k)
                    v[s:] = np.eye(v.shape[-1])[None] * 7 if q in "QR" else 7.0
                    kw3[nm] = v
            variants = [("prefix, all parameters", C(**kw), Z[:k]),
                        ("whole sequence, other later parameters", C(**kw3), Z)]
            if k > 1:
                variants.append(("prefix, prefix of parameters", C(**kw2), Z[:k]))
        else:
            variants = [("prefix", kk, Z[:k])]
        Zc = Z.copy()
        if not (mk is not None and mk.any()):
            Zc = np.array(np.ma.getdata(Z), dtype=float)
            Zc[k:] = 55.0 if cls in LIN else Zc[k:] + 1.0
            variants.append(("other later observations", kk, Zc))
        else:
            Zc = Zc.astype(float)
            Zc[k:] = np.ma.masked
            variants.append(("later observations masked", kk, Zc))
        for nm, est, ZZ in variants:
            try:
                M2, P2 = est.filter(ZZ)
            except np.linalg.LinAlgError:
                if cls in UNS:
                    continue
                raise Fail("filter(%s) raised LinAlgError %s" % (nm, info))
            except Exception as e:
                raise Fail("filter(%s) raised %s: %s %s" % (nm, type(e).__name__, e, info))
            close(M2[:k], M[:k], "filtered means, %s of length %d" % (nm, k), info, rtol=1e-8)
            close(P2[:k], P[:k], "filtered covariances, %s of length %d" % (nm, k), info, rtol=1e-8)


# ------------------------------------------------------------------ P20
def fp_slack(P, C, R):
    """rounding error to allow for in the covariance correct step P - K C P: cancellation of numbers of
    the size of P, amplified by the condition of the innovation covariance"""
    P, C, R = np.asarray(P, float), np.asarray(C, float), np.asarray(R, float)
    return 1e-13 * float(np.max(np.abs(P))) * float(np.linalg.cond(C @ P @ C.T + R))


def psd(X, what, info, tol=1e-7, scale=0.0):
    X = np.asarray(X, float)
    s = max(np.abs(X).max(), scale, 1e-300)
    if np.abs(X - X.T).max() > tol * s:
        raise Fail("%s is not symmetric (%.3g) %s" % (what, np.abs(X - X.T).max(), info))
    return np.linalg.eigvalsh((X + X.T) / 2)[0], s


def P20(idx, seed):
    cls = list(LIN)[idx % 3]
    r, m, Z, z, mk, info = lin_case("P20", idx // 3, seed, tvok="AbCdQR" if cls == "standard" else "AbCd")
    info["cls"] = cls
    if cls == "standard" and r.random() < 0.3:      # singular noise is fine here
        n = m["n"]
        v = r.normal(size=(n, 1))
        if "Q" not in m["tv"]:
            m["Q"] = m["scale"] * v @ v.T
        m["P0"] = m["scale"] * np.diag(np.arange(n) > 0).astype(float)
        info["singular"] = True
    kf = LIN[cls](**params(r, m))
    M, P = guarded(lambda: kf.filter(Z), "filter", info)
    Ms, Ps = guarded(lambda: kf.smooth(Z), "smooth", info)
    preds = [np.asarray(m["P0"], float)] + [
        ref.at(m["A"], t - 1, 2) @ P[t - 1] @ ref.at(m["A"], t - 1, 2).T + ref.at(m["Q"], t - 1, 2) for t in range(1, m["T"])]
    # smoothing inverts the predicted covariances: only meaningful in floating point when well conditioned
    last_ill = max([t for t in range(1, m["T"]) if np.linalg.cond(preds[t]) > 1e5] + [0])
    for t in range(m["T"]):
        slack = 1e7 * fp_slack(preds[t], ref.at(m["C"], t, 2), ref.at(m["R"], t, 2))
        for nm, X in (("filtered", P[t]), ("smoothed", Ps[t])):
            if nm == "smoothed" and t < last_ill:
                continue
            w, s = psd(X, "%s covariance at %d" % (nm, t), info, scale=slack)
            ref_s = max(s, np.abs(P[t]).max(), slack)
            if w < -1e-7 * ref_s:
                raise Fail("%s covariance at %d has eigenvalue %.3g %s" % (nm, t, w, info))
        pred = np.asarray(m["P0"], float) if t == 0 else \
            ref.at(m["A"], t - 1, 2) @ P[t - 1] @ ref.at(m["A"], t - 1, 2).T + ref.at(m["Q"], t - 1, 2)
        w, s = psd(pred - P[t], "predicted - filtered", info, tol=1e-7, scale=np.abs(pred).max())
        if w < -1e-7 * np.abs(pred).max():
            raise Fail("filtered covariance at %d exceeds the predicted one (%.3g) %s" % (t, w, info))
        if t < last_ill:
            continue
        d = P[t] - Ps[t]
        w = np.linalg.eigvalsh((d + d.T) / 2)[0]
        if w < -1e-6 * np.abs(P[t]).max():
            raise Fail("smoothed covariance at %d exceeds the filtered one (%.3g) %s" % (t, w, info))
    over, want = online_case(r, m, cls, 0)
    mean, cov = r.normal(size=m["n"]), spd(r, m["n"], m["scale"])
    prior = want(mean, cov, None)[1]
    a, b = guarded(lambda: kf.filter_update(mean, cov, z[0], **over), "filter_update", info)
    b = np.asarray(b, float)
    w, s = psd(b, "online covariance", info)
    if w < -1e-7 * s:
        raise Fail("online covariance has eigenvalue %.3g %s" % (w, info))
    w, s = psd(prior - b, "prediction - online covariance", info, tol=1e-7, scale=np.abs(prior).max())
    if w < -1e-7 * np.abs(prior).max():
        raise Fail("online covariance exceeds the prediction %s" % info)


# ------------------------------------------------------------------ P21
def P21(idx, seed):
    cls = list(LIN)[idx % 3]
    j = idx // 3
    r = rng_for("P21", idx, seed)
    integer = r.random() < .15
    m = model(r, T=int(r.choice([2, 3, 4])), tv="", stable=True, integer=integer)
    T = m["T"]
    ok = "AbCdQR" if cls == "standard" else "AbCd"
    subs = list(ok) + [ok]
    sub = subs[j % len(subs)] if j < len(subs) else "".join(c for c in ok if r.random() < .5)
    if cls == "bierman" and "d" in sub and False:
        sub = sub.replace("d", "")
    m2 = dict(m)
    for k in sub:
        m2[k] = np.array([m[k]] * (T - 1 if k in "AbQ" else T))
    Z, z, mk, kind = observations(r, m, integer=integer)
    info = desc(m, cls=cls, repeated=sub, mask=kind, integer=integer)
    a, b = LIN[cls](**params(r, m)), LIN[cls](**params(r, m2))
    for op in ("filter", "smooth"):
        x = guarded(lambda: getattr(a, op)(Z), op, info)
        y = guarded(lambda: getattr(b, op)(Z), op + " with repeated parameters", info)
        for u, v in zip(x, y):
            close(v, u, "%s: constant vs repeated %s" % (op, sub), info, rtol=1e-9)
    close(np.float64(guarded(lambda: b.loglikelihood(Z), "loglikelihood", info)),
          np.float64(a.loglikelihood(Z)), "loglikelihood: constant vs repeated %s" % sub, info, rtol=1e-9)
    x, y = a.sample(T, random_state=3), guarded(lambda: b.sample(T, random_state=3), "sample", info)
    for u, v in zip(x, y):
        close(v, np.asarray(u), "sample: constant vs repeated %s" % sub, info, rtol=1e-9)


# ------------------------------------------------------------------ P22
def P22(idx, seed):
    cls = "standard"
    r, m, Z, z, mk, info, sel, full = em_case("P22", idx, seed, tv="", integer=False,
                                              T=int(rng_for("P22t", idx, seed).choice([3, 5, 6, 9])))
    kf = KalmanFilter(**params(r, m))
    mm = m
    for it in range(3):
        if not (cov_ok(mm, m["T"]) and well_conditioned(mm, z, mk, full)):
            return "skip" if it == 0 else None
        l0 = kf.loglikelihood(Z)
        guarded(lambda: kf.em(Z, n_iter=1, em_vars=None if sel == "default" else sel), "em", info)
        nxt = {k: getattr(kf, nm) for k, nm in PARAM.items()}
        mm = dict(mm, **nxt)
        if not cov_ok(mm, m["T"]):
            return None
        l1 = kf.loglikelihood(Z)
        if not l1 >= l0 - 1e-6 * (1 + abs(l0)):
            raise Fail("EM iteration %d lowered the log-likelihood from %.10g to %.10g %s" % (
                it + 1, l0, l1, info))


ORACLES = {k: v for k, v in globals().items() if k.startswith("P") and k[1:].isdigit()}
