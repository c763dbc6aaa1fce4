"""P26 Every call's result depends only on its arguments."""
import gc

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.apiref import Reference, objective
from harness.core import Sub, close, expect, flat
from harness.post import identity_model
from harness.props.p10 import evidence, total_loss
from harness.props.p11 import nll
from harness.props.p18 import Loader
from laplax.api import GGN, calibration, evaluation, laplace
from laplax.curv.cov import create_posterior_fn, estimate_curvature, set_posterior_fn
from laplax.curv.ggn import create_ggn_mv
from laplax.curv.hessian import create_hessian_mv
from laplax.curv.utils import LowRankTerms
from laplax.eval import marginal_log_likelihood
from laplax.eval.pushforward import (
    lin_pred_cov,
    lin_pred_mean,
    lin_pred_var,
    lin_samples,
    lin_setup,
    nonlin_pred_mean,
    nonlin_pred_var,
    nonlin_samples,
    nonlin_setup,
    set_lin_pushforward,
    set_nonlin_pushforward,
    set_posterior_gp_kernel,
)
from laplax.eval.utils import apply_fns, evaluate_metrics_on_dataset, evaluate_metrics_on_generator
from laplax.util.flatten import create_pytree_flattener
from laplax.util.loader import DataLoaderMV, reduce_add
from laplax.util.mv import diagonal, to_dense

RULE = (
    "Cases: histories of 4-8 library calls over 2-3 workspaces of identical shapes (different model "
    "functions, parameters, data, curvatures), with user buffers and dictionaries refilled in place, "
    "model functions kept or recreated and collected, losses and metrics made by one factory, results kept and used again after the other "
    "calls; oracle: the numpy result of every call by itself. Non-trivial: two workspaces (or one with the same call for other arguments) used and "
    "a result used again later."
)
ASSUMPTIONS = [
    "numpy linear algebra; closed-form Jacobians of the generated models",
    "a buffer is refilled only after the results of the calls that got it were read",
]


class Space:
    """One model with data and curvature; all spaces of a case have the same shapes."""

    def __init__(self, spec, i, shared):
        seed = spec["seed"] + 7919 * i
        ms = spec["model"]
        self.m = m = gen.Model({**ms, "seed": (ms["seed"] + (0 if spec["same_fn"] else 31 * i)) % 2**31})
        if i:
            m.v = gen.vec(m.P, seed) * 0.7
        self.n = n = spec["n"]
        self.X = m.inputs(n, seed)
        self.Y = gen.targets(m, n, "mse", seed)
        self.C = gen.psd(m.P, m.P, seed, "random") + 0.1 * np.eye(m.P)
        self.seed, self.shared, self._fn, self._pred = seed, shared, None, None

    def fn(self, kept):
        """The model function: one object for good, the object shared by all, or a new one."""
        if "fn" in self.shared:
            return self.shared["fn"]
        if not kept:
            return self.m.fn()
        if self._fn is None:
            self._fn = self.m.fn()
        return self._fn

    def pred(self, kept):
        """A predictive: one object for good or a new one per call."""
        fn, params = self.fn(kept), self.m.params

        def pred(x):
            return {"pred_mean": fn(input=x, params=params)}
        if not kept:
            return pred
        if self._pred is None:
            self._pred = pred
        return self._pred

    def data(self, how):
        """(input, target): fresh arrays or the user's buffers, refilled."""
        if how == "jax":
            return jnp.asarray(np.array(self.X)), jnp.asarray(np.array(self.Y))
        b = self.shared["buffers"]
        b[0][...], b[1][...] = self.X, self.Y
        return b

    def cov(self, C, tau):
        return np.linalg.inv(C + tau * np.eye(self.m.P))


class Ref:
    """What harness.apiref.Reference needs of a posterior."""

    def __init__(self, fn, curvature):
        self.fn, self.curvature = fn, curvature


def ok(a, e, what, rtol=1e-7, scale=1.0):
    close(a, e, what, rtol=rtol, scale=max(scale, float(np.abs(np.asarray(e)).max(initial=0.0))))


# Each operation returns a function that compares its result with numpy (called at once and
# possibly again at the end of the history).

def op_ggn(w, s, fn, data):
    X, Y = data
    v = gen.vec(w.m.P, s["seed"])
    G = gen.ggn(w.m, w.X, "mse")
    mv = create_ggn_mv(fn, w.m.params, {"input": jnp.array(X), "target": jnp.array(Y)}, loss_fn="mse",
                       num_curv_samples=1, num_total_samples=1)
    return lambda: ok(flat(mv(w.m.tree(v))), G @ v, "GGN product", scale=w.m.jac_scale(w.X))


def op_api_ggn(w, s, fn, data):
    X, Y = (jnp.array(d) for d in data)
    v = gen.vec(w.m.P, s["seed"])
    G = gen.ggn(w.m, w.X, "mse")
    cut = max(1, w.n // 2)
    d = Loader([(X[:cut], Y[:cut]), (X[cut:], Y[cut:])] if cut < w.n else [(X, Y)])
    mv = GGN(fn, w.m.params, d, "mse")
    return lambda: ok(flat(mv(w.m.tree(v))), G @ v, "GGN product over batches", scale=w.m.jac_scale(w.X))


def op_hess(w, s, fn, data):
    X, Y = data
    v = gen.vec(w.m.P, s["seed"])
    H = gen.loss_hessian(w.m, w.X, w.Y, "mse")
    mv = create_hessian_mv(fn, w.m.params, {"input": jnp.array(X), "target": jnp.array(Y)}, loss_fn="mse")
    return lambda: ok(flat(mv(w.m.tree(v))), H @ v, "Hessian product", scale=w.m.jac_scale(w.X) + np.abs(H).sum())


def curvature(w, s):
    """(name, estimate, matrix)"""
    if s["diag"]:
        d = np.diag(w.C).copy()
        return "diagonal", jnp.asarray(d), np.diag(d)
    if s["low"]:
        e, U = np.linalg.eigh(w.C)
        return "lanczos", LowRankTerms(U=jnp.asarray(U), S=jnp.asarray(e), scalar=jnp.asarray(0.0)), w.C
    return "full", jnp.asarray(w.C), w.C


def prior(w, s):
    """The caller's dictionary, filled anew."""
    p = w.shared["prior"] if s["buf"] else {}
    p.clear()
    p["prior_prec"] = s["tau"]
    return p


def op_posterior(w, s, fn, data):
    ct, est, C = curvature(w, s)
    v = gen.vec(w.m.P, s["seed"])
    pf = set_posterior_fn(ct, est, layout=w.m.params)
    S = w.cov(C, s["tau"])
    first = pf(prior(w, s))

    def check():
        for po in (first, pf({"prior_prec": s["tau"]})):
            ok(flat(po.cov_mv(po.state)(w.m.tree(v))), S @ v, f"covariance product ({ct})")
            L = np.stack([flat(po.scale_mv(po.state)(w.m.tree(e))) for e in np.eye(w.m.P)], axis=1)
            ok(L @ L.T, S, f"scale S S^T ({ct})")
    return check


def op_operator(w, s, fn, data):
    """Estimation and posterior of a matrix given as a product."""
    ct = "diagonal" if s["diag"] else "full"
    Cj = jnp.asarray(w.C)
    mv = lambda t: w.m.tree_j(Cj @ jnp.concatenate([jnp.ravel(l) for l in jax.tree.leaves(t)]))  # noqa: E731
    est = estimate_curvature(ct, mv, layout=w.m.params)
    pf = create_posterior_fn(ct, mv, layout=w.m.params)
    C = np.diag(np.diag(w.C)) if s["diag"] else w.C
    v = gen.vec(w.m.P, s["seed"])
    S = w.cov(C, s["tau"])

    def check():
        ok(np.asarray(est), np.diag(w.C) if s["diag"] else w.C, f"estimate ({ct})")
        po = pf(prior(w, s))
        ok(flat(po.cov_mv(po.state)(w.m.tree(v))), S @ v, f"covariance product of an operator ({ct})")
        ok(diagonal(mv, layout=w.m.params), np.diag(w.C), "diagonal of an operator")
    return check


def op_dense(w, s, fn, data):
    Cj = jnp.asarray(w.C)
    mv = lambda v: Cj @ v  # noqa: E731
    B = np.asarray(data[0]).reshape(w.n, -1)
    A = jnp.array(B.T @ B)
    st_ = DataLoaderMV(lambda vec, data: data["input"].reshape(w.n, -1).T @ (data["input"].reshape(w.n, -1) @ vec),
                       [(jnp.array(B), jnp.array(B))], reduce=reduce_add)

    def check():
        ok(to_dense(mv, layout=w.m.P), w.C, "dense form")
        ok(diagonal(mv, layout=w.m.P), np.diag(w.C), "diagonal")
        Bx = w.X.reshape(w.n, -1)
        ok(A, Bx.T @ Bx, "copied buffer")
        u = gen.vec(Bx.shape[1], s["seed"])
        ok(st_(jnp.asarray(u)), Bx.T @ (Bx @ u), "streamed product")
    return check


def op_laplace(w, s, fn, data):
    X, Y = data
    ct = "diagonal" if s["diag"] else "full"
    d = {"input": X, "target": Y} if s["seed"] % 2 else (X, Y)
    post, est = laplace(fn, w.m.params, d, loss_fn="mse", curv_type=ct)
    G = gen.ggn(w.m, w.X, "mse")
    sc = w.m.jac_scale(w.X)
    C = np.diag(np.diag(G)) if s["diag"] else G
    S = w.cov(C, s["tau"])
    v = gen.vec(w.m.P, s["seed"])
    jax.block_until_ready(est)
    cond = 1 + 2 * sc / s["tau"]

    def check():
        ok(est, np.diag(G) if s["diag"] else G, f"fitted curvature ({ct})", scale=sc)
        po = post(prior(w, s))
        ok(flat(po.cov_mv(po.state)(w.m.tree(v))), S @ v, f"covariance product of a fit ({ct})",
           rtol=1e-9 * (10 + cond), scale=1.0 / s["tau"])
    return check


def predictive(w, s, fn, lin):
    ct, est, C = curvature(w, s)
    pf = set_posterior_fn(ct, est, layout=w.m.params)
    # no key: the documented default
    key, N = (jax.random.key(s["seed"] % 5) if s["seed"] % 3 else None), 3
    if lin:
        p = set_lin_pushforward(fn, w.m.params, pf, prior(w, s), 1.0,
                                [lin_setup, lin_pred_mean, lin_pred_var, lin_pred_cov, lin_samples],
                                key=key, num_samples=N)
    else:
        p = set_nonlin_pushforward(fn, w.m.params, pf, prior(w, s),
                                   pushforward_fns=[nonlin_setup, nonlin_pred_mean, nonlin_pred_var,
                                                    nonlin_samples], key=key, num_samples=N)
    return p, pf, C, key, N


def op_linear(w, s, fn, data):
    p, pf, C, key, N = predictive(w, s, fn, True)
    p = jax.jit(p) if s["jit"] else p
    S = w.cov(C, s["tau"])
    old = {}

    def check():
        for i, x in enumerate(np.array(w.X[:2])):
            r = p(jnp.asarray(x))
            J = w.m.jac(x)
            K = J @ S @ J.T
            f = w.m.f(x)
            ok(np.ravel(r["map"]), f, "map")
            ok(np.ravel(r["pred_mean"]), f, "linearised mean")
            ok(np.ravel(r["pred_var"]), np.diag(K), "linearised variance", scale=float(np.abs(J).max() ** 2))
            ok(np.asarray(r["pred_cov"]).reshape(K.shape), K, "linearised covariance",
               scale=float(np.abs(J).max() ** 2))
            sm = np.asarray(r["samples"])
            ident = set_lin_pushforward(identity_model(None), w.m.params, pf, {"prior_prec": s["tau"]}, 1.0,
                                        [lin_setup, lin_samples], key=key, num_samples=N)
            draws = np.asarray(ident(jnp.zeros(1))["samples"]) - w.m.v
            ok(sm.reshape(N, -1), f + draws @ J.T, "linearised samples", scale=1 + float(np.abs(J).max()))
            if i in old:
                ok(sm, old[i], "samples of an earlier predictive", rtol=1e-12)
            old[i] = sm
    return check


def op_sampled(w, s, fn, data):
    p, pf, C, key, N = predictive(w, s, fn, False)
    p = jax.jit(p) if s["jit"] else p

    def check():
        ident = set_nonlin_pushforward(identity_model(None), w.m.params, pf, {"prior_prec": s["tau"]},
                                       pushforward_fns=[nonlin_setup, nonlin_samples], key=key, num_samples=N)
        ws = np.asarray(ident(jnp.zeros(1))["samples"])
        x = np.array(w.X[0])
        r = p(jnp.asarray(x))
        nz = w.m.noise([x], np.abs(w.m.v) + 4)
        ok(np.ravel(r["map"]), w.m.f(x), "map (sampled)", scale=nz)
        F = np.stack([w.m.f(x, v) for v in ws[:N]])
        ok(np.asarray(r["samples"]).reshape(-1, w.m.K)[:len(F)], F, "network samples", scale=nz)
        ok(np.ravel(r["pred_mean"]), F.mean(0), "sampled mean", scale=nz)
        ok(np.ravel(r["pred_var"]), F.var(0), "sampled variance", scale=nz ** 2)
    return check


def op_kernel(w, s, fn, data):
    ct, est, C = curvature(w, s)
    k, ds = set_posterior_gp_kernel(fn, w.m.params, set_posterior_fn(ct, est, layout=w.m.params), prior(w, s), 1.0)
    S = w.cov(C, s["tau"])
    a, b = np.array(w.X[0]), np.array(w.X[-1])
    J1, J2 = w.m.jac(a), w.m.jac(b)

    def check():
        v = gen.vec(w.m.K, s["seed"])
        ok(np.ravel(k(jnp.asarray(v.reshape(w.m.oshape)), jnp.asarray(a), jnp.asarray(b), ds)), J1 @ S @ J2.T @ v,
           "kernel product", scale=float(np.abs(J1).max() * np.abs(J2).max()))
    return check


def op_evidence(w, s, fn, data):
    ct, est, C = curvature(w, s)
    X, Y = data
    p = {"tau": s["tau"], "sigma": None, "s2": None, "ls": 1.0}
    L = total_loss(w.m, w.X, w.Y, "mse", w.seed)
    e = evidence(L, w.m.v, C, p)
    d = {"input": jnp.array(X), "target": jnp.array(Y)}
    sc = abs(L) + s["tau"] * w.m.v @ w.m.v + 10 * w.m.P

    def check():
        ok(marginal_log_likelihood(est, prior(w, s), d, fn, w.m.params, "mse", ct, vmap_over_data=True), e,
           f"evidence ({ct})", scale=sc)
    return check


def reference(w, pf, C):
    return Reference(w.m, Ref(pf, C), "linear", "none", jax.random.key(0), 3)


def op_evaluation(w, s, fn, data):
    X, Y = data
    ct, est, C = curvature(w, s)
    pf = set_posterior_fn(ct, est, layout=w.m.params)
    res, pred = evaluation(pf, fn, w.m.params, prior(w, s), {"input": X, "target": Y})
    res = {k: np.array(v) for k, v in res.items()}

    def check():
        p = reference(w, pf, C)(w.X, {"prior_prec": s["tau"]})
        if p["pred_std"].min() < 1e-4:
            return
        y = w.Y.reshape(w.n, -1)
        ok(res["rmse"], np.sqrt(np.mean((p["pred_mean"] - y) ** 2, axis=1)), "rmse of an evaluation", rtol=1e-6)
        ok(res["nll"], np.mean(nll(p["pred_mean"], p["pred_std"], y), axis=1), "nll of an evaluation", rtol=1e-6)
        r = pred(jnp.asarray(np.array(w.X[0])))
        ok(np.ravel(r["pred_std"]), p["pred_std"][0], "returned predictive", rtol=1e-6)
    return check


def op_calibration(w, s, fn, data):
    X, Y = data
    ct, est, C = curvature(w, s)
    pf = set_posterior_fn(ct, est, layout=w.m.params)
    obj = ["nll", "chi_squared", "marginal_log_likelihood"][s["seed"] % 3]
    got, make = calibration(pf, fn, w.m.params, (X, Y), loss_fn="mse", curv_estimate=est, curv_type=ct,
                            calibration_objective=obj, log_prior_prec_min=-1.0, log_prior_prec_max=2.0, grid_size=5)
    grid = np.logspace(-1, 2, 5)

    def check():
        ref = reference(w, pf, C)
        if min(ref(w.X, {"prior_prec": t})["pred_std"].min() for t in grid) < 1e-4:
            return
        vals = [objective(ref, obj, w.X, w.Y, None, {"prior_prec": t}, "mse", w.seed) for t in grid]
        i = int(np.argmin(np.abs(np.log(grid) - np.log(float(got["prior_prec"])))))
        ok(float(got["prior_prec"]), grid[i], "calibrated prior precision on the grid")
        # the search stops early after patience; the library's default leaves a full grid of 5
        best = min(v for v, _ in vals)
        expect(vals[i][0] <= best + 1e-6 * max(sz for _, sz in vals),
               f"calibration returned {grid[i]} with {obj} {vals[i][0]}, best is {best}")
        r = make(prior_arguments=got)(jnp.asarray(np.array(w.X[0])))
        p = ref(w.X[:1], {"prior_prec": grid[i]})
        ok(np.ravel(r["pred_std"]), p["pred_std"][0], "calibrated predictive", rtol=1e-6)
    return check


# Functions made by one factory: same name, same code, other constants.

def make_loss(c):
    return lambda pred, target: c * jnp.sum((pred - target) ** 2)


def make_hessian(c):
    def loss_hessian_mv(jv, pred, target):
        return c * jv
    return loss_hessian_mv


def make_metric(c):
    def metric(pred_mean, target, **kwargs):
        return c * jnp.sum(pred_mean - target)
    return metric


def factor(w, s):
    return 0.5 + (s["seed"] + w.seed // 7919) % 9


def op_custom_loss(w, s, fn, data):
    X, Y = (jnp.array(d) for d in data)
    c, v, d = factor(w, s), gen.vec(w.m.P, s["seed"]), {"input": X, "target": Y}
    G, H = gen.ggn(w.m, w.X, "mse"), gen.loss_hessian(w.m, w.X, w.Y, "mse")
    kw = {"num_curv_samples": 1, "num_total_samples": 1}
    mvs = [(create_ggn_mv(fn, w.m.params, d, loss_fn=make_loss(c), **kw), c * G, "GGN product, custom loss"),
           (create_ggn_mv(fn, w.m.params, d, loss_hessian_mv=make_hessian(c), **kw), c / 2 * G,
            "GGN product, custom loss Hessian"),
           (create_hessian_mv(fn, w.m.params, d, loss_fn=make_loss(c)), c * H, "Hessian product, custom loss")]
    post, est = laplace(fn, w.m.params, d, loss_fn=make_loss(c), curv_type="full")
    ct, cest, C = curvature(w, s)
    q = {"tau": s["tau"], "sigma": None, "s2": None, "ls": 1.0}
    L = c * total_loss(w.m, w.X, w.Y, "mse", w.seed)
    e, sc = evidence(L, w.m.v, C, q), abs(L) + s["tau"] * w.m.v @ w.m.v + 10 * w.m.P
    js = c * w.m.jac_scale(w.X)

    def check():
        for mv, M, what in mvs:
            ok(flat(mv(w.m.tree(v))), M @ v, what, scale=js + np.abs(M).sum())
        ok(est, c * G, "fitted curvature, custom loss", scale=js)
        ok(marginal_log_likelihood(cest, prior(w, s), d, fn, w.m.params, make_loss(c), ct, vmap_over_data=True), e,
           "evidence, custom loss", scale=sc)
    return check


def op_metrics(w, s, fn, data):
    X, Y = (jnp.array(d) for d in data)
    c, d, cut = factor(w, s), {"input": X, "target": Y}, max(1, w.n // 2)
    pred = w.pred(s["kept"])
    md = {"m": make_metric(c), "k": make_metric(-c)}
    ml = [apply_fns(make_metric(2 * c), names=["l"], pred_mean="pred_mean", target="target")]
    kinds = [{"metrics_dict": md}, {"metrics": ml}, {"metrics": ml, "metrics_dict": md}]
    parts = [{"input": a, "target": b} for a, b in ((X[:cut], Y[:cut]), (X[cut:], Y[cut:])) if len(a)]
    gen_ = lambda kw: evaluate_metrics_on_generator(pred, iter(parts), reduce=jnp.concatenate, **kw)  # noqa: E731
    first = [{k: np.array(v) for k, v in gen_(kw).items()} for kw in kinds]
    base = np.array([np.sum(w.m.f(x) - np.ravel(y)) for x, y in zip(w.X, w.Y, strict=True)])
    sc = c * (w.m.noise(w.X) + np.abs(w.Y).sum())

    def check():
        for kw, res1 in zip(kinds, first, strict=True):
            want = ({"m": c, "k": -c} if "metrics_dict" in kw else {}) | ({"l": 2 * c} if "metrics" in kw else {})
            for res, what in ((res1, "generator"), (gen_(kw), "generator again"),
                              (evaluate_metrics_on_dataset(pred, d, **kw), "dataset")):
                expect(set(res) == set(want), f"metrics {sorted(res)}")
                for k, f in want.items():
                    ok(res[k], f * base, f"metric {k} ({what})", scale=sc)
    return check


def op_flatten(w, s, fn, data):
    f, u = create_pytree_flattener(w.m.params)
    v = gen.vec(w.m.P, s["seed"])

    def check():
        ok(f(w.m.params), w.m.v, "flattened parameters")
        ok(flat(u(jnp.asarray(v))), v, "restored parameters")
    return check


OPS = {k[3:]: f for k, f in list(globals().items()) if k.startswith("op_")}


def run_history(spec):
    shared = {"prior": {}}
    spaces = [Space(spec, i, shared) for i in range(spec["spaces"])]
    m = spaces[0].m
    for w in spaces:
        tspec = w.m.spec["tree"]

        def tree_j(v, tspec=tspec):
            leaves, i = [], 0
            for sh in gen.ordered_shapes(tspec):
                k = int(np.prod(sh))
                leaves.append(v[i:i + k].reshape(sh))
                i += k
            return gen.build_tree(tspec, leaves)
        w.m.tree_j = tree_j
    if spec["same_fn"]:
        shared["fn"] = m.fn()
    shared["buffers"] = (np.zeros((spec["n"], *m.xshape)), np.zeros((spec["n"], *m.oshape)))
    held, used = [], set()
    for k, s in enumerate(spec["ops"]):
        w = spaces[s["ws"] % len(spaces)]
        used.add(s["ws"] % len(spaces))
        name = s["op"]
        check = OPS[name](w, s, w.fn(s["kept"]), w.data("buf" if s["buf"] else "jax"))
        check()
        if s["hold"]:
            held.append((k, name, check))
        del check
        if s["gc"]:
            gc.collect()
    for b in shared["buffers"]:
        b[...] = 0.0
    shared["prior"].clear()
    for k, name, check in (held if spec["forward"] else held[::-1]):
        check()
    return (len(used) > 1 or spec["spaces"] == 1) and bool(held)


small = gen.model_specs(max_total=7, max_out=3)
ops = st.fixed_dictionaries({
    "op": st.sampled_from(sorted(OPS)), "ws": st.integers(0, 2), "seed": gen.seeds, "tau": gen.log_floats(0.1, 20),
    "diag": st.booleans(), "low": st.booleans(), "buf": st.booleans(), "kept": st.sampled_from([True, True, False]), "hold": st.booleans(), "gc": st.booleans(),
    "jit": st.booleans()})
# the same call for all workspaces in turn, or several times for one of them
repeated = st.tuples(st.lists(ops, min_size=1, max_size=3), st.integers(2, 3)).map(
    lambda t: [{**o, "ws": i} for o in t[0] for i in range(t[1])])
again = st.tuples(st.lists(ops, min_size=2, max_size=3), st.lists(gen.seeds, min_size=2, max_size=3)).map(
    lambda t: [{**o, "seed": s} for o in t[0] for s in t[1]])
case = {"model": small, "seed": gen.seeds, "n": st.integers(1, 4), "spaces": st.integers(2, 3),
        "same_fn": st.booleans(), "forward": st.booleans(), "x64": st.just(True)}
SUBS = [
    Sub("history", st.fixed_dictionaries({
        **case, "ops": st.one_of(st.lists(ops, min_size=4, max_size=8), repeated)}), run_history, quick=110),
    Sub("again", st.fixed_dictionaries({**case, "spaces": st.just(1), "ops": again}), run_history, quick=80),
]
