"""P23 Performance options never change results."""
import warnings
from functools import partial

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.apiref import model_any
from harness.core import Sub, close, expect, flat, same_structure
from harness.post import Post, post_specs
from harness.props.p05 import operator, shapes_for
from harness.props.p18 import Loader
from laplax import api
from laplax.api import GGN, calibration, evaluation, laplace
from laplax.curv.cov import create_posterior_fn, estimate_curvature
from laplax.curv.ggn import create_ggn_mv
from laplax.curv.hessian import create_hessian_mv
from laplax.curv.lanczos import lanczos_lowrank
from laplax.curv.lobpcg import lobpcg_lowrank
from laplax.curv.utils import LowRankTerms
from laplax.eval import evaluate_for_given_prior_arguments, marginal_log_likelihood
from laplax.eval.pushforward import (
    get_dist_state,
    lin_mc_pred_act,
    lin_pred_cov,
    lin_pred_mean,
    lin_pred_std,
    lin_pred_var,
    lin_samples,
    lin_setup,
    nonlin_mc_pred_act,
    nonlin_pred_cov,
    nonlin_pred_mean,
    nonlin_pred_std,
    nonlin_pred_var,
    nonlin_samples,
    nonlin_setup,
    set_lin_pushforward,
    set_nonlin_pushforward,
    set_posterior_gp_kernel,
)
from laplax.eval.utils import apply_fns, evaluate_metrics_on_dataset, evaluate_on_dataset, transfer_entry
from laplax.register import register_calibration_method
from laplax.util.mv import diagonal, to_dense
from laplax.util.ops import precompute_list

RULE = (
    "Cases: formula models and random operators, posteriors of all types, 1-11 (sometimes up to 130) weight samples, "
    "1-9 (sometimes up to 60) points, 1-3 random option settings per case (batch sizes from 1 to beyond the number of "
    "items under their specific and general names, precomputation, jit options, compilation of the "
    "caller, vmap/map/loop over inputs); relation: the same call without any option. "
    "Non-trivial: at least two items and an option that differs from the default."
)
ASSUMPTIONS = [
    "the plain calls are compared with numpy by the other properties",
    "low-rank methods are compared where their result is determined (rank below the operator's)",
]


def same(a, b, what, x64, rtol=None, scale=1.0):
    """Two results (pytrees / dictionaries) are equal up to rounding."""
    same_structure(a, b, what)
    rtol = rtol or (1e-9 if x64 else 2e-4)
    if isinstance(a, dict):
        expect(list(sorted(a)) == list(sorted(b)), f"{what}: entries {sorted(a)} / {sorted(b)}")
        for k in a:
            same(a[k], b[k], f"{what}[{k}]", x64, rtol, scale)
        return
    for x, y in zip(jax.tree.leaves(a), jax.tree.leaves(b), strict=True):
        close(x, y, what, rtol=rtol, scale=scale)
        expect(getattr(x, "dtype", None) == getattr(y, "dtype", None),
               f"{what}: dtype {getattr(x, 'dtype', None)}, without options {getattr(y, 'dtype', None)}")


def root(name, res):
    """Deviations are compared as variances (cancellation near zero)."""
    return {k: (np.square(v) if "std" in k else v) for k, v in res.items()} if isinstance(res, dict) else res


WEIGHT_OPTS = ["weight_batch_size", "own", "precompute_list_batch_size", "precompute",
               "set_get_weight_sample_precompute", "data_batch_size", "mv_jittable"]


def weight_kwargs(opts, own):
    kw = {}
    for k, v in opts.items():
        if v is None:
            continue
        kw[own if k == "own" else k] = v
    return kw


def run_push(spec):
    m = gen.Model(spec["model"])
    po = Post(spec["post"], m)
    N, x64 = spec["N"], spec["x64"]
    lin = spec["lin"]
    X = jnp.asarray(m.inputs(spec["n"], spec["seed"]))
    table = ({"mean": lin_pred_mean, "var": lin_pred_var, "std": lin_pred_std, "cov": lin_pred_cov,
              "samples": lin_samples, "mc": lin_mc_pred_act} if lin else
             {"mean": nonlin_pred_mean, "var": nonlin_pred_var, "std": nonlin_pred_std, "cov": nonlin_pred_cov,
              "samples": partial(nonlin_samples, num_samples=N), "mc": nonlin_mc_pred_act})
    stats = [s for s in spec["stats"] if (s != "mc" or len(m.oshape) == 1) and (s != "cov" or N > 1 or lin)]
    fns = [lin_setup if lin else nonlin_setup] + [table[s] for s in stats]
    make = set_lin_pushforward if lin else set_nonlin_pushforward

    def build(kw):
        return make(model_fn=m.fn(), mean_params=m.params, posterior_fn=po.fn, prior_arguments=po.prior,
                    loss_scaling_factor=po.ls, pushforward_fns=fns, key=jax.random.key(spec["seed"] % 71),
                    num_samples=N, **kw)

    pf = build({})
    ref = [pf(x) for x in X]
    ref = jax.tree.map(lambda *a: np.stack(a), *ref)
    big = max(1.0, *(float(np.abs(v).max()) for v in ref.values()))
    scale = big ** (2 if not lin else 1)
    interesting = False
    for o in spec["options"]:
        kw = weight_kwargs(o["opts"], "lin_samples_batch_size" if lin else "nonlin_setup_batch_size")
        interesting |= bool(kw) or o["how"] != "loop"
        label = f"predictive with {kw} ({o['how']}, {N} samples)"
        how = o["how"]
        if how == "jit_build":  # everything inside one compiled function
            res = jax.jit(lambda X, kw=kw: jax.lax.map(build(kw), X))(X)
        else:
            f = build(kw)
            if how == "vmap":
                res = jax.vmap(f)(X)
            elif how == "map":
                res = jax.lax.map(f, X, batch_size=o["mb"])
            else:
                g = jax.jit(f) if how == "jit" else f
                res = jax.tree.map(lambda *a: jnp.stack(a), *[g(x) for x in X])
        same(root("", dict(res)), root("", ref), label, x64, rtol=1e-8 if x64 else 1e-3, scale=scale)
    return interesting and N > 1


def run_weights(spec):
    """Weight draws of a posterior with and without precomputation."""
    m = gen.Model(spec["model"])
    po = Post(spec["post"], m)
    N, x64 = spec["N"], spec["x64"]
    post = po.fn(po.prior, po.ls)

    def draws(kw, jit):
        f = get_dist_state(m.params, m.fn(), post, linearized=spec["lin"], num_samples=N,
                           key=jax.random.key(5), **kw)["get_weight_samples"]
        f = jax.jit(f) if jit else f
        return np.stack([flat(f(i)) for i in range(N)])

    ref = draws({}, False)
    for o in spec["options"]:
        kw = {k: v for k, v in o["opts"].items() if v is not None and k in (
            "precompute", "set_get_weight_sample_precompute", "precompute_list_batch_size")}
        close(draws(kw, o["how"] == "jit"), ref, f"weight draws with {kw}", x64=x64, rtol=1e-9 if x64 else 1e-4,
              scale=1.0)
    if N > 1 and po.cov().max() > 1e-8:
        expect(not np.allclose(ref[0], ref[1], rtol=1e-6, atol=0), "two draws are the same")
    return N > 1


def run_precompute(spec):
    """precompute_list: element i of the list, computed before or on demand."""
    N, x64 = spec["N"], spec["x64"]
    A = gen.vec(N * 3, spec["seed"]).reshape(N, 3)
    Aj = jnp.asarray(A)

    def func(i):
        return {"a": Aj[i] * (i + 1), "b": (jnp.sum(Aj[i]), i)}

    for o in spec["options"]:
        kw = {}
        if o["opts"].get("precompute") is not None:
            kw["precompute"] = o["opts"]["precompute"]
        if o["opts"].get("precompute_list_batch_size"):
            kw["precompute_list_batch_size"] = o["opts"]["precompute_list_batch_size"]
        get = precompute_list(func, jnp.arange(N), **kw)
        order = np.random.default_rng(spec["seed"]).permutation(N)
        for i in order:
            e = get(jnp.asarray(i)) if o["how"] != "jit" else jax.jit(get)(int(i))
            close(e["a"], A[i] * (i + 1), f"element {i} of {N} with {kw}", x64=x64, scale=1.0)
            close(e["b"][0], A[i].sum(), f"element {i} of {N} with {kw}", x64=x64, scale=3.0)
            expect(int(e["b"][1]) == i, f"element {i} is the element of {int(e['b'][1])}")
        out = jax.vmap(get)(jnp.arange(N))
        close(out["a"], A * np.arange(1, N + 1)[:, None], f"all elements with {kw}", x64=x64, scale=1.0)
    return N > 1


def run_operators(spec):
    P, x64 = spec["P"], spec["x64"]
    A = np.random.default_rng([spec["seed"], 3]).normal(size=(P, P))
    op, layout = operator(A, "flat" if spec["form"] == "array" else spec["form"], shapes_for(P))
    d0 = diagonal(op, layout=layout)
    close(d0, np.diag(A), "diagonal", x64=x64, scale=1.0)
    M0 = to_dense(op, layout=layout)
    for o in spec["options"]:
        kw = {} if o["db"] is None else {"diagonal_batch_size": o["db"]}
        if o["mvj"] is not None:
            kw["mv_jittable"] = o["mvj"]
        f = lambda kw=kw: diagonal(op, layout=layout, **kw)  # noqa: E731
        same((jax.jit(f) if o["jit"] else f)(), d0, f"diagonal with {kw}", x64)
        tk = {} if o["tb"] is None else {"to_dense_batch_size": o["tb"]}
        f = lambda tk=tk: to_dense(op, layout=layout, **tk)  # noqa: E731
        same((jax.jit(f) if o["jit"] else f)(), M0, f"dense matrix with {tk}", x64)
    return P > 1


def dense_terms(t):
    U, S = np.asarray(t.U, float), np.asarray(t.S, float)
    return (U * S) @ U.T + float(t.scalar) * np.eye(len(U))


def run_lowrank(spec):
    """Low-rank methods with and without compiled products (as options and around the call)."""
    x64, k = spec["x64"], spec["k"]
    lob = spec["method"] == "lobpcg"
    P = 5 * k + 1 + spec["extra"] if lob else k + spec["extra"]
    r = np.random.default_rng([spec["seed"], 31])
    q, _ = np.linalg.qr(r.normal(size=(P, P)))
    ev = 4.0 * 0.55 ** np.arange(P) if lob else 1.0 + np.arange(P) + 0.2 * r.uniform(size=P)
    A = (q * ev) @ q.T
    op, layout = operator(A, spec["form"], shapes_for(P))
    kw = {"rank": k, "key": jax.random.key(spec["seed"] % 77)}
    if layout is not None:
        kw["layout"] = layout
    fn = lobpcg_lowrank if lob else lanczos_lowrank
    if not x64:
        kw["mv_dtype"] = jnp.float32
    nA = float(ev.max())

    def get(**o):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return fn(op, **kw, **o)

    ref = get()
    # single precision products: the decomposition, not its individual entries, is determined
    tol = 1e-6 if x64 else 2e-2
    outs = [("mv_jit=False", get(mv_jit=False)), ("mv_jit=True", get(mv_jit=True))]
    if layout is not None and spec["via"]:
        kk = {a: b for a, b in kw.items() if a != "layout"}
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            outs += [(f"estimate_curvature mv_jit={j}",
                      estimate_curvature(spec["method"], op, layout=layout, mv_jit=j, **kk)) for j in (True, False)]
            outs.append(("estimate_curvature", estimate_curvature(spec["method"], jax.jit(op), layout=layout, **kk)))
    for name, t in outs:
        label = f"{spec['method']} with {name}"
        expect(isinstance(t, LowRankTerms), f"{label}: {type(t)}")
        for f in ("U", "S", "scalar"):
            expect(getattr(t, f).shape == getattr(ref, f).shape and getattr(t, f).dtype == getattr(ref, f).dtype,
                   f"{label}: {f} is {getattr(t, f).shape} {getattr(t, f).dtype}, "
                   f"otherwise {getattr(ref, f).shape} {getattr(ref, f).dtype}")
        close(np.sort(t.S), np.sort(ref.S), f"{label}: eigenvalues", rtol=tol, scale=nA)
        close(dense_terms(t), dense_terms(ref), label, rtol=10 * tol, scale=nA)
    return k > 1


def run_fit(spec):
    """Curvature products and the one-call fit, compiled or not, given as batch or batches."""
    m = gen.Model(spec["model"])
    x64, n, seed = spec["x64"], spec["n"], spec["seed"]
    X, Y = m.inputs(n, seed), gen.targets(m, n, "mse", seed)
    data = {"input": jnp.asarray(X), "target": jnp.asarray(Y)}
    sizes = gen.fit_split(spec["split"], n)
    batches = list(zip(gen.cut(data["input"], sizes), gen.cut(data["target"], sizes), strict=True))
    batched = spec["batched"]
    model = model_any(m) if batched else m.fn()
    curv = spec["curv"]
    kw = dict(loss_fn="mse", curv_type=curv, vmap_over_data=not batched, num_curv_samples=n,
              num_total_samples=n + 3)
    if curv == "lanczos":
        kw |= {"rank": min(m.P, 3), "key": jax.random.key(3)}
        if not x64:
            return False
    G = gen.ggn(m, X, "mse", (n + 3) / n, seed)
    sc = float(np.abs(G).max()) + sum(float(np.abs(m.jac(x)).max()) ** 2 for x in X) + 1e-3
    w = np.sort(np.linalg.eigvalsh(G))[::-1]
    if curv == "lanczos":
        gaps = -np.diff(w[w > 1e-9 * max(w[0], 1e-9)])
        if w[0] < 1e-6 or (gaps < 1e-2 * w[0]).any() or (w[:min(m.P, 3)] < 1e-3 * w[0]).any():
            return False  # the Krylov space is not determined up to rounding
    fn0, est0 = laplace(model, m.params, data, **kw)
    prior = {"prior_prec": 1.3}
    v = m.tree(gen.vec(m.P, seed))

    def product(f, pr=prior):
        p = f(pr)
        return p.cov_mv(p.state)(v)

    c0 = product(fn0)
    rt = (1e-5 if curv == "lanczos" else 1e-8) if x64 else 2e-3
    for o in spec["options"]:
        k2 = dict(kw)
        src = {"batch": data, "batches": batches, "loader": Loader(batches)}[o["data"]]
        if o["jit"] is not None:
            k2["curv_mv_jit"] = o["jit"]
        if curv == "lanczos" and o["mv_jit"] is not None:
            k2["mv_jit"] = o["mv_jit"]
        label = f"laplace with {o}"
        fn, est = laplace(model, m.params, src, **k2)
        if curv == "lanczos":
            close(dense_terms(est), dense_terms(est0), label, rtol=rt, scale=sc)
        else:
            same(est, est0, label, x64, rtol=rt, scale=sc)
        c = jax.jit(lambda t, fn=fn: product(fn, {"prior_prec": t}))(1.3) if o["outer"] else product(fn)
        same(c, c0, label + ": covariance product", x64, rtol=rt * 10, scale=1.0)
    mv = GGN(model, m.params, data, "mse", vmap_over_data=not batched)
    same(jax.jit(mv)(v), mv(v), "compiled GGN product", x64, scale=sc)
    h = create_hessian_mv(model, m.params, data, "mse", vmap_over_data=not batched)
    hv = h(v)
    same(jax.jit(h)(v), hv, "compiled Hessian product", x64, scale=sc + float(np.abs(flat(hv)).max()))
    g = create_ggn_mv(model, m.params, data, "mse", vmap_over_data=not batched)
    vs = jax.tree.map(lambda a: jnp.stack([a, 2 * a, -a]), v)
    many = jax.vmap(g)(vs)
    for i, f in enumerate((1, 2, -1)):
        same(jax.tree.map(lambda a, i=i: a[i], many), jax.tree.map(lambda a, f=f: f * a, g(v)),
             "mapped GGN products", x64, scale=sc * 2)
    pf = create_posterior_fn("full", g, layout=m.params)
    same(product(create_posterior_fn("full", jax.jit(g), layout=m.params)), product(pf),
         "posterior of a compiled product", x64, rtol=1e-8 if x64 else 2e-3)
    return m.P > 1 and np.abs(G).max() > 1e-6


def run_data(spec):
    """Data batch sizes of dataset evaluation and of objectives."""
    m = gen.Model(spec["model"])
    po = Post(spec["post"], m)
    x64, n, N = spec["x64"], spec["n"], spec["N"]
    X, Y = m.inputs(n, spec["seed"]), gen.targets(m, n, "mse", spec["seed"])
    data = {"input": jnp.asarray(X), "target": jnp.asarray(Y)}
    lin = spec["lin"]
    args = dict(model_fn=m.fn(), mean_params=m.params, posterior_fn=po.fn, key=jax.random.key(2), num_samples=N)
    spp = partial(set_lin_pushforward if lin else set_nonlin_pushforward, **args, pushforward_fns=(
        [lin_setup, lin_pred_mean, lin_pred_var, lin_samples] if lin else
        [nonlin_setup, nonlin_pred_mean, nonlin_pred_var]))
    pf = spp(prior_arguments=po.prior, loss_scaling_factor=1.0)
    mets = [apply_fns(lambda pred_mean, target, **kw: jnp.sum((pred_mean - target) ** 2), names=["se"]),
            transfer_entry(["pred_var", "map"])]

    def metric(pred_mean, pred_var, target, **kw):
        return jnp.mean((pred_mean - target) ** 2) + jnp.max(pred_var) + pred_mean.reshape(-1)[0]

    def obj(t, **kw):
        return evaluate_for_given_prior_arguments(data=data, set_prob_predictive=spp, metric=metric,
                                                  prior_arguments={**po.prior, "prior_prec": t}, **kw)

    tau = po.prior["prior_prec"]
    r1, r2, r3 = evaluate_on_dataset(pf, data), evaluate_metrics_on_dataset(pf, data, metrics=mets), obj(tau)
    big = max(1.0, *(float(np.abs(v).max()) for v in [*r1.values(), *r2.values()]))
    rt = 1e-8 if x64 else 1e-3
    for o in spec["options"]:
        def kw(own, o=o):
            d = {}
            if o["gen"]:
                d["data_batch_size"] = o["gen"]
            if o["own"]:
                d[own] = o["own"]
            return d

        p2 = spp(prior_arguments=po.prior, loss_scaling_factor=1.0,
                 **({"weight_batch_size": o["wb"]} if o["wb"] else {}))
        p2 = jax.jit(p2) if o["jit"] else p2
        same(evaluate_on_dataset(p2, data, **kw("evaluate_on_dataset_batch_size")), r1,
             f"evaluate_on_dataset with {o}", x64, rt, big)
        same(evaluate_metrics_on_dataset(p2, data, metrics=mets, **kw("evaluate_metrics_on_dataset_batch_size")), r2,
             f"evaluate_metrics_on_dataset with {o}", x64, rt, big)
        k3 = kw("evaluate_for_given_prior_arguments_batch_size")
        if o["wb"]:
            k3["weight_batch_size"] = o["wb"]
        f = lambda t, k3=k3: obj(t, **k3)  # noqa: E731
        same(jnp.asarray((jax.jit(f) if o["jit"] else f)(tau)), jnp.asarray(r3), f"objective with {o}", x64, rt, big)
    return n > 1


def run_interface(spec):
    """jit options of calibration and evaluation; compilation of evidence and kernel."""
    m = gen.Model(spec["model"])
    po = Post({**spec["post"], "ls": 1.0}, m)
    x64, n, seed = spec["x64"], spec["n"], spec["seed"]
    X, Y = m.inputs(n, seed), gen.targets(m, n, "mse", seed)
    data = (jnp.asarray(X), jnp.asarray(Y))
    ct, push = po.spec["curv"], spec["push"]
    rt = 1e-8 if x64 else 1e-3
    ek = dict(pushforward_type=push, num_samples=4, metrics=[transfer_entry(["pred_mean", "map"]), apply_fns(
        lambda pred_std, **kw: jnp.sum(pred_std ** 2), names=["var"])])
    e = [evaluation(po.fn, m.fn(), m.params, po.prior, data, **ek, **kw)[0]
         for kw in ({}, {"predictive_jit": True}, {"predictive_jit": False})]
    big = max(1.0, *(float(np.abs(v).max()) for v in e[0].values()))
    for r in e[1:]:
        same(r, e[0], "evaluation with predictive_jit", x64, rt, big)
    # calibration: the objective is compared at the grid points by the registered probe of P19;
    # here the result of the search
    ck = dict(loss_fn="mse", curv_estimate=po.est, curv_type=ct, pushforward_type=push, num_samples=4,
              calibration_objective=spec["objective"], grid_size=4, log_prior_prec_min=-1.0,
              log_prior_prec_max=1.0)
    cs = [calibration(po.fn, m.fn(), m.params, data, **ck, objective_jit=j)[0]["prior_prec"]
          for j in (True, False)]
    grid = np.logspace(-1, 1, 4)
    for c in cs:
        expect(np.abs(np.log(np.asarray(c, float) / grid)).min() < 1e-5, f"calibration result {c} is not on the grid")
    if x64 and not np.isclose(float(cs[0]), float(cs[1]), rtol=1e-5):
        expect(ties(spec, m, po, data, push, cs), f"calibration with objective_jit {cs[0]}, without {cs[1]}")
    d = {"input": data[0], "target": data[1]}

    def mll(t):
        return marginal_log_likelihood(po.est, {**po.prior, "prior_prec": t}, d, m.fn(), m.params, "mse", ct,
                                       vmap_over_data=True)

    tau = po.prior["prior_prec"]
    v = float(mll(tau))
    close(jax.jit(mll)(tau), v, "compiled evidence", rtol=rt, scale=abs(v) + 10.0 * m.P)
    close(jax.vmap(mll)(jnp.asarray([tau, 2 * tau])), [v, float(mll(2 * tau))], "mapped evidence", rtol=rt,
          scale=abs(v) + 10.0 * m.P)
    k, ds = set_posterior_gp_kernel(m.fn(), m.params, po.fn, po.prior, 1.0)
    u = jnp.asarray(gen.vec(m.K, 3).reshape(m.oshape))
    a, b = data[0][0], data[0][-1]
    J0, J1 = m.jac(X[0]), m.jac(X[-1])
    sc = float(np.abs(po.cov()).max() * np.abs(J0).sum() * np.abs(J1).sum() * 3) + 1e-6
    same(jax.jit(lambda u, a, b: k(u, a, b, ds))(u, a, b), k(u, a, b, ds), "compiled kernel product", x64, rt, sc)
    kd, _ = set_posterior_gp_kernel(m.fn(), m.params, po.fn, po.prior, 1.0, dense=True, output_layout=m.K) \
        if len(m.oshape) == 1 else (None, None)
    if kd is not None:
        same(jax.jit(kd)(a, b), kd(a, b), "compiled dense kernel", x64, rt, sc)
        xs = data[0]
        same(jax.vmap(jax.vmap(kd, (None, 0)), (0, None))(xs, xs)[0, -1], kd(a, b), "mapped dense kernel", x64, rt, sc)
    return n > 1


def ties(spec, m, po, data, push, cs):
    """Both results have the same objective value up to rounding."""
    vals = []

    def probe(objective, data, **kw):
        vals.append([float(objective({"prior_prec": float(c)}, data)) for c in cs])
        return {}

    register_calibration_method("p23-probe", probe)
    try:
        calibration(po.fn, m.fn(), m.params, data,
                    loss_fn="mse", curv_estimate=po.est, curv_type=po.spec["curv"], pushforward_type=push,
                    num_samples=4, calibration_objective=spec["objective"], calibration_method="p23-probe")
    finally:
        api.calibration_options.pop("p23-probe", None)
    a, b = vals[0]
    return abs(a - b) <= 1e-8 * (1 + abs(a))


bsz = st.one_of(st.none(), gen.counts(1, 13, 64))
wopts = st.fixed_dictionaries({
    "weight_batch_size": bsz, "own": bsz, "precompute_list_batch_size": bsz,
    "precompute": st.sampled_from([None, True, False]),
    "set_get_weight_sample_precompute": st.sampled_from([None, None, True, False]),
    "mv_jittable": st.sampled_from([None, True, False])})
options = st.lists(st.fixed_dictionaries({
    "opts": wopts, "how": st.sampled_from(["loop", "jit", "vmap", "map", "jit_build"]), "mb": bsz}),
    min_size=1, max_size=2)
base = dict(model=gen.model_specs(codes=True, max_total=8, max_out=3), post=post_specs, seed=gen.seeds, x64=gen.x64s)
SUBS = [
    Sub("predictive", st.fixed_dictionaries({
        **base, "N": gen.counts(1, 11, 70), "n": gen.counts(1, 3, 40, 9), "lin": st.booleans(), "options": options,
        "stats": st.lists(st.sampled_from(["mean", "var", "std", "cov", "samples", "mc"]), min_size=1, max_size=4,
                          unique=True)}), run_push, quick=72),
    Sub("weights", st.fixed_dictionaries({**base, "N": gen.huge(gen.counts(1, 9, 130), often=15), "lin": st.booleans(), "options": options}),
        run_weights, quick=24),
    Sub("precompute_list", st.fixed_dictionaries({
        "N": gen.huge(gen.counts(1, 9, 150), often=15), "seed": gen.seeds, "x64": gen.x64s, "options": options}), run_precompute, quick=24),
    Sub("operators", st.fixed_dictionaries({
        "P": gen.counts(1, 12, 90), "seed": gen.seeds, "x64": gen.x64s, "form": st.sampled_from(["flat", "tree"]),
        "options": st.lists(st.fixed_dictionaries({
            "db": bsz, "tb": bsz, "jit": st.booleans(), "mvj": st.sampled_from([None, True, False])}),
            min_size=1, max_size=3)}), run_operators, quick=32),
    Sub("lowrank", st.fixed_dictionaries({
        "k": st.integers(1, 3), "extra": st.integers(0, 5), "seed": gen.seeds, "x64": gen.x64s,
        "method": st.sampled_from(["lanczos", "lobpcg"]), "form": st.sampled_from(["array", "flat", "tree"]),
        "via": st.booleans()}), run_lowrank, quick=32),
    Sub("fit", st.fixed_dictionaries({
        "model": gen.model_specs(max_total=8, max_out=2), "seed": gen.seeds, "x64": gen.x64s, "n": st.integers(1, 6),
        "split": st.lists(st.integers(1, 4), min_size=1, max_size=4), "batched": st.booleans(),
        "curv": st.sampled_from(["full", "diagonal", "lanczos"]),
        "options": st.lists(st.fixed_dictionaries({
            "jit": st.sampled_from([None, True, False]), "mv_jit": st.sampled_from([None, True, False]),
            "outer": st.booleans(), "data": st.sampled_from(["batch", "batches", "loader"])}),
            min_size=1, max_size=2)}), run_fit, quick=32),
    Sub("data", st.fixed_dictionaries({
        **base, "n": gen.counts(1, 9, 60), "N": gen.counts(1, 6, 40), "lin": st.booleans(),
        "options": st.lists(st.fixed_dictionaries({"gen": bsz, "own": bsz, "wb": bsz, "jit": st.booleans()}),
                            min_size=1, max_size=2)}), run_data, quick=40),
    Sub("interface", st.fixed_dictionaries({
        **base, "n": st.integers(1, 5), "push": st.sampled_from(["linear", "nonlinear"]),
        "objective": st.sampled_from(["nll", "chi_squared", "marginal_log_likelihood"])}), run_interface, quick=24),
]
