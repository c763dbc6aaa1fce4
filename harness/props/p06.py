"""P06 Library calls leave global precision and the caller's objects unchanged."""
import dataclasses
import warnings

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import laplax.api as api
from harness import gen
from harness.core import Sub, close, expect
from harness.props.p18 import Loader
from laplax.api import calibration, evaluation, laplace
from laplax.curv.cov import create_posterior_fn, estimate_curvature, set_posterior_fn
from laplax.curv.ggn import create_ggn_mv
from laplax.curv.hessian import create_hessian_mv
from laplax.curv.lanczos import lanczos_lowrank
from laplax.curv.lobpcg import lobpcg_lowrank
from laplax.curv.utils import LowRankTerms
from laplax.eval import marginal_log_likelihood
from laplax.eval import metrics as lib_metrics
from laplax.eval.calibrate import optimize_prior_prec
from laplax.eval.pushforward import (
    lin_pred_mean,
    lin_pred_std,
    lin_setup,
    nonlin_pred_mean,
    nonlin_pred_std,
    nonlin_setup,
    set_lin_pushforward,
    set_nonlin_pushforward,
    set_posterior_gp_kernel,
)
from laplax.eval.utils import (
    apply_fns,
    evaluate_metrics_on_dataset,
    evaluate_metrics_on_generator,
    transfer_entry,
)
from laplax.register import register_curvature_method
from laplax.util.loader import DataLoaderMV, wrap_function_with_data_loader

RULE = (
    "Cases: histories of 1-6 library calls (15 kinds, every option that takes caller objects), a "
    "third of them failing (bad arguments, callables or loaders raising at the k-th call), both "
    "precision modes, switched by the user between calls; monitored after every call: the 64-bit "
    "setting, dtypes of low-rank results, deep copies of all arguments, default lists and tables; "
    "the first call is repeated at the end. Non-trivial: at least two calls or a failing call."
)
ASSUMPTIONS = ["an argument is unchanged when structure, dtypes, bytes and contained callables are"]


class Boom(Exception):
    """Raised by user callables."""


def snap(x, seen=()):
    """Deep, comparable picture of an argument."""
    if isinstance(x, dict):
        return ("dict", type(x).__name__, [(k, snap(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(v) for v in x])
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        return (type(x).__name__, [(f.name, snap(getattr(x, f.name))) for f in dataclasses.fields(x)])
    if isinstance(x, Loader):
        return ("loader", snap(x.batches))
    if isinstance(x, jax.Array) and jnp.issubdtype(x.dtype, jax.dtypes.prng_key):
        return ("key", np.asarray(jax.random.key_data(x)).tolist())
    if isinstance(x, (jax.Array, np.ndarray)):
        a = np.asarray(x)
        return (type(x).__name__, str(a.dtype), a.shape, a.tobytes())
    if callable(x):
        return ("fn", id(x))
    return (type(x).__name__, repr(x))


def library_state():
    from laplax.curv import cov
    from laplax.eval import likelihood
    from laplax.util import ops

    out = {"x64": bool(jax.config.jax_enable_x64), "empty": snap(api.EMPTY_DICT),
           "key": snap(api.DEFAULT_KEY), "cal": snap(dict(api.calibration_options)),
           "precompute": repr(ops.DEFAULT_PRECOMPUTE_LIST)}
    for k in ("DEFAULT_REGRESSION_METRICS", "DEFAULT_REGRESSION_METRICS_DICT"):
        if hasattr(lib_metrics, k):
            out[k] = snap(getattr(lib_metrics, k))
    for mod in (cov, likelihood):
        for k in dir(mod):
            if k.startswith("CURVATURE_") and isinstance(getattr(mod, k), dict):
                out[k] = snap(getattr(mod, k))
    return out


class World:
    """Objects of the caller, shared by all calls of a history."""

    def __init__(self, spec):
        seed = self.seed = spec["seed"]
        m = self.m = gen.Model(spec["model"])
        n = spec["n"]
        self.X, self.Y = m.inputs(n, seed), gen.targets(m, n, "mse", seed)
        wrap = np.asarray if spec["np"] else jnp.asarray
        self.params = jax.tree.map(wrap, m.params) if spec["np"] else m.params
        self.data = {"input": wrap(self.X), "target": wrap(self.Y)}
        sizes = gen.fit_split(spec["split"], n)
        self.batches = [{"input": wrap(x), "target": wrap(y)}
                        for x, y in zip(gen.cut(self.X, sizes), gen.cut(self.Y, sizes), strict=True)]
        self.prior = {"prior_prec": 1.5, "sigma_squared": 0.7} if spec["s2"] else {"prior_prec": 1.5}
        self.prior_arr = {"prior_prec": wrap(1.5)}
        self.key = jax.random.key(seed % 97)
        self.C = wrap(gen.psd(m.P, min(m.P, 4), seed, "random"))
        self.lin = [lin_setup, lin_pred_mean, lin_pred_std]
        self.nonlin = [nonlin_setup, nonlin_pred_mean, nonlin_pred_std]
        self.metrics = [apply_fns(lambda pred_mean, target, **kw: jnp.sum((pred_mean - target) ** 2),
                                  names=["se"]), transfer_entry(["pred_mean"])]
        self.metrics_dict = {"d": lambda pred_mean, **kw: pred_mean.sum()}
        self.big = jnp.asarray(gen.psd(24, 5, seed, "random") + 0.1 * np.eye(24))
        self.reduce_kwargs = {}

    def objects(self):
        return {k: v for k, v in vars(self).items()
                if k not in ("m", "seed", "X", "Y")}

    def estimate(self, curv):
        C = np.asarray(self.C, float)
        if curv == "full":
            return jnp.asarray(C)
        if curv == "diagonal":
            return jnp.asarray(np.diag(C).copy())
        w, U = np.linalg.eigh(C)
        return LowRankTerms(U=jnp.asarray(U[:, -3:]), S=jnp.asarray(np.maximum(w[-3:], 0)), scalar=jnp.asarray(0.0))


def countdown(fn, k):
    """fn that raises Boom at its k-th call (None: never)."""
    left = [k]

    def g(*a, **kw):
        if left[0] is not None:
            left[0] -= 1
            if left[0] < 0:
                raise Boom
        return fn(*a, **kw)

    return g


class BrokenLoader(Loader):
    def __init__(self, batches, k):
        super().__init__(batches)
        self.k = k

    def __iter__(self):
        for i, b in enumerate(self.batches):
            if self.k is not None and i >= self.k:
                raise Boom
            yield b


def matrix_free(w, s):
    c = CURVS[s["a"] % 4]
    return "lanczos" if c == "lobpcg" and w.m.P <= 5 else c  # LOBPCG needs more than 5 parameters


CURVS = ["full", "diagonal", "lanczos", "lobpcg"]
DT = {"f32": jnp.float32, "f64": jnp.float64, "none": None}


# Each operation returns (thunk, extra objects to watch, allowed exceptions or None, check(result)).
def op_lowrank(w, s):
    fn = lanczos_lowrank if s["a"] % 2 else lobpcg_lowrank
    A = w.big
    size = 24
    fault = s["fault"]
    mv = lambda v: jnp.asarray(A, dtype=v.dtype) @ v  # noqa: E731
    kw = {"key": w.key, "rank": 3, "mv_jit": bool(s["b"] % 2), "layout": size}
    nested = fn is lanczos_lowrank and not s["b"] % 2 and s["k"] // 4 % 3 == 1
    if nested:
        # The user's operator computes (or fails to compute) an approximation itself.
        plain, inner = mv, (lanczos_lowrank if s["k"] // 12 % 2 else lobpcg_lowrank)

        def mv(v):
            before = bool(jax.config.jax_enable_x64)
            try:
                inner(A if s["k"] // 24 % 2 else countdown(plain, 1), key=w.key, rank=2, layout=size,
                      mv_jit=False)
            except Exception:  # noqa: BLE001
                pass
            expect(bool(jax.config.jax_enable_x64) == before,
                   f"64-bit setting changed by a nested {inner.__name__}")
            return plain(v)

    mv = countdown(mv, s["k"] % 2 if fault else None)
    arg = mv if nested or (s["b"] // 2) % 2 or fault else A
    names = ["none", "none", "f32", "f64"]
    calc, ret, mvd = (names[(s["c"] // i) % 4] for i in (1, 4, 16))
    user = bool(jax.config.jax_enable_x64)
    if calc != "none":
        kw["calc_dtype"] = DT[calc]
    if not user and mvd == "f64":
        mvd = "none"
    if arg is A and mvd == "none" and calc == "f32" and user:
        mvd = "f32"
    for n, d in (("return_dtype", ret), ("mv_dtype", mvd)):
        if d != "none":
            kw[n] = DT[d]
    exc = None
    if fault:
        exc = (Boom, ValueError, TypeError, AttributeError)
        how = s["k"] % 4
        if how == 2 and fn is lanczos_lowrank:
            del kw["key"]
        elif how == 3:
            kw["layout"] = None
    want = {"f32": "float32", "f64": "float64", "none": "float64" if user else "float32"}[ret]

    def check(r):
        for k in ("U", "S", "scalar"):
            got = str(getattr(r, k).dtype)
            expect(got == want, f"{fn.__name__}: dtype of {k} is {got}, expected {want} "
                   f"(return_dtype {ret}, calc_dtype {calc}, x64 {user})")

    return (lambda: fn(arg, **kw)), [kw], exc, check


def op_estimate(w, s):
    curv = matrix_free(w, s)
    mv = create_ggn_mv(w.m.fn(), w.params, w.data, "mse")
    mv = countdown(mv, s["k"] % 3 if s["fault"] else None)
    kw = {"layout": w.params}
    if curv in ("lanczos", "lobpcg"):
        kw |= {"key": w.key, "rank": min(3, w.m.P), "mv_jit": bool(s["b"] % 2)}
    user = bool(jax.config.jax_enable_x64)
    want = "float64" if user else "float32"

    def check(r):
        if isinstance(r, LowRankTerms):
            expect({str(x.dtype) for x in jax.tree.leaves(r)} == {want},
                   f"estimate {curv}: dtypes {[str(x.dtype) for x in jax.tree.leaves(r)]}")

    def thunk():
        return estimate_curvature(curv, mv, **kw)

    exc = (Boom,) if s["fault"] and s["k"] % 3 == 0 else None
    if s["fault"] and exc is None:
        exc = "maybe"
    return thunk, [kw], exc, check


def op_posterior(w, s):
    curv = CURVS[s["a"] % 4]
    est = w.estimate(curv)
    prior = [w.prior, w.prior_arr][s["b"] % 2]
    if s["fault"]:
        prior = {"sigma_squared": 1.0} if s["k"] % 2 else {}

    def thunk():
        p = set_posterior_fn(curv, est, layout=w.params)(prior, 2.0)
        return p.cov_mv(p.state)(w.m.tree(gen.vec(w.m.P, 3)))

    return thunk, [est, prior], (KeyError,) if s["fault"] else None, None


def op_create(w, s):
    curv = matrix_free(w, s)
    mv = lambda t: jax.tree.map(lambda x: 2.0 * x, t)  # noqa: E731
    kw = {"layout": w.params}
    if curv in ("lanczos", "lobpcg"):
        kw |= {"key": w.key, "rank": 1}
    name = "no-such-curvature" if s["fault"] else curv

    def thunk():
        p = create_posterior_fn(name, mv, **kw)(w.prior)
        return p.cov_mv(p.state)(w.m.tree(gen.vec(w.m.P, 3)))

    return thunk, [kw], (KeyError,) if s["fault"] else None, None


def form_data(w, s):
    k = s["b"] % 4
    pairs = [(b["input"], b["target"]) for b in w.batches]
    return [w.data, (w.data["input"], w.data["target"]), pairs, Loader(w.batches)][k]


def op_laplace(w, s):
    curv = matrix_free(w, s)
    kw = {"loss_fn": "mse", "curv_type": curv, "num_curv_samples": len(w.X), "num_total_samples": 7}
    if curv in ("lanczos", "lobpcg"):
        kw |= {"key": w.key, "rank": min(3, w.m.P), "mv_jit": False}
    data, exc, model = form_data(w, s), None, w.m.fn()
    if s["fault"]:
        how = s["k"] % 5
        if how == 0:
            data, exc = BrokenLoader(w.batches, s["c"] % len(w.batches)), (Boom,)
        elif how == 1:
            kw["loss_fn"], exc = "no-such-loss", (ValueError,)
        elif how == 2:
            kw["curv_type"], exc = "no-such-curvature", (ValueError,)
        elif how == 3:
            data, exc = {"input": w.data["input"]}, (ValueError,)
        else:
            model, exc = countdown(model, s["c"] % 2), "maybe"

    def thunk():
        _, est = laplace(model, w.params, data, **kw)
        return est

    return thunk, [data, kw], exc, None


PREDICTIVES = ["mc_bridge", "mc_bridge", "mean_field_0"]


def op_calibration(w, s):
    curv = CURVS[s["a"] % 4]
    est = w.estimate(curv)
    pf = set_posterior_fn(curv, est, layout=w.params)
    push = ["linear", "nonlinear"][s["b"] % 2]
    kw = {"loss_fn": "mse", "curv_estimate": est, "curv_type": curv, "pushforward_type": push,
          "grid_size": 3, "log_prior_prec_min": -1.0, "log_prior_prec_max": 1.0, "num_samples": 3,
          "calibration_objective": ["nll", "chi_squared"][s["c"] % 2]}
    if s["c"] // 2 % 2:
        kw["pushforward_fns"] = w.lin if push == "linear" else w.nonlin
    if s["c"] // 4 % 2:
        kw["pushforward_fns"] = []
    data, exc = (w.data if s["c"] // 8 % 2 else (w.data["input"], w.data["target"])), None
    if s["fault"]:
        how = s["k"] % 3
        if how == 0:
            kw["calibration_method"], exc = "no-such-method", (ValueError,)
        elif how == 1:
            kw["calibration_objective"], exc = "ece", (ValueError,)
        else:
            data, exc = [1, 2, 3], (ValueError,)

    elif s["k"] % 3 == 1:  # not every model, target and list fits a predictive
        kw["predictive_type"] = PREDICTIVES[s["k"] // 3 % 3]
        kw["pushforward_fns"] = w.lin if push == "linear" else w.nonlin
        exc = "maybe"

    def thunk():
        return calibration(pf, w.m.fn(), w.params, data, **kw)[0]

    return thunk, [data, kw], exc, None


def op_evaluation(w, s):
    curv = CURVS[s["a"] % 4]
    pf = set_posterior_fn(curv, w.estimate(curv), layout=w.params)
    push = ["linear", "nonlinear"][s["b"] % 2]
    kw = {"pushforward_type": push, "num_samples": 3, "predictive_jit": bool(s["c"] % 2)}
    mk = s["c"] // 2 % 4
    if mk:
        kw["metrics"] = [None, w.metrics, w.metrics[0], "regression"][mk]
    if s["c"] // 8 % 2:
        kw["pushforward_fns"] = w.lin if push == "linear" else w.nonlin
    data, exc = form_data(w, {**s, "b": s["b"] // 2}), None
    prior = w.prior
    if s["fault"]:
        how = s["k"] % 4
        if how == 0:
            kw["metrics"], exc = [w.metrics[0], countdown(w.metrics[1], 0)], (Boom,)
        elif how == 1:
            kw["metrics"], exc = [], (ValueError,)
        elif how == 2:
            data, exc = BrokenLoader(w.batches, s["c"] % len(w.batches)), (Boom,)
        else:
            prior, exc = {}, (KeyError,)

    elif s["k"] % 3 == 1:
        kw["predictive_type"] = PREDICTIVES[s["k"] // 3 % 3]
        if s["k"] // 9 % 3:
            kw["pushforward_fns"] = w.lin if push == "linear" else w.nonlin
        exc = "maybe"

    def thunk():
        return evaluation(pf, w.m.fn(), w.params, prior, data, **kw)[0]

    return thunk, [data, kw, prior], exc, None


def op_metrics(w, s):
    pred = lambda x: {"pred_mean": w.m.fn()(x, w.params), "extra": jnp.sum(x)}  # noqa: E731
    kw = {}
    if s["a"] % 3 != 1:
        kw["metrics"] = w.metrics
    if s["a"] % 3 != 0:
        kw["metrics_dict"] = w.metrics_dict
    exc = None
    if s["fault"]:
        how = s["k"] % 2
        if how:
            kw["metrics"], exc = [*w.metrics, countdown(w.metrics[0], 0)], (Boom,)
        else:
            kw, exc = {}, (ValueError,)
    if s["b"] % 2:
        return (lambda: evaluate_metrics_on_dataset(pred, w.data, **kw)), [kw], exc, None
    src = w.batches
    return (lambda: evaluate_metrics_on_generator(pred, iter(src), **kw)), [kw, src], exc, None


def op_push(w, s):
    curv = CURVS[s["a"] % 4]
    pf = set_posterior_fn(curv, w.estimate(curv), layout=w.params)
    lin = s["b"] % 2
    kw = {"key": w.key, "num_samples": 3}
    fns, prior, exc = (w.lin if lin else w.nonlin), w.prior, None
    x = w.data["input"][0]
    if s["fault"]:
        how = s["k"] % 2
        if how:
            fns, exc = [*fns, countdown(fns[-1], 0)], (Boom,)
        else:
            prior, exc = {}, (KeyError,)

    def thunk():
        f = (set_lin_pushforward if lin else set_nonlin_pushforward)(
            model_fn=w.m.fn(), mean_params=w.params, posterior_fn=pf, prior_arguments=prior,
            pushforward_fns=fns, loss_scaling_factor=1.0, **kw)
        return f(x)

    return thunk, [fns, prior, kw], exc, None


def op_mll(w, s):
    curv = CURVS[s["a"] % 4]
    est = w.estimate(curv)
    kw = dict(curv_estimate=est, prior_arguments=w.prior, data=w.data, model_fn=w.m.fn(), params=w.params,
              loss_fn="mse", curv_type=curv, vmap_over_data=True)
    exc = None
    if s["fault"]:
        how = s["k"] % 2
        if how:
            kw["prior_arguments"], exc = {}, (KeyError,)
        else:
            kw["data"], exc = {"input": w.data["input"]}, (KeyError,)
    return (lambda: marginal_log_likelihood(**kw)), [kw], exc, None


def op_grid(w, s):
    calls = [0]
    k = s["k"] % 4 if s["fault"] else None

    def obj(p):
        calls[0] += 1
        if k is not None and calls[0] > k:
            raise Boom
        if calls[0] % 3 == 2 and s["a"] % 2:
            raise ValueError
        return (jnp.log(p["prior_prec"] if isinstance(p, dict) else p) - 0.3) ** 2

    kw = {"log_prior_prec_min": -2.0, "log_prior_prec_max": 2.0, "grid_size": 5}

    def thunk():
        calls[0] = 0
        return optimize_prior_prec(obj, **kw)

    return thunk, [kw], (Boom,) if s["fault"] else None, None


def op_products(w, s):
    make = [create_ggn_mv, create_hessian_mv][s["a"] % 2]
    v = w.m.tree(gen.vec(w.m.P, 4))
    model = countdown(w.m.fn(), s["c"] % 2 if s["fault"] else None)

    def thunk():
        f = make(model, w.params, w.data, "mse", **({"num_curv_samples": 3, "num_total_samples": 6}
                                                    if make is create_ggn_mv else {}))
        return (jax.jit(f) if s["b"] % 2 else f)(v)

    return thunk, [v], "maybe" if s["fault"] else None, None


def op_stream(w, s):
    loader = BrokenLoader(w.batches, s["k"] % len(w.batches) if s["fault"] else None)
    fn = lambda vec, data: vec * jnp.sum(data["input"])  # noqa: E731
    if s["a"] % 2:
        op = DataLoaderMV(fn, loader, transform=lambda b: b, verbose_logging=bool(s["b"] % 2))
    else:
        op = wrap_function_with_data_loader(fn, loader, transform=lambda b: b)
    return (lambda: op(jnp.arange(3.0))), [loader], (Boom,) if s["fault"] else None, None


def op_kernel(w, s):
    curv = CURVS[s["a"] % 4]
    pf = set_posterior_fn(curv, w.estimate(curv), layout=w.params)
    prior = {} if s["fault"] else w.prior
    dense = bool(s["b"] % 2)

    def thunk():
        kern, ds = set_posterior_gp_kernel(w.m.fn(), w.params, pf, prior, 1.0, dense=dense,
                                           output_layout=jnp.zeros(w.m.oshape))
        a, b = w.data["input"][0], w.data["input"][-1]
        return kern(a, b) if dense else kern(jnp.ones(w.m.oshape), a, b, ds)

    return thunk, [prior], (KeyError,) if s["fault"] else None, None


def op_register(w, s):
    """Registrations that must be rejected."""
    fns = ["create_curvature_fn", "curvature_to_precision_fn", "prec_to_posterior_fn",
           "posterior_state_to_scale_fn", "posterior_state_to_cov_fn", "marginal_log_likelihood_fn"]
    kw = {f: (lambda *a, **k: None) for i, f in enumerate(fns) if i != s["a"] % 6 and (s["c"] >> i) % 2}
    name = CURVS[s["b"] % 4] if s["b"] // 4 % 2 else f"p06-{s['c']}"
    return (lambda: register_curvature_method(name, **kw)), [kw], (ValueError,), None


OPS = {f.__name__[3:]: f for f in (
    op_lowrank, op_estimate, op_posterior, op_create, op_laplace, op_calibration, op_evaluation, op_metrics,
    op_push, op_mll, op_grid, op_products, op_stream, op_kernel, op_register)}


def result_arrays(r):
    return [np.asarray(x, float) for x in jax.tree.leaves(r)
            if hasattr(x, "dtype") and not jnp.issubdtype(x.dtype, jax.dtypes.prng_key)
            or isinstance(x, (float, int))]


def execute(w, s, what, switch):
    thunk, extra, exc, check = OPS[s["op"]](w, s)
    if switch and exc is None:
        exc = "maybe"  # caller objects of the other precision may not fit
    before_objs = {k: snap(v) for k, v in w.objects().items()}
    before_extra = snap(extra)
    before_lib = library_state()
    failed, res = None, None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            res = thunk()
        except Exception as e:  # noqa: BLE001
            if exc is None:
                raise
            if exc != "maybe" and not isinstance(e, exc):
                # Which error a bad argument raises is not part of this property.
                if not s["fault"]:
                    raise
            failed = e
    after_lib = library_state()
    for k, v in before_lib.items():
        expect(after_lib.get(k) == v, f"{what}{' (raised ' + type(failed).__name__ + ')' if failed else ''}: "
               f"{k} was {str(v)[:150]} before the call and is {str(after_lib.get(k))[:150]} after it")
    for k, v in w.objects().items():
        expect(snap(v) == before_objs[k], f"{what}: the caller's {k} changed")
    expect(snap(extra) == before_extra, f"{what}: an argument of the call changed: "
           f"{str(before_extra)[:200]} -> {str(snap(extra))[:200]}")
    if failed is None and check is not None:
        check(res)
    return failed, res


def run_history(spec):
    w = World(spec)
    first, x64 = None, spec["x64"]
    any_fault = False
    for i, s in enumerate(spec["calls"]):
        user = bool(s["x64"]) if spec["switch"] else x64
        jax.config.update("jax_enable_x64", user)
        failed, res = execute(w, s, f"call {i} ({s['op']})", spec["switch"])
        any_fault |= failed is not None
        if i == 0 and failed is None:
            first = (user, result_arrays(res))
    if first is not None:
        jax.config.update("jax_enable_x64", first[0])
        s = spec["calls"][0]
        failed, res = execute(w, s, f"repeated call ({s['op']})", spec["switch"])
        expect(failed is None, f"repeating {s['op']} raises {failed!r}")
        again = result_arrays(res)
        expect(len(again) == len(first[1]), "repeated call: other result structure")
        for a, b in zip(again, first[1], strict=True):
            close(a, b, f"repeated call ({s['op']})", x64=first[0], scale=1e-6, rtol=1e-6 if first[0] else 1e-3)
    return len(spec["calls"]) > 1 or any_fault


I = st.integers(0, 255)  # noqa: E741
call = lambda ops: st.fixed_dictionaries({  # noqa: E731
    "op": st.sampled_from(ops), "a": I, "b": I, "c": I, "k": I,
    "fault": st.sampled_from([False, False, True]), "x64": st.booleans()})
base = dict(
    model=gen.model_specs(max_total=8, max_out=2), n=st.integers(1, 4), seed=gen.seeds, np=st.booleans(),
    s2=st.booleans(), split=st.lists(st.integers(1, 3), min_size=1, max_size=4), switch=st.booleans(),
    x64=gen.x64s)
CHEAP = ["lowrank", "posterior", "create", "metrics", "push", "mll", "grid", "products", "stream", "kernel",
         "register", "estimate"]
SUBS = [
    Sub("histories", st.fixed_dictionaries({
        **base, "calls": st.lists(call(sorted(OPS)), min_size=1, max_size=5)}), run_history, quick=72),
    Sub("lowrank_histories", st.fixed_dictionaries({
        **base, "calls": st.lists(call(["lowrank", "estimate"]), min_size=1, max_size=4)}),
        run_history, quick=48),
    Sub("predictive_histories", st.fixed_dictionaries({
        **base, "calls": st.lists(call(["calibration", "evaluation"]).map(lambda c: {**c, "k": 3 * c["k"] + 1}),
                                  min_size=1, max_size=2)}), run_history, quick=24),
    Sub("interface_histories", st.fixed_dictionaries({
        **base, "calls": st.lists(call(["laplace", "calibration", "evaluation", "metrics", "push"]),
                                  min_size=1, max_size=3)}), run_history, quick=48),
]
