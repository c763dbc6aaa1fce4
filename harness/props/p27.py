"""P27 Malformed requests are rejected, well-formed ones accepted."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import Sub, Violation, expect, raises
from harness.post import CURVS, Post, post_specs
from laplax.api import GGN, calibration, evaluation, laplace
from laplax.curv.cov import create_posterior_fn, estimate_curvature
from laplax.curv.ggn import create_ggn_mv, create_ggn_mv_without_data, create_loss_hessian_mv
from laplax.curv.hessian import create_hessian_mv
from laplax.curv.lanczos import lanczos_lowrank
from laplax.curv.lobpcg import lobpcg_lowrank
from laplax.curv.utils import concatenate_model_and_loss_fn, get_matvec
from laplax.enums import (
    CalibrationMethod,
    CalibrationObjective,
    CurvApprox,
    DefaultMetrics,
    LossFn,
    Predictive,
    Pushforward,
)
from laplax.eval import marginal_log_likelihood
from laplax.eval.metrics import crps_gaussian, nll_gaussian
from laplax.eval.pushforward import lin_setup, set_posterior_gp_kernel
from laplax.eval.utils import (
    apply_fns,
    evaluate_metrics_on_dataset,
    evaluate_metrics_on_generator,
    transfer_entry,
)
from laplax.register import register_curvature_method
from laplax.util.loader import DataLoaderMV, execute_with_data_loader, wrap_function_with_data_loader
from laplax.util.mv import diagonal
from laplax.util.ops import str_to_bool

RULE = (
    "Cases: 13 families of requests the documentation excludes (names that are almost right, missing, "
    "contradictory or wrongly typed arguments, malformed batches, unequal shapes, empty loaders) at every entry "
    "point that takes them, with random other arguments; oracle: the documented exception class, no result, "
    "and acceptance of the corrected request. Non-trivial: the corrected request was also run."
)
ASSUMPTIONS = ["only exceptions named in the documentation are required, their messages are free"]
LOSS_NAMES = [str(x.value) for x in LossFn]


class World:
    def __init__(self, spec):
        self.spec = spec
        m = self.m = gen.Model({**spec["model"], "o": [max(2, gen.Model(spec["model"]).K)]})
        self.n = spec["n"]
        self.X, self.Y = jnp.asarray(m.inputs(self.n, spec["seed"])), jnp.asarray(
            gen.targets(m, self.n, "mse", spec["seed"]))
        self.po = Post({**spec["post"], "s2": None, "ls": 1.0}, m)
        self.data = {"input": self.X, "target": self.Y}
        self.fn, self.params = m.fn(), m.params
        self.v = m.tree(gen.vec(m.P, spec["seed"]))

    def eval(self, **kw):
        kw = {"data": self.data, "predictive_jit": False, **kw}
        data = kw.pop("data")
        return evaluation(self.po.fn, self.fn, self.params, self.po.prior, data, **kw)

    def calib(self, **kw):
        kw = {"data": self.data, "grid_size": 2, "loss_fn": "mse", "curv_estimate": self.po.est,
              "curv_type": self.po.spec["curv"], "objective_jit": False, **kw}
        data = kw.pop("data")
        return calibration(self.po.fn, self.fn, self.params, data, **kw)


def rejected(what, exc, thunk):
    with raises(exc, what):
        thunk()


def near(name, how, junk):
    """Names that look like `name`."""
    return [name + "s", name[:-1], name + " ", " " + name, name.replace("_", "-") + "-", name * 2, "", junk,
            name.replace("_", " ") + "?", name[1:], name + "_", name[0] + name][how % 12]


def loss_names(w, s):
    """Unknown losses, at every entry point that takes a loss."""
    name = near(LOSS_NAMES[s["a"] % 4], s["b"], s["junk"])
    if name in LOSS_NAMES:
        name = "no-such-loss"
    bad = [name, LOSS_NAMES[s["a"] % 4].upper(), 3, 1.5, ("mse",), ["mse"], {"loss": "mse"}][s["c"] % 7]
    rejected(f"loss Hessian of the loss {bad!r}", ValueError, lambda: create_loss_hessian_mv(bad))
    rejected(f"model and loss {bad!r}", ValueError, lambda: concatenate_model_and_loss_fn(w.fn, bad))
    rejected(f"GGN with the loss {bad!r}", ValueError,
             lambda: create_ggn_mv(w.fn, w.params, w.data, bad)(w.v))
    rejected(f"GGN without data with the loss {bad!r}", ValueError,
             lambda: create_ggn_mv_without_data(w.fn, w.params, bad, 1.0)(w.v, w.data))
    rejected(f"Hessian with the loss {bad!r}", ValueError,
             lambda: create_hessian_mv(w.fn, w.params, w.data, bad)(w.v))
    rejected(f"api GGN with the loss {bad!r}", ValueError,
             lambda: GGN(w.fn, w.params, w.data, bad, verbose_logging=False))
    rejected(f"laplace with the loss {bad!r}", ValueError,
             lambda: laplace(w.fn, w.params, w.data, loss_fn=bad, curv_type=CURVS[s["b"] % 2]))
    rejected(f"evidence with the loss {bad!r}", ValueError, lambda: marginal_log_likelihood(
        w.po.est, w.po.prior, w.data, w.fn, w.params, bad, w.po.spec["curv"], vmap_over_data=True))
    rejected("loss Hessian of the loss None", ValueError, lambda: create_loss_hessian_mv(None))
    good = LossFn(LOSS_NAMES[s["a"] % 4]) if s["c"] % 2 else LOSS_NAMES[s["a"] % 4]
    expect(callable(create_loss_hessian_mv(good)), f"loss {good!r}")
    create_hessian_mv(w.fn, w.params, w.data, good)(w.v)
    GGN(w.fn, w.params, w.data, good, verbose_logging=False)


def contradictory(w, s):
    """Options of which exactly one must be given."""
    h = lambda jv, pred, target, **kw: jv  # noqa: E731
    loss = ["mse", LossFn.CROSS_ENTROPY, lambda p, t: jnp.sum(p * t)][s["a"] % 3]
    opts = [{}, {"num_curv_samples": 2}, {"vmap_over_data": True}, {"num_total_samples": 3}][s["b"] % 4]
    rejected("GGN without a loss", ValueError, lambda: create_ggn_mv(w.fn, w.params, w.data, **opts))
    rejected("GGN with loss=None", ValueError, lambda: create_ggn_mv(w.fn, w.params, w.data, None, **opts))
    rejected("GGN with two losses", ValueError,
             lambda: create_ggn_mv(w.fn, w.params, w.data, loss, loss_hessian_mv=h, **opts))
    create_ggn_mv(w.fn, w.params, w.data, loss, **opts)(w.v)
    create_ggn_mv(w.fn, w.params, w.data, loss_hessian_mv=h, **opts)(w.v)
    f = lambda x: {"pred_mean": w.fn(x, w.params)}  # noqa: E731
    metric = lambda results, aux, **kw: ({**results, "m": jnp.sum(aux["pred_mean"])}, aux)  # noqa: E731
    rejected("dataset evaluation without metrics", ValueError, lambda: evaluate_metrics_on_dataset(f, w.data))
    rejected("generator evaluation without metrics", ValueError,
             lambda: evaluate_metrics_on_generator(f, iter([w.data])))
    expect("m" in evaluate_metrics_on_dataset(f, w.data, metrics=[metric]), "dataset evaluation")
    expect("m" in evaluate_metrics_on_generator(f, iter([w.data]), metrics=[metric]), "generator evaluation")


def start(w, s):
    """A start for the iteration, and a layout for callables."""
    A = jnp.asarray(gen.psd(7, 3, s["a"], "random"))
    mv = lambda v: A @ v  # noqa: E731
    arg, lay = [(A, {}), (mv, {"layout": 7})][s["b"] % 2]
    rejected("Lanczos without key and start", ValueError, lambda: lanczos_lowrank(arg, rank=2, **lay))
    rejected("Lanczos with key=None, b=None", ValueError,
             lambda: lanczos_lowrank(arg, key=None, b=None, rank=2, mv_jit=bool(s["c"] % 2), **lay))
    rejected("Lanczos estimate without key", ValueError,
             lambda: estimate_curvature("lanczos", mv, layout=7, rank=2))
    rejected("laplace with Lanczos and no key", ValueError,
             lambda: laplace(w.fn, w.params, w.data, loss_fn="mse", curv_type="lanczos", rank=1))
    for name, fn in (("lanczos", lanczos_lowrank), ("lobpcg", lobpcg_lowrank)):
        rejected(f"{name} of a callable without layout", TypeError,
                 lambda fn=fn: fn(mv, key=jax.random.key(0), rank=1))
    rejected("product of a callable without layout", TypeError, lambda: get_matvec(mv))
    rejected("product of a callable with layout None", TypeError,
             lambda: get_matvec(mv, layout=None, jit=bool(s["c"] % 2)))
    rejected("diagonal of a callable without layout", TypeError, lambda: diagonal(mv))
    rejected("diagonal of a callable with layout None", TypeError,
             lambda: diagonal(mv, None, mv_jittable=bool(s["c"] % 2)))
    if s["b"] % 2:
        lanczos_lowrank(arg, b=jnp.ones(7), rank=2, **lay)
    else:
        lanczos_lowrank(arg, key=jax.random.key(s["a"]), rank=2, **lay)
    get_matvec(A)
    get_matvec(mv, layout=7)
    expect(np.shape(diagonal(A)) == (7,), "diagonal of an array")


BATCHES = ["three", "one", "empty", "no_input", "no_target", "empty_dict", "capital", "number", "none", "array", "string"]


def bad_batch(w, kind):
    X, Y = w.X, w.Y
    return {"three": (X, Y, Y), "one": (X,), "empty": (), "no_input": {"target": Y}, "no_target": {"input": X},
            "empty_dict": {}, "capital": {"Input": X, "Target": Y}, "number": 3, "none": None, "array": X,
            "string": "data"}[kind]


def batches(w, s):
    """Malformed batches, alone or as first element of a loader."""
    kind = BATCHES[s["a"] % len(BATCHES)]
    b = bad_batch(w, kind)
    exc = ValueError
    calls = {
        "GGN": lambda d: GGN(w.fn, w.params, d, "mse", verbose_logging=False),
        "laplace": lambda d: laplace(w.fn, w.params, d, loss_fn="mse", curv_type=CURVS[s["b"] % 2]),
        "evaluation": lambda d: w.eval(data=d),
    }
    for name, call in calls.items():
        rejected(f"{name} of the batch {kind}", exc, lambda call=call: call(b))
        if kind not in ("array", "number", "none", "string"):
            rejected(f"{name} of a loader of batches {kind}", exc, lambda call=call: call(iter([b, b])))
            if kind not in ("empty",):
                rejected(f"{name} of a list of batches {kind}", exc, lambda call=call: call([b, b]))
    rejected(f"calibration on the batch {kind}", exc, lambda: w.calib(data=b))
    rejected("calibration on three arrays in a list", exc, lambda: w.calib(data=[w.X, w.Y, w.Y]))
    good = [(w.X, w.Y), w.data, [(w.X, w.Y)], [w.X, w.Y]][s["c"] % 4]
    calls[["GGN", "laplace", "evaluation"][s["b"] % 3]](good)


def empty(w, s):
    fn = lambda data: jnp.sum(data["input"])  # noqa: E731
    e = [[], (), iter([]), {}.values()][s["a"] % 4]
    rejected("empty loader", ValueError, lambda: execute_with_data_loader(fn, e, jit=bool(s["b"] % 2)))
    rejected("wrapped empty loader", ValueError, lambda: wrap_function_with_data_loader(fn, [])())
    rejected("operator on an empty loader", ValueError,
             lambda: DataLoaderMV(lambda vec, data: vec, [])(jnp.ones(2)))
    execute_with_data_loader(fn, [(w.X, w.Y)], jit=bool(s["b"] % 2))


def api_names(w, s):
    """Names of curvatures, predictives, pushforwards, objectives, methods and metrics."""
    pick = lambda cls: [str(x.value) for x in cls]  # noqa: E731
    fam, call = [
        (CurvApprox, lambda n: laplace(w.fn, w.params, w.data, loss_fn="mse", curv_type=n)),
        (Pushforward, lambda n: w.eval(pushforward_type=n)),
        (Pushforward, lambda n: w.calib(pushforward_type=n)),
        (Predictive, lambda n: w.eval(predictive_type=n)),
        (Predictive, lambda n: w.calib(predictive_type=n)),
        (CalibrationObjective, lambda n: w.calib(calibration_objective=n)),
        (CalibrationMethod, lambda n: w.calib(calibration_method=n)),
        (DefaultMetrics, lambda n: w.eval(metrics=n)),
    ][s["a"] % 8]
    valid = pick(fam)
    base = valid[s["c"] % len(valid)]
    cut = [base[:1 + s["k"] % len(base)], base[s["k"] % len(base):]]
    for name in [near(base, s["b"], s["junk"]), *cut]:
        if name.lower() not in valid:
            rejected(f"{fam.__name__} {name!r}", ValueError, lambda name=name: call(name))
    good = {CurvApprox: "full", Pushforward: "linear", Predictive: "none", CalibrationObjective: "nll",
            CalibrationMethod: "grid_search", DefaultMetrics: "regression"}[fam]
    call([good, fam(good), good.upper(), good.title()][s["c"] % 4])


def metric_lists(w, s):
    metric = lambda results, aux, **kw: ({**results, "m": jnp.sum(aux["pred_mean"])}, aux)  # noqa: E731
    bad = [[], (), None, 3, {"m": metric}, 1.5, True][s["a"] % 7]
    data = [w.data, [(w.X, w.Y)]][s["b"] % 2]
    rejected(f"metrics {bad!r}", ValueError, lambda: w.eval(metrics=bad, data=data))
    good = [metric, [metric], (metric,)][s["c"] % 3]
    expect("m" in w.eval(metrics=good, data=data)[0], "evaluation with a metric")


def combos(w, s):
    """Predictives that need the linearised pushforward, objectives that do not fit the task."""
    sp = ["laplace_bridge", "mean_field_0", "mean_field_1", "mean_field_2"][s["a"] % 4]
    lab = {"input": w.X, "target": jnp.argmax(w.Y.reshape(w.n, -1), -1)}
    spn = [sp, sp.upper(), Predictive(sp)][s["b"] % 3]
    rejected(f"{sp} without linearisation", ValueError,
             lambda: w.eval(pushforward_type="nonlinear", predictive_type=spn, metrics="classification", data=lab))
    for obj in ("nll", "ece", "marginal_log_likelihood"):
        rejected(f"calibration of {sp} without linearisation ({obj})", ValueError,
                 lambda obj=obj: w.calib(pushforward_type="nonlinear", predictive_type=spn, data=lab,
                                         calibration_objective=obj))
    rejected("chi-squared objective for classification", ValueError,
             lambda: w.calib(predictive_type=spn, data=lab, calibration_objective="chi_squared"))
    rejected("ECE objective for regression", ValueError, lambda: w.calib(calibration_objective="ece"))
    for k in ("curv_estimate", "curv_type"):
        rejected(f"evidence objective without {k}", ValueError,
                 lambda k=k: w.calib(calibration_objective="marginal_log_likelihood", **{k: None}))
    w.calib(predictive_type=spn, data=lab)


def shapes(w, s):
    """Scores of arrays of different shapes."""
    r = np.random.default_rng(s["a"])
    sh = [int(x) for x in r.integers(1, 4, size=s["b"] % 3 + 1)]
    a, sd, t = (jnp.asarray(np.abs(r.normal(size=sh)) + 0.1) for _ in range(3))
    which = s["c"] % 3
    i = s["b"] % len(sh)
    other = [(*sh[:i], sh[i] + 1, *sh[i + 1:]), (*sh, 1), tuple(sh[1:]), (1, *sh), (1,) * len(sh), ()][s["k"] % 6]
    for fn in (crps_gaussian, nll_gaussian):
        args = {"pred_mean": a, "pred_std": sd, "target": t}
        fn(**args)
        fn(**args, scaled=False)
        if tuple(other) != tuple(sh):
            args[["pred_mean", "pred_std", "target"][which]] = jnp.ones(other)
            rejected(f"{fn.__name__} of shapes {[x.shape for x in args.values()]}", ValueError,
                     lambda fn=fn, args=args: fn(**args))


def setup(w, s):
    """The linearised pushforward and the kernel need their ingredients."""
    P = w.po.fn(w.po.prior, 1.0)
    j = lambda *a: a[-1]  # noqa: E731
    good = {"posterior_state": P, "jvp": j, "vjp": j}
    key = ["posterior_state", "jvp", "vjp"][s["a"] % 3]
    bad = {**good, key: [3, None, "state", {"state": 1}, jnp.ones(2), (j,)][s["b"] % 6]}
    rejected(f"set-up with {key}={bad[key]!r}", TypeError,
             lambda: lin_setup({}, {}, input=w.X[0], dist_state=bad))
    r, aux = lin_setup({}, {}, input=w.X[0], dist_state=good)
    expect(callable(aux["cov_mv"]) and callable(aux["jac_mv"]), "set-up of the linearised pushforward")
    kw = dict(model_fn=w.fn, mean=w.params, posterior_fn=w.po.fn, prior_arguments=w.po.prior)
    rejected("dense kernel without layout", ValueError, lambda: set_posterior_gp_kernel(**kw, dense=True))
    rejected("dense kernel with layout None", ValueError,
             lambda: set_posterior_gp_kernel(**kw, dense=True, output_layout=None))
    set_posterior_gp_kernel(**kw, dense=True, output_layout=w.m.K)
    set_posterior_gp_kernel(**kw, dense=False)


def booleans(w, s):
    del w
    bad = ["true", "false", "", "1", "0", "yes", "TRUE", " True", "False ", "None", "TrueFalse", s["junk"]][s["a"] % 12]
    rejected(f"boolean {bad!r}", ValueError, lambda: str_to_bool(bad))
    expect(str_to_bool("True") is True and str_to_bool("False") is False, "booleans from strings")


FNS = ["create_curvature_fn", "curvature_to_precision_fn", "prec_to_posterior_fn",
       "posterior_state_to_scale_fn", "posterior_state_to_cov_fn", "marginal_log_likelihood_fn"]


def registration(w, s):
    del w
    mask = s["a"] % 63  # at least one is missing
    kw = {f: (lambda *a, **k: None) for i, f in enumerate(FNS) if (mask >> i) & 1}
    missing = [f for f in FNS if f not in kw]
    name = f"p27-{s['b']}"
    try:
        register_curvature_method(name, **kw)
    except ValueError as e:
        for f in FNS:
            expect((f in str(e)) == (f in missing), f"message {str(e)!r} for the missing functions {missing}")
    else:
        raise Violation(f"registration without {missing} and without default was accepted")
    rejected("curvature of a name whose registration failed", Exception,
             lambda: create_posterior_fn(name, lambda v: v, 2)({"prior_prec": 1.0}))


def functions(w, s):
    """Steps of an evaluation: names, fields, keys, callables."""
    fs = [lambda a, **kw: a, lambda a, **kw: 2 * a, lambda a, **kw: a + 1][:1 + s["a"] % 3]
    names = ["x", "y", "z"][:len(fs)]
    x = jnp.sum(w.X)
    where = [({"a": x}, {}), ({}, {"a": x}), ({"a": x}, {"a": 2 * x})][s["b"] % 3]
    do = lambda *f, **kw: apply_fns(*f, **kw)(dict(where[0]), dict(where[1]))  # noqa: E731
    for bad in (names[:-1], [*names, "w"], [*names, *names], [*names, None]):
        rejected(f"{len(fs)} functions named {bad}", ValueError, lambda bad=bad: do(*fs, names=bad, a="a"))
    field = ["result", "Results", "auxiliary", "", None, 3][s["c"] % 6]
    rejected(f"steps with the field {field!r}", ValueError, lambda: do(*fs, names=names, field=field, a="a"))
    for mapping in (["a"], {"b": "a"}):
        rejected(f"transfer to {field!r}", ValueError, lambda mapping=mapping: transfer_entry(mapping, field=field))
        rejected(f"transfer from {field!r}", ValueError,
                 lambda mapping=mapping: transfer_entry(mapping, access_from=field))
    rejected("steps with an unknown key", ValueError, lambda: do(*fs, names=names, a="b"))
    rejected("steps with a second, unknown key", ValueError, lambda: do(*fs, names=names, a="a", c="b"))
    thing = [3, None, "f", [fs[0]], {"f": fs[0]}, (fs[0],)][s["k"] % 6]
    i = s["k"] % (len(fs) + 1)
    rejected(f"step {thing!r}", TypeError, lambda: do(*fs[:i], thing, *fs[i:], names=[*names, "w"], a="a"))
    res, aux = do(*fs, names=names, field=["results", "aux"][s["c"] % 2], a="a")
    expect(set(names) <= set([res, aux][s["c"] % 2]), "results of the steps")
    transfer_entry(["a"], field="aux", access_from="results")


KINDS = {f.__name__: f for f in (loss_names, contradictory, start, batches, empty, api_names, metric_lists, combos,
                                 shapes, setup, booleans, registration, functions)}


def run(spec):
    w = World(spec)
    for s in spec["requests"]:
        KINDS[s["kind"]](w, s)
    return True


I = st.integers(0, 251)  # noqa: E741
request = lambda kinds: st.fixed_dictionaries({  # noqa: E731
    "kind": st.sampled_from(kinds), "a": I, "b": I, "c": I, "k": I,
    "junk": st.text("abcm_ -.1S", min_size=1, max_size=8).map(lambda t: t + "?")})
base = dict(model=gen.model_specs(max_total=6, max_out=3), post=post_specs, n=st.integers(1, 3), seed=gen.seeds,
            x64=gen.x64s)
LIGHT = ["start", "shapes", "setup", "booleans", "registration", "empty", "functions"]
HEAVY = ["loss_names", "contradictory", "batches", "api_names", "metric_lists", "combos"]
SUBS = [
    Sub("entry_points", st.fixed_dictionaries({
        **base, "requests": st.lists(request(HEAVY), min_size=1, max_size=2)}), run, quick=72),
    Sub("names", st.fixed_dictionaries({
        **base, "requests": st.lists(request(["api_names"]), min_size=1, max_size=2)}), run, quick=48),
    Sub("components", st.fixed_dictionaries({
        **base, "requests": st.lists(request(LIGHT), min_size=1, max_size=4)}), run, quick=160),
]
