"""P18 One-call Laplace fit equals the documented Laplace approximation."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import Sub, close, expect, flat, raises, same_structure
from laplax.api import GGN, laplace
from laplax.curv.utils import LowRankTerms
from laplax.enums import CurvApprox, LossFn

RULE = (
    "Cases: formula models over all pytree layouts, 1-6, sometimes up to 40 points, losses mse/cross-entropy/binary/"
    "none/custom, data as tuple, list, dictionary, list of batches or re-iterable loader in any "
    "cut (also repeated or refilled batch objects, own formats with a transform), batched and single-input models, all curvature types, sample counts, jit options and "
    "spellings; oracle: numpy GGN x total/curvature samples and numpy inverse. "
    "Non-trivial: at least two points and a non-zero GGN."
)
ASSUMPTIONS = [
    "numpy linear algebra; closed-form Jacobians of the generated model",
    "low-rank types are compared where the rank suffices (GGN of distinct eigenvalues)",
]


class Loader:
    """Re-iterable, nothing but __iter__."""

    reuse = False

    def __init__(self, batches):
        self.batches, self.n_iter = batches, 0

    def __iter__(self):
        self.n_iter += 1
        if not self.reuse:
            return iter(self.batches)
        return self.refill()

    def refill(self):
        """One container, refilled for every batch."""
        box = type(self.batches[0])()
        for b in self.batches:
            box.clear()
            box.update(b)
            yield box


class Sized(Loader):
    """With length and indexing, too."""

    def __len__(self):
        return len(self.batches)

    def __getitem__(self, i):
        return self.batches[i]


FORMS = ["tuple", "list", "dict", "dict+", "tuples", "dicts", "lists", "loader_t", "loader_d", "loader_r",
         "loader_s", "batch_tuple"]
MULTI = ["tuples", "dicts", "lists", "loader_t", "loader_d", "loader_r", "loader_s", "batch_tuple"]


def make_data(form, X, Y, split, np_arrays, repeat=1):
    a = (lambda z: np.asarray(z)) if np_arrays else jnp.asarray
    X, Y = a(X), a(Y)
    if form == "tuple":
        return (X, Y)
    if form == "list":
        return [X, Y]
    if form == "dict":
        return {"input": X, "target": Y}
    if form == "dict+":
        return {"id": a(np.arange(len(X))), "target": Y, "input": X}
    sizes = gen.fit_split(split, len(X))
    pairs = list(zip(gen.cut(X, sizes), gen.cut(Y, sizes), strict=True))
    pairs = pairs * repeat  # the same objects several times
    if form in ("dicts", "loader_d", "loader_r"):
        bs = [{"input": x, "target": y} for x, y in pairs]
    elif form == "lists":
        bs = [[x, y] for x, y in pairs]
    else:
        bs = pairs
    if form == "loader_s":
        return Sized(bs)
    L = Loader(bs)
    L.reuse = form == "loader_r"
    return L if form.startswith("loader") else bs


def make_loss(kind, m, spec):
    seed = spec["seed"]
    if kind == "custom":
        per = gen.custom_loss(m.K, seed)
        if spec["batched"]:
            return lambda p, t: jnp.sum(jax.vmap(per)(p, t))
        return per
    return LossFn(kind) if spec["enum"] else kind


def setup(spec):
    m = gen.Model(spec["model"])
    kind, seed = spec["loss"], spec["seed"]
    if kind == "cross_entropy" and len(m.oshape) != 1:
        m = gen.Model({**spec["model"], "o": [m.K]})
    X = m.inputs(spec["n"], seed)
    Y = gen.targets(m, spec["n"], kind, seed, soft=spec["soft"])
    form = spec["form"]
    repeat = spec["repeat"] if form in MULTI else 1
    if form == "batch_tuple":
        form = "tuples"
    data = make_data(form, X, Y, spec["split"], spec["np"], repeat)
    X, Y = np.concatenate([X] * repeat), np.concatenate([Y] * repeat)
    batched = spec["batched"]
    G = gen.ggn(m, X, kind, 1.0, seed)
    return m, X, Y, data, batched, G


def scale_of(m, X, G, x64):
    """Size of the terms summed in the GGN (cancellation in single precision)."""
    j2 = sum(float(np.abs(m.jac(x)).max()) ** 2 for x in X)
    return float(np.abs(G).max()) * 3 + (1e-4 if x64 else 2e-2) * j2 + 1e-3


def run_ggn(spec):
    m, X, Y, data, batched, G = setup(spec)
    x64, f = spec["x64"], spec["factor"]
    kw = {"factor": f} if f != 1.0 else {}
    if spec["expl"]:
        kw["verbose_logging"] = False
    if batched:
        kw["vmap_over_data"] = False
    if spec["trans"] and spec["form"] in ("dict", "dicts", "loader_d", "loader_r"):
        # batches in the user's own format
        kw["transform"] = lambda b: {"input": b["x"], "target": b["y"]}
        new = lambda b: {"y": b["target"], "x": b["input"], "k": None}  # noqa: E731
        if isinstance(data, dict):
            data = new(data)
        elif isinstance(data, list):
            data = [new(b) for b in data]
        else:
            data.batches = [new(b) for b in data.batches]
    mv = GGN(m.fn(batched), m.params, data, make_loss(spec["loss"], m, spec), **kw)
    sc = f * scale_of(m, X, G, x64)
    g = jax.jit(mv) if spec["jit"] else mv
    for k in range(2):
        v = gen.vec(m.P, spec["seed"] + k)
        out = g(m.tree(v))
        same_structure(out, m.params, "GGN product")
        close(flat(out), f * G @ v, "GGN product", x64=x64, scale=sc, rtol=1e-8 if x64 else 1e-3)
    return spec["n"] > 1 and np.abs(G).max() > 1e-6


def spectral_ok(C):
    """Distinct, well separated non-zero eigenvalues."""
    w = np.sort(np.linalg.eigvalsh(C))[::-1]
    top = w[0]
    if top < 1e-6:
        return 0
    w = w[w > 1e-9 * top]
    if w[-1] < 1e-4 * top:
        return 0
    if len(w) > 1 and np.min(-np.diff(w)) < 1e-3 * top:
        return 0
    return len(w)


def run_fit(spec):
    m, X, Y, data, batched, G = setup(spec)
    x64, ct, P = spec["x64"], spec["curv"], m.P
    nt, nc = spec["total"], spec["nc"]
    fac = nt / nc
    C = fac * G
    kw = {}
    if nt != 1 or spec["expl"]:
        kw["num_total_samples"] = nt
    if nc != 1 or spec["expl"]:
        kw["num_curv_samples"] = nc
    if batched:
        kw["vmap_over_data"] = False
    if spec["jit"] is not None:
        kw["curv_mv_jit"] = spec["jit"]
    rk = spectral_ok(C)
    if ct == "lanczos":
        kw["rank"] = rk + 1
        kw["key"] = jax.random.key(spec["seed"] % 911)
        if spec["mvj"] is not None:
            kw["mv_jit"] = spec["mvj"]
    elif ct == "lobpcg":
        kw["rank"] = max(1, rk)
        kw["key"] = jax.random.key(spec["seed"] % 911)
    name = {"enum": CurvApprox(ct), "str": ct, "upper": ct.upper(), "cap": ct.capitalize()}[spec["name"]]
    if ct in ("lanczos", "lobpcg") and (not rk or (ct == "lobpcg" and P <= 5 * max(1, rk)) or not x64):
        ct, name = "full", "full"
        for k in ("rank", "key", "mv_jit"):
            kw.pop(k, None)
    if spec["positional"]:
        post, est = laplace(m.fn(batched), m.params, data,
                            loss_fn=make_loss(spec["loss"], m, spec), curv_type=name, **kw)
    else:
        post, est = laplace(model_fn=m.fn(batched), params=m.params, data=data,
                            loss_fn=make_loss(spec["loss"], m, spec), curv_type=name, **kw)
    sc = fac * scale_of(m, X, G, x64)
    rt = (1e-5 if ct in ("lanczos", "lobpcg") else 1e-8) if x64 else 1e-3
    if ct == "full":
        close(est, C, "full curvature", x64=x64, scale=sc, rtol=rt)
    elif ct == "diagonal":
        close(est, np.diag(C), "diagonal curvature", x64=x64, scale=sc, rtol=rt)
        C = np.diag(np.diag(C))
    else:
        expect(isinstance(est, LowRankTerms), f"low-rank curvature is {type(est)}")
        U, S = np.asarray(est.U, float), np.asarray(est.S, float)
        close((U * S) @ U.T, C, f"{ct} curvature", scale=sc, rtol=rt)
    for p in spec["priors"]:
        pr = {"prior_prec": p["tau"]}
        if p["s2"] is not None:
            pr["sigma_squared"] = p["s2"]
        s2 = 1.0 if p["s2"] is None else p["s2"]
        po = post(pr, p["ls"]) if p["ls"] != 1.0 else post(pr)
        cov = p["ls"] * np.linalg.inv(s2 * C + p["tau"] * np.eye(P))
        v = gen.vec(P, spec["seed"])
        out = po.cov_mv(po.state)(m.tree(v))
        same_structure(out, m.params, "covariance product")
        cond = 1 + s2 * (float(np.linalg.norm(C, 2)) + sc) / p["tau"]
        csc = float(np.abs(cov).max()) * max(1.0, np.abs(v).sum())
        crt = (1e-4 if ct in ("lanczos", "lobpcg") else 1e-9 * cond + 1e-9) if x64 else min(1e-5 * cond + 1e-4, 1.0)
        close(flat(out), cov @ v, "covariance product", x64=x64, scale=csc, rtol=crt)
        L = np.stack([flat(po.scale_mv(po.state)(m.tree(e))) for e in np.eye(P)], axis=1)
        close(L @ L.T, cov, "scale S S^T", x64=x64, scale=float(np.abs(cov).max()), rtol=crt * 5)
    return spec["n"] > 1 and np.abs(G).max() > 1e-6


def run_reject(spec):
    """Malformed batches, unknown names."""
    m = gen.Model(spec["model"])
    n = spec["n"]
    X, Y = jnp.asarray(m.inputs(n, 1)), jnp.asarray(gen.targets(m, n, "mse", 1))
    bad = {
        "triple": (X, Y, Y), "single": (X,), "list3": [X, Y, X], "empty_tuple": (),
        "no_target": {"input": X, "label": Y}, "no_input": {"x": X, "target": Y}, "empty_dict": {},
        "triples": [(X, Y, Y)], "bad_dicts": [{"input": X}], "array_batches": Loader([X, X]),
        "str_batches": Loader(["ab"]), "loader_triples": Loader([(X, Y, X)]),
    }[spec["bad"]]
    for f in (
        lambda: laplace(m.fn(), m.params, bad, loss_fn="mse", curv_type="full"),
        lambda: GGN(m.fn(), m.params, bad, "mse"),
    ):
        with raises(ValueError, f"malformed data ({spec['bad']})"):
            f()
    with raises(ValueError, "unknown curvature type"):
        laplace(m.fn(), m.params, (X, Y), loss_fn="mse", curv_type="hessian")
    with raises(ValueError, "unknown loss"):
        laplace(m.fn(), m.params, (X, Y), loss_fn="mae", curv_type="full")
    return True


priors = st.lists(st.fixed_dictionaries({
    "tau": gen.log_floats(0.05, 20), "s2": st.one_of(st.none(), gen.log_floats(0.2, 5)),
    "ls": st.one_of(st.just(1.0), gen.log_floats(0.3, 5))}), min_size=1, max_size=2)
base = dict(
    model=gen.model_specs(codes=True, max_total=12, wide=40), loss=st.sampled_from(gen.LOSSES), n=gen.counts(1, 6, 40),
    soft=st.booleans(), repeat=gen.rarely(st.just(1), st.integers(2, 3)),
    seed=gen.seeds, form=st.sampled_from(FORMS), split=st.lists(st.integers(1, 4), min_size=1, max_size=12),
    np=st.booleans(), batched=st.booleans(), enum=st.booleans(), expl=st.booleans(), x64=gen.x64s)
SUBS = [
    Sub("ggn", st.fixed_dictionaries({
        **base, "trans": st.booleans(), "factor": st.one_of(st.just(1.0), gen.log_floats(0.1, 30)), "jit": st.booleans()}),
        run_ggn, quick=110),
    Sub("fit", st.fixed_dictionaries({
        **base, "curv": st.sampled_from(["full", "full", "diagonal", "diagonal", "lanczos", "lobpcg"]),
        "total": st.sampled_from([1, 1, 10, 37]), "nc": st.sampled_from([1, 1, 2, 5]),
        "jit": st.sampled_from([None, True, False]), "mvj": st.sampled_from([None, True, False]),
        "name": st.sampled_from(["enum", "str", "upper", "cap"]), "positional": st.booleans(),
        "priors": priors}), run_fit, quick=150),
    Sub("reject", st.fixed_dictionaries({
        "model": gen.model_specs(max_total=6), "n": st.integers(1, 3), "x64": st.just(True),
        "bad": st.sampled_from(["triple", "single", "list3", "empty_tuple", "no_target", "no_input",
                                "empty_dict", "triples", "bad_dicts", "array_batches", "str_batches",
                                "loader_triples"])}), run_reject, quick=36),
]
