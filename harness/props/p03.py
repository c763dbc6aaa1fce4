"""P03 Streaming over a data loader equals using all the data at once."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import Sub, close, expect, flat, raises, same_structure
from laplax.curv.ggn import create_ggn_mv_without_data
from laplax.util.flatten import create_pytree_flattener, wrap_function
from laplax.util.loader import (
    DataLoaderMV,
    execute_with_data_loader,
    input_target_split,
    reduce_add,
    reduce_concat,
    reduce_online_mean,
    reduce_sum,
    wrap_function_with_data_loader,
)
from laplax.util.mv import diagonal, to_dense
from laplax.util.utils import identity

RULE = (
    "Cases: datasets of 1-200 points cut into up to 40 arbitrary consecutive batches (unequal, single "
    "points), tuple or dict batches, list or re-iterable loaders, all four reductions, pytree "
    "results, several products per loader, jit on/off, wrapped inputs/outputs; oracle: numpy "
    "on the concatenated data. Non-trivial: at least two batches."
)
ASSUMPTIONS = ["numpy reductions and the closed-form Gauss-Newton matrix are correct"]


class Loader:
    """Re-iterable loader."""

    def __init__(self, batches):
        self.batches = batches
        self.passes = 0

    def __iter__(self):
        self.passes += 1
        return iter(self.batches)


class Refilled:
    """Re-iterable loader that yields one object again and again, with new contents."""

    def __init__(self, batches, form):
        self.batches, self.form = batches, form

    def __iter__(self):
        d, l = {}, [None, None]
        for a, b in self.batches:
            if self.form == "dict":
                d["input"], d["target"] = jnp.asarray(a), jnp.asarray(b)
                yield d
            else:
                l[:] = [jnp.asarray(a), jnp.asarray(b)]
                yield l


def batches(X, Y, sizes, form):
    bs = list(zip(gen.cut(X, sizes), gen.cut(Y, sizes), strict=True))
    if form == "dict":
        return [{"input": jnp.asarray(a), "target": jnp.asarray(b)} for a, b in bs], identity
    if form == "list":
        return [[jnp.asarray(a), jnp.asarray(b)] for a, b in bs], input_target_split
    if form == "numpy":
        return [(a, b) for a, b in bs], input_target_split
    return [(jnp.asarray(a), jnp.asarray(b)) for a, b in bs], input_target_split


def run_ggn(spec):
    m = gen.Model(spec["model"])
    sizes, seed, x64 = spec["sizes"], spec["seed"], spec["x64"]
    n = sum(sizes)
    X, Y = m.inputs(n, seed), gen.targets(m, n, "mse", seed)
    bs, tr = batches(X, Y, sizes, spec["form"])
    loader = Loader(bs) if spec["reiter"] else bs
    if spec["reiter"] and spec["refill"]:
        loader = Refilled(list(zip(gen.cut(X, sizes), gen.cut(Y, sizes), strict=True)), spec["form"])
    fac = spec["factor"]
    mv = create_ggn_mv_without_data(m.fn(), m.params, "mse", fac)
    if spec["jit"]:
        inner = jax.jit(mv)
        mv = lambda vec, data: inner(vec, data)  # noqa: E731
    dl = DataLoaderMV(mv, loader, transform=tr, reduce=reduce_add)
    G = gen.ggn(m, X, "mse", fac)
    sc = float(np.abs(G).sum(1).max())
    for i in range(spec["calls"]):
        v = gen.vec(m.P, seed + i)
        got = dl(m.tree(v))
        same_structure(got, m.params, "streamed product")
        close(flat(got), G @ v, "streamed product", x64=x64, scale=sc)
    what = spec["extract"]
    flatten, unflatten = create_pytree_flattener(m.params)
    wrapped = wrap_function(dl, input_fn=unflatten, output_fn=flatten)
    if what == "dense":
        D = to_dense(wrapped, layout=m.P, **spec["opts"])
        close(D, G, "dense matrix of a wrapped streamed operator", x64=x64, scale=sc)
    elif what == "diag":
        d = diagonal(wrapped, layout=m.P, **spec["opts"])
        close(d, np.diag(G), "diagonal of a wrapped streamed operator", x64=x64, scale=sc)
    elif what == "diag_tree":
        d = diagonal(dl, layout=m.params, **spec["opts"])
        close(flat(d), np.diag(G), "diagonal of a streamed operator", x64=x64, scale=sc)
    elif what == "wrapped":
        # two wrappings compose: the second is applied outside the first
        w2 = wrap_function(wrapped, input_fn=lambda a: 2.0 * a, output_fn=lambda a: a + 1.0)
        v = gen.vec(m.P, seed + 7)
        close(w2(jnp.asarray(v)), 2 * G @ v + 1, "twice wrapped streamed operator", x64=x64,
              scale=2 * sc + 1)
        close(wrapped(jnp.asarray(v)), G @ v, "wrapping changed the original", x64=x64, scale=sc)
        close(flat(dl(m.tree(v))), G @ v, "wrapping changed the loader operator", x64=x64, scale=sc)
    return len(sizes) > 1


def _result_fn(kind):
    """Functions of a batch: (jax fn, numpy per-sample rows)."""
    if kind == "tree":
        return lambda data: {"a": data["input"] * 2.0, "b": (data["target"] ** 2,)}
    if kind == "array":
        return lambda data: data["input"] + 1.0
    if kind == "mixed":  # leaves with another or no leading axis
        return lambda data: {"a": jnp.sum(data["target"]), "b": data["input"] * 2.0,
                             "c": data["target"][:1] + jnp.sum(data["target"]),
                             "d": jnp.concatenate([data["target"], data["target"] + 1.0])}
    return lambda data: jnp.sum(data["input"])


def run_reduce(spec):
    sizes, kind, red = spec["sizes"], spec["kind"], spec["reduce"]
    n = sum(sizes)
    r = np.random.default_rng(spec["seed"])
    X = np.round(r.normal(size=(n, *spec["shape"])), 3)
    Y = np.round(r.normal(size=(n, 2)), 3)
    bs, tr = batches(X, Y, sizes, spec["form"])
    loader = Loader(bs) if spec["reiter"] else (iter(bs) if spec["oneshot"] else bs)
    if spec["reiter"] and spec["refill"]:
        loader = Refilled(list(zip(gen.cut(X, sizes), gen.cut(Y, sizes), strict=True)), spec["form"])
    fn = _result_fn(kind)
    x64 = spec["x64"]
    reds = {"sum": reduce_sum, "add": reduce_add, "concat": reduce_concat, "mean": reduce_online_mean}
    if kind == "scalar":
        parts = [np.array(c.sum()) for c in gen.cut(X, sizes)]
        if red == "concat":
            return False  # scalars cannot be concatenated
        if red == "sum" :
            return False  # reduce_sum needs a leading axis
        exp = [{"add": lambda p: sum(p), "mean": lambda p: np.mean(p)}[red](parts)]
    elif kind == "mixed":  # mean over the samples of every leaf by itself
        if red != "mean":
            return False
        cs = gen.cut(Y, sizes)
        exp = [np.mean([c.sum() for c in cs]), 2.0 * X.mean(0), np.mean([c[0] + c.sum() for c in cs], axis=0),
               np.concatenate([Y, Y + 1.0]).mean(0)]
    else:
        rows = [2.0 * X, Y ** 2] if kind == "tree" else [X + 1.0]
        exp = []
        for a in rows:
            if red == "mean":
                exp.append(a.mean(0))
            elif red == "concat":
                exp.append(a)
            elif red == "sum":
                exp.append(a.sum(0, keepdims=True))
            else:  # element-wise addition needs equal sizes
                if len(set(sizes)) > 1:
                    return False
                exp.append(sum(gen.cut(a, sizes)))
    call = spec["call"]
    if call == "execute":
        res = execute_with_data_loader(fn, loader, transform=tr, reduce=reds[red], jit=spec["jit"])
        results = [res]
    else:
        wrapped = wrap_function_with_data_loader(
            lambda c, data: jax.tree.map(lambda a: c * a, fn(data)), loader,
            transform=tr, reduce=reds[red], jit=spec["jit"])
        results = [wrapped(1.0)]
        if not (spec["oneshot"] and not spec["reiter"]):
            results.append(jax.tree.map(lambda a: a / 2, wrapped(2.0)))
    for res in results:
        leaves = jax.tree.leaves(res)
        expect(len(leaves) == len(exp), f"number of result leaves {len(leaves)}")
        for a, e in zip(leaves, exp, strict=True):
            close(a, e, f"{red} reduction over batches {sizes}", x64=x64, scale=1.0)
    return len(sizes) > 1


def run_reduce_direct(spec):
    """Reductions driven by hand, with their options, over histories of results."""
    sizes, red, axis = spec["sizes"], spec["reduce"], spec["axis"]
    r = np.random.default_rng(spec["seed"])
    shape = [2, 3]
    arrs = []
    for s in sizes:
        sh = list(shape)
        sh.insert(axis, s)
        arrs.append(np.round(r.normal(size=sh), 3))
    state = None
    for i, a in enumerate(arrs):
        t = {"x": jnp.asarray(a)}
        if red == "sum":
            res, state = reduce_sum(t, state, keepdims=spec["keep"], axis=axis)
            exp = sum(b.sum(axis, keepdims=spec["keep"]) for b in arrs[: i + 1])
        elif red == "concat":
            res, state = reduce_concat(t, state, axis=axis)
            exp = np.concatenate(arrs[: i + 1], axis)
        else:
            t = {"x": jnp.asarray(np.moveaxis(a, axis, 0))}
            res, state = reduce_online_mean(t, state)
            exp = np.concatenate([np.moveaxis(b, axis, 0) for b in arrs[: i + 1]]).mean(0)
        close(res["x"], exp, f"{red} after {i + 1} batches", x64=spec["x64"], scale=1.0)
    return len(sizes) > 1


def run_narrow(spec):
    """Results of narrow types: their sums and means do not wrap around."""
    sizes, red, dt = spec["sizes"], spec["reduce"], spec["dtype"]
    r = np.random.default_rng(spec["seed"])
    n = sum(sizes)
    shape = (n, *spec["shape"])
    if dt == "bool":
        X = r.uniform(size=shape) < 0.7
    else:
        X = r.integers(*{"int8": (60, 128), "uint8": (120, 256), "int16": (9000, 32768)}[dt], size=shape).astype(dt)
    bs = [{"input": jnp.asarray(c)} for c in gen.cut(X, sizes)]
    reds = {"sum": reduce_sum, "concat": reduce_concat, "mean": reduce_online_mean}
    out = execute_with_data_loader(lambda data: {"r": data["input"]}, bs, transform=identity,
                                 reduce=reds[red], jit=spec["jit"])["r"]
    E = X.astype(float)
    exp = {"sum": lambda: E.sum(0, keepdims=True), "concat": lambda: E, "mean": lambda: E.mean(0)}[red]()
    close(np.asarray(out, float), exp, f"{red} reduction of {dt} results over batches {sizes}", x64=spec["x64"],
          scale=1.0 + np.abs(exp).max())
    return n > 4 and red != "concat"


def run_long(spec):
    """Thousands of rows."""
    r = np.random.default_rng(spec["seed"])
    n, red = sum(spec["sizes"]), spec["reduce"]
    X = np.round(r.normal(size=(n, *spec["shape"])), 3) + spec["shift"]
    bs = [jnp.asarray(c) for c in gen.cut(X, spec["sizes"])]
    reds = {"sum": reduce_sum, "concat": reduce_concat, "mean": reduce_online_mean}
    out = execute_with_data_loader(lambda data: data, bs, transform=identity, reduce=reds[red], jit=spec["jit"])
    exp = {"sum": lambda: X.sum(0, keepdims=True), "concat": lambda: X, "mean": lambda: X.mean(0)}[red]()
    close(out, exp, f"{red} reduction over batches {spec['sizes']}", x64=spec["x64"],
          scale=(n if red == "sum" else 1.0) * (1 + spec["shift"]))
    return n > 1000


def run_empty(spec):
    red = {"sum": reduce_sum, "add": reduce_add, "concat": reduce_concat,
           "mean": reduce_online_mean}[spec["reduce"]]
    fn = lambda data: data["input"]  # noqa: E731
    empty = [] if spec["list"] else iter([])
    with raises(ValueError, "empty loader"):
        execute_with_data_loader(fn, empty, reduce=red)
    with raises(ValueError, "empty loader"):
        wrap_function_with_data_loader(lambda data: data["input"], [], reduce=red)()
    with raises(ValueError, "empty loader"):
        DataLoaderMV(lambda vec, data: vec, [], reduce=red)(jnp.ones(2))
    return True


forms = st.sampled_from(["tuple", "dict", "list", "numpy"])
sz = gen.rarely(
    st.lists(st.integers(1, 4), min_size=1, max_size=4),
    st.one_of(st.lists(st.integers(1, 4), min_size=5, max_size=40),
              st.lists(st.integers(1, 80), min_size=1, max_size=4)), 7)
SUBS = [
    Sub("ggn", st.fixed_dictionaries({
        "model": gen.model_specs(codes=True, max_total=8, wide=24), "sizes": sz, "seed": gen.seeds, "x64": gen.x64s,
        "form": forms, "reiter": st.booleans(), "refill": st.booleans(), "factor": gen.log_floats(0.2, 5),
        "jit": st.booleans(), "calls": st.integers(1, 2),
        "opts": st.sampled_from([{}, {}, {"mv_jittable": False}, {"diagonal_batch_size": 2},
                                 {"to_dense_batch_size": 3, "diagonal_batch_size": 3}]),
        "extract": st.sampled_from(["dense", "diag", "diag_tree", "wrapped"])}),
        run_ggn, quick=120),
    Sub("reduce", st.fixed_dictionaries({
        "sizes": sz, "kind": st.sampled_from(["tree", "array", "mixed", "array", "tree", "scalar"]),
        "reduce": st.sampled_from(["sum", "add", "concat", "mean", "mean"]),
        "shape": st.sampled_from([[], [2], [2, 2]]), "seed": gen.seeds, "x64": gen.x64s,
        "form": forms, "reiter": st.booleans(), "refill": st.booleans(), "oneshot": st.booleans(), "jit": st.booleans(),
        "call": st.sampled_from(["execute", "wrap"])}), run_reduce, quick=400),
    Sub("reduce_direct", st.fixed_dictionaries({
        "sizes": sz, "reduce": st.sampled_from(["sum", "concat", "mean"]),
        "axis": st.integers(0, 2), "keep": st.booleans(), "seed": gen.seeds, "x64": gen.x64s}),
        run_reduce_direct, quick=160),
    Sub("narrow", st.fixed_dictionaries({
        "sizes": sz, "reduce": st.sampled_from(["sum", "concat", "mean", "mean"]),
        "dtype": st.sampled_from(["bool", "int8", "uint8", "int16"]), "shape": st.sampled_from([[], [2], [2, 2]]),
        "seed": gen.seeds, "x64": gen.x64s, "jit": st.booleans()}), run_narrow, quick=64),
    Sub("long", st.fixed_dictionaries({
        "sizes": st.lists(st.sampled_from([1, 7, 1000, 2048, 5001]), min_size=1, max_size=6),
        "reduce": st.sampled_from(["sum", "concat", "mean"]), "shape": st.sampled_from([[], [3]]),
        "shift": st.sampled_from([0.0, 0.0, 10.0]), "seed": gen.seeds, "x64": gen.x64s, "jit": st.booleans()}),
        run_long, quick=24),
    Sub("empty", st.fixed_dictionaries({
        "reduce": st.sampled_from(["sum", "add", "concat", "mean"]), "list": st.booleans()}),
        run_empty, quick=8),
]
