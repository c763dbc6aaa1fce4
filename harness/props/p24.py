"""P24 Function pipelines pass results exactly as composed."""
from functools import partial

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import Sub, Violation, close, expect
from harness.post import Post, post_specs
from laplax.eval.pushforward import (
    lin_mc_pred_act,
    lin_pred_cov,
    lin_pred_mean,
    lin_pred_std,
    lin_pred_var,
    lin_samples,
    lin_setup,
    nonlin_mc_pred_act,
    nonlin_pred_cov,
    nonlin_pred_mean,
    nonlin_pred_std,
    nonlin_pred_var,
    nonlin_samples,
    nonlin_setup,
    set_lin_pushforward,
    set_nonlin_pushforward,
)
from laplax.eval.utils import apply_fns, finalize_fns, transfer_entry

RULE = (
    "Cases: pipelines of 1-7, sometimes up to 20 apply / transfer / hand-written steps (some repeated) over a small set of keys "
    "present in results, in aux, in both or in neither, all fields, names given or taken from "
    "the functions, extra keyword arguments, python/jax values (sometimes None), eager and jitted; oracle: a "
    "dictionary model. Prefix stability is also checked on the predictive pipelines. "
    "Non-trivial: at least two steps."
)
ASSUMPTIONS = ["applied functions do not modify the entries they receive"]
KEYS = ["a", "b", "c", "map", "target"]
ARGS = ["x", "y", "z"]
W = {"x": 1.0, "y": 10.0, "z": 100.0}


def val(x):
    """The entries may hold None (as the predictives of laplax do for absent values)."""
    return 0.25 if x is None else x


def make_fn(name, coef, called):
    """A function of any keyword arguments; its value identifies what it was given."""

    def f(**kw):
        called.append((name, sorted(kw)))
        tot = coef
        for k in sorted(kw):
            tot = tot * 3 + W.get(k, float(sum(map(ord, k)) % 17)) * val(kw[k])
        return tot

    f.__name__ = name
    return f


def model_fn(coef, kw):
    tot = coef
    for k in sorted(kw):
        tot = tot * 3 + W.get(k, float(sum(map(ord, k)) % 17)) * val(kw[k])
    return tot


class Reject(Exception):
    pass


def build(step, called):
    """The laplax step, and the model step (res, aux, kw) -> None."""
    if step["op"] == "apply":
        fns = [make_fn(n, c, called) for n, c in step["fns"]]
        names = step["names"]
        kwargs = dict(step["map"])
        opts = dict(kwargs)
        if names is not None:
            opts["names"] = list(names)
        if step["field"] != "default":
            opts["field"] = step["field"]
        field = "results" if step["field"] == "default" else step["field"]
        fn = apply_fns(*fns, **opts)

        def mod(res, aux, kw):
            vals = {}
            for k, v in kwargs.items():
                if v in res:
                    vals[k] = res[v]
                elif v in aux:
                    vals[k] = aux[v]
                else:
                    raise Reject((ValueError,))
            if not kwargs:
                vals = dict(aux)
            if names is not None and len(names) != len(fns):
                raise Reject((ValueError,))
            if set(vals) & set(kw):
                raise Reject((TypeError,))
            if field not in ("results", "aux"):
                raise Reject((ValueError,))
            for (n, c), name in zip(step["fns"], names or [n for n, _ in step["fns"]], strict=True):
                (res if field == "results" else aux)[name] = model_fn(c, {**vals, **kw})

        return fn, mod
    if step["op"] == "transfer":
        mp = step["map"]
        opts = {}
        if step["field"] != "default":
            opts["field"] = step["field"]
        if step["from"] != "default":
            opts["access_from"] = step["from"]
        field = "results" if step["field"] == "default" else step["field"]
        src = "aux" if step["from"] == "default" else step["from"]
        fn = transfer_entry(list(mp) if isinstance(mp, list) else dict(mp), **opts)
        pairs = [(k, k) for k in mp] if isinstance(mp, list) else list(mp.items())

        def mod(res, aux, kw):
            d = {"results": res, "aux": aux}
            for k, v in pairs:
                if v not in d[src]:
                    raise Reject((KeyError, ValueError))
                d[field][k] = d[src][v]

        return fn, mod
    c = step["c"]

    def hand(results, aux, **kw):
        return {**results, "n" + step["key"]: c, step["key"]: c + kw.get("w", 0.0)}, {**aux, "h": c}

    def hmod(res, aux, kw):
        res["n" + step["key"]] = c
        res[step["key"]] = c + kw.get("w", 0.0)
        aux["h"] = c

    return hand, hmod


def fix(step):
    """Keep to steps whose meaning is documented."""
    step = dict(step)
    if step["op"] == "apply":
        if not step["map"] and step["field"] == "aux":
            step["fns"] = step["fns"][:1]
            if step["names"] is not None and len(step["names"]) > 1:
                step["names"] = step["names"][:1]
    return step


def same(d, e, what):
    expect(set(d) == set(e), f"{what}: entries {sorted(d)}, expected {sorted(e)}")
    for k in e:
        if e[k] is None or d[k] is None:
            expect(e[k] is None and d[k] is None, f"{what}: entry {k} is {d[k]}, expected {e[k]}")
            continue
        close(d[k], e[k], f"{what}: entry {k}", rtol=1e-5, shape=False)


def run_pipeline(spec):
    num = {"py": float, "jnp": jnp.asarray}[spec["form"]]
    conv = lambda v: None if v is None else num(v)  # noqa: E731
    res = {k: None if v is None else float(v) for k, v in spec["res"].items()}
    aux = {k: None if v is None else float(v) for k, v in spec["aux"].items()}
    kw = {"w": 2.0} if spec["kw"] else {}
    called = []
    order = list(range(len(spec["steps"])))
    order += [i % len(order) for i in spec["again"]]  # the same functions once more
    built = [build(fix(s), called) for s in spec["steps"]]
    steps, listed = [built[i] for i in order], [spec["steps"][i] for i in order]
    mres, maux, rejected, good = dict(res), dict(aux), None, 0
    for fn, mod in steps:
        r2, a2 = dict(mres), dict(maux)
        try:
            mod(r2, a2, kw)
        except Reject as e:
            rejected = e.args[0]
            break
        mres, maux, good = r2, a2, good + 1
    fns = [f for f, _ in steps]
    jres = {k: conv(v) for k, v in res.items()}
    jaux = {k: conv(v) for k, v in aux.items()}
    if rejected is not None:
        try:
            finalize_fns(fns, dict(jres), dict(jaux), **kw)
        except rejected:
            pass
        except Exception as e:  # noqa: BLE001
            raise Violation(f"step {good} raised {type(e).__name__}: {e}, expected {rejected}") from e
        else:
            raise Violation(f"step {good} of {spec['steps']} was accepted, expected {rejected}")
        fns = fns[:good]
    ran = []
    if spec["jit"]:
        out = jax.jit(lambda r, a: finalize_fns(fns, r, a, **kw))(jres, jaux)
    else:
        called.clear()
        out = finalize_fns(fns=fns, results=dict(jres), aux=dict(jaux), **kw)
        ran = list(called)
        want = [n for s in listed[:good] if s["op"] == "apply" for n, _ in fix(s)["fns"]]
        expect([n for n, _ in ran] == want, f"functions called: {ran}, expected {want}")
    same(out, mres, "results")
    # the same pipeline in two pieces, and step by step
    r, a = dict(jres), dict(jaux)
    for i, f in enumerate(fns):
        r, a = f(results=r, aux=a, **kw)
    same(r, mres, "results step by step")
    same(a, maux, "aux step by step")
    return good > 1


def run_reject(spec):
    """Arguments rejected when a step is built."""
    bad = spec["bad"]
    pos = spec["pos"]
    fns = [make_fn("f", 1.0, []), make_fn("g", 2.0, [])]
    thing = {"int": 3, "str": "f", "none": None, "list": [len]}[bad]
    fns.insert(pos, thing)
    try:
        apply_fns(*fns, names=["u", "v", "w"], x="a")
    except TypeError:
        pass
    else:
        raise Violation(f"apply_fns accepted the non-callable {thing!r}")
    for kw in ({"field": spec["field"]}, {"access_from": spec["field"]},
               {"field": spec["field"], "access_from": "results"}):
        try:
            transfer_entry(["a"], **kw)
        except ValueError:
            pass
        else:
            raise Violation(f"transfer_entry accepted {kw}")
    return True


LIN = {"mean": lin_pred_mean, "var": lin_pred_var, "std": lin_pred_std, "cov": lin_pred_cov,
       "samples": lin_samples, "mc": lin_mc_pred_act}
NON = {"mean": nonlin_pred_mean, "var": nonlin_pred_var, "std": nonlin_pred_std,
       "cov": nonlin_pred_cov, "samples": partial(nonlin_samples, num_samples=6),
       "mc": nonlin_mc_pred_act}


def run_prefix(spec):
    """A predictive pipeline extended by further functions keeps the entries computed before."""
    m = gen.Model(spec["model"])
    po = Post(spec["post"], m)
    x = jnp.asarray(m.inputs(1, spec["seed"])[0])
    lin = spec["lin"]
    table, setup = (LIN, lin_setup) if lin else (NON, nonlin_setup)
    names, k = spec["order"], spec["k"]
    f = spec["f"]
    extra = [
        apply_fns(lambda q, **kw: q * f, names=["scaled"], q="map"),
        transfer_entry({"copy": "map"}, access_from="results"),
    ]
    make = set_lin_pushforward if lin else set_nonlin_pushforward
    kw = dict(model_fn=m.fn(), mean_params=m.params, posterior_fn=po.fn, prior_arguments=po.prior,
              loss_scaling_factor=po.ls, key=jax.random.key(spec["seed"] % 997), num_samples=6)
    pre = [setup] + [table[n] for n in names[:k]]
    a = make(pushforward_fns=pre, **kw)(x)
    b = make(pushforward_fns=pre + [table[n] for n in names[k:]] + extra, **kw)(x)
    a2 = make(pushforward_fns=pre, **kw)(x)
    for key, v in a.items():
        expect(key in b, f"entry {key} lost")
        close(b[key], v, f"entry {key} after appending {names[k:]}", x64=spec["x64"],
              rtol=1e-8 if spec["x64"] else 1e-3, scale=1e-3)
        expect(np.array_equal(np.asarray(a2[key]), np.asarray(v), equal_nan=True), f"entry {key} changed in a second pipeline")
    close(b["scaled"], f * np.asarray(b["map"]), "applied function", x64=spec["x64"])
    close(b["copy"], b["map"], "transferred entry", x64=spec["x64"])
    mean = m.f(np.asarray(x)).reshape(m.oshape)
    close(b["map"], mean, "map", x64=spec["x64"], scale=1.0)
    return 0 < k < len(names)


entry = gen.rarely(st.integers(-5, 5), st.none(), 9)
dicts = st.dictionaries(st.sampled_from(KEYS), entry, max_size=4)
key = st.sampled_from(KEYS)
fields = st.sampled_from(["results", "aux", "default", "results", "aux", "default", "nowhere"])
fname = st.tuples(st.sampled_from(["f", "g", "h", "a"]), st.integers(1, 5).map(float)).map(list)
apply_step = st.fixed_dictionaries({
    "op": st.just("apply"), "fns": st.lists(fname, min_size=1, max_size=3),
    "names": st.one_of(st.none(), st.lists(key, min_size=1, max_size=3)),
    "map": st.dictionaries(st.sampled_from(ARGS), key, max_size=3), "field": fields}).flatmap(
        lambda s: st.booleans().map(lambda b: {**s, "names": None if s["names"] is None else (
            (s["names"] * 3)[:len(s["fns"])] if b else s["names"])}))
ok = st.sampled_from(["results", "aux", "default"])
transfer_step = st.fixed_dictionaries({
    "op": st.just("transfer"), "map": st.one_of(st.lists(key, max_size=3, unique=True),
                                                st.dictionaries(key, key, max_size=3)),
    "field": ok, "from": ok})
hand_step = st.fixed_dictionaries({"op": st.just("hand"), "key": key, "c": st.integers(1, 9).map(float)})
step = st.one_of(apply_step, transfer_step, hand_step)
pipe = dict(again=gen.rarely(st.just([]), st.lists(st.integers(0, 6), min_size=1, max_size=3), 4),
            steps=gen.rarely(st.lists(step, min_size=1, max_size=7), st.lists(step, min_size=8, max_size=20)),
            res=dicts, aux=st.one_of(st.dictionaries(key, entry, min_size=2, max_size=5),
                         *[st.fixed_dictionaries({k: entry for k in KEYS})] * 2),
            kw=st.booleans(), form=st.sampled_from(["py", "jnp"]), jit=st.booleans(), x64=gen.x64s)
SUBS = [
    Sub("pipeline", st.fixed_dictionaries(pipe), run_pipeline, quick=700),
    Sub("reject", st.fixed_dictionaries({
        "bad": st.sampled_from(["int", "str", "none", "list"]), "pos": st.integers(0, 2),
        "field": st.sampled_from(["nowhere", "Results", "", "auxiliary"]), "x64": gen.x64s}),
        run_reject, quick=32),
    Sub("prefix", st.fixed_dictionaries({
        "model": gen.model_specs(max_total=7, out_shapes="class"), "post": post_specs,
        "seed": gen.seeds, "lin": st.booleans(), "order": st.permutations(
            ["mean", "var", "std", "cov", "samples", "mc"]), "k": st.integers(0, 6),
        "f": st.sampled_from([2.0, -1.0, 0.5]), "x64": gen.x64s}), run_prefix, quick=64),
]
