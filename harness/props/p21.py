"""P21 Registered methods are used everywhere and leave built-ins intact."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import Sub, Violation, close, expect, flat, raises, same_structure
from harness.props.p10 import evidence, total_loss
from laplax import api
from laplax.api import calibration
from laplax.curv import cov as covmod
from laplax.curv.cov import create_posterior_fn, estimate_curvature, set_posterior_fn
from laplax.curv.utils import LowRankTerms
from laplax.enums import CurvApprox
from laplax.eval import likelihood, marginal_log_likelihood
from laplax.eval.pushforward import lin_pred_cov, lin_pred_mean, lin_setup, set_lin_pushforward
from laplax.register import register_calibration_method, register_curvature_method

RULE = (
    "Cases: histories of 2-9, sometimes 16 steps over a growing set of names: complete, partial, empty and "
    "rejected registrations, defaults that are built-in (enum or string) or registered names, "
    "overwriting of registered and built-in names, interleaved with uses of any known name by "
    "estimation, posterior, product state functions, pushforward, marginal likelihood and "
    "calibration; oracle: a model of each name's six stages in numpy. "
    "Non-trivial: a use after at least one accepted registration."
)
ASSUMPTIONS = [
    "registered stage functions are scaled versions of the stages found at import time",
    "a default is resolved when the method is registered",
]
BUILTIN = ["full", "diagonal", "lanczos", "lobpcg"]
REP = {"full": "full", "diagonal": "diagonal", "lanczos": "lowrank", "lobpcg": "lowrank"}
STAGES = ["create_curvature_fn", "curvature_to_precision_fn", "prec_to_posterior_fn",
          "posterior_state_to_scale_fn", "posterior_state_to_cov_fn", "marginal_log_likelihood_fn"]
TABLES = [covmod.CURVATURE_METHODS, covmod.CURVATURE_PRECISION_METHODS, covmod.CURVATURE_TO_POSTERIOR_STATE,
          covmod.CURVATURE_STATE_TO_SCALE, covmod.CURVATURE_STATE_TO_COV,
          likelihood.CURVATURE_MARGINAL_LOG_LIKELIHOOD]
ORIG = [dict(t) for t in TABLES]
ORIG_CAL = dict(api.calibration_options)


def restore():
    for t, o in zip([*TABLES, api.calibration_options], [*ORIG, ORIG_CAL], strict=True):
        t.clear()
        t.update(o)


def scale_tree(x, c):
    if isinstance(x, LowRankTerms):
        return LowRankTerms(U=x.U, S=x.S * c, scalar=x.scalar * c)
    return jax.tree.map(lambda a: a * c, x)


def custom(stage, rep, c, calls):
    """Stage function of a registered method: the built-in one, scaled by c."""
    base = ORIG[stage]["lanczos" if rep == "lowrank" else rep]

    def create(mv, layout, extra=1.0, **kw):
        calls.append((stage, c))
        return scale_tree(base(mv, layout=layout, **kw), c * extra)

    def precision(curv_estimate, prior_arguments, loss_scaling_factor=1.0):
        calls.append((stage, c))
        return scale_tree(base(curv_estimate, prior_arguments, loss_scaling_factor), c)

    def to_state(prec):
        calls.append((stage, c))
        return base(scale_tree(prec, c))

    def product(state):
        calls.append((stage, c))
        mv = base(state)
        return lambda vec: c * mv(vec)

    def mll(posterior_precision, prior_arguments, full_fn, params, data):
        calls.append((stage, c))
        return c + base(posterior_precision, prior_arguments, full_fn, params, data)

    return [create, precision, to_state, product, product, mll][stage]


class Machine:
    def __init__(self, spec):
        self.spec, self.x64 = spec, spec["x64"]
        m = self.m = gen.Model(spec["model"])
        seed, n = spec["seed"], spec["n"]
        self.X, self.Y = m.inputs(n, seed), gen.targets(m, n, "mse", seed)
        self.data = {"input": jnp.asarray(self.X), "target": jnp.asarray(self.Y)}
        self.C = gen.psd(m.P, m.P, seed, "decay")
        self.L = total_loss(m, self.X, self.Y, "mse", seed)
        # name -> (representation, factors of the six stages, low-rank algorithm of the creation stage)
        self.model = {b: (REP[b], [None] * 6) for b in BUILTIN}
        self.calls = []
        self.lob = {b: b == "lobpcg" for b in BUILTIN}
        self.used = self.registered = False

    # expected values ------------------------------------------------------
    def f(self, name, stage, default=1.0):
        c = self.model[name][1][stage]
        return default if c is None else c

    def base_C(self, rep):
        return np.diag(np.diag(self.C)) if rep == "diagonal" else self.C

    def prec(self, name, C, p):
        c2 = self.f(name, 1)
        s2 = 1.0 if p["s2"] is None else p["s2"]
        return c2 * (s2 * C + p["tau"] * np.eye(len(C))) / p["ls"]

    def prior(self, p):
        d = {"prior_prec": p["tau"]}
        if p["s2"] is not None:
            d["sigma_squared"] = p["s2"]
        return d

    def given(self, rep):
        """(estimate, matrix) in the representation of a method."""
        C = self.base_C(rep)
        if rep == "full":
            return jnp.asarray(C), C
        if rep == "diagonal":
            return jnp.asarray(np.diag(C).copy()), C
        w, U = np.linalg.eigh(C)
        return LowRankTerms(U=jnp.asarray(U), S=jnp.asarray(w), scalar=jnp.asarray(0.0)), C

    def mv(self, t):
        leaves, s = jax.tree.flatten(t)
        out = jnp.asarray(self.C) @ jnp.concatenate([jnp.reshape(x, -1) for x in leaves])
        parts, i = [], 0
        for x in leaves:
            parts.append(out[i:i + x.size].reshape(x.shape))
            i += x.size
        return jax.tree.unflatten(s, parts)

    def key_of(self, name, enum):
        return CurvApprox(name) if enum and name in BUILTIN else name

    def close(self, a, e, what, sc=0.0, loose=False):
        close(a, e, what, scale=sc, rtol=(1e-6 if loose else 1e-8) if self.x64 else 5e-4)

    # steps -----------------------------------------------------------------
    def snapshot(self):
        return [dict(t) for t in TABLES], dict(api.calibration_options)

    def register(self, s):
        names = sorted(self.model)
        target = (BUILTIN[s["target"] % 4] if s["overwrite"] == "builtin" else
                  names[s["target"] % len(names)] if s["overwrite"] == "any" else f"Method {s['target'] % 5}")
        default = None
        if s["default"] is not None:
            default = names[s["default"] % len(names)]
            rep = self.model[default][0]
        else:
            rep = ["full", "diagonal", "lowrank"][s["rep"] % 3]
        given = [i for i in range(6) if s["mask"] >> i & 1]
        if default is None and s["complete"]:
            given = list(range(6))
        kw = {STAGES[i]: custom(i, rep, s["c"][i], self.calls) for i in given}
        if default is not None:
            kw["default"] = self.key_of(default, s["enum"])
        elif s["enum"]:
            kw["default"] = None
        tgt = self.key_of(target, s["enum"])
        if default is None and len(given) < 6:
            before = self.snapshot()
            with raises(ValueError, f"incomplete registration with {sorted(kw)}"):
                register_curvature_method(tgt, **kw)
            expect(self.snapshot() == before, "a rejected registration changed the tables")
            return
        factors = [s["c"][i] if i in given else (self.model[default][1][i]) for i in range(6)]
        lob = 0 not in given and self.lob[default] if default is not None else False
        if s["c"][0] > 1.2:
            register_curvature_method(name=tgt, **kw)
        else:
            register_curvature_method(tgt, **kw)
        self.model[target] = (rep, factors)
        self.lob[target] = lob
        self.registered = True

    def use(self, s):
        names = sorted(self.model)
        fresh = [n for n in names if n not in BUILTIN]
        name = fresh[s["who"] % len(fresh)] if fresh and s["prefer"] else names[s["who"] % len(names)]
        rep, _ = self.model[name]
        key, p, what, m = self.key_of(name, s["enum"]), s["p"], s["what"], self.m
        if s["jitp"]:
            p = {**p, "ls": 1.0}
        C = self.base_C(rep)
        start = len(self.calls)
        self.used |= self.registered
        label = f"{what} of {name!r}"
        if what in ("estimate", "create"):
            if self.lob[name]:
                return  # the LOBPCG creation stage needs many parameters
            kw = {"layout": m.params}
            if rep == "lowrank":
                kw |= {"rank": m.P, "key": jax.random.key(s["who"])}
            extra = 1.0
            if self.model[name][1][0] is not None and s["extra"]:
                extra = kw["extra"] = 1.5
            if rep == "lowrank" and not self.x64:
                return
            c1 = self.f(name, 0) * extra
            if what == "estimate":
                est = estimate_curvature(key, self.mv, **kw)
                if rep == "full":
                    self.close(est, c1 * C, label)
                elif rep == "diagonal":
                    self.close(est, c1 * np.diag(C), label)
                else:
                    U, S = np.asarray(est.U, float), np.asarray(est.S, float)
                    self.close((U * S) @ U.T, c1 * C, label, loose=True)
                self.expect_calls(name, [0], start, label)
                return
            post = create_posterior_fn(key, self.mv, **kw)(*self.args(p))
            self.check_posterior(name, post, c1 * C, p, label, rep == "lowrank")
            self.expect_calls(name, [0, 1, 2, 3, 4], start, label)
            return
        est, C = self.given(rep)
        if what == "posterior":
            post = set_posterior_fn(key, est, layout=m.params)(*self.args(p))
            self.check_posterior(name, post, C, p, label, False)
            self.expect_calls(name, [1, 2, 3, 4], start, label)
        elif what == "pushforward":
            pf = set_lin_pushforward(
                model_fn=m.fn(), mean_params=m.params, posterior_fn=set_posterior_fn(key, est, layout=m.params),
                prior_arguments=self.prior(p), loss_scaling_factor=p["ls"],
                pushforward_fns=[lin_setup, lin_pred_mean, lin_pred_cov])
            x = self.X[0]
            out = pf(jnp.asarray(x))
            S = self.cov(name, C, p)
            J = m.jac(x)
            self.close(np.asarray(out["pred_cov"]).reshape(m.K, m.K), J @ S @ J.T, label,
                       sc=float(np.abs(S).max() * (np.abs(J).sum() ** 2 + 1e-3)))
        elif what == "mll":
            def f(tau):
                return marginal_log_likelihood(
                    est, {**self.prior(p), "prior_prec": tau}, self.data, m.fn(), m.params, "mse", key,
                    vmap_over_data=True, loss_scaling_factor=p["ls"])

            got = (jax.jit(f) if s["jitp"] else f)(p["tau"])
            self.close(got, self.mll(name, C, p), label, sc=self.mll_scale(p))
            self.expect_calls(name, [1, 5], start, label)
        elif what == "calibration":
            tau = p["tau"]
            vals = {}

            def method(objective, data, **kw):
                vals["v"], vals["kw"] = objective({"prior_prec": tau}, data), kw
                return {"prior_prec": tau}

            register_calibration_method("p21-probe", method)
            out, _ = calibration(
                set_posterior_fn(key, est, layout=m.params), m.fn(), m.params, self.data, loss_fn="mse",
                curv_estimate=est, curv_type=key, calibration_objective="marginal_log_likelihood",
                calibration_method="p21-probe", objective_jit=bool(s["jitp"]))
            expect(out == {"prior_prec": tau} and vals["kw"] == {}, f"{label}: result {out}, {vals}")
            q = {"tau": tau, "s2": None, "ls": 1.0}
            self.close(vals["v"], -self.mll(name, C, q), label, sc=self.mll_scale(q))

    def args(self, p):
        return (self.prior(p),) if p["ls"] == 1.0 else (self.prior(p), p["ls"])

    def cov(self, name, C, p):
        return self.f(name, 4) * np.linalg.inv(self.f(name, 2) * self.prec(name, C, p))

    def mll(self, name, C, p):
        q = {"tau": p["tau"], "sigma": None, "s2": p["s2"], "ls": p["ls"]}
        P = len(C)
        return (evidence(self.L, self.m.v, C, q) - 0.5 * P * np.log(self.f(name, 1))
                + self.f(name, 5, 0.0))

    def mll_scale(self, p):
        return abs(self.L) + p["tau"] * self.m.v @ self.m.v + 12.0 * self.m.P

    def check_posterior(self, name, post, C, p, label, loose):
        m, P = self.m, self.m.P
        S = self.cov(name, C, p)
        sc = float(np.abs(S).max()) * 2
        M = post.cov_mv(post.state)
        same_structure(M(m.params), m.params, label)
        got = np.stack([flat(M(m.tree(e))) for e in np.eye(P)], axis=1)
        self.close(got, S, label + ": covariance", sc=sc, loose=loose)
        c4 = self.f(name, 3)
        L = post.scale_mv(post.state)
        L = np.stack([flat(L(m.tree(e))) for e in np.eye(P)], axis=1)
        self.close(L @ L.T, c4 ** 2 * S / self.f(name, 4), label + ": scale", sc=sc * c4 ** 2 / self.f(name, 4),
                   loose=loose)

    def expect_calls(self, name, stages, start, label):
        """Every registered stage was called, no other method's."""
        made = {c for c in self.calls[start:]}
        want = {(i, self.model[name][1][i]) for i in stages if self.model[name][1][i] is not None}
        expect(made == want, f"{label}: stages called {sorted(made)}, registered {sorted(want)}")


def run_history(spec):
    restore()
    try:
        w = Machine(spec)
        for i, s in enumerate(spec["steps"]):
            try:
                if s["step"] == "register":
                    w.register(s)
                else:
                    w.use(s)
            except Violation as v:
                raise Violation(f"step {i}: {v}", v.tag) from None
        # afterwards every name still does what it was registered for
        for j, name in enumerate(sorted(w.model)):
            w.use({"who": sorted(w.model).index(name), "prefer": False, "enum": j % 2, "jitp": False, "extra": False,
                   "what": ["posterior", "mll"][(j + spec["seed"]) % 2],
                   "p": {"tau": 0.8, "s2": None, "ls": 1.0}})
        return w.used
    finally:
        restore()


def run_calibration(spec):
    """Histories of registered calibration methods."""
    restore()
    try:
        w = Machine(spec)
        m, known = w.m, {}
        est, C = w.given("full")
        pf = set_posterior_fn("full", est, layout=m.params)
        forms = {"dict": w.data, "tuple": (w.data["input"], w.data["target"]),
                 "list": [w.data["input"], w.data["target"]]}
        uses = 0
        for i, s in enumerate(spec["steps"]):
            name = f"{['m', 'My-Method', 'UPPER', 'grid'][s['name'] % 4]}"
            if s["step"] == "register":
                token, seen = (i, name), {}

                def fn(objective, data, _token=token, _seen=seen, **kw):
                    _seen.update(kw=kw, data=data, vals=[objective({"prior_prec": t}, data) for t in spec["taus"]])
                    if kw.get("boom"):
                        raise RuntimeError(str(_token))
                    return {"prior_prec": float(spec["taus"][0]), "token": _token}

                expect(register_calibration_method(name, fn) is None, "registration returns something")
                known[name] = (token, seen)
                continue
            kw = dict(loss_fn="mse", curv_estimate=est, curv_type="full", objective_jit=s["jit"],
                      calibration_objective="marginal_log_likelihood")
            if s["step"] == "grid":
                out, _ = calibration(pf, m.fn(), m.params, w.data, **kw, grid_size=3, log_prior_prec_min=-1.0,
                                     log_prior_prec_max=1.0)
                taus = np.logspace(-1, 1, 3)
                vals = [-w.mll("full", C, {"tau": t, "s2": None, "ls": 1.0}) for t in taus]
                order = np.sort(vals)
                if order[1] - order[0] > 1e-3 * (1 + abs(order[0])):
                    close(out["prior_prec"], taus[int(np.argmin(vals))], "grid search after registrations", rtol=1e-5)
                continue
            args = (pf, m.fn(), m.params, forms[s["form"]])
            if name not in known:
                with raises(ValueError, "unregistered calibration method"):
                    calibration(*args, **kw, calibration_method=name)
                continue
            token, seen = known[name]
            extra = {"a": i, "b": "x"} if s["extra"] else {}
            if s["boom"]:
                with raises(RuntimeError, "error of the registered method"):
                    calibration(*args, **kw, calibration_method=name, boom=True)
                continue
            seen.clear()
            out, spp = calibration(*args, **kw, calibration_method=name, **extra)
            expect(seen and seen["kw"] == extra, f"method {name}: called with {seen.get('kw')}, given {extra}")
            expect(out["token"] == token, f"method {name}: result {out}, registered {token}")
            expect(set(seen["data"]) == {"input", "target"}, "data keys")
            close(seen["data"]["input"], w.X, "data passed to the method", x64=w.x64)
            close(seen["data"]["target"], w.Y, "targets passed to the method", x64=w.x64)
            for t, v in zip(spec["taus"], seen["vals"], strict=True):
                q = {"tau": t, "s2": None, "ls": 1.0}
                close(v, -w.mll("full", C, q), "objective passed to the method", scale=w.mll_scale(q),
                      rtol=1e-8 if w.x64 else 1e-4)
            pr = spp(prior_arguments={"prior_prec": out["prior_prec"]}, loss_scaling_factor=1.0)(w.data["input"][0])
            expect("pred_mean" in pr, "predictive after calibration")
            uses += 1
        return uses > 0
    finally:
        restore()


I = st.integers(0, 20)  # noqa: E741
p_ = st.fixed_dictionaries({"tau": gen.log_floats(0.1, 10), "s2": st.one_of(st.none(), gen.log_floats(0.2, 5)),
                            "ls": st.one_of(st.just(1.0), gen.log_floats(0.3, 5))})
register_ = st.fixed_dictionaries({
    "step": st.just("register"), "target": I, "overwrite": st.sampled_from(["new", "new", "any", "builtin"]),
    "default": st.one_of(st.none(), I, I), "rep": I, "mask": st.integers(0, 63), "complete": st.booleans(),
    "enum": st.booleans(), "c": st.lists(st.sampled_from([0.5, 0.75, 1.25, 1.5, 2.0, 3.0]), min_size=6, max_size=6)})
use_ = st.fixed_dictionaries({
    "step": st.just("use"), "who": I, "prefer": st.booleans(), "enum": st.booleans(), "p": p_, "jitp": st.booleans(),
    "extra": st.booleans(), "what": st.sampled_from(
        ["estimate", "create", "posterior", "pushforward", "mll", "calibration"])})
base = dict(model=gen.model_specs(codes=True, max_total=6, max_out=2, wide=20), seed=gen.seeds, n=gen.counts(1, 3, 20), x64=gen.x64s)
cal_ = st.fixed_dictionaries({
    "step": st.sampled_from(["register", "use", "use", "grid"]), "name": I, "jit": st.booleans(),
    "form": st.sampled_from(["dict", "tuple", "list"]), "extra": st.booleans(),
    "boom": st.sampled_from([False, False, False, True])})
SUBS = [
    Sub("histories", st.fixed_dictionaries({
        **base, "steps": gen.rarely(st.lists(st.one_of(register_, use_), min_size=2, max_size=9),
                                  st.lists(st.one_of(register_, use_), min_size=10, max_size=16), 9)}), run_history, quick=240),
    Sub("calibration_methods", st.fixed_dictionaries({
        **base, "taus": st.lists(gen.log_floats(0.1, 10), min_size=1, max_size=3),
        "steps": st.lists(cal_, min_size=2, max_size=6)}), run_calibration, quick=96),
]
