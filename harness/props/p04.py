"""P04 Posterior covariance is the inverse of scaled curvature plus prior."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import Sub, close, expect, flat, same_structure
from laplax.curv.cov import create_posterior_fn, estimate_curvature, set_posterior_fn
from laplax.curv.low_rank import create_low_rank_mv
from laplax.curv.utils import LowRankTerms
from laplax.enums import CurvApprox

RULE = (
    "Cases: PSD matrices up to 60x60 of any rank and scale as full matrix, diagonal or low-rank terms; "
    "parameter layouts (pytree, int, None); histories of prior arguments (prior precision, "
    "optional noise variance, loss scale); oracle: numpy inverse. "
    "Non-trivial: at least two parameters and a non-zero curvature."
)
ASSUMPTIONS = ["numpy.linalg.inv on well conditioned matrices (condition < 1e8)"]
CURVS = ["full", "diagonal", "lanczos", "lobpcg"]


def prior(p):
    d = {"prior_prec": jnp.asarray(p["tau"]) if p["arr"] else p["tau"]}
    if p["s2"] is not None:
        d["sigma_squared"] = p["s2"]
    return d


def expected_cov(C, p):
    s2 = 1.0 if p["s2"] is None else p["s2"]
    return p["ls"] * np.linalg.inv(s2 * C + p["tau"] * np.eye(len(C)))


def cond(C, p):
    s2 = 1.0 if p["s2"] is None else p["s2"]
    return 1 + s2 * float(np.linalg.norm(C, 2)) / p["tau"]


def tol(C, p, x64):
    """Relative tolerance: rounding errors grow with the condition number."""
    return max(1e-8, 2e-14 * cond(C, p)) if x64 else max(2e-3, 2e-5 * cond(C, p))


def usable(C, spec):
    """Prior arguments for which the inverse is well determined in the working precision."""
    return [p for p in spec["priors"] if cond(C, p) < (1e8 if spec["x64"] else 1e3)]


def posterior(fn, p):
    if p["ls"] == 1.0 and not p["kw"]:
        return fn(prior(p))
    if p["kw"]:
        return fn(prior_arguments=prior(p), loss_scaling_factor=p["ls"])
    return fn(prior(p), p["ls"])


def dense(mv_of_state, state, P, to_tree):
    mv = mv_of_state(state)
    return np.stack([flat(mv(to_tree(e))) for e in np.eye(P)], axis=1)


def check_posterior(post, C, p, to_tree, template, x64, what):
    P = len(C)
    S = expected_cov(C, p)
    sc = float(np.abs(S).max())
    rt = tol(C, p, x64)
    out = post.cov_mv(post.state)(to_tree(np.arange(1.0, P + 1)))
    if template is not None:
        same_structure(out, template, "covariance product")
        same_structure(post.scale_mv(post.state)(to_tree(np.ones(P))), template, "scale product")
    else:
        expect(np.shape(out) == (P,), f"covariance product of shape {np.shape(out)}")
    cov = dense(post.cov_mv, post.state, P, to_tree)
    close(cov, S, f"{what} covariance", x64=x64, scale=sc, rtol=rt)
    L = dense(post.scale_mv, post.state, P, to_tree)
    close(L @ L.T, S, f"{what} scale S S^T", x64=x64, scale=sc, rtol=rt)


def layout_of(spec):
    t = spec["tree"]
    P = gen.tree_size(t)
    if spec["layout"] == "tree":
        template = gen.tree_from_flat(t, np.zeros(P))
        return P, template, template, lambda v: gen.tree_from_flat(t, v)
    lay = P if spec["layout"] == "int" else None
    return P, lay, None, lambda v: jnp.asarray(v)


def given_curvature(spec, P):
    C = gen.psd(P, spec["rank"], spec["seed"], spec["spec"]) * spec["cscale"]
    ct = spec["curv"]
    if ct == "full":
        return jnp.asarray(C), C
    if ct == "diagonal":
        return jnp.asarray(np.diag(C).copy()), np.diag(np.diag(C))
    w, U = np.linalg.eigh(C)
    R = max(1, min(spec["rank"], P))
    U, w = U[:, ::-1][:, :R], np.maximum(w[::-1][:R], 0)
    return (LowRankTerms(U=jnp.asarray(U), S=jnp.asarray(w), scalar=jnp.asarray(0.0)),
            (U * w) @ U.T)


def run_given(spec):
    """Posteriors of a given curvature estimate, several prior arguments in sequence."""
    P, layout, template, to_tree = layout_of(spec)
    est, C = given_curvature(spec, P)
    ct = CurvApprox(spec["curv"]) if spec["enum"] else spec["curv"]
    fn = set_posterior_fn(ct, est, layout=layout)
    posts = []
    spec["priors"] = usable(C, spec)
    for p in spec["priors"]:
        if spec["jit"]:
            # the posterior is built inside a traced function of the prior precision
            P_ = len(C)
            V = np.random.default_rng(spec["seed"]).normal(size=P_)

            def f(tau, p=p):
                d = prior({**p, "arr": False})
                d["prior_prec"] = tau
                po = fn(d, p["ls"])
                return po.cov_mv(po.state)(to_tree(V))

            got = flat(jax.jit(f)(p["tau"]))
            S = expected_cov(C, p)
            close(got, S @ np.asarray(V), "covariance product inside jit",
                  rtol=tol(C, p, spec["x64"]), scale=float(np.abs(S).max()) * 3)
        posts.append(posterior(fn, p))
    # later posteriors must not disturb earlier ones
    for post, p in zip(posts, spec["priors"], strict=True):
        check_posterior(post, C, p, to_tree, template, spec["x64"], spec["curv"])
    if len(posts) > 1:
        # state-parametrised products: the product function of one posterior applied to
        # the state of another one
        a, b = posts[0], posts[1]
        got = flat(a.cov_mv(b.state)(to_tree(np.ones(P))))
        S = expected_cov(C, spec["priors"][1])
        close(got, S @ np.ones(P), "cov_mv applied to another state",
              rtol=tol(C, spec["priors"][1], spec["x64"]), scale=float(np.abs(S).sum(1).max()))
    return P > 1 and np.abs(C).max() > 0 and bool(posts)


def run_fit(spec):
    """create_posterior_fn / estimate_curvature from a matrix-vector product."""
    P, layout, template, to_tree = layout_of({**spec, "layout": "tree"})
    # Krylov methods see one direction per distinct eigenvalue
    distinct = spec["curv"] == "lanczos" and spec["spec"] in ("repeated", "wide")
    A = gen.psd(P, spec["rank"], spec["seed"], "decay" if distinct else spec["spec"])
    Aj = jnp.asarray(A)
    from_flat = lambda a: gen.tree_from_flat(spec["tree"], a)  # noqa: E731

    def mv(v):
        leaves = jnp.concatenate([jnp.reshape(l, (-1,)) for l in jax.tree.leaves(v)])
        out = Aj @ leaves
        parts, i = [], 0
        for s in gen.ordered_shapes(spec["tree"]):
            n = int(np.prod(s))
            parts.append(out[i:i + n].reshape(s))
            i += n
        return jax.tree.unflatten(jax.tree.structure(template), parts)

    ct = spec["curv"]
    kw = {}
    if ct == "lanczos":
        kw = {"rank": P, "key": jax.random.key(spec["seed"] % 1000)}
    fn = create_posterior_fn(ct, mv, layout=template, **kw)
    C = {"full": A, "diagonal": np.diag(np.diag(A)), "lanczos": A}[ct]
    est = estimate_curvature(ct, mv, layout=template, **kw)
    if ct == "full":
        close(est, A, "full curvature estimate", x64=spec["x64"], scale=float(np.abs(A).max()))
    elif ct == "diagonal":
        close(est, np.diag(A), "diagonal curvature estimate", x64=spec["x64"],
              scale=float(np.abs(A).max()))
    fn2 = set_posterior_fn(ct, est, layout=template)
    for p in [p for p in spec["priors"] if cond(C, p) < (1e8 if spec["x64"] and ct != "lanczos"
                                                       else 1e3)]:
        post = posterior(fn, p)
        check_posterior(post, C, p, to_tree, template, spec["x64"] and ct != "lanczos", ct)
        v = to_tree(np.ones(P))
        close(flat(posterior(fn2, p).cov_mv(posterior(fn2, p).state)(v)),
              flat(post.cov_mv(post.state)(v)), "create_posterior_fn vs estimate+set",
              rtol=tol(C, p, spec["x64"] and ct != "lanczos"))
    del from_flat
    return P > 1 and np.abs(C).max() > 0


def run_graded(spec):
    """Curvature on very different scales in different parameters, some without any curvature.

    Cholesky factorisation, triangular inverse and diagonal operations are accurate entry by entry
    relative to the parameters' own scales, however large the condition number is.
    """
    P, layout, template, to_tree = layout_of(spec)
    x64 = spec["x64"]
    r = np.random.default_rng([spec["seed"], 401])
    span = 5.0 if x64 else 2.0
    d = 10.0 ** r.uniform(-span, span, size=P)
    d[r.uniform(size=P) < 0.3] = 0.0
    K = gen.psd(P, P, spec["seed"], "random")
    K = K / np.sqrt(np.outer(np.diag(K), np.diag(K)))
    C = np.asarray(jnp.asarray(d[:, None] * (0.5 * K + 0.5 * np.eye(P)) * d[None, :] * spec["cscale"]), float)
    C = 0.5 * (C + C.T)
    diag = spec["curv"] == "diagonal"
    fn = set_posterior_fn(spec["curv"], jnp.asarray(np.diag(C).copy() if diag else C), layout=layout)
    if diag:
        C = np.diag(np.diag(C))
    used = False
    for p in spec["priors"]:
        s2 = 1.0 if p["s2"] is None else p["s2"]
        A = s2 * C + p["tau"] * np.eye(P)
        if not 1e-20 < A.max() / p["ls"] < 1e20 or not 1e-20 < p["tau"] / p["ls"] < 1e20:
            continue
        a = np.sqrt(np.diag(A))
        B = A / np.outer(a, a)
        S = p["ls"] * np.linalg.inv(B) / np.outer(a, a)
        unit = np.sqrt(np.outer(np.diag(S), np.diag(S)))
        rt = 100 * P * np.linalg.cond(B) * (2.3e-16 if x64 else 1.2e-7)
        if rt > 0.02:
            continue
        post = posterior(fn, p)
        cov = dense(post.cov_mv, post.state, P, to_tree)
        close(cov / unit, S / unit, "covariance relative to the standard deviations", rtol=rt, scale=1.0)
        L = dense(post.scale_mv, post.state, P, to_tree)
        close(L @ L.T / unit, S / unit, "scale S S^T relative to the standard deviations", rtol=rt, scale=1.0)
        used = True
    return used and P > 1 and np.count_nonzero(d) > 0


def run_lowrank_mv(spec):
    """The low-rank product itself: scalar*v + U (S * U^T v)."""
    P, R = spec["P"], spec["R"]
    r = np.random.default_rng(spec["seed"])
    U, S, c = r.normal(size=(P, R)), r.normal(size=R), float(r.normal())
    mv = create_low_rank_mv(LowRankTerms(U=jnp.asarray(U), S=jnp.asarray(S), scalar=jnp.asarray(c)))
    v = r.normal(size=P)
    close(mv(jnp.asarray(v)), c * v + U @ (S * (U.T @ v)), "low-rank product", x64=spec["x64"],
          scale=10.0)
    return True


def variants(ps):
    """Now and then the same arguments again with one of them changed."""
    out = []
    for p in ps:
        keep = {k: out[-1][k] for k in p["keep"]} if out else {}
        out.append({**p, **keep})
    return out


priors = st.lists(st.fixed_dictionaries({
    "tau": gen.rarely(gen.log_floats(0.01, 100), gen.log_floats(1e-7, 1e9), 3),
    "s2": gen.rarely(st.one_of(st.none(), gen.log_floats(0.1, 10)), gen.log_floats(1e-6, 1e4), 5),
    "ls": gen.rarely(st.one_of(st.just(1.0), gen.log_floats(0.1, 20)), gen.log_floats(1e-5, 1e5), 5),
    "keep": st.sampled_from([[], [], ["tau"], ["ls"], ["s2"], ["tau", "s2"], ["tau", "ls"],
                             ["s2", "ls"]]),
    "arr": st.booleans(), "kw": st.booleans()}), min_size=1, max_size=4).map(variants)
common = dict(tree=gen.rarely(gen.trees(4, 14), gen.wide_trees(8, 60), 9),
              rank=gen.counts(0, 14, 60, 7), seed=gen.seeds,
              spec=st.sampled_from(["random", "repeated", "decay", "wide"]), priors=priors, x64=gen.x64s)
SUBS = [
    Sub("given", st.fixed_dictionaries({
        **common, "curv": st.sampled_from(CURVS), "enum": st.booleans(),
        "cscale": gen.rarely(st.just(1.0), gen.log_floats(1e-6, 1e6), 3),
        "layout": st.sampled_from(["tree", "tree", "int", "none"]),
        "jit": st.sampled_from([False, False, True])}), run_given, quick=320),
    Sub("fit", st.fixed_dictionaries({
        **common, "curv": st.sampled_from(["full", "diagonal", "lanczos"])}), run_fit, quick=72),
    Sub("graded", st.fixed_dictionaries({
        **common, "curv": st.sampled_from(["full", "full", "diagonal"]), "cscale": gen.log_floats(1e-2, 1e2),
        "layout": st.sampled_from(["tree", "int", "none"])}), run_graded, quick=80),
    Sub("lowrank_mv", st.fixed_dictionaries({
        "P": gen.counts(1, 9, 60), "R": gen.counts(1, 6, 40), "seed": gen.seeds, "x64": gen.x64s}),
        run_lowrank_mv, quick=40),
]
