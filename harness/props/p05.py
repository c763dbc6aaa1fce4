"""P05 Low-rank approximations recover the leading spectrum of the curvature."""
import warnings

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import Sub, close, expect, raises
from laplax.curv.cov import estimate_curvature
from laplax.curv.lanczos import lanczos_lowrank
from laplax.curv.lobpcg import lobpcg_lowrank, lobpcg_standard
from laplax.curv.utils import LowRankTerms, get_matvec

RULE = (
    "Cases: PSD matrices up to 60x60 (rank 0..P, distinct/wide/repeated/decaying spectra, scales 1e-2..1e2), "
    "as array, flat callable or pytree callable, ranks from 1 to beyond the dimension, given "
    "start vectors or keys, jit on/off, all precision combinations; oracle: numpy eigenpairs "
    "and an Arnoldi basis of the Krylov space in float64. Non-trivial: operator not zero."
)
ASSUMPTIONS = [
    "numpy eigh and a twice re-orthogonalised Arnoldi basis are accurate to 1e-6",
    "start vectors are generic (every eigenspace has a component above 1e-3)",
]


def spectrum(spec):
    """Symmetric PSD matrix with the requested spectrum."""
    P, rk, seed = spec["P"], min(spec["rank"], spec["P"]), spec["seed"]
    r = np.random.default_rng([seed, 21])
    q, _ = np.linalg.qr(r.normal(size=(P, P)))
    ev = np.zeros(P)
    if spec["kind"] == "repeated":
        ev[:rk] = r.choice([1.0, 2.0, 4.0], size=rk)
    elif spec["kind"] == "identity":
        ev[:rk] = 2.0
    elif spec["kind"] == "wide":  # a few large eigenvalues above a flat bulk
        ev[:rk] = 1.0 + np.arange(rk)
        ev[:min(3, rk)] = ev[:min(3, rk)] * [1e4, 1e3, 3e2][:min(3, rk)]
    else:  # distinct, separated
        ev[:rk] = 1.0 + np.arange(rk) + r.uniform(0, 0.3, size=rk)
    return spec["scale"] * (q * ev) @ q.T, q, spec["scale"] * ev


def start(P, q, seed):
    """A start vector with a component in every eigendirection."""
    r = np.random.default_rng([seed, 22])
    c = r.choice([-1.0, 1.0], size=P) * r.uniform(0.5, 1.5, size=P)
    return q @ c


def operator(A, form, tree):
    """(operator argument, layout keyword) in the requested form."""
    Aj = jnp.asarray(A)
    P = len(A)
    if form == "array":
        return Aj, None
    if form == "flat":
        return (lambda v: Aj @ v), P
    shapes = tree
    template = {f"k{i}": jnp.zeros(s) for i, s in enumerate(shapes)}

    def mv(p):
        v = jnp.concatenate([jnp.reshape(p[f"k{i}"], (-1,)) for i in range(len(shapes))])
        out = Aj @ v
        res, j = {}, 0
        for i, s in enumerate(shapes):
            n = int(np.prod(s))
            res[f"k{i}"] = out[j:j + n].reshape(s)
            j += n
        return res

    return mv, template


def shapes_for(P):
    out, left = [], P
    for n in ([2, 2], [3], [], [1, 2]):
        k = int(np.prod(n))
        if left >= k + 1:
            out.append(tuple(n))
            left -= k
    out.append((left,))
    return out


def krylov(A, b, k):
    Q = np.zeros((len(A), 0))
    w = b / np.linalg.norm(b)
    sc = max(np.linalg.norm(A, 2), 1e-300)
    for _ in range(k):
        Q = np.column_stack([Q, w])
        w = A @ w
        for _ in range(3):
            w = w - Q @ (Q.T @ w)
        nrm = np.linalg.norm(w)
        if nrm < 1e-8 * sc or Q.shape[1] == len(A):
            break
        w = w / nrm
    return Q


DT = {"f32": jnp.float32, "f64": jnp.float64, None: None}


def checked_terms(t, P, what):
    expect(isinstance(t, LowRankTerms), f"{what}: result is {type(t)}")
    U, S, c = np.asarray(t.U, float), np.asarray(t.S, float), np.asarray(t.scalar, float)
    expect(U.ndim == 2 and U.shape[0] == P and S.shape == (U.shape[1],),
           f"{what}: shapes U {U.shape}, S {S.shape}")
    expect(np.all(np.isfinite(U)) and np.all(np.isfinite(S)), f"{what}: not finite")
    expect(c.shape == () and c == 0.0, f"{what}: scalar {c}")
    return U, S


def run_lanczos(spec):
    A, q, ev = spectrum(spec)
    P, k, x64 = spec["P"], spec["k"], spec["x64"]
    if spec["exact"]:
        k = min(spec["rank"], P) + 1 + spec["k"] % 4  # enough directions, possibly > P
    opts = {"rank": k, "mv_jit": spec["jit"]}
    low = not x64 and spec["mv_dtype"] != "f64"
    if spec["mv_dtype"]:
        opts["mv_dtype"] = DT[spec["mv_dtype"]]
        low = spec["mv_dtype"] == "f32" or not x64
    if spec["calc32"]:
        opts["calc_dtype"], low = jnp.float32, True
        if spec["mv_dtype"] == "f64" and not x64 or (x64 and not spec["mv_dtype"]):
            opts["mv_dtype"] = jnp.float32
    if spec["tol"]:
        opts["tol"] = spec["tol"]
    if spec["ret"]:
        opts["return_dtype"] = DT[spec["ret"]]
        low = low or spec["ret"] == "f32"
    op, layout = operator(A, spec["form"], shapes_for(P))
    if layout is not None:
        opts["layout"] = layout
    b = start(P, q, spec["seed"])
    if spec["use_key"]:
        key = jax.random.key(spec["seed"] % 997)
        t = lanczos_lowrank(op, key=key, **opts)
    else:
        t = lanczos_lowrank(op, b=jnp.asarray(b * spec["bsize"]), **opts)
    U, S = checked_terms(t, P, "lanczos")
    expect(U.shape[1] == k, f"lanczos returned {U.shape[1]} directions for rank {k}")
    ret = spec["ret"] or ("f64" if x64 else "f32")
    expect(t.U.dtype == t.S.dtype == DT[ret], f"dtype {t.U.dtype}, expected {ret}")
    R = (U * S) @ U.T
    nA = max(np.linalg.norm(A, 2), 1e-300)
    tol = 1e-3 if low else 1e-6
    # never more than the operator: Ritz values within the spectrum
    expect(S.max(initial=0) <= nA * (1 + tol) + 1e-12 and S.min(initial=0) >= -tol * nA - 1e-12,
           f"Ritz values {S} outside the spectrum [0, {nA}]")
    lead = U[:, S > 10 * tol * nA]
    close(lead.T @ lead, np.eye(lead.shape[1]), "orthonormality of the Ritz vectors", rtol=tol * 10,
          scale=1.0)
    if ev.max(initial=0) == 0:
        close(R, np.zeros_like(A), "Lanczos on the zero operator", scale=1.0, rtol=1e-6)
        return False
    # each direction amplifies the rounding noise outside the Krylov space (by 1.5 to 2): long
    # histories have used it up, unless all directions of the space are taken
    stable = k <= (14 if low else 28) or k >= P
    if spec["exact"] and stable and spec["kind"] in ("distinct", "wide") and not (
            low and spec["kind"] == "wide"):
        close(R, A, f"Lanczos of rank {k} on an operator of rank {min(spec['rank'], P)}",
              rtol=tol * 10, scale=nA)
    close(lead.T @ A @ lead, np.diag(S[S > 10 * tol * nA]), "U^T A U of the Ritz vectors",
          rtol=tol * 10, scale=nA)
    Q = krylov(A, b, k)
    # in single precision rounding noise may leave an exactly invariant subspace
    if not spec["use_key"] and stable and ((not low and nA < 1e7) or (Q.shape[1] == k and k <= 14)):
        E = Q @ (Q.T @ A @ Q) @ Q.T
        close(R, E, "Lanczos vs projection on the Krylov space", rtol=tol * 30, scale=nA)
    return True


def run_forms(spec):
    """The same operator in different forms gives the same terms; keys are reproducible."""
    A, q, ev = spectrum(spec)
    P, k = spec["P"], spec["k"]
    res = []
    for form in ("array", "flat", "tree"):
        op, layout = operator(A, form, shapes_for(P))
        kw = {} if layout is None else {"layout": layout}
        t = lanczos_lowrank(op, key=jax.random.key(3), rank=k, mv_jit=spec["jit"], **kw)
        U, S = checked_terms(t, P, form)
        res.append((U * S) @ U.T)
        if form != "array":
            t2 = estimate_curvature("lanczos", op, layout=layout, key=jax.random.key(3), rank=k,
                                    mv_jit=not spec["jit"])
            U, S = checked_terms(t2, P, form)
            res.append((U * S) @ U.T)
    nA = max(np.linalg.norm(A, 2), 1e-6)
    for r in res[1:]:
        close(r, res[0], "Lanczos on different forms of one operator", scale=nA,
              rtol=1e-5 if spec["x64"] else 1e-2)
    return True


def run_lobpcg(spec):
    k = spec["k"]
    P = 5 * k + 1 + spec["extra"]
    s = {**spec, "P": P}
    rk = min(spec["rank"], k) if spec["exact"] else P
    r = np.random.default_rng([spec["seed"], 23])
    q, _ = np.linalg.qr(r.normal(size=(P, P)))
    ev = np.zeros(P)
    ev[:rk] = np.sort(4.0 * np.exp(-r.uniform(0, 2, size=rk)))[::-1]
    if not spec["exact"]:
        ev = 4.0 * 0.6 ** np.arange(P)
    ev = ev * spec["scale"]
    A = (q * ev) @ q.T
    op, layout = operator(A, spec["form"], shapes_for(P))
    kw = {} if layout is None else {"layout": layout}
    if spec["mv_dtype"]:
        kw["mv_dtype"] = DT[spec["mv_dtype"]]
    if spec["key"]:
        kw["key"] = jax.random.key(spec["seed"] % 991)
    with warnings.catch_warnings():
        warnings.simplefilter("error")  # the size is sufficient: no rank reduction
        if spec["via"] and layout is not None:
            kw.pop("layout")
            t = estimate_curvature("lobpcg", op, layout=layout, rank=k, mv_jit=spec["jit"], **kw)
        else:
            t = lobpcg_lowrank(op, rank=k, mv_jit=spec["jit"], **kw)
    U, S = checked_terms(t, P, "lobpcg")
    expect(U.shape[1] == k, f"lobpcg returned {U.shape[1]} directions for rank {k}")
    low = not spec["x64"] or spec["mv_dtype"] == "f32"
    tol = 2e-3 if low else 1e-5
    nA = ev.max(initial=0) or 1.0
    del s
    if rk >= k:
        close(U.T @ U, np.eye(k), "orthonormality of the LOBPCG vectors", rtol=tol, scale=1.0)
        close(U.T @ A @ U, np.diag(S), "U^T A U = diag(S)", rtol=tol, scale=nA)
        expect(np.all(np.diff(S) <= tol * nA), f"eigenvalues not in descending order: {S}")
    expect(np.all(S <= ev[:k] + tol * nA), f"eigenvalue estimates {S} exceed {ev[:k]}")
    if spec["exact"]:
        close((U * S) @ U.T, A, f"LOBPCG of rank {k} on an operator of rank {rk}", rtol=10 * tol,
              scale=nA)
    elif k >= 3:
        # well separated leading eigenvalue is found
        expect(abs(S[0] - ev[0]) <= (0.02 if k == 3 else 0.01) * ev[0], f"leading eigenvalue {S[0]} instead of {ev[0]}")
    return rk > 0


def run_lobpcg_standard(spec):
    """The iteration itself: unless it was cut short, every returned pair fulfils the convergence criterion."""
    k, m, tol = spec["k"], spec["m"], spec["tol"]
    P = 5 * k + 1 + spec["extra"]
    r = np.random.default_rng([spec["seed"], 29])
    q, _ = np.linalg.qr(r.normal(size=(P, P)))
    ev = spec["scale"] * spec["decay"] ** np.arange(P)
    A = (q * ev) @ q.T
    A = (A + A.T) / 2
    J = jnp.asarray(A)
    X = jax.random.normal(jax.random.key(spec["seed"] % 977), (P, k), dtype=jnp.float64)
    theta, U, i = lobpcg_standard(lambda x: J @ x, X, m=m, tol=tol, a_dtype=jnp.float64, A_jit=spec["jit"])
    theta, U = np.asarray(theta, float), np.asarray(U, float)
    expect(theta.shape == (k,) and U.shape == (P, k), f"shapes {theta.shape} and {U.shape}")
    expect(0 <= int(i) <= m, f"{int(i)} iterations of at most {m}")
    close(U.T @ U, np.eye(k), "orthonormality of the LOBPCG vectors", rtol=1e-6, scale=1.0)
    expect(np.all(theta <= ev[:k] * (1 + 1e-8)), f"eigenvalue estimates {theta} exceed {ev[:k]}")
    if int(i) < m:
        res = np.linalg.norm(A @ U - U * theta, axis=0)
        lim = 10 * P * tol * (np.linalg.norm(A @ U, axis=0) + theta)
        expect(np.all(res <= 1.5 * lim + 1e-13 * spec["scale"]),
               f"stopped after {int(i)} of {m} iterations with residuals {res}, criterion {lim}")
    return int(i) < m


def run_lobpcg_small(spec):
    """Too small operators: the rank is reduced with a warning, the result stays valid."""
    P, k = spec["P"], spec["k"]
    A, q, ev = spectrum({**spec, "kind": "distinct", "rank": P})
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        t = lobpcg_lowrank(jnp.asarray(A), rank=k, mv_jit=spec["jit"])
    kk = k if P > 5 * k else max(1, P // 5 - 1)
    msgs = [str(x.message) for x in w]
    if kk != k:
        expect(any("rank" in m for m in msgs), f"no warning about the reduced rank: {msgs}")
    U, S = checked_terms(t, P, "lobpcg")
    expect(U.shape[1] == kk, f"{U.shape[1]} directions, expected {kk}")
    close(U.T @ U, np.eye(kk), "orthonormality", rtol=1e-3, scale=1.0)
    nA = ev.max()
    close(U.T @ A @ U, np.diag(S), "U^T A U = diag(S)", rtol=1e-3, scale=nA)
    return True


def run_matvec(spec):
    """get_matvec: size and product of every form; missing layout and start are errors."""
    A, q, ev = spectrum(spec)
    P = spec["P"]
    v = gen.vec(P, spec["seed"])
    for form in ("array", "flat", "tree"):
        op, layout = operator(A, form, shapes_for(P))
        mv, size = get_matvec(op, layout=layout, jit=spec["jit"])
        expect(size == P, f"size {size}, expected {P}")
        close(mv(jnp.asarray(v)), A @ v, f"matvec of {form}", x64=spec["x64"], scale=spec["scale"] * P)
        if form != "array":
            with raises(TypeError, "callable without layout"):
                get_matvec(op)
    return True


base = dict(seed=gen.seeds, x64=st.sampled_from([True, True, False]), jit=st.booleans(),
            scale=gen.rarely(st.sampled_from([1.0, 0.01, 30.0]), st.sampled_from([1e5, 1e8, 1e10]), 5))
SUBS = [
    Sub("lanczos", st.fixed_dictionaries({
        **base, "P": gen.counts(1, 10, 60, 3), "rank": gen.counts(0, 10, 60, 2),
        "k": gen.counts(1, 14, 60, 3), "calc32": gen.rarely(st.just(False), st.booleans(), 2),
        "tol": st.sampled_from([None, None, None, 1e-9, 1e-5]),
        "kind": st.sampled_from(["distinct", "distinct", "wide", "repeated", "identity"]),
        "bsize": st.sampled_from([1.0, 1.0, 1e-6, 1e5]),
        "exact": st.booleans(), "use_key": st.sampled_from([False, False, True]),
        "form": st.sampled_from(["array", "flat", "tree"]),
        "mv_dtype": st.sampled_from([None, None, "f32", "f64"]),
        "ret": st.sampled_from([None, None, "f32", "f64"])}), run_lanczos, quick=240),
    Sub("forms", st.fixed_dictionaries({
        **base, "P": st.integers(1, 9), "rank": st.integers(1, 9), "k": st.integers(1, 10),
        "kind": st.sampled_from(["distinct", "repeated"])}), run_forms, quick=24),
    Sub("lobpcg", st.fixed_dictionaries({
        **base, "k": gen.counts(1, 4, 8, 6), "extra": gen.counts(0, 6, 20, 4), "rank": gen.rarely(st.integers(1, 4), st.just(0)),
        "exact": st.booleans(), "form": st.sampled_from(["array", "flat", "tree"]),
        "mv_dtype": st.sampled_from([None, None, "f32", "f64"]), "key": st.booleans(),
        "via": st.booleans()}), run_lobpcg, quick=72),
    Sub("lobpcg_standard", st.fixed_dictionaries({
        "k": st.integers(1, 5), "extra": st.integers(0, 20), "m": st.sampled_from([3, 40, 200]),
        "tol": st.sampled_from([1e-4, 1e-6, 1e-8, 1e-10]), "decay": st.floats(0.5, 0.97).map(lambda f: round(f, 3)),
        "scale": st.sampled_from([1.0, 0.01, 1e4]), "jit": st.booleans(), "seed": gen.seeds, "x64": st.just(True)}),
        run_lobpcg_standard, quick=40),
    Sub("lobpcg_small", st.fixed_dictionaries({
        **base, "P": gen.counts(6, 14, 40), "k": gen.counts(1, 5, 12)}), run_lobpcg_small, quick=24),
    Sub("matvec", st.fixed_dictionaries({
        **base, "P": gen.counts(1, 9, 50), "rank": st.integers(1, 9),
        "kind": st.sampled_from(["distinct", "repeated"])}), run_matvec, quick=32),
]
