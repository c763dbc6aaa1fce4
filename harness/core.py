"""Vocabulary shared by the checks: sub-checks, violations, comparisons."""
from __future__ import annotations

import contextlib
import dataclasses
import math
from collections.abc import Callable
from typing import Any

import numpy as np


class Violation(Exception):
    """The code under test contradicts the property.

    `tag` names the kind of failure narrowly enough to identify a listed known finding.
    """

    def __init__(self, msg: str, tag: str = "") -> None:
        super().__init__(msg)
        self.tag = tag


class HarnessError(Exception):
    """The check itself is broken (never reported as a violation)."""


@dataclasses.dataclass
class Sub:
    """One executable statement of (a part of) a property.

    strategy: hypothesis strategy of JSON-able dicts (the "spec" of a case).
    run:      builds the case from the spec, runs the code under test and the oracle,
              raises Violation, returns True when the case was non-trivial.
    """

    name: str
    strategy: Any
    run: Callable[[dict], bool]
    quick: int = 40  # cases over all workers, quick tier
    thorough: int = 0  # default: 12 x quick
    examples: tuple = ()  # corner cases always run first (by worker 0)

    def budget(self, tier: str) -> int:
        if tier == "quick":
            return self.quick
        return self.thorough or 12 * self.quick


def expect(cond: Any, msg: str, tag: str = "") -> None:
    if not bool(cond):
        raise Violation(msg, tag)


def _desc(a: np.ndarray) -> str:
    s = np.array2string(np.asarray(a).reshape(-1)[:8], precision=8)
    return f"shape={np.shape(a)} {s}"


def close(
    actual: Any,
    expected: Any,
    what: str,
    *,
    x64: bool = True,
    rtol: float | None = None,
    scale: float | None = None,
    shape: bool = True,
    atol: float | None = None,
    tag: str = "",
) -> None:
    """max|actual-expected| <= rtol * max(scale, max|expected|)  (norm-wise), or <= atol."""
    a = np.asarray(actual)
    e = np.asarray(expected)
    if shape and a.shape != e.shape:
        raise Violation(f"{what}: shape {a.shape}, expected {e.shape}", tag)
    if a.size != e.size:
        raise Violation(f"{what}: size {a.size}, expected {e.size}", tag)
    a = a.reshape(-1).astype(np.float64)
    e = e.reshape(-1).astype(np.float64)
    if a.size == 0:
        return
    if not np.all(np.isfinite(e)):
        ok = np.array_equal(a, e, equal_nan=True)
        if not ok:
            raise Violation(f"{what}: got {_desc(a)}, expected {_desc(e)}", tag)
        return
    if rtol is None:
        rtol = 1e-8 if x64 else 2e-4
    sc = max(float(np.max(np.abs(e))), scale if scale is not None else 0.0)
    tol = rtol * sc + (1e-300 if sc == 0 else 0.0)
    if sc == 0.0:
        tol = 1e-12 if x64 else 1e-6
    if atol is not None:
        tol = atol
    with np.errstate(all="ignore"):
        err = np.abs(a - e)
    if not np.all(err <= tol):
        i = int(np.nanargmax(np.where(np.isnan(err), np.inf, err)))
        raise Violation(
            f"{what}: entry {i} is {a[i]!r}, expected {e[i]!r} "
            f"(tolerance {tol:.3g}); got {_desc(a)}; expected {_desc(e)}",
            tag,
        )


def same_structure(tree: Any, template: Any, what: str) -> None:
    import jax

    s1, s2 = jax.tree.structure(tree), jax.tree.structure(template)
    if s1 != s2:
        raise Violation(f"{what}: pytree structure {s1}, expected {s2}")
    for a, b in zip(jax.tree.leaves(tree), jax.tree.leaves(template), strict=True):
        if np.shape(a) != np.shape(b):
            raise Violation(f"{what}: leaf shape {np.shape(a)}, expected {np.shape(b)}")


def flat(tree: Any) -> np.ndarray:
    """Leaves in pytree order, each raveled in C order (numpy, float64)."""
    import jax

    leaves = jax.tree.leaves(tree)
    if not leaves:
        return np.zeros(0)
    return np.concatenate([np.asarray(l, dtype=np.float64).reshape(-1) for l in leaves])


@contextlib.contextmanager
def raises(exc: type | tuple, what: str):
    """The code under test must raise `exc`."""
    try:
        yield
    except exc:
        return
    except Violation:
        raise
    except Exception as e:  # noqa: BLE001
        raise Violation(f"{what}: raised {type(e).__name__}: {e}, expected {exc}") from e
    raise Violation(f"{what}: no error raised, expected {exc}")


def isfinite(x: Any) -> bool:
    return math.isfinite(float(x))
