"""Sub-check registry, case context and violation type.

A check is a module of checks/ with a list of sub-checks.  A sub-check has a
strategy whose values are plain JSON data and a function judging one such value
against the code in /repo.  Because a case is JSON, a failing case is its own
replay file and can be re-run without hypothesis.
"""
import contextlib
import hashlib
import json
import math
import os
import traceback
from typing import Any, Callable, Dict, List, Optional

from harness.boot import REPO


class Violation(Exception):
    """The property is broken; `sig` names the kind of failure."""

    def __init__(self, sig: str, msg: str = "") -> None:
        super().__init__(f"{sig}: {msg}")
        self.sig = sig
        self.msg = msg


class Hang(BaseException):
    pass


class Discard(Exception):
    """The generated case is outside the domain (counted, not judged)."""


class Ctx:
    def __init__(self) -> None:
        self.is_nontrivial = False
        self.labels: List[str] = []
        self.note: Optional[str] = None

    def nontrivial(self, cond: bool = True) -> None:
        if cond:
            self.is_nontrivial = True

    def label(self, name: str) -> None:
        self.labels.append(name)


def require(cond: Any, sig: str, msg: Any = "", **facts: Any) -> None:
    if not cond:
        text = msg() if callable(msg) else str(msg)
        raise Violation(sig, " ".join([text] + [f"{k}={v}" for k, v in facts.items()]).strip())


def close(a: float, b: float, rel: float = 1e-9, abs_: float = 1e-9) -> bool:
    if a == b:
        return True
    return math.isclose(a, b, rel_tol=rel, abs_tol=abs_)


def require_close(
    a: float, b: float, sig: str, msg: str = "", rel: float = 1e-9, abs_: float = 1e-9
) -> None:
    ok = a is not None and b is not None and close(a, b, rel, abs_)
    if not ok:
        raise Violation(sig, f"{msg} got {a!r} expected {b!r}")


class Sub:
    def __init__(
        self,
        name: str,
        strategy: Callable[[], Any],
        fn: Callable[[Any, Ctx], None],
        quick: int,
        thorough: int,
        rule: str,
        fixed: Optional[List[Any]] = None,
        hang_s: int = 150,
    ) -> None:
        self.name = name
        self.strategy = strategy
        self.fn = fn
        self.quick = quick
        self.thorough = thorough
        self.rule = rule
        self.fixed = fixed or []
        self.hang_s = hang_s


class Check:
    def __init__(self, pid: str) -> None:
        self.pid = pid
        self.subs: List[Sub] = []
        self.assumptions: List[str] = []

    def sub(
        self,
        name: str,
        strategy: Callable[[], Any],
        quick: int,
        thorough: int,
        rule: str,
        fixed: Optional[List[Any]] = None,
        hang_s: int = 150,
    ) -> Callable[[Callable[[Any, Ctx], None]], Callable[[Any, Ctx], None]]:
        def deco(fn: Callable[[Any, Ctx], None]) -> Callable[[Any, Ctx], None]:
            self.subs.append(
                Sub(name, strategy, fn, quick, thorough, rule, fixed, hang_s)
            )
            return fn

        return deco


def case_key(case: Any) -> str:
    return hashlib.sha1(
        json.dumps(case, sort_keys=True, default=str).encode()
    ).hexdigest()[:16]


def repo_exception_sig(e: BaseException) -> Optional[str]:
    """Signature of an exception that came out of /repo, else None.

    An exception counts as the code's own if one of its frames is in the
    planner package; an exception raised by the harness alone is an error of
    the check, never a violation.
    """
    tb = traceback.extract_tb(e.__traceback__)
    pkg = os.path.join(REPO, "terragraph_planner")
    frames = [f for f in tb if f.filename.startswith(pkg)]
    if not frames:
        return None
    last = frames[-1]
    return f"exception {type(e).__name__} in {last.name}"


@contextlib.contextmanager
def expect_raises(excs: Any, sig: str, msg: str = ""):
    """The block must raise one of `excs`."""
    try:
        yield
    except excs:
        return
    raise Violation(sig, msg or "no error raised")
