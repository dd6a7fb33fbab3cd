"""A stand-in for the part of the Xpress Python interface the planner uses.

Xpress cannot be installed here.  Problems are solved exactly by HiGHS
(scipy.optimize.milp).  Variables default to lb=0, ub=inf as in Xpress.  A
solution is reported only if it is optimal; controls (time limit, relative gap,
threads) are accepted and not used, so that every run is deterministic.  The
solution returned is checked here against every bound and constraint, so a
plan that breaks a constraint does so because the planner did not pose it.
"""
from typing import Any, Dict, Iterable, List, Optional

import numpy as np
from scipy import sparse
from scipy.optimize import Bounds, LinearConstraint, milp

continuous = 0
binary = 1
integer = 2
minimize = 1
maximize = -1

_INF = float("inf")

# A hook for the harness: every solved problem is appended here when it is a
# list (None: nothing is recorded).
solved_log: Optional[List[Any]] = None
# Called with each problem about to be solved: None (solved to the optimum),
# "late" (the time is over, nothing was found), or "early" (the time is over, a
# solution was found that need not be the best).
stops: Optional[Any] = None
# Wall-clock safety limit per solve (s); a solve which hits it is `Undecided`.
SOLVE_LIMIT = 6.0


class Undecided(RuntimeError):
    """HiGHS stopped without an answer: an error of the harness, no verdict."""


def _parts(x: Any):
    if isinstance(x, var):
        return {x: 1.0}, 0.0
    if isinstance(x, expression):
        return x.terms, x.const
    if isinstance(x, (int, float, np.integer, np.floating)):
        return {}, float(x)
    raise TypeError(f"not a linear expression: {x!r}")


class _Arith:
    __slots__ = ()

    def _comb(self, other: Any, sign: float) -> "expression":
        t1, c1 = _parts(self)
        try:
            t2, c2 = _parts(other)
        except TypeError:
            return NotImplemented
        terms = dict(t1)
        for v, c in t2.items():
            terms[v] = terms.get(v, 0.0) + sign * c
        return expression(terms, c1 + sign * c2)

    def __add__(self, other: Any) -> "expression":
        return self._comb(other, 1.0)

    __radd__ = __add__

    def __sub__(self, other: Any) -> "expression":
        return self._comb(other, -1.0)

    def __rsub__(self, other: Any) -> "expression":
        return (self * -1.0) + other

    def __neg__(self) -> "expression":
        return self * -1.0

    def __mul__(self, other: Any) -> "expression":
        t, c = _parts(self)
        if isinstance(other, (var, expression)):
            t2, c2 = _parts(other)
            if t2 and t:
                raise TypeError("non-linear expression")
            if not t:
                return expression({v: k * c for v, k in t2.items()}, c * c2)
            other = c2
        if not isinstance(other, (int, float, np.integer, np.floating)):
            return NotImplemented
        k = float(other)
        return expression({v: a * k for v, a in t.items()}, c * k)

    __rmul__ = __mul__

    def __truediv__(self, other: Any) -> "expression":
        return self * (1.0 / float(other))

    def __le__(self, other: Any) -> "constraint":
        return constraint(self - other, -_INF, 0.0)

    def __ge__(self, other: Any) -> "constraint":
        return constraint(self - other, 0.0, _INF)

    def __eq__(self, other: Any) -> "constraint":  # type: ignore
        return constraint(self - other, 0.0, 0.0)

    def __bool__(self) -> bool:
        return True


class expression(_Arith):
    __slots__ = ("terms", "const")

    def __init__(self, terms: Dict[Any, float], const: float) -> None:
        self.terms = terms
        self.const = const

    __hash__ = None  # type: ignore


class var(_Arith):
    __slots__ = ("name", "vartype", "lb", "ub", "_id")
    _next = 0

    def __init__(
        self,
        name: Optional[str] = None,
        lb: float = 0.0,
        ub: float = _INF,
        threshold: float = 0.0,
        vartype: int = continuous,
    ) -> None:
        self.name = name
        self.lb = lb
        self.ub = ub
        self.vartype = vartype
        if vartype == binary:
            self.ub = min(self.ub, 1.0)
        var._next += 1
        self._id = var._next

    def __hash__(self) -> int:
        return self._id

    # dict lookups compare by identity first, and every variable has its own
    # hash, so the overloaded __eq__ is not reached by dictionaries.


class constraint:
    __slots__ = ("body", "lo", "hi")

    def __init__(self, body: expression, lo: float, hi: float) -> None:
        self.body = body
        self.lo = lo
        self.hi = hi

    def __bool__(self) -> bool:
        raise TypeError("a constraint has no truth value")


def Sum(*args: Any) -> expression:
    terms: Dict[var, float] = {}
    const = 0.0

    def add(x: Any) -> None:
        nonlocal const
        if isinstance(x, (var, expression, int, float, np.integer, np.floating)):
            t, c = _parts(x)
            for v, k in t.items():
                terms[v] = terms.get(v, 0.0) + k
            const += c
        elif isinstance(x, dict):
            for y in x.values():
                add(y)
        elif isinstance(x, Iterable):
            for y in x:
                add(y)
        else:
            raise TypeError(f"cannot sum {x!r}")

    for a in args:
        add(a)
    return expression(terms, const)


def evaluate(*args: Any, problem: Any = None, solution: Any = None) -> List[float]:
    out = []
    for a in args:
        t, c = _parts(Sum(a))
        out.append(
            c
            + sum(
                k * (solution[problem.getIndex(v)] )
                for v, k in t.items()
            )
        )
    return out


class _Attributes:
    def __init__(self, p: "problem") -> None:
        self._p = p

    def __getattr__(self, name: str) -> Any:
        return self._p.getAttrib(name)


class _Controls:
    pass


def least(
    c: Any,
    integ: Any,
    lb: Any,
    ub: Any,
    rows: List[Dict[int, float]],
    lo: List[float],
    hi: List[float],
) -> Any:
    """
    Minimize c x; the status and the solution (None if there is none).

    This HiGHS release gives wrong answers for some problems with empty
    columns, rows of a single variable and fixed variables, its presolve calls
    some feasible problems infeasible, and without presolve it sometimes stops
    at a choice that is not the best.  So these are removed here, problems are
    solved with and without presolve and every solution is re-checked.
    """
    n = len(c)
    lb, ub = np.array(lb, dtype=float), np.array(ub, dtype=float)
    integ = np.array(integ)
    whole = integ == 1
    lb[whole] = np.ceil(lb[whole] - 1e-6)
    ub[whole] = np.floor(ub[whole] + 1e-6)
    todo = [
        ({i: k for i, k in row.items() if k != 0.0}, float(a), float(b))
        for row, a, b in zip(rows, lo, hi)
    ]
    every = todo
    while True:
        if (lb > ub + 1e-7).any():
            return "infeasible", None
        ub = np.maximum(ub, lb)
        left = []
        moved = False
        for row, a, b in todo:
            done = [i for i in row if lb[i] == ub[i]]
            if done:
                base = sum(row[i] * lb[i] for i in done)
                row = {i: k for i, k in row.items() if lb[i] != ub[i]}
                a, b = a - base, b - base
            if not row:
                if a > 1e-6 or b < -1e-6:
                    return "infeasible", None
                continue
            if len(row) == 1:
                ((i, k),) = row.items()
                x, y = (a / k, b / k) if k > 0 else (b / k, a / k)
                if whole[i]:
                    x, y = np.ceil(x - 1e-6), np.floor(y + 1e-6)
                elif abs(x - y) < 1e-9:
                    x = y = min(max(x, lb[i]), ub[i]) if lb[i] - 1e-7 <= x <= ub[i] + 1e-7 else x
                if x > ub[i] + 1e-7 or y < lb[i] - 1e-7:
                    return "infeasible", None
                lb[i] = max(lb[i], min(x, ub[i]))
                ub[i] = min(ub[i], max(y, lb[i]))
                moved = True
                continue
            left.append((row, a, b))
        todo = left
        if not moved:
            break
    used = sorted({i for row, _, _ in todo for i in row})
    x = np.where(np.isfinite(lb), lb, np.where(np.isfinite(ub), ub, 0.0))
    for i in set(range(n)) - set(used):
        if c[i] != 0:
            x[i] = lb[i] if c[i] > 0 else ub[i]
            if not np.isfinite(x[i]):
                return "unbounded", None
    if used:
        at = {i: j for j, i in enumerate(used)}
        m = sparse.csr_matrix(
            (
                [k for row, _, _ in todo for k in row.values()],
                (
                    [r for r, (row, _, _) in enumerate(todo) for _ in row],
                    [at[i] for row, _, _ in todo for i in row],
                ),
            ),
            shape=(len(todo), len(used)),
        )
        cost = np.array([c[i] for i in used], dtype=float)
        low = np.array([a for _, a, _ in todo])
        high = np.array([b for _, _, b in todo])
        res = None
        said = set()
        for presolve in (False, True) if integ[used].any() else (False,):
            one = milp(
                cost,
                integrality=integ[used],
                bounds=Bounds(lb[used], ub[used]),
                constraints=LinearConstraint(m, low, high),
                options={
                    "mip_rel_gap": 0.0,
                    "time_limit": SOLVE_LIMIT,
                    "presolve": presolve,
                },
            )
            said.add(one.status)
            if one.status != 0:
                if one.status == 4 and "nfeasible or" in str(one.message):
                    said.add(2)
                continue
            y = m @ one.x
            if (y < low - 1e-5).any() or (y > high + 1e-5).any():
                continue
            if res is None or one.fun < res.fun - 1e-7 * max(1, abs(res.fun)):
                res = one
        if res is None:
            if 3 in said:
                return "unbounded", None
            if 2 in said:
                return "infeasible", None
            raise Undecided(f"HiGHS status {one.status}: {one.message}")
        x[used] = res.x
        sure = integ[used] == 1
        if sure.any() and not sure.all():
            # continuous variables that belong to the rounded choices
            at_lb, at_ub = lb[used], ub[used]
            at_lb[sure] = at_ub[sure] = np.round(res.x[sure])
            res = milp(
                cost,
                bounds=Bounds(at_lb, at_ub),
                constraints=LinearConstraint(m, low, high),
                options={"time_limit": SOLVE_LIMIT, "presolve": False},
            )
            if res.status == 0:
                x[used] = res.x
    x[whole] = np.round(x[whole])
    x = np.minimum(np.maximum(x, lb), ub)
    for row, a, b in every:
        y = sum(k * x[i] for i, k in row.items())
        if y < a - 1e-5 or y > b + 1e-5:
            raise Undecided(f"HiGHS solution off by {max(a - y, y - b)}")
    return "optimal", x


class problem:
    def __init__(self, *args: Any, **kw: Any) -> None:
        self.attributes = _Attributes(self)
        self.controls = _Controls()
        self._name = ""
        self.limits: Dict[str, Any] = {}
        self._clear()

    def _clear(self) -> None:
        self._vars: List[var] = []
        self._index: Dict[int, int] = {}
        self._cons: List[constraint] = []
        self._obj = expression({}, 0.0)
        self._sense = minimize
        self._unsolved()

    def _unsolved(self) -> None:
        self._sol: Optional[np.ndarray] = None
        self._status = "unstarted"
        self._objval: Optional[float] = None

    def setprobname(self, name: str) -> None:
        self._name = name

    def setControl(self, *args: Any) -> None:
        """Noted only: no run here depends on the clock."""
        self.limits.update(args[0] if len(args) == 1 else {args[0]: args[1]})

    def reset(self) -> None:
        self._clear()

    def write(self, path: str, fmt: str = "") -> None:
        with open(path + (".lp" if fmt else ""), "w") as f:
            f.write(f"\\ {self._name}: {len(self._vars)} variables\n")

    # model ---------------------------------------------------------------
    def addVariable(self, *args: Any) -> None:
        for a in args:
            if isinstance(a, var):
                if a._id in self._index:
                    raise RuntimeError(f"variable {a.name} added twice")
                self._index[a._id] = len(self._vars)
                self._vars.append(a)
            elif isinstance(a, dict):
                self.addVariable(*a.values())
            elif isinstance(a, Iterable):
                self.addVariable(*a)
            else:
                raise TypeError(f"not a variable: {a!r}")
        self._unsolved()

    def delVariable(self, v: var) -> None:
        i = self._index.pop(v._id)
        del self._vars[i]
        self._index = {x._id: k for k, x in enumerate(self._vars)}
        for c in self._cons:
            c.body.terms.pop(v, None)
        self._obj.terms.pop(v, None)
        self._unsolved()

    def addConstraint(self, *args: Any) -> None:
        for a in args:
            if isinstance(a, constraint):
                self._cons.append(a)
            elif isinstance(a, (bool, np.bool_)):
                raise TypeError("constraint without variables")
            elif isinstance(a, dict):
                self.addConstraint(*a.values())
            elif isinstance(a, Iterable):
                self.addConstraint(*a)
            else:
                raise TypeError(f"not a constraint: {a!r}")
        self._unsolved()

    def delConstraint(self, c: constraint) -> None:
        for i, x in enumerate(self._cons):
            if x is c:
                del self._cons[i]
                self._unsolved()
                return
        raise RuntimeError("constraint is not in the problem")

    def setObjective(self, expr: Any, sense: int = minimize) -> None:
        t, c = _parts(expr)
        self._obj = expression(dict(t), c)
        self._sense = sense
        self._unsolved()

    # solve ---------------------------------------------------------------
    def solve(self, *args: Any) -> None:
        how = stops(self) if stops is not None else None
        n = len(self._vars)
        c = np.zeros(n)
        for v, k in self._obj.terms.items():
            c[self._index[v._id]] += k * self._sense
        lb = np.array([v.lb for v in self._vars], dtype=float)
        ub = np.array([v.ub for v in self._vars], dtype=float)
        integ = np.array(
            [0 if v.vartype == continuous else 1 for v in self._vars]
        )
        rows = [
            {self._index[v._id]: k for v, k in con.body.terms.items()}
            for con in self._cons
        ]
        lo = [con.lo - con.body.const for con in self._cons]
        hi = [con.hi - con.body.const for con in self._cons]
        if how == "late":
            self._status, self._sol, self._objval = "late", None, None
            return
        # an answer that is not the best: the best one for a wrong goal
        aim = c if how is None else c * (0.1 + (np.arange(n) * 7919 % 97) / 97)
        self._status, x = least(aim, integ, lb, ub, rows, lo, hi)
        if how == "early" and self._status == "optimal":
            self._status = "early"
        self._sol = x
        if x is not None:
            self._objval = (
                float(np.dot(c, x)) * self._sense + self._obj.const
            )
        if solved_log is not None:
            solved_log.append((self._name, self._status, self._objval, n, len(lo)))

    # results -------------------------------------------------------------
    def getSolution(self, *args: Any) -> List[float]:
        if self._sol is None:
            raise RuntimeError("no solution")
        if len(args) == 1 and isinstance(args[0], var):
            return float(self._sol[self.getIndex(args[0])])
        if args:
            return [float(self._sol[self.getIndex(a)]) for a in args]
        return [float(x) for x in self._sol]

    def getIndex(self, v: var) -> int:
        return self._index[v._id]

    def getObjVal(self) -> float:
        if self._objval is None:
            raise RuntimeError("no solution")
        return self._objval

    def getAttrib(self, name: str) -> Any:
        opt = self._status in ("optimal", "early")
        if name == "mipsols":
            return 1 if opt else 0
        if name == "mipstatus":
            return {"optimal": 6, "early": 4, "late": 3, "infeasible": 5, "unbounded": 7}.get(
                self._status, 0
            )
        if name == "lpstatus":
            return {"optimal": 1, "early": 1, "late": 4, "infeasible": 2, "unbounded": 5}.get(
                self._status, 0
            )
        raise AttributeError(name)
