"""P33: the limits of the solver, and a solver that stops early."""
import hypothesis.strategies as st
import xpress as xp

from checks.p24 import ACTIVE, is_active
from checks.p32 import MEASURED, check_output, check_plan, make, plan_of, planned, worlds
from harness.core import Check, Discard, require
from terragraph_planner.common.configuration.enums import RedundancyLevel, SiteType, StatusType
from terragraph_planner.common.exceptions import OptimizerException

CHECK = Check("P33")
CHECK.assumptions = [
    "the settings of the solver have the meaning documented for Xpress: a negative time limit is final",
    "at most one site per place is active before planning",
    "wired links do not lead to clients, which the planner refuses",
]
STEPS = {"pops": "pop_proposal", "cost": "min_cost", "redundancy": "redundancy", "coverage": "max_coverage", "interference": "interference", "demand": "demand_site"}


class Stops:
    """Watch the problems of a run, and stop the solver in some of them."""

    def __init__(self, params, how=None):
        self.step = {getattr(params, v + "_max_time") * 60: k for k, v in STEPS.items()}
        self.how = how or {}
        self.seen = []
        self.count = {}

    def __call__(self, problem):
        step = self.step.get(abs(problem.limits.get("maxtime", 0)))
        whole = any(v.vartype != xp.continuous for v in problem._vars)
        self.seen.append((step, whole, dict(problem.limits)))
        n = self.count[step] = self.count.get(step, 0) + 1
        kind, first = self.how.get(step, (None, 0))
        return kind if whole and n <= first else None

    def __enter__(self):
        xp.stops = self
        return self

    def __exit__(self, *_):
        xp.stops = None


def run(c, how=None, **other):
    """Plan the network of a case with a solver that may stop: the network, the settings, what was seen and the refusal."""
    sites, t, params = make(c)
    for k, v in other.items():
        setattr(params, k, v)
    for (k, name), m in zip(STEPS.items(), c["minutes"]):
        setattr(params, name + "_max_time", m)
    for name, gap in zip(list(STEPS.values())[:5], c["gaps"]):
        setattr(params, name + "_rel_stop", gap)
    params.num_threads = c["threads"]
    stops = Stops(params, how)
    try:
        with stops:
            planned(t, params, "out")
    except OptimizerException as e:
        return sites, t, params, stops, str(e)
    return sites, t, params, stops, None


@st.composite
def limited(draw, step=None):
    c = draw(worlds())
    c["minutes"] = draw(st.permutations(draw(st.sampled_from([[1, 2, 3, 5, 7, 11], [15, 30, 45, 90, 120, 240]]))))
    c["gaps"] = draw(st.sampled_from([[0.01, 0.02, 0.03, 0.04, 0.05], [-1, 0.1, 0.2, -1, 0.3], [0.1, -1, 0, 0.2, -1]]))
    c["threads"] = draw(st.sampled_from([None, 1, 4]))
    return c


@CHECK.sub("limits", limited, 150, 8000, "at least three steps with limits of their own were solved", hang_s=200)
def limits(c, ctx):
    """Every step hands its own limits to the solver."""
    _, t, params, stops, refusal = run(c)
    steps = set()
    for step, whole, got in stops.seen:
        if step is None:
            require(not whole and got.get("maxtime", 0) < 0, "a step is solved without a time limit of the settings", limits=got)
            continue
        steps.add(step)
        require(got["maxtime"] < 0, "the time limit is not final", step=step, limits=got)
        gap = getattr(params, STEPS[step] + "_rel_stop", -1)
        require(got.get("miprelstop") == (gap if gap > 0 else None), "a step has the tolerance of another", step=step, want=gap, got=got.get("miprelstop"))
    for step, whole, got in stops.seen:
        require(got.get("threads") == c["threads"], "the number of threads is another", step=step, want=c["threads"], got=got.get("threads"))
    for step, needed in (("demand", params.maximize_common_bandwidth), ("coverage", params.enable_legacy_redundancy_method), ("redundancy", not params.enable_legacy_redundancy_method and params.redundancy_level != RedundancyLevel.NONE), ("pops", params.number_of_extra_pops > 0)):
        require(needed or step not in steps, "a step was taken that is not part of the run", step=step)
    if refusal is None:
        require({"cost", "interference"} <= steps and ("demand" in steps or not params.maximize_common_bandwidth), "a step is missing", steps=sorted(steps))
    for s in steps:
        ctx.label(s)
    ctx.nontrivial(len(steps) >= 3)


LATE = {
    "pops": dict(number_of_extra_pops=0),
    "coverage": dict(budget=0.0),
    "redundancy": dict(redundancy_level=RedundancyLevel.NONE),
}


@st.composite
def overdue(draw):
    c = draw(limited())
    c["step"] = s = draw(st.sampled_from(["pops", "coverage", "redundancy", "redundancy", "cost", "cost", "interference", "demand"]))
    c["first"] = 99
    if s == "pops":
        c["more"]["number_of_extra_pops"] = draw(st.integers(1, 2))
    if s == "coverage":
        c["level"] = None
        c["more"]["budget"] = 300000.0
    if s == "redundancy":
        c["level"] = draw(st.sampled_from(["LOW", "MEDIUM", "HIGH"]))
        c["first"] = draw(st.sampled_from([1, 99]))
    if s == "demand":
        c["more"]["maximize_common_bandwidth"] = True
    if s == "cost":
        c["first"] = draw(st.sampled_from([1, 3, 5, 99]))
    return c


@CHECK.sub("late", overdue, 260, 8000, "the step in question was reached and stopped", hang_s=300)
def late(c, ctx):
    """The solver finds nothing in time in one step."""
    step = c["step"]
    sites, t, params, stops, refusal = run(c, {step: ("late", c["first"])})
    reached = step in stops.count
    ctx.label(step + (" stopped" if reached else ""))
    ctx.nontrivial(reached)
    if step == "redundancy" and c["first"] == 1 and stops.count.get(step, 0) > 1:
        require(False, "a step goes on after its first part found nothing", step=step)
    if step in LATE:
        _, u, _, _, other = run(c, **LATE[step])
        if refusal is not None or other is not None:
            require((refusal is None) == (other is None), "a step without an answer is not like a run without it", step=step, refusal=refusal, other=other)
            return
        one, two = plan_of(t), plan_of(u)
        for part in one:
            require(set(one[part]) == set(two[part]), "a step without an answer is not like a run without it", step=step, part=part)
            for k, v in one[part].items():
                require(v == two[part][k], "a step without an answer is not like a run without it", step=step, which=k, got=v, want=two[part][k])
        return
    if step == "interference" or (step == "cost" and c["first"] == 99):
        if reached:
            require(refusal is not None, "a plan was made though the solver found nothing", step=step)
            require("time" in refusal, "the refusal does not say that the time was over", step=step, msg=refusal)
        return
    if refusal is None:
        check_plan(c, sites, t, params)
        check_output(c, t)
        return
    if step == "cost" and stops.count.get(step, 0) <= c["first"]:
        require("time" in refusal or not reached, "the refusal does not say that the time was over", step=step, msg=refusal)
        return
    _, _, _, _, other = run(c)
    require(other is not None or MEASURED in refusal or step == "demand", "a run was refused though the solver had an answer in the end", step=step, msg=refusal)


@st.composite
def hasty(draw):
    c = draw(limited())
    c["steps"] = draw(st.lists(st.sampled_from(["pops", "cost", "coverage", "redundancy", "interference", "interference"]), min_size=1, max_size=3, unique=True))
    if "pops" in c["steps"] and draw(st.booleans()):
        c["more"]["number_of_extra_pops"] = 1
    return c


@CHECK.sub("early", hasty, 260, 8000, "the plan has active links and the solver stopped early in some step", hang_s=300)
def early(c, ctx):
    """The solver stops with an answer that is not the best one."""
    sites, t, params, stops, refusal = run(c, {s: ("early", 99) for s in c["steps"]})
    reached = [s for s in c["steps"] if s in stops.count]
    if refusal is not None:
        _, _, _, _, other = run(c)
        require(other is not None or MEASURED in refusal, "a run was refused though the solver had an answer", steps=reached, msg=refusal)
        ctx.label("refused")
        return
    for s in reached:
        ctx.label(s)
    ctx.nontrivial(bool(reached) and any(is_active(l) for l in t.links.values()))
    check_plan(c, sites, t, params)
    check_output(c, t)
