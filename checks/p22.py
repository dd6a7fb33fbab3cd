"""P22: availability of demand when links fail at random."""
import itertools
import math

import hypothesis.strategies as st

from checks.p20 import FILTERS, build, edges, pops
from checks.p21 import arcs_of, graph_state, nets, reached
from harness.core import Check, require, require_close
from harness.gen import fl
from terragraph_planner.common.configuration.enums import LinkType, StatusType
from terragraph_planner.common.exceptions import OptimizerException
from terragraph_planner.optimization.topology_availability import compute_availability
from terragraph_planner.optimization.topology_networkx import build_digraph

CHECK = Check("P22")
CHECK.assumptions = ["links fail and are repaired independently, with the mean times the documentation gives", "simulated values may differ from exact ones by seven standard deviations of the slowest process plus ten repair times"]
NAMES = FILTERS["active"]


@st.composite
def cases(draw):
    c = draw(nets(8))
    c["live"] = draw(st.one_of(fl(0, 100), st.sampled_from([0.0, 50.0, 80.0, 90.0, 99.0, 99.9, 100.0])))
    c["time"] = draw(st.sampled_from([1.0, 30.0, 100.0]))
    c["seed"] = draw(st.integers(0, 1000))
    c["limit"] = draw(st.sampled_from([None, None, 60.0, 0.0]))
    return c


def simulate(c):
    sites, t = build(c)
    g = build_digraph(t, {StatusType[x] for x in NAMES})
    state = graph_state(g)
    out = compute_availability(g, c["live"], c["time"], c["limit"], c["seed"])
    require(graph_state(g) == state, "estimating availability changed the graph")
    again = compute_availability(g, c["live"], c["time"], c["limit"], c["seed"])
    if c["limit"] != 60.0:
        require(out == again, "estimating availability again with the same seed gives another result")
    return sites, t, out


def cells(t, arcs):
    """Links that can fail, as unordered pairs."""
    return sorted({(min(a, b), max(a, b)) for a, b in arcs if t.get_link_by_site_ids(a, b).link_type == LinkType.WIRELESS_BACKHAUL})


def without(arcs, gone):
    return arcs - {x for a, b in gone for x in ((a, b), (b, a))}


@CHECK.sub("bounds", cases, 4000, 40000, "some demand depends on links that fail", hang_s=40)
def bounds(c, ctx):
    """Exact relations between the simulated links and the demand they carry."""
    sites, t, (avail, links) = simulate(c)
    arcs, src = arcs_of(t), pops(t, NAMES)
    all_ = reached(t, arcs, src)
    require(set(avail) == all_, "availability is given for other demand than that which is connected")
    weak = cells(t, arcs)
    require(set(links) == set(weak), "the links that can fail are not the wireless relay links", got=sorted(links), want=weak)
    for k, v in itertools.chain(avail.items(), links.items()):
        require(-1e-9 <= v <= 1 + 1e-9, "an availability is no probability", item=k, value=v)
    always = reached(t, without(arcs, weak), src)
    for d in always:
        require_close(avail[d], 1.0, "demand that no failing link serves is not always available", rel=0, abs_=1e-9)
    if c["live"] == 100.0:
        for d, v in avail.items():
            require_close(v, 1.0, "demand is not always available though no link fails", rel=0, abs_=1e-9)
    if c["limit"] == 0.0:
        return
    for e in weak:
        for d in all_ - reached(t, without(arcs, [e]), src):
            require(avail[d] <= links[e] + 1e-9, "demand is available although the only link to it is down", demand=d, link=e, available=avail[d], up=links[e])
    for d in all_:
        for e in weak:
            if d in reached(t, without(arcs, [x for x in weak if x != e]), src):
                require(avail[d] >= links[e] - 1e-9, "demand is not available although a link that suffices is up", demand=d, link=e)
        down = sum(1 - links[e] for e in weak)
        require(avail[d] >= 1 - down - 1e-9, "demand is unavailable for longer than all its links together")
        if d not in always and 0 < c["live"] < 100:
            ctx.nontrivial()


@st.composite
def small(draw):
    c = draw(nets(6))
    c["live"] = draw(st.one_of(fl(20, 100), st.sampled_from([50.0, 80.0, 90.0, 99.0])))
    c["time"] = draw(st.sampled_from([200.0, 400.0]))
    c["seed"] = draw(st.integers(0, 1000))
    c["limit"] = draw(st.sampled_from([None, 60.0]))
    return c


@CHECK.sub("exact", small, 2000, 30000, "some demand has an availability strictly between those of its links and one", hang_s=60)
def exact(c, ctx):
    """The simulated availability against the sum over all combinations of failed links."""
    sites, t, (avail, links) = simulate(c)
    arcs, src = arcs_of(t), pops(t, NAMES)
    weak = cells(t, arcs)
    if len(weak) > 7:
        return
    p = c["live"] / 100.0
    exact_ = {d: 0.0 for d in avail}
    for up in itertools.product((True, False), repeat=len(weak)):
        w = math.prod(p if u else 1 - p for u in up)
        if w:
            for d in reached(t, without(arcs, [e for e, u in zip(weak, up) if not u]), src):
                exact_[d] += w

    def near(got, want, what, **facts):
        sd = math.sqrt(max(2 * max(want * (1 - want), 0.01 * (1 - p)) * p * (1 - p) / c["time"], 0))
        require(abs(got - want) <= 7 * sd + 10 * (1 - p) * min(p + 0.1, 1) / c["time"] + 1e-9, what, got=got, exact=want, **facts)

    for e, v in links.items():
        near(v, p, "a link is up for another share of time than asked", link=e)
    for d, v in avail.items():
        near(v, exact_[d], "the availability of demand is not that of its links", demand=d, links=len(weak), live=p)
        ctx.nontrivial(0.01 < exact_[d] < 0.99 and abs(exact_[d] - p) > 0.05)


@CHECK.sub("refused", lambda: st.tuples(st.one_of(fl(-50, 150), st.sampled_from([-0.1, 100.1, 0.0, 100.0])), st.sampled_from([-1.0, 0.0, 0.5, 10.0])), 100, 1000, "a parameter is out of range", hang_s=15)
def refused(case, ctx):
    live, time_ = case
    c = dict(sites=[dict(t="POP", x=0.0, y=0.0, st="PROPOSED"), dict(t="DN", x=50.0, y=0.0, st="PROPOSED")], links=[(0, 1, "PROPOSED", True)], demand=[[1]], one_way=[], caps=[1.0], mcs=[9])
    bad = not 0 <= live <= 100 or time_ <= 0
    ctx.nontrivial(bad)
    sites, t = build(c)
    try:
        compute_availability(build_digraph(t, {StatusType[x] for x in NAMES}), live, time_, None, 1)
        require(not bad, "an impossible availability or duration was accepted", live=live, time=time_)
    except OptimizerException:
        require(bad, "a possible availability and duration was refused", live=live, time=time_)
