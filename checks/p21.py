"""P21: what single failures disconnect, disjoint paths and the most disruptive links."""
import itertools
import math
from collections import defaultdict

import hypothesis.strategies as st

from checks.p20 import FILTERS, build, distances, edges, graphs, pops
from harness import topo
from harness.core import Check, require
from harness.gen import fl
from terragraph_planner.common.configuration.enums import LinkType, SiteType, StatusType
from terragraph_planner.optimization.constants import SUPERSOURCE
from terragraph_planner.optimization.topology_networkx import build_digraph, disjoint_paths, single_edge_failures, single_site_failures
from terragraph_planner.optimization.topology_operations import get_adversarial_links

CHECK = Check("P21")
CHECK.assumptions = ["relays are linked in both directions, as the planner demands", "where several shortest paths have one length, any of them may be the one that is removed to test for a second path"]
NAMES = FILTERS["active"]
MIX = [["PROPOSED"], ["PROPOSED"], ["PROPOSED", "EXISTING"], ["PROPOSED"] * 6 + ["CANDIDATE"]]


@st.composite
def nets(draw, high=11, one_way=False):
    c = draw(graphs(high, draw(st.sampled_from(MIX))))
    c["one_way"] = draw(st.lists(st.integers(0, 24), max_size=6)) if one_way and draw(st.booleans()) else []
    n = len(c["sites"])
    c["sites"][0]["t"] = "POP"
    for a, b, *_ in list(c["links"])[: draw(st.integers(0, 4))]:  # a second way around, sometimes
        x = draw(st.integers(0, n - 1))
        if x not in (a, b):
            c["links"].append((a, x, "PROPOSED", True))
    if not c["demand"]:
        c["demand"] = [[n - 1]]
    for i, s in enumerate(c["sites"]):
        if s["t"] == "CN" and draw(st.booleans()):
            c["demand"].append([i])
    return c


def arcs_of(t, names=NAMES):
    return set(edges(t, names))


def reached(t, arcs, src, without=()):
    """Demand that some source reaches."""
    d = distances([s for s in src if s not in without], {(a, b) for a, b in arcs if a not in without})
    return {x.demand_id for x in t.demand_sites.values() if any(s.site_id in d and s.site_id not in without for s in x.connected_sites)}


def connected(t, arcs, src):
    """Demand that is connected: only sites with an active status count."""
    return reached(t, arcs, src)


def graph_state(g):
    return {e: dict(d) for *e, d in ((a, b, x) for a, b, x in g.edges(data=True)) for e in [tuple(e)]}, dict(g.nodes(data="site_type"))


@CHECK.sub("links", lambda: nets(one_way=True), 3000, 40000, "one link disconnects some demand and another none", hang_s=15)
def links(c, ctx):
    """Loss of each wireless relay link in turn."""
    sites, t = build(c)
    g = build_digraph(t, {StatusType[x] for x in NAMES})
    src = pops(t, NAMES)
    arcs = arcs_of(t)
    state = graph_state(g)
    all_ = reached(t, arcs, src)
    want = {}
    for a, b in arcs:
        if t.get_link_by_site_ids(a, b).link_type == LinkType.WIRELESS_BACKHAUL:
            want[min(a, b), max(a, b)] = all_ - reached(t, arcs - {(a, b), (b, a)}, src)
    got = single_edge_failures(g)
    require(set(got) == set(want), "the links whose failure is examined are not the wireless relay links", extra=sorted(set(got) - set(want)), missing=sorted(set(want) - set(got)))
    for k, v in want.items():
        require(set(got[k]) == v, "the demand said to be disconnected by a link's failure is wrong", link=k, got=sorted(got[k]), want=sorted(v))
    require(graph_state(g) == state, "examining link failures changed the graph")
    ctx.nontrivial(any(want.values()) and not all(want.values()))


@CHECK.sub("sites", lambda: nets(one_way=True), 3000, 40000, "a relay and a source or two relays disconnect different demand", hang_s=15)
def sites_(c, ctx):
    """Loss of each source and relay in turn."""
    sites, t = build(c)
    g = build_digraph(t, {StatusType[x] for x in NAMES})
    src = pops(t, NAMES)
    arcs = arcs_of(t)
    state = graph_state(g)
    all_ = reached(t, arcs, src)
    want = {"POP": {}, "DN": {}}
    for s in sites:
        if s.site_type != SiteType.CN and s.status_type.name in NAMES:
            lost = all_ - reached(t, arcs, src, {s.site_id})
            if lost:
                want[s.site_type.name][s.site_id] = lost
    got_pop, got_dn = single_site_failures(g)
    for kind, got in (("POP", got_pop), ("DN", got_dn)):
        require({k: set(v) for k, v in got.items()} == want[kind], "the demand said to be disconnected by a site's failure is wrong", kind=kind, got=got, want=want[kind])
    require(graph_state(g) == state, "examining site failures changed the graph")
    ctx.nontrivial(len({frozenset(v) for k in want.values() for v in k.values()}) > 1)


def shortest_paths(goal_sites, src, arcs, cap=60):
    """All shortest chains of sites from a source to a site of the set (None if too many)."""
    dist = distances(src, arcs)
    ends = [s for s in goal_sites if s in dist]
    if not ends:
        return []
    best = min(dist[s] for s in ends)
    into = defaultdict(list)
    for a, b in arcs:
        into[b].append(a)
    out = [[s] for s in sorted(ends) if dist[s] == best]
    for d in range(best, 0, -1):
        out = [[a] + p for p in out for a in into[p[0]] if dist.get(a) == d - 1]
        if len(out) > cap:
            return None
    return out


@CHECK.sub("disjoint", nets, 3000, 40000, "one demand has a second path and another has none", hang_s=15)
def disjoint(c, ctx):
    """Demand with a second path, by removing each shortest path and by every single failure."""
    sites, t = build(c)
    g = build_digraph(t, {StatusType[x] for x in NAMES})
    src = pops(t, NAMES)
    arcs = arcs_of(t)
    before = topo.snapshot(t)
    state = graph_state(g)
    r = disjoint_paths(t, g)
    require(graph_state(g) == state, "looking for second paths changed the graph")
    require(topo.snapshot(t) == before, "looking for second paths changed the network")
    all_ = reached(t, arcs, src)
    require(set(r.disconnected_demand_locations) == set(t.demand_sites) - all_, "the demand said to be disconnected is wrong")
    second = set(r.demand_with_disjoint_paths)
    direct = set(r.demand_connected_to_pop)
    require(not (second & direct) and not ((second | direct) - all_), "a demand is counted twice or though disconnected")
    seen = set()
    for d in t.demand_sites.values():
        ends = [s.site_id for s in d.connected_sites]
        if d.demand_id not in all_:
            continue
        on_source = any(e in src for e in ends)
        require((d.demand_id in direct) == on_source, "demand at a source is not counted as such (or other demand is)")
        if on_source:
            continue
        if d.demand_id in second:
            for a, b in arcs:
                if t.sites[b].site_type != SiteType.CN:
                    require(d.demand_id in reached(t, arcs - {(a, b), (b, a)}, src), "demand said to have a second path loses service when one link fails", link=(a, b), demand=d.demand_id)
        ways = shortest_paths(ends, src, arcs)
        if ways is None:
            continue
        results = set()
        for p in ways:
            gone = {(a, b) for a, b in zip(p, p[1:]) if t.sites[b].site_type != SiteType.CN}
            results.add(d.demand_id in reached(t, arcs - gone, src))
        require((d.demand_id in second) in results, "whether demand has a second path is wrong for each of its shortest paths", demand=d.demand_id, said=d.demand_id in second)
        seen.add(d.demand_id in second)
    ctx.nontrivial(len(seen) == 2)
    require(disjoint_paths(t, g) == r, "looking for second paths again gives another answer")


@CHECK.sub("report", nets, 800, 10000, "some link disconnects demand that has a shortest path over relays", hang_s=15)
def report(c, ctx):
    """All analyses in sequence on one graph, as in a report, agree with fresh graphs."""
    sites, t = build(c)
    fresh = lambda: build_digraph(t, {StatusType[x] for x in NAMES})  # noqa: E731
    want = (disjoint_paths(t, fresh()), single_edge_failures(fresh()), single_site_failures(fresh()))
    g = fresh()
    for order in itertools.permutations(range(3)):
        for k in order:
            got = (lambda: disjoint_paths(t, g), lambda: single_edge_failures(g), lambda: single_site_failures(g))[k]()
            require(got == want[k], "an analysis gives another answer after others ran on the same graph", which=k, order=order)
    ctx.nontrivial(any(want[1].values()) and len(want[0].demand_connected_to_pop) + len(want[0].disconnected_demand_locations) < len(t.demand_sites))


@st.composite
def upgrades(draw):
    c = draw(nets(10))
    for s in c["sites"]:
        if draw(st.integers(0, 3)) == 0:
            s["st"] = "CANDIDATE"
    c["sites"][0]["st"] = "PROPOSED"
    n = len(c["sites"])
    for _ in range(draw(st.integers(1, 12))):
        c["links"].append((draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1)), "CANDIDATE", True))
    if draw(st.integers(0, 2)) == 0:  # another device in the place of a relay
        k = draw(st.integers(0, n - 1))
        c["sites"].append(dict(c["sites"][k], t=draw(st.sampled_from(["DN", "POP", "CN"])), st=draw(st.sampled_from(["CANDIDATE", "CANDIDATE", "EXISTING"])), dev=1 - c["sites"][k]["dev"]))
        for _ in range(2):
            c["links"].append((n, draw(st.integers(0, n - 1)), "PROPOSED", True))
    c["caps"] = [draw(st.sampled_from([0.0, 1.0, 1.0, 1.0, 1.8])) for _ in range(8)] if draw(st.booleans()) else [1.0]
    c["ratio"] = draw(st.one_of(fl(0, 1), st.sampled_from([0.0, 0.2, 1.0])))
    return c


@CHECK.sub("disruptive", upgrades, 4000, 40000, "some but not all disrupting links are chosen", hang_s=15)
def disruptive(c, ctx):
    """Links chosen to be planned around disrupt the plan and can all be done without."""
    sites, t = build(c)
    before = topo.snapshot(t)
    got = set(get_adversarial_links(t, c["ratio"]))
    require(topo.snapshot(t) == before, "choosing links to plan around changed the network")
    act = [l for l in t.links.values() if l.status_type.name in NAMES and l.link_type == LinkType.WIRELESS_BACKHAUL]
    limit = math.ceil(len(act) * c["ratio"])
    # equipment that may still be selected where something is selected already
    spots = defaultdict(list)
    for s in sites:
        spots[s.latitude, s.longitude].append(s)
    rank = {SiteType.CN: 0, SiteType.DN: 1, SiteType.POP: 2}
    dead = set()
    for group in spots.values():
        on = [s for s in group if s.status_type.name in NAMES]
        if len(group) > 1 and on:
            top = max(rank[s.site_type] for s in on)
            for s in group:
                if rank[s.site_type] < top or (rank[s.site_type] > top and top > 0) or (rank[s.site_type] == top and s not in on):
                    dead.add(s.site_id)
    cand = {(a, b) for a, b in edges(t, FILTERS["reachable"]) if t.get_link_by_site_ids(a, b).capacity > 0 and a not in dead and b not in dead}
    csrc = [p for p in pops(t, FILTERS["reachable"]) if p not in dead]

    def served(arcs):
        d = distances(csrc, arcs)
        return {x.demand_id for x in t.demand_sites.values() if any(s.site_id in d and s.site_id not in dead for s in x.connected_sites)}

    arcs, src = arcs_of(t), pops(t, NAMES)
    all_ = reached(t, arcs, src)
    lost = {}
    for l in act:
        a, b = l.tx_site.site_id, l.rx_site.site_id
        if (a, b) in arcs:
            lost[min(a, b), max(a, b)] = len(all_ - reached(t, arcs - {(a, b), (b, a)}, src))
    chosen = {(min(e), max(e)) for e in got}
    for a, b in got:
        require((min(a, b), max(a, b)) in lost, "a link to plan around is not an active relay link", link=(a, b))
        require(lost[min(a, b), max(a, b)] > 0, "a link to plan around disrupts nothing", link=(a, b))
        if (b, a) in cand:
            require((b, a) in got, "only one direction of a link is to be planned around", link=(a, b))
    require(not got or len(got) <= limit + 1, "more links are to be planned around than asked", got=len(got), limit=limit)
    full = served(cand)
    both = lambda es: {x for a, b in es for x in ((a, b), (b, a))}  # noqa: E731
    require(served(cand - both(chosen)) == full, "without the links to plan around some demand cannot be served at all")
    for e, k in lost.items():
        if k == 0 or e in chosen or limit == 0 or (e not in cand and e[::-1] not in cand):
            continue
        have = both(x for x in chosen if lost[x] >= k)
        if len(got) < limit:
            require(served(cand - both(chosen) - both([e])) != full, "a disrupting link that could be done without is not planned around though more were asked for", link=e)
        elif any(lost[x] < k for x in chosen):
            require(served(cand - have - both([e])) != full, "a less disrupting link was chosen instead of a more disrupting one", link=e)
    ctx.nontrivial(bool(chosen) and any(v and e not in chosen for e, v in lost.items()))
