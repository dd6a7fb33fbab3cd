"""P20: reachability, hop counts, source capacity and exclusion."""
import itertools
from collections import defaultdict, deque

import hypothesis.strategies as st

from harness import topo
from harness.core import Check, require, require_close
from harness.gen import fl
from terragraph_planner.common.configuration.enums import LinkType, SiteType, StatusType
from terragraph_planner.common.topology_models.demand_site import DemandSite
from terragraph_planner.common.geos import GeoLocation
from terragraph_planner.common.topology_models.sector import Sector
from terragraph_planner.optimization.constants import DEMAND, SUPERSOURCE
from terragraph_planner.optimization.topology_networkx import build_digraph, find_connected_demands
from terragraph_planner.optimization.topology_operations import compute_max_pop_capacity_of_topology, get_reachable_demand_sites, hops_from_pops, mark_unreachable_components

CHECK = Check("P20")
CHECK.assumptions = ["links and sites obey the status rules their constructors enforce", "equipment the user marked unavailable stays unavailable when its surroundings are excluded"]
STATUS = ["CANDIDATE", "CANDIDATE", "CANDIDATE", "PROPOSED", "PROPOSED", "EXISTING", "UNAVAILABLE", "UNREACHABLE"]
FILTERS = {"active": ["PROPOSED", "EXISTING"], "reachable": ["PROPOSED", "EXISTING", "CANDIDATE"], "all": [s.name for s in StatusType], "proposed": ["PROPOSED"], "odd": ["CANDIDATE", "UNREACHABLE"]}
DNS = [topo.device("D1", "DN", 4), topo.device("D2", "DN", 4)]
CNS = [topo.device("C1", "CN"), topo.device("C2", "CN")]


@st.composite
def graphs(draw, high=14, calm=None):
    """Chains, rings, trees and random meshes with statuses that cut them in places."""
    n = draw(st.integers(2, high))
    mess = draw(st.sampled_from([["CANDIDATE"], ["PROPOSED"], ["PROPOSED", "CANDIDATE"], ["PROPOSED"] * 6 + ["CANDIDATE", "UNAVAILABLE"], ["CANDIDATE"] * 8 + ["UNAVAILABLE", "UNREACHABLE", "PROPOSED"], STATUS])) if calm is None else calm
    shape = draw(st.sampled_from(["chain", "tree", "mesh", "ring", "grid"]))
    sites = [dict(t=draw(st.sampled_from(["DN", "DN", "DN", "DN", "CN", "POP"])), x=draw(fl(-300, 300)), y=draw(fl(-300, 300)), st=draw(st.sampled_from(mess)), dev=draw(st.integers(0, 1))) for _ in range(n)]
    if draw(st.integers(0, 5)):
        sites[draw(st.integers(0, n - 1)) if draw(st.booleans()) else 0]["t"] = "POP"
    if draw(st.integers(0, 3)) == 0 and n > 2:  # a group in one place
        sites[1]["x"], sites[1]["y"] = sites[0]["x"], sites[0]["y"]
    pairs = {"chain": [(i, i + 1) for i in range(n - 1)], "ring": [(i, (i + 1) % n) for i in range(n)], "tree": [(draw(st.integers(0, i - 1)), i) for i in range(1, n)],
             "grid": [(i, i + 1) for i in range(n - 1) if i % 3 != 2] + [(i, i + 3) for i in range(n - 3)], "mesh": [p for p in itertools.combinations(range(n), 2) if draw(st.integers(0, 3)) == 0]}[shape]
    pairs = list(dict.fromkeys(p for p in pairs if p[0] != p[1]))
    lmess = mess if draw(st.booleans()) else draw(st.sampled_from([["PROPOSED"], ["CANDIDATE"], ["PROPOSED", "EXISTING"]]))
    links = [(a, b, draw(st.sampled_from(lmess)), draw(st.integers(0, 5)) > 0) for a, b in pairs]
    demand = [sorted(draw(st.sets(st.integers(0, n - 1), min_size=0, max_size=3))) for _ in range(draw(st.integers(0, 6)))]
    return dict(sites=sites, links=links, demand=demand, one_way=draw(st.lists(st.integers(0, 30), max_size=3)), caps=[draw(st.sampled_from([0.0, 0.0, 0.5, 1.0, 1.8])) for _ in range(8)],
                mcs=[draw(st.integers(0, 14)) for _ in range(8)])


def build(c, sectors=None):
    sites = topo.sites_of(c["sites"], DNS, CNS)
    t = topo.topology_of(sites, c["links"])
    for k in c["one_way"]:  # directions may be missing
        ids = sorted(t.links)
        if ids and k < len(ids):
            t.remove_link(ids[k])
    caps, mcs = itertools.cycle(c["caps"]), itertools.cycle(c["mcs"])
    for l in t.links.values():
        l.capacity, l.mcs_level = next(caps), next(mcs)
    for i, who in enumerate(c["demand"]):
        lat, lon = topo.metres(500.0 + 7 * i, 3.0 * i)
        t.add_demand_site(DemandSite(GeoLocation(latitude=lat, longitude=lon), num_sites=1 + i % 3, connected_sites=[sites[k] for k in who]))
    secs = defaultdict(list)
    if sectors is not None:
        pick = itertools.cycle(sectors)
        for s in sites:
            for k in range(1 if s.site_type == SiteType.CN else 1 + next(pick) % 3):
                x = Sector(s, k, 0, (120.0 * k) % 360, s.status_type)
                t.add_sector(x)
                secs[s.site_id].append(x)
        for l in t.links.values():
            if l.is_wireless and l.tx_sector is None and next(pick) % 5:
                a, b = (secs[e.site_id][next(pick) % len(secs[e.site_id])] for e in (l.tx_site, l.rx_site))
                rev = t.get_link_by_site_ids(l.rx_site.site_id, l.tx_site.site_id)
                l.tx_sector, l.rx_sector = a, b
                if rev is not None:
                    rev.tx_sector, rev.rx_sector = b, a
    return sites, t


def edges(t, names):
    """Usable links: their own status and that of both ends is among the names."""
    return [(l.tx_site.site_id, l.rx_site.site_id) for l in t.links.values() if {l.status_type.name, l.tx_site.status_type.name, l.rx_site.status_type.name} <= set(names)]


def distances(starts, arcs):
    out = defaultdict(list)
    for a, b in arcs:
        out[a].append(b)
    dist = {s: 0 for s in starts}
    q = deque(dist)
    while q:
        a = q.popleft()
        for b in out[a]:
            if b not in dist:
                dist[b] = dist[a] + 1
                q.append(b)
    return dist


def pops(t, names):
    return [s.site_id for s in t.sites.values() if s.site_type == SiteType.POP and s.status_type.name in names]


@CHECK.sub("hops", lambda: st.tuples(graphs(), st.sampled_from(sorted(FILTERS))), 1500, 50000, "some site is two or more hops away and some site with an allowed status is not reached", hang_s=15)
def hops(case, ctx):
    """Hop counts and reachable demand against an own breadth-first search."""
    c, which = case
    names = FILTERS[which]
    sites, t = build(c)
    before = topo.snapshot(t)
    want = distances(pops(t, names), edges(t, names))
    flt = {StatusType[x] for x in names}
    got = hops_from_pops(t, flt)
    require(dict(got) == want, "hop counts are not those of the shortest paths", got={k: v for k, v in got.items() if want.get(k) != v}, want={k: v for k, v in want.items() if got.get(k) != v})
    if which == "all":
        require(dict(hops_from_pops(t, None)) == want, "hop counts without a status restriction leave something out")
    dem = get_reachable_demand_sites(t, flt)
    require(dem == {d.demand_id for d in t.demand_sites.values() if any(s.site_id in want for s in d.connected_sites)}, "the reachable demand is not that connected to a reached site")
    require(topo.snapshot(t) == before, "counting hops changed the network")
    ctx.nontrivial(any(v > 1 for v in want.values()) and any(s.status_type.name in names and s.site_id not in want for s in sites))


@CHECK.sub("graph", lambda: st.tuples(graphs(), st.sampled_from(sorted(FILTERS))), 800, 20000, "some link is left out and another not, with demand and a source present", hang_s=15)
def graph(case, ctx):
    """The search graph has exactly the usable links, sources and demand."""
    c, which = case
    names = FILTERS[which]
    sites, t = build(c)
    before = topo.snapshot(t)
    g = build_digraph(t, {StatusType[x] for x in names})
    require(topo.snapshot(t) == before, "building the graph changed the network")
    src = pops(t, names)
    want = {(a, b): t.get_link_by_site_ids(a, b) for a, b in edges(t, names)}
    want.update({(SUPERSOURCE, p): SUPERSOURCE for p in src})
    for d in t.demand_sites.values():
        for s in d.connected_sites:
            if s.status_type.name in names:
                want[s.site_id, d.demand_id] = DEMAND
    require(set(g.edges) == set(want), "the graph has other links than those usable", extra=sorted(set(g.edges) - set(want))[:3], missing=sorted(set(want) - set(g.edges))[:3])
    for (a, b), l in want.items():
        kind = l if isinstance(l, str) else l.link_type
        require(g.edges[a, b]["link_type"] == kind, "a link of the graph has another kind", link=(a, b), got=g.edges[a, b]["link_type"])
    linked = {n for e in edges(t, names) for n in e} | set(src) | set(t.demand_sites) | {SUPERSOURCE}
    for n, kind in g.nodes(data="site_type"):
        require(n not in linked or kind == (t.sites[n].site_type if n in t.sites else SUPERSOURCE if n == SUPERSOURCE else DEMAND), "a node of the graph has another kind", node=n)
    if src:
        reach = distances(src, edges(t, names))
        require(find_connected_demands(g) == {d.demand_id for d in t.demand_sites.values() if any(s.site_id in reach for s in d.connected_sites)}, "connected demand is not that which a path reaches")
    ctx.nontrivial(bool(src) and bool(c["demand"]) and 0 < len(edges(t, names)) < len(t.links))


@CHECK.sub("exclude", lambda: st.tuples(graphs(), st.sampled_from([None, 1, 2, 3, 4, 15]), st.lists(st.integers(0, 7), min_size=7, max_size=7)), 1500, 40000, "some candidate is excluded and another kept", hang_s=15)
def exclude(case, ctx):
    """Exactly the candidates without a short enough path are excluded, with their links and sectors."""
    c, limit, secs = case
    sites, t = build(c, secs)
    before = topo.snapshot(t)
    reach = distances(pops(t, FILTERS["reachable"]), edges(t, FILTERS["reachable"]))
    mark_unreachable_components(t, limit)
    after = topo.snapshot(t)
    gone = {s for s, v in before["sites"].items() if v[5] == "CANDIDATE" and (s not in reach or (limit is not None and reach[s] > limit))}
    for s, v in before["sites"].items():
        want = v[:5] + (("UNREACHABLE",) if s in gone else v[5:6]) + v[6:]
        require(after["sites"][s] == want, "a site that should stay was changed or excluded" if s not in gone else "a site beyond reach was not excluded", site=s, hops=reach.get(s), limit=limit, was=v[5], now=after["sites"][s][5])
    for k, v in before["links"].items():
        want = "UNREACHABLE" if (v[0] in gone or v[1] in gone) and v[4] != "UNAVAILABLE" else v[4]
        require(after["links"][k] == v[:4] + (want,) + v[5:], "a link's status after excluding sites is wrong", link=k, was=v[4], now=after["links"][k][4], expected=want)
    for k, v in before["sectors"].items():
        want = "UNREACHABLE" if v[0] in gone else v[4]
        require(after["sectors"][k] == v[:4] + (want,) + v[5:], "a sector's status after excluding sites is wrong", sector=k, was=v[4], now=after["sectors"][k][4], expected=want)
    mark_unreachable_components(t, limit)
    require(topo.snapshot(t) == after, "excluding twice changes more")
    ctx.nontrivial(bool(gone) and any(v[5] == "CANDIDATE" for s, v in before["sites"].items() if s not in gone))
    if limit is not None and any(limit < reach.get(s, 0) for s in gone):
        ctx.label("beyond the limit")


@CHECK.sub("sources", lambda: st.tuples(graphs(), st.sampled_from(sorted(FILTERS)), st.one_of(fl(0, 4), st.sampled_from([0.5, 1.8, 10.0])), st.lists(st.integers(0, 7), min_size=7, max_size=7)), 1200, 30000, "several links of a source share a sector, or its limit binds", hang_s=15)
def sources(case, ctx):
    """Source capacity is the best link of each sector plus the wires, up to the limit."""
    c, which, cap, secs = case
    names = FILTERS[which]
    sites, t = build(c, secs)
    total, shared, bound = 0.0, False, False
    for s in sites:
        if s.site_type != SiteType.POP:
            continue
        per, wires = defaultdict(list), 0.0
        for l in t.links.values():
            if l.tx_site is not s or not {l.status_type.name, s.status_type.name, l.rx_site.status_type.name} <= set(names):
                continue
            if not l.is_wireless:
                wires += l.capacity
            elif l.tx_sector is not None and l.rx_sector is not None:
                per[l.tx_sector.sector_id].append(l.capacity)
        out = wires + sum(max(v) for v in per.values())
        shared |= any(len([x for x in v if x > 0]) > 1 for v in per.values())
        bound |= out > cap
        total += min(out, cap)
    require_close(compute_max_pop_capacity_of_topology(t, cap, {StatusType[x] for x in names}), total, "source-capacity", rel=1e-9, abs_=1e-9)
    ctx.nontrivial(shared or bound)
