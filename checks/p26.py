"""P26: traffic of networks."""
import math
import random
from collections import defaultdict

import hypothesis.strategies as st
import networkx as nx
import numpy as np
from scipy.optimize import linprog

from checks.p24 import ACTIVE, build, is_active, plans
from checks.p20 import distances
from harness import topo
from harness.gen import fl
from harness.core import Check, Discard, require, require_close
from terragraph_planner.common.configuration.enums import SiteType, StatusType, TopologyRouting
from terragraph_planner.common.exceptions import OptimizerException
from terragraph_planner.optimization.constants import SUPERSOURCE
from terragraph_planner.optimization.ilp_models.flow_optimization import MaxFlowNetwork
from terragraph_planner.optimization.topology_networkx import build_digraph, get_topology_routing_results
from terragraph_planner.optimization.topology_report import get_routing_topology

CHECK = Check("P26")
CHECK.assumptions = [
    "the connection of a site and its demand carries as much as the fastest link of the network",
    "wired links do not lead to clients, which the planner refuses",
    "amounts are compared to 1e-5, the planner's own resolution",
]
TOL = 2e-5


@st.composite
def traffic(draw, high=8):
    c = draw(plans(high))
    if draw(st.integers(0, 3)):
        c["sites"][0]["t"] = "POP"
        sure = draw(st.sampled_from([["PROPOSED"], ["PROPOSED", "EXISTING"]]))
        for i, s in enumerate(c["sites"]):
            if (s["x"], s["y"]) not in [(o["x"], o["y"]) for o in c["sites"][:i]]:
                s["st"] = draw(st.sampled_from(sure))
        c["links"] = [(a, b, draw(st.sampled_from(["PROPOSED", "PROPOSED", "PROPOSED", "EXISTING", "CANDIDATE"])), w) for a, b, _, w in c["links"]]
    kinds = [s["t"] for s in c["sites"]]
    c["links"] = [(a, b, s, w or "CN" in (kinds[a], kinds[b])) for a, b, s, w in c["links"]]
    for _ in range(draw(st.integers(0, 6))):  # more of the links that matter
        a, b = draw(st.integers(0, len(kinds) - 1)), draw(st.integers(0, len(kinds) - 1))
        if a < b and not any(x[:2] == (a, b) for x in c["links"]):
            c["links"].append((a, b, "PROPOSED", True))
    if not c["demand"] or draw(st.integers(0, 2)):
        c["demand"].append(([draw(st.integers(0, len(kinds) - 1))], draw(st.integers(1, 2)), 0.5))
    levels = draw(st.sampled_from([[1.8], [0.3, 1.0, 1.8], [0.0, 0.3, 1.0, 1.8], [0.0, 0.001, 4.6]]))
    c["cap"] = [draw(st.sampled_from(levels)) for _ in range(24)]
    c["mcs"] = [draw(st.integers(0, 13)) for _ in range(24)]
    c["idle"] = [draw(st.integers(0, 9)) for _ in range(12)] if draw(st.integers(0, 2)) == 0 else []
    c["way"] = draw(st.sampled_from(["SHORTEST_PATH", "MCS_COST_PATH", "DPA_PATH"]))
    return c


def load(c):
    """The network with the link capacities of the case."""
    sites, t, params = build(c)
    for i, l in enumerate(t.links.values()):
        l.capacity = c["cap"][i % 24]
        if l.is_wireless:
            l.link_budget.mcs_level = c["mcs"][i % 24]
    return sites, t, params


def copies(t):
    for d, x in t.demand_sites.items():
        for k in range(x.num_sites):
            yield (d if k == 0 else f"{d}_{k}"), d, x


def refused(t, params):
    """No source can send or no customer receive anything, whatever is active."""
    top = max((l.capacity for l in t.links.values()), default=0.0) or params.pop_capacity
    served = {s.site_id for d in t.demand_sites.values() for s in d.connected_sites}
    sends = any(l.tx_site.site_type == SiteType.POP and l.capacity > 0 for l in t.links.values()) or any(t.sites[s].site_type == SiteType.POP and top > 0 for s in served)
    takes = any(t.sites[s].site_type == SiteType.POP and params.pop_capacity > 0 for s in served) or any(l.rx_site.site_id in served and l.capacity > 0 for l in t.links.values())
    return not sends or not takes


def usable(l):
    return is_active(l) and is_active(l.tx_site) and is_active(l.rx_site) and (not l.is_wireless or l.tx_sector is not None and is_active(l.tx_sector) and is_active(l.rx_sector))


def connected(t):
    """Customers that are reached by links that carry something."""
    arcs = {(l.tx_site.site_id, l.rx_site.site_id) for l in t.links.values() if is_active(l) and l.capacity > 0 and not l.is_redundant}
    d = distances([s.site_id for s in t.sites.values() if s.site_type == SiteType.POP and is_active(s)], {(a, b) for a, b in arcs if is_active(t.sites[a]) and is_active(t.sites[b])})
    return {k for k, i, x in copies(t) if any(s.site_id in d for s in x.connected_sites)}


def best(t, params, who):
    """The largest amount that everyone in the set can get at a time, by a linear program of its own."""
    top = max((l.capacity for l in t.links.values()), default=0.0) or params.pop_capacity
    pops = sum(1 for s in t.sites.values() if s.site_type == SiteType.POP)
    arcs, cap, use = [], [], defaultdict(list)
    for l in t.links.values():
        if usable(l) and l.capacity > 0 and not l.is_redundant:
            if l.is_wireless:
                use["tx", l.tx_sector.sector_id].append((len(arcs), 1.0 / l.capacity))
                use["rx", l.rx_sector.sector_id].append((len(arcs), 1.0 / l.capacity))
            arcs.append((l.tx_site.site_id, l.rx_site.site_id))
            cap.append(l.capacity)
    for s in t.sites.values():
        if s.site_type == SiteType.POP and is_active(s):
            arcs.append((SUPERSOURCE, s.site_id))
            cap.append(params.pop_capacity)
    for k, i, x in copies(t):
        for s in x.connected_sites:
            if is_active(s):
                arcs.append((s.site_id, k))
                cap.append(top)
    n = len(arcs)
    for i, (a, b) in enumerate(arcs):
        if a in t.sites and t.sites[a].site_type == SiteType.POP:
            use["out", a].append((i, 1.0 / params.pop_capacity))
    rows, rhs = [], []
    for v in use.values():
        r = np.zeros(n + 1)
        for i, x in v:
            r[i] += x
        rows.append(r)
        rhs.append(1.0)
    eq = []
    for v in list(t.sites) + [k for k, *_ in copies(t)]:
        r = np.zeros(n + 1)
        for i, (a, b) in enumerate(arcs):
            r[i] += (b == v) - (a == v)
        if v not in t.sites and v in who:
            r[n] = -1.0
        eq.append(r)
    # a site never passes on more than all sources together provide
    limit = pops * params.pop_capacity
    res = linprog([0.0] * n + [-1.0], A_ub=np.array(rows) if rows else None, b_ub=rhs or None, A_eq=np.array(eq), b_eq=[0.0] * len(eq), bounds=[(0, min(x, limit)) for x in cap] + [(0, None)], method="highs")
    if not res.success:
        raise Discard()
    return -res.fun


def check_flow(t, params, got, who):
    """The assignment obeys the network."""
    f = got.flow_decisions
    b = got.buffer_decision
    into, out = defaultdict(float), defaultdict(float)
    ids = {k for k, *_ in copies(t)}
    links = {(l.tx_site.site_id, l.rx_site.site_id): l for l in t.links.values()}
    for (a, z), x in f.items():
        require(x >= -TOL, "traffic is negative", link=(a, z), flow=x)
        out[a] += x
        into[z] += x
        if x <= TOL:
            continue
        if (a, z) in links:
            l = links[a, z]
            require(usable(l) and not l.is_redundant, "traffic on a link that is not in use", link=(a, z), flow=x)
            require(x <= l.capacity + TOL, "traffic exceeds the capacity of a link", link=(a, z), flow=x, capacity=l.capacity)
        else:
            require(a == SUPERSOURCE and z in t.sites and t.sites[z].site_type == SiteType.POP and is_active(t.sites[z]) or z in ids and a in t.sites and is_active(t.sites[a]), "traffic between sites that are not linked", link=(a, z), flow=x)
    for s in t.sites.values():
        require_close(into[s.site_id], out[s.site_id], "traffic entering and leaving a site differ", s.site_id, abs_=TOL * 5, rel=0)
        if s.site_type == SiteType.POP:
            require(out[s.site_id] <= params.pop_capacity + TOL, "a source sends more than it can", site=s.site_id, sends=out[s.site_id])
            require(f.get((SUPERSOURCE, s.site_id), 0.0) <= params.pop_capacity + TOL, "a source sends more than it can", site=s.site_id)
    for k in ids:
        require_close(into[k], b if k in who else 0.0, "the traffic delivered to a customer is not the common amount", k, abs_=TOL, rel=0)
    air = defaultdict(float)
    for (a, z), l in links.items():
        if l.is_wireless and l.tx_sector is not None and l.capacity > 0:
            share = f.get((a, z), 0.0) / l.capacity
            air["tx", l.tx_sector.sector_id] += share
            air["rx", l.rx_sector.sector_id] += share
    for k, v in air.items():
        require(v <= 1 + max(TOL, TOL / min([l.capacity for l in links.values() if l.capacity > 0])), "the air time of a sector is used more than fully", sector=k, share=v)
    arcs = defaultdict(set)
    for (a, z), x in f.items():
        if x > TOL:
            arcs[a].add(z)
    state = {}

    def loop(v):
        state[v] = 1
        for w in arcs[v]:
            if state.get(w) == 1 or w not in state and loop(w):
                return True
        state[v] = 2
        return False

    require(not any(v not in state and loop(v) for v in list(arcs)), "traffic goes in a circle")


def solve(t, params):
    try:
        return MaxFlowNetwork(t, params).solve(), False
    except OptimizerException as e:
        require(refused(t, params), "a network with sources and customers was refused", msg=str(e))
        return None, True


@CHECK.sub("flow", traffic, 2500, 30000, "a limit below the sum of all capacities binds and at least two sites pass on traffic", hang_s=30)
def flow(c, ctx):
    """Common amount for all connected demand."""
    sites, t, params = load(c)
    for i in c["idle"]:
        ls = list(t.links.values())
        if ls:
            l = ls[i % len(ls)]
            for m in (l, t.get_link_by_site_ids(l.rx_site.site_id, l.tx_site.site_id)):
                if m is not None:
                    m.is_redundant = True
    before = topo.snapshot(t)
    got, no = solve(t, params)
    require(topo.snapshot(t) == before, "computing the traffic changed the network")
    if no:
        return
    require(not refused(t, params), "a network without source or customer was accepted")
    who = connected(t)
    if got is None:
        require(not who, "no traffic was found for customers that are connected", connected=sorted(who))
        return
    require(set(got.connected_demand_sites) == who, "the customers said to be connected are not those that are reached", got=sorted(got.connected_demand_sites), want=sorted(who))
    if not who:
        return
    check_flow(t, params, got, who)
    want = best(t, params, who)
    require_close(got.buffer_decision, want, "the common amount is not the largest possible", rel=1e-6, abs_=TOL)
    ctx.nontrivial(want > 0 and len({a for (a, z), x in got.flow_decisions.items() if x > TOL and a in t.sites}) > 2)
    if any(s["st"] == "EXISTING" for s in c["sites"]):
        ctx.label("existing equipment")
    if c["idle"]:
        ctx.label("links without traffic by routing")


COST = {**{i: 15 for i in (2, 3)}, **{i: 3 for i in range(4, 9)}, **{i: 1 for i in range(9, 20)}}


@CHECK.sub("routing", traffic, 2500, 40000, "some usable link is not routed over", hang_s=30)
def routing(c, ctx):
    """Traffic over the routed links only."""
    sites, t, params = load(c)
    g = build_digraph(t, {StatusType[x] for x in ACTIVE})
    way = TopologyRouting[c["way"]]
    used = get_topology_routing_results(t, g, way)
    arcs = {(l.tx_site.site_id, l.rx_site.site_id): l for l in t.links.values() if is_active(l)}
    names = {l.link_id: k for k, l in arcs.items()}
    require(set(used) <= set(names), "routes use a link that is not active", links=sorted(set(used) - set(names)))
    src = [s.site_id for s in t.sites.values() if s.site_type == SiteType.POP and is_active(s)]

    def costs(starts, pairs, cost):
        d = {s: 0.0 for s in starts}
        for _ in range(len(t.sites)):
            for a, b in pairs:
                if a in d and d[a] + cost(a, b) < d.get(b, math.inf):
                    d[b] = d[a] + cost(a, b)
        return d

    hop = lambda a, b: 1.0
    price = lambda a, b: COST.get(arcs[a, b].mcs_level, math.inf)
    reach = distances(src, set(arcs))
    routed = {names[u] for u in used}
    hops_all, hops_used = costs(src, set(arcs), hop), costs(src, routed, hop)
    price_all, price_used = costs(src, set(arcs), price), costs(src, routed, price)
    reach_used = distances(src, routed)
    for d in t.demand_sites.values():
        ends = [s.site_id for s in d.connected_sites if is_active(s)]
        if not any(e in reach for e in ends):
            continue
        require(any(e in reach_used for e in ends), "a customer is not reached by the routes", demand=d.demand_id, way=c["way"])
        if c["way"] == "SHORTEST_PATH":
            require(min(hops_used.get(e, math.inf) for e in ends) == min(hops_all.get(e, math.inf) for e in ends), "the route to a customer is not the shortest", demand=d.demand_id)
        elif c["way"] == "MCS_COST_PATH":
            require(min(price_used.get(e, math.inf) for e in ends) == min(price_all.get(e, math.inf) for e in ends), "the route to a customer is not the one of the lowest cost", demand=d.demand_id)
        else:  # from a nearest source, no dearer than the dearest of the short ways
            near = min(hops_all[e] for e in ends if e in hops_all)
            worst = {s: 0.0 for s in src}
            for k in range(1, int(near) + 1):
                for a, b in arcs:
                    if hops_all.get(a) == k - 1 and hops_all.get(b) == k:
                        worst[b] = max(worst.get(b, 0.0), worst[a] + price(a, b))
            far = max(worst[e] for e in ends if hops_all.get(e) == near)
            ok = False
            for s in src:
                d1 = costs([s], set(arcs), hop)
                if min(d1.get(e, math.inf) for e in ends) == near:
                    ok = ok or min(costs([s], routed, price).get(e, math.inf) for e in ends) <= far
            if far < math.inf:
                require(ok, "the route to a customer in the area of its nearest source is dearer than the shortest ways", demand=d.demand_id)
    if c["way"] == "SHORTEST_PATH":
        for a, b in routed:
            require(hops_all[b] == hops_all[a] + 1, "a routed link leads away from all shortest ways", link=(a, b))
    get_routing_topology(t, used)
    for (a, b), l in {(l.tx_site.site_id, l.rx_site.site_id): l for l in t.links.values()}.items():
        require(l.is_redundant == ((a, b) not in routed and (b, a) not in routed), "the links marked as not routed over are not the others", link=(a, b), redundant=l.is_redundant)
    got, no = solve(t, params)
    if no or got is None:
        return
    who = connected(t)
    require(set(got.connected_demand_sites) == who, "the customers said to be connected are not those that are reached", got=sorted(got.connected_demand_sites), want=sorted(who))
    if who:
        check_flow(t, params, got, who)
        require_close(got.buffer_decision, best(t, params, who), "the common amount is not the largest possible", rel=1e-6, abs_=TOL)
    ctx.nontrivial(len(routed) > 0 and any(l.is_redundant for l in arcs.values()))
    ctx.label(c["way"])


@st.composite
def circulations(draw):
    """Flows made of paths and loops, some sharing links."""
    n = draw(st.integers(2, 7))
    flows = []
    for _ in range(draw(st.integers(1, 7))):
        walk = draw(st.permutations(range(n)))[: draw(st.integers(2, n))]
        flows.append((draw(st.booleans()), walk, draw(st.one_of(fl(0.01, 3), st.sampled_from([1.0, 1.0, 2.0, 0.5])))))
    return dict(n=n, flows=flows, extra=draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)), max_size=4)), shuffle=draw(st.integers(0, 999)))


@CHECK.sub("loops", circulations, 3000, 60000, "two loops share a link", hang_s=20)
def loops(c, ctx):
    """Flow that runs in circles is removed, and nothing else."""
    flow, shared = {}, set()
    for loop, walk, amount in c["flows"]:
        steps = list(zip(walk, walk[1:])) + ([(walk[-1], walk[0])] if loop else [])
        for i, j in steps:
            if loop:
                if (i, j) in shared:
                    ctx.nontrivial()
                shared.add((i, j))
            flow[i, j] = flow.get((i, j), 0.0) + amount
    for i, j in c["extra"]:
        if i != j:
            flow.setdefault((i, j), 0.0)
    keys = sorted(flow)
    random.Random(c["shuffle"]).shuffle(keys)
    given = {(f"n{i}", f"n{j}"): flow[i, j] for i, j in keys}
    model = MaxFlowNetwork.__new__(MaxFlowNetwork)
    model.links = list(given)
    model.locations = [f"n{i}" for i in range(c["n"])]
    got = model.prune_loops(dict(given))
    require(set(got) == set(given), "links were added to or taken from the flow")
    for k, v in got.items():
        require(-1e-6 <= v <= given[k] + 1e-6, "flow on a link became negative or grew", link=k, was=given[k], now=v)
    for v in model.locations:
        was = sum(x for (i, j), x in given.items() if j == v) - sum(x for (i, j), x in given.items() if i == v)
        now = sum(x for (i, j), x in got.items() if j == v) - sum(x for (i, j), x in got.items() if i == v)
        require(abs(was - now) <= 1e-4, "what a place receives has changed", place=v, was=was, now=now)
    left = nx.DiGraph(k for k, x in got.items() if x > 1e-3)
    require(nx.is_directed_acyclic_graph(left), "flow still runs in circles", flow={str(k): x for k, x in got.items() if x > 1e-3})
