"""P29: redundant plans."""
import math
from collections import defaultdict, deque

import hypothesis.strategies as st

from checks.p20 import distances
from checks.p24 import is_active
from checks.p26 import refused
from checks.p27 import Program, bound_polarity, candidates, check_reached, check_rules, check_statuses, far, load, off, open_link, price, served, spot
from harness import topo
from harness.core import Check, Discard, require, require_close
from terragraph_planner.common.configuration.enums import RedundancyLevel, SiteType
from terragraph_planner.common.exceptions import OptimizerException
from terragraph_planner.optimization.ilp_models.redundancy_optimization import RedundantNetwork, compute_candidate_edges_for_redundancy
from terragraph_planner.optimization.structs import RedundancyParams
from terragraph_planner.optimization.topology_optimization import _run_min_cost_step, _run_redundancy_step, update_topology_with_solution

CHECK = Check("P29")
CHECK.assumptions = [
    "the price of a site is that of the site and all radio nodes it may carry, existing sites are free, as the planner counts in this step",
    "extra ways are limited by the number of ways, not by what links carry, as documented",
    "wired links do not lead to clients, which the planner refuses",
    "at most one site per place is active before planning",
    "solver tolerance for early stopping is switched off",
    "polarities at active links over which nothing can come from a source are set in the later step for interference, and not looked at before",
]
LEVELS = {"LOW": ((2, 2, 2), (2, 2, 2)), "MEDIUM": ((1, 1, 2), (2, 1, 2)), "HIGH": ((2, 1, 4), (3, 1, 3))}


@st.composite
def meshes(draw):
    c = draw(candidates(7, common=False))
    for s in c["sites"]:
        if s["t"] == "CN" and draw(st.integers(0, 2)) and sum((o["x"], o["y"], o["alt"]) == (s["x"], s["y"], s["alt"]) for o in c["sites"]) == 1:
            s["t"] = "DN"
    c["sites"][0]["t"] = "POP"
    n = len(c["sites"])
    if draw(st.booleans()):  # in a row
        for i, s in enumerate(c["sites"]):
            y = draw(st.sampled_from([0.0, 0.0, 20.0]))
            if not any(o is not s and (o["x"], o["alt"]) == (s["x"], s["alt"]) for o in c["sites"]):
                s["y"] = y
    kinds = [s["t"] for s in c["sites"]]
    style = draw(st.sampled_from(["as is", "base", "base"]))
    if style == "base":  # a chain of proposed sites and some more
        row = [i for i in range(n) if kinds[i] != "CN"][: draw(st.integers(2, 4))]
        places = set()
        row = [i for i in row if (k := (c["sites"][i]["x"], c["sites"][i]["y"], c["sites"][i]["alt"])) not in places and not places.add(k)]
        for i, s in enumerate(c["sites"]):
            if i in row:
                s["st"] = draw(st.sampled_from(["PROPOSED", "PROPOSED", "EXISTING"]))
            elif s["st"] in ("PROPOSED", "EXISTING") and draw(st.booleans()):
                s["st"] = "CANDIDATE"
        for s in c["sites"]:
            if s["st"] in ("PROPOSED", "EXISTING") and sum(1 for o in c["sites"] if o["st"] in ("PROPOSED", "EXISTING") and (o["x"], o["y"], o["alt"]) == (s["x"], s["y"], s["alt"])) > 1:
                s["st"] = "CANDIDATE"
        chain = set(zip(row, row[1:]))
        c["links"] = [(a, b, "PROPOSED" if (a, b) in chain else draw(st.sampled_from(["CANDIDATE", "CANDIDATE", "PROPOSED"])), w) for a, b, _, w in c["links"]]
        have = {(a, b) for a, b, *_ in c["links"]}
        c["links"] += [(a, b, "PROPOSED", True) for a, b in chain if (a, b) not in have]
    wireless = {i for a, b, _, w in c["links"] if w for i in (a, b)}
    c["nodes"] = [(1, 1) if i in wireless and k[0] == 0 else k for i, k in enumerate(c["nodes"])]
    levels = draw(st.sampled_from([[1.8], [0.3, 1.0, 1.8], [0.0, 0.3, 1.0, 1.8]]))
    c["cap"] = [draw(st.sampled_from(levels)) for _ in range(24)]
    c["level"] = draw(st.sampled_from(["LOW", "MEDIUM", "HIGH"]))
    c["single"] = draw(st.booleans())
    return c


def ways(arcs, caps, source, sink):
    """Largest whole number of ways from the source to the sink; arcs: {(a, b): n}, caps: limits of nodes."""
    res = defaultdict(int)
    for (a, b), n in arcs.items():
        res[(a, "out"), (b, "in")] += n
    for v in {v for e in arcs for v in e}:
        res[(v, "in"), (v, "out")] += caps.get(v, 10**6)
    nxt = defaultdict(set)
    for a, b in list(res):
        nxt[a].add(b)
        nxt[b].add(a)
    first, last = (source, "out"), (sink, "out")
    total = 0
    while True:
        back = {first: None}
        todo = deque([first])
        while todo and last not in back:
            u = todo.popleft()
            for v in nxt[u]:
                if v not in back and res[u, v] > 0:
                    back[v] = u
                    todo.append(v)
        if last not in back:
            return total
        v = last
        while back[v] is not None:
            res[back[v], v] -= 1
            res[v, back[v]] += 1
            v = back[v]
        total += 1


def relays(t):
    return [s for s, v in t.sites.items() if v.site_type == SiteType.DN and is_active(v)]


def backbone(t, only=open_link):
    """Usable links between sources and relays."""
    return {(l.tx_site.site_id, l.rx_site.site_id): l for l in t.links.values() if only(l) and far(l.tx_site) and far(l.rx_site) and not off(l.tx_site) and not off(l.rx_site)}


def model(t, params, size, only):
    """The program of extra ways; returns it with the choice of sites and what each relay lacks."""
    pop, dn, sink = size
    p = Program()
    who = relays(t)
    x = {}
    for s, v in t.sites.items():
        if far(v):
            x[s] = p.var(1 if is_active(v) else 0, 1 if is_active(v) or not off(v) and v.site_type == SiteType.DN else 0, True)
    place = defaultdict(list)
    for s in x:
        place[spot(t.sites[s])].append((x[s], 1))
    for terms in place.values():
        p.row(terms, high=1)
    odd = {s: p.var(0, 1, True) for s in x}
    lack = {d: p.var(0, sink) for d in who}
    links = backbone(t, lambda l: open_link(l) and (only is None or (l.tx_site.site_id, l.rx_site.site_id) in only))
    if not params.ignore_polarities:
        for (a, b), l in links.items():
            if is_active(l) and l.is_wireless:
                p.row([(odd[a], 1), (odd[b], 1)], 1, 1)
    for d in who:
        into, out = defaultdict(list), defaultdict(list)
        for (a, b), l in links.items():
            f = p.var(0, 1)
            out[a].append((f, -1))
            into[b].append((f, 1))
            bound_polarity(p, params, odd, l, [(f, 1)])
        start = []
        for s in x:
            v = t.sites[s]
            if v.site_type == SiteType.POP and not off(v):
                g = p.var(0, pop)
                into[s].append((g, 1))
                start.append((g, 1))
            cap = pop if v.site_type == SiteType.POP else sink if s == d else dn
            if into[s]:
                p.row(into[s] + [(x[s], -cap)], high=0)
            if s == d:
                p.row(into[s] + out[s] + [(lack[d], 1)], low=sink) if into[s] or out[s] else None
            else:
                p.row(into[s] + out[s], 0, 0)
        p.row(start + [(lack[d], 1)], high=sink) if start else None
    return p, x, lack


def ways_to(t, size, links):
    """Ways from the sources to each relay of the network, under the limits per site."""
    pop, dn, sink = size
    out = {}
    for d in relays(t):
        caps = {s: pop if v.site_type == SiteType.POP else sink if s == d else dn for s, v in t.sites.items()}
        arcs = {e: 1 for e in links}
        for s, v in t.sites.items():
            if v.site_type == SiteType.POP and is_active(v):
                arcs["source", s] = pop
        arcs.setdefault(("source", "nowhere"), 0)
        caps["source"] = 10**6
        out[d] = ways(arcs, caps, "source", d) if any(b == d for _, b in arcs) else 0
    return out


def in_use(t):
    return backbone(t, lambda l: open_link(l) and is_active(l) and is_active(l.tx_site) and is_active(l.rx_site))


def kept_links(t):
    """Active links that can carry something in one direction at least."""
    able = {frozenset((l.tx_site.site_id, l.rx_site.site_id)) for l in t.links.values() if open_link(l)}
    return {k for k, l in t.links.items() if is_active(l) and frozenset((l.tx_site.site_id, l.rx_site.site_id)) in able}


def raised_of(t, active):
    """Clients in the place of which a relay is active now."""
    return {s for s in active if t.sites[s].site_type == SiteType.CN and any(spot(v) == spot(t.sites[s]) and far(v) and is_active(v) for v in t.sites.values())}


def check_grown(c, t, params, before, active, links, share, narrow=False):
    """The starting plan is part of the plan."""
    check_statuses(before, t)
    check_rules(t, params, c["polar"] and not narrow)
    if c["polar"] and narrow:
        sure = distances([s for s, v in t.sites.items() if v.site_type == SiteType.POP and is_active(v)], set(in_use(t)))
        for (a, b), l in in_use(t).items():
            r = t.get_link_by_site_ids(b, a)
            if l.is_wireless and r is not None and r.capacity > 0 and a in sure and b in sure:
                require({l.tx_site.polarity.name, l.rx_site.polarity.name} == {"ODD", "EVEN"}, "an active link joins sites that do not have opposite polarities", link=l.link_id)
    raised = raised_of(t, active)
    reach = distances([s for s, v in t.sites.items() if v.site_type == SiteType.POP and is_active(v)], set(in_use(t)) | {(l.tx_site.site_id, l.rx_site.site_id) for l in t.links.values() if is_active(l)})
    for s in active - raised:
        require(is_active(t.sites[s]) or s not in reach, "a site of the starting plan was removed", site=s)
    for k in links:
        l = t.links[k]
        ends = {l.tx_site.site_id, l.rx_site.site_id}
        require(is_active(l) or ends & raised or not ends <= set(reach), "a link of the starting plan was removed", link=k)
    for s, v in t.sites.items():
        require(s in active or not is_active(v) or v.site_type == SiteType.DN, "something other than a relay was added", site=s, kind=v.site_type.name)
    if not raised and share is not None:
        now = served(t, params)
        require(now is not None and now >= share - 1e-5, "the plan serves less than the starting plan", was=share, now=now)


@CHECK.sub("extra ways", meshes, 4000, 40000, "the base has relays, and at least one way was added", hang_s=60)
def extra(c, ctx):
    """The model of extra ways, on all links."""
    sites, t, params = load(c)
    size = LEVELS[c["level"]][c["single"]]
    before = topo.snapshot(t)
    prices = price(c, t)
    active = {s for s, v in t.sites.items() if is_active(v)}
    links = kept_links(t)
    base = ways_to(t, size, in_use(t))
    share = served(t, params) if any(d.demand > 0 for d in t.demand_sites.values()) else None
    if not relays(t) or refused(t, params):
        raise Discard()
    p, x, lack = model(t, params, size, None)
    low = p.least([(i, 1) for i in lack.values()])
    got = RedundantNetwork(t, params, RedundancyParams(*size)).solve()
    require(topo.snapshot(t) == before, "the search changed the network")
    require((got is None) == (low is None), "a plan is found exactly if there is one", found=got is not None, possible=low is not None)
    if got is None:
        ctx.label("impossible")
        return
    short = {d: min(max(got.shortage_decisions[d], 0.0), size[2]) for d in relays(t)}
    alone = {d for d in short if not any(d in e for e in backbone(t))}
    total = sum(v for d, v in short.items() if d not in alone)
    require_close(total, low[0] - sum(low[1][lack[d]] for d in alone), "the ways that are missing are not as few as possible", abs_=1e-4)
    p, x, lack = model(t, params, size, None)
    for d in short:
        if d not in alone:
            p.row([(lack[d], 1)], high=short[d] + 1e-7)
    best = p.least([(x[s], prices[s]) for s in x])
    if best is not None:
        chosen = sum(prices[s] for s in x if got.site_decisions.get(s, 0) == 1)
        require_close(chosen, best[0], "the plan is not the cheapest with these ways", abs_=1e-2, rel=1e-6)
    update_topology_with_solution(got, t)
    check_grown(c, t, params, before, active, links, share)
    now = ways_to(t, size, in_use(t))
    for d in short:
        if d in now and d not in alone:
            require(now[d] >= size[2] - short[d] - 1e-4, "a relay has fewer ways than planned", relay=d, ways=now[d], wanted=size[2], lacks=short[d])
    ctx.nontrivial(any(now.get(d, 0) > base[d] for d in base))
    ctx.label(c["level"])
    if any(v > 1e-6 for v in short.values()):
        ctx.label("some ways are impossible")


@CHECK.sub("useful links", meshes, 4000, 60000, "at least two active relays and some links are left out", hang_s=30)
def useful(c, ctx):
    """The links selected for the search keep the ways between the parts of the plan."""
    sites, t, params = load(c)
    before = topo.snapshot(t)
    got = compute_candidate_edges_for_redundancy(t, 4.0, 2.0)
    require(topo.snapshot(t) == before, "the selection changed the network")
    every = backbone(t, lambda l: not off(l) and l.capacity > 0 and all(s.site_type == SiteType.DN or is_active(s) for s in (l.tx_site, l.rx_site)))
    require(got <= set(every), "a link that cannot be used was selected", extra=[e for e in got if e not in every][:2])
    who = relays(t)
    pops = [s for s, v in t.sites.items() if v.site_type == SiteType.POP and is_active(v)]

    def count(a, b, links, n):
        caps = {s: 4 if v.site_type == SiteType.POP else 1 for s, v in t.sites.items()}
        caps[a] = n
        caps[b] = 10**6
        arcs = {e: 1 for e in links if e[1] != a}
        arcs["source", a] = n
        arcs.setdefault((a, "nowhere"), 0)
        arcs.setdefault(("nowhere", b), 0)
        return ways(arcs, caps, "source", b)

    for a in pops:
        for b in who:
            want, have = count(a, b, every, 4), count(a, b, got, 4)
            require(have == want, "the selected links have fewer ways from a source to a relay than the network", source=a, relay=b, have=have, want=want)
    near = set()
    for a in who:
        d = {b: math.dist((t.sites[a].latitude, t.sites[a].longitude), (t.sites[b].latitude, t.sites[b].longitude)) for b in who if b != a}
        places = {(t.sites[b].latitude, t.sites[b].longitude) for b in who}
        least = [b for b in d if d[b] <= min(d.values()) * (1 + 1e-9)]
        if len(least) == 1 and len(places) == len(who):
            near.add((a, least[0]))
    for a, b in near:
        want, have = count(a, b, every, 2), count(a, b, got, 2)
        back = count(b, a, got, 2)
        require(max(have, back) >= want or have == want, "the selected links have fewer ways between neighbouring relays than the network", relays=(a, b), have=have, want=want)
    ctx.nontrivial(len(who) > 1 and len(got) < len(every))
    if len(who) > 2:
        ctx.label("three relays")


@CHECK.sub("step", meshes, 4000, 40000, "the plan has more ways than the starting plan", hang_s=60)
def step(c, ctx):
    """The step that adds redundancy to the cheapest plan."""
    sites, t, params = load(c)
    params.redundancy_level = RedundancyLevel[c["level"]]
    if refused(t, params):
        raise Discard()
    try:
        _run_min_cost_step(t, params)
    except OptimizerException:
        raise Discard()
    before = topo.snapshot(t)
    active = {s for s, v in t.sites.items() if is_active(v)}
    links = kept_links(t)
    pops = sum(1 for s in active if t.sites[s].site_type == SiteType.POP)
    size = LEVELS[c["level"]][pops <= 1]
    base = ways_to(t, size, in_use(t))
    share = served(t, params) if any(d.demand > 0 for d in t.demand_sites.values()) else None
    only = compute_candidate_edges_for_redundancy(t, 4.0, 2.0)
    nodes = {v for e in only for v in e}
    only |= {e for e, l in backbone(t).items() if is_active(l) and set(e) <= nodes}
    who = relays(t)
    p, x, lack = model(t, params, size, only)
    tied = {d for d in who if any(d in e for e in only)}
    low = p.least([(lack[d], 1) for d in tied])
    got = _run_redundancy_step(t, params)
    if got is None:
        require(topo.snapshot(t) == before, "the network was changed though there is no other plan")
        require(low is None or not who, "no plan was found though there is one")
        return
    require(low is not None, "a plan was found though there is none")
    check_grown(c, t, params, before, active, links, share, narrow=True)
    now = ways_to(t, size, in_use(t))
    missing = sum(size[2] - now.get(d, 0) for d in tied)
    require(missing <= low[0] + 1e-4, "the plan has fewer ways than possible", missing=missing, least=low[0])
    ctx.nontrivial(any(now.get(d, 0) > base[d] for d in base))
    ctx.label(c["level"])
