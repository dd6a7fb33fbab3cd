"""P27: plans of the lowest cost."""
import math
from collections import defaultdict

import hypothesis.strategies as st
import numpy as np
import xpress

from checks.p20 import distances
from checks.p24 import build, is_active, plans
from checks.p26 import copies, refused
from harness import topo
from harness.gen import fl
from harness.core import Check, Discard, require, require_close
from terragraph_planner.common.configuration.enums import SiteType, StatusType
from terragraph_planner.common.exceptions import OptimizerException
from terragraph_planner.optimization.ilp_models.cost_optimization import MinCostNetwork
from terragraph_planner.optimization.structs import OptimizationSolution
from terragraph_planner.optimization.topology_optimization import _run_min_cost_step, update_topology_with_solution

CHECK = Check("P27")
CHECK.assumptions = [
    "the price of a site is that of the site and all radio nodes it may carry, existing sites are free, as the planner counts in this step",
    "the connection of a site and its demand carries as much as the fastest link of the network",
    "wired links do not lead to clients, which the planner refuses",
    "at most one site per place is active before planning",
    "solver tolerance for early stopping is switched off",
]
TOL = 2e-5
FIXED = ("EXISTING", "UNAVAILABLE", "UNREACHABLE")
OFF = ("UNAVAILABLE", "UNREACHABLE")


@st.composite
def candidates(draw, high=8, common=True):
    c = draw(plans(high))
    mess = draw(st.sampled_from([["CANDIDATE"], ["CANDIDATE"], ["CANDIDATE", "CANDIDATE", "CANDIDATE", "PROPOSED"], ["CANDIDATE", "CANDIDATE", "EXISTING"], ["CANDIDATE", "CANDIDATE", "CANDIDATE", "PROPOSED", "EXISTING", "UNAVAILABLE", "UNREACHABLE"]]))
    seen = set()
    if draw(st.integers(0, 9)):
        c["sites"][0]["t"] = "POP"
    for s in c["sites"]:
        s["st"] = draw(st.sampled_from(mess))
        k = (s["x"], s["y"], s["alt"])
        if s["st"] in ("PROPOSED", "EXISTING"):
            if k in seen:
                s["st"] = "CANDIDATE"
            seen.add(k)
    kinds = [s["t"] for s in c["sites"]]
    n = len(kinds)
    taken = set()
    links = []
    for a, b, _, w in c["links"]:
        links.append((a, b, draw(st.sampled_from(["CANDIDATE", "CANDIDATE"] + mess)), w or "CN" in (kinds[a], kinds[b])))
        taken.add((a, b))
    for _ in range(draw(st.integers(0, 8))):
        a, b = sorted((draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))))
        if a < b and (a, b) not in taken:
            taken.add((a, b))
            links.append((a, b, draw(st.sampled_from(["CANDIDATE", "PROPOSED"])), True))
    c["links"] = links
    if draw(st.booleans()):  # sites with cables only need no sectors
        for i in set(range(n)) - {e for a, b, _, w in links if w for e in (a, b)}:
            c["nodes"][i] = (0, 1)
    if draw(st.integers(0, 7)) == 0:  # two neighbours of a site with a cable between them
        x, y = draw(fl(-100, 100, 200)), draw(fl(-100, 100, 200))
        for dx, dy, kind in ((0.5, 0.25, draw(st.sampled_from(["POP", "POP", "DN"]))), (60.5, 0.25, "DN"), (60.5, 10.25, "DN")):
            c["sites"].append({"t": kind, "x": x + dx, "y": y + dy, "st": draw(st.sampled_from(["PROPOSED", "PROPOSED", "EXISTING", "CANDIDATE"])), "alt": 11.0, "dev": 0, "subs": None, "bld": None, "name": ""})
            kinds.append(kind)
            c["nodes"].append((1, 1))
        for a, b in ((n, n + 1), (n, n + 2), (n + 1, n + 2)):
            links.append((a, b, draw(st.sampled_from(["CANDIDATE", "PROPOSED", "EXISTING"])), a == n))
        n += 3
        c["demand"].append(([n - 1], 1, 0.025))
    amount = st.sampled_from(draw(st.sampled_from([[0.025], [0.025, 0.1, 0.5], [0.5, 1.0], [0.0, 0.3]])))
    clients = [i for i, k in enumerate(kinds) if k == "CN"]
    c["demand"] = [(who, num, draw(amount)) for who, num, _ in c["demand"]]
    if clients and draw(st.integers(0, 2)):
        c["demand"] = [([i], draw(st.integers(1, 2)), draw(amount)) for i in clients]
    elif not c["demand"] or draw(st.integers(0, 2)):
        c["demand"].append(([draw(st.integers(0, n - 1))], draw(st.integers(1, 2)), draw(amount)))
    levels = draw(st.sampled_from([[1.8], [0.3, 1.0, 1.8], [0.0, 0.3, 1.0, 1.8], [0.1, 0.2]]))
    c["cap"] = [draw(st.sampled_from(levels)) for _ in range(24)]
    c["pops"] = draw(st.booleans())
    c["common"] = common and draw(st.integers(0, 3)) == 0
    c["polar"] = draw(st.integers(0, 5)) > 0
    c["extra"]["pop_capacity"] = draw(st.sampled_from([0.4, 10.0, 10.0]))
    return c


def load(c, **more):
    sites, t, params = build(c, always_active_pops=c["pops"], maximize_common_bandwidth=c["common"], min_cost_rel_stop=-1, max_coverage_rel_stop=-1, redundancy_rel_stop=-1, interference_rel_stop=-1, pop_proposal_rel_stop=-1, **more)
    params.ignore_polarities = not c["polar"]
    for i, l in enumerate(t.links.values()):
        l.capacity = 0 if l.is_wireless and l.tx_sector is None else c["cap"][i % 24]
    return sites, t, params


def spot(s):
    return s.longitude, s.latitude, s.altitude


def off(s):
    return s.status_type.name in OFF


def far(x):
    return x.site_type in (SiteType.POP, SiteType.DN)


def open_link(l):
    """A link that a plan may use."""
    return not off(l) and l.capacity > 0 and (not l.is_wireless or l.tx_sector is not None)


class Program:
    """A small mixed integer program."""

    def __init__(self):
        self.lo, self.hi, self.whole, self.rows, self.low, self.high = [], [], [], [], [], []

    def var(self, lo=0.0, hi=math.inf, whole=False):
        self.lo.append(lo)
        self.hi.append(hi)
        self.whole.append(int(whole))
        return len(self.lo) - 1

    def row(self, terms, low=-math.inf, high=math.inf):
        self.rows.append(terms)
        self.low.append(low)
        self.high.append(high)

    def least(self, goal):
        """Smallest value of the goal and the choice; None if there is none."""
        obj = [0.0] * len(self.lo)
        for i, x in goal:
            obj[i] += x
        rows = []
        for terms in self.rows:
            row = defaultdict(float)
            for i, x in terms:
                row[i] += x
            rows.append(row)
        status, x = xpress.least(obj, self.whole, self.lo, self.hi, rows, self.low, self.high)
        return None if x is None else (float(np.dot(obj, x)), x)


RANK = {SiteType.CN: 0, SiteType.DN: 1, SiteType.POP: 2}


def selection(p, t, params):
    """Which sites may be chosen together; returns a choice per site."""
    x = {s: p.var(0, 0 if off(v) else 1, True) for s, v in t.sites.items()}
    group = defaultdict(list)
    for v in t.sites.values():
        group[spot(v)].append(v)
    for vs in group.values():
        on = [v for v in vs if is_active(v)]
        if params.always_active_pops and not any(far(v) for v in on):
            on += [v for v in vs if v.site_type == SiteType.POP and not off(v)]
        total = [(x[v.site_id], 1) for v in vs]
        if not on:
            p.row(total, high=1)
            continue
        p.row(total, 1, 1)
        top = max(RANK[v.site_type] for v in on)
        for v in vs:
            if v in on and RANK[v.site_type] == top:
                continue
            if top == 0 and RANK[v.site_type] > 0:  # a client may become a relay
                continue
            p.row([(x[v.site_id], 1)], high=0)
    return x


def price(c, t):
    """Price of each site with all it can carry."""
    q = c["capex"]
    out = {}
    for s, v in t.sites.items():
        kind, dev = v.site_type.name.lower(), v.device.device_sku
        nodes = {z.node_id for z in t.sectors.values() if z.site is v}
        out[s] = 0.0 if v.status_type == StatusType.EXISTING else q[f"{kind}_site"] + len(nodes) * (q["dn"] if dev[0] == "D" else q["cn"])[int(dev[1])]
    return out


def apart(p, t, params, x):
    """Polarity per relay: already active links need two different ones."""
    odd = {s: p.var(0, 1, True) for s, v in t.sites.items() if far(v)}
    if params.ignore_polarities:
        return odd
    for l in t.links.values():
        a, b = l.tx_site.site_id, l.rx_site.site_id
        if is_active(l) and l.is_wireless and a in odd and b in odd:
            p.row([(odd[a], 1), (odd[b], 1)], 1, 1)
    return odd


def bound_polarity(p, params, odd, l, terms):
    """Terms (at most 1) may be positive between different polarities only."""
    a, b = l.tx_site.site_id, l.rx_site.site_id
    if params.ignore_polarities or is_active(l) or not l.is_wireless or a not in odd or b not in odd:
        return
    p.row(terms + [(odd[a], -1), (odd[b], -1)], high=0)
    p.row(terms + [(odd[a], 1), (odd[b], 1)], high=2)


def traffic(p, t, params, x, odd, banned=(), only=open_link):
    """Traffic through chosen sites; returns what each customer gets (its variable) and wants."""
    top = max((l.capacity for l in t.links.values()), default=0.0) or params.pop_capacity
    total = sum(d.demand / params.oversubscription * d.num_sites for d in t.demand_sites.values())
    into, out, use = defaultdict(list), defaultdict(list), defaultdict(list)
    for l in t.links.values():
        a, b = l.tx_site.site_id, l.rx_site.site_id
        if not only(l) or (a, b) in banned:
            continue
        f = p.var(0, min(l.capacity, total) if not l.is_wireless else l.capacity)
        out[a].append((f, 1))
        into[b].append((f, 1))
        if l.is_wireless:
            share = (f, 1 / l.capacity)
            use["tx", l.tx_sector.sector_id].append((share, a))
            use["rx", l.rx_sector.sector_id].append((share, b))
            bound_polarity(p, params, odd, l, [share])
    for shares in use.values():
        p.row([s for s, _ in shares] + [(x[shares[0][1]], -1)], high=0)
    got, want = {}, {}
    for k, d, v in copies(t):
        want[k] = v.demand / params.oversubscription
        got[k] = p.var(0, want[k])
        ways = []
        for s in v.connected_sites:
            h = p.var(0, min(top, total))
            out[s.site_id].append((h, 1))
            ways.append((h, 1))
        p.row(ways + [(got[k], -1)], 0, 0)
    for s, v in t.sites.items():
        if v.site_type == SiteType.POP:
            g = p.var(0, params.pop_capacity)
            into[s].append((g, 1))
            p.row(out[s], high=params.pop_capacity)
        p.row(into[s] + [(i, -1) for i, _ in out[s]], 0, 0)
        p.row(into[s] + [(x[s], -total)], high=0)
    return got, want


def served(t, params, who=None, banned=()):
    """What the links in use deliver: the share of all demand, or of the smallest demand to everyone in the set."""
    p = Program()
    x = {s: p.var(0, 1 if is_active(v) else 0) for s, v in t.sites.items()}
    got, want = traffic(p, t, params, x, {}, banned, only=lambda l: open_link(l) and is_active(l) and (not l.is_wireless or is_active(l.tx_sector) and is_active(l.rx_sector)))
    return share(p, got, want, who)


def share(p, got, want, who):
    """Highest share of the demand."""
    if who is not None:
        least = min(want[k] for k in who)
        b = p.var(0, least)
        for k in who:
            p.row([(got[k], 1), (b, -1)], low=0)
        r = p.least([(b, -1)])
        return None if r is None else (-r[0] / least if least > 0 else 1.0)
    r = p.least([(i, -1) for i in got.values()])
    return None if r is None else -r[0] / sum(want.values())


def best_share(t, params, who, banned=(), limit=None, prices=None):
    p = Program()
    x = selection(p, t, params)
    got, want = traffic(p, t, params, x, apart(p, t, params, x), banned)
    if limit is not None:
        p.row([(x[s], v) for s, v in prices.items()], high=limit)
    return share(p, got, want, who)


def lowest_cost(t, params, who, level, prices, banned=()):
    p = Program()
    x = selection(p, t, params)
    got, want = traffic(p, t, params, x, apart(p, t, params, x), banned)
    if who is not None:
        for k in who:
            p.row([(got[k], 1)], low=level * min(want[j] for j in who))
    else:
        p.row([(i, 1) for i in got.values()], low=level * sum(want.values()))
    r = p.least([(x[s], v) for s, v in prices.items()])
    return None if r is None else r[0]


def everyone(t, params, banned=()):
    """The customers that can be connected at the same time, if that is clear."""
    reach = distances([s for s, v in t.sites.items() if v.site_type == SiteType.POP and not off(v)], {(l.tx_site.site_id, l.rx_site.site_id) for l in t.links.values() if open_link(l) and (l.tx_site.site_id, l.rx_site.site_id) not in banned and not off(l.tx_site) and not off(l.rx_site)})
    who = {k for k, d, v in copies(t) if any(s.site_id in reach for s in v.connected_sites)}
    # clear only if all these can be connected at the same time under the polarities and the choices per place
    p = Program()
    x = selection(p, t, params)
    odd = apart(p, t, params, x)
    arcs, back = defaultdict(list), defaultdict(list)
    for l in t.links.values():
        a, b = l.tx_site.site_id, l.rx_site.site_id
        if open_link(l) and (a, b) not in banned:
            f = p.var(0, 1)
            arcs[a].append((f, 1))
            back[b].append((f, 1))
            bound_polarity(p, params, odd, l, [(f, 1)])
    for k, d, v in copies(t):
        ways = []
        for s in v.connected_sites:
            h = p.var(0, 1)
            arcs[s.site_id].append((h, 1))
            ways.append((h, 1))
        if k in who:
            p.row(ways, low=0.001)
    for s, v in t.sites.items():
        if v.site_type == SiteType.POP:
            g = p.var(0, max(1, len(arcs[s])))
            back[s].append((g, 1))
        p.row(back[s] + [(i, -1) for i, _ in arcs[s]], 0, 0)
        p.row(back[s] + [(x[s], -max(1, len(back[s]), len(arcs[s])))], high=0)
    if p.least([(0, 0.0)]) is None:
        raise Discard()
    return who


def check_statuses(before, t):
    """What was fixed before stays, everything else is proposed or a candidate."""
    for part, items in (("sites", t.sites), ("sectors", t.sectors), ("links", t.links)):
        at = {"sites": 5, "sectors": 4, "links": 4}[part]
        for k, v in items.items():
            was, now = before[part][k][at], v.status_type.name
            require(now == was if was in FIXED else now in ("PROPOSED", "CANDIDATE"), "equipment that is existing, failed or out of reach changed its status", which=k, was=was, now=now)


def check_rules(t, params, pol=True):
    """The active part of a network follows the rules of networks."""
    for l in t.links.values():
        r = t.get_link_by_site_ids(l.rx_site.site_id, l.tx_site.site_id)
        if not is_active(l):
            continue
        require(is_active(l.tx_site) and is_active(l.rx_site), "an active link leads to a site that is not", link=l.link_id)
        require(not l.is_wireless or l.tx_sector is not None and is_active(l.tx_sector) and is_active(l.rx_sector), "an active link uses a sector that is not", link=l.link_id)
        require(r is None or is_active(r), "only one direction of a link is active", link=l.link_id)
        if pol and l.is_wireless and l.capacity > 0 and far(l.tx_site) and far(l.rx_site):
            require({l.tx_site.polarity.name, l.rx_site.polarity.name} == {"ODD", "EVEN"}, "an active link joins sites that do not have opposite polarities", link=l.link_id, has=(l.tx_site.polarity.name, l.rx_site.polarity.name))
    for z in t.sectors.values():
        require(not is_active(z) or is_active(z.site), "an active sector stands on a site that is not", sector=z.sector_id)
    group = defaultdict(list)
    for v in t.sites.values():
        if is_active(v):
            group[spot(v)].append(v)
    for vs in group.values():
        built = [v for v in vs if v.status_type == StatusType.EXISTING]
        require(len(vs) <= 1 or len(vs) == 2 and len(built) == 1 and built[0].site_type == SiteType.CN, "more than one choice of a place is active", sites=[v.site_id for v in vs])


def check_reached(t):
    """Everything proposed has a way from a source."""
    reach = distances([s for s, v in t.sites.items() if v.site_type == SiteType.POP and is_active(v)], {(l.tx_site.site_id, l.rx_site.site_id) for l in t.links.values() if is_active(l)})
    for s, v in t.sites.items():
        require(v.status_type != StatusType.PROPOSED or s in reach, "a proposed site has no way from a source", site=s)
    return reach


def check_kept(t, sites, was, start, reach):
    """Sites chosen before stay unless they cannot be reached."""
    for s, v in t.sites.items():
        if was[s] != "PROPOSED" or is_active(v) or sum(1 for o in sites if spot(o) == spot(v)) > 1:
            continue
        for a, b in start:
            require(not (b == s and a in reach and is_active(t.sites[a])), "a site that was chosen before is not part of the plan though it is connected", site=s)


def spent(c, t, prices):
    return sum(prices[s] for s, v in t.sites.items() if v.status_type == StatusType.PROPOSED)


def levels():
    out, v = [], 1.0
    while v >= 0.5 - 1e-9:
        out.append(v)
        v -= 0.1
    return out


@CHECK.sub("cheapest", candidates, 6000, 90000, "at least two selections differ in price and some candidates remain unused", hang_s=60)
def cheapest(c, ctx):
    """The step of lowest cost, from the candidates to the plan."""
    sites, t, params = load(c)
    before = topo.snapshot(t)
    prices = price(c, t)
    was = {s: v.status_type.name for s, v in t.sites.items()}
    start = {(l.tx_site.site_id, l.rx_site.site_id) for l in t.links.values() if is_active(l) and open_link(l)}
    none = refused(t, params)
    total = sum(d.demand * d.num_sites for d in t.demand_sites.values())
    who = top = None
    if not none and total > 0:
        if c["common"]:
            who = everyone(t, params)
            if not who or not all(v.demand > 0 for k, d, v in copies(t) if k in who):
                raise Discard()
        top = best_share(t, params, who)
    try:
        got = _run_min_cost_step(t, params)
    except OptimizerException as e:
        require(topo.snapshot(t) == before, "a refused network was changed")
        require(none or total == 0 or top is None or top < 0.5 + 1e-5, "a network that can serve half of the demand was refused", best=top, msg=str(e))
        return
    require(not none, "a network without source or customer was planned")
    require(top is not None and top >= 0.5 - 1e-5, "a plan was made though half of the demand cannot be served", best=top)
    check_statuses(before, t)
    check_rules(t, params, c["polar"])
    reach = check_reached(t)
    reachable = [v for v in levels() if v <= top + 1e-6]
    now = served(t, params, who)
    require(now is not None, "the plan breaks a limit")
    ok = False
    for v in reachable[:2] if len(reachable) > 1 and abs(reachable[0] - top) < 1e-5 and reachable[0] < 1 else reachable[:1]:
        best = lowest_cost(t2(c), params, who, v, prices)
        seen = (v, best)
        ok = best is not None and now >= v - 1e-4 and math.isclose(got.objective_value, best, rel_tol=1e-6, abs_tol=1e-3)
        if ok:
            break
    require(now >= reachable[0] - 1e-4 or ok, "the plan serves less than the highest step of the demand that is possible", serves=now, possible=top)
    require(ok, "the plan is not the cheapest for what it serves", cost=got.objective_value, best=seen, serves=now)
    cost = spent(c, t, prices)
    require(cost <= seen[1] + 1e-3, "the plan costs more than the lowest cost", cost=cost, best=seen)
    check_kept(t, sites, was, start, reach)
    ctx.nontrivial(len(set(prices.values())) > 1 and any(v.status_type == StatusType.CANDIDATE for v in t.sites.values()))
    ctx.label(f"level {seen[0]:.1f}")
    if c["common"]:
        ctx.label("common amount")
    if any(v == "EXISTING" for v in was.values()):
        ctx.label("existing")


def t2(c):
    return load(c)[1]
