"""P28: plans that serve the most within a budget."""
import hypothesis.strategies as st

from checks.p24 import is_active
from checks.p26 import copies, refused
from checks.p27 import best_share, candidates, check_kept, check_reached, check_rules, check_statuses, everyone, far, load, lowest_cost, off, open_link, price, served, spent, spot
from harness import topo
from harness.core import Check, Discard, require
from terragraph_planner.common.configuration.enums import SiteType
from terragraph_planner.common.exceptions import OptimizerException
from terragraph_planner.optimization.ilp_models.coverage_optimization import MaxCoverageNetwork
from terragraph_planner.optimization.topology_operations import get_adversarial_links
from terragraph_planner.optimization.topology_optimization import _run_max_coverage_step, _run_min_cost_step, update_topology_with_solution
from terragraph_planner.optimization.topology_report import compute_capex

CHECK = Check("P28")
CHECK.assumptions = [
    "the price of a site is that of the site and all radio nodes it may carry, existing sites are free, as the planner counts in this step",
    "the connection of a site and its demand carries as much as the fastest link of the network",
    "wired links do not lead to clients, which the planner refuses",
    "at most one site per place is active before planning",
    "when the smallest share is maximised, the customers to be served are only judged where all that have a way can be connected at once",
    "solver tolerance for early stopping is switched off",
]


def ready(c):
    """Networks with a source and a customer away from it."""
    c["sites"][0]["t"] = "POP"
    if c["sites"][0]["st"] in ("UNAVAILABLE", "UNREACHABLE"):
        c["sites"][0]["st"] = "CANDIDATE"
    if len(c["sites"]) > 1:
        c["demand"].append(([len(c["sites"]) - 1], 1, max([x for *_, x in c["demand"]] or [0.5])))


@st.composite
def budgets(draw):
    c = draw(candidates())
    ready(c)
    c["budget"] = draw(st.one_of(st.sampled_from([0.0, 1.0, 1e9]), st.integers(1, 25).map(lambda i: i / 20), st.integers(1, 25).map(lambda i: i / 20)))
    c["weak"] = draw(st.lists(st.integers(0, 15), max_size=3)) if draw(st.booleans()) else []
    return c


def budget_of(c, prices):
    return c["budget"] if c["budget"] > 2 else c["budget"] * sum(prices.values())


def demand(t):
    return sum(d.demand * d.num_sites for d in t.demand_sites.values())


def audience(c, t, params, banned):
    """The customers whose smallest amount counts, or None if the sum of all counts."""
    if not c["common"]:
        return None
    who = everyone(t, params, banned)
    if not who or not all(v.demand > 0 for k, d, v in copies(t) if k in who):
        raise Discard()
    return who


def check_plan(c, ctx, before, t, params, banned, prices, who, best):
    check_statuses(before, t)
    check_rules(t, params, c["polar"])
    reach = check_reached(t)
    cost = spent(c, t, prices)
    require(cost <= params.budget + 1e-3 + 1e-7 * params.budget, "the plan costs more than the budget", cost=cost, budget=params.budget)
    now = served(t, params, who, banned)
    require(now is not None and now >= best - 1e-4, "the plan does not serve as much as a plan within the budget can", serves=now, best=best)
    return reach


@CHECK.sub("within budget", budgets, 5000, 60000, "the budget or the links not to be used limit what is served", hang_s=60)
def within_budget(c, ctx):
    """The model of best coverage, given a budget and links not to be used."""
    sites, t, params = load(c)
    prices = price(c, t)
    links = list(t.links.values())
    banned = set()
    for i in c["weak"]:
        if links:
            l = links[i % len(links)]
            a, b = l.tx_site.site_id, l.rx_site.site_id
            banned |= {(a, b), (b, a)}
    before = topo.snapshot(t)
    if refused(t, params) or demand(t) == 0:
        raise Discard()
    who = audience(c, t, params, banned)
    was = {s: v.status_type.name for s, v in t.sites.items()}
    start = {(l.tx_site.site_id, l.rx_site.site_id) for l in links if is_active(l) and open_link(l)}
    free = best_share(t, params, who, banned)
    full = lowest_cost(t, params, who, free - 1e-6, prices, banned) if free else None
    params.budget = c["budget"] if c["budget"] > 2 else c["budget"] * (full if full else sum(prices.values()))
    best = best_share(t, params, who, banned, params.budget, prices)
    free = best_share(t, params, who)
    got = MaxCoverageNetwork(t, params, banned).solve()
    require(topo.snapshot(t) == before, "the search changed the network")
    if got is None:
        require(params.budget <= 0 or best is None or best < 1e-4, "no plan was found though the budget allows one", best=best, budget=params.budget)
        return
    require(best is not None and params.budget > 0, "a plan was found though none is possible", budget=params.budget)
    update_topology_with_solution(got, t)
    reach = check_plan(c, ctx, before, t, params, banned, prices, who, best)
    check_kept(t, sites, was, start, reach)
    if free is not None and best < free - 1e-3:
        ctx.nontrivial()
        ctx.label("limited")
    if banned & start:
        ctx.label("links not to be used in the plan")
    if who is not None:
        ctx.label("common amount")


@st.composite
def steps(draw):
    c = draw(candidates())
    ready(c)
    c["budget"] = draw(st.integers(0, 30).map(lambda i: i / 20))
    c["ratio"] = draw(st.sampled_from([0.0, 0.1, 0.3, 0.5, 1.0]))
    return c


@CHECK.sub("added coverage", steps, 5000, 40000, "the plan is larger than the cheapest one", hang_s=60)
def added(c, ctx):
    """The step that spends what is left after the cheapest plan."""
    sites, t, params = load(c)
    prices = price(c, t)
    if refused(t, params) or demand(t) == 0:
        raise Discard()
    try:
        _run_min_cost_step(t, params)
    except OptimizerException:
        raise Discard()
    params.budget = budget_of(c, prices)
    params.backhaul_link_redundancy_ratio = c["ratio"]
    before = topo.snapshot(t)
    left = params.budget - compute_capex(t, params).proposed_capex
    banned = get_adversarial_links(t, c["ratio"])
    active = {s for s, v in t.sites.items() if is_active(v)}
    ways = {k for k, l in t.links.items() if is_active(l)}
    who = audience(c, t, params, banned) if left > 0 else None
    best = best_share(t, params, who, banned, params.budget, prices) if left > 0 else None
    got = _run_max_coverage_step(t, params)
    if got is None:
        require(topo.snapshot(t) == before, "the network was changed though there is no other plan")
        require(left <= 0 or best is None or best < 1e-4, "no plan was found though the budget allows one", best=best)
        return
    require(left > 0, "something was added though the cheapest plan uses the whole budget")
    require(best is not None, "a plan was found though none is possible")
    check_plan(c, ctx, before, t, params, banned, prices, who, best)
    # clients may be raised to relays, and then dropped if nobody is served there
    raised = {s for s in active if t.sites[s].site_type == SiteType.CN and any(spot(v) == spot(t.sites[s]) and far(v) and not off(v) for v in t.sites.values())}
    for s in active - raised:
        require(is_active(t.sites[s]), "a site of the cheapest plan was removed", site=s)
    for k in ways:
        l = t.links[k]
        require(is_active(l) or {l.tx_site.site_id, l.rx_site.site_id} & raised, "a link of the cheapest plan was removed", link=k)
    ctx.nontrivial(len(active) < sum(1 for v in t.sites.values() if is_active(v)))
    if banned:
        ctx.label("links not to be used")
