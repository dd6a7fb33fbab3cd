"""P31: proposals for additional sources."""
from collections import Counter, defaultdict
from types import SimpleNamespace as NS

import hypothesis.strategies as st

from checks.p24 import is_active
from checks.p27 import Program, candidates, load, off, selection, spot, traffic
from harness import topo
from harness.core import Check, require, require_close
from terragraph_planner.common.configuration.enums import SiteType, StatusType
from terragraph_planner.common.exceptions import OptimizerException
from terragraph_planner.optimization.topology_preparation import validate_topology_status
from terragraph_planner.optimization.ilp_models.pop_proposal_optimization import POPProposalNetwork
from terragraph_planner.optimization.topology_optimization import _run_propose_extra_pops_step

CHECK = Check("P31")
CHECK.assumptions = [
    "a place for a source is good if it serves clients in one hop, or demand at the place itself, as the planner counts in this step",
    "relays that are decided, failed, out of reach or beside a source cannot be proposed",
    "at most one site per place is active before planning",
    "solver tolerance for early stopping is switched off",
]


@st.composite
def wanting(draw, high=8):
    """Candidate networks in which sources are missing."""
    c = draw(candidates(high, common=False))
    fewer = draw(st.integers(0, 3))  # more relays instead of sources
    for s in c["sites"]:
        if s["t"] == "POP" and (fewer == 0 or fewer < 3 and draw(st.booleans())):
            s["t"] = "DN"
    kinds = [s["t"] for s in c["sites"]]
    c["links"] = [(a, b, s, w or "CN" in (kinds[a], kinds[b])) for a, b, s, w in c["links"]]
    c["more"] = draw(st.sampled_from([0, 1, 1, 1, 2, 2, 3, 9]))
    c["common"] = draw(st.integers(0, 3)) == 0
    c["hues"] = draw(st.one_of(st.none(), st.lists(st.integers(0, 3), min_size=2, max_size=5)))
    return c


def prepare(c):
    sites, t, params = load(c, number_of_extra_pops=c["more"])
    return sites, t, params


def places(t):
    """Sites by place, places of sources that can be used, and relays that may become one."""
    at = defaultdict(list)
    for v in t.sites.values():
        at[spot(v)].append(v)
    have = {k for k, vs in at.items() if any(v.site_type == SiteType.POP and not off(v) for v in vs)}
    free = [v for vs in at.values() for v in vs if v.site_type == SiteType.DN and v.status_type == StatusType.CANDIDATE and not any(w.site_type == SiteType.POP or w.site_type == SiteType.DN and is_active(w) for w in vs)]
    return at, have, free


def access(t, free):
    """The network in which all free relays are sources and all links lead to clients."""
    free = {v.site_id for v in free}
    sites = {}
    for s, v in t.sites.items():
        kind = SiteType.POP if s in free else v.site_type
        status = StatusType.PROPOSED if v.site_type == SiteType.POP and not off(v) else v.status_type
        sites[s] = NS(site_id=s, site_type=kind, status_type=status, longitude=v.longitude, latitude=v.latitude, altitude=v.altitude)
    links = {k: l for k, l in t.links.items() if l.rx_site.site_type == SiteType.CN}
    return NS(sites=sites, links=links, demand_sites=t.demand_sites)


def lack(t, params, net, number=None, given=None):
    """Least unserved demand with that number of sources, or with the given sites as sources."""
    p = Program()
    alone = NS(always_active_pops=False, ignore_polarities=True, oversubscription=params.oversubscription, pop_capacity=params.pop_capacity)
    x = selection(p, net, alone)
    got, want = traffic(p, net, alone, x, {})
    sources = [s for s, v in net.sites.items() if v.site_type == SiteType.POP]
    if number is not None:
        p.row([(x[s], 1) for s in sources], number, number) if sources else None
    else:
        for s in sources:
            if s not in given:
                p.row([(x[s], 1)], high=0)
    r = p.least([(i, -1) for i in got.values()])
    return None if r is None else (sum(want.values()) + r[0], -r[0])


def best(t, params):
    at, have, free = places(t)
    net = access(t, free)
    number = min(params.number_of_extra_pops + len(have), len(have | {spot(v) for v in free}))
    return at, have, free, net, lack(t, params, net, number)


def judge(t, params, picked, shortage=None):
    """The picked relays are as good a choice as any."""
    at, have, free, net, want = best(t, params)
    names = {v.site_id for v in free}
    require(picked <= names, "a site was proposed as source that cannot be one", sites=sorted(picked - names))
    require(len(picked) <= params.number_of_extra_pops, "more sources were proposed than requested", proposed=len(picked))
    require(len({spot(t.sites[s]) for s in picked}) == len(picked), "two sources were proposed for one place")
    require(want is not None, "a choice was made that breaks the rules")
    given = picked | {s for s, v in t.sites.items() if v.site_type == SiteType.POP and not off(v)}
    got = lack(t, params, net, given=given)
    require(got is not None, "the proposed sources cannot be used together")
    require(got[0] <= want[0] + 1e-4, "other sources would have served more", missing=got[0], best=want[0])
    if shortage is not None:
        require_close(shortage, want[0], "the shortage of the proposal is not what it says", abs_=1e-4)
    return free, have


@CHECK.sub("choice", wanting, 4000, 60000, "some relays are proposed, others are not", hang_s=60)
def choice(c, ctx):
    """The relays chosen by the model."""
    sites, t, params = prepare(c)
    if c["more"] == 0:
        params.number_of_extra_pops = 1
    before = topo.snapshot(t)
    was = dict(vars(params))
    try:
        got = POPProposalNetwork(t, params).propose_pops()
    except OptimizerException:
        got = None
    require(vars(params) == was, "the search changed the settings")
    require(topo.snapshot(t) == before, "the search changed the network")
    want = best(t, params)[4]
    if got is None:
        require(want is not None and want[1] < 1e-3, "nothing was proposed though something can be served", served=want and want[1])
        ctx.label("nothing to propose")
        return
    picked = {s for s, n in got.site_decisions.items() if n == 1 and s in t.sites and t.sites[s].site_type == SiteType.DN and t.sites[s].status_type == StatusType.CANDIDATE}
    free, have = judge(t, params, picked, sum(got.shortage_decisions.values()))
    ctx.nontrivial(0 < len(picked) < len(free))
    ctx.label("with sources" if have else "without sources")


@CHECK.sub("step", wanting, 3000, 40000, "sources were added to a network with other relays", hang_s=60)
def step(c, ctx):
    """The network after the step."""
    sites, t, params = prepare(c)
    _, old, _ = load(c)
    if c["hues"]:  # the relays' radios have channels already
        for net in (t, old):
            for k, (s, z) in enumerate(sorted(net.sectors.items())):
                z.channel = c["hues"][k % len(c["hues"])]
    before = topo.snapshot(t)
    was = dict(vars(params))
    try:
        _run_propose_extra_pops_step(t, params)
    except OptimizerException:
        require(c["more"] == 0 and not any(v.site_type == SiteType.POP for v in old.sites.values()), "a network was refused that can be planned")
        require(topo.snapshot(t) == before, "a network was refused and changed")
        ctx.label("refused")
        return
    require(vars(params) == was, "the step changed the settings")
    require(c["more"] > 0 or any(v.site_type == SiteType.POP for v in old.sites.values()), "a network without sources was not refused")
    validate_topology_status(t)
    after = topo.snapshot(t)
    new = [v for s, v in t.sites.items() if s not in before["sites"]]
    for part in ("sites", "sectors", "links"):
        now = {k: v for k, v in after[part].items() if k in before[part]}
        require(now == before[part], "the proposal changed what was there", part=part, which=[k for k in before[part] if now.get(k) != before[part][k]])
    if not new:
        require(after == before, "nothing was proposed but the network changed")
        if c["more"]:
            at, have, free, net, want = best(old, params)
            none = lack(old, params, net, given={s for s, v in old.sites.items() if v.site_type == SiteType.POP and not off(v)})
            require(want is None or want[1] < 1e-3 or none is not None and none[0] <= want[0] + 1e-4, "nothing was proposed though sources are missing", best=want, now=none)
        ctx.label("nothing added" if c["more"] else "not asked")
        return
    at = places(old)[0]
    twin = {}
    for v in new:
        require(v.site_type == SiteType.POP and v.status_type == StatusType.CANDIDATE, "a new site is no candidate for a source", site=v.site_id)
        beside = [w for w in at.get(spot(v), []) if w.site_type == SiteType.DN and w.device.device_sku == v.device.device_sku]
        require(len(beside) == 1, "a new source does not stand at the place of a relay", site=v.site_id)
        twin[v.site_id] = beside[0].site_id
        w = beside[0]
        require((v.location_type, v.building_id, v.name) == (w.location_type, w.building_id, w.name + "_POP"), "a new source is described otherwise than its relay", site=v.site_id, has=(v.location_type, v.building_id, v.name))
    judge(old, params, set(twin.values()))
    back = {b: a for a, b in twin.items()}
    # radios
    def face(z):
        return (z.node_id, z.position_in_node, z.ant_azimuth, z.channel)
    for b, a in back.items():
        was_on = sorted(face(z) + (z.status_type == StatusType.UNAVAILABLE,) for z in t.sectors.values() if z.site.site_id == b)
        now_on = sorted(face(z) + (z.status_type == StatusType.UNAVAILABLE,) for z in t.sectors.values() if z.site.site_id == a)
        require(was_on == now_on, "a new source has other radios than its relay", site=a, relay=was_on, source=now_on)
    # links
    want = {}
    for l in old.links.values():
        e, f = l.tx_site.site_id, l.rx_site.site_id
        for x, y in ((back.get(e), f), (e, back.get(f))):
            if x and y and SiteType.POP not in (l.tx_site.site_type, l.rx_site.site_type) and (not l.is_wireless or l.tx_sector is not None and l.rx_sector is not None):
                want[x, y] = l
    have = {(l.tx_site.site_id, l.rx_site.site_id): l for k, l in t.links.items() if k not in before["links"]}
    require(set(have) == set(want), "the links of a new source are not those of its relay", missing=[k for k in want if k not in have], extra=[k for k in have if k not in want])
    for k, l in have.items():
        o = want[k]
        require((l.is_wireless, l.confidence_level, l.capacity, l.mcs_level, l.rsl_dbm, l.tx_power) == (o.is_wireless, o.confidence_level, o.capacity, o.mcs_level, o.rsl_dbm, o.tx_power), "a link of a new source differs from that of its relay", link=k)
        require(l.status_type == (StatusType.CANDIDATE if not off(o) else o.status_type), "a link of a new source has the wrong status", link=k, has=l.status_type.name, was=o.status_type.name)
        for z, y in ((l.tx_sector, o.tx_sector), (l.rx_sector, o.rx_sector)):
            require((z is None) == (y is None) and (z is None or face(z) == face(y)), "a link of a new source uses another radio", link=k)
        require((l.tx_sector is None or l.tx_sector.site is l.tx_site) and (l.rx_sector is None or l.rx_sector.site is l.rx_site), "a link uses a radio of another site", link=k)
    # demand
    for d, v in t.demand_sites.items():
        ids = [s.site_id for s in v.connected_sites]
        first = [s.site_id for s in old.demand_sites[d].connected_sites]
        require(Counter(ids) == Counter(first + [back[s] for s in first if s in back]), "demand at a relay is not served by the new source at its place", demand=d)
    ctx.nontrivial(len(new) < len(places(old)[2]))
    ctx.label(f"{len(new)} added")
