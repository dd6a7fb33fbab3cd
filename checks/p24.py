"""P24: counts and costs of networks."""
import itertools
from collections import Counter, defaultdict

import hypothesis.strategies as st

from checks.p18 import wireless
from checks.p20 import FILTERS, distances, edges, pops
from harness import topo
from harness.core import Check, require, require_close
from harness.gen import fl
from terragraph_planner.common.configuration.configs import OptimizerParams
from terragraph_planner.common.configuration.enums import PolarityType, SiteType, StatusType
from terragraph_planner.common.geos import GeoLocation
from terragraph_planner.common.topology_models.demand_site import DemandSite
from terragraph_planner.common.topology_models.sector import Sector
from terragraph_planner.optimization.topology_component_counter import count_topology_components
from terragraph_planner.optimization.topology_operations import compute_capex

CHECK = Check("P24")
CHECK.assumptions = [
    "candidates of one kind standing in one place count as one site in the totals, links between the same two places and kinds as one link",
    "all sectors of a radio node have one status, as the planner's output always does",
    "active links have sectors of one channel at both ends",
    "sites stand either in exactly one place or at least a metre apart on the ground",
]
ACTIVE = ("PROPOSED", "EXISTING")
CAPEX = st.sampled_from([0.0, 100.0, 250.0, 312.5, 1500.0])


@st.composite
def plans(draw, high=9):
    n = draw(st.integers(1, high))
    mess = draw(st.sampled_from([["PROPOSED"], ["PROPOSED", "EXISTING"], ["PROPOSED", "PROPOSED", "EXISTING", "CANDIDATE"], ["PROPOSED", "PROPOSED", "EXISTING", "CANDIDATE", "UNAVAILABLE", "UNREACHABLE"], ["CANDIDATE"]]))
    kinds = draw(st.sampled_from([["POP", "DN", "DN", "CN"], ["DN", "DN", "CN", "CN"], ["POP", "DN"]]))
    sites = []
    for i in range(n):
        s = dict(t=draw(st.sampled_from(kinds)), x=draw(fl(-150, 150, 150)), y=draw(fl(-150, 150, 150)), st=draw(st.sampled_from(mess)), alt=draw(st.sampled_from([10.0, 10.0, 22.5, None])), dev=draw(st.integers(0, 1)),
                 subs=draw(st.one_of(st.none(), st.integers(1, 3))), bld=draw(st.sampled_from([None, None, 4])))
        if draw(st.integers(0, 2)):
            s["name"] = draw(st.sampled_from([f"n{i}", f"site, {i}", f"<b>&{i}", f"é{i}"]))
        else:
            s["name"] = ""
        if sites and draw(st.integers(0, 4)) == 0:  # in the place of another
            o = draw(st.sampled_from(sites))
            s["x"], s["y"], s["alt"], s["dev"] = o["x"], o["y"], o["alt"], 1 - o["dev"]
            s["st"] = "CANDIDATE"
        sites.append(s)
    if draw(st.integers(0, 5)):
        sites[0]["t"] = "POP"
    keep = draw(st.integers(0, 3))
    links = [(a, b, draw(st.sampled_from(mess if draw(st.integers(0, 1)) else ["PROPOSED"])), draw(st.integers(0, 6)) > 0) for a, b in itertools.combinations(range(n), 2) if draw(st.integers(0, 3)) <= keep]
    return dict(
        sites=sites, links=links,
        demand=[(sorted(draw(st.sets(st.integers(0, n - 1), max_size=3))), draw(st.integers(1, 3)), draw(st.sampled_from([0.025, 0.5, 2.0]))) for _ in range(draw(st.integers(0, 4)))],
        nodes=[(draw(st.integers(1, 2)), draw(st.integers(1, 2))) for _ in range(n)],
        pick=[draw(st.integers(0, 11)) for _ in range(30)], channels=draw(st.sampled_from([1, 1, 2, 3])),
        capex=dict(dn=[draw(CAPEX) for _ in range(2)], cn=[draw(CAPEX) for _ in range(2)], pop_site=draw(CAPEX), dn_site=draw(CAPEX), cn_site=draw(CAPEX)),
        range=draw(st.sampled_from([60.0, 90.0])), extra=dict(oversubscription=draw(st.sampled_from([1.0, 1.0, 4.0])), pop_capacity=draw(st.sampled_from([0.5, 10.0]))))


def build(c, **more):
    """The network of a case, its parameters and every site's sectors."""
    devs = [topo.device(f"D{i}", "DN", 4, x, horizontal_scan_range=c["range"]) for i, x in enumerate(c["capex"]["dn"])] + [topo.device(f"C{i}", "CN", None, x, horizontal_scan_range=c["range"]) for i, x in enumerate(c["capex"]["cn"])]
    sites = topo.sites_of(c["sites"], devs[:2], devs[2:])
    t = topo.topology_of(sites, c["links"])
    pick = itertools.cycle(c["pick"])
    secs = {}
    for s, (nodes, spn) in zip(sites, c["nodes"]):
        if s.site_type == SiteType.CN:
            nodes = spn = 1
        else:
            s.polarity = [PolarityType.ODD, PolarityType.EVEN][next(pick) % 2]
        for k in range(nodes):
            status = StatusType.CANDIDATE if k > 0 and s.status_type == StatusType.PROPOSED and next(pick) < 6 else s.status_type
            for j in range(spn):
                x = Sector(s, k, j, (next(pick) * 31.0 + k * 180.0 + j * c["range"]) % 360.0, status)
                t.add_sector(x)
                secs.setdefault(s.site_id, []).append(x)
    root = {x.sector_id: x.sector_id for x in t.sectors.values()}

    def find(a):
        while root[a] != a:
            a = root[a]
        return a

    for l in sorted(wireless(t), key=lambda l: l.link_id):
        if l.tx_sector is not None:
            continue
        active = l.status_type.name in ACTIVE
        if not active and next(pick) == 0:
            continue
        a, b = ([x for x in secs[e.site_id] if not active or x.status_type.name in (["EXISTING"] if l.status_type.name == "EXISTING" else ACTIVE)] for e in (l.tx_site, l.rx_site))
        a, b = a[next(pick) % len(a)], b[next(pick) % len(b)]
        rev = t.get_link_by_site_ids(l.rx_site.site_id, l.tx_site.site_id)
        for m, x, y in ((l, a, b), (rev, b, a)):
            if m is not None:
                m.tx_sector, m.rx_sector = x, y
        if active:
            root[find(a.sector_id)] = find(b.sector_id)
    channel = {}
    for x in t.sectors.values():
        x.channel = channel.setdefault(find(x.sector_id), next(pick) % c["channels"]) if x.status_type.name in ACTIVE else -1
    for i, (who, num, amount) in enumerate(c["demand"]):
        lat, lon = topo.metres(300.0 + 7 * i, 3.0 * i)
        t.add_demand_site(DemandSite(GeoLocation(latitude=lat, longitude=lon), num_sites=num, demand=amount, connected_sites=[sites[k] for k in who]))
    x = c["capex"]
    params = OptimizerParams(device_list=devs, pop_site_capex=x["pop_site"], dn_site_capex=x["dn_site"], cn_site_capex=x["cn_site"], **c["extra"], **more)
    return sites, t, params


def place(s):
    return s.latitude, s.longitude, s.altitude


def pair(l):
    return frozenset((s.site_type.name, s.latitude, s.longitude) for s in (l.tx_site, l.rx_site))


def is_active(x):
    return x.status_type.name in ACTIVE


def counts(t):
    """Every count of the report, by going through the network."""
    out = {}
    places = defaultdict(set)
    active = Counter()
    for s in t.sites.values():
        kind = s.site_type.name.lower()
        places[kind].add(place(s))
        active[kind] += is_active(s)
    hops = distances(pops(t, FILTERS["reachable"]), edges(t, FILTERS["reachable"]))
    for kind in ("pop", "dn", "cn"):
        out[f"total_{kind}_sites"] = len(places[kind])
        out[f"active_{kind}_sites"] = active[kind]
        out[f"active_demand_connected_{kind}_sites"] = len({s.site_id for d in t.demand_sites.values() for s in d.connected_sites if s.site_type.name.lower() == kind and is_active(s)})
        if kind != "pop":
            out[f"connectable_{kind}_sites"] = len({place(s) for s in t.sites.values() if s.site_type.name.lower() == kind and s.site_id in hops})
    out["total_sites"] = sum(len(v) for v in places.values())
    out["active_sites"] = sum(active.values())
    for who, f in (("active", is_active), ("total", lambda x: True)):
        secs = [x for x in t.sectors.values() if f(x)]
        cn = [x for x in secs if x.site.site_type == SiteType.CN]
        dn = [x for x in secs if x.site.site_type != SiteType.CN]
        out[f"{who}_sectors"] = len(secs)
        for name, xs in (("nodes", secs), ("cn_nodes", cn), ("dn_nodes", dn)):
            out[f"{who}_{name}"] = len({(x.site.site_id, x.node_id) for x in xs})
        if who == "active":
            out["active_cn_sectors"] = len(cn)
            out["active_dn_sectors_on_pops"] = sum(1 for x in dn if x.site.site_type == SiteType.POP)
            out["active_dn_sectors_on_dns"] = sum(1 for x in dn if x.site.site_type == SiteType.DN)
        links = [l for l in t.links.values() if f(l)]
        out[f"{who}_wired_links"] = len({pair(l) for l in links if not l.is_wireless})
        out[f"{who}_access_links"] = len({pair(l) for l in links if l.is_wireless and SiteType.CN in (l.tx_site.site_type, l.rx_site.site_type)})
        out[f"{who}_backhaul_links"] = len({pair(l) for l in links if l.is_wireless and SiteType.CN not in (l.tx_site.site_type, l.rx_site.site_type)})
    return out


def backups(t, usable):
    """Active clients with more than one link from an active sector."""
    got = Counter(l.rx_site.site_id for l in wireless(t) if l.rx_site.site_type == SiteType.CN and is_active(l.rx_site) and l.tx_sector is not None and is_active(l.tx_sector) and (not usable or l.status_type.name in ACTIVE + ("CANDIDATE",)))
    return sum(1 for v in got.values() if v > 1)


def costs(c, t, which):
    """Price of all radio nodes and sites with the given statuses."""
    x = c["capex"]
    total = 0.0
    for s in t.sites.values():
        kind, dev = s.site_type.name.lower(), s.device.device_sku
        if s.status_type.name in which:
            total += x[f"{kind}_site"]
        nodes = {z.node_id for z in t.sectors.values() if z.site is s and z.status_type.name in which}
        total += len(nodes) * (x["dn"] if dev[0] == "D" else x["cn"])[int(dev[1])]
    return total


@CHECK.sub("components", plans, 2500, 60000, "some elements are active and others not", hang_s=15)
def components(c, ctx):
    """Sites, sectors, nodes and links counted one by one."""
    sites, t, params = build(c)
    before = topo.snapshot(t)
    got, skus, channels = count_topology_components(t)
    require(topo.snapshot(t) == before, "counting changed the network")
    for k, v in counts(t).items():
        require(getattr(got, k) == v, "a count is not the number of such elements", which=k, got=getattr(got, k), want=v)
    require(backups(t, True) <= got.active_cns_with_backup_dns <= backups(t, False), "the number of clients with a second link is wrong", got=got.active_cns_with_backup_dns, want=backups(t, True))
    want = Counter(s.device.device_sku for s in t.sites.values() if is_active(s))
    require({k: v for k, v in skus.items() if v} == dict(want), "the number of active sites per device is wrong", got=skus, want=dict(want))
    seen = {frozenset((l.tx_site.site_id, l.rx_site.site_id)): l.tx_sector.channel for l in wireless(t) if is_active(l)}
    require({k: v for k, v in channels.items() if v} == dict(Counter(seen.values())), "the number of active wireless links per channel is wrong", got=channels, want=dict(Counter(seen.values())))
    ctx.nontrivial(0 < got.active_sites < got.total_sites and got.active_backhaul_links + got.active_access_links > 0)
    if len({place(s) for s in sites}) < len(sites):
        ctx.label("shared place")


@CHECK.sub("capex", plans, 2500, 60000, "proposed and existing equipment with a price", hang_s=15)
def capex(c, ctx):
    """Cost of the plan, priced element by element."""
    sites, t, params = build(c)
    before = topo.snapshot(t)
    got = compute_capex(t, params)
    require(topo.snapshot(t) == before, "pricing changed the network")
    require_close(got.proposed_capex, costs(c, t, ("PROPOSED",)), "cost of the proposed equipment", rel=1e-9, abs_=1e-6)
    require_close(got.total_capex, costs(c, t, ACTIVE), "cost of all active equipment", rel=1e-9, abs_=1e-6)
    ctx.nontrivial(0 < got.proposed_capex < got.total_capex)
