"""P19: deployment rules, capacities before planning and refusal of inconsistent networks."""
import itertools
import math

import hypothesis.strategies as st

from checks.p05 import reference
from checks.p18 import bearing, build, ground, networks, turn, wireless
from harness import topo
from harness.core import Check, require, require_close
from harness.gen import fl
from terragraph_planner.common.configuration.configs import OptimizerParams
from terragraph_planner.common.configuration.enums import LinkType, SiteType, StatusType
from terragraph_planner.common.exceptions import OptimizerException, PlannerException, TopologyException
from terragraph_planner.common.topology_models.link import Link
from terragraph_planner.common.topology_models.sector import Sector
from terragraph_planner.common.structs import MCSMap
from terragraph_planner.optimization.deployment_rules import find_angle_violating_link_pairs, find_sector_limit_violations, get_violating_link_ids
from terragraph_planner.optimization.topology_optimization import pre_opt_check
from terragraph_planner.optimization.topology_preparation import add_link_capacities, prepare_topology_for_optimization, setup_node_structure, validate_topology_status

CHECK = Check("P19")
CHECK.assumptions = [
    "two links within 0.05 degrees or a relative 1e-4 of a limit may be judged either way",
    "links at the edge of a whole degree of a scan pattern may use either entry; links within 1e-6 dB of a rate threshold are not judged",
    "rates, rain and noise follow the reference formulas of P05",
]
ACTIVE = ("PROPOSED", "EXISTING")
STATUS = ["CANDIDATE", "PROPOSED", "EXISTING", "UNAVAILABLE", "UNREACHABLE"]


@st.composite
def stars(draw):
    """A hub or two with many neighbours on close bearings."""
    n = draw(st.integers(3, 9))
    sites = [dict(t=draw(st.sampled_from(["POP", "DN"])), x=0.0, y=0.0, st="PROPOSED")]
    for i in range(n):
        o = sites[0] if i == 0 or draw(st.integers(0, 3)) else draw(st.sampled_from(sites))
        d = draw(st.one_of(fl(10, 300), st.sampled_from([50.0, 100.0, 150.0, 300.0])))
        a = math.radians(draw(st.one_of(fl(0, 360), fl(0, 60), st.sampled_from([0.0, 10.0, 25.0, 45.0, 355.0, 320.0]))))
        sites.append(dict(t=draw(st.sampled_from(["POP", "DN", "DN", "CN"])), x=o["x"] + d * math.sin(a), y=o["y"] + d * math.cos(a), st=draw(st.sampled_from(["PROPOSED", "PROPOSED", "EXISTING", "CANDIDATE"])), dev=draw(st.integers(0, 1))))
    pairs = [(0, j) for j in range(1, n + 1)] + [p for p in itertools.combinations(range(1, n + 1), 2) if draw(st.integers(0, 2)) == 0]
    links = [(a, b, draw(st.sampled_from(["PROPOSED", "PROPOSED", "PROPOSED", "EXISTING", "CANDIDATE"])), draw(st.integers(0, 7)) > 0) for a, b in pairs]
    lat0, lon0 = draw(st.sampled_from([(45.0, 3.0), (-33.5, 151.0), (64.0, -21.0), (0.0, 0.0)]))
    return dict(sites=sites, links=links, lat0=lat0, lon0=lon0, sectors=[[draw(fl(0, 360)) for _ in range(draw(st.integers(1, 3)))] for _ in range(n + 1)], pick=[draw(st.integers(0, 5)) for _ in range(40)],
                assigned=draw(st.integers(0, 3)) > 0, channels=draw(st.integers(1, 2)),
                diff=draw(st.one_of(fl(0, 90), st.sampled_from([0.0, 10.0, 25.0, 180.0]))), near=draw(st.one_of(fl(0, 120), st.sampled_from([0.0, 45.0, 180.0]))), ratio=draw(st.one_of(fl(0.5, 4), st.sampled_from([1.0, 2.0, 3.0]))),
                dn_limit=draw(st.integers(1, 3)), total_limit=draw(st.integers(3, 5)) - draw(st.integers(0, 2)))


DNS = [topo.device("D1", "DN", 4), topo.device("D2", "DN", 4)]
CNS = [topo.device("C1", "CN"), topo.device("C2", "CN")]


def place(c):
    """Sites, links and sectors with every link on some sector of its ends."""
    sites = topo.sites_of(c["sites"], DNS, CNS, c["lat0"], c["lon0"])
    t = topo.topology_of(sites, c["links"])
    pick = itertools.cycle(c["pick"])
    secs = {}
    for site, az in zip(sites, c["sectors"]):
        if site.site_type == SiteType.CN:
            az = az[:1]
        st_ = {"CANDIDATE": StatusType.CANDIDATE}.get(site.status_type.name, StatusType.PROPOSED if site.status_type == StatusType.PROPOSED else StatusType.EXISTING)
        if site.status_type in StatusType.active_status() and next(pick) == 0:
            st_ = StatusType.CANDIDATE
        for k, a in enumerate(az):
            s = Sector(site, k, 0, a, st_)
            s.channel = next(pick) % c["channels"]
            t.add_sector(s)
            secs.setdefault(site.site_id, []).append(s)
    if c["assigned"]:
        done = set()
        for l in wireless(t):
            if l.link_id in done:
                continue
            a, b = secs[l.tx_site.site_id][next(pick) % len(secs[l.tx_site.site_id])], secs[l.rx_site.site_id][next(pick) % len(secs[l.rx_site.site_id])]
            rev = t.get_link_by_site_ids(l.rx_site.site_id, l.tx_site.site_id)
            for m, x, y in ((l, a, b), (rev, b, a)):
                if m is not None:
                    m.tx_sector, m.rx_sector = x, y
                    done.add(m.link_id)
    return sites, t


def judge_pair(l1, l2, c):
    """Which list a pair belongs in, and whether that is beyond doubt."""
    ang = abs(turn(bearing(l1.tx_site, l1.rx_site), bearing(l2.tx_site, l2.rx_site)))
    d1, d2 = ground(l1.tx_site, l1.rx_site), ground(l2.tx_site, l2.rx_site)
    ratio = max(d1, d2) / min(d1, d2)
    sure = abs(ang - c["diff"]) > 0.05 and (ang <= c["diff"] or (abs(ang - c["near"]) > 0.05 and (ang > c["near"] or abs(ratio - c["ratio"]) > 1e-4 * ratio)))
    if ang <= c["diff"]:
        return "diff", sure
    if ang <= c["near"] and ratio >= c["ratio"]:
        return "near", sure
    return None, sure


@CHECK.sub("pairs", stars, 1500, 40000, "at least one pair violates and one does not, all beyond doubt", hang_s=20)
def pairs(c, ctx):
    """Link pairs breaking the angle rules, and the links named for them, by brute force."""
    sites, t = place(c)
    before = topo.snapshot(t)
    for active in (False, True):
        use = [l for l in wireless(t) if not active or l.status_type.name in ACTIVE]
        if not c["assigned"]:
            use = []
        want, maybe, fine = {}, set(), 0
        for l1, l2 in itertools.combinations(use, 2):
            if l1.tx_site is not l2.tx_site or l1.tx_sector is l2.tx_sector:
                continue
            if active and l1.tx_sector.channel != l2.tx_sector.channel:
                continue
            key = (l1.tx_site.site_id, *sorted((l1.rx_site.site_id, l2.rx_site.site_id)))
            kind, sure = judge_pair(l1, l2, c)
            if not sure:
                maybe.add(key)
            elif kind:
                want[key] = kind
            else:
                fine += 1
        got = find_angle_violating_link_pairs(t, c["diff"], c["near"], c["ratio"], active_components=active)
        lists = {"diff": list(got.diff_sector_list), "near": list(got.near_far_list)}
        for kind, ls in lists.items():
            require(len(set(ls)) == len(ls), "a pair of links is listed twice", kind=kind)
            for key in ls:
                require(key in maybe or want.get(key) == kind, "a pair of links is listed without breaking that rule", pair=key, listed=kind, really=want.get(key))
        for key, kind in want.items():
            require(key in lists[kind], "a pair of links that breaks a rule is not listed", pair=key, rule=kind, active=active)
        ctx.nontrivial(bool(want) and fine > 0)
        for kind, ls in lists.items():
            ids = set()
            for i, j, k in ls:
                for a, b in ((i, j), (i, k), (j, i), (k, i)):
                    l = t.get_link_by_site_ids(a, b)
                    if l is not None:
                        ids.add(l.link_id)
            require(get_violating_link_ids(t, ls) == ids, "the links named for the violating pairs are others")
    require(topo.snapshot(t) == before, "looking for violations changed the network")


@CHECK.sub("limits", stars, 1200, 30000, "some sector exceeds a limit and another with links does not", hang_s=20)
def limits(c, ctx):
    """Sectors with too many links, counted one by one."""
    c = dict(c, assigned=True)
    sites, t = place(c)
    dn, total = min(c["dn_limit"], c["total_limit"]), c["total_limit"]
    got = find_sector_limit_violations(t, dn, total)
    want, ok = {}, 0
    for s in t.sectors.values():
        if s.site.site_type == SiteType.CN or s.status_type.name not in ACTIVE:
            continue
        mine = [l for l in wireless(t) if l.tx_sector is s]
        act = [l for l in mine if l.status_type.name in ACTIVE]
        if len(act) > total or sum(1 for l in act if l.rx_site.site_type != SiteType.CN) > dn:
            want[s.sector_id] = {l.rx_sector.sector_id for l in mine if l.rx_sector.status_type.name in ACTIVE}
        elif act:
            ok += 1
    require(set(got) == set(want), "the sectors with too many links are others", got=sorted(got), want=sorted(want))
    for k, v in got.items():
        require(set(v) <= want[k] | {l.rx_sector.sector_id for l in t.links.values() if l.tx_sector and l.tx_sector.sector_id == k}, "a sector named for a limit is not at the other end")
    ctx.nontrivial(bool(want) and ok > 0)


@st.composite
def radios(draw):
    scan = draw(st.booleans())
    return dict(
        params=dict(
            antenna_boresight_gain=draw(fl(15, 40)), maximum_tx_power=draw(fl(5, 30)), minimum_tx_power=draw(st.sampled_from([None, None, 0.0])),
            tx_diversity_gain=draw(st.sampled_from([0.0, 3.0])), rx_diversity_gain=draw(st.sampled_from([0.0, 2.0])), tx_miscellaneous_loss=draw(st.sampled_from([0.0, 1.5])), rx_miscellaneous_loss=draw(st.sampled_from([0.0, 2.5])),),
        rows=[[3 + i, 3.0 + 2.0 * i + draw(fl(0, 1)), [0, 67, 115, 260, 645, 1030][i] + draw(st.integers(0, 20)), [0, 0, 0, 2, 4, 6][i]] for i in range(6)],
        scan=[sorted(draw(st.lists(st.integers(-45, 45), min_size=3, max_size=5, unique=True))), sorted(draw(st.lists(st.integers(-30, 30), min_size=2, max_size=3, unique=True))), draw(st.lists(fl(0, 28), min_size=15, max_size=15))] if scan else None)


@st.composite
def radio_nets(draw):
    c = draw(networks(("CANDIDATE", "CANDIDATE", "PROPOSED", "UNAVAILABLE"), 6))
    c["own"] = [None] * len(c["own"])
    c["dns"] = [(min(n, 2), s, r) for n, s, r in c["dns"]]
    c["links"] = [(a, b, "CANDIDATE", w) for a, b, s, w in c["links"]]
    c["radios"] = [draw(radios()) for _ in range(4)]
    c["project"] = dict(thermal_noise_power=draw(fl(-90, -70)), noise_figure=draw(fl(0, 12)), carrier_frequency=draw(st.sampled_from([60480.0, 58320.0])), rain_rate=draw(st.sampled_from([0.0, 30.0])), link_availability_percentage=draw(st.sampled_from([99.0, 99.9])))
    c["eirp"] = draw(st.one_of(st.none(), fl(20, 60)))
    c["pop_capacity"] = draw(fl(0.5, 40))
    c["far"] = draw(st.sampled_from([1.0, 1.0, 2.0, 4.0]))
    for s in c["sites"]:
        s["x"] *= c["far"]
        s["y"] *= c["far"]
    return c


def dressed(c):
    """Devices with the radios of the case."""
    dns = [topo.device(f"D{i}", "DN", n, number_sectors_per_node=s, horizontal_scan_range=r, **c["radios"][i]["params"]) for i, (n, s, r) in enumerate(c["dns"])]
    cns = [topo.device(f"C{i}", "CN", None, horizontal_scan_range=r, number_sectors_per_node=s, **c["radios"][2 + i]["params"]) for i, (s, r) in enumerate(c["cns"])]
    for d, r in zip(dns + cns, c["radios"]):
        d.sector_params.mcs_map = [MCSMap(mcs=m, snr=s, mbps=b, tx_backoff=o) for m, s, b, o in r["rows"]]
        if r["scan"]:
            hs, vs, vals = r["scan"]
            d.sector_params.scan_pattern_data = {float(h): {float(v): vals[(i * len(vs) + j) % 15] for j, v in enumerate(vs)} for i, h in enumerate(hs)}
    return dns, cns


def pattern_gains(radio, az, el):
    """Possible off-beam losses of the scan pattern at the given angles."""
    if not radio["scan"]:
        return {0.0}
    hs, vs, vals = radio["scan"]
    top = max(vals[(i * len(vs) + j) % 15] for i in range(len(hs)) for j in range(len(vs)))

    def near(ks, x):
        d = min(abs(k - x) for k in ks)
        return [i for i, k in enumerate(ks) if abs(k - x) <= d + 1e-3]

    return {vals[(i * len(vs) + j) % 15] - top for i in near(hs, az) for j in near(vs, el)}


@CHECK.sub("capacity", radio_nets, 1000, 20000, "some wireless link carries a rate and another quantity (deviation, backoff, regulatory limit, missing sector) matters", hang_s=30)
def capacity(c, ctx):
    """Link budgets before and after sectors are final, from the reference formulas."""
    dns, cns = dressed(c)
    sites = topo.sites_of(c["sites"], dns, cns)
    t = topo.topology_of(sites, c["links"])
    params = OptimizerParams(device_list=dns + cns, maximum_eirp=c["eirp"], pop_capacity=c["pop_capacity"], enable_cn_demand=True, **c["project"])
    before = topo.snapshot(t)
    try:
        prepare_topology_for_optimization(t, params)
    except PlannerException as e:
        require(not any(s.site_type == SiteType.CN for s in sites), "a network with demand and without active links was refused", error=str(e))
        return
    after = topo.snapshot(t)
    require(before["sites"] == after["sites"], "preparing changed a site")
    require(set(before["links"]) == set(after["links"]) and all(after["links"][k][4:] == v[4:] for k, v in before["links"].items()), "preparing changed a link")
    index = {d.device_sku: i for i, d in enumerate(dns + cns)}
    for dev in (False, True):
        if dev:
            add_link_capacities(t, params, with_deviation=True)
        for l in t.links.values():
            b = l.link_budget
            if not l.is_wireless:
                require(b.capacity == c["pop_capacity"] and b.mcs_level == 0, "a wired link does not carry the source capacity", capacity=b.capacity)
                continue
            if l.tx_sector is None:
                require(b.capacity == 0 and b.mcs_level == 0, "a link without sectors carries traffic", link=l.link_id, budget=b)
                ctx.label("out of sector")
                continue
            rt, rr = c["radios"][index[l.tx_site.device.device_sku]], c["radios"][index[l.rx_site.device.device_sku]]
            ft, fr = dict(rt["params"], **c["project"]), dict(rr["params"], **c["project"])
            p = ft["maximum_tx_power"]
            if c["eirp"] is not None:
                p = min(p, c["eirp"] - ft["antenna_boresight_gain"] - ft["tx_diversity_gain"])
            if ft["minimum_tx_power"] is not None:
                p = max(p, ft["minimum_tx_power"])
            d = ground(l.tx_site, l.rx_site)
            a1, a2 = l.tx_site.altitude, l.rx_site.altitude
            el = 0.0
            if a1 is not None and a2 is not None:
                d = math.hypot(d, a2 - a1)
                el = math.degrees(math.asin((a2 - a1) / d)) if d > 0 else 0.0
            if d < 1:
                continue
            require_close(l.distance, d, "link-length", rel=1e-6, abs_=1e-5)
            if dev:
                g1 = pattern_gains(rt, turn(bearing(l.tx_site, l.rx_site), l.tx_sector.ant_azimuth), el)
                g2 = pattern_gains(rr, turn(bearing(l.tx_site, l.rx_site) + 180.0, l.rx_sector.ant_azimuth), -el if l.rx_site.site_type != SiteType.CN else 0.0)
            else:
                g1 = g2 = {0.0}
            if len(g1) * len(g2) > 4:
                continue
            fits = []
            for x in g1:
                for y in g2:
                    f = dict(ft, antenna_boresight_gain=ft["antenna_boresight_gain"] + x)
                    r = dict(fr, antenna_boresight_gain=fr["antenna_boresight_gain"] + y)
                    lvl, cap, power, rsl, snr, gain, margin = reference(d, p, f, r, rr["rows"])
                    fits.append((lvl, cap, power, rsl, snr, margin))
            if any(f[5] < 1e-4 for f in fits):
                continue
            good = [f for f in fits if f[0] == b.mcs_level and abs(f[1] - b.capacity) < 1e-9 and abs(f[2] - b.tx_power) < 1e-6 and abs(f[3] - b.rsl_dbm) < 1e-3 and abs(f[4] - b.snr_dbm) < 1e-3]
            require(good, "a link's budget is not that of its radios and sectors", link=l.link_id, with_deviation=dev, got=b, expected=fits)
            ctx.nontrivial(b.mcs_level > 0 and (len(t.links) > 2))
            if b.mcs_level > 0 and dev and rt["scan"]:
                ctx.label("deviation matters")


@st.composite
def statuses(draw):
    c = draw(networks(("CANDIDATE", "CANDIDATE", "PROPOSED", "EXISTING", "UNAVAILABLE", "UNREACHABLE"), 6))
    c["breaks"] = [(draw(st.sampled_from(["link", "link", "site", "sector", "drop", "unassign"])), draw(st.integers(0, 40)), draw(st.sampled_from(STATUS))) for _ in range(draw(st.sampled_from([0, 0, 1, 1, 2])))]
    c["lat0"], c["lon0"], c["channels"], c["assigned"] = 45.0, 3.0, 1, True
    c["sectors"] = [[draw(fl(0, 360)) for _ in range(draw(st.integers(1, 2)))] for _ in c["sites"]]
    c["pick"] = [draw(st.integers(0, 5)) for _ in range(10)]
    return c


@CHECK.sub("status", statuses, 2000, 50000, "a network with an active link, in which something was made inconsistent", hang_s=20)
def status(c, ctx):
    """Networks with conflicting statuses are refused and all others accepted."""
    sites = topo.sites_of(c["sites"], DNS, CNS)
    t = topo.topology_of(sites, c["links"])
    pick = itertools.cycle(c["pick"])
    secs = {}
    for site, az in zip(sites, c["sectors"]):
        for k, a in enumerate(az[:1] if site.site_type == SiteType.CN else az):
            s = Sector(site, k, 0, a, site.status_type)
            t.add_sector(s)
            secs.setdefault(site.site_id, []).append(s)
    for l in wireless(t):
        if l.tx_sector is None:
            a, b = (secs[x.site_id][next(pick) % len(secs[x.site_id])] for x in (l.tx_site, l.rx_site))
            rev = t.get_link_by_site_ids(l.rx_site.site_id, l.tx_site.site_id)
            for m, x, y in ((l, a, b), (rev, b, a)):
                if m is not None:
                    m.tx_sector, m.rx_sector = x, y
    for what, i, s in c["breaks"]:
        pool = dict(link=list(t.links.values()), site=sites, sector=list(t.sectors.values()), drop=list(t.links.values()), unassign=wireless(t))[what]
        if not pool:
            continue
        x = pool[i % len(pool)]
        if what == "drop":
            t.remove_link(x.link_id)
        elif what == "unassign":
            x.clear_sectors()
        else:
            x._status_type = StatusType[s]
    bad = grey = None
    for l in t.links.values():
        rev = t.get_link_by_site_ids(l.rx_site.site_id, l.tx_site.site_id)
        name = l.status_type.name
        ends = [l.tx_site.status_type.name, l.rx_site.status_type.name]
        secs_ = [s.status_type.name if s is not None else None for s in (l.tx_sector, l.rx_sector)]
        if rev is None:
            if not l.is_wireless or l.rx_site.site_type != SiteType.CN:
                bad = "one-way link between relays"  # or a wired link to a client, which has no way back
                continue
        problem = None
        if rev is not None and rev.status_type != l.status_type:
            problem = "two directions differ"
        if name == "EXISTING" and ends != ["EXISTING"] * 2:
            problem = "existing link between other sites"
        if name == "EXISTING" and l.is_wireless and secs_ != ["EXISTING"] * 2:
            problem = "existing link on other sectors"
        if name == "PROPOSED" and not all(e in ACTIVE for e in ends):
            problem = "active link between inactive sites"
        if name == "PROPOSED" and l.is_wireless and not all(e in ACTIVE for e in secs_):
            problem = "active link on inactive sectors"
        if name == "CANDIDATE" and any(e in ("UNAVAILABLE", "UNREACHABLE") for e in ends + secs_):
            problem = "candidate link at an unusable site"
        if problem and rev is None:
            grey = problem  # one-way links to clients are not looked at
        elif problem:
            bad = problem
    if grey and not bad:
        return
    try:
        validate_topology_status(t)
        got = True
    except TopologyException as e:
        got, why = False, str(e)
    ctx.label(bad or "good")
    ctx.nontrivial(bool(c["breaks"]) and any(l.status_type.name in ACTIVE for l in t.links.values()))
    require(got == (bad is None), "a network without conflicting statuses was refused" if bad is None else "a network with conflicting statuses was accepted", problem=bad, error=None if got else why)


@CHECK.sub("inputs", lambda: st.tuples(st.lists(st.sampled_from(["POP", "DN", "CN"]), min_size=1, max_size=4), st.integers(0, 2), st.booleans(), st.booleans(), st.booleans()), 400, 4000, "some input has no source or no demand", hang_s=20)
def inputs(c, ctx):
    """Planning without a source or without demand is refused."""
    kinds, extra, cn, uniform, manual = c
    if not (cn or uniform or manual):
        cn = True
    sites = topo.sites_of([dict(t=k, x=60.0 * i, y=0.0) for i, k in enumerate(kinds)], DNS, CNS)
    t = topo.topology_of(sites, [])
    params = OptimizerParams(device_list=DNS + CNS, number_of_extra_pops=extra, enable_cn_demand=cn, enable_uniform_demand=uniform, enable_manual_demand=manual, demand_spacing=50.0, demand_connection_radius=80.0)
    bad = ("POP" not in kinds and extra == 0) or (not uniform and not manual and "CN" not in kinds)
    try:
        pre_opt_check(t, params)
        got = True
    except OptimizerException:
        got = False
    ctx.nontrivial(bad)
    require(got == (not bad), "an input without source or demand was accepted" if bad else "a usable input was refused", kinds=kinds)
