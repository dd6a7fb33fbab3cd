"""P23: interference between active links, and the rates that remain."""
import itertools
import math

import hypothesis.strategies as st

from checks.p05 import reference
from checks.p06 import curve, curves
from checks.p18 import bearing, ground, turn, wireless
from checks.p19 import pattern_gains, radios
from harness import topo
from harness.core import Check, require, require_close
from harness.gen import fl
from terragraph_planner.common.configuration.configs import OptimizerParams
from terragraph_planner.common.configuration.enums import PolarityType, SiteType, StatusType
from terragraph_planner.common.structs import MCSMap
from terragraph_planner.common.topology_models.sector import Sector
from terragraph_planner.optimization.constants import MAX_LINK_BUDGET_ITERATIONS
from terragraph_planner.optimization.topology_interference import analyze_interference, compute_link_interference, compute_link_rsl_map
from terragraph_planner.optimization.topology_operations import update_link_caps_with_sinr
from terragraph_planner.optimization.topology_preparation import add_link_capacities

CHECK = Check("P23")
CHECK.assumptions = [
    "a sector sends to one of its links at a time, so it interferes with the mean of the powers (in milliwatts) of the active, non-redundant links it may be using then",
    "a sector's power towards the sector an interfered link comes from does not count, as that one cannot receive while it sends",
    "angles within 0.02 degrees of half a degree of an antenna table may use either entry",
    "a client's polarity is opposite to that of the site it is served from; with several of different polarity it is unknown, and an unknown polarity or channel always interferes",
    "active links have sectors at both ends, as is checked before planning",
    "rates are compared for links not within 1e-4 dB of a threshold",
]
ACTIVE = ("PROPOSED", "EXISTING")


@st.composite
def clusters(draw):
    """Sites close together, many links per sector, mostly active."""
    n = draw(st.integers(3, 8))
    pts, sites = [], []
    spread = draw(st.sampled_from([60.0, 150.0, 250.0]))
    statuses = draw(st.sampled_from([["PROPOSED"], ["PROPOSED", "EXISTING"], ["PROPOSED", "PROPOSED", "EXISTING", "CANDIDATE", "UNAVAILABLE", "UNREACHABLE"]]))
    alts = draw(st.sampled_from([[10.0], [5.0, 30.0, 60.0], [10.0, None]]))
    for i in range(n):
        sites.append(dict(t=draw(st.sampled_from(["POP", "DN", "DN", "DN", "CN"])) if i else "POP", x=draw(fl(-spread, spread, 200)), y=draw(fl(-spread, spread, 200)), st=draw(st.sampled_from(statuses)), alt=draw(st.sampled_from(alts)), dev=draw(st.integers(0, 1))))
    keep = draw(st.integers(1, 3))
    link = draw(st.sampled_from([["PROPOSED"], ["PROPOSED", "EXISTING"], ["PROPOSED", "PROPOSED", "EXISTING", "CANDIDATE", "CANDIDATE", "UNAVAILABLE"]]))
    links = [(a, b, draw(st.sampled_from(link)), draw(st.integers(0, 9)) > 0) for a, b in itertools.combinations(range(n), 2) if draw(st.integers(0, 3)) <= keep]
    radio = []
    for _ in range(4):
        r = draw(radios())
        r["params"]["antenna_boresight_gain"] = draw(st.sampled_from([20.0, 28.0]))
        r["antenna"] = draw(st.one_of(st.none(), st.tuples(curves, curves)))
        r["steps"] = draw(st.sampled_from([0.0, 0.3, 0.7, 0.25]))
        radio.append(r)
    return dict(
        sites=sites, links=links, radios=radio,
        project=dict(thermal_noise_power=draw(fl(-90, -70, 400)), noise_figure=draw(fl(0, 12, 120)), carrier_frequency=draw(st.sampled_from([60480.0, 58320.0])), rain_rate=draw(st.sampled_from([0.0, 30.0])), link_availability_percentage=99.9),
        eirp=draw(st.one_of(st.none(), st.none(), fl(20, 60, 80))),
        sectors=[[draw(fl(0, 360, 720)) for _ in range(draw(st.integers(1, 2)))] for _ in range(n)],
        polarity=[draw(st.sampled_from("OOEEU" if draw(st.integers(0, 4)) == 0 else "OE")) for _ in range(n)],
        channels=draw(st.sampled_from([[0], [0, 1], [0, 0, 1, -1]])),
        pick=[draw(st.integers(0, 11)) for _ in range(30)],
    )


POL = {"O": PolarityType.ODD, "E": PolarityType.EVEN, "U": PolarityType.UNASSIGNED}


def build(c):
    devs = []
    for i, r in enumerate(c["radios"]):
        d = topo.device(f"{'DC'[i // 2]}{i}", "DN" if i < 2 else "CN", 4 if i < 2 else None, **dict(r["params"], **c["project"]))
        d.sector_params.mcs_map = [MCSMap(mcs=m, snr=s + r["steps"], mbps=b, tx_backoff=o) for m, s, b, o in r["rows"]]
        if r["scan"]:
            hs, vs, vals = r["scan"]
            d.sector_params.scan_pattern_data = {float(h): {float(v): vals[(i2 * len(vs) + j) % 15] for j, v in enumerate(vs)} for i2, h in enumerate(hs)}
        if r["antenna"]:
            h, v = r["antenna"]
            d.sector_params.antenna_pattern_data = {"main": [[-x for x in curve(h)], [-x for x in curve(v)]]}
        devs.append(d)
    sites = topo.sites_of(c["sites"], devs[:2], devs[2:])
    t = topo.topology_of(sites, c["links"])
    pick = itertools.cycle(c["pick"])
    secs = {}
    for site, az, pol in zip(sites, c["sectors"], c["polarity"]):
        if site.site_type == SiteType.CN:
            az = az[:1]
        else:
            site._polarity = POL[pol]
        status = site.status_type
        for k, a in enumerate(az):
            s = Sector(site, k, 0, a, StatusType.CANDIDATE if next(pick) == 0 and status == StatusType.PROPOSED else status)
            s.channel = c["channels"][next(pick) % len(c["channels"])]
            t.add_sector(s)
            secs.setdefault(site.site_id, []).append(s)
    seen = set()
    for l in wireless(t):
        if l.link_id in seen or (next(pick) == 1 and l.status_type.name not in ACTIVE):
            continue
        a, b = (secs[x.site_id][next(pick) % len(secs[x.site_id])] for x in (l.tx_site, l.rx_site))
        rev = t.get_link_by_site_ids(l.rx_site.site_id, l.tx_site.site_id)
        for m, x, y in ((l, a, b), (rev, b, a)):
            if m is not None:
                m.tx_sector, m.rx_sector = x, y
                seen.add(m.link_id)
    for l in wireless(t):
        if next(pick) == 2:
            l.is_redundant = True
    params = OptimizerParams(device_list=devs, maximum_eirp=c["eirp"], **c["project"])
    return devs, sites, t, params


def length(l):
    d = ground(l.tx_site, l.rx_site)
    a1, a2 = l.tx_site.altitude, l.rx_site.altitude
    return d if a1 is None or a2 is None else math.hypot(d, a2 - a1)


def slope(l):
    a1, a2, d = l.tx_site.altitude, l.rx_site.altitude, length(l)
    return 0.0 if a1 is None or a2 is None or d == 0 else math.degrees(math.asin((a2 - a1) / d))


def degrees_near(a):
    lo = math.floor(a)
    f = a - lo
    return [lo % 360] if f < 0.48 else [(lo + 1) % 360] if f > 0.52 else [lo % 360, (lo + 1) % 360]


def table_range(radio, az, el):
    """Least and greatest gain of the antenna table at two angles."""
    if not radio["antenna"]:
        return 0.0, 0.0
    h, v = (curve(x) for x in radio["antenna"])
    vals = [-h[i] - v[j] for i in degrees_near(az) for j in degrees_near(el)]
    return min(vals), max(vals)


def path_gain(c, index, l):
    """Net gain along a link without any pattern."""
    rt, rr = c["radios"][index[l.tx_site.device.device_sku]], c["radios"][index[l.rx_site.device.device_sku]]
    ft, fr = dict(rt["params"], **c["project"]), dict(rr["params"], **c["project"])
    return reference(length(l), 0.0, ft, fr, [])[5], rt, rr


def polarity_of(t, site):
    if site.site_type != SiteType.CN:
        return site.polarity.name
    got = {dict(ODD="EVEN", EVEN="ODD").get(l.tx_site.polarity.name, "UNASSIGNED") for l in t.links.values() if l.rx_site is site and l.status_type.name in ACTIVE}
    return got.pop() if len(got) == 1 else "UNASSIGNED"


def reference_interference(c, index, t):
    """Least and greatest interference power (mW) of every interfered link."""
    ws = [l for l in wireless(t) if l.tx_sector is not None and l.rx_sector is not None]
    active = [l for l in ws if l.status_type.name in ACTIVE]
    out = {}
    for p in ws:
        if not all(x.status_type.name in ACTIVE for x in (p.tx_sector, p.rx_sector, p.tx_site, p.rx_site)):
            continue
        a, b = polarity_of(t, p.tx_site), polarity_of(t, p.rx_site)
        if a == b and a != "UNASSIGNED":
            continue
        if p.tx_sector.channel != p.rx_sector.channel and -1 not in (p.tx_sector.channel, p.rx_sector.channel):
            continue
        base = None
        for hit in active:
            if hit.rx_sector is not p.rx_sector or hit.tx_sector is p.tx_sector:
                continue
            lows, highs = [], []
            for l in active:
                if l.tx_sector is not p.tx_sector or l.rx_sector is p.rx_sector or l.rx_sector is hit.tx_sector or l.is_redundant:
                    continue
                if base is None:
                    base, rt, rr = path_gain(c, index, p)
                g1 = table_range(rt, turn(bearing(p.tx_site, p.rx_site), bearing(l.tx_site, l.rx_site)), slope(p) - slope(l))
                g2 = table_range(rr, turn(bearing(p.rx_site, p.tx_site), bearing(hit.rx_site, hit.tx_site)), -(slope(p) - slope(hit)))
                lows.append(10 ** ((l.tx_power + base + g1[0] + g2[0]) / 10))
                highs.append(10 ** ((l.tx_power + base + g1[1] + g2[1]) / 10))
            if lows:
                lo, hi = out.get(hit.link_id, (0.0, 0.0))
                out[hit.link_id] = (lo + sum(lows) / len(lows), hi + sum(highs) / len(highs))
    return out


def noise_of(c, index, l):
    return c["project"]["noise_figure"] + c["project"]["thermal_noise_power"]


def check_sinr(c, index, t, ctx=None):
    """Every active link's ratio against the summation, with its present powers."""
    ref = reference_interference(c, index, t)
    for l in wireless(t):
        if l.status_type.name not in ACTIVE:
            continue
        if l.rsl_dbm == -math.inf:
            require(l.sinr_dbm == -math.inf, "a link that receives nothing has a noise ratio", link=l.link_id)
            continue
        n = 10 ** (noise_of(c, index, l) / 10)
        lo, hi = ref.get(l.link_id, (0.0, 0.0))
        most, least = l.rsl_dbm - 10 * math.log10(n + lo * 0.999999), l.rsl_dbm - 10 * math.log10(n + hi * 1.000001)
        require(least - 1e-6 <= l.sinr_dbm <= most + 1e-6, "a link's noise ratio is not that of its interferers", link=l.link_id, got=l.sinr_dbm, least=least, most=most, interferers=l.link_id in ref)
        if ctx is not None and hi > 0.05 * n:
            ctx.nontrivial()
    return ref


@CHECK.sub("sum", clusters, 1500, 40000, "interference on some link exceeds a twentieth of the noise", hang_s=30)
def summation(c, ctx):
    """Interference with all powers as given, summed independently; a further transmitter only adds to it."""
    devs, sites, t, params = build(c)
    index = {d.device_sku: i for i, d in enumerate(devs)}
    add_link_capacities(t, params, with_deviation=True)
    before = topo.snapshot(t)
    for l in wireless(t):  # inactive links keep what they have
        if l.status_type.name not in ACTIVE:
            l.sinr_dbm = 4.25
    analyze_interference(t)
    require(topo.snapshot(t) == before, "computing interference changed the network")
    require(all(l.sinr_dbm == 4.25 for l in wireless(t) if l.status_type.name not in ACTIVE), "computing interference changed an inactive link")
    ref = check_sinr(c, index, t, ctx)
    got = compute_link_rsl_map(t)
    require({k for k, v in got.items() if v > 0} == {k for k, v in ref.items() if v[1] > 0}, "other links are interfered with", got=len(got), want=len(ref))
    # a further transmitter
    idle = [l for l in wireless(t) if l.tx_sector is not None and l.status_type == StatusType.CANDIDATE and l.rx_site.site_type != SiteType.CN and l.tx_sector.status_type.name in ACTIVE
            and not any(m.tx_sector is l.tx_sector and m.status_type.name in ACTIVE for m in wireless(t))]
    if idle:
        l = idle[c["pick"][0] % len(idle)]
        ctx.label("further transmitter")
        old = {m.link_id: m.sinr_dbm for m in wireless(t) if m.status_type.name in ACTIVE}
        l._status_type = StatusType.PROPOSED
        analyze_interference(t)
        for k, v in old.items():
            require(t.links[k].sinr_dbm <= v + 1e-9, "a further transmitter raised a link's noise ratio", link=k, before=v, after=t.links[k].sinr_dbm)


@CHECK.sub("candidates", clusters, 600, 15000, "some link is on sectors with an antenna table", hang_s=30)
def candidates(c, ctx):
    """Interference levels used while planning: full power, off the sectors' boresights."""
    devs, sites, t, params = build(c)
    index = {d.device_sku: i for i, d in enumerate(devs)}
    got = compute_link_interference(t, c["eirp"])
    require(set(got) == {(l.tx_site.site_id, l.rx_site.site_id) for l in t.links.values()}, "some link has no interference level")
    for l in t.links.values():
        v = got[(l.tx_site.site_id, l.rx_site.site_id)]
        if not l.is_wireless or l.tx_sector is None:
            require(v == -math.inf, "a link without sectors interferes", level=v)
            continue
        base, rt, rr = path_gain(c, index, l)
        f = rt["params"]
        p = f["maximum_tx_power"] if c["eirp"] is None else min(f["maximum_tx_power"], c["eirp"] - f["antenna_boresight_gain"] - f["tx_diversity_gain"])
        if f["minimum_tx_power"] is not None:
            p = max(p, f["minimum_tx_power"])
        g1 = table_range(rt, turn(bearing(l.tx_site, l.rx_site), l.tx_sector.ant_azimuth), slope(l))
        g2 = table_range(rr, turn(bearing(l.rx_site, l.tx_site), l.rx_sector.ant_azimuth), -slope(l))
        ctx.nontrivial(bool(rt["antenna"]) and len(t.links) > 2)
        require(p + base + g1[0] + g2[0] - 1e-4 <= v <= p + base + g1[1] + g2[1] + 1e-4, "a link's interference level is not that of its radios", link=l.link_id, got=v, least=p + base + g1[0] + g2[0], most=p + base + g1[1] + g2[1])


@CHECK.sub("rates", clusters, 1200, 30000, "interference lowers the rate of some active link", hang_s=30)
def rates(c, ctx):
    """Rates and powers once interference is accounted for."""
    devs, sites, t, params = build(c)
    index = {d.device_sku: i for i, d in enumerate(devs)}
    add_link_capacities(t, params, with_deviation=True)
    plain = {k: (l.mcs_level, l.capacity, l.rsl_dbm - l.tx_power if l.is_wireless and l.tx_sector is not None else None, l.tx_power) for k, l in t.links.items()}
    before = topo.snapshot(t)
    update_link_caps_with_sinr(t, params, [MAX_LINK_BUDGET_ITERATIONS, MAX_LINK_BUDGET_ITERATIONS, 1, 3][c["pick"][1] % 4])
    require(topo.snapshot(t) == before, "accounting for interference changed the network")
    check_sinr(c, index, t)
    interfered = reference_interference(c, index, t)
    for l in t.links.values():
        lvl, cap, gain, power = plain[l.link_id]
        if not l.is_wireless:
            require((l.mcs_level, l.capacity) == (lvl, cap), "accounting for interference changed a wired link")
            continue
        if l.tx_sector is None:
            require(l.capacity == 0 and l.mcs_level == 0, "a link without sectors carries traffic", capacity=l.capacity)
            continue
        rows = c["radios"][index[l.rx_site.device.device_sku]]
        table = {m: (s + rows["steps"], mbps / 1000, back) for m, s, mbps, back in rows["rows"]}
        require(l.capacity == (table[l.mcs_level][1] if l.mcs_level else 0), "a link's capacity is not that of its rate", level=l.mcs_level, capacity=l.capacity)
        require(l.mcs_level <= lvl and l.capacity <= cap + 1e-12, "a link is faster after interference than before", link=l.link_id, before=lvl, after=l.mcs_level, status=l.status_type.name)
        if l.status_type.name not in ACTIVE:
            require((l.mcs_level, l.capacity) == (lvl, cap), "accounting for interference changed an inactive link", before=lvl, after=l.mcs_level)
            continue
        f = c["radios"][index[l.tx_site.device.device_sku]]["params"]
        top = f["maximum_tx_power"] if c["eirp"] is None else min(f["maximum_tx_power"], c["eirp"] - f["antenna_boresight_gain"] - f["tx_diversity_gain"])
        low = f["minimum_tx_power"]
        if low is not None:
            top = max(top, low)
        if l.mcs_level:
            need = table[l.mcs_level][0]
            require(l.sinr_dbm >= need - 1e-4, "a link runs at a rate its noise ratio does not allow", link=l.link_id, level=l.mcs_level, ratio=l.sinr_dbm, needed=need)
            require(l.tx_power <= top - table[l.mcs_level][2] + 1e-6, "a link sends with more power than its rate allows", link=l.link_id, power=l.tx_power, allowed=top - table[l.mcs_level][2])
            require(low is None or l.tx_power >= low - 1e-9, "a link sends with less power than the radio can", power=l.tx_power, least=low)
            require_close(l.rsl_dbm, l.tx_power + gain, "received power", abs_=1e-6)
            require_close(l.snr_dbm, l.rsl_dbm - noise_of(c, index, l), "noise ratio without interference", abs_=1e-6)
            require(l.sinr_dbm <= l.snr_dbm + 1e-6, "interference raised a link's noise ratio", ratio=l.sinr_dbm, without=l.snr_dbm)
        require(not any(math.isnan(x) for x in (l.rsl_dbm, l.snr_dbm, l.sinr_dbm, l.tx_power)), "a link's budget is not a number", link=l.link_id)
        if l.link_id not in interfered:
            # at full power without any interferer the rate is that of the plain budget
            require(l.mcs_level == lvl or lvl == 0, "a link without interferers has another rate than its plain budget", link=l.link_id, before=lvl, after=l.mcs_level)
        else:
            ctx.nontrivial(l.mcs_level < lvl)
