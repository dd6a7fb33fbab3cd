"""P16: the candidate network contains exactly the feasible links."""
import collections
import math
import os

import hypothesis.strategies as st
import numpy as np
from shapely.geometry import Polygon

from harness import gis
from harness.core import Check, Discard, require
from harness.gen import fl
from terragraph_planner.common.configuration.configs import DeviceData, GISDataParams, LOSParams, SectorParams, SiteDetectionParams
from terragraph_planner.common.configuration.enums import DeviceType, LocationType, SiteType, StatusType
from terragraph_planner.common.data_io.topology_serializer import write_to_kml_file
from terragraph_planner.common.exceptions import PlannerException
from terragraph_planner.common.geos import GeoLocation
from terragraph_planner.common.rf.link_budget_calculator import fspl_based_estimation, get_max_tx_power
from terragraph_planner.common.structs import ValidLOS
from terragraph_planner.common.topology_models.link import Link
from terragraph_planner.common.topology_models.site import DetectedSite, Site
from terragraph_planner.common.topology_models.topology import Topology
from terragraph_planner.los.core import build_candidate_topology
from terragraph_planner.los.helper import get_los_topology, get_max_los_dist_for_device_pairs, infer_input_site_location

CHECK = Check("P16")
CHECK.assumptions = [
    "the range of a device pair is a whole number of metres: the first distance at which no traffic is carried",
    "a base topology and automatic site detection are never used together (refused by the configuration)",
    "link lengths and angles are those of the link objects (judged in P03)",
    "which of the equally well connected places on a building is taken, and the order in which buildings are settled, are not judged",
]
LAT0, LON0 = 45.0, 3.0
DEVS = [
    DeviceData(device_sku="DN-A", sector_params=SectorParams(), device_type=DeviceType.DN),
    DeviceData(device_sku="DN-B", sector_params=SectorParams(antenna_boresight_gain=20), device_type=DeviceType.DN),
    DeviceData(device_sku="CN-A", sector_params=SectorParams(), device_type=DeviceType.CN),
    DeviceData(device_sku="CN-B", sector_params=SectorParams(antenna_boresight_gain=20), device_type=DeviceType.CN),
]
DN, CN = DEVS[:2], DEVS[2:]


# ---------------------------------------------------------------- ranges


@st.composite
def radios(draw):
    def dev(kind, k):
        return dict(kind=kind, k=k, gain=draw(fl(0, 36)), power=draw(fl(0, 45)), low=draw(st.one_of(st.none(), st.none(), fl(-10, 0))), rain=draw(fl(0, 80)), avail=draw(st.sampled_from([99.9, 99.0, 99.99])),
                    noise=draw(fl(-90, -70)), nf=draw(fl(0, 10)), loss=draw(fl(0, 5)), freq=draw(st.sampled_from([60000.0, 60000.0, 28000.0, 5000.0])), mcs=draw(st.sampled_from([None, None, None, 2, 3, 9, 12])))

    devs = [dev("DN", k) for k in range(draw(st.integers(1, 2)))] + [dev("CN", k) for k in range(draw(st.integers(0, 2)))]
    return dict(devs=devs, eirp=draw(st.one_of(st.none(), fl(0, 60))), dn=draw(st.one_of(st.none(), st.integers(0, 13))), cn=draw(st.one_of(st.none(), st.integers(0, 13))),
                cap=draw(st.one_of(st.none(), st.integers(1, 400), st.integers(1, 20).map(lambda k: 500 * k))))


def make(d):
    kw = dict(antenna_boresight_gain=d["gain"], maximum_tx_power=d["power"], minimum_tx_power=None if d["low"] is None else min(d["low"], d["power"]), rain_rate=d["rain"],
              link_availability_percentage=d["avail"], thermal_noise_power=d["noise"], noise_figure=d["nf"], tx_miscellaneous_loss=d["loss"], carrier_frequency=d["freq"], minimum_mcs_level=d["mcs"])
    return DeviceData(device_sku=d["kind"] + str(d["k"]), sector_params=SectorParams(**kw), device_type=DeviceType[d["kind"]])


@CHECK.sub("ranges", radios, 700, 15000, "some pair's range is neither the cap nor less than 5 m")
def ranges(c, ctx):
    """Each pair's range is the first whole distance without traffic, shared by the two directions, within the cap."""
    try:
        devs = [make(d) for d in c["devs"]]
    except PlannerException:
        raise Discard()

    def mbps(tx, rx, dist):
        table = rx.sector_params.mcs_map
        low = c["dn"] if rx.device_type == DeviceType.DN else c["cn"]
        if low is not None:
            table = [row for row in table if row.mcs >= low]
        return fspl_based_estimation(
            distance=dist, max_tx_power=get_max_tx_power(tx.sector_params, c["eirp"]), tx_sector_params=tx.sector_params, rx_sector_params=rx.sector_params, mcs_snr_mbps_map=table,
            tx_deviation=0.0, rx_deviation=0.0, tx_el_deviation=0.0, rx_el_deviation=0.0, tx_scan_pattern_data=None, rx_scan_pattern_data=None).capacity

    dns = [d for d in devs if d.device_type == DeviceType.DN]
    empty = any((low := (c["dn"] if d.device_type == DeviceType.DN else c["cn"])) is not None and not [r for r in d.sector_params.mcs_map if r.mcs >= low] for d in devs)
    try:
        got = get_max_los_dist_for_device_pairs(devs, c["eirp"], c["dn"], c["cn"], c["cap"])
    except PlannerException as e:
        far = any(mbps(t, r, 10000) > 0 for t in dns for r in devs) if not empty else True
        require(empty or far, "ranges are refused", str(e))
        ctx.label("refused")
        return
    require(not empty, "an empty rate table is accepted")
    require(set(got) == {(t.device_sku, r.device_sku) for t in dns for r in devs}, "device pairs", sorted(got))
    interesting = False
    for t in dns:
        for r in devs:
            v = got[(t.device_sku, r.device_sku)]
            ways = [(t, r)] + ([(r, t)] if r.device_type == DeviceType.DN else [])
            require(v == int(v) and 0 <= v <= 10000, "range is not a whole distance", v)
            if c["cap"] is not None:
                require(v <= c["cap"], "range beyond the cap", (v, c["cap"]))
            if c["cap"] is None or v < c["cap"]:
                require(all(mbps(a, b, max(v, 1e-6)) == 0 for a, b in ways) or v == 0, "traffic is still carried at the end of the range", v)
                interesting = interesting or v >= 5
            require(v <= 1 or any(mbps(a, b, v - 1) > 0 for a, b in ways), "range reaches beyond the last distance with traffic", v)
            if r.device_type == DeviceType.DN:
                require(v == got[(r.device_sku, t.device_sku)], "range differs between the directions")
    ctx.nontrivial(interesting)


# ---------------------------------------------------------------- where input sites are


@st.composite
def inputs(draw):
    return dict(lat=LAT0 + draw(fl(-0.001, 0.001)), lon=LON0 + draw(fl(-0.001, 0.001)), alt=draw(st.one_of(st.none(), fl(-5, 60), st.just(0.0))), height=draw(st.one_of(st.none(), fl(-2, 30), st.just(0.0))),
                loc=draw(st.sampled_from(["ROOFTOP", "STREET_LEVEL", "UNKNOWN"])), type=draw(st.sampled_from(["POP", "DN", "CN"])), surf=draw(st.integers(0, 4)) > 0, terr=draw(st.booleans()),
                dz=draw(st.one_of(fl(-1, 8), st.sampled_from([2.0, 1.75, 2.25]))), base=draw(fl(-20, 300)), heights=[draw(fl(0, 12)) for _ in range(4)], void=draw(st.integers(0, 5)) == 0)


@CHECK.sub("placement", inputs, 1500, 30000, "the altitude has to be inferred from the surface")
def placement(c, ctx):
    """Altitude and kind of place of an input site."""
    here = GeoLocation(latitude=c["lat"], longitude=c["lon"])
    x, y = here.utm_x, here.utm_y
    base, dz = np.float32(c["base"]), np.float32(c["dz"])
    m = np.full((5, 5), base + dz, dtype=np.float32)
    g = np.full((5, 5), base, dtype=np.float32)
    m[2, 2] += np.float32(0)
    m[0, :], g[0, :] = base + 50, base - 50  # the site's own cell counts, not its neighbours
    if c["void"]:
        m[2, 2] = gis.NODATA
    surf = gis.surface(m, x - 2.2, y + 2.2, 1.0, here.utm_epsg) if c["surf"] else None
    terr = gis.surface(g, x - 2.2, y + 2.2, 1.0, here.utm_epsg) if c["terr"] else None
    loc, kind = infer_input_site_location(
        latitude=c["lat"], longitude=c["lon"], altitude=c["alt"], height=c["height"], location_type=LocationType[c["loc"]], site_type=SiteType[c["type"]], surface_elevation=surf, terrain_elevation=terr,
        mounting_height_above_rooftop=c["heights"][0], default_pop_height_on_pole=c["heights"][1], default_dn_height_on_pole=c["heights"][2], default_cn_height_on_pole=c["heights"][3])
    require((loc.latitude, loc.longitude) == (c["lat"], c["lon"]), "position of the site changed")
    z = float(base + dz)
    if surf is None:
        require(kind.name == c["loc"] and loc.altitude == c["alt"], "a site is changed although no surface is known", (kind, loc.altitude))
        return
    want = c["loc"]
    if want == "UNKNOWN" and terr is not None:
        diff = float(np.float32(base + dz) - base)
        want = "ROOFTOP" if diff >= 2 else "STREET_LEVEL"
        if abs(diff - 2) < 1e-4:
            want = kind.name
    require(kind.name == want, "kind of place", (kind.name, want, c["dz"]))
    if c["alt"] is not None:
        alt = c["alt"]
    elif c["height"] is not None:
        alt = z + c["height"]
    elif want == "ROOFTOP":
        alt = z + c["heights"][0]
    else:
        alt = z + c["heights"][{"POP": 1, "DN": 2, "CN": 3}[c["type"]]]
    require(loc.altitude is not None and abs(loc.altitude - alt) < 1e-3, "altitude of the site", (loc.altitude, alt))
    ctx.nontrivial(c["alt"] is None)


# ---------------------------------------------------------------- candidate pairs


@st.composite
def mixed_sites(draw):
    t = st.sampled_from(["POP", "DN", "DN", "CN", "CN"])
    pos = st.tuples(fl(-0.002, 0.002), fl(-0.002, 0.002))
    c = dict(user=draw(st.lists(st.tuples(t, pos, st.sampled_from(["", "DN-A", "DN-B", "CN-A", "CN-B"]), st.integers(0, 5)), max_size=5)), det=draw(st.lists(st.tuples(pos, st.integers(0, 2)), max_size=4)),
             base=draw(st.lists(st.tuples(t, pos), max_size=4)), devs=draw(st.sampled_from([[0, 2], [0, 1, 2, 3], [0, 1, 2]])), format=draw(st.sampled_from(["kml", "csv"])))
    if draw(st.booleans()):
        c["base" if c["det"] else "det"] = []
    return c


def user_csv(rows):
    out = ["type,latitude,longitude,altitude,device_sku,name"]
    for i, (t, (dy, dx), sku, k) in enumerate(rows):
        out.append(f"{t},{LAT0 + dy!r},{LON0 + dx + (0.05 if k == 0 else 0)!r},10,{sku},u{i}")
    return "\n".join(out) + "\n"


@CHECK.sub("pairs", mixed_sites, 500, 10000, "sites of two origins with at least one pair of each direction kind")
def pairs(c, ctx):
    """Which pairs are examined: every pair with a new site whose kinds permit a link, once, with the right direction."""
    devs = [DEVS[k] for k in c["devs"]]
    names = {d.device_sku for d in devs}
    rows = [r if r[2] in names and r[2][:2] == ("CN" if r[0] == "CN" else "DN") else (r[0], r[1], "", r[3]) for r in c["user"]]
    if len({(r[0], tuple(r[1])) for r in rows}) < len(rows):
        raise Discard()  # the same place twice
    paths = []
    kw = {}
    if rows:
        paths.append("user.csv")
        with open("user.csv", "w") as f:
            f.write(user_csv(rows))
        kw["site_file_path"] = "user.csv"
    t = Topology()
    if len({pos for _, pos in c["base"]}) < len(c["base"]):
        raise Discard()
    for i, (kind, (dy, dx)) in enumerate(c["base"]):
        t.add_site(Site(SiteType[kind], GeoLocation(latitude=LAT0 + dy, longitude=LON0 + 0.01 + dx, altitude=12.0), devs[-1] if kind == "CN" else devs[0], StatusType.EXISTING, LocationType.STREET_LEVEL, None, f"b{i}", None))
    if t.sites:
        paths.append("base.kml")
        write_to_kml_file(t, "base.kml")
        kw["base_topology_file_path"] = "base.kml"
    det = [DetectedSite(SiteType.DN, GeoLocation(latitude=LAT0 + dy, longitude=LON0 + dx, altitude=20.0), b) for (dy, dx), b in c["det"]]
    ring = Polygon([(LON0 - 0.02, LAT0 - 0.02), (LON0 + 0.02, LAT0 - 0.02), (LON0 + 0.02, LAT0 + 0.02), (LON0 - 0.02, LAT0 + 0.02)])
    try:
        sites, cand, zones, base = get_los_topology(GISDataParams(boundary_polygon_file_path="x.kml", **kw), LOSParams(device_list=devs), ring, det, None, None)
    finally:
        for p in paths:
            os.remove(p)
    user = [s for s in sites if not isinstance(s, DetectedSite) and s.site_id not in base.sites]
    want = collections.Counter()
    for kind, (dy, dx), sku, k in rows:
        if k == 0:
            continue  # outside the boundary
        for d in devs:
            if (d.device_type == DeviceType.CN) == (kind == "CN") and sku in ("", d.device_sku):
                want[(kind, round(LAT0 + dy, 9), round(LON0 + dx, 9), d.device_sku)] = 1
    require(collections.Counter((s.site_type.name, round(s.latitude, 9), round(s.longitude, 9), s.device.device_sku) for s in user) == want, "input sites", (len(user), len(want)))
    require(set(base.sites) == set(t.sites), "sites of the base topology")
    require(len(sites) == len(user) + len(det) + len(t.sites) and all(any(s is d for s in sites) for d in det), "sites examined", len(sites))
    new = [s.site_id not in base.sites for s in sites]
    seen = collections.Counter()
    for a, b, both in cand:
        x, y = sites[a].site_type.name, sites[b].site_type.name
        require(new[a] or new[b], "a pair of base sites is examined")
        require(x != "CN" and (x, y) != ("POP", "POP"), "a pair of kinds that cannot be linked", (x, y))
        require(both == (y != "CN"), "directions of a pair", (x, y, both))
        seen[frozenset((a, b))] += 1
    dirs = set()
    for a in range(len(sites)):
        for b in range(a):
            x, y = sites[a].site_type.name, sites[b].site_type.name
            ok = (new[a] or new[b]) and {x, y} not in ({"CN"}, {"POP"})
            require(seen[frozenset((a, b))] == (1 if ok else 0), "a pair is left out" if ok else "a pair is examined that should not be", (x, y, new[a], new[b], seen[frozenset((a, b))]))
            if ok:
                dirs.add("CN" in (x, y))
    ctx.nontrivial(len(dirs) == 2 and bool(rows) + bool(det) + bool(t.sites) > 1)


# ---------------------------------------------------------------- the network


@st.composite
def neighbourhoods(draw, detect):
    n = draw(st.integers(2, 9))
    sites = []
    for i in range(n):
        origin = draw(st.sampled_from(["det", "det", "user"] if detect else ["user", "user", "base"]))
        sites.append(dict(o=origin, t="DN" if origin == "det" else draw(st.sampled_from(["POP", "DN", "CN"])), dy=draw(fl(-0.0008, 0.0008)), dx=draw(fl(-0.0012, 0.0012)),
                          alt=draw(st.one_of(fl(0, 60), st.just(10.0), st.none() if not detect else st.just(12.0))), dev=draw(st.integers(0, 1)), b=draw(st.integers(0, 2))))
    if detect and draw(st.integers(0, 3)) > 0:
        sites[-1].update(o="user", t="POP")
    dens = draw(st.sampled_from([2, 4, 7]))
    los = draw(st.lists(st.one_of(st.just(0.0), st.just(1.0), st.just(1.0), fl(0.01, 1)) if dens > 2 else st.sampled_from([0.0, 0.0, 0.0, 1.0, 0.7]), min_size=n * (n - 1) // 2, max_size=n * (n - 1) // 2))
    return dict(sites=sites, los=los, rng=[draw(st.one_of(st.integers(20, 250), st.just(400))) for _ in range(8)], min=draw(st.sampled_from([5, 10, 50])), el=draw(st.sampled_from([25.0, 90.0, 10.0, 5.0])),
                dn=draw(st.booleans()), devs=draw(st.sampled_from([[0, 2], [0, 1, 2, 3]])), old=draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)), max_size=4)), turn=draw(st.integers(0, 6)))


def setup(c, detect):
    devs = [DEVS[k] for k in c["devs"]]
    dns, cns = [d for d in devs if d in DN], [d for d in devs if d in CN]
    sites = []
    for i, s in enumerate(c["sites"]):
        loc = GeoLocation(latitude=LAT0 + s["dy"] + i * 1e-7, longitude=LON0 + s["dx"], altitude=s["alt"])
        if s["o"] == "det":
            sites.append(DetectedSite(SiteType.DN, loc, s["b"]))
        else:
            dev = (cns if s["t"] == "CN" else dns)
            sites.append(Site(SiteType[s["t"]], loc, dev[s["dev"] % len(dev)], StatusType.EXISTING if s["o"] == "base" else StatusType.CANDIDATE, LocationType.STREET_LEVEL, None, f"s{i}", None))
    if len({s.site_id for s in sites}) < len(sites):
        raise Discard()
    # LOS table: (tx, rx) -> confidence, as the pair selection and LOS steps would give it
    los, k = {}, 0
    for a in range(len(sites)):
        for b in range(a):
            conf = c["los"][k]
            k += 1
            x, y = sites[a], sites[b]
            kinds = {x.site_type.name, y.site_type.name}
            if conf == 0 or kinds in ({"CN"}, {"POP"}) or {c["sites"][a]["o"], c["sites"][b]["o"]} == {"base"}:
                continue
            if detect and c["sites"][a]["o"] == c["sites"][b]["o"] == "det" and c["sites"][a]["b"] == c["sites"][b]["b"]:
                continue
            if x.site_type != SiteType.CN:
                los[(a, b)] = conf
            if y.site_type != SiteType.CN:
                los[(b, a)] = conf
    pairs = {}
    for i, t in enumerate(DN):
        for j, r in enumerate(DEVS):
            pairs[(t.device_sku, r.device_sku)] = c["rng"][i * 4 + j]
    pairs[(DN[1].device_sku, DN[0].device_sku)] = pairs[(DN[0].device_sku, DN[1].device_sku)]
    return devs, dns, cns, sites, los, pairs


def links_in(items, key):
    out = list(items)
    k = key % max(1, len(out))
    return out[k:] + out[:k]


def feasible(c, pairs, tx, rx):
    l = Link(tx, rx, status_type=StatusType.CANDIDATE, is_wireless=True)
    return c["min"] <= l.distance <= pairs[(tx.device.device_sku, rx.device.device_sku)] and abs(l.el_dev) <= c["el"]


@CHECK.sub("network", lambda: neighbourhoods(False), 1500, 40000, "there are feasible and infeasible pairs in line of sight, one of them with a base site")
def network(c, ctx):
    """Without site detection: all sites, and a link for every line of sight within range, new sites to base sites included."""
    devs, dns, cns, sites, los, pairs = setup(c, False)
    base = Topology()
    for s, d in zip(sites, c["sites"]):
        if d["o"] == "base":
            base.add_site(s)
    for a, b in c["old"]:
        if a != b and c["sites"][a]["o"] == c["sites"][b]["o"] == "base" and sites[a].site_type != SiteType.CN and {sites[a].site_type, sites[b].site_type} != {SiteType.POP}:
            base.add_link(Link(sites[a], sites[b], status_type=StatusType.EXISTING, is_wireless=True, confidence_level=0.5))
    old = {(l.tx_site.site_id, l.rx_site.site_id): l for l in base.links.values()}
    order = [i for i, d in enumerate(c["sites"]) if d["o"] != "base"] + [i for i, d in enumerate(c["sites"]) if d["o"] == "base"]
    at = {i: k for k, i in enumerate(order)}
    valid = links_in([ValidLOS(at[a], at[b], v) for (a, b), v in los.items()], c["turn"])
    params = LOSParams(device_list=devs, minimum_los_distance=c["min"], maximum_elevation_scan_angle=c["el"])
    t = build_candidate_topology(params, base, [sites[i] for i in order], valid, dict(pairs), False)
    require(set(t.sites) == {s.site_id for s in sites}, "sites of the network", (len(t.sites), len(sites)))
    got = {(l.tx_site.site_id, l.rx_site.site_id): l for l in t.links.values()}
    kinds = set()
    for (a, b), conf in los.items():
        x, y = sites[a], sites[b]
        ok = feasible(c, pairs, x, y)
        kinds.add(ok)
        if "base" in (c["sites"][a]["o"], c["sites"][b]["o"]):
            kinds.add("base")
        k = (x.site_id, y.site_id)
        if not ok:
            require(k not in got, "a link outside the limits", (x.site_type.name, y.site_type.name))
            continue
        require(k in got, "a feasible link is missing", (c["sites"][a]["o"], c["sites"][b]["o"]))
        l = got[k]
        require(l.confidence_level == conf, "confidence of a link", (l.confidence_level, conf))
        require(l.status_type == StatusType.CANDIDATE and l.is_wireless, "status of a new link")
    for k, l in got.items():
        if k in old:
            require(l.status_type == StatusType.EXISTING and l.confidence_level == 0.5, "a link of the base topology changed")
    require(set(old) <= set(got), "a link of the base topology is lost")
    ids = {s.site_id: i for i, s in enumerate(sites)}
    for k in set(got) - set(old):
        require((ids[k[0]], ids[k[1]]) in los, "a link without line of sight")
    ctx.nontrivial(kinds == {True, False, "base"})


def reached(los, members, start, leaf):
    seen, todo = set(start), list(start)
    while todo:
        a = todo.pop()
        if a in leaf:
            continue
        for b in members:
            if b not in seen and (a, b) in los:
                seen.add(b)
                todo.append(b)
    return seen


@CHECK.sub("detected", lambda: neighbourhoods(True), 1800, 50000, "a building offers several places and an additional site or an infeasible pair occurs")
def detected(c, ctx):
    """With site detection: one place per building, the best connected; further sites only to reach customers; all and only the feasible links."""
    devs, dns, cns, sites, los, pairs = setup(c, True)
    n = len(sites)
    isdet = [isinstance(s, DetectedSite) for s in sites]
    valid = links_in([ValidLOS(a, b, v) for (a, b), v in los.items()], c["turn"])
    params = LOSParams(device_list=devs, minimum_los_distance=c["min"], maximum_elevation_scan_angle=c["el"], site_detection=SiteDetectionParams(dn_deployment=c["dn"]))
    t = build_candidate_topology(params, Topology(), list(sites), valid, dict(pairs), True)

    def objects(i, kind):
        if not isdet[i]:
            return [sites[i]] if kind == sites[i].site_type.name else []
        s = sites[i]
        return [Site(SiteType[kind], s.location, d, StatusType.CANDIDATE, LocationType.ROOFTOP, s.building_id, "", None) for d in (cns if kind == "CN" else dns)]

    placed = set()  # (index, kind)
    count = 0
    for i in range(n):
        for kind in ("POP", "DN", "CN"):
            obj = objects(i, kind)
            there = [o.site_id in t.sites for o in obj]
            if obj and any(there):
                require(all(there), "only some of the devices are placed at a site")
                placed.add((i, kind))
                count += len(obj)
            if not isdet[i] and obj:
                require(all(there), "a site the user supplied is dropped", kind)
    require(count == len(t.sites), "a site that was not among the candidates", (count, len(t.sites)))
    # one place per building
    buildings = {}
    for i in range(n):
        if isdet[i]:
            buildings.setdefault(sites[i].building_id, []).append(i)
    deg = [sum((i, j) in los for j in range(n)) for i in range(n)]
    picks = {}
    for b, cand in buildings.items():
        mine = [i for i in cand if (i, "CN") in placed]
        require(len(mine) == 1, "number of customer places on a building", len(mine))
        picks[b] = mine[0]
        if c["dn"]:
            require((mine[0], "DN") in placed, "no distribution site at the place picked on a building")
    for b, cand in buildings.items():
        p = picks[b]
        extra = sum((p, q) in los for q in picks.values() if q != p)
        require(all(deg[i] <= deg[p] + extra for i in cand), "a better connected place on the building was passed over", (deg[p], extra, [deg[i] for i in cand]))
    first = {i for i in range(n) if not isdet[i]} | ({p for p in picks.values()} if c["dn"] else set())
    # graph with the customer clones as separate nodes
    g = dict(los)
    for b, p in picks.items():
        for (a, r), v in los.items():
            if r == p:
                g[(a, ("cn", p))] = v
    clones = {("cn", p) for p in picks.values()}
    leaf = clones | {i for i in range(n) if sites[i].site_type == SiteType.CN}
    pops = [i for i in range(n) if sites[i].site_type == SiteType.POP]
    base = reached(g, first | clones, pops, leaf)
    more = {i for i in range(n) if (i, "DN") in placed and i not in first}
    lonely = {x for x in leaf if x not in base}
    final = reached(g, first | clones | more, pops, leaf)
    for i in more:
        require(isdet[i], "an additional site that is not a detected place")
        require(i in final, "an additional site that nothing reaches")
        require(any((i, x) in g for x in lonely), "an additional site that reaches no unconnected customer")
    near = {i for i in range(n) if isdet[i] and i not in first and any((a, i) in g for a in base if a not in leaf)}
    for x in lonely:
        if any((i, x) in g for i in near):
            require(x in final, "a customer stays unconnected although one more site would reach it")
    # those next to an additional site that was reachable from the start are settled at the second try at the latest
    second = {i for i in range(n) if isdet[i] and i not in first and any((m, i) in g for m in more & near)}
    for x in lonely:
        if any((i, x) in g for i in second):
            require(x in final, "a customer stays unconnected although a site next to an additional one would reach it")
    require(base <= final, "lost connections")
    # links
    got = {(l.tx_site.site_id, l.rx_site.site_id): l for l in t.links.values()}
    want = {}
    some_not = False
    for (a, b), conf in g.items():
        ta = sites[a].site_type.name
        if isinstance(b, tuple):
            rb, kb = b[1], "CN"
        else:
            rb, kb = b, sites[b].site_type.name
        if (a, ta) not in placed or (rb, kb) not in placed:
            continue
        for x in objects(a, ta):
            for y in objects(rb, kb):
                if feasible(c, pairs, x, y):
                    want[(x.site_id, y.site_id)] = conf
                else:
                    some_not = True
    require(set(want) <= set(got), "a feasible link is missing", len(set(want) - set(got)))
    require(set(got) <= set(want), "a link that should not be there", len(set(got) - set(want)))
    for k, conf in want.items():
        require(got[k].confidence_level == conf and got[k].status_type == StatusType.CANDIDATE, "confidence or status of a link", (got[k].confidence_level, conf))
    ctx.label("additional" if more else "plain")
    ctx.nontrivial(any(len(v) > 1 for v in buildings.values()) and (bool(more) or some_not))
