"""P17: demand is placed and attached exactly as the demand settings say."""
import math

import hypothesis.strategies as st

from harness import topo
from harness.core import Check, Discard, require
from harness.gen import fl
from terragraph_planner.common.configuration.configs import OptimizerParams
from terragraph_planner.common.exceptions import PlannerException
from terragraph_planner.optimization.topology_demand import add_demand_to_topology

CHECK = Check("P17")
CHECK.assumptions = [
    "the area covered by the grid is the bounding box of the sites widened by one grid step on every side",
    "a manual point and a grid point at the same coordinates may be one demand point; sites exactly at the connection radius may count either way",
    "where several customer devices share one place, the demand there has the subscriber number of one of them",
]
DNS = [topo.device("D1"), topo.device("D2")]
CNS = [topo.device("C1", "CN"), topo.device("C2", "CN")]


@st.composite
def cases(draw):
    n = draw(st.integers(1, 9))
    sites = []
    for i in range(n):
        t = draw(st.sampled_from(["POP", "DN", "CN", "CN"]))
        how = draw(st.integers(0, 5)) if sites else 9
        if how == 0:  # same place as another site
            o = draw(st.sampled_from(sites))
            s = dict(x=o["x"], y=o["y"], alt=o["alt"])
        elif how == 1:  # same latitude and longitude, other height
            o = draw(st.sampled_from(sites))
            s = dict(x=o["x"], y=o["y"], alt=draw(st.one_of(fl(0, 30), st.none())))
        else:
            s = dict(x=draw(fl(-300, 300)), y=draw(fl(-300, 300)), alt=draw(st.one_of(fl(0, 30), st.just(10.0), st.none())))
        s.update(t=t, dev=draw(st.integers(0, 1)), bld=draw(st.sampled_from([None, None, -1, 0, 1, 2])), subs=draw(st.one_of(st.none(), st.integers(0, 5))),
                 st=draw(st.sampled_from(["CANDIDATE", "CANDIDATE", "EXISTING", "UNAVAILABLE", "UNREACHABLE"])))
        sites.append(s)
    manual = [draw(st.one_of(st.tuples(fl(-350, 350), fl(-350, 350)), st.sampled_from([(s["x"], s["y"]) for s in sites]))) for _ in range(draw(st.integers(0, 5)))]
    models = draw(st.sampled_from([(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, 0, 1), (0, 1, 1), (1, 1, 1)]))
    lat0, lon0 = draw(st.sampled_from([(45.0, 3.0), (-33.5, 151.0), (0.0, 0.0), (64.0, -21.0), (45.0, 180.0), (-17.0, 179.9985), (-17.0, -179.999), (10.0, 179.997)]))
    return dict(sites=sites, manual=manual, models=models, lat0=lat0, lon0=lon0, links=draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)), max_size=4)),
                spacing=draw(st.one_of(fl(25, 80), st.sampled_from([100.0, 250.0, 1000.0]))), radius=draw(st.one_of(fl(1, 60), fl(60, 500))), demand=draw(st.one_of(fl(0.001, 3), st.just(0.025))))


def hav(lat1, lon1, lat2, lon2):
    p1, p2 = math.radians(lat1), math.radians(lat2)
    h = math.sin((p2 - p1) / 2) ** 2 + math.cos(p1) * math.cos(p2) * math.sin(math.radians(lon2 - lon1) / 2) ** 2
    return 2 * 6371000.0 * math.asin(min(1.0, math.sqrt(h)))


def east(lon, ref):
    """Longitude in the turn around ref."""
    return ref + (lon - ref + 180.0) % 360.0 - 180.0


@CHECK.sub("placement", cases, 1500, 40000, "demand of two models or a grid with several columns, and a site that is left out of some point's reach", hang_s=20)
def placement(c, ctx):
    """All demand points, their volumes and the sites they are attached to, against a direct construction."""
    sites = topo.sites_of(c["sites"], DNS, CNS, c["lat0"], c["lon0"])
    pts = sorted({topo.metres(x, y, c["lat0"], c["lon0"]) for x, y in c["manual"]})
    t = topo.topology_of(sites, [(a, b, "CANDIDATE", True) for a, b in c["links"]], pts)
    before = topo.snapshot(t)
    cn, uniform, manual = c["models"]
    params = OptimizerParams(device_list=DNS + CNS, enable_cn_demand=bool(cn), enable_uniform_demand=bool(uniform), enable_manual_demand=bool(manual), demand_spacing=c["spacing"], demand_connection_radius=c["radius"], demand=c["demand"])
    R = c["radius"]

    def reach(lat, lon):
        d = {s.site_id: hav(s.latitude, s.longitude, lat, lon) for s in sites}
        return {k for k, v in d.items() if v <= R - 1e-5}, {k for k, v in d.items() if v <= R + 1e-5}

    want = []  # lat, lon, allowed numbers, sure sites, possible sites, origin
    if manual:
        want += [(lat, lon, {1}, *reach(lat, lon), "manual") for lat, lon in pts]
    loose = []
    if uniform:
        lons = [east(s.longitude, c["lon0"]) for s in sites]
        left, right = min(lons), max(lons)
        bottom, top = min(s.latitude for s in sites), max(s.latitude for s in sites)
        d = c["spacing"] / 6371000.0
        la = math.radians(bottom)
        dy = math.degrees(d)
        sin2 = math.sin(la) * math.cos(d)
        dx = math.degrees(math.atan2(math.sin(d) * math.cos(la), math.cos(d) - math.sin(la) * sin2))
        nx, ny = (right - left + 2 * dx) / dx, (top - bottom + 2 * dy) / dy
        ctx.label(f"grid {min(6, int(nx))} columns")
        for i in range(int(nx + 1e-6) + 1):
            for j in range(int(ny + 1e-6) + 1):
                lat, lon = bottom + (j - 1) * dy, left + (i - 1) * dx
                sure, maybe = reach(lat, lon)
                if not maybe:
                    continue
                edge = i > nx - 1e-6 or j > ny - 1e-6
                (want if sure and not edge else loose).append((lat, lon, {1}, sure, maybe, "grid"))
    if cn:
        places = {}
        for s in sites:
            if s.site_type.name == "CN":
                places.setdefault((s.latitude, s.longitude), []).append(s)
        subs = {s.site_id: (spec["subs"] or 1) for s, spec in zip(sites, c["sites"])}
        want += [(lat, lon, {subs[s.site_id] for s in here}, {s.site_id for s in here}, {s.site_id for s in here}, "customer") for (lat, lon), here in places.items()]

    # relay sites at the very place or on the building of a customer site
    with_cn = {}
    for s, spec in zip(sites, c["sites"]):
        if s.site_type.name != "CN":
            continue
        mine = with_cn.setdefault(s.site_id, set())
        for o, os in zip(sites, c["sites"]):
            if o.site_type.name == "CN":
                continue
            if (o.latitude, o.longitude, o.altitude) == (s.latitude, s.longitude, s.altitude) or (spec["bld"] is not None and spec["bld"] > -1 and os["bld"] == spec["bld"]):
                mine.add(o.site_id)

    def extended(ids):
        out = set(ids)
        for k in ids:
            out |= with_cn.get(k, set())
        return out

    try:
        add_demand_to_topology(t, params)
    except PlannerException as e:
        require(not want and "No demand" in str(e), "adding demand is refused", str(e))
        ctx.label("no demand")
        return
    require(topo.snapshot(t) == before, "sites or links were changed")
    got = []
    for k, dm in t.demand_sites.items():
        require(k == dm.demand_id, "demand is filed under another id")
        require(dm.demand == c["demand"], "volume of a demand point", (dm.demand, c["demand"]))
        ids = [s.site_id for s in dm.connected_sites]
        require(len(set(ids)) == len(ids) and all(t.sites.get(s.site_id) is s for s in dm.connected_sites), "a demand point lists a site twice or a foreign site")
        require(-180 <= dm.longitude <= 180, "longitude of a demand point", dm.longitude)
        got.append((dm.latitude, east(dm.longitude, c["lon0"]), dm.num_sites, set(ids)))
    want.sort(key=lambda w: w[5] == "grid")
    everything = want + loose
    fits = []
    for lat, lon, nums, sure, maybe, kind in everything:
        lon = east(lon, c["lon0"])
        lo, hi = extended(sure), extended(maybe)
        fits.append([i for i, g in enumerate(got) if abs(g[0] - lat) < 1e-9 and abs(g[1] - lon) < 1e-9 and g[2] in nums and lo <= g[3] <= hi])
    owner = {}

    def place(w, seen):
        for i in fits[w]:
            if i not in seen:
                seen.add(i)
                if i not in owner or place(owner[i], seen):
                    owner[i] = w
                    return True
        return False

    for k, w in enumerate(everything):
        if place(k, set()) or k >= len(want):
            continue
        if any(o[5] != w[5] and {o[5], w[5]} == {"grid", "manual"} and abs(o[0] - w[0]) < 1e-9 and abs(east(o[1], c["lon0"]) - east(w[1], c["lon0"])) < 1e-9 for o in want):
            continue
        near = [(g[2], len(g[3])) for g in got if abs(g[0] - w[0]) < 1e-9 and abs(g[1] - east(w[1], c["lon0"])) < 1e-9]
        require(False, f"a {w[5]} demand point is missing or attached to other sites", (w[0], w[1], near, sorted(w[2]), len(w[3]), len(w[4])))
    require(len(owner) == len(got), "demand at a place no model puts it", [g[:3] for i, g in enumerate(got) if i not in owner][:3])
    n = sum(c["models"])
    ctx.label("models" + "".join(map(str, c["models"])))
    ctx.nontrivial((n > 1 or (uniform and len({round(g[1], 9) for g in got}) > 1) or cn) and any(len(g[3]) < len(sites) for g in got) and len(sites) > 1)


@CHECK.sub("again", cases, 300, 6000, "there is demand")
def again(c, ctx):
    """Adding demand twice gives the demand of adding it once."""
    sites = topo.sites_of(c["sites"], DNS, CNS, c["lat0"], c["lon0"])
    pts = sorted({topo.metres(x, y, c["lat0"], c["lon0"]) for x, y in c["manual"]})
    cn, uniform, manual = c["models"]
    if manual and (uniform or cn):
        raise Discard()  # generated demand of the first time counts as manual the second time
    params = OptimizerParams(device_list=DNS + CNS, enable_cn_demand=bool(cn), enable_uniform_demand=bool(uniform), enable_manual_demand=bool(manual), demand_spacing=c["spacing"], demand_connection_radius=c["radius"], demand=c["demand"])

    def state(t):
        return {k: (d.latitude, d.longitude, d.num_sites, d.demand, sorted(s.site_id for s in d.connected_sites)) for k, d in t.demand_sites.items()}

    t = topo.topology_of(sites, [], pts)
    try:
        add_demand_to_topology(t, params)
    except PlannerException:
        raise Discard()
    one = state(t)
    add_demand_to_topology(t, params)
    require(state(t) == one, "adding demand again changes it")
    ctx.nontrivial(bool(one))
