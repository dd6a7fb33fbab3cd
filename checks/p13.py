"""P13: batch line-of-sight results do not depend on how the work is done."""
import functools
import math
import os

import hypothesis.strategies as st
import numpy as np
import pyproj
from shapely import ops
from shapely.geometry import LineString, Polygon

from harness import gis, scene
from harness.core import Check, Discard, require
from harness.gen import fl
from terragraph_planner.common.configuration.configs import DeviceData, SectorParams
from terragraph_planner.common.configuration.enums import DeviceType, LocationType, SiteType, StatusType
from terragraph_planner.common.geos import GeoLocation
from terragraph_planner.common.structs import CandidateLOS
from terragraph_planner.common.topology_models.site import Site
from terragraph_planner.los import constants as los_constants
from terragraph_planner.los import core
from terragraph_planner.los.cylindrical_los_validator import CylindricalLOSValidator
from terragraph_planner.los.ellipsoidal_los_validator import EllipsoidalLOSValidator
from terragraph_planner.los.helper import compute_los_batch, get_exclusion_zones

CHECK = Check("P13")
CHECK.assumptions = ["a pair on the very edge of a limit may be judged either way, as its two directions are computed separately"]
DEVICE = DeviceData(device_sku="d", sector_params=SectorParams(), device_type=DeviceType.DN)


@st.composite
def batches(draw):
    c = draw(scene.scenes())
    n = draw(st.integers(2, 8))
    sites = list(c["sites"])
    while len(sites) < n:
        if draw(st.integers(0, 3)) == 0:  # at the place of an earlier one, perhaps at another height
            k = draw(st.integers(0, len(sites) - 1))
            sites.append(dict(sites[k], z=draw(st.sampled_from([sites[k]["z"], sites[k]["z"] + 3]))))
        else:
            sites.append(dict(x=draw(fl(0, 1)), y=draw(fl(0, 1)), z=draw(fl(2, 30)), snap=draw(st.booleans())))
    c["sites"] = sites
    c["loc"] = [draw(st.sampled_from(["ROOFTOP", "STREET_LEVEL", "UNKNOWN"])) for _ in sites]
    c["bld"] = [draw(st.sampled_from([-1, 3, 3, 4])) for _ in sites]
    i = st.integers(0, n - 1)
    c["cand"] = draw(st.lists(st.tuples(i, i, st.booleans()), min_size=1, max_size=24))
    c["radius"] = draw(st.one_of(fl(0.3, 3), st.just(1.0)))
    c["thr"] = draw(st.one_of(st.sampled_from([1.0, 1.0, 0.0, 0.6]), fl(0, 1)))
    c["max"] = draw(st.one_of(st.just(200), st.integers(8, 40)))
    c["min"] = min(draw(st.sampled_from([1, 1, 3, 6])), c["max"] - 1)
    c["el"] = draw(st.sampled_from([90, 89, 25, 45, 10]))
    c["ell"] = draw(st.booleans())
    c["mhz"] = draw(st.sampled_from([60000.0, 5000.0, 1000.0]))
    c["surf"] = draw(st.integers(0, 5)) > 0
    c["zones"] = draw(st.lists(st.tuples(fl(-0.1, 1), fl(-0.1, 1), fl(0.02, 0.5), fl(0.02, 0.5), st.integers(3, 6), fl(0, 1)), max_size=2)) if draw(st.integers(0, 2)) == 0 else []
    c["batch"] = draw(st.sampled_from([1, 2, 3, 5, 1000]))
    c["perm"] = draw(st.integers(0, 2**30 - 1).map(lambda k: k % 9973))
    return c


def zones(c):
    W, H = (c["w"] - 1) * c["res"], (c["h"] - 1) * c["yres"]
    return [Polygon([(scene.X0 + x * W + rx * W * math.cos(2 * math.pi * (k + ph) / n), scene.Y0 - y * H + ry * H * math.sin(2 * math.pi * (k + ph) / n)) for k in range(n)]) for x, y, rx, ry, n, ph in c["zones"]]


def sites_of(c):
    m, pts = scene.build(c, c["radius"])
    out = []
    for p, loc, b in zip(pts, c["loc"], c["bld"]):
        out.append(Site(SiteType.DN, GeoLocation(utm_x=p[0], utm_y=p[1], utm_epsg=scene.EPSG, altitude=p[2]), DEVICE, StatusType.CANDIDATE, LocationType[loc], b if loc == "ROOFTOP" else None, "", None))
    return m, pts, out


def validator(c, el, zs, thr=None):
    mx, mn, dev = c["max"] * 1.02, c["min"] * 0.98, min(c["el"] + 2, 90)
    thr = c["thr"] if thr is None else thr
    if c["ell"]:
        return EllipsoidalLOSValidator(el, mx, mn, dev, c["mhz"], zs, thr)
    return CylindricalLOSValidator(el, mx, mn, dev, c["radius"], zs, thr)


def los_sites(c, pts):
    return [scene.los_site(p, LocationType[loc].value, b if loc == "ROOFTOP" else None) for p, loc, b in zip(pts, c["loc"], c["bld"])]


def run_batch(c, cand, ls, el, zs, thr=None):
    kw = dict(elevation_data_matrix=None, utm_bounding_box=None, x_resolution=None, y_resolution=None, crs_epsg_code=None, left_top_x=None, left_top_y=None)
    if el is not None:
        kw = dict(elevation_data_matrix=el.data_matrix, utm_bounding_box=el.utm_bounding_box, x_resolution=el.x_resolution, y_resolution=el.y_resolution, crs_epsg_code=el.crs_epsg_code, left_top_x=el.left_top_x, left_top_y=el.left_top_y)
    return compute_los_batch(
        [CandidateLOS(*t) for t in cand], los_sites=ls, exclusion_zones_wkts=[z.wkt for z in zs], max_los_distance=c["max"], min_los_distance=c["min"],
        max_el_scan_angle=c["el"], los_confidence_threshold=c["thr"] if thr is None else thr, use_ellipsoidal_los_model=c["ell"], fresnel_radius=c["radius"],
        carrier_frequency=c["mhz"], **kw)


def judge(cand, got, table, what):
    """The links found are those of the single pairs; `table` gives the acceptable confidences of a pair."""
    left = {}
    for l in got:
        left.setdefault((l.tx_site_idx, l.rx_site_idx), []).append(l.confidence)
    need, may = {}, {}
    for a, b, both in cand:
        ok = table(a, b)
        for k in [(a, b)] + ([(b, a)] if both else []):
            may.setdefault(k, []).append(ok)
            if min(ok) > 0:
                need[k] = need.get(k, 0) + 1
    for k, v in left.items():
        require(k in may, what + ": a link nobody asked for", k)
        require(len(v) <= len(may[k]), what + ": a link is listed more often than asked for", (k, len(v)))
        for x in v:
            require(any(abs(x - y) < 1e-6 and y > 0 for ok in may[k] for y in ok), what + ": confidence differs from the pair's own", (k, x, may[k][0]))
    for k, n in need.items():
        require(len(left.get(k, [])) >= n, what + ": a connected pair is missing", (k, n, len(left.get(k, []))))


def shuffle(items, key):
    out = list(items)
    for i in range(len(out) - 1, 0, -1):
        key = (key * 1103515245 + 12345) % 2**31
        j = key % (i + 1)
        out[i], out[j] = out[j], out[i]
    return out


@CHECK.sub("batch", batches, 5000, 100000, "the batch holds a connected and a blocked pair, and a site at the place of another or a repeated pair")
def batch(c, ctx):
    """A batch against the pairs one at a time; order, repetition and reversal."""
    m, pts, _ = sites_of(c)
    el = scene.elevation(c, m) if c["surf"] else None
    zs, ls = zones(c), los_sites(c, pts)
    v = validator(c, el, zs)

    @functools.lru_cache(None)
    def table(a, b):
        return (v.compute_confidence(ls[a], ls[b]), v.compute_confidence(ls[b], ls[a]))

    got = run_batch(c, c["cand"], ls, el, zs)
    judge(c["cand"], got, table, "batch")
    judge(c["cand"], run_batch(c, shuffle(c["cand"], c["perm"]), ls, el, list(reversed(zs))), table, "reordered batch")
    twice = c["cand"] + [(b, a, k) for a, b, k in c["cand"]]
    judge(twice, run_batch(c, twice, ls, el, zs), table, "repeated batch")
    # exclusion areas block exactly the links that pass through them
    if zs:
        free = run_batch(c, c["cand"], ls, el, [])
        kept = {}
        for l in got:
            kept[(l.tx_site_idx, l.rx_site_idx)] = kept.get((l.tx_site_idx, l.rx_site_idx), 0) + 1
        for l in free:
            k = (l.tx_site_idx, l.rx_site_idx)
            line = LineString([pts[k[0]][:2], pts[k[1]][:2]])
            if all(line.distance(z) > 1e-6 for z in zs):
                require(k in kept, "a link that passes no exclusion area is gone", k)
            elif any(line.intersection(z.buffer(-1e-6)).length > 1e-6 for z in zs):
                require(k not in kept, "a link through an exclusion area", k)
        require(set(kept) <= {(l.tx_site_idx, l.rx_site_idx) for l in free}, "an exclusion area adds links")
    # stricter confidence never adds links
    if c["thr"] < 1:
        strict = run_batch(c, c["cand"], ls, el, zs, 1.0)
        require({tuple(l[:2]) for l in strict} <= {tuple(l[:2]) for l in got}, "requiring more confidence adds links")
    keys = {(a, b) for a, b, _ in c["cand"]}
    res = {min(table(a, b)) > 0 for a, b in keys}
    ctx.nontrivial(len(res) == 2 and (len(keys) < len(c["cand"]) or len({p[:2] for p in pts}) < len(pts)))


@CHECK.sub("surface", batches, 2500, 50000, "some link remains clear and some surface cell rose")
def surfaces(c, ctx):
    """Raising the surface never turns a blocked link clear."""
    if c["ell"] and len({p["z"] for p in c["sites"]}) > 1:
        c = dict(c, ell=False)  # tilted zones are judged in P12
    m, pts, _ = sites_of(c)
    ls, zs = los_sites(c, pts), zones(c)
    up = m.copy()
    for k, (x, y, dx, dy, z) in enumerate(c["blocks"]):
        up[int(y * (c["h"] - 1)), int(x * (c["w"] - 1)):] += np.float32(z)
    lo = run_batch(c, c["cand"], ls, scene.elevation(c, m), zs)
    hi = run_batch(c, c["cand"], ls, scene.elevation(c, up), zs)
    base = {}
    for l in lo:
        base[tuple(l[:2])] = max(l.confidence, base.get(tuple(l[:2]), 0))
    for l in hi:
        k = tuple(l[:2])
        require(k in base, "raising the surface connects a pair", k)
        require(l.confidence <= base[k] + 1e-6, "raising the surface raises a confidence", (k, l.confidence, base[k]))
    none = run_batch(c, c["cand"], ls, None, zs)
    require({tuple(l[:2]) for l in lo} <= {tuple(l[:2]) for l in none} and all(l.confidence == 1.0 for l in none), "a surface adds links")
    ctx.nontrivial(len(hi) > 0 and (up != m).any())


def set_batch(n):
    old = {}
    for mod in (core, los_constants):
        if hasattr(mod, "BATCH_SIZE"):
            old[mod] = mod.BATCH_SIZE
            mod.BATCH_SIZE = n
    return old


@CHECK.sub("processes", batches, 300, 8000, "the pairs are split into several batches")
def processes(c, ctx):
    """Worker processes and batch splits against the pairs one at a time."""
    m, pts, sites = sites_of(c)
    el = scene.elevation(c, m) if c["surf"] else None
    zs, ls = zones(c), los_sites(c, pts)
    v = validator(c, el, zs)

    @functools.lru_cache(None)
    def table(a, b):
        return (v.compute_confidence(ls[a], ls[b]), v.compute_confidence(ls[b], ls[a]))

    ids = [s.site_id for s in sites]
    cand = c["cand"]
    if c["perm"] % 8 == 0:  # more than one batch of the real size
        cand = cand * (2400 // len(cand) + 1)
        c = dict(c, batch=1000)
    old = set_batch(c["batch"])
    try:
        for n in (1, 3) if c["perm"] % 2 else (2, None):
            if n is None and len(cand) > 100:
                continue
            got = core.compute_los(sites, [CandidateLOS(*t) for t in cand], el, zs, c["max"], c["min"], c["el"], c["thr"], c["ell"], c["radius"], c["mhz"], n)
            judge(cand, got, table, "compute_los")
    finally:
        for mod, x in old.items():
            mod.BATCH_SIZE = x
    require([s.site_id for s in sites] == ids and (el is None or (el.data_matrix == m).all()), "computing line of sight changed its input")
    ctx.nontrivial(len(cand) > c["batch"])


@st.composite
def kml_zones(draw):
    lat, lon = draw(fl(-70, 75)), draw(fl(-179, 179))
    if abs((lon + 180) % 6 - 3) > 2.95:
        lon += 0.1 if lon < 0 else -0.1
    if abs(lat) < 0.05:
        lat = 0.5
    poly = st.tuples(fl(-0.012, 0.012), fl(-0.012, 0.012), fl(0.0005, 0.004), st.integers(3, 7), fl(0, 1))
    return dict(lat=lat, lon=lon, polys=draw(st.lists(poly, max_size=5)), n=draw(st.integers(4, 8)), ext=draw(st.sampled_from(["kml", "KML", "csv", "none", "kml"])))


def ring(lat, lon, r, n, ph=0.0):
    k = max(0.2, math.cos(math.radians(lat)))
    return [(lon + r / k * math.cos(2 * math.pi * (i + ph) / n), lat + r * math.sin(2 * math.pi * (i + ph) / n)) for i in range(n)]


@CHECK.sub("zones", kml_zones, 1500, 20000, "one zone lies inside the boundary and one does not")
def zone_files(c, ctx):
    """Exclusion zones of an input file: those within the boundary, in the coordinates in which sites are compared."""
    boundary = Polygon(ring(c["lat"], c["lon"], 0.01, c["n"]))
    polys = [Polygon(ring(c["lat"] + dy, c["lon"] + dx / max(0.2, math.cos(math.radians(c["lat"]))), r, n, ph)) for dx, dy, r, n, ph in c["polys"]]
    doc = "".join("<Placemark><name>z</name><Polygon><outerBoundaryIs><LinearRing><coordinates>" + " ".join(f"{x!r},{y!r},0" for x, y in p.exterior.coords) + "</coordinates></LinearRing></outerBoundaryIs></Polygon></Placemark>" for p in polys)
    path = "zones." + c["ext"]
    if c["ext"] in ("kml", "KML"):
        with open(path, "w") as f:
            f.write('<?xml version="1.0" encoding="UTF-8"?><kml xmlns="http://www.opengis.net/kml/2.2"><Document><Folder><name>Exclusion Zones</name>' + doc + "</Folder></Document></kml>")
    elif c["ext"] == "csv":
        with open(path, "w") as f:
            f.write("name,latitude,longitude\n")
    try:
        got = get_exclusion_zones(path if c["ext"] != "none" else None, boundary)
    finally:
        if os.path.exists(path):
            os.remove(path)
    if c["ext"] in ("csv", "none"):
        require(got == [], "zones out of nothing")
        return
    sure = [p for p in polys if boundary.buffer(-1e-9).contains(p)]
    may = [p for p in polys if boundary.buffer(1e-9).contains(p)]
    if len(sure) != len(may):
        raise Discard()
    epsg = GeoLocation(latitude=c["lat"], longitude=c["lon"]).utm_epsg
    tr = pyproj.Transformer.from_crs(4326, epsg, always_xy=True)
    want = [ops.transform(tr.transform, p) for p in sure]
    require(len(got) == len(want), "number of exclusion zones", (len(got), len(want), len(polys)))
    for a, b in zip(sorted(got, key=lambda p: p.bounds), sorted(want, key=lambda p: p.bounds)):
        require(a.symmetric_difference(b).area < 1e-4 * b.area + 1e-3, "shape of an exclusion zone", (a.bounds, b.bounds))
    ctx.nontrivial(0 < len(want) < len(polys))
