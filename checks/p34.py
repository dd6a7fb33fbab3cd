"""P34: a study from input files yields the candidate network of the scene."""
import collections
import contextlib
import json
import logging
import math
import os
import shutil

import hypothesis.strategies as st
import numpy as np
from pyproj import Transformer

from harness import gis
from harness.core import Check, Discard, require
from harness.gen import fl
from terragraph_planner.common.configuration.configs import DeviceData, GISDataParams, LOSParams, SectorParams, SiteDetectionParams
from terragraph_planner.common.configuration.enums import DeviceType, LocationType
from terragraph_planner.common.data_io.elevation_loader import ElevationLoader
from terragraph_planner.common.exceptions import LOSException, TopologyException
from terragraph_planner.common.utils import current_system_params
from terragraph_planner.los.core import generate_candidate_topology, generate_candidate_topology_with_config_file
from terragraph_planner.los.helper import get_max_los_dist_for_device_pairs

CHECK = Check("P34")
CHECK.assumptions = [
    "lines that come within 3 m of ground, roofs or walls without going deep into an obstacle are not judged, nor are lengths within 1 m and angles within 1 degree of the limits",
    "obstacles are upright blocks on a plane; the shape of the examined zone is judged in P11 and P12",
    "the first Fresnel zone of the ellipsoidal model can be thinner than the cells of the surface, whose centres alone are looked at; lines through obstacles are judged in the cylindrical model only",
    "the device ranges are those of the link budget (judged in P16)",
    "without a surface, sites with and without altitude linked to each other cannot be written to one file and are refused",
]
DN = [DeviceData(device_sku="DN-A", sector_params=SectorParams(), device_type=DeviceType.DN)]
CN = [DeviceData(device_sku="CN-A", sector_params=SectorParams(antenna_boresight_gain=g), device_type=DeviceType.CN) for g in (30.0, 0.0)]
EPSG, CX, CY = 32631, 500000.0, 4983200.0
BACK = Transformer.from_crs(EPSG, 4326, always_xy=True)
MARGIN = 3.0  # metres within which rasterising, corners and rounding decide


@st.composite
def areas(draw):
    w, h = draw(st.integers(90, 260)), draw(st.integers(60, 140))
    kind = draw(st.sampled_from(["dsm", "dtm+dhm", "dtm+dhm", "dsm+dtm", "dsm+dhm", "two", "none", "dtm", "dhm", "all"]))
    nw = draw(st.integers(1, 3))
    walls = []
    for k in range(nw):
        left = 6 + k * (w - 12) // nw
        width = draw(st.integers(9, max(9, (w - 12) // nw - 14)))
        low = draw(st.integers(6, h // 2))
        walls.append((left + 4, low, left + 4 + width, min(h - 6, low + draw(st.integers(9, h))), draw(st.sampled_from([20.0, 40.0, 8.0, 0.5]))))
    sites = [dict(t="POP" if i == 0 else draw(st.sampled_from(["POP", "DN", "DN", "CN"])), x=draw(fl(2, w - 2)), y=draw(fl(2, h - 2)), roof=draw(st.sampled_from([-1, -1, -1, 0, 1, 2])),
                  how=draw(st.sampled_from(["", "", "height", "altitude"])), up=draw(fl(4, 30)), out=draw(st.integers(0, 9)) == 0) for i in range(draw(st.integers(4, 7)))]
    return dict(w=w, h=h, kind=kind, walls=walls, sites=sites, z=draw(st.sampled_from([0.0, 10.0, 150.0])), slope=(draw(fl(-0.05, 0.05)), draw(fl(-0.05, 0.05))), oval=draw(st.integers(0, 3)) == 0, rng=(draw(st.sampled_from([10, 20, 50])), draw(st.sampled_from([80, 150, 200]))),
                heights=[draw(st.sampled_from([4.0, 5.0, 7.5])) for _ in range(4)], cells=draw(st.sampled_from([1.0, 1.0, 0.5])), coarse=draw(st.sampled_from(["", "dtm", "dhm"])), weak=draw(st.integers(0, 1)), steep=draw(st.sampled_from([25.0, 25.0, 12.0, 50.0])), mcs=(draw(st.sampled_from([None, None, 12])), draw(st.sampled_from([None, None, 9]))), eirp=draw(st.sampled_from([None, None, 30.0])), houses=draw(st.integers(0, 2)) == 0, dn=draw(st.booleans()), config=draw(st.integers(0, 2)) == 0, procs=draw(st.sampled_from([1, 2])),
                missing=draw(st.sampled_from(["", "", "", "", "CN", "DN"])))


def lonlat(x, y):
    return BACK.transform(CX + x, CY + y)


def ring_kml(rings):
    text = "".join("<Placemark><name>p</name><Polygon><outerBoundaryIs><LinearRing><coordinates>" + " ".join(f"{lonlat(x, y)[0]!r},{lonlat(x, y)[1]!r},0" for x, y in r + r[:1]) + "</coordinates></LinearRing></outerBoundaryIs></Polygon></Placemark>" for r in rings)
    return '<?xml version="1.0" encoding="UTF-8"?><kml xmlns="http://www.opengis.net/kml/2.2"><Document><Folder><name>area</name>' + text + "</Folder></Document></kml>"


def box(x0, y0, x1, y1):
    return [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]


def ground(c, x, y):
    return c["z"] + c["slope"][0] * x + c["slope"][1] * y


def put_rasters(c):
    """The elevation files of a scene: bare ground, heights of things and their sum."""
    def grid(res):
        cols, rows = int((c["w"] + 24) / res), int((c["h"] + 24) / res)
        return np.arange(cols) * res - 12, c["h"] + 12 - np.arange(rows) * res

    def save(name, res, what, lo=None, hi=None):
        xs, ys = grid(res)
        if lo is not None:
            xs = xs[(xs >= lo) & (xs <= hi)]
        gx, gy = np.meshgrid(xs, ys)
        z = np.zeros(gx.shape)
        for x0, y0, x1, y1, up in c["walls"]:
            z[(gx >= x0) & (gx <= x1) & (gy >= y0) & (gy <= y1)] = up
        if what != "dhm":
            z = (z if what == "dsm" else 0) + ground(c, gx, gy)
        ElevationLoader().write(name, gis.surface(z.astype(np.float32), CX + xs[0], CY + ys[0], res, EPSG))
        return name

    kw, res, kind = {}, c["cells"], c["kind"]
    if kind in ("dsm", "dsm+dtm", "dsm+dhm", "all"):
        kw["dsm_file_paths"] = [save("s.tif", res, "dsm")]
    if kind == "two":
        kw["dsm_file_paths"] = [save("s1.tif", res, "dsm", -99, c["w"] / 2 + 8), save("s2.tif", res, "dsm", c["w"] / 2 - 8, 9999)]
    if kind in ("dtm+dhm", "dsm+dtm", "dtm", "all"):
        kw["dtm_file_path"] = save("t.tif", 2.0 if c["coarse"] == "dtm" and kind == "dtm+dhm" else res, "dtm")
    if kind in ("dtm+dhm", "dsm+dhm", "dhm", "all"):
        kw["dhm_file_path"] = save("h.tif", 2.0 if c["coarse"] == "dhm" and kind == "dtm+dhm" else res, "dhm")
    return kw


def where(c, s):
    """Position of a site, moved onto a roof or off the edges of things."""
    x, y = s["x"], s["y"]
    if 0 <= s["roof"] < len(c["walls"]):
        x0, y0, x1, y1, _ = c["walls"][s["roof"]]
        x, y = x0 + 3.5 + (x1 - x0 - 7) * x / c["w"], y0 + 3.5 + (y1 - y0 - 7) * y / c["h"]
    for k, (x0, y0, x1, y1, up) in enumerate(c["walls"]):
        if x0 + MARGIN <= x <= x1 - MARGIN and y0 + MARGIN <= y <= y1 - MARGIN:
            return x, y, k
        if x0 - MARGIN <= x <= x1 + MARGIN and y0 - MARGIN <= y <= y1 + MARGIN:
            return x, 1.5, None  # too close to an edge: in front of the row instead
    return x, y, None


def line_state(c, a, b):
    """Is the straight line between two places clearly free, clearly blocked, or neither."""
    n = 2 + int(2 * math.hypot(a[0] - b[0], a[1] - b[1]))
    ts = np.linspace(0, 1, n)
    xs, ys, zs = (a[k] + (b[k] - a[k]) * ts for k in range(3))
    g = ground(c, xs, ys)
    free, stop = bool(np.all(zs >= g + MARGIN)), False
    for k, (x0, y0, x1, y1, up) in enumerate(c["walls"]):
        by = (xs >= x0 - MARGIN) & (xs <= x1 + MARGIN) & (ys >= y0 - MARGIN) & (ys <= y1 + MARGIN)
        # roof heights follow the ground
        if np.any(by & (zs < g + up + MARGIN)):
            free = False
        deep = (xs >= x0 + 2) & (xs <= x1 - 2) & (ys >= y0 + 2) & (ys <= y1 - 2) & (zs < g + up - MARGIN)
        if deep.sum() >= 6 and k not in (a[3], b[3]):
            stop = True
    return "free" if free else "blocked" if stop else "unsure"


@contextlib.contextmanager
def output_folder(path):
    """System settings with a scratch output folder, and the logger as it was, afterwards."""
    keep = dict(vars(current_system_params))
    root = logging.getLogger()
    handlers, level = list(root.handlers), root.level
    current_system_params.output_dir = path
    try:
        yield
    finally:
        vars(current_system_params).update(keep)
        for x in list(root.handlers):
            root.removeHandler(x)
            x.close()
        for x in handlers:
            root.addHandler(x)
        root.setLevel(level)


def seen(t):
    return {
        "sites": {k: (v.site_type.name, v.status_type.name, v.location_type.name, round(v.latitude, 9), round(v.longitude, 9), None if v.altitude is None else round(float(v.altitude), 4), v.name) for k, v in t.sites.items()},
        "links": {k: (v.status_type.name, v.confidence_level, round(v.distance, 6)) for k, v in t.links.items()},
    }


@CHECK.sub("whole", areas, 500, 8000, "one pair in range is clearly free and another is clearly blocked or buildings are detected", hang_s=300)
def whole(c, ctx):
    """From the input files to the candidate network, with and without a configuration file."""
    for p in os.listdir("."):
        shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
    kw = put_rasters(c) if c["kind"] != "none" else {}
    surface = c["kind"] not in ("none", "dtm", "dhm")
    terrain = c["kind"] in ("dtm+dhm", "dsm+dtm", "dsm+dhm", "all")
    houses = c["houses"] and surface
    rows, places = ["type,latitude,longitude,altitude,height,name"], {}
    for i, s in enumerate(c["sites"]):
        if not surface and c["procs"] == 1:
            s = dict(s, how="altitude" if c["dn"] else "")
        x, y, on = where(c, s)
        if s["out"] and i:
            x += c["w"] + 5
        lon, lat = lonlat(x, y)
        top = ground(c, x, y) + (0 if on is None else c["walls"][on][4])
        alt = ht = ""
        if s["how"] == "altitude":
            alt = z = top + s["up"]
        elif s["how"] == "height":
            ht, z = s["up"], top + s["up"]
        else:
            z = top + (c["heights"][3] if on is not None and terrain and c["walls"][on][4] >= 2 else c["heights"][{"POP": 0, "DN": 1, "CN": 2}[s["t"]]])
        if s["out"] and i:
            on = None
        else:
            places[f"u{i}"] = (x, y, z, on, s["t"], s["how"])
        rows.append(f"{s['t']},{lat!r},{lon!r},{alt!r},{ht!r},u{i}".replace("''", ""))
    pts = list(places.values())
    if any(math.hypot(a[0] - b[0], a[1] - b[1]) < 3 for i, a in enumerate(pts) for b in pts[:i]):
        raise Discard()
    with open("sites.csv", "w") as f:
        f.write("\n".join(rows) + "\n")
    with open("area.kml", "w") as f:
        f.write(ring_kml([box(0, 0, c["w"], c["h"])]))
    kw.update(boundary_polygon_file_path="area.kml", site_file_path="sites.csv")
    if houses:
        with open("houses.kml", "w") as f:
            f.write(ring_kml([box(*w[:4]) for w in c["walls"]]))
        kw["building_outline_file_path"] = "houses.kml"
    missing = c["missing"] if c["missing"] == "CN" and not any(p[4] == "CN" for p in pts) or c["missing"] == "DN" and all(p[4] == "CN" for p in pts) else ""
    devs = [d for d in (DN[0], CN[c["weak"]]) if d.device_type.name != missing]
    radio = dict(maximum_eirp=c["eirp"])
    opts = dict(minimum_mcs_of_backhaul_links=c["mcs"][0], minimum_mcs_of_access_links=c["mcs"][1], maximum_elevation_scan_angle=c["steep"], minimum_los_distance=c["rng"][0], maximum_los_distance=c["rng"][1], default_pop_height_on_pole=c["heights"][0], default_dn_height_on_pole=c["heights"][1], default_cn_height_on_pole=c["heights"][2],
                mounting_height_above_rooftop=c["heights"][3], use_ellipsoidal_los_model=c["oval"], num_processors=c["procs"])
    find = dict(dn_deployment=c["dn"], detect_highest=False, detect_centers=True, detect_corners=False)
    os.mkdir("o")
    with output_folder("o"):
        try:
            t = generate_candidate_topology(LOSParams(device_list=devs, site_detection=SiteDetectionParams(**find), **opts, **radio), GISDataParams(**kw))
        except LOSException as e:
            require(houses and missing and f"no {missing} device" in str(e), "the study is refused", str(e))
            ctx.label("refused")
            return
        except TopologyException as e:
            # neighbours with and without an altitude cannot be written to one file
            require(not surface and {p[5] == "altitude" for p in pts} == {True, False} and "Altitude modes" in str(e), "the study is refused", str(e))
            ctx.label("refused")
            return
        require(not (houses and missing == "CN"), "sites are detected without a device for them")
        require([p for p in os.listdir("o/output")] == ["candidate_topology.kml"], "the file of the candidate network", os.listdir("o/output"))
        if c["config"]:
            up = {k.upper(): v for k, v in opts.items()}
            sku = [dict(DEVICE_SKU=d.device_sku, DEVICE_TYPE=d.device_type.name, SECTOR_PARAMS=dict(ANTENNA_BORESIGHT_GAIN=d.sector_params.antenna_boresight_gain)) for d in devs]
            data = dict(SYSTEM=dict(OUTPUT_DIR="o2", LOG_TO_STDERR=False), DATA={k.upper(): v for k, v in kw.items()}, LINE_OF_SIGHT=dict(up, SITE_DETECTION={k.upper(): v for k, v in find.items()}), RADIO=dict({k.upper(): v for k, v in radio.items()}, DEVICE_LIST=sku))
            os.mkdir("o2")
            with open("study.json", "w") as f:
                json.dump(data, f)
            t2 = generate_candidate_topology_with_config_file("study.json")
            require(seen(t2) == seen(t), "a study from a configuration file differs", None)
            require(os.listdir("o2/output") == ["candidate_topology.kml"], "the output folder of the configuration", os.listdir("o2"))
            ctx.label("config")
    # sites
    byname = {s.name: s for s in t.sites.values() if s.name in places}
    require(set(byname) == set(places), "input sites", (sorted(byname), sorted(places)))
    near = 0.15 + 4 * (abs(c["slope"][0]) + abs(c["slope"][1]))
    for name, (x, y, z, on, kind, how) in places.items():
        s = byname[name]
        require(s.site_type.name == kind and math.hypot(s.utm_x - CX - x, s.utm_y - CY - y) < 0.01, "position of an input site", name)
        if surface or how == "altitude":
            require(s.altitude is not None and abs(s.altitude - z) < (1e-6 if how == "altitude" else near), "altitude of a site", (name, s.altitude, z, how, c["kind"]))
        else:
            require(s.altitude is None, "an altitude is made up", s.altitude)
        want = "UNKNOWN" if not terrain else "ROOFTOP" if on is not None and c["walls"][on][4] >= 2 else "STREET_LEVEL"
        require(s.location_type.name == want, "kind of place of a site", (name, s.location_type.name, want))
    others = [s for s in t.sites.values() if s.name not in places]
    kinds = set()
    if houses:
        left = collections.Counter()
        for s in others:
            x, y = s.utm_x - CX, s.utm_y - CY
            here = [k for k, (x0, y0, x1, y1, _) in enumerate(c["walls"]) if x0 - 0.1 <= x <= x1 + 0.1 and y0 - 0.1 <= y <= y1 + 0.1]
            require(len(here) == 1 and s.location_type == LocationType.ROOFTOP, "a detected site is not on a building", (x, y))
            left[(here[0], s.site_type.name)] += 1
            z = ground(c, x, y) + c["walls"][here[0]][4] + c["heights"][3]
            require(abs(s.altitude - z) < near, "altitude of a detected site", (s.altitude, z))
        for k in range(len(c["walls"])):
            require(left[(k, "CN")] == 1 and left[(k, "POP")] == 0 and (left[(k, "DN")] == 1 if c["dn"] else left[(k, "DN")] <= 1), "sites detected on a building", dict(left))
        kinds.add("blocked")
    else:
        require(not others, "sites nobody asked for", len(others))
    # links
    links = {(l.tx_site.site_id, l.rx_site.site_id): l for l in t.links.values()}
    reach = get_max_los_dist_for_device_pairs(devs, c["eirp"], *c["mcs"], c["rng"][1])
    names = list(places)
    for i, a in enumerate(names):
        for b in names[:i]:
            for m, n in ((a, b), (b, a)):
                p, q, tx, rx = places[m], places[n], byname[m], byname[n]
                there = links.get((tx.site_id, rx.site_id))
                if p[4] == "CN" or p[4] == q[4] == "POP":
                    require(there is None, "a link from a client or between two sources", (p[4], q[4]))
                    continue
                flat = math.hypot(p[0] - q[0], p[1] - q[1])
                dz = p[2] - q[2] if surface or p[5] == q[5] == "altitude" else 0
                far = math.hypot(flat, dz)
                steep = math.degrees(math.atan2(abs(dz), flat))
                end = reach[(tx.device.device_sku, rx.device.device_sku)]
                if min(flat, far) > end + 1 or max(flat, far) < c["rng"][0] - 1 or steep > c["steep"] + 1:
                    require(there is None, "a link beyond the limits", (flat, dz))
                    continue
                if max(flat, far) > end - 1 or min(flat, far) < c["rng"][0] + 1 or steep > c["steep"] - 1:
                    continue
                if not surface and (p[5] == "altitude") != (q[5] == "altitude"):
                    continue  # only one altitude is known
                how = "free" if not surface else line_state(c, p, q)
                kinds.add(how)
                if how == "blocked" and c["oval"]:
                    ctx.label("thin zone")
                elif how == "blocked":
                    require(there is None, "a link through an obstacle", (m, n))
                elif how == "free":
                    require(there is not None, "a link in clear line of sight is missing", (m, n, flat, dz))
                    require(there.confidence_level == 1, "confidence of a free line", there.confidence_level)
    ctx.label(c["kind"] + ("+houses" if houses else ""))
    ctx.nontrivial({"free", "blocked"} <= kinds and not c["oval"])
