"""P15: buildings yield mounting sites on their own roofs."""
import math

import hypothesis.strategies as st
import numpy as np
import pyproj
from shapely.geometry import Point, Polygon

from harness import gis
from harness.core import Check, Discard, require
from harness.gen import fl
from terragraph_planner.common.configuration.enums import LocationType, SiteType
from terragraph_planner.los.building import Building
from terragraph_planner.los.building_group import BuildingGroup

CHECK = Check("P15")
CHECK.assumptions = [
    "a corner's altitude may be that of any surface cell within 1 m of it that stands more than 2 m above a neighbour (as documented); which of several is taken is not judged",
    "shapely is trusted for polygon predicates and pyproj for the projection",
]
X0, Y0, EPSG = 500000.0, 5000000.0, 32631
W = H = 40
CORNER_MIN, STEP = 30.0, 2.0
TO_LL = pyproj.Transformer.from_crs(EPSG, 4326, always_xy=True)
TO_UTM = pyproj.Transformer.from_crs(4326, EPSG, always_xy=True)


@st.composite
def building(draw):
    kind = draw(st.sampled_from(["rect", "rect", "ell", "poly", "star", "round", "court"]))
    x, y = draw(fl(-1, W)), draw(fl(-1, H))
    a, b = draw(fl(2, 12)), draw(fl(2, 12))
    rot = draw(st.one_of(st.just(0.0), fl(0, 2 * math.pi)))
    b = dict(kind=kind, x=x, y=y, a=a, b=b, rot=rot, n=draw(st.integers(3, 9)), cut=draw(fl(0.2, 0.8)), h=draw(st.one_of(fl(0.5, 12), st.just(2.0), st.just(5.0))), ccw=draw(st.booleans()),
             grid=draw(st.booleans()))
    return b


def outline(b):
    n, k, cut = b["n"], b["kind"], b["cut"]
    hole = []
    if k in ("rect", "court"):
        pts = [(-1, -1), (1, -1), (1, 1), (-1, 1)]
        if k == "court":
            hole = [[(-cut, -cut), (cut, -cut), (cut, cut), (-cut, cut)]]
    elif k == "ell":
        pts = [(-1, -1), (1, -1), (1, 1 - 2 * cut), (1 - 2 * cut, 1 - 2 * cut), (1 - 2 * cut, 1), (-1, 1)]
    elif k == "poly":
        pts = [(math.cos(2 * math.pi * i / n), math.sin(2 * math.pi * i / n)) for i in range(n)]
    elif k == "round":
        pts = [(math.cos(2 * math.pi * i / 20), math.sin(2 * math.pi * i / 20)) for i in range(20)]
    else:
        pts = [((1 if i % 2 == 0 else cut) * math.cos(math.pi * i / n), (1 if i % 2 == 0 else cut) * math.sin(math.pi * i / n)) for i in range(2 * n)]
    if b["ccw"]:
        pts = pts[::-1]
    c, s = math.cos(b["rot"]), math.sin(b["rot"])

    def place(p):
        u, v = p[0] * b["a"], p[1] * b["b"]
        x, y = X0 + b["x"] + u * c - v * s, Y0 - b["y"] + u * s + v * c
        return (round(x), round(y)) if b["grid"] and k == "rect" and b["rot"] == 0 else (x, y)

    return Polygon([place(p) for p in pts], [[place(p) for p in h] for h in hole])


@st.composite
def towns(draw, nmax=3):
    c = dict(b=draw(st.lists(building(), min_size=1, max_size=nmax)), res=draw(st.sampled_from([0.5, 1.0, 1.0, 2.0])), noise=draw(st.sampled_from([0, 1, 3])), slope=draw(st.sampled_from([0.0, 0.25])),
             surf=draw(st.integers(0, 7)) > 0, holes=draw(st.lists(st.tuples(fl(0, 1), fl(0, 1)), max_size=3)) if draw(st.integers(0, 5)) == 0 else [])
    c["angle"] = draw(st.one_of(st.none(), fl(31, 179), st.sampled_from([90.0, 120.0, 100.0, 20.0])))
    c["corners"], c["center"], c["highest"] = (draw(st.booleans()) for _ in range(3))
    c["mount"] = draw(st.sampled_from([1.5, 0.0, 3.0]))
    c["turn"] = draw(st.integers(0, 5))
    # trees and masts in, on and beside the buildings
    c["masts"] = draw(st.lists(st.tuples(st.integers(0, 3), fl(-1.2, 1.2), fl(-1.2, 1.2), fl(1, 20)), max_size=3)) if draw(st.integers(0, 2)) == 0 else []
    c["yres"] = draw(st.sampled_from([c["res"]] * 3 + [0.5, 2.0]))
    return c


def ground(c):
    i, j = np.meshgrid(np.arange(int(W / c["yres"]) + 1), np.arange(int(W / c["res"]) + 1), indexing="ij")
    m = (c["slope"] * i * c["yres"]).astype(np.float32)
    if c["noise"]:
        m = m + ((i * 7 + j * 13) % 5).astype(np.float32) * np.float32(c["noise"] * 0.25)
    return m


def town(c):
    """Surface matrix, polygons."""
    m = ground(c)
    polys = [outline(b) for b in c["b"]]
    if any(not p.is_valid or p.area < 0.5 for p in polys):
        raise Discard()
    res, yres = c["res"], c["yres"]
    for b, p in zip(c["b"], polys):
        x0, y0, x1, y1 = p.bounds
        for q in range(max(0, int((x0 - X0) / res)), min(m.shape[1], int((x1 - X0) / res) + 2)):
            for r in range(max(0, int((Y0 - y1) / yres)), min(m.shape[0], int((Y0 - y0) / yres) + 2)):
                if p.contains(Point(X0 + q * res, Y0 - r * yres)):
                    m[r, q] += np.float32(b["h"])
    for k, u, v, up in c.get("masts", []):
        b = c["b"][k % len(c["b"])]
        r, q = round((b["y"] + v * b["b"]) / yres), round((b["x"] + u * b["a"]) / res)
        if 0 <= r < m.shape[0] and 0 <= q < m.shape[1]:
            m[r, q] += np.float32(up)
    for u, v in c["holes"]:
        m[int(v * (m.shape[0] - 1)), int(u * (m.shape[1] - 1))] = gis.NODATA
    return m, polys


def at(c, m, x, y):
    """Acceptable surface values at a position."""
    out = set()
    for q in {math.floor((x - X0) / c["res"] + 0.5 - 1e-9), math.ceil((x - X0) / c["res"] - 0.5 + 1e-9)}:
        for r in {math.floor((Y0 - y) / c["yres"] + 0.5 - 1e-9), math.ceil((Y0 - y) / c["yres"] - 0.5 + 1e-9)}:
            r2, q2 = min(max(r, 0), m.shape[0] - 1), min(max(q, 0), m.shape[1] - 1)
            v = float(m[r2, q2])
            if v == gis.NODATA:
                return None
            out.add(v)
    return out


def corner_angle(a, b, c):
    t = abs(math.degrees(math.atan2(a[1] - b[1], a[0] - b[0]) - math.atan2(c[1] - b[1], c[0] - b[0]))) % 360
    return min(t, 360 - t)


def corners_of(poly, limit):
    """(sure, possible) corner vertices."""
    v = list(poly.exterior.coords)[:-1]
    if limit is None:
        return v, v
    sure, may = [], []
    for i in range(len(v)):
        ang = corner_angle(v[i - 1], v[i], v[(i + 1) % len(v)])
        if CORNER_MIN + 0.02 <= ang <= limit - 0.02:
            sure.append(v[i])
        if CORNER_MIN - 0.02 <= ang <= limit + 0.02:
            may.append(v[i])
    return sure, may


def corner_heights(c, m, x, y):
    """Acceptable altitudes of a corner (None: not judged, because of missing cells)."""
    res, yres = c["res"], c["yres"]
    qs = [q for q in range(math.ceil((x - 1 - X0) / res - 1e-9), math.floor((x + 1 - X0) / res + 1e-9) + 1)]
    rs = [r for r in range(math.ceil((Y0 - y - 1) / yres - 1e-9), math.floor((Y0 - y + 1) / yres + 1e-9) + 1)]
    cells = {(r, q): float(m[r, q]) for r in rs for q in qs if 0 <= r < m.shape[0] and 0 <= q < m.shape[1]}
    if any(v == gis.NODATA for v in cells.values()):
        return None
    tall, sure = set(), False
    core = {(r, q) for (r, q) in cells if abs(X0 + q * res - x) < 1 - 1e-8 and abs(Y0 - r * yres - y) < 1 - 1e-8}
    for (r, q), z in cells.items():
        for dr in (-1, 0, 1):
            for dq in (-1, 0, 1):
                k = (r + dr, q + dq)
                if k in cells and z - cells[k] > STEP - 1e-6:
                    tall.add(z)
                    if z - cells[k] > STEP + 1e-6 and k in core and (r, q) in core:
                        sure = True
    base = at(c, m, x, y)
    if base is None:
        return None
    return tall if sure else tall | base


def highest_of(c, m, poly):
    """Greatest surface value among the cell centres in the outline (None: no centre lies in it)."""
    res, yres = c["res"], c["yres"]
    x0, y0, x1, y1 = poly.bounds
    best_sure, best_may, any_void = None, None, False
    for q in range(math.ceil((x0 - X0) / res - 1e-6), math.floor((x1 - X0) / res + 1e-6) + 1):
        for r in range(math.ceil((Y0 - y1) / yres - 1e-6), math.floor((Y0 - y0) / yres + 1e-6) + 1):
            p = Point(X0 + q * res, Y0 - r * yres)
            d = poly.distance(p)
            if d > 1e-6:
                continue
            v = at(c, m, p.x, p.y)
            if v is None:
                any_void = True
                continue
            v = max(v)
            best_may = v if best_may is None else max(best_may, v)
            if poly.buffer(-1e-6).intersects(p):
                best_sure = v if best_sure is None else max(best_sure, v)
    return best_sure, best_may, any_void


def near_any(v, options, tol=1e-3):
    return options is None or any(abs(v - o) < tol for o in options)


def check_corners(c, m, poly, got, limit):
    sure, may = corners_of(poly, limit)
    pos = [(p.x, p.y) for p in got]
    require(len(set(pos)) == len(pos), "a corner is listed twice", pos)
    if not sure and [pos[0]] == pos and pos[0] in [tuple(v) for v in poly.exterior.coords]:
        pass  # the documented last resort: one vertex
    else:
        require({tuple(v) for v in sure} <= set(pos) <= {tuple(v) for v in may}, "corners of the outline", (len(sure), len(pos), len(may), limit))
    for p in got:
        if m is None:
            require(p.z == 0, "altitude without a surface", p.z)
        else:
            require(near_any(float(p.z), corner_heights(c, m, p.x, p.y)), "altitude of a corner", (float(p.z), corner_heights(c, m, p.x, p.y)))


def check_center(c, m, poly, p):
    require(poly.distance(Point(p.x, p.y)) < 1e-6, "the centre is outside the building", (p.x - X0, Y0 - p.y))
    cen = poly.centroid
    if poly.buffer(-1e-6).intersects(cen):
        require(math.hypot(p.x - cen.x, p.y - cen.y) < 1e-6, "the centre is not the centroid", (p.x - cen.x, p.y - cen.y))
    require(float(p.z) == 0 if m is None else near_any(float(p.z), at(c, m, p.x, p.y)), "altitude of the centre", float(p.z))


def check_highest(c, m, poly, p):
    sure, may, void = highest_of(c, m, poly)
    require(poly.distance(Point(p.x, p.y)) < 1e-6, "the highest point is outside the building", (p.x - X0, Y0 - p.y))
    require(near_any(float(p.z), at(c, m, p.x, p.y)), "altitude of the highest point", (float(p.z), at(c, m, p.x, p.y)))
    if void:
        return
    if sure is not None:
        require(float(p.z) >= sure - 1e-3, "a higher point lies on the building", (float(p.z), sure))
    if may is not None:
        require(float(p.z) <= may + 1e-3 or sure is None, "higher than any point on the building", (float(p.z), may))
    if may is None:
        check_center(c, m, poly, p)


@CHECK.sub("building", lambda: towns(1), 2500, 60000, "the building has corners, stands on the surface and is higher than its surroundings")
def one(c, ctx):
    """Corners, centre and highest point of one building."""
    m, polys = town(c)
    poly = polys[0]
    el = gis.surface(m, X0, Y0, c["res"], EPSG, yres=c["yres"]) if c["surf"] else None
    mm = m if c["surf"] else None
    b = Building(Polygon(poly))
    require(tuple(b.bound) == tuple(poly.bounds), "bounds of the building")
    check_corners(c, mm, poly, b.detect_corners(el, c["angle"]), c["angle"])
    check_corners(c, mm, poly, b.detect_corners(el, None), None)
    check_center(c, mm, poly, b.detect_center(el))
    if el is not None:
        check_highest(c, m, poly, b.detect_highest(el))
        all_ = b.detect_all_site_candidate_locations(el, c["angle"], c["corners"], c["center"], c["highest"])
        want = (len(b.detect_corners(el, c["angle"])) if c["corners"] else 0) + c["center"] + c["highest"]
        require(len(all_) == want, "number of locations on a building", (len(all_), want))
        require((el.data_matrix == m).all(), "detection changed the surface")
    require(b.polygon.equals(poly), "detection changed the outline")
    ctx.label(c["b"][0]["kind"])
    ctx.nontrivial(c["surf"] and c["b"][0]["h"] > STEP and bool(corners_of(poly, c["angle"])[0]))


def key(s):
    return (round(s.latitude, 9), round(s.longitude, 9), None if s.altitude is None else round(s.altitude, 4), s.building_id)


@CHECK.sub("town", lambda: towns(4), 1500, 40000, "at least two buildings with sites of two kinds")
def group(c, ctx):
    """All buildings: kinds switched on, ids, roof heights, number of corner sites, independence of the others."""
    m, polys = town(c)
    el = gis.surface(m, X0, Y0, c["res"], EPSG, yres=c["yres"]) if c["surf"] else None

    def sites(ps):
        g = BuildingGroup([Building(p) for p in ps], gis.spatial_reference(EPSG))
        require(g.building_count == len(ps), "number of buildings")
        return g.detect_site_candidates(el, c["mount"], c["angle"], c["corners"], c["center"], c["highest"])

    got = sites(polys)
    for s in got:
        require(s.site_type == SiteType.DN and s.location_type == LocationType.ROOFTOP, "kind of a detected site")
        require(s.building_id is not None and 0 <= s.building_id < len(polys), "building of a detected site", s.building_id)
    for k, poly in enumerate(polys):
        mine = [s for s in got if s.building_id == k]
        b = Building(poly)
        expect = []  # the building's own points, judged above
        # the centre stands in for the highest point where no surface is given
        if c["center"] or (c["highest"] and el is None):
            expect.append([b.detect_center(el)])
        if c["highest"] and el is not None:
            expect.append([b.detect_highest(el)])
        ncor = 0
        if c["corners"]:
            cor = b.detect_corners(el, c["angle"])
            ncor = min(3, len(cor))
        require(len(mine) == len(expect) + ncor, "number of sites on a building", (len(mine), len(expect), ncor))
        left = list(mine)

        def take(p):
            for s in left:
                x, y = TO_UTM.transform(s.longitude, s.latitude)
                z = None if el is None else float(p.z) + c["mount"]
                if math.hypot(x - p.x, y - p.y) < 1e-3 and (s.altitude is None if z is None else s.altitude is not None and abs(s.altitude - z) < 1e-3):
                    left.remove(s)
                    return True
            return False

        for (p,) in expect:
            require(take(p), "a centre or highest point is missing among the sites", (p, [key(s) for s in mine]))
        if ncor:
            hit = [i for i, p in enumerate(cor) if take(p)]
            require(not left and len(hit) == ncor, "corner sites are not distinct corners of the building", (len(left), hit, len(cor)))
            if len(cor) > 3:
                gaps = [(hit[(i + 1) % 3] - hit[i]) % len(cor) for i in range(3)]
                require(min(gaps) >= len(cor) // 3, "corner sites are not spread around the building", (hit, len(cor)))
        for s in mine:
            x, y = TO_UTM.transform(s.longitude, s.latitude)
            require(poly.distance(Point(x, y)) < 1e-3, "a site is off its building", poly.distance(Point(x, y)))
    # the other buildings and their order make no difference
    t = c["turn"] % len(polys)
    order = list(range(len(polys)))[t:] + list(range(len(polys)))[:t]
    if c["turn"] > 2:
        order.reverse()
    again = sites([polys[i] for i in order])
    a = sorted(key(s) for s in got)
    b2 = sorted(key(s)[:3] + (order[s.building_id],) for s in again)
    require(a == sorted(b2), "sites depend on the order of the buildings")
    alone = [key(s)[:3] for s in sites([polys[t]])]
    require(sorted(alone, key=str) == sorted([key(s)[:3] for s in got if s.building_id == t], key=str), "sites depend on the other buildings")
    ctx.nontrivial(len(polys) > 1 and c["corners"] + c["center"] + c["highest"] > 1)


@CHECK.sub("heights", lambda: towns(3), 400, 8000, "some cells are inside and some outside")
def dhm(c, ctx):
    """A height model drawn from outlines: the building height inside, nothing outside."""
    m, polys = town(dict(c, holes=[]))
    polys = [Polygon(p.exterior) for p in polys]
    el = gis.surface(m, X0, Y0, c["res"], EPSG, yres=c["yres"])
    g = BuildingGroup([Building(p) for p in polys], gis.spatial_reference(EPSG))
    h = c["b"][0]["h"]
    out = g.to_dhm(el, h)
    require(out.data_matrix.shape == m.shape and (out.left_top_x, out.left_top_y, out.x_resolution, out.y_resolution) == (X0, Y0, c["res"], c["yres"]), "grid of the height model")
    n_in = n_out = 0
    for r in range(0, m.shape[0], 2):
        for q in range(0, m.shape[1], 2):
            p = Point(X0 + q * c["res"], Y0 - r * c["yres"])
            d = min(poly.distance(p) for poly in polys)
            v = float(out.data_matrix[r, q])
            if d > 2.5 * max(c["res"], c["yres"]):
                require(v == 0, "height outside every building", (v, d))
                n_out += 1
            elif d == 0 and max(poly.exterior.distance(p) for poly in polys if poly.contains(p) or poly.touches(p)) > 2 * max(c["res"], c["yres"]):
                require(abs(v - h) < 2e-3, "height inside a building", (v, h))
                n_in += 1
    ctx.nontrivial(n_in > 0 and n_out > 0)
