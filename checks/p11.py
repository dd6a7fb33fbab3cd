"""P11: beam line-of-sight verdicts match the geometry of the beam."""
import math

import hypothesis.strategies as st
import numpy as np
from shapely.geometry import LineString, Polygon

from harness import gis, scene
from harness.core import Check, Discard, require
from harness.gen import fl
from terragraph_planner.common.configuration.enums import LocationType
from terragraph_planner.common.exceptions import PlannerException
from terragraph_planner.los.cylindrical_los_validator import CylindricalLOSValidator

CHECK = Check("P11")
CHECK.assumptions = [
    "a cell counts by its centre (as documented); cells within a micrometre of a decision boundary may fall on either side",
]
EPS = 1e-6


def reference(X, Y, Z, a, b, radius, thr):
    """(lowest, highest) confidence allowed: every cell of the surface against the oblique cylinder."""
    a, b = np.array(a, float), np.array(b, float)
    v = b - a
    d2 = math.hypot(v[0], v[1])
    dx, dy, dz = X - a[0], Y - a[1], Z - a[2]
    p = (dx * v[0] + dy * v[1]) / d2**2
    e = np.abs(dy * v[0] - dx * v[1]) / d2
    q = dz - p * v[2]
    # distance of the column under the cell from the axis
    t = (dx * v[0] + dy * v[1] + dz * v[2]) / (v @ v)
    d3 = np.sqrt((t * v[0] - dx) ** 2 + (t * v[1] - dy) ** 2 + (t * v[2] - dz) ** 2)
    L = math.sqrt(v @ v)
    above = q > 0
    dist = np.where(above, e, d3)
    # position along the beam, in metres from the nearer end (negative: beyond it)
    along2 = np.minimum(p, 1 - p) * d2
    along3 = np.minimum(t, 1 - t) * L
    inside = np.where(above, along2, np.minimum(along2, along3))
    side = radius - e
    sure = (inside > EPS) & (side > EPS)
    maybe = (inside > -EPS) & (side > -EPS)
    out = []
    top = max(a[2], b[2])
    for sel in (maybe, sure):
        dd = dist[sel]
        conf = min(1.0, dd.min() / radius) if dd.size else 1.0
        out.append(conf)
    lo, hi = out
    if thr == 1.0 and (Z[maybe] > top).any():
        lo = 0.0
        if (Z[sure] > top + EPS).any():
            hi = 0.0
    slack = EPS / radius
    lo2 = 0.0 if lo < thr + slack else max(0.0, lo - slack)
    hi2 = 0.0 if hi < thr - slack else hi + slack
    return lo2, hi2, int(maybe.sum())


@st.composite
def beams(draw):
    c = draw(scene.scenes())
    c["radius"] = draw(st.one_of(fl(0.3, 3), st.sampled_from([1.0, 0.5, 2.0])))
    c["thr"] = draw(st.one_of(st.sampled_from([1.0, 1.0, 0.0, 0.5, 0.6]), fl(0, 1), fl(0.9, 1)))
    c["max"] = draw(st.one_of(st.just(1000.0), st.just(1000.0), st.just(1000.0), fl(5, 30)))
    c["min"] = draw(st.one_of(st.just(0.01), st.just(0.01), fl(0.5, 8)))
    c["min"] = min(c["min"], c["max"] / 2)
    c["dev"] = draw(st.one_of(st.just(90.0), st.just(90.0), fl(0, 60), st.sampled_from([25.0, 0.0])))
    c["loc"] = [draw(st.sampled_from([0, 1, 2])) for _ in range(2)]
    c["bld"] = [draw(st.sampled_from([None, -1, 3, 4])) for _ in range(2)] if draw(st.integers(0, 3)) == 0 else [None, None]
    c["surf"] = draw(st.integers(0, 9)) > 0
    c["alt"] = not c["surf"] and draw(st.booleans())
    c["zones"] = draw(st.lists(st.tuples(fl(-0.1, 1), fl(-0.1, 1), fl(0.02, 0.5), fl(0.02, 0.5), st.integers(3, 6), fl(0, 1)), max_size=2)) if draw(st.integers(0, 4)) == 0 else []
    return c


LOCS = [LocationType.STREET_LEVEL, LocationType.ROOFTOP, LocationType.UNKNOWN]


def simple(c, a, b, alt):
    """The documented easy negative cases: (blocked for sure, clear for sure)."""
    if a[:2] == b[:2]:
        return True, False
    if c["loc"] == [1, 1] and c["bld"][0] == c["bld"][1] and c["bld"][0] is not None and c["bld"][0] > -1:
        return True, False
    dz = (a[2] - b[2]) if alt else 0.0
    dist = math.sqrt((a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2 + dz * dz)
    el = math.degrees(math.atan2(abs(dz), math.hypot(a[0] - b[0], a[1] - b[1])))
    bad = dist > c["max"] + EPS or dist < c["min"] - EPS or el > c["dev"] + EPS
    good = dist < c["max"] - EPS and dist > c["min"] + EPS and (el < c["dev"] - EPS or not alt or dz == 0)
    line = LineString([a[:2], b[:2]])
    for z in zones(c):
        d = line.distance(z)
        bad = bad or line.intersection(z.buffer(-1e-6)).length > EPS
        good = good and d > EPS
    return bad, good


def zones(c):
    W, H = (c["w"] - 1) * c["res"], (c["h"] - 1) * c["yres"]
    out = []
    for x, y, rx, ry, n, ph in c["zones"]:
        out.append(Polygon([(scene.X0 + x * W + rx * W * math.cos(2 * math.pi * (k + ph) / n), scene.Y0 - y * H + ry * H * math.sin(2 * math.pi * (k + ph) / n)) for k in range(n)]))
    return out


def validator(c, surface, thr=None):
    return CylindricalLOSValidator(surface, c["max"], c["min"], c["dev"], c["radius"], zones(c), c["thr"] if thr is None else thr)


def both(c):
    m, pts = scene.build(c, c["radius"])
    alt = c["surf"] or not c["alt"]
    s = [scene.los_site((p[0], p[1], p[2] if alt else None), LOCS[c["loc"][k]].value, c["bld"][k]) for k, p in enumerate(pts)]
    return m, pts, s, alt


@CHECK.sub("verdict", beams, 6000, 150000, "the pair passes the easy checks and at least one surface cell lies in the beam's outline")
def verdict(c, ctx):
    m, pts, (s1, s2), alt = both(c)
    el = scene.elevation(c, m)
    before = el.data_matrix.copy()
    v = validator(c, el if c["surf"] else None)
    got = v.compute_confidence(s1, s2)
    back = validator(c, el if c["surf"] else None).compute_confidence(s2, s1)
    require((el.data_matrix == before).all(), "computing line of sight changed the surface")
    bad, good = simple(c, pts[0], pts[1], alt)
    if bad:
        ctx.label("easy negative")
        require(got == 0.0 and back == 0.0, "a pair excluded by range, elevation, building or zone is connected", (got, back))
        return
    X, Y, Z = scene.cells(c, m)
    if c["surf"]:
        lo, hi, n = reference(X, Y, Z, pts[0], pts[1], c["radius"], c["thr"])
    else:
        lo, hi, n = 1.0, 1.0, 0
    for g in (got, back):
        require(0.0 <= g <= 1.0, "confidence outside [0, 1]", g)
        if g == 0.0 and not good:
            continue
        require(lo <= g <= hi, "confidence differs from the surface cells in the beam" if lo > 0 or hi < 1 else "confidence differs", (g, lo, hi, n))
    if hi - lo < 1e-3 and good:
        require(abs(got - back) <= 1e-5 / c["radius"], "verdict depends on the direction", (got, back))
    ctx.label("clear" if got == 1 else "blocked" if got == 0 else "partial")
    ctx.nontrivial(good and n > 0 and hi - lo < 1e-3)


@CHECK.sub("relations", beams, 2500, 60000, "the pair is connected with the lower surface or the weaker threshold")
def relations(c, ctx):
    """Raising cells, raising the threshold or narrowing the range never connects a pair; known thresholds agree."""
    m, pts, (s1, s2), alt = both(c)
    if not c["surf"] or pts[0][:2] == pts[1][:2]:
        raise Discard()
    c = dict(c, thr=min(c["thr"], 0.999))
    el = scene.elevation(c, m)
    base = validator(c, el).compute_confidence(s1, s2)
    up = m.copy()
    k = 0
    for x, y, dx, dy, z in c["blocks"]:
        r, q = int(y * (c["h"] - 1)), int(x * (c["w"] - 1))
        up[r, q:] += np.float32(z)
        k += 1
    higher = validator(c, scene.elevation(c, up)).compute_confidence(s1, s2)
    require(higher <= base + 1e-6, "raising the surface raised the confidence", (base, higher))
    free = validator(c, el, 0.0).compute_confidence(s1, s2)
    # including just below and just above the confidence itself
    for thr in (0.2, 0.5, c["thr"], 0.9, max(0.0, free - 1e-4), min(0.9999, free + 1e-4)):
        g = validator(c, el, thr).compute_confidence(s1, s2)
        if abs(free - thr) > 1e-6:
            require(abs(g - (free if free > thr else 0.0)) < 1e-9, "threshold does not cut at its value", (thr, g, free))
    wide = validator(dict(c, max=5000.0, min=0.001, dev=90.0, zones=[]), el).compute_confidence(s1, s2)
    require(base <= wide + 1e-9 and (base == 0 or abs(base - wide) < 1e-9), "limits change the confidence of an allowed pair", (base, wide))
    big = dict(c, radius=c["radius"] * 1.5)
    fat = validator(big, el, 0.0).compute_confidence(s1, s2) * big["radius"]
    X, Y, Z = scene.cells(c, m)
    bounds = [reference(X, Y, Z, pts[0], pts[1], r, 0.0) for r in (c["radius"], big["radius"])]
    if free > 0 and fat < c["radius"] - 1e-6 and all(hi - lo < 3 * EPS / c["radius"] for lo, hi, _ in bounds):
        # the nearest obstruction is within the narrow beam, so both see the same one
        require(abs(fat - free * c["radius"]) < 1e-5, "nearest obstruction depends on the beam's radius", (fat, free * c["radius"]))
    ctx.nontrivial(base > 0 and (m != up).any())


@st.composite
def params(draw):
    return dict(max=draw(st.one_of(st.integers(-5, 300), fl(0, 5))), min=draw(st.one_of(st.integers(-5, 50), fl(0, 5))), dev=draw(st.one_of(fl(-10, 120), st.sampled_from([0, 90]))),
                thr=draw(st.one_of(fl(-0.5, 1.5), st.sampled_from([0, 1, 1.0]))))


@CHECK.sub("params", params, 400, 4000, "every case")
def bad_params(c, ctx):
    """Contradictory limits are refused."""
    ok = c["min"] > 0 and c["max"] > c["min"] and 0 <= c["dev"] <= 90 and 0 <= c["thr"] <= 1
    ctx.nontrivial()
    ctx.label("valid" if ok else "invalid")
    try:
        CylindricalLOSValidator(None, c["max"], c["min"], c["dev"], 1.0, [], c["thr"])
    except PlannerException:
        require(not ok, "valid limits are refused")
        return
    require(ok, "contradictory limits are accepted", c)
