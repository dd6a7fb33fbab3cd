"""P12: Fresnel-zone line-of-sight verdicts match the geometry of the zone."""
import math

import hypothesis.strategies as st
import numpy as np

from checks.p11 import LOCS, beams, simple, zones
from harness import scene
from harness.core import Check, Discard, require
from harness.gen import fl
from terragraph_planner.common.configuration.enums import LocationType
from terragraph_planner.common.exceptions import PlannerException
from terragraph_planner.common.structs import Point3D
from terragraph_planner.los.ellipsoidal_los_validator import EllipsoidalLOSValidator
from terragraph_planner.los.fresnel_zone import FresnelZone

CHECK = Check("P12")
CHECK.assumptions = [
    "above the middle of a tilted zone the documented method uses the zone's horizontal outline, which deviates by (radius / half length x slope)^2; verdicts are compared within that deviation",
    "cells within a micrometre of the ends of the path may count either way",
]
C_LIGHT = 299792458.0


def zone_radius(dist, mhz):
    return 0.5 * math.sqrt(C_LIGHT * dist / (mhz * 1e6))


def column_radius(X, Y, Z, a, b, top=None):
    """Radius of the largest ellipsoid of revolution around a-b that does not reach the column below each cell,

    and the share of the 2D outline left at that point (1 in the middle, 0 at the ends).
    The ellipsoids' sections with a vertical line are intervals, so the radius is quasi-convex in height.
    """
    a, b = np.array(a), np.array(b)
    v = b - a
    D, d2, mid = math.sqrt(v @ v), math.hypot(v[0], v[1]), (a + b) / 2
    ca, sa, cb, sb = v[0] / d2, v[1] / d2, d2 / D, v[2] / D
    x, y = X - mid[0], Y - mid[1]
    u, w = x * ca + y * sa, -x * sa + y * ca
    h = D / 2

    def f2(s):
        p, q = u * cb + s * sb, -u * sb + s * cb
        den = 1 - (p / h) ** 2
        return np.where(den > 0, (w * w + q * q) / np.where(den > 0, den, 1), np.inf)

    ax = u * sb / cb
    lo, hi = ax - 1e4, np.minimum(ax + 1e4, Z - mid[2])
    if abs(sb) > 1e-12:
        e1, e2 = (-h - u * cb) / sb, (h - u * cb) / sb
        lo, hi = np.maximum(lo, np.minimum(e1, e2)), np.minimum(hi, np.maximum(e1, e2))
    empty = hi < lo
    L, H = lo.copy(), np.maximum(hi, lo)
    for _ in range(120):
        m1, m2 = L + (H - L) * 0.382, L + (H - L) * 0.618
        g = f2(m1) <= f2(m2)
        H, L = np.where(g, m2, H), np.where(g, L, m1)
    best = np.minimum(np.minimum(f2(L), f2(H)), np.minimum(f2((L + H) / 2), np.where(empty, np.inf, f2(np.maximum(hi, lo)))))
    return np.sqrt(np.where(empty, np.inf, best)), 1 - (u / (d2 / 2)) ** 2


def reference(X, Y, Z, a, b, mhz, thr):
    """(lowest, highest) confidence allowed."""
    v = np.array(b) - np.array(a)
    D, d2 = math.sqrt(v @ v), math.hypot(v[0], v[1])
    R = zone_radius(D, mhz)
    # A micrometre either way in height and position
    r1 = column_radius(X, Y, Z + 1e-6, a, b)
    r, left = column_radius(X, Y, Z, a, b)
    k = np.minimum(r1[0], r) / R
    dev = (R / (d2 / 2) * v[2] / d2) ** 2
    edge = left < 1e-6 + 4e-6 / d2
    lo = k - 3e-6 / R / np.sqrt(np.maximum(left, 1e-9))
    with np.errstate(divide="ignore", invalid="ignore"):
        hi = np.where(edge, np.inf, k * (1 + dev / np.maximum(left, 1e-9)) + dev / np.maximum(left, 1e-9) + 3e-6 / R / np.sqrt(np.maximum(left, 1e-9)))
    lo = np.where(edge, np.minimum(lo, 0), lo)
    # the surface right under an end never counts
    for e in (a, b):
        at = (X == e[0]) & (Y == e[1])
        lo, hi = np.where(at, np.inf, lo), np.where(at, np.inf, hi)
    # a cell outside the zone's outline is not examined
    hi = np.where(np.isnan(hi), np.inf, hi)
    lo_all, hi_all = min(1.0, max(0.0, lo.min())), min(1.0, max(0.0, hi.min()))
    low = 0.0 if thr > 0 and lo_all <= thr and not (thr == 1.0 and lo.min() > 1) else lo_all
    high = 0.0 if hi_all < thr else hi_all
    return low, high, R, lo_all


@st.composite
def paths(draw):
    c = draw(beams())
    del c["radius"]
    c["mhz"] = draw(st.sampled_from([60000.0, 60000.0, 5000.0, 1000.0, 300.0, 28000.0]))
    if c["mhz"] == 300.0:
        c["mhz"] = draw(fl(300, 60000))
    if draw(st.booleans()):  # a plain pair at similar heights
        c["sites"][1]["z"] = c["sites"][0]["z"] + draw(fl(-3, 3))
        c.update(max=1000.0, min=0.01, dev=90.0, surf=True, alt=False, zones=[], bld=[None, None])
    return c


def setup(c):
    r = 1.0
    _, pts = scene.build(c, r)
    D = math.dist(pts[0], pts[1])
    if D > 0:
        r = zone_radius(D, c["mhz"])
    m, pts = scene.build(c, r)
    alt = c["surf"] or not c["alt"]
    s = [scene.los_site((p[0], p[1], p[2] if alt else None), LOCS[c["loc"][k]].value, c["bld"][k]) for k, p in enumerate(pts)]
    return m, pts, s, alt


def validator(c, surface, thr=None):
    return EllipsoidalLOSValidator(surface, c["max"], c["min"], c["dev"], c["mhz"], zones(c), c["thr"] if thr is None else thr)


@CHECK.sub("verdict", paths, 5000, 120000, "the pair passes the easy checks and the geometry decides the confidence to within 0.01")
def verdict(c, ctx):
    m, pts, (s1, s2), alt = setup(c)
    el = scene.elevation(c, m)
    before = el.data_matrix.copy()
    got = validator(c, el if c["surf"] else None).compute_confidence(s1, s2)
    back = validator(c, el if c["surf"] else None).compute_confidence(s2, s1)
    require((el.data_matrix == before).all(), "computing line of sight changed the surface")
    bad, good = simple(c, pts[0], pts[1], alt)
    if bad:
        ctx.label("easy negative")
        require(got == 0.0 and back == 0.0, "a pair excluded by range, elevation, building or zone is connected", (got, back))
        return
    if c["surf"]:
        lo, hi, R, raw = reference(*scene.cells(c, m), pts[0], pts[1], c["mhz"], c["thr"])
    else:
        lo, hi, raw = 1.0, 1.0, 1.0
    for g in (got, back):
        require(0.0 <= g <= 1.0, "confidence outside [0, 1]", g)
        if g == 0.0 and not good:
            continue
        require(lo <= g <= hi, "confidence differs from the surface cells in the zone", (g, lo, hi))
    tight = hi - lo < 0.01
    if tight and good:
        require(abs(got - back) <= hi - lo + 1e-9, "verdict depends on the direction", (got, back))
    ctx.label("clear" if got == 1 else "blocked" if got == 0 else "partial")
    ctx.nontrivial(good and tight and c["surf"] and raw < 1)


@CHECK.sub("relations", paths, 1500, 40000, "the pair is connected and the surface was raised")
def relations(c, ctx):
    """Raising cells, lowering the frequency or raising the threshold never connects a pair."""
    m, pts, (s1, s2), alt = setup(c)
    if not c["surf"] or pts[0][:2] == pts[1][:2]:
        raise Discard()
    el = scene.elevation(c, m)
    base = validator(c, el).compute_confidence(s1, s2)
    up = m.copy()
    for x, y, dx, dy, z in c["blocks"]:
        up[int(y * (c["h"] - 1)), int(x * (c["w"] - 1)):] += np.float32(z)
    slope = abs(pts[0][2] - pts[1][2]) / math.dist(pts[0][:2], pts[1][:2])
    R = zone_radius(math.dist(*pts), c["mhz"])
    slack = (R / math.dist(pts[0][:2], pts[1][:2]) * 2 * slope) ** 2 * 4
    if slack < 0.01:  # elsewhere switching from the tilted zone to its outline costs more than that
        higher = validator(c, scene.elevation(c, up)).compute_confidence(s1, s2)
        left = column_radius(*scene.cells(c, m), pts[0], pts[1])[1]
        if not (left[(left < 0.05)] > 0).any():
            require(higher <= base + 20 * slack + 1e-6, "raising the surface raised the confidence", (base, higher))
    free = validator(c, el, 0.0).compute_confidence(s1, s2)
    for thr in (0.2, 0.5, c["thr"], 0.9, 1.0):
        g = validator(c, el, thr).compute_confidence(s1, s2)
        require(g == 0.0 or abs(g - free) < 1e-6, "threshold changes the confidence of a connected pair", (thr, g, free))
        if free > thr + 1e-3 + 20 * slack or free == 1 and slack < 1e-9:
            require(g > 0 or slack >= 0.01, "a pair above the threshold is not connected", (thr, free))
        elif free < thr - 1e-3 - slack:
            require(g == 0 or slack >= 0.01, "a pair below the threshold is connected", (thr, free, g))
    wide = validator(dict(c, max=5000.0, min=0.001, dev=90.0, zones=[]), el).compute_confidence(s1, s2)
    require(base == 0 or abs(base - wide) < 1e-9, "limits change the confidence of an allowed pair", (base, wide))
    ctx.nontrivial(base > 0 and (m != up).any())


@st.composite
def zones_case(draw):
    return dict(d=[draw(fl(-300, 300)) for _ in range(3)], mhz=draw(fl(300, 70000)), thr=draw(fl(0, 1)),
                u=draw(fl(-1.1, 1.1)), w=draw(fl(-1.5, 1.5)), q=draw(fl(-1.5, 1.5)))


@CHECK.sub("zone", zones_case, 3000, 80000, "the sampled point lies beside the path")
def zone(c, ctx):
    """The zone's radius and its extent at any point of the path."""
    p1 = (scene.X0, scene.Y0, 100.0)
    p2 = tuple(p1[k] + c["d"][k] for k in range(3))
    L2 = math.hypot(c["d"][0], c["d"][1])
    if L2 < 1:
        raise Discard()
    z = FresnelZone(scene.los_site(p1, LocationType.STREET_LEVEL.value), scene.los_site(p2, LocationType.STREET_LEVEL.value), c["mhz"], c["thr"])
    L = math.sqrt(sum(k * k for k in c["d"]))
    R = zone_radius(L, c["mhz"])
    require(abs(z.fresnel_radius - R) < 1e-6 * R + 1e-9, "radius of the zone", (z.fresnel_radius, R))
    require(z.los_confidence_threshold == c["thr"] and z.frequency_mhz == c["mhz"], "zone attributes")
    # a point given by its position along the path, sideways and height offset
    ax, ay = c["d"][0] / L2, c["d"][1] / L2
    mid = [(p1[k] + p2[k]) / 2 for k in range(3)]
    u, w = c["u"] * L2 / 2, c["w"] * R
    x, y = mid[0] + u * ax - w * ay, mid[1] + u * ay + w * ax
    inside = 1 - c["u"] ** 2 - c["w"] ** 2
    if abs(inside) > 1e-6:
        require(z.check_point_within_outer_ellipse(x, y) == (inside > 0), "outline of the zone", (c["u"], c["w"]))
    if c["thr"] > 1e-3:
        inner = 1 - c["u"] ** 2 - (c["w"] / c["thr"]) ** 2
        if abs(inner) > 1e-6:
            require(z.check_point_within_inner_ellipse(x, y) == (inner > 0), "outline of the part that must be clear", (c["u"], c["w"]))
    else:
        inner = -1
    # At each height: largest clear zone against the quasi-convex search; only for gentle tilts, where outline and zone agree
    h = mid[2] + c["u"] * c["d"][2] / 2 + c["q"] * R * math.sqrt(max(0.0, 1 - c["u"] ** 2))
    k, left = column_radius(np.array([x]), np.array([y]), np.array([h]), p1, p2)
    dev = (R / (L2 / 2) * c["d"][2] / L2) ** 2 / max(1e-9, float(left[0]))
    if inside > 1e-3 and dev < 1e-3:
        got = z.get_max_fresnel_radius(Point3D(x, y, h))
        want = min(R, float(k[0]))
        require(abs(got - want) <= R * (1e-4 + 4 * dev), "largest clear zone beside the point", (got, want, R))
        ctx.nontrivial()
        blocks = z.check_point_obstruct_inner_fresnel_zone(Point3D(x, y, h))
        if float(k[0]) < R * (c["thr"] * (1 - 1e-3 - 4 * dev)) and c["thr"] > 0:
            require(blocks, "a point in the part that must be clear does not block", (k[0] / R, c["thr"]))
        if float(k[0]) > R * (c["thr"] + 1e-3 + 4 * dev):
            require(not blocks, "a point outside the part that must be clear blocks", (k[0] / R, c["thr"]))


@st.composite
def params(draw):
    return dict(max=draw(st.one_of(st.integers(-5, 300), fl(0, 5))), min=draw(st.one_of(st.integers(-5, 50), fl(0, 5))), dev=draw(st.one_of(fl(-10, 120), st.sampled_from([0, 90]))),
                thr=draw(st.one_of(fl(-0.5, 1.5), st.sampled_from([0, 1, 1.0]))))


@CHECK.sub("params", params, 300, 4000, "every case")
def bad_params(c, ctx):
    """Contradictory limits are refused."""
    ok = c["min"] > 0 and c["max"] > c["min"] and 0 <= c["dev"] <= 90 and 0 <= c["thr"] <= 1
    ctx.nontrivial()
    ctx.label("valid" if ok else "invalid")
    try:
        EllipsoidalLOSValidator(None, c["max"], c["min"], c["dev"], 60000.0, [], c["thr"])
    except PlannerException:
        require(not ok, "valid limits are refused")
        return
    require(ok, "contradictory limits are accepted", c)
