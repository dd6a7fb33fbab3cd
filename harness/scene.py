"""Generated surfaces with two or more sites, for the line-of-sight checks."""
import math

import hypothesis.strategies as st
import numpy as np

from harness import gis
from harness.gen import fl
from terragraph_planner.common.topology_models.site import LOSSite

X0, Y0, EPSG = 500000.0, 5000000.0, 32631


@st.composite
def scenes(draw, nsites=2, radius=None):
    """A raster with blocks, sites on it and bumps placed relative to the first two sites' beam."""
    h, w = draw(st.integers(3, 26)), draw(st.integers(3, 26))
    res = draw(st.sampled_from([0.5, 1.0, 1.0, 2.0]))
    yres = draw(st.sampled_from([res, res, res, 0.5, 2.0]))
    blocks = draw(st.lists(st.tuples(fl(0, 1), fl(0, 1), fl(0.02, 0.3), fl(0.02, 0.3), fl(0, 25)), max_size=3))
    sites = []
    for _ in range(nsites):
        out = draw(st.integers(0, 9)) == 0
        a, b = (-0.25, 1.25) if out else (0.0, 1.0)
        snap = draw(st.integers(0, 5)) == 0  # exactly on a cell centre
        sites.append(dict(x=draw(fl(a, b)), y=draw(fl(a, b)), z=draw(st.one_of(fl(2, 30), st.just(10.0))), snap=snap))
    if nsites == 2:
        mode = draw(st.integers(0, 7))
        if mode == 0:  # along a grid axis
            sites[1]["x"] = sites[0]["x"]
        elif mode == 1:
            sites[1]["y"] = sites[0]["y"]
        elif mode == 2:
            sites[1]["z"] = sites[0]["z"]
    bumps = draw(st.lists(st.tuples(fl(-0.1, 1.1), fl(-1.6, 1.6), fl(-1.6, 1.6)), max_size=5))
    holes = draw(st.lists(st.tuples(fl(0, 1), fl(0, 1)), max_size=2)) if draw(st.integers(0, 3)) == 0 else []
    return dict(h=h, w=w, res=res, yres=yres, base=draw(st.sampled_from([0.0, 0.0, 5.0, -3.0])), blocks=blocks, sites=sites, bumps=bumps, holes=holes,
                tight=draw(st.booleans()), sunk=draw(st.sampled_from([None, None, None, None, None, None, 0, 1])))


def build(c, radius):
    """Matrix (float32) and LOS sites of a scene; bumps are scaled by `radius`."""
    h, w, res, yres = c["h"], c["w"], c["res"], c["yres"]
    m = np.full((h, w), c["base"], dtype=np.float32)
    for x, y, dx, dy, z in c["blocks"]:
        c0, r0 = int(x * (w - 1)), int(y * (h - 1))
        m[r0:r0 + 1 + int(dy * h), c0:c0 + 1 + int(dx * w)] = z
    sites = []
    for s in c["sites"]:
        x, y = s["x"] * (w - 1) * res, s["y"] * (h - 1) * yres
        if s["snap"]:
            x, y = round(x / res) * res, round(y / yres) * yres
        sites.append((X0 + x, Y0 - y, s["z"]))
    (ax, ay, az), (bx, by, bz) = sites[:2]
    d = math.hypot(bx - ax, by - ay)
    if d > 0:
        nx, ny = -(by - ay) / d, (bx - ax) / d
        for p, e, q in c["bumps"]:
            x, y = ax + p * (bx - ax) + e * radius * nx, ay + p * (by - ay) + e * radius * ny
            col, row = round((x - X0) / res), round((Y0 - y) / yres)
            if 0 <= col < w and 0 <= row < h:
                cx, cy = X0 + col * res, Y0 - row * yres
                pp = ((cx - ax) * (bx - ax) + (cy - ay) * (by - ay)) / (d * d)
                m[row, col] = az + pp * (bz - az) + q * radius
    if c.get("sunk") is not None:  # the same scene, with one site at altitude 0
        z = sites[c["sunk"]][2]
        m -= np.float32(z)
        sites = [(x, y, a - z) for x, y, a in sites]
    for x, y in c["holes"]:
        m[int(y * (h - 1)), int(x * (w - 1))] = gis.NODATA
    return m, sites


def elevation(c, m):
    return gis.surface(m, X0, Y0, c["res"], EPSG, yres=c["yres"])


def los_site(p, loc=0, building=None):
    return LOSSite(utm_x=p[0], utm_y=p[1], altitude=p[2], location_type=loc, building_id=building)


def cells(c, m):
    h, w, res, yres = c["h"], c["w"], c["res"], c["yres"]
    X, Y = np.meshgrid(X0 + np.arange(w) * res, Y0 - np.arange(h) * yres)
    return X.ravel(), Y.ravel(), m.astype(float).ravel()
