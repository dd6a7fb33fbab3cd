"""P14: surface queries return the cells asked for and change nothing."""
import math

import hypothesis.strategies as st
import numpy as np

from harness import gis
from harness.core import Check, Discard, require
from harness.gen import fl
from terragraph_planner.common.exceptions import DataException
from terragraph_planner.los.helper import upsample_to_same_resolution

CHECK = Check("P14")
CHECK.assumptions = [
    "a position within a nanometre of the line between two cells may be taken as in either",
    "the stand-in for a missing cell is the nearest of the cells that the surface lists (every cell, or one per half metre on finer surfaces) within 50 m, or else their average",
]
X0, Y0 = 500000.0, 5000000.0
RES = [0.25, 0.5, 1.0, 2.0, 4.0, 0.75]


@st.composite
def rasters(draw, big=False):
    h, w = draw(st.integers(1, 14)), draw(st.integers(1, 14))
    c = dict(h=h, w=w, res=draw(st.sampled_from(RES)), vals=draw(st.lists(st.integers(-20, 90), min_size=3, max_size=9)), step=draw(st.integers(1, 7)))
    n = draw(st.integers(0, 4))
    c["holes"] = draw(st.lists(st.tuples(st.integers(0, h - 1), st.integers(0, w - 1)), min_size=0 if n else 0, max_size=6)) if n < 3 else []
    c["band"] = n == 4 and draw(st.booleans())  # most of a wide raster missing: no valid cell within reach
    c["yres"] = draw(st.sampled_from([c["res"]] * 2 + RES))
    if c["band"]:
        c["w"], c["res"], c["yres"] = 40, 4.0, 4.0
    return c


def matrix(c):
    k = np.arange(c["h"] * c["w"])
    v = np.array(c["vals"], dtype=np.float32)
    m = (v[(k * c["step"] + k // 5) % len(v)] + (k % 97) * np.float32(0.25)).astype(np.float32).reshape(c["h"], c["w"])
    for r, q in c["holes"]:
        m[r % c["h"], q % c["w"]] = gis.NODATA
    if c["band"]:
        m[:, 12:] = gis.NODATA
    return m


def surface(c):
    return gis.surface(matrix(c), X0, Y0, c["res"], 32631, yres=c["yres"])


def near(i, size, tol=1e-9):
    """Indices a fractional index may be rounded to, within the raster."""
    lo, hi = math.floor(i + 0.5 - tol), math.ceil(i - 0.5 + tol)
    return {min(max(k, 0), size - 1) for k in (lo, hi)}


def stand_in(c, m, x, y):
    """Acceptable values for a missing cell at a position."""
    step, ystep = math.ceil(0.5 / c["res"]), math.ceil(0.5 / c["yres"])
    pts = [(X0 + q * c["res"], Y0 - r * c["yres"], float(m[r, q])) for r in range(0, c["h"], ystep) for q in range(0, c["w"], step) if m[r, q] != gis.NODATA]
    if not pts:
        return None
    d = np.array([math.hypot(p[0] - x, p[1] - y) for p in pts])
    z = np.array([p[2] for p in pts])
    ok = set(z[d <= d.min() + 1e-6]) if d.min() < 50 + 1e-6 else set()
    if d.min() >= 50 - 1e-6:
        ok.add(float(z.mean()))
    return ok


def lookup(c, m, x, y):
    """Acceptable values at a position (None: an error is expected; nan among them: an error is acceptable)."""
    out = set()
    for q in near((x - X0) / c["res"], c["w"]):
        for r in near((Y0 - y) / c["yres"], c["h"]):
            if m[r, q] == gis.NODATA:
                alt = stand_in(c, m, x, y)
                out |= {math.nan} if alt is None else alt
            else:
                out.add(float(m[r, q]))
    return out if any(v == v for v in out) else None


def may_fail(want):
    """An error is acceptable (on the line between two cells perhaps besides a value)."""
    return want is None or any(v != v for v in want)


def check_value(c, m, el, x, y):
    want = lookup(c, m, x, y)
    try:
        got = float(el.get_value(x, y))
    except DataException:
        require(may_fail(want), "a position with data around is refused", (x - X0, y - Y0))
        return
    require(want is not None, "a value where the surface has no data at all", got)
    require(any(abs(got - v) < 1e-3 for v in want), "value at a position", (got, sorted(want), x - X0, Y0 - y))


def positions(c):
    W, H = c["w"] * c["res"], c["h"] * c["yres"]
    return W, H


@st.composite
def histories(draw):
    c = draw(rasters())
    u = st.one_of(fl(-0.4, 1.4), fl(-0.05, 1.05), fl(0, 1), st.sampled_from([0.0, 1.0, 0.5]))
    c["ops"] = draw(st.lists(st.one_of(
        st.tuples(st.just("value"), u, u),
        st.tuples(st.just("list"), u, u, u, u),
        st.tuples(st.just("matrix"), u, u, u, u),
        st.tuples(st.just("box"), u, u, u, u, st.integers(0, 3)),
        st.tuples(st.just("closest"), u, u),
        st.tuples(st.just("all")),
        st.tuples(st.just("idx"), u, u),
    ), min_size=2, max_size=8))
    c["snap"] = draw(st.booleans())
    return c


def where(c, u, v):
    """Position of a relative coordinate; on a cell centre or edge when snapping."""
    x, y = u * (c["w"] - 1) * c["res"], v * (c["h"] - 1) * c["yres"]
    if c["snap"]:
        x, y = round(x / c["res"] * 2) * c["res"] / 2, round(y / c["yres"] * 2) * c["yres"] / 2
    return X0 + x, Y0 - y


def inner(lo, hi, start, res):
    """Whole indices k with lo <= start + k*res <= hi: (surely, possibly)."""
    a, b = (lo - start) / res, (hi - start) / res
    sure = range(math.ceil(a + 1e-9), math.floor(b - 1e-9) + 1)
    may = range(math.ceil(a - 1e-9), math.floor(b + 1e-9) + 1)
    return sure, may


@CHECK.sub("queries", histories, 8000, 200000, "the history asks for a value in the surface and for an area that holds at least one cell")
def queries(c, ctx):
    """Every query of a history against the plain array, the surface unchanged throughout."""
    m = matrix(c)
    el = surface(c)
    res, yres = c["res"], c["yres"]
    saw = set()
    for op in c["ops"]:
        kind = op[0]
        if kind == "value":
            x, y = where(c, op[1], op[2])
            check_value(c, m, el, x, y)
            saw.add("value")
        elif kind == "closest":
            x, y = where(c, op[1], op[2])
            want = stand_in(c, m, x, y)
            try:
                got = el.find_closest_valid_elevation([(x, y), (x, y)])
            except DataException:
                require(want is None, "no closest value although the surface has data")
                continue
            require(want is not None and len(got) == 2 and all(any(abs(g - v) < 1e-3 for v in want) for g in got), "closest valid value", (got, want))
        elif kind == "all":
            step, ystep = math.ceil(0.5 / res), math.ceil(0.5 / yres)
            want = sorted((X0 + q * res, Y0 - r * yres, float(m[r, q])) for r in range(0, c["h"], ystep) for q in range(0, c["w"], step) if m[r, q] != gis.NODATA)
            try:
                got = sorted((float(x), float(y), float(z)) for x, y, z in el.get_data_as_list())
            except DataException:
                require(not want, "listing the surface fails although it has data")
                continue
            require(want and got == want, "cells listed", (len(got), len(want)))
        elif kind == "idx":
            x, y = where(c, op[1], op[2])
            q, r = el.utm_to_idx(x, y)
            require(q in near((x - X0) / res, c["w"]) and r in near((Y0 - y) / yres, c["h"]), "cell of a position", (q, r))
            bx, by = el.idx_to_utm(q, r)
            require(abs(bx - (X0 + q * res)) < 1e-6 and abs(by - (Y0 - r * yres)) < 1e-6, "centre of a cell", (bx, by))
            require(el.utm_to_idx(bx, by) == (q, r), "the centre of a cell is in another cell")
        else:
            (xa, ya), (xb, yb) = where(c, op[1], op[2]), where(c, op[3], op[4])
            x0, x1, y0, y1 = min(xa, xb), max(xa, xb), min(ya, yb), max(ya, yb)
            sx, mx = inner(x0, x1, X0, res)
            # rows count downwards
            sy, my = inner(Y0 - y1, Y0 - y0, 0.0, yres)
            if kind == "list":
                try:
                    got = el.get_value_list_within_bound(x0, y0, x1, y1)
                except DataException:
                    require(any(may_fail(lookup(c, m, X0 + q * res, Y0 - r * yres)) for q in mx for r in my), "values of an area with data fail")
                    continue
                cells = {(round((p.x - X0) / res), round((Y0 - p.y) / yres)) for p in got}
                require(len(cells) == len(got), "a cell is listed twice")
                require({(q, r) for q in sx for r in sy} <= cells <= {(q, r) for q in mx for r in my}, "cells of an area", (sorted(cells)[:4], list(sx), list(sy)))
                for p in got:
                    want = lookup(c, m, p.x, p.y)
                    require(want and any(abs(float(p.z) - v) < 1e-3 for v in want), "value listed for a cell of an area", (float(p.z), want))
                if cells:
                    saw.add("area")
            elif kind == "matrix":
                options = []
                for xs in {tuple(sx), tuple(mx)}:
                    for ys in {tuple(sy), tuple(my)}:
                        xs2 = [q for q in xs if 0 <= q < c["w"]]
                        ys2 = [r for r in ys if 0 <= r < c["h"]]
                        options.append(m[np.ix_(ys2, xs2)] if xs2 and ys2 else None)
                try:
                    got = el.get_value_matrix_within_bound(x0, y0, x1, y1)
                except DataException:
                    require(any(o is None for o in options) and may_fail(lookup(c, m, x0, y0)), "values of an area with data fail")
                    continue
                ok = any(o is not None and got.shape == o.shape and (got == o).all() for o in options)
                if not ok and any(o is None for o in options) and got.shape == (1, 1):
                    want = lookup(c, m, x0, y0)
                    ok = want is not None and any(abs(float(got[0, 0]) - v) < 1e-3 for v in want)
                require(ok, "values of an area", (got.tolist() if got.size < 10 else got.shape, [None if o is None else o.shape for o in options]))
                if options[0] is not None:
                    saw.add("area")
            else:
                pick = [lambda x, y: True, lambda x, y: (x - X0) + (Y0 - y) <= (c["w"] + c["h"]) * res / 2, lambda x, y: round((x - X0) / res) % 2 == 0, lambda x, y: False][op[5]]
                got = el.get_all_obstructions(xa, ya, xb, yb, pick)
                cells = [(round((p.x - X0) / res), round((Y0 - p.y) / yres)) for p in got]
                require(len(set(cells)) == len(cells), "a cell is listed twice")
                for p, (q, r) in zip(got, cells):
                    require(0 <= q < c["w"] and 0 <= r < c["h"], "a cell outside the surface", (q, r))
                    require(abs(p.x - (X0 + q * res)) < 1e-6 and abs(p.y - (Y0 - r * yres)) < 1e-6 and p.z == m[r, q], "position or height of a listed cell", tuple(p))
                    require(pick(p.x, p.y), "a cell that the caller's condition excludes", (q, r))
                must = {(q, r) for q in sx for r in sy if 0 <= q < c["w"] and 0 <= r < c["h"] and pick(X0 + q * res, Y0 - r * yres)}
                require(must <= set(cells), "cells of a box are missing", (sorted(must - set(cells))[:4]))
                # nothing further than half a cell outside (of the part of the box within the surface)
                cx = [min(max(v, X0), X0 + (c["w"] - 1) * res) for v in (x0, x1)]
                cy = [min(max(v, Y0 - (c["h"] - 1) * yres), Y0) for v in (y0, y1)]
                for p in got:
                    require(cx[0] - res / 2 - 1e-6 <= p.x <= cx[1] + res / 2 + 1e-6 and cy[0] - yres / 2 - 1e-6 <= p.y <= cy[1] + yres / 2 + 1e-6, "a cell outside the box", tuple(p))
                if must:
                    saw.add("area")
        require((el.data_matrix == m).all(), "a query changed the surface", kind)
    require((el.x_resolution, el.y_resolution, el.left_top_x, el.left_top_y, el.x_size, el.y_size) == (res, yres, X0, Y0, c["w"], c["h"]), "a query changed the grid")
    ctx.nontrivial(saw == {"value", "area"})


@st.composite
def resampled(draw):
    c = draw(rasters())
    c["rx"], c["ry"] = draw(st.sampled_from(RES)), draw(st.sampled_from(RES))
    if draw(st.booleans()):
        c["ry"] = c["rx"]
    c["probe"] = draw(st.lists(st.tuples(fl(-0.1, 1.1), fl(-0.1, 1.1)), max_size=4))
    return c


@CHECK.sub("resample", resampled, 700, 15000, "the resolution changes and the surface has several cells")
def resample(c, ctx):
    """Resampling picks, at each new cell's centre, the value the surface had there."""
    m, el = matrix(c), surface(c)
    if not (m != gis.NODATA).any() or (c["h"] * c["w"] * c["res"] * c["yres"] / c["rx"] / c["ry"]) > 4000:
        raise Discard()
    try:
        el.set_resolution(c["rx"], c["ry"])
    except DataException:
        require(stand_in(c, m, X0, Y0) is None, "resampling a surface with data fails")
        return
    if (c["rx"], c["ry"]) == (c["res"], c["yres"]):
        require((el.data_matrix == m).all(), "same resolution changes the surface")
        return
    ex, ey = (c["w"] - 1) * c["res"], (c["h"] - 1) * c["yres"]
    nx = [n for n in range(1, 5000) if n * c["rx"] >= ex + c["rx"] / 2 - 1e-9][0]
    ny = [n for n in range(1, 5000) if n * c["ry"] >= ey + c["ry"] / 2 - 1e-9][0]
    require(el.x_size in (nx, nx + 1) and el.y_size in (ny, ny + 1), "size after resampling", (el.x_size, nx, el.y_size, ny))
    require((el.x_resolution, el.y_resolution) == (c["rx"], c["ry"]), "resolution after resampling")
    for r in range(el.y_size):
        for q in range(el.x_size):
            want = lookup(c, m, X0 + q * c["rx"], Y0 - r * c["ry"])
            require(want and any(abs(float(el.data_matrix[r, q]) - v) < 1e-3 for v in want), "value after resampling", (r, q, float(el.data_matrix[r, q]), want))
    for u, v in c["probe"]:
        x, y = X0 + u * ex, Y0 - v * ey
        vals = {float(el.data_matrix[r, q]) for r in near((Y0 - y) / c["ry"], el.y_size) for q in near((x - X0) / c["rx"], el.x_size)}
        require(float(el.get_value(x, y)) in vals, "value at a position after resampling")
    ctx.nontrivial(c["h"] * c["w"] > 3)


@st.composite
def pairs(draw):
    a = draw(rasters())
    b = draw(rasters())
    b.update(h=a["h"], w=a["w"], res=a["res"], yres=a["yres"], band=False)
    a["other"] = b
    a["off"] = draw(st.sampled_from([None, None, None, None, "left", "top", "res", "yres", "epsg", "size"]))
    a["combine"] = draw(st.booleans())
    a["res2"] = draw(st.sampled_from([0.5, 1.0, 2.0]))
    a["yres2"] = draw(st.sampled_from([a["res2"], 0.5, 2.0]))
    return a


@CHECK.sub("arithmetic", pairs, 900, 20000, "both surfaces have data in a common cell")
def arithmetic(c, ctx):
    """Adding and subtracting surfaces cell by cell; missing stays missing; different grids are refused."""
    b = c["other"]
    m1, m2 = matrix(c), matrix(b)
    e1 = surface(c)
    left, top, res, yres, epsg = X0, Y0, c["res"], c["yres"], 32631
    if c["off"] == "left":
        left += c["res"]
    elif c["off"] == "top":
        top -= c["yres"]
    elif c["off"] == "res":
        res *= 2
    elif c["off"] == "yres":
        yres *= 2
    elif c["off"] == "epsg":
        epsg = 32632
    elif c["off"] == "size":
        m2 = np.vstack([m2, m2[:1]])
    e2 = gis.surface(m2, left, top, res, epsg, yres=yres)
    k1, k2 = e1.data_matrix.copy(), e2.data_matrix.copy()
    for name, f in (("sum", lambda a, b: a + b), ("difference", lambda a, b: a - b)):
        try:
            out = f(e1, e2)
        except DataException:
            require(c["off"] is not None, name + " of surfaces on one grid is refused")
            continue
        require(c["off"] is None, name + " of surfaces on different grids", c["off"])
        void = (m1 == gis.NODATA) | (m2 == gis.NODATA)
        want = f(m1.astype(float), m2.astype(float))
        require((out.data_matrix[void] == gis.NODATA).all(), name + " where a surface is missing", out.data_matrix[void][:3].tolist())
        require(np.allclose(out.data_matrix[~void], want[~void], atol=1e-3), name + " of the cells")
        require((out.left_top_x, out.left_top_y, out.x_resolution, out.y_resolution, out.crs_epsg_code, out.utm_bounding_box) == (e1.left_top_x, e1.left_top_y, e1.x_resolution, e1.y_resolution, e1.crs_epsg_code, e1.utm_bounding_box), "grid of the " + name)
        ctx.nontrivial((~void).any())
    require((e1.data_matrix == k1).all() and (e2.data_matrix == k2).all(), "arithmetic changed an operand")


@CHECK.sub("combine", pairs, 300, 8000, "the two surfaces differ in resolution")
def combine(c, ctx):
    """Bringing two surfaces to a common resolution takes the finer one for both."""
    b = dict(c["other"], holes=[])
    c = dict(c, holes=[], band=False, w=min(c["w"], 14))
    b.update(res=c["res2"], yres=c["yres2"], w=c["w"])
    c.update(res=min(c["res"], 2.0), yres=min(c["yres"], 2.0))
    e1, e2 = surface(c), surface(b)
    m1, m2 = matrix(c), matrix(b)
    fine, yfine = min(c["res"], b["res"]), min(c["yres"], b["yres"])
    upsample_to_same_resolution(e1, e2)
    for cc, m, el in ((c, m1, e1), (b, m2, e2)):
        require((el.x_resolution, el.y_resolution) == (fine, yfine), "resolution of the combined surfaces")
        if (cc["res"], cc["yres"]) == (fine, yfine):
            require((el.data_matrix == m).all(), "the finer surface changes")
        for r in range(el.y_size):
            for q in range(el.x_size):
                want = lookup(cc, m, X0 + q * fine, Y0 - r * yfine)
                require(any(abs(float(el.data_matrix[r, q]) - v) < 1e-3 for v in want), "value after upsampling")
    both = e1 + e2
    require(np.allclose(both.data_matrix, e1.data_matrix.astype(float) + e2.data_matrix, atol=1e-3), "sum of the combined surfaces")
    ctx.nontrivial((c["res"], c["yres"]) != (b["res"], b["yres"]))
