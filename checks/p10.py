"""P10: rasters and building outlines load, convert and save faithfully."""
import math
import os
import shutil
import zipfile

import hypothesis.strategies as st
import numpy as np
from osgeo import gdal, ogr
from shapely import ops
from shapely.geometry import LinearRing, Polygon, box as sbox

from harness import gis
from harness.core import Check, Discard, require, require_close
from harness.gen import fl
from terragraph_planner.common.data_io.building_group_loader import BuildingGroupLoader
from terragraph_planner.common.data_io.elevation_loader import ElevationLoader
from terragraph_planner.common.exceptions import PlannerException
from terragraph_planner.common.geos import TransformerLib
from terragraph_planner.common.structs import UTMBoundingBox
from terragraph_planner.los.building import Building
from terragraph_planner.los.building_group import BuildingGroup

CHECK = Check("P10")
CHECK.assumptions = [
    "GDAL stores pixels, georeferencing and outlines as it is told",
    "a crop may differ from its box by less than one cell on each side (GDAL snaps to whole pixels)",
]
gdal.PushErrorHandler("CPLQuietErrorHandler")
ND = gis.NODATA
EPSGS = [32631, 32733, 32601]
RES = [0.25, 0.5, 1.0, 1.5, 2.0, 5.0, 30.0]


def tif(name, matrix, left, top, rx, ry, epsg, nodata=ND, date=None, dtype=gdal.GDT_Float32):
    m = np.array(matrix, dtype=float)
    ds = gdal.GetDriverByName("GTiff").Create(name, m.shape[1], m.shape[0], 1, dtype)
    ds.SetGeoTransform([left, rx, 0, top, 0, -ry])
    ds.SetSpatialRef(gis.spatial_reference(epsg))
    band = ds.GetRasterBand(1)
    if nodata is not None:
        band.SetNoDataValue(nodata)
    band.WriteArray(m)
    if date is not None:
        ds.SetMetadataItem("TIFFTAG_DATETIME", date)
    band.FlushCache()
    ds = None


def load(paths, epsg, b):
    loader = ElevationLoader()
    e = loader.read(paths, epsg, UTMBoundingBox(min_utm_x=b[0], min_utm_y=b[1], max_utm_x=b[2], max_utm_y=b[3]))
    return e, loader.errors


# ---------------------------------------------------------------- rasters
@st.composite
def rasters(draw):
    h, w = draw(st.integers(1, 14)), draw(st.integers(1, 14))
    vals = st.one_of(st.integers(-50, 900).map(float), fl(-10, 500), st.just(float(ND)))
    return dict(
        m=[[draw(vals) for _ in range(w)] for _ in range(h)], res=draw(st.sampled_from(RES)), epsg=draw(st.sampled_from(EPSGS)),
        left=draw(st.sampled_from([500000.0, 300000.0, 512345.0, 700001.5])), top=draw(st.sampled_from([5000000.0, 100000.0, 4999999.25])),
        box=[draw(st.integers(-3, 8)) / 2 for _ in range(4)] if draw(st.booleans()) else [0, 0, 0, 0],
        cuts=draw(st.lists(st.integers(1, 13), max_size=2, unique=True)), axis=draw(st.sampled_from(["x", "y"])),
        tall=draw(st.sampled_from([1, 1, 1, 2, 0.5])), overlap=draw(st.integers(0, 2)), perm=draw(st.integers(0, 5)), writer=draw(st.booleans()),
    )


@CHECK.sub("raster", rasters, 600, 20000, "several cells with differing values and at least one cell kept after cropping")
def raster(c, ctx):
    """Write (possibly as tiles), read back over a box: the same values at the same positions."""
    m = np.array(c["m"], dtype=np.float32)
    h, w = m.shape
    res, left, top = c["res"], c["left"], c["top"]
    n = w if c["axis"] == "x" else h
    cuts = sorted(k for k in c["cuts"] if k < n)
    tiles = []
    for a, b in zip([0] + cuts, cuts + [n]):
        b = min(n, b + c["overlap"])
        tiles.append((m[:, a:b], left + a * res, top) if c["axis"] == "x" else (m[a:b, :], left, top - a * res))
    names = []
    for k, (t, lx, ty) in enumerate(tiles):
        nm = f"t{k}.tif"
        if c["writer"]:
            ElevationLoader().write(nm, gis.surface(t, lx, ty, res, c["epsg"]))
        else:
            tif(nm, t, lx, ty, res, res, c["epsg"])
        names.append(nm)
    k = c["perm"] % len(names)
    names = names[k:] + names[:k]
    bx = c["box"]  # shrink (positive) or grow (negative), in cells
    b = (left + bx[0] * res, top - (h - bx[1]) * res, left + (w - bx[2]) * res, top - bx[3] * res)
    if b[2] - b[0] < 2 * res or b[3] - b[1] < 2 * res:
        raise Discard()
    e, errs = load(names, c["epsg"], b)
    require(errs == [], "a valid raster is reported as faulty", [x.message for x in errs])
    require_close(e.x_resolution, res, "x resolution", rel=1e-6)
    require_close(e.y_resolution, res, "y resolution", rel=1e-6)
    require(e.crs_epsg_code == c["epsg"], "projection changed", e.crs_epsg_code)
    require(e.data_matrix.shape == (e.y_size, e.x_size), "size")
    require(e.collection_time is None, "collection time invented")
    # positions of the loaded cells in the original grid
    c0, r0 = (e.left_top_x - left) / res, (top - e.left_top_y) / res
    require(abs(c0 - round(c0)) < 1e-6 and abs(r0 - round(r0)) < 1e-6, "cells are shifted against the file", (c0, r0))
    c0, r0 = round(c0), round(r0)
    seen = 0
    for r in range(e.y_size):
        for q in range(e.x_size):
            rr, qq = r + r0, q + c0
            want = m[rr, qq] if 0 <= rr < h and 0 <= qq < w else ND
            seen += 0 <= rr < h and 0 <= qq < w
            require(e.data_matrix[r, q] == np.float32(want), "value differs from the file", (r, q, float(e.data_matrix[r, q]), float(want)))
    # extent of the crop, within one cell
    x1, y1 = e.left_top_x + e.x_size * res, e.left_top_y - e.y_size * res
    for got, want, nm in ((e.left_top_x, b[0], "left"), (e.left_top_y, b[3], "top"), (x1, b[2], "right"), (y1, b[1], "bottom")):
        require(abs(got - want) <= res * 1.000001, f"crop does not cover the box ({nm})", (got, want))
    if all(float(v).is_integer() for v in bx):
        require(e.x_size == round((b[2] - b[0]) / res) and e.y_size == round((b[3] - b[1]) / res), "size of an aligned crop")
    if len(tiles) > 1:
        ctx.label("tiles")
    if (m == ND).any():
        ctx.label("no data")
    ctx.nontrivial(seen > 3 and len(set(m.flatten().tolist())) > 2)
    # writing what was loaded and reading it again changes nothing
    ElevationLoader().write("again.tif", e)
    g, errs = load(["again.tif"], c["epsg"], (e.left_top_x, y1, x1, e.left_top_y))
    require(errs == [], "a written raster is reported as faulty")
    require(g.data_matrix.shape == e.data_matrix.shape and (g.data_matrix == e.data_matrix).all() and g.left_top_x == e.left_top_x and g.left_top_y == e.left_top_y,
            "written and re-read raster differs", (g.data_matrix.shape, e.data_matrix.shape))
    # cells that are not square stay as they are
    yres = res * c["tall"]
    ElevationLoader().write("tall.tif", gis.surface(m, left, top, res, c["epsg"], yres=yres))
    ds = gdal.Open("tall.tif")
    require(tuple(ds.GetGeoTransform()) == (left, res, 0.0, top, 0.0, -yres), "a written raster lies elsewhere or has other cells", ds.GetGeoTransform())
    require((ds.ReadAsArray() == m).all(), "a written raster has other values")
    ds = None
    g, errs = load(["tall.tif"], c["epsg"], (left, top - h * yres, left + w * res, top))
    if 0.15 <= yres <= 35:
        require(errs == [], "a raster whose cells are not square is reported as faulty")
    require(abs(g.x_resolution - res) < 1e-6 and abs(g.y_resolution - yres) < 1e-6, "resolution of cells that are not square", (g.x_resolution, g.y_resolution, res, yres))
    require(g.data_matrix.shape == m.shape and (g.data_matrix == m).all(), "values of cells that are not square", (g.data_matrix.shape, m.shape))


@st.composite
def planes(draw):
    return dict(src=draw(st.sampled_from(["ll", "zone", "same"])), lat=draw(fl(-60, 60)), dlon=draw(fl(-2.4, 2.4)), gx=draw(fl(-0.2, 0.2)), gy=draw(fl(-0.2, 0.2)),
                n=draw(st.integers(20, 60)), res=draw(st.sampled_from([1.0, 2.0, 5.0])), rect=draw(st.integers(0, 3)) == 0)


@CHECK.sub("warp", planes, 150, 4000, "source in another projection than the target, with a sloping surface")
def warp(c, ctx):
    """A sloping plane stored in another projection keeps its heights after loading."""
    lon = 3.0 + c["dlon"]
    epsg = (32600 if c["lat"] >= 0 else 32700) + 31
    tr = TransformerLib.get_tranformer(4326, epsg)
    cx, cy = tr.transform(lon, c["lat"])
    plane = lambda x, y: 200 + c["gx"] * (x - cx) + c["gy"] * (y - cy)
    n, res = c["n"], c["res"]
    if c["src"] == "ll":
        src = 4326
        sx, sy = res / (111320 * math.cos(math.radians(c["lat"]))), res / 110574
        left, top = lon - n / 2 * sx, c["lat"] + n / 2 * sy
    elif c["src"] == "zone":
        src = epsg + (1 if c["dlon"] > 0 else -1)
        x, y = TransformerLib.get_tranformer(4326, src).transform(lon, c["lat"])
        sx = sy = res
        left, top = x - n / 2 * res, y + n / 2 * res
    else:
        src, sx, sy, left, top = epsg, res, res, cx - n / 2 * res, cy + n / 2 * res
    back = TransformerLib.get_tranformer(src, epsg)
    X, Y = np.meshgrid(left + (np.arange(n) + 0.5) * sx, top - (np.arange(n) + 0.5) * sy)
    U, V = back.transform(X, Y) if src != epsg else (X, Y)
    tif("s.tif", plane(np.array(U), np.array(V)), left, top, sx, sy, src)
    k = n * res * 0.25
    e, errs = load(["s.tif"], epsg, (math.floor(cx - k), math.floor(cy - k), math.ceil(cx + k), math.ceil(cy + k)))
    require(errs == [], "a valid raster is reported as faulty", [x.message for x in errs])
    require(e.crs_epsg_code == epsg, "not in the requested projection")
    require(0.6 * res < e.x_resolution < 1.6 * res and 0.6 * res < e.y_resolution < 1.6 * res, "resolution changed", (res, e.x_resolution))
    tol = (abs(c["gx"]) + abs(c["gy"])) * 2 * max(res, e.x_resolution) + 1e-3
    for r in range(0, e.y_size, max(1, e.y_size // 5)):
        for q in range(0, e.x_size, max(1, e.x_size // 5)):
            x, y = e.idx_to_utm(q, r)
            require(abs(float(e.data_matrix[r, q]) - plane(x, y)) <= tol, "height is displaced", (x - cx, y - cy, float(e.data_matrix[r, q]), plane(x, y), tol))
    require(e.left_top_x + e.x_size * e.x_resolution >= cx + k - 2 * e.x_resolution, "crop misses the right side")
    require(e.left_top_y - e.y_size * e.y_resolution <= cy - k + 2 * e.y_resolution, "crop misses the lower side")
    ctx.label(c["src"])
    ctx.nontrivial(c["src"] != "same" and abs(c["gx"]) + abs(c["gy"]) > 0.02)


# ---------------------------------------------------------------- outlines
@st.composite
def ring(draw, cx, cy, rmax):
    k = draw(st.integers(3, 8))
    angs = [(i + draw(fl(0, 0.9))) * 360 / k for i in range(k)]
    return [[cx + draw(fl(0.6, 1)) * rmax * math.cos(math.radians(a)), cy + draw(fl(0.6, 1)) * rmax * math.sin(math.radians(a))] for a in angs]


@st.composite
def outlines(draw):
    n = draw(st.integers(1, 6))
    shapes = []
    for k in range(n):
        cx, cy = 100.0 * (k % 3), 100.0 * (k // 3)
        shell = draw(ring(cx, cy, draw(fl(5, 40))))
        holes = []
        if draw(st.integers(0, 2)) == 0:
            p = Polygon(shell)
            if p.is_valid and p.area > 20:
                q = p.representative_point()
                d = p.exterior.distance(q) * 0.5
                if d > 0.05:
                    if draw(st.booleans()):
                        holes.append([[q.x - d, q.y - d], [q.x + d, q.y - d], [q.x, q.y + d]])
                    else:  # two courtyards
                        holes.append([[q.x - d, q.y - d], [q.x - 0.2 * d, q.y - d], [q.x - 0.5 * d, q.y + 0.8 * d]])
                        holes.append([[q.x + 0.2 * d, q.y - d], [q.x + d, q.y - d], [q.x + d, q.y], [q.x + 0.3 * d, q.y + 0.5 * d]])
        shapes.append(dict(shell=shell, holes=holes))
    return dict(shapes=shapes, via=draw(st.sampled_from(["kml", "kmz", "zip", "zip", "write"])), utm=draw(st.booleans()), z=draw(st.booleans()),
                mac=draw(st.booleans()), multi=draw(st.booleans()), fault=draw(st.sampled_from([None] * 6 + ["multi", "twoshp", "folder", "noshp", "noprj", "junk", "line"])),
                # vertical systems: heights in metres, in feet, and a depth
                vert=draw(st.sampled_from([None] * 5 + [5703, 5773, 3855, 6360, 8228, 5715])))


LON0, LAT0, EPSG = 3.01, 45.02, 32631
TO_UTM, TO_LL = TransformerLib.get_tranformer(4326, EPSG), TransformerLib.get_tranformer(EPSG, 4326)
X0, Y0 = TO_UTM.transform(LON0, LAT0)


def to_poly(s, utm):
    f = (lambda x, y: (X0 + x, Y0 + y)) if utm else (lambda x, y: tuple(TO_LL.transform(X0 + x, Y0 + y)))
    return Polygon([f(*p) for p in s["shell"]], [[f(*p) for p in h] for h in s["holes"]])


def ring_kml(r, z, closing=True):
    return " ".join(f"{x!r},{y!r}" + (",12.5" if z else "") for x, y in r)


def kml_text(polys, z, multi):
    def pol(p):
        return ("<Polygon><outerBoundaryIs><LinearRing><coordinates>" + ring_kml(p.exterior.coords, z) + "</coordinates></LinearRing></outerBoundaryIs>"
                + "".join("<innerBoundaryIs><LinearRing><coordinates>" + ring_kml(h.coords, z) + "</coordinates></LinearRing></innerBoundaryIs>" for h in p.interiors) + "</Polygon>")

    marks = [f"<Placemark><name>b{k}</name>{'<MultiGeometry>' if multi else ''}{pol(p)}{'</MultiGeometry>' if multi else ''}</Placemark>" for k, p in enumerate(polys)]
    return '<?xml version="1.0" encoding="UTF-8"?><kml xmlns="http://www.opengis.net/kml/2.2"><Document>' + "".join(marks) + "</Document></kml>"


def write_shp(name, polys, epsg, z):
    ds = ogr.GetDriverByName("ESRI Shapefile").CreateDataSource(name)
    layer = ds.CreateLayer("Building", srs=gis.spatial_reference(epsg), geom_type=ogr.wkbPolygon25D if z else ogr.wkbPolygon)
    for p in polys:
        f = ogr.Feature(layer.GetLayerDefn())
        g = ogr.CreateGeometryFromWkt(p.wkt)
        if z:
            g.Set3D(True)
        f.SetGeometry(g)
        layer.CreateFeature(f)
    ds = None


def same(a, b, tol):
    return a.geom_type == b.geom_type and len(a.interiors) == len(b.interiors) and a.symmetric_difference(b).area <= tol * max(b.length, 1e-9)


@CHECK.sub("outlines", outlines, 800, 15000, "several outlines, one with a courtyard or with heights, or a refused container")
def outline_files(c, ctx):
    via, z = c["via"], c["z"]
    utm = c["utm"] and via in ("zip", "write")
    polys = [to_poly(s, utm) for s in c["shapes"]]
    if not all(p.is_valid for p in polys):
        raise Discard()
    epsg = EPSG if utm else 4326
    fault = c["fault"]
    loader = BuildingGroupLoader()
    refused = False
    shutil.rmtree("o", ignore_errors=True)
    if via in ("kml", "kmz"):
        if fault not in (None, "junk"):
            raise Discard()
        text = kml_text(polys, z, c["multi"])
        if fault == "junk":
            text = "not a map"
        if via == "kml":
            open("b.kml", "w").write(text)
        else:
            with zipfile.ZipFile("b.kmz", "w") as f:
                f.writestr("doc.kml", text)
        path = "b." + via
    elif via == "zip":
        os.mkdir("o")
        src = list(polys)
        if fault == "multi":
            from shapely.geometry import MultiPolygon
            src.append(MultiPolygon([to_poly(dict(shell=[[500, 0], [510, 0], [510, 10]], holes=[]), utm), to_poly(dict(shell=[[600, 0], [610, 0], [610, 10]], holes=[]), utm)]))
        write_shp("o/buildings.shp", src, epsg, z)
        vert = c.get("vert")
        if vert is not None:
            sr = gis.spatial_reference(epsg)
            sr.SetFromUserInput(f"EPSG:{epsg}+{vert}")
            open("o/buildings.prj", "w").write(sr.ExportToWkt())
            if vert in (6360, 8228, 5715):
                fault = fault or "vertical"
        with zipfile.ZipFile("b.zip", "w") as f:
            if c["mac"]:
                f.writestr(zipfile.ZipInfo("__MACOSX/"), "")
                f.writestr("__MACOSX/._buildings.shp", "mac")
            for nm in sorted(os.listdir("o")):
                if fault == "noshp" and nm.endswith(".shp") or fault == "noprj" and nm.endswith(".prj"):
                    continue
                f.write("o/" + nm, ("sub/" if fault == "folder" else "") + nm)
                if fault == "twoshp":
                    f.write("o/" + nm, "other" + nm[len("buildings"):])
        if fault == "junk":
            open("b.zip", "wb").write(b"PK not really")
        if fault == "line":
            raise Discard()
        path = "b.zip"
    else:
        if fault is not None:
            raise Discard()
        loader.write("b.zip", BuildingGroup([Building(p) for p in polys], gis.spatial_reference(epsg)))
        path = "b.zip"
    try:
        g = BuildingGroupLoader()
        grp = g.read(path)
        errs = [e.message for e in g.errors]
    except PlannerException as e:
        grp, errs = None, [e.message]
    if fault is not None:
        ctx.label("fault " + fault)
        ctx.nontrivial()
        require(errs, "a faulty outline file is accepted", fault)
        return
    require(grp is not None and errs == [], "a valid outline file is refused", errs)
    require(grp.crs_epsg_code == epsg, "projection of the outlines", grp.crs_epsg_code)
    require(grp.building_count == len(polys), "number of outlines", (grp.building_count, len(polys)))
    tol = 1e-9 if not utm else 1e-5
    for k, (a, b) in enumerate(zip(grp.building_polygons, polys)):
        require(same(a, b, tol), "outline differs from the file", (k, a.wkt[:300], b.wkt[:300]))
    if via == "zip" and c.get("vert"):
        ctx.label("vertical system")
    ctx.label(via + (" z" if z else "") + (" mac" if via == "zip" and c["mac"] else ""))
    ctx.nontrivial(len(polys) > 1 and (z or any(p.interiors for p in polys)))
    if via == "write":
        return
    # save as a shapefile and load again
    BuildingGroupLoader().write("again.zip", grp)
    h = BuildingGroupLoader().read("again.zip")
    require(h.building_count == len(polys) and all(same(a, b, tol) for a, b in zip(h.building_polygons, polys)), "outlines differ after saving and loading")
    require(h.crs_epsg_code == epsg, "projection after saving and loading")


@st.composite
def preps(draw):
    c = draw(outlines())
    k = draw(st.integers(4, 9))
    angs = [(i + draw(fl(0, 0.9))) * 360 / k for i in range(k)]
    return dict(shapes=c["shapes"], utm=draw(st.booleans()), bound=[[100 + draw(fl(0.3, 1)) * 200 * math.cos(math.radians(a)), 50 + draw(fl(0.3, 1)) * 200 * math.sin(math.radians(a))] for a in angs],
                sel=draw(st.one_of(st.none(), st.just([]), st.lists(st.tuples(fl(-60, 150), fl(-60, 100), fl(30, 200), fl(30, 200)), min_size=1, max_size=2))))


@CHECK.sub("preprocess", preps, 400, 12000, "the boundary cuts or drops an outline, or an outline is too small")
def preprocess(c, ctx):
    """Outlines are cut to the boundary, filtered by size and selection, and come out in the projected system."""
    bound = to_poly(dict(shell=c["bound"], holes=[]), False)
    local = lambda p: ops.transform(lambda x, y: (x - X0, y - Y0), p)
    polys = [to_poly(s, True) for s in c["shapes"]]
    if not bound.is_valid or not all(p.is_valid for p in polys):
        raise Discard()
    src = polys if c["utm"] else [to_poly(s, False) for s in c["shapes"]]
    sel = None if c["sel"] is None else [to_poly(dict(shell=[[x, y], [x + w, y], [x + w, y + h], [x, y + h]], holes=[]), False) for x, y, w, h in c["sel"]]
    grp = BuildingGroup([Building(p) for p in src], gis.spatial_reference(EPSG if c["utm"] else 4326))
    grp.preprocess(bound, EPSG, sel)
    require(grp.crs_epsg_code == EPSG, "not in the requested projection")
    # reference in local metres
    b = Polygon(c["bound"])
    usel = None if not c["sel"] else ops.unary_union([sbox(x, y, x + w, y + h) for x, y, w, h in c["sel"]])
    want, gray = [], []
    dropped = cut = 0
    for s in c["shapes"]:
        p = Polygon(s["shell"], s["holes"])
        q = p.intersection(b)
        parts = [g for g in getattr(q, "geoms", [q]) if g.geom_type == "Polygon" and not g.is_empty]
        cut += q.area < p.area - 1e-6
        if not parts:
            dropped += 1
        for g in parts:
            unsure = abs(g.area - 50) < 0.5
            if usel is not None:
                inside = g.difference(usel).area
                edge = g.boundary.distance(usel.boundary)
                if inside <= 1e-6 and edge > 0.01:
                    pass
                elif inside > 0.5:
                    dropped += 1
                    continue
                else:
                    unsure = True
            if unsure:
                gray.append(g)
            elif g.area > 50:
                want.append(g)
            else:
                dropped += 1
    got = [local(p) for p in grp.building_polygons]
    match = lambda a, g: a.geom_type == "Polygon" and a.symmetric_difference(g).area <= 0.01 * g.length + 0.01 * math.sqrt(g.area)
    left = list(got)
    for g in want:
        k = next((k for k, a in enumerate(left) if match(a, g)), None)
        require(k is not None, "a building inside the boundary is missing or distorted", (g.wkt[:300], [a.wkt[:200] for a in left][:3]))
        left.pop(k)
    for g in gray:
        k = next((k for k, a in enumerate(left) if match(a, g)), None)
        if k is not None:
            left.pop(k)
    require(not left, "a building outside the boundary, too small or outside the selection is kept", [a.wkt[:300] for a in left])
    order = [next((k for k, g in enumerate(want) if match(a, g)), None) for a in got]
    order = [k for k in order if k is not None]
    require(order == sorted(order), "order of the buildings changed", order)
    if cut:
        ctx.label("cut")
    if dropped:
        ctx.label("dropped")
    ctx.nontrivial(bool(cut or dropped) and bool(got))


# ---------------------------------------------------------------- rejects
@st.composite
def rejects(draw):
    return dict(kind=draw(st.sampled_from(["missing", "junk", "pixel", "date", "second", "unwritable"])), res=draw(st.sampled_from([0.05, 0.1, 0.14, 0.16, 1, 20, 34, 36, 60, 100])),
                years=draw(st.one_of(fl(-3, 40), st.sampled_from([0.01, 19.9, 20.1]))), bad=draw(st.integers(0, 6)) == 0, n=draw(st.integers(2, 6)))


@CHECK.sub("rejects", rejects, 250, 4000, "every case")
def reject(c, ctx):
    """Unreadable rasters raise; unsuitable ones are reported; suitable ones are not."""
    import datetime
    kind, n = c["kind"], c["n"]
    ctx.label(kind)
    ctx.nontrivial()
    res = c["res"] if kind == "pixel" else 1.0
    date = None
    if kind == "date":
        t = datetime.datetime.now() - datetime.timedelta(days=365 * c["years"])
        date = "yesterday" if c["bad"] else t.strftime("%Y:%m:%d %H:%M:%S")
    tif("a.tif", np.arange(n * n).reshape(n, n), 500000, 5000000, res, res, 32631, date=date)
    b = (500000, 5000000 - n * res, 500000 + n * res, 5000000)
    if kind == "unwritable":
        e, _ = load(["a.tif"], 32631, b)
        try:
            ElevationLoader().write("no/such/dir/a.tif", e)
        except PlannerException:
            return
        require(False, "an impossible write is not reported")
    paths = ["a.tif"]
    if kind == "missing":
        paths = ["nope.tif"]
    elif kind == "junk":
        open("j.tif", "w").write("II* this is no raster" * c["n"])
        paths = ["j.tif"]
    elif kind == "second":
        paths = ["a.tif", "nope.tif"]
    try:
        e, errs = load(paths, 32631, b)
    except PlannerException:
        require(kind in ("missing", "junk", "second"), "a readable raster is refused", kind)
        return
    require(kind in ("pixel", "date"), "an unreadable raster is accepted", kind)
    if kind == "pixel":
        require(bool(errs) == (not 0.15 <= res <= 35), "pixel size rule", (res, [x.message for x in errs]))
    else:
        require(e.collection_time == date, "collection time", (e.collection_time, date))
        if c["bad"] or abs(c["years"]) < 0.001 or abs(c["years"] - 20) < 0.001:
            require(not c["bad"] or errs, "malformed collection time accepted")
            return
        require(bool(errs) == (not 0 < c["years"] < 20), "collection time rule", (c["years"], [x.message for x in errs]))
