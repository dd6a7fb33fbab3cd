"""P09: input sites merge without loss or invention, and get their location by rule."""
import csv as csvlib
import json
import xml.sax.saxutils as sx
from functools import partial

import hypothesis.strategies as st
from shapely.geometry import Polygon

from harness import gis
from harness.core import Check, Discard, Violation, require, require_close
from harness.gen import fl
from terragraph_planner.common.configuration.configs import DeviceData, SectorParams
from terragraph_planner.common.configuration.enums import DeviceType, LocationType, SiteType, StatusType
from terragraph_planner.common.data_io.input_sites_loader import InputSitesLoader
from terragraph_planner.common.exceptions import DataException, PlannerException
from terragraph_planner.common.geos import GeoLocation
from terragraph_planner.common.structs import RawSite
from terragraph_planner.los.helper import infer_input_site_location

CHECK = Check("P09")
CHECK.assumptions = [
    "names carry no suffix that looks like another site's SKU",
    "sites do not lie exactly on the boundary nor exactly between two cells",
]
EPSG = 32631
LON0, LAT0 = 3.0, 45.0  # on the central meridian of the zone
DEV = [DeviceData(device_sku=s, sector_params=SectorParams(), device_type=t) for s, t in
       (("DnA", DeviceType.DN), ("dn b", DeviceType.DN), ("Cn1", DeviceType.CN), ("CN2", DeviceType.CN))]


@st.composite
def raws(draw):
    nd = draw(st.sampled_from([["DnA", "Cn1"], ["DnA", "dn b", "Cn1"], ["DnA", "dn b", "Cn1", "CN2"]]))
    pos = draw(st.lists(st.tuples(st.integers(-4, 4), st.integers(-4, 4)), min_size=1, max_size=4, unique=True))
    rows = []
    for _ in range(draw(st.integers(1, 8))):
        if rows and draw(st.integers(0, 3)) == 0:
            r = dict(draw(st.sampled_from(rows)))
            f = draw(st.sampled_from(["", "", "sku", "subs", "status", "case", "name"]))
            if f == "sku":
                r["sku"] = None
            elif f == "subs":
                r["subs"] = draw(st.integers(0, 9))
            elif f == "status":
                r["status"] = draw(st.sampled_from(["CANDIDATE", "EXISTING", "PROPOSED"]))
            elif f == "case" and r["sku"]:
                r["sku"] = r["sku"].upper()
            elif f == "name":
                r["name"] = draw(st.sampled_from(["p", "q", None]))
            rows.append(r)
            continue
        t = draw(st.sampled_from(["POP", "DN", "CN"]))
        skus = [s for s in nd if s.lower().startswith("cn" if t == "CN" else "dn")]
        rows.append(dict(
            t=t, p=draw(st.sampled_from(pos)), alt=draw(st.sampled_from([None, 5.0, 7.5])),
            sku=draw(st.sampled_from([None] + skus + skus)), name=draw(st.sampled_from([None, "", "p", "q", "r s", "u", "v", "w", "x"])),
            loc=draw(st.sampled_from(["UNKNOWN", "UNKNOWN", "STREET_LEVEL", "ROOFTOP"])), subs=draw(st.one_of(st.none(), st.integers(0, 9))),
            status=draw(st.sampled_from(["CANDIDATE", "EXISTING"])),
        ))
    box = draw(st.one_of(st.none(), st.tuples(st.integers(-5, 0), st.integers(-5, 0), st.integers(0, 5), st.integers(0, 5))))
    return dict(dev=nd, rows=rows, box=box, perm=draw(st.permutations(range(len(rows)))))


def raw(r):
    return RawSite(
        site_type=SiteType[r["t"]], status_type=StatusType[r["status"]], device_sku=r["sku"], name=r["name"],
        latitude=LAT0 + r["p"][1] * 1e-4, longitude=LON0 + r["p"][0] * 1e-4, altitude=r["alt"], height=None,
        location_type=LocationType[r["loc"]], building_id=3 if r["loc"] == "ROOFTOP" else None, number_of_subscribers=r["subs"],
    )


def model(c, rows):
    """The documented merge, or None if the rows conflict."""
    out, seen, named = [], set(), {}
    for r in rows:
        x, y = r["p"]
        if c["box"] is not None:
            a, b, d, e = c["box"]
            if not (a - 0.5 < x < d + 0.5 and b - 0.5 < y < e + 0.5):
                continue
        if r["sku"]:
            skus = [s for s in c["dev"] if s.casefold() == r["sku"].casefold()]
        else:
            skus = [s for s in c["dev"] if s.lower().startswith("cn" if r["t"] == "CN" else "dn")]
        for s in skus:
            key = (x, y, r["alt"], r["t"], r["loc"], r["name"] or "", s)
            if key in seen:
                continue
            if not r["name"]:
                # an unnamed site is named by what identifies it, so the same
                # place, kind and device with another location kind conflicts
                ident = ("", x, y, r["alt"], r["t"])
            else:
                ident = ("n", r["name"])
            if s in named.setdefault(ident, []):
                return None
            seen.add(key)
            named[ident].append(s)
            out.append(dict(r, sku=s, ident=ident))
    for o in out:
        multi = len(named[o["ident"]]) > 1 and o["ident"][0] == "n"
        o["final"] = f"{o['name']}_{o['sku'].casefold()}" if multi else o["name"]
    return out


def key(s):
    return (s.site_type.name, round((s.longitude - LON0) * 1e4), round((s.latitude - LAT0) * 1e4), s.altitude, s.location_type.name, s.name, s.device.device_sku)


@CHECK.sub(
    "merge", raws, 4000, 80000,
    "generated rows with duplicates, blank SKUs and name conflicts are merged and compared with a reference merge; non-trivial: something is merged, renamed, expanded, cut by the boundary or rejected",
)
def merge(c, ctx):
    poly = None
    if c["box"] is not None:
        a, b, d, e = c["box"]
        x0, y0, x1, y1 = LON0 + (a - 0.5) * 1e-4, LAT0 + (b - 0.5) * 1e-4, LON0 + (d + 0.5) * 1e-4, LAT0 + (e + 0.5) * 1e-4
        poly = Polygon([(x0, y0), (x1, y0), (x1, y1), (x0, y1)])
    devices = [d for d in DEV if d.device_sku in c["dev"]]
    results = []
    for rows in (c["rows"], [c["rows"][i] for i in c["perm"]]):
        want = model(c, rows)
        loader = InputSitesLoader(devices)
        if want is None:
            ctx.nontrivial()
            ctx.label("conflict")
            try:
                loader.get_input_sites([raw(r) for r in rows], poly, None)
            except DataException:
                results.append(None)
                continue
            raise Violation("accepts-conflicting-names", json.dumps(rows))
        got = loader.get_input_sites([raw(r) for r in rows], poly, None)
        require(len(got) == len(want), "count", f"{len(got)} {len(want)}")
        ctx.nontrivial(len(want) != len(rows) or any(w["final"] != w["name"] for w in want))
        for g, w in zip(got, want):
            require(g.site_type.name == w["t"] and g.location_type.name == w["loc"], "kind")
            require((g.latitude, g.longitude) == (LAT0 + w["p"][1] * 1e-4, LON0 + w["p"][0] * 1e-4), "position")
            require(g.altitude == w["alt"], "altitude")
            require(g.device.device_sku == w["sku"], "device", f"{g.device.device_sku} {w['sku']}")
            require(g.status_type.name == w["status"], "status")
            if w["t"] == "CN":
                require(g.number_of_subscribers == (w["subs"] or 1), "subscribers", f"{g.number_of_subscribers} {w['subs']}")
            if w["ident"][0] == "n":
                require(g.name == w["final"], "name", f"{g.name} {w['final']}")
            else:
                require(g.name == g.site_id, "own-name")
            require(got.get_site_by_name(g.name) is g, "by-name", f"{g.name}")
            same = [o for o in got if o.site_id == g.site_id]
            require(got.get_site_by_id(g.site_id) in same, "by-id")
        require(list(got.site_list) == list(got), "iteration")
        results.append(sorted(map(key, got), key=repr))
    require(results[0] == results[1] or None in results, "order-dependent", f"{results}")
    require((results[0] is None) == (results[1] is None), "order-dependent-conflict")


@st.composite
def places(draw):
    w, h = draw(st.integers(2, 8)), draw(st.integers(2, 8))
    res = draw(st.sampled_from([1.0, 2.0, 0.5, 3.0]))
    base = draw(st.integers(-5, 300))
    cell = st.sampled_from([0, 0, 1, 1.9375, 2, 2.0625, 5, 20])
    dsm = [[draw(cell) + base for _ in range(w)] for _ in range(h)]
    dtm = draw(st.sampled_from([None, "flat", "half"]))
    pts = draw(st.lists(st.tuples(
        fl(-0.45, w - 1 + 0.45), fl(-0.45, h - 1 + 0.45), st.one_of(st.none(), st.none(), fl(0, 400, 4000)), st.one_of(st.none(), st.none(), st.sampled_from([0.0, 3.5, 12.0])),
        st.sampled_from(["UNKNOWN", "UNKNOWN", "ROOFTOP", "STREET_LEVEL"]), st.sampled_from(["POP", "DN", "CN"]),
    ), min_size=1, max_size=4))
    heights = draw(st.tuples(*[st.sampled_from([0.0, 1.5, 3.0, 5.0, 7.0])] * 4))
    return dict(dsm=dsm, dtm=dtm, base=base, res=res, pts=pts, heights=heights, nosurface=draw(st.sampled_from([False] * 7 + [True])))


@CHECK.sub(
    "infer", places, 3000, 60000,
    "sites with and without height, altitude and location kind are placed on a generated surface; non-trivial: some height or kind is inferred",
)
def infer(c, ctx):
    left, top = 500000.0, 4983000.0
    surf = gis.surface(c["dsm"], left, top, c["res"], EPSG)
    terr = None
    tres = c["res"] * (1 if c["dtm"] == "flat" else 2)
    if c["dtm"]:
        terr = gis.surface([[c["base"]] * 40] * 40, left - 4 * tres, top + 4 * tres, tres, EPSG)
    if c["nosurface"]:
        surf = terr = None
    roof, pop, dn, cn = c["heights"]
    fn = partial(
        infer_input_site_location, surface_elevation=surf, terrain_elevation=terr, mounting_height_above_rooftop=roof,
        default_pop_height_on_pole=pop, default_dn_height_on_pole=dn, default_cn_height_on_pole=cn,
    )
    for px, py, alt, height, loc, typ in c["pts"]:
        if abs(px - int(px + 100.5) + 100) > 0.49 or abs(abs(px % 1) - 0.5) < 0.01 or abs(abs(py % 1) - 0.5) < 0.01:
            continue
        g = GeoLocation(utm_x=left + px * c["res"], utm_y=top - py * c["res"], utm_epsg=EPSG)
        ctx.nontrivial(surf is not None and (alt is None or (loc == "UNKNOWN" and terr is not None)))
        site, kind = fn(latitude=g.latitude, longitude=g.longitude, altitude=alt, height=height, location_type=LocationType[loc], site_type=SiteType[typ])
        require((site.latitude, site.longitude) == (g.latitude, g.longitude), "moved")
        if surf is None:
            require(site.altitude == alt and kind.name == loc, "inferred-from-nothing")
            continue
        ground = c["dsm"][int(round(py))][int(round(px))]
        want = loc
        if loc == "UNKNOWN" and terr is not None:
            want = "ROOFTOP" if ground - c["base"] >= 2 else "STREET_LEVEL"
        require(kind.name == want, "location-kind", f"{kind} expected {want} at {ground - c['base']} above terrain")
        if alt is not None:
            z = alt
        elif height is not None:
            z = ground + height
        elif want == "ROOFTOP":
            z = ground + roof
        else:
            z = ground + {"POP": pop, "DN": dn, "CN": cn}[typ]
        require(site.altitude is not None, "altitude-missing")
        require_close(site.altitude, z, "altitude", f"{alt} {height} {want} {typ}", abs_=1e-4)


@CHECK.sub(
    "files", places, 800, 12000,
    "the same sites written as table and as map file load to the same sites at the documented heights; non-trivial: some height is inferred",
)
def files(c, ctx):
    left, top = 500000.0, 4983000.0
    surf = gis.surface(c["dsm"], left, top, c["res"], EPSG)
    roof, pop, dn, cn = c["heights"]
    fn = partial(
        infer_input_site_location, surface_elevation=surf, terrain_elevation=gis.surface([[c["base"]] * 40] * 40, left - 8, top + 8, c["res"], EPSG),
        mounting_height_above_rooftop=roof, default_pop_height_on_pole=pop, default_dn_height_on_pole=dn, default_cn_height_on_pole=cn,
    )
    rows, seen = [], set()
    for i, (px, py, alt, height, loc, typ) in enumerate(c["pts"]):
        if abs(abs(px % 1) - 0.5) < 0.01 or abs(abs(py % 1) - 0.5) < 0.01 or (px, py) in seen:
            continue
        seen.add((px, py))
        g = GeoLocation(utm_x=left + px * c["res"], utm_y=top - py * c["res"], utm_epsg=EPSG)
        if alt is not None:
            height = None
        rows.append((i, typ, g.latitude, g.longitude, alt, height, c["dsm"][int(round(py))][int(round(px))]))
    if not rows:
        return
    with open("s.csv", "w", newline="") as f:
        w = csvlib.writer(f)
        w.writerow(["name", "type", "lat", "lon", "altitude", "height", "sku"])
        for i, typ, la, lo, alt, height, _ in rows:
            w.writerow([f"s{i}", typ, repr(la), repr(lo), "" if alt is None else repr(alt), "" if height is None else repr(height), "Cn1" if typ == "CN" else "DnA"])
    body = ""
    for typ in ("POP", "DN", "CN"):
        body += f"<Folder><name>{typ}s</name>"
        for i, t, la, lo, alt, height, _ in rows:
            if t == typ:
                z = alt if alt is not None else height if height is not None else 0
                mode = "absolute" if alt is not None else "relativeToGround" if height is not None else "clampToGround"
                body += (f"<Placemark><name>s{i}</name><ExtendedData><Data name='sku'><value>{'Cn1' if typ == 'CN' else 'DnA'}</value></Data>"
                         f"<Data name='location type'><value>UNKNOWN</value></Data></ExtendedData>"
                         f"<Point><altitudeMode>{mode}</altitudeMode><coordinates>{lo!r},{la!r},{z!r}</coordinates></Point></Placemark>")
        body += "</Folder>"
    with open("s.kml", "w") as f:
        f.write('<?xml version="1.0" encoding="UTF-8"?><kml xmlns="http://www.opengis.net/kml/2.2"><Document>' + body + "</Document></kml>")
    a = {s.name: s for s in InputSitesLoader(DEV).read_user_input("s.csv", None, fn)}
    b = {s.name: s for s in InputSitesLoader(DEV).read_user_input("s.kml", None, fn)}
    ctx.nontrivial(any(r[4] is None for r in rows))
    require(len(InputSitesLoader(DEV).read_user_input(None, None, fn)) == 0, "no-file")
    require(set(a) == set(b) == {f"s{r[0]}" for r in rows}, "sites", f"{sorted(a)} {sorted(b)}")
    for i, typ, la, lo, alt, height, ground in rows:
        kind = "ROOFTOP" if ground - c["base"] >= 2 else "STREET_LEVEL"
        z = alt if alt is not None else ground + (height if height is not None else roof if kind == "ROOFTOP" else {"POP": pop, "DN": dn, "CN": cn}[typ])
        for s in (a[f"s{i}"], b[f"s{i}"]):
            require(s.site_type.name == typ, "type")
            require(s.location_type.name == kind, "location-kind")
            require((s.building_id is not None) == (kind == "ROOFTOP"), "building-id")
            require_close(s.latitude, la, "latitude", abs_=1e-9)
            require_close(s.longitude, lo, "longitude", abs_=1e-9)
            require_close(s.altitude, z, "altitude", abs_=1e-4)
