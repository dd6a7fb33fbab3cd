"""P01: coordinate conversions and geographic measures."""
import math

import hypothesis.strategies as st

from harness.gen import mixed
from harness.core import Check, expect_raises, require, require_close

from terragraph_planner.common import geos
from terragraph_planner.common.constants import EARTH_RADIUS
from terragraph_planner.common.exceptions import GeoSystemException
from terragraph_planner.common.geos import GeoLocation

CHECK = Check("P01")
CHECK.assumptions = [
    "UTM is used between 80 S and 84 N; points on the poles are excluded",
    "spherical measures use the documented Earth radius of 6371 km",
]


f = mixed
LAT = mixed(-80, 84, 0.0, -1e-9, 1e-9, 45.0, -33.5)
LON = mixed(
    -180, 180, -180.0, 180.0, 0.0, 6.0, -6.0, 179.999999, -174.0, 5.9999999
)


def lon_diff(a, b):
    d = (a - b) % 360.0
    return min(d, 360.0 - d)


def vec(lon, lat):
    lo, la = math.radians(lon), math.radians(lat)
    return (math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la))


def gc(lon1, lat1, lon2, lat2):
    """Great-circle distance by vectors."""
    a, b = vec(lon1, lat1), vec(lon2, lat2)
    cr = (
        a[1] * b[2] - a[2] * b[1],
        a[2] * b[0] - a[0] * b[2],
        a[0] * b[1] - a[1] * b[0],
    )
    return EARTH_RADIUS * math.atan2(
        math.sqrt(sum(x * x for x in cr)), sum(x * y for x, y in zip(a, b))
    )


def bearing_vec(lon1, lat1, lon2, lat2):
    """Bearing by projecting on the local east and north directions."""
    lo, la = math.radians(lon1), math.radians(lat1)
    east = (-math.sin(lo), math.cos(lo), 0.0)
    north = (-math.sin(la) * math.cos(lo), -math.sin(la) * math.sin(lo), math.cos(la))
    b = vec(lon2, lat2)
    return (
        math.degrees(
            math.atan2(
                sum(x * y for x, y in zip(b, east)),
                sum(x * y for x, y in zip(b, north)),
            )
        )
        % 360.0
    )


@CHECK.sub(
    "utm",
    lambda: st.fixed_dictionaries(
        {"lat": LAT, "lon": LON, "alt": st.one_of(st.none(), f(-400, 9000)),
         "de": f(-300, 300), "dn": f(-300, 300),
         "ask": st.permutations(["utm_x", "utm_y", "utm_epsg", "latitude", "longitude", "altitude"])}
    ),
    4000,
    80000,
    "a latitude/longitude is converted to UTM and back; non-trivial: not on the equator or a zone edge",
)
def utm(c, ctx):
    loc = GeoLocation(latitude=c["lat"], longitude=c["lon"], altitude=c["alt"])
    x, y, epsg = loc.utm_x, loc.utm_y, loc.utm_epsg
    require(loc.latitude == c["lat"] and loc.longitude == c["lon"], "utm-mutates")
    require(loc.altitude == c["alt"], "altitude-lost")
    zone = epsg % 100
    require(1 <= zone <= 60, "utm-zone", epsg)
    require(
        lon_diff(zone * 6 - 183, c["lon"]) <= 3 + 1e-9,
        "utm-zone", f"{epsg} for longitude {c['lon']}",
    )
    require(
        epsg // 100 == (326 if c["lat"] >= 0 else 327),
        "utm-hemisphere", f"{epsg} for latitude {c['lat']}",
    )
    require(100000 < x < 900000 and -1 <= y <= 10000001, "utm-range", f"{x} {y}")
    back = GeoLocation(utm_x=x, utm_y=y, utm_epsg=epsg, altitude=c["alt"])
    require(
        abs(back.latitude - c["lat"]) < 1e-8
        and lon_diff(back.longitude, c["lon"]) < 1e-7,
        "utm-round-trip",
        f"({c['lat']}, {c['lon']}) -> ({back.latitude}, {back.longitude})",
    )
    require(back.altitude == c["alt"], "altitude-lost")
    require(
        (back.utm_x, back.utm_y, back.utm_epsg) == (x, y, epsg), "utm-mutates"
    )
    # whatever is asked for first, and however the place was given
    first = dict(utm_x=x, utm_y=y, utm_epsg=epsg, latitude=c["lat"], longitude=c["lon"], altitude=c["alt"])
    fresh = GeoLocation(latitude=c["lat"], longitude=c["lon"], altitude=c["alt"])
    require({k: getattr(fresh, k) for k in c["ask"]} == first, "order of asking", c["ask"])
    first.update(latitude=back.latitude, longitude=back.longitude)
    fresh = GeoLocation(utm_x=x, utm_y=y, utm_epsg=epsg, altitude=c["alt"])
    require({k: getattr(fresh, k) for k in c["ask"]} == first, "order of asking", c["ask"])
    # distances in one zone agree with distances on the ground (the
    # ellipsoid differs from the sphere by up to 0.6 %, UTM scale by 0.1 %)
    other = GeoLocation(utm_x=x + c["de"], utm_y=y + c["dn"], utm_epsg=epsg)
    d = math.hypot(c["de"], c["dn"])
    hv = geos.haversine_distance(
        loc.longitude, loc.latitude, other.longitude, other.latitude
    )
    require(
        abs(hv - d) <= 0.012 * d + 0.01, "utm-distance", f"utm {d} haversine {hv}"
    )
    cp = loc.copy(altitude=12.5)
    require(
        (cp.latitude, cp.longitude, cp.altitude) == (c["lat"], c["lon"], 12.5)
        and loc.altitude == c["alt"],
        "copy",
    )
    require((loc.copy().utm_x, loc.copy().utm_y, loc.copy().utm_epsg, loc.copy().altitude) == (x, y, epsg, c["alt"]), "copy")
    require(loc.copy(altitude=None).altitude is None and loc.altitude == c["alt"], "copy")
    if abs(c["lon"]) > 179.99999:
        ctx.label("antimeridian")
        return
    away = back.copy(altitude=3.0)
    require(abs(away.latitude - c["lat"]) < 1e-8 and lon_diff(away.longitude, c["lon"]) < 1e-7 and away.altitude == 3.0 and back.altitude == c["alt"], "copy", (away.latitude, away.longitude, away.altitude))
    cp2 = back.copy()
    require(
        abs(cp2.latitude - c["lat"]) < 1e-8
        and lon_diff(cp2.longitude, c["lon"]) < 1e-7
        and cp2.altitude == c["alt"],
        "copy",
    )
    ctx.nontrivial(abs(c["lat"]) > 0.01 and lon_diff(c["lon"], 0) % 6 > 1e-6)
    if lon_diff(c["lon"], 0) % 6 < 1e-6:
        ctx.label("zone edge")


@CHECK.sub(
    "invalid",
    lambda: st.fixed_dictionaries(
        {
            "kind": st.sampled_from(["lat", "lon", "epsg", "missing", "missing_utm"]),
            "mag": f(1e-6, 400),
            "neg": st.booleans(),
            "epsg": st.one_of(
                st.integers(0, 32600),
                st.integers(32661, 32700),
                st.integers(32761, 99999),
            ),
        }
    ),
    400,
    4000,
    "coordinates outside the valid ranges or incomplete must be rejected; every case is non-trivial",
)
def invalid(c, ctx):
    ctx.nontrivial()
    s = -1 if c["neg"] else 1
    kw = {
        "lat": {"latitude": s * (90 + c["mag"]), "longitude": 3.0},
        "lon": {"latitude": 3.0, "longitude": s * (180 + c["mag"])},
        "epsg": {"utm_x": 5e5, "utm_y": 4e6, "utm_epsg": c["epsg"]},
        "missing": {"latitude": 3.0, "utm_x": 5e5, "utm_y": 4e6},
        "missing_utm": {"utm_x": 5e5, "utm_epsg": 32610, "longitude": 3.0},
    }[c["kind"]]
    with expect_raises(GeoSystemException, "accepts-invalid", f"{kw}"):
        GeoLocation(**kw)


@CHECK.sub(
    "distance",
    lambda: st.fixed_dictionaries(
        {
            "p": st.lists(st.tuples(f(-180, 180), f(-89.9, 89.9)), min_size=3, max_size=3),
            "scale": st.sampled_from([1.0, 1e-2, 1e-3, 1e-4]),
        }
    ),
    4000,
    60000,
    "three points, spread over the globe or a neighbourhood; non-trivial: all pairwise distances positive",
)
def distance(c, ctx):
    base = c["p"][0]
    pts = [
        (base[0] + (p[0] - base[0]) * c["scale"], base[1] + (p[1] - base[1]) * c["scale"])
        for p in c["p"]
    ]
    d = {}
    for i in range(3):
        for j in range(3):
            d[i, j] = float(geos.haversine_distance(*pts[i], *pts[j]))
            want = gc(*pts[i], *pts[j])
            require_close(d[i, j], want, "haversine", f"{pts[i]} {pts[j]}", 1e-6, 1e-3)
    for i in range(3):
        require(d[i, i] == 0, "self-distance")
        for j in range(3):
            require(d[i, j] >= 0 and abs(d[i, j] - d[j, i]) < 1e-3, "asymmetric")
    require(d[0, 2] <= d[0, 1] + d[1, 2] + 1e-3, "triangle")
    ctx.nontrivial(min(d[0, 1], d[1, 2], d[0, 2]) > 1e-2)
    ctx.label("near" if d[0, 1] < 1e4 else "far")


@CHECK.sub(
    "bearing",
    lambda: st.fixed_dictionaries(
        {
            "lon": LON, "lat": f(-84, 84), "b": f(0, 360),
            "d": st.one_of(f(0.5, 2000), f(2000, 200000)),
        }
    ),
    4000,
    60000,
    "a point is moved along a bearing; the distance and bearing to the new point are measured back; non-trivial: every case",
)
def bearing(c, ctx):
    ctx.nontrivial()
    lon2, lat2 = geos.translate_point(c["lon"], c["lat"], c["b"], c["d"])
    lon2, lat2 = float(lon2), float(lat2)
    d = gc(c["lon"], c["lat"], lon2, lat2)
    require_close(d, c["d"], "translate-distance", f"{c}", 1e-5, 1e-3)
    want = bearing_vec(c["lon"], c["lat"], lon2, lat2)
    tol = 0.01 + 0.02 / c["d"]
    require(lon_diff(want, c["b"]) < tol, "translate-bearing", f"{want} vs {c['b']}")
    got = float(geos.bearing_in_degrees(c["lon"], c["lat"], lon2, lat2))
    require(0 <= got <= 360, "bearing-range", got)
    require(lon_diff(got, want) < tol, "bearing", f"{got} vs {want}")
    back = float(geos.bearing_in_degrees(lon2, lat2, c["lon"], c["lat"]))
    if c["d"] < 1000:
        require(lon_diff(back + 180, got) < 0.3 + tol, "bearing-reverse", f"{got} {back}")
    # grid spacing
    dx, dy = geos.grid_deltas(c["lon"], c["lat"], c["d"])
    if c["d"] < 20000:
        require_close(
            gc(c["lon"], c["lat"], c["lon"], c["lat"] + dy), c["d"],
            "grid-north", "", 1e-4, 1e-3,
        )
        require(dy > 0 and dx > 0, "grid-sign")
        require_close(
            gc(c["lon"], c["lat"], c["lon"] + dx, c["lat"]), c["d"],
            "grid-east", f"{c}", 1e-2, 1e-3,
        )


ANG = st.one_of(f(0, 360), st.sampled_from([0.0, 90.0, 180.0, 270.0, 360.0]))


@CHECK.sub(
    "angles",
    lambda: st.fixed_dictionaries(
        {
            "a": ANG, "b": ANG,
            "p0": st.tuples(f(-500, 500), f(-500, 500)),
            "r": st.tuples(f(1, 500), f(1, 500)),
            "lat": f(-60, 60), "lon": f(-170, 170),
        }
    ),
    4000,
    60000,
    "two directions and two distances from a point; non-trivial: the directions differ",
)
def angles(c, ctx):
    a, b = c["a"], c["b"]
    d = geos.angle_delta(a, b)
    require(-180 < d <= 180, "angle-range", d)
    k = (a - b - d) / 360
    require(abs(k - round(k)) < 1e-9, "angle-congruent", f"{a}-{b}={d}")
    x0, y0 = c["p0"]
    p1 = (x0 + c["r"][0] * math.cos(math.radians(a)), y0 + c["r"][0] * math.sin(math.radians(a)))
    p2 = (x0 + c["r"][1] * math.cos(math.radians(b)), y0 + c["r"][1] * math.sin(math.radians(b)))
    got = float(geos.law_of_cosines_utm(x0, y0, *p1, *p2))
    want = lon_diff(a, b)
    require(
        abs(math.cos(math.radians(got)) - math.cos(math.radians(want))) < 1e-6
        and 0 <= got <= 180,
        "planar-angle", f"{got} vs {want}",
    )
    # the same on the sphere, at link scale
    q1 = geos.translate_point(c["lon"], c["lat"], a, c["r"][0])
    q2 = geos.translate_point(c["lon"], c["lat"], b, c["r"][1])
    ang, ratio = geos.law_of_cosines_spherical(
        c["lat"], c["lon"], q1[1], q1[0], q2[1], q2[0]
    )
    require(
        abs(math.cos(math.radians(ang)) - math.cos(math.radians(want))) < 1e-3,
        "spherical-angle", f"{ang} vs {want}",
    )
    require_close(
        float(ratio), max(c["r"]) / min(c["r"]), "length-ratio", f"{c}", 1e-4
    )
    ctx.nontrivial(want > 1e-3)


ALPHA = "0123456789abcdefghijklmnopqrstuv"


@CHECK.sub(
    "geohash",
    lambda: st.fixed_dictionaries(
        {"lat": f(-90, 90), "lon": f(-180, 180), "u": f(0.01, 0.99), "v": f(0.01, 0.99),
         "dlat": f(-1, 1), "dlon": f(-1, 1)}
    ),
    3000,
    40000,
    "the hash is decoded independently to a cell which must contain the point; non-trivial: every case",
)
def geohash(c, ctx):
    ctx.nontrivial()

    def cell(h):
        lat, lon = [-90.0, 90.0], [-180.0, 180.0]
        bit_no = 0
        for ch in h:
            v = ALPHA.index(ch)
            for b in (16, 8, 4, 2, 1):
                rng = lon if bit_no % 2 == 0 else lat
                mid = (rng[0] + rng[1]) / 2
                if v & b:
                    rng[0] = mid
                else:
                    rng[1] = mid
                bit_no += 1
        return lat, lon

    h = geos.lat_lon_to_geo_hash(c["lat"], c["lon"])
    require(len(h) == 10, "geohash-length", h)
    lat, lon = cell(h)
    require(
        lat[0] <= c["lat"] <= lat[1] and lon[0] <= c["lon"] <= lon[1],
        "geohash-cell", f"{h} {lat} {lon} {c}",
    )
    # another point of the same cell has the same hash, one outside has not
    p = (lat[0] + c["u"] * (lat[1] - lat[0]), lon[0] + c["v"] * (lon[1] - lon[0]))
    require(geos.lat_lon_to_geo_hash(*p) == h, "geohash-cell-mate")
    for bad in ((c["lat"] + math.copysign(180.1, c["lat"]), c["lon"]), (c["lat"], c["lon"] + math.copysign(360.1, c["lon"])), (c["lat"] - math.copysign(270.0, c["lat"]), c["lon"])):
        try:
            got = geos.lat_lon_to_geo_hash(*bad)
        except GeoSystemException:
            continue
        require(False, "geohash-of-nowhere", f"{bad} {got}")
    q = (c["lat"] + c["dlat"], c["lon"] + c["dlon"])
    if -90 <= q[0] <= 90 and -180 <= q[1] <= 180:
        inside = lat[0] <= q[0] < lat[1] and lon[0] <= q[1] < lon[1]
        if not inside and not (q[0] in lat or q[1] in lon):
            require(geos.lat_lon_to_geo_hash(*q) != h, "geohash-collision", f"{c}")
