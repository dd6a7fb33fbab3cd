"""P03: geometry of links and identity of sites."""
import math
import subprocess
import sys

import hypothesis.strategies as st

from harness.core import Check, require, require_close
from harness.gen import fl, mixed
from checks.p01 import bearing_vec, gc, lon_diff

from terragraph_planner.common.configuration.configs import DeviceData, SectorParams
from terragraph_planner.common.configuration.enums import (
    DeviceType, LinkType, LocationType, SiteType, StatusType,
)
from terragraph_planner.common.exceptions import TopologyException
from terragraph_planner.common.geos import GeoLocation
from terragraph_planner.common.structs import LinkBudgetMeasurements
from terragraph_planner.common.topology_models.link import Link
from terragraph_planner.common.topology_models.sector import Sector
from terragraph_planner.common.topology_models.site import Site

CHECK = Check("P03")
CHECK.assumptions = ["sites of one link are within 5 km of each other"]


def dev(kind, sku="x"):
    return DeviceData(device_sku=sku, sector_params=SectorParams(), device_type=DeviceType[kind])


def site(t, lat, lon, alt, status="PROPOSED", sku="x", utm=False):
    loc = GeoLocation(latitude=lat, longitude=lon, altitude=alt)
    if utm:
        loc = GeoLocation(utm_x=loc.utm_x, utm_y=loc.utm_y, utm_epsg=loc.utm_epsg, altitude=alt)
    return Site(
        SiteType[t], loc, dev("CN" if t == "CN" else "DN", sku), StatusType[status],
        LocationType.UNKNOWN, None, "", None,
    )


ALT = st.one_of(st.none(), fl(-50, 500), st.just(10.0))


@CHECK.sub(
    "geometry",
    lambda: st.fixed_dictionaries(
        {
            "lat": mixed(-75, 75, 0.0), "lon": mixed(-179, 179, 0.0),
            "dx": mixed(-2500, 2500, 0.0), "dy": mixed(-2500, 2500, 0.0),
            "a1": ALT, "a2": ALT, "az1": fl(0, 360), "az2": fl(0, 360),
            "t1": st.sampled_from(["DN", "POP"]), "t2": st.sampled_from(["DN", "POP", "CN"]),
            "wired": st.booleans(), "sectors": st.booleans(), "utm": st.booleans(),
            "ch": st.integers(0, 3),
        }
    ),
    8000,
    150000,
    "two sites and the links between them in both directions; non-trivial: horizontally apart with both altitudes known",
)
def geometry(c, ctx):
    lat2 = c["lat"] + c["dy"] / 111195.0
    lon2 = c["lon"] + c["dx"] / 111195.0 / math.cos(math.radians(c["lat"]))
    if not -180 <= lon2 <= 180:
        return
    s1 = site(c["t1"], c["lat"], c["lon"], c["a1"], utm=c["utm"])
    s2 = site(c["t2"], lat2, lon2, c["a2"])
    sec1, sec2 = Sector(s1, 0, 0, c["az1"], StatusType.PROPOSED, c["ch"]), Sector(s2, 0, 0, c["az2"], StatusType.PROPOSED, c["ch"])
    kw = {"is_wireless": not c["wired"]}
    fwd = Link(tx_site=s1, rx_site=s2, tx_sector=sec1 if c["sectors"] else None,
               rx_sector=sec2 if c["sectors"] else None, status_type=StatusType.PROPOSED, **kw)
    flat = gc(s1.longitude, s1.latitude, s2.longitude, s2.latitude)
    both = c["a1"] is not None and c["a2"] is not None
    want = math.hypot(flat, c["a2"] - c["a1"]) if both else flat
    require_close(fwd.distance, want, "link-distance", f"{c}", 1e-6, 1e-4)
    apart = flat > 0.5
    if apart:
        az = bearing_vec(s1.longitude, s1.latitude, s2.longitude, s2.latitude)
        require(lon_diff(fwd.tx_beam_azimuth, az) < 1e-3, "tx-azimuth", f"{fwd.tx_beam_azimuth} {az}")
    require(lon_diff(fwd.rx_beam_azimuth, fwd.tx_beam_azimuth + 180) < 1e-6, "rx-azimuth")
    require(0 <= fwd.tx_beam_azimuth <= 360 and 0 <= fwd.rx_beam_azimuth <= 360, "azimuth-range")
    el = math.degrees(math.asin((c["a2"] - c["a1"]) / want)) if both and want > 1e-9 and abs(c["a2"] - c["a1"]) <= want else 0.0
    require_close(fwd.el_dev, el, "elevation-angle", f"{c}", 1e-4, 1e-3)
    if c["sectors"] and not c["wired"]:
        for d, b, a in ((fwd.tx_dev, fwd.tx_beam_azimuth, c["az1"]), (fwd.rx_dev, fwd.rx_beam_azimuth, c["az2"])):
            require(-180 < d <= 180 and lon_diff(d, b - a) < 1e-6, "beam-deviation", f"{d} {b} {a}")
    else:
        require(fwd.tx_dev is None and fwd.rx_dev is None, "beam-deviation")
    require(
        fwd.link_type == (LinkType.ETHERNET if c["wired"] else LinkType.WIRELESS_ACCESS if c["t2"] == "CN" else LinkType.WIRELESS_BACKHAUL),
        "link-type",
    )
    require(fwd.link_channel == (c["ch"] if c["sectors"] else -1), "link-channel", fwd.link_channel)
    if c["t2"] != "CN":
        rev = Link(tx_site=s2, rx_site=s1, tx_sector=sec2 if c["sectors"] else None,
                   rx_sector=sec1 if c["sectors"] else None, status_type=StatusType.PROPOSED, **kw)
        require_close(rev.distance, fwd.distance, "distance-asymmetric", f"{c}", 1e-9, 1e-5)
        require_close(rev.el_dev, -fwd.el_dev, "elevation-asymmetric", f"{c}", 1e-5, 1e-3)
        if apart:
            require(lon_diff(rev.tx_beam_azimuth, fwd.rx_beam_azimuth) < 0.3 + 0.1 / flat, "azimuth-asymmetric",
                    f"{rev.tx_beam_azimuth} {fwd.rx_beam_azimuth}")
        require(rev.link_hash == fwd.link_hash, "link-hash")
        require((rev.link_id != fwd.link_id) == (s1.site_id != s2.site_id), "link-id")
        require(rev.sorted_site_ids == fwd.sorted_site_ids, "sorted-ends")
    b = LinkBudgetMeasurements(mcs_level=9, rsl_dbm=-60.0, snr_dbm=11.5, capacity=1.2, tx_power=12.0)
    require(b.sinr_dbm == 11.5, "sinr-default")
    fwd.link_budget = b
    require(
        (fwd.mcs_level, fwd.rsl_dbm, fwd.snr_dbm, fwd.capacity, fwd.tx_power, fwd.sinr_dbm)
        == (9, -60.0, 11.5, 1.2, 12.0, 11.5), "budget-values",
    )
    fwd.sinr_dbm = 3.0
    fwd.capacity = 0.5
    require((fwd.link_budget.sinr_dbm, fwd.link_budget.capacity, fwd.snr_dbm) == (3.0, 0.5, 11.5), "budget-values")
    ctx.nontrivial(apart and both)


@CHECK.sub(
    "identity",
    lambda: st.fixed_dictionaries(
        {
            "lat": mixed(-75, 75), "lon": mixed(-179, 179), "a": ALT,
            "t": st.sampled_from(["CN", "DN", "POP"]),
            "diff": st.sampled_from(["none", "lat", "lon", "alt", "level", "type", "sku", "status", "name"]),
            "eps": st.sampled_from([1e-7, 1e-3, 1.0]),
        }
    ),
    2000,
    40000,
    "two sites that differ in at most one attribute; the ids are equal exactly if type, coordinates and device are; non-trivial: every case",
)
def identity(c, ctx):
    ctx.nontrivial()
    s1 = site(c["t"], c["lat"], c["lon"], c["a"])
    lat, lon, a, t, sku, status = c["lat"], c["lon"], c["a"], c["t"], "x", "PROPOSED"
    k = c["diff"]
    if k == "lat":
        lat += c["eps"]
    elif k == "lon":
        lon += c["eps"]
    elif k == "alt":
        a = 7.0 if a is None else a + c["eps"]
    elif k == "level":  # unknown and sea level are different altitudes
        a = 0.0 if a is None else None
    elif k == "type":
        t = {"CN": "DN", "DN": "POP", "POP": "DN"}[t]
    elif k == "sku":
        sku = "y"
    elif k == "status":
        status = "EXISTING"
    s2 = site(t, lat, lon, a, status, sku)
    if k == "name":
        s2.name = "somewhere"
        require(s2.name == "somewhere", "site-name")
    same = k in ("none", "status", "name") or (lat, lon, a) == (c["lat"], c["lon"], c["a"]) and k in ("lat", "lon", "alt")
    require((s1.site_id == s2.site_id) == same, "site-id", f"{c}")
    require(s1.name == s1.site_id, "site-name")


STATUSES = ["UNAVAILABLE", "CANDIDATE", "PROPOSED", "EXISTING", "UNREACHABLE"]


@CHECK.sub(
    "parts",
    lambda: st.fixed_dictionaries(
        {
            "t": st.sampled_from(["CN", "DN", "POP"]), "dev": st.sampled_from(["CN", "DN", "right", "right", "right"]),
            "lt": st.sampled_from(["ROOFTOP", "STREET_LEVEL", "UNKNOWN"]), "bld": st.sampled_from([None, None, 0, -1, 7]),
            "subs": st.sampled_from([None, 0, 1, 2, 30]), "st": st.sampled_from(STATUSES),
            "t2": st.sampled_from(["CN", "DN", "POP"]), "st2": st.sampled_from(STATUSES), "lst": st.sampled_from(STATUSES),
            "ends": st.sampled_from(["sites", "sectors", "tx", "rx", "none", "no tx", "no rx"]),
            "sst": st.sampled_from(STATUSES), "later": st.sampled_from(STATUSES),
        }
    ),
    4000,
    60000,
    "a site, a sector and a link are made from arbitrary parts and accepted exactly if the parts fit; non-trivial: the link is accepted",
)
def parts(c, ctx):
    """Sites, sectors and links whose parts contradict each other cannot be made."""
    def attempt(f):
        try:
            return f()
        except TopologyException:
            return None

    kind = ("CN" if c["t"] == "CN" else "DN") if c["dev"] == "right" else c["dev"]
    fits = (c["t"] == "CN") == (kind == "CN") and (c["lt"] == "ROOFTOP") == (c["bld"] is not None)
    s = attempt(lambda: Site(SiteType[c["t"]], GeoLocation(latitude=10.0, longitude=20.0, altitude=3.0), dev(kind), StatusType[c["st"]], LocationType[c["lt"]], c["bld"], "", c["subs"]))
    require((s is not None) == fits, "a site is refused although its parts fit, or the reverse", **c)
    if s is None:
        return
    require(s.number_of_subscribers == ((c["subs"] or 1) if c["t"] == "CN" else 0), "number of subscribers", got=s.number_of_subscribers, **c)
    o = Site(SiteType[c["t2"]], GeoLocation(latitude=10.001, longitude=20.0, altitude=3.0), dev("CN" if c["t2"] == "CN" else "DN"), StatusType[c["st2"]], LocationType.UNKNOWN, None, "", None)

    def sector_fits(site, status):
        return status in ("CANDIDATE", "PROPOSED", "EXISTING") if site in ("PROPOSED", "EXISTING") else status == site

    z = attempt(lambda: Sector(s, 0, 0, 10.0, StatusType[c["sst"]]))
    require((z is not None) == sector_fits(c["st"], c["sst"]), "a sector of a fitting status is refused, or the reverse", **c)
    if z is not None:
        new = attempt(lambda: setattr(z, "status_type", StatusType[c["later"]]) or z)
        may = sector_fits(c["st"], c["later"]) and not {c["sst"], c["later"]} & {"UNAVAILABLE", "EXISTING"}
        if new is not None or c["later"] != c["sst"]:
            require((new is not None) == may or c["later"] == c["sst"], "a sector's status is changed against the rules, or not although it may be", **c)
        require(z.status_type.name == (c["later"] if new is not None else c["sst"]), "a refused status of a sector was set", **c)

    def link_fits(status):
        both = {c["st"], c["st2"]}
        if status == "EXISTING" and both != {"EXISTING"}:
            return False
        if "UNAVAILABLE" in both and status != "UNAVAILABLE":
            return False
        if "UNREACHABLE" in both and status not in ("UNREACHABLE", "UNAVAILABLE"):
            return False
        return not ("CANDIDATE" in both and status in ("PROPOSED", "EXISTING"))

    z1 = attempt(lambda: Sector(s, 0, 0, 0.0, s.status_type))
    z2 = attempt(lambda: Sector(o, 0, 0, 180.0, o.status_type))
    kw = {
        "sites": dict(tx_site=s, rx_site=o), "sectors": dict(tx_sector=z1, rx_sector=z2), "tx": dict(tx_site=s, rx_site=o, tx_sector=z1),
        "rx": dict(tx_site=s, rx_site=o, rx_sector=z2), "none": {}, "no tx": dict(rx_site=o), "no rx": dict(tx_site=s),
    }[c["ends"]]
    l = attempt(lambda: Link(status_type=StatusType[c["lst"]], **kw))
    fits = c["ends"] in ("sites", "sectors") and c["t"] != "CN" and link_fits(c["lst"])
    require((l is not None) == fits, "a link is refused although its parts fit, or the reverse", **c)
    if l is None:
        return
    ctx.nontrivial()
    require((l.tx_site, l.rx_site) == (s, o), "a link joins other sites than it was given")
    require((l.tx_sector, l.rx_sector) == ((z1, z2) if c["ends"] == "sectors" else (None, None)), "a link has other sectors than it was given")
    require(l.is_out_of_sector() == (c["ends"] != "sectors"), "whether a link is out of sector")
    require((l.capacity, l.mcs_level) == (0, 0), "a new link has a capacity")


_PROG = """
import sys, json
sys.path.insert(0, sys.argv[1]); from harness import boot; boot.paths()
from checks.p03 import site
print(json.dumps([site(t, la, lo, a).site_id for t, la, lo, a in json.loads(sys.argv[2])]))
"""


@CHECK.sub(
    "stable_ids",
    lambda: st.lists(
        st.tuples(st.sampled_from(["CN", "DN", "POP"]), fl(-70, 70), fl(-170, 170), ALT),
        min_size=5, max_size=30,
    ),
    24,
    80,
    "ids are recomputed in a new process with another hash seed; non-trivial: every case",
)
def stable_ids(c, ctx):
    import json
    import os

    from harness.boot import VERIF

    ctx.nontrivial()
    env = dict(os.environ, PYTHONHASHSEED="77")
    out = subprocess.run(
        [sys.executable, "-c", _PROG, VERIF, json.dumps(c)], env=env,
        capture_output=True, text=True, timeout=100,
    )
    if out.returncode != 0:
        raise RuntimeError(out.stderr)
    require(
        json.loads(out.stdout) == [site(*x).site_id for x in c], "id-unstable",
    )
