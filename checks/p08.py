"""P08: a topology written to a file and read back is the same topology."""
import re
import xml.sax.saxutils as sx
import zipfile

import hypothesis.strategies as st

from harness.core import Check, Violation, require, require_close
from harness.gen import fl
from terragraph_planner.common.configuration.configs import DeviceData, SectorParams
from terragraph_planner.common.configuration.enums import DeviceType, LocationType, SiteType, StatusType
from terragraph_planner.common.data_io.kml_library import extract_raw_data_from_kml_file
from terragraph_planner.common.data_io.topology_serializer import write_to_kml_file
from terragraph_planner.common.data_io.utils import extract_topology_from_file
from terragraph_planner.common.exceptions import PlannerException
from terragraph_planner.common.geos import GeoLocation
from terragraph_planner.common.topology_models.demand_site import DemandSite
from terragraph_planner.common.topology_models.link import Link
from terragraph_planner.common.topology_models.site import Site
from terragraph_planner.common.topology_models.topology import Topology

CHECK = Check("P08")
CHECK.assumptions = [
    "site names are unique, non-blank and made of characters XML allows, as the input rules ask",
    "the two directions of a link have one status and one confidence, as line-of-sight results do",
    "wired links are written but are not read back (the reader skips them); they must not come back as wireless",
    "reading completes the opposite direction of a link between relay sites",
]

DN = [DeviceData(device_sku=s, sector_params=SectorParams(), device_type=DeviceType.DN) for s in ("DN one", "dn<&>'2\"")]
CN = [DeviceData(device_sku=s, sector_params=SectorParams(), device_type=DeviceType.CN) for s in ("CN-a", "cn b")]
DEVS = DN + CN
STAT = ["PROPOSED", "EXISTING", "CANDIDATE", "UNAVAILABLE", "UNREACHABLE"]

CH = st.characters(min_codepoint=33, max_codepoint=0x2FFF, exclude_categories=["Cc", "Cs", "Cn", "Co", "Cf", "Zs", "Zl", "Zp"])
NAME = st.one_of(
    st.text(CH, min_size=1, max_size=6),
    st.lists(st.text(CH, min_size=1, max_size=4), min_size=2, max_size=3).map(" ".join),
    st.sampled_from(["a<b", "R&D", "&amp;", "<b>x</b>", "]]>", "it's", 'q"q', "N/A", "None", "001", "1.0", "-1", "link-a-b", "\u00fc\u00df\u4e2d"]),
)


@st.composite
def topologies(draw):
    n = draw(st.integers(1, 7))
    lat0, lon0 = draw(fl(-60, 60)), draw(fl(-179, 179))
    names = draw(st.lists(NAME, min_size=n, max_size=n, unique_by=lambda s: s.casefold()))
    alts = draw(st.sampled_from(["all", "none"]))
    mixed = draw(st.booleans())
    sites = []
    for i in range(n):
        t = draw(st.sampled_from(["POP", "DN", "DN", "CN", "CN"]))
        same = draw(st.booleans()) and i > 0
        if same:
            lat, lon, alt = sites[-1]["lat"], sites[-1]["lon"], sites[-1]["alt"]
        else:
            lat, lon = lat0 + draw(fl(-0.005, 0.005)), lon0 + draw(fl(-0.005, 0.005))
            alt = draw(st.one_of(fl(-10, 900), st.sampled_from([0.0, 12.5, 1e-7]))) if alts == "all" else None
        lt = draw(st.sampled_from(["ROOFTOP", "STREET_LEVEL", "UNKNOWN"]))
        sites.append(dict(
            type=t, lat=lat, lon=lon, alt=alt, dev=draw(st.integers(0, 1)), status=draw(st.sampled_from(STAT if mixed else ["CANDIDATE", "CANDIDATE", "PROPOSED", "EXISTING"])),
            name=draw(st.sampled_from([names[i], names[i], ""])), loc=lt,
            bld=draw(st.sampled_from([-1, 0, 1, 7, 123456])) if lt == "ROOFTOP" else None,
            subs=draw(st.one_of(st.none(), st.integers(0, 30))),
        ))
    links = draw(st.lists(st.tuples(
        st.integers(0, n - 1), st.integers(0, n - 1), st.sampled_from(STAT + ["CANDIDATE"] * 4), st.booleans(),
        st.one_of(st.none(), st.sampled_from([0.0, 1.0, 0.5]), fl(0, 1, 1000)), st.sampled_from([True, True, True, False]),
    ), max_size=10))
    demand = draw(st.lists(st.tuples(fl(-0.005, 0.005), fl(-0.005, 0.005), st.one_of(st.just(1.0), fl(0, 3, 300), st.just(0))), max_size=4))
    return dict(sites=sites, links=links, demand=[(lat0 + a, lon0 + b, d) for a, b, d in demand], kmz=draw(st.booleans()), same=draw(st.booleans()))


def link_ok(a, b, status):
    s = {a, b}
    if status == "EXISTING" and s != {"EXISTING"}:
        return False
    if "UNAVAILABLE" in s and status != "UNAVAILABLE":
        return False
    if "UNREACHABLE" in s and status not in ("UNREACHABLE", "UNAVAILABLE"):
        return False
    if "CANDIDATE" in s and status in ("EXISTING", "PROPOSED"):
        return False
    return True


def build(c):
    t = Topology()
    sites, names, ids = [], set(), set()
    for s in c["sites"]:
        dev = (CN if s["type"] == "CN" else DN)[s["dev"]]
        site = Site(
            SiteType[s["type"]], GeoLocation(latitude=s["lat"], longitude=s["lon"], altitude=s["alt"]), dev,
            StatusType[s["status"]], LocationType[s["loc"]], s["bld"], s["name"], s["subs"],
        )
        if site.site_id in ids:
            sites.append(None)
            continue
        ids.add(site.site_id)
        sites.append(site)
        t.add_site(site)
    for a, b, status, both, conf, wireless in c["links"]:
        x, y = sites[a], sites[b]
        if x is None or y is None or a == b or x.site_type == SiteType.CN:
            continue
        if not link_ok(x.status_type.name, y.status_type.name, status):
            continue
        if (x.latitude, x.longitude, x.altitude) == (y.latitude, y.longitude, y.altitude) and wireless:
            continue
        if t.get_link_by_site_ids(x.site_id, y.site_id) or t.get_link_by_site_ids(y.site_id, x.site_id):
            continue
        pairs = [(x, y)] + ([(y, x)] if both and y.site_type != SiteType.CN else [])
        for p, q in pairs:
            t.add_link(Link(p, q, status_type=StatusType[status], is_wireless=wireless, confidence_level=conf))
    seen = set()
    for la, lo, d in c["demand"]:
        if (la, lo) in seen:
            continue
        seen.add((la, lo))
        t.add_demand_site(DemandSite(GeoLocation(latitude=la, longitude=lo), demand=d, connected_sites=[s for s in sites if s][:2]))
    return t


def save(t, kmz, stem="t"):
    write_to_kml_file(t, stem + ".kml")
    if not kmz:
        return stem + ".kml"
    with zipfile.ZipFile(stem + ".kmz", "w") as z:
        z.write(stem + ".kml", "inner/doc.KML" if len(t.sites) % 2 else "doc.kml")
    return stem + ".kmz"


def same_sites(old, new, exact_names=True):
    require(set(old.sites) == set(new.sites), "site-ids", lambda: f"{[(s.site_id, s.name, s.latitude, s.longitude, s.altitude) for s in old.sites.values()]} {[(s.site_id, s.name, s.latitude, s.longitude, s.altitude) for s in new.sites.values()]}")
    for k, a in old.sites.items():
        b = new.sites[k]
        for f in ("site_type", "status_type", "latitude", "longitude", "altitude", "location_type", "number_of_subscribers", "name", "building_id"):
            require(getattr(a, f) == getattr(b, f), f"site-{f}", f"{getattr(a, f)!r} came back as {getattr(b, f)!r}")
        require(a.device.device_sku == b.device.device_sku, "site-device")


def view(t):
    return {(l.tx_site.site_id, l.rx_site.site_id): l for l in t.links.values()}


@CHECK.sub(
    "kml", topologies, 2400, 40000,
    "a generated topology is written as KML or KMZ and read back; non-trivial: it has links and a text that needs escaping, a missing altitude, or a rooftop site",
)
def kml(c, ctx):
    t = build(c)
    ctx.nontrivial(len(t.links) > 0 and any(
        s.altitude is None or s.location_type == LocationType.ROOFTOP or re.search("[<>&]", s.name) for s in t.sites.values()))
    ctx.label("none-alt" if any(s.altitude is None for s in t.sites.values()) else "alt")
    back = extract_topology_from_file(save(t, c["kmz"]), DEVS, None)
    same_sites(t, back)
    old, new = view(t), view(back)
    want = {}
    for (a, b), l in old.items():
        if l.is_wireless:
            want[(a, b)] = l
            if l.rx_site.site_type != SiteType.CN:
                want.setdefault((b, a), l)
    require(set(want) == set(new), "links", lambda: f"lost {len(set(want) - set(new))} added {len(set(new) - set(want))} of {len(want)}")
    for k, l in want.items():
        require(new[k].status_type == l.status_type, "link-status")
        require(new[k].is_wireless, "link-wireless")
        x, y = l.confidence_level, new[k].confidence_level
        require((x is None) == (y is None), "link-confidence", f"{x} came back as {y}")
        if x is not None:
            require_close(y, x, "link-confidence", abs_=0.0501)
    pos = lambda z: sorted((d.latitude, d.longitude) for d in z.demand_sites.values())
    require(pos(t) == pos(back), "demand", lambda: f"{pos(t)} {pos(back)}")
    # Writing what was read and reading it again changes nothing
    again = extract_topology_from_file(save(back, not c["kmz"], "u"), DEVS, None)
    same_sites(back, again)
    third = view(again)
    require(set(third) == set(new), "links-again")
    for k, l in new.items():
        require((third[k].status_type, third[k].confidence_level) == (l.status_type, l.confidence_level), "link-again")


# A reader-side check: KML text written here, in the documented folder layout.

def data(name, value):
    return f'<Data name="{name}"><value>{sx.escape(str(value))}</value></Data>'


FIELDS = {
    "sku": ["sku", "device_sku", "device sku", "Device SKU"],
    "subs": ["number_of_subscribers", "Number of Subscribers", "num_demand_sites", "demand points"],
    "loc": ["location type", "location_type", "Location Type"],
    "tx": ["tx_site", "tx_site_name", "from_site", "Tx_Site_Name"],
    "rx": ["rx_site", "rx_site_name", "to_site", "RX_SITE_NAME"],
    "conf": ["confidence level", "Confidence_Level"],
}


@st.composite
def documents(draw):
    groups = []
    k = 0
    lat0, lon0 = draw(fl(-60, 60)), draw(fl(-179, 179))
    grid = draw(st.permutations([(i, j) for i in range(5) for j in range(4)]))
    for status in draw(st.lists(st.sampled_from(["", "CANDIDATE", "PROPOSED", "EXISTING"]), min_size=1, max_size=2, unique=True).map(lambda x: sorted(x, key=lambda y: y != ""))):
        fold = []
        for typ in draw(st.lists(st.sampled_from(["POP", "DN", "CN"]), min_size=1, max_size=3, unique=True)):
            rows = []
            for _ in range(draw(st.integers(1, 3))):
                i, j = grid[k % len(grid)]
                mode = draw(st.sampled_from(["absolute", "relativeToGround", "clampToGround", None]))
                rows.append(dict(
                    name=draw(st.sampled_from([f"s{k}", f"site & {k}", f"<{k}>"])), lat=lat0 + i * 0.001, lon=lon0 + j * 0.001,
                    alt=draw(st.sampled_from([0.0, 3.5, 21.25])), mode=mode,
                    sku=draw(st.sampled_from([None, 0, 1])), subs=draw(st.one_of(st.none(), st.integers(0, 9))),
                    loc=draw(st.sampled_from([None, "STREET_LEVEL", "rooftop", "Unknown", "??"])),
                ))
                k += 1
            fold.append((typ, rows))
        groups.append((status, fold))
    links = draw(st.lists(st.tuples(st.integers(0, 15), st.integers(0, 15), st.sampled_from([None, 0.25, 1.0, 1, 0]), st.booleans(), fl(-9, 9, 180), fl(-9, 9, 180)), max_size=6))
    return dict(groups=groups, links=links, alias=draw(st.integers(0, 3)), case=draw(st.sampled_from(["{}", "{} Sites", "my {}s"])), lower=draw(st.booleans()),
                near=draw(st.booleans()), demand=draw(st.integers(0, 3)), lat0=lat0, lon0=lon0, etype=draw(st.sampled_from(["none", "folder", "field"])))


def doc(c):
    al = lambda f: FIELDS[f][c["alias"] % len(FIELDS[f])]
    tr = (lambda s: s.lower()) if c["lower"] else (lambda s: s)
    out, sites = [], []
    for status, fold in c["groups"]:
        x = ""
        for typ, rows in fold:
            x += f"<Folder><name>{tr(c['case'].format(typ))}</name>"
            for r in rows:
                ext = ""
                dev = None
                if not c["near"] and r["sku"] is None:
                    r = dict(r, sku=0)  # a name stands for one site only if the SKU is given
                if r["sku"] is not None:
                    dev = (CN if typ == "CN" else DN)[r["sku"]].device_sku
                    ext += data(al("sku"), dev.upper() if c["lower"] else dev)
                if r["subs"] is not None:
                    ext += data(al("subs"), r["subs"])
                if r["loc"] is not None:
                    ext += data(al("loc"), r["loc"])
                mode = f"<altitudeMode>{r['mode']}</altitudeMode>" if r["mode"] else ""
                x += (f"<Placemark><name>{sx.escape(r['name'])}</name><ExtendedData>{ext}</ExtendedData>"
                      f"<Point>{mode}<coordinates>{r['lon']!r},{r['lat']!r},{r['alt']!r}</coordinates></Point></Placemark>")
                sites.append(dict(r, type=typ, status=status or "CANDIDATE", dev=dev))
            x += "</Folder>"
        out.append(f"<Folder><name>{tr(status)}</name>{x}</Folder>" if status else x)
    links = []
    lx = ""
    seen = set()
    m_lat = 1 / 111320.0
    n = len(sites)
    for i, j, conf, _, da, db in c["links"]:
        a, b = sites[i % n], sites[j % n]
        if i % n == j % n or (a["lat"], a["lon"]) == (b["lat"], b["lon"]) or frozenset((i % n, j % n)) in seen:
            continue
        seen.add(frozenset((i % n, j % n)))
        ext = ""
        if not c["near"]:
            ext += data(al("tx"), a["name"]) + data(al("rx"), b["name"])
        if conf is not None:
            ext += data(al("conf"), conf)
        lx += (f"<Placemark><name>l</name><ExtendedData>{ext}</ExtendedData><LineString><coordinates>"
               f"{a['lon']!r},{a['lat'] + (da * m_lat if c['near'] else 0)!r},0 {b['lon']!r},{b['lat'] + (db * m_lat if c['near'] else 0)!r},0</coordinates></LineString></Placemark>")
        links.append((i % n, j % n, conf))
    if lx:
        out.append(f"<Folder><name>CANDIDATE</name><Folder><name>{tr('WIRELESS_BACKHAUL links')}</name>{lx}</Folder></Folder>")
    if c["etype"] != "none" and n > 1:
        ext = data(al("tx"), sites[0]["name"]) + data(al("rx"), sites[1]["name"])
        if c["etype"] == "field":
            ext += data("Link Type", "ETHERNET")
        out.append(f"<Folder><name>CANDIDATE</name><Folder><name>ETHERNET Links</name><Placemark><name>l</name><ExtendedData>{ext}</ExtendedData><LineString><coordinates>{sites[0]['lon']!r},{sites[0]['lat']!r},0 {sites[1]['lon']!r},{sites[1]['lat']!r},0</coordinates></LineString></Placemark></Folder></Folder>")
    if c["demand"]:
        out.append("<Folder><name>Demand Sites</name>" + "".join(
            f"<Placemark><name>d</name><Point><coordinates>{c['lon0'] + k * 0.0004!r},{c['lat0']!r},7</coordinates></Point></Placemark>" for k in range(c["demand"])) + "</Folder>")
    text = '<?xml version="1.0" encoding="UTF-8"?><kml xmlns="http://www.opengis.net/kml/2.2"><Document><name>doc</name>' + "".join(out) + "</Document></kml>"
    return text, sites, links


@CHECK.sub(
    "reader", documents, 2400, 40000,
    "a KML document laid out as documented is read; types and statuses come from the folders, attributes from the fields, links from the named or the nearest sites; non-trivial: it has links",
)
def reader(c, ctx):
    text, sites, links = doc(c)
    with open("d.kml", "w", encoding="utf-8") as f:
        f.write(text)
    raw, rl, rd = extract_raw_data_from_kml_file("d.kml")
    ctx.nontrivial(len(links) > 0)
    ctx.label("near" if c["near"] else "named")
    require(len(raw) == len(sites), "site-count", f"{len(raw)} {len(sites)}")
    for g, s in zip(raw, sites):
        require(g.name == s["name"], "name", f"{g.name!r} {s['name']!r}")
        require(g.site_type.name == s["type"], "type")
        require(g.status_type.name == s["status"], "status", f"{g} {s}")
        require((g.latitude, g.longitude) == (s["lat"], s["lon"]), "position")
        loc = (s["loc"] or "").upper()
        require(g.location_type.name == (loc if loc in ("STREET_LEVEL", "ROOFTOP", "UNKNOWN") else "STREET_LEVEL"), "location-type")
        require((g.altitude, g.height) == {"absolute": (s["alt"], None), "relativeToGround": (None, s["alt"])}.get(s["mode"], (None, None)), "altitude", f"{g} {s}")
        require((g.device_sku or "").casefold() == (s["dev"] or "").casefold(), "sku")
        require(g.number_of_subscribers == s["subs"], "subscribers")
    require(len(rd) == c["demand"], "demand-count")
    try:
        t = extract_topology_from_file("d.kml", DEVS, None)
    except PlannerException as e:
        # equipment that stands may only be linked to candidate equipment by a candidate link
        raise Violation("rejects-valid-document", e.message)
    by = {}
    for i, s in enumerate(sites):
        devs = [s["dev"]] if s["dev"] else [d.device_sku for d in (CN if s["type"] == "CN" else DN)]
        by[i] = []
        for d in devs:
            m = [x for x in t.sites.values() if (x.latitude, x.longitude) == (s["lat"], s["lon"]) and x.site_type.name == s["type"]
                 and x.device.device_sku.casefold() == d.casefold()]
            require(len(m) == 1, "sites-built", f"{s} {d} {len(m)}")
            by[i].append(m[0])
            require(m[0].name == (s["name"] if len(devs) == 1 else f"{s['name']}_{d.casefold()}"), "name-built", m[0].name)
    require(len(t.sites) == sum(map(len, by.values())), "extra-sites")
    want = {}
    for i, j, conf in links:
        for a in by[i]:
            for b in by[j]:
                for p, q in ((a, b), (b, a)):
                    if p.site_type != SiteType.CN:
                        want[(p.site_id, q.site_id)] = conf
    got = view(t)
    require(set(got) == set(want), "links", lambda: f"lost {len(set(want) - set(got))} added {len(set(got) - set(want))}")
    for k, conf in want.items():
        require(got[k].confidence_level == conf, "confidence", f"{got[k].confidence_level} {conf}")
        require(got[k].status_type == StatusType.CANDIDATE, "link-status")


@CHECK.sub(
    "csv", lambda: st.tuples(topologies(), st.sampled_from(["pair", "dir", "both"]), st.sampled_from(["", "", "sites", "links", "name"])), 1000, 16000,
    "a topology written as zipped tables is read back; a missing table or an unknown name is rejected; non-trivial: it has links or is damaged",
)
def table(c, ctx):
    import csv as csvlib

    spec, how, bad = c
    t = build(dict(spec, sites=[dict(s, status="CANDIDATE") for s in spec["sites"]], links=[l[:2] + ("CANDIDATE",) + tuple(l[3:]) for l in spec["links"]]))
    names = {}
    with open("sites.csv", "w", newline="", encoding="utf-8") as f:
        w = csvlib.writer(f)
        w.writerow(["name", "type", "lat", "lon", "alt", "device_sku", "number_of_subscribers"])
        for i, s in enumerate(t.sites.values()):
            names[s.site_id] = f"n {i}"
            w.writerow([f"n {i}", s.site_type.name, repr(s.latitude), repr(s.longitude), "" if s.altitude is None else repr(s.altitude), s.device.device_sku, s.number_of_subscribers])
    pairs = sorted({(names[l.tx_site.site_id], names[l.rx_site.site_id]) for l in t.links.values()})
    if how == "both":
        pairs = sorted({tuple(sorted(p)) for p in pairs})
    if not pairs:
        return
    if bad == "name":
        pairs.append(("n 0", "nobody"))
    with open("links.csv", "w", newline="", encoding="utf-8") as f:
        w = csvlib.writer(f)
        w.writerow({"pair": ["site_pair"], "dir": ["tx_site", "rx_site"], "both": ["site1", "site2"]}[how])
        for a, b in pairs:
            w.writerow([f"{a}-->{b}"] if how == "pair" else [a, b])
    with zipfile.ZipFile("c.zip", "w") as z:
        for x in ("sites", "links"):
            if x != bad:
                z.write(x + ".csv")
    ctx.nontrivial()
    if bad:
        try:
            extract_topology_from_file("c.zip", DEVS, None)
        except PlannerException:
            return
        raise Violation("accepts-bad-tables", bad)
    back = extract_topology_from_file("c.zip", DEVS, None)
    by = {s.name: s for s in back.sites.values()}
    require(sorted(by) == sorted(names.values()) and len(back.sites) == len(by), "sites", f"{sorted(by)}")
    for k, a in t.sites.items():
        b = by[names[k]]
        for f in ("site_type", "status_type", "number_of_subscribers"):
            require(getattr(a, f) == getattr(b, f), f"site-{f}", f"{getattr(a, f)!r} came back as {getattr(b, f)!r}")
        require(a.device.device_sku == b.device.device_sku, "site-device")
        require((a.altitude is None) == (b.altitude is None), "altitude")
        for f in ("latitude", "longitude", "altitude"):
            if getattr(a, f) is not None:
                require_close(getattr(b, f), getattr(a, f), f, rel=1e-13, abs_=1e-13)
    want = set()
    for l in t.links.values():
        x, y = names[l.tx_site.site_id], names[l.rx_site.site_id]
        want.add((x, y))
        if l.rx_site.site_type != SiteType.CN:
            want.add((y, x))
    got = {(l.tx_site.name, l.rx_site.name) for l in back.links.values()}
    require(got == want, "links", lambda: f"{got ^ want}")
    require(all(l.is_wireless and l.status_type == StatusType.CANDIDATE for l in back.links.values()), "link-values")
