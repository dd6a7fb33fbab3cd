"""P02: a topology stays consistent under every history of edits."""
import hypothesis.strategies as st

from harness.core import Check, Violation, require

from terragraph_planner.common.configuration.configs import DeviceData, SectorParams
from terragraph_planner.common.configuration.enums import (
    DeviceType, LinkType, LocationType, PolarityType, SectorType, SiteType, StatusType,
)
from terragraph_planner.common.exceptions import PlannerException
from terragraph_planner.common.geos import GeoLocation
from terragraph_planner.common.topology_models.demand_site import DemandSite
from terragraph_planner.common.topology_models.link import Link
from terragraph_planner.common.topology_models.sector import Sector
from terragraph_planner.common.topology_models.site import Site
from terragraph_planner.common.topology_models.topology import Topology

CHECK = Check("P02")
CHECK.assumptions = [
    "setting an existing/unavailable status to itself is not judged",
    "only whole edits are observed: an edit that is refused must change nothing",
]

ST = ["PROPOSED", "EXISTING", "CANDIDATE", "UNAVAILABLE", "UNREACHABLE"]
ACTIVE = {"PROPOSED", "EXISTING"}
FIXED = {"EXISTING", "UNAVAILABLE"}
TYPES = ["CN", "DN", "POP"]
DEV = {
    "CN": [DeviceData(device_sku=s, sector_params=SectorParams(), device_type=DeviceType.CN) for s in ("cA", "cB")],
    "DN": [DeviceData(device_sku=s, sector_params=SectorParams(), device_type=DeviceType.DN) for s in ("dA", "dB")],
}
LOC = [(10.0, 20.0, None), (10.0, 20.0, 5.0), (10.001, 20.0, 5.0), (10.0, 20.001, 5.0)]


def make_site(spec, status):
    t, loc, dev = spec
    kind = "CN" if t == "CN" else "DN"
    lat, lon, alt = LOC[loc]
    return Site(
        SiteType[t], GeoLocation(latitude=lat, longitude=lon, altitude=alt),
        DEV[kind][dev], StatusType[status], LocationType.UNKNOWN, None, "", None,
    )


SPECS = [(t, l, d) for t in TYPES for l in range(4) for d in range(2)]

site_i = st.integers(0, 7)
op = st.one_of(
    st.tuples(st.just("add_site"), st.integers(0, len(SPECS) - 1), st.sampled_from(ST)),
    st.tuples(st.just("add_site"), st.integers(8, len(SPECS) - 1), st.sampled_from(["CANDIDATE", "EXISTING", "PROPOSED"])),
    st.tuples(st.just("remove_site"), site_i),
    st.tuples(st.just("readd_site"), site_i),
    st.tuples(st.just("add_sector"), site_i, st.integers(0, 1), st.integers(0, 1), st.sampled_from(["site", "CANDIDATE", "PROPOSED", "EXISTING", "UNAVAILABLE"])),
    st.tuples(st.just("add_sector"), site_i, st.integers(0, 1), st.integers(0, 1), st.just("site")),
    st.tuples(st.just("remove_sector"), st.integers(0, 11)),
    st.tuples(st.just("add_link"), site_i, site_i, st.booleans(), st.sampled_from(["CANDIDATE"] + ST), st.booleans(), st.integers(0, 3)),
    st.tuples(st.just("add_link"), site_i, site_i, st.just(True), st.just("CANDIDATE"), st.just(True), st.integers(0, 3)),
    st.tuples(st.just("add_link_ids"), site_i, site_i, st.sampled_from(["CANDIDATE"] + ST)),
    st.tuples(st.just("remove_link"), st.integers(0, 11)),
    st.tuples(st.just("set_sectors"), st.integers(0, 11), st.integers(0, 3), st.integers(0, 3)),
    st.tuples(st.just("site_status"), site_i, st.sampled_from(ST)),
    st.tuples(st.just("sector_status"), st.integers(0, 11), st.sampled_from(ST)),
    st.tuples(st.just("link_status"), st.integers(0, 11), st.sampled_from(ST)),
    st.tuples(st.just("polarity"), site_i, st.sampled_from(["ODD", "EVEN", "UNASSIGNED"])),
    st.tuples(st.just("add_demand"), st.integers(0, 3)),
    st.tuples(st.just("remove_demand"), st.integers(0, 3)),
    st.tuples(st.just("sort")),
    st.tuples(st.just("bad_ids"), st.integers(0, 4)),
)


class Model:
    def __init__(self):
        self.sites = {}  # id -> dict(spec, status, obj, polarity)
        self.sectors = {}  # id -> dict(site, status)
        self.links = {}  # (tx, rx) -> dict(status, wireless, txs, rxs)
        self.demand = set()


def pick(d, i):
    keys = sorted(d)
    return keys[i % len(keys)] if keys else None


def link_ok(m, tx, rx, status):
    """Documented rules for the status of a link between two sites."""
    s = {m.sites[tx]["status"], m.sites[rx]["status"]}
    if status == "EXISTING" and s != {"EXISTING"}:
        return False
    if "UNAVAILABLE" in s and status != "UNAVAILABLE":
        return False
    if "UNREACHABLE" in s and status not in ("UNREACHABLE", "UNAVAILABLE"):
        return False
    if "CANDIDATE" in s and status in ACTIVE:
        return False
    return True


def sector_ok(site_status, status):
    if site_status in ACTIVE:
        return status in {"CANDIDATE", "PROPOSED", "EXISTING"}
    return status == site_status


def attempt(fn, expect_ok, what):
    try:
        fn()
    except PlannerException as e:
        if expect_ok:
            raise Violation(f"refused {what[0]}", f"{what}: {e.message}") from e
        return False
    if not expect_ok:
        raise Violation(f"accepted {what[0]}", f"{what}")
    return True


def apply(t, m, o):
    k = o[0]
    if k == "add_site":
        spec = SPECS[o[1]]
        s = make_site(spec, o[2])
        dup = any(x["spec"] == spec for x in m.sites.values())
        require(
            (s.site_id in m.sites) == dup, "site-identity",
            f"{spec} {s.site_id}",
        )
        if attempt(lambda: t.add_site(s), not dup, o):
            m.sites[s.site_id] = {"spec": spec, "status": o[2], "obj": s, "pol": "UNASSIGNED"}
    elif k == "remove_site":
        sid = pick(m.sites, o[1])
        if sid is None:
            attempt(lambda: t.remove_site("nope"), False, o)
            return
        attempt(lambda: t.remove_site(sid), True, o)
        drop(m, sid)
    elif k == "readd_site":
        sid = pick(m.sites, o[1])
        if sid is None:
            return
        x = m.sites[sid]
        attempt(lambda: t.remove_site(sid), True, o)
        drop(m, sid)
        obj = make_site(x["spec"], x["status"])
        attempt(lambda: t.add_site(obj), True, o)
        m.sites[sid] = {"spec": x["spec"], "status": x["status"], "obj": obj, "pol": "UNASSIGNED"}
    elif k == "add_sector":
        sid = pick(m.sites, o[1])
        if sid is None:
            return
        x = m.sites[sid]
        status = x["status"] if o[4] == "site" else o[4]
        ok = sector_ok(x["status"], status)
        box = []
        if not attempt(
            lambda: box.append(Sector(x["obj"], o[2], o[3], 90.0 * o[2], StatusType[status])), ok, ("new_sector",) + tuple(o[1:]),
        ):
            return
        sec = box[0]
        dup = any(y["site"] == sid and y["pos"] == (o[2], o[3]) for y in m.sectors.values())
        require((sec.sector_id in m.sectors) == dup, "sector-identity", sec.sector_id)
        if attempt(lambda: t.add_sector(sec), not dup, o):
            m.sectors[sec.sector_id] = {"site": sid, "status": status, "pos": (o[2], o[3]), "obj": sec}
    elif k == "remove_sector":
        sec = pick(m.sectors, o[1])
        if sec is None:
            attempt(lambda: t.remove_sector("nope"), False, o)
            return
        attempt(lambda: t.remove_sector(sec), True, o)
        del m.sectors[sec]
        for x in m.links.values():
            if sec in (x["txs"], x["rxs"]):
                x["txs"] = x["rxs"] = None
    elif k in ("add_link", "add_link_ids"):
        a, b = pick(m.sites, o[1]), pick(m.sites, o[2])
        if a is None or a == b:
            return
        status = o[4] if k == "add_link" else o[3]
        ok = m.sites[a]["spec"][0] != "CN" and link_ok(m, a, b, status)
        txs = rxs = None
        wireless = True
        if k == "add_link":
            wireless = o[5]
            if o[3]:
                sa = sorted(s for s, y in m.sectors.items() if y["site"] == a)
                sb = sorted(s for s, y in m.sectors.items() if y["site"] == b)
                if sa and sb:
                    txs, rxs = sa[o[6] % len(sa)], sb[(o[6] // 2) % len(sb)]
            box = []
            if attempt(
                lambda: box.append(
                    Link(
                        tx_site=m.sites[a]["obj"], rx_site=m.sites[b]["obj"],
                        tx_sector=m.sectors[txs]["obj"] if txs else None,
                        rx_sector=m.sectors[rxs]["obj"] if rxs else None,
                        status_type=StatusType[status], is_wireless=wireless,
                    )
                ), ok, ("new_link",) + tuple(o[1:]),
            ):
                attempt(lambda: t.add_link(box[0]), True, o)
                m.links[a, b] = {"status": status, "wireless": wireless, "txs": txs, "rxs": rxs}
        else:
            if attempt(lambda: t.add_link_from_site_ids(a, b, status_type=StatusType[status]), ok, o):
                m.links[a, b] = {"status": status, "wireless": True, "txs": None, "rxs": None}
    elif k == "remove_link":
        p = pick(m.links, o[1])
        if p is None:
            attempt(lambda: t.remove_link("nope"), False, o)
            return
        attempt(lambda: t.remove_link(t.get_link_by_site_ids(*p).link_id), True, o)
        del m.links[p]
    elif k == "set_sectors":
        p = pick(m.links, o[1])
        if p is None or not m.sectors:
            return
        link = t.get_link_by_site_ids(*p)
        x = m.links[p]
        if x["txs"] is None:
            return
        s1, s2 = pick(m.sectors, o[2]), pick(m.sectors, o[3])

        def set_tx():
            link.tx_sector = m.sectors[s1]["obj"]

        def set_rx():
            link.rx_sector = m.sectors[s2]["obj"]

        if attempt(set_tx, m.sectors[s1]["site"] == p[0], ("set_tx",)):
            x["txs"] = s1
        if attempt(set_rx, m.sectors[s2]["site"] == p[1], ("set_rx",)):
            x["rxs"] = s2
    elif k == "site_status":
        sid = pick(m.sites, o[1])
        if sid is None or (o[2] == m.sites[sid]["status"] and o[2] in FIXED):
            return
        x = m.sites[sid]

        def set_site():
            t.sites[sid].status_type = StatusType[o[2]]

        if attempt(set_site, not ({x["status"], o[2]} & FIXED), o):
            x["status"] = o[2]
    elif k == "sector_status":
        sec = pick(m.sectors, o[1])
        if sec is None or (o[2] == m.sectors[sec]["status"] and o[2] in FIXED):
            return
        x = m.sectors[sec]
        ok = not ({x["status"], o[2]} & FIXED) and sector_ok(m.sites[x["site"]]["status"], o[2])

        def set_sec():
            t.sectors[sec].status_type = StatusType[o[2]]

        if attempt(set_sec, ok, o):
            x["status"] = o[2]
    elif k == "link_status":
        p = pick(m.links, o[1])
        if p is None or (o[2] == m.links[p]["status"] and o[2] in FIXED):
            return
        x = m.links[p]
        ok = not ({x["status"], o[2]} & FIXED) and link_ok(m, *p, o[2])

        def set_link():
            t.get_link_by_site_ids(*p).status_type = StatusType[o[2]]

        if attempt(set_link, ok, o):
            x["status"] = o[2]
    elif k == "polarity":
        sid = pick(m.sites, o[1])
        if sid is not None:
            t.sites[sid].polarity = PolarityType[o[2]]
            m.sites[sid]["pol"] = o[2]
    elif k == "add_demand":
        lat, lon, alt = LOC[o[1]]
        d = DemandSite(GeoLocation(latitude=lat, longitude=lon, altitude=alt), demand=1.0, connected_sites=list(t.sites.values())[:2])
        attempt(lambda: t.add_demand_site(d), True, o)
        m.demand.add(d.demand_id)
    elif k == "remove_demand":
        d = pick(m.demand, o[1])
        if d is None:
            attempt(lambda: t.remove_demand_site("nope"), False, o)
            return
        attempt(lambda: t.remove_demand_site(d), True, o)
        m.demand.discard(d)
    elif k == "sort":
        t.sort()
        for d in (t.sites, t.links, t.sectors, t.demand_sites):
            require(list(d) == sorted(d), "sort-order")
        for d in t.demand_sites.values():
            ids = [s.site_id for s in d.connected_sites]
            require(ids == sorted(ids), "sort-order")
    elif k == "bad_ids":
        ghost = make_site(("POP", 0, 0), "CANDIDATE")
        ghost2 = make_site(("DN", 1, 1), "CANDIDATE")
        if ghost.site_id in m.sites or ghost2.site_id in m.sites:
            return
        real = pick(m.sites, o[1])
        cases = [
            lambda: t.add_sector(Sector(ghost, 0, 0, 0.0)),
            lambda: t.add_link(Link(tx_site=ghost, rx_site=ghost2)),
            lambda: t.add_link_from_site_ids(ghost.site_id, real or "x"),
            lambda: t.get_link_by_site_ids(real or "x", ghost.site_id),
            lambda: t.get_successor_sites(ghost),
        ]
        attempt(cases[o[1] % 5], False, o)


def drop(m, sid):
    del m.sites[sid]
    for s in [s for s, y in m.sectors.items() if y["site"] == sid]:
        del m.sectors[s]
    for p in [p for p in m.links if sid in p]:
        del m.links[p]


def names(objs):
    ids = [s.site_id for s in objs]
    require(len(ids) == len(set(ids)), "duplicate-neighbour", ids)
    return set(ids)


def consistent(t, m):
    require(set(t.sites) == set(m.sites), "sites")
    for sid, x in m.sites.items():
        s = t.sites[sid]
        require(s is x["obj"] and s.site_id == sid, "site-object")
        require(s.status_type.name == x["status"], "site-status")
    require(set(t.sectors) == set(m.sectors), "sectors", f"{set(t.sectors)} {set(m.sectors)}")
    for sec, x in m.sectors.items():
        require(t.sectors[sec] is x["obj"] and x["obj"].sector_id == sec, "sector-object")
        require(x["obj"].status_type.name == x["status"], "sector-status")
        require(x["obj"].site.site_id == x["site"], "sector-site")
        require(
            (x["obj"].sector_type == SectorType.CN)
            == (m.sites[x["site"]]["spec"][0] == "CN"), "sector-type",
        )
    by_site = {}
    for sec, x in m.sectors.items():
        by_site.setdefault(x["site"], set()).add(sec)
    got = {k: set(v) for k, v in t.site_id_to_sector_ids.items() if v}
    require(got == by_site, "sector-index", f"{got} {by_site}")
    pairs = {}
    for lid, link in t.links.items():
        require(lid == link.link_id, "link-key")
        pairs[link.tx_site.site_id, link.rx_site.site_id] = link
    require(len(pairs) == len(t.links) and set(pairs) == set(m.links), "links", f"{set(pairs)} {set(m.links)}")
    for p, x in m.links.items():
        link = pairs[p]
        require(link.tx_site is m.sites[p[0]]["obj"] and link.rx_site is m.sites[p[1]]["obj"], "link-ends")
        require(link.status_type.name == x["status"], "link-status", p)
        require(
            (link.tx_sector.sector_id if link.tx_sector else None) == x["txs"]
            and (link.rx_sector.sector_id if link.rx_sector else None) == x["rxs"],
            "link-sectors", f"{p} {x}",
        )
        want = (
            LinkType.ETHERNET if not x["wireless"]
            else LinkType.WIRELESS_ACCESS if m.sites[p[1]]["spec"][0] == "CN"
            else LinkType.WIRELESS_BACKHAUL
        )
        require(link.link_type == want, "link-type", p)
        rev = t.get_reverse_link(link)
        require(
            (rev is pairs[p[1], p[0]]) if (p[1], p[0]) in m.links else rev is None,
            "reverse-link",
        )
        require(link.is_out_of_sector() == (x["txs"] is None), "out-of-sector")
        require(link.sorted_site_ids == tuple(sorted(p)), "sorted-ends")
    for a in m.sites:
        for b in m.sites:
            got = t.get_link_by_site_ids(a, b)
            require(got is pairs.get((a, b)), "link-lookup")
        o = m.sites[a]["obj"]
        succ = {b for (x, b) in m.links if x == a}
        pred = {b for (b, x) in m.links if x == a}
        require(names(t.get_successor_sites(o)) == succ, "successors")
        require(names(t.get_predecessor_sites(o)) == pred, "predecessors")
        require(
            names(t.get_wireless_successor_sites(o))
            == {b for b in succ if m.links[a, b]["wireless"]}, "wireless-successors",
        )
        require(
            names(t.get_wireless_predecessor_sites(o))
            == {b for b in pred if m.links[b, a]["wireless"]}, "wireless-predecessors",
        )
    conn = {}
    rconn = {}
    for p, x in m.links.items():
        if x["txs"] is not None:
            conn.setdefault(x["txs"], {})[x["rxs"]] = pairs[p].link_id
            rconn.setdefault(x["rxs"], {})[x["txs"]] = pairs[p].link_id
            require(t.get_link_by_sector_ids(x["txs"], x["rxs"]) is pairs[p], "sector-link-lookup")
    require(t.sector_connectivity == conn, "sector-connectivity")
    require(t.sector_connectivity_reverse == rconn, "sector-connectivity")
    require(set(t.demand_sites) == m.demand, "demand")
    # filters
    for flt in ({"PROPOSED"}, ACTIVE, {"UNAVAILABLE", "UNREACHABLE"}, {"CANDIDATE"}, None):
        sf = None if flt is None else {StatusType[x] for x in flt}
        ok = (lambda s: True) if flt is None else (lambda s: s in flt)
        require(
            t.get_site_ids(status_filter=sf) == {s for s, x in m.sites.items() if ok(x["status"])},
            "site-filter",
        )
        require(
            t.get_site_ids(status_filter=sf, site_type_filter={SiteType.POP, SiteType.CN})
            == {s for s, x in m.sites.items() if ok(x["status"]) and x["spec"][0] != "DN"},
            "site-filter",
        )
        require(
            t.get_link_site_id_pairs(sf) == {p for p, x in m.links.items() if ok(x["status"])},
            "link-filter",
        )
        require(
            t.get_link_site_id_pairs(sf, {LinkType.ETHERNET})
            == {p for p, x in m.links.items() if ok(x["status"]) and not x["wireless"]},
            "link-filter",
        )
        if flt is not None:
            want = {}
            for sec, x in m.sectors.items():
                if ok(x["status"]):
                    want.setdefault(x["site"], set()).add(sec)
            require(t.get_sector_ids(sf) == want, "sector-filter")
    require(
        t.get_sectorless_links()
        == {p for p, x in m.links.items() if x["wireless"] and x["txs"] is None},
        "sectorless",
    )
    colo = {}
    for s, x in m.sites.items():
        colo.setdefault(LOC[x["spec"][1]], set()).add(s)
    got = {(k.latitude, k.longitude, k.altitude): set(v) for k, v in t.get_colocated_sites().items()}
    require(got == colo, "colocated", f"{got} {colo}")
    pol = {PolarityType.ODD: set(), PolarityType.EVEN: set()}
    for s, x in m.sites.items():
        if x["status"] in ACTIVE and x["spec"][0] != "CN" and x["pol"] != "UNASSIGNED":
            pol[PolarityType[x["pol"]]].add(s)
    got = {k: v for k, v in t.get_site_polarities().items() if k in pol}
    require(got == pol, "polarities")


@st.composite
def histories(draw):
    """A few sites with sectors and links between them, then random edits."""
    first = []
    specs = draw(st.lists(st.integers(0, len(SPECS) - 1), min_size=2, max_size=6, unique=True))
    for k in specs:
        first.append(["add_site", k, draw(st.sampled_from(["CANDIDATE", "PROPOSED", "EXISTING", "EXISTING"]))])
    n = len(specs)
    for i in range(n):
        for j in range(draw(st.integers(0, 2))):
            first.append(["add_sector", i, j, 0, "site"])
    for _ in range(draw(st.integers(1, 2 * n))):
        a = draw(st.integers(0, n - 1))
        b = draw(st.integers(0, n - 1))
        w = draw(st.integers(0, 7)) > 0
        first.append(["add_link", a, b, True, "CANDIDATE", w, draw(st.integers(0, 3))])
        if draw(st.booleans()):
            first.append(["add_link", b, a, True, "CANDIDATE", w, draw(st.integers(0, 3))])
    return first + [list(x) for x in draw(st.lists(op, min_size=1, max_size=30))]


def play(ops, ctx, each):
    t, m = Topology(), Model()
    had_link = had_sec = removed = False
    for o in ops:
        o = tuple(o)
        before = (len(m.sites), len(m.links), len(m.sectors))
        apply(t, m, o)
        ctx.label(o[0])
        after = (len(m.sites), len(m.links), len(m.sectors))
        if any(y < x for x, y in zip(before, after)) and had_link and had_sec:
            removed = True
        had_link = had_link or bool(m.links)
        had_sec = had_sec or any(x["txs"] for x in m.links.values())
        if each:
            consistent(t, m)
    ctx.nontrivial(had_link and had_sec and removed)
    return t, m


@CHECK.sub(
    "history",
    histories,
    10000,
    200000,
    "a built topology and up to 30 edits, checked against a reference model after every edit; non-trivial: something was removed while a link with sectors existed",
)
def history(ops, ctx):
    play(ops, ctx, True)


@CHECK.sub(
    "rebuild",
    histories,
    3000,
    60000,
    "a topology reached by a history is rebuilt from its parts by the constructor; non-trivial: as for histories",
)
def rebuild(ops, ctx):
    t, m = play(ops, ctx, False)
    t2 = Topology(
        t.sites.values(), t.demand_sites.values(), t.sectors.values(), t.links.values()
    )
    consistent(t, m)
    consistent(t2, m)
