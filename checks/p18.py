"""P18: sectors cover every link within their limits."""
import itertools
import math

import hypothesis.strategies as st

from harness import topo
from harness.core import Check, require, require_close
from harness.gen import fl
from terragraph_planner.common.configuration.configs import OptimizerParams
from terragraph_planner.common.configuration.enums import SiteType, StatusType
from terragraph_planner.common.exceptions import OptimizerException, PlannerException
from terragraph_planner.common.topology_models.link import Link
from terragraph_planner.common.topology_models.sector import Sector
from terragraph_planner.optimization.constants import UNASSIGNED_CHANNEL
from terragraph_planner.optimization.topology_operations import readjust_sectors_post_opt
from terragraph_planner.optimization.topology_preparation import find_best_sectors, setup_node_structure, validate_site_sectors

CHECK = Check("P18")
CHECK.assumptions = [
    "beams within a hundredth of a degree (plus the convergence of the meridians between the two ends) of the edge of a sector's range may count either way",
    "sectors with a horizontal range of zero degrees are not considered",
    "client sectors may face any way until the plan is made, so before that every incoming link of a client counts as within its range",
]
GRID = 3.0


def turn(a, b):
    """Signed angle from b to a, in (-180, 180]."""
    d = (a - b) % 360.0
    return d - 360.0 if d > 180.0 else d


def bearing(a, b):
    p1, p2, dl = math.radians(a.latitude), math.radians(b.latitude), math.radians(b.longitude - a.longitude)
    return math.degrees(math.atan2(math.sin(dl) * math.cos(p2), math.cos(p1) * math.sin(p2) - math.sin(p1) * math.cos(p2) * math.cos(dl))) % 360.0


def shape(draw):
    """Nodes, sectors per node and scan range of a relay device."""
    spn = draw(st.sampled_from([1, 1, 1, 2, 3]))
    nodes = draw(st.sampled_from([1, 2, 2, 3, 4]) if spn == 1 else st.integers(1, 2))
    top = 360.0 / (spn * nodes)
    low = 10.0 if nodes < 3 else top * 0.75  # the search over three and more narrow nodes takes seconds
    rng = draw(st.one_of(fl(low, top), st.sampled_from([r for r in (30.0, 60.0, 70.0, 90.0, 120.0, 45.0, 180.0, 360.0) if low <= r <= top])))
    return nodes, spn, rng


@st.composite
def shapes(draw):
    return shape(draw)


def devices(c):
    dns = [topo.device(f"D{i}", "DN", n, number_sectors_per_node=s, horizontal_scan_range=r) for i, (n, s, r) in enumerate(c["dns"])]
    cns = [topo.device(f"C{i}", "CN", None, horizontal_scan_range=r, number_sectors_per_node=s) for i, (s, r) in enumerate(c["cns"])]
    return dns, cns


@st.composite
def networks(draw, statuses=("CANDIDATE", "CANDIDATE", "CANDIDATE", "PROPOSED", "EXISTING", "UNAVAILABLE", "UNREACHABLE"), high=10):
    n = draw(st.integers(2, high))
    pts = []
    for _ in range(n):
        how = draw(st.integers(0, 6)) if pts else 9
        o = draw(st.sampled_from(pts)) if pts else None
        if how == 0:
            pts.append(dict(x=o["x"], y=o["y"]))
        elif how in (1, 2):  # on one of a few bearings
            d, a = draw(fl(20, 200)), math.radians(draw(st.sampled_from([0, 45, 90, 180, 270, 3, 357, 35, 325, 1.5])))
            pts.append(dict(x=pts[0]["x"] + d * math.sin(a), y=pts[0]["y"] + d * math.cos(a)))
        else:
            pts.append(dict(x=draw(fl(-250, 250)), y=draw(fl(-250, 250))))
    sites = [dict(p, t=draw(st.sampled_from(["POP", "DN", "DN", "CN"])), dev=draw(st.integers(0, 1)), st=draw(st.sampled_from(statuses)), alt=draw(st.one_of(fl(0, 30), st.none()))) for p in pts]
    sites[0]["t"] = draw(st.sampled_from(["POP", "DN"]))
    star = draw(st.booleans())
    pairs = list(itertools.combinations(range(n), 2))
    keep = draw(st.integers(0, 4))
    chosen = [p for p in pairs if (star and p[0] == 0) or draw(st.integers(0, 4)) < keep]
    links = [(a, b, draw(st.sampled_from(["CANDIDATE", "CANDIDATE", "PROPOSED", "EXISTING", "UNAVAILABLE", "UNREACHABLE"])), draw(st.integers(0, 7)) > 0) for a, b in chosen]
    own = [draw(st.one_of(st.none(), st.none(), st.none(), st.tuples(fl(0, 360), st.integers(1, 4), fl(0, 1)))) for _ in range(n)]
    return dict(sites=sites, links=links, own=own, dns=[shape(draw) for _ in range(2)], cns=[(draw(st.sampled_from([1, 1, 2])), draw(st.one_of(fl(10, 180), st.sampled_from([70.0, 90.0, 180.0])))) for _ in range(2)])


def own_sectors(site, spec):
    """Legal sectors a user may give to a site: nodes of the device's shape, none overlapping."""
    first, count, slack = spec
    dev = site.device
    spn, rng = dev.sector_params.number_sectors_per_node, dev.sector_params.horizontal_scan_range
    width = spn * rng
    count = min(count, dev.number_of_nodes_per_site)
    free = 360.0 - count * width
    if count > 1 and free < 0.1:
        return []
    gap = 0.02 + slack * max(0.0, free / count - 0.05) if count > 1 else 0.0
    status = site.status_type
    out = []
    for k in range(count):
        for j in range(spn):
            out.append(Sector(site, k, j, (first + k * (width + gap) + j * rng) % 360.0, status))
    return out


def beams(t, site, links, incoming):
    return [(l, bearing(site, l.rx_site if not incoming else l.tx_site)) for l in links]


def wireless(t):
    return [l for l in t.links.values() if l.is_wireless]


def check_sectors(t, link_free=(), full_cn=True, slack=0.03):
    """Positions, counts, assignment and deviations of all sectors."""
    by_site = {}
    for s in t.sectors.values():
        by_site.setdefault(s.site.site_id, []).append(s)
    for sid, secs in by_site.items():
        dev = t.sites[sid].device
        spn, rng = dev.sector_params.number_sectors_per_node, dev.sector_params.horizontal_scan_range
        nodes = {}
        for s in secs:
            nodes.setdefault(s.node_id, {})[s.position_in_node] = s.ant_azimuth
        require(len(nodes) <= dev.number_of_nodes_per_site, "a site has more radio nodes than its device allows", nodes=len(nodes), allowed=dev.number_of_nodes_per_site)
        require(sum(len(v) for v in nodes.values()) == len(secs), "two sectors of a site share node and position")
        spans = []
        for k, pos in nodes.items():
            require(len(pos) == spn, "a node has another number of sectors than its device", got=len(pos), want=spn)
            az = [pos[p] for p in sorted(pos)]
            for a, b in zip(az, az[1:]):
                require(abs(abs(turn(b, a)) - min(rng, 360 - rng)) < 0.02, "the sectors of a node do not stand one scan range apart", azimuths=az, scan_range=rng)
            spans.append(az)
        for x, y in itertools.combinations(spans, 2):
            for a in x:
                for b in y:
                    require(abs(turn(a, b)) >= rng - 0.02, "sectors of two nodes of a site overlap", one=x, other=y, scan_range=rng)
    out = {}
    for l in t.links.values():
        if not l.is_wireless:
            require(l.tx_sector is None and l.rx_sector is None, "a wired link has sectors", link=l.link_id)
            require(l.tx_dev is None and l.rx_dev is None, "a wired link has a deviation")
            continue
        require((l.tx_sector is None) == (l.rx_sector is None), "a link has a sector at one end only", link=l.link_id)
        ends = []
        for site, other, sec, dev in ((l.tx_site, l.rx_site, l.tx_sector, l.tx_dev), (l.rx_site, l.tx_site, l.rx_sector, l.rx_dev)):
            # the sectors of clients can still be turned, but for those that exist
            full = full_cn and site.site_type == SiteType.CN and site is l.rx_site and not any(s.status_type == StatusType.EXISTING for s in by_site.get(site.site_id, []))
            half = 180.0 if full else site.device.sector_params.horizontal_scan_range / 2
            beam = bearing(site, other)
            near = min((abs(turn(s.ant_azimuth, beam)) for s in by_site.get(site.site_id, [])), default=999.0)
            ends.append((near, half))
            if sec is None:
                require(dev is None, "a link without sectors has a deviation")
                continue
            require(t.sectors.get(sec.sector_id) is sec, "a link's sector is not one of the network", link=l.link_id, sector=sec.sector_id)
            require(sec.site is site, "a link's sector belongs to another site", link=l.link_id)
            off = turn(beam, sec.ant_azimuth)
            require(abs(off) <= half + slack, "a link's beam lies outside its sector", link=l.link_id, beam=beam, boresight=sec.ant_azimuth, half_range=half)
            require(abs(turn(dev, off)) < slack and -180.001 <= dev <= 180.001, "a link's deviation is not the angle between beam and boresight", link=l.link_id, deviation=dev, angle=off)
            if l.link_id not in link_free:
                require(abs(off) <= near + slack, "a link is not on the nearest sector", link=l.link_id, nearest=near, used=abs(off))
        within = all(n <= h - slack for n, h in ends)
        if l.tx_sector is None:
            require(not within, "a link within the range of sectors at both ends has none", link=l.link_id, ends=ends)
        out[l.link_id] = (within, any(n >= h + slack for n, h in ends))
    return by_site, out


def best_cover(beam_list, nodes, spn, rng):
    """The most beams any allowed set of nodes on the pointing grid covers (certainly)."""
    width = spn * rng
    starts = [i * GRID for i in range(int(360 / GRID))]

    def cover(center):
        s = 0
        for i, b in enumerate(beam_list):
            d = (b - (center - width / 2)) % 360.0
            k = d / rng
            if 0.02 < d < width - 0.02 and abs(k - round(k)) * rng > 0.02:
                s |= 1 << i
        return s

    cov = [cover(c) for c in starts]
    best = 0
    for f in range(len(starts)):
        if starts[f] >= 360.0 - (nodes - 1) * width and f:
            break
        # positions after the first one, in increasing order, each a width apart
        table = [{f: bin(cov[f]).count("1")}]
        for _ in range(nodes - 1):
            nxt = {}
            run, order = -1, sorted(table[-1])
            p = 0
            for j in range(f + 1, len(starts)):
                while p < len(order) and starts[j] - starts[order[p]] >= width - 1e-9:
                    run = max(run, table[-1][order[p]])
                    p += 1
                if run >= 0 and starts[f] + 360.0 - starts[j] >= width - 1e-9:
                    nxt[j] = run + bin(cov[j]).count("1")
            table.append(nxt)
        if table[-1]:
            best = max(best, max(table[-1].values()))
    return best


def build(c):
    dns, cns = devices(c)
    sites = topo.sites_of(c["sites"], dns, cns)
    t = topo.topology_of(sites, c["links"])
    given = {}
    for site, spec in zip(sites, c["own"]):
        if spec is None:
            continue
        for s in own_sectors(site, spec):
            t.add_sector(s)
            given[s.sector_id] = s
    return sites, t, given


@CHECK.sub("creation", networks, 700, 20000, "a site with three or more wireless neighbours whose sectors are to be found", hang_s=30)
def creation(c, ctx):
    """Sectors are created and assigned within their ranges, covering all that fits."""
    sites, t, given = build(c)
    before = topo.snapshot(t)
    try:
        setup_node_structure(t)
    except OptimizerException as e:
        # allowed only if an active link cannot be put on the sectors there are
        by_site = {}
        for s in t.sectors.values():
            by_site.setdefault(s.site.site_id, []).append(s)
        for l in wireless(t):
            if l.status_type in StatusType.active_status():
                for site, other in ((l.tx_site, l.rx_site), (l.rx_site, l.tx_site)):
                    half = 180.0 if site.site_type == SiteType.CN and not any(s.status_type == StatusType.EXISTING for s in by_site.get(site.site_id, [])) else site.device.sector_params.horizontal_scan_range / 2
                    if site.site_type == SiteType.CN and l.status_type == StatusType.EXISTING and not any(s.sector_id in given for s in by_site.get(site.site_id, [])):
                        # the new sectors of a client point at its existing link
                        if len({x.tx_site.site_id for x in wireless(t) if x.rx_site is site and x.status_type == StatusType.EXISTING}) == 1:
                            ctx.label("client with an existing link")
                            continue
                    if min((abs(turn(s.ant_azimuth, bearing(site, other))) for s in by_site.get(site.site_id, [])), default=999.0) >= half - 0.03:
                        ctx.label("refused")
                        return
        require(False, "a network all of whose active links fit on sectors was refused", error=str(e))
    after = topo.snapshot(t)
    require(after["sites"] == before["sites"], "creating sectors changed a site")
    for k, v in before["sectors"].items():
        require(after["sectors"].get(k) == v, "a given sector was changed", sector=k, was=v, now=after["sectors"].get(k))
    for k, v in before["links"].items():
        require(after["links"][k][4:] == v[4:], "creating sectors changed a link", link=k)
    require(set(after["links"]) == set(before["links"]), "creating sectors added or removed links")
    by_site, placed = check_sectors(t)
    for site in sites:
        sid = site.site_id
        ins = [l for l in wireless(t) if l.rx_site is site]
        outs = [l for l in wireless(t) if l.tx_site is site]
        mine = by_site.get(sid, [])
        if any(s.sector_id in given for s in mine):
            require(all(s.sector_id in given for s in mine), "sectors were added to a site that has its own", site=sid)
            continue
        links = ins if site.site_type == SiteType.CN else outs
        if not links:
            require(not mine, "a site without wireless links got sectors", site=sid)
            continue
        # new sectors are to be planned, but for the nodes of links that are in use
        for s in mine:
            want = StatusType.CANDIDATE if site.status_type in StatusType.reachable_status() else site.status_type
            uses = {l.status_type for l in wireless(t) if any(z is not None and z.site is site and z.node_id == s.node_id for z in (l.tx_sector, l.rx_sector))}
            for x in (StatusType.PROPOSED, StatusType.EXISTING):
                want = x if x in uses else want
            if s.status_type in StatusType.active_status():
                ctx.label("new sectors in use")
            require(s.status_type == want and s.channel == UNASSIGNED_CHANNEL, "a new sector has another status than it should", site=sid, status=s.status_type.name, want=want.name)
        if site.site_type == SiteType.CN:
            require(len({s.node_id for s in mine}) == 1, "a client does not have one radio node")
            continue
        dev = site.device
        spn, rng = dev.sector_params.number_sectors_per_node, dev.sector_params.horizontal_scan_range
        bl = [bearing(site, l.rx_site) for l in outs]
        if len(bl) >= 3:
            ctx.nontrivial()
        n_cov = sum(1 for b in bl if min((abs(turn(s.ant_azimuth, b)) for s in mine), default=999.0) <= rng / 2 + 1e-6)
        best = best_cover(bl, min(dev.number_of_nodes_per_site, int(360 / (rng * spn) + 1e-9)), spn, rng)
        if best < len(bl):
            ctx.label("not all coverable")
        require(n_cov >= best, "the sectors cover fewer links than other directions would", site=sid, beams=bl, covered=n_cov, possible=best, azimuths=[s.ant_azimuth for s in mine])
        for k in {s.node_id for s in mine}:
            node = [s for s in mine if s.node_id == k]
            require(any(abs(turn(s.ant_azimuth, b)) <= rng / 2 + 0.02 for s in node for b in bl), "a radio node that covers no link was installed", site=sid, node=k, beams=bl, azimuths=[s.ant_azimuth for s in node])
    again = topo.snapshot(t)
    setup_node_structure(t)
    require(topo.snapshot(t) == again, "preparing sectors twice differs from once")


@st.composite
def clients(draw):
    """Clients among several relays, one of which they are connected to already."""
    n, m = draw(st.integers(2, 5)), draw(st.integers(1, 2))
    turned = draw(fl(0, 360))
    sites = []
    for k in range(n):
        d, a = draw(fl(40, 200)), math.radians(turned + draw(st.sampled_from([k * 360.0 / n, k * 35.0, k * 20.0])))
        sites.append(dict(x=d * math.sin(a), y=d * math.cos(a), t=draw(st.sampled_from(["DN", "POP"])), dev=0, st="EXISTING", alt=10.0))
    sites += [dict(x=draw(fl(-20, 20)), y=draw(fl(-20, 20)), t="CN", dev=draw(st.integers(0, 1)), st="EXISTING", alt=5.0) for _ in range(m)]
    links = []
    for c in range(n, n + m):
        old = draw(st.integers(0, n - 1))
        links += [(k, c, "EXISTING" if k == old else "CANDIDATE", True) for k in range(n) if k == old or draw(st.integers(0, 3))]
    links += [(k, k + 1, "CANDIDATE", True) for k in range(n - 1) if draw(st.integers(0, 2)) == 0]
    return dict(sites=sites, links=draw(st.permutations(links)), own=[None] * (n + m), dns=[(4, 1, 90.0)], cns=[(draw(st.sampled_from([1, 1, 2])), draw(st.one_of(fl(10, 90), st.sampled_from([30.0, 70.0, 90.0])))) for _ in range(2)])


@CHECK.sub("clients", clients, 200, 6000, "three links or more, one of them existing at each client", hang_s=30)
def existing_clients(c, ctx):
    """New sectors of clients point at the links that exist."""
    creation(c, ctx)
    ctx.nontrivial(len(c["links"]) > 2)


@st.composite
def layouts(draw):
    nodes, spn, rng = shape(draw)
    k = draw(st.integers(1, nodes + draw(st.sampled_from([0, 0, 0, 1]))))
    width = spn * rng
    fault = draw(st.sampled_from(["none", "none", "none", "overlap", "spacing", "count", "nodes", "missing"]))
    return dict(nodes=nodes, spn=spn, rng=rng, k=k, first=draw(st.one_of(fl(0, 360), st.sampled_from([0.0, 180.0, 359.0, 1.0]))), fault=fault, amount=draw(fl(0.05, 1)), slack=draw(st.one_of(fl(0, 1), st.just("exact"), st.just("exact"))), shuffle=draw(st.randoms(use_true_random=False)).random(), kind=draw(st.sampled_from(["DN", "POP"])))


@CHECK.sub("given", layouts, 1500, 30000, "two nodes or more, or several sectors per node", hang_s=20)
def given_sectors(c, ctx):
    """Given sectors are accepted exactly if they fit the device and do not overlap."""
    dev = topo.device("D", "DN", c["nodes"], number_sectors_per_node=c["spn"], horizontal_scan_range=c["rng"])
    site = topo.sites_of([dict(t=c["kind"], x=0.0, y=0.0)], [dev], [])[0]
    k, spn, rng, width = c["k"], c["spn"], c["rng"], c["spn"] * c["rng"]
    free = 360.0 - k * width
    exact = c["slack"] == "exact" and free > -1e-9
    gap = 0.0 if exact else 0.03 + (0.0 if c["slack"] == "exact" else c["slack"]) * max(0.0, free / k - 0.06)
    ok = k <= c["nodes"]
    if exact:
        pass
    elif k > 1 and gap * k + k * width > 360.0 - 0.02:
        ok = False
        if gap * k + k * width < 360.0 + 0.3:
            gap = 0.03
            if 0.03 * k + k * width > 360.0 - 0.02:
                ctx.label("no room")
                return
            ok = k <= c["nodes"]
    az = [[(c["first"] + i * (width + gap) + j * rng) % 360.0 for j in range(spn)] for i in range(k)]
    if c["fault"] == "overlap" and k > 1:
        # turn the second node into the first
        by = gap + 0.02 + c["amount"] * min(rng * 0.9, width - 0.05)
        az[1] = [(a - by) % 360.0 for a in az[1]]
        ok = False
    elif c["fault"] == "spacing" and spn > 1:
        az[0][-1] = (az[0][-1] + c["amount"] * 5 + 0.02) % 360.0
        ok = False
    elif c["fault"] == "missing" and spn > 1:
        az[-1] = az[-1][:-1]
        ok = False
    elif c["fault"] == "count":
        az[-1] = az[-1] + [(az[-1][-1] + rng) % 360.0]
        ok = False
    if k > 1 or spn > 1:
        ctx.nontrivial()
    ctx.label("good" if ok else "bad " + c["fault"])
    secs = [Sector(site, i, j, a) for i, node in enumerate(az) for j, a in enumerate(node)]
    secs.sort(key=lambda s: (hash((round(s.ant_azimuth, 3), c["shuffle"]))))
    try:
        validate_site_sectors(secs)
        got = True
    except OptimizerException as e:
        got, why = False, str(e)
    require(got == ok, "given sectors are " + ("refused although they fit" if ok else "accepted although they do not fit"), azimuths=az, scan_range=rng, nodes=c["nodes"], per_node=spn, error=None if got else why)


@st.composite
def planned(draw):
    c = draw(networks(("CANDIDATE", "CANDIDATE", "PROPOSED", "EXISTING"), 8))
    c["order"] = draw(st.permutations(range(len(c["links"]))))
    c["channels"] = draw(st.integers(1, 3))
    c["pick"] = [draw(st.integers(0, 5)) for _ in range(12)]
    c["limits"] = dict(dn_dn_sector_limit=draw(st.integers(1, 3)), dn_total_sector_limit=draw(st.sampled_from([1, 2, 3, 15])), diff_sector_angle_limit=draw(st.sampled_from([0.0, 10.0, 25.0, 45.0])), near_far_angle_limit=draw(st.sampled_from([0.0, 20.0, 45.0])), near_far_length_ratio=draw(st.sampled_from([1.5, 3.0])))
    if c["limits"]["dn_dn_sector_limit"] > c["limits"]["dn_total_sector_limit"]:
        c["limits"]["dn_total_sector_limit"] = c["limits"]["dn_dn_sector_limit"]
    return c


def ground(a, b):
    p1, p2 = math.radians(a.latitude), math.radians(b.latitude)
    h = math.sin((p2 - p1) / 2) ** 2 + math.cos(p1) * math.cos(p2) * math.sin(math.radians(b.longitude - a.longitude) / 2) ** 2
    return 2 * 6371000.0 * math.asin(min(1.0, math.sqrt(h)))


def too_narrow(l1, l2, lim, slack):
    """Two links leaving one site break an angle rule (slack > 0: or nearly so)."""
    ang = abs(turn(bearing(l1.tx_site, l1.rx_site), bearing(l2.tx_site, l2.rx_site)))
    d1, d2 = ground(l1.tx_site, l1.rx_site), ground(l2.tx_site, l2.rx_site)
    ratio = max(d1, d2) / max(min(d1, d2), 1e-9)
    return ang <= lim["diff_sector_angle_limit"] + slack or (ang <= lim["near_far_angle_limit"] + slack and ratio >= lim["near_far_length_ratio"] - slack)


def rules_hold(active, lim, slack, channel=None):
    """The sector limits and the angle rules for a set of active links."""
    out, by_sector = {}, {}
    for l in active:
        out.setdefault(l.tx_site.site_id, []).append(l)
        by_sector.setdefault(l.tx_sector.sector_id, []).append(l)
    for ls in by_sector.values():
        if len(ls) > lim["dn_total_sector_limit"] or sum(1 for l in ls if l.rx_site.site_type != SiteType.CN) > lim["dn_dn_sector_limit"]:
            return False
    for ls in out.values():
        for a, b in itertools.combinations(ls, 2):
            if a.tx_sector is not b.tx_sector and (channel is None or channel[a.link_id] == channel[b.link_id]) and too_narrow(a, b, lim, slack):
                return False
    return True


@CHECK.sub("readjusted", planned, 180, 10000, "two or more active links at a site whose sectors are not given", hang_s=30)
def readjusted(c, ctx):
    """Turning the sectors of a finished plan keeps every active link within the limits."""
    old = [s["st"] == "EXISTING" for s in c["sites"]]
    c = dict(c, links=[(a, b, "EXISTING" if s == "EXISTING" and old[a] and old[b] else "CANDIDATE", w) for a, b, s, w in c["links"]])
    sites, t, given = build(dict(c, own=[o if s["st"] == "EXISTING" else None for s, o in zip(c["sites"], c["own"])]))
    try:
        setup_node_structure(t)
    except OptimizerException:
        ctx.label("not plannable")
        return
    lim = c["limits"]
    # existing links have existing sectors; keep only networks where they do
    active = [l for l in wireless(t) if l.status_type == StatusType.EXISTING]
    if any(l.tx_sector is None or l.tx_sector.sector_id not in given or l.rx_sector.sector_id not in given for l in active):
        ctx.label("existing without sectors")
        return
    has_in = {}
    for l in active:
        if l.rx_site.site_type == SiteType.CN:
            has_in[l.rx_site.site_id] = has_in.get(l.rx_site.site_id, 0) + 1
            half = l.rx_site.device.sector_params.horizontal_scan_range / 2
            if has_in[l.rx_site.site_id] > 1 or abs(l.rx_dev) > half - 0.03:
                return
    if not rules_hold(active, lim, 0.01):
        ctx.label("existing breaks rules")
        return
    for k in c["order"]:
        a, b = sites[c["links"][k][0]], sites[c["links"][k][1]]
        new = [l for l in (t.get_link_by_site_ids(a.site_id, b.site_id), t.get_link_by_site_ids(b.site_id, a.site_id)) if l is not None]
        if not new or not new[0].is_wireless or any(l.tx_sector is None or l in active for l in new):
            continue
        cn = [l for l in new if l.rx_site.site_type == SiteType.CN]
        if cn and (has_in.get(cn[0].rx_site.site_id) or (cn[0].rx_sector.sector_id in given and abs(cn[0].rx_dev) > cn[0].rx_site.device.sector_params.horizontal_scan_range / 2 - 0.03)):
            continue
        if rules_hold(active + new, lim, 0.01):
            active += new
            if cn:
                has_in[cn[0].rx_site.site_id] = 1
    for l in active:
        for s in (l.tx_site, l.rx_site):
            if s.status_type == StatusType.CANDIDATE:
                s.status_type = StatusType.PROPOSED
    for l in active:
        if l.status_type == StatusType.CANDIDATE:
            l.status_type = StatusType.PROPOSED
    # channels: one for all sectors joined by active links
    group = {}

    def root(x):
        while group.get(x, x) != x:
            x = group[x]
        return x

    for l in active:
        group[root(l.tx_sector.sector_id)] = root(l.rx_sector.sector_id)
    used = sorted({root(x) for l in active for x in (l.tx_sector.sector_id, l.rx_sector.sector_id)})
    for i, s in enumerate(used):
        for x in [y for y in t.sectors.values() if root(y.sector_id) == s]:
            x.channel = c["pick"][i % 12] % c["channels"]
    nodes = {(s.site.site_id, s.node_id) for l in active for s in (l.tx_sector, l.rx_sector)}
    for s in t.sectors.values():
        if s.status_type == StatusType.CANDIDATE and (s.site.site_id, s.node_id) in nodes:
            s.status_type = StatusType.PROPOSED
    channel = {l.link_id: l.link_channel for l in active}
    multi = {}
    for l in active:
        multi.setdefault(l.tx_site.site_id, set()).add(channel[l.link_id])
    before = topo.snapshot(t)
    dns, cns = devices(c)
    params = OptimizerParams(device_list=dns + cns, **lim)
    readjust_sectors_post_opt(t, params)
    after = topo.snapshot(t)
    require(after["sites"] == before["sites"], "turning sectors changed a site")
    for k, v in before["links"].items():
        require(after["links"][k][4:] == v[4:], "turning sectors changed a link", link=k, was=v, now=after["links"][k])
    for k, v in before["sectors"].items():
        if v[4] == "EXISTING":
            require(after["sectors"].get(k) == v, "existing equipment was turned or changed", sector=k, was=v, now=after["sectors"].get(k))
    check_sectors(t, full_cn=False)
    per = {}
    for l in active:
        require(l.tx_sector is not None, "an active link has lost its sectors", link=l.link_id)
        require(l.link_channel == channel[l.link_id], "an active link has changed its channel", link=l.link_id)
        per.setdefault(l.tx_site.site_id, []).append(l)
        for s in (l.tx_sector, l.rx_sector):
            require(s.status_type in StatusType.active_status() and (l.status_type != StatusType.EXISTING or s.status_type == StatusType.EXISTING), "an active link is on a sector that is not in use", link=l.link_id)
        if l.rx_site.site_type == SiteType.CN and l.rx_sector.sector_id not in given and l.rx_site.device.sector_params.number_sectors_per_node == 1:
            require(abs(turn(l.rx_sector.ant_azimuth, bearing(l.rx_site, l.tx_site))) <= GRID / 2 + 0.03, "a client does not face its source", link=l.link_id)
    for sid, ls in per.items():
        if len(ls) > 1 and not any(s.sector_id in given for s in t.sectors.values() if s.site.site_id == sid):
            ctx.nontrivial()
            ctx.label("channels at a site" if len(multi[sid]) > 1 else "one channel")
    require(rules_hold(active, lim, -0.01, channel), "turning the sectors broke a sector limit or an angle rule")
    for k in {(s.site.site_id, s.node_id) for l in active for s in (l.tx_sector, l.rx_sector)}:
        require(all(s.status_type in StatusType.active_status() for s in t.sectors.values() if (s.site.site_id, s.node_id) == k), "a sector of a radio in use is not in use")
