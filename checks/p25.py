"""P25: reports of plans."""
import csv
import math
import os
import xml.etree.ElementTree as ET
from collections import Counter, defaultdict

import hypothesis.strategies as st
import numpy as np
import yaml

from checks.p20 import FILTERS, distances, edges, pops
from checks.p21 import reached
from checks.p24 import ACTIVE, backups, build, costs, counts, is_active, pair, plans
from checks.p26 import TOL, best, check_flow, connected, refused
from harness import topo
from harness.core import Check, require, require_close
from harness.gen import fl
from terragraph_planner.common.configuration.enums import LinkType, SiteType, StatusType
from terragraph_planner.common.exceptions import OptimizerException
from terragraph_planner.common.utils import current_system_params
from terragraph_planner.optimization.deployment_rules import find_angle_violating_link_pairs, find_sector_limit_violations, get_violating_link_ids
from terragraph_planner.optimization.structs import FlowSolution
from terragraph_planner.optimization import topology_report
from terragraph_planner.optimization.topology_networkx import build_digraph, disjoint_paths
from terragraph_planner.optimization.topology_operations import update_link_caps_with_sinr
from terragraph_planner.optimization.topology_report import analyze, analyze_with_dump

CHECK = Check("P25")
CHECK.assumptions = [
    "wired links do not lead to clients, which the planner refuses",
    "rates under interference, second paths, availability and rule violations are those of the functions that P23, P21, P22 and P19 judge",
    "links between the same two places and kinds count once in the totals",
]
SIMULATED = []
NAMES = FILTERS["active"]


@st.composite
def finished(draw, high=8):
    c = draw(plans(high))
    kinds = [s["t"] for s in c["sites"]]
    if draw(st.integers(0, 3)):
        c["sites"][0]["t"] = kinds[0] = "POP"
        for i, s in enumerate(c["sites"]):
            if (s["x"], s["y"]) not in [(o["x"], o["y"]) for o in c["sites"][:i]]:
                s["st"] = draw(st.sampled_from(["PROPOSED", "PROPOSED", "EXISTING", s["st"]]))
        c["links"] = [(a, b, draw(st.sampled_from(["PROPOSED", "PROPOSED", "EXISTING", "CANDIDATE"])), w) for a, b, _, w in c["links"]]
        for b in range(1, len(kinds)):  # reach most of them
            a = draw(st.integers(0, b - 1))
            if draw(st.integers(0, 3)) and not any(x[:2] == (a, b) for x in c["links"]):
                c["links"].append((a, b, "PROPOSED", True))
    c["links"] = [(a, b, s, w or "CN" in (kinds[a], kinds[b])) for a, b, s, w in c["links"]]
    if not c["demand"] or draw(st.integers(0, 2)):
        c["demand"].append(([draw(st.integers(0, len(kinds) - 1))], draw(st.integers(1, 2)), 0.5))
    c["more"] = dict(availability_sim_time=draw(st.sampled_from([0.0, 20.0])), availability_seed=draw(st.integers(0, 3)), link_availability_percentage=draw(st.sampled_from([90.0, 99.9, 0.0])),
                     diff_sector_angle_limit=draw(st.sampled_from([25.0, 60.0])), near_far_length_ratio=draw(st.sampled_from([1.5, 3.0])), dn_dn_sector_limit=draw(st.integers(1, 2)), dn_total_sector_limit=draw(st.integers(2, 4)))
    c["title"] = draw(st.sampled_from([None, "town", "A & B <plan>"]))
    return c


def make(c):
    return build(c, **c["more"])


def run(c, t, params, how=analyze):
    """The report, or None when the network has nothing to report on."""
    links = {(l.tx_site.site_id, l.rx_site.site_id): l for l in t.links.values()}
    assert all(l.capacity == 0 for l in links.values() if l.is_wireless)
    before = topo.snapshot(t)
    SIMULATED.clear()
    real = topology_report.compute_availability

    def simulate(graph, link, time, *a, **k):
        out = real(graph, link, time, *a, **k)
        SIMULATED.append((link, time, (list(a) + [k.get("time_limit_sec"), k.get("seed")])[:2] if len(a) != 1 else [a[0], k.get("seed")], out[0]))
        return out

    topology_report.compute_availability = simulate
    try:
        r = how(t, params)
    except OptimizerException as e:
        require(refused(t, params), "a network with sources and customers was refused", msg=str(e))
        return None
    finally:
        topology_report.compute_availability = real
    require(r.topology is t, "the report is on another network")
    require(topo.snapshot(t) == before, "reporting changed the plan")
    return r


def stats(values, n=None):
    """Average, largest and smallest."""
    values = list(values)
    return (sum(values) / (n or len(values)) if values else 0, max(values, default=0), min(values, default=0))


def same(got, want, name, rel=1e-9, abs_=1e-9):
    for k, x in zip(("avg", "max", "min"), want):
        require_close(getattr(got, k), x, f"{name}: wrong {k}", rel=rel, abs_=abs_)


def flows(t, params, m, ctx):
    """Traffic in the report."""
    who = connected(t)
    f = m.flow_metrics
    if not who:
        if f is not None:
            require_close(f.total_bandwidth, 0, "traffic without connected customers")
        return
    require(f is not None, "no traffic is reported for connected customers")
    want = best(t, params, who)
    require_close(f.minimum_bandwdith_for_connected_demand, want, "the reported common amount is not the largest possible", rel=1e-6, abs_=TOL)
    require_close(f.total_bandwidth, want * len(who), "the reported total is not the sum over the connected customers", rel=1e-6, abs_=TOL * len(who))
    used = []
    seen = set()
    for l in t.links.values():
        if not is_active(l):
            continue
        rev = t.get_link_by_site_ids(l.rx_site.site_id, l.tx_site.site_id)
        if rev is not None and rev.link_id in seen:
            continue
        seen.add(l.link_id)
        both = [100 * x.proposed_flow / x.capacity if x.capacity > 0 else 0 for x in (l, rev) if x is not None and is_active(x)]
        used += [max(both)] if min(both) <= 1e-5 else both
    same(f.link_capacity_utilization, stats(used), "utilisation of links", abs_=1e-3)
    for l in t.links.values():
        share = 100 * l.proposed_flow / l.capacity if is_active(l) and l.capacity > 0 else 0
        require_close(l.utilization, share, "the utilisation of a link is not its traffic by its capacity", l.link_id, abs_=1e-3)
        require(l.proposed_flow == 0 or is_active(l), "traffic is reported on a link that is not active", link=l.link_id)
    # source and customer connections are not in the report: what they must carry follows
    net = defaultdict(float)
    for l in t.links.values():
        net[l.tx_site.site_id] += l.proposed_flow
        net[l.rx_site.site_id] -= l.proposed_flow
    for s in t.sites.values():
        only = s.site_type != SiteType.POP and not any(s in d.connected_sites for d in t.demand_sites.values())
        if only:
            require_close(net[s.site_id], 0.0, "reported traffic entering and leaving a site differ", s.site_id, abs_=TOL * 5)
        elif s.site_type != SiteType.POP:
            require(net[s.site_id] <= TOL * 5, "a site that is not a source sends more than it receives", site=s.site_id)


def lost(t):
    """Customers lost when a link or site fails."""
    arcs, src = set(edges(t, NAMES)), pops(t, NAMES)
    all_ = reached(t, arcs, src)
    by_link = {}
    for a, b in arcs:
        if t.get_link_by_site_ids(a, b).link_type == LinkType.WIRELESS_BACKHAUL:
            by_link[frozenset((a, b))] = len(all_ - reached(t, arcs - {(a, b), (b, a)}, src))
    by_site = {s.site_id: len(all_ - reached(t, arcs, src, {s.site_id})) for s in t.sites.values() if s.site_type != SiteType.CN and is_active(s)}
    return by_link, by_site


def metrics(c, t, params, m, ctx):
    for k, v in counts(t).items():
        require(getattr(m.counts, k) == v, "a count is not the number of such elements", which=k, got=getattr(m.counts, k), want=v)
    require(backups(t, True) <= m.counts.active_cns_with_backup_dns <= backups(t, False), "the number of clients with a second link is wrong")
    require_close(m.capex.proposed_capex, costs(c, t, ("PROPOSED",)), "cost of the proposed equipment", abs_=1e-6)
    require_close(m.capex.total_capex, costs(c, t, ACTIVE), "cost of all active equipment", abs_=1e-6)
    require({k: v for k, v in m.active_site_sku_counter.items() if v} == dict(Counter(s.device.device_sku for s in t.sites.values() if is_active(s))), "number of sites per device")
    chan = {frozenset((l.tx_site.site_id, l.rx_site.site_id)): l.tx_sector.channel for l in t.links.values() if l.is_wireless and is_active(l)}
    require({k: v for k, v in m.channel_occupancy_counter.items() if v} == dict(Counter(chan.values())), "number of links per channel")

    d = m.demand_metrics
    arcs, src = set(edges(t, NAMES)), pops(t, NAMES)
    on = reached(t, arcs, src)
    at_pop = {x.demand_id for x in t.demand_sites.values() if any(s.site_id in src for s in x.connected_sites)}
    paths = disjoint_paths(t, build_digraph(t, {StatusType[x] for x in ACTIVE}))
    require(d.number_of_demands == len(t.demand_sites), "number of demands")
    require(d.number_of_disconnected_demands == len(t.demand_sites) - len(on), "number of disconnected demands", got=d.number_of_disconnected_demands)
    require(d.number_of_demands_connected_to_pops == len(at_pop), "number of demands connected to sources", got=d.number_of_demands_connected_to_pops)
    require(d.number_of_demands_with_disjoint_path == len(paths.demand_with_disjoint_paths), "number of demands with a second path")
    away = len(t.demand_sites) - len(at_pop)
    require_close(d.percentage_of_demand_with_disjoint_path, 100 * d.number_of_demands_with_disjoint_path / away if away else 0, "share of demands with a second path")
    total = sum(x.demand * x.num_sites for x in t.demand_sites.values())
    require_close(d.total_demand, total, "total demand")
    require_close(d.total_demand_oversubscribed, total / c["extra"]["oversubscription"], "total demand with oversubscription")

    flows(t, params, m, ctx)

    secs = [x for x in t.sectors.values() if is_active(x) and x.site.site_type != SiteType.CN]
    for got, kind in ((m.backhaul_link, LinkType.WIRELESS_BACKHAUL), (m.access_link, LinkType.WIRELESS_ACCESS)):
        ls = [l for l in t.links.values() if is_active(l) and l.link_type == kind]
        require(got.active_count == len({pair(l) for l in ls}), "number of active links", kind=kind.name)
        same(got.link_dist, stats(l.distance for l in ls), "length of links")
        per = {x.sector_id: {pair(l) for l in ls if x in (l.tx_sector, l.rx_sector)} for x in secs}
        same(got.links_per_sector, stats(len(v) for v in per.values()), "links per sector")
    for got, kind in ((m.backhaul_mcs, LinkType.WIRELESS_BACKHAUL), (m.access_mcs, LinkType.WIRELESS_ACCESS)):
        by = defaultdict(list)
        for l in t.links.values():
            if is_active(l) and l.link_type == kind:
                by[frozenset((l.tx_site.site_id, l.rx_site.site_id))].append(l.mcs_level)
        require(sum(got.values()) == len(by), "number of links per modulation", got=dict(got))
        if all(len(set(v)) == 1 for v in by.values()):
            require({k: v for k, v in got.items() if v} == dict(Counter(v[0] for v in by.values())), "links per modulation", got=dict(got))
        else:
            require(set(got) <= {x for v in by.values() for x in v}, "a modulation is counted that no link has", got=dict(got))

    by_link, by_site = lost(t)
    fd = m.failure_disruption
    same(fd.edge_fail_effect, stats(by_link.values()), "effect of link failures")
    for got, kind in ((fd.pop_fail_effect, SiteType.POP), (fd.dn_fail_effect, SiteType.DN)):
        same(got, stats(by_site[s.site_id] for s in t.sites.values() if s.site_type == kind and is_active(s)), "effect of site failures")

    a = m.availability_metrics
    vals = []
    if c["more"]["availability_sim_time"] > 0:
        # the random history depends on the order of links in a graph, so the simulation of this very report is taken
        require(len(SIMULATED) == 1, "availability was asked for and not simulated")
        link, time, (limit, seed), out = SIMULATED[0]
        require((link, time, seed) == (c["more"]["link_availability_percentage"], c["more"]["availability_sim_time"], c["more"]["availability_seed"]) and limit == 3600, "availability is simulated with other parameters", got=(link, time, limit, seed))
        require(set(out) == on, "availability is simulated for other demand")
        vals = list(out.values())
    require_close(a.avg, 100 * sum(vals) / len(vals) if vals else 0, "average availability", abs_=1e-6)
    require(sorted(a.percentiles) == [0, 25, 50, 75, 100], "percentiles of availability")
    for p, v in a.percentiles.items():
        require_close(v, 100 * float(np.percentile(vals, p)) if vals else 0, "percentile of availability", abs_=1e-6)
    return by_link, by_site


def violations(c, t, m):
    x = dict(dn_total=c["more"]["dn_total_sector_limit"], dn=c["more"]["dn_dn_sector_limit"])
    angles = find_angle_violating_link_pairs(t, c["more"]["diff_sector_angle_limit"], 45.0, c["more"]["near_far_length_ratio"], active_components=True)
    limits = find_sector_limit_violations(t, x["dn"], x["dn_total"])
    require(m.diff_sector_link_violations == len(angles.diff_sector_list), "number of links violating the angle of sectors")
    require(m.near_far_link_violations == len(angles.near_far_list), "number of links violating the near-far rule")
    require(m.sector_link_limit_violations == len(limits), "number of sectors with too many links")
    return get_violating_link_ids(t, angles.diff_sector_list), get_violating_link_ids(t, angles.near_far_list), set(limits)


def cell(got, want, table, column, who):
    ok = got == want
    if isinstance(want, float) and not isinstance(want, bool):
        ok = isinstance(got, (int, float, np.floating)) and (math.isclose(float(got), want, rel_tol=1e-6, abs_tol=1e-9))
    require(ok, "a report has another value than the element it names", table=table, column=column, element=who, got=repr(got), want=repr(want))


def tables(c, t, r, by_link, by_site, flags):
    """Every cell of the three tables."""
    diff, near, full = flags
    m = r.metrics.counts
    text = lambda v: "N/A" if v is None else v  # noqa: E731
    num = lambda v, k: "N/A" if v is None else round(v, k) if isinstance(v, float) else v  # noqa: E731
    links = [l for l in t.links.values()]
    require(r.link_df.empty == (not any(is_active(l) for l in links)), "links are listed without active links, or not listed")
    if not r.link_df.empty:
        rows = list(r.link_df.reset_index().to_dict("records"))
        require(len(rows) == len(links), "a link is missing in the table or listed twice", got=len(rows), want=len(links))
        by = {(x["Tx Site Name"], x["Rx Site Name"], x["Link Geohash"]): x for x in rows} if len({s.name for s in t.sites.values()}) == len(t.sites) else None
        for i, l in enumerate(links):
            x = by.get((l.tx_site.name, l.rx_site.name, l.link_hash)) if by is not None else rows[i]
            require(x is not None, "a link is missing in the table", link=l.link_id)
            want = {
                "Link Type": l.link_type.to_string(), "Status": l.status_type.to_string(), "Distance": num(float(l.distance), 2), "Data Flow (Gbps)": num(float(l.proposed_flow), 2), "Throughput (Gbps)": num(l.capacity, 2), "Utilization": num(float(l.utilization), 2),
                "Tx Beam Azimuth": num(l.tx_beam_azimuth, 2), "Rx Beam Azimuth": num(l.rx_beam_azimuth, 2), "Deviation from Tx Boresight": num(l.tx_dev, 2), "Deviation from Rx Boresight": num(l.rx_dev, 2), "Deviation from El Boresight": num(l.el_dev, 2),
                "Tx Power (dBm)": num(l.tx_power, 2), "Estimated MCS": text(l.mcs_level), "Estimated SNR (dB)": num(l.snr_dbm, 2), "Estimated SINR (dB)": num(l.sinr_dbm, 2), "Estimated RSL": num(l.rsl_dbm, 2), "Confidence Level": num(l.confidence_level, 2),
                "Sectors": "WIRED CONNECTION" if not l.is_wireless else "UNKNOWN" if l.tx_sector is None else f"{l.tx_sector.sector_id} --> {l.rx_sector.sector_id}",
                "Outages Caused": by_link.get(frozenset((l.tx_site.site_id, l.rx_site.site_id)), 0) if is_active(l) else 0,
                "Channel": str(l.tx_sector.channel) if is_active(l) and l.tx_sector is not None and l.tx_sector.channel >= 0 else "UNASSIGNED",
                "Violates Diff Sector Angle Rule": l.link_id in diff, "Violates Near-Far Rule": l.link_id in near, "Violates Sector Link Limit": l.tx_sector is not None and l.tx_sector.sector_id in full,
            }
            for k, v in want.items():
                cell(x[k], v, "links", k, l.link_id)
    require(r.site_df.empty == (m.active_sites == 0), "sites are listed without active sites, or not listed")
    if not r.site_df.empty:
        rows = list(r.site_df.to_dict("records"))
        require(len(rows) == len(t.sites), "a site is missing in the table or listed twice", got=len(rows), want=len(t.sites))
        hops = distances(pops(t, NAMES), set(edges(t, NAMES)))
        price = {SiteType.POP: c["capex"]["pop_site"], SiteType.DN: c["capex"]["dn_site"], SiteType.CN: c["capex"]["cn_site"]}
        key = lambda x: (x["Site Geohash"], x["Site Type"], str(x["Altitude"]), x["Status"], x["Device SKU"], x["Site Name"])  # noqa: E731
        by = defaultdict(list)
        for x in rows:
            by[key(x)].append(x)
        for s in t.sites.values():
            secs = [z for z in t.sectors.values() if z.site is s and is_active(z)]
            here = [l for l in links if is_active(l) and l.is_wireless and s in (l.tx_site, l.rx_site)]
            want = {
                "Site Geohash": s.site_hash, "Status": s.status_type.to_string(), "Lat": float(np.float32(round(s.latitude, 6))), "Lon": float(np.float32(round(s.longitude, 6))), "Altitude": num(s.altitude, 6), "Site Type": s.site_type.to_string(), "Polarity": s.polarity.to_string(),
                "Outages Caused": by_site.get(s.site_id, 0), "Site Capex": price[s.site_type], "Active Nodes": len({z.node_id for z in secs}), "Active Sectors": len(secs), "Active Links": len({pair(l) for l in here}),
                "Hops to Nearest Pop": hops.get(s.site_id, "disconnected"), "Building Id": text(s.building_id), "Device SKU": s.device.device_sku, "Number of Subscribers": text(s.number_of_subscribers), "Site Name": s.name,
                "Outgoing Flow": float(sum(l.proposed_flow for l in links if l.tx_site is s)), "Incoming Flow": float(sum(l.proposed_flow for l in links if l.rx_site is s)),
            }
            mine = by.get(key(want), [])
            require(len(mine) > 0, "no row of the site table is for a site", site=s.site_id, name=s.name)
            if len(mine) == 1:
                for k, v in want.items():
                    cell(mine[0][k], v, "sites", k, s.site_id)
    act = [x for x in t.sectors.values() if is_active(x)]
    require(r.sector_df.empty == (not act), "sectors are listed without active sectors, or not listed")
    if act:
        rows = {x["Sector ID"]: x for x in r.sector_df.reset_index().to_dict("records")}
        require(len(r.sector_df) == len(act) and set(rows) == {x.sector_id for x in act}, "the sectors listed are not the active ones")
        for z in act:
            at = lambda kind: len({pair(l) for l in links if is_active(l) and l.link_type == kind and z in (l.tx_sector, l.rx_sector)})  # noqa: E731
            dev = z.site.device.device_sku
            want = {
                "Node ID": z.node_id, "Sector Position": z.position_in_node, "Site Geohash": z.site.site_hash, "Status": z.status_type.to_string(), "Azimuth Orientation": float(np.float32(round(z.ant_azimuth, 1))), "Polarity": z.site.polarity.to_string(),
                "Channel": str(z.channel) if z.channel >= 0 else "UNASSIGNED", "Node Cost": (c["capex"]["dn"] if dev[0] == "D" else c["capex"]["cn"])[int(dev[1])], "Active Backhaul Links": at(LinkType.WIRELESS_BACKHAUL), "Active Access Links": at(LinkType.WIRELESS_ACCESS),
                "Site Type": z.site.site_type.to_string(), "Violates Link Load": z.sector_id in full,
            }
            for k, v in want.items():
                cell(rows[z.sector_id][k], v, "sectors", k, z.sector_id)


@CHECK.sub("report", finished, 2000, 20000, "customers are connected over at least one active link and another element is not active", hang_s=40)
def report(c, ctx):
    """Every figure and every row of a report, from the network."""
    sites, t, params = make(c)
    r = run(c, t, params)
    if r is None:
        return
    _, twin, _ = make(c)
    update_link_caps_with_sinr(twin, params, 10)
    rates = {l.link_id: l for l in twin.links.values()}
    for l in t.links.values():
        require_close(l.capacity, rates[l.link_id].capacity, "the capacity of a link is not that under interference", l.link_id, abs_=1e-9)
    by_link, by_site = metrics(c, t, params, r.metrics, ctx)
    flags = violations(c, t, r.metrics)
    tables(c, t, r, by_link, by_site, flags)
    ctx.nontrivial(r.metrics.flow_metrics is not None and r.metrics.flow_metrics.total_bandwidth > 0 and any(is_active(l) and l.proposed_flow > 0 for l in t.links.values()) and any(not is_active(s) for s in sites))
    for k, v in (("some flow", any(l.proposed_flow > 0 for l in t.links.values())), ("outages", any(by_link.values())), ("violations", any(flags))):
        if v:
            ctx.label(k)


def plain(x):
    """The metrics as a file of plain values would hold them."""
    if hasattr(x, "_asdict"):
        return {k: plain(v) for k, v in x._asdict().items()}
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    return x


KML = "{http://www.opengis.net/kml/2.2}"


def check_kml(path, t):
    try:
        root = ET.parse(path).getroot()
    except ET.ParseError as e:
        require(False, "the network file is not well-formed", error=str(e))
    styles = {"#" + s.get("id") for s in root.iter(KML + "Style")}
    sites, links, demand, conns = [], [], 0, 0
    for f in root.iter(KML + "Folder"):
        for p in f.findall(KML + "Placemark"):
            url = p.find(KML + "styleUrl").text
            require(url in styles or url == "#POP_UNREACHABLE", "a placemark refers to a style that is not defined", style=url)
            at = [tuple(float(v) if v != "None" else None for v in w.split(",")) for w in p.find(".//" + KML + "coordinates").text.split()]
            data = {x.get("name"): x.find(KML + "value").text for x in p.iter(KML + "Data")}
            if f.get("id") == "sites_demand":
                demand += 1
            elif f.get("id") == "conns_demand":
                conns += 1
            elif "Site Type" in data:
                sites.append((p.find(KML + "name").text, at[0], data["Status"], data["Site Type"], data["Device SKU"], f.get("id")))
            else:
                links.append((data["Tx Site Name"], data["Rx Site Name"], data["Status"], data["Link Type"], round(float(data["Data Flow (Gbps)"]), 2), round(float(data["Throughput (Gbps)"]), 2), round(float(data["Utilization"]), 1), f.get("id"), tuple(at)))
    want = [(s.name, (s.longitude, s.latitude, s.altitude), s.status_type.to_string(), s.site_type.to_string(), s.device.device_sku, f"{s.status_type.to_string()}_{s.site_type.to_string()}_sites") for s in t.sites.values()]
    require(sorted(sites, key=repr) == sorted(want, key=repr), "the sites of the network file are not those of the plan", got=[x for x in sites if x not in want][:2], want=[x for x in want if x not in sites][:2])
    pos = lambda s: (s.longitude, s.latitude, s.altitude)  # noqa: E731
    want = [(l.tx_site.name, l.rx_site.name, l.status_type.to_string(), l.link_type.to_string(), round(float(l.proposed_flow), 2), round(float(l.capacity), 2), round(float(l.utilization), 1), f"{l.link_type.name}_links", (pos(l.tx_site), pos(l.rx_site))) for l in t.links.values()]
    require(sorted(links, key=repr) == sorted(want, key=repr), "the links of the network file are not those of the plan", got=[x for x in links if x not in want][:2], want=[x for x in want if x not in links][:2])
    require(demand == len(t.demand_sites), "the demand in the network file is not that of the plan", got=demand, want=len(t.demand_sites))
    require(conns == sum(1 for d in t.demand_sites.values() for s in d.connected_sites if is_active(s)), "the connections of demand in the network file are others", got=conns)


def check_csv(path, df):
    import io

    with open(path, newline="", encoding="utf-8") as f:
        got = list(csv.reader(f))
    buf = io.StringIO()
    df.to_csv(buf)
    want = list(csv.reader(io.StringIO(buf.getvalue(), newline="")))
    require(got == want, "a table file is not the table", file=os.path.basename(path))


@CHECK.sub("files", finished, 1500, 8000, "customers are connected and some name or title has special characters", hang_s=40)
def files(c, ctx):
    """The written files hold the report."""
    sites, t, params = make(c)
    t.name = c["title"]
    if c["more"]["availability_seed"] == 0:
        os.makedirs("out/output", exist_ok=True)  # from an earlier run
    os.makedirs("out", exist_ok=True)
    old = current_system_params.output_dir
    current_system_params.output_dir = "out"
    try:
        flat = all((l.tx_site.altitude is None) == (l.rx_site.altitude is None) for l in t.links.values())
        if not flat:  # planner refuses to draw such links
            for s in sites:
                if s.altitude is None:
                    return
        r = run(c, t, params, analyze_with_dump)
        if r is None:
            return
        d = "out/output/"
        for name, df in (("link", r.link_df), ("site", r.site_df), ("sector", r.sector_df)):
            check_csv(d + name + ".csv", df)
        check_kml(d + "reporting_topology.kml", t)
        with open(d + "metrics.yaml") as f:
            got = yaml.safe_load(f)
        want = plain(r.metrics)
        require(got == want, "the file of metrics has other values", keys=[k for k in want if got.get(k) != want[k]])
        ctx.nontrivial(r.metrics.flow_metrics is not None and (c["title"] is not None or any(set(s.name) & set("&<,é") for s in sites)))
    finally:
        current_system_params.output_dir = old
