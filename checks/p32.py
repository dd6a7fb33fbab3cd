"""P32: whole planning runs."""
import csv
import hashlib
import json
import os
import shutil
from collections import Counter, defaultdict

import hypothesis.strategies as st
import yaml

from checks.p18 import build as with_sectors, check_sectors, wireless
from checks.p20 import distances
from checks.p24 import ACTIVE, counts, is_active
from checks.p25 import check_kml
from checks.p26 import refused
from checks.p27 import FIXED, RANK, best_share, check_reached, check_rules, everyone, far, spot
from harness import other, topo
from harness.core import Check, require, require_close
from harness.gen import fl
from terragraph_planner.common.configuration.configs import OptimizerParams
from terragraph_planner.common.configuration.enums import RedundancyLevel, SiteType, StatusType, TopologyRouting
from terragraph_planner.common.exceptions import OptimizerException
from terragraph_planner.common.data_io.utils import extract_topology_from_file
from terragraph_planner.common.data_io.topology_serializer import write_to_kml_file
from terragraph_planner.common.utils import current_system_params
from terragraph_planner.optimization.topology_optimization import _run_propose_extra_pops_step, optimize_and_report_topology, optimize_and_report_topology_with_config_file
from terragraph_planner.optimization.topology_operations import mark_unreachable_components
from terragraph_planner.optimization.topology_preparation import prepare_topology_for_optimization
from terragraph_planner.optimization.deployment_rules import find_angle_violating_link_pairs

CHECK = Check("P32")
CHECK.assumptions = [
    "at most one site per place is active before planning",
    "wired links do not lead to clients, which the planner refuses",
    "the solver has all the time it needs; solver tolerance for early stopping is switched off",
]
MORE = {
    "number_of_channels": [1, 1, 2],
    "maximize_common_bandwidth": [False, False, False, True],
    "always_active_pops": [True, False],
    "number_of_extra_pops": [0, 0, 0, 1],
    "maximum_number_hops": [15, 15, 3, 1],
    "demand": [0.025, 0.3, 1.0],
    "oversubscription": [1.0, 1.0, 3.0],
    "pop_capacity": [10.0, 10.0, 0.7],
    "budget": [300000.0, 0.0, 6000.0],
    "dn_dn_sector_limit": [2, 1],
    "diff_sector_angle_limit": [25.0, 60.0],
    "near_far_length_ratio": [3.0, 1.5],
    "backhaul_link_redundancy_ratio": [0.2, 0.0, 0.6],
    "availability_sim_time": [0.0, 0.0, 5.0],
    "maximum_eirp": [None, None, 30.0],
}


@st.composite
def worlds(draw, high=6, files=False):
    n = draw(st.integers(2, high))
    mess = draw(st.sampled_from([["CANDIDATE"], ["CANDIDATE"], ["CANDIDATE", "CANDIDATE", "EXISTING"], ["CANDIDATE", "CANDIDATE", "CANDIDATE", "PROPOSED", "EXISTING", "UNAVAILABLE"], ["EXISTING"]]))
    kinds = draw(st.sampled_from([["DN", "DN", "CN"], ["DN", "CN", "CN", "POP"], ["DN"]]))
    step = draw(st.sampled_from([20, 60, 110]))
    sites, seen = [], set()
    for i in range(n):
        o = draw(st.sampled_from(sites)) if sites else None
        s = dict(t=draw(st.sampled_from(kinds)), st=draw(st.sampled_from(mess)), dev=draw(st.integers(0, 1)), alt=draw(st.sampled_from([10.0, 10.0, 14.0])), subs=draw(st.sampled_from([None, None, 2])), name=f"n{i}")
        if o is None:
            s["x"], s["y"], s["t"] = 0.0, 0.0, draw(st.sampled_from(["POP", "POP", "POP", "POP", "DN"]))
        elif draw(st.integers(0, 6)) == 0:
            s["x"], s["y"], s["alt"], s["dev"] = o["x"], o["y"], o["alt"], 1 - o["dev"]
        else:
            s["x"] = o["x"] + draw(st.sampled_from([-1.5, -1, -1, -0.5, 0, 0, 0.5, 1, 1, 1.5])) * step + draw(st.integers(-3, 3))
            s["y"] = o["y"] + draw(st.sampled_from([-1.5, -1, -1, -0.5, 0.5, 1, 1, 1.5])) * step + draw(st.integers(-3, 3))
        k = (s["x"], s["y"], s["alt"])
        if k in seen and s["st"] in ACTIVE:
            s["st"] = "CANDIDATE"
        if s["st"] in ACTIVE:
            seen.add(k)
        sites.append(s)
    how = draw(st.sampled_from(["cn", "cn", "cn", "manual", "grid", "both"]))
    if how in ("cn", "both") and draw(st.integers(0, 9)) and not any(s["t"] == "CN" for s in sites):
        sites[-1]["t"] = "CN"
    keep = draw(st.integers(1, 4))
    links = []
    for a in range(n):
        for b in range(a + 1, n):
            if (b == a + 1 and draw(st.integers(0, 5))) or draw(st.integers(0, 4)) < keep:
                cable = not files and "CN" not in (sites[a]["t"], sites[b]["t"]) and draw(st.integers(0, 8)) == 0
                links.append((a, b, draw(st.sampled_from(["CANDIDATE"] + mess)), not cable))
    shapes = []
    for _ in range(2):
        spn = draw(st.sampled_from([1, 1, 2]))
        nodes = draw(st.sampled_from([1, 2, 4]) if spn == 1 else st.sampled_from([1, 2]))
        shapes.append((nodes, spn, draw(st.sampled_from([70.0, 90.0] if nodes * spn <= 4 and nodes < 4 else [90.0, 85.0]))))
    own = [None if files or draw(st.integers(0, 5)) else (draw(st.sampled_from([0.0, 45.0, 90.0])), draw(st.integers(1, 4)), 0.5) for _ in range(n)]
    more = {k: draw(st.sampled_from(v)) for k, v in MORE.items()}
    if not any(s["t"] == "POP" for s in sites) and draw(st.integers(0, 9)):
        more["number_of_extra_pops"] = draw(st.sampled_from([1, 2]))
    c = dict(
        sites=sites, links=links, own=own, dns=shapes, cns=[(1, 70.0), (1, 90.0)], more=more, demand=how, spacing=draw(st.sampled_from([60.0, 100.0])),
        manual=[(draw(fl(-100, 100, 40)), draw(fl(-100, 100, 40)), draw(st.integers(1, 2))) for _ in range(draw(st.integers(1, 3)))] if how in ("manual", "both") else [],
        radius=draw(st.sampled_from([30.0, 80.0])), level=draw(st.sampled_from([None, None, "NONE", "LOW", "MEDIUM", "HIGH"])), way=draw(st.sampled_from([None, None, "SHORTEST_PATH", "MCS_COST_PATH", "DPA_PATH"])),
        price=[draw(st.sampled_from([250.0, 100.0, 1000.0])) for _ in range(4)], floor=[draw(st.sampled_from([1500.0, 0.0, 500.0])) for _ in range(3)])
    return c


def settings(c):
    how = c["demand"]
    x = dict(c["more"], pop_site_capex=c["floor"][0], dn_site_capex=c["floor"][1], cn_site_capex=c["floor"][2], min_cost_rel_stop=-1, redundancy_rel_stop=-1)
    x.update(enable_cn_demand=how in ("cn", "both"), enable_manual_demand=how in ("manual", "both"), enable_uniform_demand=how == "grid")
    if how != "cn":
        x["demand_connection_radius"] = c["radius"]
    if how == "grid":
        x["demand_spacing"] = c["spacing"]
    x["dn_total_sector_limit"] = x["dn_dn_sector_limit"] + 2
    if c["level"] is not None:
        x.update(enable_legacy_redundancy_method=False, redundancy_level=RedundancyLevel[c["level"]])
    if c["way"] is not None:
        x["topology_routing"] = TopologyRouting[c["way"]]
    return x


def make(c):
    sites, t, given = with_sectors(c)
    devs = {s.device.device_sku: s.device for s in sites}
    for s, x in (("D0", 0), ("D1", 1), ("C0", 2), ("C1", 3)):
        if s in devs:
            devs[s].node_capex = c["price"][x]
    from terragraph_planner.common.geos import GeoLocation
    from terragraph_planner.common.topology_models.demand_site import DemandSite

    for x, y, num in c["manual"]:
        lat, lon = topo.metres(x, y)
        d = DemandSite(GeoLocation(latitude=lat, longitude=lon), num_sites=num)
        if d.demand_id not in t.demand_sites:
            t.add_demand_site(d)
    if not c["demand"] in ("manual", "both"):
        assert not t.demand_sites
    return sites, t, OptimizerParams(device_list=list(devs.values()), **settings(c))


def plan_of(t):
    """Everything of a plan that a user sees."""
    return {
        "sites": {k: (v.status_type.name, v.polarity.name) for k, v in t.sites.items()},
        "sectors": {k: (v.status_type.name, v.channel, v.ant_azimuth) for k, v in t.sectors.items()},
        "links": {k: (v.status_type.name, v.capacity, round(v.proposed_flow, 4), v.tx_sector and v.tx_sector.sector_id) for k, v in t.links.items()},
    }


def planned(t, params, out):
    """Plan a network, with its files in a folder."""
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    old = current_system_params.output_dir
    current_system_params.output_dir = out
    try:
        optimize_and_report_topology(t, params)
    finally:
        current_system_params.output_dir = old


def execute(c, out="out"):
    sites, t, params = make(c)
    planned(t, params, out)
    return sites, t, params


def hopeless(c):
    """Why the network of a case may be refused, or None."""
    sites, t, params = make(c)
    if not any(s.site_type == SiteType.POP for s in t.sites.values()) and params.number_of_extra_pops == 0:
        return "no source"
    if c["demand"] == "cn" and not any(s.site_type == SiteType.CN for s in t.sites.values()):
        return "no client"
    try:
        prepare_topology_for_optimization(t, params)
    except OptimizerException as e:
        if "No demand sites" in str(e):
            return "no demand"
        if "an active link to not have a valid sector" in str(e):  # judged by P18
            return "active link without sector"
        raise
    t.sort()
    _run_propose_extra_pops_step(t, params)
    mark_unreachable_components(t, maximum_hops=params.maximum_number_hops)
    params.ignore_polarities = False
    if refused(t, params):
        return "no traffic"
    fan, near, serving = Counter(), Counter(), Counter()
    for l in t.links.values():
        if l.status_type == StatusType.EXISTING and l.is_wireless and l.capacity > 0:
            fan[l.tx_sector.sector_id] += 1
            near[l.tx_sector.sector_id] += far(l.rx_site)
            serving[l.rx_site.site_id] += not far(l.rx_site)
    if any(m > params.dn_total_sector_limit for m in fan.values()) or any(m > params.dn_dn_sector_limit for m in near.values()) or any(m > 1 for m in serving.values()):
        return "existing links break rules"
    who = None
    if params.maximize_common_bandwidth:
        who = everyone(t, params)
        if not who:
            return "nobody to connect"
    top = best_share(t, params, who)
    if top is not None and abs(top - 0.5) < 1e-4:
        return "just enough or not"
    return "too little" if top is None or top < 0.5 else None


def check_plan(c, sites, t, params):
    first = make(c)[1]
    for part in ("sites", "sectors", "links"):
        for k, v in getattr(first, part).items():
            now = getattr(t, part).get(k)
            if part == "sectors" and now is None:
                require(v.status_type != StatusType.EXISTING, "an existing sector was removed", sector=k)
                continue
            require(now is not None, "an element of the input is missing in the plan", which=k)
            a, b = v.status_type.name, now.status_type.name
            require(a == b if a in FIXED else b in ("PROPOSED", "CANDIDATE", "UNREACHABLE"), "existing or unavailable equipment changed its status, or other equipment has one of these", which=k, was=a, now=b)
            if part == "sectors" and a == "EXISTING":
                require(v.ant_azimuth == now.ant_azimuth, "an existing sector was turned", sector=k)
    extra = [v for k, v in t.sites.items() if k not in first.sites]
    require(len(extra) <= params.number_of_extra_pops and all(v.site_type == SiteType.POP for v in extra), "sites were invented", extra=[v.site_id for v in extra])
    for v in extra:
        require(any(spot(w) == spot(v) and w.site_type == SiteType.DN for w in first.sites.values()), "a source was proposed where no relay is", site=v.site_id)
    check_rules(t, params)
    check_reached(t)
    reach = distances([s for s, v in t.sites.items() if v.site_type == SiteType.POP and v.status_type.name != "UNAVAILABLE"], {(l.tx_site.site_id, l.rx_site.site_id) for l in t.links.values() if l.status_type.name != "UNAVAILABLE"})
    for k, v in t.sites.items():
        if v.status_type.name == "PROPOSED" and not (k in first.sites and first.sites[k].status_type.name == "PROPOSED"):  # hops are a limit for candidates only
            require(reach[k] <= params.maximum_number_hops, "a proposed site is too many hops away from every source", site=k, hops=reach[k])
    check_sectors(t, link_free=set(t.links), full_cn=False, slack=0.05) if not any(o for o in c["own"]) else None
    links = {(l.tx_site.site_id, l.rx_site.site_id): l for l in t.links.values()}
    on = {k: l for k, l in links.items() if is_active(l)}
    fan, near, serving = Counter(), Counter(), Counter()
    fed = distances([s for s, v in t.sites.items() if v.site_type == SiteType.POP and is_active(v)], {k for k, l in on.items() if l.capacity > 0})
    past = {k for k, v in t.sites.items() if any(is_active(w) and spot(w) == spot(v) and RANK[w.site_type] > RANK[v.site_type] for w in t.sites.values())}
    for k, l in on.items():
        if not l.is_wireless:
            continue
        if l.status_type == StatusType.EXISTING and (k[0] not in fed or k[1] not in fed or k[0] in past or k[1] in past):
            continue  # nothing is planned where no source is, or at a site that gives way to a better one at its place
        require(l.tx_sector is not None and l.tx_sector.channel == l.rx_sector.channel and 0 <= l.tx_sector.channel < params.number_of_channels, "the ends of a link in use have different channels, or none", link=k, channels=(l.tx_sector.channel, l.rx_sector.channel))
        fan[l.tx_sector.sector_id] += 1
        near[l.tx_sector.sector_id] += far(l.rx_site)
        serving[k[1]] += 1
    fixed = {z.sector_id for l in on.values() if l.is_wireless and l.status_type == StatusType.EXISTING for z in (l.tx_sector, l.rx_sector)}
    for z, m in fan.items():
        if z not in fixed:
            require(m <= params.dn_total_sector_limit and near[z] <= params.dn_dn_sector_limit, "a sector has too many links", sector=z, links=m, relays=near[z])
    for s, m in serving.items():
        if not far(t.sites[s]) and not any(k[1] == s and l.status_type == StatusType.EXISTING for k, l in on.items()):
            require(m <= 1, "a client has several links", site=s, links=m)
    bad = find_angle_violating_link_pairs(t, params.diff_sector_angle_limit, params.near_far_angle_limit, params.near_far_length_ratio, active_components=True)
    for i, j, k in bad.diff_sector_list + bad.near_far_list:
        if on[(i, j)].status_type == on[(i, k)].status_type == StatusType.EXISTING:
            continue
        require(False, "two links of the plan break the rules for angles", links=((i, j), (i, k)))
    busy = {z.sector_id for l in on.values() if l.is_wireless for z in (l.tx_sector, l.rx_sector)}
    nodes = defaultdict(list)
    for z in t.sectors.values():
        nodes[(z.site.site_id, z.node_id)].append(z)
    for zs in nodes.values():
        used = any(z.sector_id in busy for z in zs)
        for z in zs:
            require(z.status_type != StatusType.PROPOSED or used, "a sector is proposed though nothing uses its node", sector=z.sector_id)
            require(not used or is_active(z), "a node in use has a sector that is not active", sector=z.sector_id)
    flow = Counter()
    for k, l in links.items():
        f = l.proposed_flow
        require(-1e-6 <= f <= (l.capacity + 2e-5 if is_active(l) else 1e-6), "a link carries more than it can", link=k, flow=f, capacity=l.capacity)
        flow[k[0]] -= f
        flow[k[1]] += f
    for s, f in flow.items():
        require(t.sites[s].site_type == SiteType.POP or f >= -1e-4, "a site sends more than it gets", site=s, balance=f)
        require(t.sites[s].site_type != SiteType.POP or -f <= params.pop_capacity + 1e-4, "a source sends more than it can", site=s, sends=-f)


def check_output(c, t, out="out"):
    d = os.path.join(out, "output", "")
    got = sorted(os.listdir(d))
    require(got == ["link.csv", "metrics.yaml", "reporting_topology.kml", "sector.csv", "site.csv"], "the files written are others", files=got)
    check_kml(d + "reporting_topology.kml", t)
    with open(d + "metrics.yaml") as f:
        m = yaml.safe_load(f)
    for k, v in counts(t).items():
        require(m["counts"][k] == v, "a count in the file of metrics is not that of the plan", which=k, got=m["counts"][k], want=v)

    def rows(name):
        with open(d + name, newline="", encoding="utf-8") as f:
            return list(csv.DictReader(f))

    on = [l for l in t.links.values() if is_active(l)]
    if on:
        want = Counter((l.tx_site.name, l.rx_site.name, l.status_type.to_string()) for l in t.links.values())
        require(Counter((x["Tx Site Name"], x["Rx Site Name"], x["Status"]) for x in rows("link.csv")) == want, "the table of links is not that of the plan")
    if any(is_active(s) for s in t.sites.values()):
        want = Counter((s.name, s.site_type.to_string(), s.status_type.to_string()) for s in t.sites.values())
        require(Counter((x["Site Name"], x["Site Type"], x["Status"]) for x in rows("site.csv")) == want, "the table of sites is not that of the plan")
    zs = {z.sector_id: str(z.channel) if z.channel >= 0 else "UNASSIGNED" for z in t.sectors.values() if is_active(z)}
    if zs:
        require({x["Sector ID"]: x["Channel"] for x in rows("sector.csv")} == zs, "the table of sectors is not that of the plan")
    total = sum(x.demand * x.num_sites for x in t.demand_sites.values())
    require_close(m["demand_metrics"]["total_demand"], total, "the demand in the file of metrics is not that of the plan", abs_=1e-6)
    return m


def content(path):
    with open(path, "rb") as f:
        return f.read()


def digest(out="out"):
    """The files of a plan; metrics as numbers, in which the last digits depend on the order of sums."""
    d = os.path.join(out, "output", "")
    got = {n: hashlib.sha1(content(d + n)).hexdigest() for n in sorted(os.listdir(d)) if n != "metrics.yaml"}
    got["metrics.yaml"] = rounded(yaml.safe_load(content(d + "metrics.yaml")))
    return got


def rounded(v):
    if isinstance(v, dict):
        return {str(k): rounded(x) for k, x in v.items()}
    if isinstance(v, list):
        return [rounded(x) for x in v]
    return float(f"{v:.8g}") if isinstance(v, float) else v


def described(c, out="out"):
    """What comes of planning the network of a case: the reason of refusal, or the plan and its files."""
    try:
        sites, t, params = execute(c, out)
    except OptimizerException as e:
        return {"refused": str(e)}
    return json.loads(json.dumps({"plan": plan_of(t), "files": digest(out)}))


def elsewhere(c):
    """The same for another process."""
    try:
        return described(c)
    except Exception as e:
        return {"undecided": str(e)} if type(e).__name__ == "Undecided" else {"failed": repr(e)}


def same(one, two, what):
    if "plan" in one and "plan" in two:
        for part, els in one["plan"].items():
            for k, v in els.items():
                require(k in two["plan"][part] and list(two["plan"][part][k]) == list(v), what + " differs", part=part, which=k, first=v, second=two["plan"][part].get(k))
            require(set(els) == set(two["plan"][part]), what + " has other elements", part=part)
        for k, v in one["files"].items():
            require(two["files"].get(k) == v, what + " has other files", file=k)
    require(one == two, what + " has another outcome", first=one.get("refused"), second=two.get("refused"))


MEASURED = "minimum interference network planning problem is infeasible"


@CHECK.sub("plan", worlds, 320, 20000, "the plan has active links and serves some traffic", hang_s=200)
def plan(c, ctx):
    """A network is planned."""
    why = hopeless(c)
    try:
        sites, t, params = execute(c)
    except OptimizerException as e:
        if why is None and MEASURED in str(e):  # whether that step is right to do so is judged by P30
            ctx.label("refused: channels and angles")
            return
        if why is None and "No POP has a positive capacity outgoing link" in str(e):
            sites, t, params = make(c)
            prepare_topology_for_optimization(t, params)
            if not any(l.capacity > 0 for l in t.links.values()):
                ctx.label("refused: no link works")
                return
        require(why is not None, "a network that can be planned was refused", msg=str(e))
        ctx.label("refused: " + why)
        return
    require(why in (None, "just enough or not", "existing links break rules"), "a network that cannot be planned was not refused", why=why)
    check_plan(c, sites, t, params)
    m = check_output(c, t)
    served = m["flow_metrics"] is not None and m["flow_metrics"]["total_bandwidth"] > 0
    ctx.nontrivial(served and any(is_active(l) for l in t.links.values()))
    if any(l.status_type == StatusType.EXISTING for l in t.links.values()):
        ctx.label("existing links")
    if any(is_active(l) and l.proposed_flow > 0 for l in t.links.values()):
        ctx.label("flow")


@CHECK.sub("again", worlds, 120, 6000, "the plan has active links", hang_s=300)
def again(c, ctx):
    """A network is planned again, here and in a process with another hash seed."""
    one = described(c)
    same(one, described(c), "a second run")
    two = other.call("checks.p32", "elsewhere", c)
    if "undecided" in two:
        ctx.label("undecided")
        return
    require("failed" not in two, "a run in another process failed", msg=two.get("failed"))
    same(one, two, "a run in another process")
    ctx.nontrivial("plan" in one and any(v[0] in ACTIVE for v in one["plan"]["links"].values()))
    if "refused" in one:
        ctx.label("refused")


WHERE = {
    "FINANCIAL": ["cn_site_capex", "dn_site_capex", "pop_site_capex", "budget"],
    "DIMENSIONING": ["enable_cn_demand", "enable_uniform_demand", "enable_manual_demand", "demand_spacing", "demand_connection_radius", "demand"],
}


def configuration(c, t):
    """The text of a configuration file for a case."""
    devs = {}
    for s in t.sites.values():
        devs.setdefault(s.device.device_sku, s.device)
    design = {"CANDIDATE_TOPOLOGY_FILE_PATH": "network.kml"}
    radio = {}
    for k, v in settings(c).items():
        v = getattr(v, "name", v)
        sec = next((n for n, ks in WHERE.items() if k in ks), None)
        (radio if k == "maximum_eirp" else design if sec is None else design.setdefault(sec, {}))[k.upper()] = v
    radio["DEVICE_LIST"] = [
        {"DEVICE_SKU": k, "DEVICE_TYPE": d.device_type.name, "NODE_CAPEX": d.node_capex, "NUMBER_OF_NODES_PER_SITE": d.number_of_nodes_per_site,
         "SECTOR_PARAMS": {"HORIZONTAL_SCAN_RANGE": d.sector_params.horizontal_scan_range, "NUMBER_SECTORS_PER_NODE": d.sector_params.number_sectors_per_node}}
        for k, d in devs.items()]
    return yaml.safe_dump({"SYSTEM": {"OUTPUT_DIR": "out", "LOG_TO_STDERR": False}, "RADIO": radio, "NETWORK_DESIGN": design})


@st.composite
def filed(draw):
    return draw(worlds(files=True))


@CHECK.sub("files", filed, 120, 6000, "the plan has active links", hang_s=300)
def files(c, ctx):
    """A network and settings given as files are planned like those given in memory."""
    _, t, params = make(c)
    shutil.rmtree("run", ignore_errors=True)
    old, home = dict(vars(current_system_params)), os.getcwd()
    os.makedirs("run/out")
    os.chdir("run")
    try:
        write_to_kml_file(t, "network.kml")
        with open("conf.yaml", "w") as f:
            f.write(configuration(c, t))
        before = {n: content(n) for n in ("network.kml", "conf.yaml")}
        try:
            t = optimize_and_report_topology_with_config_file("conf.yaml")
            two = json.loads(json.dumps({"plan": plan_of(t), "files": digest()}))
        except OptimizerException as e:
            two = {"refused": str(e)}
        for n, text in before.items():
            require(os.path.exists(n) and content(n) == text, "an input file was changed", file=n)
        left = set(os.listdir(".")) - set(before)
        require(left <= {"out"}, "files were written elsewhere", files=sorted(left))
        t = extract_topology_from_file("network.kml", params.device_list, None)
    finally:
        os.chdir(home)
        vars(current_system_params).clear()
        vars(current_system_params).update(old)
    try:
        planned(t, params, "mem")
        one = json.loads(json.dumps({"plan": plan_of(t), "files": digest("mem")}))
    except OptimizerException as e:
        one = {"refused": str(e)}
    same(one, two, "planning from files")
    ctx.nontrivial("plan" in one and any(v[0] in ACTIVE for v in one["plan"]["links"].values()))
    if "refused" in one:
        ctx.label("refused")
