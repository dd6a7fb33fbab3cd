"""P30: the choice of links, sectors, channels and polarities against interference."""
import math
from collections import defaultdict

import hypothesis.strategies as st

from checks.p18 import bearing, turn, wireless
from checks.p20 import distances
from checks.p24 import ACTIVE, is_active
from checks.p26 import copies, refused
from checks.p27 import RANK, Program, candidates, check_rules, check_statuses, far, load, off, open_link, spot
from harness import topo
from harness.core import Check, Discard, require, require_close
from harness.gen import fl
from terragraph_planner.common.configuration.enums import SiteType, StatusType
from terragraph_planner.common.exceptions import OptimizerException
from terragraph_planner.common.structs import MCSMap
from terragraph_planner.optimization.deployment_rules import find_angle_violating_link_pairs
from terragraph_planner.optimization.ilp_models.interference_optimization import MinInterferenceNetwork
from terragraph_planner.optimization.topology_interference import compute_link_interference
from terragraph_planner.optimization.topology_optimization import _run_interference_step, update_topology_with_solution

CHECK = Check("P30")
CHECK.assumptions = [
    "the shortage of demand counts as many times as the whole demand, against one to two per chosen link (the shorter the more), as in the planner's own goal",
    "the amount on a link is bounded by its rate under interference and, apart from that, by its share of time, as documented",
    "at most one site per place is active before planning, besides an existing client that was upgraded",
    "wired links do not lead to clients, which the planner refuses",
    "solver tolerance for early stopping is switched off",
]
TABLES = [
    [(0, 3.0, 0.0), (4, 6.0, 115.0), (9, 12.0, 741.25), (12, 18.0, 1800.0)],
    [(3, 2.0, 300.0), (9, 9.0, 1000.0)],
    [(4, 3.0, 0.0), (6, 5.0, 1000.0), (8, 15.0, 1500.0)],
]


@st.composite
def settled(draw, high=6):
    """Networks the sites of which have been chosen."""
    c = draw(candidates(high))
    mess = draw(st.sampled_from([["PROPOSED"], ["PROPOSED"], ["PROPOSED", "PROPOSED", "EXISTING"], ["PROPOSED", "PROPOSED", "PROPOSED", "EXISTING", "CANDIDATE", "UNAVAILABLE", "UNREACHABLE"]]))
    on = defaultdict(list)
    for s in c["sites"]:
        k = (s["x"], s["y"], s["alt"])
        s["st"] = draw(st.sampled_from(mess))
        if s["st"] in ("PROPOSED", "EXISTING"):
            if on[k] and not (len(on[k]) == 1 and on[k][0]["t"] == "CN" and on[k][0]["st"] == "EXISTING" and s["t"] != "CN" and s["st"] == "PROPOSED"):
                s["st"] = "CANDIDATE"
            else:
                on[k].append(s)
    links = draw(st.sampled_from([["CANDIDATE", "PROPOSED"], ["CANDIDATE", "PROPOSED"], ["CANDIDATE", "PROPOSED", "PROPOSED", "EXISTING", "UNAVAILABLE"]]))
    c["links"] = [(a, b, draw(st.sampled_from(links)), w) for a, b, _, w in c["links"]]
    loud = {i for a, b, _, w in c["links"] if w for i in (a, b)}
    c["nodes"] = [(1, 1) if i in loud and k[0] == 0 else k for i, k in enumerate(c["nodes"])]
    amount = st.sampled_from(draw(st.sampled_from([[0.025], [0.5, 1.0], [1.0, 3.0], [0.1, 2.0]])))
    c["demand"] = [(who, num, draw(amount)) for who, num, _ in c["demand"]]
    c["tables"] = [draw(st.integers(0, 2)) for _ in range(4)]
    above = draw(st.sampled_from([[20.0], [7.0, 13.0, 20.0], [1.0, 7.0, 13.0, 20.0, 30.0]]))
    noise = draw(st.sampled_from([[-math.inf], [-20.0, 0.0, 6.0], [0.0, 10.0, 30.0], [5.0]]))
    c["above"] = [draw(st.sampled_from(above)) for _ in range(24)]
    c["noise"] = [draw(st.sampled_from(noise)) for _ in range(24)]
    c["rules"] = dict(dn_dn_sector_limit=draw(st.sampled_from([1, 2, 2])), number_of_channels=draw(st.sampled_from([1, 1, 2, 3])), diff_sector_angle_limit=draw(st.sampled_from([0.0, 25.0, 60.0])), near_far_angle_limit=draw(st.sampled_from([45.0, 90.0])), near_far_length_ratio=draw(st.sampled_from([1.5, 3.0])))
    c["rules"]["dn_total_sector_limit"] = c["rules"]["dn_dn_sector_limit"] + draw(st.sampled_from([0, 1, 13]))
    c["real"] = draw(st.booleans())
    return c


def prepare(c):
    sites, t, params = load(c, **c["rules"])
    for i, d in enumerate(params.device_list):
        d.sector_params.mcs_map = [MCSMap(mcs=m, snr=s, mbps=b) for m, s, b in TABLES[c["tables"][i]]]
    floor = floor_of(params.device_list[0])
    heard = {}
    for i, l in enumerate(t.links.values()):
        k = (l.tx_site.site_id, l.rx_site.site_id)
        if l.is_wireless and l.tx_sector is not None:
            snr = c["above"][i % 24]
            l.rsl_dbm = floor + snr
            l.snr_dbm = snr
            l.capacity = max([row.mbps for row in l.rx_site.device.sector_params.mcs_map if row.snr <= snr], default=0.0) / 1000
            heard[k] = floor + c["noise"][i % 24]
    return sites, t, params, heard


def floor_of(dev):
    return dev.sector_params.thermal_noise_power + dev.sector_params.noise_figure


def chosen(t):
    """The sites that are part of the plan: of an upgraded place, the upgrade."""
    on = defaultdict(list)
    for s, v in t.sites.items():
        if is_active(v):
            on[spot(v)].append(v)
    return {v.site_id for vs in on.values() for v in vs if RANK[v.site_type] == max(RANK[w.site_type] for w in vs)}


def usual(t):
    """Wireless links that could be chosen, by the ids of their ends."""
    return {(l.tx_site.site_id, l.rx_site.site_id): l for l in wireless(t) if l.tx_sector is not None and l.rx_sector is not None and l.capacity > 0}


def weight(t):
    top = max((l.distance for l in t.links.values()), default=0)
    return {k: 1.0 if top == 0 else 2.0 - l.distance / top for k, l in usual(t).items()}


def interferers(t, sites, links, key):
    """Links that disturb a link, with the path on which they do."""
    a, b = key
    l = links[key]
    out = []
    for (k, j), path in links.items():
        if j != b or k == a or k not in sites:
            continue
        if l.rx_site.site_type != SiteType.CN:
            if path.rx_sector is not l.rx_sector:
                continue
        else:
            width = l.rx_site.device.sector_params.horizontal_scan_range
            if width < 360 and turn_between(bearing(l.rx_site, path.tx_site), bearing(l.rx_site, l.tx_site)) >= width / 2 + 0.01:
                continue
        out += [(e, (k, j)) for e, m in links.items() if e[0] == k and m.tx_sector is path.tx_sector and e[1] != b and e[1] in sites]
    return out


def turn_between(x, y):
    d = abs(x - y) % 360
    return min(d, 360 - d)


def fed(t, sites):
    """The sites which something can be sent to."""
    arcs = {(l.tx_site.site_id, l.rx_site.site_id) for l in t.links.values() if open_link(l) and l.tx_site.site_id in sites and l.rx_site.site_id in sites}
    return set(distances([s for s in sites if t.sites[s].site_type == SiteType.POP], arcs))


def connectable(t, sites):
    reach = fed(t, sites)
    return {k for k, d, v in copies(t) if any(s.site_id in reach for s in v.connected_sites)}


def rules(p, t, params, pairs, sites):
    """What may be chosen at once: variables of links, of the channels of sectors and of polarities."""
    links = usual(t)
    chans = range(params.number_of_channels)
    live = fed(t, sites)  # links elsewhere are useless
    x = {k: p.var(0, 1 if not off(l) and (k[0] in live and k[1] in live or l.status_type == StatusType.EXISTING and k[0] in sites and k[1] in sites) else 0, True) for k, l in links.items()}
    chan = {z: [p.var(0, 1 if v.site.site_id in sites else 0, True) for _ in chans] for z, v in t.sectors.items() if far(v.site)}
    odd = {s: p.var(0, 1, True) for s in t.sites if far(t.sites[s])}
    for v in chan.values():
        p.row([(i, 1) for i in v], high=1)
    for k, l in links.items():
        a, b = k
        if l.status_type == StatusType.EXISTING and a in sites and b in sites:
            p.row([(x[k], 1)], low=1)
        if k[::-1] in x:
            p.row([(x[k], 1), (x[k[::-1]], -1)], 0, 0)
        one, two = chan[l.tx_sector.sector_id], chan.get(l.rx_sector.sector_id)
        p.row([(x[k], 1)] + [(i, -1) for i in one], high=0)
        if two is not None:
            p.row([(x[k], 1)] + [(i, -1) for i in two], high=0)
            for i, j in zip(one, two):
                p.row([(x[k], 1), (i, 1), (j, -1)], high=1)
                p.row([(x[k], 1), (i, -1), (j, 1)], high=1)
            if not params.ignore_polarities:
                p.row([(x[k], 1), (odd[a], 1), (odd[b], 1)], high=2)
                p.row([(x[k], 1), (odd[a], -1), (odd[b], -1)], high=0)
    if not params.ignore_polarities:
        for l in wireless(t):
            if l.status_type == StatusType.EXISTING and far(l.rx_site):
                p.row([(odd[l.tx_site.site_id], 1), (odd[l.rx_site.site_id], 1)], 1, 1)
    for l in t.links.values():  # sectors of existing links are in use
        if l.status_type == StatusType.EXISTING and l.is_wireless and l.tx_site.site_id in sites and l.rx_site.site_id in sites:
            for z in (l.tx_sector, l.rx_sector):
                if z is not None and z.sector_id in chan:
                    p.row([(i, 1) for i in chan[z.sector_id]], 1, 1)
    out, into = defaultdict(list), defaultdict(list)
    for k, l in links.items():
        out[l.tx_sector.sector_id].append(k)
        into[l.rx_site.site_id].append(k)
    for ks in out.values():
        relays = [(x[k], 1) for k in ks if far(t.sites[k[1]])]
        p.row(relays, high=params.dn_dn_sector_limit) if relays else None
        p.row([(x[k], 1) for k in ks], high=params.dn_total_sector_limit)
    for s, ks in into.items():
        if not far(t.sites[s]):
            p.row([(x[k], 1) for k in ks], high=1)
    for i, j, k in pairs:
        e, f = (i, j), (i, k)
        if e in x and f in x and not all(links[g].status_type == StatusType.EXISTING for g in (e, f)):
            for u, v in zip(chan[links[e].tx_sector.sector_id], chan[links[f].tx_sector.sector_id]):
                p.row([(x[e], 1), (x[f], 1), (u, 1), (v, 1)] if u != v else [(x[e], 1), (x[f], 1)], high=3 if u != v else 1)
    return x, chan, odd


def together(t, params, pairs):
    """How much of the demand the rules let be reached at once; None if they cannot be kept."""
    p = Program()
    sites = chosen(t)
    x, _, _ = rules(p, t, params, pairs, sites)
    bal = defaultdict(list)
    for l in t.links.values():
        k = (l.tx_site.site_id, l.rx_site.site_id)
        if open_link(l) and k[0] in sites and k[1] in sites:
            f = p.var(0, 100)
            bal[k[0]].append((f, -1))
            bal[k[1]].append((f, 1))
            if l.is_wireless:
                p.row([(f, 1), (x[k], -100)], high=0)
    goal = []
    for k, d, v in copies(t):
        row = []
        for s in v.connected_sites:
            if s.site_id in sites:
                h = p.var(0, 1)
                bal[s.site_id].append((h, -1))
                row.append((h, -1))
        if row:
            z = p.var(0, 1, True)
            p.row(row + [(z, 1)], high=0)
            goal.append((z, -1))
    for s in sites:
        if t.sites[s].site_type == SiteType.POP:
            bal[s].append((p.var(0, 100), 1))
        p.row(bal[s], 0, 0) if bal[s] else None
    got = p.least(goal)
    return None if got is None else round(-got[0])


def model(t, params, pairs, heard, common):
    """The best choice; (value, choice of links, shortages) or None."""
    p = Program()
    sites = chosen(t)
    links = usual(t)
    chans = range(params.number_of_channels)
    x, chan, odd = rules(p, t, params, pairs, sites)
    total = sum(v.demand / params.oversubscription for _, _, v in copies(t))
    top = max((l.capacity for l in t.links.values()), default=0.0) or params.pop_capacity
    share = {k: p.var(0, 1) for k in x}
    flow = {}
    bal = defaultdict(list)
    for l in t.links.values():
        k = (l.tx_site.site_id, l.rx_site.site_id)
        if not open_link(l) or k[0] not in sites or k[1] not in sites:
            continue
        flow[k] = f = p.var(0, l.capacity if l.is_wireless else min(l.capacity, total))
        bal[k[0]].append((f, -1))
        bal[k[1]].append((f, 1))
        if l.is_wireless:
            p.row([(f, 1), (share[k], -l.capacity)], high=0)
    lack = {}
    for k, d, v in copies(t):
        need = v.demand / params.oversubscription
        lack[k] = p.var(0, need)
        row = [(lack[k], 1)]
        for s in v.connected_sites:
            if s.site_id in sites:
                h = p.var(0, min(top, total))
                bal[s.site_id].append((h, -1))
                row.append((h, 1))
        p.row(row, need, need)
    for s in sites:
        if t.sites[s].site_type == SiteType.POP:
            outgoing = [(i, -n) for i, n in bal[s] if n < 0]
            p.row(outgoing, high=params.pop_capacity) if outgoing else None
            bal[s].append((p.var(0, min(params.pop_capacity, total)), 1))
        p.row(bal[s], 0, 0) if bal[s] else None
    for k in x:
        p.row([(share[k], 1), (x[k], -1)], high=0)
    for side in ("tx_sector", "rx_sector"):
        group = defaultdict(list)
        for k, l in links.items():
            group[getattr(l, side).sector_id].append((share[k], 1))
        for terms in group.values():
            p.row(terms, high=1)
    for k, l in links.items():
        if k not in flow:
            continue
        rows = [(r.snr, r.mbps / 1000) for r in l.rx_site.device.sector_params.mcs_map if r.mbps > 0]
        kind = [p.var(0, 1, True) for _ in rows]
        p.row([(i, 1) for i in kind], high=1)
        p.row([(flow[k], 1)] + [(i, -b) for i, (_, b) in zip(kind, rows)], high=0)
        sound = 10 ** (l.rsl_dbm / 10)
        base = 10 ** (floor_of(l.rx_site.device) / 10) / sound
        terms, most = [], base
        for e, path in interferers(t, sites, links, k):
            power = 10 ** (heard.get(path, -math.inf) / 10) / sound
            if power == 0:
                continue
            most += power
            z = p.var(0, 1)
            terms.append((z, power))
            for u, v in zip(chan[links[e].tx_sector.sector_id], chan[l.tx_sector.sector_id]):
                same = [(u, 1), (v, 1)] if u != v else [(u, 2)]
                low = [(z, 1), (share[e], -1)] + [(i, -n) for i, n in same]
                if params.ignore_polarities or e[0] == k[0]:
                    p.row(low, low=-2)
                else:
                    p.row(low + [(odd[e[0]], -1), (odd[k[0]], -1)], low=-4)
                    p.row(low + [(odd[e[0]], 1), (odd[k[0]], 1)], low=-2)
        # the ratio is that of the rate's row, if it has any
        p.row([(i, n) for i, n in terms] + [(i, most - 10 ** (-s / 10)) for i, (s, _) in zip(kind, rows)], high=most - base)
    w = weight(t)
    goal = [(x[k], -w[k]) for k in x]
    who = connectable(t, sites)
    if common:
        if who:
            low = p.var(0, min(v.demand / params.oversubscription for k, _, v in copies(t) if k in who))
            for k, d, v in copies(t):
                if k in who:
                    p.row([(low, 1), (lack[k], 1)], high=v.demand / params.oversubscription)
            goal.append((low, -total * len(lack)))
    else:
        low = None
        goal += [(i, total) for i in lack.values()]
    got = p.least(goal)
    if got is None:
        return None
    value, sol = got
    return value, {k for k in x if sol[x[k]] > 0.5}, {k: sol[i] for k, i in lack.items()}, sum(sol[i] for i in flow.values()) + sum(v.demand / params.oversubscription - sol[lack[k]] for k, _, v in copies(t)), (sol[low] if common and who else None)


def worth(t, params, links, lacks, common):
    """The planner's goal for a choice of links and shortages."""
    w = weight(t)
    total = sum(v.demand / params.oversubscription for _, _, v in copies(t))
    value = -sum(w[k] for k in w if k in links)
    if not common:
        return value + total * sum(lacks.values())
    who = connectable(t, chosen(t))
    if who:
        value -= total * len(lacks) * min(v.demand / params.oversubscription - lacks[k] for k, _, v in copies(t) if k in who)
    return value


def check_flows(c, t, params, got, heard):
    """What the planner means to send over the links is possible under their interference."""
    sites, links = chosen(t), usual(t)
    flows, shares = got.flow_decisions, got.tdm_decisions
    bal = defaultdict(float)
    for (a, b), f in flows.items():
        require(f >= -1e-5, "an amount on a link is negative", link=(a, b), amount=f)
        bal[a] -= f
        bal[b] += f
        l = t.get_link_by_site_ids(a, b) if a in t.sites and b in t.sites else None
        if l is None or f < 1e-5:
            continue
        require(open_link(l) and f <= l.capacity * (shares.get((a, b), 0.0) if l.is_wireless else 1.0) + 1e-4, "more is sent over a link than its share of time allows", link=(a, b), amount=f, share=shares.get((a, b)), capacity=l.capacity)
        require(got.link_decisions.get((a, b), 0) == 1, "something is sent over a link that was not chosen", link=(a, b), amount=f)
    for s in t.sites:
        require(abs(bal[s]) < 1e-3, "what arrives at a site does not leave it", site=s, rest=bal[s])
    for side in (0, 1):
        group = defaultdict(float)
        for k, l in links.items():
            group[(l.tx_sector, l.rx_sector)[side].sector_id] += shares.get(k, 0.0)
        for z, n in group.items():
            require(n <= 1 + 1e-4, "a sector is busy for more than all of the time", sector=z, share=n, side=side)

    def pol(s):
        return got.odd_site_decisions.get(s)

    def channel(k):
        return got.channel_decisions.get((k[0], links[k].tx_sector.sector_id))

    for k, l in links.items():
        f = flows.get(k, 0.0)
        if f < 1e-4 or got.link_decisions.get(k) != 1:
            continue
        n = 10 ** (floor_of(l.rx_site.device) / 10)
        for e, path in interferers(t, sites, links, k):
            if got.link_decisions.get(e) == 1 and channel(e) == channel(k) and (params.ignore_polarities or pol(e[0]) == pol(k[0])):
                n += 10 ** (heard.get(path, -math.inf) / 10) * max(0.0, shares.get(e, 0.0) - 1e-4)
        sinr = l.rsl_dbm - 10 * math.log10(n)
        rate = max([r.mbps for r in l.rx_site.device.sector_params.mcs_map if r.snr <= sinr + 0.01], default=0.0) / 1000
        require(f <= rate + 1e-4, "more is sent over a link than its interference allows", link=k, amount=f, rate=rate, sinr=sinr)


def check_choice(c, t, params, before, sites, got, pairs):
    """The network with the choice follows the rules."""
    check_statuses(before, t)
    check_rules(t, params, c["polar"])
    links = {(l.tx_site.site_id, l.rx_site.site_id): l for l in t.links.values()}
    on = {k for k, l in links.items() if is_active(l) and k[0] in sites and k[1] in sites}
    nodes = defaultdict(list)
    for v in t.sectors.values():
        if v.status_type != StatusType.EXISTING and v.site.status_type != StatusType.EXISTING:
            nodes[(v.site.site_id, v.node_id)].append(v)
    busy = {z.sector_id for l in t.links.values() if is_active(l) and l.is_wireless for z in (l.tx_sector, l.rx_sector) if z is not None}
    for (s, _), vs in nodes.items():
        used = any(v.sector_id in busy for v in vs)
        for v in vs:
            require(is_active(v) == used, "a sector is active though nothing uses its node, or the other way round", sector=v.sector_id, used=used)
            require(not used or 0 <= v.channel < params.number_of_channels, "a sector in use has no channel", sector=v.sector_id, channel=v.channel)
            require(used or v.channel == -1 or got.sector_decisions.get((s, v.sector_id)) == 1, "a sector that is not used has a channel", sector=v.sector_id, channel=v.channel)
    fan, near, serving = defaultdict(int), defaultdict(int), defaultdict(int)
    for k in on:
        l = links[k]
        if not l.is_wireless:
            continue
        if l.capacity > 0:
            require(l.tx_sector.channel == l.rx_sector.channel, "the ends of a link are on different channels", link=k, channels=(l.tx_sector.channel, l.rx_sector.channel))
            fan[l.tx_sector.sector_id] += 1
            near[l.tx_sector.sector_id] += far(l.rx_site)
            serving[k[1]] += 1
    for z, n in fan.items():
        require(n <= params.dn_total_sector_limit, "a sector has too many links", sector=z, links=n)
        require(near[z] <= params.dn_dn_sector_limit, "a sector has too many links to relays", sector=z, links=near[z])
    for s, n in serving.items():
        require(far(t.sites[s]) or n <= 1, "a client has several links", site=s, links=n)
    for i, j, k in pairs:
        e, f = links.get((i, j)), links.get((i, k))
        if (i, j) in on and (i, k) in on and min(e.capacity, f.capacity) > 0 and not (e.status_type == f.status_type == StatusType.EXISTING):
            require(e.tx_sector.channel != f.tx_sector.channel, "two links break the rules for angles", links=((i, j), (i, k)))
    reach = distances([s for s, v in t.sites.items() if v.site_type == SiteType.POP and is_active(v)], {k for k, l in links.items() if is_active(l)})
    served = {s.site_id for _, _, v in copies(t) for s in v.connected_sites}
    for s in sites:
        linked = any(s in k and got.link_decisions.get(k) == 1 for k in links)
        if s in reach or t.sites[s].site_type == SiteType.POP:
            require(is_active(t.sites[s]) or not linked and s not in served, "a site with links or demand was dropped", site=s)
    for k, l in links.items():
        if not l.is_wireless and k[0] in sites and k[1] in sites and not off(l) and k[0] in reach and k[1] in reach:
            require(is_active(l), "a cable between two sites of the plan is not part of it", link=k)
    for k, n in got.link_decisions.items():
        l = links.get(k)
        if l is not None and l.is_wireless and k in reach:
            require(not n or is_active(l), "a chosen link is not part of the plan", link=k)


def compare(c, ctx, t, params, pairs, heard, got):
    if params.maximize_common_bandwidth and together(t, params, pairs) not in (None, len(connectable(t, chosen(t)))):
        ctx.label("not everyone can be reached at once")
        return None
    want = model(t, params, pairs, heard, params.maximize_common_bandwidth)
    if want is not None and params.maximize_common_bandwidth and want[4] is not None and want[4] < 1e-4:
        common = False
        if want[4] > 1e-9:
            ctx.label("common amount close to zero")
            return None
        want = model(t, params, pairs, heard, False)
    else:
        common = params.maximize_common_bandwidth
    if want is None:
        require(got is None, "a choice that breaks the rules was made")
        ctx.label("impossible")
        return None
    if got is None:
        require(want[3] < 1e-3, "no choice was made though there is one", flow=want[3])
        ctx.label("nothing to carry")
        return None
    value = worth(t, params, {k for k, n in got.link_decisions.items() if n == 1}, got.shortage_decisions, common)
    if common != params.maximize_common_bandwidth:
        ctx.label("nothing in common")
    require_close(value, want[0], "the choice is not the best", abs_=2e-3, rel=1e-5)
    return want


@CHECK.sub("model", settled, 3000, 30000, "several links that can be chosen, not all of them are", hang_s=60)
def direct(c, ctx):
    """The model with any received powers."""
    sites, t, params, heard = prepare(c)
    if refused(t, params) or not chosen(t):
        raise Discard()
    pairs = find_angle_violating_link_pairs(t, params.diff_sector_angle_limit, params.near_far_angle_limit, params.near_far_length_ratio, active_components=False)
    pairs = pairs.diff_sector_list + pairs.near_far_list
    before = topo.snapshot(t)
    got = MinInterferenceNetwork(t, params, pairs, heard).solve()
    require(topo.snapshot(t) == before, "the search changed the network")
    want = compare(c, ctx, t, params, pairs, heard, got)
    if got is None:
        return
    on = chosen(t)
    check_flows(c, t, params, got, heard)
    ctx.nontrivial(want is not None and len(want[1]) > 1 and len(want[1]) < sum(1 for k in usual(t) if k[0] in on and k[1] in on))
    update_topology_with_solution(got, t)
    check_choice(c, t, params, before, on, got, pairs)
    ctx.label("channels" if params.number_of_channels > 1 else "one channel")


@CHECK.sub("step", settled, 2500, 25000, "several links that can be chosen, not all of them are", hang_s=60)
def step(c, ctx):
    """The step of the planner, with received powers of its own."""
    sites, t, params, _ = prepare(c)
    if refused(t, params) or not chosen(t):
        raise Discard()
    pairs = find_angle_violating_link_pairs(t, params.diff_sector_angle_limit, params.near_far_angle_limit, params.near_far_length_ratio, active_components=False)
    pairs = pairs.diff_sector_list + pairs.near_far_list
    heard = compute_link_interference(t, params.maximum_eirp)
    before = topo.snapshot(t)
    t2 = prepare(c)[1]
    on = chosen(t)
    try:
        got = _run_interference_step(t, params)
    except OptimizerException:
        got = None
    want = compare(c, ctx, t2, params, pairs, heard, got)
    if got is None:
        require(topo.snapshot(t) == before, "the network was changed though no choice was made")
        return
    check_flows(c, t2, params, got, heard)
    check_choice(c, t, params, before, on, got, pairs)
    ctx.nontrivial(want is not None and len(want[1]) > 1 and len(want[1]) < sum(1 for k in usual(t) if k[0] in on and k[1] in on))
