"""P07: site, link and rate tables are read as written or rejected."""
import csv
import io
import itertools

import hypothesis.strategies as st

from harness.core import Check, Violation, require, require_close
from harness.gen import fl
from terragraph_planner.common.configuration.configs import SectorParams
from terragraph_planner.common.configuration.enums import SiteType, StatusType
from terragraph_planner.common.data_io.csv_library import (
    dms_to_decimal,
    load_input_sites_from_csv_file,
    load_topology_link_csv,
    read_mcs_snr_mbps_map_data,
)
from terragraph_planner.common.exceptions import PlannerException

CHECK = Check("P07")
CHECK.assumptions = [
    "coordinates of one column are either all decimal or all with a compass direction",
    "rate tables are given in ascending order",
]

ALIASES = {
    "lat": ["base_lat", "latitude", "lat"],
    "lon": ["base_lon", "longitude", "lon"],
    "alt": ["altitude", "alt"],
    "height": ["height", "install_height", "site_height", "height_m", "height(m)", "height (m)"],
    "name": ["name", "site_name", "site name", "pole_name"],
    "type": ["type", "site_type", "site type"],
    "sku": ["sku", "device_sku", "device sku"],
    "subs": ["number_of_demand_points", "number of demand points", "num_demand_points",
             "number_of_subscribers", "number of subscribers", "number of demand sites",
             "num_demand_sites", "demand_points", "demand points", "demand_sites", "demand sites"],
}
TEXT = st.one_of(
    st.sampled_from(["a", "POP 1", "site, one", 'quo"te', "001", "1e5", "nan", "NA", "None", "ü-ß", "x;y", "-->x", "True", "12.0"]),
    st.text(st.characters(min_codepoint=33, max_codepoint=0x2FF, exclude_categories=["Cc", "Cs", "Zs", "Zl", "Zp", "Cf"]), min_size=1, max_size=8),
)


@st.composite
def site_tables(draw):
    cols = ["lat", "lon"] + draw(st.lists(st.sampled_from(["alt", "height", "name", "type", "sku", "subs"]), unique=True))
    order = draw(st.permutations(cols))
    heads = []
    for c in order:
        h = draw(st.sampled_from(ALIASES[c]))
        h = draw(st.sampled_from([h, h.upper(), h.title(), " " + h + " "]))
        heads.append(h)
    n = draw(st.integers(1, 6))
    dms = [draw(st.sampled_from(["dec", "dec", "dir", "dms"])) for _ in range(2)]
    rows = []
    for _ in range(n):
        r = {}
        r["lat"] = draw(fl(-80, 80, 160000))
        r["lon"] = draw(fl(-180, 180, 360000))
        r["alt"] = draw(st.one_of(st.none(), st.integers(-100, 3000), fl(-50, 500, 55000)))
        r["height"] = draw(st.one_of(st.none(), st.integers(0, 30), fl(0, 30, 3000)))
        r["name"] = draw(TEXT)
        r["type"] = draw(st.sampled_from(["POP", "DN", "CN", "pop", "dn", "Cn"]))
        r["sku"] = draw(st.one_of(st.just(""), TEXT))
        r["subs"] = draw(st.one_of(st.none(), st.integers(0, 40)))
        rows.append(r)
    extra = draw(st.sampled_from([None, None, "power", "light"]))
    trail = draw(st.sampled_from([0, 0, 0, 1]))
    return dict(order=order, heads=heads, rows=rows, dms=dms, extra=extra, trail=trail, bom=draw(st.booleans()), pad=draw(st.booleans()))


def coord(x, how, pos, neg):
    """(text, value)"""
    d = pos if x >= 0 else neg
    a = abs(x)
    if how == "dec":
        t = repr(round(x, 8))
        return t, float(t)
    if how == "dir":
        t = repr(round(a, 8))
        return f"{t}\u00b0 {d}", float(t) * (1 if x >= 0 else -1)
    deg = int(a)
    m = int((a - deg) * 60)
    s = round((a - deg - m / 60) * 3600, 4)
    s = max(s, 0.0)
    return f"{deg}\u00b0{m}'{s}\"{d}", (deg + m / 60 + s / 3600) * (1 if x >= 0 else -1)


def write(path, heads, rows, bom=False):
    with open(path, "w", encoding="utf-8-sig" if bom else "utf-8", newline="") as f:
        w = csv.writer(f)
        w.writerow(heads)
        w.writerows(rows)


def cells(t):
    """Rows of text and the values they stand for."""
    out, vals = [], []
    heads = list(t["heads"])
    if t["extra"]:
        heads.append(t["extra"])
    for r in t["rows"]:
        line, val = [], {}
        for c in t["order"]:
            if c == "lat":
                s, val["lat"] = coord(r["lat"], t["dms"][0], "N", "S")
            elif c == "lon":
                s, val["lon"] = coord(r["lon"], t["dms"][1], "E", "W")
            elif c in ("alt", "height", "subs"):
                v = r[c]
                s = "" if v is None else repr(v)
                val[c] = v
            else:
                s = r[c]
                val[c] = r[c]
                if t["pad"]:
                    s = " " + s + " "
            line.append(s)
        if t["extra"]:
            line.append("x")
        line += [""] * t["trail"]
        out.append(line)
        vals.append(val)
    return heads, out, vals


@CHECK.sub(
    "sites", site_tables, 2500, 40000,
    "a generated site table is written and read back; non-trivial: an optional column is present with a blank in some row",
)
def sites(t, ctx):
    heads, lines, vals = cells(t)
    write("s.csv", heads, lines, t["bom"])
    ctx.nontrivial(any(r.get(c) in (None, "") and c in t["order"] for r in t["rows"] for c in ("alt", "height", "sku", "subs")))
    got = load_input_sites_from_csv_file("s.csv", True)
    require(len(got) == len(vals), "site-count", f"{len(got)} {len(vals)}")
    for g, v in zip(got, vals):
        require_close(g.latitude, v["lat"], "latitude", abs_=1e-7)
        require_close(g.longitude, v["lon"], "longitude", abs_=1e-7)
        require(g.site_type == SiteType[v.get("type", "POP").upper()], "site-type", f"{g} {v}")
        require((g.name or None) == v.get("name"), "name", f"{g.name!r} {v.get('name')!r}")
        require((g.device_sku or None) == (v.get("sku") or None), "sku", f"{g.device_sku!r}")
        require(g.device_sku is None or g.device_sku != "", "blank-sku", "blank SKU is not 'any SKU'")
        require(g.status_type == StatusType.CANDIDATE, "status")
        for a, c in ((g.altitude, "alt"), (g.height, "height"), (g.number_of_subscribers, "subs")):
            w = v.get(c)
            if w is None:
                require(a is None, f"{c}-not-none", f"{a!r}")
            else:
                require(isinstance(a, (int, float)) or hasattr(a, "dtype"), f"{c}-type", f"{a!r}")
                require_close(float(a), w, c, abs_=1e-9)
    # a candidate network needs a name and a type column
    ok = "name" in t["order"] and "type" in t["order"]
    try:
        load_input_sites_from_csv_file("s.csv", False)
    except PlannerException:
        require(not ok, "rejects-topology-sites")
        return
    require(ok, "accepts-topology-sites-without-name-or-type")


BAD = ["nolat", "badtype", "duplicate", "badalt", "badheight", "badsubs", "baddir", "badcoord", "nofile", "blanklat"]


@CHECK.sub(
    "bad_sites", lambda: st.tuples(site_tables(), st.sampled_from(BAD), st.integers(0, 5)), 1500, 25000,
    "one defect is put into a valid site table, which must be rejected; every case is non-trivial",
)
def bad_sites(c, ctx):
    t, bad, k = c
    need = {"badtype": "type", "badalt": "alt", "badheight": "height", "badsubs": "subs"}.get(bad)
    if need and need not in t["order"]:
        t = dict(t, order=t["order"] + [need], heads=t["heads"] + [ALIASES[need][0]])
    heads, lines, _ = cells(t)
    row = lines[k % len(lines)]
    at = t["order"].index
    ctx.nontrivial()
    ctx.label(bad)
    if bad == "nolat":
        i = at("lat")
        heads = heads[:i] + heads[i + 1:]
        lines = [r[:i] + r[i + 1:] for r in lines]
    elif bad == "badtype":
        row[at("type")] = ["ABC", "D N", "5", ""][k % 4]
    elif bad == "duplicate":
        i = at("lat")
        other = [a for a in ALIASES["lat"] if a != heads[i].strip().casefold()][0]
        heads = heads + [other]
        lines = [r[: len(heads) - 1] + [r[i]] for r in lines]
    elif bad in ("badalt", "badheight", "badsubs"):
        row[at(need)] = ["abc", "1,5", "5m"][k % 3]
    elif bad == "baddir":
        row[at("lat")] = "12.5\u00b0 Q"
    elif bad == "badcoord":
        row[at("lon")] = ["x", "12\u00b0 5' E", "abc\u00b0 E"][k % 3]
    elif bad == "blanklat":
        row[at("lat")] = ""
    write("b.csv", heads, lines)
    try:
        got = load_input_sites_from_csv_file("nosuch.csv" if bad == "nofile" else "b.csv", True)
    except PlannerException:
        return
    raise Violation("accepts-bad-sites", f"{bad}: {got}")


LINKS = {
    "pair": [["site_pair", "sites"]],
    "both": [["site1", "site1_id", "site1_name"], ["site2", "site2_id", "site2_name"]],
    "dir": [["tx_site", "tx_site_name", "tx_site_id", "from_site", "from_site_name", "from_site_id"],
            ["rx_site", "rx_site_name", "rx_site_id", "to_site", "to_site_name", "to_site_id"]],
}
LNAME = TEXT.filter(lambda s: "-->" not in s and not s.startswith("-") and not s.endswith("-"))


@CHECK.sub(
    "links",
    lambda: st.tuples(
        st.sampled_from(["pair", "both", "dir"]), st.integers(0, 5), st.integers(0, 5),
        st.lists(LNAME, min_size=2, max_size=6, unique=True),
        st.lists(st.tuples(st.integers(0, 5), st.integers(0, 5)), min_size=1, max_size=10),
        st.booleans(), st.booleans(), st.sampled_from(["none", "none", "none", "again", "column"]),
    ),
    2500, 40000,
    "a generated link table in one of the three formats is read back; repeated links and missing columns must be rejected; non-trivial: at least two links",
)
def links(c, ctx):
    kind, a1, a2, names, pairs, pad, swap, bad = c
    n = len(names)
    pairs = list(dict.fromkeys((i % n, j % n) for i, j in pairs if i % n != j % n))
    if kind == "both":
        pairs = list(dict.fromkeys(tuple(sorted(p)) for p in pairs))
    if not pairs:
        return
    al = [x[k % len(x)] for x, k in zip(LINKS[kind], (a1, a2))]
    sp = " " if pad else ""
    rows = []
    for i, j in pairs:
        if kind == "pair":
            rows.append([f"{sp}{names[i]}{sp}-->{sp}{names[j]}{sp}"])
        else:
            rows.append([sp + names[i] + sp, sp + names[j] + sp])
    if kind != "pair" and swap:
        al = al[::-1]
        rows = [r[::-1] for r in rows]
    if bad == "again":
        rows.append(rows[0])
    elif bad == "column":
        al[0] = "other"
    write("l.csv", [x.upper() if swap else x for x in al], rows)
    ctx.nontrivial(len(pairs) > 1)
    ctx.label(kind if bad == "none" else bad)
    if bad != "none":
        try:
            load_topology_link_csv("l.csv")
        except PlannerException:
            return
        raise Violation("accepts-bad-links", bad)
    got = load_topology_link_csv("l.csv")
    want = []
    for i, j in pairs:
        want.append((names[i], names[j]))
        if kind == "both":
            want.append((names[j], names[i]))
    require(got == want, "links", f"{got} {want}")


@st.composite
def mcs_tables(draw):
    n = draw(st.integers(1, 8))
    m, s, b, o = draw(st.integers(1, 5)), draw(fl(-5, 5, 100)), draw(st.integers(0, 100)), draw(st.sampled_from([0, 1]))
    rows = []
    for _ in range(n):
        rows.append([m, round(s, 3), b, o])
        m += draw(st.integers(1, 2))
        s += draw(fl(0.1, 4, 39))
        b += draw(st.integers(1, 400))
        o += draw(st.sampled_from([0, 0, 1, 2, 2.5]))
    return rows


MBAD = ["none"] * 6 + ["text", "short", "long", "nocol", "dup", "order", "header", "empty", "nofile"]


@CHECK.sub(
    "mcs",
    lambda: st.tuples(
        mcs_tables(), st.permutations([0, 1, 2, 3]), st.booleans(), st.sampled_from(["{}", "{} (x)", " {} ", "radio_{}"]),
        st.sampled_from(MBAD), st.one_of(st.none(), st.integers(0, 20)), st.one_of(st.none(), fl(0, 16, 160)), st.integers(0, 7),
    ),
    4000, 80000,
    "a generated rate table is read back with the limits on class and power applied, or is damaged and must be rejected; non-trivial: some rows are kept and some dropped, or damaged",
)
def mcs(c, ctx):
    rows, perm, has_back, head, bad, min_mcs, min_p, k = c
    names = ["mcs", "snr", "mbps", "tx_backoff"]
    cols = [i for i in perm if has_back or i != 3]
    heads = [head.format(names[i]) if names[i] != "tx_backoff" or head == " {} " else "tx_backoff" for i in cols]
    if not has_back:
        rows = [r[:3] + [0] for r in rows]
    lines = [[str(r[i]) for i in cols] for r in rows]
    heads = [h.upper() if k % 2 else h for h in heads]
    row = lines[k % len(lines)]
    if bad == "text":
        row[0] = "abc"
    elif bad == "short":
        row.pop()
    elif bad == "long":
        row.append("1")
    elif bad == "nocol":
        i = cols.index(k % 3)
        heads.pop(i)
        for r in lines:
            r.pop(i)
    elif bad == "dup":
        heads[0] = heads[1]
    elif bad == "order":
        if len(rows) < 2:
            return
        i = cols.index(k % 3)
        lines[0][i], lines[-1][i] = lines[-1][i], lines[0][i]
    elif bad == "header":
        lines = []
    elif bad == "empty":
        heads, lines = None, []
    with open("m.csv", "w", newline="") as f:
        w = csv.writer(f)
        if heads is not None:
            w.writerow(heads)
        w.writerows(lines)
    par = dict(maximum_tx_power=16.0, minimum_mcs_level=min_mcs, minimum_tx_power=min_p)
    kept = [
        r for r in rows
        if (min_mcs is None or r[0] >= min_mcs) and (min_p is None or 16.0 - r[3] >= min_p)
    ]
    if bad == "none" and not kept:
        bad = "unreachable"
    ctx.nontrivial(bad != "none" or 0 < len(kept) < len(rows))
    ctx.label(bad)
    path = "nosuch.csv" if bad == "nofile" else "m.csv"
    if bad != "none":
        try:
            got = read_mcs_snr_mbps_map_data(path, SectorParams(**par))
        except PlannerException:
            return
        raise Violation("accepts-bad-rates", f"{bad}: {got}")
    for got in (read_mcs_snr_mbps_map_data(path, SectorParams(**par)), SectorParams(mcs_map_file_path=path, **par).mcs_map):
        require([list(x) for x in got] == [[r[0], r[1], r[2], r[3]] for r in kept], "rates", f"{got} {kept}")
        require(all(isinstance(x.mcs, int) for x in got), "rates-type")


@CHECK.sub(
    "dms",
    lambda: st.tuples(fl(-180, 180, 6480001), st.sampled_from(["dir", "dms"]), st.sampled_from(["NS", "EW"]), st.sampled_from(["", " "])),
    8000, 150000,
    "an angle written with a compass direction converts to its value; non-trivial: minutes are present",
)
def dms(c, ctx):
    x, how, axis, pad = c
    text, val = coord(x, how, axis[0], axis[1])
    ctx.nontrivial(how == "dms")
    require_close(dms_to_decimal(pad + text + pad), val, "dms", text, abs_=1e-9)
    require_close(val, x, "dms-text", abs_=1e-6)
