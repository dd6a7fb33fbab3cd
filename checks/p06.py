"""P06: antenna and scan pattern tables, their files and their combination."""
import math

import hypothesis.strategies as st

from harness.core import Check, Violation, require, require_close
from harness.gen import fl
from terragraph_planner.common.configuration.configs import SectorParams
from terragraph_planner.common.data_io.csv_library import (
    read_antenna_pattern_data,
    read_scan_pattern_data,
)
from terragraph_planner.common.exceptions import DataException, PlannerException
from terragraph_planner.common.rf.link_budget_calculator import (
    extract_gain_from_radio_pattern,
    get_fspl_based_net_gain,
)

CHECK = Check("P06")
CHECK.assumptions = [
    "a pattern table has one entry per whole degree; an angle uses the nearest whole degree (either one half way between)",
]

angles = st.one_of(
    fl(-180, 180, 36001), st.integers(-179, 180).map(float),
    st.sampled_from([-0.4, 0.4, -0.5, 0.5, -179.6, 179.5, 180.0, -179.5, -1e-12]),
)


def curve(spec):
    """360 losses from a small description (kept small for shrinking)."""
    base, amp, step, sym = spec
    out = []
    for i in range(360):
        k = min(i, 360 - i) if sym else i
        out.append(round(base + amp * k + (3.5 if (k // step) % 2 else 0.0), 4))
    return out


curves = st.tuples(
    st.sampled_from([0.0, 0.0, 1.25]), st.sampled_from([0.01, 0.5, 2.0]),
    st.integers(1, 400), st.booleans(),
).map(list)


def near(a):
    """The whole degrees nearest to an angle, as indexes 0..359."""
    lo = math.floor(a)
    c = [lo] if a - lo < 0.5 else [lo + 1] if a - lo > 0.5 else [lo, lo + 1]
    return [x % 360 for x in c]


@CHECK.sub(
    "antenna",
    lambda: st.tuples(curves, curves, curves, angles, angles, fl(0, 40, 400), st.sampled_from([0.0, 3.0])),
    20000, 400000,
    "gain from an antenna table for a random pair of angles against a direct reading; non-trivial: neither angle is a whole degree",
)
def antenna(c, ctx):
    h, v, other, az, el, gain, div = c
    H, V = curve(h), curve(v)
    data = {"main": [[-x for x in H], [-x for x in V]], "second": [[-x for x in curve(other)]] * 2}
    got = extract_gain_from_radio_pattern(gain, div, data, az, el)
    want = [gain + div - H[i] - V[j] for i in near(az) for j in near(el)]
    ctx.nontrivial(az != int(az) and el != int(el))
    require(
        any(abs(got - w) < 1e-6 for w in want), "antenna-gain", f"az {az} el {el}: {got} not in {want}"
    )
    require(got <= gain + div + 1e-9, "gain-above-boresight")
    if h[3] and v[3] and az not in (180.0,) and el not in (180.0,):
        back = extract_gain_from_radio_pattern(gain, div, data, -az, -el)
        if len(near(az)) == 1 and len(near(el)) == 1:
            require_close(back, got, "antenna-symmetry")


@st.composite
def scan_tables(draw):
    n = draw(st.integers(1, 6))
    m = draw(st.integers(1, 6))
    half = draw(st.booleans())
    def keys(k):
        ks = draw(st.lists(st.integers(-160, 160), min_size=k, max_size=k, unique=True))
        if draw(st.booleans()):
            ks.sort()
        return [x / 2 if half else float(x) for x in ks]
    hs, vs = keys(n), keys(m)
    vals = [[draw(st.one_of(st.sampled_from([0.0, 28.0]), fl(-5, 30, 3500))) for _ in vs] for _ in hs]
    return [hs, vs, vals]


def nearest(keys, x):
    d = min(abs(k - x) for k in keys)
    return [k for k in keys if abs(k - x) <= d + 1e-9]


@CHECK.sub(
    "scan",
    lambda: st.tuples(scan_tables(), angles, st.one_of(fl(-90, 90, 1801), st.integers(-80, 80).map(float)), fl(0, 40, 400), st.sampled_from([0.0, 3.0])),
    10000, 200000,
    "gain from a scan table for a random pair of angles against the entry at the nearest angles; non-trivial: the table has several entries and the angles are not in it",
)
def scan(c, ctx):
    (hs, vs, vals), az, el, gain, div = c
    data = {h: {v: vals[i][j] for j, v in enumerate(vs)} for i, h in enumerate(hs)}
    top = max(max(r) for r in vals)
    got = extract_gain_from_radio_pattern(gain, div, data, az, el)
    want = [gain + div + data[h][v] - top for h in nearest(hs, az) for v in nearest(vs, el)]
    ctx.nontrivial(len(hs) * len(vs) > 2 and az not in hs and el not in vs)
    require(any(abs(got - w) < 1e-6 for w in want), "scan-gain", f"{got} {want}")
    require(got <= gain + div + 1e-9, "gain-above-boresight")


@CHECK.sub(
    "link",
    lambda: st.tuples(
        st.tuples(curves, curves), st.tuples(curves, curves), angles, angles, angles, angles,
        fl(1, 2000, 2000), fl(0, 40, 400), fl(0, 40, 400), st.booleans(), st.booleans(),
    ),
    12000, 250000,
    "gain of a whole path with antenna tables at both ends: the boresight gain minus the four table losses; non-trivial: both ends have a table",
)
def link(c, ctx):
    a, b, az1, az2, el1, el2, d, g1, g2, has1, has2 = c
    tx = SectorParams(antenna_boresight_gain=g1, tx_miscellaneous_loss=1.0, tx_diversity_gain=2.0, rx_diversity_gain=50.0)
    rx = SectorParams(antenna_boresight_gain=g2, rx_miscellaneous_loss=0.5, rx_diversity_gain=1.0, tx_diversity_gain=60.0)
    A, B = [curve(x) for x in a], [curve(x) for x in b]
    pa = {"a": [[-x for x in t] for t in A]} if has1 else None
    pb = {"b": [[-x for x in t] for t in B]} if has2 else None
    ctx.nontrivial(has1 and has2)
    base = get_fspl_based_net_gain(d, tx, None, rx, None, 0.0, 0.0, 0.0, 0.0)
    got = get_fspl_based_net_gain(d, tx, pa, rx, pb, az1, az2, el1, el2)
    want = [
        base - (A[0][i] + A[1][j] if has1 else 0) - (B[0][k] + B[1][m] if has2 else 0)
        for i in near(az1) for j in near(el1) for k in near(az2) for m in near(el2)
    ]
    require(any(abs(got - w) < 1e-6 for w in want), "path-gain", f"{got} {want[:2]}")


NAMES = ["plain", "Two Words", "ünïcode", "UPPER_9", "a-b", "x y z", "ant12"]


@CHECK.sub(
    "antenna_file",
    lambda: st.tuples(
        st.lists(st.tuples(st.sampled_from(NAMES), curves, curves), min_size=1, max_size=3, unique_by=lambda t: t[0]),
        st.sampled_from(["\t", " ", ","]), st.booleans(), st.sampled_from(["\n", "\r\n"]), st.integers(0, 4),
        st.sampled_from(["none", "none", "none", "cut", "short", "text", "noname"]),
    ),
    400, 8000,
    "an antenna file with up to three patterns is written and read back, or damaged and must be rejected; non-trivial: more than one pattern, or damaged",
)
def antenna_file(c, ctx):
    pats, sep, lower, eol, extra, damage = c
    lines = []
    for name, h, v in pats:
        if sep == " ":
            name = name.replace(" ", "_")
        lines.append(f"{'name' if lower else 'NAME'}{sep}{name}")
        for k in range(extra):
            lines.append(f"FIELD{k}{sep}{k}")
        lines.append(f"HORIZONTAL{sep}360")
        lines += [f"{i}{sep}{x}" for i, x in enumerate(curve(h))]
        lines.append(f"VERTICAL{sep}360")
        lines += [f"{i}{sep}{x}" for i, x in enumerate(curve(v))]
    if damage == "cut":
        lines = lines[: -1 - extra]
    elif damage == "short":
        i = lines.index(f"VERTICAL{sep}360")
        del lines[i - 3]
    elif damage == "text":
        lines[-5] = f"355{sep}abc"
    elif damage == "noname":
        lines = [x for x in lines if not x.upper().startswith("NAME")]
    with open("ant.txt", "w", encoding="utf-8", newline="") as f:
        f.write(eol.join(lines) + eol)
    ctx.nontrivial(len(pats) > 1 or damage != "none")
    ctx.label(damage)
    if damage != "none":
        try:
            read_antenna_pattern_data("ant.txt")
        except PlannerException:
            return
        raise Violation("accepts-damaged-antenna-file", damage)
    data = read_antenna_pattern_data("ant.txt")
    require(len(data) == len(pats), "antenna-file-count", f"{list(data)}")
    for (key, val), (name, h, v) in zip(data.items(), pats):
        require(key == name.replace(" ", "_" if sep == " " else " ").casefold(), "antenna-file-name", key)
        for got, spec in zip(val, (h, v)):
            require(len(got) == 360, "antenna-file-size")
            require(
                all(abs(g + w) < 1e-9 for g, w in zip(got, curve(spec))), "antenna-file-values"
            )


@CHECK.sub(
    "scan_file",
    lambda: st.tuples(scan_tables(), st.booleans(), st.sampled_from(["none", "none", "text", "missing"])),
    1500, 30000,
    "a scan table is written and read back, or damaged and must be rejected; non-trivial: several entries",
)
def scan_file(c, ctx):
    (hs, vs, vals), whole, damage = c
    def num(x):
        return str(int(x)) if whole and x == int(x) else str(x)
    rows = ["Channel4," + ",".join(num(v) for v in vs)]
    for h, r in zip(hs, vals):
        rows.append(num(h) + "," + ",".join(repr(x) for x in r))
    ctx.nontrivial(len(hs) > 1 and len(vs) > 1)
    ctx.label(damage)
    name = "scan.csv"
    if damage == "text":
        rows[-1] = rows[-1].rsplit(",", 1)[0] + ",abc"
    elif damage == "missing":
        name = "nosuch.csv"
    with open("scan.csv", "w") as f:
        f.write("\n".join(rows) + "\n")
    if damage != "none":
        try:
            read_scan_pattern_data(name)
        except (PlannerException, ValueError):
            return
        raise Violation("accepts-damaged-scan-file", damage)
    data = read_scan_pattern_data(name)
    require(list(data) == hs, "scan-file-rows")
    for i, h in enumerate(hs):
        require(list(data[h]) == vs, "scan-file-columns")
        for j, v in enumerate(vs):
            require(abs(data[h][v] - vals[i][j]) < 1e-9, "scan-file-values")
