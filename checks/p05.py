"""P05: link budget against reference formulas and brute-force rate choice."""
import math

import hypothesis.strategies as st

from harness.core import Check, close, require, require_close
from harness.gen import fl, mixed
from terragraph_planner.common.configuration.configs import SectorParams
from terragraph_planner.common.rf.link_budget_calculator import (
    compute_oxygen_loss,
    compute_rain_loss,
    fspl,
    fspl_based_estimation,
    get_fspl_based_net_gain,
    get_max_tx_power,
    get_mcs_from_snr,
    get_link_capacity_from_mcs,
)
from terragraph_planner.common.structs import MCSMap

CHECK = Check("P05")
CHECK.assumptions = [
    "reference formulas are those of docs/rf_modeling (free space loss, oxygen table of 3GPP TR 38.901, ITU rain model)",
    "rain monotonicity is judged for rain of 0 or at least 5 mm/h, 24-80 GHz, at most 10 km and availability up to 99.999 %, where the ITU formula itself is monotone",
]

OXYGEN = [0, 1, 2.2, 4, 6.6, 9.7, 12.6, 14.6, 15, 14.6, 14.3, 10.5, 6.8, 3.9, 1.9, 1, 0]


def ref_oxygen(d_km, f_mhz):
    x = f_mhz / 1000 - 52
    if x < 0 or x > 16:
        return 0.0
    i = min(int(x), 15)
    return (OXYGEN[i] + (OXYGEN[i + 1] - OXYGEN[i]) * (x - i)) * d_km


def ref_fspl(d_km, f_ghz):
    if d_km <= 0:
        return 0.0
    return max(0.0, 92.45 + 20 * math.log10(d_km * f_ghz))


def ref_rain(d, rain, avail, f_mhz):
    if d <= 0 or rain == 0:
        return 0.0
    f = f_mhz / 1000
    den = 0.477 * d**0.633 * rain ** (0.073 * 0.7486) * f**0.123 - 10.579 * (
        1 - math.exp(-0.024 * d)
    )
    r = min(1 / den, 2.5)
    a = 0.8515 * rain**0.7486 * d * r
    c0 = 0.12 + 0.32 * math.log10(f / 10)
    c1 = 0.07**c0 * 0.12 ** (1 - c0)
    c2 = 0.855 * c0 + 0.546 * (1 - c0)
    c3 = 0.139 * c0 + 0.043 * (1 - c0)
    q = 100 - avail
    return max(0.0, a * c1 * q ** (-(c2 + c3 * math.log10(q))))


freqs = st.one_of(
    st.sampled_from([60480.0, 58320.0, 62640.0, 64800.0, 24000.0, 52000.0, 68000.0]),
    fl(24000, 80000),
    st.integers(52, 68).map(lambda g: g * 1000.0),
)
rains = st.one_of(st.sampled_from([0.0, 30.0, 120.0]), fl(5, 120))
avails = st.one_of(st.sampled_from([0.0, 50.0, 99.0, 99.9, 99.99, 99.999]), fl(0, 99.99))
dists = mixed(0.1, 10000, 0.0, 1.0, 50.0, 250.0, 1000.0)


@CHECK.sub(
    "losses",
    lambda: st.tuples(dists, dists, freqs, rains, rains, avails, avails),
    30000, 600000,
    "loss terms against reference formulas at two distances, rain rates and availabilities; non-trivial: both distances positive and rain falls",
)
def losses(c, ctx):
    d1, d2, f, r1, r2, a1, a2 = c
    d1, d2 = sorted((d1 / 1000, d2 / 1000))
    r1, r2 = sorted((r1, r2))
    a1, a2 = sorted((a1, a2))
    ctx.nontrivial(d1 > 0 and r2 > 0 and d1 < d2)
    for d in (d1, d2):
        require_close(fspl(d, f / 1000), ref_fspl(d, f / 1000), "free-space", abs_=1e-6)
        require_close(compute_oxygen_loss(d, f), ref_oxygen(d, f), "oxygen", abs_=1e-6)
        for r in (r1, r2):
            for a in (a1, a2):
                got = compute_rain_loss(
                    dist_km=d, rain_rate=r, link_availability_percentage=a, carrier_frequency=f
                )
                require_close(got, ref_rain(d, r, a, f), "rain", rel=1e-6, abs_=1e-6)
    tol = 1e-9
    require(fspl(d1, f / 1000) <= fspl(d2, f / 1000) + tol, "free-space-monotone")
    require(compute_oxygen_loss(d1, f) <= compute_oxygen_loss(d2, f) + tol, "oxygen-monotone")
    lo = compute_rain_loss(d1, r1, a1, f)
    for d, r, a in ((d2, r1, a1), (d1, r2, a1), (d1, r1, a2), (d2, r2, a2)):
        hi = compute_rain_loss(d, r, a, f)
        require(lo <= hi * (1 + 1e-9) + tol, "rain-monotone", f"{(d1, r1, a1)} {lo} {(d, r, a)} {hi}")


@st.composite
def tables(draw):
    n = draw(st.integers(1, 8))
    gap = draw(st.booleans())
    mcs = draw(st.integers(1, 4))
    snr = draw(fl(-5, 8, 130))
    mbps = draw(st.sampled_from([0, 0, 27.5, 100]))
    back = draw(st.sampled_from([0, 0, 0, 1, 2]))
    rows = []
    for _ in range(n):
        rows.append([mcs, snr, mbps, back])
        mcs += draw(st.integers(1, 4)) if gap else 1
        snr += draw(fl(0.1, 4, 39))
        mbps += draw(st.sampled_from([1, 50, 200, 385]))
        back += draw(st.sampled_from([0, 0, 0, 1, 2, 3, 6]))
    return rows


@st.composite
def radios(draw):
    mx = draw(fl(0, 40, 400))
    mn = draw(st.one_of(st.none(), st.none(), fl(-30, mx, 400).map(lambda x: min(x, mx))))
    return dict(
        antenna_boresight_gain=draw(fl(0, 45, 450)),
        maximum_tx_power=mx,
        minimum_tx_power=mn,
        carrier_frequency=draw(freqs),
        thermal_noise_power=draw(fl(-95, -70, 250)),
        noise_figure=draw(fl(0, 12, 120)),
        rain_rate=draw(rains),
        link_availability_percentage=draw(avails),
        tx_diversity_gain=draw(st.sampled_from([0.0, 0.0, 3.0])),
        rx_diversity_gain=draw(st.sampled_from([0.0, 0.0, 2.0])),
        tx_miscellaneous_loss=draw(st.sampled_from([0.0, 0.0, 1.5])),
        rx_miscellaneous_loss=draw(st.sampled_from([0.0, 0.0, 2.5])),
    )


def estimate(d, p, tx, rx, table):
    return fspl_based_estimation(
        distance=d, max_tx_power=p, tx_sector_params=tx, rx_sector_params=rx,
        mcs_snr_mbps_map=table, tx_deviation=0.0, rx_deviation=0.0,
        tx_el_deviation=0.0, rx_el_deviation=0.0,
        tx_scan_pattern_data=None, rx_scan_pattern_data=None,
    )


def reference(d, p, tx, rx, rows):
    """(level, capacity, power, rsl, snr) and the smallest distance to a tie."""
    f = tx["carrier_frequency"]
    km = d / 1000
    gain = (
        tx["antenna_boresight_gain"] + tx["tx_diversity_gain"] - tx["tx_miscellaneous_loss"]
        + rx["antenna_boresight_gain"] + rx["rx_diversity_gain"] - rx["rx_miscellaneous_loss"]
        - ref_fspl(km, f / 1000) - ref_oxygen(km, f)
        - ref_rain(km, tx["rain_rate"], tx["link_availability_percentage"], f)
    )
    noise = rx["noise_figure"] + rx["thermal_noise_power"]
    best, margin = None, math.inf
    for m, s, mbps, back in rows:
        need = s + noise - gain
        lim = p - back
        margin = min(margin, abs(need - lim))
        if tx["minimum_tx_power"] is not None and tx["minimum_tx_power"] > lim:
            continue
        if need <= lim and (best is None or m > best[0]):
            best = (m, mbps / 1000, back)
    if best is None:
        best = (0, 0.0, 0.0)
    power = p - best[2]
    return best[0], best[1], power, power + gain, power + gain - noise, gain, margin


@CHECK.sub(
    "budget",
    lambda: st.tuples(
        radios(), radios(), tables(), dists, st.one_of(st.none(), fl(0, 60, 600)),
        st.one_of(st.none(), fl(-2, 8, 500)),
    ),
    20000, 400000,
    "a link of two random radios with a random rate table against the reference budget; non-trivial: the link carries a rate below the table's best or is limited by back-off or the regulatory limit",
)
def budget(c, ctx):
    t, r, rows, d, eirp, above = c
    tx = SectorParams(**t)
    if above is not None:
        # a noise floor that puts the link near the table's thresholds
        p = get_max_tx_power(tx, eirp)
        r = dict(r)
        r["thermal_noise_power"] = 0.0
        snr0 = reference(d, p, t, r, [])[4]
        r["thermal_noise_power"] = snr0 - rows[len(rows) // 2][1] - above
    rx = SectorParams(**r)
    p = get_max_tx_power(tx, eirp)
    own = t["maximum_tx_power"]
    want = own
    if eirp is not None:
        want = min(own, eirp - t["antenna_boresight_gain"] - t["tx_diversity_gain"])
    if t["minimum_tx_power"] is not None:
        want = max(want, t["minimum_tx_power"])
    require_close(p, want, "max-power")
    require(p <= own + 1e-9, "power-above-device")
    table = [MCSMap(mcs=m, snr=s, mbps=b, tx_backoff=o) for m, s, b, o in rows]
    if c[3] > 5000:
        table = table[::-1]
    g = get_fspl_based_net_gain(d, tx, None, rx, None, 0.0, 0.0, 0.0, 0.0)
    lvl, cap, power, rsl, snr, gain, margin = reference(d, p, t, r, rows)
    require_close(g, gain, "net-gain", abs_=1e-6)
    if margin < 1e-7:
        return
    got = estimate(d, p, tx, rx, table)
    ctx.nontrivial(lvl != rows[-1][0] and lvl > 0)
    ctx.label("none" if lvl == 0 else "top" if lvl == rows[-1][0] else "mid")
    require(got.mcs_level == lvl, "level", lambda: f"{got} expected level {lvl}")
    require_close(got.capacity, cap, "capacity")
    require_close(got.tx_power, power, "tx-power", abs_=1e-6)
    require_close(got.rsl_dbm, rsl, "rsl", abs_=1e-6)
    require_close(got.snr_dbm, snr, "snr", abs_=1e-6)
    require_close(got.sinr_dbm, snr, "sinr", abs_=1e-6)
    if lvl:
        back = {m: o for m, _, _, o in rows}[lvl]
        require(got.tx_power <= own - back + 1e-9, "power-above-backoff")
        require(got.snr_dbm >= {m: s for m, s, _, _ in rows}[lvl] - 1e-6, "snr-below-threshold")


KNOBS = [
    ("distance", None, -1), ("max_tx_power", None, 1),
    ("antenna_boresight_gain", "tx", 1), ("antenna_boresight_gain", "rx", 1),
    ("tx_diversity_gain", "tx", 1), ("rx_diversity_gain", "rx", 1),
    ("tx_miscellaneous_loss", "tx", -1), ("rx_miscellaneous_loss", "rx", -1),
    ("noise_figure", "rx", -1), ("thermal_noise_power", "rx", -1),
    ("rain_rate", "tx", -1), ("link_availability_percentage", "tx", -1),
]


@CHECK.sub(
    "monotone",
    lambda: st.tuples(
        radios(), radios(), tables(), dists, st.sampled_from(range(len(KNOBS))), fl(0, 12, 1200),
        fl(-3, 8, 500),
    ),
    20000, 400000,
    "one quantity is changed in the favourable or unfavourable direction and rate, capacity, power at the receiver may only move that way; non-trivial: the rate changes",
)
def monotone(c, ctx):
    t, r, rows, d, k, delta, above = c
    t = dict(t, minimum_tx_power=None)
    snr0 = reference(d, t["maximum_tx_power"], t, dict(r, thermal_noise_power=0.0), [])[4]
    r = dict(r, thermal_noise_power=snr0 - rows[len(rows) // 2][1] - above)
    what, side, sign = KNOBS[k]
    table = [MCSMap(mcs=m, snr=s, mbps=b, tx_backoff=o) for m, s, b, o in rows]
    p = t["maximum_tx_power"]
    a = estimate(d, p, SectorParams(**t), SectorParams(**r), table)
    t2, r2, d2, p2 = dict(t), dict(r), d, p
    if what == "distance":
        d2 = d + delta * 50
    elif what == "max_tx_power":
        p2 = p + delta
    else:
        tgt = t2 if side == "tx" else r2
        if what == "link_availability_percentage":
            tgt[what] = min(99.999, tgt[what] + delta * 4)
        elif what == "rain_rate":
            tgt[what] = tgt[what] + 5 + delta
        else:
            tgt[what] += delta
    b = estimate(d2, p2, SectorParams(**t2), SectorParams(**r2), table)
    lo, hi = (a, b) if sign > 0 else (b, a)
    ctx.nontrivial(a.mcs_level != b.mcs_level)
    ctx.label(what)
    require(lo.mcs_level <= hi.mcs_level, "monotone-level", lambda: f"{what}: {a} {b}")
    require(lo.capacity <= hi.capacity + 1e-12, "monotone-capacity", lambda: f"{what}: {a} {b}")
    if lo.mcs_level == hi.mcs_level:
        require(lo.snr_dbm <= hi.snr_dbm + 1e-9, "monotone-snr", lambda: f"{what}: {a} {b}")


@CHECK.sub(
    "lookup",
    lambda: st.tuples(tables(), st.one_of(fl(-20, 50, 7000), st.integers(0, 7), st.just("nan"))),
    15000, 300000,
    "rate class of a noise ratio by brute force, thresholds themselves included; non-trivial: some class is met",
)
def lookup(c, ctx):
    rows, x = c
    if x == "nan":
        snr = math.nan
    elif isinstance(x, int):
        snr = rows[x % len(rows)][1]
    else:
        snr = x
    table = [MCSMap(mcs=m, snr=s, mbps=b, tx_backoff=o) for m, s, b, o in rows]
    want = max([m for m, s, _, _ in rows if snr >= s], default=0)
    got = get_mcs_from_snr(snr, table)
    require(got == want, "lookup", f"{got} {want}")
    require(get_mcs_from_snr(snr, table[::-1]) == want, "lookup-order")
    cap = {m: b / 1000 for m, _, b, _ in rows}.get(want, 0.0)
    require_close(get_link_capacity_from_mcs(got, table), cap, "lookup-capacity")
    ctx.nontrivial(want > 0)
