"""P04: a configuration file means what it says."""
import copy
import json
import os

import hypothesis.strategies as st
import yaml

from harness.boot import REPO
from harness.core import Check, Violation, expect_raises, require
from harness.gen import fl

from terragraph_planner.common.configuration.configs import (
    DeviceData, GISDataParams, LOSParams, OptimizerParams, SectorParams,
    SiteDetectionParams, SystemParams,
)
from terragraph_planner.common.configuration.constants import (
    DATA, LINE_OF_SIGHT, OPTIMIZATION, SYSTEM,
)
from terragraph_planner.common.configuration.enums import (
    DeviceType, LoggerLevel, RedundancyLevel, TopologyRouting,
)
from terragraph_planner.common.configuration.utils import struct_objects_from_file
from terragraph_planner.common.constants import DEFAULT_MCS_SNR_MBPS_MAP
from terragraph_planner.common.exceptions import PlannerException

CHECK = Check("P04")
CHECK.assumptions = [
    "section names are written as in the template",
    "defaults are those of the shipped template file, file paths aside",
]

with open(os.path.join(REPO, "terragraph_planner/data/template.yaml")) as _f:
    TEMPLATE = yaml.safe_load(_f)

pos = fl(0.01, 1000).map(lambda x: round(x, 3))
nonneg = st.one_of(st.just(0), pos, st.integers(0, 500))
ratio = fl(0, 1).map(lambda x: round(x, 3))
anyf = fl(-200, 200).map(lambda x: round(x, 2))
mcs = st.integers(0, 12)
minutes = st.integers(1, 200)
flag = st.booleans()


def opt(s):
    return s


# section -> field -> (valid values, invalid values)
SEC = {
    "SYSTEM": {
        "OUTPUT_DIR": (st.sampled_from(["./", "/tmp/x", "out"]), []),
        "DEBUG_MODE": (flag, []),
        "LOGGER_LEVEL": (st.sampled_from(["DEBUG", "info", "Warning", "ERROR"]), []),
        "LOG_FILE": (st.sampled_from(["a.log", "b.log"]), []),
        "LOG_TO_STDERR": (flag, []),
    },
    "LINE_OF_SIGHT": {
        "MOUNTING_HEIGHT_ABOVE_ROOFTOP": (nonneg, [-0.1, -5]),
        "DEFAULT_POP_HEIGHT_ON_POLE": (nonneg, [-0.1]),
        "DEFAULT_DN_HEIGHT_ON_POLE": (nonneg, [-0.1]),
        "DEFAULT_CN_HEIGHT_ON_POLE": (nonneg, [-0.1]),
        "MAXIMUM_LOS_DISTANCE": (st.integers(120, 2000), [5, 4]),
        "MINIMUM_LOS_DISTANCE": (st.integers(5, 119), [4, 0, -5]),
        "MAXIMUM_ELEVATION_SCAN_ANGLE": (st.integers(0, 90), [-1, 91]),
        "MINIMUM_MCS_OF_BACKHAUL_LINKS": (mcs, [-1]),
        "MINIMUM_MCS_OF_ACCESS_LINKS": (mcs, [-1]),
        "USE_ELLIPSOIDAL_LOS_MODEL": (flag, []),
        "FRESNEL_RADIUS": (pos, [0, -1]),
        "LOS_CONFIDENCE_THRESHOLD": (ratio, [-0.01, 1.01]),
        "NUM_PROCESSORS": (st.integers(1, 8), []),
    },
    "SITE_DETECTION": {
        "DN_DEPLOYMENT": (flag, []), "DETECT_HIGHEST": (flag, []),
        "DETECT_CENTERS": (flag, []), "DETECT_CORNERS": (flag, []),
        "MAX_CORNER_ANGLE": (st.integers(1, 179), [0, 180, -3, 200]),
    },
    "RADIO": {
        "CARRIER_FREQUENCY": (fl(52000, 68000).map(round), []),
        "NOISE_FIGURE": (nonneg, []),
        "THERMAL_NOISE_POWER": (anyf, []),
        "MAXIMUM_EIRP": (anyf, []),
        "RAIN_RATE": (nonneg, []),
        "LINK_AVAILABILITY_PERCENTAGE": (fl(0, 99.99).map(lambda x: round(x, 2)), [100, 100.5, -1]),
    },
    "DEVICE": {
        "NODE_CAPEX": (nonneg, [-1, -0.01]),
        "NUMBER_OF_NODES_PER_SITE": (st.integers(1, 3), [0, -1]),
    },
    "SECTOR": {
        "HORIZONTAL_SCAN_RANGE": (fl(1, 45).map(lambda x: round(x, 1)), [-1, 361]),
        "NUMBER_SECTORS_PER_NODE": (st.integers(1, 2), [0, -1]),
        "ANTENNA_BORESIGHT_GAIN": (nonneg, [-1]),
        "MAXIMUM_TX_POWER": (fl(10, 40).map(lambda x: round(x, 1)), [-1]),
        "MINIMUM_TX_POWER": (fl(-5, 9).map(lambda x: round(x, 1)), [41]),
        "TX_DIVERSITY_GAIN": (nonneg, [-1]), "RX_DIVERSITY_GAIN": (nonneg, [-1]),
        "TX_MISCELLANEOUS_LOSS": (nonneg, [-1]), "RX_MISCELLANEOUS_LOSS": (nonneg, [-1]),
        "MINIMUM_MCS_LEVEL": (mcs, [-1]),
    },
    "NETWORK_DESIGN": {
        "CANDIDATE_TOPOLOGY_FILE_PATH": (st.sampled_from(["t.kml", "t.KMZ", "a.zip"]), ["t.csv", "t"]),
        "POP_CAPACITY": (pos, [0, -1]),
        "NUMBER_OF_EXTRA_POPS": (st.integers(0, 5), [-1]),
        "DN_DN_SECTOR_LIMIT": (st.integers(1, 4), [0, -1]),
        "DN_TOTAL_SECTOR_LIMIT": (st.integers(5, 40), [0]),
        "MAXIMUM_NUMBER_HOPS": (st.integers(1, 30), [0, -2]),
        "DIFF_SECTOR_ANGLE_LIMIT": (st.integers(0, 180), [-1, 181]),
        "NEAR_FAR_LENGTH_RATIO": (pos, [0, -1]),
        "NEAR_FAR_ANGLE_LIMIT": (st.integers(0, 180), [-1, 181]),
        "OVERSUBSCRIPTION": (fl(1, 20).map(lambda x: round(x, 2)), [0.99, 0, -1]),
        "NUMBER_OF_CHANNELS": (st.integers(1, 4), [0, -1]),
        "MAXIMIZE_COMMON_BANDWIDTH": (flag, []),
        "ALWAYS_ACTIVE_POPS": (flag, []),
        "ENABLE_LEGACY_REDUNDANCY_METHOD": (flag, []),
        "REDUNDANCY_LEVEL": (st.sampled_from(["NONE", "Low", "medium", "HIGH"]), []),
        "BACKHAUL_LINK_REDUNDANCY_RATIO": (ratio, [-0.1, 1.1]),
        "NUM_THREADS": (st.integers(1, 16), [0, -1]),
        "POP_PROPOSAL_REL_STOP": (ratio, []), "MIN_COST_REL_STOP": (ratio, []),
        "REDUNDANCY_REL_STOP": (ratio, []), "MAX_COVERAGE_REL_STOP": (ratio, []),
        "INTERFERENCE_REL_STOP": (ratio, []),
        "POP_PROPOSAL_MAX_TIME": (minutes, [0, -1]), "MIN_COST_MAX_TIME": (minutes, [0, -1]),
        "REDUNDANCY_MAX_TIME": (minutes, [0, -1]), "MAX_COVERAGE_MAX_TIME": (minutes, []),
        "INTERFERENCE_MAX_TIME": (minutes, [0, -1]), "DEMAND_SITE_MAX_TIME": (minutes, [0, -1]),
        "TOPOLOGY_ROUTING": (st.sampled_from(["SHORTEST_PATH", "mcs_cost_path", "DPA_PATH"]), []),
        "AVAILABILITY_SIM_TIME": (pos, []), "AVAILABILITY_SEED": (st.integers(-1, 99), []),
        "AVAILABILITY_MAX_TIME": (minutes, [0, -1]),
    },
    "FINANCIAL": {
        "CN_SITE_CAPEX": (nonneg, [-1]), "DN_SITE_CAPEX": (nonneg, [-1]),
        "POP_SITE_CAPEX": (nonneg, [-1]), "BUDGET": (nonneg, [-1]),
    },
    "DIMENSIONING": {
        "ENABLE_CN_DEMAND": (st.just(True), []),
        "ENABLE_UNIFORM_DEMAND": (st.just(False), []),
        "ENABLE_MANUAL_DEMAND": (st.just(False), []),
        "DEMAND_SPACING": (nonneg, []), "DEMAND_CONNECTION_RADIUS": (nonneg, []),
        "DEMAND": (pos, [0, -0.5]),
    },
    "DATA": {
        "DSM_FILE_PATHS": (st.lists(st.sampled_from(["a.tif", "b.tiff", "c.TIF"]), min_size=1, max_size=3, unique=True), [["x.png"], ["a.tif", "b.kml"]]),
        "DTM_FILE_PATH": (st.sampled_from(["m.tif"]), ["m.kml"]),
        "DHM_FILE_PATH": (st.sampled_from(["h.tif"]), ["h.csv"]),
        "SITE_FILE_PATH": (st.sampled_from(["s.csv", "s.kml", "s.kmz"]), ["s.txt"]),
        "BUILDING_OUTLINE_FILE_PATH": (st.sampled_from(["b.zip", "b.kml", "b.kmz"]), ["b.shp"]),
    },
}
TSEC = {
    "SYSTEM": TEMPLATE["SYSTEM"], "LINE_OF_SIGHT": TEMPLATE["LINE_OF_SIGHT"],
    "SITE_DETECTION": TEMPLATE["LINE_OF_SIGHT"]["SITE_DETECTION"],
    "RADIO": TEMPLATE["RADIO"], "DEVICE": TEMPLATE["RADIO"]["DEVICE_LIST"][0],
    "SECTOR": TEMPLATE["RADIO"]["DEVICE_LIST"][0]["SECTOR_PARAMS"],
    "NETWORK_DESIGN": TEMPLATE["NETWORK_DESIGN"],
    "FINANCIAL": TEMPLATE["NETWORK_DESIGN"]["FINANCIAL"],
    "DIMENSIONING": TEMPLATE["NETWORK_DESIGN"]["DIMENSIONING"], "DATA": TEMPLATE["DATA"],
}


@st.composite
def section(draw, name):
    out = {}
    for k, (valid, _) in SEC[name].items():
        r = draw(st.integers(0, 5))
        if r <= 2:
            out[k] = draw(valid)
        elif r == 3:
            out[k] = None
    return out


@st.composite
def configs(draw):
    devs = []
    for i in range(draw(st.integers(1, 3))):
        d = draw(section("DEVICE"))
        d["DEVICE_SKU"] = ["Dev A", "dev-b", "C3"][i]
        t = draw(st.sampled_from(["DN", "CN", "dn", "cn", None]))
        if t is not None:
            d["DEVICE_TYPE"] = t
            if t.upper() == "CN":
                d.pop("NUMBER_OF_NODES_PER_SITE", None)
        d["SECTOR_PARAMS"] = draw(section("SECTOR"))
        s = d["SECTOR_PARAMS"]
        n = d.get("NUMBER_OF_NODES_PER_SITE") or 4
        if (s.get("HORIZONTAL_SCAN_RANGE") or 70.0) * (s.get("NUMBER_SECTORS_PER_NODE") or 1) * n > 360:
            s.pop("NUMBER_SECTORS_PER_NODE", None)
            if (s.get("HORIZONTAL_SCAN_RANGE") or 70.0) * n > 360:
                s["HORIZONTAL_SCAN_RANGE"] = 45.0
        devs.append(d)
    c = {k: draw(section(k)) for k in ("SYSTEM", "LINE_OF_SIGHT", "RADIO", "NETWORK_DESIGN", "DATA")}
    c["LINE_OF_SIGHT"]["SITE_DETECTION"] = draw(section("SITE_DETECTION"))
    c["NETWORK_DESIGN"]["FINANCIAL"] = draw(section("FINANCIAL"))
    c["NETWORK_DESIGN"]["DIMENSIONING"] = draw(section("DIMENSIONING"))
    c["RADIO"]["DEVICE_LIST"] = devs
    c["DATA"]["BOUNDARY_POLYGON_FILE_PATH"] = draw(st.sampled_from(["b.kml", "b.kmz"]))
    return {
        "config": c,
        "json": draw(st.booleans()),
        "case": draw(st.lists(st.integers(0, 2), min_size=7, max_size=7)),
    }


@st.composite
def at_the_edge(draw):
    """A configuration of which some related values are exactly at their limit."""
    c = draw(configs())
    conf, tight = c["config"], draw(st.sets(st.integers(0, 5), max_size=4))
    net, los, dev = conf["NETWORK_DESIGN"], conf["LINE_OF_SIGHT"], conf["RADIO"]["DEVICE_LIST"][0]
    if 0 in tight:
        net["DN_TOTAL_SECTOR_LIMIT"] = net["DN_DN_SECTOR_LIMIT"] = draw(st.integers(1, 20))
    if 1 in tight:
        dev["SECTOR_PARAMS"]["MINIMUM_TX_POWER"] = dev["SECTOR_PARAMS"]["MAXIMUM_TX_POWER"] = draw(st.sampled_from([0, 4.5, 16, 43]))
    if 2 in tight:
        los["MINIMUM_LOS_DISTANCE"] = draw(st.sampled_from([5, 9, 500]))
        los["MAXIMUM_LOS_DISTANCE"] = los["MINIMUM_LOS_DISTANCE"] + 1
    if 3 in tight:
        scan, sectors, nodes = draw(st.sampled_from([(360, 1, 1), (120, 3, 1), (90, 2, 2), (45, 2, 4), (60, 6, 1)]))
        dev["SECTOR_PARAMS"].update(HORIZONTAL_SCAN_RANGE=scan, NUMBER_SECTORS_PER_NODE=sectors)
        dev.update(NUMBER_OF_NODES_PER_SITE=nodes, DEVICE_TYPE="DN")
    if 4 in tight:
        net["DIMENSIONING"].update(draw(st.sampled_from([
            dict(ENABLE_CN_DEMAND=False, ENABLE_UNIFORM_DEMAND=True, DEMAND_SPACING=0.5, DEMAND_CONNECTION_RADIUS=0.1),
            dict(ENABLE_CN_DEMAND=False, ENABLE_UNIFORM_DEMAND=False, ENABLE_MANUAL_DEMAND=True, DEMAND_SPACING=0, DEMAND_CONNECTION_RADIUS=0.1),
            dict(ENABLE_CN_DEMAND=True, ENABLE_UNIFORM_DEMAND=False, ENABLE_MANUAL_DEMAND=False, DEMAND_SPACING=0, DEMAND_CONNECTION_RADIUS=0),
            dict(ENABLE_CN_DEMAND=True, ENABLE_UNIFORM_DEMAND=True, ENABLE_MANUAL_DEMAND=True, DEMAND_SPACING=7, DEMAND_CONNECTION_RADIUS=40),
        ])))
    if 5 in tight:
        net.update(OVERSUBSCRIPTION=1, MAXIMUM_NUMBER_HOPS=1, DIFF_SECTOR_ANGLE_LIMIT=draw(st.sampled_from([0, 180])), NEAR_FAR_ANGLE_LIMIT=draw(st.sampled_from([0, 180])), BACKHAUL_LINK_REDUNDANCY_RATIO=draw(st.sampled_from([0, 1])))
        los.update(MAXIMUM_ELEVATION_SCAN_ANGLE=draw(st.sampled_from([0, 90])), LOS_CONFIDENCE_THRESHOLD=draw(st.sampled_from([0, 1])))
    return c


def recase(d, case, top=True):
    """Write the keys below the section names in another case."""
    if isinstance(d, dict):
        out = {}
        for i, (k, v) in enumerate(d.items()):
            m = case[(i + len(k)) % len(case)]
            kk = k if top or m == 0 else k.lower() if m == 1 else k.title()
            out[kk] = recase(v, case, False)
        return out
    if isinstance(d, list):
        return [recase(x, case, False) for x in d]
    return d


def write(c, as_json, case, name="conf"):
    data = recase(c, case)
    path = f"{name}.json" if as_json else f"{name}.yaml"
    with open(path, "w") as f:
        if as_json:
            json.dump(data, f)
        else:
            yaml.safe_dump(data, f)
    return path


ENUMS = {
    "LOGGER_LEVEL": LoggerLevel, "REDUNDANCY_LEVEL": RedundancyLevel,
    "TOPOLOGY_ROUTING": TopologyRouting, "DEVICE_TYPE": DeviceType,
}
NO_DEFAULT = {"CANDIDATE_TOPOLOGY_FILE_PATH", "DTM_FILE_PATH", "DHM_FILE_PATH",
              "SITE_FILE_PATH", "BUILDING_OUTLINE_FILE_PATH", "LOG_FILE"}


def expected(sec, given, k):
    v = given.get(k)
    if v is None:
        v = None if k in NO_DEFAULT else TSEC[sec][k]
        if k == "DSM_FILE_PATHS":
            v = []
    if v is not None and k in ENUMS:
        v = ENUMS[k][v.upper()]
    return v


def check_fields(obj, sec, given, ctx, where):
    for k in SEC[sec]:
        if k == "NUMBER_OF_NODES_PER_SITE" and given.get(k) is None:
            continue
        want = expected(sec, given, k)
        got = getattr(obj, k.lower())
        require(
            got == want and (isinstance(got, bool) == isinstance(want, bool)),
            f"value of {k}", f"{where}: got {got!r}, file says {given.get(k)!r}, expected {want!r}",
        )
        ctx.label("given" if given.get(k) is not None else "default")


def check_devices(devs, given, radio, ctx):
    require(len(devs) == len(given), "device-count")
    for d, g in zip(devs, given):
        require(isinstance(d, DeviceData) and d.device_sku == g["DEVICE_SKU"], "device-sku")
        t = (g.get("DEVICE_TYPE") or "DN").upper()
        require(d.device_type == DeviceType[t], "device-type")
        check_fields(d, "DEVICE", g, ctx, "device")
        if g.get("NUMBER_OF_NODES_PER_SITE") is None:
            require(d.number_of_nodes_per_site == (1 if t == "CN" else 4), "default-nodes")
        s = d.sector_params
        require(isinstance(s, SectorParams), "sector-params")
        check_fields(s, "SECTOR", g["SECTOR_PARAMS"], ctx, "sector")
        for k in ("CARRIER_FREQUENCY", "THERMAL_NOISE_POWER", "NOISE_FIGURE", "RAIN_RATE", "LINK_AVAILABILITY_PERCENTAGE"):
            require(getattr(s, k.lower()) == expected("RADIO", radio, k), f"device {k}")
        require(s.mcs_map == DEFAULT_MCS_SNR_MBPS_MAP, "default-mcs-map")
        require(s.antenna_pattern_data is None and s.scan_pattern_data is None, "default-patterns")


@CHECK.sub(
    "parse", at_the_edge, 700, 14000,
    "a generated configuration file in YAML or JSON with fields given, null or left out, some of them exactly at their limits (equal limits, full circles, angles of 0 and 180); non-trivial: at least 20 fields are given",
)
def parse(c, ctx):
    conf = c["config"]
    path = write(conf, c["json"], c["case"])
    sysp = struct_objects_from_file(SYSTEM, path)
    require(isinstance(sysp, SystemParams), "type")
    check_fields(sysp, "SYSTEM", conf["SYSTEM"], ctx, "system")
    gis = struct_objects_from_file(DATA, path)
    require(isinstance(gis, GISDataParams), "type")
    check_fields(gis, "DATA", conf["DATA"], ctx, "data")
    require(gis.boundary_polygon_file_path == conf["DATA"]["BOUNDARY_POLYGON_FILE_PATH"], "boundary")
    los = struct_objects_from_file(LINE_OF_SIGHT, path)
    require(isinstance(los, LOSParams), "type")
    check_fields(los, "LINE_OF_SIGHT", conf["LINE_OF_SIGHT"], ctx, "los")
    check_fields(los, "RADIO", conf["RADIO"], ctx, "los radio")
    require(isinstance(los.site_detection, SiteDetectionParams), "type")
    check_fields(los.site_detection, "SITE_DETECTION", conf["LINE_OF_SIGHT"]["SITE_DETECTION"], ctx, "site detection")
    check_devices(los.device_list, conf["RADIO"]["DEVICE_LIST"], conf["RADIO"], ctx)
    o = struct_objects_from_file(OPTIMIZATION, path)
    require(isinstance(o, OptimizerParams), "type")
    check_fields(o, "NETWORK_DESIGN", conf["NETWORK_DESIGN"], ctx, "design")
    check_fields(o, "RADIO", conf["RADIO"], ctx, "design radio")
    check_fields(o, "FINANCIAL", conf["NETWORK_DESIGN"]["FINANCIAL"], ctx, "financial")
    check_fields(o, "DIMENSIONING", conf["NETWORK_DESIGN"]["DIMENSIONING"], ctx, "dimensioning")
    check_devices(o.device_list, conf["RADIO"]["DEVICE_LIST"], conf["RADIO"], ctx)
    # the same file gives equal parameters
    for name, obj in ((SYSTEM, sysp), (DATA, gis), (LINE_OF_SIGHT, los), (OPTIMIZATION, o)):
        require(struct_objects_from_file(name, path) == obj, "parse-equal", name)
    ctx.nontrivial(ctx.labels.count("given") >= 20)
    ctx.labels[:] = ["json" if c["json"] else "yaml"]


BAD = [(s, k, i) for s in SEC for k in SEC[s] for i in range(len(SEC[s][k][1]))]


def place(conf, sec):
    return {
        "SITE_DETECTION": lambda: conf["LINE_OF_SIGHT"]["SITE_DETECTION"],
        "FINANCIAL": lambda: conf["NETWORK_DESIGN"]["FINANCIAL"],
        "DIMENSIONING": lambda: conf["NETWORK_DESIGN"]["DIMENSIONING"],
        "DEVICE": lambda: conf["RADIO"]["DEVICE_LIST"][-1],
        "SECTOR": lambda: conf["RADIO"]["DEVICE_LIST"][-1]["SECTOR_PARAMS"],
    }.get(sec, lambda: conf[sec])()


LOADERS = {
    "SYSTEM": [SYSTEM], "LINE_OF_SIGHT": [LINE_OF_SIGHT], "SITE_DETECTION": [LINE_OF_SIGHT],
    "RADIO": [LINE_OF_SIGHT, OPTIMIZATION], "DEVICE": [LINE_OF_SIGHT, OPTIMIZATION],
    "SECTOR": [LINE_OF_SIGHT, OPTIMIZATION], "NETWORK_DESIGN": [OPTIMIZATION],
    "FINANCIAL": [OPTIMIZATION], "DIMENSIONING": [OPTIMIZATION], "DATA": [DATA],
}


@CHECK.sub(
    "reject",
    lambda: st.tuples(configs(), st.sampled_from(
        [["value", b] for b in range(len(BAD))]
        + [["typo", s, m] for s in SEC for m in range(3)] * 2
        + [["other", m] for m in range(11)] * 3
    )),
    700, 14000,
    "one field of a valid configuration is made illegal, misspelt or contradictory and must be rejected; every case is non-trivial",
)
def reject(c, ctx):
    conf = copy.deepcopy(c[0]["config"])
    how = c[1]
    ctx.nontrivial()
    ctx.label(how[0])
    if how[0] == "value":
        sec, k, i = BAD[how[1]]
        d = place(conf, sec)
        d[k] = SEC[sec][k][1][i]
        if k == "MINIMUM_TX_POWER":
            d.pop("MAXIMUM_TX_POWER", None)
        if k == "DN_TOTAL_SECTOR_LIMIT":
            d["DN_DN_SECTOR_LIMIT"] = 2
        names = LOADERS[sec]
        what = f"{k}={d[k]}"
    elif how[0] == "typo":
        d = place(conf, how[1])
        k = sorted(SEC[how[1]])[how[2] % len(SEC[how[1]])]
        v = d.pop(k, None)
        d[k + "X" if how[2] == 0 else k[1:] if how[2] == 1 else k.replace("_", "__") if "_" in k else k + "S"] = v
        names = [SYSTEM, DATA, LINE_OF_SIGHT, OPTIMIZATION]
        what = f"typo of {k}"
    else:
        devs = conf["RADIO"]["DEVICE_LIST"]
        d = devs[-1]
        m = how[1]
        names = [LINE_OF_SIGHT, OPTIMIZATION]
        what = f"other {m}"
        if m == 0:
            devs.append(dict(d, DEVICE_SKU=d["DEVICE_SKU"].upper()))
        elif m == 1:
            devs.clear()
        elif m == 2:
            d["DEVICE_TYPE"] = "CN"
            d["NUMBER_OF_NODES_PER_SITE"] = 2
        elif m == 3:
            d["DEVICE_TYPE"] = "DN"
            d["NUMBER_OF_NODES_PER_SITE"] = 4
            d["SECTOR_PARAMS"]["NUMBER_SECTORS_PER_NODE"] = 2
            d["SECTOR_PARAMS"]["HORIZONTAL_SCAN_RANGE"] = 45.5
        elif m == 4:
            conf["NETWORK_DESIGN"]["DIMENSIONING"].update(ENABLE_CN_DEMAND=False, ENABLE_UNIFORM_DEMAND=False, ENABLE_MANUAL_DEMAND=False)
            names = [OPTIMIZATION]
        elif m == 5:
            conf["NETWORK_DESIGN"]["DIMENSIONING"].update(ENABLE_UNIFORM_DEMAND=True, DEMAND_SPACING=0, DEMAND_CONNECTION_RADIUS=5)
            names = [OPTIMIZATION]
        elif m == 6:
            conf["NETWORK_DESIGN"]["DIMENSIONING"].update(ENABLE_MANUAL_DEMAND=True, DEMAND_CONNECTION_RADIUS=0)
            names = [OPTIMIZATION]
        elif m == 7:
            conf["LINE_OF_SIGHT"]["MAXIMUM_LOS_DISTANCE"] = conf["LINE_OF_SIGHT"]["MINIMUM_LOS_DISTANCE"] = 60
            names = [LINE_OF_SIGHT]
        elif m == 8:
            conf["NETWORK_DESIGN"].update(DN_DN_SECTOR_LIMIT=4, DN_TOTAL_SECTOR_LIMIT=3)
            names = [OPTIMIZATION]
        elif m == 9:
            d["SECTOR_PARAMS"].update(MINIMUM_TX_POWER=16.1, MAXIMUM_TX_POWER=16)
        else:
            conf["DATA"].update(BUILDING_OUTLINE_FILE_PATH="b.zip", BASE_TOPOLOGY_FILE_PATH="t.kml")
            names = [DATA]
    path = write(conf, c[0]["json"], c[0]["case"], "bad")
    for n in names:
        try:
            struct_objects_from_file(n, path)
        except PlannerException:
            continue
        raise Violation(f"accepts {how[0]}", f"{n} {what}")


@CHECK.sub(
    "files", lambda: st.sampled_from(["missing", "ext", "nokey"]), 24, 24,
    "missing file, unknown file type, missing section; every case is non-trivial",
)
def files(c, ctx):
    ctx.nontrivial()
    if c == "missing":
        p = "nothere.yaml"
    elif c == "ext":
        p = "conf.txt"
        with open(p, "w") as f:
            f.write("SYSTEM: {}\n")
    else:
        p = "nokey.yaml"
        with open(p, "w") as f:
            f.write("SYSTEM: {}\n")
    with expect_raises(PlannerException, "accepts-file", c):
        struct_objects_from_file(OPTIMIZATION, p)
    if c == "nokey":
        require(struct_objects_from_file(SYSTEM, p) == SystemParams(), "default-system")


@CHECK.sub(
    "equality",
    lambda: st.tuples(
        configs(),
        st.sampled_from([(s, k) for s in ("SYSTEM", "DEVICE", "SECTOR", "NETWORK_DESIGN", "LINE_OF_SIGHT", "SITE_DETECTION") for k in sorted(SEC[s])]),
        st.integers(0, 2),
    ),
    800, 12000,
    "two configurations that differ in one field compare unequal exactly if the field's value differs, and a parameter object survives conversion to a dictionary; non-trivial: the field differs",
)
def equality(c, ctx):
    conf, (sec, k), pickn = c
    a = conf["config"]
    name = LOADERS[sec][-1]
    path = write(a, False, [0])
    p1 = struct_objects_from_file(name, path)
    # through a dictionary and back
    p2 = type(p1).from_dict(p1.to_dict())
    require(p1 == p2 and p2 == p1, "dict-round-trip")
    require(p1.to_dict() == p2.to_dict(), "dict-round-trip")
    b = copy.deepcopy(a)
    alts = {
        "LOGGER_LEVEL": ["DEBUG", "ERROR"], "REDUNDANCY_LEVEL": ["LOW", "HIGH"],
        "TOPOLOGY_ROUTING": ["DPA_PATH", "SHORTEST_PATH"], "OUTPUT_DIR": ["q", "r"],
        "LOG_FILE": ["q", "r"], "CANDIDATE_TOPOLOGY_FILE_PATH": ["q.kml", "r.kml"],
        "NUMBER_OF_NODES_PER_SITE": [1, 2], "NUMBER_SECTORS_PER_NODE": [1, 1],
        "HORIZONTAL_SCAN_RANGE": [20.0, 30.0], "MAXIMUM_LOS_DISTANCE": [125, 126],
        "MINIMUM_LOS_DISTANCE": [7, 8], "OVERSUBSCRIPTION": [2, 3], "DN_TOTAL_SECTOR_LIMIT": [20, 21],
        "MAXIMUM_TX_POWER": [10, 11], "LOS_CONFIDENCE_THRESHOLD": [0.1, 0.2],
        "BACKHAUL_LINK_REDUNDANCY_RATIO": [0.3, 0.4],
    }
    d = place(b, sec)
    if k == "NUMBER_OF_NODES_PER_SITE" and (d.get("DEVICE_TYPE") or "").upper() == "CN":
        return
    template = alts.get(k)
    if template is None:
        template = [True, False] if isinstance(TSEC[sec][k], bool) else [1, 2]
    d[k] = template[pickn % 2]
    p3 = struct_objects_from_file(name, write(b, False, [0], "other"))
    v1 = place(a, sec).get(k)
    e1, e3 = expected(sec, place(a, sec), k), expected(sec, d, k)
    if k == "NUMBER_OF_NODES_PER_SITE" and v1 is None:
        e1 = 4
    require((p1 == p3) == (e1 == e3), "equality", f"{k}: {e1!r} {e3!r}")
    require((p3 == p1) == (e1 == e3), "equality", f"{k}: {e1!r} {e3!r}")
    ctx.nontrivial(e1 != e3)
    # a longer device list is not equal to a shorter one
    if sec in ("DEVICE", "SECTOR"):
        e = copy.deepcopy(a)
        e["RADIO"]["DEVICE_LIST"].append({"DEVICE_SKU": "zzz", "SECTOR_PARAMS": {}})
        p4 = struct_objects_from_file(name, write(e, False, [0], "more"))
        require(not (p1 == p4) and not (p4 == p1), "equality", "device lists of different length")
