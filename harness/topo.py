"""Networks described by plain JSON, for the planning checks."""
import math

from terragraph_planner.common.configuration.configs import DeviceData, SectorParams
from terragraph_planner.common.configuration.enums import DeviceType, LocationType, SiteType, StatusType
from terragraph_planner.common.geos import GeoLocation
from terragraph_planner.common.topology_models.demand_site import DemandSite
from terragraph_planner.common.topology_models.link import Link
from terragraph_planner.common.topology_models.site import Site
from terragraph_planner.common.topology_models.topology import Topology

LAT0, LON0 = 45.0, 3.0
M_LAT = math.pi * 6371000.0 / 180.0


def metres(x, y, lat0=LAT0, lon0=LON0):
    """Latitude and longitude of a point given in metres from the origin."""
    lat = lat0 + y / M_LAT
    lon = lon0 + x / (M_LAT * math.cos(math.radians(lat0)))
    return lat, (lon + 180.0) % 360.0 - 180.0 if not -180.0 <= lon <= 180.0 else lon


def device(sku, kind="DN", nodes=None, capex=250.0, **sector):
    return DeviceData(device_sku=sku, sector_params=SectorParams(**sector), node_capex=capex, number_of_nodes_per_site=nodes, device_type=DeviceType[kind])


def sites_of(specs, dns, cns, lat0=LAT0, lon0=LON0):
    """Sites of the specs; a spec that gives an existing site id is moved a little."""
    out, ids = [], set()
    for i, s in enumerate(specs):
        devs = cns if s["t"] == "CN" else dns
        bld = s.get("bld")
        shift = 0.0
        while True:
            lat, lon = metres(s["x"] + shift, s["y"], lat0, lon0)
            site = Site(
                SiteType[s["t"]], GeoLocation(latitude=lat, longitude=lon, altitude=s.get("alt", 10.0)), devs[s.get("dev", 0) % len(devs)], StatusType[s.get("st", "CANDIDATE")],
                LocationType[s.get("lt", "ROOFTOP" if bld is not None else "STREET_LEVEL")], bld, s.get("name", f"s{i}"), s.get("subs"))
            if site.site_id not in ids:
                break
            shift += 1.37
        ids.add(site.site_id)
        out.append(site)
    return out


def may_link(a, b):
    return a.site_id != b.site_id and a.site_type != SiteType.CN and (a.site_type, b.site_type) != (SiteType.POP, SiteType.POP)


def link_status(a, b, wanted):
    """The wanted status, or the nearest one the rules of link statuses allow."""
    s = {a.status_type.name, b.status_type.name}
    for forced in ("UNAVAILABLE", "UNREACHABLE"):
        if forced in s:
            return forced
    if wanted == "EXISTING" and s != {"EXISTING"}:
        wanted = "PROPOSED"
    if wanted == "PROPOSED" and "CANDIDATE" in s:
        wanted = "CANDIDATE"
    return wanted


def topology_of(sites, links, demand=()):
    """links: (i, j, status, wireless); both directions are added where the kinds permit."""
    t = Topology()
    for s in sites:
        t.add_site(s)
    for i, j, status, wireless in links:
        a, b = sites[i % len(sites)], sites[j % len(sites)]
        if a.site_id == b.site_id:
            continue
        status = link_status(a, b, status)
        if wireless and (a.latitude, a.longitude) == (b.latitude, b.longitude):
            continue
        for x, y in ((a, b), (b, a)):
            if may_link(x, y) and t.get_link_by_site_ids(x.site_id, y.site_id) is None:
                t.add_link(Link(x, y, status_type=StatusType[status], is_wireless=wireless))
    for lat, lon in demand:
        t.add_demand_site(DemandSite(GeoLocation(latitude=lat, longitude=lon)))
    return t


def snapshot(t):
    """Everything about sites, sectors and links that a step must not touch (demand excluded)."""
    return dict(
        sites={k: (s.site_type.name, s.latitude, s.longitude, s.altitude, s.device.device_sku, s.status_type.name, s.location_type.name, s.building_id, s.name, s.number_of_subscribers, s.polarity.name) for k, s in t.sites.items()},
        sectors={k: (s.site.site_id, s.node_id, s.position_in_node, s.ant_azimuth, s.status_type.name, s.channel) for k, s in t.sectors.items()},
        links={k: (l.tx_site.site_id, l.rx_site.site_id, l.tx_sector and l.tx_sector.sector_id, l.rx_sector and l.rx_sector.sector_id, l.status_type.name, l.is_wireless, l.confidence_level, l.distance) for k, l in t.links.items()},
    )
