GEN = "generated-input search over the real code (hypothesis, sharded, shrinking to a JSON replay) against "
TRUST = "Sampled, not exhaustive. "

p("P01", "Geographic conversions and measurements are mutually consistent",
  "Converting a position between geographic, projected and tile coordinates and back returns the same position, and the system always places a position in the zone that contains it. Distances, bearings, angle differences and grid points computed from positions agree with independently computed geodesy within the accuracy of the projection, are symmetric where they should be, and do not depend on the order of the arguments otherwise.",
  ["inputs"], "every position on the globe away from the poles, zone edges and both hemispheres included, and every pair of nearby positions",
  "The tests check a dozen fixed positions; errors appear at zone edges, in the southern hemisphere and at wrap-around angles.",
  ["common/geos.py"],
  [("coordinate conversion and geodesy helpers", "common/geos.py")],
  TRUST + "Trusts pyproj as the reference for geodesy and projection.",
  GEN + "pyproj references, round trips and metamorphic relations")

p("P02", "A topology stays consistent through any sequence of edits",
  "After any sequence of adding and removing sites, sectors, links and demand points, every index, neighbour list and count the topology offers agrees with the elements it holds, and no element refers to one that was removed. An edit that would break this is refused and leaves the topology as it was. Copying or rebuilding a topology from its elements gives an equal, independent topology.",
  ["histories"], "every sequence of edits, refused edits and re-additions included",
  "The tests run single edits on one small fixture; stale indexes need particular edit sequences (remove, re-add, remove).",
  ["common/topology_models/topology.py", "common/topology_models/site.py", "common/topology_models/link.py", "common/topology_models/sector.py", "common/topology_models/demand_site.py"],
  [("element tables and derived indexes", "common/topology_models/topology.py"), ("validation of additions", "common/topology_models/topology.py")],
  TRUST + "Histories up to 40 edits; the model is a plain set of elements.",
  GEN + "a reference model (stateful, model-based histories)")

p("P03", "Link geometry, tags and identifiers follow from the sites alone",
  "A link's length, azimuth and elevation, its wired or wireless kind and its role are determined by its two sites and agree with independent geometry; the opposite link has the opposite direction. Sites and links get identifiers that are equal exactly when what identifies them is equal, are the same in every run and every process, and follow the documented precedence when sites coincide.",
  ["inputs", "configurations"], "every pair of sites (types, statuses, devices, altitudes, co-located or not) and every process hash seed",
  "Tests assert identifiers of a few fixed sites within one process; instability across processes or collisions need other inputs.",
  ["common/topology_models/site.py", "common/topology_models/link.py", "common/utils.py"],
  [("link geometry", "common/topology_models/link.py"), ("site identity and hashing", "common/topology_models/site.py")],
  TRUST + "Reference geometry by pyproj; identifier stability over a second interpreter with another hash seed.",
  GEN + "independent geometry and cross-process differential runs")

p("P04", "A configuration is either rejected or applied exactly as written",
  "Every documented setting given in a configuration file, whatever the letter case of its name and whichever supported file format, takes effect with exactly the given value, and settings left out take their documented defaults, with radio settings shared by all devices. Misspelt names, values outside the documented range and contradictory settings are rejected with a planner error. Two configurations compare equal exactly if all their settings are equal, and saving and reloading one gives an equal one.",
  ["configurations"], "every combination of settings, legal and illegal values, omissions, key spellings and file formats",
  "The tests load three fixed files; a setting wired to the wrong field or not validated in one combination is not among them.",
  ["common/configuration/configs.py", "common/configuration/utils.py", "common/configuration/enums.py"],
  [("parsing and propagation of settings", "common/configuration/configs.py"), ("typo and range checks", "common/configuration/utils.py")],
  TRUST + "The table of settings, defaults and ranges was written from the documentation and template files.",
  GEN + "a table-driven reference reading of the configuration")

p("P05", "Link budget obeys radio physics and the rate table",
  "For every radio and distance the reported received power, noise ratio, rate class and capacity satisfy the documented link-budget equations: power and capacity never rise with distance, loss, rain or fade margin, never fall with gain or transmit power, and the rate class is the highest whose threshold is met. Transmit power never exceeds the device, regulatory and back-off limits. A link that meets no rate class has zero capacity and no link reports a capacity its noise ratio does not support.",
  ["inputs", "configurations"], "every distance, altitude, radio parameter set, rate table (with and without transmit back-off), availability target and scan loss",
  "Tests compare a handful of numbers; monotonicity and threshold selection are statements about all inputs.",
  ["common/rf/link_budget_calculator.py"],
  [("propagation losses", "common/rf/link_budget_calculator.py"), ("rate class and transmit power selection", "common/rf/link_budget_calculator.py")],
  TRUST + "Reference formulas follow docs/rf_modeling and the cited ITU recommendations.",
  GEN + "reference formulas, brute-force rate selection and monotonicity relations")

p("P06", "Antenna patterns give the loss of the angle asked for",
  "The gain or loss looked up for an angle off boresight is that of the loaded pattern at that angle, interpolated as documented, symmetric where the pattern is, and never rises for a symmetric single-lobe pattern when moving off boresight. The loss between two sectors is the combination of horizontal and vertical losses at both ends and does not depend on adding full turns to any bearing. Pattern and scan files load to exactly the values they contain, and malformed ones are rejected.",
  ["inputs", "configurations"], "every angle (any multiple of a turn), every pattern and scan table, every pair of sectors",
  "Tests look up a few table entries; errors at wrap-around and between entries need other angles.",
  ["common/rf/link_budget_calculator.py", "common/data_io/patterns.py"],
  [("pattern lookup and deviation", "common/rf/link_budget_calculator.py"), ("pattern and scan file readers", "common/data_io/patterns.py")],
  TRUST + "The reference lookup is a direct reading of the tables.",
  GEN + "a direct table reading and rotation relations")

p("P07", "Tables of sites, links and rates load to exactly what they say",
  "Every valid row of a site, link or rate table becomes one element with the values given, whatever the column order, accepted column names, letter case and blank optional fields. Rows with missing or impossible values are rejected with a planner error that stops the load rather than changing the data. Rate tables come out in an order usable for lookup.",
  ["inputs"], "every table: column orders, aliases, blank cells, types, precision, extra columns, and every kind of malformed row",
  "The tests read a few fixture files with one layout each.",
  ["common/data_io/csv_library.py", "common/data_io/data_key.py", "common/data_io/utils.py"],
  [("table readers", "common/data_io/csv_library.py"), ("column names and value conversion", "common/data_io/data_key.py")],
  TRUST,
  GEN + "the generated rows (write, load, compare)")

p("P08", "Saving a topology and loading it back preserves it",
  "A topology written to the map or table format and read back has the same sites, links and demand points with the same types, statuses, devices, heights and confidence, in either container format. Names and other text survive, whatever characters they contain.",
  ["inputs"], "every topology: types, statuses, missing altitudes, unusual names, co-located sites, one-way links",
  "Tests round-trip two fixtures with plain names and complete data.",
  ["common/data_io/kml_library.py", "common/data_io/topology_serializer.py"],
  [("map writer", "common/data_io/topology_serializer.py"), ("map reader", "common/data_io/kml_library.py")],
  TRUST,
  GEN + "round trips")

p("P09", "Input sites from several sources merge without loss or invention",
  "When sites come from several files, each distinct site appears once with the values of its first source, conflicting or duplicate sites are resolved the same way whatever the order of unrelated rows, and the counts of each type are those of the input. A site given without height or location kind gets them from the terrain, surface and buildings at its position by the documented rules. Nothing about a site that was given explicitly is changed.",
  ["inputs"], "every set of input sites, with duplicates, across files and formats, over every terrain and building layout",
  "Tests use a fixed list of three sites and one raster.",
  ["common/data_io/input_sites.py", "common/data_io/input_sites_loader.py", "los/helper.py"],
  [("merging", "common/data_io/input_sites.py"), ("loading", "common/data_io/input_sites_loader.py"), ("location inference", "los/helper.py")],
  TRUST,
  GEN + "a reference merge and rule table")

p("P10", "Rasters and building outlines load, convert and save faithfully",
  "An elevation file written and read back gives the same values at the same positions with the same resolution and projection, several tiles join into one surface that agrees with each tile, and cropping to a boundary keeps exactly what lies in it. Building outlines load to the same shapes in every supported container. Unsupported or inconsistent files are rejected with a planner error.",
  ["inputs"], "every raster size, resolution, offset, zone, tile layout and missing-data pattern, and every outline set and container",
  "Tests read one tiny raster and one outline file.",
  ["common/data_io/elevation_loader.py", "common/data_io/elevation_rules.py", "common/data_io/building_group_loader.py", "common/data_io/building_group_rules.py", "los/elevation.py"],
  [("raster reader and writer", "common/data_io/elevation_loader.py"), ("outline reader", "common/data_io/building_group_loader.py")],
  TRUST + "GDAL is trusted to store what it is given.",
  GEN + "round trips and per-cell references")

p("P11", "Beam line-of-sight verdicts match the geometry of the beam",
  "The confidence that a straight beam between two sites is clear agrees with checking every surface cell within the beam's radius: full confidence when nothing reaches the beam, none when something reaches its axis, and in between otherwise. Pairs outside the allowed distance or elevation range are never connected. The verdict is the same in both directions.",
  ["inputs"], "every surface, pair of sites, beam radius and range limits",
  "Tests use two synthetic surfaces; which cells are examined depends on direction, resolution and position within a cell.",
  ["los/cylindrical_los_validator.py", "los/base_los_validator.py", "los/elevation.py"],
  [("obstruction test along the beam", "los/cylindrical_los_validator.py"), ("range limits", "los/base_los_validator.py")],
  TRUST + "Bounds around discretisation: verdicts are judged only where the geometry is clear-cut.",
  GEN + "a brute-force examination of all cells")

p("P12", "Fresnel-zone line-of-sight verdicts match the zone's geometry",
  "With the Fresnel-zone model, the confidence that a link is clear agrees with checking every surface cell against the ellipsoid around the path for the configured frequency: full when nothing enters the zone, none when the direct path is blocked, and in between otherwise, never rising when obstructions grow. The zone's radius follows the documented formula at every point of the path. The verdict is the same in both directions.",
  ["inputs"], "every surface, pair of sites, frequency and threshold",
  "Tests examine one path over one surface.",
  ["los/fresnel_zone.py", "los/ellipsoidal_los_validator.py"],
  [("zone geometry", "los/fresnel_zone.py"), ("verdict", "los/ellipsoidal_los_validator.py")],
  TRUST + "Judged only where the geometry is clear-cut relative to the raster resolution.",
  GEN + "a brute-force examination of all cells")

p("P13", "Batch line-of-sight results do not depend on how the work is done",
  "Computing line of sight for many pairs gives, for each pair, the same verdict as computing it alone, whatever the order of the pairs, the number of processes, the use of the exclusion zones' order and repeated pairs. Raising the surface never turns a blocked link clear, and raising the required confidence never adds links. Exclusion areas block exactly the links that pass through them.",
  ["inputs", "schedules"], "every list of pairs, order, batch split, process count, exclusion area and pair of surfaces ordered cell by cell",
  "Tests run one batch with fixed order.",
  ["los/core.py", "los/helper.py", "los/base_los_validator.py"],
  [("batching and memoisation", "los/helper.py"), ("worker processes", "los/core.py")],
  TRUST,
  GEN + "differential runs (single against batch, split against whole) and metamorphic relations")

p("P14", "Surface queries return the cells asked for and change nothing",
  "A surface value query returns the value of the cell nearest to the position, or, where that cell is missing, the documented stand-in (nearest valid cell within reach, else the average); area and list queries return exactly the cells in the area. Resampling, combining and differencing surfaces agree with doing it cell by cell. No query changes the surface.",
  ["inputs", "histories"], "every surface, position, line and area, missing data and edges included, in any order of queries",
  "Tests query interior cells of one raster.",
  ["los/elevation.py"],
  [("value and profile queries", "los/elevation.py")],
  TRUST,
  GEN + "a plain two-dimensional array as the model")

p("P15", "Buildings yield mounting sites on their own roofs",
  "Each outlined building yields candidate sites that lie on that building, at the roof height the surface shows there and on the documented features (highest point, centre, corners) that are switched on. Each building's height, corners and containment answers agree with its outline and the surface. The set of sites found does not depend on the other buildings or their order.",
  ["inputs", "configurations"], "every outline polygon, surface, detection setting and order of buildings",
  "Tests use one or two rectangles.",
  ["los/building.py", "los/building_group.py", "los/helper.py"],
  [("site detection", "los/building.py"), ("outline preprocessing", "los/building_group.py")],
  TRUST + "shapely is trusted for polygon predicates.",
  GEN + "geometric invariants and reference computations")

p("P16", "The candidate network contains exactly the feasible links",
  "The candidate network built from sites and line-of-sight results contains a link in each direction that the kinds of the two sites permit whenever their distance, line of sight, device range and elevation satisfy the settings, and no other link. The range of each device pair is the first whole distance in metres at which its link budget carries no traffic in either direction, capped by the settings. Choosing among the detected sites on one building keeps its best-connected one, plus additional ones needed to reach otherwise unconnected customers, and never drops a site the user supplied.",
  ["inputs", "configurations"], "every set of sites, device list, line-of-sight table and range settings",
  "Tests run one neighbourhood; the boundary distances and type combinations are not exercised.",
  ["los/core.py", "los/helper.py"],
  [("pair selection and range", "los/helper.py"), ("network construction", "los/core.py")],
  TRUST,
  GEN + "a brute-force pair enumeration")

p("P17", "Demand is placed and attached exactly as the demand settings say",
  "Each demand model that is switched on contributes demand at exactly the documented positions: one per subscriber site location with the number of subscribers there, one per grid point within the area covered, and one per manual point; each is attached to exactly the sites in reach, including those sharing its building. Demand volumes follow the per-subscriber and per-point settings. Applying the models leaves sites and links unchanged.",
  ["inputs", "configurations"], "every topology and demand setting, co-located sites and sites on shared buildings included",
  "Tests use one fixture per model.",
  ["optimization/topology_demand.py"],
  [("demand models", "optimization/topology_demand.py")],
  TRUST,
  GEN + "a brute-force reference placement")

p("P18", "Sectors cover every link within their limits",
  "After sectors are created, every wireless link that is kept has a sector at each end belonging to the right site, its beam within that sector's horizontal range, wired links have none, and no site has more sectors or radio nodes than its device allows. A sector's reported deviation is the angle between the link and its boresight. Existing equipment keeps its sectors and directions.",
  ["inputs", "configurations"], "every site with every set of link bearings, device shapes and existing equipment",
  "Tests use a few bearings; wrap-around and crowded sites are not covered.",
  ["optimization/topology_preparation.py", "common/topology_models/sector.py"],
  [("sector creation and assignment", "optimization/topology_preparation.py")],
  TRUST,
  GEN + "angular geometry invariants")

p("P19", "Deployment rules forbid exactly the too-narrow link pairs",
  "Two links leaving a site are declared incompatible exactly if the angle between them (or, for the far-near rule, angle and length ratio) violates the configured limits for their sector relationship and site kinds. Capacities assigned to links are those of their link budget with the sectors in place, and preparing a network changes no site and no feasible link. Inconsistent inputs are refused before planning starts.",
  ["inputs", "configurations"], "every site with every set of outgoing links and every limit setting",
  "Tests evaluate one layout per rule.",
  ["optimization/deployment_rules.py", "optimization/topology_preparation.py"],
  [("link pair rules", "optimization/deployment_rules.py"), ("preparation", "optimization/topology_preparation.py")],
  TRUST,
  GEN + "a brute-force pairwise reference")

p("P20", "Reachability, hop counts and exclusions are those of the graph",
  "The number of hops from the sources to each site is the length of the shortest path over the links considered, and a site is excluded as unreachable exactly if no such path exists within the hop limit. Source capacity is the sum of what its radios and wires can carry, up to the configured limit. Excluding sites changes no other site and can be undone.",
  ["inputs"], "every directed network, status assignment, source set and hop limit",
  "Tests use graphs of five sites.",
  ["optimization/topology_networkx.py", "optimization/topology_operations.py"],
  [("graph construction and search", "optimization/topology_networkx.py"), ("exclusion", "optimization/topology_operations.py")],
  TRUST,
  GEN + "an independent breadth-first search")

p("P21", "Disruption analysis reports exactly what a failure disconnects",
  "For every single site or link failure the reported disconnected demand is exactly the demand that has no path left from any source; demand reported as having disjoint paths really survives the loss of any one backhaul link on its shortest path. The analysis leaves the network graph unchanged, so repeating it gives the same answer.",
  ["inputs", "fault_sequences"], "every network and every single site or link failure",
  "Tests look at one hand-made graph.",
  ["optimization/topology_networkx.py"],
  [("failure enumeration", "optimization/topology_networkx.py"), ("disjoint paths", "optimization/topology_networkx.py")],
  TRUST,
  GEN + "enumeration of all single failures by an independent search")

p("P22", "Availability estimates are possible, repeatable and ordered",
  "The estimated availability of every demand site lies between that of its best single path and that of the whole network never failing, is one when no link can fail and zero when it has no path, and is repeatable. It agrees with the exact value on small networks within sampling error. Adding a link never lowers it beyond sampling error.",
  ["inputs", "fault_sequences"], "every network and link failure rate, over every combination of failed links",
  "Tests check two numbers on one network.",
  ["optimization/topology_availability.py"],
  [("failure simulation", "optimization/topology_availability.py")],
  TRUST + "Statistical comparison with bounds wide enough never to alarm by chance.",
  GEN + "exact enumeration of failure combinations")

p("P23", "Interference is summed over exactly the interfering transmitters",
  "The interference on a link is the power sum over the active transmitters on the same channel whose polarity interferes, each attenuated by distance and by both antennas' off-beam losses, and the resulting noise ratio is the received power over noise plus that sum. A sector counts with the mean power of the active links it may be sending on. A sector that starts transmitting never raises another link's noise ratio, and without any interferer the rate is that of the plain link budget. Rates and capacities after interference never exceed those before.",
  ["inputs"], "every layout of active links, channels, polarities and patterns",
  "Tests use one layout of three links.",
  ["optimization/topology_interference.py", "common/rf/link_budget_calculator.py"],
  [("interfering links and power sum", "optimization/topology_interference.py")],
  TRUST,
  GEN + "an independent summation from the documented formulas")

p("P24", "Counts and costs add up",
  "The number of candidate, proposed, existing and active sites, sectors, nodes and links of each kind and the capital costs in the report equal what one gets by counting and pricing the elements of the network one by one. Candidates that share a place count once. The proposed cost leaves out existing equipment, the total cost includes it.",
  ["inputs", "configurations"], "every network, status assignment and price setting",
  "Tests compare totals for a few fixtures.",
  ["optimization/topology_component_counter.py", "optimization/topology_report.py"],
  [("component counts", "optimization/topology_component_counter.py"), ("metrics", "optimization/topology_report.py")],
  TRUST,
  GEN + "element-by-element recounts")

p("P25", "Reports state the plan that was computed",
  "Every row of the site, link, sector and flow outputs carries the values of the element it names, every active element appears once, and the metrics are functions of the reported plan: coverage, throughput, hop counts, service ratios, outages, link lengths and margins. Writing reports does not change the plan. Metrics with nothing to average over are reported as empty rather than failing, and a plan without any usable source or demand is refused with the planner's own error.",
  ["inputs"], "every planned network, empty and fully disconnected ones included",
  "Tests compare a few output files for one plan.",
  ["optimization/topology_report.py", "optimization/topology_optimization.py"],
  [("output rows and metrics", "optimization/topology_report.py")],
  TRUST,
  GEN + "recomputation of rows and metrics from the plan")

p("P26", "Reported traffic is feasible and optimally shared",
  "The traffic assigned to links of a plan conserves flow at every site, respects every link capacity, air-time share and source capacity, uses only active elements, and delivers to all connected demand the largest common amount that any feasible assignment could deliver. With a routing rule, only links on the shortest (or cheapest) routes carry traffic. Losing a source or a link never raises the common amount while the same customers stay connected.",
  ["inputs"], "every active network with capacities, sources and demand",
  "Tests solve five small networks with known answers.",
  ["optimization/ilp_models/flow_optimization.py", "optimization/ilp_models/network_optimization.py"],
  [("flow model", "optimization/ilp_models/flow_optimization.py")],
  TRUST + "The commercial solver is replaced by an exact stand-in (HiGHS); the model given to it is the repository's own.",
  GEN + "an independently written flow program and invariants of the result")

p("P27", "The cheapest plan meets the coverage and every network rule",
  "The plan chosen to minimise cost satisfies the rules of the network: one active choice per place, sectors only on active sites, both directions of a link active together, air-time, source-capacity and polarity limits, and enough flow to meet the requested coverage (lowered in steps of 10 % down to a half when it cannot be met) or the largest common amount. By the planner's own measure, in which a chosen site brings all its candidate radio nodes, no other plan satisfying these rules and this coverage is cheaper. Existing equipment stays active and unreachable or failed equipment is never used.",
  ["inputs", "configurations"], "every small candidate network with prices, rules, existing equipment and coverage request",
  "Tests solve a few designed networks; the optimum over all selections is not checked.",
  ["optimization/ilp_models/cost_optimization.py", "optimization/ilp_models/network_optimization.py", "optimization/ilp_models/optimization_setup.py"],
  [("cost model", "optimization/ilp_models/cost_optimization.py"), ("shared constraints", "optimization/ilp_models/network_optimization.py")],
  TRUST + "Exact stand-in solver; optimality is judged against enumeration on tiny networks.",
  GEN + "an independent rule checker and brute-force enumeration of plans")

p("P28", "The best-coverage plan stays within budget and serves the most",
  "The plan chosen to maximise coverage costs no more than the budget by the planner's own measure, keeps the network rules and everything already decided (a client may be raised to a relay at its place), and no plan within the budget leaves less demand unserved; links chosen as the most disruptive carry no traffic in this measure. Raising the budget never lowers coverage. With a budget that pays for everything useful, coverage equals that of the full network.",
  ["inputs", "configurations"], "every small candidate network, budget and starting plan",
  "Tests solve two networks.",
  ["optimization/ilp_models/coverage_optimization.py", "optimization/topology_optimization.py"],
  [("coverage model", "optimization/ilp_models/coverage_optimization.py")],
  TRUST + "Exact stand-in solver.",
  GEN + "an independent rule checker, enumeration of plans and budget monotonicity")

p("P29", "Redundant plans survive the failures they were planned for",
  "When redundancy is requested, the resulting plan contains the starting plan and, within what the candidate network allows, the number of ways of the requested level that are disjoint in links, relays or sources (as the level says) for each source-connected relay site; what is missing is as little as possible, and no cheaper addition is as good. Adding redundancy never adds sources, never removes or deactivates equipment of the starting plan, never activates unreachable equipment and keeps the network rules. The links set aside as not useful do not lower the number of ways. Without any candidate for extra paths the plan is unchanged.",
  ["inputs", "configurations"], "every small candidate network, starting plan and redundancy level",
  "Tests solve three hand-made networks.",
  ["optimization/ilp_models/redundancy_optimization.py"],
  [("redundant flow models", "optimization/ilp_models/redundancy_optimization.py")],
  TRUST + "Exact stand-in solver.",
  GEN + "independent disjoint-path counts by maximum flow")

p("P30", "Channel and polarity choices lower interference without breaking the plan",
  "The step that assigns links, channels and polarities keeps existing links and every site with links or demand, sends nothing through sites that are not part of the plan, and keeps the rules: both directions together, one channel and opposite polarities at the ends of a link, the limits of links per sector and of one link per client, the minimum angles between links on one channel, all sectors of a radio node in use together on configured channels, rates that the signal over noise and same-channel interference allow, and air-time shares. No other choice that keeps these rules is better by the planner's own measure, which weighs missing demand with the whole demand and prefers more and shorter links.",
  ["inputs", "configurations"], "every small planned network and channel count",
  "Tests solve a few layouts with one expected answer.",
  ["optimization/ilp_models/interference_optimization.py", "optimization/topology_interference.py"],
  [("interference model", "optimization/ilp_models/interference_optimization.py")],
  TRUST + "Exact stand-in solver.",
  GEN + "a rule checker and enumeration of assignments")

p("P31", "Proposed sources are the best of the requested number",
  "Asked to propose a number of sources, the system adds at most that many candidate sources beside candidate relays, never two at one place nor beside a source or a decided relay, and never touches what was there. No other choice of that many could leave less demand unserved when every client is served in one hop, which is its own measure; existing sources are kept in it. A new source has the radios, links (wired ones included) and demand of its relay, with unusable ones staying unusable. When nothing can be proposed, or nothing is asked for, the network stays as it was and planning goes on; without any source it is refused.",
  ["inputs", "configurations"], "every candidate network and requested number",
  "Tests solve two networks.",
  ["optimization/ilp_models/pop_proposal_optimization.py"],
  [("source proposal model", "optimization/ilp_models/pop_proposal_optimization.py")],
  TRUST + "Exact stand-in solver.",
  GEN + "enumeration of choices and invariants")

p("P32", "A whole planning run turns any valid network into a consistent plan",
  "From any valid input network and settings, a planning run ends with a plan and its outputs, in which active elements form a network satisfying all rules, everything the user marked as existing is active and everything marked unavailable is not, and the written files agree with each other and with the plan. Running it again on the same input gives the same plan. Input files are never modified.",
  ["inputs", "configurations"], "every valid input network and settings",
  "Tests run the pipeline on one or two networks and need the commercial solver.",
  ["optimization/topology_optimization.py", "optimization/topology_operations.py", "optimization/topology_preparation.py"],
  [("planning pipeline", "optimization/topology_optimization.py")],
  TRUST + "Exact stand-in solver; small networks only.",
  GEN + "a rule checker over plan and output files and repeated runs")

p("P33", "Each planning step keeps its own solver limits and survives an early stop",
  "Each planning step that is part of a run, and no other, is solved within exactly the time limit and tolerance set for that step and the number of threads set for all, the time limit being final. If a step finds nothing in time, the proposal of sources, the added coverage and the added redundancy are left out as if not asked for, the cheapest network is sought with less coverage, and a run left without a cheapest network or without a choice against interference is refused with an explanation that names the time. A plan made from answers that are not the best ones meets all rules.",
  ["inputs", "configurations", "fault_sequences"], "every valid input network and settings and every step at which the solver stops",
  "Tests use the solver until it has the best answer, and no test looks at the limits it is given.",
  ["optimization/topology_optimization.py", "optimization/ilp_models/network_optimization.py", "optimization/ilp_models/site_optimization.py", "optimization/ilp_models/redundancy_optimization.py", "optimization/ilp_models/interference_optimization.py"],
  [("planning pipeline", "optimization/topology_optimization.py"), ("solver set-up", "optimization/ilp_models/network_optimization.py")],
  TRUST + "Stand-in solver that is told to stop without or with an answer; limits are compared with the settings and not with the clock.",
  GEN + "the settings of each step, a differential run without the step that was stopped, and a rule checker over the plan")

p("P34", "A study from input files yields the candidate network of the scene",
  "A study run on input files - boundary, elevation rasters in every combination from which a surface can be formed, input sites, building outlines - places each input site inside the boundary at its given altitude, or its given or default height above the surface the rasters describe, tells roofs from street level where ground and surface are known, and puts one place on each building if asked to detect sites. Two sites within range whose kinds permit it are linked if the straight line between them keeps clear of ground and obstacles, they are not linked if it passes through an obstacle, and no other site appears. A run from a configuration file gives the same network, writes it into the output folder that is configured, and sites are never detected without a device for them.",
  ["inputs", "configurations"], "every scene of ground, obstacles, sites and outlines and every combination of elevation files, resolutions and line-of-sight settings",
  "No test runs the study as a whole, and none combines elevation files of different resolutions that were read from disk.",
  ["los/core.py", "los/helper.py", "los/elevation.py", "common/data_io/elevation_loader.py", "common/utils.py"],
  [("candidate network study", "los/core.py"), ("combining elevation", "los/elevation.py")],
  TRUST,
  GEN + "the geometry of the scene, computed directly, and a differential run from a configuration file")
