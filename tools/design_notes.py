"""Per property: how it is decided (oracle, generator) and what is out of its reach."""
N = {
"P01": ("Positions over the globe (zone edges, both hemispheres, antimeridian) are converted back and forth; distances, bearings and zones are compared with pyproj's geodesic and projection routines, angle helpers with integer arithmetic on whole turns.",
  "Poles and positions whose zone is ambiguous are left out. An area of interest that straddles a zone edge is handled inconsistently by the planner itself and is not judged."),
"P02": ("Model-based histories of up to 40 edits over a plain set-of-elements model; after every edit all indexes and neighbour lists are recomputed from the model and compared; refused edits must change nothing.", ""),
"P03": ("Own geodesic formulas for length, azimuth and elevation; identifiers of the same sites are computed in a second interpreter with another hash seed and compared.", ""),
"P04": ("A table of every setting (name, default, range) written from the documentation; generated files in both formats are read by the planner and by the table. Round trip through a saved file; equality against attribute-wise comparison.", ""),
"P05": ("Reference formulas (free space loss, gas absorption, rain rate inversion), brute-force choice of the MCS class over the table, and monotonicity relations between neighbouring inputs.", "MCS class 0 rows with a nonzero rate are out of domain."),
"P06": ("The tables are read directly and interpolated by the reference; adding full turns must change nothing; files with injected faults must be refused.", ""),
"P07": ("Tables are written by the generator from known rows (column order, aliases, blanks, quoting, trailing delimiters) and must load to those rows; injected faults must be refused as a whole.", "The location_type column is ignored by the planner and decorated tx_backoff headers are refused; neither is judged."),
"P08": ("Round trip of generated networks through KML/KMZ (and rows through CSV), field by field.", "Wired links are written but skipped on reading, and the number of customers of manual demand points is not stored in KML; links whose ends have one known altitude only are refused by the writer."),
"P09": ("A reference merge over the generated sources (own grouping by place, type and device).", ""),
"P10": ("Rasters and outlines are written with GDAL/fiona from known arrays and polygons, loaded, and compared cell by cell and by area; saving and loading again must preserve them; file-system effects stay in a scratch directory.", "Pixels that are not square are made square by GDAL if they have to be projected, which is not judged. Rasters without reference system are assumed to be in the target zone; cropping may lose one cell; GeoTIFF registration may be half a cell off; an upper-case .ZIP extension is not recognised; courtyards are ignored by to_dhm."),
"P11": ("An independent obstruction test along the beam: every cell of the surface that meets the beam's footprint is compared with the beam's height over it; cases nearer to the decision than the stated tolerance are discarded. Metamorphic: raising the surface never opens a link, swapping ends changes nothing.", ""),
"P12": ("The zone's radius at a cell is computed from first principles; cells in the band between an inner and an outer bound are left open.", "Tilted zones are judged within the deviation (R / half length x slope)^2 of the planner's own approximation; altitudes at corners next to missing cells are not judged."),
"P13": ("Differential: one batch against many, one worker against several, with and without memo, shuffled inputs, all against single-pair evaluation.", ""),
"P14": ("A dictionary of cells as reference for every query; the surface is compared before and after.", ""),
"P15": ("Own point-in-polygon and plane arithmetic; detected sites must lie on the roofs they belong to, at the roof's height and with the spacing asked for.", "Building ids of a base topology and of detected buildings are unrelated; links to clones of clients of earlier buildings count in pick_best."),
"P16": ("The set of feasible links is computed by brute force over all pairs and compared with the network built, base topology and additional sites included.", "Chains of additional sites deeper than two tries are not judged."),
"P17": ("Own placement of grid, manual and customer demand and brute-force attachment.", "Manual and grid points at identical coordinates merge into one; co-located clients with different subscriber counts use one of them."),
"P18": ("Validity conditions on the result (coverage of every wireless link, separation, counts, scan ranges, identifiers) and, for few links, the fewest nodes by exhaustive search.", "Zero-degree scan range is out of domain."),
"P19": ("Brute force over all pairs of links at a site against the angle, length and speed rules; statuses and preparation steps are checked against a reference reading.", "Wired links to clients are refused by the planner; statuses of one-way access links are not looked at."),
"P20": ("Own breadth-first search; exclusion judged by reachability before and after; histories of status changes.", "Isolated active sites with demand have no site type in the search graph; not judged."),
"P21": ("Each failure is played out on an own graph; the second-path question is settled by max-flow on small graphs and by all shortest paths; one-way links included.", "Where several shortest paths tie, either may be the one removed."),
"P22": ("Series/parallel closed forms with sampling error, monotonicity in the availability of links, bounds by the links' own availability within the same history, equality of seeds.", ""),
"P23": ("A reference interference sum over exactly the transmitters that share channel and polarity rules, with own pattern lookups; power and MCS choice re-derived.", "Active wireless links without sectors have no defined budget."),
"P24": ("Recount over the elements and the price list.", "Links that differ only in altitude share a hash and count once; UNAVAILABLE links may or may not count as backup for clients."),
"P25": ("Every row and metric is recomputed from the topology; files are read back.", "KML link styles are not judged; availability is taken from the planner's own simulation run because its history depends on the order of links."),
"P26": ("A linear program written independently (scipy) for the same network: the reported flow must satisfy it and reach its optimum.", "Wired links have infinite cost in the MCS_COST routing of the planner."),
"P27": ("An independent mixed-integer program (exact, HiGHS) gives the optimum for small networks; every rule is checked on the returned plan directly.", "Zero demand in common-bandwidth mode is out of domain; an EXISTING client and its upgrade both stay active; polarity of links without capacity is not judged."),
"P28": ("As P27, with budget and coverage as goals.", "As P27."),
"P29": ("Every single (or double) failure is played out on the plan by own max-flow; cheapest choice by exhaustive enumeration for small networks.", "In the step sub-check polarity is judged only on links that work in both directions and are reached from a source."),
"P30": ("Flow and interference rules are checked on the result; the goal value is compared with an independent exact program over channels and links in small networks.", "Shortage is weighed by total demand in the planner's goal, so links may outweigh shortage in small networks. In common-bandwidth mode the optimum is judged only if all connectable demand can be reached at once."),
"P31": ("The served demand of every set of candidate places is computed by own LP for small networks; the returned set must be among the best of the requested number.", "A forced exact number may displace a co-located client; judged one-sidedly."),
"P32": ("Whole planning runs on generated networks, configurations and files: consistency of the outcome (statuses, capacities, rules, budget), idempotence on a copy, equality with a second process of another hash seed, and equality of the file and in-memory route.", "Networks whose existing elements already break the planner's own rules are refused; ties depend on the order of input links; numbers are compared to 8 digits."),
"P33": ("Whole planning runs with distinct limits for every step, watched at the solver; the solver stand-in is told to stop in a chosen step without an answer or with an answer for a wrong goal. Oracles: the settings; the run without that step; the rule checker of P32.", "The stand-in never looks at the clock, so that the tolerance and the time limit are compared as numbers. The flow analysis after planning is a linear program with a fixed limit and is not stopped."),
"P34": ("Scenes of blocks on a plane are written to files and the whole study is run on them; the straight line between two sites is compared with the blocks directly; in-memory and configuration-file runs are compared.", "Lines near edges, lengths near the limits and links of detected places are not judged; detection uses the centres of buildings only."),
}
COMMON = [
"`OUTPUT_DIR` must exist: the planner does not create it.",
"Cases the solver stand-in cannot decide within its limits are counted under the label \"undecided\" and not judged.",
"Corrected false alarm (P32/P33): the limit of hops was once required of every proposed site; the planner documents it as a soft limit and leaves sites out for it only if they are candidates, so that sites which the input has as proposed are exempt.",
"P10: cells that are not square used to be made square on loading even if they needed no projection; first taken for a false alarm, now repaired and checked at the written file and at the surface loaded from it.",
"Corrected false alarm (P34): the first Fresnel zone of the ellipsoidal model can be thinner than the cells whose centres are looked at, so that a line through a building may be found clear; lines through obstacles are judged there in the cylindrical model only.",
"Other suspicions seen while reading and not confirmed by a failing property: a PROPOSED sector at an EXISTING site costs nothing in the programs but is counted in the cost report; a device without SECTOR_PARAMS ends in a TypeError.",
]
