# What each property's check runs: harness entries, bounds, assumptions.
HARNESS = {
    "coord": {},
    "geom": {},
    "graph": {},
    "vis": {},
    "gen": {},
    "conc": {"threads": True},
    "serial": {"wrap": ["open", "close", "ftruncate", "fstat", "mmap", "munmap", "msync"]},
    "paths": {"wrap": ["_ZNK10Coordinate9magnitudeEv", "_ZNK11LineSegment7projectERK10Coordinatef", "_ZNK16VistreeGenerator20get_visible_verticesERK10Coordinateb", "_ZN19SpatialSegmentIndexC1ERKSt6vectorI7PolygonSaIS1_EE",
                       "_ZNK19SpatialSegmentIndex18is_point_containedERK10Coordinate", "_ZNK19SpatialSegmentIndex23intersect_with_segmentsERK11LineSegment", "_ZNK19SpatialSegmentIndex24closest_segment_to_pointERK10Coordinate",
                       "_ZNK19SpatialSegmentIndex35does_segment_intersect_with_segmentsERK11LineSegment"]},
}
HARNESS["bind"] = {"deps": ["../bindings.cpp"],
                   "wrap": ["_ZN19SpatialSegmentIndexC1ERKSt6vectorI7PolygonSaIS1_EE", "_ZNK20ShortestPathComputer13shortest_pathERK10CoordinateS2_dbd", "_ZNK20ShortestPathComputer14shortest_pathsERKSt6vectorISt4pairI10CoordinateS2_ESaIS3_EEdbd",
                            "_ZNK16VistreeGenerator20get_visible_verticesERK10Coordinateb", "_ZN17VisgraphGenerator8generateERKSt6vectorI7PolygonSaIS1_EE", "_ZN17VisgraphGenerator28generate_with_shuffled_rangeERKSt6vectorI7PolygonSaIS1_EEmmj",
                            "_ZN15GraphSerializer17serialize_to_fileERKSt10shared_ptrI5GraphERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZN15GraphSerializer21deserialize_from_fileERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
                            "_Z12merge_graphsRKSt6vectorISt10shared_ptrI5GraphESaIS2_EE"]}
HARNESS["sphere"] = {"shadow": ["s2"]}
HARNESS["pathst"] = {"src": "paths", "threads": True, "wrap": HARNESS["paths"]["wrap"]}
HARNESS["route"] = {"wrap": [w for w in HARNESS["paths"]["wrap"] if "VistreeGenerator" not in w] + HARNESS["serial"]["wrap"]}
ALLSCH = "every interleaving at lock operations"
SCH1 = "every interleaving with at most one switch of threads where one could go on"
SCH2 = "every interleaving with at most two switches of threads where one could go on"
THREADS = ["sequential consistency between synchronisation points; accesses not ordered by locks, forks, joins or barriers are reported as races whatever the values", "the OpenMP runtime is replaced: iterations of dynamic loops go to any thread that asks, static ones as OpenMP lays down"]
S2MODEL = ["the S2 library, present only as compiled code, is replaced by a model of the types and options capi uses (engine/s2); the spherical geometry itself (distances, containment, crossings, projections) is any answer"]
MAP = "every position of the map and its +-1 period copies (|lon| <= 540000001, |lat| <= 90000000 microdegrees)"


def E(h, entry, about, bounds=MAP, **k):
    d = {"harness": h, "entry": entry, "about": about, "bounds": bounds}
    d.update(k)
    return d


PROPS = {
    "C01": {
        "bounds": "every coordinate on the map and its +-1 period copies",
        "entries": [
            E("coord", "c01_roundtrip", "degrees read from a coordinate build an equal coordinate", reach=["mid"]),
            E("coord", "c01_degrees", "each component within a microdegree of the degrees given, components not exchanged", "degrees k*2^-20 over the map"),
        ],
    },
    "C02": {
        "bounds": "all coordinates on the map and its copies, differences of them for products, scale factors k*2^-30 of magnitude at most 4",
        "entries": [
            E("coord", "c02_arith", "sums, differences, negation, equality"),
            E("coord", "c02_products", "dot product, cross product, squared magnitude"),
            E("coord", "c02_hash", "equal coordinates have equal hashes"),
            E("coord", "c02_scale", "multiplication by a scalar", "scale factors k*2^-30, |factor| <= 4"),
        ],
    },
    "C03": {
        "bounds": MAP,
        "entries": [
            E("geom", "c03_orientation", "orientation of three positions is the sign of the cross product"),
            E("geom", "c03_parallel", "two vectors are parallel exactly when their cross product is zero"),
            E("geom", "c03_factor", "scalar factor of parallel vectors"),
            E("geom", "c03_on_segment", "on a segment exactly when collinear and within the bounding box", reach=["end", "on"]),
        ],
    },
    "C04": {
        "bounds": MAP,
        "entries": [
            E("geom", "c04_decide", "two segments meet exactly when they share a point; any listing of the end points", reach=["meet", "miss"]),
            E("geom", "c04_locate", "the reported point is within a microdegree of the crossing"),
            E("geom", "c04_parallel", "parallel segments meet only in a common end point", reach=["end", "touch"]),
            E("geom", "c04_endpoint", "segments with a common end point meet there"),
            E("geom", "c04_adjacent", "the other end point of a segment", reach=["adj", "throw"]),
        ],
    },
    "C05": {
        "budget": {"quick": 300},
        "bounds": "up to 3 free positions anywhere on the map and copies, and 12 positions of which 2 are free",
        "entries": [
            E("geom", "c05_sort0", "empty and one-element lists"),
            E("geom", "c05_sort2", "two positions and the observer"),
            E("geom", "c05_sort3_small", "three positions in a small window"),
            E("geom", "c05_sort_many", "12 positions, 2 of them free", "ten fixed directions plus free positions"),
            E("geom", "c05_sort3", "three positions and the observer", timeout=120),
        ],
    },
    "C06": {
        "budget": {"quick": 300},
        "bounds": "outlines of up to 3 free vertices over the whole map (4 and 5 in a window of +-2; thorough: 4 over the whole map), any run of repeated/straight vertices on a free square, winding of all simple quadrilaterals and L shapes",
        "entries": [
            E("geom", "c06_poly12", "outlines of fewer than three vertices", reach=["built", "end"]),
            E("geom", "c06_runs", "runs of repeated and straight vertices", "a square anywhere, each corner in 4 variants, 2 rotations, both ways round", reach=["built", "end"]),
            E("geom", "c06_wind3", "winding of triangles"),
            E("geom", "c06_windL", "winding of L shapes"),
            E("geom", "c06_poly4_small", "four vertices", "offsets at most 2", reach=["built", "end"]),
            E("geom", "c06_poly3", "three free vertices", reach=["built", "end"], timeout=120),
            E("geom", "c06_wind4", "winding of simple quadrilaterals", timeout=120),
            E("geom", "c06_poly5_small", "five vertices", "offsets at most (2,1)", reach=["built", "end"], thorough_only=True, timeout=600),
            E("geom", "c06_poly4", "four free vertices", reach=["built", "end"], thorough_only=True, timeout=1500),
        ],
    },
    "C07": {
        "bounds": "all 32 bit longitudes for single coordinates; lists of up to 2 coordinates, segments or polygons of 3 to 4 vertices anywhere on the map",
        "entries": [
            E("geom", "c07_normalise", "normalising a coordinate", "all 32 bit longitudes"),
            E("geom", "c07_copies", "periodic copies of a coordinate"),
            E("geom", "c07_lists", "periodic copies of coordinate and segment lists", "lists of 0 to 2"),
            E("geom", "c07_polygons", "periodic copies of polygon lists", "0 to 2 polygons of 3 to 4 vertices, anywhere"),
        ],
    },
    "C08": {
        "budget": {"quick": 300},
        "bounds": "observers anywhere on the map and copies off land around each of four scenes of 6 to 11 vertices (sceneC: a box around it), and within 60 degrees of the meridian for scenes beyond it; observers at every vertex of five scenes (two of them with a vertex common to two or three polygons) in which one corner is anywhere in a box of 3 to 17 degrees",
        "entries": [
            E("vis", "c08_flat", "long obstacles seen at a flat angle", "observer anywhere in a box of 2900 x 1200 around the scene"),
            E("vis", "c08_island", "observer is a vertex; the apex of an island is free", "10 vertices, apex anywhere in 5 x 3 degrees"),
            E("vis", "c08_two", "two obstacles, free observer"),
            E("vis", "c08_notch", "observer is a vertex; a corner that is reflex or not is free", "8 vertices, corner anywhere in 10 x 11 degrees"),
            E("vis", "c08_shared", "observer is a vertex, perhaps the one common to two polygons; a corner of one of them is free", "11 vertices, corner anywhere in 9 x 7 degrees"),
            E("vis", "c08_three_shared", "the same with a vertex common to three polygons", "9 vertices, corner anywhere in 8 x 4 degrees"),
            E("vis", "c08_apex", "observer is a vertex; the apex of a triangle among three obstacles is free", "10 vertices, apex anywhere in 17 x 9 degrees"),
            E("vis", "c08_east", "two obstacles just beyond longitude 180", "observer anywhere in the 60 degrees before it"),
            E("vis", "c08_east_wide", "two wide obstacles beyond longitude 180", "observer anywhere in the 60 degrees before it"),
            E("vis", "c08_west_wide", "two wide obstacles beyond longitude -180", "observer anywhere in the 60 degrees after it"),
            E("vis", "c08_touching", "obstacles with a vertex in common, free observer", timeout=120),
            E("vis", "c08_bay", "a bay with an island at its mouth, free observer", timeout=120),
        ],
    },
    "C09": {
        "budget": {"quick": 400},
        "bounds": "as C08",
        "entries": [
            E("vis", "c09_flat", "long obstacles seen at a flat angle", "observer anywhere in a box of 2900 x 1200 around the scene"),
            E("vis", "c09_half_flat", "half scan of the same"),
            E("vis", "c09_island", "observer is a vertex; the apex of an island is free", "10 vertices, apex anywhere in 5 x 3 degrees"),
            E("vis", "c09_half_island", "half scan of the same"),
            E("vis", "c09_two", "two obstacles, free observer"),
            E("vis", "c09_half_two", "half scan of the same"),
            E("vis", "c09_notch", "observer is a vertex; a corner that is reflex or not is free", "8 vertices, corner anywhere in 10 x 11 degrees"),
            E("vis", "c09_half_notch", "half scan of the same", timeout=120),
            E("vis", "c09_shared", "observer is a vertex, perhaps the one common to two polygons; a corner of one of them is free", "11 vertices, corner anywhere in 9 x 7 degrees"),
            E("vis", "c09_three_shared", "the same with a vertex common to three polygons", "9 vertices, corner anywhere in 8 x 4 degrees"),
            E("vis", "c09_apex", "observer is a vertex; the apex of a triangle among three obstacles is free", "10 vertices, apex anywhere in 17 x 9 degrees"),
            E("vis", "c09_half_apex", "half scan of the same", timeout=120),
            E("vis", "c09_east_wide", "two wide obstacles beyond longitude 180", "observer anywhere in the 60 degrees before it"),
            E("vis", "c09_half_east", "half scan of two obstacles just beyond longitude 180", "observer anywhere in the 60 degrees before it"),
            E("vis", "c09_west_wide", "two wide obstacles beyond longitude -180", "observer anywhere in the 60 degrees after it"),
            E("vis", "c09_touching", "obstacles with a vertex in common, free observer", timeout=120),
            E("vis", "c09_bay", "a bay with an island at its mouth, free observer", timeout=120),
            E("vis", "c09_half_bay", "half scan of the same", thorough_only=True, timeout=300),
            E("vis", "c09_half_touching", "half scan of the touching scene", thorough_only=True, timeout=300),
        ],
    },
    "C10": {
        "budget": {"quick": 300},
        "bounds": "eight scenes of 1 to 3 polygons (up to 11 vertices) on both sides of, along and on the meridian: every translation within 0.3 degrees of longitude (two entries) and 30 of latitude; one corner of a scene moving along a line or anywhere in a box",
        "assumptions": ["lines that graze an obstacle (touch it without entering) are neither required nor forbidden", "loop iterations run in order here (C22 decides the schedules)"],
        "entries": [
            E("gen", "c10_few", "one or two polygons anywhere"),
            E("gen", "c10_places", "three polygons anywhere: far apart, a wall along the meridian, a common vertex"),
            E("gen", "c10_meridian", "polygons with vertices and edges exactly on the meridian, at any latitude"),
            E("gen", "c10_along", "a corner moves along the meridian"),
            E("gen", "c10_near", "a corner moves away from the meridian"),
            E("gen", "c10_apex", "a corner moves along the meridian side of a polygon"),
            E("gen", "c10_wall", "a corner of a wall moves along it"),
            E("gen", "c10_touching", "a corner moves past two polygons that touch"),
            E("gen", "c10_box_touching", "a corner anywhere in a box, polygons that touch"),
            E("gen", "c10_box_two", "a corner anywhere in a box, two polygons across the meridian", timeout=200),
            E("gen", "c10_box_three", "a corner anywhere in a box, three polygons", timeout=200),
        ],
    },
    "C11": {
        "bounds": "every way of cutting 3 to 11 vertices into two or three pieces, four seeds, translations as in C10 or a corner moving along a line; any 64 bit range start and end",
        "assumptions": ["loop iterations run in order here (C22 decides the schedules)"],
        "entries": [
            E("gen", "c11_two", "two pieces, any cut, four seeds, any translation"),
            E("gen", "c11_three", "three pieces, any cuts, four seeds"),
            E("gen", "c11_three_polygons", "two pieces of three polygons, any cut, any translation"),
            E("gen", "c11_apex", "two pieces, a corner moves"),
            E("gen", "c11_range", "ranges outside the vertices", "any 64 bit start and end", reach=["end", "refused", "accepted"]),
        ],
    },
    "C12": {
        "bounds": "up to 3 graphs over up to 3 of 4 triangles placed together anywhere on the map, every reachable state of 2 to 5 shared pairs, either order, an input repeated or not",
        "entries": [
            E("graph", "c12_few", "graphs of few vertices"),
            E("graph", "c12_three", "three graphs, any order, repeated inputs"),
            E("graph", "c12_two", "two graphs, polygons anywhere", timeout=120),
        ],
    },
    "C13": {
        "bounds": "graphs of 3 to 6 vertices anywhere on the map: every state of all pairs followed by any operation, histories of up to 5 operations on a pair, any position asked about, vertices added; 300 vertices with any of 25 pairs",
        "entries": [
            E("graph", "c13_step", "one update from any state"),
            E("graph", "c13_history", "histories of updates"),
            E("graph", "c13_unknown", "positions that are not vertices", reach=["end"]),
            E("graph", "c13_many", "more vertices"),
            E("graph", "c13_add_vertex", "adding a vertex"),
        ],
    },
    "C14": {
        "bounds": "overlays of a three-vertex graph anywhere on the map with 2 added vertices: any 1 operation on any pair, any 2 on pairs of 4 vertices, up to 4 on any one pair",
        "entries": [
            E("graph", "c14_step", "one overlay operation"),
            E("graph", "c14_pair", "two operations on a pair"),
            E("graph", "c14_two", "two operations", timeout=120),
        ],
    },
    "C15": {
        "budget": {"quick": 300},
        "bounds": "graphs of 0 to 17 vertices in 0 to 5 polygons (one set with common vertices), anywhere on the map; any pair in any state, the others in one of 4 patterns; files of up to 260 arbitrary bytes or any other of these graphs at the path before",
        "assumptions": ["the system calls behave as their manual pages say (modelled in memory, shared mappings written back on msync and munmap)"],
        "entries": [
            E("serial", "c15_small", "no or one polygon"),
            E("serial", "c15_states", "every state of four pairs", "7 vertices"),
            E("serial", "c15_coordinates", "every coordinate", "one vertex anywhere, two at extreme positions, any order"),
            E("serial", "c15_over", "a file of any content was at the path", "0 to 260 arbitrary bytes"),
            E("serial", "c15_replace", "another saved graph was at the path", "any two of five sets of polygons, 4 patterns each"),
            E("serial", "c15_seven", "seven vertices"),
            E("serial", "c15_common", "polygons with common vertices"),
            E("serial", "c15_ten", "ten vertices"),
            E("serial", "c15_seventeen", "seventeen vertices", "pairs of vertices 1, 8, 9, 15, 16", timeout=120),
            E("serial", "c15_seventeen_all", "seventeen vertices, any pair", thorough_only=True, timeout=600),
        ],
    },
    "C16": {
        "bounds": "graphs of 0 to 7 vertices, the first, second or third call of each kind (open, ftruncate, fstat, mmap, msync) failing with one of four errors",
        "assumptions": ["the system calls behave as their manual pages say (modelled in memory); failures of close and munmap are not claimed"],
        "entries": [
            E("serial", "c16_save", "a file operation fails while saving", reach=["saved", "failed"]),
            E("serial", "c16_load", "a file operation fails while loading", reach=["loaded", "failed"]),
            E("serial", "c16_missing", "no file, an empty file"),
        ],
    },
    "C17": {
        "bounds": "every prefix of files saved for 5 sets of polygons (0 to 10 vertices) in 4 patterns of edges; each count, and each number of a meridian crossing edge, replaced by any 64 bit value; any byte in a row of the adjacency matrix; files of up to 20 arbitrary bytes",
        "assumptions": ["reading outside the mapped file contents is the violation; the harness gives the mapping exactly the file's length"],
        "entries": [
            E("serial", "c17_prefix", "prefixes of saved files", reach=["end", "failed", "loaded"]),
            E("serial", "c17_polygons", "any polygon count", reach=["failed", "loaded"]),
            E("serial", "c17_vertices", "any vertex count", reach=["failed", "loaded"]),
            E("serial", "c17_vertices2", "any vertex count of the last polygon", reach=["failed", "loaded"]),
            E("serial", "c17_meridian", "any count of meridian crossing edges", reach=["failed", "loaded"]),
            E("serial", "c17_rows", "any byte in a row of the adjacency matrix", "3, 7, 10 and 17 vertices (of the larger ones the last two rows)"),
            E("serial", "c17_marks", "any number in the list of meridian crossing edges", reach=["loaded"]),
            E("serial", "c17_bytes", "any bytes", reach=["failed", "loaded"]),
        ],
    },
    "C18": {
        "budget": {"quick": 300},
        "bounds": "searches over 4 to 6 vertices: every set of edges with any distances that form a metric (multiples of 1/1024 up to 1024), ends on or off the graph seeing any of several sets of vertices; real distances for a layout across the meridian; clear lines between any two positions of the map and copies",
        "assumptions": ["the S2 based spatial index, the projection to the coast and what a position sees are stand-ins giving any of the listed answers (C08 and C09 decide the latter)", "in the metric entries Coordinate::magnitude is a stand-in giving any metric; real distances are used in the meridian entries"],
        "entries": [
            E("paths", "c18_four", "four vertices, any edges, any metric", reach=["found", "threw"]),
            E("paths", "c18_across", "four vertices, two pairs with a way across the meridian", reach=["found", "threw"]),
            E("paths", "c18_five", "five vertices, four sets of edges", reach=["found"]),
            E("paths", "c18_meridian", "real distances, six vertices on both sides of the meridian", reach=["found"]),
            E("paths", "c18_meridian_all", "real distances, five vertices, any edges", reach=["found", "threw"]),
            E("paths", "c18_clear", "a clear line between any two positions"),
            E("paths", "c18_clear_coast", "ends moved to the coast", reach=["direct", "threw"]),
            E("paths", "c18_five_all", "five vertices, any edges, any metric", reach=["found", "threw"], timeout=100),
            E("paths", "c18_off_graph", "ends that are not vertices", reach=["found", "threw"], timeout=120),
            E("paths", "c18_from_land", "ends moved to the coast: the path leaves away from the obstacle", reach=["found", "threw"], timeout=120),
            E("paths", "c18_across_all", "four vertices, every pair with a way across", reach=["found", "threw"], thorough_only=True, timeout=400),
            E("paths", "c18_off_graph_all", "ends that see any set of vertices", reach=["found", "threw"], thorough_only=True, timeout=900),
            E("paths", "c18_from_land_all", "ends on land that see any set of vertices", reach=["found", "threw"], thorough_only=True, timeout=1200),
        ],
    },
    "C19": {
        "budget": {"quick": 300},
        "bounds": "as C18, any distance limit up to 2048 (multiples of 1/1024), weightings 0, 0.5, 1, 2, 10; any source and destination for requests on land",
        "assumptions": ["stand-ins as for C18"],
        "entries": [
            E("paths", "c19_land", "requests on land, corrected or not", reach=["threw", "path"]),
            E("paths", "c19_four", "four vertices, any edges, any metric, any limit, five weightings", reach=["found", "threw"]),
            E("paths", "c19_across", "ways across the meridian", reach=["found", "threw"]),
            E("paths", "c19_five", "five vertices, any limit", reach=["found", "threw"]),
            E("paths", "c19_meridian", "real distances on both sides of the meridian, any limit", reach=["found", "threw"]),
            E("paths", "c19_off_graph", "ends that are not vertices, any limit", reach=["found", "threw"], timeout=120),
            E("paths", "c19_off_graph_all", "ends that see any set of vertices", reach=["found", "threw"], thorough_only=True, timeout=1500),
        ],
    },
    "C20": {
        "budget": {"quick": 300},
        "bounds": "batches of 0 to 3 requests, each of 5 kinds (found, no way, found off the graph, on land), any distance limit, three weightings; with workers: every distribution of the requests and every interleaving with one switch of threads where one could go on (two in the thorough tier) at lock and work distribution points",
        "assumptions": ["stand-ins as for C18"],
        "entries": [
            E("paths", "c20_one", "no or one request, any metric"),
            E("paths", "c20_two", "two requests"),
            E("paths", "c20_three", "three requests"),
            E("pathst", "c20_threads_two", "two requests, two workers", SCH1, timeout=100),
            E("pathst", "c20_threads_switches", "two requests, two workers", SCH2, thorough_only=True, timeout=900),
            E("pathst", "c20_threads_three", "three requests, three workers", SCH1, thorough_only=True, timeout=900),
        ],
    },
    "C21": {
        "budget": {"quick": 300},
        "bounds": "two threads with one operation each, any of 9 operations on 3 of 4 vertices, from any state of one pair, every interleaving at lock operations; two threads with two operations and three threads with one, at most two switches of threads where one could go on",
        "assumptions": THREADS,
        "entries": [
            E("conc", "c21_two", "two threads, one operation each", ALLSCH, timeout=200),
            E("conc", "c21_directed", "one way operations against the others", ALLSCH, timeout=200),
            E("conc", "c21_two_all", "two threads, one operation each, on any pairs", ALLSCH, thorough_only=True, timeout=900),
            E("conc", "c21_two_each", "two threads, two operations each", SCH2, timeout=200),
            E("conc", "c21_three", "three threads, one operation each", SCH2, thorough_only=True, timeout=1500),
        ],
    },
    "C22": {
        "budget": {"quick": 300},
        "bounds": "scenes of one to three triangles (one pair with a common vertex, one at the meridian), 2 and 3 threads, every distribution of the iterations and every interleaving with at most 1 to 3 switches of threads where one could go on, at lock and work distribution points",
        "assumptions": THREADS + ["the progress bar is replaced by one that shows nothing"],
        "entries": [
            E("conc", "c22_generate_one", "generating a graph of 3 vertices, 2 threads", "at most 3 switches"),
            E("conc", "c22_generate_two", "generating graphs of two or three polygons, 2 threads", SCH1, timeout=150),
            E("conc", "c22_generate_places", "two triangles anywhere near the meridian, 2 threads", SCH1, timeout=150),
            E("conc", "c22_generate_threads", "generating a graph of 3 vertices, 3 threads", SCH2),
            E("conc", "c22_generate_switches", "generating graphs of two polygons, 2 threads", SCH2, timeout=900, thorough_only=True),
            E("conc", "c22_generate_three", "generating graphs of two or three polygons, 3 threads", SCH1, timeout=900, thorough_only=True),
            E("conc", "c22_range", "a range of shuffled vertices, 2 threads", SCH2, timeout=900, thorough_only=True),
            E("conc", "c22_range_threads", "a range of shuffled vertices, 3 threads", SCH1),
            E("conc", "c22_merge_two", "merging two graphs, any edges, 2 threads", SCH1),
            E("conc", "c22_merge_three", "merging three graphs, 3 threads", SCH1),
            E("conc", "c22_merge_switches", "merging three graphs, 2 threads", SCH2, timeout=900, thorough_only=True),
        ],
    },
    "C23": {
        "bounds": "segments and coordinates over the whole map, polygons of 3 to 4 vertices",
        "entries": [
            E("geom", "c23_coordinate", "coordinates: equality and hash", "all 32 bit coordinates", reach=["equal"]),
            E("geom", "c23_segment", "segments: equality"),
            E("geom", "c23_segment_hash", "segments: equal ones have equal hashes"),
            E("geom", "c23_polygon", "polygons: equality", "3 to 4 vertices, offsets within 2", reach=["equal"]),
            E("geom", "c23_polygon_hash", "polygons: equal ones have equal hashes", "three outlines anywhere on the map, repeated and reversed", reach=["equal", "different outline"]),
        ],
    },
    "C27": {
        "bounds": "two triangles (C18's layouts for what a moved end is joined to), any positions, any spherical distances; projections at 8 offsets from the position, from none to across the map",
        "assumptions": S2MODEL,
        "entries": [
            E("sphere", "c27_project", "projection on a segment", "any position and segment on the map; nearest points at 8 offsets"),
            E("sphere", "c27_moved", "requests with one end on land or none, through the whole computation", "two triangles; any positions and distances; correction asked for or not", reach=["moved", "refused"], timeout=150),
            E("sphere", "c27_both", "requests with both ends on land", "two triangles; any positions and distances; correction asked for or not", reach=["moved", "refused"], timeout=100),
            E("paths", "c18_clear_coast", "the edges the ends were moved to are no obstacles", "any answers about what lies in between", reach=["direct", "threw"]),
            E("paths", "c18_from_land", "moved ends are joined to what they see on the seaward side", "4 vertices, any metric", reach=["found", "threw"], timeout=120),
            E("paths", "c19_land", "only ends on land are moved", reach=["threw", "path"]),
            E("sphere", "c27_project_any", "projection on a segment, to anywhere", "any positions", thorough_only=True, timeout=600),
            E("paths", "c18_from_land_all", "moved ends that see any set of vertices", reach=["found", "threw"], thorough_only=True, timeout=1200),
        ],
    },
    "C28": {
        "bounds": "two triangles anywhere on the map, given either way round; any position or segment asked about; any distances of 3 or 4 edges, the others at fixed ones; any meeting of 3 edges",
        "assumptions": S2MODEL + ["edges exactly at the distance asked for are not asked about"],
        "entries": [
            E("sphere", "c28_closest", "closest segment"),
            E("sphere", "c28_within", "segments within a distance"),
            E("sphere", "c28_crossed", "edges met by a segment, in order"),
            E("sphere", "c28_crosses", "whether a segment meets the polygons"),
            E("sphere", "c28_contained", "containment, at vertices too"),
            E("sphere", "c28_many", "many edges", "two polygons of 40 vertices, any limit, 1/3 or all of the edges met"),
            E("sphere", "c28_none", "no polygons"),
            E("sphere", "c28_distance", "spherical distance"),
            E("sphere", "c28_place", "positions to the sphere and back"),
        ],
    },
    "C30": {
        "budget": {"quick": 300},
        "bounds": "seven scenes of 4 to 11 vertices; one end of the request anywhere in a box of some 10 x 20 degrees, in three entries both ends, the smaller box 1 to 6 degrees wide; one corner of an obstacle moving along a line; from any vertex; ends given up to a period beyond the map",
        "assumptions": ["S2's answers are replaced by exact ones on the plane; lengths are |dx| + |dy|, a metric that is exact", "lines that graze an obstacle (touch it without entering) are neither required nor forbidden", "loop iterations run in order here (C22 decides the schedules)"],
        "entries": [
            E("route", "c30_two", "two obstacles, free source", "source anywhere in 9 x 20 degrees", reach=["around"]),
            E("route", "c30_between", "free destination between the obstacles", "destination anywhere in 1 x 20 degrees", reach=["around", "direct"]),
            E("route", "c30_island", "one obstacle, both ends free", "ends anywhere in 18 x 25 and 5 x 6 degrees", reach=["around", "direct"]),
            E("route", "c30_both", "two obstacles, both ends free", "ends anywhere in 3 x 3 and 2 x 2 degrees", reach=["around"]),
            E("route", "c30_bay", "out of a bay, both ends free", "ends anywhere in 4 x 3 and 4 x 2 degrees", reach=["around"]),
            E("route", "c30_clockwise", "out of a bay whose outline is given clockwise", "source anywhere in 4 x 3 degrees", reach=["around"]),
            E("route", "c30_touching", "obstacles with a vertex in common", "source anywhere in 8 x 18 degrees", reach=["around", "direct"]),
            E("route", "c30_vertex", "from any vertex", "destination anywhere in 7 x 20 degrees", reach=["around", "direct"]),
            E("route", "c30_corner", "a corner of an obstacle moves", "corner anywhere on 7 degrees", reach=["around"]),
            E("route", "c30_meridian", "obstacles on both sides of the meridian, free source", "source anywhere in 28 x 40 degrees", reach=["around", "direct"]),
            E("route", "c30_round", "the same, ends given a period beyond the map, free destination", "destination anywhere in 8 x 12 degrees", reach=["around"]),
            E("route", "c30_pieces", "the graph is generated in three pieces and merged", "source anywhere in 9 x 20 degrees", reach=["around"]),
            E("route", "c30_saved", "the graph is saved and loaded", "source anywhere in 8 x 18 degrees", reach=["around", "direct"]),
            E("route", "c30_coast", "from land, moved to the coast", "four positions on the coast, destination anywhere in 26 x 6 or 8 x 5 degrees", reach=["around", "direct"]),
            E("route", "c30_three", "three obstacles, free source", "source anywhere in 11 x 24 degrees", reach=["around"], timeout=120),
            E("route", "c30_around", "two obstacles, source anywhere around and between them", "source anywhere in 40 x 28 degrees", reach=["around", "direct"], thorough_only=True, timeout=600),
        ],
    },
    "C29": {
        "bounds": "coordinates, degrees, limits, weightings, ranges and seeds over their whole domains, each option given by position, by name or not at all; paths of up to 3 positions, batches of up to 2 requests, up to 2 polygons",
        "assumptions": ["pybind11 is replaced by a registry that converts values by pybind11's rules (engine/shadow/pybind11); its own code and the interpreter are not encoded", "the functions behind the module are replaced by recorders where they are expensive: path searches, generation, serialization, merging, visibility"],
        "entries": [
            E("bind", "c29_degrees", "coordinates made from degrees", "degrees k*2^-20 over the map"),
            E("bind", "c29_coordinate", "reading, negating and comparing coordinates"),
            E("bind", "c29_arithmetic", "sums and differences of coordinates"),
            E("bind", "c29_products", "products and scaling of coordinates", "4 vectors, 4 factors"),
            E("bind", "c29_polygon", "polygons: vertices and equality", "triangles anywhere on the map, either way round"),
            E("bind", "c29_graph", "graphs: edges, vertices, neighbours, polygons", "two triangles, any one edge"),
            E("bind", "c29_search", "one path search", "any positions, limit and weighting; options by position, by name or not given"),
            E("bind", "c29_error", "errors are raised"),
            E("bind", "c29_batch", "batches of path searches", "up to 2 requests"),
            E("bind", "c29_functions", "generating, saving, loading, merging", "up to 2 polygons, any range and seed"),
            E("bind", "c29_vistree", "what an observer sees"),
        ],
    },
    "C24": {
        "py": "pyprops",
        "bounds": "1 to 40 splits (any up to 10^6 in the thorough tier), any split number, up to three polygons with any number of vertices up to 10^9 each, any 32 bit seed, any coordinates",
        "assumptions": ["the compiled extension and the shapefile library are replaced by recorders with the interface bindings.cpp and pyshp give them", "coordinates are real numbers: rounding in Python arithmetic is not modelled"],
    },
    "C25": {
        "py": "pyprops",
        "bounds": "files of one shape with up to 14 points in up to 4 parts, two shapes with up to 6 points in up to 2 parts (three in the thorough tier), any part starts, any coordinates, six shape types",
        "assumptions": ["the shapefile library is replaced by a recorder with pyshp's interface; parts start in increasing order within the points, as the format demands"],
    },
    "C26": {
        "py": "pyprops",
        "bounds": "any coordinates, limits, weightings and choices, given or left out; paths of up to 4 positions; batches of up to 4 requests with any of them failing; merges of up to 4 graphs",
        "assumptions": ["the compiled extension is replaced by recorders with the interface of bindings.cpp (checked under C29)"],
    },
}
LEVEL_NOTE = "Bounded symbolic execution of the LLVM bitcode of /repo's current sources: every path within the stated bounds is enumerated and each assertion decided by Z3 for all values of the symbolic inputs; counterexamples count only when the natively compiled code (address and undefined behaviour sanitizers) fails on them too. Trusts the engine's instruction semantics (sampled paths are compared with native runs), Z3, clang, and the harness oracles; bounds per entry are in the evidence."
PY_NOTE = "Bounded symbolic execution of /repo's current Python sources: they run unchanged on z3 valued numbers, every path within the stated bounds is enumerated and each assertion decided by Z3 for all values; counterexamples count only when the same code fails on them as plain numbers. Trusts the number stand-ins, Z3, CPython and the recorders in place of the compiled extension and the shapefile library."
for _p in PROPS.values():
    if "py" in _p:
        _p.update(note=PY_NOTE, technique="symbolic execution of the Python sources with Z3, counterexamples replayed on plain numbers")
NOT_APPLICABLE = {
}
