"""C24, C25, C26: the Python layer, run on symbolic numbers with the compiled extension and the shapefile library replaced by recorders."""
import sys, os, types, importlib, shutil, tempfile, warnings, math
sys.dont_write_bytecode = True
import sym

# ---------------------------------------------------------------- recorders in place of the extension and the library
LOG = []


class VisGraphCoord:
    """VisGraphCoord(longitude, latitude), as bindings.cpp declares it"""
    def __init__(self, longitude, latitude):
        self.longitude, self.latitude = longitude, latitude

    def __eq__(self, o):
        return isinstance(o, VisGraphCoord) and bool(self.longitude == o.longitude) and bool(self.latitude == o.latitude)

    __hash__ = None


class VisGraphPolygon:
    """keeps some of its vertices (straight and repeated ones go): how many is the harness's choice"""
    count = None

    def __init__(self, coords):
        self.coords = list(coords)
        self.vertices = VisGraphPolygon.count(self) if VisGraphPolygon.count else self.coords


class Graph:
    pass


def generate_visgraph(polygons):
    g = Graph(); g.how = ("whole", list(polygons)); LOG.append(("generate", g)); return g


def generate_visgraph_with_shuffled_range(polygons, range_start, range_end, seed):
    g = Graph(); g.how = ("range", list(polygons), range_start, range_end, seed); LOG.append(("generate", g)); return g


def save_graph_to_file(graph, path):
    LOG.append(("save", graph, path))


def load_graph_from_file(path):
    g = Graph(); g.how = ("file", path); LOG.append(("load", g, path)); return g


def merge_graphs(graphs):
    g = Graph(); g.how = ("merged", list(graphs)); LOG.append(("merge", g)); return g


class Computer:
    answer = None
    made = []

    def __init__(self, graph):
        self.graph = graph
        Computer.made.append(self)

    def shortest_path(self, source, destination, maximum_distance_to_search_from_source=math.inf, correct_vertices_on_land=False, a_star_greediness_weighting=1.0):
        LOG.append(("one", self, source, destination, maximum_distance_to_search_from_source, correct_vertices_on_land, a_star_greediness_weighting))
        return Computer.answer("one")

    def shortest_paths(self, source_dest_pairs, maximum_distance_to_search_from_source=math.inf, correct_vertices_on_land=False, a_star_greediness_weighting=1.0):
        LOG.append(("batch", self, [tuple(p) for p in source_dest_pairs], maximum_distance_to_search_from_source, correct_vertices_on_land, a_star_greediness_weighting))
        return Computer.answer("batch")


class BatchResult:
    def __init__(self, path, error_msg):
        self.path, self.error_msg = path, error_msg


class Shape:
    NAMES = {0: "NULL", 1: "POINT", 3: "POLYLINE", 5: "POLYGON", 8: "MULTIPOINT", 15: "POLYGONZ"}

    def __init__(self, kind, points, parts):
        self.shapeType, self.points, self.parts = kind, points, parts

    @property
    def shapeTypeName(self):
        return Shape.NAMES[self.shapeType]


class Reader:
    content = []
    opened = []

    def __init__(self, path=None, *a, **k):
        self.path = path
        Reader.opened.append(self)
        self.closed = False

    def __enter__(self): return self
    def __exit__(self, *a): self.close()
    def close(self): self.closed = True
    def shapes(self, *a, **k): return list(Reader.content)
    def iterShapes(self, *a, **k): return iter(Reader.content)
    def shape(self, i=0): return Reader.content[i]
    def __len__(self): return len(Reader.content)
    @property
    def numRecords(self): return len(Reader.content)
    numShapes = numRecords


MODS = {}


def load(repo):
    if MODS:
        return
    sys.path.insert(0, repo)
    ext = types.ModuleType("capi.src.implementation.visibility_graphs._vis_graph")
    for n, v in dict(VisGraph=Graph, VisGraphBatchInterpolateResult=BatchResult, VisGraphCoord=VisGraphCoord, VisGraphPolygon=VisGraphPolygon, VisGraphShortestPathComputer=Computer, VisGraphVisibleVertex=Graph, VistreeGenerator=Graph,
                     generate_visgraph=generate_visgraph, generate_visgraph_with_shuffled_range=generate_visgraph_with_shuffled_range, load_graph_from_file=load_graph_from_file, merge_graphs=merge_graphs, save_graph_to_file=save_graph_to_file).items():
        setattr(ext, n, v)
    sys.modules[ext.__name__] = ext
    sf = types.ModuleType("shapefile")
    sf.Reader = Reader
    sf.POLYGON, sf.NULL, sf.POINT, sf.POLYLINE, sf.MULTIPOINT, sf.POLYGONZ = 5, 0, 1, 3, 8, 15
    sf.Shape, sf.ShapefileException = Shape, type("ShapefileException", (Exception,), {})
    sys.modules["shapefile"] = sf
    b = "capi.src.implementation."
    for n in ("graph_generator", "graph_merger", "path_interpolator", "shapefiles.shapefile_reader", "dtos.coordinate", "datastructures.polygon", "datastructures.graph_file_paths"):
        MODS[n] = importlib.import_module(b + n)
    for m in MODS.values():
        m.len = sym.sym_len  # lengths may be symbolic
        m.range = sym_range


def sym_range(*a):
    """range whose end may be symbolic: asks before each step"""
    if not any(isinstance(x, sym.Num) for x in a):
        return range(*a)
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a

    def g():
        i = lo
        while bool(i < hi) if st > 0 else bool(i > hi):
            yield i
            i = i + st
    return g()


def same(a, b):
    """the very number, whatever it is"""
    if isinstance(a, float) and isinstance(b, float) and math.isinf(a):
        return a == b
    return a == b


class Folder:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="capi-py-")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


class GivenPolygon:
    def __init__(self, vertices): self.vertices = vertices


class GivenReader:
    def __init__(self, polygons): self.polygons, self.paths = polygons, []

    def read(self, path):
        self.paths.append(path)
        return self.polygons


def coords(c, name, n):
    C = MODS["dtos.coordinate"].Coordinate
    return [C(latitude=c.real("%s%d.lat" % (name, i), -90, 90), longitude=c.real("%s%d.lon" % (name, i), -180, 180)) for i in range(n)]


# ---------------------------------------------------------------- C24
def given(c, sizes):
    ps = [GivenPolygon(coords(c, "p%d." % i, k)) for i, k in enumerate(sizes)]
    ns = []

    def count(p):
        i = len(ns)
        ns.append(c.int("n%d" % (i % len(sizes)), 0, 10**9))
        n = ns[-1]
        return sym.SymList(n, lambda k: None)
    VisGraphPolygon.count = count
    return ps, ns


def check_polygons(c, ps, got):
    c.check(len(got) == len(ps), "every polygon read is passed on")
    for p, q in zip(ps, got):
        c.check(len(p.vertices) == len(q.coords), "every vertex read is passed on")
        ok = True
        for v, w in zip(p.vertices, q.coords):
            ok = ok & (v.longitude == w.longitude) & (v.latitude == w.latitude)
        c.check(ok, "longitude and latitude are passed on unexchanged, in order")


def split_once(c, ps, folder, name, k, splits, seed):
    G = MODS["graph_generator"]
    LOG.clear()
    out = os.path.join(folder, name)
    r = GivenReader(ps)
    G.GraphGenerator(r).generate_for_vertex_range("in.shp", out, k, splits, seed)
    gs = [x for x in LOG if x[0] == "generate"]
    sv = [x for x in LOG if x[0] == "save"]
    c.check(r.paths == ["in.shp"], "the shapefile asked for is read")
    c.check(len(gs) == 1 and len(sv) == 1 and sv[0][1] is gs[0][1], "the graph generated is the one saved")
    c.check(os.path.isdir(out) and str(sv[0][2]) == MODS["datastructures.graph_file_paths"].GraphFilePaths(out).default_graph_path and os.path.dirname(str(sv[0][2])) == out, "the graph is saved in the output folder")
    how = gs[0][1].how
    if how[0] == "whole":
        return how[1], 0, None, None
    return how[1], how[2], how[3], how[4]


def splits(c, sizes, nsplits):
    ps, ns = given(c, sizes)
    seed = c.int("seed", 0, 2**32 - 1)
    k = c.int("split", 0, nsplits - 1)
    with Folder() as d:
        VisGraphPolygon.count and ns.clear()
        polys, a, b, s = split_once(c, ps, d, "a", k, nsplits, seed)
        check_polygons(c, ps, polys)
        total = 0
        for n in ns:
            total = total + n
        c.check(s is not None, "a range is generated")
        c.check(s == seed, "the seed is passed on")
        c.check((a >= 0) & (a <= b) & (b <= total), "every range lies within the vertices")
        if bool(k == 0):
            c.check(a == 0, "the first range starts at the first vertex")
        if bool(k == nsplits - 1):
            c.check(b == total, "the last range ends at the last vertex")
            c.reach("last")
        else:
            ns.clear()
            _, a2, _, _ = split_once(c, ps, d, "b", k + 1, nsplits, seed)
            c.check(b == a2, "every range starts where the one before ends")
            c.reach("next")
    VisGraphPolygon.count = None
    c.reach("end")


def c24_splits(c): splits(c, [3, 3], c.pick("splits", 1, 12))
def c24_many(c): splits(c, [3, 4, 3], c.pick("splits", 13, 40))
def c24_three(c): splits(c, [4, 3, 5], 3)
def c24_few(c): splits(c, [3, 4][: c.pick("polygons", 0, 2)], c.pick("splits", 1, 4))
def c24_any_splits(c):
    n = c.int("splits", 1, 10**6)
    splits(c, [3], n)


def c24_whole(c):
    G = MODS["graph_generator"]
    ps, ns = given(c, [3, c.pick("m", 3, 5), 4][: c.pick("polygons", 0, 3)])
    LOG.clear()
    r = GivenReader(ps)
    with Folder() as d:
        out = os.path.join(d, "out")
        G.GraphGenerator(r).generate("in.shp", out)
        gs = [x for x in LOG if x[0] == "generate"]
        sv = [x for x in LOG if x[0] == "save"]
        c.check(r.paths == ["in.shp"], "the shapefile asked for is read")
        c.check(len(gs) == 1 and len(sv) == 1 and sv[0][1] is gs[0][1], "the graph generated is the one saved")
        c.check(os.path.isdir(out) and os.path.dirname(str(sv[0][2])) == out, "the graph is saved in the output folder")
        how = gs[0][1].how
        check_polygons(c, ps, how[1])
        if how[0] == "range":
            total = 0
            for n in ns: total = total + n
            c.check((how[2] == 0) & (how[3] == total), "the whole graph is over every vertex")
    VisGraphPolygon.count = None
    c.reach("end")


# ---------------------------------------------------------------- C25
KINDS = [5, 0, 1, 3, 8, 15]


def files(c, shapes, points, parts, kinds):
    S = MODS["shapefiles.shapefile_reader"]
    content, want = [], []
    for s in range(c.pick("shapes", 0, shapes)):
        kind = KINDS[c.pick("kind%d" % s, 0, kinds - 1)]
        n = c.pick("points%d" % s, 0, points) if kind != 0 else 0
        pts = []
        for i in range(n):
            x, y = c.real("x%d.%d" % (s, i), -180, 180), c.real("y%d.%d" % (s, i), -90, 90)
            pts.append((x, y) if s % 2 == 0 else [x, y])
        m = c.pick("parts%d" % s, 0 if n == 0 else 1, parts) if kind in (3, 5, 15) else 0
        ends = []
        last = 0
        for j in range(1, m):
            p = c.int("part%d.%d" % (s, j), 1, max(1, n - 1))
            c.assume((p > last) & (p < n))
            ends.append(p)
            last = p
        content.append(Shape(kind, pts, ([0] if m else []) + ends))
        want.append((kind, pts, ends[0] if ends else n))
    Reader.content, Reader.opened = content, []
    got = S.ShapefileReader().read("some/file.shp")
    c.check(len(Reader.opened) == 1 and str(Reader.opened[0].path) == "some/file.shp", "the file asked for is read")
    exp = []
    for kind, pts, end in want:
        if kind == 5 and bool(end >= 4):
            exp.append((pts, end))
    c.check(len(got) == len(exp), "one polygon for every polygon record whose first ring is large enough")
    for q, (pts, end) in zip(got, exp):
        c.check(end - 1 == len(q.vertices), "a polygon has its first ring's vertices without the closing one")
        ok = True
        for v, (x, y) in zip(q.vertices, pts):
            ok = ok & (v.longitude == x) & (v.latitude == y)
        c.check(ok, "vertices are in order, x is longitude and y latitude")
    c.reach("polygons" if exp else "none")
    c.reach("end")


def c25_one(c): files(c, 1, 8, 3, 6)
def c25_two(c): files(c, 2, 6, 2, 2)
def c25_three(c): files(c, 3, 5, 2, 2)
def c25_long(c): files(c, 1, 14, 4, 1)


# ---------------------------------------------------------------- C26
def answerPath(c, name, n):
    return [VisGraphCoord(c.real("%s%d.lon" % (name, i)), c.real("%s%d.lat" % (name, i))) for i in range(n)]


def check_path(c, got, want):
    c.check(got is not None and len(got) == len(want), "the answer has every position of the path")
    ok = True
    for g, w in zip(got, want):
        ok = ok & (g.longitude == w.longitude) & (g.latitude == w.latitude)
    c.check(ok, "the answer is the path in order, longitude and latitude unexchanged")


def interpolator(c):
    P = MODS["path_interpolator"]
    LOG.clear(); Computer.made.clear()
    p = P.PathInterpolator("some/folder")
    ld = [x for x in LOG if x[0] == "load"]
    c.check(len(ld) == 1 and os.path.dirname(ld[0][2]) == "some/folder" and ld[0][2] == MODS["datastructures.graph_file_paths"].GraphFilePaths("some/folder").default_graph_path, "the graph of the folder is loaded")
    c.check(len(Computer.made) == 1 and Computer.made[0].graph is ld[0][1], "paths are searched on the graph loaded")
    LOG.clear()
    return p


def options(c):
    kw, exp = {}, [math.inf, False, 1.0]
    given = c.pick("given", 0, 7)
    if given & 1: kw["search_distance_from_source_limit"] = exp[0] = c.real("limit", 0)
    if given & 2: kw["correct_vertices_on_land"] = exp[1] = c.bool("correct")
    if given & 4: kw["a_star_greediness_weighting"] = exp[2] = c.real("weight", 0)
    return kw, exp


def check_options(c, got, exp):
    c.check(same(got[0], exp[0]), "the distance limit is passed on")
    c.check(same(got[1], exp[1]), "the choice to correct positions on land is passed on")
    c.check(same(got[2], exp[2]), "the weighting is passed on")


def c26_one(c):
    p = interpolator(c)
    a, b = coords(c, "a", 1)[0], coords(c, "b", 1)[0]
    path = answerPath(c, "r", c.pick("length", 0, 4))
    Computer.answer = lambda how: path if how == "one" else [BatchResult(path, None)]
    kw, exp = options(c)
    if c.pick("style", 0, 1):
        order = ["search_distance_from_source_limit", "correct_vertices_on_land", "a_star_greediness_weighting"]
        args = []
        for o in order:
            if o not in kw: break
            args.append(kw.pop(o))
        got = p.interpolate(a, b, *args, **kw)
    else:
        got = p.interpolate(coord_1=a, coord_2=b, **kw)
    calls = list(LOG)
    c.check(len(calls) == 1, "one search is made")
    k = calls[0]
    src, dst = (k[2], k[3]) if k[0] == "one" else k[2][0]
    c.check((src.longitude == a.longitude) & (src.latitude == a.latitude) & (dst.longitude == b.longitude) & (dst.latitude == b.latitude), "the search is between the positions asked for")
    check_options(c, k[-3:], exp)
    check_path(c, got, path)
    c.reach("end")


def c26_error(c):
    p = interpolator(c)
    a, b = coords(c, "a", 1)[0], coords(c, "b", 1)[0]

    def fail(how):
        raise RuntimeError("no path")
    Computer.answer = fail
    try:
        p.interpolate(a, b)
        ok = False
    except RuntimeError as ex:
        ok = "no path" in str(ex)
    c.check(ok, "an error of the search is raised")
    c.reach("end")


def batch(c, most, lengths):
    p = interpolator(c)
    n = c.pick("requests", 0, most)
    a, b = coords(c, "a", n), coords(c, "b", n)
    res = []
    for i in range(n):
        failed = c.pick("failed%d" % i, 0, 1)
        # a failed request's path is empty; an empty path alone is not a failure
        res.append(BatchResult([] if failed else answerPath(c, "r%d." % i, c.pick("length%d" % i, 0, lengths)), ("", "request %d failed" % i)[c.pick("text%d" % i, 0, 1)] if failed else None))
    Computer.answer = lambda how: list(res)
    kw, exp = options(c) if most < 3 else ({}, [math.inf, False, 1.0])
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        got = p.batch_interpolate(list(zip(a, b)), **kw)
    calls = list(LOG)
    c.check(len(calls) == 1 and calls[0][0] == "batch" or n == 0, "one batch of searches is made")
    if calls:
        pairs = calls[0][2]
        c.check(len(pairs) == n, "every request is passed on")
        ok = True
        for (s, t), x, y in zip(pairs, a, b):
            ok = ok & (s.longitude == x.longitude) & (s.latitude == x.latitude) & (t.longitude == y.longitude) & (t.latitude == y.latitude)
        c.check(ok, "the searches are between the positions asked for, in order")
        check_options(c, calls[0][-3:], exp)
    c.check(len(got) == n, "every request is answered")
    for g, r in zip(got, res):
        if r.error_msg is not None:
            c.check(g is None, "a failed request is answered with None")
        else:
            check_path(c, g, r.path)
    bad = [r.error_msg for r in res if r.error_msg is not None]
    c.check(len(ws) == len(bad) and all(m in str(w.message) for m, w in zip(bad, ws)), "a warning for every failed request, saying why")
    c.reach("end")
    if bad: c.reach("failed")


def c26_batch(c): batch(c, 2, 2)
def c26_batch_four(c): batch(c, 4, 1)


def c26_merge(c):
    M = MODS["graph_merger"]
    LOG.clear()
    n = c.pick("graphs", 0, 4)
    with Folder() as d:
        out = os.path.join(d, "out")
        ins = ["in/%d" % i for i in range(n)]
        M.GraphMerger().merge(ins, out)
        paths = MODS["datastructures.graph_file_paths"].GraphFilePaths
        ld = [x for x in LOG if x[0] == "load"]
        mg = [x for x in LOG if x[0] == "merge"]
        sv = [x for x in LOG if x[0] == "save"]
        c.check(sorted(str(x[2]) for x in ld) == sorted(paths(i).default_graph_path for i in ins), "every graph asked for is loaded")
        c.check(len(mg) == 1 and {id(x) for x in mg[0][1].how[1]} == {id(x[1]) for x in ld}, "exactly the graphs loaded are merged")
        c.check(len(sv) == 1 and sv[0][1] is mg[0][1] and str(sv[0][2]) == paths(out).default_graph_path and os.path.isdir(out), "the merged graph is saved in the output folder")
    c.reach("end")


ENTRIES = {
    "C24": [
        ("c24_splits", "1 to 12 splits, two polygons of any size", "any vertex counts up to 10^9 each, any split, any seed", ["end", "next", "last"], 60),
        ("c24_three", "three splits, three polygons", "", ["end", "next", "last"], 60),
        ("c24_few", "no polygon to two", "1 to 4 splits", ["end", "next", "last"], 60),
        ("c24_many", "13 to 40 splits, three polygons", "", ["end", "next", "last"], 120),
        ("c24_whole", "generation without splits", "0 to 3 polygons", ["end"], 60),
    ],
    "C25": [
        ("c25_one", "one shape of any type", "up to 8 points in up to 3 parts, any coordinates", ["end", "polygons", "none"], 60),
        ("c25_two", "two shapes", "up to 6 points in up to 2 parts each", ["end", "polygons", "none"], 120),
        ("c25_long", "one longer polygon", "up to 14 points in up to 4 parts", ["end", "polygons", "none"], 60),
    ],
    "C26": [
        ("c26_one", "one request", "any coordinates and options given or not, paths of up to 4 positions", ["end"], 60),
        ("c26_error", "one request that fails", "", ["end"], 30),
        ("c26_batch", "batches of up to two requests", "any coordinates, options, failures, paths of up to 2 positions", ["end", "failed"], 120),
        ("c26_batch_four", "batches of up to four requests", "any coordinates, failures, paths of up to 1 position", ["end", "failed"], 120),
        ("c26_merge", "merging graph folders", "up to 4 graphs", ["end"], 30),
    ],
}
THOROUGH = {"C24": [("c24_any_splits", "any number of splits (nonlinear)", "1 to 10^6 splits, one polygon", ["end"], 600)], "C25": [("c25_three", "three shapes", "up to 5 points in up to 2 parts each", ["end", "polygons", "none"], 900)]}


def run(prop, tier, repo):
    load(repo)
    out = []
    for n, about, bounds, reach, to in ENTRIES[prop] + (THOROUGH.get(prop, []) if tier == "thorough" else []):
        e = {"entry": n, "about": about, "bounds": bounds, "reach": reach}
        out.append((e, sym.run_entry(repo, e, globals()[n], to)))
    return out


def replay(j, repo):
    load(repo)
    return sym.concrete(globals()[j["entry"]], j["input"])
