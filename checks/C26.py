"""C26 - planar fractures in a box of three dimensions."""

import itertools
import json
import os
import random
import signal
import time

import numpy as np
from hypothesis import assume, strategies as st

from harness import exact
from harness.core import Violation, subcheck

TITLE = "Planar fractures in a 3D box are cut where they meet and meshed conformingly"
ASSUMPTIONS = [
    "fractures are convex quadrilaterals strictly inside the box that cross each other along segments; no corner of a fracture lies in the plane of another one and no edge or diagonal meets the line through one of another fracture",
    "distinct features lie far apart compared with the tolerance; a run in which gmsh itself gives up (crash, time-out or an error while it generates the mesh) is counted and not judged",
]
F = exact.F
N = 12
TOL = 1e-8


def clip(q, n, p, d):
    """Parameters of the line p + t d inside the convex quadrilateral q of its plane, or None."""
    lo = hi = None
    for a, b in zip(q, q[1:] + q[:1]):
        m = exact.cross(n, exact.sub(b, a))
        s, r = exact.dot(m, d), exact.dot(m, exact.sub(p, a))
        if s == 0:
            if r == 0:
                raise Flush
            if r < 0:
                return None
        elif s > 0:
            lo = -r / s if lo is None else max(lo, -r / s)
        else:
            hi = -r / s if hi is None else min(hi, -r / s)
    return lo, hi


class Flush(Exception):
    """A contact that the property does not speak about."""


def trace(Q, R):
    (q, n), (s, m) = Q, R
    d = exact.cross(n, m)
    if exact.zero(d):
        if exact.dot(n, exact.sub(s[0], q[0])) == 0:
            raise Flush
        return None
    a, b = exact.dot(n, q[0]), exact.dot(m, s[0])
    p = exact.mul(F(1) / exact.dot(d, d), exact.add(exact.mul(a, exact.cross(m, d)), exact.mul(b, exact.cross(d, n))))
    i, j = clip(q, n, p, d), clip(s, m, p, d)
    if i is None or j is None:
        return None
    lo, hi = max(i[0], j[0]), min(i[1], j[1])
    if lo == hi:
        raise Flush
    return tuple(exact.add(p, exact.mul(t, d)) for t in (lo, hi)) if lo < hi else None


def cuts(q, m, o):
    """Points where the edges and diagonals of q cross the plane through o with normal m."""
    out = []
    for a, b in itertools.combinations(q, 2):
        s, t = exact.dot(m, exact.sub(a, o)), exact.dot(m, exact.sub(b, o))
        if s * t < 0:
            out.append(exact.add(a, exact.mul(s / (s - t), exact.sub(b, a))))
    return out


def between(p, a, b):
    return p == a or p == b or exact.on_segment(p, a, b)


class Planes:
    """The exact partition of the fractures of a case."""

    def __init__(self, case):
        self.quads = []
        for pl in case["planes"]:
            c, u, v = (exact.vec(F(x) for x in pl[k]) for k in "cuv")
            n = exact.cross(u, v)
            if exact.zero(n):
                raise Flush
            q = [exact.add(c, exact.mul(F(r, 4) * s, w)) for r, w, s in zip(pl["r"], (u, v, u, v), (1, 1, -1, -1))]
            if not all(1 <= x <= N - 1 for p in q for x in p):
                raise Flush
            self.quads.append((q, n))
        for (q, _), (r, n) in itertools.permutations(self.quads, 2):
            for p in q:
                h = exact.dot(n, exact.sub(p, r[0]))
                if h * h < F(1, 400) * exact.dot(n, n):
                    raise Flush
        for (q, n), (r, m) in itertools.permutations(self.quads, 2):
            for x, (a, b) in itertools.product(cuts(q, m, r[0]), itertools.combinations(r, 2)):
                # beside the whole line through an edge or a diagonal of the other one
                w = exact.cross(exact.sub(x, a), exact.sub(b, a))
                if exact.dot(w, w) < F(1, 100) * exact.dot(exact.sub(b, a), exact.sub(b, a)):
                    raise Flush
        self.traces = {}
        k = len(self.quads)
        for i, j in itertools.combinations(range(k), 2):
            t = trace(self.quads[i], self.quads[j])
            if t:
                self.traces[i, j] = t
        box = [(x, y, z) for z in (0, N) for x, y in ((0, 0), (N, 0), (N, N), (0, N))]
        self.box = [exact.vec(F(x) for x in p) for p in box]
        self.ends = {p for t in self.traces.values() for p in t}
        # points where a trace meets another one of the same fracture
        self.meets = set()
        for (e, s), (f, t) in itertools.combinations(self.traces.items(), 2):
            if not set(e) & set(f):
                continue
            x = self.cross(s, t)
            if x is not None:
                self.meets.add(x)
        corners = {p for q, _ in self.quads for p in q}
        self.points = corners | self.ends | self.meets
        for p, q in itertools.combinations(self.points | set(self.box), 2):
            if exact.dot(exact.sub(p, q), exact.sub(p, q)) < F(1, 100):
                raise Flush
        # a feature lies on a line or clearly beside it
        lines = [(a, b) for q, _ in self.quads for a, b in zip(q, q[1:] + q[:1])] + list(self.traces.values())
        for a, b in lines:
            d = exact.sub(b, a)
            for p in self.points:
                if between(p, a, b):
                    continue
                t = min(max(exact.dot(exact.sub(p, a), d) / exact.dot(d, d), F(0)), F(1))
                w = exact.sub(exact.sub(p, a), exact.mul(t, d))
                if exact.dot(w, w) < F(1, 100):
                    raise Flush
        self.pieces = {}  # piece -> set of owners: ("edge", plane, side) / ("trace", i, j)
        for i, (q, _) in enumerate(self.quads):
            for s, (a, b) in enumerate(zip(q, q[1:] + q[:1])):
                self.split(("edge", i, s), a, b)
        for (i, j), (a, b) in self.traces.items():
            self.split(("trace", i, j), a, b)

    def cross(self, s, t):
        a, b, c, d = s[0], s[1], t[0], t[1]
        u, v = exact.sub(b, a), exact.sub(d, c)
        n = exact.cross(u, v)
        w = exact.sub(c, a)
        if exact.zero(n):
            if exact.zero(exact.cross(u, w)) and any(between(p, a, b) for p in t) | any(between(p, c, d) for p in s):
                raise Flush  # along one line
            return None
        if exact.dot(w, n) != 0:
            return None
        x = exact.add(a, exact.mul(exact.dot(exact.cross(w, v), n) / exact.dot(n, n), u))
        return x if between(x, a, b) and between(x, c, d) else None

    def split(self, owner, a, b):
        d = exact.sub(b, a)
        on = sorted((p for p in self.relevant(owner) if between(p, a, b)), key=lambda p: exact.dot(exact.sub(p, a), d))
        for x, y in zip(on, on[1:]):
            self.pieces.setdefault(frozenset((x, y)), set()).add(owner)

    def relevant(self, owner):
        """Points that cut an edge or a trace: the ends and meets within its own fractures."""
        mine = {owner[1]} if owner[0] == "edge" else set(owner[1:])
        out = set(self.traces[owner[1:]]) if owner[0] == "trace" else {p for q, _ in [self.quads[owner[1]]] for p in q}
        for e, t in self.traces.items():
            if mine & set(e):
                out |= set(t)
        return out | self.meets

    def of(self, kind, i):
        return {p for p, o in self.pieces.items() if any(x[0] == kind and i in (x[1:2] if kind == "edge" else x[1:]) for x in o)}


def one(rng, planes):
    c = [rng.randint(3, 9) for _ in range(3)]
    if planes:
        # near an earlier one
        c = [min(max(x + rng.randint(-1, 1), 2), 10) for x in rng.choice(planes)["c"]]
    u, v = ([rng.randint(-4, 4) for _ in range(3)] for _ in "uv")
    r = [rng.choice([2, 3, 4, 5, 6]) for _ in range(4)]
    # as far as the box allows
    for s, (w, sign) in enumerate(((u, 1), (v, 1), (u, -1), (v, -1))):
        while r[s] > 1 and not all(1 <= x + sign * r[s] * y / 4 <= N - 1 for x, y in zip(c, w)):
            r[s] -= 1
    return {"c": c, "u": u, "v": v, "r": r, "turn": rng.randint(0, 3), "flip": rng.random() < 0.5}


@st.composite
def fractures(draw, top=4):
    planes = []
    k = draw(st.sampled_from([1] + [x for x in (2, 2, 3, 3, 3, 4, 4, 5) if x <= top] * 2))
    for i in range(k):
        rng = random.Random(draw(st.integers(0, 2**20)))
        meet = rng.random() < 0.5
        for attempt in range(40):
            trial = planes + [one(rng, planes)]
            try:
                p = Planes({"planes": trial})
            except Flush:
                continue
            # most of the first attempts ask for a crossing, some for traces that meet
            if i and attempt < 30 and not any(i in e for e in p.traces):
                continue
            if i > 1 and meet and attempt < 30 and not p.meets:
                continue
            planes = trial
            break
    assume(planes)
    return {
        "planes": planes,
        "frame": draw(exact.frames()),
        "tags": draw(st.sampled_from([None, [9, 1, 2, 3, 4, 5, 6], [1, 12, 11, 10, 9, 8, 7]])),
        "mesher": draw(st.sampled_from(["discrete", "discrete", "conformal"])),
        "h": draw(st.sampled_from([3.0, 5.0, 8.0])),
        "refine": draw(st.sampled_from([0, 0, 0, 1])),
    }


def build(case, c, ctx):
    """The domain that the builder makes of the file of fractures."""
    from topology.domain_market import build_box_3D_with_planes

    image = lambda p: exact.apply_frame(case["frame"], [p])[0]
    rows = []
    for pl, (q, _) in zip(case["planes"], c.quads):
        q = q[pl["turn"]:] + q[: pl["turn"]]
        rows.append(np.array([image(p) for p in (q[::-1] if pl["flip"] else q)]).ravel())
    path = os.path.join(ctx.tmp, "planes.csv")
    with open(path, "w") as f:
        f.write("\n".join(", ".join("%.17g" % x for x in r) for r in rows))
    tags = None
    if case["tags"]:
        tags = dict(zip(["solid"] + ["bc_%d" % i for i in range(6)], case["tags"]))
    box = np.array([image(p) for p in c.box])
    return build_box_3D_with_planes(box, path, tags), image


def start(case, ctx):
    c = Planes(case)
    ctx.mark(bool(c.traces))
    ctx.event("%d planes, %d traces" % (len(c.quads), len(c.traces)))
    if c.meets:
        ctx.event("traces that meet")
    return c


@subcheck(
    "C26",
    "planes",
    fractures(),
    quick=500,
    thorough=12000,
    rule="build_box_3D_with_planes on up to four quadrilaterals read from a file: the pieces of every edge and trace against the exact partition, shared by the fractures that meet, one vertex per point, tags of their own; non-trivial: two fractures that cross",
)
def planes(case, ctx):
    c = start(case, ctx)
    dom, image = build(case, c, ctx)
    size = np.linalg.norm(image(c.box[1]) - image(c.box[0]))
    where = {tuple(p): image(p) for p in c.points | set(c.box)}

    def locate(v):
        for p, x in where.items():
            if np.abs(v.point - x).max() < TOL * (size + np.abs(x).max()):
                return p
        raise Violation("a vertex at %s, where nothing ends or meets" % (v.point,))

    for d in range(4):
        t = [s.tag for s in dom.shapes[d]]
        if len(set(t)) != len(t):
            raise Violation("shapes of dimension %d share tags: %s" % (d, sorted(t)), key="tags")
    box_tags = case["tags"] or list(range(1, 8))
    solids = [s for s in dom.shapes[3] if not s.composite]
    if len(solids) != 1 or solids[0].physical_tag != box_tags[0]:
        raise Violation("%d solids, tagged %s" % (len(solids), [s.physical_tag for s in solids]))
    shell = solids[0].boundary_shapes
    sides = list(shell[0].immersed_shapes) if len(shell) == 1 else []
    if [s.physical_tag for s in sides] != box_tags[1:]:
        raise Violation("the sides of the box are tagged %s" % [s.physical_tag for s in sides])
    faces = list(solids[0].immersed_shapes)
    k = len(c.quads)
    if len(faces) != k or any(not any(f is s for s in dom.shapes[2]) for f in faces):
        raise Violation("the solid holds %d fractures of %d" % (len(faces), k))
    used = [f.physical_tag for f in faces]
    if None in used or len(set(used) | set(box_tags)) != k + 7:
        raise Violation("the fractures are tagged %s" % used)
    in_domain = {id(s) for d in range(3) for s in dom.shapes[d]}
    leaves = lambda e: list(e.immersed_shapes) if len(e.immersed_shapes) else [e]
    vertex, owner, parents = {}, {}, {}

    def ends(e):
        out = []
        for v in e.boundary_shapes:
            p = locate(v)
            if vertex.setdefault(p, v) is not v:
                raise Violation("two vertices are used at %s" % (p,), key="two-vertices")
            if id(v) not in in_domain:
                raise Violation("the vertex at %s is not part of the domain" % (p,), key="lost")
            out.append(p)
        return out

    def collect(edges, want, name):
        got = {}
        for e in edges:
            if id(e) not in in_domain:
                raise Violation("an edge of %s is not part of the domain" % name, key="lost")
            p = frozenset(ends(e))
            if owner.setdefault(p, e) is not e:
                raise Violation("two edges between %s" % sorted(p), key="two-edges")
            got[p] = e
        if set(got) != want:
            raise Violation("%s is made of %d pieces, %d expected: %s" % (name, len(got), len(want), [sorted(map(str, x)) for x in set(got) ^ want]), key="pieces")
        return got

    for s in sides:
        if len(s.immersed_shapes):
            raise Violation("a side of the box holds %d shapes" % len(s.immersed_shapes))
    for i, f in enumerate(faces):
        wire = f.boundary_shapes[0]
        wire.orient_immersed_edges()
        edges = list(wire.immersed_shapes)
        collect(edges, c.of("edge", i), "the boundary of fracture %d" % i)
        if len(edges) != len(c.of("edge", i)):
            raise Violation("the boundary of fracture %d has %d edges" % (i, len(edges)))
        walk = [ends(e)[:: 1 if o > 0 else -1] for e, o in zip(edges, wire.orientation)]
        for x, y in zip(walk, walk[1:] + walk[:1]):
            if x[1] != y[0]:
                raise Violation("the boundary of fracture %d jumps from %s to %s" % (i, x[1], y[0]))
        inner = [x for e in f.immersed_shapes for x in leaves(e)]
        collect(inner, c.of("trace", i), "the inside of fracture %d" % i)
        for e in f.immersed_shapes:
            parents[id(e)] = e
    tags = {}
    for e in parents.values():
        p = frozenset(ends(e))
        if p not in {frozenset(t) for t in c.traces.values()}:
            raise Violation("an edge from %s to %s is embedded, which is no trace" % tuple(sorted(p)))
        if e.physical_tag is None or tags.setdefault(e.physical_tag, p) != p:
            raise Violation("a trace is tagged %s" % e.physical_tag)
    new = [vertex[p].physical_tag for p in c.meets]
    if None in new or len(set(new)) != len(new):
        raise Violation("the vertices where traces meet are tagged %s" % new)
    nodes = set(dom.graph.nodes())
    lost = [x.index(3) for x in list(vertex.values()) + list(owner.values()) + faces if x.index(3) not in nodes]
    if lost:
        raise Violation("the graph does not hold %s" % lost)


def in_child(ctx, work, limit):
    """Run in a forked process: gmsh may crash or never return.  Returns the
    JSON that work() wrote, or None."""
    path = os.path.join(ctx.tmp, "child.json")
    if os.path.exists(path):
        os.remove(path)
    pid = os.fork()
    if pid == 0:
        try:
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            out = work()
            with open(path + ".tmp", "w") as f:
                json.dump(out, f)
            os.rename(path + ".tmp", path)
        finally:
            os._exit(0)
    until = time.time() + limit
    while time.time() < until:
        done, _ = os.waitpid(pid, os.WNOHANG)
        if done:
            break
        time.sleep(0.005)
    else:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        return None
    if not os.path.exists(path):
        return None
    with open(path) as f:
        return json.load(f)


def mesh_file(case, dom, h, path):
    """What happened: "done", "gmsh" (it gave up on the mesh) or the error."""
    import gmsh
    from mesh.conformal_mesher import ConformalMesher
    from mesh.discrete_domain import DiscreteDomain

    stage = ["model"]
    start_up, generate = gmsh.initialize, gmsh.model.mesh.generate

    def initialize(*args, **kwargs):
        start_up(*args, **kwargs)
        gmsh.option.setNumber("General.Terminal", 0)

    def marked(*args, **kwargs):
        stage[0] = "mesh"
        generate(*args, **kwargs)
        stage[0] = "after"

    gmsh.initialize, gmsh.model.mesh.generate = initialize, marked
    try:
        if case["mesher"] == "conformal":
            m = ConformalMesher(dimension=3)
            m.domain = dom
            m.generate_from_domain(h, case["refine"])
        else:
            m = DiscreteDomain(dimension=3)
            m.domain = dom
            m.generate_mesh({"lc": h, "n_refinements": case["refine"]})
        m.write_mesh(path)
    except Exception as e:
        return "gmsh" if stage[0] == "mesh" else "%s: %s" % (type(e).__name__, e)
    return "done"


def near(x, a, b, tol):
    d = b - a
    t = np.clip(np.dot(x - a, d) / np.dot(d, d), 0.0, 1.0)
    return np.linalg.norm(x - a - t * d) < tol


@subcheck(
    "C26",
    "mesh",
    fractures(),
    quick=150,
    thorough=1500,
    rule="DiscreteDomain and ConformalMesher on these domains: the tetrahedra fill the box, every side and fracture is covered by triangles with its tag, those of fractures lie between two tetrahedra, every trace is covered by edges with its tag; non-trivial: two fractures that cross",
)
def mesh(case, ctx):
    from mesh.mesh import Mesh

    c = start(case, ctx)
    image = lambda p: exact.apply_frame(case["frame"], [p])[0]
    x = np.array([image(p) for p in c.box])
    size = np.linalg.norm(x[1] - x[0])
    path = os.path.join(ctx.tmp, "m.msh")
    for h in (case["h"], 4.0, 2.5):
        work = lambda: mesh_file(case, build(case, c, ctx)[0], h / N * size, path)
        got = in_child(ctx, work, 20)
        if got not in (None, "gmsh"):
            break
        ctx.event("gmsh gave up once")
    else:
        ctx.event("gmsh gave up")
        return
    if got != "done":
        raise Violation("the mesher fails with %s" % got, key="mesher")
    dom, _ = build(case, c, ctx)
    solid = [s for s in dom.shapes[3] if not s.composite][0]
    m = Mesh(dimension=3, file_name=path)
    m.build_conformal_mesh()
    P = np.array(m.points, dtype=float)
    by, count = {}, {}
    for cell in m.cells:
        if cell is None:
            continue
        if cell.material_id is not None:
            by.setdefault((cell.dimension, int(cell.material_id)), []).append(cell)
        if cell.dimension == 3:
            for f in cell.sub_cells_ids[2]:
                count[int(f)] = count.get(int(f), 0) + 1

    def measure(cells):
        if not cells:
            return 0.0
        y = P[np.array([z.node_tags for z in cells])]
        e = y[:, 1:] - y[:, :1]
        g = np.linalg.det(e @ np.transpose(e, (0, 2, 1)))
        return float(np.sqrt(np.maximum(g, 0)).sum()) / [1, 1, 2, 6][e.shape[1]]

    box_tags = case["tags"] or list(range(1, 8))
    volume = abs(np.linalg.det(np.array([x[1] - x[0], x[3] - x[0], x[4] - x[0]])))
    if {t for d, t in by if d == 3} != {box_tags[0]} or abs(measure(by[3, box_tags[0]]) - volume) > 1e-7 * volume:
        raise Violation("tetrahedra tagged %s fill %s of %s" % (sorted(t for d, t in by if d == 3), measure(by.get((3, box_tags[0]), [])), volume))
    loops = [[0, 1, 2, 3], [4, 5, 6, 7], [0, 1, 5, 4], [1, 2, 6, 5], [2, 3, 7, 6], [3, 0, 4, 7]]
    flat = [(t, x[l], 1) for t, l in zip(box_tags[1:], loops)]
    flat += [(int(f.physical_tag), np.array([image(p) for p in q]), 2) for f, (q, _) in zip(solid.immersed_shapes, c.quads)]
    if {t for d, t in by if d == 2} != {t for t, _, _ in flat}:
        raise Violation("triangles are tagged %s" % sorted(t for d, t in by if d == 2))
    bound = set()
    for t, q, n in flat:
        cells = by[2, t]
        area = np.linalg.norm(np.cross(q[2] - q[0], q[3] - q[1])) / 2
        if abs(measure(cells) - area) > 1e-7 * area:
            raise Violation("triangles with tag %d cover %s, %s expected" % (t, measure(cells), area))
        normal = np.cross(q[1] - q[0], q[3] - q[0])
        normal /= np.linalg.norm(normal)
        far = max(abs((P[z.node_tags] - q[0]) @ normal).max() for z in cells)
        if far > 1e-7 * size:
            raise Violation("triangles with tag %d lie off their plane by %s" % (t, far))
        bad = [count.get(int(z.id), 0) for z in cells if count.get(int(z.id), 0) != n]
        if bad:
            raise Violation("%d of %d triangles with tag %d bound %s tetrahedra, %d expected" % (len(bad), len(cells), t, sorted(set(bad)), n), key="conformity")
        if n == 1:
            bound |= {int(z.id) for z in cells}
    lost = [f for f, n in count.items() if n == 1 and f not in bound]
    if lost or (count and max(count.values()) > 2):
        raise Violation("%d facets on the boundary carry no tag" % len(lost), key="conformity")
    of = {}
    for f in solid.immersed_shapes:
        for e in f.immersed_shapes:
            of[int(e.physical_tag)] = np.array([v.point for v in e.boundary_shapes])
    lines = {t: z for (d, t), z in by.items() if d == 1}
    if set(lines) != set(of):
        raise Violation("edges are tagged %s, the traces %s" % (sorted(lines), sorted(of)), key="traces")
    for t, (a, b) in of.items():
        length = np.linalg.norm(b - a)
        if abs(measure(lines[t]) - length) > 1e-7 * size or not all(near(y, a, b, 1e-7 * size) for z in lines[t] for y in P[z.node_tags]):
            raise Violation("edges with tag %d cover %s of a trace of length %s" % (t, measure(lines[t]), length), key="traces")
    here = [P[z.node_tags[0]] for (d, _), v in by.items() if d == 0 for z in v]
    for p in c.meets:
        if not any(np.linalg.norm(image(p) - y) < 1e-7 * size for y in here):
            raise Violation("no tagged vertex at %s, where traces meet" % (p,), key="meets")
