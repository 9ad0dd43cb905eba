"""Generated simplicial meshes.

A mesh case is a plain dict (JSON) that `realize` turns into ground-truth
arrays, and `build` feeds to the library through its normal entry point: a
gmsh 2.2 file read by `Mesh(dimension, file_name)` + `build_conformal_mesh()`.

Every mesh is conforming and consistently (positively) oriented, as the meshes
gmsh hands the library are; vertex numbering, cell order, the order of nodes
inside a cell, geometry, and the physical tags of cells, facets and vertices of
any dimension are drawn freely.
"""

import itertools
import os

import numpy as np
from hypothesis import strategies as st

CELL_NAME = {0: "vertex", 1: "line", 2: "triangle", 3: "tetra"}

# ---------------------------------------------------------------------------
# templates: (points, cells) with integer coordinates


def _grid1(n):
    pts = [(float(i), 0.0, 0.0) for i in range(n + 1)]
    return pts, [(i, i + 1) for i in range(n)]


def _grid2(nx, ny, diag):
    idx = lambda i, j: i * (ny + 1) + j
    pts = [(float(i), float(j), 0.0) for i in range(nx + 1) for j in range(ny + 1)]
    cells = []
    k = 0
    for i in range(nx):
        for j in range(ny):
            a, b, c, d = idx(i, j), idx(i + 1, j), idx(i + 1, j + 1), idx(i, j + 1)
            if diag[k % len(diag)]:
                cells += [(a, b, c), (a, c, d)]
            else:
                cells += [(a, b, d), (b, c, d)]
            k += 1
    return pts, cells


def _fan2(k):
    pts = [(0.0, 0.0, 0.0)]
    for i in range(k):
        t = 2 * np.pi * i / k
        pts.append((float(np.cos(t)), float(np.sin(t)), 0.0))
    return pts, [(0, 1 + i, 1 + (i + 1) % k) for i in range(k)]


def _tri2():
    return [(0.0, 0.0, 0.0), (1.0, 0.0, 0.0), (0.0, 1.0, 0.0)], [(0, 1, 2)]


def _tet3():
    return (
        [(0.0, 0.0, 0.0), (1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0)],
        [(0, 1, 2, 3)],
    )


def _pair3():
    return (
        [
            (0.0, 0.0, 0.0),
            (1.0, 0.0, 0.0),
            (0.0, 1.0, 0.0),
            (0.3, 0.3, 1.0),
            (0.3, 0.3, -1.0),
        ],
        [(0, 1, 2, 3), (0, 2, 1, 4)],
    )


def _ring3(k):
    pts = [(0.0, 0.0, -0.7), (0.0, 0.0, 0.7)]
    for i in range(k):
        t = 2 * np.pi * i / k
        pts.append((float(np.cos(t)), float(np.sin(t)), 0.0))
    return pts, [(0, 1, 2 + i, 2 + (i + 1) % k) for i in range(k)]


def _kuhn3(nx, ny, nz):
    idx = lambda i, j, k: (i * (ny + 1) + j) * (nz + 1) + k
    pts = [
        (float(i), float(j), float(k))
        for i in range(nx + 1)
        for j in range(ny + 1)
        for k in range(nz + 1)
    ]
    cells = []
    for i in range(nx):
        for j in range(ny):
            for k in range(nz):
                for perm in itertools.permutations(range(3)):
                    p = [i, j, k]
                    path = [idx(*p)]
                    for ax in perm:
                        p[ax] += 1
                        path.append(idx(*p))
                    cells.append(tuple(path))
    return pts, cells


TEMPLATES = {
    "seg1": lambda a: _grid1(a[0]),
    "grid2": lambda a: _grid2(a[0], a[1], a[2]),
    "fan2": lambda a: _fan2(a[0]),
    "tri2": lambda a: _tri2(),
    "tet3": lambda a: _tet3(),
    "pair3": lambda a: _pair3(),
    "ring3": lambda a: _ring3(a[0]),
    "kuhn3": lambda a: _kuhn3(a[0], a[1], a[2]),
}


def signed_volume(pts, cell, dim):
    p = np.asarray([pts[v] for v in cell], dtype=float)
    e = p[1:] - p[0]
    if dim == 1:
        return e[0][0]
    if dim == 2:
        return e[0][0] * e[1][1] - e[0][1] * e[1][0]
    return float(np.linalg.det(e))


def facets_of(cell, d):
    return [tuple(sorted(c)) for c in itertools.combinations(cell, d + 1)]


EVEN = {
    1: [(0, 1)],
    2: [(0, 1, 2), (1, 2, 0), (2, 0, 1)],
    3: [p for p in itertools.permutations(range(4))
        if np.linalg.det(np.eye(4)[list(p)]) > 0],
}
ALL = {n: list(itertools.permutations(range(n))) for n in (1, 2, 3, 4)}


# ---------------------------------------------------------------------------
# strategies


@st.composite
def mesh_cases(
    draw,
    dims=(1, 2, 3),
    small=False,
    max_cells=24,
    flat=True,
    interior_tags=True,
    materials=3,
    affine=True,
    all_tagged_boundary=False,
    scales=(1.0,),
    keep_all_cells=False,
    simple_geometry=False,
    lower=0,
):
    dim = draw(st.sampled_from(list(dims)))
    if dim == 1:
        kind, args = "seg1", [draw(st.integers(1, 5))]
    elif dim == 2:
        kind = draw(st.sampled_from(["grid2", "grid2", "fan2", "tri2"]))
        if kind == "grid2":
            nx = draw(st.integers(1, 2 if small else 3))
            ny = draw(st.integers(1, 2 if small else 3))
            args = [nx, ny, draw(st.lists(st.booleans(), min_size=1, max_size=4))]
        elif kind == "fan2":
            args = [draw(st.integers(3, 6))]
        else:
            args = []
    else:
        kind = draw(st.sampled_from(["pair3", "ring3", "kuhn3", "pair3", "tet3"]))
        if kind == "ring3":
            args = [draw(st.integers(3, 5))]
        elif kind == "kuhn3":
            args = [1, 1, 1] if small else [1, 1, draw(st.integers(1, 2))]
        else:
            args = []
    pts, cells = TEMPLATES[kind](args)
    n, m = len(pts), len(cells)
    case = {"dim": dim, "kind": kind, "args": args}
    # drop cells (the rest stays conforming)
    drop = []
    if m > 2 and not keep_all_cells and draw(st.booleans()):
        drop = draw(
            st.lists(st.integers(0, m - 1), max_size=max(1, m // 3), unique=True)
        )
        if len(drop) == m:
            drop = []
    case["drop"] = sorted(drop)
    if simple_geometry:
        case["jitter"] = []
    else:
        case["jitter"] = draw(
            st.lists(st.integers(-4, 4), min_size=dim * n, max_size=dim * n)
        )
    case["vperm"] = draw(st.permutations(list(range(n))))
    case["corder"] = draw(st.integers(0, 10**6)) if m > 1 else 0
    case["rot"] = draw(
        st.lists(
            st.integers(0, len(EVEN[dim]) - 1), min_size=m, max_size=m
        )
    )
    if dim == 1:
        # a 1d mesh has no canonical direction: gmsh chains segments head to tail
        case["flip1"] = draw(st.booleans())
    if affine and not simple_geometry:
        case["aff"] = draw(
            st.lists(st.integers(-3, 3), min_size=9, max_size=9)
        )
        case["shift"] = draw(st.lists(st.integers(-3, 3), min_size=3, max_size=3))
    else:
        case["aff"], case["shift"] = [0] * 9, [0, 0, 0]
    case["scale"] = draw(st.sampled_from(list(scales)))
    case["flat"] = bool(flat)
    # tags
    case["mat"] = draw(
        st.lists(st.integers(1, materials), min_size=m, max_size=m)
    ) if materials > 1 else [1] * m
    case["bmode"] = "all" if all_tagged_boundary else draw(
        st.sampled_from(["all", "some", "none", "all"])
    )
    case["btag"] = draw(st.lists(st.integers(0, 3), min_size=4, max_size=4))
    case["itag"] = (
        draw(st.lists(st.integers(0, 5), min_size=1, max_size=6))
        if interior_tags
        else [0]
    )
    case["vtag"] = draw(st.lists(st.integers(0, 4), min_size=1, max_size=4))
    case["etag"] = draw(st.lists(st.integers(0, 6), min_size=1, max_size=4)) if interior_tags else [0]
    case["frot"] = draw(st.lists(st.integers(0, 5), min_size=1, max_size=5))
    case["border"] = draw(st.integers(0, 5))
    # the field lives on tagged entities of a lower dimension of the mesh
    if lower and dim > 1 and draw(st.integers(0, lower)) == lower:
        case["sub"] = draw(st.integers(1, dim - 1))
    # physical tags are numbered per dimension: the same numbers may be in use
    # on cells, facets, edges and vertices
    case["shared"] = draw(st.sampled_from([False, False, True]))
    return case


@st.composite
def large_cases(draw, dims=(1, 2, 2, 3), top=(600, 30, 6)):
    """Meshes of hundreds to thousands of entities, numbered at random; every
    other choice of a mesh case is derived from a drawn seed (see `expand`)."""
    dim = draw(st.sampled_from(list(dims)))
    hi = top[dim - 1]
    if dim == 1:
        kind, args = "seg1", [draw(st.integers(hi // 4, hi))]
    elif dim == 2:
        kind = "grid2"
        args = [draw(st.integers(hi // 3, hi)), draw(st.integers(hi // 3, hi))]
        args.append(draw(st.lists(st.booleans(), min_size=1, max_size=4)))
    else:
        kind = "kuhn3"
        args = [draw(st.integers(hi // 2, hi)) for _ in range(3)]
    case = {"dim": dim, "kind": kind, "args": args, "large": draw(st.integers(0, 10**6))}
    case["shift"] = [draw(st.integers(-3, 3)) for _ in range(dim)] + [0] * (3 - dim)
    case["bmode"] = draw(st.sampled_from(["all", "some", "none"]))
    case["materials"] = draw(st.sampled_from([1, 3, 3, 400]))
    case["scale"] = 1.0
    case["shared"] = draw(st.booleans())
    return case


def expand(case):
    dim = case["dim"]
    pts, cells = TEMPLATES[case["kind"]](case["args"])
    n, m = len(pts), len(cells)
    rs = np.random.RandomState(case["large"] % 2**32)
    full = dict(case)
    full["drop"] = sorted(set(rs.randint(0, m, m // 20).tolist()))
    full["jitter"] = rs.randint(-4, 5, dim * n).tolist()
    full["vperm"] = rs.permutation(n).tolist()
    full["corder"] = rs.permutation(m - len(full["drop"])).tolist()
    full["rot"] = rs.randint(0, len(EVEN[dim]), m).tolist()
    full["flip1"] = bool(rs.randint(2))
    full["aff"] = rs.randint(-3, 4, 9).tolist()
    full["flat"] = True
    full["mat"] = rs.randint(1, case["materials"] + 1, m).tolist()
    for name, low, high, size in [
        ("btag", 0, 4, 4),
        ("itag", 0, 6, 60),
        ("vtag", 0, 5, 40),
        ("etag", 0, 7, 40),
        ("frot", 0, 6, 50),
    ]:
        ints = rs.randint(low, high, size).tolist()
        full.setdefault(name, ints)
    full["border"] = int(rs.randint(6))
    return full


def fdim(case):
    """Dimension of the entities the fields of a case live on."""
    return case.get("sub") or case["dim"]


class Real:
    """Ground truth for a mesh case."""

    def __init__(self):
        self.dim = None
        self.points = None
        self.cells = None  # list of node tuples, top dimension, in file order
        self.tags = {}  # dim -> {sorted node tuple: tag}
        self.blocks = None  # list of (dim, list of node tuples, list of tags)


def realize(case):
    if "large" in case:
        case = expand(case)
    dim = case["dim"]
    pts, cells = TEMPLATES[case["kind"]](case["args"])
    drop = set(case["drop"])
    cells = [c for i, c in enumerate(cells) if i not in drop]
    mats = [t for i, t in enumerate(case["mat"]) if i not in drop]
    pts = np.array(pts, dtype=float)
    # orient
    oriented = []
    for c in cells:
        if signed_volume(pts, c, dim) < 0:
            c = (c[1], c[0]) + tuple(c[2:])
        oriented.append(c)
    # jitter, reduced until every cell keeps a healthy volume
    if case["jitter"]:
        jit = np.zeros_like(pts)
        jit[:, :dim] = np.array(case["jitter"], dtype=float).reshape(-1, dim)
        ref = np.array([signed_volume(pts, c, dim) for c in oriented])
        amp = 0.06
        while True:
            cand = pts + amp * jit
            vol = np.array([signed_volume(cand, c, dim) for c in oriented])
            if np.all(vol > 0.25 * ref):
                pts = cand
                break
            amp *= 0.5
    # affine image, orientation preserving; flat meshes stay in their R^dim
    A = np.eye(3) + 0.2 * np.array(case["aff"], dtype=float).reshape(3, 3)
    if case["flat"]:
        B = np.eye(3)
        B[:dim, :dim] = A[:dim, :dim]
        A = B
        if np.linalg.det(A[:dim, :dim]) < 0.2:
            A = np.eye(3)
    elif abs(np.linalg.det(A)) < 0.2 or np.linalg.det(A) < 0:
        A = np.eye(3)
    shift = np.array(case["shift"], dtype=float)
    if case["flat"]:
        shift[dim:] = 0.0
    pts = case["scale"] * (pts @ A.T + shift)
    # renumber vertices
    vperm = list(case["vperm"])
    new = np.empty_like(pts)
    for old, nw in enumerate(vperm):
        new[nw] = pts[old]
    cells = [tuple(vperm[v] for v in c) for c in oriented]
    # permute nodes inside cells, keeping orientation
    rot = [r for i, r in enumerate(case["rot"]) if i not in drop]
    cells = [tuple(c[k] for k in EVEN[dim][r]) for c, r in zip(cells, rot)]
    if dim == 1 and case.get("flip1"):
        cells = [c[::-1] for c in cells]
    # order of cells
    order = _nth_permutation(len(cells), case["corder"])
    cells = [cells[i] for i in order]
    mats = [mats[i] for i in order]
    # only vertices in use (others would be dangling points of the file)
    used = sorted({v for c in cells for v in c})
    remap = {v: i for i, v in enumerate(used)}
    cells = [tuple(remap[v] for v in c) for c in cells]
    new = new[used]

    r = Real()
    r.dim, r.points, r.cells = dim, new, cells
    r.tags = {d: {} for d in range(4)}
    for c, t in zip(cells, mats):
        r.tags[dim][tuple(sorted(c))] = int(t)
    # facets
    count = {}
    for c in cells:
        for f in facets_of(c, dim - 1):
            count[f] = count.get(f, 0) + 1
    bnd = sorted(f for f, k in count.items() if k == 1)
    inn = sorted(f for f, k in count.items() if k > 1)
    for i, f in enumerate(bnd):
        if case["bmode"] == "all":
            r.tags[dim - 1][f] = 10 + case["btag"][i % 4]
        elif case["bmode"] == "some" and case["btag"][i % 4] > 1:
            r.tags[dim - 1][f] = 10 + case["btag"][i % 4]
    for i, f in enumerate(inn):
        t = case["itag"][i % len(case["itag"])]
        if t > 3:
            r.tags[dim - 1][f] = 20 + t
    if case.get("interfaces"):
        sides = {}
        for c, t in zip(cells, mats):
            for f in facets_of(c, dim - 1):
                sides.setdefault(f, set()).add(t)
        for f in inn:
            if len(sides[f]) > 1:
                r.tags[dim - 1].setdefault(f, case["interfaces"])
    if dim >= 2:
        verts = list(range(len(new)))
        for i in verts:
            t = case["vtag"][i % len(case["vtag"])]
            if t > 2:
                r.tags[0][(i,)] = 30 + t
    if dim == 3:
        edges = sorted({e for c in cells for e in facets_of(c, 1)})
        for i, e in enumerate(edges):
            t = case["etag"][i % len(case["etag"])]
            if t > 4:
                r.tags[1][e] = 40 + t
    if case.get("sub") and not r.tags[case["sub"]]:
        for i, e in enumerate(sorted({e for c in cells for e in facets_of(c, case["sub"])})):
            if i % 2 == 0:
                r.tags[case["sub"]][e] = 50 + i % 3
    if case.get("shared"):
        for d in range(dim):
            r.tags[d] = {e: t % 10 + 1 for e, t in r.tags[d].items()}
    # file blocks: one per (dim, tag); lower-dimensional entities in any node order
    blocks = []
    for d in range(dim):
        bytag = {}
        for i, (e, t) in enumerate(sorted(r.tags[d].items())):
            p = ALL[d + 1][case["frot"][i % len(case["frot"])] % len(ALL[d + 1])]
            bytag.setdefault(t, []).append(tuple(e[k] for k in p))
        for t, es in bytag.items():
            blocks.append((d, es, [t] * len(es)))
    tops = {}
    for c, t in zip(cells, mats):
        tops.setdefault(t, []).append(c)
    for t, cs in tops.items():
        blocks.append((dim, cs, [t] * len(cs)))
    if case["border"] % 2 == 1:
        blocks = blocks[::-1]
    if case["border"] >= 4 and len(blocks) > 1:
        blocks = blocks[1:] + blocks[:1]
    r.blocks = blocks
    return r


def _nth_permutation(n, seed):
    """A permutation of range(n) selected by an integer (mixed radix)."""
    if isinstance(seed, list):
        return seed
    items = list(range(n))
    out = []
    s = int(seed)
    while items:
        out.append(items.pop(s % len(items)))
        s //= len(items) + 1
    return out


def write_msh(real, path):
    """gmsh 2.2 ASCII, the format of the library's mesh files."""
    with open(path, "w") as f:
        f.write("$MeshFormat\n2.2 0 8\n$EndMeshFormat\n")
        f.write("$Nodes\n%d\n" % len(real.points))
        for i, p in enumerate(real.points):
            f.write("%d %.17g %.17g %.17g\n" % (i + 1, p[0], p[1], p[2]))
        f.write("$EndNodes\n$Elements\n")
        f.write("%d\n" % sum(len(b[1]) for b in real.blocks))
        k = 1
        typ = {0: 15, 1: 1, 2: 2, 3: 4}
        for d, es, ts in real.blocks:
            for e, t in zip(es, ts):
                f.write(
                    "%d %d 2 %d %d %s\n"
                    % (k, typ[d], t, t, " ".join(str(v + 1) for v in e))
                )
                k += 1
        f.write("$EndElements\n")


def build(real, tmp, name="mesh.msh"):
    from mesh.mesh import Mesh

    path = os.path.join(tmp, name)
    write_msh(real, path)
    mesh = Mesh(dimension=real.dim, file_name=path)
    mesh.build_conformal_mesh()
    return mesh


def make(case, tmp):
    real = realize(case)
    mesh = build(real, tmp)
    if case.get("sub"):
        real = lower_real(real, case["sub"])
    return real, mesh


def lower_real(real, d):
    """The tagged entities of dimension d as a complex of their own."""
    r = Real()
    r.dim, r.points, r.host = d, real.points, real
    r.cells = [e for dd, es, _ in real.blocks if dd == d for e in es]
    r.tags = {k: {} for k in range(4)}
    r.tags[d] = dict(real.tags[d])
    for k in range(d):
        inside = {e for c in r.cells for e in facets_of(c, k)}
        r.tags[k] = {e: t for e, t in real.tags[k].items() if e in inside}
    r.blocks = real.blocks
    return r


def entities(real, d):
    """All d-dimensional sub-simplices of the mesh, as sorted node tuples."""
    return sorted({e for c in real.cells for e in facets_of(c, d)})
