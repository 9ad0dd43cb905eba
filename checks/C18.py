"""C18 - assembly of local contributions."""

import numpy as np
from hypothesis import strategies as st

from harness import fields, meshes
from harness.core import Violation, subcheck

TITLE = "The assembled residual and Jacobian are the sum of the local contributions"
ASSUMPTIONS = ["local contributions are integers times a common power of two, so that summation order does not matter"]


@st.composite
def cases(draw, large=None):
    if large:
        c = draw(meshes.large_cases(top=large))
        c["bmode"] = "all"
    else:
        c = draw(meshes.mesh_cases(dims=(1, 2, 2, 3), small=True, flat=True, all_tagged_boundary=True, max_cells=8, lower=4))
    fl = []
    for _ in range(draw(st.integers(1, 3))):
        fam = draw(st.sampled_from(["Lagrange", "RT"] if meshes.fdim(c) == 1 else ["Lagrange", "RT", "N1E"]))
        fl.append([fam, draw(st.integers(1, 2)), draw(st.integers(1, 3)), draw(st.booleans())])
    c["fields"] = fl
    c["shift"] = c["shift"]
    c["dofshift"] = draw(st.sampled_from([0, 0, 3]))
    kinds = ["form", "bc_form", "interface_form", "bc_interface_form", "time_dependent_form", "time_dependent_bc_form"]
    c["items"] = draw(
        st.lists(
            st.tuples(
                st.sampled_from(kinds),
                st.lists(st.integers(0, 5000 if large else 50), min_size=0, max_size=30 if large else 6),
                st.integers(1, 97),
            ),
            min_size=1,
            max_size=4,
        )
    )
    c["rounds"] = draw(st.integers(1, 2))
    c["columns"] = draw(st.booleans())
    c["petsc"] = draw(st.booleans())
    c["measure"] = draw(st.booleans())
    c["power"] = draw(st.sampled_from([0, 0, -40, -60, 30]))
    return c


class Recorder:
    """A weak form with arbitrary integer contributions; records its arguments."""

    def __init__(self, space, kind, seed, power=0, columns=False):
        self.space, self.kind, self.seed, self.columns = space, kind, seed, columns
        self.scale = 2.0**power
        self.calls = []

    def local(self, n):
        k = len(self.calls)
        i = np.arange(n)
        r = ((self.seed * 7 + 3 * i + 5 * k) % 11) - 5.0
        J = ((self.seed * 5 + 7 * i[:, None] + 3 * i[None, :] * (1 + i[:, None]) + k) % 13) - 6.0
        # how the matrix is stored is the form's business
        return self.scale * r, np.array(self.scale * J, order="F" if self.columns else "C")

    def evaluate_form(self, *args):
        if self.kind == "interface_form":
            a = args[2]
            n = len(a[0]) + len(a[1])
        elif self.kind == "bc_interface_form":
            n = len(args[2])
        else:
            n = len(args[1])
        out = self.local(n)
        self.calls.append([np.copy(x) if isinstance(x, np.ndarray) else x for x in args])
        return out


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.array_equal(a, b)


@subcheck(
    "C18",
    "scatter",
    cases(),
    quick=1600,
    thorough=24000,
    rule="1-4 forms of the six kinds over drawn element sequences (repeats allowed, several rounds), recording stand-in forms with integer contributions times 2^30 ... 2^-60, stored by rows or by columns, numpy residual and PETSc dense or sparse matrix, against a dense sum; the arguments each form receives are checked; non-trivial: at least two contributions",
)
def scatter(case, ctx):
    from assembly.SequentialAssembler import SequentialAssembler

    real, mesh = meshes.make(case, ctx.tmp)
    dim = real.dim
    spec = {"f%d" % i: (dim, f[2], f[0], f[1]) for i, f in enumerate(case["fields"])}
    disc = {"f%d" % i: f[3] for i, f in enumerate(case["fields"])}
    space = fields.product_space(real, mesh, spec, disc=disc, btags=fields.tags_of(real, dim - 1))
    first = space.discrete_spaces["f0"]
    nel, nbc = len(first.elements), len(first.bc_elements)
    N = space.n_dof + case["dofshift"]
    space.dof_shift = case["dofshift"]
    alpha = fields.coefficients(N, [3])
    alpha_n = fields.coefficients(N, [8])
    R = np.zeros(N)
    A = np.zeros((N, N))
    res = np.zeros(N)
    from petsc4py import PETSc

    if case["petsc"]:
        jac = PETSc.Mat().createDense([N, N], comm=PETSc.COMM_SELF)
    else:
        jac = PETSc.Mat().createAIJ([N, N], nnz=N, comm=PETSc.COMM_SELF)
    jac.setUp()
    jac.zeroEntries()
    # boundary facets shared with interfaces may be tagged: restrict to what exists
    items = {}
    expect = []
    total = 0
    for j, (kind, seq, seed) in enumerate(case["items"]):
        form = Recorder(space, kind, seed, case.get("power", 0), case.get("columns"))
        if kind in ("form", "time_dependent_form"):
            s = [i % nel for i in seq]
        elif kind in ("bc_form", "time_dependent_bc_form"):
            s = [i % nbc for i in seq] if nbc else []
        elif kind == "interface_form":
            s = [(100 + i, (i % nel, (i + 1 + i // 7) % nel)) for i in seq]
        else:
            s = [(200 + i, i % nel) for i in seq]
        total += len(s)
        ctx.event(kind)
        name = "item%d" % j
        if kind.startswith("time"):
            items[name] = (kind, s, form, (alpha_n, alpha), 0.25 + j)
        else:
            items[name] = (kind, s, form, alpha)
        expect.append((kind, s, form, 0.25 + j))
    ctx.mark(total > 1)
    asm = SequentialAssembler(space, jac, res)
    asm.form_to_input_list = items
    for _ in range(case["rounds"]):
        asm.scatter_forms(case["measure"])
    jac.assemble()
    got = np.array(jac.convert("dense").getDenseArray())
    for kind, s, form, t in expect:
        calls, form.calls = form.calls, []
        if len(calls) != case["rounds"] * len(s):
            raise Violation("%s: %d evaluations for %d entries of the sequence" % (kind, len(calls), len(s)))
        k = 0
        for _ in range(case["rounds"]):
            for e in s:
                args = calls[k]
                k += 1
                if kind in ("form", "time_dependent_form"):
                    dest = space.destination_indexes(e)
                    want = [e, alpha[dest]] if kind == "form" else [e, alpha_n[dest], alpha[dest], t]
                elif kind in ("bc_form", "time_dependent_bc_form"):
                    dest = space.bc_destination_indexes(e)
                    want = [e, alpha[dest]] if kind == "bc_form" else [e, alpha_n[dest], t]
                elif kind == "interface_form":
                    dp, dn = (space.destination_indexes(v) for v in e[1])
                    dest = np.concatenate((dp, dn))
                    want = [e[0], e[1], (alpha[dp], alpha[dn])]
                else:
                    dest = space.destination_indexes(e[1])
                    want = [e[0], e[1], alpha[dest]]
                for w, g in zip(want, args):
                    ok = len(g) == 2 and all(same(x, y) for x, y in zip(w, g)) if isinstance(w, tuple) and kind == "interface_form" and isinstance(w[0], np.ndarray) else same(w, g)
                    if not ok:
                        raise Violation("%s: the form received %r instead of %r" % (kind, g, w))
                r, J = form.local(len(dest))
                form.calls.append(None)
                np.add.at(R, dest, r)
                for a, da in enumerate(dest):
                    np.add.at(A[da], dest, J[a])
    if not np.array_equal(res, R):
        raise Violation("the residual is not the sum of the local residuals (max difference %g)" % np.abs(res - R).max())
    if got.shape != A.shape or not np.array_equal(got, A):
        raise Violation("the Jacobian is not the sum of the local matrices (max difference %g)" % np.abs(got - A).max())


@subcheck(
    "C18",
    "large",
    cases(large=(200, 10, 3)),
    quick=40,
    thorough=600,
    weight=2.0,
    rule="assembly on meshes of hundreds of cells in random numbering, over sequences of up to 30 elements",
)
def large(case, ctx):
    scatter(case, ctx)
