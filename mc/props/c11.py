"""C11: quadrature is exact to its order on every grid and domain."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np

from magpi import integrate as I
from mc.core import group, tree_close


# ---- reference: the composite rules in plain numpy ----------------------------------------------------------
def cells(d, pts, wts):
    """nodes and weights of a composite rule; pts/wts on the reference interval [0, 1]"""
    d = np.asarray(d, float)
    n, w = [], []
    for a, b in zip(d[:-1], d[1:]):
        for p, q in zip(pts, wts):
            n.append(a + (b - a) * p)
            w.append((b - a) * q)
    return np.array(w), np.array(n)


def gl(n):
    x, w = np.polynomial.legendre.leggauss(n)
    return (x + 1) / 2, w / 2


RULES = {"midpoint": (lambda: I.midpoint, [0.5], [1.0], 1), "trap": (lambda: I.trap, [0, 1], [0.5, 0.5], 1), "simpson": (lambda: I.simpson, [0, 0.5, 1], [1 / 6, 4 / 6, 1 / 6], 3)}
for _n in range(1, 7):
    RULES[f"gauss({_n})"] = (lambda n=_n: I.gauss(n),) + tuple(gl(_n)) + (2 * _n - 1,)
LATTICE = [-1.0, -0.75, -0.25, 0.0, 0.375, 0.5, 1.25]


def partitions(lat, sizes):
    out = []
    for k in sizes:
        out += [list(c) for c in itertools.combinations(lat, k)]
    return out


def rule(nm):
    return RULES[nm][0]()


def refsum(nm, d, f):
    w, x = cells(d, RULES[nm][1], RULES[nm][2])
    return sum(wi * f(xi) for wi, xi in zip(w, x))


def tol(ctx, want):
    s = 1 + np.abs(np.asarray(want)).max(initial=0)
    return dict(rtol=ctx.tol(1e-9, 1e-4), atol=ctx.tol(1e-11, 1e-5) * s)


def _intervals(ctx, names):
    """every partition of the lattice (both directions) x every rule x every monomial up to two degrees beyond the exactness order"""
    parts = partitions(LATTICE, (2, 3, 4, 5, 6, 7) if ctx.thorough else (2, 3, 4, 5))
    parts += [list(np.linspace(-1, 2, n)) for n in (2, 3, 8, 17)] + [[0.0, 0.0, 1.0], [0.0, 0.5, 0.5, 1.0], [-1.0, 1.0, 1.0], [1e-3, 2e-3, 5.0], [100.0, 100.5, 102.0]]
    for nm in names:
        deg = RULES[nm][3]
        K = deg + 3
        ks = jnp.arange(K)
        f = lambda x: jnp.cumprod(jnp.concatenate([jnp.ones(1), jnp.full(K - 1, x)]))
        bylen = {}
        for p in parts:
            if max(abs(v) for v in p) > 50 and not ctx.x64:
                continue
            bylen.setdefault(len(p), []).extend([p, p[::-1]])
        for n, ps in bylen.items():
            case = f"{nm} on all partitions with {n} points"
            with ctx.case(case):
                D = jnp.asarray(np.array(ps))
                got = np.asarray(jax.vmap(lambda d: I.integrate(f, d, method=rule(nm)))(D))
                ctx.visit((nm, n), len(ps) * K); ctx.step(len(ps) * (n - 1)); ctx.trace(len(ps)); ctx.outcome((nm, n))
                want, exact = np.zeros_like(got, float), np.zeros_like(got, float)
                for i, p in enumerate(ps):
                    w, x = cells(p, RULES[nm][1], RULES[nm][2])
                    want[i] = [np.sum(w * x ** k) for k in range(K)]
                    exact[i] = [(p[-1] ** (k + 1) - p[0] ** (k + 1)) / (k + 1) for k in range(K)]
                t = ctx.tol(1e-10, 2e-5) * (1 + np.abs(want))
                ctx.mask(case + " (exactness)", np.abs(got - exact)[:, : deg + 1] <= t[:, : deg + 1], lambda ix: f"partition {ps[ix[0]]} x^{ix[1]}: got {got[ix]}, exact {exact[ix]}")
                ctx.mask(case + " (composite rule)", np.abs(got - want) <= t, lambda ix: f"partition {ps[ix[0]]} x^{ix[1]}: got {got[ix]}, rule value {want[ix]}")
                ctx.mask(case + " (reversal)", np.abs(got[0::2] + got[1::2]) <= t[0::2], lambda ix: f"partition {ps[2 * ix[0]]}: forward {got[2 * ix[0]]}, backward {got[2 * ix[0] + 1]}")
                w, x = jax.vmap(rule(nm))(D)
                w, x = np.asarray(w, float), np.asarray(x, float)
                ctx.check(case + " weights and nodes match", w.shape == x.shape and w.ndim == 2, lambda: f"{w.shape} vs {x.shape}")
                ctx.mask(case + " weights sum to the length", np.abs(w.sum(1) - np.array([p[-1] - p[0] for p in ps])) <= ctx.tol(1e-10, 1e-4), lambda ix: f"partition {ps[ix[0]]}: sum {w[ix[0]].sum()}")
                lo, hi = np.array([min(p) for p in ps])[:, None], np.array([max(p) for p in ps])[:, None]
                e = ctx.tol(1e-9, 1e-4)
                ctx.mask(case + " nodes inside", (x >= lo - e) & (x <= hi + e), lambda ix: f"partition {ps[ix[0]]}: node {x[ix]}")
                # eager call on the first partition of this length
                ctx.close(f"{nm} eager on {ps[0]}", I.integrate(f, jnp.asarray(ps[0]), method=rule(nm)), want[0], **tol(ctx, want[0]))
    with ctx.case("default rule"):
        ctx.close("default rule integrates cubics exactly", I.integrate(lambda x: x ** 3, jnp.asarray([0.0, 0.3, 2.0])), 4.0, **tol(ctx, 4.0))
    ctx.sample("simpson on all C(7,k), k=2..5 partitions of a 7-point lattice in both directions, monomials x^0..x^5")


@group(cost=3)
def intervals(ctx):
    _intervals(ctx, ["midpoint", "trap", "simpson"])


@group(cost=3, quick=("f64",))
def intervals_gauss_odd(ctx):
    _intervals(ctx, ["gauss(1)", "gauss(3)", "gauss(5)"])


@group(cost=3)
def intervals_gauss_even(ctx):
    _intervals(ctx, ["gauss(2)", "gauss(4)", "gauss(6)"])


def _products(ctx, dims):
    """product domains: every assignment of different grids to the axes, monomials of every axis"""
    grids = [[0.0, 1.0], [-1.0, -0.25, 0.5], [2.0, 1.5, 0.0, -0.5], [0.25, 0.5, 1.0, 1.25, 2.0], [1.0, 1.125, 3.0]]
    for dim in dims:
        for axes in itertools.product(range(len(grids)), repeat=dim):
            if dim > 2 and not ctx.thorough and len(set(axes)) != dim and not (axes[0] == axes[1] == axes[2]):
                continue
            rules = ["midpoint", "trap", "simpson", "gauss(2)"] if dim < 3 else ["simpson" if sum(axes) % 2 else "gauss(2)"] if not ctx.thorough else ["trap", "simpson", "gauss(2)"]
            for nm in rules:
                ds = [grids[a] for a in axes]
                K = 4 if dim < 4 else 3
                ks = np.arange(K)

                def f(x):
                    x = jnp.reshape(x, (-1,))
                    P = jnp.stack([jnp.ones_like(x), x, x * x, x * x * x][:K])
                    T = P[:, 0]
                    for i in range(1, dim):
                        T = T[..., None] * P[:, i]
                    return T

                w = [cells(d, RULES[nm][1], RULES[nm][2]) for d in ds]
                want = np.array([np.sum(w[0][0] * w[0][1] ** k) for k in range(K)])
                for i in range(1, dim):
                    want = want[..., None] * np.array([np.sum(w[i][0] * w[i][1] ** k) for k in range(K)])
                case = f"{nm} over axes {axes}"
                with ctx.case(case):
                    ctx.visit((nm, axes), K ** dim); ctx.step(dim); ctx.trace(); ctx.outcome((nm, axes))
                    ctx.close(case, I.integrate(f, [jnp.asarray(d) for d in ds], method=rule(nm)), want, **tol(ctx, want))
                    if dim == 2 and axes in ((0, 1), (1, 2), (1, 4)):
                        ctx.close(case + " tuple domain, jit", jax.jit(lambda *d: I.integrate(f, d, method=rule(nm)))(*[jnp.asarray(d) for d in ds]), want, **tol(ctx, want))
                    if len({len(d) for d in ds}) == 1:
                        ctx.close(case + " array domain", I.integrate(f, jnp.asarray(np.array(ds)), method=rule(nm)), want, **tol(ctx, want))
    ctx.sample("integrate over every assignment of five grids to 1-3 axes")


@group(cost=4, quick=("f64",))
def products_plane(ctx):
    """product domains: every assignment of different grids to one or two axes, monomials of every axis"""
    _products(ctx, (1, 2))


@group(cost=4, quick=("f64",))
def products_space(ctx):
    _products(ctx, (3,))


@group(tiers=("thorough",), cost=8)
def products_4d(ctx):
    _products(ctx, (4,))


@group(cost=2, quick=("f32",))
def integrands(ctx):
    """output forms, constants, extra positional and keyword arguments, in 1-3 dimensions; derivatives with respect to them"""
    ds = [[0.0, 0.5, 2.0], [-1.0, 0.0, 0.25, 1.0], [1.0, 3.0]]
    for dim in (1, 2, 3):
        D = [jnp.asarray(d) for d in ds[:dim]]
        vol = float(np.prod([d[-1] - d[0] for d in ds[:dim]]))
        first = (ds[0][-1] ** 2 - ds[0][0] ** 2) / 2 * vol / (ds[0][-1] - ds[0][0])
        X0 = lambda x: jnp.reshape(x, (-1,))[0]
        forms = {
            "python constant": (lambda x: 1.0, vol), "python integer": (lambda x: 2, 2 * vol), "array constant": (lambda x: jnp.asarray(1.5), 1.5 * vol), "constant vector": (lambda x: jnp.asarray([1.0, -2.0]), vol * np.array([1.0, -2.0])),
            "constant tree": (lambda x: {"a": 1.0, "b": (jnp.ones((2, 3)),)}, {"a": np.asarray(vol), "b": (vol * np.ones((2, 3)),)}),
            "vector": (lambda x: X0(x) * jnp.asarray([1.0, 2.0, 3.0]), first * np.array([1.0, 2, 3])), "matrix": (lambda x: X0(x) * jnp.arange(6.0).reshape(2, 3), first * np.arange(6.0).reshape(2, 3)),
            "one-row matrix": (lambda x: X0(x) * jnp.ones((1, 1)), first * np.ones((1, 1))), "tree": (lambda x: {"p": X0(x), "q": [jnp.stack([X0(x), 1.0 + 0 * X0(x)]), (X0(x)[None],)]}, {"p": np.asarray(first), "q": [np.array([first, vol]), (np.array([first]),)]}),
            "zero": (lambda x: 0.0 * X0(x), 0.0),
        }
        for fn, (f, want) in forms.items():
            for nm in ("midpoint", "trap", "simpson", "gauss(1)", "gauss(3)"):
                case = f"{fn} integrand in {dim}d by {nm}"
                with ctx.case(case):
                    ctx.visit(case); ctx.step(); ctx.trace(); ctx.outcome(case)
                    w = jax.tree_util.tree_map(np.asarray, want)
                    dom = D if dim > 1 else D[0]
                    tree_close(ctx, case, I.integrate(f, dom, method=rule(nm)), w, **tol(ctx, vol * 10))
                    if dim == 1:
                        tree_close(ctx, case + " (list of one)", I.integrate(f, D, method=rule(nm)), w, **tol(ctx, vol * 10))
        g = lambda x, a, b, c=1.0, *, e=0.0: a * X0(x) + b["k"] * c + e
        for a, k, c, e in itertools.product((0.0, 2.0), (-1.0, 3.0), (None, 0.5), (None, 4.0)):
            kw = {q: v for q, v in (("c", c), ("e", e)) if v is not None}
            cc, ee = 1.0 if c is None else c, 0.0 if e is None else e
            want = a * first + (k * cc + ee) * vol
            dom = D if dim > 1 else D[0]
            for form in ("keyword", "positional"):
                if form == "positional" and c is None:
                    continue
                case = f"extra arguments a={a} k={k} c={c} ({form}) e={e} in {dim}d"
                with ctx.case(case):
                    ctx.visit(case); ctx.step(); ctx.trace()
                    pos, kk = ((a, {"k": k}, c), {q: v for q, v in kw.items() if q != "c"}) if form == "positional" else ((a, {"k": k}), kw)
                    ctx.close(case, I.integrate(g, dom, *pos, method=I.gauss(2), **kk), want, **tol(ctx, want))
                    ctx.close(case + " default method", I.integrate(g, dom, *pos, **kk), want, **tol(ctx, want))
        with ctx.case(f"derivatives {dim}d"):
            dom = D if dim > 1 else D[0]
            h = lambda a: I.integrate(lambda x, a: a ** 2 * X0(x), dom, a, method=I.simpson)
            ctx.close(f"forward derivative in {dim}d", jax.jacfwd(h)(3.0), 6 * first, **tol(ctx, first))
            ctx.close(f"reverse derivative in {dim}d", jax.grad(h)(3.0), 6 * first, **tol(ctx, first))
            ctx.visit(("d", dim)); ctx.trace(); ctx.step(2)


PHI = [(0.0, 2 * np.pi), (0.5, 2.0), (2.5, -1.0)]


@group(cost=2)
def disks(ctx):
    """disk, annulus, sector: every radius / inner radius / angle range / origin / resolution / rule of the alphabet, all monomials of degree <= 2"""
    ex = [(a, b) for a in range(3) for b in range(3) if a + b <= 2]
    rules = {"simpson": ((9, 13), (4, 7)), "gauss(4)": ((3, 9), (2, 12)), "trap": ((8, 5),), "midpoint": ((3, 8),)}
    rad = [(1.0, 0.0), (2.0, 0.5), (0.25, 0.0), (1.5, 1.0)]
    for (r, ri), (p1, p2), o, (nm, ns) in itertools.product(rad, PHI, [(0.0, 0.0), (1.0, -2.0)], rules.items()):
        for n in ns if ctx.thorough else ns[:1]:
            for how in ("keyword", "positional") if (r, o) == (2.0, (1.0, -2.0)) else ("keyword",):
                f = lambda x: jnp.stack([x[0] ** a * x[1] ** b for a, b in ex])
                wr, xr = cells(np.linspace(ri, r, n[0]), *RULES[nm][1:3])
                wp, xp = cells(np.linspace(p1, p2, n[1]), *RULES[nm][1:3])
                R, Pp = np.meshgrid(xr, xp, indexing="ij")
                X, Y = R * np.cos(Pp) + o[0], R * np.sin(Pp) + o[1]
                W = np.outer(wr, wp) * R
                want = np.array([np.sum(W * X ** a * Y ** b) for a, b in ex])
                gw, gx = gl(40)
                case = f"disk r={r} inner={ri} angles=({p1},{p2}) origin={o} n={n} {nm} {how}"
                with ctx.case(case):
                    ctx.visit(case, len(ex)); ctx.step(n[0] * n[1]); ctx.trace(); ctx.outcome(case)
                    if how == "keyword":
                        got = I.integrate_disk(f, r, jnp.asarray(o), n, r_inner=ri, phi1=p1, phi2=p2, method=rule(nm))
                    else:
                        got = I.integrate_disk(lambda x, s: s * f(x), r, jnp.asarray(o), n, ri, p1, p2, 1.0, method=rule(nm))
                    ctx.close(case, got, want, **tol(ctx, want))
                    if nm == "gauss(4)":
                        A, B = np.meshgrid(ri + (r - ri) * gl(20)[0], p1 + (p2 - p1) * gl(40)[0], indexing="ij")
                        WW = np.outer(gl(20)[1] * (r - ri), gl(40)[1] * (p2 - p1)) * A
                        ext = np.array([np.sum(WW * (A * np.cos(B) + o[0]) ** a * (A * np.sin(B) + o[1]) ** b) for a, b in ex])
                        ctx.close(case + " converged", got, ext, rtol=1e-5, atol=1e-4)
    for r in (0.5, 1.0, 3.0):
        with ctx.case(f"area of the disk {r}"):
            ctx.visit(("area", r)); ctx.trace(); ctx.step()
            ctx.close(f"area of the disk r={r}", I.integrate_disk(lambda x: 1.0, r, jnp.zeros(2), 9), np.pi * r * r, rtol=1e-5)
            ctx.close(f"area derivative r={r}", jax.grad(lambda r: I.integrate_disk(lambda x: 1.0, r, jnp.zeros(2), 9))(r), 2 * np.pi * r, rtol=1e-5)
            ctx.close(f"keyword and tree r={r}", I.integrate_disk(lambda x, *, c: {"a": c * x[0]}, r, jnp.asarray([1.0, 5.0]), (5, 33), c=2.0)["a"], 2 * np.pi * r * r, rtol=1e-4)
    ctx.sample("integrate_disk over radii x angle ranges x origins x rules, monomials of degree <= 2")


@group(cost=2, quick=("f32",))
def spheres(ctx):
    ex = [e for e in itertools.product(range(3), repeat=3) if sum(e) <= 2]
    rules = {"simpson": (5, 7, 9), "gauss(3)": (2, 4, 6), "trap": (4, 6, 5)}
    rad = [(1.0, 0.0), (2.0, 0.75)]
    POL = [(0.0, np.pi), (0.25, 1.5)]
    AZ = [(0.0, 2 * np.pi), (-0.5, 2.0)]
    for (r, ri), (p1, p2), (t1, t2), o, (nm, n) in itertools.product(rad, POL, AZ, [(0.0, 0.0, 0.0), (1.0, -2.0, 0.5)], rules.items()):
        full = (p1, p2, t1, t2) == (0.0, np.pi, 0.0, 2 * np.pi)
        f = lambda x: jnp.stack([x[0] ** a * x[1] ** b * x[2] ** c for a, b, c in ex])
        wr, xr = cells(np.linspace(ri, r, n[0]), *RULES[nm][1:3])
        wp, xp = cells(np.linspace(p1, p2, n[1]), *RULES[nm][1:3])
        wt, xt = cells(np.linspace(t1, t2, n[2]), *RULES[nm][1:3])
        R, P, Tt = np.meshgrid(xr, xp, xt, indexing="ij")
        X, Y, Z = R * np.sin(P) * np.cos(Tt) + o[0], R * np.sin(P) * np.sin(Tt) + o[1], R * np.cos(P) + o[2]
        W = wr[:, None, None] * wp[None, :, None] * wt * R ** 2 * np.sin(P)
        want = np.array([np.sum(W * X ** a * Y ** b * Z ** c) for a, b, c in ex])
        case = f"sphere r={r} inner={ri} polar=({p1},{p2}) azimuth=({t1},{t2}) origin={o} n={n} {nm}"
        with ctx.case(case):
            ctx.visit(case, len(ex)); ctx.step(n[0] * n[1] * n[2]); ctx.trace(); ctx.outcome(case)
            kw = dict(r_inner=ri, phi1=p1, phi2=p2, theta1=t1, theta2=t2)
            if full and ri == 0.0:
                kw = {}
            ctx.close(case, I.integrate_sphere(f, r, jnp.asarray(o), n, method=rule(nm), **kw), want, **tol(ctx, want))
    with ctx.case("positional"):
        got = I.integrate_sphere(lambda x, s, *, c: {"v": s * x[2] + c}, 2.0, jnp.asarray([0.0, 0.0, 1.0]), (3, 5, 4), 1.0, 0.0, np.pi, 0.0, 2 * np.pi, 3.0, method=I.gauss(5), c=-1.0)
        ctx.visit("positional"); ctx.trace(); ctx.step()
        ctx.close("positional ranges, extra arguments, tree", got["v"], (3 - 1) * 4 / 3 * np.pi * 7, rtol=1e-4)
    for r in (0.5, 2.0):
        with ctx.case(f"volume {r}"):
            ctx.visit(("vol", r)); ctx.trace(); ctx.step()
            ctx.close(f"volume of the ball r={r}", I.integrate_sphere(lambda x: 1.0, r, jnp.zeros(3), 9), 4 / 3 * np.pi * r ** 3, rtol=1e-3)
            ctx.close(f"volume derivative r={r}", jax.grad(lambda r: I.integrate_sphere(lambda x: 1.0, r, jnp.zeros(3), 9))(r), 4 * np.pi * r ** 2, rtol=1e-3)
    ctx.sample("integrate_sphere over radii x polar/azimuth ranges x origins x rules")
