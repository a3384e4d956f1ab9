"""C07: domain transforms map the unit cube uniformly onto the stated set."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np

import magpi.domain as dm
from mc.core import group


class Map:
    """one transform under test

    f: point or batch -> image;  din: dimension of the unit cube;  dist: (N, d) -> distance from the stated set
    measure: volume / area / length;  ref: uniformly distributed reference points;  mult: allowed covering multiplicities
    scalar_points: the one-dimensional parameter may be passed without the trailing axis
    """

    def __init__(self, name, f, din, dist, measure, ref, mult=(1,), scalar_points=False, vector_points=True, batches=True, singular=None):
        self.__dict__.update(locals())


def A(x):
    return jnp.asarray(x, dtype=float)


def seg_dist(p, a, b):
    ab = b - a
    t = np.clip(((p - a) @ ab) / (ab @ ab), 0, 1)
    return np.linalg.norm(p - (a + t[:, None] * ab), axis=1)


def grid(n, d):
    g = (np.arange(n) + 0.5) / n
    return np.array(list(itertools.product(g, repeat=d)))


def box_dist(lb, ub):
    return lambda p: np.linalg.norm(np.maximum(0, np.maximum(lb - p, p - ub)), axis=1)


def hypercubes():
    out = []
    for lb, ub in [((0.0,), (1.0,)), ((-2.0,), (3.5,)), ((0.0, 0.0), (1.0, 1.0)), ((-1.0, 2.0), (0.5, 6.0)), ((0, -3), (2, 1)), ((1.0, -2.0, 0.5), (2.0, 1.0, 0.75)), ((0.0, 1.0, 2.0, -1.0), (1.0, 1.5, 4.0, 2.0))]:
        l, u = np.array(lb, float), np.array(ub, float)
        d = len(l)
        ref = l + grid({1: 400, 2: 40, 3: 14, 4: 8}[d], d) * (u - l)
        h = dm.Hypercube(lb, ub)
        out.append(Map(f"Hypercube{lb}{ub}.transform", h.transform, d, box_dist(l, u), np.prod(u - l), ref))
        out.append(Map(f"transform_hypercube{lb}{ub}", lambda x, l=l, u=u: dm.transform_hypercube(x, A(l), A(u)), d, box_dist(l, u), np.prod(u - l), ref))
    return out


def hypercube_bnds():
    out = []
    for lb, ub in [((-2.0,), (3.5,)), ((0.0, 0.0), (1.0, 1.0)), ((-1.0, 2.0), (0.5, 6.0)), ((0, -3), (2, 1)), ((0.0, 0.0), (10.0, 0.5)), ((1.0, -2.0, 0.5), (2.0, 1.0, 0.75)), ((0.0, 0.0, 0.0), (3.0, 1.0, 2.0)),
                   ((0.0, 1.0, 2.0, -1.0), (1.0, 1.5, 4.0, 2.0))]:
        l, u = np.array(lb, float), np.array(ub, float)
        d = len(l)
        b = u - l
        areas = [np.prod(np.delete(b, i)) for i in range(d)]
        def dist(p, l=l, u=u):
            inside = box_dist(l, u)(p)
            face = np.minimum(np.abs(p - l), np.abs(p - u)).min(1)
            return inside + face
        n = {1: 1, 2: 4000, 3: 4000, 4: 4000}[d]
        ref = []
        for i in range(d):
            for side in (l, u):
                k = max(1, round(n * areas[i] / (2 * sum(areas))))
                m = max(2, round(k ** (1 / max(1, d - 1)))) if d > 1 else 1
                g = grid(m, d - 1) if d > 1 else np.zeros((1, 0))
                q = np.insert(g, i, 0.0, axis=1) * b + l
                q[:, i] = side[i]
                ref.append((q, areas[i]))
        h = dm.Hypercube(lb, ub)
        for nm, f in ((f"Hypercube{lb}{ub}.transform_bnd", h.transform_bnd), (f"transform_hypercube_bnd{lb}{ub}", lambda x, l=l, u=u: dm.transform_hypercube_bnd(x, A(l), A(u)))):
            out.append(Map(nm, f, max(1, d - 1), dist, 2 * sum(areas) if d > 1 else None, ref, scalar_points=(d == 2)))
    return out


def parallelograms():
    out = []
    for a, b, c in [((0.0, 0.0), (1.0, 0.0), (0.0, 1.0)), ((1.0, 2.0), (3.0, 2.5), (0.5, 4.0)), ((-1.0, 0.0), (2.0, 1.0), (0.0, 3.0)), ((1.0, 1.0, 1.0), (2.0, 1.0, 3.0), (1.0, 4.0, 0.0)), ((0.0, 0.0, 2.0), (1.0, 0.0, 2.0), (0.0, 0.5, 2.5))]:
        a_, b_, c_ = [np.array(v, float) for v in (a, b, c)]
        E = np.stack([b_ - a_, c_ - a_], 1)
        area = np.sqrt(np.linalg.det(E.T @ E))
        def dist(p, a_=a_, E=E):
            t = (p - a_) @ np.linalg.pinv(E).T
            tc = np.clip(t, 0, 1)
            return np.linalg.norm(p - a_ - tc @ E.T, axis=1)
        ref = a_ + grid(40, 2) @ E.T
        P = dm.Parallelogram(a, b, c)
        out.append(Map(f"Parallelogram{a}{b}{c}.transform", P.transform, 2, dist, area, ref))
        V = [a_, b_, b_ + c_ - a_, c_, a_]
        out.append(polymap(f"Parallelogram{a}{b}{c}.transform_bnd", P.transform_bnd, V))
    return out


def polymap(name, f, V):
    L = [np.linalg.norm(q - p) for p, q in zip(V, V[1:])]
    def dist(p):
        return np.min([seg_dist(p, a, b) for a, b in zip(V, V[1:])], axis=0)
    ref = [(a + ((np.arange(60) + 0.5) / 60)[:, None] * (b - a), l) for (a, b), l in zip(zip(V, V[1:]), L)]
    return Map(name, f, 1, dist, sum(L), ref, scalar_points=True, vector_points=False)


def polylines():
    pts = [[(0.0, 0.0), (1.0, 0.0)], [(0.0, 0.0), (2.0, 0.0), (2.0, 1.0)], [(1.0, -1.0), (0.0, 3.0), (4.0, 3.5), (0.5, 0.5), (1.0, -1.0)], [(0.0, 0.0, 0.0), (1.0, 2.0, 0.0), (1.0, 2.0, 5.0)]]
    for n in (12, 17, 30, 100):
        t = 2 * np.pi * np.arange(n + 1) / n
        pts.append([tuple(v) for v in np.stack([np.cos(t) * (1 + 0.3 * np.cos(3 * t)), np.sin(t)], 1)])
    pts.append([(0.1 * i, 0.07 * i * i) for i in range(13)])
    out = []
    for P in pts:
        V = [np.array(p) for p in P]
        out.append(polymap(f"polyline with {len(P)} points {P[:2]}", lambda s, V=V: dm.transform_polyline(s, tuple(A(v) for v in V)), V))
    return out


def triangles():
    out = []
    for a, b, c in [((0.0, 0.0), (1.0, 0.0), (0.0, 1.0)), ((1.0, 2.0), (3.0, 2.5), (0.5, 4.0)), ((2.0, -1.0), (-1.0, 1.0), (1.0, 5.0)), ((1.0, 1.0, 1.0), (2.0, 1.0, 3.0), (1.0, 4.0, 0.0))]:
        a_, b_, c_ = [np.array(v, float) for v in (a, b, c)]
        E = np.stack([b_ - a_, c_ - a_], 1)
        G = np.sqrt(np.linalg.det(E.T @ E))
        def dist(p, a_=a_, E=E):
            t = (p - a_) @ np.linalg.pinv(E).T
            return np.linalg.norm(p - a_ - t @ E.T, axis=1) + np.maximum(0, -t).sum(1) + np.maximum(0, t.sum(1) - 1)
        g = grid(60, 2)
        ref = a_ + g[g.sum(1) < 1] @ E.T
        out.append(Map(f"triangle{a}{b}{c}", lambda x, v=(a_, b_, c_): dm.transform_triangle(x, *[A(k) for k in v]), 2, dist, G, ref, mult=(1,)))
        out[-1].measure = G / 2
        out[-1].mult = (1, 2)  # the folded unit square covers the triangle twice
    return out


def ball_ref(d, n):
    g = grid(n, d) * 2 - 1
    return g[(g ** 2).sum(1) < 1]


def circulars():
    out = []
    for r, o in [(1.0, (0.0, 0.0)), (2.5, (1.0, -3.0)), (0.25, (0.0, 4.0)), (3, (1, 2))]:
        o_ = np.array(o, float)
        D = dm.Disk(r, o)
        dist = lambda p, o_=o_, r=r: np.maximum(0, np.linalg.norm(p - o_, axis=1) - r)
        t = 2 * np.pi * (np.arange(400) + 0.5) / 400
        circ = o_ + r * np.stack([np.cos(t), np.sin(t)], 1)
        for nm, f in ((f"Disk({r},{o}).transform", D.transform), (f"transform_circle({r},{o})", lambda x, r=r, o_=o_: dm.transform_circle(x, A(r), A(o_)))):
            out.append(Map(nm, f, 2, dist, np.pi * r ** 2, o_ + r * ball_ref(2, 60), singular=lambda x: x[:, 1] < 1e-3))
        bd = lambda p, o_=o_, r=r: np.abs(np.linalg.norm(p - o_, axis=1) - r)
        for nm, f in ((f"Disk({r},{o}).transform_bnd", D.transform_bnd), (f"transform_circle_bnd({r},{o})", lambda x, r=r, o_=o_: dm.transform_circle_bnd(x, A(r), A(o_)))):
            out.append(Map(nm, f, 1, bd, 2 * np.pi * r, circ, mult=(1, 2), scalar_points=True))
    for r1, r2, o in [(0.5, 1.0, (0.0, 0.0)), (1.0, 3.0, (2.0, -1.0)), (0.9, 1.0, (1.0, 1.0)), (1, 2, (0, 3))]:
        o_ = np.array(o, float)
        dist = lambda p, o_=o_, r1=r1, r2=r2: np.maximum(0, np.maximum(np.linalg.norm(p - o_, axis=1) - r2, r1 - np.linalg.norm(p - o_, axis=1)))
        b = ball_ref(2, 160); b = b[np.linalg.norm(b, axis=1) > r1 / r2]
        for nm, f in ((f"Annulus({r1},{r2},{o}).transform", dm.Annulus(r1, r2, o).transform), (f"transform_annulus({r1},{r2},{o})", lambda x, r1=r1, r2=r2, o_=o_: dm.transform_annulus(x, A(r1), A(r2), A(o_)))):
            out.append(Map(nm, f, 2, dist, np.pi * (r2 ** 2 - r1 ** 2), o_ + r2 * b))
    return out


def sphericals():
    out = []
    for r, o in [(1.0, (0.0, 0.0, 0.0)), (2.5, (1.0, -3.0, 2.0)), (0.3, (0.0, 4.0, 1.0)), (2, (0, 1, 2))]:
        o_ = np.array(o, float)
        S = dm.Sphere(r, o)
        dist = lambda p, o_=o_, r=r: np.maximum(0, np.linalg.norm(p - o_, axis=1) - r)
        sing = lambda x: (x[:, 0] < 1e-3) | (x[:, 0] > 1 - 1e-3) | (x[:, 2] < 1e-3)
        for nm, f in ((f"Sphere({r},{o}).transform", S.transform), (f"transform_sphere({r},{o})", lambda x, r=r, o_=o_: dm.transform_sphere(x, A(r), A(o_)))):
            out.append(Map(nm, f, 3, dist, 4 / 3 * np.pi * r ** 3, o_ + r * ball_ref(3, 24), singular=sing))
        bd = lambda p, o_=o_, r=r: np.abs(np.linalg.norm(p - o_, axis=1) - r)
        k = np.arange(3000) + 0.5
        z = 1 - 2 * k / 3000; ph = np.pi * (1 + 5 ** 0.5) * k
        sp = o_ + r * np.stack([np.sqrt(1 - z * z) * np.cos(ph), np.sqrt(1 - z * z) * np.sin(ph), z], 1)
        for nm, f in ((f"Sphere({r},{o}).transform_bnd", S.transform_bnd), (f"transform_sphere_bnd({r},{o})", lambda x, r=r, o_=o_: dm.transform_sphere_bnd(x, A(r), A(o_)))):
            out.append(Map(nm, f, 2, bd, 4 * np.pi * r ** 2, sp, singular=lambda x: (x[:, 0] < 1e-3) | (x[:, 0] > 1 - 1e-3)))
    return out


def unit_points(ctx, d):
    e = np.finfo(np.float64 if ctx.x64 else np.float32).eps / 2
    ax = {1: list(np.arange(0, 201) / 200) + [0.5 + 1e-3, 1 / 3, 1 - e, 1 - 2 * e, 1 - 3 * e, 1 - 10 * e, 1e-6, e, 0.999, 0.9999, 0.25 + e, 0.75 - e],
          2: [0.0, 0.05, 0.2, 1 / 3, 0.4, 0.5, 0.61, 0.75, 0.9, 0.999, 1 - e, 1 - 2 * e, 1.0, 1e-6],
          3: [0.0, 0.1, 1 / 3, 0.5, 0.7, 0.95, 1 - e, 1.0], 4: [0.0, 0.2, 0.5, 0.8, 1 - e, 1.0]}[d]
    return np.array(list(itertools.product(ax, repeat=d)))


def verify(ctx, m):
    x = unit_points(ctx, m.din)
    dt = np.float64 if ctx.x64 else np.float32
    x = x.astype(dt)
    one = (lambda p: m.f(p[0])) if (m.scalar_points and not m.vector_points) else m.f
    flat = (lambda p: jnp.reshape(one(p), (-1,)))
    with ctx.case(m.name):
        y = np.asarray(jax.jit(jax.vmap(flat))(jnp.asarray(x)), float)
        scale = 1 + np.abs(y[np.isfinite(y)]).max(initial=0)
        ctx.visit(m.name, len(x)); ctx.step(len(x)); ctx.trace(len(x)); ctx.outcome((m.name, y.shape[1]))
        with np.errstate(all="ignore"):
            dd = np.where(np.isfinite(y).all(1), m.dist(np.nan_to_num(y)), np.inf)
        ctx.mask(f"{m.name}: image lies in the set", dd <= ctx.tol(1e-10, 2e-5) * scale, lambda ix: f"unit point {x[ix[0]].tolist()} -> {y[ix[0]].tolist()}, distance {dd[ix[0]]}")
        # ---- density
        if m.measure is not None:
            n = {1: 97, 2: 15, 3: 7, 4: 4}[m.din]
            z = (np.array(list(itertools.product((np.arange(n) + 0.37) / n, repeat=m.din)))).astype(dt)
            z = np.concatenate([z, x[(x > 1e-3).all(1) & (x < 1 - 1e-3).all(1)]])
            if m.singular is not None:
                z = z[~m.singular(z)]
            J = np.asarray(jax.jit(jax.vmap(jax.jacfwd(flat)))(jnp.asarray(z)), float)
            J = J.reshape(len(z), -1, m.din)
            with np.errstate(all="ignore"):
                det = np.sqrt(np.maximum(np.linalg.det(np.einsum("kij,kil->kjl", J, J)), 0))
            ctx.visit((m.name, "density"), len(z)); ctx.trace(len(z)); ctx.step(len(z))
            k = [q for q in m.mult if np.abs(np.median(det) - q * m.measure) < 1e-2 * m.measure]
            if ctx.check(f"{m.name}: density equals the measure", len(k) == 1, lambda: f"Jacobian measure {np.median(det)}, expected {m.measure} x one of {m.mult}"):
                w = k[0] * m.measure
                ctx.mask(f"{m.name}: constant density", np.abs(det - w) <= ctx.tol(1e-7, 2e-3) * w, lambda ix: f"unit point {z[ix[0]].tolist()}: Jacobian measure {det[ix[0]]}, expected {w}")
        # ---- coverage: half-space fractions of a fine lattice equal those of an independent uniform set
        n = {1: 1201, 2: 61, 3: 19, 4: 10}[m.din]
        g = grid(n, m.din).astype(dt)
        img = np.asarray(jax.jit(jax.vmap(flat))(jnp.asarray(g)), float)
        if isinstance(m.ref, list):
            R = np.concatenate([r for r, _ in m.ref]); W = np.concatenate([np.full(len(r), w / len(r)) for r, w in m.ref])
        else:
            R, W = m.ref, np.ones(len(m.ref))
        W = W / W.sum()
        d = R.shape[1]
        dirs = [np.array(v, float) for v in itertools.product((-1, 0, 1), repeat=min(d, 3)) if any(v) and v > tuple([0] * min(d, 3))]
        dirs = [np.concatenate([v, np.zeros(d - len(v))]) for v in dirs] + ([np.eye(d)[3]] if d > 3 else [])
        for v in dirs:
            s = R @ v
            lo, hi = s.min(), s.max()
            if hi - lo < 1e-9:
                continue
            for t in np.linspace(lo, hi, 9)[1:-1] + 1e-3 * (hi - lo):
                a, b = (W * (s < t)).sum(), np.mean(img @ v < t)
                tolc = {1: 0.03, 2: 0.05, 3: 0.09, 4: 0.13}[m.din] + (0.04 if m.din == 3 and d == 4 else 0)
                ctx.check(f"{m.name}: uniform coverage", abs(a - b) <= tolc, lambda: f"fraction of the set with x.{v.tolist()} < {t:.4g}: {b:.4f}, expected {a:.4f}")
        ctx.visit((m.name, "coverage"), len(g)); ctx.trace(); ctx.step(len(g))
        # ---- batches
        q = x[:: max(1, len(x) // 40)][:36]
        ref = y[:: max(1, len(x) // 40)][:36]
        shapes = [(1,), (2,), (3,), (4,), (len(q),), (2, 3), (3, 1, 2), (1, 1), (m.din,), (m.din, m.din)]
        if not ctx.thorough:
            shapes = [(1,), (3,), (2, 3), (1, 1)] if "cube" in m.name and "bnd" in m.name else shapes[:3] + shapes[5:8] + shapes[9:]
        for sh in shapes:
            k = int(np.prod(sh))
            if k > len(q):
                continue
            forms = []
            if m.vector_points:
                forms.append(q[:k].reshape(sh + (m.din,)))
            if m.scalar_points and len(sh) == 1 and (sh != (1,) or not m.vector_points):
                forms.append(q[:k].reshape(sh))
            for b in forms:
                ctx.visit((m.name, "batch", b.shape), k); ctx.trace(); ctx.step(k)
                with ctx.case(f"{m.name}: batch {b.shape}"):
                    for how, fn in (("eager", m.f), ("jit", jax.jit(m.f))):
                        if how == "jit" and sh != (2, 3):
                            continue
                        out = np.asarray(fn(jnp.asarray(b)), float)
                        ctx.close(f"{m.name}: {how} batch of shape {b.shape}", out, ref[:k].reshape(sh + (d,)), rtol=ctx.tol(1e-10, 1e-5), atol=ctx.tol(1e-10, 2e-5) * scale)
        if m.scalar_points:
            with ctx.case(f"{m.name}: scalar"):
                ctx.close(f"{m.name}: scalar parameter", m.f(jnp.asarray(q[5, 0])), ref[5], rtol=ctx.tol(1e-10, 1e-5), atol=ctx.tol(1e-10, 2e-5) * scale)
    ctx.sample(f"{m.name}: {len(x)} unit-cube lattice points, density at regular points, coverage, batch shapes")


def run(ctx, maps):
    """quick: the domain classes and, of the bare functions they call, the second instance only"""
    bare = 0
    for m in maps:
        if m.name.startswith("transform_"):
            bare += 1
            if not ctx.thorough and bare != 2:
                continue
        verify(ctx, m)


@group(cost=3)
def hypercube(ctx):
    run(ctx, hypercubes())


@group(cost=6)
def hypercube_boundary_a(ctx):
    run(ctx, hypercube_bnds()[:10])


@group(cost=7)
def hypercube_boundary_b(ctx):
    run(ctx, hypercube_bnds()[10:14])


@group(cost=6)
def hypercube_boundary_c(ctx):
    run(ctx, hypercube_bnds()[14:])


@group(cost=4)
def parallelogram(ctx):
    run(ctx, parallelograms())


@group(cost=5)
def polyline(ctx):
    run(ctx, polylines()[:9 if ctx.thorough else 7])


@group()
def triangle(ctx):
    run(ctx, triangles())


@group(cost=4)
def disk_annulus(ctx):
    run(ctx, circulars())


@group(cost=4)
def sphere(ctx):
    run(ctx, sphericals())


@group(cost=3)
def polyline_near_one(ctx):
    """closed polylines with 2..64 vertices of irrational lengths at every float just below 1"""
    dt = np.float64 if ctx.x64 else np.float32
    s = [dt(1)]
    for _ in range(12):
        s.append(np.nextafter(s[-1], dt(0)))
    s = np.array(s[1:])
    for n in list(range(2, 65)) if ctx.thorough else [2, 3, 4, 5, 8, 12, 17, 21, 25, 26, 28, 29, 30, 36, 38, 39, 64]:
        t = 2 * np.pi * np.arange(n + 1) / n
        for k in range(ctx.pick(10, 40)):
            V = np.stack([np.cos(t) * (1 + 0.05 * k * np.cos(2 * t)), (0.7 + 0.1 * k) * np.sin(t)], 1)
            if k == 5:
                V = np.stack([0.1 * np.arange(n + 1), 0.03 * np.arange(n + 1)], 1)
            with ctx.case(f"{n} segments, shape {k}"):
                p = np.asarray(dm.transform_polyline(jnp.asarray(s), tuple(jnp.asarray(V))), float)
                d = np.min([seg_dist(p, a, b) for a, b in zip(V, V[1:]) if np.linalg.norm(b - a) > 1e-9], axis=0)
                ctx.visit((n, k), len(s)); ctx.step(len(s)); ctx.trace(len(s)); ctx.outcome((n, k))
                ctx.mask(f"polyline {n} segments shape {k} near the end", np.isfinite(p).all(1) & (d < ctx.tol(1e-10, 3e-5)) & (np.linalg.norm(p - V[-1], axis=1) < 1e-3), lambda ix: f"s={s[ix[0]]!r} -> {p[ix[0]].tolist()}")
