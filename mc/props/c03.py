"""C03: primitive shapes describe exactly the stated point sets."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np

import magpi.r_fun as rf
from mc.core import group


def systems():
    return [("r0", rf.r0), ("r1", rf.r1), ("rp2", rf.rp2), ("rp4", rf.rp4), ("R_alpha(-0.5)", rf.RAlpha(-0.5)), ("R_alpha(0.5)", rf.RAlpha(0.5)),
            ("R_p(6)", rf.RP(6)), ("R_alpha_m(1,0)", rf.RAlphaM(1, 0.0)), ("default", None)]


def classify(ctx, case, f, pts, sign, f32tol=1e-4):
    """sign of f at pts must be `sign` (0 = boundary, checked up to rounding)"""
    with ctx.case(case):
        v = np.asarray(jax.vmap(lambda x: jnp.reshape(f(x), ()))(jnp.asarray(pts)), float)
        scale = 1 + np.abs(v).max(initial=0)
        ctx.visit(case, len(pts)); ctx.step(len(pts)); ctx.trace(len(pts)); ctx.outcome((case, int(sign.min()), int(sign.max())))
        ok = np.isfinite(v) & np.where(sign == 0, np.abs(v) <= ctx.tol(1e-9, f32tol) * scale, v * sign > 0)
        ctx.mask(case, ok, lambda ix: f"x={pts[ix[0]].tolist()}: value {v[ix[0]]!r}, expected sign {int(sign[ix[0]])}")
        return v


def box_sign(p, lb, ub):
    d = np.minimum(p - lb, ub - p).min(-1)
    return np.where(np.abs(d) < 1e-7, 0, np.sign(d)).astype(int)


def cub(e, cen, s, kw):
    if s is None:
        return rf.cuboid(e, centering=cen) if kw else rf.cuboid(e, cen)
    return rf.cuboid(e, centering=cen, r_system=s) if kw else rf.cuboid(e, cen, s)


def boxes(ctx, ds):
    for d in ds:
        for e in {1: [(1.0,), (2.5,), (3,)], 2: [(1.0, 1.0), (2.0, 0.5), (3, 1)], 3: [(1.0, 2.0, 0.5), (2, 1, 1)], 4: [(1.0, 1.5, 0.5, 2.0)], 5: [(1.0, 1.5, 0.5, 2.0, 1.0)]}[d]:
            ev = np.array(e, float)
            fr = {1: (-0.7, -0.25, 0, 0.1, 0.5, 0.8, 1, 1.2, 2.0), 2: (-0.6, 0, 0.15, 0.5, 0.75, 1, 1.5), 3: (-0.5, 0, 0.3, 0.5, 1, 1.4), 4: (-0.5, 0, 0.4, 1, 1.25), 5: (-0.5, 0, 0.4, 1)}[d]
            t = np.array(list(itertools.product(fr, repeat=d)))
            for cen in (False, True):
                lb = -ev / 2 if cen else 0 * ev
                pts = lb + t * ev
                sg = box_sign(pts, lb, lb + ev)
                for name, s in systems():
                    if d >= 4 and name not in ("r0", "rp4", "default", "r1"):
                        continue
                    for kind, arg in (("array", jnp.asarray(e)), ("numpy" if d % 2 else "list", np.array(e) if d % 2 else list(e))):
                        if kind != "array" and name not in ("r0", "default"):
                            continue
                        v = classify(ctx, f"cuboid{e} ({kind}) centred={cen} {name}", cub(arg, cen, s, kind != "array"), pts, sg)
                        if name == "r1" and v is not None:
                            ctx.close(f"cuboid{e} centred={cen} r1: value is distance to nearest face plane", v, np.minimum(pts - lb, lb + ev - pts).min(-1), atol=ctx.tol(1e-12, 1e-6))
                        if name == "r0" and kind == "array":
                            g = jax.jit(cub(arg, cen, s, False))
                            v2 = np.array([float(jnp.reshape(g(jnp.asarray(p)), ())) for p in pts[:: max(1, len(pts) // 9)]])
                            ctx.close(f"cuboid{e} centred={cen}: jit single point", v2, v[:: max(1, len(pts) // 9)], atol=ctx.tol(1e-10, 1e-5))
    ctx.sample("every lattice point (faces, edges, corners, inside, outside) of boxes in 1..5 dimensions")


@group(cost=3)
def cuboids_low(ctx):
    boxes(ctx, (1, 2))


@group(cost=3)
def cuboids_high(ctx):
    boxes(ctx, (3, 4, 5) if ctx.thorough else (3, 4))


@group()
def cubes(ctx):
    """cube(edge): same edge in every dimension of the input"""
    for d in (1, 2, 3, 4):
        t = np.array(list(itertools.product((-0.5, 0, 0.3, 0.5, 1, 1.4), repeat=d)))
        for e in (0.5, 1, 1.0, 2.0, 3):
            for cen in (False, True):
                lb = -e / 2 if cen else 0.0
                pts = lb + t * e
                sg = box_sign(pts, lb, lb + e)
                for name, s in systems():
                    if name not in ("r0", "rp4", "r1", "default") and (d > 2 or e != 2.0):
                        continue
                    f = (rf.cube(e, cen) if s is None else rf.cube(e, cen, s)) if cen else (rf.cube(e) if s is None else rf.cube(e, r_system=s))
                    v = classify(ctx, f"cube({e!r}) dim {d} centred={cen} {name}", f, pts, sg)
                    if name == "r1" and v is not None:
                        ctx.close(f"cube({e!r}) dim {d} centred={cen} r1 value", v, np.minimum(pts - lb, lb + e - pts).min(-1), atol=ctx.tol(1e-12, 1e-6))


def dirs(d):
    v = [np.array(p, float) for p in itertools.product((-1, 0, 0.5, 2), repeat=d) if any(p)]
    return np.array([p / np.linalg.norm(p) for p in v])


@group(cost=2)
def spheres(ctx):
    rad = (0.0, 0.3, 0.9, 0.999, 1.0, 1.001, 1.1, 3.0)
    for d in (1, 2, 3, 4):
        u = dirs(d)
        for r in (0.25, 1, 1.0, 2, 3.5, 50.0):
            pts = np.concatenate([t * r * u for t in rad])
            sg = np.repeat([int(np.sign(round(1 - t, 6))) for t in rad], len(u))
            v = classify(ctx, f"sphere({r!r}) dim {d}", rf.sphere(r), pts, sg, f32tol=1e-5)
            if v is not None:
                ctx.close(f"sphere({r!r}) dim {d}: value", v, (r ** 2 - (pts ** 2).sum(1)) / (2 * r), rtol=ctx.tol(1e-11, 1e-4), atol=ctx.tol(1e-11, 1e-5) * r)
    ctx.sample("all directions {-1,0,.5,2}^d x 8 relative radii x 6 radii, dims 1-4")


@group(cost=2)
def cylinders(ctx):
    rad = (0.0, 0.3, 0.9, 0.999, 1.0, 1.001, 1.1, 3.0)
    u = dirs(2)
    for d in (2, 3, 4):
        for r in (0.25, 1, 1.5, 20.0):
            base = np.concatenate([t * r * u for t in rad])
            sg = np.repeat([int(np.sign(round(1 - t, 6))) for t in rad], len(u))
            ref = None
            for z in itertools.product((-30.0, -1.0, 0.0, 2.5), repeat=d - 2):
                pts = np.concatenate([base, np.tile(z, (len(base), 1))], 1)
                v = classify(ctx, f"cylinder({r!r}) dim {d} z={z}", rf.cylinder(r), pts, sg, f32tol=1e-5)
                if v is not None:
                    ctx.close(f"cylinder({r!r}) dim {d} z={z}: depends on the first two coordinates", v, (r ** 2 - (base ** 2).sum(1)) / (2 * r), rtol=ctx.tol(1e-11, 1e-4), atol=ctx.tol(1e-11, 1e-5) * r)
    ctx.sample("solid circle lattice x all heights from {-30,-1,0,2.5}")


@group()
def ellipsoids(ctx):
    rad = (0.0, 0.3, 0.9, 0.99, 1.0, 1.01, 1.1, 3.0)
    for axes in [(0.5,), (2,), (1.0, 1.0), (2.0, 0.5), (3, 1), (0.25, 4.0), (1.0, 2.0, 3.0), (2, 1, 1), (0.5, 0.5, 4.0), (1.0, 2.0, 0.5, 1.5)]:
        a = np.array(axes, float)
        u = dirs(len(axes))
        pts = np.concatenate([t * a * u for t in rad])
        sg = np.repeat([int(np.sign(round(1 - t, 6))) for t in rad], len(u))
        for kind, arg in (("array", jnp.asarray(axes)), ("numpy", np.array(axes))):
            classify(ctx, f"ellipsoid{axes} ({kind})", rf.ellipsoid(arg), pts, sg, f32tol=1e-4)
    ctx.sample("scaled direction lattice x 8 relative radii, 10 axis vectors in 1-4 dimensions")
