"""C04: geometric transformations move a shape by exactly the stated map."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np

import magpi.r_fun as rf
from mc.core import group
from mc.ref import euler_xyz, rodrigues, rot2

# an operation: (name, transform of the library ADF, transform of the numpy reference function on (N, d) points)


def pull(inv, c=1.0):
    return lambda f: (lambda x: c * f(inv(x)))


def about(M, o):
    """shape moved by x -> o + M (x - o): pull back with M^-1"""
    Mi = np.linalg.inv(M)
    o = np.asarray(o, float)
    return pull(lambda x: (x - o) @ Mi.T + o)


def mirror(n, o, k):
    n = np.asarray(n, float)
    o = np.asarray(o, float)
    return pull(lambda x: x - k * ((x - o) @ n)[:, None] / (n @ n) * n)


def generic(d):
    """operations that exist in every dimension"""
    y = np.array([0.3, -1.2, 0.75, 0.4][:d])
    y2 = np.array([-2, 1, 3, -1][:d])
    s = np.array([2.0, 0.5, 1.5, 0.8][:d])
    n = np.array([1.0, 2.0, -0.5, 0.7][:d])
    o = np.array([0.4, -0.3, 1.1, 0.2][:d])
    sm = np.array([-1, 1, -1, 1][:d])
    ops = [
        ("translate", lambda f: rf.translate(f, jnp.asarray(y)), pull(lambda x: x - y)),
        ("translate int list", lambda f: rf.translate(f, [int(v) for v in y2]), pull(lambda x: x - y2)),
        ("scale 2.5", lambda f: rf.scale(f, 2.5), pull(lambda x: x / 2.5, 2.5)),
        ("scale int 3", lambda f: rf.scale(f, 3), pull(lambda x: x / 3, 3)),
        ("scale array(0.4)", lambda f: rf.scale(f, jnp.asarray([0.4])), pull(lambda x: x / 0.4, 0.4)),
        ("stretch", lambda f: rf.scale_without_normalization(f, jnp.asarray(s)), pull(lambda x: x / s)),
        ("mirror stretch", lambda f: rf.scale_without_normalization(f, jnp.asarray(s * sm)), pull(lambda x: x / (s * sm))),
        ("stretch scalar", lambda f: rf.scale_without_normalization(f, 0.5), pull(lambda x: x / 0.5)),
        ("reflect", lambda f: rf.reflect(f, jnp.asarray(n)), mirror(n, 0 * n, 2)),
        ("reflect about o", lambda f: rf.reflect(f, tuple(float(v) for v in n), tuple(float(v) for v in o)), mirror(n, o, 2)),
        ("project", lambda f: rf.project(f, jnp.asarray(n)), mirror(n, 0 * n, 1)),
        ("project about o", lambda f: rf.project(f, jnp.asarray(-2 * n), jnp.asarray(o)), mirror(n, o, 1)),
    ]
    return ops


def ops2():
    out = generic(2)
    for a, o in [(0.7, None), (2, (0.5, -0.25)), (-1.3, (1.0, 2.0)), (7.0, (0, 1)), (np.pi / 2, None), (0, (0.3, 0.3))]:
        out.append((f"rotate2d({a}, {o})", (lambda f, a=a, o=o: rf.rotate2d(f, a) if o is None else rf.rotate2d(f, a, o)), about(rot2(a), o or (0, 0))))
    out.append(("rotate2d(array)", lambda f: rf.rotate2d(f, jnp.asarray(0.4), jnp.asarray([0.2, 0.1])), about(rot2(0.4), (0.2, 0.1))))
    return out


def ops3():
    out = generic(3)
    for a, ax, o in [(0.7, (0.0, 0.0, 1.0), None), (0.7, (1.0, 0.0, 0.0), None), (-1.1, (0.0, 2.0, 0.0), (0.5, 0.1, -0.3)), (2, (1, 2, 3), None),
                     (1.9, (1.0, -2.0, 0.5), (1.0, 2.0, -1.0)), (5.5, (0.1, 0.1, 0.2), (0.0, 0.3, 0.0))]:
        out.append((f"rotate3d({a}, {ax}, {o})",
                    (lambda f, a=a, ax=ax, o=o: rf.rotate3d(f, a, ax) if o is None else rf.rotate3d(f, a, ax, o)), about(rodrigues(ax, a), o or (0, 0, 0))))
    for e, o in [((0.4, 0.0, 0.0), None), ((0.0, -0.8, 0.0), None), ((0.0, 0.0, 1.2), (0.3, 0.2, 0.1)), ((0.5, -0.7, 1.9), None), ((1, 2, -1), (1.0, 0.0, -0.5))]:
        out.append((f"rotate3d(euler {e}, o={o})",
                    (lambda f, e=e, o=o: rf.rotate3d(f, e) if o is None else rf.rotate3d(f, jnp.asarray(e), o=o)), about(euler_xyz(*e), o or (0, 0, 0))))
    return out


def base(d):
    """functions without any symmetry; the reference is the same polynomial in numpy"""
    A = np.array([[0.3, -0.5, 0.2, 0.1], [0.4, 0.25, -0.3, 0.2], [-0.15, 0.6, -0.2, 0.35], [0.1, -0.1, 0.45, 0.5]])[:d, :d]
    b = np.array([1.0, -0.7, 0.45, 0.25])[:d]
    return (lambda x: 0.3 + jnp.asarray(b) @ x + x @ jnp.asarray(A) @ x), (lambda x: 0.3 + x @ b + np.einsum("ni,ij,nj->n", x, A, x))


def lattice(d):
    return np.array(list(itertools.product({1: (-2.0, -0.4, 0.3, 1.7), 2: (-1.1, 0.2, 0.9), 3: (-1.1, 0.2, 0.9), 4: (-1.1, 0.6)}[d], repeat=d)))


def pick(ops, names):
    """operations by (unique prefix of the) name"""
    out = []
    for n in names:
        m = [o for o in ops if o[0] == n] or [o for o in ops if o[0].startswith(n)]
        assert len(m) == 1, (n, [o[0] for o in m])
        out.append(m[0])
    return out


AXIS, EULER = "rotate3d(1.9", "rotate3d(euler (0.5"
MOST2 = ("translate", "scale 2.5", "stretch", "mirror stretch", "reflect about o", "rotate2d(2,", "project about o", "rotate2d(-1.3")
MOST3 = ("translate", "scale 2.5", AXIS, EULER, "reflect about o")
MORE3 = MOST3 + ("stretch", "mirror stretch", "project about o", "rotate3d(0.7, (0.0", "rotate3d(-1.1", "rotate3d(2,", "rotate3d(euler (1, 2, -1)")


def words(ctx, d, ops, depth, fr=None, what="asymmetric quadric"):
    f0, r0 = fr or base(d)
    pts = lattice(d)
    xs = jnp.asarray(pts)
    for w in itertools.product(ops, repeat=depth):
        f, r = f0, r0
        case = f"{what} dim {d}: {' ; '.join(o[0] for o in w)}"
        with ctx.case(case):
            for _, lib, ref in w:
                f, r = lib(f), ref(r)
            v = np.asarray(jax.vmap(lambda x: jnp.reshape(f(x), ()))(xs), float)
            want = r(pts)
            ctx.visit(case, len(pts)); ctx.step(depth * len(pts)); ctx.trace(len(pts)); ctx.outcome(case)
            scale = 1 + np.abs(want).max()
            ctx.close(case, v, want, rtol=ctx.tol(1e-9, 2e-4), atol=ctx.tol(1e-10, 2e-5) * scale)
    if depth:
        ctx.sample(case)


@group(cost=2)
def words_2d_a(ctx):
    words(ctx, 2, ops2(), 0)
    words(ctx, 2, ops2(), 1)


@group(cost=3)
def words_2d_b(ctx):
    words(ctx, 2, ops2(), 2)


@group(cost=3, quick=("f64",))
def words_2d_depth3(ctx):
    o = ops2()
    words(ctx, 2, o if ctx.thorough else pick(o, MOST2), 3)


@group(cost=3)
def words_3d_single(ctx):
    words(ctx, 3, ops3(), 1)
    o = ops3()
    words(ctx, 3, pick(o, ("translate", "scale int 3", AXIS, EULER)), 2)


@group(cost=6, quick=("f64",))
def words_3d_pairs(ctx):
    o = ops3()
    words(ctx, 3, o, 2)


@group(cost=6, quick=("f64",))
def words_3d_depth3(ctx):
    o = ops3()
    words(ctx, 3, pick(o, MORE3 if ctx.thorough else MOST3), 3)


@group()
def words_1d_4d(ctx):
    for d in (1, 4):
        words(ctx, d, generic(d), 1)
        words(ctx, d, generic(d) if ctx.thorough else generic(d)[::2], 2)


@group(cost=3)
def revolutions(ctx):
    """solids of revolution of a 2d shape about x (axis 0) and y (axis 1), before and after transformations"""
    f2, r2 = base(2)
    o = ops2()
    pre = [("id", lambda f: f, lambda r: r), *pick(o, ("translate", "scale 2.5", "stretch", "reflect about o", "rotate2d(2,"))]
    p3 = ops3()
    post = [("id", lambda f: f, lambda r: r), *pick(p3, ("translate", "scale int 3", "reflect about o", AXIS, EULER))]
    rev = {0: lambda r: (lambda x: r(np.stack([x[:, 0], np.hypot(x[:, 1], x[:, 2])], 1))),
           1: lambda r: (lambda x: r(np.stack([np.hypot(x[:, 0], x[:, 2]), x[:, 1]], 1)))}
    pts = np.concatenate([lattice(3), [[0.5, 0.0, 0.0], [0.0, -0.7, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 1.2]]])
    for (n1, a, ra), (n2, b, rb), ax in itertools.product(pre, post, (0, 1, None)):
        case = f"{n1} ; revolution axis {ax} ; {n2}"
        with ctx.case(case):
            f = b(rf.revolution(a(f2)) if ax is None else rf.revolution(a(f2), ax) if n1 == "id" else rf.revolution(a(f2), axis=ax))
            want = rb(rev[ax or 0](ra(r2)))(pts)
            v = np.asarray(jax.vmap(lambda x: jnp.reshape(f(x), ()))(jnp.asarray(pts)), float)
            ctx.visit(case, len(pts)); ctx.step(3 * len(pts)); ctx.trace(len(pts)); ctx.outcome(case)
            ctx.close(case, v, want, rtol=ctx.tol(1e-9, 2e-4), atol=ctx.tol(1e-10, 2e-5) * (1 + np.abs(want).max()))
    ctx.raises("revolution about axis 2 refused", lambda: rf.revolution(f2, 2)(jnp.asarray([1.0, 2.0, 3.0])))


@group(cost=2)
def solids(ctx):
    """moved library solids: image points of interior/boundary/exterior lattice points keep their class"""
    fr = (-0.3, 0.0, 0.25, 0.8, 1.0, 1.3)
    for d, e, ops in ((2, (2.0, 0.6), ops2()), (3, (2.0, 0.6, 1.1), ops3())):
        ev = np.array(e)
        t = np.array(list(itertools.product(fr, repeat=d)))
        pts = t * ev
        m = np.minimum(pts, ev - pts).min(-1)
        sg = np.where(np.abs(m) < 1e-9, 0, np.sign(m))
        fwd = {}
        y, y2 = np.array([0.3, -1.2, 0.75][:d]), np.array([-2, 1, 3][:d])
        s = np.array([2.0, 0.5, 1.5][:d])
        n, o = np.array([1.0, 2.0, -0.5][:d]), np.array([0.4, -0.3, 1.1][:d])
        H = np.eye(d) - 2 * np.outer(n, n) / (n @ n)
        moves = {"translate": lambda x: x + y, "translate int list": lambda x: x + y2, "scale 2.5": lambda x: 2.5 * x, "scale int 3": lambda x: 3 * x,
                 "scale array(0.4)": lambda x: 0.4 * x, "stretch": lambda x: x * s, "mirror stretch": lambda x: x * s * np.array([-1, 1, -1][:d]), "stretch scalar": lambda x: 0.5 * x, "reflect": lambda x: x @ H.T,
                 "reflect about o": lambda x: (x - o) @ H.T + o}
        if d == 2:
            for a, oo in [(0.7, (0, 0)), (2, (0.5, -0.25)), (-1.3, (1.0, 2.0)), (7.0, (0, 1)), (np.pi / 2, (0, 0)), (0, (0.3, 0.3))]:
                nm = f"rotate2d({a}, {None if oo == (0, 0) else oo})"
                # counter-clockwise: (1,0) goes towards (0,1)
                moves[nm] = lambda x, a=a, oo=np.array(oo): np.stack([(x - oo)[:, 0] * np.cos(a) - (x - oo)[:, 1] * np.sin(a), (x - oo)[:, 0] * np.sin(a) + (x - oo)[:, 1] * np.cos(a)], 1) + oo
        else:
            for a, ax, oo in [(0.7, (0.0, 0.0, 1.0), None), (0.7, (1.0, 0.0, 0.0), None), (-1.1, (0.0, 2.0, 0.0), (0.5, 0.1, -0.3)), (2, (1, 2, 3), None), (1.9, (1.0, -2.0, 0.5), (1.0, 2.0, -1.0))]:
                M = rodrigues(ax, a); c = np.array(oo or (0, 0, 0))
                moves[f"rotate3d({a}, {ax}, {oo})"] = lambda x, M=M, c=c: (x - c) @ M.T + c
            for eu, oo in [((0.4, 0.0, 0.0), None), ((0.0, 0.0, 1.2), (0.3, 0.2, 0.1)), ((0.5, -0.7, 1.9), None)]:
                M = euler_xyz(*eu); c = np.array(oo or (0, 0, 0))
                moves[f"rotate3d(euler {eu}, o={oo})"] = lambda x, M=M, c=c: (x - c) @ M.T + c
        for nm, lib, _ in ops:
            if nm not in moves:
                continue
            case = f"cuboid{e}: {nm}"
            with ctx.case(case):
                q = moves[nm](pts)
                f = lib(rf.cuboid(jnp.asarray(e)))
                v = np.asarray(jax.vmap(lambda x: jnp.reshape(f(x), ()))(jnp.asarray(q)), float)
                ctx.visit(case, len(q)); ctx.step(len(q)); ctx.trace(len(q)); ctx.outcome(case)
                ctx.mask(case, np.where(sg == 0, np.abs(v) < ctx.tol(1e-9, 1e-4), v * sg > 0), lambda ix: f"image {q[ix[0]].tolist()} of {pts[ix[0]].tolist()} has value {v[ix[0]]}, expected sign {sg[ix[0]]}")


@group()
def traced_parameters(ctx):
    """the transformation parameters may be traced values (jit over angle, vector, factor)"""
    f2, r2 = base(2)
    f3, r3 = base(3)
    p2, p3 = lattice(2), lattice(3)
    jobs = []
    for a in (-2.0, 0.3, 1.7):
        o = np.array([0.2, -0.4]); o3 = np.array([0.2, -0.4, 0.1]); ax = np.array([1.0, -1.0, 2.0]) * a
        jobs += [("rotate2d", lambda x, a, o: rf.rotate2d(f2, a, o)(x), (a, o), about(rot2(a), o)(r2), p2),
                 ("rotate3d axis", lambda x, a, ax, o: rf.rotate3d(f3, a, ax, o)(x), (a, ax, o3), about(rodrigues(ax, a), o3)(r3), p3),
                 ("rotate3d euler", lambda x, e: rf.rotate3d(f3, e)(x), (np.array([a, 0.4, -a]),), about(euler_xyz(a, 0.4, -a), np.zeros(3))(r3), p3),
                 ("translate", lambda x, y: rf.translate(f3, y)(x), (ax,), pull(lambda x: x - ax)(r3), p3),
                 ("scale", lambda x, s: rf.scale(f3, s)(x), (abs(a),), pull(lambda x, a=a: x / abs(a), abs(a))(r3), p3),
                 ("stretch", lambda x, s: rf.scale_without_normalization(f3, s)(x), (ax,), pull(lambda x, ax=ax: x / ax)(r3), p3),
                 ("reflect", lambda x, n, o: rf.reflect(f3, n, o)(x), (ax, o3), mirror(ax, o3, 2)(r3), p3),
                 ("project", lambda x, n, o: rf.project(f3, n, o)(x), (ax, o3), mirror(ax, o3, 1)(r3), p3)]
        for nm, fn, args, want, pts in jobs[-8:]:
            case = f"traced {nm} a={a}"
            with ctx.case(case):
                args_ = [jnp.asarray(v) for v in args]
                v = np.asarray(jax.jit(jax.vmap(lambda x, *r: jnp.reshape(fn(x, *r), ()), in_axes=(0,) + (None,) * len(args_)))(jnp.asarray(pts), *args_), float)
                w = want(pts)
                ctx.visit(case, len(pts)); ctx.step(len(pts)); ctx.trace(len(pts)); ctx.outcome(case)
                ctx.close(case, v, w, rtol=ctx.tol(1e-9, 2e-4), atol=ctx.tol(1e-10, 2e-5) * (1 + np.abs(w).max()))


@group(modes=("f32",))
def refusals(ctx):
    f3, _ = base(3)
    ctx.visit("refusals", 3); ctx.trace(3)
    ctx.raises("rotate3d: scalar angle without axis", lambda: rf.rotate3d(f3, 0.3), ValueError)
    ctx.raises("rotate3d: Euler angles with axis", lambda: rf.rotate3d(f3, (0.1, 0.2, 0.3), (0.0, 0.0, 1.0)), ValueError)
    ctx.raises("rotate3d: two angles", lambda: rf.rotate3d(f3, (0.1, 0.2)), ValueError)
