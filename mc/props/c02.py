"""C02: unit normal derivative on the boundary."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np

import magpi.r_fun as rf
from mc.core import group
from mc.ref import kleene, BIN

NORMALISED = [("r0", lambda: rf.r0), ("R_alpha(-0.5)", lambda: rf.RAlpha(-0.5)), ("R_alpha(0.7)", lambda: rf.RAlpha(0.7)), ("r1", lambda: rf.r1),
              ("rp2", lambda: rf.rp2), ("rp4", lambda: rf.rp4), ("R_p(6)", lambda: rf.RP(6)), ("R_p(8)", lambda: rf.RP(8))]


def grads(f, xs):
    """(value, forward gradient, reverse gradient) of f at a batch of points"""
    xs = jnp.asarray(xs)
    g = lambda x: jnp.reshape(f(x), ())
    v = jax.jit(jax.vmap(lambda x: (g(x), jax.jacfwd(g)(x), jax.jacrev(g)(x))))(xs)
    return [np.asarray(a, dtype=float) for a in v]


def unit(ctx, case, f, xs, want=None, value_zero=True):
    """value 0, |grad| = 1 (grad = want if given) in forward and reverse mode at boundary points xs"""
    xs = np.asarray(xs, dtype=float)
    with ctx.case(case):
        v, gf, gr = grads(f, xs)
        ctx.visit(case, len(xs)); ctx.step(2 * len(xs)); ctx.trace(len(xs))
        tol = ctx.tol(1e-8, 2e-3)
        if value_zero:
            ctx.mask(f"{case}: value on boundary", np.abs(v) <= ctx.tol(1e-9, 1e-4), lambda ix: f"x={xs[ix[0]].tolist()}: {v[ix[0]]!r}")
        for mode, g in (("forward", gf), ("reverse", gr)):
            n = np.sqrt((g.reshape(len(xs), -1) ** 2).sum(1))
            ctx.mask(f"{case}: gradient norm ({mode})", np.abs(n - 1) <= tol, lambda ix: f"x={xs[ix[0]].tolist()}: gradient {g[ix[0]].tolist()} norm {n[ix[0]]!r}")
            if want is not None:
                w = np.asarray(want, dtype=float)
                ctx.mask(f"{case}: normal direction ({mode})", np.abs(g - w).max(-1) <= 2 * tol, lambda ix: f"x={xs[ix[0]].tolist()}: gradient {g[ix[0]].tolist()}, expected {w[ix[0]].tolist()}")
        ctx.outcome(case)


def faces(lb, ub, fr=(0.2, 0.45, 0.7)):
    """interior points of every face of a box and the inner normals"""
    d = len(lb)
    xs, ns = [], []
    for i in range(d):
        for side in (0, 1):
            for t in itertools.product(fr, repeat=d - 1):
                x = np.insert(np.asarray(t, float), i, side)
                xs.append(lb + x * (ub - lb))
                ns.append((1 - 2 * side) * np.eye(d)[i])
    return np.array(xs), np.array(ns)


SIZES = {1: [(1.0,), (2.5,)], 2: [(1.0, 1.0), (2.0, 0.75)], 3: [(1.0, 2.0, 0.5)], 4: [(1.0, 1.5, 0.75, 2.0)]}


def cuboids(ctx, dims):
    for d in dims:
        for e in SIZES[d]:
            for cen in (False, True):
                e_ = np.array(e)
                lb, ub = (-e_ / 2, e_ / 2) if cen else (0 * e_, e_)
                xs, ns = faces(lb, ub)
                for name, s in NORMALISED:
                    unit(ctx, f"cuboid{e} centred={cen} {name}", rf.cuboid(jnp.asarray(e), cen, s()), xs, ns)
    ctx.sample("every face of every cuboid x interior face lattice {.2,.45,.7}^(d-1)")


@group(cost=2)
def cuboids_12(ctx):
    cuboids(ctx, (1, 2))


@group(cost=3)
def cuboids_34(ctx):
    cuboids(ctx, (3, 4) if ctx.thorough else (3,))


def dirs(d):
    v = [np.array(p, float) for p in itertools.product((-1, 0, 0.5, 2), repeat=d) if any(p)]
    return np.array([p / np.linalg.norm(p) for p in v])


@group(cost=2)
def round_primitives(ctx):
    for d in (1, 2, 3, 4):
        u = dirs(d)
        for r in (0.3, 1, 1.0, 2.5, 40.0):
            unit(ctx, f"sphere r={r} dim {d}", rf.sphere(r), r * u, -u, value_zero=r < 10)
    for d in (2, 3, 4):
        u2 = dirs(2)
        for r in (0.5, 1, 3.0):
            for z in itertools.product((-7.0, 0.0, 2.0), repeat=d - 2):
                xs = np.concatenate([r * u2, np.tile(z, (len(u2), 1))], 1)
                ns = np.concatenate([-u2, np.zeros((len(u2), d - 2))], 1)
                unit(ctx, f"cylinder r={r} dim {d} z={z}", rf.cylinder(r), xs, ns)
    for axes in [(2.0,), (1.0, 1.0), (2.0, 0.5), (3, 1), (1.0, 2.0, 3.0), (0.5, 0.5, 4.0), (1.0, 2.0, 0.5, 1.5)]:
        a = np.array(axes, float)
        xs = dirs(len(axes)) * a
        n = -(xs / a ** 2)
        n /= np.linalg.norm(n, axis=1, keepdims=True)
        unit(ctx, f"ellipsoid {axes}", rf.ellipsoid(jnp.asarray(a)), xs, n)
    ctx.sample("all directions from {-1,0,.5,2}^d, radii .3..40, ellipsoids in 1-4 dimensions")


# ---- combinations: leaves are exact distances (half-spaces) and spheres, boundary points of each leaf ----------
def halfspace(n, c):
    n = np.asarray(n, float)
    n = n / np.linalg.norm(n)
    return (lambda x: jnp.dot(jnp.asarray(n), x) + c), (lambda x: x @ n + c), n


LEAVES2 = None


def leaves():
    # pairwise crossing boundaries, so each boundary meets inside and outside of the others
    out = []
    for n, c in [((1.0, 0.0), 0.1), ((-0.6, 0.8), 0.05)]:
        f, g, nn = halfspace(n, c)
        t = np.array([-nn[1], nn[0]])
        pts = np.array([-c * nn + s * t for s in (-1.7, -1.1, -0.62, -0.3, 0.21, 0.55, 0.93, 1.45)])
        out.append((f, g, pts, np.tile(nn, (len(pts), 1))))
    o = np.array([0.3, -0.2])
    r = 0.9
    ang = np.arange(12) * 2 * np.pi / 12 + 0.11
    u = np.stack([np.cos(ang), np.sin(ang)], 1)
    sph = rf.translate(rf.sphere(r), jnp.asarray(o))
    out.append((sph, lambda x: (r ** 2 - ((x - o) ** 2).sum(-1)) / (2 * r), o + r * u, -u))
    return out


def all_trees():
    A, B, C = 0, 1, 2
    ts = []
    for op in BIN:
        ts += [(op, x, y) for x, y in itertools.permutations((A, B, C), 2)]
    for op in BIN:
        for op2 in BIN:
            ts += [(op, (op2, A, B), C), (op, C, (op2, A, B)), (op, (op2, A, C), B), (op, ("neg", (op2, B, C)), A)]
    return ts


def build(s, t, L):
    if isinstance(t, int):
        return L[t][0]
    if t[0] == "neg":
        return s.negate(build(s, t[1], L))
    return getattr(s, t[0])(build(s, t[1], L), build(s, t[2], L))


def ksign(t, signs):
    if isinstance(t, int):
        return signs[t]
    if t[0] == "neg":
        return -ksign(t[1], signs)
    return kleene(t[0], ksign(t[1], signs), ksign(t[2], signs))


def combos(ctx, which):
    L = leaves()
    for name, s in [NORMALISED[i] for i in which]:
        s = s()
        for t in all_trees():
            f = build(s, t, L)
            xs, ns = [], []
            for i, (_, _, pts, nrm) in enumerate(L):
                vals = [g(pts) for (_, g, _, _) in L]
                sg = [np.sign(v) for v in vals]
                others = np.min([np.abs(v) for k, v in enumerate(vals) if k != i], axis=0)
                sp = [np.ones(len(pts)) if k == i else v for k, v in enumerate(sg)]
                sm = [-np.ones(len(pts)) if k == i else v for k, v in enumerate(sg)]
                flip = (ksign(t, sp) - ksign(t, sm)) / 2
                ok = (others > 0.05) & (np.abs(flip) == 1)
                # r1 has no derivative where the other operands tie
                xs.append(pts[ok]); ns.append((flip[:, None] * nrm)[ok])
            xs, ns = np.concatenate(xs), np.concatenate(ns)
            if name == "r1":
                # drop points where two other leaves (or their negatives) tie exactly: not the case on this lattice
                pass
            if len(xs) == 0:
                continue
            case = f"{name}: {t}"
            with ctx.case(case):
                g = jax.vmap(jax.grad(lambda x: jnp.reshape(f(x), ())))(jnp.asarray(xs))
                g = np.asarray(g, float)
                ctx.visit(case, len(xs)); ctx.step(len(xs)); ctx.trace(len(xs)); ctx.outcome((str(t), len(xs)))
                tol = ctx.tol(1e-8, 5e-3)
                ctx.mask(f"{case}: boundary gradient", np.abs(g - ns).max(-1) <= tol, lambda ix: f"x={xs[ix[0]].tolist()}: gradient {g[ix[0]].tolist()}, expected {ns[ix[0]].tolist()}")
    ctx.sample("all 2-operator trees over {half-plane, half-plane, disk}, every regular boundary point of the lattice")


@group(cost=4)
def combos_a(ctx):
    combos(ctx, (0, 1))


@group(cost=4, quick=("f64",))
def combos_b(ctx):
    combos(ctx, (2, 3))


@group(cost=4, quick=("f64",))
def combos_c(ctx):
    combos(ctx, (4, 5))


@group(cost=4, quick=("f64",))
def combos_d(ctx):
    combos(ctx, (6, 7))


@group(modes=("f64",), cost=3)
def higher_order(ctx):
    """R_p: normal derivatives 2..p-1 vanish on the boundary of combinations of half-space distances"""
    for p, s in ((2, rf.rp2), (4, rf.rp4), (4, rf.RP(4)), (6, rf.RP(6))) + (((8, rf.RP(8)),) if ctx.thorough else ()):
        L = leaves()[:2]
        fs = [(op, getattr(s, op)(L[0][0], L[1][0])) for op in BIN]
        cub = rf.cuboid(jnp.asarray([1.5, 2.0]), True, s)
        fx, fn = faces(np.array([-0.75, -1.0]), np.array([0.75, 1.0]))
        jobs = [("cuboid", cub, fx, fn)]
        for op, f in fs:
            for i in (0, 1):
                pts, nrm = L[i][2], L[i][3]
                sg = np.sign(L[1 - i][1](pts))
                one = np.ones(len(pts))
                a = (one, sg) if i == 0 else (sg, one)
                b = (-one, sg) if i == 0 else (sg, -one)
                flip = (kleene(op, *a) - kleene(op, *b)) / 2
                ok = (np.abs(L[1 - i][1](pts)) > 0.2) & (np.abs(flip) == 1)
                if ok.any():
                    jobs.append((f"{op} at operand {i}", f, pts[ok], nrm[ok]))
        for nm, f, xs, ns in jobs:
            def deriv(k):
                def along(x, n):
                    h = lambda t: jnp.reshape(f(x + t * n), ())
                    for _ in range(k):
                        h = (lambda h: lambda t: jax.jvp(h, (t,), (1.0,))[1])(h)
                    return h(0.0)
                return np.asarray(jax.vmap(along)(jnp.asarray(xs), jnp.asarray(ns)))
            with ctx.case(f"R_p({p}) {nm}"):
                for k in range(1, p):
                    v = deriv(k)
                    ctx.visit((p, nm, k), len(xs)); ctx.step(len(xs)); ctx.trace(len(xs)); ctx.outcome((p, k))
                    want = np.abs(v) - 1 if k == 1 else v
                    ctx.mask(f"R_p({p}) {nm}: normal derivative {k}", np.abs(want) <= 1e-6, lambda ix: f"x={xs[ix[0]].tolist()}: {v[ix[0]]!r}")
    ctx.sample("normal derivatives 1..p-1 for p=2,4,6 at every regular boundary lattice point")


@group(cost=3, quick=("f64",))
def rigid_motions(ctx):
    """all words of length <= 2 over isometries and uniform scalings keep the unit normal"""
    def rot(a):
        return np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
    h2 = np.array([1.0, 2.0]); h2 = np.eye(2) - 2 * np.outer(h2, h2) / 5
    ops2 = [("translate", lambda f: rf.translate(f, jnp.asarray([0.3, -1.2])), lambda x: x + np.array([0.3, -1.2]), lambda n: n),
            ("scale3", lambda f: rf.scale(f, 3.0), lambda x: 3 * x, lambda n: n),
            ("scale0.2", lambda f: rf.scale(f, 0.2), lambda x: 0.2 * x, lambda n: n),
            ("rot.7", lambda f: rf.rotate2d(f, 0.7, (0.5, 0.1)), lambda x: (x - [0.5, 0.1]) @ rot(0.7).T + [0.5, 0.1], lambda n: n @ rot(0.7).T),
            ("reflect", lambda f: rf.reflect(f, jnp.asarray([1.0, 2.0])), lambda x: x @ h2.T, lambda n: n @ h2.T)]
    shapes = []
    xs, ns = faces(np.array([0.0, 0.0]), np.array([1.0, 2.0]))
    shapes += [(f"cuboid {k}", rf.cuboid(jnp.asarray([1.0, 2.0]), False, s()), xs, ns) for k, s in NORMALISED[:6:2]]
    u = dirs(2)
    shapes += [("sphere", rf.sphere(0.8), 0.8 * u, -u)]
    a = np.array([2.0, 0.7]); xe = u * a; ne = -xe / a ** 2; ne /= np.linalg.norm(ne, axis=1, keepdims=True)
    shapes += [("ellipsoid", rf.ellipsoid(jnp.asarray(a)), xe, ne)]
    for nm, f, xs, ns in shapes:
        for k in (1, 2):
            for w in itertools.product(ops2, repeat=k):
                g, x, n = f, xs, ns
                for (_, fop, xop, nop) in w:
                    g, x, n = fop(g), xop(x), nop(n)
                case = f"{nm} after {'+'.join(o[0] for o in w)}"
                with ctx.case(case):
                    gr = np.asarray(jax.vmap(jax.grad(lambda x: jnp.reshape(g(x), ())))(jnp.asarray(x)), float)
                    ctx.visit(case, len(x)); ctx.step(k * len(x)); ctx.trace(len(x)); ctx.outcome(case)
                    ctx.mask(f"{case}: gradient", np.abs(gr - n).max(-1) <= ctx.tol(1e-8, 5e-3), lambda ix: f"x={x[ix[0]].tolist()}: {gr[ix[0]].tolist()} expected {n[ix[0]].tolist()}")
    # 3d: rotations about axes (whatever their length), Euler angles, reflections
    xs, ns = faces(np.array([-0.5, -1.0, -0.25]), np.array([0.5, 1.0, 0.25]), fr=(0.3, 0.6))
    cub = rf.cuboid(jnp.asarray([1.0, 2.0, 0.5]), True)
    from mc.ref import rodrigues, euler_xyz
    ops3 = [("translate", lambda f: rf.translate(f, jnp.asarray([0.3, -1.2, 2.0])), None, np.array([0.3, -1.2, 2.0])),
            ("axis", lambda f: rf.rotate3d(f, 0.7, (1.0, 2.0, -1.0)), rodrigues((1, 2, -1), 0.7), 0),
            ("euler", lambda f: rf.rotate3d(f, (0.3, -0.5, 1.1)), euler_xyz(0.3, -0.5, 1.1), 0),
            ("reflect", lambda f: rf.reflect(f, jnp.asarray([0.0, 1.0, 3.0])), np.eye(3) - 2 * np.outer([0, 1, 3], [0, 1, 3]) / 10, 0),
            ("scale", lambda f: rf.scale(f, 2.5), 2.5, 0)]
    for k in (1, 2):
        for w in itertools.product(ops3, repeat=k):
            g, x, n = cub, xs, ns
            for (_, fop, M, t) in w:
                g = fop(g)
                if M is not None:
                    x = x * M if np.isscalar(M) else x @ M.T
                    n = n if np.isscalar(M) else n @ M.T
                x = x + t
            case = f"3d cuboid after {'+'.join(o[0] for o in w)}"
            with ctx.case(case):
                gr = np.asarray(jax.jit(jax.vmap(jax.grad(lambda x: jnp.reshape(g(x), ()))))(jnp.asarray(x)), float)
                ctx.visit(case, len(x)); ctx.step(k * len(x)); ctx.trace(len(x)); ctx.outcome(case)
                ctx.mask(f"{case}: gradient", np.abs(gr - n).max(-1) <= ctx.tol(1e-8, 5e-3), lambda ix: f"x={x[ix[0]].tolist()}: {gr[ix[0]].tolist()} expected {n[ix[0]].tolist()}")


@group()
def normalisation(ctx):
    """normalize_1st_order on un-normalised functions: sign kept everywhere, unit gradient on the boundary"""
    th = np.arange(24) * 2 * np.pi / 24 + 0.05
    c2 = np.stack([np.cos(th), np.sin(th)], 1)
    lat = np.array(list(itertools.product(np.linspace(-2.2, 2.1, 9), repeat=2)))
    fs = [
        ("5*halfplane", lambda x: 5 * (x[0] + 2 * x[1] - 0.3), np.array([[0.3 - 2 * t, t] for t in np.linspace(-1, 1, 9)])),
        ("circle level set", lambda x: 3 * (1 - x[0] ** 2 - x[1] ** 2), c2),
        ("scaled box", rf.scale_without_normalization(rf.cuboid(jnp.asarray([1.0, 1.0])), jnp.asarray([2.0, 0.3])), faces(np.zeros(2), np.array([2.0, 0.3]))[0]),
        ("ellipse level set", lambda x: 1 - x[0] ** 2 / 4 - x[1] ** 2 * 9, c2 * np.array([2.0, 1 / 3])),
        ("quartic", lambda x: 1 - x[0] ** 4 - x[1] ** 2, np.array([[t, s * np.sqrt(1 - t ** 4)] for t in (-0.9, -0.4, 0.1, 0.8) for s in (1, -1)])),
        ("exp level set", lambda x: jnp.exp(x[0]) - 2 * jnp.exp(-x[1] ** 2), np.array([[np.log(2) - t ** 2, t] for t in (-1.0, -0.3, 0.4, 1.2)])),
        ("twice normalised", rf.normalize_1st_order(lambda x: 1 - x[0] ** 2 / 4 - x[1] ** 2), c2 * np.array([2.0, 1.0])),
    ]
    for nm, f, xs in fs:
        g = rf.normalize_1st_order(f)
        unit(ctx, f"normalised {nm}", g, xs)
        with ctx.case(f"sign of normalised {nm}"):
            v0 = np.asarray(jax.vmap(lambda x: jnp.reshape(f(x), ()))(jnp.asarray(lat)), float)
            v1 = np.asarray(jax.vmap(lambda x: jnp.reshape(g(x), ()))(jnp.asarray(lat)), float)
            ctx.visit(("sign", nm), len(lat)); ctx.trace(len(lat)); ctx.step(len(lat))
            ctx.mask(f"normalised {nm}: sign kept", np.isfinite(v1) & ((np.abs(v0) < 1e-6) | (v0 * v1 > 0)), lambda ix: f"x={lat[ix[0]].tolist()}: {v0[ix[0]]} -> {v1[ix[0]]}")
    ctx.sample("7 un-normalised level sets, 24 boundary points and 81 lattice points each")


@group()
def interior_finite(ctx):
    """values and first derivatives are finite at interior points including all centres"""
    for d in (1, 2, 3, 4):
        pts = np.array(list(itertools.product((-0.4, 0.0, 0.3), repeat=d)))
        jobs = [(f"sphere dim {d}", rf.sphere(1.5), lambda p: -p / 1.5), (f"ellipsoid dim {d}", rf.ellipsoid(jnp.asarray([2.0, 0.9, 3.0, 1.0][:d])), None),
                (f"scaled sphere dim {d}", rf.scale(rf.sphere(2.0), 0.7), lambda p: -p / (2 * 0.7)),
                (f"cuboid dim {d}", rf.cuboid(jnp.asarray([2.0, 1.5, 3.0, 1.0][:d]), True), None),
                (f"cuboid rp4 dim {d}", rf.cuboid(jnp.asarray([2.0, 1.5, 3.0, 1.0][:d]), True, rf.rp4), None)]
        if d >= 2:
            jobs.append((f"cylinder dim {d}", rf.cylinder(2.0), lambda p: np.concatenate([-p[:, :2] / 2.0, 0 * p[:, 2:]], 1)))
        for nm, f, want in jobs:
            with ctx.case(nm):
                v, gf, gr = grads(f, pts)
                ctx.visit(nm, len(pts)); ctx.step(2 * len(pts)); ctx.trace(len(pts)); ctx.outcome(nm)
                ok = np.isfinite(v) & (v > 0) & np.isfinite(gf).all(-1) & np.isfinite(gr).all(-1)
                ctx.mask(f"{nm}: finite and positive inside", ok, lambda ix: f"x={pts[ix[0]].tolist()}: value {v[ix[0]]}, gradient {gf[ix[0]].tolist()} / {gr[ix[0]].tolist()}")
                if want is not None:
                    ctx.close(f"{nm}: gradient (forward)", gf, want(pts), atol=ctx.tol(1e-10, 1e-5))
                    ctx.close(f"{nm}: gradient (reverse)", gr, want(pts), atol=ctx.tol(1e-10, 1e-5))
    ctx.sample("lattice {-.4,0,.3}^d, d=1..4, forward and reverse mode")
