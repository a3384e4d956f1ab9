"""C12: surface integrals and single-layer potentials match direct quadrature."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np

from magpi import surface_integral as S
from magpi.integrate import gauss, midpoint, simpson, trap
from mc.core import group, tree_close

# ---- surfaces: jax parametrisation, numpy position and area element -------------------------------------------
A0, AU, AV = np.array([0.5, -1.0, 2.0]), np.array([1.0, 0.5, 0.0]), np.array([-0.25, 2.0, 1.0])


def plane_j(t):
    return jnp.asarray(A0) + t[..., 0:1] * jnp.asarray(AU) + t[..., 1:2] * jnp.asarray(AV)


def plane_n(u, v):
    return A0 + u * AU + v * AV, np.linalg.norm(np.cross(AU, AV))


def dish_j(t):
    u, v = t[..., 0], t[..., 1]
    return jnp.stack([u, 2 * v, u * u - 0.5 * u * v], -1)


def dish_n(u, v):
    return np.array([u, 2 * v, u * u - 0.5 * u * v]), np.linalg.norm(np.cross([1, 0, 2 * u - 0.5 * v], [0, 2, -0.5 * u]))


def ball_j(t):
    a, b = jnp.pi * t[..., 0], 2 * jnp.pi * t[..., 1]
    return 1.5 * jnp.stack([jnp.sin(a) * jnp.cos(b), jnp.sin(a) * jnp.sin(b), jnp.cos(a)], -1)


def ball_n(u, v):
    a, b = np.pi * u, 2 * np.pi * v
    return 1.5 * np.array([np.sin(a) * np.cos(b), np.sin(a) * np.sin(b), np.cos(a)]), 1.5 ** 2 * abs(np.sin(a)) * 2 * np.pi ** 2


def tube_j(t):
    b = 2 * t[..., 0]
    return jnp.stack([0.5 * jnp.cos(b), 0.5 * jnp.sin(b), 3 * t[..., 1] - 1], -1)


def tube_n(u, v):
    return np.array([0.5 * np.cos(2 * u), 0.5 * np.sin(2 * u), 3 * v - 1]), 3.0


SURF = {"plane": (plane_j, plane_n), "dish": (dish_j, dish_n), "ball": (ball_j, ball_n), "tube": (tube_j, tube_n)}
GRIDS = [([0.0, 1.0], [0.0, 1.0]), ([0.0, 0.25, 1.0], [0.0, 1.0]), ([0.0, 1.0], [0.0, 0.5, 0.75, 1.0]), ([0.0, 0.25, 1.0], [0.25, 0.5, 1.0, 1.25]), ([0.0, 0.1, 0.5, 0.75], [0.0, 0.6, 0.8])]
G5, G2, G3 = gauss(5), gauss(2), gauss(3)


def gl(n):
    x, w = np.polynomial.legendre.leggauss(n)
    return (x + 1) / 2, w / 2


RULES = {"gauss(5)": (G5,) + gl(5), "gauss(2)": (G2,) + gl(2), "gauss(3)": (G3,) + gl(3), "simpson": (simpson, np.array([0, 0.5, 1]), np.array([1, 4, 1]) / 6), "trap": (trap, np.array([0, 1.0]), np.array([0.5, 0.5])), "midpoint": (midpoint, np.array([0.5]), np.array([1.0]))}


def element_nodes(sn, u0, u1, v0, v1, rn):
    """list of (position, weight * area element) of one element"""
    _, p, w = RULES[rn]
    out = []
    for (pi, wi), (pj, wj) in itertools.product(zip(p, w), zip(p, w)):
        y, a = SURF[sn][1](u0 + (u1 - u0) * pi, v0 + (v1 - v0) * pj)
        out.append((y, wi * wj * (u1 - u0) * (v1 - v0) * a))
    return out


def mesh(u, v):
    return [[(u[i], u[i + 1], v[j], v[j + 1]) for j in range(len(v) - 1)] for i in range(len(u) - 1)]


def mid(sn, e):
    return SURF[sn][1]((e[0] + e[1]) / 2, (e[2] + e[3]) / 2)[0]


def tol(ctx, want, f32=3e-4):
    s = 1 + np.abs(np.asarray(want)).max(initial=0)
    return dict(rtol=ctx.tol(1e-9, f32), atol=ctx.tol(1e-10, f32 / 3) * s)


def npt(t):
    return jax.tree_util.tree_map(np.asarray, t)


# integrands of (position, centre, a, c=, )
def f_np(y, c, a, k):
    return {"s": a * y[0] * y[1] + k, "v": (y * y[2] + a, (y - c) * 2)}


def f_jx(y, c, a, k=0.0):
    return {"s": a * y[0] * y[1] + k, "v": (y * y[2] + a, (y - c) * 2)}


def _surfaces(ctx, names):
    """integrate_surface, integrate_surface_elements, midpoints on every surface x grid x rule"""
    for sn, (u, v), rn in itertools.product(names, GRIDS, RULES):
        if not ctx.thorough and rn != "gauss(5)" and (sn in ("plane", "ball") or (u, v) not in GRIDS[3:]):
            continue
        pj = SURF[sn][0]
        U, V = jnp.asarray(u), jnp.asarray(v)
        M = mesh(u, v)
        a, k = 1.5, -0.25
        el = [[None] * len(M[0]) for _ in M]
        tot, one = None, 0.0
        plus = lambda t: jax.tree_util.tree_map(lambda *q: sum(q), *t)
        for i, j in itertools.product(range(len(M)), range(len(M[0]))):
            c = mid(sn, M[i][j])
            q = element_nodes(sn, *M[i][j], rn)
            el[i][j] = plus([jax.tree_util.tree_map(lambda z: w * z, f_np(y, c, a, k)) for y, w in q])
            one += sum(w for _, w in q)
        want = jax.tree_util.tree_map(lambda *z: np.array(z).reshape((len(M), len(M[0])) + np.shape(z[0])), *[x for r in el for x in r])
        case = f"{sn} grid {u} x {v} {rn}"
        with ctx.case(case):
            n = len(M) * len(M[0])
            ctx.visit(case, n); ctx.step(n); ctx.trace(); ctx.outcome((sn, rn))
            kw = {} if rn == "gauss(5)" else dict(method=RULES[rn][0])
            got, mids, area, whole = jax.jit(lambda U, V: (S.integrate_surface_elements(f_jx, pj, U, V, a, k=k, **kw), S.midpoints(pj, U, V), S.integrate_surface(lambda y: 1.0, pj, U, V, **kw), S.integrate_surface(lambda y, a, *, k: {"s": a * y[0] * y[1] + k}, pj, U, V, a, k=k, **kw)))(U, V)
            tree_close(ctx, case + " elements", got, npt(want), **tol(ctx, 10))
            cref = np.array([[mid(sn, e) for e in r] for r in M])
            ctx.close(case + " midpoints", mids, cref, **tol(ctx, 5))
            ctx.close(case + " area", area, one, **tol(ctx, one))
            ctx.close(case + " whole surface = sum of elements", whole["s"], want["s"].sum(), **tol(ctx, 10))
    for e in GRIDS:
        with ctx.case("center"):
            c = S.center(plane_j, jnp.asarray(e[0][:2]), jnp.asarray(e[1][:2]))
            ctx.close(f"center of the first element of {e}", c, mid("plane", (e[0][0], e[0][1], e[1][0], e[1][1])), **tol(ctx, 5))
            ctx.visit(("center", str(e))); ctx.trace(); ctx.step()
    ctx.sample("integrate_surface_elements on 4 surfaces x 5 grids x 6 rules, integrand using position, centre, args and kwargs")


@group(cost=4, quick=("f64",))
def surfaces_flat(ctx):
    _surfaces(ctx, ["plane", "tube"])


@group(cost=4)
def surfaces_curved(ctx):
    _surfaces(ctx, ["dish", "ball"])


# ---- potentials ----------------------------------------------------------------------------------------------
EX3 = [e for e in itertools.product(range(4), repeat=3) if sum(e) <= 3]
COEF = np.round(np.random.RandomState(7).uniform(-1, 1, (3, len(EX3))) * 16) / 16


def make_charge(deg, vec):
    ex = [(i, e) for i, e in enumerate(EX3) if sum(e) <= deg]

    def one(c, y, xp):
        return sum(float(COEF[c, i]) * y[0] ** e[0] * y[1] ** e[1] * y[2] ** e[2] for i, e in ex)

    def fj(y, s=1.0):
        y2 = y * y
        P = [jnp.ones_like(y), y, y2, y2 * y]
        T = jnp.stack([P[e[0]][0] * P[e[1]][1] * P[e[2]][2] for _, e in ex])
        C = jnp.asarray(COEF[:, [i for i, _ in ex]])
        return s * (C @ T if vec else C[0] @ T)

    def fn(y, s=1.0):
        return s * (np.array([one(c, y, np) for c in range(3)]) if vec else one(0, y, np))

    return fj, fn


CHARGES = {(d, v): make_charge(d, v) for d in range(4) for v in (False, True)}
TARGETS = [np.array([3.0, 1.0, -2.0]), np.array([-0.7, 4.0, 3.5])]


def direct(sn, u, v, rn, fn, x, s=1.0):
    """potential, gradient by direct quadrature"""
    P, G = 0.0, 0.0
    for r in mesh(u, v):
        for e in r:
            for y, w in element_nodes(sn, *e, rn):
                d = x - y
                n = np.linalg.norm(d)
                q = np.asarray(fn(y, s))
                P = P + w * q / n
                G = G + w * q[..., None] * (-d / n ** 3)
    return P / (4 * np.pi), G / (4 * np.pi)


def _potentials(ctx, names, grids):
    for sn, (u, v), rn in itertools.product(names, grids, ("gauss(5)", "gauss(2)") if ctx.thorough else ("gauss(3)",)):
        pj = SURF[sn][0]
        U, V = jnp.asarray(u), jnp.asarray(v)
        for order in (0, 1, 2, 3):
            for xi, x in enumerate(TARGETS):
                case0 = f"{sn} grid {u} x {v} {rn} order {order} target {xi}"
                with ctx.case(case0):
                    kw = dict(method=RULES[rn][0], order=order)
                    s0, J = S.source_tensor(jnp.asarray(x), pj, U, V, **kw)
                    if xi == 0:
                        ctx.close(case0 + " without derivative", S.source_tensor(jnp.asarray(x), pj, U, V, compute_jacfwd=False, **kw), np.asarray(s0), **tol(ctx, 1))
                    ctx.check(case0 + " derivative shape", J.shape == s0.shape + (3,), lambda: f"{J.shape} {s0.shape}")
                    for deg, vec in itertools.product(range(order + 1) if ctx.thorough else [order] + ([0] if order == 2 else []), (False, True)):
                        fj, fn = CHARGES[deg, vec]
                        case = f"{case0} charge degree {deg} {'vector' if vec else 'scalar'}"
                        ctx.visit(case); ctx.step(3); ctx.trace(); ctx.outcome((sn, order, deg, vec))
                        for s in ((1.0, -2.5) if ctx.thorough else (-2.5,)):
                            q = S.charge_tensor(fj, pj, U, V, s, order=order) if s != 1.0 else S.charge_tensor(fj, pj, U, V, order=order)
                            ctx.check(case + " tensors contract", q.shape == s0.shape + ((3,) if vec else ()), lambda: f"charge {q.shape} source {s0.shape}")
                            P, G = direct(sn, u, v, rn, fn, x, s)
                            ctx.close(case + f" potential s={s}", S.single_layer_potential(s0, q), P, **tol(ctx, P))
                            ctx.close(case + f" gradient s={s}", S.single_layer_potential(J, q), G, **tol(ctx, G))
                            if vec:
                                curl = np.array([G[2, 1] - G[1, 2], G[0, 2] - G[2, 0], G[1, 0] - G[0, 1]])
                                ctx.close(case + f" curl s={s}", S.curl_single_layer_potential(J, q), curl, **tol(ctx, G))


@group(cost=4)
def potentials_curved(ctx):
    _potentials(ctx, ["dish", "ball"], [GRIDS[3]] + (GRIDS[:3] if ctx.thorough else []))
    ctx.sample("potential, gradient and curl of scalar/vector polynomial charges of degree <= order on curved patches vs direct quadrature")


@group(cost=4)
def potentials_flat(ctx):
    _potentials(ctx, ["plane", "tube"], [GRIDS[4]] + (GRIDS[:3] if ctx.thorough else []))


@group(cost=3)
def expansions(ctx):
    """charges that are not polynomials: the result is the potential of the Taylor polynomial about each element's midpoint; keyword arguments; transformations of the target"""
    def fj(y, a=1.0, b=0.0):
        return jnp.exp(a * y[0]) * (1 + b * y[1])

    def taylor(c, order, a, b):
        ea = np.exp(a * c[0])
        f0, f1 = ea * (1 + b * c[1]), np.array([a * ea * (1 + b * c[1]), ea * b, 0.0])
        H = np.zeros((3, 3))
        H[0, 0], H[0, 1], H[1, 0] = a * a * ea * (1 + b * c[1]), a * ea * b, a * ea * b
        return lambda y: f0 + (order > 0) * (f1 @ (y - c)) + (order > 1) * 0.5 * (y - c) @ H @ (y - c)

    for sn, (u, v) in itertools.product(("dish", "tube"), GRIDS[3:]):
        pj = SURF[sn][0]
        U, V = jnp.asarray(u), jnp.asarray(v)
        for order in (0, 1, 2):
            s0 = {}
            for (a, b, how), x in itertools.product(((1.0, 0.0, "default"), (-0.5, 2.0, "positional"), (0.5, -1.0, "keyword")), TARGETS):
                case = f"{sn} grid {u} x {v} order {order} exp charge {how} target {x.tolist()}"
                with ctx.case(case):
                    ctx.visit(case); ctx.step(); ctx.trace(); ctx.outcome((sn, order, how))
                    pos, kw = ((), {}) if how == "default" else ((a, b), {}) if how == "positional" else ((), dict(a=a, b=b))
                    q = S.charge_tensor(fj, pj, U, V, *pos, order=order, **kw)
                    key = tuple(x)
                    if key not in s0:
                        s0[key] = S.source_tensor(jnp.asarray(x), pj, U, V, order=order, compute_jacfwd=False)
                    want = 0.0
                    for e in sum(mesh(u, v), []):
                        t = taylor(mid(sn, e), order, a, b)
                        want += sum(w * t(y) / np.linalg.norm(x - y) for y, w in element_nodes(sn, *e, "gauss(5)"))
                    ctx.close(case, S.single_layer_potential(s0[key], q), want / (4 * np.pi), **tol(ctx, want))
    with ctx.case("defaults"):
        # defaults: order two, derivative included; batches of targets by vmap
        U, V = jnp.asarray(GRIDS[3][0]), jnp.asarray(GRIDS[3][1])
        fjv, fnv = CHARGES[2, False]
        q = S.charge_tensor(fjv, dish_j, U, V)
        s, J = jax.vmap(lambda x: S.source_tensor(x, dish_j, U, V))(jnp.asarray(np.stack(TARGETS)))
        for i, x in enumerate(TARGETS):
            P, G = direct("dish", *GRIDS[3], "gauss(5)", fnv, x)
            ctx.close(f"default order, target {i}", S.single_layer_potential(s[i], q), P, **tol(ctx, P))
            ctx.close(f"default order, gradient, target {i}", S.single_layer_potential(J[i], q), G, **tol(ctx, G))
            ctx.visit(("vmap", i)); ctx.step(); ctx.trace()
    # total charge of a closed surface seen from far away and from inside (uniformly charged sphere)
    with ctx.case("sphere"):
        U = jnp.linspace(0, 1, 9); V = jnp.linspace(0, 1, 9)
        one = lambda y: jnp.asarray(1.0)
        q = S.charge_tensor(one, ball_j, U, V, order=0)
        for x, want in (([0.0, 0.0, 0.0], 1.5), ([0.3, -0.4, 0.2], 1.5), ([0.0, 4.0, 3.0], 1.5 ** 2 / 5.0)):
            ctx.visit(("sphere", tuple(x))); ctx.trace(); ctx.step()
            ctx.close(f"uniformly charged sphere at {x}", S.single_layer_potential(S.source_tensor(jnp.asarray(x), ball_j, U, V, order=0, compute_jacfwd=False), q), want, rtol=1e-4, atol=1e-4)


@group()
def charges(ctx):
    """scalar and vector potential surface charges: all adf / field / parameter combinations on a boundary-point lattice"""
    dirs = np.array([d for d in itertools.product((-1.0, 0.0, 1.0), repeat=3) if any(d)])
    dirs = dirs / np.linalg.norm(dirs, axis=1)[:, None]
    c0 = np.array([0.5, -1.0, 0.25])
    B = np.array([[1.0, 0.5, 0.0], [0.0, 2.0, -1.0], [0.25, 0.0, 0.5]])
    axes = np.array([1.0, 2.0, 0.5])
    # (name, adf, boundary points, outward unit normals, normalised?)
    shapes = [("sphere r=2", lambda x: (4 - jnp.sum((x - jnp.asarray(c0)) ** 2)) / 4, c0 + 2 * dirs, dirs, True), ("unscaled sphere", lambda x: 5.0 * (4 - jnp.sum((x - jnp.asarray(c0)) ** 2)), c0 + 2 * dirs, dirs, False)]
    nrm = dirs / axes
    shapes.append(("ellipsoid", lambda x: 1 - jnp.sum((x / jnp.asarray(axes)) ** 2), dirs * axes, nrm / np.linalg.norm(nrm, axis=1)[:, None], False))
    nn = np.array([1.0, -2.0, 2.0]) / 3
    tang = np.array([[0.0, 0, 0], [2.0, 1, 0], [0, 1, 1.0], [-2, 1, 2]])
    shapes.append(("half space", lambda x: 0.5 - jnp.asarray(nn) @ x, 0.5 * nn + tang, np.tile(nn, (4, 1)), True))
    mags = {"constant": (lambda x: jnp.asarray([1.0, -2.0, 0.5]), lambda x: np.array([1.0, -2.0, 0.5]), ()), "linear": (lambda x, s, t: s * (jnp.asarray(B) @ x) + t, lambda x: 2 * B @ x - 1, (2.0, -1.0)), "zero": (lambda x: 0 * x, lambda x: 0 * x, ())}
    phis = {"quadratic": (lambda x: x[0] * x[1] + x[2] ** 2, lambda x: np.array([x[1], x[0], 2 * x[2]]), ()), "parameters": (lambda x, p: p["k"] * x[0] ** 2 - x[1], lambda x: np.array([6 * x[0], -1.0, 0.0]), ({"k": 3.0},)), "zero": (lambda x: 0.0 * x[0], lambda x: np.zeros(3), ())}
    As = {"quadratic": (lambda x: jnp.stack([x[0] * x[1], x[2] ** 2, x[0] - x[1]]), lambda x: np.array([[x[1], x[0], 0], [0, 0, 2 * x[2]], [1, -1, 0]]), ()), "parameters": (lambda x, k, m: k * (jnp.asarray(B) @ x) * m, lambda x: 3 * B * np.array([1.0, 2.0, -1.0])[:, None], (3.0, jnp.asarray([1.0, 2.0, -1.0]))), "zero": (lambda x: 0 * x, lambda x: np.zeros((3, 3)), ())}
    for (sn, adf, pts, nor, normal), (mn, (mj, mnp, mp)) in itertools.product(shapes, mags.items()):
        X = jnp.asarray(pts)
        for kind, table in (("scalar", phis), ("vector", As)):
            for pn, (pj, pd, pp) in table.items():
                case = f"{kind} charge on {sn}, magnetisation {mn}, potential {pn}"
                with ctx.case(case):
                    ctx.visit(case, len(pts)); ctx.step(len(pts)); ctx.trace(); ctx.outcome(case)
                    op = S.scalar_potential_charge if kind == "scalar" else S.vector_potential_charge
                    ch = op(adf, mj, pj)
                    if mp or pp:
                        got = jax.vmap(lambda x: ch(x, mp, pp))(X)
                    else:
                        got = jax.vmap(ch)(X)
                    want = np.array([(mnp(x) @ n if kind == "scalar" else np.cross(mnp(x), n)) - pd(x) @ n for x, n in zip(pts, nor)])
                    ctx.close(case, got, want, **tol(ctx, want))
                    if True:  # potential given as adf * psi: the normalised form takes psi
                        full = lambda x, *a: adf(x) * pj(x, *a)
                        a = jax.vmap(lambda x: op(adf, mj, pj, normalized=True)(x, mp, pp))(X)
                        psi = np.array([np.asarray(pj(x, *pp)) for x in X])
                        base = np.array([(mnp(x) @ n if kind == "scalar" else np.cross(mnp(x), n)) for x, n in zip(pts, nor)])
                        ctx.close(case + " (normalised form)", a, base + psi, **tol(ctx, want))
                        if normal:
                            b = jax.vmap(lambda x: op(adf, mj, full)(x, mp, pp))(X)
                            ctx.close(case + " (both forms agree)", b, np.asarray(a), **tol(ctx, want))
    ctx.sample("surface charges on 4 shapes x boundary lattice x 3 magnetisations x 3 potentials, scalar and vector, both forms")
