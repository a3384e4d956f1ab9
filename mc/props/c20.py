"""C20: spline bases and activations satisfy the B-spline laws."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np

from magpi.spline import SplineActivation, basis, make_grid
from mc.core import group


# ---- reference: Cox-de Boor with the 0/0 = 0 convention ------------------------------------------------------------
def bspl(x, t, k):
    """(len(x), len(t)-k-1)"""
    x, t = np.asarray(x, float)[:, None], np.asarray(t, float)
    B = ((t[:-1] <= x) & (x < t[1:])).astype(float)
    for q in range(1, k + 1):
        n = len(t) - q - 1
        C = np.zeros((x.shape[0], n))
        for i in range(n):
            if t[i + q] != t[i]:
                C[:, i] += ((x[:, 0] - t[i]) / (t[i + q] - t[i])) * B[:, i]
            if t[i + q + 1] != t[i + 1]:
                C[:, i] += ((t[i + q + 1] - x[:, 0]) / (t[i + q + 1] - t[i + 1])) * B[:, i + 1]
        B = C
    return B


def dbspl(x, t, k):
    if k == 0:
        return np.zeros((len(x), len(t) - 1))
    t = np.asarray(t, float)
    B = bspl(x, t, k - 1)
    n = len(t) - k - 1
    out = np.zeros((len(x), n))
    for i in range(n):
        if t[i + k] != t[i]:
            out[:, i] += k * B[:, i] / (t[i + k] - t[i])
        if t[i + k + 1] != t[i + 1]:
            out[:, i] -= k * B[:, i + 1] / (t[i + k + 1] - t[i + 1])
    return out


def points(t):
    """knots, points inside every cell, points outside"""
    u = np.unique(t)
    out = [u[0] - 1.0, u[-1] + 0.5]
    inner = []
    for a, b in zip(u[:-1], u[1:]):
        inner += [a + 0.25 * (b - a), a + 0.5 * (b - a), a + 0.875 * (b - a)]
    return np.array(list(u) + inner + out), np.array(inner + out)


LAT = [-1.0, -0.5, 0.25, 1.0, 2.0]


def knot_sequences(n, lat):
    return [list(c) for c in itertools.combinations_with_replacement(lat, n)]


def _laws(ctx, degrees, lengths, lat=LAT):
    for k, n in itertools.product(degrees, lengths):
        if n < k + 2:
            continue
        seqs = knot_sequences(n, lat)
        if len(seqs) > 400 and not ctx.thorough:
            seqs = seqs[:: len(seqs) // 200]
        P = [points(s) for s in seqs]
        M = max(len(p[0]) for p in P)
        MI = max(len(p[1]) for p in P)
        X = np.array([np.pad(p[0], (0, M - len(p[0])), mode="edge") for p in P])
        XI = np.array([np.pad(p[1], (0, MI - len(p[1])), mode="edge") for p in P])
        T = np.array(seqs)
        case = f"degree {k}, all {len(seqs)} knot sequences of length {n}"
        with ctx.case(case):
            f = jax.jit(jax.vmap(lambda x, t: basis(x, t, degree=k)))
            got = np.asarray(f(jnp.asarray(X), jnp.asarray(T)), float)
            ctx.visit((k, n), X.size); ctx.step(len(seqs)); ctx.trace(len(seqs)); ctx.outcome((k, n))
            want = np.array([bspl(x, t, k) for x, t in zip(X, T)])
            tl = ctx.tol(1e-10, 2e-5)
            d = lambda ix: f"knots {T[ix[0]].tolist()} x={X[ix[0], ix[1]]}: basis {got[ix[0], ix[1]].tolist()}, expected {want[ix[0], ix[1]].tolist()}"
            if not ctx.check(case + ": number of basis functions", got.shape == want.shape, lambda: f"{got.shape} {want.shape}"):
                continue
            ctx.mask(case + ": Cox-de Boor values", np.abs(got - want).max(-1) <= tl, d)
            ctx.mask(case + ": non-negative", (got >= -tl).all(-1), d)
            ctx.mask(case + ": finite", np.isfinite(got).all(-1), d)
            nb = n - k - 1
            lo, hi = T[:, :nb], T[:, k + 1:]
            out = (X[:, :, None] < lo[:, None, :]) | (X[:, :, None] >= hi[:, None, :])
            ctx.mask(case + ": zero outside the knot span", (np.abs(np.where(out, got, 0)) <= tl).all(-1), d)
            inner = (X >= T[:, k][:, None]) & (X < T[:, n - 1 - k][:, None])
            ctx.mask(case + ": partition of unity on the inner interval", ~inner | (np.abs(got.sum(-1) - 1) <= tl), d)
            # reproduction of polynomials: Greville-type coefficients from the reference by dual functionals (Marsden) for degree 1
            if k >= 1:
                xi = np.array([[t[i + 1:i + k + 1].mean() for i in range(nb)] for t in T])
                lin = np.einsum("spi,si->sp", got, xi)
                ctx.mask(case + ": reproduces linear functions", ~inner | (np.abs(lin - X) <= ctx.tol(1e-10, 5e-5)), d)
            # derivatives, both modes
            g1 = np.asarray(jax.jit(jax.vmap(jax.vmap(jax.jacfwd(lambda x, t: basis(x, t, degree=k)), (0, None))))(jnp.asarray(XI), jnp.asarray(T)), float)
            g2 = np.asarray(jax.jit(jax.vmap(jax.vmap(jax.jacrev(lambda x, t: basis(x, t, degree=k)), (0, None))))(jnp.asarray(XI), jnp.asarray(T)), float)
            wd = np.array([dbspl(x, t, k) for x, t in zip(XI, T)])
            for nm, g in (("forward", g1), ("reverse", g2)):
                ctx.mask(f"{case}: {nm} derivative", np.abs(g - wd).max(-1) <= ctx.tol(1e-9, 2e-4) * (1 + np.abs(wd).max(-1)), lambda ix: f"knots {T[ix[0]].tolist()} x={XI[ix[0], ix[1]]}: {g[ix[0], ix[1]].tolist()}, expected {wd[ix[0], ix[1]].tolist()}")
            g3 = np.asarray(jax.jit(jax.vmap(jax.vmap(jax.grad(lambda x, t: jnp.sum(basis(x, t, degree=k) ** 2)), (0, None))))(jnp.asarray(X), jnp.asarray(T)), float)
            ctx.mask(f"{case}: derivatives at the knots are finite", np.isfinite(g3), lambda ix: f"knots {T[ix[0]].tolist()} x={X[ix]}: {g3[ix]}")


@group(cost=2)
def low_degrees(ctx):
    """every non-decreasing knot sequence over the lattice, degrees 0-2, at all knots, cell points and outside points"""
    _laws(ctx, (0, 1, 2), (2, 3, 4, 5, 6))
    ctx.sample("all multisets of 5 lattice knots of size 2..6, degrees 0-2: Cox-de Boor values and derivatives")


@group(cost=3)
def cubics(ctx):
    _laws(ctx, (3,), (5, 6, 7, 8) if not ctx.thorough else (5, 6, 7, 8, 9))


@group(cost=2, quick=("f32",))
def high_degrees(ctx):
    _laws(ctx, (4, 5), (6, 7) if not ctx.thorough else (6, 7, 8, 9))


@group(cost=2, quick=("f64",))
def reproduction(ctx):
    """every monomial up to the degree lies in the span of the basis on the inner interval; default degree; shapes of the input"""
    grids = {"uniform": np.arange(0.0, 10.0), "graded": np.array([0, 0.1, 0.3, 0.7, 1.5, 2.0, 3.5, 5.0, 8.0, 9.0]), "clamped": np.array([0, 0, 0, 0, 1.0, 2.0, 2.5, 4.0, 4.0, 4.0, 4.0]), "double": np.array([-1.0, 0, 0.5, 1.0, 1.0, 2.0, 2.0, 3.0, 4.0, 4.5])}
    for (gn, t), k in itertools.product(grids.items(), range(0, 5)):
        case = f"{gn} knots degree {k}"
        with ctx.case(case):
            a, b = t[k], t[len(t) - 1 - k]
            if b <= a:
                continue
            x = a + (b - a) * (np.arange(60) + 0.5) / 60
            B = np.asarray(basis(jnp.asarray(x), jnp.asarray(t), degree=k), float)
            ctx.visit(case, 60); ctx.step(60); ctx.trace(); ctx.outcome(case)
            for p in range(k + 1):
                y = (x / 5) ** p
                c = np.linalg.lstsq(B, y, rcond=None)[0]
                ctx.close(f"{case}: reproduces x^{p}", B @ c, y, rtol=0, atol=ctx.tol(1e-9, 2e-4))
            if k == 3:
                ctx.close(f"{case}: default degree is three", basis(jnp.asarray(x), jnp.asarray(t)), B, atol=1e-5)
            for shp in ((), (1,), (3,), (2, 3), (2, 1, 3), (0, 2)):
                n = int(np.prod(shp))
                z = x[:n].reshape(shp)
                ctx.close(f"{case}: input shape {shp}", basis(jnp.asarray(z), jnp.asarray(t), degree=k), bspl(x[:n], t, k).reshape(shp + (-1,)) if n else np.zeros(shp + (len(t) - k - 1,)), rtol=1e-4, atol=ctx.tol(1e-9, 1e-4))
    # a grid per feature
    for k in (1, 2, 3):
        with ctx.case(f"grid per feature degree {k}"):
            T = np.stack([np.arange(9.0), np.arange(9.0) ** 1.5 / 3, np.arange(9.0)[::1] * 0.5 - 1])
            x = np.array([[0.3, 1.0, 2.0], [4.5, 4.0, 1.1], [6.2, -1.0, 0.0], [3.0, 3.0, 2.9]])
            want = np.stack([np.stack([bspl([x[i, j]], T[j], k)[0] for j in range(3)]) for i in range(4)])
            ctx.visit(("feature", k), 12); ctx.step(); ctx.trace()
            ctx.close(f"grid per feature degree {k}", basis(jnp.asarray(x), jnp.asarray(T), degree=k), want, rtol=1e-4, atol=ctx.tol(1e-9, 1e-5))


@group()
def grids(ctx):
    """power-spaced grids: increasing, symmetric, exact ends"""
    for (a, b), p, n in itertools.product(((-3.0, 3.0), (0.0, 1.0), (-2.0, 5.0), (1.5, 1.75)), (0.5, 1.0, 1.5, 2.0, 3.0), (2, 3, 4, 5, 8, 14, 15)):
        case = f"make_grid({a}, {b}, {p}, {n})"
        with ctx.case(case):
            t = np.asarray(make_grid(a, b, p, n), float)
            ctx.visit(case, n); ctx.step(); ctx.trace(); ctx.outcome((a, p, n))
            e = ctx.tol(1e-12, 2e-6) * max(abs(a), abs(b))
            es = e if p >= 1 else ctx.tol(1e-7, 2e-3) * max(abs(a), abs(b))  # a power below one amplifies the rounding of the centre
            if not ctx.check(case + ": size", t.shape == (n,), lambda: f"{t.shape}"):
                continue
            ctx.check(case + ": increasing", (np.diff(t) > 0).all(), lambda: f"{t}")
            ctx.check(case + ": ends", abs(t[0] - a) <= e and abs(t[-1] - b) <= e, lambda: f"{t[0]}, {t[-1]}")
            ctx.check(case + ": symmetric", (np.abs(t + t[::-1] - (a + b)) <= 4 * es).all(), lambda: f"{t}")
            s = np.linspace(-1, 1, n)
            want = (np.sign(s) * np.abs(s) ** p + 1) / 2 * (b - a) + a
            ctx.close(case + ": power spacing about the centre", t, want, rtol=0, atol=10 * es)
    ctx.sample("make_grid over 4 intervals x 5 powers x 7 sizes")


@group(cost=3)
def activations(ctx):
    """the module: every option combination of the alphabet, batch shapes, per-feature grids and coefficients"""
    acts = {"tanh": (None, np.tanh), "sin": (jnp.sin, np.sin), "identity": (lambda x: x, lambda x: x)}
    optset = [("default", {}, -3.0, 3.0, 2.0, 14, 3), ("linear", dict(nodes=6, degree=1, grid_power=1.0), -3.0, 3.0, 1.0, 6, 1), ("quadratic", dict(nodes=7, degree=2, node_min=-1.0, node_max=2.0, grid_power=1.5), -1.0, 2.0, 1.5, 7, 2), ("steps", dict(nodes=5, degree=0), -3.0, 3.0, 2.0, 5, 0)]
    for (on, o, lo, hi, pw, n, k), (an, (aj, anp)), par, shp in itertools.product(optset, acts.items(), (False, True), ((1,), (3,), (4, 3), (2, 2, 3), (0, 2))):
        if not ctx.thorough and an != "tanh" and (shp not in ((4, 3),)):
            continue
        case = f"{on} {an} parameterize_grid={par} input {shp}"
        with ctx.case(case):
            kw = dict(o, parameterize_grid=par)
            if aj is not None:
                kw["activation"] = aj
            mod = SplineActivation(**kw)
            F, nc = shp[-1], n - k - 1
            size = int(np.prod(shp))
            # inputs: spread over the grid, avoiding knots, plus far outside
            x = (np.linspace(lo - 0.5, hi + 0.5, max(size, 1)) + 0.0137)[:size].reshape(shp)
            v = mod.init(jax.random.PRNGKey(0), jnp.asarray(x))
            ctx.visit(case, max(size, 1)); ctx.step(); ctx.trace(); ctx.outcome((on, an, par, shp))
            cs = [l for l in jax.tree_util.tree_leaves(v["params"])]
            if not ctx.check(case + ": nodes-degree-1 coefficients per feature", len(cs) == 1 and cs[0].shape == (F, nc), lambda: f"{[c.shape for c in cs]}"):
                continue
            ctx.close(case + ": zero coefficients give the base activation", mod.apply(v, jnp.asarray(x)), anp(x), rtol=1e-4, atol=ctx.tol(1e-7, 1e-5))
            C = np.round(np.random.RandomState(1).uniform(-2, 2, (F, nc)) * 8) / 8
            v2 = dict(v)
            v2["params"] = jax.tree_util.tree_map(lambda c: jnp.asarray(C), v["params"])
            s = np.linspace(-1, 1, n)
            t0 = (np.sign(s) * np.abs(s) ** pw + 1) / 2 * (hi - lo) + lo
            T = np.tile(t0, (F, 1))
            if par:
                gl = jax.tree_util.tree_leaves(v["grids"])
                ctx.check(case + ": a grid per feature", len(gl) == 1 and gl[0].shape == (F, n), lambda: f"{[g.shape for g in gl]}")
                ctx.close(case + ": initial grid", gl[0], T, rtol=0, atol=ctx.tol(1e-6, 1e-5))
                T = T + 0.2 * np.arange(F)[:, None] + 0.05 * np.arange(n)
                v2["grids"] = jax.tree_util.tree_map(lambda g: jnp.asarray(T), v["grids"])
            else:
                ctx.check(case + ": no grid variables", "grids" not in v, lambda: f"{list(v)}")
            xf = x.reshape(-1, F)
            y = anp(xf) + np.array([[bspl([xf[i, j]], T[j], k)[0] @ C[j] for j in range(F)] for i in range(len(xf))]).reshape(xf.shape)
            near = np.array([[np.abs(T[j] - xf[i, j]).min() < 1e-4 for j in range(F)] for i in range(len(xf))], bool).reshape(xf.shape)
            got = np.asarray(mod.apply(v2, jnp.asarray(x)), float)
            if ctx.check(case + ": output shape", got.shape == x.shape, lambda: f"{got.shape}"):
                ok = near.reshape(x.shape) | (np.abs(got - y.reshape(x.shape)) <= ctx.tol(1e-6, 2e-4) * (1 + np.abs(y.reshape(x.shape))))
                ctx.mask(case + ": base activation plus coefficient-weighted basis", ok, lambda ix: f"x={x[ix]}: {got[ix]}, expected {y.reshape(x.shape)[ix]}")
            if size and shp == (4, 3):
                g = jax.grad(lambda p: jnp.sum(mod.apply({**v2, "params": p}, jnp.asarray(x))))(v2["params"])
                gw = np.array([sum(bspl([xf[i, j]], T[j], k)[0] for i in range(len(xf))) for j in range(F)])
                ctx.close(case + ": gradient wrt the coefficients", jax.tree_util.tree_leaves(g)[0], gw, rtol=1e-3, atol=ctx.tol(1e-6, 2e-3))
    with ctx.case("scalar"):
        mod = SplineActivation()
        v = mod.init(jax.random.PRNGKey(0), jnp.asarray(0.5))
        y = mod.apply(v, jnp.asarray(0.5))
        ctx.visit("scalar"); ctx.step(); ctx.trace()
        ctx.close("scalar input", np.asarray(y).reshape(-1), [np.tanh(0.5)], rtol=1e-5)
        m2 = SplineActivation(coef_init=jax.nn.initializers.ones)
        v = m2.init(jax.random.PRNGKey(0), jnp.zeros((2,)))
        ctx.close("coefficient initialiser, inner interval sums to one", m2.apply(v, jnp.asarray([0.1, -0.2])), np.tanh([0.1, -0.2]) + 1, rtol=1e-5)
    ctx.sample("SplineActivation: 4 option sets x 3 activations x shared/per-feature grids x 5 batch shapes")
