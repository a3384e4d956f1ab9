"""C16: the trust-region subproblem solver returns a valid truncated-CG step."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np

from magpi.tr import steihaug
from mc.core import group


# ---- reference: truncated conjugate gradients in float64 --------------------------------------------------------
def tcg(H, g, R, eps, maxiter):
    """returns z, iterations, converged, boundary, residual norm (interior), distance of the closest decision to its threshold"""
    z = np.zeros_like(g)
    r = g.copy()
    d = -r
    tie = abs(np.linalg.norm(r) - eps) / eps
    if np.linalg.norm(r) < eps:
        return z, 0, True, False, np.linalg.norm(r), tie
    for k in range(1, maxiter + 1):
        Hd = H @ d
        curv = d @ Hd
        rr = r @ r
        scale = np.linalg.norm(d) * max(np.linalg.norm(Hd), 1e-300)
        if curv > 1e-12 * scale:
            if curv < 1e-2 * scale and k > 1:
                tie = min(tie, 0.5 * curv / scale)
            a = rr / curv
            zn = z + a * d
            nz = np.linalg.norm(zn)
            tie = min(tie, abs(nz - R) / R)
        else:
            if curv > -1e-12 * scale and k > 1:
                tie = 0.0  # curvature zero up to rounding
            nz = np.inf
        if nz >= R:
            A, B, C = d @ d, z @ d, z @ z - R * R
            tau = (-B + np.sqrt(max(B * B - A * C, 0.0))) / A
            return z + tau * d, k, True, True, None, tie
        z, rn = zn, r + a * Hd
        d = -rn + (rn @ rn) / rr * d
        r = rn
        nr = np.linalg.norm(r)
        if nr > 1e-9 * np.linalg.norm(g):
            tie = min(tie, abs(nr - eps) / eps)
        if nr < eps:
            return z, k, True, False, nr, tie
    return z, maxiter, False, False, np.linalg.norm(r), tie


def model(H, g, z):
    return g @ z + 0.5 * z @ H @ z


def cauchy(H, g, R):
    n = np.linalg.norm(g)
    if n == 0:
        return 0.0
    c = g @ H @ g
    t = R / n if c <= 0 else min(R / n, n * n / c)
    return model(H, g, -t * g)


def lattice_H(n, entries, off):
    idx = [(i, j) for i in range(n) for j in range(i + 1, n)]
    out = []
    for dg in itertools.product(entries, repeat=n):
        for of in itertools.product(off, repeat=len(idx)):
            H = np.diag(np.array(dg, float))
            for (i, j), v in zip(idx, of):
                H[i, j] = H[j, i] = v
            out.append(H)
    return out


RADII = [0.1, 0.7, 1.6, 12.0, 900.0]


def run_batch(Hs, gs, Rs, es, maxiter, form="array", chunk=4096):
    n = Hs.shape[-1]
    if form == "array":
        pack, flat = (lambda v: v), (lambda t: t)
    elif form == "tree":
        pack, flat = (lambda v: {"a": v[0], "b": (v[1:].reshape(1, -1),)}), (lambda t: jnp.concatenate([jnp.reshape(t["a"], (1,)), t["b"][0].reshape(-1)]))
    else:
        pack, flat = (lambda v: [v[i] for i in range(n)]), (lambda t: jnp.stack(t))

    def one(H, g, R, e):
        r = steihaug(pack(g), lambda t: pack(H @ flat(t)), R, e, maxiter=maxiter, unroll=False, jit=True)
        return flat(r.p), r.iter_num, r.converged, r.limit_step, r.step_length, r.norm_r, r.eps

    return [np.asarray(o) for o in jax.jit(jax.vmap(one))(*[jnp.asarray(a) for a in (Hs, gs, Rs, es)])]


def _sweep(ctx, tag, Hs, gs, radii, epss, maxiters, form="array"):
    n = len(gs[0])
    combos = list(itertools.product(range(len(Hs)), range(len(gs)), range(len(radii)), range(len(epss))))
    A = np.array([Hs[i] for i, *_ in combos], float)
    G = np.array([gs[j] for _, j, *_ in combos], float)
    R = np.array([radii[k] for *_, k, _ in combos], float)
    E = np.array([epss[l] for *_, l in combos], float)
    margin = ctx.tol(1e-6, 2e-3)
    for mi in maxiters:
        case = f"{tag} {form} maxiter={mi}"
        with ctx.case(case):
            p, it, conv, lim, sl, nr, ep = run_batch(A, G, R, E, mi, form)
            p = p.astype(float)
            ctx.visit(case, len(combos)); ctx.trace(len(combos)); ctx.step(int(it.sum()) + len(combos))
            limit = mi if mi is not None else 10 * n
            N = len(combos)
            desc = lambda q: f"H={A[q].tolist()} g={G[q].tolist()} radius={R[q]} eps={E[q]} maxiter={mi}: p={p[q].tolist()} iterations={it[q]} converged={conv[q]} boundary={lim[q]} length={sl[q]}"
            bad = {k: np.ones(N, bool) for k in ("finite", "radius", "cauchy", "length", "step", "iterations", "converged", "boundary", "residual", "eps")}
            why = {}
            rt = ctx.tol(1e-6, 5e-3)
            for q in range(N):
                z, k, c, b, rn, tie = tcg(A[q], G[q], R[q], E[q], limit)
                pn = np.linalg.norm(p[q])
                bad["finite"][q] = np.isfinite(p[q]).all()
                bad["radius"][q] = pn <= R[q] * (1 + ctx.tol(1e-9, 1e-4))
                bad["length"][q] = abs(sl[q] - pn) <= ctx.tol(1e-9, 1e-4) * (1 + pn)
                bad["eps"][q] = abs(ep[q] - E[q]) <= 1e-5 * E[q]
                m, mc = model(A[q], G[q], p[q]), cauchy(A[q], G[q], R[q])
                if it[q] > 0:
                    bad["cauchy"][q] = m <= mc + ctx.tol(1e-8, 1e-3) * (1 + abs(mc))
                if tie < margin:
                    continue
                ctx.outcome((n, k, c, b))
                bad["step"][q] = np.linalg.norm(p[q] - z) <= rt * (1 + np.linalg.norm(z))
                bad["iterations"][q] = it[q] == k
                bad["converged"][q] = bool(conv[q]) == c
                if b or abs(np.linalg.norm(z) - R[q]) > 1e-3 * R[q]:
                    bad["boundary"][q] = bool(lim[q]) == b
                if rn is not None:
                    bad["residual"][q] = abs(nr[q] - rn) <= rt * (1 + np.linalg.norm(G[q]))
                why[q] = (z.tolist(), k, c, b, rn)
            names = dict(finite="step is finite", radius="step within the radius", cauchy="at least the Cauchy decrease", length="step length", step="truncated-CG step", iterations="iteration count", converged="convergence flag", boundary="boundary flag", residual="residual norm of interior steps", eps="tolerance reported")
            for kk, ok in bad.items():
                ctx.mask(f"{case}: {names[kk]}", ok, lambda ix, kk=kk: f"{desc(ix[0])} norm_r={nr[ix[0]]}; reference (step, iterations, converged, boundary, residual) {why.get(ix[0])}")


def grads(n, vals):
    return [np.array(v, float) for v in itertools.product(vals, repeat=n)]


@group()
def one_dimension(ctx):
    _sweep(ctx, "1d", [np.array([[h]]) for h in (-4.0, -1.0, 0.0, 0.25, 1.0, 3.0)], grads(1, (-3.0, -1.0, 0.0, 0.5, 2.0)), RADII, (1e-3, 0.3, 1.7), (None, 1, 2))
    ctx.sample("all scalar models with curvature in {-4..3}, 5 gradients, 5 radii, 3 tolerances")


@group(cost=2)
def two_dimensions(ctx):
    Hs = lattice_H(2, (-2.0, 0.0, 1.0, 3.0), (-1.0, 0.0, 0.5))
    if ctx.thorough:
        Hs = lattice_H(2, (-2.0, -0.5, 0.0, 1.0, 3.0, 10.0), (-2.0, -1.0, 0.0, 0.5, 3.0))
    _sweep(ctx, "2d", Hs, grads(2, (-2.0, 0.0, 1.0)), RADII, (1e-3, 0.4), (None, 1, 2))
    ctx.sample("all symmetric 2x2 matrices over the entry lattice (definite, indefinite, singular)")


@group(cost=3)
def three_dimensions(ctx):
    Hs = lattice_H(3, (-1.0, 1.0, 4.0), (-0.5, 0.0, 1.0))
    if not ctx.thorough:
        Hs = Hs[:: 5]
    gs = [np.array(v) for v in ([1.0, -2.0, 0.5], [0.0, 1.0, 0.0], [3.0, 3.0, -3.0], [-1.0, 0.0, 2.0])]
    _sweep(ctx, "3d", Hs, gs, RADII, (1e-3, 0.4), (None, 1, 2, 3))


@group(cost=2)
def four_dimensions(ctx):
    """diagonal and banded matrices with all sign patterns"""
    Hs = [np.diag(s) for s in itertools.product((-1.0, 0.0, 2.0, 5.0) if ctx.thorough else (-1.0, 2.0, 5.0), repeat=4)]
    Hs += [np.diag(s) + np.diag([o] * 3, 1) + np.diag([o] * 3, -1) for s in itertools.product((1.0, 4.0), repeat=4) for o in (0.25, -1.0)]
    gs = [np.array(v) for v in ([1.0, 1.0, 1.0, 1.0], [4.0, -2.0, 0.5, 1.0], [0.0, 0.0, 1.0, -1.0])]
    _sweep(ctx, "4d", Hs, gs, RADII, (1e-3, 0.5), (None, 2))


@group(cost=2)
def structures(ctx):
    """parameter trees give the same steps as flat arrays"""
    Hs = lattice_H(2, (-2.0, 1.0, 3.0), (-1.0, 0.5))
    gs = grads(2, (-2.0, 1.0))
    for form in ("tree", "list"):
        _sweep(ctx, "2d", Hs, gs, RADII, (1e-3, 0.4), (None, 1), form)
    Hs = lattice_H(3, (-1.0, 2.0), (-0.5, 1.0))
    _sweep(ctx, "3d", Hs, [np.array([1.0, -2.0, 0.5]), np.array([3.0, 0.0, -1.0])], RADII, (1e-3, 0.4), (None, 2), "tree")


@group(cost=2)
def execution_modes(ctx):
    """the default (unrolled), unjitted and compiled loops, called directly without batching, give the same result"""
    cases = [([[2.0, 0.5], [0.5, 1.0]], [1.0, -2.0]), ([[1.0, 0.0], [0.0, -1.0]], [1.0, 0.5]), ([[3.0, 0.0], [0.0, 0.0]], [1.0, 0.0]), ([[1.0, 0], [0, 2.0]], [0.0, 0.0]), ([[2.0, -1.0], [-1.0, 3.0]], [2.0, 2.0])]
    for (H, g), R, e, mi in itertools.product(cases, (0.7, 12.0), (1e-3, 0.9), (2, 3)):
        H, g = np.array(H), np.array(g)
        z, k, c, b, rn, tie = tcg(H, g, R, e, mi)
        if tie < 1e-3:
            continue
        for nm, kw in (("default", {}), ("compiled", dict(unroll=False, jit=True)), ("unrolled, no jit", dict(unroll=True, jit=False))):
            if nm == "default" and (e > 0.5 and not ctx.thorough):
                continue
            case = f"{nm} H={H.tolist()} g={g.tolist()} radius={R} eps={e} maxiter={mi}"
            with ctx.case(case):
                ctx.visit(case); ctx.trace(); ctx.step(k + 1); ctx.outcome((nm, k, c, b))
                Hj = jnp.asarray(H)
                r = steihaug(jnp.asarray(g), lambda v: Hj @ v, R, e, maxiter=mi, **kw)
                ctx.close(case + " step", r.p, z, rtol=ctx.tol(1e-8, 1e-3), atol=ctx.tol(1e-8, 1e-4))
                ctx.check(case + " flags", (int(r.iter_num), bool(r.converged), bool(r.limit_step)) == (k, c, b), lambda: f"{r} vs {(k, c, b)}")
                ctx.close(case + " length", r.step_length, np.linalg.norm(z), rtol=1e-4, atol=1e-5)
    with ctx.case("default iteration limit"):
        H, g = np.diag([1.0, 2.0, 4.0]), np.array([1.0, 1.0, -1.0])
        r = steihaug(jnp.asarray(g), lambda v: jnp.asarray(H) @ v, 100.0, 1e-4, unroll=False)
        ctx.close("default iteration limit reaches the minimiser", r.p, -np.linalg.solve(H, g), rtol=1e-3, atol=1e-4)
        ctx.visit("default limit"); ctx.trace(); ctx.step(4)


@group()
def scales(ctx):
    """badly scaled models: curvature and gradient scaled independently over many decades"""
    base = [np.array([[2.0, 0.5], [0.5, 1.0]]), np.array([[1.0, 0.5], [0.5, -1.0]]), np.array([[0.0, 0.0], [0.0, 1.0]])]
    Hs = [s * H for H in base for s in (1e-3, 1.0, 1e3)]
    gs = [s * np.array(g) for g in ([1.0, -2.0], [0.0, 1.0]) for s in (1e-2, 1.0, 1e2)]
    _sweep(ctx, "scaled 2d", Hs, gs, [1e-2, 1.3, 77.0], (1e-4, 0.1), (None, 1))
