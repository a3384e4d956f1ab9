"""C08: domain queries: measure, membership, outward normals, value identity."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np

import magpi.domain as dm
from mc.core import group

CUBES = [((0.0,), (1.0,)), ((-2.0,), (3.5,)), ((0.0, 0.0), (1.0, 1.0)), ((-1.0, 2.0), (0.5, 6.0)), ((0, -3), (2, 1)), ((1.0, -2.0, 0.5), (2.0, 1.0, 0.75)), ((0.0, 0.0, 0.0), (3.0, 1.0, 2.0)),
         ((-10.0, 100.0), (-9.0, 150.0)), ((0.0, 1.0, 2.0, -1.0), (1.0, 1.5, 4.0, 2.0))]
BALLS = [(1.0, (0.0, 0.0)), (2.5, (1.0, -3.0)), (0.25, (0.0, 4.0)), (3, (1, 2)), (1.0, (0.0, 0.0, 0.0)), (2.5, (1.0, -3.0, 2.0)), (0.3, (0.0, 4.0, 1.0)), (2, (0, 1, 2))]


def ball(r, o):
    return (dm.Disk if len(o) == 2 else dm.Sphere)(r, o)


@group()
def supports(ctx):
    def chk(name, dom, want, dim):
        with ctx.case(name):
            v = dom.support()
            ctx.visit(name); ctx.step(); ctx.trace(); ctx.outcome(round(float(v), 3))
            ctx.close(f"{name}: support", np.asarray(v, float), want, rtol=ctx.tol(1e-12, 1e-5), atol=ctx.tol(1e-12, 1e-6))
            ctx.check(f"{name}: dimension", dom.dimension == dim, str(dom.dimension))
    for lb, ub in CUBES:
        chk(f"Hypercube{lb}{ub}", dm.Hypercube(lb, ub), float(np.prod(np.array(ub, float) - np.array(lb, float))), len(lb))
    for r, o in BALLS:
        chk(f"ball({r},{o})", ball(r, o), np.pi * r ** 2 if len(o) == 2 else 4 / 3 * np.pi * r ** 3, len(o))
    for r1, r2 in itertools.product((0.0, 0.5, 1, 1.5), (2, 2.5, 4.0)):
        chk(f"Annulus({r1},{r2})", dm.Annulus(r1, r2, (0.3, 1.0)), np.pi * (r2 ** 2 - r1 ** 2), 2)
    V = [(0.0, 0.0), (2.0, 0.5), (-1.0, 3.0), (1.0, 1.0)]
    for a, b, c in itertools.permutations(V, 3):
        A, B, C = map(np.array, (a, b, c))
        chk(f"Parallelogram{a}{b}{c}", dm.Parallelogram(a, b, c), abs(np.cross(B - A, C - A)) if False else abs((B - A)[0] * (C - A)[1] - (B - A)[1] * (C - A)[0]), 2)
    for a, b, c in [((1.0, 1.0, 1.0), (2.0, 1.0, 3.0), (1.0, 4.0, 0.0)), ((0.0, 0.0, 2.0), (1.0, 0.0, 2.0), (0.0, 0.5, 2.5)), ((5.0, 1.0, 0.0), (5.0, 2.0, 0.0), (5.0, 1.0, 3.0))]:
        A, B, C = map(np.array, (a, b, c))
        chk(f"Parallelogram{a}{b}{c}", dm.Parallelogram(a, b, c), float(np.linalg.norm(np.cross(B - A, C - A))), 3)
    ctx.sample("9 cubes, 8 balls, 12 annuli, 27 parallelograms")


def truth(res, pts_shape):
    res = np.asarray(res)
    return res.all(-1) if res.shape == pts_shape else res


@group()
def membership(ctx):
    for lb, ub in CUBES:
        l, u = np.array(lb, float), np.array(ub, float)
        d = len(l)
        t = np.array(list(itertools.product((-0.5, 0, 0.2, 0.5, 1, 1.25), repeat=d)))
        p = l + t * (u - l)
        p = np.where(t == 0, l, np.where(t == 1, u, p))
        want = ((t >= 0) & (t <= 1)).all(1)
        h = dm.Hypercube(lb, ub)
        with ctx.case(f"Hypercube{lb}{ub}.includes"):
            for how, f in (("eager", h.includes), ("jit", jax.jit(h.includes))):
                got = truth(f(jnp.asarray(p)), p.shape)
                ctx.visit((lb, how), len(p)); ctx.step(len(p)); ctx.trace(len(p))
                ctx.mask(f"Hypercube{lb}{ub}.includes ({how} batch)", got == want, lambda ix: f"{p[ix[0]].tolist()} -> {got[ix[0]]}")
            for i in range(0, len(p), max(1, len(p) // 20)):
                g = bool(np.asarray(h.includes(jnp.asarray(p[i]))).all())
                ctx.visit((lb, "single", i)); ctx.trace(); ctx.step(); ctx.outcome(g)
                ctx.check(f"Hypercube{lb}{ub}.includes({p[i].tolist()})", g == bool(want[i]), str(g))
            b = p[: (len(p) // 2) * 2].reshape(2, -1, d)
            ctx.mask(f"Hypercube{lb}{ub}.includes (2 leading axes)", truth(h.includes(jnp.asarray(b)), b.shape).ravel() == want[: (len(p) // 2) * 2], lambda ix: f"{b.reshape(-1, d)[ix[0]].tolist()}")
    for r, o in BALLS:
        d = len(o)
        c = np.array(o, float)
        u = np.array([v for v in itertools.product((-1, 0, 0.5, 2), repeat=d) if any(v)], float)
        u /= np.linalg.norm(u, axis=1, keepdims=True)
        rad = (0.0, 0.3, 0.9, 0.999, 1.001, 1.2, 4.0)
        p = np.concatenate([c + k * r * u for k in rad])
        want = np.repeat([k < 1 for k in rad], len(u))
        D = ball(r, o)
        with ctx.case(f"ball({r},{o}).includes"):
            for how, f in (("eager", D.includes), ("jit", jax.jit(D.includes))):
                got = np.asarray(f(jnp.asarray(p)))
                ctx.visit((r, o, how), len(p)); ctx.step(len(p)); ctx.trace(len(p))
                ctx.check(f"ball({r},{o}).includes shape", got.shape == want.shape, str(got.shape))
                ctx.mask(f"ball({r},{o}).includes ({how})", got == want, lambda ix: f"{p[ix[0]].tolist()} -> {got[ix[0]]}")
            for i in range(0, len(p), max(1, len(p) // 12)):
                ctx.visit((r, o, "single", i)); ctx.trace(); ctx.step()
                ctx.check(f"ball({r},{o}).includes({p[i].tolist()})", bool(D.includes(jnp.asarray(p[i]))) == bool(want[i]))
    ctx.sample("box lattices with all faces and corners; ball shells at 7 relative radii")


@group(cost=3)
def cube_normals(ctx):
    """every face, edge and corner of every cube: single samples, whole batches, batches of every small size, mixed with non-boundary samples"""
    for lb, ub in CUBES:
        l, u = np.array(lb, float), np.array(ub, float)
        d = len(l)
        h = dm.Hypercube(lb, ub)
        t = np.array(list(itertools.product((0, 0.3, 1) if d > 2 else (0, 0.3, 0.8, 1), repeat=d)))
        p = np.where(t == 0, l, np.where(t == 1, u, l + t * (u - l)))
        onb = ((t == 0) | (t == 1)).any(1)
        bp, bt = p[onb], t[onb]
        out = np.concatenate([l + v * (u - l) for v in (np.full((1, d), 0.5), np.full((1, d), 0.25))] + [np.array([l - 0.5 * (u - l)]), np.array([u + 0.5 * (u - l)])] + [np.array([l + (np.where(np.arange(d) == i, 1.4, 0.0)) * (u - l)]) for i in range(d)])

        def valid(n, tt):
            """n outward unit normal of a face containing the sample(s)"""
            n = np.asarray(n, float)
            ok = np.isclose(np.linalg.norm(n, axis=-1), 1) & (np.sum(n != 0, -1) == 1)
            face = np.where(n > 0, tt == 1, np.where(n < 0, tt == 0, True)).all(-1)
            return ok & face

        nm = f"Hypercube{lb}{ub}.normal_vec"
        with ctx.case(nm):
            n = h.normal_vec(jnp.asarray(bp))
            ctx.visit((lb, "batch"), len(bp)); ctx.step(len(bp)); ctx.trace()
            if ctx.check(f"{nm}: boundary batch has normals", n is not None and np.shape(n) == bp.shape, lambda: repr(n)):
                ctx.mask(f"{nm}: outward unit normals", valid(n, bt), lambda ix: f"{bp[ix[0]].tolist()} -> {np.asarray(n)[ix[0]].tolist()}")
            for i in range(len(bp)):
                n1 = h.normal_vec(jnp.asarray(bp[i]))
                ctx.visit((lb, "single", i)); ctx.step(); ctx.trace(); ctx.outcome(tuple(np.asarray(n1, float)) if n1 is not None else None)
                ctx.check(f"{nm}: single {bp[i].tolist()}", n1 is not None and np.shape(n1) == (d,) and bool(valid(n1, bt[i])), lambda: repr(n1))
            for k in (1, 2, 3, 4, 5):
                for s in range(0, len(bp) - k + 1, max(1, len(bp) // 6)):
                    n2 = h.normal_vec(jnp.asarray(bp[s:s + k]))
                    ctx.visit((lb, "batch", k, s)); ctx.step(k); ctx.trace()
                    ctx.check(f"{nm}: batch of {k} from {s}", n2 is not None and np.shape(n2) == (k, d) and valid(n2, bt[s:s + k]).all(), lambda: f"{bp[s:s + k].tolist()} -> {n2!r}")
            if len(bp) >= 6:
                n3 = h.normal_vec(jnp.asarray(bp[:6].reshape(2, 3, d)))
                ctx.check(f"{nm}: batch (2,3)", n3 is not None and np.shape(n3) == (2, 3, d) and valid(n3, bt[:6].reshape(2, 3, d)).all(), lambda: repr(n3))
            # a single sample off the boundary: nothing
            for q in out:
                r = h.normal_vec(jnp.asarray(q))
                ctx.visit((lb, "off", tuple(q))); ctx.step(); ctx.trace()
                ctx.check(f"{nm}: off-boundary {q.tolist()} gives nothing", r is None, lambda: repr(r))
                for pos in (0, 1, 2):
                    b = np.insert(bp[:2], pos, q, axis=0) if len(bp) >= 2 else np.stack([q, bp[0]])
                    r = h.normal_vec(jnp.asarray(b))
                    ctx.visit((lb, "mixed", tuple(q), pos)); ctx.step(); ctx.trace()
                    ctx.check(f"{nm}: batch with off-boundary sample {q.tolist()} at {pos} gives nothing", r is None, lambda: f"{b.tolist()} -> {r!r}")
    ctx.sample("all faces, edges, corners of 9 boxes (1-4 dims)")


@group(cost=2)
def ball_normals(ctx):
    for r, o in BALLS:
        d = len(o)
        c = np.array(o, float)
        u = np.array([v for v in itertools.product((-1, 0, 0.5, 2), repeat=d) if any(v)], float)
        u /= np.linalg.norm(u, axis=1, keepdims=True)
        p = c + r * u
        D = ball(r, o)
        nm = f"ball({r},{o}).normal_vec"
        tol = ctx.tol(1e-9, 1e-5) * (1 + np.abs(c).max() / r)
        with ctx.case(nm):
            for k in (1, 2, 3, 4, 5, len(u)):
                for s in range(0, len(u) - k + 1, max(1, len(u) // 5)):
                    n = D.normal_vec(jnp.asarray(p[s:s + k]))
                    ctx.visit((r, o, k, s), k); ctx.step(k); ctx.trace(); ctx.outcome((r, o, k, s))
                    if ctx.check(f"{nm}: batch of {k} boundary samples", n is not None, "returned nothing"):
                        ctx.close(f"{nm}: batch of {k} from {s}", n, u[s:s + k], atol=tol)
            n = D.normal_vec(jnp.asarray(p[:6].reshape(2, 3, d)))
            if ctx.check(f"{nm}: batch (2,3)", n is not None, "returned nothing"):
                ctx.close(f"{nm}: batch (2,3)", n, u[:6].reshape(2, 3, d), atol=tol)
            for i in range(len(u)):
                n = D.normal_vec(jnp.asarray(p[i]))
                ctx.visit((r, o, "single", i)); ctx.step(); ctx.trace()
                if ctx.check(f"{nm}: single {p[i].tolist()}", n is not None, "returned nothing"):
                    ctx.close(f"{nm}: single {p[i].tolist()}", n, u[i], atol=tol)
            for k in (0.0, 0.5, 0.99, 1.01, 3.0):
                q = c + k * r * u[3]
                res = D.normal_vec(jnp.asarray(q))
                ctx.visit((r, o, "off", k)); ctx.step(); ctx.trace()
                ctx.check(f"{nm}: radius fraction {k} gives nothing", res is None, lambda: repr(res))
                for pos in (0, 1, 2):
                    b = np.insert(p[:2], pos, q, axis=0)
                    res = D.normal_vec(jnp.asarray(b))
                    ctx.check(f"{nm}: batch with one sample at radius fraction {k}, position {pos}, gives nothing", res is None, lambda: repr(res))
    ctx.sample("direction lattice, every batch size 1-5 and full, with off-boundary samples mixed in")


@group()
def identity(ctx):
    """equality / hash = parameter equality for all pairs; usable as static jit argument"""
    mk = []
    for lb, ub in CUBES:
        mk.append((("H", tuple(map(float, lb)), tuple(map(float, ub))), lambda lb=lb, ub=ub: dm.Hypercube(lb, ub)))
    for r, o in BALLS:
        mk.append((("D" if len(o) == 2 else "S", float(r), tuple(map(float, o))), lambda r=r, o=o: ball(r, o)))
    mk.append((("D", 1.0, (0.0, 1.0)), lambda: dm.Disk(1.0, (0.0, 1.0))))
    for r1, r2, o in [(0.5, 1.0, (0.0, 0.0)), (0.5, 2.0, (0.0, 0.0)), (0.25, 1.0, (0.0, 0.0)), (0.5, 1.0, (1.0, 0.0))]:
        mk.append((("A", r1, r2, o), lambda r1=r1, r2=r2, o=o: dm.Annulus(r1, r2, o)))
    for a, b, c in [((0.0, 0.0), (1.0, 0.0), (0.0, 1.0)), ((0.0, 0.0), (0.0, 1.0), (1.0, 0.0)), ((1.0, 0.0), (1.0, 0.5), (0.0, 1.0)), ((1.0, 1.0, 1.0), (2.0, 1.0, 3.0), (1.0, 4.0, 0.0))]:
        mk.append((("P", a, b, c), lambda a=a, b=b, c=c: dm.Parallelogram(a, b, c)))
    objs = [(k, f(), f()) for k, f in mk]
    for (k1, x, _), (k2, _, y) in itertools.product(objs, objs):
        same = k1 == k2
        ctx.visit((k1, k2)); ctx.step(2); ctx.trace(); ctx.outcome(same)
        with ctx.case(f"{k1} == {k2}"):
            ctx.check(f"{k1} == {k2}", bool(x == y) == same, lambda: f"{x == y}")
            ctx.check(f"{k1} != {k2}", bool(x != y) == (not same), lambda: f"{x != y}")
            if same:
                ctx.check(f"hash {k1}", hash(x) == hash(y), "different hashes")
    ctx.check("usable as dictionary keys", len({x: 0 for _, x, _ in objs} | {y: 1 for _, _, y in objs}) == len({k for k, _, _ in objs}))
    calls = []

    def f(dom, z):
        calls.append(1)
        return dom.transform(z)

    jf = jax.jit(f, static_argnums=0)
    for k, x, y in objs:
        with ctx.case(f"static argument {k}"):
            d = len(k[1]) if k[0] == "H" else {"D": 2, "S": 3, "A": 2, "P": 2}[k[0]]
            z = jnp.asarray(np.linspace(0.1, 0.6, 2 * d).reshape(2, d))
            calls.clear()
            r1 = jf(x, z); n1 = len(calls); r2 = jf(y, z)
            ctx.visit(("static", k)); ctx.trace(); ctx.step(2)
            ctx.check(f"static argument {k}: equal domain reuses the compilation", len(calls) == n1, f"{len(calls)} traces after {n1}")
            ctx.close(f"static argument {k}: value", r1, x.transform(z), atol=ctx.tol(1e-12, 1e-5))
            ctx.close(f"static argument {k}: same value", r1, r2)
