"""C06: quaternion rotations and reflections are the stated isometries."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np

from magpi.quaternions import Quaternion, from_axis_angle, from_euler_angles, quaternion_reflection, quaternion_rotation
from mc.core import group
from mc.ref import euler_xyz, rodrigues

ANG = [0.0, 0.3, np.pi / 2, 2.0, np.pi, 4.0, 2 * np.pi, 7.5, -0.4, -np.pi / 2, -3.0, 13.0, np.pi / 4]
AXES = [a for a in itertools.product((-1.0, 0.0, 2.0), repeat=3) if any(a)] + [(1e-2, 2e-2, -1e-2), (50.0, -20.0, 10.0), (0.1, 0.0, 0.0), (0.0, 0.6, 0.8)]
VECS = np.array([v for v in itertools.product((-1.0, 0.0, 2.5), repeat=3)])


def qv(q):
    return jnp.concatenate([jnp.reshape(q.real, (1,)), q.imag])


@group(cost=2)
def axis_angle(ctx):
    """every (angle, axis, vector) triple: unit quaternion, rotation by minus the angle about the axis"""
    A = np.array(list(itertools.product(range(len(ANG)), range(len(AXES)))))
    ang = np.array(ANG)[A[:, 0]]
    ax = np.array(AXES)[A[:, 1]]
    with ctx.case("from_axis_angle"):
        q = np.asarray(jax.jit(jax.vmap(lambda a, n: qv(from_axis_angle(a, n))))(jnp.asarray(ang), jnp.asarray(ax)), float)
        un = ax / np.linalg.norm(ax, axis=1, keepdims=True)
        ctx.visit("quaternion", len(ang)); ctx.trace(len(ang)); ctx.step(len(ang))
        ctx.close("unit norm", np.linalg.norm(q, axis=1), np.ones(len(q)), atol=ctx.tol(1e-12, 1e-5))
        ctx.close("cos/sin of the half angle", q, np.concatenate([np.cos(ang / 2)[:, None], un * np.sin(ang / 2)[:, None]], 1), atol=ctx.tol(1e-12, 1e-5))
        R = np.stack([rodrigues(n, -a) for a, n in zip(ang, ax)])
        want = np.einsum("kij,vj->kvi", R, VECS)
        got = np.asarray(jax.jit(jax.vmap(lambda a, n: jax.vmap(lambda v: quaternion_rotation(v, from_axis_angle(a, n)))(jnp.asarray(VECS))))(jnp.asarray(ang), jnp.asarray(ax)), float)
        ctx.visit("rotation", got[..., 0].size); ctx.trace(got[..., 0].size); ctx.step(got[..., 0].size)
        ctx.close("q^-1 v q is the rotation by minus the angle", got, want, atol=ctx.tol(1e-11, 3e-5))
        ctx.outcome(len({tuple(r) for r in np.round(got.reshape(-1, 3), 4)}))
    # eager calls with tuples / python scalars / ints / arrays
    for a, n in itertools.product((0.7, 2, -1, np.float64(0.3)), ((0.0, 0.0, 1.0), (1.0, -2.0, 0.5), (1, 2, 3), [0.0, 3.0, 4.0], np.array([2.0, 0.0, 0.0]))):
        for v in ((1.0, 0.0, 0.0), [0.5, -1.0, 2.0], jnp.asarray([1.0, 2.0, 3.0]), (1, 0, 2)):
            case = f"eager angle={a!r} axis={n} v={v}"
            with ctx.case(case):
                ctx.visit(case); ctx.step(2); ctx.trace()
                nn = n if isinstance(n, (tuple, np.ndarray)) else jnp.asarray(n)
                vv = v if not isinstance(v, list) else jnp.asarray(v)
                q = from_axis_angle(a, nn)
                ctx.close(case, quaternion_rotation(vv, q), rodrigues(n, -float(a)) @ np.asarray(v, float), atol=ctx.tol(1e-11, 2e-5))
    ctx.sample(f"{len(ANG)} angles x {len(AXES)} axes x {len(VECS)} vectors")


@group(cost=2)
def euler(ctx):
    e = np.array(list(itertools.product(ANG[:11] if ctx.thorough else ANG[:9:2] + [-0.4, -3.0, 0.3], repeat=3)))
    with ctx.case("from_euler_angles"):
        q = np.asarray(jax.jit(jax.vmap(lambda a: qv(from_euler_angles(a))))(jnp.asarray(e)), float)
        got = np.asarray(jax.jit(jax.vmap(lambda a: jax.vmap(lambda v: quaternion_rotation(v, from_euler_angles(a)))(jnp.asarray(VECS))))(jnp.asarray(e)), float)
        R = np.stack([euler_xyz(*a) for a in e])
        want = np.einsum("kji,vj->kvi", R, VECS)  # inverse rotation
        n = got[..., 0].size
        ctx.visit("euler", n); ctx.trace(n); ctx.step(n); ctx.outcome(len({tuple(r) for r in np.round(got.reshape(-1, 3), 3)}))
        ctx.close("unit norm", np.linalg.norm(q, axis=1), np.ones(len(q)), atol=ctx.tol(1e-12, 1e-5))
        ctx.close("Euler rotation about x, then y, then z (inverse action)", got, want, atol=ctx.tol(1e-11, 5e-5))
    for a in [(0.4, 0.0, 0.0), (0.0, -0.8, 0.0), (0.0, 0.0, 1.2), (0.5, -0.7, 1.9), (1, 2, 3), [0.1, 0.2, 0.3], np.array([1.0, -1.0, 0.5])]:
        with ctx.case(f"eager {a}"):
            aa = jnp.asarray(a) if isinstance(a, list) else a
            ctx.visit(("eager", str(a))); ctx.trace(); ctx.step()
            ctx.close(f"eager euler {a}", quaternion_rotation(jnp.asarray([1.0, 2.0, -0.5]), from_euler_angles(aa)), euler_xyz(*[float(v) for v in a]).T @ np.array([1.0, 2.0, -0.5]), atol=ctx.tol(1e-11, 2e-5))
            # agreement with the product of the single-axis quaternions
            q = from_axis_angle(float(a[2]), (0.0, 0.0, 1.0)) * from_axis_angle(float(a[1]), (0.0, 1.0, 0.0)) * from_axis_angle(float(a[0]), (1.0, 0.0, 0.0))
            g = np.asarray(qv(from_euler_angles(aa)), float)
            w = np.asarray(qv(q), float)
            ctx.check(f"euler {a} = qz qy qx up to sign", min(np.abs(g - w).max(), np.abs(g + w).max()) < ctx.tol(1e-11, 2e-5), lambda: f"{g} vs {w}")
    ctx.sample(f"{len(e)} Euler triples x {len(VECS)} vectors")


@group(cost=2)
def composition(ctx):
    """all words of length 2 and 3 over a set of quaternions: composition, isometry, norm independence"""
    gens = [from_axis_angle(a, n) for a, n in ((0.5, (1.0, 0.0, 0.0)), (2.0, (0.0, 1.0, 1.0)), (-1.0, (1.0, 2.0, -1.0)))] + [from_euler_angles((0.3, 1.0, -0.6)),
            Quaternion(2.0, (0.0, 0.0, 0.0)), Quaternion(1.0, (2.0, -1.0, 0.5)), Quaternion(-0.5, (0.1, 0.3, 0.2)), Quaternion(0.0, (0.0, 3.0, 0.0))]
    V = jnp.asarray(VECS)
    G = jnp.stack([qv(q) for q in gens])
    mk = lambda x: Quaternion(x[0], x[1:])
    for k in (1, 2, 3):
        W = np.array(list(itertools.product(range(len(gens)), repeat=k)))
        with ctx.case(f"words of length {k}"):
            def both(idx):
                qs = [mk(G[idx[i]]) for i in range(k)]
                p = qs[0]
                for q in qs[1:]:
                    p = p * q
                def seq(v):
                    for q in qs:
                        v = quaternion_rotation(v, q)
                    return v
                return jax.vmap(lambda v: quaternion_rotation(v, p))(V), jax.vmap(seq)(V), jax.vmap(lambda v: quaternion_rotation(v, p * 3.0))(V), jax.vmap(lambda v: quaternion_rotation(v, p * -0.25))(V), jax.vmap(lambda v: quaternion_rotation(v, p.reciprocal()))(V)
            prod, seq, big, small, inv = [np.asarray(x, float) for x in jax.jit(jax.vmap(both))(jnp.asarray(W))]
            n = prod[..., 0].size
            ctx.visit(k, n); ctx.trace(n); ctx.step(n * k); ctx.outcome((k, len({tuple(r) for r in np.round(prod.reshape(-1, 3), 3)})))
            tol = ctx.tol(1e-10, 2e-4)
            d = lambda ix: f"word {W[ix[0]].tolist()} vector {VECS[ix[1]].tolist()}"
            ctx.mask("rotation by product = rotations in sequence", np.abs(prod - seq).max(-1) <= tol, d)
            ctx.mask("independent of the norm", (np.abs(prod - big).max(-1) <= tol) & (np.abs(prod - small).max(-1) <= tol), d)
            ctx.mask("length preserved", np.abs(np.linalg.norm(prod, axis=-1) - np.linalg.norm(VECS, axis=-1)) <= tol, d)
            gram = np.einsum("kvi,kwi->kvw", prod, prod)
            ctx.mask("inner products preserved", np.abs(gram - VECS @ VECS.T).max(-1) <= 10 * tol, d)
            e = [np.where((VECS == x).all(1))[0][0] for x in ((2.5, 0, 0), (0, 2.5, 0), (0, 0, 2.5))]
            M = prod[:, e] / 2.5  # rows are images of the unit vectors
            ctx.close("orientation preserved", np.linalg.det(M), np.ones(len(W)), atol=10 * tol)
            back = np.einsum("kvi,kij->kvj", VECS[None] + 0 * prod, np.transpose(M, (0, 2, 1)))
            ctx.mask("reciprocal inverts the rotation", np.abs(inv - back).max(-1) <= 5 * tol, d)
    ctx.sample("8 quaternions (unit and non-unit), all words up to length 3, 27 vectors")


@group()
def reflections(ctx):
    ax = np.array(AXES)
    with ctx.case("reflection"):
        got = np.asarray(jax.jit(jax.vmap(lambda n: jax.vmap(lambda v: quaternion_reflection(v, n))(jnp.asarray(VECS))))(jnp.asarray(ax)), float)
        twice = np.asarray(jax.jit(jax.vmap(lambda n: jax.vmap(lambda v: quaternion_reflection(quaternion_reflection(v, n), n))(jnp.asarray(VECS))))(jnp.asarray(ax)), float)
        un = ax / np.linalg.norm(ax, axis=1, keepdims=True)
        want = VECS[None] - 2 * np.einsum("vi,ki->kv", VECS, un)[..., None] * un[:, None]
        n = got[..., 0].size
        ctx.visit("reflection", n); ctx.step(3 * n); ctx.trace(n); ctx.outcome(len({tuple(r) for r in np.round(got.reshape(-1, 3), 3)}))
        ctx.close("v - 2 (v.n) n", got, want, atol=ctx.tol(1e-11, 3e-5))
        ctx.close("involution", twice, np.broadcast_to(VECS, got.shape), atol=ctx.tol(1e-11, 3e-5))
    for n in ((0.0, 0.0, 2.0), (1.0, 2.0, 3.0), jnp.asarray([1.0, -1.0, 0.5])):
        for v in ((1.0, 2.0, 3.0), jnp.asarray([0.5, 0.0, -1.0])):
            with ctx.case(f"eager {n} {v}"):
                nn, vv = np.asarray(n, float), np.asarray(v, float)
                ctx.visit(("eager", str(n), str(v))); ctx.trace(); ctx.step()
                ctx.close(f"eager reflection of {v} over {n}", quaternion_reflection(v, n), vv - 2 * (vv @ nn) / (nn @ nn) * nn, atol=ctx.tol(1e-11, 2e-5))
    ctx.sample(f"{len(AXES)} normals of very different lengths x {len(VECS)} vectors")
