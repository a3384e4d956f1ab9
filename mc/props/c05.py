"""C05: quaternion arithmetic satisfies Hamilton's algebra."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np

from magpi.quaternions import (Quaternion, quanternion_exp, quanternion_log, quaternion_left_div, quaternion_right_div)
from mc.core import group


# ---- reference: quaternions as arrays (w, x, y, z) ------------------------------------------------------------
def qmul(p, q):
    a, b, c, d = np.moveaxis(p, -1, 0)
    e, f, g, h = np.moveaxis(q, -1, 0)
    return np.stack([a * e - b * f - c * g - d * h, a * f + b * e + c * h - d * g, a * g - b * h + c * e + d * f, a * h + b * g - c * f + d * e], -1)


def qconj(p):
    return p * np.array([1, -1, -1, -1.0])


def qinv(p):
    return qconj(p) / (p ** 2).sum(-1, keepdims=True)


def qexp(p):
    r = np.linalg.norm(p[..., 1:], axis=-1, keepdims=True)
    with np.errstate(all="ignore"):
        s = np.where(r > 0, np.sin(r) / np.where(r > 0, r, 1), 1.0)
    return np.exp(p[..., :1]) * np.concatenate([np.cos(r), p[..., 1:] * s], -1)


def qlog(p):
    r = np.linalg.norm(p[..., 1:], axis=-1, keepdims=True)
    n = np.linalg.norm(p, axis=-1, keepdims=True)
    th = np.arctan2(r, p[..., :1])
    i = np.zeros_like(p[..., 1:]); i[..., 0] = 1
    u = np.where(r > 0, p[..., 1:] / np.where(r > 0, r, 1), np.where(p[..., :1] < 0, i, 0))
    return np.concatenate([np.log(n), u * th], -1)


def Q(x):
    return Quaternion(x[0], x[1:])


def vec(q):
    return jnp.concatenate([jnp.reshape(q.real, (1,)), jnp.reshape(q.imag, (3,))])


def lift(f):
    """library function on quaternions -> function on 4-vectors"""
    return lambda *a: vec(f(*[Q(x) if getattr(x, "ndim", 0) == 1 else x for x in a]))


COMP = (-1.5, 0.0, 0.5, 2.0)
ALL = np.array(list(itertools.product(COMP, repeat=4)))
SMALL = np.array([p for p in itertools.product((-1.0, 0.0, 2.0), repeat=4)])
NZ = ALL[(ALL != 0).any(1)]
SCAL = (-2.0, -0.5, 0.0, 1.0, 3.0)


def pairs(A, B):
    i, j = np.meshgrid(np.arange(len(A)), np.arange(len(B)), indexing="ij")
    return A[i.ravel()], B[j.ravel()]


def runv(f, *args):
    return np.asarray(jax.jit(jax.vmap(f))(*[jnp.asarray(a) for a in args]), float)


def cmp(ctx, case, f, args, want, **kw):
    with ctx.case(case):
        v = runv(f, *args)
        n = len(want)
        ctx.visit(case, n); ctx.step(n); ctx.trace(n); ctx.outcome(case)
        kw.setdefault("rtol", ctx.tol(1e-10, 2e-4)); kw.setdefault("atol", ctx.tol(1e-11, 2e-5))
        ctx.close(case, v, want, **kw)
        return v


@group(cost=2)
def ring(ctx):
    """sums, products, quotients on all pairs of a component lattice"""
    p, q = pairs(ALL, SMALL)
    cmp(ctx, "p + q", lift(lambda a, b: a + b), (p, q), p + q)
    cmp(ctx, "p - q", lift(lambda a, b: a - b), (p, q), p - q)
    cmp(ctx, "p * q", lift(lambda a, b: a * b), (p, q), qmul(p, q))
    cmp(ctx, "q * p", lift(lambda a, b: b * a), (p, q), qmul(q, p))
    nz = (q != 0).any(1)
    p_, q_ = p[nz], q[nz]
    cmp(ctx, "p / q (right division)", lift(lambda a, b: a / b), (p_, q_), qmul(p_, qinv(q_)))
    cmp(ctx, "quaternion_right_div", lift(quaternion_right_div), (p_, q_), qmul(p_, qinv(q_)))
    cmp(ctx, "quaternion_left_div", lift(quaternion_left_div), (p_, q_), qmul(qinv(q_), p_))
    cmp(ctx, "-q", lift(lambda a: -a), (ALL,), -ALL)
    cmp(ctx, "conj", lift(lambda a: a.conj()), (ALL,), qconj(ALL))
    cmp(ctx, "reciprocal", lift(lambda a: a.reciprocal()), (NZ,), qinv(NZ))
    cmp(ctx, "reciprocal of large/small", lift(lambda a: a.reciprocal()), (np.concatenate([NZ * 1e3, NZ * 1e-3]),), qinv(np.concatenate([NZ * 1e3, NZ * 1e-3])))
    cmp(ctx, "abs", lambda x: abs(Q(x)), (ALL,), np.linalg.norm(ALL, axis=1))
    ctx.sample("all ordered pairs of quaternions with components from {-1.5,0,.5,2} and {-1,0,2}")


@group()
def scalars(ctx):
    """mixed scalar operations on both sides, python / int / array scalars"""
    for s in SCAL + (2, -3):
        kinds = [("python", s), ("array", jnp.asarray(float(s)))]
        for k, c in kinds:
            one = np.ones(4)
            jobs = [("q + c", lambda a, c=c: a + c, ALL + s), ("c + q", lambda a, c=c: c + a, ALL + s), ("q - c", lambda a, c=c: a - c, ALL - s), ("c - q", lambda a, c=c: c - a, s - ALL),
                    ("q * c", lambda a, c=c: a * c, ALL * s), ("c * q", lambda a, c=c: c * a, ALL * s)]
            if s != 0:
                jobs.append(("q / c", lambda a, c=c: a / c, ALL / s))
            for nm, f, want in jobs:
                cmp(ctx, f"{nm} with c={s!r} ({k})", lift(f), (ALL,), want)
    ctx.sample("q op c and c op q for 7 scalars, 256 quaternions")


@group(cost=2)
def words(ctx):
    """all words of two (three) binary operations with every bracketing: values equal Hamilton matrices"""
    B = {"+": (lambda a, b: a + b, lambda a, b: a + b), "-": (lambda a, b: a - b, lambda a, b: a - b), "*": (lambda a, b: a * b, qmul),
         "/": (lambda a, b: a / b, lambda a, b: qmul(a, qinv(b))), "\\": (lambda a, b: quaternion_left_div(b, a), lambda a, b: qmul(qinv(a), b))}
    U = {"": (lambda a: a, lambda a: a), "conj": (lambda a: a.conj(), qconj), "neg": (lambda a: -a, lambda a: -a), "inv": (lambda a: a.reciprocal(), qinv)}
    base = np.array([[1.0, 2.0, -0.5, 0.25], [0.5, -1.0, 3.0, 1.0], [-2.0, 0.0, 1.0, -1.5], [0.0, 1.0, 0.0, 0.0], [0.0, 0.0, -1.0, 2.0], [3.0, 0.0, 0.0, 0.0]])
    t = np.array(list(itertools.product(range(len(base)), repeat=3)))
    a, b, c = base[t[:, 0]], base[t[:, 1]] + 0.125, base[t[:, 2]] - 0.0625
    for (o1, (f1, r1)), (o2, (f2, r2)), (u, (g, s)) in itertools.product(B.items(), B.items(), U.items()):
        for br in ("left", "right"):
            with np.errstate(all="ignore"):
                want = r2(s(r1(a, b)), c) if br == "left" else r1(a, s(r2(b, c)))
                inner = r1(a, b) if br == "left" else r2(b, c)
            ok = np.isfinite(want).all(1) & (np.linalg.norm(inner, axis=1) > 1e-2) & (np.abs(want).max(1) < 1e3)
            f = (lambda x, y, z: f2(g(f1(x, y)), z)) if br == "left" else (lambda x, y, z: f1(x, g(f2(y, z))))
            scale = np.maximum(1, np.abs(want[ok]).max(1, keepdims=True))
            case = f"({'a' + o1 + 'b'}){u}{o2}c" if br == "left" else f"a{o1}(b{o2}c){u}"
            with ctx.case(case):
                x, y, z = [jnp.asarray(v[ok]) for v in (a, b, c)]
                v = np.asarray(jax.vmap(lift(f))(x, y, z), float)
                ctx.visit(case, int(ok.sum())); ctx.step(2 * int(ok.sum())); ctx.trace(int(ok.sum())); ctx.outcome(case)
                ctx.close(case, v / scale, want[ok] / scale, rtol=ctx.tol(1e-9, 1e-3), atol=ctx.tol(1e-9, 3e-4))
    ctx.sample("(a*b)^conj / c on 216 triples")


@group()
def equality(ctx):
    """== is exact component equality, for all pairs that differ in any subset of components"""
    base = [(1.0, 2.0, 3.0, 4.0), (0.0, 0.0, 0.0, 0.0), (-1.0, 0.5, 0.5, 0.5)]
    for b in base:
        for delta in itertools.product((0.0, 1.0, -0.25), repeat=4):
            o = tuple(x + y for x, y in zip(b, delta))
            p, q = Quaternion(b[0], b[1:]), Quaternion(o[0], o[1:])
            ctx.visit((b, delta)); ctx.step(2); ctx.trace(); ctx.outcome(any(delta))
            ctx.check(f"{b} == {o}", bool(p == q) == (not any(delta)), f"got {p == q}")
            ctx.check(f"{b} != {o}", bool(p != q) == any(delta), f"got {p != q}")
    # exactness: neighbouring floating point numbers are different quaternions
    for b in base:
        for k in range(4):
            for up in (np.inf, -np.inf):
                dt = np.asarray(jnp.asarray(1.0)).dtype.type
                o = [dt(v) for v in b]
                o[k] = np.nextafter(o[k], dt(up)) if o[k] != 0 else dt(up > 0 or -1) * dt(1e-30)
                p, q = Quaternion(b[0], b[1:]), Quaternion(o[0], tuple(o[1:]))
                ctx.visit((b, k, up)); ctx.step(3); ctx.trace()
                ctx.check(f"{b} == {b} up to one ulp in component {k}", not bool(p == q) and bool(p != q) and not bool(jax.jit(lambda p, q: p == q)(p, q)), f"{b} equals {o}")
    p = Quaternion(1.0, (0.0, 0.0, 0.0))
    ctx.check("quaternion == other type", (p == "x") is False and (p != "x") is True)
    ctx.check("zero quaternion", bool(Quaternion.zero_quaternion() == Quaternion(0.0, (0.0, 0.0, 0.0))))
    ctx.close("components of constructor", vec(Quaternion(1.0, (2.0, 3.0, 4.0))), [1, 2, 3, 4])


@group(cost=2)
def exp_log(ctx):
    lat = np.array(list(itertools.product((-1.0, 0.0, 0.75), (-1.2, 0.0, 0.4), (-0.9, 0.0, 1.5), (-1.0, 0.0, 0.3))))
    cmp(ctx, "exp", lift(quanternion_exp), (lat,), qexp(lat))
    cmp(ctx, "exp beyond the principal domain", lift(quanternion_exp), (5 * lat[:, [3, 1, 2, 0]] * [0.2, 1, 1, 1],), qexp(5 * lat[:, [3, 1, 2, 0]] * [0.2, 1, 1, 1]), atol=ctx.tol(1e-10, 1e-4))
    cut = (NZ[:, 0] < 0) & (NZ[:, 1:] == 0).all(1)  # negative reals: the direction of the logarithm is free
    cmp(ctx, "log", lift(quanternion_log), (NZ[~cut],), qlog(NZ[~cut]))
    cmp(ctx, "exp(log q)", lift(lambda a: quanternion_exp(quanternion_log(a))), (NZ,), NZ, atol=ctx.tol(1e-10, 1e-4))
    pr = lat[np.linalg.norm(lat[:, 1:], axis=1) < 3.1]
    cmp(ctx, "log(exp q)", lift(lambda a: quanternion_log(quanternion_exp(a))), (pr,), pr, atol=ctx.tol(1e-9, 1e-4))
    # reals (both signs) of many magnitudes, pure imaginary, nearly real
    re = np.array([[s * m, 0, 0, 0] for s in (1, -1) for m in [k / 16 for k in range(1, 700, 3)] + [1e-3, 1e3, 28.75]])
    pos, neg = re[re[:, 0] > 0], re[re[:, 0] < 0]
    cmp(ctx, "log of positive reals", lift(quanternion_log), (pos,), qlog(pos), atol=ctx.tol(1e-10, 1e-4))
    lg = lambda x: (lambda q: jnp.stack([q.real, jnp.sqrt(jnp.sum(q.imag ** 2))]))(quanternion_log(Q(x)))
    cmp(ctx, "log of negative reals", lg, (neg,), np.stack([np.log(-neg[:, 0]), np.full(len(neg), np.pi)], 1), atol=ctx.tol(1e-10, 1e-4))
    cmp(ctx, "exp(log) of reals", lift(lambda a: quanternion_exp(quanternion_log(a))), (re,), re, rtol=ctx.tol(1e-10, 1e-4), atol=ctx.tol(1e-9, 2e-5) * 1e1)
    near = np.array([[s * m, e, 0, -e] for s in (1, -1) for m in (0.5, 1.0, 3.0, 28.75) for e in (1e-1, 1e-2, 1e-3, 1e-4)])
    cmp(ctx, "log of nearly real", lift(quanternion_log), (near,), qlog(near), atol=ctx.tol(1e-10, 1e-4))
    im = np.array([[0, x, y, z] for x, y, z in itertools.product((-2.0, 0.0, 0.5), repeat=3) if (x, y, z) != (0, 0, 0)])
    cmp(ctx, "log of pure imaginary", lift(quanternion_log), (im,), qlog(im), atol=ctx.tol(1e-10, 1e-4))
    # eager single calls equal the jitted batch
    for x in np.concatenate([re[::60], near[::5], im[::5]]):
        with ctx.case(f"eager log {x}"):
            ctx.visit(("eager", tuple(x))); ctx.trace(); ctx.step()
            if x[0] >= 0 or x[1:].any():
                ctx.close(f"eager log {x.tolist()}", vec(quanternion_log(Q(jnp.asarray(x)))), qlog(x[None])[0], atol=ctx.tol(1e-10, 1e-4))
            ctx.close(f"eager exp(log) {x.tolist()}", vec(quanternion_exp(quanternion_log(Q(jnp.asarray(x))))), x, rtol=ctx.tol(1e-9, 1e-4), atol=ctx.tol(1e-9, 1e-4))
    ctx.sample("256-element lattice, 468 reals of both signs, near-real and pure imaginary quaternions")


@group(cost=2)
def powers(ctx):
    base = np.concatenate([NZ[::3], np.array([[-2.0, 0, 0, 0], [3.0, 0, 0, 0], [-1.0, 0, 0, 0], [1.0, 0, 0, 0], [0, 0, 0, -1.0], [0, 2.0, 0, 0], [0, 0, 1.0, 0]])])
    one = np.tile([1.0, 0, 0, 0], (len(base), 1))
    for n in range(-3, 6):
        want = one
        for _ in range(abs(n)):
            want = qmul(want, base if n > 0 else qinv(base))
        scale = np.maximum(1, np.abs(want).max(1, keepdims=True))
        for k, nn in (("int", n), ("float", float(n)), ("array", jnp.asarray(float(n)))):
            case = f"q ** {n} ({k})"
            with ctx.case(case):
                v = runv(lift(lambda a: a ** nn), base)
                ctx.visit(case, len(base)); ctx.step(len(base)); ctx.trace(len(base)); ctx.outcome(case)
                ctx.close(case, v / scale, want / scale, rtol=ctx.tol(1e-9, 5e-4), atol=ctx.tol(1e-9, 1e-4))
    for a, b in itertools.product((0.5, -0.25, 1.5, 2), (0.5, 0.75, -1)):
        case = f"q**{a} * q**{b} = q**{a + b}"
        with ctx.case(case):
            l, r = runv(lift(lambda x: (x ** a) * (x ** b)), base), runv(lift(lambda x: x ** (a + b)), base)
            ctx.visit(case, len(base)); ctx.step(3 * len(base)); ctx.trace(len(base))
            scale = np.maximum(1, np.abs(r).max(1, keepdims=True))
            ctx.close(case, l / scale, r / scale, rtol=ctx.tol(1e-9, 5e-4), atol=ctx.tol(1e-9, 1e-4))
    cmp(ctx, "sqrt squared", lift(lambda x: (x ** 0.5) * (x ** 0.5)), (base,), base, atol=ctx.tol(1e-9, 1e-4))
    lat = np.array(list(itertools.product((-1.0, 0.5), (-1.2, 0.0), (0.0, 1.5), (-1.0, 0.3))))
    for bs in (0.5, 2.0, 10.0, np.e):
        cmp(ctx, f"{bs} ** q", lift(lambda x: bs ** x), (lat,), qexp(lat * np.log(bs)), rtol=ctx.tol(1e-9, 5e-4), atol=ctx.tol(1e-9, 1e-3 if bs == 10.0 else 1e-4))
    far = np.array(list(itertools.product((-1.0, 0.5), (-4.0, 0.0, 3.0), (0.0, 2.5), (-5.0, 0.3))))
    for bs in (0.5, 2.0, np.e, 3, jnp.asarray(1.5)):
        cmp(ctx, f"{float(bs):.3} ** q, long imaginary part", lift(lambda x: bs ** x), (far,), qexp(far * float(np.log(bs))), rtol=ctx.tol(1e-9, 5e-4), atol=ctx.tol(1e-9, 2e-4))
    ctx.sample("q**n for n=-3..5 (int, float, array), fractional exponent pairs, base**q")


@group()
def transforms(ctx):
    """jit, grad, vmap, scan, tree mapping leave quaternions intact"""
    qs = [Q(jnp.asarray(x)) for x in ALL[::17]]
    for x, q in zip(ALL[::17], qs):
        ctx.visit(("tree", tuple(x))); ctx.step(5); ctx.trace()
        with ctx.case(f"tree map {x.tolist()}"):
            leaves, td = jax.tree_util.tree_flatten(q)
            ctx.check("two leaves", len(leaves) == 2, str(leaves))
            r = jax.tree_util.tree_unflatten(td, leaves)
            ctx.close("unflatten(flatten)", vec(r), x)
            ctx.check("type kept", isinstance(r, Quaternion))
            ctx.close("tree_map *2", vec(jax.tree_util.tree_map(lambda v: 2 * v, q)), 2 * x)
            ctx.close("tree_map add", vec(jax.tree_util.tree_map(lambda a, b: a + b, q, q)), 2 * x)
            r = jax.jit(lambda q: q)(q)
            ctx.close("jit identity", vec(r), x); ctx.check("jit type", isinstance(r, Quaternion))
            r = jax.jit(lambda q: q * q.conj())(q)
            ctx.close("jit q q*", vec(r), [float((x ** 2).sum()), 0, 0, 0], atol=ctx.tol(1e-10, 1e-5))
            g = jax.grad(lambda q: (q * q.conj()).real)(q)
            ctx.check("grad type", isinstance(g, Quaternion)); ctx.close("grad of |q|^2", vec(g), 2 * x, atol=ctx.tol(1e-10, 1e-5))
            ctx.check("tree_map to arbitrary leaves", jax.tree_util.tree_map(lambda v: v.shape, q) is not None)
    with ctx.case("vmap/scan over quaternions"):
        A = jnp.asarray(ALL)
        batched = jax.vmap(Q)(A)
        out = jax.vmap(lambda q: q * q)(batched)
        got = np.concatenate([np.asarray(out.real)[:, None], np.asarray(out.imag)], 1)
        ctx.visit("vmap", len(ALL)); ctx.trace(len(ALL)); ctx.step(len(ALL))
        ctx.close("vmap over batched quaternions", got, qmul(ALL, ALL), atol=ctx.tol(1e-10, 1e-5))
        i, _ = jax.lax.scan(lambda c, q: (c + q, c.real), Q(jnp.zeros(4)), batched)
        ctx.close("scan sum", vec(i), ALL.sum(0), atol=ctx.tol(1e-9, 1e-2))
        w = jax.lax.fori_loop(0, 4, lambda k, c: c * Q(jnp.asarray([0.0, 1.0, 0.0, 0.0])), Q(jnp.asarray([1.0, 2.0, 3.0, 4.0])))
        ctx.close("q i^4", vec(w), [1, 2, 3, 4], atol=ctx.tol(1e-12, 1e-5))
    # derivatives of exp / log / powers at regular points against finite differences of the reference
    pts = np.array([[0.5, 1.0, -0.3, 0.2], [-1.0, 0.4, 0.9, -0.5], [2.0, -0.1, 0.2, 1.5]])
    for nm, f, r in (("exp", quanternion_exp, qexp), ("log", quanternion_log, qlog), ("q**3", lambda q: q ** 3, lambda p: qmul(qmul(p, p), p)), ("1/q", lambda q: q.reciprocal(), qinv)):
        for x in pts:
            with ctx.case(f"jacobian {nm}"):
                h = 1e-6
                J = np.stack([(r(x + h * e) - r(x - h * e)) / (2 * h) for e in np.eye(4)], -1)
                for md, jac in (("fwd", jax.jacfwd), ("rev", jax.jacrev)):
                    ctx.visit((nm, tuple(x), md)); ctx.trace(); ctx.step()
                    ctx.close(f"{md} jacobian of {nm} at {x.tolist()}", jac(lift(f))(jnp.asarray(x)), J, rtol=ctx.tol(1e-6, 2e-3), atol=ctx.tol(1e-6, 2e-3))
