"""C09: differential operators compute the exact mathematical derivatives."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
from flax import linen as nn

from magpi import calc
from mc.core import group, tree_close

# ---- reference: exact derivatives of monomials --------------------------------------------------------------


def falling(e, k):
    out = np.ones_like(e, dtype=float)
    for i in range(k):
        out = out * (e - i)
    return out


def dmono(E, x, orders):
    """d^orders of prod x_i^E_i, for all rows of E"""
    E = np.asarray(E)
    out = np.ones(len(E))
    for i in range(E.shape[1]):
        e = E[:, i].astype(float)
        k = orders[i]
        c = falling(e, k)
        p = np.where(c != 0, np.power(float(x[i]), np.maximum(e - k, 0)), 0.0)
        out = out * c * p
    return out


E3 = np.array(list(itertools.product(range(4), repeat=3)))
E3s = np.array(list(itertools.product(range(3), repeat=3)))


def powers(x, n):
    out = [jnp.ones_like(x)]
    for _ in range(n - 1):
        out.append(out[-1] * x)
    return jnp.stack(out)


def all_monomials(x, y, z, n=4):
    return jnp.einsum("a,b,c->abc", powers(x, n), powers(y, n), powers(z, n)).reshape(-1)


def f3(x, yy, zeta):
    return all_monomials(jnp.asarray(x), jnp.asarray(yy), jnp.asarray(zeta))


NAMES = ["x", "yy", "zeta"]
PTS = [(0.5, -1.25, 2.0), (-1.5, 0.75, 0.5)]


def cl(ctx, case, got, want, **kw):
    want = np.asarray(want, float)
    s = 1 + np.abs(want).max(initial=0)
    kw.setdefault("rtol", ctx.tol(1e-9, 2e-4))
    kw.setdefault("atol", ctx.tol(1e-10, 1e-5) * s)
    return ctx.close(case, got, want, **kw)


def orders_of(seq):
    o = [0, 0, 0]
    for i in seq:
        o[i] += 1
    return o


@group(cost=3)
def designations(ctx):
    """all derivative sequences up to length 3 by position / name / mixture, all monomials of degree <= 3 per variable"""
    for L in (1, 2, 3):
        for seq in itertools.product(range(3), repeat=L):
            forms = [("position", list(seq)), ("name", [NAMES[i] for i in seq])]
            if L > 1:
                forms.append(("mixed", [NAMES[i] if k % 2 else i for k, i in enumerate(seq)]))
                forms.append(("tuple", tuple(seq)))
            if L == 1:
                forms += [("bare position", seq[0]), ("bare name", NAMES[seq[0]])]
            for how, w in forms:
                case = f"derivative({w!r}) by {how}"
                with ctx.case(case):
                    df = calc.derivative(w)(f3)
                    for k, p in enumerate(PTS):
                        run = jax.jit(df) if k else df
                        ctx.visit((str(w), k), len(E3)); ctx.step(L * len(E3)); ctx.trace(len(E3)); ctx.outcome(case)
                        cl(ctx, f"{case} at {p}", run(*p), dmono(E3, p, orders_of(seq)))
    for i in range(3):
        for nm, df in ((f"derivative(f, {i})", calc.derivative(f3, i)),) + (((("derivative(f)"), calc.derivative(f3)),) if i == 0 else ()):
            with ctx.case(nm):
                ctx.visit(nm, len(E3)); ctx.step(len(E3)); ctx.trace()
                cl(ctx, nm, df(*PTS[0]), dmono(E3, PTS[0], orders_of([i])))
                cl(ctx, nm + " jit", jax.jit(df)(*PTS[1]), dmono(E3, PTS[1], orders_of([i])))
                # the returned function can be differentiated again, by name as well
                for j in range(3):
                    for w in (j, NAMES[j]):
                        cl(ctx, f"derivative({w!r}) of {nm}", calc.derivative(w)(df)(*PTS[0]), dmono(E3, PTS[0], orders_of([i, j])))
        for w in (i, NAMES[i]):
            with ctx.case(f"value_and_derivative {w!r}"):
                v, d = calc.value_and_derivative(f3, w)(*PTS[0])
                ctx.visit(("vd", w), len(E3)); ctx.step(len(E3)); ctx.trace()
                cl(ctx, f"value_and_derivative(f, {w!r}) value", v, dmono(E3, PTS[0], [0, 0, 0]))
                cl(ctx, f"value_and_derivative(f, {w!r}) derivative", d, dmono(E3, PTS[0], orders_of([i])))
    ctx.sample("derivative(['zeta', 0, 'yy']) of all 64 monomials at 2 points, eager and jit")


@group()
def directions(ctx):
    """derivatives along given directions, alone and in sequence with partial derivatives"""
    D = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.5, -1.0, 2.0], [0.0, 0.0, -1.0]]
    p = PTS[0]
    def grad(o):
        return [dmono(E3, p, [a + b for a, b in zip(o, e)]) for e in np.eye(3, dtype=int)]
    for d in D:
        with ctx.case(f"direction {d}"):
            ctx.visit(("dir", tuple(d)), len(E3)); ctx.step(len(E3)); ctx.trace(); ctx.outcome(tuple(d))
            g = grad([0, 0, 0])
            cl(ctx, f"derivative([{d}])", calc.derivative([d])(f3)(*p), sum(di * gi for di, gi in zip(d, g)))
            v, t = calc.value_and_derivative(f3, d)(*p)
            cl(ctx, f"value_and_derivative(f, {d})", t, sum(di * gi for di, gi in zip(d, g)))
            cl(ctx, f"value_and_derivative(f, {d}) value", v, dmono(E3, p, [0, 0, 0]))
        for i in range(3):
            for order in (0, 1):
                w = [d, i] if order else [NAMES[i], d]
                with ctx.case(str(w)):
                    ctx.visit(("dir", tuple(d), i, order), len(E3)); ctx.step(2 * len(E3)); ctx.trace()
                    o = list(np.eye(3, dtype=int)[i])
                    cl(ctx, f"derivative({w})", jax.jit(calc.derivative(w)(f3))(*p), sum(di * gi for di, gi in zip(d, grad(o))))
        for d2 in D:
            with ctx.case(f"{d},{d2}"):
                H = [[dmono(E3, p, list(a + b)) for a in np.eye(3, dtype=int)] for b in np.eye(3, dtype=int)]
                ctx.visit(("dir2", tuple(d), tuple(d2)), len(E3)); ctx.step(2 * len(E3)); ctx.trace()
                cl(ctx, f"derivative([{d}, {d2}])", calc.derivative([d, d2])(f3)(*p), sum(d[i] * d2[j] * H[j][i] for i in range(3) for j in range(3)))


@group(cost=3)
def vector_indices(ctx):
    """indices into vector arguments: every argument position, every index sequence up to length 3, mixed with scalar arguments"""
    E = np.array(list(itertools.product(range(3), repeat=4)))  # t, v0, v1, v2
    vals = {"t": 0.75, "v": np.array([-1.25, 2.0, 0.5])}
    x4 = (0.75, -1.25, 2.0, 0.5)

    def mono(t, v):
        return jnp.einsum("a,b,c,d->abcd", powers(t, 3), powers(v[0], 3), powers(v[1], 3), powers(v[2], 3)).reshape(-1)

    fs = {"tv": (lambda t, v: mono(jnp.asarray(t), v), lambda: (vals["t"], jnp.asarray(vals["v"])), 1), "vt": (lambda v, t: mono(jnp.asarray(t), v), lambda: (jnp.asarray(vals["v"]), vals["t"]), 0)}
    for nm, (f, args, pos) in fs.items():
        for L in (1, 2, 3) if ctx.thorough else (1, 2):
            for seq in itertools.product(range(4), repeat=L):  # 0..2 index of v, 3 = the scalar argument
                if all(s < 3 for s in seq):
                    forms = [(list(seq), [pos] * L), (list(seq), pos)]
                else:
                    forms = [([(s if s < 3 else 1 - pos) for s in seq], [(pos if s < 3 else None) for s in seq])]
                if L == 1 and seq[0] < 3:
                    forms.append((seq[0], pos))
                o = [0, 0, 0, 0]
                for s in seq:
                    o[s + 1 if s < 3 else 0] += 1
                want = dmono(E, x4, o)
                for w, a in forms:
                    case = f"{nm}: derivative({w}, argnums={a})"
                    with ctx.case(case):
                        ctx.visit(case, len(E)); ctx.step(L * len(E)); ctx.trace(len(E)); ctx.outcome(case)
                        cl(ctx, case, calc.derivative(w, argnums=a)(f)(*args()), want)
            if L == 1:
                for i in range(3):
                    with ctx.case(f"{nm} value_and_derivative index {i}"):
                        v, d = jax.jit(calc.value_and_derivative(f, i, argnum=pos))(*args())
                        o = [0, 0, 0, 0]; o[i + 1] = 1
                        ctx.visit((nm, "vd", i), len(E)); ctx.step(len(E)); ctx.trace()
                        cl(ctx, f"{nm}: value_and_derivative(f, {i}, argnum={pos}) value", v, dmono(E, x4, [0] * 4))
                        cl(ctx, f"{nm}: value_and_derivative(f, {i}, argnum={pos})", d, dmono(E, x4, o))
    # two vector arguments of different sizes
    g = lambda a, b: jnp.stack([a[0] * b[0] ** 2 * b[1], a[1] ** 3 * b[1], a[2] * a[0] * b[0]])
    a, b = np.array([0.5, -1.0, 2.0]), np.array([1.5, -0.75])
    da = np.array([[b[0] ** 2 * b[1], 0, 0], [0, 3 * a[1] ** 2 * b[1], 0], [a[2] * b[0], 0, a[0] * b[0]]])
    db = np.array([[2 * a[0] * b[0] * b[1], a[0] * b[0] ** 2], [0, a[1] ** 3], [a[2] * a[0], 0]])
    for k, J in ((0, da), (1, db)):
        for i in range(J.shape[1]):
            with ctx.case(f"two vectors {k} {i}"):
                ctx.visit(("two", k, i)); ctx.step(); ctx.trace()
                cl(ctx, f"index {i} of vector argument {k}", calc.derivative([i], argnums=[k])(g)(jnp.asarray(a), jnp.asarray(b)), J[:, i])
    cl(ctx, "mixed vector arguments", calc.derivative([0, 1], argnums=[0, 1])(g)(jnp.asarray(a), jnp.asarray(b)), [b[0] ** 2, 0, 0])
    ctx.sample("derivative([2, 0, t], argnums=[1, 1, None]) of all 81 monomials")


@group()
def calling_conventions(ctx):
    """keyword-passed arguments, keyword options, defaults, pytree and integer extra arguments, output structures"""
    def f(x, y, scale=1.0, *, shift=0.0, table=None):
        s = 0.0 if table is None else table["w"] * x
        return {"a": scale * x ** 2 * y + shift, "b": (jnp.stack([x * y, y ** 3]) + s, jnp.asarray(x) * jnp.ones((2, 2)) * y)}

    def ref(x, y, scale=1.0, table=0.0, wrt="x"):
        one = np.ones((2, 2))
        if wrt == "x":
            return {"a": scale * 2 * x * y, "b": (np.array([y, 0.0]) + table, one * y)}
        if wrt == "y":
            return {"a": scale * x ** 2, "b": (np.array([x, 3 * y ** 2]), one * x)}
        return {"a": x ** 2 * y, "b": (np.zeros(2), 0 * one)}

    x, y = 1.5, -0.5
    calls = [("positional", (x, y), {}, {}), ("scale positional", (x, y, 3.0), {}, dict(scale=3.0)), ("scale keyword", (x, y), dict(scale=3.0), dict(scale=3.0)),
             ("keyword-only", (x, y), dict(shift=2.0), {}), ("pytree keyword", (x, y), dict(table={"w": 0.25}), dict(table=0.25)), ("y by keyword", (x,), dict(y=y), {}),
             ("all by keyword", (), dict(y=y, x=x, scale=2.0), dict(scale=2.0)), ("y by keyword with option", (x,), dict(y=y, shift=5.0), {})]
    for nm, a, k, rk in calls:
        for w, wn in ((0, "x"), ("x", "x"), (1, "y"), ("y", "y")):
            case = f"{nm}: derivative({w!r})"
            with ctx.case(case):
                got = calc.derivative(w)(f)(*a, **k)
                ctx.visit(case); ctx.step(); ctx.trace(); ctx.outcome(case)
                tree_close(ctx, case, got, ref(x, y, wrt=wn, **rk) if wn == "x" else ref(x, y, wrt=wn, **{q: v for q, v in rk.items() if q != "table"}), rtol=1e-5, atol=1e-6)
                v, d = calc.value_and_derivative(f, w)(*a, **k)
                tree_close(ctx, case + " value", v, jax.tree_util.tree_map(lambda t: np.asarray(t), f(*a, **k)), rtol=1e-5, atol=1e-6)
    with ctx.case("scale derivative"):
        tree_close(ctx, "derivative('scale')", calc.derivative("scale")(f)(x, y, 3.0), ref(x, y, wrt="s"), rtol=1e-5, atol=1e-6)
        tree_close(ctx, "derivative(2)", calc.derivative(2)(f)(x, y, 3.0), ref(x, y, wrt="s"), rtol=1e-5, atol=1e-6)
    with ctx.case("non-array extra arguments"):
        g = lambda x, p, n: p["w"] * x ** n
        ctx.visit("pytree arg"); ctx.trace(); ctx.step()
        cl(ctx, "pytree and integer extra arguments", calc.derivative(0)(g)(2.0, {"w": 3.0}, 3), 36.0)
        cl(ctx, "pytree and integer extra arguments, second derivative", calc.derivative(["x", "x"])(g)(2.0, {"w": 3.0}, 3), 36.0)
        cl(ctx, "pytree in front", calc.derivative(1)(lambda p, x: p[0] * x ** 2 + p[1])(({"a": 1.0} and 2.0, 1.0), 3.0), 12.0)
        cl(ctx, "index with pytree extra", calc.derivative([1], argnums=0)(lambda v, p: v[1] ** 2 * v[0] * p["w"])(jnp.asarray([2.0, 3.0]), {"w": 0.5}), 6.0)
    with ctx.case("array argument element-wise"):
        t = np.linspace(-1, 2, 7)
        cl(ctx, "derivative of an element-wise function of an array", calc.derivative(0)(lambda x, c: c * x ** 3)(jnp.asarray(t), 2.0), 6 * t ** 2)
        cl(ctx, "vmap", jax.vmap(calc.derivative(["x", "y"])(lambda x, y: x ** 2 * y ** 3))(jnp.asarray(t), jnp.asarray(t + 1)), 6 * t * (t + 1) ** 2)
    ctx.raises("unknown name refused", lambda: calc.derivative("nope")(f)(1.0, 2.0), Exception)
    ctx.raises("length mismatch refused", lambda: calc.derivative([0, 1], argnums=[0])(f)(1.0, 2.0), Exception)


# ---- vector calculus -----------------------------------------------------------------------------------------
def field(d, m, seed):
    """polynomial R^d -> R^m with distinct coefficients: list of (coef, exponents) per component"""
    ex = [e for e in itertools.product(range(3), repeat=d) if sum(e) <= 3]
    out = []
    k = seed
    for i in range(m):
        comp = []
        for e in ex:
            k = (k * 29 + 7) % 101
            comp.append(((k - 50) / 25.0, e))
        out.append(comp)
    return out


def jf(F):
    d = len(F[0][0][1])
    C = np.zeros((3,) * d + (len(F),))
    for i, comp in enumerate(F):
        for c, e in comp:
            C[e + (i,)] = c
    C = jnp.asarray(C)

    def f(x, s=1.0):
        x = jnp.reshape(x, (-1,))
        P = jnp.stack([jnp.ones_like(x), x, x * x])  # (3, d)
        T = C
        for i in range(d):
            T = jnp.tensordot(P[:, i], T, axes=1)
        return s * T

    return f


def part(F, x, i, orders):
    comp = F[i]
    return float(np.sum(np.array([c for c, _ in comp]) * dmono(np.array([e for _, e in comp]), x, orders)))


XS = {1: [(0.7,), (-1.3,)], 2: [(0.7, -1.3), (0.0, 0.5)], 3: [(0.7, -1.3, 0.4), (0.0, 0.5, -0.8)], 4: [(0.7, -1.3, 0.4, 0.9)], 5: [(0.7, -1.3, 0.4, 0.9, -0.2)]}


def un(d, i, k=1):
    o = [0] * d
    o[i] = k
    return o


@group(cost=2)
def divergences(ctx):
    for d in (1, 2, 3, 4, 5) if ctx.thorough else (1, 2, 3, 4):
        for seed in (3, 11):
            F, G, K = field(d, d, seed), field(d, d, seed + 5), field(d, d, seed + 9)
            f, g, k = jf(F), jf(G), jf(K)
            for x in XS[d]:
                df, dg, dk = [sum(part(Z, x, i, un(d, i)) for i in range(d)) for Z in (F, G, K)]
                val = np.array([part(F, x, i, [0] * d) for i in range(d)])
                X = jnp.asarray(x)
                jobs = [("vector", f, (X,), {}, 0, df), ("vector with extra argument", f, (X, 2.5), {}, 0, 2.5 * df), ("vector with keyword", f, (X,), dict(s=-2.0), 0, -2 * df),
                        ("pytree", lambda x: {"p": f(x), "q": (g(x), k(x))}, (X,), {}, 0, {"p": df, "q": (dg, dk)}),
                        ("rows", lambda x: jnp.stack([f(x), g(x), k(x)]), (X,), {}, 0, np.array([df, dg, dk])),
                        ("single row", lambda x: f(x)[None], (X,), {}, 0, np.array([df])),
                        (f"{d} rows", lambda x: jnp.stack([(j + 1.0) * f(x) + g(x) for j in range(d)]), (X,), {}, 0, np.array([(j + 1) * df + dg for j in range(d)])),
                        ("second argument", lambda t, x: t * f(x), (3.0, X), {}, 1, 3 * df),
                        ("middle argument", lambda t, x, u: t * f(x) + u, (3.0, X, jnp.ones(d)), {}, 1, 3 * df)]
                for nm, h, a, kw, an, want in jobs:
                    case = f"divergence dim {d} {nm} at {x}"
                    with ctx.case(case):
                        ctx.visit((case, seed)); ctx.step(); ctx.trace(); ctx.outcome(case)
                        op = calc.divergence(h) if an == 0 else calc.divergence(h, argnums=an)
                        vop = calc.value_and_divergence(h) if an == 0 else calc.value_and_divergence(h, an)
                        w = jax.tree_util.tree_map(np.asarray, want)
                        tree_close(ctx, case, op(*a, **kw), w, rtol=ctx.tol(1e-9, 1e-3), atol=ctx.tol(1e-9, 1e-4))
                        y, dv = (jax.jit(vop) if nm == "pytree" else vop)(*a, **kw)
                        tree_close(ctx, case + " (value_and_)", dv, w, rtol=ctx.tol(1e-9, 1e-3), atol=ctx.tol(1e-9, 1e-4))
                        tree_close(ctx, case + " value", y, jax.tree_util.tree_map(np.asarray, h(*a, **kw)), rtol=1e-4, atol=1e-4)
                        if nm == "vector":
                            cl(ctx, case + " value (reference)", y, val)
    ctx.sample("divergence of all-cubic polynomial fields in 1-4 dimensions, 9 output/argument forms")


@group(cost=2)
def curls(ctx):
    for d in (2, 3):
        for seed in (3, 11, 23):
            F, G = field(d, d, seed), field(d, d, seed + 5)
            f, g = jf(F), jf(G)
            for x in XS[d]:
                def rot(Z):
                    D = lambda i, j: part(Z, x, i, un(d, j))
                    return np.asarray(D(1, 0) - D(0, 1)) if d == 2 else np.array([D(2, 1) - D(1, 2), D(0, 2) - D(2, 0), D(1, 0) - D(0, 1)])
                cf, cg = rot(F), rot(G)
                X = jnp.asarray(x)
                jobs = [("vector", f, (X,), cf), ("extra argument", lambda x, s: f(x, s), (X, 2.5), 2.5 * cf), ("two extra arguments", lambda x, s, u: f(x, s) + g(x, u), (X, 2.5, -1.0), 2.5 * cf - cg),
                        ("pytree", lambda x: {"p": f(x), "q": (g(x),)}, (X,), {"p": cf, "q": (cg,)}), ("rows", lambda x: jnp.stack([f(x), g(x), 2 * f(x), f(x) - g(x)]), (X,), np.stack([cf, cg, 2 * cf, cf - cg])),
                        ("pytree extra argument", lambda x, p: f(x, p["s"]), (X, {"s": 2.0}), 2 * cf)]
                for nm, h, a, want in jobs:
                    case = f"curl dim {d} {nm} at {x}"
                    with ctx.case(case):
                        ctx.visit((case, seed)); ctx.step(); ctx.trace(); ctx.outcome(case)
                        w = jax.tree_util.tree_map(np.asarray, want)
                        tree_close(ctx, case, calc.curl(h)(*a), w, rtol=ctx.tol(1e-9, 1e-3), atol=ctx.tol(1e-9, 1e-4))
                        if nm == "rows":
                            tree_close(ctx, case + " jit", jax.jit(calc.curl(h))(*a), w, rtol=ctx.tol(1e-9, 1e-3), atol=ctx.tol(1e-9, 1e-4))
            with ctx.case("curl vmap"):
                xs = jnp.asarray(XS[d])
                ctx.check("curl under vmap", jax.vmap(calc.curl(f))(xs).shape == ((2,) if d == 2 else (2, 3)))
    ctx.raises("curl in 4 dimensions refused", lambda: calc.curl(lambda x: x)(jnp.ones(4)), Exception)
    # identities: curl grad = 0, div curl = 0
    P = field(3, 1, 5); p = jf(P); F = field(3, 3, 17); f = jf(F)
    for x in XS[3]:
        with ctx.case("identities"):
            ctx.visit(("id", x)); ctx.step(2); ctx.trace()
            cl(ctx, f"curl grad at {x}", calc.curl(jax.grad(lambda x: p(x)[0]))(jnp.asarray(x)), np.zeros(3), atol=ctx.tol(1e-9, 1e-3))
            cl(ctx, f"div curl at {x}", calc.divergence(calc.curl(f))(jnp.asarray(x)), 0.0, atol=ctx.tol(1e-9, 1e-3))
            cl(ctx, f"div grad = laplace at {x}", calc.divergence(jax.grad(lambda x: p(x)[0]))(jnp.asarray(x)), calc.laplace(lambda x: p(x)[0])(jnp.asarray(x)), atol=ctx.tol(1e-9, 1e-3))


@group(cost=2)
def laplacians(ctx):
    for d in (1, 2, 3, 4, 5) if ctx.thorough else (1, 2, 3, 4):
        for seed in (3, 11):
            for m in (1, 2, 3, 5):
                F = field(d, m, seed + m)
                f = jf(F)
                for x in XS[d]:
                    H = np.array([[part(F, x, i, un(d, j, 2)) for i in range(m)] for j in range(d)])  # (d, m)
                    L = H.sum(0)
                    X = jnp.asarray(x)
                    jobs = [("vector", f, (X,), {}, L), ("component", lambda x: f(x)[m - 1], (X,), {}, L[m - 1]), ("extra", f, (X, 3.0), {}, 3 * L), ("keyword", f, (X,), dict(s=-1.5), -1.5 * L)]
                    if m == 3:
                        jobs += [("matrix", lambda x: jnp.outer(jnp.asarray([1.0, 2.0]), f(x)), (X,), {}, np.outer([1, 2], L)), ("pytree", lambda x: {"a": f(x), "b": (f(x)[0], 2 * f(x)[None])}, (X,), {}, {"a": L, "b": (L[0], 2 * L[None])})]
                    for nm, h, a, kw, want in jobs:
                        case = f"laplace dim {d} outputs {m} {nm} at {x}"
                        with ctx.case(case):
                            ctx.visit((case, seed)); ctx.step(); ctx.trace(); ctx.outcome(case)
                            op = calc.laplace(h)
                            tree_close(ctx, case, (jax.jit(op) if nm == "pytree" else op)(*a, **kw), jax.tree_util.tree_map(np.asarray, want), rtol=ctx.tol(1e-9, 1e-3), atol=ctx.tol(1e-9, 2e-4))
                    with ctx.case(f"hessian_diag {d} {m}"):
                        ctx.visit(("hd", d, m, seed, x)); ctx.step(); ctx.trace()
                        cl(ctx, f"hessian_diag dim {d} outputs {m} at {x}", calc.hessian_diag(f, X), H, rtol=ctx.tol(1e-9, 1e-3), atol=ctx.tol(1e-9, 2e-4))
    for x in (0.7, -1.3, 2, jnp.asarray(0.5)):
        with ctx.case(f"scalar input {x}"):
            x = float(x)
            ctx.visit(("scalar", x)); ctx.step(); ctx.trace()
            cl(ctx, f"laplace of scalar input {x}", calc.laplace(lambda t, c: c * t ** 3)(x, 2.0), 12 * x)
            cl(ctx, f"laplace of vector function of scalar input {x}", calc.laplace(lambda t: jnp.stack([t ** 3, t ** 2]))(x), [6 * x, 2.0])
    with ctx.case("iterated"):
        q = lambda x: x[0] ** 4 * x[1] ** 2 + x[1] ** 5
        x0, x1 = 0.8, -0.6
        cl(ctx, "laplace(laplace(f))", calc.laplace(calc.laplace(q))(jnp.asarray([x0, x1])), 24 * x1 ** 2 + 2 * 12 * x0 ** 2 * 2 + 120 * x1, rtol=1e-4)
    ctx.sample("laplace of all-cubic polynomials in 1-4 dimensions with 1,2,3,5 outputs, matrices and pytrees")


class Net(nn.Module):
    """y = W2 (W1 x + b1)^2 + b2 (+ c t): analytic derivatives"""
    m: int

    @nn.compact
    def __call__(self, x, t=0.0, c=1.0):
        h = nn.Dense(5, name="l1")(x)
        return nn.Dense(self.m, name="l2")(h ** 2) + c * t ** 2


@group()
def modules(ctx):
    """flax modules: parameters follow the input; all operators, also with extra arguments"""
    for d, m in ((2, 2), (3, 3), (3, 2), (2, 1), (4, 4)):
        net = Net(m)
        rs = np.random.RandomState(d * 10 + m)
        W1, b1, W2, b2 = rs.randn(d, 5), rs.randn(5), rs.randn(5, m), rs.randn(m)
        p = {"params": {"l1": {"kernel": jnp.asarray(W1), "bias": jnp.asarray(b1)}, "l2": {"kernel": jnp.asarray(W2), "bias": jnp.asarray(b2)}}}
        for x in ([0.3, -0.7, 0.5, 0.1][:d], [1.0, 0.0, -1.0, 2.0][:d]):
            x = np.array(x)
            h = x @ W1 + b1
            J = (2 * h[:, None] * W1.T).T @ W2  # (d, m): dy_j/dx_i
            lap = (2 * W1 ** 2).sum(0) @ W2
            y = h ** 2 @ W2 + b2
            X = jnp.asarray(x)
            jobs = [(f"derivative by index {i}", lambda i=i: calc.derivative([i], argnums=0)(net)(X, p), J[i]) for i in range(d)]
            jobs += [("derivative by position", lambda: calc.derivative(0)(net)(X, p), J.sum(0)), ("derivative by name", lambda: calc.derivative("x")(net)(X, p), J.sum(0)), ("derivative(module)", lambda: calc.derivative(net)(X, p), J.sum(0)),
                     ("derivative(module, 0)", lambda: calc.derivative(net, 0)(X, p), J.sum(0)),
                     ("derivative wrt extra argument", lambda: calc.derivative(2)(net)(X, p, 1.5), np.full(m, 3.0)), ("second derivative", lambda: calc.derivative([0, 0], argnums=0)(net)(X, p), 2 * W1[0] ** 2 @ W2),
                     ("mixed derivative", lambda: calc.derivative([0, 1], argnums=[0, 0])(net)(X, p), 2 * (W1[0] * W1[1]) @ W2),
                     ("value_and_derivative", lambda: calc.value_and_derivative(net, 1, argnum=0)(X, p)[1], J[1]), ("value of value_and_derivative", lambda: calc.value_and_derivative(net, 0)(X, p)[0], y),
                     ("laplace", lambda: calc.laplace(net)(X, p), lap), ("laplace with extra argument", lambda: calc.laplace(net)(X, p, 2.0), lap), ("laplace with keyword", lambda: calc.laplace(net)(X, p, t=2.0), lap)]
            if m == d:
                jobs += [("divergence", lambda: calc.divergence(net)(X, p), np.trace(J)), ("divergence extra", lambda: calc.divergence(net)(X, p, 1.0), np.trace(J)), ("value_and_divergence value", lambda: calc.value_and_divergence(net)(X, p, 2.0, c=3.0)[0], y + 12),
                         ("value_and_divergence", lambda: calc.value_and_divergence(net)(X, p)[1], np.trace(J))]
                D = lambda i, j: J[j, i]
                if d == 2:
                    jobs.append(("curl", lambda: calc.curl(net)(X, p), D(1, 0) - D(0, 1)))
                if d == 3:
                    jobs += [("curl", lambda: calc.curl(net)(X, p), np.array([D(2, 1) - D(1, 2), D(0, 2) - D(2, 0), D(1, 0) - D(0, 1)])), ("curl extra", lambda: calc.curl(net)(X, p, 2.0), np.array([D(2, 1) - D(1, 2), D(0, 2) - D(2, 0), D(1, 0) - D(0, 1)]))]
            for nm, fn, want in jobs:
                case = f"module {d}->{m}: {nm} at {x.tolist()}"
                with ctx.case(case):
                    ctx.visit(case); ctx.step(); ctx.trace(); ctx.outcome(nm)
                    cl(ctx, case, fn(), want, rtol=ctx.tol(1e-9, 1e-3), atol=ctx.tol(1e-9, 1e-3))
            with ctx.case("parameter gradient"):
                g = jax.grad(lambda p: jnp.sum(calc.laplace(net)(X, p)))(p)
                cl(ctx, "gradient of the laplacian wrt parameters", g["params"]["l2"]["kernel"], np.tile((2 * W1 ** 2).sum(0)[:, None], (1, m)), atol=1e-3)


@group(cost=2)
def nesting(ctx):
    """operators applied to operators, and derivatives of their results with respect to extra arguments (model parameters) in both modes"""
    def rot(Z, x, o):
        d = len(x)
        D = lambda i, j: part(Z, x, i, [a + b for a, b in zip(un(d, j), o)])
        return np.asarray(D(1, 0) - D(0, 1)) if d == 2 else np.array([D(2, 1) - D(1, 2), D(0, 2) - D(2, 0), D(1, 0) - D(0, 1)])

    for d in (2, 3):
        F, G = field(d, d, 13), field(d, d, 31)
        f, g = jf(F), jf(G)
        h = lambda x, p: p["a"] * f(x) + p["b"] ** 2 * g(x)  # parameters a, b
        p = {"a": jnp.asarray(1.5), "b": jnp.asarray(-0.5)}
        for x in XS[d]:
            X = jnp.asarray(x)
            div = lambda Z: np.asarray(sum(part(Z, x, i, un(d, i)) for i in range(d)))
            lap = lambda Z: np.array([sum(part(Z, x, i, un(d, j, 2)) for j in range(d)) for i in range(d)])
            dx0 = lambda Z: np.array([part(Z, x, i, un(d, 0)) for i in range(d)])
            hd = lambda Z: np.array([[part(Z, x, i, un(d, j, 2)) for i in range(d)] for j in range(d)])
            val = lambda Z: np.array([part(Z, x, i, [0] * d) for i in range(d)])
            z = lambda Z: rot(Z, x, [0] * d)
            ops = {"divergence": (calc.divergence(h), div), "curl": (calc.curl(h), z), "laplace": (calc.laplace(h), lap), "derivative index": (calc.derivative([0], argnums=0)(h), dx0),
                   "value of value_and_divergence": (lambda *a: calc.value_and_divergence(h)(*a)[0], val), "divergence of value_and_divergence": (lambda *a: calc.value_and_divergence(h)(*a)[1], div),
                   "value of value_and_derivative": (lambda *a: calc.value_and_derivative(h, 0, argnum=0)(*a)[0], val), "derivative of value_and_derivative": (lambda *a: calc.value_and_derivative(h, 0, argnum=0)(*a)[1], dx0),
                   "hessian_diag": (lambda x, p: calc.hessian_diag(lambda x: h(x, p), x), hd)}
            for nm, (op, ref) in ops.items():
                rf_, rg_ = ref(F), ref(G)
                for mode, jac in (("forward", jax.jacfwd), ("reverse", jax.jacrev)):
                    case = f"{mode} derivative of the {nm} (dim {d}) with respect to parameters at {x}"
                    with ctx.case(case):
                        ctx.visit(case); ctx.step(2); ctx.trace(); ctx.outcome(case)
                        J = jac(op, argnums=1)(X, p)
                        cl(ctx, case + " [a]", J["a"], rf_, rtol=ctx.tol(1e-9, 1e-3), atol=ctx.tol(1e-8, 1e-3))
                        cl(ctx, case + " [b]", J["b"], -1.0 * rg_, rtol=ctx.tol(1e-9, 1e-3), atol=ctx.tol(1e-8, 1e-3))
            with ctx.case(f"nested dim {d}"):
                ctx.visit(("nested", d, x)); ctx.step(6); ctx.trace()
                kw = dict(rtol=ctx.tol(1e-9, 1e-3), atol=ctx.tol(1e-8, 2e-3))
                cl(ctx, f"derivative of curl dim {d} at {x}", calc.derivative([0], argnums=0)(calc.curl(f))(X) if d == 3 else calc.value_and_derivative(calc.curl(f), 0, argnum=0)(X)[1], rot(F, x, un(d, 0)), **kw)
                cl(ctx, f"curl of derivative dim {d} at {x}", calc.curl(calc.derivative([1], argnums=0)(f))(X), rot(F, x, un(d, 1)), **kw)
                cl(ctx, f"divergence of derivative dim {d} at {x}", calc.divergence(calc.derivative([0], argnums=0)(f))(X), sum(part(F, x, i, [a + b for a, b in zip(un(d, i), un(d, 0))]) for i in range(d)), **kw)
                cl(ctx, f"derivative of divergence dim {d} at {x}", calc.derivative([0], argnums=0)(calc.divergence(f))(X), sum(part(F, x, i, [a + b for a, b in zip(un(d, i), un(d, 0))]) for i in range(d)), **kw)
                cl(ctx, f"gradient of laplace dim {d} at {x}", jax.jacrev(calc.laplace(f))(X), [[sum(part(F, x, i, [a + b for a, b in zip(un(d, j, 2), un(d, k))]) for j in range(d)) for k in range(d)] for i in range(d)], **kw)
                if d == 3:
                    gd = np.array([sum(part(F, x, i, [a + b for a, b in zip(un(3, i), un(3, j))]) for i in range(3)) for j in range(3)])
                    cl(ctx, f"curl curl at {x}", calc.curl(calc.curl(f))(X), gd - lap(F), **kw)
                    cl(ctx, f"laplace of curl at {x}", calc.laplace(calc.curl(f))(X), sum(rot(F, x, un(3, j, 2)) for j in range(3)), **kw)
    ctx.sample("curl(curl f) = grad div f - laplace f; parameter gradients of all operators, forward and reverse")
