"""C10: Hessian-vector products and value/derivative bundles agree with each other."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np

from magpi import calc, utils
from mc.core import group, tree_close

# ---- reference: polynomial in n flat parameters, exact value / gradient / Hessian -----------------------------


class Poly:
    """sum_k c_k prod_i x_i^e_ki, all monomials with exponents <= 3 and total degree <= 4"""

    def __init__(self, n, seed, zero_hess=False):
        ex = [e for e in itertools.product(range(4), repeat=n) if sum(e) <= (1 if zero_hess else 4)]
        rs = np.random.RandomState(seed)
        self.E = np.array(ex)
        self.c = np.round(rs.uniform(-2, 2, len(ex)) * 8) / 8
        self.n = n
        self.dense = np.zeros((4,) * n)
        for e, c in zip(ex, self.c):
            self.dense[e] = c

    def d(self, x, orders):
        out = self.c.copy()
        for i in range(self.n):
            e = self.E[:, i].astype(float)
            f = np.ones_like(e)
            for q in range(orders[i]):
                f = f * (e - q)
            out = out * np.where(f != 0, f * np.power(float(x[i]), np.maximum(e - orders[i], 0)), 0.0)
        return float(out.sum())

    def value(self, x):
        return self.d(x, [0] * self.n)

    def grad(self, x):
        I = np.eye(self.n, dtype=int)
        return np.array([self.d(x, list(I[i])) for i in range(self.n)])

    def hess(self, x):
        I = np.eye(self.n, dtype=int)
        return np.array([[self.d(x, list(I[i] + I[j])) for j in range(self.n)] for i in range(self.n)])

    def jax(self, x):
        P = jnp.stack([jnp.ones_like(x), x, x * x, x * x * x])
        T = jnp.asarray(self.dense, P.dtype)
        for i in range(self.n):
            T = jnp.tensordot(P[:, i], T, axes=1)
        return T

    def jgrad(self, x):
        """hand-written gradient (independent of automatic differentiation)"""
        P = jnp.stack([jnp.ones_like(x), x, x * x, x * x * x])
        D = jnp.stack([jnp.zeros_like(x), jnp.ones_like(x), 2 * x, 3 * x * x])
        out = []
        for k in range(self.n):
            T = jnp.asarray(self.dense, P.dtype)
            for i in range(self.n):
                T = jnp.tensordot((D if i == k else P)[:, i], T, axes=1)
            out.append(T)
        return jnp.stack(out)


STRUCT = {
    "scalar": (1, lambda v: v[0], lambda t: jnp.reshape(t, (1,))),
    "vector1": (1, lambda v: v, lambda t: t),
    "vector": (3, lambda v: v, lambda t: t),
    "matrix": (4, lambda v: v.reshape(2, 2), lambda t: t.reshape(-1)),
    "row": (2, lambda v: v.reshape(1, 2), lambda t: t.reshape(-1)),
    "dict": (3, lambda v: {"a": v[0], "b": v[1:]}, lambda t: jnp.concatenate([jnp.reshape(t["a"], (1,)), t["b"]])),
    "tuple": (3, lambda v: (v[:2], v[2]), lambda t: jnp.concatenate([t[0], jnp.reshape(t[1], (1,))])),
    "nested": (4, lambda v: {"p": [v[0], {"q": v[1:3].reshape(2, 1)}], "r": (v[3:],)}, lambda t: jnp.concatenate([jnp.reshape(t["p"][0], (1,)), t["p"][1]["q"].reshape(-1), t["r"][0]])),
}


def vectors(n, thorough):
    lat = [v for v in itertools.product((-1.0, 0.0, 2.0), repeat=n) if any(v)]
    basis = [tuple(np.eye(n)[i]) for i in range(n)] + [tuple([0.0] * n), tuple([1.0, -2.0, 0.5, 3.0][:n]), tuple([1 / 3, -0.7, 1e-3, 0.1][:n])]
    return [np.array(v) for v in dict.fromkeys(basis + (lat if thorough else lat[:: max(1, len(lat) // 6)]))]


POINTS = [np.array([0.5, -1.25, 0.75, 1.0]), np.array([0.0, 0.0, 0.0, 0.0]), np.array([-1.5, 0.25, 1.0, -0.5]), np.array([1 / 3, -0.1, 0.7, 1.1])]


def funcs(P, unflat, flat, vag, aux):
    """the four ways a user may supply the objective: s*poly(p) + shift*p.p"""
    def val(p, s, shift):
        v = flat(p)
        return s * P.jax(v) + shift * jnp.sum(v * v)

    def auxof(p, s, shift):
        return {"twice": 2 * val(p, s, shift), "p": p, "n": flat(p)[0] * 3}

    def f(p, s=1.0, *, shift=0.0):
        if not vag:
            return (val(p, s, shift), auxof(p, s, shift)) if aux else val(p, s, shift)
        v = flat(p)
        g = unflat(s * P.jgrad(v) + 2 * shift * v)
        y = val(p, s, shift)
        return ((y, auxof(p, s, shift)), g) if aux else (y, g)

    return f


CALLS = [("no extra", (), {}), ("positional", (2.5,), {}), ("keyword", (), dict(shift=-0.75)), ("both", (-1.5,), dict(shift=0.5))]


def scen(ctx, names):
    for nm in names:
        n, un, fl = STRUCT[nm]
        for seed in (1, 2) if ctx.thorough else (1,):
            P = Poly(n, seed)
            for k, x in enumerate(POINTS if ctx.thorough else POINTS[:2]):
                yield nm, n, un, fl, P, f"{nm} poly {seed} point {k}", x[:n]


def reference(P, x, args, kw):
    s, sh = (args[0] if args else 1.0), kw.get("shift", 0.0)
    return s * P.value(x) + sh * x @ x, s * P.grad(x) + 2 * sh * x, s * P.hess(x) + 2 * sh * np.eye(len(x))


def T(ctx):
    return dict(rtol=ctx.tol(1e-9, 5e-4), atol=ctx.tol(1e-9, 5e-4))


def npt(t):
    return jax.tree_util.tree_map(np.asarray, t)


def _hvp_group(ctx, names):
    for nm, n, un, fl, P, label, x in scen(ctx, names):
        p = un(jnp.asarray(x))
        for cname, args, kw in CALLS if ctx.thorough or not label.endswith('point 1') else CALLS[3:]:
            y, g, H = reference(P, x, args, kw)
            for vag, aux in itertools.product((False, True), repeat=2):
                f = funcs(P, un, fl, vag, aux)
                case = f"{label} [{cname}] value_and_grad={vag} has_aux={aux}"
                V = vectors(n, ctx.thorough)
                ctx.visit(case, len(V)); ctx.step(4 * len(V)); ctx.trace(len(V)); ctx.outcome((vag, aux, cname, nm))
                Vs = jnp.asarray(np.stack(V))
                flags = dict(value_and_grad=vag, has_aux=aux)
                want = np.stack(V) @ H
                batch = lambda op: np.asarray(jax.vmap(lambda v: fl(op(un(v))))(Vs))
                with ctx.case(case + " forward-over-reverse"):
                    ctx.close(case + " forward-over-reverse", batch(lambda t: calc.hvp_forward_over_reverse(f, (p,), (t,), *args, **flags, **kw)), want, **T(ctx))
                    for alpha in (0.0, 0.75, -2.0) if ctx.thorough else (0.75,):
                        ctx.close(f"{case} forward-over-reverse damping {alpha}", batch(lambda t: calc.hvp_forward_over_reverse(f, (p,), (t,), *args, alpha=alpha, **flags, **kw)), want + alpha * np.stack(V), **T(ctx))
                    out = calc.hvp_forward_over_reverse(f, [p], [un(Vs[0])], *args, **flags, **kw)
                    tree_close(ctx, case + " forward-over-reverse, structure of the parameters", out, npt(un(jnp.asarray(want[0]))), **T(ctx))
                    out = calc.hvp_forward_over_reverse(f, [p], [un(Vs[0])], *args, alpha=jnp.asarray(0.5), **flags, **kw)
                    tree_close(ctx, case + " damped, structure of the parameters", out, npt(un(jnp.asarray(want[0] + 0.5 * V[0]))), **T(ctx))
                with ctx.case(case + " reverse-over-reverse"):
                    ctx.close(case + " reverse-over-reverse", batch(lambda t: calc.hvp_reverse_over_reverse(f, (p,), (t,), *args, **flags, **kw)), want, **T(ctx))
                    out = calc.hvp_reverse_over_reverse(f, [p], [un(Vs[0])], *args, **flags, **kw)
                    tree_close(ctx, case + " reverse-over-reverse, structure", out, npt(un(jnp.asarray(want[0]))), **T(ctx))
                if not vag and not aux:
                    with ctx.case(case + " forward-over-forward"):
                        fx = lambda q: f(q, *args, **kw)
                        if nm in ("scalar", "vector1", "vector", "matrix", "row"):
                            ctx.close(case + " forward-over-forward", batch(lambda t: calc.hvp(fx, (p,), (t,))), want, **T(ctx))
                        out = calc.hvp(fx, [p], [un(Vs[0])])
                        tree_close(ctx, case + " forward-over-forward, structure", out, npt(un(jnp.asarray(want[0]))), **T(ctx))
                with ctx.case(case + " value_grad_hvp"):
                    r = calc.value_grad_hvp(f, p, *args, **flags, **kw)
                    ctx.check(case + " value_grad_hvp arity", len(r) == (4 if aux else 3), lambda: f"{len(r)} results")
                    ctx.close(case + " bundled value", r[0], np.asarray(y), **T(ctx))
                    tree_close(ctx, case + " bundled gradient", r[1], npt(un(jnp.asarray(g))), **T(ctx))
                    for v in V if ctx.thorough else V[:n + 2]:  # the same product object used again and again
                        tree_close(ctx, f"{case} reusable product with {v.tolist()}", r[2](un(jnp.asarray(v))), npt(un(jnp.asarray(v @ H))), **T(ctx))
                    if aux:
                        tree_close(ctx, case + " bundled aux", r[3], npt({"twice": np.asarray(2 * y), "p": p, "n": np.asarray(3 * x[0])}), **T(ctx))
    ctx.sample("hvp variants of s*poly + shift*|p|^2 for all (value_and_grad, has_aux, args, kwargs) and a vector lattice")


@group(cost=3, quick=("f64",))
def products_scalars(ctx):
    _hvp_group(ctx, ["scalar", "vector1", "row"])


@group(cost=3, quick=("f64",))
def products_arrays(ctx):
    _hvp_group(ctx, ["vector", "matrix"])


@group(cost=3)
def products_dict(ctx):
    _hvp_group(ctx, ["dict"])


@group(cost=3, quick=("f64",))
def products_tuple(ctx):
    _hvp_group(ctx, ["tuple"])


@group(cost=3, quick=("f64",))
def products_nested(ctx):
    _hvp_group(ctx, ["nested"])


@group(cost=3, quick=("f64",))
def transformed(ctx):
    """the products under jit, vmap over the point, and linear in the vector; hvp of vector-valued functions"""
    for nm in ("vector", "dict", "nested"):
        n, un, fl = STRUCT[nm]
        P = Poly(n, 3)
        for vag, aux in itertools.product((False, True), repeat=2):
            f = funcs(P, un, fl, vag, aux)
            case = f"jit/vmap {nm} value_and_grad={vag} has_aux={aux}"
            X = np.stack([q[:n] for q in POINTS])
            V = np.stack(vectors(n, False))[n - 1:][: len(X)]
            want = np.stack([s * P.hess(x) @ v for x, v, s in zip(X, V, (1.0, -2.0, 0.5, 0.3))])
            wg = np.stack([s * P.grad(x) for x, s in zip(X, (1.0, -2.0, 0.5, 0.3))])
            S = jnp.asarray([1.0, -2.0, 0.5, 0.3])
            for hn, op in (("forward-over-reverse", lambda x, v, s: fl(calc.hvp_forward_over_reverse(f, (un(x),), (un(v),), s, value_and_grad=vag, has_aux=aux))), ("reverse-over-reverse", lambda x, v, s: fl(calc.hvp_reverse_over_reverse(f, (un(x),), (un(v),), s, value_and_grad=vag, has_aux=aux))),
                           ("value_grad_hvp", lambda x, v, s: fl(calc.value_grad_hvp(f, un(x), s, value_and_grad=vag, has_aux=aux)[2](un(v))))):
                with ctx.case(f"{case} {hn}"):
                    ctx.visit((case, hn), len(X)); ctx.step(len(X)); ctx.trace(); ctx.outcome((hn, nm, vag, aux))
                    ctx.close(f"{case} {hn}", jax.jit(jax.vmap(op))(jnp.asarray(X), jnp.asarray(V), S), want, **T(ctx))
            with ctx.case(f"{case} gradient"):
                ctx.close(f"{case} bundled gradient", jax.vmap(lambda x, s: fl(calc.value_grad_hvp(f, un(x), s, value_and_grad=vag, has_aux=aux)[1]))(jnp.asarray(X), S), wg, **T(ctx))
                # linearity
                x = jnp.asarray(X[0])
                h = calc.value_grad_hvp(f, un(x), 1.0, value_and_grad=vag, has_aux=aux)[2]
                for a, b in itertools.product((-2.0, 0.0, 0.5), repeat=2):
                    u, v = jnp.asarray(V[0]), jnp.asarray(V[1])
                    ctx.visit((case, "lin", a, b)); ctx.step(); ctx.trace()
                    ctx.close(f"{case} linearity {a},{b}", fl(h(un(a * u + b * v))), np.asarray(a * fl(h(un(u))) + b * fl(h(un(v)))), **T(ctx))
    # forward-over-forward of vector- and tree-valued functions
    for n in (1, 2, 3):
        Ps = [Poly(n, 10 + i) for i in range(3)]
        f = lambda x: {"a": jnp.stack([q.jax(x) for q in Ps]), "b": (Ps[0].jax(x), Ps[1].jax(x)[None])}
        for x in POINTS:
            x = x[:n]
            for v in vectors(n, False):
                with ctx.case(f"hvp vector-valued {n}"):
                    Hv = np.stack([q.hess(x) @ v for q in Ps])
                    ctx.visit(("hvp", n, tuple(x), tuple(v))); ctx.step(); ctx.trace()
                    tree_close(ctx, f"hvp of a tree-valued function n={n} at {x.tolist()} v={v.tolist()}", calc.hvp(f, (jnp.asarray(x),), (jnp.asarray(v),)), {"a": Hv, "b": (Hv[0], Hv[1][None])}, **T(ctx))
    # a function whose Hessian vanishes
    P = Poly(3, 5, zero_hess=True)
    for hn, h in (("for", calc.hvp_forward_over_reverse), ("ror", calc.hvp_reverse_over_reverse)):
        with ctx.case(f"linear function {hn}"):
            ctx.visit(("lin", hn)); ctx.step(); ctx.trace()
            ctx.close(f"{hn} of a linear function", h(P.jax, (jnp.asarray(POINTS[0][:3]),), (jnp.ones(3),)), np.zeros(3))


@group(cost=2, quick=("f64",))
def jacobians(ctx):
    """value_and_jacfwd / value_and_jacrev for every designation of arguments, aux, kwargs, trees"""
    A = np.array([[1.0, -2.0, 0.5], [0.25, 3.0, -1.0]])

    def core(x, y, p, s):
        u = A @ x  # (2,)
        return u * y + p["w"] ** 2 * s * jnp.stack([x[0] * x[1], x[2] ** 2]) + p["b"] * y ** 2

    def ref(x, y, w, b, s):
        base = np.array([x[0] * x[1], x[2] ** 2])
        val = A @ x * y + w ** 2 * s * base + b * y ** 2
        dx = A * y + w ** 2 * s * np.array([[x[1], x[0], 0], [0, 0, 2 * x[2]]])
        dy = A @ x + 2 * b * y
        dp = {"w": 2 * w * s * base, "b": np.eye(2) * y ** 2}
        return val, (dx, dy, dp)

    outs = {"vector": (lambda v: v, lambda v: v), "component": (lambda v: v[1], lambda v: v[1]), "tree": (lambda v: {"v": v, "m": (2 * v[:1],)}, lambda v: {"v": v, "m": (2 * v[:1],)}), "column": (lambda v: v[:, None], lambda v: v[:, None])}
    specs = [0, 1, 2, (0,), (1,), (0, 1), (1, 0), (0, 2), (2, 1, 0), (0, 1, 2), [1, 2]]
    states = [(np.array([0.5, -1.0, 2.0]), 1.5, -0.5, np.array([1.0, 3.0])), (np.zeros(3), 0.0, 1.0, np.array([-1.0, 0.5]))]
    for (on, (oj, onp)), spec, aux, (sn, skw) in itertools.product(outs.items(), specs, (False, True), [("default", {}), ("keyword", dict(s=2.0))]):
        def f(x, y, p, s=1.0, aux=aux, oj=oj):
            v = core(x, y, p, s)
            return (oj(v), {"x": 2 * x, "s": s * y}) if aux else oj(v)
        for k, (x, y, w, b) in enumerate(states if ctx.thorough else states[:1]):
            val, J = ref(x, y, w, b, skw.get("s", 1.0))
            pick = lambda i: jax.tree_util.tree_map(lambda j: j, J[i])
            def out_tree(i):
                Ji = J[i]
                # structure: output tree of argument trees
                if on == "tree":
                    return {"v": Ji, "m": (jax.tree_util.tree_map(lambda j: 2 * j[:1], Ji),)}
                return jax.tree_util.tree_map(lambda j: {"vector": j, "component": j[1], "column": j[:, None]}[on], Ji)
            seq = not isinstance(spec, int)
            idx = list(spec) if seq else [spec]
            if on == "tree":
                parts = [out_tree(i) for i in idx]
                want = parts[0] if not seq else {"v": tuple(q["v"] for q in parts), "m": (tuple(q["m"][0] for q in parts),)}
            else:
                want = tuple(out_tree(i) for i in idx) if seq else out_tree(spec)
            args = (jnp.asarray(x), jnp.asarray(y), {"w": jnp.asarray(w), "b": jnp.asarray(b)})
            for jn, op in (("value_and_jacfwd", calc.value_and_jacfwd), ("value_and_jacrev", calc.value_and_jacrev)):
                case = f"{jn} output {on} argnums {spec} has_aux={aux} s {sn} state {k}"
                with ctx.case(case):
                    ctx.visit(case); ctx.step(); ctx.trace(); ctx.outcome(case)
                    got_y, got_J = op(f, tuple(spec) if isinstance(spec, list) else spec, has_aux=aux)(*args, **skw)
                    wy = npt(onp(val))
                    if aux:
                        wy = (wy, {"x": 2 * x, "s": np.asarray(skw.get("s", 1.0) * y)})
                    tree_close(ctx, case + " value", got_y, wy, **T(ctx))
                    tree_close(ctx, case + " jacobian", got_J, npt(want), **T(ctx))
                    if spec == 0:
                        dy, dJ = op(f, has_aux=aux)(*args, **skw)
                        tree_close(ctx, case + " default argnums", dJ, npt(want), **T(ctx))
    ctx.sample("value_and_jacfwd/rev over 11 argnums forms x 4 outputs x aux x keyword")


@group(quick=("f64",))
def aux_functions(ctx):
    """make_funs_with_aux: the three derived functions agree with the supplied one"""
    if not hasattr(utils, "make_funs_with_aux"):
        return
    for nm in ("scalar", "vector", "dict", "nested"):
        n, un, fl = STRUCT[nm]
        P = Poly(n, 4)
        for x in POINTS if ctx.thorough else POINTS[:1]:
            x = x[:n]
            p = un(jnp.asarray(x))
            for cname, args, kw in CALLS:
                y, g, _ = reference(P, x, args, kw)
                for vag, aux in itertools.product((False, True), repeat=2):
                    case = f"make_funs_with_aux {nm} {cname} value_and_grad={vag} has_aux={aux} at {x.tolist()}"
                    with ctx.case(case):
                        ctx.visit(case); ctx.step(3); ctx.trace(); ctx.outcome((nm, cname, vag, aux))
                        fun, gfun, vgfun = utils.make_funs_with_aux(funcs(P, un, fl, vag, aux), vag, aux)
                        v1, a1 = fun(p, *args, **kw)
                        g2, a2 = gfun(p, *args, **kw)
                        (v3, a3), g3 = vgfun(p, *args, **kw)
                        for t, v in (("fun", v1), ("value_and_grad", v3)):
                            ctx.close(f"{case} {t} value", v, np.asarray(y), **T(ctx))
                        for t, gg in (("grad", g2), ("value_and_grad", g3)):
                            tree_close(ctx, f"{case} {t} gradient", gg, npt(un(jnp.asarray(g))), **T(ctx))
                        wa = npt({"twice": np.asarray(2 * y), "p": p, "n": np.asarray(3 * x[0])}) if aux else None
                        for t, a in (("fun", a1), ("grad", a2), ("value_and_grad", a3)):
                            tree_close(ctx, f"{case} {t} aux", a, wa, **T(ctx))
