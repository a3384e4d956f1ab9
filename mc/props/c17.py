"""C17: trust-region runs converge consistently across options and restarts."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np

from magpi.tr import TR
from mc.core import group, tree_close

# ---- objectives: jax value, hand-written gradient, numpy value/gradient --------------------------------------------
Q = np.array([[3.0, 0.5, 0.0], [0.5, 1.0, -0.25], [0.0, -0.25, 0.5]])
QB = np.array([1.0, -2.0, 0.5])


def quad(xp):
    A, b = (jnp.asarray(Q), jnp.asarray(QB)) if xp is jnp else (Q, QB)
    return (lambda v, s=1.0: s * (0.5 * v @ A @ v - b @ v)), (lambda v, s=1.0: s * (A @ v - b))


def rosen(xp):
    def f(v, s=1.0):
        return s * ((1 - v[0]) ** 2 + 4.0 * (v[1] - v[0] ** 2) ** 2 + (v[2] - v[1]) ** 2)

    def g(v, s=1.0):
        a, b = v[1] - v[0] ** 2, v[2] - v[1]
        return s * xp.stack([-2 * (1 - v[0]) - 16 * v[0] * a, 8 * a - 2 * b, 2 * b])

    return f, g


def wells(xp):
    def f(v, s=1.0):
        return s * ((v[0] ** 2 - 1) ** 2 + v[1] ** 2 + 0.5 * (v[2] ** 2 - v[0] * v[2]))

    def g(v, s=1.0):
        return s * xp.stack([4 * v[0] * (v[0] ** 2 - 1) - 0.5 * v[2], 2 * v[1], v[2] - 0.5 * v[0]])

    return f, g


OBJ = {"quadratic": quad, "valley": rosen, "double well": wells}
STRUCT = {
    "array": (lambda v: v, lambda t: t),
    "matrix": (lambda v: v.reshape(1, 3), lambda t: t.reshape(3)),
    "dict": (lambda v: {"a": v[0], "b": v[1:]}, lambda t: jnp.concatenate([jnp.reshape(t["a"], (1,)), t["b"]])),
    "nested": (lambda v: ([v[0]], {"k": (v[1], v[2:].reshape(1, 1))}), lambda t: jnp.stack([t[0][0], t[1]["k"][0], t[1]["k"][1][0, 0]])),
}
STARTS = [np.array([-1.0, 1.0, 0.5]), np.array([0.1, -0.5, 2.0])]


def supply(obj, struct, vag, aux):
    f, g = OBJ[obj](jnp)
    un, fl = STRUCT[struct]

    def fun(p, s=1.0):
        v = fl(p)
        y = f(v, s)
        a = {"twice": 2 * y, "first": v[0]}
        if vag:
            return ((y, a), un(g(v, s))) if aux else (y, un(g(v, s)))
        return (y, a) if aux else y

    return fun


def tolx(ctx):
    return dict(rtol=ctx.tol(1e-6, 5e-3), atol=ctx.tol(1e-6, 5e-3))


def consistent(ctx, case, obj, struct, out, aux, s=1.0):
    f, g = OBJ[obj](np)
    v = np.asarray(STRUCT[struct][1](out.params), float)
    st = out.state
    t = dict(rtol=ctx.tol(1e-8, 2e-3), atol=ctx.tol(1e-8, 2e-4))
    ctx.close(case + ": reported value", st.value, f(v, s), **t)
    ctx.close(case + ": reported gradient", np.asarray(STRUCT[struct][1](st.grad)), g(v, s), **(t if ctx.x64 else dict(rtol=5e-3, atol=2e-3)))
    ctx.close(case + ": reported gradient norm", st.error, np.linalg.norm(g(v, s)), **(t if ctx.x64 else dict(rtol=5e-3, atol=2e-3)))
    if aux:
        ctx.close(case + ": reported aux", st.aux["twice"], 2 * f(v, s), **t)
        ctx.close(case + ": reported aux", st.aux["first"], v[0], **t)


def manual(solver, p, n, tol, *args):
    """the documented loop: update until the gradient norm is at most tol or n updates are spent"""
    upd = jax.jit(lambda p, st, *a: solver.update(p, st, *a))
    st = solver.init_state(p, *args)
    hist = []
    for _ in range(n):
        p, st = upd(p, st, *args)
        hist.append((p, st))
        if float(st.error) <= tol:
            break
    return hist


@group(cost=4)
def runs(ctx):
    """objective x start x supplied/derived gradient x aux x parameter structure: converges, consistent report, same iterates as manual updates, never uphill"""
    for obj, (k, x0) in itertools.product(OBJ, enumerate(STARTS)):
        base = None
        combos = [("array", v, a) for v in (False, True) for a in (False, True)] + [("dict", False, True), ("nested", True, False), ("matrix", False, False)]
        for struct, vag, aux in combos if (k == 0 or ctx.thorough) else combos[:1]:
            case = f"{obj} start {k} {struct} value_and_grad={vag} has_aux={aux}"
            with ctx.case(case):
                un, fl = STRUCT[struct]
                tol = ctx.tol(1e-5, 1e-2)
                solver = TR(supply(obj, struct, vag, aux), value_and_grad=vag, has_aux=aux, tol=tol, maxiter=60)
                p0 = un(jnp.asarray(x0))
                out = solver.run(p0)
                v = np.asarray(fl(out.params), float)
                consistent(ctx, case, obj, struct, out, aux)
                f, g = OBJ[obj](np)
                ctx.check(case + ": converged within the budget", float(out.state.error) <= tol, lambda: f"error {out.state.error} after {out.state.iter_num}")
                ctx.check(case + ": not uphill", f(v) <= f(x0) + 1e-6, lambda: f"{f(x0)} -> {f(v)}")
                ctx.visit(case, int(out.state.iter_num)); ctx.step(int(out.state.iter_num)); ctx.trace(); ctx.outcome((obj, k, struct, vag, aux))
                if base is None:
                    base = v
                    h = manual(solver, p0, 60, tol)
                    ctx.check(case + ": number of updates", len(h) == int(out.state.iter_num), lambda: f"manual {len(h)}, run {out.state.iter_num}")
                    ctx.close(case + ": manual updates", np.asarray(fl(h[-1][0])), v, **tolx(ctx))
                    vals = [f(x0)] + [f(np.asarray(fl(p), float)) for p, _ in h]
                    ctx.check(case + ": monotone", all(b <= a + ctx.tol(1e-9, 1e-4) for a, b in zip(vals, vals[1:])), lambda: f"{vals}")
                    for i, (p, s) in enumerate(h):
                        consistent(ctx, f"{case} after {i + 1} updates", obj, struct, type(out)(p, s), aux)
                    errs = [float(s.error) for _, s in h]
                    ctx.check(case + ": stops as soon as the tolerance is met", all(e > tol for e in errs[:-1]), lambda: f"{errs}")
                else:
                    ctx.close(case + ": same solution as the plain objective", v, base, **tolx(ctx))
    ctx.sample("runs on 3 objectives x 2 starts x 4 objective forms x 4 structures, each compared with manual updates")


@group(cost=4, quick=("f64",))
def budgets(ctx):
    """every iteration budget: the run equals that many manual updates, whatever the execution options"""
    for obj in ("valley", "double well"):
        x0 = STARTS[0]
        mk = lambda **o: TR(supply(obj, "array", False, True), has_aux=True, tol=1e-4, maxiter_steihaug=4, **o)
        h = manual(mk(), jnp.asarray(x0), 8, 1e-4)
        for n in range(1, 9) if ctx.thorough else (1, 2, 3, 5, 8):
            modes = [("default", {})]
            if n == 5 or (ctx.thorough and n <= 5):
                modes += [("no unroll", dict(unroll=False)), ("not implicit", dict(implicit_diff=False, unroll=False))]
            if n == 3:
                modes += [("unrolled", dict(unroll=True)), ("no jit", dict(jit=False))]
            for mn, o in modes:
                case = f"{obj} budget {n} {mn}"
                with ctx.case(case):
                    out = mk(maxiter=n, **o).run(jnp.asarray(x0))
                    m = min(n, len(h))
                    ctx.visit(case, n); ctx.step(n); ctx.trace(); ctx.outcome((obj, n, mn))
                    ctx.check(case + ": updates performed", int(out.state.iter_num) == m, lambda: f"{out.state.iter_num}, expected {m}")
                    ctx.close(case + ": iterate", out.params, np.asarray(h[m - 1][0]), **tolx(ctx))
                    ctx.close(case + ": radius", out.state.tr_radius, np.asarray(h[m - 1][1].tr_radius), rtol=1e-5)
                    consistent(ctx, case, obj, "array", out, True)
    ctx.sample("budgets 1..8 on two non-convex objectives, default / unrolled / unjitted loops")


@group(cost=3, quick=("f64",))
def tolerances(ctx):
    """tolerance lattice: stops at the first iterate whose gradient norm is at most the tolerance"""
    for obj, (k, x0) in (itertools.product(("quadratic", "valley"), enumerate(STARTS)) if ctx.thorough else (("quadratic", (0, STARTS[0])), ("valley", (1, STARTS[1])))):
        for tol in (10.0, 1.0, 0.1, 1e-2) + ((1e-6,) if ctx.x64 else ()):
            case = f"{obj} start {k} tol {tol}"
            with ctx.case(case):
                solver = TR(supply(obj, "array", False, False), tol=tol, maxiter=80)
                out = solver.run(jnp.asarray(x0))
                h = manual(solver, jnp.asarray(x0), 80, tol)
                ctx.visit(case, len(h)); ctx.step(len(h)); ctx.trace(); ctx.outcome((obj, k, tol))
                ctx.check(case + ": stopped within tolerance", float(out.state.error) <= tol, lambda: f"{out.state.error}")
                ctx.check(case + ": number of updates", int(out.state.iter_num) == len(h), lambda: f"{out.state.iter_num} vs {len(h)}")
                ctx.close(case + ": iterate", out.params, np.asarray(h[-1][0]), **tolx(ctx))
    # starting at the solution
    with ctx.case("start at the optimum"):
        xs = jnp.asarray(np.linalg.solve(Q, QB))
        out = TR(supply("quadratic", "array", False, False), tol=1e-3).run(xs)
        ctx.visit("opt"); ctx.step(); ctx.trace()
        ctx.close("start at the optimum: parameters kept", out.params, np.asarray(xs), rtol=1e-5, atol=1e-5)
        ctx.check("start at the optimum: stops at once", int(out.state.iter_num) <= 1, lambda: f"{out.state.iter_num}")


@group(cost=3, quick=("f64",))
def hessian_products(ctx):
    """finite-difference Hessian products give the same iterates on quadratics; damping and other options still converge"""
    fd = ctx.tol(1e-4, 1e-1)
    for (k, x0), struct in itertools.product(enumerate(STARTS if ctx.thorough else STARTS[:1]), ("array", "nested")):
        un, fl = STRUCT[struct]
        for vag, aux in ((False, False), (True, True)):
            case = f"quadratic start {k} {struct} value_and_grad={vag} has_aux={aux}"
            with ctx.case(case):
                fun = supply("quadratic", struct, vag, aux)
                mk = lambda **o: TR(fun, value_and_grad=vag, has_aux=aux, tol=1e-3, **o)
                for n in (1, 3, 30) if ctx.thorough else (2, 30):
                    a = mk(maxiter=n).run(un(jnp.asarray(x0)))
                    b = mk(maxiter=n, approx_hvp=True, fd_h=fd).run(un(jnp.asarray(x0)))
                    ctx.visit((case, n), n); ctx.step(n); ctx.trace(); ctx.outcome((k, struct, n))
                    ctx.close(f"{case} budget {n}: same iterate with finite differences", np.asarray(fl(b.params)), np.asarray(fl(a.params)), rtol=ctx.tol(1e-5, 1e-2), atol=ctx.tol(1e-5, 1e-2))
                    consistent(ctx, f"{case} budget {n} finite differences", "quadratic", struct, b, aux)
    xs = np.linalg.solve(Q, QB)
    for nm, o in (("damped", dict(damping_factor=0.5)), ("small radius", dict(init_tr_radius=0.05, max_tr_radius=0.5)), ("one CG step", dict(maxiter_steihaug=1)), ("forcing", dict(forcing_parameter=1.0)), ("strict acceptance", dict(rho_accept=0.2, rho_decrease=0.6, rho_increase=0.9)), ("slow growth", dict(increase_factor=1.25, decrease_factor=0.5))):
        for obj in ("quadratic", "valley", "double well") if ctx.thorough else ("valley",):
            case = f"{obj} with {nm}"
            with ctx.case(case):
                f, g = OBJ[obj](np)
                tol = ctx.tol(1e-4, 2e-2)
                out = TR(supply(obj, "array", False, False), tol=tol, maxiter=300, **o).run(jnp.asarray(STARTS[0]))
                ctx.visit(case, int(out.state.iter_num)); ctx.step(int(out.state.iter_num)); ctx.trace(); ctx.outcome(case)
                v = np.asarray(out.params, float)
                ctx.check(case + ": converged", np.linalg.norm(g(v)) <= 1.2 * tol + ctx.tol(0, 1e-2), lambda: f"|g|={np.linalg.norm(g(v))} after {out.state.iter_num}")
                ctx.check(case + ": not uphill", f(v) <= f(STARTS[0]), lambda: f"{f(v)}")
                consistent(ctx, case, obj, "array", out, False)


@group(cost=3, quick=("f64",))
def restarts(ctx):
    """resuming from a previous step at every split point keeps radius and count and continues the same iterates"""
    for obj, struct in (("valley", "array"), ("double well", "nested"), ("quadratic", "dict")):
        un, fl = STRUCT[struct]
        fun = supply(obj, struct, False, True)
        mk = lambda **o: TR(fun, has_aux=True, tol=1e-5, init_tr_radius=0.5, max_tr_radius=4.0, **o)
        for a, b in (itertools.product((1, 2, 4), (1, 3)) if ctx.thorough else [(1, 3), (4, 2)]):
            case = f"{obj} {struct} resumed after {a} for {b}"
            with ctx.case(case):
                one = mk(maxiter=a).run(un(jnp.asarray(STARTS[0])))
                s2 = mk(maxiter=b)
                st = s2.init_state(one)
                ctx.close(case + ": radius kept", st.tr_radius, np.asarray(one.state.tr_radius), rtol=1e-6)
                ctx.check(case + ": count kept", int(st.iter_num) == int(one.state.iter_num), lambda: f"{st.iter_num} vs {one.state.iter_num}")
                ctx.close(case + ": value on resume", st.value, np.asarray(one.state.value), rtol=1e-5, atol=1e-6)
                two = s2.run(one)
                p = one.params
                upd = jax.jit(lambda p, s: s2.update(p, s))
                n = 0
                for _ in range(b):
                    p, st = upd(p, st)
                    n += 1
                    if float(st.error) <= 1e-5:
                        break
                ctx.visit(case, a + b); ctx.step(a + b); ctx.trace(); ctx.outcome((obj, a, b))
                ctx.close(case + ": iterate", np.asarray(fl(two.params)), np.asarray(fl(p)), **tolx(ctx))
                ctx.check(case + ": total count", int(two.state.iter_num) == int(one.state.iter_num) + n, lambda: f"{two.state.iter_num} = {one.state.iter_num} + {n}")
                ctx.close(case + ": radius", two.state.tr_radius, np.asarray(st.tr_radius), rtol=1e-5)
                consistent(ctx, case, obj, struct, two, True)
    # exhausted radius: the objective refuses every step (undefined everywhere but at the start)
    with ctx.case("exhausted"):
        x0 = jnp.asarray([1.0, 2.0])
        def bad(x, blocked):
            return jnp.where(blocked & (jnp.sum((jax.lax.stop_gradient(x) - x0) ** 2) > 0), jnp.nan, 0.0) + jnp.sum(x ** 2)
        for r0, rmin, dec in ((1.0, 0.1, 0.25), (0.5, 1e-2, 0.5)):
            case = f"exhausted radius init {r0} min {rmin}"
            s = TR(bad, init_tr_radius=r0, min_tr_radius=rmin, decrease_factor=dec, tol=1e-3, maxiter=20)
            one = s.run(x0, True)
            ctx.visit(case, 20); ctx.step(20); ctx.trace(); ctx.outcome(case)
            ctx.close(case + ": radius at its minimum", one.state.tr_radius, rmin, rtol=1e-5)
            ctx.close(case + ": parameters kept", one.params, [1.0, 2.0])
            st = s.init_state(one, False)
            ctx.close(case + ": radius reset on resume", st.tr_radius, r0, rtol=1e-6)
            ctx.check(case + ": count kept on resume", int(st.iter_num) == int(one.state.iter_num), lambda: f"{st.iter_num}")
            two = s.run(one, False)
            ctx.close(case + ": continues to the optimum", two.params, [0.0, 0.0], atol=1e-3)
            ctx.check(case + ": count continues", int(two.state.iter_num) > int(one.state.iter_num), lambda: f"{one.state.iter_num} {two.state.iter_num}")


@group(cost=2)
def callbacks(ctx):
    """the callback sees every performed step, in order, with its parameters and state"""
    for obj, n, jit in (("valley", 6, True), ("double well", 4, True), ("quadratic", 30, True), ("valley", 2, False)):
        seen = []
        solver = TR(supply(obj, "array", False, True), has_aux=True, tol=1e-3, maxiter=n, maxiter_steihaug=4, callback=lambda s: seen.append((np.asarray(s.params), int(s.state.iter_num), float(s.state.value), float(s.state.tr_radius), bool(s.state.accepted))), jit=jit)
        plain = TR(supply(obj, "array", False, True), has_aux=True, tol=1e-3, maxiter=n, maxiter_steihaug=4)
        case = f"callback {obj} budget {n} jit={jit}"
        with ctx.case(case):
            out = solver.run(jnp.asarray(STARTS[0]))
            jax.block_until_ready(out)
            jax.effects_barrier()
            h = manual(plain, jnp.asarray(STARTS[0]), n, 1e-3)
            ctx.visit(case, len(h)); ctx.step(len(h)); ctx.trace(); ctx.outcome(case)
            ctx.check(case + ": one call per step", len(seen) == len(h), lambda: f"{len(seen)} calls for {len(h)} steps")
            for i, ((p, s), c) in enumerate(zip(h, seen)):
                ctx.close(f"{case} step {i + 1}: parameters", c[0], np.asarray(p), **tolx(ctx))
                ctx.check(f"{case} step {i + 1}: state", c[1] == i + 1 and c[4] == bool(s.accepted) and abs(c[2] - float(s.value)) < 1e-3 * (1 + abs(c[2])) and abs(c[3] - float(s.tr_radius)) < 1e-4, lambda: f"{c} vs {s}")
            ctx.close(case + ": same result with and without callback", out.params, np.asarray(h[-1][0]), **tolx(ctx))


@group(cost=2, quick=("f64",))
def solution_derivatives(ctx):
    """derivatives of the solution with respect to the problem data, forward and reverse, arrays and trees"""
    A = np.array([[2.0, 0.5], [0.5, 1.0]])
    def f(x, th, s=1.0):
        return s * (0.5 * x @ jnp.asarray(A) @ x - th @ x)
    tol = ctx.tol(1e-8, 1e-3)
    for th, vag in itertools.product(([1.0, -2.0], [0.0, 0.5]), (False, True)):
        fun = (lambda x, th, s=1.0: (f(x, th, s), s * (jnp.asarray(A) @ x - th))) if vag else f
        solver = TR(fun, value_and_grad=vag, tol=tol, maxiter=50)
        run = lambda t: solver.run(jnp.zeros(2), t).params
        want = np.linalg.inv(A)
        for mn, jac in (("reverse", jax.jacrev),):
            case = f"{mn} derivative of the quadratic solution at {th} value_and_grad={vag}"
            with ctx.case(case):
                ctx.visit(case); ctx.step(); ctx.trace(); ctx.outcome((mn, vag))
                ctx.close(case, jac(run)(jnp.asarray(th)), want, rtol=ctx.tol(1e-5, 1e-2), atol=ctx.tol(1e-6, 1e-2))
        with ctx.case("keyword data"):
            ctx.close("solution value", run(jnp.asarray(th)), want @ np.array(th), rtol=1e-3, atol=1e-3)
            ctx.close("keyword data does not move the minimiser", solver.run(jnp.zeros(2), jnp.asarray(th), s=3.0).params, want @ np.array(th), rtol=1e-2, atol=2e-3)
    # nonlinear: minimise (x^2 - a)^2/4 + b (y - x)^2/2 with a > 0: x = sqrt(a), y = x
    def g(p, d):
        return 0.25 * (p["x"] ** 2 - d["a"]) ** 2 + 0.5 * d["b"] * (p["y"] - p["x"]) ** 2
    for a in (4.0, 0.5):
        s = TR(g, tol=tol, maxiter=60)
        sol = lambda d: s.run({"x": jnp.asarray(1.5), "y": jnp.asarray(0.0)}, d).params
        for mn, jac in (("reverse", jax.jacrev),):
            case = f"{mn} derivative of the tree solution a={a}"
            with ctx.case(case):
                J = jac(sol)({"a": jnp.asarray(a), "b": jnp.asarray(2.0)})
                ctx.visit(case); ctx.step(); ctx.trace()
                w = 0.5 / np.sqrt(a)
                for k in ("x", "y"):
                    ctx.close(f"{case} d{k}/da", J[k]["a"], w, rtol=ctx.tol(1e-4, 2e-2), atol=1e-3)
                    ctx.close(f"{case} d{k}/db", J[k]["b"], 0.0, atol=ctx.tol(1e-5, 1e-2))
    ctx.sample("d solution / d data for quadratic and nonlinear problems through run()")
