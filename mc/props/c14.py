"""C14: ODE integration reproduces the one-step method along any time grid."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np

from magpi.ode import explicit_euler, odeint, rk4
from mc.core import group, tree_close


# ---- reference one-step methods on flat float64 vectors ----------------------------------------------------------
def np_euler(f, y, t, h):
    return y + h * f(y, t)


def np_rk4(f, y, t, h):
    k1 = f(y, t)
    k2 = f(y + h / 2 * k1, t + h / 2)
    k3 = f(y + h / 2 * k2, t + h / 2)
    k4 = f(y + h * k3, t + h)
    return y + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)


METHODS = {"rk4": (rk4, np_rk4), "euler": (explicit_euler, np_euler)}


def walk(step, f, y, ts):
    out = [np.asarray(y, float)]
    for a, b in zip(ts[:-1], ts[1:]):
        out.append(step(f, out[-1], a, b - a))
    return np.stack(out)


# right hand sides of (y (3,), t, a, c): jax version works on the flat vector too
def rhs(xp):
    return {
        "nonlinear": lambda y, t, a, c: xp.stack([a * y[1] * xp.sin(t), -y[0] * y[2] + c, 0.5 * t * t - y[2] * y[2]]),
        "time only": lambda y, t, a, c: xp.stack([a + 0 * y[0], c * t + 0 * y[1], t ** 3 - t * t + 0 * y[2]]),
        "linear": lambda y, t, a, c: a * xp.stack([y[1], -y[0], -0.5 * y[2] + c * t]),
        "autonomous": lambda y, t, a, c: xp.stack([y[0] * (1 - y[1]), y[1] * (y[0] - 1), a * y[2] + c]),
    }


RJ, RN = rhs(jnp), rhs(np)
Y0 = np.array([0.5, -1.0, 0.25])
LAT = [-0.5, 0.0, 0.125, 0.5, 1.25]


def grids(sizes):
    out = []
    for k in sizes:
        for c in itertools.combinations(LAT, k):
            out += [list(c), list(c[::-1])]
    out += [[0.0, 0.5, 0.25, 1.0], [0.0, 0.3, 0.3, 0.6], [1.0]]
    return [list(map(float, g)) for g in {tuple(g): 0 for g in out}]


STRUCT = {
    "vector": (lambda v: v, lambda t: t),
    "tuple": (lambda v: (v[0], v[1:]), lambda t: jnp.concatenate([jnp.reshape(t[0], (1,)), t[1]])),
    "nested": (lambda v: {"q": [v[0][None, None]], "p": (v[1], {"z": v[2:]})}, lambda t: jnp.stack([t["q"][0][0, 0], t["p"][0], t["p"][1]["z"][0]])),
    "matrix": (lambda v: v.reshape(1, 3), lambda t: t.reshape(3)),
}


def tol(ctx, want):
    s = 1 + np.abs(want).max(initial=0)
    return dict(rtol=ctx.tol(1e-9, 3e-4), atol=ctx.tol(1e-10, 3e-5) * s)


def unflat_traj(un, Y):
    """stack of structures from a trajectory of flat vectors"""
    return jax.tree_util.tree_map(lambda *z: np.stack([np.asarray(q) for q in z]), *[un(jnp.asarray(y)) for y in Y])


def _trajectories(ctx, mname, names):
    meth, step = METHODS[mname]
    for g, rn in itertools.product(grids((2, 3, 4, 5)), names):
        ts = np.array(g)
        a, c = 1.5, -0.5
        want = walk(step, lambda y, t: RN[rn](y, t, a, c), Y0, ts)
        for sname, (un, fl) in STRUCT.items():
            if not ctx.thorough and sname != "vector" and (len(g) not in (3, 4) or g[0] > g[-1]) :
                continue
            df = lambda y, t, a, c: un(RJ[rn](fl(y), t, a, c))
            case = f"{mname} {rn} grid {g} state {sname}"
            with ctx.case(case):
                ctx.visit(case, len(g)); ctx.step(len(g) - 1); ctx.trace(); ctx.outcome((mname, rn, len(g), sname))
                y0 = un(jnp.asarray(Y0))
                got = odeint(df, y0, jnp.asarray(ts), a, c, method=meth)
                tree_close(ctx, case, got, unflat_traj(un, want), **tol(ctx, want))


@group(cost=3)
def rk4_trajectories(ctx):
    """every ordered sub-grid of the time lattice (and non-monotone grids), each right-hand side and state structure"""
    _trajectories(ctx, "rk4", ["nonlinear", "time only"] if not ctx.thorough else list(RJ))
    ctx.sample("rk4 over all increasing and decreasing sub-grids of a 5-point time lattice")


@group(cost=3, quick=("f64",))
def euler_trajectories(ctx):
    _trajectories(ctx, "euler", ["nonlinear", "time only"] if not ctx.thorough else list(RJ))


@group(cost=2, quick=("f32",))
def histories(ctx):
    """unroll settings, jit, defaults, restarting at every split point, one-step calls, arguments"""
    for mname, rn in itertools.product(METHODS, ["nonlinear", "autonomous"] if not ctx.thorough else list(RJ)):
        meth, step = METHODS[mname]
        for g in ([0.0, 0.25, 0.5, 1.25, 1.5], [1.0, 0.5, 0.25, -0.5], [0.0, 0.5]):
            ts = np.array(g)
            want = walk(step, lambda y, t: RN[rn](y, t, 1.0, 0.5), Y0, ts)
            df = RJ[rn]
            J = jnp.asarray(ts)
            y0 = jnp.asarray(Y0)
            for unroll in (1, 2, 3, 7):
                case = f"{mname} {rn} grid {g} unroll {unroll}"
                with ctx.case(case):
                    ctx.visit(case, len(g)); ctx.step(len(g) - 1); ctx.trace(); ctx.outcome((mname, rn, len(g), unroll))
                    ctx.close(case, odeint(df, y0, J, 1.0, 0.5, unroll=unroll, method=meth), want, **tol(ctx, want))
            with ctx.case(f"{mname} {rn} jit"):
                ctx.close(f"{mname} {rn} {g} jit", jax.jit(lambda y, t, a, c: odeint(df, y, t, a, c, method=meth))(y0, J, 1.0, 0.5), want, **tol(ctx, want))
            for s in range(1, len(g)):
                case = f"{mname} {rn} grid {g} restarted at {s}"
                with ctx.case(case):
                    ctx.visit(case, len(g)); ctx.step(len(g) - 1); ctx.trace()
                    one = odeint(df, y0, J[: s + 1], 1.0, 0.5, method=meth)
                    two = odeint(df, one[-1], J[s:], 1.0, 0.5, method=meth)
                    ctx.close(case, np.concatenate([one, two[1:]]), want, **tol(ctx, want))
            with ctx.case("single step"):
                ctx.close(f"{mname} {rn} one step", meth(df, y0, ts[0], ts[1] - ts[0], 1.0, 0.5), want[1], **tol(ctx, want))
    with ctx.case("defaults"):
        f0 = lambda y, t: -y * t
        ts = np.array([0.0, 0.5, 0.75])
        want = walk(np_rk4, f0, np.array([2.0]), ts)
        ctx.close("default method is rk4, no extra arguments", odeint(f0, jnp.asarray([2.0]), jnp.asarray(ts)), want, **tol(ctx, want))
        ctx.close("scalar state", odeint(f0, jnp.asarray(2.0), jnp.asarray(ts)), want[:, 0], **tol(ctx, want))
        ctx.visit("defaults", 2); ctx.trace(2); ctx.step(4)
    with ctx.case("tree arguments"):
        f1 = lambda y, t, p, k: p["a"] * y + k[0] * t
        want = walk(np_rk4, lambda y, t: -0.5 * y + 2.0 * t, Y0, ts)
        ctx.close("pytree arguments", odeint(f1, jnp.asarray(Y0), jnp.asarray(ts), {"a": -0.5}, (2.0, 3.0)), want, **tol(ctx, want))
        own = lambda df, y, t, dt, *a: y + dt * df(y, t + dt, *a)
        ctx.close("user-supplied one-step method", odeint(f1, jnp.asarray(Y0), jnp.asarray(ts), {"a": -0.5}, (2.0, 3.0), method=own), walk(lambda f, y, t, h: y + h * f(y, t + h), lambda y, t: -0.5 * y + 2.0 * t, Y0, ts), **tol(ctx, want))
        ctx.visit("tree args", 2); ctx.trace(2); ctx.step(4)
    with ctx.case("batch"):
        Y = np.stack([Y0, 2 * Y0, -Y0])
        got = jax.vmap(lambda y: odeint(RJ["nonlinear"], y, jnp.asarray(ts), 1.0, 0.5))(jnp.asarray(Y))
        ctx.close("vmap over initial states", got, np.stack([walk(np_rk4, lambda y, t: RN["nonlinear"](y, t, 1.0, 0.5), y, ts) for y in Y]), **tol(ctx, Y))
        ctx.visit("vmap", 3); ctx.trace(3); ctx.step(6)


@group(cost=2)
def exactness_and_order(ctx):
    """exact on polynomials in t; convergence order on problems with known solutions"""
    for mname, deg in (("euler", 0), ("rk4", 3)):
        meth = METHODS[mname][0]
        for k in range(deg + 1):
            for g in grids((2, 3, 4)):
                case = f"{mname} y' = {k + 1} t^{k} on {g}"
                with ctx.case(case):
                    ctx.visit(case, len(g)); ctx.step(len(g) - 1); ctx.trace(); ctx.outcome((mname, k, len(g)))
                    t = np.array(g)
                    want = 1.5 + t ** (k + 1) - t[0] ** (k + 1)
                    ctx.close(case, odeint(lambda y, t: (k + 1) * t ** k + 0 * y, jnp.asarray(1.5), jnp.asarray(t), method=meth), want, **tol(ctx, want))
    probs = {"y'=-y": (lambda y, t: -y, lambda t: np.exp(-t), 1.0), "y'=2ty": (lambda y, t: 2 * t * y, lambda t: np.exp(t * t), 1.0), "y'=cos t y": (lambda y, t: jnp.cos(t) * y, lambda t: np.exp(np.sin(t)), 1.0), "y'=y^2 shift": (lambda y, t: -y * y + t - t, lambda t: 1 / (1 + t), 1.0)}
    for (pn, (f, sol, y0)), (mname, order), (a, b) in itertools.product(probs.items(), (("euler", 1), ("rk4", 4)), ((0.0, 1.0), (0.5, -0.25))):
        case = f"order of {mname} on {pn} over ({a},{b})"
        with ctx.case(case):
            errs = []
            for n in (8, 16, 32):
                # non-uniform grid refined consistently
                s = np.linspace(0, 1, n + 1)
                ts = a + (b - a) * (0.7 * s + 0.3 * s * s)
                y = odeint(f, jnp.asarray(float(sol(np.array(a)))), jnp.asarray(ts), method=METHODS[mname][0])
                errs.append(np.abs(np.asarray(y, float) - sol(ts)).max())
            ctx.visit((case), 3); ctx.step(56); ctx.trace(3)
            if ctx.x64 or order == 1:
                p = np.log2(errs[0] / errs[2]) / 2
                ctx.check(case, p > order - 0.4, f"observed order {p:.2f}, errors {errs}")
            else:
                ctx.check(case, errs[1] < 1e-4, f"errors {errs}")
    ctx.sample("convergence order measured on consistently refined non-uniform grids, forward and backward in time")


@group(cost=3, quick=("f64",))
def sensitivities(ctx):
    """forward and reverse derivatives of the trajectory with respect to the state, parameters and times"""
    def cd(fun, x, eps=1e-6):
        x = np.asarray(x, float)
        out = []
        for i in range(x.size):
            e = np.zeros(x.size); e[i] = eps
            out.append((fun(x + e.reshape(x.shape)) - fun(x - e.reshape(x.shape))) / (2 * eps))
        return np.stack(out, -1)

    for mname, rn, g in itertools.product(METHODS, ["nonlinear", "linear", "time only"], ([0.0, 0.25, 1.0], [0.5, 0.25, -0.25, -0.5])):
        meth, step = METHODS[mname]
        ts = np.array(g)
        W = np.linspace(-1, 1, len(g) * 3).reshape(len(g), 3)
        ref = lambda y, ac, t: walk(step, lambda y, s: RN[rn](y, s, ac[0], ac[1]), y, t)
        run = lambda y, ac, t: odeint(RJ[rn], y, t, ac[0], ac[1], method=meth)
        ac = np.array([1.5, -0.5])
        args = (Y0, ac, ts)
        for k, nm in enumerate(("initial state", "parameters", "times")):
            fun = lambda z: ref(*[z if i == k else args[i] for i in range(3)])
            want = cd(fun, args[k])  # (T, 3, n)
            for mode, jac in (("forward", jax.jacfwd), ("reverse", jax.jacrev)):
                case = f"{mode} derivative of {mname} {rn} on {g} with respect to {nm}"
                with ctx.case(case):
                    ctx.visit(case, want.size); ctx.step(len(g) - 1); ctx.trace(); ctx.outcome((mname, rn, nm, mode))
                    got = jac(run, k)(*[jnp.asarray(z) for z in args])
                    ctx.close(case, got, want, rtol=ctx.tol(1e-6, 2e-3), atol=ctx.tol(1e-7, 2e-3))
    with ctx.case("tree gradient"):
        un, fl = STRUCT["nested"]
        ts = jnp.asarray([0.0, 0.5, 1.0])
        loss = lambda y0, p: jnp.sum(fl(jax.tree_util.tree_map(lambda z: z[-1], odeint(lambda y, t, p: un(p["k"] * fl(y)), y0, ts, p))) ** 2)
        g = jax.grad(loss, (0, 1))(un(jnp.asarray(Y0)), {"k": jnp.asarray(0.3)})
        amp = (1 + 0.15 + 0.15 ** 2 / 2 + 0.15 ** 3 / 6 + 0.15 ** 4 / 24)
        ctx.close("gradient wrt a pytree state", fl(g[0]), 2 * Y0 * amp ** 4, rtol=1e-4)
        d = 4 * amp ** 3 * 0.5 * (1 + 0.15 + 0.15 ** 2 / 2 + 0.15 ** 3 / 6) * np.sum(Y0 ** 2)
        ctx.close("gradient wrt pytree parameters", g[1]["k"], d, rtol=1e-4)
        ctx.visit("tree grad"); ctx.trace(); ctx.step(2)
    ctx.sample("full Jacobians of trajectories wrt y0, parameters and the time grid, forward and reverse, vs numpy differences")
