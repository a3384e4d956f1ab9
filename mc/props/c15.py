"""C15: each trust-region step follows the acceptance and radius rules.

The real TR.update is driven as a transition system.  The environment's only freedom is the value of the objective at
points not visited before: the objective is q(x) + K_i in a tiny neighbourhood of the i-th trial point ("tape"), so it is one
fixed function along a history and has q's exact gradient and Hessian at every iterate.  From every reached state, a probe
update reveals the trial point, then one successor per outcome class (ratio below / between / above each threshold,
undefined, infinite) is produced by extending the tape.  All histories up to the depth bound are explored.
"""
import itertools

import jax
import jax.numpy as jnp
import numpy as np

from magpi.tr import TR
from mc.core import group

NTAPE = 8


def problem(H, b, c):
    H, b = np.asarray(H, float), np.asarray(b, float)
    return H, b, float(c)


PROBLEMS = {
    "linear 1d": problem([[0.0]], [4.0], 1.0),
    "convex 2d": problem([[2.0, 0.5], [0.5, 1.0]], [-3.0, 4.0], 0.0),
    "indefinite 2d": problem([[1.0, 0.25], [0.25, -2.0]], [1.0, -0.5], -2.0),
    "singular 3d": problem([[2.0, 0, 1.0], [0, 0, 0], [1.0, 0, 3.0]], [1.0, -1.0, 2.0], 0.5),
    "steep convex 2d": problem([[8.0, 0.0], [0.0, 8.0]], [-2.0, 1.0], 0.0),
}
STRUCT = {
    "array": (lambda v: v, lambda t: t),
    "tree": (lambda v: {"a": v[0], "b": (v[1:],)}, lambda t: jnp.concatenate([jnp.reshape(t["a"], (1,)), t["b"][0]])),
}


def make_fun(H, b, c, un, fl, vag, aux, rad):
    Hj, bj = jnp.asarray(H), jnp.asarray(b)

    def offset(v, pts, K):
        d2 = jnp.sum((pts - v) ** 2, -1)
        return jnp.sum(jnp.where(d2 < rad * rad, K, 0.0))

    def value(v, pts, K):
        return c + bj @ v + 0.5 * v @ Hj @ v + offset(jax.lax.stop_gradient(v), pts, K)

    def auxof(v, pts):
        return {"sum": jnp.sum(v) * 3, "v": 2 * v}

    def fun(p, pts, K):
        v = fl(p)
        y = value(v, pts, K)
        if vag:
            g = un(bj + Hj @ v)
            return ((y, auxof(v, pts)), g) if aux else (y, g)
        return (y, auxof(v, pts)) if aux else y

    return fun


def history_check(ctx, label, opts, prob, struct, vag, aux, x0, depth, outcomes, exact=False):
    H, b, c = PROBLEMS[prob]
    n = len(b)
    un, fl = STRUCT[struct]
    rad = 1e-3 if not ctx.x64 else 1e-6
    fun = make_fun(H, b, c, un, fl, vag, aux, rad)
    o = dict(init_tr_radius=1.0, max_tr_radius=2.0, min_tr_radius=1e-4, rho_increase=0.75, increase_factor=2, rho_decrease=0.25, decrease_factor=0.25, rho_accept=0.25)
    o.update(opts)
    solver = TR(fun, value_and_grad=vag, has_aux=aux, **opts)
    update = jax.jit(lambda p, s, pts, K: solver.update(p, s, pts, K))
    init = jax.jit(lambda p, pts, K: solver.init_state(p, pts, K))
    far = np.full((NTAPE, n), 1e3)
    q = lambda x: c + b @ x + 0.5 * x @ H @ x
    rt, at = ctx.tol(1e-8, 2e-3), ctx.tol(1e-8, 2e-3)

    def fval(x, pts, K):
        y = q(x)
        for p, k in zip(pts, K):
            if np.sum((p - x) ** 2) < rad * rad:
                y = y + k
        return y

    mach = 2.3e-16 if ctx.x64 else 1.2e-7

    def moved_ratio_lost(pred, old):
        return 0 < pred < 3e3 * mach * (1 + abs(old))

    def eqf(a, w):
        a, w = float(a), float(w)
        return (np.isnan(a) and np.isnan(w)) or a == w or abs(a - w) <= at + rt * abs(w)

    def consistent(case, x, st, pts, K):
        g = b + H @ x
        ctx.check(case + ": value belongs to the parameters", eqf(st.value, fval(x, pts, K)), lambda: f"value {st.value}, objective {fval(x, pts, K)} at {x}")
        ctx.close(case + ": gradient belongs to the parameters", np.asarray(fl(st.grad)), g, rtol=rt, atol=at)
        ctx.check(case + ": gradient norm", eqf(st.error, np.linalg.norm(g)), lambda: f"error {st.error}, |gradient| {np.linalg.norm(g)}")
        if aux:
            ctx.close(case + ": aux belongs to the parameters", np.asarray(st.aux["v"]), 2 * x, rtol=rt, atol=at)
            ctx.check(case + ": aux scalar", eqf(st.aux["sum"], 3 * x.sum()), lambda: f"{st.aux}")

    K0 = np.zeros(NTAPE)
    p0 = un(jnp.asarray(x0))
    s0 = init(p0, jnp.asarray(far), jnp.asarray(K0))
    consistent(f"{label} initial state", np.asarray(x0, float), s0, far, K0)
    ctx.check(f"{label} initial radius", abs(float(s0.tr_radius) - o["init_tr_radius"]) < 1e-6, lambda: f"{s0.tr_radius}")
    ctx.check(f"{label} initial count", int(s0.iter_num) == 0, lambda: f"{s0.iter_num}")
    # a node: (params tree, state, tape points, tape values, number of tape entries, history)
    frontier = [(p0, s0, far, K0, 0, ())]
    ctx.visit((label, ()))
    while frontier:
        nxt = []
        for prm, st, pts, K, m, hist in frontier:
            if len(hist) >= depth:
                continue
            x = np.asarray(fl(prm), float)
            R = float(st.tr_radius)
            here = f"{label} history {list(hist)}"
            with ctx.case(here):
                probe = update(prm, st, jnp.asarray(pts), jnp.asarray(K))
                if R <= o["min_tr_radius"] * (1 + 1e-6):
                    ctx.visit((label, hist, "min")); ctx.step(); ctx.trace(); ctx.outcome("at minimum radius")
                    same = jax.tree_util.tree_map(lambda a, w: bool(np.array_equal(np.asarray(a), np.asarray(w), equal_nan=True)), (probe.params, probe.state), (prm, st))
                    ctx.check(here + ": minimum radius leaves everything unchanged", all(jax.tree_util.tree_leaves(same)), lambda: f"changed: {same}")
                    continue
                p = np.asarray(fl(probe.state.subproblem_result.p), float)
                ln = np.linalg.norm(p)
                ctx.check(here + ": trial step within the radius", ln <= R * (1 + ctx.tol(1e-9, 1e-5)), lambda: f"|p|={ln}, radius {R}")
                g = b + H @ x
                pred = -(g @ p + 0.5 * p @ H @ p)
                if moved_ratio_lost(pred, fval(x, pts, K)):
                    continue  # predicted reduction below the rounding of the objective: outside the bound
                trial = x + p
                known = [i for i in range(m) if np.sum((pts[i] - trial) ** 2) < rad * rad]
                moved = ln > 0
                if moved and ln <= 4 * rad:
                    continue  # trial points closer than the resolution of the tape: outside the bound
                if not moved:
                    choices = [("no step", None)]
                elif known or np.sum((trial - x) ** 2) < rad * rad:
                    choices = [("revisited", None)]
                else:
                    choices = outcomes
                old = fval(x, pts, K)
                for name, rho in choices:
                    P2, K2, m2 = pts, K, m
                    if rho is not None:
                        P2, K2 = pts.copy(), K.copy()
                        P2[m] = trial
                        if rho == "nan":
                            K2[m] = np.nan
                        elif rho == "inf":
                            K2[m] = np.inf
                        else:
                            K2[m] = (old - q(trial)) - rho * pred
                        m2 = m + 1
                        out = update(prm, st, jnp.asarray(P2), jnp.asarray(K2))
                    else:
                        out = probe
                    h2 = hist + (name,)
                    case = f"{label} history {list(h2)}"
                    ctx.visit((label, h2)); ctx.step(); ctx.trace()
                    ns = out.state
                    xn = np.asarray(fl(out.params), float)
                    new = fval(trial, P2, K2)
                    r = (old - new) / pred if pred else np.nan
                    if np.isnan(new):
                        r = -np.inf
                    if rho is not None and not isinstance(rho, str) and exact:
                        r = rho  # dyadic data: the ratio is hit exactly
                    if not moved:
                        # nothing to gain (converged subproblem): parameters stay
                        ctx.close(case + ": parameters", xn, x, rtol=rt, atol=at)
                        consistent(case, xn, ns, P2, K2)
                        ctx.check(case + ": radius", float(ns.tr_radius) <= R * (1 + 1e-6), lambda: f"{R} -> {ns.tr_radius}")
                        continue
                    acc = r >= o["rho_accept"]
                    ctx.outcome((bool(acc), name, r < o["rho_decrease"], r > o["rho_increase"], bool(np.isclose(ln, R, rtol=1e-4))))
                    ctx.check(case + ": accepted exactly when the ratio reaches the threshold", bool(ns.accepted) == bool(acc), lambda: f"ratio {r}, threshold {o['rho_accept']}, accepted={bool(ns.accepted)}")
                    ctx.close(case + ": parameters", xn, trial if acc else x, rtol=rt, atol=at)
                    consistent(case, xn, ns, P2, K2)
                    if np.isfinite(r):
                        ctx.check(case + ": reported ratio", abs(float(ns.rho) - r) <= ctx.tol(1e-6, 5e-3) * (1 + abs(r)), lambda: f"reported {ns.rho}, expected {r}")
                    if acc:
                        ctx.check(case + ": acceptance never increases the objective", new <= old + at, lambda: f"{old} -> {new}")
                    limit = np.isclose(ln, R, rtol=1e-4)
                    if r < o["rho_decrease"]:
                        want = R * o["decrease_factor"]
                    elif r > o["rho_increase"] and limit:
                        want = min(R * o["increase_factor"], o["max_tr_radius"])
                    else:
                        want = R
                    want = max(want, o["min_tr_radius"])
                    ctx.check(case + ": radius rule", abs(float(ns.tr_radius) - want) <= ctx.tol(1e-9, 1e-5) * want, lambda: f"radius {R} -> {float(ns.tr_radius)}, expected {want} (ratio {r}, |p|={ln})")
                    ctx.check(case + ": iteration count", int(ns.iter_num) == int(st.iter_num) + 1, lambda: f"{st.iter_num} -> {ns.iter_num}")
                    nxt.append((out.params, ns, P2, K2, m2, h2))
        frontier = nxt


def classes(o, full=True):
    """one ratio per region delimited by the thresholds, close to each threshold from both sides"""
    acc, dec, inc = o.get("rho_accept", 0.25), o.get("rho_decrease", 0.25), o.get("rho_increase", 0.75)
    e = 0.02
    out = [("negative", -1.5), ("below accept", acc - e), ("above accept", acc + e), ("above increase", inc + e), ("undefined", "nan")]
    if dec - acc > 2.5 * e:
        out += [("below decrease", dec - e), ("above decrease", dec + e)]
    if full:
        out += [("below increase", inc - e), ("large", 3.0), ("infinite", "inf")]
    return out


OPTS = {
    "defaults": {},
    "other thresholds": dict(rho_accept=0.05, rho_decrease=0.35, rho_increase=0.9, increase_factor=3.0, decrease_factor=0.5, max_tr_radius=10.0),
    "tight maximum": dict(init_tr_radius=0.5, max_tr_radius=0.75, min_tr_radius=1e-3),
    "large minimum": dict(init_tr_radius=1.0, max_tr_radius=4.0, min_tr_radius=0.2),
    "zero accept": dict(rho_accept=0.0, rho_decrease=0.1, rho_increase=0.5),
    "single CG step": dict(maxiter_steihaug=1, init_tr_radius=0.5),
}
START = {1: [0.5], 2: [1.0, -0.5], 3: [0.5, 1.0, -1.0]}


def _explore(ctx, combos, depth):
    for on, prob, struct, vag, aux in combos:
        label = f"[{on}; {prob}; {struct}; value_and_grad={vag} has_aux={aux}]"
        x0 = START[len(PROBLEMS[prob][1])]
        with ctx.case(label):
            history_check(ctx, label, OPTS[on], prob, struct, vag, aux, x0, depth, classes(OPTS[on], ctx.thorough or depth <= 2))


@group(cost=3)
def default_rules(ctx):
    _explore(ctx, [("defaults", pr, "array", False, False) for pr in PROBLEMS], ctx.pick(3, 4))
    ctx.sample("all histories of outcome classes up to the depth bound with default options on 5 quadratic models")


@group(cost=3)
def other_rules(ctx):
    _explore(ctx, [("other thresholds", pr, "array", False, False) for pr in ("convex 2d", "indefinite 2d", "linear 1d")] + [("zero accept", "singular 3d", "array", False, False)], ctx.pick(3, 4))


@group(cost=3)
def radius_limits(ctx):
    _explore(ctx, [(on, pr, "array", False, False) for on in ("tight maximum", "large minimum") for pr in ("convex 2d", "indefinite 2d")] + [("single CG step", "convex 2d", "array", False, False)], ctx.pick(3, 4))


@group(cost=3)
def objective_forms(ctx):
    """gradient supplied or derived, auxiliary output, parameter trees"""
    _explore(ctx, [("other thresholds", "singular 3d", s, v, a) for s in STRUCT for v in (False, True) for a in (False, True)], ctx.pick(2, 3))


@group(cost=2)
def long_histories(ctx):
    """deeper histories over the coarse alphabet shrink / keep / grow / undefined"""
    coarse = [("reject", -1.0), ("keep", 0.5), ("grow", 1.0), ("undefined", "nan")]
    for on, prob in (("defaults", "convex 2d"), ("large minimum", "indefinite 2d"), ("tight maximum", "singular 3d")):
        label = f"[{on}; {prob}; long]"
        with ctx.case(label):
            history_check(ctx, label, OPTS[on], prob, "array", False, True, START[len(PROBLEMS[prob][1])], ctx.pick(5, 7), coarse)


@group(modes=("f64",))
def exact_ties(ctx):
    """ratios exactly at the thresholds (dyadic data, exact arithmetic): reaching accepts, only strict excess grows, only strict deficit shrinks"""
    for on, opts in (("defaults", {}), ("dyadic", dict(rho_accept=0.125, rho_decrease=0.5, rho_increase=0.875, max_tr_radius=8.0)), ("equal", dict(rho_accept=0.5, rho_decrease=0.5, rho_increase=0.5))):
        acc, dec, inc = opts.get("rho_accept", 0.25), opts.get("rho_decrease", 0.25), opts.get("rho_increase", 0.75)
        out = [("at accept", acc), ("at decrease", dec), ("at increase", inc), ("one", 1.0)]
        label = f"[exact ties {on}]"
        with ctx.case(label):
            history_check(ctx, label, opts, "linear 1d", "array", False, False, [0.5], 3, out, exact=True)
    ctx.sample("linear objective with dyadic slope: ratio exactly equal to rho_accept / rho_decrease / rho_increase")


@group(modes=("f64",))
def thresholds(ctx):
    """construction: inconsistent thresholds are refused, consistent ones accepted"""
    vals = [0.0, 0.1, 0.25, 0.5, 0.75]
    for a, d in itertools.product(vals, vals):
        case = f"rho_accept={a} rho_decrease={d}"
        ctx.visit(case); ctx.step(); ctx.trace(); ctx.outcome(a <= d)
        mk = lambda: TR(lambda x: jnp.sum(x ** 2), rho_accept=a, rho_decrease=d)
        if a > d:
            ctx.raises(case + " refused", mk, ValueError)
        else:
            with ctx.case(case):
                mk()
    ctx.raises("rho_accept above the default rho_decrease refused", lambda: TR(lambda x: jnp.sum(x ** 2), rho_accept=0.3), ValueError)


@group(cost=2)
def variants(ctx):
    """damped model, finite-difference Hessian products, updates with an OptStep instead of parameters, un-jitted updates"""
    H, b, c = PROBLEMS["convex 2d"]
    f = lambda x: c + jnp.asarray(b) @ x + 0.5 * x @ jnp.asarray(H) @ x
    x0 = jnp.asarray([1.0, -0.5])
    q = lambda x: c + b @ x + 0.5 * x @ H @ x
    for nm, opts in (("plain", {}), ("damped", dict(damping_factor=1.5)), ("finite differences", dict(approx_hvp=True, fd_h=1e-2)), ("no jit", dict(jit=False)), ("unrolled", dict(unroll=True, maxiter_steihaug=3)), ("damped finite differences", dict(approx_hvp=True, damping_factor=0.5, fd_h=1e-2))):
        for r0 in (0.25, 1.0, 10.0):
            case = f"{nm} radius {r0}"
            with ctx.case(case):
                s = TR(f, init_tr_radius=r0, max_tr_radius=20.0, tol=1e-3, **opts)
                st = s.init_state(x0)
                prm = x0
                for k in range(3):
                    x = np.asarray(prm, float)
                    R = float(st.tr_radius)
                    out = s.update(prm, st)
                    ctx.visit((case, k)); ctx.step(); ctx.trace(); ctx.outcome(nm)
                    p = np.asarray(out.state.subproblem_result.p, float)
                    g = b + H @ x
                    d = opts.get("damping_factor", 0.0)
                    pred = -(g @ p + 0.5 * p @ H @ p)
                    if np.linalg.norm(p) > 1e-3:
                        # the trial step minimises the damped model at least as well as the Cauchy step
                        Hd = H + d * np.eye(2)
                        md = lambda z: g @ z + 0.5 * z @ Hd @ z
                        t = min(R / np.linalg.norm(g), (g @ g) / (g @ Hd @ g))
                        ctx.check(f"{case} step {k}: Cauchy decrease", md(p) <= md(-t * g) + ctx.tol(1e-7, 1e-3), lambda: f"{md(p)} vs {md(-t * g)}")
                        rho = (q(x) - q(x + p)) / pred
                        ctx.check(f"{case} step {k}: ratio", abs(float(out.state.rho) - rho) < ctx.tol(1e-4, 5e-2), lambda: f"{out.state.rho} vs {rho}")
                        ctx.close(f"{case} step {k}: accepted step", out.params, x + p, rtol=1e-5, atol=1e-5)
                        lim = np.isclose(np.linalg.norm(p), R, rtol=1e-4)
                        ctx.check(f"{case} step {k}: radius", abs(float(out.state.tr_radius) - (min(2 * R, 20.0) if lim else R)) < 1e-5 * R, lambda: f"{R} -> {out.state.tr_radius}, |p|={np.linalg.norm(p)}")
                        viaopt = s.update(out, out.state)
                        vianormal = s.update(out.params, out.state)
                        ctx.close(f"{case} step {k}: update(OptStep) = update(params)", viaopt.params, np.asarray(vianormal.params), rtol=1e-5, atol=1e-6)
                    ctx.close(f"{case} step {k}: value", out.state.value, q(np.asarray(out.params, float)), rtol=1e-4, atol=1e-4)
                    prm, st = out.params, out.state
