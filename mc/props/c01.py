"""C01: R-function systems act as Boolean algebra on point membership."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np

import magpi.r_fun as rf
from mc.core import group
from mc.ref import BIN, kleene



def systems():
    return [
        ("R_alpha(-0.9)", rf.RAlpha(-0.9)), ("R_alpha(-0.5)", rf.RAlpha(-0.5)), ("R_alpha(0)", rf.RAlpha(0)),
        ("r0", rf.r0), ("R_alpha(0.5)", rf.RAlpha(0.5)), ("R_alpha(0.9)", rf.RAlpha(0.9)), ("r1", rf.r1),
        ("R_alpha(1)", rf.RAlpha(1)), ("R_alpha_m(1,0)", rf.RAlphaM(1, 0.0)), ("R_alpha_m(2,0.5)", rf.RAlphaM(2, 0.5)),
        ("R_alpha_m(3,1)", rf.RAlphaM(3, 1)), ("R_alpha_m(0,-0.5)", rf.RAlphaM(0, -0.5)), ("R_alpha_m(1.5,1.0)", rf.RAlphaM(1.5, 1.0)),
        ("rp2", rf.rp2), ("rp4", rf.rp4), ("R_p(6)", rf.RP(6)), ("R_p(8)", rf.RP(8)),
    ]


def leaf(i):
    return lambda x: x[i]


def trees(nleaf, ctx):
    """every expression up to depth 2 (left, right and balanced), negation at leaves / inner nodes / root"""
    L = [("leaf", i) for i in range(nleaf)]
    out = [("neg", L[0]), ("neg", ("neg", L[0]))]
    d1 = [(op, L[i], L[j]) for op in BIN for i in range(2) for j in range(2)]
    out += d1 + [("neg", t) for t in d1]
    d1n = [(op, a, b) for op in BIN for a, b in [(("neg", L[0]), L[1]), (L[0], ("neg", L[1])), (("neg", L[0]), ("neg", L[1]))]]
    out += d1n
    pure = [(op, L[0], L[1]) for op in BIN]
    for op in BIN:
        for t in pure:
            out += [(op, t, L[2]), (op, L[2], t), (op, t, L[0]), (op, ("neg", t), L[2])]
        for t in pure:
            for op2 in BIN:
                out += [(op, t, (op2, L[2], L[0]))]
                if nleaf > 3:
                    out += [(op, t, (op2, L[2], L[3])), (op, (op2, t, L[2]), L[3]), (op, L[3], (op2, L[2], t))]
    return out


def build(sysm, t):
    if t[0] == "leaf":
        return leaf(t[1])
    if t[0] == "neg":
        return sysm.negate(build(sysm, t[1]))
    return getattr(sysm, t[0])(build(sysm, t[1]), build(sysm, t[2]))


def ref(t, s):
    if t[0] == "leaf":
        return s[:, t[1]]
    if t[0] == "neg":
        return -ref(t[1], s)
    return kleene(t[0], ref(t[1], s), ref(t[2], s))


def show(t):
    if t[0] == "leaf":
        return "ABCD"[t[1]]
    return f"{t[0]}({', '.join(show(u) for u in t[1:])})"


def size(t):
    return 1 + sum(size(u) for u in t[1:]) if t[0] != "leaf" else 0


def sign_ok(ctx, v, want, scale):
    tol = ctx.tol(1e-9, 2e-4) * scale
    with np.errstate(all="ignore"):
        return np.isfinite(v) & np.where(want == 0, np.abs(v) <= tol, v * want > 0)


def run_trees(ctx, which):
    lat = [-1.5, -1.0, 0.0, 0.75, 1.0] if not ctx.thorough else [-1.5, -1.0, -0.25, 0.0, 0.75, 1.0, 2.0]
    nleaf = ctx.pick(3, 4)
    ts = trees(nleaf, ctx)
    pts = np.array(list(itertools.product(lat, repeat=nleaf)))
    want = {t: ref(t, np.sign(pts)) for t in ts}
    for name, sysm in systems()[which]:
        if name == "R_alpha_m(3,1)" and not ctx.x64:
            continue  # degree 4 per level: depth-2 xor leaves the single precision range
        with ctx.case(f"{name}: building expressions"):
            for k in range(0, len(ts), 120):
                chunk = ts[k:k + 120]
                fs = [build(sysm, t) for t in chunk]
                xs = jnp.asarray(pts)
                vals = np.stack([np.asarray(jax.vmap(f)(xs)) for f in fs], -1)
                for i, t in enumerate(chunk):
                    ctx.visit((name, t), len(pts))
                    ctx.step(size(t) * len(pts))
                    ctx.trace(len(pts))
                    v = vals[:, i]
                    ctx.outcome((name, show(t), tuple(sorted(set(want[t])))))
                    # composed values of the unnormalised systems scale like |x|^(1+m)^depth
                    scale = 1.0 + float(np.max(np.abs(v[np.isfinite(v)]), initial=0.0))
                    ctx.mask(f"{name}: sign of {show(t)}", sign_ok(ctx, v, want[t], scale),
                             lambda ix, v=v, t=t: f"operands {pts[ix[0]].tolist()} give {v[ix[0]]!r}, expected sign {int(want[t][ix[0]])}")
        ctx.sample(f"{name}: {show(ts[-1])} on {len(pts)} sign/value assignments")


@group(cost=5)
def trees_a(ctx):
    run_trees(ctx, slice(0, 5))


@group(cost=5)
def trees_b(ctx):
    run_trees(ctx, slice(5, 9))


@group(cost=5)
def trees_c(ctx):
    run_trees(ctx, slice(9, 13))


@group(cost=5)
def trees_d(ctx):
    run_trees(ctx, slice(13, None))


@group(modes=("f64",), tiers=("thorough",), cost=20)
def trees_depth3(ctx):
    """balanced depth-3 trees: op(op(op(A,B),C), op(C, op(A,B))) for every choice of the five operators"""
    L = [("leaf", i) for i in range(3)]
    ts = [(a, (b, (c, L[0], L[1]), L[2]), (d, L[2], (e, L[1], L[0])))
          for a, b, c, d, e in itertools.product(BIN, BIN, ["union", "intersection", "xor"], BIN, ["intersection", "implication", "equivalence"])]
    pts = np.array(list(itertools.product([-1.5, -0.5, 0.0, 0.75, 1.0], repeat=3)))
    for name, sysm in [s for s in systems() if s[0] in ("r0", "r1", "rp4", "R_alpha(0.5)", "R_alpha_m(1,0)")]:
        for k in range(0, len(ts), 150):
            chunk = ts[k:k + 150]
            fs = [build(sysm, t) for t in chunk]
            vals = np.asarray(jax.jit(jax.vmap(lambda x: jnp.stack([f(x) for f in fs])))(jnp.asarray(pts)))
            for i, t in enumerate(chunk):
                want = ref(t, np.sign(pts))
                ctx.visit((name, t), len(pts)); ctx.step(size(t) * len(pts)); ctx.trace(len(pts))
                v = vals[:, i]
                scale = 1.0 + float(np.max(np.abs(v[np.isfinite(v)]), initial=0.0))
                ctx.mask(f"{name}: sign of {show(t)}", sign_ok(ctx, v, want, scale),
                         lambda ix: f"operands {pts[ix[0]].tolist()} give {v[ix[0]]!r}, expected sign {int(want[ix[0]])}")


@group()
def pairs(ctx):
    """conjunction / disjunction on a dense value lattice: arrays, scalars, jit; sign and exact min/max"""
    mags = [0.0, 1e-4, 1e-2, 0.125, 0.5, 1.0, 1.0 + 2 ** -10, 2.0, 3.0, 40.0, 1e3]
    lat = np.array(sorted({s * m for m in mags for s in (-1, 1)}))
    A, B = [g.ravel() for g in np.meshgrid(lat, lat)]
    # keep pairs whose ratio single precision can resolve
    with np.errstate(all="ignore"):
        keep = (np.abs(A) == 0) | (np.abs(B) == 0) | (np.maximum(np.abs(A), np.abs(B)) <= 400 * np.minimum(np.abs(A), np.abs(B)))
    A, B = A[keep], B[keep]
    for name, sysm in systems():
        with ctx.case(f"{name}: conjunction/disjunction"):
            f = lambda a, b: (sysm.conjunction(a, b), sysm.disjunction(a, b))
            runs = [("vmap", jax.vmap(f)(jnp.asarray(A), jnp.asarray(B))), ("jit", jax.jit(jax.vmap(f))(jnp.asarray(A), jnp.asarray(B)))]
            sc = [f(jnp.asarray(a), jnp.asarray(b)) for a, b in list(zip(A, B))[::7]]
            py = [f(float(a), float(b)) for a, b in list(zip(A, B))[::11]]
            for how, (c, d) in runs:
                c, d = np.asarray(c), np.asarray(d)
                ctx.visit((name, how), len(A)); ctx.step(2 * len(A)); ctx.trace(len(A))
                scale = 1 + np.maximum(np.abs(A), np.abs(B)) ** (1 + getattr(sysm, "m", 0))
                ctx.mask(f"{name} ({how}): conjunction sign", sign_ok(ctx, c, kleene("intersection", np.sign(A), np.sign(B)), scale),
                         lambda ix: f"conjunction({A[ix[0]]}, {B[ix[0]]}) = {c[ix[0]]!r}")
                ctx.mask(f"{name} ({how}): disjunction sign", sign_ok(ctx, d, kleene("union", np.sign(A), np.sign(B)), scale),
                         lambda ix: f"disjunction({A[ix[0]]}, {B[ix[0]]}) = {d[ix[0]]!r}")
                if name in ("r1", "R_alpha(1)"):
                    ctx.close(f"{name} ({how}): conjunction is min", c, np.minimum(A, B), rtol=ctx.tol(1e-12, 1e-6), atol=ctx.tol(1e-13, 1e-5))
                    ctx.close(f"{name} ({how}): disjunction is max", d, np.maximum(A, B), rtol=ctx.tol(1e-12, 1e-6), atol=ctx.tol(1e-13, 1e-5))
            c, d = [np.asarray(v) for v in runs[0][1]]
            big = np.max(np.abs(np.concatenate([c, d])))
            for (cs, ds), i in list(zip(sc, range(0, len(A), 7))) + list(zip(py, range(0, len(A), 11))):
                ctx.visit((name, "scalar", i)); ctx.trace()
                tolv = ctx.tol(1e-10, 1e-4) * (1 + abs(c[i]) + abs(d[i])) + ctx.tol(1e-12, 1e-5) * big
                ctx.check(f"{name}: scalar call equals array element ({A[i]}, {B[i]})",
                          abs(float(cs) - c[i]) <= tolv and abs(float(ds) - d[i]) <= tolv, lambda: f"{cs, ds} vs {c[i], d[i]}")
            ctx.outcome((name, len(set(np.sign(np.round(c, 6))))))
    ctx.sample(f"all {len(A)} ordered value pairs from {lat.tolist()}")


@group()
def near_ties(ctx):
    """operands that agree up to a few ulps, every offset: finite, right sign, exact min/max for alpha=1"""
    dt = np.float64 if ctx.x64 else np.float32
    base = np.concatenate([np.arange(1, 200) / 100.0, np.array([1e-3, 3.3e-3, 7.0, 12.34, 100.0, 331.7])]).astype(dt)
    A, B = [], []
    for k in range(-6, 7):
        b = base.copy()
        for _ in range(abs(k)):
            b = np.nextafter(b, dt(np.inf) if k > 0 else dt(0))
        A.append(base); B.append(b)
    A, B = np.concatenate(A), np.concatenate(B)
    for sgn in (1, -1):
        for name, sysm in systems():
            with ctx.case(f"{name}: near ties"):
                c, d = [np.asarray(v, dtype=np.float64) for v in jax.jit(jax.vmap(lambda a, b: (sysm.conjunction(a, b), sysm.disjunction(a, b))))(sgn * A, sgn * B)]
                ctx.visit((name, sgn), len(A)); ctx.step(2 * len(A)); ctx.trace(len(A))
                ctx.mask(f"{name}: near-tie conjunction", np.isfinite(c) & (c * sgn > 0), lambda ix: f"conjunction({sgn*A[ix[0]]!r}, {sgn*B[ix[0]]!r}) = {c[ix[0]]!r}")
                ctx.mask(f"{name}: near-tie disjunction", np.isfinite(d) & (d * sgn > 0), lambda ix: f"disjunction({sgn*A[ix[0]]!r}, {sgn*B[ix[0]]!r}) = {d[ix[0]]!r}")
                if name in ("r1", "R_alpha(1)"):
                    tol = np.abs(A.astype(float)) * ctx.tol(1e-14, 1e-6)
                    ctx.mask(f"{name}: near-tie min", np.abs(c - np.minimum(sgn * A, sgn * B)) <= tol, lambda ix: f"min({sgn*A[ix[0]]!r}, {sgn*B[ix[0]]!r}) = {c[ix[0]]!r}")
                    ctx.mask(f"{name}: near-tie max", np.abs(d - np.maximum(sgn * A, sgn * B)) <= tol, lambda ix: f"max({sgn*A[ix[0]]!r}, {sgn*B[ix[0]]!r}) = {d[ix[0]]!r}")
            # opposite signs that almost cancel
            with ctx.case(f"{name}: near cancellation"):
                c, d = [np.asarray(v, dtype=np.float64) for v in jax.jit(jax.vmap(lambda a, b: (sysm.conjunction(a, b), sysm.disjunction(a, b))))(sgn * A, -sgn * B)]
                ctx.visit((name, sgn, "anti"), len(A)); ctx.step(2 * len(A)); ctx.trace(len(A))
                ctx.mask(f"{name}: near-cancellation", np.isfinite(c) & (c < 0) & np.isfinite(d) & (d > 0), lambda ix: f"operands {sgn*A[ix[0]]!r}, {-sgn*B[ix[0]]!r}: {c[ix[0]]!r}, {d[ix[0]]!r}")
            ctx.outcome((name, sgn))
    ctx.sample(f"{len(A)} pairs (a, a +- k ulp), k<=6")


@group(cost=2)
def composition(ctx):
    """compose(op)(adf_1..adf_n) for n=1..5, scalar- and vector-valued operands, every sign pattern"""
    for n in range(1, ctx.pick(5, 6)):
        lat = [-1.0, 0.0, 0.5, 2.0] if n < 4 else [-1.0, 0.0, 1.5]
        pts = np.array(list(itertools.product(lat, repeat=n)))
        for name, sysm in systems():
            if name in ("R_alpha(0)", "R_alpha(1)", "R_alpha_m(0,-0.5)"):
                continue
            fs = []
            for op in ("conjunction", "disjunction"):
                f = getattr(sysm, op)
                fs.append((op, "scalar operands", rf.compose(f)(*[lambda x, i=i: x[i] for i in range(n)])))
                fs.append((op, "one vector operand", rf.compose(f)(lambda x: x)))
                if n >= 3:
                    fs.append((op, "vector + scalar operands", rf.compose(f)(lambda x: x[:2], *[lambda x, i=i: x[i] for i in range(2, n)])))
                    fs.append((op, "vector + vector operands", rf.compose(f)(lambda x: x[:1], lambda x: x[1:])))
            with ctx.case(f"{name}: compose of {n}"):
                vals = np.asarray(jax.jit(jax.vmap(lambda x: jnp.stack([jnp.reshape(f(x), ()) for _, _, f in fs])))(jnp.asarray(pts)))
                for i, (op, how, _) in enumerate(fs):
                    want = np.sign(pts).min(1) if op == "conjunction" else np.sign(pts).max(1)
                    v = vals[:, i]
                    ctx.visit((name, op, how, n), len(pts)); ctx.step(n * len(pts)); ctx.trace(len(pts)); ctx.outcome((op, how, n))
                    scale = 1.0 + float(np.max(np.abs(v[np.isfinite(v)]), initial=0.0))
                    ctx.mask(f"{name}: compose({op}) of {n} {how}", sign_ok(ctx, v, want, scale), lambda ix: f"operands {pts[ix[0]].tolist()} give {v[ix[0]]!r}")
                    if name == "r1":
                        ctx.close(f"r1: compose({op}) of {n} {how} value", v, pts.min(1) if op == "conjunction" else pts.max(1), rtol=1e-6, atol=ctx.tol(1e-12, 1e-6))


@group()
def rho_blending(ctx):
    """lattice around the corner, many radii: equals r0 outside, subset/superset, circular fillet"""
    for rho in (0.05, 0.25, 0.5, 1, 1.0, 2.0, 5.0):
        sysm = rf.RhoBlending(rho)
        n = ctx.pick(33, 65)
        u = np.linspace(-2.0 * rho, 2.0 * rho, n)
        ang = np.linspace(0, 2 * np.pi, 73)
        A = np.concatenate([g.ravel() for g in [np.meshgrid(u, u)[0]]] + [r * rho * np.cos(ang) for r in (0.5, 0.999, 1.0, 1.001, 3.0, 50.0)])
        B = np.concatenate([g.ravel() for g in [np.meshgrid(u, u)[1]]] + [r * rho * np.sin(ang) for r in (0.5, 0.999, 1.0, 1.001, 3.0, 50.0)])
        with ctx.case(f"rho={rho}"):
            g = lambda s: [np.asarray(v, dtype=float) for v in jax.jit(jax.vmap(lambda a, b: (s.conjunction(a, b), s.disjunction(a, b))))(jnp.asarray(A), jnp.asarray(B))]
            c, d = g(sysm)
            c0 = A + B - np.sqrt(A ** 2 + B ** 2)
            d0 = A + B + np.sqrt(A ** 2 + B ** 2)
            ctx.visit(("rho", rho), len(A)); ctx.step(2 * len(A)); ctx.trace(len(A))
            tol = ctx.tol(1e-11, 3e-6) * (rho + np.abs(A) + np.abs(B))
            out = A ** 2 + B ** 2 >= rho ** 2
            ctx.mask(f"rho={rho}: equals r0 outside radius", np.where(out, (np.abs(c - c0) <= tol) & (np.abs(d - d0) <= tol), True),
                     lambda ix: f"({A[ix[0]]}, {B[ix[0]]}): {c[ix[0]], d[ix[0]]} vs {c0[ix[0]], d0[ix[0]]}")
            ctx.mask(f"rho={rho}: intersection only loses, union only gains", np.isfinite(c) & np.isfinite(d) & (c <= c0 + tol) & (d >= d0 - tol),
                     lambda ix: f"({A[ix[0]]}, {B[ix[0]]}): {c[ix[0]], d[ix[0]]} vs {c0[ix[0]], d0[ix[0]]}")
            # inside the blend: solid corner is the complement of the region between corner and arc about (rho, rho)
            quad = (A > 0) & (B > 0) & (A < rho) & (B < rho)
            dist = np.hypot(A - rho, B - rho) - rho
            clear = np.abs(dist) > 1e-4 * rho
            inside = dist < 0
            ctx.mask(f"rho={rho}: intersection fillet", np.where(quad & clear, (c > 0) == inside, True), lambda ix: f"({A[ix[0]]}, {B[ix[0]]}) distance to arc {dist[ix[0]]}: {c[ix[0]]}")
            quadn = (A < 0) & (B < 0) & (A > -rho) & (B > -rho)
            distn = np.hypot(A + rho, B + rho) - rho
            ctx.mask(f"rho={rho}: union fillet", np.where(quadn & (np.abs(distn) > 1e-4 * rho), (d < 0) == (distn < 0), True), lambda ix: f"({A[ix[0]]}, {B[ix[0]]}) distance to arc {distn[ix[0]]}: {d[ix[0]]}")
            # the arc itself is the boundary
            t = np.linspace(0, np.pi / 2, 33)
            a, b = rho - rho * np.cos(t), rho - rho * np.sin(t)
            z = np.asarray(jax.vmap(sysm.conjunction)(jnp.asarray(a), jnp.asarray(b)), dtype=float)
            z2 = np.asarray(jax.vmap(sysm.disjunction)(jnp.asarray(-a), jnp.asarray(-b)), dtype=float)
            ctx.mask(f"rho={rho}: arc of radius rho is the boundary", (np.abs(z) <= ctx.tol(1e-10, 1e-5) * rho) & (np.abs(z2) <= ctx.tol(1e-10, 1e-5) * rho), lambda ix: f"angle {t[ix[0]]}: {z[ix[0]], z2[ix[0]]}")
            # elsewhere signs stay Boolean
            cl = ~(quad | quadn) & (np.abs(A) > 1e-9) & (np.abs(B) > 1e-9)
            # (the blended operations may differ from Boolean logic only in the blended corner)
            m = cl & (np.maximum(np.abs(A), np.abs(B)) < 30 * np.minimum(np.abs(A), np.abs(B)))
            ctx.mask(f"rho={rho}: Boolean signs away from the corner", np.where(m, (np.sign(c) == np.minimum(np.sign(A), np.sign(B))) & (np.sign(d) == np.maximum(np.sign(A), np.sign(B))), True),
                     lambda ix: f"({A[ix[0]]}, {B[ix[0]]}): {c[ix[0]], d[ix[0]]}")
            ctx.outcome((rho, bool(out.any()), bool(quad.any())))
            for op in BIN:
                f = getattr(sysm, op)(lambda x: x[0], lambda x: x[1])
                v = np.asarray(jax.jit(jax.vmap(f))(jnp.stack([jnp.asarray(A), jnp.asarray(B)], -1)))
                far = out & (np.minimum(np.abs(A), np.abs(B)) > rho * 1.05) & (np.maximum(np.abs(A), np.abs(B)) < 30 * np.minimum(np.abs(A), np.abs(B)))
                ctx.visit(("rho", rho, op), len(A)); ctx.trace(len(A)); ctx.step(len(A))
                if op not in ("xor", "equivalence"):
                    w = kleene(op, np.sign(A), np.sign(B))
                    ctx.mask(f"rho={rho}: {op} far from the corner", np.where(far, v * w > 0, True), lambda ix: f"({A[ix[0]]}, {B[ix[0]]}): {v[ix[0]]}")
    ctx.sample("corner lattice [-2rho,2rho]^2 and rings, 7 radii")


@group(modes=("f32",))
def constructors(ctx):
    """parameters outside the stated range are refused, the ready-made systems are the stated ones"""
    for bad in (-1.0, -2, 1.0001, 5):
        ctx.raises(f"RAlpha({bad}) refused", lambda: rf.RAlpha(bad), (AssertionError, ValueError))
        ctx.raises(f"RAlphaM(1, {bad}) refused", lambda: rf.RAlphaM(1, bad), (AssertionError, ValueError))
        ctx.visit(("bad", bad)); ctx.trace()
    for p in (1, 3, 5):
        ctx.raises(f"RP({p}) refused", lambda: rf.RP(p), (AssertionError, ValueError)); ctx.visit(("RP", p)); ctx.trace()
    a, b = [g.ravel() for g in jnp.meshgrid(jnp.asarray([-2.0, -0.5, 0.3, 1.0, 4.0]), jnp.asarray([-1.5, 0.2, 0.7, 3.0]))]
    an, bn = np.asarray(a, float), np.asarray(b, float)
    for n, s, p in [("r0", rf.r0, 2), ("rp2", rf.rp2, 2), ("rp4", rf.rp4, 4)]:
        N = (np.abs(an) ** p + np.abs(bn) ** p) ** (1 / p)
        ctx.visit(n); ctx.trace(); ctx.step(2)
        ctx.close(f"{n} conjunction", jax.vmap(s.conjunction)(a, b), an + bn - N, rtol=1e-5, atol=1e-5)
        ctx.close(f"{n} disjunction", jax.vmap(s.disjunction)(a, b), an + bn + N, rtol=1e-5, atol=1e-5)
    ctx.close("r1 min", jax.vmap(rf.r1.conjunction)(a, b), np.minimum(an, bn), rtol=1e-6, atol=1e-6)
    ctx.close("r1 max", jax.vmap(rf.r1.disjunction)(a, b), np.maximum(an, bn), rtol=1e-6, atol=1e-6)
