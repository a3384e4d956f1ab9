"""C13: imposed boundary and initial conditions hold exactly for every model."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np

from magpi import r_fun
from magpi.model import impose_dirichlet_bc, impose_ic, impose_neumann_bc, mlp
from mc.core import group

ROLES = ("x", "t", "p")
PERMS = list(itertools.permutations(ROLES))


# ---- the free model: a basis of functions of (x, t, p); the imposed model is affine in model value and gradient ----------
def feats_j(x, t, p, k):
    """vector of independent features in dimension len(x)"""
    x = jnp.reshape(x, (-1,))
    one = jnp.ones(())
    cols = [one, t * one, p["w"] * one]
    for i in range(x.shape[0]):
        cols += [x[i], x[i] * x[i], t * x[i] * x[i] * x[i], jnp.sin(p["w"] * x[i] + t)]
    if x.shape[0] > 1:
        cols.append(x[0] * x[1] * p["w"])
    return k * jnp.stack([c * one for c in cols])


def feats_n(x, t, p, k):
    x = np.reshape(x, (-1,))
    d = len(x)
    w = p["w"]
    val = [1.0, t, w]
    grad = [np.zeros(d), np.zeros(d), np.zeros(d)]
    E = np.eye(d)
    for i in range(d):
        val += [x[i], x[i] ** 2, t * x[i] ** 3, np.sin(w * x[i] + t)]
        grad += [E[i], 2 * x[i] * E[i], 3 * t * x[i] ** 2 * E[i], w * np.cos(w * x[i] + t) * E[i]]
    if d > 1:
        val.append(x[0] * x[1] * w)
        grad.append(w * (x[1] * E[0] + x[0] * E[1]))
    return k * np.array(val), k * np.array(grad)


def arrange(perm, x, t, p):
    return [dict(x=x, t=t, p=p)[r] for r in perm]


def by_role(perm, fn):
    """a model taking its arguments in the order of perm"""
    def m(*a, **kw):
        d = dict(zip(perm, a))
        return fn(d["x"], d["t"], d["p"], **kw)
    return m


def tol(ctx, want):
    s = 1 + np.abs(np.asarray(want)).max(initial=0)
    return dict(rtol=ctx.tol(1e-9, 2e-4), atol=ctx.tol(1e-10, 3e-5) * s)


# ---- shapes: adf(jax), numpy value, numpy gradient, boundary points, outward normals, interior/exterior points --------------
DIRS2 = np.array([[np.cos(a), np.sin(a)] for a in np.arange(8) * np.pi / 4 + 0.1])
DIRS3 = np.array([d for d in itertools.product((-1.0, 0.0, 1.0), repeat=3) if any(d)])
DIRS3 = DIRS3 / np.linalg.norm(DIRS3, axis=1)[:, None]
C2 = np.array([0.25, -0.5])


def shapes():
    out = {}
    out["interval"] = (lambda x: x * (1 - x), lambda x: x * (1 - x), lambda x: 1 - 2 * x, np.array([0.0, 1.0]), np.array([-1.0, 1.0]), np.array([0.3, 0.5, 1.4, -0.25]))
    out["circle"] = (lambda x: (1.5 ** 2 - jnp.sum((x - jnp.asarray(C2)) ** 2)) / 3.0, lambda x: (1.5 ** 2 - np.sum((x - C2) ** 2)) / 3.0, lambda x: -2 * (x - C2) / 3.0, C2 + 1.5 * DIRS2, DIRS2, np.array([[0.25, -0.5], [0.5, 0.5], [2.0, 2.0], [-0.75, 0.0]]))
    out["sphere"] = (r_fun.translate(r_fun.sphere(2.0), jnp.asarray([0.5, 0.0, -1.0])), lambda x: (4 - np.sum((x - [0.5, 0, -1]) ** 2)) / 4.0, lambda x: -(x - [0.5, 0, -1]) / 2.0, np.array([0.5, 0, -1]) + 2 * DIRS3, DIRS3, np.array([[0.5, 1.0, -1.0], [1.0, 1.0, 0.0], [3.0, 0.0, 0.0]]))
    n = np.array([0.6, -0.8])
    out["half plane"] = (lambda x: 0.5 - jnp.asarray(n) @ x, lambda x: 0.5 - n @ x, lambda x: -n, np.array([0.5 * n + s * np.array([0.8, 0.6]) for s in (-2.0, 0.0, 1.5)]), np.tile(n, (3, 1)), np.array([[0.0, 0.0], [3.0, -3.0], [-1.0, 1.0]]))
    return out


TS = [0.0, 0.75]
PS = [{"w": 1.0}, {"w": -2.0}]
G_FORMS = ["none", "x", "xt", "tx", "t", "px"]


def data_j(form, m):
    """boundary data of the arguments named in form"""
    def g(*a):
        d = dict(zip(form, a))
        s = jnp.asarray(0.5)
        if "x" in d:
            x = jnp.reshape(d["x"], (-1,))
            s = s + x[0] ** 2 - 2 * x[-1]
        if "t" in d:
            s = s + 3 * d["t"]
        if "p" in d:
            s = s * d["p"]["w"]
        return s if m == 0 else s * jnp.arange(1.0, m + 1)
    return g


def data_n(form, m, x, t, p):
    if form == "none":
        return 0.0 if m == 0 else np.zeros(m)
    s = 0.5
    if "x" in form:
        x = np.reshape(x, (-1,))
        s = s + x[0] ** 2 - 2 * x[-1]
    if "t" in form:
        s = s + 3 * t
    if "p" in form:
        s = s * p["w"]
    return s if m == 0 else s * np.arange(1.0, m + 1)


def configs(ctx):
    """(shape, permutation, data form, output width, decorator?) combinations"""
    sh = shapes()
    for sn, perm, form in itertools.product(sh, PERMS, G_FORMS):
        k = PERMS.index(perm) + G_FORMS.index(form)
        if not ctx.thorough and sn in ("sphere", "half plane") and (k % 3):
            continue
        yield sn, sh[sn], perm, form, k


def _bc(ctx, kind, names):
    for sn, (adf, an, ag, bnd, nor, free), perm, form, k in configs(ctx):
        if sn not in names:
            continue
        ix = perm.index("x")
        nf = len(feats_n(bnd[0], 0.0, PS[0], 1.0)[0])
        vec = k % 2 == 0 or form != "none"
        sel = (lambda v: v) if vec else (lambda v: v[3])  # scalar output: one feature
        m = nf if vec else 0
        model = by_role(perm, lambda x, t, p, k=1.0: sel(feats_j(x, t, p, k)))
        g = None if form == "none" else data_j(form, m)
        argn = [perm.index(dict(x="x", t="t", p="p")[c]) for c in form] if form != "none" else 0
        if isinstance(argn, list):
            argn = argn[0] if len(argn) == 1 else (tuple(argn) if k % 2 else argn)
        a_adf = ix if k % 2 else [ix]
        deco = k % 3 == 0
        case0 = f"{kind} {sn} arguments {perm} data {form} {'decorator' if deco else 'direct'}"
        with ctx.case(case0):
            if kind == "dirichlet":
                kw = dict(argnums_adf=a_adf, argnums_g=argn, g=g)
                if ix == 0 and k % 2:
                    kw.pop("argnums_adf")
                if g is None:
                    kw.pop("g"); kw.pop("argnums_g")
                u = impose_dirichlet_bc(adf, **kw)(model) if deco else impose_dirichlet_bc(adf, model, **kw)
            else:
                kw = dict(argnums_adf=a_adf, argnum_model=ix, argnums_h=argn, h=g)
                if ix == 0 and k % 2:
                    kw.pop("argnums_adf"); kw.pop("argnum_model")
                if g is None:
                    kw.pop("h"); kw.pop("argnums_h")
                u = impose_neumann_bc(adf, **kw)(model) if deco else impose_neumann_bc(adf, model, **kw)
            for t, p, extra in ((TS[0], PS[0], None), (TS[1], PS[1], 2.5)):
                ekw = {} if extra is None else dict(k=extra)
                kk = 1.0 if extra is None else extra
                case = f"{case0} t={t} p={p} keyword={extra}"
                call = lambda x: u(*arrange(perm, x, t, p), **ekw)
                ctx.visit(case, len(bnd) + len(free)); ctx.step(len(bnd) + len(free)); ctx.trace(); ctx.outcome((kind, sn, perm, form, deco))
                gb = np.array([data_n(form, m, x, t, p) for x in bnd])
                B, F = jnp.asarray(bnd), jnp.asarray(free)
                run = jax.jit(jax.vmap(call)) if k % 4 == 1 else jax.vmap(call)
                if kind == "dirichlet":
                    ctx.close(case + " boundary value", run(B), gb, **tol(ctx, gb))
                    want = np.array([an(x) * sel(feats_n(x, t, p, kk)[0]) + data_n(form, m, x, t, p) for x in free])
                else:
                    nd = jax.vmap(lambda x, n: jax.jvp(call, (x,), (n,))[1])(B, jnp.asarray(nor))
                    ctx.close(case + " normal derivative", nd, gb, **tol(ctx, gb))
                    vb = np.array([sel(feats_n(x, t, p, kk)[0]) for x in bnd])
                    ctx.close(case + " value kept on the boundary", run(B), vb, **tol(ctx, vb))
                    want = []
                    for x in free:
                        v, dv = feats_n(x, t, p, kk)
                        want.append(sel(v) - an(x) * sel(dv @ np.reshape(ag(x), (-1,))) - an(x) * data_n(form, m, x, t, p))
                    want = np.array(want)
                ctx.close(case + " blend away from the boundary", run(F), want, **tol(ctx, want))
                # a single un-batched call
                x0 = jnp.asarray(free[0])
                ctx.close(case + " single call", call(x0), want[0], **tol(ctx, want[0]))
    ctx.sample(f"{kind}: every argument order x data arguments x shape; feature basis of {nf} models at all boundary points")


@group(cost=2)
def dirichlet_interval(ctx):
    _bc(ctx, "dirichlet", ("interval", "half plane"))


@group(cost=2)
def dirichlet_curved(ctx):
    _bc(ctx, "dirichlet", ("circle", "sphere"))


@group(cost=2)
def neumann_interval(ctx):
    _bc(ctx, "neumann", ("interval", "half plane"))


@group(cost=4, quick=("f64",))
def neumann_curved(ctx):
    _bc(ctx, "neumann", ("circle", "sphere"))


@group()
def moving_boundaries(ctx):
    """the distance function depends on several positional arguments: x and t (any positions, any order)"""
    def rad(t):
        return 1.0 + 0.5 * t
    for perm in PERMS:
        ix, it = perm.index("x"), perm.index("t")
        for order in ("xt", "tx"):
            def adf(*a, order=order):
                d = dict(zip(order, a))
                r = 1.0 + 0.5 * d["t"]
                return (r * r - jnp.sum(d["x"] ** 2)) / (2 * r)
            args = [ix, it] if order == "xt" else [it, ix]
            model = by_role(perm, lambda x, t, p, k=1.0: feats_j(x, t, p, k))
            for form in ("none", "x", "tx"):
                nf = len(feats_n(np.zeros(2), 0.0, PS[0], 1.0)[0])
                g = None if form == "none" else data_j(form, nf)
                argn = 0 if form == "none" else [perm.index(c) for c in form]
                for t, p in itertools.product(TS, PS):
                    case = f"moving circle adf({order}) arguments {perm} data {form} t={t} p={p}"
                    bnd = DIRS2 * rad(t)
                    gb = np.array([data_n(form, nf, x, t, p) for x in bnd])
                    with ctx.case(case):
                        ctx.visit(case, 2 * len(bnd)); ctx.step(2 * len(bnd)); ctx.trace(); ctx.outcome((perm, order, form))
                        u = impose_dirichlet_bc(adf, model, g, args, argn)
                        ctx.close(case + " dirichlet", jax.vmap(lambda x: u(*arrange(perm, x, t, p)))(jnp.asarray(bnd)), gb, **tol(ctx, gb))
                        if order == "xt":  # the normal is taken with respect to the first argument of the distance function
                            v = impose_neumann_bc(adf, model, g, args, ix, argn)
                            call = lambda x: v(*arrange(perm, x, t, p))
                            nd = jax.vmap(lambda x, n: jax.jvp(call, (x,), (n,))[1])(jnp.asarray(bnd), jnp.asarray(DIRS2))
                            ctx.close(case + " neumann", nd, gb, **tol(ctx, gb))


@group()
def composed_shapes(ctx):
    """R-function shapes as distance functions, networks as models, several conditions at once"""
    dom = r_fun.r0.difference(r_fun.cuboid(jnp.asarray([2.0, 1.0]), centering=True), r_fun.sphere(0.25))
    hole = 0.25 * DIRS2
    sides = np.array([[1.0, 0.2], [-1.0, -0.3], [0.4, 0.5], [-0.6, -0.5], [1.0, 0.0]])
    nside = np.array([[1.0, 0], [-1.0, 0], [0, 1.0], [0, -1.0], [1.0, 0]])
    bnd, nor = np.concatenate([hole, sides]), np.concatenate([-DIRS2, nside])
    for width in (1, 3):
        for key in (0, 1, 2):
            net, params = mlp(jax.random.PRNGKey(key), [2, 6, width])
            model = lambda x, p: net.apply(p, x)
            for scale in (1.0, -3.0):
                P = jax.tree_util.tree_map(lambda a: scale * a, params)
                g = lambda x: x[0] - x[1] ** 2 + (jnp.zeros(width) if width > 1 else 0.0)
                gb = np.array([np.asarray(x[0] - x[1] ** 2 + (np.zeros(width) if width > 1 else 0.0)) for x in bnd])
                case = f"plate with hole, network width {width} key {key} weights x{scale}"
                with ctx.case(case):
                    ctx.visit(case, len(bnd) * 4); ctx.step(len(bnd) * 4); ctx.trace(); ctx.outcome(case)
                    X = jnp.asarray(bnd)
                    ctx.close(case + " dirichlet", jax.vmap(lambda x: impose_dirichlet_bc(dom, model, g)(x, P))(X), gb, **tol(ctx, gb))
                    ctx.close(case + " homogeneous dirichlet", jax.vmap(lambda x: impose_dirichlet_bc(dom, model)(x, P))(X), 0 * gb, **tol(ctx, gb))
                    for hn, h, want in (("neumann", g, gb), ("homogeneous neumann", None, 0 * gb)):
                        u = impose_neumann_bc(dom, model, h)
                        nd = jax.vmap(lambda x, n: jax.jvp(lambda y: u(y, P), (x,), (n,))[1])(X, jnp.asarray(nor))
                        ctx.close(f"{case} {hn}", nd, want, rtol=ctx.tol(1e-8, 1e-3), atol=ctx.tol(1e-8, 2e-3))
                    # initial condition on top of a Dirichlet condition
                    m0 = lambda x: dom(x) * jnp.sin(x[0]) + g(x)
                    w = impose_ic(m0, lambda x, t, p: impose_dirichlet_bc(dom, lambda x, p: model(x, p) + t, g)(x, p))
                    for t in (0.0, 0.3):
                        ctx.close(f"{case} initial and boundary condition t={t}", jax.vmap(lambda x: w(x, t, P))(X), gb, **tol(ctx, gb))
                    inner = jnp.asarray([[0.5, 0.1], [-0.7, 0.2]])
                    ctx.close(f"{case} initial condition inside", jax.vmap(lambda x: w(x, 0.0, P))(inner), np.asarray(jax.vmap(m0)(inner)), **tol(ctx, gb))
    ctx.sample("plate with a hole (R-function difference), Dirichlet/Neumann/initial conditions with network models")


@group(cost=2)
def initial_conditions(ctx):
    """every argument order x arguments of the initial condition x start time x decay rate x time lattice"""
    M0 = ["x", "xp", "px", "p", "tx"]
    for perm, form, t0, rate, deco in itertools.product(PERMS, M0, (None, 0.0, 2.5, -1.0), (None, 0.0, 3.0), (False, True)):
        if not ctx.thorough and (PERMS.index(perm) + M0.index(form) + (0 if t0 is None else 1) + (0 if rate is None else 1)) % 2:
            continue
        it = perm.index("t")
        argn = [perm.index(c) for c in form]
        argn = argn[0] if len(argn) == 1 else argn
        kw = dict(argnums_m0=argn, argnum_t=it)
        if t0 is not None:
            kw["t0"] = t0
        if rate is not None:
            kw["decay_rate"] = rate
        T0, R = (0.0 if t0 is None else t0), (10.0 if rate is None else rate)
        case = f"initial condition of {form} arguments {perm} t0={t0} rate={rate} {'decorator' if deco else 'direct'}"
        with ctx.case(case):
            nf = len(feats_n(np.zeros(2), 0.0, PS[0], 1.0)[0])
            model = by_role(perm, lambda x, t, p, k=1.0: feats_j(x, t, p, k))
            m0 = data_j(form, nf)
            u = impose_ic(m0, **kw)(model) if deco else impose_ic(m0, model, **kw)
            pts = np.array([[0.5, -1.0], [0.0, 0.0], [2.0, 0.25]])
            times = T0 + np.array([0.0, 0.05, 0.25, 1.0, 40.0])
            for p, k in ((PS[0], None), (PS[1], -1.5)):
                ekw = {} if k is None else dict(k=k)
                kk = 1.0 if k is None else k
                ctx.visit((case, p["w"]), len(pts) * len(times)); ctx.step(len(pts) * len(times)); ctx.trace(); ctx.outcome((perm, form, t0, rate, deco))
                got = jax.vmap(lambda t: jax.vmap(lambda x: u(*arrange(perm, x, t, p), **ekw))(jnp.asarray(pts)))(jnp.asarray(times))
                want = np.array([[np.exp(-R * (t - T0)) * data_n(form, nf, x, t, p) + (1 - np.exp(-R * (t - T0))) * feats_n(x, t, p, kk)[0] for x in pts] for t in times])
                ctx.close(f"{case} p={p} keyword={k}", got, want, **tol(ctx, want[:-1]) if ctx.x64 else dict(rtol=1e-3, atol=1e-2))
                ctx.close(f"{case} p={p} keyword={k} at the initial time", got[0], np.array([data_n(form, nf, x, T0, p) for x in pts]), **tol(ctx, want[0]))
    with ctx.case("defaults"):
        u = impose_ic(lambda x: x ** 2, lambda x, t: 7.0 + 0 * x)
        for t in (0.0, 0.1):
            d = np.exp(-10 * t)
            ctx.visit(("default", t)); ctx.step(); ctx.trace()
            ctx.close(f"defaults t={t}", u(3.0, t), 9 * d + 7 * (1 - d), **tol(ctx, 9))
        ctx.close("time derivative at the start", jax.grad(u, 1)(3.0, 0.0), 10 * (7 - 9.0), **tol(ctx, 20))
    ctx.sample("impose_ic for 6 argument orders x 5 data forms x 4 start times x 3 rates x 2 forms at 5 times")
