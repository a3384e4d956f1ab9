"""C21: multi-layer perceptrons compute the stated layer composition."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np

from magpi.model import MLP, mlp
from mc.core import group

ACTS = {"default": (None, np.tanh), "tanh": (jnp.tanh, np.tanh), "sin": (jnp.sin, np.sin), "square": (lambda x: x * x, lambda x: x * x), "relu": (jax.nn.relu, lambda x: np.maximum(x, 0)), "identity": (lambda x: x, lambda x: x)}


def layer_order(params):
    """hidden layers in numbered order, then the output layer"""
    p = params["params"]
    hid = sorted([k for k in p if k.rsplit("_", 1)[-1].isdigit()], key=lambda s: int(s.rsplit("_", 1)[-1]))
    return [p[k] for k in hid] + [p[k] for k in p if k not in hid]


def ref(ws, act, x):
    h = np.asarray(x, float)
    for i, (W, b) in enumerate(ws):
        h = h @ W + b
        if i < len(ws) - 1:
            h = act(h)
    return h[..., 0] if ws[-1][0].shape[1] == 1 else h


def architectures(ctx):
    out = []
    for L in (2, 3, 4, 5) if ctx.thorough else (2, 3, 4):
        out += [list(c) for c in itertools.product((1, 2, 3), repeat=L)]
    return out


SHAPES = [(), (1,), (4,), (2, 3), (1, 2, 1), (0,)]


def set_weights(params, layers, seed):
    """deterministic distinct weights in the structure of params"""
    rs = np.random.RandomState(seed)
    ws = [(np.round(rs.uniform(-1, 1, (a, b)) * 16) / 16, np.round(rs.uniform(-1, 1, b) * 16) / 16) for a, b in zip(layers[:-1], layers[1:])]
    order = layer_order(params)
    ids = {id(p): i for i, p in enumerate(order)}
    new = {k: {"kernel": jnp.asarray(ws[ids[id(v)]][0]), "bias": jnp.asarray(ws[ids[id(v)]][1])} for k, v in params["params"].items()}
    return {"params": new}, ws


def _compositions(ctx, lens):
    for layers in architectures(ctx):
        if len(layers) not in lens:
            continue
        for k, (an, (aj, anp)) in enumerate(ACTS.items()):
            if not ctx.thorough and (sum(layers) * 7 + layers[-1] * 3 + k) % (2 if len(layers) < 4 else 6):
                continue
            case = f"layers {layers} activation {an}"
            with ctx.case(case):
                seq = layers if k % 2 else tuple(layers)
                net, params = mlp(jax.random.PRNGKey(k), seq) if aj is None else mlp(jax.random.PRNGKey(k), seq, aj)
                ps = layer_order(params)
                ctx.visit(case, len(SHAPES)); ctx.step(len(layers) - 1); ctx.trace(); ctx.outcome((tuple(layers), an))
                shp = [(np.shape(p["kernel"]), np.shape(p["bias"])) for p in ps]
                want = [((a, b), (b,)) for a, b in zip(layers[:-1], layers[1:])]
                if not ctx.check(case + ": one weight matrix and bias per layer of the stated shapes", shp == want and len(jax.tree_util.tree_leaves(params)) == 2 * len(want), lambda: f"{shp}, expected {want}"):
                    continue
                t = dict(rtol=ctx.tol(1e-6, 1e-4), atol=ctx.tol(1e-6, 1e-4))
                own = [(np.asarray(p["kernel"], float), np.asarray(p["bias"], float)) for p in ps]
                P2, ws = set_weights(params, layers, 5)
                for q, s in enumerate(SHAPES if (len(layers) < 4 or ctx.thorough) else SHAPES[:4]):
                    x = np.linspace(-1.5, 2.0, int(np.prod(s)) * layers[0]).reshape(s + (layers[0],)) if s != () else np.array([0.5, -1.0, 2.0])[: layers[0]]
                    y = net.apply(P2, jnp.asarray(x))
                    ctx.close(f"{case} input {x.shape}", y, ref(ws, anp, x), **t)
                    if q == 1:
                        ctx.close(f"{case} initial parameters", net.apply(params, jnp.asarray(x)), ref(own, anp, x), **t)
    ctx.sample("all width lists over {1,2,3}: forward pass against numpy with assigned weights, 6 batch shapes")


@group(cost=2)
def short_networks(ctx):
    """every list of widths over {1,2,3}: parameter shapes, forward values with initial and with assigned weights, all batch shapes"""
    _compositions(ctx, (2, 3))


@group(cost=3)
def deep_networks(ctx):
    _compositions(ctx, (4, 5))


@group(cost=2)
def initialisation(ctx):
    """a function of the key, different between keys and between layers"""
    for layers, typed in itertools.product(([2, 3, 1], [1, 1], [3, 4, 4, 4, 2], [4, 1, 4]), (False, True)):
        mk = lambda k: mlp(jax.random.key(k) if typed else jax.random.PRNGKey(k), layers)[1]
        case = f"layers {layers} {'typed' if typed else 'raw'} keys"
        with ctx.case(case):
            ps = [mk(k) for k in range(4)]
            again = mk(0)
            ctx.visit(case, 4); ctx.step(5); ctx.trace(5); ctx.outcome(case)
            leaves = lambda p: [np.asarray(l) for l in jax.tree_util.tree_leaves(p)]
            ctx.check(case + ": function of the key", all(np.array_equal(a, b) for a, b in zip(leaves(ps[0]), leaves(again))), "second call differs")
            for i, j in itertools.combinations(range(4), 2):
                for a, b in zip(layer_order(ps[i]), layer_order(ps[j])):
                    ctx.check(f"{case}: weights differ between keys {i} and {j}", not np.array_equal(np.asarray(a["kernel"]), np.asarray(b["kernel"])), "same weights")
            for p in ps:
                ks = [np.asarray(l["kernel"]) for l in layer_order(p)]
                for a, b in itertools.combinations(range(len(ks)), 2):
                    if ks[a].shape == ks[b].shape:
                        ctx.check(case + ": layers are initialised differently", not np.array_equal(ks[a], ks[b]), "two layers share weights")
                ctx.check(case + ": finite, not all zero", all(np.isfinite(k).all() and np.abs(k).max() > 0 for k in ks), lambda: f"{ks}")
    with ctx.case("module"):
        net = MLP([5, 2])
        p = net.init(jax.random.PRNGKey(0), jnp.zeros(3))
        ctx.visit("module"); ctx.trace(); ctx.step()
        ctx.check("MLP used directly: widths", [np.shape(l["kernel"]) for l in layer_order(p)] == [(3, 5), (5, 2)], lambda: f"{jax.tree_util.tree_map(jnp.shape, p)}")
        own = [(np.asarray(q["kernel"], float), np.asarray(q["bias"], float)) for q in layer_order(p)]
        x = np.array([[0.5, -1.0, 2.0], [0.0, 1.0, 0.25]])
        ctx.close("MLP used directly: values", net.apply(p, jnp.asarray(x)), ref(own, np.tanh, x), rtol=1e-4, atol=1e-5)


@group(cost=2)
def pointwise(ctx):
    """vmap, jit and batching agree; derivatives with respect to input and parameters"""
    for layers in ([2, 3, 1], [3, 2, 2], [1, 3, 3, 1], [2, 2]):
        with ctx.case(f"pointwise {layers}"):
            net, params = mlp(jax.random.PRNGKey(0), layers, jnp.sin)
            P, ws = set_weights(params, layers, 9)
            x = np.linspace(-1, 1, 6 * layers[0]).reshape(2, 3, layers[0])
            want = ref(ws, np.sin, x)
            X = jnp.asarray(x)
            ctx.visit(tuple(layers), 6); ctx.step(6); ctx.trace()
            t = dict(rtol=ctx.tol(1e-7, 1e-4), atol=ctx.tol(1e-7, 1e-5))
            ctx.close(f"{layers}: batch", net.apply(P, X), want, **t)
            ctx.close(f"{layers}: vmap", jax.vmap(jax.vmap(lambda z: net.apply(P, z)))(X), want, **t)
            ctx.close(f"{layers}: jit", jax.jit(net.apply)(P, X), want, **t)
            e = 1e-6
            z = x[0, 0]
            J = np.stack([(ref(ws, np.sin, z + e * d) - ref(ws, np.sin, z - e * d)) / (2 * e) for d in np.eye(layers[0])], -1)
            for nm, jac in (("forward", jax.jacfwd), ("reverse", jax.jacrev)):
                ctx.close(f"{layers}: {nm} derivative", jac(lambda q: net.apply(P, q))(jnp.asarray(z)), J, rtol=ctx.tol(1e-5, 1e-3), atol=ctx.tol(1e-6, 1e-4))
            g = jax.grad(lambda p: jnp.sum(net.apply(p, X)))(P)
            gb = np.asarray(layer_order(g)[-1]["bias"])
            ctx.close(f"{layers}: gradient of the output bias", gb, np.full(layers[-1], 6.0), rtol=1e-5)
