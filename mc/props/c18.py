"""C18: mini-batching preserves data alignment and multiplicity."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np

from magpi.opt import batches_with_replacement, batches_without_replacement, make_iterator
from mc.core import group

# data sets: every leaf of row i is a known injective function of i
TREES = {
    "vector": lambda n: jnp.arange(n) * 10,
    "matrix": lambda n: jnp.arange(n)[:, None] * 10.0 + jnp.arange(3) / 4,
    "pair": lambda n: (jnp.arange(n) * 10, -jnp.arange(n)[:, None, None] * jnp.ones((1, 2, 2)) - 1.0),
    "dict": lambda n: {"x": jnp.arange(n)[:, None] * jnp.ones(2), "y": [jnp.arange(n) * 7 + 3, (jnp.arange(n) % 2 == 0)], "z": {"w": jnp.arange(n, dtype=jnp.int32)}},
}


def key(k, typed):
    return jax.random.key(k) if typed else jax.random.PRNGKey(k)


def rows_of(name, n, out):
    """row indices (batches, size) recovered from the first distinguishing leaf; checks that all leaves carry the same rows"""
    X = jax.tree_util.tree_leaves(TREES[name](n))
    O = jax.tree_util.tree_leaves(out)
    first = {"vector": 0, "matrix": 0, "pair": 0, "dict": 1}[name]  # dict leaves sorted: x, y0, y1, z.w
    A, B = np.asarray(X[first]).reshape(n, -1)[:, 0], np.asarray(O[first])
    B = B.reshape(B.shape[0], B.shape[1], -1)[..., 0] if B.size else B.reshape(B.shape[0], B.shape[1])
    lut = {float(a): i for i, a in enumerate(A)}
    try:
        idx = np.array([[lut[float(b)] for b in r] for r in B], int).reshape(B.shape)
    except KeyError as e:
        return None, f"value {e} is not a row of the data"
    for x, o in zip(X, O):
        if not np.array_equal(np.asarray(x)[idx], np.asarray(o)):
            return None, f"leaves disagree: rows {idx.tolist()} but a leaf holds {np.asarray(o).tolist()}"
        if np.asarray(o).dtype != np.asarray(x).dtype:
            return None, f"dtype {np.asarray(o).dtype} instead of {np.asarray(x).dtype}"
    return idx, ""


def same_structure(ctx, case, a, b):
    return ctx.check(case + ": structure", jax.tree_util.tree_structure(a) == jax.tree_util.tree_structure(b), lambda: f"{jax.tree_util.tree_structure(b)}")


@group(cost=2, modes=("f32",))
def without_replacement(ctx):
    """all (N, batch size) up to the bound x structures x keys"""
    NM = ctx.pick(7, 10)
    for N, bs in itertools.product(range(1, NM + 1), range(1, NM + 2)):
        for name in TREES if (N in (3, 5, 6) or ctx.thorough) else ("vector", "pair"):
            for k, typed in ((0, False), (1, False), (2, True), (3, False)):
                case = f"without replacement N={N} batch={bs} {name} key {k} {'typed' if typed else 'raw'}"
                with ctx.case(case):
                    X = TREES[name](N)
                    out = batches_without_replacement(key(k, typed), X, bs)
                    same_structure(ctx, case, X, out)
                    nb = N // bs
                    shp = {l.shape[:2] for l in jax.tree_util.tree_leaves(out)}
                    ctx.visit(case); ctx.step(max(nb, 1)); ctx.trace(); ctx.outcome((N, bs))
                    if not ctx.check(case + ": floor(N/batch) batches of the requested size", shp == {(nb, bs)}, lambda: f"{shp}, expected {(nb, bs)}"):
                        continue
                    for x, o in zip(jax.tree_util.tree_leaves(X), jax.tree_util.tree_leaves(out)):
                        ctx.check(case + ": trailing shape", o.shape[2:] == x.shape[1:], lambda: f"{o.shape} {x.shape}")
                    idx, why = rows_of(name, N, out)
                    if ctx.check(case + ": rows of all leaves stay together", idx is not None, why):
                        fl = idx.reshape(-1).tolist()
                        ctx.check(case + ": no row twice", len(set(fl)) == len(fl), lambda: f"rows {idx.tolist()}")
                    again = batches_without_replacement(key(k, typed), X, bs)
                    ctx.check(case + ": function of the key", all(np.array_equal(np.asarray(a), np.asarray(b)) for a, b in zip(jax.tree_util.tree_leaves(out), jax.tree_util.tree_leaves(again))), "second call differs")
    # every row is used and, when N is not a multiple of the batch size, every row is left out under some key
    run = jax.jit(jax.vmap(lambda k, X, b: batches_without_replacement(k, X, b), (0, None, None)), static_argnums=2)
    K = jax.vmap(jax.random.PRNGKey)(jnp.arange(200))
    for N, bs in itertools.product(range(2, 7), range(1, 7)):
        if bs > N:
            continue
        with ctx.case(f"use of rows N={N} batch={bs}"):
            idx = np.asarray(run(K, jnp.arange(N), bs)).reshape(200, -1)
            ctx.visit(("use", N, bs), 200); ctx.step(200); ctx.trace(200)
            used = np.array([[r in row for r in range(N)] for row in idx])
            case = f"N={N} batch={bs} over 200 keys"
            ctx.check(case + ": every row is used under some key", used.any(0).all(), lambda: f"{used.mean(0)}")
            if N % bs:
                ctx.check(case + ": no row is always used", not used.all(0).any(), lambda: f"{used.mean(0)}")
            ctx.check(case + ": no repeats", all(len(set(r)) == len(r) for r in idx.tolist()))
            if N > 1:
                ctx.check(case + ": order depends on the key", len({tuple(r) for r in idx.tolist()}) > 1, "the same order for every key")
            ctx.check(case + ": every row comes first under some key", set(idx[:, 0]) == set(range(N)), lambda: f"{sorted(set(idx[:, 0]))}")
    ctx.sample("all N <= 7, batch sizes <= 8, four data structures, four keys: distinct aligned rows")


@group(cost=2, modes=("f32",))
def with_replacement(ctx):
    for N, nb, bs, within in itertools.product((1, 2, 3, 5, 8), (1, 2, 4), (1, 2, 3, 5, 9), (True, False)):
        for name in TREES if N == 5 or ctx.thorough else ("pair",):
            for k, typed in ((0, False), (7, True)):
                case = f"with replacement N={N} batches={nb} size={bs} replace_within_batch={within} {name} key {k}"
                X = TREES[name](N)
                if not within and bs > N:
                    ctx.visit(case); ctx.step(); ctx.trace()
                    ctx.raises(case + ": impossible request refused", lambda: jax.block_until_ready(batches_with_replacement(key(k, typed), X, nb, bs, within)))
                    continue
                with ctx.case(case):
                    out = batches_with_replacement(key(k, typed), X, nb, bs, replace_within_batch=within)
                    same_structure(ctx, case, X, out)
                    ctx.visit(case); ctx.step(nb); ctx.trace(); ctx.outcome((N, nb, bs, within))
                    shp = {l.shape[:2] for l in jax.tree_util.tree_leaves(out)}
                    if not ctx.check(case + ": requested number and size", shp == {(nb, bs)}, lambda: f"{shp}"):
                        continue
                    idx, why = rows_of(name, N, out)
                    if ctx.check(case + ": existing rows, all leaves together", idx is not None, why) and not within:
                        ctx.check(case + ": no repeated row within a batch", all(len(set(r)) == len(r) for r in idx.tolist()), lambda: f"{idx.tolist()}")
                    again = batches_with_replacement(key(k, typed), X, nb, bs, within)
                    ctx.check(case + ": function of the key", all(np.array_equal(np.asarray(a), np.asarray(b)) for a, b in zip(jax.tree_util.tree_leaves(out), jax.tree_util.tree_leaves(again))), "second call differs")
    run = jax.jit(jax.vmap(lambda k, X, n, b, w: batches_with_replacement(k, X, n, b, w), (0, None, None, None, None)), static_argnums=(2, 3, 4))
    K = jax.vmap(jax.random.PRNGKey)(jnp.arange(200))
    for N, nb, bs, within in ((2, 2, 2, True), (3, 2, 2, True), (3, 2, 2, False), (4, 3, 3, False), (5, 1, 4, True), (4, 2, 4, False)):
        case = f"N={N} batches={nb} size={bs} replace_within_batch={within} over 200 keys"
        with ctx.case(case):
            idx = np.asarray(run(K, jnp.arange(N), nb, bs, within))
            ctx.visit(case, 200); ctx.step(200 * nb); ctx.trace(200)
            ctx.check(case + ": every row appears at every place", all(set(idx[:, i, j]) == set(range(N)) for i in range(nb) for j in range(bs)), "some row never appears at some place")
            rep = np.array([[len(set(b)) < bs for b in r] for r in idx.tolist()])
            ctx.check(case + ": repeats within a batch", rep.any() if within else not rep.any(), lambda: f"fraction {rep.mean()}")
            if nb > 1:
                ctx.check(case + ": batches are drawn independently", {(tuple(r[0]) == tuple(r[1])) for r in idx.tolist()} == {True, False} or bs > 2, "batches always equal or always different")
                ctx.check(case + ": batches differ", any(tuple(r[0]) != tuple(r[1]) for r in idx.tolist()), "always identical")
    with ctx.case("default"):
        o = np.asarray(batches_with_replacement(jax.random.PRNGKey(0), jnp.arange(2), 50, 4))
        ctx.check("default allows repeats within a batch", o.shape == (50, 4), lambda: f"{o.shape}")
    ctx.sample("N x batches x size x replace_within_batch grid on four structures")


@group(modes=("f32",))
def refusals(ctx):
    """unequal leading sizes are refused, in every leaf position"""
    for sizes in itertools.product((3, 4), repeat=3):
        X = {"a": jnp.arange(sizes[0]), "b": (jnp.ones((sizes[1], 2)), jnp.zeros((sizes[2], 1, 2)))}
        for nm, fn in (("without", lambda: batches_without_replacement(jax.random.PRNGKey(0), X, 2)), ("with", lambda: batches_with_replacement(jax.random.PRNGKey(0), X, 2, 2)), ("iterator", lambda: list(make_iterator(jax.random.PRNGKey(0), 1, lambda k: X)))):
            case = f"{nm} leading sizes {sizes}"
            ctx.visit(case); ctx.step(); ctx.trace(); ctx.outcome((nm, len(set(sizes)) == 1))
            if len(set(sizes)) == 1:
                with ctx.case(case):
                    fn()
            else:
                ctx.raises(case + " refused", fn)


def kd(k):
    k = jax.random.key_data(k) if jnp.issubdtype(k.dtype, jax.dtypes.prng_key) else k
    return tuple(np.asarray(k).reshape(-1).tolist())


@group(cost=2, modes=("f32",))
def iterators(ctx):
    """all histories of epochs with 0..3 batches each: every batch once, in order, with fresh keys; interleaved and abandoned iterators"""
    E = ctx.pick(3, 4)
    for epochs in range(0, E + 1):
        for counts in itertools.product(range(0, 4), repeat=epochs):
            for add, typed in ((False, False), (True, False), (True, True)):
                if typed and sum(counts) > 4:
                    continue
                case = f"epochs with {counts} batches add_rng={add} {'typed' if typed else 'raw'} key"
                with ctx.case(case):
                    seen = []

                    def fn(k):
                        e = len(seen)
                        seen.append(kd(k))
                        n = counts[e]
                        return {"i": jnp.arange(n) + 100 * e, "d": (jnp.ones((n, 2)) * jnp.arange(n)[:, None] + e,)}

                    k0 = key(5, typed)
                    it = make_iterator(k0, epochs, fn, add_rng=add)
                    got = list(it)
                    ctx.visit(case); ctx.step(sum(counts) + epochs); ctx.trace(); ctx.outcome((epochs, sum(counts), add))
                    ctx.check(case + ": one batch set per epoch", len(seen) == epochs, lambda: f"{len(seen)} calls")
                    ctx.check(case + ": fresh randomness per epoch", len(set(seen)) == len(seen) and kd(k0) not in seen, lambda: f"{seen}")
                    want = [(100 * e + i, float(i + e)) for e, n in enumerate(counts) for i in range(n)]
                    bk = []
                    if add:
                        ctx.check(case + ": (key, batch) pairs", all(isinstance(g, tuple) and len(g) == 2 for g in got), lambda: f"{got[:1]}")
                        bk = [kd(g[0]) for g in got]
                        got = [g[1] for g in got]
                    have = [(int(b["i"]), float(np.asarray(b["d"][0]).reshape(-1)[0])) for b in got]
                    ctx.check(case + ": every batch once and in order", have == want, lambda: f"{have}, expected {want}")
                    ctx.check(case + ": batch shapes", all(b["i"].shape == () and b["d"][0].shape == (2,) for b in got), "batch axis kept")
                    ctx.check(case + ": distinct batch keys", len(set(bk)) == len(bk) and not set(bk) & set(seen) and kd(k0) not in bk, lambda: f"{bk} {seen}")
    with ctx.case("real batches"):
        X = {"x": jnp.arange(7), "y": jnp.arange(7) * 2.0}
        for add, (nm, fn) in itertools.product((False, True), (("without", lambda k: batches_without_replacement(k, X, 2)), ("with", lambda k: batches_with_replacement(k, X, 4, 3)))):
            for k in range(4):
                case = f"iterating {nm} replacement add_rng={add} key {k}"
                a = list(make_iterator(jax.random.PRNGKey(k), 3, fn, add))
                b = list(make_iterator(jax.random.PRNGKey(k), 3, fn, add))
                # two interleaved iterators do not disturb each other
                i1, i2 = make_iterator(jax.random.PRNGKey(k), 3, fn, add), make_iterator(jax.random.PRNGKey(k + 50), 3, fn, add)
                c = []
                for _ in range(len(a)):
                    c.append(next(i1)); next(i2, None)
                strip = lambda z: [np.asarray(q[1]["x"] if add else q["x"]).tolist() for q in z]
                ctx.visit(case, len(a)); ctx.step(3 * len(a)); ctx.trace(3)
                ctx.check(case + ": count", len(a) == (9 if nm == "without" else 12), lambda: f"{len(a)}")
                ctx.check(case + ": function of the key", strip(a) == strip(b), "differs")
                ctx.check(case + ": interleaving", strip(a) == strip(c), "interleaved iterators differ")
                ctx.check(case + ": aligned", all(np.array_equal(2.0 * np.asarray((q[1] if add else q)["x"]), np.asarray((q[1] if add else q)["y"])) for q in a), "rows not aligned")
                per = 3 if nm == "without" else 4
                ep = [sum(strip(a)[i * per:(i + 1) * per], []) for i in range(3)]
                if nm == "without":
                    ctx.check(case + ": no row twice per epoch", all(len(set(e)) == len(e) == 6 for e in ep), lambda: f"{ep}")
        eps = [tuple(map(tuple, [np.asarray(q["x"]).tolist() for q in make_iterator(jax.random.PRNGKey(k), 2, lambda k: batches_without_replacement(k, X, 2))])) for k in range(8)]
        ctx.check("epochs are shuffled differently", any(e[:3] != e[3:] for e in eps), "every epoch has the same order")
        ctx.check("keys give different orders", len(set(eps)) > 1, "all keys give the same order")
    ctx.sample("all epoch histories with 0..3 batches per epoch up to 3 epochs, with and without batch keys")
