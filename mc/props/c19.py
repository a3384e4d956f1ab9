"""C19: rejection sampling accepts with probability density/m, never outside the support.

Nothing about how keys are split is assumed.  Proposals carry the key they were drawn with, so the sequence of proposals of
every parallel sampler is *observed* by giving all previously seen proposals density zero.  The density of the j-th proposal
of every sampler can then be set freely, and every assignment of density levels to the first D proposals is explored against
the model "the first proposal whose uniform draw is below density/m is returned".  With a scripted generator the uniform
draws are exact lattice values, so ties and zeros are decided exactly; with jax's generator the draws are bracketed.
"""
import itertools

import jax
import jax.extend
import jax.numpy as jnp
import numpy as np

from magpi.sampling import rejection_sampling
from mc.core import group

D = 4


# ---- scripted generator: keys are hashed tree paths, uniform bits come from a table of lattice values ----------------
def mix(a, b):
    x = (a ^ (b * np.uint32(0x9E3779B9))).astype(jnp.uint32)
    for s, m in ((16, 0x7FEB352D), (15, 0x846CA68B)):
        x = x ^ (x >> s)
        x = (x * np.uint32(m)).astype(jnp.uint32)
    return x ^ (x >> 16)


def scripted(levels, name):
    """a generator whose uniform draws are levels[hash(key) mod len(levels)] / 2**8 exactly"""
    T = np.array(levels, np.uint32)

    def child(key, i):
        return jnp.stack([mix(key[0], i + np.uint32(1)), mix(key[1] + np.uint32(77), i * np.uint32(3) + np.uint32(5))])

    def seed(s):
        s = jnp.asarray(s).astype(jnp.uint32)
        return jnp.stack([mix(s, np.uint32(11)), mix(s, np.uint32(23))])

    def split(key, shape):
        n = int(np.prod(shape)) if shape else 1
        return jax.vmap(lambda i: child(key, i))(jnp.arange(n, dtype=jnp.uint32)).reshape(tuple(shape) + (2,))

    def fold_in(key, data):
        return child(key, jnp.asarray(data).astype(jnp.uint32) + np.uint32(1000))

    def random_bits(key, bit_width, shape):
        h = jnp.asarray(T)[mix(key[0], key[1]) % np.uint32(len(T))]  # 8-bit lattice value
        dt = {8: jnp.uint8, 16: jnp.uint16, 32: jnp.uint32, 64: jnp.uint64}[bit_width]
        top = h.astype(dt) << dt(bit_width - 8)
        return jnp.full(shape, top, dt)

    return jax.extend.random.define_prng_impl(key_shape=(2,), seed=seed, split=split, random_bits=random_bits, fold_in=fold_in, name=name)


IMPL = {}


def make_key(gen, k):
    if gen == "threefry":
        return jax.random.PRNGKey(k)
    if gen == "typed":
        return jax.random.key(k)
    levels = {"lattice": [0, 64, 128, 192], "zero": [0], "quarter": [64], "half": [128], "top": [255], "mixed": [0, 0, 255, 128, 64, 192, 32, 224]}[gen]
    if gen not in IMPL:
        IMPL[gen] = scripted(levels, "mc_" + gen)
    return jax.random.key(k, impl=IMPL[gen])


def raw(k):
    return jax.random.key_data(k) if jnp.issubdtype(k.dtype, jax.dtypes.prng_key) else k


class Bench:
    """observed proposal sequences of the n samplers of one call"""

    def __init__(self, ctx, gen, k, n, m):
        self.ctx, self.gen, self.n, self.m = ctx, gen, n, m
        self.key = make_key(gen, k)
        self.sample_fn = lambda key: {"id": raw(key), "x": (jnp.asarray(raw(key)[0] % 97, jnp.float32), jnp.asarray(raw(key)[1] % 13))}
        self._run = jax.jit(self._call)
        table = np.zeros((n, D, 2), np.uint32)
        self.depth = 0
        for j in range(D):
            lev = np.ones((n, D + 1)) * 2.0
            lev[:, :j] = 0.0
            self.depth = j
            out = self.run(lev, table)
            table[:, j] = np.asarray(out["id"])
        self.depth = D
        self.table = table

    def _call(self, levels, table, depth):
        """levels: (n, D+1) density/m of the j-th proposal of every sampler; the last entry is for all later proposals"""
        def pdf(s):
            hit = jnp.all(table == s["id"], -1) & (jnp.arange(D) < depth)[None, :]
            known = jnp.any(hit)
            lane = levels[:, :D]
            val = jnp.sum(jnp.where(hit, lane, 0.0)) / jnp.maximum(jnp.sum(hit), 1)
            return jnp.where(known, val, levels[0, D]) * self.m
        return rejection_sampling(self.key, pdf, self.sample_fn, self.n, self.m)

    def run(self, lev, table=None):
        t = self.table if table is None else table
        return jax.tree_util.tree_map(np.asarray, self._run(jnp.asarray(lev), jnp.asarray(t), self.depth))

    def index(self, out):
        """which proposal (0..D-1, or D = a later one) every sampler returned"""
        ids = np.asarray(out["id"])
        hit = (self.table == ids[:, None, :]).all(-1)
        return np.where(hit.any(1), hit.argmax(1), D)


def proposals_valid(ctx, case, B, out):
    """every returned sample is what the proposal function yields for the key it carries, with the proposal's structure"""
    ids = np.asarray(out["id"])
    ctx.check(case + ": structure", set(out) == {"id", "x"} and isinstance(out["x"], tuple), lambda: f"{jax.tree_util.tree_structure(out)}")
    ctx.check(case + ": n samples", all(l.shape[0] == B.n for l in jax.tree_util.tree_leaves(out)), lambda: f"{[l.shape for l in jax.tree_util.tree_leaves(out)]}")
    ok = (np.asarray(out["x"][0]) == (ids[:, 0] % 97)) & (np.asarray(out["x"][1]) == (ids[:, 1] % 13))
    ctx.mask(case + ": every sample is one proposal", ok, lambda ix: f"sampler {ix}: {ids[ix]} with {out['x'][0][ix]}, {out['x'][1][ix]}")


@group(cost=3)
def acceptance_law_scripted(ctx):
    """scripted uniform draws: every assignment of density levels (0, 1/4, 1/2, 3/4, 1 and just above) to the first proposals"""
    LV = [0.0, 0.25, 0.5, 0.75, 1.0]
    const = {"zero": 0.0, "quarter": 0.25, "half": 0.5, "top": 255 / 256}
    for gen, m in itertools.product(const, (1.0, 4.0)) if not ctx.thorough else itertools.product(const, (1.0, 2.5, 4.0, 16.0)):
        with ctx.case(f"{gen} m={m}"):
            n = 25
            B = Bench(ctx, gen, 3, n, m)
            u = const[gen]
            ids = {tuple(x) for x in B.table.reshape(-1, 2).tolist()}
            ctx.check(f"{gen} m={m}: proposals are all different", len(ids) == n * D, lambda: f"{len(ids)} of {n * D}")
            seqs = list(itertools.product(LV, repeat=3))
            for i in range(0, len(seqs), n):
                chunk = seqs[i:i + n]
                lev = np.ones((n, D + 1)) * 2.0
                for q, s in enumerate(chunk):
                    lev[q, :3] = s
                out = B.run(lev)
                got = B.index(out)
                want = np.array([next((j for j in range(D) if u < lev[q, j]), D) for q in range(n)])
                ctx.visit((gen, m, i), len(chunk)); ctx.step(int(want.sum()) + n); ctx.trace(len(chunk))
                for w in want:
                    ctx.outcome((gen, int(w)))
                ctx.mask(f"uniform draw {u}, m={m}: first proposal with draw < density/m", got == want, lambda ix: f"levels {lev[ix[0]].tolist()}: proposal {got[ix]} returned, expected {want[ix]}")
                proposals_valid(ctx, f"{gen} m={m}", B, out)
    ctx.sample("all 5^3 assignments of density levels to three successive proposals under constant draws 0, 1/4, 1/2, 255/256 (ties included)")


def infer(B, grid):
    """bracket the uniform draw of each proposal: smallest grid level at which it is accepted"""
    n = B.n
    u = np.full((n, D - 1), np.inf)
    for j in range(D - 1):
        for g in grid:
            lev = np.ones((n, D + 1)) * 2.0
            lev[:, :j] = 0.0
            lev[:, j] = g
            got = B.index(B.run(lev))
            u[:, j] = np.where((got == j) & (u[:, j] > g), g, u[:, j])
    return u


@group(cost=3)
def acceptance_law_tapes(ctx):
    """varying draws: the draws are bracketed once, then every sequence of levels is decided by them; draws are fresh for every proposal and unrelated to it"""
    grid = [i / 8 for i in range(1, 9)]
    for gen, k in (("lattice", 1), ("mixed", 2), ("threefry", 0), ("typed", 9)) + ((("threefry", 5), ("lattice", 4)) if ctx.thorough else ()):
        with ctx.case(f"{gen} key {k}"):
            n = 256
            B = Bench(ctx, gen, k, n, 3.0)
            u = infer(B, grid)
            case = f"{gen} key {k}"
            ctx.check(case + ": a density of m is always accepted", np.isfinite(u).all(), lambda: f"{(~np.isfinite(u)).sum()} proposals refused at density m")
            # all sequences over a coarse level alphabet, spread over the samplers by a rotating assignment
            alpha = [0.0, 0.25, 0.5, 0.75, 1.0]
            seqs = list(itertools.product(alpha, repeat=3))
            for shift in range(0, len(seqs), 25 if not ctx.thorough else 5):
                lev = np.ones((n, D + 1)) * 2.0
                for q in range(n):
                    lev[q, :3] = seqs[(q + shift) % len(seqs)]
                got = B.index(B.run(lev))
                # the draw of proposal j lies in [u_j - 1/8, u_j): accepted iff level >= u_j
                want = np.array([next((j for j in range(3) if lev[q, j] >= u[q, j]), 3) for q in range(n)])
                ctx.visit((case, shift), n); ctx.step(int(want.sum()) + n); ctx.trace(n)
                ctx.mask(case + ": draws decide every assignment of densities", got == want, lambda ix: f"levels {lev[ix[0]].tolist()} draws below {u[ix[0]].tolist()}: proposal {got[ix]}, expected {want[ix]}")
            q = lambda v: np.clip(np.ceil(v * 4).astype(int) - 1, 0, 3)  # quartile of the draw
            if gen == "mixed":
                continue
            for a, b in ((0, 1), (1, 2), (0, 2)):
                cells = {(int(x), int(y)) for x, y in zip(q(u[:, a]), q(u[:, b]))}
                ctx.check(f"{case}: draws of proposals {a} and {b} are fresh", len(cells) == 16, lambda: f"only {len(cells)} of 16 quartile pairs occur over {n} samplers")
            for j in range(3):
                cls = B.table[:, j, 0] % 2 if gen != "lattice" else np.array([int(np.asarray(mix(jnp.uint32(t[0]), jnp.uint32(t[1])))) % 4 for t in B.table[:, j]])
                cells = {(int(c), int(y)) for c, y in zip(cls, q(u[:, j]))}
                ctx.check(f"{case}: draw of proposal {j} is independent of the proposal", len(cells) == (16 if gen == "lattice" else 8), lambda: f"only {len(cells)} combinations of proposal class and draw")
                fr = [(q(u[:, j]) == c).mean() for c in range(4)]
                ctx.check(f"{case}: draws of proposal {j} are uniform", all(0.10 < f < 0.42 for f in fr), lambda: f"quartile frequencies {fr} over {n} samplers")
                ctx.outcome((gen, j))
    ctx.sample("256 parallel samplers: draws of three successive proposals bracketed to 1/8, then 125 level sequences decided by them")


@group(cost=2)
def support_and_structure(ctx):
    """zero-density proposals are never returned, structures, sizes, determinism, distinct randomness; all generators"""
    for gen, n, k in itertools.product(("zero", "lattice", "threefry", "typed"), (1, 2, 7, 33), (0, 1)):
        key = make_key(gen, k)
        case0 = f"{gen} n={n} key {k}"
        # discrete proposals of 4 classes taken from the key; every subset of classes as support
        def prop(key):
            r = raw(key)
            return {"c": (mix(r[0], r[1] + np.uint32(9)) % 4).astype(jnp.int32), "pos": jnp.stack([r[0] % 5, r[1] % 7]).astype(jnp.float32)}
        run = jax.jit(lambda dens, m: rejection_sampling(key, lambda s: dens[s["c"]], prop, n, m))
        with ctx.case(case0):
            for sup in itertools.product((0.0, 1.0), repeat=4):
                if not any(sup):
                    continue
                for m in (1.0, 3.0):
                    if gen == "zero" or m == 1.0 or gen in ("threefry", "typed"):
                        o = run(jnp.asarray(sup), m)
                        case = f"{case0} support {sup} m={m}"
                        ctx.visit(case, n); ctx.step(n); ctx.trace(); ctx.outcome((gen, sup))
                        c = np.asarray(o["c"])
                        ctx.check(case + ": shapes", c.shape == (n,) and o["pos"].shape == (n, 2), lambda: f"{c.shape}")
                        ctx.mask(case + ": never outside the support", np.array([sup[i] > 0 for i in c]), lambda ix: f"class {c[ix]} has density zero")
                        o2 = run(jnp.asarray(sup), m)
                        ctx.check(case + ": function of the key", np.array_equal(np.asarray(o2["pos"]), np.asarray(o["pos"])), "differs")
    # different samplers use different randomness; different keys give different samples; eager call
    for gen in ("threefry", "typed", "lattice"):
        with ctx.case(f"{gen} distinct"):
            outs = []
            for k in range(3):
                o = np.asarray(rejection_sampling(make_key(gen, k), lambda s: 1.0, lambda key: raw(key), 16, 1))
                ctx.visit((gen, "distinct", k), 16); ctx.step(16); ctx.trace()
                ctx.check(f"{gen} key {k}: samplers use different randomness", len({tuple(r) for r in o.tolist()}) == 16, lambda: f"{o.tolist()}")
                outs.append(tuple(map(tuple, o.tolist())))
            ctx.check(f"{gen}: different keys give different samples", len(set(outs)) == 3 and not set(outs[0]) & set(outs[1]), "samples repeat across keys")
    with ctx.case("continuous"):
        # triangular density on [0,1]: all samples inside, mean and quartiles near the exact ones
        key = jax.random.PRNGKey(3)
        o = np.asarray(rejection_sampling(key, lambda x: 2 * x, lambda k: jax.random.uniform(k), 4000, 2))
        ctx.visit("triangular", 4000); ctx.step(4000); ctx.trace()
        ctx.check("triangular density: inside", ((o > 0) & (o < 1)).all())
        ctx.check("triangular density: distribution", abs(o.mean() - 2 / 3) < 0.02 and abs((o < 0.5).mean() - 0.25) < 0.04, lambda: f"mean {o.mean()} P(x<1/2) {(o < 0.5).mean()}")
        o = np.asarray(rejection_sampling(key, lambda x: jnp.where(x[0] + x[1] < 1, 1.0, 0.0), lambda k: jax.random.uniform(k, (2,)), 500, 1))
        ctx.check("indicator of a triangle: all inside", (o.sum(1) < 1).all() and o.shape == (500, 2))
    ctx.sample("every support subset of four proposal classes x generators x n: no zero-density sample")
