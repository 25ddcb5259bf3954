"""Cases: sampler and target pairs (continuous, discrete, over dictionaries; targets with regions of zero density and huge
weight ratios), histories of steps with drawn keys, eager, compiled, scanned and vectorised over chains, with direct and
buffered samplers.  Oracle: the acceptance rule recomputed in numpy from the target and proposal densities; exact transition
matrix and stationary law of discrete chains against frequencies over many keys.  Non-trivial: both acceptances and
rejections occur, or a statistical case."""
import bijx
import jax
import jax.numpy as jnp
import numpy as np
from flax import nnx
from scipy import stats

from vf import close, facet, must, shape, stat


class Discrete(bijx.Distribution):
    """integers 0..n-1, or dictionaries holding them"""

    def __init__(self, logq, tree=False):
        super().__init__(None)
        self.logq = nnx.Param(jnp.asarray(logq))
        self.tree = tree

    def sample(self, batch_shape=(), rng=None, **kwargs):
        i = jax.random.categorical(rng, self.logq.get_value(), shape=batch_shape)
        return (dict(i=i, v=jnp.stack([i, 2 * i], -1)) if self.tree else i), self.logq.get_value()[i]


def ratio(lp1, lq1, lp0, lq0):
    with np.errstate(all="ignore"):
        return (np.float64(lp1) - lq1) - (np.float64(lp0) - lq0)


def check_step(state, new, info, tree_eq, what):
    """state, new, info with numpy leaves; returns (accepted, probability)"""
    p = info.proposal
    la = ratio(p.log_prob_target, p.log_prob_proposal, state.log_prob_target, state.log_prob_proposal)
    acc = bool(info.is_accepted)
    if not np.isnan(la):
        a = 1.0 if la >= 0 else float(np.exp(la))
        close(info.accept_prob, a, f"{what}: acceptance probability", rtol=1e-9, atol=1e-300, log_ratio=la)
        must(not (acc and a == 0.0), f"{what}: accepted with probability zero", log_ratio=la)
        must(acc or a < 1.0, f"{what}: rejected with probability zero", log_ratio=la)
    else:
        a = np.nan
    src = p if acc else state
    for f in ("position", "log_prob_target", "log_prob_proposal"):
        tree_eq(getattr(new, f), getattr(src, f), f"{what}: new state's {f} is that of the {'proposal' if acc else 'previous state'}")
    return acc, a


def tree_eq(got, want, what):
    jax.tree.map(lambda a, b: close(a, np.asarray(b), what, rtol=0, atol=0), got, want)


def draw_problem(d, g):
    """sampler, target (numpy-able), log-density of the proposal at x"""
    k = d.pick(["normal", "zeros", "extreme", "flow", "discrete", "tree"], "problem")
    n = d.pick([2, 2, 40], "dimension")  # 40: log-densities of the proposal below -30
    if k in ("discrete", "tree"):
        m = d.int(2, 5, "states")
        logq = np.log(g.dirichlet(np.ones(m)))
        logp = 2 * g.standard_normal(m)
        if d.bool("forbidden"):
            logp[g.integers(m)] = -np.inf
        lp = jnp.asarray(logp)
        if k == "tree":
            return k, Discrete(logq, True), lambda x: lp[x["i"]], lambda x: logq[int(x["i"])]
        return k, Discrete(logq), lambda x: lp[x], lambda x: logq[int(x)]
    prior = bijx.IndependentNormal((n,))
    m = jnp.asarray(g.standard_normal(n))
    normal_lq = lambda x: stats.norm.logpdf(np.asarray(x)).sum()
    if k == "normal":
        s = float(np.exp(0.3 * g.standard_normal()))
        return k, prior, lambda x: -0.5 * jnp.sum((x - m * 2 / n) ** 2) / s**2 + 7.0, normal_lq
    if k == "zeros":
        return k, prior, lambda x: jnp.where(x[0] > 0.2, -jnp.abs(x[1]), -jnp.inf), normal_lq
    if k == "extreme":
        c = d.pick([1e3, 1e6, 1e300], "scale")
        return k, prior, lambda x: c * jnp.sum(x) - 1e5, normal_lq
    a, b = jnp.asarray(0.3 * g.standard_normal(n)), m
    dist = bijx.Transformed(prior, bijx.AffineLinear(a, b))
    lq = lambda x: stats.norm.logpdf(np.asarray(x), np.asarray(b), np.exp(np.asarray(a))).sum()
    return k, dist, lambda x: -jnp.sum(jnp.abs(x)), lq


@nnx.jit
def _step(imh, key, state):
    return imh.step(key, state)


@facet(quick=36, thorough=400, tshards=3)
def history(d):
    g = d.gen()
    k, sampler, target, logq = draw_problem(d, g)
    imh = bijx.IMH(sampler, target)
    state = imh.init(d.key("init key"))
    mode = d.pick(["eager", "jit"], "mode")

    def consistent(s, what):
        close(s.log_prob_target, np.asarray(target(s.position)), f"{what}: target log-density", rtol=1e-12, atol=1e-300)
        close(s.log_prob_proposal, logq(s.position), f"{what}: proposal log-density", rtol=1e-9, atol=1e-9)

    consistent(state, "initial state")
    n = d.int(1, 4 if mode == "eager" else 14, "steps")
    accs = []
    for i in range(n):
        key = d.key()
        new, info = (imh.step if mode == "eager" else lambda q, s: _step(imh, q, s))(key, state)
        shape(info.is_accepted, (), "is_accepted"), shape(info.accept_prob, (), "accept_prob")
        consistent(info.proposal, f"step {i}: proposal")
        consistent(new, f"step {i}: new state")
        acc, a = check_step(state, new, info, tree_eq, f"step {i}")
        again, info2 = imh.step(key, state) if mode == "eager" else _step(imh, key, state)
        tree_eq(again.position, new.position, f"step {i}: a function of the key and state")
        close(info2.accept_prob, np.asarray(info.accept_prob), "acceptance probability is a function of the key and state", rtol=1e-12, atol=0) if not np.isnan(a) else None
        accs.append(acc)
        state = new
    d.note(problem=k, mode=mode, accepted=accs)
    return len(set(accs)) == 2


@facet(quick=20, thorough=200, tshards=3)
def transforms(d):
    """scanned and vectorised chains equal the chain of single steps"""
    g = d.gen()
    k, sampler, target, logq = draw_problem(d, g)
    imh = bijx.IMH(sampler, target)
    n, chains = d.int(2, 12, "steps"), d.int(1, 4, "chains")
    keys = jax.random.split(d.key(), (chains, n + 1))
    state = jax.vmap(imh.init)(keys[:, 0])

    def scan(state, ks):
        def body(s, q):
            s, info = imh.step(q, s)
            return s, (s, info)

        return jax.lax.scan(body, state, ks)

    final, (states, infos) = jax.jit(jax.vmap(scan))(state, keys[:, 1:])
    accs = set()
    for c in range(chains):
        s = _init(imh, keys[c, 0])
        for i in range(n):
            s2, info = _step(imh, keys[c, i + 1], s)
            here = jax.tree.map(lambda v: v[c, i], states)
            tree_close(here.position, s2.position, f"chain {c} step {i}: scanned position")
            tree_close(here.log_prob_target, s2.log_prob_target, f"chain {c} step {i}: scanned target log-density")
            tree_close(here.log_prob_proposal, s2.log_prob_proposal, f"chain {c} step {i}: scanned proposal log-density")
            must(bool(infos.is_accepted[c, i]) == bool(info.is_accepted), f"chain {c} step {i}: acceptance")
            accs.add(bool(info.is_accepted))
            s = s2
        tree_close(jax.tree.map(lambda v: v[c], final.position), s.position, f"chain {c}: final position")
    d.note(problem=k, steps=n, chains=chains)
    return len(accs) == 2


@nnx.jit
def _init(imh, key):
    return imh.init(key)


def tree_close(got, want, what):
    jax.tree.map(lambda a, b: close(a, np.asarray(b), what, rtol=1e-10, atol=1e-10), got, want)


@facet(quick=20, thorough=250, tshards=3)
def frequencies(d):
    """discrete chains: transition frequencies from every state are q_j min(1, w_j/w_i), one step keeps the target law"""
    g = d.gen()
    m = d.int(2, 6, "states")
    q = g.dirichlet(np.ones(m) * d.pick([1.0, 10.0, 0.5], "concentration"))
    q = (q + 1e-3) / (q + 1e-3).sum()
    logp = g.standard_normal(m) * d.pick([0.5, 2.0, 5.0], "ruggedness") + d.pick([0.0, 300.0], "normalisation")
    if d.bool("forbidden"):
        logp[g.integers(m)] = -np.inf
    p = np.exp(logp - logp.max())
    p /= p.sum()
    imh = bijx.IMH(Discrete(np.log(q)), lambda i: jnp.asarray(logp)[i])
    n = 20000
    step = jax.jit(jax.vmap(imh.step))
    key = d.key()
    w = p / q
    for i in np.flatnonzero(p > 0):
        start = bijx.IMHState(jnp.full(n, i), jnp.full(n, logp[i]), jnp.full(n, np.log(q[i])))
        new, info = step(jax.random.split(jax.random.fold_in(key, int(i)), n), start)
        P = q * np.minimum(1, w / w[i])
        P[i] += 1 - P.sum()
        stat.frequencies(np.bincount(np.asarray(new.position), minlength=m), P, f"transitions from state {i}")
        stat.frequencies(np.bincount(np.asarray(info.proposal.position), minlength=m), q, f"proposals from state {i}")
        a = np.asarray(info.accept_prob)
        stat.bernoulli(np.asarray(info.is_accepted), a, f"acceptance from state {i} has its reported probability")
    start = np.asarray(g.choice(m, size=n, p=p))
    state = bijx.IMHState(jnp.asarray(start), jnp.asarray(logp[start]), jnp.asarray(np.log(q)[start]))
    for t in range(3):
        state, info = step(jax.random.split(jax.random.fold_in(key, 1000 + t), n), state)
    stat.frequencies(np.bincount(np.asarray(state.position), minlength=m), p, "law after three steps from the target law")
    d.note(states=m, q=q, p=p)


@facet(quick=10, thorough=100, tshards=2)
def continuous_law(d):
    """a continuous target stays invariant; acceptance agrees with its probability in every range of probabilities"""
    g = d.gen()
    mu, s = float(g.normal(0, 0.5)), float(np.exp(g.normal(0, 0.2)))
    log_target = lambda x: -0.5 * jnp.sum((x - mu) ** 2) / s**2 + 3.0
    imh = bijx.IMH(bijx.IndependentNormal((1,)), log_target)
    n = 12000
    x = mu + s * g.standard_normal((n, 1))
    state = bijx.IMHState(jnp.asarray(x), jax.vmap(log_target)(jnp.asarray(x)), jnp.asarray(stats.norm.logpdf(x)[:, 0]))
    step = jax.jit(jax.vmap(imh.step))
    key = d.key()
    for t in range(3):
        state, info = step(jax.random.split(jax.random.fold_in(key, t), n), state)
        a, acc = np.asarray(info.accept_prob), np.asarray(info.is_accepted)
        for lo, hi in [(0, 0.3), (0.3, 0.6), (0.6, 0.999), (0, 1)]:
            sel = (a >= lo) & (a < hi)
            if sel.sum() > 50:
                stat.bernoulli(acc[sel], a[sel], f"acceptance where its probability is in [{lo}, {hi})")
        must(acc[a == 1], "rejected with acceptance probability one")
        stat.ks_normal(np.asarray(info.proposal.position)[:, 0], "proposals")
    stat.ks_normal((np.asarray(state.position)[:, 0] - mu) / s, "positions after three steps from the target law")
    d.note(mean=mu, scale=s)


@facet(quick=14, thorough=150)
def buffered(d):
    """buffered proposals: every step's proposal is the next unused entry with its own log-density"""
    g, size = d.gen(), d.int(1, 6, "buffer")
    dist = bijx.IndependentNormal((2,), rngs=nnx.Rngs(d.int(0, 1000, "rngs")))
    m = jnp.asarray(g.standard_normal(2))
    target = lambda x: -0.5 * jnp.sum((x - m) ** 2)
    imh = bijx.IMH(bijx.BufferedSampler(dist, size), target)
    state = _init(imh, d.key())
    n = d.int(1, 12, "steps")
    keys = jax.random.split(d.key(), n)
    if d.bool("scan"):
        graph, variables = nnx.split(imh)

        def body(carry, q):
            imh, s = nnx.merge(graph, carry[0]), carry[1]
            new, info = imh.step(q, s)
            return (nnx.state(imh), new), (new, info)

        _, (news, infos) = jax.lax.scan(body, (variables, state), keys)
        steps = [(jax.tree.map(lambda v: v[i], news), jax.tree.map(lambda v: v[i], infos)) for i in range(n)]
    else:
        steps, s = [], state
        for q in keys:
            s, info = _step(imh, q, s)
            steps.append((s, info))
    seen, accs = [], set()
    for i, (new, info) in enumerate(steps):
        acc, _ = check_step(state, new, info, tree_eq, f"step {i}")
        x = np.asarray(info.proposal.position)
        must(not any(np.array_equal(x, v) for v in seen), f"step {i}: repeated proposal", x=x)
        close(info.proposal.log_prob_proposal, stats.norm.logpdf(x).sum(), f"step {i}: log-density of a buffered proposal", rtol=1e-9, atol=1e-9)
        close(info.proposal.log_prob_target, np.asarray(target(x)), f"step {i}: target log-density of a buffered proposal", rtol=1e-9, atol=1e-9)
        seen.append(x)
        accs.add(acc)
        state = new
    d.note(buffer=size, steps=n)
    return n > size
