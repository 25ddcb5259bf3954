"""Statistical oracles: thresholds are set so that a correct sampler fails with probability below 1e-9 per call."""
import numpy as np
from scipy import stats

from vf import fail, must

KS = 3.4  # sqrt(n) * distance;  P < 2 exp(-2 * 3.4^2) = 2e-10
SIG = 6.5  # P < 1e-10


def ks_uniform(u, what):
    """u (n,) in [0, 1] is uniform"""
    u = np.sort(np.asarray(u, float).ravel())
    n = u.size
    if not np.all((u >= 0) & (u <= 1)):
        fail(f"{what}: outside of its range", min=u[0], max=u[-1])
    dist = max(np.max(np.arange(1, n + 1) / n - u), np.max(u - np.arange(n) / n))
    if np.sqrt(n) * dist > KS:
        fail(f"{what}: distribution of {n} samples is not the expected one (KS distance {dist:.4g}, allowed {KS / np.sqrt(n):.4g})")


def ks_normal(z, what):
    ks_uniform(stats.norm.cdf(z), what)


def mean_zero(v, what):
    """mean of independent values (n, ...) is zero, by their own standard error"""
    v = np.asarray(v)
    if np.iscomplexobj(v):
        mean_zero(v.real, what + " (real)")
        mean_zero(v.imag, what + " (imag)")
        return
    n = v.shape[0]
    m, s = v.mean(0), v.std(0) / np.sqrt(n)
    # a few extreme values make the normal approximation fail: add a bounded-difference margin
    bound = SIG * s + 20 * np.max(np.abs(v), axis=0, initial=0) / n + 1e-12
    if np.any(np.abs(m) > bound):
        i = np.unravel_index(np.argmax(np.abs(m) - bound), m.shape) if m.ndim else ()
        fail(f"{what}: mean over {n} samples deviates by {m[i]:.4g} (standard error {s[i]:.3g})")


def whiten_independent(z, what):
    """columns of z (n, k) are independent standard normal and rows are independent of each other"""
    n, k = z.shape
    for j in range(k):
        ks_normal(z[:, j], f"{what}, component {j}")
    for i in range(k):
        for j in range(i):
            mean_zero(z[:, i] * z[:, j], f"{what}, components {i} and {j} are uncorrelated")
            mean_zero((z[:, i] ** 2 - 1) * (z[:, j] ** 2 - 1), f"{what}, squares of components {i} and {j} are uncorrelated")
    rows_independent(z, what)


def rows_independent(z, what):
    n = z.shape[0]
    z = (z - z.mean(0)) / (z.std(0) + 1e-300)
    for lag in (1, 2, n // 2):
        mean_zero(z[:-lag] * z[lag:], f"{what}, samples {lag} apart are uncorrelated")
    must(len(np.unique(z[:, 0])) == n, f"{what}: samples repeat")


def frequencies(counts, probs, what):
    """multinomial counts"""
    counts, probs = np.asarray(counts, float), np.asarray(probs, float)
    n = counts.sum()
    sd = np.sqrt(n * probs * (1 - probs))
    bad = np.abs(counts - n * probs) > SIG * sd + 20
    if bad.any():
        i = int(np.argmax(np.abs(counts - n * probs) - SIG * sd))
        fail(f"{what}: entry {i} occurred {counts[i]:.0f} of {n:.0f} times, expected probability {probs[i]:.4g}")


def bernoulli(outcomes, probs, what):
    """independent yes/no outcomes with given (different) probabilities"""
    outcomes, probs = np.asarray(outcomes, float), np.asarray(probs, float)
    dev, sd = (outcomes - probs).sum(), np.sqrt((probs * (1 - probs)).sum())
    if abs(dev) > SIG * sd + 20:
        fail(f"{what}: {outcomes.sum():.0f} of {outcomes.size}, expected {probs.sum():.1f} (standard deviation {sd:.2f})")
