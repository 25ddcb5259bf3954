"""Vector fields with closed-form flows, and plain numpy integrators, for the continuous-flow checks."""
import jax.numpy as jnp
import numpy as np
from scipy.linalg import expm

KINDS = ["linear", "sine", "swirl", "shift", "logistic"]


class Prob:
    """dx/dt = rate * f(t) * v(x) (or rate * f(t) c), f(t) = a + b t + c cos(w t): exact flow known in closed form"""

    def __init__(self, kind, g, n):
        self.kind, self.n = kind, n
        self.a, self.b, self.c = g.uniform(-1.2, 1.2, 3)
        self.w = g.uniform(0.5, 2.0)
        self.M = g.standard_normal((n, n)) * 0.6
        if kind == "shift":
            self.M = g.standard_normal(n)

    def f(self, t, xp=np):
        return self.a + self.b * t + self.c * xp.cos(self.w * t)

    def F(self, t0, t1):
        P = lambda t: self.a * t + self.b * t * t / 2 + self.c * np.sin(self.w * t) / self.w
        return P(t1) - P(t0)

    def v(self, x, xp=np):
        """velocity shape and divergence at speed one"""
        one = xp.ones(x.shape[:-1])
        if self.kind == "linear":
            return x @ xp.asarray(self.M).T, one * np.trace(self.M)
        if self.kind == "sine":
            return xp.sin(x), xp.cos(x).sum(-1)
        if self.kind == "logistic":
            return x * (1 - x), (1 - 2 * x).sum(-1)
        if self.kind == "swirl":
            r2 = (x[..., :2] ** 2).sum(-1, keepdims=True)
            rot = xp.concatenate([-x[..., 1:2], x[..., :1], 0 * x[..., 2:]], -1)
            return rot * xp.exp(-r2), 0 * one
        if self.kind == "shift":
            return xp.asarray(self.M) + 0 * x, 0 * one

    def sample(self, g, batch):
        if self.kind == "logistic":
            return g.uniform(0.05, 0.95, batch + (self.n,))
        if self.kind == "sine":
            return g.uniform(-2.8, 2.8, batch + (self.n,))
        return g.standard_normal(batch + (self.n,))

    def rhs(self, t, x, rate, xp=np):
        u, div = self.v(x, xp)
        s = rate * self.f(t, xp)
        return s * u, -s * div

    def exact(self, x, t0, t1, rate):
        """end point and change of the log-density"""
        T = rate * self.F(t0, t1)
        if self.kind == "linear":
            return x @ expm(T * self.M).T, -T * np.trace(self.M) * np.ones(x.shape[:-1])
        if self.kind == "sine":
            y = 2 * np.arctan2(np.sin(x / 2) * np.exp(T), np.cos(x / 2))
            # dy/dx = e^T / (cos^2 + e^2T sin^2)
            ld = T - np.log(np.cos(x / 2) ** 2 + np.exp(2 * T) * np.sin(x / 2) ** 2)
            return y, -ld.sum(-1)
        if self.kind == "logistic":
            den = (1 - x) + x * np.exp(T)
            return x * np.exp(T) / den, -(T - 2 * np.log(den)).sum(-1)
        if self.kind == "swirl":
            th = T * np.exp(-(x[..., 0] ** 2 + x[..., 1] ** 2))
            y = x.copy()
            y[..., 0] = np.cos(th) * x[..., 0] - np.sin(th) * x[..., 1]
            y[..., 1] = np.sin(th) * x[..., 0] + np.cos(th) * x[..., 1]
            return y, np.zeros(x.shape[:-1])
        return x + T * self.M, np.zeros(x.shape[:-1])

    def speed(self, t0, t1, rate):
        """bound on the Lipschitz constant over the interval (decides where low-order methods must be accurate)"""
        f = np.abs(rate * self.f(np.linspace(t0, t1, 50))).max()
        lip = {"linear": np.linalg.norm(self.M, 2) if self.kind == "linear" else 0, "sine": 1.0, "logistic": 2.0, "swirl": 2.0, "shift": self.w}
        return f * max(lip[self.kind], 0.3)

    def field(self):
        def vf(t, x, rate=1.0):
            return self.rhs(t, x, rate, jnp)

        return vf


def rk4(f, y, t0, t1, steps):
    """fixed uniform grid; f(t, y) returns a tuple like y"""
    h = (t1 - t0) / steps
    add = lambda y, s, k: tuple(a + s * b for a, b in zip(y, k))
    for i in range(steps):
        t = t0 + i * h
        k1 = f(t, y)
        k2 = f(t + h / 2, add(y, h / 2, k1))
        k3 = f(t + h / 2, add(y, h / 2, k2))
        k4 = f(t + h, add(y, h, k3))
        y = tuple(a + h / 6 * (p + 2 * q + 2 * r + s) for a, p, q, r, s in zip(y, k1, k2, k3, k4))
    return y


# nested tableaux written down from the literature (explicit Euler; midpoint; Crouch & Grossman 1993, order 3)
TABLEAUX = {
    "EULER": ([[]], [1.0], 1),
    "CG2": ([[], [1 / 2]], [0.0, 1.0], 2),
    "CG3": ([[], [3 / 4], [119 / 216, 17 / 108]], [13 / 51, -2 / 3, 24 / 17], 3),
}


def cg(f, y, ts, tableau, kinds, post_stage=None, post_step=None):
    """Crouch-Grossmann steps on the grid ts; kinds: 'e' (vector) or 'm' (matrix group, exp from the left) per component"""
    A, B = TABLEAUX[tableau][:2] if isinstance(tableau, str) else tableau

    def move(y, h, coef, ks):
        out = []
        for i, kind in enumerate(kinds):
            z = y[i]
            for c, k in zip(coef, ks):
                if c != 0:
                    z = z + h * c * k[i] if kind == "e" else expm(h * c * np.asarray(k[i])) @ z
            if kind == "m" and post_stage and any(c != 0 for c, _ in zip(coef, ks)):
                z = post_stage(z)
            out.append(z)
        return tuple(out)

    for t, tn in zip(ts[:-1], ts[1:]):
        h, ks = tn - t, []
        for row in A:
            ks.append(f(t + h * sum(row), move(y, h, row, ks)))
        y = move(y, h, B, ks)
        if post_step:
            y = tuple(post_step(z) if kind == "m" else z for z, kind in zip(y, kinds))
    return y


def fixed_grid(t0, t1, h):
    """t0, t0 + h, ..., with a shorter last step"""
    n = int(np.ceil(abs((t1 - t0) / h) - 1e-9))
    return np.append(t0 + np.sign(t1 - t0) * abs(h) * np.arange(n), t1)


def rk4_grid(f, y, ts):
    for t, u in zip(ts[:-1], ts[1:]):
        y = rk4(lambda s, z: f(s, z), y, t, u, 1)
    return y
