"""Shared helpers of the checks: oracle access, conditioning, comparisons."""
import functools
import math

from miemon import gen, oracle
from miemon.core import Inconclusive


def sphere(cfg, p=0, i=0, nmax=None, **kw):
    k0, r, eps, env = gen.sphere_args(cfg, p, i)
    return _sphere(k0, tuple(r), tuple(eps), env, nmax, tuple(sorted(kw.items())))


@functools.lru_cache(maxsize=64)
def _sphere(k0, r, eps, env, nmax, kw):
    if abs(env.imag) == 0:
        env = env.real
    return oracle.Sphere(k0, list(r), list(eps), env, nmax=nmax, **dict(kw))


def perturbed(cfg, p, i, nmax, h=1e-9, mode=0):
    """Coefficients with all inputs relatively perturbed by ~h: conditioning probe."""
    k0, r, eps, env = gen.sphere_args(cfg, p, i)
    if mode == 0:
        k0 = k0 * (1 + h)
    elif mode == 1:
        eps = [e * (1 + h) for e in eps]
    elif mode == 2:
        r = [q * (1 + h * (-1) ** l) for l, q in enumerate(r)]
    return _sphere(k0, tuple(r), tuple(eps), env, nmax, ())


def cond_ab(cfg, p, i, nmax, h=1e-9):
    """Per order amplification |d(a,b)| / h of relative input perturbations."""
    s0 = sphere(cfg, p, i, nmax)
    a0, b0 = s0.ab()
    ka, kb = [0.0] * nmax, [0.0] * nmax
    for h in (h, 1e-13):
        for mode in range(3):
            a1, b1 = perturbed(cfg, p, i, nmax, h, mode).ab()
            for n in range(nmax):
                ka[n] = max(ka[n], abs(a1[n] - a0[n]) / h)
                kb[n] = max(kb[n], abs(b1[n] - b0[n]) / h)
    return ka, kb


# Accuracy demanded from the default backend, relative / per unit of conditioning. The recurrences
# deliver a few 1e-16 per unit; the margin leaves room for any reordering of the arithmetic.
REL, COND = 1e-12, 1e-13


def coef_floor(s):
    """Absolute rounding allowance per order, proportional to |psi_n / zeta_n| of the outer surface."""
    return [2e-14 * (n + 11) * q + 1e-290 for n, q in enumerate(s.pz)]


def coef_tol(w, n):
    """Relative allowance of the coefficient w of order n: the very last orders of a large sphere start inside
    the convergence zone of the downward recurrence and only carry an absolute error far below anything that contributes."""
    return max(REL * abs(w), min(1e-5 * abs(w), 1e-20) if n > 20 else 0.0)


def absmax(t):
    return float(t.detach().abs().max()) if t.numel() else 0.0


def finite(t):
    import torch

    return bool(torch.isfinite(torch.view_as_real(t.detach()) if t.is_complex() else t.detach()).all())
