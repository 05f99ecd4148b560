"""Reference values of the radial special functions (mpmath) and generators of arguments."""
import math

import mpmath as mp

from miemon import oracle

EPS = 2.3e-16


class Radial:
    """All radial functions of orders 0..nmax at one argument, with derivatives."""

    def __init__(self, nmax, z, extra=0):
        z = complex(z)
        self.nmax = nmax
        self.dps = int(36 + 1.9 * abs(z.imag) + extra)
        with mp.workdps(self.dps):
            self._fill(nmax, oracle.to_mp(z))

    def _fill(self, nmax, z):
        N = max(nmax, 1)
        psi, chi, dpsi, dchi = oracle.riccati(N, z)
        self.z = z
        c = [n * (n + 1) / z**2 - 1 for n in range(N + 1)]
        f = {"psi": (psi, dpsi), "chi": (chi, dchi)}
        f["xi"] = ([p - 1j * q for p, q in zip(psi, chi)], [p - 1j * q for p, q in zip(dpsi, dchi)])
        self.f = {}
        for k, (v, d) in f.items():
            self.f[k] = (v, d, [ci * vi for ci, vi in zip(c, v)])
            self.f["D" + k] = ([b / a if a != 0 else mp.inf for a, b in zip(v, d)],)
        for k, src, s in (("j", "psi", 1), ("y", "chi", -1), ("h", "xi", 1)):
            v, d = self.f[src][:2]
            a = [s * x / z for x in v]
            b = [s * (y / z - x / z**2) for x, y in zip(v, d)]
            g = [-2 * y / z + ci * x for x, y, ci in zip(a, b, c)]
            self.f[k] = (a, b, g)
        self.c = c

    def get(self, name, d=0):
        """d-th derivative of the function `name` for all orders (mp numbers)."""
        with mp.workdps(self.dps):
            if name in ("Dpsi", "Dxi", "Dchi"):
                D = self.f[name][0]
                if d == 0:
                    return D
                D1 = [ci - x * x for ci, x in zip(self.c, D)]
                if d == 1:
                    return D1
                return [-2 * n * (n + 1) / self.z**3 - 2 * x * y for n, (x, y) in enumerate(zip(D, D1))]
            if d <= 2:
                return self.f[name][d]
            v, b, g = self.f[name]
            if name in ("psi", "chi", "xi"):  # f''' = c' f + c f'
                return [-2 * n * (n + 1) / self.z**3 * x + ci * y for n, (x, y, ci) in enumerate(zip(v, b, self.c))]
            z = self.z
            return [2 * y / z**2 - 2 * w / z - 2 * n * (n + 1) / z**3 * x + ci * y
                    for n, (x, y, w, ci) in enumerate(zip(v, b, g, self.c))]


def origin(name, d, nmax):
    """d-th derivative at z = 0 of the regular functions."""
    out = []
    for n in range(nmax + 1):
        if name == "j":  # j_n = z^n/(2n+1)!! (1 - z^2/(2(2n+3)) ...)
            c0 = 1 / mp.fac2(2 * n + 1)
            co = {n: c0, n + 2: -c0 / (2 * (2 * n + 3))}
        else:
            raise KeyError(name)
        out.append(co.get(d, mp.mpf(0)) * mp.factorial(d))
    return out


def zeros_near(rng, nmax):
    """A double close to a zero of j_n for a random order."""
    from scipy.optimize import brentq
    from scipy.special import spherical_jn

    n = rng.randint(0, min(nmax, 20))
    x = n + 2.0 + rng.uniform(0, 20)
    f = lambda t: spherical_jn(n, t)  # noqa: E731
    while True:
        if f(x) * f(x + 0.3) < 0:
            return brentq(f, x, x + 0.3, xtol=1e-15)
        x += 0.3


def argument(rng, kind, nmax, imhi=12.0):
    if kind == "real":
        return complex(10 ** rng.uniform(-1.5, 2))
    if kind == "small":
        return complex(10 ** rng.uniform(-7, -1)) * (1 if rng.random() < 0.5 else complex(math.cos(t := rng.uniform(0, 1.57)), math.sin(t)))
    if kind == "tiny":
        return complex(10 ** rng.uniform(-12, -7))
    if kind == "large":
        return complex(rng.uniform(100, 500), rng.choice([0.0, 0.0, rng.uniform(0, 3)]))
    if kind == "lossy":
        return complex(10 ** rng.uniform(-1, 1.7), 10 ** rng.uniform(-3, math.log10(imhi)))
    if kind == "imag":
        return complex(0.0, rng.uniform(0.05, imhi))
    if kind == "gain":
        return complex(10 ** rng.uniform(-1, 1.5), -(10 ** rng.uniform(-3, 0)))
    if kind == "jzero":
        return complex(zeros_near(rng, nmax))
    if kind == "kpi":
        return complex(math.pi * rng.randint(1, 12))
    if kind == "turn":
        return complex(max(0.3, nmax + rng.uniform(-3, 3)), rng.choice([0, 0, 0.3]))
    if kind == "integer":
        return complex(rng.randint(1, 40))
    if kind == "nearreal":
        return complex(rng.uniform(0.5, 60), 10 ** rng.uniform(-14, -5))
    if kind == "opaque":
        return complex(10 ** rng.uniform(0, 2), rng.uniform(5, 60))
    raise KeyError(kind)


def layout(rng, m):
    """A shape whose size is m, plus the way the tensor is laid out in memory."""
    shapes = [(m,)]
    if m == 1:
        shapes += [(), (1, 1)]
    for a in range(2, m + 1):
        if m % a == 0:
            shapes.append((a, m // a))
            if (m // a) % 2 == 0 and m // a > 2:
                shapes.append((a, 2, m // a // 2))
    return list(rng.choice(shapes)), rng.choice(["plain", "plain", "strided", "transposed", "flipped"])


def tensor(vals, shape, how, dtype):
    """Tensor with the given values and logical shape, but a particular memory layout."""
    import torch

    t = torch.tensor(vals, dtype=torch.complex128)
    if not dtype.is_complex:
        t = t.real.clone()
    t = t.to(dtype).reshape(shape)
    if how == "strided":
        b = torch.full(tuple(t.shape) + (3,), 0.77, dtype=dtype)
        b[..., 1] = t
        return b[..., 1]
    if how == "transposed" and t.ndim >= 2:
        return t.transpose(0, -1).contiguous().transpose(0, -1)
    if how == "flipped" and t.ndim >= 1:
        b = torch.empty(tuple(t.shape[:-1]) + (2 * t.shape[-1],), dtype=dtype)
        b[..., ::2] = t
        b[..., 1::2] = 0.5
        return b[..., ::2]
    return t


# ---------------------------------------------------------------- the functions under observation
# name -> list of (reference name, derivative order) per returned tensor
FUN = {
    "sph_jn": [("j", 0)], "sph_jn_der": [("j", 1)], "sph_yn": [("y", 0)], "sph_yn_der": [("y", 1)],
    "sph_h1n": [("h", 0)], "sph_h1n_der": [("h", 1)],
    "psi": [("psi", 0), ("psi", 1)], "chi": [("chi", 0), ("chi", 1)], "xi": [("xi", 0), ("xi", 1)],
    "sph_jn_torch": [("j", 0)], "sph_jn_torch_via_rec": [("j", 0)], "sph_yn_torch": [("y", 0)],
    "sph_h1n_torch": [("h", 0)],
    "psi_torch": [("psi", 0), ("psi", 1)], "chi_torch": [("chi", 0), ("chi", 1)], "xi_torch": [("xi", 0), ("xi", 1)],
    "pena_D1_n": [("Dpsi", 0)], "pena_D3_n": [("Dxi", 0)], "pena_psi_zeta_n": [("psi", 0), ("xi", 0)],
    "D1n_torch": [("Dpsi", 0)],
}
SCIPY = {"sph_jn", "sph_jn_der", "sph_yn", "sph_yn_der", "sph_h1n", "sph_h1n_der", "psi", "chi", "xi"}
SUMS = {"h", "xi"}  # built as j + i y by all functions except the pena ones


def call(name, n, z):
    """Evaluate through the public interface; always a list of tensors."""
    from pymiediff import special as s

    if name == "pena_D3_n":
        return [s.pena_D3_n(n, z)]
    if name == "pena_psi_zeta_n":
        D1 = s.pena_D1_n(n, z)
        return list(s.pena_psi_zeta_n(n, z, D1, s.pena_D3_n(n, z, D1)))
    f = getattr(s, name, None)
    if f is None:
        return None
    out = f(n, z)
    return list(out) if isinstance(out, tuple) else [out]


def in_domain(name, nmax, z):
    """Documented / meaningful range of one function at one argument."""
    a = abs(z)
    if abs(z.imag) > 12 and not (name in SCIPY or name.startswith("pena")):
        return False  # torch recurrences without safeguards
    if name in ("sph_jn", "sph_jn_der", "sph_jn_torch"):
        return True
    if a < 1e-9:
        return False
    if name in ("sph_yn_torch", "sph_h1n_torch", "chi_torch", "xi_torch"):
        return abs(z.imag) <= 4  # upward recurrence: rounding grows with exp(2 Im z)
    if name in ("sph_jn_torch_via_rec", "D1n_torch"):
        # documented: the depth of the downward recurrence is limited
        deep = nmax + min(35, 10 + int(1.5 * a))
        grow = sum(math.log10((2 * k + 1) / a) for k in range(1, deep + 1) if (2 * k + 1) > a)
        return deep > a + 8 * a ** (1 / 3) + 8 and (name == "D1n_torch" or grow < 300)
    return True


def scale(R, name, ref, d, n):
    """Natural size of the rounding error of order n, in units of eps."""
    with mp.workdps(R.dps):
        a = abs(R.z)
        v, w = abs(R.get(ref, d)[n]), abs(R.get(ref, d + 1)[n])
        s = v + a * w
        if ref in SUMS and not name.startswith("pena"):
            for q in {"h": ("j", "y"), "xi": ("psi", "chi")}[ref]:
                s += abs(R.get(q, d)[n]) + a * abs(R.get(q, d + 1)[n])
        if d == 1 and ref in ("psi", "chi", "xi"):
            for q in {"psi": "j", "chi": "y", "xi": "jy"}[ref]:
                f = R.get(q)
                s += (n + 2) * abs(f[n]) + (a * abs(f[n - 1]) if n else a * abs(f[1] if R.nmax >= 1 else 0))
        if d == 1 and ref in ("j", "y", "h"):
            for q in {"h": "jy"}.get(ref, ref):
                f = R.get(q)
                s += (n + 2) / a * abs(f[n]) + (abs(f[n - 1]) if n else 0)
        return s
