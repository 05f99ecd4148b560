"""Stratified generators of physical configurations (JSON-able)."""
import math
import random

FAMILIES = (
    "diel", "high", "lossy", "metal", "enz", "hollow", "match", "mixed", "thin",
    "tiny", "large", "zero", "many", "hostlossy", "lossless_metal", "gainish",
)


def _eps(rng, kind, env):
    u = rng.uniform
    if kind == "diel":
        return complex(u(1.2, 2.4) ** 2, 0)
    if kind == "high":
        return complex(u(2.5, 6.0) ** 2, 0)
    if kind == "lossy":
        if rng.random() < 0.3:  # opaque: both parts of the argument large
            return complex(u(1.1, 4.0), u(0.8, 4.0)) ** 2
        return complex(u(1.1, 4.5), 10 ** u(-6, 0)) ** 2
    if kind == "metal":
        return complex(-(10 ** u(0, 1.9)), 10 ** u(-1, 1))
    if kind == "lossless_metal":
        return complex(-(10 ** u(0, 1.5)), 0)
    if kind == "enz":
        if rng.random() < 0.3:  # optically empty: |m| down to 1e-2
            return complex(10 ** u(-4, -1), 10 ** u(-5, -2))
        return complex(u(-0.3, 0.3), 10 ** u(-2, -0.5))
    if kind == "env":
        return complex(env)
    if kind == "match":
        return complex(env) * (1 + rng.choice([-1, 1]) * 10 ** u(-6, -2))
    if kind == "gain":
        return complex(u(1.2, 3.0), -(10 ** u(-5, -2))) ** 2
    raise KeyError(kind)


_KINDS = ("diel", "high", "lossy", "metal", "enz", "env", "match")


def size(rng, lo=1e-2, hi=40.0):
    """Size parameter, log-uniform with emphasis on the resonant range."""
    if rng.random() < 0.5:
        return rng.uniform(max(lo, 0.3), min(hi, 8.0)) if hi > 0.3 else rng.uniform(lo, hi)
    return math.exp(rng.uniform(math.log(lo), math.log(hi)))


def config(rng, family=None, np_=1, nk=1, lmax=6, L=None, xlo=1e-2, xhi=40.0, env_max=3.0, dispersive_env=False):
    """Np particles with L layers each, Nk wavelengths, common host."""
    fam = family or rng.choice(FAMILIES)
    if L is None:
        L = rng.choice([1, 1, 2, 2, 3, 4, rng.randint(1, lmax)])
        L = min(L, lmax)
        if fam == "many":
            L = rng.randint(min(6, lmax), max(lmax, 6) + 4)
        if fam == "hollow":
            L = max(L, 2)
        if fam == "thin":
            L = max(L, 2)
    env = 1.0 if rng.random() < 0.4 else rng.uniform(1.0, env_max**0.5) ** 2
    envs = [complex(env)] * nk
    if dispersive_env:
        envs = [complex(rng.uniform(1.0, env_max)) for _ in range(nk)]
    if fam == "hostlossy":
        envs = [complex(e.real, 10 ** rng.uniform(-4, -1.3)) for e in envs]
    k0 = [2 * math.pi / rng.uniform(250.0, 1800.0) for _ in range(nk)]

    if fam == "tiny":
        xs = (1e-4, 1e-2)
    elif fam == "large":
        xs = (max(xlo, xhi / 3), xhi)
    else:
        xs = (xlo, xhi)
    eps, radii = [], []
    for p in range(np_):
        x = size(rng, *xs) if fam not in ("tiny", "large") else math.exp(rng.uniform(math.log(xs[0]), math.log(xs[1])))
        # keep every wavelength below the size limit
        kk = max(k0[i] * abs(envs[i] ** 0.5) for i in range(nk))
        R = x / kk
        if L == 1:
            r = [R]
        elif fam == "thin":
            r = [R]
            for _ in range(L - 1):
                r.insert(0, r[0] * (1 - 10 ** rng.uniform(-5, -1)))
        else:
            f = sorted(rng.uniform(0.05, 0.98) for _ in range(L - 1))
            for i in range(1, len(f)):  # no degenerate shells
                f[i] = max(f[i], f[i - 1] * 1.002)
            r = [R * q for q in f if q < 0.999] + [R]
            while len(r) < L:
                r.insert(0, r[0] * 0.7)
        kinds = []
        for l in range(L):
            k = {
                "mixed": rng.choice(_KINDS), "thin": rng.choice(_KINDS), "many": rng.choice(_KINDS),
                "hollow": "env" if l < L - 1 and l % 2 == 0 else rng.choice(["diel", "metal", "lossy", "high"]),
                "tiny": rng.choice(_KINDS), "large": rng.choice(["diel", "high", "lossy", "match", "env"]),
                "zero": rng.choice(["diel", "high"]), "hostlossy": rng.choice(_KINDS), "gainish": rng.choice(["gain", "diel"]),
                "lossless_metal": rng.choice(["lossless_metal", "lossless_metal", "diel"]),
            }.get(fam, fam)
            kinds.append(k)
        ep = [[_eps(rng, kinds[l], envs[i]) for i in range(nk)] for l in range(L)]
        if fam == "zero":
            # put an interface on a zero of sin(z): z = m_l x_l = j pi or x_L = j pi
            i = rng.randrange(nk)
            l = rng.randrange(L)
            m = ep[l][i].real ** 0.5 if rng.random() < 0.6 else (envs[i].real ** 0.5)
            j = rng.randint(1, 6)
            target = j * math.pi / (m * k0[i])
            s = target / r[l]
            if k0[i] * abs(envs[i]) ** 0.5 * r[-1] * s > 3 * xhi:
                s = math.pi / (m * k0[i]) / r[l]
            r = [q * s for q in r]
            r[l] = target if s == target / (r[l] / s) else r[l]
            r = sorted(r)
        # strongly absorbing and huge overflows exp(): keep Im(z) moderate
        for l in range(L):
            for i in range(nk):
                im = abs((ep[l][i] ** 0.5).imag) * k0[i] * r[l]
                if im > 200:
                    ep[l][i] = complex(ep[l][i].real if ep[l][i].real > 0 else 2.0, 1e-3)
        eps.append(ep)
        radii.append(r)
    # re-check monotonic radii
    for r in radii:
        for i in range(1, len(r)):
            if not r[i] > r[i - 1] * (1 + 1e-9):
                r[i] = r[i - 1] * 1.01
    coincide(random.Random(repr((radii, k0))), k0, radii, eps, envs)
    return dict(
        family=fam, k0=k0, r=radii,
        eps=[[[[e.real, e.imag] for e in el] for el in ep] for ep in eps],
        env=[[e.real, e.imag] for e in envs],
    )


def coincide(rng, k0, radii, eps, envs):
    """Partial coincidences (in place): values shared by layers, particles, wavelengths or the host in some entries only."""
    np_, L, nk = len(eps), len(eps[0]), len(k0)
    if rng.random() > 0.3:
        return

    def put(p, l, i, v):
        if abs((v**0.5).imag) * k0[i] * radii[p][l] <= 100:
            eps[p][l][i] = v

    which = rng.choice(["layer", "layer", "layer_host", "constant", "particles", "radius", "wavelength", "twin"])
    ps = list(range(np_)) if rng.random() < 0.5 else [rng.randrange(np_)]
    i = rng.choice([0, nk - 1, rng.randrange(nk)])
    if which == "layer" and L > 1:
        l = rng.choice([1, L - 1])
        for p in ps:
            put(p, l, i, eps[p][l - 1][i])
    elif which == "layer_host":
        l = rng.choice([0, L - 1])
        for p in ps:
            put(p, l, i, complex(envs[i]))
    elif which == "constant":
        l = rng.randrange(L)
        for p in ps:
            for j in range(nk):
                put(p, l, j, eps[p][l][0])
    elif which == "particles" and np_ > 1:
        l = rng.randrange(L)
        for j in range(nk):
            put(np_ - 1, l, j, eps[0][l][j])
    elif which == "radius" and np_ > 1:
        l = rng.choice([0, L - 1])
        v = radii[0][l]
        row = radii[-1]
        if (l == 0 or v > row[l - 1] * 1.001) and (l == L - 1 or v * 1.001 < row[l + 1]) and abs(math.log(v / row[l])) < 0.7:
            row[l] = v
    elif which == "wavelength" and nk > 1:
        if abs(math.log(k0[0] / k0[-1])) < 0.5:
            k0[-1] = k0[0]
    elif which == "twin" and np_ > 1:
        radii[-1][:] = radii[0]
        for l in range(L):
            eps[-1][l][:] = eps[0][l]


def ceps(cfg):
    return [[[complex(*e) for e in el] for el in ep] for ep in cfg["eps"]]


def cenv(cfg):
    return [complex(*e) for e in cfg["env"]]


def tensors(cfg, eps_real=None):
    """float64 / complex128 tensors in the (Np, L, Nk) layout; real permittivities of either sign are real tensors in half the cases."""
    import torch

    env = cenv(cfg)
    real = not any(e[1] for ep in cfg["eps"] for el in ep for e in el)
    if eps_real is None:
        eps_real = real and random.Random(repr(cfg["eps"])).random() < 0.5
    d = dict(
        k0=torch.tensor(cfg["k0"], dtype=torch.float64),
        r_layers=torch.tensor(cfg["r"], dtype=torch.float64),
        eps_layers=torch.tensor(ceps(cfg), dtype=torch.complex128)
        if not eps_real
        else torch.tensor([[[e[0] for e in el] for el in ep] for ep in cfg["eps"]], dtype=torch.float64),
        eps_env=torch.tensor(env, dtype=torch.complex128)
        if any(e.imag for e in env)
        else torch.tensor([e.real for e in env], dtype=torch.float64),
    )
    return d


def dims(cfg):
    return len(cfg["r"]), len(cfg["r"][0]), len(cfg["k0"])


def sphere_args(cfg, p, i):
    return cfg["k0"][i], list(cfg["r"][p]), [e[i] for e in ceps(cfg)[p]], cenv(cfg)[i]


def trunc_wiscombe(x):
    x = abs(x)
    if x <= 8:
        return 1 + x + 4.0 * x ** (1 / 3)
    if x < 4200:
        return 2 + x + 4.05 * x ** (1 / 3)
    return 2 + x + 4.0 * x ** (1 / 3)


def max_arg(cfg):
    """largest |m x| over all layers."""
    out = 0.0
    for p in range(len(cfg["r"])):
        for i, k in enumerate(cfg["k0"]):
            for l, r in enumerate(cfg["r"][p]):
                out = max(out, abs(complex(*cfg["eps"][p][l][i])) ** 0.5 * k * r)
    return out


def xmax(cfg):
    return max(k * r[-1] * abs(cenv(cfg)[i]) ** 0.5 for i, k in enumerate(cfg["k0"]) for r in cfg["r"])
