"""C21: results are finite over the whole range; single precision is faithful; double precision is not degraded."""
import math
import random
import warnings

from miemon import gen, obs
from miemon.checks.c04 import max_im, probes
from miemon.oracle import Sphere

PROPERTY = "C21"
RULE = (
    "finite: all observables over size parameters 1e-5..2000 (log-uniform and at the ends), 1..8 layers, materials from transparent to "
    "opaque, orders from 1 to far above the automatic one, probe positions in the centre, on axes and interfaces and far away, angles at both "
    "ends; single: precision='single' against precision='double'; inputs: 32-bit tensors, Python numbers, lists, integers and mixtures against "
    "64-bit tensors of the same numbers; dtypes: combinations of 32- and 64-bit real and complex arguments with every backend and precision; double: dtype and agreement of 64-bit results with the arbitrary-precision reference; non-trivial "
    "when results were compared or at least 20 numbers checked"
)
ASSUMPTIONS = [
    "physically meaningful: 1e-5 <= x <= 2000, |Im(k m r)| <= 300 in every region (double) or <= 40 (single), k r of probe positions <= 3000",
    "single-precision accuracy: 4e-7 times the sensitivity of the result to relative changes of the inputs (measured by perturbing them) plus a calibrated rounding floor",
    "points closer to the polar axis than the documented safeguard of single precision (1.5e-3 rad) are only required to be finite",
]
TECHNIQUE = "runtime monitoring: finiteness and dtype monitor on all results, differential oracle between precisions with measured conditioning, arbitrary-precision reference"


def material(rng, how, x):
    """Permittivity; x bounds the optical depth."""
    n = rng.uniform(1.1, 4.0)
    if how == "clear":
        return complex(n * n, 0)
    if how == "weak":
        return complex(n, 10 ** rng.uniform(-8, -2)) ** 2
    if how == "metal":
        return complex(-(10 ** rng.uniform(0, 2)), 10 ** rng.uniform(-2, 1))
    if how == "lossless_metal":
        return complex(-(10 ** rng.uniform(0, 1.5)), 0)
    if how == "opaque":
        return complex(n, min(8.0, 250.0 / x) * rng.uniform(0.5, 1)) ** 2
    if how == "enz":
        return complex(rng.uniform(-0.2, 0.2), 10 ** rng.uniform(-3, -1))
    if how == "gain":
        return complex(n, -(10 ** rng.uniform(-6, -3))) ** 2
    raise KeyError(how)


HOW = ("clear", "weak", "metal", "lossless_metal", "opaque", "enz", "gain")


def cfg(rng, xlo, xhi, lim, np_=1, nk=1, L=None, how=HOW):
    L = L or rng.choice([1, 1, 2, 3, 4, 6, 8])
    env = rng.choice([1.0, 1.0, 1.7689, 2.25])
    k0 = [2 * math.pi / rng.uniform(300, 1500) for _ in range(nk)]
    r, eps = [], []
    for p in range(np_):
        x = math.exp(rng.uniform(math.log(xlo), math.log(xhi)))
        if rng.random() < 0.15:
            x = rng.choice([xlo, xhi])
        R = x / max(k0) / env**0.5
        f = sorted(rng.uniform(0.05, 0.97) for _ in range(L - 1))
        row = [R * v for v in f] + [R]
        for i in range(1, L):
            row[i] = max(row[i], row[i - 1] * 1.001)
        r.append(row)
        e = []
        for l in range(L):
            v = material(rng, rng.choice(how), max(k * row[l] for k in k0))
            im = abs((v**0.5).imag) * max(k0) * row[l]
            if im > lim:
                v = complex((v**0.5).real + 1.0, (v**0.5).imag / im * lim) ** 2
            e.append([[v.real, v.imag]] * nk)
        eps.append(e)
    return dict(family="range", k0=k0, r=r, eps=eps, env=[[env, 0.0]] * nk)


def positions(rng, r, k, n):
    """Centre, axes, interfaces, inside, outside and far away."""
    out = [[0.0, 0.0, 0.0], [0.0, 0.0, r[-1]], [0.0, 0.0, -r[0]], [r[-1], 0.0, 0.0]]
    far = min(1e4, 2500 / (k * r[-1]))
    out += probes(rng, r, n, far=max(2.0, far))
    d = r[-1] * max(2.0, far)
    out += [[0.0, 0.0, d], [-0.6 * d, 0.0, 0.8 * d], [1e-12 * r[0], 0.0, 0.0], [1e-9 * r[0], -1e-9 * r[0], 1e-9 * r[0]]]
    return out


def generate(rng, tier):
    q = tier == "quick"
    cases = []
    for j in range(220 if q else 900):
        top = rng.choice([1.0, 30.0, 150.0] if q and j % 20 else [30.0, 300.0, 2000.0])
        c = cfg(rng, 1e-5, top, 300.0, np_=rng.choice([1, 1, 2]), nk=rng.choice([1, 1, 2]), L=rng.choice([1, 2, 3]) if top > 500 else None)
        o = rng.choice(obs.OBS) if j >= 8 else obs.OBS[j % 4]
        x = gen.xmax(c)
        if o == "near" and x > 200 and q:
            o = "far"
        c.update(kind="finite", obs=o, prec=rng.choice(["double", "double", "single"]) if max_im(c) < 40 and x < 300 else "double", nmax=None)
        u = rng.random()
        if u < 0.15:
            c["nmax"] = rng.choice([1, 2, 3])
        elif u < 0.3 and c["prec"] == "double":
            c["nmax"] = int(x) + rng.choice([10, 20, 40])
        if o == "near":
            c["xyz"] = positions(rng, c["r"][0], max(c["k0"]) * c["env"][0][0] ** 0.5, 12)
        c["theta"] = [0.0, math.pi, math.pi / 2, 1e-9, math.pi - 1e-9, 2 * math.pi, -1.0] + [rng.uniform(0, 6.3) for _ in range(4)]
        cases.append(c)
    for j in range(280 if q else 3000):
        kind = ("single", "inputs")[j % 2]
        c = cfg(rng, 1e-3, rng.choice([1.0, 8.0, 30.0]), 20.0, np_=rng.choice([1, 2]), nk=rng.choice([1, 2]), L=rng.choice([1, 1, 2, 2, 3, 4, 5]), how=("clear", "weak", "metal", "opaque", "weak"))
        o = rng.choice(obs.OBS)
        c.update(kind=kind, obs=o, seed=rng.randrange(1 << 30), nmax=rng.choice([1, 2, 3, max(1, int(gen.xmax(c)) + 2)]))
        c["backend"] = "pena"
        if len(c["r"][0]) <= 2 and rng.random() < 0.35 and gen.max_arg(c) < 10 and max_im(c) < 3 and gen.xmax(c) > 0.3:
            c["backend"] = rng.choice(["torch", "scipy"])
            c["nmax"] = min(c["nmax"], 6)
        if o == "near":
            c["xyz"] = [v for v in probes(rng, c["r"][0], 8, far=6.0) if apart(v, c)][:6] or [[2 * c["r"][0][-1]] * 3]
        c["theta"] = [rng.uniform(0.05, 3.0) for _ in range(4)]
        cases.append(c)
    for j in range(100 if q else 900):
        c = cfg(rng, 1e-2, rng.choice([1.0, 8.0]), 20.0, np_=rng.choice([1, 2]), nk=rng.choice([1, 2]), L=rng.choice([1, 2, 3]), how=("clear", "weak", "metal"))
        c.update(kind="double", obs=obs.OBS[j % 4], seed=rng.randrange(1 << 30), nmax=rng.choice([1, 2, 4, 6]), particle=rng.random() < 0.0)
        c["theta"] = [rng.uniform(0.05, 3.0) for _ in range(3)]
        if c["obs"] == "near":
            c["xyz"] = [v for v in probes(rng, c["r"][0], 5, far=4.0) if apart(v, c)][:4] or [[2 * c["r"][0][-1]] * 3]
        cases.append(c)
    for backend in ("pena", "torch", "scipy"):
        for prec in ("double", "single"):
            for o in obs.OBS:
                for j in range(2 if q else 6):
                    c = cfg(rng, 0.5, 3.0, 2.0, np_=rng.choice([1, 2]), nk=rng.choice([1, 2]), L=rng.choice([1, 2]), how=("clear", "weak"))
                    c.update(kind="dtypes", obs=o, backend=backend, prec=prec, nmax=3, seed=rng.randrange(1 << 30))
                    c["theta"] = [rng.uniform(0.05, 3.0) for _ in range(3)]
                    c["xyz"] = [v for v in probes(rng, c["r"][0], 6, far=4.0) if apart(v, c)][:4] or [[2 * c["r"][0][-1]] * 3]
                    cases.append(c)
    return cases


def apart(v, c):
    """Neither on an interface nor on the polar axis of single precision."""
    r = math.hypot(*v)
    if r < 1e-2 * c["r"][0][0] or math.hypot(v[0], v[1]) < 0.02 * r:
        return False
    return all(abs(r / q - 1) > 1e-5 for row in c["r"] for q in row)


def run(case, mon):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        {"finite": finite, "single": single, "inputs": inputs, "double": double, "dtypes": dtypes}[case["kind"]](case, mon)


def call(case, a, **kw):
    import torch

    th = kw.pop("theta", None)
    xyz = kw.pop("xyz", None)
    if th is None:
        th = torch.tensor(case["theta"], dtype=torch.float64)
    if xyz is None and case["obs"] == "near":
        xyz = torch.tensor(case["xyz"], dtype=torch.float64)
    if case.get("nmax"):
        kw["n_max"] = case["nmax"]
    return obs.call(case["obs"], a, theta=th, xyz=xyz, raw=True, **kw)


def isfinite(t):
    import torch

    t = torch.view_as_real(t) if t.is_complex() else t
    return torch.isfinite(t)


def finite(case, mon):
    import torch

    a = gen.tensors(case)
    res = call(case, a, precision=case["prec"])
    total = 0
    for k, v in res.items():
        if isinstance(v, torch.Tensor) and (v.is_floating_point() or v.is_complex()):
            f = isfinite(v)
            total += v.numel()
            mon.ok("finite", bool(f.all()), lambda: f"{case['obs']} {k}: {int((~f).sum())} of {f.numel()} not finite, first at {(~f).nonzero()[0].tolist() if not bool(f.all()) else None}, precision {case['prec']}, x={gen.xmax(case):.3g}, Im(z)={max_im(case):.3g}, n_max={int(torch.as_tensor(res.get('n_max', 0)))}")
            mon.event("numbers", v.numel())
    x = gen.xmax(case)
    mon.event("x<1e-3" if x < 1e-3 else "x<1" if x < 1 else "x<30" if x < 30 else "x<300" if x < 300 else "x>=300")
    mon.event("opaque" if max_im(case) > 10 else "translucent")
    if total >= 1:
        mon.hit()


def scale(case, key, ref):
    """Size against which deviations of a result are measured: that of its physical group."""
    import torch

    t = ref[key].abs()
    if case["obs"] == "coef":
        # small multipoles are differences of terms of the size of the largest one
        m = torch.stack([ref[k].abs().amax(0) for k in obs.KEYS["coef"]]).amax(0)
        return m.expand(t.shape)
    if case["obs"] == "cs":
        # cross sections are real parts of coefficients: sum of (2n+1)|a_n|
        n = torch.arange(1, ref["cs_sca_multipoles"].shape[1] + 1, dtype=torch.float64)[None, :, None, None]
        k2 = torch.tensor([k * k * e[0] for k, e in zip(case["k0"], case["env"])], dtype=torch.float64)
        m = torch.sqrt((2 * n + 1) * ref["cs_sca_multipoles"].abs() * 2 * math.pi / k2).sum((0, 1))
        if key.startswith("q_"):
            m = m * (ref["q_sca"] / ref["cs_sca"]).abs()
        return m.expand(t.shape)
    if case["obs"] == "far":
        ks = ("S1", "S2") if key.startswith("S") else ("i_par", "i_per")
        m = torch.stack([ref[k].abs() for k in ks]).amax(0)
        return m.amax(-1, keepdim=True).expand(t.shape)
    n = torch.tensor([e[0] ** 0.5 for e in case["env"]], dtype=torch.float64)[None, :, None, None]
    q = key[1:]
    m = torch.maximum(ref["E" + q].abs().amax(-1, keepdim=True), ref["H" + q].abs().amax(-1, keepdim=True) / n)
    if q != "_i":
        m = torch.maximum(m, 1e-2 * ref["E_i"].abs().amax(-1, keepdim=True))
    return (m * (n if key[0] == "H" else 1)).expand(t.shape)


SMALL = 1e-7


def perturb(case, a):
    """Relative perturbations of every input."""
    import torch

    L = a["r_layers"].shape[1]
    yield dict(a, k0=a["k0"] * (1 + SMALL)), {}
    yield dict(a, eps_env=a["eps_env"] * (1 + SMALL)), {}
    for l in range(L):
        r = a["r_layers"].clone()
        r[:, l] *= 1 + SMALL
        yield dict(a, r_layers=r), {}
        for f in (1 + SMALL, complex(1, SMALL)):
            e = a["eps_layers"].to(torch.complex128).clone()
            e[:, l] *= f
            yield dict(a, eps_layers=e), {}
    if case["obs"] == "far":
        yield a, dict(theta=1 + SMALL)
    if case["obs"] == "near":
        for j in range(3):
            f = torch.ones(3, dtype=torch.float64)
            f[j] += SMALL
            yield a, dict(xyz=f)


def sensitivity(case, a, ref, keys, **kw):
    import torch

    out = {k: torch.zeros_like(ref[k].abs()) for k in keys}
    for b, q in perturb(case, a):
        extra = {}
        if "theta" in q:
            extra["theta"] = torch.tensor(case["theta"], dtype=torch.float64) * q["theta"]
        if "xyz" in q:
            extra["xyz"] = torch.tensor(case["xyz"], dtype=torch.float64) * q["xyz"]
        r = call(case, b, **extra, **kw)
        for k in keys:
            out[k] = out[k] + (r[k] - ref[k]).abs() / SMALL
    for k in keys:
        ax = obs.AXES.get(k, "")
        if "c" in ax:
            out[k] = out[k].amax(-1, keepdim=True).expand(out[k].shape)
        if "a" in ax:
            out[k] = out[k].amax(tuple(range(2, out[k].ndim)), keepdim=True).expand(out[k].shape)
    return out


def keys_of(case):
    ks = obs.KEYS[case["obs"]]
    return list(ks)


def judge(case, mon, name, got, ref, sens, eps, floor, note):
    import torch

    for k in sens:
        g, r = got[k].detach(), ref[k]
        if not mon.ok(name + "_shape", g.shape == r.shape, lambda: f"{k} {tuple(g.shape)} {tuple(r.shape)} {note}"):
            continue
        if not mon.ok(name + "_finite", bool(isfinite(g).all()), lambda: f"{k} not finite {note}"):
            continue
        s = scale(case, k, ref)
        tol = eps * sens[k] + floor * s + 1e-30
        d = (g.to(r.dtype) - r).abs() / tol
        j = int(d.argmax())
        mon.le(name, float(d.reshape(-1)[j]), 1.0, lambda: f"{k}[{j}]: {g.reshape(-1)[j]} double {r.reshape(-1)[j]} {note}; sensitivity {float(sens[k].reshape(-1)[j]):.3g}")


def single(case, mon):
    a = gen.tensors(case)
    ref = call(case, a, backend=case["backend"])
    got = call(case, a, backend=case["backend"], precision="single")
    ks = keys_of(case)
    sens = sensitivity(case, a, ref, ks, backend=case["backend"])
    judge(case, mon, "single_mode", got, ref, sens, 4e-6, (2e-3 if case["obs"] == "near" else 3e-4) * max(1.0, case["nmax"] / 8), f"{case['backend']} n_max={case['nmax']}")
    mon.event("single_" + case["backend"])
    mon.hit()


def round32(c):
    """The same configuration with numbers that are exact in single precision."""
    import torch

    f = lambda v: float(torch.tensor(v, dtype=torch.float32))
    c = dict(c)
    c["k0"] = [f(v) for v in c["k0"]]
    c["r"] = [[f(v) for v in row] for row in c["r"]]
    c["eps"] = [[[[f(w) for w in v] for v in row] for row in e] for e in c["eps"]]
    c["env"] = [[f(v[0]), f(v[1])] for v in c["env"]]
    c["theta"] = [f(v) for v in c["theta"]]
    if "xyz" in c:
        c["xyz"] = [[f(v) for v in row] for row in c["xyz"]]
    return c


def inputs(case, mon):
    import numpy as np
    import torch

    rng = random.Random(case["seed"])
    form = rng.choice(["f32", "f32", "lists", "mixed", "numbers", "int", "legacy"])
    if form == "int":
        R = [[max(1, round(v)) for v in row] for row in case["r"]]
        if any(b <= a for row in R for a, b in zip(row, row[1:])):
            form = "f32"
        else:
            case = dict(case, r=[[float(v) for v in row] for row in R])
    if form == "numbers" and not (len(case["r"]) == 1 and len(case["k0"]) == 1):
        form = "lists"
    c = round32(case)
    np_, L, nk = gen.dims(c)
    a = gen.tensors(c)
    ref = call(c, a, backend=c["backend"])
    env = c["env"][0][0]
    low = dict(
        k0=a["k0"].float(), r_layers=a["r_layers"].float(), eps_layers=a["eps_layers"].to(torch.complex64), eps_env=a["eps_env"].float(),
    )
    clear = all(v[1] == 0 for row in c["eps"] for e in row for v in e)
    if clear and rng.random() < 0.5:
        low["eps_layers"] = low["eps_layers"].real.contiguous()
    b = dict(low)
    if form == "lists":
        b = dict(k0=c["k0"], r_layers=c["r"], eps_layers=a["eps_layers"].tolist(), eps_env=env)
    elif form == "numbers":
        b = dict(k0=c["k0"][0], r_c=c["r"][0][0], eps_c=complex(*c["eps"][0][0][0]), eps_env=env)
        if L == 2:
            b.update(r_s=c["r"][0][1], eps_s=complex(*c["eps"][0][1][0]))
        if L > 2:
            b = dict(k0=c["k0"][0], r_layers=c["r"][0], eps_layers=[complex(*e[0]) for e in c["eps"][0]], eps_env=env)
    elif form == "mixed":
        b = {k: (v if rng.random() < 0.5 else a[k]) for k, v in low.items()}
    elif form == "int":
        b["r_layers"] = torch.tensor(R)
        if rng.random() < 0.5:
            b["r_layers"] = rng.choice([R, np.array(R)])
    elif form == "legacy" and L <= 2:
        b = dict(k0=low["k0"], eps_env=low["eps_env"], r_c=low["r_layers"][:, 0], eps_c=low["eps_layers"][:, 0])
        if L == 2:
            b.update(r_s=low["r_layers"][:, 1], eps_s=low["eps_layers"][:, 1])
    kw = dict(backend=c["backend"])
    if rng.random() < 0.5:
        kw["theta"] = torch.tensor(c["theta"], dtype=torch.float32)
        if "xyz" in c:
            kw["xyz"] = torch.tensor(c["xyz"], dtype=torch.float32)
    got = call(c, b, **kw)
    ks = keys_of(c)
    sens = sensitivity(c, a, ref, ks, backend=c["backend"])
    kr = max(c["k0"]) * c["env"][0][0] ** 0.5 * max(math.hypot(*v) for v in c["xyz"]) if c["obs"] == "near" else 0.0
    judge(c, mon, "single_input", got, ref, sens, 1e-6, 1e-5 + 1e-6 * kr, f"{c['backend']} {form} n_max={c['nmax']}")
    mon.event("form_" + form)
    mon.hit()


def dtypes(case, mon):
    """Every combination of 32- and 64-bit arguments gives the result of the same numbers in 64 bits."""
    import itertools
    import torch

    c = round32(case)
    clear = all(v[1] == 0 for row in c["eps"] for e in row for v in e)
    a = gen.tensors(c)
    kw = dict(backend=c["backend"])
    ref = call(c, a, **kw)
    ks = keys_of(c)
    sens = sensitivity(c, a, ref, ks, **kw)
    real = (torch.float32, torch.float64)
    every = real + (torch.complex64, torch.complex128)
    rng = random.Random(case["seed"])
    combos = list(itertools.product(real, real, every if clear else every[2:], every, real))
    floor = 2e-3 if c["obs"] == "near" else 3e-4
    for dk, dr, de, dn, dp in rng.sample(combos, min(len(combos), 24)):
        b = dict(k0=a["k0"].to(dk), r_layers=a["r_layers"].to(dr), eps_layers=a["eps_layers"].real.to(de) if de in real else a["eps_layers"].to(de), eps_env=a["eps_env"].to(dn))
        extra = {}
        if c["obs"] == "far":
            extra["theta"] = torch.tensor(c["theta"], dtype=dp)
        if c["obs"] == "near":
            extra["xyz"] = torch.tensor(c["xyz"], dtype=dp)
        note = f"{c['backend']} {c['prec']} {dk} {dr} {de} {dn} {dp}"
        try:
            got = call(c, b, precision=c["prec"], **extra, **kw)
        except Exception as e:
            mon.ok("dtype_accepted", False, f"{c['obs']} {note}: {type(e).__name__}: {e}")
            continue
        mon.ok("dtype_accepted", True)
        judge(c, mon, "dtype_value", got, ref, sens, 4e-6, floor, note)
    mon.event("dtypes_" + c["backend"])
    mon.hit()


def double(case, mon):
    import torch

    rng = random.Random(case["seed"])
    a = gen.tensors(case)
    form = rng.choice(["plain", "numpy", "real", "legacy", "default_env"])
    np_, L, nk = gen.dims(case)
    clear = all(v[1] == 0 for row in case["eps"] for e in row for v in e)
    b = dict(a)
    if form == "numpy":
        b = {k: v.numpy() for k, v in a.items()}
    elif form == "real" and clear:
        b["eps_layers"] = a["eps_layers"].real.contiguous()
    elif form == "legacy" and L <= 2:
        b = dict(k0=a["k0"], eps_env=a["eps_env"], r_c=a["r_layers"][:, 0], eps_c=a["eps_layers"][:, 0])
        if L == 2:
            b.update(r_s=a["r_layers"][:, 1], eps_s=a["eps_layers"][:, 1])
    elif form == "default_env" and case["env"][0][0] == 1.0:
        b.pop("eps_env")
    res = call(case, b)
    for k, v in res.items():
        if isinstance(v, torch.Tensor) and (v.is_floating_point() or v.is_complex()) and k not in ("eps_env", "n_env"):
            mon.ok("double_dtype", v.dtype in (torch.float64, torch.complex128), lambda: f"{case['obs']} {k} is {v.dtype} for 64-bit {form} input")
    for p in range(np_):
        for i in range(nk):
            s = Sphere(case["k0"][i], case["r"][p], [complex(*e[i]) for e in case["eps"][p]], case["env"][i][0], case["nmax"])
            check(case, mon, s, {k: v[..., p, i] if obs.AXES[k].endswith("pk") else v[p, i] for k, v in res.items() if k in obs.AXES}, form)
    mon.event("double_" + form)
    mon.hit()


def check(case, mon, s, res, form):
    """Agreement far beyond single precision (1e-8; single precision deviates by 1e-7 at least)."""
    import torch

    N = case["nmax"]

    def cmp(name, got, want, ref):
        err = float((got.to(torch.complex128) - torch.tensor(want, dtype=torch.complex128)).abs().max())
        mon.le("double_accuracy", err, 5e-10 * ref, lambda: f"{name} {form}: {got.reshape(-1)[:3].tolist()} exact {want}")

    if case["obs"] == "coef":
        A, B = [complex(v) for v in s.a[1:]] if len(s.a) == N + 1 else [complex(v) for v in s.a], None
        A = [complex(v) for v in s.ab()[0]][:N]
        B = [complex(v) for v in s.ab()[1]][:N]
        cmp("a_n", res["a_n"], A, max(map(abs, A)))
        cmp("b_n", res["b_n"], B, max(max(map(abs, B)), 1e-3 * max(map(abs, A))))
    elif case["obs"] == "cs":
        c = s.cross_sections()
        cmp("cs_ext", res["cs_ext"], float(c["ext"]), max(abs(float(c["ext"])), float(c["sca"])))
        cmp("cs_sca", res["cs_sca"], float(c["sca"]), abs(float(c["sca"])))
        cmp("q_ext", res["q_ext"], float(c["ext"]) / float(c["geo"]), max(abs(float(c["ext"])), float(c["sca"])) / float(c["geo"]))
    elif case["obs"] == "far":
        for j, t in enumerate(case["theta"]):
            s1, s2 = (complex(v) for v in s.s1s2(t))
            m = max(abs(s1), abs(s2))
            cmp("S1", res["S1"][j], s1, m)
            cmp("S2", res["S2"][j], s2, m)
            cmp("i_unpol", res["i_unpol"][j], (abs(s1) ** 2 + abs(s2) ** 2) / 2, m * m)
    else:
        for j, p in enumerate(case["xyz"]):
            E, H, Ei, Hi = ([complex(v) for v in f] for f in s.fields(p, 1.0, N))
            n = case["env"][0][0] ** 0.5
            m = max(max(map(abs, E)), max(map(abs, H)) / n)
            cmp("E_s", res["E_s"][j], E, m)
            cmp("H_s", res["H_s"][j], H, m * n)
            cmp("E_i", res["E_i"][j], Ei, max(map(abs, Ei)))
