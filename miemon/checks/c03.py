"""C03: far-field amplitudes are exact and consistent with the cross sections."""
import math

from miemon import gen
from miemon.core import Inconclusive
from miemon.util import COND, REL, coef_floor, cond_ab, finite, sphere

PROPERTY = "C03"
RULE = (
    "case = configuration x angle form (scalar, list, array, 1D, 2D; including 0, pi, negative, beyond pi) x "
    "backend x truncation; S1/S2 are compared with the exact amplitudes, the forward value with the reported "
    "extinction, the exact quadrature over angles with the reported scattering, the intensities with S1/S2; "
    "non-trivial when the amplitudes are not negligible"
)
ASSUMPTIONS = [
    "oracle: arbitrary-precision layered sphere (see C01), Bohren-Huffman angular functions",
    "optical theorem and angular integral in lossless hosts; Gauss-Legendre quadrature is exact for the polynomial degree",
    "legacy backends: |m x| <= 20, Im(m x) <= 4",
]
TECHNIQUE = "runtime monitoring: reference oracle and physical-law monitors over returned amplitudes"


def max_im(c):
    return max(
        abs((complex(*c["eps"][p][l][i]) ** 0.5).imag) * k * r
        for p in range(len(c["r"])) for i, k in enumerate(c["k0"]) for l, r in enumerate(c["r"][p])
    )


def angles(rng, n):
    out = []
    for _ in range(n):
        out.append(rng.choice([
            rng.uniform(0, math.pi), rng.uniform(0, math.pi), rng.uniform(0, math.pi), 0.0, math.pi, math.pi / 2,
            -rng.uniform(0, math.pi), math.pi + rng.uniform(0, math.pi), 10 ** rng.uniform(-8, -2),
            math.pi - 10 ** rng.uniform(-8, -2), 2 * math.pi, rng.uniform(-20, 20),
        ]))
    return out


def generate(rng, tier):
    n = 34 if tier == "quick" else 320
    cases = []
    for fam in gen.FAMILIES:
        for j in range(n):
            c = gen.config(rng, fam, np_=rng.choice([1, 1, 2, 3]), nk=rng.choice([1, 1, 2, 3, 4]), lmax=5,
                           xhi=25.0 if tier == "quick" else 70.0, dispersive_env=rng.random() < 0.3)
            if rng.random() < 0.3:
                c["nmax"] = rng.choice([1, 2, 3, 5, 9, 25])
            form = rng.choice(["1d", "1d", "1d", "2d", "scalar", "list", "numpy", "0d", "1x1"])
            c.update(kind="far", form=form, theta=angles(rng, {"scalar": 1, "0d": 1, "1x1": 1, "2d": 6}.get(form, rng.choice([1, 2, 3, 4, 7]))))
            cases.append(c)
    # spectra: many wavelengths, dispersive host
    for j in range(16 if tier == "quick" else 100):
        c = gen.config(rng, rng.choice(["diel", "lossy", "mixed", "metal"]), np_=rng.choice([1, 2, 3]), nk=rng.randint(5, 12),
                       lmax=3, xlo=0.1, xhi=6.0, dispersive_env=True)
        cases.append(dict(c, kind="far", form="1d", theta=angles(rng, 3)))
    for j in range(4 * n):
        c = gen.config(rng, rng.choice(["diel", "lossy", "high", "mixed", "thin"]), np_=rng.choice([1, 2]),
                       nk=rng.choice([1, 2, 3]), L=rng.choice([1, 2]), xlo=0.1, xhi=8.0)
        if gen.max_arg(c) < 20 and max_im(c) < 4:
            c.update(kind="far", backend=rng.choice(["torch", "scipy"]), form=rng.choice(["1d", "2d"]), theta=angles(rng, 4))
            if c["form"] == "2d":
                c["theta"] = angles(rng, 6)
            cases.append(c)
    return cases


def run(case, mon):
    import numpy as np
    import torch
    import pymiediff as pmd

    t = gen.tensors(case)
    Np, L, Nk = gen.dims(case)
    be = case.get("backend", "pena")
    kw = dict(backend=be)
    if case.get("nmax"):
        kw["n_max"] = case["nmax"]
    N = int(pmd.multishell.mie_coefficients(**t, **kw)["n_max"])
    form = case["form"]
    th = torch.tensor(case["theta"], dtype=torch.float64)
    shape = (len(case["theta"]),)
    single = False
    if form == "1d":
        arg = th
    elif form == "2d":
        arg = th.reshape(2, 3)
        shape = (2, 3)
    elif form == "0d":
        arg, shape = th.reshape(()), (1,)
    elif form == "1x1":
        arg, shape = th.reshape(1, 1), (1, 1)
    elif form == "numpy":
        arg = np.array(case["theta"])
    else:
        arg = case["theta"][0] if form == "scalar" else list(case["theta"])
        th = torch.tensor(case["theta"]).double()
        single = True
    res = pmd.multishell.angular_scattering(theta=arg, **t, **kw)
    mon.event(f"calls_{be}")
    mon.event(f"form_{form}")
    R = {}
    for key in ("S1", "S2", "i_per", "i_par", "i_unpol", "pol_degree"):
        if not mon.ok("key", key in res, key):
            return
        v = res[key]
        if not mon.ok("shape", tuple(v.shape) == (Np, Nk) + shape, f"{key} {tuple(v.shape)} expected {(Np, Nk) + shape}"):
            return
        if key != "pol_degree":
            mon.ok("finite", finite(v), key)
        R[key] = v.reshape(Np, Nk, -1)
    for key in ("i_per", "i_par", "i_unpol", "pol_degree"):
        mon.ok("real", not R[key].is_complex(), key)
    th_r = torch.atleast_1d(torch.as_tensor(res["theta"])).reshape(-1).double()
    mon.ok("theta_returned", th_r.numel() == th.numel() and bool(torch.allclose(th_r, th, rtol=1e-6, atol=1e-12)), str(th_r))
    wl = torch.atleast_1d(res["wavelength"]).double()
    mon.le("wavelength", float((wl - 2 * math.pi / t["k0"]).abs().max() / wl.max()), 1e-14)
    mon.le("k0", float((torch.atleast_1d(res["k0"]).double() - t["k0"]).abs().max() / t["k0"].max()), 1e-15)

    # intensities are those defined by the amplitudes
    a1, a2 = R["S1"].abs() ** 2, R["S2"].abs() ** 2
    tot = a1 + a2 + 1e-300
    mon.le("i_per", float(((R["i_per"] - a1).abs() / tot).max()), 1e-12)
    mon.le("i_par", float(((R["i_par"] - a2).abs() / tot).max()), 1e-12)
    mon.le("i_unpol", float(((R["i_unpol"] - (a1 + a2) / 2).abs() / tot).max()), 1e-12)
    sel = tot > 1e-250
    if bool(sel.any()):
        mon.le("pol_degree", float((R["pol_degree"] - (a1 - a2) / tot).abs()[sel].max()), 1e-10)

    loose = 1.0 if be == "pena" else 1e4
    env_lossless = not any(e.imag for e in gen.cenv(case))
    picks = [(p, i) for p in range(Np) for i in range(Nk)]
    cs = None
    if env_lossless:
        cs = pmd.multishell.cross_sections(**t, **kw)
        mu, w = np.polynomial.legendre.leggauss(N + 3)
        q = pmd.multishell.angular_scattering(theta=torch.tensor(np.arccos(mu)), **t, **kw)
        fwd = pmd.multishell.angular_scattering(theta=torch.zeros(1, dtype=torch.float64), **t, **kw)
        w = torch.tensor(w)
    for p, i in picks:
        s = sphere(case, p, i, N)
        a, b = s.ab()
        scale0 = sum((2 * n + 3) / 2 * (abs(a[n]) + abs(b[n])) for n in range(N))
        mon.hit(scale0 > 1e-9)
        nz = 1 + (N / 10) ** 2
        floor0 = sum((2 * n + 3) * f for n, f in enumerate(coef_floor(s)))
        want = [s.s1s2(float(x)) for x in th.tolist()]
        for attempt in (0, 1):
            tol = loose * (REL * scale0 + floor0) * nz
            if single:
                tol += 2e-7 * scale0 * N * N
            if attempt:
                ka, kb = cond_ab(case, p, i, N)
                tol += loose * COND * sum((2 * n + 3) / 2 * (ka[n] + kb[n]) for n in range(N)) * nz
            err, wq = 0.0, ""
            for j, (s1, s2) in enumerate(want):
                for key, v in (("S1", s1), ("S2", s2)):
                    e = abs(complex(R[key][p, i, j]) - complex(v))
                    if not e <= err:
                        err, wq = e, f"{key}[{p},{i}] theta={float(th[j])}: {complex(R[key][p, i, j])} vs {complex(v)}"
            if err <= tol:
                break
        mon.le("amplitudes_exact" + ("_ill_conditioned" if attempt else ""), err, tol, wq)
        mon.event("amplitudes", 2 * len(want))
        if cs is not None:
            k2 = abs(complex(s.k)) ** 2
            e0 = float(cs["cs_ext"][p, i])
            f1, f2 = complex(fwd["S1"][p, i, 0]), complex(fwd["S2"][p, i, 0])
            sc, sc0 = 4 * math.pi / k2 * scale0, 1 / k2
            mon.le("forward_equal", abs(f1 - f2), 1e-12 * scale0 + 1e-24)
            mon.le("optical_theorem", abs(4 * math.pi / k2 * f1.real - e0), 1e-12 * sc + 1e-12 * abs(e0) + 1e-24 * sc0, f"{4 * math.pi / k2 * f1.real} vs {e0}")
            integ = float((w * (q["S1"][p, i].abs() ** 2 + q["S2"][p, i].abs() ** 2)).sum()) * math.pi / k2
            ref = float(cs["cs_sca"][p, i])
            mon.le("angular_integral", abs(integ - ref), 1e-9 * abs(ref) + 1e-28 * sc0, f"{integ} vs {ref}")
            mon.event("sum_rules", 2)
