"""C05: returned fields obey Maxwell's equations and carry the reported power."""
import math

from miemon import gen
from miemon.checks.c04 import direction, max_im
from miemon.util import finite

PROPERTY = "C05"
RULE = (
    "case = configuration x law; laws: (maxwell) curl and divergence of the returned fields by 6th-order "
    "differences around random points of every region, (interface) jumps across every interface, (farzone) exact "
    "polynomial extrapolation in 1/kr of the scattered field against S1/S2, (flux) Poynting flux by exact "
    "spherical quadrature against the cross sections, outside and inside lossless shells; non-trivial when the "
    "scattered or internal field is not negligible"
)
ASSUMPTIONS = [
    "no reference solution is used: physics laws are evaluated on the returned fields themselves",
    "time convention exp(-i w t), H in units of E (vacuum impedance 1), as documented",
    "power statements in lossless hosts, size parameter <= 12; far zone for size parameters <= 3",
    "legacy backends: |m x| <= 18, Im(m x) <= 4",
]
TECHNIQUE = "runtime monitoring: physical-law (curl, continuity, power balance) monitors over returned fields"


def generate(rng, tier):
    n = 6 if tier == "quick" else 70
    cases = []

    def nbatch():
        return rng.choice([(1, 1), (1, 1), (1, 2), (2, 1), (2, 2)])

    for fam in gen.FAMILIES:
        if fam == "tiny":
            continue
        for j in range(n):
            for law in ("maxwell", "interface", "farzone", "flux"):
                if law == "flux" and fam in ("hostlossy",) or law == "farzone" and (fam in ("hostlossy", "large")):
                    continue
                np_, nk = nbatch()
                c = gen.config(rng, fam, np_=np_, nk=nk, lmax=4, xlo=0.1, xhi=3.0 if law == "farzone" else 10.0,
                               dispersive_env=rng.random() < 0.3)
                if law == "farzone" and gen.xmax(c) > 4:
                    continue
                c.update(kind=law, E0=rng.choice([[1.0, 0.0], [rng.uniform(-2, 2), rng.uniform(-2, 2)]]), seed=rng.randrange(1 << 30))
                if law == "flux" and rng.random() < 0.3:
                    c["nmax"] = rng.choice([1, 2, 4])
                cases.append(c)
    for j in range(8 * n):
        np_, nk = nbatch()
        c = gen.config(rng, rng.choice(["diel", "lossy", "high", "mixed", "metal"]), np_=np_, nk=nk,
                       L=rng.choice([1, 2]), xlo=0.3, xhi=5.0)
        if gen.max_arg(c) < 18 and max_im(c) < 4:
            if True:  # beyond their own truncation rule, which is not the subject here
                c["nmax"] = int(gen.trunc_wiscombe(gen.xmax(c))) + 8
            c.update(kind=rng.choice(["maxwell", "interface", "flux"]), backend=rng.choice(["torch", "scipy"]),
                     E0=[1.0, 0.0], seed=rng.randrange(1 << 30))
            cases.append(c)
    return cases


def run(case, mon):
    import random

    rng = random.Random(case["seed"])
    kw = dict(backend=case.get("backend", "pena"))
    if case.get("nmax"):
        kw["n_max"] = case["nmax"]
    E0 = complex(*case["E0"])
    globals()[case["kind"]](case, mon, rng, kw, E0, gen.tensors(case))


def fields(pmd, t, xyz, E0, kw):
    import torch

    f = pmd.multishell.nearfields(r_probe=torch.tensor(xyz, dtype=torch.float64), E_0=E0 if E0.imag else E0.real, **t, **kw)
    return {k: v.detach().to(torch.complex128).numpy() for k, v in f.items()}


def eps_of(case, p, i, g):
    L = len(case["r"][p])
    return complex(*case["env"][i]) if g == L else complex(*case["eps"][p][g][i])


C1 = (3 / 4, -3 / 20, 1 / 60)  # 6th order first derivative


def maxwell(case, mon, rng, kw, E0, t):
    import numpy as np
    import pymiediff as pmd

    Np, L, Nk = gen.dims(case)
    loose = 1.0 if kw["backend"] == "pena" else 20.0
    for p in range(Np):
        radii = case["r"][p]
        pts, meta = [], []
        for g in range(L + 1):
            lo = radii[g - 1] if g else 0.0
            hi = radii[g] if g < L else radii[-1] * 2.5
            for rep in range(2):
                r = lo + (hi - lo) * rng.uniform(0.3, 0.7)
                d = None
                while d is None or math.hypot(d[0], d[1]) < 0.15:
                    d = direction(rng)
                c = [r * q for q in d]
                # the stencil (3 h) stays inside the region; h resolves the shortest scale
                nmax_ = max(abs(eps_of(case, p, i, g)) ** 0.5 * case["k0"][i] for i in range(Nk))
                h = min(0.03 / nmax_, 0.01 * r, 0.05 * (hi - lo))
                for a in range(3):
                    for m in (-3, -2, -1, 1, 2, 3):
                        q = list(c)
                        q[a] += m * h
                        pts.append(q)
                pts.append(c)
                meta.append((g, h, c))
        F = fields(pmd, t, pts, E0, kw)
        Et, Ht = F["E_t"], F["H_t"]
        mon.ok("finite", np.isfinite(Et).all() and np.isfinite(Ht).all())
        for i in range(Nk):
            k0 = case["k0"][i]
            for j, (g, h, c) in enumerate(meta):
                eps = eps_of(case, p, i, g)
                b = 19 * j

                def jac(X):
                    J = np.zeros((3, 3), complex)  # J[a, comp]
                    for a in range(3):
                        s = X[p, i, b + 6 * a : b + 6 * a + 6]
                        J[a] = (C1[0] * (s[3] - s[2]) + C1[1] * (s[4] - s[1]) + C1[2] * (s[5] - s[0])) / h
                    return J

                JE, JH = jac(Et), jac(Ht)
                curl = lambda J: np.array([J[1, 2] - J[2, 1], J[2, 0] - J[0, 2], J[0, 1] - J[1, 0]])
                E, H = Et[p, i, b + 18], Ht[p, i, b + 18]
                se, sh = abs(JE).max(), abs(JH).max()
                ne, nh = abs(E).max(), abs(H).max()
                # noise of the returned fields divided by the step
                rel = 1e-7
                noise = 3e-11 / h
                te = loose * (rel * (se + k0 * nh) + noise * ne)
                th = loose * (rel * (sh + k0 * abs(eps) * ne) + noise * nh)
                w = f"p{p} k{i} region {g}/{L} at {c}"
                mon.le("curl_E", abs(curl(JE) - 1j * k0 * H).max(), te, w)
                mon.le("curl_H", abs(curl(JH) + 1j * k0 * eps * E).max(), th, w)
                mon.le("div_E", abs(JE.trace()), te, w)
                mon.le("div_H", abs(JH.trace()), th, w)
                mon.event("outside" if g == L else ("core" if g == 0 else "shell"))
                mon.hit(ne > 1e-12)


def interface(case, mon, rng, kw, E0, t):
    import numpy as np
    import pymiediff as pmd

    Np, L, Nk = gen.dims(case)
    for p in range(Np):
        radii = case["r"][p]
        pts, meta = [], []
        for l in range(L):
            for rep in range(4):
                d = direction(rng)
                pts.append([radii[l] * (1 - 1e-12) * q for q in d])
                pts.append([radii[l] * (1 + 1e-12) * q for q in d])
                meta.append((l, np.array(d)))
        F = fields(pmd, t, pts, E0, kw)
        Et, Ht = F["E_t"], F["H_t"]
        mon.ok("finite", np.isfinite(Et).all() and np.isfinite(Ht).all())
        for i in range(Nk):
            for j, (l, d) in enumerate(meta):
                e0, e1 = Et[p, i, 2 * j], Et[p, i, 2 * j + 1]
                h0, h1 = Ht[p, i, 2 * j], Ht[p, i, 2 * j + 1]
                a, b = eps_of(case, p, i, l), eps_of(case, p, i, l + 1)
                tang = lambda v: v - d * (v @ d)
                rel = 3e-6 if kw["backend"] == "pena" else 3e-5
                se = max(abs(e0).max(), abs(e1).max())
                sh = max(abs(h0).max(), abs(h1).max(), 1e-3 * se)
                w = f"p{p} k{i} interface {l} direction {d.tolist()}"
                mon.le("tangential_E", abs(tang(e0 - e1)).max(), rel * se, w)
                mon.le("tangential_H", abs(tang(h0 - h1)).max(), rel * sh, w)
                mon.le("normal_H", abs((h0 - h1) @ d), rel * sh, w)
                mon.le("normal_D", abs((a * e0 - b * e1) @ d), rel * max(abs(a) * abs(e0).max(), abs(b) * abs(e1).max()), w)
                mon.event("interfaces")
                mon.hit(se > 1e-12)


def farzone(case, mon, rng, kw, E0, t):
    import numpy as np
    import torch
    import pymiediff as pmd

    Np, L, Nk = gen.dims(case)
    kw = dict(kw)
    N = min(int(pmd.multishell.mie_coefficients(**t, **kw)["n_max"]), 8)
    kw["n_max"] = N
    M = N + 3
    nodes = [1 / 60 * 0.5 * (1 + math.cos(math.pi * (j + 0.5) / M)) + 1 / 400 for j in range(M)]  # u = 1/(k r)
    lag = []  # value at u = 0 of the interpolating polynomial
    for a in range(M):
        w = 1.0
        for b in range(M):
            if a != b:
                w *= (0 - nodes[b]) / (nodes[a] - nodes[b])
        lag.append(w)
    amp = sum(map(abs, lag))
    dirs = [(rng.uniform(0.1, math.pi - 0.1), rng.uniform(-math.pi, math.pi)) for _ in range(3)]
    ang = pmd.multishell.angular_scattering(theta=torch.tensor([a for a, _ in dirs], dtype=torch.float64), **t, **kw)
    for i in range(Nk):
        k = case["k0"][i] * complex(*case["env"][i]).real ** 0.5
        for p in range(Np):
            if min(1 / u for u in nodes) < 1.5 * k * case["r"][p][-1]:
                return
        pts = []
        for th, ph in dirs:
            for u in nodes:
                r = 1 / u / k
                pts.append([r * math.sin(th) * math.cos(ph), r * math.sin(th) * math.sin(ph), r * math.cos(th)])
        F = fields(pmd, t, pts, E0, kw)
        ne = complex(*case["env"][i]).real ** 0.5
        for p in range(Np):
            S1, S2 = ang["S1"][p, i].numpy(), ang["S2"][p, i].numpy()
            sc = max(abs(S1).max(), abs(S2).max(), 1e-20)
            for j, (th, ph) in enumerate(dirs):
                et = np.array([math.cos(th) * math.cos(ph), math.cos(th) * math.sin(ph), -math.sin(th)])
                ep = np.array([-math.sin(ph), math.cos(ph), 0.0])
                er = np.array([math.sin(th) * math.cos(ph), math.sin(th) * math.sin(ph), math.cos(th)])
                a_t = a_p = a_r = h_t = h_p = 0
                for q, u in enumerate(nodes):
                    ph_ = np.exp(-1j / u) * (-1j / u) / E0 * lag[q]
                    e = F["E_s"][p, i, j * M + q] * ph_
                    hh = F["H_s"][p, i, j * M + q] * ph_ / ne
                    a_t, a_p, a_r = a_t + e @ et, a_p + e @ ep, a_r + e @ er
                    h_t, h_p = h_t + hh @ et, h_p + hh @ ep
                tol = 1e-6 * sc + 1e-9 * amp * sc + 1e-14 * amp
                w = f"p{p} k{i} theta={th} phi={ph}"
                mon.le("far_E_theta", abs(a_t - math.cos(ph) * S2[j]), tol, w)
                mon.le("far_E_phi", abs(a_p + math.sin(ph) * S1[j]), tol, w)
                mon.le("far_E_radial", abs(a_r), tol, w)
                mon.le("far_H_phi", abs(h_p - a_t), 2 * tol, w)
                mon.le("far_H_theta", abs(h_t + a_p), 2 * tol, w)
                mon.event("far_directions")
                mon.hit(sc > 1e-9)


def flux(case, mon, rng, kw, E0, t):
    import numpy as np
    import pymiediff as pmd

    Np, L, Nk = gen.dims(case)
    cs = pmd.multishell.cross_sections(**t, **kw)
    N = int(cs["n_max"])
    for p in range(Np):
        for i in range(Nk):
            radii = case["r"][p]
            ne = complex(*case["env"][i]).real ** 0.5
            k = case["k0"][i] * ne
            surf = [(L, radii[-1] * (1 + 10 ** rng.uniform(-3, 0.3)))]
            # inside a lossless shell the same net power flows inward as outside of all absorbers
            for l in range(L - 1, -1, -1):
                if complex(*case["eps"][p][l][i]).imag != 0:
                    break
                lo = radii[l - 1] if l else 0.3 * radii[0]
                surf.append((l, lo + (radii[l] - lo) * rng.uniform(0.2, 0.9)))
            for g, r in surf[:3]:
                nn = abs(eps_of(case, p, i, g)) ** 0.5
                M = N + int(case["k0"][i] * max(nn, ne) * r) + 12
                mu, w = np.polynomial.legendre.leggauss(M)
                ph = 2 * math.pi * (np.arange(6) + rng.random()) / 6
                st = np.sqrt(1 - mu**2)
                d = np.stack([np.outer(st, np.cos(ph)), np.outer(st, np.sin(ph)), np.outer(mu, np.ones(6))], -1).reshape(-1, 3)
                W = np.repeat(w, 6) * (2 * math.pi / 6) * r**2
                F = fields(pmd, t, (d * r).tolist(), E0, kw)
                I0 = 0.5 * ne * abs(E0) ** 2
                fl = lambda a, b: float((W * (0.5 * np.real(np.cross(F[a][p, i], np.conj(F[b][p, i]))) * d).sum(-1)).sum()) / I0
                ext, sca, ab = (float(cs[q][p, i]) for q in ("cs_ext", "cs_sca", "cs_abs"))
                area = math.pi * r * r
                rel = 2e-8 * (1 if kw["backend"] == "pena" else 50)
                # net power is a small difference of large reactive terms: scale with the fields on the surface
                tt = float((W * 0.5 * np.linalg.norm(F["E_t"][p, i], axis=1) * np.linalg.norm(F["H_t"][p, i], axis=1)).sum()) / I0
                wh = f"p{p} k{i} region {g}/{L} r={r}"
                mon.le("flux_total", abs(fl("E_t", "H_t") + ab), rel * max(tt, abs(ab)) + 1e-12 * ext, lambda: f"{wh}: {-fl('E_t', 'H_t')} vs cs_abs {ab}")
                mon.event("surfaces_outside" if g == L else "surfaces_inside")
                if g == L:
                    ss = float((W * 0.5 * np.linalg.norm(F["E_s"][p, i], axis=1) * np.linalg.norm(F["H_s"][p, i], axis=1)).sum()) / I0
                    mon.le("flux_scattered", abs(fl("E_s", "H_s") - sca), rel * max(ss, sca), lambda: f"{wh}: {fl('E_s', 'H_s')} vs cs_sca {sca}")
                    fe = -(fl("E_i", "H_s") + fl("E_s", "H_i"))
                    es = float((W * np.linalg.norm(F["E_s"][p, i], axis=1)).sum()) / I0 * abs(E0) * ne
                    hs = float((W * np.linalg.norm(F["H_s"][p, i], axis=1)).sum()) / I0 * abs(E0)
                    mon.le("flux_extinction", abs(fe - ext), rel * (es + hs), lambda: f"{wh}: {fe} vs cs_ext {ext}")
                    mon.hit(ext > 1e-10 * area)
