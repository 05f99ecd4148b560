"""C04: near fields equal the exact solution in every region."""
import math

from miemon import gen, sf
from miemon.util import cond_ab, finite, perturbed, sphere

PROPERTY = "C04"
RULE = (
    "case = configuration (family x layers x host x batch) x complex amplitude x probe set covering the core, "
    "every shell, both sides of and exactly on each interface, the axes, the near and far exterior; every "
    "returned field component is compared with the exact solution; distinct by configuration and probes, "
    "non-trivial when probes of at least two regions were evaluated"
)
ASSUMPTIONS = [
    "oracle: arbitrary-precision layered sphere and vector harmonics (see C01)",
    "an interface belongs to the layer inside it; points closer to an interface than 1e-9 relative are only "
    "judged when their radius is exactly representable",
    "the polar axis is avoided by 7e-8 rad (documented): points on the axis are judged with that uncertainty; likewise the shift of the "
    "origin by |k m r| = 1e-8",
    "legacy backends: |m x| <= 20, Im(m x) <= 4, compared at their own truncation order",
]
TECHNIQUE = "runtime monitoring: reference oracle over returned field vectors"
KEYS = ("E_i", "H_i", "E_s", "H_s", "E_t", "H_t")


def max_im(c):
    return max(
        abs((complex(*c["eps"][p][l][i]) ** 0.5).imag) * k * r
        for p in range(len(c["r"])) for i, k in enumerate(c["k0"]) for l, r in enumerate(c["r"][p])
    )


def direction(rng):
    u = rng.random()
    if u < 0.12:
        return (0.0, 0.0, rng.choice([-1.0, 1.0]))
    if u < 0.30:
        return rng.choice([(1.0, 0.0, 0.0), (-1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, -1.0, 0.0)])
    if u < 0.45:
        a = rng.uniform(0, 2 * math.pi)
        return rng.choice([(math.cos(a), 0.0, math.sin(a)), (0.0, math.cos(a), math.sin(a)), (math.cos(a), math.sin(a), 0.0)])
    v = [rng.gauss(0, 1) for _ in range(3)]
    n = math.sqrt(sum(q * q for q in v)) or 1.0
    return tuple(q / n for q in v)


def probes(rng, radii, n, near=False, far=30.0):
    """n probe positions stratified over the regions of a particle."""
    out = []
    L = len(radii)
    for j in range(n):
        reg = j % (L + 2) if j < L + 2 else rng.randrange(L + 2)
        lo = 0.0 if reg == 0 else radii[min(reg, L) - 1]
        if reg < L:
            hi = radii[reg]
            u = rng.random()
            f = rng.uniform(0.02, 0.98)
            if u < 0.15:
                f = 1 - 10 ** rng.uniform(-7, -2)
            elif u < 0.3:
                f = 10 ** rng.uniform(-7, -2) if reg else 10 ** rng.uniform(-2.5, -1)
            r = lo + (hi - lo) * f
            if not (r > lo * (1 + 1e-9) and r < hi * (1 - 1e-9)):
                r = (lo + hi) / 2
        elif reg == L:
            r = radii[-1] * (1 + 10 ** rng.uniform(-6, 0))
        else:
            r = radii[-1] * math.exp(rng.uniform(0.1, math.log(far)))
        d = direction(rng)
        if rng.random() < 0.12:
            # exactly on an interface
            r = rng.choice(radii)
            d = rng.choice([(1.0, 0.0, 0.0), (-1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, -1.0, 0.0), (0.0, 0.0, 1.0), (0.0, 0.0, -1.0)])
        out.append([r * q for q in d])
    return out


def amplitude(rng):
    """Complex amplitude of the incident wave; the fields are linear in it at any magnitude."""
    e = rng.choice([[1.0, 0.0], [1.0, 0.0], [rng.uniform(-2, 2), rng.uniform(-2, 2)], [0.0, 1.0], [-1.0, 0.0]])
    s = 10 ** rng.uniform(-9, 9) if rng.random() < 0.3 else 1.0
    return [s * e[0], s * e[1]]


def generate(rng, tier):
    n = 30 if tier == "quick" else 260
    cases = []
    for fam in gen.FAMILIES:
        for j in range(n):
            np_, nk = rng.choice([(1, 1), (1, 1), (1, 2), (2, 1), (2, 2), (1, 3)])
            c = gen.config(rng, fam, np_=np_, nk=nk, lmax=5, xlo=0.02, xhi=12.0 if tier == "quick" else 25.0,
                           dispersive_env=rng.random() < 0.3)
            if rng.random() < 0.35:
                c["nmax"] = rng.choice([1, 2, 3, 5, 9])
            c.update(kind="near", xyz=probes(rng, rng.choice(c["r"]), 6 if tier == "quick" else 9),
                     E0=amplitude(rng))
            if rng.random() < 0.25:
                # deep inside the core
                q = rng.choice(c["r"])[0] * 10 ** rng.uniform(-6, -2.5)
                c["xyz"].append([q * v for v in direction(rng)])
            if rng.random() < 0.3:
                # a point of the core where some psi_n vanishes (poles of the logarithmic derivatives)
                p, i = rng.randrange(np_), rng.randrange(nk)
                m = complex(*c["eps"][p][0][i]) ** 0.5
                if not m.imag:
                    z = sf.zeros_near(rng, 12)
                    r = z / (m.real * c["k0"][i])
                    if r < c["r"][p][0]:
                        c["xyz"].append([r, 0.0, 0.0] if rng.random() < 0.5 else [0.0, -r, 0.0])
            if c["family"] == "hostlossy":
                c["xyz"] = probes(rng, rng.choice(c["r"]), 6, far=3.0)
            cases.append(c)
    for j in range(4 * n):
        c = gen.config(rng, rng.choice(["diel", "lossy", "high", "mixed", "metal"]), np_=rng.choice([1, 2]),
                       nk=rng.choice([1, 2]), L=rng.choice([1, 2]), xlo=0.3, xhi=6.0)
        if gen.max_arg(c) < 18 and max_im(c) < 4:
            if rng.random() < 0.5:
                c["nmax"] = rng.choice([1, 2, 4, 6])
            c.update(kind="near", backend=rng.choice(["torch", "scipy"]), xyz=probes(rng, rng.choice(c["r"]), 6, far=5.0),
                     E0=rng.choice([[1.0, 0.0], [rng.uniform(-2, 2), rng.uniform(-2, 2)]]))
            cases.append(c)
    # spectra: many wavelengths, dispersive host
    for j in range(n // 2):
        c = gen.config(rng, rng.choice(["diel", "lossy", "mixed", "metal"]), np_=rng.choice([1, 2, 3]), nk=rng.randint(5, 9),
                       lmax=3, xlo=0.1, xhi=5.0, dispersive_env=True)
        c.update(kind="near", xyz=probes(rng, rng.choice(c["r"]), 4), E0=amplitude(rng))
        cases.append(c)
    return cases


def region(r, radii):
    for l, rl in enumerate(radii):
        if r <= rl:
            return l
    return len(radii)


def run(case, mon):
    import torch
    import pymiediff as pmd

    t = gen.tensors(case)
    Np, L, Nk = gen.dims(case)
    be = case.get("backend", "pena")
    kw = dict(backend=be)
    if case.get("nmax"):
        kw["n_max"] = case["nmax"]
    E0 = complex(*case["E0"])
    N = int(pmd.multishell.mie_coefficients(**t, **kw)["n_max"])
    xyz = torch.tensor(case["xyz"], dtype=torch.float64)
    res = pmd.multishell.nearfields(r_probe=xyz, E_0=E0 if E0.imag else E0.real, **t, **kw)
    mon.event(f"calls_{be}")
    for key in KEYS:
        if not mon.ok("key", key in res, key):
            return
        if not mon.ok("shape", tuple(res[key].shape) == (Np, Nk, len(xyz), 3), f"{key} {tuple(res[key].shape)}"):
            return
        mon.ok("finite", finite(res[key]), key)
    tol0 = 1e-11 if be == "pena" else 1e-7
    regs = set()
    for p in range(Np):
        radii = case["r"][p]
        for i in range(Nk):
            s = sphere(case, p, i, N)
            for j, pt in enumerate(case["xyz"]):
                r = math.sqrt(sum(q * q for q in pt))
                exact_r = sum(1 for q in pt if q) == 1
                if any(abs(r - rl) < 1e-9 * rl for rl in radii) and not exact_r:
                    continue
                g = region(r, radii)
                regs.add((p, g))
                E, H, Ei, Hi = s.fields(pt, E0, N, region=g)
                tot = (lambda a, b: [complex(u) + complex(v) for u, v in zip(a, b)]) if g == L else (lambda a, b: a)
                want = dict(E_i=Ei, H_i=Hi, E_s=E, H_s=H, E_t=tot(E, Ei), H_t=tot(H, Hi))
                mon.event("outside" if g == L else ("core" if g == 0 else "shell"))
                if any(r == rl for rl in radii):
                    mon.event("on_interface")
                dist = lambda u, v: max(abs(complex(a) - complex(b)) for a, b in zip(u, v))
                size = lambda u: max(abs(complex(v)) for v in u)
                extra = None
                for key, w in want.items():
                    v = [complex(q) for q in res[key][p, i, j]]
                    e = dist(v, w)
                    if key in ("E_i", "H_i"):
                        mon.le("incident", e, (1e-12 + 1e-15 * abs(complex(s.k)) * r) * size(w), f"{key} at {pt}")
                        continue
                    m = 0 if key[0] == "E" else 1
                    sc = size((E, H)[m])
                    tol = tol0 * (sc + (size((Ei, Hi)[m]) if key[2] == "t" else 0.0))
                    tag = ""
                    if not e <= tol and e == e:
                        # conditioning with respect to the inputs, including the position of the probe
                        if extra is None:
                            extra = [0.0, 0.0]
                            alt = [perturbed(case, p, i, N, 1e-9, mode).fields(pt, E0, N, region=g) for mode in range(3)]
                            alt.append(s.fields([q * (1 + 1e-9) for q in pt], E0, N, region=g))
                            for h in (0, 1):
                                extra[h] = max(dist(f[h], (E, H)[h]) for f in alt) / 1e-9 * (3e-12 if be == "pena" else 2e-10)
                            # rounding of coefficients that are themselves negligible
                            if g == L:
                                for h in (0, 1):
                                    fl = abs(E0) * s.scattered_scale(r) * (1.0, abs(complex(s.n_env)))[h]
                                    extra[h] += (1e-13 if be == "pena" else 1e-9) * fl
                            # documented safeguard: |k m r| < 1e-8 is moved by 1e-8
                            if abs(complex(s.k * s.m[min(g, L - 1)])) * r < 1e-8 and g < L:
                                nl = abs(complex(s.n_l[g]))
                                extra[0] += 1e-7 * (size(E) + size(H) / nl)
                                extra[1] += 1e-7 * (size(H) + size(E) * nl)
                            # documented safeguard: the polar axis is avoided by 7e-8
                            if math.hypot(pt[0], pt[1]) < 1e-6 * r:
                                f = s.fields([pt[0] + 7e-8 * r, pt[1] + 7e-8 * r, pt[2]], E0, N, region=g)
                                for h in (0, 1):
                                    extra[h] += 3 * dist(f[h], (E, H)[h])
                        tol += extra[m]
                        tag = "_ill_conditioned"
                    mon.le(("total" if key[2] == "t" else "scattered") + ("_out" if g == L else "_in") + tag, e, tol,
                           lambda: f"{key} p{p} k{i} at {pt} region {g}/{L}: {v} vs {[complex(q) for q in w]}")
                mon.event("points")
    mon.hit(len(regs) >= 2)
