"""C01: Mie coefficients equal the exact layered-sphere solution."""
import math

from miemon import gen, sf
from miemon.util import COND, coef_floor, coef_tol, cond_ab, finite, sphere

PROPERTY = "C01"
RULE = (
    "case = (material family x layer structure x size x host x requested order); coefficients of every "
    "particle, wavelength and order are compared with an arbitrary-precision transfer-matrix solution; "
    "non-trivial when the largest coefficient exceeds 1e-12"
)
ASSUMPTIONS = [
    "oracle: mpmath Riccati-Bessel transfer matrices (34+ digits), cross-validated against scattnlay/miepython",
    "Im(m k r) <= 200 in every layer (double precision exp range)",
    "tolerance 1e-12 relative plus 2e-14 (10 + n) |psi_n / zeta_n|(x), widened by 1e-13 times the measured condition number",
]


def max_im(c):
    return max(
        abs((complex(*c["eps"][p][l][i]) ** 0.5).imag) * k * r
        for p in range(len(c["r"])) for i, k in enumerate(c["k0"]) for l, r in enumerate(c["r"][p])
    )


def generate(rng, tier):
    n = 160 if tier == "quick" else 700
    cases = []
    for fam in gen.FAMILIES:
        for j in range(n // 2 if fam not in ("zero", "metal", "mixed", "large") else n):
            big = tier == "thorough" and j % 10 == 0
            xhi = 40.0 if tier == "quick" else (300.0 if big else 60.0)
            cfg = gen.config(rng, fam, np_=rng.choice([1, 1, 2]), nk=rng.choice([1, 1, 2]), lmax=6, xhi=xhi)
            if rng.random() < 0.4:
                cfg["nmax"] = rng.choice([1, 2, 3, rng.randint(1, 8), rng.randint(10, 60)])
            if len(cfg["r"][0]) <= 2 and rng.random() < 0.3:
                cfg["legacy"] = True
            cfg["kind"] = "coef"
            cases.append(cfg)
    # very large arguments m x with few orders (downward recurrences started far above the requested order)
    for j in range(14 if tier == "quick" else 60):
        cfg = gen.config(rng, rng.choice(["diel", "lossy", "high", "match"]), np_=1, nk=1, L=rng.choice([1, 2, 3]), xlo=1.0, xhi=2.0)
        s = math.exp(rng.uniform(math.log(300), math.log(2500 if tier == "quick" else 6000))) / gen.max_arg(cfg)
        cfg["r"] = [[q * s for q in r] for r in cfg["r"]]
        cfg["nmax"] = rng.choice([1, 2, 3, 5, 8, 20])
        if max_im(cfg) < 200:
            cases.append(dict(cfg, kind="coef"))
    # a radial function psi_n, n >= 1, vanishes at some surface (poles of the logarithmic derivatives)
    for j in range(60 if tier == "quick" else 400):
        cfg = gen.config(rng, rng.choice(["diel", "high", "zero", "mixed"]), np_=rng.choice([1, 2]), nk=1, L=rng.choice([1, 2, 3]), xlo=1.0, xhi=12.0)
        p = rng.randrange(len(cfg["r"]))
        l = rng.randrange(len(cfg["r"][0]))
        m = complex(*cfg["eps"][p][l][0]) ** 0.5 if rng.random() < 0.7 else complex(*cfg["env"][0]) ** 0.5
        if abs(m.imag) > 0 or not m.real > 0:
            continue
        z = sf.zeros_near(rng, 14)
        s = z / (m.real * cfg["k0"][0] * cfg["r"][p][l])
        cfg["r"] = [[q * s for q in r] for r in cfg["r"]]
        cfg["r"][p][l] = z / (m.real * cfg["k0"][0])
        if gen.xmax(cfg) < 60 and max_im(cfg) < 200 and all(a * 1.000001 < b for r in cfg["r"] for a, b in zip(r, r[1:])):
            cases.append(dict(cfg, kind="coef"))
    # membranes: shells of relative thickness 1e-9..1e-4, strong contrast
    for j in range(60 if tier == "quick" else 400):
        cfg = gen.config(rng, rng.choice(["mixed", "metal", "high", "lossless_metal"]), np_=rng.choice([1, 2]), nk=rng.choice([1, 2]),
                         L=rng.choice([2, 2, 3, 4]), xlo=0.1, xhi=12.0)
        l = rng.randrange(1, len(cfg["r"][0]))
        for r in cfg["r"]:
            v = r[l] * (1 - 10 ** rng.uniform(-9, -4))
            if l < 2 or v > r[l - 2] * 1.001:
                r[l - 1] = v
        cases.append(dict(cfg, kind="coef"))
    # small particles in absorbing hosts
    for j in range(24 if tier == "quick" else 150):
        cfg = gen.config(rng, "tiny", np_=rng.choice([1, 2]), nk=rng.choice([1, 2]), lmax=4)
        cfg["env"] = [[e[0], 10 ** rng.uniform(-4, -0.7)] for e in cfg["env"]]
        if rng.random() < 0.4:
            cfg["nmax"] = rng.choice([1, 2, 3])
        cases.append(dict(cfg, kind="coef"))
    # spectra: dispersive hosts, several wavelengths
    for j in range(16 if tier == "quick" else 100):
        cfg = gen.config(rng, rng.choice(["diel", "lossy", "mixed", "metal"]), np_=rng.choice([1, 2, 3]), nk=rng.randint(5, 12),
                         lmax=3, xlo=0.1, xhi=6.0, dispersive_env=True)
        cases.append(dict(cfg, kind="coef"))
    # large spheres: few, expensive
    for x in ([150.0, 400.0] if tier == "quick" else [150.0, 400.0, 800.0, 1500.0, 3000.0]):
        cfg = gen.config(rng, rng.choice(["diel", "lossy"]), np_=1, nk=1, L=rng.choice([1, 2]), xlo=x, xhi=x * 1.2)
        s = x / gen.xmax(cfg)
        cfg["r"] = [[q * s for q in r] for r in cfg["r"]]
        cfg["kind"] = "coef"
        cases.append(cfg)
    return cases


def run(case, mon):
    from pymiediff import multishell

    t = gen.tensors(case)
    Np, L, Nk = gen.dims(case)
    kw = {}
    if case.get("nmax"):
        kw["n_max"] = case["nmax"]
    if case.get("legacy"):
        a = dict(k0=t["k0"], eps_env=t["eps_env"], r_c=t["r_layers"][:, 0], eps_c=t["eps_layers"][:, 0])
        if L == 2:
            a.update(r_s=t["r_layers"][:, 1], eps_s=t["eps_layers"][:, 1])
    else:
        a = t
    res = multishell.mie_coefficients(**a, **kw)
    an, bn = res["a_n"], res["b_n"]
    N = int(res["n_max"])
    mon.event("mie_coefficients_calls")
    if not mon.ok("shape", tuple(an.shape) == (N, Np, Nk) == tuple(bn.shape), f"{tuple(an.shape)} for {(N, Np, Nk)}"):
        return
    mon.ok("orders", [int(v) for v in res["n"]] == list(range(1, N + 1)), "order list")
    if case.get("nmax"):
        mon.ok("order_obeyed", N == case["nmax"], f"{N}")
    mon.ok("finite", finite(an) and finite(bn), "nan or inf in coefficients")
    for p in range(Np):
        for i in range(Nk):
            s = sphere(case, p, i, N)
            ea, eb = s.ab()
            mon.hit(max(abs(v) for v in ea + eb) > 1e-12)
            mon.event("coefficients_compared", 2 * N)
            cond = None
            for lab, got, want in (("a_n", an, ea), ("b_n", bn, eb)):
                g = got[:, p, i].tolist()
                d = [abs(x - y) for x, y in zip(g, want)]
                tol = [coef_tol(w, n + 1) + f for n, (w, f) in enumerate(zip(want, coef_floor(s)))]
                name = lab
                if not all(e <= q for e, q in zip(d, tol)):
                    cond = cond or cond_ab(case, p, i, N)
                    k = cond[0 if lab == "a_n" else 1]
                    tol = [q + COND * c for q, c in zip(tol, k)]
                    name = lab + "_ill_conditioned"
                w = max(range(N), key=lambda n: d[n] / tol[n] if d[n] == d[n] else 9e99)
                mon.le(name, d[w], tol[w], f"order {w + 1}, particle {p}, wavelength {i}: {g[w]} vs {want[w]}")
