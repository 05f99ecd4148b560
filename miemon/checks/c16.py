"""C16: angular functions and vector spherical harmonics are right."""
import functools
import math

import mpmath as mp

from miemon import sf

PROPERTY = "C16"
RULE = (
    "pi_tau: maximum order 1..100 x cosines (exactly +-1, 0, near the poles, generic) x shape/layout x gradient, against "
    "Legendre derivatives; vsh / vsh_pena: order x medium (real, lossy) x positions (from k r = 1e-3 to 60, poles, equator) x "
    "kind x batch shape, against the definition with arbitrary-precision radial functions, against each other, and by "
    "finite-difference curl and divergence of the returned fields; plane-wave sums; non-trivial when values are non-zero"
)
ASSUMPTIONS = [
    "definition: Bohren-Huffman M/N harmonics with j_n / y_n / h_n; kind 2 is accepted up to a common sign (documented as "
    "y_n, implemented as -y_n, used consistently by the legacy solver)",
    "vsh (torch recurrences): |Im k r| <= 3, vsh_pena: |Im k r| <= 12; |k r| >= 1e-4",
]
TECHNIQUE = "runtime monitoring: arbitrary-precision reference oracle, curl/divergence monitors and cross-implementation comparison of returned harmonics"


def generate(rng, tier):
    q = tier == "quick"
    cases = []
    for j in range(200 if q else 1500):
        m = rng.choice([1, 2, 4, 6, 9])
        mu = [rng.choice([rng.uniform(-1, 1), math.cos(rng.uniform(0, math.pi)), 1.0, -1.0, 0.0, 1 - 10 ** rng.uniform(-14, -3),
                          -1 + 10 ** rng.uniform(-14, -3)]) for _ in range(m)]
        if rng.random() < 0.05:
            mu = mu * rng.choice([40, 130])
            m = len(mu)
        shape, how = sf.layout(rng, m)
        cases.append(dict(kind="pi_tau", N=rng.choice([1, 2, 3, 5, 10, 30, 60, 100, 150]) if m < 40 else 7, mu=mu, shape=shape, how=how,
                          nform=rng.choice(["int", "tensor", "tensor1"]), seed=rng.randrange(10**6)))
    for j in range(400 if q else 3000):
        impl = rng.choice(["vsh", "vsh_pena"])
        kd = rng.choice([1, 2, 3] if impl == "vsh" else [1, 3])
        lossy = rng.random() < 0.5
        imax = 3.0 if impl == "vsh" else 12.0
        m = [rng.uniform(0.3, 4), rng.uniform(0, 1.5) if lossy else 0.0]
        if rng.random() < 0.15:
            m = [rng.uniform(0.02, 0.5), rng.uniform(1, 4)]
        k0 = 10 ** rng.uniform(-3, 1)
        P = rng.choice([1, 2, 5])
        pts = []
        for _ in range(P):
            x = rng.choice([10 ** rng.uniform(-3, 0), rng.uniform(0.5, 60), rng.uniform(0.5, 12)])
            if not m[1] and rng.random() < 0.2:
                x = sf.zeros_near(rng, 15) * (1 + rng.choice([-2, -1, 0, 0, 1, 2, 50]) * 2.2e-16)
            if m[1]:
                x = min(x, imax / m[1] * abs(complex(*m)))
            th = rng.choice([rng.uniform(0, math.pi), rng.uniform(0, math.pi), 0.0, math.pi, math.pi / 2, 1e-3])
            pts.append([x / k0 / abs(complex(*m)), th, rng.uniform(-math.pi, math.pi)])
        cases.append(dict(kind="vsh", impl=impl, radial=kd, N=rng.choice([1, 2, 3, 6, 10, 20]), k0=k0, m=m, pts=pts,
                          form=rng.choice(["flat", "batch", "spectral"])))
    for j in range(24 if q else 300):
        impl = rng.choice(["vsh", "vsh_pena"])
        m = [rng.uniform(0.5, 3), rng.choice([0.0, rng.uniform(0, 0.5)])]
        k0 = 10 ** rng.uniform(-2, 0)
        pts = [[rng.uniform(0.2, 4) / k0 / abs(complex(*m)), math.acos(rng.uniform(-0.95, 0.95)), rng.uniform(-math.pi, math.pi)] for _ in range(2)]
        cases.append(dict(kind="curl", impl=impl, radial=rng.choice([1, 2, 3] if impl == "vsh" else [1, 3]), N=rng.choice([1, 3, 7]), k0=k0, m=m, pts=pts))
    for j in range(24 if q else 300):
        m = [rng.uniform(0.5, 2), rng.choice([0.0, rng.uniform(0, 0.3)])]
        k0 = 10 ** rng.uniform(-2, 0)
        pts = [[rng.uniform(0.01, 9) / k0 / abs(complex(*m)), rng.choice([math.acos(rng.uniform(-1, 1)), 0.0, math.pi]), rng.uniform(-math.pi, math.pi)] for _ in range(3)]
        cases.append(dict(kind="plane", impl=rng.choice(["vsh", "vsh_pena"]), k0=k0, m=m, pts=pts))
    for j in range(30 if q else 200):
        cases.append(dict(kind="pw", N=rng.choice([1, 2, 3, 4, 5, 8, 13, 39, 40, 41, 64, rng.randint(1, 300), rng.randint(30, 300)]),
                          nform=rng.choice(["int", "tensor", "tensor1", "vector"]), seed=j))
    return cases


def pw(case, mon):
    """Expansion coefficients of a plane wave: i^n (2n+1) / (n (n+1))."""
    import torch
    from pymiediff import helper

    N = case["N"]
    n = {"int": N, "tensor": torch.tensor(N), "tensor1": torch.tensor([N]), "vector": torch.arange(N + 1)}[case["nform"]]
    a = helper.plane_wave_expansion(n)["a_pw_n"]
    if not mon.ok("pw_shape", tuple(a.shape) == (N,), lambda: f"{tuple(a.shape)} for {N}"):
        return
    for k in range(1, N + 1):
        e = [1, 1j, -1, -1j][k % 4] * (2 * k + 1) / (k * (k + 1))
        mon.le("pw_coefficient", abs(complex(a[k - 1]) - e), 3e-7 * k * abs(e) if a.dtype == torch.complex64 else 1e-12 * abs(e), lambda: f"n={k}/{N}: {complex(a[k - 1])} exact {e}")
    mon.hit()


def run(case, mon):
    {"pw": pw, "pi_tau": pi_tau, "vsh": vsh, "curl": curl, "plane": plane}[case["kind"]](case, mon)


@functools.lru_cache(maxsize=None)
def coeffs(n):
    return [((-1) ** k * math.comb(n, k) * math.comb(2 * n - 2 * k, n), n - 2 * k) for k in range(n // 2 + 1)]


def legendre(n, x, d):
    """d-th derivative of the Legendre polynomial from its explicit coefficients."""
    s = mp.mpf(0)
    for c, p in coeffs(n):
        if p >= d:
            s += c * math.perm(p, d) * x ** (p - d)
    return s / mp.mpf(2) ** n


def angular(N, mu):
    """pi_n, tau_n and their derivatives with respect to mu, n = 0..N."""
    out = []
    with mp.workdps(int(40 + 0.8 * N)):
        x = mp.mpf(mu)
        for n in range(N + 1):
            p1, p2, p3 = (legendre(n, x, d) for d in (1, 2, 3))
            out.append((p1, x * p1 - (1 - x * x) * p2, p2, p1 + 3 * x * p2 - (1 - x * x) * p3))
    return out


def pi_tau(case, mon):
    import torch
    from pymiediff import special as s

    N = case["N"]
    mu = sf.tensor(case["mu"], case["shape"], case["how"], torch.float64)
    leaf = mu.clone().requires_grad_(True)
    n = {"int": N, "tensor": torch.tensor(N), "tensor1": torch.tensor([N])}[case["nform"]]
    before = mu.clone()
    pi, tau = s.pi_tau(n, mu)
    mon.ok("argument_unchanged", torch.equal(mu, before))
    want = (N + 1,) + tuple(mu.shape)
    if not mon.ok("shape", tuple(pi.shape) == want and tuple(tau.shape) == want, lambda: f"{tuple(pi.shape)} {want}"):
        return
    P, T = pi.reshape(N + 1, -1), tau.reshape(N + 1, -1)
    pl, tl = s.pi_tau(n, leaf)
    gen = torch.Generator().manual_seed(case["seed"])
    g1, g2 = (torch.randn(want, dtype=torch.float64, generator=gen) for _ in range(2))
    (gr,) = torch.autograd.grad((g1 * pl + g2 * tl).sum(), leaf)
    gr, g1, g2 = gr.reshape(-1), g1.reshape(N + 1, -1), g2.reshape(N + 1, -1)
    for i, m in enumerate(case["mu"]):
        ref = angular(N, m)
        e = t = mp.mpf(0)
        for k, (p, q, dp, dq) in enumerate(ref):
            tol = 1e-13 * (1 + k) * max(1, k * math.sqrt(k + 1), abs(float(p)), abs(float(q)))
            mon.le("pi", abs(float(P[k, i] - float(p))), tol, lambda: f"n={k} mu={m} {float(P[k, i])} {float(p)}")
            mon.le("tau", abs(float(T[k, i] - float(q))), tol * (1 + k), lambda: f"n={k} mu={m} {float(T[k, i])} {float(q)}")
            e += dp * float(g1[k, i]) + dq * float(g2[k, i])
            t += (abs(dp) + k**2.5) * abs(float(g1[k, i])) + (abs(dq) + k**3.5) * abs(float(g2[k, i]))
        mon.le("gradient", abs(float(gr[i]) - float(e)), 1e-12 * N * float(t), lambda: f"N={N} mu={m} {float(gr[i])} {float(e)}")
    mon.hit()


def evaluate(case, pts, impl=None, form="flat"):
    """(M_o, M_e, N_o, N_e) as complex arrays of shape (N, P, 3)."""
    import torch
    from pymiediff import special as s

    p = torch.tensor(pts, dtype=torch.float64)
    f = getattr(s, impl or case["impl"])
    k0, m = torch.tensor(case["k0"], dtype=torch.float64), torch.tensor(complex(*case["m"]), dtype=torch.complex128)
    if form == "flat":
        r, th, ph = (p[None, :, i, None] for i in range(3))
        out = f(case["N"], k0.reshape(1, 1, 1), m.reshape(1, 1, 1), r, th, ph, case["radial"])
        return [o.detach() for o in out]
    if form == "batch":  # two "particles" that see the same positions
        r, th, ph = (p[None, None, None, :, i, None].expand(1, 2, 1, -1, 1) for i in range(3))
        out = f(case["N"], k0.reshape(1, 1, 1, 1, 1), m.reshape(1, 1, 1, 1, 1).expand(1, 2, 1, 1, 1), r, th, ph, case["radial"])
        return [o.detach()[:, 1, 0] for o in out]
    # two wavelengths, the requested one second
    r, th, ph = (p[None, None, None, :, i, None] for i in range(3))
    r, th, ph = (q.expand(1, 1, 2, -1, 1) for q in (r, th, ph))
    kk = torch.stack((k0 * 0.7, k0)).reshape(1, 1, 2, 1, 1)
    out = f(case["N"], kk, m.reshape(1, 1, 1, 1, 1).expand(1, 1, 2, 1, 1), r, th, ph, case["radial"])
    return [o.detach()[:, 0, 1] for o in out]


NAME = {1: ("j", "psi"), 2: ("y", "chi"), 3: ("h", "xi")}


def vsh(case, mon):
    import torch

    N = case["N"]
    out = evaluate(case, case["pts"], form=case["form"])
    if not mon.ok("shape", all(tuple(o.shape) == (N, len(case["pts"]), 3) for o in out), lambda: str([tuple(o.shape) for o in out])):
        return
    zname, rname = NAME[case["radial"]]
    sign = -1 if case["radial"] == 2 and float(out[0].abs().max()) > 0 and flipped(case, out) else 1
    if case["radial"] == 2:
        mon.event("kind2_sign_%+d" % sign)
    for i, (r, th, ph) in enumerate(case["pts"]):
        kr = case["k0"] * complex(*case["m"]) * r
        R = sf.Radial(N, kr)
        ang = angular(N, math.cos(th))
        with mp.workdps(R.dps):
            z, u, du = R.get(zname), R.get(rname), R.get(rname, 1)
            du2 = R.get(rname, 2)
            if zname == "y":
                u, du, du2 = [-v for v in u], [-v for v in du], [-v for v in du2]
            ct, st, cp, sp = math.cos(th), math.sin(th), math.cos(ph), math.sin(ph)
            for n in range(1, N + 1):
                zn = complex(z[n])
                dn, rn = complex(du[n] / R.z), complex(z[n] / R.z)
                if not (abs(dn) < 1e130 and abs(complex(u[n])) < 1e130):
                    mon.event("outside_double_range")
                    continue
                p, t = float(ang[n][0]), float(ang[n][1])
                ex = [
                    (0, cp * p * zn, -sp * t * zn), (0, -sp * p * zn, -cp * t * zn),
                    (sp * n * (n + 1) * st * p * rn, sp * t * dn, cp * p * dn),
                    (cp * n * (n + 1) * st * p * rn, cp * t * dn, -sp * p * dn),
                ]
                amp = max(abs(p), abs(t), n**1.5) + (n * n * abs(st))
                extra = 0.0
                if zname == "h" and case["impl"] == "vsh":
                    extra = float(abs(R.get("j")[n]) + abs(R.get("y")[n])) * (1 + abs(kr))
                radial = (abs(zn) + abs(dn) * (1 + n) + abs(rn) * (1 + n) ** 2 + abs(kr) * abs(dn) + float(abs(du2[n])) + extra * (1 + n) ** 2 / min(1.0, abs(kr)))
                tol = 2e-14 * (1 + 0.05 * abs(kr)) * (1 + n) * amp * radial
                for q, e, nm in zip(out, ex, ("M_o1n", "M_e1n", "N_o1n", "N_e1n")):
                    got = q[n - 1, i].tolist()
                    err = max(abs(a * sign - b) if math.isfinite(abs(a)) else math.nan for a, b in zip(got, e))
                    if any(not math.isfinite(abs(a)) for a in got):
                        err = math.nan
                    mon.le(f"definition:{case['impl']}:{case['radial']}", err, tol + 1e-280, lambda: f"{nm} n={n} kr={kr} th={th} ph={ph} got {got} exact {e}")
                mon.hit(abs(zn) > 1e-280)
    if case["impl"] == "vsh_pena" and abs((case["k0"] * complex(*case["m"]) * max(p[0] for p in case["pts"])).imag) < 3:
        other = evaluate(case, case["pts"], impl="vsh")
        # scale per order: the M and N of an order together (each alone has zeros)
        top = lambda q: torch.stack([v.abs().amax(dim=(1, 2)) for v in q]).amax(0)  # noqa: E731
        s = top(out) + top(other)
        for a, b in zip(out, other):
            okk = torch.isfinite(s) & (s < 1e130)
            d = ((a - b).abs().amax(dim=(1, 2)) / s)[okk]
            if d.numel():
                mon.le("implementations_agree", float(d.max()), 1e-8, f"{case['radial']} {case['pts']}")


def flipped(case, out):
    """Common sign of the second-kind harmonics."""
    r, th, ph = case["pts"][0]
    kr = case["k0"] * complex(*case["m"]) * r
    y1 = complex(sf.Radial(1, kr).get("y")[1])
    i = max(range(3), key=lambda q: abs(complex(out[0][0, 0, q])))
    e = (0, math.cos(ph) * y1, -math.sin(ph) * math.cos(th) * y1)[i]
    return (complex(out[0][0, 0, i]) * complex(e).conjugate()).real < 0


def cart(vals, th, ph):
    import torch

    st, ct, sp, cp = math.sin(th), math.cos(th), math.sin(ph), math.cos(ph)
    B = torch.tensor([[st * cp, st * sp, ct], [ct * cp, ct * sp, -st], [-sp, cp, 0.0]], dtype=torch.complex128)
    return vals @ B


def curl(case, mon):
    """Curl and divergence of the returned harmonics by 6th-order differences in Cartesian coordinates."""
    import torch

    N = case["N"]
    k = case["k0"] * complex(*case["m"])
    W = {1: 0.75, 2: -3 / 20, 3: 1 / 60}
    for r, th, ph in case["pts"]:
        x0 = [r * math.sin(th) * math.cos(ph), r * math.sin(th) * math.sin(ph), r * math.cos(th)]
        h = 0.01 * min(r, 1 / abs(k))
        sph, key = [], []
        for ax in range(3):
            for s, w in W.items():
                for sg in (1, -1):
                    q = list(x0)
                    q[ax] += sg * s * h
                    rr = math.sqrt(sum(v * v for v in q))
                    sph.append([rr, math.acos(q[2] / rr), math.atan2(q[1], q[0])])
                    key.append((ax, sg * w / h))
        out = evaluate(case, sph)
        mid = [cart(o[:, 0], th, ph) for o in evaluate(case, [[r, th, ph]])]
        D = [torch.zeros((3, N, 3), dtype=torch.complex128) for _ in out]  # derivative axis, order, component
        for o, d in zip(out, D):
            for i, (ax, w) in enumerate(key):
                d[ax] += w * cart(o[:, i], sph[i][1], sph[i][2])
        rot = [torch.stack((d[1][:, 2] - d[2][:, 1], d[2][:, 0] - d[0][:, 2], d[0][:, 1] - d[1][:, 0]), -1) for d in D]
        div = [d[0][:, 0] + d[1][:, 1] + d[2][:, 2] for d in D]
        # curl M = k N, curl N = k M, even with even, odd with odd
        for a, b, nm in ((0, 2, "curl M_o = k N_o"), (1, 3, "curl M_e = k N_e"), (2, 0, "curl N_o = k M_o"), (3, 1, "curl N_e = k M_e")):
            for n in range(N):
                s = float(max(D[a][:, n].abs().max(), (abs(k) * mid[b][n].abs()).max()))
                if not 1e-250 < s < 1e150:
                    continue
                tol = 2e-8 * (n + 1) ** 2
                mon.le("curl", float((rot[a][n] - k * mid[b][n]).abs().max()) / s, tol, lambda: f"{nm} n={n + 1} kind {case['radial']} {case['impl']} at {r, th, ph}")
                mon.le("divergence", float(div[a][n].abs()) / s, tol, lambda: f"{nm[5:8]} n={n + 1} kind {case['radial']}")
                mon.hit()


def plane(case, mon):
    """With the plane-wave coefficients the regular harmonics add up to the plane wave along z, polarised along x."""
    import torch
    from pymiediff import helper

    k = case["k0"] * complex(*case["m"])
    x = max(abs(k) * p[0] for p in case["pts"])
    c = dict(case, N=int(x + 4.05 * x ** (1 / 3) + 12), radial=1)
    a = helper.plane_wave_expansion(c["N"])["a_pw_n"].to(torch.complex128)
    Mo, Me, No, Ne = evaluate(c, case["pts"])
    E = (a[:, None, None] * (Mo - 1j * Ne)).sum(0)
    for i, (r, th, ph) in enumerate(case["pts"]):
        ref = torch.tensor([complex(mp.exp(1j * mp.mpc(k) * r * math.cos(th))), 0, 0], dtype=torch.complex128)
        grow = math.exp(abs(k.imag) * r)
        mon.le("plane_wave", float((cart(E[i][None], th, ph)[0] - ref).abs().max()), 1e-5 * grow, f"{case['impl']} at {r, th, ph}")
    mon.hit()
