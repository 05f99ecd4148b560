"""C06: automatic gradients are the true derivatives, finite, and cost nothing."""
import math
import random

import mpmath as mp

from miemon import gen, oracle
from miemon.checks.c04 import direction, max_im, region
from miemon.util import finite

PROPERTY = "C06"
RULE = (
    "case = configuration x observable (coefficients, cross sections, amplitudes, near fields) x backend x input "
    "parametrisation; a randomly weighted real scalar of all outputs is back-propagated and every entry of every "
    "input gradient is compared with the derivative of the exact solution (differences in 60-digit arithmetic); "
    "values and gradients are compared with evaluations where fewer inputs require gradients; non-trivial when a "
    "gradient entry is not zero"
)
ASSUMPTIONS = [
    "oracle: arbitrary-precision layered sphere (see C01), symmetric differences with step 1e-18 relative",
    "complex inputs: torch convention dL/dRe + i dL/dIm",
    "probe positions off the interfaces, the polar axis and the centre (there: known finding / undefined)",
    "legacy backends: |m x| <= 18, Im(m x) <= 4",
]
TECHNIQUE = "runtime monitoring: reference-derivative oracle over back-propagated gradients"
OBS = ("coef", "cs", "far", "near")


def generate(rng, tier):
    n = 4 if tier == "quick" else 60
    cases = []
    fams = [f for f in gen.FAMILIES if f != "large"]
    for fam in fams:
        for obs in OBS:
            if fam == "hostlossy" and obs == "cs":
                continue
            for j in range(n):
                np_, nk = rng.choice([(1, 1), (1, 1), (1, 2), (2, 1), (2, 2)])
                c = gen.config(rng, fam, np_=np_, nk=nk, lmax=3, xlo=0.05, xhi=5.0 if obs == "near" else 8.0,
                               dispersive_env=rng.random() < 0.3)
                if fam == "many":
                    for p in range(np_):
                        c["r"][p], c["eps"][p] = c["r"][p][:5], c["eps"][p][:5]
                finish(rng, c, obs)
                cases.append(c)
    for j in range(8 * n):
        np_, nk = rng.choice([(1, 1), (1, 2), (2, 1)])
        c = gen.config(rng, rng.choice(["diel", "lossy", "high", "mixed", "metal"]), np_=np_, nk=nk,
                       L=rng.choice([1, 2]), xlo=0.3, xhi=5.0)
        if gen.max_arg(c) < 18 and max_im(c) < 4:
            finish(rng, c, rng.choice(OBS))
            c["backend"] = rng.choice(["torch", "scipy"])
            cases.append(c)
    cases.append(dict(kind="axis", id="axis-gradient"))
    cases.append(dict(kind="origin", id="origin-gradient"))
    cases.append(dict(kind="psizero", id="psi-zero-gradient", z=5.763459196894550, m=1.5, N=14))
    from scipy.optimize import brentq
    from scipy.special import spherical_jn

    for _ in range(6 if tier == "quick" else 60):  # close to, but not at, zeros of psi_n: no loss of digits
        n = rng.randint(1, 8)
        a = n + 2.0
        while spherical_jn(n, a) * spherical_jn(n, a + 0.3) > 0:
            a += 0.3
        z = brentq(lambda t: spherical_jn(n, t), a, a + 0.3, xtol=1e-14)
        cases.append(dict(kind="psizero", z=z * (1 + rng.choice([-1, 1]) * 10 ** rng.uniform(-8, -3)), m=rng.choice([1.5, 2.0, 3.5]), N=14))
    return cases


def finish(rng, c, obs):
    c.update(kind=obs, seed=rng.randrange(1 << 30), wl=rng.random() < 0.4, index=rng.random() < 0.3)
    c["scale"] = 10 ** random.Random(c["seed"]).uniform(-9, 9) if c["seed"] % 3 == 0 else 1.0
    if rng.random() < 0.4:
        c["nmax"] = rng.choice([1, 2, 3, 5, 8])
    c["real_eps"] = rng.random() < 0.5 and all(e[1] == 0 and (e[0] > 0 or not c["index"]) for ep in c["eps"] for el in ep for e in el)
    if obs == "far":
        c["theta"] = [rng.choice([rng.uniform(0, math.pi), rng.uniform(-7, 7), 1e-4, math.pi - 1e-3]) for _ in range(2)]
    if obs == "near":
        pts = []
        radii = rng.choice(c["r"])
        for g in range(len(radii) + 1):
            lo = radii[g - 1] if g else 0.0
            hi = radii[g] if g < len(radii) else 3 * radii[-1]
            r = lo + (hi - lo) * rng.uniform(0.05, 0.95)
            d = direction(rng)
            while math.hypot(d[0], d[1]) < 1e-3:
                d = direction(rng)
            pts.append([r * q for q in d])
        c["xyz"] = pts[:5]


def outputs(obs, res):
    keys = {
        "coef": ("a_n", "b_n"),
        "cs": ("cs_ext", "cs_sca", "cs_abs", "q_ext", "q_sca", "q_abs", "cs_ext_multipoles", "cs_sca_multipoles",
               "cs_abs_multipoles"),
        "far": ("S1", "S2", "i_unpol", "i_par", "i_per"),
        "near": ("E_s", "H_s", "E_t", "H_t", "E_i", "H_i"),
    }[obs]
    return {k: res[k] for k in keys}


def oracle_outputs(obs, s, case, N, extra):
    """Same outputs, as {key: list} for one particle and wavelength (mp numbers)."""
    if obs == "coef":
        return dict(a_n=s.a[1:], b_n=s.b[1:])
    if obs == "cs":
        o = s.cross_sections()
        e, c = o["ext_mp"], o["sca_mp"]
        ab = [[u - v for u, v in zip(x, y)] for x, y in zip(e, c)]
        te, ts = sum(map(sum, e)), sum(map(sum, c))
        g = o["geo"]
        return dict(cs_ext=[te], cs_sca=[ts], cs_abs=[te - ts], q_ext=[te / g], q_sca=[ts / g], q_abs=[(te - ts) / g],
                    cs_ext_multipoles=sum(e, []), cs_sca_multipoles=sum(c, []), cs_abs_multipoles=sum(ab, []))
    if obs == "far":
        v = [s.s1s2(th) for th in extra]
        s1, s2 = [a for a, _ in v], [b for _, b in v]
        q = lambda z: [abs(u) ** 2 for u in z]
        return dict(S1=s1, S2=s2, i_per=q(s1), i_par=q(s2), i_unpol=[(a + b) / 2 for a, b in zip(q(s1), q(s2))])
    pts, regs = extra
    out = dict(E_s=[], H_s=[], E_t=[], H_t=[], E_i=[], H_i=[])
    for pt, g in zip(pts, regs):
        E, H, Ei, Hi = s.fields(pt, 1.0, N, region=g)
        o = g == len(s.r)
        out["E_s"] += E
        out["H_s"] += H
        out["E_i"] += Ei
        out["H_i"] += Hi
        out["E_t"] += [a + b for a, b in zip(E, Ei)] if o else E
        out["H_t"] += [a + b for a, b in zip(H, Hi)] if o else H
    return out


def run(case, mon):
    import torch
    import pymiediff as pmd

    if case["kind"] == "axis":
        return axis(case, mon)
    if case["kind"] == "origin":
        return origin(case, mon)
    if case["kind"] == "psizero":
        return psizero(case, mon)
    obs = case["kind"]
    Np, L, Nk = gen.dims(case)
    rng = random.Random(case["seed"])
    base = gen.tensors(case, eps_real=False)
    cplx_env = base["eps_env"].is_complex()
    leaf = {}
    leaf["k0"] = 2 * math.pi / base["k0"] if case["wl"] else base["k0"].clone()
    leaf["r_layers"] = base["r_layers"].clone()
    e = base["eps_layers"]
    e = e.real.clone() if case["real_eps"] else e.clone()
    leaf["eps_layers"] = torch.sqrt(e) if case["index"] else e
    leaf["eps_env"] = base["eps_env"].clone()
    if obs == "far":
        leaf["theta"] = torch.tensor(case["theta"], dtype=torch.float64)
    if obs == "near":
        leaf["r_probe"] = torch.tensor(case["xyz"], dtype=torch.float64)
    fn = dict(coef=pmd.multishell.mie_coefficients, cs=pmd.multishell.cross_sections,
              far=pmd.multishell.angular_scattering, near=pmd.multishell.nearfields)[obs]
    be = case.get("backend", "pena")
    kw = dict(backend=be)
    N = case.get("nmax") or int(pmd.multishell.mie_coefficients(**base, **kw)["n_max"])
    if case.get("nmax") or rng.random() < 0.5:
        kw["n_max"] = N

    def call(req):
        v = {k: t.clone().requires_grad_(k in req) for k, t in leaf.items()}
        a = dict(v)
        if case["wl"]:
            a["k0"] = 2 * math.pi / v["k0"]
        if case["index"]:
            a["eps_layers"] = v["eps_layers"] ** 2
        return v, outputs(obs, fn(**a, **kw))

    v, out = call(set(leaf))
    gen_t = torch.Generator().manual_seed(case["seed"] % (1 << 31))
    W = {}
    for k, o in out.items():
        # absorption is a difference: its natural scale is the extinction
        sc = max(float(out[k.replace("abs", "ext")].detach().abs().max()), weakest(case, obs, k))
        w = torch.randn(o.shape, generator=gen_t, dtype=torch.float64)
        wi = torch.randn(o.shape, generator=gen_t, dtype=torch.float64)
        # gradients are linear in the cotangent, whatever its size
        W[k] = torch.complex(w, wi) / sc * case.get("scale", 1.0)

    def loss(out):
        return sum((W[k] * o).real.sum() for k, o in out.items())

    loss(out).backward()
    mon.event(f"backward_{be}")
    grads = {}
    for k, t in v.items():
        if not mon.ok("gradient_exists", t.grad is not None, k):
            return
        mon.ok("gradient_finite", finite(t.grad), lambda: f"d/d{k} = {t.grad}")
        grads[k] = t.grad.clone()
    if mon.viol:
        return

    # asking for gradients changes neither the values nor the other gradients
    with torch.no_grad():
        _, o0 = call(set())
    for k in out:
        sc = float(o0[k].abs().max()) + 1e-300
        mon.le("value_unchanged", float((o0[k] - out[k].detach()).abs().max()), 1e-13 * sc, k)
    for k in leaf:
        v1, o1 = call({k})
        loss(o1).backward()
        sc = float(grads[k].abs().max()) + 1e-300
        mon.le("gradient_independent", float((v1[k].grad - grads[k]).abs().max()), 1e-10 * sc, k)
    mon.event("gradient_subsets", len(leaf))

    # true derivatives
    tol = 5e-8 if be == "pena" else 5e-7
    if case["family"] == "tiny":  # small differences of the Riccati-Bessel derivatives
        tol *= 20
    acc = {k: torch.zeros_like(t) for k, t in grads.items()}
    accs = {k: torch.zeros(t.shape, dtype=torch.float64) for k, t in grads.items()}
    out0 = {k: o.detach() for k, o in out.items()}
    for p in range(Np):
        for i in range(Nk):
            derivs(case, obs, p, i, N, L, W, acc, accs, leaf, cplx_env)
    # rounding floor: the change of the scalar per relative change of all inputs
    total = sum(float((accs[k] * leaf0(base, leaf, k).abs()).sum()) for k in accs)
    if obs == "cs":
        # nothing or almost nothing scattered: coefficients are differences of terms that size
        x = min(1.0, gen.xmax(case))
        g = math.pi * max(r[-1] for r in case["r"]) ** 2
        total += 1e-2 * sum(float(W[k].abs().max()) * x * (1.0 if k.startswith("q_") else g) for k in W)
    for k in grads:
        g, a = grads[k], acc[k]
        s = accs[k] + 1e-4 * total / (leaf0(base, leaf, k).abs() + 1e-300)
        if k == "k0" and case["wl"]:
            f = -2 * math.pi / leaf["k0"] ** 2
            a, s = a * f, s * f.abs()
        if k == "eps_layers":
            if case["real_eps"]:
                a = a.real
            if case["index"]:  # L(eps = n^2): conj chain rule of torch's convention
                a = a * (2 * leaf["eps_layers"]).conj() if a.is_complex() else a * 2 * leaf["eps_layers"]
                s = s * 2 * leaf["eps_layers"].abs()
        d = (g - a).abs()
        bad = ~(d <= tol * s + 1e-300)
        j = int((d / (s + 1e-300)).argmax()) if not bool(bad.any()) else int(torch.nan_to_num(d / (s + 1e-300), nan=1e300).argmax())
        mon.hit(float(a.abs().max()) > 0)
        if bool(bad.any()):
            # conditioning of the derivative itself
            s2 = condition(case, obs, k, j, N, L, W, leaf, cplx_env)
            mon.le("gradient_true_ill_conditioned_" + k, float(d.reshape(-1)[j]), float(tol * s.reshape(-1)[j] + 1e-10 * s2),
                   lambda: f"entry {j}: {g.reshape(-1)[j]} vs {a.reshape(-1)[j]}")
        else:
            mon.le("gradient_true_" + k, float(d.reshape(-1)[j] / (s.reshape(-1)[j] + 1e-300)), tol)
        mon.event("gradient_entries", g.numel())


def weakest(case, obs, key):
    """Scale of the response of an almost index-matched particle (below: rounding noise of O(1) terms)."""
    x = min(1.0, gen.xmax(case))
    if obs == "cs":
        return 1e-5 * x**3 * (1.0 if key.startswith("q_") else math.pi * max(r[-1] for r in case["r"]) ** 2)
    if obs == "near":
        return 1e-6 if key[0] == "E" else 1e-9
    return 1e-6 * x**3


def leaf0(base, leaf, k):
    """The input the reference derivative refers to (wavevector and permittivity, not wavelength and index)."""
    return base[k] if k in base else leaf[k]


def make(case, p, i, N, dk=0, dr=None, de=None, denv=0):
    k0, r, eps, env = gen.sphere_args(case, p, i)
    M = oracle.to_mp
    k0 = M(k0) + dk
    r = [mp.mpf(q) for q in r]
    eps = [M(q) for q in eps]
    env = M(env) + denv
    if dr:
        r[dr[0]] += dr[1]
    if de:
        eps[de[0]] += de[1]
    return oracle.Sphere(k0, r, eps, env, nmax=N, base=55)


def derivs(case, obs, p, i, N, L, W, acc, accs, leaf, cplx_env, only=None, shift=0.0):
    """Accumulate dL/dinput of the weighted scalar for one particle and wavelength."""
    mp.mp.dps = 60
    h0 = mp.mpf(10) ** -18
    k0, r, eps, env = gen.sphere_args(case, p, i)
    extra = None
    if obs == "far":
        extra = [mp.mpf(t) for t in case["theta"]]
    if obs == "near":
        pts = [[mp.mpf(q) for q in pt] for pt in case["xyz"]]
        regs = [region(math.sqrt(sum(q * q for q in pt)), r) for pt in case["xyz"]]
        extra = (pts, regs)
    w = {}
    for k, t in W.items():
        if obs == "coef":
            q = t[:, p, i]
        elif obs == "cs":
            q = t[..., p, i].reshape(-1) if t.ndim > 2 else t[p, i].reshape(1)
        else:
            q = t[p, i].reshape(-1)
        w[k] = [complex(z) for z in q]

    def scal(s, ex):
        o = oracle_outputs(obs, s, case, N, ex)
        return [mp.re(mp.mpc(w[k][j]) * z) for k in w for j, z in enumerate(o[k])]

    def put(key, idx, plus, minus, h, im=False):
        d = [(a - b) / (2 * h) for a, b in zip(plus, minus)]
        val, sc = float(sum(d)), float(sum(abs(q) for q in d))
        acc[key][idx] += 1j * val if im else val
        accs[key][idx] += sc

    sk = shift * k0
    hk = h0 * k0
    mk = lambda **kw: make(case, p, i, N, **{**dict(dk=sk), **kw})
    if only in (None, "k0"):
        put("k0", (i,), scal(make(case, p, i, N, dk=sk + hk), extra), scal(make(case, p, i, N, dk=sk - hk), extra), hk)
    for l in range(L):
        if only in (None, "r_layers"):
            h = h0 * r[l]
            put("r_layers", (p, l), scal(mk(dr=(l, h)), extra), scal(mk(dr=(l, -h)), extra), h)
        if only in (None, "eps_layers"):
            h = h0 * abs(eps[l])
            put("eps_layers", (p, l, i), scal(mk(de=(l, h)), extra), scal(mk(de=(l, -h)), extra), h)
            if not case["real_eps"]:
                hi = mp.mpc(0, h)
                put("eps_layers", (p, l, i), scal(mk(de=(l, hi)), extra), scal(mk(de=(l, -hi)), extra), h, im=True)
    if only in (None, "eps_env"):
        h = h0 * abs(env)
        put("eps_env", (i,), scal(mk(denv=h), extra), scal(mk(denv=-h), extra), h)
        if cplx_env:
            hi = mp.mpc(0, h)
            put("eps_env", (i,), scal(mk(denv=hi), extra), scal(mk(denv=-hi), extra), h, im=True)
    if obs == "far" and only in (None, "theta"):
        s = mk()
        for j in range(len(extra)):
            e1, e2 = list(extra), list(extra)
            e1[j] += h0
            e2[j] -= h0
            put("theta", (j,), scal(s, e1), scal(s, e2), h0)
    if obs == "near" and only in (None, "r_probe"):
        s = mk()
        pts, regs = extra
        for j in range(len(pts)):
            h = h0 * mp.sqrt(sum(q * q for q in pts[j]))
            for a in range(3):
                e1 = [list(q) for q in pts]
                e2 = [list(q) for q in pts]
                e1[j][a] += h
                e2[j][a] -= h
                put("r_probe", (j, a), scal(s, (e1, regs)), scal(s, (e2, regs)), h)


def condition(case, obs, key, j, N, L, W, leaf, cplx_env, h=1e-7):
    """|change of the derivative entry| per relative change of the wavevector."""
    import torch

    Np, _, Nk = gen.dims(case)
    vals = []
    for sh in (0.0, h):
        acc = {k: torch.zeros_like(t) if t.is_complex() or k != "eps_layers" else torch.zeros_like(t) for k, t in leaf.items()}
        accs = {k: torch.zeros(t.shape, dtype=torch.float64) for k, t in leaf.items()}
        for p in range(Np):
            for i in range(Nk):
                derivs(case, obs, p, i, N, L, W, acc, accs, leaf, cplx_env, only=key, shift=sh)
        vals.append(acc[key].reshape(-1)[j])
    return float((vals[1] - vals[0]).abs()) / h


def axis(case, mon):
    """Probe-position gradients on the polar axis: the fields are smooth there."""
    import torch
    import pymiediff as pmd

    kw = dict(k0=torch.tensor([0.012], dtype=torch.float64), r_layers=torch.tensor([60.0], dtype=torch.float64),
              eps_layers=torch.tensor([[4.0 + 0.1j]], dtype=torch.complex128), n_max=5)
    x = torch.tensor([[0.0, 0.0, 100.0]], dtype=torch.float64, requires_grad=True)
    f = pmd.multishell.nearfields(r_probe=x, **kw)
    g = torch.autograd.grad(f["E_s"][0, 0, 0, 2].real, x)[0][0, 0]
    ref = []
    for d in (1e-2, -1e-2):
        q = torch.tensor([[d, 0.0, 100.0]], dtype=torch.float64)
        ref.append(float(pmd.multishell.nearfields(r_probe=q, **kw)["E_s"][0, 0, 0, 2].real))
    fd = (ref[0] - ref[1]) / 2e-2
    mon.ok("gradient_finite", finite(g), str(g))
    mon.le("gradient_true_on_axis", abs(float(g) - fd), 1e-4 * abs(fd), f"dEz/dx on the z axis {float(g)} vs {fd}")
    mon.hit()


def origin(case, mon):
    """Probe-position gradients in the centre of the particle: the fields are smooth there."""
    import torch
    import pymiediff as pmd

    kw = dict(k0=torch.tensor([0.012], dtype=torch.float64), r_layers=torch.tensor([60.0], dtype=torch.float64),
              eps_layers=torch.tensor([[4.0 + 0.1j]], dtype=torch.complex128), n_max=5)
    x = torch.zeros((1, 3), dtype=torch.float64, requires_grad=True)
    f = pmd.multishell.nearfields(r_probe=x, **kw)
    g = torch.autograd.grad(f["E_s"][0, 0, 0, 0].imag, x)[0][0, 2]
    ref = []
    for d in (1e-2, -1e-2):
        q = torch.tensor([[1e-4, 1e-4, d]], dtype=torch.float64)
        ref.append(float(pmd.multishell.nearfields(r_probe=q, **kw)["E_s"][0, 0, 0, 0].imag))
    fd = (ref[0] - ref[1]) / 2e-2
    err = abs(float(g) - fd) if math.isfinite(float(g)) else math.nan
    mon.le("gradient_true_at_origin", err, 1e-3 * abs(fd), f"dEx/dz in the centre {float(g)} vs {fd}")
    mon.hit()


def psizero(case, mon):
    """d q_ext / dx where psi_n(m x) (nearly) vanishes for some order: nothing special happens physically."""
    import mpmath as mp
    import torch
    import pymiediff as pmd
    from miemon import oracle

    x, m, N = case["z"] / case["m"], case["m"], case["N"]
    k = torch.tensor([x], dtype=torch.float64, requires_grad=True)
    r = pmd.multishell.cross_sections(k, r_layers=torch.tensor([[1.0]], dtype=torch.float64),
                                      eps_layers=torch.tensor([[m * m]], dtype=torch.complex128),
                                      eps_env=torch.tensor([1.0], dtype=torch.float64), n_max=N)
    (g,) = torch.autograd.grad(r["cs_ext"].sum(), k)
    with mp.workdps(60):
        h = mp.mpf(10) ** -20
        X = mp.mpf(float(k))

        def cext(t):
            s = oracle.Sphere(t, [mp.mpf(1)], [mp.mpf(m * m)], 1.0, nmax=N, base=60)
            return 2 * mp.pi / t**2 * sum((2 * n + 1) * (mp.re(s.a[n]) + mp.re(s.b[n])) for n in range(1, N + 1))

        ex = float((cext(X + h) - cext(X - h)) / (2 * h))
    key = "gradient_true_at_psi_zero" if "id" in case else "gradient_true_near_psi_zero"
    mon.le(key, abs(float(g) - ex), 1e-5 * max(1.0, abs(ex)), f"d cs_ext/dk at m x = {case['z']}: {float(g)} vs {ex}")
    mon.hit()
