"""C19: extracted multi-dipole models see correctly rotated Mie fields."""
import math
import warnings

from miemon.checks import c18
from miemon.oracle import Sphere

PROPERTY = "C19"
RULE = (
    "capture: particle (1..5 layers) x host x wavelengths x angles per plane x support/probe points (given, generated, default) x "
    "order x backend; every illumination handed to the extraction is recognised as a unit plane wave of the announced set "
    "(each announced one exactly once) and the scattered fields paired with it are compared with exact Mie fields in the frame of "
    "that wave; model: extraction end to end, simulated with waves from random directions, at random positions, alone, as list, "
    "combined, and after patching for differentiation; gradients of patched simulations; inconsistent input must be refused; "
    "non-trivial when fields or simulation results were compared"
)
ASSUMPTIONS = [
    "torchgdm 0.57 as installed (single precision; scattering cross sections of multi-dipole models are not meaningful there and "
    "are not judged)", "fields on the polar axis of the wave carry the documented safeguard (sqrt(20 eps) of the dtype)",
    "end-to-end models: k r <= 1.5, 36 support points, agreement within 5 percent (extinction) and 25 percent (near field, 1.3 R outwards)",
]
TECHNIQUE = "runtime monitoring: interception of the extraction call, arbitrary-precision reference oracle in the frame of each captured wave, before/after comparison of simulations"


def generate(rng, tier):
    q = tier == "quick"
    cases = []
    for j in range(32 if q else 700):
        L = rng.choice([1, 1, 2, 2, 3, 5])
        R = 10 ** rng.uniform(1.0, 2.5)
        f = sorted(rng.uniform(0.2, 0.95) for _ in range(L - 1))
        r = [round(R * v, 2) + 0.1 * i for i, v in enumerate(f + [1.0])]
        eps = [rng.choice([[rng.uniform(1.5, 12), 0.0], [rng.uniform(1.5, 12), rng.uniform(0.01, 1)], [-rng.uniform(2, 20), rng.uniform(0.1, 2)]]) for _ in range(L)]
        c = dict(kind="capture", r=r, eps=eps, env=rng.choice([1.0, 1.0, 1.33, 1.5, 2.0]), wl=[round(rng.uniform(400, 1200), 1) for _ in range(rng.choice([1, 1, 2]))],
                 angles=rng.choice([1, 2, 3, 4, 5, 8] if not q else [1, 2, 3, 5]), nmax=rng.choice([None, 1, 2, 3, 5]), backend=rng.choice([None, "pena", "torch"] if L < 3 else [None, "pena"]),
                 probe=rng.choice(["given", "given", "given", "given", "default"]), add=rng.choice([5.0, 20.0, 60.0]), gpm=rng.choice(["given", "given", "numpy", "int", "none"]),
                 nenv=rng.choice(["none", "given"]), seed=rng.randrange(10**6), cls=rng.random() < 0.4)
        if c["probe"] == "default":
            c["angles"] = min(c["angles"], 2)
        x = 2 * math.pi / min(c["wl"]) * r[-1]
        if c["backend"] != "pena" and L < 3 and (max(abs(complex(*e)) ** 0.5 for e in eps) * x > 18 or max(abs((complex(*e) ** 0.5).imag) for e in eps) * x > 3.5):
            c["backend"] = "pena"
        cases.append(c)
    for j in range(6 if q else 60):
        wl = [rng.uniform(500, 900) for _ in range(rng.choice([1, 1, 2]))]
        env = rng.choice([1.0, 1.33, 1.5])
        L = rng.choice([1, 2, 3])
        R = rng.uniform(0.3, 1.4) * min(wl) / (2 * math.pi * env)
        r = [R * v for v in sorted(rng.uniform(0.4, 0.9) for _ in range(L - 1))] + [R]
        eps = [rng.choice([[rng.uniform(3, 14), 0.0], [rng.uniform(3, 9), rng.uniform(0.01, 1)], [-rng.uniform(4, 15), rng.uniform(0.3, 2)]]) for _ in range(L)]
        cases.append(dict(kind="model", r=r, eps=eps, env=env, wl=wl, r0=rng.choice([None, [rng.uniform(-200, 200) for _ in range(3)]]),
                          angle=rng.uniform(0, 6.28), plane=rng.choice(["xz", "yz"]), e0=[rng.choice([0.0, 1.0, 0.5]), 1.0], seed=rng.randrange(10**6)))
    for j in range(4 if q else 60):
        cases.append(dict(kind="patch", r=[rng.uniform(30, 70)], eps=[[rng.uniform(4, 12), rng.choice([0.0, 0.3])]], env=rng.choice([1.0, 1.33]), wl=[round(rng.uniform(500, 800), 1)],
                          n=rng.choice([1, 2, 2, 3]) if not q else [1, 3, 2, 2][j], mixed=rng.random() < 0.4, angle=rng.uniform(0, 6.28), plane=rng.choice(["xz", "yz"]), e0=[1.0, rng.choice([0.0, 1.0])], seed=rng.randrange(10**6)))
    for j in range(16 if q else 100):
        cases.append(dict(kind="refuse", what=rng.choice(["n_env", "dispersive", "type", "empty"]), r=[rng.uniform(20, 80)], eps=[[4.0, 0.1]], env=rng.choice([1.0, 1.5]),
                          off=rng.choice([1.01, 0.99, 1.3, 0.5]), wl=[500.0, 700.0], bump=rng.random() < 0.5))
    return cases


def run(case, mon):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        {"capture": capture, "model": model, "patch": patch, "refuse": refuse}[case["kind"]](case, mon)


def capture(case, mon):
    import numpy as np
    import torch
    import pymiediff as pmd
    import torchgdm.struct.eff_model_tools as emt

    T = pmd.helper.tg
    part, _ = c18.build(case)
    g = torch.Generator().manual_seed(case["seed"])
    R = case["r"][-1]
    d = torch.randn((7, 3), generator=g)
    d[0] = torch.tensor([0.0, 0.0, 1.0])
    d[1] = torch.tensor([-1.0, 0.0, 0.0])
    probes = d / d.norm(dim=1, keepdim=True) * R * (1.02 + 3 * torch.rand((7, 1), generator=g))
    sup = torch.randn((6, 3), generator=g)
    sup = sup / sup.norm(dim=1, keepdim=True) * R * 0.7 * torch.rand((6, 1), generator=g)
    kw = dict(n_src_pw_angles=case["angles"], verbose=False, progress_bar=False)
    if case["probe"] == "given":
        kw["r_probe"] = probes
    else:
        kw["r_probe_add"] = case["add"]
    if case["nmax"]:
        kw["n_max"] = case["nmax"]
    if case["backend"]:
        kw["backend"] = case["backend"]
    if case["nenv"] == "given":
        kw["n_env"] = case["env"]
    gp = {"given": sup, "numpy": sup.numpy().astype(np.float64), "int": 9, "none": None}[case["gpm"]]
    seen = []
    orig = emt.extract_gpm_from_fields

    def spy(*a, **k):
        assert not a
        seen.append(k)
        n = 6 * len(k["r_gpm"])
        w = float(k["wavelength"])
        return dict(GPM=torch.full((n, n), w, dtype=torch.complex64))

    emt.extract_gpm_from_fields = spy
    try:
        if case["cls"] and case["gpm"] != "none":
            st = T.StructAutodiffMieGPM3D(part, torch.tensor(case["wl"]), gp, **kw)
            out = None
        else:
            out = T.extract_GPM_sphere_miediff(part, torch.tensor(case["wl"]), gp, **kw)
    finally:
        emt.extract_gpm_from_fields = orig
    want = sorted(torch.tensor(case["wl"]).tolist())
    if not mon.ok("one_extraction_per_wavelength", len(seen) == len(want), lambda: f"{len(seen)} {want}"):
        return
    got = [float(k["wavelength"]) for k in seen]
    mon.le("wavelengths", max(abs(a - b) / b for a, b in zip(sorted(got), want)), 1e-6, lambda: f"{got} {want}")
    if out is not None:
        for w, G in zip(out["wavelengths"].tolist(), out["GPM_N6xN6"]):
            mon.le("wavelength_order", float((G.real - w).abs().max()) / w, 1e-6, lambda: f"model at {w} is the one extracted at {float(G.real.flatten()[0])}")
        mon.le("metadata_radius", abs(float(out["enclosing_radius"]) - R), 1e-5 * R, "")
        mon.le("metadata_r_gpm", float((out["r_gpm"] - seen[0]["r_gpm"]).abs().max()), 0.0, "")
        mon.ok("metadata_n", out["n_gpm_dp"] == len(seen[0]["r_gpm"]))
        mon.le("metadata_probe", float((out["extraction_r_probe"] - seen[0]["r_probe"]).abs().max()), 0.0, "")
    else:
        for w in want:
            P = st.get_polarizability_6x6(w, st.environment)
            mon.le("wavelength_order", float((P.real - w).abs().max()) / w, 1e-6, lambda: f"model at {w} is the one extracted at {float(P.real.flatten()[0])}")
    for k in seen:
        fields(case, mon, k, probes, sup)


def fields(case, mon, k, probes, sup):
    import torch
    import pymiediff as pmd

    T = pmd.helper.tg
    c128 = torch.complex128
    w = float(k["wavelength"])
    R, n = case["r"][-1], case["env"]
    k0 = 2 * math.pi / w
    rg, rp = k["r_gpm"].double(), k["r_probe"].double()
    if case["probe"] == "given":
        mon.le("probes", float((rp - probes.double()).abs().max()), 1e-4 * R, "")
    else:
        mon.le("probes", float((rp.norm(dim=1) - R - case["add"]).abs().max()), 1e-4 * (R + case["add"]), "")
    if case["gpm"] in ("given", "numpy"):
        mon.le("support", float((rg - sup.double()).abs().max()), 1e-4 * R, "")
    else:
        mon.ok("support_inside", bool((rg.norm(dim=1) < R).all()) and len(rg) == (9 if case["gpm"] == "int" else 36), lambda: f"{len(rg)} {float(rg.norm(dim=1).max())}")
    env = complex(k["environment"].get_environment_permittivity_scalar(w, torch.zeros((1, 3))).reshape(-1)[0])
    mon.le("environment", abs(env - n * n), 1e-5, "")
    Ei, Hi, Es, Hs = (k[q].detach().to(c128) for q in ("efields_inc", "hfields_inc", "efields_sca", "hfields_sca"))
    announced = T.setup_plane_waves_configs(case["angles"], inc_planes=["xz", "yz", "xy"])
    mon.ok("announced_number", len(announced) == 6 * case["angles"] == len(Ei), lambda: f"{len(announced)} {len(Ei)}")
    table = []
    for a in announced:
        s, c = math.sin(float(a["angle"])), math.cos(float(a["angle"]))
        ax = {"xz": (0, 2), "yz": (1, 2), "xy": (0, 1)}[a["inc_plane"]]
        kd, e = [0.0] * 3, [0.0] * 3
        kd[ax[0]], kd[ax[1]] = s, c
        if a["polarization"] == "s":
            e[3 - sum(ax)] = 1.0
        else:
            e[ax[0]], e[ax[1]] = -c, s
        table.append((torch.tensor(kd, dtype=torch.float64), torch.tensor(e, dtype=torch.float64), a))
    left = list(range(len(table)))
    # reference in the frame of the wave
    eps = [complex(*v) for v in case["eps"]]
    auto = case["nmax"] is None
    x = k0 * n * (R + 0.0)
    N = case["nmax"] or int(x + 4.05 * x ** (1 / 3) + 8)
    s = Sphere(k0, list(case["r"]), eps, n * n, N)
    memo = {}
    clampd = math.sqrt(22 * 1.2e-7)
    for i in range(len(Ei)):
        # plane wave: E and H constant up to the phase exp(i k.r)
        S = torch.linalg.cross(Ei[i], Hi[i].conj()).real.sum(0)
        if not mon.ok("incident_nonzero", float(S.norm()) > 0):
            return
        kd = S / S.norm()
        # several announced waves may coincide up to the sign of the field: prefer one not seen yet
        score = [float(t[0] @ kd) + float((t[1].to(c128) @ Ei[i][0]).abs() / Ei[i][0].norm()) for t in table]
        j0 = max(range(len(table)), key=lambda j: (score[j] > max(score) - 1e-3, j in left, score[j]))
        if not mon.ok("announced_direction", float((table[j0][0] - kd).norm()) < 5e-3, lambda: f"wave {i} travels along {kd.tolist()}, nearest announced {table[j0]}"):
            continue
        if not mon.ok("each_announced_once", j0 in left, lambda: f"{table[j0][2]} appears twice"):
            continue
        left.remove(j0)
        kd, e = table[j0][0], table[j0][1]
        h = torch.linalg.cross(kd, e)
        ph = torch.exp(1j * k0 * n * (rg @ kd).to(c128))
        A = ((Ei[i] @ e.to(c128)) * ph.conj()).mean()
        amp = float(A.abs())
        F = torch.stack((e, h, kd))
        loc = rg @ F.T
        near = float(((loc[:, :2].norm(dim=1) / loc.norm(dim=1).clamp_min(1e-9)) < 3 * clampd).any())
        # the incident field is summed up from spherical harmonics as well
        tol = 3e-5 + 2e-6 * k0 * n * R + (3 * clampd * near * max(1.0, k0 * n * R))
        if case["nmax"]:
            tol = None  # truncated expansion of the wave: judged by the reference below
        if tol is not None:
            mon.le("incident_E", float((Ei[i] - A * ph[:, None] * e.to(c128)).abs().max()) / amp, tol + trunc(k0 * n * float(rg.norm(dim=1).max()), N), lambda: f"wave {table[j0][2]}")
            mon.le("incident_H", float((Hi[i] - n * A * ph[:, None] * h.to(c128)).abs().max()) / amp / n, tol + trunc(k0 * n * float(rg.norm(dim=1).max()), N), lambda: f"wave {table[j0][2]}")
        # amplitude and phase of the wave: least squares against the exact incident field
        num = den = 0
        for j in range(len(rg)):
            key = ("i", tuple(round(float(v), 9) for v in loc[j]))
            ex = [v for v in loc[j].tolist()]
            w_ = plane(s, ex, k0 * n)
            vec = torch.tensor(w_, dtype=c128) @ F.to(c128)
            num = num + (Ei[i][j] * vec.conj()).sum()
            den = den + (vec * vec.conj()).sum()
        A = complex(num / den)
        if case["nmax"]:
            A = A if abs(A) > 0 else 1.0
        lp = rp @ F.T
        sel = range(len(rp)) if len(rp) <= 8 else range((i * 53) % 137, len(rp), 137)
        for j in sel:
            p = lp[j].tolist()
            key = tuple(round(v / R, 6) for v in p)
            if key not in memo:
                memo[key] = s.fields(p, 1.0, N)
            E, H = memo[key][:2]
            st = math.hypot(p[0], p[1]) / math.hypot(*p)
            wE = torch.tensor([complex(v) for v in E], dtype=c128) @ F.to(c128)
            wH = torch.tensor([complex(v) for v in H], dtype=c128) @ F.to(c128)
            top = max(float(wE.abs().max()), 1e-4 * float(wE.abs().max()), 1e-6)
            toph = max(float(wH.abs().max()), 1e-6)
            tol = 3e-4 + 1e-5 * N * N + (4 * clampd * N if st < 3 * clampd else 0) + (3e-3 if auto else 0)
            # amplitude known exactly only when the expansion of the wave is complete
            got, goth = Es[i][j], Hs[i][j]
            if case["nmax"] and trunc(k0 * n * float(rg.norm(dim=1).max()), N) > 1e-4:
                memo_amp = common(mon, got, wE, goth, wH)
                A_ = memo_amp
            else:
                A_ = A
            for nm, g_, w_, tp, f_ in (("E", got, wE, top, 1.0), ("H", goth, wH, toph, n)):
                err = float((g_ - A_ * w_).abs().max()) / abs(A_)
                lim = 3 * tol * tp
                if not err <= lim and st < 3 * clampd:
                    lim += axis(s, p, N, clampd, nm)
                    mon.event("on_axis")
                if not err <= lim:
                    lim += f_ * cond(s, case, k0, p, N)
                    mon.event("conditioned")
                mon.le(f"scattered_{nm}", err, lim, lambda: f"{table[j0][2]} at {rp[j].tolist()}: {(g_ / A_).tolist()} exact {w_.tolist()}")
            mon.hit()
        mon.event(table[j0][2]["inc_plane"] + table[j0][2]["polarization"])
    mon.ok("every_announced_wave_used", not left, lambda: str([table[j][2] for j in left]))


def axis(s, p, N, clampd, nm):
    """Change of the field when a point on the polar axis is moved off it by the documented safeguard."""
    i = 0 if nm == "E" else 1
    key = ("axis", N, tuple(p), nm)
    memo = s.__dict__.setdefault("_axis", {})
    if key not in memo:
        r = math.hypot(*p)
        w = [complex(v) for v in s.fields(p, 1.0, N)[i]]
        tot = 0.0
        for phi in (0.0, 0.5 * math.pi, math.pi, 1.5 * math.pi):
            q = [r * math.sin(clampd) * math.cos(phi), r * math.sin(clampd) * math.sin(phi), math.copysign(r * math.cos(clampd), p[2])]
            tot = max(tot, max(abs(complex(a) - b) for a, b in zip(s.fields(q, 1.0, N)[i], w)))
        memo[key] = 1.5 * tot
    return memo[key]


def cond(s, case, k0, p, N):
    """Single-precision inputs: size of the field change for a relative input change of 3e-7."""
    key = (N, tuple(round(v / case["r"][-1], 3) for v in p))
    memo = s.__dict__.setdefault("_cond", {})
    if key not in memo:
        h = 1e-5
        E0 = [complex(v) for v in s.fields(p, 1.0, N)[0]]
        tot = 0.0
        if "_pert" not in s.__dict__:
            s._pert = []
            for q, f in c18.perturbations(case, h):
                cc = dict(case, **q)
                s._pert.append(Sphere(k0 / f, list(cc["r"]), [complex(*v) for v in cc["eps"]], cc["env"] ** 2, N))
        for t in s._pert:
            tot += max(abs(complex(a) - b) for a, b in zip(t.fields(p, 1.0, N)[0], E0)) / h
        memo[key] = 1e-6 * tot
    return memo[key]


def common(mon, got, wE, goth, wH):
    """Common complex factor of a pair of six-vectors."""
    import torch

    a, b = torch.cat((got, goth)), torch.cat((wE, wH))
    return complex((a * b.conj()).sum() / (b * b.conj()).sum())


def plane(s, p, k):
    import cmath

    ph = cmath.exp(1j * k * p[2])
    return [ph, 0j, 0j]


def trunc(x, N):
    """Size of the neglected part of a plane wave at k r = x."""
    if x <= 0:
        return 0.0
    lg = N * math.log(x) - sum(math.log(2 * q + 1) for q in range(1, N + 2))
    return 20 * math.exp(min(0.0, lg))


def struct(case, mon, r0=None, r=None, **kw):
    import torch
    import pymiediff as pmd

    part, _ = c18.build(case, radii=r)
    return pmd.helper.tg.StructAutodiffMieGPM3D(part, torch.tensor(case["wl"]), 36, n_src_pw_angles=5, r0=r0, verbose=False, progress_bar=False, **kw), part


def results(case, sim, probes):
    import torch

    cs = sim.get_spectra_crosssections(progress_bar=False)["ecs"].reshape(-1)
    out = [cs]
    for w in torch.tensor(case["wl"]).tolist():
        nf = sim.get_nearfield(w, r_probe=probes, progress_bar=False)
        out.append(nf["sca"].efield[0])
        out.append(nf["sca"].hfield[0])
    return out


def model(case, mon):
    import torch
    import pymiediff as pmd

    st, part = struct(case, mon, case["r0"])
    r0 = torch.tensor(case["r0"] or [0.0, 0.0, 0.0])
    g = torch.Generator().manual_seed(case["seed"])
    R = case["r"][-1]
    d = torch.randn((4, 3), generator=g)
    d = d / d.norm(dim=1, keepdim=True)
    P = torch.cat((d * (R + 30) * torch.tensor([[1.3], [1.7], [3.0], [10.0]]) + r0, r0[None]))
    mon.le("metadata_position", float((st.r0.double() - r0).abs().max()), 1e-3, "")
    wl = torch.tensor(case["wl"])
    sim = c18.simulate(st, case, wl)
    ecs = sim.get_spectra_crosssections(progress_bar=False)["ecs"].reshape(-1)
    amp2 = case["e0"][0] ** 2 + case["e0"][1] ** 2
    for i, w in enumerate(wl.tolist()):
        n = case["env"]
        x = 2 * math.pi / w * n * R
        N = int(x + 4.05 * x ** (1 / 3) + 6)
        s = Sphere(2 * math.pi / w, list(case["r"]), [complex(*e) for e in case["eps"]], n * n, N)
        c = s.cross_sections()
        mon.le("model_extinction", abs(float(ecs[i]) / amp2 / float(c["ext"]) - 1), 5e-2, lambda: f"{w} nm: {float(ecs[i]) / amp2} Mie {float(c['ext'])}")
        nf = sim.get_nearfield(w, r_probe=P, progress_bar=False)
        E0, H0 = (getattr(nf["inc"], q)[0, -1].to(torch.complex128) for q in ("efield", "hfield"))
        kd = torch.linalg.cross(E0, H0.conj()).real
        kd = kd / kd.norm()
        ph = E0[int(E0.abs().argmax())]
        ph = ph / ph.abs()
        e = (E0 / ph).real
        A = float(e.norm()) * complex(ph)
        e = e / e.norm()
        F = torch.stack((e, torch.linalg.cross(kd, e), kd))
        for j in range(4):
            p = (F @ (P[j] - r0).double()).tolist()
            E, H = s.fields(p, 1.0, N)[:2]
            for got, want, nm in ((nf["sca"].efield[0, j], E, "E"), (nf["sca"].hfield[0, j], H, "H")):
                want = (torch.tensor([complex(v) for v in want], dtype=torch.complex128) @ F.to(torch.complex128)) * A
                mon.le(f"model_scattered_{nm}", float((got.to(torch.complex128) - want).abs().max() / want.abs().max()), 0.25, lambda: f"at {p} {w} nm: {got.tolist()} Mie {want.tolist()}")
        mon.hit()
    mon.event("model")


class Restored:
    """Undo the patches of torchgdm afterwards."""

    def __enter__(self):
        import torchgdm.linearsystem as ls

        self.saved = [(c, dict(vars(c))) for c in vars(ls).values() if isinstance(c, type)]
        self.mod = dict(vars(ls))
        return self

    def __exit__(self, *a):
        import torchgdm.linearsystem as ls

        for c, v in self.saved:
            for k in list(vars(c)):
                if k not in v:
                    delattr(c, k)
                elif vars(c)[k] is not v[k]:
                    setattr(c, k, v[k])
        for k, v in self.mod.items():
            if vars(ls)[k] is not v:
                setattr(ls, k, v)


def patch(case, mon):
    import torch
    import pymiediff as pmd

    T = pmd.helper.tg
    g = torch.Generator().manual_seed(case["seed"])
    R = case["r"][-1]
    wl = torch.tensor(case["wl"])
    pos = [(torch.tensor([3.2 * R * i, 0.0, 0.0]) + 0.3 * R * torch.rand(3, generator=g)) for i in range(case["n"])]
    sts = [struct(case, mon, p)[0] for p in pos]
    # torchgdm cannot copy structures with gradients: they only enter combined simulations
    leaves = [torch.tensor(case["r"], requires_grad=True) for _ in pos]
    live = [struct(case, mon, p, r=leaf)[0] for p, leaf in zip(pos, leaves)]
    d = torch.randn((5, 3), generator=g)
    P = d / d.norm(dim=1, keepdim=True) * R * (4 * case["n"] + 2)

    def check(tag, a, b, tol):
        for u, v in zip(a, b):
            u, v = u.detach(), v.detach()
            mon.le(tag, float((u - v).abs().max() / v.abs().max()), tol, lambda: f"{u.flatten()[:4].tolist()} vs {v.flatten()[:4].tolist()}")

    extra = []
    if case["mixed"]:
        # a structure of another kind in the same simulation
        part, _ = c18.build(case)
        extra = [T.StructAutodiffMieEffPola3D(part, wl, r0=torch.tensor([0.0, 5.0 * R, 0.0]), verbose=False)]
    with torch.no_grad():
        ref = results(case, c18.simulate(sts + extra, case, wl), P)
    with Restored():
        T.patch_torchgdm_autodiff()
        with torch.no_grad():
            got = results(case, c18.simulate(sts + extra, case, wl), P)
        check("patching_changes_nothing", got, ref, 2e-5)
        T.patch_torchgdm_autodiff()  # idempotent
        comb = T.combine_gpm_structures_autodiff(live)
        a, b = comb.get_all_positions().detach(), torch.cat([s.get_all_positions() for s in live]).detach()
        import torchgdm as tg

        other = tg.env.freespace_3d.EnvHomogeneous3D(env_material=3.0)
        for st, want in ((comb, case["env"] ** 2), (T.combine_gpm_structures_autodiff(live, environment=other), 3.0)):
            e = complex(st.environment.get_environment_permittivity_scalar(case["wl"][0], torch.zeros((1, 3))).reshape(-1)[0])
            mon.le("combined_environment", abs(e - want), 1e-5, f"permittivity {e} of the combined structure's environment, wanted {want}")
        mon.le("combined_positions", float((a - b).abs().max()) / R if a.shape == b.shape else float("inf"), 1e-3, lambda: f"{a.tolist()} {b.tolist()}")
        sim = c18.simulate([comb] + extra, case, wl)
        out = results(case, sim, P)
        check("combining_changes_nothing", out, ref, 1e-4)
        f = out[0].sum()
        grads = torch.autograd.grad(f, leaves, allow_unused=True) if mon.ok("differentiable", f.requires_grad) else []
    with torch.no_grad():
        again = results(case, c18.simulate([T.combine_gpm_structures_autodiff(sts)] + extra, case, wl), P)
    check("combining_without_patch", again, ref, 2e-5)
    mon.event(f"patch_n{case['n']}")
    mon.hit()
    for i, gr in enumerate(grads):
        if not mon.ok("gradient_reaches_particle", gr is not None and bool(torch.isfinite(gr).all()), lambda: f"structure {i}: {gr}"):
            return
    # total derivative (all radii together) against a difference of re-extracted simulations
    if case["n"] == 1 and not case["mixed"] and grads:
        s = sum(float(v.sum()) for v in grads)
        amp2 = case["e0"][0] ** 2 + case["e0"][1] ** 2

        def ext(r):
            k = 2 * math.pi / wl.tolist()[0]
            return float(Sphere(k, [r], [complex(*e) for e in case["eps"]], case["env"] ** 2, 8).cross_sections()["ext"]) * amp2

        h = 1e-4 * R
        want = (ext(R + h) - ext(R - h)) / (2 * h)
        mon.le("gradient", abs(s - want), 0.1 * abs(want) + 0.05 * ext(R) / R, lambda: f"d ecs/d r {s} Mie {want}")


def refuse(case, mon):
    import torch
    import pymiediff as pmd

    T = pmd.helper.tg
    part, _ = c18.build(case)
    wl = torch.tensor([500.0, 640.0, 700.0] if case["bump"] else case["wl"])
    kw = dict(r_gpm=4, n_src_pw_angles=1, verbose=False, progress_bar=False)
    call = {
        "n_env": lambda: T.extract_GPM_sphere_miediff(part, wl, n_env=case["env"] * case["off"], **kw),
        "dispersive": lambda: T.StructAutodiffMieGPM3D(c18.build_disp(case), wl, **kw),
        "type": lambda: T.StructAutodiffMieGPM3D(dict(r=1), wl, **kw),
        "empty": lambda: T.combine_gpm_structures_autodiff([]),
    }[case["what"]]
    try:
        call()
    except Exception as ex:  # noqa: BLE001
        mon.ok("refused", True)
        mon.event(type(ex).__name__)
    else:
        mon.ok("refused", False, f"{case['what']} accepted")
    mon.hit()
