"""C18: effective dipole models for coupled simulations reproduce Mie theory."""
import functools
import math
import warnings

from miemon import gen
from miemon.oracle import Sphere

PROPERTY = "C18"
RULE = (
    "particle (1..6 layers, dielectric to metal, constant or tabulated materials, layer or core-shell construction) x host index x "
    "wavelength list (single, many, unsorted, list/tensor/int) x backend x order x position x illumination: coefficients handed "
    "over, metadata, quadrupole warnings, the 6x6 polarizability, and extinction / scattering / absorption cross sections and "
    "scattered fields of a coupled-dipole simulation with the dipole, each against arbitrary-precision dipolar Mie theory; "
    "gradients through the simulation against oracle differences; inconsistent hosts must be refused; non-trivial when a "
    "simulation or coefficient comparison with non-zero response was made"
)
ASSUMPTIONS = [
    "torchgdm 0.57 as installed is the coupled-dipole package; it computes in single precision (tolerances 3e-4)",
    "transparent, non-dispersive hosts (dispersive ones are documented as unsupported); legacy backends |m x| <= 20",
]
TECHNIQUE = "runtime monitoring: arbitrary-precision reference oracle over captured coefficients, polarizabilities and simulation results"
DB = ["Si", "Au", "Ag", "GaAs", "TiO2", "SiO2", "Al", "Ge"]


def generate(rng, tier):
    q = tier == "quick"
    cases = []
    for j in range(220 if q else 2500):
        nw = rng.choice([1, 1, 2, 3, 4])
        env = rng.choice([1.0, 1.0, 1.33, 1.5, rng.uniform(1.0, 2.5)])
        fam = rng.choice(["diel", "high", "lossy", "metal", "mixed", "mixed", "hollow"])
        L = rng.choice([1, 1, 2, 2, 3, 4, 6])
        c = gen.config(rng, fam, L=L, nk=1, xlo=0.05, xhi=rng.choice([0.5, 2.0, 5.0]))
        wl0 = round(rng.uniform(350.0, 1500.0), 1)
        s = (2 * math.pi / c["k0"][0]) and wl0 / (2 * math.pi / c["k0"][0]) * abs(complex(*c["env"][0])) ** 0.5 / env
        r = [round(v * s, 4) for v in c["r"][0]]
        r = [v + 1e-3 * i for i, v in enumerate(r)]
        wl = [wl0] + [round(wl0 * rng.uniform(0.8, 1.4), 1) for _ in range(nw - 1)]
        eps = [e[0] for e in c["eps"][0]]
        if fam == "hollow":
            eps = [[env**2, 0.0] if e == c["env"][0] else e for e in eps]
        case = dict(kind=rng.choice(["sim", "sim", "sim", "coef", "coef", "grad"]), r=r, eps=eps, env=env, wl=wl,
                    build=rng.choice(["eps", "eps", "mat", "legacy"] if len(r) <= 2 else ["eps", "mat"]),
                    wform=rng.choice(["f32", "f64", "list", "tensor0"] if nw == 1 else ["f32", "f64", "list", "numpy"]),
                    envform=rng.choice(["float", "mat", "tensor"]), nenv=rng.choice(["none", "none", "given"]),
                    backend=rng.choice([None, None, "pena", "torch", "scipy"]), nmax=rng.choice([None, None, 1, 2, 3, 5]),
                    r0=rng.choice([None, [rng.uniform(-300, 300) for _ in range(3)]]), r0form=rng.choice(["list", "tensor", "row"]),
                    angle=rng.choice([0.0, rng.uniform(0, 6.28)]), e0=[rng.choice([0.0, 1.0, rng.uniform(0.2, 2)]), rng.choice([0.0, 1.0, rng.uniform(0.2, 2)])],
                    plane=rng.choice(["xz", "yz"]))
        if case["build"] == "mat" and rng.random() < 0.6:
            case["db"] = [rng.choice(DB + [None]) for _ in r]
        if not any(case["e0"]):
            case["e0"][0] = 1.0
        be = case["backend"] or ("torch" if len(r) <= 2 else "pena")
        if len(r) > 2 and be != "pena":
            case["backend"] = "pena"
            be = "pena"
        if be != "pena":
            # |m x| of tabulated materials is below 8
            mx = max([abs(complex(*e)) ** 0.5 for e in eps] + ([8.0] if case.get("db") else []))
            im = max([abs((complex(*e) ** 0.5).imag) for e in eps] + ([7.0] if case.get("db") else []))
            k = 2 * math.pi / min(wl)
            if mx * k * r[-1] > 18 or im * k * r[-1] > 3.5:
                case["backend"] = "pena"
        cases.append(case)
    for j in range(30 if q else 300):
        cases.append(dict(kind="refuse", what=rng.choice(["n_env", "n_env", "dispersive", "type", "r0"]), r=[rng.uniform(20, 80)], eps=[[4.0, 0.1]],
                          env=rng.choice([1.0, 1.33, 1.5]), off=rng.choice([1.01, 0.99, 1.3, 1.001, 0.5]), wl=[500.0, 700.0], bump=rng.random() < 0.5))
    return cases


def run(case, mon):
    if case["kind"] == "refuse":
        return refuse(case, mon)
    observe(case, mon)


def build(case, radii=None):
    import torch
    import pymiediff as pmd

    r = radii if radii is not None else list(case["r"])
    eps = [complex(*e) for e in case["eps"]]
    env = case["env"]
    env = {"float": env, "mat": pmd.materials.MatConstant(env**2), "tensor": torch.tensor(env)}[case.get("envform", "float")]
    db = case.get("db") or [None] * len(eps)
    mats = [pmd.materials.MatDatabase(d) if d else pmd.materials.MatConstant(e) for d, e in zip(db, eps)]
    b = case.get("build", "eps")
    if b == "legacy":
        kw = dict(r_core=r[0], mat_core=mats[0], mat_env=env)
        if len(eps) == 2:
            kw.update(r_shell=r[1], mat_shell=mats[1])
        return pmd.Particle(**kw), mats
    if b == "mat":
        return pmd.Particle(r_layers=r, mat_layers=mats, mat_env=env), mats
    return pmd.Particle(r_layers=r, eps_layers=torch.tensor(eps, dtype=torch.complex128), mat_env=env), None


def spectrum(case):
    """Wavelengths in the requested form, and the numbers they stand for."""
    import numpy as np
    import torch

    w = case["wl"]
    val = torch.tensor(w, dtype=torch.float32).double().tolist()
    f = case.get("wform", "f32")
    form = {"f32": lambda: torch.tensor(w, dtype=torch.float32), "f64": lambda: torch.tensor(w, dtype=torch.float64), "list": lambda: list(w),
            "tensor0": lambda: torch.tensor(w[0]), "numpy": lambda: np.array(w)}[f]()
    return form, val


def reference(case, mats, val, nmax, radii=None):
    import torch

    out = []
    r = radii if radii is not None else case["r"]
    for w in val:
        eps = [complex(*e) for e in case["eps"]]
        if case.get("db"):
            eps = [complex(m.get_epsilon(torch.tensor([w], dtype=torch.float64)).reshape(-1)[0]) for m in mats]
        out.append(Sphere(2 * math.pi / w, list(r), eps, case["env"] ** 2, nmax))
    return out


def source(case):
    import torchgdm as tg

    return tg.env.freespace_3d.PlaneWave(e0p=case["e0"][0], e0s=case["e0"][1], inc_angle=case["angle"], inc_plane=case["plane"])


def simulate(struct, case, wl):
    import torchgdm as tg

    env = tg.env.freespace_3d.EnvHomogeneous3D(env_material=case["env"] ** 2)
    sim = tg.simulation.Simulation(structures=struct if isinstance(struct, list) else [struct], environment=env, illumination_fields=[source(case)], wavelengths=wl)
    sim.run(verbose=False, progress_bar=False)
    return sim


def observe(case, mon):
    import torch
    import pymiediff as pmd

    T = pmd.helper.tg
    wl, val = spectrum(case)
    leaf = None
    if case["kind"] == "grad":
        leaf = torch.tensor(case["r"], dtype=torch.float32, requires_grad=True)
    part, mats = build(case, radii=list(leaf.unbind()) if leaf is not None and case["build"] == "legacy" else leaf)
    kw = {}
    if case["nenv"] == "given":
        kw["n_env"] = case["env"]
    if case["backend"]:
        kw["backend"] = case["backend"]
    N = case["nmax"] or 2
    ref = reference(case, mats, val, max(N, 2))
    mon.event(f"backend_{case['backend'] or 'auto'}")
    if case["kind"] == "coef":
        kn = dict(kw, n_max=case["nmax"]) if case["nmax"] else kw
        res = T.mie_ab_sphere_3d_AD(part, wl, as_dict=True, **kn)
        a, b = T.mie_ab_sphere_3d_AD(part, wl, **kn)
        mon.ok("same_with_and_without_dict", torch.equal(a, res["a_n"]) and torch.equal(b, res["b_n"]))
        if not mon.ok("coefficient_shape", tuple(a.shape) == tuple(b.shape) == (len(val), N), lambda: f"{tuple(a.shape)} wanted {(len(val), N)}"):
            return
        for i, s in enumerate(ref):
            for n in range(1, N + 1):
                for got, want, nm in ((a, s.a, "a"), (b, s.b, "b")):
                    e = complex(want[n])
                    mon.le("coefficients", abs(complex(got[i, n - 1]) - e), coef_tol(case, s, i, val, mats, n, nm), lambda: f"{nm}_{n} at {val[i]} nm: {complex(got[i, n - 1])} exact {e}")
        mon.le("metadata_radius", abs(float(res["r_enclosing"]) - case["r"][-1]), 1e-5 * case["r"][-1], "")
        mon.ok("metadata_wavelengths", res["wavelengths"].double().tolist() == val, lambda: str(res["wavelengths"]))
        n_env = torch.as_tensor(res["n_env"]).reshape(-1)
        mon.le("metadata_n_env", max(abs(complex(v) - case["env"]) for v in n_env), 1e-6 * case["env"], "")
        mon.le("metadata_environment", max(abs(complex(res["environment"].get_environment_permittivity_scalar(w, torch.zeros((1, 3))).reshape(-1)[0]) - case["env"] ** 2) for w in val), 3e-6, "")
        mon.hit()
        return
    if case["r0"] is not None:
        kw["r0"] = {"list": case["r0"], "tensor": torch.tensor(case["r0"]), "row": torch.tensor([case["r0"]])}[case["r0form"]]
    r0 = case["r0"] or [0.0, 0.0, 0.0]
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        st = T.StructAutodiffMieEffPola3D(part, wavelengths=wl, verbose=False, **kw)
    said = " ".join(str(w.message) for w in rec)
    for nm, which in (("electric", "a"), ("magnetic", "b")):
        v = [abs(complex(getattr(s, which)[2])) for s in ref]
        if all(abs(x - 0.15) > 1e-3 for x in v):
            mon.ok("quadrupole_warning", (f"residual {nm} quadrupole" in said) == any(x > 0.15 for x in v), lambda: f"{nm} {v} '{said}'")
    # polarizability at the requested wavelengths
    for i, (w, s) in enumerate(zip(val, ref)):
        k0 = 2 * math.pi / w
        al = st.get_polarizability_6x6(w, st.environment).detach().reshape(6, 6).to(torch.complex128)
        pe = 1.5j * complex(s.a[1]) / k0**3 / case["env"]
        pm = 1.5j * complex(s.b[1]) / k0**3 / case["env"] ** 3
        want = torch.diag(torch.tensor([pe] * 3 + [pm] * 3, dtype=torch.complex128))
        mon.le("polarizability", float((al - want).abs()[:3].max()), 1.5 / k0**3 / case["env"] * coef_tol(case, s, i, val, mats, 1, "a") + 1e-6 * abs(pe), lambda: f"{al.diagonal()} {pe}")
        mon.le("polarizability_magnetic", float((al - want).abs()[3:].max()), 1.5 / k0**3 / case["env"] ** 3 * coef_tol(case, s, i, val, mats, 1, "b") + 1e-6 * abs(pm), lambda: f"{al.diagonal()} {pm}")
    mon.le("metadata_position", float((st.get_all_positions().reshape(-1, 3).double() - torch.tensor(r0, dtype=torch.float64)).abs().max()), 1e-4, lambda: str(st.get_all_positions()))
    sim = simulate(st, case, torch.tensor(case["wl"], dtype=torch.float32))
    cs = sim.get_spectra_crosssections(progress_bar=False)
    inten = None
    for i, (w, s) in enumerate(zip(val, ref)):
        k = 2 * math.pi / w * case["env"]
        a, b = complex(s.a[1]), complex(s.b[1])
        ext = 6 * math.pi / k**2 * (a.real + b.real)
        sca = 6 * math.pi / k**2 * (abs(a) ** 2 + abs(b) ** 2)
        amp2 = case["e0"][0] ** 2 + case["e0"][1] ** 2
        tol = 3e-4 * ext + 6 * math.pi / k**2 * (coef_tol(case, s, i, val, mats, 1, "a") + coef_tol(case, s, i, val, mats, 1, "b"))
        for key, want in (("ecs", ext), ("scs", sca), ("acs", ext - sca)):
            # torchgdm leaves the division by the incident intensity to the user
            got = float(cs[key].reshape(len(val), -1)[i, 0]) / amp2
            mon.le(f"simulated_{key}", abs(got - want), tol, lambda: f"{key} at {w} nm: {got} dipolar Mie {want} (n_env {case['env']}, |E0|^2 {amp2})")
        mon.hit(ext > 1e-30)
    if case["kind"] == "sim":
        scattered(case, mon, sim, ref, val, r0, mats)
    else:
        gradient(case, mon, st, sim, cs, leaf, val, mats)


def coef_tol(case, s, i, val, mats, n, which):
    """Single-precision inputs: conditioning of the coefficient with respect to them."""
    key = (i, n, which)
    memo = s.__dict__.setdefault("_tolmemo", {})
    if key not in memo:
        e = complex(getattr(s, which)[n])
        h = 1e-6
        c = 0.0
        for q in perturbations(case, h):
            t = reference(dict(case, **q[0]), mats, [val[i] * q[1]], max(n, 1))[0]
            c += abs(complex(getattr(t, which)[n]) - e) / h
        memo[key] = 1e-6 * c + (5e-5 if n == 1 else 1e-3) * abs(e) + (0 if case["backend"] == "pena" else 2e-6 * abs(complex(s.a[1])) + 2e-7 * min(1.0, (2 * math.pi / val[i] * case["env"] * case["r"][-1]) ** 3)) + 1e-35
    return memo[key]


def perturbations(case, h):
    yield {}, 1 + h
    for l in range(len(case["r"])):
        r = list(case["r"])
        r[l] *= 1 + h
        yield dict(r=r), 1
        e = [list(v) for v in case["eps"]]
        z = complex(*e[l]) * (1 + h)
        e[l] = [z.real, z.imag]
        yield dict(eps=e), 1
    yield dict(env=case["env"] * (1 + h)), 1


def scattered(case, mon, sim, ref, val, r0, mats):
    """Scattered field of the simulated dipole against dipolar Mie theory in the frame of the simulated wave."""
    import torch

    R = case["r"][-1]
    dirs = [(0.3, -0.8, 0.52), (-0.9, 0.1, -0.4), (0.1, 0.2, 0.97)]
    pts = [[r0[c] + R * f * d[c] for c in range(3)] for d, f in zip(dirs, (1.5, 4.0, 40.0))]
    P = torch.tensor(pts + [list(r0)], dtype=torch.float32)
    for i, (w, s) in enumerate(zip(val, ref)):
        nf = sim.get_nearfield(w, r_probe=P, progress_bar=False)
        E0 = nf["inc"].efield[0, -1].to(torch.complex128)
        H0 = nf["inc"].hfield[0, -1].to(torch.complex128)
        if float((E0 * E0).sum().abs()) < 0.5 * float((E0 * E0.conj()).sum().real):
            mon.event("elliptical_source")
            continue
        k_dir = torch.linalg.cross(E0, H0.conj()).real
        k_dir = k_dir / k_dir.norm()
        # linear polarisation: common phase
        ph = E0[int(E0.abs().argmax())]
        ph = ph / ph.abs()
        e_dir = (E0 / ph).real
        amp = float(e_dir.norm())
        e_dir = e_dir / amp
        h_dir = torch.linalg.cross(k_dir, e_dir)
        F = torch.stack((e_dir, h_dir, k_dir))  # rows: axes of the Mie frame
        A = complex(ph) * amp
        for j, p in enumerate(pts):
            d = F @ torch.tensor([p[c] - r0[c] for c in range(3)], dtype=torch.float64)
            E, H, _, _ = s.fields([float(v) for v in d], 1.0, 1)
            for got, want, sc, nm in ((nf["sca"].efield[0, j], E, 1, "E"), (nf["sca"].hfield[0, j], H, case["env"], "H")):
                want = (torch.tensor([complex(v) for v in want], dtype=torch.complex128) @ F.to(torch.complex128)) * A
                got = got.to(torch.complex128)
                # single precision: lengths, phases k r, and the polarizability
                k = 2 * math.pi / w * case["env"]
                amp1 = 1.5 * (abs(complex(s.a[1])) + abs(complex(s.b[1])))
                rel = max(coef_tol(case, s, i, val, mats, 1, "a"), coef_tol(case, s, i, val, mats, 1, "b")) * 3 / (amp1 + 1e-30)
                x = k * math.dist(p, r0)
                field = amp1 * amp * (1 / x + 1 / x**2 + 1 / x**3) * sc
                lever = 4e-7 * (math.dist(p, [0, 0, 0]) + math.hypot(*r0)) * (k + 3 / math.dist(p, r0))
                mon.le(f"scattered_{nm}", float((got - want).abs().max()), field * (3e-4 + rel + lever) + 4e-7 * amp * sc, lambda: f"at {p} {w} nm: {got.tolist()} dipolar Mie {want.tolist()}")
        mon.event("scattered_field")


def gradient(case, mon, st, sim, cs, leaf, val, mats):
    import torch

    ecs = cs["ecs"].reshape(-1)
    wgt = [1.0 + 0.3 * i for i in range(len(val))]
    ecs = ecs / (case["e0"][0] ** 2 + case["e0"][1] ** 2)
    f = sum(g * e for g, e in zip(wgt, ecs))
    if not mon.ok("differentiable", f.requires_grad):
        return
    (g,) = torch.autograd.grad(f, leaf)

    def total(r, ws=val, c=case):
        t = 0.0
        for q, w, s in zip(wgt, ws, reference(c, mats, ws, 1, radii=r)):
            k = 2 * math.pi / w * c["env"]
            t += q * 6 * math.pi / k**2 * (complex(s.a[1]).real + complex(s.b[1]).real)
        return t

    for l in range(len(case["r"])):
        h = 1e-5 * case["r"][l]
        d = []
        for sgn in (1, -1, 2, -2):
            r = list(case["r"])
            r[l] += sgn * h
            d.append(total(r))
        e = (8 * (d[0] - d[1]) - (d[2] - d[3])) / (12 * h)
        # conditioning of the derivative itself (single precision inputs)
        c = abs(d[0] + d[1] - 2 * total(case["r"])) / h**2 * case["r"][l]
        sc = abs(e) + 3e-3 * abs(total(case["r"])) / case["r"][l] + 1e-3 * c
        mon.le("gradient", abs(float(g[l]) - e), 2e-2 * sc + 1e-6 * math.pi * case["r"][-1], lambda: f"d ecs / d r_{l}: {float(g[l])} oracle {e} backend {case['backend']}")
    mon.event("gradients")


def refuse(case, mon):
    import torch
    import pymiediff as pmd

    T = pmd.helper.tg
    part, _ = build(case)
    wl = torch.tensor(case["wl"])
    if case.get("bump"):
        wl = torch.tensor([500.0, 640.0, 700.0])
    call = {
        "n_env": lambda: T.StructAutodiffMieEffPola3D(part, wavelengths=wl, n_env=case["env"] * case["off"], verbose=False),
        "dispersive": lambda: T.StructAutodiffMieEffPola3D(build_disp(case), wavelengths=wl, verbose=False),
        "type": lambda: T.StructAutodiffMieEffPola3D(dict(r=1), wavelengths=wl, verbose=False),
        "r0": lambda: T.StructAutodiffMieEffPola3D(part, wavelengths=wl, r0=[1.0, 2.0], verbose=False),
    }[case["what"]]
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            call()
    except Exception as ex:  # noqa: BLE001
        mon.ok("refused", True)
        mon.event(type(ex).__name__)
    else:
        mon.ok("refused", False, f"{case['what']} accepted: n_env {case['env']} vs {case['env'] * case['off']}")
    # and the particle remains usable
    a, _ = T.mie_ab_sphere_3d_AD(part, wl)
    b, _ = T.mie_ab_sphere_3d_AD(build(case)[0], wl)
    mon.ok("usable_after_refusal", torch.equal(a, b))
    mon.hit()


def build_disp(case):
    import torch
    import pymiediff as pmd

    if case.get("bump"):
        # a host that agrees at the ends of the spectrum

        class Bump(pmd.materials.MatConstant):
            def get_epsilon(self, wavelength):
                w = torch.as_tensor(wavelength, dtype=torch.float32)
                return (2.25 + 0.3 * ((w - 500.0) * (700.0 - w) / 1e4)).to(torch.complex64)

        return pmd.Particle(r_layers=case["r"], eps_layers=[4.0], mat_env=Bump(2.25))
    return pmd.Particle(r_layers=case["r"], eps_layers=[4.0], mat_env=pmd.materials.MatDatabase("TiO2"))
