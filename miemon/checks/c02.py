"""C02: cross sections conserve energy and are the sums of their multipoles."""
import math

from miemon import gen
from miemon.util import COND, REL, coef_floor, coef_tol, cond_ab, finite, sphere

PROPERTY = "C02"
RULE = (
    "case = configuration (material family x structure x host x batch shape) x backend x truncation; all "
    "entries of the returned dictionary are checked against each other, the physical balance and the exact "
    "solution; non-trivial when some extinction efficiency exceeds 1e-12"
)
ASSUMPTIONS = [
    "oracle: arbitrary-precision layered sphere (see C01)",
    "energy statements are evaluated for passive particles in lossless hosts",
    "legacy backends: size parameter <= 15, |m x| <= 25, Im(m x) <= 5",
]
TECHNIQUE = "runtime monitoring: conservation-law monitor plus reference oracle over returned cross sections"


def generate(rng, tier):
    n = 70 if tier == "quick" else 500
    cases = []
    fams = [f for f in gen.FAMILIES if f not in ("gainish", "hostlossy")]
    for fam in fams:
        for j in range(n):
            c = gen.config(rng, fam, np_=rng.choice([1, 1, 2, 3]), nk=rng.choice([1, 1, 2, 3, 4]), lmax=5,
                           xhi=30.0 if tier == "quick" else 100.0, dispersive_env=rng.random() < 0.3)
            c["kind"] = "cs"
            if rng.random() < 0.3:
                c["nmax"] = rng.choice([1, 1, 2, 3, 5, 9, 25])
            if rng.random() < 0.3:
                c["particle"] = True
                c["r"], c["eps"] = c["r"][:1], c["eps"][:1]
                # materials are complex64: indices that this represents exactly
                c["env"] = [[rng.choice([1.0, 1.5625, 2.25, 4.0]), 0.0]] * len(c["k0"])
            cases.append(c)
    # spectra: many wavelengths, dispersive host
    for j in range(16 if tier == "quick" else 100):
        c = gen.config(rng, rng.choice(["diel", "lossy", "mixed", "metal"]), np_=rng.choice([1, 2, 3]), nk=rng.randint(5, 12),
                       lmax=3, xlo=0.1, xhi=6.0, dispersive_env=True)
        cases.append(dict(c, kind="cs"))
    for j in range(4 * n):
        c = gen.config(rng, rng.choice(["diel", "lossy", "high", "mixed", "thin"]), np_=rng.choice([1, 2]),
                       nk=rng.choice([1, 2, 3]), L=rng.choice([1, 2]), xlo=0.1, xhi=8.0)
        if gen.max_arg(c) < 20 and max_im(c) < 4:
            c["kind"] = "cs"
            c["backend"] = rng.choice(["torch", "scipy"])
            cases.append(c)
    return cases


def max_im(c):
    return max(
        abs((complex(*c["eps"][p][l][i]) ** 0.5).imag) * k * r
        for p in range(len(c["r"])) for i, k in enumerate(c["k0"]) for l, r in enumerate(c["r"][p])
    )


def run(case, mon):
    import torch
    import pymiediff as pmd

    t = gen.tensors(case)
    Np, L, Nk = gen.dims(case)
    kw = {}
    if case.get("nmax"):
        kw["n_max"] = case["nmax"]
    be = case.get("backend", "pena")
    if case.get("particle"):
        mat_env = gen.cenv(case)
        p = pmd.Particle(r_layers=t["r_layers"][0], eps_layers=t["eps_layers"][0], mat_env=pmd.materials.MatConstant(mat_env[0]))
        res = p.get_cross_sections(t["k0"], **kw)
        mon.event("particle_calls")
    else:
        res = pmd.multishell.cross_sections(**t, backend=be, **kw)
        mon.event(f"calls_{be}")
    loose = 1.0 if be == "pena" else 1e4
    N = int(res["n_max"])
    want = {
        "cs_geo": None, "q_ext": 1, "q_sca": 1, "q_abs": 1, "cs_ext": 1, "cs_sca": 1, "cs_abs": 1,
        "q_ext_multipoles": 3, "q_sca_multipoles": 3, "q_abs_multipoles": 3,
        "cs_ext_multipoles": 3, "cs_sca_multipoles": 3, "cs_abs_multipoles": 3,
    }
    R = {}
    for k, rank in want.items():
        if not mon.ok("key_" + k, k in res, f"missing {k}"):
            return
        v = res[k]
        mon.ok("finite", finite(v), k)
        mon.ok("real", not v.is_complex(), k)
        if rank == 1:
            shape = (Np, Nk)
        elif rank == 3:
            shape = (2, N, Np, Nk)
        else:
            shape = (Np, Nk)
        if not mon.ok("count_" + k, v.numel() == math.prod(shape), f"{k}: {tuple(v.shape)} for {shape}"):
            return
        if not case.get("particle") and rank:
            mon.ok("shape_" + k, tuple(v.shape) == shape, f"{k}: {tuple(v.shape)} for {shape}")
        R[k] = v.reshape(shape).double()
    wl = torch.atleast_1d(res["wavelength"]).double()
    mon.le("wavelength", float((wl - 2 * math.pi / t["k0"]).abs().max() / wl.max()), 1e-14)
    mon.le("k0", float((torch.atleast_1d(res["k0"]).double() - t["k0"]).abs().max() / t["k0"].max()), 1e-15)
    mon.ok("n", torch.atleast_1d(res["n"]).tolist() == list(range(1, N + 1)), str(res["n"]))
    geo = math.pi * t["r_layers"][:, -1:] ** 2
    mon.le("cs_geo", float((R["cs_geo"] / geo - 1).abs().max()), 1e-12)

    for q in ("ext", "sca", "abs"):
        cs, qs = R[f"cs_{q}"], R[f"q_{q}"]
        cm, qm = R[f"cs_{q}_multipoles"], R[f"q_{q}_multipoles"]
        sc = cm.abs().sum((0, 1)) + 1e-300
        mon.le("sum_of_multipoles", float(((cm.sum((0, 1)) - cs).abs() / sc).max()), 1e-12, q)
        mon.le("efficiency", float(((qs * geo - cs).abs() / sc).max()), 1e-12, q)
        mon.le("efficiency_multipoles", float(((qm * geo - cm).abs() / sc).max()), 1e-12, q)
    ext, sca, ab = R["cs_ext_multipoles"], R["cs_sca_multipoles"], R["cs_abs_multipoles"]
    mon.le("balance", float(((ext - sca - ab).abs() / (ext.abs() + sca + 1e-300)).max()), 1e-12)
    mon.le("balance_total", float(((R["cs_ext"] - R["cs_sca"] - R["cs_abs"]).abs() / (R["cs_ext"].abs() + 1e-300)).max()), 1e-10)
    mon.ok("sca_nonnegative", bool((sca >= 0).all()), "negative scattering")

    for p in range(Np):
        for i in range(Nk):
            s = sphere(case, p, i, N)
            o = s.cross_sections()
            a, b = s.ab()
            k2 = 2 * math.pi / abs(complex(s.k)) ** 2
            te, ts, cond = 0.0, 0.0, None
            fl = coef_floor(s)
            wext = [[float(v) for v in c] for c in o["ext_mp"]]
            wsca = [[float(v) for v in c] for c in o["sca_mp"]]
            tols = [[0.0] * N, [0.0] * N]
            tols_s = [[0.0] * N, [0.0] * N]
            lossless = all(complex(*case["eps"][p][l][i]).imag == 0 for l in range(L))
            for attempt in (0, 1):
                bad = None
                for m, co in enumerate((a, b)):
                    for n in range(N):
                        f = k2 * (2 * n + 3)
                        c = (COND * cond[m][n] if cond else 0.0) + fl[n] + (coef_tol(co[n], n + 1) if n > 20 else 0.0)
                        tols[m][n] = f * loose * (REL * abs(co[n].real) + 1e-13 * abs(co[n]) + c)
                        tols_s[m][n] = f * loose * 2 * (REL * abs(co[n]) ** 2 + (abs(co[n]) + c) * c + 1e-300)
                        if not (abs(float(ext[m, n, p, i]) - wext[m][n]) <= tols[m][n]
                                and abs(float(sca[m, n, p, i]) - wsca[m][n]) <= tols_s[m][n]):
                            bad = (m, n)
                if bad is None or attempt:
                    break
                cond = cond_ab(case, p, i, N)
            tag = "_ill_conditioned" if cond else ""
            w = max(((abs(float(ext[m, n, p, i]) - wext[m][n]) / tols[m][n], m, n) for m in (0, 1) for n in range(N)),
                    key=lambda v: v[0] if v[0] == v[0] else 9e99)
            mon.le("ext_multipole_exact" + tag, w[0], 1, f"{'ab'[w[1]]}_{w[2] + 1} p{p} k{i}")
            w = max(((abs(float(sca[m, n, p, i]) - wsca[m][n]) / tols_s[m][n], m, n) for m in (0, 1) for n in range(N)),
                    key=lambda v: v[0] if v[0] == v[0] else 9e99)
            mon.le("sca_multipole_exact" + tag, w[0], 1, f"{'ab'[w[1]]}_{w[2] + 1} p{p} k{i}")
            te, ts = sum(map(sum, tols)), sum(map(sum, tols_s))
            E, S, A = float(R["cs_ext"][p, i]), float(R["cs_sca"][p, i]), float(R["cs_abs"][p, i])
            we, ws = float(o["ext"]), float(o["sca"])
            mon.hit(we / float(o["geo"]) > 1e-12)
            mon.event("spectra_points")
            mon.le("ext_exact" + tag, abs(E - we), te + 1e-12 * abs(we), f"{E} vs {we}")
            mon.le("sca_exact" + tag, abs(S - ws), ts + 1e-12 * abs(ws), f"{S} vs {ws}")
            mon.le("abs_exact" + tag, abs(A - (we - ws)), te + ts + 1e-12 * abs(we), f"{A} vs {we - ws}")
            mon.ok("ext_nonnegative", E >= -te, f"{E}")
            mon.ok("abs_nonnegative", A >= -(te + ts + 1e-12 * E), f"{A} of {E}")
            if lossless:
                mon.le("lossless_no_absorption", abs(A), te + ts + 1e-12 * E, f"abs {A} of ext {E}")
                mon.event("lossless_points")
