"""C20: malformed or contradictory input is refused; valid input of every documented form is accepted."""
import itertools
import math
import os
import random
import tempfile
import warnings

from miemon import obs
from miemon.oracle import Sphere

PROPERTY = "C20"
RULE = (
    "functional: valid configuration (1..4 particles, 1..5 layers, 1..4 wavelengths, any documented layout and container, layer or "
    "legacy form, every backend) evaluated, compared with exact cross sections, then malformed in one or two ways (radii order, layer, "
    "particle and spectral counts, missing or contradictory arguments, unknown options, unsupported layer counts), which must raise, then "
    "evaluated again unchanged; construct: all 128 combinations of presence of the seven geometry and material arguments of Particle; particle: "
    "malformed values at construction or call; material, special, bridge: invalid names, files, kinds, orders, structures; non-trivial "
    "when at least one malformed input was tried and its valid twin accepted"
)
ASSUMPTIONS = [
    "an error is any Python exception; malformed radii and permittivities of a Particle may be refused at construction or at the first evaluation",
    "multilayer arguments take precedence over legacy ones in the functional interface, as documented",
    "accepted forms agree with exact cross sections to 5e-5 (legacy backends 4e-3; lossy layers, size parameter below 4; lists and numbers are single precision)",
]
TECHNIQUE = "runtime monitoring: systematic fault injection into the arguments with a three-way oracle (raises / same answer afterwards / exact reference for accepted input)"

FUNC = (
    "radii_swapped", "radii_equal", "radii_nan", "radii_3d", "eps_1d", "eps_2d", "eps_3d_layers", "eps_3d_spectrum", "eps_3d_particles",
    "eps_4d", "env_length", "env_2d", "k0_2d", "only_r", "only_eps", "nothing", "legacy_only_r_c", "legacy_only_eps_c", "legacy_no_eps_s",
    "legacy_no_r_s", "legacy_shell_only", "legacy_inverted", "legacy_count", "legacy_spectrum", "half_layers_half_legacy", "backend", "backend_layers",
    "internal", "order_zero", "order_negative", "probe_2d", "probe_1d", "unknown_argument",
)
OBSNAMES = ("coef", "cs", "far", "near")
PART = (
    "mat_count", "radii_2d", "radii_empty", "radii_order", "eps_count", "eps_spectrum", "legacy_inverted", "legacy_equal", "legacy_vector",
    "bad_material", "bad_env", "probe_4", "probe_2", "backend", "backend_layers", "k0_2d", "unknown_argument", "internal",
)


def generate(rng, tier):
    q = tier == "quick"
    cases = []
    for what in FUNC:
        often = what in ("radii_swapped", "radii_equal", "radii_nan", "eps_3d_particles", "eps_3d_spectrum", "eps_3d_layers", "env_length")
        for j in range((14 if q else 120) * (3 if often else 1)):
            L = rng.choice([1, 2, 2, 3, 4, 5])
            if what in ("radii_swapped", "radii_equal", "radii_nan"):
                L = max(L, rng.choice([2, 3, 4]))
            if what.startswith("legacy") or what == "half_layers_half_legacy":
                L = 2 if what in ("legacy_inverted", "legacy_no_eps_s", "legacy_no_r_s", "legacy_shell_only") else rng.choice([1, 2])
            if what == "backend_layers":
                L = rng.choice([3, 4, 5, 7])
            np_ = rng.choice([1, 1, 2, 3, 4])
            nk = rng.choice([1, 2, 3, 4])
            if what == "k0_2d":
                nk = max(nk, 2)
            c = config(rng, np_, nk, L)
            c.update(kind="functional", what=what, obs=rng.choice(OBSNAMES) if what not in ("internal", "probe_2d", "probe_1d") else ("coef" if what == "internal" else "near"),
                     backend=rng.choice([None, "pena", "torch", "scipy"]) if L <= 2 else None, form=rng.randrange(1 << 30), seed=rng.randrange(1 << 30))
            if what in ("order_zero", "order_negative", "internal"):
                c["backend"] = rng.choice([None, "pena", "PENA"])
            if c["obs"] == "near" and c["backend"] in ("torch", "scipy"):
                c["backend"] = None
            cases.append(c)
    for j in range(2 if q else 12):
        cases.append(dict(kind="construct", seed=rng.randrange(1 << 30), r=sorted(rng.uniform(20, 60) * (i + 1) for i in range(2)), env=rng.choice([1.0, 1.33])))
    for what in PART:
        for j in range(7 if q else 60):
            L = rng.choice([1, 2, 3, 4])
            if what in ("radii_order",):
                L = max(2, L)
            if what == "backend_layers":
                L = rng.choice([3, 4])
            c = config(rng, 1, rng.choice([2, 3]), L)
            c.update(kind="particle", what=what, seed=rng.randrange(1 << 30), mats=rng.random() < 0.5, form=rng.randrange(1 << 30))
            cases.append(c)
    for j in range(10 if q else 60):
        cases.append(dict(kind="material", seed=rng.randrange(1 << 30)))
        cases.append(dict(kind="special", seed=rng.randrange(1 << 30)))
    for j in range(6 if q else 30):
        cases.append(dict(kind="bridge", seed=rng.randrange(1 << 30)))
    return cases


def config(rng, np_, nk, L):
    k0 = [2 * math.pi / rng.uniform(400, 1200) for _ in range(nk)]
    env = rng.choice([1.0, 1.33, 2.25])
    r = []
    for p in range(np_):
        R = rng.uniform(0.1, 3.5) / max(k0) / env**0.5
        f = sorted(rng.uniform(0.2, 0.97) for _ in range(L - 1))
        row = [round(R * v, 3) for v in f + [1.0]]
        for i in range(1, L):
            row[i] = max(row[i], row[i - 1] * 1.02)
        r.append(row)
    eps = [[[rng.uniform(1.5, 6), rng.uniform(0.1, 2)] for _ in range(L)] for _ in range(np_)]
    return dict(np=np_, nk=nk, L=L, k0=k0, env=env, r=r, eps=eps)


def run(case, mon):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["run_" + case["kind"]](case, mon)


class Said:
    """Discard what is printed."""


def refused(mon, tag, f):
    """True when f raises an ordinary exception."""
    try:
        out = f()
    except Exception as e:
        mon.event("refused_" + type(e).__name__)
        mon.ok("refused", True)
        return True
    mon.ok("refused", False, lambda: f"{tag}: accepted and returned {summary(out)}")
    return False


def summary(out):
    if isinstance(out, dict):
        for k in ("a_n", "cs_ext", "S1", "E_t"):
            if k in out:
                return f"{k} shape {tuple(out[k].shape)}: {out[k].reshape(-1)[:3].tolist()}"
    return repr(out)[:300]


# ------------------------------------------------------------------ functional interface
def rnd(case, key="form"):
    return random.Random(case[key])


def contain(rng, values, dtype, allow_list=True):
    """Documented containers of the same numbers."""
    import numpy as np
    import torch

    t = torch.tensor(values, dtype=dtype)
    how = rng.choice(["t", "t", "np", "list"] if allow_list else ["t", "np"])
    if how == "np":
        return t.numpy()
    if how == "list":
        return t.tolist()
    return t


def valid(case):
    """A documented form of the configuration, and the configuration it describes."""
    import torch

    rng = rnd(case)
    np_, nk, L = case["np"], case["nk"], case["L"]
    r = [list(v) for v in case["r"]]
    eps = [[[complex(*e)] * nk for e in row] for row in case["eps"]]  # (Np, L, Nk)
    legacy = L <= 2 and (case["what"].startswith("legacy") or rng.random() < 0.25)
    layout = rng.choice(["const", "const_p", "spectral", "full", "full_one", "full_const"])
    if layout == "const" or layout == "spectral" or layout == "full_one":
        eps = [eps[0]] * np_
    disp = layout in ("spectral", "full", "full_one")
    if disp:
        eps = [[[e * (1 + 0.1 * i) for i, e in enumerate(col)] for col in row] for row in eps]
    kw = dict(k0=contain(rng, case["k0"], torch.float64))
    if nk == 1 and rng.random() < 0.4:
        kw["k0"] = rng.choice([case["k0"][0], torch.tensor(case["k0"][0], dtype=torch.float64)])
    elif rng.random() < 0.15:
        kw["k0"] = torch.tensor([case["k0"]], dtype=torch.float64)
    if case["env"] != 1.0 or rng.random() < 0.5:
        e = case["env"]
        kw["eps_env"] = rng.choice([e, complex(e), torch.tensor(e, dtype=torch.float64), torch.tensor([e], dtype=torch.float64), torch.full((nk,), e, dtype=torch.complex128), [e] * nk])
    T = torch.tensor(eps, dtype=torch.complex128)
    R = torch.tensor(r, dtype=torch.float64)
    if not legacy:
        ambiguous = nk == L == np_ and np_ > 1
        if layout == "spectral" and (ambiguous or (np_ == L == nk)):
            layout = "full"
        if layout == "const":
            E = T[0, :, 0]
        elif layout == "const_p":
            E = T[:, :, 0]
        elif layout == "spectral":
            E = T[0]
            if E.shape == (np_, L) and nk > 1:
                E = T
        elif layout == "full_one":
            E = T[:1]
        elif layout == "full_const":
            E = T[:, :, :1]
        else:
            E = T
        kw["r_layers"] = contain(rng, (R[0] if np_ == 1 and rng.random() < 0.5 else R).tolist(), torch.float64)
        kw["eps_layers"] = contain(rng, E.tolist(), torch.complex128)
    else:
        # legacy: equal number of particles in radii and permittivities
        if np_ == 1:
            form = rng.choice(["scalar", "spectral"]) if nk == 1 or layout in ("spectral", "full", "full_one") else "scalar"
        else:
            form = "full" if disp else rng.choice(["per_particle", "full"])
        if form == "scalar" and disp and nk > 1:
            form = "spectral"
        pick = {"scalar": lambda l: T[0, l, 0], "spectral": lambda l: T[0, l], "per_particle": lambda l: T[:, l, 0], "full": lambda l: T[:, l]}[form]
        kw["r_c"] = R[0, 0] if np_ == 1 and rng.random() < 0.5 else R[:, 0]
        kw["eps_c"] = pick(0)
        if L == 2:
            kw["r_s"] = R[0, 1] if kw["r_c"].ndim == 0 else R[:, 1]
            kw["eps_s"] = pick(1)
        if form == "scalar":
            for q in ("r_c", "r_s", "eps_c", "eps_s"):
                if q in kw and rng.random() < 0.5:
                    kw[q] = kw[q].reshape(-1)[0].item()
    if case["backend"]:
        kw["backend"] = case["backend"] if rng.random() < 0.7 else case["backend"].upper()
    if case["obs"] in ("far", "near", "coef") and rng.random() < 0.5:
        kw["n_max"] = rng.choice([1, 3, 5])
    if rng.random() < 0.2:
        kw["precision"] = "double"
    if rng.random() < 0.2:
        kw["which_jn"] = rng.choice(["recurrence", "ratios"])
    return kw, eps


def evaluate(case, kw, theta=None, xyz=None):
    import torch

    theta = torch.tensor([0.3, 1.2, 3.0], dtype=torch.float64)
    if xyz is None:
        xyz = torch.tensor([[10.0, 5.0, 7.0], [-300.0, 400.0, 200.0]], dtype=torch.float64)
    kw = dict(kw)
    th = kw.pop("theta", theta)
    rp = kw.pop("r_probe", xyz)
    return obs.call(case["obs"], kw, theta=th, xyz=rp, raw=True)


def full(case, kw):
    """Core arrays in the full layer layout, double precision tensors."""
    import torch

    T = torch.tensor([[[complex(*e)] * case["nk"] for e in row] for row in case["eps"]], dtype=torch.complex128)
    out = {k: v for k, v in kw.items() if k not in ("r_layers", "eps_layers", "r_c", "r_s", "eps_c", "eps_s")}
    out["r_layers"] = torch.tensor(case["r"], dtype=torch.float64)
    out["eps_layers"] = T
    return out


def malform(case, kw, rng):
    """Malformed arguments (None when the way does not apply)."""
    import torch

    what, np_, nk, L = case["what"], case["np"], case["nk"], case["L"]
    f = full(case, kw)
    R, T = f["r_layers"], f["eps_layers"]
    c128 = torch.complex128
    one = lambda *s: torch.full(s, 2.0 + 0.3j, dtype=c128)
    p = rng.randrange(np_)
    l = rng.randrange(max(1, L - 1))
    if what == "radii_swapped":
        R[p, [l, l + 1]] = R[p, [l + 1, l]]
    elif what == "radii_equal":
        R[p, l + 1] = R[p, l]
    elif what == "radii_nan":
        R[p, rng.randrange(L)] = float("nan")
    elif what == "radii_3d":
        f["r_layers"] = torch.stack([R, R * 1.5], -1) if rng.random() < 0.5 else R[None, None]
    elif what == "eps_1d":
        n = rng.choice([v for v in (1, L - 1, L + 1, L + 2, nk, 2 * L, np_) if v >= 1 and v != L])
        f["eps_layers"] = one(n)
    elif what == "eps_2d":
        for _ in range(100):
            s = (rng.randint(1, 6), rng.randint(1, 6)) if rng.random() < 0.7 else (nk, L)
            if s != (np_, L) and s != (L, nk):
                break
        f["eps_layers"] = one(*s)
    elif what == "eps_3d_layers":
        f["eps_layers"] = one(rng.choice([1, np_]), rng.choice([v for v in (L - 1, L + 1, 2 * L, nk, 1) if v >= 1 and v != L]), rng.choice([1, nk]))
    elif what == "eps_3d_spectrum":
        n = rng.choice([v for v in (nk - 1, nk + 1, 2 * nk, L) if v >= 2 and v != nk])if nk > 1 or L > 1 else 2
        f["eps_layers"] = one(rng.choice([1, np_]), L, n)
    elif what == "eps_3d_particles":
        n = rng.choice([v for v in (2, np_ - 1, np_ - 2, np_ + 1, np_ + 2, 2 * np_) if v >= 2 and v != np_])
        f["eps_layers"] = one(n, L, rng.choice([1, nk]))
    elif what == "eps_4d":
        f["eps_layers"] = T[None] if rng.random() < 0.5 else T[..., None]
    elif what == "env_length":
        n = rng.choice([v for v in (nk - 1, nk + 1, 2 * nk, nk + 3) if v >= 2 and v != nk])
        f["eps_env"] = torch.full((n,), case["env"], dtype=torch.float64)
    elif what == "env_2d":
        f["eps_env"] = torch.full((max(2, np_), max(2, nk)), case["env"], dtype=torch.float64)
    elif what == "k0_2d":
        k = torch.tensor(case["k0"], dtype=torch.float64)
        f["k0"] = torch.stack([k] * rng.choice([2, 3, nk]), rng.choice([0, 1]))
    elif what == "only_r":
        f.pop("eps_layers")
        if rng.random() < 0.3:
            f["eps_c"] = 2.0 + 0.1j
        elif rng.random() < 0.5:  # a complete legacy particle does not stand in for the missing half
            f.update(r_c=R[:, 0], eps_c=T[:, 0])
    elif what == "only_eps":
        f.pop("r_layers")
        if rng.random() < 0.3:
            f["r_c"] = 50.0
        elif rng.random() < 0.5:
            f.update(r_c=R[:, 0], eps_c=T[:, 0])
    elif what == "nothing":
        f.pop("r_layers"), f.pop("eps_layers")
    elif what == "half_layers_half_legacy":
        if rng.random() < 0.5:
            f.pop("r_layers")
            f["r_c"] = R[:, 0]
            if L == 2:
                f["r_s"] = R[:, 1]
        else:
            f.pop("eps_layers")
            f["eps_c"] = T[:, 0]
            if L == 2:
                f["eps_s"] = T[:, 1]
    elif what.startswith("legacy"):
        f.pop("r_layers"), f.pop("eps_layers")
        g = dict(r_c=R[:, 0], eps_c=T[:, 0])
        if L == 2:
            g.update(r_s=R[:, 1], eps_s=T[:, 1])
        if np_ == 1 and rng.random() < 0.5:
            g = {k: v.reshape(-1)[0] for k, v in g.items()}
        if what == "legacy_only_r_c":
            g.pop("eps_c")
        elif what == "legacy_only_eps_c":
            g.pop("r_c")
        elif what == "legacy_no_eps_s":
            g.pop("eps_s")
        elif what == "legacy_no_r_s":
            g.pop("r_s")
        elif what == "legacy_shell_only":
            g.pop("r_c"), g.pop("eps_c")
        elif what == "legacy_inverted":
            if np_ > 1 and rng.random() < 0.5:
                a, b = g["r_c"].clone(), g["r_s"].clone()
                a[p], b[p] = g["r_s"][p], g["r_c"][p]
                g["r_c"], g["r_s"] = a, b
            else:
                g["r_c"], g["r_s"] = g["r_s"], g["r_c"]
        elif what == "legacy_count":
            n = np_ + rng.choice([1, 2])
            g = dict(r_c=R[:, 0], eps_c=one(np_, nk), r_s=torch.full((n,), 1e3, dtype=torch.float64), eps_s=one(np_, nk))
        elif what == "legacy_spectrum":
            n = nk + rng.choice([1, 2])
            g = dict(r_c=R[:, 0], eps_c=one(np_, n))
            if rng.random() < 0.5:
                g.update(r_s=R[:, 0] * 1.3, eps_s=one(np_, rng.choice([n, nk])))
        f.update(g)
    elif what == "backend":
        f["backend"] = rng.choice(["", "penna", "numpy", "mie", "torch2", "sci py", "pena2009", "auto", "none", "jax", "scip", "recurrence"])
    elif what == "backend_layers":
        f["backend"] = rng.choice(["torch", "scipy", "Torch", "SCIPY"])
    elif what == "internal":
        f["return_internal"] = True
        f["backend"] = rng.choice(["pena", "PENA"])
    elif what == "order_zero":
        f["n_max"] = rng.choice([0, torch.tensor(0)])
    elif what == "order_negative":
        f["n_max"] = rng.choice([-1, -3, torch.tensor(-2)])
    elif what == "probe_2d":
        f["r_probe"] = torch.ones((4, 2), dtype=torch.float64) * 300
    elif what == "probe_1d":
        f["r_probe"] = torch.ones((rng.choice([1, 5]), 1), dtype=torch.float64) * 300
    elif what == "unknown_argument":
        f[rng.choice(["nmax", "eps_core", "n_env", "r_core", "mat_env", "eps"])] = 2.0
    return f


def snapshot(kw):
    import copy

    return {k: copy.deepcopy(v) for k, v in kw.items()}


def same(a, b):
    import numpy as np
    import torch

    if isinstance(a, torch.Tensor):
        return isinstance(b, torch.Tensor) and a.shape == b.shape and a.dtype == b.dtype and bool(((a == b) | ((a != a) & (b != b))).all())
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and np.array_equal(a, b)
    return a == b


def run_functional(case, mon):
    import torch

    kw, eps = valid(case)
    before = snapshot(kw)
    try:
        first = evaluate(case, kw)
    except Exception as e:
        desc = {k: (tuple(v.shape) if hasattr(v, "shape") else v) for k, v in kw.items()}
        mon.ok("accepted", False, f"{case['obs']} of valid input refused: {type(e).__name__}: {e}; {desc}")
        return
    mon.ok("accepted", True)
    mon.ok("input_unmodified", all(same(kw[k], before[k]) for k in before), "a valid call modified its input")
    if case["obs"] == "cs":
        reference(case, kw, eps, first, mon)
    rng = random.Random(case["seed"])
    bad = malform(case, kw, rng)
    keep = snapshot(bad)
    desc = lambda: {k: (tuple(v.shape) if hasattr(v, "shape") and v.ndim else v) for k, v in bad.items()}
    refused(mon, f"{case['what']} {case['obs']} {desc()}", lambda: evaluate(case, bad))
    mon.ok("refused_input_unmodified", all(same(bad[k], keep[k]) for k in keep), "a refused call modified its input")
    again = evaluate(case, kw)
    ok = all(same(first[k], again[k]) for k in first if isinstance(first[k], torch.Tensor))
    mon.ok("unchanged_after_refusal", ok, "the valid call gives another answer after a refused one")
    mon.event(case["what"])
    mon.hit()


def reference(case, kw, eps, res, mon):
    np_, nk = case["np"], case["nk"]
    cs = res["cs_ext"]
    if not mon.ok("shape", tuple(cs.shape) == (np_, nk), lambda: f"{tuple(cs.shape)} {(np_, nk)}"):
        return
    for p in range(np_):
        for i in range(nk):
            x = case["k0"][i] * case["env"] ** 0.5 * case["r"][p][-1]
            s = Sphere(case["k0"][i], case["r"][p], [eps[p][l][i] for l in range(case["L"])], case["env"], int(x + 4.05 * x ** (1 / 3) + 4))
            want = float(s.cross_sections()["ext"])
            tol = 5e-5 if kw.get("backend", "pena").lower() == "pena" else 4e-3
            mon.le("accepted_value", abs(float(cs[p, i]) - want) / want, tol, lambda: f"p={p} k={i} {float(cs[p, i])} exact {want}")


# ------------------------------------------------------------------ particles
def run_construct(case, mon):
    import torch
    import pymiediff as pmd

    rng = random.Random(case["seed"])
    r1, r2 = case["r"]
    two = rng.random() < 0.7
    mk = lambda: rng.choice([2.0, 1.5 + 0.2j, pmd.materials.MatConstant(3.0 + 0.1j)])
    names = ("r_layers", "eps_layers", "mat_layers", "r_core", "mat_core", "r_shell", "mat_shell")
    k0 = torch.tensor([2 * math.pi / 600], dtype=torch.float64)
    for bits in itertools.product((0, 1), repeat=7):
        n = [r1, r2] if two else [r1]
        make = dict(
            r_layers=rng.choice([n, torch.tensor(n)]), eps_layers=torch.tensor([3.0 + 0.2j, 2.0 + 0.1j][: len(n)]), mat_layers=[mk() for _ in n],
            r_core=rng.choice([r1, torch.tensor(r1)]), mat_core=mk(), r_shell=rng.choice([r2, torch.tensor(r2)]), mat_shell=mk(),
        )
        kw = {q: make[q] for q, b in zip(names, bits) if b}
        if rng.random() < 0.5:
            kw["mat_env"] = case["env"]
        good = bits in ((1, 1, 0, 0, 0, 0, 0), (1, 0, 1, 0, 0, 0, 0), (0, 0, 0, 1, 1, 0, 0), (0, 0, 0, 1, 1, 1, 1))
        if good:
            try:
                p = pmd.Particle(**kw)
                v = float(p.get_cross_sections(k0)["cs_ext"])
            except Exception as e:
                mon.ok("accepted", False, f"Particle with {sorted(kw)} refused: {type(e).__name__}: {e}")
                continue
            mon.ok("accepted", True)
            mon.ok("accepted_finite", math.isfinite(v) and v > 0, lambda: str(v))
            mon.event("combination_accepted")
        else:
            refused(mon, f"Particle({sorted(kw)})", lambda: pmd.Particle(**kw))
            mon.event("combination_refused")
    mon.hit()


def run_particle(case, mon):
    import torch
    import pymiediff as pmd

    rng = random.Random(case["seed"])
    what, L = case["what"], case["L"]
    k0 = torch.tensor(case["k0"], dtype=torch.float64)
    r = case["r"][0]
    eps = [complex(*e) for e in case["eps"][0]]
    n = [e**0.5 for e in eps]
    env = case["env"] ** 0.5
    good = dict(r_layers=list(r), mat_env=env)
    if case["mats"]:
        good["mat_layers"] = list(n)
    else:
        good["eps_layers"] = torch.tensor(eps, dtype=torch.complex128)
    part = pmd.Particle(**good)
    theta = torch.tensor([0.2, 1.0])
    xyz = torch.tensor([[1.2 * r[-1], 0.3 * r[-1], 2 * r[-1]], [-r[-1], -2 * r[-1], r[-1]]])

    def everything(p, k=k0, **kw):
        return [p.get_mie_coefficients(k, **kw)["a_n"], p.get_cross_sections(k, **kw)["cs_ext"], p.get_angular_scattering(k, theta, **kw)["S1"], p.get_nearfields(k, xyz, **kw)["E_t"]]

    def one(p, k=k0, **kw):
        j = rng.randrange(4)
        return [lambda: p.get_mie_coefficients(k, **kw), lambda: p.get_cross_sections(k, **kw), lambda: p.get_angular_scattering(k, theta, **kw), lambda: p.get_nearfields(k, xyz, **kw)][j]()

    def build(**kw):
        return one(pmd.Particle(**kw))

    first = everything(part)
    text = repr(part)
    ext = []
    for i in range(len(case["k0"])):
        x = case["k0"][i] * env * r[-1]
        ext.append(float(Sphere(case["k0"][i], r, eps, case["env"], int(x + 4.05 * x ** (1 / 3) + 4)).cross_sections()["ext"]))
    mon.le("accepted_value", max(abs(float(a) - b) / b for a, b in zip(first[1].reshape(-1), ext)), 1e-3, lambda: f"{first[1].tolist()} {ext}")
    tag = f"Particle {what}"
    if what == "mat_count":
        m = list(n) + [2.0] if rng.random() < 0.5 or L == 1 else n[:-1]
        refused(mon, tag, lambda: pmd.Particle(r_layers=r, mat_layers=m))
        refused(mon, tag, lambda: pmd.Particle(r_layers=r, mat_layers=[]))
    elif what == "radii_2d":
        refused(mon, tag, lambda: pmd.Particle(r_layers=[r], mat_layers=n))
        refused(mon, tag, lambda: pmd.Particle(r_layers=torch.tensor([r, [2 * v for v in r]]), eps_layers=torch.tensor([eps, eps])))
        refused(mon, tag, lambda: pmd.Particle(r_layers=r[-1], mat_layers=n[:1]))
    elif what == "radii_empty":
        refused(mon, tag, lambda: pmd.Particle(r_layers=[], mat_layers=[]))
        refused(mon, tag, lambda: pmd.Particle(r_layers=torch.tensor([]), eps_layers=torch.tensor([])))
    elif what == "radii_order":
        l = rng.randrange(L - 1)
        bad = list(r)
        bad[l], bad[l + 1] = rng.choice([(r[l + 1], r[l]), (r[l], r[l]), (r[l + 1], r[l + 1]), (float("nan"), r[l])])
        refused(mon, tag, lambda: build(**dict(good, r_layers=bad)))
    elif what == "eps_count":
        m = eps + [2.0] if rng.random() < 0.5 or L == 1 else eps[:-1]
        refused(mon, tag, lambda: build(r_layers=r, eps_layers=torch.tensor(m)))
    elif what == "eps_spectrum":
        m = len(case["k0"]) + rng.choice([1, 2, -1])
        m = m if m > 1 and m != L else len(case["k0"]) + 5
        refused(mon, tag, lambda: build(r_layers=r, eps_layers=torch.tensor(eps)[:, None].expand(L, m)))
    elif what == "legacy_inverted":
        refused(mon, tag, lambda: pmd.Particle(r_core=r[-1] * 1.5, mat_core=2.0, r_shell=r[-1], mat_shell=3.0))
        refused(mon, tag, lambda: pmd.Particle(r_core=torch.tensor(r[-1] * 1.5), mat_core=2.0, r_shell=r[-1], mat_shell=3.0))
    elif what == "legacy_equal":
        refused(mon, tag, lambda: pmd.Particle(r_core=r[-1], mat_core=2.0, r_shell=r[-1], mat_shell=3.0))
    elif what == "legacy_vector":
        refused(mon, tag, lambda: pmd.Particle(r_core=torch.tensor([r[0], 2 * r[0]]), mat_core=2.0))
        refused(mon, tag, lambda: pmd.Particle(r_core=torch.tensor([r[0], 2 * r[0]]), mat_core=2.0, r_shell=torch.tensor([3 * r[0], 4 * r[0]]), mat_shell=3.0))
        refused(mon, tag, lambda: pmd.Particle(r_core=r[0], mat_core=2.0, r_shell=torch.tensor([3 * r[0], 4 * r[0]]), mat_shell=3.0))
    elif what == "bad_material":
        b = rng.choice(["gold", None, [1.5], {"n": 2}, object()])
        m = list(n)
        m[rng.randrange(L)] = b
        refused(mon, tag + repr(b), lambda: pmd.Particle(r_layers=r, mat_layers=m))
        refused(mon, tag + repr(b), lambda: pmd.Particle(r_core=r[0], mat_core="Si" if b is None else b))
    elif what == "bad_env":
        refused(mon, tag, lambda: pmd.Particle(r_layers=r, mat_layers=n, mat_env=rng.choice(["water", None, [1.33]])))
    elif what in ("probe_4", "probe_2"):
        m = 4 if what == "probe_4" else rng.choice([1, 2])
        refused(mon, tag, lambda: part.get_nearfields(k0, torch.ones((3, m)) * 2 * r[-1]))
    elif what == "backend":
        refused(mon, tag, lambda: one(part, backend=rng.choice(["", "mie", "torchh", "numpy"])))
    elif what == "backend_layers":
        refused(mon, tag, lambda: one(part, backend=rng.choice(["torch", "scipy", "TORCH"])))
    elif what == "k0_2d":
        refused(mon, tag, lambda: one(part, k=torch.stack([k0, k0])))
    elif what == "unknown_argument":
        refused(mon, tag, lambda: one(part, **{rng.choice(["nmax", "wavelength", "order"]): 3}))
        refused(mon, tag, lambda: pmd.Particle(**dict(good, **{rng.choice(["r", "n_env", "eps_env"]): 1.0})))
    elif what == "internal":
        refused(mon, tag, lambda: part.get_mie_coefficients(k0, return_internal=True))
    again = everything(part)
    mon.ok("unchanged_after_refusal", all(same(a, b) for a, b in zip(first, again)) and repr(part) == text, f"{what}: another answer after a refused call")
    mon.event("particle_" + what)
    mon.hit()


# ------------------------------------------------------------------ materials
YAML = """DATA:
  - type: {type}
    {body}
"""


def run_material(case, mon):
    import torch
    import pymiediff as pmd

    rng = random.Random(case["seed"])
    M = pmd.materials.MatDatabase
    known = ["al2o3o", "gap", "sio2", "ag", "zro2", "si3n4", "al", "si", "tio2", "asi", "inas", "inp", "ge", "al2o3e", "gan", "gaas", "au"]
    wl = torch.tensor([500.0, 700.0])
    for name in rng.sample(known, 4):
        name = rng.choice([name, name.upper(), name.capitalize()])
        try:
            m = M(name)
            e = m.get_epsilon(wl)
            mon.ok("accepted", tuple(e.shape) == (2,) and bool(torch.isfinite(torch.view_as_real(e)).all()), lambda: f"{name}: {e}")
        except Exception as x:
            mon.ok("accepted", False, f"{name}: {type(x).__name__}: {x}")
        w = list(name)
        i = rng.randrange(len(w) + 1)
        bad = rng.choice([name + rng.choice(" 2x_"), " " + name, "".join(w[:i] + [rng.choice("qxz-")] + w[i:]), name + name, "1" + name])
        if bad.lower() not in known:
            refused(mon, f"MatDatabase({bad!r})", lambda: M(bad))
    for bad in ("air", "vacuum", "unobtainium", "Si.yml", "none", "?"):
        refused(mon, f"MatDatabase({bad!r})", lambda: M(bad))
    d = tempfile.mkdtemp(prefix="miemon")
    try:
        path = os.path.join(d, "m.yml")
        tab = "data: |\n        0.4 1.5 0.1\n        0.6 1.6 0.2\n        0.9 1.7 0.1"
        coeff = "wavelength_range: 0.3 1.2\n    coefficients: 0 1.1 0.1"
        for typ, body, good in (
            ("tabulated nk", tab, True), ("formula 1", coeff, True), ("splines nk", tab, False), ("Formula1", coeff, False), ("nk", tab, False),
            ("formula 2", coeff, False), (f"formula {rng.randint(3, 9)}", coeff, False),
        ):
            with open(path, "w") as f:
                f.write(YAML.format(type=typ, body=body))
            f = lambda: M("x", yaml_file=path).get_epsilon(wl)
            if good:
                try:
                    e = f()
                    mon.ok("accepted", bool(torch.isfinite(torch.view_as_real(e)).all()))
                except Exception as x:
                    mon.ok("accepted", False, f"{typ}: {type(x).__name__}: {x}")
            else:
                refused(mon, f"yaml of type {typ!r}", f)
        refused(mon, "missing file", lambda: M("x", yaml_file=os.path.join(d, "none.yml")))
        with open(path, "w") as f:
            f.write("REFERENCES: none\n")
        refused(mon, "yaml without data", lambda: M("x", yaml_file=path))
    finally:
        for n in os.listdir(d):
            os.unlink(os.path.join(d, n))
        os.rmdir(d)
    from pymiediff.helper import interp1d

    x = torch.linspace(0, 1, 5)
    refused(mon, "interp1d length", lambda: interp1d(x, x, torch.ones(4)))
    refused(mon, "interp1d complex abscissa", lambda: interp1d(x, x + 0j, torch.ones(5)))
    mon.hit()


# ------------------------------------------------------------------ special functions
def run_special(case, mon):
    import torch
    import pymiediff as pmd

    rng = random.Random(case["seed"])
    S = pmd.special
    z = torch.tensor([[[rng.uniform(0.3, 5) + 0.1j]]], dtype=torch.complex128)
    neg = -rng.randint(1, 4)
    for name in ("pena_D1_n", "pena_D3_n", "sph_jn_torch", "sph_jn_torch_via_rec", "sph_yn_torch"):
        f = getattr(S, name)
        n = rng.randint(1, 5)
        try:
            v = f(n, z)
            mon.ok("accepted", bool(torch.isfinite(torch.view_as_real(v)).all()), name)
        except Exception as x:
            mon.ok("accepted", False, f"{name}({n}): {type(x).__name__}: {x}")
        refused(mon, f"{name}({neg})", lambda: f(neg, z))
    mu = torch.tensor([0.3, -0.2], dtype=torch.float64)
    S.pi_tau(3, mu)
    refused(mon, "pi_tau(0)", lambda: S.pi_tau(0, mu))
    refused(mon, "pi_tau(-2)", lambda: S.pi_tau(neg, mu))
    a = [torch.full((1, 1, 1, 2, 1), v, dtype=torch.float64) for v in (0.01, 80.0, 1.0, 0.5)]
    k0, r, th, ph = a
    med = torch.full((1, 1, 1, 1, 1), 1.5 + 0j, dtype=torch.complex128)
    for k in (1, 3):
        S.vsh_pena(2, k0, med, r, th, ph, kind=k)
    for k in (1, 2, 3):
        S.vsh(2, k0, med, r, th, ph, kind=k)
    for k in (0, 2, 4, -1, "1", None):
        refused(mon, f"vsh_pena kind {k!r}", lambda: S.vsh_pena(2, k0, med, r, th, ph, kind=k))
    for k in (0, 4, -1, "3", None):
        refused(mon, f"vsh kind {k!r}", lambda: S.vsh(2, k0, med, r, th, ph, kind=k))
    refused(mon, "several orders", lambda: S.sph_jn(torch.tensor([1, 2, 3]), z))
    mon.hit()


# ------------------------------------------------------------------ torchgdm bridge
def run_bridge(case, mon):
    import torch
    import pymiediff as pmd

    T = pmd.helper.tg
    rng = random.Random(case["seed"])
    R = rng.uniform(30, 80)
    wl = torch.tensor([500.0, 700.0])
    p = pmd.Particle(r_layers=[R], mat_layers=[2.0], mat_env=1.33)
    quiet = dict(verbose=False)
    ok = T.StructAutodiffMieEffPola3D(p, wl, **quiet)
    mon.ok("accepted", ok is not None)

    class Disp(pmd.materials.MatConstant):
        def get_epsilon(self, wavelength):
            return (1.5 + 1e-4 * torch.as_tensor(wavelength)) + 0j

    cls = [T.StructAutodiffMieEffPola3D, lambda *a, **k: T.StructAutodiffMieGPM3D(*a, 4, n_src_pw_angles=1, progress_bar=False, **k)]
    for f in cls:
        for bad in (None, "particle", 3.0, dict(r=1)):
            refused(mon, f"bridge of {bad!r}", lambda: f(bad, wl, **quiet))
        q = pmd.Particle(r_layers=[R], mat_layers=[2.0], mat_env=Disp(1.5))
        refused(mon, "dispersive host", lambda: f(q, wl, **quiet))
        refused(mon, "contradictory host", lambda: f(p, wl, n_env=rng.choice([1.0, 1.3, 1.5]), **quiet))
        refused(mon, "position", lambda: f(p, wl, r0=[0.0, 1.0], **quiet))
    refused(mon, "nothing to combine", lambda: T.combine_gpm_structures_autodiff([]))
    many = pmd.Particle(r_layers=[R, 1.2 * R, 1.4 * R], mat_layers=[2.0, 1.5, 3.0])
    refused(mon, "three layers with torch", lambda: T.StructAutodiffMieEffPola3D(many, wl, backend=rng.choice(["torch", "scipy"]), **quiet))
    T.StructAutodiffMieEffPola3D(many, wl, **quiet)
    mon.hit()
