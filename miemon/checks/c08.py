"""C08: the alternative backends agree with the default solver; internal coefficients are right."""
import math
import random

from miemon import gen, obs
from miemon.checks.c04 import max_im, probes
from miemon.checks.c07 import tt
from miemon.util import sphere

PROPERTY = "C08"
RULE = (
    "case = homogeneous or core-shell configuration (batches included) x observable; all three alternative options "
    "(torch/recurrence, torch/ratios, scipy) are executed and compared entry by entry with the default backend at equal "
    "order; internal coefficients are compared with the exact ones; non-trivial when something is scattered"
)
ASSUMPTIONS = [
    "documented stability range of the legacy backends taken as |m x| <= 20, Im(m x) <= 4, orders up to |m x| + 8",
    "agreement to 1e-8 relative to the largest entry of the same order / position, plus 1e-12 of the natural scale",
]
TECHNIQUE = "runtime monitoring: differential oracle between solver backends, reference solution for internal coefficients"
OPT = (("torch", "recurrence"), ("torch", "ratios"), ("scipy", "recurrence"))
INT = dict(c_n=("s_te", "A_te", 0), d_n=("s_tm", "A_tm", 0), f_n=("s_te", "A_te", -1), g_n=("s_tm", "A_tm", -1),
           v_n=("s_te", "B_te", -1), w_n=("s_tm", "B_tm", -1))


def generate(rng, tier):
    n = 160 if tier == "quick" else 2500
    cases = []
    for o in obs.OBS + ("internal",):
        j = 0
        while j < n * 2:
            np_, nk = rng.choice([(1, 1), (1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3)])
            fam = rng.choice(["diel", "high", "lossy", "metal", "enz", "hollow", "match", "mixed", "thin", "zero",
                              "lossless_metal", "gainish", "hostlossy"])
            if fam == "hostlossy" and o == "cs":
                continue
            L = 2 if fam in ("hollow", "thin") else rng.choice([1, 2])
            c = gen.config(rng, fam, np_=np_, nk=nk, L=L, xlo=0.08, xhi=12, dispersive_env=rng.random() < 0.4)
            if gen.max_arg(c) > 20 or max_im(c) > 4:
                continue
            x = gen.xmax(c)
            nmin = min(k * q[0] * abs(complex(*c["env"][i])) ** 0.5 for i, k in enumerate(c["k0"]) for q in c["r"])
            c.update(kind=o, nmax=min(rng.choice([1, 2, 3, 5, 8, 12, 16]), int(x + 4), int(max(2, 14 * min(1.0, nmin ** 0.5)))),
                     seed=rng.randrange(1 << 30), legacy=rng.random() < 0.5)
            if o == "far":
                c["theta"] = [rng.uniform(-4, 7), 0.0, math.pi, rng.uniform(0, 3)]
            if o == "near":
                c["xyz"] = [p for p in probes(rng, rng.choice(c["r"]), 7, far=4.0)]
                c["E0"] = [rng.uniform(-2, 2), rng.uniform(-2, 2)]
            cases.append(c)
            j += 1
    return cases


def arguments(case):
    """The configuration in layer form or in the legacy core/shell form."""
    a = gen.tensors(case)
    if not case["legacy"]:
        return a
    r, e = a.pop("r_layers"), a.pop("eps_layers")
    a.update(r_c=r[:, 0], eps_c=e[:, 0])
    if r.shape[1] == 2:
        a.update(r_s=r[:, 1], eps_s=e[:, 1])
    return a


def run(case, mon):
    import torch
    import pymiediff as pmd

    o = case["kind"]
    args = gen.tensors(case)
    la = arguments(case)
    N = case["nmax"]
    if o == "internal":
        return internal(case, mon, la, N)
    ex = dict(theta=tt(case["theta"]) if o == "far" else None, xyz=tt(case["xyz"]) if o == "near" else None)
    if o == "near":
        ex["E_0"] = complex(*case["E0"])
    ref = obs.call(o, args, n_max=N, **ex)
    if o == "coef":  # orders whose coefficients are not below rounding
        mon.hit(float(ref["a_n"].abs().max() + ref["b_n"].abs().max()) > 1e-12)
    else:
        mon.hit()
    for be, jn in OPT:
        res = obs.call(o, la, n_max=N, backend=be, which_jn=jn, **ex)
        if o == "near" and not pole_free(case):
            # the legacy harmonics divide by sin(theta): different rounding close to the axis
            rel = 1e-5
        else:
            rel = 1e-8
        fl = {k: v * 20 for k, v in obs.floors(case).items()}
        compare(mon, f"{o}_{be}_{jn}", res, ref, rel, fl)
        mon.event("backend_" + be + "_" + jn)


def pole_free(case):
    return all(math.hypot(p[0], p[1]) > 1e-3 * math.sqrt(sum(c * c for c in p)) for p in case["xyz"])


def compare(mon, name, A, B, rel, fl):
    for key, (q, msg) in obs.deviation(A, B, rel, dict(fl, a=1e-13, b=1e-13, S1=3e-12, S2=3e-12)).items():
        mon.le(name, q, 1.0, msg)


def internal(case, mon, args, N):
    import torch
    import pymiediff as pmd

    Np, L, Nk = gen.dims(case)
    res = {}
    for be, jn in OPT:
        res[be, jn] = pmd.multishell.mie_coefficients(**args, n_max=N, backend=be, which_jn=jn, return_internal=True)
        ext = pmd.multishell.mie_coefficients(**args, n_max=N, backend=be, which_jn=jn)
        for k in ("a_n", "b_n"):
            mon.ok("external_unchanged", torch.equal(ext[k], res[be, jn][k]), k)
    for p in range(Np):
        for i in range(Nk):
            s = sphere(case, p, i, N)
            for key, (sc, co, l) in INT.items():
                sv, cv = getattr(s, sc), getattr(s, co)[l]
                # Bohren & Huffman 8.1: E_shell = En (f M1 - i g N1 + v M2 - i w N2), radial functions j_n and y_n
                sg = -1 if co[0] == "B" else 1
                want = [complex(sg * sv[n] * cv[n]) for n in range(1, N + 1)]
                other = [complex(sv[n] * getattr(s, co.replace("B", "A"))[l][n]) for n in range(1, N + 1)]
                for opt, r in res.items():
                    got = [complex(z) for z in r[key][:, p, i]]
                    mon.ok("internal_orders", len(got) == N, f"{key}: {len(got)}")
                    for n in range(N):
                        # irregular parts: relative to the scale on which they matter at the inner interface
                        t = 1e-7 * abs(want[n]) + 1e-11 * abs(other[n])
                        mon.le(f"internal_{opt[0]}_{opt[1]}", abs(got[n] - want[n]), t,
                               lambda: f"{key}[{n + 1}] particle {p} wavelength {i}: {got[n]} vs {want[n]};")
    mon.hit()
    mon.event("internal_sets", Np * Nk * 3)
