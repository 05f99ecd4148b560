"""C10: automatic truncation is sufficient, explicit truncation is obeyed."""
import math
import random

from miemon import gen, obs
from miemon.checks.c04 import max_im, probes
from miemon.checks.c07 import tt

PROPERTY = "C10"
RULE = (
    "case kinds: auto (results with the automatic order against results with 6 to 20 more orders, all observables, probe "
    "positions in every region), legacy (the same for the torch and scipy backends), explicit (exactly the requested "
    "orders come back and lower orders do not depend on the request); non-trivial when more than one order contributes"
)
ASSUMPTIONS = [
    "default backend: change below 1e-12 of the total (far field, cross sections) and 1e-9 of the local field scale",
    "legacy backends (Wiscombe): change below 1e-5 of the total and 1e-3 of the field scale; |m x| <= 20, Im(m x) <= 4",
]
TECHNIQUE = "runtime monitoring: metamorphic oracle over truncation orders"


def generate(rng, tier):
    n = 7 if tier == "quick" else 120
    cases = []
    for fam in gen.FAMILIES:
        for o in ("cs", "far", "near"):
            if fam == "hostlossy" and o == "cs":
                continue
            for j in range(n):
                np_, nk = rng.choice([(1, 1), (1, 1), (1, 2), (2, 1), (2, 2)])
                c = gen.config(rng, fam, np_=np_, nk=nk, lmax=4, xhi=rng.choice([3, 25, 200]) if o != "near" else rng.choice([3, 30]),
                               dispersive_env=rng.random() < 0.3)
                c.update(kind="auto", obs=o, seed=rng.randrange(1 << 30), backend="pena")
                extra(rng, c)
                cases.append(c)
    for j in range(8 if tier == "quick" else 60):  # large particles
        o = rng.choice(["cs", "far"])
        c = gen.config(rng, rng.choice(["diel", "lossy", "match", "high"]), np_=1, nk=1, L=rng.choice([1, 2, 3]), xlo=1.0, xhi=2.0)
        s = math.exp(rng.uniform(math.log(200), math.log(1200))) / gen.xmax(c)
        c["r"] = [[q * s for q in r] for r in c["r"]]
        if max_im(c) < 150:
            c.update(kind="auto", obs=o, seed=rng.randrange(1 << 30), backend="pena")
            extra(rng, c)
            cases.append(c)
    for j in range(14 * n):
        o = rng.choice(["cs", "far", "near"])
        np_, nk = rng.choice([(1, 1), (1, 2), (2, 1), (2, 2)])
        c = gen.config(rng, rng.choice(["diel", "high", "lossy", "metal", "hollow", "match", "mixed", "zero"]), np_=np_,
                       nk=nk, L=rng.choice([1, 2]), xlo=0.05, xhi=15, dispersive_env=rng.random() < 0.3)
        if gen.max_arg(c) > 20 or max_im(c) > 4:
            continue
        c.update(kind="auto", obs=o, seed=rng.randrange(1 << 30), backend=rng.choice(["torch", "scipy"]))
        extra(rng, c)
        cases.append(c)
    for j in range(8 * n):  # legacy rule at the large end of its range, dense hosts
        o = rng.choice(["cs", "far", "near"])
        np_, nk = rng.choice([(1, 1), (1, 2), (2, 1), (2, 2)])
        c = gen.config(rng, rng.choice(["diel", "lossy", "match"]), np_=np_, nk=nk, L=rng.choice([1, 2]), xlo=9, xhi=16)
        e = rng.uniform(1.7, 3.0)
        c["env"] = [[e * e, 0.0] for _ in c["env"]]
        s = rng.uniform(9.0, 16.0) / gen.xmax(c)
        c["r"] = [[q * s for q in r] for r in c["r"]]
        if gen.max_arg(c) > 20 or max_im(c) > 4:
            continue
        c.update(kind="auto", obs=o, seed=rng.randrange(1 << 30), backend=rng.choice(["torch", "scipy"]))
        extra(rng, c)
        cases.append(c)
    for j in range(30 * n):
        np_, nk = rng.choice([(1, 1), (1, 2), (2, 1), (2, 2), (3, 2)])
        c = gen.config(rng, None, np_=np_, nk=nk, lmax=4, xhi=40)
        if c["family"] == "hostlossy":
            continue
        c.update(kind="explicit", seed=rng.randrange(1 << 30), backend="pena")
        if len(c["r"][0]) <= 2 and gen.max_arg(c) < 15 and max_im(c) < 4 and gen.xmax(c) > 0.3 and rng.random() < 0.5:
            c["backend"] = rng.choice(["torch", "scipy"])
        cases.append(c)
    return cases


def extra(rng, c):
    if c["obs"] == "far":
        c["theta"] = [0.0, math.pi, rng.uniform(0, 3.1), rng.uniform(0, 3.1)]
    if c["obs"] == "near":
        c["xyz"] = probes(rng, rng.choice(c["r"]), 2 * len(c["r"][0]) + 5, far=3.0)


def run(case, mon):
    (auto if case["kind"] == "auto" else explicit)(case, mon)


def auto(case, mon):
    rng = random.Random(case["seed"])
    o, be = case["obs"], case["backend"]
    args = gen.tensors(case)
    ex = dict(theta=tt(case["theta"]) if o == "far" else None, xyz=tt(case["xyz"]) if o == "near" else None)
    N = int(obs.call("coef", args, raw=True, backend=be)["n_max"])
    more = 6 if be != "pena" else rng.choice([6, 10, 20])
    a = obs.call(o, args, backend=be, **ex)
    b = obs.call(o, args, backend=be, n_max=N + more, **ex)
    mon.event("orders", N)
    name = "automatic_" + ("default" if be == "pena" else "legacy") + "_" + o
    if o == "cs":
        for k in ("cs_ext", "cs_sca", "q_ext", "q_sca"):
            tol = (1e-12 if be == "pena" else 1e-6) * b[k].abs() + 1e-300
            if be != "pena":
                tol = tol + obs.floors(case)[k.split("_")[0]] * 1e2
            mon.le(name, float(((a[k] - b[k]).abs() / tol).max()), 1.0, k)
        tol = (1e-12 if be == "pena" else 1e-6) * b["cs_ext"].abs() + 1e-300 + obs.floors(case)["cs"] * 1e2
        mon.le(name, float(((a["cs_abs"] - b["cs_abs"]).abs() / tol).max()), 1.0, "cs_abs")
        mon.hit(int((b["cs_sca_multipoles"].sum(0)[:, 0, 0] > 1e-6 * b["cs_sca"][0, 0]).sum()) > 1, sig=None)
    elif o == "far":
        for k in ("S1", "S2"):
            sc = b[k].abs().amax(-1, keepdim=True) + (1e-300 if be == "pena" else 1e-9)
            mon.le(name, float(((a[k] - b[k]).abs() / sc).max()), 1e-12 if be == "pena" else 1e-5, k)
        mon.hit()
    else:
        for k in ("E_s", "H_s", "E_t", "H_t"):
            sc = b[k].abs().amax(-1, keepdim=True) + b[k[0] + "_i"].abs().amax(-1, keepdim=True)
            d = (a[k] - b[k]).abs() / sc
            j = int(d.argmax())
            mon.le(name, float(d.max()), 1e-9 if be == "pena" else 1e-3, lambda: f"{k}[{j}] of {tuple(d.shape)}, order {N}")
        mon.hit()


def explicit(case, mon):
    import numpy as np
    import torch

    rng = random.Random(case["seed"])
    be = case["backend"]
    args = gen.tensors(case)
    Np, L, Nk = gen.dims(case)
    top = int(obs.call("coef", args, raw=True, backend=be)["n_max"])
    if be != "pena":
        top = min(top, 14)
    orders = sorted({1, 2, top} | {rng.randint(1, top + (8 if be == "pena" else 0)) for _ in range(3)})
    ref = None
    for N in reversed(orders):
        form = rng.choice([int, np.int64, torch.as_tensor, lambda v: torch.tensor(v, dtype=torch.int32)])
        r = obs.call("coef", args, raw=True, backend=be, n_max=form(N))
        mon.ok("explicit_order", int(r["n_max"]) == N and [int(q) for q in r["n"]] == list(range(1, N + 1)), f"asked {N}, got {r['n_max']}")
        mon.ok("explicit_order", tuple(r["a_n"].shape) == (N, Np, Nk) == tuple(r["b_n"].shape), lambda: f"{r['a_n'].shape} for {N} orders")
        cs = obs.call("cs", args, raw=True, backend=be, n_max=form(N))
        mon.ok("explicit_order", tuple(cs["cs_ext_multipoles"].shape) == (2, N, Np, Nk) and int(cs["n_max"]) == N
               and [int(q) for q in torch.atleast_1d(cs["n"])] == list(range(1, N + 1)), "cross sections")
        cur = {k: r[k] for k in ("a_n", "b_n")}
        if ref is None:
            ref = cur
        low = {k: v[:N] for k, v in ref.items()}
        obs.compare(mon, "lower_orders_" + ("default" if be == "pena" else "legacy"), cur, low,
                    1e-11 if be == "pena" else 1e-7, 1e-14, note=f"order {N} of {orders[-1]}:")
        mon.event("truncations")
        for o, kk in (("far", dict(theta=tt([0.4]))), ("near", dict(xyz=tt([[1.2 * case["r"][0][-1], 1.0, 2.0]])))):
            if N > 6 or rng.random() < 0.5:
                continue
            full = obs.call(o, args, backend=be, n_max=N, **kk)
            again = obs.call(o, args, backend=be, n_max=form(N), **kk)
            for k in full:
                mon.ok("explicit_form", torch.equal(full[k], again[k]), k)
    mon.hit(len(orders) > 1)
