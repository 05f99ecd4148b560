"""C07: vectorised evaluation equals evaluating each element alone; all input layouts agree."""
import math
import random

from miemon import gen, obs
from miemon.checks.c04 import max_im, probes

PROPERTY = "C07"
RULE = (
    "case kinds: batch (every entry of a batch against its own single evaluation; permuted, repeated and sub-sampled "
    "batches), big (axes of 130 to 4000 entries at once against small blocks), grid (angles and positions in any order, shape and container), layout (every documented layout and "
    "container of the same configuration); non-trivial when at least two elements or two layouts are compared"
)
ASSUMPTIONS = [
    "equal explicit truncation order, equal arithmetic: agreement to 1e-9 relative (recurrence depth depends on the batch)",
    "ambiguous two-dimensional permittivities (N_part = L = N_k0 and similar) are read as (N_part, L)",
    "Python lists, numbers and integer tensors are single precision: agreement to 4e-6 for exactly representable values",
]
TECHNIQUE = "runtime monitoring: differential oracle between batched and single executions"


def generate(rng, tier):
    n = 8 if tier == "quick" else 150
    cases = []
    for o in obs.OBS:
        for j in range(n * 3):
            np_, nk, L = rng.choice([
                (2, 2, 2), (3, 3, 3), (2, 3, 1), (3, 2, 2), (1, 3, 3), (3, 1, 3), (2, 2, 1), (1, 1, 2), (4, 2, 3),
                (2, 4, 3), (5, 1, 1), (1, 5, 1), (2, 1, 2), (1, 2, 2), (3, 3, 1), (2, 2, 4), (4, 4, 2),
            ])
            fam = rng.choice([f for f in gen.FAMILIES if not (f == "hostlossy" and o == "cs")])
            c = gen.config(rng, fam, np_=np_, nk=nk, L=max(L, 2) if fam in ("hollow", "thin") else L,
                           xhi=rng.choice([3, 12, 60]) if o != "near" else 8, dispersive_env=rng.random() < 0.5)
            if rng.random() < 0.3 and nk > 1:  # repeated wavelengths and very different ones
                c["k0"][-1] = c["k0"][0]
            c.update(kind="batch", obs=o, nmax=rng.choice([1, 2, 3, 4, 7, 12, 20]), seed=rng.randrange(1 << 30),
                     backend="pena")
            if j % 4 == 3 and L <= 2 and gen.max_arg(c) < 15 and max_im(c) < 4:
                c["backend"] = rng.choice(["torch", "scipy"])
                c["nmax"] = min(c["nmax"], 8)
            if o == "far":
                c["theta"] = [rng.uniform(-4, 7) for _ in range(rng.choice([1, 2, 3, 4, 5]))]
            if o == "near":
                c["xyz"] = probes(rng, rng.choice(c["r"]), rng.choice([1, 2, 3, 4, 6]), far=5.0)
            cases.append(c)
    for j in range(n * 6):
        o = rng.choice(["far", "near"])
        c = gen.config(rng, rng.choice(["diel", "mixed", "metal", "lossy", "hollow"]), np_=rng.choice([1, 2, 3]),
                       nk=rng.choice([1, 2, 3]), L=rng.choice([2, 3]), xhi=8)
        c.update(kind="grid", obs=o, nmax=rng.choice([1, 2, 5, 9]), seed=rng.randrange(1 << 30))
        c["theta"] = [rng.choice([rng.uniform(-4, 7), 0.0, math.pi, math.pi / 2]) for _ in range(6)]
        c["xyz"] = probes(rng, rng.choice(c["r"]), 6, far=5.0)
        cases.append(c)
    for j in range(n * 8):
        L = rng.choice([1, 1, 2, 2, 3, 4])
        np_, nk = rng.choice([(1, 1), (1, 2), (1, 3), (2, 1), (3, 1), (2, 2), (2, 3), (3, 2), (L, 2), (2, L), (1, L), (L, L), (L, 1)])
        c = dict(kind="layout", obs=rng.choice(obs.OBS), L=L, np=np_, nk=nk, seed=rng.randrange(1 << 30),
                 nmax=rng.choice([1, 2, 4, 6]))
        cases.append(c)
    for j in range(36 if tier == "quick" else 150):
        o = obs.OBS[j % 4] if j >= 12 else ("far", "near")[j % 2]
        # numbers just above the block sizes an implementation may use
        long = rng.choice([130, 260, 515, 1030] if j % 8 < 6 or tier == "quick" else [2050, 4100])
        dim = ["k", "p", "a" if o == "far" else "x" if o == "near" else "pk"][(j // 4) % 3 if j >= 12 else 2]
        np_, nk = dict(k=(1, long), p=(long, 1), pk=(40, 40)).get(dim, (rng.choice([1, 2]), rng.choice([1, 2])))
        L = rng.choice([1, 2, 3])
        c = gen.config(rng, rng.choice(["diel", "mixed", "metal", "lossy", "hollow"]), np_=np_, nk=nk, L=L if L > 1 else 2,
                       xhi=4, dispersive_env=rng.random() < 0.5)
        c.update(kind="big", obs=o, nmax=rng.choice([1, 2, 4]), seed=rng.randrange(1 << 30), backend="pena", dim=dim)
        m = max(long, rng.choice([1030, 2050])) if dim in "ax" else 2
        if o == "far":
            c["theta"] = [rng.uniform(-4, 7) for _ in range(m)]
        if o == "near":
            c["xyz"] = []
            while len(c["xyz"]) < m:
                c["xyz"] += probes(rng, rng.choice(c["r"]), min(64, m - len(c["xyz"])), far=5.0)
        if gen.dims(c)[1] <= 2 and gen.max_arg(c) < 15 and max_im(c) < 4 and rng.random() < 0.4:
            c["backend"] = rng.choice(["torch", "scipy"])
        cases.append(c)
    return cases


def run(case, mon):
    {"batch": batch, "grid": grid, "layout": layout, "big": big}[case["kind"]](case, mon)


def tt(v):
    import torch

    return torch.tensor(v, dtype=torch.float64)


def batch(case, mon):
    rng = random.Random(case["seed"])
    Np, L, Nk = gen.dims(case)
    o, N, be = case["obs"], case["nmax"], case["backend"]
    args = gen.tensors(case)
    ex = dict(theta=tt(case["theta"]) if o == "far" else None, xyz=tt(case["xyz"]) if o == "near" else None)
    kw = dict(n_max=N, backend=be)
    rel = 1e-10 if be == "pena" else 1e-8
    full = obs.call(o, args, **ex, **kw)
    mon.event("batch_evaluations")
    for key, t in full.items():
        want = [dict(n=N, t=2, p=Np, k=Nk, a=len(case.get("theta", ())), x=len(case.get("xyz", ())), c=3)[a] for a in obs.AXES[key]]
        mon.ok("result_shape", list(t.shape) == want, f"{key}: {tuple(t.shape)}, expected {want}")
    # every element alone
    for p in range(Np):
        for i in range(Nk):
            one = obs.call(o, obs.select(args, [p], [i]), **ex, **kw)
            obs.compare(mon, "element_alone", obs.take(full, p=[p], k=[i]), one, rel, obs.floors(case, p, i), note=f"particle {p} wavelength {i}:")
            mon.event("elements")
    # permuted and repeated batch
    pp = [rng.randrange(Np) for _ in range(rng.choice([Np, Np + 1, max(1, Np - 1)]))]
    if rng.random() < 0.5:
        pp = rng.sample(range(Np), Np)
    kk = [rng.randrange(Nk) for _ in range(rng.choice([Nk, Nk + 1, max(1, Nk - 1)]))]
    if rng.random() < 0.5:
        kk = rng.sample(range(Nk), Nk)
    sub = obs.call(o, obs.select(args, pp, kk), **ex, **kw)
    obs.compare(mon, "rearranged_batch", sub, obs.take(full, p=pp, k=kk), rel, obs.floors(case), note=f"particles {pp} wavelengths {kk}:")
    # automatic truncation: the common order of a batch is at least that of each member
    n_all = int(obs.call("coef", args, raw=True, backend=be)["n_max"])
    n_one = [int(obs.call("coef", obs.select(args, [p], [i]), raw=True, backend=be)["n_max"]) for p in range(Np) for i in range(Nk)]
    mon.ok("batch_order", n_all == max(n_one), f"{n_all} for the batch, {n_one} alone")
    mon.hit(Np * Nk > 1)


def big(case, mon):
    """A long axis at once against the same elements in small blocks of another size."""
    import torch

    rng = random.Random(case["seed"])
    Np, L, Nk = gen.dims(case)
    o, N, be, dim = case["obs"], case["nmax"], case["backend"], case["dim"]
    args = gen.tensors(case)
    ex = dict(theta=tt(case["theta"]) if o == "far" else None, xyz=tt(case["xyz"]) if o == "near" else None)
    kw = dict(n_max=N, backend=be)
    rel = 1e-10 if be == "pena" else 1e-8
    full = obs.call(o, args, **ex, **kw)
    step = rng.choice([37, 61, 97]) if dim != "pk" else 13
    for ax in dim:
        n = dict(p=Np, k=Nk, a=len(case.get("theta", ())), x=len(case.get("xyz", ())))[ax]
        parts = []
        for s in range(0, n, step):
            idx = list(range(s, min(n, s + step)))
            e = dict(ex)
            a = args
            if ax == "a":
                e["theta"] = ex["theta"][idx]
            elif ax == "x":
                e["xyz"] = ex["xyz"][idx]
            else:
                a = obs.select(args, **{ax: idx})
            parts.append(obs.call(o, a, **e, **kw))
            mon.event("blocks")
        cat = {}
        for key in full:
            j = obs.AXES[key].index(ax)
            cat[key] = torch.cat([q[key] for q in parts], dim=j)
        obs.compare(mon, "long_axis", full, cat, rel, obs.floors(case), note=f"axis {ax} of {n} entries:")
        mon.event("long_axis_entries", n)
    mon.hit()


def grid(case, mon):
    import numpy as np
    import torch

    rng = random.Random(case["seed"])
    o = case["obs"]
    args = gen.tensors(case)
    kw = dict(n_max=case["nmax"])
    if o == "far":
        th = case["theta"]
        full = obs.call(o, args, theta=tt(th), **kw)
        for j in range(len(th)):
            one = obs.call(o, args, theta=tt([th[j]]), **kw)
            obs.compare(mon, "angle_alone", obs.take(full, a=[j]), one, 1e-9)
        perm = rng.sample(range(6), 6)
        res = obs.call(o, args, theta=tt([th[j] for j in perm]), **kw)
        obs.compare(mon, "angle_order", res, obs.take(full, a=perm), 1e-12)
        for shape in ((6,), (2, 3), (1, 6), (6, 1), (3, 2), (1, 2, 3)):
            res = obs.call(o, args, theta=tt(th).reshape(shape), **kw)
            for key in res:
                lead = tuple(full[key].shape[:2])
                if mon.ok("angle_shape", tuple(res[key].shape) == lead + shape, f"{key}: {tuple(res[key].shape)} for angles {shape}"):
                    flat = {key: res[key].reshape(lead + (6,))}
                    obs.compare(mon, "angle_reshaped", flat, {key: full[key]}, 1e-12)
        nc = tt([[t, 0.0] for t in th])[:, 0]  # non-contiguous
        obs.compare(mon, "angle_container", obs.call(o, args, theta=nc, **kw), full, 1e-12, note="non-contiguous")
        obs.compare(mon, "angle_container", obs.call(o, args, theta=np.array(th), **kw), full, 1e-12, note="numpy")
        t32 = [float(np.float32(t)) for t in th]
        ref = obs.call(o, args, theta=tt(t32), **kw)
        obs.compare(mon, "angle_container_single", obs.call(o, args, theta=t32, **kw), ref, 3e-5, note="list")
        sc = obs.call(o, args, theta=tt(th[0]), **kw)
        sc = {k: t.reshape(t.shape[:2] + (1,)) for k, t in sc.items()}
        obs.compare(mon, "angle_scalar", sc, obs.take(full, a=[0]), 1e-9)
    else:
        xyz = case["xyz"]
        full = obs.call(o, args, xyz=tt(xyz), **kw)
        for j in range(len(xyz)):
            one = obs.call(o, args, xyz=tt([xyz[j]]), **kw)
            obs.compare(mon, "position_alone", obs.take(full, x=[j]), one, 1e-9)
        perm = [rng.randrange(6) for _ in range(7)]
        res = obs.call(o, args, xyz=tt([xyz[j] for j in perm]), **kw)
        obs.compare(mon, "position_order", res, obs.take(full, x=perm), 1e-9)
        nc = tt(list(map(list, zip(*xyz)))).T
        obs.compare(mon, "position_container", obs.call(o, args, xyz=nc, **kw), full, 1e-12, note="non-contiguous")
        obs.compare(mon, "position_container", obs.call(o, args, xyz=np.array(xyz), **kw), full, 1e-12, note="numpy")
        E0 = complex(rng.uniform(-2, 2), rng.uniform(-2, 2))
        a = obs.call(o, args, xyz=tt(xyz), E_0=E0, **kw)
        b = obs.call(o, args, xyz=tt(xyz), E_0=torch.tensor(E0, dtype=torch.complex128), **kw)
        obs.compare(mon, "amplitude_container", a, b, 1e-12)
    mon.hit()
    mon.event("grids")


# exactly representable in single precision, with exact square roots
NS = [1.25, 1.5, 1.75, 2.0, 2.5, 3.0, 3.5]


def layout(case, mon):
    import numpy as np
    import torch

    rng = random.Random(case["seed"])
    L, Np, Nk, o, N = case["L"], case["np"], case["nk"], case["obs"], case["nmax"]
    k0 = [rng.choice([8, 10, 12, 14, 15, 17, 18, 20]) / 1024 for _ in range(Nk)]
    base = sorted(rng.sample(range(20, 180, 4), L))
    same_r = rng.random() < 0.4
    r = [base if same_r or p == 0 else sorted(rng.sample(range(20, 180, 4), L)) for p in range(Np)]
    const_k = rng.random() < 0.5  # not dispersive
    const_p = rng.random() < 0.5  # the same for all particles
    lossy = rng.random() < 0.4
    tab = {}

    def eps_at(p, l, i):
        key = (0 if const_p else p, l, 0 if const_k else i)
        if key not in tab:
            n = rng.choice(NS)
            k = rng.choice([0.0, 0.125, 0.5]) if lossy else 0.0
            tab[key] = complex(n, k) ** 2
        return tab[key]

    eps = [[[eps_at(p, l, i) for i in range(Nk)] for l in range(L)] for p in range(Np)]
    if not lossy:
        eps = [[[e.real for e in b] for b in a] for a in eps]
    env_const = rng.random() < 0.6
    env = [rng.choice([1.0, 1.5625, 2.25]) for _ in range(Nk)]
    if env_const:
        env = [env[0]] * Nk
    ex = {}
    if o == "far":
        ex["theta"] = tt([0.3, 1.1, 2.7])
    if o == "near":
        R = base[-1]
        ex["xyz"] = tt([[0.4 * base[0], 3.0, 0.2 * base[0]], [1.3 * R, 0.2 * R, -0.4 * R], [-0.9 * R, 9.0, 5.0]])
    ref_args = dict(k0=tt(k0), r_layers=tt(r), eps_layers=torch.tensor(eps, dtype=torch.complex128 if lossy else torch.float64),
                    eps_env=tt(env))
    ref = obs.call(o, ref_args, n_max=N, **ex)
    auto = obs.call("coef", ref_args, raw=True)["n_max"]

    fl = dict(cs=1e-10, q=1e-14)

    # layouts of each argument: (name, value, double precision?)
    def forms(v, name):
        """Containers of one nested list."""
        dt = torch.complex128 if any(isinstance(q, complex) for q in flat(v)) else torch.float64
        out = [(name + " tensor", torch.tensor(v, dtype=dt), True), (name + " numpy", np.array(v, dtype=complex if dt.is_complex else float), True),
               (name + " list", v, False)]
        if isinstance(v, list):
            out.append((name + " tuple", tuple(v), False))
        big = torch.tensor(v, dtype=dt)
        if big.ndim > 1:  # same values, transposed memory
            out.append((name + " strided", big.transpose(0, -1).contiguous().transpose(0, -1), True))
        return out

    def flat(v):
        return [q for e in v for q in flat(e)] if isinstance(v, (list, tuple)) else [v]

    L_k0 = forms(k0, "k0 (Nk,)") + forms([k0], "k0 (1,Nk)")[:2] + forms([[q] for q in k0], "k0 (Nk,1)")[:2]
    if Nk == 1:
        L_k0 += [("k0 scalar", k0[0], False), ("k0 0-d", tt(k0[0]), True)]
    L_r = forms(r, "r (Np,L)")
    L_r.append(("r (Np,L) integers", torch.tensor(r), False))
    if Np == 1:
        L_r += forms(r[0], "r (L,)")
        if L == 1:
            L_r += [("r scalar", float(r[0][0]), False), ("r integer", r[0][0], False)]
    L_e = forms(eps, "eps (Np,L,Nk)")
    if const_k or Nk == 1:
        L_e += forms([[[e[0]] for e in a] for a in eps], "eps (Np,L,1)")
        L_e += forms([[e[0] for e in a] for a in eps], "eps (Np,L)")
    if const_p or Np == 1:
        L_e += forms([eps[0]], "eps (1,L,Nk)")
        if not (Np == L and L == Nk) and not (L == Np and Nk == L):
            if not (Np, L) == (L, Nk):
                L_e += forms(eps[0], "eps (L,Nk)")
        if const_k or Nk == 1:
            L_e += forms([e[0] for e in eps[0]], "eps (L,)")
            if L == 1:
                L_e += [("eps scalar", eps[0][0][0], False)]
    L_v = forms(env, "env (Nk,)")
    if env_const:
        L_v += forms([env[0]], "env (1,)")
        L_v += [("env scalar", env[0], False), ("env 0-d", tt(env[0]), True)]
    legacy = []
    if L == 1 or (L == 2):
        rc, rs = [q[0] for q in r], [q[-1] for q in r]
        ec = [[a[0][i] for i in range(Nk)] for a in eps]
        es = [[a[-1][i] for i in range(Nk)] for a in eps]
        two = L == 2
        cand = [("legacy (Np,Nk)", rc, rs, ec, es)]
        if Np == 1:
            cand.append(("legacy scalar radius (1,Nk)", rc[0], rs[0], ec, es))
            cand.append(("legacy (Nk,)", rc[0], rs[0], ec[0], es[0]))
            if const_k or Nk == 1:
                cand.append(("legacy scalars", rc[0], rs[0], ec[0][0], es[0][0]))
        elif const_k or Nk == 1:
            cand.append(("legacy (Np,)", rc, rs, [e[0] for e in ec], [e[0] for e in es]))
        for name, a, b, c, d in cand:
            dt = torch.complex128 if lossy else torch.float64
            for w, dbl in ((lambda v: torch.tensor(v, dtype=dt), True), (lambda v: np.array(v, dtype=complex if lossy else float), True), (lambda v: v, False)):
                rr = (lambda v: tt(v)) if dbl else (lambda v: v)
                kwl = dict(r_c=rr(a), eps_c=w(c))
                if two:
                    kwl.update(r_s=rr(b), eps_s=w(d))
                legacy.append((name, kwl, dbl))
                if not two:
                    legacy.append((name + " same shell", dict(r_c=rr(a), eps_c=w(c), r_s=rr(b), eps_s=w(d)), dbl))

    trials = []
    for lst, key in ((L_k0, "k0"), (L_r, "r_layers"), (L_e, "eps_layers"), (L_v, "eps_env")):
        for name, v, dbl in lst:
            trials.append((name, dict(ref_args, **{key: v}), dbl))
    for name, kwl, dbl in legacy:
        trials.append((name, dict(k0=ref_args["k0"], eps_env=ref_args["eps_env"], **kwl), dbl))
    for _ in range(4):  # combinations
        q = [rng.choice(x) for x in (L_k0, L_r, L_e, L_v)]
        trials.append((" + ".join(x[0] for x in q), dict(k0=q[0][1], r_layers=q[1][1], eps_layers=q[2][1], eps_env=q[3][1]),
                       all(x[2] for x in q)))
    for name, a, dbl in trials:
        try:
            res = obs.call(o, a, n_max=N, **ex)
        except Exception as e:  # noqa: BLE001
            mon.ok("layout_accepted", False, f"{name}: {type(e).__name__} {e}")
            continue
        mon.ok("layout_accepted", True)
        shapes = {k: tuple(t.shape) for k, t in res.items()}
        want = {k: tuple(t.shape) for k, t in ref.items()}
        if mon.ok("layout_shape", shapes == want, lambda: f"{name}: {shapes}"):
            if dbl:
                obs.compare(mon, "layout_equal", res, ref, 1e-10, fl, note=name)
            else:
                obs.compare(mon, "layout_equal_single", res, ref, 4e-6, 1e-9, note=name)
        if dbl:
            n = int(obs.call("coef", a, raw=True)["n_max"])
            mon.ok("layout_order", n == int(auto), f"{name}: {n} vs {int(auto)}")
        mon.event("layouts")
    mon.hit(len(trials) > 1)
