"""C12: material answers do not depend on the history of queries."""
import glob
import math
import os
import random
import tempfile

from miemon.checks import c11

PROPERTY = "C12"
RULE = (
    "one case is a random history of 15 to 60 operations (queries of every container, dtype, batch and gradient mode, "
    "results modified in place by the caller, repeated backward, double backward attempts, preloading, device moves, "
    "printing, other materials and particles sharing the material, refused queries) on one material object; every answer "
    "is compared with that of a fresh object asked only this question; non-trivial when at least 10 answers were compared"
)
ASSUMPTIONS = [
    "tolerance 2e-6 relative for values (python number and tensor wavelengths may round differently), gradients 1e-5 "
    "relative plus rounding of the interpolation weights",
    "devices: only cpu is available in this sandbox; moves go to 'cpu' and torch.device('cpu')",
]
TECHNIQUE = "runtime monitoring of random histories against a history-free reference object"

OPS = ("one", "batch", "grad", "gradbatch", "retain", "nograd", "infer", "spoil", "device", "repr", "other", "particle",
       "particle_grad", "refused", "detached", "hessian", "long")


def generate(rng, tier):
    n = 40 if tier == "quick" else 1000
    return [dict(kind="history", mat=rng.choice(["Si", "Au", "Ag", "SiO2", "TiO2", "Al2O3e", "aSi", "constant", "file", "formula"]),
                 preload=rng.choice(["none", "none", "list", "tensor"]), seed=rng.randrange(1 << 30)) for _ in range(4 * n)]


def maker(case, rng, tmp):
    """-> function building a fresh identical object (optionally preloaded)"""
    import pymiediff as pmd

    if case["mat"] == "constant":
        v = complex(rng.uniform(-10, 12), rng.choice([0.0, rng.uniform(0, 3)]))
        return lambda pre=None: pmd.materials.MatConstant(v)
    if case["mat"] in ("file", "formula"):
        path = os.path.join(tmp, "m.yml")
        if case["mat"] == "file":
            rows = "".join(f"        {0.3 + 0.06 * i + rng.uniform(0, .03):.4f} {rng.uniform(.1, 4):.3f} {rng.uniform(0, 3):.3f}\n" for i in range(25))
            open(path, "w").write("DATA:\n  - type: tabulated nk\n    data: |\n" + rows)
        else:
            open(path, "w").write("DATA:\n  - type: formula 1\n    range: 0.3 2\n    coefficients: 0.1 1.2 0.12 0.7 9.5\n")
        return lambda pre=None: pmd.materials.MatDatabase(yaml_file=path, init_lookup_wavelengths=pre)
    return lambda pre=None: pmd.materials.MatDatabase(case["mat"], init_lookup_wavelengths=pre)


def run(case, mon):
    import torch
    import pymiediff as pmd

    rng = random.Random(case["seed"])
    with tempfile.TemporaryDirectory() as tmp:
        fresh = maker(case, rng, tmp)
        pool = [rng.uniform(320, 1500) for _ in range(5)] + [float(rng.randint(350, 1400)) for _ in range(3)] + [5000.0, 150.0]
        pool += [pool[0] + 0.004, pool[1] + 0.05, pool[2] + 0.4, pool[3] * (1 + 1e-5), round(pool[4])]  # near misses
        pre = None
        if case["preload"] == "list":
            pre = rng.sample(pool, 4)
        elif case["preload"] == "tensor":
            pre = torch.tensor(rng.sample(pool, 4), dtype=rng.choice([torch.float32, torch.float64]))
        try:
            mat = fresh(pre)
        except TypeError:
            mat = fresh()
        state = dict(mat=mat, fresh=fresh, answers=0, held=[], oracle=reference(case, tmp))
        hist = []
        for step in range(rng.randint(15, 60)):
            op = rng.choice(OPS)
            hist.append(op)
            step_op(op, state, pool, rng, mon, hist, pmd, torch)
            # answers given earlier never change
            for k, (val, copy) in enumerate(state["held"]):
                mon.ok("earlier_answers", torch.equal(val.detach(), copy), lambda: f"answer {k} changed after {hist[-3:]}")
        mon.event("answers", state["answers"])
        mon.event("operations", len(hist))
        mon.hit(state["answers"] >= 10)


def reference(case, tmp):
    """Independent evaluation: a fresh object could share state with the one under test."""
    if case["mat"] == "constant":
        return None
    if case["mat"] in ("file", "formula"):
        return c11.read(os.path.join(tmp, "m.yml"))
    return c11.read(glob.glob(os.path.join(c11.REF, case["mat"] + "_*.yml"))[0])


def wl(rng, pool, torch, x=None):
    x = rng.choice(pool) if x is None else x
    return rng.choice([
        lambda: x, lambda: torch.tensor(x), lambda: torch.tensor(x, dtype=torch.float64), lambda: torch.tensor([x]),
        lambda: [x], lambda: torch.tensor([x], dtype=torch.float64).numpy(),
    ])()


def same(a, b, torch):
    a, b = a.detach(), b.detach()
    if a.shape != b.shape or a.dtype != b.dtype:
        return math.inf
    return float(((a - b).abs() / (b.abs() + 1e-3)).max()) if a.numel() else 0.0


def check(state, ans, q, mon, hist, torch, keep=True):
    ref = state["fresh"]().get_epsilon(q.detach().clone() if torch.is_tensor(q) else q)
    state["answers"] += 1
    mon.le("value_as_fresh", same(ans, ref, torch), 2e-6, lambda: f"history {hist[-6:]}: {ans} vs {ref}")
    if state["oracle"] is not None:
        for x, v in zip(torch.as_tensor(q, dtype=torch.float32).detach().reshape(-1).tolist(), ans.detach().reshape(-1).tolist()):
            want, _, tol = state["oracle"](x)
            if tol < 0.1 * (1 + abs(want)):
                mon.le("value_as_data", abs(v - want), 2 * tol + 1e-6 * abs(want), lambda: f"history {hist[-6:]}: at {x} {v} vs {want}")
    if keep and len(state["held"]) < 6:
        state["held"].append((ans, ans.detach().clone()))


def slope_tol(g, w, ref_eps):
    return 1e-5 * g.abs() + 2e-5 * float(ref_eps.detach().abs().max()) / 10.0


def check_grad(state, w, part, mon, hist, torch, q=None, again=1):
    """gradient through the material equals that of a fresh object"""
    e = state["mat"].get_epsilon(w)
    v = w.detach().clone().requires_grad_(True)
    f = state["fresh"]().get_epsilon(v)
    check(state, e, w, mon, hist, torch, keep=False)
    mon.ok("differentiable", e.requires_grad == f.requires_grad, lambda: f"history {hist[-6:]}")
    if not (e.requires_grad and f.requires_grad):
        return
    gv = torch.autograd.grad(getattr(f, part).sum(), v)[0]
    for j in range(again):
        gw = torch.autograd.grad(getattr(e, part).sum(), w, retain_graph=j < again - 1)[0]
        mon.le("gradient_as_fresh", float(((gw - gv).abs() / (slope_tol(gv, w, f))).max()), 1.0,
               lambda: f"history {hist[-6:]}: {gw} vs {gv} at {w}")
    mon.event("gradients")


def step_op(op, st, pool, rng, mon, hist, pmd, torch):
    mat = st["mat"]
    dt = rng.choice([torch.float32, torch.float64])
    part = rng.choice(["real", "imag"])
    xs = [rng.choice(pool) for _ in range(rng.choice([2, 3, 6]))]
    if op == "one":
        q = wl(rng, pool, torch)
        check(st, mat.get_epsilon(q), q, mon, hist, torch)
    elif op == "batch":
        q = rng.choice([lambda: torch.tensor(xs, dtype=dt), lambda: xs, lambda: torch.tensor(xs).numpy(), lambda: torch.tensor(xs)[:, None]])()
        check(st, mat.get_epsilon(q), q, mon, hist, torch)
    elif op == "grad":
        check_grad(st, torch.tensor(rng.choice(pool), dtype=dt, requires_grad=True), part, mon, hist, torch)
    elif op == "gradbatch":
        check_grad(st, torch.tensor(xs, dtype=dt, requires_grad=True), part, mon, hist, torch)
    elif op == "retain":
        w = torch.tensor(xs, dtype=dt, requires_grad=True)
        check_grad(st, w, part, mon, hist, torch, again=2)
        check_grad(st, w, part, mon, hist, torch)  # same leaf once more
        leaf = torch.tensor(2.0, dtype=dt, requires_grad=True)
        w = leaf * torch.tensor(xs, dtype=dt) / 2.0  # not a leaf
        e = mat.get_epsilon(w)
        if not e.requires_grad:
            return
        e.real.sum().backward()
        g = leaf.grad.clone() if leaf.grad is not None else None
        leaf2 = torch.tensor(2.0, dtype=dt, requires_grad=True)
        f = st["fresh"]().get_epsilon(leaf2 * torch.tensor(xs, dtype=dt) / 2.0)
        f.real.sum().backward()
        mon.ok("differentiable", (g is None) == (leaf2.grad is None), "non-leaf wavelength")
        if g is not None and leaf2.grad is not None:
            tol = 1e-5 * float(leaf2.grad.abs()) + 2e-5 * float(f.detach().abs().max()) * max(xs) / 10
            mon.le("gradient_as_fresh", abs(float(g - leaf2.grad)), tol, "chained")
    elif op == "nograd":
        w = torch.tensor(xs if rng.random() < 0.5 else rng.choice(pool), dtype=dt, requires_grad=rng.random() < 0.7)
        with torch.no_grad():
            a = mat.get_epsilon(w)
        mon.ok("differentiable", not a.requires_grad, "result of a no_grad query requires gradients")
        check(st, a, w, mon, hist, torch)
    elif op == "infer":
        with torch.inference_mode():
            a = mat.get_epsilon(wl(rng, pool, torch))
        # values remembered from inference mode stay usable for differentiation
        q = torch.tensor(rng.choice(pool), dtype=dt)
        s = torch.tensor(1.5, requires_grad=True)
        e = mat.get_epsilon(q)
        (e * s * e.real).real.sum().backward()
        f = st["fresh"]().get_epsilon(q)
        want = float((f * f.real).real.sum())
        mon.le("factor_gradient", abs(float(s.grad) - want), 1e-5 * (abs(want) + 1e-3), "after inference mode")
        check(st, e, q, mon, hist, torch)
    elif op == "spoil":
        q = wl(rng, pool, torch) if rng.random() < 0.6 else torch.tensor(xs, dtype=dt)
        a = mat.get_epsilon(q)
        with torch.no_grad():
            rng.choice([lambda: a.mul_(7.0), lambda: a.fill_(math.nan), lambda: a.zero_(), lambda: a.add_(1j)])()
        check(st, mat.get_epsilon(q), q, mon, hist + ["modified result"], torch)
    elif op == "detached":
        q = torch.tensor(xs, dtype=dt)
        a = mat.get_epsilon(q)
        with torch.no_grad():
            q.mul_(1.7)  # the caller reuses its wavelength buffer
        check(st, a, q / 1.7, mon, hist, torch) if dt == torch.float64 else None
        a = mat.get_epsilon(q)
        check(st, a, q, mon, hist, torch)
        # results can be optimised by the caller
        a = mat.get_epsilon(torch.tensor(rng.choice(pool))).requires_grad_(True)
        (a.abs() ** 2).sum().backward()
    elif op == "long":
        if sum(h == "long" for h in hist) > 2:
            return
        # many different wavelengths, then old and new ones again
        n = rng.choice([70, 140, 300, 520, 1100])
        q = torch.linspace(rng.uniform(300, 500), rng.uniform(900, 1600), n, dtype=dt)
        check(st, mat.get_epsilon(q), q, mon, hist, torch, keep=False)
        q = torch.cat((torch.tensor(xs, dtype=dt), q[:: rng.choice([7, 31])].flip(0)))
        check(st, mat.get_epsilon(q), q, mon, hist, torch, keep=False)
        mon.event("long_spectra")
    elif op == "device":
        mat.set_device(rng.choice(["cpu", torch.device("cpu")]))
    elif op == "repr":
        str(mat), repr(mat)
    elif op == "other":
        o = rng.choice([lambda: st["fresh"](), lambda: pmd.materials.MatDatabase(rng.choice(["Ge", "Si", "Au"])),
                        lambda: pmd.materials.MatConstant(rng.uniform(1, 9))])()
        v = o.get_epsilon(torch.tensor(xs))
        with torch.no_grad():
            v.zero_()
    elif op in ("particle", "particle_grad"):
        k0 = 2 * math.pi / torch.tensor(xs, dtype=torch.float64)
        k0.requires_grad_(op == "particle_grad")
        p = pmd.Particle(r_layers=torch.tensor([40.0, 70.0], dtype=torch.float64), mat_layers=[mat, rng.choice([2.0, mat])], mat_env=1.0)
        p2 = pmd.Particle(r_layers=torch.tensor([40.0, 70.0], dtype=torch.float64),
                          mat_layers=[st["fresh"](), p.mat_layers[1] if p.mat_layers[1] is not mat else st["fresh"]()], mat_env=1.0)
        c = p.get_cross_sections(k0)["q_ext"]
        k1 = k0.detach().clone().requires_grad_(op == "particle_grad")
        c2 = p2.get_cross_sections(k1)["q_ext"]
        mon.le("particle_as_fresh", float(((c - c2).detach().abs() / (c2.detach().abs() + 1e-3)).max()), 1e-4, lambda: f"{hist[-6:]}")
        if op == "particle_grad":
            g, = torch.autograd.grad(c.sum(), k0)
            g2, = torch.autograd.grad(c2.sum(), k1)
            mon.le("particle_as_fresh", float(((g - g2).abs() / (g2.abs() + 1)).max()), 1e-2, lambda: f"gradient {hist[-6:]}: {g} {g2}")
        if rng.random() < 0.3:
            p.set_device("cpu")
        st["answers"] += 1
    elif op == "refused":
        for bad in ("no number", None, [], object()):
            try:
                mat.get_epsilon(bad)
            except Exception:  # noqa: BLE001
                mon.event("refused")
    elif op == "hessian":
        w = torch.tensor(rng.choice(pool), dtype=dt, requires_grad=True)
        e = mat.get_epsilon(w)
        if e.requires_grad:
            g = torch.autograd.grad(e.real.sum(), w, create_graph=True)[0]
            if g.requires_grad:
                torch.autograd.grad(g, w, allow_unused=True)
        check(st, e, w, mon, hist, torch)
