"""C11: materials reproduce the data and formulas they stand for."""
import glob
import math
import os
import random
import tempfile

from miemon.core import VERIF

PROPERTY = "C11"
RULE = (
    "case kinds: builtin (every database entry under random capitalisation, at, between, beside and far outside its data "
    "points), user_table / user_formula (generated refractiveindex.info files: unsorted rows, one row, n only or n and k, "
    "steep and negative-permittivity data, 1 to 4 resonances, several model entries), constant (scalars of every kind); "
    "each queried in several containers and orders; non-trivial when at least two values were compared"
)
ASSUMPTIONS = [
    "materials are single precision by design: tolerance 8e-7 of the largest permittivity involved plus the effect of a "
    "5e-7 relative error of the wavelength",
    "wavelength containers are scalars, 0-d, 1-D, (N,1) or (1,N); data without repeated wavelengths",
    "built-in entries are compared with the data files of the pinned commit (kept in miemon/refdata)",
]
TECHNIQUE = "runtime monitoring with an independent reader and evaluator of the dispersion data as oracle"
REF = os.path.join(VERIF, "miemon", "refdata")


# ------------------------------------------------------------------ oracle
class Table:
    def __init__(self, rows):
        rows = sorted(rows)
        self.w = [1000.0 * r[0] for r in rows]
        self.e = [complex(r[1], r[2]) ** 2 for r in rows]

    def nodes(self):
        return self.w

    def __call__(self, x):
        """value, slope, tolerance"""
        w, e = self.w, self.e
        u = 5e-7 * abs(x)
        if len(w) == 1 or x <= w[0] or x >= w[-1]:
            v = e[0] if x <= w[0] else e[-1]
            s = 0.0
            if len(w) > 1 and (abs(x - w[0]) < 2 * u or abs(x - w[-1]) < 2 * u):
                s = abs(e[1] - e[0]) / (w[1] - w[0]) + abs(e[-1] - e[-2]) / (w[-1] - w[-2])
            return v, 0.0 if s == 0 else None, 8e-7 * abs(v) + s * u
        i = max(j for j in range(len(w)) if w[j] <= x)
        t = (x - w[i]) / (w[i + 1] - w[i])
        s = (e[i + 1] - e[i]) / (w[i + 1] - w[i])
        tol = 8e-7 * max(abs(e[i]), abs(e[i + 1])) + abs(s) * u
        near = min(abs(x - w[i]), abs(x - w[i + 1])) < 4 * u
        if near:  # rounding may select the neighbouring interval
            for a in (i - 1, i + 1):
                if 0 <= a < len(w) - 1:
                    tol += abs(e[a + 1] - e[a]) / (w[a + 1] - w[a]) * u
        return e[i] * (1 - t) + e[i + 1] * t, None if near else s, tol


    def imag_tolerance(self, x):
        w, e = self.w, [v.imag for v in self.e]
        u = 5e-7 * abs(x)
        i = max([j for j in range(len(w)) if w[j] <= x], default=0)
        a, b = max(0, i - 1), min(len(w) - 1, i + 2)
        s = max([abs(e[j + 1] - e[j]) / (w[j + 1] - w[j]) for j in range(a, b)], default=0.0)
        return 2e-6 * max(abs(v) for v in e[a:b + 1]) + s * u + 1e-30


class Sellmeier:
    def __init__(self, coeff):
        self.c = coeff

    def nodes(self):
        return [1000.0 * abs(c) for c in self.c[2::2] if c]

    def __call__(self, x):
        w = x / 1000.0
        if any(abs(w - abs(self.c[i + 1])) < 1e-6 * w for i in range(1, len(self.c) - 1, 2)):
            return complex(math.nan), math.nan, math.inf
        v, s, m = 1.0 + self.c[0], 0.0, 1.0
        for i in range(1, len(self.c) - 1, 2):
            d = w * w - self.c[i + 1] ** 2
            v += self.c[i] * w * w / d
            m += abs(self.c[i] * w * w / d)
            s += self.c[i] * (2 * w / d - 2 * w**3 / d**2) / 1000.0
        cut = sum(abs(self.c[i]) * w * w * (w * w + self.c[i + 1] ** 2) / (w * w - self.c[i + 1] ** 2) ** 2
                  for i in range(1, len(self.c) - 1, 2))
        return complex(v), s, 8e-7 * (m + cut) + abs(s) * 5e-7 * x


def read(path):
    """Independent minimal reader of the data files (line based, no yaml)."""
    rows, coeff, kind, block = [], None, None, False
    for line in open(path, encoding="utf8"):
        t = line.strip()
        if t.startswith("- type:") and kind is None:
            kind = t.split(":", 1)[1].split()
        elif t.startswith("- type:"):
            break
        elif t.startswith("coefficients:") and coeff is None:
            coeff = [float(v) for v in t.split(":", 1)[1].split()]
        elif t.startswith("data:"):
            block = True
        elif block:
            f = t.strip('"').split()
            try:
                f = [float(v) for v in f]
            except ValueError:
                block = False
                continue
            if f:
                rows.append((f[0], f[1], f[2] if len(f) > 2 else 0.0))
    return Table(rows) if kind[0] == "tabulated" else Sellmeier(coeff)


# ------------------------------------------------------------------ cases
def generate(rng, tier):
    n = 36 if tier == "quick" else 400
    cases = []
    names = sorted(os.path.basename(p).split("_")[0] for p in glob.glob(os.path.join(REF, "*.yml")))
    for nm in names:
        for j in range(max(2, n // 4)):
            cases.append(dict(kind="builtin", name=nm, seed=rng.randrange(1 << 30)))
    for j in range(8 * n):
        cases.append(dict(kind="user_table", seed=rng.randrange(1 << 30)))
        cases.append(dict(kind="user_formula", seed=rng.randrange(1 << 30)))
    for j in range(3 * n):
        cases.append(dict(kind="constant", seed=rng.randrange(1 << 30)))
    cases.append(dict(kind="catalogue"))
    return cases


def run(case, mon):
    globals()["run_" + case["kind"]](case, mon)


def recap(rng, s):
    return rng.choice([s, s.lower(), s.upper(), "".join(rng.choice([c.lower(), c.upper()]) for c in s)])


def run_catalogue(case, mon):
    import pymiediff as pmd

    names = sorted(os.path.basename(p).split("_")[0].lower() for p in glob.glob(os.path.join(REF, "*.yml")))
    have = [s.lower() for s in pmd.materials.list_available_materials()]
    for s in names:
        mon.ok("catalogue", s in have, f"material '{s}' is missing")
    for s in have:
        m = pmd.materials.MatDatabase(s)
        v = m.get_epsilon(700.0)
        mon.ok("catalogue", v.numel() == 1 and math.isfinite(float(v.abs())), s)
        mon.ok("catalogue", m.__name__.lower() == s, f"{m.__name__} for {s}")
    mon.hit()


def run_builtin(case, mon):
    import pymiediff as pmd

    rng = random.Random(case["seed"])
    path = [p for p in glob.glob(os.path.join(REF, "*.yml")) if os.path.basename(p).split("_")[0] == case["name"]][0]
    ora = read(path)
    m = pmd.materials.MatDatabase(recap(rng, case["name"]))
    mon.ok("name", m.__name__ == case["name"], f"{m.__name__}")
    drive(ora, m, rng, mon, case["name"])


def number(rng, v):
    return rng.choice([repr(v), f"{v:.6f}", f"{v:.6E}", f"{v:.5g}"])


def run_user_table(case, mon):
    import pymiediff as pmd

    rng = random.Random(case["seed"])
    N = rng.choice([1, 2, 3, 5, 20, 80, 20, 80, 300, 1100])
    w = [rng.uniform(0.2, 2.0)]
    while len(w) < N:
        w.append(w[-1] * (1 + 10 ** (rng.uniform(-2.5, -0.4) if N < 300 else rng.uniform(-3.2, -2.2))))
    text = []
    rows = []
    cols = rng.choice([2, 3])
    steep = rng.random() < 0.3
    for x in w:
        n = rng.uniform(0.05, 5.0) if steep else 2.0 + 0.5 * math.sin(3 * x)
        k = (10 ** rng.uniform(-4, 1)) if steep else 0.1 * x
        s = [number(rng, x), number(rng, n)] + ([number(rng, k)] if cols == 3 else [])
        text.append(rng.choice([" ", "  ", "\t"]).join(s))
        rows.append([float(q) for q in s] + ([0.0] if cols == 2 else []))
    if len({r[0] for r in rows}) < len(rows):
        mon.inconclusive("generated wavelengths coincide after rounding")
        return
    order = list(range(N))
    if rng.random() < 0.4:
        rng.shuffle(order)
    ora = Table([rows[i] for i in order])
    body = "".join(f"        {text[i]}\n" for i in order)
    doc = "DATA:\n  - type: tabulated %s\n    data: |\n%s" % ("nk" if cols == 3 else "n", body)
    if rng.random() < 0.3:
        doc += "  - type: formula 1\n    wavelength_range: 0.2 5.0\n    coefficients: 0 9.0 0.1\n"
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, rng.choice(["my_mat.yml", "au.yml", "x.yaml"]))
        with open(path, "w") as f:
            f.write(doc)
        name = rng.choice(["", "Mine", "Au"])
        m = pmd.materials.MatDatabase(name=name, yaml_file=rng.choice([str, __import__("pathlib").Path])(path))
    mon.ok("name", m.__name__ == (name or os.path.splitext(os.path.basename(path))[0]), m.__name__)
    drive(ora, m, rng, mon, "user table")


def run_user_formula(case, mon):
    import pymiediff as pmd

    rng = random.Random(case["seed"])
    c = [rng.choice([0.0, rng.uniform(0, 2)])]
    for j in range(rng.randint(0, 4)):
        c += [rng.uniform(0.05, 4.0), rng.choice([rng.uniform(0.02, 0.25), rng.uniform(5, 30)])]
    sc = [number(rng, v) for v in c]
    c = [float(s) for s in sc]
    key = rng.choice(["range", "wavelength_range"])
    doc = f"DATA:\n  - type: formula 1\n    {key}: 0.3 4.5\n    coefficients: {' '.join(sc)}\n"
    if rng.random() < 0.2:
        doc += "  - type: tabulated nk\n    data: |\n        0.3 1 2\n        4 2 2\n"
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "f.yml")
        with open(path, "w") as f:
            f.write(doc)
        m = pmd.materials.MatDatabase(yaml_file=path)
    drive(Sellmeier(c), m, rng, mon, f"formula {c}")


def run_constant(case, mon):
    import numpy as np
    import torch
    import pymiediff as pmd

    rng = random.Random(case["seed"])
    v = rng.choice([complex(rng.uniform(-30, 20), 0), complex(rng.uniform(-30, 20), rng.uniform(0, 10)), complex(rng.randint(1, 12), 0)])
    forms = [v, np.complex128(v), torch.tensor(v), torch.tensor(v, dtype=torch.complex128), np.array(v)]
    if v.imag == 0:
        forms += [v.real, torch.tensor(v.real), torch.tensor(v.real, dtype=torch.float64), np.float32(v.real)]
        if v.real == int(v.real):
            forms += [int(v.real)]
    m = pmd.materials.MatConstant(rng.choice(forms))
    drive(lambda x: (v, 0.0, 8e-7 * abs(v)), m, rng, mon, "constant", nodes=[300.0, 1000.0])


# ------------------------------------------------------------------ monitor
def drive(ora, mat, rng, mon, what, nodes=None):
    import numpy as np
    import torch

    nodes = nodes or ora.nodes() or [500.0]
    pts = []
    for j in range(6):
        w = rng.choice(nodes)
        pts.append(w)
        pts.append(w * (1 + rng.choice([-1, 1]) * 10 ** rng.uniform(-6, -2)))
        if len(nodes) > 1:
            i = rng.randrange(len(nodes) - 1)
            pts.append(nodes[i] + (nodes[i + 1] - nodes[i]) * rng.random())
        pts.append(rng.uniform(200, 2000))
    pts += [nodes[0], nodes[-1], nodes[0] * rng.uniform(0.2, 0.99), nodes[-1] * rng.uniform(1.01, 5), 10 ** rng.uniform(1.5, 5)]
    pts = [p for p in pts if p > 0]
    rng.shuffle(pts)
    seen = 0

    def judge(x, got, how):
        nonlocal seen
        x = float(x)
        # the library works with the single precision wavelength
        v, s, tol = ora(float(np.float32(x)))
        if not (tol < 0.2 * (abs(v) + 1)):
            return  # at a pole
        seen += 1
        mon.le("value", abs(complex(got) - v), tol, lambda: f"{what} at {x} nm ({how}): {complex(got)} vs {v};")
        if isinstance(ora, Table):
            # absorption on its own scale
            lim = ora.imag_tolerance(float(np.float32(x)))
            mon.le("absorption", abs(complex(got).imag - v.imag), lim, lambda: f"{what} at {x} nm ({how}): {complex(got)} vs {v};")

    # one value at a time, many containers
    for x in pts[:10]:
        form = rng.choice([
            float, np.float64, lambda q: torch.tensor(q, dtype=torch.float64), torch.tensor, lambda q: torch.tensor([q]),
            lambda q: torch.tensor([q], dtype=torch.float64), lambda q: [q], lambda q: np.array([q]), lambda q: torch.tensor([[q]]),
        ])
        got = mat.get_epsilon(form(x))
        mon.ok("count", got.numel() == 1 and got.is_complex(), lambda: f"{what}: {tuple(got.shape)} {got.dtype} for one wavelength")
        judge(x, got.reshape(-1)[0], "single")
    ints = [int(x) for x in pts if x > 5][:3]
    for x in ints:
        judge(x, mat.get_epsilon(rng.choice([int, np.int64, torch.tensor])(x)).reshape(-1)[0], "integer")

    # batches: order, repetition, container, shape
    sizes = [rng.choice([2, 3, 5, 12]) for _ in range(4)]
    if rng.random() < 0.15:
        sizes.append(rng.choice([70, 150, 300, 520, 1100]))
    for m in sizes:
        xs = [rng.choice(pts) for _ in range(m)]
        if m > 12:  # a long spectrum of different wavelengths
            xs = [x * rng.uniform(0.5, 1.5) for x in xs]
        if rng.random() < 0.4:
            xs += xs[:2]
        if rng.random() < 0.3:
            xs = sorted(xs, reverse=rng.random() < 0.5)
        t = torch.tensor(xs, dtype=rng.choice([torch.float32, torch.float64]))
        q = rng.choice(["t", "np", "list", "col", "row", "strided"])
        arg = dict(t=t, np=t.numpy(), list=xs, col=t[:, None], row=t[None], strided=torch.stack((t, t * 0 + 1), -1)[:, 0])[q]
        keep = arg.clone() if torch.is_tensor(arg) else list(arg)
        got = mat.get_epsilon(arg)
        mon.ok("count", tuple(got.shape) == (len(xs),), lambda: f"{what}: shape {tuple(got.shape)} for {len(xs)} wavelengths as {q}")
        for x, g in zip(t.tolist(), got):
            judge(x, g, "batch " + q)
        mon.ok("input_unchanged", bool((torch.as_tensor(keep) == torch.as_tensor(arg)).all()), "wavelengths were modified")

    # gradients with respect to the wavelength
    for x in pts[:8]:
        dt = rng.choice([torch.float32, torch.float64])
        xx = float(np.float32(x))
        v, s, tol = ora(xx)
        if s is None or not (abs(s) * xx * 5e-7 < 0.1 * abs(v) and tol < 0.1 * (abs(v) + 1)):
            continue
        w = torch.tensor([xx, 777.0], dtype=dt, requires_grad=True)
        e = mat.get_epsilon(w)
        if not e.requires_grad:
            mon.ok("slope", abs(s) == 0.0, f"{what}: no gradient at {xx}")
            continue
        part = rng.choice(["real", "imag"])
        g = torch.autograd.grad(getattr(e[0], part), w)[0]
        want = getattr(complex(s), part)
        # rounding: change of the slope over a few ulp and the cancellation in its evaluation
        h = xx * 1e-6
        var = max(abs(complex(ora(xx + q)[1] or 0) - s) if ora(xx + q)[1] is not None else math.inf for q in (h, -h)) \
            if not isinstance(ora, Table) else 0.0
        if isinstance(ora, Table):
            gtol = 2e-6 * abs(s) + 8e-7 * slack(ora, xx)
        else:
            gtol = 1e-5 * abs(s) + 4 * var + 8e-7 * abs(v) / xx
        if isinstance(ora, Sellmeier):
            gtol += 20 * tol / xx * max([1.0] + [1 / max(abs(1 - (n / xx) ** 2), 1e-12) for n in nodes])
        if not math.isfinite(gtol):
            continue
        mon.le("slope", abs(float(g[0]) - want), gtol, lambda: f"{what}: d eps/d wavelength at {xx}: {float(g[0])} vs {want};")
        mon.ok("slope", float(g[1]) == 0.0, "gradient leaks to another wavelength")
        mon.event("gradients")
    mon.event("values", seen)
    mon.hit(seen > 1)


def slack(tab, x):
    """Size of the terms that cancel in the gradient of the interpolation."""
    w, e = tab.w, tab.e
    if x <= w[0] or x >= w[-1] or len(w) == 1:
        end = 0 if x <= w[0] else -1
        return 10 * abs(e[end]) / max(abs(x - w[end]), 1e-9 * x)
    i = max(j for j in range(len(w)) if w[j] <= x)
    d = w[i + 1] - w[i]
    return 10 * (abs(e[i]) + abs(e[i + 1])) / d + 2 * x / d * abs((e[i + 1] - e[i]) / d)
