"""C17: coordinate transforms, field transforms and interpolation are faithful."""
import math

import mpmath as mp

from miemon import sf

PROPERTY = "C17"
RULE = (
    "transforms: points (generic, exactly on every axis and coordinate plane, next to the axes, centre, scales 1e-100..1e100) x "
    "dtype x shape/layout: angles against exact arctangents, round trips both ways, gradients against the exact Jacobian; field "
    "transforms: complex spherical components with broadcasting against the exact rotation, norm and inner product; "
    "interpolation: sorted/unsorted/irregular tables x real/complex values x dtype mixes x queries (nodes, inside, outside) x "
    "shape/layout against exact rational interpolation, with gradients; non-trivial when at least one value is non-zero"
)
ASSUMPTIONS = [
    "documented safeguard: the polar angle keeps a distance sqrt(20 eps) from the axis (7e-8 rad in double precision); "
    "azimuth is arbitrary on the polar axis and in the centre; gradients are judged away from axis and centre "
    "(findings axis-gradient / origin-gradient of C06)",
    "tables have distinct abscissae; derivatives of the interpolation are not judged at nodes",
]
TECHNIQUE = "runtime monitoring: exact reference oracle and round-trip / Jacobian monitors over the returned values"
EPS = {"float64": 2.220446049250313e-16, "float32": 1.1920929e-07}


def point(rng, single):
    u = rng.random()
    lim = 12 if single else 100
    R = 10 ** rng.uniform(-lim, lim) if rng.random() < 0.3 else 10 ** rng.uniform(-3, 4)
    v = [rng.gauss(0, 1) for _ in range(3)]
    if u < 0.2:
        v = rng.choice([[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1]])
    elif u < 0.4:
        v[rng.randrange(3)] = rng.choice([0.0, 0.0, -0.0])
    elif u < 0.55:
        v = rng.choice([[1.0, 0.0, 0.0], [-1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, -1.0, 0.0], [0.0, 0.0, 1.0], [0.0, 0.0, -1.0]])
        d = 10 ** rng.uniform(-9, -1)
        v = [a + (d * rng.choice([-1, 1]) if a == 0 and rng.random() < 0.7 else 0) for a in v]
    elif u < 0.6:
        v = [0.0, 0.0, 0.0]
    return [float(R * q) for q in v]


def generate(rng, tier):
    q = tier == "quick"
    cases = []
    for j in range(600 if q else 8000):
        dt = rng.choice(["float64", "float64", "float32"])
        m = rng.choice([1, 4, 6, 12])
        shape, how = sf.layout(rng, m)
        cases.append(dict(kind="points", dt=dt, pts=[point(rng, dt == "float32") for _ in range(m)], shape=shape, how=how))
    for j in range(300 if q else 4000):
        dt = rng.choice(["float64", "float64", "float32"])
        m = rng.choice([1, 4, 6, 12])
        shape, how = sf.layout(rng, m)
        th = [rng.choice([rng.uniform(1e-3, math.pi - 1e-3), math.pi / 2, rng.uniform(1e-3, 0.1)]) for _ in range(m)]
        ph = [rng.choice([rng.uniform(-math.pi, math.pi), 0.0, math.pi / 2, -math.pi / 2, rng.uniform(-3.1415, 3.1415)]) for _ in range(m)]
        cases.append(dict(kind="fields", dt=dt, r=[10 ** rng.uniform(-3, 4) for _ in range(m)], th=th, ph=ph, shape=shape, how=how,
                          lead=rng.choice([[], [], [2], [3, 1], [2, 2]]), real=rng.random() < 0.2, seed=rng.randrange(10**6)))
    for j in range(600 if q else 8000):
        n = rng.choice([1, 2, 3, 5, 17, 60, rng.choice([1, 2, 300, 1100])])
        u = rng.random()
        if u < 0.3:
            xs = [i * 2.5 for i in range(n)]
        elif u < 0.6:
            xs = [rng.uniform(200, 2000) for _ in range(n)]
        else:
            x = rng.uniform(-5, 5)
            xs = []
            for _ in range(n):
                xs.append(x)
                x += 10 ** rng.uniform(-5, 2)
        dx = rng.choice(["float64", "float64", "float32", "int64"])
        if rng.random() < 0.12:  # spacing below single precision resolution
            x, xs, dx = rng.uniform(300, 2000), [], "float64"
            for _ in range(n):
                xs.append(x)
                x += 10 ** rng.uniform(-9, -4)
        if dx == "int64":
            xs = [round(x) for x in xs]
        if dx == "float32":
            import struct

            xs = [struct.unpack("f", struct.pack("f", x))[0] for x in xs]
        xs = sorted(set(xs))
        n = len(xs)
        order = rng.choice(["up", "down", "shuffled"])
        if order == "down":
            xs.reverse()
        elif order == "shuffled":
            rng.shuffle(xs)
        dy = rng.choice(["complex128", "complex128", "float64", "complex64", "float32"])
        ys = [[rng.gauss(0, 3), rng.gauss(0, 3) if dy.startswith("c") else 0.0] for _ in range(n)]
        m = rng.choice([1, 4, 6, 12])
        shape, how = sf.layout(rng, m)
        lo, hi = min(xs), max(xs)
        w = (hi - lo) or 1.0
        dq = rng.choice(["float64", "float64", "float32", "int64"])
        qs = []
        for _ in range(m):
            s = rng.sample(xs, 1)[0]
            qs.append(rng.choice([rng.uniform(lo, hi), rng.uniform(lo, hi), float(s), lo - w * 10 ** rng.uniform(-4, 3), hi + w * 10 ** rng.uniform(-4, 3),
                                  lo + w * 10 ** rng.uniform(-12, -3), hi]))
        if dq == "int64":
            qs = [float(round(v)) for v in qs]
        cases.append(dict(kind="interp", x=xs, y=ys, q=qs, dx=dx, dy=dy, dq=dq, shape=shape, how=how, xhow=rng.choice(["plain", "strided"])))
    for j in range(10 if q else 100):
        cases.append(dict(kind="detach", m=rng.choice([1, 3]), grad=rng.random() < 0.7, n=rng.choice([0, 1, 3]), item=rng.random() < 0.5, seed=rng.randrange(10**6)))
    return cases


def run(case, mon):
    {"points": points, "fields": fields, "interp": interp, "detach": detach}[case["kind"]](case, mon)


def points(case, mon):
    import torch
    from pymiediff import helper as h

    dt = getattr(torch, case["dt"])
    eps = EPS[case["dt"]]
    clampd = math.sqrt(22 * eps)
    comp = [sf.tensor([p[i] for p in case["pts"]], case["shape"], case["how"], dt) for i in range(3)]
    keep = [c.clone() for c in comp]
    leaf = [c.clone().requires_grad_(True) for c in comp]
    r, th, ph = h.transform_xyz_to_spherical(*comp)
    mon.ok("inputs_unchanged", all(torch.equal(a, b) for a, b in zip(comp, keep)))
    if not mon.ok("shape", all(tuple(o.shape) == tuple(case["shape"]) and o.dtype == dt for o in (r, th, ph)), lambda: str([(o.shape, o.dtype) for o in (r, th, ph)])):
        return
    back = h.transform_spherical_to_xyz(r, th, ph)
    J = []
    for o in h.transform_xyz_to_spherical(*leaf):
        J.append([g.reshape(-1).tolist() if g is not None else [0.0] * len(case["pts"]) for g in torch.autograd.grad(o.sum(), leaf, allow_unused=True, retain_graph=True)])
    flat = [c.reshape(-1).tolist() for c in comp]
    R, T, P = (o.reshape(-1).tolist() for o in (r, th, ph))
    B = [o.reshape(-1).tolist() for o in back]
    for i in range(len(case["pts"])):
        x, y, z = (mp.mpf(c[i]) for c in flat)
        rho, rr = mp.sqrt(x * x + y * y), mp.sqrt(x * x + y * y + z * z)
        where = f"{[c[i] for c in flat]} {case['dt']}"
        mon.le("radius", abs(R[i] - float(rr)), 8 * eps * float(rr), where)
        mon.ok("angle_range", 0 <= T[i] <= math.pi * (1 + eps) and abs(P[i]) <= math.pi * (1 + eps), lambda: f"{where} {T[i]} {P[i]}")
        if rr == 0:
            mon.event("origin")
            mon.le("round_trip", max(abs(b[i]) for b in B), 0.0, where)
            continue
        theta = mp.atan2(rho, z)
        st = float(rho / rr)
        near = st < 3 * clampd
        tolt = clampd * 1.5 if near else 40 * eps / st
        mon.le("polar_angle", abs(T[i] - float(theta)), tolt, where)
        mon.le("round_trip", max(abs(b[i] - c[i]) for b, c in zip(B, flat)), float(rr) * (tolt + 12 * eps), where)
        if rho == 0:
            mon.event("on_axis")
            mon.ok("gradient_finite", all(math.isfinite(g[i]) for row in J for g in row), where)
            mon.hit()
            continue
        phi = float(mp.atan2(y, x))
        d = abs(P[i] - phi)
        mon.le("azimuth", min(d, abs(d - 2 * math.pi)), 4 * eps, lambda: f"{where} got {P[i]} exact {phi}")
        if rho < (1e-16 if case["dt"] == "float32" else 1e-130):
            mon.event("rho_squared_underflows")
            continue
        ex = [[x / rr, y / rr, z / rr],
              [x * z / (rr**2 * rho), y * z / (rr**2 * rho), -rho / rr**2],
              [-y / rho**2, x / rho**2, mp.mpf(0)]]
        for a in range(3):
            for b in range(3):
                g, e = J[a][b][i], float(ex[a][b])
                mon.ok("gradient_finite", math.isfinite(g), lambda: f"d{'r theta phi'.split()[a]}/d{'xyz'[b]} at {where}: {g}")
                if a == 1 and near:
                    continue
                s = float({0: 1, 1: 1 / rr, 2: 1 / rho}[a])
                mon.le("gradient", abs(g - e), 60 * eps * s / (st * st if a == 1 else 1), lambda: f"d{'r theta phi'.split()[a]}/d{'xyz'[b]} at {where}: {g} vs {e}")
        mon.event("near_axis" if near else "generic")
        mon.hit()


def fields(case, mon):
    import torch
    from pymiediff import helper as h

    dt = getattr(torch, case["dt"])
    eps = EPS[case["dt"]]
    cdt = dt if case["real"] else {"float64": torch.complex128, "float32": torch.complex64}[case["dt"]]
    sh = tuple(case["shape"])
    r, th, ph = (sf.tensor(case[k], case["shape"], case["how"], dt) for k in ("r", "th", "ph"))
    gen = torch.Generator().manual_seed(case["seed"])
    full = tuple(case["lead"]) + sh
    F, G = ([torch.randn(full, dtype=cdt, generator=gen) for _ in range(3)] for _ in range(2))
    out = h.transform_fields_spherical_to_cartesian(*F, r, th, ph)
    out2 = h.transform_fields_spherical_to_cartesian(*G, r, th, ph)
    want = tuple(torch.broadcast_shapes(full, sh))
    if not mon.ok("shape", all(tuple(o.shape) == want for o in out), lambda: f"{[tuple(o.shape) for o in out]} {want}"):
        return
    n2 = lambda q: sum((v.abs() ** 2).double() for v in q)  # noqa: E731
    mon.le("norm", float(((n2(out) - n2(F)) / n2(F)).abs().max()), 40 * eps, "")
    ip = lambda a, b: sum((u.conj() * v) for u, v in zip(a, b))  # noqa: E731
    mon.le("inner_product", float((ip(out, out2) - ip(F, G)).abs().max() / (n2(F).max() * n2(G).max()) ** 0.5), 40 * eps, "")
    m = len(case["r"])
    Ff = [f.reshape(-1, m).to(torch.complex128).tolist() for f in F]
    O = [o.reshape(-1, m).to(torch.complex128).tolist() for o in out]
    T, P = th.reshape(-1).tolist(), ph.reshape(-1).tolist()
    for i in range(m):
        st, ct, sp, cp = math.sin(T[i]), math.cos(T[i]), math.sin(P[i]), math.cos(P[i])
        M = [[st * cp, st * sp, ct], [ct * cp, ct * sp, -st], [-sp, cp, 0.0]]
        for l in range(len(O[0])):
            a = [f[l][i] for f in Ff]
            for c in range(3):
                e = sum(a[k] * M[k][c] for k in range(3))
                mon.le("rotation", abs(O[c][l][i] - e), 20 * eps * max(abs(v) for v in a), lambda: f"component {'xyz'[c]} th={T[i]} ph={P[i]}")
    # radial unit vector is the direction of the point; inverse round trip
    one, zero = torch.ones_like(r), torch.zeros_like(r)
    e_r = h.transform_fields_spherical_to_cartesian(one, zero, zero, r, th, ph)
    xyz = h.transform_spherical_to_xyz(r, th, ph)
    mon.le("radial_unit_vector", float(max((a * r - b).abs().div(r).max() for a, b in zip(e_r, xyz))), 8 * eps, "")
    r2, th2, ph2 = h.transform_xyz_to_spherical(*xyz)
    clampd = math.sqrt(22 * eps)
    st = torch.sin(th.double())
    ok = st > 3 * clampd
    mon.le("inverse_radius", float((r2 / r - 1).abs().max()), 20 * eps, "")
    if bool(ok.any()):
        mon.le("inverse_theta", float(((th2 - th).abs() * st)[ok].max()), 60 * eps, "")
        d = (ph2 - ph).abs()
        d = torch.minimum(d, (d - 2 * math.pi).abs())
        mon.le("inverse_phi", float((d * st)[ok].max()), 40 * eps, "")
    mon.hit()


def interp(case, mon):
    import torch
    from pymiediff import helper as h

    X = sf.tensor(case["x"], [len(case["x"])], case["xhow"], getattr(torch, case["dx"]))
    Y = sf.tensor([complex(*v) for v in case["y"]], [len(case["x"])], case["xhow"], getattr(torch, case["dy"]))
    Q = sf.tensor(case["q"], case["shape"], case["how"], getattr(torch, case["dq"]))
    keep = [t.clone() for t in (Q, X, Y)]
    out = h.interp1d(Q, X, Y)
    mon.ok("inputs_unchanged", all(torch.equal(a, b) for a, b in zip((Q, X, Y), keep)))
    if not mon.ok("shape", tuple(out.shape) == tuple(case["shape"]), lambda: f"{tuple(out.shape)} {case['shape']}"):
        return
    mon.ok("complex", out.is_complex() == Y.is_complex(), str(out.dtype))
    xs, ys = X.double().tolist(), Y.to(torch.complex128).tolist()
    tab = sorted(zip(xs, ys), key=lambda t: t[0])
    grads = None
    if Q.is_floating_point():
        lq, ly = Q.clone().requires_grad_(True), Y.clone().requires_grad_(True)
        o = h.interp1d(lq, X, ly)
        grads = torch.autograd.grad((o.real if o.is_complex() else o).sum(), (lq, ly))
    eps = max(EPS["float32"] if "32" in case["dq"] or "32" in case["dx"] or case["dq"] == case["dx"] == "int64" else 0,
              EPS["float32"] if case["dy"] in ("complex64", "float32") else 0, EPS["float64"])
    yw = [0.0] * len(tab)
    node = False
    for i, (q, v) in enumerate(zip(Q.double().reshape(-1).tolist(), out.to(torch.complex128).reshape(-1).tolist())):
        slope, cond = 0.0, 0.0
        if q <= tab[0][0]:
            e = tab[0][1]
            yw[0] += 1
            mon.event("below" if q < tab[0][0] else "node")
            node |= q == tab[0][0]
        elif q >= tab[-1][0]:
            e = tab[-1][1]
            yw[-1] += 1
            mon.event("above" if q > tab[-1][0] else "node")
            node |= q == tab[-1][0]
        else:
            k = max(j for j in range(len(tab)) if tab[j][0] <= q)
            (x0, y0), (x1, y1) = tab[k], tab[k + 1]
            w = float((mp.mpf(q) - x0) / (mp.mpf(x1) - x0))
            e = y0 * (1 - w) + y1 * w
            yw[k] += 1 - w
            yw[k + 1] += w
            slope = ((y1 - y0) / (x1 - x0)).real
            cond = abs(y1 - y0) / (x1 - x0) * max(abs(x0), abs(x1), abs(q))
            if q == x0:
                node = True
                slope = None
            mon.event("node" if q == x0 else "inside")
        s = max(abs(t) for _, t in tab)
        mon.le("interpolated_value", abs(v - e), 8 * eps * s + (eps * cond if eps > 1e-10 else 4e-16 * cond), lambda: f"at {q}: {v} exact {e}; table {tab[:4]}..")
        if grads is not None:
            g = float(grads[0].reshape(-1)[i])
            mon.ok("gradient_finite", math.isfinite(g), lambda: f"d/dx at {q}: {g}")
            if slope is not None and min(abs(q - t[0]) for t in tab) > 4 * eps * abs(q):
                allow = 40 * eps * (abs(slope) + 2 * s / gap(tab, q) + cond / gap(tab, q))
                mon.le("gradient_query", abs(g - slope), allow, lambda: f"slope at {q}: {g} exact {slope}")
    if grads is not None:
        pos = {x: w for (x, _), w in zip(tab, yw)}
        mon.le("gradient_values", max(abs(complex(g) - pos[x]) for g, x in zip(grads[1].tolist(), xs)),
               len(case["q"]) * eps * (20 + 4 * max(abs(t[0]) for t in tab) / max(1e-300, min([b[0] - a[0] for a, b in zip(tab, tab[1:])] or [1.0]))), "")
    mon.hit()


def gap(tab, q):
    """Width of the interval around a query (outside the table: distance to it)."""
    if q <= tab[0][0]:
        return tab[0][0] - q
    if q >= tab[-1][0]:
        return q - tab[-1][0]
    k = max(j for j in range(len(tab)) if tab[j][0] <= q)
    return tab[k + 1][0] - tab[k][0]


def detach(case, mon):
    import numpy as np
    import torch
    from pymiediff import helper as h

    g = torch.Generator().manual_seed(case["seed"])
    m = 1 if case["item"] and case["n"] else case["m"]
    ts = [torch.randn((m,), dtype=torch.float64, generator=g, requires_grad=case["grad"]) for _ in range(max(1, case["n"]))]
    if case["n"] == 0:
        out = h.detach_tensor(ts[0])
        mon.ok("detached", isinstance(out, np.ndarray) and out.tolist() == ts[0].tolist())
    else:
        out = h.detach_tensor(tuple(ts), item=case["item"])
        ok = isinstance(out, tuple) and len(out) == len(ts)
        for a, b in zip(out, ts):
            ok = ok and (a == b.item() if case["item"] else a.tolist() == b.tolist())
        mon.ok("detached", ok, lambda: str(out))
    mon.hit()
