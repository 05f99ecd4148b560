"""C15: derivatives of the special functions are right, in value and in backward."""
import math

import mpmath as mp

from miemon import sf
from miemon.checks.c14 import KINDS

PROPERTY = "C15"
RULE = (
    "case = function x maximum order x arguments (as in C14, also exactly zero and real-typed) x layout of the leaf "
    "(contiguous, strided, transposed, expanded over a new axis, computed) x cotangent (dense complex, single order, "
    "expanded, real, imaginary); the derivative values and the backward result are compared with the exact complex derivative "
    "conj(f') g summed over orders (its real part for real leaves); non-trivial when an expected gradient is non-zero"
)
ASSUMPTIONS = [
    "reference: mpmath values of f', f'' from the defining differential equation",
    "domain as in C14, |Im z| <= 4 for the torch recurrences; close to a zero of some psi_n the torch-native "
    "recurrences lose digits in the gradient: tolerance scaled with the inverse distance, below 1e-8 not judged (known finding)",
    "the scipy-backed functions are documented as once differentiable: second differentiation is not claimed",
]
TECHNIQUE = "runtime monitoring: exact-derivative oracle over observed backward passes with generated cotangents"
C = 200.0


def generate(rng, tier):
    per = 72 if tier == "quick" else 700
    cases = []
    for name in sf.FUN:
        for j in range(per):
            N = rng.choice([1, 1, 2, 3, 5, 8, 12, 20] + ([35, 60] if tier == "thorough" or j % 4 == 0 else []))
            m = rng.choice([1, 1, 2, 4, 6])
            k = rng.choice(KINDS)
            mixed = rng.random() < 0.5
            z = [sf.argument(rng, rng.choice(KINDS) if mixed else k, N, imhi=4.0) for _ in range(m)]
            if name in sf.SCIPY:
                z = [v * (1 + 3e-14) for v in z]
            if name in ("sph_jn", "sph_jn_der", "sph_jn_torch") and rng.random() < 0.3:
                z[rng.randrange(m)] = 0.0 + 0.0j
            if rng.random() < 0.04:  # long arguments
                N, z = min(N, 8), z * rng.choice([40, 130])
                m = len(z)
            shape, how = sf.layout(rng, m)
            cases.append(dict(
                kind="backward", family=name, N=N, z=[[v.real, v.imag] for v in z], shape=shape,
                leaf=rng.choice(["plain", "plain", "strided", "transposed", "expanded", "computed", "noncontig_leaf"]),
                dtype="f" if all(v.imag == 0 for v in z) and rng.random() < 0.6 else "c",
                cot=rng.choice(["dense", "dense", "single", "expanded", "imag", "real", "transposed"]), seed=rng.randrange(10**6),
                outs=rng.choice(["all", "first", "last"])))
    for j in range(3 * per):
        N = rng.choice([1, 2, 3, 7, 20])
        m = rng.choice([1, 2, 6])
        shape, how = sf.layout(rng, m)
        z = [sf.argument(rng, rng.choice(["real", "small", "lossy", "gain"]), N) for _ in range(m)]
        cases.append(dict(kind="f_der", N=N, z=[[v.real, v.imag] for v in z], shape=shape, how=how, seed=rng.randrange(10**6),
                          dtype="c", nform=rng.choice(["int", "tensor"])))
    cases.append(dict(id="torch-bessel-zero", kind="backward", family="psi_torch", N=12, z=[[21.42848697211536, 0.0]], shape=[1],
                      leaf="plain", dtype="c", cot="dense", seed=1, outs="first"))
    return cases


def cotangent(kind, shape, gen, cplx):
    import torch

    dt = torch.complex128 if cplx else torch.float64
    if kind == "single":
        g = torch.zeros(shape, dtype=dt)
        k = int(torch.randint(0, shape[0], (1,), generator=gen))
        g[k] = torch.randn(shape[1:], dtype=dt, generator=gen)
        return g
    if kind == "expanded":
        return torch.randn((1,) * len(shape), dtype=dt, generator=gen).expand(shape)
    if kind == "transposed":
        return torch.randn(shape[::-1], dtype=dt, generator=gen).permute(*range(len(shape) - 1, -1, -1))
    g = torch.randn(shape, dtype=dt, generator=gen)
    if cplx and kind in ("imag", "real"):
        return (1j if kind == "imag" else 1) * g.real.to(dt)
    return g


def make_leaf(leaf, zs, shape, dt):
    """(leaf, argument, function mapping d/d(argument) to d/d(leaf))."""
    import torch

    z = sf.tensor(zs, shape, "plain", dt)
    if leaf == "strided":
        b = torch.zeros(tuple(z.shape) + (3,), dtype=dt)
        b[..., 1] = z
        b = b.requires_grad_(True)
        return b, b[..., 1], lambda d: torch.stack((torch.zeros_like(d), d, torch.zeros_like(d)), -1)
    if leaf == "transposed" and z.ndim >= 2:
        b = z.transpose(0, -1).contiguous().requires_grad_(True)
        return b, b.transpose(0, -1), lambda d: d.transpose(0, -1)
    if leaf == "expanded":
        b = z.clone().requires_grad_(True)
        return b, b.unsqueeze(0).expand((2,) + tuple(z.shape)), lambda d: d.sum(0)
    if leaf == "computed":
        b = z.clone().requires_grad_(True)
        return b, 2.0 * (0.5 * b), lambda d: d
    if leaf == "noncontig_leaf" and z.ndim >= 2:
        b = z.transpose(0, -1).contiguous().transpose(0, -1).requires_grad_(True)
        return b, b, lambda d: d
    b = z.clone().requires_grad_(True)
    return b, b, lambda d: d


def run(case, mon):
    import torch

    if case["kind"] == "f_der":
        return f_der(case, mon)
    name, N = case["family"], case["N"]
    zs = [complex(*v) for v in case["z"]]
    dt = torch.float64 if case["dtype"] == "f" else torch.complex128
    if any(not sf.in_domain(name, N, v) for v in zs):
        zs = [v if sf.in_domain(name, N, v) else complex(1.3 + 0.1 * i) for i, v in enumerate(zs)]
        if any(not sf.in_domain(name, N, v) for v in zs):
            return mon.event("outside_documented_range")
    leaf, z, back = make_leaf(case["leaf"], zs, case["shape"], dt)
    before = leaf.detach().clone()
    out = sf.call(name, N, z)
    if out is None:
        return mon.event("function_not_offered")
    spec = sf.FUN[name]
    if case["outs"] != "all":
        i = 0 if case["outs"] == "first" else -1
        out, spec = [out[i]], [spec[i]]
    gen = torch.Generator().manual_seed(case["seed"])
    gs = [cotangent(case["cot"], tuple(o.shape), gen, o.is_complex()) for o in out]
    # keep overflowing values out of the loss: cotangent zero there
    R = {}
    zl = [complex(v) for v in z.detach().reshape(-1)]
    for v in zl:
        if v != 0 and v not in R:
            R[v] = sf.Radial(N, v)
    for r in R.values():
        if max(abs(r.get(q, 3)[N]) for q, _ in spec if q[0] != "D") > mp.mpf("1e290") if spec[0][0][0] != "D" else False:
            return mon.event("derivative_outside_double_range")
    if "id" not in case and name.endswith(("_torch", "_rec")) and any(nearness(r) > 1e8 for r in R.values()):
        return mon.event("within_1e-8_of_a_zero_of_psi")
    exp, tol = [mp.mpc(0)] * len(zl), [mp.mpf(0)] * len(zl)
    masks = []
    for (ref, d), o, g in zip(spec, out, gs):
        gf = g.reshape(N + 1, -1)
        mask = torch.ones(gf.shape)
        vals = o.detach().reshape(N + 1, -1)
        for i, v in enumerate(zl):
            if v == 0:
                for k, e in enumerate(sf.origin("j", d + 1, N)):
                    exp[i] += mp.conj(mp.mpc(e)) * mp.mpc(complex(gf[k, i]))
                    tol[i] += mp.mpf("1e-8") * abs(complex(gf[k, i]))
                continue
            r = R[v]
            with mp.workdps(r.dps):
                first, second = r.get(ref, d + 1), None
                near = nearness(r)
                for k in range(N + 1):
                    s = sf.scale(r, name, ref, d + 1, k) + (k + 2) / abs(v) * sf.scale(r, name, ref, d, k)
                    s *= 1 if "id" in case else near if name.endswith(("_torch", "_rec")) or name.startswith("pena") else 1
                    big = abs(r.get("xi")[k]) if name.startswith("pena") else 0
                    if not (s < mp.mpf("1e140")) or big > mp.mpf("1e120"):
                        mask[k, i] = 0.0
                        mon.event("value_outside_range")
                        continue
                    if ref[0] == "D" and s * sf.EPS * C > abs(first[k]):
                        mask[k, i] = 0.0
                        mon.event("at_pole")
                        continue
                    gk = mp.mpc(complex(gf[k, i]))
                    exp[i] += mp.conj(first[k]) * gk
                    tol[i] += C * sf.EPS * (1 + 0.02 * abs(v)) * s * abs(gk)
                    if d == 1:
                        sv = sf.scale(r, name, ref, d, k)
                        got = complex(vals[k, i])
                        err = float(abs(mp.mpc(got) - r.get(ref, 1)[k])) if math.isfinite(abs(got)) else math.nan
                        mon.le("derivative_value:" + name, err, float(1e3 * sf.EPS * (1 + 0.02 * abs(v)) * sv) + 1e-280,
                               lambda: f"{name} n={k}/{N} z={v} got {got} exact {mp.nstr(r.get(ref, 1)[k], 12)}")
        masks.append(mask.reshape(g.shape))
    gs = [g * m for g, m in zip(gs, masks)]
    (grad,) = torch.autograd.grad(out, leaf, grad_outputs=gs)
    mon.ok("argument_unchanged", torch.equal(leaf.detach(), before), name)
    mon.ok("gradient_type", grad.dtype == leaf.dtype and grad.shape == leaf.shape, lambda: f"{name} {grad.dtype} {tuple(grad.shape)}")
    E = torch.tensor([complex(e) for e in exp], dtype=torch.complex128).reshape(z.shape)
    T = torch.tensor([float(t) + 1e-280 for t in tol], dtype=torch.float64).reshape(z.shape)
    if dt == torch.float64:
        E = E.real
    E, T = back(E), back(T)
    for got, e, t, zz in zip(grad.reshape(-1).tolist(), E.reshape(-1).tolist(), T.reshape(-1).tolist(), leaf.detach().reshape(-1).tolist()):
        err = abs(got - e) if math.isfinite(abs(got)) else math.nan
        key = "backward_at_zero" if "id" in case else "backward_origin" if zz == 0 and case["leaf"] != "strided" else "backward:" + name
        mon.le(key, err, t + 1e-280, lambda: f"{name} N={N} z={zz} grad {got} exact {e}")
        mon.hit(abs(e) > 1e-280)


def nearness(r):
    """Inverse relative distance to the closest zero of a psi_n (loss of digits of ratio recurrences)."""
    # beyond the turning point psi'/psi ~ n/z is no zero
    x = abs(r.z)
    m = mp.mpf(1)
    for n, (p, q) in enumerate(zip(r.get("psi"), r.get("psi", 1))):
        if n < x + 2 and p != 0:
            m = max(m, abs(q / p))
    return m


def f_der(case, mon):
    import torch
    from pymiediff import special as s

    N = case["N"]
    zs = [complex(*v) for v in case["z"]]
    z = sf.tensor(zs, case["shape"], case["how"], torch.complex128).detach()
    gen = torch.Generator().manual_seed(case["seed"])
    zz = torch.atleast_1d(z)
    f = torch.randn((N + 1,) + tuple(zz.shape), dtype=torch.complex128, generator=gen)
    f0, z0 = f.clone(), z.clone()
    zl, fl = z.clone().requires_grad_(True), f.clone().requires_grad_(True)
    df = s.f_der(N if case["nform"] == "int" else torch.tensor(N), zl, fl)
    n = torch.arange(N + 1).reshape((-1,) + (1,) * zz.ndim)
    prev = torch.cat((torch.zeros_like(f[:1]), f[:-1]))
    ex = prev - (n + 1) / zz * f
    ex[0] = -f[1]
    if not mon.ok("shape", df.shape == f.shape, f"{df.shape}"):
        return
    mon.le("f_der_value", float((df - ex).abs().max()), 1e-13 * float(((n + 1) / zz.abs() * f.abs()).max() + f.abs().max()), f"N={N}")
    g = torch.randn(df.shape, dtype=torch.complex128, generator=gen)
    gz, gf = torch.autograd.grad(df, (zl, fl), grad_outputs=g)
    w = ((n + 1) / zz**2 * f).conj() * g
    w[0] = 0
    ez = w.sum(0).reshape(z.shape)
    ef = -((n + 1) / zz).conj() * g
    ef[0] = 0
    ef[:-1] += g[1:]
    # order 0 contributes to df[1] through f_0, df[0] = -f_1
    ef[1] -= g[0]
    mon.le("f_der_backward_z", float((gz - ez).abs().max()), 1e-12 * float(w.abs().max() * (N + 1)) + 1e-280, f"N={N} z={zs}")
    mon.le("f_der_backward_f", float((gf - ef).abs().max()), 1e-12 * float(ef.abs().max()), f"N={N} z={zs}")
    mon.ok("argument_unchanged", torch.equal(z, z0) and torch.equal(f, f0), "f_der")
    mon.hit()
