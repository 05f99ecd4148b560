"""C14: special functions have the right values."""
import math

import mpmath as mp

from miemon import sf

PROPERTY = "C14"
RULE = (
    "case = function x maximum order x set of complex arguments (real, small, tiny, large, lossy, imaginary, gain, at "
    "zeros of j_n, at multiples of pi, at the turning point, integers, the origin) x argument shape and memory layout x "
    "argument dtype; every returned order is compared with arbitrary-precision values in units of the rounding error that "
    "the conditioning of the function allows; plus Wronskian and three-term recurrence monitors on the returned values; "
    "non-trivial when at least one compared value is representable and non-zero"
)
ASSUMPTIONS = [
    "reference: mpmath Riccati-Bessel functions (continued fraction + recurrence) at >= 36 digits",
    "domain: |z| >= 1e-9 except where the origin is regular; |Im z| <= 12 (up to +60 for the scipy-backed and Pena functions, <= 4 for the upward recurrences of the torch Neumann/Hankel functions); values inside the double range; "
    "sph_jn_torch_via_rec and D1n_torch only inside their documented recurrence depth",
    "scipy returns nan for complex arguments at the isolated doubles where J_{n+1/2} rounds to zero: avoided for the scipy-backed functions",
    "unfinished helpers without a usable result (Ql_torch, psi_torch_logdir, xi_torch_logdir) are not part of the property",
]
TECHNIQUE = "runtime monitoring: arbitrary-precision reference oracle and identity monitors over returned special-function values"
KINDS = ["real", "small", "tiny", "large", "lossy", "imag", "gain", "jzero", "kpi", "turn", "integer", "nearreal", "opaque"]
C = 1e3  # allowed multiple of the conditioned rounding error


def generate(rng, tier):
    per = 72 if tier == "quick" else 800
    cases = []
    for name in list(sf.FUN) + ["pena_Q_n", "D3n_torch"]:
        for j in range(per):
            N = rng.choice([1, 1, 2, 3, 5, 8, 12, 20, 35] + ([60, 100] if tier == "thorough" or j % 4 == 0 else []))
            m = rng.choice([1, 1, 2, 4, 6, 8])
            mixed = rng.random() < 0.4
            k = rng.choice(KINDS)
            if name.startswith("pena") and rng.random() < 0.25:
                k = "opaque"
                N = max(N, rng.choice([5, 20, 40, 70]))
            z = [sf.argument(rng, rng.choice(KINDS) if mixed else k, N) for _ in range(m)]
            if name in sf.SCIPY:  # scipy itself returns nan at the doubles where J_{n+1/2} rounds to zero
                z = [v * (1 + 3e-14) for v in z]
            if rng.random() < 0.05:  # long arguments
                N, z = min(N, 12), z * rng.choice([40, 130, 300])
                m = len(z)
            shape, how = sf.layout(rng, m)
            c = dict(kind="sf", family=name, N=N, z=[[v.real, v.imag] for v in z], shape=shape, how=how,
                     nform=rng.choice(["int", "tensor", "tensor1"]),
                     dtype="f" if all(v.imag == 0 for v in z) and rng.random() < 0.5 else "c")
            if name in ("sph_jn", "sph_jn_der", "sph_jn_torch") and rng.random() < 0.3:
                c["z"][0] = [0.0, 0.0]
            if rng.random() < 0.1 and name not in ("psi", "chi", "xi", "psi_torch", "chi_torch", "xi_torch", "D3n_torch"):
                c["N"] = 0
            if name == "pena_Q_n":
                c["f"] = [10 ** rng.uniform(-3, -0.01) if rng.random() < 0.8 else 1 - 10 ** rng.uniform(-9, -2) for _ in z]
            cases.append(c)
    return cases


def run(case, mon):
    import torch

    name, N = case["family"], case["N"]
    zs = [complex(*v) for v in case["z"]]
    dt = torch.float64 if case["dtype"] == "f" else torch.complex128
    n = {"int": N, "tensor": torch.tensor(N), "tensor1": torch.tensor([N])}[case["nform"]]
    z = sf.tensor(zs, case["shape"], case["how"], dt)
    z0 = z.clone()
    if name == "pena_Q_n":
        return q_ratio(case, mon, n, N, zs, z)
    if name == "D3n_torch":
        return d3(case, mon, N, zs, z)
    if any(not sf.in_domain(name, N, v) for v in zs):
        zs = [v if sf.in_domain(name, N, v) else complex(1.3 + 0.1 * i) for i, v in enumerate(zs)]
        z = sf.tensor(zs, case["shape"], case["how"], dt)
        z0 = z.clone()
        if any(not sf.in_domain(name, N, v) for v in zs):
            return mon.event("outside_documented_range")
        # the recurrence depth depends on the largest argument: all of them are in range
    out = sf.call(name, n, z)
    if out is None:
        return mon.event("function_not_offered")
    mon.ok("argument_unchanged", torch.equal(z, z0), name)
    want = (N + 1,) + tuple(torch.atleast_1d(z).shape)
    R = {}
    for (ref, d), o in zip(sf.FUN[name], out):
        if not mon.ok("shape", tuple(o.shape) == want, lambda: f"{name} shape {tuple(o.shape)} expected {want}"):
            continue
        mon.ok("result_complex", o.is_complex() or dt == torch.float64, f"{name} {o.dtype}")
        vals = o.detach().reshape(N + 1, -1).to(torch.complex128)
        for i, v in enumerate(zs):
            if v == 0:
                ex = sf.origin("j", d, N)
                for k in range(N + 1):
                    mon.le("origin", abs(complex(vals[k, i]) - complex(ex[k])), 1e-9, f"{name} n={k} z=0")
                continue
            if v not in R:
                R[v] = sf.Radial(N, v)
            r = R[v]
            with mp.workdps(r.dps):
                ex = r.get(ref, d)
                for k in range(N + 1):
                    s = sf.scale(r, name, ref, d, k)
                    if not (s < mp.mpf("1e290")):
                        mon.event("value_outside_double_range")
                        continue
                    if name.startswith("pena_psi_zeta") and abs(r.get("xi")[k]) > mp.mpf("1e150"):
                        mon.event("saturated_range")
                        continue
                    if ref[0] == "D" and s * sf.EPS * C > abs(r.get(ref)[k]) and abs(r.get(ref)[k]) > 1e6:
                        mon.event("at_pole")
                        continue
                    tol = float(C * sf.EPS * s) * slack(name, v) + 1e-280
                    got = complex(vals[k, i])
                    err = float(abs(mp.mpc(got.real, got.imag) - ex[k])) if math.isfinite(abs(got)) else math.nan
                    mon.le("value:" + name, err, tol, lambda: f"{name} out {ref},{d} n={k}/{N} z={v} got {got} exact {mp.nstr(ex[k], 12)}")
                    if abs(ex[k]) > 1e-290:
                        mon.hit()
        if d == 0 and ref in ("j", "y", "h", "psi", "chi", "xi") and N >= 2:
            three_term(mon, name, ref, vals, zs, R)


def slack(name, z):
    return 1.0 + 0.02 * abs(z)


def three_term(mon, name, ref, vals, zs, R):
    """f_{n-1} + f_{n+1} = (2n+1)/z f_n, relative to the largest term: no reference needed."""
    for i, v in enumerate(zs):
        if v == 0 or abs(v) < 1e-8:
            continue
        f = [complex(q) for q in vals[:, i]]
        for k in range(1, len(f) - 1):
            t = (2 * k + 1) / v * f[k]
            big = max(abs(t), abs(f[k - 1]), abs(f[k + 1]))
            if not (1e-250 < big < 1e150):
                continue
            extra = 0.0
            if ref in ("h", "xi") and v in R and v.imag > 0 and not name.startswith("pena"):
                extra = float(sum(abs(R[v].get(q)[j]) for q in (("j", "y") if ref == "h" else ("psi", "chi")) for j in (k - 1, k, k + 1)))
            if ref in ("j", "psi"):  # each term only known relative to the size of the function
                extra = big
            mon.le("three_term:" + ref, abs(f[k - 1] + f[k + 1] - t), 1e-8 * (big + extra) * (1 + abs(v) / 100), f"{name} n={k} z={v}")


def q_ratio(case, mon, n, N, z2s, z2):
    import torch
    from pymiediff import special as s

    z1s = [v * f for v, f in zip(z2s, case["f"])]
    ok = [sf.in_domain("pena_D1_n", N, v) and abs(v) > 1e-8 for v in z1s]
    if not all(ok):
        z1s = [v if o else complex(0.4 + 0.1 * i) for i, (v, o) in enumerate(zip(z1s, ok))]
        z2s = [v if o else complex(0.9 + 0.1 * i) for i, (v, o) in enumerate(zip(z2s, ok))]
    z1, z2 = (sf.tensor(v, case["shape"], case["how"], torch.complex128) for v in (z1s, z2s))
    z1s, z2s = [complex(v) for v in z1.reshape(-1)], [complex(v) for v in z2.reshape(-1)]
    D = [s.pena_D1_n(n, z1), s.pena_D1_n(n, z2), s.pena_D3_n(n, z1), s.pena_D3_n(n, z2)]
    o = s.pena_Q_n(n, z1, z2, z1.abs(), z2.abs(), *D)
    want = (N + 1,) + tuple(torch.atleast_1d(z1).shape)
    if not mon.ok("shape", tuple(o.shape) == want, lambda: f"pena_Q_n {tuple(o.shape)} {want}"):
        return
    vals = o.reshape(N + 1, -1)
    for i, (a, b) in enumerate(zip(z1s, z2s)):
        ra, rb = sf.Radial(N, a, extra=20), sf.Radial(N, b, extra=20)
        with mp.workdps(max(ra.dps, rb.dps)):
            for k in range(N + 1):
                q = [r.get(f)[k] for r in (ra, rb) for f in ("psi", "xi")]
                if q[2] == 0 or max(abs(q[1]), abs(q[3])) > mp.mpf("1e150"):
                    mon.event("saturated_range")
                    continue
                ex = q[0] / q[1] / (q[2] / q[3])
                cond = (1 + abs(a) * abs(ra.get("psi", 1)[k] / q[1]) / abs(q[2] / q[3])) if q[0] == 0 else 1
                cond = cond + abs(a) * (abs(ra.get("Dpsi")[k]) + abs(ra.get("Dxi")[k])) + abs(b) * (abs(rb.get("Dpsi")[k]) + abs(rb.get("Dxi")[k]))
                if cond > 1e9:
                    mon.event("at_pole")
                    continue
                got = complex(vals[k, i])
                err = float(abs(mp.mpc(got.real, got.imag) - ex)) if math.isfinite(abs(got)) else math.nan
                mon.le("value:pena_Q_n", err, float(C * sf.EPS * abs(ex) * cond) + 1e-280, lambda: f"Q n={k} z1={a} z2={b} got {got} exact {mp.nstr(ex, 12)}")
                if abs(ex) > 1e-280:
                    mon.hit()


def d3(case, mon, N, zs, z):
    """D3n_torch: D1n_torch's companion; product recurrence, so only off the real axis and below its depth."""
    import torch
    from pymiediff import special as s

    if not (hasattr(s, "D3n_torch") and hasattr(s, "D1n_torch")):
        return mon.event("function_not_offered")
    zs = [v if sf.in_domain("D1n_torch", N, v) and 0.3 < v.imag < 6 and N < abs(v) + 12 else complex(1.3 + 0.2 * i, 0.7) for i, v in enumerate(zs)]
    N = min(N, 10)
    if any(not sf.in_domain("D1n_torch", N, v) for v in zs):
        return mon.event("outside_documented_range")
    z = sf.tensor(zs, case["shape"] or [1], case["how"], torch.complex128)
    D3, pz = s.D3n_torch(N, z, s.D1n_torch(N, z))
    for i, v in enumerate(zs):
        r = sf.Radial(N, v)
        with mp.workdps(r.dps):
            for k in range(N + 1):
                for nm, o, ex in (("D3", D3, r.get("Dxi")[k]), ("psixi", pz, r.get("psi")[k] * r.get("xi")[k])):
                    got = complex(o.reshape(N + 1, -1)[k, i])
                    mon.le("value:D3n_torch", float(abs(mp.mpc(got.real, got.imag) - ex) / abs(ex)), 1e-6, lambda: f"{nm} n={k} z={v} got {got} exact {mp.nstr(ex, 12)}")
                    mon.hit()
