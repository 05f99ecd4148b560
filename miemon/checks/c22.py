"""C22: Particle objects give the results of the functional interface, whatever happened to them before."""
import copy
import io
import contextlib
import math
import random
import warnings

from miemon import obs
from miemon.oracle import Sphere

PROPERTY = "C22"
RULE = (
    "histories: one to three particles built in random documented forms (layer permittivities of every layout, layer materials, legacy core or "
    "core/shell; numbers, tensors, constants, database materials, user-defined materials, shared material objects) undergo 4..14 operations "
    "(the four observables with random spectra, containers, orders, backends, precisions, angles, positions and amplitudes; permittivities; printing; moving; "
    "copying; gradients; refused calls) in random order; each answer is compared with the functional interface called with independently "
    "evaluated permittivities, and attributes with what was given; non-trivial when at least two observables were compared"
)
ASSUMPTIONS = [
    "all singleton dimensions of result tensors are removed", "equality to 1e-12 (same arithmetic), finite numbers",
    "extinction additionally agrees with exact Mie theory to 1e-4 of its size (materials are stored in single precision; lossy layers)",
]
TECHNIQUE = "runtime monitoring: trace checker over recorded histories of object operations against a stateless model (the functional interface)"


def generate(rng, tier):
    n = 420 if tier == "quick" else 4000
    return [dict(kind="history", seed=rng.randrange(1 << 40), steps=rng.randint(4, 9 if tier == "quick" else 14), parts=rng.choice([1, 1, 2, 3])) for _ in range(n)]


DB = ("au", "si", "ag", "ge", "gaas", "sio2", "si3n4", "tio2")


def run(case, mon):
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        history(case, mon)


def user_material(n0, slope):
    """A material object written by a user: anything with get_epsilon and set_device."""
    import torch
    import pymiediff as pmd

    class Mine(pmd.materials.MaterialBase):
        __name__ = "user"

        def get_epsilon(self, wavelength):
            w = torch.as_tensor(wavelength).squeeze()
            return ((n0 + slope * w / 1000.0) ** 2).to(torch.complex64) + 0.1j

    return Mine()


class Spec:
    """What was given to the constructor, and an independent way to evaluate it."""

    def __init__(self, rng, shared):
        import numpy as np
        import torch
        import pymiediff as pmd

        M = pmd.materials
        self.form = rng.choice(["eps", "mats", "mats", "mats", "core", "shell"])
        L = dict(core=1, shell=2).get(self.form) or rng.choice([1, 1, 2, 3, 4])
        self.L = L
        R = rng.uniform(5, 160)
        f = sorted(rng.uniform(0.2, 0.9) for _ in range(L - 1))
        r = [round(R * v, 3) for v in f + [1.0]]
        for i in range(1, L):
            r[i] = max(r[i], round(r[i - 1] * 1.03, 3))
        self.spectral = None
        kw = {}

        def number():
            n, k = round(rng.uniform(1.3, 3.5), 2), round(rng.uniform(0.05, 1), 2)
            u = rng.random()
            if rng.random() < 0.12:
                # gain and metals
                v = rng.choice([complex(n, -round(k / 10, 3)), complex(round(rng.uniform(0.05, 0.9), 2), round(rng.uniform(1.5, 5), 2))])
                return v if rng.random() < 0.6 else torch.tensor(v, dtype=rng.choice([torch.complex64, torch.complex128]))
            if u < 0.5:
                return complex(n, k)
            if u < 0.6:
                return n
            if u < 0.68:
                return rng.choice([2, 3])
            if u < 0.76:
                return np.float64(n)
            if u < 0.82:
                return np.float32(n)
            return torch.tensor(complex(n, k), dtype=rng.choice([torch.complex64, torch.complex128]))

        def material():
            """(argument, evaluator from fresh objects)"""
            u = rng.random()
            if u < 0.5:
                v = number()
                # a number is a refractive index
                sq = torch.as_tensor(v) ** 2 if isinstance(v, torch.Tensor) else v**2
                return v, lambda w: const(sq, w)
            if u < 0.6:
                e = complex(rng.uniform(-8, 6), rng.uniform(0.3, 2))
                return M.MatConstant(e), lambda w: const(e, w)
            if u < 0.7:
                a, b = rng.uniform(1.4, 2.5), rng.uniform(0.1, 0.6)
                return user_material(a, b), lambda w: user_material(a, b).get_epsilon(w)
            name = rng.choice(DB)
            if name in shared and rng.random() < 0.7:
                obj = shared[name]
            else:
                obj = shared[name] = M.MatDatabase(name)
            return obj, lambda w: M.MatDatabase(name).get_epsilon(w)

        def const(e, w):
            e = torch.as_tensor(e, dtype=torch.complex64)
            w = torch.as_tensor(w).squeeze()
            return e.expand(w.shape).clone()

        self.given = None
        if self.form == "eps":
            lay = rng.choice(["L", "1L", "LK", "1LK", "1L1"])
            self.nk = rng.choice([1, 2, 3, 4]) if lay in ("LK", "1LK") else None
            if lay == "LK" and self.nk == L == 1:
                lay = "1LK"
            shape = {"L": (L,), "1L": (1, L), "LK": (L, self.nk), "1LK": (1, L, self.nk), "1L1": (1, L, 1)}[lay]
            if lay == "LK" and L == 1 and self.nk == 1:
                shape = (1, 1)
            g = torch.Generator().manual_seed(rng.randrange(1 << 30))
            e = torch.complex(1.5 + 6 * torch.rand(shape, generator=g, dtype=torch.float64), 0.1 + 2 * torch.rand(shape, generator=g, dtype=torch.float64))
            if rng.random() < 0.2:
                e = e.to(torch.complex64)
            self.eps_given = e
            kw["eps_layers"] = rng.choice([e, e.clone(), e.numpy(), e.tolist()])
            if isinstance(kw["eps_layers"], list):
                self.eps_given = torch.as_tensor(kw["eps_layers"])
            self.mats = None
        else:
            self.nk = None
            pairs = [material() for _ in range(L)]
            if rng.random() < 0.2 and L > 1:
                pairs[-1] = pairs[0]
            self.mats = pairs
        dt = rng.choice([torch.float64, torch.float64, torch.float32])
        if self.form in ("eps", "mats"):
            kw["r_layers"] = rng.choice([torch.tensor(r, dtype=dt), r, torch.tensor(r, dtype=dt).numpy(), tuple(r)])
            self.r = torch.as_tensor(kw["r_layers"]).clone()
            if self.form == "mats":
                kw["mat_layers"] = [a for a, _ in pairs] if rng.random() < 0.8 else tuple(a for a, _ in pairs)
        else:
            one = lambda v: rng.choice([v, torch.tensor(v, dtype=dt), torch.tensor(v, dtype=torch.float64), np.float64(v)])
            a = one(r[0])
            kw["r_core"], kw["mat_core"] = a, pairs[0][0]
            vals = [a]
            if L == 2:
                b = one(r[1])
                if torch.as_tensor(b).dtype != torch.as_tensor(a).dtype:
                    b = type(a)(r[1]) if not isinstance(a, torch.Tensor) else torch.tensor(r[1], dtype=a.dtype)
                kw["r_shell"], kw["mat_shell"] = b, pairs[1][0]
                vals.append(b)
            self.r = torch.stack([torch.as_tensor(v) for v in vals]).clone()
        if rng.random() < 0.75:
            u = rng.random()
            if u < 0.7:
                v = rng.choice([1.0, 1.33, 1.5, 1, 2, np.float64(1.2), torch.tensor(1.4), torch.tensor(1.5, dtype=torch.float64), 1.3 + 0j])
                kw["mat_env"] = v
                sq = v**2
                self.env = (v, lambda w: const(sq, w))
            elif u < 0.9:
                kw["mat_env"] = M.MatConstant(1.77)
                self.env = (kw["mat_env"], lambda w: const(1.77, w))
            else:
                class Host(M.MatConstant):
                    def get_epsilon(self, wavelength):
                        w = torch.as_tensor(wavelength).squeeze()
                        return (1.4 + 0.1 * w / 1000.0).to(torch.complex64)
                kw["mat_env"] = Host(2.0)
                self.env = (kw["mat_env"], lambda w: (1.4 + 0.1 * torch.as_tensor(w).squeeze() / 1000.0).to(torch.complex64))
        else:
            self.env = (1.0, lambda w: const(1.0, w))
        if rng.random() < 0.2:
            kw["device"] = rng.choice(["cpu", torch.device("cpu")])
        self.kw = kw

    def permittivities(self, k0):
        import torch

        wl = 2 * torch.pi / torch.as_tensor(k0)
        env = self.env[1](wl)
        if self.mats is None:
            return self.eps_given, env
        return torch.stack([f(wl) for _, f in self.mats], dim=0), env

    def spectrum(self, rng):
        import numpy as np
        import torch

        nk = self.nk or rng.choice([1, 1, 2, 3, 4, 5])
        wl = [rng.uniform(350, 1100) for _ in range(nk)]
        if rng.random() < 0.3:
            wl[-1] = 500.0
        k = torch.tensor([2 * math.pi / w for w in wl], dtype=rng.choice([torch.float64, torch.float64, torch.float32]))
        if nk == 1 and rng.random() < 0.5:
            return rng.choice([k[0], float(k[0]), k])
        u = rng.random()
        return k.tolist() if u < 0.15 else k.numpy() if u < 0.3 else k


def near(a, b):
    """Same shape and numbers to rounding."""
    import torch

    if a.shape != b.shape:
        return math.inf
    if a.numel() == 0:
        return 0.0
    a, b = a.detach(), b.detach()
    if not a.is_floating_point() and not a.is_complex():
        return 0.0 if bool((a == b).all()) else math.inf
    d = (a - b).abs()
    bad = ~(d <= 1e300)
    if bool(bad.any()):
        return math.inf
    top = float(b.abs().max())
    return float(d.max()) / top if top else float(d.max())


def history(case, mon):
    import torch
    import pymiediff as pmd

    rng = random.Random(case["seed"])
    shared = {}
    objs = []
    for _ in range(case["parts"]):
        s = Spec(rng, shared)
        keep = {k: copy.deepcopy(v) if isinstance(v, (list, tuple)) and not any(hasattr(q, "get_epsilon") for q in v) else v for k, v in s.kw.items()}
        try:
            p = pmd.Particle(**s.kw)
        except Exception as e:
            mon.ok("accepted", False, f"{sorted((k, type(v).__name__) for k, v in s.kw.items())}: {type(e).__name__}: {e}")
            return
        objs.append((p, s))
        attributes(p, s, mon)
    done = []
    for step in range(case["steps"]):
        i = rng.randrange(len(objs))
        p, s = objs[i]
        what = rng.choice(["coef", "cs", "far", "near", "cs", "far", "near", "coef", "perm", "print", "move", "copy", "grad", "grad", "refuse", "attr"])
        done.append(f"{i}:{what}")
        try:
            getattr(Ops, what)(rng, objs, i, mon, " ".join(done))
        except Exception as e:
            import traceback

            mon.ok("no_exception", False, f"{' '.join(done)} {s.form} {sorted((k, str(type(v).__name__)) for k, v in s.kw.items())}: {type(e).__name__}: {e} {traceback.format_exc()[-300:]}")
            return
        mon.event("op_" + what)
    for p, s in objs:
        attributes(p, s, mon)
    mon.event("form_" + objs[0][1].form)
    if mon.ev["compared"] >= 2:
        mon.hit()


def attributes(p, s, mon):
    import torch

    mon.ok("radii", p.r_layers.shape == s.r.shape and bool((p.r_layers.detach() == s.r).all()) and p.r_layers.dtype == s.r.dtype, lambda: f"{p.r_layers} given {s.r}")
    mon.ok("radii", bool(p.r_c == s.r[0]) and ((p.r_s is None) if s.L == 1 else bool(p.r_s == s.r[-1])), lambda: f"r_c {p.r_c} r_s {p.r_s} given {s.r}")
    wl = torch.tensor([450.0, 720.0])
    if s.mats is not None:
        if mon.ok("materials", len(p.mat_layers) == s.L and p.eps_layers is None, lambda: str(p.mat_layers)):
            for m, (a, f) in zip(p.mat_layers, s.mats):
                if hasattr(a, "get_epsilon"):
                    mon.ok("materials", m is a, lambda: f"{m} is not the given object {a}")
                mon.le("material_values", near(m.get_epsilon(wl), f(wl)), 1e-12, lambda: f"{m.get_epsilon(wl)} {f(wl)} given {a}")
            mon.ok("materials", p.mat_c is p.mat_layers[0] and (p.mat_s is (p.mat_layers[-1] if s.L > 1 else None)), lambda: f"{p.mat_c} {p.mat_s}")
    else:
        mon.ok("materials", p.mat_layers is None and p.eps_layers.shape == s.eps_given.shape and bool((p.eps_layers == s.eps_given).all()) and p.eps_layers.dtype == s.eps_given.dtype, lambda: f"{p.eps_layers} {s.eps_given}")
    if hasattr(s.env[0], "get_epsilon"):
        mon.ok("environment", p.mat_env is s.env[0], lambda: str(p.mat_env))
    mon.le("environment_value", near(p.mat_env.get_epsilon(wl), s.env[1](wl)), 1e-12, lambda: f"{p.mat_env.get_epsilon(wl)} {s.env[1](wl)}")


class Ops:
    """Operations of a history; each compares what it observes with the stateless model."""

    @staticmethod
    def options(rng, s, name):
        kw = {}
        if rng.random() < 0.6:
            kw["n_max"] = rng.choice([1, 2, 3, 5, 8])
        if s.L <= 2 and rng.random() < 0.3:
            kw["backend"] = rng.choice(["pena", "torch", "scipy"])
            if kw["backend"] != "pena":
                kw["n_max"] = rng.choice([1, 2, 3, 4])
                if rng.random() < 0.5:
                    kw["which_jn"] = rng.choice(["recurrence", "ratios"])
        if rng.random() < 0.15:
            kw["precision"] = rng.choice(["single", "double"])
        if name == "coef" and kw.get("backend") in ("torch", "scipy") and rng.random() < 0.5:
            kw["return_internal"] = True
        if name == "near" and rng.random() < 0.5:
            kw["E_0"] = rng.choice([2.0, 1j, 0.5 - 1j])
        return kw

    @staticmethod
    def observe(rng, objs, i, mon, log, name):
        import numpy as np
        import torch
        import pymiediff as pmd

        p, s = objs[i]
        k0 = s.spectrum(rng)
        kw = Ops.options(rng, s, name)
        R = float(s.r[-1])
        extra = {}
        if name == "far":
            n = rng.choice([1, 3, 5])
            th = [rng.uniform(0, 6.3) for _ in range(n)]
            extra["theta"] = rng.choice([torch.tensor(th, dtype=torch.float64), torch.tensor(th), th, np.array(th), np.array(th, dtype=np.float32)]) if n > 1 or rng.random() < 0.5 else th[0]
        if name == "near":
            n = rng.choice([1, 2, 4])
            g = torch.Generator().manual_seed(rng.randrange(1 << 30))
            d = torch.randn((n, 3), generator=g, dtype=torch.float64)
            d = d / d.norm(dim=1, keepdim=True) * R * (0.1 + 2.5 * torch.rand((n, 1), generator=g, dtype=torch.float64))
            extra["r_probe"] = rng.choice([d, d.float(), d.tolist(), d.numpy()])
        before = copy.deepcopy((k0, extra))
        f = dict(coef=p.get_mie_coefficients, cs=p.get_cross_sections, far=p.get_angular_scattering, near=p.get_nearfields)[name]
        got = f(k0, **extra, **kw) if rng.random() < 0.7 else f(k0=k0, **extra, **kw)
        eps, env = s.permittivities(k0)
        g = dict(coef=pmd.multishell.mie_coefficients, cs=pmd.multishell.cross_sections, far=pmd.multishell.angular_scattering, near=pmd.multishell.nearfields)[name]
        ex = {k: torch.as_tensor(v) for k, v in extra.items()}
        ref = g(k0=torch.as_tensor(k0), r_layers=s.r, eps_layers=eps, eps_env=env, **ex, **kw)
        mon.ok("result_keys", sorted(got) == sorted(ref), lambda: f"{sorted(set(got) ^ set(ref))} {log}")
        tol = 1e-12 if kw.get("precision") != "single" else 1e-6
        for k in ref:
            if k not in got:
                continue
            if isinstance(ref[k], torch.Tensor):
                want = ref[k].squeeze()
                if isinstance(got[k], torch.Tensor) and bool(torch.isnan(want.abs()).any() if want.is_floating_point() or want.is_complex() else False):
                    mon.event("nan_in_reference")
                    continue
                mon.le("equals_functional", near(torch.as_tensor(got[k]), want), tol, lambda: f"{name} {k}: {got[k].reshape(-1)[:4] if hasattr(got[k], 'reshape') else got[k]} shape {tuple(got[k].shape)} functional {want.reshape(-1)[:4]} shape {tuple(want.shape)}; {s.form} L={s.L} {kw} history {log}")
                mon.ok("dtype", got[k].dtype == want.dtype, lambda: f"{name} {k}: {got[k].dtype} {want.dtype}")
            else:
                mon.ok("equals_functional_other", got[k] == ref[k], lambda: f"{k} {got[k]} {ref[k]}")
        a = torch.as_tensor(before[0]), torch.as_tensor(k0)
        mon.ok("arguments_unmodified", bool((a[0] == a[1]).all()) and all(bool((torch.as_tensor(before[1][q]) == torch.as_tensor(extra[q])).all()) for q in extra), log)
        mon.event("compared")
        if name == "cs" and "n_max" not in kw and kw.get("backend", "pena") == "pena" and kw.get("precision") != "single":
            Ops.exact(s, k0, eps, env, got, mon, log)

    @staticmethod
    def exact(s, k0, eps, env, got, mon, log):
        import torch

        k = torch.atleast_1d(torch.as_tensor(k0)).double().tolist()
        E = eps.reshape(eps.shape[-2:]) if eps.ndim == 3 else eps
        if s.mats is None and s.nk is None:
            E = eps.reshape(-1)[:, None]
        E = E.reshape(s.L, -1).expand(s.L, len(k))
        env = env.reshape(-1).expand(len(k))
        q = torch.atleast_1d(got["cs_ext"])
        for j, kk in enumerate(k):
            e = [complex(E[l, j]) for l in range(s.L)]
            if min((v**0.5).imag for v in e) < 0.02:
                continue
            n = complex(env[j]).real
            x = kk * n**0.5 * float(s.r[-1])
            c = float(Sphere(kk, s.r.double().tolist(), e, n, int(x + 4.05 * x ** (1 / 3) + 4)).cross_sections()["ext"])
            mon.le("exact_extinction", abs(float(q[j]) - c) / c, 1e-4, lambda: f"{float(q[j])} exact {c}; {log}")
            mon.event("exact")

    coef = staticmethod(lambda rng, objs, i, mon, log: Ops.observe(rng, objs, i, mon, log, "coef"))
    cs = staticmethod(lambda rng, objs, i, mon, log: Ops.observe(rng, objs, i, mon, log, "cs"))
    far = staticmethod(lambda rng, objs, i, mon, log: Ops.observe(rng, objs, i, mon, log, "far"))
    near = staticmethod(lambda rng, objs, i, mon, log: Ops.observe(rng, objs, i, mon, log, "near"))

    @staticmethod
    def perm(rng, objs, i, mon, log):
        p, s = objs[i]
        k0 = s.spectrum(rng)
        eps, env = p.get_material_permittivities(k0)
        e, v = s.permittivities(k0)
        mon.le("permittivities", max(near(eps, e), near(env, v)), 1e-12, lambda: f"{eps} {env} expected {e} {v}; {log}")

    @staticmethod
    def print(rng, objs, i, mon, log):
        p, s = objs[i]
        t = repr(p)
        mon.ok("printed", isinstance(t, str) and str(s.L) in t and t == str(p), t)

    @staticmethod
    def move(rng, objs, i, mon, log):
        import torch

        p, s = objs[i]
        p.set_device(rng.choice(["cpu", torch.device("cpu")]))
        attributes(p, s, mon)

    @staticmethod
    def copy(rng, objs, i, mon, log):
        p, s = objs[i]
        if s.mats is not None or hasattr(s.env[0], "get_epsilon"):
            return  # identity of the given objects is part of the comparison
        objs[i] = (copy.deepcopy(p), s)

    @staticmethod
    def attr(rng, objs, i, mon, log):
        attributes(*objs[i], mon)

    @staticmethod
    def refuse(rng, objs, i, mon, log):
        import torch

        p, s = objs[i]
        k = s.spectrum(rng)
        try:
            rng.choice([
                lambda: p.get_cross_sections(k, backend="none"),
                lambda: p.get_mie_coefficients(k, n_max=0),
                lambda: p.get_nearfields(k, torch.ones((3, 2))),
                lambda: p.get_angular_scattering(k, torch.tensor([0.1]), wrong=1),
            ])()
        except Exception:
            mon.event("refused")

    @staticmethod
    def grad(rng, objs, i, mon, log):
        """Gradients of a particle are those of the functional interface."""
        import torch
        import pymiediff as pmd

        p, s = objs[i]
        k0 = torch.atleast_1d(torch.as_tensor(s.spectrum(rng))).double()
        r = s.r.double().clone().requires_grad_()
        kg = k0.clone().requires_grad_()
        kw = dict(s.kw)
        if s.form in ("eps", "mats"):
            kw["r_layers"] = r
        else:
            kw["r_core"] = r[0]
            if s.L == 2:
                kw["r_shell"] = r[1]
        eg = None
        if s.mats is None:
            eg = s.eps_given.clone().requires_grad_()
            kw["eps_layers"] = eg
        q = pmd.Particle(**kw)
        if rng.random() < 0.4:
            q.set_device("cpu")
        out = q.get_cross_sections(kg, n_max=3)
        leaves = (r, kg) + (() if eg is None else (eg,))
        g1 = torch.autograd.grad(out["cs_ext"].sum() + out["q_sca"].sum(), leaves, allow_unused=True)
        r2 = s.r.double().clone().requires_grad_()
        k2 = k0.clone().requires_grad_()
        eps, env = s.permittivities(k2)
        if eg is not None:
            eps = eps.clone().requires_grad_()
        ref = pmd.multishell.cross_sections(k2, r_layers=r2, eps_layers=eps, eps_env=env, n_max=3)
        g2 = torch.autograd.grad(ref["cs_ext"].sum() + ref["q_sca"].sum(), (r2, k2) + (() if eg is None else (eps,)), allow_unused=True)
        for a, b, n in zip(g1, g2, ("radii", "k0", "permittivities")):
            if mon.ok("gradient_present", (a is None) == (b is None), lambda: f"{n} {log}") and a is not None:
                mon.le("gradient", near(a, b), 1e-9, lambda: f"{n}: {a.tolist()} functional {b.tolist()}; {s.form} {log}")
