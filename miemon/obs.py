"""Uniform access to the observables of the functional interface, with named result axes."""
import math

# result key -> axes: n order, t multipole type, p particle, k wavelength, a angles, x positions, c component
AXES = {}
for _k in ("a_n", "b_n", "c_n", "d_n", "f_n", "g_n", "v_n", "w_n"):
    AXES[_k] = "npk"
for _k in ("cs_ext", "cs_sca", "cs_abs", "q_ext", "q_sca", "q_abs"):
    AXES[_k] = "pk"
    AXES[_k + "_multipoles"] = "tnpk"
for _k in ("S1", "S2", "i_unpol", "i_par", "i_per"):
    AXES[_k] = "pka"
for _k in ("E_s", "H_s", "E_t", "H_t", "E_i", "H_i"):
    AXES[_k] = "pkxc"
KEYS = dict(
    coef=("a_n", "b_n"),
    cs=("cs_ext", "cs_sca", "cs_abs", "q_ext", "q_sca", "q_abs", "cs_ext_multipoles", "cs_sca_multipoles",
        "cs_abs_multipoles", "q_ext_multipoles", "q_sca_multipoles", "q_abs_multipoles"),
    far=("S1", "S2", "i_unpol", "i_par", "i_per"),
    near=("E_s", "H_s", "E_t", "H_t", "E_i", "H_i"),
)
OBS = tuple(KEYS)


def call(obs, args, theta=None, xyz=None, raw=False, **kw):
    """Evaluate one observable; args are keyword arguments of the configuration."""
    import pymiediff as pmd

    a = dict(args, **kw)
    if obs == "coef":
        r = pmd.multishell.mie_coefficients(**a)
    elif obs == "cs":
        r = pmd.multishell.cross_sections(**a)
    elif obs == "far":
        r = pmd.multishell.angular_scattering(theta=theta, **a)
    else:
        r = pmd.multishell.nearfields(r_probe=xyz, **a)
    return r if raw else {k: r[k] for k in KEYS[obs]}


def take(res, p=None, k=None, a=None, x=None):
    """Index lists along the named axes (kept as axes)."""
    import torch

    out = {}
    for key, t in res.items():
        ax = AXES[key]
        for name, idx in (("p", p), ("k", k), ("a", a), ("x", x)):
            if idx is not None and name in ax:
                t = torch.index_select(t, ax.index(name), torch.as_tensor(idx))
        out[key] = t
    return out


def select(args, p=None, k=None):
    """The sub-configuration of some particles and wavelengths of full-layout arguments."""
    a = dict(args)
    if p is not None:
        a["r_layers"] = a["r_layers"][p]
        a["eps_layers"] = a["eps_layers"][p]
    if k is not None:
        a["k0"] = a["k0"][k]
        a["eps_layers"] = a["eps_layers"][:, :, k]
        a["eps_env"] = a["eps_env"][k]
    return a


def cs_floor(k0, r, env=1.0):
    """Rounding of cross sections: coefficients are differences of terms of size min(1, x^3)."""
    k = k0 * abs(env) ** 0.5
    x = min(1.0, k * r)
    f = 5e-14 * 2 * math.pi / k**2 * x**3
    return dict(cs=f, q=f / (math.pi * r**2))


def floors(cfg, p=None, i=None):
    """cs_floor of one element, or the largest one of the configuration (gen.config form)."""
    out = dict(cs=0.0, q=0.0)
    for pp, r in enumerate(cfg["r"]):
        for ii, k in enumerate(cfg["k0"]):
            if (p is None or pp == p) and (i is None or ii == i):
                f = cs_floor(k, r[-1], complex(*cfg["env"][ii]))
                out = {q: max(out[q], f[q]) for q in out}
    return out


def deviation(A, B, rel=1e-10, floor=1e-15):
    """{key: largest |A-B| / (rel * scale + floor)}; scale per entry, for vectors and sums that of the group."""
    import torch

    out = {}
    for key in A:
        a, b = A[key].detach(), B[key].detach()
        if a.shape != b.shape:
            out[key] = (math.inf, f"{key}: shapes {tuple(a.shape)} and {tuple(b.shape)}")
            continue
        if a.numel() == 0:
            continue
        ref = b.abs()
        fl = floor if not isinstance(floor, dict) else floor.get(key.split("_")[0], 3e-14)
        ax = AXES[key]
        if "c" in ax:
            ref = ref.amax(-1, keepdim=True)
        if "a" in ax:
            dims = tuple(range(2, a.ndim))
            if dims:
                ref = ref.amax(dims, keepdim=True)
        if "abs" in key:
            ref = B[key.replace("abs", "ext")].detach().abs()
        if key in ("E_s", "H_s", "E_t", "H_t"):
            ref = torch.maximum(ref, 1e-3 * B[key[0] + "_i"].detach().abs().amax(-1, keepdim=True))
        d = (a - b).abs() / (rel * ref + fl)
        bad = torch.isnan(d)
        if bool(bad.any()):
            same = (torch.isnan(a.abs()) & torch.isnan(b.abs()))
            d = torch.where(bad & ~same, torch.full_like(d, math.inf), torch.nan_to_num(d, nan=0.0, posinf=math.inf))
        j = int(d.argmax())
        out[key] = (float(d.reshape(-1)[j]), f"{key}[{j}]: {a.reshape(-1)[j]} vs {b.reshape(-1)[j]}")
    return out


def compare(mon, name, A, B, rel=1e-10, floor=1e-15, note=""):
    for key, (q, msg) in deviation(A, B, rel, floor).items():
        mon.le(name, q, 1.0, lambda: f"{note} {msg}")
