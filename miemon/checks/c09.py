"""C09: equivalent descriptions of one physical system give equal results."""
import math
import random

from miemon import gen, obs
from miemon.checks.c04 import max_im, probes
from miemon.checks.c07 import tt

PROPERTY = "C09"
RULE = (
    "case = configuration x observable x transformation (split layers, coat with host material, rescale lengths, absorb "
    "the host into the wavevector, legacy core/shell form, mirrored positions and angles, index-matched particle, compositions of two); the "
    "results of both descriptions are compared entry by entry; non-trivial when the transformation changes an input"
)
ASSUMPTIONS = [
    "agreement to 1e-9 relative (legacy backends 1e-8), relaxed by the measured response to relative input changes of 1e-12 (conditioning)",
    "host normalisation only for real hosts",
]
TECHNIQUE = "runtime monitoring: metamorphic oracle over paired executions"
TRANS = ("split", "coat", "scale", "host", "mirror", "matched", "split+scale", "split+host", "coat+split", "coat+scale", "legacy",
         "legacy+scale")


def generate(rng, tier):
    n = 14 if tier == "quick" else 250
    cases = []
    for tr in TRANS:
        for o in obs.OBS:
            if tr == "mirror" and o in ("coef", "cs"):
                continue
            for j in range(2 * n if tr != "mirror" else 4 * n):
                np_, nk = rng.choice([(1, 1), (1, 1), (1, 2), (2, 1), (2, 2), (3, 2)])
                fam = rng.choice([f for f in gen.FAMILIES if not (f == "hostlossy" and (o == "cs" or "host" in tr))])
                if "legacy" in tr and rng.random() < 0.4:
                    fam = "thin"
                c = gen.config(rng, fam, np_=np_, nk=nk, lmax=2 if "legacy" in tr else 4,
                               xhi=8 if o == "near" else 30, dispersive_env=rng.random() < 0.5)
                if max_im(c) > 60 or ("legacy" in tr and len(c["r"][0]) > 2):
                    continue
                c.update(kind=tr, obs=o, seed=rng.randrange(1 << 30), at=None)
                if "split" in tr and rng.random() < 0.5:
                    c["at"] = rng.choice([0, len(c["r"][0]) - 1])
                    if nk > 1 and len(c["r"][0]) > 1 and c["at"] is not None:
                        # neighbouring layers of equal material at one wavelength only
                        l, i = max(1, c["at"]), rng.choice([0, nk - 1])
                        for p in range(np_):
                            c["eps"][p][l][i] = list(c["eps"][p][l - 1][i])
                        if max_im(c) > 60:
                            continue
                if tr == "matched":
                    for p in range(np_):
                        for l in range(len(c["eps"][p])):
                            c["eps"][p][l] = [list(e) for e in c["env"]]
                c["nmax"] = rng.choice([1, 2, 4, 8]) if o != "near" else None
                if o == "far":
                    c["theta"] = [rng.uniform(-4, 7), rng.uniform(0, 3), 0.0]
                if o == "near":
                    c["xyz"] = probes(rng, rng.choice(c["r"]), 8, far=4.0)
                c["backend"] = "pena"
                L = len(c["r"][0])
                if o != "near" and L + tr.count("split") + tr.count("coat") <= 2 and rng.random() < 0.5:
                    if gen.max_arg(c) < 15 and max_im(c) < 4 and gen.xmax(c) > 0.1:
                        c["backend"] = rng.choice(["torch", "scipy"])
                cases.append(c)
    return cases


class Desc:
    """One description: arguments plus how its results map to those of the original."""

    def __init__(self, a, xyz, theta, at=None):
        self.at = at
        self.a, self.xyz, self.theta = dict(a), xyz, theta
        self.cs = 1.0  # factor of cross sections
        self.H = 1.0  # factor of H (N_k0,)
        self.only = None

    def split(self, rng):
        import torch

        r, e = self.a["r_layers"], self.a["eps_layers"]
        l = rng.randrange(r.shape[1])
        if self.at is not None and self.at < r.shape[1]:
            l = self.at
        lo = r[:, l - 1] if l else torch.zeros_like(r[:, 0])
        f = rng.choice([rng.uniform(0.1, 0.9), rng.uniform(0.97, 0.9999), rng.uniform(1e-3, 0.05)])
        new = lo + f * (r[:, l] - lo)
        self.a["r_layers"] = torch.cat((r[:, :l], new[:, None], r[:, l:]), 1)
        self.a["eps_layers"] = torch.cat((e[:, : l + 1], e[:, l:]), 1)

    def coat(self, rng):
        import torch

        r, e, v = self.a["r_layers"], self.a["eps_layers"], self.a["eps_env"]
        f = rng.choice([1.001, 1.1, 1.5])
        self.a["r_layers"] = torch.cat((r, r[:, -1:] * f), 1)
        self.a["eps_layers"] = torch.cat((e, v.to(torch.promote_types(e.dtype, v.dtype)).view(1, 1, -1).expand(e.shape[0], 1, -1)), 1)
        self.only = {"E_t", "H_t", "E_i", "H_i", "cs_ext", "cs_sca", "cs_abs", "a_n", "b_n", "S1", "S2", "i_unpol",
                     "i_par", "i_per", "cs_ext_multipoles", "cs_sca_multipoles", "cs_abs_multipoles"}

    def scale(self, rng):
        s = 10 ** rng.uniform(-2, 2)
        for k in ("r_layers", "r_c", "r_s"):
            if k in self.a:
                self.a[k] = self.a[k] * s
        self.a["k0"] = self.a["k0"] / s
        if self.xyz is not None:
            self.xyz = self.xyz * s
        self.cs = self.cs * s**2

    def legacy(self, rng):
        r, e = self.a.pop("r_layers"), self.a.pop("eps_layers")
        form = (lambda v: v[0]) if len(e) == 1 and rng.random() < 0.5 else (lambda v: v)
        self.a.update(r_c=r[:, 0], eps_c=form(e[:, 0]))
        if r.shape[1] == 2:
            self.a.update(r_s=r[:, 1], eps_s=form(e[:, 1]))
        elif rng.random() < 0.5:
            self.a.update(r_s=r[:, 0].clone(), eps_s=form(e[:, 0]).clone())

    def host(self, rng):
        import torch

        v = self.a["eps_env"]
        n = v.real**0.5
        self.a["k0"] = self.a["k0"] * n
        self.a["eps_layers"] = self.a["eps_layers"] / v.view(1, 1, -1)
        self.a["eps_env"] = torch.ones_like(v)
        self.H = self.H / n.view(1, -1, 1, 1)


def run(case, mon):
    import torch

    rng = random.Random(case["seed"])
    o = case["obs"]
    args = gen.tensors(case)
    xyz = tt(case["xyz"]) if o == "near" else None
    theta = tt(case["theta"]) if o == "far" else None
    kw = dict(backend=case["backend"])
    if case["nmax"] is None:  # enough for a coating of 1.5 times the radius as well
        wide = dict(args, r_layers=args["r_layers"] * 1.5)
        kw["n_max"] = int(obs.call("coef", wide, raw=True)["n_max"])
    else:
        kw["n_max"] = case["nmax"]
    mon.hit()
    ref = obs.call(o, args, theta=theta, xyz=xyz, **kw)
    if case["kind"] == "mirror":
        return mirror(case, mon, o, args, theta, xyz, ref, kw)
    if case["kind"] == "matched":
        return matched(case, mon, o, args, theta, xyz, ref, kw)
    d = Desc(args, xyz, theta, case.get("at"))
    for tr in case["kind"].split("+"):
        getattr(d, tr)(rng)
    res = obs.call(o, d.a, theta=d.theta, xyz=d.xyz, **kw)
    if d.only is not None:
        ref, res = ({k: v for k, v in x.items() if k in d.only} for x in (ref, res))
    for k in ref:
        if k.startswith("cs_"):
            ref[k] = ref[k] * d.cs
        if k[0] == "H":
            ref[k] = ref[k] * d.H
    if o == "near":  # points of an interface may change sides
        keep = off_interface(case, xyz)
        ref, res = obs.take(ref, x=keep), obs.take(res, x=keep)
    check(mon, case, o, args, theta, xyz, kw, res, ref, case["kind"], d.cs)
    mon.event("pairs")


def off_interface(case, xyz):
    r = xyz.norm(dim=-1)
    radii = tt([q for rr in case["r"] for q in rr])
    ok = ((r[:, None] - radii).abs() > 1e-9 * radii).all(1)
    return [i for i in range(len(ok)) if bool(ok[i])]


def check(mon, case, o, args, theta, xyz, kw, res, ref, name, cs=1.0):
    import torch

    rel = 1e-9 if case["backend"] == "pena" else 1e-8
    fl = {k: v * (cs if k == "cs" else 1) * 100 for k, v in obs.floors(case).items()}
    dev = obs.deviation(res, ref, rel, fl)
    if any(not q <= 1 for q, _ in dev.values()):
        # how much do relative input changes of 1e-12 move the result? Perturbed results are
        # compared with each other: an exact coincidence in the inputs must not count as sensitivity
        extra = {}
        rngp = random.Random(1)
        base = None
        for _ in range(5):
            a = dict(args)
            for k in ("k0", "r_layers", "eps_layers"):
                g = torch.tensor([rngp.uniform(-1, 1) for _ in range(a[k].numel())], dtype=torch.float64).view(a[k].shape)
                a[k] = a[k] * (1 + 1e-12 * g)
            y = xyz
            moved = obs.call(o, a, theta=theta, xyz=y, **kw)
            if base is None:
                base = moved
                continue
            for k, (q, m) in obs.deviation(moved, base, rel, fl).items():
                if math.isfinite(q):
                    extra[k] = max(extra.get(k, 0.0), q)
        for k, (q, m) in dev.items():
            mon.le(name, q, 1.0 + 100 * extra.get(k, 0.0), m)
    else:
        for k, (q, m) in dev.items():
            mon.le(name, q, 1.0, m)


def mirror(case, mon, o, args, theta, xyz, ref, kw):
    import torch

    if o == "near":  # the spherical basis is singular on the axis (see C04): stay a little away
        keep = [j for j in range(len(xyz)) if float(xyz[j, :2].norm()) > 1e-3 * float(xyz[j].norm())]
        if not keep:
            return
        xyz, ref = xyz[keep], obs.take(ref, x=keep)
    if o == "far":
        for f, t2 in (("negative", -theta), ("beyond", 2 * math.pi - theta), ("turn", theta + 2 * math.pi)):
            res = obs.call(o, args, theta=t2, **kw)
            for k, (q, m) in obs.deviation(res, ref, 1e-11, 1e-13).items():
                mon.le("mirror_angle_" + f, q, 1.0, m)
        return
    for f, s, se, sh in (("x", (-1, 1, 1), (1, -1, -1), (-1, 1, 1)), ("y", (1, -1, 1), (1, -1, 1), (-1, 1, -1))):
        res = obs.call(o, args, xyz=xyz * tt(s), **kw)
        want = {k: v * tt(se if k[0] == "E" else sh) for k, v in ref.items()}
        for k, (q, m) in obs.deviation(res, want, 1e-9, 1e-13).items():
            mon.le("mirror_" + f, q, 1.0, m)
    # positions rotated by +90 and -90 degrees about z are related by both mirrors
    rot = torch.stack((-xyz[:, 1], xyz[:, 0], xyz[:, 2]), -1)
    r1 = obs.call(o, args, xyz=rot, **kw)
    half = obs.call(o, args, xyz=rot * tt((-1, -1, 1)), **kw)
    want = {k: v * tt((1, 1, -1)) for k, v in r1.items()}
    for k, (q, m) in obs.deviation(half, want, 1e-9, 1e-13).items():
        mon.le("mirror_both", q, 1.0, m)


def axis(xyz):
    return bool(((xyz[:, 0] ** 2 + xyz[:, 1] ** 2).sqrt() < 1e-2 * xyz.norm(dim=-1)).any())


def matched(case, mon, o, args, theta, xyz, ref, kw):
    """A particle made of the host material does not exist."""
    import torch

    x = min(1.0, gen.xmax(case))
    if o == "coef":
        for k, v in ref.items():
            mon.le("matched_coef", float(v.abs().max()), 1e-12, k)
    elif o == "far":
        for k in ("S1", "S2"):
            mon.le("matched_far", float(ref[k].abs().max()), 1e-10, k)
    elif o == "cs":
        f = obs.floors(case)
        for k, v in ref.items():
            mon.le("matched_cs", float(v.abs().max()), 1e3 * f[k.split("_")[0]], k)
    else:
        full = obs.call(o, args, xyz=xyz, **dict(kw, n_max=kw["n_max"] + 6))
        k = (args["k0"] * args["eps_env"] ** 0.5).abs().max()
        for key in ("E", "H"):
            inc = full[key + "_i"]
            sc = inc.abs().amax(-1, keepdim=True)
            d = ((full[key + "_t"] - inc).abs() / sc).amax(-1)
            mon.le("matched_field", float(d.max()), 1e-5 if axis(xyz) else 1e-8, key)
            out = (xyz.norm(dim=-1) > max(r[-1] for r in case["r"]) * (1 + 1e-12))
            if bool(out.any()):
                mon.le("matched_scattered", float((full[key + "_s"].abs() / sc)[:, :, out].max()), 1e-8, key)
    mon.event("matched_particles")
