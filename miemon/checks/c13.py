"""C13: evaluation is pure, deterministic and independent of call order and of threads."""
import math
import os
import random
import sys
import threading

from miemon import gen, obs, zygote
from miemon.checks.c04 import max_im, probes

PROPERTY = "C13"
RULE = (
    "one case is a set of 6 to 10 jobs (functional observables of all backends and precisions, particle observables with "
    "shared particles and materials, gradients, special functions, transforms, interpolation; several differing in one "
    "input only) run in random order and repeatedly: serial, after refused calls, after exceptions injected at random "
    "source lines, and by 2 to 4 threads with yields injected at random source lines; every result is compared bit by bit "
    "with the result of a pristine process; non-trivial when at least 10 results were compared"
)
ASSUMPTIONS = [
    "metadata entries of results that echo an input (k0, radii, permittivities) may be views of that input",
    "torch runs its own kernels with one thread",
]
TECHNIQUE = "runtime monitoring: history and interleaving monitor with fault and yield injection against pristine processes"
NOTE = "Thread interleavings are those of the Python interpreter, forced by injected yields; exploration, not enumeration."

OBSERVED = {k for v in obs.KEYS.values() for k in v}


# ------------------------------------------------------------------ jobs
def base(rng, legacy):
    while True:
        np_, nk = rng.choice([(1, 1), (1, 2), (2, 1), (2, 3)])
        c = gen.config(rng, rng.choice(["diel", "lossy", "metal", "mixed", "high", "hollow"]), np_=np_, nk=nk, lmax=3,
                       L=rng.choice([1, 2]) if legacy else None, xlo=0.1, xhi=6 if legacy else 8, dispersive_env=rng.random() < 0.3)
        if not legacy or (gen.max_arg(c) < 15 and max_im(c) < 4):
            return c


def variants(rng, c):
    """The same configuration with one input changed."""
    v = dict(c)
    w = rng.choice(["k0", "r", "eps", "env"])
    if w == "k0":
        v["k0"] = [q * 1.0625 for q in c["k0"]]
    elif w == "r":
        v["r"] = [[q * 1.0625 for q in r] for r in c["r"]]
    elif w == "eps":
        v["eps"] = [[[[e[0] * 1.0625, e[1]] for e in l] for l in p] for p in c["eps"]]
    else:
        v["env"] = [[e[0] * 1.0625, e[1]] for e in c["env"]]
    return v


def functional(rng, c):
    o = rng.choice(obs.OBS)
    legacy = len(c["r"][0]) <= 2 and gen.max_arg(c) < 15 and max_im(c) < 4
    j = dict(job="functional", obs=o, cfg=c, backend=rng.choice(["pena", "torch", "scipy"]) if legacy else "pena",
             n_max=rng.choice([None, 4]), grad=rng.random() < 0.4)
    j["precision"] = rng.choice(["double", "double", "single"]) if j["backend"] == "pena" else "double"
    if j["backend"] == "torch":
        j["which_jn"] = rng.choice(["recurrence", "ratios"])
    if o == "far":
        j["theta"] = [rng.uniform(0, 3.1) for _ in range(3)]
    if o == "near":
        j["xyz"] = probes(rng, c["r"][0], 4, far=3.0)
        j["E0"] = rng.choice([1.0, 2.0])
    return j


SPECIAL = ("sph_jn", "sph_yn", "sph_h1n", "sph_jn_der", "sph_yn_der", "sph_h1n_der", "sph_jn_torch", "sph_jn_torch_via_rec",
           "sph_yn_torch", "sph_h1n_torch", "psi", "chi", "xi", "psi_torch", "chi_torch", "xi_torch", "pena_D1_n", "pena_D3_n")
OTHER = ("pi_tau", "vsh", "vsh_pena", "interp1d", "to_sph", "to_xyz", "fields")


def job(rng, cfgs):
    u = rng.random()
    if u < 0.45:
        return functional(rng, rng.choice(cfgs))
    if u < 0.7:
        o = rng.choice(["get_mie_coefficients", "get_cross_sections", "get_angular_scattering", "get_nearfields"])
        return dict(job="particle", obs=o, particle=rng.randrange(3), wl=[rng.choice([450.0, 520.5, 633.0, 780.0, 901.25]) for _ in range(rng.choice([1, 2, 3]))],
                    xyz=[[30.0, 10.0, -20.0], [150.0, 3.0, 99.0], [1.0, 70.0, 65.0]], theta=[0.3, 1.2, 2.9], grad=rng.random() < 0.3)
    if u < 0.8:
        return dict(job="material", mat=rng.choice(["Si", "Au", "SiO2"]), wl=[rng.choice([450.0, 520.5, 633.0, 780.0]) for _ in range(rng.choice([1, 3]))],
                    grad=rng.random() < 0.5)
    if u < 0.92:
        return dict(job="special", fn=rng.choice(SPECIAL), n=rng.choice([3, 3, 6]), z=[[rng.uniform(0.2, 9), rng.choice([0.0, rng.uniform(0, 2)])] for _ in range(4)],
                    grad=rng.random() < 0.4)
    return dict(job="other", fn=rng.choice(OTHER), seed=rng.randrange(1000))


def generate(rng, tier):
    n = 100 if tier == "quick" else 1800
    cases = []
    for _ in range(n):
        c = base(rng, rng.random() < 0.5)
        cfgs = [c, variants(rng, c), variants(rng, c), base(rng, True)]
        jobs = [job(rng, cfgs) for _ in range(rng.randint(4, 6))]
        for j in list(jobs):  # near twins: cached values of one would show in the other
            if j["job"] == "functional" and rng.random() < 0.6:
                t = dict(j, cfg=rng.choice(cfgs[:3]) if j["cfg"] in cfgs[:3] else j["cfg"])
                if rng.random() < 0.3:
                    t["n_max"] = 6
                if "theta" in t and rng.random() < 0.4:
                    t["theta"] = [q * 0.9 for q in t["theta"]]
                if "xyz" in t and rng.random() < 0.4:
                    t["xyz"] = [[q * 1.5 for q in x] for x in t["xyz"]]
                jobs.append(t)
            elif j["job"] == "special" and rng.random() < 0.6:
                jobs.append(dict(j, z=[[q[0] * 1.1, q[1]] for q in j["z"]]))
        cases.append(dict(kind=rng.choice(["serial", "faults", "threads", "threads"]), jobs=jobs, seed=rng.randrange(1 << 30),
                          user=rng.choice([{}, {}, dict(dtype="float64"), dict(threads=2), dict(dtype="float64", threads=2), dict(err="raise")])))
    return cases


def build_particles():
    import torch
    import pymiediff as pmd

    M = pmd.materials
    si = M.MatDatabase("Si")
    au = M.MatDatabase("Au")
    t = lambda v: torch.tensor(v, dtype=torch.float64)  # noqa: E731
    return dict(
        parts=[
            pmd.Particle(r_layers=t([50.0, 80.0]), mat_layers=[si, au], mat_env=1.0),
            pmd.Particle(r_core=t(90.0), mat_core=si, mat_env=1.5),
            pmd.Particle(r_layers=t([30.0, 60.0, 75.0]), eps_layers=torch.tensor([2.0, 9.0 + 1j, 4.0], dtype=torch.complex128), mat_env=M.MatDatabase("SiO2")),
        ],
        mats=dict(Si=si, Au=au, SiO2=M.MatDatabase("SiO2")),
    )


def execute(j, shared):
    """-> (inputs, results): dicts of tensors; inputs as given to the library"""
    import torch
    import pymiediff as pmd

    c128 = torch.complex128
    t = lambda v: torch.tensor(v, dtype=torch.float64)  # noqa: E731
    ins = {}

    def leaf(name, v, grad):
        ins[name] = v.requires_grad_(True) if grad else v
        return v

    def finish(res, wrt):
        out = {k: v for k, v in res.items() if torch.is_tensor(v)}
        if j.get("grad"):
            loss = sum((v.abs() ** 2).sum() for k, v in sorted(out.items()) if (k in OBSERVED or j["job"] != "functional") and v.requires_grad)
            g = torch.autograd.grad(loss, wrt, allow_unused=True)
            for i, q in enumerate(g):
                if q is not None:
                    out[f"grad{i}"] = q
        return ins, out

    if j["job"] == "functional":
        a = gen.tensors(j["cfg"])
        for k in a:
            leaf(k, a[k], j["grad"])
        kw = dict(backend=j["backend"], precision=j["precision"], n_max=j["n_max"])
        if "which_jn" in j:
            kw["which_jn"] = j["which_jn"]
        ex = {}
        if j["obs"] == "far":
            ex["theta"] = leaf("theta", t(j["theta"]), False)
        if j["obs"] == "near":
            ex["xyz"] = leaf("xyz", t(j["xyz"]), False)
            kw["E_0"] = j["E0"]
        r = obs.call(j["obs"], a, raw=True, **ex, **kw)
        return finish(r, list(a.values()))
    if j["job"] == "particle":
        p = shared["parts"][j["particle"]]
        k0 = leaf("k0", 2 * math.pi / t(j["wl"]), j["grad"])
        if j["obs"] == "get_angular_scattering":
            r = p.get_angular_scattering(k0, leaf("theta", t(j["theta"]), False))
        elif j["obs"] == "get_nearfields":
            r = p.get_nearfields(k0, r_probe=leaf("xyz", t(j["xyz"]), False))
        else:
            r = getattr(p, j["obs"])(k0)
        r = {k: v for k, v in r.items() if k in OBSERVED}
        return finish(r, [k0])
    if j["job"] == "material":
        w = leaf("wl", torch.tensor(j["wl"]), j["grad"])
        return finish(dict(eps=shared["mats"][j["mat"]].get_epsilon(w)), [w])
    sp = pmd.special
    if j["job"] == "special":
        z = leaf("z", torch.tensor([complex(*q) for q in j["z"]], dtype=c128), j["grad"])
        r = getattr(sp, j["fn"])(j["n"], z)
        r = dict(enumerate(r)) if isinstance(r, tuple) else {0: r}
        return finish({str(k): v for k, v in r.items()}, [z])
    g = torch.Generator().manual_seed(j["seed"])
    x = leaf("x", torch.rand(4, 3, generator=g, dtype=torch.float64) * 4 - 2, False)
    H = pmd.helper
    if j["fn"] == "pi_tau":
        r = sp.pi_tau(5, leaf("mu", x[:, 0] / 2, False))
    elif j["fn"] in ("vsh", "vsh_pena"):
        sh = (1, 1, 1, 4, 1)
        rr, th, ph = H.transform_xyz_to_spherical(x[:, 0], x[:, 1], x[:, 2])
        q = [leaf("r", rr.view(sh), False), leaf("th", th.view(sh), False), leaf("ph", ph.view(sh), False)]
        k0 = leaf("k0", torch.full((1, 1, 1, 1, 1), 1.3, dtype=torch.float64), False)
        n = leaf("n", torch.full((1, 1, 1, 1, 1), 1.5 + 0.1j, dtype=c128), False)
        r = getattr(sp, j["fn"])(4, k0, n, *q, kind=1 + 2 * (j["seed"] % 2))
    elif j["fn"] == "interp1d":
        r = (H.interp1d(leaf("xe", x[:, 0].clone(), False), leaf("xd", x[:, 1].clone(), False), leaf("yd", x[:, 2].to(c128), False)),)
    elif j["fn"] == "to_sph":
        r = H.transform_xyz_to_spherical(*[leaf(q, x[:, i], False) for i, q in enumerate("abc")])
    elif j["fn"] == "to_xyz":
        r = H.transform_spherical_to_xyz(*[leaf(q, x[:, i], False) for i, q in enumerate("abc")])
    else:
        r = H.helper.transform_fields_spherical_to_cartesian(*[leaf(q, (x[:, i % 3] * (1 + i)), False) for i, q in enumerate("abcdef")])
    return finish({str(k): v for k, v in enumerate(r)}, [])


class User:
    """Process-wide settings a user may have chosen; they must be respected and left alone."""

    def __init__(self, s):
        self.s = s

    def __enter__(self):
        import numpy as np
        import torch

        self.old = (torch.get_default_dtype(), torch.get_num_threads(), np.geterr())
        if "dtype" in self.s:
            torch.set_default_dtype(getattr(torch, self.s["dtype"]))
        if "threads" in self.s:
            torch.set_num_threads(self.s["threads"])
        if "err" in self.s:
            np.seterr(divide=self.s["err"])

    def __exit__(self, *a):
        import numpy as np
        import torch

        torch.set_default_dtype(self.old[0])
        torch.set_num_threads(self.old[1])
        np.seterr(**self.old[2])


def pristine(a):
    """Runs in a forked process that never used the library."""
    j, user = a
    with User(user):
        return _pristine(j)


def _pristine(j):
    _, out = execute(j, build_particles())
    return {k: pack(v) for k, v in out.items()}


def pack(v):
    v = v.detach().contiguous()
    return (str(v.dtype), tuple(v.shape), v.requires_grad, v.resolve_conj().resolve_neg().numpy().tobytes())


# ------------------------------------------------------------------ monitors
def snapshot(ins):
    return {k: (v.detach().clone(), v._version, v.requires_grad) for k, v in ins.items()}


def global_state():
    import random as rnd
    import warnings

    import numpy as np
    import torch

    return dict(
        dtype=str(torch.get_default_dtype()), device=str(torch.get_default_device()), grad=torch.is_grad_enabled(), threads=torch.get_num_threads(),
        inference=torch.is_inference_mode_enabled(), anomaly=torch.is_anomaly_enabled(), det=torch.are_deterministic_algorithms_enabled(),
        torch_rng=torch.get_rng_state().numpy().tobytes(), numpy_rng=str(np.random.get_state()), py_rng=rnd.getstate(), err=np.geterr(),
        filters=list(warnings.filters), cwd=os.getcwd(), recursion=sys.getrecursionlimit(), environ=dict(os.environ),
        printopt=str(np.get_printoptions()),
    )


def diff_state(a, b):
    return [k for k in a if a[k] != b[k]]


class Injector:
    """Yields or raises at random source lines of the package (sys.monitoring)."""

    ID = 3

    def __init__(self, rng, p_yield=0.0, raise_at=None):
        self.rng, self.p, self.raise_at = rng, p_yield, raise_at
        self.count, self.last, self.switches, self.sig, self.fired = 0, None, 0, 0, 0
        import pymiediff

        self.root = os.path.dirname(pymiediff.__file__)

    def __enter__(self):
        m = sys.monitoring
        import time

        m.use_tool_id(self.ID, "miemon-inject")

        def start(code, off):
            if code.co_filename.startswith(self.root):
                m.set_local_events(self.ID, code, m.events.LINE)
            else:
                return m.DISABLE

        def line(code, no):
            self.count += 1
            me = threading.get_ident()
            if me != self.last:
                self.switches += 1
                self.sig = hash((self.sig, code.co_name, no))
                self.last = me
            if self.raise_at is not None and self.count == self.raise_at:
                self.fired += 1
                raise Injected(f"{code.co_name}:{no}")
            if self.p and self.rng.random() < self.p:
                time.sleep(self.rng.choice([0, 0, 1e-4]))

        m.register_callback(self.ID, m.events.PY_START, start)
        m.register_callback(self.ID, m.events.LINE, line)
        m.set_events(self.ID, m.events.PY_START)
        m.restart_events()
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(self.ID, 0)
        m.register_callback(self.ID, m.events.PY_START, None)
        m.register_callback(self.ID, m.events.LINE, None)
        m.free_tool_id(self.ID)


class Injected(Exception):
    pass


def run(case, mon):
    zygote.start()
    with User(case["user"]):
        _run(case, mon)


def _run(case, mon):
    import torch

    rng = random.Random(case["seed"])
    jobs = case["jobs"]
    refs = []
    for j in jobs:
        r = zygote.call(pristine, (j, case["user"]))
        if r[0] != "ok":
            mon.ok("pristine_run", False, lambda: f"{label(j)}: {r[1]}")
            return
        refs.append(r[1])
    shared = build_particles()
    # the state a user could have set: must be respected, not reset
    torch.manual_seed(7)
    before = global_state()
    held = []
    done = [0]

    def one(i, check_alias=True, where=""):
        j = jobs[i]
        ins, out = execute_checked(j, shared, mon, where)
        got = {k: pack(v) for k, v in out.items()}
        ref = refs[i]
        mon.ok("same_keys", got.keys() == ref.keys(), lambda: f"{label(j)} {where}: {sorted(set(got) ^ set(ref))}")
        for k in got:
            if k in ref:
                mon.ok("bit_identical", got[k] == ref[k], lambda: f"{label(j)} {where}: result {k} differs from that of a pristine process ({describe(got[k], ref[k])})")
        done[0] += 1
        if check_alias:
            mine = {k: v for k, v in out.items() if (k in OBSERVED or j["job"] != "functional") and v.numel()}
            ptr = {v.untyped_storage().data_ptr() for v in ins.values()}
            for k, v in mine.items():
                s = v.untyped_storage().data_ptr()
                mon.ok("no_shared_memory", s not in ptr, lambda: f"{label(j)}: result {k} shares memory with an input")
                mon.ok("no_shared_memory", all(s != h for hh, h, _ in held if hh != i), lambda: f"{label(j)}: result {k} shares memory with an earlier result")
            if rng.random() < 0.5:
                with torch.no_grad():
                    for k, v in mine.items():
                        if not k.startswith("grad") or True:
                            v.detach().mul_(0).add_(math.nan)  # a caller overwrites results
            else:
                for k, v in mine.items():
                    held.append((i, v.untyped_storage().data_ptr(), (v, pack(v))))
        return out

    order = list(range(len(jobs))) * 2
    rng.shuffle(order)
    if case["kind"] == "serial":
        for i in order + order[::-1]:
            one(i)
            if rng.random() < 0.3:
                refused(rng, shared, mon)
    elif case["kind"] == "faults":
        for i in order:
            lines = 0
            with Injector(rng) as inj:
                execute(jobs[i], shared)
                lines = inj.count
            if lines:
                at = rng.randint(1, lines)
                with Injector(rng, raise_at=at) as inj:
                    try:
                        execute(jobs[i], shared)
                    except Injected:
                        mon.event("injected_exceptions")
                    except Exception as e:  # noqa: BLE001
                        mon.event("injected_exceptions_translated")
                        mon.ok("translated", True, str(e))
            bad = diff_state(before, global_state())
            mon.ok("global_state", not bad, lambda: f"after an exception at line event {at} of {label(jobs[i])}: {bad}")
            one(i, where="after an injected exception")
            one(rng.choice(order), where="after an injected exception")
    else:
        threads(case, jobs, shared, refs, rng, mon, done)
        for i in order[: len(jobs)]:
            one(i, where="after threads")
    for i, _, (v, p) in held:
        mon.ok("earlier_results", pack(v) == p, lambda: f"result of {label(jobs[i])} changed later")
    bad = diff_state(before, global_state())
    mon.ok("global_state", not bad, lambda: f"changed: {bad}")
    mon.event("results_compared", done[0])
    mon.hit(done[0] >= 10)


def execute_checked(j, shared, mon, where=""):
    """Inputs are built inside execute; they are compared with freshly built ones afterwards."""
    ins, out = execute(j, shared)
    again = inputs_of(j)
    import torch

    for k, v in ins.items():
        if k in again:
            mon.ok("inputs_unchanged", torch.equal(v.detach(), again[k].detach()) and v.dtype == again[k].dtype and v.grad is None
                   and v.requires_grad == again[k].requires_grad and v._version == again[k]._version,
                   lambda: f"{label(j)} {where}: input {k} was modified")
    return ins, out


def inputs_of(j):
    """The inputs of a job, built without running the library."""
    import torch

    t = lambda v: torch.tensor(v, dtype=torch.float64)  # noqa: E731
    out = {}
    if j["job"] == "functional":
        out.update(gen.tensors(j["cfg"]))
        for v in out.values():
            v.requires_grad_(j["grad"])
        if "theta" in j:
            out["theta"] = t(j["theta"])
        if "xyz" in j:
            out["xyz"] = t(j["xyz"])
    elif j["job"] == "particle":
        out["k0"] = (2 * math.pi / t(j["wl"])).requires_grad_(j["grad"])
        out["theta"], out["xyz"] = t(j["theta"]), t(j["xyz"])
    elif j["job"] == "material":
        out["wl"] = torch.tensor(j["wl"]).requires_grad_(j["grad"])
    elif j["job"] == "special":
        out["z"] = torch.tensor([complex(*q) for q in j["z"]], dtype=torch.complex128).requires_grad_(j["grad"])
    else:
        g = torch.Generator().manual_seed(j["seed"])
        x = torch.rand(4, 3, generator=g, dtype=torch.float64) * 4 - 2
        out["x"] = x
        if j["fn"] == "interp1d":
            out.update(xe=x[:, 0].clone(), xd=x[:, 1].clone(), yd=x[:, 2].to(torch.complex128))
        elif j["fn"] in ("to_sph", "to_xyz"):
            out.update(a=x[:, 0], b=x[:, 1], c=x[:, 2])
        elif j["fn"] == "pi_tau":
            out["mu"] = x[:, 0] / 2
    return out


def label(j):
    return " ".join(str(j.get(k)) for k in ("job", "obs", "fn", "backend", "precision", "mat", "grad") if j.get(k) is not None)


def describe(a, b):
    import numpy as np

    if a[:3] != b[:3]:
        return f"{a[:3]} vs {b[:3]}"
    x, y = (np.frombuffer(q[3], dtype={"torch.float64": "f8", "torch.complex128": "c16", "torch.float32": "f4", "torch.complex64": "c8"}.get(q[0], "u1")) for q in (a, b))
    return f"largest difference {np.nanmax(np.abs(x - y)) if x.size and not np.isnan(x - y).all() else 'nan'}"


def refused(rng, shared, mon):
    import torch
    import pymiediff as pmd

    t = lambda v: torch.tensor(v, dtype=torch.float64)  # noqa: E731
    calls = [
        lambda: pmd.multishell.cross_sections(t([0.01]), r_layers=t([80.0, 50.0]), eps_layers=t([2.0, 3.0])),
        lambda: pmd.multishell.mie_coefficients(t([0.01]), r_layers=t([80.0]), eps_layers=t([2.0]), backend="none"),
        lambda: pmd.multishell.nearfields(t([0.01]), t([[1.0]]), r_layers=t([80.0]), eps_layers=t([2.0])),
        lambda: shared["parts"][0].get_nearfields(t([0.01]), r_probe=t([[1.0, 2.0]])),
        lambda: shared["parts"][1].get_cross_sections(t([0.01]), backend="bad"),
        lambda: shared["parts"][1].get_cross_sections("text"),
        lambda: pmd.materials.MatDatabase("unobtainium"),
        lambda: shared["mats"]["Si"].get_epsilon("text"),
        lambda: pmd.special.sph_jn(torch.tensor([1, 2]), t([1.0])),
    ]
    try:
        rng.choice(calls)()
    except Exception:  # noqa: BLE001
        mon.event("refused_calls")


def threads(case, jobs, shared, refs, rng, mon, done):
    import torch

    T = rng.choice([2, 3, 4])
    plans = []
    for _ in range(T):
        o = list(range(len(jobs)))
        rng.shuffle(o)
        plans.append(o)
    results, errors = [], []
    gate = threading.Barrier(T)

    def work(plan):
        try:
            gate.wait(20)
            for i in plan:
                ins, out = execute(jobs[i], shared)
                results.append((i, {k: pack(v) for k, v in out.items()}))
        except Exception as e:  # noqa: BLE001
            errors.append(f"{label(jobs[i])}: {type(e).__name__}: {e}")

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        with Injector(rng, p_yield=0.03) as inj:
            th = [threading.Thread(target=work, args=(p,)) for p in plans]
            for q in th:
                q.start()
            for q in th:
                q.join(120)
    finally:
        sys.setswitchinterval(old)
    mon.ok("threads", not errors, lambda: errors[0])
    for i, got in results:
        for k in got:
            if k in refs[i]:
                mon.ok("thread_bit_identical", got[k] == refs[i][k], lambda: f"{label(jobs[i])}: result {k} of a thread differs ({describe(got[k], refs[i][k])})")
        done[0] += 1
    mon.event("thread_switches", inj.switches)
    mon.event("threads", T)
    mon.hit(True, sig=f"{case['seed']}-{inj.sig}")
    assert torch.get_num_threads() >= 1
