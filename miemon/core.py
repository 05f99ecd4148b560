"""Execution core: runs cases against the real code, collects verdicts, writes evidence.

A *case* is a JSON-able dict {"kind": str, ...}; a check module provides
    PROPERTY, RULE, ASSUMPTIONS
    generate(rng, tier) -> list of cases        (deterministic in the seed)
    run(case, mon)                              (drives pymiediff, feeds the oracles)
Verdicts are three-valued: held / violated / inconclusive (the oracle could not
decide, or time ran out).  An exception escaping from the code under test on an
input of the property's domain is a violation; an exception of the oracle is
inconclusive.
"""
import collections
import hashlib
import importlib
import json
import math
import multiprocessing as mpc
import os
import random
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MIEMON_REPO", "/repo")
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")
NWORK = int(os.environ.get("MIEMON_WORKERS", min(8, os.cpu_count() or 1)))
CASE_LIMIT = 240  # s, hard limit for a single case
BUDGET = {"quick": 420.0, "thorough": 780.0}  # s, wall clock; cases not started by then are reported


class Inconclusive(Exception):
    """The oracle cannot decide this case."""


class CaseTimeout(Exception):
    pass


def jdump(o):
    return json.dumps(o, sort_keys=True, default=_jdef)


def _jdef(o):
    try:
        import numpy as np

        if isinstance(o, np.generic):
            return _jdef(o.item())
        if isinstance(o, np.ndarray):
            return o.tolist()
    except ImportError:
        pass
    if isinstance(o, complex):
        return [o.real, o.imag]
    if isinstance(o, (float, int, bool, str)):
        return o
    return repr(o)


def chash(case):
    return hashlib.sha1(jdump(case).encode()).hexdigest()[:12]


class Mon:
    """Collects what one case observed."""

    def __init__(self, case):
        self.case = case
        self.viol = []  # (key, message)
        self.incon = []
        self.n = collections.Counter()  # assertions evaluated, by name
        self.ev = collections.Counter()  # events observed, by name
        self.worst = {}  # name -> largest observed value / tolerance
        self.nontrivial = False
        self.sig = None

    # -- verdicts
    def ok(self, name, cond, msg=""):
        self.n[name] += 1
        if not bool(cond):
            self.viol.append((name, msg() if callable(msg) else str(msg)))
        return bool(cond)

    def le(self, name, value, tol, msg=""):
        """value <= tol, with nan counted as a violation."""
        self.n[name] += 1
        value, tol = float(value), float(tol)
        q = value / tol if tol > 0 else (0.0 if value <= 0 else math.inf)
        if not (value <= tol):
            m = msg() if callable(msg) else str(msg)
            self.viol.append((name, f"{m} observed {value:.6g} > allowed {tol:.3g}"))
            q = math.inf
        else:
            self.worst[name] = max(self.worst.get(name, 0.0), q)
        return value <= tol

    def inconclusive(self, why):
        self.incon.append(str(why))

    def event(self, name, k=1):
        self.ev[name] += k

    def hit(self, nontrivial=True, sig=None):
        self.nontrivial = self.nontrivial or bool(nontrivial)
        if sig is not None:
            self.sig = sig

    def result(self):
        return dict(
            viol=self.viol, incon=self.incon, n=dict(self.n), ev=dict(self.ev),
            worst=self.worst, nontrivial=self.nontrivial, sig=self.sig,
        )


# ---------------------------------------------------------------- line reach
_REACH = collections.defaultdict(set)


def _start_reach():
    """Record which lines of pymiediff were executed (sys.monitoring, one event per line)."""
    mon = sys.monitoring
    root = os.path.join(REPO, "src", "pymiediff")
    try:
        mon.use_tool_id(mon.COVERAGE_ID, "miemon")
    except ValueError:
        return

    def on_line(code, line):
        f = code.co_filename
        if f.startswith(root):
            _REACH[os.path.relpath(f, root)].add(line)
        return mon.DISABLE

    def on_start(code, off):
        if code.co_filename.startswith(root):
            mon.set_local_events(mon.COVERAGE_ID, code, mon.events.LINE)
        return mon.DISABLE

    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, on_line)
    mon.register_callback(mon.COVERAGE_ID, mon.events.PY_START, on_start)
    mon.set_events(mon.COVERAGE_ID, mon.events.PY_START)


# ---------------------------------------------------------------- execution
def import_target():
    warnings.filterwarnings("ignore")
    src = os.path.join(REPO, "src")
    if src not in sys.path:
        sys.path.insert(0, src)
    import torch

    torch.set_num_threads(1)
    import pymiediff

    f = os.path.realpath(pymiediff.__file__)
    if not f.startswith(os.path.realpath(src) + os.sep):
        raise RuntimeError(f"pymiediff imported from {f}, not from {src}")
    return pymiediff


def _alarm(sig, frm):
    raise CaseTimeout()


def run_case(mod, case):
    mon = Mon(case)
    import torch

    torch.manual_seed(12345)
    torch.set_default_dtype(torch.float32)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT)
    try:
        mod.run(case, mon)
    except Inconclusive as e:
        mon.inconclusive(e)
    except CaseTimeout:
        mon.inconclusive(f"case exceeded {CASE_LIMIT} s")
    except MemoryError:
        mon.inconclusive("out of memory")
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        fn = [os.path.basename(t.filename) for t in tb]
        if "oracle.py" in fn[-2:] or (tb and "mpmath" in tb[-1].filename):
            mon.inconclusive(f"oracle: {type(e).__name__}: {e}")
        else:
            where = "; ".join(f"{os.path.basename(t.filename)}:{t.lineno}" for t in tb[-3:])
            mon.viol.append(("exception", f"{type(e).__name__}: {e} [{where}]"))
    finally:
        signal.alarm(0)
    return mon.result()


_MOD = None


def _worker_init(modname):
    global _MOD
    os.environ["OMP_NUM_THREADS"] = "1"
    warnings.filterwarnings("ignore")
    import_target()
    _MOD = importlib.import_module(modname)
    _start_reach()


def _worker(job):
    i, case = job
    t = time.time()
    r = run_case(_MOD, case)
    r["i"] = i
    r["t"] = time.time() - t
    r["reach"] = {k: sorted(v) for k, v in _REACH.items()}
    _REACH.clear()
    return r


# ---------------------------------------------------------------- known findings
def known_findings(prop):
    """Lines: `finding: property=C01 key=<assertion> case=<substring> -- text`."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith("finding:") and f"property={prop} " in line:
                d = dict(p.split("=", 1) for p in line.split(" -- ")[0].split() if "=" in p)
                d["text"] = line.split(" -- ", 1)[1].strip() if " -- " in line else ""
                out.append(d)
    return out


def is_known(known, case, key):
    for k in known:
        if k.get("key") == key and k.get("case") == case.get("id"):
            return k
    return None


def code_lines():
    """Executable lines per source file, for the reach report."""
    import dis  # noqa: F401

    root = os.path.join(REPO, "src", "pymiediff")
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith(".py"):
                p = os.path.join(d, f)
                try:
                    co = compile(open(p, encoding="utf8").read(), p, "exec")
                except SyntaxError:
                    continue
                lines, st = set(), [co]
                while st:
                    c = st.pop()
                    if c is not co:
                        lines |= {l for *_, l in c.co_lines() if l}
                        lines.discard(c.co_firstlineno)
                    st += [x for x in c.co_consts if hasattr(x, "co_lines")]
                out[os.path.relpath(p, root)] = lines
    return out


def main(modname, tier=None, replay=None, verbose=False):
    t0 = time.time()
    tier = tier or os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module(modname)
    prop = mod.PROPERTY
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    known = known_findings(prop)

    if replay:
        _worker_init(modname)
        case = json.load(open(replay))["case"]
        r = run_case(mod, case)
        for k, m in r["viol"]:
            print(f"  {k}: {m}")
        for m in r["incon"]:
            print("  inconclusive:", m)
        bad = [k for k, _ in r["viol"] if not is_known(known, case, k)]
        if bad:
            print(f"VIOLATION property={prop} replay={replay}")
        return 1 if bad else (2 if r["incon"] else 0)

    rng = random.Random(f"{prop}-{seed}-{tier}")
    cases = mod.generate(rng, tier)
    order = list(range(len(cases)))
    random.Random(seed).shuffle(order)
    budget = getattr(mod, "BUDGET", BUDGET)[tier]
    results = []
    ctx = mpc.get_context("fork")
    if getattr(mod, "PRELOAD", True):
        import_target()
    crashed = 0
    not_run = 0
    pool = ctx.Pool(NWORK, initializer=_worker_init, initargs=(modname,))
    try:
        it = pool.imap_unordered(_worker, [(i, cases[i]) for i in order], chunksize=1)
        while len(results) < len(cases):
            left = budget - (time.time() - t0)
            if left <= 0:
                not_run = len(cases) - len(results)
                break
            try:
                results.append(it.next(timeout=max(0.1, min(left, 300))))
                if verbose and results[-1]["viol"]:
                    print(results[-1]["i"], jdump(cases[results[-1]["i"]])[:200], [(k, m[:200]) for k, m in results[-1]["viol"][:3]])
            except mpc.TimeoutError:
                if time.time() - t0 < budget:
                    crashed = len(cases) - len(results)
                    break
            except StopIteration:
                break
    finally:
        pool.terminate()
        pool.join()

    n, ev, worst = collections.Counter(), collections.Counter(), {}
    kinds, reach = collections.Counter(), collections.defaultdict(set)
    distinct, incon = set(), []
    viol, knownhits = [], {}
    for r in results:
        case = cases[r["i"]]
        kinds[case.get("kind", "?") + ("/" + str(case["family"]) if "family" in case else "")] += 1
        n.update(r["n"])
        ev.update(r["ev"])
        for k, v in r["worst"].items():
            worst[k] = max(worst.get(k, 0.0), v)
        for f, ls in r["reach"].items():
            reach[f].update(ls)
        if r["nontrivial"]:
            distinct.add(r["sig"] or chash(case))
        for w in r["incon"]:
            incon.append((r["i"], w))
        for key, msg in r["viol"]:
            k = is_known(known, case, key)
            if k:
                knownhits.setdefault(id(k), (k, msg))
            else:
                viol.append((r["i"], key, msg))

    cl = code_lines()
    cov = {f: f"{len(reach[f] & cl[f])}/{len(cl[f])}" for f in sorted(cl) if reach.get(f)}
    slow = sorted(results, key=lambda r: -r["t"])[:3]
    sample_idx = sorted(r["i"] for r in results if r["nontrivial"])[:: max(1, len(results) // 4)][:4]
    samples = [json.loads(jdump(cases[i])) for i in sample_idx] or [json.loads(jdump(c)) for c in cases[:1]]
    evidence = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=len(results),
            distinct_nontrivial=len(distinct),
            rule=mod.RULE,
            samples=samples,
            assertions_evaluated=dict(n),
            events_observed=dict(ev),
            cases_by_kind=dict(kinds),
            worst_margin_used={k: round(v, 6) for k, v in sorted(worst.items())},
            source_lines_reached=cov,
            inconclusive=len(incon),
            inconclusive_reasons=[f"case {i}: {w}" for i, w in incon[:5]],
            not_run=not_run + crashed,
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=round(time.time() - t0, 2),
        violations=len(viol),
    )
    tmp = os.path.join(EVID, f".{prop}.json.tmp")
    with open(tmp, "w") as f:
        json.dump(evidence, f, indent=1, default=_jdef)
    os.replace(tmp, os.path.join(EVID, f"{prop}.json"))

    print(
        f"{prop} [{tier}, seed {seed}]: {len(results)} cases ({len(distinct)} distinct non-trivial), "
        f"{sum(n.values())} assertions, {len(viol)} violations, {len(incon)} inconclusive, "
        f"{not_run + crashed} not run, {time.time() - t0:.1f} s"
    )
    if verbose:
        for k, v in sorted(worst.items()):
            print(f"   {k:40s} n={n[k]:7d} worst/tol={v:.3g}")
        for k, v in sorted(n.items()):
            if k not in worst:
                print(f"   {k:40s} n={v:7d}")
        print("   events", dict(ev))
        print("   reach", cov)
        print("   slowest", [(round(r["t"], 1), jdump(cases[r["i"]])[:160]) for r in slow])
        for i, w in incon[:5]:
            print("   inconclusive", i, str(w)[:200])
    for k, msg in knownhits.values():
        print(f"KNOWN-FINDING: property={prop} {k['text'] or k['key']} ({msg[:200]})")
    if viol:
        seen = {}
        for i, key, msg in sorted(viol):
            seen.setdefault(key, []).append((i, msg))
        for key, lst in list(seen.items())[:5]:
            i, msg = lst[0]
            path = os.path.join(EVID, "replay", f"{prop}-{chash(cases[i])}.json")
            with open(path, "w") as f:
                json.dump(dict(property=prop, key=key, message=msg, case=cases[i], module=modname), f, default=_jdef)
            print(f"  {key} ({len(lst)} cases): {msg[:400]}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    min_done = 0.5 * len(cases)
    if len(results) < min_done or len(incon) > 0.2 * max(1, len(results)) or crashed:
        print(f"INCONCLUSIVE property={prop}: {len(results)}/{len(cases)} cases run, {len(incon)} undecided")
        return 2
    return 0
