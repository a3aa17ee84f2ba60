"""Runs one property's harnesses: parallel symbolic exploration, replay of
counterexamples on the real code, witness validation, evidence."""
import collections
import concurrent.futures as cf
import json
import multiprocessing as mp
import os
import random as _random
import re
import signal
import subprocess
import sys
import time
import traceback
from fractions import Fraction

import z3

from . import shims, sym
from .ctx import Unavailable, mk_sym
from .harness import load
from .sym import Engine, PathEnd, PathTimeout, Divergence, Stats, model_value

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYPY = "/opt/venv/bin/python"
SITE = "/opt/venv/lib/pypy3.9/site-packages"
SRC = os.environ.get("EVOGIL_SRC", "/repo")
SCRATCH = None

FUNCS = set()


def start_monitoring():
    """Records which repository functions are executed symbolically."""
    try:
        mon = sys.monitoring
        mon.use_tool_id(4, "evsx")
    except Exception:
        return
    ev = mon.events.PY_START
    prefix = SRC.rstrip("/") + "/"

    def cb(code, off):
        fn = code.co_filename
        if fn.startswith(prefix):
            FUNCS.add("%s:%s" % (fn[len(prefix):], code.co_qualname))
        return mon.DISABLE

    mon.register_callback(4, ev, cb)
    mon.set_events(4, ev)


def to_json(v):
    if isinstance(v, bool) or isinstance(v, int) or v is None or isinstance(v, str):
        return v
    if isinstance(v, Fraction):
        return float(v)
    return v


def sym_value(m, v):
    if isinstance(v, (sym.SymReal, sym.SymInt, sym.SymBool)):
        return to_json(model_value(m, v.e))
    if isinstance(v, z3.ExprRef):
        return to_json(model_value(m, v))
    if isinstance(v, (list, tuple)):
        return [sym_value(m, x) for x in v]
    if isinstance(v, Fraction):
        return float(v)
    if hasattr(v, "tolist"):
        return sym_value(m, v.tolist())
    return v


def concrete_inputs(e, m):
    inputs = {n: sym_value(m, x) for n, k, x in e.inputs}
    draws = [[k, sym_value(m, p)] for k, p in e.draws]
    return inputs, draws


def nice_models(e, neg):
    """Models of path & neg, the ones that survive rounding to floats first."""
    e.solver.push()
    try:
        if neg is not None:
            e.solver.add(neg)
        reals = [x for n, k, x in e.inputs if k == "real"]
        for k, p in e.draws:
            for x in p if isinstance(p, (list, tuple)) else [p]:
                if isinstance(x, sym.SymReal):
                    reals.append(x.e)
        reals = [x for x in reals if not z3.is_rational_value(x)]
        old = e.query_ms
        for den in (4, 64, 1024):
            if not reals or len(reals) > 60:
                break
            e.solver.push()
            e.solver.set("timeout", 1500)
            for i, x in enumerate(reals):
                e.solver.add(x * den == z3.ToReal(z3.Int("nice!%d" % i)))
            r = e.solver.check()
            m = e.solver.model() if r == z3.sat else None
            e.solver.pop()
            if m is not None:
                yield m
                break
        e.solver.set("timeout", old)
        if e.solver.check() == z3.sat:
            yield e.solver.model()
    finally:
        e.solver.set("timeout", e.query_ms)
        e.solver.pop()
    if e.abstract_path:
        # functions the solver knows only in part: other inputs on this path are worth replaying too
        rnd = _random.Random(5)
        for again in range(6):
            e.solver.push()
            e.solver.set("timeout", 2000)
            for n, k, x in e.inputs:
                if k == "real":
                    e.solver.add(x == z3.Q(rnd.randrange(1, 1024), 1024))
            m = e.solver.model() if e.solver.check() == z3.sat else None
            e.solver.set("timeout", e.query_ms)
            e.solver.pop()
            if m is not None:
                yield m


def _alarm(*a):
    raise PathTimeout("wall clock")


CTX = None


def harness_misfit(x):
    """The harness itself (not the code) names something that no longer exists."""
    owner = getattr(x, "obj", None)
    if isinstance(x, AttributeError) and owner is not None and type(owner).__module__.startswith("harness."):
        # a stand-in of the harness lacks a member the code asks for
        return True
    tb = x.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    if not tb.tb_frame.f_code.co_filename.startswith(os.path.join(HERE, "harness")):
        return False
    if isinstance(x, (AttributeError, ImportError)):
        return "NoneType" not in str(x)
    return isinstance(x, TypeError) and bool(
        re.search(r"positional argument|required keyword|unexpected keyword", str(x)))


def run_slice(task):
    """Worker: explore below one prefix for up to slice_s seconds."""
    global CTX
    prop, hi, tier, pi, forced, slice_s, want_witness, seed = task
    if CTX is None:
        CTX = mk_sym()
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        signal.signal(signal.SIGALRM, _alarm)
    fn = HS[hi]
    params = fn.h[tier][pi]
    e = Engine(forced=forced, query_ms=fn.h["query_ms"], max_decisions=fn.h["max_decisions"])
    sym.ENGINE = e
    out = dict(hi=hi, pi=pi, violations=[], witnesses=[], labels={}, rest=[], errors=[],
               complete_paths=0, undecided={})
    rnd = _random.Random(seed)
    labels = out["labels"]
    t_end = time.time() + slice_s
    t0 = time.time()

    def on_violation(label, detail, neg):
        cands = []
        try:
            for m in nice_models(e, neg):
                inp, dr = concrete_inputs(e, m)
                cands.append((inp, dr))
        except z3.Z3Exception:
            pass
        if cands:
            out["violations"].append(dict(label=label, detail=str(detail), cands=cands,
                                          concretised=e.concretised_path or e.abstract_path))

    def on_check(label, reach):
        d = labels.setdefault(label, 0)
        labels[label] = d + 1

    devnull = open(os.devnull, "w")
    while True:
        e.reset_path()
        ctx = CTX(params, e, on_violation, on_check)
        stdout = sys.stdout
        sys.stdout = devnull
        completed = False
        try:
            signal.setitimer(signal.ITIMER_REAL, fn.h["path_s"])
            try:
                fn(ctx)
                completed = True
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
                sys.stdout = stdout
        except PathEnd as p:
            if p.args and p.args[0] == "violation":
                completed = False
                e.stats.paths += 1
        except PathTimeout as p:
            e.stats.timeouts += 1
            try:
                on_violation("hang", "path exceeded %s" % p, None)
            except PathTimeout:
                pass
        except Divergence as d:
            e.stats.diverged += 1
            out["errors"].append("divergence %s" % d)
        except sym.z3.Z3Exception as x:
            e.stats.errors += 1
            out["errors"].append("z3: %s" % x)
        except RecursionError as x:
            # endless in the code, or only terms too deep: the replay tells
            e.stats.errors += 1
            out["errors"].append("recursion")
            e.concretised_path = True
            try:
                on_violation("raises:RecursionError", "", None)
            except RecursionError:
                pass
        except Unavailable as x:
            out["unavailable"] = str(x)
        except Exception as x:
            name = type(x).__name__
            if name in fn.h["allow"]:
                completed = True
            elif harness_misfit(x):
                out["unavailable"] = "%s: %s" % (name, x)
            else:
                tb = traceback.format_exc()[-1200:]
                on_violation("raises:" + name, tb, None)
        if completed:
            e.stats.paths += 1
            out["complete_paths"] += 1
            for l in e.user.get("undecided", ()):
                out["undecided"][l] = out["undecided"].get(l, 0) + 1
            if want_witness and (len(out["witnesses"]) < want_witness or rnd.random() < 0.02):
                try:
                    m = next(nice_models(e, None), None)
                    if m is not None:
                        inp, dr = concrete_inputs(e, m)
                        w = dict(inputs=inp, draws=dr,
                                 observed=[[n, sym_value(m, v)] for n, v in ctx.observed],
                                 exact=not (e.unknown_path or e.concretised_path))
                        if len(out["witnesses"]) >= want_witness:
                            out["witnesses"][rnd.randrange(want_witness)] = w
                        else:
                            out["witnesses"].append(w)
                except (PathEnd, z3.Z3Exception, ValueError):
                    pass
        ctx.run_cleanups()
        if out["violations"] and len(out["violations"]) >= 4:
            out["rest"] = []
            out["stopped"] = True
            break
        if time.time() > t_end:
            out["rest"] = e.open_prefixes()
            break
        if not e.backtrack():
            break
    sym.ENGINE = None
    devnull.close()
    out["stats"] = e.stats.as_dict()
    out["busy"] = time.time() - t0
    out["funcs"] = sorted(FUNCS)
    return out


HS = None


def replay_jobs(jobs, timeout=20, interp=None):
    """Run jobs concretely in the repository's interpreter; list of results."""
    import tempfile

    if not jobs:
        return []
    fd, path = tempfile.mkstemp(prefix="evsx_jobs_", suffix=".json", dir=SCRATCH)
    with os.fdopen(fd, "w") as f:
        json.dump({"jobs": [dict(j, timeout=timeout) for j in jobs]}, f)
    env = dict(os.environ, EVOGIL_SRC=SRC, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               VERIF_SCRATCH=SCRATCH or "")
    try:
        p = subprocess.run([interp or PYPY, os.path.join(HERE, "sx", "conc.py"), path], env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=60 + len(jobs) * 5 + timeout * 4, cwd=SRC)
        text = p.stdout.decode()
        err = p.stderr.decode()[-2000:]
    except subprocess.TimeoutExpired as x:
        text = (x.stdout or b"").decode()
        err = "timeout"
    finally:
        os.unlink(path)
    res = []
    for line in text.splitlines():
        try:
            res.append(json.loads(line))
        except ValueError:
            pass
    while len(res) < len(jobs):
        res.append({"outcome": "norun", "label": "", "detail": err, "observed": []})
    return res


def approx_equal(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(approx_equal(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a == b:
            return True
        return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))
    return a == b


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def main(prop):
    global HS, SCRATCH
    import tempfile
    import shutil

    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    limit = float(os.environ.get("VERIF_LIMIT_S", "420" if tier == "quick" else "3000"))
    t0 = time.time()
    SCRATCH = tempfile.mkdtemp(prefix="evsx_")
    os.environ["VERIF_SCRATCH"] = SCRATCH
    try:
        rc = _main(prop, tier, seed, limit, t0)
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def _main(prop, tier, seed, limit, t0):
    global HS
    only = os.environ.get("VERIF_ONLY")
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    shims.install(SRC, SITE)
    os.chdir(SRC)
    start_monitoring()
    HS = load(prop)
    workers = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 4)))
    runs = {}
    order = []
    for hi, fn in enumerate(HS):
        if only and fn.h["name"] not in only.split(","):
            continue
        for pi, params in enumerate(fn.h[tier]):
            key = (hi, pi)
            order.append(key)
            runs[key] = dict(queue=collections.deque([[]]), busy=0.0, inflight=0, stats=Stats(),
                             labels=collections.Counter(), violations=[], witnesses=[],
                             errors=collections.Counter(), stopped=False, complete_paths=0,
                             undecided=collections.Counter(), slices=0)
    known = [k for k in load_known() if k["property"] == prop]
    confirmed = []  # (violation record)
    known_hit = {}
    unconfirmed = []
    funcs = set()
    seen_label = set()
    rng = _random.Random(seed)
    # the longest 2/3 of the budget goes to exploration
    deadline = t0 + limit
    pool = cf.ProcessPoolExecutor(workers, mp_context=mp.get_context("fork"))
    pending = {}
    broken = None

    def match_known(hname, label, params):
        for k in known:
            if k["harness"] == hname and k["label"] == label and (
                k.get("params") is None or all(params.get(a) == b for a, b in k["params"].items())
            ):
                return k
        return None

    def judge(key, v):
        """Replay a candidate violation; True when it is confirmed."""
        hi, pi = key
        fn = HS[hi]
        jobs = [dict(property=prop, harness=fn.h["name"], params=fn.h[tier][pi], inputs=i, draws=d)
                for i, d in v["cands"]]
        res = replay_jobs(jobs)
        for j, r in zip(jobs, res):
            bad = r["outcome"] in ("fail", "hang") or (
                r["outcome"] == "raise" and r["label"][7:] not in fn.h["allow"])
            if bad:
                rec = dict(j, label=r["label"], detail=r.get("detail", ""),
                           solver_label=v["label"])
                return rec
        v["replay_results"] = res
        return None

    stop_all = False
    while not stop_all:
        now = time.time()
        while len(pending) < workers and now < deadline:
            cands = [k for k in order if runs[k]["queue"] and not runs[k]["stopped"]]
            if not cands:
                break
            k = min(cands, key=lambda k: (runs[k]["busy"] + 3.0 * runs[k]["inflight"])
                    / HS[k[0]].h["share"])
            R = runs[k]
            forced = R["queue"].popleft()
            total_q = sum(len(runs[x]["queue"]) for x in order)
            sl = 0.4 if total_q < 2 * workers else 3.0
            R["inflight"] += 1
            R["slices"] += 1
            ww = 2 if R["slices"] <= 12 else 0
            fut = pool.submit(run_slice, (prop, k[0], tier, k[1], forced, sl, ww,
                                          rng.randrange(1 << 30)))
            pending[fut] = k
        if not pending:
            break
        done, _ = cf.wait(pending, timeout=5, return_when=cf.FIRST_COMPLETED)
        for fut in done:
            k = pending.pop(fut)
            R = runs[k]
            R["inflight"] -= 1
            try:
                out = fut.result()
            except Exception as x:
                broken = "worker: %s" % x
                traceback.print_exc()
                stop_all = True
                break
            R["busy"] += out["busy"]
            R["stats"].add(out["stats"])
            R["labels"].update(out["labels"])
            R["undecided"].update(out["undecided"])
            R["complete_paths"] += out["complete_paths"]
            for x in out["errors"]:
                R["errors"][x] += 1
            R["witnesses"].extend(out["witnesses"])
            funcs.update(out["funcs"])
            if out.get("stopped"):
                R["stopped"] = True
            if out.get("unavailable"):
                R["unavailable"] = out["unavailable"]
            for p in out["rest"]:
                R["queue"].append(p)
            for v in out["violations"]:
                hname = HS[k[0]].h["name"]
                tag = (hname, v["label"])
                n = sum(1 for t in R["violations"] if t["label"] == v["label"])
                R["violations"].append(v)
                if n >= 3:
                    R["stopped"] = True
                    continue
                if any(c["harness"] == hname and c["solver_label"] == v["label"] for c in confirmed):
                    continue
                kf = match_known(hname, v["label"], HS[k[0]].h[tier][k[1]])
                if kf is not None and kf["id"] in known_hit:
                    continue
                rec = judge(k, v)
                if rec is None:
                    unconfirmed.append((k, v))
                    continue
                kf = match_known(hname, rec["label"], rec["params"])
                if kf is not None:
                    known_hit[kf["id"]] = kf
                    continue
                confirmed.append(rec)
                stop_all = True
        if time.time() > deadline and not pending:
            break
        if time.time() > deadline + 60:
            break
    exhausted = {k: not runs[k]["queue"] and not runs[k]["inflight"] and not runs[k]["stopped"]
                 and not runs[k]["stats"].diverged for k in order}
    # stop workers without waiting for stuck queries
    procs = list((pool._processes or {}).values())
    pool.shutdown(wait=False, cancel_futures=True)
    for pr in procs:
        pr.kill()

    # concrete validation of path witnesses on the real code
    jobs, meta = [], []
    for k in order:
        ws = [w for w in runs[k]["witnesses"]]
        rng.shuffle(ws)
        for w in ws[: (6 if tier == "quick" else 20)]:
            fn = HS[k[0]]
            jobs.append(dict(property=prop, harness=fn.h["name"], params=fn.h[tier][k[1]],
                             inputs=w["inputs"], draws=w["draws"]))
            meta.append((k, w))
    cap = 120 if tier == "quick" else 500
    if len(jobs) > cap:
        idx = sorted(rng.sample(range(len(jobs)), cap))
        jobs, meta = [jobs[i] for i in idx], [meta[i] for i in idx]
    validated = 0
    mismatched = []
    samples = []
    if not confirmed and not broken:
        res = replay_jobs(jobs)
        for (k, w), j, r in zip(meta, jobs, res):
            fn = HS[k[0]]
            if r["outcome"] == "ok" and approx_equal(w["observed"], r["observed"]):
                validated += 1
                if len(samples) < 6:
                    samples.append(dict(harness=j["harness"], params=j["params"],
                                        inputs=dict(list(j["inputs"].items())[:12]),
                                        observed=r["observed"][:4]))
            elif r["outcome"] == "fail" or (
                r["outcome"] in ("raise", "hang") and r["label"][7:] not in fn.h["allow"]
            ):
                kf = match_known(j["harness"], r["label"], j["params"])
                if kf is not None:
                    known_hit[kf["id"]] = kf
                elif r["outcome"] == "fail":
                    confirmed.append(dict(j, label=r["label"], detail=r.get("detail", ""),
                                          solver_label="witness"))
                else:
                    mismatched.append(dict(harness=j["harness"], params=j["params"],
                                           outcome=r["outcome"], detail=r.get("detail", "")[-400:]))
            else:
                if r["outcome"] == "raise":
                    validated += 1
                    continue
                mismatched.append(dict(harness=j["harness"], params=j["params"], inputs=j["inputs"],
                                       symbolic=w["observed"][:6], concrete=r["observed"][:6],
                                       outcome=r["outcome"], detail=r.get("detail", "")[-400:]))

    # verdict
    vacuous = [k for k in order if not runs[k]["labels"] and not runs[k]["stopped"] and not confirmed
               and exhausted[k] and not runs[k].get("unavailable")]
    if order and all(runs[k].get("unavailable") for k in order):
        vacuous = order
    total = Stats()
    per = []
    for k in order:
        R = runs[k]
        total.add(R["stats"].as_dict())
        fn = HS[k[0]]
        per.append(dict(
            harness=fn.h["name"], what=(fn.__doc__ or fn.h["what"]).strip(), bounds=fn.h[tier][k[1]],
            exhausted=exhausted[k], assertions_reached=dict(R["labels"]),
            undecided=dict(R["undecided"]), cpu_s=round(R["busy"], 2),
            error_notes=dict(R["errors"]), unavailable=R.get("unavailable"), **{a: b for a, b in R["stats"].as_dict().items()}))
    known_lines = []
    for kid, kf in known_hit.items():
        known_lines.append("KNOWN-FINDING: property=%s %s" % (prop, kf["what"]))
    wall = time.time() - t0
    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=total.paths, transitions=total.decisions,
            traces_validated_against_impl=validated,
            samples=samples,
            functions_encoded=sorted(funcs),
            bounds=[dict(harness=HS[k[0]].h["name"], **HS[k[0]].h[tier][k[1]]) for k in order],
            queries_discharged=total.queries, assertion_queries=total.checks_solver,
            assertions_checked=total.checks, solver_s=round(total.solver_s, 2),
            unknown_queries=total.unknown, pinned_reals=total.concretised,
            all_harnesses_exhausted=all(exhausted.values()),
            not_exhausted=[HS[k[0]].h["name"] + str(HS[k[0]].h[tier][k[1]]) for k in order
                           if not exhausted[k]],
            unconfirmed_candidates=[dict(harness=HS[k[0]].h["name"], label=v["label"],
                                         detail=v["detail"][-600:],
                                         replay=[r["outcome"] for r in v.get("replay_results", [])])
                                    for k, v in unconfirmed][:10],
            witness_mismatches=mismatched[:10],
            harnesses=per,
            rule="states = feasible symbolic paths explored to the end, transitions = two-sided "
                 "decisions; each path covers every value of its symbolic inputs",
        ),
        assumptions=ASSUMPTIONS, wall_s=round(wall, 2), violations=len(confirmed),
    )
    os.makedirs(os.path.join(HERE, "evidence", "replays"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for l in known_lines:
        print(l)
    print("%s tier=%s paths=%d decisions=%d queries=%d checks=%d solver=%.1fs wall=%.1fs "
          "validated=%d/%d exhausted=%s unknown=%d pinned=%d unconfirmed=%d mismatched=%d" % (
              prop, tier, total.paths, total.decisions, total.queries, total.checks, total.solver_s,
              wall, validated, len(jobs), all(exhausted.values()), total.unknown, total.concretised,
              len(unconfirmed), len(mismatched)))
    if os.environ.get("VERIF_VERBOSE"):
        for p in per:
            print("  %-34s %-40s %s paths=%d q=%d cpu=%.1f asserts=%d unk=%d pin=%d to=%d %s%s%s" % (
                p["harness"], str(p["bounds"]), "done" if p["exhausted"] else "OPEN", p["paths"],
                p["queries"], p["cpu_s"], sum(p["assertions_reached"].values()), p["unknown"],
                p["concretised"], p["timeouts"], p["error_notes"] or "", p["undecided"] or "",
                p["unavailable"] or ""))
        for k, v in unconfirmed:
            print("UNCONFIRMED", HS[k[0]].h["name"], HS[k[0]].h[tier][k[1]], v["label"],
                  v["detail"][-1500:], v["cands"][:1], [(r["outcome"], r.get("label"), r.get("detail", "")[-800:]) for r in v["replay_results"]][:2])
        for m in mismatched:
            print("MISMATCH", json.dumps(m, default=str)[:1500])
    if confirmed:
        shown = set()
        for i, c in enumerate(confirmed):
            path = os.path.join(HERE, "evidence", "replays", "%s_%d.json" % (prop, i))
            with open(path, "w") as f:
                json.dump(c, f, indent=1, default=str)
            print("counterexample: %s: %s %s %s" % (c["harness"], c["label"], c["params"],
                                                  str(c.get("detail", ""))[-300:]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if broken:
        print("ERROR", broken)
        return 2
    if not confirmed and jobs and all(m["outcome"] == "norun" for m in mismatched) and mismatched:
        print("ERROR the real code could not be run:", mismatched[0]["detail"])
        return 2
    if vacuous:
        print("ERROR vacuous harness:", [(HS[k[0]].h["name"], HS[k[0]].h[tier][k[1]]) for k in vacuous])
        return 2
    hard = [(HS[k[0]].h["name"], v["label"]) for k, v in unconfirmed
            if not v["label"].startswith("raises:") and v["label"] != "hang" and not v["concretised"]]
    if hard:
        # the encoding disagrees with the real code: no verdict from this run
        print("INCONCLUSIVE counterexample does not replay:", hard)
        return 2
    return 0


ASSUMPTIONS = [
    "numbers are treated as mathematical reals (exact for comparison-only code); NaN and infinities "
    "are not inputs",
    "random.* draws, clock readings and directory orders are arbitrary values of their documented range",
    "printing, logging and plotting have no effect",
    "threads started through rx schedulers are run inline in the symbolic run, real in the replay",
]
