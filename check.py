#!/usr/bin/env python3-vt
"""Decides one property: discharges the proof obligations generated from the
current source of /repo, replays counter-models on the real code, and validates
the same contracts on the real libraries.  usage: check.py ID [--tier quick]"""
import json
import multiprocessing as mp
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import warnings

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
warnings.simplefilter("ignore")
REPO = os.environ.get("VERIF_REPO", "/repo")
VENV = "/opt/venv/bin/python"
NPROC = max(2, min(8, os.cpu_count() or 8))

from specs import base as B
import specs.all  # noqa: F401
from specs import meta as M


def _exec(prop, name, frame, tmo, budget, cross, contracts):
    from vc import engine

    run = engine.Run(B.SCN[prop][name], prop, timeout_ms=tmo, budget_s=budget, frame_only=frame is True, contracts=contracts)
    run.prover.cross = cross
    try:
        run.execute()
    except BaseException as e:  # the verifier itself failed: undecided
        run.status, run.note = "unsupported", f"{type(e).__name__}: {e}"[:300]
    return run


def sym_task(a):
    prop, name, frame, tmo, budget, cross, deadline = a
    from vc import prover
    from vc.sym import Unsupported

    left = deadline - time.time()
    if left < 3:
        return dict(name=name, status="unsupported", note="not reached within the time limit", paths=0, obs=[], inlined={}, contracts={},
                    stat={}, wall=0.0, controls=0, vacuous=0, warn=[], mode="")
    budget = min(budget, left)

    def on_alarm(*_):
        raise Unsupported("time limit")

    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(int(budget) + 15)
    for k in prover.STAT:
        prover.STAT[k] = 0 if isinstance(prover.STAT[k], int) else 0.0
    t0 = time.time()
    mode = "modular"
    try:
        run = _exec(prop, name, frame, tmo, budget, cross, None)
        good = lambda r: r.status == "ok" and all(o.status == "proved" for o in r.obs if frame == "both" or o.frame == frame)
        if not good(run) and run.use_contracts and run.contracts and time.time() - t0 < budget / 3:
            # a callee's contract may be too weak for this caller, or the callee changed with
            # it: verify the caller once more with the callees' bodies
            r2 = _exec(prop, name, frame, tmo, budget - (time.time() - t0), cross, False)
            if good(r2):
                run, mode = r2, "inlined"
    finally:
        signal.alarm(0)
    obs = [o.js() for o in run.obs if frame == "both" or o.frame == frame]
    return dict(name=name, status=run.status, note=run.note, paths=run.paths, obs=obs, inlined=run.inlined, contracts=run.contracts,
                stat=dict(prover.STAT), wall=time.time() - t0, controls=run.controls, vacuous=run.vacuous, warn=run.warn[:1], mode=mode)


def early(ps):
    """has a finished runtime worker already found a failing input?"""
    for p, o, sh in ps:
        if p.poll() is not None and os.path.exists(o):
            try:
                with open(o) as fh:
                    if any(r["violations"] and not r.get("finding") for r in json.load(fh)):
                        return True
            except (OSError, ValueError):
                pass
    return False


def launch(prop, jobs, seed, frame, tmp, tag, findings=()):
    """start runtime workers over shards of jobs; returns list of (proc, out)"""
    ps = []
    if not jobs and not findings:
        return ps
    n = max(1, min(NPROC, (len(jobs) + 3) // 4))
    rnd = random.Random(0)
    jobs = list(jobs)
    rnd.shuffle(jobs)
    for i in range(n):
        sh = jobs[i::n]
        f = os.path.join(tmp, f"{tag}{i}.job")
        o = os.path.join(tmp, f"{tag}{i}.out")
        with open(f, "w") as fh:
            json.dump(dict(property=prop, seed=seed, scenarios=sh, out=o, frame=frame, findings=list(findings) if i == 0 else []), fh)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
                   MKL_NUM_THREADS="1", NUMBA_NUM_THREADS="1")
        p = subprocess.Popen([VENV, "-B", os.path.join(HERE, "rt", "worker.py"), f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                             env=env, cwd=tmp)
        ps.append((p, o, sh))
    return ps


def collect(ps, limit):
    res, errs = [], []
    t0 = time.time()
    for p, o, sh in ps:
        try:
            out, _ = p.communicate(timeout=max(5, limit - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            out, _ = p.communicate()
            errs.append("worker timeout")
        if os.path.exists(o):
            with open(o) as fh:
                res += json.load(fh)
        else:
            errs.append((out or b"").decode("utf8", "replace")[-1500:])
    return res, errs


def known():
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known: "):
                kv = dict(x.split("=", 1) for x in line.split()[1:3])
                out[(kv["property"], kv["finding"])] = line.split(None, 3)[3]
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    only = sys.argv[sys.argv.index("--scn") + 1] if "--scn" in sys.argv else ""
    verbose = "-v" in sys.argv
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    thorough = tier == "thorough"
    t0 = time.time()
    info = M.PROPS[prop]
    # C16's statement includes that the caller's tables stay as they were
    frame = True if prop == "C22" else ("both" if prop in M.WITH_FRAME else False)
    if frame is True and "C22" not in B.SCN:
        fill_frame(thorough)
    scns = {k: v for k, v in B.SCN.get(prop, {}).items() if only in k}
    tmp = tempfile.mkdtemp(prefix="vc-")
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
    try:
        return decide(prop, tier, thorough, seed, info, frame, scns, tmp, evdir, t0, verbose)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def fill_frame(thorough=False):
    from specs.base import SCN

    out = {}
    for p in sorted(SCN):
        if p == "C22":
            continue
        for k, v in SCN[p].items():
            if v.get("frame", True) and v["fn"] not in [o["fn"] for o in out.values()]:
                out[f"{p}/{k}"] = dict(v, name=f"{p}/{k}")
    SCN["C22"] = out


def decide(prop, tier, thorough, seed, info, frame, scns, tmp, evdir, t0, verbose):
    trials = info.get("trials", 100) * (15 if thorough else 1)
    if frame is True:
        trials = 6 * (10 if thorough else 1)
    budget = 300 if thorough else 120
    tmo = 20000 if thorough else 6000
    # runtime validation of the contracts, in the background
    jobs = [dict(name=k, trials=max(3, int(trials * s["trials"])), limit_s=(240 if thorough else 40)) for k, s in scns.items() if s["runtime"]]
    finds = [k for k in B.FINDINGS.get(prop, {})] if frame is not True else []
    ps = launch(prop, jobs, seed, frame, tmp, "a", finds)
    # symbolic execution + obligations
    deadline = t0 + (600 if thorough else 420)
    tasks = [(prop, k, frame, tmo, budget, thorough, deadline) for k, s in sorted(scns.items(), key=lambda x: -x[1]["weight"]) if s["symbolic"]]
    sym_res = []
    stopped = False
    if tasks:
        ctx = mp.get_context("fork")
        with ctx.Pool(NPROC, maxtasksperchild=8) as pool:
            it = pool.imap_unordered(sym_task, tasks, chunksize=1)
            while len(sym_res) < len(tasks):
                try:
                    r = it.next(timeout=2)
                except mp.TimeoutError:
                    if early(ps) or time.time() > deadline + 60:
                        stopped = True
                        break
                    continue
                sym_res.append(r)
                if verbose:
                    bad = [o for o in r["obs"] if o["status"] != "proved"]
                    print(f"  {r['name']}: {r['status']} paths={r['paths']} obs={len(r['obs'])} open={len(bad)} {r['wall']:.1f}s {r['note'][-500:]}")
                    for o in bad[:4]:
                        print("      ", o["label"], o["status"], o["detail"][:160])
            pool.terminate()
    done = {r["name"] for r in sym_res}
    for t in tasks:
        if t[1] not in done:
            sym_res.append(dict(name=t[1], status="unsupported", note="not attempted: a failing input was already found" if stopped else "time limit",
                                paths=0, obs=[], inlined={}, contracts={}, stat={}, wall=0.0, controls=0, vacuous=0, warn=[], mode=""))
    rt_res, rt_err = collect(ps, max(20, (780 if thorough else 500) - (time.time() - t0)))
    # replay of counter-models
    refuted, undecided = {}, {}
    for r in sym_res:
        for o in r["obs"]:
            if o["status"] == "refuted":
                refuted.setdefault(r["name"], []).append(o)
            elif o["status"] != "proved":
                undecided.setdefault(r["name"], []).append(o)
    jobs2 = []
    hit = {r["name"] for r in rt_res if r["violations"] and not r.get("finding")}
    for name, os_ in refuted.items():
        if not scns[name]["runtime"] or name in hit:
            continue
        models = [o["model"] for o in os_ if o["model"] and "error" not in o["model"]][:3] or [None]
        for m in models:
            jobs2.append(dict(name=name, trials=(400 if thorough else 120), limit_s=60, model=m))
    if not stopped:
        # what the verifier could not reach or decide gets a deeper bounded check
        for name in sorted({r["name"] for r in sym_res if r["status"] != "ok"} | set(undecided)):
            if scns[name]["runtime"] and name not in hit and name not in refuted:
                jobs2.append(dict(name=name, trials=(1500 if thorough else 400), limit_s=60))
    rt2, err2 = collect(launch(prop, jobs2, seed + 1000, frame, tmp, "b"), max(20, 820 - (time.time() - t0)))
    rt_err += err2
    # ---- verdict
    viol = []
    kf = known()
    n = 0
    tot_trials = 0
    findings = []
    for r in rt_res + rt2:
        if r.get("finding"):
            if r["violations"]:
                d = kf.get((prop, r["name"]))
                if d is not None:
                    findings.append((r["name"], d))
                    continue
            else:
                continue
        tot_trials += r["trials"]
        for v in r["violations"]:
            n += 1
            path = os.path.join(evdir, "replay", f"{prop}-{n}.json")
            with open(path, "w") as fh:
                json.dump(dict(property=prop, scenario=r["name"], pool=r.get("pool"), how=f"{VENV} {HERE}/rt/worker.py --replay {path}", **v), fh, indent=1)
            viol.append((path, r["name"], v["label"], v["detail"], True))
    reproduced = {v[1] for v in viol}
    spurious = []
    for kind, table in (("the solver found a counter-model of the obligation, which did not fail on the real code", refuted), ("the solver reached no verdict", undecided)):
        for name, os_ in table.items():
            if name in reproduced:
                continue
            # the obligation was not discharged and no failing input was found for it
            reproduced.add(name)
            spurious.append(name)
            n += 1
            path = os.path.join(evdir, "replay", f"{prop}-{n}.json")
            with open(path, "w") as fh:
                json.dump(dict(property=prop, scenario=name, verdict=kind, failed_obligation=os_[0]["label"], obligations=os_[:20]), fh, indent=1)
            viol.append((path, name, "not discharged: " + os_[0]["label"], os_[0]["detail"], False))
    nob = sum(len(r["obs"]) for r in sym_res)
    ndis = sum(1 for r in sym_res for o in r["obs"] if o["status"] == "proved")
    unsup = {r["name"]: r["note"] for r in sym_res if r["status"] != "ok"}
    openobs = [dict(scenario=r["name"], obligation=o["label"], status=o["status"], detail=o["detail"]) for r in sym_res for o in r["obs"] if o["status"] != "proved"]
    # structural impossibility of replay: nothing ran on the real code
    if rt_err and not rt_res:
        n += 1
        path = os.path.join(evdir, "replay", f"{prop}-{n}.json")
        with open(path, "w") as fh:
            json.dump(dict(property=prop, error=rt_err[:3]), fh, indent=1)
        viol.append((path, "-", "the repository's code can be imported and run", rt_err[0][-300:], False))
    inl, con, backs = {}, {}, {}
    zc = zt = 0
    for r in sym_res:
        for k, v in r["inlined"].items():
            inl[k] = inl.get(k, 0) + v
        for k, v in r["contracts"].items():
            con[k] = con.get(k, 0) + v
        for o in r["obs"]:
            if o["status"] == "proved":
                backs[o["backend"]] = backs.get(o["backend"], 0) + 1
        zc += r["stat"].get("z3_calls", 0)
        zt += r["stat"].get("z3_time", 0.0)
    cross = {k: sum(r["stat"].get(k, 0) for r in sym_res) for k in ("cvc5_agree", "cvc5_unknown", "cvc5_disagree")}
    fully = not unsup and not openobs and nob > 0
    bounded = sorted(set(unsup) | {o["scenario"] for o in openobs} | {k for k, s in scns.items() if not s["symbolic"]})
    ev = dict(
        property=prop, tier=tier, seed=seed, level=info.get("level", "proof"),
        coverage=dict(
            obligations=nob, discharged=ndis, checker_cmd=f"python3-vt {HERE}/check.py {prop} --tier {tier}",
            trusted_base=TRUSTED + info.get("trusted", []),
            explanation=info.get("explanation", "") or "obligations generated from the current source by symbolic execution of the real functions; see DESIGN.md",
            functions_under_contract=sorted({f for f in inl} | {f for f in con}),
            scenarios=len(scns), scenarios_proved=len([r for r in sym_res if r["status"] == "ok" and all(o["status"] == "proved" for o in r["obs"])]),
            scenarios_bounded=bounded, paths=sum(r["paths"] for r in sym_res), discharged_by=backs, z3_calls=zc, slowest_refutation_s=round(max([r["stat"].get("z3_max", 0.0) for r in sym_res] or [0.0]), 2), solver_s=round(zt, 2),
            reachability_controls=sum(r["controls"] for r in sym_res), vacuous=sum(r["vacuous"] for r in sym_res),
            cvc5_crosscheck=cross if thorough else None,
            runtime_contract_executions=tot_trials, open_obligations=openobs[:40], unsupported=unsup,
            not_reproduced=spurious, worker_errors=[e[-300:] for e in rt_err][:5] + [e[-300:] for r in rt_res + rt2 for e in r["errors"][:1]][:5],
            evaluations=tot_trials, known_findings=[f for f, _ in findings],
        ),
        assumptions=ASSUME + info.get("assumptions", []),
        wall_s=round(time.time() - t0, 1), violations=len(viol),
    )
    with open(os.path.join(evdir, f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print(f"{prop} {tier}: {len(scns)} scenarios, {ndis}/{nob} obligations discharged over {ev['coverage']['paths']} paths "
          f"({zc} z3 queries, {zt:.1f} s), {len(bounded)} scenarios bounded, {tot_trials} runtime contract executions, {ev['wall_s']} s")
    if verbose or bounded:
        for b in bounded[:30]:
            print(f"  bounded: {b}: {unsup.get(b, '')[-200:]}")
    for e in ev["coverage"]["worker_errors"][:3]:
        print("  note:", e[-300:])
    for k, d in findings:
        print(f"KNOWN-FINDING: property={prop} {k}: {d}")
    seen = set()
    for path, name, label, detail, rep in viol:
        if (name, label) in seen:
            continue
        seen.add((name, label))
        print(f"  {name}: {label}: {detail}"[:600])
        print(f"VIOLATION property={prop} replay={path}" + ("" if rep else " no-failing-input-found"))
    return 1 if viol else 0


TRUSTED = [
    "vc/ (verification-condition generator: AST rewriting, path explorer, aggregate rules) and its z3 / rational-normal-form back ends",
    "vc/snp.py, vc/sxr.py, vc/spd.py, vc/libs.py: assumed contracts of the numpy, xarray, pandas, xgcm, cftime operations the code calls (validated on every run by executing the same contracts on the real libraries)",
]
ASSUME = [
    "floating-point arithmetic treated as real arithmetic with an explicit missing-value flag; runtime validation uses relative tolerance 1e-7",
    "division is total: results at zero divisors shared by contract and code are not distinguished",
    "infinities are not distinguished from missing values; memory layout, dtype width and lazy chunking other than the chunked scenarios are not modelled",
]

if __name__ == "__main__":
    sys.exit(main())
