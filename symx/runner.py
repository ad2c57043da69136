"""Explore the harnesses of one property on all cores; replay, report, write evidence."""

from __future__ import annotations

import hashlib
import json
import multiprocessing as mp
import os
import random
import resource
import sys
import time
import traceback
import warnings

from . import engine as E

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


class Job:
    """One harness with fixed bounds.

    ``weight`` shares time between jobs that cannot be exhausted; ``must`` jobs are explored first."""

    def __init__(self, name, fn, cfg=None, bounds="", weight=1.0, known=None):
        self.name, self.fn, self.cfg, self.bounds, self.weight = name, fn, cfg or {}, bounds, weight
        self.known = known


# ---------------------------------------------------------------- function coverage
class Cov:
    def __init__(self):
        self.seen = {}
        self.tool = 3

    def start(self):
        mon = sys.monitoring
        try:
            mon.use_tool_id(self.tool, "symx")
        except ValueError:
            return
        pre = REPO + "/graphix/"

        def on_start(code, off):
            f = code.co_filename
            if f.startswith(pre):
                q = f[len(REPO) + 1:] + ":" + code.co_qualname
                self.seen[q] = 1
            return mon.DISABLE

        mon.register_callback(self.tool, mon.events.PY_START, on_start)
        mon.set_events(self.tool, mon.events.PY_START)


COV = Cov()


def same_error(a, b):
    return a.split(":")[0] == b.split(":")[0]


def settle(job, e, out, seed, stats):
    """Replay an outcome concretely. Returns (kind, record)."""
    kind = out[0]
    if kind == "inconclusive":
        return "inconclusive", {"job": job.name, "msg": out[1]}
    model = out[2]
    if model is None:
        return "noreplay", {"job": job.name, "msg": out[1], "tb": out[3] if len(out) > 3 else ""}
    ce, cout = E.run_path(job.fn, job.cfg, (), seed, E.Stats(), mode="concrete", model=model)
    if cout is not None and cout[0] in ("violation", "error"):
        rec = {"job": job.name, "msg": cout[1], "symbolic": out[1], "model": model, "notes": [str(n) for n in ce.notes],
               "kind": cout[0]}
        if cout[0] == "error":
            rec["tb"] = cout[3]
        return "violation", rec
    return "spurious", {"job": job.name, "msg": out[1], "model": model, "tb": out[3] if len(out) > 3 else ""}


def eager_explore(job, e, seed, stats, deadline):
    """Re-explore the path of engine e with plain Python values (proxy gave up)."""
    work = [()]
    res = []
    rng = random.Random(seed)
    while work and time.time() < deadline:
        p = work.pop(rng.randrange(len(work)))
        e2, out = E.run_path(job.fn, job.cfg, p, seed, stats, mode="eager", assume=dict(e.choices), init_pc=list(e.pc))
        stats.eager_paths += 1
        work.extend(e2.new_prefixes)
        if out is not None:
            res.append((e2, out))
            if len(res) > 2:
                break
    return res, bool(work)


def explore_slice(jobs, ji, prefixes, seed, budget, max_paths=10**9):
    job = jobs[ji]
    stats = E.Stats()
    end = time.time() + budget
    rng = random.Random(hash((seed, ji, tuple(prefixes[:1]))) & 0xFFFFFFF)
    work = list(prefixes)
    recs = []
    sample = None
    while work and time.time() < end and stats.paths < max_paths:
        p = work.pop(rng.randrange(len(work))) if rng.random() < 0.3 else work.pop()
        e, out = E.run_path(job.fn, job.cfg, p, seed, stats)
        work.extend(e.new_prefixes)
        if sample is None and e.choices is not None:
            sample = {"job": job.name, "choices": {k: v for k, v in list(e.choices.items())[:40]},
                      "symbolic_bits": len(e.varnames), "symbolic_reals": sorted(e.reals)[:20],
                      "decisions": len(e.decisions), "notes": [str(n)[:300] for n in e.notes[:4]]}
        if out is None:
            continue
        kind, rec = settle(job, e, out, seed, stats)
        if kind == "spurious" and out[0] == "error" and not out[1].startswith("Hang:"):
            sub, trunc = eager_explore(job, e, seed, stats, end + 5)
            ok = not trunc
            for e2, out2 in sub:
                k2, r2 = settle(job, e2, out2, seed, stats)
                if k2 == "violation":
                    recs.append((k2, r2))
                else:
                    ok = False
            if ok:
                recs.append(("eager", rec))
            else:
                recs.append(("unsupported", rec))
        else:
            recs.append((kind, rec))
        if any(k == "violation" for k, _ in recs):
            break
    return {"ji": ji, "left": work, "stats": stats.as_dict(), "recs": recs, "sample": sample,
            "cov": list(COV.seen)}


def _worker(jobs, seed, conn):
    import os, sys

    sys.stdout = open(os.devnull, "w")  # some functions under test print
    resource.setrlimit(resource.RLIMIT_AS, (3500 << 20, 3500 << 20))  # a runaway computation ends as an error
    warnings.simplefilter("ignore")
    try:
        while True:
            msg = conn.recv()
            if msg is None:
                return
            ji, prefixes, budget, maxp = msg
            try:
                r = explore_slice(jobs, ji, prefixes, seed, budget, maxp)
            except Exception as ex:  # noqa: BLE001
                r = {"ji": ji, "left": [], "stats": E.Stats().as_dict(),
                     "recs": [("noreplay", {"job": jobs[ji].name, "msg": repr(ex), "tb": traceback.format_exc()})],
                     "sample": None, "cov": []}
            conn.send(r)
    except (EOFError, KeyboardInterrupt):
        return


def explore(jobs, seed, deadline_s, nproc=8, verbose=False, stop_first=True):
    ctx = mp.get_context("fork")
    t0 = time.time()
    n = len(jobs)
    work = [[()] for _ in jobs]
    active = [0] * n
    spent = [0.0] * n
    stats = [E.Stats() for _ in jobs]
    recs = []
    samples = []
    cov = set()
    ws = []
    for _ in range(nproc):
        a, b = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(jobs, seed, b), daemon=True)
        p.start()
        b.close()
        ws.append((p, a))
    idle = list(range(nproc))
    busy = {}
    stop = False
    from multiprocessing.connection import wait

    while True:
        now = time.time() - t0
        if now > deadline_s:
            stop = True
        while idle and not stop:
            cands = [j for j in range(n) if work[j]]
            if not cands:
                break
            j = min(cands, key=lambda j: (spent[j] + 0.8 * active[j]) / jobs[j].weight)
            w = work[j]
            if stats[j].paths == 0:
                take, budget, maxp = w[:], 0.3, 64
                work[j] = []
            else:
                k = max(1, (len(w) + nproc - 1) // nproc)
                k = min(k, 4000)
                # shallow prefixes first: they stand for larger subtrees
                w.sort(key=len, reverse=True)
                take, work[j] = w[-k:], w[:-k]
                budget, maxp = min(1.5, max(0.2, deadline_s - now)), 10**9
            wk = idle.pop()
            ws[wk][1].send((j, take, budget, maxp))
            busy[wk] = (j, take, time.time())
            active[j] += 1
        if not busy:
            break
        ready = wait([ws[k][1] for k in busy] + [ws[k][0].sentinel for k in busy], timeout=1.0)
        for k in list(busy):
            conn = ws[k][1]
            got = None
            if conn in ready:
                try:
                    got = conn.recv()
                except EOFError:
                    got = None
                    dead = True
                else:
                    dead = False
            elif ws[k][0].sentinel in ready or not ws[k][0].is_alive():
                dead = True
            else:
                continue
            j, take, ts = busy.pop(k)
            active[j] -= 1
            spent[j] += time.time() - ts
            if dead:
                recs.append(("noreplay", {"job": jobs[j].name, "msg": "worker died"}))
                a, b = ctx.Pipe()
                p = ctx.Process(target=_worker, args=(jobs, seed, b), daemon=True)
                p.start()
                b.close()
                ws[k] = (p, a)
                idle.append(k)
                continue
            idle.append(k)
            work[j].extend(got["left"])
            stats[j].add(got["stats"])
            recs.extend(got["recs"])
            cov.update(got["cov"])
            if got["sample"] and sum(1 for s in samples if s["job"] == got["sample"]["job"]) < 1:
                samples.append(got["sample"])
            if stop_first and any(x[0] == "violation" for x in got["recs"]):
                stop = True
        if stop and time.time() - t0 > deadline_s + 45:
            break
    for p, a in ws:
        try:
            a.send(None)
        except OSError:
            pass
    for k, (p, a) in enumerate(ws):
        p.join(0.2)
        if p.is_alive():
            p.terminate()
    return {"stats": stats, "left": [len(w) for w in work], "recs": recs, "samples": samples, "cov": cov,
            "spent": spent, "wall": time.time() - t0}


def jdefault(o):
    try:
        return float(o)
    except Exception:  # noqa: BLE001
        return str(o)


def main(pid, jobs, tier, seed, budget, level="other", statement="", outside="", verbose=False, only=None,
         nproc=None, write=True):
    warnings.simplefilter("ignore")
    t0 = time.time()
    if only:
        jobs = [j for j in jobs if any(o in j.name for o in only)]
    nproc = nproc or int(os.environ.get("SYMX_PROCS", "8"))
    r = explore(jobs, seed, budget, nproc=nproc, stop_first=True)
    viol = [x[1] for x in r["recs"] if x[0] == "violation"]
    other = {}
    for k, x in r["recs"]:
        if k != "violation":
            other.setdefault(k, []).append(x)
    tot = E.Stats()
    jobrows = []
    for j, st, left in zip(jobs, r["stats"], r["left"]):
        tot.add(st.as_dict())
        jobrows.append({"harness": j.name, "bounds": j.bounds, "exhausted": left == 0 and not viol, "paths": st.paths,
                        "claim_queries": st.claim_queries, "queries": st.queries, "folded": st.folded,
                        "solver_s": round(st.solver_s, 2), "reached": st.reached, "prefixes_left": left,
                        "eager_paths": st.eager_paths})
    if verbose:
        for row in jobrows:
            print(row)
        for k, xs in other.items():
            print("==", k, len(xs))
            for x in xs[:3]:
                print("   ", x.get("job"), x.get("msg"))
                if x.get("model"):
                    print("     model", x.get("model"))
                if x.get("tb"):
                    print(x["tb"])
    exhausted = all(row["exhausted"] for row in jobrows)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "explanation": "Bounded symbolic execution of the real graphix code. Inputs are symbolic (GF(2) bits, real "
            "angles, lazily forked selectors); z3 decides branch feasibility and, per path, whether any input on that "
            "path falsifies the claim. Counterexamples are replayed on the real code before being reported. "
            + ("Every harness below was explored to exhaustion within its bounds." if exhausted else
               "Harnesses marked exhausted=false were explored up to the time budget, in randomised order; the paths "
               "explored are decided for all symbolic values, the remaining prefixes are not covered."),
            "harnesses": jobrows,
            "paths": tot.paths, "solver_queries": tot.queries, "claim_queries": tot.claim_queries,
            "claims_closed_by_normal_form": tot.folded, "normal_form_claims_rechecked_by_z3": tot.crosschecked, "solver_seconds": round(tot.solver_s, 2),
            "paths_reaching_claims": tot.reached, "solver_unknown": tot.unknown,
            "functions_encoded": sorted(r["cov"]),
            "outside_bounds": outside,
            "samples": r["samples"][:6],
            "nonreproducing": {k: len(v) for k, v in other.items()},
            "exhaustive": exhausted,
        },
        "assumptions": [
            "angles and amplitudes are exact reals (no floating-point rounding); generic angles stay 1e-6 away from multiples of pi/2",
            "z3 and the reference semantics in /verif/symx/sem.py are trusted; numpy executes concrete numeric operations",
        ],
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    if write:
        os.makedirs(f"{ROOT}/evidence", exist_ok=True)
        with open(f"{ROOT}/evidence/{pid}.json", "w") as f:
            json.dump(ev, f, indent=1, default=jdefault)
    print(f"{pid}: {tot.paths} paths, {tot.queries} queries, {tot.claim_queries} claim queries, "
          f"{tot.folded} folded, {tot.solver_s:.1f}s solver, {time.time()-t0:.1f}s wall, exhausted={exhausted}, "
          f"nonreproducing={ {k: len(v) for k, v in other.items()} }")
    for row in jobrows:
        if row["reached"] == 0 and not viol:
            print(f"NOTE: harness {row['harness']} reached no claim")
    if viol:
        v = viol[0]
        os.makedirs(f"{ROOT}/evidence/replay", exist_ok=True)
        h = hashlib.sha1(json.dumps(v, sort_keys=True, default=jdefault).encode()).hexdigest()[:10]
        path = f"evidence/replay/{pid}-{h}.json"
        with open(f"{ROOT}/{path}", "w") as f:
            json.dump(dict(v, property=pid, tier=tier), f, indent=1, default=jdefault)
        print(f"  harness {v['job']}: {v['msg']}")
        for n in v.get("notes", [])[:12]:
            print("   ", n)
        if v.get("tb"):
            print(v["tb"])
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    return 0
