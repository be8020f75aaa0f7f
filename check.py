#!/usr/bin/env python3
"""check.py <property>: decide the property from /repo's current source.  Exit 0 quiet, 1 violation, 2 analysis broken."""
import json, os, signal, sys, time, traceback, importlib
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(30000)
import threading
threading.stack_size(512 * 1024 * 1024)

from sa.loader import Program, AnalysisError
from sa.ob import Ob
from sa.registry import CLAIMS


class Timeout(Exception):
    pass


def known_findings():
    out = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                d = dict(x.split("=", 1) for x in line[8:].split() if "=" in x)
                out[(d["property"], d["key"])] = line.split(" -- ", 1)[-1]
    return out


def spec_ob(prog, sp, n, thorough):
    r = sp.run(n, thorough)
    return Ob(n, {"equal": "ok", "specialised": "ok", "diff": "violation"}.get(r.verdict, "undecided"),
              r.where, r.why, rule="value numbering: " + r.verdict,
              size=r.leaves, funcs=sorted(r.funcs), cases=len(r.cases))


def in_big_thread(f):
    out = []

    def run():
        try:
            out.append((True, f()))
        except BaseException as e:
            out.append((False, (e, traceback.format_exc())))
    t = threading.Thread(target=run)
    t.start()
    t.join()
    return out[0]


USED = set


def parallel(jobs, budget, workers=None, stop=None):
    """run each (name, thunk) in a forked process; a job that overruns or dies is undecided"""
    import pickle, select
    workers = workers or int(os.environ.get("SA_WORKERS", 0)) or max(1, min(8, os.cpu_count() or 1))
    t_end = time.time() + budget
    todo, running, done = list(jobs), {}, {}
    while todo or running:
        while todo and len(running) < workers:
            name, f = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                okay, v = in_big_thread(f)
                if okay:
                    data = pickle.dumps((v, USED()))
                else:
                    e, tb = v
                    data = pickle.dumps(("broken" if isinstance(e, AnalysisError) else "error", str(e), tb))
                with os.fdopen(w, "wb") as g:
                    g.write(data)
                os._exit(0)
            os.close(w)
            running[r] = (name, pid, [])
        ready, _, _ = select.select(list(running), [], [], 1.0)
        for r in ready:
            chunk = os.read(r, 1 << 20)
            name, pid, buf = running[r]
            if chunk:
                buf.append(chunk)
                continue
            os.close(r)
            os.waitpid(pid, 0)
            del running[r]
            try:
                done[name] = pickle.loads(b"".join(buf))
                if len(done[name]) == 2:
                    done[name], used = done[name]
                    USED().update(used)
            except Exception:
                done[name] = ("error", "worker died", "")
            if stop is not None and stop(done[name]):
                t_end = min(t_end, time.time() + 100)
        if time.time() > t_end:
            for r, (name, pid, buf) in running.items():
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                done[name] = ("error", "time limit", "")
            for name, _ in todo:
                done[name] = ("error", "time limit", "")
            break
    return done


def main(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    thorough = tier == "thorough"
    prog = Program()
    global USED
    USED = lambda: prog.used
    jobs = []
    limit = 700 if not thorough else 3300
    if os.path.exists(os.path.join(ROOT, "specs", pid.lower() + ".py")):
        from sa.spec import Spec
        sp = Spec(prog, pid)
        sp.check_anchors()
        for n in sp.names():
            jobs.append((n, lambda n=n: spec_ob(prog, sp, n, thorough)))
    try:
        m = importlib.import_module("sa.rules_" + pid.lower())
    except ModuleNotFoundError as e:
        if e.name != "sa.rules_" + pid.lower():
            raise
        m = None
    if m is not None and hasattr(m, "jobs"):
        jobs += m.jobs(prog, thorough)
    elif m is not None:
        jobs.append(("@rules", lambda: m.run(prog, thorough)))
    known = known_findings()

    def settled(v):
        """a violation to report: the rest need not be waited for much longer"""
        return any(o.verdict == "violation" and (pid, o.name) not in known for o in (v if isinstance(v, list) else [v]) if isinstance(o, Ob))

    res = parallel(jobs, limit, stop=settled)
    obs = []
    for name, _ in jobs:
        r = res[name]
        if isinstance(r, tuple):
            if r[0] == "broken":
                raise AnalysisError(r[1])
            if os.environ.get("SA_DEBUG"):
                print(r[2])
            obs.append(Ob(name, "undecided", "", f"analysis did not finish: {r[1]}"))
        elif isinstance(r, list):
            obs += r
        else:
            obs.append(r)
    if not obs:
        raise AnalysisError("no obligations")
    viol = []
    for o in obs:
        if o.verdict == "violation":
            k = known.get((pid, o.name))
            if k is not None:
                o.verdict = "known finding"
                print(f"KNOWN-FINDING: property={pid} {k}")
            else:
                viol.append(o)
        elif o.verdict == "undecided":
            print(f"UNDECIDED {pid} {o.name}: {o.detail[:200]}")
    funcs = sorted(set(f for o in obs for f in o.funcs))
    ok = [o for o in obs if o.verdict == "ok"]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": CLAIMS.get(pid, {}).get("note", ""),
            "rule": CLAIMS.get(pid, {}).get("technique", ""),
            "obligations": len(obs), "discharged": len(ok),
            "undecided": sorted(o.name for o in obs if o.verdict == "undecided"),
            "cases_compared": sum(o.cases for o in obs), "leaves_compared": sum(o.size for o in obs),
            "modules_parsed": sorted(prog.used), "source_digest": prog.digest(),
            "functions_analysed": funcs,
            "samples": [dict(obligation=o.name, where=o.where, rule=o.rule, verdict=o.verdict) for o in obs[:60]],
        },
        "assumptions": ["Python's ast parses the file the interpreter would run; no monkey patching of modepy at run time",
                        "numpy/scipy/pytools functions behave as documented (sa/models.py)"],
        "wall_s": round(time.time() - t0, 3), "violations": len(viol),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid}: {len(ok)}/{len(obs)} obligations hold, {len(funcs)} functions analysed, {time.time() - t0:.1f}s")
    if viol:
        rp = os.path.join(ROOT, "evidence", pid + ".violation.txt")
        with open(rp, "w") as f:
            for o in viol:
                f.write(f"{pid} {o.name}\n  where: {o.where}\n  rule: {o.rule}\n  {o.detail}\n  functions: {', '.join(o.funcs)}\n")
                print(f"  {o.name} [{o.where}]: {o.detail[:600]}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    return 0


rc = 3
try:
    rc = main(sys.argv[1])
except AnalysisError as e:
    print("analysis broken:", e)
    rc = 2
except Exception:
    traceback.print_exc()
sys.stdout.flush()
sys.exit(rc)
