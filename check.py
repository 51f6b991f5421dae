#!/opt/venv/bin/python
"""check.py <PROPERTY> [--only SUBSTR] [--trace] [--replay FILE]
Decides one property: every contract registered for it is discharged against
/repo's current source.  Exit 0 / exit 1 + VIOLATION line."""
import os
import sys
import re
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("MKL_NUM_THREADS", "1")
os.environ["PYTHONHASHSEED"] = os.environ.get("PYTHONHASHSEED", "0")
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
if os.environ.get("_VT_REEXEC") != "1":
    os.environ["_VT_REEXEC"] = "1"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    py = "/opt/venv/bin/python"
    os.execv(py, [py] + sys.argv)
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import json
import time
import importlib
import multiprocessing as mp
import hashlib
import logging
logging.disable(logging.CRITICAL)


def keys(x):
    if isinstance(x, dict):
        return {k if isinstance(k, str) else str(k): keys(v) for k, v in x.items()}
    return [keys(v) for v in x] if isinstance(x, (list, tuple)) else x


def jd(x):
    try:
        return json.loads(json.dumps(keys(x), default=str))
    except Exception:
        return repr(x)


def tojson(inputs):
    out = {}
    for k, v in inputs.items():
        out[k] = [[list(i), x] for i, x in v.items()] if isinstance(v, dict) else v
    return out


class Died(BaseException):
    """the process running the real code ended"""


def real_runner(con, seed):
    """run_concrete in a process of its own, forked before anything symbolic touches torch"""
    from vt import ctx
    a, b = mp.Pipe()
    pid = os.fork()
    if pid == 0:
        a.close()
        try:
            while True:
                n, kw = b.recv()
                try:
                    r = ctx.run_concrete(con, seed, n, **kw)
                except Exception as e:
                    r = e
                try:
                    b.send(r)
                except Exception:
                    b.send(RuntimeError(repr(r)[:500]))
        except BaseException:
            pass
        os._exit(0)
    b.close()

    def run(n, **kw):
        try:
            a.send((n, kw))
            r = a.recv()
        except (EOFError, OSError):
            _, st = os.waitpid(pid, 0)
            raise Died(f"process died (status {st})")
        if isinstance(r, Exception):
            raise r
        return r
    return run


def worker(a, skip=None):
    i, tier, seed, scale, trace = a
    from vt import ctx
    con = ctx.REG[i]
    from vt import smt
    import torch
    torch.set_num_threads(1)
    for k in smt.STATS:
        smt.STATS[k] = 0
    mul = 4 if tier == "thorough" else 1
    t0 = time.time()
    out = dict(i=i, name=con.name, fns=con.fns, sym=None, conc=None, violation=None, downgraded=None, bounded=con.bounded)
    log = (lambda s: print(s, flush=True)) if trace else None
    early = {}
    real = real_runner(con, seed)

    def probe(seeds):
        """an obligation failed: look at once for an input on which the real code fails it"""
        try:
            r = real(min(6, 2 * len(seeds)), given=seeds, seconds=10) if seeds else None
            if r is None or not r["failure"]:
                r = real(con.trials * 2, seconds=20)
        except Exception:
            return False
        if r["failure"]:
            early["r"] = r
        return bool(r["failure"])
    try:
        if skip is not None:
            out["sym"] = dict(obligations=0, discharged=0, failed=[], unsupported=skip, paths=0, used={}, labels=set(), raised=[], sat=0, infeasible=0)
            out["downgraded"] = None if con.conc_only else skip
        elif not con.conc_only:
            out["sym"] = ctx.run_symbolic(con, log=log, trace=trace, budget=con.seconds * 2 * mul, probe=probe)
            sy = out["sym"]
            if not early and time.time() - t0 < 60 * mul and any(f.get("timeout") or "budget" in f["why"] for f in sy["failed"]):
                con.seconds *= 3
                out["sym"] = sy = ctx.run_symbolic(con, log=log, trace=trace, budget=con.seconds)
            if sy["unsupported"]:
                out["downgraded"] = sy["unsupported"]
    except Exception as e:
        import traceback
        out["downgraded"] = f"engine error {type(e).__name__}: {e}"
        if trace:
            traceback.print_exc()
        if out["sym"] is None:
            out["sym"] = dict(obligations=0, discharged=0, failed=[], unsupported=str(e), paths=0, used={}, labels=set(), raised=[], sat=0,
                              infeasible=0)
    sy = out["sym"]
    t1 = time.time()
    failed = sy["failed"] if sy else []
    # real-code runs of the same contract
    n = con.trials * mul
    if failed or out["downgraded"]:
        n *= 6
    seeds = [s for f in failed for s in f["seeds"] if s]
    conc = early.get("r")
    try:
        if conc:
            pass
        elif seeds:
            conc = real(min(8, 2 * len(seeds)), given=seeds, seconds=30)
        if conc is None or not conc["failure"]:
            c2 = real(n, seconds=(30 if not failed else 60) * mul)
            if conc:
                c2["evals"] += conc["evals"]
                c2["labels"] |= conc["labels"]
            conc = c2
    except Exception as e:
        conc = dict(ran=0, skipped=0, evals=0, labels=set(), failure=None, samples=[], error=repr(e))
    out["conc"] = conc
    if conc["failure"]:
        out["violation"] = dict(kind="input", failure=conc["failure"], proof=failed[:3])
    elif failed:
        bad = [f for f in failed if f["explicit"]]
        if bad and not out["downgraded"]:
            out["violation"] = dict(kind="nofail", proof=bad[:6])
        elif not out["downgraded"]:
            out["downgraded"] = "exception inside the engine: " + failed[0]["why"]
    for k in ("sym", "conc"):
        if out[k]:
            out[k]["labels"] = sorted(out[k]["labels"])
    out["stats"] = dict(smt.STATS)
    cp = sys.modules.get("vt.cpp")
    out["cpp"] = sorted(cp.USED) if cp else []
    out["t_sym"], out["t_conc"] = t1 - t0, time.time() - t1
    return out


NATIVE = None


def level_of(prop):
    """properties decided by bounded stand-ins only are not called proved"""
    return "exploration" if prop in json.load(open(os.path.join(HERE, "tools", "notes.json")))["bounded_only"] else "proof"



def child(conn, job, skip):
    os.setpgid(0, 0)
    try:
        r = worker(job, skip)
    except BaseException as e:
        r = dict(error=repr(e))
    conn.send(r)
    conn.close()
    os._exit(0)


def schedule(ids, tier, seed):
    """every contract in its own process, with a limit on its time; a proof that runs over or a process that dies is
    followed by real runs alone"""
    import signal
    from multiprocessing import connection
    from vt import ctx
    c = mp.get_context("fork")
    t0 = time.time()
    hard, end = (240, 700) if tier != "thorough" else (1800, 10 ** 9)
    # expensive proofs first
    todo = [(i, None) for i in sorted(ids, key=lambda i: -ctx.REG[i].seconds)]
    run, outs = {}, []

    def dead(i, why, skip):
        con = ctx.REG[i]
        if skip is None and time.time() - t0 < end:
            todo.insert(0, (i, why))
            return
        o = dict(i=i, name=con.name, fns=con.fns, sym=None, violation=None, downgraded=why, bounded=con.bounded, stats={}, cpp=[], t_sym=0.0, t_conc=0.0,
                 conc=dict(ran=0, skipped=0, evals=0, labels=[], failure=None, samples=[], error=why))
        if "died" in why:
            o["violation"] = dict(kind="input", failure=dict(label="defined", index=[], info="the real code ended the process: " + why, inputs={}, exc=None), proof=[])
        outs.append(o)
    while todo or run:
        while todo and len(run) < 8:
            i, skip = todo.pop(0)
            a, b = c.Pipe(False)
            p = c.Process(target=child, args=(b, (i, tier, seed, 1, False), skip))
            p.start()
            b.close()
            run[a] = (i, skip, p, time.time())
        for a in connection.wait(list(run), timeout=2):
            i, skip, p, t = run.pop(a)
            try:
                r = a.recv()
            except Exception:
                r = None
            p.join(5)
            a.close()
            if r is not None and "error" not in r:
                outs.append(r)
            else:
                dead(i, r["error"] if r else f"process died (exit {p.exitcode})", skip)
        now = time.time()
        for a, (i, skip, p, t) in list(run.items()):
            if now - t > (hard if skip is None else 120 * (1 if tier != "thorough" else 10)) or now - t0 > end + (0 if skip is None else 100):
                del run[a]
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    p.kill()
                p.join()
                a.close()
                dead(i, "time limit reached", skip)
    return outs


def findings():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def main():
    args = [a for a in sys.argv[1:]]
    only, trace, replay = None, False, None
    if "--only" in args:
        k = args.index("--only")
        only = args[k + 1]
        del args[k:k + 2]
    if "--trace" in args:
        trace = True
        args.remove("--trace")
    if "--replay" in args:
        k = args.index("--replay")
        replay = args[k + 1]
        del args[k:k + 2]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    from vt import ctx
    files = [f for f in sorted(os.listdir(os.path.join(HERE, "contracts"))) if re.fullmatch(r"[a-z]\d\d.*\.py", f) and f[:3].upper() == prop]
    if any("\nNATIVE = True" in open(os.path.join(HERE, "contracts", f)).read() for f in files):
        from vt import native
        global NATIVE
        NATIVE = native.ensure(REPO)
        print("native extension:", NATIVE)
    for f in files:
        importlib.import_module("contracts." + f[:-3])
    ids = [i for i, c in enumerate(ctx.REG) if c.prop == prop and (only is None or only in c.name) and (tier == "thorough" or c.quick)]
    if replay:
        r = json.load(open(replay))
        for i in ids:
            if ctx.REG[i].name == r["contract"]:
                giv = {}
                for k, v in (r.get("inputs") or {}).items():
                    giv[k] = v
                print(ctx.run_concrete(ctx.REG[i], seed, 1, given=giv)["failure"])
        return 0
    import torch
    torch.set_num_threads(1)
    if not ids:
        print("no contracts for", prop)
        return 2
    from vt import smt
    outs = []
    if trace or len(ids) == 1:
        outs = [worker((i, tier, seed, 1, trace)) for i in ids]
    else:
        outs = schedule(ids, tier, seed)
        outs.sort(key=lambda o: o["i"])
    return report(prop, tier, seed, outs, t0)


def report(prop, tier, seed, outs, t0, extra=None):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    known = [k for k in findings() if k["property"] == prop and k.get("status") == "known"]
    viol, kf = [], []
    ob = dis = 0
    used, fns, rows = {}, set(), []
    for o in outs:
        sy = o["sym"]
        v = o["violation"]
        if v:
            what = v["failure"]["label"] if v["kind"] == "input" else v["proof"][0]["label"]
            k = [k for k in known if k["contract"] == o["name"] and (k["label"] == what or k["label"] == "*")]
            if k:
                kf.append((k[0], o))
                continue
            viol.append((o, v, what))
        if sy and not o["downgraded"] and not o["bounded"]:
            ob += sy["obligations"]
            dis += sy["discharged"]
            fns |= set(o["fns"])
        for u, n in (sy or {}).get("used", {}).items():
            used[u] = used.get(u, 0) + n
        rows.append(dict(contract=o["name"], status="violated" if v else ("bounded: " + o["bounded"] if o["bounded"] else (
            "downgraded to bounded real-code runs: " + o["downgraded"] if o["downgraded"] else ("runtime-checked (bounded)" if not sy else "proved"))),
            obligations=sy["obligations"] if sy else 0, discharged=sy["discharged"] if sy else 0,
            paths=sy["paths"] if sy else 0, infeasible=sy["infeasible"] if sy else 0, real_runs=o["conc"]["ran"],
            real_evals=o["conc"]["evals"], reached=len(o["conc"]["labels"]), functions=o["fns"], seconds=round(o["t_sym"] + o["t_conc"], 2)))
    # vacuity: every contract must have been executed on real inputs
    vac = [o["name"] for o in outs if o["conc"]["ran"] == 0 and not o["violation"]]
    st = {}
    for o in outs:
        for k, v in o["stats"].items():
            st[k] = round(st.get(k, 0) + v, 3)
    from vt import trusted
    ev = dict(property=prop, tier=tier, seed=seed, level=level_of(prop), wall_s=round(time.time() - t0, 2), violations=len(viol),
              assumptions=trusted.ASSUMPTIONS,
              coverage=dict(obligations=ob, discharged=dis, checker_cmd=f"/opt/venv/bin/python check.py {prop}", trusted_base=trusted.BASE,
                            functions_under_contract=sorted(fns), backends=used, solver=st, contracts=rows, vacuous=vac,
                            evaluations=sum(o["conc"]["ran"] for o in outs), distinct_nontrivial=sum(o["conc"].get("distinct", 0) for o in outs),
                            clauses_evaluated=sum(o["conc"]["evals"] for o in outs),
                            rule="one evaluation = one run of a contract on the real code with generated inputs; non-trivial: the inputs met the precondition, were drawn by the contract, and at least one clause was evaluated; distinct: different drawn inputs",
                            samples=[s for o in outs for s in o["conc"]["samples"][:1]][:5],
                            known_findings=[k["what"] for k, _ in kf]))
    if NATIVE:
        ev["coverage"]["native_extension"] = NATIVE
        ev["coverage"]["cpp_functions_executed"] = sorted({u for o in outs for u in o.get("cpp", ())})
    if extra:
        ev["coverage"].update(extra)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1, default=str)
    verbose = len(outs) < 8
    for o in outs:
        tag = "VIOLATED" if o["violation"] else ("downgraded " + o["downgraded"] if o["downgraded"] else "ok")
        sy = o["sym"]
        if tag == "ok" and not verbose and o["t_sym"] < 20 and not o["conc"].get("error") and o["conc"]["ran"]:
            continue
        print(f"{prop} {o['name']}: {(str(sy['discharged']) + '/' + str(sy['obligations'])) if sy else '-'} obligations, "
              f"{o['conc']['ran']} real runs ({o['conc']['skipped']} skipped), {o['t_sym']:.1f}+{o['t_conc']:.1f}s: {tag}"
              + (f" CONCERR {o['conc']['error']}" if o["conc"].get("error") else ""))
        if o["violation"]:
            print("   ", json.dumps(jd(o["violation"]))[:1500])
    for k, o in kf:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for n in vac:
        print(f"note: contract {n} was not exercised on a real input")
    print(f"{prop}: {dis}/{ob} obligations discharged, {len(fns)} functions under contract, {time.time()-t0:.1f}s")
    rc = 0
    for n, (o, v, what) in enumerate(viol):
        h = hashlib.sha1((o["name"] + what).encode()).hexdigest()[:8]
        path = os.path.join("evidence", f"replay-{prop}-{h}.json")
        doc = dict(property=prop, contract=o["name"], obligation=what, seed=seed, inputs=None, verifier_output=jd(v.get("proof")),
                   how=f"/opt/venv/bin/python check.py {prop} --only '{o['name']}' --replay {path}")
        if v["kind"] == "input":
            doc["inputs"] = jd(v["failure"]["inputs"])
            doc["observed"] = jd(v["failure"])
        json.dump(doc, open(os.path.join(HERE, path), "w"), indent=1, default=str)
        print(f"VIOLATION property={prop} replay={path}" + ("" if v["kind"] == "input" else " no-failing-input-found"))
        rc = 1
    return rc


if __name__ == "__main__":
    sys.exit(main())
