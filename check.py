#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough]: decide one property of /repo's current working tree.

1. every contract of PROP is run on the real code (real torch) on generated inputs: searches failing inputs and records
   observations;
2. every contract is verified: the code of /repo is read from source and interpreted symbolically, each obligation must be
   discharged for all inputs; the extracted terms are evaluated on the inputs of step 1 and compared with the real outputs.
Outcome: see DESIGN.md ("outcomes")."""
import sys, os, json, time, subprocess, threading, queue, hashlib, tempfile, shutil, argparse
HERE = os.path.dirname(os.path.abspath(__file__))
REAL, TOOL = "/opt/venv/bin/python", "python3-vt"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONHASHSEED="0", CUDA_VISIBLE_DEVICES="")

TRUSTED = ["PyVC (this repository's verifier, /verif/pyvc): symbolic interpreter of Python, models of the torch/pandas/numpy operations it meets, normaliser",
           "z3 (arithmetic back end)", "CPython's ast module (the parse of the source that runs)"]
BASE_ASSUMPTIONS = ["floating-point arithmetic is treated as real arithmetic (rounding, overflow and underflow are outside the proofs)",
                    "torch, numpy and pandas operations behave as modelled in pyvc/torchmodel.py, pyvc/nnmodel.py, pyvc/dfmodel.py (cross-checked numerically against the installed libraries on every run, see cross_check)",
                    "Python integers are mathematical integers; machine integer tensors do not overflow"]


def run_pool(jobs, n, f):
    q = queue.Queue()
    for j in jobs: q.put(j)
    out = []
    def work():
        while True:
            try: j = q.get_nowait()
            except queue.Empty: return
            try: out.append(f(j))
            except Exception as ex: out.append((j, None, repr(ex)))
    ts = [threading.Thread(target=work) for _ in range(n)]
    for t in ts: t.start()
    for t in ts: t.join()
    return out


def sh(cmd, tmax):
    p = subprocess.Popen(cmd, cwd=HERE, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
    try: o, e = p.communicate(timeout=tmax)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        o, e = p.communicate()
        return -9, o, e + "\nkilled: time"
    return p.returncode, o, e


def concrete(ids, seed, trials, tmax, obs, tmp, nproc):
    groups = [ids[k::nproc] for k in range(nproc)]
    groups = [g for g in groups if g]
    def one(g):
        out = os.path.join(tmp, "c_" + hashlib.md5((";".join(g) + seed).encode()).hexdigest() + ".json")
        rc, o, e = sh([REAL, "-m", "pyvc.concrun", "--ids", ";".join(g), "--seed", seed, "--trials", str(trials), "--tmax", str(tmax), "--obs", str(obs), "--out", out], 60 + len(g) * tmax * 2)
        if os.path.exists(out): return json.load(open(out)), None
        return [], f"{g}: rc {rc}: {(e or o)[-800:]}"
    res, errs = {}, []
    for r in run_pool(groups, nproc, one):
        if len(r) == 3: errs.append(str(r)); continue
        for x in r[0]: res[x["id"]] = x
        if r[1]: errs.append(r[1])
    return res, errs


def symbolic(ids, obs_file, tmax, tmp, nproc, deadline):
    def one(i):
        out = os.path.join(tmp, "s_" + hashlib.md5(i.encode()).hexdigest() + ".json")
        left = deadline - time.time()
        if left < 5: return dict(id=i, status="timeout", reason="check time budget", obligations=[])
        t = min(tmax, left)
        rc, o, e = sh([TOOL, "-m", "pyvc.symrun", "--id", i, "--tmax", str(t)] + (["--obs", obs_file] if obs_file else []) + ["--out", out], t + 75)
        if os.path.exists(out):
            r = [x for x in json.load(open(out)) if x["id"] == i]
            if r: return r[0]
        return dict(id=i, status="timeout" if rc == -9 else "unsupported", reason=f"verifier process rc {rc}: {e[-300:]}", obligations=[])
    return {r["id"]: r for r in run_pool(ids, nproc, one) if isinstance(r, dict)}


def contract_ids(prop):
    rc, o, e = sh([TOOL, "-m", "pyvc.symrun", "--list", prop], 60)
    if rc: raise SystemExit("cannot load the contracts: " + e[-2000:])
    return json.loads(o)


def known():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                d = dict(x.split("=", 1) for x in l[len("finding:"):].split("|")[0].split())
                d["text"] = l.split("|", 1)[1].strip()
                out.append(d)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    a = ap.parse_args()
    t0 = time.time()
    prop, seed = a.prop, os.environ.get("VERIF_SEED", "1")
    quick = a.tier != "thorough"
    nproc = min(8, os.cpu_count() or 4)
    info = contract_ids(prop)
    if a.only: info = {k: v for k, v in info.items() if a.only in k}
    ids = list(info)
    if not ids: raise SystemExit("no contracts for " + prop)
    tmp = tempfile.mkdtemp(prefix="pyvc_")
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    try:
        con, errs = concrete([i for i in ids if not info[i].get("symbolic_only")], seed, 24 if quick else 400, 12 if quick else 150, 3 if quick else 10, tmp, nproc)
        obs_file = os.path.join(tmp, "obs.json")
        json.dump([dict(id=r["id"], obs=r["obs"]) for r in con.values()], open(obs_file, "w"))
        tmax = 260 if quick else 1500
        deadline = t0 + (560 if quick else 6000)
        sym = symbolic([i for i in ids if not info[i].get("bounded")], obs_file, tmax, tmp, nproc, deadline)
        # contracts the verifier did not accept: wider search for a failing input on the real code
        bad = {i: r for i, r in sym.items() if r["status"] != "proved" or (r.get("cross") or {}).get("mismatches")}
        more = [i for i in bad if i in con and not con[i]["fails"]]
        if more:
            c2, e2 = concrete(more, seed + "x", 500 if quick else 4000, max(3, min(45, 150 * nproc / len(more))) if quick else 300, 0, tmp, nproc)
            errs += e2
            for i, r in c2.items():
                if i in con: 
                    con[i]["runs"] += r["runs"]; con[i]["checks"] += r["checks"]; con[i]["fails"] += r["fails"]
                else: con[i] = r
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    violations, bounded, notes = [], [], []
    for i in ids:
        for f in (con.get(i) or {}).get("fails", []):
            violations.append(dict(contract=i, obligation=f["obligation"], detail=f["detail"], seed=f["seed"], inputs=f["inputs"], found=True))
        if info[i].get("bounded"):
            bounded.append(dict(contract=i, reason=info[i]["bounded"]))
            continue
        r = sym.get(i)
        if r is None: r = sym[i] = dict(id=i, status="unsupported", reason="no result", obligations=[])
        mism = (r.get("cross") or {}).get("mismatches")
        if mism:
            notes.append(f"{i}: extraction disagrees with the running code: {mism[:2]}; contract not counted as proved")
            bounded.append(dict(contract=i, reason="extraction mismatch"))
            r["status"] = "mismatch"
        elif r["status"] == "failed":
            if not any(v["contract"] == i for v in violations):
                for o in r["obligations"]:
                    if o["proved"] < o["checked"]:
                        violations.append(dict(contract=i, obligation=o["name"], detail=o["why"], found=False))
        elif r["status"] != "proved":
            bounded.append(dict(contract=i, reason=f"{r['status']}: {r['reason']}"))
    kf = [k for k in known() if k["property"] == prop]
    real, listed = [], []
    for v in violations:
        m = [k for k in kf if k["contract"] == v["contract"].split("/", 1)[1].replace(" ", "") and k["obligation"] == v["obligation"].replace(" ", "_")]
        (listed if m else real).append(v)
        if m: v["text"] = m[0]["text"]
    n_ob = sum(o["checked"] for r in sym.values() for o in r.get("obligations", []))
    n_ok = sum(min(o["proved"], o["checked"]) for r in sym.values() if r["status"] in ("proved", "failed") for o in r.get("obligations", []))
    n_ob += sum(1 for r in sym.values() if r["status"] not in ("proved", "failed") and not r.get("obligations"))
    side = sum(r.get("side_ok", 0) for r in sym.values())
    functions = {}
    for r in sym.values():
        for k, v in (r.get("functions") or {}).items():
            functions[k] = functions.get(k, 0) + v if isinstance(v, int) else v
    assumed = sorted({x for r in sym.values() for x in r.get("assumed", [])})
    undef = sorted({x for r in sym.values() for x in r.get("undef", [])})
    evaluations = sum(r["runs"] for r in con.values())
    ev = dict(property=prop, tier="quick" if quick else "thorough", seed=int(seed) if seed.isdigit() else 0, level="proof",
              coverage=dict(
                  obligations=n_ob + side, discharged=n_ok + side,
                  checker_cmd=f"cd /verif && python3 check.py {prop}" + ("" if quick else " --tier thorough"),
                  trusted_base=TRUSTED,
                  contracts={i: dict(status=r["status"], reason=r.get("reason"), wall_s=round(r.get("wall", 0), 2), paths=r.get("paths"), obligations=[dict(name=o["name"], checked=o["checked"], proved=o["proved"]) for o in r.get("obligations", [])]) for i, r in sym.items()},
                  functions_under_contract=sorted(functions),
                  back_ends=dict(z3_calls=sum((r.get("stats") or {}).get("z3_calls", 0) for r in sym.values()), z3_seconds=round(sum((r.get("stats") or {}).get("z3_time", 0) for r in sym.values()), 2),
                                 normaliser_seconds=round(sum(r.get("wall", 0) for r in sym.values()) - sum((r.get("stats") or {}).get("z3_time", 0) for r in sym.values()), 2)),
                  cross_check=dict(values_compared=sum((r.get("cross") or {}).get("compared", 0) for r in sym.values()), mismatches=sum(len((r.get("cross") or {}).get("mismatches", [])) for r in sym.values()), values_without_interpretation=sum((r.get("cross") or {}).get("novalue", 0) for r in sym.values())),
                  bounded=bounded, bounded_note="contracts listed under 'bounded' were only run on generated inputs (bounded check), they are not counted as proved",
                  concrete_runs=evaluations, concrete_checks=sum(r["checks"] for r in con.values()), concrete_skipped=sum(r["skipped"] for r in con.values()),
                  samples=[dict(contract=i, inputs=s) for i, r in list(con.items())[:4] for s in r.get("samples", [])[:1]],
                  notes=notes + errs),
              assumptions=BASE_ASSUMPTIONS + ["assumed: " + x for x in assumed] + ["denominator/argument assumed in the domain of the operation (not proved): " + x for x in undef],
              wall_s=round(time.time() - t0, 1), violations=len(real))
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print(f"{prop}: {len(ids)} contracts, {n_ok + side}/{n_ob + side} obligations discharged, {len(functions)} functions, {evaluations} concrete runs, {len(bounded)} bounded, {ev['wall_s']} s")
    for n in notes + errs: print("note:", n)
    for b in bounded: print("BOUNDED:", b["contract"], "|", str(b["reason"])[:300])
    for k in kf:
        if any(v.get("text") == k["text"] for v in listed): print(f"KNOWN-FINDING: property={prop} {k['text']}")
        else: print(f"note: known finding no longer observed: {k['text']}")
    if len(con) < sum(1 for i in ids if not info[i].get("symbolic_only")) and not real:
        # the real code could not be exercised at all: no answer rather than a wrong one
        print("error: concrete runs failed:", errs)
        if not sym or any(r["status"] != "proved" for r in sym.values()): sys.exit(2)
    if real:
        real.sort(key=lambda v: not v["found"])
        for n, v in enumerate(real[:6]):
            p = os.path.join(HERE, "replays", f"{prop}_{n}.json")
            v["property"] = prop
            v["replay_cmd"] = f"cd /verif && {REAL} -m pyvc.concrun --ids '{v['contract']}' --one '{v['seed']}'" if v["found"] else f"cd /verif && {TOOL} -m pyvc.symrun --id '{v['contract']}'"
            with open(p, "w") as f: json.dump(v, f, indent=1)
            print(f"{v['contract']}: obligation '{v['obligation']}': {str(v['detail'])[:500]}")
            print(f"VIOLATION property={prop} replay={p}" + ("" if v["found"] else " no-failing-input-found"))
        sys.exit(1)
    sys.exit(0)


main()
