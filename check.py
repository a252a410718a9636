#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough] | --replay FILE

Discharges every obligation of the contracts behind PROPERTY from the current source in /repo,
cross-checks the contracts on the real code, and writes evidence/PROPERTY.json."""
import argparse, json, multiprocessing as mp, os, subprocess, sys, tempfile, time, queue, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
VENV = "/opt/venv/bin/python"
REPO = os.environ.get("VERIF_REPO", "/repo")

from pyvc import contract, symrun  # noqa: E402


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


# ------------------------------------------------------------------ symbolic side
def _sym_child(name, stubs, q, nra_ms, limit):
    try:
        h = contract.HARNESSES[name]
        r = symrun.run(h, [contract.STUBS[s] for s in stubs], nra_ms=nra_ms, deadline=time.time() + limit)
    except BaseException as ex:
        import traceback
        r = dict(harness=name, status="unsupported", error=f"verifier error: {ex!r} {traceback.format_exc()[-600:]}",
                 obligations=[], functions=[], stubbed=[], paths=0)
    q.put((name, r))


def run_symbolic(names, tier, results, jobs=6):
    """Runs harnesses (dependencies first: a contract is assumed by callers only if it was proved)."""
    ctx = mp.get_context("fork")
    nra_ms = 20000 if tier == "quick" else 60000
    pending, running = list(names), {}
    q = ctx.Queue()

    def deps(n):
        return [d for s in contract.HARNESSES[n].stubs for d in contract.STUBS[s].established]

    todo = set(pending)
    stack = list(pending)
    while stack:
        n = stack.pop()
        for d in deps(n):
            if d not in todo and d not in results:
                todo.add(d)
                stack.append(d)
    while todo or running:
        for n in sorted(todo):
            if len(running) >= jobs:
                break
            if any(d in todo or d in running for d in deps(n)):
                continue
            todo.discard(n)
            h = contract.HARNESSES[n]
            if not h.sym:
                continue
            ok = [s for s in h.stubs if all(results.get(d, {}).get("status") == "proved" for d in contract.STUBS[s].established)]
            p = ctx.Process(target=_sym_child, args=(n, ok, q, nra_ms, h.timeout), daemon=True)
            p.start()
            running[n] = (p, time.time(), h.timeout + 60)
        try:
            n, r = q.get(timeout=0.2)
            results[n] = r
            running.pop(n)[0].join()
        except queue.Empty:
            for n, (p, t, lim) in list(running.items()):
                if time.time() - t > lim or not p.is_alive():
                    if not p.is_alive():
                        try:
                            while True:
                                m, r = q.get(timeout=0.5)
                                results[m] = r
                                running.pop(m)[0].join()
                        except queue.Empty:
                            pass
                        if n not in running:
                            continue
                    p.kill()
                    running.pop(n)
                    results[n] = dict(harness=n, status="unsupported", error="time or memory limit of the symbolic run",
                                      obligations=[], functions=[], stubbed=[], paths=0)


# ------------------------------------------------------------------ concrete side
def start_worker(tasks, time_limit, case_limit=120):
    f = tempfile.NamedTemporaryFile("w", suffix=".json", delete=False, prefix="pyvc-job-")
    json.dump(dict(tasks=tasks, time_limit=time_limit, case_limit=case_limit, src=os.path.join(REPO, "src")), f, default=str)
    f.close()
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", PYTHONHASHSEED="0", HDF5_USE_FILE_LOCKING="FALSE")
    p = subprocess.Popen([VENV, os.path.join(HERE, "pyvc", "worker.py"), f.name], stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, text=True, env=env, start_new_session=True)
    p._job = f.name
    return p


def finish_worker(p, timeout):
    try:
        o, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        import signal
        os.killpg(p.pid, signal.SIGKILL)
        o, err = p.communicate()
    os.unlink(p._job)
    out = []
    for line in o.splitlines():
        try:
            out.append(json.loads(line))
        except ValueError:
            pass
    if not any(d.get("mode") == "end" for d in out):
        out.append(dict(mode="broken", error=(err or "")[-800:]))
    return out


# ------------------------------------------------------------------ main
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    contract.load_all()
    if a.replay:
        return replay(a.replay)
    pid, tier = a.property, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    hs = contract.for_property(pid)
    if not hs:
        print(f"no contract for {pid}")
        return 2

    # concrete cross-check in the background
    con = [h for h in hs if h.con]
    mult = 1 if tier == "quick" else 8
    limit = 100 if tier == "quick" else 500
    nw = min(4, max(1, len(con)))
    lanes = [[] for _ in range(nw)]
    for k, h in enumerate(sorted(con, key=lambda h: -h.cases)):
        lanes[k % nw].append(dict(harness=h.name, mode="random", seed0=seed * 100003, n=h.cases * mult,
                                  limit=limit / max(1, (len(con) + nw - 1) // nw)))
    workers = [start_worker(l, limit) for l in lanes if l]

    results = {}
    sup = contract.supporting(pid)
    run_symbolic([h.name for h in hs + sup if h.sym], tier, results)

    concrete = []
    for w in workers:
        concrete += finish_worker(w, limit + 60)

    findings = {f["id"]: f for f in known_findings()["findings"]}
    violations, known_hits, undecided = [], set(), []
    os.makedirs(os.path.join(HERE, "evidence", "replays"), exist_ok=True)

    # countermodels replayed on the real code
    own = {h.name for h in hs}
    rep_tasks, rep_obs = [], []
    for n in sorted(own):
        r = results.get(n)
        if not r:
            continue
        for o in r["obligations"]:
            if o["status"] == "known":
                known_hits.add(o["known"])
            elif o["status"] != "proved":
                o["harness"] = n
                rep_obs.append(o)
                if o.get("table") is not None and contract.HARNESSES[n].con:
                    rep_tasks.append(dict(harness=n, mode="table", table=o["table"], id=len(rep_obs) - 1))
    replays = {}
    if rep_tasks:
        for d in finish_worker(start_worker(rep_tasks, 120), 200):
            if d.get("mode") == "table":
                replays[d["id"]] = d
    concrete_fail = [d for d in concrete if d.get("mode") == "random"]
    broken = [d for d in concrete if d.get("mode") == "broken"]
    fails_by_h = {}
    for d in concrete_fail:
        fails_by_h.setdefault(d["harness"], d)
    # the proof rests on a supporting contract that no longer holds: the property itself is then
    # decided on the real code only (bounded), and that search is deepened
    lost = [h.name for h in sup if results.get(h.name, {}).get("status") != "proved"]
    if lost:
        tasks = [dict(harness=h.name, mode="random", seed0=seed * 100003 + 90000, n=2000, limit=60 / max(1, len(con))) for h in con]
        for d in finish_worker(start_worker(tasks, 90), 150):
            if d.get("mode") == "random":
                fails_by_h.setdefault(d["harness"], d)
            elif d.get("mode") == "summary":
                concrete.append(d)
        undecided += [(n, "supporting contract not proved; property decided on concrete inputs only") for n in lost]
    # an unproved obligation without failing input yet: search harder before giving the answer
    lacking = sorted({o["harness"] for i, o in enumerate(rep_obs) if not replays.get(i, {}).get("failed")
                      and o["harness"] not in fails_by_h and contract.HARNESSES[o["harness"]].con})
    if lacking:
        tasks = [dict(harness=n, mode="random", seed0=seed * 100003 + 50000, n=1500, limit=60 / len(lacking)) for n in lacking]
        for d in finish_worker(start_worker(tasks, 80), 140):
            if d.get("mode") == "random":
                fails_by_h.setdefault(d["harness"], d)
            elif d.get("mode") == "summary":
                concrete.append(d)

    def write_replay(k, d):
        p = os.path.join(HERE, "evidence", "replays", f"{pid}-{k}.json")
        with open(p, "w") as f:
            json.dump(d, f, indent=1, default=str)
        return p

    k = 0
    reported = set()
    for i, o in enumerate(rep_obs):
        n = o["harness"]
        if n in reported:
            continue
        rp = replays.get(i)
        fl = rp if rp and rp.get("failed") else fails_by_h.get(n)
        if fl is None and any(replays.get(j, {}).get("failed") for j, o2 in enumerate(rep_obs) if o2["harness"] == n):
            continue
        if fl is None and o.get("exc"):
            undecided.append((n, o["label"]))     # an exception the real code does not raise: model gap
            continue
        k += 1
        reported.add(n)
        path = write_replay(k, dict(property=pid, harness=n, obligation=o["label"], verifier=o,
                                    inputs=(fl or {}).get("inputs"), failed=(fl or {}).get("failed")))
        violations.append((path, n, o["label"], fl is not None))
    for n, d in fails_by_h.items():
        if n in reported or n not in own:
            continue
        k += 1
        reported.add(n)
        path = write_replay(k, dict(property=pid, harness=n, obligation=d["failed"][0][0], inputs=d["inputs"], failed=d["failed"],
                                    verifier="contract evaluated on the real code"))
        violations.append((path, n, d["failed"][0][0], True))
    for d in concrete:
        if d.get("mode") == "summary":
            known_hits |= set(d["known"])
    for f in sorted(known_hits):
        if f in findings and findings[f]["property"] == pid:
            pass
        else:
            k += 1
            path = write_replay(k, dict(property=pid, finding=f))
            violations.append((path, f, "deviation not listed as a known finding", True))

    # ------------------------------------------------------------------ evidence
    sym_own = [results[h.name] for h in hs if h.sym and h.name in results]
    dep = [r for n, r in results.items() if n not in own]
    allr = sym_own + dep
    obs = [o for r in allr if r["status"] in ("proved", "failed") for o in r["obligations"]]
    disch = [o for o in obs if o["status"] == "proved"]
    bounded = [h.name for h in hs if not h.sym] + [r["harness"] for r in sym_own if r["status"] == "unsupported"]
    backends = {}
    for r in allr:
        for b, c in (r.get("backends") or {}).items():
            backends[b] = backends.get(b, 0) + c
    summ = {d["harness"]: d for d in concrete if d.get("mode") == "summary"}
    from pyvc import trusted
    functions = sorted({f for r in allr if r["status"] == "proved" for f in r.get("functions", [])})
    coverage = dict(
        obligations=len(obs), discharged=len(disch),
        checker_cmd=f"python3-vt check.py {pid} --tier {tier}",
        trusted_base=trusted.BASE,
        functions_under_contract=functions,
        contracts=[dict(name=r["harness"], status=r["status"], obligations=len(r["obligations"]), paths=r["paths"],
                        solver_s=r.get("solver_time"), assumes_contracts_of=r.get("stubbed"), role="property" if r["harness"] in own else "callee",
                        doc=contract.HARNESSES[r["harness"]].doc[:200], error=r.get("error")) for r in allr],
        discharged_by=backends,
        solver_time_s=round(sum(r.get("solver_time") or 0 for r in allr), 3),
        bounded_stand_ins=[dict(contract=n, reason=(contract.HARNESSES[n].bounded_reason or (results.get(n) or {}).get("error")),
                                cases=(summ.get(n) or {}).get("ran", 0), max_extent=contract.HARNESSES[n].maxdim) for n in bounded],
        cross_checked_on_real_code=dict(
            evaluations=sum(d["ran"] for d in summ.values()), distinct_nontrivial=sum(d["nontrivial"] for d in summ.values()),
            contract_clauses_evaluated=sum(d["checks"] for d in summ.values()),
            rule="seeded adversarial inputs (zeros, ties, sparse, large, boundary values; small extents); non-trivial: distinct input on which at least one clause was evaluated"),
        samples=[dict(contract=n, inputs=str(d.get("sample"))[:600]) for n, d in list(summ.items())[:3]],
        undischarged=[dict(contract=o.get("harness"), label=o["label"], status=o["status"]) for o in rep_obs][:20],
        source_hashes={k2: v for r in allr for k2, v in (r.get("hashes") or {}).items()},
    )
    try:
        man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
        level = next((c["level"] for c in man["checks"] if c["property"] == pid), "proof")
    except Exception:
        level = "proof"
    if level != "proof":
        coverage.setdefault("explanation", "bounded contract evaluation on the real code; see bounded_stand_ins")
        coverage["evaluations"] = coverage["cross_checked_on_real_code"]["evaluations"]
        coverage["distinct_nontrivial"] = coverage["cross_checked_on_real_code"]["distinct_nontrivial"]
        coverage["rule"] = coverage["cross_checked_on_real_code"]["rule"]
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=coverage,
              assumptions=trusted.ASSUMPTIONS, wall_s=round(time.time() - t0, 2), violations=len(violations))
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)

    for r in allr:
        print(f"  {r['harness']}: {r['status']} ({sum(o['status'] == 'proved' for o in r['obligations'])}/{len(r['obligations'])} obligations, "
              f"{r['paths']} paths, {r.get('time', 0)} s){' ' + str(r['error']) if r.get('error') else ''}")
    for n, d in summ.items():
        print(f"  {n}: contract evaluated on the real code for {d['ran']} inputs in {d['time']} s")
    for n, l in undecided:
        print(f"  undecided: {n}: {l}")
    for b in broken:
        print("  concrete worker did not finish:", b["error"][-300:])
    for f in sorted(known_hits):
        if f in findings and findings[f]["property"] == pid:
            print(f"KNOWN-FINDING: property={pid} {findings[f]['what']}")
    for path, n, label, found in violations:
        print(f"  {n}: obligation not met: {label}")
        print(f"VIOLATION property={pid} replay={path}" + ("" if found else " no-failing-input-found"))
    if violations:
        return 1
    if broken and not summ and not sym_own:
        return 2
    print(f"property {pid}: held ({len(disch)}/{len(obs)} obligations discharged, {round(time.time() - t0, 1)} s)")
    return 0


def replay(path):
    d = json.load(open(path))
    if not d.get("inputs"):
        print("no failing input recorded; verifier output:")
        print(json.dumps(d.get("verifier"), indent=1)[:4000])
        return 1
    r = finish_worker(start_worker([dict(harness=d["harness"], mode="table", table=d["inputs"])], 100), 150)
    bad = False
    for x in r:
        if x.get("mode") == "table":
            print(json.dumps(x, indent=1)[:4000])
            bad = bool(x["failed"])
    print("still failing" if bad else "does not fail on the current tree")
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
