"""Concrete side: evaluates the contracts on the real code (run with /opt/venv/bin/python)."""
import json, os, sys, time, traceback, tempfile, shutil, logging, warnings, signal

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    job = json.load(open(sys.argv[1]))
    src = job.get("src")
    if src:
        sys.path.insert(0, src)
    base = tempfile.mkdtemp(prefix="pyvc-")
    home = os.path.join(base, "home")
    os.makedirs(home)
    os.environ["HOME"] = home
    os.chdir(base)
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    out = os.fdopen(os.dup(1), "w")
    devnull = open(os.devnull, "w")
    os.dup2(devnull.fileno(), 1)
    os.dup2(devnull.fileno(), 2)
    from pyvc import contract, conenv, source
    contract.load_all()
    import numpy as np
    np.seterr(all="ignore")

    def emit(d):
        out.write(json.dumps(d, default=str) + "\n")
        out.flush()

    class TO(BaseException):
        pass

    def onalarm(*a):
        raise TO()
    signal.signal(signal.SIGALRM, onalarm)
    t_end = time.time() + job.get("time_limit", 300)
    n_scr = [0]

    def one(h, src_, keep=False):
        n_scr[0] += 1
        scratch = os.path.join(base, f"s{n_scr[0]}")
        os.makedirs(scratch)
        os.chdir(scratch)
        e = conenv.ConEnv(src_, scratch)
        err = None
        signal.setitimer(signal.ITIMER_REAL, job.get("case_limit", 120))
        try:
            h.fn(e)
        except source.Skip:
            err = "skip"
        except TO:
            err = "time limit of one case"
        except BaseException as ex:
            tb = traceback.extract_tb(ex.__traceback__)
            e.failed.append((f"no exception: {type(ex).__name__}: {str(ex)[:200]}",
                             [f"{f.filename}:{f.lineno}" for f in tb[-4:]]))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            e.close()
            os.chdir(base)
            shutil.rmtree(scratch, ignore_errors=True)
        return e, err

    try:
        for task in job["tasks"]:
            h = contract.HARNESSES[task["harness"]]
            if task["mode"] == "table":
                for k in range(3):
                    s = source.Table(task["table"], seed=k)
                    e, err = one(h, s)
                    if e.failed:
                        break
                emit(dict(harness=h.name, mode="table", id=task.get("id"), failed=e.failed, skip=err, inputs=s.log))
                continue
            if task["mode"] == "values":
                s = source.Random(task["seed"], maxdim=h.maxdim)
                e, err = one(h, s)
                emit(dict(harness=h.name, mode="values", seed=task["seed"], values=e.values, failed=e.failed, skip=err))
                continue
            ran = nontriv = 0
            fails = 0
            known = set()
            checks = 0
            sample = None
            distinct = set()
            t0 = time.time()
            for seed in range(task["seed0"], task["seed0"] + task["n"]):
                if time.time() > t_end or time.time() - t0 > task.get("limit", 1e9):
                    break
                s = source.Random(seed, maxdim=h.maxdim)
                e, err = one(h, s)
                if err:
                    continue
                ran += 1
                checks += e.count
                known |= e.known
                key = hash(json.dumps(s.log, default=str, sort_keys=True))
                if key not in distinct:
                    distinct.add(key)
                    if e.count:
                        nontriv += 1
                if sample is None or (ran == 2):
                    sample = s.log
                if e.failed:
                    fails += 1
                    emit(dict(harness=h.name, mode="random", seed=seed, failed=e.failed, inputs=s.log))
                    if fails >= 2:
                        break
            emit(dict(harness=h.name, mode="summary", ran=ran, nontrivial=nontriv, checks=checks, known=sorted(known),
                      sample=sample, time=round(time.time() - t0, 2)))
        emit(dict(mode="end"))
    finally:
        os.chdir("/")
        shutil.rmtree(base, ignore_errors=True)


if __name__ == "__main__":
    main()
