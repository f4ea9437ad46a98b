"""Search, shrinking and replay for the properties of the Python bindings."""
import hashlib
import json
import os
import shutil
import struct
import subprocess
import time

import check as ck
import pybuild

WORKER = os.path.join(ck.VERIF, "pyprops", "worker.py")


def env(pkg):
    return dict(os.environ, LD_PRELOAD=pybuild.asan_runtime(), PYTHONMALLOC="malloc", PYTHONDONTWRITEBYTECODE="1",
                PYTHONPATH=pkg + ":" + os.path.join(ck.VERIF, "pyprops"), LC_ALL="C.UTF-8", OMP_NUM_THREADS="1",
                ARROW_DEFAULT_MEMORY_POOL="system",
                OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0",
                ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:exitcode=77:handle_abort=1:"
                             "detect_stack_use_after_return=0:quarantine_size_mb=64",
                UBSAN_OPTIONS="print_stacktrace=1:exitcode=78")


def cmd(pid, *a):
    return [pybuild.VENV_PY, "-s", WORKER, ck.PROPS[pid]["module"]] + [str(x) for x in a]


def setup():
    pybuild.build()


def replay(pid, tape):
    rc, out = ck.run(cmd(pid, "replay", tape), env=env(pybuild.build()), timeout=300)
    return rc, out


def confirm(pid, pkg, tape, work, i, budget):
    rdir = os.path.join(ck.BUILD, "replays")
    os.makedirs(rdir, exist_ok=True)
    raw = os.path.join(work, "fail%d.raw" % i)
    with open(raw, "wb") as f:
        f.write(tape)
    if replay(pid, raw)[0] == 0:
        return None
    small = os.path.join(rdir, "%s-%s.tape" % (pid, hashlib.sha256(tape).hexdigest()[:12]))
    try:
        ck.run(cmd(pid, "shrink", raw, small, budget), env=env(pkg), timeout=budget + 200)
    except subprocess.TimeoutExpired:
        pass
    for cand in (small, raw):
        if os.path.exists(cand):
            outs = [replay(pid, cand) for _ in range(3)]
            if all(o[0] != 0 for o in outs):
                if cand != small:
                    shutil.copy(raw, small)
                return small, outs[0][1]
    return None


def main(pid, tier, seed):
    t0 = time.time()
    p = ck.PROPS[pid]
    work = os.path.join(ck.BUILD, "work-%s-%d" % (pid, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    res = {"evaluations": 0, "nontrivial": 0, "rule": "", "labels": {}, "samples": []}
    hashes = set()
    violation = None
    unconfirmed = 0
    try:
        pkg = pybuild.build()
        build_s = time.time() - t0
        cases = p["cases"] * (p.get("thorough_mult", 12) if tier == "thorough" else 1)
        cap = 450 if tier == "thorough" else 300
        procs = []
        for w in range(ck.NCPU):
            state, out = os.path.join(work, "state%d" % w), os.path.join(work, "out%d" % w)
            err = open(os.path.join(work, "err%d" % w), "wb")
            procs.append((w, subprocess.Popen(cmd(pid, "run", seed, w, ck.NCPU, cases, cap, state, out), env=env(pkg),
                                              stdout=err, stderr=err), state, out))
        t1 = time.time()
        failed, pending = [], list(procs)
        while pending:
            time.sleep(0.05)
            for pr in list(pending):
                if pr[1].poll() is not None:
                    pending.remove(pr)
                    if pr[1].returncode != 0:
                        failed.append(pr)
            if (failed and pending) or time.time() - t1 > cap + 150:
                time.sleep(0.5)
                for pr in pending:
                    if pr[1].poll() is None:
                        pr[1].kill()
                        pr[1].wait()
                pending = []
        search_s = time.time() - t1
        for w, pr, state, out in procs:
            if os.path.exists(out):
                s = json.loads(ck.read(out))
                ck.merge(res, s)
                hashes.update(s["hashes"])
        for i, (w, pr, state, out) in enumerate(failed):
            idx, n, running = struct.unpack("<QII", ck.read(state)[:16]) if os.path.exists(state) else (0, 0, 0)
            errtxt = ck.read(os.path.join(work, "err%d" % w)).decode("utf-8", "replace")
            if not running:
                raise ck.BuildError("worker did not start:\n" + errtxt[-3000:])
            got = confirm(pid, pkg, ck.read(state)[16:16 + n], work, i, 40 if tier == "quick" else 120)
            if got:
                violation = got
                break
            if pr.returncode not in (-9, -14, -15, 88):
                got = ck.again(pid, pr.args, idx, state, env(pkg))
                if got:
                    violation = got
                    break
            unconfirmed += 1
            ck.log("note: a failure (worker exit %s, case %s) did not replay" % (pr.returncode, idx))
            ck.log(errtxt[-2500:])
    finally:
        if not os.environ.get("VF_KEEP"):
            shutil.rmtree(work, ignore_errors=True)
        ck.prune()
    cov = {"evaluations": res["evaluations"], "distinct_nontrivial": len(hashes), "nontrivial": res["nontrivial"],
           "rule": res["rule"], "samples": res["samples"][:8] or ["(none)"], "classes": dict(sorted(res["labels"].items())),
           "build_s": round(build_s, 2), "search_s": round(search_s, 2), "time_capped": res.get("time_capped", False),
           "unconfirmed_failures": unconfirmed}
    ck.write_evidence(pid, tier, seed, cov, 1 if violation else 0, time.time() - t0)
    ck.log("%s: %d cases, %d non-trivial (%d distinct), build %.1f s, search %.1f s" % (
        pid, res["evaluations"], res["nontrivial"], len(hashes), build_s, search_s))
    if violation:
        ck.log(violation[1][-5000:])
        ck.log("VIOLATION property=%s replay=%s" % (pid, violation[0]))
        return 1
    return 0
