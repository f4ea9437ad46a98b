#!/usr/bin/env python3
"""Driver of every check: builds /repo's current sources with the harness, runs
the generated-input search, shrinks and replays failures, writes evidence.

usage: check.py ID           (VERIF_TIER=quick|thorough, VERIF_SEED=n)
       check.py --build ID.. (build only)
       check.py --replay ID TAPE
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import shutil
import struct
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SRC = os.path.join(REPO, "src")
GA = os.path.join(SRC, "geoarrow")
NA = os.path.join(SRC, "vendor", "nanoarrow")
HAR = os.path.join(VERIF, "harness")
NCPU = 8

SAN = ["-fsanitize=address",
       "-fsanitize=bounds,shift,signed-integer-overflow,integer-divide-by-zero,"
       "unreachable,return,vla-bound,null,bool,float-cast-overflow",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
ENV = dict(os.environ,
           ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:exitcode=77:"
                        "detect_stack_use_after_return=0:handle_abort=1:"
                        "max_allocation_size_mb=12000",
           UBSAN_OPTIONS="print_stacktrace=1:exitcode=78",
           TSAN_OPTIONS="halt_on_error=1:exitcode=79:report_signal_unsafe=0:second_deadlock_stack=1",
           LC_ALL="C")
# fast_float, ryu.  T and U are built with ThreadSanitizer instead
CONFIGS = {"A": (1, 1), "B": (0, 0), "C": (1, 0), "D": (0, 1), "T": (1, 1), "U": (0, 0)}


def sanitizers(cfg):
    return ["-fsanitize=thread"] if cfg in "TU" else SAN

sys.path.insert(0, VERIF)
from properties_table import PROPS  # noqa: E402


def log(*a):
    print(*a, flush=True)


def read(p):
    with open(p, "rb") as f:
        return f.read()


_hash_cache = {}


def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        if p not in _hash_cache:
            _hash_cache[p] = hashlib.sha256(read(p)).digest()
        h.update(p.encode())
        h.update(_hash_cache[p])
    return h.hexdigest()


def repo_sources():
    out = []
    for d in (GA, os.path.join(GA, "hpp"), os.path.join(GA, "ryu"), NA):
        for e in ("*.c", "*.h", "*.cc", "*.hpp", "*.in"):
            out += glob.glob(os.path.join(d, e))
    return [p for p in out if not p.endswith("_test.cc")]


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    return p.returncode, p.stdout.decode("utf-8", "replace")


class BuildError(Exception):
    pass


_locks = {}
_locks_guard = threading.Lock()


def one_at_a_time(fn):
    """Calls with the same arguments wait for each other"""
    def inner(*a, **kw):
        with _locks_guard:
            lock = _locks.setdefault((fn.__name__, a, tuple(sorted(kw.items()))), threading.Lock())
        with lock:
            return fn(*a, **kw)
    return inner


def compile_all(jobs):
    """jobs: list of command lines; run in parallel"""
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for cmd, (rc, out) in zip(jobs, ex.map(run, jobs)):
            if rc != 0:
                raise BuildError(" ".join(cmd) + "\n" + out[-6000:])


def make_config_header(dst, ff, ryu, ns=None):
    t = read(os.path.join(GA, "geoarrow_config.h.in")).decode()
    import re
    ver = re.search(r'set\(GEOARROW_VERSION "([^"]+)"',
                    read(os.path.join(REPO, "CMakeLists.txt")).decode())
    v = "0.2.0-SNAPSHOT" if not ver else ver.group(1)
    ma, mi, pa = v.split("-")[0].split(".")[:3]
    rep = {"GEOARROW_VERSION": v, "GEOARROW_VERSION_MAJOR": ma, "GEOARROW_VERSION_MINOR": mi,
           "GEOARROW_VERSION_PATCH": pa,
           "GEOARROW_NAMESPACE_DEFINE": "#define GEOARROW_NAMESPACE " + ns if ns else "",
           "GEOARROW_USE_FAST_FLOAT_DEFINE": "#define GEOARROW_USE_FAST_FLOAT %d" % ff,
           "GEOARROW_USE_RYU_DEFINE": "#define GEOARROW_USE_RYU %d" % ryu}
    for k in sorted(rep, key=len, reverse=True):
        t = t.replace("@" + k + "@", rep[k])
    os.makedirs(os.path.join(dst, "geoarrow"), exist_ok=True)
    with open(os.path.join(dst, "geoarrow", "geoarrow_config.h"), "w") as f:
        f.write(t)


class Dir:
    """A build directory that only appears once complete"""

    def __init__(self, name, key):
        os.makedirs(BUILD, exist_ok=True)
        self.path = os.path.join(BUILD, name + "-" + key[:16])
        self.tmp = self.path + ".tmp%d" % os.getpid()

    def ready(self):
        if os.path.exists(os.path.join(self.path, ".done")):
            os.utime(self.path)
            return True
        return False

    def begin(self):
        shutil.rmtree(self.tmp, ignore_errors=True)
        os.makedirs(self.tmp)
        return self.tmp

    def commit(self):
        open(os.path.join(self.tmp, ".done"), "w").close()
        shutil.rmtree(self.path, ignore_errors=True)
        os.rename(self.tmp, self.path)


def prune(keep=60):
    ds = [d for d in glob.glob(os.path.join(BUILD, "*-*")) if os.path.isdir(d)]
    ds.sort(key=os.path.getmtime, reverse=True)
    for d in ds[keep:]:
        if time.time() - os.path.getmtime(d) > 3600:
            shutil.rmtree(d, ignore_errors=True)


def lib_sources(ff, ryu):
    cs = sorted(glob.glob(os.path.join(GA, "*.c")))
    if ff:
        cs = [c for c in cs if os.path.basename(c) != "double_parse_std.c"]
    ccs = [os.path.join(GA, "double_parse_fast_float.cc")] if ff else []
    if ryu:
        cs += [os.path.join(GA, "ryu", "d2s.c")]
    return cs, ccs


@one_at_a_time
def build_lib(cfg, fuzz=False, san=True, ns=None):
    ff, ryu = CONFIGS[cfg]
    cflags = ["-O1", "-g", "-w", "-fPIC"] + (sanitizers(cfg) if san else [])
    if fuzz:
        cflags += ["-fsanitize=fuzzer-no-link"]
    key = tree_hash(repo_sources() + [os.path.join(HAR, "vf_alloc.h")]) + repr(
        (cfg, ff, ryu, cflags, ns, 3))
    key = hashlib.sha256(key.encode()).hexdigest()
    d = Dir("lib%s%s%s" % (cfg, "F" if fuzz else "", ns or ""), key)
    if d.ready():
        return d.path
    tmp = d.begin()
    make_config_header(tmp, ff, ryu, ns)
    inc = ["-I", tmp, "-I", SRC, "-I", os.path.join(SRC, "vendor")]
    if ns:
        inc += ["-DNANOARROW_NAMESPACE=" + ns]
    cs, ccs = lib_sources(ff, ryu)
    jobs, objs = [], []
    for i, c in enumerate(cs + [os.path.join(NA, "nanoarrow.c")]):
        o = os.path.join(tmp, "%d_%s.o" % (i, os.path.basename(c)))
        objs.append(o)
        jobs.append(["clang", "-std=gnu99"] + cflags + inc +
                    ([] if cfg in "TU" else ["-include", os.path.join(HAR, "vf_alloc.h")]) +
                    ["-c", c, "-o", o])
    for i, c in enumerate(ccs):
        o = os.path.join(tmp, "cc%d.o" % i)
        objs.append(o)
        jobs.append(["clang++", "-std=c++17"] + cflags + inc + ["-c", c, "-o", o])
    compile_all(jobs)
    rc, out = run(["ar", "rcs", os.path.join(tmp, "lib.a")] + objs)
    if rc:
        raise BuildError(out)
    for o in objs:
        os.unlink(o)
    d.commit()
    return d.path


@one_at_a_time
def build_harness(cfg, fuzz, lib):
    """core.o and model.o, shared by the properties"""
    srcs = [os.path.join(HAR, "core.cc"), os.path.join(HAR, "model.cc")]
    cflags = ["-std=c++17", "-O1", "-g", "-w"] + sanitizers(cfg)
    if fuzz:
        cflags += ["-DVF_FUZZER=1"]
    key = tree_hash(srcs + glob.glob(os.path.join(HAR, "*.h"))) + lib + repr(cflags)
    d = Dir("har%s%s" % (cfg, "F" if fuzz else ""), hashlib.sha256(key.encode()).hexdigest())
    objs = [os.path.join(d.path, os.path.basename(s) + ".o") for s in srcs]
    if d.ready():
        return objs
    tmp = d.begin()
    compile_all([["clang++"] + cflags + ["-I", lib, "-I", SRC, "-I", HAR, "-c", s, "-o",
                 os.path.join(tmp, os.path.basename(s) + ".o")] for s in srcs])
    d.commit()
    return objs


@one_at_a_time
def build_bin(pid, cfg, fuzz=False):
    p = PROPS[pid]
    lib = build_lib(cfg, fuzz)
    hobjs = build_harness(cfg, fuzz, lib)
    srcs = [os.path.join(VERIF, "props", p["src"])]
    libs = [os.path.join(lib, "lib.a")]
    extra_defs = list(p.get("defs", []))
    for other in p.get("also", []):  # other configurations linked in under a prefix
        ns = "Cfg" + other
        ol = build_lib(other, fuzz, ns=ns)
        libs.append(os.path.join(ol, "lib.a"))
    cflags = ["-std=" + p.get("std", "c++17"), "-O1", "-g", "-w"] + sanitizers(cfg) + extra_defs
    if fuzz:
        cflags += ["-fsanitize=fuzzer", "-DVF_FUZZER=1"]
    hdrs = glob.glob(os.path.join(HAR, "*.h")) + glob.glob(os.path.join(VERIF, "props", "*.h"))
    if p.get("also_src"):
        hdrs.append(os.path.join(VERIF, "props", p["also_src"]))
    key = tree_hash(srcs + hdrs) + lib + repr(libs) + repr(cflags) + repr(hobjs)
    key = hashlib.sha256(key.encode()).hexdigest()
    d = Dir("bin%s%s%s" % (pid, cfg, "F" if fuzz else ""), key)
    binp = os.path.join(d.path, "check")
    if d.ready():
        return binp
    tmp = d.begin()
    inc = ["-I", lib, "-I", SRC, "-I", os.path.join(SRC, "vendor"), "-I", HAR,
           "-I", os.path.join(VERIF, "props"), "-DVF_CONFIG_" + cfg + "=1",
           "-DVF_USE_RYU=%d" % CONFIGS[cfg][1], "-DVF_USE_FAST_FLOAT=%d" % CONFIGS[cfg][0]]
    jobs, objs = [], []
    for s in srcs:
        o = os.path.join(tmp, os.path.basename(s) + ".o")
        objs.append(o)
        jobs.append(["clang++"] + cflags + inc + ["-c", s, "-o", o])
    for other in p.get("also", []):
        ns = "Cfg" + other
        ol = build_lib(other, fuzz, ns=ns)
        o = os.path.join(tmp, "also%s.o" % other)
        objs.append(o)
        jobs.append(["clang++"] + cflags +
                    ["-I", ol, "-I", SRC, "-I", os.path.join(SRC, "vendor"), "-I", HAR,
                     "-I", os.path.join(VERIF, "props"), "-DNANOARROW_NAMESPACE=" + ns,
                     "-DVF_ALSO=" + other, "-c",
                     os.path.join(VERIF, "props", p["also_src"]), "-o", o])
    compile_all(jobs)
    rc, out = run(["clang++"] + cflags + objs + hobjs + libs + p.get("ldflags", []) +
                  ["-o", os.path.join(tmp, "check"), "-lm"])
    if rc:
        raise BuildError(out[-6000:])
    for o in objs:
        os.unlink(o)
    d.commit()
    return binp


def build_bins(pid, tier="quick"):
    cfgs = list(PROPS[pid].get("configs", "ABCD" if tier == "thorough" else "AB"))
    with cf.ThreadPoolExecutor(4) as ex:
        return dict(zip(cfgs, ex.map(lambda c: build_bin(pid, c), cfgs)))


# ------------------------------------------------------------------ running

class Verdict:
    def __init__(self):
        self.failures = []  # (cfg, tape path, message)


def read_state(path):
    b = read(path)
    idx, n, running = struct.unpack("<QII", b[:16])
    return idx, b[16:16 + n], running


def replay(binp, tape, times=3):
    outs = []
    for _ in range(times):
        rc, out = run([binp, "replay", tape], env=ENV, timeout=300)
        outs.append((rc, out))
    return outs


def confirm(pid, bins, cfg, tape_bytes, work, tag, budget):
    """Shrinks and replays.  Returns (path, message) or None"""
    rdir = os.path.join(BUILD, "replays")
    os.makedirs(rdir, exist_ok=True)
    raw = os.path.join(work, "fail-%s.raw" % tag)
    with open(raw, "wb") as f:
        f.write(tape_bytes)
    order = [cfg] + [c for c in bins if c != cfg]
    for c in order:
        binp = bins[c]
        first = replay(binp, raw, 1)
        if first[0][0] == 0:
            continue
        small = os.path.join(rdir, "%s-%s-%s.tape" % (
            pid, c, hashlib.sha256(tape_bytes).hexdigest()[:12]))
        try:
            rc, out = run([binp, "shrink", raw, small, "--seconds", str(budget)], env=ENV,
                          timeout=budget * 3 + 400)
        except subprocess.TimeoutExpired:
            rc = 1
        if rc != 0 or not os.path.exists(small):
            shutil.copy(raw, small)
        for cand in (small, raw):
            outs = replay(binp, cand, 3)
            if all(o[0] != 0 for o in outs):
                final = small
                if cand != small:
                    shutil.copy(raw, small)
                return final, c, outs[0][1]
    return None


def run_pbt(pid, bins, tier, seed, work, res):
    p = PROPS[pid]
    cases = p["cases"] * (p.get("thorough_mult", 12) if tier == "thorough" else 1)
    cap = 450 if tier == "thorough" else 420
    cfgs = sorted(bins)
    # 3 of 4 workers run the first configuration
    assign = []
    for w in range(NCPU):
        if len(cfgs) == 1:
            assign.append(cfgs[0])
        elif len(cfgs) == 2:
            assign.append(cfgs[1] if w % 4 == 3 else cfgs[0])
        else:
            assign.append(cfgs[w % len(cfgs)])
    procs = []
    for w in range(NCPU):
        state = os.path.join(work, "state%d" % w)
        out = os.path.join(work, "out%d" % w)
        hs = os.path.join(work, "hash%d" % w)
        err = open(os.path.join(work, "err%d" % w), "wb")
        cmd = [bins[assign[w]], "run", "--seed", str(seed), "--worker", str(w), "--workers",
               str(NCPU), "--cases", str(cases), "--state", state, "--out", out, "--hashes", hs,
               "--max-seconds", str(cap)]
        procs.append((w, subprocess.Popen(cmd, stdout=err, stderr=err, env=ENV), state, out, hs))
    pending = list(procs)
    failed = []
    t0 = time.time()
    while pending:
        time.sleep(0.05)
        for pr in list(pending):
            rc = pr[1].poll()
            if rc is not None:
                pending.remove(pr)
                if rc != 0:
                    failed.append((pr, rc))
        if failed and pending:
            time.sleep(0.5)
            for pr in pending:
                if pr[1].poll() is None:
                    pr[1].kill()
                    pr[1].wait()
            pending = []
        if time.time() - t0 > cap + 120:
            for pr in pending:
                pr[1].kill()
                pr[1].wait()
            pending = []
    res["pbt_s"] = round(time.time() - t0, 2)
    # statistics
    hashes = set()
    for w, pr, state, out, hs in procs:
        if os.path.exists(out):
            try:
                s = json.loads(read(out))
            except ValueError:
                continue
            merge(res, s)
        if os.path.exists(hs):
            b = read(hs)
            hashes.update(struct.unpack("<%dQ" % (len(b) // 8), b))
    res["hashes"] |= hashes
    fails = []
    for (w, pr, state, out, hs), rc in failed:
        idx, tape, running = read_state(state)
        fails.append((assign[w], tape, idx, rc, os.path.join(work, "err%d" % w)))
    res["commands"] = {os.path.join(work, "err%d" % w): pr.args for w, pr, state, out, hs in procs}
    return fails


def again(pid, cmd, idx, state, env, timeout=250):
    """Whether the same sequence of cases fails at the same one again: a failure which
    depends on the cases before it.  Returns (path of the replay file, output) or None"""
    try:
        rc, out = run(cmd, env=env, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None
    if rc == 0 or rc in (-9, -14, -15, 88) or struct.unpack("<Q", read(state)[:8])[0] != idx:
        return None
    rdir = os.path.join(BUILD, "replays")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, "%s-sequence-%d.json" % (pid, idx))
    with open(path, "w") as f:
        json.dump({"property": pid, "fails_at_case": idx, "command": cmd}, f, indent=1)
    return path, out


def merge(res, s):
    res["evaluations"] += s["cases"]
    res["nontrivial"] += s["nontrivial"]
    res["rule"] = s["rule"]
    for k, v in s["labels"].items():
        res["labels"][k] = res["labels"].get(k, 0) + v
    res["samples"] += s["samples"][:2]
    if s["status"] == "time":
        res["time_capped"] = True


def run_fuzz(pid, work, seed, seconds, res):
    """libFuzzer over the same choice tape, library instrumented for coverage"""
    bins = {c: build_bin(pid, c, True) for c in ("A",)}
    seeds_bin = build_bin(pid, "A")
    procs = []
    for w in range(NCPU):
        cdir = os.path.join(work, "corpus%d" % w)
        os.makedirs(cdir, exist_ok=True)
        if w % 4 != 3:  # a quarter start empty
            run([seeds_bin, "tapes", "--seed", str(seed + w), "--cases", "300", "--dir", cdir],
                env=ENV)
        art = os.path.join(work, "art%d-" % w)
        err = open(os.path.join(work, "fuzzerr%d" % w), "wb")
        env = dict(ENV, VF_FUZZ_OUT=os.path.join(work, "fuzzout%d" % w))
        cmd = [bins["A"], cdir, "-seed=%d" % (seed * 8 + w + 1), "-max_total_time=%d" % seconds,
               "-max_len=%d" % PROPS[pid].get("max_len", 4096), "-artifact_prefix=" + art,
               "-timeout=30", "-rss_limit_mb=4000", "-print_final_stats=1", "-use_value_profile=%d" % (w % 2),
               "-verbosity=1"]
        procs.append((w, subprocess.Popen(cmd, stdout=err, stderr=err, env=env)))
    fails = []
    execs = 0
    for w, p in procs:
        try:
            p.wait(timeout=seconds + 200)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        txt = read(os.path.join(work, "fuzzerr%d" % w)).decode("utf-8", "replace")
        for line in txt.splitlines():
            if line.startswith("stat::number_of_executed_units:"):
                execs += int(line.split()[-1])
        fo = os.path.join(work, "fuzzout%d" % w)
        if os.path.exists(fo):
            try:
                s = json.loads(read(fo))
                s["samples"] = s["samples"][:1]
                merge(res, s)
            except ValueError:
                pass
        for a in glob.glob(os.path.join(work, "art%d-*" % w)):
            base = os.path.basename(a)
            if "-crash-" in base or "-timeout-" in base or "-oom-" in base:
                fails.append(("A", read(a), -1, p.returncode, os.path.join(work, "fuzzerr%d" % w)))
    res["fuzz_executions"] = execs
    return fails


def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.loads(read(path)).get("findings", [])
            if k["property"] == pid and k.get("status") == "known"]


def check(pid, tier, seed):
    t0 = time.time()
    p = PROPS[pid]
    if p.get("driver"):
        import importlib
        return importlib.import_module(p["driver"]).main(pid, tier, seed)
    work = os.path.join(BUILD, "work-%s-%d" % (pid, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    res = {"evaluations": 0, "nontrivial": 0, "rule": "", "labels": {}, "samples": [],
           "hashes": set()}
    violation = None
    try:
        bins = build_bins(pid, tier)
        res["build_s"] = round(time.time() - t0, 2)
        fails = run_pbt(pid, bins, tier, seed, work, res)
        if not fails and tier == "thorough" and p.get("fuzz", True):
            fails = run_fuzz(pid, work, seed, int(os.environ.get("VF_FUZZ_SECONDS", "150")), res)
        unconfirmed = 0
        for i, (cfg, tape, idx, rc, errf) in enumerate(fails):
            got = confirm(pid, bins, cfg, tape, work, str(i), 40 if tier == "quick" else 120)
            if got:
                violation = got
                break
            cmd = res["commands"].get(errf) if rc not in (-9, -14, -15, 88) else None
            got = cmd and again(pid, cmd, idx, cmd[cmd.index("--state") + 1], ENV)
            if got:
                violation = (got[0], cfg, got[1][-6000:])
                break
            unconfirmed += 1
            log("note: a failure (worker exit %s, case %s) did not replay" % (rc, idx))
            log(read(errf).decode("utf-8", "replace")[-1500:])
        res["unconfirmed_failures"] = unconfirmed
        for k in known_findings(pid):
            tape = os.path.join(VERIF, k["tape"])
            outs = replay(bins[sorted(bins)[0]], tape, 1)
            if outs[0][0] != 0:
                log("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    finally:
        if not os.environ.get("VF_KEEP"):
            shutil.rmtree(work, ignore_errors=True)
        prune()
    cov = {"evaluations": res["evaluations"], "distinct_nontrivial": len(res["hashes"]),
           "nontrivial": res["nontrivial"], "rule": res["rule"],
           "samples": res["samples"][:8] or ["(none)"],
           "classes": dict(sorted(res["labels"].items())),
           "configurations": {c: "fast_float=%d ryu=%d" % CONFIGS[c] for c in bins},
           "build_s": res["build_s"], "search_s": res.get("pbt_s"),
           "time_capped": res.get("time_capped", False),
           "unconfirmed_failures": res.get("unconfirmed_failures", 0)}
    if "fuzz_executions" in res:
        cov["fuzz_executions"] = res["fuzz_executions"]
    write_evidence(pid, tier, seed, cov, 1 if violation else 0, time.time() - t0,
                   p.get("level", "exploration"))
    log("%s: %d cases, %d non-trivial (%d distinct), build %.1f s, search %.1f s" % (
        pid, res["evaluations"], res["nontrivial"], len(res["hashes"]), res["build_s"],
        res.get("pbt_s", 0)))
    if violation:
        path, cfg, msg = violation
        log("configuration %s (%s)" % (cfg, "fast_float=%d ryu=%d" % CONFIGS[cfg]))
        log(msg[:6000])
        log("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0


def write_evidence(pid, tier, seed, cov, violations, wall, level="exploration", assumptions=None):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "wall_s": round(wall, 2), "violations": violations,
          "assumptions": assumptions or PROPS[pid].get("assumptions", [
              "the reference model in /verif/harness/model.cc states the public formats correctly",
              "sanitizer-instrumented clang build of /repo's sources behaves as the shipped build"])}
    tmp = os.path.join(VERIF, "evidence", "." + pid + ".tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", pid + ".json"))


def main():
    a = sys.argv[1:]
    if a and a[0] == "--build":
        ids = a[1:] or [i for i in PROPS if not PROPS[i].get("driver")]
        for i in ids:
            for c in PROPS[i].get("configs", "AB"):
                log(build_bin(i, c))
        return 0
    if a and a[0] == "--setup":
        for i in PROPS:
            if PROPS[i].get("driver"):
                import importlib
                getattr(importlib.import_module(PROPS[i]["driver"]), "setup", lambda: None)()
            else:
                build_bins(i)
            log("built", i)
        return 0
    if a and a[0] == "--replay":
        if PROPS[a[1]].get("driver"):
            import importlib
            rc, out = importlib.import_module(PROPS[a[1]]["driver"]).replay(a[1], a[2])
            log(out)
            return 1 if rc else 0
        binp = build_bin(a[1], a[3] if len(a) > 3 else "A")
        rc, out = run([binp, "direct", a[2]], env=ENV)
        log(out)
        return 1 if rc else 0
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    try:
        return check(a[0], tier, seed)
    except BuildError as e:
        log("BUILD FAILED\n" + str(e))
        return 2


if __name__ == "__main__":
    sys.modules["check"] = sys.modules["__main__"]
    sys.exit(main())
