"""Runs one property of the Python bindings over generated tapes.

worker.py MODULE run SEED WORKER WORKERS CASES MAXSECONDS STATE OUT
worker.py MODULE replay TAPE
worker.py MODULE shrink TAPE OUT SECONDS
"""
import ctypes
import faulthandler
import gc
import hashlib
import importlib
import json
import mmap
import os
import random
import struct
import sys
import time
import traceback

TAPE_LEN = 1500


class Bad(Exception):
    """The property does not hold"""


def check(cond, msg, *args):
    if not cond:
        raise Bad(msg % args if args else msg)


class Tape:
    """Choices of a case, one after the other; zeroes once exhausted"""

    def __init__(self, data):
        self.data = data
        self.pos = 0

    def byte(self):
        if self.pos < len(self.data):
            b = self.data[self.pos]
            self.pos += 1
            return b
        self.pos += 1
        return 0

    def below(self, n):
        if n <= 1:
            return 0
        v, m = 0, 1
        while m < n:
            v = v * 256 + self.byte()
            m *= 256
        return v % n

    def range(self, lo, hi):
        return lo + self.below(hi - lo + 1)

    def coin(self):
        return self.below(2) == 1

    def chance(self, a, b):
        return self.below(b) >= b - a

    def pick(self, xs):
        return xs[self.below(len(xs))]


class Ctx:
    def __init__(self, t):
        self.t = t
        self.notes = []
        self.labels = set()
        self.key = None

    def note(self, s):
        self.notes.append(s)

    def label(self, s):
        self.labels.add(s)

    def nontrivial(self, key):
        self.key = key


def load(module):
    return importlib.import_module(module)


_live = None


def live():
    global _live
    if _live is None:
        from geoarrow.c import _lib
        lib = ctypes.CDLL(_lib.__file__)
        lib.vf_live.restype = ctypes.c_long
        _live = lib.vf_live
    return _live()


def one(mod, data):
    c = Ctx(Tape(data))
    before = live()
    mod.case(c)
    if live() != before:
        gc.collect()
        n = live() - before
        check(n == 0, "%d blocks allocated by the library are left after everything was deleted", n)
    return c


def tape_for(seed, worker, index):
    r = random.Random("%d/%d/%d" % (seed, worker, index))
    return r.randbytes(r.choice((60, 200, TAPE_LEN)))


def run(mod, seed, worker, workers, cases, max_seconds, state_path, out_path):
    with open(state_path, "wb") as f:
        f.write(b"\0" * (16 + TAPE_LEN))
    f = open(state_path, "r+b")
    mm = mmap.mmap(f.fileno(), 16 + TAPE_LEN)
    gc.disable()
    stats = {"cases": 0, "nontrivial": 0, "labels": {}, "samples": [], "rule": mod.RULE, "status": "done", "hashes": []}
    hashes = set()
    t0 = time.time()
    for i in range(worker, cases, workers):
        data = tape_for(seed, worker, i)
        mm[:16] = struct.pack("<QII", i, len(data), 1)
        mm[16:16 + len(data)] = data
        faulthandler.dump_traceback_later(90, exit=True)
        try:
            c = one(mod, data)
        except BaseException:
            traceback.print_exc()
            sys.stderr.flush()
            os._exit(66)
        stats["cases"] += 1
        for s in c.labels:
            stats["labels"][s] = stats["labels"].get(s, 0) + 1
        if c.key is not None:
            stats["nontrivial"] += 1
            h = hashlib.sha256(repr(c.key).encode()).digest()[:8]
            if h not in hashes:
                hashes.add(h)
                if len(stats["samples"]) < 3 and len(hashes) % 5 == 0:
                    stats["samples"].append("\n".join(c.notes)[:1500])
        if stats["cases"] % 200 == 0:
            gc.collect()
            if time.time() - t0 > max_seconds:
                stats["status"] = "time"
                break
    stats["hashes"] = [h.hex() for h in hashes]
    with open(out_path, "w") as g:
        json.dump(stats, g)
    sys.stdout.flush()
    os._exit(0)


def child(mod, data, quiet=True):
    """Whether a case fails, in a process of its own"""
    pid = os.fork()
    if pid == 0:
        if quiet:
            fd = os.open(os.devnull, os.O_WRONLY)
            os.dup2(fd, 1)
            os.dup2(fd, 2)
        faulthandler.dump_traceback_later(60, exit=True)
        try:
            one(mod, data)
        except BaseException:
            if not quiet:
                traceback.print_exc()
                sys.stderr.flush()
            os._exit(66)
        os._exit(0)
    return os.waitpid(pid, 0)[1] != 0


def shrink(mod, data, out, seconds):
    t0 = time.time()
    if not child(mod, data):
        os._exit(1)
    best = bytes(data)

    def attempt(d):
        nonlocal best
        if d == best or time.time() - t0 > seconds:
            return False
        if child(mod, d):
            best = d
            return True
        return False

    changed = True
    while changed and time.time() - t0 < seconds:
        changed = False
        n = len(best)
        while n >= 1:
            while len(best) >= n and attempt(best[:len(best) - n]):
                changed = True
            n //= 2
        size = max(1, len(best) // 2)
        while size >= 1:
            i = 0
            while i < len(best):
                if attempt(best[:i] + best[i + size:]):
                    changed = True
                    continue
                if any(best[i:i + size]) and attempt(best[:i] + bytes(len(best[i:i + size])) + best[i + size:]):
                    changed = True
                i += size
            size //= 2
        for i in range(len(best)):
            for v in (1, 2, 3, best[i] // 2, best[i] - 1):
                if i < len(best) and 0 <= v < best[i] and attempt(best[:i] + bytes([v]) + best[i + 1:]):
                    changed = True
                    break
    with open(out, "wb") as f:
        f.write(best)
    os._exit(0)


def main():
    mod = load(sys.argv[1])
    mode = sys.argv[2]
    a = sys.argv[3:]
    if mode == "run":
        run(mod, int(a[0]), int(a[1]), int(a[2]), int(a[3]), float(a[4]), a[5], a[6])
    data = open(a[0], "rb").read()
    if mode == "shrink":
        shrink(mod, data, a[1], float(a[2]))
    faulthandler.dump_traceback_later(120, exit=True)
    c = Ctx(Tape(data))
    try:
        before = live()
        mod.case(c)
        gc.collect()
        check(live() == before, "%d blocks allocated by the library are left after everything was deleted", live() - before)
    except BaseException:
        print("\n".join(c.notes))
        sys.stdout.flush()
        traceback.print_exc()
        sys.stderr.flush()
        os._exit(66)
    print("\n".join(c.notes))
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    sys.modules["worker"] = sys.modules["__main__"]
    main()
