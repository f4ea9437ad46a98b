"""Buffers and lifetimes across the language boundary"""
import ctypes
import gc
import io
import sys
import threading
import weakref

import numpy as np
import pyarrow as pa

import geoarrow.c as ga
from geoarrow.c import lib, _lib
from pymodel import *
from worker import Bad, check

RULE = ("arrays of every native type built from Python buffers of many kinds, or viewed (whole or sliced) as Python buffers, "
        "with sources, builders, holders and views deleted, mutated and released in every order and from another thread. "
        "Non-trivial: at least two features with coordinates")


class Tracked(np.ndarray):
    """An array whose end of life can be seen, and runs Python code"""
    alive = 0

    def __new__(cls, x):
        Tracked.alive += 1
        out = np.array(x).view(cls)
        out.counted = True
        return out

    def __del__(self):
        if self.__dict__.get("counted"):
            Tracked.alive -= sum([1 for _ in range(1)])


def source(t, c, values, dtype):
    """An object exporting values as a buffer"""
    arr = np.array(values, dtype=dtype)
    kind = t.below(7)
    c.note("  source kind %d of %d" % (kind, len(values)))
    if kind == 0:
        return arr
    if kind == 1:
        return Tracked(arr)
    if kind == 2 and dtype == np.uint8:
        return bytes(arr)
    if kind == 3 and dtype == np.uint8:
        return bytearray(arr)
    if kind == 4:
        return pyarray.array({np.uint8: "B", np.int32: "i", np.float64: "d"}[dtype], arr.tolist())
    if kind == 5:
        return memoryview(arr)
    if kind == 6:
        big = np.concatenate([arr[:1], arr, arr[:1]])
        return big[min(1, len(arr)):][:len(arr)]
    arr.flags.writeable = False
    return arr


def setter(b, dtype):
    return {np.uint8: b.set_buffer_uint8, np.int32: b.set_buffer_int32, np.float64: b.set_buffer_double}[dtype]


def raises(exc, fn, *a, what=""):
    try:
        fn(*a)
    except exc as e:
        return e
    raise Bad("%s does not raise %s" % (what or fn, exc))


def strided(t, c, b, i, values, dtype):
    """Memory which isn't contiguous is refused, or copied right"""
    step = 2 if t.coin() else -1
    arr = np.full(len(values) * abs(step) + 1, 9, dtype=dtype)
    view = arr[:len(values) * abs(step)][::step]
    if len(view) != len(values):
        return False
    try:
        view[:] = values
        setter(b, dtype)(i, view)
    except (ValueError, BufferError, TypeError):
        return False
    c.label("strided accepted")
    return True


def builder_case(c):
    t = c.t
    gt, dims, ct = t.range(1, 6), t.range(1, 4), t.range(1, 2)
    n = len(DIMS[dims])
    schema = ext_schema(gt, dims, ct) if t.coin() else None
    if schema is None:
        schema = lib.CGeometryDataType.Make(gt, dims, ct, b'{"crs":"EPSG:3857"}').to_schema()
    builder = lib.CBuilder(schema)
    check(builder.schema is schema, "the schema of a builder is another")
    if t.coin():
        del schema
    c.note("builder of %s %s %d" % (NAMES[gt], DIMS[dims], ct))
    rounds = 1 + t.below(3)
    held = []
    key = []
    for r in range(rounds):
        feats = gen_features(t, gt, n)
        offs, coords = flatten(feats, DEPTH[gt], n)
        want = [f for f in feats]
        bufs = [(0, list(validity(feats)), np.uint8)] if any(f is None for f in feats) or (t.coin() and feats) else []
        i = 1
        for o in offs:
            bufs.append((i, o, np.int32))
            i += 1
        if ct == 1:
            for j in range(n):
                bufs.append((i + j, [x[j] for x in coords], np.float64))
        else:
            bufs.append((i, [v for x in coords for v in x], np.float64))
        n_buffers = i + (n if ct == 1 else 1)
        sources = []
        order = list(range(len(bufs)))
        if t.coin():
            for k in range(len(order)):
                m = t.below(len(order))
                order[k], order[m] = order[m], order[k]
        for k in order:
            i, vals, dtype = bufs[k]
            if t.chance(1, 8):  # replaced by what follows
                setter(builder, dtype)(i, source(t, c, list(vals) + [1], dtype))
                c.label("replaced")
            if t.chance(1, 10):
                bad = t.below(6)
                c.label("refused")
                if bad == 0:
                    raises(lib.GeoArrowCException, setter(builder, dtype), t.pick([-1, n_buffers, 2**31, 2**62]), source(t, c, vals or [0], dtype),
                           what="a buffer out of range")
                elif bad == 1:
                    raises((ValueError, BufferError), setter(builder, dtype), i, np.array(vals or [0], dtype=np.int64), what="another item type")
                elif bad == 2:
                    raises(TypeError, setter(builder, dtype), i, t.pick([None, 3, "abc", [1, 2]]), what="no buffer")
                elif bad == 3:
                    raises((ValueError, BufferError), setter(builder, dtype), i, np.zeros((2, 3), dtype=dtype), what="two dimensions")
                elif bad == 4:
                    raises(OverflowError, setter(builder, dtype), 2**70, np.array(vals, dtype=dtype), what="a huge index")
                else:
                    raises((ValueError, BufferError), setter(builder, dtype), i,
                           np.array(vals or [0], dtype=np.dtype(dtype).newbyteorder(">")) if dtype != np.uint8 else np.array(vals or [0], dtype=np.uint16),
                           what="another byte order")
            if t.chance(1, 8) and strided(t, c, builder, i, vals, dtype):
                continue
            s = source(t, c, vals, dtype)
            setter(builder, dtype)(i, s)
            if isinstance(s, bytearray) and len(s) and t.coin():
                # It can't move while something points into it
                raises(BufferError, s.extend, b"x" * 100, what="extending a bytearray in use")
                c.label("bytearray pinned")
            if t.coin():
                sources.append(s)
            del s
        if t.coin():
            sources.clear()
        if t.chance(1, 4):
            gc.collect()
        if t.chance(1, 12):
            c.note("dropped before finish")
            c.label("dropped before finish")
            break
        arr = builder.finish()
        check(arr.is_valid(), "finish() gives a released array")
        held.append((arr, want))
        key.append(want)
    if t.coin():
        del builder
    for arr, want in held:
        how = t.below(5)
        st = storage_type(gt, dims, ct)
        if how == 0:
            c.label("released")
            arr.release()
            check(not arr.is_valid(), "valid after release()")
            raises(ValueError, arr.release, what="a second release()")
            continue
        if how == 1:
            c.label("released by another thread without the GIL")
            release_elsewhere(arr)
            check(not arr.is_valid(), "valid after release by another thread")
            continue
        out = pa.Array._import_from_c(arr._addr(), st)
        check(not arr.is_valid(), "valid after import")
        out.validate(full=True)
        got = to_features(out, dims)
        check(got == want, "%r, expected %r", got, want)
        if how == 2:
            th = threading.Thread(target=lambda x: x.clear(), args=([out],))
            del out
            th.start()
            th.join()
    held.clear()
    arr = out = None
    try:
        del builder
    except NameError:
        pass
    sources.clear()
    s = None
    gc_if(lambda: Tracked.alive == 0)
    check(Tracked.alive == 0, "%d source objects are still alive", Tracked.alive)
    if any(sum(1 for f in w if f) >= 2 for w in key):
        c.nontrivial((gt, dims, ct, repr(key)))


def gc_if(ok):
    if not ok():
        gc.collect()


def release_elsewhere(arr):
    """Calls the release callback as a C++ thread would: without the GIL"""
    addr = arr._addr()
    # struct ArrowArray: 5 int64, 3 pointers, release
    rel = ctypes.cast(addr + 8 * 8, ctypes.POINTER(ctypes.c_void_p))
    fn = ctypes.CFUNCTYPE(None, ctypes.c_void_p)(rel[0])
    th = threading.Thread(target=fn, args=(addr,))
    th.start()
    th.join()


def decode(bufs, gt, dims, ct, first, length):
    n = len(DIMS[dims])
    depth = DEPTH[gt]
    offs = bufs[1:1 + depth]
    cs = bufs[1 + depth:]

    def coord(i):
        if ct == 1:
            return tuple(float(cs[j][i]) for j in range(n))
        return tuple(float(v) for v in cs[0][i * n:i * n + n])

    def at(level, i):
        if level == depth:
            return coord(i)
        return [at(level + 1, j) for j in range(int(offs[level][i]), int(offs[level][i + 1]))]
    return [at(0, first + i) for i in range(length)]


def inspect(b, fmtc):
    m = memoryview(b)
    check(m.readonly, "a writable view")
    check(m.format == fmtc and m.ndim == 1 and m.itemsize == {"i": 4, "d": 8}[fmtc], "format %s itemsize %d", m.format, m.itemsize)
    check(m.contiguous and m.nbytes == m.itemsize * len(m), "shape")
    return m


def view_case(c):
    t = c.t
    gt, dims, ct = t.range(1, 6), t.range(1, 4), t.range(1, 2)
    shift = t.coin()
    n = len(DIMS[dims])
    feats = gen_features(t, gt, n)
    arr = storage_array(t, feats, gt, dims, ct, shift)
    first = arr.offset
    c.note("view of %s %s %d, rows %d+%d%s" % (NAMES[gt], DIMS[dims], ct, first, len(arr), " shifted" if shift else ""))
    schema = ext_schema(gt, dims, ct)
    holder = export(arr)
    view = lib.CArrayView(holder, schema)
    bufs = view.buffers()
    depth = DEPTH[gt]
    check(len(bufs) == 1 + depth + (n if ct == 1 else 1), "%d buffers for %s", len(bufs), NAMES[gt])
    check(bufs[0] is None, "a validity buffer")
    # Everything but the buffers may go away
    for what in range(4):
        if t.coin():
            if what == 0:
                del holder
            elif what == 1:
                del view
            elif what == 2:
                del arr
            elif what == 3:
                del schema
    mems = [None] + [inspect(b, "i") for b in bufs[1:1 + depth]] + [inspect(b, "d") for b in bufs[1 + depth:]]
    if t.chance(1, 4):
        for b in bufs[1:]:
            if len(memoryview(b)):
                old = bytes(memoryview(b).cast("B"))
                try:
                    io.BytesIO(b"\x55" * len(old)).readinto(b)
                except (TypeError, BufferError):
                    pass
                else:
                    raise Bad("a writable buffer of a read-only view")
                check(bytes(memoryview(b).cast("B")) == old, "a view was written to")
        c.label("write attempt")
    if t.coin():
        b = bufs = None
    if not shift:
        offs, coords = flatten(feats, depth, n)
        for k in range(depth):
            if feats:
                check(list(mems[1 + k]) == offs[k], "offsets %d: %r, expected %r", k, list(mems[1 + k]), offs[k])
        for j in range(n if ct == 1 else 1):
            w = [x[j] for x in coords] if ct == 1 else [v for x in coords for v in x]
            check(list(mems[1 + depth + j]) == w, "coordinates %d: %r, expected %r", j, list(mems[1 + depth + j]), w)
    if feats:
        # Each buffer reaches as far as the one before refers to
        total = first + len(feats)
        for k in range(depth):
            check(len(mems[1 + k]) > total, "%d offsets at level %d for %d elements", len(mems[1 + k]), k, total)
            total = mems[1 + k][total]
        for m in mems[1 + depth:]:
            check(len(m) >= total * (1 if ct == 1 else n), "%d ordinates for %d coordinates", len(m), total)
        got = decode(mems, gt, dims, ct, first, len(feats))
        for g, f in zip(got, feats):
            check(f is None or g == f, "%r, expected %r", g, f)
    else:
        for m in mems[1:1 + depth]:
            check(list(m[:1]) == [0] or len(m) == 0 or shift, "offsets %r of no features", list(m))
        c.label("empty view")
    np_views = [np.asarray(m) for m in mems[1:]]
    del mems
    total = sum(float(x.sum()) for x in np_views)
    c.label("sliced" if first else "whole")
    if sum(1 for f in feats if f) >= 2:
        c.nontrivial((gt, dims, ct, first, repr(feats)))


def serialized_view_case(c):
    t = c.t
    large = t.chance(1, 3)
    wkb = t.coin()
    ty = (pa.large_binary() if wkb else pa.large_string()) if large else (pa.binary() if wkb else pa.string())
    vals = [None if t.chance(1, 4) else ("x" * t.below(5)).encode() if wkb else "y" * t.below(5) for _ in range(t.below(5))]
    arr = pa.array(vals, ty)
    a = t.below(len(vals) + 1)
    arr = arr.slice(a)
    c.note("view of %s, %d rows from %d" % (ty, len(arr), a))
    st = export_type(ty)
    schema = lib.CGeometryDataType.FromStorage(st, b"geoarrow.wkb" if wkb else b"geoarrow.wkt", b"").to_schema()
    holder = export(arr)
    try:
        view = lib.CArrayView(holder, schema)
        bufs = view.buffers()
    except (ValueError, NotImplementedError, lib.GeoArrowCException) as e:
        check(large, "a view of %s: %r", ty, e)
        c.label("refused view")
        return
    check(not large, "a view of %s", ty)
    m = inspect(bufs[1], "i")
    o = list(m)
    if len(arr):
        lens = [o[arr.offset + i + 1] - o[arr.offset + i] for i in range(len(arr))]
        check(lens == [len(v or "") for v in vals[a:]], "lengths %r", lens)
    for b in bufs:
        if b is not None:
            np.asarray(b).sum()
    c.label("serialized view")


def misuse_case(c):
    """Objects in the wrong state or of the wrong kind raise, every time"""
    t = c.t
    gt, dims, ct = t.range(1, 6), t.range(1, 4), t.range(1, 2)
    feats = gen_features(t, gt, len(DIMS[dims]))
    arr = storage_array(t, feats, gt, dims, ct, t.coin())
    schema = ext_schema(gt, dims, ct)
    kind = t.below(8)
    c.note("misuse %d of %s" % (kind, NAMES[gt]))

    def released():
        how = t.below(3)
        h = lib.ArrayHolder()
        if how:
            h = export(arr)
            if how == 1:
                h.release()
            else:
                pa.Array._import_from_c(h._addr(), arr.type)
        return h

    def released_schema():
        h = lib.SchemaHolder()
        if t.coin():
            h = ext_schema(gt, dims, ct)
            h.release()
            raises(ValueError, h.release, what="a second release")
        check(not h.is_valid(), "valid schema")
        return h
    anyerr = (ValueError, lib.GeoArrowCException)
    if kind == 0:
        raises(anyerr, lib.CArrayView, released(), schema, what="a view of a released array")
    elif kind == 1:
        raises(anyerr, lib.CArrayView, export(arr), released_schema(), what="a view with a released schema")
    elif kind == 2:
        raises(anyerr, lib.CBuilder, released_schema(), what="a builder of a released schema")
    elif kind == 3:
        k = lib.CKernel(t.pick([b"format_wkt", b"visit_void_agg", b"box_agg", b"unique_geometry_types_agg", b"box"]))
        k.start(schema, b"\0\0\0\0")
        raises(anyerr, k.push_batch if t.coin() else k.push_batch_agg, released(), what="a released batch")
    elif kind == 4:
        fn, args = t.pick([(lib.CArrayView, (None, schema)), (lib.CArrayView, (export(arr), None)), (lib.CBuilder, (None,)),
                           (lib.CKernel(b"void").start, (None, b"")), (lib.CKernel(b"void").push_batch, (None,)),
                           (lib.CKernel(b"void_agg").push_batch_agg, (None,)), (lib.CGeometryDataType.FromExtension, (None,)),
                           (lib.CGeometryDataType.FromStorage, (None, b"geoarrow.point", b""))])
        raises(TypeError, fn, *args, what="None")
    elif kind == 5:  # an array of another type
        other = t.pick([pa.array([1, 2, 3]), pa.array(["a"]), pa.nulls(3), pa.array([True])])
        raises(anyerr, lib.CArrayView, export(other), schema, what="a view of %s as %s" % (other.type, NAMES[gt]))
    elif kind == 6:
        e = raises(lib.GeoArrowCException, lib.CKernel, t.pick([b"nope", b"", b"void_"]), what="an unknown kernel")
        check(e.code != 0 and isinstance(e.code, int) and str(e.code) in str(e), "no code in %s", e)
        check("{" not in str(e), "message %s", e)
    else:
        b = lib.CBuilder(schema)
        o = b.finish()
        check(o.is_valid(), "an empty builder gives a released array")
        out = pa.Array._import_from_c(o._addr(), storage_type(gt, dims, ct))
        out.validate(full=True)
        check(len(out) == 0, "%d rows", len(out))
    c.label("misuse %d" % kind)


def case(c):
    k = c.t.below(20)
    if k < 8:
        builder_case(c)
    elif k < 16:
        view_case(c)
    elif k < 17:
        serialized_view_case(c)
    else:
        misuse_case(c)
