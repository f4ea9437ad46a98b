"""Kernels and types through the Python bindings, against a model in Python"""
import gc
import json
import math
import struct
import sys
import threading

import numpy as np
import pyarrow as pa

import geoarrow.c as ga
from geoarrow.c import lib, _lib
from pymodel import *
from worker import Bad, check

RULE = ("histories of kernel calls on columns of features of every encoding, alone or in several threads, and chains of "
        "operations on type objects, right and wrong. Non-trivial: a kernel result with at least two features with "
        "coordinates, or a chain of at least three type operations")

EDGES = ["planar", "spherical", "vincenty", "thomas", "andoyer", "karney"]
CRS_TYPES = [None, None, "projjson", "wkt2:2019", "authority_code", "srid"]


def raises(exc, fn, *a, what=""):
    try:
        fn(*a)
    except exc as e:
        return e
    raise Bad("%s does not raise %s" % (what or fn, exc))


def options(opts):
    out = struct.pack("<i", len(opts))
    for k, v in opts:
        out += struct.pack("<i", len(k)) + k + struct.pack("<i", len(v)) + v
    return out


def wkb(f, gt, dims, swap=False):
    if f is None:
        return None
    e = ">" if swap else "<"
    code = gt + 1000 * (dims - 1)
    out = struct.pack(e + "BI", 0 if swap else 1, code)

    def c(x):
        return struct.pack(e + "%dd" % len(x), *x)

    def seq(xs):
        return struct.pack(e + "I", len(xs)) + b"".join(c(x) for x in xs)

    def poly(x):
        return struct.pack(e + "I", len(x)) + b"".join(seq(r) for r in x)
    if gt == 1:
        return out + c(f)
    if gt == 2:
        return out + seq(f)
    if gt == 3:
        return out + poly(f)
    return out + struct.pack(e + "I", len(f)) + b"".join(wkb(y, gt - 3, dims, swap) for y in f)


def coords_of(f, gt):
    if f is None:
        return []
    out = [f]
    for _ in range(DEPTH[gt]):
        out = [y for x in out for y in x]
    return out


def serialized(t, feats, gt, dims, as_wkb):
    if as_wkb:
        vals = [wkb(f, gt, dims, t.chance(1, 4)) for f in feats]
        ty = pa.binary()
    else:
        vals = [wkt(f, gt, dims) for f in feats]
        ty = pa.string()
    a = junk_rows(t)
    arr = pa.array([vals[0] if vals else None] * a + vals, ty)
    return arr.slice(a)


def column(t, feats, gt, dims):
    """A column of features and the schema to read it by"""
    how = t.below(4)
    if how < 2:
        ct = 1 + how
        arr = storage_array(t, feats, gt, dims, ct, t.coin())
        return arr, lib.CGeometryDataType.Make(gt, dims, ct)
    st = pa.binary() if how == 2 else pa.string()
    s = export_type(st)
    return None, lib.CGeometryDataType.FromStorage(s, b"geoarrow.wkb" if how == 2 else b"geoarrow.wkt", b"")


def batch(t, feats, gt, dims, ty):
    name = ty.extension_name
    if name == "geoarrow.wkb":
        return serialized(t, feats, gt, dims, True)
    if name == "geoarrow.wkt":
        return serialized(t, feats, gt, dims, False)
    return storage_array(t, feats, gt, dims, int(ty.coord_type), t.coin())


def canonical(f, gt, text):
    """Empty parts which some encodings or writers don't keep"""
    return f


def take(h, s):
    field = pa.Field._import_from_c(s._addr())
    return pa.Array._import_from_c(h._addr(), field.type), field


def bounds(coords):
    xs = [c[0] for c in coords]
    ys = [c[1] for c in coords]
    if not coords:
        return (math.inf, math.inf, -math.inf, -math.inf)
    return (min(xs), min(ys), max(xs), max(ys))


def kernel_case(c):
    t = c.t
    gt = t.range(1, 6)
    name = t.pick([b"format_wkt", b"as_geoarrow", b"box", b"box_agg", b"unique_geometry_types_agg", b"visit_void_agg", b"void",
                   b"void_agg"])
    dims = 1 if name in (b"box", b"box_agg") else t.range(1, 4)
    n = len(DIMS[dims])
    ty = column(t, [], gt, dims)[1]
    batches = []
    for _ in range(t.below(4)):
        fs = gen_features(t, gt, n)
        batches.append((fs, batch(t, fs, gt, dims, ty)))
    c.note("%s on %r: %s" % (name.decode(), ty, [len(b[0]) for b in batches]))
    opts = []
    target = None
    if name == b"as_geoarrow":
        target = t.pick(["wkt", "wkb", 1, 2])
        code = {"wkt": 100003, "wkb": 100001}.get(target) or gt + 1000 * (dims - 1) + 10000 * (target - 1)
        opts.append((b"type", str(code).encode()))
    if name == b"format_wkt" and t.coin():
        opts.append((b"precision", b"16"))
    agg = name.endswith(b"agg")
    schema = ty.to_schema()

    def go():
        k = lib.CKernel(name)
        rows = []
        s = k.start(schema, options(opts))
        field = pa.Field._import_from_c(s._addr())
        for fs, arr in batches:
            h = export(arr)
            if agg:
                check(k.push_batch_agg(h) is None, "a value for a batch")
                check(h.is_valid(), "push_batch takes the array")
                continue
            o = k.push_batch(h)
            check(o.is_valid(), "no result for a batch")
            del h
            out = pa.Array._import_from_c(o._addr(), field.type)
            out.validate(full=True)
            check(len(out) == len(fs), "%d rows for %d", len(out), len(fs))
            rows.append(out)
        if agg:
            o = k.finish_agg()
            check(o.is_valid(), "no result")
            out = pa.Array._import_from_c(o._addr(), field.type)
            out.validate(full=True)
            rows.append(out)
        else:
            check(k.finish() is None, "a value from finish()")
        return field, rows

    results = []
    threads = t.below(4) if t.chance(1, 6) else 1
    if threads > 1:
        errs = []

        def safe():
            try:
                results.append(go())
            except BaseException as e:
                errs.append(e)
        ths = [threading.Thread(target=safe) for _ in range(threads)]
        for th in ths:
            th.start()
        for th in ths:
            th.join()
        if errs:
            raise errs[0]
        c.label("threads")
    else:
        results.append(go())
    allf = [f for b in batches for f in b[0]]
    for field, rows in results:
        verify(name, field, rows, batches, allf, gt, dims, target, ty)
    c.label(name.decode())
    if sum(1 for f in allf if f) >= 2:
        c.nontrivial((name, gt, dims, repr(ty), target, repr(allf)))


def verify(name, field, rows, batches, allf, gt, dims, target, ty):
    if name in (b"void", b"void_agg", b"visit_void_agg"):
        check(field.type == pa.null(), "output %s", field.type)
        if name != b"void":
            check(rows[0].to_pylist() == [None], "%r", rows[0])
        return
    if name == b"box_agg":
        got = rows[0].to_pylist()
        want = bounds([x for f in allf for x in coords_of(f, gt)])
        check(len(got) == 1 and tuple(got[0].values()) == want, "%r, expected %r", got, want)
        return
    if name == b"unique_geometry_types_agg":
        want = [gt + 1000 * (dims - 1)] if any(coords_of(f, gt) for f in allf) else []
        if not want and any(allf):
            return  # features of empty parts
        check(rows[0].to_pylist() == want, "%r, expected %r", rows[0].to_pylist(), want)
        return
    for (fs, arr), out in zip(batches, rows):
        if name == b"format_wkt" or target == "wkt":
            got = out.to_pylist()
            want = [wkt(f, gt, dims) for f in fs]
            check(got == want, "%r, expected %r", got, want)
        elif target == "wkb":
            check(out.to_pylist() == [wkb(f, gt, dims) for f in fs], "%r", out.to_pylist())
        elif target:
            check(out.type == storage_type(gt, dims, target), "%s, expected %s", out.type, storage_type(gt, dims, target))
            got = to_features(out, dims)
            check(len(got) == len(fs), "%d rows", len(got))
            for g, f in zip(got, fs):
                # A writer doesn't store empty parts of a feature
                check(g == f or drop(g, DEPTH[gt]) == drop(f, DEPTH[gt]), "%r, expected %r", g, f)
        elif name == b"box":
            for g, f in zip(out.to_pylist(), fs):
                want = None if f is None else bounds(coords_of(f, gt))
                check((g if g is None else tuple(g.values())) == want, "%r, expected %r", g, want)


def drop(f, depth):
    if f is None or depth == 0:
        return f
    out = [drop(x, depth - 1) for x in f]
    return [x for x in out if depth == 1 or x]


def bad_batch_case(c):
    t = c.t
    gt = t.range(1, 6)
    dims = t.range(1, 4)
    n = len(DIMS[dims])
    as_wkb = t.coin()
    feats = [gen_feature(t, gt, n) for _ in range(t.below(3))]
    at = t.below(len(feats) + 1)
    good = [wkb(f, gt, dims) if as_wkb else wkt(f, gt, dims) for f in feats]
    if as_wkb:
        bad = wkb(gen_feature(t, gt, n), gt, dims)
        bad = bad[:t.below(len(bad))] if t.coin() else bytes([t.range(2, 255)]) + bad[1:]
    else:
        bad = t.pick(["", "x", "\u00e9", "POINT (\u00e9 1)", "POINT (1 \u00fc)", "POINT (0 1) \u4e2d", "POINT (0", "LINESTRING (1 2, \u65e5)", "P\u00d6INT (0 1)",
                      "(\u00a0", "POINT\u2003(1 2)", "POINT Z\u00e9 (1 2)", "%s%n", "GEOMETRYCOLLECTION (POINT (1 2)", "MULTIPOINT ((1 2), (\u00e93 4))"])
    vals = good[:at] + [bad] + good[at:]
    ty = pa.binary() if as_wkb else pa.string()
    s = export_type(ty)
    gty = lib.CGeometryDataType.FromStorage(s, b"geoarrow.wkb" if as_wkb else b"geoarrow.wkt", b"")
    name = t.pick([b"visit_void_agg", b"format_wkt", b"as_geoarrow", b"unique_geometry_types_agg"])
    c.note("%s of %r" % (name.decode(), vals))
    k = lib.CKernel(name)
    k.start(gty.to_schema(), options([(b"type", str(gt + 1000 * (dims - 1)).encode())]))
    h = export(pa.array(vals, ty))
    fn = k.push_batch_agg if name.endswith(b"agg") else k.push_batch
    try:
        fn(h)
    except lib.GeoArrowCException as e:
        check(isinstance(e.code, int) and e.code != 0, "code %r", e.code)
        check(name.decode() in e.what and "push_batch" in e.what, "what %r", e.what)
        check(isinstance(e.message, str) and e.message, "no message")
        check(str(e) == "%s failed (%d): %s" % (e.what, e.code, e.message), "text %r", str(e))
        c.label("failed batch")
    else:
        check(name not in (b"visit_void_agg", b"as_geoarrow"), "a malformed value goes unnoticed: %r", bad)
    check(h.is_valid(), "push_batch takes the array")


def kernel_misuse_case(c):
    t = c.t
    kind = t.below(6)
    c.note("misuse %d" % kind)
    c.label("misuse %d" % kind)
    anyerr = (ValueError, lib.GeoArrowCException)
    gt, dims, ct = t.range(1, 6), t.range(1, 4), t.range(1, 2)
    schema = ext_schema(gt, dims, ct)
    names = [b"format_wkt", b"as_geoarrow", b"box", b"box_agg", b"unique_geometry_types_agg", b"visit_void_agg", b"void", b"void_agg"]
    name = t.pick(names)
    k = lib.CKernel(name)
    opts = options([(b"type", b"100001")])
    if kind == 0:  # before start
        arr = export(storage_array(t, gen_features(t, gt, len(DIMS[dims])), gt, dims, ct))
        if not name.startswith(b"void"):
            # What it gives is not specified
            for fn in (k.push_batch, k.push_batch_agg):
                try:
                    fn(arr)
                except anyerr:
                    pass
    elif kind == 1:  # a scalar kernel has no result at the end, an aggregate has
        k.start(schema, opts)
        if name.endswith(b"agg"):
            raises(lib.GeoArrowCException, k.finish, what="finish() of an aggregate kernel")
            check(k.finish_agg().is_valid(), "no result")
        else:
            raises(lib.GeoArrowCException, k.finish_agg, what="finish_agg() of a scalar kernel")
            check(k.finish() is None, "a value")
    elif kind == 2:
        k.start(schema, opts)
        arr = export(storage_array(t, gen_features(t, gt, len(DIMS[dims])), gt, dims, ct))
        if not name.endswith(b"agg"):
            raises(lib.GeoArrowCException, k.push_batch_agg, arr, what="push_batch_agg() of a scalar kernel")
    elif kind == 3:
        s = export_type(t.pick([pa.int32(), pa.null(), pa.list_(pa.int32())]))
        if not name.startswith(b"void"):
            e = raises(lib.GeoArrowCException, k.start, s, opts, what="start() with no geometry")
            check(name.decode() in str(e) and "start()" in str(e) and "{" not in str(e), "text %s", e)
    elif kind == 4:
        k = lib.CKernel(b"as_geoarrow")
        e = raises(lib.GeoArrowCException, k.start, schema, options(t.pick([[], [(b"typ", b"1")], [(b"type", b"x")], [(b"type", b"-1")]])),
                   what="start() without a type")
        try:
            k.push_batch(export(storage_array(t, [], gt, dims, ct)))
        except anyerr:
            pass
    else:
        raises(TypeError, k.start, schema, t.pick([None, 1, "text"]), what="options")
        raises(TypeError, k.start, t.pick([1, "a", lib.ArrayHolder()]), opts, what="schema")


# ------------------------------------------------------------------ types

class M:
    """What a type object should say"""

    def __init__(self, kind, gt=0, dims=0, ct=0, edge=0, crs_type=0, crs=b""):
        self.kind, self.gt, self.dims, self.ct = kind, gt, dims, ct
        self.edge, self.crs_type, self.crs = edge, crs_type, crs

    def copy(self, **kw):
        m = M(self.kind, self.gt, self.dims, self.ct, self.edge, self.crs_type, self.crs)
        m.__dict__.update(kw)
        return m

    def id(self):
        return {"wkb": 100001, "large_wkb": 100002, "wkt": 100003, "large_wkt": 100004, "wkb_view": 100005, "wkt_view": 100006}.get(
            self.kind) or self.gt + 1000 * (self.dims - 1) + 10000 * (self.ct - 1)

    def ext(self):
        if self.kind == "native":
            return EXT[self.gt]
        return "geoarrow.wkb" if "wkb" in self.kind else "geoarrow.wkt"

    def storage(self):
        if self.kind == "native":
            if self.gt == 990:
                names = [c + "min" for c in DIMS[self.dims]] + [c + "max" for c in DIMS[self.dims]]
                return pa.struct([pa.field(x, pa.float64(), nullable=False) for x in names])
            return storage_type(self.gt, self.dims, self.ct)
        return {"wkb": pa.binary(), "large_wkb": pa.large_binary(), "wkt": pa.string(), "large_wkt": pa.large_string(),
                "wkb_view": pa.binary_view(), "wkt_view": pa.string_view()}[self.kind]

    def meta(self):
        d = {}
        if self.edge:
            d["edges"] = EDGES[self.edge]
        if self.crs_type:
            d["crs"] = json.loads(self.crs) if self.crs_type == 2 else self.crs.decode()
            if CRS_TYPES[self.crs_type]:
                d["crs_type"] = CRS_TYPES[self.crs_type]
        return d


def verify_type(c, x, m):
    check(int(x.id) == m.id(), "id %s, expected %d", x.id, m.id())
    check(int(x.geometry_type) == m.gt, "geometry type %s, expected %d", x.geometry_type, m.gt)
    check(int(x.dimensions) == m.dims, "dimensions %s, expected %d", x.dimensions, m.dims)
    check(int(x.coord_type) == m.ct, "coord type %s, expected %d", x.coord_type, m.ct)
    check(isinstance(x.geometry_type, _lib.GeoArrowGeometryType) and isinstance(x.id, _lib.GeoArrowType), "not an enumeration")
    check(int(x.edge_type) == m.edge, "edge type %s, expected %d", x.edge_type, m.edge)
    check(int(x.crs_type) == m.crs_type, "crs type %s, expected %d", x.crs_type, m.crs_type)
    check(x.extension_name == m.ext(), "name %s, expected %s", x.extension_name, m.ext())
    got = json.loads(x.extension_metadata)
    check(got == m.meta(), "metadata %r, expected %r", got, m.meta())
    if m.crs_type == 2:
        check(json.loads(x.crs) == json.loads(m.crs), "crs %r, expected %r", x.crs, m.crs)
    elif m.crs_type:
        check(x.crs == m.crs, "crs %r, expected %r", x.crs, m.crs)
    r = repr(x)
    check(isinstance(r, str) and m.ext() in r, "repr %r", r)
    if m.dims > 1:
        check(m.ext() + "_" + DIMS[m.dims][2:] in r, "repr %r", r)
    check(("interleaved" in r) == (m.ct == 2) or m.crs, "repr %r", r)


def round_trips(c, x, m):
    s = x.to_schema()
    y = lib.CGeometryDataType.FromExtension(s)
    check(s.is_valid(), "FromExtension() takes the schema")
    verify_type(c, y, m)
    check(x == y and not (x != y), "another type from its own schema")
    f = pa.Field._import_from_c(s._addr())
    st = m.storage()
    check(f.type == st or getattr(f.type, "storage_type", None) == st, "storage %s, expected %s", f.type, st)
    if f.metadata:
        check(f.metadata[b"ARROW:extension:name"].decode() == m.ext(), "field metadata %r", f.metadata)
        check(json.loads(f.metadata[b"ARROW:extension:metadata"]) == m.meta(), "field metadata %r", f.metadata)
    raises(ValueError, lib.CGeometryDataType.FromExtension, s, what="a released schema")
    s2 = x.to_storage_schema()
    f2 = pa.Field._import_from_c(s2._addr())
    check(f2.type == st and not f2.metadata, "storage field %s", f2)
    s3 = export_type(st)
    z = lib.CGeometryDataType.FromStorage(s3, m.ext().encode(), x.extension_metadata)
    verify_type(c, z, m)
    check(x == z, "another type from its own storage")


def gen_crs(t):
    ct = t.range(0, 5)
    if ct == 0:
        return 0, b""
    if ct == 2:
        return 2, t.pick([b"{}", b'{"id": 1}', b'{"name": "a\\"b", "x": [1, {"y": null}]}', '{"name": "\u00e9\u4e2d"}'.encode(), b'{"a": "' + b"x" * 60 + b'"}'])
    if t.chance(1, 20):
        return ct, b"x" * ((64 << t.below(11)) - 3 + t.below(7)) + "\u00e9".encode() * t.below(2)
    text = t.pick(["EPSG:3857", "OGC:CRS84", 'GEOGCS["x", 1]', "a\\b", "\u00e9" * 30, "\u4e2d\u65e5" * 12, "x" * 36 + "\u00e9\u00e9", "y" * t.below(80), "\n\t", "/"])
    return ct, (text or "z").encode()


def gen_type(c):
    t = c.t
    k = t.below(8)
    if k < 5:
        m = M("native", t.range(1, 6), t.range(1, 4), t.range(1, 2))
    elif k < 6:
        m = M("native", 990, t.range(1, 4), 1)
    else:
        m = M(t.pick(["wkb", "large_wkb", "wkt", "large_wkt", "wkb_view", "wkt_view"]))
    meta = b""
    if t.coin():
        m.edge = t.below(6)
        m.crs_type, m.crs = gen_crs(t)
        if m.crs_type:
            # Text without a type is of unknown origin and an object is PROJJSON
            pass
        meta = json.dumps(m.meta(), ensure_ascii=t.coin()).encode()
    if m.kind == "native":
        x = lib.CGeometryDataType.Make(m.gt, m.dims, m.ct, meta)
    else:
        x = lib.CGeometryDataType.FromStorage(export_type(m.storage()), m.ext().encode(), meta)
    c.note("%s %d %d %d %r" % (m.kind, m.gt, m.dims, m.ct, meta))
    return x, m


def type_case(c):
    t = c.t
    x, m = gen_type(c)
    verify_type(c, x, m)
    key = [(m.kind, m.id(), m.crs)]
    old, old_m = x, m
    for _ in range(t.below(6)):
        op = t.below(8)
        c.note("op %d" % op)
        if op == 0:
            g = t.pick([1, 2, 3, 4, 5, 6, 0, 7])
            ok = m.kind == "native" and 1 <= g <= 6 and (m.gt != 990 or m.ct == 1)
            fn, arg, nm = x.with_geometry_type, (g,), m.copy(gt=g)
            if m.kind != "native" and g == 0:
                continue
        elif op == 1:
            g = t.pick([1, 2, 3, 4, 0])
            ok = m.kind == "native" and g
            fn, arg, nm = x.with_dimensions, (g,), m.copy(dims=g)
            if m.kind != "native" and g == 0:
                continue
        elif op == 2:
            g = t.pick([1, 2, 0])
            ok = m.kind == "native" and g and not (m.gt == 990 and g == 2)
            fn, arg, nm = x.with_coord_type, (g,), m.copy(ct=g)
            if m.kind != "native" and g == 0:
                continue
        elif op == 3:
            g = t.below(6)
            ok, fn, arg, nm = True, x.with_edge_type, (g,), m.copy(edge=g)
        elif op == 4:
            ct, crs = gen_crs(t)
            ok, fn, arg, nm = True, x.with_crs, (crs, ct), m.copy(crs=crs, crs_type=ct)
        elif op == 5:
            round_trips(c, x, m)
            continue
        elif op == 6:
            how = t.below(5)
            if how == 0:
                other, om = gen_type(c)
            else:  # changed in one thing, or not
                other, om = x, m.copy()
                if how == 1:
                    om.edge = t.below(6)
                    other = other.with_edge_type(om.edge)
                elif how == 2 and m.crs_type not in (0, 2):
                    i = t.below(len(m.crs))
                    if m.crs[i] < 128:
                        om.crs = m.crs[:i] + bytes([t.range(48, 122)]) + m.crs[i + 1:]
                    other = other.with_crs(om.crs, om.crs_type)
                elif how == 3 and m.crs_type:
                    om.crs_type, om.crs = gen_crs(t)
                    if t.coin() and om.crs_type not in (0, 2) and m.crs_type != 2:
                        om.crs = m.crs
                    other = other.with_crs(om.crs, om.crs_type)
                elif m.kind == "native":
                    om.dims = t.range(1, 4)
                    other = other.with_dimensions(om.dims)
                c.label("equality with a neighbour")
            same = (m.id(), m.edge, m.crs_type) == (om.id(), om.edge, om.crs_type) and x.crs == other.crs
            check((x == other) == same and (other == x) == same and (x != other) == (not same), "%r == %r", x, other)
            check(x != 1 and x != None and not (x == "a"), "equal to something else")
            continue
        else:
            bad = t.pick([-1, 7, 8, 99, 1000, 2**31 - 1, "a", None, 1.5, 2**40])
            c.label("bad enumeration value")
            f = t.pick([lambda: x.with_geometry_type(bad), lambda: x.with_dimensions(bad), lambda: x.with_coord_type(bad),
                        lambda: x.with_edge_type(bad), lambda: x.with_crs(b"x", bad), lambda: lib.CGeometryDataType.Make(bad, 1, 1),
                        lambda: lib.CGeometryDataType.Make(1, bad, 1), lambda: lib.CGeometryDataType.Make(1, 1, bad)])
            try:
                y = f()
            except (ValueError, TypeError, OverflowError):
                continue
            # Whatever it is, it can be looked at
            for g in (lambda: repr(y), lambda: y.extension_metadata, lambda: y.to_schema(), lambda: y.edge_type, lambda: y.crs_type, lambda: y == x):
                try:
                    g()
                except (ValueError, TypeError, OverflowError):
                    pass
            c.label("bad enumeration value accepted")
            continue
        if ok:
            old, old_m = x, m
            x, m = fn(*arg), nm
            key.append((m.id(), m.edge, m.crs_type, m.crs))
            verify_type(c, x, m)
            verify_type(c, old, old_m)
        else:
            raises(ValueError, fn, *arg, what="%s%r of %r" % (fn.__name__, arg, x))
    round_trips(c, x, m)
    c.label(m.kind)
    if len(key) >= 3:
        c.nontrivial(("type", key))


def bad_type_case(c):
    t = c.t
    kind = t.below(5)
    c.note("bad type %d" % kind)
    c.label("bad type %d" % kind)
    if kind == 0:
        raises(ValueError, lib.CGeometryDataType.FromStorage, export_type(t.pick([pa.int32(), pa.list_(pa.int8()), pa.struct([])])),
               t.pick([b"geoarrow.point", b"geoarrow.polygon", b"geoarrow.wkb", b"geoarrow.box"]), b"", what="another storage type")
    elif kind == 1:
        raises(ValueError, lib.CGeometryDataType.FromStorage, export_type(pa.binary()), t.pick([b"geoarrow.poin", b"geoarrow.", b"x", b"geoarrow.pointx"]), b"",
               what="an unknown name")
    elif kind == 2:
        raises(ValueError, lib.CGeometryDataType.Make, 1, 1, 1, t.pick([b"x", b"{", b'{"edges": "flat"}', b"[]", b'{"crs": 1}']),
               what="malformed metadata")
    elif kind == 3:
        raises(ValueError, lib.CGeometryDataType.FromExtension, export_type(t.pick([pa.int32(), pa.struct([]), pa.list_(pa.int8())])), what="no extension")
    else:
        e = lib.CGeometryDataType()
        check(repr(e).startswith("<Uninitialized"), "repr %r", repr(e))
        for f in (lambda: e.id, lambda: e.geometry_type, lambda: e.to_schema(), lambda: e.to_storage_schema(), lambda: e.with_dimensions(1),
                  lambda: e.crs, lambda: e.extension_metadata, lambda: e.with_crs(b"a", 1)):
            raises(ValueError, f, what="an uninitialized type")


def constants():
    out = []
    for v, name in enumerate(["GEOMETRY", "POINT", "LINESTRING", "POLYGON", "MULTIPOINT", "MULTILINESTRING", "MULTIPOLYGON",
                              "GEOMETRYCOLLECTION"]):
        out.append(("GeometryType", name, v))
    out.append(("GeometryType", "BOX", 990))
    for v, name in enumerate(["UNKNOWN", "XY", "XYZ", "XYM", "XYZM"]):
        out.append(("Dimensions", name, v))
    for v, name in enumerate(["UNKNOWN", "SEPARATE", "INTERLEAVED"]):
        out.append(("CoordType", name, v))
    for v, name in enumerate(["PLANAR", "SPHERICAL", "VINCENTY", "THOMAS", "ANDOYER", "KARNEY"]):
        out.append(("EdgeType", name, v))
    for v, name in enumerate(["NONE", "UNKNOWN", "PROJJSON", "WKT2_2019", "AUTHORITY_CODE", "SRID"]):
        out.append(("CrsType", name, v))
    return out


CONSTANTS = constants()
TYPE_IDS = {}
for _d, _s in enumerate(["", "_Z", "_M", "_ZM"]):
    TYPE_IDS["GEOARROW_TYPE_BOX" + _s] = 990 + 1000 * _d
    for _g in NAMES:
        TYPE_IDS["GEOARROW_TYPE_" + NAMES[_g] + _s] = _g + 1000 * _d
        TYPE_IDS["GEOARROW_TYPE_INTERLEAVED_" + NAMES[_g] + _s] = _g + 1000 * _d + 10000


def constants_case(c):
    """What the constants are called is what they are"""
    t = c.t
    c.label("constants")
    cls, name, v = t.pick(CONSTANTS)
    c.note("%s.%s" % (cls, name))
    got = getattr(getattr(ga, cls), name)
    check(int(got) == v and got == v, "%s.%s is %r", cls, name, got)
    check(getattr(lib, cls, getattr(ga, cls)) is getattr(ga, cls), "two classes %s", cls)
    # Types made with names have the parts of these names
    p = {k: t.pick([x for x in CONSTANTS if x[0] == k and x[1] not in ("UNKNOWN", "GEOMETRY", "GEOMETRYCOLLECTION")])
         for k in ("GeometryType", "Dimensions", "CoordType", "EdgeType", "CrsType")}
    if p["GeometryType"][1] == "BOX":
        p["CoordType"] = ("CoordType", "SEPARATE", 1)
    at = {k: getattr(getattr(ga, k), x[1]) for k, x in p.items()}
    x = lib.CGeometryDataType.Make(at["GeometryType"], at["Dimensions"], at["CoordType"]).with_edge_type(at["EdgeType"])
    if p["CrsType"][2]:
        x = x.with_crs(b"{}" if p["CrsType"][1] == "PROJJSON" else b"abc", at["CrsType"])
    name = "GEOARROW_TYPE_%s%s%s" % ("INTERLEAVED_" if p["CoordType"][2] == 2 else "", p["GeometryType"][1],
                                     ["", "_Z", "_M", "_ZM"][p["Dimensions"][2] - 1])
    check(x.id == TYPE_IDS[name], "%s has the id %r", name, x.id)
    check((int(x.geometry_type), int(x.dimensions), int(x.coord_type), int(x.edge_type), int(x.crs_type)) ==
          tuple(p[k][2] for k in ("GeometryType", "Dimensions", "CoordType", "EdgeType", "CrsType")), "parts of %s", repr(x))
    if p["EdgeType"][2]:
        check(EDGES[p["EdgeType"][2]] in repr(x).lower(), "no %s in %s", p["EdgeType"][1], repr(x))
    c.nontrivial(repr(sorted(p.items())))


def case(c):
    k = c.t.below(22)
    if k >= 20:
        return constants_case(c)
    if k < 9:
        kernel_case(c)
    elif k < 11:
        bad_batch_case(c)
    elif k < 13:
        kernel_misuse_case(c)
    elif k < 19:
        type_case(c)
    else:
        bad_type_case(c)
