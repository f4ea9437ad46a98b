"""Generated features and their Arrow arrays, built without geoarrow"""
import array as pyarray

import numpy as np
import pyarrow as pa

import geoarrow.c as ga
from geoarrow.c import lib

NAMES = {1: "POINT", 2: "LINESTRING", 3: "POLYGON", 4: "MULTIPOINT", 5: "MULTILINESTRING", 6: "MULTIPOLYGON"}
EXT = {1: "geoarrow.point", 2: "geoarrow.linestring", 3: "geoarrow.polygon", 4: "geoarrow.multipoint",
       5: "geoarrow.multilinestring", 6: "geoarrow.multipolygon", 990: "geoarrow.box"}
DIMS = {1: "xy", 2: "xyz", 3: "xym", 4: "xyzm"}
DEPTH = {1: 0, 2: 1, 3: 2, 4: 1, 5: 2, 6: 3}


def nums(t):
    """A coordinate that prints exactly"""
    v = t.below(2001) - 1000
    return float(v) / (1 if t.coin() else 4)


def gen_coord(t, n):
    return tuple(nums(t) for _ in range(n))


def gen_feature(t, gt, n):
    """A feature as nested lists of coordinate tuples"""
    depth = DEPTH[gt]
    if depth == 0:
        return gen_coord(t, n)

    def level(d):
        size = t.below(4)
        if d == 0:
            return gen_coord(t, n)
        return [level(d - 1) for _ in range(size)]
    return level(depth)


def gen_features(t, gt, n, most=6, nulls=True):
    out = []
    for _ in range(t.below(most + 1)):
        out.append(None if nulls and t.chance(1, 5) else gen_feature(t, gt, n))
    return out


def flatten(features, depth, n):
    """Offsets of every level and the coordinates"""
    offs = [[0] for _ in range(depth)]
    coords = []

    def add(x, level):
        if level == depth:
            coords.append(x)
            return
        for y in x:
            add(y, level + 1)
    # Breadth first keeps each level contiguous
    cur = [f if f is not None else ([] if depth else (0.0,) * n) for f in features]
    for d in range(depth):
        nxt = []
        for x in cur:
            nxt.extend(x)
            offs[d].append(len(nxt))
        cur = nxt
    return offs, cur


def validity(features):
    bits = bytearray((len(features) + 7) // 8)
    for i, f in enumerate(features):
        if f is not None:
            bits[i // 8] |= 1 << (i % 8)
    return bytes(bits)


def storage_type(gt, dims, ct):
    names = DIMS[dims]
    if ct == 1:
        ty = pa.struct([pa.field(c, pa.float64(), nullable=False) for c in names])
    else:
        ty = pa.list_(pa.field(names, pa.float64(), nullable=False), len(names))
    for name in {1: [], 2: ["vertices"], 3: ["vertices", "rings"], 4: ["points"], 5: ["vertices", "linestrings"],
                 6: ["vertices", "rings", "polygons"]}[gt]:
        ty = pa.list_(pa.field(name, ty, nullable=False))
    return ty


def junk_rows(t):
    return t.below(4) if t.chance(1, 3) else 0


def coord_array(t, coords, dims, ct, shift):
    """A coordinate array; with shift, a window of a larger one"""
    n = len(DIMS[dims])
    if ct == 1:
        cols = []
        for j in range(n):
            before = junk_rows(t) if shift else 0
            col = pa.array([7777.0] * before + [c[j] for c in coords] + [8888.0], pa.float64())
            cols.append(col.slice(before, len(coords)))
        before = 0
        out = pa.StructArray.from_arrays(cols, fields=list(storage_type(1, dims, 1)))
        if shift:
            before = junk_rows(t)
            fill = pa.StructArray.from_arrays([pa.array([5555.0] * before, pa.float64())] * n,
                                              fields=list(storage_type(1, dims, 1)))
            out = pa.concat_arrays([fill, out]).slice(before, len(coords))
        return out
    before = junk_rows(t) if shift else 0
    flat = [7777.0] * (before * n) + [v for c in coords for v in c]
    out = pa.FixedSizeListArray.from_arrays(pa.array(flat, pa.float64()), type=storage_type(1, dims, 2))
    return out.slice(before, len(coords))


def with_validity(arr, features, t):
    """The same array with a validity bitmap"""
    if all(f is not None for f in features) and t.coin():
        return arr
    bufs = pa.py_buffer(validity(features))
    kids = {"struct": lambda: [arr.field(i) for i in range(arr.type.num_fields)]}
    if pa.types.is_struct(arr.type):
        flat = [arr.field(i) for i in range(arr.type.num_fields)]
        return pa.Array.from_buffers(arr.type, len(arr), [bufs], children=flat)
    if pa.types.is_fixed_size_list(arr.type):
        return pa.Array.from_buffers(arr.type, len(arr), [bufs], children=[arr.flatten() if arr.null_count == 0 else arr.values])
    return pa.Array.from_buffers(arr.type, len(arr), [bufs, arr.buffers()[1]], children=[arr.values])


def storage_array(t, features, gt, dims, ct, shift=False):
    """A storage array of features, possibly a window of a larger one"""
    n = len(DIMS[dims])
    depth = DEPTH[gt]
    before, after = (junk_rows(t), junk_rows(t)) if shift else (0, 0)
    full = [gen_feature(t, gt, n) for _ in range(before)] + features + [gen_feature(t, gt, n) for _ in range(after)]
    offs, coords = flatten(full, depth, n)
    arr = coord_array(t, coords, dims, ct, shift)
    for d in reversed(range(depth)):
        ty = arr.type
        lt = storage_type(gt, dims, ct)
        for _ in range(d):
            lt = lt.value_type
        o = offs[d]
        if shift and d > 0:
            k = junk_rows(t)
            arr = pa.Array.from_buffers(lt, len(o) - 1 + k, [None, pa.array([0] * k + o, pa.int32()).buffers()[1]], children=[arr])
            arr = arr.slice(k, len(o) - 1)
        else:
            arr = pa.Array.from_buffers(lt, len(o) - 1, [None, pa.array(o, pa.int32()).buffers()[1]], children=[arr])
    arr = with_validity(arr, full, t)
    arr.validate(full=True)
    if shift:
        arr = arr.slice(before, len(features))
    return arr


def export(arr):
    h = lib.ArrayHolder()
    arr._export_to_c(h._addr())
    return h


def export_type(ty):
    h = lib.SchemaHolder()
    ty._export_to_c(h._addr())
    return h


def ext_schema(gt, dims, ct):
    return lib.CGeometryDataType.Make(gt, dims, ct).to_schema()


def to_features(arr, dims):
    """The features of a storage array as imported by pyarrow"""
    names = DIMS[dims]

    def conv(x):
        if x is None:
            return None
        if isinstance(x, dict):
            return tuple(x[c] for c in names)
        if isinstance(x, list) and len(x) == len(names) and all(isinstance(v, float) for v in x):
            return tuple(x)
        return [conv(y) for y in x]
    return [conv(x) for x in arr.to_pylist()]


def fmt(v):
    return str(int(v)) if v == int(v) else repr(v)


def wkt(f, gt, dims):
    if f is None:
        return None
    head = NAMES[gt] + {1: "", 2: " Z", 3: " M", 4: " ZM"}[dims]

    def c(x):
        return " ".join(fmt(v) for v in x)

    def body(x, d):
        if d == 0:
            return c(x)
        if not x:
            return "EMPTY"
        return "(" + ", ".join(body(y, d - 1) for y in x) + ")"
    if gt == 1:
        return head + " (" + c(f) + ")"
    if not f:
        return head + " EMPTY"
    return head + " " + body(f, DEPTH[gt])
