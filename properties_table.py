"""Per-property configuration of the checks.  cases: quick tier total."""
_PYARROW = "/opt/vp/venv/lib/python3.12/site-packages/pyarrow"
PROPS = {
    "C01": dict(src="c01_wkb_bytes.cc", cases=800000),
    "C02": dict(src="c02_wkb_decode.cc", cases=400000),
    "C03": dict(src="c03_wkt_bytes.cc", cases=500000),
    "C04": dict(src="c04_wkt_decode.cc", cases=200000),
    "C05": dict(src="c05_wkt_write.cc", cases=200000),
    "C06": dict(src="c06_wkt_limit.cc", cases=350000),
    "C07": dict(src="c07_numbers.cc", cases=6000000),
    "C08": dict(src="c08_wkb_write.cc", cases=450000),
    "C09": dict(src="c09_native_write.cc", cases=350000),
    "C10": dict(src="c10_native_read.cc", cases=350000),
    "C11": dict(src="c11_convert.cc", cases=350000),
    "C12": dict(src="c12_coords.cc", cases=2500000),
    "C13": dict(src="c13_visitor_calls.cc", cases=1000000),
    "C14": dict(src="c14_geometry.cc", cases=600000),
    "C15": dict(src="c15_metadata.cc", cases=1600000),
    "C16": dict(src="c16_schema.cc", cases=5000000),
    "C17": dict(src="c17_box.cc", cases=300000),
    "C18": dict(src="c18_types.cc", cases=300000),
    "C19": dict(src="c19_builder.cc", cases=400000),
    "C20": dict(src="c20_alloc.cc", cases=300000),
    "C21": dict(src="c21_threads.cc", cases=26000, configs="TU", fuzz=False),
    "C24": dict(src="c24_visitor_stop.cc", cases=400000),
    "C28": dict(src="c28_bad_arrays.cc", cases=800000),
    "C27": dict(src="c27_kernels.cc", cases=160000),
    "C22": dict(src="c22_array_views.cc", cases=400000),
    "C25": dict(src="c25_wkb_parser.cc", cases=300000),
    "C26": dict(src="c26_hpp_types.cc", cases=300000),
    "C29": dict(src="c29_arrow_types.cc", cases=120000, std="c++20", configs="A", defs=["-isystem", _PYARROW + "/include"],
                ldflags=[_PYARROW + "/libarrow.so.2600", "-Wl,-rpath," + _PYARROW]),
    "C23": dict(driver="pydriver", module="c23", cases=60000),
    "C30": dict(driver="pydriver", module="c30", cases=60000),
}
