"""fdbdrv's protocol for pychunked_data_view and z3fdb"""
import sys, json, time, os, pathlib
out = os.fdopen(os.dup(1), "w", encoding="latin-1")
os.dup2(2, 1)
import numpy as np
from pychunked_data_view import AxisDefinition, ChunkedDataViewBuilder, Chunking, ExtractorType

V = {}


def chunking(c):
    return Chunking.WHOLE_AXIS if c == "whole" else Chunking.SINGLE_VALUE if c == "single" else Chunking.FixedSizeChunk(c)


def fill(b, op):
    for p in op["parts"]:
        b.add_part(p["sel"], [AxisDefinition(k, chunking(c)) for k, c in p["axes"]], ExtractorType.GRIB)
    if op.get("extend") is not None:
        b.extend_on_axis(op["extend"])
    if "fill" in op:
        b.fill_missing_value(op["fill"])
    return b.build()


def one(op):
    o = op["op"]
    if o == "view":
        V["v"] = v = fill(ChunkedDataViewBuilder(pathlib.Path(op["config"])), op)
        return {"shape": list(v.shape()), "chunk": list(v.chunkShape()), "chunks": list(v.chunks()), "fill": v.fill_missing_value()}
    if o == "at":
        a = np.asarray(V["v"].at(op["i"]))
        return {"dtype": str(a.dtype), "n": int(a.size), "hex": a.tobytes().hex()}
    if o == "zarr":
        import zarr
        from z3fdb import SimpleStoreBuilder
        z = zarr.open_array(fill(SimpleStoreBuilder(pathlib.Path(op["config"])), op), mode="r", zarr_format=3, use_consolidated=False)
        ix = tuple(slice(*s) if isinstance(s, list) else s for s in op["sub"])
        a = np.ascontiguousarray(z[ix])
        return {"shape": list(z.shape), "chunk": list(z.chunks), "dtype": str(a.dtype), "got": list(a.shape), "hex": a.tobytes().hex()}


for line in sys.stdin.buffer:
    op = json.loads(line.decode("latin-1"))
    if op["op"] == "quit":
        break
    t0 = time.monotonic_ns()
    try:
        r = one(op)
    except Exception as x:
        r = {"err": type(x).__name__, "what": str(x)[:1500]}
    out.write(json.dumps([t0, time.monotonic_ns(), r]) + "\n")
    out.flush()
V.clear()
