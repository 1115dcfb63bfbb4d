"""Reader for the VTK image files (.vti, .pvti) the application writes."""
import re, struct
import numpy as np
TY = {"Float32": "f4", "Float64": "f8", "Int32": "i4"}

def read_vti(path):
    """-> dict(extent, origin, spacing, arrays{name: flat float64 array}) or raises ValueError"""
    raw = open(path, "rb").read()
    m = re.search(rb"<AppendedData[^>]*>", raw)
    head = raw if not m else raw[:m.start()]
    txt = head.decode("latin1")
    if "</VTKFile>" not in raw[-64:].decode("latin1"): raise ValueError("file is not closed: " + path)
    ft = re.search(r"<VTKFile([^>]*)>", txt).group(1)
    order = "<" if 'byte_order="LittleEndian"' in ft else ">"
    hty = "u8" if 'header_type="UInt64"' in ft else "u4"
    im = re.search(r"<ImageData([^>]*)>", txt).group(1)
    at = lambda s, n: (re.search(n + r'\s*=\s*"([^"]*)"', s) or [None, None])[1]
    out = {"whole": [int(x) for x in at(im, "WholeExtent").split()], "origin": [float(x) for x in at(im, "Origin").split()], "spacing": [float(x) for x in at(im, "Spacing").split()]}
    pc = re.search(r"<Piece([^>]*)>", txt)
    out["extent"] = [int(x) for x in at(pc.group(1), "Extent").split()]
    arrays = {}
    for da in re.finditer(r"<DataArray([^>]*?)(/?)>([^<]*)", txt):
        a = da.group(1); name = at(a, "Name"); ty = order + TY[at(a, "type")]; fmt = at(a, "format")
        if fmt == "ascii": arrays[name] = np.array(da.group(3).split(), dtype=np.float64)
        elif fmt == "appended":
            if not m: raise ValueError("no appended data")
            off = int(at(a, "offset"))
            p = raw.index(b"_", m.end()) + 1 + off
            hs = np.dtype(hty).itemsize
            nb = int(np.frombuffer(raw[p:p + hs], dtype=order + hty)[0])
            d = raw[p + hs:p + hs + nb]
            if len(d) != nb: raise ValueError("short appended block for " + name)
            arrays[name] = np.frombuffer(d, dtype=ty).astype(np.float64)
        else: raise ValueError("format " + str(fmt))
    out["arrays"] = arrays
    return out

def read_pvti(path):
    txt = open(path).read()
    if "</VTKFile>" not in txt: raise ValueError("file is not closed: " + path)
    at = lambda s, n: (re.search(n + r'\s*=\s*"([^"]*)"', s) or [None, None])[1]
    im = re.search(r"<PImageData([^>]*)>", txt).group(1)
    out = {"whole": [int(x) for x in at(im, "WholeExtent").split()], "origin": [float(x) for x in at(im, "Origin").split()], "spacing": [float(x) for x in at(im, "Spacing").split()]}
    out["pieces"] = [([int(x) for x in at(p, "Extent").split()], at(p, "Source")) for p in re.findall(r"<Piece([^>]*)>", txt)]
    out["names"] = [at(p, "Name") for p in re.findall(r"<PDataArray([^>]*)>", txt)]
    return out

TYU = dict(TY, Int64="i8", UInt8="u1", UInt64="u8")
def read_vtu(path):
    """unstructured piece -> dict(arrays, points (n,3), conn, offsets, time)"""
    raw = open(path, "rb").read()
    if b"</VTKFile>" not in raw[-64:]: raise ValueError("file is not closed: " + path)
    m = re.search(rb"<AppendedData[^>]*>", raw)
    txt = (raw if not m else raw[:m.start()]).decode("latin1")
    ft = re.search(r"<VTKFile([^>]*)>", txt).group(1)
    order = "<" if 'byte_order="LittleEndian"' in ft else ">"
    hty = "u8" if 'header_type="UInt64"' in ft else "u4"
    at = lambda s, n: (re.search(n + r'\s*=\s*"([^"]*)"', s) or [None, None])[1]
    pc = re.search(r"<Piece([^>]*)>", txt).group(1)
    out = {"np": int(at(pc, "NumberOfPoints")), "nc": int(at(pc, "NumberOfCells"))}
    A = {}
    for da in re.finditer(r"<DataArray([^>]*?)(/?)>([^<]*)", txt):
        a = da.group(1); name = at(a, "Name"); ty = order + TYU[at(a, "type")]; fmt = at(a, "format")
        if fmt == "ascii": A[name] = np.array(da.group(3).split(), dtype=np.float64)
        else:
            p = raw.index(b"_", m.end()) + 1 + int(at(a, "offset"))
            hs = np.dtype(hty).itemsize
            nb = int(np.frombuffer(raw[p:p + hs], dtype=order + hty)[0]); d = raw[p + hs:p + hs + nb]
            if len(d) != nb: raise ValueError("short appended block for " + name)
            A[name] = np.frombuffer(d, dtype=ty).astype(np.float64)
    out["time"] = float(A.pop("TIME")[0]) if "TIME" in A else None
    A.pop("CYCLE", None)
    out["points"] = A.pop("Points").reshape(-1, 3); out["conn"] = A.pop("connectivity").astype(int); out["offsets"] = A.pop("offsets").astype(int); A.pop("types", None)
    if len(out["points"]) != out["np"] or len(out["offsets"]) != out["nc"]: raise ValueError("counts in %s" % path)
    if any(len(v) != out["nc"] for v in A.values()): raise ValueError("cell data sizes in %s: %s for %d cells" % (path, {k: len(v) for k, v in A.items()}, out["nc"]))
    n = out["offsets"][0]
    out["centre"] = out["points"][out["conn"].reshape(-1, n)].mean(axis=1); out["lo"] = out["points"][out["conn"].reshape(-1, n)].min(axis=1); out["hi"] = out["points"][out["conn"].reshape(-1, n)].max(axis=1)
    out["arrays"] = A
    return out

def vtu_state(paths, eps=1e-4):
    """several pieces -> values ordered by position: {var: array, '@total time'}; subcell boxes under '@lo','@hi'"""
    ps = [read_vtu(p) for p in paths]
    c = np.concatenate([p["centre"] for p in ps]); sp = max(np.ptp(c, axis=0).max(), 1e-30)
    k = np.round(c / (eps * sp)).astype(np.int64)
    o = np.lexsort((k[:, 0], k[:, 1], k[:, 2]))
    r = {v: np.concatenate([p["arrays"][v] for p in ps])[o] for v in ps[0]["arrays"]}
    r["@total time"] = ps[0]["time"]; r["@lo"] = np.concatenate([p["lo"] for p in ps])[o]; r["@hi"] = np.concatenate([p["hi"] for p in ps])[o]; r["@centre"] = c[o]
    return r

def sdm_states(d, prefix="out"):
    """{index: state or None} of a directory with spectral-difference outputs, serial or parallel"""
    import os, glob
    g = {}
    for f in glob.glob(d + "/" + prefix + "_*.vtu"):
        t = re.fullmatch(re.escape(prefix) + r"_(?:time)?(\d+)(?:_mpi\d+)?\.vtu", os.path.basename(f))
        if t: g.setdefault(int(t.group(1)), []).append(f)
    out = {}
    for i, fs in g.items():
        try: out[i] = vtu_state(sorted(fs))
        except (ValueError, OSError, AttributeError, IndexError, KeyError): out[i] = None
    return out
