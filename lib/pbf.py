"""Independent encoder and decoder of the published PBF format (wiki "PBF Format"), written from the
format description only; no osmpbf/protobuf code is used. Objects are the abstract ones of osm.py."""
import struct, zlib
from vf import pct, unpct

MASK = (1 << 64) - 1


# ------------------------------------------------------------------ protobuf wire level
def varint(n):
    n &= MASK
    out = bytearray()
    while n > 0x7F:
        out.append(n & 0x7F | 0x80)
        n >>= 7
    out.append(n)
    return bytes(out)


def zz(n):
    n = s64(n & MASK)
    return ((n << 1) ^ (n >> 63)) & MASK


def f_var(field, n):
    return varint(field << 3) + varint(n)


def f_sint(field, n):
    return varint(field << 3) + varint(zz(n))


def f_bytes(field, b):
    if isinstance(b, str):
        b = b.encode()
    return varint(field << 3 | 2) + varint(len(b)) + b


def packed(field, ns, signed=False):
    return f_bytes(field, b"".join(varint(zz(n) if signed else n) for n in ns))


class Bad(Exception):
    pass


def rd_varint(b, i):
    r = s = 0
    while True:
        if i >= len(b) or s > 63:
            raise Bad("varint")
        c = b[i]
        i += 1
        r |= (c & 0x7F) << s
        s += 7
        if c < 0x80:
            return r & MASK, i


def fields(b):
    """[(field, wire, value)]"""
    i = 0
    out = []
    while i < len(b):
        k, i = rd_varint(b, i)
        w = k & 7
        if w == 0:
            v, i = rd_varint(b, i)
        elif w == 2:
            n, i = rd_varint(b, i)
            if i + n > len(b):
                raise Bad("length")
            v = b[i:i + n]
            i += n
        elif w == 5:
            v = b[i:i + 4]
            i += 4
        elif w == 1:
            v = b[i:i + 8]
            i += 8
        else:
            raise Bad("wire type %d" % w)
        out.append((k >> 3, w, v))
    return out


def unzz(n):
    return (n >> 1) ^ -(n & 1)


def s64(n):
    return n - (1 << 64) if n >> 63 else n


def s32(n):
    n &= 0xFFFFFFFF
    return n - (1 << 32) if n >> 31 else n


def u_packed(fs, field, signed=False):
    out = []
    for f, w, v in fs:
        if f != field:
            continue
        if w == 2:
            i = 0
            while i < len(v):
                n, i = rd_varint(v, i)
                out.append(unzz(n) if signed else s64(n))
        else:
            out.append(unzz(v) if signed else s64(v))
    return out


def one(fs, field, default=None):
    r = default
    for f, w, v in fs:
        if f == field:
            r = v
    return r


# ------------------------------------------------------------------ encoder
class Strings:
    def __init__(self, order=None, rnd=None, dup=False):
        self.idx = {}
        self.list = [b""]
        self.rnd = rnd
        self.dup = dup

    def get(self, b):
        if b in self.idx and not (self.dup and self.rnd.random() < 0.3):
            return self.idx[b]
        self.list.append(b)
        self.idx[b] = len(self.list) - 1
        return self.idx[b]


def delta(ns):
    last = 0
    out = []
    for n in ns:
        out.append(n - last)
        last = n
    return out


MT = {"n": 0, "w": 1, "r": 2}


def encode_info(o, st, dg, vis, skip0=False, rnd=None):
    fs = [f_var(1, int(o["v"]))] + [f_var(f, n) for f, n in ((2, ts_raw(o, dg)), (3, int(o["cs"])), (4, o["uid"]), (5, st.get(unpct(o["user"])))) if n or not skip0]
    if rnd and rnd.random() < .3:
        rnd.shuffle(fs)
    b = b"".join(fs)
    if vis:
        b += f_var(6, 1 if o["vis"] else 0)
    return b


def ts_raw(o, dg):
    if "rawts" in o:
        return o["rawts"]
    n = int(o["ts"]) * 1000
    assert n % dg == 0, (o["ts"], dg)
    return n // dg


def raw_coord(x, gran, off):
    n = x * 100 - off
    assert n % gran == 0, (x, gran, off)
    return n // gran


def raw_of(o, k, gran, off):
    return o["raw" + k] if "raw" + k in o else raw_coord(o[k], gran, off)


def encode_group(kind, objs, st, P):
    meta = P.get("meta", True)
    vis = P.get("vis", False)
    dg, gran, lato, lono = P.get("date", 1000), P.get("gran", 100), P.get("lat_off", 0), P.get("lon_off", 0)
    extra = P.get("extra", b"")
    out = b""
    if kind == "d":
        b = packed(1, delta([int(o["id"]) for o in objs]), True)
        if meta:
            i = packed(1, [int(o["v"]) for o in objs])
            i += packed(2, delta([ts_raw(o, dg) for o in objs]), True)
            i += packed(3, delta([int(o["cs"]) for o in objs]), True)
            i += packed(4, [s32(d) for d in delta([o["uid"] for o in objs])], True)
            i += packed(5, delta([st.get(unpct(o["user"])) for o in objs]), True)
            if vis:
                i += packed(6, [1 if o["vis"] else 0 for o in objs])
            b += f_bytes(5, i)
        b += packed(8, delta([raw_of(o, "y", gran, lato) for o in objs]), True)
        b += packed(9, delta([raw_of(o, "x", gran, lono) for o in objs]), True)
        kv = []
        for o in objs:
            for k, v in o["tags"]:
                kv += [st.get(unpct(k)), st.get(unpct(v))]
            kv.append(0)
        if any(o["tags"] for o in objs) or not P.get("omit_empty_kv"):
            b += packed(10, kv)
        return f_bytes(2, b + extra)
    for o in objs:
        b = b""
        if o["t"] == "n":
            b += f_sint(1, int(o["id"]))
        else:
            b += f_var(1, int(o["id"]))
        if o["tags"]:
            ks = [st.get(unpct(k)) for k, v in o["tags"]]
            vs = [st.get(unpct(v)) for k, v in o["tags"]]
            if P.get("unpacked"):
                b += b"".join(f_var(2, k) for k in ks) + b"".join(f_var(3, v) for v in vs)
            else:
                b += packed(2, ks) + packed(3, vs)
        if meta:
            b += f_bytes(4, encode_info(o, st, dg, vis, P.get("skip0"), st.rnd if P.get("shuffle") else None))
        b += extra
        if o["t"] == "n":
            b += f_sint(8, raw_of(o, "y", gran, lato)) + f_sint(9, raw_of(o, "x", gran, lono))
            out += f_bytes(1, b)
        elif o["t"] == "w":
            b += packed(8, delta([int(n) for n in o["nodes"]]), True)
            out += f_bytes(3, b)
        else:
            b += packed(8, [st.get(unpct(m[2])) for m in o["mem"]])
            b += packed(9, delta([int(m[1]) for m in o["mem"]]), True)
            b += packed(10, [MT[m[0]] for m in o["mem"]])
            out += f_bytes(4, b)
    return out


def encode_block(groups, P, rnd=None):
    """groups: [(kind, objs)], kind in n d w r. P: block parameters."""
    st = Strings(rnd=rnd, dup=P.get("dup", False))
    for s in P.get("prestrings", []):
        st.get(s)
    gs = b""
    for kind, objs in groups:
        gs += f_bytes(2, encode_group(kind, objs, st, P))
    b = f_bytes(1, b"".join(f_bytes(1, s) for s in st.list)) + gs
    tail = b""
    if P.get("gran", 100) != 100 or P.get("explicit"):
        tail += f_var(17, P.get("gran", 100))
    if P.get("date", 1000) != 1000 or P.get("explicit"):
        tail += f_var(18, P.get("date", 1000))
    if P.get("lat_off", 0):
        tail += f_var(19, P["lat_off"])
    if P.get("lon_off", 0):
        tail += f_var(20, P["lon_off"])
    return (tail + b if P.get("params_first") else b + tail) + P.get("extra", b"")


def encode_header(required=("OsmSchema-V0.6", "DenseNodes"), optional=(), gen=None, bbox=None, extra=b""):
    b = b""
    if bbox:
        l, bo, r, t = bbox  # in 1e-7
        b += f_bytes(1, f_sint(1, l * 100) + f_sint(2, r * 100) + f_sint(3, t * 100) + f_sint(4, bo * 100))
    for f in required:
        b += f_bytes(4, f)
    for f in optional:
        b += f_bytes(5, f)
    if gen is not None:
        b += f_bytes(16, gen)
    return b + extra


def blob(typ, data, comp=True, extra=b"", headextra=b"", indexdata=None, nosize=False):
    if comp:
        b = f_var(2, len(data)) + f_bytes(3, zlib.compress(data)) + extra
    else:
        b = f_bytes(1, data) + (b"" if nosize else f_var(2, len(data))) + extra
    h = f_bytes(1, typ)
    if indexdata is not None:
        h += f_bytes(2, indexdata)
    h += f_var(3, len(b)) + headextra
    return struct.pack(">I", len(h)) + h + b


def simple_file(objs, P=None, blocks=None, header=None, comp=True, hist=False, rnd=None):
    """blocks: list of lists of (kind, n) consuming objs in order; default one run per group, one block."""
    P = dict(P or {})
    P.setdefault("vis", hist)
    req = ["OsmSchema-V0.6", "DenseNodes"] + (["HistoricalInformation"] if hist else [])
    out = blob("OSMHeader", header if header is not None else encode_header(req), comp)
    if blocks is None:
        blocks = []
        cur = []
        for o in objs:
            k = "d" if o["t"] == "n" else o["t"]
            if cur and cur[-1][0] == k:
                cur[-1][1] += 1
            else:
                cur.append([k, 1])
        if cur:
            blocks = [cur]
    i = 0
    for bl in blocks:
        gs = []
        for kind, n in bl:
            gs.append((kind, objs[i:i + n]))
            i += n
        out += blob("OSMData", encode_block(gs, P, rnd), comp)
    assert i == len(objs)
    return out


# ------------------------------------------------------------------ decoder
def split_blobs(data):
    """[(offset, type, header_len, blob_len, raw_size, compressed, payload)]"""
    i = 0
    out = []
    while i < len(data):
        if i + 4 > len(data):
            raise Bad("truncated size")
        n = struct.unpack(">I", data[i:i + 4])[0]
        h = fields(data[i + 4:i + 4 + n])
        typ = one(h, 1, b"").decode()
        ds = one(h, 3)
        b = data[i + 4 + n:i + 4 + n + ds]
        if len(b) != ds:
            raise Bad("truncated blob")
        fs = fields(b)
        raw = one(fs, 1)
        z = one(fs, 3)
        rs = one(fs, 2)
        if typ not in ("OSMData", "OSMHeader"):
            raw, z = b"", None
        elif (raw is None) == (z is None):
            raise Bad("blob must hold exactly one of raw and zlib data")
        payload = raw if raw is not None else zlib.decompress(z)
        out.append(dict(offset=i, type=typ, head=n, size=ds, raw_size=-1 if rs is None else rs, comp=z is not None, payload=payload))
        i += 4 + n + ds
    return out


def decode_header(p):
    fs = fields(p)
    r = dict(required=[v.decode() for f, w, v in fs if f == 4], optional=[v.decode() for f, w, v in fs if f == 5],
             gen=pct(one(fs, 16, b"")), bbox=[])
    bb = one(fs, 1)
    if bb is not None:
        q = fields(bb)
        r["bbox"] = [unzz(one(q, 1)), unzz(one(q, 4)), unzz(one(q, 2)), unzz(one(q, 3))]  # l b r t, nanodegrees
    return r


def decode_block(p):
    """Returns dict(strings, gran, date, lat_off, lon_off, groups=[dict(kinds=[..], raws=[..])]).
    Raw objects keep their undecoded integers (string indexes, deltas): the specification decodes them."""
    fs = fields(p)
    st = [v for f, w, v in fields(one(fs, 1, b"")) if f == 1]
    B = dict(strings=[pct(s) for s in st], gran=s32(one(fs, 17, 100)), date=s32(one(fs, 18, 1000)),
             lat_off=s64(one(fs, 19, 0)), lon_off=s64(one(fs, 20, 0)), groups=[])
    for f, w, g in fs:
        if f != 2:
            continue
        gf = fields(g)
        G = dict(kinds=sorted(set({1: "n", 2: "d", 3: "w", 4: "r", 5: "c"}.get(x, "?") for x, _, _ in gf)), items=[])
        for x, _, v in gf:
            q = fields(v)
            if x == 2:
                info = one(q, 5)
                i = fields(info) if info is not None else []
                G["items"].append(dict(t="d", id=u_packed(q, 1, True), lat=u_packed(q, 8, True), lon=u_packed(q, 9, True),
                                       kv=u_packed(q, 10), info=info is not None, v=u_packed(i, 1), ts=u_packed(i, 2, True),
                                       cs=u_packed(i, 3, True), uid=u_packed(i, 4, True), sid=u_packed(i, 5, True), vis=u_packed(i, 6)))
            else:
                info = one(q, 4)
                i = fields(info) if info is not None else []
                it = dict(t={1: "n", 3: "w", 4: "r"}[x], keys=u_packed(q, 2), vals=u_packed(q, 3), info=info is not None)
                it["id"] = unzz(one(q, 1)) if x == 1 else s64(one(q, 1))
                if info is not None:
                    it.update(v=s32(one(i, 1, -1)), ts=s64(one(i, 2, 0)), cs=s64(one(i, 3, 0)), uid=s32(one(i, 4, 0)), sid=one(i, 5, 0),
                              vis=[v2 for f2, _, v2 in i if f2 == 6])
                if x == 1:
                    it.update(lat=unzz(one(q, 8)), lon=unzz(one(q, 9)))
                elif x == 3:
                    it.update(refs=u_packed(q, 8, True))
                else:
                    it.update(roles=u_packed(q, 8), refs=u_packed(q, 9, True), types=u_packed(q, 10))
                G["items"].append(it)
        B["groups"].append(G)
    return B
