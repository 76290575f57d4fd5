"""C10: raw video is laid out as its format says."""
from pyvc.prop import Harness

CONTRACTS = []
V = "mediagrains.grains.VideoGrain:VideoGrain"
DIM = (1 << 31) - 1

# Every raw format by its documented name: bytes per value and the subsampling of the second and third planes, or
# the bytes per pixel of a packed format.  Written from the names, not from the numbers behind them.
PLANAR = {}
for bits, size in (("U8_444", 1), ("U8_422", 1), ("U8_420", 1), ("U8_444_RGB", 1),
                   ("S16_444_10BIT", 2), ("S16_444_10BIT_RGB", 2), ("S16_422_10BIT", 2), ("S16_420_10BIT", 2),
                   ("S16_444_12BIT", 2), ("S16_444_12BIT_RGB", 2), ("S16_422_12BIT", 2), ("S16_420_12BIT", 2),
                   ("S16_444", 2), ("S16_444_RGB", 2), ("S16_422", 2), ("S16_420", 2),
                   ("S32_444", 4), ("S32_444_RGB", 4), ("S32_422", 4), ("S32_420", 4)):
    PLANAR[bits] = (size, 2 if "422" in bits or "420" in bits else 1, 2 if "420" in bits else 1)
PACKED = {"YUYV": 2, "UYVY": 2, "AYUV": 4, "RGB": 3, "RGBx": 4, "xRGB": 4, "BGRx": 4, "xBGR": 4, "RGBA": 4, "ARGB": 4,
          "BGRA": 4, "ABGR": 4, "v216": 4, "v210": None}
LAYOUTS = ("FULL_FRAME", "SEPARATE_FIELDS", "SINGLE_FIELD", "MIXED_FIELDS", "SEGMENTED_FRAME", "UNKNOWN")


def dims(c, even):
    """Any width and height; `even`: those the subsampling divides."""
    hs, vs = even
    w = c.int("half_width", 0, DIM) * hs if hs > 1 else c.int("width", 0, DIM)
    h = c.int("half_height", 0, DIM) * vs if vs > 1 else c.int("height", 0, DIM)
    return w, h


def small(c, w, h):
    """Concrete evaluations allocate the picture."""
    if not c.symbolic:
        w, h = w % 67, h % 35
    return w, h


def v210_stride(c, w):
    """48 pixels take 128 bytes; a row is a whole number of these groups."""
    return (w + 47) // 48 * 128


def grain(c, fmt, w, h, **kw):
    import mediagrains.grains as R
    from mediagrains.cogenums import CogFrameFormat as F, CogFrameLayout as L
    from uuid import UUID
    u = UUID(int=5)
    return R.VideoGrain(src_id=u, flow_id=u, cog_frame_format=getattr(F, fmt), width=w, height=h,
                        cog_frame_layout=L.FULL_FRAME, creation_timestamp=c.timestamp("t"), **kw)


def fields(c, g, i):
    k = g.components[i]
    return k.stride, k.offset, k.width, k.height, k.length


def planar(fmt, odd):
    def h(c):
        size, hs, vs = PLANAR[fmt]
        w, ht = small(c, *dims(c, (1, 1) if odd else (hs, vs)))
        if not odd:
            w, ht = w - w % hs, ht - ht % vs
        g = grain(c, fmt, w, ht)
        c.cover("made")
        c.prove(len(g.components) == 3, "three components")
        n, end = c.blen(g.data), 0
        for i in range(3):
            st, off, cw, ch, ln = fields(c, g, i)
            sub = (hs, vs) if i else (1, 1)
            c.prove(c.And(cw == w // sub[0], ch == ht // sub[1]), "component has its subsampled size")
            c.prove(st == cw * size, "rows are as long as their samples")
            c.prove(off == end, "components follow each other")
            if odd:
                c.prove(ln >= st * ch, "rows fit into their component")
            else:
                c.prove(ln == st * ch, "a component is its rows")
            end = off + ln
        c.prove(end == n, "the data is its components")
        c.prove(g.expected_length == n, "expected_length")
        c.prove(g.length == n, "length")
        c.prove_bytes_eq(c.to_bytes(g.data), c.zeros(n), "a new picture is all zeros")
    return h


def packed(fmt):
    def h(c):
        w, ht = small(c, *dims(c, (1, 1)))
        g = grain(c, fmt, w, ht)
        c.cover("made")
        c.prove(len(g.components) == 1, "one component")
        st, off, cw, ch, ln = fields(c, g, 0)
        c.prove(c.And(cw == w, ch == ht, off == 0), "component is the picture")
        c.prove(st == (v210_stride(c, w) if fmt == "v210" else w * PACKED[fmt]), "row stride")
        c.prove(ln == st * ht, "a component is its rows")
        n = c.blen(g.data)
        c.prove(c.And(n == ln, g.expected_length == n, g.length == n), "the data is its components")
        c.prove_bytes_eq(c.to_bytes(g.data), c.zeros(n), "a new picture is all zeros")
    return h


def unlaid(c):
    """Nothing is laid out where the format says nothing about it."""
    w, ht = small(c, *dims(c, (1, 1)))
    g = grain(c, c.choose("fmt", ["UNKNOWN", "INVALID"]), w, ht)
    c.cover("made")
    c.prove(c.And(len(g.components) == 0, c.blen(g.data) == 0, g.expected_length == 0), "no layout")


def kept(fmt):
    """Given data and given layouts are kept, and expected_length is the end of the last component."""
    def h(c):
        import mediagrains.grains as R
        from mediagrains.cogenums import CogFrameFormat as F
        d = c.bytes("data", c.size("n"))
        w, ht = dims(c, (1, 1))
        g = grain(c, fmt, w, ht, data=d)
        c.prove_bytes_eq(g.data, d, "data")
        e = grain(c, fmt, *small(c, w, ht))
        if c.symbolic:
            for i in range(len(e.components)):
                for x, y in zip(fields(c, g, i), fields(c, e, i)):
                    c.prove(x == y, "same layout as without data")
        n = c.choose("count", [1, 2, 4])
        comps = [dict((k, c.int("%s%d" % (k, i), 0, DIM)) for k in ("stride", "offset", "width", "height", "length"))
                 for i in range(n)]
        t = str(c.timestamp("t")) if not c.symbolic else c.str(c.timestamp("t"))
        g = R.GrainFactory({"grain": {"grain_type": "video", "source_id": "d3ee1b5c-0b4c-4d0e-8a3e-3ac5a1b2f0a1",
                                      "flow_id": "d3ee1b5c-0b4c-4d0e-8a3e-3ac5a1b2f0a2", "origin_timestamp": t,
                                      "sync_timestamp": t, "creation_timestamp": t,
                                      "cog_frame": {"format": int(getattr(F, fmt)), "width": w, "height": ht, "layout": 0,
                                                    "extension": 0, "components": [dict(k) for k in comps]}}}, d)
        c.cover("made")
        c.prove(len(g.components) == n, "given components: length")
        end = 0
        for i, k in enumerate(comps):
            for a in k:
                c.prove(getattr(g.components[i], a) == k[a], "given components")
            e = k["offset"] + k["length"]
            end = c.ite(e > end, e, end)
        c.prove(g.expected_length == end, "expected_length")
        c.prove_bytes_eq(g.data, d, "data of given layout")
    return h


HARNESSES = []
F_ = (V + ".__init__", V + ".expected_length", V + ".COMPONENT", V + ".COMPONENT_LIST")
for fmt in PLANAR:
    HARNESSES.append(Harness("planar[%s]" % fmt, planar(fmt, False), F_, covers=("made",)))
    if PLANAR[fmt][1:] != (1, 1):
        HARNESSES.append(Harness("planar[%s,odd]" % fmt, planar(fmt, True), F_, covers=("made",)))
for fmt in PACKED:
    HARNESSES.append(Harness("packed[%s]" % fmt, packed(fmt), F_, covers=("made",)))
HARNESSES.append(Harness("unlaid", unlaid, F_, covers=("made",)))
for fmt in ("U8_420", "S16_422_10BIT", "RGB", "v210"):
    HARNESSES.append(Harness("kept[%s]" % fmt, kept(fmt), F_, covers=("made",)))
