"""C13: converting a numpy grain keeps the picture."""
from pyvc.prop import Harness
from props import c10, c12

CONTRACTS = []
M = "mediagrains.numpy.convert:"
V = c12.V
DIM = (1 << 20) - 1
MILLION = 1000000

# rec.709, in millionths
TO_YUV = {"Y": (212600, 715200, 72200, 0), "U": (-114572, -385428, 500000, 1), "V": (500000, -454153, -45847, 1)}
TO_RGB = {"R": (MILLION, 0, 1574800), "G": (MILLION, -187324, -468124), "B": (MILLION, 1855600, 0)}
NAMES = {True: ("R", "G", "B"), False: ("Y", "U", "V")}
# (word of four, shift) of the samples of a row of v210, in order
V210 = {"Y": ((0, 10), (1, 0), (1, 20), (2, 10), (3, 0), (3, 20)), "U": ((0, 0), (1, 10), (2, 20)), "V": ((0, 20), (2, 0), (3, 10))}
FORMATS = [f for f in c12.FORMATS if f not in ("AYUV", "RGBA", "ARGB", "BGRA", "ABGR", "S16_444_RGB", "S32_444_RGB")] + ["S16_444_RGB", "S32_444_RGB", "v210"]


class Kind(object):
    def __init__(self, fmt):
        self.fmt = fmt
        self.rgb = "RGB" in fmt or "BGR" in fmt
        self.size, self.hs, self.vs = c10.PLANAR.get(fmt) or ({"v216": 2, "v210": 4}.get(fmt, 1), 1 if self.rgb else 2, 1)
        self.bits = 10 if "10BIT" in fmt or fmt == "v210" else 12 if "12BIT" in fmt else 8 * self.size
        self.top = (1 << self.bits) - 1


def fill(c, kind, w, h):
    """A numpy grain of any samples, and the data given to it."""
    import mediagrains.grains as R
    import mediagrains.numpy as N
    from mediagrains.cogenums import CogFrameFormat as F, CogFrameLayout as L
    from uuid import UUID
    u = UUID(int=5)
    kw = dict(src_id=UUID(int=7), flow_id=u, cog_frame_format=getattr(F, kind.fmt), width=w, height=h,
              cog_frame_layout=L.FULL_FRAME, creation_timestamp=c.timestamp("t"), origin_timestamp=c.timestamp("ot"),
              sync_timestamp=c.timestamp("st"))
    n = c.blen(R.VideoGrain(**kw).data)
    if kind.bits == 8 * kind.size or kind.fmt == "v210":
        data = c.bytes("data", n)
    else:
        data = c.samples("data", n, kind.size, kind.top)
    return N.VideoGrain(data=c.bytearray(data), **kw), data


def get(c, g, kind, name, x, y):
    """The sample of this component at column x of row y."""
    if kind.fmt != "v210":
        return c.element(getattr(g.component_data, name)[x.value(), y.value()])
    words = 32 * ((g.width + 47) // 48)
    at = V210[name]
    word, shift = at[x.p % len(at)]
    return (c.element(g.data[c.place(y.value(), x.over(len(at)).value() * 4 + word, words)]) >> shift) & 0x3FF


class Pos(object):
    """period * g + p, with p known."""
    def __init__(self, period, g, p):
        self.period, self.g, self.p = period, g, p

    def value(self):
        return self.period * self.g + self.p

    def over(self, d):
        assert self.period % d == 0
        return Pos(self.period // d, self.g, self.p // d)

    def times(self, n, i):
        return Pos(self.period * n, self.g, self.p * n + i)


def wanted(a, b, name):
    """[(component of a, factor in millionths)], whether the middle of the range is added."""
    if a.rgb == b.rgb:
        return [(name, MILLION)], 0, 0
    if b.rgb:
        f = TO_RGB[name]
        # the middle of the range is taken off U and V
        return [(n, k) for n, k in zip(("Y", "U", "V"), f) if k], -(f[1] + f[2]), 1
    f = TO_YUV[name]
    return [(n, k) for n, k in zip(("R", "G", "B"), f)], f[3] * MILLION, 1


def check(c, a, b, g, out, name, x, y):
    """The sample of out (kind b) at this place against those of g (kind a) it stands for."""
    bx, by = (b.hs, b.vs) if name in "UV" else (1, 1)
    got = get(c, out, b, name, x, y)
    parts, middle, colour = wanted(a, b, name)
    total, n = 0, 1
    for part, factor in parts:
        ax, ay = (a.hs, a.vs) if part in "UV" else (1, 1)
        nx, ny = max(bx // ax, 1), max(by // ay, 1)
        s = 0
        for i in range(nx):
            for j in range(ny):
                s = s + get(c, g, a, part, x.times(nx, i) if bx >= ax else x.over(ax // bx),
                            y.times(ny, j) if by >= ay else y.over(ay // by))
        n = nx * ny
        total = total + factor * s
    # exact value of the result, times n * MILLION * down
    up, down = (1 << max(b.bits - a.bits, 0)), (1 << max(a.bits - b.bits, 0))
    scale = n * MILLION * down
    exact = total * up + middle * (1 << (b.bits - 1)) * n * down
    exact = c.ite(exact < 0, 0, c.ite(exact > b.top * scale, b.top * scale, exact))
    c.prove(c.And(got >= 0, got <= b.top), "result in the range of the format")
    away = got * scale - exact
    if not colour and n == 1:
        if up > 1:      # the bits there are stay, any may follow
            c.prove(c.And(away >= 0, away < up * scale), "same sample, with any bits below")
        else:           # nearest
            c.prove(c.And(2 * away <= scale, 2 * away >= -scale) if down > 1 else away == 0, "same sample, rounded to the nearest")
    elif not colour and up * down == 1:
        c.prove(c.And(away > -scale, away <= scale) if n == 4 else c.And(2 * away <= scale, 2 * away >= -scale), "mean of the samples")
    else:
        steps = (4 if n * up * down > 1 else 1) if colour else 2
        # the arithmetic of floating point may be off by a little
        little = scale // 1000 if colour else 0
        c.prove(c.And(away <= steps * up * scale + little, away >= -steps * up * scale - little), "sample of the same colour")


def pair(fa, fb):
    def h(c):
        from mediagrains.cogenums import CogFrameFormat as F
        a, b = Kind(fa), Kind(fb)
        hs, vs = max(a.hs, b.hs), max(a.vs, b.vs)
        w, ht = c.int("half_width", 1, DIM), c.int("half_height", 1, DIM)
        if not c.symbolic:
            w, ht = w % 31 + 1, ht % 5 + 1
        w, ht = w * hs, ht * vs
        g, data = fill(c, a, w, ht)
        out = g.convert(getattr(F, fb))
        c.cover("converted")
        c.prove(c.And(out.format == getattr(F, fb), out.width == w, out.height == ht), "format and size")
        px = 6 if "v210" in (fa, fb) else 2 if a.hs != b.hs else 1
        py = 2 if a.vs != b.vs else 1
        x, y = c.int("x", 0, DIM * 2), c.int("y", 0, DIM * 2)
        if c.symbolic:
            name = c.choose("component", list(NAMES[b.rgb]))
            x, y = Pos(px, x, c.choose("px", list(range(px)))), Pos(py, y, c.choose("py", list(range(py))))
            c.assume(c.And(x.value() < w // (b.hs if name in "UV" else 1), y.value() < ht // (b.vs if name in "UV" else 1)))
            check(c, a, b, g, out, name, x, y)
        else:
            for k in range(15):
                name = NAMES[b.rgb][k % 3]
                i, j = (x + k * 7) % (w // (b.hs if name in "UV" else 1)), (y + k) % (ht // (b.vs if name in "UV" else 1))
                check(c, a, b, g, out, name, Pos(px, i // px, i % px), Pos(py, j // py, j % py))
        c.prove_bytes_eq(c.to_bytes(g), data, "the grain converted is left alone")
    return h


def reached(c):
    """Every format that has samples can be converted to every other."""
    import mediagrains.numpy as N
    from mediagrains.cogenums import CogFrameFormat as F
    from uuid import UUID
    for fa in FORMATS:
        g = N.VideoGrain(src_id=UUID(int=1), flow_id=UUID(int=2), cog_frame_format=getattr(F, fa), width=48, height=2)
        for fb in FORMATS:
            out = g.convert(getattr(F, fb))
            c.prove(out.format == getattr(F, fb) and out is not g, "converted")
    c.cover("converted")


def grain(c):
    """What is not samples: times, sizes and source stay, the flow is another, the same for the same flow and format."""
    from mediagrains.cogenums import CogFrameFormat as F
    fa, fb = c.choose("formats", [("U8_422", "YUYV"), ("U8_444", "RGB"), ("U8_420", "S16_422_10BIT"), ("RGB", "RGB"), ("v210", "v210"), ("S16_422_10BIT", "v210")])
    a = Kind(fa)
    g, data = fill(c, a, c.int("w", 1, DIM) * 2 if c.symbolic else 8, c.int("h", 1, DIM) * 2 if c.symbolic else 4)
    how = c.choose("how", ["convert", "asformat"])
    out = getattr(g, how)(getattr(F, fb))
    c.cover("converted")
    if fa == fb and how == "asformat":
        c.prove(out is g, "already in that format")
        return
    c.prove(out is not g, "another grain")
    for k in ("source_id", "origin_timestamp", "sync_timestamp", "rate", "duration", "width", "height", "layout"):
        c.prove(getattr(out, k) == getattr(g, k), k + " stays")
    c.prove(out.format == getattr(F, fb), "format")
    again = g.convert(getattr(F, fb))
    c.prove(out.flow_id == again.flow_id, "the flow is the same each time")
    if fa != fb:
        c.prove(out.flow_id != g.flow_id, "the flow is another")
        c.prove(out.flow_id != g.convert(F.S16_444).flow_id, "another for each format")
    else:
        c.prove(out.flow_id == g.flow_id, "a copy")
        c.prove_bytes_eq(c.to_bytes(g), data, "left alone")
        if fa != "v210":
            old = c.element(g.component_data[0][0, 0])
            out.component_data[0][0, 0] = 1 - old if not c.symbolic and old < 2 else c.int("v", 0, 255)
            c.prove(c.element(g.component_data[0][0, 0]) == old, "a copy does not share its samples")


HARNESSES = []
FC = (V + "VideoGrain.convert", V + "VideoGrain._similar_grain", V + "VideoGrain._get_grain_conversion_function")
DIRECT = {
    "copy": ["_simple_copy_convert_yuv"], "rgb": ["_simple_copy_convert_rgb"], "mean": ["_simple_mean_convert_yuv444__yuv422", "_simple_mean_convert_yuv422__yuv420", "_int_array_mean", "compose"],
    "dup": ["_simple_duplicate_convert_yuv422__yuv444", "_simple_duplicate_convert_yuv420__yuv422", "compose"],
    "down": ["_bitdepth_down_convert_yuv", "_unbiased_right_shift"], "up": ["_bitdepth_up_convert_yuv", "_noisy_left_shift"],
    "downrgb": ["_bitdepth_down_convert_rgb", "_unbiased_right_shift"], "uprgb": ["_bitdepth_up_convert_rgb", "_noisy_left_shift"],
    "toyuv": ["_convert_rgb_to_yuv444"], "torgb": ["_convert_yuv444_to_rgb"], "v210": ["_convert_v210_to_yuv422_10bit", "_convert_yuv422_10bit_to_v210"]}


def direct(a, b):
    """The function that converts directly, if one of them does."""
    if "v210" in (a.fmt, b.fmt):
        return "v210" if "S16_422_10BIT" in (a.fmt, b.fmt) else None
    ss, depth = (a.hs, a.vs) == (b.hs, b.vs), a.bits == b.bits
    if a.rgb != b.rgb:
        return ("torgb" if b.rgb else "toyuv") if ss and depth else None
    if depth and ss:
        return "rgb" if a.rgb else "copy"
    if depth:
        return "mean" if a.hs * a.vs < b.hs * b.vs else "dup"
    if ss:
        return ("down" if a.bits > b.bits else "up") + ("rgb" if a.rgb else "")
    return None


FOUR = (("U8_444", "S16_420_10BIT"), ("S16_444_10BIT", "U8_420"), ("S16_444_12BIT", "S16_420"))
for fa in FORMATS:
    for fb in FORMATS:
        if fa == fb:
            continue
        a, b = Kind(fa), Kind(fb)
        d = direct(a, b)
        # two steps of four samples (but for a few), with a change of colour, or by way of v210's samples, are beyond the solver in reasonable time
        far = not d and (a.rgb != b.rgb or "v210" in (fa, fb) or (b.hs * b.vs == 4 * a.hs * a.vs and (fa, fb) not in FOUR)) or (fa, fb) == ("S32_444", "S32_420")
        HARNESSES.append(Harness("%s[%s,%s]" % (d or "steps", fa, fb), pair(fa, fb), FC + tuple(M + f for f in DIRECT.get(d, ())), covers=("converted",),
                                 mode="bounded" if far else "proof"))
HARNESSES.append(Harness("grain", grain, FC + (V + "VideoGrain.asformat", V + "VideoGrain.flow_id_for_converted_flow"), covers=("converted",)))
HARNESSES.append(Harness("reached", reached, FC, mode="bounded", covers=("converted",), exhaustive=True))
