"""C12: the component and channel arrays of numpy grains are the samples of the grain's data."""
from pyvc.prop import Harness
from props import c10

CONTRACTS = []
V = "mediagrains.numpy.numpy_grains.VideoGrain:"
A = "mediagrains.numpy.numpy_grains.AudioGrain:"
DIM = (1 << 24) - 1

# Where the samples of a packed picture are, in samples: (first, from one to the next, pixels per sample) of each
# component, in the order in which the arrays present them
UYVY = ((1, 2, 1), (0, 4, 2), (2, 4, 2))
YUYV = ((0, 2, 1), (1, 4, 2), (3, 4, 2))


def four(*at):
    return tuple((k, 4, 1) for k in at)


PACKED = {"UYVY": (1, UYVY, "YUV"), "v216": (2, UYVY, "YUV"), "YUYV": (1, YUYV, "YUV"), "AYUV": (1, four(1, 2, 3), "YUV"),
          "RGB": (1, ((0, 3, 1), (1, 3, 1), (2, 3, 1)), "RGB"),
          "RGBx": (1, four(0, 1, 2), "RGB"), "RGBA": (1, four(0, 1, 2), "RGB"), "xRGB": (1, four(1, 2, 3), "RGB"),
          "ARGB": (1, four(1, 2, 3), "RGB"), "BGRx": (1, four(0, 1, 2), "BGR"), "BGRA": (1, four(0, 1, 2), "BGR"),
          "xBGR": (1, four(1, 2, 3), "BGR"), "ABGR": (1, four(1, 2, 3), "BGR")}
FORMATS = sorted(c10.PLANAR) + sorted(PACKED)


def geometry(g, fmt):
    """(size of a sample, names, per component: width, height, offset, stride, distance of samples, all in bytes)."""
    if fmt in c10.PLANAR:
        size = c10.PLANAR[fmt][0]
        k = [(q.width, q.height, q.offset, q.stride, size) for q in g.components]
        return size, ("RGB" if fmt.endswith("RGB") else "YUV"), k
    size, at, names = PACKED[fmt]
    q = g.components[0]
    return size, names, [(q.width // d, q.height, q.offset + first * size, q.stride, step * size) for first, step, d in at]


def picture(c, fmt):
    size, hs, vs = c10.PLANAR.get(fmt) or (1, 2 if fmt in ("UYVY", "YUYV", "v216") else 1, 1)
    w, h = c.int("half_width", 1, DIM), c.int("half_height", 1, DIM)
    if not c.symbolic:
        w, h = w % 9 + 1, h % 7 + 1
    return w * hs, h * vs


def make(c, fmt, w, h, how):
    """A numpy grain with any samples, and what its data was."""
    import mediagrains.grains as R
    import mediagrains.numpy as N
    from mediagrains.cogenums import CogFrameFormat as F, CogFrameLayout as L
    from uuid import UUID
    u = UUID(int=5)
    kw = dict(src_id=u, flow_id=u, cog_frame_format=getattr(F, fmt), width=w, height=h,
              cog_frame_layout=L.FULL_FRAME, creation_timestamp=c.timestamp("t"))
    n = c.blen(R.VideoGrain(**kw).data)
    data = c.bytes("data", n)
    if how == "data":
        return N.VideoGrain(data=c.bytearray(data), **kw), data
    if how == "grain":
        return N.VideoGrain(grain=R.VideoGrain(data=c.bytearray(data), **kw)), data
    g = N.VideoGrain(**kw)
    if how == "set":
        g.data = c.bytearray(data)
    elif how == "await":
        g.data = later(c.bytearray(data))
        c.prove(g.data is None and len(g.component_data) == 0, "nothing there before it is awaited")
        c.run_coro(use(g))
    else:
        data = c.zeros(n)
    return g, data


async def later(x):
    return x


async def use(g):
    async with g as x:
        return x


def sample(c, data, at, size):
    """The little endian number in `size` bytes of the data."""
    return c.number_at(data, at, size)


def views(fmt, how):
    def h(c):
        w, ht = picture(c, fmt)
        g, data = make(c, fmt, w, ht, how)
        size, names, geo = geometry(g, fmt)
        c.cover("made")
        c.prove(len(g.component_data) == 3, "three arrays")
        for i in range(3):
            cw, ch, off, stride, step = geo[i]
            a = g.component_data[i]
            c.prove(a is getattr(g.component_data, names[i]), "arrays by the name of the component")
            c.prove(c.And(len(a.shape) == 2, a.shape[0] == cw, a.shape[1] == ch), "the array has the size of the component")
            x, y = c.int("x%d" % i, 0, DIM * 2), c.int("y%d" % i, 0, DIM * 2)
            if not c.symbolic:
                x, y = x % cw, y % ch
            c.assume(c.And(x < cw, y < ch))
            c.prove(c.element(a[x, y]) == sample(c, data, off + y * stride + x * step, size), "element is the sample at its place")
        c.prove(g.length == c.blen(data), "length")
        c.prove_bytes_eq(c.to_bytes(g), data, "bytes of the grain")
    return h


def writes(fmt, how="data"):
    """Assigning an element changes that sample of the data, and no other element of any array."""
    def h(c):
        w, ht = picture(c, fmt)
        g, data = make(c, fmt, w, ht, how)
        size, names, geo = geometry(g, fmt)
        i, j = c.choose("i", [0, 1, 2]), c.choose("j", [0, 1, 2])
        pos = []
        for n, k in (("", i), ("'", j)):
            cw, ch = geo[k][:2]
            x, y = c.int("x" + n, 0, DIM * 2), c.int("y" + n, 0, DIM * 2)
            if not c.symbolic:
                x, y = x % cw, y % ch
            c.assume(c.And(x < cw, y < ch))
            pos.append((x, y))
        (x, y), (x2, y2) = pos
        old = sample(c, data, geo[j][2] + y2 * geo[j][3] + x2 * geo[j][4], size)
        v = c.int("value", 0, (1 << (8 * size)) - 1)
        g.component_data[i][x, y] = v
        c.cover("assigned")
        same = c.And(i == j, x == x2, y == y2)
        c.prove(c.element(g.component_data[j][x2, y2]) == c.ite(same, v, old), "the element assigned, and no other, has the value")
        c.prove(c.element(g.component_data[i][x, y]) == v, "the element assigned has the value")
    return h


SAMPLES = {"S16": 2, "S24": 3, "S32": 4, "FLOAT": 4, "DOUBLE": 8}


def sound(kind, layout, how):
    """Each channel's array holds the samples of the channel in order; 24 bit samples in the upper bits of 32."""
    def h(c):
        import mediagrains.grains as R
        import mediagrains.numpy as N
        from mediagrains.cogenums import CogAudioFormat as F
        from uuid import UUID
        fmt = kind + "_" + layout
        size = 4 if fmt == "S24_PLANES" else SAMPLES[kind]
        channels = c.choose("channels", [1, 2, 3, 5])
        n = c.int("samples", 0, DIM)
        if not c.symbolic:
            n %= 13
        stored = channels + channels % 2 if layout == "PAIRS" else channels
        u = UUID(int=5)
        kw = dict(src_id=u, flow_id=u, cog_audio_format=getattr(F, fmt), samples=n, channels=channels,
                  sample_rate=48000, creation_timestamp=c.timestamp("t"))
        data = c.bytes("data", n * stored * size)
        given = data if how == "read only" else c.bytearray(data)
        if how == "grain":
            g = N.AudioGrain(grain=R.AudioGrain(data=given, **kw))
        elif how == "set":
            g = N.AudioGrain(**kw)
            g.data = given
        elif how == "await":
            g = N.AudioGrain(data=later(given), **kw)
            c.prove(g.data is None and len(g.channel_data) == 0, "nothing there before it is awaited")
            c.run_coro(use(g))
        else:
            g = N.AudioGrain(data=given, **kw)
        c.cover("made")
        c.prove(len(g.channel_data) == channels, "an array for each channel")
        k = c.int("k", 0, DIM)
        if not c.symbolic:
            k %= max(n, 1)
        for ch in range(channels):
            a = g.channel_data[ch]
            c.prove(c.And(len(a.shape) >= 1, a.shape[0] == n), "the array has the samples of the channel")
            if k < n:
                at = {"PLANES": ch * n + k, "INTERLEAVED": k * channels + ch,
                      "PAIRS": ch // 2 * 2 * n + 2 * k + ch % 2}[layout] * size
                v = a[k] if len(a.shape) == 1 else a[k, 0]
                if kind in ("FLOAT", "DOUBLE"):
                    c.prove(c.same_float(v, data, at, size), "element is the sample at its place")
                else:
                    want = c.number_at(data, at, size, kind != "S24")
                    if kind == "S24":
                        want = want % (1 << 24)
                        want = c.ite(want >= 1 << 23, want - (1 << 24), want) * 256
                    c.prove(c.element(v) == want, "element is the sample at its place")
        c.prove(g.length == c.blen(data), "length")
        c.prove_bytes_eq(c.to_bytes(g), data, "bytes of the grain")
        if how == "read only":
            c.prove_bytes_eq(given, data, "the data given is left alone")
    return h


def copies(fmt):
    """A copy shares the samples, a deep copy has its own."""
    def h(c):
        from copy import copy, deepcopy
        w, ht = picture(c, fmt)
        g, data = make(c, fmt, w, ht, "data")
        size, names, geo = geometry(g, fmt)
        deep = c.choose("deep", [False, True])
        k = (deepcopy if deep else copy)(g)
        c.cover("copied")
        c.prove(k is not g and len(k.component_data) == 3, "another grain with arrays")
        i = c.choose("i", [0, 1, 2])
        cw, ch = geo[i][:2]
        x, y = c.int("x", 0, DIM * 2), c.int("y", 0, DIM * 2)
        if not c.symbolic:
            x, y = x % cw, y % ch
        c.assume(c.And(x < cw, y < ch))
        old = sample(c, data, geo[i][2] + y * geo[i][3] + x * geo[i][4], size)
        c.prove(c.element(getattr(k.component_data, names[i])[x, y]) == old, "same samples")
        v = c.int("value", 0, (1 << (8 * size)) - 1)
        k.component_data[i][x, y] = v
        c.prove(c.element(k.component_data[i][x, y]) == v, "the sample assigned has the value")
        c.prove(c.element(g.component_data[i][x, y]) == (old if deep else v), "shared by copies, not by deep copies")
    return h


def soundcopies(kind, layout):
    def h(c):
        import mediagrains.numpy as N
        from mediagrains.cogenums import CogAudioFormat as F
        from copy import copy, deepcopy
        from uuid import UUID
        n = c.int("samples", 1, DIM)
        if not c.symbolic:
            n = n % 13 + 1
        size = SAMPLES[kind]
        data = c.bytes("data", n * 2 * size)
        g = N.AudioGrain(src_id=UUID(int=5), flow_id=UUID(int=5), cog_audio_format=getattr(F, kind + "_" + layout), samples=n, channels=2,
                         sample_rate=48000, creation_timestamp=c.timestamp("t"), data=c.bytearray(data))
        deep = c.choose("deep", [False, True])
        k = (deepcopy if deep else copy)(g)
        c.cover("copied")
        c.prove(k is not g and len(k.channel_data) == 2, "another grain with channels")
        i = c.int("k", 0, DIM)
        if not c.symbolic:
            i %= n
        c.assume(i < n)
        ch = c.choose("ch", [0, 1])
        old = c.element(g.channel_data[ch][i])
        c.prove(c.element(k.channel_data[ch][i]) == old, "same samples")
        v = c.int("value", 0, (1 << (8 * size - 1)) - 1)
        k.channel_data[ch][i] = v
        c.prove(c.element(k.channel_data[ch][i]) == v, "the sample assigned has the value")
        c.prove(c.element(g.channel_data[ch][i]) == (old if deep else v), "shared by copies, not by deep copies")
    return h


HARNESSES = []
FV = (V + "VideoGrain.__init__", V + "VideoGrain.data", V + "_component_arrays_for_data_and_type", V + "_dtype_from_cogframeformat",
      V + "_component_arrangement_from_format", V + "ComponentDataList.__init__", V + "VideoGrain.length", V + "VideoGrain.__bytes__",
      V + "_component_arrays_for_interleaved_422", V + "_component_arrays_for_interleaved_444_take_three")
for fmt in FORMATS:
    HARNESSES.append(Harness("views[%s]" % fmt, views(fmt, "data"), FV, covers=("made",)))
    HARNESSES.append(Harness("writes[%s]" % fmt, writes(fmt), FV, covers=("assigned",)))
for fmt in ("S16_420_10BIT", "RGB"):
    for how in ("grain", "set", "await"):
        HARNESSES.append(Harness("views[%s,%s]" % (fmt, how), views(fmt, how), FV + (V + "VideoGrain.__await__",), covers=("made",)))
        HARNESSES.append(Harness("writes[%s,%s]" % (fmt, how), writes(fmt, how), FV + (V + "VideoGrain.__await__",), covers=("assigned",)))
FA = (A + "AudioGrain.__init__", A + "AudioGrain.data", A + "_channel_arrays_for_data_and_type", A + "_dtype_from_cogaudioformat",
      A + "AudioGrain.length", A + "AudioGrain.__bytes__")
for kind in SAMPLES:
    for layout in ("PLANES", "PAIRS", "INTERLEAVED"):
        for how in ("data", "read only") + (("grain", "set", "await") if kind in ("S16", "S24") and layout == "PLANES" else ()):
            HARNESSES.append(Harness("sound[%s_%s,%s]" % (kind, layout, how), sound(kind, layout, how), FA, covers=("made",)))
for fmt in ("S16_422_10BIT", "U8_444_RGB", "YUYV", "xBGR"):
    HARNESSES.append(Harness("copies[%s]" % fmt, copies(fmt), FV + (V + "VideoGrain.__copy__", V + "VideoGrain.__deepcopy__"), covers=("copied",)))
for layout in ("PLANES", "PAIRS", "INTERLEAVED"):
    for kind in ("S16", "S32"):
        HARNESSES.append(Harness("copies[%s_%s]" % (kind, layout), soundcopies(kind, layout), FA + (A + "AudioGrain.__copy__", A + "AudioGrain.__deepcopy__"), covers=("copied",)))
