"""C18: test pattern generators are functions of time."""
from fractions import Fraction
from math import gcd, pi, sin
from pyvc.prop import Harness

CONTRACTS = []
V = "mediagrains.patterngenerators.video."
A = "mediagrains.patterngenerators.audio."
GET = ("mediagrains.patterngenerators.abc:PatternGenerator.__getitem__", "mediagrains.patterngenerators.abc:PatternGenerator.get_range",
       "mediagrains.patterngenerators.abc:PatternGenerator.__contains__",
       "mediagrains.patterngenerators.abc:FixedRatePatternGenerator.get_range")
STILL = (V + "still:StillPatternGenerator.get", V + "still:StillPatternGenerator.__init__", V + "abc:VideoPatternGenerator.__init__")
FNS = {"steps": STILL + (V + "lumasteps:LumaSteps.__init__",), "bars": STILL + (V + "colourbars:ColourBars.__init__",),
       "moving": STILL + (V + "movingbaroverlay:MovingBarOverlay.__init__", V + "movingbaroverlay:MovingBarOverlay.get"),
       "still": STILL, "tone": (A + "tone:Tone.__init__", A + "tone:Tone.get", A + "tone:Tone._get_samples", A + "abc:AudioPatternGenerator.__init__")}
# name: (bits, horizontal, vertical subsampling)
FORMATS = {"%s_%s%s" % (k, ss, "" if b in (8, 16) else "_%dBIT" % b): (b, hs, vs)
           for k, b in (("U8", 8), ("S16", 10), ("S16", 12), ("S16", 16))
           for ss, hs, vs in (("444", 0, 0), ("422", 1, 0), ("420", 1, 1))}
SIZES = [(16, 4), (8, 2), (7, 3), (2, 2), (1, 2), (12, 5), (20, 6)]
RATE = Fraction(30000, 1001)
# eight bars at 16 bits, luma before it is scaled by the intensity
BARS = [(0xFFFF, 0x8000, 0x8000), (0xE1FF, 0x0000, 0x9400), (0xB200, 0xABFF, 0x0000), (0x95FF, 0x2BFF, 0x15FF),
        (0x69FF, 0xD400, 0xEA00), (0x4C00, 0x5400, 0xFFFF), (0x1DFF, 0xFFFF, 0x6BFF), (0, 0x8000, 0x8000)]


def plane(bits, w, h, at):
    n = 1 if bits == 8 else 2
    return b"".join(at(x, y).to_bytes(n, "little") for y in range(h) for x in range(w))


def steps(fmt, w, h):
    b, hs, vs = FORMATS[fmt]
    black, white, grey = 16 << (b - 8), 235 << (b - 8), 128 << (b - 8)
    return [lambda x, y: black + x * 8 // w * (white - black) // 8, lambda x, y: grey, lambda x, y: grey]


def bars(fmt, w, h, intensity):
    b, hs, vs = FORMATS[fmt]
    cw = w >> hs
    return [lambda x, y: int((BARS[x * 8 // w][0] >> (16 - b)) * intensity),
            lambda x, y: BARS[x * 8 // cw][1] >> (16 - b), lambda x, y: BARS[x * 8 // cw][2] >> (16 - b)]


def overlay(fmt, w, h, under, start, height):
    """A black bar of `height` lines from line `start`, wrapping round."""
    b, hs, vs = FORMATS[fmt]
    ch = h >> vs
    inside = [lambda y: (y - start) % h < height] + [lambda y: (y - (start >> vs)) % ch < (height >> vs)] * 2
    black = [16 << (b - 8), 128 << (b - 8), 128 << (b - 8)]
    return [(lambda x, y, i=i: black[i] if inside[i](y) else under[i](x, y)) for i in range(3)]


def picture(fmt, w, h, planes):
    b, hs, vs = FORMATS[fmt]
    return plane(b, w, h, planes[0]) + b"".join(plane(b, w >> hs, h >> vs, p) for p in planes[1:])


def rows(c, g):
    """The pixels of a picture without what is between the rows and components."""
    d, out = c.to_bytes(g.data), b""
    n = 1 if g.cog_frame_format.name.startswith("U8") else 2
    for p in g.components:
        for y in range(p.height):
            out = out + d[p.offset + y * p.stride:p.offset + y * p.stride + p.width * n]
    return out


def key(c, k, rate, kinds, name="key"):
    """Ways to name instant k of a rate."""
    TV = c.time_class("TimeValue")
    how = c.choose(name, kinds)
    if how == "count":
        return TV(k)
    if how == "count at rate":
        return TV(k, rate)
    if how == "time":
        return TV(c.instant(k, rate))
    if how == "double rate":
        return TV(k * 2, rate * 2)
    return TV(c.instant(k, rate), rate)


KEYS = ["count", "count at rate", "time", "double rate", "time at rate"]


def video(c, fmt, w, h, rate=RATE):
    from mediagrains import cogenums
    return dict(src_id=c.uuid("src"), flow_id=c.uuid("flow"), width=w, height=h, rate=rate,
                cog_frame_format=getattr(cogenums.CogFrameFormat, fmt))


def is_video(c, g, gen, fmt, w, h, when, rate=RATE):
    from mediagrains.grains import VideoGrain
    c.prove(isinstance(g, VideoGrain), "a video grain")
    c.prove(c.And(g.source_id == gen.src_id, g.flow_id == gen.flow_id), "ids")
    c.prove(c.And(g.origin_timestamp == when, g.sync_timestamp == when), "the time asked for")
    c.prove(g.rate == rate and g.cog_frame_format.name == fmt and (g.width, g.height) == (w, h), "format")
    c.prove(len(g.data) == g.expected_length, "all of the picture")


def make(c, kind, fmt, w, h, rate=RATE):
    """A generator and its picture."""
    from mediagrains.patterngenerators import video as P
    a = video(c, fmt, w, h, rate)
    if kind == "steps":
        return P.LumaSteps(**a), steps(fmt, w, h)
    i = c.choose("intensity", [0.75, 1.0, 0.5])
    return P.ColourBars(intensity=i, **a), bars(fmt, w, h, i)


def still(c, fmt, w, h):
    from mediagrains.patterngenerators.video import StillPatternGenerator
    from mediagrains.grains import VideoGrain
    from mediagrains.cogenums import CogFrameLayout as L
    a = video(c, fmt, w, h)
    g = VideoGrain(cog_frame_layout=L.FULL_FRAME, **a)
    d = c.bytes("picture", g.expected_length)
    g.data = c.bytearray(d)
    return StillPatternGenerator(g), d


def size(c, sizes):
    if not c.symbolic and c.choose("other size", [False, True]):
        return c.int("w", 2, 40), c.int("h", 2, 8)
    return c.choose("size", sizes)


def pictures(kind, fmt):
    def h(c):
        w, ht = size(c, SIZES)
        if kind == "still":
            gen, want = still(c, fmt, w, ht)
        else:
            gen, planes = make(c, kind, fmt, w, ht)
            want = picture(fmt, w, ht, planes)
        for i in range(2):
            k = c.int("k%d" % i, -(1 << 40), 1 << 40)
            g = gen.get(key(c, k, RATE, KEYS if i else KEYS[:1], "key%d" % i))
            is_video(c, g, gen, fmt, w, ht, c.instant(k, RATE))
            c.prove_bytes_eq(c.to_bytes(g.data) if kind == "still" else rows(c, g), want, "picture %d" % i)
            g.data[0] = 3       # what is done with a grain does not change the next one
            g.data[g.expected_length - 1] = 5
        c.cover("got")
    return h


def moving(fmt, dims):
    def h(c):
        from mediagrains.patterngenerators.video import MovingBarOverlay
        w, ht = size(c, [dims])
        if FORMATS[fmt][2]:
            ht = ht + ht % 2        # half a line of chroma has no place
        kind = "bars" if w == 4 else "steps"
        src, under = make(c, kind, fmt, w, ht)
        bar, speed = c.choose("bar", [(1, 1), (2, 1.0), (0, 1), (3, 2), (ht + 1, 0.5), (2, 0.5)])
        gen = MovingBarOverlay(src, height=bar, speed=speed)
        r = c.choose("phase", list(range(ht * (2 if speed == 0.5 else 1))))
        k = c.int("q", 0 if speed == 0.5 else -(1 << 20), 1 << 30) * (ht * 2) + r
        want = picture(fmt, w, ht, overlay(fmt, w, ht, under, int(r * speed), bar))
        for i in range(2):      # the second time is like the first: the source is not drawn upon
            g = gen.get(key(c, k, RATE, ["time" if i else "count"], "key%d" % i))
            is_video(c, g, gen, fmt, w, ht, c.instant(k, RATE))
            c.prove_bytes_eq(rows(c, g), want, "picture %d" % i)
        c.cover("got")
    return h


ORDER = ("PLANES", "PAIRS", "INTERLEAVED")
DEPTH = {"S16": (15, 2), "S24": (23, 3), "S32": (31, 4), "FLOAT": (0, 4), "DOUBLE": (0, 8)}


def channels_of(order, values, channels):
    """The values of equal channels in the order of a format."""
    if order == "PLANES":
        return values * channels
    if order == "PAIRS":
        return [v for _ in range((channels + 1) // 2) for v in values for _ in range(2)]
    return [v for v in values for _ in range(channels)]


def tone(depth, order):
    import struct

    def h(c):
        from mediagrains.patterngenerators.audio import Tone, Tone1K, Silence
        from mediagrains.grains import AudioGrain
        from mediagrains.cogenums import CogAudioFormat
        name = "%s_%s" % (depth, order)
        ch, sr, n, f, volume = c.choose("config", [(2, 48000, 10, 8000, 1.0), (3, 44100, 7, 8820, 0.5), (1, 48000, 6, 1000, 1.0),
                                                   (2, 32000, 5, 0, 0.0), (4, 48000, 8, 12000, 0.3), (1, 8000, 4, 0, 0.5)])
        a = dict(src_id=c.uuid("src"), flow_id=c.uuid("flow"), samples=n, channels=ch, sample_rate=sr,
                 cog_audio_format=getattr(CogAudioFormat, name))
        if f == 0 and volume == 0.0:
            gen = Silence(**a)
        elif f == 1000:
            gen = Tone1K(volume=volume, **a)
        else:
            gen = Tone(frequency=f, volume=volume, **a)
        loop = sr // gcd(f, sr) if f else 1
        phases = loop // gcd(n, loop)
        rate = Fraction(sr, n)
        bits, size = DEPTH[depth]
        if depth == "S24" and order == "PLANES":
            size = 4
        for i in range(2):
            r = c.choose("phase", list(range(phases))[:3]) if i == 0 else (r + 1) % phases
            k = c.int("q%d" % i, -(1 << 20), 1 << 30) * phases + r
            g = gen.get(key(c, k, rate, KEYS[1:] if r == i == 1 else KEYS[2:3], "key%d" % i))
            c.prove(isinstance(g, AudioGrain), "an audio grain")
            c.prove(c.And(g.source_id == gen.src_id, g.flow_id == gen.flow_id), "ids")
            when = c.instant(k, rate)
            c.prove(c.And(g.origin_timestamp == when, g.sync_timestamp == when), "the time asked for")
            c.prove((g.cog_audio_format.name, g.channels, g.samples, g.sample_rate, g.rate) == (name, ch, n, sr, rate), "format")
            want = channels_of(order, [sin(2 * pi * f * (r * n + j) / sr) * volume for j in range(n)], ch)
            d = c.to_bytes(g.data)
            c.prove(c.And(len(d) == len(want) * size, len(d) == g.expected_length), "all of the sound")
            bad = None
            if depth in ("FLOAT", "DOUBLE"):
                got = struct.unpack("@%d%s" % (len(want), depth[0].lower()), bytes(d))
                if max(abs(x - y) for x, y in zip(got, want)) > 1e-6:
                    bad = got
            else:
                got = [int.from_bytes(d[j * size:(j + 1) * size], "little", signed=True) for j in range(len(want))]
                if max(abs(x - min(y * (1 << bits), (1 << bits) - 1)) for x, y in zip(got, want)) > 1:
                    bad = got
            c.prove(bad is None, "a sine going on from grain to grain", "%r for %r" % (bad, want))
            g.data[0] = 77      # what is done with a grain does not change the next one
        c.cover("got")
    return h


def between(c):
    """Times at which no grain of a tone starts."""
    gen, rate = pick(c, "tone")
    n = gen.samples
    off = key(c, c.int("m", -(1 << 30), 1 << 30) * n + c.int("part", 1, n - 1), Fraction(gen.sample_rate), KEYS[1:], "off")
    c.prove(gen.get(off) is None, "no grain between the grains")
    c.prove(gen.get(off, gen) is gen, "but the default")
    missing = False
    try:
        gen[off]
    except KeyError:
        missing = True
    c.prove(missing, "nothing there")
    c.prove(off not in gen, "and it is not in the generator")
    c.cover("got")


def pick(c, kind, rate=RATE):
    from mediagrains.cogenums import CogFrameFormat, CogAudioFormat
    if kind == "tone":
        from mediagrains.patterngenerators.audio import Tone
        return Tone(c.uuid("src"), c.uuid("flow"), samples=1920, channels=1, frequency=1000), Fraction(25)
    from mediagrains.patterngenerators.video import LumaSteps, MovingBarOverlay
    gen = LumaSteps(**video(c, "U8_422", 8, 2, rate))
    return (gen, rate) if kind == "video" else (MovingBarOverlay(gen, height=1, speed=1), rate)


def indexed(kind, how):
    def h(c):
        gen, rate = pick(c, kind, Fraction(25) if how == "time step" else RATE)
        TV, TVR = c.time_class("TimeValue"), c.time_class("TimeValueRange")
        a = c.int("a", 0, 1 << 30)
        at = lambda k: c.instant(k, rate)     # noqa: E731
        n, more, step = c.choose("n", [0, 1, 3]), False, 1
        if how == "one":
            x = c.choose("key", ([] if kind == "tone" else [a]) + [at(a), TV(a, rate), TV(at(a))])
            c.prove(x in gen, "there is one")
            got, n = [gen[x]], 1
        elif how == "slice":
            step = c.choose("step", [1, 2, 3])
            n = n or 1      # both ends are included
            first, last = c.choose("keys", [(a, a + n - 1), (at(a), at(a + n - 1)), (TV(a, rate), at(a + n - 1)),
                                            (TV(at(a)), TV(a + n - 1, rate))])
            got = gen[first:last:step] if step != 1 else gen[first:last]
            n = (n + step - 1) // step
        elif how == "open slice":
            step = c.choose("step", [1, 2])
            got, more = gen[c.choose("keys", [a, at(a), TV(a, rate)])::step], True
        elif how == "time step":
            step = c.choose("step", [1, 2, 5])
            frame = c.instant(step, rate)
            b = a * step
            got = gen[at(b):at(b + step * 2):frame]
            a, n = b, 3
        elif how == "range":
            inc = c.choose("inclusive", [TVR.INCLUSIVE, TVR.INCLUDE_START, TVR.INCLUDE_END, TVR.EXCLUSIVE])
            first, last = c.choose("keys", [(a, a + n), (at(a), at(a + n)), (TV(a, rate), TV(a + n, rate))])
            got = gen[TVR(first, last, inc)]
            if n == 0 and inc != TVR.INCLUSIVE:
                n = 0
            else:
                b = a + n + (1 if inc in (TVR.INCLUSIVE, TVR.INCLUDE_END) else 0)
                if inc in (TVR.INCLUDE_END, TVR.EXCLUSIVE):
                    a = a + 1
                    n = n - 1
                n = n + (1 if inc in (TVR.INCLUSIVE, TVR.INCLUDE_END) else 0)
        elif how == "time range":
            TR = c.time_class("TimeRange")
            got = gen[TR(at(a), at(a + n), TR.INCLUDE_START)]
        elif how == "count range":
            CR = c.time_class("CountRange")
            got = gen[CR(a, a + n, CR.INCLUDE_START)]
        elif how == "open range":
            got, more = gen[TVR.from_start(c.choose("keys", [a, at(a), TV(a, rate)]))], True
        taken = []
        for g in got:
            taken.append(g)
            if len(taken) == (3 if more else n + 1):
                break
        c.prove(len(taken) == (3 if more else n), "as many grains as instants", "%d for %d" % (len(taken), n))
        for i, g in enumerate(taken):
            c.prove(g.origin_timestamp == at(a + i * step), "grain %d is at the next instant" % i)
            c.prove(all(g is not o and g.meta is not o.meta for o in taken[:i]), "grains are distinct")
            c.prove(len(g.data) == g.expected_length, "grain %d is complete" % i)
        c.cover("got")
    return h


def refused(kind):
    def h(c):
        gen, rate = pick(c, kind)
        TVR = c.time_class("TimeValueRange")
        a = c.int("a", 0, 1 << 30)
        x = c.choose("key", ["x", slice(None, a), slice(None, None), TVR.from_end(a), TVR.eternity(), slice(None, c.instant(a, rate), 2), 1.5])
        refused = False
        try:
            gen[x]
        except ValueError:
            refused = True
        c.prove(refused, "a key that names no start is refused")
        c.cover("refused")
    return h


def unsupported(c):
    """Formats a generator cannot make are refused."""
    from mediagrains import cogenums as E
    from mediagrains.patterngenerators.video import LumaSteps, ColourBars
    from mediagrains.patterngenerators.audio import Tone
    f = c.choose("format", [f for f in E.CogFrameFormat if f.name not in FORMATS] + [
        f for f in E.CogAudioFormat if "%s_%s" % (f.name.split("_")[0], f.name.split("_")[-1]) not in
        ["%s_%s" % (d, o) for d in DEPTH for o in ORDER]])
    refused = False
    try:
        if isinstance(f, E.CogAudioFormat):
            Tone(c.uuid("src"), c.uuid("flow"), cog_audio_format=f)
        else:
            c.choose("kind", [LumaSteps, ColourBars])(c.uuid("src"), c.uuid("flow"), 16, 4, cog_frame_format=f)
    except ValueError:
        refused = True
    c.prove(refused, "refused", f.name)
    c.cover("refused")


HARNESSES = []
for _f in FORMATS:
    for _k in ("steps", "bars", "still"):
        HARNESSES.append(Harness("%s %s" % (_k, _f), pictures(_k, _f), functions=FNS[_k], covers=("got",)))
    for _d in ((8, 2), (4, 4), (7, 6)):
        HARNESSES.append(Harness("moving %s %dx%d" % ((_f,) + _d), moving(_f, _d), functions=FNS["moving"], covers=("got",)))
for _d in DEPTH:
    for _o in ORDER:
        HARNESSES.append(Harness("tone %s_%s" % (_d, _o), tone(_d, _o), functions=FNS["tone"] + GET, covers=("got",)))
for _k in ("video", "moving", "tone"):
    _f = GET + FNS[{"video": "steps"}.get(_k, _k)]
    for _h in ("one", "slice", "open slice", "time step", "range", "time range", "open range") + (("count range",) if _k != "tone" else ()):
        HARNESSES.append(Harness("%s by %s" % (_k, _h), indexed(_k, _h), functions=_f, covers=("got",)))
    HARNESSES.append(Harness("%s refused" % _k, refused(_k), functions=_f, covers=("refused",)))
HARNESSES.append(Harness("tone between", between, functions=FNS["tone"] + GET, covers=("got",)))
HARNESSES.append(Harness("unsupported", unsupported, functions=FNS["steps"] + FNS["bars"] + FNS["tone"], covers=("refused",)))
