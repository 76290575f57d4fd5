"""C11: audio sizes, and the times a grain covers."""
from fractions import Fraction
from pyvc.prop import Harness
from .c09 import KINDS, PART, common, make, U32
from .common import GRAIN

CONTRACTS = []
NS = 10 ** 9
# documented formats: bytes of one value, and how channels are kept
FORMATS = {}
for name, size in (("S16", 2), ("S24", 3), ("S32", 4), ("FLOAT", 4), ("DOUBLE", 8)):
    for how in ("PLANES", "PAIRS", "INTERLEAVED"):
        FORMATS[name + "_" + how] = (4 if (name, how) == ("S24", "PLANES") else size, how)
CODED = ("MP1", "AAC", "OPUS")


def audio(fmt, route):
    """The data of an audio grain is one value for each sample of each channel (channels in pairs come in pairs)."""
    def h(c):
        import mediagrains.grains as R
        from mediagrains.cogenums import CogAudioFormat as A
        size, how = FORMATS[fmt]
        top = (1 << 31) - 1 if c.symbolic else 40
        n, ch = c.int("samples", 0, top), c.int("channels", 0, top)
        kept = (ch + ch % 2) if how == "PAIRS" else ch
        want = kept * n * size
        a = common(c)
        if route == "new":
            g = R.AudioGrain(cog_audio_format=getattr(A, fmt), samples=n, channels=ch, sample_rate=48000, **a)
            c.prove(c.blen(g.data) == want, "size of new data")
            c.prove(g.length == want, "length")
            c.prove_bytes_eq(c.to_bytes(g.data), c.zeros(want), "new audio is silent")
        else:
            d = c.bytes("data", c.size("n"))
            g = R.AudioGrain(data=d, **a)
            g.cog_audio_format, g.samples, g.channels = getattr(A, fmt), n, ch
            c.prove_bytes_eq(g.data, d, "given data")
        c.cover("made")
        c.prove(g.expected_length == want, "expected_length")
        from mediagrains.cogenums import COG_AUDIO_FORMAT_SAMPLEBYTES
        c.prove(COG_AUDIO_FORMAT_SAMPLEBYTES(getattr(A, fmt)) == size, "bytes of a value")
    return h


def coded(fmt):
    def h(c):
        import mediagrains.grains as R
        from mediagrains.cogenums import CogAudioFormat as A
        a = common(c)
        g = R.AudioGrain(cog_audio_format=getattr(A, fmt), samples=c.int("samples", 0, U32), channels=c.int("ch", 0, U32), **a)
        c.prove(c.blen(g.data) == 0 and g.expected_length == 0, "nothing is expected of compressed audio")
        d = c.bytes("data", c.size("n"))
        k = R.CodedAudioGrain(cog_audio_format=getattr(A, fmt), data=d, samples=c.int("samples", 0, U32), **a)
        c.prove_bytes_eq(k.data, d, "coded data")
        c.prove(k.length == c.blen(d), "coded length")
        c.cover("made")
    return h


def ns(t):
    return t.to_nanosec()


def rng(c, got, lo, hi, name):
    """An inclusive range of times."""
    from mediatimestamp.immutable import TimeRange
    c.prove(c.And(ns(got.start) == lo, ns(got.end) == hi), name)
    c.prove(got.inclusivity == TimeRange.INCLUSIVE, name + " includes both ends")


MAXS = 1 << 46


def span(kind):
    """The times of a grain: its own, of its last sample, and the range between."""
    def h(c):
        a = common(c)
        a["origin_timestamp"] = c.timestamp("start", maxsec=MAXS)
        g, _, s, d = make(c, kind, "g.")
        for k in a:
            setattr(g, k, a[k])
        t = ns(a["origin_timestamp"])
        end = t
        if "audio" in kind:
            r = c.int("rate_", 1, U32)
            n = c.int("n_", 1, U32)
            g.sample_rate, g.samples = r, n
            end = t + (n - 1) * NS // r
        c.cover("done")
        c.prove(ns(g.final_origin_timestamp()) == end, "final_origin_timestamp")
        rng(c, g.origin_timerange(), t, end, "origin_timerange")
        if kind != "coded_video":
            c.prove(ns(g.presentation_origin_timestamp) == t, "presentation_origin_timestamp")
            c.prove(ns(g.final_presentation_origin_timestamp()) == end, "final_presentation_origin_timestamp")
            rng(c, g.presentation_origin_timerange(), t, end, "presentation_origin_timerange")
    return h


def nothing(kind):
    """A grain of no samples covers no time."""
    def h(c):
        from mediatimestamp.immutable import TimeRange
        g, _, s, d = make(c, kind, "g.")
        g.origin_timestamp = c.timestamp("start", maxsec=MAXS)
        g.sample_rate, g.samples = c.int("rate_", 1, NS), 0
        c.cover("done")
        x = g.origin_timerange()
        c.prove(x.inclusivity == TimeRange.EXCLUSIVE and x.start == x.end, "an empty range")
    return h


def presentation(c):
    """Coded pictures are shown their temporal offset later than they were made."""
    g, _, s, d = make(c, "coded_video", "g.")
    start = c.timestamp("start", maxsec=MAXS)
    g.origin_timestamp = start
    off = c.choose("off", [None, 1]) and c.int("offset", -(1 << 31), (1 << 31) - 1)
    rate = c.fraction("rate_") if c.choose("rated", [True, False]) else Fraction(0)
    g.temporal_offset, g.rate = off, rate
    t = ns(start)
    if off is not None and bool(rate.numerator > 0):
        mag = c.ite(off < 0, -off, off) * NS * rate.denominator // rate.numerator
        t = t + c.ite(off < 0, -mag, mag)
        lim = (1 << 48) * NS - 1
        t = c.ite(t > lim, lim, c.ite(t < -lim, -lim, t))
        c.cover("shifted")
        if not c.symbolic and abs(mag) > lim:
            return
        c.assume(mag <= lim)
    else:
        c.cover("unshifted")
    c.prove(ns(g.presentation_origin_timestamp) == t, "presentation_origin_timestamp")
    c.prove(ns(g.final_presentation_origin_timestamp()) == t, "final_presentation_origin_timestamp")
    rng(c, g.presentation_origin_timerange(), t, t, "presentation_origin_timerange")
    rng(c, g.origin_timerange(), ns(start), ns(start), "origin_timerange")


class Stretch(object):
    """Anything that can be normalised to a rate."""
    def normalise(self, n, d=1, *a):
        return ("normalised", Fraction(n, d) if isinstance(n, int) and isinstance(d, int) else n / d, a)


class Rated(object):
    def __init__(self):
        self.asked = None

    def normalise(self, n, d=1, *a):
        self.asked = (n, d, a)
        return self.asked


def rates(kind):
    """media_rate is the rate of the grain's media; times are normalised to it."""
    def h(c):
        g, _, s, d = make(c, kind, "g.")
        x = Rated()
        if "video" in kind:
            n = c.fraction("rate_") if c.choose("rated", [True, False]) else Fraction(0)
            g.rate = n
            want = (n.numerator, n.denominator) if bool(n.numerator > 0) else None
        elif "audio" in kind:
            n = c.int("rate_", 1, U32) if c.choose("rated", [True, False]) else 0
            g.sample_rate = n
            want = (n, 1) if bool(n > 0) else None
        else:
            want = None
        r = g.media_rate
        got = g.normalise_time(x)
        if want is None:
            c.cover("no rate")
            c.prove(r is None, "no media_rate")
            c.prove(got is x and x.asked is None, "times are kept")
        else:
            c.cover("rate")
            c.prove(c.And(r.numerator == want[0], r.denominator == want[1]), "media_rate")
            c.prove(x.asked is not None and got is x.asked, "times are normalised")
            num, den, rest = x.asked
            if not isinstance(num, int) and not hasattr(num, "__sym_int__"):
                num, den = num.numerator * den ** 0, num.denominator * den
            c.prove(num * want[1] == den * want[0], "to the media rate")
            c.prove(rest in ((), (1,)), "to the nearest")
    return h


HARNESSES = []
A_ = ("mediagrains.grains.AudioGrain:size_for_audio_format", "mediagrains.grains.AudioGrain:AudioGrain.__init__",
      "mediagrains.grains.AudioGrain:AudioGrain.expected_length")
for fmt in FORMATS:
    for route in ("new", "set"):
        HARNESSES.append(Harness("audio[%s,%s]" % (fmt, route), audio(fmt, route), A_, covers=("made",)))
for fmt in CODED:
    HARNESSES.append(Harness("coded[%s]" % fmt, coded(fmt), A_, covers=("made",)))
for kind in KINDS:
    G = GRAIN[kind] + "."
    HARNESSES.append(Harness("span[%s]" % kind, span(kind), (
        GRAIN["empty"] + ".origin_timerange", G + "final_origin_timestamp"), covers=("done",)))
    HARNESSES.append(Harness("rates[%s]" % kind, rates(kind), (G + "media_rate", GRAIN["empty"] + ".normalise_time"),
                             covers=("no rate",) + (("rate",) if "o" in kind and kind in ("video", "audio", "coded_video", "coded_audio") else ())))
for kind in ("audio", "coded_audio"):
    HARNESSES.append(Harness("nothing[%s]" % kind, nothing(kind), (GRAIN[kind] + ".final_origin_timestamp",), covers=("done",)))
HARNESSES.append(Harness("presentation", presentation, tuple(GRAIN["coded_video"] + "." + n for n in (
    "presentation_origin_timestamp", "final_presentation_origin_timestamp", "presentation_origin_timerange")),
    covers=("shifted", "unshifted")))
