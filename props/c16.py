"""C16: raw essence wrapped into grains."""
from fractions import Fraction
from pyvc.prop import Harness
from .c09 import snap, same

CONTRACTS = []
W = "mediagrains.utils.grain_wrapper:GrainWrapper."
FNS = (W + "__init__", W + "grains", "mediagrains.grains.Grain:Grain.origin_timestamp", "mediagrains.grains.Grain:Grain.data",
       "mediagrains.grains.Grain:Grain.expected_length")
OF = {"video": ("mediagrains.grains.VideoGrain:VideoGrain.expected_length",),
      "audio": ("mediagrains.grains.AudioGrain:AudioGrain.expected_length",
                "mediagrains.grains.AudioGrain:size_for_audio_format"), "coded_video": ()}
RATES = [Fraction(25), Fraction(30000, 1001), Fraction(48000, 1024), Fraction(1, 2), Fraction(48000)]


def template(c, kind, rate, origin):
    import mediagrains.grains as R
    from mediagrains.cogenums import CogFrameFormat as F, CogFrameLayout as L, CogAudioFormat as A
    a = dict(src_id=c.uuid("src"), flow_id=c.uuid("flow"), origin_timestamp=origin, sync_timestamp=c.timestamp("sync"),
             creation_timestamp=c.timestamp("creation"), rate=rate, duration=1 / rate)
    if kind == "video":
        fmt, num, den = c.choose("fmt", [(F.U8_420, 3, 2), (F.S16_422_10BIT, 4, 1), (F.UYVY, 2, 1)])
        w, h = c.int("w", 1, 1 << 20) * 2, c.int("h", 1, 1 << 20) * 2
        if not c.symbolic:
            w, h = w % 8 + 2, h % 4 + 2
            w, h = w - w % 2, h - h % 2
        return R.VideoGrain(cog_frame_format=fmt, width=w, height=h, cog_frame_layout=L.FULL_FRAME, **a), w * h * num // den
    if kind == "audio":
        fmt, size = c.choose("fmt", [(A.S16_INTERLEAVED, 2), (A.S24_PLANES, 4), (A.DOUBLE_PAIRS, 8)])
        ch = c.choose("channels", [1, 2, 6])
        n = c.int("samples", 1, 1 << 30)
        if not c.symbolic:
            n = n % 9 + 1
        if fmt is A.DOUBLE_PAIRS:
            ch = ch + ch % 2
        return R.AudioGrain(cog_audio_format=fmt, channels=ch, samples=n, sample_rate=48000, **a), n * ch * size
    n = c.size("dlen", 1)
    return R.CodedVideoGrain(data=c.bytes("data", n), cog_frame_format=F.MJPEG, origin_width=c.int("ow", 0, 65535),
                             origin_height=c.int("oh", 0, 65535), cog_frame_layout=L.FULL_FRAME, **a), n


class Ends(object):
    """An input that reports its end by EOFError, as the asynchronous wrappers do."""

    def __init__(self, c, f):
        self.c, self.f = c, f

    def read(self, n):
        r = self.f.read(n)
        if n and not self.c.blen(r):
            raise EOFError("end")
        return r


def wrap(kind, n, tail, eof):
    def h(c):
        from mediagrains.utils.grain_wrapper import GrainWrapper
        rate = c.choose("rate", RATES if n < 3 else RATES[:2])
        first = c.int("first", -(1 << 45), 1 << 45)
        grid = c.boolean("on grid")
        if c.symbolic:
            grid = bool(grid)
        origin = c.instant(first, rate) if grid else c.timestamp("origin", maxsec=1 << 40)
        t, size = template(c, kind, rate, origin)
        pieces = [c.bytes("p%d" % i, size) for i in range(n)]
        if tail:
            m = c.size("tail", 1)
            if c.symbolic:
                c.assume(m < size)
            else:
                m = m % size
            if c.symbolic or m:
                pieces.append(c.bytes("rest", m))
        pre = c.bytes("pre", c.size("npre"))
        data = pre
        for p in pieces:
            data = data + p
        f = c.file(data, c.blen(pre))
        before = snap(t.meta)
        tdata = t.data
        got = []
        for g in GrainWrapper(t, Ends(c, f) if eof else f).grains():
            if len(got) < len(pieces):
                c.prove_bytes_eq(c.to_bytes(g.data), pieces[len(got)], "grain %d holds the next bytes" % len(got))
            got.append(g)
            if len(got) > len(pieces):
                break
        c.prove(len(got) == len(pieces), "as many grains as pieces of the input", "%d for %d" % (len(got), len(pieces)))
        for i, g in enumerate(got):
            c.prove(type(g) is type(t), "the template's kind")
            if grid:
                c.prove(g.origin_timestamp == c.instant(first + i, rate), "grain %d is at the next instant of the rate" % i)
            else:
                k = got[0].origin_timestamp.to_count(rate.numerator, rate.denominator)
                c.prove(g.origin_timestamp == c.instant(k + i, rate), "grain %d is at the next instant of the rate" % i)
                if i == 0:
                    c.prove(c.And(g.origin_timestamp >= origin, c.instant(k - 1, rate) <= origin),
                            "the first instant not before the template")
            m = snap(g.meta)
            for d in (m, before):
                d["grain"] = {k: v for k, v in d["grain"].items() if k not in ("origin_timestamp", "sync_timestamp")}
            same(c, m, before, "everything else is the template's")
            c.prove(all(g is not o and g.meta is not o.meta for o in got[:i]), "grains are distinct")
            c.prove(g is not t and g.meta is not t.meta, "and not the template")
        c.prove(t.origin_timestamp == origin, "the template keeps its time")
        c.prove(t.data is tdata, "and its data")
        c.cover("wrapped")
    return h


HARNESSES = []
for _k in ("video", "audio", "coded_video"):
    for _n in (0, 1, 2, 3):
        for _t in (False, True):
            HARNESSES.append(Harness("wrap %s %d%s" % (_k, _n, " and a part" if _t else ""), wrap(_k, _n, _t, _n == 1 or (_n == 0 and _t)),
                                     functions=FNS + OF[_k], covers=("wrapped",)))
