"""C14: AAC (ADTS) essence is split into the frames its headers describe."""
from fractions import Fraction
from pyvc.prop import Harness
from .c09 import snap, same

CONTRACTS = []
P = "mediagrains.utils.adts_aac_parser:ADTSAACParser.parse_header"
W = "mediagrains.utils.adts_aac_grain_wrapper:ADTSAACGrainWrapper."
FNS = (W + "__init__", W + "_frames", W + "grains", P)
# ISO/IEC 14496-3: sampling frequency index and channel configuration
FREQ = (96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350)
CHANNELS = (0, 1, 2, 3, 4, 5, 6, 8)


def header(c, p, size, profile=None, freq=None, conf=None):
    """The seven bytes of an ADTS header without CRC words, every other field arbitrary; `size` as (2, 8 and 3 bits)."""
    n = lambda k, hi: c.int(p + k, 0, hi)     # noqa: E731
    profile = n("profile", 3) if profile is None else profile
    freq = n("freq", 12) if freq is None else freq
    hi, lo = conf or (n("conf_hi", 1), n("conf_lo", 3))
    s2, s8, s3 = size
    return (c.num(255, 1) + c.num(240 + n("version", 15), 1) + c.num(profile * 64 + freq * 4 + n("private", 1) * 2 + hi, 1)
            + c.num(lo * 64 + n("flags", 15) * 4 + s2, 1) + c.num(s8, 1) + c.num(s3 * 32 + n("fullness", 31), 1)
            + c.num(n("last", 255), 1))


def bits(c, p):
    return c.int(p + "size_hi", 0, 3), c.int(p + "size_mid", 0, 255), c.int(p + "size_lo", 0, 7)


def length(s):
    return s[0] * 2048 + s[1] * 8 + s[2]


def parse(c):
    from mediagrains.utils.adts_aac_parser import ADTSAACParser
    s, fi, pr = bits(c, ""), c.int("freq", 0, 12), c.int("profile", 0, 3)
    conf = (c.int("conf_hi", 0, 1), c.int("conf_lo", 0, 3))
    c.assume(length(s) >= 7)
    f = ADTSAACParser().parse_header(header(c, "", s, pr, fi, conf) + c.bytes("rest", c.size("nrest")))
    c.prove(f.frame_size == length(s), "frame length: 13 bits")
    c.prove(f.object_type == pr, "profile: 2 bits")
    for i, v in enumerate(FREQ):
        c.prove(c.implies(fi == i, f.sample_rate == v), "sample rate of index %d" % i)
    for i, v in enumerate(CHANNELS):
        c.prove(c.implies(c.And(conf[0] == i // 4, conf[1] == i % 4), f.channels == v), "channels of configuration %d" % i)
    c.cover("parsed")


def refuse(how):
    def h(c):
        from mediagrains.utils.adts_aac_parser import ADTSAACParser
        if how == "short":
            b = c.cut(c.bytes("data", 7))
        elif how == "sync":
            x, y = c.int("x", 0, 255), c.int("y", 0, 255)
            c.assume(c.Or(x < 255, y < 240))
            b = c.num(x, 1) + c.num(y, 1) + c.bytes("rest", c.size("n", 5))
        elif how == "reserved":
            s = bits(c, "")
            b = header(c, "", s, freq=c.int("freq", 13, 15)) + c.bytes("rest", c.size("n"))
        else:
            s = (0, 0, c.int("size_lo", 0, 6))
            b = header(c, "", s) + c.bytes("rest", c.size("n"))
        try:
            ADTSAACParser().parse_header(b)
            ok = False
        except ValueError:
            ok = True
        c.prove(ok, "refused with ValueError")
        c.cover("refused")
    return h


def template(c, origin, samples):
    import mediagrains.grains as R
    from mediagrains.cogenums import CogAudioFormat as A
    return R.CodedAudioGrain(src_id=c.uuid("src"), flow_id=c.uuid("flow"), origin_timestamp=origin,
                             sync_timestamp=c.timestamp("sync"), creation_timestamp=c.timestamp("creation"),
                             rate=Fraction(0, 1), duration=Fraction(1, 50), cog_audio_format=A.AAC, samples=samples,
                             channels=c.int("tchannels", 0, 255), sample_rate=48000,
                             priming=c.int("priming", 0, 65535), remainder=c.int("remainder", 0, 65535), length=0)


def wrap(n, bad=None):
    """Every frame becomes one grain, in order, at the frame rate of the first frame's header."""
    def h(c):
        from mediagrains.utils import ADTSAACGrainWrapper
        samples = c.choose("samples", [None, 1024, 2048] if n == 1 and not bad else [None, 2048])
        per = samples or 1024
        # the first frame names the rate and channels of the whole stream
        fi = c.choose("freq", list(range(13)) if n == 1 and not bad else [4])
        ci = c.choose("conf", [1, 7] if n == 1 and not bad else [2])
        rate = Fraction(FREQ[fi], per)
        first = c.int("first", -(1 << 40), 1 << 40)
        grid = c.boolean("on grid") if n == 1 and not bad else True
        if c.symbolic and grid is not True:
            grid = bool(grid)
        origin = c.instant(first, rate) if grid else c.timestamp("origin", maxsec=1 << 40)
        t = template(c, origin, samples)
        before = snap(t.meta)
        frames = []
        for i in range(n):
            s = bits(c, "f%d." % i)
            c.assume(length(s) >= 7)
            hd = header(c, "f%d." % i, s, freq=fi if i == 0 else None, conf=(ci // 4, ci % 4) if i == 0 else None)
            frames.append(hd + c.bytes("f%d.payload" % i, length(s) - 7))
        pre = c.bytes("pre", c.size("npre"))
        data = pre
        for x in frames:
            data = data + x
        tail = None
        if bad == "cut":
            s = bits(c, "z.")
            c.assume(length(s) > 7)
            m = c.size("tail", 0, 8183)
            if c.symbolic:
                c.assume(m < length(s) - 7)
            else:
                m = m % (length(s) - 7)
            tail = header(c, "z.", s, freq=4, conf=(0, 2)) + c.bytes("z.payload", m)
            data = data + tail
        elif bad == "garbage":
            x, y = c.int("x", 0, 255), c.int("y", 0, 255)
            c.assume(c.Or(x < 255, y < 240))
            data = data + c.num(x, 1) + c.num(y, 1) + c.bytes("z", c.size("nz"))
        f = c.file(data, c.blen(pre))
        got, error = [], None
        try:
            for g in ADTSAACGrainWrapper(t, f).grains():
                got.append(g)
                if len(got) > n + 1:
                    break
        except ValueError as e:
            error = e
        if bad == "cut":
            c.prove(len(got) == n or (len(got) == n + 1 and error is None), "the complete frames, then at most the cut one")
            if len(got) == n + 1:
                c.prove_bytes_eq(c.to_bytes(got[n].data), tail, "the cut frame as far as it goes")
        else:
            c.prove(len(got) == n, "one grain for each frame", "%d for %d" % (len(got), n))
            c.prove((error is not None) == (bad is not None), "malformed data is refused, well-formed data is not")
        for i, g in enumerate(got[:n]):
            c.prove_bytes_eq(c.to_bytes(g.data), frames[i], "grain %d is frame %d" % (i, i))
            if grid:
                c.prove(g.origin_timestamp == c.instant((first + i) * per, Fraction(FREQ[fi])), "grain %d at frame time %d" % (i, i))
            else:
                if i == 0:
                    k = got[0].origin_timestamp.to_count(FREQ[fi], per)
                    near = origin.normalise(FREQ[fi], 1)
                    c.prove(c.And(g.origin_timestamp >= near, c.instant((k - 1) * per, Fraction(FREQ[fi])) <= near),
                            "the first frame time not before the template")
                c.prove(g.origin_timestamp == c.instant((k + i) * per, Fraction(FREQ[fi])), "grain %d at frame time %d" % (i, i))
            c.prove(g.sync_timestamp == g.origin_timestamp, "synchronised")
            c.prove(c.And(g.sample_rate == FREQ[fi], g.channels == CHANNELS[ci], g.samples == per), "format of the stream")
            c.prove(c.And(g.rate == rate, g.duration == 1 / rate), "rate and duration")
            m = snap(g.meta)
            b = {"@_ns": before["@_ns"], "grain": dict(before["grain"])}
            for d in (m, b):
                d["grain"] = {k: v for k, v in d["grain"].items()
                              if k not in ("origin_timestamp", "sync_timestamp", "rate", "duration")}
                d["grain"]["cog_coded_audio"] = {k: v for k, v in d["grain"]["cog_coded_audio"].items()
                                                 if k not in ("samples", "channels", "sample_rate")}
            same(c, m, b, "everything else is the template's")
            c.prove(all(g.meta is not o.meta for o in got[:i]), "grains are distinct")
        same(c, snap(t.meta), before, "the template is left alone")
        c.cover("wrapped")
    return h


HARNESSES = [Harness("parse header", parse, functions=(P,), covers=("parsed",))]
for _h in ("short", "sync", "reserved", "length"):
    HARNESSES.append(Harness("refuse " + _h, refuse(_h), functions=(P,), covers=("refused",)))
for _n in (0, 1, 2, 3):
    HARNESSES.append(Harness("wrap %d" % _n, wrap(_n), functions=FNS, covers=("wrapped",)))
for _n in (0, 1):
    for _b in ("cut", "garbage"):
        HARNESSES.append(Harness("wrap %d then %s" % (_n, _b), wrap(_n, _b), functions=FNS, covers=("wrapped",)))
