"""C21: the format numbers and the functions that interpret them agree with the formats' names."""
import re
from pyvc.prop import Harness
from spec import formats
from .c10 import PLANAR, PACKED
from .c11 import FORMATS

CONTRACTS = []
M = "mediagrains.cogenums:"
VIDEO_CODED = ("MJPEG", "DNxHD", "MPEG2", "AVCI", "H264", "DV", "D10", "VC2", "VP8", "H265")
ALPHA = {"ALPHA_U8_1BIT": 1, "ALPHA_U8": 1, "ALPHA_S16_10BIT": 2, "ALPHA_S16_12BIT": 2, "ALPHA_S16": 2, "ALPHA_S32": 4}
AUDIO_CODED = ("MP1", "AAC", "OPUS")
NONE = ("UNKNOWN", "INVALID")


def bits(name):
    """Active bits of a raw planar format, by its name."""
    m = re.search(r"_(\d+)BIT", name)
    return int(m.group(1)) if m else int(re.search(r"[US](8|16|32)", name).group(1))


def members(c):
    import mediagrains.cogenums as E
    c.prove(set(E.CogFrameFormat.__members__) == set(PLANAR) | set(PACKED) | set(VIDEO_CODED) | set(ALPHA) | set(NONE),
            "every video format is documented here")
    c.prove(set(E.CogAudioFormat.__members__) == set(FORMATS) | set(AUDIO_CODED) | set(NONE) | {"S64_INVALID"},
            "every audio format is documented here")
    for cls in (E.CogFrameFormat, E.CogAudioFormat, E.CogFrameLayout):
        vals = [int(m) for m in cls.__members__.values()]
        c.prove(len(set(vals)) == len(vals), "numbers are different")
        c.prove(all(cls(v) is m for v, m in zip(vals, cls.__members__.values())), "numbers name their format")
        doc = getattr(formats, cls.__name__)
        c.prove(all(int(getattr(cls, n)) == v for n, v in doc.items()), "numbers published for GSF files")
        c.prove(all(0 <= v < 1 << 32 for v in vals), "numbers take four bytes")
    c.cover("done")


def frame(kind, names):
    def h(c):
        import mediagrains.cogenums as E
        name = c.choose("format", sorted(names))
        f = getattr(E.CogFrameFormat, name)
        c.cover("done")
        is_ = (E.COG_FRAME_IS_PACKED, E.COG_FRAME_IS_COMPRESSED, E.COG_FRAME_IS_PLANAR)
        c.prove([bool(p(f)) for p in is_] == [kind == "packed", kind == "coded", kind in ("planar", "alpha")],
                "packed, compressed or planar")
        c.prove(bool(E.COG_FRAME_IS_ALPHA(f)) == (kind == "alpha"), "alpha")
        c.prove(bool(E.COG_FRAME_IS_PLANAR_RGB(f)) == (name.endswith("_RGB")), "planar RGB")
        if kind == "planar":
            size, hs, vs = PLANAR[name]
            c.prove(E.COG_FRAME_FORMAT_BYTES_PER_VALUE(f) == size, "bytes per value")
            c.prove((1 << E.COG_FRAME_FORMAT_H_SHIFT(f), 1 << E.COG_FRAME_FORMAT_V_SHIFT(f)) == (hs, vs), "subsampling")
            c.prove(E.COG_FRAME_FORMAT_ACTIVE_BITS(f) == bits(name), "active bits")
            chroma = (E.PlanarChromaFormat.RGB if name.endswith("_RGB") else
                      {(1, 1): E.PlanarChromaFormat.YUV_444, (2, 1): E.PlanarChromaFormat.YUV_422,
                       (2, 2): E.PlanarChromaFormat.YUV_420}[(hs, vs)])
            c.prove(E.COG_PLANAR_FORMAT(chroma, bits(name)) is f, "made from its parts")
        elif kind == "alpha":
            c.prove(E.COG_FRAME_FORMAT_BYTES_PER_VALUE(f) == ALPHA[name], "bytes per value")
            if name != "ALPHA_U8_1BIT":
                c.prove(E.COG_FRAME_FORMAT_ACTIVE_BITS(f) == bits(name), "active bits")
    return h


def made(c):
    """Planar formats made from parts are the documented ones, or refused."""
    import mediagrains.cogenums as E
    chroma = c.choose("chroma", sorted(E.PlanarChromaFormat.__members__))
    known = dict(((n.split("_")[1] if not n.endswith("_RGB") else "RGB", bits(n)), n) for n in PLANAR)
    d = c.choose("one of", [8, 10, 12, 16, 32, 0])
    if d:
        c.cover("known")
        got = E.COG_PLANAR_FORMAT(E.PlanarChromaFormat[chroma], d)
        c.prove(got is E.CogFrameFormat[known[(chroma[-3:], d)]], "the documented format")
    else:
        for k in range(1, 64):
            if k in (8, 10, 12, 16, 32):
                continue
            try:
                E.COG_PLANAR_FORMAT(E.PlanarChromaFormat[chroma], k)
            except ValueError:
                c.cover("refused")
                continue
            c.fail("formats that do not exist are refused")


def sound(names, coded):
    def h(c):
        import mediagrains.cogenums as E
        name = c.choose("format", sorted(names))
        f = getattr(E.CogAudioFormat, name)
        c.cover("done")
        c.prove(bool(E.COG_AUDIO_IS_COMPRESSED(f)) == coded, "compressed")
        if coded:
            return
        size, how = FORMATS[name]
        c.prove([bool(p(f)) for p in (E.COG_AUDIO_IS_PLANES, E.COG_AUDIO_IS_PAIRS, E.COG_AUDIO_IS_INTERLEAVED)] ==
                [how == "PLANES", how == "PAIRS", how == "INTERLEAVED"], "how channels are kept")
        c.prove([bool(p(f)) for p in (E.COG_AUDIO_IS_INT, E.COG_AUDIO_IS_FLOAT, E.COG_AUDIO_IS_DOUBLE)] ==
                [name[0] == "S", name[0] == "F", name[0] == "D"], "kind of number")
        c.prove(E.COG_AUDIO_FORMAT_SAMPLEBYTES(f) == size, "bytes of a value")
        c.prove(E.COG_AUDIO_FORMAT_DEPTH(f) == {"S16": E.COG_AUDIO_FORMAT_DEPTH_S16, "S24": E.COG_AUDIO_FORMAT_DEPTH_S24,
                "S32": E.COG_AUDIO_FORMAT_DEPTH_S32, "FLOAT": E.COG_AUDIO_FORMAT_DEPTH_S32,
                "DOUBLE": E.COG_AUDIO_FORMAT_DEPTH_S64}[name.split("_")[0]], "depth")
    return h


FV = tuple(M + n for n in ("COG_FRAME_IS_PACKED", "COG_FRAME_IS_COMPRESSED", "COG_FRAME_IS_PLANAR", "COG_FRAME_IS_ALPHA",
                           "COG_FRAME_IS_PLANAR_RGB", "COG_FRAME_FORMAT_BYTES_PER_VALUE", "COG_FRAME_FORMAT_H_SHIFT",
                           "COG_FRAME_FORMAT_V_SHIFT", "COG_FRAME_FORMAT_ACTIVE_BITS", "COG_PLANAR_FORMAT"))
FA = tuple(M + n for n in ("COG_AUDIO_IS_PLANES", "COG_AUDIO_IS_PAIRS", "COG_AUDIO_IS_INTERLEAVED", "COG_AUDIO_IS_COMPRESSED",
                           "COG_AUDIO_IS_INT", "COG_AUDIO_IS_FLOAT", "COG_AUDIO_IS_DOUBLE", "COG_AUDIO_FORMAT_DEPTH",
                           "COG_AUDIO_FORMAT_SAMPLEBYTES"))
HARNESSES = [Harness("members", members, (M + "CogFrameFormat", M + "CogAudioFormat", M + "CogFrameLayout"), covers=("done",)),
             Harness("made", made, (M + "COG_PLANAR_FORMAT",), covers=("known", "refused"))]
for kind, names in (("planar", PLANAR), ("packed", PACKED), ("coded", VIDEO_CODED), ("alpha", ALPHA)):
    HARNESSES.append(Harness("frame[%s]" % kind, frame(kind, names), FV, covers=("done",)))
HARNESSES.append(Harness("sound[raw]", sound(FORMATS, False), FA, covers=("done",)))
HARNESSES.append(Harness("sound[coded]", sound(AUDIO_CODED, True), FA, covers=("done",)))
