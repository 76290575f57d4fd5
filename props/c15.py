"""C15: an H.264 stream is split into exactly its pictures."""
from fractions import Fraction
from pyvc.prop import Harness
from spec import h264 as H
from .c09 import snap, same

CONTRACTS = []
P = "mediagrains.utils.h264_parser:H264Parser."
W = "mediagrains.utils.h264_grain_wrapper:H264GrainWrapper."
PARSE = tuple(P + x for x in ("parse_frame", "parse_frame_info", "get_nalu_byte_offsets", "_extract_frame_info",
                              "_get_sample_aspect_ratio", "_parse_nal_unit_type", "_parse_sps", "_parse_pps",
                              "_parse_slice_header", "_get_nalu_offsets", "_parse_rbsp_bits", "_parse_start_code_prefix"))
FNS = (W + "__init__", W + "_frames", W + "grains") + PARSE
U32 = (1 << 32) - 2


def n(c, name, hi, lo=0):
    return c.int(name, lo, hi)


def seen(c, name, width):
    """A u(v) value of `width` bits, 4 <= width <= 16 (symbolic)."""
    v = c.int(name, 0, 65535)
    if not c.symbolic:
        return v % (1 << width)
    for k in range(4, 17):
        c.assume(c.implies(width == k, v < (1 << k)))
    return v


def small_ue(c, name, hi):
    return c.int(name, 0, hi)


def sps(c, p="s.", **fix):
    """A sequence parameter set; everything not fixed and not affecting the syntax is arbitrary."""
    get = lambda k, d: fix[k] if k in fix else d()           # noqa: E731
    s = {"ref": n(c, p + "ref", 3, 1), "profile": get("profile", lambda: 66), "flags": n(c, p + "flags", 255),
         "level": n(c, p + "level", 255), "id": get("id", lambda: n(c, p + "id", 31))}
    s["high"] = s["profile"] in H.HIGH
    s["chroma"] = get("chroma", lambda: 1)
    s["separate"] = get("separate", lambda: 0)
    for k, hi in (("luma8", 6), ("chroma8", 6), ("bypass", 1)):
        s[k] = n(c, p + k, hi)
    s["lists"] = fix.get("lists")
    s["log2frame"] = n(c, p + "log2frame", 12)
    s["poc"] = get("poc", lambda: 2)
    s["log2poc"] = n(c, p + "log2poc", 12)
    s["zero"] = get("zero", lambda: 0)
    s["offset1"], s["offset2"] = n(c, p + "offset1", 1 << 31, -(1 << 31)), n(c, p + "offset2", 1 << 31, -(1 << 31))
    s["cycle"] = [n(c, p + "cycle%d" % i, 1 << 31, -(1 << 31)) for i in range(fix.get("cycle", 0))]
    s["refs"], s["gaps"] = n(c, p + "refs", 16), n(c, p + "gaps", 1)
    s["width"], s["height"] = n(c, p + "width", 4095), n(c, p + "height", 4095)
    s["mbs_only"] = get("mbs_only", lambda: 1)
    s["mbaff"], s["direct"] = n(c, p + "mbaff", 1), n(c, p + "direct", 1)
    s["crop"] = [n(c, p + "crop%d" % i, 65535) for i in range(4)] if fix.get("crop") else None
    s["vui"] = fix.get("vui")
    return s


def pps(c, s, p="p.", **fix):
    v = {"ref": n(c, p + "ref", 3, 1), "id": fix["id"] if "id" in fix else n(c, p + "id", 255), "sps": s["id"],
         "entropy": n(c, p + "entropy", 1), "order": fix.get("order", 0), "groups": fix.get("groups"),
         "l0": n(c, p + "l0", 31), "l1": n(c, p + "l1", 31), "weighted": n(c, p + "weighted", 1), "bipred": n(c, p + "bipred", 2),
         "qp": n(c, p + "qp", 25, -62), "qs": n(c, p + "qs", 25, -26), "qpc": n(c, p + "qpc", 12, -12),
         "deblock": n(c, p + "deblock", 1), "intra": n(c, p + "intra", 1), "redundant": fix.get("redundant", 0)}
    return v


def header(c, s, q, p="h.", **fix):
    h = {"ref": n(c, p + "ref", 3, 1 if fix.get("kind") == 5 else 0), "kind": fix.get("kind", 1), "first_mb": n(c, p + "first_mb", U32),
         "type": n(c, p + "type", 9), "pps": q["id"], "plane": n(c, p + "plane", 2),
         "field": fix.get("field", 0), "bottom": fix.get("bottom", 0), "idr_id": n(c, p + "idr_id", 65535),
         "frame_num": seen(c, p + "frame_num", s["log2frame"] + 4), "lsb": seen(c, p + "lsb", s["log2poc"] + 4),
         "redundant": fix.get("redundant", 0)}
    for k in ("delta_bottom", "delta0", "delta1"):
        h[k] = n(c, p + k, 1 << 31, -(1 << 31))
    return h


def frame(c, *units, long=(False, True)):
    """Units with their start codes; returns the bytes and the position of each three byte start code."""
    out, at = b"", []
    every = c.choose("long codes", list(long))
    for i, x in enumerate(units):
        if i == 0 or every:
            out = out + c.fill(0, 1)
        at.append(c.blen(out))
        out = out + H.START3 + x
    return out, at


def escapes(c, name):
    return c.choose(name + " escapes", [0, 1, 2]) if c.symbolic else 0


def vui(c, part):
    v = {"aspect": None, "sar": None, "overscan": None, "signal": None, "colour": None, "location": None, "timing": None}
    if part in ("aspect", "all"):
        v["aspect"] = c.choose("aspect", list(range(0, 18)) + [254, 255] if part == "aspect" else [255])
        if v["aspect"] == 255:
            v["sar"] = (n(c, "sar_w", 65535), n(c, "sar_h", 65535))
    if part in ("overscan", "all"):
        v["overscan"] = n(c, "overscan", 1)
    if part in ("signal", "colour", "all"):
        v["signal"] = (n(c, "vformat", 7), n(c, "full", 1))
    if part in ("colour", "all"):
        v["colour"] = [n(c, "colour%d" % i, 255) for i in range(3)]
    if part in ("location", "all"):
        v["location"] = [n(c, "loc%d" % i, 5) for i in range(2)]
    v["timing"] = (n(c, "tick", U32 + 1, 1), n(c, "scale", U32 + 1, 1), n(c, "fixed", 1))
    return v


def lists_of(which):
    """Scaling lists: which -> {index: deltas}; a list ends where its scale comes to zero (7.3.2.1.1.1)."""
    if which == "none":
        return {}
    if which == "first stops":
        return {0: [-8]}
    if which == "stops late":
        return {1: [0] * 7 + [3, -11], 7: [5] * 3 + [-23]}
    if which == "full":
        return {2: [1, -1] * 8, 6: [2, -2] * 32}
    return {5: [-200] + [0] * 14 + [-64]}           # 8 - 200 + 256 = 64, then 0 at the last coefficient


def describe(what):
    """FrameInfo says what the parameter sets and the slices say."""
    def h(c):
        from mediagrains.utils.h264_parser import H264Parser
        fix, chroma, separate = {"id": 0}, 1, 0
        part = what
        if what == "profile":
            fix["profile"] = c.choose("profile", list(H.HIGH) + [66, 77, 88, 0, 255])
            fix["chroma"] = c.choose("chroma", [0, 1, 2, 3])
            if fix["chroma"] == 3:
                fix["separate"] = c.choose("separate", [0, 1])
            fix["crop"] = True
            fix["mbs_only"] = c.choose("mbs_only", [0, 1])
        elif what == "lists":
            fix["profile"] = 100
            fix["chroma"] = c.choose("chroma", [1, 3])
            fix["lists"] = lists_of(c.choose("lists", ["none", "first stops", "stops late", "full", "wraps"]))
        elif what == "order":
            fix["poc"] = c.choose("poc", [0, 1, 2])
            if fix["poc"] == 1:
                fix["zero"] = c.choose("zero", [0, 1])
                fix["cycle"] = c.choose("cycle", [0, 1, 3])
        else:
            part = c.choose("part", ["timing", "aspect", "overscan", "signal", "colour", "location", "all"])
            if part == "timing":
                fix["mbs_only"] = c.choose("mbs_only", [0, 1])
            fix["vui"] = vui(c, part)
            if part == "overscan" and c.choose("no timing", [False, True]):
                fix["vui"]["timing"] = None
        s = sps(c, **fix)
        s["high"] = s["profile"] in H.HIGH
        q = pps(c, s, id=0)
        hd = {"kind": c.choose("kind", [5, 1, 2]) if what == "order" else 5}
        if not s["mbs_only"]:
            hd["field"] = c.choose("field", [0, 1])
        k = c.choose("slices", [1, 2]) if what == "order" and s["poc"] == 2 else 1
        hs = [header(c, s, q, "h%d." % i, **hd) for i in range(k)]
        units = [c.unit("sps", H.sps(s), escapes(c, "sps") if what == "order" and k == 1 and hd["kind"] == 5 else 0), c.unit("pps", H.pps(q))]
        units += [c.unit("slice%d" % i, H.slice_header(x, s, q)) for i, x in enumerate(hs)]
        data, at = frame(c, *units) if what == "order" else (b"", [])
        if what != "order":
            for x in units:
                at.append(c.blen(data))
                data = data + H.START3 + x
        parser = H264Parser()
        given = c.choose("offsets", [False, True]) if what == "order" and k == 1 else False
        f = parser.parse_frame_info(data, nalu_byte_offsets=list(at) if given else None)
        c.prove(f is not None, "described")
        c.prove(c.And(f.profile == s["profile"], f.flags == s["flags"], f.level == s["level"]), "profile and level")
        c.prove(f.bit_depth == (s["luma8"] + 8 if s["high"] else 8), "bit depth")
        scale = 2 - s["mbs_only"]
        cw, ch = (s["width"] + 1) * 16, (s["height"] + 1) * 16 * scale
        c.prove(c.And(f.coded_width == cw, f.coded_height == ch), "coded size: whole macroblocks")
        w, ht = cw, ch
        if s["crop"] is not None:
            # table 6-1: the chroma subsampling; 7-19 to 7-22: the units of cropping
            cat = (0 if s["chroma"] == 3 and s["separate"] else s["chroma"]) if s["high"] else 1
            ux = {0: 1, 1: 2, 2: 2, 3: 1}[cat]
            uy = {0: 1, 1: 2, 2: 1, 3: 1}[cat] * scale
            w = cw - ux * (s["crop"][0] + s["crop"][1])
            ht = ch - uy * (s["crop"][2] + s["crop"][3])
        c.prove(c.And(f.width == w, f.height == ht), "size: cropped")
        v = s["vui"]
        if v is not None:
            a = v["aspect"]
            if a == 255:
                ar = f.sample_aspect_ratio
                c.prove(ar == c.lowest(v["sar"][0], v["sar"][1]), "aspect ratio as given, 0 if it is not specified")
            elif a is not None and 0 < a < len(H.SAR):
                c.prove(f.sample_aspect_ratio == Fraction(*H.SAR[a]), "aspect ratio of the table")
        if v is None or v["timing"] is None:
            c.prove(f.frame_rate is None and f.fixed_frame_rate is None, "no frame rate")
        else:
            div = 1 if hs[0]["field"] and not s["mbs_only"] else 2
            r = f.frame_rate
            c.prove(r == c.lowest(v["timing"][1], v["timing"][0] * div), "frame rate")
            c.prove(c.implies(v["timing"][2] == 1, f.fixed_frame_rate == True), "fixed rate")         # noqa: E712
            c.prove(c.implies(v["timing"][2] == 0, f.fixed_frame_rate == False), "not a fixed rate")  # noqa: E712
        intra = c.And(*[c.Or(*[x["type"] == t for t in (2, 4, 7, 9)]) for x in hs])
        c.prove(c.implies(intra, f.key_frame == True), "a picture of I slices only is a key frame")  # noqa: E712
        c.prove(c.implies(c.Not(intra), f.key_frame == False), "any other picture is none")          # noqa: E712
        c.cover("described")
    return h


# ---------------------------------------------------------------- where a picture ends
def plain_sps(c, p="s.", **fix):
    return sps(c, p, **dict({"id": 0}, **fix))


def boundary(what, pocs=(2,)):
    """A slice of another picture ends the frame, a slice of the same picture does not (7.4.1.2.4)."""
    def h(c):
        from mediagrains.utils.h264_parser import H264Parser
        full = what == "slices"
        poc = c.choose("poc", list(pocs))
        mbs = c.choose("mbs_only", [1, 0] if full else [1])
        fix = {"poc": poc, "mbs_only": mbs}
        if poc == 1:
            fix["zero"] = c.choose("zero", [0, 1])
        if what == "planes":
            fix.update(profile=100, chroma=3, separate=1)
        s = plain_sps(c, **fix)
        order = c.choose("order", [0, 1] if full and (poc == 0 or (poc == 1 and not fix["zero"])) else [0])
        q0 = pps(c, s, "p0.", id=0, order=order)
        other = what == "parameters"
        q1 = pps(c, s, "p1.", id=n(c, "p1.id", 255, 1), order=order) if other else q0
        fields = [(0, 0)] if mbs else [(0, 0), (1, 0), (1, 1)]
        kinds = [1, 5]
        ka, kb = c.choose("kind a", kinds), c.choose("kind b", kinds)
        fa, fb = c.choose("field a", fields), c.choose("field b", fields)
        a = header(c, s, q0, "a.", kind=ka, field=fa[0], bottom=fa[1])
        b = header(c, s, q1, "b.", kind=kb, field=fb[0], bottom=fb[1])
        for k in ("frame_num", "idr_id", "ref", "lsb", "delta_bottom", "delta0", "delta1"):
            b[k] = c.alike("b." + k + "=", a[k], b[k])
        terms = H.differs(c, a, b, s, q0)
        if other:
            terms = [("pic_parameter_set_id", True)]
        units = [c.unit("sps", H.sps(s)), c.unit("pps0", H.pps(q0))]
        if other:
            units.append(c.unit("pps1", H.pps(q1)))
        units += [c.unit("a", H.slice_header(a, s, q0)), c.unit("b", H.slice_header(b, s, q1))]
        data, at = frame(c, *units, long=[False, True] if not full or (poc == 2 and mbs and ka == kb == 1) else [False])
        size, offsets, info = H264Parser().parse_frame(data)
        new = c.Or(*[t for _, t in terms])
        if size is None:
            for name, t in terms:
                c.prove(c.Not(t), "the same picture: " + name)
            c.prove(offsets is None and info is None, "nothing reported before the frame ends")
            c.cover("same")
        else:
            c.prove(new, "another picture")
            long = bool(c.blen(data) - at[-1] - c.blen(units[-1]) - 3 == 0) and at[1] - at[0] - c.blen(units[0]) == 4
            c.prove(size == at[-1] - (1 if long else 0), "the frame ends where the next one starts")
            c.prove(len(offsets) == len(at) - 1, "the units of the frame")
            for x, y in zip(offsets, at):
                c.prove(x == y, "where a unit starts")
            key = c.Or(*[a["type"] == t for t in (2, 4, 7, 9)])
            c.prove(info is not None, "described")
            c.prove(c.implies(key, info.key_frame == True), "key frame")            # noqa: E712
            c.prove(c.implies(c.Not(key), info.key_frame == False), "not a key frame")  # noqa: E712
            c.cover("another")
    return h


def follows(c):
    """What follows a slice: which units end the frame (7.4.1.2.3), and that redundant slices do not."""
    from mediagrains.utils.h264_parser import H264Parser
    s = plain_sps(c)
    groups = None
    g = c.choose("groups", [None, 0, 1, 2, 3, 4, 5, 6])
    if g is not None:
        k = c.choose("ngroups", [1, 2, 3, 7]) if g in (0, 2, 6) else 1
        groups = {"n": k, "type": g, "runs": [n(c, "run%d" % i, 9999) for i in range(k + 1)],
                  "corners": [n(c, "corner%d" % i, 9999) for i in range(2 * k)], "direction": n(c, "direction", 1),
                  "rate": n(c, "grate", 9999),
                  "ids": [n(c, "gid%d" % i, k) for i in range(c.choose("map", [1, 2, 6]))] if g == 6 else []}
    q = pps(c, s, id=0, redundant=1, groups=groups)
    a = header(c, s, q, "a.", kind=1, redundant=0)
    r = dict(header(c, s, q, "r.", kind=1, redundant=n(c, "count", 127, 1)))
    units = [c.unit("sps", H.sps(s)), c.unit("pps", H.pps(q)), c.unit("a", H.slice_header(a, s, q))]
    if c.choose("redundant", [False, True]):
        units.append(c.unit("r", H.slice_header(r, s, q)))
    kinds = [0, 3, 4, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 18, 19, 20, 24, 31]
    kind = c.choose("next", kinds if g is None else [9])
    ends = kind in (6, 7, 8, 9, 15, 16, 17, 18)
    units.append(c.unit("follower", H.nal_header(n(c, "follower.ref", 3, 1), kind)))
    data, at = frame(c, *units)
    size, offsets, info = H264Parser().parse_frame(data)
    c.prove((size is not None) == ends, "a frame ends before the first unit that cannot belong to it", "unit type %d" % kind)
    if size is not None:
        back = at[-1] - size
        c.prove(c.Or(back == 0, back == 1), "the frame ends before the start code")
        c.prove(len(offsets) == len(at) - 1, "the units of the frame")
        for x, y in zip(offsets, at):
            c.prove(x == y, "where a unit starts")
        key = c.Or(*[a["type"] == t for t in (2, 4, 7, 9)])
        c.prove(c.implies(key, info.key_frame == True), "redundant slices do not count")            # noqa: E712
        c.prove(c.implies(c.Not(key), info.key_frame == False), "redundant slices do not count (not)")  # noqa: E712
    c.cover("followed")


# ---------------------------------------------------------------- the wrapper
class Trickle(object):
    """An input whose read(n) gives some of the next n bytes, at least one until its end."""

    def __init__(self, c, data, reads):
        self.c, self.data, self.reads, self.pos, self.k = c, data, reads, 0, 0

    def read(self, n=-1):
        c = self.c
        left = c.blen(self.data) - self.pos
        if bool(left == 0):
            return b""
        self.k += 1
        if self.k == self.reads and c.symbolic:
            c.assume(left <= n)                   # contract: the input arrives in this many reads
            a = left
        else:
            a = c.size("read%d" % self.k, 1)
            if c.symbolic:
                c.assume(c.And(a <= n, a <= left))
            else:
                a = max(1, min(a if self.k < 8 else n, n, left))
        out = self.data[self.pos:self.pos + a]
        self.pos = self.pos + a
        return out


def template(c, origin, rate):
    import mediagrains.grains as R
    from mediagrains.cogenums import CogFrameFormat as F, CogFrameLayout as L
    return R.CodedVideoGrain(src_id=c.uuid("src"), flow_id=c.uuid("flow"), origin_timestamp=origin, sync_timestamp=c.timestamp("sync"),
                             creation_timestamp=c.timestamp("creation"), rate=rate, duration=1 / rate, cog_frame_format=F.H264,
                             origin_width=c.int("ow", 0, 65535), origin_height=c.int("oh", 0, 65535),
                             coded_width=c.int("cw", 0, 65535), coded_height=c.int("ch", 0, 65535),
                             cog_frame_layout=L.FULL_FRAME, is_key_frame=False, temporal_offset=c.int("offset", -99, 99),
                             unit_offsets=None, length=0)


RATES = (Fraction(25), Fraction(30000, 1001))


def wrap(kinds, reads, extra=False, timed=False):
    """kinds: how each picture after the first begins; reads: in how many reads the input arrives."""
    def h(c):
        from mediagrains.utils import H264GrainWrapper
        count = len(kinds)
        rate = RATES[c.choose("rate", [0, 1])] if count == 1 and reads == 1 else RATES[1]
        v = None
        if timed:
            r = RATES[c.choose("stream rate", [0, 1])]
            v = dict.fromkeys(("aspect", "sar", "overscan", "signal", "colour", "location"))
            v["timing"] = (r.denominator, r.numerator * 2, n(c, "fixed", 1))
            stream_rate = r
        else:
            stream_rate = rate
        s = plain_sps(c, vui=v, crop=extra)
        q = pps(c, s, id=0)
        first = c.int("first", -(1 << 40), 1 << 40)
        t = template(c, c.instant(first, stream_rate), rate)
        before = snap(t.meta)
        frames, offsets, keys, last = [], [], [], None
        for i, kind in enumerate(kinds):
            hd = header(c, s, q, "h%d." % i, kind=5 if i == 0 else 1)
            if count > 1:
                hd["type"] = 7 if i == 0 else 5
            if kind == "slice" and i == 1:
                pass                              # a picture that is none of the IDR: nal_unit_type tells
            elif kind == "slice":
                c.assume(last["frame_num"] != hd["frame_num"])
            units = []
            if kind in ("aud", "first aud"):
                units.append(c.unit("aud%d" % i, H.nal_header(0, 9)))
            if kind in ("sps", "first", "first aud"):
                units.append(c.unit("sps%d" % i, H.sps(s)))
                units.append(c.unit("pps%d" % i, H.pps(q)))
            units.append(c.unit("slice%d" % i, H.slice_header(hd, s, q)))
            types = [hd["type"]]
            if extra:
                more = dict(hd, first_mb=n(c, "m%d.first_mb" % i, U32), type=n(c, "m%d.type" % i, 9))
                units.append(c.unit("more%d" % i, H.slice_header(more, s, q)))
                types.append(more["type"])
            data, at = frame(c, *units, long=[False])
            frames.append(data)
            offsets.append(at)
            keys.append(c.And(*[c.Or(*[x == y for y in (2, 4, 7, 9)]) for x in types]))
            last = hd
        data = b""
        for x in frames:
            data = data + x
        got = []
        for g in H264GrainWrapper(t, Trickle(c, data, reads)).grains():
            got.append(g)
            if len(got) > count:
                break
        c.prove(len(got) == count, "one grain for each picture", "%d for %d" % (len(got), count))
        ux, uy = 2, 2
        width, height = (s["width"] + 1) * 16, (s["height"] + 1) * 16
        crop = s["crop"] or [0, 0, 0, 0]
        for i, g in enumerate(got[:count]):
            c.prove_bytes_eq(c.to_bytes(g.data), frames[i], "grain %d is picture %d" % (i, i))
            uo = list(g.unit_offsets)
            c.prove(len(uo) == len(offsets[i]), "the units of picture %d" % i)
            for x, y in zip(uo, offsets[i]):
                c.prove(x == y, "where a unit starts")
            c.prove(c.implies(keys[i], g.is_key_frame == True), "key frame")                # noqa: E712
            c.prove(c.implies(c.Not(keys[i]), g.is_key_frame == False), "not a key frame")  # noqa: E712
            c.prove(c.And(g.coded_width == width, g.coded_height == height), "coded size")
            c.prove(c.And(g.origin_width == width - ux * (crop[0] + crop[1]),
                          g.origin_height == height - uy * (crop[2] + crop[3])), "size")
            c.prove(g.rate == stream_rate, "rate of the stream")
            c.prove(g.origin_timestamp == c.instant(first + i, stream_rate), "grain %d at its picture time" % i)
            c.prove(g.temporal_offset is None, "temporal offset unknown")
            m = snap(g.meta)
            b = {"@_ns": before["@_ns"], "grain": dict(before["grain"])}
            for d in (m, b):
                d["grain"] = {k: x for k, x in d["grain"].items() if k not in ("origin_timestamp", "rate")}
                d["grain"]["cog_coded_frame"] = {k: x for k, x in d["grain"]["cog_coded_frame"].items()
                                                 if k not in ("origin_width", "origin_height", "coded_width", "coded_height",
                                                              "is_key_frame", "temporal_offset", "unit_offsets")}
            same(c, m, b, "everything else is the template's")
            c.prove(all(g.meta is not o.meta for o in got[:i]), "grains are distinct")
        same(c, snap(t.meta), before, "the template is left alone")
        c.cover("wrapped")
    return h


def nothing(c):
    """No input, no grains."""
    from mediagrains.utils import H264GrainWrapper
    t = template(c, c.instant(c.int("first", -9, 9), RATES[0]), RATES[0])
    c.prove(list(H264GrainWrapper(t, Trickle(c, b"", 1)).grains()) == [], "no grains of no input")
    c.cover("wrapped")


HARNESSES = [Harness("describe " + w, describe(w), functions=PARSE, covers=("described",))
             for w in ("profile", "lists", "order", "vui")]
HARNESSES += [Harness("boundary slices %d" % i, boundary("slices", (i,)), functions=PARSE, covers=("same", "another"), max_time=240)
              for i in (0, 1, 2)]
HARNESSES += [Harness("boundary planes", boundary("planes"), functions=PARSE, covers=("same", "another")),
              Harness("boundary parameters", boundary("parameters"), functions=PARSE, covers=("another",))]
HARNESSES += [Harness("what follows", follows, functions=PARSE, covers=("followed",))]
WRAPS = [("one", ["first"], 1, {"timed": True}), ("one, 2 reads", ["first aud"], 2, {}), ("slices", ["first"], 2, {"extra": True}),
         ("two, by delimiter", ["first aud", "aud"], 2, {}), ("two, by slice", ["first", "slice"], 2, {}),
         ("two, by parameters", ["first", "sps"], 1, {"extra": True}), ("three", ["first", "slice", "aud"], 1, {})]
HARNESSES += [Harness("wrap " + w, wrap(k, r, **x), functions=FNS, covers=("wrapped",), max_time=240) for w, k, r, x in WRAPS]
HARNESSES += [Harness("wrap nothing", nothing, functions=FNS, covers=("wrapped",))]
