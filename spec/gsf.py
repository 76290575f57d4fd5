"""Mathematical specification of the GSF byte format (versions 7, 8 and 9).

Written from gsf_docs/gsf.md.  Every function takes the dual-mode provider `c`
first, so the same text is the postcondition of the encoder, the precondition of
the decoder and the run-time oracle.
"""
U32 = (1 << 32) - 1
NULL_OFFSET = 0x7fffffff


def u(c, v, n):
    return c.num(v, n)


def s(c, v, n):
    """Two's complement."""
    return c.num(c.ite(v < 0, v + (1 << (8 * n)), v), n)


def uuid(c, x):
    return c.num(x.int, 16, True)


def timestamp(c, t, major):
    mag = u(c, t.sec, 6) + u(c, t.ns, 4)
    if major == 7:
        return mag
    return u(c, c.ite(t.sign >= 0, 1, 0), 1) + mag


def rational(c, f):
    return u(c, f.numerator, 4) + u(c, f.denominator, 4)


def block(c, tag, body):
    return tag + u(c, c.blen(body) + 8, 4) + body


def padded(c, text, n):
    """UTF-8 text (at most n bytes) padded with NULs to n bytes."""
    b = c.utf8(text)
    return b + c.fill(0, n - c.blen(b))


def varstring(c, text):
    b = c.utf8(text)
    return u(c, c.blen(b), 2) + b


def file_header(c, major, minor):
    return b"SSBBgrsg" + u(c, major, 2) + u(c, minor, 2)


def tag_block(c, key, value):
    return block(c, b"tag ", varstring(c, key) + varstring(c, value))


def date(c, d):
    return (s(c, d.year, 2) + u(c, d.month, 1) + u(c, d.day, 1) + u(c, d.hour, 1) + u(c, d.minute, 1) +
            u(c, d.second, 1))


def flow_block(c, f):
    return block(c, b"flow", uuid(c, f["source_id"]) + uuid(c, f["flow_id"]) + padded(c, f["format"], 64) +
                 u(c, c.blen(f["data"]), 4) + f["data"])


def segm_block(c, local_id, id, count, tags=b"", flow=b""):
    return block(c, b"segm", u(c, local_id, 2) + uuid(c, id) + s(c, count, 8) + flow + tags)


def head_block(c, id, created, segments, tags):
    return block(c, b"head", uuid(c, id) + date(c, created) + segments + tags)


TERMINATOR = b"grai\x00\x00\x00\x00"


class Desc(object):
    """Everything a grain carries through a GSF file."""


KINDS = ("empty", "video", "coded_video", "audio", "coded_audio", "event")


def draw(c, p, kind, major=9, timelabels=None, parts=None, data=True):
    """An arbitrary representable grain of the given kind."""
    from mediagrains import cogenums
    d = Desc()
    d.kind = kind
    d.src, d.flow = c.uuid(p + "src"), c.uuid(p + "flow")
    nonneg = major == 7
    d.origin = c.timestamp(p + "origin", nonneg=nonneg)
    d.sync = c.timestamp(p + "sync", nonneg=nonneg)
    d.creation = c.timestamp(p + "creation")
    d.rate = c.fraction(p + "rate")
    d.duration = c.fraction(p + "duration")
    # timelabels
    if timelabels is None:
        timelabels = c.choose(p + "has_timelabels", [False, True])
    if timelabels:
        d.ntl = timelabels if type(timelabels) is int else c.size(p + "ntl", 1, 65535, cap=3)
        d.tl_tag = c.tarray(p + "tl.tag", 16)
        d.tl_count = c.array(p + "tl.count", 0, U32)
        d.tl_num = c.array(p + "tl.num", 0, U32)
        d.tl_den = c.array(p + "tl.den", 1, U32)
        d.tl_drop = c.barray(p + "tl.drop")
    else:
        d.ntl = 0
    if data and kind != "event":
        d.dlen = c.size(p + "dlen", 0, (1 << 32) - 1 - 3000000)
        d.data = c.bytes(p + "data", d.dlen)
    elif kind != "event":
        d.dlen, d.data = 0, None
    if kind != "event":
        d.length = d.dlen
    U = U32
    if kind == "event":
        d.etype, d.topic = c.text(p + "etype", 1 << 20), c.text(p + "topic", 1 << 20)
        d.shape = c.choose(p + "event_shape", [("path", "pre", "post"), ("path",), ("path", "pre"), ("path", "post")])
        d.nev = c.size(p + "nev", 0, 1 << 20, cap=3)
        d.paths = c.tarray(p + "path", 1 << 16)
        d.pre, d.post = c.json_values(p + "pre"), c.json_values(p + "post")
        d.data = c.utf8(c.json_dumps({"type": d.etype, "topic": d.topic,
                                      "data": c.list(d.nev, lambda k: event_datum(d, k))}))
        d.dlen = d.length = c.blen(d.data)
        c.assume(d.dlen < (1 << 32) - 3000000)
    if kind == "video":
        d.format = enum(c, p + "format", cogenums.CogFrameFormat)
        d.layout = enum(c, p + "layout", cogenums.CogFrameLayout)
        d.width, d.height, d.extension = c.int(p + "width", 0, U), c.int(p + "height", 0, U), c.int(p + "extension", 0, U)
        d.sar = c.fraction(p + "sar", 1) if c.choose(p + "has_sar", [False, True]) else None
        d.par = c.fraction(p + "par", 1) if c.choose(p + "has_par", [False, True]) else None
        if c.choose(p + "has_comps", [True, False]) if parts is None else parts:
            d.ncomp = parts if type(parts) is int else c.size(p + "ncomp", 1, 65535, cap=3)
            d.comp = {k: c.array(p + "comp." + k, 0, U) for k in ("width", "height", "stride", "length")}
        else:
            d.ncomp = 0
    elif kind == "coded_video":
        d.format = enum(c, p + "format", cogenums.CogFrameFormat)
        d.layout = enum(c, p + "layout", cogenums.CogFrameLayout)
        d.ow, d.oh, d.cw, d.ch = [c.int(p + k, 0, U) for k in ("ow", "oh", "cw", "ch")]
        opts = [True, False] if major < 9 else [True, False, None]
        d.key = c.choose(p + "key", opts)
        if major < 9:
            d.temporal = c.int(p + "temporal", -(1 << 31), (1 << 31) - 1)
        elif c.choose(p + "has_temporal", [True, False]):
            d.temporal = c.int(p + "temporal", -(1 << 31), (1 << 31) - 2)
        else:
            d.temporal = None
        if c.choose(p + "has_units", [True, False]) if parts is None else parts:
            d.nunit = parts if type(parts) is int else c.size(p + "nunit", 1, 65535, cap=4)
            d.unit = c.array(p + "unit", 0, U)
        else:
            d.nunit = 0
    elif kind in ("audio", "coded_audio"):
        d.format = enum(c, p + "format", cogenums.CogAudioFormat)
        d.channels = c.int(p + "channels", 0, 65535)
        d.samples = c.int(p + "samples", 0, U)
        d.sample_rate = c.int(p + "sample_rate", 0, U)
        if kind == "coded_audio":
            d.priming, d.remainder = c.int(p + "priming", 0, U), c.int(p + "remainder", 0, U)
    return d


def enum(c, name, cls):
    vals = sorted(set(int(m) for m in cls.__members__.values()))
    return c.member(name, vals)


def is0(x):
    return isinstance(x, int) and x == 0


def event_datum(d, k):
    r = {}
    for f in d.shape:
        r[f] = d.paths(k) if f == "path" else d.pre(k) if f == "pre" else d.post(k)
    return r


def frac_dict(f):
    return {"numerator": f.numerator, "denominator": f.denominator}


def label_meta(d, k):
    return {"tag": d.tl_tag(k), "timelabel": {"frames_since_midnight": d.tl_count(k),
                                              "frame_rate_numerator": d.tl_num(k),
                                              "frame_rate_denominator": d.tl_den(k),
                                              "drop_frame": d.tl_drop(k)}}


def make_grain(c, d, data="own"):
    """The grain object, through the public constructor."""
    from mediagrains.grains import GrainFactory
    g = {"grain_type": d.kind, "source_id": d.src, "flow_id": d.flow, "origin_timestamp": d.origin,
         "sync_timestamp": d.sync, "creation_timestamp": d.creation, "rate": frac_dict(d.rate),
         "duration": frac_dict(d.duration)}
    if not is0(d.ntl):
        g["timelabels"] = c.list(d.ntl, lambda k: label_meta(d, k))
    if d.kind == "video":
        g["cog_frame"] = {"format": d.format, "layout": d.layout, "width": d.width, "height": d.height,
                          "extension": d.extension}
        if d.sar is not None:
            g["cog_frame"]["source_aspect_ratio"] = frac_dict(d.sar)
        if d.par is not None:
            g["cog_frame"]["pixel_aspect_ratio"] = frac_dict(d.par)

        def comp(k):
            m = {x: d.comp[x](k) for x in d.comp}
            m["offset"] = 0 if c.symbolic else sum(d.comp["length"](j) for j in range(k))
            return m
        g["cog_frame"]["components"] = c.list(d.ncomp, comp) if not is0(d.ncomp) else []
    elif d.kind == "coded_video":
        m = g["cog_coded_frame"] = {"format": d.format, "layout": d.layout, "origin_width": d.ow,
                                    "origin_height": d.oh, "coded_width": d.cw, "coded_height": d.ch}
        if d.key is not None:
            m["is_key_frame"] = d.key
        if d.temporal is not None:
            m["temporal_offset"] = d.temporal
        if not is0(d.nunit):
            m["unit_offsets"] = c.list(d.nunit, d.unit)
    elif d.kind == "audio":
        g["cog_audio"] = {"format": d.format, "channels": d.channels, "samples": d.samples,
                          "sample_rate": d.sample_rate}
    elif d.kind == "coded_audio":
        g["cog_coded_audio"] = {"format": d.format, "channels": d.channels, "samples": d.samples,
                                "sample_rate": d.sample_rate, "priming": d.priming, "remainder": d.remainder}
    return GrainFactory({"@_ns": "urn:x-ipstudio:ns:0.1", "grain": g}, d.data if data == "own" else data)


# --------------------------------------------------------------------------- bytes
def tils(c, d):
    def one(k):
        return (padded(c, d.tl_tag(k), 16) + u(c, d.tl_count(k), 4) + u(c, d.tl_num(k), 4) + u(c, d.tl_den(k), 4) +
                u(c, c.ite(d.tl_drop(k), 1, 0), 1))
    if is0(d.ntl):
        return b""
    return block(c, b"tils", u(c, d.ntl, 2) + c.rep(d.ntl, one))


def vghd(c, d):
    zero = b"\x00\x00\x00\x00\x01\x00\x00\x00"
    b = (u(c, d.format, 4) + u(c, d.layout, 4) + u(c, d.width, 4) + u(c, d.height, 4) + u(c, d.extension, 4) +
         (rational(c, d.sar) if d.sar is not None else zero) + (rational(c, d.par) if d.par is not None else zero))
    if not is0(d.ncomp):
        b = b + block(c, b"comp", u(c, d.ncomp, 2) + c.rep(d.ncomp, lambda k: (
            u(c, d.comp["width"](k), 4) + u(c, d.comp["height"](k), 4) + u(c, d.comp["stride"](k), 4) +
            u(c, d.comp["length"](k), 4))))
    return block(c, b"vghd", b)


def cghd(c, d):
    key = 3 if d.key is None else (1 if d.key else 0)
    b = (u(c, d.format, 4) + u(c, d.layout, 4) + u(c, d.ow, 4) + u(c, d.oh, 4) + u(c, d.cw, 4) + u(c, d.ch, 4) +
         u(c, key, 1) + s(c, NULL_OFFSET if d.temporal is None else d.temporal, 4))
    if not is0(d.nunit):
        b = b + block(c, b"unof", u(c, d.nunit, 2) + c.rep(d.nunit, lambda k: u(c, d.unit(k), 4)))
    return block(c, b"cghd", b)


def aghd(c, d):
    return block(c, b"aghd", u(c, d.format, 4) + u(c, d.channels, 2) + u(c, d.samples, 4) + u(c, d.sample_rate, 4))


def cahd(c, d):
    return block(c, b"cahd", u(c, d.format, 4) + u(c, d.channels, 2) + u(c, d.samples, 4) + u(c, d.priming, 4) +
                 u(c, d.remainder, 4) + u(c, d.sample_rate, 4))


def gbhd(c, d, major, extra=b""):
    child = {"empty": lambda c, d: b"", "video": vghd, "coded_video": cghd, "audio": aghd, "coded_audio": cahd,
             "event": lambda c, d: block(c, b"eghd", b"\x00")}[d.kind](c, d)
    return block(c, b"gbhd", uuid(c, d.src) + uuid(c, d.flow) + (b"\x00" * 16 if major == 7 else b"") +
                 timestamp(c, d.origin, major) + timestamp(c, d.sync, major) + rational(c, d.rate) +
                 rational(c, d.duration) + tils(c, d) + child + extra)


def grai(c, d, local_id, major=9, data=None):
    body = u(c, local_id, 2) + gbhd(c, d, major) + block(c, b"grdt", d.data if data is None else data)
    return block(c, b"grai", body)


# --------------------------------------------------------------------------- decoded grains
def check_grain(c, g, d, name, data=True):
    """The decoded grain carries exactly the contents of d."""
    P = c.prove
    P(g.grain_type == d.kind, name + ".grain_type")
    P(g.source_id == d.src, name + ".source_id")
    P(g.flow_id == d.flow, name + ".flow_id")
    P(g.origin_timestamp == d.origin, name + ".origin_timestamp")
    P(g.sync_timestamp == d.sync, name + ".sync_timestamp")
    P(g.rate == d.rate, name + ".rate")
    P(g.duration == d.duration, name + ".duration")
    if d.kind == "video":
        P(int_(g.cog_frame_format) == d.format, name + ".format")
        P(int_(g.cog_frame_layout) == d.layout, name + ".layout")
        P(g.width == d.width, name + ".width")
        P(g.height == d.height, name + ".height")
        P(g.extension == d.extension, name + ".extension")
        for k, v in (("source_aspect_ratio", d.sar), ("pixel_aspect_ratio", d.par)):
            got = getattr(g, k)
            if v is None:
                P(got is None, name + "." + k)
            else:
                P(got is not None and got == v, name + "." + k)

        def cc(x, k, n):
            for f in ("width", "height", "stride", "length"):
                c.prove(getattr(x, f) == d.comp[f](k), n + "." + f)
        c.prove_list(g.components, d.ncomp, cc, name + ".components")
    elif d.kind == "coded_video":
        P(int_(g.cog_frame_format) == d.format, name + ".format")
        P(int_(g.cog_frame_layout) == d.layout, name + ".layout")
        P(g.origin_width == d.ow, name + ".origin_width")
        P(g.origin_height == d.oh, name + ".origin_height")
        P(g.coded_width == d.cw, name + ".coded_width")
        P(g.coded_height == d.ch, name + ".coded_height")
        P(opt_eq(g.is_key_frame, d.key), name + ".is_key_frame")
        P(opt_eq(g.temporal_offset, d.temporal), name + ".temporal_offset")
        c.prove_list(g.unit_offsets, d.nunit, lambda x, k, n: c.prove(x == d.unit(k), n), name + ".unit_offsets")
    elif d.kind in ("audio", "coded_audio"):
        P(int_(g.cog_audio_format) == d.format, name + ".format")
        P(g.channels == d.channels, name + ".channels")
        P(g.samples == d.samples, name + ".samples")
        P(g.sample_rate == d.sample_rate, name + ".sample_rate")
        if d.kind == "coded_audio":
            P(g.priming == d.priming, name + ".priming")
            P(g.remainder == d.remainder, name + ".remainder")

    elif d.kind == "event":
        P(g.event_type == d.etype, name + ".event_type")
        P(g.topic == d.topic, name + ".topic")

        def ev(x, k, n):
            c.prove(x.path == d.paths(k), n + ".path")
            for f, v in (("pre", d.pre), ("post", d.post)):
                if f in d.shape:
                    c.prove(getattr(x, f) == v(k), n + "." + f)
                else:
                    c.prove(getattr(x, f) is None and f not in x, n + "." + f)
        c.prove_list(g.event_data, d.nev, ev, name + ".event_data")

    def tl(x, k, n):
        c.prove(x.tag == d.tl_tag(k), n + ".tag")
        c.prove(x.count == d.tl_count(k), n + ".count")
        m = x["timelabel"]
        # the rational is stored in lowest terms
        c.prove(x.drop_frame == d.tl_drop(k), n + ".drop_frame")
        check_rate(c, m["frame_rate_numerator"], m["frame_rate_denominator"], d.tl_num(k), d.tl_den(k), n + ".rate")
    c.prove_list(g.timelabels, d.ntl, tl, name + ".timelabels")
    if data:
        check_data(c, g, d, name)


def check_rate(c, n, d, n0, d0, name):
    """n/d is n0/d0 in lowest terms (zero when stored as zero)."""
    f = c.lowest(n0, d0)
    c.prove(c.And(n == f.numerator, d == f.denominator), name)


def check_data(c, g, d, name):
    c.prove_bytes_eq(g.data if g.data is not None else b"", d.data, name + ".data")
    c.prove(g.length == d.dlen, name + ".length")


def opt_eq(a, b):
    if b is None or a is None:
        return a is b
    if b is True or b is False:
        if a is True or a is False:
            return a == b
        return a == b
    return a == b


def int_(x):
    return x.__sym_int__() if hasattr(x, "__sym_int__") else int(x)
