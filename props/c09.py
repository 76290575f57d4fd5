"""C09: a grain's properties are a faithful view of its metadata."""
import copy
from pyvc.prop import Harness
from .common import GRAIN
from spec.gsf import int_

CONTRACTS = []
U32 = (1 << 32) - 1
KINDS = ("empty", "video", "coded_video", "audio", "coded_audio", "event")
CLASS = {"empty": "Grain", "video": "VideoGrain", "coded_video": "CodedVideoGrain", "audio": "AudioGrain",
         "coded_audio": "CodedAudioGrain", "event": "EventGrain"}
PART = {"video": "cog_frame", "coded_video": "cog_coded_frame", "audio": "cog_audio", "coded_audio": "cog_coded_audio",
        "event": "event_payload"}


def fns(kind, *names):
    return tuple(GRAIN[kind] + "." + n for n in names)


def snap(x):
    """The plain contents of metadata (views of metadata are mappings, too)."""
    if isinstance(x, dict):
        return dict((k, snap(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return [snap(v) for v in x]
    return x


def same(c, got, want, name):
    """Equal metadata: the same plain dictionaries and lists with equal values."""
    if isinstance(want, dict):
        c.prove(isinstance(got, dict) and sorted(map(str, got)) == sorted(want), name + ": keys",
                "%r" % (sorted(map(str, got)) if isinstance(got, dict) else got,))
        for k in want:
            same(c, got[k], want[k], "%s.%s" % (name, k))
    elif isinstance(want, list):
        c.prove(isinstance(got, list) and len(got) == len(want), name + ": length")
        for i, w in enumerate(want):
            same(c, got[i], w, name + "[]")
    else:
        c.prove(plain(got) and got == want, name)


def plain(x):
    """Metadata holds numbers, text and truth values, no objects of this library."""
    return isinstance(x, (int, str, float, bool, type(None))) or hasattr(x, "__sym__")


def rat(f):
    return {"numerator": f.numerator, "denominator": f.denominator}


def common(c, p=""):
    return dict(src_id=c.uuid(p + "src"), flow_id=c.uuid(p + "flow"), origin_timestamp=c.timestamp(p + "origin"),
                sync_timestamp=c.timestamp(p + "sync"), creation_timestamp=c.timestamp(p + "creation"),
                rate=c.fraction(p + "rate"), duration=c.fraction(p + "duration"))


def specific(c, kind, p=""):
    from mediagrains.cogenums import CogFrameFormat as F, CogFrameLayout as L, CogAudioFormat as A
    n = lambda k, lo=0, hi=U32: c.int(p + k, lo, hi)        # noqa: E731
    lay = c.choose(p + "layout", [L.FULL_FRAME, L.SINGLE_FIELD, L.UNKNOWN]) if "video" in kind else None
    if kind == "video":
        return dict(cog_frame_format=c.choose(p + "fmt", [F.v210, F.U8_420, F.UNKNOWN]), width=n("width", 1, 1 << 20),
                    height=n("height", 1, 1 << 20), cog_frame_layout=lay)
    if kind == "coded_video":
        return dict(cog_frame_format=c.choose(p + "fmt", [F.H264, F.VC2]), origin_width=n("ow"), origin_height=n("oh"),
                    coded_width=n("cw"), coded_height=n("ch"), is_key_frame=c.choose(p + "key", [None, True, False]),
                    temporal_offset=c.choose(p + "toff", [None, 1]) and c.int(p + "temporal", -(1 << 31), (1 << 31) - 1),
                    cog_frame_layout=lay, unit_offsets=c.choose(p + "units", [None, 1]) and [n("u0"), n("u1")])
    if kind in ("audio", "coded_audio"):
        d = dict(cog_audio_format=c.choose(p + "fmt", [A.S24_INTERLEAVED, A.AAC]), samples=n("samples"),
                 channels=n("channels"), sample_rate=n("sample_rate"))
        if kind == "coded_audio":
            d.update(priming=n("priming"), remainder=n("remainder"))
        return d
    if kind == "event":
        return dict(event_type=c.text(p + "etype", 40), topic=c.text(p + "topic", 40))
    return {}


def base_meta(c, kind, a):
    return {"grain_type": kind, "source_id": c.str(a["src_id"]), "flow_id": c.str(a["flow_id"]),
            "origin_timestamp": c.str(a["origin_timestamp"]), "sync_timestamp": c.str(a["sync_timestamp"]),
            "creation_timestamp": c.str(a["creation_timestamp"]), "rate": rat(a["rate"]), "duration": rat(a["duration"])}


def part_meta(kind, s):
    if kind == "video":
        return dict(format=int(s["cog_frame_format"]), width=s["width"], height=s["height"],
                    layout=int(s["cog_frame_layout"]), extension=0)
    if kind == "coded_video":
        d = dict(format=int(s["cog_frame_format"]), layout=int(s["cog_frame_layout"]), length=0,
                 **dict((k, s[k]) for k in ("origin_width", "origin_height", "coded_width", "coded_height")))
        for k in ("is_key_frame", "temporal_offset", "unit_offsets"):
            if s[k] is not None:
                d[k] = s[k]
        return d
    if kind in ("audio", "coded_audio"):
        d = dict(s, format=int(s["cog_audio_format"]))
        del d["cog_audio_format"]
        return d
    return dict(type=s["event_type"], topic=s["topic"], data=[])


def make(c, kind, p="", data=True, **kw):
    """A grain made from keywords and what was asked for."""
    import mediagrains.grains as R
    a, s = common(c, p), specific(c, kind, p)
    d = c.bytes(p + "data", c.size(p + "dlen")) if data and kind != "event" else None
    kw.update(a)
    kw.update(s)
    if kind == "empty":
        return R.GrainFactory(**a), a, s, None
    return getattr(R, CLASS[kind])(**(dict(kw, data=d) if d is not None else kw)), a, s, d


def full_meta(c, kind, a, s):
    m = {"@_ns": "urn:x-ipstudio:ns:0.1", "grain": base_meta(c, kind, a)}
    if kind != "empty":
        m["grain"][PART[kind]] = part_meta(kind, s)
    return m


def strip(meta):
    """Metadata without the component layout of raw video (C10)."""
    m = snap(meta)
    m["grain"].get("cog_frame", {}).pop("components", None)
    return m


def readable(c, g, kind, a, s, name=""):
    """Every property shows what was asked for."""
    P = c.prove
    P(g.grain_type == kind, name + "grain_type")
    P(c.And(g.source_id == a["src_id"], g.src_id == a["src_id"]), name + "source_id")
    for k in ("flow_id", "origin_timestamp", "sync_timestamp", "creation_timestamp", "rate", "duration"):
        P(getattr(g, k) == a[k], name + k)
    for k, v in s.items():
        if k == "unit_offsets":
            got = list(g.unit_offsets)
            P(len(got) == len(v or []), name + k + ": length")
            P(c.And(*[x == y for x, y in zip(got, v or [])]), name + k)
        elif v is None:
            P(getattr(g, k) is None, name + k)
        else:
            P(getattr(g, k) == v, name + k)
    if "cog_frame_format" in s:
        P(g.format == s["cog_frame_format"] and g.layout == s["cog_frame_layout"], name + "older names")
    if "cog_audio_format" in s:
        P(g.format == s["cog_audio_format"], name + "older name")
    if kind == "video":
        P(g.source_aspect_ratio is None and g.pixel_aspect_ratio is None and g.extension == 0, name + "nothing else set")
    P(len(g.timelabels) == 0, name + "no timelabels")


def construct(kind, defaults=False):
    """Constructing a grain from keywords gives exactly the metadata and properties asked for."""
    def h(c):
        import mediagrains.grains as R
        g, a, s, d = make(c, kind)
        c.cover("made")
        c.prove(type(g) is getattr(R, CLASS[kind]), "class")
        same(c, strip(g.meta), full_meta(c, kind, a, s), "meta")
        readable(c, g, kind, a, s)
        c.prove(len(g) == 2 and g[0] is g.meta, "a grain is its metadata and its data")
        if d is not None:
            c.prove_bytes_eq(g.data, d, "data")
            c.prove_bytes_eq(g[1], d, "second element")
            c.prove(g.length == c.blen(d) and g.has_data(), "length")
            c.prove_bytes_eq(c.to_bytes(g), d, "bytes of the grain")
        elif kind == "empty":
            c.prove(g.data is None and g[1] is None and g.length == 0 and not g.has_data(), "no data")
    return h


def defaults(kind, given):
    """Times default to the next more fundamental one, rates to 25; ids must be UUIDs."""
    def h(c):
        import mediagrains.grains as R
        cls = R.GrainFactory if kind == "empty" else getattr(R, CLASS[kind])
        kw = dict((k, c.timestamp(k)) for k in given)
        now = c.timestamp("now", maxsec=1 << 40)
        c.now(now)
        g = cls(src_id=c.uuid("src"), flow_id=c.uuid("flow"), **kw)
        c.cover("made")
        created = kw.get("creation_timestamp", now)
        origin = kw.get("origin_timestamp", created)
        if c.symbolic or "creation_timestamp" in kw:
            c.prove(g.creation_timestamp == created, "creation_timestamp")
        if c.symbolic or "origin_timestamp" in kw or "creation_timestamp" in kw:
            c.prove(g.origin_timestamp == origin, "origin_timestamp")
        c.prove(g.origin_timestamp == kw.get("origin_timestamp", g.creation_timestamp), "origin from creation")
        c.prove(g.sync_timestamp == kw.get("sync_timestamp", g.origin_timestamp), "sync from origin")
        from fractions import Fraction
        c.prove(c.And(g.rate == Fraction(25), g.duration == Fraction(1, 25)) if kind != "empty" else
                c.And(g.rate == Fraction(0), g.duration == Fraction(0)), "rate and duration")
        c.prove(g.grain_type == kind, "grain_type")
        for k in ("src_id", "flow_id"):
            if kind == "empty":
                break
            try:
                cls(**{k: "not an id"})
            except AttributeError:
                continue
            c.fail("ids are UUIDs")
    return h


def factory(kind):
    """GrainFactory makes the grain its metadata describes, keeping the metadata."""
    def h(c):
        import mediagrains.grains as R
        a, s = common(c), specific(c, kind)
        meta = full_meta(c, kind, a, s)
        if kind == "video":
            meta["grain"]["cog_frame"]["components"] = [{"stride": 1, "offset": 2, "width": 3, "height": 4, "length": 5}]
        before = snap(meta)
        d = c.bytes("data", c.size("dlen"))
        if kind == "event":
            d = None
        g = R.GrainFactory(meta, d)
        c.cover("made")
        c.prove(type(g) is getattr(R, CLASS[kind]), "class")
        c.prove(g.meta is meta, "the metadata itself, not a copy")
        same(c, snap(g.meta), before, "meta")
        readable(c, g, kind, a, s)
        if d is not None:
            c.prove_bytes_eq(g.data, d, "data")
    return h


def factory_partial(kind):
    """Missing metadata is completed; given metadata is kept; ids, times and rates may be given as objects."""
    def h(c):
        import mediagrains.grains as R
        src, flow, created = c.uuid("src"), c.uuid("flow"), c.timestamp("creation")
        rate = c.fraction("rate")
        g0 = {"source_id": src, "flow_id": flow, "creation_timestamp": created, "rate": rate}
        origin = sync = None
        given = c.choose("given", ["", "origin", "sync", "both"])
        if given in ("origin", "both"):
            origin = g0["origin_timestamp"] = c.timestamp("origin")
        if given in ("sync", "both"):
            sync = g0["sync_timestamp"] = c.timestamp("sync")
        origin = created if origin is None else origin
        sync = origin if sync is None else sync
        if kind != "empty":
            g0["grain_type"] = kind
        g = R.GrainFactory({"grain": g0}, None)
        c.cover("made")
        c.prove(type(g) is getattr(R, CLASS[kind]), "class")
        c.prove(g.meta["@_ns"] == "urn:x-ipstudio:ns:0.1", "namespace")
        c.prove(c.And(g.source_id == src, g.flow_id == flow, g.rate == rate, g.duration == 0), "ids and rates")
        c.prove(c.And(g.creation_timestamp == created, g.origin_timestamp == origin, g.sync_timestamp == sync), "times")
        for k in ("creation_timestamp", "origin_timestamp", "sync_timestamp"):
            c.prove(g.meta["grain"][k] == c.str(getattr(g, k)), "%s is kept as text" % k)
        for k in ("source_id", "flow_id"):
            c.prove(g.meta["grain"][k] == c.str(getattr(g, k)), "%s is kept as text" % k)
        same(c, snap(g.meta["grain"]["rate"]), rat(rate), "rate is kept as numbers")
        c.prove(g.grain_type == kind, "grain_type")
        if kind == "audio":
            c.prove((g.samples, g.channels) == (0, 0), "nothing described")
        elif kind == "video":
            c.prove((g.width, g.height, len(g.components)) == (0, 0, 0), "nothing described")
        elif kind == "coded_video":
            c.prove((g.origin_width, g.is_key_frame, g.temporal_offset, len(g.unit_offsets)) == (0, None, None, 0),
                    "nothing described")
        elif kind == "coded_audio":
            c.prove((g.samples, g.priming, g.remainder) == (0, 0, 0), "nothing described")
        elif kind == "event":
            c.prove((g.event_type, g.topic, len(g.event_data)) == ("", "", 0), "nothing described")
        try:
            R.Grain(None, None)
        except ValueError:
            return
        c.fail("metadata is required")
    return h


def settings(kind):
    """(property, new value, place in the metadata, stored form)."""
    n = lambda k, lo=0, hi=U32: (lambda c: c.int(k, lo, hi))          # noqa: E731
    ident = lambda c, v: v                                            # noqa: E731
    text = lambda c, v: c.str(v)                                      # noqa: E731
    rats = lambda c, v: rat(v)                                        # noqa: E731
    out = []
    for k, p in (("source_id", "source_id"), ("src_id", "source_id"), ("flow_id", "flow_id")):
        out.append((k, lambda c: c.uuid("new"), (p,), text))
    for k in ("origin_timestamp", "sync_timestamp", "creation_timestamp"):
        out.append((k, lambda c: c.timestamp("new"), (k,), text))
    for k in ("rate", "duration"):
        out.append((k, lambda c: c.fraction("new"), (k,), rats))
    out.append(("grain_type", lambda c: c.text("new", 30), ("grain_type",), ident))
    if kind in ("video", "coded_video"):
        p = PART[kind]
        for k in ("cog_frame_format", "format"):
            out.append((k, lambda c: c.enum("CogFrameFormat", "new"), (p, "format"), lambda c, v: int_(v)))
        for k in ("cog_frame_layout", "layout"):
            out.append((k, lambda c: c.enum("CogFrameLayout", "new"), (p, "layout"), lambda c, v: int_(v)))
        for k in (("width", "height", "extension") if kind == "video" else
                  ("origin_width", "origin_height", "coded_width", "coded_height")):
            out.append((k, n("new"), (p, k), ident))
        for k in ("source_aspect_ratio", "pixel_aspect_ratio"):
            out.append((k, lambda c: c.fraction("new"), (p, k), rats))
        if kind == "coded_video":
            out.append(("is_key_frame", lambda c: c.boolean("new"), (p, "is_key_frame"), ident))
            out.append(("temporal_offset", n("new", -(1 << 31), (1 << 31) - 1), (p, "temporal_offset"), ident))
            out.append(("is_key_frame", lambda c: None, (p, "is_key_frame"), None))
            out.append(("temporal_offset", lambda c: None, (p, "temporal_offset"), None))
    elif kind in ("audio", "coded_audio"):
        p = PART[kind]
        for k in ("cog_audio_format", "format"):
            out.append((k, lambda c: c.enum("CogAudioFormat", "new"), (p, "format"), lambda c, v: int_(v)))
        for k in ("samples", "channels", "sample_rate") + (("priming", "remainder") if kind == "coded_audio" else ()):
            out.append((k, n("new"), (p, k), ident))
    elif kind == "event":
        out.append(("event_type", lambda c: c.text("new", 30), ("event_payload", "type"), ident))
        out.append(("topic", lambda c: c.text("new", 30), ("event_payload", "topic"), ident))
    return out


def write(kind, i):
    """Setting a property is seen by reading it and changes its own place in the metadata and nothing else."""
    def h(c):
        attr, value, path, stored = settings(kind)[i]
        g, a, s, d = make(c, kind)
        want = snap(g.meta)
        v = value(c)
        setattr(g, attr, v)
        c.cover("set")
        m = want["grain"]
        for k in path[:-1]:
            m = m[k]
        if stored is None:
            m.pop(path[-1], None)
            c.prove(getattr(g, attr) is None, "property read back")
        else:
            m[path[-1]] = stored(c, v)
            if attr not in ("grain_type",):
                c.prove(getattr(g, attr) == v, "property read back")
        same(c, snap(g.meta), want, "meta")
        if d is not None:
            c.prove_bytes_eq(g.data, d, "data unchanged")
    return h


def times(c):
    """Times may be given as text or anything standing for a time, and nothing else."""
    import mediagrains.grains as R
    g = R.GrainFactory(**common(c))
    t = c.timestamp("t")
    for k in ("origin_timestamp", "sync_timestamp", "creation_timestamp"):
        setattr(g, k, c.str(t))
        c.prove(getattr(g, k) == t, k + " as text")
        c.prove(g.meta["grain"][k] == c.str(t), k + " kept")
        try:
            setattr(g, k, 5)
        except ValueError:
            c.cover("refused")
            continue
        c.fail("a number is not a time")


TL = "mediagrains.grains.Grain:Grain.TIMELABELS."


def label(c, p):
    return {"tag": c.text(p + "tag", 16), "timelabel": {
        "frames_since_midnight": c.int(p + "count", 0, U32), "frame_rate_numerator": c.int(p + "num", 1, U32),
        "frame_rate_denominator": 1, "drop_frame": c.boolean(p + "drop")}}


def component(c, p):
    return dict((k, c.int(p + k, 0, U32)) for k in ("stride", "offset", "width", "height", "length"))


VIEWS = {
    "timelabels": ("empty", label, ("timelabels",), True),
    "unit_offsets": ("coded_video", lambda c, p: c.int(p, 0, U32), ("cog_coded_frame", "unit_offsets"), True),
    "components": ("video", component, ("cog_frame", "components"), False),
}
OPS = ("append", "insert", "extend", "set", "set slice", "delete", "delete slice", "pop", "reverse", "clear", "read",
       "assign", "assign itself", "assign nothing")


def listview(view, n, op):
    """A list-like property behaves as a list of its elements, all kept in the metadata."""
    kind, elem, path, optional = VIEWS[view]

    def h(c):
        import mediagrains.grains as R
        a = common(c)
        if kind == "empty":
            g = R.GrainFactory(**a)
        elif kind == "video":
            g = R.VideoGrain(data=b"", **a)
        else:
            g = R.CodedVideoGrain(data=b"", **a)
        els = [elem(c, "e%d." % i) for i in range(n)]
        x, y = elem(c, "x."), elem(c, "y.")
        ref = [snap(e) for e in els]
        for e in els:
            getattr(g, view).append(copy.deepcopy(e))
        rest = snap(g.meta)

        def place(m):
            for k in path[:-1]:
                m = m[k]
            return m
        v = getattr(g, view)
        i = c.choose("i", list(range(-n - 1, n + 2)))
        sl = slice(*c.choose("slice", [(0, 1), (1, None), (None, -1), (None, None, 2), (None, None, -1), (5, 7)]))
        err = None

        def both(f, r):
            try:
                want = r()
            except (IndexError, ValueError) as e:
                try:
                    f()
                except type(e):
                    c.cover("refused")
                    return
                c.fail("an error where a list has one")
                return
            got = f()
            if want is not None:
                if isinstance(want, list):
                    c.prove(len(got) == len(want), "result: length")
                    for p, q in zip(got, want):
                        c.prove(p == q, "result")
                else:
                    c.prove(got == want, "result")
        if op == "append":
            both(lambda: v.append(copy.deepcopy(x)), lambda: ref.append(snap(x)))
        elif op == "insert":
            both(lambda: v.insert(i, copy.deepcopy(x)), lambda: ref.insert(i, snap(x)))
        elif op == "extend":
            both(lambda: v.extend([copy.deepcopy(x), copy.deepcopy(y)]), lambda: ref.extend([snap(x), snap(y)]))
        elif op == "set":
            both(lambda: v.__setitem__(i, copy.deepcopy(x)), lambda: ref.__setitem__(i, snap(x)))
        elif op == "set slice":
            k = len(range(n)[sl])
            new = [elem(c, "n%d." % j) for j in range(k)]
            if optional and n == 0:
                return
            both(lambda: v.__setitem__(sl, copy.deepcopy(new)), lambda: ref.__setitem__(sl, snap(new)))
        elif op == "delete":
            both(lambda: v.__delitem__(i), lambda: ref.__delitem__(i))
        elif op == "delete slice":
            if optional and n == 0:
                return
            both(lambda: v.__delitem__(sl), lambda: ref.__delitem__(sl))
        elif op == "pop":
            both(lambda: v.pop(), lambda: ref.pop())
        elif op == "reverse":
            both(lambda: v.reverse(), lambda: ref.reverse())
        elif op == "clear":
            both(lambda: v.clear(), lambda: ref.clear())
        elif op == "read":
            both(lambda: v[i], lambda: ref[i])
            if not (optional and n == 0):
                both(lambda: v[sl], lambda: ref[sl])
            both(lambda: [e for e in v], lambda: ref)
        elif op == "assign":
            if view == "components":
                return
            setattr(g, view, [copy.deepcopy(x), copy.deepcopy(y)])
            ref[:] = [x, y]
        elif op == "assign itself":
            if view == "components":
                return
            setattr(g, view, getattr(g, view))
        elif op == "assign nothing":
            setattr(g, view, [])
            ref[:] = []
        c.cover("done")
        v = getattr(g, view)
        c.prove(len(v) == len(ref), "length")
        for j, w in enumerate(ref):
            c.prove(v[j] == w, "element")
        c.prove(v == ref, "equal to the list")
        want = rest
        p, got = place(want["grain"]), place(g.meta["grain"])
        if optional and not ref:
            # nothing listed: as in a grain that never had any elements (a list emptied by assignment may stay)
            c.prove(not got.get(path[-1]), "nothing is kept")
            if op in ("delete", "delete slice", "pop", "clear"):
                c.prove(path[-1] not in got, "nothing is kept when the last element is gone")
            p.pop(path[-1], None)
            got = snap(g.meta)
            place(got["grain"]).pop(path[-1], None)
            same(c, got, want, "meta")
        else:
            p[path[-1]] = ref
            same(c, g.meta, want, "meta")
    return h


def elements(view):
    """Setting a property of an element changes that element in the metadata."""
    def h(c):
        import mediagrains.grains as R
        a = common(c)
        if view == "timelabels":
            g = R.GrainFactory(**a)
            rate = c.fraction("rate0", 1)
            g.add_timelabel(c.text("t0", 16), c.int("n0", 0, U32), rate, c.boolean("d0"))
            g.add_timelabel(c.text("t1", 16), c.int("n1", 0, U32), rate)
            want = snap(g.meta)
            tls = want["grain"]["timelabels"]
            c.prove(c.And(tls[0]["tag"] == c.text("t0", 16), tls[0]["timelabel"]["frames_since_midnight"] == c.int("n0", 0, U32),
                          tls[0]["timelabel"]["frame_rate_numerator"] == rate.numerator,
                          tls[0]["timelabel"]["frame_rate_denominator"] == rate.denominator,
                          tls[0]["timelabel"]["drop_frame"] == c.boolean("d0")), "added label")
            c.prove(tls[1]["timelabel"]["drop_frame"] == False, "no drop frame unless said so")  # noqa: E712
            x = g.timelabels[1]
            nr = c.fraction("rate1", 1)
            x.tag, x.count, x.rate, x.drop_frame = c.text("t2", 16), c.int("n2", 0, U32), nr, c.boolean("d2")
            tls[1] = {"tag": c.text("t2", 16), "timelabel": {
                "frames_since_midnight": c.int("n2", 0, U32), "frame_rate_numerator": nr.numerator,
                "frame_rate_denominator": nr.denominator, "drop_frame": c.boolean("d2")}}
            y = g.timelabels[1]
            c.prove(c.And(y.tag == c.text("t2", 16), y.count == c.int("n2", 0, U32), y.rate == nr,
                          y.drop_frame == c.boolean("d2")), "read back")
            try:
                x["other"] = 1
                c.fail("a label has a tag and a timelabel only")
            except KeyError:
                pass
            c.prove(len(x) == 2 and sorted(x) == ["tag", "timelabel"] and x["tag"] == y.tag, "a mapping")
        elif view == "components":
            g = R.VideoGrain(data=b"", **a)
            c0, c1 = component(c, "c0."), component(c, "c1.")
            g.components.append(dict(c0))
            g.components.append(dict(c1))
            want = snap(g.meta)
            new = component(c, "n.")
            x = g.components[1]
            for k in sorted(new):
                setattr(x, k, new[k])
                c.prove(getattr(g.components[1], k) == new[k], "read back " + k)
                c.prove(g.components[1][k] == new[k], "read as an item " + k)
                c.prove(getattr(g.components[0], k) == c0[k], "other element " + k)
            want["grain"]["cog_frame"]["components"][1] = new
            x["width"] = c.int("w", 0, U32)
            new["width"] = c.int("w", 0, U32)
            c.prove(g.components[1].width == c.int("w", 0, U32), "read back item")
            c.prove(len(x) == 5 and sorted(x) == sorted(new), "a mapping")
        c.cover("done")
        same(c, g.meta, want, "meta")
    return h


def equality(c):
    """Grains are equal to what has equal metadata and data."""
    import mediagrains.grains as R
    g, a, s, d = make(c, "audio")
    other = R.GrainFactory(copy.deepcopy(g.meta), d)
    c.prove(g == other, "equal grains")
    c.prove(not g != other, "equal grains are not different")
    c.prove(g == (g.meta, d), "equal to the pair")
    other.samples = g.samples + 1
    c.prove(g != other, "different metadata")
    c.prove(not g == other, "different metadata is not equal")
    z = R.GrainFactory(copy.deepcopy(g.meta), d + b"x")
    c.prove(g != z, "different data")
    c.cover("done")


def copies(kind, deep):
    """A copy is an equal grain of the same class; a deep copy shares nothing."""
    def h(c):
        g, a, s, d = make(c, kind)
        g.add_timelabel("label", 5, 25)
        want = snap(g.meta)
        k = (copy.deepcopy if deep else copy.copy)(g)
        c.cover("copied")
        c.prove(type(k) is type(g) and k is not g, "class")
        same(c, snap(k.meta), want, "copied meta")
        if d is not None:
            c.prove_bytes_eq(k.data, d, "copied data")
        if deep:
            k.timelabels[0].count = 6
            k.origin_timestamp = c.timestamp("t2")
            k.add_timelabel("other", 1, 25)
            if kind != "empty":
                m = k.meta["grain"][PART[kind]]
                for f in list(m):
                    del m[f]
            same(c, snap(g.meta), want, "meta of the original")
        else:
            k.meta["extra"] = 1
            c.prove("extra" not in g.meta, "a copy has its own metadata dictionary")
    return h


def data_setter(c):
    """Data can be replaced by other data, by nothing, or by something to wait for."""
    import mediagrains.grains as R
    a = common(c)
    g = R.GrainFactory({"grain": {"source_id": a["src_id"], "flow_id": a["flow_id"],
                                  "creation_timestamp": a["creation_timestamp"]}}, None)
    x, y = c.bytes("x", c.size("nx")), c.bytes("y", c.size("ny"))
    want = snap(g.meta)
    g.data = x
    c.prove_bytes_eq(g.data, x, "data")
    c.prove(g.length == c.blen(x) and g.expected_length == c.blen(x), "length")
    g.data = None
    c.prove(g.data is None and g.length == 0 and not g.has_data(), "no data")

    async def later():
        return y

    async def go():
        g.data = later()
        c.prove(g.data is None and not g.has_data(), "not there yet")
        n = c.int("announced", 0, U32)
        g.length = n
        c.prove(g.length == n, "announced length")
        async with g as inner:
            c.prove(inner is g, "the grain itself")
            c.prove_bytes_eq(g.data, y, "data waited for")
        c.prove_bytes_eq(await g, y, "waited for again")
        c.prove(g.length == c.blen(y) and g.has_data(), "length of data waited for")
        try:
            g.length = 1
        except AttributeError:
            c.cover("done")
            return
        c.fail("the length of data cannot be set")
    c.run_coro(go())
    same(c, snap(g.meta), want, "meta")


HARNESSES = []
for kind in KINDS:
    HARNESSES.append(Harness("construct[%s]" % kind, construct(kind), fns(kind, "__init__"), covers=("made",)))
    HARNESSES.append(Harness("factory[%s]" % kind, factory(kind), fns(kind, "__init__") + (
        "mediagrains.grains.GrainFactory:GrainFactory",), covers=("made",)))
    HARNESSES.append(Harness("completed[%s]" % kind, factory_partial(kind), fns(kind, "__init__"), covers=("made",)))
    for given in ((), ("origin_timestamp",), ("creation_timestamp",), ("creation_timestamp", "origin_timestamp"),
                  ("sync_timestamp",)):
        if kind in ("empty", "audio") or len(given) < 2:
            HARNESSES.append(Harness("defaults[%s,%s]" % (kind, "+".join(given)), defaults(kind, given),
                                     fns(kind, "__init__"), covers=("made",)))
    for i, (attr, _, _, stored) in enumerate(settings(kind)):
        if kind in ("empty", "video", "event") or i >= 9:
            HARNESSES.append(Harness("set[%s,%s%s]" % (kind, attr, "" if stored else "=None"), write(kind, i),
                                     fns(kind, attr), covers=("set",)))
    for deep in (False, True):
        HARNESSES.append(Harness("%scopy[%s]" % ("deep" if deep else "", kind), copies(kind, deep),
                                 ("mediagrains.grains.Grain:Grain.__%scopy__" % ("deep" if deep else ""),), covers=("copied",)))
HARNESSES.append(Harness("times", times, fns("empty", "origin_timestamp"), covers=("refused",)))
HARNESSES.append(Harness("equality", equality, fns("empty", "__eq__", "__ne__"), covers=("done",)))
HARNESSES.append(Harness("data", data_setter, fns("empty", "data", "length", "__await__", "__aenter__"), covers=("done",)))
for view in VIEWS:
    for n in (0, 2, 3):
        for op in OPS:
            if view == "components" and op.startswith("assign"):
                continue
            if view != "components" and not n and op.endswith("slice"):
                continue        # without any element a slice has nothing to say
            HARNESSES.append(Harness("%s[%d,%s]" % (view, n, op), listview(view, n, op), (TL + "__getitem__",),
                                     covers=("done",) if n else ()))
for view in ("timelabels", "components"):
    HARNESSES.append(Harness("elements[%s]" % view, elements(view), (TL + "__getitem__",), covers=("done",)))
