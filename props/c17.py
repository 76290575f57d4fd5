"""C17: comparing grains decides whether they match, attribute by attribute."""
from pyvc.prop import Harness
from .c09 import CLASS, U32, snap, same

MOD = "mediagrains.comparison._internal:"
KINDS = ("empty", "video", "coded_video", "audio", "coded_audio", "event")
ALWAYS = ["grain_type", "src_id", "flow_id", "rate", "duration", "length", "origin_timestamp", "sync_timestamp",
          "creation_timestamp", "timelabels"]
OWN = {"empty": ["data"], "video": ["cog_frame_format", "width", "height", "cog_frame_layout", "data"],
       "coded_video": ["cog_frame_format", "coded_width", "coded_height", "origin_width", "origin_height",
                       "is_key_frame", "temporal_offset", "cog_frame_layout", "unit_offsets", "data"],
       "audio": ["cog_audio_format", "samples", "channels", "sample_rate", "data"],
       "coded_audio": ["cog_audio_format", "samples", "channels", "sample_rate", "priming", "remainder", "data"],
       "event": ["event_type", "topic", "event_data"]}
OTHER_NAME = {"src_id": "source_id", "cog_frame_format": "format", "cog_audio_format": "format",
              "cog_frame_layout": "layout"}
STAMPS = ("origin_timestamp", "sync_timestamp", "creation_timestamp")


def fns(*names):
    return tuple(MOD + n for n in names) + ("mediagrains.comparison:compare_grain",)


# ------------------------------------------------------------------------------ contracts of the leaves
def eq_values(c):
    kind = c.choose("kind", ["int", "text", "uuid", "rate", "bool", "missing", "format"])
    if kind == "int":
        return c.int("a"), c.int("b")
    if kind == "text":
        return c.text("a", 40), c.text("b", 40)
    if kind == "uuid":
        return c.uuid("a"), c.uuid("b")
    if kind == "rate":
        return c.fraction("a"), c.fraction("b")
    if kind == "bool":
        return c.choose("a", [None, True, False]), c.choose("b", [None, True, False])
    if kind == "missing":
        return c.choose("swap", [(None, c.int("a")), (c.int("b"), None)])
    from mediagrains.cogenums import CogFrameFormat as F
    return c.choose("a", [F.v210, F.UNKNOWN]), c.choose("b", [F.v210, F.S16_422])


def verify_equality(c):
    from mediagrains.comparison._internal import EqualityComparisonResult as E
    a, b = eq_values(c)
    t = bool(E("{}.x", a, b, attr="x"))
    c.prove(t == (True if c.eq(a, b) else False), "matches exactly if equal")


def verify_difference(c):
    from mediagrains.comparison._internal import DifferenceComparisonResult as D, TimestampDifferenceComparisonResult as T
    if c.choose("kind", ["int", "timestamp"]) == "int":
        a, b = c.int("a"), c.int("b")
        t = bool(D("{}.x", a, b, attr="x"))
    else:
        a, b = c.timestamp("a"), c.timestamp("b")
        t = bool(T("{}.x", a, b, attr="x"))
    c.prove(t == (True if c.eq(a, b) else False), "matches exactly if equal")


def _expected(self):
    from mediagrains.comparison._internal import ComparisonExpectDifferenceMatches as M
    return any(isinstance(o, M) for o in self.ownoptions())


def stub_equality(self, a, b):
    from pyvc import core
    from pyvc.contracts import NotApplicable
    if _expected(self):
        return NotApplicable
    r = a == b
    return (r if isinstance(r, core.SBool) else bool(r), "<sym>", [])


def stub_difference(self, a, b):
    from mediagrains.comparison._internal import TimestampDifferenceComparisonResult as T
    from pyvc.contracts import NotApplicable
    z = self._expected_difference
    if _expected(self) or not (isinstance(self, T) or type(z) is int and z == 0):
        return NotApplicable
    return stub_equality(self, a, b)


CONTRACTS = []


def prepare():
    from pyvc.contracts import Contract
    CONTRACTS[:] = [Contract(MOD + "EqualityComparisonResult.compare", verify_equality, stub_equality),
                    Contract(MOD + "DifferenceComparisonResult.compare", verify_difference, stub_difference)]


# ------------------------------------------------------------------------------ grains to compare
def values(c, kind, p, choices):
    from mediagrains.cogenums import CogFrameFormat as F, CogFrameLayout as L, CogAudioFormat as A
    n = lambda k: c.int(p + k, 0, U32)        # noqa: E731
    v = dict(src_id=c.uuid(p + "src"), flow_id=c.uuid(p + "flow"), origin_timestamp=c.timestamp(p + "origin"),
             sync_timestamp=c.timestamp(p + "sync"), creation_timestamp=c.timestamp(p + "creation"),
             rate=c.fraction(p + "rate"), duration=c.fraction(p + "duration"))
    pick = lambda k, xs: xs[choices.get(k, 0)]        # noqa: E731
    if "video" in kind:
        v["cog_frame_layout"] = pick("cog_frame_layout", [L.FULL_FRAME, L.SINGLE_FIELD])
    if kind == "video":
        v.update(cog_frame_format=pick("cog_frame_format", [F.S16_422_10BIT, F.U8_444]),
                 width=c.int(p + "width", 1, 1 << 20), height=c.int(p + "height", 1, 1 << 20))
    elif kind == "coded_video":
        v.update(cog_frame_format=pick("cog_frame_format", [F.H264, F.VC2]), coded_width=n("cw"), coded_height=n("ch"),
                 origin_width=n("ow"), origin_height=n("oh"), is_key_frame=pick("is_key_frame", [False, None, True]),
                 temporal_offset=pick("temporal_offset", [c.int(p + "temporal", -(1 << 31), (1 << 31) - 1), None]),
                 unit_offsets=[n("u0"), n("u1"), n("u2")][:pick("unit_offsets", [2, 3, 0, 1])])
    elif kind in ("audio", "coded_audio"):
        v.update(cog_audio_format=pick("cog_audio_format", [A.S16_PLANES, A.S32_PAIRS] if kind == "audio" else [A.AAC, A.OPUS]),
                 samples=n("samples"), channels=n("channels"), sample_rate=n("sample_rate"))
        if kind == "coded_audio":
            v.update(priming=n("priming"), remainder=n("remainder"))
    elif kind == "event":
        v.update(event_type=c.text(p + "etype", 40), topic=c.text(p + "topic", 40))
    if kind != "event":
        v["data"] = None if kind == "empty" else c.bytes(p + "data", c.size(p + "dlen"))
    return v


def alike(c, p, v, w):
    """In random runs most values of the other grain are the same."""
    return dict((k, c.alike(p + k, v[k], w[k])) for k in v)


def build(kind, v):
    import mediagrains.grains as R
    v = dict(v)
    if kind == "empty":
        del v["data"]
        return R.GrainFactory(**v)
    if v.get("unit_offsets") is not None:
        v["unit_offsets"] = list(v["unit_offsets"])
    return getattr(R, CLASS[kind])(**v)


VARY = {"video": ["cog_frame_format", "cog_frame_layout"],
        "coded_video": ["cog_frame_format", "cog_frame_layout", "is_key_frame", "is_key_frame2", "temporal_offset", "unit_offsets",
                        "unit_offsets2", "unit_offsets3"],
        "audio": ["cog_audio_format"], "coded_audio": ["cog_audio_format"]}


def two(c, kind, vary=True):
    """The values of two grains: numbers, times, names and data are independent; of the attributes that are taken
    from a list at most one differs."""
    x = c.choose("vary", [None] + VARY.get(kind, [])) if vary is True else vary
    ch = {}
    if x is not None:
        ch = {"unit_offsets": {"unit_offsets": 1}, "unit_offsets2": {"unit_offsets": 2},
              "unit_offsets3": {"unit_offsets": 3}, "is_key_frame2": {"is_key_frame": 2}}.get(x, {x: 1})
    v = values(c, kind, "a.", {})
    w = values(c, kind, "b.", ch)
    return v, alike(c, "b.", v, w) if x is None else w


def only(c, kind, v, w, k):
    """Of the values of the other grain, this attribute and three others."""
    ks = [x for x in attrs_of(kind, ()) if x in v]
    i = ks.index(k) if k in ks else 0
    take = set(ks[(i + d) % len(ks)] for d in (0, 1, 4)) | {"sync_timestamp"}
    return dict((x, w[x] if x in take else v[x]) for x in v)


def agree(c, v, w, attrs):
    """The attributes all have equal values."""
    return c.And(*[value_eq(c, v[k], w[k]) for k in attrs if k in v] or [True])


def value_eq(c, x, y):
    if x is None or y is None:
        return x is y
    if isinstance(x, list):
        return len(x) == len(y) and c.And(*[c.eq(i, j) for i, j in zip(x, y)] or [True])
    return c.eq(x, y)


def iff(c, r, want, name):
    if r:
        c.prove(want, name + " (only if)")
    else:
        c.prove(c.Not(want), name + " (if)")


def attrs_of(kind, but=("creation_timestamp",)):
    return [k for k in ALWAYS + OWN[kind] if k not in but]


# ------------------------------------------------------------------------------ the verdict
def verdict(kind):
    def h(c):
        from mediagrains.comparison import compare_grain
        v, w = two(c, kind)
        a, b = build(kind, v), build(kind, w)
        m, n = snap(a.meta), snap(b.meta)
        r = compare_grain(a, b)
        iff(c, bool(r), agree(c, v, w, attrs_of(kind)), "grains match exactly if every attribute but creation_timestamp is equal")
        c.prove(r.a is a and r.b is b, "a and b")
        same(c, snap(a.meta), m, "first grain not changed")
        same(c, snap(b.meta), n, "second grain not changed")
        if r:
            c.cover("matching")
        else:
            c.cover("different")
    return h


def child(kind):
    def h(c):
        from mediagrains.comparison import compare_grain
        k = c.choose("attr", ALWAYS + OWN[kind])
        v, w = two(c, kind, k if k in VARY.get(kind, []) and c.choose("other", [False, True]) else None)
        w = only(c, kind, v, w, k)
        a, b = build(kind, v), build(kind, w)
        r = compare_grain(a, b)
        x = getattr(r, k)
        c.prove(x.attr == k and any(y is x for y in r.children), "a child for each attribute")
        c.prove(x.identifier == "{}." + k, "identifier")
        c.prove(x.excluded() == (k == "creation_timestamp"), "excluded")
        if k in v and not (k == "data" and "cog_frame_format" in v and v["cog_frame_format"] != w["cog_frame_format"]):
            iff(c, bool(x), value_eq(c, v[k], w[k]), "child matches exactly if the attribute is equal")
        elif k == "length" and kind not in ("empty", "event"):
            iff(c, bool(x), c.eq(c.len(v["data"]), c.len(w["data"])), "child matches exactly if the lengths are equal")
        elif k in ("grain_type", "timelabels", "event_data"):
            c.prove(bool(x), k)
        if x:
            c.cover("equal")
        try:
            r.no_such_attribute
            c.prove(False, "unknown attribute")
        except AttributeError:
            c.cover("unknown attribute")
    return h


def failing(kind):
    def h(c):
        from mediagrains.comparison import compare_grain
        ks = [k for k in ALWAYS + OWN[kind] if k not in ("grain_type", "length", "timelabels", "event_data")]
        if kind == "empty":
            ks.remove("data")
        i = c.choose("first", range(len(ks)))
        k, k2 = ks[i], ks[(i + c.choose("step", [1, 3])) % len(ks)]
        v = values(c, kind, "a.", {})
        ch = dict((x, 1) for x in (k, k2))
        w0 = values(c, kind, "b.", ch)
        w = dict(v)
        w[k], w[k2] = c.alike("b." + k, v[k], w0[k]), c.alike("b." + k2, v[k2], w0[k2])
        r = compare_grain(build(kind, v), build(kind, w))
        got = list(r.failing_attributes())
        want = [x for x in ALWAYS + OWN[kind] if x in (k, k2) and not (True if value_eq(c, v[x], w[x]) else False)]
        if kind in ("video", "coded_video", "audio", "coded_audio"):
            f = "cog_audio_format" if "audio" in kind else "cog_frame_format"
            if f in want and "data" not in want:
                want.append("data")         # data of different formats is not compared
            if "data" in want and not (True if c.eq(c.len(v["data"]), c.len(w["data"])) else False):
                want.insert(want.index("origin_timestamp") if "origin_timestamp" in want else 0, "length")
                want.sort(key=(ALWAYS + OWN[kind]).index)
        if kind == "event" and set(want) & {"event_type", "topic"}:
            got = [x for x in got if x != "length"]
        c.prove(got == want, "failing attributes", "%r, not %r" % (got, want))
        c.cover("same" if not want else "failing")
    return h


# ------------------------------------------------------------------------------ options
def exclude(kind):
    def h(c):
        from mediagrains.comparison import compare_grain
        from mediagrains.comparison.options import Exclude, CompareOnlyMetadata
        ks = attrs_of(kind)
        k = c.choose("attr", ks)
        name = OTHER_NAME[k] if k in OTHER_NAME and c.choose("other name", [False, True]) else k
        option = getattr(Exclude, name)
        if k == "data" and c.choose("metadata only", [False, True]):
            option = CompareOnlyMetadata
        v, w = two(c, kind, None)
        w = only(c, kind, v, w, k)
        if k == "cog_frame_layout":
            w[k] = values(c, kind, "b.", {k: 1})[k]
        a, b = build(kind, v), build(kind, w)
        r = compare_grain(a, b, option)
        rest = [x for x in ks if x != k]
        want = agree(c, v, w, rest)
        if kind not in ("event", "empty") and k == "data":
            want = c.And(want, c.eq(c.len(v["data"]), c.len(w["data"])))
        iff(c, bool(r), want, "an excluded attribute does not matter")
        c.prove(getattr(r, k).excluded(), "excluded child")
        c.prove(all(not x.excluded() for x in r.children if x.attr not in (k, "creation_timestamp")
                    and not (kind == "event" and x.attr == "length")), "no other is excluded")
        if r:
            c.cover("matching")
    return h


def include(kind):
    def h(c):
        from mediagrains.comparison import compare_grain
        from mediagrains.comparison.options import Include
        v, w = two(c, kind, None)
        r = compare_grain(build(kind, v), build(kind, w), Include.creation_timestamp)
        iff(c, bool(r), agree(c, v, w, attrs_of(kind, ())), "creation_timestamp counts when included")
        c.prove(not r.creation_timestamp.excluded(), "not excluded")
        if r:
            c.cover("matching")
    return h


OPS = {"==": lambda x, y: x == y, "!=": lambda x, y: x != y, "<": lambda x, y: x < y, "<=": lambda x, y: x <= y,
       ">": lambda x, y: x > y, ">=": lambda x, y: x >= y}


def expected(kind, attrs):
    def h(c):
        from mediagrains.comparison import compare_grain
        from mediagrains.comparison.options import ExpectedDifference, Include
        k = c.choose("attr", attrs)
        op = OPS[c.choose("op", sorted(OPS))]
        v = values(c, kind, "a.", {})
        w = dict(v)
        w[k] = values(c, kind, "b.", {})[k]
        other = c.choose("also differs", [None, "flow_id"])
        if other:
            w[other] = c.alike("other", v[other], c.uuid("other"))
        if k in STAMPS:
            d = c.timestamp("threshold")
        else:
            d = c.int("threshold", -U32, U32)
        diff = v[k] - w[k]
        a, b = build(kind, v), build(kind, w)
        opts = [op(getattr(ExpectedDifference, k), d)]
        if k == "creation_timestamp":
            opts.append(Include.creation_timestamp)
        if c.choose("second", [False, True]) and k not in STAMPS:
            d2 = c.int("second threshold", -U32, U32)
            opts.append(getattr(ExpectedDifference, k) >= d2)
            want = c.And(op(diff, d), diff >= d2)
        else:
            want = op(diff, d)
        r = compare_grain(a, b, *opts)
        iff(c, bool(getattr(r, k)), want, "child matches exactly if the difference is as expected")
        iff(c, bool(r), c.And(want, agree(c, v, w, [x for x in attrs_of(kind) if x != k])),
            "grains match exactly if the difference is as expected and the rest is equal")
        if r:
            c.cover("matching")
    return h


def other_types(k1):
    def h(c):
        from mediagrains.comparison import compare_grain
        k2 = c.choose("type", [k for k in KINDS if k != k1])
        v, w = values(c, k1, "a.", {}), values(c, k2, "b.", {})
        for k in ALWAYS:
            if k in w:
                w[k] = c.alike("b." + k, v[k], w[k])
        r = compare_grain(build(k1, v), build(k2, w))
        c.prove(not bool(r), "grains of different types do not match")
        c.prove(not bool(r.grain_type), "grain_type")
        c.cover("compared")
    return h


# ------------------------------------------------------------------------------ data of every format
def data_formats(kind):
    def h(c):
        from mediagrains.comparison import compare_grain
        import mediagrains.cogenums as E
        k = "cog_audio_format" if "audio" in kind else "cog_frame_format"
        fmts = sorted(E.CogAudioFormat if "audio" in kind else E.CogFrameFormat, key=int)
        if c.symbolic:
            f = c.choose("format", fmts)
        else:
            f = c.choose("format", fmts)
        v = values(c, kind, "a.", {})
        v[k] = f
        w = dict(v)
        if c.choose("some without data", [False, True] if c.symbolic else [False, True] + [False] * 6):
            a, b = build(kind, v), build(kind, w)
            which = c.choose("without data", ["a", "b", "ab"])
            if "a" in which:
                a.data = None
            if "b" in which:
                b.data = None
        else:
            w["data"] = c.alike("b.data", v["data"], c.bytes("b.data", c.size("b.dlen")))
            a, b = build(kind, v), build(kind, w)
        r = compare_grain(a, b)
        floating = "FLOAT" in f.name or "DOUBLE" in f.name
        if a.data is None or b.data is None:
            iff(c, bool(r), a.data is None and b.data is None, "no data matches only no data")
        elif not floating:
            iff(c, bool(r.data), c.eq(v["data"], w["data"]), "data matches exactly if it is the same")
            iff(c, bool(r), c.eq(v["data"], w["data"]), "grains match exactly if their data is the same")
        elif c.symbolic:
            if r.data:
                c.prove(c.eq(c.len(v["data"]), c.len(w["data"])), "matching data has the same length")
            else:
                c.prove(c.Not(c.eq(v["data"], w["data"])), "the same data matches")
        else:
            import struct
            code, x, y = "d" if "DOUBLE" in f.name else "f", v["data"], w["data"]
            n = struct.calcsize(code)
            eq = x == y or len(x) == len(y) and len(x) % n == 0 and \
                struct.unpack("=%d%s" % (len(x) // n, code), x) == struct.unpack("=%d%s" % (len(y) // n, code), y)
            c.prove(bool(r.data) == eq, "floating point data matches exactly if its values are equal, or its bytes")
        if r:
            c.cover("matching")
        else:
            c.cover("different")
    return h


# ------------------------------------------------------------------------------ lists
def timelabels(c):
    from mediagrains.comparison import compare_grain
    from mediagrains.grains import GrainFactory
    v = values(c, "empty", "a.", {})
    a, b = build("empty", v), build("empty", v)
    assert GrainFactory
    na, nb = c.choose("first has", [0, 1, 2]), c.choose("second has", [0, 1, 2])
    la = [(c.text("ta%d" % i, 16), c.int("ca%d" % i, 0, U32), c.fraction("ra%d" % i, 1, U32), c.choose("da%d" % i, [False, True]))
          for i in range(na)]
    lb = []
    for i in range(nb):
        t = (c.text("tb%d" % i, 16), c.int("cb%d" % i, 0, U32), c.fraction("rb%d" % i, 1, U32), c.choose("db%d" % i, [False, True])
             if not c.symbolic or i == 0 else la[i][3] if i < na else False)
        lb.append(tuple(c.alike("b%d.%d" % (i, j), la[i][j], t[j]) for j in range(4)) if i < na else t)
    for t in la:
        a.add_timelabel(*t)
    for t in lb:
        b.add_timelabel(*t)
    r = compare_grain(a, b)
    eq = c.And(*[c.And(*[c.eq(x, y) for x, y in zip(s, t)]) for s, t in zip(la, lb)] or [True]) if na == nb else False
    iff(c, bool(r.timelabels), eq, "time labels match exactly if there are as many, with equal contents")
    iff(c, bool(r), eq, "grains match exactly if their time labels do")
    t = [x for x in r.timelabels.children if x.key is not None]
    c.prove([x.key for x in t] == list(range(max(na, nb))), "a child for each time label")
    if r:
        c.cover("matching")
    else:
        c.cover("different")


def event_data(c):
    from mediagrains.comparison import compare_grain
    v = values(c, "event", "a.", {})
    a, b = build("event", v), build("event", v)
    na, nb = c.choose("first has", [0, 1, 2]), c.choose("second has", [0, 1, 2])
    shape = [(0, 0), (1, 0), (0, 1), (1, 1)]

    def items(p, n):
        out = []
        for i in range(n):
            x = dict(path=c.text("%spath%d" % (p, i), 16))
            s = c.choose("%sshape%d" % (p, i), shape) if i == 0 else (1, 0)
            if s[0]:
                x["pre"] = c.text("%spre%d" % (p, i), 16)
            if s[1]:
                x["post"] = c.text("%spost%d" % (p, i), 16)
            out.append(x)
        return out
    la, lb = items("a", na), items("b", nb)
    for i in range(min(na, nb)):
        for k in lb[i]:
            if k in la[i]:
                lb[i][k] = c.alike("b%d.%s" % (i, k), la[i][k], lb[i][k])
    for t in la:
        a.append(**t)
    for t in lb:
        b.append(**t)
    r = compare_grain(a, b)
    eq = False
    if na == nb and all(sorted(x) == sorted(y) for x, y in zip(la, lb)):
        eq = c.And(*[c.And(*[c.eq(x[k], y[k]) for k in x]) for x, y in zip(la, lb)] or [True])
    iff(c, bool(r.event_data), eq, "event data matches exactly if there is as much, with equal contents")
    iff(c, bool(r), eq, "grains match exactly if their event data does")
    if r:
        c.cover("matching")
    else:
        c.cover("different")


# ------------------------------------------------------------------------------ pairwise
class Source(object):
    """An iterator over grains that counts what is taken."""

    def __init__(self, grains):
        self.grains, self.taken = grains, 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.taken >= len(self.grains):
            self.taken += 1
            raise StopIteration
        self.taken += 1
        return self.grains[self.taken - 1]


def pairwise(c):
    from mediagrains.comparison import compare_grains_pairwise
    from mediagrains.comparison.options import Exclude
    na, nb = c.choose("first has", [0, 1, 2, 3]), c.choose("second has", [0, 1, 2, 3])
    last = c.choose("last only", [False, True])
    excl = c.choose("exclude", [False, True])
    v = values(c, "empty", "a.", {})
    la, lb = [], []
    for i in range(na):
        la.append(dict(v, sync_timestamp=c.timestamp("a%d" % i)))
    for i in range(nb):
        t = c.timestamp("b%d" % i)
        lb.append(dict(v, sync_timestamp=c.alike("b%d" % i, la[i]["sync_timestamp"], t) if i < na else t))
    sa, sb = Source([build("empty", x) for x in la]), Source([build("empty", x) for x in lb])
    as_list = c.choose("lists", [False, True])
    r = compare_grains_pairwise(sa.grains if as_list else sa, sb.grains if as_list else sb,
                                *([Exclude.sync_timestamp] if excl else []), return_last_only=last)
    n = 0               # grains that match, from the first on
    while n < na and n < nb and (excl or (True if c.eq(la[n]["sync_timestamp"], lb[n]["sync_timestamp"]) else False)):
        n += 1
    ok = n == na and n == nb
    c.prove(bool(r) == ok, "matches exactly if there are as many, and each matches")
    mismatch = n < na and n < nb
    keys = list(range(n + 1 if mismatch else n))
    pairs = [x for x in r.children if x.a is not None and x.b is not None]
    if last:
        c.prove([x.key for x in pairs] == keys[-1:], "only the last comparison is kept")
    else:
        c.prove([x.key for x in pairs] == keys, "a child for each comparison, up to the first mismatch")
    c.prove(all(x.a is sa.grains[x.key] and x.b is sb.grains[x.key] for x in pairs), "the grains compared")
    if pairs:
        c.prove(bool(pairs[-1]) == (not mismatch) and all(bool(x) for x in pairs[:-1]), "the last one fails")
    if mismatch and not as_list:
        c.prove(sa.taken == n + 1 and sb.taken == n + 1, "nothing is taken after the first mismatch")
    if ok or mismatch:
        c.prove(len(r) == len(keys), "number of comparisons")
    c.cover("matching" if ok else "mismatch" if mismatch else "more of one")


def pairwise_alone(kind):
    """Each pair is compared as it would be on its own."""
    def h(c):
        from mediagrains.comparison import compare_grains_pairwise, compare_grain
        from mediagrains.comparison.options import Exclude
        k = "cog_audio_format" if "audio" in kind else "cog_frame_format"
        v = values(c, kind, "a.", {})
        la, lb = [], []
        opts = [[], [Exclude.format], [getattr(Exclude, k), Exclude.flow_id]][c.choose("options", [0, 1, 2])]
        for i in range(2):
            w = values(c, kind, "b%d." % i, {})
            u = values(c, kind, "b%d.." % i, {k: 1})
            x = dict(v)
            x["data"] = c.alike("b%d.data" % i, v["data"], w["data"])
            if c.choose("format%d" % i, [False, True]):
                x[k] = u[k]
            la.append(build(kind, v))
            lb.append(build(kind, x))
        r = compare_grains_pairwise(la, lb, *opts)
        alone = [bool(compare_grain(x, y, *opts)) for x, y in zip(la, lb)]
        c.prove(bool(r) == all(alone), "pairs match as they do alone")
        c.cover("matching" if r else "different")
    return h


# ------------------------------------------------------------------------------ what is told (bounded)
SAMPLE = {"S8_": (1, False), "S16": (2, True), "S24": (3, True), "S32": (4, True)}


def messages(kind):
    def h(c):
        import re
        import sys
        from mediagrains.comparison import compare_grain
        import mediagrains.cogenums as E
        v = values(c, kind, "a.", {})
        w = alike(c, "b.", v, values(c, kind, "b.", {}))
        if kind != "empty" and kind != "event":
            k = "cog_audio_format" if "audio" in kind else "cog_frame_format"
            v[k] = w[k] = c.choose("format", sorted(E.CogAudioFormat if "audio" in kind else E.CogFrameFormat, key=int))
        a, b = build(kind, v), build(kind, w)
        r = compare_grain(a, b)
        for x in r.children:
            c.prove(isinstance(str(x), str) and isinstance(repr(x), str) and isinstance(x.msg, str), "text of " + x.attr)
        text = str(r)
        c.prove(isinstance(text, str) and isinstance(repr(r), str), "text")
        for x in r.children:
            mark = "\u25EF" if x.excluded() else "\u2705" if x else "\u274c"
            c.prove("\n  %s   %s" % (mark, x._msg) in text, "each attribute is listed with its outcome", text)
        bad = [x for x in r.children if not x and not x.excluded()]
        c.prove(all("(" + x.msg + ")" in r.msg for x in bad), "the message names what fails", r.msg)
        if "audio" in kind and r.data.a is not None and SAMPLE.get(v[k].name[:3]):
            size, signed = SAMPLE[v[k].name[:3]]
            size = 4 if v[k].name == "S24_PLANES" else size
            if len(v["data"]) % size == 0 and len(w["data"]) % size == 0 and kind == "audio":
                for x, d in ((r.data.a, v["data"]), (r.data.b, w["data"])):
                    c.prove(list(x) == [int.from_bytes(d[i:i + size], sys.byteorder, signed=signed) for i in range(0, len(d), size)],
                            "the values compared are the samples", "%r %r" % (x, d))
                c.cover("samples")
        if kind not in ("empty", "event"):
            m = re.search(r"first different values are \{?.*?\[(\d+)\] == (.*?) and .*?\[(\d+)\] == (.*)$", r.data.msg)
            if m:
                i, x, j, y = int(m.group(1)), m.group(2), int(m.group(3)), m.group(4)
                xs, ys = r.data.a, r.data.b
                c.prove(i == j and str(xs[i]) == x and str(ys[i]) == y and xs[i] != ys[i] and
                        all(p == q for p, q in zip(xs[:i], ys[:i])), "the first values that differ", r.data.msg)
                c.cover("first difference")
            elif not r.data and "extra values" in r.data.msg:
                m = re.search(r"has (\d+) extra values, starting with .*?\[(\d+)\] = (.*)$", r.data.msg)
                xs, ys = r.data.a, r.data.b
                lo, hi = (xs, ys) if len(xs) < len(ys) else (ys, xs)
                c.prove(m is not None and int(m.group(1)) == len(hi) - len(lo) and int(m.group(2)) == len(lo)
                        and str(hi[len(lo)]) == m.group(3), "the extra values", r.data.msg)
                c.cover("extra values")
    return h


def psnr(kind):
    def h(c):
        from mediagrains.comparison import compare_grain, compute_psnr
        from mediagrains.comparison.options import PSNR, Exclude
        import mediagrains.cogenums as E
        import mediagrains.grains as R
        v = values(c, kind, "a.", {})
        del v["data"]
        if kind == "video":
            v.update(width=c.choose("w", [2, 6, 8]), height=c.choose("h", [2, 4]), cog_frame_format=c.choose(
                "format", [E.CogFrameFormat.U8_444, E.CogFrameFormat.U8_420, E.CogFrameFormat.S16_422_10BIT, E.CogFrameFormat.S32_444, E.CogFrameFormat.VC2]))
        else:
            v.update(samples=c.choose("n", [1, 4]), channels=c.choose("ch", [1, 2, 3]), cog_audio_format=c.choose(
                "format", [E.CogAudioFormat.S16_PLANES, E.CogAudioFormat.S16_INTERLEAVED, E.CogAudioFormat.S32_INTERLEAVED, E.CogAudioFormat.S24_INTERLEAVED, E.CogAudioFormat.AAC]))
        w = dict(v)
        fault = c.choose("fault", [None, None, None, "size", "flow"])
        if fault == "size":
            w["height" if kind == "video" else "samples"] += 2
        elif fault == "flow":
            w["flow_id"] = c.uuid("other flow")
        a, b = getattr(R, CLASS[kind])(**v), getattr(R, CLASS[kind])(**w)
        if a.length:
            a.data[:] = c.bytes("a.bytes", a.length)
        if b.length:
            b.data[:] = c.alike("same", (bytes(a.data) + bytes(b.length))[:b.length], c.bytes("b.bytes", b.length))
        op = c.choose("op", ["<", "<=", ">", ">="])
        lim = [c.choose("limit%d" % i, [None, 0, 5, 10, 20, float("inf")]) for i in range(3)]
        opts = [OPS[op](PSNR.data, lim)]
        if c.choose("exclude", [False, False, False, True]):
            opts.append(Exclude.data)
        r = compare_grain(a, b, *opts)
        try:
            p = compute_psnr(a, b)
            want = all(y is None or OPS[op](x, y) for x, y in zip(p, lim))
            c.cover("computed")
        except (AttributeError, NotImplementedError):
            want = False
            c.cover("cannot be computed")
        if len(opts) == 2:
            c.prove(not bool(r.data) and r.data.excluded(), "excluded data is not compared")
            want = True
        else:
            c.prove(bool(r.data) == want, "data matches exactly if the PSNR is as required", r.data.msg)
        c.prove(r.data.attr == "data" and (want or len(opts) == 2 or "data" in r.failing_attributes()), "attribute")
        c.prove(bool(r) == bool(want and all(c.eq(v[k], w[k]) for k in v) and a.length == b.length), "grains match exactly if the rest is equal, too")
        c.prove(isinstance(str(r), str) and isinstance(r.msg, str), "text")
    return h


LEAF = ("ComparisonResult.__init__", "ComparisonResult.__bool__", "ComparisonResult.excluded", "ComparisonResult.ownoptions")
G = "GrainComparisonResult.compare"
HARNESSES = []
for _k in KINDS:
    own = (G,) + ((G + "_%s_grains" % _k,) if _k != "empty" else ()) + LEAF
    HARNESSES += [
        Harness("verdict %s" % _k, verdict(_k), functions=fns(*own), covers=("matching", "different"), max_time=150),
        Harness("attribute %s" % _k, child(_k), functions=fns("ComparisonResult.__getattr__", "ComparisonResult.subcomparison_for_attribute", *own),
                covers=("equal", "unknown attribute"), max_time=150),
        Harness("failing attributes %s" % _k, failing(_k), functions=fns("ComparisonResult.failing_attributes", *own),
                covers=("same", "failing"), max_time=150),
        Harness("exclude %s" % _k, exclude(_k), functions=fns(*own) + ("mediagrains.comparison.options:_Exclude.__getattr__",),
                covers=("matching",), max_time=150),
        Harness("include %s" % _k, include(_k), functions=fns(*own) + ("mediagrains.comparison.options:_Include.__getattr__",),
                covers=("matching",), max_time=150),
        Harness("other type than %s" % _k, other_types(_k), functions=fns(G, "FailingComparisonResult.compare"), covers=("compared",), max_time=150),
        Harness("messages %s" % _k, messages(_k), functions=fns("ComparisonResult._str", "ComparisonResult.msg", "ComparisonResult.__repr__"), mode="bounded"),
    ]
for _k, _a in (("empty", ("origin_timestamp", "sync_timestamp", "creation_timestamp")), ("video", ("width", "height")),
               ("coded_video", ("temporal_offset", "coded_width")), ("audio", ("samples", "channels")), ("coded_audio", ("priming", "sample_rate"))):
    HARNESSES.append(Harness("expected difference %s" % _k, expected(_k, _a), functions=fns("DifferenceComparisonResult.compare", "EqualityComparisonResult.compare", G),
                             covers=("matching",), max_time=150))
for _k in ("video", "coded_video", "audio", "coded_audio"):
    HARNESSES.append(Harness("data %s" % _k, data_formats(_k), functions=fns("DataEqualityComparisonResult.__init__", "DataEqualityComparisonResult.compare", G + "_%s_grains" % _k),
                             covers=("matching", "different"), max_time=200))
HARNESSES += [
    Harness("time labels", timelabels, functions=fns("OrderedContainerComparisonResult.compare", "MappingContainerComparisonResult.compare"), covers=("matching", "different"), max_time=150),
    Harness("event data", event_data, functions=fns("OrderedContainerComparisonResult.compare", "MappingContainerComparisonResult.compare"), covers=("matching", "different"), max_time=150),
    Harness("pairwise", pairwise, functions=fns("GrainIteratorComparisonResult.compare", "GrainIteratorComparisonResult.__len__") + ("mediagrains.comparison:compare_grains_pairwise",),
            covers=("matching", "mismatch", "more of one"), max_time=150),
]
for _k in ("video", "audio"):
    HARNESSES.append(Harness("PSNR %s" % _k, psnr(_k), functions=fns("PSNRComparisonResult.compare") + ("mediagrains.comparison.options:_PSNR.__lt__", "mediagrains.comparison.options:_PSNR.__le__",
                             "mediagrains.comparison.options:_PSNR.__gt__", "mediagrains.comparison.options:_PSNR.__ge__"), mode="bounded", covers=("computed", "cannot be computed")))
for _k in ("video", "coded_video", "audio", "coded_audio"):
    HARNESSES.append(Harness("pairwise %s" % _k, pairwise_alone(_k), functions=fns("GrainIteratorComparisonResult.compare", G) +
                             ("mediagrains.comparison:compare_grains_pairwise",), covers=("matching", "different"), max_time=150))
