"""C19: an event grain's data is the JSON text of its type, topic and events."""
from pyvc.prop import Harness
from spec import gsf as S
from .c09 import CLASS, base_meta, common, same, snap
from .common import GRAIN

CONTRACTS = []
E = GRAIN["event"] + "."
SHAPES = [("path",), ("path", "pre"), ("path", "post"), ("path", "pre", "post")]


def datum(c, p, shape=None, null=False):
    """One event; with null, the value after its path may be an explicit null (which is not a missing one)."""
    shape = shape or c.choose(p + "shape", SHAPES)
    d = {"path": c.text(p + "path", 60)}
    for k in shape[1:]:
        d[k] = None if null and k == shape[-1] and c.choose(p + "null", [False, True]) else c.json_value(p + k)
    return d


def data(c, n, p="", null=False):
    return [datum(c, "%sd%d." % (p, i), null=null) for i in range(n)]


def grain(c, etype, topic, events, **kw):
    """An event grain made by appending events."""
    import mediagrains.grains as R
    a = common(c)
    g = R.EventGrain(event_type=etype, topic=topic, **dict(a, **kw))
    for d in events:
        g.append(d["path"], d.get("pre"), d.get("post")) if "post" in d else (
            g.append(d["path"], pre=d["pre"]) if "pre" in d else g.append(d["path"]))
    return g, a


def text(c):
    return c.text("etype", 60), c.text("topic", 60)


def shows(c, g, etype, topic, events, name=""):
    """All views of the event show the same thing."""
    P = c.prove
    P(g.event_type == etype, name + "event_type")
    P(g.topic == topic, name + "topic")
    P(len(g.event_data) == len(events), name + "number of events")
    for x, d in zip(g.event_data, events):
        P(x.path == d["path"], name + "path")
        for k in ("pre", "post"):
            P((getattr(x, k) == d[k]) if d.get(k) is not None else (getattr(x, k) is None), name + k)
            P((k in x) == (k in d), name + "presence of " + k)
        P(len(x) == len(d) and sorted(x) == sorted(d), name + "an event is a mapping")
        P(x == d, name + "equal to the plain mapping")
    tree = c.json_loads(g.data)
    want = {"type": etype, "topic": topic, "data": events}
    tree_eq(c, tree, want, name + "data")
    P(g.length == c.blen(g.data), name + "length")
    tree_eq(c, g.meta["grain"]["event_payload"], want, name + "meta")


def tree_eq(c, got, want, name):
    if isinstance(want, dict):
        c.prove(isinstance(got, dict) and sorted(got) == sorted(want), name + ": keys")
        for k in want:
            tree_eq(c, got[k], want[k], "%s.%s" % (name, k))
    elif isinstance(want, list):
        c.prove(isinstance(got, (list, tuple)) and len(got) == len(want), name + ": length")
        for x, y in zip(got, want):
            tree_eq(c, x, y, name + "[]")
    elif want is None or got is None:
        c.prove(got is want, name)
    else:
        c.prove(got == want, name)


def plain(c, want):
    return dict((k, list(v) if isinstance(v, list) else v) for k, v in want.items())


def written(n):
    """Appended events are shown, and kept, and encoded."""
    def h(c):
        etype, topic = text(c)
        ev = data(c, n)
        g, a = grain(c, etype, topic, ev)
        c.cover("made")
        shows(c, g, etype, topic, ev)
        c.prove(g.data is not None and g.has_data(), "an event grain has data")
        c.prove_bytes_eq(c.to_bytes(g), g.data, "bytes of the grain")

        async def wait():
            return await g
        c.prove_bytes_eq(c.run_coro(wait()), g.data, "data waited for")
        want = {"@_ns": "urn:x-ipstudio:ns:0.1", "grain": base_meta(c, "event", a)}
        want["grain"]["event_payload"] = {"type": etype, "topic": topic, "data": ev}
        c.prove(sorted(g.meta["grain"]) == sorted(want["grain"]), "meta keys")
        for k in ("source_id", "flow_id", "origin_timestamp", "sync_timestamp", "creation_timestamp", "grain_type"):
            c.prove(g.meta["grain"][k] == want["grain"][k], "rest of the metadata")
    return h


def payload(c, etype, topic, ev, extra):
    p = {"type": etype, "topic": topic, "data": ev}
    if extra:
        p = dict([("comment", c.json_value("comment"))] + sorted(p.items()), last=1)
    return c.json_dumps(p)


def read(n, how):
    """JSON text makes the grain it describes, however it arrives."""
    def h(c):
        import mediagrains.grains as R
        etype, topic = text(c)
        ev = data(c, n, null=True)
        s = payload(c, etype, topic, ev, c.choose("extra", [False, True]))
        b = c.utf8(s)
        a = common(c)
        c.cover("read")
        if how in ("bytes", "text"):
            g = R.EventGrain(event_type="old", topic="old", **a)
            g.append("/old", 1, 2)
            g.data = b if how == "bytes" else s
        elif how == "constructor":
            g = R.EventGrain(data=b, **a)
        elif how == "bytes-like":
            g = R.EventGrain(data=c.bytearray(b), **a)
        elif how == "factory":
            g = R.GrainFactory({"grain": base_meta(c, "event", a)}, b)
        elif how == "awaited":
            async def later():
                return b
            async def go():
                g = R.EventGrain(data=later(), **a)
                c.prove(not g.has_data(), "nothing before it is waited for")
                got = await g
                c.prove_bytes_eq(got, g.data, "what is waited for is the data")
                return g
            g = c.run_coro(go())
        shows(c, g, etype, topic, ev)
        c.prove(g.has_data(), "has data")
        # and what is shown is written and read again
        k = R.EventGrain(data=g.data, **a)
        shows(c, k, etype, topic, ev, "again: ")
        c.prove_bytes_eq(k.data, g.data, "the same text again")
    return h


def family(c):
    """Any number of events."""
    import mediagrains.grains as R
    a = common(c)
    d = S.draw(c, "g.", "event", 9, timelabels=False)
    g = R.EventGrain(data=d.data, **a)
    c.cover("read")
    c.prove(g.event_type == d.etype, "event_type")
    c.prove(g.topic == d.topic, "topic")

    def ev(x, k, n):
        e = S.event_datum(d, k)
        c.prove(x.path == e["path"], n + ".path")
        for f in ("pre", "post"):
            c.prove((getattr(x, f) == e[f]) if f in e else (getattr(x, f) is None), n + "." + f)
    c.prove_list(g.event_data, d.nev, ev, "event_data")
    c.prove_bytes_eq(g.data, d.data, "data")
    g.event_data = g.event_data
    c.prove_list(g.event_data, d.nev, ev, "event_data assigned to itself")
    c.prove_bytes_eq(g.data, d.data, "data afterwards")


def assigned(c):
    """Events can be replaced by any events."""
    etype, topic = text(c)
    g, a = grain(c, etype, topic, data(c, 1))
    new = data(c, 2, "new.")
    given = [dict(d) for d in new]
    g.event_data = given
    c.cover("done")
    shows(c, g, etype, topic, new)
    g.append("/x", None, 0)
    c.prove(len(given) == 2, "the list given is not changed")
    shows(c, g, etype, topic, new + [{"path": "/x", "post": 0}], "appended: ")
    given[0]["path"] = "changed"
    c.prove(g.event_data[0].path == new[0]["path"], "events given are not shared")
    g.event_type, g.topic = c.text("t2", 60), c.text("p2", 60)
    shows(c, g, c.text("t2", 60), c.text("p2", 60), new + [{"path": "/x", "post": 0}], "renamed: ")


SETS = [("path", "attr"), ("pre", "attr"), ("post", "attr"), ("pre", "none"), ("post", "none"), ("path", "item"),
        ("pre", "item"), ("post", "item"), ("pre", "del"), ("post", "del")]


def element(i):
    """Changing one event changes that event in the grain and its text and nothing else."""
    key, how = SETS[i]

    def h(c):
        etype, topic = text(c)
        ev = data(c, 2)
        g, a = grain(c, etype, topic, ev)
        at = c.choose("at", [0, 1])
        x = g.event_data[at]
        v = c.text("new", 40) if key == "path" else c.json_value("new")
        want = [dict(d) for d in ev]
        if how in ("none", "del"):
            if how == "none":
                setattr(x, key, None)
            elif key in want[at]:
                del x[key]
            want[at].pop(key, None)
            c.prove(getattr(x, key) is None, "removed")
        else:
            if how == "attr":
                setattr(x, key, v)
            else:
                x[key] = v
            want[at][key] = v
            c.prove(getattr(x, key) == v, "read back")
            c.prove(x[key] == v, "read as an item")
        c.cover("done")
        shows(c, g, etype, topic, want)
    return h


def refused(missing):
    """Text that describes no event is refused and changes nothing."""
    def h(c):
        etype, topic = text(c)
        ev = data(c, 1)
        g, a = grain(c, etype, topic, ev)
        p = {"type": c.text("t2", 40), "topic": c.text("p2", 40), "data": []}
        del p[missing]
        s = c.json_dumps(p)
        try:
            g.data = s if c.choose("text", [True, False]) else c.utf8(s)
        except ValueError:
            c.cover("refused")
            shows(c, g, etype, topic, ev)
            return
        c.fail("refused")
    return h


HARNESSES = []
F = (E + "data", E + "append", E + "event_data", E + "DATA.__getitem__")
for n in (0, 1, 2):
    HARNESSES.append(Harness("written[%d]" % n, written(n), F + (E + "__bytes__", E + "__await__"), covers=("made",)))
for how in ("bytes", "text", "constructor", "bytes-like", "factory", "awaited"):
    for n in (0, 2) if how in ("text", "bytes") else (1,):
        HARNESSES.append(Harness("read[%s,%d]" % (how, n), read(n, how), F + (E + "__init__", E + "__await__"), covers=("read",)))
HARNESSES.append(Harness("family", family, F, covers=("read",)))
HARNESSES.append(Harness("assigned", assigned, F, covers=("done",)))
for i, (key, how) in enumerate(SETS):
    HARNESSES.append(Harness("element[%s,%s]" % (key, how), element(i), (E + "DATA." + key, E + "DATA.__setitem__"), covers=("done",)))
for k in ("type", "topic", "data"):
    HARNESSES.append(Harness("refused[%s]" % k, refused(k), (E + "data",), covers=("refused",)))
