"""C05: the asynchronous decoder and encoder do exactly what the synchronous ones do."""
from pyvc.prop import Harness
from spec import gsf as S
from spec.gsf_contracts import CONTRACTS
from .streams import (Async, async_file, unknown, expect, select, unknown_blocks, unknown_in_head, concat,
                      after_terminator)
from .common import SYNC_BLOCK, ASYNC_BLOCK, BASE, grain_fns, tag_list, flow_desc, flow_bytes, tags_bytes
from .c01 import grain_family, SEG, ENC
from . import c03

ASESS = "mediagrains.gsf:GSFAsyncDecoderSession."
DEC = "mediagrains.gsf:GSFDecoder."
AIO = "mediagrains.utils.asyncbinaryio:"
FILE = {"AsyncFileWrapper": "OpenAsyncFileWrapper", "AsyncBytesIOWrapper": "OpenAsyncBytesIOWrapper",
        "AsyncBytesIO": "OpenAsyncBytesIO"}
KINDS = tuple(FILE)
OENC = "mediagrains.gsf:OpenAsyncGSFEncoder."


def file_fns(kind, write=False):
    return tuple(AIO + FILE[kind] + "." + n for n in (("write", "truncate") if write else ("readinto",) if
                 kind == "AsyncBytesIO" else ("read",)) + ("seek", "tell", "seekable"))


def fns(kind):
    return (ASESS + "grains", ASESS + "_decode_file_headers", ASESS + "_decode_ssb_header", DEC + "__aenter__",
            DEC + "__aexit__") + BASE + ASYNC_BLOCK + SYNC_BLOCK + file_fns(kind)


def decode_grain(fkind, kind, major):
    """A grain anywhere in a file, read through the asynchronous decoder."""
    def h(c):
        import mediagrains.gsf as G
        d = S.draw(c, "g.", kind, major, parts=kind not in ("video", "event", "coded_video") or major == 9)
        pre = c.bytes("pre", c.size("npre"))
        lid = c.int("local", 0, 65535)
        _, it = Async(fkind).grains(c, pre + S.grai(c, d, lid, major) + S.TERMINATOR, c.blen(pre), major,
                                    loading_mode=G.GrainDataLoadingMode.LOAD_IMMEDIATELY)
        c.cover("decoded")
        expect(c, it, [(lid, d)], "grain")
    return h


def headers(fkind, flow):
    def h(c):
        major, minor = c.int("major", 7, 9), c.int("minor", 0, 65535)
        fid, created = c.uuid("id"), c.datetime("created")
        tags, stags = tag_list(c, "tag", 1), tag_list(c, "stag", 1)
        lid, sid, count = c.int("local", 0, 65535), c.uuid("sid"), c.int("count", -1, (1 << 63) - 1)
        fd = flow_desc(c, "flow.") if flow else None
        body = S.segm_block(c, lid, sid, count, tags_bytes(c, stags), flow_bytes(c, fd) if flow else b"")
        head = S.file_header(c, major, minor) + S.head_block(c, fid, created, body, tags_bytes(c, tags))
        r = Async(fkind).whole(c, head + S.TERMINATOR)
        c.cover("decoded")
        c.prove(c.And(r.major == major, r.minor == minor), "version")
        c.prove(r.tell == c.blen(head), "reader left at the end of the head block")
        fh = r.before
        c.prove(c.And(fh["id"] == fid, fh["created"] == created), "file id and creation time")
        c.prove(len(fh["tags"]) == 1 and len(fh["segments"]) == 1, "one tag, one segment")
        c.prove(c.And(*[x == y for x, y in zip(fh["tags"][0], tags[0])]), "tag")
        s = fh["segments"][0]
        c.prove(c.And(s["id"] == sid, s["local_id"] == lid, s["count"] == count), "segment")
        c.prove(len(s["tags"]) == 1, "one segment tag")
        c.prove(c.And(*[x == y for x, y in zip(s["tags"][0], stags[0])]), "segment tag")
        if flow:
            c.prove(c.And(s["flow"]["source_id"] == fd["source_id"], s["flow"]["flow_id"] == fd["flow_id"],
                          s["flow"]["format"] == fd["format"], s["flow"]["data"] == fd["text"]), "flow")
        else:
            c.prove("flow" not in s, "no flow")
        expect(c, r.grains, [], "grains")
    return h


def whole_file(fkind, how):
    """load() of an asynchronous file and a decoder session on an opened one see the whole file."""
    def h(c):
        import mediagrains.gsf as G
        fid, created = c.uuid("id"), c.datetime("created")
        kinds = ("empty", "audio")
        ds = [S.draw(c, "g%d." % i, k, 9, timelabels=False, parts=False) for i, k in enumerate(kinds)]
        lids = [c.int("l%d" % i, 0, 65535) for i in range(len(kinds))]
        b = S.file_header(c, 9, 0) + S.head_block(c, fid, created, b"", b"")
        for d, l in zip(ds, lids):
            b = b + S.grai(c, d, l, 9)
        b = b + S.TERMINATOR

        async def load():
            return await G.load(async_file(c, fkind, b)[0])

        async def opened():
            async with async_file(c, fkind, b)[0] as f:
                return await G.GSFDecoder(file_data=f)._asynchronously_decode()
        head, grains = c.run_coro(load() if how == "load" else opened())
        c.cover("decoded")
        c.prove(head["id"] == fid, "file id")
        same = bool(lids[0] == lids[1])
        c.prove(len(grains) == (1 if same else 2), "number of segments")
        got = grains[lids[0]]
        c.prove(len(got) == (2 if same else 1), "grains of the first segment")
        S.check_grain(c, got[0], ds[0], "first grain")
        S.check_grain(c, got[1] if same else grains[lids[1]][0], ds[1], "second grain")
    return h


def lazy(fkind, mode, use):
    """Deferred data is read when the grain is awaited, from its own place, without disturbing the reader; what is not
    awaited before the decoder is left is loaded (LOAD) or stays empty (DEFER)."""
    def h(c):
        import mediagrains.gsf as G
        d = S.draw(c, "g.", "audio", 9, timelabels=False, parts=False)
        e = S.draw(c, "h.", "coded_audio", 9, timelabels=False, parts=False)
        z = S.draw(c, "z.", "empty", 9, timelabels=False)
        c.assume(d.dlen > 0)
        c.assume(e.dlen > 0)
        ls = [c.int("l%d" % i, 0, 65535) for i in range(3)]
        head = S.file_header(c, 9, 0) + S.head_block(c, c.uuid("id"), c.datetime("created"), b"", b"")
        a, b = S.grai(c, d, ls[0], 9), S.grai(c, e, ls[1], 9)
        data = head + a + b + S.grai(c, z, ls[2], 9) + S.TERMINATOR
        how = {} if mode == "default" else {"loading_mode": getattr(G.GrainDataLoadingMode, mode)}
        end = c.blen(head) + c.blen(a)

        async def go():
            af, raw = async_file(c, fkind, data)
            async with G.GSFDecoder(file_data=af) as dec:
                it = dec.grains(**how)
                f = dec.file_data
                g, l = await it.__anext__()
                c.prove(l == ls[0], "local id")
                S.check_grain(c, g, d, "grain", data=False)
                c.prove(f.tell() == end, "reader left at the end of the block")
                c.prove(g.data is None, "data not there yet")
                c.prove(g.length == d.dlen, "length known")
                if raw is not None:
                    c.prove(c.Not(c.was_read(raw, end - d.dlen, d.dlen)), "data not read while reading the stream")
                if use == "at once":
                    got = await g
                    c.prove_bytes_eq(c.to_bytes(got), d.data, "awaited data")
                    c.prove(f.tell() == end, "reader undisturbed")
                g2, l2 = await it.__anext__()
                c.prove(l2 == ls[1], "second local id")
                S.check_grain(c, g2, e, "second grain", data=False)
                if use == "later":
                    async with g2 as inner:
                        c.prove_bytes_eq(c.to_bytes(inner.data), e.data, "data inside the grain's context")
                    c.prove_bytes_eq(c.to_bytes(await g), d.data, "awaited data")
                    c.prove_bytes_eq(c.to_bytes(await g2), e.data, "awaited again")
                    c.prove_bytes_eq(c.to_bytes(await g), d.data, "first awaited again")
                    c.prove(f.tell() == end + c.blen(b), "reader undisturbed")
                g3, l3 = await it.__anext__()
                c.prove(l3 == ls[2], "third local id")
                n = 0
                async for _ in it:
                    n += 1
                c.prove(n == 0, "no other grain")
            return g, g2
        g, g2 = c.run_coro(go())
        c.cover("done")
        loaded = mode == "ALWAYS_LOAD_DEFER_IF_POSSIBLE"
        for x, w, used in ((g, d, use != "never"), (g2, e, use == "later")):
            if used or loaded:
                c.prove(x.data is not None, "data there after the decoder was left")
                c.prove_bytes_eq(c.to_bytes(x.data), w.data, "data after the decoder was left")
                c.prove(x.length == w.dlen, "length after the decoder was left")
            else:
                c.prove(x.data is None, "unused grain is empty after the decoder was left")

                async def again():
                    return await x
                c.prove(c.run_coro(again()) is None, "and can still be awaited")
    return h


def lazy_event(fkind, mode):
    """An event is part of a grain's metadata: it is there at once in every mode that loads."""
    def h(c):
        import mediagrains.gsf as G
        d = S.draw(c, "g.", "event", 9, timelabels=False)
        z = S.draw(c, "z.", "empty", 9, timelabels=False)
        ls = [c.int("l%d" % i, 0, 65535) for i in range(2)]
        head = S.file_header(c, 9, 0) + S.head_block(c, c.uuid("id"), c.datetime("created"), b"", b"")
        a = S.grai(c, d, ls[0], 9)
        data = head + a + S.grai(c, z, ls[1], 9) + S.TERMINATOR
        how = {} if mode == "default" else {"loading_mode": getattr(G.GrainDataLoadingMode, mode)}

        async def go():
            af, raw = async_file(c, fkind, data)
            async with G.GSFDecoder(file_data=af) as dec:
                it = dec.grains(**how)
                g, l = await it.__anext__()
                c.prove(l == ls[0], "local id")
                S.check_grain(c, g, d, "grain", data=False)
                c.prove(dec.file_data.tell() == c.blen(head) + c.blen(a), "reader left at the end of the block")
                await g
                S.check_grain(c, g, d, "awaited grain", data=False)
                c.prove(dec.file_data.tell() == c.blen(head) + c.blen(a), "reader undisturbed")
                g2, l2 = await it.__anext__()
                c.prove(l2 == ls[1], "second local id")
                n = 0
                async for _ in it:
                    n += 1
                c.prove(n == 0, "no other grain")
            return g
        g = c.run_coro(go())
        c.cover("done")
        S.check_grain(c, g, d, "grain after the decoder was left", data=False)
    return h


def immediate(fkind, mode):
    def h(c):
        import mediagrains.gsf as G
        d = S.draw(c, "g.", "audio", 9, timelabels=False, parts=False)
        e = S.draw(c, "h.", "empty", 9, timelabels=False)
        l, m = c.int("l", 0, 65535), c.int("m", 0, 65535)
        pre = c.bytes("pre", c.size("npre"))
        f, it = Async(fkind).grains(c, pre + S.grai(c, d, l, 9) + S.grai(c, e, m, 9) + S.TERMINATOR, c.blen(pre),
                                    loading_mode=getattr(G.GrainDataLoadingMode, mode))
        g, gl = next(it)
        c.prove(gl == l, "local id")
        S.check_grain(c, g, d, "grain", data=mode == "LOAD_IMMEDIATELY")
        if mode == "LOAD_NEVER":
            c.prove(not g.data or len(g.data) == 0, "no data")
        g, gl = next(it)
        c.prove(gl == m, "next local id")
        S.check_grain(c, g, e, "next grain", data=False)
        c.cover("decoded")
    return h


# ---------------------------------------------------------------- encoder
def wrapped(kind):
    def wrap(f, old):
        import mediagrains.utils.asyncbinaryio as A
        if kind == "AsyncBytesIO":
            return A.AsyncBytesIO(old)
        if kind == "open":
            return A.OpenAsyncFileWrapper(f)
        if kind == "plain":
            return f
        return getattr(A, kind)(f)
    return wrap


def written(c, f, kind):
    return f.getvalue() if kind == "AsyncBytesIO" else c.content(f._raw)


def one(c, p, kind, major, lid):
    d = S.draw(c, p, kind, major, timelabels=False, parts=False)
    return 1, [S.make_grain(c, d)], S.grai(c, d, lid, major)


def encode_streaming(fkind, kind, seekable=True, major=9):
    """A streaming dump writes grains as they are added."""
    def h(c):
        family = one if fkind == "AsyncBytesIO" else grain_family     # its buffer grows by doubling
        enc, f, segs, head, _ = c03.setup(c, 1, seekable, True, False, major, wrapped(fkind))
        lid, seg, sid = segs[0][:3]
        n0, g0, b0 = family(c, "before.", kind, major, lid)
        enc.add_grains(g0, segment_local_id=lid)
        n1, g1, b1 = family(c, "live.", kind, major, lid)
        d3, d4 = (S.draw(c, p, "empty", major, timelabels=False) for p in ("x.", "y."))
        b3 = S.grai(c, d3, lid, major) + S.grai(c, d4, lid, major)

        async def go():
            async with enc as e:
                c.prove_bytes_eq(written(c, f, fkind), head([-1]) + b0, "header and buffered grains are written at once")
                await e.add_grains(g1, segment_local_id=lid)
                c.prove_bytes_eq(written(c, f, fkind), head([-1]) + b0 + b1, "grains are written as they are added")
                await e.add_grain(S.make_grain(c, d3), segment_id=sid)
                await e.add_grain(S.make_grain(c, d4))
                c.prove_bytes_eq(written(c, f, fkind), head([-1]) + b0 + b1 + b3, "every way to add a grain writes it")
        c.run_coro(go())
        c.cover("done")
        total = n0 + n1 + 2
        c.prove(seg.count == total, "segment count")
        want = head([total if seekable else -1]) + b0 + b1 + b3 + S.TERMINATOR
        c.prove_bytes_eq(written(c, f, fkind), want, "finished file")
    return h


def encode_queued(fkind):
    """Grains given to a segment or the encoder itself during a streaming dump reach the file, in order, exactly once."""
    def h(c):
        enc, f, segs, head, major = c03.setup(c, 1, True, True, False, 9, wrapped(fkind))
        lid, seg, sid = segs[0][:3]
        n0, g0, b0 = grain_family(c, "a.", "empty", major, lid)
        n1, g1, b1 = grain_family(c, "b.", "empty", major, lid)
        d3, d4 = (S.draw(c, p, "empty", major, timelabels=False) for p in ("x.", "y."))

        async def go():
            async with enc as e:
                seg.add_grains(g0)
                await e.add_grain(S.make_grain(c, d3))
                enc.add_grains(g1, segment_local_id=lid)
                seg.add_grain(S.make_grain(c, d4))
        c.run_coro(go())
        c.cover("done")
        c.prove(seg.count == n0 + n1 + 2, "segment count")
        c.prove_bytes_eq(written(c, f, fkind), head([n0 + n1 + 2]) + b0 + S.grai(c, d3, lid, major) + b1 +
                         S.grai(c, d4, lid, major) + S.TERMINATOR, "finished file")
    return h


def encode_at_once(fkind, seekable=True):
    def h(c):
        enc, f, segs, head, major = c03.setup(c, 2, seekable, False, False, 9, wrapped(fkind))
        (l0, s0, i0, _), (l1, s1, i1, _) = segs
        n0, g0, b0 = grain_family(c, "a.", "empty", major, l0)
        n1, g1, b1 = grain_family(c, "b.", "empty", major, l1)
        d = S.draw(c, "x.", "audio", major, timelabels=False, parts=False)

        async def go():
            async with enc as e:
                s0.add_grains(g0)
                await e.add_grains(g1, segment_local_id=l1)
                await e.add_grain(S.make_grain(c, d), segment_local_id=l0)
        c.run_coro(go())
        c.cover("done")
        c.prove_bytes_eq(written(c, f, fkind), head([n0 + 1, n1]) + b0 + S.grai(c, d, l0, major) + b1 + S.TERMINATOR,
                         "file")
    return h


def refused(fkind):
    def h(c):
        import mediagrains.gsf as G
        enc, f, segs, head, major = c03.setup(c, 1, True, True, False, 9, wrapped(fkind))
        lid, seg, sid = segs[0][:3]
        d = S.draw(c, "g.", "empty", major, timelabels=False)
        other, oid = c.int("other", 0, 65535), c.uuid("oid")
        c.assume(other != lid)
        c.assume(oid != sid)

        def expect_(name, fn, *a, **k):
            try:
                fn(*a, **k)
            except G.GSFEncodeAddToActiveDump:
                return
            c.fail(name + " is refused")

        async def go():
            async with enc as e:
                expect_("adding a tag", e.add_tag, "k", "v")
                expect_("adding a tag to the encoder", enc.add_tag, "k", "v")
                expect_("adding a segment", e.add_segment)
                expect_("adding a segment to the encoder", enc.add_segment, id=oid, local_id=other)
                expect_("adding a segment tag", seg.add_tag, "k", "v")
                expect_("adding a flow", seg.add_flow, sid, oid, "x", "y")
                for how in ({"segment_local_id": other}, {"segment_id": oid}):
                    try:
                        await e.add_grain(S.make_grain(c, d), **how)
                    except G.GSFEncodeError:
                        continue
                    c.fail("a grain for an unknown segment is refused")
                c.cover("refused")
        c.run_coro(go())
        c.prove_bytes_eq(written(c, f, fkind), head([0]) + S.TERMINATOR, "file")
        c.prove(len(enc.tags) == 0, "no tag was added")
        c.prove(len(enc.segments) == 1, "no segment was added")
        enc.add_tag("k", "v")
        c.prove(len(enc.tags) == 1, "tags can be added afterwards")
    return h


HARNESSES = []
for fk in KINDS:
    for kind in ("empty", "video", "audio", "coded_video", "coded_audio", "event"):
        if fk == "AsyncFileWrapper" or kind in ("empty", "audio"):
            HARNESSES.append(Harness("grain[%s,%s,v9]" % (fk, kind), decode_grain(fk, kind, 9), fns(fk) + grain_fns(kind),
                                     covers=("decoded",)))
    for flow in (False, True):
        HARNESSES.append(Harness("headers[%s%s]" % (fk, ",flow" if flow else ""), headers(fk, flow), fns(fk),
                                 covers=("decoded",)))
    for how in ("load", "opened"):
        HARNESSES.append(Harness("whole[%s,%s]" % (fk, how), whole_file(fk, how),
                                 fns(fk) + ("mediagrains.gsf:load", DEC + "_asynchronously_decode"), covers=("decoded",)))
    for mode in ("ALWAYS_LOAD_DEFER_IF_POSSIBLE", "ALWAYS_DEFER_LOAD_IF_POSSIBLE", "default"):
        for use in ("never", "at once", "later"):
            if mode != "default" or use == "never":
                HARNESSES.append(Harness("lazy[%s,%s,%s]" % (fk, mode, use), lazy(fk, mode, use), fns(fk) + (
                    "mediagrains.grains.Grain:Grain.__await__", ASESS + "_kill_unused_lazy_loaders"), covers=("done",)))
    for mode in ("ALWAYS_LOAD_DEFER_IF_POSSIBLE", "ALWAYS_DEFER_LOAD_IF_POSSIBLE", "default"):
        if mode != "default" or fk == "AsyncFileWrapper":
            HARNESSES.append(Harness("event[%s,%s]" % (fk, mode), lazy_event(fk, mode), fns(fk) + (
                "mediagrains.grains.EventGrain:EventGrain.__await__",), covers=("done",)))
    for mode in ("LOAD_IMMEDIATELY", "LOAD_NEVER"):
        HARNESSES.append(Harness("loading[%s,%s]" % (fk, mode), immediate(fk, mode), fns(fk), covers=("decoded",)))
for major in (7, 8):
    HARNESSES.append(Harness("grain[AsyncFileWrapper,audio,v%d]" % major, decode_grain("AsyncFileWrapper", "audio", major),
                             fns("AsyncFileWrapper"), covers=("decoded",)))
A0, A1 = Async("AsyncFileWrapper"), Async("AsyncBytesIO")
for n, kinds in ((0, ("empty",)), (2, ("empty", "audio"))):
    HARNESSES.append(Harness("select[%d ids,%d grains]" % (n, len(kinds)), select(A0, n, kinds), fns(A0.kind),
                             covers=("decoded",)))
for where in ("before", "between", "short", "in grai", "end of grai", "in gbhd", "no grdt", "instead of grdt", "end"):
    HARNESSES.append(Harness("unknown[%s]" % where, unknown_blocks(A0, where, "empty"), fns(A0.kind), covers=("decoded",)))
for where in ("first", "in segm", "before head"):
    HARNESSES.append(Harness("unknown in head[%s]" % where, unknown_in_head(A0, where), fns(A0.kind), covers=("decoded",)))
for support, first, second, term in ((True, 9, 9, True), (True, 8, 7, False), (False, 9, 7, True)):
    HARNESSES.append(Harness("concatenation[%s,v%d+v%d%s]" % ("on" if support else "off", first, second,
                                                              ",terminated" if term else ""),
                             concat(A0, support, first, second, term), fns(A0.kind), covers=("decoded",)))
for support in (True, False):
    HARNESSES.append(Harness("after terminator[%s]" % ("on" if support else "off"), after_terminator(A1, support),
                             fns(A1.kind), covers=("decoded",)))
EFNS = (OENC + "add_grain", OENC + "add_grains", OENC + "_start_dump", OENC + "_end_dump", OENC + "_truncate",
        OENC + "_write_queued_grains", ENC + "__aenter__", ENC + "__aexit__")
for fk in ("AsyncFileWrapper", "AsyncBytesIO", "open", "plain"):
    for kind in ("empty", "audio") if fk == "AsyncFileWrapper" else ("empty",):
        HARNESSES.append(Harness("encode streaming[%s,%s]" % (fk, kind), encode_streaming(fk, kind), EFNS, covers=("done",)))
    HARNESSES.append(Harness("encode at once[%s]" % fk, encode_at_once(fk), EFNS, covers=("done",)))
HARNESSES.append(Harness("encode streaming[non seekable]", encode_streaming("AsyncFileWrapper", "empty", False), EFNS,
                         covers=("done",)))
HARNESSES.append(Harness("encode at once[non seekable]", encode_at_once("AsyncFileWrapper", False), EFNS, covers=("done",)))
HARNESSES.append(Harness("encode queued[AsyncFileWrapper]", encode_queued("AsyncFileWrapper"), EFNS, covers=("done",)))
HARNESSES.append(Harness("refused[AsyncFileWrapper]", refused("AsyncFileWrapper"), EFNS, covers=("refused",)))
