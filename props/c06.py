"""C06: cut and malformed files: complete grains are delivered, then decoding ends or reports a decoding error."""
from pyvc.prop import Harness
from spec import gsf as S
from spec.gsf_contracts import CONTRACTS
from .streams import Sync, Async, expect, unknown
from .common import SYNC_BLOCK, ASYNC_BLOCK, BASE, tag_list, flow_desc, flow_bytes, tags_bytes

SESS = "mediagrains.gsf:GSFSyncDecoderSession."
ASESS = "mediagrains.gsf:GSFAsyncDecoderSession."
READERS = [Sync(), Async("AsyncBytesIO"), Async("AsyncFileWrapper")]
READ_AHEAD = Async("AsyncStreamWrapper")


def fns(r):
    s = SESS if r.name == "sync" else ASESS
    return (s + "grains", s + "_decode_file_headers", s + "_decode_ssb_header",
            "mediagrains.gsf:BaseGSFDecoderSession._sync_decode_head") + BASE + SYNC_BLOCK + (
        ASYNC_BLOCK if r.name != "sync" else ())


def now(G):
    return {"loading_mode": G.GrainDataLoadingMode.LOAD_IMMEDIATELY}


def in_grain(reader, kind, before=False, labels=False, parts=False):
    """A file cut anywhere inside a grain yields the grains before it, and ends."""
    def h(c):
        import mediagrains.gsf as G
        e = S.draw(c, "h.", kind, 9, timelabels=labels, parts=parts)
        m = c.int("m", 0, 65535)
        pre, want = c.bytes("pre", c.size("npre")), []
        b = pre
        if before:
            d, l = S.draw(c, "g.", "empty", 9, timelabels=False), c.int("l", 0, 65535)
            b, want = b + S.grai(c, d, l, 9), [(l, d)]
        f, it = reader.grains(c, b + c.cut(S.grai(c, e, m, 9)), c.blen(pre), **now(G))
        expect(c, it, want, "grains")
        c.cover("decoded")
    return h


def head_parts(c, segments=1, tags=True):
    fid, created = c.uuid("id"), c.datetime("created")
    segs = b""
    for i in range(segments):
        segs = segs + S.segm_block(c, c.int("local%d" % i, 0, 65535), c.uuid("sid%d" % i), c.int("count%d" % i, -1, (1 << 63) - 1),
                                   tags_bytes(c, tag_list(c, "seg%d.tag" % i, int(tags))), flow_bytes(c, flow_desc(c, "flow%d." % i)))
    return fid, created, segs, tags_bytes(c, tag_list(c, "tag", int(tags)))


def opening(c, reader, data):
    """The exception that opening the file ends with, or None."""
    import mediagrains.gsf as G
    try:
        reader.whole(c, data)
    except (G.GSFError, EOFError) as e:
        return e
    return None


def in_head(reader, where):
    """A file cut inside its headers cannot be opened; no header is ever reported with parts missing."""
    def h(c):
        import mediagrains.gsf as G
        first = S.file_header(c, c.int("major", 7, 9), c.int("minor", 0, 65535))
        if where == "file header":
            data = c.cut(first)
        elif where == "before head":
            data = first + c.cut(unknown(c, "u", ("head",)))
        else:
            fid, created, segs, tags = head_parts(c, 1, where == "head")
            data = first + c.cut(S.head_block(c, fid, created, segs, tags))
        e = opening(c, reader, data)
        c.prove(e is not None, "the file is refused")
        if where != "file header":
            c.prove(isinstance(e, G.GSFDecodeError), "with a decoding error")
        c.cover("refused")
    return h


def wrong_type(reader, how):
    def h(c):
        import mediagrains.gsf as G
        if how == "text":
            t = c.text("type", 8)
            c.assume(c.Not(t == "SSBBgrsg"))
            b = S.padded(c, t, 8)
        else:
            b = c.not_text("type", 8)
        e = opening(c, reader, b + c.bytes("rest", c.size("nrest", 0, 1 << 40)))
        if how == "text":
            c.prove(isinstance(e, G.GSFDecodeBadFileTypeError), "not a GSF file")
            c.prove(e.filetype == t, "its type")
        else:
            c.prove(isinstance(e, G.GSFDecodeError), "not a GSF file")
        c.cover("refused")
    return h


def wrong_version(reader):
    def h(c):
        import mediagrains.gsf as G
        major, minor = c.int("major", 0, 65535), c.int("minor", 0, 65535)
        c.assume(c.Or(major < 7, major > 9))
        fid, created, segs, tags = head_parts(c, 0)
        e = opening(c, reader, S.file_header(c, major, minor) + S.head_block(c, fid, created, segs, tags))
        c.prove(isinstance(e, G.GSFDecodeBadVersionError), "version refused")
        c.prove(c.And(e.major == major, e.minor == minor), "the version found")
        c.cover("refused")
    return h


def no_head(reader, blocks):
    def h(c):
        import mediagrains.gsf as G
        b = S.file_header(c, c.int("major", 7, 9), c.int("minor", 0, 65535))
        for i in range(blocks):
            b = b + unknown(c, "u%d" % i, ("head",))
        e = opening(c, reader, b + (S.TERMINATOR if blocks == 1 else b""))
        c.prove(isinstance(e, G.GSFDecodeError), "no head block")
        c.cover("refused")
    return h


def leftover(c):
    """Too few bytes for a block."""
    n = c.choose("left over", [1, 4, 7])
    return c.bytes("left", n)


def bad_head(reader, how):
    """Children that do not fill their head or segm block exactly."""
    def h(c):
        import mediagrains.gsf as G
        fid, created, segs, tags = head_parts(c, 0)
        body = S.uuid(c, fid) + S.date(c, created)
        if how == "left over":
            head = S.block(c, b"head", body + tags + leftover(c))
        elif how == "left over in segm":
            segm = S.segm_block(c, 1, c.uuid("sid"), 0, tags + leftover(c))
            head = S.block(c, b"head", body + segm)
        elif how == "child too big":
            x = c.bytes("body", c.size("len", 0, 1 << 20))
            more = c.int("more", 1, 1 << 20)
            t = c.text("u.tag", 4)
            for b in ("segm", "tag", "tag ", "SSBB"):
                c.assume(c.Not(t == b))
            head = S.block(c, b"head", body + tags + S.padded(c, t, 4) + S.u(c, c.blen(x) + 8 + more, 4) + x)
        elif how == "tag is no text":
            head = S.block(c, b"head", body + tags + c.not_text("u.tag", 4) + S.u(c, 8, 4))
        e = opening(c, reader, S.file_header(c, 9, 0) + head + S.TERMINATOR)
        c.prove(isinstance(e, G.GSFDecodeError), "refused")
        c.cover("refused")
    return h


def bad_grain(reader, how):
    """A malformed grain ends the stream with a decoding error; the grains before it have been delivered."""
    def h(c):
        import mediagrains.gsf as G
        d, e = S.draw(c, "g.", "empty", 9, timelabels=False), S.draw(c, "h.", "empty", 9, timelabels=False)
        l, m = c.int("l", 0, 65535), c.int("m", 0, 65535)
        pre = c.bytes("pre", c.size("npre"))
        good = S.grai(c, d, l, 9)
        local, gbhd, grdt = S.u(c, m, 2), S.gbhd(c, e, 9), S.block(c, b"grdt", e.data)
        if how == "gbhd not first":
            bad = S.block(c, b"grai", local + unknown(c, "u", ("gbhd",)) + gbhd + grdt)
        elif how == "no gbhd":
            bad = S.block(c, b"grai", local + grdt)
        elif how == "left over in gbhd":
            bad = S.block(c, b"grai", local + S.gbhd(c, e, 9, leftover(c)) + grdt)
        elif how == "left over in grai":
            bad = S.block(c, b"grai", local + gbhd + leftover(c))
        elif how == "child too big":
            bad = S.block(c, b"grai", local + S.gbhd(c, e, 9, b"what" + S.u(c, c.int("big", 9, 1 << 20), 4)) + grdt)
        elif how == "tag is no text":
            bad = c.not_text("u.tag", 4) + S.u(c, 8, 4)
        elif how == "child tag is no text":
            bad = S.block(c, b"grai", local + c.not_text("u.tag", 4) + S.u(c, 8, 4) + gbhd + grdt)
        elif how == "SSBB without grsg":
            t = c.text("after", 4)
            c.assume(c.Not(t == "grsg"))
            bad = b"SSBB" + S.padded(c, t, 4)
        elif how == "SSBB without text":
            bad = b"SSBB" + c.not_text("after", 4)
        elif how == "second version":
            major = c.int("major", 0, 65535)
            c.assume(c.Or(major < 7, major > 9))
            bad = S.file_header(c, major, 0) + S.head_block(c, c.uuid("id"), c.datetime("created"), b"", b"")
        elif how == "second head missing":
            bad = S.file_header(c, 9, 0)
        tail = b"" if how == "second head missing" else S.grai(c, d, l, 9) + S.TERMINATOR
        out, error = reader.until(c, pre + good + bad + tail, c.blen(pre))
        expect(c, iter(out), [(l, d)], "grains before")
        c.prove(isinstance(error, G.GSFDecodeError), "then a decoding error")
        if how == "second version":
            c.prove(isinstance(error, G.GSFDecodeBadVersionError) and error.major == major, "of the second file's version")
        c.cover("refused")
    return h


def missing_data(reader):
    """A grain without the data block it needs does not swallow the grains after it."""
    def h(c):
        d, e = S.draw(c, "g.", "empty", 9, timelabels=False), S.draw(c, "h.", "empty", 9, timelabels=False)
        l, m = c.int("l", 0, 65535), c.int("m", 0, 65535)
        c.assume(d.dlen == 0)
        bad = S.block(c, b"grai", S.u(c, l, 2) + S.gbhd(c, d, 9) + unknown(c, "u", ("grdt",)))
        out, error = reader.until(c, bad + S.grai(c, e, m, 9) + S.TERMINATOR)
        expect(c, iter(out), [(l, d), (m, e)], "grains")
        c.prove(error is None, "no error")
        c.cover("decoded")
    return h


HARNESSES = []
for r in READERS:
    for kind in S.KINDS:
        HARNESSES.append(Harness("cut grain[%s,%s]" % (r.name, kind), in_grain(r, kind), fns(r), covers=("decoded",)))
    HARNESSES.append(Harness("cut second grain[%s]" % (r.name,), in_grain(r, "empty", True), fns(r), covers=("decoded",)))
    for w in ("file header", "before head", "head", "head ending in a flow"):
        HARNESSES.append(Harness("cut header[%s,%s]" % (r.name, w), in_head(r, w), fns(r), covers=("refused",)))
    for w in ("text", "no text"):
        HARNESSES.append(Harness("wrong type[%s,%s]" % (r.name, w), wrong_type(r, w), fns(r), covers=("refused",)))
    HARNESSES.append(Harness("wrong version[%s]" % r.name, wrong_version(r), fns(r), covers=("refused",)))
    for n in range(3):
        HARNESSES.append(Harness("no head[%s,%d]" % (r.name, n), no_head(r, n), fns(r), covers=("refused",)))
    for w in ("left over", "left over in segm", "child too big", "tag is no text"):
        HARNESSES.append(Harness("bad head[%s,%s]" % (r.name, w), bad_head(r, w), fns(r), covers=("refused",)))
    for w in ("gbhd not first", "no gbhd", "left over in gbhd", "left over in grai", "child too big", "tag is no text",
              "child tag is no text", "SSBB without grsg", "SSBB without text", "second version", "second head missing"):
        HARNESSES.append(Harness("bad grain[%s,%s]" % (r.name, w), bad_grain(r, w), fns(r), covers=("refused",)))
    HARNESSES.append(Harness("no grdt[%s]" % r.name, missing_data(r), fns(r), covers=("decoded",)))
for kind in ("video", "coded_video", "audio"):
    HARNESSES.append(Harness("cut grain with labels and parts[sync,%s]" % kind, in_grain(READERS[0], kind, False, 1, 1), fns(READERS[0]),
                             covers=("decoded",)))
HARNESSES.append(Harness("cut second grain[%s]" % READ_AHEAD.name, in_grain(READ_AHEAD, "empty", True), fns(READ_AHEAD), covers=("decoded",)))
