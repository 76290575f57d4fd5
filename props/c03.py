"""C03: progressive and buffered encoding; management of segments, tags and flows."""
from pyvc.prop import Harness
from spec import gsf as S
from spec.gsf_contracts import CONTRACTS as _ALL
from .common import flow_desc, flow_bytes
from .c01 import FILE_FNS, SEG, ENC, OPEN, OBASE, grain_family

CONTRACTS = [c for c in _ALL if "_encode_" in c.target]
FNS = FILE_FNS + (ENC + "start_dump", ENC + "end_dump", ENC + "dump", ENC + "add_grain", ENC + "add_grains",
                  OPEN + "add_grain", OPEN + "add_grains", OBASE + "_get_segment", OBASE + "_set_segment_offsets",
                  SEG + "add_grain", SEG + "add_grains", SEG + "_get_parent_open_encoder", SEG + "set_size_position",
                  SEG + "get_write_count")


def setup(c, nseg=1, seekable=True, streaming=False, flow=False, major=9, wrap=None):
    """An encoder with nseg segments on a file with arbitrary content and position, and how its file must begin."""
    import mediagrains.gsf as G
    minor = c.int("minor", 0, 65535)
    fid, created = c.uuid("id"), c.datetime("created")
    n = c.size("nold")
    old = c.bytes("old", n)
    f = c.file(old, c.int("pos", 0, 1 << 40) if seekable else n, seekable)
    if wrap is not None:
        f, raw = wrap(f, old), f
        f._raw = raw
    enc = G.GSFEncoder(f, major=major, minor=minor, id=fid, created=created, streaming=streaming)
    segs, body = [], []
    for i in range(nseg):
        lid, sid = c.int("s%d.local" % i, 0, 65535), c.uuid("s%d.id" % i)
        for s in segs:
            c.assume(s[0] != lid)
        seg = enc.add_segment(id=sid, local_id=lid)
        fb = b""
        if flow:
            fd = flow_desc(c, "s%d.flow." % i)
            seg.add_flow(fd["source_id"], fd["flow_id"], fd["format"], fd["text"])
            fb = flow_bytes(c, fd)
        segs.append((lid, seg, sid, fb))

    def head(counts):
        b = b""
        for (lid, seg, sid, fb), k in zip(segs, counts):
            b = b + S.segm_block(c, lid, sid, k, b"", fb)
        return (b"" if seekable else old) + S.file_header(c, major, minor) + S.head_block(c, fid, created, b, b"")
    return enc, f, segs, head, major


def progressive(mode, kind, seekable, flow=False, major=9):
    """Grains buffered before the dump, then grains written as they are added."""
    def h(c):
        streaming = mode == "streaming"
        enc, f, segs, head, _ = setup(c, 1, seekable, streaming, flow, major)
        lid, seg, sid = segs[0][:3]
        n0, g0, b0 = grain_family(c, "before.", kind, major, lid)
        enc.add_grains(g0, segment_local_id=lid)
        c.prove(c.blen(c.content(f)) == c.blen(c.bytes("old", c.size("nold"))), "nothing is written before the dump")
        n1, g1, b1 = grain_family(c, "live.", kind, major, lid)
        n2, g2, b2 = grain_family(c, "seg.", "empty" if kind == "empty" else "", major, lid)
        d3, d4, d5 = (S.draw(c, p, "empty", major, timelabels=False) for p in ("x.", "y.", "z."))
        b3 = S.grai(c, d3, lid, major) + S.grai(c, d4, lid, major) + S.grai(c, d5, lid, major)

        def live(e):
            c.prove_bytes_eq(c.content(f), head([-1]) + b0, "header and buffered grains are written at once")
            e.add_grains(g1, segment_local_id=lid)
            c.prove_bytes_eq(c.content(f), head([-1]) + b0 + b1, "grains are written as they are added")
            seg.add_grains(g2)
            e.add_grain(S.make_grain(c, d3), segment_id=sid)
            e.add_grain(S.make_grain(c, d4))
            seg.add_grain(S.make_grain(c, d5))
            c.prove_bytes_eq(c.content(f), head([-1]) + b0 + b1 + b2 + b3, "every way to add a grain writes it")
        if streaming:
            with enc as e:
                live(e)
        else:
            enc.start_dump()
            live(enc)
            enc.end_dump()
        c.cover("done")
        total = n0 + n1 + n2 + 3
        c.prove(seg.count == total, "segment count")
        want = head([total if seekable else -1]) + b0 + b1 + b2 + b3 + S.TERMINATOR
        c.prove_bytes_eq(c.content(f), want, "finished file")
        if seekable:
            c.prove(f.tell() == c.blen(want), "file position at its end")
    return h


def at_once(mode, kind, seekable):
    """dump() and a non-streaming context write the whole file in one go, replacing what was there."""
    def h(c):
        enc, f, segs, head, major = setup(c, 1, seekable)
        lid, seg, sid = segs[0][:3]
        n0, g0, b0 = grain_family(c, "a.", kind, major, lid)
        n1, g1, b1 = grain_family(c, "b.", kind, major, lid)
        if mode == "dump":
            seg.add_grains(g0)
            enc.add_grains(g1, segment_id=sid)
            enc.dump()
        else:
            seg.add_grains(g0)
            with enc as e:
                e.add_grains(g1)
        c.cover("done")
        c.prove_bytes_eq(c.content(f), head([n0 + n1]) + b0 + b1 + S.TERMINATOR, "file")
        c.prove(seg.count == n0 + n1, "segment count")
    return h


def two_segments(seekable):
    """Grains go to the segment they are added to and each count is patched in its own segment."""
    def h(c):
        enc, f, segs, head, major = setup(c, 2, seekable, True)
        fam = [grain_family(c, "a.", "empty", major, segs[0][0]), grain_family(c, "b.", "audio", major, segs[1][0]),
               grain_family(c, "c.", "empty", major, segs[0][0])]
        with enc as e:
            e.add_grains(fam[0][1], segment_local_id=segs[0][0])
            e.add_grains(fam[1][1], segment_local_id=segs[1][0])
            segs[0][1].add_grains(fam[2][1])
        c.cover("done")
        counts = [fam[0][0] + fam[2][0], fam[1][0]] if seekable else [-1, -1]
        c.prove_bytes_eq(c.content(f), head(counts) + fam[0][2] + fam[1][2] + fam[2][2] + S.TERMINATOR, "file")
    return h


def again(first, second):
    """An encoder used for a second file describes that file, whatever it wrote before."""
    def h(c):
        enc, f, segs, head, major = setup(c, 1, True)
        lid, seg, sid = segs[0][:3]
        n0, g0, b0 = grain_family(c, "a.", "empty", major, lid)
        n1, g1, b1 = grain_family(c, "b.", "empty", major, lid)

        def go(mode, gs):
            if mode == "dump":
                enc.add_grains(gs)
                enc.dump()
            elif mode == "with":
                with enc as e:
                    e.add_grains(gs)
            else:
                enc.start_dump()
                enc.add_grains(gs)
                enc.end_dump()
        go(first, g0)
        go(second, g1)
        c.cover("done")
        c.prove_bytes_eq(c.content(f), head([n1]) + b1 + S.TERMINATOR, "second file")
        seg.add_tag("k", "v")
        c.prove(len(seg.tags) == 1, "tags can be added once the dump has ended")
    return h


def refused(mode):
    """Nothing that belongs into the header can be added while a dump is active, and nothing is written by trying."""
    def h(c):
        import mediagrains.gsf as G
        enc, f, segs, head, major = setup(c, 1, True, mode == "streaming")
        lid, seg, sid = segs[0][:3]
        d = S.draw(c, "g.", "empty", major, timelabels=False)
        other = c.int("other", 0, 65535)
        c.assume(other != lid)
        oid = c.uuid("oid")
        c.assume(oid != sid)

        def expect(exc, name, fn, *a, **k):
            try:
                fn(*a, **k)
            except exc:
                return
            c.fail(name + " is refused")
        if mode == "streaming":
            e = enc.__enter__()
        else:
            enc.start_dump()
            e = enc._open_encoder if hasattr(enc, "_open_encoder") else enc
        add = G.GSFEncodeAddToActiveDump
        expect(add, "adding a tag", e.add_tag, "k", "v")
        expect(add, "adding a tag to the encoder", enc.add_tag, "k", "v")
        expect(add, "adding a segment", e.add_segment)
        expect(add, "adding a segment to the encoder", enc.add_segment, id=oid, local_id=other)
        expect(add, "adding a segment tag", seg.add_tag, "k", "v")
        expect(add, "adding a flow", seg.add_flow, sid, oid, "x", "y")
        expect(G.GSFEncodeError, "a grain for an unknown segment number", e.add_grain, S.make_grain(c, d),
               segment_local_id=other)
        expect(G.GSFEncodeError, "a grain for an unknown segment id", e.add_grain, S.make_grain(c, d),
               segment_id=oid)
        c.cover("refused")
        c.prove_bytes_eq(c.content(f), head([-1]), "nothing is written")
        if mode == "streaming":
            enc.__exit__(None, None, None)
        else:
            enc.end_dump()
        c.prove_bytes_eq(c.content(f), head([0]) + S.TERMINATOR, "file")
        c.prove(len(enc.tags) == 0, "no tag was added")
        c.prove(len(enc.segments) == 1, "no segment was added")
    return h


def segments(where):
    """Local ids given automatically are new; a used one is refused; default segments are the lowest match."""
    def h(c):
        import mediagrains.gsf as G
        f = c.file(b"")
        enc = G.GSFEncoder(f, segments=[])
        lids = [c.int("l%d" % i, 0, 65535) for i in range(2)]
        c.assume(lids[0] != lids[1])
        ids = [c.uuid("u%d" % i) for i in range(2)]
        target = enc if where == "encoder" else enc.__enter__()
        s0 = target.add_segment(id=ids[0], local_id=lids[0])
        auto = target.add_segment()
        c.prove(c.And(auto.local_id != lids[0], auto.local_id >= 1), "an automatic local id is unused")
        c.assume(lids[1] != auto.local_id)
        s1 = target.add_segment(id=ids[1], local_id=lids[1])
        auto2 = target.add_segment()
        c.prove(c.And(auto2.local_id != lids[0], auto2.local_id != lids[1], auto2.local_id != auto.local_id),
                "a second automatic local id is unused")
        for l in lids:
            try:
                target.add_segment(local_id=l)
            except G.GSFEncodeError:
                continue
            c.fail("a used local id is refused")
        c.cover("added")
        c.prove(len(target.segments) == 4, "number of segments")
        c.prove(c.And(target.segments[lids[0]] is s0, target.segments[lids[1]] is s1), "segments by local id")
        d = S.draw(c, "g.", "empty", 9, timelabels=False)
        target.add_grain(S.make_grain(c, d))
        low = [s for s in (s0, s1, auto, auto2) if s.count == 1]
        c.prove(len(low) == 1, "a grain goes to one segment")
        c.prove(c.And(*[low[0].local_id <= s.local_id for s in (s0, s1, auto, auto2)]),
                "by default the segment with the lowest local id")
        every = (s0, s1, auto, auto2)
        before = [s.count for s in every]
        target.add_grain(S.make_grain(c, d), segment_id=ids[1])
        got = [s for s, b in zip(every, before) if s.count == b + 1]
        c.prove(len(got) == 1, "a grain added by segment id goes to one segment")
        c.prove(got[0].id == ids[1], "with that id")
        c.prove(c.And(*[c.implies(s.id == ids[1], got[0].local_id <= s.local_id) for s in every]),
                "the lowest of those with that id")
        new = c.int("new", 0, 65535)
        c.assume(c.And(*[new != s.local_id for s in (s0, s1, auto, auto2)]))
        target.add_grain(S.make_grain(c, d), segment_id=ids[0], segment_local_id=new)
        c.prove(new in target.segments, "a missing segment is created")
        s = target.segments[new]
        c.prove(c.And(s.id == ids[0], s.count == 1), "with the id asked for, holding the grain")
        if where != "encoder":
            enc.__exit__(None, None, None)
            later = enc.add_segment()
            c.prove(c.And(*[later.local_id != k.local_id for k in (s0, s1, auto, auto2, s)]),
                    "a local id given after the dump is unused")
    return h


def later_dump(how):
    """A segment made in one dump also reaches a later one."""
    def h(c):
        enc, f, segs, head, major = setup(c, 0, True)
        lid, sid = c.int("lid", 0, 65535), c.uuid("sid")
        n0, g0, b0 = grain_family(c, "a.", "empty", major, lid)
        n1, g1, b1 = grain_family(c, "b.", "empty", major, lid)
        with enc as e:
            seg = e.add_segment(id=sid, local_id=lid)
            seg.add_grains(g0)
        segs.append((lid, seg, sid, b""))
        c.prove_bytes_eq(c.content(f), head([n0]) + b0 + S.TERMINATOR, "first file")
        if how == "start_dump":
            enc.start_dump()
            seg.add_grains(g1)
            enc.end_dump()
        else:
            with enc as e:
                seg.add_grains(g1)
        c.cover("done")
        c.prove_bytes_eq(c.content(f), head([n1]) + b1 + S.TERMINATOR, "second file")
    return h


HARNESSES = []
for how in ("start_dump", "with"):
    HARNESSES.append(Harness("later dump[%s]" % how, later_dump(how), FNS, covers=("done",)))
for mode in ("streaming", "start_dump"):
    for kind in ("empty", "audio"):
        for seekable in (True, False):
            HARNESSES.append(Harness("progressive[%s,%s%s]" % (mode, kind, "" if seekable else ",non seekable"),
                                     progressive(mode, kind, seekable), FNS, covers=("done",)))
for major in (7, 8):
    HARNESSES.append(Harness("progressive[streaming,empty,v%d]" % major, progressive("streaming", "empty", True, False, major),
                             FNS, covers=("done",)))
HARNESSES.append(Harness("progressive[streaming,audio,flow]", progressive("streaming", "audio", True, True),
                         FNS + (SEG + "add_flow", SEG + "flow_block_size"), covers=("done",), max_time=400))
for mode in ("dump", "with"):
    for seekable in (True, False):
        HARNESSES.append(Harness("at_once[%s%s]" % (mode, "" if seekable else ",non seekable"),
                                 at_once(mode, "empty", seekable), FNS, covers=("done",)))
for seekable in (True, False):
    HARNESSES.append(Harness("two_segments[%s]" % ("seekable" if seekable else "non seekable"), two_segments(seekable),
                             FNS, covers=("done",)))
for first, second in (("dump", "dump"), ("start_dump", "dump"), ("with", "start_dump"), ("start_dump", "start_dump")):
    HARNESSES.append(Harness("again[%s,%s]" % (first, second), again(first, second), FNS, covers=("done",)))
for mode in ("streaming", "start_dump"):
    HARNESSES.append(Harness("refused[%s]" % mode, refused(mode), FNS + (SEG + "add_tag", SEG + "add_flow"),
                             covers=("refused",)))
for where in ("encoder", "open encoder"):
    HARNESSES.append(Harness("segments[%s]" % where, segments(where), FNS, covers=("added",)))
