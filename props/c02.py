"""C02: a decoder returns exactly the contents of any well-formed GSF file."""
from pyvc.prop import Harness
from spec import gsf as S
from spec.gsf_contracts import CONTRACTS
from .common import SYNC_BLOCK, BASE, grain_fns, tag_list, flow_desc, flow_bytes, tags_bytes

SESS = "mediagrains.gsf:GSFSyncDecoderSession."
TIER_HEAVY = 3.0


def decode_grain(kind, major, tl, parts):
    """One grain written as the format prescribes, anywhere in a file, is read back exactly."""
    def h(c):
        import mediagrains.gsf as G
        from mediagrains.grains import GrainFactory
        d = S.draw(c, "g.", kind, major, timelabels=tl, parts=parts)
        pre = c.bytes("pre", c.size("npre"))
        lid = c.int("local", 0, 65535)
        post = c.bytes("post", c.size("npost"))
        grai = S.grai(c, d, lid, major)
        f = c.file(pre + grai + S.TERMINATOR + post, c.blen(pre))
        sess = G.GSFSyncDecoderSession(GrainFactory, f)
        sess.major = major
        it = iter(sess.grains(loading_mode=G.GrainDataLoadingMode.LOAD_IMMEDIATELY))
        g, l = next(it)
        c.cover("decoded")
        c.prove(l == lid, "local id")
        S.check_grain(c, g, d, "grain")
    return h


def stream_position(kind, major):
    """Asking for the next grain leaves the reader exactly at the end of the block (so the induction over blocks holds)."""
    def h(c):
        import mediagrains.gsf as G
        from mediagrains.grains import GrainFactory
        d1 = S.draw(c, "a.", kind, major, timelabels=False, parts=False)
        d2 = S.draw(c, "b.", "empty", major, timelabels=False)
        pre = c.bytes("pre", c.size("npre"))
        l1, l2 = c.int("l1", 0, 65535), c.int("l2", 0, 65535)
        a, b = S.grai(c, d1, l1, major), S.grai(c, d2, l2, major)
        f = c.file(pre + a + b + S.TERMINATOR, c.blen(pre))
        sess = G.GSFSyncDecoderSession(GrainFactory, f)
        sess.major = major
        it = iter(sess.grains(loading_mode=G.GrainDataLoadingMode.LOAD_IMMEDIATELY))
        g, l = next(it)
        c.prove(l == l1, "first local id")
        c.prove(f.tell() == c.blen(pre) + c.blen(a), "reader left at the end of the first grain")
        g, l = next(it)
        c.cover("second")
        c.prove(l == l2, "second local id")
        S.check_grain(c, g, d2, "second")
        c.prove(f.tell() == c.blen(pre) + c.blen(a) + c.blen(b), "reader left at the end of the second grain")
        n = 0
        for _ in it:
            n += 1
        c.prove(n == 0, "the terminator ends the stream")
    return h


def headers(ntags, nseg, nstags, flow):
    def h(c):
        import mediagrains.gsf as G
        major, minor = c.int("major", 7, 9), c.int("minor", 0, 65535)
        fid, created = c.uuid("id"), c.datetime("created")
        tags = tag_list(c, "tag", ntags)
        segs, body = [], b""
        for i in range(nseg):
            s = {"local_id": c.int("s%d.local" % i, 0, 65535), "id": c.uuid("s%d.id" % i),
                 "count": c.int("s%d.count" % i, -1, (1 << 63) - 1), "tags": tag_list(c, "s%d.tag" % i, nstags),
                 "flow": flow_desc(c, "s%d.flow." % i) if flow else None}
            segs.append(s)
            body = body + S.segm_block(c, s["local_id"], s["id"], s["count"], tags_bytes(c, s["tags"]),
                                       flow_bytes(c, s["flow"]) if flow else b"")
        rest = c.bytes("rest", c.size("nrest"))
        head = S.file_header(c, major, minor) + S.head_block(c, fid, created, body, tags_bytes(c, tags))
        f = c.file(head + rest)
        with G.GSFDecoder(file_data=f) as dec:
            c.cover("decoded")
            c.prove(c.And(dec.major == major, dec.minor == minor), "version")
            c.prove(f.tell() == c.blen(head), "reader left at the end of the head block")
            fh = dec.file_headers
            c.prove(fh["id"] == fid, "file id")
            c.prove(fh["created"] == created, "created")
            c.prove(len(fh["tags"]) == ntags, "number of tags")
            for got, want in zip(fh["tags"], tags):
                c.prove(c.And(got[0] == want[0], got[1] == want[1]), "tag")
            c.prove(len(fh["segments"]) == nseg, "number of segments")
            for got, want in zip(fh["segments"], segs):
                c.prove(c.And(got["local_id"] == want["local_id"], got["id"] == want["id"],
                              got["count"] == want["count"]), "segment header")
                c.prove(len(got["tags"]) == nstags, "number of segment tags")
                for a, b in zip(got["tags"], want["tags"]):
                    c.prove(c.And(a[0] == b[0], a[1] == b[1]), "segment tag")
                if flow:
                    g, w = got["flow"], want["flow"]
                    c.prove(c.And(g["source_id"] == w["source_id"], g["flow_id"] == w["flow_id"],
                                  g["format"] == w["format"], g["data"] == w["text"]), "flow")
                else:
                    c.prove("flow" not in got, "no flow")
    return h


def whole_file(major, kinds):
    """loads() of a whole file: grains are grouped per segment in the order they were written."""
    def h(c):
        import mediagrains.gsf as G
        fid, created = c.uuid("id"), c.datetime("created")
        ds = [S.draw(c, "g%d." % i, k, major, timelabels=False, parts=False) for i, k in enumerate(kinds)]
        lids = [c.int("l%d" % i, 0, 65535) for i in range(len(kinds))]
        b = S.file_header(c, major, 0) + S.head_block(c, fid, created, b"", b"")
        for d, l in zip(ds, lids):
            b = b + S.grai(c, d, l, major)
        head, grains = G.loads(b + S.TERMINATOR)
        c.cover("decoded")
        c.prove(head["id"] == fid, "file id")
        order = []
        for i, (d, l) in enumerate(zip(ds, lids)):
            prev = 0
            for j in range(i):
                prev = prev + (1 if bool(lids[j] == l) else 0)
            c.prove(l in grains, "segment present")
            lst = grains[l]
            c.prove(len(lst) > prev, "grain present in its segment")
            S.check_grain(c, lst[prev], d, "grain %d" % i)
            order.append(lst)
        c.prove(sum(len(x) for x in grains.values()) == len(kinds), "no other grains")
    return h


def raw_meta(major):
    """What a custom grain constructor is given: the metadata dictionary and the data, components with their offsets."""
    def h(c):
        import mediagrains.gsf as G
        d = S.draw(c, "g.", "video", major, timelabels=True, parts=True)
        lid = c.int("local", 0, 65535)
        seen = []

        def parse(meta, data):
            seen.append((meta, data))
            return len(seen)
        f = c.file(S.grai(c, d, lid, major) + S.TERMINATOR)
        sess = G.GSFSyncDecoderSession(parse, f)
        sess.major = major
        got = list(sess.grains(loading_mode=G.GrainDataLoadingMode.LOAD_IMMEDIATELY))
        c.prove(len(got) == 1 and len(seen) == 1, "one grain")
        c.prove(c.And(got[0][0] == 1, got[0][1] == lid), "what the constructor returns is yielded")
        meta, data = seen[0]
        m = meta["grain"]
        c.prove(c.And(m["source_id"] == d.src, m["flow_id"] == d.flow, m["grain_type"] == "video"), "ids and type")
        cf = m["cog_frame"]
        c.prove(c.And(cf["format"] == d.format, cf["width"] == d.width, cf["height"] == d.height,
                      cf["layout"] == d.layout, cf["extension"] == d.extension), "frame")
        total = c.prefix(lambda k: d.comp["length"](k))

        def cc(x, k, n):
            for f in ("width", "height", "stride", "length"):
                c.prove(x[f] == d.comp[f](k), n + "." + f)
            c.prove(x["offset"] == total(k), n + ".offset")
        c.prove_list(cf["components"], d.ncomp, cc, "components")
        c.prove_bytes_eq(data if data is not None else b"", d.data, "data")
        c.cover("decoded")
    return h


HARNESSES = []
for major in (7, 9):
    HARNESSES.append(Harness("raw_meta[v%d]" % major, raw_meta(major), (SESS + "grains",) + BASE + SYNC_BLOCK, covers=("decoded",)))
for kind in S.KINDS:
    for major in (7, 8, 9):
        for tl in (False, True):
            for parts in ((True, False) if kind in ("video", "coded_video") else (None,)):
                name = "decode_grain[%s,v%d%s%s]" % (kind, major, ",timelabels" if tl else "", ",parts" if parts else "")
                HARNESSES.append(Harness(name, decode_grain(kind, major, tl, parts),
                                         (SESS + "grains",) + BASE + SYNC_BLOCK + grain_fns(kind), covers=("decoded",)))
    HARNESSES.append(Harness("sequence[%s]" % kind, stream_position(kind, 9),
                             (SESS + "grains",) + BASE + SYNC_BLOCK, covers=("second",)))
for cfg in ((0, 0, 0, False), (1, 0, 0, False), (2, 1, 0, False), (0, 1, 1, False), (1, 2, 1, False), (0, 1, 2, True),
            (1, 1, 0, True)):
    HARNESSES.append(Harness("file_headers[%d tags,%d segments,%d segment tags%s]" % (
        cfg[0], cfg[1], cfg[2], ",flow" if cfg[3] else ""), headers(*cfg),
        ("mediagrains.gsf:GSFDecoder.__init__", "mediagrains.gsf:GSFDecoder.__enter__", SESS + "_decode_ssb_header",
         SESS + "_decode_file_headers", "mediagrains.gsf:BaseGSFDecoderSession._sync_decode_head",
         "mediagrains.gsf:SyncGSFBlock.read_datetime", "mediagrains.gsf:SyncGSFBlock.read_varstring",
         "mediagrains.gsf:SyncGSFBlock.read_varbytes") + SYNC_BLOCK, covers=("decoded",)))
for major in (7, 9):
    for kinds in ((), ("empty", "audio"), ("audio", "empty", "empty")):
        HARNESSES.append(Harness("loads[v%d,%d grains]" % (major, len(kinds)), whole_file(major, kinds),
                                 ("mediagrains.gsf:loads", "mediagrains.gsf:load", "mediagrains.gsf:GSFDecoder.decode",
                                  "mediagrains.gsf:GSFDecoder._synchronously_decode"), covers=("decoded",)))
