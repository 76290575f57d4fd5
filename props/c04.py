"""C04: which grains a decoder yields: selection by local id, unknown blocks, terminators, concatenation, loading."""
from pyvc.prop import Harness
from spec import gsf as S
from spec.gsf_contracts import CONTRACTS
from .streams import Sync, select, unknown_blocks, unknown_in_head, concat, after_terminator
from .common import SYNC_BLOCK, BASE, grain_fns

SESS = "mediagrains.gsf:GSFSyncDecoderSession."
DEC = "mediagrains.gsf:GSFDecoder."
FNS = (SESS + "grains", SESS + "_decode_file_headers", SESS + "_decode_ssb_header",
       "mediagrains.gsf:BaseGSFDecoderSession._sync_decode_head", "mediagrains.gsf:SyncGSFBlock.read_datetime") + BASE + SYNC_BLOCK


SYNC = Sync()


def loading(mode, kind):
    """The grain's data: read at once, deferred until used (leaving the reader where it was), or never read."""
    def h(c):
        import mediagrains.gsf as G
        d = S.draw(c, "g.", kind, 9, timelabels=False, parts=False)
        e = S.draw(c, "h.", "empty", 9, timelabels=False)
        l, m = c.int("l", 0, 65535), c.int("m", 0, 65535)
        pre = c.bytes("pre", c.size("npre"))
        a, b = S.grai(c, d, l, 9), S.grai(c, e, m, 9)
        how = {} if mode == "default" else {"loading_mode": getattr(G.GrainDataLoadingMode, mode)}
        f, it = SYNC.grains(c, pre + a + b + S.TERMINATOR, c.blen(pre), **how)
        g, gl = next(it)
        c.prove(gl == l, "local id")
        S.check_grain(c, g, d, "grain", data=False)
        end = c.blen(pre) + c.blen(a)
        c.prove(f.tell() == end, "reader left at the end of the block")
        data_at = end - d.dlen
        touched = c.was_read(f, data_at, d.dlen)
        if mode == "LOAD_IMMEDIATELY":
            c.prove(c.Or(d.dlen == 0, touched), "data read at once")
        else:
            c.prove(c.Not(touched), "data not read while reading the stream")
        if mode == "LOAD_NEVER":
            c.prove(not g.data or len(g.data) == 0, "no data")
        else:
            c.prove(g.length == d.dlen, "length")
            c.prove_bytes_eq(c.to_bytes(g.data if g.data is not None else b""), d.data, "data")
            c.prove(f.tell() == end, "using the data leaves the reader where it was")
        g2, gl2 = next(it)
        c.prove(gl2 == m, "next local id")
        S.check_grain(c, g2, e, "next grain", data=False)
        c.cover("decoded")
    return h


def deprecated_api(args, kind):
    """decode_file_headers() and grains() of the decoder itself."""
    def h(c):
        import mediagrains.gsf as G
        d = S.draw(c, "g.", kind, 9, timelabels=False, parts=False)
        l, lid = c.int("l", 0, 65535), c.int("only", 0, 65535)
        fid, created = c.uuid("id"), c.datetime("created")
        head = S.file_header(c, 9, 0) + S.head_block(c, fid, created, b"", b"")
        f = c.file(head + S.grai(c, d, l, 9) + S.TERMINATOR)
        dec = G.GSFDecoder(file_data=f)
        fh = dec.decode_file_headers()
        c.prove(fh["id"] == fid, "header")
        got = list(dec.grains(local_ids=[lid], **args))
        if bool(l == lid):
            c.prove(len(got) == 1, "one grain")
            S.check_grain(c, got[0][0], d, "grain", data=False)
            if args.get("skip_data"):
                c.prove(not got[0][0].data or len(got[0][0].data) == 0, "no data")
            else:
                c.prove_bytes_eq(c.to_bytes(got[0][0].data if got[0][0].data is not None else b""), d.data, "data")
        else:
            c.prove(len(got) == 0, "none selected")
        c.cover("decoded")
    return h


HARNESSES = []
for n, kinds in ((0, ("empty",)), (1, ("empty", "audio")), (2, ("empty", "empty", "empty"))):
    HARNESSES.append(Harness("select[%d ids,%d grains]" % (n, len(kinds)), select(SYNC, n, kinds), FNS, covers=("decoded",)))
for where in ("before", "between", "short", "in grai", "end of grai", "in gbhd", "no grdt", "instead of grdt", "end"):
    for kind in (("empty",) if where in ("before", "between", "short", "end") else ("empty", "video", "audio")):
        HARNESSES.append(Harness("unknown[%s,%s]" % (where, kind), unknown_blocks(SYNC, where, kind), FNS + grain_fns(kind),
                                 covers=("decoded",)))
for where in ("first", "middle", "last", "in segm", "before head"):
    HARNESSES.append(Harness("unknown in head[%s]" % where, unknown_in_head(SYNC, where), FNS, covers=("decoded",)))
for support, first, second, term in ((True, 9, 9, True), (True, 7, 9, False), (True, 8, 7, True), (False, 9, 9, False),
                                     (False, 9, 7, True)):
    HARNESSES.append(Harness("concatenation[%s,v%d+v%d%s]" % ("on" if support else "off", first, second,
                                                              ",terminated" if term else ""),
                             concat(SYNC, support, first, second, term), FNS + (DEC + "__enter__",), covers=("decoded",)))
for support in (True, False):
    HARNESSES.append(Harness("after terminator[%s]" % ("on" if support else "off"), after_terminator(SYNC, support), FNS,
                             covers=("decoded",)))
for mode in ("LOAD_IMMEDIATELY", "ALWAYS_LOAD_DEFER_IF_POSSIBLE", "ALWAYS_DEFER_LOAD_IF_POSSIBLE", "LOAD_NEVER", "default"):
    for kind in ("empty", "video", "coded_audio") if mode == "default" else ("empty", "audio"):
        HARNESSES.append(Harness("loading[%s,%s]" % (mode, kind), loading(mode, kind), FNS + grain_fns(kind) + (
            "mediagrains.utils.iobytes:IOBytes.__init__", "mediagrains.utils.iobytes:IOBytes.__len__"), covers=("decoded",)))
for name, args in (("", {}), ("skip_data", {"skip_data": True}), ("load_lazily", {"load_lazily": True})):
    HARNESSES.append(Harness("deprecated api[%s]" % name, deprecated_api(args, "audio"),
                             (DEC + "decode_file_headers", DEC + "grains") + FNS, covers=("decoded",)))
