"""C01: every grain is written as exactly the bytes the published GSF format prescribes."""
from pyvc.prop import Harness
from spec import gsf as S
from spec.gsf_contracts import CONTRACTS as _ALL

CONTRACTS = [c for c in _ALL if "_encode_" in c.target]

SEG = "mediagrains.gsf:GSFEncoderSegment."
COMMON = (SEG + "encode_grain", SEG + "_gbhd_size_for_grain", "mediagrains.gsf:_encode_ts", "mediagrains.gsf:_encode_ts_v7",
          "mediagrains.gsf:_encode_rational", "mediagrains.gsf:_encode_uuid", "mediagrains.gsf:_encode_bool",
          "mediagrains.gsf:_encode_sint", "mediagrains.gsf:_encode_uint")
PER = {"empty": (), "video": ("_encode_vghd_for_grain", "_vghd_size_for_grain"),
       "coded_video": ("_encode_cghd_for_grain", "_cghd_size_for_grain"),
       "audio": ("_encode_aghd_for_grain", "_aghd_size_for_grain"),
       "coded_audio": ("_encode_cahd_for_grain", "_cahd_size_for_grain"),
       "event": ("_encode_eghd_for_grain", "_eghd_size_for_grain")}


def encode(kind, major, tl, parts):
    def h(c):
        import mediagrains.gsf as G
        d = S.draw(c, "g.", kind, major, timelabels=tl, parts=parts)
        f = c.file(b"")
        enc = G.GSFEncoder(f, major=major, segments=[])
        local = c.int("local", 0, 65535)
        seg = enc.add_segment(id=c.uuid("sid"), local_id=local)
        before = seg.get_write_count()
        got = seg.encode_grain(S.make_grain(c, d))
        c.cover("encoded")
        c.prove_bytes_eq(got, S.grai(c, d, local, major), "grai block")
        c.prove(seg.get_write_count() == before + 1, "written grains are counted")
    return h


HARNESSES = []
for kind in S.KINDS:
    for major in (7, 8, 9):
        for tl in (False, True):
            for parts in ((True, False) if kind in ("video", "coded_video") else (None,)):
                name = "encode_grain[%s,v%d%s%s]" % (kind, major, ",timelabels" if tl else "",
                                                     ",parts" if parts else "")
                HARNESSES.append(Harness(name, encode(kind, major, tl, parts),
                                         COMMON + tuple(SEG + x for x in PER[kind]), covers=("encoded",)))


# --------------------------------------------------------------------------- whole files
ENC = "mediagrains.gsf:GSFEncoder."
OPEN = "mediagrains.gsf:OpenGSFEncoder."
OBASE = "mediagrains.gsf:OpenGSFEncoderBase."
TAG = "mediagrains.gsf:GSFEncoderTag."
FILE_FNS = (ENC + "__init__", ENC + "__enter__", ENC + "__exit__", ENC + "add_segment", ENC + "add_tag",
            OBASE + "__init__", OPEN + "__init__", OPEN + "_truncate", OPEN + "_start_dump", OPEN + "_end_dump",
            OBASE + "_encode_file_header", OBASE + "_encode_head_block", OBASE + "_encode_all_grains",
            SEG + "__init__", SEG + "_encode_header", SEG + "encode_all_grains", SEG + "segm_block_size", SEG + "count",
            TAG + "__init__", TAG + "encoded_key", TAG + "encoded_value", TAG + "tag_block_size", TAG + "__bytes__",
            "mediagrains.gsf:_ensure_utc_datetime", "mediagrains.gsf:_encode_uuid")


def tag_family(c, p, cap=3):
    n = c.size(p + "n", 0, 4000, cap=cap)       # keeps the head block below 2**32 bytes, its size field's range
    ks, vs = c.tarray(p + "key", 65535), c.tarray(p + "value", 65535)
    return c.list(n, lambda k: (ks(k), vs(k))), c.rep(n, lambda k: S.tag_block(c, ks(k), vs(k)))


def grain_family(c, p, kind, major, lid):
    """Any number of grains of one kind: (number, list of grains, their bytes)."""
    if not kind:
        return 0, [], b""
    n = c.size(p + "n", 0, 1 << 40, cap=3)

    def d(k):
        return S.draw(c.at(k), p, kind, major, timelabels=False, parts=False)
    if c.symbolic:
        d(c.ex.fresh_int("any"))        # fixes which optional parts the grains have
    return n, c.list(n, lambda k: S.make_grain(c, d(k))), c.rep(n, lambda k: S.grai(c, d(k), lid, major))


def encode_file(nseg, stags, grains, seekable=True):
    def h(c):
        import mediagrains.gsf as G
        major, minor = c.int("major", 7, 9), c.int("minor", 0, 65535)
        fid, created = c.uuid("id"), c.datetime("created")
        tags, tagb = tag_family(c, "tag") if not grains else ([], b"")
        segs, body, gb = [], b"", b""
        todo = []
        kind = "empty"
        for i in range(nseg):
            t, tb = tag_family(c, "s%dtag" % i, 2) if stags else ([], b"")
            lid, sid = c.int("s%d.local" % i, 0, 65535), c.uuid("s%d.id" % i)
            for s in segs:
                c.assume(s["local_id"] != lid)
            segs.append({"id": sid, "local_id": lid, "tags": t})
            ng, gs, gbytes = grain_family(c, "s%d.g." % i, grains, major, lid)
            todo.append((lid, gs))
            gb = gb + gbytes
            body = body + S.segm_block(c, lid, sid, ng, tb)
        old = c.bytes("old", c.size("nold"))
        f = c.file(old, c.blen(old), seekable)
        enc = G.GSFEncoder(f, major=major, minor=minor, id=fid, created=created, tags=tags, segments=segs)
        with enc as e:
            for lid, gs in todo:
                e.add_grains(gs, segment_local_id=lid)
        c.cover("written")
        want = S.file_header(c, major, minor) + S.head_block(c, fid, created, body, tagb) + gb + S.TERMINATOR
        c.prove_bytes_eq(c.content(f), want if seekable else old + want, "file")
    return h


for nseg, stags, grains in ((0, False, ""), (1, True, ""), (1, False, "empty"), (1, False, "audio"), (1, False, "coded_video"), (2, False, "empty")):
    for seekable in ((True, False) if nseg < 2 else (True,)):
        HARNESSES.append(Harness("encode_file[%d segments%s%s%s]" % (
            nseg, ",tags" if stags else "", ",%s grains" % grains if grains else "", "" if seekable else ",non seekable"),
            encode_file(nseg, stags, grains, seekable), FILE_FNS, covers=("written",)))


def dumps_fn(c):
    """dumps() produces the file the encoder writes, in one segment with a fresh id."""
    import mediagrains.gsf as G
    fid, created = c.uuid("id"), c.datetime("created")
    tags, tagb = tag_family(c, "tag")
    stags, stagb = tag_family(c, "stag")
    n = 2
    ds = [S.draw(c, "g%d." % j, "empty", 9, timelabels=False) for j in range(n)]
    got = G.dumps([S.make_grain(c, d) for d in ds], id=fid, created=created, tags=tags, segment_tags=stags)
    c.cover("written")
    gb = b""
    for d in ds:
        gb = gb + S.grai(c, d, 1, 9)
    sid = got[53:69]
    segm = S.block(c, b"segm", S.u(c, 1, 2) + sid + S.s(c, n, 8) + stagb)
    c.prove_bytes_eq(got, S.file_header(c, 9, 0) + S.head_block(c, fid, created, segm, tagb) + gb + S.TERMINATOR, "file")


HARNESSES.append(Harness("dumps", dumps_fn, ("mediagrains.gsf:dumps", "mediagrains.gsf:dump") + FILE_FNS, covers=("written",)))
