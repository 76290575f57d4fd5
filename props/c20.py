"""C20: the command line tools carry essence into GSF files and back."""
import json
from fractions import Fraction
from uuid import UUID
from pyvc.prop import Harness
from spec import gsf as S
from spec.gsf_contracts import CONTRACTS  # noqa: F401
from .c14 import header, bits, length, FREQ, CHANNELS
from .common import SYNC_BLOCK

T = "mediagrains.tools."
WRAP = (T + "wrap_in_gsf:wrap_to_gsf", T + "_file_or_pipe:file_or_pipe", T + "_file_or_pipe:InputStreamWrapper.read",
        "mediagrains.gsf:GSFEncoder.start_dump", "mediagrains.gsf:GSFEncoder.end_dump", "mediagrains.gsf:GSFEncoder.add_segment",
        "mediagrains.gsf:GSFEncoderSegment.add_grains", "mediagrains.utils.grain_wrapper:GrainWrapper.grains")
EXTRACT = (T + "extract_from_gsf:extract_gsf_essence", T + "_file_or_pipe:file_or_pipe", "mediagrains.gsf:GSFDecoder.grains",
           "mediagrains.gsf:GSFDecoder.decode_file_headers")
PIPE = tuple(T + "_file_or_pipe:InputStreamWrapper." + n for n in ("read", "seek", "tell"))
FLOW, SRC = UUID(int=0x1234567890abcdef), UUID(int=77)
IDS = ["--flow-id", str(FLOW), "--source-id", str(SRC)]


def run(c, tool, argv, data, pipe_in, pipe_out):
    """The bytes a tool makes of its input, through files or pipes."""
    out, text, left = c.tool(tool, ["-" if pipe_in else "@in", "-" if pipe_out else "@out"] + argv,
                             {} if pipe_in else {"in": data}, data if pipe_in else b"")
    return out if pipe_out else left["out"]


def there_and_back(kind, n, tail, pipes):
    def h(c):
        import mediagrains.gsf as G
        start = c.choose("start", ["0:0", "1420102800:0"])
        argv = IDS + ["--start-ts", start]
        if kind == "video":
            fmt, size, (num, den) = c.choose("fmt", [("U8_422", 4 * 2 * 2, (25, 1)), ("S16_420", 4 * 2 * 3, (30, 1))])
            argv += ["--size", "4x2", "--format", fmt] + (["--rate", "30"] if num == 30 else [])
            tool = "wrap_video_in_gsf"
        else:
            fmt, size, ch, per, sr = c.choose("fmt", [("S16_INTERLEAVED", 2 * 2 * 480, None, 480, None),
                                                      ("S24_PLANES", 4 * 3 * 10, 3, 10, 32000)])
            argv += ["--format", fmt, "--samples-per-grain", str(per)] + (["--channels", "3"] if ch else []) + (
                ["--sample-rate", str(sr)] if sr else [])
            num, den = sr or 48000, per
            tool = "wrap_audio_in_gsf"
        pieces = [c.bytes("p%d" % i, size) for i in range(n)]
        if tail:
            pieces.append(c.bytes("tail", c.int("ntail", 1, size - 1)))
        data = b""
        for p in pieces:
            data = data + p
        gsf = run(c, tool, argv, data, "i" in pipes, "o" in pipes)
        head, segs = G.loads(gsf)
        c.prove(len(head["segments"]) == 1 and head["segments"][0]["id"] == FLOW, "one segment named like the flow")
        c.prove(head["segments"][0]["count"] == (-1 if "o" in pipes else len(pieces)) or head["segments"][0]["count"] == len(pieces),
                "the number of grains")
        got = segs[head["segments"][0]["local_id"]] if pieces or segs else []
        c.prove(len(got) == len(pieces), "a grain for each piece of the input", "%d for %d" % (len(got), len(pieces)))
        base = Fraction(start.split(":")[0]) * Fraction(num, den)
        for i, (g, p) in enumerate(zip(got, pieces)):
            c.prove_bytes_eq(c.to_bytes(g.data), p, "grain %d holds the next bytes" % i)
            c.prove(g.origin_timestamp == c.instant(int(base) + i, Fraction(num, den)), "grain %d has the next time" % i)
            c.prove(g.flow_id == FLOW and g.source_id == SRC, "flow and source")
            c.prove(g.rate == Fraction(num, den) and g.duration == Fraction(den, num), "rate and duration")
            if kind == "video":
                c.prove(g.grain_type == "video" and g.cog_frame_format.name == fmt and (g.width, g.height) == (4, 2), "format")
            else:
                c.prove(g.grain_type == "audio" and g.cog_audio_format.name == fmt and (g.channels, g.samples, g.sample_rate) ==
                        (ch or 2, per, sr or 48000), "format")
        back = run(c, "extract_gsf_essence", [], gsf, "I" in pipes, "O" in pipes)
        c.prove_bytes_eq(back, data, "extracting gives the essence back")
        c.cover("back")
    return h


def aac(n, pipes):
    def h(c):
        import mediagrains.gsf as G
        per = c.choose("samples", [None, 2048])
        fi, ci = c.choose("freq", [3, 4]), 2
        data, frames = b"", []
        for i in range(n):
            s = bits(c, "f%d." % i)
            c.assume(length(s) >= 7)
            frames.append(header(c, "f%d." % i, s, freq=fi if i == 0 else None, conf=(ci // 4, ci % 4) if i == 0 else None)
                          + c.bytes("f%d.payload" % i, length(s) - 7))
            data = data + frames[-1]
        gsf = run(c, "wrap_audio_in_gsf", IDS + ["--format", "AAC"] + (["--samples-per-grain", str(per)] if per else []), data,
                  "i" in pipes, "o" in pipes)
        head, segs = G.loads(gsf)
        got = segs[head["segments"][0]["local_id"]] if n or segs else []
        c.prove(len(got) == n, "a grain for each frame")
        for i, g in enumerate(got):
            c.prove_bytes_eq(c.to_bytes(g.data), frames[i], "grain %d is frame %d" % (i, i))
            c.prove(g.origin_timestamp == c.instant(i * (per or 1024), Fraction(FREQ[fi])), "frame time")
            c.prove(g.grain_type == "coded_audio" and g.flow_id == FLOW and g.source_id == SRC, "kind, flow, source")
            c.prove(c.And(g.sample_rate == FREQ[fi], g.channels == CHANNELS[ci], g.samples == (per or 1024)), "format of the stream")
        c.prove_bytes_eq(run(c, "extract_gsf_essence", [], gsf, "I" in pipes, "O" in pipes), data, "extracting gives the essence back")
        c.cover("back")
    return h


def only(picks):
    """Extraction of chosen segments: their data in the order of the file."""
    def h(c):
        locals_ = [3, 0, 3, 7]
        parts, body = [], b""
        for i, l in enumerate(locals_):
            d = S.draw(c, "g%d." % i, "audio", 8, timelabels=False)
            parts.append(d.data)
            body = body + S.grai(c, d, l, 8)
        fid, created = c.uuid("id"), c.datetime("created")
        segs = b""
        for l in (3, 0, 7):
            segs = segs + S.segm_block(c, l, c.uuid("sid%d" % l), -1, b"", b"")
        gsf = S.file_header(c, 8, 0) + S.head_block(c, fid, created, segs, b"") + body + S.TERMINATOR
        argv = []
        for p in picks:
            argv += ["--only-id", str(p)]
        out = run(c, "extract_gsf_essence", argv, gsf, False, True)
        want = b""
        for l, p in zip(locals_, parts):
            if not picks or l in picks:
                want = want + p
        c.prove_bytes_eq(out, want, "the data of the chosen segments, in file order")
        c.cover("extracted")
    return h


class Chunks(object):
    """A stream that delivers its bytes in pieces of its own choosing."""

    def __init__(self, c, pieces):
        self.c, self.left = c, [p for p in pieces]

    def read(self, n=-1):
        c = self.c
        if n is None or not (n >= 0):
            r = b""
            while self.left:
                r = r + self.left.pop(0)
            return r
        while self.left:
            p = self.left[0]
            m = c.blen(p)
            if m == 0:
                self.left.pop(0)
                continue
            if m <= n:
                return self.left.pop(0)
            self.left[0] = p[n:]
            return p[:n]
        return b""


def pipe(steps, k):
    """A pipe read through InputStreamWrapper is the concatenation of what arrives."""
    def h(c):
        from mediagrains.tools._file_or_pipe import InputStreamWrapper
        pieces = [c.bytes("p%d" % i, c.size("n%d" % i, 1)) for i in range(k)]
        data = b""
        for p in pieces:
            data = data + p
        w = InputStreamWrapper(Chunks(c, pieces))
        total, pos = c.blen(data), 0
        for i, s in enumerate(steps):
            if s == "read":
                n = c.size("r%d" % i)
                end = c.ite(pos + n < total, pos + n, total)
                c.prove_bytes_eq(w.read(n), data[pos:end], "read %d" % i)
                pos = end
            elif s == "rest":
                c.prove_bytes_eq(w.read(), data[pos:total], "read everything %d" % i)
                pos = total
            else:
                n = c.size("s%d" % i)
                c.assume(pos + n <= total)
                pos = pos + n
                c.prove((w.seek(n, 1) if s == "skip" else w.seek(pos)) == pos, "seek %d" % i)
            c.prove(w.tell() == pos, "position %d" % i)
        c.cover("read")
    return h


def probe(c):
    """What gsf_probe prints of a file made by the encoder."""
    import mediagrains.gsf as G
    from .c09 import make
    import io
    n = c.int("n", 1, 3)
    ids = [c.choose("l%d" % i, [0, 5]) for i in range(n)]
    f = io.BytesIO()
    sid = {0: c.uuid("sid1"), 5: c.uuid("sid5")}
    enc = G.GSFEncoder(f)
    for l in (0, 5):
        enc.add_segment(id=sid[l], local_id=l)
    grains = []
    with enc:
        for i, l in enumerate(ids):
            g = make(c, c.choose("kind%d" % i, ["empty", "audio", "coded_video"]), "g%d." % i)[0]
            if g.grain_type == "audio":
                c.assume(g.sample_rate > 0)
            g.origin_timestamp = c.timestamp("o%d" % i, nonneg=True, maxsec=1 << 30)
            grains.append(g)
            enc.add_grain(g, segment_local_id=l)
    opts = c.choose("opts", [[], ["-a"], ["-g"], ["-a", "-g"]])
    out, text, left = c.tool("gsf_probe", ["@in"] + opts, {"in": f.getvalue()})
    d = json.loads(text)
    c.prove(sorted(d["segments"]) == ["0", "5"], "segments by local id")
    for l in (0, 5):
        s, mine = d["segments"][str(l)], [g for g, k in zip(grains, ids) if k == l]
        c.prove(s["id"] == str(sid[l]) and s["count"] == len(mine), "identity and count")
        if mine:
            want = mine[0].origin_timerange()
            for g in mine[1:]:
                want = want.extend_to_encompass_timerange(g.origin_timerange())
            c.prove(s["timerange"] == str(want), "range of times", "%r %r" % (s["timerange"], str(want)))
        if "-g" in opts:
            c.prove(len(s.get("grain_data", [])) == len(mine), "every grain")
            for g, x in zip(mine, s.get("grain_data", [])):
                c.prove(x["flow_id"] == str(g.flow_id) and x["grain_type"] == g.grain_type, "grain metadata")
        if "-a" in opts:
            c.prove([x["origin_timestamp"] for x in s.get("grain_timestamps", [])] == [str(g.origin_timestamp) for g in mine],
                    "every time")
    c.cover("probed")


HARNESSES = []
for _k in ("video", "audio"):
    for _n, _t, _p in ((0, False, ""), (1, False, "i"), (2, True, ""), (1, True, "ioIO"), (2, False, "oI"), (0, True, "iO")):
        HARNESSES.append(Harness("%s %d%s %s" % (_k, _n, " and a part" if _t else "", _p), there_and_back(_k, _n, _t, _p),
                                 functions=WRAP + EXTRACT + (T + "wrap_in_gsf:wrap_%s_in_gsf" % _k,), covers=("back",)))
for _n, _p in ((0, ""), (1, "i"), (2, "oIO"), (2, "")):
    HARNESSES.append(Harness("aac %d %s" % (_n, _p), aac(_n, _p), functions=WRAP + EXTRACT + (
        T + "wrap_in_gsf:wrap_audio_in_gsf", "mediagrains.utils.adts_aac_grain_wrapper:ADTSAACGrainWrapper.grains"), covers=("back",)))
for _p in ((), (3,), (0,), (0, 7), (9,)):
    HARNESSES.append(Harness("extract only %r" % (_p,), only(_p), functions=EXTRACT + SYNC_BLOCK, covers=("extracted",)))
for _s in (("read",), ("rest",), ("read", "read"), ("skip", "read"), ("read", "seek", "read", "rest"), ("read", "rest", "read")):
    for _k in (1, 2, 3):
        if len(_s) * _k < 9:
            HARNESSES.append(Harness("pipe %s of %d" % (" ".join(_s), _k), pipe(_s, _k), functions=PIPE, covers=("read",)))
HARNESSES.append(Harness("probe", probe, functions=(T + "extract_from_gsf:gsf_probe",), mode="bounded"))
