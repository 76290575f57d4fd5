"""ITU-T H.264: the syntax elements of the units the parser reads (7.3.2) and what follows from them.

Written from the standard, independently of /repo.  A syntax element is ("u", width, value), ("ue", value) or ("se", value).
"""

HIGH = (100, 110, 122, 244, 44, 83, 86, 118, 128, 138, 139, 134, 135)     # profiles with chroma_format_idc (7.3.2.1.1)
SAR = (None, (1, 1), (12, 11), (10, 11), (16, 11), (40, 33), (24, 11), (20, 11), (32, 11), (80, 33), (18, 11), (15, 11),
       (64, 33), (160, 99), (4, 3), (3, 2), (2, 1))                        # table E-1
START3, START4 = b"\0\0\1", b"\0\0\0\1"


def encode(fields, rest, trailing=True):
    """A NAL unit as real bytes; rest: the bytes after the header elements."""
    bits = ""
    for f in fields:
        if f[0] == "u":
            v, w = f[2], f[1]
            assert 0 <= v < (1 << w) or w == 0
            bits += format(v, "0%db" % w) if w else ""
        else:
            k = f[1] if f[0] == "ue" else (2 * f[1] - 1 if f[1] > 0 else -2 * f[1])
            s = format(k + 1, "b")
            bits += "0" * (len(s) - 1) + s
    if trailing:
        bits += "".join(format(b, "08b") for b in rest)
        bits += "1"
    bits += "0" * (-len(bits) % 8)
    raw = bytes(int(bits[i:i + 8], 2) for i in range(0, len(bits), 8))
    out, zeros = bytearray(), 0
    for x in raw:
        if zeros >= 2 and x <= 3:
            out.append(3)
            zeros = 0
        out.append(x)
        zeros = zeros + 1 if x == 0 else 0
    return bytes(out)


def u(w, v):
    return ("u", w, v)


def ue(v):
    return ("ue", v)


def se(v):
    return ("se", v)


def nal_header(ref_idc, kind):
    return [u(1, 0), u(2, ref_idc), u(5, kind)]


def scaling_lists(chroma_format, lists):
    """lists: {index: deltas until the scale is zero or the list is full}."""
    out = []
    for i in range(12 if chroma_format == 3 else 8):
        d = lists.get(i)
        out.append(u(1, 0 if d is None else 1))
        out += [se(x) for x in d or ()]
    return out


def sps(s):
    """seq_parameter_set_data (7.3.2.1.1) with vui_parameters (E.1.1) up to fixed_frame_rate_flag."""
    f = nal_header(s["ref"], 7) + [u(8, s["profile"]), u(8, s["flags"]), u(8, s["level"]), ue(s["id"])]
    if s["high"]:
        f.append(ue(s["chroma"]))
        if s["chroma"] == 3:
            f.append(u(1, s["separate"]))
        f += [ue(s["luma8"]), ue(s["chroma8"]), u(1, s["bypass"])]
        f.append(u(1, 0 if s["lists"] is None else 1))
        if s["lists"] is not None:
            f += scaling_lists(s["chroma"], s["lists"])
    f += [ue(s["log2frame"]), ue(s["poc"])]
    if s["poc"] == 0:
        f.append(ue(s["log2poc"]))
    elif s["poc"] == 1:
        f += [u(1, s["zero"]), se(s["offset1"]), se(s["offset2"]), ue(len(s["cycle"]))] + [se(x) for x in s["cycle"]]
    f += [ue(s["refs"]), u(1, s["gaps"]), ue(s["width"]), ue(s["height"]), u(1, s["mbs_only"])]
    if not s["mbs_only"]:
        f.append(u(1, s["mbaff"]))
    f += [u(1, s["direct"]), u(1, 0 if s["crop"] is None else 1)]
    if s["crop"] is not None:
        f += [ue(x) for x in s["crop"]]                # left, right, top, bottom
    v = s["vui"]
    f.append(u(1, 0 if v is None else 1))
    if v is not None:
        f.append(u(1, 0 if v["aspect"] is None else 1))
        if v["aspect"] is not None:
            f.append(u(8, v["aspect"]))
            if v["sar"] is not None:
                f += [u(16, v["sar"][0]), u(16, v["sar"][1])]
        f.append(u(1, 0 if v["overscan"] is None else 1))
        if v["overscan"] is not None:
            f.append(u(1, v["overscan"]))
        f.append(u(1, 0 if v["signal"] is None else 1))
        if v["signal"] is not None:
            f += [u(3, v["signal"][0]), u(1, v["signal"][1]), u(1, 0 if v["colour"] is None else 1)]
            if v["colour"] is not None:
                f += [u(8, x) for x in v["colour"]]
        f.append(u(1, 0 if v["location"] is None else 1))
        if v["location"] is not None:
            f += [ue(x) for x in v["location"]]
        f.append(u(1, 0 if v["timing"] is None else 1))
        if v["timing"] is not None:
            f += [u(32, v["timing"][0]), u(32, v["timing"][1]), u(1, v["timing"][2])]
    return f


def pps(p):
    """pic_parameter_set_rbsp (7.3.2.2) up to redundant_pic_cnt_present_flag."""
    f = nal_header(p["ref"], 8) + [ue(p["id"]), ue(p["sps"]), u(1, p["entropy"]), u(1, p["order"])]
    g = p["groups"]
    f.append(ue(0 if g is None else g["n"]))
    if g is not None:
        f.append(ue(g["type"]))
        if g["type"] == 0:
            f += [ue(x) for x in g["runs"]]                                  # n + 1
        elif g["type"] == 2:
            f += [ue(x) for x in g["corners"]]                               # 2 n
        elif g["type"] in (3, 4, 5):
            f += [u(1, g["direction"]), ue(g["rate"])]
        elif g["type"] == 6:
            w = (g["n"]).bit_length()                                        # Ceil(Log2(n + 1))
            f += [ue(len(g["ids"]) - 1)] + [u(w, x) for x in g["ids"]]
    f += [ue(p["l0"]), ue(p["l1"]), u(1, p["weighted"]), u(2, p["bipred"]), se(p["qp"]), se(p["qs"]), se(p["qpc"]),
          u(1, p["deblock"]), u(1, p["intra"]), u(1, p["redundant"])]
    return f


def slice_header(h, s, p):
    """slice_header (7.3.3) up to redundant_pic_cnt."""
    f = nal_header(h["ref"], h["kind"]) + [ue(h["first_mb"]), ue(h["type"]), ue(h["pps"])]
    if s["high"] and s["chroma"] == 3 and s["separate"]:
        f.append(u(2, h["plane"]))
    f.append(u(s["log2frame"] + 4, h["frame_num"]))
    field = 0
    if not s["mbs_only"]:
        field = h["field"]
        f.append(u(1, field))
        if field:
            f.append(u(1, h["bottom"]))
    if h["kind"] == 5:
        f.append(ue(h["idr_id"]))
    if s["poc"] == 0:
        f.append(u(s["log2poc"] + 4, h["lsb"]))
        if p["order"] and not field:
            f.append(se(h["delta_bottom"]))
    if s["poc"] == 1 and not s["zero"]:
        f.append(se(h["delta0"]))
        if p["order"] and not field:
            f.append(se(h["delta1"]))
    if p["redundant"]:
        f.append(ue(h["redundant"]))
    return f


def differs(c, a, b, s, p):
    """The terms of 7.4.1.2.4, as (name, truth value): slice b begins another primary coded picture than slice a."""
    field_a, field_b = (0, 0) if s["mbs_only"] else (a["field"], b["field"])
    out = [("pic_parameter_set_id", a["pps"] != b["pps"]), ("frame_num", a["frame_num"] != b["frame_num"]),
           ("field_pic_flag", field_a != field_b),
           ("bottom_field_flag", field_a == 1 and field_b == 1 and a["bottom"] != b["bottom"]),
           ("nal_ref_idc", c.Or(c.And(a["ref"] == 0, b["ref"] != 0), c.And(a["ref"] != 0, b["ref"] == 0))),
           ("IdrPicFlag", (a["kind"] == 5) != (b["kind"] == 5))]
    if a["kind"] == 5 and b["kind"] == 5:
        out.append(("idr_pic_id", a["idr_id"] != b["idr_id"]))
    bottom = p["order"]
    if s["poc"] == 0:
        out.append(("pic_order_cnt_lsb", a["lsb"] != b["lsb"]))
        out.append(("delta_pic_order_cnt_bottom",
                    (a["delta_bottom"] if bottom and not field_a else 0) != (b["delta_bottom"] if bottom and not field_b else 0)))
    if s["poc"] == 1 and not s["zero"]:
        out.append(("delta_pic_order_cnt[0]", a["delta0"] != b["delta0"]))
        out.append(("delta_pic_order_cnt[1]",
                    (a["delta1"] if bottom and not field_a else 0) != (b["delta1"] if bottom and not field_b else 0)))
    return out
