"""Shared pieces of the GSF property modules."""
from spec import gsf as S

SYNC_BLOCK = tuple("mediagrains.gsf:SyncGSFBlock." + n for n in (
    "__init__", "__enter__", "__exit__", "has_child_block", "child_blocks", "get_remaining", "read_remaining_block",
    "read_tag", "read_uint", "read_bool", "read_optional_bool", "read_sint", "read_optional_sint", "read_string",
    "read_uuid", "read_timestamp", "read_timestamp_v7", "read_rational", "skip"))
ASYNC_BLOCK = tuple("mediagrains.gsf:AsyncGSFBlock." + n for n in (
    "__init__", "__aenter__", "__aexit__", "has_child_block", "child_blocks", "get_remaining", "read_remaining_block",
    "read_tag", "read_uint", "read_string"))
BASE = tuple("mediagrains.gsf:BaseGSFDecoderSession." + n for n in ("_sync_decode_gbhd", "_sync_decode_tils"))
GRAIN = {"empty": "mediagrains.grains.Grain:Grain", "video": "mediagrains.grains.VideoGrain:VideoGrain",
         "coded_video": "mediagrains.grains.CodedVideoGrain:CodedVideoGrain",
         "audio": "mediagrains.grains.AudioGrain:AudioGrain",
         "coded_audio": "mediagrains.grains.CodedAudioGrain:CodedAudioGrain",
         "event": "mediagrains.grains.EventGrain:EventGrain"}


def grain_fns(kind):
    return ("mediagrains.grains.GrainFactory:GrainFactory", GRAIN[kind] + ".__init__",
            "mediagrains.grains.Grain:Grain.__init__")


def tag_list(c, p, n, maxlen=65535):
    return [(c.text("%s%d.key" % (p, i), maxlen), c.text("%s%d.value" % (p, i), maxlen)) for i in range(n)]


def flow_desc(c, p):
    return {"source_id": c.uuid(p + "src"), "flow_id": c.uuid(p + "flow"), "format": c.text(p + "fmt", 64),
            "text": c.text(p + "data", 1 << 24)}


def flow_bytes(c, f):
    return S.flow_block(c, {"source_id": f["source_id"], "flow_id": f["flow_id"], "format": f["format"],
                            "data": c.utf8(f["text"])})


def tags_bytes(c, tags):
    b = b""
    for k, v in tags:
        b = b + S.tag_block(c, k, v)
    return b
