"""The properties and how each one is decided (source of properties.jsonl, MANIFEST.json and props/checks.json)."""
NOT_APPLICABLE = {
 "C22": "the PSNR is a logarithm of a mean over an unknown number of squared differences in floating point: neither the logarithm nor such sums are within reach of "
        "the solvers here, and with both left uninterpreted no contract would decide the value"}
DV = "contract-based deductive verification of the real code (pyvc: mechanically transformed source, obligations discharged by z3/cvc5)"
COMMON_ASSUME = [
 "machine model: Python integers are mathematical integers (exact in CPython); text is modelled by its UTF-8 encoding",
 "extraction: each function runs with branches, loops, comprehensions, comparisons and builtin calls routed through pyvc; nothing else of the source is dropped (comments, annotations and docstrings aside)"]
PROPS = [
 dict(id="C01", title="The encoder writes exactly the bytes the GSF format prescribes",
      statement="Every grain, tag, segment and header is written as exactly the byte sequence of the published GSF format for the "
      "encoder's major version: every block's size field covers exactly its content, every field is little endian of its "
      "prescribed width, and nothing else is written. This holds for dumps/dump, for encoders used as context managers on "
      "seekable and non-seekable files, and for every grain type.",
      over=["inputs", "configurations"], qtext="all representable grains of the six kinds, any number of grains, timelabels, components, "
      "unit offsets, tags and event data, any data length, versions 7-9, any prior file content",
      why="A size field, sign byte, or optional block is wrong only for particular combinations of optional parts and values; tests encode a few grains and mostly read them back with the same library.",
      files=["mediagrains/gsf.py"], mech=[("GSFEncoderSegment.encode_grain", "mediagrains/gsf.py"), ("OpenGSFEncoderBase._encode_head_block", "mediagrains/gsf.py")],
      level="proof", technique=DV, note="All obligations discharged with no bound on data, list lengths or grains per file; only the number of segments (0-2) and of tags per head block and segment (0-2) is fixed per obligation.", bounded_s=20,
      assumptions=COMMON_ASSUME),
 dict(id="C02", title="Decoding a well-formed GSF file returns exactly its contents",
      statement="For every well-formed GSF file of versions 7 to 9, loads/load/GSFDecoder return exactly the head block's contents "
      "(ids, creation time, tags, segments with their flows and tags) and every grain with exactly the metadata, timelabels and "
      "data stored in the file, under the segment it was written in and in the order written.",
      over=["inputs"], qtext="all well-formed files: any header values and texts, every grain kind with any optional parts and any counts, any file position",
      why="Field order, signs, optional markers and block ends interact; tests decode a handful of example files.",
      files=["mediagrains/gsf.py", "mediagrains/grains/"], mech=[("GSFSyncDecoderSession.grains", "mediagrains/gsf.py"), ("SyncGSFBlock", "mediagrains/gsf.py")],
      level="proof", technique=DV, note="Per-grain contracts are discharged for all field values and unbounded counts; the number of blocks per file in one obligation is fixed (0-3) and extended by the induction argued in DESIGN.md.", bounded_s=30,
      assumptions=COMMON_ASSUME),
 dict(id="C03", title="Progressive, buffered and at-once encoding write the same well-formed file",
      statement="However grains reach an encoder (add_grain/add_grains before or during a dump, on the encoder, the open encoder or a "
      "segment; streaming context manager, start_dump/end_dump, dump or dumps), the file holds each grain exactly once in the order "
      "written, in the segment asked for (by default the lowest matching local id), and segment counts say -1 while the dump is "
      "open and the exact number afterwards on a seekable file. Nothing that belongs into the header can be added during a dump, "
      "automatic local ids are unused ones, and a second dump describes only what it contains.",
      over=["histories", "inputs"], qtext="any number of grains added at each step, any ids and local ids, any prior content and position of the file, seekable or not",
      why="Counts are patched at recorded file offsets after arbitrary later writes; tests add a few grains to a file starting at offset 0 and never dump twice.",
      files=["mediagrains/gsf.py"], mech=[("OpenGSFEncoder._end_dump", "mediagrains/gsf.py"), ("GSFEncoderSegment.write_count", "mediagrains/gsf.py"), ("OpenGSFEncoderBase._get_segment", "mediagrains/gsf.py")],
      level="proof", technique=DV, note="Every step adds a family of symbolically many grains; histories are the fixed sequences of steps listed in DESIGN.md (not arbitrary interleavings), with at most two segments.", bounded_s=20,
      assumptions=COMMON_ASSUME),
 dict(id="C04", title="A decoder yields exactly the selected grains of any well-formed stream",
      statement="grains() yields all grains whose local id was asked for (all if none was) and no others, in file order, skipping blocks "
      "of unknown kinds anywhere the format allows blocks, stopping at a terminator or, with concatenation support, continuing with "
      "the next file under its own header. Each loading mode delivers the same metadata and (unless LOAD_NEVER) the same data, "
      "reading it at the time promised, and leaves the reader at the end of the grain's block.",
      over=["inputs", "configurations"], qtext="any local ids and selections, any unknown tag and contents, any positions; loading modes x grain kinds",
      why="A skipped block, an unlucky id or a deferred read only matters in streams tests do not contain: example files have known blocks in usual order.",
      files=["mediagrains/gsf.py", "mediagrains/utils/iobytes.py"], mech=[("GSFSyncDecoderSession.grains", "mediagrains/gsf.py"), ("SyncGSFBlock.child_blocks", "mediagrains/gsf.py"), ("IOBytes", "mediagrains/utils/iobytes.py")],
      level="proof", technique=DV, note="Discharged for all values; streams of 1-3 grains with 0-2 unknown blocks and two concatenated files per obligation, extended by the induction argued in DESIGN.md.", bounded_s=20,
      assumptions=COMMON_ASSUME),
 dict(id="C05", title="Asynchronous decoding and encoding do exactly what the synchronous ones do",
      statement="For any GSF stream the asynchronous decoder (any asynchronous binary file) yields the same headers and grains as the "
      "synchronous one; deferred data is read from its own place when the grain is awaited, without disturbing the reader, and on "
      "leaving the decoder every unread grain is loaded or permanently empty as its loading mode says. The asynchronous encoder "
      "writes the same bytes as the synchronous one for the same calls, streaming or not, including grains given to a segment, and "
      "refuses header changes during a dump.",
      over=["inputs", "histories"], qtext="any contents and values; file kinds x loading modes x grain kinds; any number of grains added at each encoding step",
      why="The asynchronous half duplicates the synchronous code by hand; tests compare the two on a few example files and never interleave deferred loads with reading.",
      files=["mediagrains/gsf.py", "mediagrains/utils/asyncbinaryio.py", "mediagrains/grains/Grain.py"], mech=[("GSFAsyncDecoderSession.grains", "mediagrains/gsf.py"), ("OpenAsyncGSFEncoder", "mediagrains/gsf.py"), ("AsyncGSFBlock", "mediagrains/gsf.py"), ("Grain.__await__", "mediagrains/grains/Grain.py")],
      level="proof", technique=DV, note="Discharged for all values with 1-3 grains per stream per obligation; awaits complete in order (a single task: no concurrent awaits of one decoder), the executor is trusted to run each call once.", bounded_s=25,
      assumptions=COMMON_ASSUME + ["one task drives a decoder or encoder at a time"]),
 dict(id="C06", title="Cut or malformed files never yield partial grains or partial headers",
      statement="A file cut off anywhere, when grain data is loaded at once, yields every grain that is complete and then simply ends; "
      "one cut inside its headers cannot be opened. A file of another type, of a version other than 7 to 9, without head block, with "
      "blocks that do not fill their parent, with a tag that is no text or with a grain that does not start with its header is "
      "reported as GSFDecodeError (of the documented kind, with its details) after all grains before it have been delivered; a grain "
      "without data block does not swallow its successors. Synchronous and asynchronous decoders agree.",
      over=["inputs"], qtext="any contents, cut at any byte; any wrong type, version, tag or size; each reader",
      why="The cut or the defect may be at any byte of any file; tests cut an example file at few places.",
      files=["mediagrains/gsf.py"], mech=[("SyncGSFBlock", "mediagrains/gsf.py"), ("AsyncGSFBlock", "mediagrains/gsf.py"), ("GSFSyncDecoderSession.grains", "mediagrains/gsf.py"), ("GSFAsyncDecoderSession.grains", "mediagrains/gsf.py")],
      level="proof", technique=DV, note="Discharged for any cut position and all values; files of one or two grains, heads of at most one segment and one tag. Cut data in the deferring modes and blocks whose field values make no sense (dates, enumerations) are not claimed.", bounded_s=20,
      assumptions=COMMON_ASSUME),
 dict(id="C07", title="Lazily loaded bytes equal their window, read once, without moving the file",
      statement="An IOBytes (and a grain holding one) can be used like the bytes object it stands for: length, slices, indexing, "
      "comparison, hashing, iteration, text and methods give what they give for the window's bytes. Nothing is read before the first "
      "use that needs the contents, the window is read once, the file's position is unchanged afterwards, and a read that fails can "
      "be retried.",
      over=["inputs", "histories"], qtext="any file contents, window, position and use; any order of uses including a failing first read",
      why="Every kind of use goes through attribute interception; tests use a few of them on one example window.",
      files=["mediagrains/utils/iobytes.py"], mech=[("LazyLoader", "mediagrains/utils/iobytes.py"), ("IOBytes.__init__", "mediagrains/utils/iobytes.py")],
      level="proof", technique=DV, note="The uses listed in props/c07.py are discharged for any window; all remaining methods of bytes are evaluated concretely (bounded) against the real bytes object.", bounded_s=15,
      assumptions=COMMON_ASSUME),
 dict(id="C08", title="Asynchronous binary files behave as the binary files they stand for",
      statement="AsyncBytesIO, AsyncFileWrapper and AsyncBytesIOWrapper show, after any reads, writes, seeks and truncations, exactly the "
      "results, positions and contents of an ordinary binary file given the same calls; extending shows zeros, never old contents. "
      "AsyncStreamWrapper is such a file that can only be moved forwards: skipping, reading (whole requests even when data arrives in "
      "pieces) and writing keep the position equal to the bytes passed, and everything else is refused.",
      over=["inputs", "histories", "schedules"], qtext="any contents, arguments and positions, any arrival of stream data; the operations after the listed kinds of history",
      why="Position, size and buffer of the in-memory file are three separate facts kept by hand; tests do single operations on short files.",
      files=["mediagrains/utils/asyncbinaryio.py"], mech=[("OpenAsyncBytesIO", "mediagrains/utils/asyncbinaryio.py"), ("OpenAsyncStreamWrapper", "mediagrains/utils/asyncbinaryio.py")],
      level="proof", technique=DV, note="Each operation is discharged for all arguments and contents from the states reached by the histories in props/c08.py (fresh, moved, written, cut and moved); longer histories reach the same states with other values, see DESIGN.md.", bounded_s=20,
      assumptions=COMMON_ASSUME + ["the executor of AsyncFileWrapper runs each call once, in order",
       "AsyncBytesIO.read(n) with fewer than n bytes left raises EOFError by design"]),
 dict(id="C09", title="A grain's properties are a faithful, writable view of its metadata",
      statement="A grain made from keywords or from metadata shows through its properties exactly what was given, in plain metadata of the "
      "documented shape (ids and times as text, rates as fractions, formats as numbers); what is missing gets the documented "
      "default (times from the next more fundamental one). Setting a property changes its own place in the metadata, nothing "
      "else, and is read back; list-like properties (timelabels, unit offsets, components) behave as lists of their elements (a list whose last element is deleted leaves the metadata). "
      "Copies are equal and deep copies share nothing; lengths and data follow what the grain was given or awaited.",
      over=["inputs", "configurations"], qtext="any ids, times, rates, numbers, text and data; every grain kind and property, every list operation",
      why="Six classes translate some sixty properties by hand-written getters, setters and constructors; tests read most of them back from one example and write few.",
      files=["mediagrains/grains/"], mech=[("Grain", "mediagrains/grains/Grain.py"), ("VideoGrain", "mediagrains/grains/VideoGrain.py"), ("CodedVideoGrain", "mediagrains/grains/CodedVideoGrain.py"), ("AudioGrain", "mediagrains/grains/AudioGrain.py"), ("EventGrain", "mediagrains/grains/EventGrain.py")],
      level="proof", technique=DV, note="Discharged for all values; list-like properties start with 0, 2 or 3 elements of any contents, and optional parts are present or absent as a whole.", bounded_s=20,
      assumptions=COMMON_ASSUME + ["the clock returns any time (Timestamp.get_time is a ghost value)"]),
 dict(id="C10", title="Raw video is laid out as its format says, at every size",
      statement="For every raw video format and every width and height, a video grain's components follow each other from the start of the "
      "data without overlap, each with the format's subsampled size, rows as long as their samples (v210: groups of 48 pixels in 128 "
      "bytes) and room for all rows; the data allocated for a new picture, its length and expected_length are exactly the end of the "
      "last component. Given data, metadata and components are kept.",
      over=["inputs", "configurations"], qtext="any width and height (odd ones too), all raw planar and packed formats, any given components and data",
      why="Sizes and strides are computed twice by different formulas; tests check one picture size.",
      files=["mediagrains/grains/VideoGrain.py"], mech=[("VideoGrain.__init__", "mediagrains/grains/VideoGrain.py"), ("VideoGrain.expected_length", "mediagrains/grains/VideoGrain.py")],
      level="proof", technique=DV, note="Formats enumerated, sizes unbounded (up to 2^31 per side). For sizes the subsampling does not divide, a component may hold more than its rows (as the format does); ALPHA formats are laid out by the library as three planes and are not claimed.", bounded_s=15,
      assumptions=COMMON_ASSUME),
 dict(id="C11", title="Audio sizes and the times a grain covers follow from its metadata",
      statement="Audio data is one value of the format's size for each sample of each channel (channels in pairs rounded up to pairs), both for "
      "new grains and expected_length. A grain covers the time from its origin timestamp to that of its last sample (audio) or its "
      "own (everything else), inclusively, and no time if it has no samples; coded pictures are presented their temporal offset at "
      "the grain rate later; times are normalised to the rate of the media, if there is one.",
      over=["inputs", "configurations"], qtext="any sample counts, channels, rates, temporal offsets and timestamps; every format and grain kind",
      why="Off-by-one and rounding errors show only for particular counts, rates and signs; tests use one.",
      files=["mediagrains/grains/"], mech=[("size_for_audio_format", "mediagrains/grains/AudioGrain.py"), ("Grain.origin_timerange", "mediagrains/grains/Grain.py"), ("CodedVideoGrain.presentation_origin_timestamp", "mediagrains/grains/CodedVideoGrain.py")],
      level="proof", technique=DV, note="Discharged for all values (timestamps below 2^46 s so that no clamping occurs); the arithmetic of mediatimestamp is a trusted contract.", bounded_s=15,
      assumptions=COMMON_ASSUME),
 dict(id="C12", title="The arrays of numpy grains are the samples of their data",
      statement="A numpy video grain offers an array for each component, by its name and in the order of the format (Y U V, R G B, B G R), of the size of that component: element [x, y] is "
      "the sample at column x of row y, in planar formats as the component's offset and stride say and in packed formats (UYVY, YUYV, v216, AYUV, RGB and its 32 bit kinds) as the "
      "format's name says. Assigning an element changes that sample and no other. A numpy audio grain offers an array for each channel: element k is sample k of that channel, whether "
      "planar, interleaved or in pairs (24 bit samples in the upper bits of 32). That holds for grains made from data, from another grain, by assigning data and by awaiting it "
      "(no arrays before) and for copies, which share their samples, and deep copies, which do not; also for data that cannot be written to; making the arrays never changes the data, whose bytes and length are those given.",
      over=["inputs", "configurations"], qtext="all video formats numpy grains support and all PCM formats; any width, height, sample count and sample values; 1, 2, 3 or 5 channels",
      why="Strides and offsets that are off show up only at particular places of particular sizes; the tests read one picture of one size.",
      files=["mediagrains/numpy/"], mech=[("_component_arrays_for_data_and_type", "mediagrains/numpy/numpy_grains/VideoGrain.py"), ("_channel_arrays_for_data_and_type", "mediagrains/numpy/numpy_grains/AudioGrain.py")],
      level="proof", technique=DV, note="Discharged for all sizes, positions and sample values. Data is as long as its components (shorter data is not claimed).", bounded_s=20,
      assumptions=COMMON_ASSUME + ["numpy (frombuffer, zeros, views, slices, reshape, transpose, as_strided, dtypes) is an assumed contract: pyvc/npmodel.py, memory with a write log; its own checks that a view stays inside its memory become obligations"]),
 dict(id="C13", title="Converting a numpy grain keeps the picture",
      statement="A numpy video grain converts to each of the 29 convertible formats. Each sample of the result is in the range of its format and is that of the same place of the original: "
      "the same value if depth and place are the same; to fewer bits the nearest value (the largest stays the largest), to more bits the same value with any bits below; chroma of "
      "fewer samples is the mean of the samples it covers, rounded, of more samples a repetition; between RGB and YUV it is the rec.709 value within one or two, clipped to the range. v210 words "
      "hold and give the samples in its order whatever their unused bits are. In two steps the result stays within four steps of the coarser of both depths. The result has the source, times, rate, duration, size and layout of the "
      "original and a flow of its own, the same each time for the same format; the original is left alone. To the same format, convert gives an independent copy and asformat the grain itself.",
      over=["inputs", "configurations"], qtext="every pair of the 29 formats; any width, height, place and sample values in the range of the format",
      why="The tests compare a few pictures of one size and do not reach the ends of the ranges, nor the widths v210 pads.",
      files=["mediagrains/numpy/"], mech=[("VideoGrain.convert", "mediagrains/numpy/numpy_grains/VideoGrain.py"), ("_convert_v210_to_yuv422_10bit", "mediagrains/numpy/convert.py"), ("_convert_yuv444_to_rgb", "mediagrains/numpy/convert.py")],
      level="proof", technique=DV, note="Discharged for all direct conversions (250 pairs) and two step conversions among planar and packed YUV formats; two step conversions that change the colour space, involve v210 or take 4:4:4 to 4:2:0 of another depth (but three), and S32 4:4:4 to 4:2:0, are bounded.", bounded_s=40,
      assumptions=COMMON_ASSUME + ["numpy is an assumed contract: pyvc/npmodel.py (element-wise arithmetic with the dtypes numpy itself reports, wrapping, casts, clip, minimum, random_sample in [0, 1))",
      "double precision arithmetic of the colour conversions is treated as exact in the proof; the bounded run executes it"]),
 dict(id="C14", title="AAC streams are split into exactly their ADTS frames",
      statement="A byte stream of ADTS frames is wrapped as one coded audio grain per frame, in order, holding exactly the frame's bytes, with "
      "the sample rate, channels and times that follow from the stream's header; the stream ends where the frames end, however the "
      "input delivers its bytes. A header is read exactly as ISO 14496-3 lays it out; data that is out of sync, or whose header is "
      "reserved, cut short or longer than its frame, is refused with an error and never looped over; a last frame cut short is yielded "
      "as far as it goes or refused.",
      over=["inputs"], qtext="any header fields and payloads, with and without CRC, any cut or garbage after the frames",
      why="The header is 13 bit fields at odd offsets; tests use one stream of equal frames.",
      files=["mediagrains/utils/adts_aac_grain_wrapper.py", "mediagrains/utils/adts_aac_parser.py"],
      mech=[("ADTSAACGrainWrapper.grains", "mediagrains/utils/adts_aac_grain_wrapper.py")],
      level="proof", technique=DV, note="Header parsing is discharged for all headers; streams hold 0-3 frames of any length (each step reads at the recorded position only, so the argument for more frames is the same step).", bounded_s=15,
      assumptions=COMMON_ASSUME),
 dict(id="C15", title="H.264 streams are split into exactly their pictures",
      statement="An H.264 byte stream (Annex B) is wrapped as one coded video grain per primary coded picture, in order: each holds exactly its bytes "
      "(nothing lost or duplicated), its unit_offsets name the start code of each of its units, is_key_frame tells whether all its primary slices are I or SI slices, and "
      "sizes and rate are those of the stream's sequence parameter set, times consecutive instants of that rate; however the input delivers its bytes. "
      "A picture ends exactly where ITU-T H.264 (7.4.1.2.3, 7.4.1.2.4) says the next begins: before a delimiter, parameter set or SEI, or a primary slice that differs "
      "in the parameters named there; redundant slices and slices that only differ in other fields do not end it. Parameter sets and slice headers are read by the "
      "standard's syntax (emulation prevention, scaling lists, cropping, VUI, slice groups), and FrameInfo says what they say.",
      over=["inputs", "schedules"], qtext="all values of every field read; NAL units of any length; one or two reads of any size; up to three pictures",
      why="The tests have no H.264 stream at all, and where a picture ends depends on a dozen fields and on where the input happens to be cut.",
      files=["mediagrains/utils/h264_parser.py", "mediagrains/utils/h264_grain_wrapper.py"], mech=[("H264Parser.parse_frame", "mediagrains/utils/h264_parser.py"), ("H264Parser._parse_sps", "mediagrains/utils/h264_parser.py"), ("H264GrainWrapper._frames", "mediagrains/utils/h264_grain_wrapper.py")],
      level="proof", technique=DV, note="Discharged for all field values and unit lengths; scaling list coefficients, slice group counts, cycle lengths and the number of pictures are lists; more than two reads are bounded.", bounded_s=25,
      assumptions=COMMON_ASSUME + ["bitstring: reading u(n), ue(v), se(v) gives the value written with that descriptor, raises ReadError past the end; findall, slices and append as documented (pyvc/bitmodel.py)",
      "a NAL unit holds no start code (Annex B) and its last byte is not zero"]),
 dict(id="C16", title="Raw essence is cut into grains of the right bytes and consecutive times",
      statement="GrainWrapper yields one grain for each grain's worth of bytes of the input, in order, each holding exactly its own bytes, "
      "a last part too short for a full grain included as it is. Their origin timestamps are consecutive instants of the template's "
      "rate, from the first not before the template's own time; every other property is the template's. The template itself and "
      "grains already yielded are not changed by what follows.",
      over=["inputs", "configurations"], qtext="any bytes, start times and rates of a list of common and fractional rates; video and audio of several formats",
      why="Off-by-one and drift errors show only after many grains or with fractional rates; tests use two grains at 25 Hz.",
      files=["mediagrains/utils/grain_wrapper.py"], mech=[("GrainWrapper.grains", "mediagrains/utils/grain_wrapper.py")],
      level="proof", technique=DV, note="Discharged for all bytes and start times, for 0-3 grains; rates are concrete (a list), so that the arithmetic stays linear.", bounded_s=15,
      assumptions=COMMON_ASSUME + ["Timestamp arithmetic of mediatimestamp is a contract (that counts and times are inverse is proved per rate)"]),
 dict(id="C20", title="The command line tools carry essence into GSF files and back unchanged",
      statement="wrap_video_in_gsf and wrap_audio_in_gsf write a GSF file with one segment named like the flow, with one grain for each piece of "
      "the input with the ids, format, rate and times asked for; extract_gsf_essence writes exactly the data of the chosen segments' "
      "grains in file order, so wrapping and extracting gives the input back. Files and pipes give the same result, however the pipe delivers its bytes. gsf_probe prints what "
      "is in the file.",
      over=["inputs", "configurations"], qtext="any essence, files or pipes on either side, options given or left out; any order of reads, skips and seeks of a pipe",
      why="Tests do not run the tools at all; a pipe's chunking cannot be sampled exhaustively.",
      files=["mediagrains/tools/"], mech=[("wrap_to_gsf", "mediagrains/tools/wrap_in_gsf.py"), ("extract_gsf_essence", "mediagrains/tools/extract_from_gsf.py"), ("InputStreamWrapper", "mediagrains/tools/_file_or_pipe.py")],
      level="proof", technique=DV, note="Discharged for all data; 0-2 grains per input and fixed option values; gsf_probe is checked by bounded tests only (labelled, not counted as proved).", bounded_s=25,
      assumptions=COMMON_ASSUME + ["argparse parses the command line (its result is used as it is)"]),
 dict(id="C17", title="Comparison decides equality attribute by attribute",
      statement="Two grains match exactly if they are of the same type and every attribute (ids, rate, duration, times, time labels, format, sizes, "
      "flags, unit offsets, event items, data) has equal values; creation_timestamp counts only when included. A result has a child for each "
      "attribute, true exactly if that attribute matches, and failing_attributes lists those that do not, in order. An excluded attribute (by either of its names) does "
      "not count and no other is left out with it; an expected difference replaces equality of its attribute. Data matches exactly if it is the same "
      "in every format (floating point: equal values, or the same bytes), and a PSNR option replaces that. Lists match if they are as long and each item matches. "
      "Pairwise comparison compares each pair as it would be alone, matches if both have as many grains, and takes none after the first "
      "mismatch. Comparing changes neither grain, and the text of a result names the outcomes and the first samples that differ.",
      over=["inputs", "configurations"], qtext="any two grains of any type; all formats; every option; lists of up to two or three items",
      why="A comparison that says equal too easily passes every test that uses it; the tests change one attribute at a time.",
      files=["mediagrains/comparison/"], mech=[("GrainComparisonResult.compare", "mediagrains/comparison/_internal.py"), ("DataEqualityComparisonResult", "mediagrains/comparison/_internal.py"), ("GrainIteratorComparisonResult.compare", "mediagrains/comparison/_internal.py")],
      level="proof", technique=DV, note="Discharged for arbitrary values and data of any length; time labels and event items up to two, unit offsets and pairwise up to three. The texts and PSNR options (numpy) are bounded.", bounded_s=25,
      assumptions=COMMON_ASSUME + ["struct.unpack of equal items gives the values held in the bytes; difflib.SequenceMatcher.ratio() is 1.0 exactly for equal sequences",
      "ComparisonResult leaves (EqualityComparisonResult.compare, DifferenceComparisonResult.compare) are replaced by their contracts, proved first"]),
 dict(id="C18", title="Test pattern generators are functions of time",
      statement="A pattern generator indexed by an instant gives the grain of that instant, however the instant is named (count, time, at its own or "
      "another rate): with the generator's ids and format, stamped with that instant, holding exactly the pattern (eight luma steps; eight "
      "colour bars of the given intensity; the given picture; these with a bar moved by the speed given, wrapping round; a sine that goes "
      "on from grain to grain, in the order and depth of the audio format), whatever was asked for before and whatever was done to grains "
      "already given. Ranges and slices give the grains of their instants in order, each once; instants between the grains of a tone have "
      "none, and the default is given. Keys with no start, and formats that cannot be made, are refused with ValueError.",
      over=["inputs", "configurations", "histories"], qtext="any count or time; all supported formats; picture sizes and tone settings of a list",
      why="A phase or wrap error shows only at some instant and width; the tests use one size and a few instants at 25 Hz.",
      files=["mediagrains/patterngenerators/"], mech=[("PatternGenerator.__getitem__", "mediagrains/patterngenerators/abc.py"), ("MovingBarOverlay.get", "mediagrains/patterngenerators/video/movingbaroverlay.py"), ("Tone.get", "mediagrains/patterngenerators/audio/tone.py")],
      level="proof", technique=DV, note="Discharged for all counts (so all histories of two requests), all formats; picture sizes, intensities, bar heights and speeds, and tone settings are lists; range lengths 0, 1 and 3, and the first three of open ranges.", bounded_s=20,
      assumptions=COMMON_ASSUME + ["Timestamp arithmetic of mediatimestamp is a contract (that counts and times are inverse is proved per rate); TimeValue, TimeValueRange and CountRange are executed from source",
      "math.sin, round and struct.pack are executed as they are, on concrete samples"]),
 dict(id="C19", title="An event grain's data is the JSON text of its type, topic and events",
      statement="However an event grain gets its contents (keywords, append, event_data, JSON text as str or bytes, metadata, something "
      "awaited, changes of single events), event_type, topic, event_data, the metadata and the JSON text in data always describe "
      "the same event; reading back what was written gives the same event; a missing pre or post is missing, and any present value, "
      "also a false one, is kept. Text that describes no event is refused and changes nothing.",
      over=["inputs", "histories"], qtext="any texts and JSON values, any number of events",
      why="Five representations of one event are kept in step by hand; tests use truthy example values.",
      files=["mediagrains/grains/EventGrain.py"], mech=[("EventGrain.data", "mediagrains/grains/EventGrain.py"), ("EventGrain.DATA", "mediagrains/grains/EventGrain.py")],
      level="proof", technique=DV, note="Discharged for all values; lists of 0-2 events of mixed shapes, and of any length with events of one shape. Refusal is stated for missing type, topic or data.", bounded_s=15,
      assumptions=COMMON_ASSUME),
 dict(id="C21", title="Format numbers and the functions interpreting them agree with the formats",
      statement="Every video, audio and layout format has the number published for GSF files, and every COG_* function answers for every format "
      "what the format's name says: packed, planar, compressed, alpha, RGB, bytes per value, subsampling, active bits, channel "
      "arrangement, kind and size of audio values; COG_PLANAR_FORMAT makes exactly the documented planar formats and refuses others.",
      over=["inputs"], qtext="all formats (complete enumeration), all depths 1-63",
      why="The functions pick bits out of numbers; tests check few formats.",
      files=["mediagrains/cogenums.py"], mech=[("COG_FRAME_IS_PLANAR_RGB", "mediagrains/cogenums.py"), ("COG_AUDIO_FORMAT_SAMPLEBYTES", "mediagrains/cogenums.py"), ("COG_PLANAR_FORMAT", "mediagrains/cogenums.py")],
      level="proof", technique=DV, note="The domain is finite and enumerated completely (active bits of the 1-bit alpha format excepted).", bounded_s=5,
      assumptions=COMMON_ASSUME),
 dict(id="C22", title="PSNR measures the difference of two grains",
      statement="compute_psnr gives, for each component or channel, ten times the decimal logarithm of the square of the largest value over the mean squared difference, infinity for equal "
      "data, and refuses grains it cannot compare.",
      over=["inputs"], qtext="any two grains of the same size and format", why="The tests compare a few pictures.",
      files=["mediagrains/comparison/psnr.py"], mech=[("compute_psnr", "mediagrains/comparison/psnr.py")]),
]
