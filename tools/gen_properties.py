#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements live in one readable place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
S = "src/"; I = "include/"
# ---------------------------------------------------------------- robustness
prop("R01", "Parsing any byte stream is memory-safe and free of undefined behaviour",
 "For every byte sequence handed to the stream parsers (start-code framed or length-prefixed, with a fresh or an already populated parser state, with any parsing options), parsing neither reads or writes outside the supplied buffer and its own allocations, nor executes undefined behaviour, nor aborts, throws or exits. It always returns a result object.",
 ["inputs", "histories", "configurations"], "all byte sequences, all length-prefix widths, all option combinations and all previously accumulated parameter-set states",
 "The tests feed a few dozen well-formed samples; memory errors live in hostile field values, truncations and stale parameter sets that no sample contains.",
 [S+"h265_bitstream_parser.cc", S+"h265_nal_unit_parser.cc", S+"h265_slice_parser.cc", S+"h265_sps_parser.cc", S+"h265_pps_parser.cc", S+"h265_vps_parser.cc"],
 [("stream parsers", S+"h265_bitstream_parser.cc ParseBitstream, ParseBitstreamNALULength"), ("bit reader", S+"rtc_common.cc BitBuffer")])
prop("R02", "Every individual syntax parser tolerates arbitrary bytes and arguments",
 "Every public parser of one syntax structure (parameter sets, their extensions, timing/HRD, scaling lists, reference picture sets, weight tables, slices, supplemental messages, configuration box, RTP packets), called directly on any bytes with any caller-supplied context values, terminates without memory error, undefined behaviour or abort. It returns either a complete result or no result.",
 ["inputs", "configurations"], "all byte sequences and all values of the numeric context arguments of each parser",
 "Each test calls each parser once or twice with a sample captured from a real encoder, never with hostile context values.",
 [S+"h265_hrd_parameters_parser.cc", S+"h265_st_ref_pic_set_parser.cc", S+"h265_pred_weight_table_parser.cc", S+"h265_scaling_list_data_parser.cc", S+"h265_rtp_ap_parser.cc", S+"h265_configuration_box_parser.cc", S+"h265_sei_parser.cc"],
 [("structure parsers", "the Parse* entry points taking (data, length) or a bit reader")])
prop("R03", "Dumping and querying any returned parse result never crashes",
 "Whatever result a parser returned, for whatever input, every text dump of it (one-line or indented, with any output options, including options different from those used while parsing) and every derived-value query on it completes without memory error, undefined behaviour or abort.",
 ["inputs", "configurations"], "all parse results obtainable from any input, all dump options and indentation modes",
 "Partial results (a unit whose payload did not parse, missing optional parts) are what dump code gets wrong, and the tests dump almost nothing.",
 [S+"h265_nal_unit_parser.cc", S+"h265_nal_unit_payload_parser.cc", S+"h265_bitstream_parser.cc", S+"h265_configuration_box_parser.cc", S+"h265_slice_parser.cc", S+"h265_utils.cc"],
 [("dump functions", "every fdump() in src/"), ("derived queries", "picture resolution, slice QP, frame rate, printable checksum")])
prop("R04", "Results never depend on uninitialised memory",
 "No value visible in a parse result or its dump, and no decision taken while parsing, depends on memory that was never written. Parsing the same input with differently poisoned heap and stack memory gives byte-identical dumps.",
 ["inputs", "configurations"], "all inputs, all prior contents of heap and stack memory",
 "Uninitialised reads give plausible values in a test process; only poisoned memory or definedness tracking exposes them.",
 [I+"h265_slice_parser.h", I+"h265_sps_parser.h", I+"h265_pps_parser.h", I+"h265_common.h", S+"rtc_common.cc"],
 [("state construction", "value-initialised *State structs"), ("failed reads", S+"rtc_common.cc: out-parameters of failed reads")])
prop("R05", "Work and memory stay proportional to the input size",
 "Parsing terminates for every input, and the number of executed steps, the peak heap use and the size of the dump are bounded by a fixed multiple of the input length plus a constant. No field value in a short input can make the library loop or allocate in proportion to the value itself.",
 ["inputs"], "all inputs, in particular those whose counts and sizes are as large as their encoding allows",
 "A test sees one run time for one sample; hangs and allocation bombs need extreme counts in specific fields.",
 [S+"h265_slice_parser.cc", S+"h265_vps_parser.cc", S+"h265_pps_parser.cc", S+"h265_sei_parser.cc", S+"h265_pps_multilayer_extension_parser.cc", S+"h265_pps_scc_extension_parser.cc"],
 [("count-driven loops", "every for/while loop whose bound is a parsed value"), ("up-front allocations", "vector resize from parsed sizes")])
prop("R06", "Parsing is a pure function of input bytes, options and parser state",
 "Parsing the same bytes from an equal parser state gives an identical result every time, at any buffer address and alignment, whatever was parsed before with other parser states. The input buffer is never modified and nothing beyond its end is read.",
 ["inputs", "histories", "configurations"], "all inputs, all interleavings with other parses in the same process, all buffer placements",
 "A test process parses once per case, so hidden state carried between parses and reads past the buffer end stay invisible.",
 [S+"h265_bitstream_parser.cc", S+"h265_nal_unit_parser.cc", S+"rtc_common.cc", S+"h265_common.cc"],
 [("stateless parsers", "static Parse* functions"), ("explicit state", I+"h265_bitstream_parser_state.h")])
prop("R07", "Independent parsers can run concurrently",
 "Threads that each use their own parser state and output stream can parse, dump and query at the same time, also when they read the same input buffer or share read-only results. There is no data race and every thread gets the result it would get alone.",
 ["schedules", "inputs"], "all schedules of any number of threads working on separate parser states",
 "The tests are single threaded; one static scratch buffer or cached value added anywhere would break server users without failing a test.",
 [S+"h265_bitstream_parser.cc", S+"h265_common.cc", S+"h265_slice_parser.cc", S+"h265_utils.cc"],
 [("no shared mutable state", "all of src/"), ("shared parameter sets", I+"h265_bitstream_parser_state.h shared_ptr maps")])
# ---------------------------------------------------------------- bits
prop("B01", "The bit reader returns exactly the encoded values and never overruns",
 "For any buffer and any sequence of fixed-width, byte, unsigned and signed Exp-Golomb, non-symmetric, peek, skip and seek operations, the reader returns the value that the bits denote most-significant-bit first and advances by exactly the bits consumed. An operation that needs more bits than remain, or whose value does not fit, fails without reporting a value and a failed peek, skip, seek, fixed-width or Exp-Golomb operation leaves the position where it was.",
 ["inputs", "histories"], "all buffers and all operation sequences, every bit offset and width",
 "Only the reader's callers are tested; widths, offsets, extreme Exp-Golomb codes and behaviour at the very end of the buffer are combinatorial.",
 [S+"rtc_common.cc", I+"rtc_common.h"], [("bit reader", S+"rtc_common.cc BitBuffer"),])
prop("B02", "Everything the bit writer accepts reads back as the same value",
 "Any sequence of values written with the bit writer reads back, with the matching read operations, as the same values in the same order, and bits outside the written range keep their previous contents. A write that does not fit is refused and changes neither the buffer nor the position.",
 ["inputs", "histories"], "all value sequences, widths and starting bit offsets",
 "The repository has no test of the writer at all; partial-byte masks fail only for specific offset and width pairs.",
 [S+"rtc_common.cc", I+"rtc_common.h"], [("bit writer", S+"rtc_common.cc BitBufferWriter")])
prop("B03", "Emulation prevention bytes are removed exactly, and nothing else is",
 "Removing escapes from any escaped payload gives back the original payload, and on arbitrary bytes removes precisely the 0x03 that follows each pair of zero bytes, leaving all other bytes unchanged and in order. Parsing an escaped unit therefore gives the same fields as parsing the raw payload.",
 ["inputs"], "all byte sequences, including escapes at either end and back to back",
 "Samples contain a handful of escapes in fixed places; overlapping zero runs and escapes at the end do not occur in them.",
 [S+"h265_common.cc", S+"h265_nal_unit_parser.cc"], [("unescape", S+"h265_common.cc UnescapeRbsp"), ("entry points", "ParseNalUnit and ParseNalUnitUnescaped")])
prop("B04", "The end of payload data is recognised at every bit position",
 "At any position of a payload, the more-data query is false exactly when nothing or only the final stop bit and its zero padding remains, does not move the position, and the trailing-bits reader accepts exactly a one bit followed by zero bits up to the byte boundary. Byte alignment and rounded-up byte offset reported for a position are correct. (Whole zero bytes after the stop bit do not occur in a payload and are left open.)",
 ["inputs"], "all payload contents and all bit positions within them",
 "Fourteen positions are sampled; optional extensions at the tail of parameter sets depend on this being right for all of them.",
 [S+"h265_common.cc"], [("more data / trailing bits", S+"h265_common.cc more_rbsp_data, rbsp_trailing_bits, byte_aligned, get_current_offset")])
# ---------------------------------------------------------------- framing
prop("F01", "Start-code framing splits a stream into exactly its units",
 "A byte stream with start codes is split at every three- or four-byte start code that is followed by data, each unit running from just after its start code to just before the next one or the end of the stream. Units are reported in order, do not overlap, and together with start codes and leading bytes account for every byte.",
 ["inputs"], "all byte streams, with any mixture of start-code lengths, adjacent start codes and leading or trailing bytes",
 "The skip-ahead search has alignment-dependent behaviour that a few sample streams cannot cover.",
 [S+"h265_bitstream_parser.cc"], [("start-code search", S+"h265_bitstream_parser.cc FindNaluIndices")])
prop("F02", "Length-prefixed framing yields exactly the prefixed units",
 "A buffer of units each preceded by a big-endian length of a given width is split into exactly those units, in order, each reported with its true offset and length; a width of zero means one unit spanning the whole buffer. Splitting stops cleanly, without touching bytes outside the buffer, at the first length that is zero, truncated or larger than what remains, and units before it are still reported. (The stand-alone index helper for four-byte lengths also lists units of length zero.)",
 ["inputs", "configurations"], "all buffers, all prefix widths, all (also overflowing) length values",
 "No test uses length-prefixed parsing at all.",
 [S+"h265_bitstream_parser.cc"], [("length-prefixed parsing", S+"h265_bitstream_parser.cc ParseBitstreamNALULength, FindNaluIndicesExplicitFraming")])
prop("F03", "Unit headers decode exactly and select the right payload",
 "For each of the 65536 two-byte unit headers the decoded forbidden bit, type, layer id and temporal id are the encoded ones, and shorter input is refused. The type alone determines the payload structure produced: slice types give a slice, parameter-set, delimiter and supplemental types give theirs, every other type gives none; and type names and the classification into slice, coded-video, other and unspecified follow the standard's table.",
 ["inputs"], "all header values followed by payloads of every kind",
 "Tests cover a few type codes; a swapped or missing case affects one type in 64.",
 [S+"h265_nal_unit_header_parser.cc", S+"h265_nal_unit_payload_parser.cc", S+"h265_common.cc", S+"h265_aud_parser.cc"],
 [("header", S+"h265_nal_unit_header_parser.cc"), ("dispatch", S+"h265_nal_unit_payload_parser.cc"), ("classification", S+"h265_common.cc IsSliceSegment, IsNalUnitType*, NalUnitTypeToString")])
prop("F04", "Reported offset, length, parsed length and checksum describe the real bytes",
 "For each reported unit, offset and length delimit exactly the bytes of that unit in the input, the parsed length is the number of unescaped bytes touched by the parser and never exceeds the unit, and the checksum is the documented ones'-complement sum over the unescaped unit, big-endian and zero-padded, present exactly when requested. Requesting or not requesting these never changes any other parsed value.",
 ["inputs", "configurations"], "all streams, all combinations of parsing options",
 "Tests check two or three constants; sums with carries, all tail lengths and option combinations are not sampled.",
 [S+"h265_nal_unit_parser.cc", S+"h265_bitstream_parser.cc", S+"h265_common.cc"],
 [("metadata", S+"h265_nal_unit_parser.cc ParseNalUnit"), ("checksum", S+"h265_common.cc NaluChecksum")])
prop("F05", "The same units parse identically whatever container carried them",
 "A sequence of units gives the same parsed fields and the same accumulated parser state whether supplied in one start-code stream, in chunks with a kept parser state, length-prefixed, one unit at a time, already unescaped, in single or aggregated RTP packets, or (parameter sets) in a configuration box.",
 ["inputs", "histories", "configurations"], "all unit sequences and all ways of transporting and chunking them",
 "Each container is tested alone with its own sample; nothing relates them.",
 [S+"h265_bitstream_parser.cc", S+"h265_nal_unit_parser.cc", S+"h265_rtp_parser.cc", S+"h265_rtp_single_parser.cc", S+"h265_rtp_ap_parser.cc", S+"h265_configuration_box_parser.cc"],
 [("containers", "ParseBitstream, ParseBitstreamNALULength, ParseNalUnit, ParseNalUnitUnescaped, ParseRtp, ParseConfigurationBox")])
# ---------------------------------------------------------------- syntax fidelity
prop("V01", "Video parameter sets decode to the values that were encoded",
 "Every syntactically valid video parameter set using any combination of the optional parts (sub-layer ordering, layer sets, timing, any number of HRD structures with or without common information, extension data) is accepted, and every reported field equals the encoded value, in the order and multiplicity the standard's syntax defines (of several HRD structures the result keeps the last).",
 ["inputs"], "all valid combinations of fields, counts and flags",
 "Two captured samples exercise neither layer sets nor timing nor HRD.",
 [S+"h265_vps_parser.cc", S+"h265_hrd_parameters_parser.cc"], [("VPS syntax", S+"h265_vps_parser.cc ParseVps")])
prop("V02", "Profile, tier and level information decodes exactly",
 "For every profile/tier/level structure, with any number of sub-layers and any presence pattern, all reported fields (space, tier, profile, compatibility and constraint flags in the layout selected by the profile, reserved bits, level values for the general layer and each sub-layer) equal the encoded ones and the position after it is correct. The reported profile name is the one the standard's tables assign to the profile number and constraint flags.",
 ["inputs"], "all profile numbers, compatibility and constraint flags, sub-layer counts and presence patterns",
 "Tests hold two profiles without sub-layers; the constraint layout depends on 32 compatibility flags and the name on nine constraint flags.",
 [S+"h265_profile_tier_level_parser.cc", S+"h265_common.cc"], [("profile_tier_level syntax", S+"h265_profile_tier_level_parser.cc"), ("profile naming", S+"h265_profile_tier_level_parser.cc GetProfileType, "+S+"h265_common.cc profileTypeToString")])
prop("V03", "Sequence parameter sets decode to the values that were encoded",
 "Every valid sequence parameter set (all chroma formats, conformance window, bit depths, sub-layer ordering, block-size hierarchy, scaling lists, AMP/SAO/PCM, short- and long-term reference sets, display information, extensions) is accepted and every reported field equals the encoded value.",
 ["inputs"], "all valid combinations of fields, counts and flags",
 "The captured samples use one coding configuration each; optional parts interact through bit positions.",
 [S+"h265_sps_parser.cc"], [("SPS syntax", S+"h265_sps_parser.cc ParseSps")])
prop("V04", "Display and timing information decodes to the values that were encoded",
 "Every valid display-information block, including aspect ratio, signal type, window, timing, HRD parameters with any sub-picture and per-layer settings, and stream restrictions, is accepted and each reported field equals the encoded value. Where the presence of later elements depends on an element that is itself absent, the value the standard infers for the absent one decides. The reported frame rate is time scale over units per tick.",
 ["inputs"], "all presence patterns and values, all sub-layer counts and buffer counts",
 "Three samples exercise a few flags; the HRD part is nested three levels deep with data-dependent counts.",
 [S+"h265_vui_parameters_parser.cc", S+"h265_hrd_parameters_parser.cc", S+"h265_sub_layer_hrd_parameters_parser.cc"],
 [("VUI syntax", S+"h265_vui_parameters_parser.cc"), ("HRD syntax", S+"h265_hrd_parameters_parser.cc, "+S+"h265_sub_layer_hrd_parameters_parser.cc")])
prop("V05", "Short-term reference picture sets derive exactly as the standard defines",
 "For every list of reference picture sets, explicitly coded or predicted from an earlier set (also from a slice header), the reported syntax values equal the encoded ones and the derived picture counts, order-count deltas and usage flags equal those of the standard's derivation. Sets whose prediction source does not exist or whose values leave the permitted range are refused.",
 ["inputs", "histories"], "all chains of explicit and predicted sets up to the permitted number of pictures",
 "Prediction chains are combinatorial: sign, ordering and insertion position of the predicted deltas differ for each combination.",
 [S+"h265_st_ref_pic_set_parser.cc", S+"h265_sps_parser.cc", S+"h265_slice_parser.cc"], [("derivation", S+"h265_st_ref_pic_set_parser.cc DeriveValues")])
prop("V06", "Scaling lists decode to the values that were encoded",
 "For every scaling-list structure, each list's prediction mode, reference delta, DC value and coefficients reported are exactly those encoded, with coefficient differences accumulated modulo 256 from the proper start value, and lists not present are reported empty.",
 ["inputs"], "all prediction patterns and all coefficient differences for all sizes and matrices",
 "One sample with one pattern; indices and start values depend on size class and matrix.",
 [S+"h265_scaling_list_data_parser.cc"], [("scaling list syntax", S+"h265_scaling_list_data_parser.cc")])
prop("V07", "Parameter-set extensions decode to the values that were encoded",
 "Range, multilayer, 3D and screen-content extensions of the sequence parameter set and multilayer and screen-content extensions of the picture parameter set, in any supported combination and also when parsed on their own, report exactly the encoded fields, palette entries with their declared bit depths, and per-layer offsets.",
 ["inputs"], "all valid field combinations of each supported extension, alone and nested in a parameter set",
 "One sample each, with most optional branches absent.",
 [S+"h265_sps_range_extension_parser.cc", S+"h265_sps_multilayer_extension_parser.cc", S+"h265_sps_3d_extension_parser.cc", S+"h265_sps_scc_extension_parser.cc", S+"h265_pps_multilayer_extension_parser.cc", S+"h265_pps_scc_extension_parser.cc"],
 [("extension syntax", "the six *_extension_parser.cc files")])
prop("V08", "Picture parameter sets decode to the values that were encoded",
 "Every valid picture parameter set (quantiser, tiles with uniform or explicit spacing, deblocking control, scaling lists, weighted prediction and the supported extensions) is accepted and every reported field equals the encoded value.",
 ["inputs"], "all valid combinations of fields and flags",
 "One captured sample without tiles, deblocking override or extensions.",
 [S+"h265_pps_parser.cc"], [("PPS syntax", S+"h265_pps_parser.cc ParsePps")])
prop("V09", "Slice segment headers decode to the values that were encoded",
 "For every valid slice segment header supported by the library (all slice unit types, first, dependent and further segments, reference-set selection or explicit sets, long-term pictures, reference list sizes, collocated picture, quantiser and deblocking overrides, entry points), interpreted with the parameter sets it refers to, each reported field equals the encoded value, and absent elements that steer the parsing of later ones or select a parameter (active reference counts, deblocking, collocated list, slice type dependent parts) take the value the standard infers.",
 ["inputs", "histories"], "all valid headers against all valid parameter sets",
 "Nearly every bit position depends on a flag in some parameter set; four samples cover four of those combinations.",
 [S+"h265_slice_parser.cc", S+"h265_st_ref_pic_set_parser.cc"], [("slice header syntax", S+"h265_slice_parser.cc ParseSliceSegmentHeader")])
prop("V10", "Prediction weight tables decode to the values that were encoded",
 "For predicted and bi-predicted slices, luma and chroma flags, weights and offsets of every active reference in list 0 and, for bi-predicted slices, list 1 are reported exactly as encoded, for every chroma format, and the header fields after the table are unaffected by its size.",
 ["inputs"], "all reference counts, flag patterns, weights, chroma formats, slice types",
 "Two samples with one pattern each and no list 1.",
 [S+"h265_pred_weight_table_parser.cc", S+"h265_slice_parser.cc"], [("weight table syntax", S+"h265_pred_weight_table_parser.cc")])
prop("V11", "Supplemental messages and delimiters decode to the values that were encoded",
 "For each supported supplemental message type the reported type, size and every payload field equal the encoded ones, including multi-byte types and sizes; an unsupported type keeps its payload bytes verbatim. Access-unit delimiters report the encoded picture type.",
 ["inputs"], "all message types, sizes and payload values",
 "One or two samples per message; field widths that depend on other fields and size extension bytes are not varied.",
 [S+"h265_sei_parser.cc", S+"h265_aud_parser.cc"], [("SEI syntax", S+"h265_sei_parser.cc"), ("AUD", S+"h265_aud_parser.cc")])
prop("V12", "Values outside the permitted range are refused, boundary values are accepted",
 "For every syntax element whose range the library enforces, a structure carrying the element's minimum or maximum permitted value is accepted with that value reported, and the same structure with a value just outside (or far outside) the range is refused and produces no result.",
 ["inputs"], "all enforced elements, at and around both range boundaries",
 "Tests check two such elements (width and height); off-by-one errors in a limit need a probe at that limit.",
 [S+"h265_sps_parser.cc", S+"h265_pps_parser.cc", S+"h265_vps_parser.cc", S+"h265_vui_parameters_parser.cc", S+"h265_slice_parser.cc", S+"h265_st_ref_pic_set_parser.cc"],
 [("range checks", "the k*Min/k*Max limits in include/*.h and their checks")])
prop("V13", "A structure cut short is never reported as complete",
 "Cutting any valid parameter set, slice header, supplemental message or delimiter anywhere before its last required element gives no result for that structure (for a supplemental message, no payload content), never a partially filled one presented as parsed, and never alters the parser state.",
 ["inputs", "fault_sequences"], "all valid structures and all truncation points, at bit granularity",
 "A missing check of one read among several hundred shows only at the one cut position that makes this read fail.",
 ["src/"], [("read checks", "every bit read in src/*_parser.cc")])
# ---------------------------------------------------------------- state histories
prop("H01", "The parser state always holds the most recent valid parameter set per id",
 "After any sequence of units, looking up a video, sequence or picture parameter set by id gives the last successfully parsed one with that id, or nothing if there was none; sets with other ids or of other kinds, and all other units, do not affect it. This also holds across separate parse calls sharing a state and for sets delivered in RTP packets or a configuration box.",
 ["histories", "inputs"], "all unit sequences and all ways of splitting them into calls",
 "Tests parse one stream with one set of each kind; replacement, id separation and cross-call persistence are histories.",
 [S+"h265_bitstream_parser_state.cc", S+"h265_nal_unit_payload_parser.cc"], [("state update", S+"h265_nal_unit_payload_parser.cc"), ("lookup", S+"h265_bitstream_parser_state.cc")],
 state=[{"name": "parameter-set maps", "meaning": "most recent valid parameter set per kind and id", "where": "include/h265_bitstream_parser_state.h"}])
prop("H02", "Slices are interpreted with the parameter sets in force when they arrive",
 "Each slice is decoded with the picture parameter set it names and the sequence parameter set that one names, as they were when the slice arrived: replacing a set afterwards does not change earlier slices, replacing it before does. A slice whose chain of parameter sets is incomplete gives no slice result and does not disturb its neighbours.",
 ["histories", "inputs"], "all interleavings of parameter-set updates, losses and slices",
 "Needs multi-step histories with changing parameter sets; samples never change theirs.",
 [S+"h265_slice_parser.cc", S+"h265_bitstream_parser_state.cc"], [("activation", S+"h265_slice_parser.cc ParseSliceSegmentHeader lookups")],
 state=[{"name": "parameter-set maps", "meaning": "most recent valid parameter set per kind and id", "where": "include/h265_bitstream_parser_state.h"}])
prop("H03", "A unit that fails to parse changes nothing else",
 "A corrupt, truncated or unsupported unit leaves the parser state exactly as it was (an already stored set with the same id stays usable) and does not change how any other unit of the stream is parsed or reported.",
 ["histories", "fault_sequences", "inputs"], "all streams with any subset of units damaged in any way",
 "Fault placement within a history is combinatorial; tests only parse intact streams.",
 [S+"h265_nal_unit_payload_parser.cc", S+"h265_bitstream_parser.cc", S+"h265_nal_unit_parser.cc"], [("commit on success", S+"h265_nal_unit_payload_parser.cc"), ("resynchronisation", S+"h265_bitstream_parser.cc ParseBitstream")],
 state=[{"name": "parameter-set maps", "meaning": "most recent valid parameter set per kind and id", "where": "include/h265_bitstream_parser_state.h"}])
prop("H04", "Returned results stay valid and unchanged for as long as they are held",
 "A result or a parameter set obtained from a parser stays readable and keeps its values after the input buffer is freed, after the parser state is updated, replaced or destroyed, and after any further parsing.",
 ["histories"], "all sequences of parse, hold, replace and destroy operations",
 "Lifetime errors need a specific order of destruction that tests, which destroy everything at scope end, do not produce.",
 [I+"h265_bitstream_parser_state.h", I+"h265_nal_unit_payload_parser.h", S+"h265_nal_unit_payload_parser.cc"], [("shared ownership", "shared_ptr between results and state")])
# ---------------------------------------------------------------- derived
prop("D01", "Picture size and block-structure values follow from the sequence parameter set",
 "The reported picture width and height are the coded size reduced by the conformance window in chroma units for every chroma format and window, and the derived block sizes, picture sizes in blocks and bit widths used for parsing follow the standard's equations. Results are reported only when they are meaningful (no wrap-around, no empty picture).",
 ["inputs"], "all chroma formats, sizes, windows and block-size hierarchies",
 "Tests check one 4:2:0 size.",
 [S+"h265_sps_parser.cc", S+"h265_slice_parser.cc"], [("derived values", S+"h265_sps_parser.cc getResolution and get* helpers")])
prop("D02", "Slice quantiser values are reported for every slice, correctly and in order",
 "The quantiser query on a stream returns, in order, one value per slice that was decoded, equal to 26 plus the initial value of the picture parameter set in force for that slice plus the slice's own delta (values that do not fit an integer are left out); on an RTP packet it returns the value of its slice (of the last unit of an aggregation packet), and nothing for packets without one.",
 ["inputs", "histories"], "all streams and packets, also with parameter sets changing between slices",
 "Three samples with one slice; order, changing parameter sets and packets without slices are not sampled.",
 [S+"h265_utils.cc"], [("QP query", S+"h265_utils.cc GetSliceQpY")])
# ---------------------------------------------------------------- RTP / hvcC
prop("P01", "Single-unit and unknown RTP packets are classified and decoded exactly",
 "An RTP payload whose type denotes a plain unit reports the same header and payload as parsing that unit directly, exactly one of the packet kinds is reported for each packet according to its type, and reserved packet types report none.",
 ["inputs", "histories"], "all packet types and unit contents, with any parser state",
 "Three sample packets.",
 [S+"h265_rtp_parser.cc", S+"h265_rtp_single_parser.cc"], [("packet dispatch", S+"h265_rtp_parser.cc ParseRtp")])
prop("P02", "Aggregation packets yield exactly the units they contain",
 "An aggregation packet reports, in order, each contained unit's size, header and payload, equal to parsing that unit by itself, regardless of the kinds, sizes, emulation bytes and failures of the other units in the packet; parameter sets inside it update the state in order. A packet whose sizes do not fit is refused.",
 ["inputs", "histories"], "all packets with any number and mixture of units, and any inconsistent sizes",
 "One sample with three parameter sets, whose parsers happen to stop at the unit boundary.",
 [S+"h265_rtp_ap_parser.cc"], [("aggregation", S+"h265_rtp_ap_parser.cc ParseRtpAp")])
prop("P03", "Fragmentation packets report their markers and parse the starting fragment",
 "A fragment reports start and end markers and the fragmented unit's type as encoded. A starting fragment's payload is parsed as that type with the current state, giving the same fields as the whole unit as far as the fragment reaches; other fragments report no payload and leave the state alone.",
 ["inputs", "histories"], "all marker combinations, types, fragment boundaries",
 "Three sample fragments of one slice.",
 [S+"h265_rtp_fu_parser.cc"], [("fragment parsing", S+"h265_rtp_fu_parser.cc ParseRtpFu")])
prop("P04", "Configuration boxes decode to the values and units they contain",
 "Every valid decoder configuration record is accepted, every header field equals the encoded one, every contained unit is reported in its array with its true length and parsed content (or absent if unparsable), and its parameter sets enter the state. Records with a wrong version, wrong reserved bits or missing bytes are refused.",
 ["inputs", "histories"], "all header values, any number of arrays and units, any truncation",
 "One sample record.",
 [S+"h265_configuration_box_parser.cc"], [("hvcC syntax", S+"h265_configuration_box_parser.cc")])
# ---------------------------------------------------------------- output
prop("O01", "The text dump states the parsed values",
 "For every parsed unit, the dump contains each present scalar syntax element once per occurrence, under its name, with the value that was decoded, and lists hold the decoded elements in order.",
 ["inputs"], "all units of all supported kinds and all values",
 "No test reads a dump; a wrong field printed under a name is invisible to them though the dump is the tool's product.",
 ["src/", "tools/h265nal.cc"], [("dump functions", "every fdump() in src/")])
prop("O02", "Dumps are well formed and obey the output options",
 "Every dump has balanced braces and single-line dumps contain no line break; single-line and indented dumps of one result contain the same tokens. Each output option adds or removes exactly its own item and nothing else, and dumping changes neither the result nor the state.",
 ["inputs", "configurations"], "all parse results, all option combinations, both layouts",
 "Not tested at all; consumers parse this text.",
 ["src/"], [("dump functions", "every fdump() in src/"), ("layout helpers", S+"h265_common.cc fdump_indent_level")])
prop("O03", "The command-line dump equals the library's view of the file",
 "For any input file and option combination the command-line tool terminates normally and its dump is exactly what the library reports for that file with those options: one record per unit, in order, in the selected framing, preceded by the configuration box if one is given, with contents bytes being the unit's bytes when requested. Output to a file equals output to standard output, and unreadable or invalid arguments give an error exit, never a crash.",
 ["inputs", "configurations"], "all files, all option combinations",
 "The tool has no tests.",
 ["tools/h265nal.cc", S+"h265_utils.cc"], [("tool", "tools/h265nal.cc main"), ("file reading", S+"h265_utils.cc ReadFile")])
prop("O04", "The length report accounts for every unit and every frame",
 "The length report lists each unit of the file once, in order, with its type, name and byte length and, for decoded slices, its slice fields; frame rows appear exactly between pictures and at the end, number frames consecutively, and their bit rates equal eight times the frame's slice bytes times the frame rate, so that the frame rows together account for all slice bytes.",
 ["inputs", "histories", "configurations"], "all files, including files whose slices cannot be decoded, all frame rates and framings",
 "The tool has no tests; conservation over whole files is not a sample property.",
 ["tools/h265nal.cc"], [("length report", "tools/h265nal.cc dump_length branch")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
