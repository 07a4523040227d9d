#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": state, "meaning": state, "where": files[0]}]
    if observe: a["observe_at"] = [observe]
    if hook: a["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

H = "av1enc_verif cfg: exposes the binary-only modules to the harness crate"

prop("C01", "Entropy coding round-trips every symbol sequence",
 "Any sequence of symbols coded with any well-formed probability tables (alphabets of 2 to 16 symbols, tables interleaved in any order, raw literals and bits of a given probability mixed in) is recovered exactly by the AV1 symbol decoding process run on the finished segment. The project's own decoder returns, for every byte string and as long as the segment's bits last, exactly the symbols that process prescribes.",
 ["inputs", "histories"], "all symbol sequences, all well-formed tables, all interleavings of tables and literals, all coded byte strings",
 "The existing tests code a few random bit strings with one fixed table; carries, long runs of pending bits, skewed tables and large alphabets appear only for particular histories.",
 ["src/bool_coder.rs"], [("interval arithmetic and carry handling of the symbol encoder", "BoolCoder::encode_symbol, exit_encoder"), ("symbol decoder", "BoolCoder::init_decoder, decode_symbol"), ("literals and bits of given probability", "encode_literal, encode_symbolp, encode_symbols and their decoders")],
 "range coder interval, pending bits, emitted bits", "public coder calls")

prop("C02", "Adaptive probability tables follow the standard's rule and stay codable",
 "Coding or decoding a symbol changes only the table used for it, and changes that table exactly as the AV1 adaptation rule says (rate 4 + (count > 31) + floor(log2 N) for N symbols, as this code base defines it, each entry moved towards its target by that shift), so encoder and decoder tables stay equal through any history. Starting from any of the built-in default tables, every table stays strictly increasing up to 32768 with its adaptation counter saturating at 32, so every symbol stays codable for ever.",
 ["histories", "inputs"], "all default tables, all symbol histories, tables saved and restored at any point",
 "Table drift or a collapsed probability needs long skewed histories on specific alphabets; the tests never look at a table.",
 ["src/bool_coder.rs", "src/cdf.rs"], [("adaptation after each symbol", "BoolCoder::encode_symbol / decode_symbol, 'update cdf'"), ("default tables", "src/cdf.rs default_cdf")],
 "probability table entries and counters", "tables passed to and returned from coder calls", H)

prop("C03", "Entropy-coded segments are self-contained whole-byte units",
 "Every finished entropy-coded segment is a whole number of bytes and depends only on the symbols and tables coded since the coder was initialised, however the same coder object was used before. A decoder told the byte size of a segment that is followed by other data consumes exactly that segment and leaves the following data untouched.",
 ["histories", "inputs"], "all sequences of segments coded with one coder object, including aborted ones, all symbol contents, all following data",
 "The tests code one segment per fresh coder and decode it from a buffer that ends with it, so alignment after reuse and over- or under-consumption are invisible.",
 ["src/bool_coder.rs"], [("initialisation and termination of a segment", "BoolCoder::init_encoder, exit_encoder"), ("byte budget of the decoder", "init_decoder, exit_decoder")],
 "coder state carried between segments", "segment bits and the decoder's remaining input")

prop("C04", "Header number codes are canonical, self-delimiting and lossless",
 "Every value in range of a header number code (fixed-width, unsigned variable-length, little-endian, LEB128, signed and non-symmetric unsigned) is written as exactly the bit string the AV1 specification defines for that code, appended without disturbing bits already written. Reading it back returns the value and consumes exactly those bits, whatever follows.",
 ["inputs"], "all values and all widths or ranges of every code, all surrounding bits",
 "The tests sample random mid-range values and never compare against the defined bit strings, so a consistent change of both directions passes, and so do faults at width and range boundaries.",
 ["src/bool_coder.rs", "src/util.rs"], [("descriptor writers and readers", "BoolCoder::push_bits_with_size, encode_/decode_ uvlc, le, leb128, su, ns"), ("bit length helpers", "util::msb64, FloorLog2")],
 None, "bits appended to the output vector, bits left in the input queue")

prop("C05", "Output bits are packed in order, zero-padded, and none are lost",
 "For any sequence of bit writes and alignment requests, the output file holds exactly the written bits in order, most significant bit first in each byte, with only zero bits inserted by alignment and none inserted when already aligned. All completed bytes are in the file once the writer is closed.",
 ["histories", "inputs"], "all interleavings of single-bit writes, multi-bit writes and alignments, any total length",
 "No test touches the writer; packing and padding faults need particular phases of the bit position.",
 ["src/binary_writer.rs", "src/bool_coder.rs"], [("bit packing", "BinaryWriter::write_bit, write_bits, byte_align"), ("in-memory alignment", "BoolCoder::push_bits_align")],
 "partial byte and its fill level", "bytes in the output file", H)

prop("C06", "Every temporal unit written is well-formed length-delimited OBU data",
 "For any sequence of OBUs of every kind the encoder can write (temporal delimiter, sequence header, frame header, redundant frame header, metadata, padding; tile data is not implemented) and of any payload size, the output is a sequence of temporal units in the AV1 length-delimited format: each nested size field equals the number of bytes it covers and nothing is left over. Each unit contains one OBU whose header names the kind requested and whose body is exactly that OBU's payload bits followed by the required trailing bits.",
 ["inputs", "histories"], "all sequences of OBU kinds and payload lengths, including sizes where the length code grows",
 "No test writes an OBU; wrong sizes or ordering still compile and only a demultiplexer notices.",
 ["src/obu_encoder.rs", "src/binary_writer.rs"], [("OBU header and body", "OBUEncoder::encode_obu_header, encode_obu"), ("temporal unit framing", "OBUEncoder::encode_temporal_unit")],
 None, "bytes of the output file", H)

prop("C07", "The sequence header says exactly what was configured",
 "For every valid sequence configuration, a decoder parsing the sequence header payload by the header syntax recovers every configured value (profile, operating points, frame size limits, tool flags, colour description, timing and decoder model) and ends exactly at its last bit. Values the syntax leaves out are ones the decoder infers to be what the encoder goes on using.",
 ["configurations", "inputs"], "all valid combinations of the sequence-level settings, all frame sizes, repeated headers",
 "The header is a chain of conditional fields; one wrong width or condition shifts everything after it only for particular combinations.",
 ["src/obu_encoder.rs", "src/sequence_header.rs", "src/encoder.rs"], [("sequence header writer", "OBUEncoder::encode_obu_payload, OBU_SEQUENCE_HEADER arm")],
 "sequence-level encoder settings", "payload bits and encoder settings after the call", H)

prop("C08", "Metadata and padding payloads carry exactly the values given",
 "For every metadata item of every kind and every padding length, parsing the payload by the metadata syntax yields the kind's registered type number and every field value given, and ends exactly at the last bit. Padding is exactly the requested number of zero bytes.",
 ["inputs", "configurations"], "all metadata kinds, all field values, all optional-field combinations, all list lengths",
 "No test encodes metadata; optional-field presence patterns and wide fields are combinatorial.",
 ["src/obu_encoder.rs", "src/obu.rs"], [("metadata and padding writers", "OBUEncoder::encode_obu_payload, OBU_METADATA and OBU_PADDING arms")],
 None, "payload bits", H)

prop("C09", "The frame header says exactly what was configured",
 "For every supported frame configuration, a decoder parsing the frame header payload by the header syntax, with the sequence settings in force, recovers every coded value (frame type and visibility, ids, sizes, reference selection, tiles, quantisation, segmentation, filters, restoration, transform mode, skip mode, global motion and film grain) and ends exactly at its last bit. A frame header repeated before its frame is complete is a bit-for-bit copy of the first. Supported means: sizes taken from a reference come from the first one, all planes share the restoration type, the application supplies the reference indices.",
 ["configurations", "inputs"], "all supported combinations of frame and sequence settings and of the reference state",
 "Over a hundred conditionally present fields; a wrong condition, width or order desynchronises the parse only in particular combinations.",
 ["src/obu_encoder.rs", "src/frame.rs", "src/encoder.rs"], [("frame header writer", "OBUEncoder::encode_obu_payload, OBU_FRAME_HEADER arm")],
 "frame and encoder context settings", "payload bits", H)

prop("C10", "Encoder state after each header is what a decoder infers from it",
 "Along any sequence of temporal delimiters, sequence headers and frame headers, the encoder's state (frame-header-seen status, intra status, refresh set, reference validity, expected ids, inferred flags, quantiser-derived losslessness, transform mode, skip-mode references, restoration state) equals the state a decoder derives from the bits sent so far. A frame header repeated before its frame is complete changes nothing. (Storing the decoded frame in the reference slots is the application's part.)",
 ["histories", "configurations"], "all histories of OBUs and settings",
 "State carried from one header to the next only shows up in multi-step histories; the tests never encode two headers.",
 ["src/obu_encoder.rs", "src/encoder.rs"], [("state updates in the header writers", "OBUEncoder::encode_obu_payload"), ("context", "EncoderContext")],
 "EncoderContext fields", "encoder context after each OBU", H)

prop("C11", "Command-line arguments are interpreted completely and in order",
 "For every argument list, parsing either yields the settings given by applying each option with its value from left to right over the defaults (long and short names equivalent, a later value replacing an earlier one), or reports an error; no argument is ever silently ignored and no argument list makes the parser crash.",
 ["inputs"], "all argument lists over known and unknown options, well-formed and malformed values, any order and length",
 "No test parses arguments; dropped or crashing arguments depend on the order and spelling of the list.",
 ["src/option.rs"], [("argument walk", "CommandOption::parse, set_option_by_name, set_option_by_short_name"), ("value parsers", "OPTIONS table, parse_tuple")],
 "Config", "parse result and resulting settings", H)

prop("C12", "Exactly the usable configurations are accepted",
 "A configuration is accepted if and only if input and output are given, both frame dimensions lie between 1 and 8191, and the frame rate is positive; unset frame rate and frame count take their documented defaults. When the arguments or the configuration are rejected, or the input cannot be opened, the program reports an error, exits with a failure status and creates no output.",
 ["inputs", "configurations"], "all settings, in particular all boundary values and every subset of missing options",
 "Boundary values and missing-option subsets are combinatorial and no test runs the program.",
 ["src/option.rs", "src/main.rs"], [("validators and defaults", "CommandOption::validate_config, init_config"), ("error handling", "main")],
 "Config", "validation result, process exit status, output file", H)

prop("C13", "Frame data is read completely however the input is delivered",
 "Reading successive planes yields exactly the input bytes in order, every plane completely filled as long as the input has bytes for it, no matter in what pieces the input arrives; only the plane at which the input ends is reported as short, with the number of bytes it got.",
 ["schedules", "inputs"], "all ways of splitting the input into deliveries, all plane sizes, all input lengths, files and pipes",
 "No test reads input; short reads depend on buffer boundaries and on how a pipe is fed.",
 ["src/binary_reader.rs"], [("plane reading", "BinaryReader::read_to_vec")],
 "stream position", "plane contents and returned counts", H)

prop("C14", "An encoding run ends and its output is exactly one valid bitstream",
 "For every accepted command line and every input, the program terminates after the last complete frame or the requested number of frames, and the output (file or standard output) holds exactly the bitstream: one temporal unit whose sequence header announces the requested size if at least one frame was read, nothing otherwise, and no other text. The output does not depend on how the input is delivered; if the input cannot be read or the output cannot be written, the program exits with a failure status.",
 ["inputs", "schedules", "configurations"], "all sizes, frame counts, input lengths, delivery schedules, file and standard streams",
 "No test runs the program end to end.",
 ["src/main.rs", "src/obu_encoder.rs", "src/binary_writer.rs", "src/binary_reader.rs"], [("frame loop", "main"), ("stream writer", "OBUEncoder::encode_temporal_unit")],
 None, "output file, standard output, exit status, running time")

prop("C15", "Each block-level syntax element uses the table its context selects",
 "Coding a block-level syntax element codes exactly the given value with exactly one probability table, the one the context rule selects from the element's parameters and the available neighbouring blocks (those the frame has recorded above and to the left, in a single-tile frame; coefficient elements use the tables of the lowest quantiser class), and leaves all other tables and the neighbouring data unchanged.",
 ["inputs", "configurations"], "all elements, all parameter values, all neighbour combinations including unavailable ones",
 "There are dozens of elements with contexts over two neighbours; no test calls any of them.",
 ["src/bool_coder.rs", "src/common.rs", "src/frame.rs", "src/cdf.rs"], [("element writers", "BoolCoder::encode_<element>"), ("neighbour lookup", "Frame::get_above_mi, get_left_mi")],
 "probability tables, mode info grid", "table that changed, decoded symbol", H)

prop("C16", "Shared derivations agree with their definitions on their whole domain",
 "The derivations that writers and contexts share (bit lengths, signed and unsigned rounding, clipping and minimum/maximum arithmetic, block and frame dimensions in coding units, signed wrap-around order distance, reference direction and counting rules, transform set, type and class selection) equal their defining rules for every argument, and every transform type they select is one the selected set allows.",
 ["inputs"], "the whole argument domain, enumerated where finite",
 "Only a handful of bit-length arguments are exercised indirectly; boundary arguments matter.",
 ["src/util.rs", "src/common.rs", "src/frame.rs"], [("derivations", "msb16/32/64, find_tx_size, check_backward, count_refs, ref_count_ctx, get_tx_set, compute_tx_type, get_tx_class, is_samedir_ref_pair, get_relative_dist, Frame::mi_rows/mi_cols/tile_*")],
 None, "return values", H)

prop("C17", "Loop restoration units are coded so that a decoder recovers them",
 "Coding a frame's loop restoration parameters superblock by superblock, for every superblock size, unit size, plane subsampling and superres setting, codes every restoration unit in exactly one superblock, and a decoder following the syntax recovers from the entropy-coded data each unit's restoration type, Wiener coefficients and self-guided set and weights; the predictions for the next unit and the frame's record of the unit equal the decoder's.",
 ["inputs", "histories", "configurations"], "all unit parameters in their legal ranges, frame and unit geometries, sequences of units",
 "No test codes a restoration unit; each unit's coding depends on the previous ones.",
 ["src/tile_encoder.rs"], [("unit placement", "TileEncoder::encode_lr"), ("unit coding", "encode_lr_unit, subexp coding")],
 None, "coded symbols and literals, tile predictions, frame record", H)

prop("C18", "The mode information of a block is coded so that a decoder recovers it",
 "For every block at any position in a tile, and every sequence of blocks, a decoder following the block syntax recovers from the entropy-coded data the segment id, skip flag, cdef index, quantiser index and loop filter steps, inter flag, reference frames, prediction mode, candidate index and new motion vectors that were given, for all values the syntax can express; what the syntax infers is inferred (segment features, single references in small blocks, motion vectors of predicted modes), and the encoder's running quantiser, loop filter and cdef state equals the decoder's. Of intra block copy, the motion vector is covered: predicted by the first nonzero candidate, else by the default place (one superblock above, or in the tile's first superblock row a superblock and 256 samples to the left).",
 ["inputs", "histories", "configurations"], "all block sizes and positions, segment features, neighbours, references, modes, motion vectors in range",
 "No test codes a block; each field's coding depends on the neighbours, the segment features and the previous blocks.",
 ["src/tile_encoder.rs"], [("block coding", "TileEncoder::encode_block"), ("segment id", "encode_segment_id"), ("references and modes", "encode_mode_info"), ("motion vectors", "assign_mv")],
 "quantiser index, loop filter deltas, cdef record, probability tables", "entropy-coded data and block fields after coding", H)

prop("C19", "Motion vector candidates of a block are those its neighbours define",
 "For every inter block, the candidate list holds the motion vectors of the adjacent blocks above, left and above right inside the tile that use the same reference or reference pair (global motion for blocks predicted globally), then those of the motion field where the frame uses it, each once, at most eight, in scan order, rounded to the frame's motion vector precision, with weights proportional to the shared edge; places one and two not filled this way hold the global motion vectors; and no neighbour outside the tile or not yet coded is looked at.",
 ["inputs", "configurations"], "all block sizes and positions, neighbour layouts, reference pairs, global motion models, motion fields, precisions",
 "No test derives candidates; the list depends on the whole neighbourhood.",
 ["src/tile_encoder.rs"], [("candidate scan", "TileEncoder::find_mv_stack"), ("one neighbour", "add_ref_mv_candidate")],
 "mode info grid, motion field", "candidate list, weights, match counts", H)

prop("C20", "A tile is coded so that a decoder recovers its blocks and state",
 "For every frame, tile layout and tile, a decoder following the tile syntax recovers from the tile's data alone (tables, quantiser index, loop filter steps and restoration predictions at their initial values, nothing left from other tiles, earlier frames or other use of the coder) a tree of partitions per superblock, superblocks in raster order, each preceded by its restoration units, whose blocks cover the tile's part of the frame exactly once; at the end its record of the tile's blocks (size, references, mode, vectors, segment, skip), its cdef record, quantiser index, loop filter steps, restoration predictions and probability tables equal the encoder's, and the data is whole bytes with nothing behind what the blocks need. Trying alternatives leaves no trace: only what was chosen shows.",
 ["inputs", "histories", "configurations"], "all frame sizes, superblock sizes, tile layouts, tile numbers, segmentation, delta, cdef and restoration settings",
 "No test codes a tile; a partition flag, context or state restored wrongly in one branch desynchronises every later symbol.",
 ["src/tile_encoder.rs", "src/frame.rs"], [("tile walk", "TileEncoder::encode_tile"), ("partition search", "TileEncoder::encode_partition"), ("block coding", "TileEncoder::encode_block"), ("state kept over alternatives", "BlockState")],
 "mode info grid, cdef record, probability tables, coder state", "tile data and the frame's records after coding", H)

prop("C21", "A tile group carries exactly its tiles, each delimited",
 "For every frame and every range of its tiles, the payload of a tile group OBU consists of the presence flag (frames with several tiles only) and, if set, the first and last tile number in as many bits as the tile counts need, alignment with zeros, and the tiles of that range (all of them without the flag) in raster order, each but the last preceded by its size minus one in the frame's number of size bytes, little-endian; each tile is exactly what coding it on its own gives, whatever was coded before; and the frame counts as complete when, and only when, the group ends with the frame's last tile.",
 ["inputs", "histories", "configurations"], "all tile layouts, ranges, size widths, tile sizes",
 "No test writes a tile group; ranges, size fields and independence between tiles matter only with several tiles.",
 ["src/obu_encoder.rs"], [("tile group payload", "OBUEncoder::encode_obu_payload (OBU_TILE_GROUP)"), ("number widths", "Frame::tile_cols_log2, tile_rows_log2")],
 "tg_start, tg_end, seen_frame_header", "payload bits, seen_frame_header", H)

prop("C22", "Probability tables start at the values the format fixes",
 "For every block-level syntax element, every context and every quantiser class, the built-in probability table has the alphabet and exactly the values the AV1 standard fixes for it, and a new tile encoder starts from exactly these tables, so that a decoder starting from the standard's tables begins in step with it.",
 ["inputs", "configurations"], "all 4648 tables, enumerated",
 "Some twenty thousand constants; a wrong one shows only where a decoder other than the project's own reads that element in that context, and no test uses the built-in tables.",
 ["src/cdf.rs", "src/tile_encoder.rs"], [("tables", "default_cdf"), ("start of coding", "TileEncoder::new")],
 "probability tables", "table values", H)

prop("C23", "A stream decodes from its bytes alone",
 "For every sequence of a sequence header and intra frames written by one encoder (frame header, copies of it, tile groups in any division, delimiters and padding in between), a decoder given nothing but the written bytes recovers every frame: it finds the temporal units, reads the headers, and reads each tile with the parameters those headers state or imply (superblock size, frame, tile and restoration geometry, segmentation, quantiser, cdef and step settings, losslessness, vector precision, whether probability tables adapt, size of the tile size fields). What it recovers (blocks, cdef indices, quantiser and loop filter state, restoration units) is what the encoder records and was given. No setting acts on the tiles that the headers do not carry, and none the headers carry is ignored by them; nothing left from an earlier frame matters.",
 ["inputs", "histories", "configurations"], "all sequence and intra frame configurations, all divisions into tiles and tile groups, all histories of frames",
 "Headers and tiles are written by separate code that shares mutable state; a disagreement between them is invisible to a test of either, and no test decodes anything.",
 ["src/obu_encoder.rs", "src/tile_encoder.rs", "src/bool_coder.rs", "src/encoder.rs"], [("headers set the shared state", "OBUEncoder::encode_obu_payload"), ("tiles use it", "TileEncoder::encode_tile, encode_lr, encode_mode_info"), ("whether tables adapt", "BoolCoder::disable_cdf_update")],
 "EncoderContext and Frame between header and tiles", "bytes of the output file, the frame's records after coding", H)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
