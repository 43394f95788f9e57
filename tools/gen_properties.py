#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, state, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None)))

prop("C01", "Integer coding is lossless for every predicted/actual pair",
 "Whatever prediction and actual value an integer field compressor is given, within the range of its configured bit width (8, 16 or 32 bits, the widths the format uses), the matching decompressor given the same prediction and context returns exactly the actual value, for any sequence of such calls and any interleaving of contexts. It reads exactly the symbols, bits and raw bits the compressor produced, and never asks the entropy coder for a symbol outside its alphabet. Both sides report the same magnitude class after each value, since callers use it to pick later contexts.",
 ["inputs", "histories"], "all (prediction, actual) pairs of 8, 16 and 32 bit fields, every context, any call history; the configured numbers of raw and modelled bits",
 "2^64 pairs per width; the corner cases (differences of exactly 2^k, -2^(k)+1, i32::MIN, folding at the edge of the width) are reached only by chance in the handful of recorded point clouds the tests use",
 ["src/compressors.rs", "src/decompressors.rs"],
 [("magnitude class", "number of significant bits of the last difference", "IntegerCompressor::k / IntegerDecompressor::k"),
  ("interval models", "one adaptive alphabet per context and one per magnitude class", "m_bits, m_corrector, m_corrector_0")],
 [("difference folding and interval split", "IntegerCompressor::compress"), ("reassembly and unfolding", "IntegerDecompressor::decompress")],
 ["value returned by the decompressor", "sequence of coder calls on both sides"])

prop("C02", "The arithmetic decoder recovers exactly what was encoded",
 "For every sequence of modelled bits, modelled symbols, raw bits, bytes, shorts, ints and 64-bit ints written to the entropy encoder and then finished, the entropy decoder asked for the same kinds in the same order with models in the same state returns the same values. It reads no more bytes than the encoder produced, and its models end up in the same state as the encoder's.",
 ["inputs", "histories"], "all sequences of coder operations, all model states reachable by adaptation, all symbol values",
 "the tests decode a few recorded streams; interval arithmetic can go wrong only for particular (base, length, probability) triples, e.g. a wrap of the base, a length just at the renormalisation bound, the last symbol of an alphabet",
 ["src/encoders.rs", "src/decoders.rs", "src/models.rs"],
 [("interval", "current base and length of the encoder", "ArithmeticEncoder::base/length"),
  ("offset in interval", "code value minus base, and length, of the decoder", "ArithmeticDecoder::value/length")],
 [("interval narrowing and renormalisation", "encode_bit/encode_symbol/write_bits/write_short and decode_* counterparts"),
  ("final bytes", "ArithmeticEncoder::done, ArithmeticDecoder::read_init_bytes")],
 ["values returned by the decoder", "number of bytes consumed"])

prop("C03", "Adaptive probability models stay well formed and evolve identically",
 "After any sequence of coded symbols or bits, an adaptive model gives every symbol of its alphabet a non-empty share of the coding interval, the shares partition it in symbol order, and no computation on it overflows. A model used for encoding and one used for decoding that saw the same sequence hold the same probabilities, and the decoder's quick lookup always brackets the symbol that the probabilities define.",
 ["inputs", "histories"], "all alphabet sizes from 2 to 2048, all initial counts, all symbol sequences of any length, across any number of rescalings",
 "rescaling and table rebuilding happen after thousands of symbols of particular distributions; tests run few such streams and cannot see a lookup table that is wrong for rarely used code values",
 ["src/models.rs"],
 [("counts", "how often each symbol was seen, halved when their sum gets too large", "ArithmeticModel::symbol_count/total_count"),
  ("cumulative distribution", "scaled cumulative counts", "ArithmeticModel::distribution"),
  ("lookup table", "from code value prefix to first candidate symbol", "ArithmeticModel::decoder_table")],
 [("rebuild", "ArithmeticModel::update, ArithmeticBitModel::update"), ("construction", "ArithmeticModel::new")],
 ["probabilities in effect at each coding step"])

prop("C04", "The encoder's byte output is exact whatever its length and carries",
 "The bytes an entropy encoder has delivered once it is finished are the big-endian digits of the number its interval stands for: every carry reaches all digits it must change, including digits produced long before and digits lying across the boundaries of the internal buffer, and no digit is lost, duplicated or reordered when the buffer is flushed. The output of a reset encoder does not depend on what it encoded before.",
 ["inputs", "histories"], "all operation sequences, all output lengths, all alignments of carries and buffer flushes",
 "a carry that crosses the buffer wrap-around needs a run of 0xFF digits at one exact offset of the output; recorded clouds hit it rarely or never",
 ["src/encoders.rs"],
 [("ring buffer", "last digits produced, kept until no carry can change them", "ArithmeticEncoder::out_buffer/out_byte/end_byte")],
 [("carry", "propagate_carry"), ("flush", "manage_out_buffer, done"), ("digits", "renorm_enc_interval")],
 ["bytes received by the output stream"])

prop("C05", "Legacy point formats round trip bit for bit",
 "For every sequence of point records made of the legacy items (point formats 0-5: core point, GPS time, RGB, wave packet, extra bytes) in compression version 1 or 2, compressing the records and decompressing them yields the original bytes of every record, in order. This holds for every bit pattern of every field, including values that wrap around, floating point times that are infinities, NaNs or signed zeros, and any number of points.",
 ["inputs", "histories", "configurations"], "all record sequences of any length, all combinations of legacy items and extra byte counts, both versions",
 "the predictors carry state across points (medians, last times, per-context history), so an error shows only for particular successions of values; tests replay one small recorded cloud per format",
 ["src/las/point0.rs", "src/las/gps.rs", "src/las/rgb.rs", "src/las/wavepacket.rs", "src/las/extra_bytes.rs", "src/record.rs", "src/las/utils.rs"],
 [("last item", "previous record's field, prediction base", "last* fields of each compressor and decompressor"),
  ("per-context history", "medians of differences, last intensities and heights, GPS time sequences", "Point10/gps/wavepacket state structs")],
 [("field codecs", "*Compressor::compress_with and *Decompressor::decompress_with"), ("first record stored raw", "compress_first / decompress_first"),
  ("record assembly", "SequentialPointRecord(De)Compressor")],
 ["bytes of the decompressed records"])

prop("C06", "Layered point formats round trip bit for bit",
 "For every sequence of point records made of the layered items (point formats 6-10: core point, RGB, RGB+NIR, wave packet, extra bytes) in compression version 3 or 4, compressing a chunk and decompressing it yields the original bytes of every record, in order. This holds for every bit pattern, for every succession of the four scanner channels, and when any subset of the layers is empty because its field never changed in the chunk.",
 ["inputs", "histories", "configurations"], "all record sequences, channel successions, GPS time histories (up to 4 interleaved sequences per channel), both versions",
 "each scanner channel has its own lazily created copy of the state; a channel switch at an unlucky place, a GPS time that jumps between remembered sequences, or a layer which is touched only once are rare in recorded data and the tests contain next to no layered files",
 ["src/las/point6.rs", "src/las/rgb.rs", "src/las/nir.rs", "src/las/wavepacket.rs", "src/las/extra_bytes.rs", "src/record.rs"],
 [("channel contexts", "per scanner channel models and last item", "contexts arrays, current_context"),
  ("layer changed flags", "whether a layer has any content", "has_changed / should_decompress structs")],
 [("field codecs", "LayeredFieldCompressor::compress_field_with / LayeredFieldDecompressor::decompress_field_with"),
  ("layer sizes and contents", "write_layers_sizes/write_layers and read_layers_sizes/read_layers")],
 ["bytes of the decompressed records"])

prop("C07", "Selective decompression returns selected fields unchanged",
 "When only some fields of a layered format are selected, every selected field, and the fields that are always decoded (x, y, return numbers, scanner channel), have the same value in every point as in a full decompression. Fields that are not selected keep, in every point of a chunk, the value they had in the first point of the chunk, and points of legacy formats are always decoded fully.",
 ["inputs", "configurations"], "all selections, all layered record sequences, all chunkings",
 "2^12 selections times the histories of C06; the fields share contexts (GPS time and classification feed others), so skipping one layer can silently corrupt another for particular data only",
 ["src/las/selective.rs", "src/las/point6.rs", "src/las/rgb.rs", "src/las/nir.rs", "src/las/wavepacket.rs", "src/las/extra_bytes.rs", "src/las/utils.rs", "src/record.rs"],
 [("requested layers", "which layers will be decoded", "is_requested flags")],
 [("selection to layers", "set_selection of each layered decompressor"), ("skipping", "copy_bytes_into_decoder")],
 ["bytes of the decompressed records"])

prop("C08", "The LASzip VLR round trips and describes the records truthfully",
 "Serialising any LASzip description record (compressor, chunk size mode, items) and parsing it back gives an equal record, the serialised layout is the one fixed by the format, and parsing bytes with an unknown compressor or item kind, or too few bytes, is refused with an error. For every point format and number of extra bytes that fits a record, the items generated for it add up to the size of that point format, are all of versions the compressor type supports, and can be opened for compression and decompression.",
 ["inputs", "configurations"], "all 34+6n byte strings, all item lists, all point formats 0-10, all extra byte counts and chunk sizes",
 "tests check a few formats with zero or one extra byte count; the mapping codes/sizes/versions is a table in which any single entry may be wrong",
 ["src/laszip/vlr.rs", "src/las/pointtypes.rs", "src/laszip/details.rs"],
 [("description record", "compressor type, chunk size, items", "LazVlr")],
 [("serialisation", "LazVlr::write_to/read_from, LazItem::write_to/read_from"), ("item tables", "LazItemRecordBuilder, DefaultVersion/VersionN impls"), ("dispatch", "record_(de)compressor_from_laz_items")],
 ["serialised bytes", "parsed fields", "errors"])

prop("C09", "Chunk tables round trip and locate every point",
 "Any chunk table written to a stream and read back is the same table: byte counts always, point counts when chunks have variable size, and the configured chunk size as point count otherwise; the reader finds it through the offset in front of the points, or through the last 8 bytes of the source when that offset was never updated, and leaves the source at the first compressed point. Looking up a point index yields the one chunk whose points include that index and the sum of the byte counts of all chunks before it, or nothing when the index is not below the total.",
 ["inputs"], "all tables of any length with counts in the 32-bit range, all point indices, all start offsets",
 "tests read tables of one or two ordinary entries; large counts, equal prefix sums, zero-length entries and indices right at a border are not sampled",
 ["src/laszip/chunk_table.rs"],
 [("entries", "point and byte count of each chunk", "ChunkTable")],
 [("coding", "ChunkTable::read / write"), ("location of the table", "read_offset, update_chunk_table_offset"), ("lookup", "chunk_of_point, chunk_position")],
 ["table contents", "source position", "lookup results"])

prop("C10", "Chunked files hold all points and a chunk table that matches them",
 "However the caller splits its points over single-point, many-point and chunk calls, a finished file contains exactly these points in order: fixed-size mode cuts a new chunk every chunk-size points, variable-size mode exactly where the caller ended a chunk (chunks without points leave no trace). The chunk table is found at the recorded offset, its byte counts tile the bytes between the offset field and the table, each chunk decodes on its own, bytes before the start of the data are untouched, and a sequential read yields the points, also when the source cannot seek or has no chunk table in the modes that do not need one.",
 ["inputs", "histories", "configurations"], "all call sequences of the sequential compressor and decompressor, all chunk sizes, all item kinds, all start positions",
 "tests write with one call pattern and a few sizes; errors in chunk bookkeeping need a point count at a chunk border, a chunk ended twice, or a reservation made by hand",
 ["src/laszip/sequential/compression.rs", "src/laszip/sequential/decompression.rs", "src/laszip/chunk_table.rs", "src/record.rs"],
 [("current chunk", "points and bytes since the last chunk start", "current_chunk_entry, chunk_start_pos"),
  ("read position", "chunk index and points read in it", "current_chunk, chunk_points_read, num_points_in_chunk")],
 [("chunk switch when writing", "LasZipCompressor::compress_one, finish_current_chunk, done"), ("chunk switch when reading", "LasZipDecompressor::decompress_one")],
 ["file bytes", "points read back"])

prop("C11", "Seeking lands on the requested point",
 "After seeking to the index of an existing point, the sequential and the parallel decompressor return exactly the points from that index on, whatever was read or sought before, in fixed-size and variable-size files, with any selection. Seeking to an index beyond all chunks makes the next read fail with an error instead of returning data, and a later seek to an existing point works again.",
 ["inputs", "histories", "configurations"], "all sequences of seeks and reads on all files the compressors can produce",
 "tests seek a handful of times in one recorded fixed-size file; the last chunk, partially read chunks, variable-size chunks and chunk borders take different paths",
 ["src/laszip/sequential/decompression.rs", "src/laszip/parallel/decompression.rs", "src/laszip/chunk_table.rs"],
 [("read position", "chunk index, points read in chunk; leftover points of the parallel reader", "LasZipDecompressor / ParLasZipDecompressor fields")],
 [("seek", "LasZipDecompressor::seek, ParLasZipDecompressor::seek"), ("lookup", "ChunkTable::chunk_of_point")],
 ["points returned after a seek"])

prop("C12", "Appending keeps existing points and adds the new ones",
 "Opening a finished file for appending with the number of points to keep, adding points and finishing, gives a file which reads back as the kept points followed by the added ones, with a chunk table that is valid for the whole file, for the sequential and the parallel appender. This holds for empty files, files whose last chunk is full or partial, fixed-size and variable-size chunks, a keep count smaller than the file, no added points, and repeated appends.",
 ["inputs", "histories", "configurations"], "all files, keep counts and added point sequences, repeated",
 "no test covers most of these combinations; each takes its own path through reopening the last chunk",
 ["src/laszip/sequential/appender.rs", "src/laszip/parallel/appender.rs", "src/laszip/chunk_table.rs", "src/laszip/sequential/compression.rs"],
 [("saved chunk table", "entries of the chunks kept as they are", "saved_chunk_table")],
 [("reopening the last chunk", "prepare_compressor_for_appending"), ("joining the tables", "LasZipAppender::done, ParLasZipAppender::done")],
 ["points read back after an append", "chunk table of the result"])

prop("C13", "Parallel and sequential processing give the same result",
 "For the same points and fixed chunk size the parallel compressor, the parallel whole-buffer function and the sequential ones produce byte-identical files, however the points are split over calls and however the work is scheduled; with variable-size chunks the parallel compressor stores exactly the given chunks in order. Decompressing in parallel, in any request sizes, gives the same points as sequential decompression.",
 ["inputs", "schedules", "configurations"], "all inputs, call splits, numbers of threads and schedules",
 "tests compare whole buffers for a few sizes; carrying leftovers between calls goes wrong only for particular ratios of call size to chunk size",
 ["src/laszip/parallel/compression.rs", "src/laszip/parallel/decompression.rs", "src/byteslice.rs"],
 [("leftover", "points not yet forming a chunk / decompressed but not yet returned", "rest")],
 [("splitting", "ParLasZipCompressor::compress_many, par_compress_chunks"), ("joining", "ParLasZipDecompressor::decompress_many, par_decompress_selective")],
 ["file bytes", "points read back"])

prop("C14", "Packing records to and from bytes is exact",
 "For every field group of the point formats, unpacking a byte string and packing the result gives the same bytes back, and packing a value and unpacking it gives the same value; multi-byte fields are little-endian at the offsets fixed by the LAS format, and each bit field occupies exactly its own bits. Packing into or unpacking from a slice that is too short panics instead of touching memory outside it, and setting one bit field never changes another.",
 ["inputs"], "all byte strings of the record sizes, all field values, all slice lengths",
 "tests convert a few hand-picked points; an off-by-one in an offset or mask hides behind zero or symmetric bytes",
 ["src/packers.rs", "src/las/point0.rs", "src/las/point6.rs", "src/las/rgb.rs", "src/las/nir.rs", "src/las/gps.rs", "src/las/wavepacket.rs", "src/las/pointtypes.rs"],
 [],
 [("packing", "Packable implementations"), ("bit fields", "Point0/Point6 accessors")],
 ["bytes and field values"])

prop("C15", "Irregular slicing partitions its input exactly",
 "Cutting a byte slice by a list of sizes yields consecutive, non-overlapping pieces of exactly these sizes in order, starting at the first byte, shared or mutable, and stops with the list; writing through one mutable piece changes only the bytes of that piece. A size larger than what remains is a panic, never an out-of-range piece.",
 ["inputs"], "all slices and all size lists",
 "it has no test of its own; every record and every parallel job is cut with it",
 ["src/byteslice.rs"],
 [("remainder", "part of the slice not handed out yet", "ChunksIrregular(Mut)::remainder")],
 [("cut", "Iterator::next of both iterators")],
 ["pieces returned"])

prop("C16", "No input makes the library touch memory outside its buffers",
 "Whatever compressed bytes are decoded (intact, truncated or corrupted) under a supported layout, every access to the tables, histories and buffers of the decoder and of the models stays inside their bounds, and the outcome is a value, an error or a panic, never an out-of-range access. The same holds on the writing side for every point record and every output length.",
 ["inputs", "histories"], "all byte strings as compressed data, all decoder and model states reachable from them, all records on the writing side",
 "the unchecked accesses rely on invariants that hold on good data anyway; tests only decode good data",
 ["src/models.rs", "src/encoders.rs", "src/decoders.rs", "src/packers.rs", "src/las/utils.rs", "src/las/point6.rs", "src/las/wavepacket.rs", "src/las/rgb.rs"],
 [("lookup table", "written with unchecked indices", "ArithmeticModel::decoder_table"), ("ring buffer", "written through raw pointers", "ArithmeticEncoder::out_buffer")],
 [("unsafe blocks", "models.rs, encoders.rs, packers.rs, las/*.rs")],
 ["memory accesses"])

prop("C17", "Compressed data stays compatible with the LASzip format",
 "For every sequence of point records the compressed bytes are those the LASzip format defines for it, and compressed data written by earlier releases or by LASzip keeps decoding to the same points: the number and order of coded symbols, their contexts, the initial and adapted probabilities, raw values and layer order never change. A change made consistently on the compressing and the decompressing side therefore still breaks this property.",
 ["inputs", "histories", "configurations"], "all record sequences, items and versions",
 "round trip tests cannot see a change made on both sides, and the stored sample files cover one short cloud for some formats only",
 ["src/las/point0.rs", "src/las/gps.rs", "src/las/rgb.rs", "src/las/nir.rs", "src/las/wavepacket.rs", "src/las/extra_bytes.rs", "src/las/point6.rs", "src/las/utils.rs", "src/compressors.rs", "src/decompressors.rs", "src/encoders.rs", "src/decoders.rs", "src/models.rs", "src/record.rs"],
 [],
 [("symbol sequence and contexts", "field codecs"), ("probabilities", "models.rs"), ("byte production", "encoders.rs")],
 ["compressed bytes", "points decoded from stored data"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
