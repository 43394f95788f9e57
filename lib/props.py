"""What decides each property: Kani harnesses, Verus units, native groups."""

import re


def table4(name, ty):
    """Edit: an array of four of these is seen through `Table` (its contract)."""
    return (r"re:\b%s: \[%s; 4\]" % (name, re.escape(ty)), "%s: crate::verif_ghost::Table<%s>" % (name, ty))


def init4(name, val):
    v = re.escape(val)
    return (r"re:\b%s: \[\s*%s,\s*%s,\s*%s,\s*%s,?\s*\]" % (name, v, v, v, v), "%s: crate::verif_ghost::Table::four(%s, %s)" % (name, val, val))


# The file is compiled against the contract types of kani/light.rs.
LIGHT = (r"re:\bcrate::(encoders|decoders|models|compressors|decompressors)::", r"crate::verif_ghost::light::\1::"), (r"re:\bcrate::las::utils::(?!verif_kani)", "crate::verif_ghost::light::utils::")


MODS = {
    "enc": ("encoders.rs", None),
    "dec": ("decoders.rs", None),
    "comp": ("compressors.rs", None),
    "decomp": ("decompressors.rs", None),
    "rgb1": ("las/rgb.rs", "v1"),
    "rgb2": ("las/rgb.rs", "v2"),
    "wavebase": ("las/wavepacket.rs", None),
    "wave1": ("las/wavepacket.rs", "v1"),
    "utils": ("las/utils.rs", None),
    "point0v1": ("las/point0.rs", "v1", ("Vec<Option<ArithmeticModel>>", "crate::verif_ghost::Table<Option<ArithmeticModel>>")),
    "point0v2": ("las/point0.rs", "v2", (": Vec<ArithmeticModel>", ": crate::verif_ghost::Table<ArithmeticModel>"),
                 (": Vec<utils::StreamingMedian<i32>>", ": crate::verif_ghost::Table<utils::StreamingMedian<i32>>")),
    "point6": ("las/point6.rs", "v3_v4", table4("contexts", "Point6DecompressionContext"), table4("contexts", "Point6CompressionContext"), table4("last_values", "Point6"),
               init4("contexts", "Point6DecompressionContext::from_last_point(&p)"), init4("contexts", "Point6CompressionContext::default()"), init4("last_values", "Point6::default()"),
               ("changed_values: Vec<ArithmeticModel>", "changed_values: crate::verif_ghost::Table<ArithmeticModel>"),
               ("Vec<Option<ArithmeticModel>>", "crate::verif_ghost::Table<crate::verif_ghost::light::models::Lazy>"),
               ("[StreamingMedian<i32>; 12]", "crate::verif_ghost::Table<StreamingMedian<i32>>"),
               ("[StreamingMedian::<i32>::new(); 12]", "crate::verif_ghost::Table::many(12, StreamingMedian::<i32>::new(), StreamingMedian::<i32>::new())"),
               (r"re:(is_nth_bit_set!\(changed_values, 6\))", r"verif_kani::switching(\1)"),
               ("return self.compress_gps_time(gps_time);", "return verif_kani::again(self, gps_time);"), *LIGHT),
    "extra1": ("las/extra_bytes.rs", "v1"),
    "rgb3": ("las/rgb.rs", "v3_v4", table4("contexts", "LasDecompressionContextRGB"), table4("contexts", "Option<v2::RGBModels>"),
             init4("contexts", "LasDecompressionContextRGB::default()"), init4("contexts", "None")),
    "nir3": ("las/nir.rs", "v3_v4", table4("contexts", "NirContext"), init4("contexts", "NirContext::default()")),
    "wave3": ("las/wavepacket.rs", "v3_v4", table4("contexts", "LasDecompressionContextWavepacket"), table4("contexts", "LasCompressionContextWavepacket"),
              init4("contexts", "LasDecompressionContextWavepacket::default()"), init4("contexts", "LasCompressionContextWavepacket::default()"),
              ("super::v1::LasWavepacketCompressor", "super::v1::verif_kani::Item"), ("super::v1::LasWavepacketDecompressor", "super::v1::verif_kani::Item")),
    "extra3": ("las/extra_bytes.rs", "v3_v4", ("contexts: Vec<ExtraBytesContext>", "contexts: crate::verif_ghost::Table<ExtraBytesContext>"),
               ("use crate::las::extra_bytes::ExtraBytes;", "use crate::verif_ghost::ExtraBytes;")),
    "gps1": ("las/gps.rs", "v1"),
    "gps2": ("las/gps.rs", "v2", ("self.compress_with(&mut encoder, buf)", "verif_kani::again(self, buf)")),
}

TRUSTED = ["kani 0.68 / cbmc 6.11 and its SAT back end", "rustc nightly as pinned by Kani",
           "the harness and contract text under /verif/kani"]

HARNESSES = []


def H(name, file, props, funcs, what, needs=(), **kw):
    HARNESSES.append(dict(name=name, file=file, props=props, funcs=funcs, what=what, needs=list(needs), **kw))


CODER = ["enc", "dec", "comp", "decomp"]
for w in (8, 16, 32):
    H("compressors::verif_kani::width%d" % w, "comp", ["C01"],
      ["IntegerCompressor::new/init/compress", "IntegerDecompressor::new/init/decompress"],
      "all predictions, values and contexts of width %d" % w, CODER)
    H("compressors::verif_kani::format%d" % w, "comp", ["C17"],
      ["IntegerCompressor::new/init/compress", "IntegerDecompressor::new/init/decompress"],
      "symbols, models and raw bits are those of the format, width %d" % w, CODER)


def codec(key, path, props, funcs, what, harnesses=("step", "first"), needs=(), **kw):
    for n in harnesses:
        H("%s::verif_kani::%s" % (path, n), key, props, funcs, "%s: %s" % (n, what), CODER + list(needs), **kw)


codec("gps1", "las::gps::v1", ["C05"], ["gps::v1::LasGpsTimeCompressor", "gps::v1::LasGpsTimeDecompressor"], "GPS time version 1, every state, every record")
codec("gps2", "las::gps::v2", ["C05"], ["gps::v2::GpsTimeCompressor", "gps::v2::GpsTimeDecompressor"], "GPS time version 2, every state, every record", ("step", "finish", "first"))
codec("rgb1", "las::rgb::v1", ["C05"], ["rgb::v1::LasRGBCompressor", "rgb::v1::LasRGBDecompressor"], "RGB version 1, every state, every record")
codec("rgb2", "las::rgb::v2", ["C05"], ["rgb::v2::LasRGBCompressor", "rgb::v2::LasRGBDecompressor", "compress_rgb_using", "decompress_rgb_using"], "RGB version 2, every state, every record")
codec("wave1", "las::wavepacket::v1", ["C05"], ["wavepacket::v1::LasWavepacketCompressor", "wavepacket::v1::LasWavepacketDecompressor"], "wave packets version 1, every state, every record", needs=["wavebase"])
codec("point0v1", "las::point0::v1", ["C05"], ["point0::v1::LasPoint0Compressor", "point0::v1::LasPoint0Decompressor"], "point 0 version 1, every state, every record")
codec("point0v2", "las::point0::v2", ["C05"], ["point0::v2::LasPoint0Compressor", "point0::v2::LasPoint0Decompressor", "StreamingMedian"], "point 0 version 2, every state, every record", needs=["utils"])
codec("extra1", "las::extra_bytes::v1", ["C05"], ["extra_bytes::v1::LasExtraByteCompressor", "extra_bytes::v1::LasExtraByteDecompressor"], "extra bytes version 1 with 1 and 3 bytes", ("step1", "step3", "first"))


def layered(key, path, funcs, what, needs=()):
    H6 = ("step3", "step4", "first3", "first4")
    codec(key, path, ["C06"], funcs, what, H6, needs)
    codec(key, path, ["C07"], funcs, what, ("unselected3", "unselected4"), needs)
    codec(key, path, ["C06", "C07"], funcs, what, ("layers3", "layers4"), needs)


codec("utils", "las::utils", ["C06", "C07"], ["copy_bytes_into_decoder", "copy_encoder_content_to", "inner_buffer_len_of"],
      "layers of 0, 3 and 4 bytes, any content, wanted or not, from a source that can seek or not", ("layer_in", "layer_out"))
codec("utils", "las::utils", ["C07"], ["copy_bytes_into_decoder"], "a layer of any size that is not wanted is passed exactly, whether the source can seek or not", ("layer_skipped",))


layered("rgb3", "las::rgb::v3_v4", ["rgb::v3_v4::LasRGBCompressorImpl", "rgb::v3_v4::LasRGBDecompressorImpl", "copy_bytes_into_decoder", "copy_encoder_content_to"],
        "RGB versions 3 and 4, every state, context and record", ["rgb2"])
layered("nir3", "las::nir::v3_v4", ["nir::v3_v4::LasNIRCompressorImpl", "nir::v3_v4::LasNIRDecompressorImpl"],
        "NIR versions 3 and 4, every state, context and record")
layered("wave3", "las::wavepacket::v3_v4", ["wavepacket::v3_v4::LasWavepacketCompressorImpl", "wavepacket::v3_v4::LasWavepacketDecompressorImpl"],
        "wave packets versions 3 and 4, every state, context and record", ["wave1", "wavebase"])

layered("extra3", "las::extra_bytes::v3_v4", ["extra_bytes::v3_v4::LasExtraByteCompressorImpl", "extra_bytes::v3_v4::LasExtraByteDecompressorImpl", "index_two_mut"],
        "extra bytes versions 3 and 4 with 2 bytes, every state, context and record")

P6 = ["point6::v3_v4::LasPoint6CompressorImpl", "point6::v3_v4::LasPoint6DecompressorImpl", "compute_last_point_return", "Point6::pack_into/unpack_from"]
codec("point6", "las::point6::v3_v4", ["C06", "C07"], P6, "point 6 versions 3 and 4: every state of the contexts the record touches, every record, every set of layers decoded",
      ("same3", "same4", "accessors"), ["utils"])
SWITCH = ["switch3_03", "switch3_21", "switch4_30", "switch4_12", "fresh3_30", "fresh3_12", "fresh4_03", "fresh4_21"]
for names, later in (SWITCH, False), (["%s%d_%d%d" % (n, v, o, w) for n in ("switch", "fresh") for v in (3, 4) for o in range(4) for w in range(4) if o != w], True):
    codec("point6", "las::point6::v3_v4", ["C06", "C07"], P6, "point 6: a record that switches between two channels, the other used before or not; every state of both contexts",
          [n for n in names if not (later and n in SWITCH)], ["utils"], thorough=later)
codec("point6", "las::point6::v3_v4", ["C06"], P6 + ["compress_gps_time", "read_gps_time_step"], "GPS time of point 6: every state of the sequences, every time", ("gps3", "gps4"), ["utils"])
codec("point6", "las::point6::v3_v4", ["C06"], P6, "first record of point 6", ("first3", "first4"), ["utils"])
codec("point6", "las::point6::v3_v4", ["C06", "C07"], P6 + ["LayerSizes"], "layers of point 6, none, one or all of them changed or wanted; selection: all bit sets",
      ("layers3", "layers4"), ["utils"], reach=False)
codec("point6", "las::point6::v3_v4", ["C06", "C07"], P6 + ["LayerSizes"], "layers of point 6: combinations in which no two layers are alike",
      ("changed3", "changed4", "wanted3", "wanted4"), ["utils"], reach=False, thorough=True)
codec("point6", "las::point6::v3_v4", ["C07"], P6, "selection of point 6: all bit sets", ("selection3", "selection4"), ["utils"])

PROPS = {}
exec(open(__file__.replace("props.py", "props_table.py")).read())
