#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

FIXED = ["src/macros.rs", "src/color.rs", "src/astc.rs", "src/atc.rs", "src/bcn.rs", "src/bcn/", "src/etc.rs", "src/etc/", "src/pvrtc.rs", "src/bitreader.rs", "src/f16.rs"]
CRN = ["src/crnlib.rs", "src/crunch.rs", "src/crunch/", "src/unitycrunch.rs", "src/unitycrunch/"]
ALL = FIXED + CRN
SCRATCH = ("per-call block scratch", "texels of the block being decoded, reused from block to block within one image", "src/macros.rs block_decoder!, src/astc.rs decode_astc, src/pvrtc.rs decode_pvrtc")

prop("S01", "Concurrent decodes do not interfere with or wait for each other",
 "Any number of decode and texture-info calls may run at the same time on different threads, on the same or on different compressed data, each with its own output image: whatever the interleaving, each call returns the same result and writes the same pixels as when it runs alone. A call that is suspended at any point, even forever, never keeps another call from finishing.",
 ["schedules", "inputs", "fault_sequences"],
 "every interleaving of up to four threads' calls at every branch of the decoders, every mix of formats, sizes, shared or separate (also damaged) data, every point at which a thread may stall",
 "The tests decode one whole image per test and compare with a reference; no test runs two decodes that share data or state at controlled points, and the OS schedule of cargo's test threads is uncontrolled and coarse.",
 ALL, [("all working state lives on the caller's stack or in per-call heap objects; the only statics are constant tables", "src/astc.rs, src/pvrtc.rs, src/bcn/consts.rs, src/etc/consts.rs, src/color.rs, src/crunch/crn_consts.rs"), ("per-call unpacker object", "src/crunch/crn_unpacker.rs CrnUnpacker, src/unitycrunch/crn_unpacker.rs CrnUnpacker")],
 [SCRATCH], ["return value and output image of every public whole-image decode and of CrnTextureInfo::crnd_get_texture_info"])

prop("S02", "Earlier calls leave no trace in later ones",
 "The result and the pixels of a decode or texture-info call depend on its arguments alone: calls made earlier in the process, whether they succeeded, failed on damaged data or never finished, change nothing, and neither does what the output image or other memory held before. In particular, decoding again after damaged data was repaired in place gives exactly the image that undamaged data always gave.",
 ["histories", "inputs", "fault_sequences"],
 "every sequence of calls over all formats, sizes and data objects, with data damaged and repaired in place between calls and calls abandoned half way, and every previous content of image and freshly allocated memory",
 "Each test makes one call with one file on a fresh buffer; no history of mixed calls, failed calls or dirty memory is ever built.",
 ALL, [("fresh per-call state, zeroed vectors", "src/crunch/crn_unpacker.rs, src/unitycrunch/crn_unpacker.rs, src/pvrtc.rs"), ("block scratch initialised at the start of each call", "src/macros.rs, src/astc.rs")],
 [SCRATCH], ["return value and output image of every call of a history, compared with the same call in a fresh process"])

prop("S03", "A successful decode rewrites the whole image",
 "When a whole-image decode reports success, every one of the width x height pixels of the output image has been written with its decoded value; no pixel keeps what the buffer held before, whatever the size, the position of the block in the image, and whatever a previous failed or different decode left in the buffer.",
 ["inputs", "histories", "fault_sequences"],
 "all formats, all sizes including ones that are not a multiple of the block size, all (also damaged) data for which the call reports success, all previous buffer contents",
 "The tests use sizes that are almost all multiples of the block size and a fresh zeroed buffer, so a pixel left alone can only show up by chance.",
 ALL, [("copy_block_buffer clips the last row and column of blocks", "src/color.rs"), ("block loop covers ceil(w/bw) x ceil(h/bh) blocks", "src/macros.rs, src/astc.rs, src/pvrtc.rs")],
 [SCRATCH], ["the width*height prefix of the image slice"])

prop("F01", "Damaged or mismatched fixed-rate textures never crash the caller",
 "For every content of the compressed data and every width, height and ASTC footprint, the whole-image decoders of ATC, ASTC, BCn, ETC/EAC and PVRTC, and their block decoders when given a valid footprint, at least one block of data and one block of output, return normally (success or a reported error): they never panic, abort or overflow, in debug and in release builds.",
 ["inputs", "fault_sequences", "configurations"],
 "every damage to stored data (bit flips, overwritten, lost, torn, misdirected or truncated sectors) and to the recorded size, footprint or format, for every format and block position, in debug and release builds",
 "The tests only decode well-formed files of one size each; block encodings that a correct encoder never emits, and wrong sizes, are not reached.",
 FIXED, [("length and size checks before the block loop", "src/macros.rs, src/astc.rs decode_astc, src/pvrtc.rs decode_pvrtc"), ("illegal ASTC blocks decode to the error colour", "src/astc.rs decode_astc_block"), ("reserved BC6/BC7 modes", "src/bcn/bc6.rs, src/bcn/bc7.rs")],
 [], ["return or unwinding of every public decode_* function"])

prop("F02", "Damaged Crunch containers never crash the caller",
 "For every content and length of the data, every width and height, and every output buffer, decoding a Crunch or Unity Crunch container and reading its texture info return normally, with success or a reported error: they never panic, abort or overflow, in debug and in release builds.",
 ["inputs", "fault_sequences", "configurations"],
 "every damage to a container's header, tables, palettes and level data, every truncation point, every size mismatch between caller and container",
 "The tests decode 13 intact 512x512 containers; offsets, symbol counts, palettes, code tables and level data that do not fit together are never fed in.",
 CRN, [("header checks", "src/crunch/crn_decomp.rs CrnHeader::crnd_get_header"), ("section bounds", "src/crunch/crn_symbol_codec.rs start_decoding/get_bits/decode"), ("code table construction", "src/crunch/crn_static_huffman_data_model.rs DecoderTables::init"), ("palette index limits", "src/crunch/crn_utils.rs limit, src/*crunch/crn_unpacker.rs")],
 [("CrnUnpacker", "decoded header, code tables and palettes of one container", "src/crunch/crn_unpacker.rs, src/unitycrunch/crn_unpacker.rs")], ["return or unwinding of decode_crunch, decode_unity_crunch, CrnTextureInfo::crnd_get_texture_info"])

prop("F03", "Decoding work and memory stay bounded by the input",
 "Every decode or texture-info call finishes within a number of steps, and within an amount of heap and stack memory, that is at most linear in the number of pixels asked for plus the size of the compressed data, with a fixed constant; damaged data or sizes cannot make a call loop on, or make it allocate out of proportion to what it was given, even if the call ends in an error, and repeated calls do not pile up memory.",
 ["inputs", "fault_sequences"],
 "every damage to data, container header, sizes and footprints, including zero and extreme ones",
 "Tests measure neither steps nor allocations, and use intact data only.",
 ALL, [("size checks before loops and allocations", "src/macros.rs, src/astc.rs, src/pvrtc.rs, src/crunch.rs, src/unitycrunch.rs, src/*crunch/crn_unpacker.rs unpack_level_2")],
 [], ["simulated steps (executed branch edges), peak heap, stack depth of each call"])

prop("F04", "A failed decode leaves the output image untouched",
 "When a whole-image decode reports an error, the output image holds exactly what it held before the call.",
 ["inputs", "fault_sequences", "histories"],
 "all formats, all causes of failure (short data, short image buffer, sizes that do not fit, damage anywhere in a container), all previous image contents",
 "No test looks at the image after an error; no test provokes an error at all.",
 ALL, [("all checks precede the first pixel write; containers are unpacked completely before the image is written", "src/macros.rs, src/astc.rs decode_astc, src/pvrtc.rs, src/crunch.rs decode_crunch, src/unitycrunch.rs decode_unity_crunch")],
 [], ["the image slice after an Err"])

prop("F05", "A decode stays within its data and its width x height pixels",
 "A whole-image decode never changes output elements beyond the first width x height, and its result and pixels depend only on the bytes that its format and size require: whatever follows them in the data slice (padding, other mip levels, another texture) changes nothing. For intact containers this holds for everything after the end recorded in the container.",
 ["inputs", "fault_sequences"],
 "all formats and sizes, all trailing data, output slices longer than the image",
 "The tests pass exactly sized buffers, or never vary what follows the first mip level.",
 ALL, [("copy_block_buffer clips to width and height", "src/color.rs"), ("data offsets derived from block index only", "src/macros.rs, src/astc.rs, src/pvrtc.rs morton_index"), ("section sizes from the header", "src/crunch/crn_symbol_codec.rs")],
 [], ["image elements >= width*height; differential over trailing bytes; unreadable page behind the data"])

prop("F06", "Short data or a short image is always reported, exact sizes are accepted",
 "A whole-image decode of a fixed-rate format whose data slice is shorter than the blocks of the image require, or whose image slice is shorter than width x height, reports an error; with at least the required data and image size it succeeds (PVRTC: for power-of-two block counts; ASTC: for footprints of 4 to 12 texels a side), and an empty image (width or height zero) never needs data. An intact Crunch or Unity Crunch container is accepted at its own size, by decoding and by texture info; one that was cut off at any point reports an error, from decoding and from texture info alike.",
 ["inputs", "fault_sequences", "crash_points"],
 "every truncation point of the data and of the image slice, at and around the exact boundary, for every format and size",
 "No test passes truncated input; the boundary where one byte is missing is never tried.",
 ALL, [("data.len() and image.len() checks", "src/macros.rs, src/astc.rs decode_astc, src/pvrtc.rs decode_pvrtc"), ("container data size check", "src/crunch/crn_decomp.rs crnd_get_header")],
 [], ["Ok/Err of each call as a function of the two slice lengths"])

prop("F07", "Damage stays local to the blocks it hits",
 "Damage to some blocks of a fixed-rate texture (everything except PVRTC) changes no pixel outside those blocks' rectangles, and every intact block decodes to exactly the texels it has when decoded alone as a one-block image, wherever it stands and whatever precedes it; in PVRTC damage reaches at most the damaged block and its eight neighbours, with wrap-around. In a Crunch or Unity Crunch container, damage to the data of smaller mip levels changes nothing in the decoded image.",
 ["inputs", "fault_sequences"],
 "every damaged block subset, position, size and format; every order of blocks",
 "Tests compare one image with one reference; they cannot show that block results do not leak into each other for other neighbours and positions.",
 ALL, [("each block reads its own bytes only and overwrites the scratch it uses", "src/macros.rs, src/bcn/, src/etc/, src/atc.rs, src/astc.rs"), ("Morton order and wrapped neighbours", "src/pvrtc.rs"), ("level offsets", "src/*crunch/crn_unpacker.rs unpack_level")],
 [SCRATCH], ["pixels of the damaged and undamaged decode, and of one-block decodes"])

prop("C01", "All build configurations behave the same",
 "Debug and release builds, and builds with and without the alloc feature for the formats available in both, give the same result and the same pixels for every call, on intact and damaged data, and all of them compile.",
 ["configurations", "inputs", "fault_sequences"],
 "the builds {debug assertions and overflow checks on, off} x {alloc, no alloc}, over all calls, histories and faults of the simulation",
 "The tests run in one build configuration only.",
 ALL + ["src/lib.rs", "Cargo.toml"], [("feature gates", "src/lib.rs, src/pvrtc.rs (two decode_pvrtc)"), ("arithmetic that does not overflow", "all decoders")],
 [], ["event logs of the same simulated run in each build"])

prop("C02", "Equivalent calls and equivalent containers give the same image",
 "Functions that are documented as shorthands of one another do the same on intact and on damaged data, success or error alike: decode_astc_NxM is decode_astc with that footprint, decode_bc6_signed and decode_bc6_unsigned are decode_bc6, decode_pvrtc_2bpp and decode_pvrtc_4bpp are decode_pvrtc, and a block decoder writes the texels that the whole-image decoder writes for the one-block image. Where in the file a Crunch container keeps its palettes and code tables does not matter for its image. Texture info that is reported as valid states exactly the width, height, levels, faces, format, block size and user data of the container's header.",
 ["inputs", "fault_sequences", "configurations"],
 "all pairs of equivalent functions, all sizes and footprints, all intact and damaged data, all orders and gaps of container sections",
 "The tests call one function per format on one intact file, and never compare two ways to the same image; containers only come from one encoder with one section order.",
 ALL, [("shorthand functions", "src/astc.rs astc_decode_func!, src/bcn.rs decode_bc6, src/pvrtc.rs decode_pvrtc_2bpp/4bpp"), ("whole-image loop around the block decoder", "src/macros.rs block_decoder!"), ("section offsets from the header", "src/crunch/crn_decomp.rs, src/crunch/crn_symbol_codec.rs, src/*crunch/crn_unpacker.rs"), ("header to texture info", "src/crnlib.rs crnd_get_texture_info")],
 [], ["return values and images of the two calls; fields of CrnTextureInfo"])

prop("C03", "Every machine gives the same answer and the same pixel values",
 "For every call, on intact and damaged data, machines with 32 and 64 bit addresses and with little-endian and big-endian memory report the same success or the same error and write the same pixel values (0xAARRGGBB) and texture info, and the crate with all features compiles for each of them.",
 ["configurations", "inputs", "fault_sequences"], "machines {32, 64 bit} x {little, big endian}, all calls with storage and metadata faults",
 "The tests run on one 64 bit little-endian machine.",
 ["src/color.rs", "src/macros.rs", "src/bitreader.rs", "src/bcn/", "src/etc/", "src/pvrtc.rs", "src/astc.rs", "src/crunch/", "src/unitycrunch/"],
 [("conversions between bytes and integers, casts to usize, size arithmetic", "src/")], [], ["decoded texels, texture info and errors on every machine"])
prop("A01", "Fixed-rate formats keep working when the heap is exhausted",
 "Decoding ATC, ASTC, BCn, ETC and EAC textures never uses the heap, and neither does PVRTC when the crate is built without the alloc feature: with every allocation failing, these decodes still return the same result and the same pixels.",
 ["fault_sequences", "inputs", "configurations"],
 "every heap-using point of every decode of these formats, intact and damaged data, all sizes, alloc and no-alloc builds",
 "The tests run with a working allocator and do not notice an allocation.",
 FIXED + ["src/lib.rs", "Cargo.toml"], [("fixed-size stack scratch", "src/macros.rs, src/astc.rs, src/pvrtc.rs (no-alloc decode_pvrtc)")],
 [], ["allocator calls made while the decode runs, each answered with failure"])

prop("B01", "The Python binding reports what the Rust decoder does",
 "Every Python decode function returns exactly the bytes of the image that the Rust decoder of the same format produces for the same arguments; whenever the Rust decoder reports an error, or the output cannot be allocated or sized, it raises an ordinary Python exception (ValueError, MemoryError or OverflowError) and never a panic, a crash or a partial image. After any such failure the next call works normally.",
 ["inputs", "fault_sequences", "histories"],
 "all binding functions, intact and damaged data, wrong sizes, failing allocation of the output object at any call of a history",
 "The Python tests decode intact files only, do not call the ASTC function with explicit footprint, and never provoke a failure.",
 ["bindings/python/src/lib.rs"] + ALL, [("PyBytes::new_with and error mapping", "bindings/python/src/lib.rs pybind!, decode_astc")],
 [("output bytes object", "allocated before decoding, released on error", "bindings/python/src/lib.rs")], ["Python-level result or exception of each call"])

prop("D01", "Block formats decode to the pixels their specifications define",
 "For every block of ATC, ASTC (LDR and HDR, decoded to 8 bits), BC1-BC7, ETC1/ETC2/EAC and PVRTC data that is a legal encoding, and for damaged data as long as the decode reports success, the decoded texels are those that the published format specification defines, each in its place in the image, as 0xAARRGGBB: channels a format does not have are 0 (R, G, B) or 255 (alpha). Where a specification leaves the rounding open either rounding is right.",
 ["inputs", "fault_sequences", "configurations"],
 "all block contents of all formats, all footprints and modes, any damage to stored blocks, all image sizes, in every build",
 "The tests compare a few images with references under a tolerance of the mean error; rare modes, table entries and endpoint encodings do not occur in them, and a wrong bit in one mode does not move the mean.",
 FIXED, [("per-format block decoders", "src/astc.rs, src/atc.rs, src/bcn/, src/etc/, src/pvrtc.rs"), ("tables of weights, partitions, modifiers and quantisation", "src/astc.rs, src/bcn/consts.rs, src/etc/consts.rs, src/pvrtc.rs"), ("texel order and channel order", "src/color.rs, src/macros.rs")],
 [SCRATCH], ["decoded texels of every whole-image and block decoder"])
prop("D02", "Crunch containers decode to the image that their palettes and codes define",
 "For every Crunch and Unity Crunch container that is well-formed - complete or partial prefix codes whose symbols lie in their alphabets, palettes, and a code stream for level 0 - the decoded image of the container's own size is that of the block texture which the crunch library's format defines: palettes rebuilt from their deltas, blocks from chunk tiles or neighbour references, in the format the header names (BC1, BC3, BC4, BC5, ETC1, ETC2, ETC2 with alpha), first face. Whatever damage leaves well-formed decodes the same way when the decode reports success.",
 ["inputs", "fault_sequences", "configurations"],
 "all well-formed containers of all formats, code tables, palette sizes, image sizes (odd block counts included), level and face counts, before and after damage",
 "The tests cover 13 containers of one size and one encoder; odd block counts, several faces, large palettes, rare references and code lengths do not occur in them.",
 CRN, [("entropy decoding", "src/crunch/crn_symbol_codec.rs, src/crunch/crn_static_huffman_data_model.rs"), ("palette reconstruction", "src/crunch/crn_unpacker.rs, src/unitycrunch/crn_unpacker.rs decode_*"), ("chunk and reference decoding", "src/crunch/crn_unpacker.rs, src/unitycrunch/crn_unpacker.rs unpack_*"), ("format to block decoder", "src/crunch.rs, src/unitycrunch.rs")],
 [("CrnUnpacker", "decoded header, code tables and palettes of one container", "src/crunch/crn_unpacker.rs, src/unitycrunch/crn_unpacker.rs")], ["decoded texels of decode_crunch and decode_unity_crunch"])
prop("N04", "PVRTC decoding is faster with the alloc feature",
 "With the alloc feature PVRTC decoding takes about a third less time than without it.",
 ["configurations"], "all PVRTC images",
 "Nothing measures time.",
 ["src/pvrtc.rs"], [("block info computed once and kept in a vector", "src/pvrtc.rs decode_pvrtc (alloc)")], [], ["wall-clock time"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
