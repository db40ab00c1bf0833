#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the list stays consistent)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
        "observe_at": observe or ["jxl::api::JxlDecoder"], "hook_needed": None}})
A = "jxl/src/api/"
prop("C01", "A container decodes exactly as the codestream it carries, or is rejected",
 "For every arrangement of container boxes that follows the format's rules, decoding the file gives the same image information, frames and pixels as decoding the codestream obtained by joining its codestream parts in index order, whatever other boxes surround them. A file whose boxes break the rules (bad or repeated file-type box, mixed or misnumbered codestream parts, impossible sizes) is answered with an error and none of the data after the fault is decoded.",
 ["inputs"], "All sequences of boxes: order, 32/64-bit and to-end-of-file sizes, indices (in and out of order), last flags, interleaved unknown boxes, split points of the codestream.",
 "Tests decode a handful of container files; box orderings, size encodings and split points form an unbounded product of which they sample about ten.",
 [A+"inner/box_parser.rs", A+"signature.rs"],
 [("box header state machine, part index bookkeeping and out-of-order buffering", A+"inner/box_parser.rs"), ("signature check", A+"signature.rs")],
 [("box_type / next index / out-of-order store", "what the parser may accept next", A+"inner/box_parser.rs")])
prop("C02", "The result does not depend on how the input bytes arrive",
 "For any file and any way of delivering it (any sequence of growing prefixes, any number of bytes handed over per read, skipping done by the source or by reading, slice or buffered reader), the decoder ends with the same outcome, reports the same headers and frames, and writes the same pixels as when the whole file is available at once. (A damaged header is refused or waited for: with part of the file missing the decoder may still ask for input where the whole file is refused.)",
 ["inputs", "schedules"], "All files and all delivery schedules, including one byte at a time and cuts inside any header, table of contents, box header or section.",
 "Existing tests use a few fixed chunk sizes on a few files; the cut positions that matter (inside entropy-coded headers, permuted tables, profile data, box headers) are file specific.",
 [A+"inner/codestream_parser/mod.rs", A+"inner/codestream_parser/image_info.rs", A+"inner/codestream_parser/frame_info.rs", A+"inner/box_parser.rs", A+"input.rs", "jxl/src/bit_reader.rs", "jxl/src/headers/permutation.rs"],
 [("resumable parser states and section buffering", A+"inner/codestream_parser/mod.rs"), ("incremental header, TOC and profile readers", A+"inner/codestream_parser/image_info.rs"), ("out-of-bounds reporting of the bit reader", "jxl/src/bit_reader.rs")],
 [("ready_section_data / local buffer", "bytes received but not consumed", A+"inner/codestream_parser/frame_info.rs")])
prop("C03", "Progress is reported exactly when the bytes it needs have arrived",
 "Image information, each frame announcement and each frame completion is reported as soon as all the bytes that encode it have been supplied, and never before; until then every call asks for more input and can be retried any number of times without losing anything. A file that is cut short therefore yields exactly the events whose bytes are present, then keeps asking for input, and is never reported as finished.",
 ["inputs", "histories"], "All files, every cut point, every history of calls that run out of input.",
 "Tests check that complete files finish; they do not compare the point at which each event becomes available with the byte that makes it available, nor all cut points.",
 [A+"decoder.rs", A+"mod.rs", A+"inner/process.rs", A+"inner/codestream_parser/mod.rs", A+"inner/codestream_parser/image_info.rs", A+"inner/codestream_parser/frame_info.rs"],
 [("need-more-input result and fallback state", A+"mod.rs"), ("amount-needed estimates", A+"inner/codestream_parser/frame_info.rs")],
 [("parser state", "which event comes next", A+"inner/codestream_parser/mod.rs")])
prop("C04", "Every visible frame is announced once, in order, with its own header",
 "The decoder announces exactly the visible frames of the image (frames that are last or have a display duration and are not internal frames), once each and in file order, with the frame's own name, duration and size, and hidden frames are never announced. It says that no frames remain exactly after the last visible frame, for every mixture of hidden and visible frames, previews and animation headers.",
 ["inputs", "histories"], "All sequences of frame types, durations, last flags, names and previews; all interleavings of decode and skip.",
 "The sample files contain few frame-type mixtures; combinations of hidden, reference-only, zero-duration, skip-progressive and preview frames are not enumerated.",
 [A+"decoder.rs", A+"inner/codestream_parser/mod.rs", A+"inner/codestream_parser/frame_info.rs", "jxl/src/headers/frame_header.rs"],
 [("visibility rule and frame loop", A+"inner/codestream_parser/mod.rs"), ("frame header parsing", "jxl/src/headers/frame_header.rs")])
prop("C05", "Seeking to a frame gives the frames a sequential decode gives",
 "Starting from any scanned frame's seek target, and skipping the number of visible frames it prescribes, decoding produces that frame and all following ones with the same headers and pixels as decoding the file from the start (pixels of a following frame as long as everything it is built on has been decoded since the seek), however often and in whatever order seeks are made.",
 ["inputs", "histories"], "All frame dependency structures (blending onto saved canvases, reference slots, hidden frames), container layouts, and sequences of seeks.",
 "Tests seek in a few animations; which earlier frames a frame depends on is a property of the whole reference history.",
 [A+"inner/codestream_parser/mod.rs", A+"inner/codestream_parser/frame_info.rs", A+"decoder.rs", A+"inner/box_parser.rs"],
 [("keyframe / decode-start computation while scanning", A+"inner/codestream_parser/mod.rs"), ("box parser checkpoint restore", A+"inner/box_parser.rs")],
 [("reference slot provenance", "which frame each slot depends on", A+"inner/codestream_parser/mod.rs")])
prop("C06", "The scanned frame list describes the file exactly",
 "After any amount of decoding, skipping or scanning-only processing, the list of scanned frames contains exactly the visible frames whose headers have been reached, in order, with correct index, duration in milliseconds and ticks, name, last flag and byte offset of the frame in the file; it never contains duplicates and does not depend on how the input arrived.",
 ["inputs", "histories"], "All frame sequences, tick rates, container layouts and call histories.",
 "Offsets depend on box layout and on all preceding frame sizes; tests look at a few files with simple layouts.",
 [A+"inner/codestream_parser/mod.rs", A+"inner/box_parser.rs", A+"decoder.rs", A+"data_types.rs"],
 [("scan record creation", A+"inner/codestream_parser/mod.rs"), ("file position tracking", A+"inner/box_parser.rs")])
prop("C07", "Parallel execution never changes the result",
 "Whatever order a parallel runner executes the tasks it is given in, and with however many threads, decoding finishes without panic or deadlock and the outcome and every output byte are the same as when the tasks run one after another.",
 ["schedules", "inputs"], "All task orders and thread interleavings, for all group layouts, paddings between groups, frame kinds, partial deliveries and flushes.",
 "Tests run one runner on a few images; a border computed by the wrong neighbour or a missing dependency shows only for particular completion orders.",
 ["jxl/src/frame/render.rs", "jxl/src/frame/decode.rs", "jxl/src/render/low_memory_pipeline/mod.rs", "jxl/src/render/low_memory_pipeline/run_stage.rs", "jxl/src/render/low_memory_pipeline/group_scheduler.rs", "jxl/src/frame/modular/mod.rs", "jxl/src/frame/modular/transforms/step.rs", A+"inner/process.rs"],
 [("group readiness masks and border exchange", "jxl/src/render/low_memory_pipeline/group_scheduler.rs"), ("transform dependency counters", "jxl/src/frame/modular/mod.rs"), ("per-thread storage and output buffer splitting", "jxl/src/render/buffer_splitter.rs")],
 [("group ready masks", "which neighbours' data are present", "jxl/src/render/low_memory_pipeline/mod.rs")])
prop("C08", "Flushing partial pixels never disturbs the decode",
 "Requesting the pixels decoded so far, at any moments and any number of times, changes neither the final outcome nor the final pixels nor later announcements; when the request reports that nothing was drawn, the caller's buffers are unchanged.",
 ["histories", "inputs"], "All subsets of need-input points at which a flush happens, repeated flushes, every delivery schedule and frame kind.",
 "Tests flush at fixed chunk steps for a few files and mostly check that a picture appears.",
 [A+"inner/codestream_parser/frame_info.rs", A+"inner/process.rs", A+"decoder.rs", "jxl/src/frame/render.rs", "jxl/src/frame/decode.rs", "jxl/src/frame/modular/mod.rs"],
 [("partial section decoding and re-render tracking", "jxl/src/frame/modular/mod.rs"), ("dirty tracking", A+"inner/codestream_parser/frame_info.rs")],
 [("pixels_dirty, partially decoded sections", "what a flush may draw and what must be redone", A+"inner/codestream_parser/frame_info.rs")])
prop("C09", "Skipping frames is transparent to the rest of the file",
 "Skipping any set of visible frames instead of decoding them leaves every other frame's announcement and pixels, the scanned frame list and the final outcome exactly as if all frames had been decoded.",
 ["histories", "inputs"], "All subsets of frames to skip, for all reference and blending structures, and delivery schedules.",
 "A skipped frame may be needed as a canvas or reference by a later one; tests skip frames in a couple of simple animations.",
 [A+"inner/codestream_parser/mod.rs", A+"inner/codestream_parser/frame_info.rs", "jxl/src/frame/decode.rs"],
 [("skip versus decode-without-output decision", A+"inner/codestream_parser/mod.rs"), ("reference frame saving", "jxl/src/frame/decode.rs")])
prop("C10", "Displayed frames are the canvas the blending rules define",
 "Each displayed frame's pixels are exactly what the format's blending rules give: every channel of the frame, placed at its crop offset, is combined by its own blend mode, alpha channel and clamp setting with the canvas saved in the slot it names (a zero canvas when empty); outside the frame the canvas shows through unchanged; and each frame is saved into exactly the slot it names, before or after blending as its header says.",
 ["inputs", "histories"], "All sequences of frames with arbitrary crops (inside, overlapping, outside, negative), blend modes per channel, alpha kinds, sources and save slots.",
 "The state is the history of four slots times modes per channel; a sample of animations covers a vanishing part.",
 ["jxl/src/features/blending.rs", "jxl/src/render/stages/blending.rs", "jxl/src/render/stages/extend.rs", "jxl/src/frame/decode.rs", "jxl/src/headers/frame_header.rs", "jxl/src/frame/render.rs"],
 [("blend stage", "jxl/src/render/stages/blending.rs"), ("canvas extension outside the frame", "jxl/src/render/stages/extend.rs"), ("saving reference frames", "jxl/src/frame/decode.rs")],
 [("reference slots", "saved canvases", "jxl/src/frame/decode.rs")])
prop("C11", "Output buffers receive exactly the picture in the requested format",
 "For every requested channel set, sample format, byte order, row stride and orientation handling, each caller buffer receives exactly the image's pixels of its channels in the requested encoding and orientation (with opaque alpha when the image has none), every pixel is written, and no byte outside the pixel rows is touched.",
 ["configurations", "inputs"], "All pixel formats (8/16-bit integer with any bit depth, 16/32-bit float, both byte orders, colour types with and without alpha, omitted channels), strides, eight orientations, image sizes around group and vector boundaries.",
 "The product of formats, orientations and sizes at vector/group boundaries is far larger than the tested combinations; out-of-row writes are invisible without guards.",
 ["jxl/src/render/save.rs", "jxl/src/render/low_memory_pipeline/save/mod.rs", "jxl/src/render/low_memory_pipeline/save/identity.rs", "jxl/src/image/output_buffer.rs", A+"data_types.rs", "jxl/src/render/stages/convert.rs", "jxl/src/frame/render.rs"],
 [("interleaving, conversion, orientation on save", "jxl/src/render/low_memory_pipeline/save/mod.rs"), ("buffer geometry", "jxl/src/image/output_buffer.rs")])
prop("C12", "Losslessly coded samples come out exactly as the coding rules define",
 "For every losslessly coded image, each output sample equals the value obtained by applying the format's rules to the coded data: decision tree, predictors including the self-correcting one, multipliers and offsets, then the inverse palette, colour and squeeze transforms, for any channel sizes, bit depths and parameter choices. (Recorded limitation: a few transform chains over channels in groups of different sizes are refused, never decoded wrongly.)",
 ["inputs"], "All decision trees, predictors, weighted-predictor parameters, transform chains, channel geometries and sample values.",
 "The decoder has many specialised paths chosen by tree shape and image shape; files made by an encoder exercise a thin slice of them.",
 ["jxl/src/frame/modular/decode/bitstream.rs", "jxl/src/frame/modular/decode/channel.rs", "jxl/src/frame/modular/decode/specialized_trees.rs", "jxl/src/frame/modular/predict.rs", "jxl/src/frame/modular/tree.rs", "jxl/src/frame/modular/transforms/palette.rs", "jxl/src/frame/modular/transforms/rct.rs", "jxl/src/frame/modular/transforms/squeeze.rs", "jxl/src/frame/modular/transforms/step.rs", "jxl/src/frame/modular/transforms/meta_apply.rs", "jxl/src/frame/modular/transforms/apply_local.rs"],
 [("predictors", "jxl/src/frame/modular/predict.rs"), ("specialised decoding loops", "jxl/src/frame/modular/decode/specialized_trees.rs"), ("inverse transforms", "jxl/src/frame/modular/transforms/")])
prop("C13", "Physical layout of a frame does not affect its pixels",
 "Each coded sample lands where the format's division into sections, groups and passes puts it: the same picture coded with any group size, any number of passes and progressive steps, and any order of sections in the file decodes to the same pixels, for images of every size.",
 ["inputs", "configurations"], "All image sizes, group sizes, pass structures, section permutations, channel subsampling shifts produced by transforms.",
 "Boundary geometry (partial groups, channels smaller than a group at some shift, empty tiles) occurs only for particular sizes; tests have few multi-group, multi-pass, permuted files.",
 ["jxl/src/headers/toc.rs", "jxl/src/headers/permutation.rs", "jxl/src/headers/frame_header.rs", "jxl/src/frame/modular/mod.rs", A+"inner/codestream_parser/frame_info.rs", "jxl/src/frame/modular/buffers.rs"],
 [("section table and permutation", "jxl/src/headers/toc.rs"), ("channel to section and tile assignment", "jxl/src/frame/modular/mod.rs")])
prop("C14", "The sample limit is enforced before any work proportional to the image",
 "With a sample limit set, every file whose image, preview or any frame (counting colour and extra channels) exceeds the limit is rejected with a size error before its pixels are decoded or buffers of that size are allocated, and no file within the limit is rejected because of it.",
 ["inputs", "configurations"], "All image/frame sizes, channel counts, limits, frame kinds (hidden, cropped, upsampled, preview).",
 "Tests try one or two limits on one image; the boundary depends on size, channel count, frame kind and position.",
 [A+"options.rs", A+"inner/codestream_parser/mod.rs", A+"inner/codestream_parser/image_info.rs", A+"inner/codestream_parser/frame_info.rs"],
 [("size checks", A+"inner/codestream_parser/mod.rs")])
prop("C15", "Any byte sequence is answered with frames, a request for input, or an error",
 "For arbitrary and maliciously altered input, delivered in any way and under any options and call sequence the API permits, every call returns within bounded work with a result, a request for more input or an error; it never panics, aborts, overflows the stack or allocates memory out of proportion to the data received.",
 ["inputs", "fault_sequences"], "All byte strings, in particular structure-aware corruptions of valid files at every header field and section; all options and call sequences.",
 "Crashes hide behind field combinations that valid encoders never produce; the test files are valid.",
 [A+"inner/process.rs", A+"inner/codestream_parser/mod.rs", "jxl/src/frame/decode.rs", "jxl/src/frame/modular/mod.rs", "jxl/src/frame/modular/transforms/meta_apply.rs", "jxl/src/features/patches.rs", "jxl/src/features/spline.rs", "jxl/src/headers/frame_header.rs", "jxl/src/icc/mod.rs", "jxl/src/util/fast_math.rs"],
 [("validation of parsed values before use", "jxl/src/headers/"), ("fallible allocation", "jxl/src/image/raw.rs")])
prop("C16", "Image and frame metadata are reported exactly as coded",
 "For every legal encoding of the image header (size forms, preview, animation, orientation, sample type and depth, extra channels, colour encoding, tone mapping), the information the decoder reports equals the coded values, default values appear where the header omits them, and headers with values the format forbids are rejected.",
 ["inputs"], "All header field combinations and all alternative encodings of the same value; extension fields.",
 "Field presence is conditional on other fields; the sample files use few header shapes.",
 ["jxl/src/headers/mod.rs", "jxl/src/headers/size.rs", "jxl/src/headers/image_metadata.rs", "jxl/src/headers/extra_channels.rs", "jxl/src/headers/color_encoding.rs", "jxl/src/headers/bit_depth.rs", "jxl/src/headers/encodings.rs", A+"data_types.rs", A+"color.rs"],
 [("header coder derive and encodings", "jxl/src/headers/encodings.rs"), ("conversion to public info", A+"inner/codestream_parser/image_info.rs")])
prop("C17", "Entropy-coded data decode to the symbols that were written",
 "For every legal choice of entropy code (prefix or ANS tables, clustering and its coding, hybrid integer configurations, LZ77 with any distances and lengths), the decoded values are exactly those the coded bits define, on every internal fast path, and tables or final states the format forbids are rejected.",
 ["inputs"], "All code tables, context maps, integer configurations, copy commands and value sequences, in headers, trees and pixel data.",
 "Encoders emit a narrow set of tables; the fast paths (run-length only, single symbol, small alphabets) depend on table shape.",
 ["jxl/src/entropy_coding/ans.rs", "jxl/src/entropy_coding/huffman.rs", "jxl/src/entropy_coding/decode.rs", "jxl/src/entropy_coding/context_map.rs", "jxl/src/entropy_coding/hybrid_uint.rs", "jxl/src/bit_reader.rs"],
 [("alias table, prefix table and LZ77 window", "jxl/src/entropy_coding/"), ("bit reader refill", "jxl/src/bit_reader.rs")])
prop("C18", "An embedded colour profile is returned byte for byte",
 "For every embedded ICC profile and every legal way of encoding it (header prediction, tag commands, transposed and predicted runs), the decoder returns exactly the encoded profile bytes, no matter how the input arrives; inconsistent encodings are rejected.",
 ["inputs"], "All profile contents and all command encodings of them, lengths, orders and strides.",
 "The command language is a small program format; the test files contain a few profiles written by one encoder.",
 ["jxl/src/icc/mod.rs", "jxl/src/icc/header.rs", "jxl/src/icc/stream.rs", "jxl/src/icc/tag.rs", A+"inner/codestream_parser/image_info.rs"],
 [("profile command interpreter", "jxl/src/icc/mod.rs"), ("incremental profile stream reader", "jxl/src/icc/stream.rs")])
prop("C19", "Patches are drawn exactly as their dictionary says",
 "Each patch copies exactly the named rectangle of the named saved picture to each listed position, combined per channel by the listed mode, alpha channel and clamp flag, in dictionary order; pixels no patch covers are unchanged, and dictionaries with rectangles outside the saved picture or positions outside the frame are rejected.",
 ["inputs"], "All dictionaries: sources, rectangles, positions crossing group borders, overlaps, modes per channel, image sizes.",
 "Patch lookup is organised by rows and groups; overlaps and positions at group borders are not enumerated by the few sample files.",
 ["jxl/src/features/patches.rs", "jxl/src/render/stages/patches.rs", "jxl/src/features/blending.rs"],
 [("patch dictionary parsing and row lookup", "jxl/src/features/patches.rs"), ("patch stage", "jxl/src/render/stages/patches.rs")])
prop("C20", "Lossy-coded pictures stay within the format's accuracy bounds",
 "Pictures coded with transform coding (variable-size DCT, XYB colour, restoration filters, noise, splines, upsampling) are reconstructed within the numeric tolerances of the conformance specification on every supported instruction set.",
 ["inputs", "configurations"], "All lossy codestreams and all SIMD targets.",
 "Tests compare a fixed set of files against stored references.",
 ["jxl/src/frame/group.rs", "jxl_transforms/src", "jxl_simd/src", "jxl/src/render/stages"],
 [("inverse transforms and render stages", "jxl/src/render/stages")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
open(out, "w").write("".join(json.dumps(p) + "\n" for p in P))
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    for f in p["anchors"]["files"]:
        assert os.path.exists("/repo/" + f), (p["id"], f)
