"""writes properties.jsonl"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": list(state), "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": observe, "hook_needed": None}})


CONV = ["src/convert_image/x86.rs", "src/convert_image/sse2.rs", "src/convert_image/avx2.rs", "src/convert_image/common.rs"]
LIB = ["src/lib.rs", "src/dispatcher.rs"]
TS = "The tests convert a few fixed small images (mostly 8 or fewer distinct sizes) with padded strides and exactly sized heap buffers; "

p("C01", "No conversion or size request ever touches memory outside the caller's buffers",
  "For every image format pair, width, height, plane layout, stride array and buffer lengths, every load and store a conversion or size request performs lies inside the slice it was given (or inside the library's own stack and constants). This holds on every instruction set, for accepted and for rejected requests alike, including strides shorter than a row and the last bytes of the last row.",
  ["inputs", "configurations"], "all widths/heights (u32), strides and buffer lengths (usize), format pairs, plane counts, pixel contents and instruction sets",
  TS + "an over-read of a few bytes past a slice stays inside the allocation and goes unnoticed, and sizes that reach each SIMD tail or shortened-stride case are not enumerated.",
  CONV + LIB + ["src/pixel_format.rs"],
  [("length checks before the unchecked kernels", "nv12_rgb, i420_rgb, i444_rgb, rgb_nv12, rgb_i420, rgb_i444, rgb_bgra, bgra_rgb, bgr_rgb in src/convert_image/{x86,sse2,avx2}.rs"), ("out_of_bounds", "src/convert_image/common.rs"), ("vector body / scalar tail split", "lower_multiple_of_pot users in src/convert_image/{sse2,avx2}.rs"), ("size writes clamped to the caller's array", "src/pixel_format.rs get_buffers_size")],
  ["addresses accessed by convert_image and get_buffers_size"])
p("C02", "RGB to YCbCr conversions compute the specified value for every sample",
  "Whenever a conversion from a packed RGB format to I444, I420 or NV12 succeeds with destination strides of at least a row, every luma and chroma sample equals the fixed-point result of the documented formula of the destination colour space (full or limited range), rounded to nearest, and so is within 1 of the documented real-valued formula. Chroma of the 4:2:0 formats is computed from the mean of the 2x2 block, and every pixel of the image is written, whatever the size, strides, plane layout, pixel values and instruction set.",
  ["inputs", "configurations"], "all pixel values, image sizes, strides, plane layouts, source formats, destination formats, colour spaces and instruction sets",
  TS + "expected values are for 8 colours with a tolerance; 2^24 colours per format, 2^96 chroma blocks and every position in a vector register are out of reach.",
  CONV, [("coefficient tables", "src/convert_image/common.rs, FORWARD_WEIGHTS/Y_BIAS tables in x86.rs, sse2.rs, avx2.rs"), ("kernels", "rgb_to_nv12, rgb_to_i420, rgb_to_i444 and their _sse2/_avx2 forms"), ("channel order constants", "SAMPLER parameters")],
  ["destination planes after convert_image"])
p("C03", "YCbCr to RGB conversions compute the specified value for every pixel",
  "Whenever a conversion from I444, I420 or NV12 to a packed RGB format succeeds with destination strides of at least a row, every red, green and blue byte equals the fixed-point result of the documented formula of the source colour space, saturated to 0..255, and so is within 1 of the documented real-valued formula clamped to that range. Each chroma sample is used for exactly the pixels of its block, alpha is always 255, and every pixel is written, whatever the size, strides, plane layout, sample values and instruction set.",
  ["inputs", "configurations"], "all 2^24 sample triples at every position of every image size, all strides, plane layouts, formats, colour spaces and instruction sets",
  TS + "expected values are checked within 2 for a handful of colours, so saturation, wrap-around of intermediate 16-bit values and rare out-of-gamut triples are not reached.",
  CONV, [("coefficient tables", "src/convert_image/common.rs, BACKWARD_WEIGHTS tables in x86.rs, sse2.rs, avx2.rs"), ("kernels", "nv12_to_bgra, nv12_to_rgb, i420_to_bgra, i444_to_bgra and their _sse2/_avx2 forms"), ("saturation", "fix_to_u8_sat, packus")],
  ["destination plane after convert_image"])
p("C04", "RGB repacking copies every colour channel to its place and nothing else",
  "Whenever a conversion between packed RGB formats (RGB to BGRA, BGRA to RGB, BGR to RGB) succeeds with a destination stride of at least a row, the red, green and blue bytes of every pixel equal those of the source pixel and a destination alpha byte is 255. This holds for every width, height and stride, so converting there and back is lossless.",
  ["inputs", "configurations"], "all pixel values, widths, heights, strides and instruction sets",
  TS + "the shuffles process 4 to 32 pixels at a time with separate tails, and only a few widths are tested.",
  CONV, [("rgb_to_bgra, bgra_to_rgb, bgr_to_rgb kernels", "src/convert_image/{x86,sse2,avx2}.rs")], ["destination plane after convert_image"])
p("C05", "All instruction sets give bit-identical results",
  "For any request, the scalar, SSE2 and AVX2 implementations return the same success or error and, on success with destination strides of at least a row, produce identical bytes for the whole image.",
  ["inputs", "configurations"], "all requests (format pair, size, strides, plane layout, buffer lengths, pixel contents) and all instruction sets the dispatch can select",
  "The tests compare each instruction set with references within a tolerance for few colours and sizes; they never compare two instruction sets on arbitrary data or on requests near the acceptance limit.",
  CONV + LIB, [("three implementations of each converter", "src/convert_image/{x86,sse2,avx2}.rs"), ("dispatch tables", "set_dispatch_table! in src/lib.rs")], ["results of convert_image under different instruction sets"])
p("C06", "A conversion writes only the pixels of the destination image",
  "A conversion writes no byte outside the rows of the destination image: stride padding, bytes after the last row and unused planes keep their values, and the source is never modified. A conversion that returns an error leaves every destination byte untouched.",
  ["inputs", "configurations"], "all requests, accepted or rejected, with destination strides of any value, and all instruction sets",
  TS + "padding is compared for a few strides, and partial writes before an error are not looked for.",
  CONV + LIB, [("row loops bounded by the row width", "kernels in src/convert_image/{x86,sse2,avx2}.rs"), ("checks completed before the first write", "converter entry functions")], ["destination buffers after convert_image"])
p("C07", "A conversion succeeds exactly when documented, with the documented error",
  "A conversion returns InvalidValue exactly for a format, colour space, plane count or odd size combination the documentation excludes, InvalidOperation exactly for valid formats whose pair is not in the conversion table, and NotEnoughData exactly when a stride or buffer array is shorter than the plane count or some buffer ends before the last sample of its plane's last row under the given strides. Every other request succeeds; the comparison is exact to the byte and never overflows.",
  ["inputs", "configurations"], "all formats, colour spaces, plane counts, sizes, strides and buffer lengths up to the limits of their types, on all instruction sets",
  "The error tests enumerate formats with a couple of sizes and buffers that are far too small; the exact byte boundary, overflowing products and short arrays per plane and instruction set are not covered.",
  CONV + LIB + ["src/pixel_format.rs"], [("argument validation", "convert_image in src/lib.rs, get_image_index/is_pixel_format_valid in src/dispatcher.rs, is_compatible in src/pixel_format.rs"), ("length checks", "converter entry functions, out_of_bounds")], ["Result of convert_image"])
p("C08", "Buffer size computation is exact",
  "For a valid format, size and stride array, the size reported for each plane is its stride (the given one, or the width of a packed row when the stride is zero, absent or the default) times its number of rows, with the planes of a single-plane image added up, whenever that number is representable; exactly the sizes of the image's planes are written. Formats, plane counts and sizes that a conversion rejects, and arrays shorter than the plane count, are refused with the documented error and nothing is written.",
  ["inputs"], "all formats, plane counts, sizes, stride arrays and output array lengths",
  "The tests compute sizes for a few small even dimensions; mixed strides per plane and large dimensions (products over 32 bits) are not enumerated.",
  ["src/pixel_format.rs", "src/lib.rs"], [("get_buffers_size", "src/pixel_format.rs"), ("plane specification tables", "src/pixel_format.rs"), ("argument validation", "get_buffers_size in src/lib.rs")], ["result of get_buffers_size and the sizes array"])
p("C09", "Buffers of the advertised size are always accepted",
  "If the strides are at least a row (or default), buffers of exactly the sizes that the size request reports for an image are enough for a conversion that reads or writes that image: it is never refused for lack of data. A conversion within such buffers stays inside them.",
  ["inputs", "configurations"], "all formats, sizes, plane counts, strides of at least a row and instruction sets",
  "The tests allocate with the reported size for a few images; that two independent computations (sizes and checks) agree for every size and stride is not tested.",
  CONV + ["src/pixel_format.rs", "src/lib.rs"], [("get_buffers_size", "src/pixel_format.rs"), ("length checks", "converter entry functions in src/convert_image/{x86,sse2,avx2}.rs")], ["results of get_buffers_size and convert_image"])
p("C10", "Neutral colours stay neutral and limited range stays nominal",
  "A grey pixel (equal channels) converts to chroma exactly 128, black and white convert to the ends of the luma range, limited-range luma stays in 16..235 and limited-range chroma in 16..240. Chroma 128 converts back to equal red, green and blue; this holds at every position of every image on every instruction set.",
  ["inputs", "configurations"], "all pixel values, image sizes, strides, YCbCr formats, colour spaces and instruction sets",
  "A tint of one level at some vector lane, or a nominal range exceeded for extreme colours, is inside the tests' tolerance.",
  CONV, [("coefficients sum to zero or to the range", "src/convert_image/common.rs"), ("rounding biases", "C_BIAS/Y_BIAS tables in x86.rs, sse2.rs, avx2.rs")], ["destination planes after convert_image"])
p("C11", "The C interface mirrors the Rust interface and tolerates any argument values",
  "For every combination of null pointers, raw enumeration values, plane counts and a null or non-null error pointer, the C functions neither crash nor exhibit undefined behaviour: a null mandatory pointer, an out-of-range enumeration value or a bad plane count gives the failure status and the matching error code, and arrays of unusable size are refused. For well-formed arguments the underlying function is called with exactly the given values and its outcome is reported as status and error code, the error being written only on failure and only when asked for.",
  ["inputs"], "all raw values of the C structures, pointers null or valid, all plane counts and lengths",
  "The C tests call the functions with a few well-formed structures; raw out-of-range enumeration values and null combinations are undefined behaviour that a test may survive by luck.",
  ["src/lib.rs"], [("c_bindings", "src/lib.rs mod c_bindings: dcp_get_buffers_size, dcp_convert_image, parameter conversion helpers")], ["return value and *error of dcp_* functions"])
p("C12", "An instruction set is used only if CPU and OS support it, and reported truly",
  "Whatever the CPU reports through its identification instruction and the OS through its extended state register, code using AVX2 instructions is installed only if the CPU implements AVX2 (leaf 7 present) and the OS saves the YMM state; the identification code itself executes no instruction the CPU may lack. The acceleration description names the instruction set that is actually in use.",
  ["configurations"], "all values of every cpuid leaf and of XCR0",
  "A test runs on one CPU and one OS; the other 2^k identification answers never occur.",
  ["src/cpu_info.rs", "src/lib.rs"], [("cpu_info::get", "src/cpu_info.rs"), ("dispatch table construction", "Context::new in src/lib.rs"), ("describe_acceleration", "src/lib.rs")], ["converters installed for a given cpuid answer, describe_acceleration"])
p("C13", "No call panics, aborts or fails to return",
  "Every conversion and size request returns a result for all argument values: no panic, no arithmetic trap, no unreachable code and no endless loop, whatever the sizes (up to 2^32-1), strides (up to 2^64-1), plane counts and array lengths.",
  ["inputs", "configurations"], "all argument values, all instruction sets",
  "Index panics on short arrays and overflow of stride products need specific extreme values that tests do not use, and termination cannot be tested.",
  CONV + LIB + ["src/pixel_format.rs"], [("array length checks before indexing", "converter entry functions, convert_image, get_buffers_size"), ("bounded loops", "kernels")], ["return of convert_image and get_buffers_size"])
p("C14", "Calls are independent of each other",
  "The outcome of a conversion or size request (result and every written byte) depends only on its arguments and on the instruction set selected at first use: no earlier or concurrent call influences it, and no call keeps or changes any state.",
  ["histories", "schedules", "inputs"], "all sequences and interleavings of calls on non-overlapping buffers",
  "Each test issues a fixed short sequence of calls; a dependency on history or on another thread needs a specific sequence or interleaving.",
  CONV + LIB + ["src/pixel_format.rs"], [("no mutable globals besides the once-initialised dispatch table", "Context::global in src/lib.rs"), ("read-only constants", "src/convert_image/*.rs")], ["results of call sequences"],
  [{"name": "INSTANCE", "meaning": "dispatch table written once by the initialiser", "where": "src/lib.rs"}])
p("C15", "Concurrent first use initialises the library exactly once",
  "When several threads make their first call at the same time, each of them uses a completely built dispatch table and the table is built once.",
  ["schedules"], "all interleavings of any number of first calls",
  "The window lies inside the one-time initialisation and is microseconds long.",
  ["src/lib.rs"], [("std::sync::OnceLock", "Context::global in src/lib.rs")], ["results of concurrent first calls"])
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
