#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/props.py  rewrites both."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []   # properties with a check

def prop(id, title, statement, over, text, why, files, mech, level, technique, note, observe=None, state=None):
    P.append(dict(
        p=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
               anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                            observe_at=observe or [], hook_needed=None)),
        c=dict(property=id, quick_cmd=f"./check.sh {id} quick", thorough_cmd=f"./check.sh {id} thorough",
               technique=technique, level=level, level_note=note)))

prop("C01", "A save that reports success has stored the complete image",
     "Whenever writing an image (to a file, a stream or a buffer) reports success, the bytes that arrived are the complete encoded image, identical to what an unobstructed save writes. Whenever any write fails, is refused or the device is full, at any point of the stream, the save reports an error. Partial writes and interrupted writes are retried and change nothing about the result.",
     ["fault_sequences", "crash_points", "inputs"], "every format and option set, every image of the bound, every write call and byte offset at which the sink can fail (4 error kinds, zero-length write), every chunking of the delivery, every file size limit",
     "The tests write to a healthy disk and a Vec only; which byte the device fails at cannot be sampled by unit tests.",
     ["d10-codecs/src/lib.rs", "d10-codecs/src/png.rs", "d10-codecs/src/gif.rs", "d10-codecs/src/jpeg.rs", "d10-codecs/src/bmp.rs", "d10-codecs/src/ico.rs", "d10-codecs/src/webp.rs", "d10/src/image.rs"],
     [("explicit finish/flush with error propagation", "encode_to_file, encode_png, encode_gif")],
     "fault_enumeration", "exhaustive enumeration of fault points of the sink over the real encoders",
     "Every write call and every byte offset of small files fails once, for every format; files on a real file system are cut by RLIMIT_FSIZE at every length. Trusts the kernel to report the limit as EFBIG.")
prop("C02", "Lossless formats store exactly the pixels of the image",
     "An image written as PNG, BMP, ICO, GIF (up to 256 opaque or invisible colours) or lossless WebP and read again has the same size, and every channel is the nearest level the chosen sample depth can represent, for every level of every channel and every shape. Images that fit the sample depth survive any number of save/load cycles unchanged. Files of every colour type, bit depth, palette and interlacing the format allows are read with exactly the colours the format assigns to them.",
     ["inputs", "configurations"], "every 8-bit level in every channel, every 16-bit level for 16-bit types, every shape up to the bound, every colour type, hand-built files of every colour type and bit depth",
     "The tests compare a handful of photos within a tolerance of two levels; per-level and per-shape errors of one level or one pixel are invisible to them.",
     ["d10-codecs/src/png.rs", "d10-codecs/src/bmp.rs", "d10-codecs/src/ico.rs", "d10-codecs/src/gif.rs", "d10-codecs/src/webp.rs", "d10-codecs/src/jpeg.rs", "d10-codecs/src/utils.rs"],
     [("channel quantisation and sRGB curve", "d10-codecs/src/utils.rs"), ("sample packing", "d10-codecs/src/png.rs")],
     "exploration", "bounded exhaustive enumeration of images and files against an independent decoder and f64 curve",
     "Complete for all sample values of the 8-bit and 16-bit types and all shapes of the bound; trusts the third-party codec libraries used as oracle.")
prop("C03", "Encoder options are honoured",
     "A file is written in the format, colour type, sample depth, filter, compression, quality, chroma sampling, progressive or baseline mode, table optimisation, grayscale mode and preset that were asked for, for every combination of options. The decoded image has the size of the source and its colours stay within the loss the chosen quality permits; out-of-range option values are handled like the nearest valid ones or rejected with an error, never with a crash.",
     ["configurations", "inputs"], "the full product of encoder options for all six formats on a set of images",
     "The tests use one or two option sets per format; the option product has hundreds of members and is only looked at through pixels, not through the file's structure.",
     ["d10-codecs/src/jpeg.rs", "d10-codecs/src/png.rs", "d10-codecs/src/webp.rs", "d10-codecs/src/bmp.rs", "d10-codecs/src/ico.rs", "d10-codecs/src/lib.rs"],
     [("option mapping", "encode_* functions"), ("EncodingFormat", "d10-codecs/src/lib.rs")],
     "exploration", "exhaustive enumeration of the option product, container structure parsed independently",
     "The whole option product is enumerated; JPEG/WebP loss is bounded only on flat and quadrant images.")
prop("C04", "Arbitrary file contents decode to a valid image or to an error",
     "For every file content, decoding returns either an image whose pixel count matches its size and whose channels are all numbers between 0 and 1, or an error. It never panics, hangs, aborts or reads outside of its data.",
     ["inputs"], "every truncation and every single-byte change of seed files of every format and colour type, pairs of dimension fields over boundary values, all short strings after every signature",
     "The tests decode intact files only.",
     ["d10-codecs/src/lib.rs", "d10-codecs/src/png.rs", "d10-codecs/src/gif.rs", "d10-codecs/src/jpeg.rs", "d10-codecs/src/bmp.rs", "d10-codecs/src/ico.rs", "d10-codecs/src/webp.rs", "d10-core/src/pixelbuffer.rs"],
     [("size validation", "is_valid_buffer_size"), ("error mapping", "d10-codecs/src/errors.rs")],
     "exploration", "exhaustive single-fault corruption of files (every truncation, every byte) over the real decoders",
     "All single-byte corruptions and truncations of the seed set; no claim about multi-byte corruption beyond the listed header pairs.")
prop("C05", "The image format is recognised from the content, however it is delivered",
     "An image is decoded according to the signature of its content, independent of the file name and of how many bytes each read returns; unknown content is rejected as such, and read errors are reported as errors. After recognition the whole content, from its first byte, is decoded. When saving, the extension (case-insensitively) selects the format and unknown extensions are rejected.",
     ["inputs", "fault_sequences"], "every signature with every prefix and single-byte change, every chunking of the reader, an interruption or error before every read, every content under every extension",
     "The tests read files whose extension matches, from sources that always return full buffers.",
     ["d10-codecs/src/lib.rs"], [("Format::from_reader / from_path", "d10-codecs/src/lib.rs")],
     "exploration", "exhaustive environment model of the reader (all chunkings, interruptions, errors)",
     "Complete for the 12 signature bytes and all chunkings of them.")
prop("C06", "The pixel buffer behaves like a grid of pixels",
     "A buffer of w x h always holds exactly w*h pixels; reading, optional and clamped access, iteration, mapping, conversion and mutation agree with a plain grid at every coordinate, inside and outside, after every sequence of operations. A mutation changes exactly the addressed pixels, a failing mapping stops at the failing pixel and returns its error, and out-of-range writes and invalid sizes are refused without touching memory outside the buffer.",
     ["histories", "inputs"], "all reachable contents of small buffers over a three-colour alphabet under every operation with every argument; constructor sizes around every limit",
     "The tests look at one or two operations on one buffer; agreement after every operation sequence and at every out-of-range coordinate is beyond them.",
     ["d10-core/src/pixelbuffer.rs"], [("PixelBuffer", "d10-core/src/pixelbuffer.rs")],
     "model_checking", "explicit-state breadth-first search over real buffers against a reference grid",
     "Every reachable state of the bounded alphabet is visited on the real type; larger buffers are covered by the index arithmetic being size-uniform only.",
     state=[dict(name="buffer contents", meaning="width, height and pixel per coordinate", where="d10-core/src/pixelbuffer.rs")])
prop("C07", "Neighbourhood windows and convolutions see the right pixels",
     "The neighbourhood of any pixel, at any window size, contains the pixels around it in row order, with coordinates beyond the border replaced by the nearest border pixel; applying a kernel gives the weighted sum of that window. Static, run-time sized and per-pixel variants agree, Gaussian kernels are finite, symmetric and sum to one for every radius and sigma, and alpha is weighted like the colour channels.",
     ["inputs", "configurations"], "every image shape, window size, centre position (beyond the border too) and kernel shape of the bound; a grid of Gaussian sizes and sigmas",
     "The tests apply one kernel to one image; border and even-size cases and the agreement of the variants are not sampled.",
     ["d10-core/src/kernel.rs", "d10-core/src/kernel_dyn.rs", "d10-core/src/pixelbuffer.rs"],
     [("window extraction", "PixelBuffer::get_kernel / get_kernel_dyn"), ("Gaussian kernels", "kernel_dyn.rs, kernel.rs")],
     "exploration", "bounded exhaustive enumeration against an f64 reference convolution", "Complete for shapes, centres and sizes of the bound.")
prop("C08", "Flips, quarter turns and crops only move pixels",
     "Flipping, rotating by quarter turns and cropping, in every sequence, put every source pixel unchanged at the position geometry dictates and produce no other pixels; a crop is the part of the requested rectangle that lies inside the image (the empty image if there is none), for any offset and size. Two flips and four quarter turns restore the image.",
     ["histories", "inputs"], "all sequences up to the depth bound from every shape of the bound, with every crop rectangle including ones far outside of the image",
     "The tests compare single operations on one photo; non-square shapes, sequences and out-of-range rectangles are not reached.",
     ["d10-ops/src/flip.rs", "d10-ops/src/rotate_90.rs", "d10-ops/src/crop.rs", "d10/src/image.rs"],
     [("index mapping", "flip.rs, rotate_90.rs, crop.rs")],
     "model_checking", "explicit-state breadth-first search of operation sequences against a grid of source coordinates",
     "The operations are value independent, so pairwise distinct pixels per shape decide all images of that shape.")
prop("C09", "Resizing and free rotation interpolate the right source pixels",
     "Resizing to any size with any filter yields an image of exactly that size, each pixel being the filter's normalised weighted mean of the source pixels around the corresponding position with the border extended; uniform images stay uniform and no channel leaves 0..1. Rotation by any angle (degrees, clockwise, about the centre) keeps the size of the image; every pixel is interpolated from the position geometry dictates, and has the background colour where that position lies outside of the image.",
     ["inputs", "configurations"], "every source and target shape of the bound, every filter, a grid of angles, several image contents",
     "The tests compare a few reference images at one scale factor within a tolerance.",
     ["d10-ops/src/resize.rs", "d10-ops/src/filters.rs", "d10-ops/src/rotate.rs"],
     [("sampling filters", "d10-ops/src/filters.rs")],
     "exploration", "bounded exhaustive enumeration of shape pairs, filters and angles against an f64 reference", "Complete for the shapes of the bound; results within 5e-4 per channel.")
prop("C10", "Blur, sharpening and edge detection compute the documented filter",
     "Blurring gives the Gaussian weighted mean of the neighbourhood for every radius and sigma (a zero radius or sigma changes nothing), sharpening adds the scaled difference to the blurred image, and edge detection gives the Sobel magnitude or the Laplacian, at every pixel including the borders. The size is kept, alpha is blurred and sharpened like the colour channels, edges are opaque, and all values are finite.",
     ["inputs", "configurations"], "every image shape, radius, sigma and factor of the bound on several image contents",
     "The tests compare one image per filter within two levels.",
     ["d10-ops/src/gaussian_blur.rs", "d10-ops/src/unsharp.rs", "d10-ops/src/edge_detection.rs", "d10-core/src/kernel_dyn.rs"],
     [("separable convolution", "gaussian_blur.rs"), ("edge kernels", "edge_detection.rs")],
     "exploration", "bounded exhaustive enumeration against f64 reference filters", "Complete for shapes, radii and sigmas of the bound.")
prop("C11", "Composing and blending combine images pixel by pixel",
     "Composing images yields an image as large as the largest width and height among them; the function sees, once per position in row order, the pixel of every image at that position or the default colour where an image has none, and its first error ends the operation. Blending two images uses the selected operator where both have pixels, the only pixel where one has, and transparent black elsewhere; each operator computes its documented formula with the given intensity, hues being interpolated along the shorter arc. Interlacing shifts even rows one way and odd rows the other way by the offset, limited to the image.",
     ["inputs", "configurations"], "all pairs and triples of shapes of the bound, every failing position of the callback, all ordered pairs of a colour grid with alpha for every operator and intensity, every interlace offset",
     "The tests blend two equally sized photos at one intensity.",
     ["d10-ops/src/compose.rs", "d10-ops/src/blend.rs", "d10-ops/src/interlace.rs"],
     [("size and default handling", "compose.rs"), ("blend operators", "blend.rs")],
     "exploration", "bounded exhaustive enumeration of shapes, fault positions and colour pairs against a reference", "Complete for the shapes and the colour grid; hue operators are compared where the colours have a hue.")
prop("C12", "Colour conversions follow their definitions and round-trip",
     "Converting a colour between RGB, sRGB, HSL, HSV, YUV, XYZ, Lab and LCH (all illuminants and observers) gives the value the colour space defines, keeps alpha, and never yields a value that is not a number; converting back gives the original colour. All ways to convert (methods, From, iterators by value or reference) agree, and setting one channel leaves the others alone.",
     ["inputs"], "full grids of every source space (in and out of gamut, around every branch threshold) to every target space",
     "The tests check 6 to 15 colours per space plus random ones through comparisons that a NaN passes.",
     ["d10-core/src/color/mod.rs", "d10-core/src/color/rgb.rs", "d10-core/src/color/srgb.rs", "d10-core/src/color/hsl.rs", "d10-core/src/color/hsv.rs", "d10-core/src/color/yuv.rs", "d10-core/src/color/xyz.rs", "d10-core/src/color/lab.rs", "d10-core/src/color/iter.rs"],
     [("conversion formulas", "d10-core/src/color/mod.rs"), ("iterators", "d10-core/src/color/iter.rs")],
     "exploration", "bounded exhaustive enumeration of colour grids against an f64 reference", "14 million conversions in the quick tier; values between grid points are not covered.")
prop("C13", "Colour adjustments compute their formula and keep alpha",
     "Every adjustment of an RGB colour (gray by any intensity, inversion, gamma, levels, brightness, contrast, saturation, lightness, vibrance, hue rotation by any number of degrees, sepia, modulation, difference, alpha blending, channel mapping) gives the value of its documented formula, limited to 0..1 where documented, for every colour and parameter. Alpha is kept except where the operation defines it, and results are always finite.",
     ["inputs", "configurations"], "a colour grid with alpha and values around the thresholds, times a list of neutral, ordinary and extreme parameters for each adjustment",
     "The tests cover gamma and levels on a few colours, all opaque.",
     ["d10-core/src/color/rgb.rs"], [("adjustments", "d10-core/src/color/rgb.rs")],
     "exploration", "bounded exhaustive enumeration of colours and parameters against f64 formulas", "Grid of 21 values per channel (49 thorough) for every adjustment and parameter.")
prop("C14", "Colour text, colour equality and option names are exact",
     "A colour's text names its space, contains its channels in order rounded to at most four decimals, and its alpha exactly when it is transparent. Two colours are equal exactly when every channel differs by no more than the tolerance. Every documented option name is accepted with its documented meaning, and any other text is rejected with an error that repeats the text and names the option.",
     ["inputs"], "channel values around every rounding boundary for all colour types; differences around the tolerance in every channel; every single edit of every option name",
     "The tests format five colours per type and parse one or two names.",
     ["d10-core/src/color/mod.rs", "d10-core/src/color/rgb.rs", "d10-core/src/errors.rs", "d10-ops/src/blend.rs", "d10-ops/src/filters.rs", "d10-ops/src/drawing.rs", "d10-ops/src/equalize.rs", "d10-ops/src/saturation.rs", "d10-ops/src/balance_channels.rs", "d10-ops/src/edge_detection.rs", "d10-codecs/src/png.rs", "d10-codecs/src/jpeg.rs", "d10-codecs/src/webp.rs", "d10-codecs/src/bmp.rs", "d10-codecs/src/ico.rs"],
     [("format_color", "d10-core/src/color/mod.rs"), ("FromStr implementations", "all option enums")],
     "exploration", "bounded exhaustive enumeration of texts, edits and near-equal colours", "Complete for the names and their single edits.")

NA = []
exec(open(os.path.join(HERE, "tools", "props2.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "props2.py")) else None

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["p"]["title"]) <= 80, x["p"]["title"]
        f.write(json.dumps(x["p"], ensure_ascii=False) + "\n")
    for p, r in NA:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
m = dict(version=1, setup_cmd="bash setup.sh", checks=[x["c"] for x in P],
         not_applicable=[dict(property=p["id"], reason=r) for p, r in NA],
         notes="No hooks in /repo. check.sh builds harness/ against /repo's working tree and runs one property's explorer; KNOWN_FINDINGS lists fixed and known defects.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
