prop("C15", "Balancing, equalising and contrast stretching redistribute levels as defined",
     "Balancing a colour model stretches each selected channel from the range left after cutting the given share (per mille) of the pixels at both ends towards 0..1, less so for channels with little contrast; equalising maps each channel to its normalised cumulative share of the pixels; contrast stretching applies the levels found the same way from the average brightness. Each result depends on the pixel counts only, holds for every image including uniform, single-pixel and two-level ones, keeps alpha, and is finite and within 0..1.",
     ["inputs", "configurations"], "every image that is a sequence of up to 3 (thorough: 4) colours of an alphabet, ramps over all levels, outliers at every position, every mode and threshold",
     "The tests compare the result for one photo; the share of pixels at a threshold, uniform images and outliers are not reached.",
     ["d10-ops/src/balance_channels.rs", "d10-ops/src/equalize.rs", "d10-ops/src/stretch_contrast.rs"],
     [("histograms and cut-off shares", "balance_channels.rs, equalize.rs, stretch_contrast.rs")],
     "exploration", "bounded exhaustive enumeration of colour sequences, modes and thresholds against an f64 reference from exact pixel counts",
     "Complete for the sequences of the bound; results within 3e-4 scaled by the slope of the correction; either side of a bin boundary is accepted.")
prop("C16", "Saturation, lightness and temperature optimisation follow their statistics",
     "Optimising saturation or lightness applies to every pixel the correction that the averages over the image define, in the selected colour model; changing or optimising the colour temperature scales the channels by the ratio of the two reference whites with the tint correction. Alpha is kept and every result is finite and within 0..1, for every image (black, white, gray, saturated) and every parameter, including extreme temperatures and factors.",
     ["inputs", "configurations"], "every image that is a sequence of up to 3 (thorough: 4) colours of an alphabet and some larger ones, every mode, a grid of offsets, factors and temperatures from 0 to 20000 K",
     "The tests compare a few results for one photo; degenerate averages are not reached.",
     ["d10-ops/src/saturation.rs", "d10-ops/src/lightness.rs", "d10-ops/src/temperature.rs"],
     [("averages and correction exponents", "saturation.rs, lightness.rs"), ("black body white points", "temperature.rs")],
     "exploration", "bounded exhaustive enumeration of colour sequences and parameters against an f64 reference",
     "Complete for the sequences and grids of the bound; results within 5e-4.")
prop("C17", "Stylising filters choose the pixel their rule names",
     "Applying a palette replaces each pixel by the palette colour closest to it (the first of equally close ones); despeckling replaces a dark pixel (average below the threshold) by the mean of the brighter pixels of its 3x3 neighbourhood exactly when at most the given number of pixels there are dark; the symmetric nearest neighbour filter averages from each pair of opposite pixels the one closer to the centre; the drawing filter combines blur, sharpening and thresholds as its mode defines; simulated JPEG quality keeps the size and, if asked for, alpha. Borders are treated like the inside, and every value is finite.",
     ["inputs", "configurations"], "all palettes of up to 4 colours, all 512 3x3 neighbourhoods with every amount, all shapes up to 6x6 (thorough: 8x8) with every radius, every drawing mode, every quality",
     "The tests run each filter on one image or only compare sizes.",
     ["d10-ops/src/apply_palette.rs", "d10-ops/src/despeckle.rs", "d10-ops/src/symmetric_nearest_neighbor.rs", "d10-ops/src/drawing.rs", "d10-ops/src/jpeg_quality.rs"],
     [("neighbourhood rules", "despeckle.rs, symmetric_nearest_neighbor.rs"), ("closest colour", "apply_palette.rs")],
     "exploration", "bounded exhaustive enumeration of neighbourhoods, palettes and parameters against reference filters",
     "Complete for the patterns of the bound; ties within 1e-4 accept either choice.")
prop("C18", "Noise changes the requested share of pixels in the allowed way only",
     "Whatever the random generator delivers, noise keeps the size of the image and turns every pixel into one of the outcomes its kind allows (mixed with a random colour by the given intensity, opaque black or white, one channel replaced, Gaussian offset), independently per pixel and, where each channel gets its own value, per channel; alpha stays except under salt and pepper. The requested strength is the share of changed pixels or the intensity of the mix: nothing changes at strength 0. The copying and the in-place variant do the same.",
     ["schedules", "inputs", "configurations"], "all sequences of random draws over an alphabet for small images, an even grid over the whole range of the first draw for measuring the shares, all kinds and strengths",
     "The tests only compare the size of the result, because its content is random.",
     ["d10-ops/src/random_noise.rs", "d10-ops/src/salt_n_pepper_noise.rs", "d10-ops/src/rgb_noise.rs", "d10-ops/src/gaussian_noise.rs"],
     [("draw and apply", "*_noise.rs")],
     "model_checking", "stateless model checking: the explorer owns the random generator and enumerates all draw sequences over an alphabet",
     "The non-determinism of the generator is replaced by enumerated scripts (patched copy of rand 0.8); shares are measured on an even grid.")
prop("C19", "A command queue applies exactly the queued commands in order to the files named",
     "Executing a queue is equivalent to executing its commands one after the other: open replaces the image, every operation replaces it by the result the operation of the library gives for it with the parameters queued, save writes exactly the encoded current image to its path. An operation without an image, an unreadable input or a failing write stops the queue with the error of that command; everything saved before stays, nothing after it happens, no file besides the saved ones changes. A queue can be executed several times, each time with the result of a fresh run on the files as they are then; the builder methods queue the command they are named after.",
     ["histories", "faults", "configurations"], "all command sequences up to length 3 (thorough: 4) over files and operations, every failing position, every parameter of a grid",
     "The tests run one command each; sequences with failures in the middle and what is on disk afterwards are not reached.",
     ["d10-commands/src/queue.rs", "d10-commands/src/commands.rs", "d10-commands/src/errors.rs", "d10-commands/src/log.rs"],
     [("queue and execution", "queue.rs"), ("commands", "commands.rs")],
     "model_checking", "stateless model checking of the real queue: all command sequences over an alphabet of files and operations, compared with an interpreter after every run",
     "The interpreter applies the same library operations, so what each operation computes is decided by the other properties.")
prop("C20", "The command line is interpreted from left to right and reports every mistake",
     "The tool processes its arguments in order: a plain name is opened if no step precedes it (-silent is none) and saved to otherwise, options apply their operation with the parameters given. Every well-formed command line produces exactly the files its steps define; a malformed one (unknown option, missing, non-numeric or wrong number of parameters) is reported by name with a non-zero exit status before any file is touched; a step that fails at run time is reported with a non-zero exit status and leaves the files of the steps before it. Names need not be UTF-8. The tool never panics and logs each step once unless silenced.",
     ["inputs", "histories", "configurations"], "all argument lists up to length 3 (thorough: 4) over an alphabet of names, options and parameters; every option with every parameter text of a list",
     "The repository has no tests for the command line tool.",
     ["d10-cli/src/main.rs", "d10-commands/src/commands.rs", "d10-commands/src/queue.rs"],
     [("argument parsing", "d10-cli/src/main.rs")],
     "model_checking", "bounded exhaustive exploration of argument lists: the real binary runs on each one and is compared with an interpreter of the grammar",
     "The operations themselves are taken from the library; noise with a strength other than 0 is compared by the kind of its outcome.")

prop("C21", "Images and numpy arrays convert into each other without changing any value",
     "to_np_array delivers a new array of shape height x width x channels of the requested type whose entries are the channels of each pixel in the requested colour space, scaled to the full range of integer types, rounded to the nearest level and saturated; from_np_array is its inverse for every supported type, colour space and memory layout (strided, reversed, transposed, Fortran order, read-only, unaligned), reading rows as height and columns as width, with alpha 1 where there is none. All 8 bit and 16 bit levels survive there and back. Unsupported types, shapes and names are refused with an exception; neither side keeps a reference to the other.",
     ["inputs", "configurations", "histories"], "all colour spaces x types x names x channel counts x memory layouts, every level of 8 and 16 bit",
     "The Python tests do not touch arrays; conversion tables, layouts and rounding are not reached by any test.",
     ["d10-python/src/image.rs"],
     [("conversion to and from arrays", "d10-python/src/image.rs: to_np_array, from_np_array, numpy_helper")],
     "model_checking", "bounded exhaustive exploration of array types, layouts, shapes and names through the compiled extension module against values computed with the Rust colour types",
     "Complete for the tables of types, names, channel counts and layouts; images up to 27 pixels, ramps and all levels.")
prop("C22", "The Python API does what the Rust API does",
     "Every method, property, constructor and factory of the Python module has the effect and result of the Rust call it stands for, with the documented defaults, names, argument order and keywords. Methods that return an image leave the receiver unchanged, in-place methods change only the receiver and return None, colours handed out or taken in are copies. Callbacks are called once per pixel row by row with the right arguments, their exceptions arrive unchanged and stop the operation, and re-entrant modification is refused. Wrong names, types and coordinates raise exceptions without changing anything; the interpreter never crashes. Saved files have the bytes the Rust encoder produces. Colours compare unequal exactly when they do not compare equal.",
     ["histories", "inputs", "configurations", "faults"], "all methods x names x defaults x keywords on parameter grids, callbacks failing at every position, all statement sequences up to length 3 (thorough: 4)",
     "The Python tests call most methods once with one set of positional arguments on one image.",
     ["d10-python/src/image.rs", "d10-python/src/color.rs", "d10-python/src/lib.rs"],
     [("Image and EncodingFormat", "d10-python/src/image.rs"), ("colour classes", "d10-python/src/color.rs"), ("module and factories", "d10-python/src/lib.rs")],
     "model_checking", "stateless model checking of the compiled extension module: all statement sequences over an alphabet and all calls over tables of names, defaults and keywords, compared with the Rust API",
     "What the operations compute is decided by the other properties. Known finding: != is not the negation of == (repairing it breaks an existing test that relies on it).")
prop("C23", "An Image is exactly its size and pixels, and its methods are the operations",
     "Every method of Image gives the result of the library operation it is named after, applied to the pixels of the image with the arguments in order; methods that return an image leave the receiver unchanged, in-place methods do the same as their copying variant, failing callbacks stop at the failing pixel. Resizing by percentage rounds each side and keeps at least one pixel. Saving and opening use the encoder, decoder and the default options of the extension. What a method does depends on the size and pixels of the receiver only, not on the operations that produced it, and no method panics on an empty or one-pixel image.",
     ["histories", "inputs", "configurations"], "all methods x parameter grids x images (empty to 8x6), all method sequences up to length 2 (thorough: 3), failures at every pixel, all percentages and sides of a grid",
     "The tests of Image call one method at a time and mostly compare sizes.",
     ["d10/src/image.rs", "d10/src/lib.rs"],
     [("methods of Image", "d10/src/image.rs")],
     "model_checking", "stateless model checking: all method sequences up to a depth on the real Image against the same steps on pixel buffers",
     "What the operations compute is decided by the other properties; sides beyond the limit of JPEG (65535) are not explored.")
prop("C24", "Every result depends on the arguments only, not on what ran before or around it",
     "Each operation, conversion, encoder and decoder gives, for the same arguments (and random numbers), the same result whether it is the first call in the process or follows any other calls, successful or failed, with other arguments, on this or another thread, or runs inside the callback (pixel function, reader, writer) of another call. No call changes its inputs.",
     ["histories", "schedules", "configurations"], "all ordered pairs of an alphabet of about 800 calls, triples of a reduced one (thorough), a new thread for every call, nesting at every callback position; each against a fresh process",
     "The tests run each function once; results that depend on earlier calls do not show up in them.",
     ["d10-ops/src/lib.rs", "d10-codecs/src/lib.rs", "d10-core/src/color/mod.rs", "d10-core/src/kernel.rs", "d10-core/src/kernel_dyn.rs"],
     [("absence of state between calls", "d10-core, d10-codecs, d10-ops")],
     "model_checking", "stateless model checking of call histories: every pair (triple) of calls executed in its own process and compared bit by bit with the call in a fresh process",
     "Threads run one after the other; concurrent interleavings inside the operations are not enumerated, as the code shares no mutable state between threads (nothing to interleave).")
