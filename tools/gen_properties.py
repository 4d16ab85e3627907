#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the list is reviewable in one place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": hook}})

PB = "d10-core/src/pixelbuffer.rs"
p("C01", "Pixel buffers are always well formed",
  "Every pixel buffer that can be constructed holds exactly width x height pixels in row-major order (x fastest), its dimensions are either both zero or both positive, and it never exceeds the documented maximum size. A new buffer has the requested dimensions and holds the default colour, the given fill colour, the given raw data, or the value of the given function at each coordinate. A request with a zero/non-zero dimension mix, too many pixels, or raw data of another length is refused (panic) instead of yielding a buffer, and a fallible fill function's first error is returned.",
  ["inputs"], "all widths, heights, raw vectors, fill colours and fill functions",
  "The tests build a handful of small buffers (13x7, 2x3); none reaches the size limit, the zero/non-zero mixes, wrong raw lengths or a fill function failing at a later pixel.",
  [PB], [("is_valid_buffer_size / validate_size", PB), ("PixelBuffer::new, new_with_color, new_from_raw, new_from_func, try_new_from_func", PB)],
  [{"name": "width,height,data", "meaning": "dimensions and row-major pixels", "where": PB}])
p("C02", "Pixel addressing is exact and writes touch one pixel only",
  "Reading pixel (x, y) of a buffer returns the (x + y*width)-th pixel of its data, writing it changes exactly that pixel and nothing else, and enumeration yields every pixel once in row-major order with its own coordinates. The optional reader returns nothing exactly when the signed coordinate lies outside the image, and the clamped reader returns the nearest edge pixel for every signed coordinate of a non-empty buffer. Unsigned reads and writes outside the buffer are refused (panic) and never alias another pixel.",
  ["inputs"], "all buffer sizes, pixel contents and coordinates, including negative and extreme ones",
  "Tests read a few in-range coordinates of a 2x3 buffer; out-of-range x with in-range linear index, extreme i32 coordinates and frame conditions are never sampled.",
  [PB], [("get_pixel, put_pixel, get_pixel_clamped, get_pixel_optional, is_in_image, enumerate, enumerate_mut", PB)])
p("C03", "Per-pixel transforms visit every pixel once, with its own coordinates",
  "Mapping or modifying the colours of a buffer calls the function exactly once per pixel in row-major order, passes that pixel (and, for the enumerated forms, its own coordinates), stores each result at that same pixel, and keeps the dimensions. A fallible form stops at the first error and returns it; the in-place fallible forms leave the failing pixel and all later pixels unchanged. Converting a whole buffer or an iterator of colours to another colour space equals converting each pixel on its own.",
  ["inputs"], "all buffer sizes, contents and (stateful or failing) functions",
  "Unit tests only transform a fixed-colour buffer; order, frame after an error, coordinates and the eight conversions on arbitrary contents are not checked.",
  [PB, "d10-core/src/color/iter.rs"], [("map_colors, mod_colors, try_*, *_enumerated, to_*", PB), ("ColorIter adaptors", "d10-core/src/color/iter.rs")])
p("C04", "Flips and quarter turns are exact pixel permutations",
  "For every image, horizontal flip, vertical flip and the 90, 180 and 270 degree clockwise rotations move each source pixel unchanged to the geometrically prescribed position, with width and height swapped for 90 and 270. Consequently applying a flip twice, 180 twice, or 90 then 270, returns the original image exactly. None of them fails on any valid image, including empty ones.",
  ["inputs"], "all image sizes and contents",
  "No test exercises flips or rotations by quarter turns beyond the Python smoke tests; non-square and single-row images are unsampled.",
  ["d10-ops/src/flip.rs", "d10-ops/src/rotate_90.rs"], [("flip_horizontal, flip_vertical", "d10-ops/src/flip.rs"), ("rotate90, rotate180, rotate270", "d10-ops/src/rotate_90.rs")])
p("C05", "Crop returns exactly the requested window clipped to the image",
  "Cropping returns the part of the requested rectangle that lies inside the image, with exactly the clipped width and height and each pixel copied from its source position. A window that lies completely outside, or has zero width or height, yields an empty 0x0 image, and cropping an empty image yields an empty image. No offset or size, however large, makes it fail.",
  ["inputs"], "all images, offsets and window sizes up to the integer limits",
  "The one test checks three result sizes on a blank image; contents, offsets near u32::MAX and one-sided clipping are not covered.",
  ["d10-ops/src/crop.rs"], [("crop", "d10-ops/src/crop.rs")])
p("C06", "Neighbourhood windows replicate the edge, on every code path",
  "The N x N neighbourhood of a pixel contains at window position (i, j) the image pixel at (x + i - N/2, y + j - N/2), with coordinates outside the image replaced by the nearest edge pixel, whether or not the window lies inside the image and whether N is fixed or chosen at run time. Convolving an image with a kernel yields, at every pixel and for every channel including alpha, the sum of neighbourhood values times the kernel weights at the same window positions (up to rounding), and keeps the dimensions.",
  ["inputs"], "all images, window positions, odd window sizes and kernels",
  "No test covers kernels near image borders or larger than the image, or compares the fixed-size with the run-time-size path.",
  [PB, "d10-core/src/kernel.rs", "d10-core/src/kernel_dyn.rs"], [("get_kernel, get_kernel_dyn, apply_kernel, apply_kernel_dyn, get_kernel_value", PB), ("Kernel::apply_kernel", "d10-core/src/kernel.rs"), ("KernelDyn::get/enumerate/offsets", "d10-core/src/kernel_dyn.rs")])
p("C07", "Compose and blend align images at the top-left corner",
  "Composing images yields an image as wide as the widest and as high as the highest input, in which each pixel is the given function applied to its coordinates and to the inputs' pixels at that coordinate in input order, with the default colour for every input that does not cover it; a fallible function's first error in row-major order is returned. Blending two images has the same layout: where both cover a pixel it is the blend of the two in order, where only one does that pixel is copied unchanged, and elsewhere the result is fully transparent black.",
  ["inputs"], "all numbers and sizes of inputs, contents and functions",
  "Tests compose three uniformly coloured buffers and check four pixels; argument order, coordinates, error propagation and the uncovered corner of a blend are not sampled.",
  ["d10-ops/src/compose.rs", "d10-ops/src/blend.rs"], [("compose, try_compose, compose_slice, try_compose_slice", "d10-ops/src/compose.rs"), ("blend_image", "d10-ops/src/blend.rs")])
p("C08", "Interlace shifts alternate rows and clamps at the edge",
  "Interlacing keeps the dimensions; in an even row each pixel is the source pixel `offset` columns to the left, in an odd row the one `offset` columns to the right, with columns outside the image replaced by the nearest edge column. This holds for every image and every offset, including offsets larger than the image and up to the integer limit, without failing.",
  ["inputs"], "all images and offsets", "There is no test for interlacing.",
  ["d10-ops/src/interlace.rs"], [("interlace", "d10-ops/src/interlace.rs")])
p("C09", "Resize and rotate produce the promised geometry",
  "Resizing a non-empty image gives exactly the requested dimensions with every filter, and returns the image unchanged when the size is unchanged; free rotation keeps the dimensions, and rotating by 0 or 360 degrees with the nearest filter returns the image unchanged. With the nearest filter every pixel of a resized image is a pixel of the source image, and every pixel of a rotated image is either a source pixel or the background colour. With every filter, resizing a uniformly coloured image gives that colour everywhere (up to rounding), and pixels of a rotated image whose source position lies outside get exactly the background colour.",
  ["inputs"], "all images, sizes, angles and filters",
  "Tests resize 100x100 single-colour images to three sizes; rotation, tiny and very unequal sizes and non-uniform images are not covered.",
  ["d10-ops/src/resize.rs", "d10-ops/src/rotate.rs", "d10-ops/src/filters.rs"], [("resize, resize_with_fn", "d10-ops/src/resize.rs"), ("rotate, rotate_with_fn", "d10-ops/src/rotate.rs"), ("get_pixel_*", "d10-ops/src/filters.rs")])
p("C10", "Colour constructors and adjustments stay in range",
  "Constructing an RGB or sRGB colour from any non-NaN numbers gives channels between 0 and 1, keeping values already in range exactly. Gamma, level, brightness, contrast, saturation, lightness, hue rotation, modulation, vibrance, sepia, grayscale and inversion applied to a colour with channels in [0, 1] and finite parameters (gamma positive) give channels in [0, 1] that are never NaN, up to rounding. With their neutral parameters (factor 1, offset 0, gamma 1, rotation by 0 or any number of whole turns) the adjustments return the colour unchanged up to rounding, and inversion is its own inverse.",
  ["inputs"], "all colours in range and all finite parameters",
  "Tests compare a few hand-computed colours for gamma and level; nothing samples extreme parameters or the other adjustments.",
  ["d10-core/src/color/rgb.rs", "d10-core/src/color/srgb.rs", "d10-core/src/color/mod.rs"], [("clamp, Rgb::new*, Srgb::new*, map_channels, with_*", "d10-core/src/color/rgb.rs")])
p("C11", "Alpha survives conversions and colour adjustments",
  "Converting a colour with alpha in [0, 1] between any of the supported colour spaces keeps its alpha bit for bit. Every colour adjustment of an RGB colour (grayscale, invert, gamma, level, brightness, contrast, saturation, lightness, hue rotation, modulate, vibrance, sepia) and every channel mapping keeps alpha as well. Replacing alpha changes only alpha, and replacing one channel changes only that channel.",
  ["inputs"], "all colours, colour spaces and adjustment parameters",
  "Conversion tests use tolerant equality on RGB round trips and mostly opaque colours; no test checks alpha through the adjustments.",
  ["d10-core/src/color/mod.rs", "d10-core/src/color/rgb.rs", "d10-core/src/color/hsl.rs", "d10-core/src/color/hsv.rs", "d10-core/src/color/yuv.rs", "d10-core/src/color/xyz.rs", "d10-core/src/color/lab.rs", "d10-core/src/color/srgb.rs"],
  [("Color trait conversions", "d10-core/src/color/mod.rs"), ("Rgb adjustments", "d10-core/src/color/rgb.rs")])
p("C12", "HSL and HSV conversions are well defined and invertible",
  "For every RGB colour with channels in [0, 1], conversion to HSL and to HSV gives hue, saturation and lightness/value between 0 and 1 (up to rounding) and never NaN, with hue and saturation 0 for grays. Converting back gives the original colour within the library's colour tolerance. Converting any HSL or HSV colour with components in [0, 1] to RGB gives channels in [0, 1].",
  ["inputs"], "all colours in [0,1]^3, including grays, near-grays and channel ties",
  "Tests round-trip 15 fixed and 100 random colours, which practically never hit exact ties or near-grays, and compare with an equality that treats NaN as equal.",
  ["d10-core/src/color/mod.rs", "d10-core/src/color/hsl.rs", "d10-core/src/color/hsv.rs"], [("to_hsl, to_hsv", "d10-core/src/color/mod.rs"), ("Hsl::to_rgb", "d10-core/src/color/hsl.rs"), ("Hsv::to_rgb", "d10-core/src/color/hsv.rs")])
p("C13", "YUV, XYZ, Lab and Lch conversions are mutually inverse",
  "For every RGB colour with channels in [0, 1], converting to YUV, XYZ, Lab or Lch and back gives the original colour up to a small rounding tolerance, for every supported illuminant and observer. Grays have zero U and V, and under D65 (2 degree observer) white has L = 1 and zero a, b and chroma (up to matrix rounding).",
  ["inputs"], "all colours in [0,1]^3 and all illuminant/observer pairs",
  "Tests round-trip 100 random colours for D65/O2 only; the branch points of the piecewise functions and other illuminants are not sampled.",
  ["d10-core/src/color/mod.rs", "d10-core/src/color/yuv.rs", "d10-core/src/color/xyz.rs", "d10-core/src/color/lab.rs"], [("apply_matrix, apply_matrix_clamped, to_yuv, to_xyz, to_lab, to_lch", "d10-core/src/color/mod.rs"), ("Lab::to_xyz / to_rgb", "d10-core/src/color/lab.rs")])
p("C14", "Blend operations obey their algebra",
  "For colours with channels in [0, 1] and intensity in [0, 1], every per-channel blend (normal, addition, subtract, darken, lighten) gives each colour channel as the interpolation, weighted by intensity times the second colour's alpha, between the first colour's channel and the operation's value (the second channel, sum, difference, minimum, maximum), clamped to [0, 1]. Normal blending with a fully transparent or zero-intensity second colour leaves the first unchanged, with an opaque one at full intensity gives the second; the other four take the second colour's alpha. HSL and LCH blends with intensity 0 leave colour and alpha of the first unchanged, up to rounding.",
  ["inputs"], "all colour pairs and intensities",
  "Tests blend a few saturated primaries at a few intensities.",
  ["d10-ops/src/blend.rs", "d10-core/src/color/rgb.rs"], [("blend_color, blend_*, apply_intensity", "d10-ops/src/blend.rs"), ("Rgb::alpha_blend", "d10-core/src/color/rgb.rs")])
p("C15", "sRGB transfer functions are inverse, monotone and fix 0 and 1",
  "The linear-to-sRGB and sRGB-to-linear transfer functions map [0, 1] into [0, 1], fix 0 and 1, never decrease, and are inverse to each other up to rounding over the whole interval, including both sides of the linear segment's end. Converting a colour applies them to the three colour channels only.",
  ["inputs"], "all channel values in [0,1]",
  "Tests round-trip random colours with tolerance; the join of the two pieces and monotonicity are not tested.",
  ["d10-core/src/color/srgb.rs", "d10-core/src/color/mod.rs"], [("gamma_to_linear, linear_to_gamma", "d10-core/src/color/srgb.rs"), ("to_srgb", "d10-core/src/color/mod.rs")])
p("C16", "8-bit and 16-bit quantisation is exact on stored values",
  "Every 8-bit (16-bit) sample value, read as a channel, converted to linear RGB and written back, comes out as the same 8-bit (16-bit) value, for colour, gray and alpha samples. Writing any finite channel value to a lossless format gives a nearest representable sample (up to floating point rounding), clamped to the sample range, so writing never decreases when the channel value increases.",
  ["inputs"], "all 256 / 65536 sample values and all finite f32 channel values",
  "The tests convert five values; which samples survive the gamma round trip depends on rounding at each of the 65536 values.",
  ["d10-codecs/src/utils.rs", "d10-core/src/color/srgb.rs"], [("as_u8, as_u16, from_u8, from_u16_be, from_u16_ne", "d10-codecs/src/utils.rs")])
p("C17", "Lossless formats store and restore every pixel in its place",
  "For every non-empty image and every colour type of PNG, and for BMP, RGBA ICO (up to 256 pixels a side) and lossless WebP where the format can store the image (WebP drops the colour of fully transparent pixels), encoding succeeds and decoding the result gives the same width and height and, at every pixel, the channels the colour type stores, quantised to its bit depth, with gray colour types storing the luma and types without alpha decoding as opaque. The sample data handed to an encoder has exactly width x height x channels samples in row-major, channel-interleaved order with big-endian 16-bit samples.",
  ["inputs", "configurations"], "all images (sizes and contents) and all colour types",
  "The codec test decodes two images and compares dimensions; no test encodes 16-bit or gray types and decodes them again.",
  ["d10-codecs/src/utils.rs", "d10-codecs/src/png.rs", "d10-codecs/src/bmp.rs", "d10-codecs/src/ico.rs", "d10-codecs/src/webp.rs"], [("to_*_vec, read_into_buffer", "d10-codecs/src/utils.rs"), ("encode_png, decode_png", "d10-codecs/src/png.rs")])
p("C18", "Image formats are recognised by signature, else rejected",
  "A stream is recognised as JPEG, PNG, GIF, BMP, ICO or WebP exactly when its first bytes carry that format's signature, whatever follows, however short the stream is and however its reader splits reads; otherwise it is reported as unknown, and the reader is left at the start of the stream. File names select a format by their extension, case-insensitively, and the default encoder for a name is the encoder of that format; names without a known extension are rejected with an error.",
  ["inputs", "fault_sequences"], "all byte strings, all splits of reads, all file names",
  "Only valid files are decoded in tests; near-miss signatures, short streams and short reads are not sampled.",
  ["d10-codecs/src/lib.rs"], [("Format::from_reader, Format::from_path, EncodingFormat::from_path", "d10-codecs/src/lib.rs")])
p("C19", "Command queues run in order and stop at the first failure",
  "Running a queue executes its commands exactly once each in the order they were added, each on the image left by the previous ones, so that what is saved equals applying the corresponding image operations by hand with the same parameters. It stops at the first failing command and returns that error, with no later command having any effect, and any image command before an image was opened fails with a missing-image error. Adding a command through any builder method appends exactly that command.",
  ["histories"], "all command sequences and parameters",
  "Tests only push commands and count them; nothing runs a queue.",
  ["d10-commands/src/queue.rs", "d10-commands/src/commands.rs"], [("Queue::with/push/run", "d10-commands/src/queue.rs"), ("execute, execute_*", "d10-commands/src/commands.rs")])
p("C20", "Noise has the promised outcomes for every random draw",
  "Whatever the random source returns, salt-and-pepper noise turns each pixel into exactly opaque black, opaque white, or leaves it unchanged, and colour noise leaves a pixel unchanged or sets exactly one of its colour channels to full, keeping the rest and alpha; with threshold 0 or less both leave the image unchanged, and with a threshold above 1 both change every pixel. Random and gaussian noise keep alpha and dimensions, leave the image unchanged at strength 0, and keep RGB channels in [0, 1]. The in-place and the copying form of each do the same.",
  ["inputs", "schedules"], "all images, thresholds and random draws",
  "There is no noise test; the outcomes depend on the random draws.",
  ["d10-ops/src/salt_n_pepper_noise.rs", "d10-ops/src/rgb_noise.rs", "d10-ops/src/random_noise.rs", "d10-ops/src/gaussian_noise.rs"], [("salt_n_pepper, rgb_noise_for_pixel", "d10-ops/src/salt_n_pepper_noise.rs"), ("random_noise, gaussian_noise", "d10-ops/src/random_noise.rs")])
p("C21", "Colour comparison, transparency and grayness share one tolerance",
  "For colours without NaN, two colours of one colour space compare equal exactly when all four components differ by at most the library tolerance (1/32768), so equality is reflexive and symmetric and never ignores a component. A colour has transparency exactly when its alpha differs from 1 by more than that tolerance, and an RGB colour is gray exactly when red-green and green-blue differ by less than it. A buffer is transparent exactly when some pixel is, and gray exactly when all are.",
  ["inputs"], "all colours of all colour spaces, all buffers",
  "Tests use equality as an oracle but never test it at the tolerance boundary or per component.",
  ["d10-core/src/color/mod.rs", "d10-core/src/color/rgb.rs", "d10-core/src/color/hsl.rs", "d10-core/src/color/hsv.rs", "d10-core/src/color/yuv.rs", "d10-core/src/color/xyz.rs", "d10-core/src/color/lab.rs", "d10-core/src/color/srgb.rs", PB],
  [("PartialEq impls", "d10-core/src/color/*.rs"), ("has_transparency, is_grayscale", "d10-core/src/color/mod.rs, " + PB)])
p("C22", "Filters keep dimensions and finite images finite",
  "For every non-empty image with channels in [0, 1], gaussian blur, unsharp, edge detection, despeckle, symmetric nearest neighbour, drawing, equalize, contrast stretch, channel balance, temperature, saturation and lightness optimisation keep the dimensions and never produce a NaN, for every parameter in its documented or natural range including the degenerate ones (radius 0, sigma 0, amount 9, extreme temperatures, uniform images).",
  ["inputs"], "all images with channels in [0,1] and all parameters in range",
  "No unit test calls these filters; the degenerate parameters lead to divisions by zero.",
  ["d10-ops/src/gaussian_blur.rs", "d10-ops/src/unsharp.rs", "d10-ops/src/despeckle.rs", "d10-ops/src/symmetric_nearest_neighbor.rs", "d10-ops/src/edge_detection.rs", "d10-ops/src/drawing.rs", "d10-ops/src/equalize.rs", "d10-ops/src/stretch_contrast.rs", "d10-ops/src/balance_channels.rs", "d10-ops/src/temperature.rs", "d10-ops/src/saturation.rs", "d10-ops/src/lightness.rs", "d10-core/src/kernel.rs", "d10-core/src/kernel_dyn.rs"],
  [("new_gaussian", "d10-core/src/kernel.rs, d10-core/src/kernel_dyn.rs"), ("the filters", "d10-ops/src")])
p("C23", "Palette reduction picks the nearest palette colour",
  "Applying a palette to an image replaces each pixel by the palette entry with the smallest Lab distance to it (the first one on a tie), so the result contains only palette colours up to conversion rounding, keeps the dimensions, and applying the same palette to a pixel that already is a palette colour keeps it. The in-place and the copying form do the same.",
  ["inputs"], "all images and palettes",
  "There is no palette test.",
  ["d10-ops/src/apply_palette.rs"], [("get_color_from_palette", "d10-ops/src/apply_palette.rs")])
p("C24", "The image type applies the named operation and keeps its metadata",
  "Each image method gives the pixels of the pixel-buffer operation of the same name called with the same arguments on its pixels, and leaves the original image unchanged unless it is an in-place method. Images derived from an image keep its background colour, which rotation uses for uncovered pixels (fully transparent when none is set). Resizing by percentage rounds each dimension of the scaled size to the nearest integer and never goes below 1. Opening or reading an image gives the pixels the decoder gives, without a background colour, and saving encodes its pixels in the requested format (the one the file name selects when none is requested), to the file, writer or buffer asked for; their errors are passed on.",
  ["inputs"], "all images, operations and arguments",
  "The Rust facade has no tests; the Python tests call a few methods on blank images.",
  ["d10/src/image.rs"], [("Image methods", "d10/src/image.rs")])
p("C25", "Python bindings agree with the Rust API",
  "Every method of the Python module gives the result of the Rust operation it wraps, called with the same arguments; an argument left out stands for its default (Bilinear for rotating and resizing, Sobel, Colored, Normal at intensity 1, HSL, RGB at threshold 0.5, sRGB equalisation, JPEG at quality 85, RGBA8 for the other formats, WebP at quality 85, and so on). A failing operation, an unknown name and an exception of a function passed in end in an exception. A numpy array of any supported type and colour space, and a list of pixels, hold the pixels of the image row by row, and turning one back into an image gives the image.",
  ["inputs", "programs"], "all Python calls",
  "The Python tests call a few methods on blank images.",
  ["d10-python/src/image.rs", "d10-python/src/color.rs", "d10-python/src/lib.rs"], [("pyo3 wrappers", "d10-python/src")])
p("C26", "Lossy encodings stay close to the image",
  "Encoding an image as JPEG, GIF or lossy WebP and decoding it gives an image of the same size whose channels differ from the original by an amount bounded by the chosen quality.",
  ["inputs"], "all images and qualities",
  "No test measures the error.",
  ["d10-codecs/src/jpeg.rs", "d10-codecs/src/gif.rs", "d10-codecs/src/webp.rs"], [("encode_jpeg, encode_gif, encode_webp", "d10-codecs/src")])
p("C27", "Smoothing filters keep uniform images and average locally",
  "For every non-empty image with channels in [0, 1], gaussian blur keeps the dimensions and every channel of every pixel lies between the minimum and the maximum of that channel over the clamped square of the given radius around it, up to rounding, whatever the sigma (given or default); despeckle and symmetric nearest neighbour keep the dimensions and keep every channel within [0, 1], up to rounding. Gaussian blur, unsharp, despeckle and symmetric nearest neighbour leave a uniformly coloured image unchanged up to rounding, for every radius, sigma, factor, threshold and amount.",
  ["inputs"], "all images with channels in [0,1], all radii, sigmas, factors, thresholds and amounts",
  "No unit test calls these filters; whether a kernel is normalised for every radius and sigma, or an average divides by the number of what it added, cannot be settled by samples.",
  ["d10-core/src/kernel.rs", "d10-core/src/kernel_dyn.rs", "d10-ops/src/gaussian_blur.rs", "d10-ops/src/unsharp.rs", "d10-ops/src/despeckle.rs", "d10-ops/src/symmetric_nearest_neighbor.rs"],
  [("new_gaussian, apply_kernel, apply_kernel_dyn", "d10-core/src/kernel.rs, d10-core/src/kernel_dyn.rs"), ("gaussian_blur, unsharp, despeckle, symmetric_nearest_neighbor", "d10-ops/src")])
p("C28", "Names select what they name",
  "Every mode, filter, blend operation, intensity, colour type, compression, preset and sampling factor that is given by name is the variant of that name (snake case of it, or the documented alias such as default), and every other text is refused with an error, for every text.",
  ["inputs"], "all texts",
  "No unit test parses a name.",
  ["d10-ops/src/edge_detection.rs", "d10-ops/src/drawing.rs", "d10-ops/src/saturation.rs", "d10-ops/src/balance_channels.rs", "d10-ops/src/filters.rs", "d10-ops/src/equalize.rs", "d10-ops/src/blend.rs", "d10-codecs/src/png.rs", "d10-codecs/src/webp.rs", "d10-codecs/src/jpeg.rs", "d10-codecs/src/bmp.rs", "d10-codecs/src/ico.rs", "d10-core/src/color/rgb.rs"], [("FromStr implementations", "d10-ops/src, d10-codecs/src, d10-core/src/color/rgb.rs")])
p("C29", "The command line runs the commands it names, in order",
  "The program d10 turns its arguments into the commands they name, in order: a plain argument opens that file when no command precedes it and saves to it otherwise; each option takes its own parameters (numbers separated by commas, in the order of the command's fields; an intensity by name) and stands for the command of its name. An unknown option, a missing or malformed parameter, or no arguments at all end the program with status 1 and a message before anything is run; a failing command ends it with status 1 and a message and the later ones are not run; otherwise it runs them all and ends with status 0.",
  ["inputs"], "all argument lists",
  "No unit test parses an argument list or runs the program.",
  ["d10-cli/src/main.rs", "d10-commands/src/queue.rs"], [("create_args, Args::parse, Args::parse_arg, main", "d10-cli/src/main.rs")])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
