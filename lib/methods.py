"""Per property: level, engines, what is under contract (goes into MANIFEST.json and DESIGN.md)."""
RE = "f32 read as real numbers (rounding, overflow, NaN outside)"
M = {
"C01": ("proof", "V", "every constructor (`new`, `new_with_color`, `new_from_raw`, `new_from_func`, `try_new_from_func`, `default`) ensures the invariant `wf` (len = w*h, both zero or both positive, within the maximum), the contents, and refusal of bad requests; a second unit proves that valid requests do not panic"),
"C02": ("proof", "V", "`get_pixel`, `set_pixel`, indexing, `get_pixel_optional`, `get_pixel_clamped`, `enumerate`, `data`: exact index postcondition, frame (all other pixels unchanged), refusal outside; second unit: no panic inside"),
"C03": ("proof", "V", "all map/mod/convert forms, fallible ones included, over the ghost log of the callable: one call per pixel, in order, with its own coordinates, results stored in place, first error returned, frame on error; the eight iterator adaptors (next, size_hint, into_X for iterators of colours and of references), over an arbitrary inner iterator and arbitrary conversions: each item yielded is the conversion of the next inner item, none skipped"),
"C04": ("proof", "V", "five functions, exact permutation postconditions, no overflow or out-of-range access for any image, and the composition lemmas (twice = identity, 90 then 270)"),
"C05": ("proof", "V", "`crop`: exact clipped window for every offset and size up to u32::MAX, no overflow"),
"C06": ("proof", "V + VR", "`get_kernel`, `get_kernel_dyn`: every window cell is the clamped source pixel on both code paths; convolution with fixed and run-time kernels: the weighted sum over the reals for every channel"),
"C07": ("proof", "V", "`compose` of slice/2/3/many inputs, `try_` forms, `blend_image`: layout, argument order, default colours, first error, over the ghost call log"),
"C08": ("proof", "V", "`interlace`: exact source column for every offset, no overflow"),
"C09": ("proof", "VR + V", "resize: dimensions for every filter, identity for the same size, nearest picks source pixels, uniform stays uniform (weights normalised); rotate: dimensions, identity at 0/360 nearest, source or background, uncovered = background; rotate's in-image test over the reals"),
"C10": ("proof", "VR + K + N", "constructors and adjustments: range and never-NaN bit-precisely (K); over the reals: range, neutral parameters give the colour back exactly (through HSL: up to the tolerance of its hue), invert twice, grays; hue rotation by any whole number of turns gives the colour back over the reals, its range bit-precisely (K)"),
"C11": ("proof", "K", "every conversion and adjustment keeps alpha bit for bit (full symbolic colours, libm results arbitrary); with_channel frames"),
"C12": ("proof", "VR + K", "HSL/HSV round trips, ranges, grays over the reals; ranges and never-NaN bit-precisely"),
"C13": ("proof", "VR + N", "YUV, XYZ, Lab, LCh round trips for every illuminant and observer, grays and white, over the reals with explicit bounds from the published constants"),
"C14": ("proof", "VR + K", "the five per-channel blends: exact interpolation formula, alpha and neutral cases over the reals, ranges and neutral cases bit-precisely on symbolic colours; HSL blends stay in range, HSL and LCH blends with intensity 0 give colour and alpha back (hue interpolation across the wrap included)"),
"C15": ("proof", "VR + K", "range, fixed points, monotone up to 2e-7, mutually inverse over the reals, colour conversion applies them to three channels; range bit-precisely"),
"C16": ("proof", "VR + K", "every 8/16-bit sample is restored (colour, gray, alpha) through the real decode and encode functions, nearest sample and monotone over the reals; quantiser bit-precisely"),
"C17": ("proof", "VR + N", "the packing functions (exact length, order, endianness, luma, value of every sample), `encode_png/bmp/ico` (the layout declared to the codec is the layout of the data, errors only from the codec, nothing stored twice or dropped), `decode_png`, `read_into_buffer`, `decode_bmp/ico` (every pixel from its own samples, opaque without alpha), and the theorem that a PNG frame in one of the eight layouts decodes to the quantised pixels; `decode_webp` and `encode_webp` with their unsafe blocks under contract (buffers within bounds, exactly the frame handed over and given back, lossless settings), libwebp behind an assumed contract"),
"C18": ("proof", "V + K", "`Format::from_path`, `EncodingFormat::from_path`/`format` and the default constructors, `decode`, `decode_buffer`, `decode_file`, `encode`, `encode_to_file`: for every name, stream and image the codec used is that of the recognised or named format, names without a known extension are errors; `Format::from_reader` bit-precisely on every stream of up to 16 bytes with arbitrary read splits (12 bytes are looked at)"),
"C19": ("proof", "V", "every command's `execute`, `Queue::run`, all builders, over a threaded world with an effect log: order, exactly once, first error, missing image, arguments"),
"C20": ("proof", "VR + K", "the copying and the in-place form of all four noise operations on every image (random and gaussian noise at the RGB colour type): the same relation between each pixel before and after holds for both, for every random source, dimensions kept; the same bit-precisely on one symbolic pixel"),
"C21": ("proof", "V + K", "equality, transparency and grayness of every colour type bit-precisely; buffers: exists/forall over all pixels"),
"C22": ("proof", "VR + N", "every filter of the statement down to the pixel: over the reals no division by zero, root of a negative number or undefined power for any image with channels in [0, 1] and any parameters (radius up to 8191; lightness factor within -2..2), same dimensions, no overflow or panic; tonal and colour filters give channels in [0, 1]. Not-a-number by rounding or overflow of f32 is left to the executable contracts on the real filters"),
"C23": ("proof", "VR", "copying and in-place form: nearest entry, first on a tie, dimensions, for every palette and image; applying a palette a second time changes nothing"),
"C24": ("proof", "V + VR", "constructors, accessors, mapping, operation, compose, opening and saving methods: equals the named operation with the same arguments, receiver unchanged, background kept; resize by percentage over the reals"),
"C25": ("proof", "V + N", "the wrapper methods of the Python module, extracted without the pyo3 attributes: every method of `Image` passes its arguments, in order and with the documented defaults, to the operation of the same name and gives back exactly its result, a name that does not parse and a failing operation become an exception; constructors, pixels and lists; the format constructors; every method of the colour classes (expanded from `color_type!`: constructors, channels, conversions, comparisons, illuminant and observer by name). Left to the executable contract, which runs the built module under CPython against the Rust operations: pyo3's argument conversion, functions passed in from Python, numpy arrays, files"),
"C28": ("proof", "V + N", "`FromStr` of the fifteen types with names: every name gives its variant, every other text is refused, for every text"),
"C29": ("proof", "V + N", "`Queue::new/push/is_empty`, `parse_intensity`, every handler of the option table (the closures of `create_args`, each by its own contract), the builders of the table, `create_args` (the table is the list of options of the statement), `parse_arg`, `parse` (the queue is what the arguments stand for, for every argument list), `main` over a threaded process (what is run, message, exit status)"),
"C27": ("proof", "VR + N", "`new_gaussian` of both kernel types (weights at least 0 with sum 1 for every radius up to 8191 and every sigma), `get_default_sigma`, `apply_kernel`, `apply_kernel_dyn`, `gaussian_blur` (dimensions, neighbourhood minimum and maximum per channel, uniform images kept), `unsharp`, `despeckle`, `symmetric_nearest_neighbor` (dimensions, uniform images kept, [0, 1] kept; radius up to 2^26, images below 2^30 in each dimension), their per-pixel closures lifted to functions under contract"),
}
TECH = {"V": "contracts on the extracted real code, Verus", "VR": "contracts on the extracted real code over the reals, Verus", "K": "bit-precise function contracts on the real code, Kani", "N": "executable contracts on the real code (bounded)"}


def technique(p): return "; ".join(TECH[x] for x in M[p][1].split(" + "))


def note(p):
    n = M[p][2].replace("`", "")
    a = []
    if "VR" in M[p][1]: a.append(RE)
    if "V" in M[p][1]: a.append("trusts Verus/Z3, the lowering rules of lib/rast.py and the trusted std contracts listed in the evidence")
    if "K" in M[p][1]: a.append("trusts Kani/CBMC and the stated libm contracts")
    if "N" in M[p][1].split(" + "): a.append("the executable contracts are bounded and not counted as proved")
    return n + ". Assumes: " + "; ".join(a) if p else n
