"""Per-property check configuration."""
CHECKS = {
 "C01": dict(verus=["C01.vs"], secs=5, bounded=["rayon twin crop_parallel: companion only"],
   note="all six in-place/allocating permutation functions and crop: full functional postconditions for every size; image crate accessors are assumed contracts",
   assumptions=["image dimensions are arbitrary u32; pixel type abstract (any Pixel)"]),
 "C02": dict(verus=["C02.vs"], secs=5,
   note="replace/overlay and their in-place forms: the exact new picture as a postcondition for every size and offset; Pixel::blend is uninterpreted"),
 "C04": dict(verus=["C04.vs"], secs=4,
   note="every Rect accessor, intersect and contains: exact postconditions over all i32/u32 values, plus a lemma that containment and intersection agree"),
 "C05": dict(verus=["C05.vs"], secs=6, bounded=["accumulator types other than u32, and variance (f64): companion only"],
   note="integral_image(_impl), integral_squared_image, sum_image_pixels and the ArrayData impls proved for every pixel type with u32 accumulators, plus a lemma composing them into the rectangle-sum property",
   assumptions=["generic T instantiated at u32; the totals fit u32 (as the property says)"]),
 "C06": dict(verus=["C06.vs"], secs=6,
   note="row/column running sums and box_filter: exact postconditions for every size and radius in range",
   assumptions=["(size + 2 radius + 1) * 255 fits u32, the domain of the property"]),
 "C07": dict(verus=["C07.vs"], secs=6,
   note="median_filter and its incremental histograms (HistSet, slide_right, slide_down_column, slide_up_column): the exact window median of every channel at every pixel of every image, for every radius pair",
   assumptions=["(2rx+1)(2ry+1) < 2^31 and side + radius <= i32::MAX", "median = the sample of rank n/2 (0-based) of the n window samples"]),
 "C08": dict(verus=["C08.vs", "C08g.vs"], secs=6, bounded=["rayon twins and gaussian_blur_f32: companion only"],
   note="Kernel::new (returns only for data matching the dimensions), get, get_unchecked; filter, filter_clamped, horizontal_filter, vertical_filter, separable_filter(_equal): the exact (row-major) sum of kernel terms over the border-extended window at every pixel, for every image and kernel size and any accumulator type; the Sobel, Scharr, Prewitt, Laplacian and sharpening filters with their documented kernels (no overflow), gradients(_grayscale), sobel_gradients, prewitt_gradients, sobel_gradient_map: the integer magnitude of the two correlations (below 2^24)",
   assumptions=["the mapping function is Fn (no state)", "num::Num operators compute fixed commutative functions", "no partial sum leaves the accumulator's range", "side + kernel length <= i32::MAX"]),
 "C09": dict(verus=["C09.vs"], secs=6,
   note="threshold(_mut) and adaptive_threshold: exact postcondition at every pixel, callees by contract (C05)",
   assumptions=["width*height*255 fits u32 for adaptive_threshold"]),
 "C10": dict(verus=["C10.vs"], secs=6,
   note="histogram, cumulative_histogram, percentile, min_max: exact counting postconditions for every image",
   assumptions=["fewer than 2^32 pixels; min_max instantiated at u8"]),
 "C11": dict(verus=["C11.vs"], secs=5, bounded=["rayon twins *_parallel: companion only"],
   note="all sequential map_* functions and channel conversions: postconditions quantify over the mapping function's own contract",
   assumptions=["iterator adapters of the image crate expanded to index loops in their documented order"]),
 "C17": dict(verus=["C17.vs"], secs=6,
   note="suppress_non_maximum: the exact output image for every image and radius; local_maxima: exactly the unbeaten items, in sorted order",
   assumptions=["pixel order of suppress_non_maximum instantiated at a total order; f32 comparisons uninterpreted (any answer)", "std sort_by_key yields a permutation sorted by the key", "items have y < u32::MAX"]),
 "C20": dict(verus=["C20.vs"], secs=6, bounded=["draw_vertical_seams: companion only"],
   note="set_path_energy, find_vertical_seam (validity and minimality over all seams), remove_vertical_seam and shrink_width; the gradient image enters through an assumed contract (same size, energies <= 65535)",
   assumptions=["height <= 65537 so that path energies fit u32"]),
 "C24": dict(verus=["C24.vs"], secs=6,
   note="draw_cross(_mut), draw_filled_rect(_mut), draw_hollow_rect(_mut), draw_line_segment_mut, BresenhamLineIter, draw_if_in_bounds over any canvas: exactly the shape's canvas pixels change, once each",
   assumptions=["canvas sides at most i32::MAX; hollow rectangles have coordinates within +-2^23", "IEEE f32 axioms of verus/ieee.rs (integers up to 2^24 and their halves are exact)"]),
 "C25": dict(verus=["C25.vs"], secs=5,
   note="flood_fill(_mut): exactly the 4-connected region of the seed's colour is recoloured, for every image, seed and fill colour; termination included",
   assumptions=["pixel equality is structural; sides below i32::MAX"]),
 "C03": dict(kani=["c03"], kani_n=20, secs=4,
   note="every Clamp implementation on the crate's compiled code, for every value of the source type (loop-free: complete, no bound)",
   assumptions=["NaN excluded"]),
 "C19": dict(verus=["C19.vs"], kani=["c19"], kani_n=4, secs=4,
   note="local_binary_pattern: exact bits for every image and position (Verus); min_shift, count_transitions and both tables for every byte (Kani, complete)",
   assumptions=["local_binary_pattern instantiated at GrayImage"]),
 "C26": dict(verus=["C26.vs"], secs=6, bounded=["phash (floating-point DCT) and the choice of random test pairs: companion only"],
   note="Bits64 (new, set/unset/read, hamming_distance) with the metric laws as lemmas; BriefDescriptor distance and bit subsets; brief_impl: every test pair has its own bit; match_binary_descriptors: only pairs below the threshold",
   assumptions=["count_ones counts one bits; HashMap is a finite map; floor(log2(len)) <= 64; test pairs lie in the 31x31 patch; length >= 128"]),
 "C12": dict(verus=["C12e.vs", "C12.vs"], secs=6,
   note="euclidean_squared_distance_transform (1d lower envelopes, intersection, row and column access): the exact minimum squared distance at every pixel, infinite without foreground; distance_transform(_mut, _impl) for L1 and LInf: the exact saturated distance by the two-pass path-decomposition argument; for L2: the exact distance rounded up, saturated",
   assumptions=["IEEE 754: f64 +, -, * of integers are exact up to 2^53, a rounded quotient of such integers never crosses an integer, comparisons are exact (nothing idealised)", "L2 and squared transforms: both sides at most 2^26", "ceil(clamp(sqrt(n))) of an exact integer n is the least r with r*r >= n, at most 255"]),
 "C13": dict(verus=["C12e.vs", "C13.vs"], secs=6,
   note="dilate, erode, open, close and their in-place forms, all three norms: exactly the set operations by the norm's ball, on the proved contracts of the distance transforms (C12)",
   assumptions=["k <= 254 (k = 255 is a known finding)", "those of C12"]),
 "C14": dict(verus=["C14.vs"], secs=6,
   note="Mask::square, diamond, disk, from_image: exactly the stated offsets, in order; mask_reduce and grayscale_dilate/erode/open/close: the extreme over the clipped mask at every pixel of every image",
   assumptions=["itertools::chunk_by groups the mask's points by row", "iterator chains of the constructors expanded to loops; chunks/skip/zip expanded to row and column indices"]),
 "C16": dict(verus=["C16.vs"], secs=4,
   note="DisjointSetForest new, root, find, union, num_trees, trees against the representative function; history theorem: after any sequence of unions the classes are the equivalence closure of the united pairs; sizes and termination included",
   assumptions=["HashMap is a finite map (trees only)"]),
 "C15": dict(verus=["C15.vs"], secs=6,
   note="connected_components on any image: foreground labels agree exactly when a path of equal-valued neighbours joins the pixels, background gets 0, labels appear consecutively in raster order; union-find enters through its proved contract (C16)",
   assumptions=["pixel equality is structural", "fewer than 2^32 - 1 pixels", "GenericImage instantiated at Image<P>"]),
 "C18": dict(verus=["C18.vs"], secs=5,
   bounded=["oriented_fast without a threshold (random sample): any threshold is allowed by the contract; companion checks the corners returned"],
   note="corners_fast9/12, is_corner_fast9/12, search_span, get_circle, fast_corner_score: exactly the segment-test corners in raster order with the largest passing threshold, for every image and threshold; oriented_fast: the top-scoring corners of the margin with the orientation of the exact clipped moments",
   assumptions=["std sort_by yields a permutation ordered by its comparator; atan2 is an uninterpreted function of the exact moments", "sides at most i32::MAX and fewer than 2^32 pixels for oriented_fast"]),
 "C22": dict(verus=["C22.vs"], secs=6, bounded=["rayon twins match_template*_parallel: companion only", "float rounding once a sum exceeds 2^24: companion, relative tolerance 1e-4"],
   note="match_template, match_template_with_mask and all eight scoring methods: the exact documented sums (while below 2^24, where f32 is exact) over every placement, normalised forms as num / sqrt(ii * tt); find_extremes: true extremes at the first raster position",
   assumptions=["template at least 1x1", "IEEE f32 +, -, * are exact on integers up to 2^24 (verus/float.rs); powi(2) is exact when representable; sqrt and / deterministic", "slide_window_at inlined by beta-reduction (G15)"]),
 "C23": dict(verus=["C23.vs"], secs=5,
   note="evaluate equals the signed block sums for every feature inside 255 x 255; enumerate_haar_features lists exactly the fitting features, each once, number_of_haar_features counts them, for every frame up to 255 x 255",
   assumptions=["itertools cartesian_product (lexicographic pairs), map/collect on it and array into_iter().flat_map().collect() as documented", "evaluate's integral image is the exact integral of some 8-bit image (C05)", "the companion reads a feature's blocks off draw_haar_feature"]),
 "C27": dict(verus=["C27.vs"], secs=4,
   note="translate: the exact clamped source pixel at every position for every pixel type, image and i32 offset",
   assumptions=["slice copy_from_slice on whole pixels (row segments) as documented; sides at most i32::MAX"]),
 "C28": dict(verus=["C28.vs"], secs=5,
   note="stretch_contrast(_mut): the exact linear map with clamping; equalize_histogram(_mut), match_histogram(_mut), histogram_lut: one non-decreasing table applied to every pixel",
   assumptions=["IEEE monotonicity of f32 division, subtraction, multiplication by a positive constant, min, abs and u32/u8 conversions", "cumulative_histogram's contract is discharged by C10", "rayon's par_iter_mut visits every pixel once"]),
 "C21": dict(verus=["C21.vs"], secs=5,
   note="hysteresis: white exactly on the closure of the strong pixels under the directions the code follows (every white pixel lies on an 8-neighbour chain: lemma; the missing directions are the known finding), termination, all indices in range; non_maximum_suppression keeps a pixel or zeroes it and never touches the border; canny: dimensions and the hysteresis precondition",
   assumptions=["low threshold above 0; width * height < 2^32", "f32 comparisons are fixed predicates, total on non-NaN operands", "gaussian_blur_f32 and filter_clamped return images of the input's size"]),
 "C29": dict(verus=["C29.vs"], secs=5, bounded=["placement of each cell's histogram inside its block: companion only"],
   note="from_options accepts exactly the compatible options and its counts tile the image exactly; descriptor_length and hog's output length are the block count times the block length; View3d offset is a bijection between in-range triples and storage positions; every access of cell_histograms and the block assembly is in range",
   assumptions=["descriptor and grid sizes fit usize", "f32 angle / bin width stays below the number of orientations (exercised by the companion)", "the two Sobel images have the input's size"]),
 "C35": dict(verus=["C35.vs"], secs=6,
   note="detect_lines: the votes of every bin, non-maximum suppression (inlined from C17's contract) and the reported lines in order, for every image, threshold from 1 and radius",
   assumptions=["sides at most 2^23 and fewer than 2^32 pixels", "sin/cos and f32 arithmetic are fixed functions (the bin of a pixel and angle is named by them); sqrt of w^2+h^2 in f64 truncates to at most 2^24"]),
 "C37": dict(verus=["C37.vs"], secs=6, bounded=["range of the result (float rounding): companion; known finding bilateral-truncation"],
   note="gaussian_weight, weighted_average, bilateral_filter: every channel is the quotient of the two f32 sums over the clamped window in row-major order, with the weight of its own offset and colours, for every image size and radius; no overflow, every index in range",
   assumptions=["f32 operations are fixed functions (no algebraic law is used)", "ColorDistance is a pure function; sides at most 0x7fffff00", "itertools cartesian_product/collect_vec/zip_eq and reduce as documented"]),
 "C32": dict(verus=["C32.vs"], secs=6,
   note="warp, warp_into, warp_with, warp_into_with, warp_inner, interpolate_nearest/bilinear/bicubic, lerp, blend_bilinear, blend_cubic, Projection::map_*/invert: every output pixel is the interpolated source at the mapped position, or the default; lemmas: bilinear stays within its corners' range for u8, nearest at integer positions is the pixel itself",
   assumptions=["source sides at most 2^24", "IEEE f32 axioms of verus/ieee.rs (+, -, x, / are the rounded exact operations; floor, round and casts as documented); NaN payloads identified", "the mapping is a function of the coordinates (Fn)", "rayon's par_chunks_mut visits every row once", "which point a projection maps to is C39"]),
 "C39": dict(verus=["C39.vs"], secs=6, bounded=["from_control_points (linear solver of nalgebra): companion only, convex quadrilaterals"],
   note="from_matrix, try_inverse, normalize, class_from_matrix, mul3x3, translate, rotate, scale, invert, mul (by projection and by point), and_then, map_*: the stored inverse is the inverse matrix up to scale, kept by every constructor and by composition; composition is the matrix product in the documented order; theorem: the inverse undoes the projection at every point where it is defined",
   assumptions=["f32 arithmetic is treated as exact real arithmetic (rounding, overflow and NaN are not modelled; the companion compares with f64)", "sin_cos returns a pair with s^2 + c^2 = 1"]),
 "C33": dict(verus=["C33.vs"], secs=6, bounded=["ellipses (FnMut closures over f32), antialiased lines, the pixel iterators, lines between fractional points: companion only"],
   note="BresenhamLineIter::new/next, draw_line_segment(_mut), draw_hollow_circle(_mut), draw_filled_circle(_mut): exact pixels on any canvas; theorems: every step of the longer axis has the nearest integer on the other, both ends included, neighbours touch; circle points are within half a pixel of the ideal circle, the outline is 8-connected; the disk holds every point within the radius",
   assumptions=["integer endpoints within +-2^22 (axis-parallel: 2^23); |radius| <= 2^29 and |centre| <= 2^30 for circles, 2^22 for disks; canvas sides at most i32::MAX", "IEEE f32 axioms of verus/ieee.rs"]),
 "C31": dict(verus=["C31.vs"], secs=6, bounded=["that a region has no second outer border, that each hole has exactly one hole border, and that the parent is the directly enclosing border (planar topology, Jordan curve arguments): companion with an independent region-tree oracle"],
   note="rotate_to_value, find_contours_with_threshold, find_contours, Point::new/to_i32/+/-, Contour::new: every contour is exactly the orbit of border following from its start pixel (closed, 8-adjacent foreground points, no repeated step), following terminates, starts strictly increase in reading order, the first pixel of every 8-connected region starts an outer border, parents come earlier and are of the other type",
   assumptions=["VecDeque is a sequence whose iter().position and rotate_left do what std documents", "num's casts between usize, i32 and T are exact in range; T is taken as i32", "the in-bounds closure and the iterator find_map are verified as helper functions with the same text"]),
 "C34": dict(verus=["C34.vs"], secs=6, bounded=["min_area_rect, rotating_calipers and Rotation (float trigonometry; least area): companion against an exhaustive search over the hull's edges"],
   note="convex_hull, orientation, approximate_polygon_dp, arc_length, contour_area, oriented_contour_area, distance(_sq), Line::from_points/distance_from_point, Point::new/to_f64/to_i32: the Graham scan returns the strictly convex counter-clockwise hull of any set of points (duplicates and collinear runs included); the approximation is a subsequence with every dropped point within epsilon",
   assumptions=["f64 arithmetic is treated as exact real arithmetic (hull distances only order collinear lattice points)", "convex_hull is verified for i32 points with |coordinate| < 2^30", "sort_by with a total order sorts; Vec::retain keeps the elements satisfying the predicate, in order", "num's casts are exact on the integers used", "the loop filling remaining_points, whose result is unused, is dropped by the extraction"]),
 "C36": dict(verus=["C36.vs"], secs=6, bounded=["distribution of the noise (mean, variance, independence, share of changed pixels): companion"],
   note="gaussian_noise(_mut), salt_and_pepper_noise(_mut): the exact output as a fold over the generator's states from the seed, for every image; theorems: equal inputs and seeds give equal outputs, allocating and in-place forms agree, salt-and-pepper pixels are unchanged, black or white",
   assumptions=["rand's seed_from_u64 and sample are functions of the seed and the generator's state", "finite standard deviation", "f64 operations are fixed functions"]),
 "C38": dict(verus=["C38.vs"], secs=6, bounded=["f64 rounding: companion with exact integer arithmetic, relative tolerance 1e-9"],
   note="otsu_level: the level splits the image whenever one does, and no other level has a larger between-class variance; level 0 for single-valued images; histogram by C10's contract; no integer overflow",
   assumptions=["f64 arithmetic is treated as exact real arithmetic (the sums are integers below 2^53)", "fewer than 2^32 pixels"]),
 "C30": dict(verus=["C30.vs", "C05.vs", "C06.vs", "C07.vs", "C08.vs", "C08g.vs", "C12e.vs", "C12.vs", "C15.vs", "C16.vs", "C17.vs", "C18.vs", "C19.vs", "C21.vs", "C22.vs", "C23.vs", "C26.vs", "C28.vs", "C35.vs", "C37.vs"],
   unchecked=True, secs=20, secs_thorough=240,
   uncontracted=["filter_parallel", "<BresenhamLinePixelIterMut<'a, P> as Iterator>::next"],
   bounded=["filter_parallel and BresenhamLinePixelIterMut::next (pointer reborrow): companion only, on an image crate whose unchecked accessors check their coordinates"],
   note="every function with unsafe code (enumerated from the source on every run) is under contract except two named ones; each unchecked access is an obligation 'coordinates inside the image' in the checks of its own property, all of which are redone here; interpolate_nearest/bilinear/bicubic get their own contract",
   rule="release arithmetic, std unsafe-precondition checks on, checking copy of the image crate's unchecked accessors; generators of all properties with unchecked accesses.",
   assumptions=["ImageBuffer's data length matches its dimensions (type invariant of the image crate)", "the assumptions of the listed properties' checks", "f32 casts saturate; f32 values of integers up to 2^24 are exact, rounding is monotone"]),
}
NOT_APPLICABLE = {}
