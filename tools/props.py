#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json, os
P=[]
def p(id,title,stmt,qtext,why,files,mech,over=("inputs",),observe=None,state=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=list(over),text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None))
    if state: d["anchors"]["state"]=state
    assert len(title)<=80,title
    P.append(d)

p("C01","Quarter/half turns, flips and crops are exact pixel permutations",
 "Rotating by 90, 180 or 270 degrees, flipping horizontally or vertically, and cropping move every pixel of the source to exactly the position geometry dictates, with the correct output dimensions, changing no pixel value, duplicating none and dropping none inside the output. This holds for every width and height, including zero, one, odd, even and non-square sizes, for the in-place and the allocating variants alike.",
 "every image size and content, every crop rectangle inside the image",
 "unit tests use one or two fixed small images; the statement is over all sizes and every coordinate.",
 ["src/compose.rs","src/geometric_transformations.rs"],
 [("crop","src/compose.rs"),("flip_horizontal_mut / flip_vertical_mut","src/compose.rs"),("rotate90/180/270 and their _mut forms","src/geometric_transformations.rs")])
p("C02","Replacing and overlaying an image touches exactly the overlapped region",
 "Placing one image on another at an offset inside it writes the top image's pixel (replace) or the top pixel blended onto the bottom pixel (overlay) at every position covered by both images, up to and including the last column and row of the bottom image. Every other pixel of the bottom image is left unchanged, and the part of the top image that would fall outside the bottom image is ignored.",
 "every pair of image sizes, every offset inside the bottom image",
 "tests use a single small placement that never reaches the far border of the bottom image.",
 ["src/compose.rs"],[("replace_mut, overlay_mut","src/compose.rs")])
p("C03","Numeric conversion into a pixel channel saturates and never wraps",
 "Converting a number to a narrower channel type yields the type's minimum for values at or below it, its maximum for values at or above it, and otherwise the value truncated toward zero; identity conversions return their argument unchanged. No input of the source type, including infinities, can wrap around.",
 "every value of every supported source type (i16,u16,i32,u32,f32,f64 into u8/u16/i16) ",
 "tests sample eight values of two of the conversions.",
 ["src/definitions.rs"],[("Clamp implementations","src/definitions.rs")])
p("C04","Rectangle arithmetic: bounds, containment and intersection agree",
 "For rectangles whose right and bottom edges are representable as signed coordinates, a point is contained exactly when it lies between the left/top and the inclusive right/bottom edges. The intersection of two rectangles contains exactly the points contained in both, and is absent exactly when they share no point.",
 "every pair of non-empty rectangles whose edges fit in i32, every point",
 "tests check a handful of rectangle pairs.",
 ["src/rect.rs"],[("Rect, Region","src/rect.rs")])
p("C05","Integral images give the exact sum of every sub-rectangle",
 "The integral image of an image has one more row and column than the image and holds, at (x, y), the sum (or the sum of squares) of all pixels strictly above and left of (x, y), per channel. Summing any in-bounds rectangle through it returns exactly the sum of that rectangle's pixels, as long as the totals fit the accumulator type.",
 "every image whose totals fit the accumulator, every in-bounds rectangle",
 "tests use tiny fixed images; the statement covers all sizes and all rectangles.",
 ["src/integral_image.rs"],[("integral_image, integral_squared_image, sum_image_pixels, variance","src/integral_image.rs")])
p("C06","Box filtering and running sums equal windowed sums with repeated borders",
 "Row and column running sums hold, at each index, the total of all pixels up to it when the line is extended on both sides by repeating its end pixels by the padding amount. The box filter's output at every pixel is the integer mean of the (2rx+1) by (2ry+1) window around it computed row-wise then column-wise with borders repeated, and it has the input's size.",
 "every image size and content with sums in range, every radius including ones larger than the image",
 "tests sample a few radii on small images.",
 ["src/filter/box_filter.rs","src/integral_image.rs"],[("box_filter","src/filter/box_filter.rs"),("row_running_sum, column_running_sum","src/integral_image.rs")])
p("C07","Median filtering returns the exact per-channel window median",
 "Every output channel of the median filter is the median of that channel over the (2rx+1) by (2ry+1) window centred on the pixel, with border pixels repeated outside the image. This holds for every image size, including empty images and images smaller than the window, and for every radius pair; a zero radius in both directions is the identity.",
 "every image size and content, every pair of radii whose window has fewer than 2^31 pixels",
 "the sliding histogram has per-row and per-border-side special cases that sampled sizes do not cover together.",
 ["src/filter/median.rs"],[("median_filter with incremental histograms","src/filter/median.rs")])
p("C08","Linear filtering is correlation with the kernel, borders repeated",
 "Filtering with a kernel produces at every pixel and channel the correlation of the kernel with the window centred there (the kernel's centre is at half its width and height, rounded down), reading outside the image as the nearest border pixel, passed through the given function or clamped to the output type, in the input's dimensions. The horizontal and vertical filters give the clamped result of the general filter with the corresponding one-row or one-column kernel, the separable filter is the vertical filter of the horizontal filter's result, the named gradient, Laplacian and sharpening filters are the filters with their documented kernels, and parallel variants equal the sequential ones. A kernel cannot be built from data that does not match its dimensions.",
 "every image size (including smaller than the kernel), every kernel size and value, integer and float kernels, as long as the sums stay in the accumulator's range",
 "tests use fixed kernels on fixed sizes; kernel/border/size combinations are unbounded.",
 ["src/filter/mod.rs","src/kernel.rs","src/gradients.rs"],[("filter, filter_clamped, horizontal_filter, vertical_filter, separable_filter","src/filter/mod.rs"),("Kernel access","src/kernel.rs")])
p("C09","Thresholding follows its definition at every pixel",
 "Each global threshold type maps every pixel to its defined value as a function of only that pixel and the threshold, with pixels equal to the threshold treated as not above it (binary: white above, black otherwise, or the reverse; truncate: at most the threshold; to zero: above the threshold becomes black, or the reverse). Adaptive thresholding sets a pixel to white exactly when it is at least the integer mean of its window clipped to the image minus the given delta, and to black otherwise.",
 "every image whose pixel total fits 32 bits, every threshold, block radius and delta",
 "tests sample a few thresholds on a small fixed image.",
 ["src/contrast.rs"],[("threshold_mut, adaptive_threshold","src/contrast.rs")])
p("C10","Histograms count every pixel once and derived statistics agree with them",
 "A histogram has, for every channel and value, exactly the number of pixels with that channel value; the cumulative histogram is its prefix sum, ending at the pixel count. The p-th percentile of a non-empty image is the smallest value such that at least the requested fraction of pixels is at most it, and per-channel minimum and maximum are the true extremes.",
 "every non-empty 8-bit image",
 "tests use images of a few pixels.",
 ["src/stats.rs"],[("histogram, cumulative_histogram, percentile, min_max","src/stats.rs")])
p("C11","Pixel mapping applies the function to every pixel and coordinate once",
 "Mapping a function over subpixels, pixels, or pixel pairs produces an output of the input's dimensions whose value at each position (and channel) is the function applied to the input value(s) at that same position, with the true coordinates passed for the position-aware forms. Channel extraction and gray conversions keep exactly the selected channel, and in-place and parallel variants agree with the allocating sequential ones.",
 "every image size and content, every mapping function",
 "tests use fixed 2-by-2 style images and a few closures.",
 ["src/map.rs"],[("map_subpixels, map_pixels, map_pixels2, red/green/blue_channel, as_*","src/map.rs")])
p("C12","Distance transforms give the true distance to the nearest foreground pixel",
 "For the L1 and LInf norms, every pixel of the distance transform is the exact distance to the nearest foreground (non-zero) pixel, saturated at 255; with no foreground at all the value everywhere is the same and at least the largest distance possible in the image (or 255). The L2 form is the exact Euclidean distance rounded up, saturated at 255. The squared Euclidean transform is the exact minimum squared distance.",
 "every image size and every placement of foreground pixels",
 "tests compare random images of fixed sizes to a brute-force reference; the two-pass recurrences are correct or not for all shapes.",
 ["src/distance_transform.rs"],[("distance_transform_impl two passes","src/distance_transform.rs"),("euclidean_squared_distance_transform","src/distance_transform.rs")])
p("C13","Binary morphology equals set dilation/erosion by the norm's ball",
 "Dilating by k sets a pixel to 255 exactly when some foreground pixel lies within distance k in the chosen norm, and to 0 otherwise; eroding by k keeps a pixel exactly when no background pixel of the image lies within distance k. Opening is erosion then dilation, closing is dilation then erosion, each by the same k, and in-place and allocating variants agree.",
 "every image, every norm, every radius 0..=255",
 "tests fix a few patterns and radii.",
 ["src/morphology.rs","src/distance_transform.rs"],[("dilate_mut, erode_mut, open_mut, close_mut","src/morphology.rs")])
p("C14","Grayscale morphology takes the extreme over the mask, clipped to the image",
 "Grayscale dilation (erosion) gives at every pixel the maximum (minimum) of the image over the structuring element's positions translated to that pixel and clipped to the image. Square, diamond and disk structuring elements of a radius contain exactly the offsets within that radius in the LInf, L1 and L2 norm, and masks built from an image contain exactly its foreground pixels relative to the given centre.",
 "every image, every mask shape and radius",
 "tests use fixed masks on 3x3 to 5x5 images.",
 ["src/morphology.rs"],[("Mask constructors and mask application","src/morphology.rs")])
p("C15","Connected-component labels partition the foreground exactly",
 "Two foreground pixels receive the same label exactly when a path of equal-valued neighbouring pixels (4- or 8-connected as requested) joins them; background pixels and only they receive 0. Labels are the consecutive integers 1..n in raster order of first appearance.",
 "every image, either connectivity, every background value",
 "which regions merge late depends on the whole image (spirals, combs); tests hold a few small patterns.",
 ["src/region_labelling.rs","src/union_find.rs"],[("connected_components two-pass labelling","src/region_labelling.rs")])
p("C16","Union-find answers equivalence for every sequence of unions",
 "After any sequence of unions, two elements have the same representative exactly when they are related by the equivalence closure of the united pairs. Querying a representative never changes the equivalence, the tree sizes equal the class sizes, and every query terminates.",
 "every forest size and every sequence of union/root operations",
 "histories are unbounded; the tests run one short fixed history.",
 ["src/union_find.rs"],[("DisjointSetForest root, find, union","src/union_find.rs")],over=("inputs","histories"),
 state=[dict(name="parent, tree_size",meaning="forest of trees and per-root sizes",where="src/union_find.rs")])
p("C17","Non-maximum suppression keeps exactly the local maxima",
 "Image non-maximum suppression leaves exactly the pixels that are the maximum of their clipped (2r+1)-square neighbourhood, ties going to the smallest position in (x, y) order, at their original value, and zeroes the rest. Local-maximum filtering of scored positions keeps exactly the items that no other item within the given radius (in both coordinates) beats: by a higher score, or by an equal score at a smaller position in (y, x) order.",
 "every image/point list and radius",
 "neighbourhoods at borders and ties in last rows and columns are not covered by fixed images.",
 ["src/suppress.rs"],[("suppress_non_maximum, local_maxima","src/suppress.rs")])
p("C18","FAST corner detection follows the segment-test definition everywhere",
 "A pixel at distance at least three from the border is reported exactly when at least 12 (or 9) contiguous pixels of its 16-pixel circle are all brighter than it plus the threshold or all darker than it minus the threshold. Pixels closer to the border are never reported, and a reported corner's score is the largest threshold for which it still is a corner. Oriented FAST keeps the requested number of highest-scoring corners at least the edge radius from every side (all, if there are fewer), in order of score, each with the direction of the intensity centroid of the 31-pixel window around it clipped to the image.",
 "every 8-bit image, every threshold (oriented FAST: a given threshold, every edge radius, corner count)",
 "the arc and early-exit logic has 2^16 bright/dark patterns; tests show about ten.",
 ["src/corners.rs"],[("is_corner_fast9/12, fast_corner_score, corners_fast9/12","src/corners.rs"),("oriented_fast, intensity_centroid","src/corners.rs")])
p("C19","Local binary patterns encode exactly the eight neighbour comparisons",
 "The local binary pattern of an interior pixel has the k-th bit (neighbours clockwise from the one directly above, least significant bit first) set exactly when the pixel is strictly brighter than that neighbour, and border pixels yield no pattern. The minimum-shift and uniform tables hold, for every byte, the smallest of its rotations and (for bytes with at most two circular bit transitions, 10101010 for the others) that same smallest rotation, and transition counts are exact.",
 "every image position and content; every byte",
 "tests check a few patterns and table entries.",
 ["src/local_binary_patterns.rs"],[("local_binary_pattern, min_shift, count_transitions, tables","src/local_binary_patterns.rs")])
p("C20","Seam carving removes a minimum-energy connected seam",
 "The vertical seam found has exactly one column per image row, consecutive columns differ by at most one, and its total gradient energy is minimal over all such seams. Removing it yields an image one column narrower whose rows are the original rows without the seam's pixel, repeating this reaches every target width of at least one, and drawing the removed seams marks exactly the original pixels that were removed.",
 "every image of width and height at least two",
 "optimality is a claim over exponentially many seams; tests use two tiny images.",
 ["src/seam_carving.rs"],[("find_vertical_seam, remove_vertical_seam","src/seam_carving.rs")])
p("C21","Edge hysteresis keeps exactly the chains connected to a strong edge",
 "The hysteresis stage of edge detection, applied to the gradient strengths left by non-maximum suppression, marks a pixel white exactly when it reaches the high threshold, or reaches the low threshold and is connected to such a pixel through 8-neighbour chains of pixels reaching the low threshold. All other pixels are black and the output has the input's dimensions.",
 "every image and every threshold pair with positive low threshold",
 "connectivity depends on the whole image; tests compare one picture with a stored one.",
 ["src/edges.rs"],[("canny, hysteresis","src/edges.rs")])
p("C22","Template matching scores every placement by definition; extremes are exact",
 "Template matching gives an image with one score per placement of the template inside the image, each equal to the defined sum of squared errors or cross-correlation over all (unmasked) template pixels at that placement, with the normalised forms divided by the defined norm (exactly while the sums stay below 2^24, where 32-bit floats are exact, and up to rounding beyond). The reported minimum and maximum of an image are its true extremes, at the first position in raster order attaining them, and parallel variants agree.",
 "every image, every non-empty template (and mask of its size) no larger than the image",
 "tests use one 3x3 image and 2x2 templates.",
 ["src/template_matching.rs"],[("match_template and variants, find_extremes","src/template_matching.rs")])
p("C23","Haar-like features evaluate to the signed block sums they denote",
 "A Haar-like feature evaluated on an integral image equals the sum over its blocks of block sign times the pixel sum of the block. The enumeration for a frame lists exactly the features that fit in the frame, each once, and as many as the closed-form count says.",
 "every feature and every image it fits in; every frame with sides up to 255",
 "tests evaluate a few features on tiny images.",
 ["src/haar.rs"],[("HaarFeature::evaluate, enumerate_haar_features, number_of_haar_features","src/haar.rs")])
p("C24","Drawing touches only the shape's pixels and clips safely at image borders",
 "Filled and hollow rectangles and crosses set exactly the pixels of the shape that lie on the canvas to the given colour and leave all other pixels unchanged, however the shape lies relative to the canvas. Allocating variants return the same picture without changing the input.",
 "every canvas size and every shape position and size, including partly and wholly outside (hollow rectangles: coordinates within 2^24 of the origin, exact in 32-bit floats)",
 "tests draw a few shapes; the space of partially clipped placements is unbounded.",
 ["src/drawing/rect.rs","src/drawing/cross.rs","src/drawing/canvas.rs"],[("draw_filled_rect_mut, draw_hollow_rect_mut, draw_cross_mut, draw_if_in_bounds","src/drawing")])
p("C25","Flood fill recolours exactly the 4-connected region of the seed",
 "Flood fill changes to the new colour exactly the pixels joined to the seed by 4-neighbour steps through pixels equal to the seed's colour, and no other pixel. It terminates for every image and seed inside it.",
 "every image, seed and fill colour",
 "region shape is unbounded; tests fill one small ring.",
 ["src/drawing/fill.rs"],[("flood_fill_mut","src/drawing/fill.rs")])
p("C26","Binary descriptors and perceptual-hash bit strings measure Hamming distance",
 "The Hamming distance between two equal-length bit strings is the number of positions where they differ, hence symmetric, zero exactly on equality, and satisfies the triangle inequality. Building a bit string from booleans places each boolean at its own bit, a BRIEF descriptor records every test pair's comparison of local means at a bit of its own, and descriptor matching returns only pairs, one from each list, whose distance is below the threshold.",
 "every pair of bit strings / descriptor lists",
 "tests compare a few constants.",
 ["src/image_hash/bits.rs","src/binary_descriptors/brief.rs","src/binary_descriptors/mod.rs"],[("Bits64, BriefDescriptor::hamming_distance, match_binary_descriptors","src/image_hash, src/binary_descriptors")])
p("C27","Translation shifts every pixel and repeats the border outside",
 "Translating an image by an integer offset gives an image of the same size in which each pixel equals the source pixel at its position minus the offset, with coordinates outside the source clamped to its nearest edge. The result is defined for every non-empty image and every offset whose magnitude fits the image coordinate range.",
 "every non-empty image, every representable offset",
 "tests shift one 4x3 image by three offsets.",
 ["src/geometric_transformations.rs"],[("translate","src/geometric_transformations.rs")])
p("C28","Contrast stretching and histogram equalisation are monotone table maps",
 "Linear contrast stretching maps inputs at or below the lower input bound to the lower output bound, inputs at or above the upper input bound to the upper output bound, and others to the integer-interpolated value in between. Histogram equalisation and histogram matching each apply one non-decreasing 256-entry table to every pixel, so equal inputs give equal outputs and order is preserved.",
 "every image and every valid set of bounds",
 "tests use one small image.",
 ["src/contrast.rs"],[("stretch_contrast_mut, equalize_histogram_mut, match_histogram","src/contrast.rs")])
p("C29","HoG descriptor layout: dimensions and indices are consistent",
 "For valid HoG options, cell and block counts cover the image exactly, the reported descriptor length is blocks wide times blocks high times the per-block length, and the descriptor returned has that length. Options that do not suit the image give an error, not a panic. A multi-dimensional view's flat index is a bijection between in-range index triples and storage positions, and each block holds the histograms of the cells it covers, row by row, up to the block's scale.",
 "every valid options/image-size combination, every in-range index triple",
 "tests check a couple of option sets.",
 ["src/hog.rs"],[("HogSpec, View3d indexing","src/hog.rs")])
p("C30","No unchecked pixel access is ever out of bounds",
 "Every operation that reads or writes pixels without bounds checks does so only at coordinates inside the image it accesses. This holds for every image, kernel, template, radius and region the operation accepts.",
 "every input accepted by the filters, template matchers, pattern and corner detectors and transforms that use unchecked access",
 "an out-of-bounds unchecked access is undefined behaviour that can pass any sampled test silently.",
 ["src/filter/mod.rs","src/filter/median.rs","src/integral_image.rs","src/template_matching.rs","src/local_binary_patterns.rs","src/distance_transform.rs","src/seam_carving.rs","src/corners.rs","src/gradients.rs"],[("unsafe_get_pixel / unsafe_put_pixel / get_unchecked call sites","src")])
p("C31","Contour following returns the true borders of every region",
 "Each contour is the closed walk of one border, followed in constant rotation from its start pixel: consecutive points are 8-adjacent foreground pixels, each next point is the first foreground neighbour met turning about the current one from the previous one, no step is taken twice, and a single isolated pixel gives a single point. An outer border starts at a pixel with background (or the image edge) on its left, a hole border at one with background on its right. Every 8-connected foreground region has exactly one outer border, starting at its first pixel in reading order, and one hole border for each of its holes; the pixels of each border are exactly those of the region that touch the enclosing background. The parent of a border is the border directly enclosing it (of the other type, earlier in the list; none for a region in the outermost background). Border following always ends. Contours are listed by start pixel in reading order.",
 "every image (sides below 2^31, fewer than 2^31 pixels), every threshold",
 "tests draw a few nested shapes; where borders start, end and nest depends on the whole image.",["src/contours.rs"],[("find_contours, find_contours_with_threshold, rotate_to_value","src/contours.rs")])
p("C32","Warping samples the source at the pre-image of each output pixel",
 "Warping sets every output pixel to the source interpolated at the pre-image of its own coordinates under the given mapping (for a projection, the inverse projection applied to them), and to the default colour when a pixel of that position's interpolation support falls outside the source. Nearest-neighbour interpolation gives the pixel whose unit square holds the position, bilinear interpolation blends the four surrounding pixels with the position's fractions and stays within their range for integer pixels, and bicubic interpolation blends the sixteen surrounding ones (it needs one further column and row of source to the right and below).",
 "every image and output size (including empty), every mapping or invertible projection, every interpolation",
 "tests use a few small images and projections; the support test and rounding must hold at every position.",["src/geometric_transformations.rs"],[("warp, warp_into, warp_with, warp_into_with, warp_inner","src/geometric_transformations.rs"),("interpolate_nearest/bilinear/bicubic, blend_bilinear, blend_cubic","src/geometric_transformations.rs")])
p("C33","Lines and conics are drawn connected and close to the ideal curve",
 "A line between two integer points has exactly one pixel for each step along its longer axis, both ends included, and there takes the integer nearest to the ideal segment on the other axis, so neighbouring pixels touch. In each octant a circle's outline takes the integer nearest to the ideal circle; a filled circle holds every point within the radius and nothing outside its outline. An ellipse's outline is connected, symmetric, within a pixel of the ideal ellipse and reaches its four axis ends, and the filled ellipse holds the outline and everything inside it. An antialiased line blends, at each step, the two pixels around the ideal line with weights adding to one. Only canvas pixels of the shape change, and drawing never fails for shapes leaving the canvas.",
 "every canvas; integer endpoints within 2^22 of the origin (fractional or farther ones: no failure), circles with |radius| up to 2^29 and |centre| up to 2^30, disks up to 2^22",
 "tests draw a handful of shapes; rounding, octant symmetry and clipping must hold for every slope, radius and placement.",["src/drawing/line.rs","src/drawing/conics.rs"],[("BresenhamLineIter, draw_line_segment, draw_antialiased_line_segment","src/drawing/line.rs"),("draw_hollow_circle, draw_filled_circle, draw_hollow_ellipse, draw_filled_ellipse","src/drawing/conics.rs")])
p("C34","Convex hulls, areas, lengths and polygon approximation are the geometric ones",
 "The convex hull of a set of points consists of points of the set, in counter-clockwise order (x right, y up) from the lowest, then leftmost point, strictly convex, without repeats, with every point of the set on or to the left of each of its edges; repeated and collinear points included. The oriented contour area is the shoelace sum, the contour area its absolute value, and arc_length the sum of the lengths of the sides (closing side included on request, from three points on). The polygon approximation keeps a subsequence from the first to the last point such that every dropped point is within epsilon of the line through the kept points around it (of the point itself where the two coincide); a closed one drops the last point. The minimum-area rectangle contains the points (up to rounding to integers) and no smaller one exists.",
 "every set or sequence of points with coordinates below 2^30 in magnitude, every epsilon > 0",
 "tests use a few pictures of points; the hull must be right for every configuration, with ties, duplicates, collinear runs and large coordinates.",["src/geometry.rs","src/point.rs"],[("convex_hull, orientation, approximate_polygon_dp, min_area_rect, contour_area, arc_length","src/geometry.rs"),("distance, Line","src/point.rs")])
p("C35","Hough line detection finds exactly the lines with enough votes",
 "Every non-zero pixel votes, for each of the 180 whole-degree angles, for the line through it at its (truncated) signed distance from the origin. The lines reported are exactly the bins of the vote table that hold at least the threshold (one or more) and that no bin within the suppression radius in distance and angle exceeds (ties go to the smaller distance, then the smaller angle), each once, in order of angle and then distance.",
 "every image with sides up to 2^23, every threshold from 1 and every suppression radius",
 "tests use one small image; whether a bin is reported depends on all votes of the image around it.",["src/hough.rs","src/suppress.rs"],[("detect_lines","src/hough.rs"),("suppress_non_maximum","src/suppress.rs")])
p("C36","Noise generation is a deterministic function of its seed",
 "Adding noise with a given seed always gives the same output for the same input, in place or not. Gaussian noise adds to each channel of each pixel its own sample of the normal distribution with the given mean and standard deviation and clamps to the channel's range. Salt-and-pepper noise leaves each pixel unchanged or, with probability equal to the rate, makes it black or white with equal probability.",
 "every image, finite mean and standard deviation, rate and seed",
 "tests fix a seed or only benchmark; which sample reaches which channel, and the clamping, must hold for every image and seed.",["src/noise.rs"],[("gaussian_noise_mut, salt_and_pepper_noise_mut","src/noise.rs")])
p("C37","Bilateral filtering is the normalised weighted mean of its window",
 "Each channel of each output pixel is the average of that channel over the square window around the pixel (border pixels repeated outside the image), weighted by the Gaussian of the spatial distance times the given colour distance to the centre pixel, in single precision, converted to the pixel type; so it lies within the window's range. The output has the input's size, for every radius.",
 "every non-empty image, every radius 0..=255, sigma and colour distance",
 "tests compare one picture; window clipping, weight lookup and radius interact for every position.",["src/filter/bilateral.rs"],[("bilateral_filter, weighted_average, gaussian_weight","src/filter/bilateral.rs")])
p("C38","Otsu's level maximises between-class variance",
 "The Otsu level splits the pixels into those at or below it and those above it so that the variance between the two classes is the largest any level achieves, with both classes inhabited whenever the image has two different values; for images of at most one value it is 0.",
 "every 8-bit image of fewer than 2^32 pixels, up to 64-bit float rounding",
 "tests use three histograms; maximality is over all levels of every histogram, and sums of large images can overflow.",["src/contrast.rs"],[("otsu_level","src/contrast.rs")])
p("C39","Projections compose as matrices and their inverses undo them",
 "A projection built from a matrix (normalised to last coefficient one where possible) exists exactly when the determinant reaches the tolerance 1e-10, and maps each point to the homogeneous image of (x, y, 1); translate, rotate and scale are the documented matrices. P * Q and Q.and_then(P) apply Q first and then P. Inverting a projection gives one that maps every image point back to the point it came from. The four control points are mapped to their targets.",
 "every invertible matrix and every chain of compositions and inversions, every point where the denominator is not zero (up to rounding); non-degenerate control points",
 "tests use a handful of affine matrices; cofactor signs, multiplication order and class shortcuts matter for general matrices and long chains.",["src/geometric_transformations.rs"],[("Projection::from_matrix, try_inverse, mul3x3, class_from_matrix, Mul, invert, and_then","src/geometric_transformations.rs"),("Projection::from_control_points","src/geometric_transformations.rs")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
