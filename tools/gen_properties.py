#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the file stays one valid JSON object per line)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

IMG="src/image.rs"; SW="src/swatch.rs"; DB="src/math/clustering/dbscan/algorithm.rs"; KD="src/math/neighbors/kdtree/mod.rs"
RG="src/color/rgba.rs"; XY="src/color/xyz.rs"; LA="src/color/lab.rs"
ONE = "The only end-to-end test runs one flag image and prints the result without asserting anything"

p("C01", "Palette extraction is total and every swatch is in range",
  "Extracting a palette from any well-formed RGBA image (four bytes per pixel, width times height pixels, including an image without pixels), in single or double precision, always returns a palette and never panics. Every swatch has a percentage that is finite, greater than 0 and at most 1, and a position that lies inside the image; all percentages together add up to at most 1. An image without pixels gives an empty palette.",
  ["inputs","configurations"], "every well-formed RGBA buffer, every width/height, both float precisions",
  ONE + "; whether a group's mean colour leaves the sRGB gamut, or a mean position leaves the image, depends on the pixels.",
  [IMG,RG,DB], [("pixel loop and swatch mapping in ImageData::extract",IMG),("conversion of the mean colour back to sRGB",RG)],
  ["return value of ImageData::extract"])
p("C02", "Swatches are exactly the density clusters of the pixels",
  "Call a pixel dense when at least 25 pixels (itself included) lie within Euclidean distance 0.025 of it, measured over L/100, a/255, b/255, x/width and y/height; dense pixels within that distance are connected, and a non-dense pixel near dense ones joins one of their groups. The palette has exactly one swatch per connected group: its percentage is that group's share of all pixels, its color is the group's mean Lab color converted to the nearest sRGB color (out-of-gamut channels clipped), and its position is the group's mean position to within one pixel. Pixels belonging to no group contribute to no swatch.",
  ["inputs"], "every image, of any shape and content",
  ONE + ", so neither the number of swatches, nor their shares, colours or positions are checked for any image.",
  [IMG,DB,KD,LA,XY,RG], [("normalisation to 5-D points and back",IMG),("DBSCAN over a kd-tree",DB),("centroid/count lookup per cluster",IMG)],
  ["return value of ImageData::extract"])
p("C03", "Palette extraction is deterministic and free of side effects",
  "Extracting a palette from the same pixels always gives the same list of swatches (same values in the same order), no matter how often, after which other extractions, from which thread, alongside which concurrent extractions or in which process it is done. The input buffer is left unchanged.",
  ["inputs","histories","schedules"], "every image, every history of earlier extractions, every number of concurrent callers",
  ONE + "; it runs once, so a result that depends on hash seeds, on shared state or on thread timing goes unnoticed.",
  [IMG,DB], [("cluster order of DBSCAN::centroids",DB),("stable sort of swatches",IMG)], ["return value of ImageData::extract in one and in several processes"],
  state=[("centroids/membership maps","cluster id to centroid / member pixels",DB)])
p("C04", "Palettes are ordered by percentage, consistently with swatch comparison",
  "Every extracted palette is sorted by ascending percentage. Comparing two swatches orders them by percentage alone, and for swatches with finite percentages that comparison is a total preorder (antisymmetric up to ties, transitive) on which all comparison operators, sorting, minimum and maximum agree. Two swatches are equal exactly when color, position and percentage all are.",
  ["inputs"], "every image, and every set of swatches with finite percentages",
  "No test looks at the order of a palette or compares two swatches.",
  [SW,IMG], [("PartialOrd/Ord for Swatch",SW),("sort in ImageData::extract",IMG)], ["order of ImageData::extract's result","Swatch comparison operators and sort"])
p("C05", "The alpha channel never influences the palette",
  "Changing the alpha bytes of an image in any way while keeping its red, green and blue bytes leaves the extracted palette unchanged.",
  ["inputs"], "every image and every assignment of alpha values",
  ONE + " on an opaque image; a single unit test covers one fully transparent black pixel.",
  [IMG,XY], [("XYZ from RGBA ignores alpha",XY)], ["return value of ImageData::extract on images that differ only in alpha"])
p("C06", "Mirroring, rotating or transposing an image only moves swatch positions",
  "Mirroring an image horizontally or vertically, rotating it by a half turn or transposing it (swapping width and height) gives a palette with the same colors and percentages, whose positions are transformed in the same way to within rounding (whenever no pixel could belong to two groups and no pixel distance coincides with the clustering radius).",
  ["inputs"], "every image under the symmetries of the pixel grid",
  ONE + " in one orientation, with width different from height but no reference to compare with; mixing up axes, width and height, or processing order is invisible.",
  [IMG,DB,KD], [("x and y from the pixel index",IMG),("axis cycling of the kd-tree",KD)], ["return value of ImageData::extract on transformed images"])
p("C07", "Single and double precision extraction agree",
  "For every image in which no pixel distance lies within single-precision rounding error of the clustering radius, extraction in single and in double precision gives the same number of swatches with the same pixel shares, colors equal to within one level per channel and positions equal to within one pixel.",
  ["inputs","configurations"], "every image, for both float types the API is generic over",
  "The only end-to-end test uses double precision; nothing exercises the single precision pipeline.",
  [IMG,"src/math/number.rs",LA,XY], [("Float/Number conversions","src/math/number.rs")], ["ImageData::extract::<f32> against ::<f64>"])
p("C08", "sRGB to CIE XYZ and L*a*b* conversion is accurate for every color",
  "For every 24-bit sRGB color, in single and double precision, the computed XYZ and L*a*b* values agree with the sRGB (IEC 61966-2-1) and CIE 1976 definitions under the D65 white point to well below a visible difference (0.01 in each Lab component, 0.05 where XYZ is clipped at the white point). Lightness therefore grows strictly with gray level and every gray is neutral.",
  ["inputs"], "all 16,777,216 colors, both float precisions",
  "Unit tests convert black, white and the three primaries only, for which both the gamma exponent and the linear segment of both transfer functions cancel out.",
  [XY,LA,"src/color/white_point.rs"], [("transfer function and matrix",XY),("CIE f function",LA)], ["XYZ and Lab of an RGBA color"], "re-export of the color types")
p("C09", "Every sRGB color survives the round trip through XYZ and Lab",
  "Converting any 24-bit color to XYZ and back, or to XYZ, to L*a*b* and back through XYZ, returns exactly the same red, green and blue with full opacity, in single and in double precision.",
  ["inputs"], "all 16,777,216 colors, both float precisions",
  "Unit tests invert black, white and the primaries only; inverse transfer functions are tested at their end points only.",
  [XY,LA,RG], [("RGBA from XYZ",RG),("XYZ from Lab",XY),("Lab from XYZ",LA)], ["RGBA obtained from XYZ / Lab"], "re-export of the color types")
p("C10", "Every Lab or XYZ value converts to a valid, correctly clipped sRGB color",
  "Creating an XYZ or Lab color from any numbers confines each component to its documented range and leaves values inside the range untouched. Converting any such color (in gamut or not) to XYZ and on to sRGB never panics and gives, per channel, the correctly rounded sRGB value clipped to 0..255, with full opacity.",
  ["inputs"], "all finite and infinite component values, both float precisions",
  "Unit tests convert only colors that are exactly in gamut; a mean of in-gamut colors can be out of gamut.",
  [RG,XY,LA,"src/math/number.rs"], [("normalize_value",RG),("clamping constructors",XY),("clamping constructors",LA)], ["RGBA obtained from XYZ / Lab"], "re-export of the color types")
p("C11", "k-nearest-neighbor search is exact",
  "For every dataset, query point, metric and k, both neighbor search structures return exactly min(k, size) distinct points in order of increasing distance, each with its true distance to the query, and no point left out is closer than one returned. The nearest-point query returns such a closest point, or nothing for an empty dataset, and queries do not influence later ones.",
  ["inputs","histories"], "datasets of any size with duplicates and ties, dimensions 2, 3 and 5, both metrics, both precisions, any k",
  "Unit tests query one point against 8 points in two dimensions, with k at which (nearly) the whole tree is visited, so wrong pruning does not show.",
  [KD,"src/math/neighbors/linear.rs","src/math/neighbors/kdtree/element.rs"], [("branch pruning in search_recursively",KD),("median split",KD)], ["search and search_nearest of both structures"], "wrapper around the two search structures")
p("C12", "Radius search is exact",
  "For every dataset, query point, metric and radius, both neighbor search structures return every point whose distance to the query is at most the radius (boundary included), each exactly once with its true distance, and no other point; a negative radius returns nothing.",
  ["inputs","histories"], "datasets of any size with duplicates and boundary distances, dimensions 2, 3 and 5, both metrics, both precisions, any radius",
  "Unit tests query one point against 5 or 8 points; branch pruning with small radii, duplicates or higher dimensions is not reached.",
  [KD,"src/math/neighbors/linear.rs"], [("branch pruning in search_radius_recursively",KD)], ["search_radius of both structures"], "wrapper around the two search structures")
p("C13", "Density clustering finds exactly the density-connected groups",
  "For every dataset, radius, minimum count and metric, density clustering yields one cluster per connected group of core points (points with at least the minimum count of points, themselves included, within the radius); every core point belongs to its group's cluster, every non-core point within the radius of a core point belongs to exactly one cluster that has such a core point, and every other point is reported as an outlier exactly once. Reordering the dataset changes none of this beyond the choice for non-core points between clusters.",
  ["inputs"], "datasets of any size with duplicates, dimensions 2, 3 and 5, both metrics, any positive minimum count and non-negative radius",
  "One unit test with 16 points, one radius, no outlier and no point shared between clusters.",
  [DB,KD], [("fit and expand_cluster label handling",DB)], ["number of clusters, counts, centroids and outliers of a fitted clustering"], "wrapper around density clustering")
p("C14", "Each reported cluster's centroid and count describe the same cluster",
  "The i-th centroid and the i-th count reported by density clustering belong to the same cluster: the centroid is the mean of exactly that many member points. Counts and outliers add up to the size of the dataset, counts beyond the last cluster are 0, and fitting the same dataset again reports the same clusters in the same order.",
  ["inputs","histories"], "all datasets with any number of clusters, repeated fits",
  "The unit test sorts the centroids before comparing them and never reads a count.",
  [DB,IMG], [("centroids and count_at",DB)], ["centroids, counts and outliers of a fitted clustering"], "wrapper around density clustering",
  state=[("centroids/membership maps","cluster id to centroid / member points",DB)])
p("C15", "k-means stops only at a stable assignment",
  "When k-means runs with a vanishing tolerance and enough iterations, its result is stable: assigning every point to its nearest reported centroid reproduces the reported counts, and every centroid with members is the mean of the points assigned to it. Stopping before the iteration limit requires that every cluster's centroid has moved by less than the tolerance.",
  ["inputs"], "datasets of any size with duplicates, any k, both metrics, every initial choice",
  "The unit test fits five points and asserts nothing.",
  ["src/math/clustering/kmeans/algorithm.rs","src/math/clustering/kmeans/cluster.rs"], [("convergence test in reassign","src/math/clustering/kmeans/algorithm.rs")], ["centroids and counts of a fitted k-means"], "wrapper around k-means")
p("C16", "k-means reports a valid partition for every k and iteration limit",
  "For every dataset and k: k = 0 gives no clusters; k of at least the dataset size gives one cluster per point, whose centroid is that point and whose count is 1; otherwise there are exactly k clusters whose counts add up to the dataset size (after at least one iteration). Every centroid stays within the bounding box of the data, also for clusters that lose all members, and an iteration limit of n never performs more than n reassignment steps of Lloyd's algorithm.",
  ["inputs"], "datasets of any size with duplicates, any k, any iteration limit, both metrics, every initial choice",
  "The unit test fits five points with k = 2 and asserts nothing.",
  ["src/math/clustering/kmeans/algorithm.rs","src/math/clustering/kmeans/cluster.rs"], [("fit special cases","src/math/clustering/kmeans/algorithm.rs"),("centroid accumulation","src/math/clustering/kmeans/cluster.rs")], ["centroids and counts of a fitted k-means"], "wrapper around k-means")
p("C17", "Initial centroids are distinct data points, spread as the strategy promises",
  "Both initialization strategies return exactly min(k, size) points that belong to distinct positions of the dataset, for every random generator state, and the same state gives the same choice. The k-means++ strategy picks each further point so that no other point has a larger distance to the points picked before; random initialization can pick every point.",
  ["inputs"], "datasets of any size with duplicates, any k, every random generator seed, both metrics",
  "Unit tests check only the number of points returned, for five points and k = 2.",
  ["src/math/clustering/kmeans/init.rs"], [("selected bookkeeping in random and kmeans_plus_plus","src/math/clustering/kmeans/init.rs")], ["points returned by an initializer"], "wrapper around the initializers")
p("C18", "The minimum spanning tree spans all vertices with minimum total weight",
  "For every set of vertices and symmetric weight function, the tree has one edge fewer than vertices (none for no vertices), connects all of them without a cycle, gives each edge the weight of its end points, reports the sum of its edge weights as its weight, and no spanning tree has a smaller weight. Edges compare by weight only, with the lighter edge being the greater.",
  ["inputs"], "graphs of any size with ties, zero and negative weights, both precisions",
  "One unit test with four vertices.",
  ["src/math/graph/spanning_tree.rs","src/math/graph/edge.rs"], [("Prim's algorithm over a binary heap","src/math/graph/spanning_tree.rs"),("reversed edge ordering","src/math/graph/edge.rs")], ["edges and weight of the tree"], "re-export of the graph types")
p("C19", "Cutting the hierarchy gives the k single-linkage clusters",
  "For every dataset and k from 1 up to its size, cutting a fitted hierarchy gives every point a label so that exactly the labels 0..k-1 occur, and the clusters are those of single linkage: points joined by a chain of links lighter than the cut stay together and links heavier than the cut never join. Partitions for larger k refine those for smaller k, and an empty dataset has no labels.",
  ["inputs"], "datasets of any size with ties and duplicates, symmetric weights, every valid k",
  "One unit test with six points and four values of k.",
  ["src/math/clustering/hierarchical/algorithm.rs"], [("partition and bfs","src/math/clustering/hierarchical/algorithm.rs")], ["labels returned by partition"], "wrapper around hierarchical clustering")
p("C20", "Union-find tracks connectivity and sizes through every history",
  "After any sequence of lookups and unions of two distinct roots, two elements have the same root exactly when the performed unions connect them, each union returns the number of elements in the merged set, and the merged set's root is the next unused label. Lookups never change any of this.",
  ["histories"], "all sequences of find and union over any number of elements",
  "Two unit tests with four elements and two or three unions.",
  ["src/math/clustering/hierarchical/union_find.rs"], [("find with path compression, union by new label","src/math/clustering/hierarchical/union_find.rs")], ["results of find and union"], "wrapper around union-find",
  state=[("parent/size","forest with merged sets as new labels","src/math/clustering/hierarchical/union_find.rs")])
p("C21", "Core distances are the true m-th neighbor distances",
  "For every dataset, metric and sample count m, a point's core distance equals its distance to its m-th nearest other point (the farthest point if there are fewer than m others). Core distances therefore never shrink when m grows.",
  ["inputs"], "datasets of any size with duplicates, dimensions 2, 3 and 5, both metrics, any m",
  "One unit test with six points and one m.",
  ["src/math/clustering/hdbscan/core_distance.rs",KD], [("k-nearest search with k = m + 1","src/math/clustering/hdbscan/core_distance.rs")], ["core distance of each point"], "wrapper around core distances")
p("C22", "Distance metrics satisfy the metric laws",
  "For every pair of points the squared Euclidean distance is the sum of squared component differences and the Euclidean distance its square root; both are symmetric, non-negative, zero for identical points and positive for points that differ measurably, unchanged by translation, and the Euclidean distance satisfies the triangle inequality up to rounding.",
  ["inputs"], "points of dimensions 2, 3 and 5, both precisions",
  "Unit tests measure two pairs of points with small non-negative coordinates.",
  ["src/math/distance/metric.rs"], [("measure","src/math/distance/metric.rs")], ["value of measure"], "re-export of the metric type")
p("C23", "Point arithmetic is component-wise vector arithmetic",
  "For points of every dimension, addition, subtraction, scaling and division act on each component separately; the in-place operators give the same results as the others through any sequence of operations; zero is the neutral element and is recognized exactly when all components are zero. The dimension, the list of components and indexing agree, indexing beyond the dimension and dividing by zero panic.",
  ["inputs","histories"], "points of dimensions 2, 3 and 5, both precisions, all sequences of operations",
  "Unit tests use one or two examples per operator; division in place, the five-dimensional points and zero are hardly covered.",
  ["src/math/point.rs"], [("impl_point macro","src/math/point.rs")], ["results of the operators"], "re-export of the point types")
p("C24", "The dendrogram records every merge correctly",
  "For every dataset of n points a fitted hierarchy has n - 1 merges in order of non-decreasing weight, whose weights are exactly those of a minimum spanning tree. Every merge joins two existing, not yet merged groups, every group is used once, and each merge's size is the number of points below it.",
  ["inputs"], "datasets of any size with ties and duplicates, symmetric weights",
  "One unit test with six points.",
  ["src/math/clustering/hierarchical/algorithm.rs","src/math/clustering/hierarchical/union_find.rs"], [("fit","src/math/clustering/hierarchical/algorithm.rs")], ["merge list of a fitted hierarchy"], "accessor for the merge list")
p("C25", "Numeric conversion and clamping are exact for all number types",
  "For all supported number types, clamping returns the value itself inside the range and the nearest bound outside, is idempotent and monotone; converting a small unsigned integer to any number type preserves its value, and conversions to floats give the nearest representable value.",
  ["inputs"], "all values of u8, u16, u32, u64, u128, f32 and f64 including bounds and infinities",
  "The number module has no tests at all.",
  ["src/math/number.rs"], [("impl_clamp, impl_number, impl_float macros","src/math/number.rs")], ["results of clamp and from_*"], "re-export of the number traits")
p("C26", "Colors and points read, compare and print as exactly the components they hold",
  "Reading a component of an RGBA color as any number type gives exactly its 8-bit value. Two RGBA, XYZ or Lab colors, or two points, are equal exactly when all of their components are. The text of a color or point names its type and lists its components in order, so that reading the numbers back gives exactly the same components, in single and in double precision.",
  ["inputs"], "all RGBA bytes, XYZ, Lab and points of dimensions 2, 3 and 5 with finite components, all number types",
  "Unit tests print one or two colors and points and never compare two that differ in one component.",
  [RG, XY, LA, "src/math/point.rs", "src/math/number.rs"], [("r, g, b, a, Display, PartialEq",RG), ("Display",XY), ("Display",LA), ("impl_point macro","src/math/point.rs")], ["accessor results, equality and text"], "re-export of the color, point and number types")
p("C27", "Extraction uses memory in proportion to the image and gives it back",
  "Whatever the pixels of an image are, extracting its palette never holds more than 1 KiB of heap memory per pixel (plus a fixed 256 KiB), and 256 KiB of call stack suffice for images of any size. Once the palette is dropped, repeated extractions leave no memory behind.",
  ["inputs","histories"], "all image sizes and contents, in particular large areas of one color and images with very many pixels within the radius of each other, repeated extractions",
  "Unit tests extract one small image and measure nothing.",
  ["src/image.rs","src/math/clustering/dbscan/algorithm.rs","src/math/neighbors/kdtree/mod.rs"], [("ImageData::extract","src/image.rs"), ("expand_cluster","src/math/clustering/dbscan/algorithm.rs"), ("build and search","src/math/neighbors/kdtree/mod.rs")], ["heap bytes in use during and after extract", "completion with a small call stack"], "none (public API)")
p("C28", "Tree searches and density clustering leave most points uninspected",
  "For 20,000 or more points spread evenly (at random or on a regular grid) over a square or cube and a radius that covers a thousandth of it, a radius search of the tree around a data point inspects on average at most 3 % (square) or 5 % (cube) of the points, a nearest-point search near a data point at most 25 %, and density clustering with that radius takes at most 3 % or 5 % of the inspections of comparing all pairs, for both metrics, in single and in double precision, wherever the square lies and however large it is.",
  ["inputs"], "all such datasets, in any order, position and scale",
  "The results are the same without any pruning; unit tests use a dozen points and measure no effort.",
  ["src/math/neighbors/kdtree/mod.rs","src/math/clustering/dbscan/algorithm.rs"], [("build_node, search_recursively, search_radius_recursively","src/math/neighbors/kdtree/mod.rs"), ("expand_cluster","src/math/clustering/dbscan/algorithm.rs")], ["how often the components of points are used during a search"], "wrapper for the private search structures, generic over the point type")
p("C29", "More k-means iterations never give a worse clustering",
  "For every dataset, number of clusters below its size, initialization and generator state, the sum of the squared distances of all points to their nearest reported centroid never grows with the iteration limit (beyond rounding errors), for both metrics and precisions.",
  ["inputs","histories"], "all datasets including duplicates, points far from the origin and very different distances, all iteration limits",
  "Unit tests fit a few points once and never compare iteration limits.",
  ["src/math/clustering/kmeans/algorithm.rs","src/math/clustering/kmeans/cluster.rs","src/math/neighbors/kdtree/mod.rs"], [("fit, reassign","src/math/clustering/kmeans/algorithm.rs"), ("update_centroid","src/math/clustering/kmeans/cluster.rs")], ["reported centroids for each iteration limit"], "wrapper for the private k-means")
p("C30", "Requests beyond the valid range are refused, never answered with a made-up value",
  "Cutting a hierarchy into more clusters than it has points, asking for the core distance of a point beyond the dataset, clamping to a range whose minimum exceeds its maximum and creating a union-find of no elements panic, however far beyond the range the request is. The count of a k-means or density cluster beyond the last one is 0. Valid requests are answered the same before and after a refused one.",
  ["inputs","histories"], "all datasets (also empty) and all indices and cluster counts up to the largest integer",
  "Unit tests never cut into too many clusters and try a single index beyond the range.",
  ["src/math/clustering/hierarchical/algorithm.rs","src/math/clustering/hierarchical/union_find.rs","src/math/clustering/hdbscan/core_distance.rs","src/math/number.rs","src/math/clustering/kmeans/algorithm.rs","src/math/clustering/dbscan/algorithm.rs"], [("partition","src/math/clustering/hierarchical/algorithm.rs"), ("UnionFind::new","src/math/clustering/hierarchical/union_find.rs"), ("distance_at","src/math/clustering/hdbscan/core_distance.rs"), ("impl_clamp","src/math/number.rs"), ("count_at","src/math/clustering/kmeans/algorithm.rs"), ("count_at","src/math/clustering/dbscan/algorithm.rs")], ["panic or result of each request"], "wrappers for the private types")
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
