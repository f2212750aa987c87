#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the text is easy to review and edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

p("C01", "The reported best is real and never gets worse",
  "After construction and after every step of either genetic algorithm, the reported best fitness is exactly the fitness of the point group returned as best, and it is the highest fitness among all members evaluated in that generation. The best fitness never decreases from one generation to the next, the generation counter grows by exactly one per step, and the reported generation time is the time that step took. This holds for every deterministic fitness function (including ones with negative or tied values), every population size and cutoff the algorithm accepts, and every order in which the workers finish.",
  ["inputs", "histories", "configurations", "schedules"],
  "all deterministic fitness functions x population sizes >= 2*cutoff (modified) or >= cutoff (simple) x mutation methods x numbers of generations x worker completion orders",
  "Package algorithm has no test at all (its only test file is a benchmark that needs a missing image); no sampled run could cover all fitness functions, sizes and completion orders.",
  ["algorithm/modifiedgenetic.go", "algorithm/simple.go", "algorithm/algorithm.go"],
  [("bases are copied unmutated into the next generation", "algorithm/modifiedgenetic.go newGeneration, algorithm/simple.go newGeneration"),
   ("sort by fitness, then copy member 0 to best", "updateFitnesses, Less, Swap"),
   ("members not evaluated this generation are kept out of the ranking", "combineMutations")],
  ["Algorithm.Best()", "Algorithm.Stats()"],
  [dict(name="population/fitnesses", meaning="members and their fitness, index-aligned", where="modifiedGenetic, simple")])

p("C02", "Evaluators are always told the truth about members, bases and mutations",
  "Whenever an algorithm asks for the fitness of a member, the points it passes are exactly what an evaluator that follows the declared bases, mutations and swaps would hold: a member with a declared base equals that base's points with the listed mutations applied (each listed old point being the base's current point and each new point the member's), and a member without one is unchanged since its own previous evaluation. A fitness function is used for at most one evaluation per generation, its cache update follows its evaluation, and no base changes while it is being derived from.",
  ["histories", "configurations", "schedules"],
  "all sequences of generations of both algorithms, for all sizes, cutoffs, mutation methods (including none, one and all points mutated), fitness landscapes and completion orders",
  "Incremental evaluation silently scores the wrong shapes if a swap, base or mutation record is lost; existing tests never run an algorithm and never use an evaluator.",
  ["algorithm/modifiedgenetic.go", "algorithm/simple.go", "algorithm/evaluator/evaluators.go", "algorithm/evaluator/parallel.go", "algorithm/data.go"],
  [("SetBase/Swap/Prepare/Update calls around each evaluation", "newGeneration, calculateFitnesses, combineMutations, Swap"),
   ("mutation log per member", "mutations[i]")],
  ["evaluator.Evaluator calls", "fitness.Function.Calculate arguments"])

p("C03", "Each generation is survivors, their mutants, and the combined improvements",
  "In every generation the top members of the previous generation (as many as the cutoff) are re-evaluated unchanged, and all other evaluated members are mutated copies of those survivors, shared out evenly among them, each produced by one call of the mutation method. In the modified algorithm, every survivor for which some mutant scored strictly higher additionally gets exactly one combined member, made of that survivor with every point that any such mutant changed set to its value in the fittest of the mutants that changed it; survivors without improving mutants get none. The next survivors are the fittest of all members evaluated in the generation.",
  ["histories", "configurations", "schedules"],
  "all runs of both algorithms over all population sizes, cutoffs, mutation methods, fitness landscapes, and all arrival orders of worker results",
  "The rule relates what happens across a whole generation under any arrival order; no test executes a single step.",
  ["algorithm/modifiedgenetic.go", "algorithm/simple.go", "algorithm/data.go"],
  [("round-robin derivation from bases", "newGeneration"), ("collection of beneficial mutations with replacement by fitter duplicates", "setBeneficial"),
   ("combination of beneficial mutations", "combineMutations"), ("selection by sorting", "updateFitnesses")],
  ["fitness.Function.Calculate calls per generation", "mutation.Method calls"],
  [dict(name="beneficialMutations", meaning="improving mutations found per survivor", where="modifiedGenetic")])

p("C04", "Incremental, cached triangle scoring equals scoring from scratch",
  "For any history of generations in which triangle fitness functions inherit another member's state (or keep their own) through a base, apply recorded point mutations and share a cache of any size, each returned fitness equals (up to floating-point summation error) what a brand-new fitness function returns for the same points, provided their Delaunay triangulation is unique. Re-evaluating an unchanged member returns the same value as before, whatever other members did in between.",
  ["histories", "inputs", "configurations"],
  "all images, point groups (including duplicated points), mutation histories, base choices, swaps and cache sizes 2^0 and up",
  "One test calls Calculate once on a fresh function; the incremental path, the shared cache and the evaluator are never executed by any test.",
  ["fitness/triangles.go", "fitness/cache.go", "algorithm/evaluator/parallel.go", "triangulation/incrdelaunay/delaunay.go", "triangulation/incrdelaunay/grid.go", "triangulation/incrdelaunay/pointmap.go"],
  [("copy of the base triangulation plus removal/insertion of mutated points", "fitness/triangles.go Calculate"),
   ("cache entries compared by all vertices, not only by hash", "TriangleCacheData.Equals"), ("double-buffered shared cache", "evaluator/parallel.go")],
  ["CacheFunction.Calculate result"])

p("C05", "Incremental, cached polygon scoring equals scoring from scratch",
  "For any history of generations in which polygon fitness functions inherit another member's state (or keep their own) through a base, apply recorded point mutations and share a cache of any size, each returned fitness equals (up to floating-point summation error) what a brand-new fitness function returns for the same points. Re-evaluating an unchanged member returns the same value as before, whatever other members did in between.",
  ["histories", "inputs", "configurations"],
  "all images, point groups (including duplicated, collinear and cocircular points), mutation histories, base choices, swaps and cache sizes 2^0 and up",
  "No test executes the polygon fitness function or the incremental Voronoi diagram at all.",
  ["fitness/polygons.go", "fitness/cache.go", "algorithm/evaluator/parallel.go", "triangulation/incrdelaunay/voronoi.go", "triangulation/incrdelaunay/polygonmap.go"],
  [("incremental maintenance of the cells around a changed point", "IVoronoi.Insert/Remove/Set"), ("cache entries compared by all coordinates", "PolygonCacheData.Equals")],
  ["CacheFunction.Calculate result"])

p("C06", "Triangle fitness is the normalised colour error, for every block size",
  "The fitness of a point group is 1 minus its error divided by the largest possible error, where the error is the sum over the triangles of the squared colour deviation of each covered pixel from its triangle's mean colour, plus the maximal error for all image area not covered by triangles (colours counted in 8-bit levels, up to one squared level of rounding per pixel). It does not depend on the block size (any size from 1 up, also larger than the triangles or the image), on the order of the points or on repeated points when the triangulation is unique, and is unaffected by permuting or inverting the colour channels. It therefore never exceeds 1 beyond that rounding.",
  ["inputs", "configurations"],
  "all 8-bit images of any size, all point groups, all block sizes",
  "One test pins a single value for one image, six points and block size 3.",
  ["fitness/triangles.go", "fitness/pixels.go", "fitness/util.go", "rasterize/blocks.go"],
  [("per-block sums of colours and squares", "fromImageN"), ("variance from sums", "Calculate"), ("blank-area penalty", "Calculate")],
  ["fitness.NewTrianglesImageFunction(...).Calculate", "fitness.TrianglesImageFunctions"])

p("C07", "Polygon fitness scores exactly the polygons that get rendered",
  "The polygon fitness of a point group is 1 minus its error divided by the largest possible error, where the error is the sum, over the polygons that polygonating the same points for the same image size yields, of the squared colour deviation of each covered pixel from its polygon's mean colour (colours in 8-bit levels, up to one squared level of rounding per pixel). It does not depend on the block size, on the order of the points or on repeated points, and is unaffected by permuting or inverting the colour channels.",
  ["inputs", "configurations"],
  "all 8-bit images of any size, all point groups, all block sizes",
  "Neither the polygon fitness nor the polygonation package has any test.",
  ["fitness/polygons.go", "fitness/pixels.go", "polygonation/polygonate.go", "rasterize/polygon.go", "triangulation/incrdelaunay/voronoi.go"],
  [("same cell construction and rounding on the scoring and the rendering side", "IVoronoi.processPoint vs Voronoi, polygonation.Polygonate"), ("per-block colour sums", "fromImageN")],
  ["fitness.PolygonsImageFunctions(...).Calculate", "polygonation.Polygonate"])

p("C08", "The incremental triangulation is Delaunay after every insert and remove",
  "After any sequence of point insertions and removals inside the image bounds, every triangle reported by the triangulation has non-zero area, has only currently present points as vertices and contains no present point strictly inside its circumcircle, and no two triangles overlap. Every empty-circumcircle triangle of the present points whose circumcircle is no larger than the image's longer side is reported (when no four points make it ambiguous). The operations never fail, whatever the order, duplicates, collinear or cocircular placement of the points.",
  ["histories", "inputs"],
  "all sequences of inserts, removes (of present points) and copies over integer points in [0,w]x[0,h], for image sizes from 1x1 to several thousand pixels",
  "Two tests insert three or four points; removal is never executed, and one of the tests passes even if no triangle exists.",
  ["triangulation/incrdelaunay/delaunay.go", "triangulation/incrdelaunay/grid.go", "triangulation/incrdelaunay/geom.go", "triangulation/incrdelaunay/util.go"],
  [("Bowyer-Watson insertion with exact in-circle test", "Delaunay.Insert, inCircle"), ("removal by ear clipping", "Delaunay.Remove, calculateScore"),
   ("grid index over circumcircles", "CircumcircleGrid")],
  ["Delaunay.IterTriangles"],
  [dict(name="triangles/freeTriangles/grid", meaning="live triangles, free slots and their spatial index", where="Delaunay")])

p("C09", "Triangulation bookkeeping and copies agree with the multiset of points",
  "After any sequence of insertions, removals and copies, the reported number of points equals the number of points inserted and not yet removed counting duplicates, a point is reported present exactly when at least one copy of it is left, and the closest-point query returns a present point at minimal distance. Copying a triangulation (or Voronoi diagram) onto another, whatever the other held before, makes the two indistinguishable and independent: later changes to either one never affect the other. Copying one onto itself changes nothing.",
  ["histories"],
  "all histories of inserts, removes, duplicate inserts and copies between several triangulations and diagrams",
  "NumPoints is tested once after four inserts; presence, nearest-point queries and copying are never executed by a test.",
  ["triangulation/incrdelaunay/delaunay.go", "triangulation/incrdelaunay/pointmap.go", "triangulation/incrdelaunay/polygonmap.go", "triangulation/incrdelaunay/grid.go"],
  [("hash table of points with counts", "pointMap"), ("field-by-field deep copy", "Delaunay.Set, CircumcircleGrid.Set, pointMap.Set, polygonMap.Set, IVoronoi.Set")],
  ["Delaunay.NumPoints/HasPoint/GetClosestTo/Set", "IVoronoi.Set/IterPolygons"])

p("C10", "Voronoi polygons are the true nearest-point regions and tile the image",
  "For any set of points inside the image bounds, the polygons produced are exactly one per distinct point: convex, inside the image rectangle, containing exactly the locations at least as close to that point as to any other (up to small floating-point error), so that together they tile the image without gaps or overlap. The incrementally maintained diagram yields the same polygons as one built from scratch after any history of insertions and removals, and the integer polygons used for output are those cells with corners rounded to the nearest pixel.",
  ["histories", "inputs"],
  "all point sets (from one point up, including duplicates, lattices, collinear and boundary points), image shapes and insert/remove histories",
  "No test executes any Voronoi code.",
  ["triangulation/incrdelaunay/voronoi.go", "triangulation/incrdelaunay/polygonmap.go", "polygonation/polygonate.go"],
  [("cell = circumcentres of incident triangles sorted by angle, clipped to the image", "Voronoi, IVoronoi.processPoint"), ("only cells touching changed triangles are recomputed", "IVoronoi.Insert/Remove")],
  ["incrdelaunay.Voronoi", "IVoronoi.IterPolygons", "polygonation.Polygonate"])

p("C11", "All rasterizers cover the same pixels: the true ones, once each",
  "For every triangle with integer vertices at non-negative coordinates (in any vertex order, including degenerate ones), pixel-wise, line-wise and block-wise rasterization cover exactly the same set of pixels, each exactly once, for every block size. That set consists, in each row from the top vertex's up to but excluding the bottom vertex's, of the run of pixels between the triangle's exact left and right edges rounded down (where an edge meets a row exactly at a pixel boundary, floating-point error may move it one pixel to the left), and lies inside the triangle's bounding box.",
  ["inputs", "configurations"],
  "all integer triangles with non-negative coordinates up to a million, all vertex orders, all block sizes >= 1",
  "Three tests count the pixels of one single triangle with block size 3.",
  ["rasterize/lines.go", "rasterize/blocks.go", "rasterize/pixels.go"],
  [("DDA along the two active edges", "normalTriangleLines, flatTriangleLines, normalTriangleBlocks"), ("blocks only where both edges leave full width", "normalTriangleBlocks")],
  ["rasterize.DDATriangle/DDATriangleLines/DDATriangleBlocks callbacks"])

p("C12", "Adjacent shapes tile: no pixel is claimed twice or left out between them",
  "When a set of non-overlapping triangles sharing whole edges is rasterized, no pixel is covered by two of them, and if together they fill the image rectangle every pixel of the image is covered by exactly one. Rasterizing a convex polygon (pixel-wise or in blocks of any size) covers each pixel of its area exactly once (where an edge that has further corners along it meets a row exactly at a pixel boundary, floating-point error may cover the pixel to the left of it twice), and the result matches rasterizing its pieces.",
  ["inputs", "configurations"],
  "all Delaunay triangulations and convex integer polygons within an image, all block sizes",
  "Tests rasterize one isolated triangle; the shared-edge consistency between neighbours is never looked at.",
  ["rasterize/lines.go", "rasterize/blocks.go", "rasterize/polygon.go", "geom/polygon.go"],
  [("edges evaluated identically from both sides", "normalTriangleLines and friends"), ("fan triangulation of polygons", "geom.Polygon.Triangulate")],
  ["rasterize.DDATriangle, DDAPolygon, DDAPolygonBlocks callbacks"])

p("C13", "Final triangulation is a complete Delaunay triangulation of the scaled points",
  "Triangulating any group of normalised points for a given image size yields triangles whose vertices are the points scaled to the image size and rounded to the nearest integer, that use every distinct rounded point, exactly fill the convex hull of these points without overlap, and have no such point strictly inside any circumcircle. If fewer than three distinct points remain or all are on a line, the result is empty rather than a failure.",
  ["inputs"],
  "all normalised point groups of any size including empty, duplicated, collinear, cocircular and boundary points, all image sizes",
  "One test triangulates three points on a 10x10 image.",
  ["triangulation/triangulator.go"],
  [("scaling and rounding, then sweep-hull Delaunay", "triangulation.Triangulate")],
  ["triangulation.Triangulate result"])

p("C14", "The triangles that get rendered are the ones the optimizer scored",
  "For any point group whose Delaunay triangulation is unique, every triangle known to the scoring triangulation built from the same points and image size is also in the final triangulation, and the only triangles the final one adds are ones along the convex hull whose circumcircles are larger than the image. When nothing is added, the fitness of the point group equals the score recomputed from the final triangles and the image.",
  ["inputs"],
  "all point groups with unique triangulations, all image sizes and images",
  "No test relates the scoring side to the output side; each uses its own triangulation code and rounding.",
  ["fitness/util.go", "fitness/triangles.go", "triangulation/triangulator.go", "triangulation/incrdelaunay/delaunay.go"],
  [("both sides scale and round points to nearest integers", "fitness.createPoint, triangulation.Triangulate"), ("super-triangle far outside the image", "NewSuperTriangle")],
  ["Delaunay.IterTriangles", "triangulation.Triangulate", "Calculate"])

p("C15", "Rendered shapes carry the mean colour of the pixels they cover",
  "Rendering triangles or polygons onto an image returns one entry per input shape, in order, whose vertices are the shape's vertices divided by the image size and whose colour is the mean image colour of the pixels the shape covers (the colour minimising the squared error), or, if it covers none, the mean of the pixels at its vertices moved inside the image. All colours stay within the range of the image's colours, and rendering never fails for shapes inside the image bounds.",
  ["inputs"],
  "all images and all lists of triangles and convex polygons with vertices in [0,w]x[0,h], including degenerate ones and ones on the image border",
  "One test renders one triangle on an all-black image, so any colour logic passes.",
  ["render/triangles.go", "render/polygons.go", "render/util.go", "color/color.go", "geom/triangle.go", "geom/polygon.go"],
  [("running average of covered pixels", "color.AverageRGB"), ("fallback to clamped vertices", "TrianglesOnImage, PolygonsOnImage")],
  ["render.TrianglesOnImage, render.PolygonsOnImage result"])

p("C16", "Mutations stay in range and are reported exactly",
  "A mutation method changes only points it reports and reports each point it mutates exactly once, in increasing index order, with the exact coordinates before and after; applying the reports to a copy of the original group reproduces the mutated group. All coordinates stay between 0 and 1, a rate of 0 changes nothing, a rate of 1 mutates all points, and each point is mutated independently with the configured probability by a zero-mean displacement scaled by the configured amount in both coordinates (normal with standard deviation of half the amount for the gaussian method, uniform within half the amount either way for the random method, clamped to the borders); the default gaussian method mutates two points on average with amount 0.3.",
  ["inputs", "configurations"],
  "all point groups in [0,1]^2, all rates and amounts, all generator seeds",
  "Tests use three points with rates 0 and 1 only and check nothing but the number of reports.",
  ["mutation/gaussian.go", "mutation/random.go", "mutation/data.go", "normgeom/normpoint.go"],
  [("old/new recorded around change and Constrain", "Mutate")],
  ["mutation.Method.Mutate arguments and callbacks"])

p("C17", "Generators return the requested number of points inside the unit square",
  "Both generators return exactly the requested number of points, all with coordinates between 0 and 1, in a fresh group that shares nothing with other generated groups. Random points are spread uniformly over the unit square. The spaced generator's smallest distance between two points is never below that of the random group it starts from, and more iterations spread points further apart on average.",
  ["inputs", "configurations"],
  "all numbers of points, iteration counts and seeds",
  "Tests only count 121 points once per generator.",
  ["generator/random.go", "generator/spaced.go"],
  [("uniform sampling", "randomPoints"), ("moves accepted only if the moved point gets further from its nearest neighbour", "spacedGenerator.Generate")],
  ["Generator.Generate result"])

p("C18", "Random numbers are reproducible, in range and correctly distributed",
  "Seeding the random package makes every subsequent sequence of its results a function of the seed alone, and different seeds give different sequences. Bounded integers are uniform on 0..n-1, floats are uniform between 0 and 1, 63-bit integers are non-negative, and normal variates follow the standard normal distribution including its tails.",
  ["inputs", "histories"],
  "all seeds, bounds and call sequences",
  "One test checks a one-sided bound on the average of Intn(10) for the fixed initial seed.",
  ["random/random.go"],
  [("PCG generator", "pcg"), ("ziggurat tables", "NormFloat64, kn, wn, fn")],
  ["random.Intn/Float32/Int63/Uint32/NormFloat64/Seed"])

p("C19", "Image conversion keeps every pixel",
  "Converting an image gives data of the image's width and height in which the colour at (x, y), counted from the image's top-left corner, is that pixel's 8-bit red, green and blue divided by 255. This holds for every image type, colour model and bounds (including cropped sub-images whose bounds do not start at zero), conversion does not alter the source, and new empty data is all black with the requested size.",
  ["inputs"],
  "all image types, sizes, bounds (also negative origins) and pixel contents",
  "The only test checks the size of empty data; ToData is only ever run on one random RGBA image at the origin.",
  ["image/rgbdata.go", "color/color.go"],
  [("per-pixel copy", "ToData, convertColor")],
  ["RGBData.RGBAt, RGBData.Size"])

p("C20", "Results do not depend on how the workers are scheduled",
  "Running an algorithm with parallel evaluation involves no data race. With the same seeds and inputs, the simple algorithm with any evaluator, and the modified algorithm with a fitness function that depends only on the points and has no ties, produce exactly the same best points and best fitness in every generation regardless of the number of processors and of the order in which workers run and finish.",
  ["schedules", "configurations"],
  "all interleavings of the worker pool and the collecting loop, GOMAXPROCS values, population sizes, cache sizes, triangle and polygon scoring",
  "Concurrency is never exercised by tests, and a schedule-dependent result shows only under particular completion orders.",
  ["algorithm/modifiedgenetic.go", "algorithm/simple.go", "algorithm/evaluator/parallel.go", "fitness/triangles.go", "fitness/polygons.go"],
  [("results applied by the collecting goroutine only", "calculateFitnesses"), ("workers read last generation's cache while the next one is written", "parallel.Prepare/Update")],
  ["race detector", "Best()/Stats() trajectories"])

p("C21", "Saved output is complete and matches the algorithm's state",
  "While an algorithm is run with file output, each time the configured number of generations has passed the output file is replaced by JSON that decodes to exactly the current best point group, and the statistics file gains exactly one line with the current generation and best fitness, already on disk before the next generation starts. Running without output performs the same steps, the printed lines report the same numbers, and trace and profile files are complete when the call returns.",
  ["histories", "configurations", "crash_points"],
  "all algorithms, point groups, repetition counts and points in time at which the run is cut off between two generations",
  "Package utils has no tests.",
  ["utils/output.go", "utils/fitness.go", "utils/trace.go", "utils/profile.go"],
  [("write best as JSON and flush statistics after each batch", "GenerateAlgorithmOutput")],
  ["output file, statistics file, standard output"])

p("C22", "Point groups and normalised coordinates behave as plain values",
  "Copying a point group gives an equal but independent group; setting a group to another of equal length makes it equal and independent, and unequal lengths are refused without changing anything. Constraining a point moves each coordinate to the nearest value between 0 and 1 and leaves in-range ones untouched, distances are Euclidean, and converting integer points, triangles and polygons to normalised ones and scaling back gives the original coordinates. The area of a convex polygon is that of the region it encloses, to the nearest integer, whatever the starting vertex and direction, and the running colour average is the arithmetic mean of all added colours with their exact count.",
  ["inputs", "histories"],
  "all point groups, coordinates, sizes, polygons and colour sequences",
  "Tests use one example each; the Set and Copy tests do not check independence.",
  ["normgeom/normpoint.go", "geom/point.go", "geom/triangle.go", "geom/polygon.go", "triangulation/triangulator.go", "color/color.go"],
  [("copy semantics", "NormPointGroup.Copy/Set"), ("division by the size", "ToNorm")],
  ["exported functions' results"])

p("C23", "Any image and any options run to a renderable result",
  "For every image of at least one pixel and every combination of shape type, number of points (one or more), population size, cutoff, mutation settings, block size, cache size and thread count, creating the documented algorithm, stepping it and rendering the best result never fails or hangs. The best group always has the requested number of points, all within the unit square, the rendered polygons fill the image, and all rendered colours and coordinates are finite and between 0 and 1.",
  ["inputs", "configurations", "histories"],
  "all images (also tiny and extremely elongated), shapes, point counts, population sizes, cutoffs, mutation rates and amounts, block sizes, cache sizes and numbers of steps",
  "No test runs the pipeline; failures depend on combinations of image size, block size, cache size and coincident points.",
  ["algorithm/modifiedgenetic.go", "algorithm/simple.go", "algorithm/evaluator/parallel.go", "fitness/triangles.go", "fitness/polygons.go", "fitness/pixels.go", "render/triangles.go", "render/polygons.go", "utils/default.go"],
  [("guards in every stage", "whole pipeline")],
  ["process survives", "Best(), Stats(), rendered data"])

p("C24", "A fitness function's answer depends only on the points it is given",
  "Asked several times in a row about different point groups, a triangle or polygon fitness function returns for each the same value as a brand-new function would (for triangles: when the triangulation is unique), whatever it evaluated before. Evaluators hand out the functions they were built with: one function shared by all members, one per member, or one per member following swaps, so that choosing one evaluator over another does not change the outcome of a run with a fitness function that depends only on the points.",
  ["histories", "inputs", "configurations"],
  "all sequences of evaluations of one function, all images, block sizes and point groups; all evaluator kinds",
  "The only evaluation test calls a function once; evaluators have no tests.",
  ["fitness/triangles.go", "fitness/polygons.go", "algorithm/evaluator/evaluators.go", "algorithm/evaluator/parallel.go"],
  [("reuse of the previous triangulation", "Calculate"), ("function lookup", "Evaluator.Get")],
  ["Function.Calculate results", "Evaluator.Get"])

p("C25", "Separate work can be done at the same time",
  "Independent pieces of work running at the same time in different goroutines do not interfere: triangulating, polygonating, rasterizing, rendering, normalising and converting images, generating points, maintaining separate triangulations and Voronoi diagrams (also copies of the same one), evaluating different fitness functions (of one set, deriving from a common base, or of separate sets for the same image), and running separate algorithms each give the result they give alone, without data races, while they only share inputs that none of them changes. (The random package's functions, and so gaussian mutations, share one unsynchronised state and are not included.)",
  ["schedules", "inputs", "configurations"],
  "all sets of such pieces of work, all images, point groups and shapes they share, all schedules and numbers of processors",
  "No test starts a goroutine; state shared by accident (a package-level buffer or cache) only shows under particular interleavings.",
  ["fitness/triangles.go", "fitness/polygons.go", "fitness/pixels.go", "triangulation/triangulator.go", "triangulation/incrdelaunay/delaunay.go", "triangulation/incrdelaunay/voronoi.go", "polygonation/polygonate.go", "render/triangles.go", "render/polygons.go", "rasterize/blocks.go", "image/rgbdata.go", "algorithm/simple.go", "algorithm/modifiedgenetic.go"],
  [("no package-level mutable state", "all packages but random"), ("members of a set share only the image's pixels, which are not written after construction", "fitness.TrianglesImageFunctions, fitness.PolygonsImageFunctions"),
   ("copies of diagrams share corner lists that are never written again", "polygonMap.Set, processPoint")],
  ["results of exported functions", "race detector"])

p("C26", "Inputs are left alone and results stay as they were handed out",
  "Apart from the operations whose purpose it is (setting, constraining or mutating a group, inserting into or removing from a triangulation), no function changes the point groups, mutations, shapes, images or triangulations it is given. Results handed out (groups, triangles, polygons, rendered and normalised shapes, image data, fitness functions) neither change with later calls nor when the caller changes the inputs, sources or other results, and the same question about unchanged inputs gets the same answer. Changing the group an algorithm returned as best does not affect the run.",
  ["histories", "inputs"],
  "all sequences of calls of exported functions, with any results being changed by the caller in between",
  "Tests look at results right after a call; aliasing and buffers that are used again show only after further calls or changes.",
  ["normgeom/normpoint.go", "triangulation/triangulator.go", "polygonation/polygonate.go", "render/triangles.go", "render/polygons.go", "geom/polygon.go", "image/rgbdata.go", "fitness/pixels.go", "fitness/triangles.go", "fitness/polygons.go", "generator/random.go", "algorithm/simple.go", "algorithm/modifiedgenetic.go"],
  [("results are allocated anew", "Triangulate, Polygonate, TrianglesOnImage, PolygonsOnImage, ToNorm, Copy"), ("pixels are copied when a function is built", "fromImage, fromImageN"), ("best is a copy of a member", "updateFitnesses")],
  ["results and arguments of exported functions"])

p("C27", "Long runs hold no more than short ones",
  "The memory, goroutines and open files held do not grow with the number of generations run, evaluations made, points inserted and removed, copies made, shapes rendered or outputs written: after a settling time they only depend on the sizes of the population, groups, images and caches in use.",
  ["histories"],
  "all numbers of generations, operations and outputs; all algorithms, fitness functions, mutation methods, triangulations and diagrams",
  "Nothing in the tests runs for long; a buffer that is never cut or an index that is never freed only matters after thousands of generations, which is how the program is used.",
  ["algorithm/simple.go", "algorithm/modifiedgenetic.go", "algorithm/data.go", "algorithm/evaluator/parallel.go", "fitness/triangles.go", "fitness/polygons.go", "triangulation/incrdelaunay/delaunay.go", "triangulation/incrdelaunay/grid.go", "triangulation/incrdelaunay/pointmap.go", "triangulation/incrdelaunay/polygonmap.go", "utils/output.go"],
  [("buffers are cut to length zero before being filled again", "newGeneration, Calculate, Remove"), ("indexes of removed triangles are used again", "freeTriangles"), ("entries are removed with their points", "RemovePoint, RemovePolygon, RemoveTriangle")],
  ["live heap, goroutines and file descriptors of the process"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties", [x["id"] for x in P if len(x["title"]) > 80])
