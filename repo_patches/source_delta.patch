From 17593bfcbfe1f32b8d7b1c2bf514ee165f6f8c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:17 +0000
Subject: [PATCH 01/20] fix: add every image corner inside a Voronoi cell when
 clipping it

A corner of the image was only added to a clipped cell if the cell's boundary
crossed both image edges next to it, so cells of sparse or elongated point sets
lost their corners or were dropped completely.
---
 triangulation/incrdelaunay/voronoi.go | 86 ++++++++++-----------------
 1 file changed, 30 insertions(+), 56 deletions(-)

diff --git a/triangulation/incrdelaunay/voronoi.go b/triangulation/incrdelaunay/voronoi.go
index 913dac7..264b4c4 100644
--- a/triangulation/incrdelaunay/voronoi.go
+++ b/triangulation/incrdelaunay/voronoi.go
@@ -162,8 +162,6 @@ func (v *IVoronoi) processPoint(point Point) {
 	if clip {
 		v.newPolygon = v.newPolygon[:0]
 
-		intersections := [4]int{-1, -1, -1, -1}
-
 		for i := 0; i < len(v.points); i++ {
 			a := v.points[i]
 			b := v.points[(i+1)%len(v.points)]
@@ -174,16 +172,7 @@ func (v *IVoronoi) processPoint(point Point) {
 				v.newPolygon = append(v.newPolygon, a)
 			}
 
-			for j, e := range edges {
-				e0 := FloatPoint{
-					X: e[0].X * float64(v.w),
-					Y: e[0].Y * float64(v.h),
-				}
-				e1 := FloatPoint{
-					X: e[1].X * float64(v.w),
-					Y: e[1].Y * float64(v.h),
-				}
-
+			for _, e := range edges {
 				x, y, t := segmentsIntersect(
 					e[0].X*float64(v.w),
 					e[0].Y*float64(v.h),
@@ -200,27 +189,20 @@ func (v *IVoronoi) processPoint(point Point) {
 						X: x,
 						Y: y,
 					}
-					if new != e0 && new != e1 {
-						v.newPolygon = append(v.newPolygon, new)
-					}
-					intersections[j] += 1
+					v.newPolygon = appendUnique(v.newPolygon, new)
 				}
 			}
 
 		}
 
-		for j, e := range edges {
-			i0 := intersections[j]
-			i1 := intersections[(j+1)%len(edges)]
-
-			if i0 != -1 && i1 != -1 {
-				corner := FloatPoint{
-					X: e[1].X * float64(v.w),
-					Y: e[1].Y * float64(v.h),
-				}
-				if polygonPointIntersect(v.points, corner) {
-					v.newPolygon = append(v.newPolygon, corner)
-				}
+		// Every corner of the image inside the cell is a corner of the clipped cell
+		for _, e := range edges {
+			corner := FloatPoint{
+				X: e[1].X * float64(v.w),
+				Y: e[1].Y * float64(v.h),
+			}
+			if polygonPointIntersect(v.points, corner) {
+				v.newPolygon = appendUnique(v.newPolygon, corner)
 			}
 		}
 
@@ -378,8 +360,6 @@ func Voronoi(delaunay *Delaunay, polygon func([]FloatPoint), w, h int) {
 		if clip {
 			newPolygon = newPolygon[:0]
 
-			intersections := [4]int{-1, -1, -1, -1}
-
 			for i := 0; i < len(points); i++ {
 				a := points[i]
 				b := points[(i+1)%len(points)]
@@ -390,16 +370,7 @@ func Voronoi(delaunay *Delaunay, polygon func([]FloatPoint), w, h int) {
 					newPolygon = append(newPolygon, a)
 				}
 
-				for j, e := range edges {
-					e0 := FloatPoint{
-						X: e[0].X * float64(w),
-						Y: e[0].Y * float64(h),
-					}
-					e1 := FloatPoint{
-						X: e[1].X * float64(w),
-						Y: e[1].Y * float64(h),
-					}
-
+				for _, e := range edges {
 					x, y, t := segmentsIntersect(
 						e[0].X*float64(w),
 						e[0].Y*float64(h),
@@ -416,27 +387,20 @@ func Voronoi(delaunay *Delaunay, polygon func([]FloatPoint), w, h int) {
 							X: x,
 							Y: y,
 						}
-						if new != e0 && new != e1 {
-							newPolygon = append(newPolygon, new)
-						}
-						intersections[j] += 1
+						newPolygon = appendUnique(newPolygon, new)
 					}
 				}
 
 			}
 
-			for j, e := range edges {
-				i0 := intersections[j]
-				i1 := intersections[(j+1)%len(edges)]
-
-				if i0 != -1 && i1 != -1 {
-					corner := FloatPoint{
-						X: e[1].X * float64(w),
-						Y: e[1].Y * float64(h),
-					}
-					if polygonPointIntersect(points, corner) {
-						newPolygon = append(newPolygon, corner)
-					}
+			// Every corner of the image inside the cell is a corner of the clipped cell
+			for _, e := range edges {
+				corner := FloatPoint{
+					X: e[1].X * float64(w),
+					Y: e[1].Y * float64(h),
+				}
+				if polygonPointIntersect(points, corner) {
+					newPolygon = appendUnique(newPolygon, corner)
 				}
 			}
 
@@ -491,6 +455,16 @@ func Voronoi(delaunay *Delaunay, polygon func([]FloatPoint), w, h int) {
 
 const epsilon = 0.0001
 
+// appendUnique adds a point to a polygon unless the polygon already contains it.
+func appendUnique(polygon []FloatPoint, point FloatPoint) []FloatPoint {
+	for _, p := range polygon {
+		if p == point {
+			return polygon
+		}
+	}
+	return append(polygon, point)
+}
+
 func epsilonEquals(a, b float64) bool {
 	return math.Abs(a-b) < epsilon
 }
-- 
2.43.0


From 928528fea4ccd414567a8d3af4cbcceb538ce057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:34 +0000
Subject: [PATCH 02/20] fix: copy the point counts and image size when setting
 a triangulation to another

Delaunay.Set left NumPoints unchanged, and a triangulation or Voronoi diagram
set to one of another image size kept its own grid and clipping size.
---
 triangulation/incrdelaunay/delaunay.go | 3 +++
 triangulation/incrdelaunay/grid.go     | 2 ++
 triangulation/incrdelaunay/voronoi.go  | 1 +
 3 files changed, 6 insertions(+)

diff --git a/triangulation/incrdelaunay/delaunay.go b/triangulation/incrdelaunay/delaunay.go
index e40f55f..5d5051b 100644
--- a/triangulation/incrdelaunay/delaunay.go
+++ b/triangulation/incrdelaunay/delaunay.go
@@ -301,6 +301,9 @@ func (d *Delaunay) Set(other *Delaunay) {
 
 	d.grid.Set(&other.grid)
 	d.pointMap.Set(&other.pointMap)
+
+	d.numPoints = other.numPoints
+	d.uniquePoints = other.uniquePoints
 }
 
 // HasPoint returns whether the triangulation contains point p.
diff --git a/triangulation/incrdelaunay/grid.go b/triangulation/incrdelaunay/grid.go
index 82eeab9..71f08ce 100644
--- a/triangulation/incrdelaunay/grid.go
+++ b/triangulation/incrdelaunay/grid.go
@@ -254,6 +254,8 @@ func (c CircumcircleGrid) IterThatHasVertex(p Point, triangles []Triangle, conta
 
 // Set sets a CircumcircleGrid to another CircumcircleGrid.
 func (c *CircumcircleGrid) Set(other *CircumcircleGrid) {
+	c.colPixels, c.rowPixels = other.colPixels, other.rowPixels
+
 	for x, col := range c.triangles {
 		for y := range col {
 			c.triangles[x][y] = c.triangles[x][y][:cap(c.triangles[x][y])]
diff --git a/triangulation/incrdelaunay/voronoi.go b/triangulation/incrdelaunay/voronoi.go
index 264b4c4..26a7e40 100644
--- a/triangulation/incrdelaunay/voronoi.go
+++ b/triangulation/incrdelaunay/voronoi.go
@@ -280,6 +280,7 @@ func (v *IVoronoi) addPointToUpdate(point Point) {
 func (v *IVoronoi) Set(other *IVoronoi) {
 	v.delaunay.Set(other.delaunay)
 	v.polygonMap.Set(&other.polygonMap)
+	v.w, v.h = other.w, other.h
 }
 
 // Should not be modified
-- 
2.43.0


From 1b217669471af04da4f9a177d3de82836bd31c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:35 +0000
Subject: [PATCH 03/20] fix: keep the super triangle clear of tiny images

For a 1x1 image its first vertex had X = -1, the mark of a removed triangle, so
inserting any point panicked. For a 3x3 image it was closer to a corner of the
image than the opposite corner is, so a Voronoi cell could be cut off.
---
 triangulation/incrdelaunay/geom.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/triangulation/incrdelaunay/geom.go b/triangulation/incrdelaunay/geom.go
index ec7a321..690d932 100644
--- a/triangulation/incrdelaunay/geom.go
+++ b/triangulation/incrdelaunay/geom.go
@@ -34,6 +34,12 @@ func NewSuperTriangle(w, h int) Triangle {
 	if h > w {
 		max = int16(h)
 	}
+	if max < 4 {
+		// Around tiny images the triangle would be too tight as the center is rounded: its vertices could be
+		// closer to a corner of the image than a point is, and for a 1x1 image the X of its vertex A would
+		// be -1, which marks removed triangles
+		max = 4
+	}
 	a := Point{hW - 2*max, hH - max}
 	b := Point{hW, hH + 2*max}
 	c := Point{hW + 2*max, hH - max}
-- 
2.43.0


From 00b6f8758ad8e36722def204dbfad89cfcbb0737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:50 +0000
Subject: [PATCH 04/20] fix: don't overflow the colour sums of large blocks

The sums of 17x17 and larger blocks don't fit in 16 bits (the squares of
149x149 ones don't fit in 32), which made the fitness wrong.
---
 fitness/pixels.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/fitness/pixels.go b/fitness/pixels.go
index 8a6360d..d4a1947 100644
--- a/fitness/pixels.go
+++ b/fitness/pixels.go
@@ -61,8 +61,8 @@ type pixelDataN struct {
 
 // pixel stores RGB values of a pixel as well as the sum of their squares in a N*N block.
 type pixelN struct {
-	r, g, b uint16
-	sq      uint32
+	r, g, b uint32
+	sq      uint64
 }
 
 // newPixelDataN creates a new pixelDataN given a width and height.
@@ -89,10 +89,10 @@ func fromImageN(image image.Data, n int) pixelDataN {
 			for i := 0; i < n; i++ {
 				for j := 0; j < n; j++ {
 					rgb := image.RGBAt(x+i, y+j)
-					col.r += uint16(rgb.R * 255)
-					col.g += uint16(rgb.G * 255)
-					col.b += uint16(rgb.B * 255)
-					col.sq += uint32(rgb.R*255*rgb.R*255 + rgb.G*255*rgb.G*255 + rgb.B*255*rgb.B*255)
+					col.r += uint32(rgb.R * 255)
+					col.g += uint32(rgb.G * 255)
+					col.b += uint32(rgb.B * 255)
+					col.sq += uint64(rgb.R*255*rgb.R*255 + rgb.G*255*rgb.G*255 + rgb.B*255*rgb.B*255)
 				}
 			}
 		}
-- 
2.43.0


From aa554768d8767356935d78cec3e0b19961fa0b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:09 +0000
Subject: [PATCH 05/20] fix: accept block sizes larger than the image

Creating a fitness function panicked if no block fits in the image.
---
 fitness/pixels.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fitness/pixels.go b/fitness/pixels.go
index d4a1947..70b435c 100644
--- a/fitness/pixels.go
+++ b/fitness/pixels.go
@@ -68,6 +68,9 @@ type pixelN struct {
 // newPixelDataN creates a new pixelDataN given a width and height.
 func newPixelDataN(w, h, n int) pixelDataN {
 	data := pixelDataN{}
+	if n > w || n > h {
+		return data // No block fits in the image
+	}
 	data.pixels = make([][]pixelN, h-n+1)
 
 	for i := range data.pixels {
-- 
2.43.0


From e4ed0156db9814e060b67d4c31aa74b988a544b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:09 +0000
Subject: [PATCH 06/20] fix: convert images whose bounds don't start at the
 origin

Cropped images got the size of the original, and pixels outside of their
bounds were read as transparent black.
---
 image/rgbdata.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/image/rgbdata.go b/image/rgbdata.go
index f422e87..ba44f6b 100644
--- a/image/rgbdata.go
+++ b/image/rgbdata.go
@@ -37,12 +37,13 @@ func NewData(w, h int) RGBData {
 
 // ToData converts an image.Image to a RGBData.
 func ToData(image image.Image) RGBData {
-	data := NewData(image.Bounds().Max.X, image.Bounds().Max.Y)
+	bounds := image.Bounds()
+	data := NewData(bounds.Dx(), bounds.Dy())
 
 	for y := range data.pixels {
 		for x := range data.pixels[y] {
 			col := &data.pixels[y][x]
-			r, g, b, _ := image.At(x, y).RGBA()
+			r, g, b, _ := image.At(bounds.Min.X+x, bounds.Min.Y+y).RGBA()
 
 			col.R = convertColor(r)
 			col.G = convertColor(g)
-- 
2.43.0


From feb8b1342f3a4b091fa8ef6f47ae0e226b812f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:09 +0000
Subject: [PATCH 07/20] fix: flush the trace before closing its file

The end of the trace stayed in the buffered writer, so trace files were truncated.
---
 utils/trace.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/trace.go b/utils/trace.go
index 4631437..3a39716 100644
--- a/utils/trace.go
+++ b/utils/trace.go
@@ -21,5 +21,6 @@ func GenerateTrace(outputFile string, algo algorithm.Algorithm) {
 		algo.Step()
 	}
 	trace.Stop()
+	writer.Flush()
 	dataFile.Close()
 }
-- 
2.43.0


From f089969e814ec5c0ea997046fceb4b1a3293d3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:09 +0000
Subject: [PATCH 08/20] fix: accept a cache with a single entry

The fitness functions started with a cache of two entries, so they could put
their first results at index 1 of the evaluator's cache of one entry.
---
 fitness/polygons.go  | 2 +-
 fitness/triangles.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/fitness/polygons.go b/fitness/polygons.go
index a82df75..5bb4ea4 100644
--- a/fitness/polygons.go
+++ b/fitness/polygons.go
@@ -181,7 +181,7 @@ func PolygonsImageFunctions(target image.Data, blockSize, n int) []CacheFunction
 			targetN:       pixelsN,
 			blockSize:     blockSize,
 			maxDifference: maxDiff,
-			TriangleCache: make([]CacheData, 2),
+			TriangleCache: make([]CacheData, 1),
 		}
 		functions[i] = &function
 	}
diff --git a/fitness/triangles.go b/fitness/triangles.go
index 648c7e8..3dd2a41 100644
--- a/fitness/triangles.go
+++ b/fitness/triangles.go
@@ -187,7 +187,7 @@ func TrianglesImageFunctions(target image.Data, blockSize, n int) []CacheFunctio
 			targetN:       pixelsN,
 			blockSize:     blockSize,
 			maxDifference: maxDiff,
-			TriangleCache: make([]CacheData, 2),
+			TriangleCache: make([]CacheData, 1),
 		}
 		functions[i] = &function
 	}
@@ -204,6 +204,6 @@ func NewTrianglesImageFunction(target image.Data, blockSize int) CacheFunction {
 		targetN:       fromImageN(target, blockSize),
 		blockSize:     blockSize,
 		maxDifference: float64(maxPixelDifference * w * h),
-		TriangleCache: make([]CacheData, 2),
+		TriangleCache: make([]CacheData, 1),
 	}
 }
-- 
2.43.0


From ada65c37fd81df935c7d94fe7ebe023f168a629c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:35 +0000
Subject: [PATCH 09/20] fix: rank members that weren't evaluated below every
 evaluated one

They got a fitness of 0, so with a fitness function returning negative values
a stale member was reported as the best one with a fitness it doesn't have.
---
 algorithm/modifiedgenetic.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/algorithm/modifiedgenetic.go b/algorithm/modifiedgenetic.go
index 7d9d165..9496e07 100644
--- a/algorithm/modifiedgenetic.go
+++ b/algorithm/modifiedgenetic.go
@@ -6,6 +6,7 @@ import (
 	"github.com/RH12503/Triangula/mutation"
 	"github.com/RH12503/Triangula/normgeom"
 	"github.com/panjf2000/ants/v2"
+	"math"
 	"sort"
 	"time"
 )
@@ -199,8 +200,8 @@ func (g *modifiedGenetic) combineMutations() {
 			g.evaluator.Update(i)
 		} else {
 			// If there aren't any beneficial mutations, leave the member out of the next generation by setting
-			// its fitness to 0
-			g.fitnesses[i].Fitness = 0
+			// its fitness below that of all other members
+			g.fitnesses[i].Fitness = math.Inf(-1)
 		}
 	}
 }
@@ -269,6 +270,11 @@ func NewModifiedGenetic(newPointGroup func() normgeom.NormPointGroup, size int,
 
 	algo.cutoff = cutoff
 
+	// The members at the end aren't evaluated until there are mutations to combine
+	for i := size - cutoff; i < size; i++ {
+		algo.fitnesses[i].Fitness = math.Inf(-1)
+	}
+
 	// Calculate and update fitnesses in preparation for the first generation
 	algo.calculateFitnesses()
 	algo.updateFitnesses()
-- 
2.43.0


From 95d6c16fd720d3127148bf01df495122e8aafbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:20 +0000
Subject: [PATCH 10/20] fix: evaluate the given points when a fitness function
 is reused

Without a base, a fitness function that had been used before returned the
fitness of the first point group it was given, whatever the points, so it was
wrong with the evaluators that don't set bases.
---
 fitness/polygons.go  | 13 ++++++++++---
 fitness/triangles.go | 13 ++++++++++---
 fitness/util.go      | 18 +++++++++++++++++-
 3 files changed, 37 insertions(+), 7 deletions(-)

diff --git a/fitness/polygons.go b/fitness/polygons.go
index 5bb4ea4..8785aca 100644
--- a/fitness/polygons.go
+++ b/fitness/polygons.go
@@ -3,6 +3,7 @@ package fitness
 import (
 	"github.com/RH12503/Triangula/geom"
 	"github.com/RH12503/Triangula/image"
+	"github.com/RH12503/Triangula/normgeom"
 	"github.com/RH12503/Triangula/rasterize"
 	"github.com/RH12503/Triangula/triangulation/incrdelaunay"
 )
@@ -25,6 +26,8 @@ type polygonsImageFunction struct {
 	// The triangulation of the points before being mutated accessed from the
 	// fitness function's base.
 	Base *incrdelaunay.IVoronoi
+
+	points normgeom.NormPointGroup // The points which were last triangulated.
 }
 
 // Calculate returns the fitness of a group of points.
@@ -33,7 +36,7 @@ func (g *polygonsImageFunction) Calculate(data PointsData) float64 {
 
 	w, h := g.target.Size()
 
-	if g.Triangulation == nil {
+	if g.Triangulation == nil || (g.Base == nil && !equalPoints(g.points, points)) {
 		// If there's no base triangulation, the whole triangulation needs to be recalculated
 		g.Triangulation = incrdelaunay.NewVoronoi(w, h)
 		for _, p := range points {
@@ -55,6 +58,7 @@ func (g *polygonsImageFunction) Calculate(data PointsData) float64 {
 
 	// Prepare for next generation
 	g.Base = nil
+	g.points = append(g.points[:0], points...)
 
 	g.nextCache = g.nextCache[:0]
 
@@ -65,9 +69,12 @@ func (g *polygonsImageFunction) Calculate(data PointsData) float64 {
 
 	var difference float64
 
-	cacheMask := uint64(len(g.TriangleCache)) - 1
-
 	tris := g.TriangleCache
+	if len(tris) == 0 {
+		tris = make([]CacheData, 1) // Nothing was cached for the last point group
+	}
+
+	cacheMask := uint64(len(tris)) - 1
 
 	var polygon geom.Polygon
 
diff --git a/fitness/triangles.go b/fitness/triangles.go
index 3dd2a41..51b12a3 100644
--- a/fitness/triangles.go
+++ b/fitness/triangles.go
@@ -3,6 +3,7 @@ package fitness
 import (
 	"github.com/RH12503/Triangula/geom"
 	"github.com/RH12503/Triangula/image"
+	"github.com/RH12503/Triangula/normgeom"
 	"github.com/RH12503/Triangula/rasterize"
 	"github.com/RH12503/Triangula/triangulation/incrdelaunay"
 	"math"
@@ -33,6 +34,8 @@ type trianglesImageFunction struct {
 	// The triangulation of the points before being mutated accessed from the
 	// fitness function's base.
 	Base *incrdelaunay.Delaunay
+
+	points normgeom.NormPointGroup // The points which were last triangulated.
 }
 
 // Calculate returns the fitness of a group of points.
@@ -41,7 +44,7 @@ func (t *trianglesImageFunction) Calculate(data PointsData) float64 {
 
 	w, h := t.target.Size()
 
-	if t.Triangulation == nil {
+	if t.Triangulation == nil || (t.Base == nil && !equalPoints(t.points, points)) {
 		// If there's no base triangulation, the whole triangulation needs to be recalculated
 		t.Triangulation = incrdelaunay.NewDelaunay(w, h)
 		for _, p := range points {
@@ -63,6 +66,7 @@ func (t *trianglesImageFunction) Calculate(data PointsData) float64 {
 
 	// Prepare for next generation
 	t.Base = nil
+	t.points = append(t.points[:0], points...)
 
 	t.nextCache = t.nextCache[:0]
 
@@ -73,9 +77,12 @@ func (t *trianglesImageFunction) Calculate(data PointsData) float64 {
 
 	var difference float64
 
-	cacheMask := uint64(len(t.TriangleCache)) - 1
-
 	tris := t.TriangleCache
+	if len(tris) == 0 {
+		tris = make([]CacheData, 1) // Nothing was cached for the last point group
+	}
+
+	cacheMask := uint64(len(tris)) - 1
 
 	area := 0.
 
diff --git a/fitness/util.go b/fitness/util.go
index 5cdfbe9..2ccf956 100644
--- a/fitness/util.go
+++ b/fitness/util.go
@@ -1,6 +1,9 @@
 package fitness
 
-import "github.com/RH12503/Triangula/triangulation/incrdelaunay"
+import (
+	"github.com/RH12503/Triangula/normgeom"
+	"github.com/RH12503/Triangula/triangulation/incrdelaunay"
+)
 
 // The maximum difference for each pixel
 // there can be when compared to the target image. Variance is calculated, so the
@@ -18,3 +21,16 @@ func createPoint(x, y float64, w, h int) incrdelaunay.Point {
 		Y: int16(fastRound(y * float64(h))),
 	}
 }
+
+// equalPoints returns if two point groups have the same points in the same order.
+func equalPoints(a, b normgeom.NormPointGroup) bool {
+	if len(a) != len(b) {
+		return false
+	}
+	for i, p := range a {
+		if p != b[i] {
+			return false
+		}
+	}
+	return true
+}
-- 
2.43.0


From 7c6436bd44758ef2880cf0542072bc51fe8ff258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:35 +0000
Subject: [PATCH 11/20] fix: don't move spaced points onto points in the same
 place

A point was never compared with others at its own position, so points
constrained to the same corner of the unit square ended up on top of
each other.
---
 generator/spaced.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/generator/spaced.go b/generator/spaced.go
index 8d857e6..079975d 100644
--- a/generator/spaced.go
+++ b/generator/spaced.go
@@ -29,13 +29,13 @@ func (s spacedGenerator) Generate(n int) normgeom.NormPointGroup {
 		p := points[ran]
 		point := &points[ran]
 
-		_, currDist := closestTo(p, points)
+		_, currDist := closestTo(p, ran, points)
 		p.X += (rand.Float64() - 0.5) * temp
 		p.Y += (rand.Float64() - 0.5) * temp
 
 		p.Constrain()
 
-		_, newDist := closestTo(p, points)
+		_, newDist := closestTo(p, ran, points)
 
 		if newDist > currDist {
 			point.X = p.X
@@ -47,12 +47,13 @@ func (s spacedGenerator) Generate(n int) normgeom.NormPointGroup {
 	return points
 }
 
-func closestTo(point normgeom.NormPoint, group normgeom.NormPointGroup) (normgeom.NormPoint, float64) {
+// closestTo returns the point of a group closest to another and its distance, ignoring the point at an index.
+func closestTo(point normgeom.NormPoint, index int, group normgeom.NormPointGroup) (normgeom.NormPoint, float64) {
 	closest := group[0]
 	dist := -1.
 
-	for _, p := range group {
-		if p == point {
+	for i, p := range group {
+		if i == index {
 			continue
 		}
 
-- 
2.43.0


From bc3859a1f16c7fd7cf3e130f6747f0477351054e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:54 +0000
Subject: [PATCH 12/20] fix: keep random floats below 1

The largest integers were rounded up to 1 when converted to a float, so
a gaussian mutation with a rate of 1 could leave a point out.
---
 random/random.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/random/random.go b/random/random.go
index a11ce8f..3827883 100644
--- a/random/random.go
+++ b/random/random.go
@@ -15,9 +15,14 @@ func Intn(n int) int {
 	return int(pcg.Bound(uint32(n)))
 }
 
-// Float32 returns a random float32.
+// Float32 returns a random float32 which is at least 0 and less than 1.
 func Float32() float32 {
-	return pcg.Float32()
+	for {
+		// The largest integers are rounded up to 1
+		if f := pcg.Float32(); f < 1 {
+			return f
+		}
+	}
 }
 
 // Int63 returns a random int64.
-- 
2.43.0


From acff0f94ee915386e875d8a43b3dafb24d4551a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:13 +0000
Subject: [PATCH 13/20] fix: index triangles with 32 bits, so that more than
 32767 points don't corrupt the triangulation

---
 triangulation/incrdelaunay/delaunay.go | 12 ++++++------
 triangulation/incrdelaunay/grid.go     | 20 ++++++++++----------
 triangulation/incrdelaunay/voronoi.go  |  8 ++++----
 3 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/triangulation/incrdelaunay/delaunay.go b/triangulation/incrdelaunay/delaunay.go
index 5d5051b..78775ee 100644
--- a/triangulation/incrdelaunay/delaunay.go
+++ b/triangulation/incrdelaunay/delaunay.go
@@ -15,7 +15,7 @@ type Delaunay struct {
 
 	pointMap pointMap
 
-	freeTriangles []uint16 // A list of free indexes in the triangles slice.
+	freeTriangles []uint32 // A list of free indexes in the triangles slice.
 
 	superTriangle Triangle // A triangle that contains all points added.
 
@@ -57,7 +57,7 @@ func (d *Delaunay) Insert(p Point) bool {
 	d.resetEdges()
 
 	// Iterate through all the triangles with circumcircles that contain the point
-	d.grid.RemoveCircumcirclesThatContain(p, d.triangles, func(i uint16) {
+	d.grid.RemoveCircumcirclesThatContain(p, d.triangles, func(i uint32) {
 		t := d.triangles[i]
 
 		d.addEdge(NewEdge(t.A, t.B))
@@ -110,7 +110,7 @@ func (d *Delaunay) Remove(p Point) {
 	}
 
 	// Iterates through all the triangles that have a connection to point p
-	d.grid.RemoveThatHasVertex(p, d.triangles, func(i uint16) {
+	d.grid.RemoveThatHasVertex(p, d.triangles, func(i uint32) {
 		t := d.triangles[i]
 
 		addPoint(t.A)
@@ -243,14 +243,14 @@ func (d *Delaunay) addTriangle(t Triangle) {
 		return
 	}
 
-	d.grid.AddTriangle(t, uint16(len(d.triangles))) // Update the grid
+	d.grid.AddTriangle(t, uint32(len(d.triangles))) // Update the grid
 
 	d.triangles = append(d.triangles, t)
 }
 
 // markFreeTriangle marks a triangle in the triangles slice as no longer being needed,
 // essentially removing the triangle from the triangulation.
-func (d *Delaunay) markFreeTriangle(i uint16) {
+func (d *Delaunay) markFreeTriangle(i uint32) {
 	d.triangles[i].A.X = -1 // Marks the triangle as invalid
 	d.freeTriangles = append(d.freeTriangles, i)
 }
@@ -292,7 +292,7 @@ func (d *Delaunay) Set(other *Delaunay) {
 	if len(d.freeTriangles) > len(other.freeTriangles) {
 		d.freeTriangles = d.freeTriangles[:len(other.freeTriangles)]
 	} else if len(d.freeTriangles) < len(other.freeTriangles) {
-		d.freeTriangles = make([]uint16, len(other.freeTriangles))
+		d.freeTriangles = make([]uint32, len(other.freeTriangles))
 	}
 
 	copy(d.freeTriangles, other.freeTriangles)
diff --git a/triangulation/incrdelaunay/grid.go b/triangulation/incrdelaunay/grid.go
index 71f08ce..6734a61 100644
--- a/triangulation/incrdelaunay/grid.go
+++ b/triangulation/incrdelaunay/grid.go
@@ -7,7 +7,7 @@ import (
 // CircumcircleGrid is a data structure that uses spatial partitioning to allowed fast operations
 // involving multiple Triangle's and their Circumcircle's.
 type CircumcircleGrid struct {
-	triangles            [][][]uint16 // The grid used to store triangles
+	triangles            [][][]uint32 // The grid used to store triangles
 	cols, rows           int
 	rowPixels, colPixels float64 // The number of pixels per row and column
 }
@@ -20,15 +20,15 @@ func NewCircumcircleGrid(cols, rows, w, h int) CircumcircleGrid {
 	c.colPixels = float64(w) / float64(cols)
 	c.rowPixels = float64(h) / float64(rows)
 
-	c.triangles = make([][][]uint16, c.rows)
+	c.triangles = make([][][]uint32, c.rows)
 	for i := range c.triangles {
-		c.triangles[i] = make([][]uint16, c.cols)
+		c.triangles[i] = make([][]uint32, c.cols)
 	}
 	return c
 }
 
 // AddTriangle adds a Triangle with an index to the grid.
-func (c *CircumcircleGrid) AddTriangle(t Triangle, index uint16) {
+func (c *CircumcircleGrid) AddTriangle(t Triangle, index uint32) {
 	// Find all the boxes of the grid that the triangle's circumcircle intersects
 	radius := t.Circumcircle.Radius + 0.001
 	topLeftX := int(float64(t.Circumcircle.cX-radius) / c.colPixels)
@@ -61,7 +61,7 @@ func (c *CircumcircleGrid) AddTriangle(t Triangle, index uint16) {
 }
 
 // RemoveTriangle removes a triangle from the grid.
-func (c *CircumcircleGrid) RemoveTriangle(tri Triangle, index uint16) {
+func (c *CircumcircleGrid) RemoveTriangle(tri Triangle, index uint32) {
 	// Find all the boxes of the grid that the triangle's circumcircle intersects
 	radius := tri.Circumcircle.Radius + 0.001
 	topLeftX := int(float64(tri.Circumcircle.cX-radius) / c.colPixels)
@@ -133,7 +133,7 @@ func (c CircumcircleGrid) HasPoint(p Point, triangles []Triangle) bool {
 }
 
 // RemoveCircumcirclesThatContain removes all triangles whose circumcircle contain a point.
-func (c CircumcircleGrid) RemoveCircumcirclesThatContain(p Point, triangles []Triangle, contains func(i uint16)) {
+func (c CircumcircleGrid) RemoveCircumcirclesThatContain(p Point, triangles []Triangle, contains func(i uint32)) {
 	// Find which box of the grid the point falls into
 	x := int(math.Floor(float64(p.X) / c.colPixels))
 	y := int(math.Floor(float64(p.Y) / c.rowPixels))
@@ -166,7 +166,7 @@ func (c CircumcircleGrid) RemoveCircumcirclesThatContain(p Point, triangles []Tr
 	}
 }
 
-func (c CircumcircleGrid) IterCircumcirclesThatContain(p Point, triangles []Triangle, contains func(i uint16)) {
+func (c CircumcircleGrid) IterCircumcirclesThatContain(p Point, triangles []Triangle, contains func(i uint32)) {
 	// Find which box of the grid the point falls into
 	x := int(math.Floor(float64(p.X) / c.colPixels))
 	y := int(math.Floor(float64(p.Y) / c.rowPixels))
@@ -196,7 +196,7 @@ func (c CircumcircleGrid) IterCircumcirclesThatContain(p Point, triangles []Tria
 }
 
 // RemoveThatHasVertex removes all triangles that have a vertex.
-func (c CircumcircleGrid) RemoveThatHasVertex(p Point, triangles []Triangle, contains func(i uint16)) {
+func (c CircumcircleGrid) RemoveThatHasVertex(p Point, triangles []Triangle, contains func(i uint32)) {
 	// Find which box of the grid the point falls into
 	x := int(math.Floor(float64(p.X) / c.colPixels))
 	y := int(math.Floor(float64(p.Y) / c.rowPixels))
@@ -226,7 +226,7 @@ func (c CircumcircleGrid) RemoveThatHasVertex(p Point, triangles []Triangle, con
 	}
 }
 
-func (c CircumcircleGrid) IterThatHasVertex(p Point, triangles []Triangle, contains func(i uint16)) {
+func (c CircumcircleGrid) IterThatHasVertex(p Point, triangles []Triangle, contains func(i uint32)) {
 	// Find which box of the grid the point falls into
 	x := int(math.Floor(float64(p.X) / c.colPixels))
 	y := int(math.Floor(float64(p.Y) / c.rowPixels))
@@ -262,7 +262,7 @@ func (c *CircumcircleGrid) Set(other *CircumcircleGrid) {
 			if len(c.triangles[x][y]) > len(other.triangles[x][y]) {
 				c.triangles[x][y] = c.triangles[x][y][:len(other.triangles[x][y])]
 			} else if len(c.triangles[x][y]) < len(other.triangles[x][y]) {
-				c.triangles[x][y] = make([]uint16, len(other.triangles[x][y]))
+				c.triangles[x][y] = make([]uint32, len(other.triangles[x][y]))
 			}
 
 			copy(c.triangles[x][y], other.triangles[x][y])
diff --git a/triangulation/incrdelaunay/voronoi.go b/triangulation/incrdelaunay/voronoi.go
index 26a7e40..a8091ac 100644
--- a/triangulation/incrdelaunay/voronoi.go
+++ b/triangulation/incrdelaunay/voronoi.go
@@ -35,7 +35,7 @@ func (v *IVoronoi) Insert(point Point) {
 	v.pointsToUpdate = v.pointsToUpdate[:0]
 	triangles := v.delaunay.triangles
 
-	v.delaunay.grid.IterCircumcirclesThatContain(point, triangles, func(i uint16) {
+	v.delaunay.grid.IterCircumcirclesThatContain(point, triangles, func(i uint32) {
 		t := triangles[i]
 		v.addPointToUpdate(t.A)
 		v.addPointToUpdate(t.B)
@@ -65,7 +65,7 @@ func (v *IVoronoi) Remove(point Point) {
 	v.pointsToUpdate = v.pointsToUpdate[:0]
 	triangles := v.delaunay.triangles
 
-	v.delaunay.grid.IterThatHasVertex(point, triangles, func(i uint16) {
+	v.delaunay.grid.IterThatHasVertex(point, triangles, func(i uint32) {
 		t := triangles[i]
 
 		v.addPointToUpdate(t.A)
@@ -102,7 +102,7 @@ func (v *IVoronoi) processPoint(point Point) {
 	v.points = v.points[:0]
 	clip := false
 
-	v.delaunay.grid.IterThatHasVertex(point, triangles, func(i uint16) {
+	v.delaunay.grid.IterThatHasVertex(point, triangles, func(i uint32) {
 		circ := triangles[i].Circumcircle
 
 		new := FloatPoint{
@@ -301,7 +301,7 @@ func Voronoi(delaunay *Delaunay, polygon func([]FloatPoint), w, h int) {
 		points = points[:0]
 		clip := false
 
-		delaunay.grid.IterThatHasVertex(point, triangles, func(i uint16) {
+		delaunay.grid.IterThatHasVertex(point, triangles, func(i uint32) {
 			circ := triangles[i].Circumcircle
 
 			new := FloatPoint{
-- 
2.43.0


From 10fa20f2e90ce48cc6f3741d32a6d73d71085acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:43 +0000
Subject: [PATCH 14/20] fix: count copies of a point with 32 bits, so that the
 65537th isn't lost

---
 triangulation/incrdelaunay/pointmap.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/triangulation/incrdelaunay/pointmap.go b/triangulation/incrdelaunay/pointmap.go
index da8210a..e8004c9 100644
--- a/triangulation/incrdelaunay/pointmap.go
+++ b/triangulation/incrdelaunay/pointmap.go
@@ -13,7 +13,7 @@ func newPointMap(size int) pointMap {
 }
 
 // AddPoint adds a point to the pointMap, accounting for duplicates.
-func (pm *pointMap) AddPoint(point Point) uint16 {
+func (pm *pointMap) AddPoint(point Point) uint32 {
 	x, y := uint16(point.X), uint16(point.Y)
 	index := point.Hash() % len(pm.points)
 
@@ -36,7 +36,7 @@ func (pm *pointMap) AddPoint(point Point) uint16 {
 
 // RemovePoint removes a point from the pointMap, accounting for duplicates,
 // and returning the number of the same point left.
-func (pm *pointMap) RemovePoint(point Point) uint16 {
+func (pm *pointMap) RemovePoint(point Point) uint32 {
 	x, y := uint16(point.X), uint16(point.Y)
 	index := point.Hash() % len(pm.points)
 
@@ -58,7 +58,7 @@ func (pm *pointMap) RemovePoint(point Point) uint16 {
 	panic("point doesn't exist")
 }
 
-func (pm *pointMap) CopiesOf(point Point) uint16 {
+func (pm *pointMap) CopiesOf(point Point) uint32 {
 	x, y := uint16(point.X), uint16(point.Y)
 	index := point.Hash() % len(pm.points)
 
@@ -109,5 +109,5 @@ func (pm pointMap) IterPoints(point func(Point)) {
 // pointEntry is used to keep track of a point and how many copies of a point there are.
 type pointEntry struct {
 	x, y  uint16
-	count uint16 // the number of a point the hash table contains.
+	count uint32 // the number of a point the hash table contains.
 }
-- 
2.43.0


From 76201009db1e3558bbad49c8609667fe6736722e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:24 +0000
Subject: [PATCH 15/20] fix: 16-bit overflows in sums and differences of
 coordinates

In images of more than 8191 pixels a side, the differences and sums of coordinates
overflowed: Voronoi cells overlapped and triangulations were wrong.
---
 triangulation/incrdelaunay/delaunay.go |  6 +++---
 triangulation/incrdelaunay/geom.go     | 23 ++++++++++++++---------
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/triangulation/incrdelaunay/delaunay.go b/triangulation/incrdelaunay/delaunay.go
index 78775ee..b8a3dd7 100644
--- a/triangulation/incrdelaunay/delaunay.go
+++ b/triangulation/incrdelaunay/delaunay.go
@@ -69,9 +69,9 @@ func (d *Delaunay) Insert(p Point) bool {
 
 	// Connect the vertices along the hole to the point
 	for _, e := range d.edges {
-		A := int64(e.B.X - e.A.X)
-		B := int64(e.B.Y - e.A.Y)
-		G := A*int64(p.Y-e.B.Y) - B*int64(p.X-e.B.X)
+		A := int64(e.B.X) - int64(e.A.X)
+		B := int64(e.B.Y) - int64(e.A.Y)
+		G := A*(int64(p.Y)-int64(e.B.Y)) - B*(int64(p.X)-int64(e.B.X))
 		if G != 0 {
 			new := NewTriangle(e.A, e.B, p)
 			d.addTriangle(new)
diff --git a/triangulation/incrdelaunay/geom.go b/triangulation/incrdelaunay/geom.go
index 690d932..b045004 100644
--- a/triangulation/incrdelaunay/geom.go
+++ b/triangulation/incrdelaunay/geom.go
@@ -54,8 +54,8 @@ type Point struct {
 
 // DistSq returns the distance squared to another point.
 func (p Point) DistSq(b Point) int64 {
-	dX := int64(b.X - p.X)
-	dY := int64(b.Y - p.Y)
+	dX := int64(b.X) - int64(p.X)
+	dY := int64(b.Y) - int64(p.Y)
 
 	return dX*dX + dY*dY
 }
@@ -75,15 +75,20 @@ type Circumcircle struct {
 func calcCircumcircle(v0, v1, v2 Point) Circumcircle {
 	var circumcircle Circumcircle
 
-	A := int64(v1.X - v0.X)
-	B := int64(v1.Y - v0.Y)
-	C := int64(v2.X - v0.X)
-	D := int64(v2.Y - v0.Y)
+	// Sums and differences of coordinates don't fit into 16 bits for large images
+	x0, y0 := int64(v0.X), int64(v0.Y)
+	x1, y1 := int64(v1.X), int64(v1.Y)
+	x2, y2 := int64(v2.X), int64(v2.Y)
 
-	E := A*int64(v0.X+v1.X) + B*int64(v0.Y+v1.Y)
-	F := C*int64(v0.X+v2.X) + D*int64(v0.Y+v2.Y)
+	A := x1 - x0
+	B := y1 - y0
+	C := x2 - x0
+	D := y2 - y0
 
-	G := float64(2 * (A*int64(v2.Y-v1.Y) - B*int64(v2.X-v1.X)))
+	E := A*(x0+x1) + B*(y0+y1)
+	F := C*(x0+x2) + D*(y0+y2)
+
+	G := float64(2 * (A*(y2-y1) - B*(x2-x1)))
 
 	cx := float64(D*E-B*F) / G
 	cy := float64(A*F-C*E) / G
-- 
2.43.0


From 9537230a5d4cfec37002aa6580cfac5a1e73b1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:24 +0000
Subject: [PATCH 16/20] fix: circumcircles larger than 32768 pixels were
 missing from the grid

The fixed slack of 0.001 vanishes in the rounding of such 32-bit floats, so that triangles
touching a border of a large image were not found, and their Voronoi cells lost corners.
---
 triangulation/incrdelaunay/grid.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/triangulation/incrdelaunay/grid.go b/triangulation/incrdelaunay/grid.go
index 6734a61..f211f1a 100644
--- a/triangulation/incrdelaunay/grid.go
+++ b/triangulation/incrdelaunay/grid.go
@@ -30,11 +30,13 @@ func NewCircumcircleGrid(cols, rows, w, h int) CircumcircleGrid {
 // AddTriangle adds a Triangle with an index to the grid.
 func (c *CircumcircleGrid) AddTriangle(t Triangle, index uint32) {
 	// Find all the boxes of the grid that the triangle's circumcircle intersects
-	radius := t.Circumcircle.Radius + 0.001
-	topLeftX := int(float64(t.Circumcircle.cX-radius) / c.colPixels)
-	topLeftY := int(float64(t.Circumcircle.cY-radius) / c.rowPixels)
-	bottomRightX := int(math.Ceil(float64(t.Circumcircle.cX+radius) / c.colPixels))
-	bottomRightY := int(math.Ceil(float64(t.Circumcircle.cY+radius) / c.rowPixels))
+	// (the radius is increased by more than the rounding errors of large circumcircles)
+	centerX, centerY := float64(t.Circumcircle.cX), float64(t.Circumcircle.cY)
+	radius := float64(t.Circumcircle.Radius)*(1+1e-6) + 0.001
+	topLeftX := int((centerX - radius) / c.colPixels)
+	topLeftY := int((centerY - radius) / c.rowPixels)
+	bottomRightX := int(math.Ceil((centerX + radius) / c.colPixels))
+	bottomRightY := int(math.Ceil((centerY + radius) / c.rowPixels))
 
 	if topLeftX < 0 {
 		topLeftX = 0
@@ -63,11 +65,13 @@ func (c *CircumcircleGrid) AddTriangle(t Triangle, index uint32) {
 // RemoveTriangle removes a triangle from the grid.
 func (c *CircumcircleGrid) RemoveTriangle(tri Triangle, index uint32) {
 	// Find all the boxes of the grid that the triangle's circumcircle intersects
-	radius := tri.Circumcircle.Radius + 0.001
-	topLeftX := int(float64(tri.Circumcircle.cX-radius) / c.colPixels)
-	topLeftY := int(float64(tri.Circumcircle.cY-radius) / c.rowPixels)
-	bottomRightX := int(math.Ceil(float64(tri.Circumcircle.cX+radius) / c.colPixels))
-	bottomRightY := int(math.Ceil(float64(tri.Circumcircle.cY+radius) / c.rowPixels))
+	// (the radius is increased by more than the rounding errors of large circumcircles)
+	centerX, centerY := float64(tri.Circumcircle.cX), float64(tri.Circumcircle.cY)
+	radius := float64(tri.Circumcircle.Radius)*(1+1e-6) + 0.001
+	topLeftX := int((centerX - radius) / c.colPixels)
+	topLeftY := int((centerY - radius) / c.rowPixels)
+	bottomRightX := int(math.Ceil((centerX + radius) / c.colPixels))
+	bottomRightY := int(math.Ceil((centerY + radius) / c.rowPixels))
 
 	if topLeftX < 0 {
 		topLeftX = 0
-- 
2.43.0


From 46a5a5e5a5ceb4f7461202d07019dd36f99c2d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:09 +0000
Subject: [PATCH 17/20] fix: round 0.49999999999999994 down in fitness
 functions

Adding 0.5 to it yields 1, so the polygons scored differed from those of polygonation.Polygonate.
---
 fitness/util.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fitness/util.go b/fitness/util.go
index 2ccf956..c119975 100644
--- a/fitness/util.go
+++ b/fitness/util.go
@@ -10,9 +10,13 @@ import (
 // 255 needs to be squared.
 const maxPixelDifference = 255 * 255 * 3
 
-// fastRound is an optimized version of math.Round.
+// fastRound is an optimized version of math.Round for numbers which aren't negative.
 func fastRound(n float64) int {
-	return int(n+0.5) << 0
+	i := int(n)
+	if n-float64(i) >= 0.5 { // n + 0.5 could be rounded up
+		i++
+	}
+	return i
 }
 
 func createPoint(x, y float64, w, h int) incrdelaunay.Point {
-- 
2.43.0


From 7f3737ab008c37fa53d5ef7541663b437627eb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:45 +0000
Subject: [PATCH 18/20] fix: copying a triangulation or a diagram onto itself
 leaves it as it is

---
 triangulation/incrdelaunay/delaunay.go | 4 ++++
 triangulation/incrdelaunay/voronoi.go  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/triangulation/incrdelaunay/delaunay.go b/triangulation/incrdelaunay/delaunay.go
index b8a3dd7..940950a 100644
--- a/triangulation/incrdelaunay/delaunay.go
+++ b/triangulation/incrdelaunay/delaunay.go
@@ -278,6 +278,10 @@ func (d Delaunay) NumPoints() int {
 
 // Set sets the triangulation to another triangulation.
 func (d *Delaunay) Set(other *Delaunay) {
+	if d == other {
+		return // Resizing the slices below would change what is copied
+	}
+
 	d.triangles = d.triangles[:cap(d.triangles)]
 
 	if len(d.triangles) > len(other.triangles) {
diff --git a/triangulation/incrdelaunay/voronoi.go b/triangulation/incrdelaunay/voronoi.go
index a8091ac..7a720fe 100644
--- a/triangulation/incrdelaunay/voronoi.go
+++ b/triangulation/incrdelaunay/voronoi.go
@@ -278,6 +278,10 @@ func (v *IVoronoi) addPointToUpdate(point Point) {
 }
 
 func (v *IVoronoi) Set(other *IVoronoi) {
+	if v == other {
+		return
+	}
+
 	v.delaunay.Set(other.delaunay)
 	v.polygonMap.Set(&other.polygonMap)
 	v.w, v.h = other.w, other.h
-- 
2.43.0


From ff3708613eff2c968456e9c48171fa63de060632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:28 +0000
Subject: [PATCH 19/20] fix: bounds of 2^32 and more are not cut to 32 bits by
 Intn

---
 random/random.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/random/random.go b/random/random.go
index 3827883..cddb18b 100644
--- a/random/random.go
+++ b/random/random.go
@@ -12,6 +12,15 @@ var pcg = pcgr.New(2005, 0)
 
 // Intn returns a random int with a bound.
 func Intn(n int) int {
+	if n > 0 && uint64(n) > math.MaxUint32 {
+		// The bound doesn't fit in the 32 bits that pcg.Bound takes
+		max := math.MaxInt64 - (uint64(1)<<63)%uint64(n)
+		v := uint64(pcg.Int63())
+		for v > max {
+			v = uint64(pcg.Int63())
+		}
+		return int(v % uint64(n))
+	}
 	return int(pcg.Bound(uint32(n)))
 }
 
-- 
2.43.0


From 7dadcd60fe0f64b3875afbfa687154b808cee801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:56 +0000
Subject: [PATCH 20/20] fix: squared colour sums of shapes of more than about 7
 million pixels overflowed

---
 fitness/polygons.go  | 4 +++-
 fitness/triangles.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/fitness/polygons.go b/fitness/polygons.go
index 8785aca..d7415d2 100644
--- a/fitness/polygons.go
+++ b/fitness/polygons.go
@@ -138,7 +138,9 @@ func (g *polygonsImageFunction) Calculate(data PointsData) float64 {
 			})
 			var diff float64
 			if n != 0 {
-				diff = float64(sSq) - float64(sR0*sR0+sG0*sG0+sB0*sB0)/float64(n)
+				// The squares of the sums of large shapes don't fit in an int
+				r, g, b := float64(sR0), float64(sG0), float64(sB0)
+				diff = float64(sSq) - (r*r+g*g+b*b)/float64(n)
 			}
 			difference += diff
 			polyData.fitness = diff
diff --git a/fitness/triangles.go b/fitness/triangles.go
index 51b12a3..908b4b4 100644
--- a/fitness/triangles.go
+++ b/fitness/triangles.go
@@ -142,7 +142,9 @@ func (t *trianglesImageFunction) Calculate(data PointsData) float64 {
 			})
 			var diff float64
 			if n != 0 {
-				diff = float64(sSq) - float64(sR0*sR0+sG0*sG0+sB0*sB0)/float64(n)
+				// The squares of the sums of large shapes don't fit in an int
+				r, g, b := float64(sR0), float64(sG0), float64(sB0)
+				diff = float64(sSq) - (r*r+g*g+b*b)/float64(n)
 			}
 			difference += diff
 			triData.fitness = diff
-- 
2.43.0

